// The reverse proxy: what the upstream answers is what the client gets.
#include "startup.hpp"
static const char* conf_text = "http {\nserver s1 {\nlisten_port 8081;\nhost p.com {\npass_proxy 10.0.0.2:81;\n}\nhost q.com {\npass_proxy 10.0.0.7;\n}\nhost r.com {\npass_proxy u.ex:8;\n}\n}\n}\n";
static std::string sym_text(unsigned n, const char* name) {  // printable, no blanks
  std::string s;
  for (unsigned i = 0; i < n; i++) { char c = (char)sym_range(0x21, 0x7e, name); sym_assume(c != '#' && c != '?' && c != ':'); s += c; }
  return s;
}
extern "C" void sym_main() {
  if (start(conf_text) != SUCCESS) return;
  static const char* N[] = {"Host", "host", "HOST"}; static const char* H[] = {"p.com", "q.com", "r.com"};
  static std::string in, up; std::string body, hv = "v";
  unsigned method = 0, status = 200, framing = sym_choose(0, 2, "framing"), n = 0;
  static const char* M[] = {"GET", "HEAD", "DELETE", "OPTIONS"};
  std::string target = "/x", rv = "w";
#if MODE == 0    // small bodies, all bytes; every framing
  n = sym_choose(0, MAXB, "len");
  { uint8_t b[MAXB + 1]; sym_make(b, n, "body"); body = std::string((char*)b, n); }
#elif MODE == 1  // heads
  static const int S[] = {200, 206, 204, 304, 302, 404, 500};
  method = sym_choose(0, 3, "method"); status = S[sym_choose(0, 6, "status")];
  static const char* T[] = {"", "", "?b", "&&%20=", "/..//"}; target += sym_text(1, "target"); unsigned tail = framing || method || status != 200 ? 0 : sym_choose(0, 4, "tail"); if (tail != 1) target += "?a=" + sym_text(1, "query"); target += T[tail]; hv = sym_text(2, "hv"); rv = sym_text(2, "rv");
  body = "abc";
#else            // bodies around the copy buffer
  static const unsigned L[] = {1023, 1024, 1025, 2048, 2500};
  n = L[sym_choose(0, 4, "len")];
  { uint8_t b[4]; sym_make(b, 4, "body"); for (unsigned i = 0; i < n; i++) body += (char)(i % 251); body[0] = b[0]; body[1022] = b[1]; body[n - 1] = b[2]; body[n / 2] = b[3]; }
#endif
  bool bodiless = method == 1 || status == 204 || status == 304;
  unsigned host = MODE == 1 ? sym_choose(0, 2, "host") : 0;
  bool withport = MODE == 1 && status < 204 && sym_choose(0, 1, "port");
  in = std::string(M[method]) + " " + target + " HTTP/1.1\r\n" + (MODE == 1 ? N[sym_choose(0, 2, "name")] : N[0]) + ": " + H[host] + (withport ? ":8081" : "") + "\r\nX-A: " + hv + "\r\n\r\n";
  up = "HTTP/1.1 " + std::to_string(status) + " OK\r\nX-B: " + rv + "\r\n";
  char len[16]; snprintf(len, 16, "%u", (unsigned)body.size());
  if (framing == 0 && status != 204) up += std::string("Content-Length: ") + len + "\r\n";
  else if (framing == 1 && status != 204) up += "Transfer-Encoding: chunked\r\n";
  up += "\r\n";
  size_t head = up.size();
  if (!bodiless) {
    if (framing == 1) {
      size_t cut = body.size() > 1 ? (MODE == 0 ? sym_choose(1, (unsigned)body.size(), "chunk") : body.size() > 700 ? 700 : 2) : body.size();
      char h[16]; snprintf(h, 16, "%x\r\n", (unsigned)cut); if (cut) up += h + body.substr(0, cut) + "\r\n";
      snprintf(h, 16, "%x\r\n", (unsigned)(body.size() - cut)); if (cut < body.size()) up += h + body.substr(cut) + "\r\n";
      up += "0\r\n\r\n";
    } else up += body;
  }
  size_t full = up.size();
  bool cut = false;
  if (MODE == 0 && framing != 2 && sym_choose(0, 1, "iscut")) { up.resize(sym_choose(0, (unsigned)full - 1, "cut")); cut = true; }
  FakeIO* u = net_out[0] = new FakeIO((const uint8_t*)up.data(), up.size(), 0, cut && sym_choose(0, 1, "reset") ? ERROR_SOCKET_TIMEOUT : ERROR_SOCKET_CLOSED, 300);
  if (MODE == 0 && !cut) u->split(head);
  net_outs = 1;
  // a second, unknown request shows where the first answer ends
  in += "GET / HTTP/1.1\r\nHost: no\r\n\r\n";
  FakeIO* c = net_in[0] = new FakeIO((const uint8_t*)in.data(), in.size(), 0, ERROR_SOCKET_CLOSED, 4000);
  bool fails = MODE != 1 && !cut && sym_choose(0, 1, "fails");
  if (fails) { c->fail_at = sym_choose(0, 4, "failat"); c->fail_err = ERROR_SOCKET_TIMEOUT; }
  net_ins = 1;
  co_join();
  CHECK(net_dials == 1 && (net_ip[0] & 0xffffff) == 10 && (net_ip[0] >> 24) == (host == 2 ? 9u : host ? 7u : 2u) && net_port[0] == (host == 2 ? 8 : host ? 80 : 81), "the host's upstream is asked once");
  CHECK(net_in_closed(0) && net_outs_closed(), "all connections are closed");
  std::string req((char*)u->out, u->nout);
  std::string line = std::string(M[method]) + " " + target + " HTTP/1.1\r\n";
  CHECK(req.compare(0, line.size(), line) == 0 && req.find(std::string("\r\nHost: ") + H[host] + (withport ? "" : "\r\n")) != std::string::npos && req.find("\r\nX-A: " + hv + "\r\n") != std::string::npos, "the request is passed on as it is");
  CHECK(req.find("\r\n\r\n") == req.size() - 4, "one complete head");
  size_t hosts = 0; for (size_t k = 0; k + 8 < req.size(); k++) if (req[k] == '\n' && !strncasecmp(req.c_str() + k + 1, "host:", 5)) hosts++;
  CHECK(hosts == 1, "which names one host");
  std::string out((char*)c->out, c->nout);
  if (fails && c->writes > c->fail_at) { sym_reach("failed"); return; }
  Msg m;
  bool ok = read_msg(bodiless ? out.substr(0, out.find("\r\n\r\n") + 4) : out, 0, m);
  if (cut && !ok) { CHECK(out.empty() && up.size() < head, "without an answer the client gets none"); sym_reach("noanswer"); return; }
  CHECK(ok, "a well-formed answer");
  if (!ok) return;
  CHECK(m.status == (int)status && m.get("X-B") == rv && m.count("X-B") == 1, "status and headers are the upstream's");
  CHECK(m.count("Content-Length") <= 1 && m.count("Transfer-Encoding") <= 1 && m.count("Content-Length") + m.count("Transfer-Encoding") <= 1, "one framing");
  if (cut) {
    CHECK(!m.complete && body.compare(0, m.body.size(), m.body) == 0 && m.end == out.size(), "a cut answer is not completed");
    sym_reach("cut"); return;
  }
  if (bodiless) {
    size_t e = out.find("\r\n\r\n") + 4;
    CHECK((m.count("Content-Length") == 1) == (framing == 0 && status != 204), "framing headers are relayed");
    Msg k; CHECK(read_msg(out, e, k) && k.status == 404 && k.end == out.size(), "no body, and the connection goes on");
    sym_reach("bodiless"); return;
  }
  CHECK((m.length >= 0) == (framing == 0) && m.chunked == (framing == 1), "the same framing");
  CHECK(m.complete && m.body == body, "the body is the upstream's, byte for byte");
  if (framing == 2) { CHECK(m.end == out.size(), "and ends with the connection"); sym_reach("close"); return; }
  Msg k; CHECK(read_msg(out, m.end, k) && k.status == 404 && k.end == out.size(), "the connection goes on with the next request");
  sym_reach("relayed");
}
