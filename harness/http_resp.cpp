// Responses as the server writes them.
#include <sps_http_socket.hpp>
#include "fakeio.hpp"
#include "httpmsg.hpp"
using namespace sps;
extern "C" void sym_main() {
  static const int ST[] = {200, 206, 302, 403, 404, 503};
  #ifdef BIG
  static const unsigned SZ[] = {0xff, 0xfff, 0x1000, 0xffff, 0x10000, 0x12345};
#else
  static const unsigned SZ[] = {1, 2, 10, 17, 300, 4096};
#endif
  auto io = std::make_shared<FakeIO>(nullptr, 0, 0, 0, WRITES * 80000 + 20000);
  auto rsp = std::make_shared<HttpResponseSocket>(io, "1.2.3.4", 5);
#ifdef BIG
  int st = 200;
#else
  int st = ST[sym_choose(0, 5, "status")];
#endif
  unsigned framing = sym_choose(0, 2, "framing");  // chunked, length, until close
  std::list<RequestHeader> hs;
  bool server = false;
  unsigned nh = sym_choose(0, HDRS, "headers"); std::string val[HDRS + 1];
  unsigned kind[HDRS + 1];
  for (unsigned i = 0; i < nh; i++) {
    static const char* K[] = {"X-Y", "Content-Length", "transfer-encoding", "server", "Connection"};
    kind[i] = sym_choose(0, 4, "name");
    if (framing == 2 && (kind[i] == 1 || kind[i] == 2)) sym_assume(0);  // the caller frames the body
    if (framing == 1 && kind[i] == 2) sym_assume(0);                     // contradicting framing
    char c = (char)sym_range('!', '~', "value");
    val[i] = std::string(1, c);
    if (kind[i] == 1) val[i] = "7";
    if (kind[i] == 2) val[i] = "chunked";
    server |= kind[i] == 3;
    hs.push_back(RequestHeader(K[kind[i]], val[i]));
  }
  static uint8_t body[WRITES * 80000]; size_t total = 0; unsigned sz[WRITES];
  unsigned nw = sym_choose(0, WRITES, "writes");
  for (unsigned i = 0; i < nw; i++) { sz[i] = SZ[sym_choose(0, 5, "size")]; total += sz[i]; }
  for (size_t i = 0; i < total; i++) body[i] = i * 5;
  if (total) { body[0] = sym_u8("first"); body[total - 1] = sym_u8("last"); }
#ifdef BIG
  // many headers, one of them long
  std::string longv(sym_choose(0, 1, "long") * 2000 + 1, 'v'); unsigned many = sym_choose(0, 2, "many") * 30;
  for (unsigned i = 0; i < many; i++) hs.push_back(RequestHeader("X-M" + std::to_string(i), i ? "w" : longv));
#endif
  CHECK(rsp->init(st, sym_choose(0, 1, "nohdr") && hs.empty() ? nullptr : &hs, framing == 1 ? (int64_t)total : framing == 0 && nh ? 7 : -1, framing == 0) == SUCCESS, "init");
  bool term = framing == 0 && sym_choose(0, 1, "end");
  bool explicit_head = sym_choose(0, 1, "head") || (nw == 0 && !term);
  int fail = -1;
#if FAILS
  fail = (int)sym_choose(0, 3 * WRITES + 1, "fail"); io->fail_at = fail; io->fail_err = ERROR_SOCKET_WRITE;
#endif
  error_t e = SUCCESS;
  if (explicit_head) e = rsp->write_header();
  size_t at = 0;
  for (unsigned i = 0; i < nw && e == SUCCESS; i++) { e = rsp->write(body + at, sz[i]); at += sz[i]; }
  if (term && e == SUCCESS) e = rsp->write(body, 0);
  if (fail >= 0 && io->writes > fail) { CHECK(e == ERROR_SOCKET_WRITE, "a failed write is reported"); CHECK(io->writes == fail + 1, "and nothing is written after it"); sym_reach("failed"); return; }
  CHECK(e == SUCCESS, "the response is written");
  std::string out((char*)io->out, io->nout);
  Msg m;
  if (!read_msg(out, 0, m)) { CHECK(false, "what is written is an HTTP response"); return; }
  CHECK(m.status == st, "status");
  CHECK(m.end == out.size() && m.body.size() == total && !memcmp(m.body.data(), body, total), "the client sees exactly the body's bytes");
  if (framing == 0) CHECK(m.chunked && m.complete == term, "a chunked body ends with its last chunk"); else CHECK(!m.chunked && m.complete && (framing == 1) == (m.length >= 0), "framing as asked");
  CHECK(m.count("Content-Length") == (framing == 1) && m.count("Transfer-Encoding") == (framing == 0), "one framing header");
  CHECK(m.count("Server") >= 1 && (server || (m.count("Server") == 1 && m.get("Server") == "sps")), "server header");
  size_t k = 0;
  for (unsigned i = 0; i < nh; i++) {
    if (kind[i] == 1 || kind[i] == 2) continue;
    while (k < m.headers.size() && !(m.headers[k].second == val[i] && m.headers[k].first == (kind[i] == 0 ? "X-Y" : kind[i] == 3 ? "server" : "Connection"))) k++;
    CHECK(k < m.headers.size(), "every header given is sent as given, in order"); k++;
  }
#ifdef BIG
  for (unsigned i = 0; i < many; i++) {
    while (k < m.headers.size() && !(m.headers[k].first == "X-M" + std::to_string(i) && m.headers[k].second == (i ? "w" : longv))) k++;
    CHECK(k < m.headers.size(), "each of many headers is sent as given, in order"); k++;
  }
#else
  unsigned many = 0;
#endif
  size_t extra = many; for (unsigned i = 0; i < nh; i++) extra += kind[i] != 1 && kind[i] != 2;
  CHECK(m.headers.size() == extra + (framing < 2) + !server, "and no other");
  sym_reach(framing == 0 ? "chunked" : framing == 1 ? "length" : "close");
}
