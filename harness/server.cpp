// The HTTP server as configured: listening, accepting, and one connection's requests
// answered in order, next to another connection.
#include "startup.hpp"
static const char* conf_text =
    "globalhost {\nhost g.com {\npass_proxy 10.0.0.3;\n}\n}\n"
    "http {\nserver s1 {\nlisten_port 8081;\nbacklog 700;\nrecv_timeout 1111;\nsend_timeout 2222;\n"
    "host p.com {\npass_proxy 10.0.0.2:81;\n}\n"
    "host s.com {\ntype stream;\nrole source;\nedge_avformat flv;\n}\n"
    "host e.com {\ntype stream;\nrole proxy;\n}\n"
    "host off.com {\nenabled off;\npass_proxy 10.0.0.9;\n}\n"
    "host a.com {\ntype api;\n}\n"
    "}\n}\n";
struct Req { int kind; std::string id, text; int status; bool closes; int ip; int port; };
static Req make(int kind, int conn, int i) {
  Req q; q.kind = kind; q.closes = false; q.ip = 0; q.port = 80; q.status = 404;
  q.id = std::string("/r") + (char)('0' + conn) + (char)('0' + i);
  std::string get = "GET " + q.id + "?k=1 HTTP/1.1\r\nHost: ";
  static const char* X[] = {".ts", ".fl", ".lv", ""};
  switch (kind) {
    case 0: q.text = get + "no.com\r\n\r\n"; break;
    case 1: q.text = "GET " + q.id + ".flv HTTP/1.1\r\nHost: s.com\r\n\r\n"; break;
    case 2: q.text = "POST " + q.id + ".flv HTTP/1.1\r\nHost: e.com\r\nContent-Length: 3\r\n\r\nabc"; q.status = 403; q.closes = true; break;
    case 3: q.text = get + "p.com\r\nX: y\r\n\r\n"; q.status = 200; q.ip = 2; q.port = 81; break;
    case 4: q.text = get + "g.com\r\n\r\n"; q.status = 200; q.ip = 3; break;
    case 5: q.text = "GET \r\n\r\n"; q.status = 0; q.closes = true; break;
    case 6: q.text = "POST " + q.id + " HTTP/1.1\r\nHost: no.com\r\nContent-Length: 18\r\n\r\nGET / HTTP/1.1\r\n\r\n"; q.closes = true; break;
    case 7: q.text = get + "off.com\r\n\r\n"; break;
    case 8: q.text = "POST " + q.id + "?k=1 HTTP/1.1\r\nHost: p.com\r\nTransfer-Encoding: chunked\r\n\r\n3\r\nabc\r\n0\r\n\r\n"; q.status = 200; q.ip = 2; q.port = 81; q.closes = true; break;
    case 9: q.text = "POST " + q.id + X[sym_choose(0, 3, "ext")] + " HTTP/1.1\r\nHost: s.com\r\nTransfer-Encoding: chunked\r\n\r\n3\r\nabc\r\n0\r\n\r\n"; q.status = 403; q.closes = true; break;
    case 10: q.text = "GET " + q.id + ".flv HTTP/1.1\r\nHost: s.com\r\nTransfer-Encoding: chunked\r\n\r\n12\r\nGET / HTTP/1.1\r\n\r\n\r\n0\r\n\r\n"; q.closes = true; break;
    case 11: q.text = "HEAD " + q.id + ".flv HTTP/1.1\r\nHost: s.com\r\n\r\n"; break;
    case 12: q.text = get + "no.com\r\nTransfer-Encoding: chunked\r\n\r\n3\r\nabc\r\n0\r\n\r\n"; q.closes = true; break;
  }
  return q;
}
static std::string ups[8], body[8]; static bool upfail[8];
static Req reqs[3][3]; static int nreq[3];
static std::string in[3];
extern "C" void sym_main() {
  net_bind_fail = 0; net_rtm = 1111; net_stm = 2222;
#if MODE == 1  // starting
  unsigned f = sym_choose(0, 2, "fail");
  net_bind_fail = f == 1; net_listen_fail = f == 2;
  error_t e = start(conf_text);
  if (f) { CHECK(e != SUCCESS, "a port that cannot be had is an error"); sym_reach("refused"); return; }
#else
  error_t e = start(conf_text);
#endif
  CHECK(e == SUCCESS && net_binds == 1 && net_port_bound[0] == 8081 && net_listens == 1 && net_backlog[0] == 700 && !net_reuse, "it listens where it was told");
  // the connections
  for (int c = 0; c < CONNS; c++) {
    nreq[c] = c == 0 ? sym_choose(1, REQS, "n") : 1;
    bool closed = false;
    for (int i = 0; i < nreq[c]; i++) {
#ifdef KINDS
      static const int K[] = KINDS;
      int k = K[sym_choose(0, sizeof(K) / sizeof(*K) - 1, "kind")];
#else
      int k = sym_choose(0, 12, "kind");
#endif
      reqs[c][i] = make(k, c, i); in[c] += reqs[c][i].text;
    }
    net_in[c] = new FakeIO((const uint8_t*)in[c].data(), in[c].size(), 0, ERROR_SOCKET_CLOSED, 600);
    if (SPLIT) net_in[c]->split();
  }
  net_ins = CONNS;
#if MODE == 2  // accepting fails once
  int lost = -1;
  switch (sym_choose(0, 2, "how")) {
    case 0: lost = net_name_fail = sym_choose(0, CONNS - 1, "name"); break;
    case 1: net_accept_fail = sym_choose(0, CONNS - 1, "accept"); break;
    case 2: lost = co_refuse = sym_choose(0, CONNS - 1, "coroutine"); break;
  }
#else
  const int lost = -1;
#endif
  unsigned up = sym_choose(0, UPS - 1, "upstream");
  for (int d = 0; d < CONNS * REQS; d++) {
    body[d] = std::string(1, (char)('A' + d)) + "B";
    ups[d] = up == 0 ? "HTTP/1.1 200 OK\r\nContent-Length: 2\r\nY: z\r\n\r\n" + body[d]
           : up == 1 ? "HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\nY: z\r\n\r\n2\r\n" + body[d] + "\r\n0\r\n\r\n"
           : up == 2 ? "HTTP/1.1 200 OK\r\nContent-Length: 2\r\nY: z\r\n\r\nA" : "";
    net_out[d] = new FakeIO((const uint8_t*)ups[d].data(), ups[d].size(), 0, ERROR_SOCKET_CLOSED, 300);
  }
  net_outs = CONNS * REQS;
  co_switches = SWITCHES;
  co_join();
  int used = 0;
  for (int c = 0; c < CONNS; c++) {
    if (c == lost) { CHECK(net_in_closed(c) && net_in[c]->nout == 0, "a connection that cannot be set up is closed"); sym_reach("lost"); continue; }
    std::string out((char*)net_in[c]->out, net_in[c]->nout);
    size_t at = 0;
    bool over = false;
    for (int i = 0; i < nreq[c]; i++) {
      Req& q = reqs[c][i];
      if (q.status == 0) { over = true; break; }
      int d = -1;
      if (q.ip) {
        for (int j = 0; j < net_dials; j++) { std::string s((char*)net_out[j]->out, net_out[j]->nout); if (s.find(q.id + "?k=1 ") != std::string::npos) { CHECK(d < 0, "a request is passed on once"); d = j; } }
        CHECK(d >= 0, "a proxied request is passed on");
        if (d < 0) return;
        used++;
        CHECK((net_ip[d] >> 24) == (unsigned)q.ip && (net_ip[d] & 0xffffff) == 10 && net_port[d] == q.port, "to its host's upstream");
        std::string s((char*)net_out[d]->out, net_out[d]->nout);
        CHECK(s.compare(0, 4, q.text.substr(0, 4).c_str()) == 0 && s.find(std::string("Host: ") + (q.ip == 2 ? "p.com" : "g.com") + "\r\n") != std::string::npos && s.size() > 4 && s.compare(s.size() - 4, 4, "\r\n\r\n") == 0, "with its method and host");
        if (q.kind == 3) CHECK(s.find("X: y\r\n") != std::string::npos, "and headers");
        if (up == 3) { over = true; break; }
      }
      Msg m;
      bool ok = read_msg(out, at, m);
      CHECK(ok, "each request gets a well-formed response, in order");
      if (!ok) return;
      CHECK(m.status == q.status, "with the right status");
      if (q.ip) {
        CHECK(m.get("Y") == "z", "relayed headers");
        if (up == 2) { CHECK(!m.complete && m.body == "A", "a cut response stays cut"); over = true; at = m.end; break; }
        CHECK(m.complete && m.body == body[d], "relayed body");
        sym_reach("relayed");
      } else CHECK(m.complete && m.body.empty(), "an empty, complete answer");
      at = m.end;
      sym_reach(q.status == 404 ? "404" : q.status == 403 ? "403" : "200");
      if (q.closes) { over = true; sym_reach("closed"); break; }
      if (i == 1) sym_reach("kept");
    }
    CHECK(at == out.size(), "and nothing else");
    CHECK(net_in_closed(c), "in the end the connection is closed");
  }
  CHECK(net_dials == used && net_outs_closed(), "no other upstream connections, all closed");
#if MODE == 1
  sym_reach("started");
#endif
}
