// Host names to host blocks.
#include "startup.hpp"
#include <vector>
#if MODE != 2
static PHostModule host(const std::string& name, int id, bool on = true) {
  auto h = std::make_shared<HostModule>("host", name, nullptr);
  auto c = std::make_shared<HostConfCtx>();
  c->enabled = on;
  if (id & 1) { c->ssl_key_file = "k" + name; c->ssl_crt_file = "c" + name; } else if (id & 2) c->ssl_key_file = "k";
  h->conf = c;
  return h;
}
static std::string label(unsigned n, const char* nm) { std::string s; for (unsigned i = 0; i < n; i++) { char c = (char)sym_range(0x21, 0x7e, nm); sym_assume(c != '*'); s += c; } return s; }
static std::string want_wild(const std::string& h) {  // the wildcard a name falls under
  size_t d = h.find('.'); return d == std::string::npos ? "" : "*" + h.substr(d);
}
extern "C" void sym_main() {
#if MODE == 0  // lookup
  HostModulesRouter r, other;
  bool merge = sym_choose(0, 1, "merge");
  // an exact name of any 3 characters, one of 1, two wildcards, maybe a default; some switched off
  std::string e1 = label(3, "e1"), e2 = label(1, "e2"), w1 = "*." + label(1, "w1"), w2 = "*." + label(1, "w2") + ".x";
  unsigned off = merge ? 0 : sym_choose(0, 5, "off"), wild = sym_choose(0, 1, "wild"), def = sym_choose(0, 1, "def");
  sym_assume(w1 != w2 && e1 != e2);
  PHostModule h[5] = {host(e1, 1, off != 1), host(e2, 2, off != 2), host(w1, 3, off != 3), host(w2, 0, off != 4), host("*", 1, off != 5)};
  CHECK(r.register_host(h[0]) == SUCCESS && (merge ? other : r).register_host(h[1]) == SUCCESS, "hosts are taken");
  if (wild) CHECK((merge ? other : r).register_host(h[2]) == SUCCESS && r.register_host(h[3]) == SUCCESS, "wildcards are taken");
  if (def) CHECK((merge && sym_choose(0, 1, "defin") ? other : r).register_host(h[4]) == SUCCESS, "the default is taken");
  if (merge) CHECK(r.merge(&other) == SUCCESS, "merged");
  std::string q;
  switch (sym_choose(0, 4, "query")) { case 4: q = std::string(100, 'z') + "." + label(1, "q"); break; case 0: q = label(3, "q"); break; case 1: q = label(1, "q"); break; case 2: q = label(1, "q") + "." + label(1, "q") + ".x"; break; default: q = label(2, "q") + "." + label(1, "q"); }
  PHostModule got = r.find_host(q), want;
  std::string ww = want_wild(q);
  bool on1 = off != 1, on2 = off != 2, on3 = wild && off != 3, on4 = wild && off != 4, ond = def && off != 5;
  if (on1 && q == e1) want = h[0];
  else if (on2 && q == e2) want = h[1];
  else if (on3 && ww == w1) want = h[2];
  else if (on4 && ww == w2) want = h[3];
  else if (ond) want = h[4];
  CHECK(got == want, "a name finds its own block, else its wildcard, else the default, else none");
  if (want == h[0]) sym_reach("exact"); else if (want == h[2]) sym_reach("wild"); else if (!want) sym_reach("none"); else if (want == h[4]) sym_reach("default");
  SSLConfig c; c.key_file = "old"; c.crt_file = "old";
  error_t s = r.search(q, c);
  bool cert = want && (want == h[0] || want == h[2] || want == h[4]);
  CHECK((s == SUCCESS) == cert, "a certificate is found exactly when its host has one");
  if (cert && s == SUCCESS) CHECK(c.key_file == "k" + want->module_name && c.crt_file == "c" + want->module_name, "its own");
#elif MODE == 3  // many hosts, deep and long names
  static const unsigned MANY[] = {1, 9, 33, 130}; HostModulesRouter r, o;
  unsigned n = MANY[sym_choose(0, 3, "hosts")], depth = sym_choose(1, 3, "depth"), len = depth == 2 ? 40 : 3; bool merge = sym_choose(0, 1, "merge"), def = sym_choose(0, 1, "def"), off = sym_choose(0, 1, "off");
  std::string c(1, (char)(97 + sym_choose(0, 1, "c"))), tail; for (unsigned i = 0; i < depth; i++) tail += std::string(".") + std::string(len, 'l') + (char)('a' + i);
  std::vector<PHostModule> ex, wi; PHostModule d;
  for (unsigned i = 0; i < n; i++) {
    std::string id = std::to_string(i);
    ex.push_back(host("e" + id + c + tail, 3, !(off && i % 3 == 1))); wi.push_back(host("*.w" + id + c + tail, 3, !(off && i % 4 == 2)));
    CHECK((merge && i % 2 ? o : r).register_host(ex[i]) == SUCCESS && (merge && i % 3 ? o : r).register_host(wi[i]) == SUCCESS, "hosts are taken");
  }
  if (def) { d = host("*", 3); CHECK(r.register_host(d) == SUCCESS, "the default is taken"); }
  if (merge) CHECK(r.merge(&o) == SUCCESS, "merged");
  for (unsigned i = 0; i < n; i++) {
    std::string id = std::to_string(i); bool one = !(off && i % 3 == 1), two = !(off && i % 4 == 2);
    CHECK(r.find_host("e" + id + c + tail) == (one ? ex[i] : d), "each of many names finds its own block");
    CHECK(r.find_host("x" + id + ".w" + id + c + tail) == (two ? wi[i] : d) && r.find_host(".w" + id + c + tail) == (two ? wi[i] : d), "each of many wildcards takes its names");
    CHECK(r.find_host("w" + id + c + tail) == d && r.find_host("a.b.w" + id + c + tail) == d && r.find_host("e" + id + c + tail + "x") == d && r.find_host("-e" + id + c + tail) == d, "and no other name");
  }
  sym_reach("many");
#else  // refused
  HostModulesRouter r; std::string n = label(2, "n");
  unsigned k = sym_choose(0, 4, "kind");
  std::string a = k == 0 ? n : k == 1 ? "*." + n : k == 2 ? "*" : k == 3 ? "*" + label(1, "bad") + n : "*.";
  error_t e = r.register_host(host(a, 1));
  if (k == 3) { if (a[1] == '.') { CHECK(e == SUCCESS, "a wildcard"); return; } }
  if (k >= 3) { CHECK(e != SUCCESS && !r.find_host("x" + n), "a star anywhere else is refused"); sym_reach("illegal"); return; }
  CHECK(e == SUCCESS, "taken");
  HostModulesRouter o;
  bool viamerge = sym_choose(0, 1, "merge");
  if (viamerge) { CHECK(o.register_host(host(a, 2)) == SUCCESS, "taken"); e = r.merge(&o); } else e = r.register_host(host(a, 2));
  CHECK(e != SUCCESS, "the same name twice is refused");
  sym_reach("twice");
#endif
}
#else  // whole configurations: servers on the same and on other ports
extern "C" void sym_main() {
  unsigned same = sym_choose(0, 1, "same"), glob = sym_choose(0, 5, "global"), dup = sym_choose(0, 1, "dup"), more = sym_choose(0, 3, "more");
  std::string text = std::string();
  // none; one block before, two, one with both; one after, one on each side
  const std::string g1 = "host g.com {\npass_proxy 10.0.0.9;\n}\n", g2 = "host k.com {\npass_proxy 10.0.0.8;\n}\n", go = "globalhost {\n";
  text += glob == 0 || glob == 4 ? "" : glob == 2 ? go + g1 + "}\n" + go + g2 + "}\n" : glob == 3 ? go + g1 + g2 + "}\n" : go + g1 + "}\n";
  text +=
    std::string("http {\nserver a {\nlisten_port 81;\nhost a.com {\npass_proxy 10.0.0.2;\n}\n}\n") +
    "server b {\nlisten_port " + (same ? "81" : "82") + ";\nhost " + (dup ? "a.com" : "b.com") + " {\npass_proxy 10.0.0.3;\n}\n" +
    (more == 0 ? "" : more == 1 ? "host c.com {\npass_proxy 10.0.0.4;\n}\n" : more == 2 ? "host *.d.com {\npass_proxy 10.0.0.4;\n}\n" : "host * {\npass_proxy 10.0.0.4;\n}\n") + "}\n}\n";
  text += glob == 4 ? go + g1 + "}\n" : glob == 5 ? go + g2 + "}\n" : "";
  error_t e = start(text.c_str());
  if (same && dup) { CHECK(e != SUCCESS, "one name twice on one port is refused"); sym_reach("refused"); return; }
  CHECK(e == SUCCESS, "started");
  if (e != SUCCESS) return;
  CHECK(net_binds == (same ? 1 : 2) && net_listens == net_binds && net_port_bound[0] == 81 && (same || net_port_bound[1] == 82), "each port is opened once");
  static const char* Q[] = {"a.com", "b.com", "g.com", "n.com", "k.com", "c.com", "n.d.com"};
  unsigned q = sym_choose(0, 6, "q"), srv = same ? 0 : sym_choose(0, 1, "server");
  static std::string in = std::string("GET /x HTTP/1.1\r\nHost: ") + Q[q] + "\r\n\r\n", up = "HTTP/1.1 200 OK\r\nContent-Length: 0\r\n\r\n";
  FakeIO* c = net_in[0] = new FakeIO((const uint8_t*)in.data(), in.size(), 0, ERROR_SOCKET_CLOSED, 300);
  net_out[0] = new FakeIO((const uint8_t*)up.data(), up.size(), 0, ERROR_SOCKET_CLOSED, 300);
  net_outs = 1; net_ins = 1; net_only = srv;
  co_join();
  Msg m; CHECK(read_msg(std::string((char*)c->out, c->nout), 0, m), "answered");
  int want = q == 2 ? (glob ? 9 : 0) : q == 3 ? 0 : q == 4 ? (glob == 2 || glob == 3 || glob == 5 ? 8 : 0) : q == 5 ? (more == 1 && (same || srv) ? 4 : 0) : q == 6 ? (more == 2 && (same || srv) ? 4 : 0) : q == 0 ? (srv == 0 ? 2 : dup ? 3 : 0) : (dup ? 0 : same || srv == 1 ? 3 : 0);
  if (!want && more == 3 && (same || srv)) want = 4;
  CHECK(net_dials == (want != 0) && m.status == (want ? 200 : 404), "a host is known to the servers that list it, a global one to all");
  if (want && net_dials == 1) CHECK((net_ip[0] >> 24) == (unsigned)want && net_port[0] == 80, "with its own settings");
  sym_reach(want ? "known" : "unknown");
}
#endif
