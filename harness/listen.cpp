// Server blocks over plain TCP, TLS and SRT, installed together and called by clients.
#include "startup.hpp"
#include <sps_srt_module.hpp>
#include <sps_avformat_flvenc.hpp>
#include "srtnet.hpp"
#include "tlsnet.hpp"
#include "ts.hpp"
static int HP = 8001, SP = 6000;  // may be numbers the TCP servers use as well
static std::string conf_text() { return
    "http {\n"
    "server w {\nlisten_port 8081;\nhost a.com {\npass_proxy 10.0.0.2:81;\n}\nhost v.com {\ntype stream;\nrole source;\nedge_avformat flv;\n}\n}\n"
    "server t {\nlisten_port 8443;\ntransport https;\n"
    "host a.com {\npass_proxy 10.0.0.3:81;\nssl_crt_file a.crt;\nssl_key_file a.key;\n}\nhost b.com {\npass_proxy 10.0.0.4:81;\nssl_crt_file b.crt;\nssl_key_file b.key;\n}\n"
    "host v.com {\ntype stream;\nrole source;\nedge_avformat flv;\nssl_crt_file v.crt;\nssl_key_file v.key;\n}\nhost n.com {\npass_proxy 10.0.0.6:81;\n}\n}\n"
    "server h {\nlisten_port " + std::to_string(HP) + ";\ntransport srt;\nhost a.com {\npass_proxy 10.0.0.5:81;\n}\nhost v.com {\ntype stream;\nrole source;\nedge_avformat flv;\n}\n}\n"
    "}\n"
    "srt {\nserver s {\nlisten_port " + std::to_string(SP) + ";\ntransport srt;\nhost v.com {\ntype stream;\nrole source;\nedge_avformat all;\n}\n}\n}\n"; }
static SSock lst[2], cli[4]; static int l_n, l_port[2], l_on, l_acq;
extern "C" {
SRTSOCKET srt_create_socket(void) { CHECK(l_n < 2, "one socket per server"); lst[l_n].end = 2; lst[l_n].parks = true; s_socks[50 + l_n] = &lst[l_n]; return 50 + l_n++; }
int srt_setsockflag(SRTSOCKET, SRT_SOCKOPT, const void*, int) { return 0; }
int srt_setsockopt(SRTSOCKET, int, SRT_SOCKOPT, const void*, int) { return 0; }
int srt_bind_acquire(SRTSOCKET u, UDPSOCKET f) { if (l_acq) return -1; l_port[u - 50] = net_udp_bound[f - 100]; return 0; }
int srt_bind(SRTSOCKET u, const sockaddr* a, int) { auto in = (const sockaddr_in*)a; int p = (in->sin_port >> 8 | in->sin_port << 8) & 0xffff; if (p == net_fail_port) return -1; l_port[u - 50] = p; return 0; }
int srt_listen(SRTSOCKET u, int) { CHECK(l_port[u - 50], "a bound socket listens"); l_on++; return 0; }
int close(int) { return 0; }
}
static SSock* at_port(int p) { for (int i = 0; i < l_n; i++) if (l_port[i] == p) return &lst[i]; return nullptr; }
struct Client { int kind; std::string in, out, plain; int tcp = -1, srt = -1; bool tls = false; };
static Client cl[3]; static int nsrt;
static void tcp_client(Client& c, int port, const std::string& data, size_t first) {
  c.in = data; c.tcp = net_ins; net_to[net_ins] = port;
  net_in[net_ins] = new FakeIO((const uint8_t*)c.in.data(), c.in.size(), 0, ERROR_SOCKET_CLOSED, 4000); net_in[net_ins]->barrier = first; net_ins++;
}
static std::string tls_in(const std::string& name, const std::string& text, size_t& first) {
  std::string h = rec('H', "1" + name); first = h.size(); h += rec('H', "3a") + rec('H', "3b");
  for (size_t i = 0; i < text.size(); i += 20) h += rec('D', text.substr(i, 20));
  return h;
}
static bool srt_client(Client& c, int port, const std::string& id, const std::string& text, int end) {
  SSock& s = cli[nsrt]; s.id = id; s.end = end; if (text.size()) s.in.push_back(text);
  s_socks[70 + nsrt] = &s; SSock* l = at_port(port); CHECK(!!l, "an SRT server listens there"); if (!l) return false;
  l->accepts.push_back(70 + nsrt); c.srt = nsrt++; return true;
}
static bool collect(Client& c) {  // what the client got, without the transport's framing
  if (c.srt >= 0) { CHECK(!cli[c.srt].open, "in the end closed"); for (auto& m : cli[c.srt].out) c.plain += m; return true; }
  CHECK(net_in_closed(c.tcp), "in the end closed");
  c.out = std::string((char*)net_in[c.tcp]->out, net_in[c.tcp]->nout);
  if (!c.tls) { c.plain = c.out; return true; }
  for (size_t k = 0; k < c.out.size();) {
    size_t l = k + 1 < c.out.size() ? (uint8_t)c.out[k + 1] : 999; if (k + 2 + l > c.out.size()) { CHECK(false, "whole records"); return false; }
    if (c.out[k] == 'D') c.plain += c.out.substr(k + 2, l); else CHECK(c.out[k] == 'H' || c.out[k] == 'A', "records of the protocol"); k += 2 + l;
  }
  return true;
}
static std::string get(const char* host, const char* path) { return std::string("GET ") + path + " HTTP/1.1\r\nHost: " + host + "\r\n\r\n"; }
static std::string ups[4];
#if MODE == 2
static std::string unit[UNITS];   // what is published
static std::string stream(std::vector<std::string>& packets) {
  std::string all, pat = ts_psi(0, 0, ts_section(0, 1, ts_w16(1) + ts_w16(0xe000 | MPID))), pmt = ts_psi(MPID, 0, ts_section(2, 1, ts_w16(0xe000 | VPID) + ts_w16(0xf000) + ts_es(0x1b, VPID)));
  packets.push_back(pat); packets.push_back(pmt); int cc = 0;
  for (int i = 0; i < UNITS; i++) {
    uint8_t x[2]; sym_make(x, 2, "x"); sym_assume(x[0] > 3 && x[1] > 3);
    unit[i] = std::string(1, (char)(i == 0 ? 0x65 : 0x41)) + (char)x[0] + (char)(0x20 + i) + (char)x[1];
    packets.push_back(ts_packet(VPID, true, cc++, ts_pes(0xe0, 2, 9000 + 3600 * i, 0, 0, false, std::string("\0\0\0\1", 4) + unit[i])));
  }
  packets.push_back(ts_packet(VPID, true, cc++, ts_pes(0xe0, 2, 900000, 0, 0, false, "x")));
  for (auto& p : packets) all += p;
  return all;
}
static unsigned be(const std::string& s, size_t at, int n) { unsigned v = 0; while (n--) v = v << 8 | (uint8_t)s[at++]; return v; }
// the pictures of an FLV stream: each tag's stamp and NAL unit
static bool pictures(const std::string& f, std::vector<std::string>& nal, std::vector<unsigned>& ts) {
  if (f.size() < 13 || f.compare(0, 4, std::string("FLV\1", 4)) != 0) return false;
  for (size_t at = 13; at < f.size();) {   // each tag is followed by its size, but for the last perhaps
    if (at + 11 > f.size()) return false;
    size_t n = be(f, at + 1, 3); if (at + 11 + n > f.size()) return false;
    if (at + 11 + n < f.size() && (at + 15 + n > f.size() || be(f, at + 11 + n, 4) != 11 + n)) return false;
    if (f[at] == 9 && n > 9 && f[at + 12] == 1) { if (be(f, at + 16, 4) != n - 9) return false; nal.push_back(f.substr(at + 20, n - 9)); ts.push_back(be(f, at + 4, 3)); }
    at += 15 + n;
  }
  return true;
}
#endif
extern "C" void sym_main() {
  errno = 0; co_sleepy = true; co_switches = SWITCHES; co_forced = FORCED;
  SingleInstance<ModuleFactoryRegister>::get_instance().reg("srt", std::make_shared<SrtModuleFactory>());
  SingleInstance<AVEncoderFactory>::get_instance().reg(std::make_shared<FlvAVOutputFormat>());
#if MODE < 2
  if (sym_choose(0, 1, "shared")) { HP = 8081; SP = 8443; sym_reach("shared"); }
#endif
#if MODE == 0
  const int P[] = {0, 8081, 8443, HP, SP}; net_fail_port = P[sym_choose(0, 4, "taken")]; l_acq = sym_choose(0, 1, "acquire");
#endif
  error_t e = start(conf_text().c_str()); co_daemons = co_n;
#if MODE == 0
  CHECK((e == SUCCESS) == !net_fail_port, "it starts exactly if every port can be had");
  if (e != SUCCESS) { sym_reach("refused"); return; }
#endif
  CHECK(e == SUCCESS && net_binds == 2 && net_listens == 2 && ((net_port_bound[0] == 8081 && net_port_bound[1] == 8443) || (net_port_bound[1] == 8081 && net_port_bound[0] == 8443)), "the TCP and TLS servers listen on their ports");
  CHECK(l_on == 2 && at_port(HP) && at_port(SP), "and so do the SRT servers");
#if MODE == 0
  sym_reach("started"); return;
#elif MODE == 1   // clients of all kinds, two at a time
  int used = 0, certs = 0;
  for (int i = 0; i < 2; i++) {
    Client& c = cl[i]; c.kind = sym_choose(0, 9, "kind"); size_t f = 0; std::string t, n = std::to_string(i);
    switch (c.kind) {
      case 0: tcp_client(c, 8081, get("a.com", ("/r0" + n).c_str()), 0); break;
      case 1: t = tls_in("a.com", get("a.com", ("/r1" + n).c_str()), f); c.tls = true; tcp_client(c, 8443, t, f); break;
      case 2: t = tls_in("b.com", get("b.com", ("/r2" + n).c_str()), f); c.tls = true; tcp_client(c, 8443, t, f); break;
      case 3: t = tls_in("x.com", get("a.com", ("/r3" + n).c_str()), f); c.tls = true; tcp_client(c, 8443, t, f); break;
      case 4: tcp_client(c, 8443, get("a.com", ("/r4" + n).c_str()), 0); break;
      case 5: if (!srt_client(c, HP, "", get("a.com", ("/r5" + n).c_str()), 0)) return; break;
      case 6: if (!srt_client(c, SP, "#!::h=v.com/live/a,m=request", "", 0)) return; break;
      case 7: if (!srt_client(c, SP, "#!::h=x.com/live/a,m=publish", "x", 0)) return; break;
      case 8: tcp_client(c, 8081, get("b.com", ("/r8" + n).c_str()), 0); break;
      case 9: t = tls_in("n.com", get("n.com", ("/r9" + n).c_str()), f); c.tls = true; tcp_client(c, 8443, t, f); break;
    }
  }
  std::string body[2];
  for (int d = 0; d < 2; d++) { uint8_t x[2]; sym_make(x, 2, "body"); body[d] = std::string((char*)x, 2); ups[d] = "HTTP/1.1 200 OK\r\nContent-Length: 2\r\n\r\n" + body[d]; net_out[d] = new FakeIO((const uint8_t*)ups[d].data(), ups[d].size(), 0, ERROR_SOCKET_CLOSED, 300); }
  net_outs = 2;
  co_join();
  for (int i = 0; i < 2; i++) {
    Client& c = cl[i]; if (!collect(c)) return;
    if (c.kind == 1) { certs++; bool ok = false; for (auto& s : t_served) ok = ok || s == "a.crt a.key"; CHECK(ok, "the host's own certificate"); }
    if (c.kind == 2) { certs++; bool ok = false; for (auto& s : t_served) ok = ok || s == "b.crt b.key"; CHECK(ok, "the host's own certificate"); }
    int ip = c.kind == 0 ? 2 : c.kind == 1 ? 3 : c.kind == 2 ? 4 : c.kind == 5 ? 5 : 0;
    if (!ip) {
      if (c.kind == 8) { Msg m; CHECK(read_msg(c.plain, 0, m) && m.status == 404 && m.complete && m.end == c.plain.size(), "another server's host is unknown here"); sym_reach("unknown"); continue; }
      CHECK(c.plain.empty(), "no data for those who may not, or speak another protocol"); if (c.kind == 7) CHECK(cli[c.srt].at == 0, "nor from them"); sym_reach("turned away"); continue;
    }
    int d = -1; std::string id = "/r" + std::to_string(c.kind) + std::to_string(i) + " ";
    for (int j = 0; j < net_dials; j++) { if ((net_ip[j] >> 24) != (unsigned)ip) continue; std::string s((char*)net_out[j]->out, net_out[j]->nout); if (s.find(id) != std::string::npos) d = j; }
    CHECK(d >= 0, "a request reaches the upstream of its server's host"); if (d < 0) return; used++;
    Msg m; CHECK(read_msg(c.plain, 0, m) && m.status == 200 && m.complete && m.end == c.plain.size() && m.body == body[d], "and is answered over the transport it came by");
    sym_reach(c.tls ? "tls" : c.srt >= 0 ? "srt" : "plain");
  }
  CHECK((int)t_served.size() == certs && net_dials == used, "nobody else gets a session or an upstream");
#elif MODE == 2   // published over SRT, watched over everything
  Client& p = cl[0]; std::vector<std::string> packets; std::string ts = stream(packets);
  auto publish = [&]() { return srt_client(p, SP, "#!::h=v.com/live/a,m=publish", ts, 0); };
  Client& c = cl[1]; c.kind = sym_choose(0, 3, "kind"); size_t f = 0; std::string t, g = get("v.com", "/live/a.flv");
  bool first = sym_choose(0, 1, "first");
  if (first && !publish()) return;
  switch (c.kind) {
    case 0: tcp_client(c, 8081, g, 0); break;
    case 1: t = tls_in("v.com", g, f); c.tls = true; tcp_client(c, 8443, t, f); break;
    case 2: if (!srt_client(c, HP, "", g, 0)) return; break;
    case 3: if (!srt_client(c, SP, "#!::h=v.com/live/a,m=request", "", 2)) return; break;
  }
  if (!first && !publish()) return;
  co_join();
  if (!collect(c)) return;
  CHECK(cli[p.srt].at == 1 && !cli[p.srt].open, "the publisher is read to its end");
  if (c.kind == 3) {
    if (c.plain.empty()) { sym_reach("absent"); return; }
    bool ok = false; size_t z = c.plain.size();
    for (size_t j = 2; j <= packets.size(); j++) { std::string w = packets[0] + packets[1]; for (size_t k = j > 2 ? j - 1 : j; k < packets.size(); k++) w += packets[k]; if (c.plain == w) ok = true; }
    CHECK(ok || c.plain == packets[0] + ts.substr(188), "an SRT viewer gets the transport stream from its tables on"); sym_reach("ts"); return;
  }
  Msg m; CHECK(read_msg(c.plain, 0, m), "an HTTP answer"); 
  if (m.status == 404) { CHECK(m.complete && m.end == c.plain.size(), "no such stream"); sym_reach("absent"); return; }
  CHECK(m.status == 200, "or the stream");
  std::vector<std::string> nal; std::vector<unsigned> st;
  CHECK(pictures(m.body, nal, st), "as FLV"); CHECK(nal.size() == UNITS, "every picture"); if (nal.size() != UNITS) return;
  for (int i = 0; i < UNITS; i++) { CHECK(nal[i] == unit[i], "unchanged and in order"); CHECK(st[i] - st[0] == (unsigned)(40 * i), "at its time"); }
  sym_reach(c.tls ? "tls" : c.srt >= 0 ? "srt" : "plain");
#endif
}
