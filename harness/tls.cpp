// The TLS transport over a model of OpenSSL.
#include <errno.h>
#include <cstring>
#include <string>
#include <vector>
#include <sps_io_socket.hpp>
#include <sps_sys_st_io_ssl.hpp>
#include "co.hpp"
#include "tlsnet.hpp"
using namespace sps;
static std::string sym_str(unsigned n, const char* nm) { uint8_t b[64]; sym_make(b, n, nm); return std::string((char*)b, n); }
// the other end: sends each step once enough has been received
class PeerIO : public IReaderWriter {
 public:
  struct Step { size_t need; std::string data; }; std::vector<Step> steps; size_t step = 0, at = 0; std::string got; size_t max_read = 4096, cut = 0, total = 0; error_t end = ERROR_SOCKET_CLOSED; bool stalls = false; int fail_at = -1, writes = 0; utime_t r = (utime_t)-1, w = (utime_t)-1;
  void set_recv_timeout(utime_t t) override { r = t; }
  utime_t get_recv_timeout() override { return r; }
  void set_send_timeout(utime_t t) override { w = t; }
  utime_t get_send_timeout() override { return w; }
  error_t read(void* b, size_t n, size_t& nr) override {
    nr = 0; if (n == 0) return ERROR_IO_BUFFER_FULL;
#if MODE == 2
    if (total == 0) co_yield();  // others may come and go before it says hello
#endif
    if (step >= steps.size() && stalls) { co_wait(this, r != (utime_t)-1); return ERROR_SOCKET_TIMEOUT; }
    if (step >= steps.size()) return end;
    if (got.size() < steps[step].need) return ERROR_SOCKET_TIMEOUT;
    std::string& s = steps[step].data; size_t k = s.size() - at; if (k > n) k = n; if (k > max_read) k = max_read;
    if (total < cut && total + k > cut) k = cut - total;
    memcpy(b, s.data() + at, k); at += k; total += k; if (at == s.size()) { step++; at = 0; }
    nr = k; return SUCCESS;
  }
  error_t read_fully(void* b, size_t n, ssize_t* nr = nullptr) override { size_t d = 0; while (d < n) { size_t k = 0; error_t e = read((uint8_t*)b + d, n - d, k); if (e) return e; d += k; } if (nr) *nr = (ssize_t)n; return SUCCESS; }
  error_t write(void* b, size_t n) override { if (n == 0) return ERROR_SOCKET_WRITE; if (writes++ == fail_at) return ERROR_SOCKET_TIMEOUT; got.append((char*)b, n); return SUCCESS; }
};
class Certs : public ISSLCertSearch {
 public:
  std::string asked; error_t search(const std::string& n, SSLConfig& c) override { asked = n; if (n != "a.com" && n != "b.com") return ERROR_SSL_CERT_NOT_FOUND; c.crt_file = n + ".crt"; c.key_file = n + ".key"; return SUCCESS; }
};
static void splitted(PeerIO& io) { unsigned m = sym_choose(0, 2, "splitmode"); size_t all = 0; for (auto& s : io.steps) all += s.data.size(); if (m == 1) io.max_read = 1; if (m == 2) io.cut = sym_choose(1, (unsigned)all - 1, "cut"); }
extern "C" void sym_main() {
  errno = 0;
#if MODE <= 1
  {
  auto io = std::make_shared<PeerIO>(); bool server = MODE == 0; SSLConfig cfg; std::shared_ptr<Certs> certs; bool ok = true;
  std::string name = "a.com", hs;
  unsigned bad = sym_choose(0, 5, "bad");
  if (server) {
    if (sym_choose(0, 1, "sni")) { certs = std::make_shared<Certs>(); unsigned n = sym_choose(0, 2, "name"); name = n == 0 ? "b.com" : n == 1 ? "x.com" : ""; if (n) ok = false; }
    else { cfg.crt_file = "a.com.crt"; cfg.key_file = "a.com.key"; }
    io->steps.push_back({0, rec('H', "1" + name)}); io->steps.push_back({8, rec('H', "3a") + rec('H', "3b")});
    if (bad == 1) badcert = true; if (bad == 2) badkey = true; if (bad == 3) nomatch = true;
    if (bad == 4) io->steps[1].data = rec('H', "3x");
    hs = rec('H', "2a") + rec('H', "2b") + rec('H', "4");
  } else {
    bool h = sym_choose(0, 1, "host"); if (h) cfg.server_host = "a.com";
    hs = rec('H', std::string("1") + (h ? "a.com" : "")) + rec('H', "3a") + rec('H', "3b");
    io->steps.push_back({3, rec('H', "2a") + rec('H', "2b")}); io->steps.push_back({hs.size(), rec('H', "4")});
    if (bad == 4) io->steps[0].data = rec('H', "2x"); if (bad >= 1 && bad <= 3) bad = 0;
  }
  if (bad) ok = false;
  // what the other end sends; it may come along with the end of the handshake
  std::string d[2]; d[0] = sym_str(FULL ? sym_choose(1, 3, "len") : 3, "d"); d[1] = sym_str(FULL ? 2 : 1, "d"); bool early = sym_choose(0, 1, "early"), bye = sym_choose(0, 1, "bye");
  if (bad == 5) io->steps.pop_back();
  else {
    std::string data = rec('D', d[0]) + rec('D', d[1]) + (bye ? rec('A', "") : std::string());
    if (early) io->steps.back().data += data; else io->steps.push_back({hs.size(), data});
  }
  splitted(*io);
  int f = FULL ? (int)sym_choose(0, 4, "fail") - 1 : (int)sym_choose(0, 1, "fail") * 3 - 1; io->fail_at = f;
  io->end = (FULL ? sym_choose(0, 1, "end") : early) ? ERROR_SOCKET_TIMEOUT : ERROR_SOCKET_CLOSED;
  StSSLSocket s(io, server ? SSL_SERVER : SSL_CLIENT, cfg, certs);
  s.set_recv_timeout(7); s.set_send_timeout(9); CHECK(io->r == 7 && io->w == 9 && s.get_recv_timeout() == 7 && s.get_send_timeout() == 9, "timeouts are handed on");
  bool stale = sym_choose(0, 1, "stale"); if (stale) t_errq = 1;  // what another connection left behind
  error_t e = s.init();
  if (f >= 0 && f <= 1) ok = false;
  CHECK((e == SUCCESS) == ok, "the handshake succeeds exactly if both ends can");
  if (certs && io->total > 3) CHECK(certs->asked == name || name.empty(), "the certificate of the name asked for");
  if (e != SUCCESS) { sym_reach("refused"); return; }
  CHECK(io->got == hs, "and the other end got all of it");
  if (server) CHECK(last && last->cert == name + ".crt" && last->key == name + ".key", "with the right certificate");
  CHECK(s.init() == SUCCESS && io->got == hs, "only once");
  std::string all = d[0] + d[1]; size_t at = 0; uint8_t b[8];
  for (int i = 0; i < OPS; i++) {
    if (stale) t_errq = 1;
    unsigned n = FULL ? sym_choose(1, 4, "n") : 1u << sym_choose(0, 2, "n"); bool full = sym_choose(0, 1, "full"); memset(b, 0xEE, 8);
    if (full) {
      ssize_t got = -7; error_t e = s.read_fully(b, n, &got);
      if (all.size() - at >= n) { CHECK(e == SUCCESS && got == (ssize_t)n && std::string((char*)b, n) == all.substr(at, n), "a full read is full"); at += n; sym_reach("full"); }
      else { CHECK(e != SUCCESS, "or an error"); sym_reach("short"); break; }
    } else {
      size_t got = 0; error_t e = s.read(b, n, got);
      if (at < all.size()) { CHECK(e == SUCCESS && got >= 1 && got <= n && at + got <= all.size(), "a read gives what came"); if (at + got > all.size()) return; CHECK(std::string((char*)b, got) == all.substr(at, got), "in order"); at += got; sym_reach("read"); }
      else { CHECK(e != SUCCESS, "the end is an error"); if (!bye) CHECK(e == io->end, "of its own kind"); sym_reach("ended"); break; }
    }
  }
  std::string m = sym_str(5, "m"); size_t total = 0, before = io->got.size();
  for (int i = 0; i < 2; i++) {
    unsigned n = i ? 1 : FULL ? sym_choose(1, 4, "w") : 4; int w = io->writes;
    if (stale) t_errq = 1;
    error_t e = s.write((void*)(m.data() + total), n);
    bool failed = f >= w && f < io->writes;
    CHECK((e == SUCCESS) == !failed, "a write succeeds exactly if all was sent");
    if (failed) { CHECK(e == ERROR_SOCKET_TIMEOUT, "the transport's error"); sym_reach("wfail"); return; }
    total += n;
    std::string sent; for (size_t k = before; k + 2 <= io->got.size();) { size_t l = (uint8_t)io->got[k + 1]; CHECK(io->got[k] == 'D', "data"); sent += io->got.substr(k + 2, l); k += 2 + l; }
    CHECK(sent == m.substr(0, total), "what was written, once, in order");
    sym_reach("sent");
  }
  CHECK(s.write(b, 0) != SUCCESS, "nothing is not written");
  }
  CHECK(!nssl && !nctx && !nbio, "nothing is leaked");
#elif MODE == 3  // records and handshakes larger than any buffer
  {
  static const unsigned SZ[] = {1023, 1024, 1025, 4096, 16384};
  t_rec = 16384;
  auto io = std::make_shared<PeerIO>(); io->max_read = 100000; bool server = sym_choose(0, 1, "server"); SSLConfig cfg; std::string hs;
  unsigned h = SZ[sym_choose(0, 4, "handshake")], n = SZ[sym_choose(0, 4, "record")], w = SZ[sym_choose(0, 4, "write")] + sym_choose(0, 1, "more") * 16384, step = sym_choose(0, 1, "step") ? 100000 : 1000;
  std::string pad(h, 'p'), data(n, 'd'), out(w, 'o');
  { uint8_t x[6]; sym_make(x, 6, "x"); data[0] = (char)x[0]; data[n - 1] = (char)x[1]; data[n / 2] = (char)x[2]; out[0] = (char)x[3]; out[w - 1] = (char)x[4]; out[w / 2] = (char)x[5]; }
  if (server) { cfg.crt_file = "a.com.crt"; cfg.key_file = "a.com.key"; io->steps.push_back({0, rec('H', "1" + pad)}); io->steps.push_back({8, rec('H', "3a") + rec('H', "3b" + pad)}); hs = rec('H', "2a") + rec('H', "2b") + rec('H', "4"); }
  else { hs = rec('H', "1") + rec('H', "3a") + rec('H', "3b"); io->steps.push_back({3, rec('H', "2a") + rec('H', "2b" + pad)}); io->steps.push_back({hs.size(), rec('H', "4")}); }
  io->steps.push_back({hs.size(), rec('D', data) + rec('D', "z")}); io->max_read = step;
  StSSLSocket s(io, server ? SSL_SERVER : SSL_CLIENT, cfg, nullptr);
  CHECK(s.init() == SUCCESS && io->got == hs, "a long handshake is one as well");
  std::string all = data + "z", got; static uint8_t b[20000];
  while (got.size() < all.size()) {
    size_t k = 0; unsigned m = step == 1000 ? 700 : 20000; error_t e = s.read(b, m, k);
    CHECK(e == SUCCESS && k > 0 && k <= m, "a read gives what came"); if (e != SUCCESS || k > m) return; got.append((char*)b, k);
  }
  CHECK(got == all, "all of it, in order");
  size_t at = io->got.size(); CHECK(s.write((void*)out.data(), w) == SUCCESS, "a long write");
  std::string sent; while (at + 4 <= io->got.size()) { size_t l = (uint8_t)io->got[at + 1], hd = 2; if (l == 255) { l = ((size_t)(uint8_t)io->got[at + 2] << 8) + (uint8_t)io->got[at + 3]; hd = 4; } CHECK(io->got[at] == 'D', "data"); sent += io->got.substr(at + hd, l); at += hd + l; }
  CHECK(sent == out, "is all sent, once, in order");
  sym_reach("large");
  }
  CHECK(!nssl && !nctx && !nbio, "nothing is leaked");
#else
  // clients connect one after the other; some fail before or in the handshake
  class Listener : public IServerSocket {
   public:
    std::vector<PSocket> q; size_t at = 0; error_t l = SUCCESS; int port = 0;
    error_t listen(std::string, int p, bool, int) override { port = p; return l; }
    PSocket accept() override {
      static int slept = -1; co_yield(); if (at >= q.size()) co_park();
      CHECK(slept != co_sleeps, "no spinning while nobody can be accepted"); PSocket s = q[at++]; slept = s ? -1 : co_sleeps; return s;
    }
    void set_recv_timeout(utime_t) {}
  };
  co_switches = SWITCHES; co_forced = 3;
  auto l = std::make_shared<Listener>(); std::vector<int> good;
  for (int i = 0; i < CLIENTS; i++) {
    unsigned k = sym_choose(0, 4, "kind"); if (k == 0) { l->q.push_back(nullptr); continue; }
    auto io = std::make_shared<PeerIO>(); std::string n = i & 1 ? "b.com" : "a.com";
    io->steps.push_back({0, rec('H', "1" + n)}); io->steps.push_back({8, rec('H', k == 1 ? "3x" : "3a") + rec('H', "3b")}); io->steps.push_back({0, rec('D', std::string(1, (char)('0' + i)))});
    if (k == 2 || k == 4) { io->steps.pop_back(); io->steps.pop_back(); io->stalls = k == 4; } else if (k == 3) good.push_back(i);
    l->q.push_back(std::make_shared<Socket>(io, "10.0.0." + std::to_string(i), 100 + i));
  }
  bool lfail = sym_choose(0, 1, "listen"); l->l = lfail ? ERROR_SOCKET_LISTEN : SUCCESS;
  StSSLServerSocket s(l); SSLConfig cfg; s.init_config(cfg, std::make_shared<Certs>());
  error_t e = s.listen("0.0.0.0", 443, false, 5);
  CHECK((e == SUCCESS) == !lfail && l->port == 443, "listening"); if (lfail) { sym_reach("failed"); return; }
  int seen = 0;
  for (size_t j = 0; j < good.size(); j++) {
    PSocket c = s.accept(); CHECK(!!c, "a connection"); if (!c) return;
    int i = c->get_peer_port() - 100; bool ok = false; for (int g : good) ok = ok || g == i;
    CHECK(ok && !(seen >> i & 1) && c->get_peer_ip() == "10.0.0." + std::to_string(i), "of a good client"); seen |= 1 << i;
    char b = 0; size_t n = 0; CHECK(c->read(&b, 1, n) == SUCCESS && n == 1 && b == '0' + i, "ready to use");
    sym_reach("client");
  }
  co_join();
  CHECK(!nssl && !nctx && !nbio, "clients that fail or never answer are let go");
  sym_reach("done");
#endif
}
