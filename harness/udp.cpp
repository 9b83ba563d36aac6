// The UDP transport over the coroutine library's socket calls.
#include <errno.h>
#include <arpa/inet.h>
#include <netinet/in.h>
#include <sys/socket.h>
#include <sps_sys_st_io_udp.hpp>
#include <cstring>
#include <string>
#include <vector>
#include "co.hpp"
using namespace sps;
static std::string sym_str(unsigned n, const char* nm) { uint8_t b[64]; sym_make(b, n, nm); return std::string((char*)b, n); }
struct _st_netfd { int open; } fds[4];
static int nfd, closes, f_sock, f_open, f_opt, f_bind, raw, bound = -1;
struct D { int peer; std::string data; };
static std::vector<D> in; static size_t at_; static int outcome; static unsigned long long tread, twrite; static bool bad_once;
struct Out { uint32_t ip; int port; bool to; std::string data; }; static std::vector<Out> out; static int sendfail;
static const uint32_t IP[] = {0x0100000a, 0x0100000a, 0x0b00000a, 0x0100000a}; static const int PORT[] = {5000, 15000, 5000, 5000};
static const char* NAME[] = {"10.0.0.1", "10.0.0.1", "10.0.0.11", "10.0.0.1"};
static const uint32_t DST[] = {0x0909090a, 0x0909090a, 0x0909090a, 0x0809090a};
static const char* DNAME[] = {"10.9.9.9", "10.9.9.9", "10.9.9.9", "10.9.9.8"};
static uint16_t sw(int p) { return (uint16_t)(p >> 8 | p << 8); }
// what each session has to deliver
static std::vector<std::string> exp_[4]; static bool live[4]; static int pending[4], accepted[4]; static bool serving;
static ssize_t fail() { errno = outcome == 1 ? ETIME : outcome == 2 ? EINTR : ECONNREFUSED; return -1; }
static void from(int p, sockaddr_in* a) { memset(a, 0, sizeof *a); a->sin_family = AF_INET; a->sin_addr.s_addr = IP[p]; a->sin_port = sw(PORT[p]); }
extern "C" {
int socket(int d, int t, int) { CHECK(d == AF_INET && t == SOCK_DGRAM, "a udp socket"); if (f_sock) return -1; raw++; return 55; }
int close(int fd) { CHECK(fd == 55 && raw == 1, "only its own descriptor, once"); raw--; return 0; }
int setsockopt(int, int, int, const void*, socklen_t) { return f_opt ? -1 : 0; }
int bind(int, const sockaddr* a, socklen_t) { auto i = (const sockaddr_in*)a; if (f_bind) return -1; bound = sw(i->sin_port); CHECK(i->sin_family == AF_INET && i->sin_addr.s_addr == 0, "every address"); return 0; }
_st_netfd* st_netfd_open_socket(int) { if (f_open) return nullptr; fds[nfd].open = 1; return &fds[nfd++]; }
int st_netfd_fileno(_st_netfd* f) { return 55; }
int st_netfd_close(_st_netfd* f) { CHECK(f && f->open == 1, "closed once"); f->open = 2; closes++; raw--; return 0; }
int st_connect(_st_netfd* f, const struct sockaddr* a, int, unsigned long long) { auto i = (const sockaddr_in*)a; CHECK(i->sin_addr.s_addr == IP[2] && sw(i->sin_port) == 5000, "connects to its peer"); if (outcome == 3) { errno = ECONNREFUSED; return -1; } return 0; }
int st_recvfrom(_st_netfd* f, void* b, int n, struct sockaddr* a, int* len, unsigned long long t) {
  CHECK(f->open == 1, "open"); tread = t;
  if (at_ >= in.size()) return (int)fail();
  D& d = in[at_++]; size_t k = d.data.size() < (size_t)n ? d.data.size() : (size_t)n;
  memcpy(b, d.data.data(), k); if (a && *len >= (int)sizeof(sockaddr_in)) { from(d.peer, (sockaddr_in*)a); *len = sizeof(sockaddr_in); }
  return (int)k;
}
int st_recvmsg(_st_netfd* f, struct msghdr* m, int, unsigned long long) {
  CHECK(f->open == 1, "open");
  if (bad_once) { bad_once = false; errno = EINTR; return -1; }
  if (serving) co_yield();
  if (at_ >= in.size()) { if (serving) co_park(); return (int)fail(); }
  D& d = in[at_++]; size_t k = d.data.size() < m->msg_iov[0].iov_len ? d.data.size() : m->msg_iov[0].iov_len;
  memcpy(m->msg_iov[0].iov_base, d.data.data(), k);
  if (m->msg_name && m->msg_namelen >= sizeof(sockaddr_in)) from(d.peer, (sockaddr_in*)m->msg_name);
  struct { cmsghdr h; in_pktinfo i; char pad[4]; } c; memset(&c, 0, sizeof c);
  c.h.cmsg_len = CMSG_LEN(sizeof(in_pktinfo)); c.h.cmsg_level = IPPROTO_IP; c.h.cmsg_type = IP_PKTINFO; c.i.ipi_ifindex = 2; c.i.ipi_addr.s_addr = DST[d.peer]; c.i.ipi_spec_dst.s_addr = DST[d.peer];
  if (m->msg_control && m->msg_controllen >= sizeof c) { memcpy(m->msg_control, &c, sizeof c); m->msg_controllen = CMSG_SPACE(sizeof(in_pktinfo)); } else m->msg_controllen = 0;
  exp_[d.peer].push_back(d.data.substr(0, k));
  if (!live[d.peer]) { live[d.peer] = true; pending[d.peer]++; }
  return (int)k;
}
int st_sendto(_st_netfd* f, const void* b, int n, const struct sockaddr* a, int, unsigned long long t) {
  CHECK(f->open == 1, "open"); twrite = t;
  if (sendfail) { errno = sendfail == 1 ? ETIME : sendfail == 2 ? EINTR : EPERM; return -1; }
  auto i = (const sockaddr_in*)a; Out o; o.to = a != nullptr; o.ip = a ? i->sin_addr.s_addr : 0; o.port = a ? sw(i->sin_port) : 0; o.data = std::string((const char*)b, (size_t)n);
  if (a) CHECK(i->sin_family == AF_INET, "family");
  out.push_back(o);
  return n;
}
}
#if MODE == 1 || MODE == 3
static std::shared_ptr<StUdpServerSocket> server; static int served, limit_[8]; static int nserve;
static int who(PSocket& s) { for (int i = 0; i < 4; i++) if (s->get_peer_ip() == NAME[i] && s->get_peer_port() == PORT[i] && s->get_self_ip() == DNAME[i]) return i; return -1; }
static std::vector<PSocket> handed; 
static void* serve(void* p) {
  int k = (int)(size_t)p; PSocket s = handed[(size_t)k]; handed[(size_t)k] = nullptr;
  int w = who(s); CHECK(w >= 0, "the client's own address"); if (w < 0) return nullptr;
  CHECK(pending[w] == 1, "one connection for each client"); pending[w]--; accepted[w]++;
  s->set_recv_timeout(1000);
  static uint8_t b[MODE == 3 ? 5000 : 8]; int n = 0;
  while (n < limit_[k]) {
    size_t got = 0; error_t e = s->read(b, sizeof b, got);
    if (e != SUCCESS) { CHECK(e == ERROR_SOCKET_TIMEOUT, "nothing came in time"); CHECK(exp_[w].empty(), "a client's packets are not withheld"); sym_reach("timeout"); break; }
    CHECK(!co_tab[co_cur].timedout, "a waiting reader is woken by the next packet");
    if (exp_[w].empty()) { CHECK(false, "nothing is invented or repeated"); return nullptr; }
    CHECK(std::string((char*)b, got) == exp_[w][0], "each client's packets, whole, in order"); exp_[w].erase(exp_[w].begin());
    size_t before = out.size();
    CHECK(s->write(b, got) == SUCCESS && out.size() == before + 1, "an answer");
    Out& o = out.back(); CHECK(o.to && o.ip == IP[w] && o.port == PORT[w] && o.data == std::string((char*)b, got), "goes to the client");
    n++;
  }
  // it leaves: what was not read is dropped, its next packet starts anew
  exp_[w].clear(); live[w] = false; CHECK(s.use_count() == 1, "harness: owner"); s.reset();
  served++; sym_reach("served");
  return nullptr;
}
static void* acceptor(void*) {
  for (;;) {
    PSocket s = server->accept();
    CHECK(!!s, "a connection"); if (!s) return nullptr;
    limit_[nserve] = (int)sym_choose(1, 2, "limit") == 1 ? 1 : 9;
    handed.push_back(s); s.reset(); co_spawn(serve, (void*)(size_t)nserve++);
  }
}
#endif
extern "C" void sym_main() {
  errno = 0;
#if MODE == 0
  unsigned f = sym_choose(0, 2, "fail"); f_sock = f == 1; f_open = f == 2; outcome = (int)sym_choose(0, 3, "outcome"); sendfail = (int)sym_choose(0, 3, "sendfail");
  PUdpFd fd; error_t e = UdpFd::create_fd(fd);
  CHECK((e == SUCCESS) == (f == 0) && !!fd == (f == 0), "a descriptor or an error");
  if (!fd) { CHECK(raw == 0, "nothing left open"); sym_reach("failed"); return; }
  {
    StUdpClientSocket s("10.0.0.11", 5000, fd);
    unsigned long long r = sym_u32("rtm"), w = sym_u32("stm"); s.set_recv_timeout(r); s.set_send_timeout(w);
    CHECK(s.get_recv_timeout() == r && s.get_send_timeout() == w, "timeouts are kept");
    bool conn = sym_choose(0, 1, "connect"); if (conn) { CHECK((s.connect() == SUCCESS) == (outcome != 3), "connecting"); conn = outcome != 3; }
    if (outcome == 0) outcome = 1;
    unsigned n = sym_choose(0, 2, "datagrams"); for (unsigned i = 0; i < n; i++) in.push_back(D{(int)sym_choose(0, 2, "peer"), sym_str(sym_choose(1, 3, "len"), "d")});
    uint8_t b[8];
    for (unsigned i = 0; i <= n; i++) {
      memset(b, 0xEE, 8); size_t got = 99; std::string ip; int port = 0; bool addr = sym_choose(0, 1, "addr");
      error_t e = addr ? s.read(b, 4, got, ip, port) : s.read(b, 4, got);
      CHECK(tread == r, "reads wait as long as allowed");
      if (i == n) { CHECK(e == (outcome == 1 ? ERROR_SOCKET_TIMEOUT : outcome == 2 ? ERROR_SOCKET_EINTR : ERROR_SOCKET_READ), "a timeout, an interruption and a failure are told apart"); sym_reach("ended"); break; }
      CHECK(e == SUCCESS && got == in[i].data.size() && std::string((char*)b, got) == in[i].data && b[got] == 0xEE, "one datagram, whole");
      if (addr) CHECK(ip == NAME[in[i].peer] && port == PORT[in[i].peer], "with its sender");
      sym_reach("read");
    }
    std::string m = sym_str(sym_choose(1, 3, "len"), "m");
    error_t e = s.write((void*)m.data(), m.size());
    CHECK(twrite == w, "writes wait as long as allowed");
    CHECK(e == (sendfail == 0 ? SUCCESS : sendfail == 1 ? ERROR_SOCKET_TIMEOUT : sendfail == 2 ? ERROR_SOCKET_EINTR : ERROR_SOCKET_WRITE), "a write tells what happened");
    if (!sendfail) { CHECK(out.size() == 1 && out[0].data == m && (conn ? !out[0].to : out[0].to && out[0].ip == IP[2] && out[0].port == 5000), "one datagram to its peer"); sym_reach("sent"); }
    at_ = 0; ssize_t total = -7; size_t sum = 0; for (auto& d : in) sum += d.data.size();
    if (sum) { error_t e = s.read_fully(b, sum, &total); CHECK(e == SUCCESS && total == (ssize_t)sum, "a full read is full"); std::string all; for (auto& d : in) all += d.data; CHECK(std::string((char*)b, sum) == all, "its bytes"); }
    CHECK(closes == 0, "open while used");
  }
  fd.reset(); CHECK(closes == 1, "closed in the end");
#elif MODE == 1 || MODE == 3
  co_switches = SWITCHES; co_forced = FORCED; serving = true;
  unsigned n = sym_choose(1, DGRAMS, "datagrams"); for (unsigned i = 0; i < n; i++) in.push_back(D{i == 0 ? 0 : (int)sym_choose(0, 3, "peer"), sym_str(i == 1 ? 2 : 1, "d")});
#if MODE == 3  // datagrams as long as a network carries
  static const unsigned Z[] = {1472, 1473, 2048, 4095, 4096};
  for (auto& d : in) { std::string big(Z[sym_choose(0, 4, "size")], 'u'); big[0] = d.data[0]; big[big.size() - 1] = d.data[d.data.size() - 1]; d.data = big; }
#endif
  bad_once = sym_choose(0, 1, "bad");
  unsigned f = sym_choose(0, 4, "fail"); f_sock = f == 1; f_open = f == 2; f_opt = f == 3; f_bind = f == 4;
  server = std::make_shared<StUdpServerSocket>();
  error_t e = server->listen("0.0.0.0", 8000, true, 10);
  CHECK((e == SUCCESS) == (f == 0), "listening succeeds exactly if the port could be taken");
  if (e != SUCCESS) { CHECK(raw == 0, "nothing left open"); sym_reach("failed"); return; }
  CHECK(bound == 8000, "the configured port");
  int a = co_spawn(acceptor, nullptr); (void)a;
  // run until nothing moves any more
  co_tab[0].state = 5;
  for (;;) {
    int c = 0; for (int i = 1; i < co_n; i++) { if (co_tab[i].state == 0) c++; if (co_tab[i].state == 1 && co_tab[i].timed) c++; }
    if (!c) break;
    co_tab[0].state = 0; co_nap();
  }
  int packets[4] = {0, 0, 0, 0}; for (auto& d : in) packets[d.peer]++;
  CHECK(at_ == in.size(), "every packet is received");
  for (int i = 0; i < 4; i++) { CHECK(!pending[i] && !!accepted[i] == !!packets[i], "every client is accepted"); CHECK(exp_[i].empty(), "and its packets delivered"); }
  sym_reach("done");
#else
  // a client that is not read keeps no more than 4000 packets, the oldest ones
  PUdpFd fd; UdpFd::create_fd(fd); outcome = 1;
  StUdpSessionClientSocket s("10.0.0.2", 5000, fd); s.set_recv_timeout(5);
  std::string x = sym_str(2, "x"); unsigned n = sym_choose(0, 1, "over") ? 4003 : 4000; uint8_t b[8];
  for (unsigned i = 0; i < n; i++) { uint8_t d[3] = {(uint8_t)i, (uint8_t)(i >> 8), (uint8_t)x[i & 1]}; CHECK(s.push(d, 3) == SUCCESS, "a packet comes"); }
  // what was read makes room again
  for (unsigned i = 0; i < 3; i++) { size_t g = 0; CHECK(s.read(b, 8, g) == SUCCESS && g == 3 && b[0] == (uint8_t)i, "in order"); }
  for (unsigned i = 4000; i < 4005; i++) { uint8_t d[3] = {(uint8_t)i, (uint8_t)(i >> 8), (uint8_t)x[i & 1]}; s.push(d, 3); }
  for (unsigned i = 3; i < 4003; i++) { size_t g = 0; CHECK(s.read(b, 8, g) == SUCCESS && g == 3 && b[0] == (uint8_t)i && b[1] == (uint8_t)(i >> 8) && b[2] == (uint8_t)x[i & 1], "in order"); }
  size_t g = 0; CHECK(s.read(b, 8, g) == ERROR_SOCKET_TIMEOUT, "and no more");
  uint8_t d[5] = {9, 9, 9, 9, 9}; s.push(d, 5); g = 0; CHECK(s.read(b, 4, g) != SUCCESS, "never more than there is room for"); 
  CHECK(s.read(b, 8, g) == SUCCESS && g == 5, "and later packets come"); 
  sym_reach("kept");
#endif
}
