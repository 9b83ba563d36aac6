// The SRT transport: messages to a byte stream and back, over the real dispatcher.
#include <sys/socket.h>
#include <cstring>
#include "srtnet.hpp"
using namespace sps;
static std::string sym_str(unsigned n, const char* nm) { uint8_t b[16]; sym_make(b, n, nm); return std::string((char*)b, n); }
#if MODE == 5
#include <netdb.h>
#include <sps_io_socket.hpp>
static int c_create, c_connect, c_dns; static bool c_nonblock[2]; static unsigned c_ip, c_port; static int c_calls;
static uint8_t dnsip[4] = {10, 0, 0, 8}; static char* dnslist[2]; static struct hostent dnsent;
extern "C" {
SRTSOCKET srt_create_socket(void) { return c_create ? -1 : 9; }
int srt_setsockflag(SRTSOCKET u, SRT_SOCKOPT o, const void* v, int) { CHECK(u == 9, "its own socket"); if (o == SRTO_RCVSYN) c_nonblock[0] = !*(bool*)v; if (o == SRTO_SNDSYN) c_nonblock[1] = !*(bool*)v; return 0; }
int srt_setsockopt(SRTSOCKET, int, SRT_SOCKOPT, const void*, int) { return 0; }
struct hostent* gethostbyname(const char* n) {
  CHECK(!strcmp(n, "up.example"), "the name it was told"); if (c_dns) return nullptr;
  dnslist[0] = (char*)dnsip; dnsent.h_addrtype = AF_INET; dnsent.h_length = 4; dnsent.h_addr_list = dnslist; return &dnsent;
}
int inet_pton(int f, const char* t, void* o) { CHECK(f == AF_INET, "family"); unsigned a = inet_addr(t); if (a == INADDR_NONE) return 0; memcpy(o, &a, 4); return 1; }
int srt_connect(SRTSOCKET u, const sockaddr* a, int n) {
  auto in = (const sockaddr_in*)a; CHECK(u == 9 && n == (int)sizeof *in && in->sin_family == AF_INET && c_nonblock[0] && c_nonblock[1], "connecting never blocks the server");
  c_ip = in->sin_addr.s_addr; c_port = (in->sin_port >> 8 | in->sin_port << 8) & 0xffff; c_calls++;
  return c_connect ? -1 : 0;
}
}
#endif
#if MODE == 2 || MODE == 3
static int l_create, l_sock, l_opt, l_bind, l_acq, l_sbind, l_listen, l_bound, l_sbound, l_udp, l_listening; static bool l_nonblock[2];
extern "C" {
SRTSOCKET srt_create_socket(void) { return l_create ? -1 : 50; }
int srt_setsockflag(SRTSOCKET u, SRT_SOCKOPT o, const void* v, int) { CHECK(u == 50, "its own socket"); if (o == SRTO_RCVSYN) l_nonblock[0] = !*(bool*)v; if (o == SRTO_SNDSYN) l_nonblock[1] = !*(bool*)v; return 0; }
int srt_setsockopt(SRTSOCKET, int, SRT_SOCKOPT, const void*, int) { return 0; }
int socket(int d, int t, int) { CHECK(d == AF_INET && t == SOCK_DGRAM, "a udp socket"); if (l_sock) return -1; l_udp++; return 60; }
int setsockopt(int f, int, int, const void*, socklen_t) { CHECK(f == 60, "its own descriptor"); return l_opt ? -1 : 0; }
static bool addr_ok(const sockaddr* a, size_t n) { auto in = (const sockaddr_in*)a; return n == sizeof(sockaddr_in) && in->sin_family == AF_INET && ((in->sin_port >> 8 | in->sin_port << 8) & 0xffff) == 1935; }
int bind(int f, const sockaddr* a, socklen_t n) { CHECK(f == 60 && addr_ok(a, n), "the configured port"); if (l_bind) return -1; l_bound++; return 0; }
int srt_bind_acquire(SRTSOCKET u, UDPSOCKET f) { CHECK(u == 50 && f == 60 && l_bound, "a bound socket is handed over"); if (l_acq) return -1; l_sbound = 1; l_udp--; return 0; }
int srt_bind(SRTSOCKET u, const sockaddr* a, int n) { CHECK(u == 50 && addr_ok(a, n), "the configured port"); if (l_sbind) return -1; l_sbound = 2; return 0; }
int srt_listen(SRTSOCKET u, int n) { CHECK(u == 50 && n == 17 && l_sbound, "a bound socket listens"); if (l_listen) return -1; l_listening = 1; return 0; }
int close(int f) { CHECK(f == 60 && l_udp == 1, "its own descriptor is closed once"); l_udp--; return 0; }
}
#endif
#if MODE == 4
static std::shared_ptr<StSrtSocket> k9, k10; static std::string want[2]; static int ends[2]; static int early; static bool quits, left[2]; static size_t got[2]; static bool sent; static int cap;
static void* reader(void* p) {
  size_t i = (size_t)p; auto k = i ? k10 : k9; uint8_t b[8];
  for (;;) {
    size_t n = 0; error_t e = k->read(b, 8, n);
    if (e == ERROR_SRT_SOCKET_TIMEOUT && (got[i] < 3 || ends[i] != 2)) { CHECK(early < TIMEOUTS, "data that is there wakes its reader"); early++; if (early > 9) return nullptr; sym_reach("early"); if (quits) { left[i] = true; return nullptr; } continue; }
    if (e != SUCCESS) { CHECK((e == ERROR_SRT_SOCKET_TIMEOUT) == (ends[i] == 2), "each learns of its own end"); break; }
    CHECK(n >= 1 && got[i] + n <= 3, "its bytes"); if (got[i] + n > 3) return nullptr;
    CHECK(!memcmp(b, want[i].data() + got[i], n), "of its own connection"); got[i] += n;
  }
  return nullptr;
}
static void* writer(void*) { for (int i = 0; i < 2; i++) { char m = (char)('x' + i); error_t e = k9->write(&m, 1); if (e == ERROR_SRT_SOCKET_TIMEOUT) { CHECK(early < TIMEOUTS, "room to send wakes the writer"); early++; i--; if (early > 9) return nullptr; sym_reach("early"); continue; } if (e != SUCCESS) { CHECK(ends[0] == 1 && e != ERROR_SRT_SOCKET_TIMEOUT, "writing is waited for"); sent = true; return nullptr; } } CHECK(s_socks[9]->out.size() == 2 && s_socks[9]->out[0] == "x" && s_socks[9]->out[1] == "y", "and sent in order"); sent = true; return nullptr; }
#endif
extern "C" void sym_main() {
  errno = 0;
#if MODE == 4
  co_switches = SWITCHES; co_forced = FORCED; co_timeouts = TIMEOUTS; co_sleepy = true;
#endif
#if MODE == 0   // reading and writing
  SSock s; s_socks[9] = &s;
  std::string all; unsigned n = sym_choose(0, MSGS, "messages");
  for (unsigned i = 0; i < n; i++) {
    unsigned big = sym_choose(0, 1, "big"); std::string m = big ? std::string(SRT_LIVE_DEF_PLSIZE, (char)('a' + i)) : sym_str(sym_choose(1, 2, "len"), "m");
    if (big) { std::string x = sym_str(2, "x"); m[0] = x[0]; m[SRT_LIVE_DEF_PLSIZE - 1] = x[1]; }
    s.in.push_back(m); all += m;
  }
  s.arrived = sym_choose(0, 1, "there") ? n : 0;
  s.end = sym_choose(0, 2, "end");
  {
    StSrtSocket k(9);
    unsigned long long r = sym_u32("rtm"), w = sym_u32("stm"); k.set_recv_timeout(r); k.set_send_timeout(w);
    CHECK(k.get_recv_timeout() == r && k.get_send_timeout() == w && k.get_fd() == 9, "timeouts are kept");
    size_t at = 0; static uint8_t b[4000];
    for (int i = 0; i < OPS; i++) {
      static const unsigned Z[] = {1, 3, 188, 1316, 1400};
      unsigned z = Z[sym_choose(0, 4, "size")], full = sym_choose(0, 1, "full");
      memset(b, 0xEE, z + 4);
      if (full) {
        ssize_t got = -7; error_t e = k.read_fully(b, z, &got);
        if (all.size() - at >= z) { CHECK(e == SUCCESS && got == (ssize_t)z, "a full read is full"); CHECK(!memcmp(b, all.data() + at, z), "with the stream's bytes"); at += z; sym_reach("full"); }
        else { CHECK(e != SUCCESS && got == (ssize_t)(all.size() - at), "a short one is an error that says how much came"); CHECK(!memcmp(b, all.data() + at, all.size() - at), "with what came"); CHECK((e == ERROR_SRT_SOCKET_TIMEOUT) == (s.end == 2), "a timeout is told apart"); sym_reach("short"); at = all.size(); break; }
      } else {
        size_t got = 0; error_t e = k.read(b, z, got);
        if (at < all.size()) { CHECK(e == SUCCESS && got >= 1 && got <= z && got <= all.size() - at, "a read gives what came"); if (got > all.size() - at) return; CHECK(!memcmp(b, all.data() + at, got), "in order, nothing lost"); at += got; sym_reach("read"); }
        else { CHECK(e != SUCCESS && (e == ERROR_SRT_SOCKET_TIMEOUT) == (s.end == 2) && (e == ERROR_SRT_SOCKET_CLOSED) == (s.end == 3), "the end, a timeout and a failure are told apart"); sym_reach("ended"); break; }
        z = (unsigned)got;
      }
      CHECK(b[z] == 0xEE && b[z + 1] == 0xEE, "and nothing more");
    }
    CHECK(s.open, "open while it is used");
  }
  CHECK(!s.open, "closed when it is let go");
#elif MODE == 1  // writing
  SSock s; s_socks[9] = &s; s.end = 2;
  static const unsigned Z[] = {0, 1, 188, 1315, 1316, 1317, 2632, 2633, 4000};
  std::string all;
  s.room = sym_choose(0, 3, "room"); s.refill = sym_choose(0, 2, "refill"); s.sendend = sym_choose(0, 2, "how"); int cap = s.room + s.refill;
  s.part = sym_choose(0, 1, "part"); int parts = 0;
  StSrtSocket k(9); k.set_send_timeout(1000);
  for (int i = 0; i < 2; i++) {
    unsigned z = Z[sym_choose(0, 8, "size")]; std::string m(z, (char)('a' + i)); std::string x = sym_str(2, "x"); if (z > 1) { m[0] = x[0]; m[z - 1] = x[1]; } if (z > 1317) m[1316] = x[1];
    size_t before = s.out.size(); unsigned need = (z + 1315) / 1316; parts = s.part && z > 1;
    if (parts && (z - 1) % 1316 + 1 > 0) { unsigned h = (z < 1316 ? z : 1316) / 2; need = 1 + (z - h + 1315) / 1316; }
    error_t e = k.write((void*)m.data(), z);
    std::string got; for (size_t j = before; j < s.out.size(); j++) got += s.out[j];
    bool fits = s.out.size() <= (size_t)cap && (int)(before + need) <= cap;
    CHECK(got == m.substr(0, got.size()), "what is sent is the data, in order");
    CHECK((e == SUCCESS) == (got.size() == z), "success means all was sent");
    if (fits) CHECK(e == SUCCESS, "a full send buffer is waited for");
    else { CHECK((e == ERROR_SRT_SOCKET_TIMEOUT) == (s.sendend == 1), "a timeout is told apart"); sym_reach("failed"); return; }
    sym_reach("sent");
  }
#elif MODE == 2  // listening
  l_create = sym_choose(0, 1, "create"); l_sock = sym_choose(0, 1, "socket"); l_opt = sym_choose(0, 1, "option"); l_bind = sym_choose(0, 1, "bind"); l_acq = sym_choose(0, 1, "acquire"); l_sbind = sym_choose(0, 1, "srtbind"); l_listen = sym_choose(0, 1, "listen");
  bool reuse = sym_choose(0, 1, "reuse");
  SSock s; s_socks[50] = &s;
  {
    StSrtServerSocket k;
    error_t e = k.listen("0.0.0.0", 1935, reuse, 17);
    bool ok = !l_create && !l_listen && ((!l_sock && !(reuse && l_opt) && !l_bind && !l_acq) || (!reuse && !l_sbind));
    CHECK((e == SUCCESS) == ok && (e == SUCCESS) == !!l_listening, "listening succeeds exactly when the port could be taken");
    if (e == SUCCESS) CHECK(l_nonblock[0] && l_nonblock[1], "without ever blocking the server");
    CHECK(l_udp == 0, "no descriptor is left open");
    sym_reach(ok ? "ok" : "failed");
  }
  if (!l_create) CHECK(!s.open, "closed in the end");
#elif MODE == 3  // accepting
  SSock s, c, d; s_socks[50] = &s; s_socks[71] = &c; s_socks[72] = &d; s.end = 1;
  std::vector<int> want; int next = 71;
  for (int i = 0; i < 2; i++) want.push_back(sym_choose(0, 1, "fails") ? -1 : next++);
  want.push_back(-2);  // the listener breaks
  s.accepts.push_back(want[0]); s.accepts.push_back(want[1]); s.arrived = sym_choose(0, 1, "there");
  {
    StSrtServerSocket k;
    CHECK(k.listen("0.0.0.0", 1935, true, 17) == SUCCESS, "listening");
    for (int i = 0; i < 3; i++) {
      PSocket p = k.accept();
      CHECK(!!p == (want[i] > 0), "a connection for every client, and none for a failure");
      if (!p) { sym_reach("none"); continue; }
      auto io = std::dynamic_pointer_cast<StSrtSocket>(p->get_io());
      CHECK(io && io->get_fd() == want[i] && p->get_peer_ip() == "10.0.0.9" && p->get_peer_port() == 8080, "the client's own, with its address");
      sym_reach("client");
      SSock* x = want[i] == 71 ? &c : &d;
      CHECK(x->open, "open while it is served"); io.reset(); p.reset(); CHECK(!x->open, "closed when it is let go");
    }
    CHECK(s.open, "still listening");
  }
  CHECK(!s.open, "closed in the end");
#elif MODE == 5  // connecting
  SSock s; s_socks[9] = &s; unsigned f = sym_choose(0, 5, "fail"), named = sym_choose(0, 1, "name"), port = sym_u16("port");
  c_create = f == 1; c_dns = f == 2; c_connect = f == 3; s.end = 2;
  if (f == 4) { s.room = 0; s.sendend = 1; } else if (f == 5) { s.room = 0; s.sendend = 0; } else if (sym_choose(0, 1, "waits")) { s.room = 0; s.refill = 3; }
  PSocket k = SingleInstance<ClientSocketFactory>::get_instance().create_ss(SRT, named ? "up.example" : "10.0.0.7", (int)port, 500);
  bool ok = f == 0 || (f == 2 && !named);
  CHECK(!!k == ok, "a connection exactly when there is one");
  if (ok || f > 2) CHECK(c_calls == 1 && c_ip == (named ? 0x0800000a : 0x0700000a) && c_port == port, "to the address it was told");
  if (!k) { CHECK(f == 1 || !s.open, "and nothing is left open otherwise"); sym_reach("failed"); return; }
  CHECK(s.open, "open"); std::string m = sym_str(2, "m");
  CHECK(k->write((void*)m.data(), 2) == SUCCESS && s.out.size() == 1 && s.out[0] == m, "and can be used");
  k = nullptr; CHECK(!s.open, "closed when it is let go");
  sym_reach("connected");
#else  // several connections at once, one of them read and written at the same time
  SSock a, b; s_socks[9] = &a; s_socks[10] = &b;
  for (int i = 0; i < 2; i++) { SSock& s = i ? b : a; s.in.push_back(std::string(1, (char)('a' + i)) + sym_str(1, "m")); s.in.push_back(sym_str(1, "m")); s.end = i ? 2 : sym_choose(0, 2, "end"); s.arrived = i ? 0 : sym_choose(0, 1, "there") * 2; }
  a.room = sym_choose(0, 1, "room"); a.refill = 2; a.sendend = 1;
  k9 = std::make_shared<StSrtSocket>(9); k10 = std::make_shared<StSrtSocket>(10); k9->set_recv_timeout(5); k10->set_recv_timeout(5); k9->set_send_timeout(5);
  want[0] = a.in[0] + a.in[1]; want[1] = b.in[0] + b.in[1]; ends[0] = a.end; ends[1] = b.end;
  quits = TIMEOUTS && sym_choose(0, 1, "quits");
  cap = a.room + 2;
  co_spawn(reader, (void*)0); co_spawn(reader, (void*)1); co_spawn(writer, nullptr);
  co_join();
  CHECK((got[0] == 3 || left[0]) && (got[1] == 3 || left[1]), "every byte of every connection is read by its reader");
  CHECK(sent, "and the writer is woken too");
  sym_reach("done");
  k9.reset(); k10.reset();
  CHECK(!a.open && !b.open, "closed in the end");
#endif
}
