// The TCP transport over the coroutine library's socket calls.
#include <errno.h>
#include <arpa/inet.h>
#include <netdb.h>
#include <sys/socket.h>
#include <sps_sys_st_io_tcp.hpp>
#include <cstring>
#include <string>
#include <sym.hpp>
using namespace sps;
struct _st_netfd { int open; } fds[4];
static int nfd, closes, lastsock, sockfail, openfail, connfail, rawclosed;
static int optfail, reusefail, bindfail, listenfail, acceptfail, listening, reuseaddr, reuseport, dnsfail; static unsigned bound; static bool any; static uint8_t caddr[4];
static uint8_t data[8]; static size_t len, at; static int outcome, pieces;
static unsigned long long tread, twrite, tconn; static unsigned ip; static int port; static size_t wrote, asked; static const void* wbuf; static size_t askr;
extern "C" {
int socket(int d, int t, int) { CHECK(d == AF_INET && t == SOCK_STREAM, "a tcp socket"); return sockfail ? -1 : 55; }
int close(int fd) { CHECK(fd == 55, "only its own descriptor"); rawclosed++; return 0; }
_st_netfd* st_netfd_open_socket(int fd) { if (openfail) return nullptr; fds[nfd].open = 1; return &fds[nfd++]; }
int st_netfd_fileno(_st_netfd* f) { return (int)(f - fds); }
int st_netfd_close(_st_netfd* f) { CHECK(f && f->open == 1, "closed once"); f->open = 2; closes++; return 0; }
int st_connect(_st_netfd* f, const struct sockaddr* a, int, unsigned long long t) {
  auto in = (const sockaddr_in*)a; ip = in->sin_addr.s_addr; port = (in->sin_port >> 8 | in->sin_port << 8) & 0xffff; tconn = t;
  CHECK(in->sin_family == AF_INET, "family");
  if (connfail) { errno = connfail == 1 ? ECONNREFUSED : ETIME; return -1; }
  return 0;
}
static uint8_t dnsip[4] = {10, 1, 2, 3}; static char* dnslist[2]; static struct hostent dnsent;
struct hostent* gethostbyname(const char* n) {
  CHECK(!strcmp(n, "up.example"), "the name it was told");
  if (dnsfail) return nullptr;
  dnslist[0] = (char*)dnsip; dnsent.h_addrtype = AF_INET; dnsent.h_length = 4; dnsent.h_addr_list = dnslist; return &dnsent;
}
const char* inet_ntop(int f, const void* v, char* o, unsigned n) {
  CHECK(f == AF_INET, "family"); auto p = (const unsigned char*)v; std::string s; for (int i = 0; i < 4; i++) s += (i ? "." : "") + std::to_string((int)p[i]);
  if (n <= s.size()) return nullptr; memcpy(o, s.c_str(), s.size() + 1); return o;
}
int setsockopt(int, int l, int o, const void* v, socklen_t) {
  CHECK(l == SOL_SOCKET, "socket options");
  if (o == SO_REUSEADDR) { if (optfail) return -1; reuseaddr = *(const int*)v; } else if (o == SO_REUSEPORT) { if (reusefail) return -1; reuseport = *(const int*)v; }
  return 0;
}
int bind(int, const struct sockaddr* a, socklen_t n) {
  auto in = (const sockaddr_in*)a; CHECK(in->sin_family == AF_INET && n == sizeof *in, "family");
  if (bindfail) { errno = EADDRINUSE; return -1; }
  bound = (in->sin_port >> 8 | in->sin_port << 8) & 0xffff; any = in->sin_addr.s_addr == 0; return 0;
}
int listen(int, int b) { if (listenfail) return -1; listening = b; return 0; }
static void put_addr(struct sockaddr* a, const uint8_t* ip, unsigned p) { auto in = (sockaddr_in*)a; memset(in, 0, sizeof *in); in->sin_family = AF_INET; in->sin_port = (unsigned short)(p >> 8 | p << 8); memcpy(&in->sin_addr, ip, 4); }
_st_netfd* st_accept(_st_netfd* l, struct sockaddr* a, int* n, unsigned long long) {
  CHECK(l == &fds[0] && l->open == 1 && *n >= (int)sizeof(sockaddr_in), "the listener");
  if (acceptfail == 1) { errno = EMFILE; return nullptr; }
  put_addr(a, caddr, 4001); fds[nfd].open = 1; return &fds[nfd++];
}
int getsockname(int fd, struct sockaddr* a, socklen_t*) { CHECK(fd == 1, "of the connection"); if (acceptfail == 2) return -1; static uint8_t me[4] = {10, 0, 0, 1}; put_addr(a, me, 88); return 0; }
static ssize_t fail() { if (outcome == 1) { errno = ETIME; return -1; } if (outcome == 2) { errno = ECONNRESET; return -1; } if (outcome == 3) { errno = EINTR; return -1; } return 0; }
ssize_t st_read(_st_netfd* f, void* b, size_t n, unsigned long long t) {
  CHECK(f->open == 1, "open"); tread = t; askr = n;
  if (at == len) return fail();
  size_t k = n < len - at ? n : len - at;
  if (k > 1) k = sym_choose(1, (unsigned)k, "got");
  memcpy(b, data + at, k); at += k; return k;
}
ssize_t st_read_fully(_st_netfd* f, void* b, size_t n, unsigned long long t) {
  CHECK(f->open == 1, "open"); tread = t;
  size_t k = n < len - at ? n : len - at;
  memcpy(b, data + at, k); at += k;
  if (k == n) return n;
  ssize_t r = fail();
  return r < 0 ? r : (ssize_t)k;
}
ssize_t st_write(_st_netfd* f, const void* b, size_t n, unsigned long long t) {
  CHECK(f->open == 1, "open"); twrite = t; asked = n; wbuf = b;
  if (outcome) return fail();
  wrote = n; return n;
}
}
extern "C" void sym_main() {
  errno = sym_choose(0, 1, "stale") ? ETIME : 0;   // whatever an earlier call left
#if MODE == 0
  len = sym_choose(0, 4, "len"); sym_make(data, len, "data"); outcome = sym_choose(0, 3, "end");
  fds[0].open = 1; nfd = 1;
  {
    StTcpSocket s(&fds[0]);
    unsigned long long r = sym_u32("rtm"), w = sym_u32("stm");
    bool set = sym_choose(0, 1, "set");
    if (set) { s.set_recv_timeout(r); s.set_send_timeout(w); CHECK(s.get_recv_timeout() == r && s.get_send_timeout() == w, "timeouts are kept"); }
    else r = w = (unsigned long long)-1;
    uint8_t b[8]; size_t total = 0;
    error_t last = outcome == 1 ? ERROR_SOCKET_TIMEOUT : outcome == 2 ? ERROR_SOCKET_READ : outcome == 3 ? ERROR_SOCKET_EINTR : ERROR_SOCKET_CLOSED;
    for (int i = 0; i < 3; i++) {
      unsigned want = sym_choose(1, 3, "want"), full = sym_choose(0, 1, "full");
      size_t from = at, left = len - at;
      memset(b, 0xEE, sizeof b);
      if (full) {
        ssize_t n = -7; error_t e = s.read_fully(b, want, &n);
        if (left >= want) { CHECK(e == SUCCESS && n == (ssize_t)want && at == from + want, "a full read is full"); CHECK(!memcmp(b, data + from, want), "its bytes"); sym_reach("full"); }
        else { CHECK(e != SUCCESS, "a short one is an error"); CHECK((e == ERROR_SOCKET_TIMEOUT) == (outcome == 1), "a timeout is told apart"); sym_reach("short"); break; }
      } else {
        size_t n = 99; error_t e = s.read(b, want, n);
        if (left) { CHECK(e == SUCCESS && n >= 1 && n <= want && at == from + n, "a read gives what came"); CHECK(!memcmp(b, data + from, n), "its bytes"); sym_reach("read"); }
        else { CHECK(e == last, "the end, a timeout, a reset and an interruption are told apart"); sym_reach("ended"); break; }
        for (size_t k = n; k < 8; k++) CHECK(b[k] == 0xEE, "and nothing more");
      }
      CHECK(tread == r, "reads wait as long as allowed");
    }
    static uint8_t lb[70000]; size_t got9 = 0; askr = 0; if (s.read(lb, 70000, got9) == SUCCESS) at = len; CHECK(askr == 70000, "a large read asks for as much");
    size_t keep = at;
    error_t e = s.write(b, 3);
    CHECK(twrite == w && asked == 3 && wbuf == b && at == keep, "writes are handed over whole, and wait as long as allowed");
    CHECK((e == SUCCESS) == (outcome == 0), "and succeed only if all was sent");
    CHECK((e == ERROR_SOCKET_TIMEOUT) == (outcome == 1), "a send timeout is told apart");
    CHECK((s.write(lb, 70000) == SUCCESS) == (outcome == 0) && asked == 70000 && wbuf == lb, "large ones too");
    size_t z = 0; CHECK(s.read(b, 0, z) == ERROR_IO_BUFFER_FULL, "no room, no read");
  }
  CHECK(closes == 1, "closed with its socket");
#elif MODE == 1
  unsigned f = sym_choose(0, 5, "fail");
  sockfail = f == 1; openfail = f == 2; connfail = f == 3 ? 1 : f == 4 ? 2 : 0;
  int p = (int)sym_u16("port"); unsigned long long tm = sym_u32("tm");
  st_netfd_t fd = &fds[3]; std::string pip = "?";
  bool want = sym_choose(0, 1, "wantip");
  unsigned named = sym_choose(0, 2, "name"); std::string host = named ? "up.example" : "10.1.2.3"; dnsfail = named == 2;
  error_t e = st_tcp_connect(host, p, tm, &fd, want ? &pip : nullptr);
  if ((f >= 1 && f <= 4) || named == 2) {
    CHECK(e != SUCCESS && fd == nullptr, "a failed connection is an error");
    CHECK(closes == (f != 1 && f != 2) && rawclosed == (f == 2), "and leaves nothing open");
    sym_reach("failed");
    return;
  }
  CHECK(e == SUCCESS && fd == &fds[0] && closes == 0 && rawclosed == 0, "connected");
  CHECK(ip == 0x0302010a && port == p && tconn == tm, "to the address it was told");
  if (want) CHECK(pip == "10.1.2.3", "peer address");
  auto s = SingleInstance<ClientSocketFactory>::get_instance().create_ss(TCP, "10.9.9.9", 7, 5);
  CHECK(s && s->get_peer_ip() == "10.9.9.9" && s->get_peer_port() == 7 && ip == 0x0909090a && port == 7 && tconn == 5, "the factory too");
  if (s) { uint8_t b[2] = {1, 2}; CHECK(s->write(b, 2) == SUCCESS && wrote == 2, "and can be used"); s = nullptr; CHECK(closes == 1, "and closed"); }
  connfail = 1;
  CHECK(!SingleInstance<ClientSocketFactory>::get_instance().create_ss(TCP, "10.9.9.9", 7, 5) && closes == 2, "no socket without a connection");
  sym_reach("connected");
#else  // listening and accepting
  unsigned f = sym_choose(0, 6, "fail"); bool reuse = sym_choose(0, 1, "reuse"); unsigned p = sym_u16("port"); int backlog = (int)sym_range(1, 127, "backlog");
  sockfail = f == 1; openfail = f == 2; optfail = f == 3; reusefail = f == 4; bindfail = f == 5; listenfail = f == 6; acceptfail = sym_choose(0, 2, "accept");
  for (auto& c : caddr) c = sym_u8("client");
  {
    PIServerSocket s = SingleInstance<ServerSocketFactory>::get_instance().create_ss(TCP);
    CHECK(s != nullptr, "tcp is known"); if (!s) return;
    error_t e = s->listen("0.0.0.0", (int)p, reuse, backlog);
    bool ok = f == 0 || (f == 4 && !reuse);
    CHECK((e == SUCCESS) == ok, "listening succeeds exactly when the port could be taken");
    if (!ok) { CHECK(!listening && closes == (f >= 3) && rawclosed == (f == 2), "and leaves nothing open otherwise"); sym_reach("refused"); return; }
    CHECK(listening == backlog && bound == p && any && reuseaddr && reuseport == reuse, "on that port of every address, as it was told");
    CHECK(closes == 0, "and stays open");
    PSocket c = s->accept();
    if (acceptfail) { CHECK(!c && closes == (acceptfail == 2), "a failed accept is no connection"); sym_reach("none"); return; }
    CHECK(c && c->get_peer_port() == 4001 && c->get_self_port() == 88, "a connection with its ports"); if (!c) return;
    std::string ip; for (int i = 0; i < 4; i++) ip += (i ? "." : "") + std::to_string((int)caddr[i]);
    CHECK(c->get_peer_ip() == ip && c->get_self_ip() == "10.0.0.1", "and addresses");
    uint8_t b[2] = {1, 2}; CHECK(c->write(b, 2) == SUCCESS && wrote == 2, "which can be used");
    c = nullptr; CHECK(closes == 1 && fds[0].open == 1, "and is closed with its owner");
    sym_reach("client");
  }
  CHECK(closes == 2, "closed in the end");
#endif
}
