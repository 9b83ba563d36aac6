// The state-threads socket calls, backed by FakeIO: outgoing connections get the
// next transport in net_out; what is dialled is recorded.
#pragma once
#include <arpa/inet.h>
#include <errno.h>
#include <netdb.h>
#include <sys/socket.h>
#include "fakeio.hpp"
#ifdef NET_SERVER
#include "co.hpp"
#endif
struct _st_netfd { sps::FakeIO* io; int open; int in; int port; };
static _st_netfd net_fd[8]; static int net_n;
static sps::FakeIO* net_out[8]; static int net_outs;        // transports of the outgoing connections, in order
static unsigned net_ip[8]; static int net_port[8]; static int net_dials; static bool net_refuse;
static int net_closed; static unsigned long long net_rtm, net_stm, net_dial_tm;
extern "C" {
const char* inet_ntop(int, const void* v, char* o, unsigned n) {
  auto p = (const unsigned char*)v; int at = 0;
  for (int i = 0; i < 4; i++) { if (i) o[at++] = '.'; int x = p[i]; if (x > 99) o[at++] = '0' + x / 100; if (x > 9) o[at++] = '0' + x / 10 % 10; o[at++] = '0' + x % 10; }
  o[at] = 0; return o;
}
// names: one host is known
static int net_lookups; static uint8_t net_dnsip[4] = {10, 0, 0, 9}; static char* net_dnslist[2]; static struct hostent net_dnsent;
struct hostent* gethostbyname(const char* n) {
  net_lookups++; if (strcmp(n, "u.ex")) return nullptr;
  net_dnslist[0] = (char*)net_dnsip; net_dnsent.h_addrtype = AF_INET; net_dnsent.h_length = 4; net_dnsent.h_addr_list = net_dnslist; return &net_dnsent;
}
#ifdef NET_SERVER
static void net_block(void) { co_yield(); }
#else
static void net_block(void) {}
#endif
_st_netfd* st_netfd_open_socket(int) { _st_netfd* f = &net_fd[net_n++]; f->io = nullptr; f->open = 1; f->in = -1; return f; }
int st_netfd_fileno(_st_netfd* f) { return (int)(f - net_fd); }
int st_netfd_close(_st_netfd* f) { CHECK(f->open == 1, "a connection is closed once"); f->open = 2; net_closed++; return 0; }
int st_connect(_st_netfd* f, const struct sockaddr* a, int, unsigned long long tm) {
  if (net_dial_tm) CHECK(tm == net_dial_tm, "connecting uses the timeout given");
  auto in = (const sockaddr_in*)a;
  if (in->sin_family != AF_INET) { errno = EAFNOSUPPORT; return -1; }
  net_ip[net_dials] = in->sin_addr.s_addr; net_port[net_dials] = (in->sin_port >> 8 | in->sin_port << 8) & 0xffff;
  if (net_refuse) { errno = ECONNREFUSED; return -1; }
  CHECK(net_dials < net_outs, "no more connections than expected");
  f->io = net_out[net_dials++];
  return 0;
}
ssize_t st_read(_st_netfd* f, void* b, size_t n, unsigned long long tm) {
  if (net_rtm && f->in >= 0) CHECK(tm == net_rtm, "reads of a client use the configured timeout");
  if (net_dial_tm && f->in < 0) CHECK(tm == net_dial_tm, "reads use the timeout of the connection");
  CHECK(f->open == 1, "only open connections are read");
  net_block();
  size_t k = 0;
  error_t e = f->io->read(b, n, k);
  if (e == SUCCESS) return k;
  if (e == ERROR_SOCKET_CLOSED) return 0;
  errno = e == ERROR_SOCKET_TIMEOUT ? ETIME : ECONNRESET;
  return -1;
}
ssize_t st_read_fully(_st_netfd* f, void* b, size_t n, unsigned long long t) {
  size_t at = 0;
  while (at < n) { ssize_t k = st_read(f, (char*)b + at, n - at, t); if (k < 0) return -1; if (!k) break; at += k; }
  return at;
}
ssize_t st_write(_st_netfd* f, const void* b, size_t n, unsigned long long tm) {
  if (net_stm && f->in >= 0) CHECK(tm == net_stm, "writes to a client use the configured timeout");
  if (net_dial_tm && f->in < 0) CHECK(tm == net_dial_tm, "writes use the timeout of the connection");
  CHECK(f->open == 1, "only open connections are written");
  net_block();
  error_t e = f->io->write((void*)b, n);
  if (e == SUCCESS) return n;
  errno = e == ERROR_SOCKET_TIMEOUT ? ETIME : ECONNRESET;
  return -1;
}
#ifdef NET_SERVER
// the listening side: connections come in the order of net_in
static sps::FakeIO* net_in[8]; static int net_ins, net_accepted;
static int net_port_bound[4], net_backlog[4], net_binds, net_listens, net_reuse, net_socks;
static int net_bind_fail, net_listen_fail, net_only = -1;  // net_only: which listener the connections come to
static int net_accept_fail = -1, net_name_fail = -1, net_accept_calls;   // which accept or getsockname fails
static int net_udp_bound[8], net_udps;   // ports of datagram sockets, by descriptor - 100
static int net_to[8], net_fail_port;     // which port a connection comes to (0: any), a port that cannot be had
int socket(int, int, int) { return 100 + net_socks++; }
int setsockopt(int, int, int opt, const void* v, unsigned) { if (opt == SO_REUSEPORT && *(const int*)v) net_reuse++; return 0; }
int bind(int fd, const struct sockaddr* a, unsigned) {
  auto in = (const sockaddr_in*)a;
  if (in->sin_family != AF_INET) { errno = EAFNOSUPPORT; return -1; }
  int port = (in->sin_port >> 8 | in->sin_port << 8) & 0xffff;
  if (net_bind_fail || (net_fail_port && port == net_fail_port)) { errno = EADDRINUSE; return -1; }
  if (fd >= 100) { net_udp_bound[fd - 100] = port; net_udps++; return 0; }
  net_fd[fd].port = port; net_port_bound[net_binds++] = port; return 0;
}
int listen(int, int b) { if (net_listen_fail) return -1; net_backlog[net_listens++] = b; return 0; }
static void net_addr(struct sockaddr* a, unsigned char last, unsigned short port) {
  auto in = (sockaddr_in*)a; memset(in, 0, sizeof *in);
  in->sin_family = AF_INET; in->sin_port = (unsigned short)(port >> 8 | port << 8);
  unsigned char ip[4] = {10, 0, 0, last}; memcpy(&in->sin_addr, ip, 4);
}
_st_netfd* st_accept(_st_netfd* l, struct sockaddr* a, int*, unsigned long long) {
  CHECK(l->open == 1, "the listening socket stays open");
  co_yield();
  static int slept = -1;
  CHECK(slept != co_sleeps, "no spinning while nobody can be accepted"); slept = -1;
  if (net_accept_calls++ == net_accept_fail) { errno = EMFILE; slept = co_sleeps; return nullptr; }
  static bool taken[8]; int k = 0; while (k < net_ins && (taken[k] || (net_to[k] && net_to[k] != l->port))) k++;
  if (k == net_ins || (net_only >= 0 && l != &net_fd[net_only])) co_park();
  taken[k] = true; net_accepted++;
  _st_netfd* f = st_netfd_open_socket(0);
  f->in = k; f->io = net_in[k];
  net_addr(a, 100 + net_accepted, 4000 + net_accepted);
  return f;
}
int getsockname(int fd, struct sockaddr* a, socklen_t*) {
  if (net_accepted - 1 == net_name_fail) { errno = ENOBUFS; return -1; }
  net_addr(a, 1, 80); return 0;
}
static bool net_in_closed(int k) { for (int i = 0; i < net_n; i++) if (net_fd[i].in == k) return net_fd[i].open == 2; return false; }
static bool net_outs_closed() { for (int i = 0; i < net_n; i++) if (net_fd[i].in < 0 && net_fd[i].io && net_fd[i].open != 2) return false; return true; }
#endif
}
