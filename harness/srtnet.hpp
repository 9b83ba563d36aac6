// The SRT library's calls: message sockets, readiness and the epoll the dispatcher polls.
#pragma once
#include <arpa/inet.h>
#include <errno.h>
#include <sps_sys_st_io_srt.hpp>
#include <srtcore/udt.h>
#include <map>
#include <string>
#include <vector>
#include "co.hpp"
struct SSock {
  std::vector<std::string> in, out; size_t at = 0, arrived = 0;  // messages; those before `arrived` are there
  int end = 0;        // after the last message: 0 closed by the peer, 1 broken, 2 nothing ever comes
  int room = 1000;    // messages that can be sent; then 0 refills on waiting
  int refill = 0;     // how often it refills, and then: sendend
  int sendend = 0;    // 0 broken (error event), 1 never writable again, 2 a hard error
  int part = 0;       // how many sends take only the first half of what they are given
  int watch = 0; bool open = true; std::string id; bool blocking = false;
  std::vector<int> accepts;  // of a listener: new sockets; -1 a failure
  bool parks = false;        // and after them nobody comes
};
static std::map<int, SSock*> s_socks; static int s_err; static int s_disp = -1;
static SSock* s_get(int u) { auto i = s_socks.find(u); if (i == s_socks.end()) { CHECK(false, "only its own sockets"); return nullptr; } CHECK(i->second->open, "only open sockets"); return i->second; }
static int s_ready(SSock* s) {  // what an epoll would report, letting the awaited things happen
  int e = 0;
  if (s->watch & SRT_EPOLL_IN) {
    if (s->at < s->arrived) e |= SRT_EPOLL_IN;
    else if (s->arrived < s->in.size()) { s->arrived++; e |= SRT_EPOLL_IN; }
    else if (!s->accepts.empty()) { s->arrived = 1; e |= SRT_EPOLL_IN; }
    else if (s->end == 0) { s->end = 3; e |= SRT_EPOLL_IN; }
    else if (s->end == 3) e |= SRT_EPOLL_IN;
    else if (s->end == 1) e |= SRT_EPOLL_ERR;
  }
  if (s->watch & SRT_EPOLL_OUT) {
    if (s->room == 0 && s->refill) { s->refill--; s->room = 1; }
    if (s->room) e |= SRT_EPOLL_OUT; else if (s->sendend == 0) e |= SRT_EPOLL_ERR;
  }
  return e;
}
static void s_poke() { if (s_disp >= 0 && co_tab[s_disp].state == 4) co_tab[s_disp].state = 0; }
namespace srt {
std::string getstreamid(SRTSOCKET u) { return s_get(u)->id; }
}
namespace UDT {
static int s_watch(SRTSOCKET u, const int* e) {
  SSock* s = s_get(u); if (!s) return -1;
  s->watch = e ? *e : SRT_EPOLL_IN | SRT_EPOLL_OUT | SRT_EPOLL_ERR; s_poke(); return 0;
}
int epoll_add_usock(int, SRTSOCKET u, const int* e) { return s_watch(u, e); }
int epoll_update_usock(int, SRTSOCKET u, const int* e) { return s_watch(u, e); }
int epoll_remove_usock(int, SRTSOCKET u) { SSock* s = s_get(u); if (s) s->watch = 0; return 0; }
int epoll_remove_ssock(int, SYSSOCKET u) { auto i = s_socks.find(u); if (i != s_socks.end()) i->second->watch = 0; return 0; }
int epoll_uwait(int, SRT_EPOLL_EVENT* ev, int n, int64_t) {
  s_disp = co_cur;
  for (;;) {
    int k = 0;
    for (auto& i : s_socks) if (i.second->open && i.second->watch && k < n) { int e = s_ready(i.second); if (e) { ev[k].fd = i.first; ev[k].events = e; k++; } }
    if (k) return k;
    co_tab[co_cur].state = 4; co_schedule();
  }
}
}
extern "C" {
int srt_epoll_create(void) { return 3; }
int32_t srt_epoll_set(int, int32_t) { return 0; }
int srt_getlasterror(int*) { return s_err; }
const char* srt_getlasterror_str(void) { return "srt error"; }
SRT_SOCKSTATUS srt_getsockstate(SRTSOCKET u) { return SRTS_BROKEN; }
int srt_recv(SRTSOCKET u, char* b, int n) {
  co_yield();
  SSock* s = s_get(u); if (!s) return -1;
  CHECK(n >= SRT_LIVE_DEF_PLSIZE, "there is room for a whole message");
  if (s->at < s->arrived) { std::string& m = s->in[s->at++]; memcpy(b, m.data(), m.size()); return (int)m.size(); }
  if (s->end == 3) return 0;
  s_err = SRT_EASYNCRCV;
  if (s->at == s->in.size() && s->end == 4) s_err = SRT_ECONNLOST;
  return -1;
}
int srt_sendmsg(SRTSOCKET u, const char* b, int n, int ttl, int) {
  co_yield();
  SSock* s = s_get(u); if (!s) return -1;
  CHECK(n >= 1 && n <= SRT_LIVE_DEF_PLSIZE && ttl == -1, "messages are no longer than the protocol carries, and not dropped");
  if (s->room == 0) { s_err = s->refill || s->sendend != 2 ? SRT_EASYNCSND : SRT_ECONNLOST; return -1; }
  if (s->part && n > 1) { s->part--; n /= 2; }
  s->room--; s->out.push_back(std::string(b, n)); return n;
}
int srt_close(SRTSOCKET u) { auto i = s_socks.find(u); if (i == s_socks.end()) { CHECK(u == -1, "only its own sockets are closed"); return -1; } CHECK(i->second->open, "closed once"); i->second->open = false; return 0; }
SRTSOCKET srt_accept(SRTSOCKET u, struct sockaddr* a, int* n) {
  SSock* s = s_get(u); if (!s) return -1;
  if (s->parks && s->accepts.empty()) co_park();
  if (s->arrived == 0 || s->accepts.empty()) { s_err = SRT_EASYNCRCV; return -1; }
  int f = s->accepts[0]; s->accepts.erase(s->accepts.begin()); s->arrived = 0;
  if (f < 0) { s_err = SRT_ECONNLOST; return -1; }
  sockaddr_in* in = (sockaddr_in*)a; CHECK(*n >= (int)sizeof(sockaddr_in), "room for the address");
  memset(in, 0, sizeof *in); in->sin_family = AF_INET; in->sin_port = (unsigned short)(0x1f90 >> 8 | (0x1f90 & 0xff) << 8); in->sin_addr.s_addr = 0x0900000a; *n = sizeof *in;
  return f;
}
#ifndef NET_SERVER
const char* inet_ntop(int, const void* v, char* o, unsigned n) {
  auto p = (const unsigned char*)v; int at = 0;
  for (int i = 0; i < 4; i++) { if (i) o[at++] = '.'; int x = p[i]; if (x > 99) o[at++] = '0' + x / 100; if (x > 9) o[at++] = '0' + x / 10 % 10; o[at++] = '0' + x % 10; }
  o[at] = 0; return o;
}
#endif
}
