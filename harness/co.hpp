// Cooperative coroutines for harnesses: the state-threads calls the server makes
// (threads, condition variables, sleeps) on top of engine-level stack switching.
// Every switch is a solver-chosen decision, so all interleavings at blocking calls
// are explored (up to `co_switches` voluntary switches; forced ones are free).
#pragma once
#include <errno.h>
#include <sym.hpp>
#include <cstdlib>
struct Co { void* (*fn)(void*); void* arg; int id; int state; void* cond; bool timed; bool timedout; };  // state 0 ready 1 blocked 2 done 4 idle for good
static Co co_tab[12];
static int co_n = 1, co_cur = 0;      // slot 0 is the main flow
static int co_switches = 0;           // voluntary switches left
static int co_timeouts = 0;           // timeouts of timed waits left
static int co_forced = -1;            // choices left at forced switches (then in turn); -1 without limit
static int co_daemons = 0;           // those before it may wait for ever
static int co_expired = 0;           // timed waits that ran out
static int co_sleeps = 0;            // how often somebody slept
static bool co_sleepy = false;        // sleeping lets all others run
static int co_pick(const int* c, int n) {
  if (n == 1) return c[0];
  if (co_forced == 0) { for (int i = 0; i < n; i++) if (c[i] > co_cur) return c[i]; return c[0]; }
  if (co_forced > 0) co_forced--;
  return c[sym_choose(0, n - 1, "next")];
}
static void co_schedule() {
  int c[12], n = 0;
  for (int i = 0; i < co_n; i++) if (co_tab[i].state == 0) c[n++] = i;
  if (co_timeouts > 0) for (int i = 0; i < co_n; i++) if (co_tab[i].state == 1 && co_tab[i].timed) c[n++] = i;
  if (n == 0) {  // everything else is blocked: time passes until the first timed wait expires
    for (int i = 0; i < co_n; i++) if (co_tab[i].state == 1 && co_tab[i].timed) c[n++] = i;
  }
  if (n == 0 && co_tab[0].state == 5) {
    for (int i = 1; i < co_n; i++) CHECK(co_tab[i].state == 2 || co_tab[i].state == 4 || i < co_daemons, "no coroutine is stuck for ever");
    c[n++] = 0;
  }
  CHECK(n > 0, "some coroutine can always make progress");
  int k = co_pick(c, n);
  if (co_tab[k].state == 1) { co_tab[k].state = 0; co_tab[k].timedout = true; co_expired++; if (co_timeouts > 0) co_timeouts--; }
  co_cur = k;
  sym_co_switch(co_tab[k].id);
}
static void co_entry_(void* p) {
  Co* c = (Co*)p;
  c->fn(c->arg);
  c->state = 2;
  co_schedule();
  abort();
}
static int co_spawn(void* (*fn)(void*), void* arg) {
  int k = co_n++;
  co_tab[k] = Co{fn, arg, 0, 0, nullptr, false, false};
  co_tab[k].id = sym_co_create(co_entry_, &co_tab[k]);
  return k;
}
static void co_yield() {  // a call that may block
  int others = 0;
  for (int i = 0; i < co_n; i++) if (i != co_cur && co_tab[i].state == 0) others++;
  if (!others || co_switches <= 0) return;
  if (!sym_choose(0, 1, "switch")) return;
  co_switches--;
  int me = co_cur;
  co_tab[me].state = 3;  // not a candidate for this switch
  int c[12], n = 0;
  for (int i = 0; i < co_n; i++) if (co_tab[i].state == 0) c[n++] = i;
  co_tab[me].state = 0;
  int k = c[n > 1 ? sym_choose(0, n - 1, "next") : 0];
  co_cur = k;
  sym_co_switch(co_tab[k].id);
}
static bool co_wait(void* cond, bool timed) {  // false when it timed out
  Co& c = co_tab[co_cur];
  c.state = 1; c.cond = cond; c.timed = timed; c.timedout = false;
  co_schedule();
  c.cond = nullptr;
  return !c.timedout;
}
static void co_nap() {
  int c[12], n = 0, me = co_cur;
  for (int i = 0; i < co_n; i++) if (i != me && co_tab[i].state == 0) c[n++] = i;
  if (!n) { for (int i = 0; i < co_n; i++) if (co_tab[i].state == 1 && co_tab[i].timed) c[n++] = i; }
  if (!n) return;
  int k = co_pick(c, n);
  if (co_tab[k].state == 1) { co_tab[k].state = 0; co_tab[k].timedout = true; co_expired++; }
  co_cur = k; sym_co_switch(co_tab[k].id);
}
// a server with nothing more to accept
static void co_park() { co_tab[co_cur].state = 4; co_schedule(); abort(); }
static bool co_done(int k) { return co_tab[k].state == 2; }
// run the others until each is finished
static void co_join() {
  for (int i = 1; i < co_n; i++) if (co_tab[i].state != 2) { co_tab[0].state = 5; co_schedule(); co_tab[0].state = 0; return; }
}
struct _st_cond { int dead; };
extern "C" {
_st_cond* st_cond_new(void) { return new _st_cond{0}; }
int st_cond_destroy(_st_cond* c) {
  for (int i = 0; i < co_n; i++) if (co_tab[i].state == 1 && co_tab[i].cond == c) return -1;  // EBUSY, as the library does
  delete c;
  return 0;
}
int st_cond_timedwait(_st_cond* c, unsigned long long t) { if (co_wait(c, t != (unsigned long long)-1)) return 0; errno = ETIME; return -1; }
int st_cond_wait(_st_cond* c) { return co_wait(c, false) ? 0 : -1; }
int st_cond_signal(_st_cond* c) { for (int i = 0; i < co_n; i++) if (co_tab[i].state == 1 && co_tab[i].cond == c) { co_tab[i].state = 0; return 0; } return 0; }
int st_cond_broadcast(_st_cond* c) { for (int i = 0; i < co_n; i++) if (co_tab[i].state == 1 && co_tab[i].cond == c) co_tab[i].state = 0; return 0; }
static int co_refuse = -1;  // the creation that fails: no memory for a stack
struct _st_thread* st_thread_create(void* (*fn)(void*), void* arg, int, int) { if (co_refuse >= 0 && !co_refuse--) return nullptr; return (_st_thread*)&co_tab[co_spawn(fn, arg)]; }
struct _st_thread* st_thread_self(void) { return (_st_thread*)&co_tab[co_cur]; }
int st_usleep(unsigned long long) { co_sleeps++; if (co_sleepy) co_nap(); else co_yield(); return 0; }
int st_sleep(int) { co_yield(); return 0; }
}
