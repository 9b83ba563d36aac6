// Native implementation of the sym API: replays one concrete input.
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <unistd.h>
#include <ucontext.h>
#include "sym.hpp"
static FILE* in;
static int exit_ok;
extern "C" {
void sym_make(void* p, size_t n, const char* name) {
  static char line[1 << 20];
  memset(p, 0, n);
  if (!in || !fgets(line, sizeof line, in)) { printf("REPLAY-NOTE input exhausted at %s\n", name); return; }
  char* sp = strchr(line, ' ');
  if (!sp) return;
  size_t k = strtoul(sp + 1, &sp, 10);
  while (*sp == ' ') sp++;
  if (std::string(line).compare(0, strlen(name), name) || k != n) { printf("REPLAY-DIVERGED expected %s/%zu got %s\n", name, n, line); fflush(stdout); _exit(66); }
  for (size_t i = 0; i < n; i++) { char b[3] = {sp[2 * i], sp[2 * i + 1], 0}; ((unsigned char*)p)[i] = strtoul(b, 0, 16); }
}
void sym_assume(int c) { if (!c) { printf("REPLAY-ASSUME-FALSE\n"); fflush(stdout); _exit(65); } }
void sym_assert_(int c, const char* m) { if (!c) { printf("REPLAY-ASSERT-FAILED %s\n", m); fflush(stdout); _exit(77); } }
void sym_reach(const char* l) { printf("REACH %s\n", l); }
void sym_observe(const char* l, uint64_t v) { printf("OBS %s=%llu\n", l, (unsigned long long)v); }
uint64_t sym_pick(uint64_t v) { return v; }
void sym_exit_ok(int ok) { exit_ok = ok; }
int sym_native() { return 1; }
void sym_file_put(const char* name, const void* p, size_t n) { FILE* f = fopen(name, "wb"); fwrite(p, 1, n, f); fclose(f); }
void sym_file_none(const char* name) { unlink(name); }
long sym_file_get(const char* name, void* p, size_t cap) { FILE* f = fopen(name, "rb"); if (!f) return -1; long n = (long)fread(p, 1, cap, f); fclose(f); return n; }
static ucontext_t* cos[64]; static int nco, cur;
static void co_entry(unsigned a, unsigned b, unsigned c, unsigned d) {
  auto fn = (void (*)(void*))((uint64_t)a << 32 | b); fn((void*)((uint64_t)c << 32 | d)); abort();
}
int sym_co_create(void (*fn)(void*), void* arg) {
  if (!nco) cos[nco++] = new ucontext_t;
  auto* u = cos[nco] = new ucontext_t;
  getcontext(u);
  u->uc_stack.ss_size = 1 << 20; u->uc_stack.ss_sp = malloc(1 << 20); u->uc_link = nullptr;
  uint64_t f = (uint64_t)fn, x = (uint64_t)arg;
  makecontext(u, (void (*)())co_entry, 4, (unsigned)(f >> 32), (unsigned)f, (unsigned)(x >> 32), (unsigned)x);
  return nco++;
}
void sym_co_switch(int id) { if (id == cur) return; int o = cur; cur = id; swapcontext(cos[o], cos[id]); }
}
static bool done;
static void at_exit() { if (!done && !exit_ok) { printf("REPLAY-EXIT\n"); fflush(stdout); _exit(78); } }
int main(int argc, char** argv) {
  setvbuf(stdout, 0, _IOLBF, 0);
  in = argc > 1 ? fopen(argv[1], "r") : nullptr;
  atexit(at_exit);
  sym_main();
  done = true;
  printf("REPLAY-OK\n");
  fflush(stdout);
  _exit(0);
}
