// The console log: text from clients is data.
#include <sps_log.hpp>
#include <cstdarg>
#include <cstring>
#include <cstdio>
#include <ctime>
#include <string>
#include <unistd.h>
#include <sys/time.h>
#include <sym.hpp>
static char got[12000]; static size_t ngot;
#if __has_include(<vstream.h>)  // in the engine: the console is a buffer
static void put(const char* s, size_t n) { CHECK(ngot + n < sizeof got, "no endless output"); memcpy(got + ngot, s, n); ngot += n; }
extern "C" {
int fputs(const char* s, FILE*) { put(s, strlen(s)); return 0; }
int puts(const char* s) { put(s, strlen(s)); put("\n", 1); return 0; }
int putchar(int c) { char b = (char)c; put(&b, 1); return c; }
int fputc(int c, FILE*) { return putchar(c); }
size_t fwrite(const void* p, size_t a, size_t b, FILE*) { put((const char*)p, a * b); return b; }
ssize_t write(int, const void* p, size_t n) { put((const char*)p, n); return n; }
int fflush(FILE*) { return 0; }
int vprintf(const char* f, va_list ap) { static char b[10000]; int n = vsnprintf(b, sizeof b, f, ap); put(b, n < (int)sizeof b ? n : sizeof b - 1); return n; }
int printf(const char* f, ...) { va_list ap; va_start(ap, f); int r = vprintf(f, ap); va_end(ap); return r; }
int vfprintf(FILE*, const char* f, va_list ap) { return vprintf(f, ap); }
int fprintf(FILE*, const char* f, ...) { va_list ap; va_start(ap, f); int r = vprintf(f, ap); va_end(ap); return r; }
int gettimeofday(struct timeval* tv, void*) { tv->tv_sec = 1600000000; tv->tv_usec = 7000; return 0; }
struct tm* localtime_r(const time_t*, struct tm* t) { memset(t, 0, sizeof *t); t->tm_year = 120; t->tm_mon = 8; t->tm_mday = 13; t->tm_hour = 12; t->tm_min = 26; t->tm_sec = 40; return t; }
}
static void begin() { ngot = 0; }
static void end() {}
#else                           // native: stdout is a file for the moment
#include <sys/mman.h>
static int keep, tmp;
static void begin() { fflush(stdout); keep = dup(1); tmp = memfd_create("log", 0); dup2(tmp, 1); }
static void end() { fflush(stdout); dup2(keep, 1); close(keep); lseek(tmp, 0, SEEK_SET); ngot = read(tmp, got, sizeof got - 1); close(tmp); }
#endif
extern "C" void sym_main() {
  static sps::ConsoleLog l;
#if MODE == 0
  unsigned n = sym_choose(0, LEN, "n"); char t[LEN + 1];
  sym_make(t, n, "text"); t[n] = 0;
  for (unsigned i = 0; i < n; i++) sym_assume(t[i] != 0);
  unsigned twice = sym_choose(0, 1, "twice");
  begin();
  if (twice) l.printf(sps::ERROR, "a longer line before %s\r\n", "%d");
  size_t at = twice;
  l.printf(sps::INFO, "[%s:%d] got %s|%.*s %lu\r\n", "f.cpp", 12, t, 2, "xyz", 77ul);
  end();
  std::string all(got, ngot), want = "[f.cpp:12] got " + std::string(t, n) + "|xy 77\r\n";
  if (twice) { size_t e = all.find("before %d\r\n"); CHECK(e != std::string::npos, "first line"); all = all.substr(e + 11); }
  CHECK(all.size() == want.size() + 26 && all[0] == '[' && all[24] == ']', "one line with its time");
  CHECK(all.substr(all.size() - want.size()) == want, "the text is logged as it is");
  sym_reach("line");
#else  // long lines
  static const unsigned L[] = {4000, 4068, 4069, 4070, 4096, 6000};
  unsigned n = L[sym_choose(0, 5, "n")]; std::string t(n, 'a'); t[n - 1] = sym_choose(0, 1, "last") ? '%' : 'z';
  begin(); l.printf(sps::INFO, "%s", t.c_str()); end();
  CHECK(ngot <= 4096 && ngot >= 26, "a line is cut at the buffer");
  CHECK(!memcmp(got + 26, t.data(), ngot - 26), "its text is the beginning of what was logged");
  CHECK(ngot - 26 == n || ngot >= 4090, "and it is only cut when it must be");
  sym_reach("long");
#endif
}
