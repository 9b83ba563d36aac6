// Files: what is in the file is what is read, what is written is what the file holds.
#include <cstring>
#include <string>
#include <sps_io_url_file.hpp>
#include <sps_io_url.hpp>
#include "sym.hpp"
using namespace sps;
extern "C" void sym_main() {
  static const char* NAME = "verif.conf";
#if MODE == 0  // reading
  uint8_t d[N + 1]; unsigned n = sym_choose(0, N, "size"); sym_make(d, N, "data");
  sym_file_put(NAME, d, n);
  PIURLProtocol f = SingleInstance<UrlProtocol>::get_instance().create("file://verif.conf");
  CHECK(!f, "no protocol before it is registered");
  SingleInstance<UrlProtocol>::get_instance().reg(std::make_shared<FileURLProtocolFactory>());
  f = SingleInstance<UrlProtocol>::get_instance().create("file://verif.conf");
  CHECK(f != nullptr, "files are known");
  if (!f) return;
  if (sym_choose(0, 1, "how")) { auto u = std::make_shared<RequestUrl>(); CHECK(u->parse_url("file://verif.conf") == SUCCESS, "url"); PRequestUrl p = u; CHECK(f->open(p, sps::FILE) == SUCCESS, "opens"); }
  else CHECK(f->open("verif.conf") == SUCCESS, "opens");
  unsigned at = 0; int lines = 0;
  for (int op = 0; op < OPS; op++) {
    unsigned kind = sym_choose(0, 2, "kind");
    if (kind == 0) {
      unsigned k = sym_choose(1, N, "want"); uint8_t b[N + 2]; memset(b, 0x55, sizeof b); size_t got = 0;
      error_t e = f->read(b, k, got);
      if (at == n) { CHECK(e == ERROR_IO_EOF, "the end is told"); sym_reach("end"); return; }
      CHECK(e == SUCCESS && got >= 1 && got <= k && got <= n - at, "some bytes come");
      if (e != SUCCESS || got > n - at) return;
      for (unsigned i = 0; i < got; i++) CHECK(b[i] == d[at + i], "the file's bytes");
      CHECK(b[k] == 0x55, "nothing behind the buffer");
      at += got; sym_reach("read");
      if (got < k && at == n) { CHECK(f->read(b, k, got) == ERROR_IO_EOF, "then it has ended"); return; }
    } else if (kind == 1) {
      unsigned k = sym_choose(1, N, "want"); uint8_t b[N + 2]; memset(b, 0x55, sizeof b); ssize_t got = -5; bool ask = sym_choose(0, 1, "ask");
      error_t e = f->read_fully(b, k, ask ? &got : nullptr);
      unsigned have = n - at < k ? n - at : k;
      if (ask) CHECK(got == (ssize_t)have, "told how much came");
      for (unsigned i = 0; i < have; i++) CHECK(b[i] == d[at + i], "the file's bytes");
      CHECK(b[have] == 0x55, "no more than there is");
      if (have < k) { CHECK(e != SUCCESS, "a full read is full"); sym_reach("short"); return; }
      CHECK(e == SUCCESS, "a full read succeeds"); at += k; sym_reach("full");
    } else {
      std::string l = "x"; error_t e = f->read_line(l);
      if (at == n) { CHECK(e == ERROR_IO_EOF, "no line after the end"); sym_reach("end"); return; }
      CHECK(e == SUCCESS, "a line");
      if (e != SUCCESS) return;
      unsigned k = 0; bool nl = false;
      for (; at + k < n; k++) if (d[at + k] == '\n') { nl = true; break; }
      CHECK(l.size() == k, "up to the line's end");
      for (unsigned i = 0; i < k && i < l.size(); i++) CHECK((uint8_t)l[i] == d[at + i], "the line's text");
      at += k + nl; CHECK(f->cur_line_num() == ++lines, "lines are counted"); sym_reach("line");
    }
  }
#elif MODE == 2  // large files, long lines
  static const unsigned SIZE[] = {1000, 4096, 8191, 8192, 8193, 20000, 70000}, LINE[] = {1, 79, 255, 256, 1023, 1024, 4096, 9000}, STEP[] = {1, 1000, 4096, 65536};
  static uint8_t d[70000], b[70000]; unsigned n = SIZE[sym_choose(0, 6, "size")], how = sym_choose(0, 2, "how"), step = how == 2 ? LINE[sym_choose(0, 7, "line")] : STEP[sym_choose(how ? 1 : 0, 3, "step")];
  if (how == 0 && step == 1 && n > 9000) return;
  if (how == 2 && n / step > 1100) return;
  for (unsigned i = 0; i < n; i++) d[i] = how == 2 ? (i % step == step - 1 ? '\n' : 'a' + i % 26) : (i * 5 + (i >> 8));
  uint8_t c0 = sym_u8("c"); if (how == 2) sym_assume(c0 != '\n'); if (how != 2 || (n - 1) % step != step - 1) d[n - 1] = c0;
  sym_file_put(NAME, d, n);
  FileURLProtocol f(false, false); CHECK(f.open(NAME) == SUCCESS, "opens");
  size_t at = 0; int lines = 0;
  for (;;) {
    if (how == 0) { size_t got = 0; error_t e = f.read(b, step, got); if (e != SUCCESS) { CHECK(e == ERROR_IO_EOF && at == n, "the end is told at the end"); break; } CHECK(got >= 1 && got <= step && got <= n - at, "some bytes come"); if (got > n - at) return; CHECK(!memcmp(b, d + at, got), "the file's bytes"); at += got; }
    else if (how == 1) { ssize_t got = -1; error_t e = f.read_fully(b, step, &got); size_t have = n - at < step ? n - at : step; CHECK(got == (ssize_t)have && (e == SUCCESS) == (have == step), "a full read is full"); CHECK(!memcmp(b, d + at, have), "the file's bytes"); at += have; if (e != SUCCESS) break; if (at == n) break; }
    else { std::string l; error_t e = f.read_line(l); if (e != SUCCESS) { CHECK(e == ERROR_IO_EOF && at == n, "no line after the end"); break; } size_t k = 0; while (at + k < n && d[at + k] != '\n') k++; CHECK(l.size() == k && !memcmp(l.data(), d + at, k), "the line, however long"); at += k + (at + k < n); CHECK(f.cur_line_num() == ++lines, "lines are counted"); if (at > n) return; }
  }
  CHECK(at == n, "all of it"); sym_reach(how == 0 ? "read" : how == 1 ? "full" : "line");
#else  // opening and writing
  uint8_t d[3], w[4]; sym_make(d, 3, "data"); sym_make(w, 4, "written");
  bool exists = sym_choose(0, 1, "exists"), trunc = sym_choose(0, 1, "trunc"), app = sym_choose(0, 1, "append");
  if (trunc && app) return;
  unsigned n = sym_choose(0, 3, "size");
  if (exists) sym_file_put(NAME, d, n); else sym_file_none(NAME);
  std::string want = exists && !trunc ? std::string((char*)d, n) : "";
  {
    FileURLProtocol f(trunc, app);
    error_t e = f.open(NAME);
    if (!exists && !trunc && !app) {
      uint8_t b[2]; size_t got = 0;
      CHECK(e != SUCCESS, "a missing file is an error"); CHECK(sym_file_get(NAME, b, 2) == -1, "and is not made"); CHECK(f.read(b, 1, got) != SUCCESS, "nothing to read"); sym_reach("missing"); return;
    }
    CHECK(e == SUCCESS, "opens");
    if (sym_choose(0, 1, "past")) {  // once the end was met nothing can be written
      std::string l; while (f.read_line(l) == SUCCESS) {}
      CHECK(f.write(w, 1) != SUCCESS, "a write that did not happen is an error"); sym_reach("past"); return;
    }
    unsigned a = sym_choose(1, 3, "first");
    CHECK(f.write(w, a) == SUCCESS, "written");
    bool two = sym_choose(0, 1, "two");
    if (two) CHECK(f.write(w + a, 4 - a) == SUCCESS, "written");
    unsigned k = two ? 4 : a;
    if (app) want += std::string((char*)w, k);
    else { if (want.size() < k) want.resize(k); for (unsigned i = 0; i < k; i++) want[i] = (char)w[i]; }
    if (sym_choose(0, 1, "close")) f.close();
  }
  uint8_t b[16]; long m = sym_file_get(NAME, b, 16);
  CHECK(m == (long)want.size(), "the file's size");
  for (unsigned i = 0; i < want.size() && i < 16; i++) CHECK(b[i] == (uint8_t)want[i], "the file's bytes");
  sym_reach("written");
#endif
}
