// SRT stream ids.
#include <sps_srt_server_handler.hpp>
#include <sps_srt_server.hpp>
#include <sps_sys_st_io_srt.hpp>
#include <srtcore/udt.h>
#include "fakeio.hpp"
using namespace sps;
static std::string given; static int closes;
namespace srt { std::string getstreamid(SRTSOCKET u) { CHECK(u == 77, "the stream id of this connection"); return given; } }
extern "C" int srt_close(SRTSOCKET u) { CHECK(u == 77, "own socket"); closes++; return 0; }
static PRequestUrl parse(const std::string& id) {
  given = id; closes = 0;
  PRequestUrl r;
  {
    auto s = std::make_shared<Socket>(std::make_shared<StSrtSocket>(77), "10.0.0.9", 9);
    IConnection c(s);
    SrtPrepareHandler h;
    error_t e = h.handler(c);
    auto ctx = std::dynamic_pointer_cast<HostContext>(c.get_context());
    CHECK((e == SUCCESS) == !!ctx, "a connection gets its request exactly when its stream id is understood");
    if (ctx) r = ctx->req;
    CHECK(closes == 0, "open while it is served");
  }
  CHECK(closes == 1, "and closed when it is let go");
  return r;
}
static std::string text(unsigned n, const char* nm, bool host = false) { std::string s; for (unsigned i = 0; i < n; i++) { char c = (char)sym_range(0x21, 0x7e, nm); sym_assume(c != ',' && c != '=' && c != '/' && c != ':' && c != '?' && c != '#' && c != '.'); if (host) sym_assume(c == '-' || c == '_' || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9')); s += c; } return s; }
extern "C" void sym_main() {
#if MODE == 0
  std::string h = text(2, "host", true), a = text(1, "app"), n = text(sym_choose(1, 2, "nlen"), "name"), full = sym_choose(0, 1, "full") ? "srt://" : "";
  static const char* MODES[] = {"publish", "request", "", "bidirectional", "requests"};
  unsigned mode = sym_choose(0, 5, "mode"), order = sym_choose(0, 1, "order"), extra = sym_choose(0, 3, "extra");
  unsigned deep = sym_choose(0, 1, "deep");
  std::string path = "/" + a + (deep ? "/" + n : "");
  std::string hp = "h=" + full + h + path, mp = mode < 5 ? std::string("m=") + MODES[mode] : "";
  std::string x = extra == 1 ? "u=" + text(1, "u") : extra == 2 ? "hm=request" : extra == 3 ? "r=" : "";
  std::string body = order && !mp.empty() ? mp + "," + hp : hp + (mp.empty() ? "" : "," + mp);
  if (extra) body = order ? x + "," + body : body + "," + x;
  if (sym_choose(0, 1, "tail")) body += ",";
  PRequestUrl r = parse("#!::" + body);
  CHECK(!!r, "a stream id with a stream is understood");
  if (!r) return;
  CHECK(r->host == h && r->get_path() == path && r->schema == "srt", "it names its host and stream");
  CHECK(r->method == (mode == 1 ? "request" : "publish"), "and its mode: playing only when asked for, else publishing");
  sym_reach(mode == 1 ? "request" : "publish");
#elif MODE == 2  // long hosts and paths, many items
  static const unsigned LEN[] = {0, 15, 16, 31, 32, 63, 64, 127, 128, 255, 300};
  unsigned what = sym_choose(0, 2, "what"), len = LEN[sym_choose(0, 10, "len")], many = what == 2 ? sym_choose(0, 12, "many") : 0; bool play = sym_choose(0, 1, "play"), last = sym_choose(0, 1, "last"), full = sym_choose(0, 1, "full");
  std::string h = text(1, "host", true), path = "/" + text(1, "app");
  if (what == 0) h += std::string(len, 'h') + ".example-1";
  if (what == 1) { for (unsigned i = 0; i < len; i++) path += i % 7 == 3 ? "/" : i % 11 == 5 ? "." : "p"; path += "q"; }
  std::string items; for (unsigned i = 0; i < many; i++) items += "u" + std::to_string(i) + "=" + std::string(i * 3, 'x') + ",";
  std::string hp = std::string("h=") + (full ? "srt://" : "") + h + path, mp = play ? "m=request" : "m=publish";
  PRequestUrl r = parse("#!::" + items + (last ? mp + "," + hp : hp + "," + mp));
  CHECK(!!r, "a stream id with a stream is understood"); if (!r) return;
  CHECK(r->host == h && r->get_path() == path && r->schema == "srt", "it names its host and stream, however long");
  CHECK(r->method == (play ? "request" : "publish"), "and its mode");
  sym_reach(play ? "request" : "publish");
#else
  unsigned n = sym_choose(0, NBYTES, "n"); char b[NBYTES + 1]; sym_make(b, n, "b");
  std::string s = sym_choose(0, 1, "prefix") ? "#!::" + std::string(b, n) : std::string(b, n);
  PRequestUrl r = parse(s);
  if (r) { CHECK(r->method == "publish" || r->method == "request", "a mode"); }
  sym_reach(r ? "parsed" : "refused");
#endif
}
