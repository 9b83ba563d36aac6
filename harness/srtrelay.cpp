// SRT connections: publishers of transport streams, and viewers of them.
#include <sps_srt_server_handler.hpp>
#include <sps_srt_stream_handler.hpp>
#include <sps_srt_server.hpp>
#include <sps_stream_cache.hpp>
#include <cstring>
#include "srtnet.hpp"
#include "ts.hpp"
using namespace sps;
struct Conn { SSock s; int fd; bool pub, done = false; int who; error_t ret = SUCCESS; std::vector<std::string> r; size_t nals = 0; };
static Conn conn[4]; static int live;           // publishers being served
static const char* IDS[] = {"#!::h=h/live/a,m=publish", "#!::m=publish,h=h/live/a", "#!::h=h/live/b,m=publish", "#!::h=h/live/a,m=request"};
static std::string video(int who, int i, int& cc, std::vector<std::string>& r) {  // one unit in two packets
  std::string nal(200, '\x2a'); nal[0] = (char)(i == 0 ? 0x65 : 0x41); nal[1] = (char)(0x10 + who); nal[2] = (char)(0x20 + i);
  std::string pes = ts_pes(0xe0, 2, 90 * (i + 1), 0, 0, false, std::string("\0\0\0\1", 4) + nal);
  std::string a = ts_packet(VPID, true, cc++, pes.substr(0, 184)), b = ts_packet(VPID, false, cc++, pes.substr(184));
  r.push_back(a); r.push_back(b);
  return a + b;
}
static void script(Conn& c) {
  int cc = 0;
  std::string pat = ts_psi(0, 0, ts_section(0, 1, ts_w16(1) + ts_w16(0xe000 | MPID))), pmt = ts_psi(MPID, 0, ts_section(2, 1, ts_w16(0xe000 | VPID) + ts_w16(0xf000) + ts_es(0x1b, VPID))), null = ts_packet(0x1fff, false, 0, std::string(184, '\x55'));
  c.r.push_back(pat); c.r.push_back(pmt);
  std::string m = pat + null + pmt;
  for (int i = 0; i < UNITS; i++) { m += video(c.who, i, cc, c.r); c.s.in.push_back(m); m.clear(); }
  c.s.in.push_back(m = ts_packet(VPID, true, cc, ts_pes(0xe0, 2, 9000, 0, 0, false, "x"))); c.r.push_back(m);
}
static void* serve(void* p) {
  Conn& c = *(Conn*)p;
  auto sock = std::make_shared<Socket>(std::make_shared<StSrtSocket>(c.fd), "10.0.0.9", 9);
  IConnection k(sock);
  SrtPrepareHandler a; SrtServerStreamHandler b;
  CHECK(a.handler(k) == SUCCESS, "stream id");
  c.ret = b.handler(k);
  CHECK(c.ret != SUCCESS, "it ends with a reason");
  c.done = true;
  return nullptr;
}
static size_t frames; static int fwho; static bool fseen, fbad;
static void* watch(void*) {  // a viewer of the decoded stream, as the HTTP side has
  auto cl = StreamCache::get_client_streamcache("h/live/a", 10);
  if (!cl) return nullptr;
  auto src = StreamCache::get_streamcache("h/live/a");
  for (;;) {
    std::list<PAVPacket> l; if (!cl->dump(l, false)) break;
    for (auto& q : l) {
      if (q->size() < 7) { fbad = true; continue; }
      int who = q->buffer()[5] - 0x10; size_t i = q->buffer()[6] - 0x20;
      if (fseen && (who != fwho || i != frames)) fbad = true;
      fseen = true; fwho = who; frames = i + 1;
    }
  }
  src->cancel(cl);
  return nullptr;
}
// the packets a viewer gets that joins after j relayed ones
static std::string after(const Conn& c, size_t j) {
  std::string pat, pmt, body, rest;
  for (size_t i = 0; i < c.r.size(); i++) {
    if (i >= j) { rest += c.r[i]; continue; }
    if (i == 0) pat = c.r[0]; else if (i == 1) pmt = c.r[1]; else { if (c.r[i][1] & 0x40) body.clear(); body += c.r[i]; }
  }
  return pat + pmt + body + rest;
}
extern "C" void sym_main() {
  co_switches = SWITCHES; co_forced = FORCED; co_sleepy = true;
  int other = sym_choose(0, 1, "other");  // the second publisher: the same name, or another one
  int n = 0;
  for (int i = 0; i < 3; i++) {
    Conn& c = conn[i]; c.fd = 70 + i; c.who = i; c.pub = i < 2; c.s.end = i == 0 ? sym_choose(0, 1, "end") : i == 1 ? 0 : 2; c.s.id = IDS[i == 0 ? 0 : i == 1 ? 1 + other : 3];
    if (i == 2 && conn[0].s.end == 1) { c.s.room = 2 + other; c.s.sendend = 2; }
    s_socks[c.fd] = &c.s; if (c.pub) script(c); n++;
  }
  int room = conn[2].s.room;
  for (int i = 0; i < 3; i++) co_spawn(serve, &conn[i]);
  co_spawn(watch, nullptr);
  co_join();
  for (int i = 0; i < 3; i++) CHECK(conn[i].done && !conn[i].s.open, "every connection ends and is closed");
  Conn &a = conn[0], &b = conn[1], &v = conn[2];
  bool pa = a.s.at == a.s.in.size(), pb = b.s.at == b.s.in.size();
  CHECK((pa || a.s.at == 0) && (pb || b.s.at == 0), "a publisher is read to its end, or refused before");
  CHECK(pa || pb, "the first is accepted"); if (other) CHECK(pa && pb, "streams of other names do not matter");
  if (!(pa && pb)) sym_reach("twice");
  CHECK(!StreamCache::get_streamcache("h/live/a") && !StreamCache::get_streamcache("ts://h/live/a") && !StreamCache::get_streamcache("h/live/b") && !StreamCache::get_streamcache("ts://h/live/b"), "and the names are free again");
  std::string out; for (auto& m : v.s.out) out += m;
  if (out.empty()) sym_reach("absent");
  else {
    bool ok = false;
    for (int k = 0; k < 2; k++) if (k == 0 ? pa : pb && !other) for (size_t j = 0; j <= conn[k].r.size(); j++) {
      std::string w = after(conn[k], j);
      if (room >= 1000 ? out == w : out == w.substr(0, out.size()) && v.s.out.size() <= (size_t)room) ok = true;
    }
    CHECK(ok, "a viewer gets tables, the current unit and every later packet of one publisher, unmodified");
    sym_reach("viewer");
  }
  CHECK(!fbad, "the decoded units reach other viewers in order, of one publisher");
  if (fseen) { CHECK(frames == UNITS && (fwho == 0 || !other), "and completely"); sym_reach("decoded"); }
}
