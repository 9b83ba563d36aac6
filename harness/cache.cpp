// Stream caches: what a late joiner gets, and live fan-out.
#include <sps_avformat_cache.hpp>
#include <sps_stream_cache.hpp>
#include <sps_avformat_ts.hpp>
#include <sps_avformat_tsdec.hpp>
#include <sym.hpp>
#include <cstring>
using namespace sps;
enum { HDRA, HDRV, SCRIPT, KEY, OTHER };
#define STEPS_MAX 8
struct Ref { int id[16]; int n = 0; void add(int i) { if (i >= 0) id[n++] = i; } };
// the reference: latest metadata and codec headers, then everything since the last key frame
struct Gop {
  int script = -1, a = -1, v = -1; Ref gop;
  void put(int kind, int id) {
    if (kind == HDRA) a = id; else if (kind == HDRV) v = id; else if (kind == SCRIPT) script = id;
    else if (kind == KEY) { gop.n = 0; gop.add(id); } else if (gop.n) gop.add(id);
  }
  Ref join() { Ref r; r.add(script); r.add(a); r.add(v); for (int i = 0; i < gop.n; i++) r.add(gop.id[i]); return r; }
};
static uint8_t payload[STEPS_MAX + 4][2];
static PAVPacket mk(int id, AVStreamType st, int pt, int flags) {
  payload[id][0] = id * 3; payload[id][1] = sym_u8("payload");
  return AVPacket::create(AV_MESSAGE_DATA, st, AVPacketType{pt}, payload[id], 2, 1000 + id, 2000 + id, flags, 7);
}
static int any_packet(int id, PAVPacket& p) {  // returns the kind, from the packet's own fields
  unsigned st = sym_choose(0, 2, "stream");
  uint8_t pt = sym_u8("pkttype"), fl = sym_u8("flags");
  p = mk(id, (AVStreamType)st, pt, fl);
  if (st == AV_STREAM_TYPE_SUBTITLE) return SCRIPT;
  if (pt == 0) return st == AV_STREAM_TYPE_AUDIO ? HDRA : HDRV;
  if (st == AV_STREAM_TYPE_VIDEO && fl >> 4 == 1) return KEY;
  return OTHER;
}
static void same(std::list<PAVPacket>& l, const Ref& r, const char* what) {
  CHECK((int)l.size() == r.n, what);
  int i = 0;
  for (auto& p : l) {
    CHECK(p && p->dts == 1000 + r.id[i] && p->pts == 2000 + r.id[i], what);
    CHECK(p->size() == 2 && !memcmp(p->buffer(), payload[r.id[i]], 2), "packets reach viewers unmodified");
    i++;
  }
}
#if MODE == 1
struct Client { PAVDumpCacheStream c; Ref q; bool listening = false; };
static Client cl[3];
static ICacheStream<PAVPacket>::PICacheStream src;
static Gop ref;
static int nid, wait_puts;
static void put_one(int kind) {
  int id = nid++;
  PAVPacket p = kind == 0 ? mk(id, AV_STREAM_TYPE_VIDEO, 1, 0x17) : kind == 1 ? mk(id, AV_STREAM_TYPE_AUDIO, 1, 0xaf) : mk(id, AV_STREAM_TYPE_VIDEO, 0, 0x17);
  CHECK(src->put(p) == SUCCESS, "put accepted");
  ref.put(kind == 0 ? KEY : kind == 1 ? OTHER : HDRV, id);
  for (auto& c : cl) if (c.listening) c.q.add(id);
}
extern "C" void env_on_wait(void*) { for (; wait_puts > 0; wait_puts--) put_one(1); }
#endif
extern "C" void sym_main() {
#if MODE == 0
  AVGopCacheStream g;
  Gop ref;
  for (int i = 0; i < STEPS; i++) {
    PAVPacket p;
    if (sym_choose(0, 1, "null") == 0) { CHECK(g.put(p) == SUCCESS, "a missing packet is ignored"); continue; }
    int kind = any_packet(i, p);
    CHECK(g.put(p) == SUCCESS, "put accepted");
    ref.put(kind, i);
  }
  std::list<PAVPacket> l;
  bool rm = sym_choose(0, 1, "remove");
  g.dump(l, rm);
  same(l, ref.join(), "a late joiner gets metadata, audio header, video header, then the current group of pictures");
  if (l.size() >= 3) sym_reach("joined");
  std::list<PAVPacket> l2;
  g.dump(l2, false);
  same(l2, ref.join(), "joining does not consume the cache");
#elif MODE == 1
  src = StreamCache::create_av_streamcache("h/live/a");
  CHECK(StreamCache::get_streamcache("h/live/a") == src && !StreamCache::get_streamcache("h/live/b"), "the stream is found under its own name only");
  CHECK(!StreamCache::get_client_streamcache("h/live/b", 1), "no client for an absent stream");
  put_one(0);
  for (int i = 0; i < STEPS; i++) {
    unsigned op = sym_choose(0, 5, "op");
    if (op == 0) put_one(sym_choose(0, 2, "kind"));
    else {
      Client& c = cl[sym_choose(0, CLIENTS - 1, "client")];
      if (op == 1) {  // join
        if (c.c) sym_assume(0);
        c.c = StreamCache::get_client_streamcache("h/live/a", 1000);
        CHECK(c.c != nullptr, "client created");
        c.q = ref.join(); c.listening = true;
      } else if (!c.c) sym_assume(0);
      else if (op == 2) { if (!c.listening) sym_assume(0); src->cancel(c.c); c.listening = false; sym_reach("cancelled"); }
      else if (op == 3) { c.c.reset(); c.listening = false; sym_reach("gone"); }  // the viewer vanishes
      else if (op == 4) { if (!c.listening) sym_assume(0); src->sub(c.c); }      // subscribing again changes nothing
      else {
        bool idle = c.q.n == 0;
        wait_puts = idle ? sym_choose(0, 1, "arrives") : 0;
        std::list<PAVPacket> l;
        int n = c.c->dump(l, sym_choose(0, 1, "remove"));
        CHECK(n == (int)l.size(), "the count matches what is delivered");
        same(l, c.q, "each viewer gets its join snapshot then every later packet, once, in order");
        if (idle && n) sym_reach("woken");
        if (!idle) sym_reach("delivered");
        c.q.n = 0; wait_puts = 0;
      }
    }
  }
  for (int k = 0; k < CLIENTS; k++) if (cl[k].c && cl[k].q.n) {
    std::list<PAVPacket> l;
    cl[k].c->dump(l, false);
    same(l, cl[k].q, "each viewer gets its join snapshot then every later packet, once, in order");
  }
  StreamCache::release_av_streamcache("h/live/a");
  CHECK(!StreamCache::get_streamcache("h/live/a") && !StreamCache::get_client_streamcache("h/live/a", 1), "a released stream is no longer found");
#elif MODE == 2  // raw MPEG-TS cache
  auto g = StreamCache::create_raw_streamcache("ts://a");
  TsCache tc(g);
  int pat = -1, pmt = -1; Ref body, live;
  PAVDumpCacheStream c = StreamCache::get_client_streamcache("ts://a", 1);
  for (int i = 0; i < STEPS; i++) {
    unsigned k = sym_choose(0, 3, "kind");
    payload[i][0] = i; payload[i][1] = sym_u8("payload");
    int pusi = k < 2 ? sym_choose(0, 1, "pusi") : k == 2;
    CHECK(tc.on_packet(payload[i], 2, k == 0 ? TS_PROGRAM_PAT : k == 1 ? TS_PROGRAM_PMT : TS_PROGRAM_PES, pusi) == SUCCESS, "put accepted");
    if (k == 0) pat = i; else if (k == 1) pmt = i; else { if (k == 2) body.n = 0; body.add(i); }
    live.add(i);
  }
  Ref want; want.add(pat); want.add(pmt); for (int i = 0; i < body.n; i++) want.add(body.id[i]);
  std::list<PAVPacket> l, m;
  g->dump(l, false);
  CHECK((int)l.size() == want.n, "a late joiner gets PAT, PMT and the packets since the last unit start");
  int i = 0;
  for (auto& p : l) CHECK(p->size() == 2 && !memcmp(p->buffer(), payload[want.id[i++]], 2), "a late joiner gets PAT, PMT and the packets since the last unit start");
  c->dump(m, false);
  CHECK((int)m.size() == live.n, "a live viewer gets every packet");
  i = 0;
  for (auto& p : m) CHECK(p->size() == 2 && !memcmp(p->buffer(), payload[live.id[i++]], 2), "a live viewer gets every packet in order");
  sym_reach("end");
#elif MODE == 6  // a long unit in the raw cache
  static const unsigned LEN[] = {0, 63, 300, 5000};
  auto g = StreamCache::create_raw_streamcache("ts://a"); TsCache tc(g);
  PAVDumpCacheStream c = StreamCache::get_client_streamcache("ts://a", 1);
  static uint8_t pk[11000][4]; int n = 0, pat = -1, pmt = -1, start = -1; uint8_t m = sym_u8("payload");
  auto send = [&](TsProgramType type, int pusi) { pk[n][0] = n; pk[n][1] = n >> 8; pk[n][2] = m; CHECK(tc.on_packet(pk[n], 3, type, pusi) == SUCCESS, "put accepted"); return n++; };
  pat = send(TS_PROGRAM_PAT, 1); pmt = send(TS_PROGRAM_PMT, 1);
  for (int seg = 0; seg < 2; seg++) {
    unsigned run = LEN[sym_choose(0, 3, "run")], what = seg ? sym_choose(0, 3, "what") : 3;
    if (what == 0) pat = send(TS_PROGRAM_PAT, 1); else if (what == 1) pmt = send(TS_PROGRAM_PMT, 1); else if (what == 3) start = send(TS_PROGRAM_PES, 1);
    for (unsigned i = 0; i < run; i++) send(TS_PROGRAM_PES, 0);
  }
  std::list<PAVPacket> l, d; g->dump(l, false); c->dump(d, false);
  auto is = [&](const PAVPacket& p, int i) { CHECK(p && p->size() == 3 && !memcmp(p->buffer(), pk[i], 3), "each packet, however many"); };
  // packets of the unit: everything since its start that is no table
  auto it = l.begin(); for (int i : {pat, pmt}) { CHECK(it != l.end(), "the tables first"); if (it == l.end()) return; is(*it++, i); }
  size_t want = 0; for (int i = start; i < n; i++) { if (i == pat || i == pmt) continue; want++; if (it == l.end()) { CHECK(false, "the whole unit, however long"); return; } is(*it++, i); }
  CHECK(it == l.end() && l.size() == want + 2, "nothing else");
  CHECK((int)d.size() == n, "a live viewer that did not read for long gets every packet"); int i = 0; for (auto& p : d) is(p, i++);
  if (n > 9000) sym_reach("long");
#elif MODE == 7  // large buffers
  static const unsigned LEN[] = {255, 256, 4095, 4096, 65535, 65536, 70001}, HD[] = {0, 16, 188, 256, 1024};
  static uint8_t in[70001]; for (unsigned i = 0; i < sizeof in; i++) in[i] = i * 3 + (i >> 8);
  unsigned n = LEN[sym_choose(0, 6, "n")], head = HD[sym_choose(0, 4, "head")], first = LEN[sym_choose(0, 6, "first")]; if (first > n) first = n;
  in[0] = sym_u8("a"); in[n - 1] = sym_u8("b"); in[first - 1] = sym_u8("c");
  CharBuffer a(in, n, head);
  CHECK(a.size() == n && a.head_size() == head && !memcmp(a.buffer(), in, n), "a copy holds the bytes, however many");
  memset(a.head_pos(), 0xee, head); CHECK(!memcmp(a.buffer(), in, n), "the reserved head does not overlap the bytes");
  CharBuffer b(n, head);
  CHECK(b.remain() == n && b.size() == 0, "remaining room");
  b.append(in, first); CHECK(b.remain() == n - first && b.size() == first && !memcmp(b.buffer(), in, first), "appended bytes");
  if (sym_choose(0, 1, "how")) b.append(in + first, n - first); else { memcpy(b.pos(), in + first, n - first); b.skip(n - first); }
  memset(b.head_pos(), 0xee, head);
  CHECK(b.remain() == 0 && b.size() == n && !memcmp(b.buffer(), in, n), "follow one another");
  auto p = AVPacket::create(AV_MESSAGE_DATA, AV_STREAM_TYPE_VIDEO, AVPacketType{1}, in, n, 1, 2, 0x17, 7);
  CHECK(p && p->size() == n && !memcmp(p->buffer(), in, n), "a packet holds its bytes");
  sym_reach("end");
#elif MODE == 3  // packet buffers
  uint8_t src[6]; sym_make(src, 6, "src");
  unsigned n = sym_choose(0, 3, "n"), head = sym_choose(0, 2, "head"), cap = sym_choose(0, 4, "cap");
  CharBuffer a(src, n, head);
  CHECK(a.size() == n && a.head_size() == head, "size");
  CHECK(n == 0 || !memcmp(a.buffer(), src, n), "a copy holds the bytes");
  for (unsigned i = 0; i < head; i++) a.head_pos()[i] = 0xee;
  CHECK(n == 0 || !memcmp(a.buffer(), src, n), "the reserved head does not overlap the bytes");
  CharBuffer b(cap, head);
  unsigned at = 0;
  uint8_t want[8];
  for (int i = 0; i < 3; i++) {
    unsigned k = sym_choose(0, 2, "k");
    if (at + k > cap) k = cap - at;
    CHECK(b.remain() == cap - at && b.size() == at, "remaining room");
    if (sym_choose(0, 1, "how")) { b.append(src + i, k); }
    else { memcpy(b.pos(), src + i, k); b.skip(k); }
    memcpy(want + at, src + i, k);
    at += k;
    CHECK(b.size() == at && !memcmp(b.buffer(), want, at), "appended bytes follow one another");
  }
  for (unsigned i = 0; i < head; i++) b.head_pos()[i] = 0xee;
  CHECK(!memcmp(b.buffer(), want, at), "the reserved head does not overlap the bytes");
  sym_reach("end");
#elif MODE == 8 || MODE == 9  // many streams, or many viewers of one
  auto pkt = [](uint8_t a, uint8_t b) { uint8_t d[2] = {a, b}; return AVPacket::create(AV_MESSAGE_DATA, AV_STREAM_TYPE_VIDEO, AVPacketType{1}, d, 2, a, a, 0x27, 7); };
  uint8_t x = sym_u8("payload"); unsigned gone = sym_choose(0, 3, "gone"), third = sym_choose(0, 2, "which");
#if MODE == 8
  enum { N = 150 }; std::vector<std::string> key; std::vector<PAVDumpCacheStream> view;
  for (int i = 0; i < N; i++) { std::string k = i % 3 == 0 ? "h/live/" : i % 3 == 1 ? "h.example.com/a.b/" : "ts://h/live/"; k += i % 4 == 3 ? std::string(300, 'x') : std::string("s"); key.push_back(k + std::to_string(i)); }
  for (int i = 0; i < N; i++) { CHECK(!StreamCache::get_streamcache(key[i]), "no stream before its publisher"); StreamCache::create_av_streamcache(key[i]); }
  for (int i = 0; i < N; i++) { view.push_back(StreamCache::get_client_streamcache(key[i], 1000)); CHECK(view[i] != nullptr, "every stream can be played"); if (!view[i]) return; }
  if (gone) for (int i = third; i < N; i += gone + 1) StreamCache::release_av_streamcache(key[i]);
  auto left = [&](int i) { return gone && i >= (int)third && (i - third) % (gone + 1) == 0; };
  for (int i = 0; i < N; i++) {
    auto s = StreamCache::get_streamcache(key[i]);
    CHECK(!!s == !left(i), "a stream exists exactly while its publisher feeds it");
    if (s) { auto p = pkt((uint8_t)i, x); CHECK(s->put(p) == SUCCESS, "fed"); }
  }
  for (int i = 0; i < N; i++) {
    std::list<PAVPacket> l; view[i]->dump(l, false); size_t want = left(i) ? 0 : 1;
    CHECK(l.size() == want, "a viewer gets the packets of its own stream only"); if (l.size() == 1 && want) CHECK(l.front()->buffer()[0] == i && l.front()->buffer()[1] == x, "from its publisher");
  }
#else
  enum { N = 300 }; auto src = StreamCache::create_av_streamcache("h/live/a"); std::vector<PAVDumpCacheStream> view;
  for (int i = 0; i < N; i++) view.push_back(StreamCache::get_client_streamcache("h/live/a", 1000));
  auto left = [&](int i) { return gone && i >= (int)third && (i - third) % (gone + 1) == 0; };
  { auto p = pkt(0, x); CHECK(src->put(p) == SUCCESS, "fed"); }
  for (int i = 0; i < N; i++) if (left(i)) view[i].reset();   // these vanish without a word
  for (int k = 1; k < 4; k++) { auto p = pkt((uint8_t)k, x); CHECK(src->put(p) == SUCCESS, "fed"); }
  for (int i = N - 1; i >= 0; i--) {
    if (left(i)) continue;
    std::list<PAVPacket> l; view[i]->dump(l, false); int k = 0;
    CHECK(l.size() == 4, "every viewer gets every packet once"); for (auto& q : l) { CHECK(q->buffer()[0] == k && q->buffer()[1] == x, "in order"); k++; }
  }
#endif
  sym_reach("many");
#elif MODE == 4 || MODE == 5  // long groups and long queues
  // history: a group's key frame, a run of packets, one packet of any kind, a second run
  static const unsigned LEN[] = {0, 300, 5000};
  auto src = StreamCache::create_av_streamcache("h/live/a");
  PAVDumpCacheStream early = StreamCache::get_client_streamcache("h/live/a", 1000);
  CHECK(early != nullptr, "client created");
  static int kinds[11000]; static uint8_t mark[11000]; int n = 0, last = -1, hv = -1, ha = -1, sc = -1;
  uint8_t m0 = sym_u8("payload");
  for (int seg = 0; seg < 4; seg++) {
    unsigned run = seg == 0 ? 1 : seg == 2 ? 1 : LEN[sym_choose(0, 2, "run")];
    unsigned k = seg == 0 ? KEY : seg == 2 ? sym_choose(HDRA, OTHER, "kind") : OTHER;
    for (unsigned i = 0; i < run; i++) {
      uint8_t b[2] = {(uint8_t)n, (uint8_t)(m0 + (n >> 8))};
      bool video = k == HDRV || k == KEY || (k == OTHER && n % 3 == 0);
      auto p = AVPacket::create(AV_MESSAGE_DATA, k == SCRIPT ? AV_STREAM_TYPE_SUBTITLE : video ? AV_STREAM_TYPE_VIDEO : AV_STREAM_TYPE_AUDIO,
                                AVPacketType{k == HDRA || k == HDRV ? 0 : 1}, b, 2, 1000 + n, 1000 + n, k == KEY || k == HDRV ? 0x17 : video ? 0x27 : 0xaf, 7);
      CHECK(src->put(p) == SUCCESS, "put accepted");
      kinds[n] = k; mark[n] = b[1];
      if (k == KEY) last = n; else if (k == HDRV) hv = n; else if (k == HDRA) ha = n; else if (k == SCRIPT) sc = n;
      n++;
    }
  }
  auto is = [&](const PAVPacket& p, int id) { CHECK(p && p->dts == 1000 + id && p->size() == 2 && p->buffer()[0] == (uint8_t)id && p->buffer()[1] == mark[id], "every packet, once, in order and unmodified"); };
  std::list<PAVPacket> l;
#if MODE == 4
  src->dump(l, false);
  auto it = l.begin(); size_t want = 0;
  for (int h : {sc, ha, hv}) if (h >= 0) { want++; CHECK(it != l.end(), "headers first"); is(*it++, h); }
  for (int i = last; i < n; i++) if (kinds[i] == KEY || kinds[i] == OTHER) { want++; if (it == l.end()) { CHECK(false, "the whole group, however long"); return; } is(*it++, i); }
  CHECK(l.size() == want, "nothing else");
#else
  CHECK(early->dump(l, false) == (int)l.size() && (int)l.size() == n, "a viewer that did not read for long still gets every packet");
  int i = 0;
  for (auto& p : l) is(p, i++);
#endif
  if (n > 9000) sym_reach("long");
#endif
}
