// MPEG transport streams to packets.
#include <sps_avformat_tsdec.hpp>
#include <vector>
#include "fakeio.hpp"
#include "ts.hpp"
using namespace sps;
static std::string sym_str(unsigned n, const char* nm) { uint8_t b[16]; sym_make(b, n, nm); return std::string((char*)b, n); }
static uint64_t stamp33(const char* nm) { return sym_u64(nm) & 0x1ffffffffull; }
class Relay : public ITsPacketHandler {
 public:
  std::vector<std::string> pk; std::vector<int> type, start;
  error_t on_packet(uint8_t* b, size_t n, TsProgramType t, int s) override { pk.push_back(std::string((char*)b, n)); type.push_back(t); start.push_back(s); return SUCCESS; }
};
#if MODE <= 1
struct Unit { bool video; int flags; uint64_t pts, dts; std::string nal; std::vector<std::string> packets; };
static std::string aframe(const std::string& d) { size_t n = 7 + d.size(); std::string s("\xff\xf1\x50\x80\0\x1f\xfc", 7); s[3] |= (char)(n >> 11); s[4] = (char)(n >> 3); s[5] |= (char)((n & 7) << 5); return s + d; }
static int vcc, acc;
static Unit unit(int i) {
  Unit u; u.video = sym_choose(0, 1, "video");
  u.flags = MODE == 1 ? 3 : sym_choose(0, 2, "flags"); if (u.flags == 1) u.flags = 3;
  u.pts = MODE == 1 ? 9000 * i : stamp33("pts"); u.dts = MODE == 1 ? 9000 * i : stamp33("dts");
  bool sized = sym_choose(0, 1, "sized"); unsigned stuff = MODE == 1 ? 0 : FULL ? sym_choose(0, 1, "stuff") * 3 : sized ? 0 : 3;
  unsigned big = sym_choose(0, BIG, "big");
  std::string d = sym_str(2, "data"); if (u.video) sym_assume((d[0] != 0) & (d[1] != 0));
  size_t n = big == 0 ? 4 : big == 1 ? 200 : 400;
  u.nal = std::string(n, '\x2a'); u.nal[0] = (char)(i & 1 ? 0x41 : 0x65); u.nal[1] = d[0]; u.nal[n - 1] = d[1];
  std::string es = u.video ? std::string("\0\0\0\1\x9\xf0\0\0\1", 9) + u.nal : aframe(u.nal);
  std::string pes = ts_pes(u.video ? 0xe0 : 0xc0, u.flags, u.pts, u.dts, stuff, sized, es);
  int& cc = u.video ? vcc : acc; bool first = true;
  while (!pes.empty()) {
    size_t k = pes.size() < 184 ? pes.size() : 184;
    if (first && u.video) { if (k > 176) k = 176; }       // room for a clock reference
    u.packets.push_back(ts_packet(u.video ? VPID : APID, first, cc++, pes.substr(0, k), first && u.video ? std::string("\x10\1\2\3\4\x7e\5", 7) : std::string()));
    pes = pes.substr(k); first = false;
  }
  return u;
}
extern "C" void sym_main() {
  vcc = acc = 0;
  std::vector<std::string> psi, all; std::vector<Unit> us;
  unsigned ptr = sym_choose(0, 1, "pointer") * 2, nit = FULL ? sym_choose(0, 1, "nit") : ptr / 2, order = sym_choose(0, ORDERS, "order");
  std::string pat = (nit ? ts_w16(0) + ts_w16(0xe010) : std::string()) + ts_w16(1) + ts_w16(0xe000 | MPID);
  std::string pmt = ts_w16(0xe000 | VPID) + ts_w16(0xf000 | (int)(nit ? 3 : 0)) + (nit ? std::string("\5\1x", 3) : std::string()) + ts_es(0x1b, VPID) + ts_es(0x06, 0x103, "zz") + ts_es(0x0f, APID, nit ? std::string("\x0a\1q", 3) : std::string());
  psi.push_back(ts_psi(0, 0, ts_section(0, 1, pat), ptr));
  if (nit) { psi.push_back(ts_psi(0x10, 0, ts_section(0x40, 1, "\x1\x2\x3\x4\x5\x6\x7"))); psi.push_back(ts_psi(0x11, 0, ts_section(0x42, 1, std::string("\0\1\xff\0", 4)))); }
  psi.push_back(ts_psi(MPID, 0, ts_section(2, 1, pmt), ptr));
  for (int i = 0; i < UNITS; i++) us.push_back(unit(i));
  std::vector<int> owner;  // which unit a packet belongs to
  for (auto& p : psi) { all.push_back(p); owner.push_back(-1); }
  bool two = order == 1 && UNITS > 1 && us[0].video != us[1].video;
  size_t at[4] = {0, 0, 0, 0};
  for (int i = 0; i < UNITS; i++) {
    while (at[i] < us[i].packets.size()) {
      all.push_back(us[i].packets[at[i]++]); owner.push_back(i);
      if (two && i == 0 && at[1] < us[1].packets.size()) { all.push_back(us[1].packets[at[1]++]); owner.push_back(1); }
    }
    if (order == 2 && i == 0) {  // things in between: tables again, null, foreign and clock-only packets
      std::string v[] = {psi[0], psi.back(), ts_packet(0x1fff, false, 0, std::string(184, '\x55')), ts_packet(0x103, true, 3, std::string(184, '\x55'))};
      for (auto& p : v) { all.push_back(p); owner.push_back(-1); }
    }
  }
  // the next unit of both streams shows that the one before is complete
  std::string tail = ts_pes(0xe0, 2, 0, 0, 0, false, "x");
  all.push_back(ts_packet(VPID, true, vcc, tail)); owner.push_back(-2);
  all.push_back(ts_packet(APID, true, acc, ts_pes(0xc0, 2, 0, 0, 0, false, "x"))); owner.push_back(-2);
  size_t lost = all.size(); bool gap = false;
#if MODE == 1
  { size_t first = psi.size(); lost = first + sym_choose(0, (unsigned)(all.size() - first - 1), "lost"); }
#endif
  // in which order the units are complete; a gap ends the stream at the next packet of the stream that lost one
  std::vector<int> done; int last[2] = {-1, -1};
  for (size_t i = 0; i < all.size(); i++) {
    int o = owner[i];
    if (i == lost) continue;
    if (lost < i && (o >= 0 || o == -2) && all[i][2] == all[lost][2] && owner[lost] != -1) { gap = true; break; }
    if (o >= 0 && (uint8_t)all[i][1] & 0x40) { int k = us[o].video; if (last[k] >= 0) done.push_back(last[k]); last[k] = o; }
    if (o == -2) { int k = all[i][2] == (char)VPID; if (last[k] >= 0) { done.push_back(last[k]); last[k] = -1; } }
  }
  if (lost < all.size()) { all.erase(all.begin() + lost); owner.erase(owner.begin() + lost); }
  std::string bytes; for (auto& p : all) { CHECK(p.size() == 188, "harness: packets"); bytes += p; }
  auto io = std::make_shared<FakeIO>((const uint8_t*)bytes.data(), bytes.size(), 0);
  if (FULL ? sym_choose(0, 1, "split") : order == 0) io->max_read = 100;
  auto relay = std::make_shared<Relay>();
  TsDemuxer d(io, relay);
  size_t k = 0; bool config = false; error_t e; PAVPacket p;
  while ((e = d.read_packet(p)) == SUCCESS) {
    if (p->is_audio_sequence_header()) { CHECK(!config && p->size() == 2 && k < done.size() && !us[done[k]].video, "the audio configuration comes first, once"); config = true; continue; }
    if (k >= done.size()) { CHECK(false, "no more packets than units"); return; }
    Unit& u = us[done[k++]];
    CHECK(u.video == p->is_video() && u.video != p->is_audio(), "the right stream");
    if (!u.video) CHECK(config, "audio after its configuration");
    std::string got((char*)p->buffer(), p->size()), want = u.nal;
    if (u.video) { std::string len(4, 0); len[2] = (char)(u.nal.size() >> 8); len[3] = (char)u.nal.size(); want = len + want; }
    CHECK(got == want, "the unit's bytes, reassembled");
    if (u.video) CHECK(p->is_keyframe() == (u.nal[0] == 0x65), "its kind");
    if (u.flags == 3) CHECK(p->dts == (int64_t)(u.dts / 90) && (!u.video || p->pts == (int64_t)(u.pts / 90)), "its times");
    if (u.flags == 2) CHECK(p->dts == (int64_t)(u.pts / 90) && p->pts == p->dts, "its time");
  }
#if MODE == 0
  CHECK(e == ERROR_SOCKET_CLOSED && k == done.size(), "every unit is delivered");
  size_t r = 0;
  for (auto& q : all) {
    int pid = ((uint8_t)q[1] & 0x1f) << 8 | (uint8_t)q[2];
    if (pid != 0 && pid != MPID && pid != VPID && pid != APID) continue;
    while (r < relay->pk.size() && relay->type[r] != TS_PROGRAM_PAT && relay->type[r] != TS_PROGRAM_PMT && relay->type[r] != TS_PROGRAM_PES) r++;
    if (r >= relay->pk.size()) { CHECK(false, "every packet of the program is relayed"); return; }
    CHECK(relay->pk[r] == q && relay->type[r] == (pid == 0 ? TS_PROGRAM_PAT : pid == MPID ? TS_PROGRAM_PMT : TS_PROGRAM_PES) && !!relay->start[r] == !!((uint8_t)q[1] & 0x40), "unmodified, in order, with its kind");
    r++;
  }
  CHECK(r == relay->pk.size(), "and nothing else");
  sym_reach("units");
  if (two) sym_reach("mixed");
#else
  CHECK(k == done.size(), "every unit before the gap is delivered, and none with a hole");
  CHECK(gap ? e != SUCCESS && e != ERROR_SOCKET_CLOSED : e == ERROR_SOCKET_CLOSED, "the gap is noticed");
  sym_reach(gap ? "gap" : "end");
#endif
}
#elif MODE == 6  // every form of unit header and adaptation field
extern "C" void sym_main() {
  ts_crc = sym_str(4, "crc");
  auto relay = std::make_shared<Relay>();
  auto io = std::make_shared<FakeIO>(nullptr, 0, 0);
  TsDemuxer d(io, relay);
  auto feed = [&](const std::string& s) { uint8_t* b = new uint8_t[s.size()]; memcpy(b, s.data(), s.size()); error_t e = d.decode_packet(b, s.size()); delete[] b; return e; };
  CHECK(feed(ts_psi(0, 0, ts_section(0, 1, ts_w16(1) + ts_w16(0xe000 | MPID)))) == SUCCESS, "tables");
  CHECK(feed(ts_psi(MPID, 0, ts_section(2, 1, ts_w16(0xe000 | VPID) + ts_w16(0xf000) + ts_es(0x1b, VPID) + ts_es(0x0f, APID)))) == SUCCESS, "tables");
  bool video = sym_choose(0, 1, "video"); int flags = sym_choose(0, 2, "flags"); if (flags == 1) flags = 3;
  bool last = FULL ? sym_choose(0, 1, "id") : flags == 2; int id = video ? last ? 0xef : 0xe0 : last ? 0xdf : 0xc0;
  uint64_t pts = stamp33("pts"), dts = stamp33("dts");
  std::string more, af; int m = 0;
  auto opt = [&](const char* nm, int bit, const std::string& v) { if (sym_choose(0, 1, nm)) { m |= bit; more += v; } };
  if (sym_choose(0, 1, "which")) {
    opt("escr", 0x20, std::string(6, '\x55')); opt("rate", 0x10, std::string(3, '\x55')); opt("trick", 8, "\x55"); opt("copy", 4, "\xd5"); opt("crc", 2, "\x55\x55");
    if (sym_choose(0, 1, "ext")) {
      m |= 1; size_t at = more.size(); more += '\x0e'; int x = 0;
      auto sub = [&](const char* nm, int bit, const std::string& v) { if (sym_choose(0, 1, nm)) { x |= bit; more += v; } };
      sub("private", 0x80, std::string(16, '\x55')); sub("pack", 0x40, std::string("\3abc", 4)); sub("counter", 0x20, "\xd5\x95"); sub("pstd", 0x10, "\x55\x55"); sub("ext2", 1, std::string("\x82zz", 3));
      more[at] = (char)(more[at] | x);
    }
  } else {
    af = std::string(1, 0);
    auto sub = [&](const char* nm, int bit, const std::string& v) { if (sym_choose(0, 1, nm)) { af[0] = (char)(af[0] | bit); af += v; } };
    unsigned lead = sym_choose(0, 3, "lead"); af[0] = (char)(lead << 6);  // discontinuity and random access say nothing about the bytes
    sub("pcr", 0x10, std::string("\1\2\3\4\x7e\5", 6)); sub("opcr", 8, std::string("\1\2\3\4\x7e\6", 6)); sub("splice", 4, "\x9"); sub("private", 2, std::string("\3pqr", 4)); sub("ext", 1, std::string("\1\x1f", 2));
  }
  std::string x = sym_str(2, "data"); if (video) sym_assume((x[0] != 0) & (x[1] != 0));
  std::string nal = "\x65" + x + "zz"; if (!video) nal = x + "zz";
  size_t n = 7 + nal.size(); std::string ad("\xff\xf1\x50\x80\0\x1f\xfc", 7); ad[3] |= (char)(n >> 11); ad[4] = (char)(n >> 3); ad[5] |= (char)((n & 7) << 5);
  bool sized = sym_choose(0, 1, "sized");
  std::string pes = ts_pes(id, flags, pts, dts, FULL ? sym_choose(0, 1, "stuff") * 2 : sized ? 2 : 0, sized, video ? std::string("\0\0\0\1", 4) + nal : ad + nal, m, more);
  int pid = video ? VPID : APID;
  CHECK(feed(ts_packet(pid, true, 0, pes, af)) == SUCCESS, "a unit");
  PAVPacket p; bool got = d.pop(p);
  if (!got) { CHECK(feed(ts_packet(pid, true, 1, ts_pes(id, 2, 0, 0, 0, false, "x"))) == SUCCESS, "the next"); got = d.pop(p); }
  if (got && !video) { CHECK(p->is_audio_sequence_header(), "configuration"); got = d.pop(p); }
  CHECK(got, "the unit is delivered"); if (!got) return;
  std::string b((char*)p->buffer(), p->size()), want = video ? std::string("\0\0\0\5", 4) + nal : nal;
  CHECK(b == want, "with its bytes");
  CHECK(video ? p->is_video() && p->is_keyframe() : p->is_audio(), "of its kind");
  if (flags == 3) CHECK(p->dts == (int64_t)(dts / 90) && (!video || p->pts == (int64_t)(pts / 90)), "its times");
  if (flags == 2) CHECK(p->dts == (int64_t)(pts / 90) && p->pts == p->dts, "its time");
  CHECK(!d.pop(p), "once"); sym_reach(video ? "video" : "audio");
}
#elif MODE == 8  // many units, and a gap anywhere among them
extern "C" void sym_main() {
  auto relay = std::make_shared<Relay>();
  auto io = std::make_shared<FakeIO>(nullptr, 0, 0);
  TsDemuxer d(io, relay);
  auto feed = [&](const std::string& s) { uint8_t* b = new uint8_t[s.size()]; memcpy(b, s.data(), s.size()); error_t e = d.decode_packet(b, s.size()); delete[] b; return e; };
  CHECK(feed(ts_psi(0, 0, ts_section(0, 1, ts_w16(1) + ts_w16(0xe000 | MPID)))) == SUCCESS, "tables");
  CHECK(feed(ts_psi(MPID, 0, ts_section(2, 1, ts_w16(0xe000 | VPID) + ts_w16(0xf000) + ts_es(0x1b, VPID) + ts_es(0x0f, APID)))) == SUCCESS, "tables");
  std::string x = sym_str(1, "data"); sym_assume(x[0] != 0);
  uint64_t t0 = (1ull << 33) - 5 * 3600;   // the clock wraps on the way
  bool sized = sym_choose(0, 1, "sized"); unsigned each = sym_choose(1, 2, "packets");
  std::vector<std::string> pk; std::vector<int> of; int cc = 0;
  for (int i = 0; i < 20; i++) {
    std::string nal(each == 1 ? 60 : 300, '\x2a'); nal[0] = i % 5 ? 0x41 : 0x65; nal[1] = x[0]; nal[2] = (char)(i + 1);
    std::string rest = ts_pes(0xe0, 3, (t0 + i * 3600 + 7200) & 0x1ffffffffull, (t0 + i * 3600) & 0x1ffffffffull, 0, sized, std::string("\0\0\1", 3) + nal);
    for (bool first = true; !rest.empty(); first = false) { size_t k = rest.size() < 184 ? rest.size() : 184; pk.push_back(ts_packet(VPID, first, cc++, rest.substr(0, k))); of.push_back(i); rest = rest.substr(k); }
  }
  pk.push_back(ts_packet(VPID, true, cc, ts_pes(0xe0, 2, 0, 0, 0, false, "x"))); of.push_back(20);
  static const int GONE[] = {0, 1, 2, 8, 15}; unsigned gone = GONE[sym_choose(0, 4, "gone")], from = gone ? sym_choose(1, (unsigned)pk.size() - gone - 1, "from") : 0;
  error_t e = SUCCESS; int whole = 20, at = 0; PAVPacket p;
  auto drain = [&] {
    while (d.pop(p)) {
      CHECK(at < whole, "no unit with a hole, none twice"); if (at >= whole) return;
      uint64_t pts = (t0 + at * 3600 + 7200) & 0x1ffffffffull, dts = (t0 + at * 3600) & 0x1ffffffffull;
      size_t n = each == 1 ? 60 : 300;
      CHECK(p->is_video() && p->is_keyframe() == (at % 5 == 0) && p->size() == (int)n + 4 && (uint8_t)p->buffer()[2] == n >> 8 && (uint8_t)p->buffer()[3] == (n & 255) && (char)p->buffer()[5] == x[0] && p->buffer()[6] == at + 1 && p->buffer()[n + 3] == 0x2a, "every unit in its turn");
      CHECK(p->pts == (int64_t)(pts / 90) && p->dts == (int64_t)(dts / 90), "at its time");
      at++;
    }
  };
  if (gone) { whole = of[from]; }            // the unit the first lost packet belongs to has a hole; those before are whole
  size_t i = 0;
  for (; i < pk.size(); i++) {
    if (gone && i >= from && i < from + gone) continue;
    e = feed(pk[i]); drain();
    if (gone && i > from) { CHECK(e != SUCCESS, "the gap is reported at the stream's next packet"); sym_reach("gap"); break; }
    CHECK(e == SUCCESS, "a packet in its turn");
  }
  if (gone) CHECK(at >= whole - 1 && at <= whole, "units before the gap are delivered");
  else { CHECK(at == 20, "every unit"); sym_reach("many"); }
}
#elif MODE == 7  // wherever the unit is cut into packets, and however long it is
extern "C" void sym_main() {
  auto relay = std::make_shared<Relay>();
  auto io = std::make_shared<FakeIO>(nullptr, 0, 0);
  TsDemuxer d(io, relay);
  auto feed = [&](const std::string& s) { uint8_t* b = new uint8_t[s.size()]; memcpy(b, s.data(), s.size()); error_t e = d.decode_packet(b, s.size()); delete[] b; return e; };
  CHECK(feed(ts_psi(0, 0, ts_section(0, 1, ts_w16(1) + ts_w16(0xe000 | MPID)))) == SUCCESS, "tables");
  CHECK(feed(ts_psi(MPID, 0, ts_section(2, 1, ts_w16(0xe000 | VPID) + ts_w16(0xf000) + ts_es(0x1b, VPID) + ts_es(0x0f, APID)))) == SUCCESS, "tables");
  static const int A[] = {184, 183, 182, 181, 180, 100, 30, 20}, B[] = {184, 183, 182, 181, 100, 2, 1, 10};
  bool sized = sym_choose(0, 1, "sized"), longer = sym_choose(0, 1, "long");
  static const size_t Z[] = {32761, 32768, 32769, 32900, 65000, 65522};
  size_t n = longer ? Z[sym_choose(0, 5, "size")] : 300 + sym_choose(0, 3, "more");
  std::string x = sym_str(4, "data"); sym_assume((x[3] != 0) & (x[0] != 0) & (x[1] != 0) & (x[2] != 0));
  std::string nal(n, '\x2a'); nal[0] = 0x65; nal[1] = x[0]; nal[n / 2] = x[1]; nal[n - 2] = x[2]; nal[n - 1] = x[3];
  std::string rest = ts_pes(0xe0, 2, 90000, 0, 0, sized, std::string("\0\0\1", 3) + nal);
  for (int cc = 0; !rest.empty(); cc++) {
    size_t k = longer ? 184 : cc == 0 ? A[sym_choose(0, 7, "first")] : cc == 1 ? B[sym_choose(0, 7, "second")] : 184;
    if (k > rest.size()) k = rest.size();
    CHECK(feed(ts_packet(VPID, cc == 0, cc, rest.substr(0, k))) == SUCCESS, "a packet of the unit");
    rest = rest.substr(k);
    if (rest.empty()) CHECK(feed(ts_packet(VPID, true, cc + 1, ts_pes(0xe0, 2, 0, 0, 0, false, "x"))) == SUCCESS, "the next unit");
  }
  PAVPacket p; bool got = d.pop(p);
  CHECK(got, "the unit is delivered"); if (!got) return;
  std::string l(4, 0); l[2] = (char)(n >> 8); l[3] = (char)n;
  CHECK(p->size() == (int)n + 4 && std::string((char*)p->buffer(), p->size()) == l + nal, "with its bytes");
  CHECK(!d.pop(p), "once");
  sym_reach(longer ? "long" : "cut");
}
#else  // hostile packets
extern "C" void sym_main() {
  auto relay = std::make_shared<Relay>();
  auto io = std::make_shared<FakeIO>(nullptr, 0, 0);
  TsDemuxer d(io, relay);
  auto feed = [&](const std::string& s) { uint8_t* b = new uint8_t[s.size()]; memcpy(b, s.data(), s.size()); error_t e = d.decode_packet(b, s.size()); delete[] b; return e; };
  std::string pat = ts_psi(0, 0, ts_section(0, 1, ts_w16(1) + ts_w16(0xe000 | MPID))), pmt = ts_psi(MPID, 0, ts_section(2, 1, ts_w16(0xe000 | VPID) + ts_w16(0xf000) + ts_es(0x1b, VPID) + ts_es(0x0f, APID)));
  CHECK(feed(pat) == SUCCESS && feed(pmt) == SUCCESS, "tables");
  std::string h;
  static const int P[] = {VPID, 0, MPID, 0x11, APID, 0x1fff};
#if MODE == 2    // any adaptation field, before every kind of payload
  int pid = P[FULL ? sym_choose(0, 5, "pid") : sym_choose(0, 2, "pid") * 2]; if (pid == MPID) pid = 0;
  h = ts_packet(pid, sym_choose(0, 1, "start"), 0, std::string(184, '\0'));
  h[3] = (char)(((FULL ? sym_choose(0, 3, "afc") : sym_choose(2, 3, "afc")) << 4));
  static const int A[] = {0, 1, 2, 6, 7, 8, 13, 14, 15, 16, 20, 100, 181, 182, 183, 184, 255}; h[4] = (char)A[sym_choose(0, 16, "len")];
  { std::string f = sym_str(1, "flags"); h[5] = f[0]; static const int R[] = {0, 3, 170, 255}; int v = R[sym_choose(0, 3, "rest")]; for (int i = 6; i < 24; i++) h[i] = (char)v; }
  h[185] = 0; h[186] = 0; h[187] = 1;
#elif MODE == 3  // any table
  int pid = P[sym_choose(1, 3, "pid")]; bool start = sym_choose(0, 1, "start");
  static const int Q[] = {1, 8, 9, 10, 13, 14, 18, 19, 2, 3, 4, 5, 6, 7, 11, 12, 15, 16, 17, 20}, I[] = {0, 3, 12, 255, 100};
  unsigned room = sym_choose(0, 1, "short") ? Q[sym_choose(0, FULL ? 19 : 7, "room")] : 184;
  static const int B[] = {0, 1, 2, 4, 7, 8, 9, 12, 13, 14, 17, 100, 174, 175, 176, 183, 255}; 
  std::string body(184, '\0'); std::string t = sym_str(4, "head"); 
  body[0] = (char)(sym_choose(0, 1, "pointer") ? B[sym_choose(0, 7, "ptr") * 2 + 1] : 0);
  unsigned len = sym_choose(0, 1, "lenk") ? B[sym_choose(0, 16, "len")] : 0xf00 + sym_choose(0, 1, "big") * 0xff;
  for (int i = 0; i < 184; i += 1) if (i) body[i] = (char)(i * 7);
  unsigned info = pid == MPID ? I[sym_choose(0, 4, "info")] : 3; size_t o = 1 + (uint8_t)body[0];
  for (size_t i = 0; i < 2; i++) { size_t at = i ? 1 : o; if (at + 12 > body.size()) continue; body[at] = t[0]; body[at + 1] = (char)(0xb0 | len >> 8); body[at + 2] = (char)len; body[at + 10] = (char)(0xf0); body[at + 11] = (char)info; }
  h = ts_packet(pid, start, 0, body.substr(0, room));
#elif MODE == 4  // any unit header
  int pid = P[FULL ? sym_choose(0, 1, "pid") * 4 : 0];
  static const int L[] = {0, 3, 60, 65535, 1, 2, 8}, G[] = {0, 3, 5, 10, 20, 60, 255}, Q[] = {1, 6, 8, 9, 10, 13, 14, 19, 20, 30, 179};
  std::string b("\0\0\1\xe0\0\0\x80\0\0", 9); std::string f = sym_str(2, "flags");
  unsigned sid = sym_choose(0, FULL ? 3 : 2, "sid"); b[3] = (char)(sid == 0 ? 0xe0 : sid == 1 ? 0xbe : sid == 2 ? 0xbf : 0xc0);
  unsigned len = L[sym_choose(0, FULL ? 6 : 3, "plen")]; b[4] = (char)(len >> 8); b[5] = (char)len;
  b[7] = f[0]; b[8] = (char)G[sym_choose(0, 6, "hlen")];
  std::string e(170, '\1'); for (int i = 0; i < 40; i++) e[i] = (char)(0x81 + i % 3); e[0] = f[1]; 
  b += e;
  unsigned room = Q[sym_choose(0, 10, "room")];
  h = ts_packet(pid, true, 0, b.substr(0, room));
#else            // any elementary stream
  int pid = P[sym_choose(0, 1, "pid") * 4];
  unsigned n = sym_choose(0, NBYTES, "n");
  h = ts_packet(pid, true, 0, ts_pes(0xe0, 2, 90, 90, 0, sym_choose(0, 1, "sized"), sym_str(n, "es")));
#endif
  error_t got = feed(h);
  error_t e2 = feed(ts_packet(VPID, true, pid == VPID, ts_pes(0xe0, 2, 180, 180, 0, true, std::string("\0\0\1\x65\x77", 5))));
  error_t e3 = feed(ts_packet(APID, true, pid == APID, ts_pes(0xc0, 2, 180, 180, 0, true, std::string("\xff\xf1\x50\x80\1\x1f\xfc\x77", 8))));
  PAVPacket p;
  while (d.pop(p)) CHECK(p->size() < 200, "no more than came");
  sym_reach(got == SUCCESS ? e2 == SUCCESS && e3 == SUCCESS ? "good" : "later" : "refused");
}
#endif
