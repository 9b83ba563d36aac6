// RTP datagrams to packets.
#include <sps_avformat_rtpdec.hpp>
#include <sps_avformat_rtpdec_aac.hpp>
#include <sps_avformat_rtpdec_h264_hevc.hpp>
#include <sps_avformat_rtpdec_rtcp.hpp>
#include <sps_avformat_rtpdec_ts.hpp>
#include <vector>
#include "fakeio.hpp"
#include "ts.hpp"
using namespace sps;
static std::string sym_str(unsigned n, const char* nm) { uint8_t b[64]; sym_make(b, n, nm); return std::string((char*)b, n); }
// every read returns one datagram
class DgramIO : public FakeIO {
 public:
  std::vector<std::string> q; size_t next = 0;
  DgramIO() : FakeIO(nullptr, 0, 0) {}
  error_t read(void* b, size_t n, size_t& nread) override {
    nread = 0;
    if (next >= q.size()) return ERROR_SOCKET_CLOSED;
    std::string& s = q[next++];
    nread = s.size() < n ? s.size() : n;
    memcpy(b, s.data(), nread);
    return SUCCESS;
  }
};
static std::string w16(unsigned v) { std::string s(2, 0); s[0] = (char)(v >> 8); s[1] = (char)v; return s; }
static std::string w32(uint32_t v) { return w16(v >> 16) + w16(v & 0xffff); }
// form: 1 csrcs (one, or 15 in the full form), 2 extension of two words, 4 padding of 3, 8 empty extension
static std::string rtp(int form, int mpt, uint16_t seq, uint32_t ts, const std::string& payload) {
  std::string s(2, 0);
  int cc = form & 1 ? form == 1 ? 1 : 15 : 0;
  s[0] = (char)(0x80 | cc | (form & 10 ? 0x10 : 0) | (form & 4 ? 0x20 : 0)); s[1] = (char)mpt;
  s += w16(seq) + w32(ts) + w32(0x11223344);
  for (int i = 0; i < cc; i++) s += w32(i & 1 ? 0x65656565 : 0x41414141);
  if (form & 2) s += w32(0xbede0002) + w32(0x65656565) + w32(0x41414141);
  else if (form & 8) s += w32(0xbede0000);
  s += payload;
  if (form & 4) s += std::string("\0\0\3", 3);
  return s;
}
// a sender report with a block, a receiver report with two, a source description, a goodbye, an application packet
static std::string rtcp(int k) {
  std::string b = k == 0 ? std::string(48, '\x11') : k == 1 ? std::string(52, '\x22') : k == 2 ? w32(7) + std::string("\1\2ab", 4) + w32(0) : k == 3 ? w32(7) : w32(7) + "name" + w32(9), s(2, 0);
  s[0] = (char)(0x80 | (k == 1 ? 2 : k == 4 ? 0 : 1)); s[1] = (char)(200 + k);
  return s + w16((unsigned)b.size() / 4) + b;
}
static error_t next_packet(RtpDemuxer& d, PAVPacket& p) { p.reset(); return d.read_packet(p); }
#if MODE == 0
extern "C" void sym_main() {
  struct U { std::string nal; uint32_t ts; std::vector<int> pk; };
  std::vector<std::string> out; std::vector<U> us;
  uint16_t seq = sym_u16("seq"); uint32_t ts = sym_u32("ts"); uint8_t pt = sym_u8("pt"); sym_assume((pt & 0x7f) >= 96);
  static const int F[] = {0, 1, 2, 4, 8, 7}; int fi = (int)sym_choose(0, FULL ? 5 : 4, "form"), form = F[fi];
  int noise = FULL ? sym_choose(0, 2, "noise") : form & 1 ? 1 : form & 2 ? 2 : 0;
  auto put = [&](const std::string& payload) { out.push_back(rtp(form, pt, seq++, ts, payload)); return (int)out.size() - 1; };
  for (int i = 0; i < ITEMS; i++) {
    unsigned kind = sym_choose(0, 8, "kind"); std::string d = sym_str(2, "data");
    ts += 3000;
    std::string nal(1, i ? '\x41' : '\x65'), sei("\x06\x05", 2);
    nal += d; if (kind >= 5) nal += "0123456789";
    sei += d;
    if (kind >= 1 && kind <= 4 && sym_choose(0, 1, "tiny")) { nal = nal.substr(0, 1); sei = sei.substr(0, 1); }
    U a; a.nal = nal; a.ts = ts; U b; b.nal = sei; b.ts = ts;
    if (kind == 0) { a.pk.push_back(put(nal)); us.push_back(a); }
    else if (kind <= 4) {
      std::string p(1, (char)(0x60 | (23 + kind)));
      if (kind >= 2) p += w16(9);                              // decoding order number
      std::string x = kind == 3 ? std::string("\0\0\0", 3) : kind == 4 ? std::string("\0\0\0\0", 4) : std::string();
      p += w16((unsigned)nal.size()) + x + nal + w16((unsigned)sei.size()) + x + sei;
      a.pk.push_back(put(p)); b.pk = a.pk; us.push_back(a); us.push_back(b);
    } else {
      int n = kind == 6 ? 3 : 2; size_t at = 1;
      if (kind == 8) put(std::string("\x7c\x81zz", 4));  // a unit whose sender gave up on it
      for (int k = 0; k < n; k++) {
        size_t to = k == n - 1 ? nal.size() : at + 3;
        bool fb = kind == 7 && k == 0;
        std::string p(1, (char)((nal[0] & 0xe0) | (fb ? 29 : 28)));
        p += (char)((nal[0] & 0x1f) | (k == 0 ? 0x80 : 0) | (k == n - 1 ? 0x40 : 0));
        if (fb) p += w16(0x4141);
        p += nal.substr(at, to - at); at = to;
        a.pk.push_back(put(p));
      }
      us.push_back(a);
    }
  }
  int lost = (int)sym_choose(0, (unsigned)out.size(), "lost") - 1;
  auto io = std::make_shared<DgramIO>();
  for (size_t i = 0; i < out.size(); i++) {
    if ((int)i == lost) continue;
    if (noise == 1 && i == 1) io->q.push_back(rtcp(fi % 5));
    if (noise == 2 && i == 1) io->q.push_back("\x80\x60\x41");
    io->q.push_back(out[i]);
  }
  RtpDemuxer d(io);
  CHECK(d.init_codec(AVCODEC_H264) == SUCCESS, "codec");
  PAVPacket p; error_t e;
  for (auto& u : us) {
    bool have = true; for (int k : u.pk) if (k == lost) have = false;
    if (!have) { sym_reach("lost"); continue; }
    e = next_packet(d, p);
    CHECK(e == SUCCESS && p, "every received unit is delivered");
    if (e != SUCCESS) return;
    std::string want = w32((uint32_t)u.nal.size()) + u.nal;
    CHECK(p->is_video() && !p->is_audio() && p->size() == want.size(), "one unit, nothing more");
    CHECK(std::string((char*)p->buffer(), p->size()) == want, "its bytes");
    CHECK(p->is_keyframe() == ((u.nal[0] & 0x1f) == 5), "its kind");
    CHECK(p->pts == (int64_t)u.ts / 90, "its time");
  }
  e = next_packet(d, p);
  CHECK(e == ERROR_SOCKET_CLOSED, "and nothing else");
  sym_reach("units");
}
#elif MODE == 1  // a unit in many fragments, larger than what is kept, and the next one
extern "C" void sym_main() {
  auto io = std::make_shared<DgramIO>();
  std::string d = sym_str(2, "data"); bool over = sym_choose(0, 1, "over");
  int n = over ? 360 : 330; uint16_t seq = sym_choose(0, 1, "wrap") ? 65500 : 7;
  for (int k = 0; k < n; k++) {
    std::string p("\x7c\x05", 2); p[1] |= (char)(k == 0 ? 0x80 : k == n - 1 ? 0x40 : 0);
    std::string f(2971, (char)k); if (k == 0) f[0] = d[0]; if (k == n - 1) f[f.size() - 1] = d[1];
    io->q.push_back(rtp(0, 96, seq++, 900, p + f));
  }
  io->q.push_back(rtp(0, 96, seq++, 1800, "\x41xy"));
  RtpDemuxer dm(io); CHECK(dm.init_codec(AVCODEC_H264) == SUCCESS, "codec");
  PAVPacket p; error_t e; bool first = false, second = false; int errors = 0;
  for (int k = 0; k < n + 2; k++) {
    e = next_packet(dm, p);
    if (e == ERROR_SOCKET_CLOSED) break;
    if (e != SUCCESS) { errors++; continue; }
    if (p->size() == 7) { CHECK(!second && p->buffer()[4] == 0x41 && p->pts == 20, "the next unit"); second = true; continue; }
    size_t want = 5 + (size_t)n * 2971;
    CHECK(!first && !second && p->size() == want, "the whole unit or nothing"); if (p->size() != want) return;
    CHECK(p->buffer()[4] == 0x65 && p->buffer()[5] == (uint8_t)d[0] && p->buffer()[want - 1] == (uint8_t)d[1], "its bytes");
    first = true;
  }
  CHECK(first == !over, "units of up to 1 MiB arrive"); CHECK(second, "and the next one does, too");
  CHECK(over || errors == 0, "without errors");
  sym_reach(over ? "over" : "fits");
}
#elif MODE == 2  // access units of aac
extern "C" void sym_main() {
  auto io = std::make_shared<DgramIO>(); uint32_t ts = sym_u32("ts"); uint8_t pt = sym_u8("pt"); sym_assume((pt & 0x7f) >= 96);
  std::vector<std::string> want; std::vector<uint32_t> times; bool cut = false; size_t limit = 0;
  static const int F[] = {0, 1, 2, 4, 8, 7}; int form = F[sym_choose(0, 5, "form")], ncut = FULL ? 250 : 6;
  for (int i = 0; i < PACKETS; i++) {
    int n = (int)sym_choose(1, UNITS, "n"); std::string h = w16((unsigned)n * 16), b; ts += 1024;
    std::vector<std::string> mine;
    for (int k = 0; k < n; k++) {
      static const int S[] = {1, 3, 300}; int size = S[i && !FULL ? k : (int)sym_choose(0, 2, "size")];
      std::string d = sym_str(1, "data"); std::string u((size_t)size, (char)(k + 1)); u[(size_t)size - 1] = d[0];
      h += w16((unsigned)size << 3 | (k ? 0 : 0)); b += u; mine.push_back(u);
    }
    if (i == PACKETS - 1 && sym_choose(0, 1, "cut")) { cut = true; size_t k = sym_choose(1, (unsigned)((int)(b.size() + h.size()) < ncut ? (int)(b.size() + h.size()) : ncut), "by"); b = (h + b).substr(0, h.size() + b.size() - k); h = ""; form &= ~4; limit = want.size() + mine.size(); }
    for (auto& u : mine) { want.push_back(u); times.push_back(ts); }
    io->q.push_back(rtp(form, pt, (uint16_t)i, ts, h + b));
  }
  if (sym_choose(0, 1, "sr")) io->q.insert(io->q.begin() + 1, rtcp(form % 5));
  RtpDemuxer d(io); CHECK(d.init_codec(AVCODEC_AAC) == SUCCESS, "codec");
  PAVPacket p; error_t e = SUCCESS; size_t k = 0; bool failed = false;
  for (;;) {
    e = next_packet(d, p);
    if (e == ERROR_SOCKET_CLOSED) break;
    if (e != SUCCESS) { CHECK(cut && !failed, "only a cut packet fails"); failed = true; continue; }
    if (k >= want.size()) { CHECK(false, "no more packets than units"); return; }
    CHECK(p->is_audio() && !p->is_video() && !p->is_audio_sequence_header(), "audio");
    CHECK(p->size() == want[k].size() && std::string((char*)p->buffer(), p->size()) == want[k], "the unit's bytes");
    CHECK(p->pts == (int64_t)times[k] / 90 && p->dts == p->pts, "its time");
    k++;
  }
  if (cut) { CHECK(failed && k < limit, "a cut packet is noticed"); sym_reach("cut"); }
  else { CHECK(k == want.size(), "every unit is delivered"); sym_reach("units"); }
}
#elif MODE == 3  // a transport stream in datagrams
extern "C" void sym_main() {
  auto io = std::make_shared<DgramIO>(); uint8_t mark = sym_u8("mark") & 0x80; uint16_t seq = sym_u16("seq");
  static const int F[] = {0, 1, 2, 4, 8, 7}; int form = F[sym_choose(0, 5, "form")];
  std::string d = sym_str(2, "data"); sym_assume((d[0] != 0) & (d[1] != 0));
  uint64_t t = sym_u64("t") & 0x1ffffffff;
  std::string nal = std::string("\x65", 1) + d[0] + std::string(250, 'n') + d[1], pes = ts_pes(0xe0, 2, t, t, 0, false, std::string("\0\0\0\1", 4) + nal);
  std::vector<std::string> ps;
  ps.push_back(ts_psi(0, 0, ts_section(0, 1, ts_w16(1) + ts_w16(0xe000 | MPID))));
  ps.push_back(ts_psi(MPID, 0, ts_section(2, 1, ts_w16(0xe000 | VPID) + ts_w16(0xf000) + ts_es(0x1b, VPID) + ts_es(0x0f, APID))));
  ps.push_back(ts_packet(VPID, true, 0, pes.substr(0, 184))); ps.push_back(ts_packet(VPID, false, 1, pes.substr(184)));
  ps.push_back(ts_packet(VPID, true, 2, ts_pes(0xe0, 2, 0, 0, 0, false, "x")));
  unsigned group = sym_choose(1, 5, "group"); 
  for (size_t i = 0; i < ps.size(); i += group) {
    std::string b; for (size_t k = i; k < i + group && k < ps.size(); k++) b += ps[k];
    if (i == 2) io->q.push_back(rtcp((int)sym_choose(0, 4, "rtcp")));
    io->q.push_back(rtp(form, 33 | mark, seq++, 5, b));
  }
  RtpDemuxer dm(io); PAVPacket p; error_t e = next_packet(dm, p);
  CHECK(e == SUCCESS && p, "the unit is delivered"); if (e != SUCCESS) return;
  std::string want = w32((uint32_t)nal.size()) + nal;
  CHECK(p->is_video() && p->is_keyframe() && p->size() == want.size() && std::string((char*)p->buffer(), p->size()) == want, "its bytes");
  CHECK(p->dts == (int64_t)(t / 90) && p->pts == p->dts, "its time");
  CHECK(next_packet(dm, p) == ERROR_SOCKET_CLOSED, "once");
  sym_reach("unit");
}
#elif MODE == 7  // many access units in a datagram
extern "C" void sym_main() {
  static const int N[] = {1, 2, 127, 128, 255, 256, 257, 600}; int n = N[sym_choose(0, 7, "n")], big = (int)sym_choose(0, 2, "big") * (n - 1) / 2;
  std::string d = sym_str(2, "data"), h = w16((unsigned)n * 16), b; int size = sym_choose(0, 1, "large") ? 2970 - n * 4 : 300;
  for (int k = 0; k < n; k++) { std::string u((size_t)(k == big ? size : 2), (char)k); u[0] = d[0]; if (k == big) u[(size_t)size - 1] = d[1]; h += w16((unsigned)u.size() << 3); b += u; }
  auto io = std::make_shared<DgramIO>(); io->q.push_back(rtp(0, 97, 1, 900, h + b));
  RtpDemuxer dm(io); CHECK(dm.init_codec(AVCODEC_AAC) == SUCCESS, "codec");
  PAVPacket p; error_t e; int k = 0;
  while ((e = next_packet(dm, p)) == SUCCESS) {
    if (k >= n) { CHECK(false, "no more packets than units"); return; }
    size_t want = k == big ? (size_t)size : 2; CHECK(p->size() == want, "the unit's size"); if (p->size() != want) return;
    CHECK(p->buffer()[0] == (uint8_t)d[0] && p->buffer()[want - 1] == (k == big ? (uint8_t)d[1] : (uint8_t)k), "its bytes");
    k++;
  }
  CHECK(e == ERROR_SOCKET_CLOSED && k == n, "every unit is delivered"); sym_reach("units");
}
#else  // hostile datagrams
static error_t feed(IRtpDecoder& d, const std::string& s, std::list<PAVPacket>& pk) {
  uint8_t* b = new uint8_t[s.size()]; memcpy(b, s.data(), s.size());
  error_t e = d.decode(b, (int)s.size(), pk);
  delete[] b; return e;
}
extern "C" void sym_main() {
  std::list<PAVPacket> pk; std::string h; error_t e;
#if MODE == 4    // any header
  h = sym_str(2, "first"); h += std::string("\0\1\0\0\0\x5a\1\2\3\4", 10);
  { std::string w = std::string("\x41\0\0", 3) + sym_str(1, "word"); h += w + w + w + w; if (sym_choose(0, 1, "huge")) h[14] = 0x40; h = h.substr(0, sym_choose(0, 28, "n")); }
#elif MODE == 5  // any payload
  h = rtp(0, 96, 1, 90, sym_str(sym_choose(0, NBYTES, "n"), "payload"));
#endif
#if MODE == 6    // rtcp
  static const int T[] = {200, 201, 202, 203, 204, 199, 205}; RtcpRtpDecoder d;
  h = sym_str(4, "head"); h[1] = (char)T[sym_choose(0, 6, "type")];
  sym_assume((uint8_t)(h[0] & 0x1f) <= 3);
  h += sym_str(6, "first"); static const int N[] = {0, 2, 13, 14, 17, 18, 42, 90}; h += std::string((size_t)N[sym_choose(0, 7, "n")], '\1');
  if (sym_choose(0, 1, "cut")) h = h.substr(0, sym_choose(0, 9, "to"));
  e = feed(d, h, pk);
  CHECK(pk.empty(), "no media");
  CHECK(feed(d, rtcp(0), pk) == SUCCESS, "the next report");
  sym_reach(e == SUCCESS ? "good" : "refused");
#else
  unsigned codec = sym_choose(0, 2, "codec"); size_t n = 0;
  auto fits = [&]() {   // a header as long as it says
    if (h.size() < 12) return false;
    size_t len = h.size(), at = 12 + 4 * (size_t)(h[0] & 15);
    if (h[0] & 0x20) { size_t pad = (uint8_t)h[len - 1]; if (len > 12) { if (!pad || pad > len - 12) return false; len -= pad; } }
    if (at > len) return false;
    if (h[0] & 0x10) { if (at + 4 > len) return false; at += 4 + 4 * ((size_t)(uint8_t)h[at + 2] << 8 | (uint8_t)h[at + 3]); }
    return at <= len;
  };
  if (codec == 0) {
    H264RtpDecoder d;
    if (sym_choose(0, 1, "open")) CHECK(feed(d, rtp(0, 96, 0, 90, "\x7c\x85zz"), pk) == SUCCESS, "a first fragment");
    e = feed(d, h, pk);
    for (auto& p : pk) { CHECK(p->size() <= h.size() + 7, "no more than came"); n += p->size() > 0; }
    pk.clear();
    CHECK(feed(d, rtp(0, 96, 7, 1800, "\x41xy"), pk) == SUCCESS && pk.size() == 1 && pk.front()->size() == 7, "the next unit");
  } else if (codec == 1) {
    AacRtpDecoder d; e = feed(d, h, pk);
    for (auto& p : pk) { CHECK(p->size() <= h.size(), "no more than came"); n++; }
    pk.clear();
    CHECK(feed(d, rtp(0, 96, 7, 1800, std::string("\0\x10\0\x10xy", 6)), pk) == SUCCESS && pk.size() == 1 && pk.front()->size() == 2, "the next unit");
  } else {
    MpegtsRtpDecodder d; if (MODE == 5) h[1] = 33;
    e = feed(d, h, pk); CHECK(pk.empty(), "no unit");
    CHECK(feed(d, rtp(0, 33, 7, 1800, ts_psi(0, 0, ts_section(0, 1, ts_w16(1) + ts_w16(0xe000 | MPID)))), pk) == SUCCESS, "the next packet");
  }
#if MODE == 4
  if (!fits()) CHECK(e != SUCCESS && n == 0, "nothing comes out of a header that does not fit its datagram");
#endif
  sym_reach(e == SUCCESS ? n ? "media" : "good" : "refused");
#endif
}
#endif
