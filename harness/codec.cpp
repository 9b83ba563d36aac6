// Elementary streams to packets: Annex-B H.264 and ADTS AAC.
#include <sps_avcodec_aac_parser.hpp>
#include <sps_avcodec_h264_parser.hpp>
#include <cstring>
#include <string>
#include <vector>
#include <sym.hpp>
using namespace sps;
typedef std::list<PAVPacket> Pkts;
static std::string bytes(PAVPacket& p) { return std::string((char*)p->buffer(), p->size()); }
// a copy of exactly its size, so that reading past it is seen
struct Exact { uint8_t* p; int n; Exact(const std::string& s) : p(new uint8_t[s.size()]), n((int)s.size()) { memcpy(p, s.data(), s.size()); } ~Exact() { delete[] p; } };
static std::string sym_str(unsigned n, const char* nm) { uint8_t b[16]; sym_make(b, n, nm); return std::string((char*)b, n); }
#if MODE < 2 || MODE == 6  // ---- AAC
struct Frame { int profile, rate, ch, absent, misc; std::string data; };
static std::string adts(const Frame& f, int len) {
  uint8_t h[9] = {0xff, (uint8_t)(0xf0 | (f.misc & 1) << 3 | f.absent), (uint8_t)(f.profile << 6 | f.rate << 2 | (f.misc >> 1 & 1) << 1 | f.ch >> 2),
                  (uint8_t)((f.ch & 3) << 6 | len >> 11), (uint8_t)(len >> 3), (uint8_t)((len & 7) << 5 | (f.misc >> 3 & 0x1f)), (uint8_t)(0xfc), (uint8_t)(f.misc), 0x55};
  return std::string((char*)h, f.absent ? 7 : 9) + f.data;
}
static void is_config(PAVPacket& p, const Frame& f) {
  CHECK(p->msg_type == AV_MESSAGE_DATA && p->is_audio() && p->is_audio_sequence_header() && p->codecid == AAC && p->flags == 0xaf, "a sequence header");
  CHECK(p->size() == 2 && p->buffer()[0] == (uint8_t)((f.profile + 1) << 3 | f.rate >> 1) && p->buffer()[1] == (uint8_t)((f.rate & 1) << 7 | f.ch << 3), "naming profile, rate and channels");
}
extern "C" void sym_main() {
#if MODE == 0
  AacAVCodecParser ps; Frame last; bool any = false;
  for (unsigned call = 0; call < CALLS; call++) {
    Frame f[2]; unsigned n = sym_choose(1, 2, "frames"); std::string in;
    for (unsigned i = 0; i < n; i++) {
      f[i].absent = sym_choose(0, 1, "absent"); f[i].profile = sym_range(0, 3, "profile"); f[i].rate = sym_range(0, 12, "rate"); f[i].ch = sym_range(0, 7, "channels"); f[i].misc = sym_u8("misc");
      f[i].data = sym_str(sym_choose(0, MAXD, "len"), "data");
      in += adts(f[i], (int)f[i].data.size() + (f[i].absent ? 7 : 9));
    }
    Exact x(in); Pkts out; int64_t dts = (sym_u32("dts") & 0x7fffffff);
    AVCodecContext c(dts, dts + 3, TB);
    CHECK(ps.encode_avc(&c, x.p, x.n, out) == SUCCESS, "well-formed audio is accepted");
    auto it = out.begin();
    for (unsigned i = 0; i < n; i++) {
      bool changed = !any || f[i].profile != last.profile || f[i].rate != last.rate || f[i].ch != last.ch;
      bool may = changed || f[i].absent != last.absent;
      if (it == out.end()) { CHECK(false, "no frame is lost"); return; }
      if ((*it)->is_audio_sequence_header()) { CHECK(may, "the configuration is announced only when it changes"); is_config(*it, f[i]); ++it; }
      else CHECK(!changed, "the configuration is announced before its first frame");
      if (it == out.end()) { CHECK(false, "no frame is lost"); return; }
      auto& p = *it++;
      CHECK(p->is_audio() && !p->is_audio_sequence_header() && p->codecid == AAC && p->flags == 0xaf && p->dts == dts / TB && p->pts == dts / TB, "a frame with its time");
      CHECK(bytes(p) == f[i].data, "its bytes, without the header");
      last = f[i]; any = true;
    }
    CHECK(it == out.end(), "and nothing else");
  }
  sym_reach("frames");
#elif MODE == 6  // long frames, many frames
  static const unsigned LEN[] = {0, 120, 248, 249, 1000, 1024, 2040, 2041, 4096, 8181}, MANY[] = {1, 2, 9, 33};
  AacAVCodecParser ps; Frame f; f.profile = 1; f.rate = 4; f.ch = 2; f.misc = 0; f.absent = sym_choose(0, 1, "absent");
  unsigned len = LEN[sym_choose(0, 9, "len")], many = MANY[sym_choose(0, 3, "many")], big = sym_choose(0, 1, "where") * (many - 1); uint8_t c = sym_u8("c");
  for (int call = 0; call < 2; call++) {
    std::vector<std::string> fr; std::string in;
    for (unsigned i = 0; i < many; i++) { f.data = std::string(i == big ? len : 5 + i % 3, (char)('a' + i % 26)) + (char)c; fr.push_back(f.data); in += adts(f, (int)f.data.size() + (f.absent ? 7 : 9)); }
    Exact x(in); Pkts out; AVCodecContext ctx(90000 + call, 90000 + call, 90);
    CHECK(ps.encode_avc(&ctx, x.p, x.n, out) == SUCCESS, "well-formed audio is accepted");
    size_t k = 0; auto it = out.begin();
    if (!call) { CHECK(it != out.end(), "the configuration comes first"); if (it == out.end()) return; is_config(*it++, f); }
    for (; it != out.end(); ++it, k++) {
      if (k >= fr.size()) { CHECK(false, "no frame twice"); return; }
      CHECK(!(*it)->is_audio_sequence_header() && bytes(*it) == fr[k] && (*it)->dts == 1000, "each frame's bytes, however long, without the header");
    }
    CHECK(k == fr.size(), "no frame is lost");
  }
  sym_reach("frames");
#else  // any bytes
  unsigned n = sym_choose(0, NBYTES, "n"); std::string in = sym_str(n, "b");
  if (PREFIX) { Frame f; f.absent = 1; f.profile = 1; f.rate = 4; f.ch = 2; f.misc = 0; f.data = "x"; in = adts(f, 8) + in; n += 8; }
  Exact x(in); Pkts out; AacAVCodecParser ps; AVCodecContext c(900, 900, 90);
  error_t e = ps.encode_avc(&c, x.p, x.n, out);
  size_t at = 0; auto it = out.begin(); bool bad = false;
  auto u = [&](size_t i) { return (unsigned)(uint8_t)in[i]; };
  while (at < n) {
    if (n - at < 7 || u(at) != 0xff || (u(at + 1) & 0xf0) != 0xf0) { bad = true; break; }
    size_t h = u(at + 1) & 1 ? 7 : 9, len = (u(at + 3) & 3) << 11 | u(at + 4) << 3 | u(at + 5) >> 5;
    if (len < h || n - at < h || len > n - at) { bad = true; break; }
    while (it != out.end() && (*it)->is_audio_sequence_header()) ++it;
    if (it == out.end()) { CHECK(false, "complete frames are delivered"); return; }
    CHECK(bytes(*it) == in.substr(at + h, len - h), "their bytes");
    ++it; at += len;
  }
  while (it != out.end() && (*it)->is_audio_sequence_header()) ++it;
  CHECK(it == out.end(), "nothing is delivered for an incomplete or malformed frame");
  CHECK((e == SUCCESS) == !bad, "which is an error");
  sym_reach(bad ? "bad" : "good");
#endif
}
#else         // ---- H.264
struct Nal { std::string b; int type; };
static void is_config(PAVPacket& p, const std::string& sps, const std::string* pps) {
  CHECK(p->is_video() && p->is_video_sequence_header() && p->codecid == H264 && (p->flags & 0xff) == 0x17, "a sequence header");
  std::string s = bytes(p); size_t want = 8 + sps.size() + (pps ? 3 + pps->size() : 1) - (pps ? 0 : 0);
  CHECK(s.size() == want, "its size");
  if (s.size() != want) return;
  CHECK(s[0] == 1 && s[1] == sps[1] && s[3] == sps[3] && (s[4] & 3) == 3 && (s[5] & 0x1f) == 1, "version, profile, level, four-byte lengths");
  CHECK((uint8_t)s[6] << 8 == (int)(sps.size() & 0xff00) && (uint8_t)s[7] == (sps.size() & 0xff) && s.compare(8, sps.size(), sps) == 0, "the sequence parameters");
  size_t at = 8 + sps.size();
  CHECK(s[at] == (pps ? 1 : 0), "count of picture parameters");
  if (pps) CHECK((uint8_t)s[at + 2] == pps->size() && s[at + 1] == 0 && s.compare(at + 3, std::string::npos, *pps) == 0, "the picture parameters");
}
static void is_data(PAVPacket& p, const Nal& n, int64_t dts, int64_t pts) {
  int kind = n.type == 5 ? 1 : n.type == 1 ? 2 : 5;
  CHECK(p->is_video() && !p->is_video_sequence_header() && p->codecid == H264 && (p->flags & 0xff) == (kind << 4 | 7), "a frame of its kind");
  CHECK(p->is_keyframe() == (n.type == 5), "key frames are marked");
  CHECK(p->dts == dts && p->pts == pts, "with its times");
  std::string s = bytes(p); CHECK(s.size() == n.b.size() + 4, "its size");
  if (s.size() != n.b.size() + 4) return;
  CHECK(((unsigned)(uint8_t)s[0] << 24 | (uint8_t)s[1] << 16 | (uint8_t)s[2] << 8 | (uint8_t)s[3]) == n.b.size() && s.compare(4, std::string::npos, n.b) == 0, "length-prefixed, byte for byte");
}
static void expect(const std::vector<Nal>& v, Pkts& out, int64_t dts, int64_t pts) {
  const std::string *sps = nullptr, *pps = nullptr;
  for (auto& n : v) { if (n.type == 7) sps = &n.b; if (n.type == 8) pps = &n.b; }
  auto it = out.begin();
  if (sps) { if (it == out.end()) { CHECK(false, "parameter sets are announced"); return; } is_config(*it++, *sps, pps); sym_reach("config"); }
  for (auto& n : v) if (n.type == 1 || n.type == 5 || n.type == 6) {
    if (it == out.end()) { CHECK(false, "no slice is lost"); return; }
    is_data(*it++, n, dts, pts); sym_reach("data");
  }
  CHECK(it == out.end(), "and nothing else");
}
extern "C" void sym_main() {
  int64_t dts = (sym_u32("dts") & 0x7fffffff), pts = dts + (sym_u16("cts") & 0x3fff);
  H264AVCodecParser ps; AVCodecContext c(dts, pts, TB); Pkts out;
#if MODE == 2 || MODE == 3
  unsigned k = MODE == 3 ? 1 : sym_choose(1, NALS, "nals"); std::string in; std::vector<Nal> v;
  for (unsigned i = 0; i < k; i++) {
    Nal n; static const int T[] = {1, 5, 6, 7, 8, 9, 12, 24};
    n.type = T[sym_choose(0, 7, "type")];
    unsigned len = n.type == 7 ? 4 : sym_choose(1, MAXD, "len");
    n.b = std::string(1, (char)(sym_range(0, 3, "ref") << 5 | n.type)) + sym_str(len - 1, "nal");
    if (n.type == 24) n.b[0] = (char)(sym_range(10, 31, "other") );
    for (unsigned j = 1; j < len; j++) sym_assume(n.b[j] != 0 || (j + 1 < len && n.b[j - 1] != 0));
    v.push_back(n);
#if MODE == 2
    in += sym_choose(0, 1, "code") ? std::string("\0\0\0\1", 4) : std::string("\0\0\1", 3);
#endif
    in += n.b;
#if MODE == 2
    in += std::string(sym_choose(0, 1, "zeros") * (i + 2), '\0');  // belong to no unit
#endif
  }
  Exact x(in);
  for (int call = 0; call < 2; call++) {
    out.clear();
    error_t e = MODE == 3 ? ps.encode_raw_nalu(&c, x.p, x.n, out) : ps.encode_avc(&c, x.p, x.n, out);
    CHECK(e == SUCCESS, "well-formed video is accepted");
    expect(v, out, dts / TB, pts / TB);
  }
  for (auto& n : v) (void)n;
#elif MODE == 7  // many units
  std::vector<Nal> v; std::string in; unsigned count = sym_choose(0, 1, "count") ? 300 : 65; bool three = sym_choose(0, 1, "short");
  std::string y = sym_str(1, "nal"); sym_assume(y[0] != 0);
  for (unsigned i = 0; i < count; i++) { Nal n; n.type = i % 9 ? 1 : 5; n.b = std::string(2 + i % 5, '\x33'); n.b[0] = (char)(0x60 | n.type); n.b[1] = i == count / 2 ? y[0] : (char)(1 + i % 100); v.push_back(n); in += std::string("\0\0\0\1", 4).substr(three ? 1 : 0) + n.b; }
  Exact x(in);
  CHECK(ps.encode_avc(&c, x.p, x.n, out) == SUCCESS, "well-formed video is accepted");
  expect(v, out, dts / TB, pts / TB);
#elif MODE == 5  // large units
  static const unsigned L[] = {255, 256, 257, 65535, 65536, 70001}; std::vector<Nal> v; std::string in;
  for (unsigned i = 0; i < 2; i++) {
    Nal n; n.type = i ? 1 : 5; n.b = std::string(i ? 3 : L[sym_choose(0, 5, "len")], '\x33'); n.b[0] = (char)(0x60 | n.type);
    std::string y = sym_str(2, "nal"); sym_assume(y[0] != 0 && y[1] != 0); n.b[1] = y[0]; n.b[n.b.size() - 1] = y[1];
    v.push_back(n); in += std::string("\0\0\0\1", 4) + n.b;
  }
  Exact x(in);
  CHECK(ps.encode_avc(&c, x.p, x.n, out) == SUCCESS, "well-formed video is accepted");
  expect(v, out, dts / TB, pts / TB);
#else  // any bytes
  unsigned n = sym_choose(0, NBYTES, "n"); std::string in = sym_str(n, "b");
  Exact x(in);
  error_t e = RAW ? ps.encode_raw_nalu(&c, x.p, x.n, out) : ps.encode_avc(&c, x.p, x.n, out);
  for (auto& p : out) { CHECK(e == SUCCESS, "no packets with an error"); CHECK(p->size() <= n + 11, "no more than came"); if (!p->is_video_sequence_header()) { std::string s = bytes(p).substr(4); CHECK(in.find(s) != std::string::npos, "only bytes that came"); } }
  sym_reach(e == SUCCESS ? "good" : "bad");
#endif
}
#endif
