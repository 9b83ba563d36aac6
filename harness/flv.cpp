// FLV muxer and demuxer.
#include <sps_avformat_flvdec.hpp>
#include <sps_avformat_flvenc.hpp>
#include "fakeio.hpp"
using namespace sps;
struct Tag { AVStreamType st; int type; unsigned h; uint8_t flags, pkt; int64_t dts; int32_t cts; unsigned n; uint8_t data[MAXP + 1]; };
static const uint8_t HEAD[9] = {'F', 'L', 'V', 1, 5, 0, 0, 0, 9};
// a media packet as the server carries it: audio AAC, video H264/H265, metadata
static void any_tag(Tag& t, bool info) {
  unsigned k = sym_choose(0, info ? 3 : 2, "kind");
  t.st = k == 0 ? AV_STREAM_TYPE_AUDIO : k == 2 ? AV_STREAM_TYPE_SUBTITLE : AV_STREAM_TYPE_VIDEO;
  t.type = k == 0 ? 8 : k == 2 ? 18 : 9;
  t.h = k == 0 ? 2 : k == 1 ? 5 : k == 2 ? 0 : 1;
  t.flags = sym_u8("flags"); t.pkt = sym_u8("pkt");
  if (k == 0) sym_assume(t.flags >> 4 == 10);
  if (k == 1) sym_assume(((t.flags & 15) == 7) | ((t.flags & 15) == 12) && (t.flags & 0xf0) != 0x50);
  if (k == 3) sym_assume(((t.flags & 15) == 7) | ((t.flags & 15) == 12) && (t.flags & 0xf0) == 0x50);
  t.dts = sym_u32("dts");
  int32_t c = (int32_t)sym_u32("cts"); sym_assume(c >= -0x800000 && c <= 0x7fffff);
  t.cts = c;
  t.n = sym_choose(1, MAXP, "n");
  sym_make(t.data, t.n, "payload");
}
static unsigned hdr(const Tag& t) { return t.h; }
static PAVPacket packet(Tag& t) {
  return AVPacket::create(AV_MESSAGE_DATA, t.st, AVPacketType{t.pkt}, t.data, t.n, t.dts, t.type == 9 ? t.dts + t.cts : t.dts, t.flags, t.type == 8 ? 10 : t.flags & 15);
}
static uint32_t be(const uint8_t* p, int n) { uint32_t v = 0; while (n--) v = v << 8 | *p++; return v; }
// the FLV file format, written down independently: returns the tag's length (11 + body)
static unsigned check_tag(const uint8_t* o, const Tag& t, uint32_t prev) {
  unsigned h = hdr(t);
  CHECK(be(o, 4) == prev, "previous-tag size precedes each tag");
  CHECK(o[4] == t.type, "tag type");
  CHECK(be(o + 5, 3) == h + t.n, "tag body size");
  CHECK(be(o + 8, 3) == (t.dts & 0xffffff) && o[11] == ((t.dts >> 24) & 0xff), "32-bit timestamp, low 24 bits first");
  CHECK(be(o + 12, 3) == 0, "stream id 0");
  if (h) CHECK(o[15] == t.flags, "codec flags byte");
  if (t.type == 8) CHECK(o[16] == t.pkt, "AAC packet type");
  if (h == 5) { CHECK(o[16] == t.pkt, "video packet type"); CHECK(be(o + 17, 3) == ((uint32_t)t.cts & 0xffffff), "composition offset"); }
  CHECK(!memcmp(o + 15 + h, t.data, t.n), "payload follows verbatim");
  return 11 + h + t.n;
}

extern "C" void sym_main() {
#if MODE == 0  // mux: any sequence of packets becomes a well-formed FLV stream
  auto io = std::make_shared<FakeIO>(nullptr, 0, 0, 0, 512);
  FlvAVMuxer m(io);
  PAVPacket none;
  if (sym_choose(0, 1, "broken")) { io->fail_at = (int)sym_choose(0, 3, "write"); io->fail_err = ERROR_SOCKET_WRITE; }
  error_t e = m.write_header(none);
  if (io->fail_at == 0) { CHECK(e != SUCCESS, "a failed write is reported"); sym_reach("failed"); return; }
  CHECK(e == SUCCESS, "header written");
  CHECK(io->nout == 9 && !memcmp(io->out, HEAD, 9), "FLV file header");
  Tag t[TAGS]; size_t at = 9; uint32_t prev = 0;
  for (int i = 0; i < TAGS; i++) {
    any_tag(t[i], true);
    unsigned filt = sym_choose(0, 1, "filtered");
    if (filt) (t[i].type == 8 ? m.filter_audio : t[i].type == 9 ? m.filter_video : m.filter_metadata) = true;
    auto p = packet(t[i]);
    e = m.write_packet(p);
    if (io->fail_at >= 0 && io->writes > io->fail_at) { CHECK(e != SUCCESS, "a failed write is reported"); sym_reach("failed"); return; }
    CHECK(e == SUCCESS, "packet accepted");
    bool drop = t[i].type == 8 ? m.filter_audio : t[i].type == 9 ? m.filter_video : m.filter_metadata;
    if (drop) { CHECK(io->nout == at, "a filtered packet leaves no bytes"); sym_reach("filtered"); continue; }
    CHECK(io->nout == at + 15 + hdr(t[i]) + t[i].n, "exactly one tag is written per packet");
    prev = check_tag(io->out + at, t[i], prev);
    at = io->nout;
  }
  PAVPacket bad = AVPacket::create(AV_MESSAGE_DATA, AV_STREAM_PES, AVPacketType{1}, t[0].data, t[0].n, 0, 0);
  CHECK(m.write_packet(bad) != SUCCESS && io->nout == at, "a packet that is neither audio, video nor metadata is refused and leaves no bytes");
  sym_reach("muxed");
#elif MODE == 1  // demux of a well-formed stream, whatever way the transport splits it
  static uint8_t s[9 + TAGS * (20 + MAXP)];
  memcpy(s, HEAD, 9);
  s[4] = sym_u8("avflags");
  size_t at = 9;
  Tag t[TAGS];
  for (int i = 0; i < TAGS; i++) {
    any_tag(t[i], true);
    unsigned h = hdr(t[i]), sz = h + t[i].n;
    uint32_t prev = sym_u32("prev");
    uint8_t* o = s + at;
    o[0] = prev >> 24; o[1] = prev >> 16; o[2] = prev >> 8; o[3] = prev;
    o[4] = t[i].type; o[5] = 0; o[6] = sz >> 8; o[7] = sz;
    o[8] = t[i].dts >> 16; o[9] = t[i].dts >> 8; o[10] = t[i].dts; o[11] = t[i].dts >> 24;
    sym_make(o + 12, 3, "streamid");
    o[15] = t[i].flags; o[16] = t[i].pkt; o[17] = t[i].cts >> 16; o[18] = t[i].cts >> 8; o[19] = t[i].cts;
    memcpy(o + 15 + h, t[i].data, t[i].n);
    at += 15 + sz;
  }
  unsigned cut = sym_choose(0, 1, "truncated") ? sym_choose(1, 20, "cut") : 0;
  auto io = std::make_shared<FakeIO>(s, at - cut, SPLITS, ERROR_SOCKET_CLOSED);
  io->max_read = 16;
  FlvDemuxer d(io);
  PAVPacket p;
  CHECK(d.read_header(p) == SUCCESS, "FLV header accepted");
  CHECK(p && p->size() == 9 && p->msg_type == AV_MESSAGE_HEADER && !memcmp(p->buffer(), s, 9), "header packet carries the header bytes");
  size_t pos = 9;
  for (int i = 0; i < TAGS; i++) {
    PAVPacket q;
    error_t e = d.read_packet(q);
    pos += 15 + hdr(t[i]) + t[i].n;
    if (pos > at - cut) { CHECK(e == ERROR_SOCKET_CLOSED && !q, "a truncated tag is not delivered"); sym_reach("truncated"); return; }
    CHECK(e == SUCCESS && q, "every tag is delivered");
    CHECK(q->msg_type == AV_MESSAGE_DATA && q->stream_type == t[i].st, "kind of packet");
    CHECK(q->dts == t[i].dts, "decode time");
    if (hdr(t[i]) == 5) CHECK(q->pts == t[i].dts + t[i].cts, "presentation time is decode time plus signed offset");
    if (t[i].type == 8) CHECK(q->pts == t[i].dts, "audio presentation time");
    if (hdr(t[i]) >= 2) CHECK(q->pkt_type.pkt_type == t[i].pkt, "packet type");
    if (hdr(t[i])) CHECK(q->flags == t[i].flags, "codec flags");
    if (t[i].type == 8) CHECK(q->codecid == 10, "audio codec");
    if (t[i].type == 9) CHECK(q->codecid == (t[i].flags & 15), "video codec");
    CHECK(q->size() == t[i].n && !memcmp(q->buffer(), t[i].data, t[i].n), "payload bytes");
    CHECK(q->is_keyframe() == (t[i].type == 9 && t[i].flags >> 4 == 1), "key frame flag");
    CHECK(q->is_video() == (t[i].type == 9) && q->is_audio() == (t[i].type == 8) && q->is_script() == (t[i].type == 18), "kind predicates");
    sym_observe("dts", q->dts); sym_observe("pts", q->pts);
  }
  PAVPacket q;
  CHECK(d.read_packet(q) == ERROR_SOCKET_CLOSED && !q, "then the end of the stream");
  sym_reach("demuxed");
#elif MODE == 2  // demux of arbitrary bytes
  static uint8_t s[N];
  sym_make(s, N, "bytes");
  auto io = std::make_shared<FakeIO>(s, N, 0, ERROR_SOCKET_CLOSED);
  io->max_read = sym_choose(0, 1, "slow") ? 7 : N;
  FlvDemuxer d(io);
  PAVPacket p;
  size_t at = 0;
#ifdef WITH_HEAD
  error_t he = d.read_header(p);
  bool ok = s[0] == 'F' && s[1] == 'L' && s[2] == 'V';
  CHECK((he == SUCCESS) == ok, "the header is accepted exactly when it starts with FLV");
  if (he) { sym_reach("badhead"); return; }
  at = 9;
#endif
  for (int i = 0; i < 3; i++) {
    PAVPacket q;
    error_t e = d.read_packet(q);
    if (e != SUCCESS) { CHECK(!q, "no packet on error"); sym_reach("error"); return; }
    CHECK(q != nullptr, "success delivers a packet");
    CHECK(at + 15 <= N, "a packet needs a complete tag header");
    uint32_t sz = be(s + at + 5, 3);
    CHECK(sz <= N - at - 15, "a packet is delivered only when its whole tag arrived");
    uint8_t ty = s[at + 4];
    CHECK((ty == 8) | (ty == 9) | (ty == 18), "only audio, video and metadata tags are delivered");
    unsigned h = ty == 8 ? 2 : ty == 18 ? 0 : (s[at + 15] & 0xf0) == 0x50 ? 1 : 5;
    CHECK(sz > h && q->size() == sz - h, "payload size is the tag body minus the codec header");
    CHECK(!memcmp(q->buffer(), s + at + 15 + h, q->size()), "payload bytes are the tag's own bytes");
    at += 15 + sz;
    sym_reach("packet");
  }
#elif MODE == 3  // a tiny tag that ends exactly where the receive buffer ends
  const size_t C = 1024 * 1024;
  static uint8_t s[C + 64];
  memcpy(s, HEAD, 9);
  unsigned left = sym_choose(0, 6, "left");        // bytes of the second tag's body that fit the buffer
  size_t L = C - 9 - 15 - 15 - left;
  s[13] = 18; s[14] = L >> 16; s[15] = L >> 8; s[16] = L;
  uint8_t* o = s + 9 + 15 + L;
  o[4] = sym_u8("type"); o[7] = sym_u8("size"); o[15] = sym_u8("flags");
  sym_assume(o[7] <= left);
  auto io = std::make_shared<FakeIO>(s, 9 + 15 + L + 15 + left, 0, ERROR_SOCKET_CLOSED);
  FlvDemuxer d(io);
  PAVPacket p, q;
  CHECK(d.read_header(p) == SUCCESS && d.read_packet(q) == SUCCESS && q->size() == L, "large tag delivered");
  PAVPacket z;
  error_t e = d.read_packet(z);
  CHECK((e == SUCCESS) == (z != nullptr), "a packet exactly on success");
  if (e == SUCCESS) { CHECK(z->size() < o[7] || o[4] == 18, "payload within the tag"); sym_reach("tiny"); } else sym_reach("rejected");
#elif MODE == 5  // many tags, more than the receive buffer holds
  unsigned big = sym_choose(0, 2, "size"), n = big == 0 ? 3 : big == 1 ? 700 : 40000, count = big == 0 ? 400 : big == 1 ? 120 : 40, start = sym_choose(0, 2, "start");
  uint32_t t0 = start == 0 ? 0 : start == 1 ? 0xffffff - 40 * 20 : 0x7fffffff - 20 * 20;   // across the timestamp's extension, and its sign
  uint8_t x = sym_u8("byte"); uint8_t* d = new uint8_t[n];
  auto kind = [](unsigned i) { return i % 7 == 0 ? 2u : i % 3 == 1 ? 0u : 1u; };
  auto fillin = [&](unsigned i) { for (unsigned k = 0; k < n; k++) d[k] = (uint8_t)(k + i * 3); d[n / 2] = x; };
  auto out = std::make_shared<FakeIO>(nullptr, 0, 0, 0, 1700000); FlvAVMuxer m(out); PAVPacket p;
  CHECK(m.write_header(p) == SUCCESS, "header written");
  for (unsigned i = 0; i < count; i++) {
    unsigned k = kind(i); fillin(i);
    p = AVPacket::create(AV_MESSAGE_DATA, k == 0 ? AV_STREAM_TYPE_AUDIO : k == 1 ? AV_STREAM_TYPE_VIDEO : AV_STREAM_TYPE_SUBTITLE, AVPacketType{1}, d, n, (int64_t)t0 + i * 20, (int64_t)t0 + i * 20 + (k == 1 ? 40 : 0), k == 0 ? 0xaf : i % 25 ? 0x27 : 0x17, k == 0 ? 10 : 7);
    size_t before = out->nout; unsigned h = k == 0 ? 2 : k == 1 ? 5 : 0;
    CHECK(m.write_packet(p) == SUCCESS && out->nout == before + 15 + h + n, "one tag per packet");
    if (i) { const uint8_t* o = out->out + before; unsigned q = kind(i - 1); CHECK(be(o, 4) == 11 + n + (q == 0 ? 2 : q == 1 ? 5 : 0), "the previous tag's size"); }
  }
  uint8_t* end = new uint8_t[out->nout + 4]; memcpy(end, out->out, out->nout); memset(end + out->nout, 0, 4);
  auto in = std::make_shared<FakeIO>(end, out->nout + 4, 0, ERROR_SOCKET_CLOSED); in->max_read = big < 2 ? 1460 : sym_choose(0, 1, "mtu") ? 1460 : 100000;
  FlvDemuxer dm(in);
  CHECK(dm.read_header(p) == SUCCESS, "header read");
  for (unsigned i = 0; i < count; i++) {
    unsigned k = kind(i); fillin(i);
    error_t e = dm.read_packet(p); CHECK(e == SUCCESS && p, "every tag is delivered"); if (e != SUCCESS) return;
    CHECK(p->size() == n && !memcmp(p->buffer(), d, n), "with its payload, in order");
    CHECK(p->is_audio() == (k == 0) && p->is_video() == (k == 1) && p->dts == (int64_t)t0 + i * 20 && (k != 1 || (p->pts == p->dts + 40 && p->is_keyframe() == (i % 25 == 0))), "its kind and times");
  }
  CHECK(dm.read_packet(p) != SUCCESS, "and nothing more");
  sym_reach("many");
#elif MODE == 4  // large payloads, written and read back
  static const unsigned BASE[] = {120, 248, 16376, 32760, 65525, 131064, 1048560 - 25};
  unsigned n = BASE[sym_choose(0, 6, "base")] + sym_choose(0, 16, "extra");
  uint8_t* big = new uint8_t[n];
  for (unsigned i = 0; i < n; i++) big[i] = i * 7 + (i >> 8);
  unsigned where = sym_choose(0, 2, "where"); where = where == 0 ? 0 : where == 1 ? n / 2 : n - 1;
  big[where] = sym_u8("byte");
  unsigned k = sym_choose(0, 2, "kind"), h = k == 0 ? 2 : k == 1 ? 5 : 0;
  auto out = std::make_shared<FakeIO>(nullptr, 0, 0, 0, 1200000);
  FlvAVMuxer m(out);
  PAVPacket none;
  CHECK(m.write_header(none) == SUCCESS, "header written");
  uint8_t small[2] = {1, 2};
  auto p = AVPacket::create(AV_MESSAGE_DATA, k == 0 ? AV_STREAM_TYPE_AUDIO : k == 1 ? AV_STREAM_TYPE_VIDEO : AV_STREAM_TYPE_SUBTITLE, AVPacketType{1}, big, n, 5, 5, k == 0 ? 0xaf : 0x17, k == 0 ? 10 : 7);
  auto q = AVPacket::create(AV_MESSAGE_DATA, AV_STREAM_TYPE_AUDIO, AVPacketType{1}, small, 2, 6, 6, 0xaf, 10);
  CHECK(m.write_packet(p) == SUCCESS && m.write_packet(q) == SUCCESS, "packets accepted");
  const uint8_t* o = out->out + 9;
  CHECK(out->nout == 9 + 15 + h + n + 15 + 4, "exactly one tag is written per packet");
  CHECK(be(o + 5, 3) == h + n && !memcmp(o + 15 + h, big, n), "a large tag's size and payload");
  CHECK(be(o + 15 + h + n, 4) == 11 + h + n, "previous-tag size of a large tag");
  auto in = std::make_shared<FakeIO>(out->out, out->nout, 0, ERROR_SOCKET_CLOSED);
  in->max_read = sym_choose(0, 1, "mtu") ? 1460 : 100000;
  FlvDemuxer d(in);
  PAVPacket a, b, c;
  CHECK(d.read_header(a) == SUCCESS && d.read_packet(b) == SUCCESS && b, "a large tag is delivered");
  CHECK(b->size() == n && !memcmp(b->buffer(), big, n), "with its payload");
  CHECK(d.read_packet(c) == SUCCESS && c && c->size() == 2 && c->dts == 6 && !memcmp(c->buffer(), small, 2), "and so is the tag after it");
  sym_reach("large");
#endif
}
