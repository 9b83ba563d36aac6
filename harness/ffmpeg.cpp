// Formats by FFmpeg: the adapters against a stand-in for its libraries.
#include <sps_avformat_ffmpeg_dec.hpp>
#include <sps_avformat_ffmpeg_enc.hpp>
#include <sps_avformat_ffmpeg.hpp>
#include <sps_avformat_dec.hpp>
#include <sps_avformat_enc.hpp>
#include "fakeio.hpp"
using namespace sps;
static const AVMediaType KIND[] = {AVMEDIA_TYPE_VIDEO, AVMEDIA_TYPE_AUDIO, AVMEDIA_TYPE_DATA, AVMEDIA_TYPE_SUBTITLE, AVMEDIA_TYPE_ATTACHMENT, AVMEDIA_TYPE_UNKNOWN};
static const AVRational TB[] = {{1, 1000}, {1, 4000}, {1, 250}, {2, 1000}};
struct F { int idx; int64_t pts, dts; bool key; std::string data; };
static F fr[FRAMES + 1]; static int nfr, nstreams, kinds[3], tb_in[3], tb_out[4], next_fr;
static int live_fmt, live_io, live_mem, live_pkt, live_data, live_codec, io_flushed, no_codec = -1, bad_codec = -1, head_fail, info_fail, frame_fail = -1;
static bool in_closed = true, headed;
struct W { int idx; int64_t pts, dts; int flags; std::string data; }; static W wr[FRAMES + 1]; static int nwr, nouts;
static AVOutputFormat FLV;
static AVStream* stream_of(AVFormatContext* c, int kind, int tb) {
  auto s = new AVStream(); s->index = (int)c->nb_streams; s->codecpar = new AVCodecParameters(); s->codecpar->codec_type = kind < 0 ? AVMEDIA_TYPE_UNKNOWN : KIND[kind]; s->time_base = TB[tb];
  if (!c->streams) c->streams = new AVStream*[8]();
  c->streams[c->nb_streams++] = s; return s;
}
static bool fill(AVIOContext* p, uint8_t* b, int n) { while (n > 0) { int k = p->read_packet(p->opaque, b, n); if (k <= 0) return false; CHECK(k <= n, "no more than there is room for"); b += k; n -= k; } return true; }
extern "C" {
void* av_malloc(size_t n) { live_mem++; (void)n; return new uint8_t[64]; }
void av_free(void* p) { if (p) { live_mem--; delete[] (uint8_t*)p; } }
void av_freep(void* p) { av_free(*(void**)p); *(void**)p = nullptr; }
AVFormatContext* avformat_alloc_context(void) { live_fmt++; return new AVFormatContext(); }
void avformat_free_context(AVFormatContext* c) {
  if (!c) return;
  live_fmt--;
  for (unsigned i = 0; i < c->nb_streams; i++) { delete c->streams[i]->codecpar; delete c->streams[i]; }
  delete[] c->streams; delete c;
}
void avformat_close_input(AVFormatContext** c) { if (!*c) return; in_closed = true; avformat_free_context(*c); *c = nullptr; }
AVIOContext* avio_alloc_context(unsigned char* b, int n, int wf, void* o, int (*r)(void*, uint8_t*, int), int (*w)(void*, uint8_t*, int), int64_t (*)(void*, int64_t, int)) {
  live_io++; auto p = new AVIOContext(); p->buffer = b; p->buffer_size = n; p->opaque = o; p->read_packet = r; p->write_packet = w; CHECK(b && n > 0 && (wf ? !!w : !!r), "a usable transport"); return p;
}
void avio_context_free(AVIOContext** p) { if (*p) { live_io--; delete *p; *p = nullptr; } }
int avformat_open_input(AVFormatContext** c, const char*, const AVInputFormat*, AVDictionary**) {
  uint8_t h[4];
  if (!fill((*c)->pb, h, 4) || memcmp(h, "HEAD", 4)) { avformat_free_context(*c); *c = nullptr; return -1094995529; }
  in_closed = false;
  for (int i = 0; i < nstreams; i++) { auto s = stream_of(*c, kinds[i], tb_in[i]); s->codecpar->codec_id = (AVCodecID)(i + 1); }
  return 0;
}
int avformat_find_stream_info(AVFormatContext*, AVDictionary**) { return info_fail ? -1 : 0; }
void av_dict_free(AVDictionary**) {}
::AVPacket* av_packet_alloc(void) { live_pkt++; auto p = new ::AVPacket(); p->pts = p->dts = AV_NOPTS_VALUE; return p; }
void av_packet_unref(::AVPacket* p) { if (p->data) live_data--; delete[] p->data; p->data = nullptr; p->size = 0; }
void av_packet_free(::AVPacket** p) { if (*p) { live_pkt--; av_packet_unref(*p); delete *p; *p = nullptr; } }
int av_packet_ref(::AVPacket* d, const ::AVPacket* s) { *d = *s; live_data++; d->data = new uint8_t[s->size + 1]; memcpy(d->data, s->data, s->size); return 0; }
int av_read_frame(AVFormatContext* c, ::AVPacket* p) {
  if (next_fr == nfr) { uint8_t b; return fill(c->pb, &b, 1) ? -22 : -541478725; }
  F& f = fr[next_fr];
  live_data++; p->data = new uint8_t[f.data.size() + 1]; p->size = (int)f.data.size();
  if (!fill(c->pb, p->data, p->size)) { av_packet_unref(p); return -5; }
  p->stream_index = f.idx; p->pts = f.pts; p->dts = f.dts; p->flags = f.key ? AV_PKT_FLAG_KEY : 0; next_fr++;
  return 0;
}
int64_t av_rescale_q_rnd(int64_t a, AVRational b, AVRational c, enum AVRounding r) {
  if ((r & AV_ROUND_PASS_MINMAX) && (a == INT64_MIN || a == INT64_MAX)) return a;
  int64_t x = (int64_t)b.num * c.den, y = (int64_t)c.num * b.den;
  for (int64_t d : {2, 5, 2, 5, 2, 5, 2, 2, 2, 2}) if (x % d == 0 && y % d == 0) x /= d, y /= d;
  if (x == y) return a;
  if (y == 1) return a * x;
  return a * x / y;
}
int64_t av_rescale(int64_t a, int64_t, int64_t) { return a; }
int64_t av_rescale_q(int64_t a, AVRational b, AVRational c) { return av_rescale_q_rnd(a, b, c, AV_ROUND_NEAR_INF); }
void av_packet_rescale_ts(::AVPacket* p, AVRational b, AVRational c) { if (p->pts != AV_NOPTS_VALUE) p->pts = av_rescale_q(p->pts, b, c); if (p->dts != AV_NOPTS_VALUE) p->dts = av_rescale_q(p->dts, b, c); }
const AVCodec* avcodec_find_decoder(enum AVCodecID id) { static char c[8]; return no_codec == (int)id - 1 ? nullptr : (const AVCodec*)c; }
const AVCodec* avcodec_find_encoder(enum AVCodecID) { static char c[8]; return (const AVCodec*)c; }
AVCodecContext* avcodec_alloc_context3(const AVCodec*) { live_codec++; return (AVCodecContext*)new char[8]; }
void avcodec_free_context(AVCodecContext** c) { if (*c) { live_codec--; delete[] (char*)*c; *c = nullptr; } }
int avcodec_parameters_to_context(AVCodecContext*, const AVCodecParameters* p) { return bad_codec == (int)p->codec_id - 1 ? -1 : 0; }
int avcodec_parameters_copy(AVCodecParameters* d, const AVCodecParameters* s) { *d = *s; return 0; }
const AVOutputFormat* av_guess_format(const char*, const char* f, const char*) { size_t n = f ? strlen(f) : 0; return n > 4 && !strcmp(f + n - 4, ".flv") ? &FLV : nullptr; }
int avformat_alloc_output_context2(AVFormatContext** c, const AVOutputFormat* o, const char* n, const char* f) { if (!o) o = av_guess_format(n, f, nullptr); *c = nullptr; if (!o) return -22; *c = avformat_alloc_context(); (*c)->oformat = o; return 0; }
AVStream* avformat_new_stream(AVFormatContext* c, const AVCodec*) { CHECK(c->nb_streams < 4 && !headed, "streams are made before the head"); return stream_of(c, -1, 0); }
int avformat_write_header(AVFormatContext* c, AVDictionary**) {
  if (head_fail == 1) return -22;
  for (unsigned i = 0; i < c->nb_streams; i++) if (c->streams[i]->codecpar->codec_tag) return -22;  // another container's tag
  for (unsigned i = 0; i < c->nb_streams; i++) c->streams[i]->time_base = TB[tb_out[i]];
  nouts = (int)c->nb_streams; headed = true;
  uint8_t h[] = "head"; return c->pb->write_packet(c->pb->opaque, h, 4) < 0 ? -32 : 0;
}
int av_write_frame(AVFormatContext* c, ::AVPacket* p) {
  CHECK(headed && p && p->stream_index >= 0 && p->stream_index < (int)c->nb_streams, "a frame of an output stream, after the head");
  if (nwr == frame_fail) return -22;
  if (nwr > FRAMES) return -22;
  wr[nwr++] = W{p->stream_index, p->pts, p->dts, p->flags, std::string((char*)p->data, p->size)};
  return c->pb->write_packet(c->pb->opaque, p->data, p->size) < 0 ? -32 : 0;
}
int av_interleaved_write_frame(AVFormatContext* c, ::AVPacket* p) { int r = av_write_frame(c, p); av_packet_unref(p); return r; }
int av_write_trailer(AVFormatContext*) { return 0; }
void av_dump_format(AVFormatContext*, int, const char*, int) {}
}
static int64_t stamp(const char* n) { if (sym_choose(0, 1, "stamp")) return AV_NOPTS_VALUE; return (int16_t)sym_u16(n); }
static void setup() {
  nstreams = (int)sym_choose(1, STREAMS, "streams");
  for (int i = 0; i < nstreams; i++) { kinds[i] = (int)sym_choose(0, i ? 2 : 5, "kind") * (i ? 2 : 1); tb_in[i] = (i + (i ? 0 : (int)sym_choose(0, 1, "timebase")) * 2) % 4; }
  nfr = (int)sym_choose(0, FRAMES, "frames");
  for (int i = 0; i < nfr; i++) {
    fr[i].idx = (int)sym_choose(0, nstreams - 1, "stream"); fr[i].dts = stamp("dts"); fr[i].pts = i ? fr[i].dts : stamp("pts"); fr[i].key = sym_choose(0, 1, "key");
    uint8_t d[3]; sym_make(d, 3, "data"); fr[i].data = std::string((char*)d, 2 + (i & 1));
  }
}
static PRequestUrl url(const char* u) { PRequestUrl r; CHECK(RequestUrl::from(u, r) == SUCCESS, "a url"); return r; }
static void balanced() { CHECK(!live_fmt && !live_io && !live_mem && !live_pkt && !live_data && !live_codec && in_closed, "everything opened is closed once"); }
#if MODE == 0
static void run() {
  setup();
  unsigned cut = sym_choose(0, 4, "cut"); if (cut < 3 && nfr > 1) return;  // head too short, not a stream, no info, frames cut short, complete
  info_fail = cut == 2;
  unsigned odd = cut == 4 ? sym_choose(0, 2, "odd") : 0; if (odd == 1) no_codec = 0; else if (odd == 2) bad_codec = 0;
  std::string in = cut == 1 ? "JUNKJUNK" : "HEAD";
  if (cut) for (int i = 0; i < nfr; i++) in += fr[i].data;
  if (cut == 0) in = in.substr(0, 2 + sym_choose(0, 1, "short")); if (cut == 3) { if (!nfr) return; in = in.substr(0, in.size() - 1); }
  auto io = std::make_shared<FakeIO>((const uint8_t*)in.data(), in.size(), 1, ERROR_SOCKET_CLOSED);
  auto d = SingleInstance<AVDemuxerFactory>::get_instance().create(io, "http://h.com/live/a.xyz");
  CHECK(!!d == (cut >= 3), "a stream is opened exactly if FFmpeg can open it");
  if (!d) { sym_reach("refused"); return; }
  PAVPacket p; CHECK(d->read_header(p) == SUCCESS, "head");
  std::vector<PAVPacket> got; error_t e = SUCCESS;
  while ((int)got.size() <= nfr && (e = d->read_packet(p)) == SUCCESS) got.push_back(p);
  CHECK(e != SUCCESS, "the end of the source is an error, not more packets");
  int want = cut == 3 ? nfr - 1 : nfr;
  CHECK((int)got.size() == want, "every frame once");
  if ((int)got.size() != want) return;
  d.reset(); p.reset();   // packets outlive their publisher
  for (int i = 0; i < want; i++) {
    auto f = dynamic_cast<FFmpegPacket*>(got[i].get()); CHECK(!!f, "a packet of FFmpeg's"); if (!f) return;
    auto q = f->packet(); const AVRational* t = f->get_time_base(); int k = kinds[fr[i].idx];
    CHECK(q->stream_index == fr[i].idx && q->size == (int)fr[i].data.size() && !memcmp(q->data, fr[i].data.data(), q->size), "its bytes, in order");
    CHECK(q->pts == fr[i].pts && q->dts == fr[i].dts && f->pts == fr[i].pts && f->dts == fr[i].dts && t->num == TB[tb_in[fr[i].idx]].num && t->den == TB[tb_in[fr[i].idx]].den, "its timestamps, in its stream's time base");
    CHECK(f->is_video() == (k == 0) && (f->stream_type == AV_STREAM_TYPE_AUDIO) == (k == 1) && f->is_keyframe() == (k == 0 && fr[i].key), "its kind");
  }
  sym_reach(cut == 3 ? "cut" : "read"); if (got.size() > 1) sym_reach("several");
}
extern "C" void sym_main() {
  SingleInstance<AVDemuxerFactory>::get_instance().reg(std::make_shared<FFmpegAVInputFormat>());
  run(); balanced();
}
#elif MODE == 1
static void run() {
  setup();
  AVFormatContext* src = avformat_alloc_context();
  for (int i = 0; i < nstreams; i++) stream_of(src, kinds[i], tb_in[i])->codecpar->codec_tag = i ? 0 : 0x31637661;
  int out_of[3], n = 0; for (int i = 0; i < nstreams; i++) { out_of[i] = kinds[i] < 4 ? n++ : -1; }
  for (int i = 0; i < n; i++) tb_out[i] = i ? 1 : (int)sym_choose(0, 1, "outbase") * 3;
  unsigned fail = sym_choose(0, 3, "fail"); head_fail = fail == 1; if (fail == 2) frame_fail = 0;
  auto io = std::make_shared<FakeIO>(nullptr, 0, 0, 0, 64);
  if (fail == 3) { io->fail_at = (int)sym_choose(0, FRAMES, "failat"); io->fail_err = ERROR_SOCKET_WRITE; }
  bool known = sym_choose(0, 3, "ext");
  PRequestUrl u = url(known ? "http://h.com/live/a.flv" : "http://h.com/live/a.xyz");
  std::shared_ptr<FFmpegAVContext> av = std::make_shared<FFmpegAVContext>(src);
  auto e = SingleInstance<AVEncoderFactory>::get_instance().create(io, u);
  CHECK(!!e == known, "a format is opened exactly if FFmpeg knows it");
  bool foreign = false;
  if (e) {
    CHECK(e->set_av_ctx(av.get()) == SUCCESS, "the streams are taken over");
    PAVPacket p; bool broken = false; std::string want;
    error_t r = e->write_header(p);
    int at = 0;
    CHECK((r != SUCCESS) == (fail == 1 || (fail == 3 && io->fail_at == 0)), "a head that fails is an error");
    if (r == SUCCESS) {
      want = "head";
      CHECK(nouts == n, "as many streams as can be carried");
      foreign = sym_choose(0, 1, "foreign");
      if (foreign) { uint8_t b[4] = {0}; CHECK(e->write_packet(p = sps::AVPacket::create(AV_MESSAGE_DATA, AV_STREAM_TYPE_VIDEO, AVPacketType{}, b, 4, 0, 0)) != SUCCESS, "a packet that FFmpeg did not make is refused"); CHECK(nwr == 0, "and not written"); sym_reach("foreign"); }
      for (int i = 0; i < nfr && !broken; i++) {
        auto q = std::make_shared<FFmpegPacket>(); auto k = q->packet(); F& f = fr[i];
        live_data++; k->data = new uint8_t[f.data.size() + 1]; k->size = (int)f.data.size(); memcpy(k->data, f.data.data(), f.data.size());
        k->stream_index = f.idx; k->pts = f.pts; k->dts = f.dts; k->flags = f.key; q->set_time_base(TB[tb_in[f.idx]]);
        int before = nwr, o = out_of[f.idx];
        r = e->write_packet(p = q);
        CHECK(k->pts == f.pts && k->dts == f.dts && k->stream_index == f.idx && k->size == (int)f.data.size() && !memcmp(k->data, f.data.data(), k->size), "other viewers' packet is left as it was");
        if (o < 0) { CHECK(r == SUCCESS && nwr == before, "a packet that cannot be carried is left out"); sym_reach("skipped"); continue; }
        if (frame_fail >= 0) { CHECK(r != SUCCESS, "a frame FFmpeg refuses is an error"); sym_reach("failed"); broken = true; continue; }
        ++at;
        CHECK(nwr == before + 1, "each packet is written once"); if (nwr != before + 1) return;
        W& w = wr[before];
        int64_t pts = f.pts == AV_NOPTS_VALUE ? f.pts : av_rescale_q(f.pts, TB[tb_in[f.idx]], TB[tb_out[o]]), dts = f.dts == AV_NOPTS_VALUE ? f.dts : av_rescale_q(f.dts, TB[tb_in[f.idx]], TB[tb_out[o]]);
        CHECK(w.idx == o, "to the stream it belongs to");
        CHECK(w.pts == pts && w.dts == dts, "at its time, in that stream's time base");
        CHECK(w.data == f.data && w.flags == (int)f.key, "as it is");
        bool lost = fail == 3 && io->fail_at == at;
        CHECK((r != SUCCESS) == lost, "and a failed write is an error");
        if (lost) { sym_reach("failed"); broken = true; } else { want += f.data; sym_reach("written"); }
      }
      CHECK(std::string((char*)io->out, io->nout) == want, "what FFmpeg writes is what the viewer gets");
    } else sym_reach("head failed");
    p.reset();
  } else sym_reach("unknown");
  e.reset(); av.reset(); avformat_free_context(src);
}
extern "C" void sym_main() {
  SingleInstance<AVEncoderFactory>::get_instance().reg(std::make_shared<FFmpegAVOutputFormat>());
  run(); balanced();
}
#endif
