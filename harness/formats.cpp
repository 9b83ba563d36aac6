// Formats by file extension.
#include <sps_avformat_dec.hpp>
#include <sps_avformat_enc.hpp>
#include <sps_avformat_flvdec.hpp>
#include <sps_avformat_flvenc.hpp>
#include <sps_avformat_tsdec.hpp>
#include "fakeio.hpp"
using namespace sps;
extern "C" void sym_main() {
  auto& d = SingleInstance<AVDemuxerFactory>::get_instance(); auto& e = SingleInstance<AVEncoderFactory>::get_instance();
  bool swap = sym_choose(0, 1, "order");
  auto flv = std::make_shared<FlvAVInputFormat>(); auto ts = std::make_shared<TsAVInputFormat>(); auto out = std::make_shared<FlvAVOutputFormat>();
  if (swap) { d.reg(ts); d.reg(flv); } else { d.reg(flv); d.reg(ts); }
  e.reg(out);
  unsigned n = sym_choose(0, NBYTES, "n"); std::string ext;
  for (unsigned i = 0; i < n; i++) { char c = (char)sym_range(0x21, 0x7e, "ext"); sym_assume(c != '?' && c != '/' && c != '.' && c != '#'); ext += c; }
  PRequestUrl u;
  CHECK(RequestUrl::from("http://h/a" + (n ? "." + ext : std::string()) + (sym_choose(0, 1, "q") ? "?x=1.flv" : ""), u) == SUCCESS, "url");
  auto io = std::make_shared<FakeIO>(nullptr, 0, 0, ERROR_SOCKET_CLOSED, 100);
  auto dm = d.create(io, u); auto mx = e.create(io, u);
  const IAVInputFormat* want = ext == "flv" ? (IAVInputFormat*)flv.get() : ext == "ts" ? ts.get() : nullptr;
  CHECK(!!dm == !!want, "a stream can be published exactly in the formats there are");
  if (dm && want) { CHECK(dm->fmt == want, "by its own demuxer"); sym_reach("dec"); }
  CHECK(!!mx == (ext == "flv"), "a stream can be played exactly in the formats there are");
  if (mx) { CHECK(mx->fmt == out.get() && mx->url == u, "by its own muxer"); sym_reach("enc"); }
  if (!want) sym_reach("none");
}
