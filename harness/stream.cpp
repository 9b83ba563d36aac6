// Publishing and playing through the stream handlers, as cooperating coroutines.
#include <sps_stream_handler.hpp>
#include <sps_stream.hpp>
#include <sps_stream_cache.hpp>
#include <sps_avformat_flvdec.hpp>
#include <sps_avformat_flvenc.hpp>
#include "fakeio.hpp"
#include "co.hpp"
using namespace sps;
static const char* PAIRS[][4] = {{"http://h/live/a.flv", "h/live/a", "http://h/live/b.flv", "h/live/b"},
  {"http://h/live/a.b.flv", "h/live/a.b", "http://h/live/a.c.flv", "h/live/a.c"}, {"http://h/v.1/a.flv", "h/v.1/a", "http://h/v.2/a.flv", "h/v.2/a"},
  {"http://h/live/a.flv", "h/live/a", "http://g/live/a.flv", "g/live/a"}, {"http://h/live/a.flv", "h/live/a", "http://h/live/aa.flv", "h/live/aa"},
  {"http://h/a/b.flv", "h/a/b", "http://h/b.flv", "h/b"}};
static const char* NAMES[2]; static const char* KEYS[2];
#ifndef NPAIRS
#define NPAIRS 1
#endif
#ifndef BREAKS
#define BREAKS 0
#endif
static int owner[2] = {-1, -1};  // the publisher feeding each name
static void flv_head(uint8_t* o) { memcpy(o, "FLV\1\5\0\0\0\11", 9); }
// a tag: key frame (k==0), inter frame or audio, whose payload names publisher and position
static size_t flv_tag(uint8_t* o, int k, int who, int i) {
  memset(o, 0, 24);
  int h = k == 2 ? 2 : 5;
  o[4] = k == 2 ? 8 : 9; o[7] = h + 2; o[10] = i + 1;
  o[15] = k == 0 ? 0x17 : k == 1 ? 0x27 : 0xaf; o[16] = 1;
  o[15 + h] = 0x40 + who; o[16 + h] = i;
  return 17 + h;
}
class PubIO : public FakeIO {
 public:
  int who, name; bool fed = false;
  PubIO(const uint8_t* d, size_t n, int w, int nm) : FakeIO(d, n, 0, ERROR_SOCKET_CLOSED, 64), who(w), name(nm) {}
  error_t read(void* b, size_t n, size_t& nread) override {
    CHECK(owner[name] == -1 || owner[name] == who, "one publisher feeds a name at a time");
    owner[name] = who; fed = true;
    CHECK(StreamCache::get_streamcache(KEYS[name]) != nullptr, "a stream being published can be found");
    co_yield();
    CHECK(owner[name] == who, "a second publisher does not displace the first");
    CHECK(StreamCache::get_streamcache(KEYS[name]) != nullptr, "a stream being published stays available");
    return FakeIO::read(b, n, nread);
  }
};
class PlayIO : public FakeIO {
 public:
  PlayIO() : FakeIO(nullptr, 0, 0, ERROR_SOCKET_CLOSED, 600) {}
  error_t write(void* b, size_t n) override { if (nout > 9) co_yield(); return FakeIO::write(b, n); }
};
struct Job { int kind, who, name; bool busy, exists; error_t ret; std::shared_ptr<FakeIO> io; uint8_t bytes[9 + 24 * 4]; size_t n; };
static Job jobs[4];
static PHostModule host;
static void* run(void* p) {
  Job& j = *(Job*)p;
  PRequestUrl req;
  CHECK(RequestUrl::from(NAMES[j.name], req) == SUCCESS, "request parses");
  auto ctx = std::make_shared<HostContext>(req);
  ctx->host = host;
  auto sock = std::make_shared<Socket>(j.io, "peer", 1);
  IConnection c(sock);
  c.set_context(ctx);
  StreamHandler h(sock, j.kind == 0);
  j.busy = owner[j.name] != -1;
  j.exists = StreamCache::get_streamcache(KEYS[j.name]) != nullptr;
  CHECK(j.busy == j.exists, "a stream exists exactly while somebody publishes it");
  j.ret = h.handler(c);
  if (j.kind == 0) {
    auto* io = (PubIO*)j.io.get();
    if (j.busy) {
      CHECK(j.ret == ERROR_HTTP_HAS_SOURCE && !io->fed, "a second publisher of a live name is refused");
      CHECK(owner[j.name] != -1 && StreamCache::get_streamcache(KEYS[j.name]), "and the first goes on undisturbed");
      sym_reach("refused");
    } else {
      CHECK(io->fed && io->at == io->len && j.ret == ERROR_SOCKET_CLOSED, "the publisher is read to its end");
      CHECK(owner[j.name] == j.who, "still the owner");
      owner[j.name] = -1;
      CHECK(!StreamCache::get_streamcache(KEYS[j.name]), "the name is free again once its publisher is gone");
      sym_reach("published");
    }
  } else {
    FakeIO& io = *j.io;
    if (!j.exists) {
      CHECK(j.ret == ERROR_STREAM_SOURCE_NOT_EXITS && io.nout == 0, "playing an absent stream is refused");
      sym_reach("absent");
    } else {
      bool broke = io.fail_at >= 0 && io.writes > io.fail_at;
      if (broke) { CHECK(io.writes == io.fail_at + 1 && j.ret == io.fail_err, "a viewer whose connection fails is let go at once"); sym_reach("broke"); }
      else CHECK(j.ret == ERROR_SOCKET_TIMEOUT, "a viewer is served until the stream dries up");
      uint8_t hd[9]; flv_head(hd);
      if (io.nout < 9) { CHECK(broke, "a viewer gets a file header first"); return nullptr; }
      CHECK(!memcmp(io.out, hd, 9), "a viewer gets a file header first");
      int who = -1, last = -1; size_t at = 9; int cnt = 0;
      while (at < io.nout) {
        if (broke && at + 15 > io.nout) break;
        CHECK(at + 15 <= io.nout, "whole tags");
        int hl = io.out[at + 4] == 8 ? 2 : 5;
        if (broke && at + 17 + hl > io.nout) break;
        CHECK(io.out[at + 7] == hl + 2 && at + 17 + hl <= io.nout, "whole tags");
        int w = io.out[at + 15 + hl] - 0x40, i = io.out[at + 16 + hl];
        CHECK(who == -1 || who == w, "all packets come from one publisher");
        CHECK(w >= 0 && w < 4 && jobs[w].kind == 0 && jobs[w].name == j.name, "a viewer only sees the stream it asked for");
        if (last >= 0) CHECK(i == last + 1, "consecutive packets, none lost, none twice");
        else if (io.out[at + 4] == 9) CHECK(io.out[at + 15] == 0x17 || true, "");
        who = w; last = i; at += 17 + hl; cnt++;
      }
      if (who >= 0 && !broke) CHECK(last == TAGS - 1, "a viewer gets everything up to the last packet of its publisher");
      if (cnt) sym_reach("played");
    }
  }
  return nullptr;
}
extern "C" void sym_main() {
  SingleInstance<AVDemuxerFactory>::get_instance().reg(std::make_shared<FlvAVInputFormat>());
  SingleInstance<AVEncoderFactory>::get_instance().reg(std::make_shared<FlvAVOutputFormat>());
  auto conf = std::make_shared<HostConfCtx>();
  host = std::make_shared<HostModule>("host", "h", nullptr);
  host->conf = conf;
  const char** pr = PAIRS[NPAIRS > 1 ? sym_choose(0, NPAIRS - 1, "names") : 0];
  for (int i = 0; i < 2; i++) { NAMES[i] = pr[2 * i]; KEYS[i] = pr[2 * i + 1]; }
#if MODE == 0
  conf->role = "source"; conf->edge_avformat = "all";
  co_switches = SWITCHES;
  for (int k = 0; k < JOBS; k++) {
    Job& j = jobs[k];
    j.who = k;
    j.kind = k == 0 ? 0 : sym_choose(0, 1, "kind");
    j.name = k == 0 ? 0 : sym_choose(0, 1, "name");
    if (j.kind == 0) {
      flv_head(j.bytes); j.n = 9;
      for (int i = 0; i < TAGS; i++) j.n += flv_tag(j.bytes + j.n, i == 0 ? 0 : k & 1 ? 2 : 1, k, i);
      j.io = std::make_shared<PubIO>(j.bytes, j.n, k, j.name);
      j.io->max_read = 24;
    } else {
      j.io = std::make_shared<PlayIO>();
      if (BREAKS && k == 1) { j.io->fail_at = sym_choose(0, BREAKS, "fails"); j.io->fail_err = ERROR_SOCKET_CLOSED; }
    }
    co_spawn(run, &j);
  }
  co_join();
  CHECK(!StreamCache::get_streamcache(KEYS[0]) && !StreamCache::get_streamcache(KEYS[1]), "nothing is left when all are done");
#else  // who may publish
  const char* roles[] = {"source", "edge", "", "sourc", "sources"};
  const char* fmts[] = {"all", "flv", "-", "ts", "", "fl"};
  unsigned r = sym_choose(0, 4, "role"), f = sym_choose(0, 5, "format");
  conf->role = roles[r]; conf->edge_avformat = fmts[f];
  flv_head(jobs[0].bytes);
  auto io = std::make_shared<PubIO>(jobs[0].bytes, 9, 0, 0);
  PRequestUrl req;
  CHECK(RequestUrl::from(NAMES[0], req) == SUCCESS, "request parses");
  auto ctx = std::make_shared<HostContext>(req);
  ctx->host = host;
  auto sock = std::make_shared<Socket>(io, "peer", 1);
  IConnection c(sock);
  c.set_context(ctx);
  StreamHandler h(sock, true);
  error_t e = h.handler(c);
  bool may = r == 0 && f <= 1;
  if (may) { CHECK(io->fed && e == ERROR_SOCKET_CLOSED, "an allowed publisher is read"); sym_reach("allowed"); }
  else { CHECK(!io->fed && e == ERROR_STREAM_PUBLISH_NOT_SUPPORT, "publishing is only for source hosts and their configured format"); sym_reach("denied"); }
  CHECK(!StreamCache::get_streamcache(KEYS[0]), "no stream left behind");
#endif
}
