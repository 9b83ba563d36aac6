// Edge hosts: viewers make the server pull a stream from its upstream.
#include <sps_stream_handler.hpp>
#include <sps_stream_edge.hpp>
#include <sps_stream_cache.hpp>
#include <sps_avformat_flvdec.hpp>
#include <sps_avformat_flvenc.hpp>
#include <sps_io_url_protocol.hpp>
#include "fakeio.hpp"
#include "co.hpp"
using namespace sps;
static const char* NAMES[3] = {"http://h/live/a.flv?k=v", "http://h/live/b.flv", "http://h/live/a.xyz"};
static const char* KEYS[3] = {"h/live/a", "h/live/b", "h/live/a"};
static uint8_t bytes[2][9 + 24 * TAGS]; static size_t nbytes;
static int pulls[2], opens, fail_kind;
static size_t flv_tag(uint8_t* o, bool key, int name, int i) {
  memset(o, 0, 24);
  o[4] = 9; o[7] = 7; o[10] = i + 1; o[15] = key ? 0x17 : 0x27; o[16] = 1; o[20] = 0x40 + name; o[21] = i;
  return 22;
}
class Resp : public Response { public: bool ok; explicit Resp(bool o) : ok(o) {} bool success() override { return ok; } };
class Upstream : public IURLProtocol {
 public:
  int name = -1; PResponse rsp; size_t at = 0; int fk = 0;
  bool live = false;
  void end() { if (live) { live = false; pulls[name]--; } }
  ~Upstream() override { end(); }
  error_t open(PRequestUrl& u, Transport) override {
    CHECK(u->get_ip() == "10.0.0.1" && u->get_port() == 8080, "the pull goes to the configured upstream");
    std::string url = u->get_url();
    CHECK(url == "/live/a.flv?k=v" || url == "/live/b.flv" || url == "/live/a.xyz", "and asks for the viewer's own path and parameters");
    name = url[6] == 'b';
    pulls[name]++; live = true;
    opens++;
    CHECK(pulls[name] == 1, "one pull per stream, however many viewers");
    fk = fail_kind;
    co_yield();
    if (fk == 1) { end(); return ERROR_HTTP_SOCKET_CONNECT; }
    rsp = std::make_shared<Resp>(fk != 2);
    return SUCCESS;
  }
  PResponse response() override { return rsp; }
  error_t read(void* b, size_t n, size_t& nread) override {
    co_yield();
    if (at == nbytes) { end(); nread = 0; return ERROR_SOCKET_CLOSED; }
    size_t k = n < nbytes - at ? n : nbytes - at;
    if (k > 22) k = 22;
    memcpy(b, bytes[name] + at, k); at += k; nread = k;
    return SUCCESS;
  }
};
class Factory : public IURLProtocolFactory {
 public:
  Factory() : IURLProtocolFactory("http", DEFAULT) {}
  PIURLProtocol create(PRequestUrl) override { return std::make_shared<Upstream>(); }
};
class PlayIO : public FakeIO {
 public:
  PlayIO() : FakeIO(nullptr, 0, 0, ERROR_SOCKET_CLOSED, 600) {}
  error_t write(void* b, size_t n) override { if (nout > 9) co_yield(); return FakeIO::write(b, n); }
};
struct Job { int name; error_t ret; std::shared_ptr<PlayIO> io; };
static Job jobs[4];
static PHostModule host, source;
#ifndef PUB
#define PUB 0
#endif
// a publisher of the same name, accepted by another server block (a source host)
static uint8_t pbytes[9 + 24 * TAGS]; static bool pdone; static error_t pret;
class PubIO : public FakeIO {
 public:
  size_t at = 0; StreamCache::PICacheStream mine;
  PubIO() : FakeIO(nullptr, 0, 0, ERROR_SOCKET_CLOSED, 16) {}
  error_t read(void* b, size_t n, size_t& nread) override {
    auto now = StreamCache::get_streamcache(KEYS[0]);
    CHECK(now, "a stream exists while it is published");
    if (!mine) mine = now;
    CHECK(mine == now, "nobody takes a live stream from its publisher");
    co_yield();
    if (at == nbytes) { nread = 0; return ERROR_SOCKET_CLOSED; }
    size_t k = n < nbytes - at ? n : nbytes - at;
    if (k > 22) k = 22;
    memcpy(b, pbytes + at, k); at += k; nread = k;
    return SUCCESS;
  }
};
static void* publish(void*) {
  PRequestUrl req;
  CHECK(RequestUrl::from(NAMES[0], req) == SUCCESS, "request parses");
  auto ctx = std::make_shared<HostContext>(req);
  ctx->host = source;
  auto io = std::make_shared<PubIO>();
  auto sock = std::make_shared<Socket>(io, "peer", 1);
  IConnection c(sock);
  c.set_context(ctx);
  StreamHandler h(sock, true);
  pret = h.handler(c);
  if (pret == ERROR_HTTP_HAS_SOURCE) { CHECK(io->at == 0, "refused before anything is read"); sym_reach("taken"); }
  else { CHECK(io->at == nbytes, "an accepted publisher is read to its end"); sym_reach("published"); }
  pdone = true;
  return nullptr;
}
static void* run(void* p) {
  Job& j = *(Job*)p;
  PRequestUrl req;
  CHECK(RequestUrl::from(NAMES[j.name], req) == SUCCESS, "request parses");
  auto ctx = std::make_shared<HostContext>(req);
  ctx->host = host;
  auto sock = std::make_shared<Socket>(j.io, "peer", 1);
  IConnection c(sock);
  c.set_context(ctx);
  StreamHandler h(sock, false);
  j.ret = h.handler(c);
  FakeIO& io = *j.io;
  CHECK(j.ret != SUCCESS, "a viewer's session ends with a reason");
  if (j.name == 2) { CHECK(io.nout == 0, "an unknown format is refused"); sym_reach("unknown"); }
  if (io.nout == 0) { sym_reach("refused"); return nullptr; }
  CHECK(PUB || fail_kind == 0, "nothing is served when the upstream fails");
  CHECK(j.ret == ERROR_SOCKET_TIMEOUT, "a viewer is served until the stream dries up");
  int last = -1, from = -1; size_t at = 9;
  while (at < io.nout) {
    CHECK(at + 22 <= io.nout && io.out[at + 4] == 9 && (io.out[at + 20] == 0x40 + (j.name == 1) || (PUB && io.out[at + 20] == 0x42)), "a viewer only sees the stream it asked for");
    CHECK(from < 0 || from == io.out[at + 20], "from one publisher");
    from = io.out[at + 20];
    CHECK(from == 0x42 || fail_kind == 0, "nothing is served when the upstream fails");
    int i = io.out[at + 21];
    CHECK(last < 0 || i == last + 1, "consecutive packets, none lost, none twice");
    last = i; at += 22;
  }
  if (last >= 0) { CHECK(last == TAGS - 1, "everything up to the last packet"); sym_reach("played"); }
  return nullptr;
}
extern "C" void sym_main() {
  SingleInstance<AVDemuxerFactory>::get_instance().reg(std::make_shared<FlvAVInputFormat>());
  SingleInstance<AVEncoderFactory>::get_instance().reg(std::make_shared<FlvAVOutputFormat>());
  SingleInstance<UrlProtocol>::get_instance().reg(std::make_shared<Factory>());
  auto conf = std::make_shared<HostConfCtx>();
  host = std::make_shared<HostModule>("host", "h", nullptr);
  host->conf = conf;
  conf->role = "edge"; conf->pass_proxy = "10.0.0.1:8080";
  for (int n = 0; n < 2; n++) {
    memcpy(bytes[n], "FLV\1\5\0\0\0\11", 9); nbytes = 9;
    for (int i = 0; i < TAGS; i++) nbytes += flv_tag(bytes[n] + nbytes, i == 0, n, i);
  }
  if (PUB) {
    auto sc = std::make_shared<HostConfCtx>();
    source = std::make_shared<HostModule>("host", "h", nullptr);
    source->conf = sc;
    sc->role = "source"; sc->edge_avformat = "all";
    memcpy(pbytes, "FLV\1\5\0\0\0\11", 9);
    for (int i = 0, at = 9; i < TAGS; i++) at += flv_tag(pbytes + at, i == 0, 2, i);
  }
  fail_kind = PUB ? sym_choose(0, 1, "upstream") : sym_choose(0, 2, "upstream");
  co_switches = SWITCHES;
  for (int k = 0; k < JOBS; k++) {
    jobs[k].name = SAME ? 0 : k == 0 ? sym_choose(0, 1, "first") * 2 : sym_choose(0, 2, "name");
    jobs[k].io = std::make_shared<PlayIO>();
    co_spawn(run, &jobs[k]);
  }
  if (PUB) co_spawn(publish, nullptr);
  co_join();
  if (fail_kind && !PUB) CHECK(co_expired == 0, "viewers are refused as soon as the upstream fails");
  CHECK(!PUB || pdone, "the publisher's session ends");
  CHECK(PUB || opens > 0, "the upstream was asked");
  CHECK(!StreamCache::get_streamcache(KEYS[0]) && !StreamCache::get_streamcache(KEYS[1]), "nothing is left when all are done");
  CHECK(pulls[0] == 0 && pulls[1] == 0, "every pull is closed");
  if (PUB) return;
  // whatever happened before, a later viewer starts a new pull and is served from it
  fail_kind = 0; opens = 0; co_switches = 0; co_expired = 0;
  Job& j = jobs[3];
  j.name = SAME ? 0 : jobs[JOBS - 1].name & 1;
  j.io = std::make_shared<PlayIO>();
  co_spawn(run, &j);
  co_join();
  CHECK(opens == 1 && co_expired <= 1, "a later viewer starts a new pull");
  sym_reach("again");
}
