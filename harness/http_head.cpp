// HTTP heads: framing and parsing.
#include <sps_http_parser.hpp>
#include "fakeio.hpp"
using namespace sps;
static uint8_t s[2300]; static size_t n;
static void put(const char* t) { size_t k = strlen(t); memcpy(s + n, t, k); n += k; }
// where the head ends: behind its first empty line
static size_t head_end(size_t from) {
  for (size_t i = from; i + 4 <= n; i++) if (s[i] == '\r' && s[i + 1] == '\n' && s[i + 2] == '\r' && s[i + 3] == '\n') return i + 4;
  return 0;
}
static char token(const char* nm) { char c = sym_u8(nm); sym_assume((c >= 'a') & (c <= 'z') | (c >= 'A') & (c <= 'Z') | (c >= '0') & (c <= '9') | (c == '-')); return c; }
static char printable(const char* nm, bool edge) { char c = sym_u8(nm); sym_assume((c > ' ') & (c != 127) | !edge & (c == ' ')); return c; }
struct Hd { std::string k, v; };
static bool same(const std::string& a, const char* b) {
  if (a.size() != strlen(b)) return false;
  for (size_t i = 0; i < a.size(); i++) { char x = a[i], y = b[i]; x = x >= 'A' && x <= 'Z' ? x + 32 : x; y = y >= 'A' && y <= 'Z' ? y + 32 : y; if (x != y) return false; }
  return true;
}
static std::list<Hd> hs;
static void header(const std::string& k, const std::string& v) { hs.push_back(Hd{k, v}); put(k.c_str()); put(": "); memcpy(s + n, v.data(), v.size()); n += v.size(); put("\r\n"); }
static void some_headers(int max) {
  for (unsigned m = sym_choose(0, max, "headers"); m--;) {
    std::string k("X-"), v;
    k += token("name");
    for (unsigned i = 0, l = sym_choose(1, VAL, "vallen"); i < l; i++) v += printable("val", i == 0 || i + 1 == l);
    header(k, v);
  }
}
static void check_headers(std::list<RequestHeader>& got) {
  CHECK(got.size() == hs.size(), "every header is kept");
  auto a = got.begin();
  for (auto& h : hs) { if (a == got.end()) break; CHECK(a->key == h.k && a->value == h.v, "headers keep their order, names and values"); ++a; }
}
extern "C" void sym_main() {
#if MODE == 0  // framing of any byte stream
  unsigned pre = sym_choose(0, 2, "prefix");
  if (pre) put(pre == 1 ? "GET / HTTP/1.1" : "GET / HTTP/1.1\r\na:");
  size_t from = n;
  unsigned L = sym_choose(0, N, "len");
  sym_make(s + n, L, "bytes");
  n += L;
  // (the parser library's tolerance of bare CR and LF is outside: its model has none)
  for (size_t i = from; pre && i < n; i++) sym_assume((s[i] != '\n') | (i > 0 && s[i - 1] == '\r')), sym_assume((s[i] != '\r') | (i + 1 == n || s[i + 1] == '\n'));
  if (!pre && L) sym_assume((s[0] >= 'a') & (s[0] <= 'z'));
  size_t e = head_end(0);
  if (e && !pre) { /* garbage, but framed */ }
  auto io = std::make_shared<FakeIO>(s, n, 0, ERROR_SOCKET_CLOSED);
  io->max_read = sym_choose(0, 1, "slow") ? 1 : 64;
  HttpParser p;
  int r = p.parse_header(io, HttpType::REQUEST);
  sym_observe("ret", r);
  if (!e) { CHECK(r < 0, "an incomplete head is not a request"); sym_reach("incomplete"); return; }
  CHECK(io->at == e, "a head is read up to its empty line, not a byte more or less");
  if (!pre) CHECK(r < 0, "garbage is refused");
  if (r < 0) { sym_reach("malformed"); return; }
  CHECK(r == (int)e && p.get_request(), "a well-formed head is a request");
  sym_reach("head");
#elif MODE == 1  // a request
  static const char* M[5] = {"GET", "POST", "PUT", "HEAD", "OPTIONS"};
  unsigned m = sym_choose(0, 4, "method");
  put(M[m]); put(" ");
  bool abs = sym_choose(0, 1, "absolute");  // the target names scheme and host as well
  std::string host("h"); host += token("host");
  sym_assume(host[1] != '-');
  unsigned port = 80; std::string hv = host;
  if (sym_choose(0, 1, "hasport")) { hv += ":8080"; port = 8080; }
  if (abs) { put("http://"); memcpy(s + n, hv.data(), hv.size()); n += hv.size(); }
  size_t t0 = n;
  put("/");
  for (unsigned k = sym_choose(0, 2, "pathlen"); k--;) { char c = sym_u8("path"); sym_assume((c >= 'a') & (c <= 'z') | (c == '/') | (c == '.') | (c == '-') | (c == '_')); s[n++] = c; }
  size_t t1 = n;
  bool q = sym_choose(0, 1, "query");
  if (q) { put("?k="); s[n] = token("v"); n++; }
  std::string path((char*)s + t0, t1 - t0), target((char*)s + t0, n - t0);
  put(" HTTP/1."); s[n++] = '0' + sym_choose(0, 1, "minor"); put("\r\n");
  unsigned hostat = sym_choose(0, 2, "hostat");
  bool hostlast = hostat == 1;
  const char* HN = hostat == 2 ? "host" : "Host";
  if (!hostlast) header(HN, hv);
  some_headers(HDRS);
  unsigned body = sym_choose(0, 3, "body"); int64_t cl = -1;
  if (body == 1) { cl = 0; std::string v; for (unsigned k = sym_choose(1, 2, "cllen"); k--;) { char c = sym_u8("cl"); sym_assume((c >= '0') & (c <= '9')); v += c; cl = cl * 10 + (c - '0'); } header("Content-Length", v); }
  if (body == 2) { cl = 5000000000ll; header("content-length", "5000000000"); }
  if (body == 3) {
    static const char* TE[] = {"chunked", "Chunked", "gzip, chunked", "gzip,CHUNKED"};
    unsigned te = sym_choose(0, 4, "coding");
    if (te == 4) { header("Transfer-Encoding", "gzip"); te = 0; }  // in two headers
    header(te & 1 ? "transfer-encoding" : "Transfer-Encoding", TE[te]);
  }
  if (hostlast) header(HN, hv);
  put("\r\n");
  size_t e = n;
  put("GARBAGE");
  auto io = std::make_shared<FakeIO>(s, n, 0, ERROR_SOCKET_CLOSED);
  HttpParser p;
  int r = p.parse_header(io, HttpType::REQUEST);
  CHECK(r == (int)e && io->at == e, "the head is accepted and exactly it is consumed");
  auto req = p.get_request();
  CHECK(req, "a request"); if (!req) return;
  CHECK(req->method == M[m], "method");
  CHECK(req->host == host, "host");
  CHECK(req->get_port() == (int)port, "port");
  CHECK(req->path == path, "path");
  CHECK(req->url == target, "target");
  CHECK(req->get_content_length() == cl, "body length");
  CHECK(req->is_chunked() == (body == 3), "chunked body");
  check_headers(req->headers);
  for (auto& h : hs) { std::string first; for (auto& g : hs) if (same(g.k, h.k.c_str())) { first = g.v; break; } CHECK(req->get_header(h.k) == first, "headers can be looked up"); }
  CHECK(req->get_header("x-") == "" && req->get_header("") == "", "an absent header is absent");
  sym_reach("request");
#elif MODE == 2  // a response
  put("HTTP/1.1 ");
  unsigned st = 0;
  for (int i = 0; i < 3; i++) { char c = sym_u8("status"); sym_assume((c >= '0') & (c <= '9')); sym_assume((i > 0) | (c >= '2')); s[n++] = c; st = st * 10 + (c - '0'); }
  put(sym_choose(0, 1, "reason") ? " Some Reason\r\n" : "\r\n");
  some_headers(HDRS);
  unsigned body = sym_choose(0, 4, "body"); int64_t cl = -1;
  if (body == 4) header("Transfer-Encoding", sym_choose(0, 1, "coding") ? "gzip" : "chunked, gzip");  // ends with the connection
  if (body == 1) { cl = 0; std::string v; for (unsigned k = sym_choose(1, 2, "cllen"); k--;) { char c = sym_u8("cl"); sym_assume((c >= '0') & (c <= '9')); v += c; cl = cl * 10 + (c - '0'); } header("Content-Length", v); }
  if (body == 2) { cl = 4294967301ll; header("content-Length", "4294967301"); }
  if (body == 3) header(sym_choose(0, 1, "techase") ? "transfer-encoding" : "Transfer-Encoding", sym_choose(0, 1, "coding") ? "gzip, chunked" : "chunked");
  put("\r\n");
  size_t e = n;
  put("GARBAGE");
  auto io = std::make_shared<FakeIO>(s, n, 0, ERROR_SOCKET_CLOSED);
  HttpParser p;
  int r = p.parse_header(io, HttpType::RESPONSE);
  CHECK(r == (int)e && io->at == e, "the head is accepted and exactly it is consumed");
  auto res = p.get_response();
  CHECK(res, "a response"); if (!res) return;
  CHECK(res->status_code == (int)st, "status");
  CHECK(res->success() == (st == 200), "success is 200");
  CHECK(res->chunked == (body == 3), "chunked body");
  CHECK(body == 3 || res->content_length == cl, "body length");
  check_headers(res->headers);
  sym_reach("response");
#elif MODE == 4  // many headers, long targets, long values
  static const unsigned LEN[] = {0, 63, 64, 127, 128, 255, 256, 1000}, MANY[] = {0, 1, 15, 16, 31, 32, 33, 64};
  bool rsp = sym_choose(0, 1, "response"); unsigned tl = LEN[rsp ? 0 : sym_choose(0, 7, "target")], vl = LEN[tl > 300 ? 0 : sym_choose(0, 7, "value")], many = MANY[tl + vl > 700 ? sym_choose(0, 4, "many") : sym_choose(0, 7, "many")];
  std::string t = "/" + std::string(tl, 't') + token("t");
  if (rsp) put("HTTP/1.1 200 OK\r\n"); else { put("GET "); put(t.c_str()); put(" HTTP/1.1\r\n"); header("Host", "h"); }
  for (unsigned i = 0; i < many; i++) header("X-" + std::to_string(i), i == many / 2 ? std::string(vl, 'v') + printable("v", true) : "w" + std::to_string(i * 3));
  if (many) header("X-0", "again");
  put("\r\n");
  size_t e = n; CHECK(e < 2048, "harness");
  put("GARBAGE");
  auto io = std::make_shared<FakeIO>(s, n, 0, ERROR_SOCKET_CLOSED);
  HttpParser p;
  int r = p.parse_header(io, rsp ? HttpType::RESPONSE : HttpType::REQUEST);
  CHECK(r == (int)e && io->at == e, "the head is accepted and exactly it is consumed");
  if (rsp) { auto res = p.get_response(); CHECK(res, "a response"); if (!res) return; check_headers(res->headers); sym_reach("response"); return; }
  auto req = p.get_request(); CHECK(req, "a request"); if (!req) return;
  CHECK(req->path == t && req->url == t && req->host == "h", "target and host");
  check_headers(req->headers);
  for (auto& h : hs) { std::string first; for (auto& g : hs) if (g.k == h.k) { first = g.v; break; } CHECK(req->get_header(h.k) == first, "headers can be looked up, the first of equal names"); }
  sym_reach("request");
#elif MODE == 3  // long heads
  unsigned extra = sym_choose(0, 24, "extra");
  put("GET / HTTP/1.1\r\nHost: h\r\nX: ");
  size_t len = LIMITHEAD - 12 + extra;
  while (n < len - 4) s[n++] = 'v';
  s[n - 1] = printable("v", true);
  put("\r\n\r\n");
  size_t e = n;
  put("GARBAGE");
  auto io = std::make_shared<FakeIO>(s, n, 0, ERROR_SOCKET_CLOSED);
  HttpParser p(LIMITHEAD);
  int r = p.parse_header(io, HttpType::REQUEST);
  CHECK((r > 0) == (e <= LIMITHEAD), "heads up to the limit are accepted, longer ones are refused");
  if (r > 0) { CHECK(io->at == e && p.get_request()->get_header("X").size() == e - 32, "and complete"); sym_reach("fits"); } else sym_reach("long");
#endif
}
