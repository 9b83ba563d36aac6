// HTTP bodies as seen by the reader: of a request (SERVER=1, HttpRequestSocket) or of
// a response to the server's own request (SERVER=0, the http client over a TCP socket).
#include <sps_http_socket.hpp>
#include <sps_io_url_http.hpp>
#include "fakenet.hpp"
using namespace sps;
#ifndef BUFSZ
#define BUFSZ 400
#endif
static uint8_t s[BUFSZ]; static size_t n;
static void put(const char* t) { size_t k = strlen(t); memcpy(s + n, t, k); n += k; }
static PSocket conn; static FakeIO* wire; static size_t head;
// a reader positioned at the start of the body
static void connect(bool chunked, int64_t cl, int splits, error_t end) {
#if SERVER
  auto io = std::make_shared<FakeIO>(s, n, splits, end, 16);
  wire = io.get();
  conn = std::make_shared<HttpRequestSocket>(io, "1.2.3.4", 5, chunked, cl);
#else
  uint8_t* t = new uint8_t[sizeof s + 200]; size_t m = 0;
  std::string h("HTTP/1.1 200 OK\r\n");
  if (chunked) h += "Transfer-Encoding: chunked\r\n"; else if (cl >= 0) h += "Content-Length: " + std::to_string(cl) + "\r\n";
  h += "\r\n";
  memcpy(t, h.data(), h.size()); memcpy(t + h.size(), s, n); head = h.size();
  wire = new FakeIO(t, head + n, 0, end, 400);
  net_out[net_outs++] = wire;
  PRequestUrl u;
  CHECK(RequestUrl::from("http://10.0.0.7:81/x/y.flv?a=b", u) == SUCCESS, "url");
  auto c = std::make_shared<HttpUrlProtocol>();
  CHECK(c->open(u, DEFAULT) == SUCCESS, "the response is accepted");
  wire->choices = splits;
  auto r = std::dynamic_pointer_cast<HttpResponse>(c->response());
  CHECK(r && r->success() && r->chunked == chunked && (chunked || r->content_length == cl), "response head");
  CHECK(net_dials == 1 && net_ip[0] == 0x0700000a && net_port[0] == 81, "the server's own address is dialled");
  conn = c;
#endif
}
static size_t used() { return wire->at - head; }
// read to the end with requests of a chosen size; returns the error that ended it
#ifndef GOTSZ
#define GOTSZ 200
#endif
static uint8_t got[GOTSZ]; static size_t ngot;
static error_t drain(size_t step) {
  for (int i = 0; i < 60 + GOTSZ / 1000; i++) {
    static uint8_t b[GOTSZ]; size_t k = 0;
    memset(b, 0x5a, sizeof b);
    error_t e = conn->read(b, step, k);
    if (e != SUCCESS) return e;
    CHECK(k <= step && b[k] == 0x5a, "no more than asked for"); if (k > step) return -1;
    CHECK(ngot + k <= sizeof got, "no more than was sent"); if (ngot + k > sizeof got) return -1;
    memcpy(got + ngot, b, k); ngot += k;
  }
  CHECK(false, "reading ends");
  return -2;
}
extern "C" void sym_main() {
#if MODE == 0  // length-delimited
  unsigned len = sym_choose(0, N, "len"), have = sym_choose(0, N + 2, "have");
  sym_make(s, have, "body"); n = have;
  bool unbounded = sym_choose(0, 1, "unbounded");
  error_t end = sym_choose(0, 1, "end") ? ERROR_SOCKET_TIMEOUT : ERROR_SOCKET_CLOSED;
  connect(false, unbounded ? -1 : len, SPLITS, end);
  error_t e = drain(sym_choose(1, N + 1, "step"));
  size_t want = unbounded ? have : have < len ? have : len;
  CHECK(ngot == want && !memcmp(got, s, want), "the body's bytes, all of them, in order");
  if (!unbounded && have >= len) {
    CHECK(e == ERROR_HTTP_RES_EOF, "the end of the body is reported as such");
    CHECK(used() == len, "not a byte beyond the body is consumed");
    uint8_t b[4]; size_t k = 0;
    CHECK(conn->read(b, 4, k) == ERROR_HTTP_RES_EOF && used() == len, "and stays the end");
    sym_reach("complete");
  } else { CHECK(e == end, "a body cut short ends in the transport's error, not in a clean end"); sym_reach(unbounded ? "unbounded" : "cut"); }
#elif MODE == 1  // lengths that do not fit an int
  int64_t cl = (int64_t)sym_choose(1, 5, "hi") * 0x40000000ll * 2 + sym_choose(0, 3, "lo");
  sym_make(s, 8, "body"); n = 8;
  connect(false, cl, 0, ERROR_SOCKET_CLOSED);
  error_t e = drain(4);
  CHECK(ngot == 8 && !memcmp(got, s, 8) && e == ERROR_SOCKET_CLOSED, "a large body is not cut short");
  sym_reach("large");
#elif MODE == 2  // well-formed chunks
  static uint8_t body[64]; size_t nb = 0;
  for (unsigned c = sym_choose(0, CHUNKS, "chunks"); c--;) {
    static const unsigned K[] = {1, 3, 10, 10, 15, 15, 17, 28, 3, 12}, F[] = {0, 1, 0, 2, 2, 0, 3, 2, 3, 1};
    unsigned kf = sym_choose(0, 9, "size"), k = K[kf], f = F[kf];
    if (f == 1) put("0");
    s[n] = 0;
    if (k >= 16) put("1");
    s[n++] = k % 16 < 10 ? '0' + k % 16 : (f == 2 ? 'A' : 'a') + k % 16 - 10;
    if (f == 3) put(sym_choose(0, 1, "blank") ? " ;x" : ";x=\"1\"");
    put("\r\n");
    sym_make(s + n, k, "data"); memcpy(body + nb, s + n, k); nb += k; n += k;
    put("\r\n");
  }
  put("0\r\n\r\n");
  size_t e = n;
  put("NEXT");
  unsigned cut = sym_choose(0, 1, "cut") ? sym_choose(1, 9, "cutlen") : 0;
  if (cut > e) return;
  if (cut) n = e - cut;
  connect(true, -1, SPLITS, ERROR_SOCKET_CLOSED);
  if (!cut) wire->split(head);
  error_t r = drain(sym_choose(0, 2, "step") * 8 + 1);
  CHECK(ngot <= nb && !memcmp(got, body, ngot), "the chunks' bytes in order");
  if (!cut) {
    CHECK(r == ERROR_HTTP_RES_EOF && ngot == nb, "all of them, then a clean end");
    CHECK(used() == e, "not a byte beyond the body is consumed");
    sym_reach("complete");
  } else { CHECK(r != ERROR_HTTP_RES_EOF, "a body cut short does not end cleanly"); sym_reach("cut"); }
#elif MODE == 3  // any bytes in place of the chunks
  if (sym_choose(0, 1, "prefix")) put("2\r\nab\r\n");
  if (unsigned z = sym_choose(0, 3, "run")) put(z == 1 ? "00000000000000" : z == 2 ? "FFFFFFFFFFFFFF" : "1000000000000000");
  unsigned len = sym_choose(1, N, "len");
  sym_make(s + n, len, "bytes");
  // every byte is one of four hex digits or any byte that is none
  for (unsigned i = 0; i < len; i++) {
    unsigned k = sym_choose(0, 4, "class"); uint8_t c = s[n + i];
    if (k < 4) { sym_assume(c == "02aF"[k]); s[n + i] = "02aF"[k]; }
    else sym_assume(!(((c >= '0') & (c <= '9')) | ((c >= 'a') & (c <= 'f')) | ((c >= 'A') & (c <= 'F'))));
  }
  n += len;
  if (sym_choose(0, 1, "suffix")) put("\r\n0\r\n\r\n");
  connect(true, -1, 0, ERROR_SOCKET_CLOSED);
  error_t r = drain(100);
  // the chunked coding, written down independently
  size_t at = 0, no = 0; uint8_t out[sizeof s]; bool done = false;
  for (;;) {
    size_t v = 0, i = at, d = 0; 
    for (; i < n; i++, d++) { uint8_t c = s[i]; int h = (c >= '0') & (c <= '9') ? c - '0' : (c >= 'a') & (c <= 'f') ? c - 'a' + 10 : (c >= 'A') & (c <= 'F') ? c - 'A' + 10 : -1; if (h < 0) break; if (v < 1000) v = v * 16 + h; }
    if (!d) break;
    while (i < n && (s[i] == ' ' || s[i] == '\t')) i++;
    if (i < n && s[i] == ';') { while (i < n && s[i] != '\n') i++; if (i >= n || s[i] != '\n' || s[i - 1] != '\r') break; i--; }
    if (i + 2 > n || s[i] != '\r' || s[i + 1] != '\n') break;
    i += 2;
    size_t k = v < n - i ? v : n - i;
    memcpy(out + no, s + i, k); no += k; i += k;
    if (k < v || i + 2 > n || s[i] != '\r' || s[i + 1] != '\n') break;
    at = i + 2;
    if (v == 0) { done = true; break; }
  }
  CHECK((r == ERROR_HTTP_RES_EOF) == done, "a body ends cleanly exactly when its last chunk arrived well-formed");
  CHECK(ngot <= no && !memcmp(got, out, ngot), "only chunk data is delivered");
  if (done) { CHECK(ngot == no && used() == at, "all of it, and nothing beyond is consumed"); sym_reach("end"); } else sym_reach("bad");
#elif MODE == 5  // chunk lines of any length: never a wrong body
  unsigned len = 28 + sym_choose(0, 12, "len"), first = sym_choose(0, 1, "first"), zeros = sym_choose(0, 1, "zeros");
  if (first) put("2\r\nab\r\n");
  size_t at = n;
  if (zeros) { for (unsigned i = 1; i < len; i++) put("0"); put("3"); } else { put("3;"); for (unsigned i = 2; i < len; i++) put("x"); }
  CHECK(n - at == len, "harness");
  put("\r\n"); sym_make(s + n, 3, "data"); const uint8_t* d = s + n; n += 3; put("\r\n0\r\n\r\n"); size_t e = n; put("NEXT");
  connect(true, -1, 0, ERROR_SOCKET_CLOSED);
  error_t r = drain(7);
  CHECK(ngot >= first * 2 && !memcmp(got, "ab", first * 2), "what came before");
  if (r == ERROR_HTTP_RES_EOF) { CHECK(ngot == first * 2 + 3 && !memcmp(got + first * 2, d, 3) && used() == e, "a clean end only after the whole body"); sym_reach("whole"); }
  else { CHECK(ngot <= first * 2 + 3 && !memcmp(got + first * 2, d, ngot - first * 2), "nothing but the body's bytes"); sym_reach("refused"); }
#elif MODE == 7  // large bodies and chunks
  static const unsigned K[] = {0xff, 0x100, 0xabc, 0xfff, 0x1000, 0xffff, 0x10000, 0x1ab2f};
  static const char* F[] = {"%x", "%X", "0%x", "%08X", "%x;name=value"};
  static uint8_t body[0x1ab40]; size_t nb; bool chunked = sym_choose(0, 1, "chunked");
  unsigned k = K[sym_choose(0, 7, "size")]; for (unsigned i = 0; i < k; i++) body[i] = i * 7 + (i >> 8);
  sym_make(body, 1, "first"); sym_make(body + k - 1, 1, "last"); nb = k;
  if (chunked) { char l[64]; snprintf(l, sizeof l, F[sym_choose(0, 4, "form")], k); put(l); put("\r\n"); }
  memcpy(s + n, body, k); n += k;
  if (chunked) { put("\r\n1\r\n!\r\n0\r\n\r\n"); body[nb++] = '!'; }
  size_t e = n; unsigned cut = sym_choose(0, 1, "cut") * 12; if (cut) n -= cut; else put("NEXT");
  connect(chunked, chunked ? -1 : (int64_t)k, 0, ERROR_SOCKET_CLOSED);
  static const unsigned ST[] = {4000, 4096, 0x10000, 0x1fff0};
  error_t r = drain(ST[sym_choose(0, 3, "step")]);
  CHECK(ngot <= nb && !memcmp(got, body, ngot), "the body's bytes in order");
  if (!cut) { CHECK(r == ERROR_HTTP_RES_EOF && ngot == nb, "all of them, then a clean end"); CHECK(used() == e, "not a byte beyond the body is consumed"); sym_reach("complete"); }
  else { CHECK(r != ERROR_HTTP_RES_EOF, "a body cut short does not end cleanly"); sym_reach("cut"); }
#elif MODE == 6  // answers without a body have none, whatever their heads say
  static const int ST[] = {200, 100, 101, 199, 204, 304, 205, 404, 206, 300}; static const char* ME[] = {"GET", "HEAD", "POST"};
  unsigned st = ST[sym_choose(0, 9, "status")], me = sym_choose(0, 2, "method"), fr = sym_choose(0, 2, "framing");
  std::string h = "HTTP/1.1 " + std::to_string(st) + " X\r\n" + (fr == 0 ? "" : fr == 1 ? "Content-Length: 3\r\n" : "Transfer-Encoding: chunked\r\n") + "\r\n";
  put(h.c_str()); head = n;
  if (fr == 2) put("3\r\n"); const uint8_t* d = s + n; sym_make(s + n, 3, "data"); n += 3; if (fr == 2) put("\r\n0\r\n\r\n");
  wire = new FakeIO(s, n, 0, ERROR_SOCKET_CLOSED, 400); net_out[net_outs++] = wire;
  PRequestUrl u; CHECK(RequestUrl::from("http://10.0.0.7:81/x", u) == SUCCESS, "url"); u->method = ME[me];
  auto c = std::make_shared<HttpUrlProtocol>(); CHECK(c->open(u, DEFAULT) == SUCCESS, "the answer is accepted");
  auto rs = std::dynamic_pointer_cast<HttpResponse>(c->response()); CHECK(rs && rs->error() == std::to_string(st) && rs->success() == (st == 200), "its status is reported");
  std::string req((char*)wire->out, wire->nout); CHECK(req.compare(0, strlen(ME[me]) + 14, std::string(ME[me]) + " /x HTTP/1.1\r\n") == 0, "the request");
  conn = c; error_t r = drain(2);
  if (me == 1 || st < 200 || st == 204 || st == 304) { CHECK(r == ERROR_HTTP_RES_EOF && ngot == 0 && used() == 0, "no body is read"); sym_reach("none"); }
  else { CHECK(ngot == 3 && !memcmp(got, d, 3) && r == (fr == 0 ? (error_t)ERROR_SOCKET_CLOSED : (error_t)ERROR_HTTP_RES_EOF), "the body is read"); sym_reach("body"); }
#elif MODE == 4  // the client: requests sent and heads received
  unsigned kind = sym_choose(0, 4, "answer");
  static const char* A[5] = {"HTTP/1.1 404 Not Found\r\nContent-Length: 0\r\n\r\n", "garbage\r\n\r\n", "HTTP/1.1 200 OK\r\nX: y\r\n", "", "HTTP/1.1 200 OK\r\n:\r\n\r\n"};
  put(A[kind]);
  wire = new FakeIO(s, n, 0, sym_choose(0, 1, "end") ? ERROR_SOCKET_TIMEOUT : ERROR_SOCKET_CLOSED, 400);
  net_out[net_outs++] = wire;
  net_refuse = sym_choose(0, 1, "refuse");
  if (sym_choose(0, 1, "wfail")) { wire->fail_at = 0; wire->fail_err = ERROR_SOCKET_WRITE; }
  PRequestUrl u;
  CHECK(RequestUrl::from("http://h.example/x/y.flv?a=b", u) == SUCCESS, "url");
  u->set_ip_port("10.0.0.7", 81);
  std::string k("X-"), v; k += (char)('a' + sym_range(0, 25, "k")); v += (char)('a' + sym_range(0, 25, "v"));
  u->headers.push_back(RequestHeader(k, v));
  u->headers.push_back(RequestHeader(sym_choose(0, 1, "hostcase") ? "Host" : "host", "other"));
  auto c = std::make_shared<HttpUrlProtocol>();
  error_t e = c->open(u, DEFAULT);
  CHECK(net_refuse || (net_ip[0] == 0x0700000a && net_port[0] == 81), "the given address is dialled");
  if (net_refuse || wire->fail_at == 0 || kind != 0) { CHECK(e != SUCCESS, "a failed request is an error"); sym_reach("failed"); if (net_refuse) { CHECK(net_closed == 1, "nothing is leaked"); return; } }
  else { CHECK(e == SUCCESS && c->response() && !c->response()->success() && c->response()->error() == "404", "the answer's status is reported"); sym_reach("status"); }
  if (wire->fail_at == 0) return;
  std::string want = "GET /x/y.flv?a=b HTTP/1.1\r\nHost: h.example\r\n" + k + ": " + v + "\r\n";
  std::string req((char*)wire->out, wire->nout);
  CHECK(req.compare(0, want.size(), want) == 0, "the request line, the host and the caller's headers are sent");
  CHECK(req.size() > 4 && req.compare(req.size() - 4, 4, "\r\n\r\n") == 0 && req.find("\r\n\r\n") == req.size() - 4, "one complete head");
  CHECK(req.find("Accept: */*\r\n") != std::string::npos && req.find("Content-Length: 0\r\n") != std::string::npos && req.find("other") == std::string::npos, "own headers");
  c.reset();
  CHECK(net_closed == 1, "the connection is closed when done");
#endif
}
