// URLs: what a request asks for.
#include <sps_io_url.hpp>
#include <vector>
#include <cstring>
#include <sym.hpp>
using namespace sps;
#ifndef ONE
#define ONE 0
#endif
static size_t put(char* o, const char* s) { size_t n = strlen(s); memcpy(o, s, n); return n; }
extern "C" void sym_main() {
  char u[80]; size_t n = 0;
#if MODE == 0  // a well-formed URL is taken apart into its parts
  static const char* SCH[4] = {"http", "https", "rtmp", "srt"};
  static const int PORT[4] = {80, 443, 1935, 0};
  unsigned k = ONE ? 0 : sym_choose(0, 3, "schema");
  n = put(u, SCH[k]); n += put(u + n, "://");
  unsigned hn = sym_choose(ONE ? 2 : 1, 2, "hostlen"); char* host = u + n;
  for (unsigned i = 0; i < hn; i++) { char c = sym_u8("host"); sym_assume((c >= 'a') & (c <= 'z') | (c >= '0') & (c <= '9') | (i > 0) & ((c == '.') | (c == '-'))); u[n++] = c; }
  unsigned pn = sym_choose(0, PORTLEN, "portlen"), port = 0;
  if (pn) {
    u[n++] = ':';
    for (unsigned i = 0; i < pn; i++) { char c = sym_u8("port"); sym_assume((c >= '0') & (c <= '9')); u[n++] = c; port = port * 10 + (c - '0'); }
  }
  char* path = u + n; size_t pl = 0;
  if (sym_choose(0, 1, "haspath")) {
    u[n++] = '/'; pl = 1;
    for (unsigned m = sym_choose(0, PATH, "pathlen"); m--; pl++) { char c = sym_u8("path"); sym_assume((c == '/') | (c == '.') | (c >= 'a') & (c <= 'z') | (c == '-') | (c == '%') | (c == '=') | (c == '&')); u[n++] = c; }
  }
  char* q = u + n; size_t ql = 0;
  if (pl && sym_choose(0, 1, "hasquery")) {
    u[n++] = '?'; q++;
    for (unsigned m = sym_choose(1, QUERY, "querylen"); m--; ql++) { char c = sym_u8("query"); sym_assume((c == '=') | (c == '&') | (c >= 'a') & (c <= 'b') | (c == '.') | (c == '/')); u[n++] = c; }
  }
  std::string s(u, n);
  PRequestUrl r;
  error_t e = RequestUrl::from(s, r);
  if (port > 65535) { CHECK(e != SUCCESS, "an impossible port is refused"); sym_reach("refused"); return; }
  CHECK(e == SUCCESS && r, "a well-formed URL is accepted");
  CHECK(r->schema == SCH[k] && !strcmp(r->get_schema(), SCH[k]), "scheme");
  CHECK(r->get_port() == (pn ? (int)port : PORT[k]), "port, or the scheme's default");
  CHECK(r->host.size() == hn && !memcmp(r->host.data(), host, hn), "host");
  CHECK(r->path.size() == pl && !memcmp(r->path.data(), path, pl), "path");
  CHECK(r->params.size() == ql && !memcmp(r->params.data(), q, ql), "query");
  std::string want(path, pl);
  if (ql) { want += '?'; want.append(q, ql); }
  CHECK(r->url == want, "the request target is the path and the query");
  CHECK(r->method == "GET", "default method");
  size_t dot = pl;
  for (size_t i = 0; i < pl; i++) { if (path[i] == '.') dot = i; if (path[i] == '/') dot = pl; }
  size_t el = dot == pl ? 0 : pl - dot - 1;
  CHECK(r->ext.size() == el && !memcmp(r->ext.data(), path + dot + 1, el), "extension of the last path segment");
  // each name=value between ampersands can be asked for; the first of equal names wins
  for (int w = 0; w < 2; w++) {
    char key = 'a' + w; std::string val; bool found = false;
    for (size_t i = 0; i < ql && !found;) {
      size_t j = i; while (j < ql && q[j] != '&') j++;
      if (j - i >= 2 && q[i] == key && q[i + 1] == '=') { val.assign(q + i + 2, j - i - 2); found = true; }
      i = j + 1;
    }
    CHECK(r->get_param(std::string(1, key)) == val, "query parameters by name");
    if (val.size()) sym_reach("param");
  }
  if (el) sym_reach("ext");
  sym_observe("port", r->get_port());
  sym_reach("parsed");
#elif MODE == 2  // long parts and many of them
  static const unsigned LEN[] = {0, 15, 16, 31, 32, 63, 64, 127, 128, 255, 256, 1000}, MANY[] = {1, 2, 7, 16, 33};
  char c1 = (char)sym_range('a', 'z', "c1"), c2 = (char)sym_range('a', 'z', "c2");
  unsigned what = sym_choose(0, 2, "what"), len = LEN[sym_choose(0, 11, "len")], many = MANY[sym_choose(0, 4, "many")], form = sym_choose(0, 3, "form"), hp = sym_choose(0, 1, "port");
  std::string host = "h", path = "/", query, ext;
  if (what == 0) { for (unsigned i = 1; i < many; i++) host += (char)('a' + i % 26) + std::string(i % 3 ? "" : "-x") + "."; host += std::string(len % 250, 'w') + c1 + (form & 1 ? ".example" : "9"); }
  if (what == 1) {
    for (unsigned i = 1; i < many; i++) path += "d" + std::to_string(i) + (form & 1 ? ".x/" : "/");
    path += std::string(len, 'p') + c1; if (form & 2) { path += form & 1 ? ".a.b." : "."; ext = std::string(len / 8 + 1, 'e') + c2; path += ext; }
  }
  std::vector<std::pair<std::string, std::string>> kv;
  if (what == 2) {
    for (unsigned i = 0; i < many; i++) kv.push_back({"k" + std::to_string(i) + (form & 1 && i == many - 1 ? std::string(len / 2, 'n') : std::string()), form & 2 && i % 2 ? std::string() : std::string(i == many / 2 ? len : i % 5, 'v') + c1});
    for (auto& p : kv) { if (!query.empty()) query += '&'; query += p.first + "=" + p.second; }
  }
  std::string s = "http://" + host + (hp ? ":65535" : "") + path + (query.empty() ? "" : "?" + query);
  PRequestUrl r; CHECK(RequestUrl::from(s, r) == SUCCESS && r, "a well-formed URL is accepted"); if (!r) return;
  CHECK(r->host == host && r->get_port() == (hp ? 65535 : 80), "host and port, however long");
  CHECK(r->path == path && r->ext == ext && r->params == query && r->url == path + (query.empty() ? "" : "?" + query), "path, extension and query, however long");
  for (auto& p : kv) CHECK(r->get_param(p.first) == p.second, "each of many query parameters by name");
  CHECK(r->get_param("k") == "" && r->get_param("zz") == "", "and no other");
  sym_reach(what == 0 ? "host" : what == 1 ? "path" : "query");
#elif MODE == 1  // anything at all
  unsigned len = sym_choose(0, N, "len");
  char b[N + 1];
  unsigned pre = sym_choose(0, 3, "prefix");
  n = pre == 0 ? 0 : put(u, pre == 1 ? "http://" : pre == 2 ? "file://" : "http://h/");
  sym_make(b, len, "bytes");
  memcpy(u + n, b, len); n += len;
  PRequestUrl r;
  error_t e = RequestUrl::from(std::string(u, n), r);
  if (e != SUCCESS) { sym_reach("refused"); return; }
  CHECK(r->host.size() <= n && r->path.size() <= n && r->params.size() <= n && r->ext.size() <= r->path.size(), "parts are within the URL");
  for (auto& p : r->pp) CHECK(p.key.size() + p.value.size() <= r->params.size() || pre == 2, "parameters are within the query");
  if (pre == 2) { CHECK(r->schema == "file" && r->url == std::string(b, len), "a file URL names the file after the scheme"); sym_reach("file"); }
  CHECK(r->get_port() >= -1 && r->get_port() <= 65535, "port range");
  sym_reach("parsed");
#endif
}
