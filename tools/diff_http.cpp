// Differential check of rt/http_parser.cpp against libhttp_parser: STRICT is what the library was built with.
#include <string>
#include <cstdio>
static bool limit;
#define LIMIT() limit = true
#define MODEL(n) model_##n
#include "../rt/http_parser.cpp"
using std::string;
static string tr;
static int cbd(const char* k, http_parser* p, const char* a, size_t n) { tr += k; tr += '['; tr.append(a, n); tr += ']'; return 0; }
#define D(k) +[](http_parser* p, const char* a, size_t n) { return cbd(#k, p, a, n); }
static unsigned long long rs = 88172645463325252ull;
static unsigned rnd(unsigned n) { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return (rs >> 11) % n; }
int main(int, char** av) {
  http_parser_settings st; http_parser_settings_init(&st);
  st.on_url = D(url); st.on_status = D(status); st.on_header_field = D(hf); st.on_header_value = D(hv);
  const char* req[] = {"GET", "POST", "HEAD", "PUT", "OPTIONS", "M-SEARCH", "SOURCE", "CONNECT", "GOT", "P", "PATCH"};
  const char* url[] = {"/", "/a.flv?x=1&y", "*", "http://h:80/p", "x", "a:1", "//", "/a#f?", "http:///", "/a\tb"};
  const char* hd[] = {"Host: h", "Content-Length: 12", "Content-Length:12 ", "content-length: 1 2", "Transfer-Encoding: chunked", "Transfer-Encoding: gzip, chunked", "Transfer-Encoding: identity", "transfer-encoding:chunked ", "X:", "X: \t", "Y : z", "Connection: close", "Upgrade: h2", "Content-Length:", "A: b\r\n c", "Transfer-Encodings: x", "Transfer-Encoding: chunkedx","Content-Length: 1\r\n 2", "Content-Length: \r\n 2", "B:\r\n b","Transfer-Encoding:\r\n chunked", "Transfer-Encoding : chunked", "Transfer-Encoding: chunked,", "Content-Length : 3"};
  const char alpha[] = "\r\n :/?#[]@%aZ0.\t-,_\x7f\x80\x01H";
  long bad = 0, lim = 0, n = atol(av[1]);
  for (long i = 0; i < n; i++) {
    int kind = rnd(3);
    string s;
    if (kind == 2) {  // url
      const char* us[] = {"http://a.b:80/p/q.flv?a=b&c=d#f", "rtmp://u:p@h/x", "http://[::1%e]:1/", "/p?q", "https://h", "file:///a/b.flv", "h://h:99999/"};
      s = us[rnd(7)];
    } else {
      if (kind == 0) { s = string(req[rnd(11)]) + " " + url[rnd(10)] + " HTTP/1.1\r\n"; if (rnd(20) == 0) s = string("GET ") + url[rnd(10)] + "\r\n"; }
      else { const char* r[] = {"HTTP/1.1 200 OK\r\n", "HTTP/1.1 404\r\n", "HTTP/1.0  200 A b\r\n", "HTTP/1.1 2000 x\r\n", "HTTP/1.1 20 \r\n"}; s = r[rnd(5)]; }
      for (int k = rnd(4); k-- > 0;) s += string(hd[rnd(24)]) + "\r\n";
      s += "\r\n";
    }
    for (int k = rnd(4); k-- > 0;) { size_t at = rnd(s.size() + 1); char c = alpha[rnd(sizeof alpha - 1)]; if (rnd(2) && at < s.size()) s[at] = c; else if (rnd(2)) s.insert(s.begin() + at, c); else if (at < s.size()) s.erase(at, 1); }
    if (kind == 2) {
      http_parser_url a, b; memset(&a, 0, sizeof a); memset(&b, 0, sizeof b);
      int x = http_parser_parse_url(s.data(), s.size(), 0, &a), y = model_http_parser_parse_url(s.data(), s.size(), 0, &b);
      bool eq = x == y && (x || (a.field_set == b.field_set && a.port == b.port));
      if (eq && !x) for (int f = 0; f < UF_MAX; f++) if ((a.field_set >> f & 1) && (a.field_data[f].off != b.field_data[f].off || a.field_data[f].len != b.field_data[f].len)) eq = false;
      if (!eq && bad++ < 10) printf("URL differs: %s (%d %d)\n", s.c_str(), x, y);
      continue;
    }
    size_t e = s.find("\r\n\r\n"), e2 = s.find("\n\n"), e3 = s.find("\n\r\n");
    size_t end = e == string::npos ? s.size() : e + 4;
    if (e2 != string::npos && e2 + 2 < end) end = e2 + 2;
    if (e3 != string::npos && e3 + 3 < end) end = e3 + 3;
    s.resize(end);
    http_parser a, b; memset(&a, 0, sizeof a); memset(&b, 0, sizeof b);
    http_parser_type t = (http_parser_type)rnd(3);
    http_parser_init(&a, t); model_http_parser_init(&b, t);
    tr.clear(); size_t x = http_parser_execute(&a, &st, s.data(), s.size()); string ta = tr;
    limit = false; tr.clear(); size_t y = model_http_parser_execute(&b, &st, s.data(), s.size());
    if (limit) { lim++; continue; }
    bool ok = a.http_errno == b.http_errno && (a.http_errno || ((a.content_length == b.content_length || x < s.size()) && a.uses_transfer_encoding == b.uses_transfer_encoding));
    ok = ok && ta == tr && x == y && (a.http_errno || a.method == b.method || x < s.size()) && a.status_code == b.status_code;
    if (!ok && bad++ < 12) { printf("HEAD differs t=%d x=%zu y=%zu errno %s/%s cl %llu/%llu te %d/%d m %d/%d sc %d/%d\n<<%s>>\n ta=%s\n tb=%s\n", t, x, y, http_errno_name((http_errno)a.http_errno), http_errno_name((http_errno)b.http_errno), (unsigned long long)a.content_length, (unsigned long long)b.content_length, a.uses_transfer_encoding, b.uses_transfer_encoding, a.method, b.method, a.status_code, b.status_code, s.c_str(), ta.c_str(), tr.c_str()); }
  }
  printf("%ld differences in %ld (%ld outside the model)\n", bad, n, lim);
  return bad != 0;
}
