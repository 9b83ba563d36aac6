// Engine-side model of libhttp_parser 2.9.4 (the library itself is a system binary):
// one http_parser_execute() call per message head, and the URL splitter.
// tools/diff_http.sh compares it with the real library on random inputs; every native
// replay uses the real one.
#include <http_parser.h>
#include <climits>
#include <cstdlib>
#include <cstring>
#ifndef STRICT
#define STRICT 0  // how the distribution builds the library
#endif
#ifndef LIMIT
#define LIMIT abort
#endif
#ifndef MODEL
#define MODEL(n) n
#endif
static inline bool is_num(unsigned char c) { return c >= '0' && c <= '9'; }
static inline unsigned char lower(unsigned char c) { return c | 0x20; }
static inline bool is_alpha(unsigned char c) { return lower(c) >= 'a' && lower(c) <= 'z'; }
static inline bool is_alnum(unsigned char c) { return is_num(c) || is_alpha(c); }
static inline bool is_hex(unsigned char c) { return is_num(c) || (lower(c) >= 'a' && lower(c) <= 'f'); }
static inline bool is_userinfo(unsigned char c) {
  return is_alnum(c) || c == '-' || c == '_' || c == '.' || c == '!' || c == '~' || c == '*' || c == '\'' || c == '(' || c == ')' || c == '%' ||
         c == ';' || c == ':' || c == '&' || c == '=' || c == '+' || c == '$' || c == ',';
}
static inline bool is_url(unsigned char c) { return (c > 32 && c != '#' && c != '?' && c != 127) || (!STRICT && (c == '\t' || c == '\f')); }
static inline bool is_host(unsigned char c) { return is_alnum(c) || c == '.' || c == '-' || (!STRICT && c == '_'); }
static inline unsigned char token(unsigned char c) {
  if (c >= 'A' && c <= 'Z') return c | 0x20;
  if ((c >= 'a' && c <= 'z') || is_num(c)) return c;
  if (c == '!' || (c >= '#' && c <= '\'') || c == '*' || c == '+' || c == '-' || c == '.' || c == '^' || c == '_' || c == '`' || c == '|' || c == '~') return c;
  if (!STRICT && c == ' ') return ' ';
  return 0;
}
enum { dead, spaces_before_url, schema, schema_slash, schema_slash_slash, server_start, server, server_with_at, path, query_start, query, fragment_start, fragment };
static int url_char(int s, unsigned char ch) {
  if (ch == ' ' || ch == '\r' || ch == '\n') return dead;
  if (STRICT && (ch == '\t' || ch == '\f')) return dead;
  switch (s) {
    case spaces_before_url: if (ch == '/' || ch == '*') return path; if (is_alpha(ch)) return schema; break;
    case schema: if (is_alpha(ch)) return s; if (ch == ':') return schema_slash; break;
    case schema_slash: if (ch == '/') return schema_slash_slash; break;
    case schema_slash_slash: if (ch == '/') return server_start; break;
    case server_with_at: if (ch == '@') return dead;  // fallthrough
    case server_start: case server:
      if (ch == '/') return path;
      if (ch == '?') return query_start;
      if (ch == '@') return server_with_at;
      if (is_userinfo(ch) || ch == '[' || ch == ']') return server;
      break;
    case path: if (is_url(ch)) return s; if (ch == '?') return query_start; if (ch == '#') return fragment_start; break;
    case query_start: case query: if (is_url(ch)) return query; if (ch == '?') return query; if (ch == '#') return fragment_start; break;
    case fragment_start: if (is_url(ch)) return fragment; if (ch == '?') return fragment; if (ch == '#') return s; break;
    case fragment: if (is_url(ch)) return s; if (ch == '?' || ch == '#') return s; break;
  }
  return dead;
}
enum { h_dead, userinfo_start, userinfo, host_start, v6_start, host, v6, v6_end, v6_zone_start, v6_zone, port_start, port_ };
static int host_char(int s, unsigned char ch) {
  switch (s) {
    case userinfo: case userinfo_start: if (ch == '@') return host_start; if (is_userinfo(ch)) return userinfo; break;
    case host_start: if (ch == '[') return v6_start; if (is_host(ch)) return host; break;
    case host: if (is_host(ch)) return host;  // fallthrough
    case v6_end: if (ch == ':') return port_start; break;
    case v6: if (ch == ']') return v6_end;  // fallthrough
    case v6_start: if (is_hex(ch) || ch == ':' || ch == '.') return v6; if (s == v6 && ch == '%') return v6_zone_start; break;
    case v6_zone: if (ch == ']') return v6_end;  // fallthrough
    case v6_zone_start: if (is_alnum(ch) || ch == '%' || ch == '.' || ch == '-' || ch == '_' || ch == '~') return v6_zone; break;
    case port_: case port_start: if (is_num(ch)) return port_; break;
  }
  return h_dead;
}
static int parse_host(const char* buf, http_parser_url* u, int at) {
  size_t end = u->field_data[UF_HOST].off + u->field_data[UF_HOST].len;
  u->field_data[UF_HOST].len = 0;
  int s = at ? userinfo_start : host_start;
  for (size_t p = u->field_data[UF_HOST].off; p < end; p++) {
    int n = host_char(s, buf[p]);
    if (n == h_dead) return 1;
    switch (n) {
      case host: if (s != host) u->field_data[UF_HOST].off = p; u->field_data[UF_HOST].len++; break;
      case v6: if (s != v6) u->field_data[UF_HOST].off = p; u->field_data[UF_HOST].len++; break;
      case v6_zone_start: case v6_zone: u->field_data[UF_HOST].len++; break;
      case port_: if (s != port_) { u->field_data[UF_PORT].off = p; u->field_data[UF_PORT].len = 0; u->field_set |= 1 << UF_PORT; } u->field_data[UF_PORT].len++; break;
      case userinfo: if (s != userinfo) { u->field_data[UF_USERINFO].off = p; u->field_data[UF_USERINFO].len = 0; u->field_set |= 1 << UF_USERINFO; } u->field_data[UF_USERINFO].len++; break;
    }
    s = n;
  }
  switch (s) { case host_start: case v6_start: case v6: case v6_zone_start: case v6_zone: case port_start: case userinfo: case userinfo_start: return 1; }
  return 0;
}
extern "C" {
int MODEL(http_parser_parse_url)(const char* buf, size_t len, int is_connect, struct http_parser_url* u) {
  if (len == 0) return 1;
  u->port = u->field_set = 0;
  int s = is_connect ? server_start : spaces_before_url, old = UF_MAX, at = 0;
  for (size_t p = 0; p < len; p++) {
    s = url_char(s, buf[p]);
    int uf;
    switch (s) {
      case dead: return 1;
      case schema_slash: case schema_slash_slash: case server_start: case query_start: case fragment_start: continue;
      case schema: uf = UF_SCHEMA; break;
      case server_with_at: at = 1; uf = UF_HOST; break;
      case server: uf = UF_HOST; break;
      case path: uf = UF_PATH; break;
      case query: uf = UF_QUERY; break;
      default: uf = UF_FRAGMENT; break;
    }
    if (uf == old) { u->field_data[uf].len++; continue; }
    u->field_data[uf].off = p; u->field_data[uf].len = 1; u->field_set |= 1 << uf; old = uf;
  }
  if ((u->field_set & (1 << UF_SCHEMA)) && !(u->field_set & (1 << UF_HOST))) return 1;
  if ((u->field_set & (1 << UF_HOST)) && parse_host(buf, u, at)) return 1;
  if (is_connect && u->field_set != ((1 << UF_HOST) | (1 << UF_PORT))) return 1;
  if (u->field_set & (1 << UF_PORT)) {
    unsigned long v = 0;
    for (unsigned i = 0; i < u->field_data[UF_PORT].len; i++) { v = v * 10 + (buf[u->field_data[UF_PORT].off + i] - '0'); if (v > 0xffff) return 1; }
    u->port = v;
  }
  return 0;
}
static const char* const methods[] = {
#define XX(num, name, string) #string,
    HTTP_METHOD_MAP(XX)
#undef XX
};
const char* MODEL(http_method_str)(enum http_method m) { return (unsigned)m < sizeof(methods) / sizeof(*methods) ? methods[m] : "<unknown>"; }
const char* MODEL(http_status_str)(enum http_status s) {
  switch (s) {
#define XX(num, name, string) case HTTP_STATUS_##name: return #string;
    HTTP_STATUS_MAP(XX)
#undef XX
  }
  return "<unknown>";
}
void MODEL(http_parser_init)(http_parser* p, enum http_parser_type t) {
  void* d = p->data;
  memset(p, 0, sizeof *p);
  p->data = d; p->type = t;
}
const char* MODEL(http_errno_name)(enum http_errno) { return "HPE"; }
const char* MODEL(http_errno_description)(enum http_errno) { return "error"; }
void MODEL(http_parser_settings_init)(http_parser_settings* s) { memset(s, 0, sizeof *s); }
static int match_method(const char* d, size_t len, size_t at, size_t* bad) {  // the method names are matched up to the blank
  size_t best = at;
  for (int m = 0; m < (int)(sizeof(methods) / sizeof(*methods)); m++) {
    size_t k = 0, n = strlen(methods[m]);
    while (k < n && at + k < len && d[at + k] == methods[m][k]) k++;
    if (at + k == len) { *bad = len; return -2; }
    if (k == n && d[at + k] == ' ') return m;
    if (at + k > best) best = at + k;
  }
  *bad = best;
  return -1;
}
size_t MODEL(http_parser_execute)(http_parser* ps, const http_parser_settings* st, const char* d, size_t len) {
  size_t p = 0;
#define FAIL(e) do { ps->http_errno = HPE_##e; return p; } while (0)
#define NEXT() do { if (++p >= len) return len; } while (0)
#define DATA(cb, from, to) do { if (st->on_##cb && st->on_##cb(ps, d + (from), (to) - (from))) { ps->http_errno = HPE_CB_##cb; return p; } } while (0)
#define NOTIFY(cb) do { if (st->on_##cb && st->on_##cb(ps)) { ps->http_errno = HPE_CB_##cb; return p; } } while (0)
#define CH ((unsigned char)d[p])
  if (len == 0) return 0;
  while (CH == '\r' || CH == '\n') NEXT();
  ps->flags = 0; ps->uses_transfer_encoding = 0; ps->content_length = ULLONG_MAX;
  if (ps->type == HTTP_BOTH) {
    if (CH != 'H') ps->type = HTTP_REQUEST;
    else { if (p + 1 >= len) return len; if (d[p + 1] == 'T') ps->type = HTTP_RESPONSE; else if (d[p + 1] == 'E') ps->type = HTTP_REQUEST; else { p++; FAIL(INVALID_CONSTANT); } }
  }
  if (ps->type == HTTP_REQUEST) {
    if (!is_alpha(CH)) FAIL(INVALID_METHOD);
    size_t bad = p;
    int m = match_method(d, len, p, &bad);
    if (m == -2) return len;
    NOTIFY(message_begin);
    if (m < 0) { p = bad; FAIL(INVALID_METHOD); }
    ps->method = m;
    p += strlen(methods[m]);
    while (CH == ' ') NEXT();
    size_t u = p;
    int s = m == HTTP_CONNECT ? server_start : spaces_before_url;
    s = url_char(s, CH);
    if (s == dead) FAIL(INVALID_URL);
    for (;;) {
      NEXT();
      if (s == schema || s == schema_slash || s == schema_slash_slash || s == server_start) {
        s = url_char(s, CH);
        if (s == dead) FAIL(INVALID_URL);
        continue;
      }
      if (CH == ' ' || CH == '\r' || CH == '\n') break;
      s = url_char(s, CH);
      if (s == dead) FAIL(INVALID_URL);
    }
    if (CH == ' ') {
      DATA(url, u, p);
      NEXT();
      while (CH == ' ') NEXT();
      const char* proto = "HTTP/";
      if (CH == 'I' && m == HTTP_SOURCE) proto = "ICE/"; else if (CH != 'H') FAIL(INVALID_CONSTANT);
      for (int i = 1; proto[i]; i++) { NEXT(); if (STRICT && CH != (unsigned char)proto[i]) FAIL(STRICT); }
      NEXT(); if (!is_num(CH)) FAIL(INVALID_VERSION); ps->http_major = CH - '0';
      NEXT(); if (CH != '.') FAIL(INVALID_VERSION);
      NEXT(); if (!is_num(CH)) FAIL(INVALID_VERSION); ps->http_minor = CH - '0';
      NEXT();
      if (CH == '\r') { NEXT(); if (CH != '\n') FAIL(LF_EXPECTED); } else if (CH != '\n') FAIL(INVALID_VERSION);
    } else {
      ps->http_major = 0; ps->http_minor = 9;
      bool cr = CH == '\r';
      DATA(url, u, p);
      if (cr) { NEXT(); if (CH != '\n') FAIL(LF_EXPECTED); }
    }
  } else {
    if (CH != 'H') FAIL(INVALID_CONSTANT);
    NOTIFY(message_begin);
    const char* proto = "HTTP/";
    for (int i = 1; proto[i]; i++) { NEXT(); if (STRICT && CH != (unsigned char)proto[i]) FAIL(STRICT); }
    NEXT(); if (!is_num(CH)) FAIL(INVALID_VERSION); ps->http_major = CH - '0';
    NEXT(); if (CH != '.') FAIL(INVALID_VERSION);
    NEXT(); if (!is_num(CH)) FAIL(INVALID_VERSION); ps->http_minor = CH - '0';
    NEXT(); if (CH != ' ') FAIL(INVALID_VERSION);
    NEXT(); while (CH == ' ') NEXT();
    if (!is_num(CH)) FAIL(INVALID_STATUS);
    unsigned code = CH - '0';
    ps->status_code = code;
    for (;;) {
      NEXT();
      if (!is_num(CH)) break;
      code = code * 10 + (CH - '0');
      ps->status_code = code;
      if (code > 999) FAIL(INVALID_STATUS);
    }
    if (CH != ' ' && CH != '\r' && CH != '\n') FAIL(INVALID_STATUS);
    if (CH == ' ') NEXT();
    size_t m = p;
    while (CH != '\r' && CH != '\n') NEXT();
    DATA(status, m, p);
    if (CH == '\r') { NEXT(); if (STRICT && CH != '\n') FAIL(STRICT); }
  }
  // header lines; p is on the end of the previous line
  for (;;) {
    NEXT();
    if (CH == '\r') { NEXT(); break; }
    if (CH == '\n') break;
    if (!token(CH)) FAIL(INVALID_HEADER_TOKEN);
    size_t f = p;
    char name[32]; unsigned n = 0; bool te = false;
    while (token(CH)) {
      if (n < 31) name[n] = token(CH);
      n++;
      if (n == 17 && !memcmp(name, "transfer-encoding", 17)) { ps->uses_transfer_encoding = 1; ps->flags &= ~F_CHUNKED; te = true; }
      NEXT();
    }
    if (CH != ':') FAIL(INVALID_HEADER_TOKEN);
    bool cl = false, upg = false;
    // trailing blanks in the name are tolerated for the recognised fields
    unsigned m = n < 31 ? n : 31;
    if (n <= 31) while (m && name[m - 1] == ' ') m--;
    if (n <= 31 && m == 14 && !memcmp(name, "content-length", 14)) cl = true;
    if (n <= 31 && m == 7 && !memcmp(name, "upgrade", 7)) upg = true;
    if (!(n <= 31 && m == 17)) te = false;
    DATA(header_field, f, p);
    NEXT();
    bool empty = false;
    for (;;) {  // leading blanks, possibly folded
      while (CH == ' ' || CH == '\t') NEXT();
      if (CH == '\r') { NEXT(); if (STRICT && CH != '\n') FAIL(STRICT); NEXT(); }
      else if (CH == '\n') NEXT();
      else break;
      if (CH == ' ' || CH == '\t') continue;
      empty = true;
      break;
    }
    if (empty) {
      if (cl) FAIL(INVALID_CONTENT_LENGTH);
      DATA(header_value, p, p);
      p--;
      continue;
    }
    if (upg) ps->flags |= F_UPGRADE;
    bool first = true, clws = false;
    for (;;) {  // the value, possibly folded over several lines
      size_t v = p;
      static const char ck[] = "chunked";
      int tes = 0;  // 0 skipping blanks, 1 inside a token, 2 matching chunked, 3 matched
      unsigned ti = 0;
      bool start = true;
      for (;;) {
        if (CH == '\r' || CH == '\n') break;
        if (!(CH == 9 || (CH > 31 && CH != 127))) { if (!start || true) { if (!start) FAIL(INVALID_HEADER_TOKEN); } }
        if (cl) {
          if (first) {
            if (!is_num(CH)) FAIL(INVALID_CONTENT_LENGTH);
            if (ps->flags & F_CONTENTLENGTH) FAIL(UNEXPECTED_CONTENT_LENGTH);
            ps->flags |= F_CONTENTLENGTH;
            ps->content_length = CH - '0';
          } else if (clws || CH == ' ') {
            if (!start) clws = true;
            if (!start && CH != ' ') FAIL(INVALID_CONTENT_LENGTH);
          } else {
            if (!is_num(CH)) FAIL(INVALID_CONTENT_LENGTH);
            if ((ULLONG_MAX - 10) / 10 < ps->content_length) FAIL(INVALID_CONTENT_LENGTH);
            ps->content_length = ps->content_length * 10 + (CH - '0');
          }
        }
        if (te) {
          unsigned char c = CH >= 'A' && CH <= 'Z' ? CH | 0x20 : CH;
          if (start) { if (c == 'c') { tes = 2; ti = 0; } else tes = 1; }
          else if (tes == 0) {
            if (c == ' ' || c == '\t') {}
            else if (c == 'c') { tes = 2; ti = 0; }
            else if (token(c) && c != ' ') tes = 1;
            else { tes = 4; te = false; }
          } else if (tes == 1) { if (c == ',') tes = 0; }
          else if (tes == 2) {
            ti++;
            if (ti > 6 || c != (unsigned char)ck[ti]) { tes = 1; if (c == ',') tes = 0; }
            else if (ti == 6) tes = 3;
          } else if (tes == 3) { if (c == ',') tes = 0; else if (c != ' ') tes = 1; }
        }
        first = false; start = false;
        NEXT();
      }
      DATA(header_value, v, p);
      if (CH == '\r') { NEXT(); if (CH != '\n') FAIL(LF_EXPECTED); }
      NEXT();
      if (CH == ' ' || CH == '\t') { if (cl) clws = true; continue; }
      if (te && tes == 3) ps->flags |= F_CHUNKED;
      p--;
      break;
    }
  }
  if (STRICT && CH != '\n') FAIL(STRICT);
  if (ps->uses_transfer_encoding && (ps->flags & F_CONTENTLENGTH)) FAIL(UNEXPECTED_CONTENT_LENGTH);
  NOTIFY(headers_complete);
  if (ps->type == HTTP_REQUEST && ps->method == HTTP_CONNECT) { NOTIFY(message_complete); return p + 1; }
  if (!(ps->flags & F_CHUNKED) && ps->uses_transfer_encoding && ps->type == HTTP_REQUEST) FAIL(INVALID_TRANSFER_ENCODING);
  if ((ps->flags & F_CHUNKED) == 0 && (ps->content_length == 0 || (ps->content_length == ULLONG_MAX && ps->type == HTTP_REQUEST))) NOTIFY(message_complete);
  p++;
  if (p != len) LIMIT();  // outside this model: bytes behind the head
  return p;
}
}
