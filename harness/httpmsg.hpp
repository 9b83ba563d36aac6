// An independent reader of HTTP/1.1 responses, for the output of the code under test.
#pragma once
#include <cstring>
#include <string>
#include <vector>
#include <sym.hpp>
struct Msg {
  int status = 0; std::vector<std::pair<std::string, std::string>> headers;
  std::string body; size_t end = 0; bool complete = false, chunked = false; long length = -1;
  int count(const char* k) const { int n = 0; for (auto& h : headers) if (eq(h.first, k)) n++; return n; }
  std::string get(const char* k) const { for (auto& h : headers) if (eq(h.first, k)) return h.second; return ""; }
  static bool eq(const std::string& a, const char* b) {
    if (a.size() != strlen(b)) return false;
    for (size_t i = 0; i < a.size(); i++) { char x = a[i], y = b[i]; if (x >= 'A' && x <= 'Z') x += 32; if (y >= 'A' && y <= 'Z') y += 32; if (x != y) return false; }
    return true;
  }
};
// returns false when what is there is not (the beginning of) a well-formed response
static bool read_msg(const std::string& s, size_t at, Msg& m) {
  size_t e = s.find("\r\n", at);
  if (e == std::string::npos || s.compare(at, 9, "HTTP/1.1 ") != 0 || e < at + 13) return false;
  for (int i = 9; i < 12; i++) { char c = s[at + i]; if (c < '0' || c > '9') return false; m.status = m.status * 10 + c - '0'; }
  if (s[at + 12] != ' ') return false;
  at = e + 2;
  for (;;) {
    e = s.find("\r\n", at);
    if (e == std::string::npos) return false;
    if (e == at) { at += 2; break; }
    size_t c = s.find(": ", at);
    if (c == std::string::npos || c > e || c == at) return false;
    m.headers.push_back({s.substr(at, c - at), s.substr(c + 2, e - c - 2)});
    at = e + 2;
  }
  for (auto& h : m.headers) {
    if (Msg::eq(h.first, "Transfer-Encoding")) m.chunked = true;
    if (Msg::eq(h.first, "Content-Length")) { m.length = 0; for (char c : h.second) { if (c < '0' || c > '9') return false; m.length = m.length * 10 + c - '0'; } }
  }
  if (m.chunked) {
    for (;;) {
      size_t v = 0, d = 0;
      for (; at + d < s.size(); d++) { char c = s[at + d]; int h = c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; if (h < 0) break; v = v * 16 + h; }
      if (at + d == s.size()) { m.end = s.size(); return true; }
      if (!d || s.compare(at + d, 2, "\r\n") != 0) return false;
      at += d + 2;
      if (at + v + 2 > s.size()) { m.body += s.substr(at, v); m.end = s.size(); return true; }
      m.body += s.substr(at, v); at += v;
      if (s.compare(at, 2, "\r\n") != 0) return false;
      at += 2;
      if (v == 0) { m.complete = true; break; }
    }
  } else if (m.length >= 0) {
    m.body = s.substr(at, m.length); at += m.body.size(); m.complete = (long)m.body.size() == m.length;
  } else { m.body = s.substr(at); at = s.size(); m.complete = true; }
  m.end = at;
  return true;
}
