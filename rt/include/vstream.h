// Engine-only stand-ins for the iostream classes (full specialisations for char),
// covering what the code base uses: <<, >>, hex/dec, setw, setfill, str, eof, getline.
#pragma once
#include <iosfwd>
#include <string>
#include <cstdint>
#include <bits/ios_base.h>
namespace std {
struct _VSetw { int n; };
struct _VSetfill { char c; };
inline _VSetw setw(int n) { return {n}; }
inline _VSetfill setfill(char c) { return {c}; }
struct _VPrec { int n; };
inline _VPrec setprecision(int n) { return {n}; }
struct _VS {
  string b; size_t g = 0; int base = 10, width = 0; char fill = ' '; bool badb = false, eofb = false, failb = false, upper = false, boolalpha = false;
  virtual ~_VS() {}
  void raw(const char* p, size_t n) { b.append(p, n); }
  void pad(const char* p, size_t n) { for (; width > (int)n; width--) b.push_back(fill); width = 0; raw(p, n); }
  void num(unsigned long v, bool neg) {
    char t[24]; int k = 24;
    do { unsigned d = v % base; t[--k] = d < 10 ? '0' + d : (upper ? 'A' : 'a') + d - 10; v /= base; } while (v);
    if (neg) t[--k] = '-';
    pad(t + k, 24 - k);
  }
  void snum(long v, unsigned w) {
    if (base == 10) { num(v < 0 ? -(unsigned long)v : v, v < 0); return; }
    unsigned long u = (unsigned long)v; if (w < 8) u &= (1ul << (8 * w)) - 1; num(u, false);
  }
};
template <> class basic_ostream<char, char_traits<char>> : public virtual _VS {
 public:
  typedef char char_type; typedef char_traits<char> traits_type;
  basic_ostream& operator<<(int v) { snum(v, 4); return *this; }
  basic_ostream& operator<<(unsigned v) { num(v, false); return *this; }
  basic_ostream& operator<<(short v) { snum(v, 2); return *this; }
  basic_ostream& operator<<(unsigned short v) { num(v, false); return *this; }
  basic_ostream& operator<<(long v) { snum(v, 8); return *this; }
  basic_ostream& operator<<(unsigned long v) { num(v, false); return *this; }
  basic_ostream& operator<<(long long v) { snum(v, 8); return *this; }
  basic_ostream& operator<<(unsigned long long v) { num(v, false); return *this; }
  basic_ostream& operator<<(bool v) { num(v, false); return *this; }
  basic_ostream& operator<<(double) { raw("0", 1); return *this; }
  basic_ostream& operator<<(const void*) { raw("0x0", 3); return *this; }
  basic_ostream& operator<<(_VSetw w) { width = w.n; return *this; }
  basic_ostream& operator<<(_VSetfill f) { fill = f.c; return *this; }
  basic_ostream& operator<<(_VPrec) { return *this; }
  basic_ostream& operator<<(ios_base& (*f)(ios_base&)) {
    if (f == &hex) base = 16; else if (f == &dec) base = 10; else if (f == &oct) base = 8; else if (f == &uppercase) upper = true; else if (f == &nouppercase) upper = false;
    return *this;
  }
  basic_ostream& operator<<(basic_ostream& (*f)(basic_ostream&)) { return f(*this); }
  basic_ostream& write(const char* p, streamsize n) { raw(p, n); return *this; }
  basic_ostream& put(char c) { raw(&c, 1); return *this; }
  basic_ostream& flush() { return *this; }
  operator bool() const { return true; }
};
inline ostream& endl(ostream& o) { o.raw("\n", 1); return o; }
inline ostream& flush(ostream& o) { return o; }
inline ostream& operator<<(ostream& o, const char* s) { o.pad(s, __builtin_strlen(s)); return o; }
inline ostream& operator<<(ostream& o, char c) { o.pad(&c, 1); return o; }
inline ostream& operator<<(ostream& o, unsigned char c) { o.pad((char*)&c, 1); return o; }
inline ostream& operator<<(ostream& o, const string& s) { o.pad(s.data(), s.size()); return o; }
template <> class basic_istream<char, char_traits<char>> : public virtual _VS {
 public:
  typedef char char_type; typedef char_traits<char> traits_type;
  static bool sp(char c) { return c == ' ' || (c >= 9 && c <= 13); }
  bool skip() { while (g < b.size() && sp(b[g])) g++; if (g >= b.size()) { eofb = failb = true; return false; } return true; }
  template <class T> basic_istream& rd(T& v, bool sg) {
    if (failb || !skip()) { failb = true; return *this; }
    bool neg = false; if (b[g] == '-' || b[g] == '+') { neg = b[g] == '-'; g++; }
    unsigned long x = 0; bool any = false;
    while (g < b.size()) {
      int d = b[g] >= '0' && b[g] <= '9' ? b[g] - '0' : b[g] >= 'a' && b[g] <= 'f' ? b[g] - 'a' + 10 : b[g] >= 'A' && b[g] <= 'F' ? b[g] - 'A' + 10 : 99;
      if (d >= base) break;
      x = x * base + d; any = true; g++;
    }
    if (g >= b.size()) eofb = true;
    if (!any) { failb = true; v = 0; } else v = (T)(neg ? -x : x);
    return *this;
  }
  basic_istream& operator>>(int& v) { return rd(v, true); }
  basic_istream& operator>>(unsigned& v) { return rd(v, false); }
  basic_istream& operator>>(long& v) { return rd(v, true); }
  basic_istream& operator>>(unsigned long& v) { return rd(v, false); }
  basic_istream& operator>>(long long& v) { return rd(v, true); }
  basic_istream& operator>>(unsigned long long& v) { return rd(v, false); }
  basic_istream& operator>>(ios_base& (*f)(ios_base&)) { if (f == &hex) base = 16; else if (f == &dec) base = 10; return *this; }
  basic_istream& get(char& c) { if (g < b.size()) c = b[g++]; else eofb = failb = true; return *this; }
  int get() { if (g < b.size()) return (unsigned char)b[g++]; eofb = failb = true; return -1; }
  int peek() { if (g < b.size()) return (unsigned char)b[g]; eofb = true; return -1; }
  bool eof() const { return eofb; }
  bool fail() const { return failb || badb; }
  bool good() const { return !failb && !eofb; }
  bool operator!() const { return failb; }
  explicit operator bool() const { return !failb; }
};
inline istream& operator>>(istream& i, string& s) {
  s.clear();
  if (i.failb || !i.skip()) { i.failb = true; return i; }
  while (i.g < i.b.size() && !istream::sp(i.b[i.g])) s.push_back(i.b[i.g++]);
  if (i.g >= i.b.size()) i.eofb = true;
  return i;
}
inline istream& operator>>(istream& i, char& c) { if (i.failb || !i.skip()) { i.failb = true; return i; } c = i.b[i.g++]; return i; }
inline istream& getline(istream& i, string& s, char d) {
  s.clear();
  if (i.failb || i.g >= i.b.size()) { i.eofb = i.failb = true; return i; }
  while (true) {
    if (i.g >= i.b.size()) { i.eofb = true; break; }
    char c = i.b[i.g++];
    if (c == d) break;
    s.push_back(c);
  }
  return i;
}
inline istream& getline(istream& i, string& s) { return getline(i, s, '\n'); }
inline istream& ws(istream& i) { while (i.g < i.b.size() && istream::sp(i.b[i.g])) i.g++; return i; }
template <> class basic_iostream<char, char_traits<char>> : public basic_istream<char>, public basic_ostream<char> {
 public:
  explicit operator bool() const { return !failb; }
};
template <> class basic_stringstream<char, char_traits<char>, allocator<char>> : public basic_iostream<char> {
 public:
  basic_stringstream() {}
  explicit basic_stringstream(const string& s) { b = s; }
  explicit basic_stringstream(const string& s, ios_base::openmode) { b = s; }
  string str() const { return b; }
  void str(const string& s) { b = s; g = 0; }
  void clear() { eofb = failb = badb = false; }
};
template <> class basic_ostringstream<char, char_traits<char>, allocator<char>> : public basic_ostream<char> {
 public:
  basic_ostringstream() {}
  explicit basic_ostringstream(const string& s) { b = s; }
  string str() const { return b; }
  void str(const string& s) { b = s; g = 0; }
};
template <> class basic_istringstream<char, char_traits<char>, allocator<char>> : public basic_istream<char> {
 public:
  basic_istringstream() {}
  explicit basic_istringstream(const string& s) { b = s; }
  string str() const { return b; }
  void str(const string& s) { b = s; g = 0; }
};
// files: one named file, set up by the harness (rt/libcxx.cpp); reading and writing share one position
struct _VFile { char name[32]; bool exists; string data; };
_VFile& _vfile();
template <> class basic_fstream<char, char_traits<char>> : public basic_iostream<char> {
  bool op = false; streamsize gc = 0; ios_base::openmode m_ = ios_base::in;
 public:
  static const ios_base::openmode in = ios_base::in, out = ios_base::out, trunc = ios_base::trunc, app = ios_base::app, binary = ios_base::binary;
  basic_fstream() {}
  ~basic_fstream() { close(); }
  void open(const char* n, ios_base::openmode m = ios_base::in | ios_base::out) {
    _VFile& f = _vfile();
    bool i = m & ios_base::in, o = m & ios_base::out, t = m & ios_base::trunc, a = m & ios_base::app;
    bool create = (o && t) || a || (o && !i);
    bool ok = !op && (i || o || a) && !(t && a) && !(t && !o);
    for (size_t k = 0; ok; k++) { if (n[k] != f.name[k]) ok = false; if (!f.name[k]) break; }
    if (!f.exists && !create) ok = false;
    if (!ok) { failb = true; return; }
    if (t || (o && !i && !a) || !f.exists) f.data.clear();
    f.exists = true; op = true; m_ = m; b = f.data; g = 0; eofb = failb = badb = false;
  }
  void open(const string& n, ios_base::openmode m = ios_base::in | ios_base::out) { open(n.c_str(), m); }
  bool is_open() const { return op; }
  void close() { if (op) { if (m_ & (ios_base::out | ios_base::app)) _vfile().data = b; op = false; } else failb = true; }
  void clear() { eofb = failb = badb = false; }
  bool bad() const { return badb; }
  basic_fstream& read(char* p, streamsize n) {
    gc = 0;
    if (failb || eofb) { failb = true; return *this; }
    size_t k = b.size() - g; if ((size_t)n < k) k = (size_t)n;
    for (size_t j = 0; j < k; j++) p[j] = b[g + j];
    g += k; gc = (streamsize)k;
    if (k < (size_t)n) eofb = failb = true;
    return *this;
  }
  streamsize gcount() const { return gc; }
  basic_fstream& write(const char* p, streamsize n) {
    if (failb || eofb || badb) { failb = true; return *this; }
    if (m_ & ios_base::app) g = b.size();
    for (streamsize j = 0; j < n; j++) { if (g < b.size()) b[g] = p[j]; else b.push_back(p[j]); g++; }
    return *this;
  }
  basic_fstream& flush() { if (op) _vfile().data = b; return *this; }
};
}
