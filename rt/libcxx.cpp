// Engine-only runtime: the out-of-line parts of libc, libstdc++ and the C++ ABI
// that the encoded code calls. (In native replay the real libraries are used.)
#include <cstdarg>
#include <cstddef>
#include <cstdint>
#include <list>
#include <map>
#include <string>
#include <sys/time.h>
#include <time.h>
template class std::__cxx11::basic_string<char>;
template std::string std::operator+(const std::string&, const std::string&);
template std::string std::operator+(const char*, const std::string&);
template std::string std::operator+(const std::string&, const char*);

// ---------------------------------------------------------------- libstdc++
namespace std {
typedef _Rb_tree_node_base B;
static B* inc(B* x) {
  if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; }
  else {
    B* y = x->_M_parent;
    while (x == y->_M_right) { x = y; y = y->_M_parent; }
    if (x->_M_right != y) x = y;
  }
  return x;
}
static B* dec(B* x) {
  if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) x = x->_M_right;
  else if (x->_M_left) { B* y = x->_M_left; while (y->_M_right) y = y->_M_right; x = y; }
  else {
    B* y = x->_M_parent;
    while (x == y->_M_left) { x = y; y = y->_M_parent; }
    x = y;
  }
  return x;
}
B* _Rb_tree_increment(B* x) throw() { return inc(x); }
const B* _Rb_tree_increment(const B* x) throw() { return inc(const_cast<B*>(x)); }
B* _Rb_tree_decrement(B* x) throw() { return dec(x); }
const B* _Rb_tree_decrement(const B* x) throw() { return dec(const_cast<B*>(x)); }
static void rotl(B* const x, B*& root) {
  B* const y = x->_M_right;
  x->_M_right = y->_M_left;
  if (y->_M_left) y->_M_left->_M_parent = x;
  y->_M_parent = x->_M_parent;
  if (x == root) root = y;
  else if (x == x->_M_parent->_M_left) x->_M_parent->_M_left = y;
  else x->_M_parent->_M_right = y;
  y->_M_left = x;
  x->_M_parent = y;
}
static void rotr(B* const x, B*& root) {
  B* const y = x->_M_left;
  x->_M_left = y->_M_right;
  if (y->_M_right) y->_M_right->_M_parent = x;
  y->_M_parent = x->_M_parent;
  if (x == root) root = y;
  else if (x == x->_M_parent->_M_right) x->_M_parent->_M_right = y;
  else x->_M_parent->_M_left = y;
  y->_M_right = x;
  x->_M_parent = y;
}
void _Rb_tree_insert_and_rebalance(const bool left, B* x, B* p, B& h) throw() {
  B*& root = h._M_parent;
  x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = _S_red;
  if (left) {
    p->_M_left = x;
    if (p == &h) { h._M_parent = x; h._M_right = x; }
    else if (p == h._M_left) h._M_left = x;
  } else {
    p->_M_right = x;
    if (p == h._M_right) h._M_right = x;
  }
  while (x != root && x->_M_parent->_M_color == _S_red) {
    B* const xpp = x->_M_parent->_M_parent;
    if (x->_M_parent == xpp->_M_left) {
      B* const y = xpp->_M_right;
      if (y && y->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; xpp->_M_color = _S_red; x = xpp; }
      else {
        if (x == x->_M_parent->_M_right) { x = x->_M_parent; rotl(x, root); }
        x->_M_parent->_M_color = _S_black; xpp->_M_color = _S_red; rotr(xpp, root);
      }
    } else {
      B* const y = xpp->_M_left;
      if (y && y->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; xpp->_M_color = _S_red; x = xpp; }
      else {
        if (x == x->_M_parent->_M_left) { x = x->_M_parent; rotr(x, root); }
        x->_M_parent->_M_color = _S_black; xpp->_M_color = _S_red; rotl(xpp, root);
      }
    }
  }
  root->_M_color = _S_black;
}
B* _Rb_tree_rebalance_for_erase(B* const z, B& h) throw() {
  B*& root = h._M_parent; B*& leftmost = h._M_left; B*& rightmost = h._M_right;
  B* y = z; B* x = 0; B* xp = 0;
  if (y->_M_left == 0) x = y->_M_right;
  else if (y->_M_right == 0) x = y->_M_left;
  else { y = y->_M_right; while (y->_M_left) y = y->_M_left; x = y->_M_right; }
  if (y != z) {
    z->_M_left->_M_parent = y; y->_M_left = z->_M_left;
    if (y != z->_M_right) {
      xp = y->_M_parent;
      if (x) x->_M_parent = y->_M_parent;
      y->_M_parent->_M_left = x; y->_M_right = z->_M_right; z->_M_right->_M_parent = y;
    } else xp = y;
    if (root == z) root = y;
    else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = y;
    else z->_M_parent->_M_right = y;
    y->_M_parent = z->_M_parent;
    std::swap(y->_M_color, z->_M_color);
    y = z;
  } else {
    xp = y->_M_parent;
    if (x) x->_M_parent = y->_M_parent;
    if (root == z) root = x;
    else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = x;
    else z->_M_parent->_M_right = x;
    if (leftmost == z) {
      if (z->_M_right == 0) leftmost = z->_M_parent;
      else { B* m = x; while (m->_M_left) m = m->_M_left; leftmost = m; }
    }
    if (rightmost == z) {
      if (z->_M_left == 0) rightmost = z->_M_parent;
      else { B* m = x; while (m->_M_right) m = m->_M_right; rightmost = m; }
    }
  }
  if (y->_M_color != _S_red) {
    while (x != root && (x == 0 || x->_M_color == _S_black))
      if (x == xp->_M_left) {
        B* w = xp->_M_right;
        if (w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; rotl(xp, root); w = xp->_M_right; }
        if ((w->_M_left == 0 || w->_M_left->_M_color == _S_black) && (w->_M_right == 0 || w->_M_right->_M_color == _S_black)) { w->_M_color = _S_red; x = xp; xp = xp->_M_parent; }
        else {
          if (w->_M_right == 0 || w->_M_right->_M_color == _S_black) { w->_M_left->_M_color = _S_black; w->_M_color = _S_red; rotr(w, root); w = xp->_M_right; }
          w->_M_color = xp->_M_color; xp->_M_color = _S_black;
          if (w->_M_right) w->_M_right->_M_color = _S_black;
          rotl(xp, root);
          break;
        }
      } else {
        B* w = xp->_M_left;
        if (w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; rotr(xp, root); w = xp->_M_left; }
        if ((w->_M_right == 0 || w->_M_right->_M_color == _S_black) && (w->_M_left == 0 || w->_M_left->_M_color == _S_black)) { w->_M_color = _S_red; x = xp; xp = xp->_M_parent; }
        else {
          if (w->_M_left == 0 || w->_M_left->_M_color == _S_black) { w->_M_right->_M_color = _S_black; w->_M_color = _S_red; rotl(w, root); w = xp->_M_left; }
          w->_M_color = xp->_M_color; xp->_M_color = _S_black;
          if (w->_M_left) w->_M_left->_M_color = _S_black;
          rotr(xp, root);
          break;
        }
      }
    if (x) x->_M_color = _S_black;
  }
  return y;
}
namespace __detail {
void _List_node_base::_M_hook(_List_node_base* const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _List_node_base* const n = _M_next; _List_node_base* const p = _M_prev; p->_M_next = n; n->_M_prev = p; }
void _List_node_base::_M_transfer(_List_node_base* const first, _List_node_base* const last) noexcept {
  if (this != last) {
    last->_M_prev->_M_next = this; first->_M_prev->_M_next = last; _M_prev->_M_next = first;
    _List_node_base* const t = _M_prev;
    _M_prev = last->_M_prev; last->_M_prev = first->_M_prev; first->_M_prev = t;
  }
}
void _List_node_base::swap(_List_node_base& x, _List_node_base& y) noexcept {
  if (x._M_next != &x) {
    if (y._M_next != &y) {
      std::swap(x._M_next, y._M_next); std::swap(x._M_prev, y._M_prev);
      x._M_next->_M_prev = x._M_prev->_M_next = &x;
      y._M_next->_M_prev = y._M_prev->_M_next = &y;
    } else {
      y._M_next = x._M_next; y._M_prev = x._M_prev;
      y._M_next->_M_prev = y._M_prev->_M_next = &y;
      x._M_next = x._M_prev = &x;
    }
  } else if (y._M_next != &y) {
    x._M_next = y._M_next; x._M_prev = y._M_prev;
    x._M_next->_M_prev = x._M_prev->_M_next = &x;
    y._M_next = y._M_prev = &y;
  }
}
void _List_node_base::_M_reverse() noexcept {
  _List_node_base* t = this;
  do { std::swap(t->_M_next, t->_M_prev); t = t->_M_prev; } while (t != this);
}
}
}
#include <unordered_map>
namespace std {
size_t _Hash_bytes(const void* p, size_t n, size_t seed) { size_t h = seed; for (size_t i = 0; i < n; i++) h = h * 31 + ((const unsigned char*)p)[i]; return h; }
namespace __detail {
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const { size_t b = n < 13 ? 13 : n * 2 + 1; _M_next_resize = b; return b; }
std::pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t nb, size_t ne, size_t ni) const {
  if (ne + ni > _M_next_resize) { size_t b = nb * 2 + 1; while (b < ne + ni) b = b * 2 + 1; if (b < 13) b = 13; _M_next_resize = b; return {true, b}; }
  return {false, 0};
}
}
}
extern "C" bool _ZNSt19_Sp_make_shared_tag5_S_eqERKSt9type_info(const void*) { return false; }

// ---------------------------------------------------------------- C++ ABI
namespace abi_rt {
struct TI { void** vptr; const char* name; };
struct SI : TI { const TI* base; };
struct BaseInfo { const TI* t; long flags; };
struct VMI : TI { unsigned flags, n; BaseInfo b[1]; };
}
extern "C" {
void* _ZTVN10__cxxabiv117__class_type_infoE[8] = {0, 0, (void*)1, 0};
void* _ZTVN10__cxxabiv120__si_class_type_infoE[8] = {0, 0, (void*)2, 0};
void* _ZTVN10__cxxabiv121__vmi_class_type_infoE[8] = {0, 0, (void*)3, 0};
void* _ZTVN10__cxxabiv119__pointer_type_infoE[8] = {0, 0, (void*)4, 0};
}
namespace abi_rt {
static bool same(const TI* a, const TI* b) {
  if (a == b || a->name == b->name) return true;
  const char *x = a->name, *y = b->name;
  while (*x && *x == *y) { x++; y++; }
  return *x == *y;
}
static int kind(const TI* t) { return (int)(long)t->vptr[0]; }
// collect the address of the unique `want` sub-object of the object of type t at p
static void find(const TI* t, const char* p, const TI* want, const void** out, int* n) {
  if (same(t, want)) { if (*n == 0 || *out != p) { *out = p; (*n)++; } return; }
  int k = kind(t);
  if (k == 2) find(((const SI*)t)->base, p, want, out, n);
  else if (k == 3) {
    const VMI* v = (const VMI*)t;
    for (unsigned i = 0; i < v->n; i++) {
      long off = v->b[i].flags >> 8;
      if (v->b[i].flags & 1) off = *(long*)(*(char**)p + off);
      find(v->b[i].t, p + off, want, out, n);
    }
  }
}
}
extern "C" void* __dynamic_cast(const void* src, const void*, const void* dst, long) {
  using namespace abi_rt;
  void** vt = *(void***)src;
  const char* whole = (const char*)src + (long)vt[-2];
  const TI* dyn = (const TI*)vt[-1];
  const void* r = nullptr; int n = 0;
  find(dyn, whole, (const TI*)dst, &r, &n);
  return n == 1 ? (void*)r : nullptr;
}

// ---------------------------------------------------------------- libc
extern "C" {
size_t strlen(const char* s) { size_t n = 0; while (s[n]) n++; return n; }
size_t strnlen(const char* s, size_t m) { size_t n = 0; while (n < m && s[n]) n++; return n; }
int strcmp(const char* a, const char* b) { while (*a && *a == *b) { a++; b++; } return (unsigned char)*a - (unsigned char)*b; }
int strncmp(const char* a, const char* b, size_t n) { for (; n; n--, a++, b++) { if (*a != *b) return (unsigned char)*a - (unsigned char)*b; if (!*a) break; } return 0; }
static int lc(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int strcasecmp(const char* a, const char* b) { while (*a && lc((unsigned char)*a) == lc((unsigned char)*b)) { a++; b++; } return lc((unsigned char)*a) - lc((unsigned char)*b); }
int strncasecmp(const char* a, const char* b, size_t n) { for (; n; n--, a++, b++) { int d = lc((unsigned char)*a) - lc((unsigned char)*b); if (d) return d; if (!*a) break; } return 0; }
char* strcpy(char* d, const char* s) { size_t i = 0; do d[i] = s[i]; while (s[i++]); return d; }
char* strncpy(char* d, const char* s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char* strcat(char* d, const char* s) { strcpy(d + strlen(d), s); return d; }
void* memchr(const void* s, int c, size_t n) { const unsigned char* p = (const unsigned char*)s; for (size_t i = 0; i < n; i++) if (p[i] == (unsigned char)c) return (void*)(p + i); return nullptr; }
char* strchr(const char* s, int c) { for (;; s++) { if (*s == (char)c) return (char*)s; if (!*s) return nullptr; } }
char* strrchr(const char* s, int c) { const char* r = nullptr; for (;; s++) { if (*s == (char)c) r = s; if (!*s) return (char*)r; } }
char* strstr(const char* h, const char* n) { size_t k = strlen(n); for (;; h++) { if (!strncmp(h, n, k)) return (char*)h; if (!*h) return nullptr; } }
char* strpbrk(const char* s, const char* a) { for (; *s; s++) if (strchr(a, *s)) return (char*)s; return nullptr; }
size_t strspn(const char* s, const char* a) { size_t n = 0; while (s[n] && strchr(a, s[n])) n++; return n; }
size_t strcspn(const char* s, const char* a) { size_t n = 0; while (s[n] && !strchr(a, s[n])) n++; return n; }
static int sp(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int isspace(int c) { return sp(c); }
int isdigit(int c) { return c >= '0' && c <= '9'; }
int isalpha(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
int isalnum(int c) { return isdigit(c) || isalpha(c); }
int isxdigit(int c) { return isdigit(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
int isupper(int c) { return c >= 'A' && c <= 'Z'; }
int islower(int c) { return c >= 'a' && c <= 'z'; }
int tolower(int c) { return lc(c); }
int toupper(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
static int err_no;
unsigned inet_addr(const char* c) {  // dotted quads only
  unsigned v = 0; 
  for (int i = 0; i < 4; i++) {
    unsigned o = 0; int d = 0;
    while (*c >= '0' && *c <= '9') { o = o * 10 + (*c++ - '0'); if (o > 255 || ++d > 3) return ~0u; }
    if (!d || *c != (i < 3 ? '.' : 0)) return ~0u;
    if (i < 3) c++;
    v |= o << (8 * i);
  }
  return v;
}
__attribute__((weak)) int socket(int, int, int) { return 3; }
void* __cmsg_nxthdr(void* mhdr, void* cmsg) {  // x86-64 layout of msghdr and cmsghdr
  unsigned long control = *(unsigned long*)((char*)mhdr + 32), len = *(unsigned long*)((char*)mhdr + 40), n = *(unsigned long*)cmsg;
  if (n < 16) return nullptr;
  char* next = (char*)cmsg + ((n + 7) & ~7ul); char* end = (char*)control + len;
  if (next + 16 > end || next + ((*(unsigned long*)next + 7) & ~7ul) > end) return nullptr;
  return next;
}
__attribute__((weak)) int inet_pton(int, const char* c, void* o) {
  unsigned v = inet_addr(c);
  if (v == ~0u && !(c[0] == '2' && c[1] == '5' && c[2] == '5')) return 0;
  __builtin_memcpy(o, &v, 4);
  return 1;
}
__attribute__((weak)) const char* inet_ntop(int, const void* v, char* o, unsigned n) {
  auto p = (const unsigned char*)v; char b[16]; unsigned at = 0;
  for (int i = 0; i < 4; i++) { if (i) b[at++] = '.'; int x = p[i]; if (x > 99) b[at++] = (char)('0' + x / 100); if (x > 9) b[at++] = (char)('0' + x / 10 % 10); b[at++] = (char)('0' + x % 10); }
  b[at++] = 0;
  if (at > n) return nullptr;
  __builtin_memcpy(o, b, at);
  return o;
}
int* __errno_location() { return &err_no; }
char* strerror(int) { return (char*)"error"; }
static int digv(int c) { if (c >= '0' && c <= '9') return c - '0'; if (c >= 'a' && c <= 'z') return c - 'a' + 10; if (c >= 'A' && c <= 'Z') return c - 'A' + 10; return 99; }
static unsigned long conv(const char* s, char** end, int base, bool isSigned) {
  const char* p = s;
  while (sp((unsigned char)*p)) p++;
  bool neg = false;
  if (*p == '+' || *p == '-') { neg = *p == '-'; p++; }
  if ((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X') && digv((unsigned char)p[2]) < 16) { p += 2; base = 16; }
  else if (base == 0) base = p[0] == '0' ? 8 : 10;
  const char* st = p;
  unsigned long v = 0; bool ovf = false;
  unsigned long lim = isSigned ? (neg ? 0x8000000000000000ul : 0x7ffffffffffffffful) : ~0ul;
  for (;; p++) {
    int d = digv((unsigned char)*p);
    if (d >= base) break;
    if (v > (lim - d) / base) ovf = true;
    v = v * base + d;
  }
  if (end) *end = (char*)(p == st ? s : p);
  if (ovf) { err_no = 34; return lim; }
  return neg ? -v : v;
}
long strtol(const char* s, char** e, int b) { return (long)conv(s, e, b, true); }
long long strtoll(const char* s, char** e, int b) { return (long long)conv(s, e, b, true); }
unsigned long strtoul(const char* s, char** e, int b) { return conv(s, e, b, false); }
unsigned long long strtoull(const char* s, char** e, int b) { return conv(s, e, b, false); }
int atoi(const char* s) { return (int)conv(s, nullptr, 10, true); }
long atol(const char* s) { return (long)conv(s, nullptr, 10, true); }
long long atoll(const char* s) { return (long long)conv(s, nullptr, 10, true); }
// decimal fractions only (no exponents)
double strtod(const char* s, char** end) {
  const char* p = s;
  while (sp((unsigned char)*p)) p++;
  bool neg = false;
  if (*p == '+' || *p == '-') { neg = *p == '-'; p++; }
  double v = 0, f = 1; bool any = false;
  while (*p >= '0' && *p <= '9') { v = v * 10 + (*p - '0'); p++; any = true; }
  if (*p == '.') { p++; while (*p >= '0' && *p <= '9') { f /= 10; v += f * (*p - '0'); p++; any = true; } }
  if (end) *end = (char*)(any ? p : s);
  return neg ? -v : v;
}
double atof(const char* s) { return strtod(s, nullptr); }
__attribute__((weak)) int gettimeofday(struct timeval* tv, void*) { static long t = 1600000000; tv->tv_sec = t; tv->tv_usec = 0; return 0; }
time_t time(time_t* t) { if (t) *t = 1600000000; return 1600000000; }
__attribute__((weak)) struct tm* localtime_r(const time_t*, struct tm* r) { *r = tm(); return r; }
int rand() { return 4; }
void srand(unsigned) {}
static int emit(char* b, size_t n, size_t& o, char c) { if (o + 1 < n) b[o] = c; o++; return 0; }
int vsnprintf(char* b, size_t n, const char* f, va_list ap) {
  size_t o = 0;
  for (; *f; f++) {
    if (*f != '%') { emit(b, n, o, *f); continue; }
    f++;
    bool zero = false, left = false; int wd = 0, prec = -1, lng = 0;
    for (;; f++) { if (*f == '0') zero = true; else if (*f == '-') left = true; else if (*f == '+' || *f == ' ' || *f == '#') {} else break; }
    if (*f == '*') { wd = va_arg(ap, int); f++; } else while (*f >= '0' && *f <= '9') wd = wd * 10 + *f++ - '0';
    if (*f == '.') { f++; prec = 0; if (*f == '*') { prec = va_arg(ap, int); f++; } else while (*f >= '0' && *f <= '9') prec = prec * 10 + *f++ - '0'; }
    while (*f == 'l' || *f == 'z' || *f == 'h' || *f == 'j' || *f == 't') { if (*f != 'h') lng++; f++; }
    char t[32]; int k = 0;
    switch (*f) {
      case 's': { const char* s = va_arg(ap, const char*); if (!s) s = "(null)"; int m = 0; while ((prec < 0 || m < prec) && s[m]) m++;
        if (!left) for (int i = m; i < wd; i++) emit(b, n, o, ' ');
        for (int i = 0; i < m; i++) emit(b, n, o, s[i]);
        if (left) for (int i = m; i < wd; i++) emit(b, n, o, ' ');
        break; }
      case 'c': emit(b, n, o, (char)va_arg(ap, int)); break;
      case '%': emit(b, n, o, '%'); break;
      case 'd': case 'i': case 'u': case 'x': case 'X': case 'p': case 'o': {
        unsigned long v; bool neg = false;
        if (*f == 'd' || *f == 'i') { long x = lng ? va_arg(ap, long) : va_arg(ap, int); neg = x < 0; v = neg ? -(unsigned long)x : x; }
        else if (*f == 'p') v = va_arg(ap, unsigned long);
        else v = lng ? va_arg(ap, unsigned long) : va_arg(ap, unsigned);
        unsigned base = *f == 'x' || *f == 'X' || *f == 'p' ? 16 : *f == 'o' ? 8 : 10;
        do { unsigned d = v % base; t[k++] = d < 10 ? '0' + d : (*f == 'X' ? 'A' : 'a') + d - 10; v /= base; } while (v);
        while (k < prec && k < 30) t[k++] = '0';
        int tot = k + neg;
        if (neg && zero) emit(b, n, o, '-');
        if (!left) for (int i = tot; i < wd; i++) emit(b, n, o, zero ? '0' : ' ');
        if (neg && !zero) emit(b, n, o, '-');
        while (k) emit(b, n, o, t[--k]);
        if (left) for (int i = tot; i < wd; i++) emit(b, n, o, ' ');
        break; }
      case 'n': { static char* nullp; *nullp = 1; break; }
      case 'f': case 'g': { (void)va_arg(ap, double); emit(b, n, o, '0'); break; }
      case 0: f--; break;
      default: emit(b, n, o, *f);
    }
  }
  if (n) b[o < n ? o : n - 1] = 0;
  return (int)o;
}
int snprintf(char* b, size_t n, const char* f, ...) { va_list ap; va_start(ap, f); int r = vsnprintf(b, n, f, ap); va_end(ap); return r; }
int vsprintf(char* b, const char* f, va_list ap) { return vsnprintf(b, 1 << 20, f, ap); }
int sprintf(char* b, const char* f, ...) { va_list ap; va_start(ap, f); int r = vsnprintf(b, 1 << 20, f, ap); va_end(ap); return r; }
__attribute__((weak)) int printf(const char* f, ...) { char b[512]; va_list ap; va_start(ap, f); int r = vsnprintf(b, sizeof b, f, ap); va_end(ap); return r; }
__attribute__((weak)) int puts(const char*) { return 0; }
__attribute__((weak)) int putchar(int c) { return c; }
static int scan(const char* s0, const char* f, va_list ap) {
  const char* s = s0; int got = 0;
  for (; *f; f++) {
    if (sp((unsigned char)*f)) { while (sp((unsigned char)*s)) s++; continue; }
    if (*f != '%') { if (*s != *f) return *s || got ? got : -1; s++; continue; }
    f++;
    if (*f == '%') { if (*s++ != '%') return got; continue; }
    bool skip = *f == '*'; if (skip) f++;
    int wd = 0; while (*f >= '0' && *f <= '9') wd = wd * 10 + (*f++ - '0'); if (!wd) wd = 0x7fffffff;
    int lng = 0; while (*f == 'l' || *f == 'h' || *f == 'z') { lng += *f == 'h' ? -1 : 1; f++; }
    if (*f != 'c' && *f != '[' && *f != 'n') while (sp((unsigned char)*s)) s++;
    if (*f == 'n') { if (!skip) *va_arg(ap, int*) = (int)(s - s0); continue; }
    if (!*s) return got ? got : -1;
    switch (*f) {
      case 'd': case 'i': case 'u': case 'x': case 'X': {
        bool hex = *f == 'x' || *f == 'X', neg = false; unsigned long v = 0; int n = 0;
        if (n < wd && (*s == '-' || *s == '+')) { neg = *s == '-'; s++; wd--; }
        for (; n < wd; n++, s++) { int c = lc((unsigned char)*s), d = c >= '0' && c <= '9' ? c - '0' : hex && c >= 'a' && c <= 'f' ? c - 'a' + 10 : -1; if (d < 0) break; v = v * (hex ? 16 : 10) + d; }
        if (!n) return got;
        if (neg) v = -v;
        if (!skip) { void* p = va_arg(ap, void*); if (lng > 0) *(unsigned long*)p = v; else if (lng == 0) *(unsigned*)p = (unsigned)v; else if (lng == -1) *(unsigned short*)p = (unsigned short)v; else *(unsigned char*)p = (unsigned char)v; got++; }
        break; }
      case 's': case 'c': case '[': {
        char* p = skip ? nullptr : va_arg(ap, char*); bool str = *f != 'c'; int n = 0, max = *f == 'c' && wd == 0x7fffffff ? 1 : wd;
        const char* set = nullptr; bool no = false; const char* end = f;
        if (*f == '[') { set = f + 1; if (*set == '^') { no = true; set++; } end = set; if (*end == ']') end++; while (*end && *end != ']') end++; }
        for (; n < max && *s; n++, s++) {
          if (*f == 's' && sp((unsigned char)*s)) break;
          if (set) { bool in = false; for (const char* q = set; q < end; q++) { if (q + 2 < end && q[1] == '-') { if (*s >= *q && *s <= q[2]) in = true; q += 2; } else if (*s == *q) in = true; } if (in == no) break; }
          if (p) p[n] = *s;
        }
        if (!n) return got;
        if (p && str) p[n] = 0;
        if (p) got++;
        f = end;
        break; }
      default: { static char* nullp; *nullp = 1; }
    }
  }
  return got;
}
int sps_vp_scan(const char* s, const char* f, ...) asm("__isoc23_sscanf");
int sps_vp_scan(const char* s, const char* f, ...) { va_list ap; va_start(ap, f); int r = scan(s, f, ap); va_end(ap); return r; }
int sps_vp_scan99(const char* s, const char* f, ...) asm("__isoc99_sscanf");
int sps_vp_scan99(const char* s, const char* f, ...) { va_list ap; va_start(ap, f); int r = scan(s, f, ap); va_end(ap); return r; }
int sps_vp_scan0(const char* s, const char* f, ...) asm("sscanf");
int sps_vp_scan0(const char* s, const char* f, ...) { va_list ap; va_start(ap, f); int r = scan(s, f, ap); va_end(ap); return r; }
int isprint(int c) { return c >= 32 && c < 127; }
int iscntrl(int c) { return (c >= 0 && c < 32) || c == 127; }
int isgraph(int c) { return c > 32 && c < 127; }
int ispunct(int c) { return isgraph(c) && !isalnum(c); }
int isblank(int c) { return c == ' ' || c == '\t'; }
char* strncat(char* d, const char* s, size_t n) { size_t k = strlen(d), i = 0; for (; i < n && s[i]; i++) d[k + i] = s[i]; d[k + i] = 0; return d; }
char* sps_vp_strcasestr(const char* h, const char* n) asm("strcasestr");
char* sps_vp_strcasestr(const char* h, const char* n) { size_t k = strlen(n); for (;; h++) { if (!strncasecmp(h, n, k)) return (char*)h; if (!*h) return nullptr; } }
void* sps_vp_memrchr(const void* s, int c, size_t n) asm("memrchr");
void* sps_vp_memrchr(const void* s, int c, size_t n) { auto p = (const unsigned char*)s; while (n--) if (p[n] == (unsigned char)c) return (void*)(p + n); return nullptr; }
void* sps_vp_memmem(const void* h, size_t hn, const void* n, size_t k) asm("memmem");
void* sps_vp_memmem(const void* h, size_t hn, const void* n, size_t k) { for (size_t i = 0; i + k <= hn; i++) if (!__builtin_memcmp((const char*)h + i, n, k)) return (char*)h + i; return nullptr; }
void* sps_vp_mempcpy(void* d, const void* s, size_t n) asm("mempcpy");
void* sps_vp_mempcpy(void* d, const void* s, size_t n) { __builtin_memcpy(d, s, n); return (char*)d + n; }
char* sps_vp_stpcpy(char* d, const char* s) asm("stpcpy");
char* sps_vp_stpcpy(char* d, const char* s) { strcpy(d, s); return d + strlen(d); }
void qsort(void* b, size_t n, size_t k, int (*cmp)(const void*, const void*)) {
  char* p = (char*)b;
  for (size_t i = 1; i < n; i++) for (size_t j = i; j && cmp(p + (j - 1) * k, p + j * k) > 0; j--) for (size_t q = 0; q < k; q++) { char t = p[(j - 1) * k + q]; p[(j - 1) * k + q] = p[j * k + q]; p[j * k + q] = t; }
}
long sps_vp_steady() asm("_ZNSt6chrono3_V212steady_clock3nowEv"); long sps_vp_steady() { static long t = 1000000000; return t; }
long sps_vp_system() asm("_ZNSt6chrono3_V212system_clock3nowEv"); long sps_vp_system() { return 1600000000000000000l; }
void* malloc(size_t);
char* strdup(const char* s) { size_t n = strlen(s) + 1; char* p = (char*)malloc(n); __builtin_memcpy(p, s, n); return p; }
char* strndup(const char* s, size_t m) { size_t n = strnlen(s, m); char* p = (char*)malloc(n + 1); __builtin_memcpy(p, s, n); p[n] = 0; return p; }
static char* tok_save;
char* strtok_r(char* s, const char* d, char** sv) { if (!s) s = *sv; s += strspn(s, d); if (!*s) { *sv = s; return nullptr; } char* e = s + strcspn(s, d); if (*e) *e++ = 0; *sv = e; return s; }
char* strtok(char* s, const char* d) { return strtok_r(s, d, &tok_save); }
char* strsep(char** sp, const char* d) { char* s = *sp; if (!s) return nullptr; char* e = s + strcspn(s, d); if (*e) { *e++ = 0; *sp = e; } else *sp = nullptr; return s; }
// one thread only: a mutex is never contended
int sps_vp_lock(void*) asm("pthread_mutex_lock"); __attribute__((weak)) int sps_vp_lock(void*) { return 0; }
int sps_vp_unlock(void*) asm("pthread_mutex_unlock"); __attribute__((weak)) int sps_vp_unlock(void*) { return 0; }
uint16_t ntohs(uint16_t v) { return (uint16_t)(v >> 8 | v << 8); }
uint16_t htons(uint16_t v) { return (uint16_t)(v >> 8 | v << 8); }
uint32_t ntohl(uint32_t v) { return __builtin_bswap32(v); }
uint32_t htonl(uint32_t v) { return __builtin_bswap32(v); }
}
namespace std { void ios_base_library_init() {} }
