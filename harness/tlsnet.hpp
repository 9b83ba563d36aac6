// OpenSSL as records [kind][length][bytes], a handshake of two flights each way,
// plain text in kind D, goodbye in kind A; cryptography is outside.
#pragma once
#include <openssl/ssl.h>
#include <cstring>
#include <string>
#include <vector>
#include <sym.hpp>
static std::string rec(char k, const std::string& d) {  // long ones have a longer length
  std::string s(2, 0); s[0] = k; s[1] = (char)d.size();
  if (d.size() > 254) { s[1] = (char)255; s += (char)(d.size() >> 8); s += (char)d.size(); }
  return s + d;
}
static int t_rec = 3;   // how much fits a record
struct bio_st { std::string d; };
struct ssl_ctx_st { int (*sni)(SSL*, int*, void*) = nullptr; };
struct ssl_st { SSL_CTX* ctx; BIO *r = nullptr, *w = nullptr; int role = -1, step = 0, err = 0; bool partial = false; std::string in, plain, name, host, cert, key; bool ended = false; };
static std::vector<std::string> t_served;  // certificates of the server sessions set up
static int t_errq;   // the thread's error queue: filled by failures, looked at by SSL_get_error
static int nssl, nctx, nbio; static bool badcert, badkey, nomatch; static SSL* last;
static bool take(SSL* s, char& kind, std::string& d) {  // one record; never reads past it
  while (s->in.size() < 2 && !s->r->d.empty()) { s->in += s->r->d[0]; s->r->d.erase(0, 1); }
  if (s->in.size() < 2) return false;
  size_t head = 2, want = 2 + (uint8_t)s->in[1];
  if (want == 257) {
    while (s->in.size() < 4 && !s->r->d.empty()) { s->in += s->r->d[0]; s->r->d.erase(0, 1); }
    if (s->in.size() < 4) return false;
    head = 4; want = 4 + ((size_t)(uint8_t)s->in[2] << 8) + (uint8_t)s->in[3];
  }
  if (s->in.size() < want) { size_t k = want - s->in.size(); if (k > s->r->d.size()) k = s->r->d.size(); s->in.append(s->r->d, 0, k); s->r->d.erase(0, k); }
  if (s->in.size() < want) return false;
  kind = s->in[0]; d = s->in.substr(head); s->in.clear(); return true;
}
extern "C" {
const SSL_METHOD* TLSv1_2_method(void) { return nullptr; }
const SSL_METHOD* TLS_method(void) { return nullptr; }
SSL_CTX* SSL_CTX_new(const SSL_METHOD*) { nctx++; return new ssl_ctx_st; }
void SSL_CTX_free(SSL_CTX* c) { nctx--; delete c; }
SSL* SSL_new(SSL_CTX* c) { nssl++; SSL* s = new ssl_st; s->ctx = c; last = s; return s; }
void SSL_free(SSL* s) { nssl--; if (s->r) { nbio--; delete s->r; } if (s->w) { nbio--; delete s->w; } if (last == s) last = nullptr; delete s; }
const BIO_METHOD* BIO_s_mem(void) { return nullptr; }
BIO* BIO_new(const BIO_METHOD*) { nbio++; return new bio_st; }
int BIO_free(BIO* b) { nbio--; delete b; return 1; }
void SSL_set_bio(SSL* s, BIO* r, BIO* w) { s->r = r; s->w = w; }
void SSL_CTX_set_verify(SSL_CTX*, int, SSL_verify_cb) {}
int SSL_CTX_set_cipher_list(SSL_CTX*, const char*) { return 1; }
void SSL_set_connect_state(SSL* s) { s->role = 0; }
void SSL_set_accept_state(SSL* s) { s->role = 1; }
long SSL_ctrl(SSL* s, int cmd, long l, void* p) { if (cmd == 33) s->partial = l & 1; if (cmd == 55) s->host = (const char*)p; return 1; }
long SSL_CTX_ctrl(SSL_CTX*, int, long, void*) { return 1; }
long SSL_CTX_callback_ctrl(SSL_CTX* c, int, void (*f)(void)) { c->sni = (int (*)(SSL*, int*, void*))f; return 1; }
SSL_CTX* SSL_get_SSL_CTX(const SSL* s) { return s->ctx; }
const char* SSL_get_servername(const SSL* s, const int) { return s->name.empty() ? nullptr : s->name.c_str(); }
int SSL_use_certificate_file(SSL* s, const char* f, int) { if (badcert) { t_errq++; return 0; } s->cert = f; return 1; }
int SSL_use_RSAPrivateKey_file(SSL* s, const char* f, int) { if (badkey) { t_errq++; return 0; } s->key = f; return 1; }
int SSL_use_PrivateKey_file(SSL* s, const char* f, int) { if (badkey) { t_errq++; return 0; } s->key = f; return 1; }
int SSL_check_private_key(const SSL* s) { if (nomatch) { ((SSL*)s)->key.clear(); return 0; } return s->cert.empty() || s->key.empty() ? 0 : 1; }
int SSL_is_init_finished(const SSL* s) { return s->step == 9; }
int BIO_write(BIO* b, const void* p, int n) { b->d.append((const char*)p, (size_t)n); return n; }
size_t BIO_ctrl_pending(BIO* b) { return b->d.size(); }
long BIO_ctrl(BIO* b, int cmd, long, void* p) {
  if (cmd == 1) { b->d.clear(); return 1; }
  if (cmd == 3) { if (p) *(char**)p = (char*)b->d.data(); return (long)b->d.size(); }
  if (cmd == 10) return (long)b->d.size();
  return 1;
}
int BIO_read(BIO* b, void* p, int n) { if (b->d.empty()) return -1; int k = (int)b->d.size() < n ? (int)b->d.size() : n; memcpy(p, b->d.data(), (size_t)k); b->d.erase(0, (size_t)k); return k; }
static int want(SSL* s, int e) { s->err = e; if (e == SSL_ERROR_SSL) t_errq++; return -1; }
void ERR_clear_error(void) { t_errq = 0; }
unsigned long ERR_peek_error(void) { return (unsigned long)t_errq; }
unsigned long ERR_get_error(void) { return t_errq ? (unsigned long)t_errq-- : 0; }
int SSL_do_handshake(SSL* s) {
  char k; std::string d; CHECK(s->role >= 0, "a role is chosen");
  if (s->step == 9) return 1;
  if (s->err == SSL_ERROR_SSL) { t_errq++; return -1; }
  t_errq = 0;
  if (s->role == 0 && s->step == 0) { s->w->d += rec('H', "1" + s->host); s->step = 1; }
  for (;;) {
    if (!take(s, k, d)) return want(s, SSL_ERROR_WANT_READ);
    if (k != 'H' || d.empty()) return want(s, SSL_ERROR_SSL);
    if (s->role == 1) {
      if (s->step == 0) {
        if (d[0] != '1') return want(s, SSL_ERROR_SSL);
        s->name = d.substr(1);
        if (s->ctx->sni) { int a = 0; s->ctx->sni(s, &a, nullptr); }
        if (s->cert.empty() || s->key.empty()) return want(s, SSL_ERROR_SSL);
        s->w->d += rec('H', "2a") + rec('H', "2b"); s->step = 1;
      } else if (s->step == 1) { if (d != "3a") return want(s, SSL_ERROR_SSL); s->step = 2; }
      else { if (d.compare(0, 2, "3b") != 0) return want(s, SSL_ERROR_SSL); s->w->d += rec('H', "4"); s->step = 9; t_served.push_back(s->cert + " " + s->key); s->err = 0; return 1; }
    } else {
      if (s->step == 1) { if (d != "2a") return want(s, SSL_ERROR_SSL); s->step = 2; }
      else if (s->step == 2) { if (d.compare(0, 2, "2b") != 0) return want(s, SSL_ERROR_SSL); s->w->d += rec('H', "3a") + rec('H', "3b"); s->step = 3; }
      else { if (d != "4") return want(s, SSL_ERROR_SSL); s->step = 9; s->err = 0; return 1; }
    }
  }
}
int SSL_get_error(const SSL* s, int n) { return n > 0 ? 0 : t_errq ? SSL_ERROR_SSL : s->err; }
int SSL_read(SSL* s, void* b, int n) {
  CHECK(s->step == 9, "only after the handshake"); char k; std::string d;
  while (s->plain.empty() && !s->ended) {
    if (!take(s, k, d)) return want(s, SSL_ERROR_WANT_READ);
    if (k == 'A') s->ended = true; else if (k != 'D') return want(s, SSL_ERROR_SSL); else s->plain = d;
  }
  if (s->plain.empty()) { s->err = SSL_ERROR_ZERO_RETURN; return 0; }
  int m = (int)s->plain.size() < n ? (int)s->plain.size() : n;
  memcpy(b, s->plain.data(), (size_t)m); s->plain = s->plain.substr((size_t)m); s->err = 0; return m;
}
int SSL_pending(const SSL* s) { return (int)s->plain.size(); }
int SSL_write(SSL* s, const void* b, int n) {
  CHECK(s->step == 9, "only after the handshake");
  int at = 0;
  do { int k = n - at < t_rec ? n - at : t_rec; s->w->d += rec('D', std::string((const char*)b + at, (size_t)k)); at += k; } while (at < n && !s->partial);
  return at;
}
int SSL_shutdown(SSL* s) { s->w->d += rec('A', ""); return 0; }
}
