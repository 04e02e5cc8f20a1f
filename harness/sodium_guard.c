/* libsodium is not instrumented: tell the sanitizer what each call reads and writes */
#include <stddef.h>
#include <sodium.h>
#if __has_feature(thread_sanitizer)
void __tsan_read_range(void *p, unsigned long n);
void __tsan_write_range(void *p, unsigned long n);
static void rd(const void *p, size_t n) { __tsan_read_range((void*) p, n); }
static void wr(const void *p, size_t n) { __tsan_write_range((void*) p, n); }
#else
void *__asan_region_is_poisoned(void *p, size_t n);
/* an access of our own makes the sanitizer report the bad byte with its stack */
static void rd(const void *p, size_t n) { volatile const char *b = __asan_region_is_poisoned((void*) p, n); if(b) (void) *b; }
static void wr(const void *p, size_t n) { volatile char *b = __asan_region_is_poisoned((void*) p, n); if(b) *b = *b; }
#endif
/* a harness may let threads change after each call */
void sodium_between(void) __attribute__((weak));
#define RD(p, n) do { if((p) && (n)) rd((p), (n)); } while(0)
#define WR(p, n) do { if((p) && (n)) wr((p), (n)); } while(0)
#define BR do { if(sodium_between) sodium_between(); } while(0)
typedef unsigned char uc; typedef unsigned long long ull;
#define UN(name, on, in) int __real_##name(uc *o, const uc *a); int __wrap_##name(uc *o, const uc *a) { RD(a, in); WR(o, on); int r = __real_##name(o, a); BR; return r; }
#define UNV(name, on, in) void __real_##name(uc *o, const uc *a); void __wrap_##name(uc *o, const uc *a) { RD(a, in); WR(o, on); __real_##name(o, a); BR; }
#define BIN(name, on) int __real_##name(uc *o, const uc *a, const uc *b); int __wrap_##name(uc *o, const uc *a, const uc *b) { RD(a, 32); RD(b, 32); WR(o, on); int r = __real_##name(o, a, b); BR; return r; }
#define BINV(name, on) void __real_##name(uc *o, const uc *a, const uc *b); void __wrap_##name(uc *o, const uc *a, const uc *b) { RD(a, 32); RD(b, 32); WR(o, on); __real_##name(o, a, b); BR; }
#define RND(name) void __real_##name(uc *o); void __wrap_##name(uc *o) { WR(o, 32); __real_##name(o); BR; }
UN(crypto_core_ristretto255_from_hash, 32, 64)
UN(crypto_core_ristretto255_scalar_invert, 32, 32)
UN(crypto_scalarmult_ristretto255_base, 32, 32)
UN(crypto_scalarmult_base, 32, 32)
UNV(crypto_core_ristretto255_scalar_reduce, 32, 64)
BIN(crypto_core_ristretto255_add, 32)
BIN(crypto_scalarmult_ristretto255, 32)
BIN(crypto_scalarmult, 32)
BINV(crypto_core_ristretto255_scalar_add, 32)
BINV(crypto_core_ristretto255_scalar_sub, 32)
BINV(crypto_core_ristretto255_scalar_mul, 32)
RND(crypto_core_ristretto255_scalar_random)
int __real_crypto_core_ristretto255_is_valid_point(const uc *p);
int __wrap_crypto_core_ristretto255_is_valid_point(const uc *p) { RD(p, 32); int r = __real_crypto_core_ristretto255_is_valid_point(p); BR; return r; }
int __real_crypto_hash_sha512(uc *o, const uc *m, ull n);
int __wrap_crypto_hash_sha512(uc *o, const uc *m, ull n) { RD(m, n); WR(o, 64); int r = __real_crypto_hash_sha512(o, m, n); BR; return r; }
int __real_crypto_hash_sha512_init(crypto_hash_sha512_state *s);
int __wrap_crypto_hash_sha512_init(crypto_hash_sha512_state *s) { WR(s, sizeof *s); int r = __real_crypto_hash_sha512_init(s); BR; return r; }
int __real_crypto_hash_sha512_update(crypto_hash_sha512_state *s, const uc *m, ull n);
int __wrap_crypto_hash_sha512_update(crypto_hash_sha512_state *s, const uc *m, ull n) { RD(m, n); WR(s, sizeof *s); int r = __real_crypto_hash_sha512_update(s, m, n); BR; return r; }
int __real_crypto_hash_sha512_final(crypto_hash_sha512_state *s, uc *o);
int __wrap_crypto_hash_sha512_final(crypto_hash_sha512_state *s, uc *o) { WR(s, sizeof *s); WR(o, 64); int r = __real_crypto_hash_sha512_final(s, o); BR; return r; }
int __real_crypto_generichash(uc *o, size_t on, const uc *m, ull n, const uc *k, size_t kn);
int __wrap_crypto_generichash(uc *o, size_t on, const uc *m, ull n, const uc *k, size_t kn) { RD(m, n); RD(k, kn); WR(o, on); int r = __real_crypto_generichash(o, on, m, n, k, kn); BR; return r; }
#define GH(pre) \
int __real_##pre##_init(crypto_generichash_state *s, const uc *k, const size_t kn, const size_t on); \
int __wrap_##pre##_init(crypto_generichash_state *s, const uc *k, const size_t kn, const size_t on) { RD(k, kn); WR(s, sizeof *s); int r = __real_##pre##_init(s, k, kn, on); BR; return r; } \
int __real_##pre##_update(crypto_generichash_state *s, const uc *m, ull n); \
int __wrap_##pre##_update(crypto_generichash_state *s, const uc *m, ull n) { RD(m, n); WR(s, sizeof *s); int r = __real_##pre##_update(s, m, n); BR; return r; } \
int __real_##pre##_final(crypto_generichash_state *s, uc *o, const size_t on); \
int __wrap_##pre##_final(crypto_generichash_state *s, uc *o, const size_t on) { WR(s, sizeof *s); WR(o, on); int r = __real_##pre##_final(s, o, on); BR; return r; }
GH(crypto_generichash)
GH(crypto_generichash_blake2b)
int __real_crypto_auth(uc *o, const uc *m, ull n, const uc *k);
int __wrap_crypto_auth(uc *o, const uc *m, ull n, const uc *k) { RD(m, n); RD(k, 32); WR(o, crypto_auth_BYTES); int r = __real_crypto_auth(o, m, n, k); BR; return r; }
int __real_crypto_auth_verify(const uc *h, const uc *m, ull n, const uc *k);
int __wrap_crypto_auth_verify(const uc *h, const uc *m, ull n, const uc *k) { RD(h, crypto_auth_BYTES); RD(m, n); RD(k, 32); int r = __real_crypto_auth_verify(h, m, n, k); BR; return r; }
int __real_crypto_sign_detached(uc *o, ull *on, const uc *m, ull n, const uc *k);
int __wrap_crypto_sign_detached(uc *o, ull *on, const uc *m, ull n, const uc *k) { RD(m, n); RD(k, 64); WR(o, 64); int r = __real_crypto_sign_detached(o, on, m, n, k); BR; return r; }
int __real_crypto_sign_verify_detached(const uc *s, const uc *m, ull n, const uc *k);
int __wrap_crypto_sign_verify_detached(const uc *s, const uc *m, ull n, const uc *k) { RD(s, 64); RD(m, n); RD(k, 32); int r = __real_crypto_sign_verify_detached(s, m, n, k); BR; return r; }
int __real_crypto_sign_keypair(uc *p, uc *s);
int __wrap_crypto_sign_keypair(uc *p, uc *s) { WR(p, 32); WR(s, 64); int r = __real_crypto_sign_keypair(p, s); BR; return r; }
void __real_randombytes_buf(void *p, const size_t n);
void __wrap_randombytes_buf(void *p, const size_t n) { WR(p, n); __real_randombytes_buf(p, n); BR; }
int __real_crypto_aead_chacha20poly1305_ietf_encrypt(uc *c, ull *cl, const uc *m, ull n, const uc *ad, ull an, const uc *ns, const uc *np, const uc *k);
int __wrap_crypto_aead_chacha20poly1305_ietf_encrypt(uc *c, ull *cl, const uc *m, ull n, const uc *ad, ull an, const uc *ns, const uc *np, const uc *k) {
  RD(m, n); RD(ad, an); RD(np, 12); RD(k, 32);
  WR(c, n + 16);
  int r = __real_crypto_aead_chacha20poly1305_ietf_encrypt(c, cl, m, n, ad, an, ns, np, k);
  BR; return r;
}
int __real_crypto_aead_chacha20poly1305_ietf_decrypt(uc *m, ull *ml, uc *ns, const uc *c, ull n, const uc *ad, ull an, const uc *np, const uc *k);
int __wrap_crypto_aead_chacha20poly1305_ietf_decrypt(uc *m, ull *ml, uc *ns, const uc *c, ull n, const uc *ad, ull an, const uc *np, const uc *k) {
  RD(c, n); RD(ad, an); RD(np, 12); RD(k, 32);
  if(n >= 16) WR(m, n - 16);
  int r = __real_crypto_aead_chacha20poly1305_ietf_decrypt(m, ml, ns, c, n, ad, an, np, k);
  BR; return r;
}
void __real_sodium_memzero(void * const p, const size_t n);
void __wrap_sodium_memzero(void * const p, const size_t n) { WR(p, n); __real_sodium_memzero(p, n); BR; }
int __real_sodium_memcmp(const void * const a, const void * const b, size_t n);
int __wrap_sodium_memcmp(const void * const a, const void * const b, size_t n) { RD(a, n); RD(b, n); int r = __real_sodium_memcmp(a, b, n); BR; return r; }
int __real_sodium_munlock(void * const p, const size_t n);
int __wrap_sodium_munlock(void * const p, const size_t n) { WR(p, n); int r = __real_sodium_munlock(p, n); BR; return r; }
