/* Computations with secrets marked undefined for memcheck.
   Every libsodium call that may take a secret is wrapped: it runs on defined copies, and its outputs become undefined
   when an input was, unless they are published by nature (public keys, ciphertexts, signatures, return codes).
   So memcheck reports exactly the jumps and addresses in the library itself that depend on a secret. */
#include "work.h"
#include <valgrind/memcheck.h>

static int on;                       /* wrappers are active */
static long tainted_calls, secret_bytes, out_tainted;
static int taint_rand;               /* 32 random bytes are a secret */
static size_t plain_len, plain_from; /* decrypted messages of this length are secret from that byte */
static void undef(const void *p, size_t n) { if(n) { VALGRIND_MAKE_MEM_UNDEFINED(p, n); secret_bytes += (long) n; } }
static void def(const void *p, size_t n) { if(n) VALGRIND_MAKE_MEM_DEFINED(p, n); }
static int tainted(const void *p, size_t n) {
  static unsigned char v[70000];
  if(!n || !p) return 0;
  for(size_t o = 0; o < n; o += sizeof v) {
    size_t c = n - o < sizeof v ? n - o : sizeof v;
    if(VALGRIND_GET_VBITS((const char*) p + o, v, c) != 1) return 0;
    for(size_t i = 0; i < c; i++) if(v[i]) return 1;
  }
  return 0;
}
static uint8_t *copy(const void *p, size_t n) { uint8_t *c = malloc(n + 1); if(!c) h_die("memory"); memcpy(c, p, n); def(c, n); return c; }
#define ACTIVE(name, args) if(!on) return __real_##name args
/* one output of on bytes, two inputs */
#define W2(name, ON, AN, BN) \
  int __real_##name(unsigned char *o, const unsigned char *a, const unsigned char *b); \
  int __wrap_##name(unsigned char *o, const unsigned char *a, const unsigned char *b) { \
    ACTIVE(name, (o, a, b)); \
    int t = tainted(a, AN) | tainted(b, BN); uint8_t *x = copy(a, AN), *y = copy(b, BN); \
    int r = __real_##name(o, x, y); free(x); free(y); \
    if(t) { tainted_calls++; undef(o, ON); } return r; }
#define W1(name, ON, AN) \
  int __real_##name(unsigned char *o, const unsigned char *a); \
  int __wrap_##name(unsigned char *o, const unsigned char *a) { \
    ACTIVE(name, (o, a)); \
    int t = tainted(a, AN); uint8_t *x = copy(a, AN); int r = __real_##name(o, x); free(x); \
    if(t) { tainted_calls++; undef(o, ON); } return r; }
#define W2V(name, ON, AN, BN) \
  void __real_##name(unsigned char *o, const unsigned char *a, const unsigned char *b); \
  void __wrap_##name(unsigned char *o, const unsigned char *a, const unsigned char *b) { \
    if(!on) { __real_##name(o, a, b); return; } \
    int t = tainted(a, AN) | tainted(b, BN); uint8_t *x = copy(a, AN), *y = copy(b, BN); \
    __real_##name(o, x, y); free(x); free(y); \
    if(t) { tainted_calls++; undef(o, ON); } }
W2(crypto_scalarmult_ristretto255, 32, 32, 32)
W2(crypto_core_ristretto255_add, 32, 32, 32)
W2(crypto_core_ristretto255_sub, 32, 32, 32)
W2(crypto_scalarmult, 32, 32, 32)
W2V(crypto_core_ristretto255_scalar_mul, 32, 32, 32)
W2V(crypto_core_ristretto255_scalar_add, 32, 32, 32)
W2V(crypto_core_ristretto255_scalar_sub, 32, 32, 32)
W1(crypto_core_ristretto255_scalar_invert, 32, 32)
W1(crypto_core_ristretto255_from_hash, 32, 64)
W1(crypto_scalarmult_ristretto255_base, 32, 32)
/* published: public key */
int __real_crypto_scalarmult_base(unsigned char *q, const unsigned char *n);
int __wrap_crypto_scalarmult_base(unsigned char *q, const unsigned char *n) {
  ACTIVE(crypto_scalarmult_base, (q, n));
  uint8_t *x = copy(n, 32); tainted_calls += tainted(n, 32); int r = __real_crypto_scalarmult_base(q, x); free(x); return r;
}
int __real_crypto_core_ristretto255_is_valid_point(const unsigned char *p);
int __wrap_crypto_core_ristretto255_is_valid_point(const unsigned char *p) {
  ACTIVE(crypto_core_ristretto255_is_valid_point, (p));
  uint8_t *x = copy(p, 32); int r = __real_crypto_core_ristretto255_is_valid_point(x); free(x); return r;
}
void __real_crypto_core_ristretto255_scalar_random(unsigned char *r);
void __wrap_crypto_core_ristretto255_scalar_random(unsigned char *r) { __real_crypto_core_ristretto255_scalar_random(r); if(on) undef(r, 32); }
void __real_randombytes_buf(void *p, size_t n);
void __wrap_randombytes_buf(void *p, size_t n) { __real_randombytes_buf(p, n); if(on && n == 32 && taint_rand && sim_party != 0) undef(p, n); }
int __real_sodium_memcmp(const void *a, const void *b, size_t n);
int __wrap_sodium_memcmp(const void *a, const void *b, size_t n) {
  ACTIVE(sodium_memcmp, (a, b, n));
  uint8_t *x = copy(a, n), *y = copy(b, n); tainted_calls += tainted(a, n) | tainted(b, n);
  int r = __real_sodium_memcmp(x, y, n); free(x); free(y); return r;
}
int __real_sodium_is_zero(const unsigned char *a, size_t n);
int __wrap_sodium_is_zero(const unsigned char *a, size_t n) {
  ACTIVE(sodium_is_zero, (a, n));
  uint8_t *x = copy(a, n); int r = __real_sodium_is_zero(x, n); free(x); return r;
}
int __real_crypto_sign_keypair(unsigned char *pk, unsigned char *sk);
int __wrap_crypto_sign_keypair(unsigned char *pk, unsigned char *sk) {
  int r = __real_crypto_sign_keypair(pk, sk);
  if(on && sim_party != 0) undef(sk, 32);         /* the second half is the public key */
  return r;
}
int __real_crypto_sign_detached(unsigned char *sig, unsigned long long *l, const unsigned char *m, unsigned long long n, const unsigned char *sk);
int __wrap_crypto_sign_detached(unsigned char *sig, unsigned long long *l, const unsigned char *m, unsigned long long n, const unsigned char *sk) {
  ACTIVE(crypto_sign_detached, (sig, l, m, n, sk));
  uint8_t *x = copy(m, n), *k = copy(sk, 64); tainted_calls += tainted(sk, 64);
  int r = __real_crypto_sign_detached(sig, l, x, n, k); free(x); free(k); return r;
}
int __real_crypto_auth(unsigned char *o, const unsigned char *m, unsigned long long n, const unsigned char *k);
int __wrap_crypto_auth(unsigned char *o, const unsigned char *m, unsigned long long n, const unsigned char *k) {
  ACTIVE(crypto_auth, (o, m, n, k));
  uint8_t *x = copy(m, n), *y = copy(k, 32); tainted_calls += tainted(k, 32);
  int r = __real_crypto_auth(o, x, n, y); free(x); free(y); return r;
}
int __real_crypto_auth_verify(const unsigned char *h, const unsigned char *m, unsigned long long n, const unsigned char *k);
int __wrap_crypto_auth_verify(const unsigned char *h, const unsigned char *m, unsigned long long n, const unsigned char *k) {
  ACTIVE(crypto_auth_verify, (h, m, n, k));
  uint8_t *x = copy(m, n), *y = copy(k, 32), *z = copy(h, 32); tainted_calls += tainted(k, 32);
  int r = __real_crypto_auth_verify(z, x, n, y); free(x); free(y); free(z); return r;
}
int __real_crypto_aead_chacha20poly1305_ietf_encrypt(unsigned char *c, unsigned long long *cl, const unsigned char *m, unsigned long long ml, const unsigned char *ad, unsigned long long al, const unsigned char *ns, const unsigned char *np, const unsigned char *k);
int __wrap_crypto_aead_chacha20poly1305_ietf_encrypt(unsigned char *c, unsigned long long *cl, const unsigned char *m, unsigned long long ml, const unsigned char *ad, unsigned long long al, const unsigned char *ns, const unsigned char *np, const unsigned char *k) {
  ACTIVE(crypto_aead_chacha20poly1305_ietf_encrypt, (c, cl, m, ml, ad, al, ns, np, k));
  uint8_t *x = copy(m, ml), *a = copy(ad, al), *y = copy(k, 32); tainted_calls += tainted(k, 32);
  int r = __real_crypto_aead_chacha20poly1305_ietf_encrypt(c, cl, x, ml, a, al, ns, np, y); free(x); free(a); free(y); return r;
}
int __real_crypto_aead_chacha20poly1305_ietf_decrypt(unsigned char *m, unsigned long long *ml, unsigned char *ns, const unsigned char *c, unsigned long long cl, const unsigned char *ad, unsigned long long al, const unsigned char *np, const unsigned char *k);
int __wrap_crypto_aead_chacha20poly1305_ietf_decrypt(unsigned char *m, unsigned long long *ml, unsigned char *ns, const unsigned char *c, unsigned long long cl, const unsigned char *ad, unsigned long long al, const unsigned char *np, const unsigned char *k) {
  ACTIVE(crypto_aead_chacha20poly1305_ietf_decrypt, (m, ml, ns, c, cl, ad, al, np, k));
  uint8_t *x = copy(c, cl), *a = copy(ad, al), *y = copy(k, 32); tainted_calls += tainted(k, 32);
  int r = __real_crypto_aead_chacha20poly1305_ietf_decrypt(m, ml, ns, x, cl, a, al, np, y); free(x); free(a); free(y);
  if(r == 0 && plain_len && cl == plain_len + 16) undef(m + plain_from, plain_len - plain_from);
  return r;
}

/* ---- results: secret ones stay undefined, everything is counted ---- */
static void emit(const char *what, const void *p, size_t n) { (void) what; out_tainted += tainted(p, n); def(p, n); }
static void *ob(size_t n) { void *p = xbuf(n); memset(p, 0xdd, n); return p; }

static void ct_oprf(void) {
  size_t n = hrn(8) ? hrn(100) : hrn(1500);
  uint8_t *x = xbuf(n), *k = ob(32), *r = ob(32), *a = ob(32), *z = ob(32), *u = ob(32), *y = ob(64);
  hrbuf(x, n); undef(x, n);
  oprf_KeyGen(k);
  oprf_Blind(x, n, r, a); out_tainted += tainted(r, 32); def(a, 32);
  undef(k, 32);
  oprf_Evaluate(k, a, z); out_tainted += tainted(z, 32); def(z, 32);
  oprf_Unblind(r, z, u); out_tainted += tainted(u, 32);
  oprf_Finalize(x, n, u, y); out_tainted += tainted(y, 64);
  uint8_t *p = ob(32), *o = ob(64);
  voprf_hash_to_group(x, n, p); out_tainted += tainted(p, 32);
  expand_message_xmd(x, n, (const uint8_t*) "dst", 3, 64, o); out_tainted += tainted(o, 64);
  def(x, n);
  xfree(x); free(k); free(r); free(a); free(z); free(u); free(y); free(p); free(o);
}
static void ct_threshold(void) {
  int n = 2 + (int) hrn(9), t = 1 + (int) hrn(n);
  uint8_t k[32], a[32], zero[32] = {0};
  hrscalar(k); hrpoint(a); undef(k, 32);
  uint8_t (*sh)[33] = ob(33 * n), (*zs)[33] = ob(33 * n), (*p)[33] = ob(33 * t), (*p2)[33] = ob(33 * t), (*p3)[33] = ob(33 * t), *r = ob(32);
  if(toprf_create_shares(k, n, t, sh) || toprf_create_shares(zero, n, t, zs)) h_die("shares");
  uint8_t ix[16]; for(int i = 0; i < n; i++) ix[i] = i + 1;
  shuffle(ix, n);
  for(int i = 0; i < t; i++) {
    int s = ix[i] - 1;
    out_tainted += tainted(sh[s] + 1, 32);
    p2[i][0] = ix[i];
    oprf_Evaluate(sh[s] + 1, a, p2[i] + 1); toprf_Evaluate(sh[s], a, ix[i], ix, t, p[i]);
    toprf_3hashtdh(sh[s], zs[s], a, (uint8_t*) "ssid", 4, p3[i]);
    out_tainted += tainted(p[i], 33) + tainted(p3[i], 33);
    /* the client must not branch on them either: they decide its output */
    if(hrn(2)) { def(p[i], 33); def(p2[i], 33); def(p3[i], 33); }
  }
  toprf_thresholdmult(t, p2, r); toprf_thresholdmult(t, p3, r); toprf_thresholdcombine(t, p, r);
  def(sh, 33 * n); def(zs, 33 * n); def(p, 33 * t); def(p2, 33 * t); def(p3, 33 * t); def(r, 32);
  free(sh); free(zs); free(p); free(p2); free(p3); free(r);
}
static void ct_dkg(void) {
  int n = 2 + (int) hrn(5), t = 1 + (int) hrn(n), cheat = hrn(2) == 0;
  uint8_t (*c)[32] = ob((size_t) 32 * n * t);
  TOPRF_Share *s = ob(33 * n * n), *m = ob(33 * n), *f = ob(33 * n);
  uint8_t *fails = ob(n), *fl = ob(1), *rec = ob(32);
  for(int i = 0; i < n; i++) dkg_start(n, t, c + i * t, s + i * n);
  def(c, (size_t) 32 * n * t);
  if(cheat) { int i = (int) hrn(n * n); hrscalar(s[i].value); undef(s[i].value, 32); }
  for(int j = 0; j < n; j++) {
    for(int i = 0; i < n; i++) { m[i] = s[i * n + j]; out_tainted += tainted(m[i].value, 32); }
    dkg_verify_commitments(n, t, j + 1, (void*) c, m, fails, fl);
    f[j].index = j + 1;
    dkg_finish(n, m, j + 1, &f[j]); out_tainted += tainted(f[j].value, 32);
  }
  dkg_reconstruct(t, f, rec); out_tainted += tainted(rec, 32);
  def(s, 33 * n * n); def(m, 33 * n); def(f, 33 * n); def(rec, 32);
  free(c); free(s); free(m); free(f); free(fails); free(fl); free(rec);
}
static void ct_mpmult(void) {
  int t = 1 + (int) hrn(3), d = 2 * t - 1, n = d + (int) hrn(3);
  uint8_t a[32], b[32]; hrscalar(a); hrscalar(b);
  if(hrn(6) == 0) memset(a, 0, 32);
  undef(a, 32); undef(b, 32);
  uint8_t (*as)[33] = ob(33 * n), (*bs)[33] = ob(33 * n), (*mul)[33] = ob(33 * n * d), (*in)[33] = ob(33 * d), *out = ob(33);
  if(toprf_create_shares(a, n, t, as) || toprf_create_shares(b, n, t, bs)) h_die("shares");
  uint8_t ix[16]; for(int i = 0; i < n; i++) ix[i] = i + 1;
  shuffle(ix, n);
  for(int i = 0; i < d; i++) toprf_mpc_mul_start(as[ix[i] - 1], bs[ix[i] - 1], n, t, mul + i * n);
  for(int j = 0; j < n; j++) {
    for(int i = 0; i < d; i++) memcpy(in[i], mul[i * n + j], 33);
    toprf_mpc_mul_finish(d, ix, j + 1, in, out); out_tainted += tainted(out + 1, 32);
  }
  def(as, 33 * n); def(bs, 33 * n); def(mul, 33 * n * d); def(in, 33 * d); def(out, 33);
  free(as); free(bs); free(mul); free(in); free(out);
}
static void ct_noise(void) {
  uint8_t ska[32], skb[32], pka[32], pkb[32], srl[32];
  hrbuf(ska, 32); hrbuf(skb, 32); hrbuf(srl, 32);
  on = 0; crypto_scalarmult_base(pka, ska); crypto_scalarmult_base(pkb, skb); on = 1;
  undef(ska, 32); undef(skb, 32); undef(srl, 32);
  taint_rand = 1; sim_party = 1; plain_len = 77; plain_from = 0;
  Noise_XK_device_t *da = Noise_XK_device_create(4, (uint8_t*) "prlg", (uint8_t*) "alice", srl, ska), *db = Noise_XK_device_create(4, (uint8_t*) "prlg", (uint8_t*) "bob", srl, skb);
  if(!da || !db) h_die("device");
  Noise_XK_peer_t *pb = Noise_XK_device_add_peer(da, (uint8_t*) "to-bob", pkb);
  Noise_XK_device_add_peer(db, (uint8_t*) "to-alice", pka);
  if(!pb) h_die("peer");
  Noise_XK_session_t *sa = Noise_XK_session_create_initiator(da, Noise_XK_peer_get_id(pb)), *sb = Noise_XK_session_create_responder(db);
  if(!sa || !sb) h_die("session");
  int rounds = 3 + (int) hrn(6);
  for(int i = 0; i < rounds; i++) {
    Noise_XK_session_t *w = i % 2 ? sb : sa, *r = i % 2 ? sa : sb;
    uint32_t ol = 0, bl = 0; uint8_t *m = xbuf(77), *o = NULL, *back = NULL;
    hrbuf(m, 77); undef(m, 77);
    Noise_XK_encap_message_t *e = Noise_XK_pack_message_with_conf_level(i < 2 ? 0 : 5, 77, m), *g = NULL;
    int wr = Noise_XK_session_write(e, w, &ol, &o).tag;
    if(!wr && o) {
      if(i >= 3 && hrn(5) == 0) o[hrn(ol)] ^= 1;
      Noise_XK_rcode rc = Noise_XK_session_read(&g, r, ol, o);
      if(rc.tag == 0) { Noise_XK_unpack_message_with_auth_level(&bl, &back, 0, g); out_tainted += bl && tainted(back, bl); }
      else i = rounds;
      if(g) Noise_XK_encap_message_p_free(g);
    }
    Noise_XK_encap_message_p_free(e);
    free(o); free(back); def(m, 77); xfree(m);
  }
  uint32_t l = 0; uint8_t *o = NULL;
  Noise_XK_serialize_device_secret(&l, &o, da);
  uint8_t *e = xbuf(l); memcpy(e, o, l); free(o);
  plain_len = 32;
  Noise_XK_device_t *dc = Noise_XK_device_create_from_secret(4, (uint8_t*) "prlg", (uint8_t*) "alice", srl, e);
  out_tainted += dc != NULL;
  if(dc) Noise_XK_device_free(dc);
  xfree(e);
  Noise_XK_session_free(sa); Noise_XK_session_free(sb); Noise_XK_device_free(da); Noise_XK_device_free(db);
  taint_rand = 0; sim_party = 0; plain_len = 0;
}
static void ct_log(const uint8_t *p, size_t n) { def(p, n); }
static void ct_hurt(int p, int step, uint8_t **b, size_t *l) {
  int k = on; on = 0; def(*b, *l); def(S.p[p].st->sig_sk, 64);
  w_hurt(p, step, b, l);
  on = k;
}
/* everything the TP is given or relays is public */
static void ct_tp_in(int step, uint8_t **b, size_t *l) { (void) step; def(*b, *l); }
static void ct_tpdkg(void) {
  int n = 3 + (int) hrn(2), t = 2 + (int) hrn(n - 2);
  memset(sim_off, 0, sizeof sim_off);
  S.prefill = 0xdd; S.keeplog = 0; S.namelen = 3; memcpy(S.name, "abc", 3); S.h = NULL;
  taint_rand = 1; plain_len = 33; plain_from = 1;
  hk_log = ct_log; hk_tp_in = ct_tp_in;
  int hurt = hrn(2) == 0;
  w_hurt_peer = (int) hrn(n); w_hurt_step = 1 + (int) hrn(7); w_hurt_kind = 1;
  hk_peer_out = hurt ? ct_hurt : NULL;
  if(sim_start(n, t, 100)) h_die("start");
  for(int i = 0; i < n; i++) if(S.p[i].started) undef(S.p[i].st->lt_sk, 32);
  sim_run();
  for(int i = 0; i < n; i++) if(S.p[i].started && !S.p[i].ret && !tpdkg_peer_not_done(S.p[i].st)) out_tainted += tainted(S.p[i].st->share.value, 32);
  sim_end();
  hk_log = NULL; hk_peer_out = NULL; hk_tp_in = NULL; taint_rand = 0; plain_len = 0;
}
#define NCT 6
static void (*const ct[NCT])(void) = { ct_oprf, ct_threshold, ct_dkg, ct_mpmult, ct_noise, ct_tpdkg };
static const char *ctn[NCT] = { "oprf", "threshold", "dkg", "mpmult", "noise", "tpdkg" };
static void m_ct(uint64_t no) {
  int k = (int) (no % NCT);
  tainted_calls = secret_bytes = out_tainted = 0;
  long e0 = (long) VALGRIND_COUNT_ERRORS;
  on = 1;
  ct[k]();
  on = 0;
  jo(); js("kind", ctn[k]); ji("vg", RUNNING_ON_VALGRIND != 0); ji("errors", (long) VALGRIND_COUNT_ERRORS - e0);
  ji("calls", tainted_calls); ji("secret", secret_bytes); ji("out", out_tainted); jc();
}
static const mode_t_ modes[] = { {"ct", m_ct}, {NULL, NULL} };
int main(int argc, char **argv) { return h_main(argc, argv, modes); }
