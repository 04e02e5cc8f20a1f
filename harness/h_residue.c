/* What calls leave behind in the dead part of the stack.
   The stack below the caller is painted before a call and copied after it; what libsodium changes there is undone when
   its calls return, so that what is left was left by the library itself. */
#include "tpsim.h"
#include "oprf.h"
#include "toprf.h"
#include "mpmult.h"
#include "XK.h"
#define __has_feature(x) 0
#include "sodium_guard.c"
#define AREA (256u << 10)
#define SAVE 32768
static uint8_t *copy; static long n_undone, n_unknown, n_calls;
static uint8_t saved[SAVE]; static uint8_t *saved_to;
/* secrets known in advance are looked for in C, also in what is dead whenever libsodium is called */
typedef struct { char name[32]; uint8_t v[64]; size_t n; } known_t;
static known_t known[256]; static int nknown; static uint8_t head[65536 / 8];
static const char *now; static char left[16][100]; static int nleft; static long n_looks, n_bytes;
static void forget(void) { nknown = 0; memset(head, 0, sizeof head); nleft = 0; n_looks = n_bytes = 0; }
static void know(const char *name, const void *v, size_t n) {
  known_t *k = &known[nknown];
  if(nknown >= 256 || n < 16) h_die("know");
  nknown++;
  snprintf(k->name, sizeof k->name, "%s", name);
  k->n = n > 64 ? 64 : n; memcpy(k->v, v, k->n);
  for(size_t o = 0; o + 16 <= k->n; o += 8) head[(k->v[o] | k->v[o + 1] << 8) >> 3] |= (uint8_t) (1 << (k->v[o] & 7));
}
static void look(const uint8_t *p, size_t n) {
  size_t i = 0;
  while(i < n && p[i] == 0xa5) i++;
  n_looks++; n_bytes += (long) (n - i);
  for(; i + 16 <= n; i++) {
    if(!(head[(p[i] | p[i + 1] << 8) >> 3] >> (p[i] & 7) & 1)) continue;
    for(int k = 0; k < nknown; k++) for(size_t o = 0; o + 16 <= known[k].n; o += 8) if(!memcmp(p + i, known[k].v + o, 16)) {
      char t[100]; int j;
      snprintf(t, sizeof t, "%s:%s", now, known[k].name);
      for(j = 0; j < nleft && strcmp(left[j], t); j++) ;
      if(j == nleft && nleft < 16) strcpy(left[nleft++], t);
    }
  }
}
/* before the first access of a libsodium call: what lies below is kept ... */
__attribute__((noinline)) void *__asan_region_is_poisoned(void *p, size_t n) {
  (void) p; (void) n;
  if(!saved_to) {
    uint8_t *s, *d = saved; size_t c = SAVE;
    __asm__ volatile("lea -32768(%%rsp), %0" : "=r"(s));
    saved_to = s;
    __asm__ volatile("rep movsb" : "+S"(s), "+D"(d), "+c"(c) : : "memory");
    if(now && nknown) look(saved, SAVE);
  }
  return NULL;
}
/* ... and put back after it */
__attribute__((noinline)) void sodium_between(void) {
  uint8_t *top, *d = saved_to, *s = saved;
  __asm__ volatile("mov %%rsp, %0" : "=r"(top));
  if(!d) { n_unknown++; d = top - SAVE; memset(saved, 0xa5, SAVE); }
  size_t c = SAVE;
  if(d + c > top) c = (size_t) (top - d);
  __asm__ volatile("rep movsb" : "+S"(s), "+D"(d), "+c"(c) : : "memory");
  saved_to = NULL;
  n_undone++;
}
#define BELOW ({ uint8_t *sp; __asm__ volatile("mov %%rsp, %0" : "=r"(sp)); sp; })
#define PAINT do { saved_to = NULL; volatile uint8_t *p_ = BELOW; for(size_t i_ = 1; i_ <= AREA; i_++) p_[-(long) i_] = 0xa5; __asm__ volatile("" ::: "memory"); } while(0)
#define SNAP do { __asm__ volatile("" ::: "memory"); volatile uint8_t *p_ = BELOW; for(size_t i_ = 1; i_ <= AREA; i_++) copy[AREA - i_] = p_[-(long) i_]; } while(0)
static int first, jn;
static void out(const char *name) {
  size_t lo = 0;
  while(lo < AREA && copy[lo] == 0xa5) lo++;
  printf("%s[\"%s\",", first ? "" : ",", name); first = 0;
  j_hex(copy + lo, AREA - lo); printf("]");
  n_calls++;
}
/* the call is made from a frame of its own, so that nothing of the caller lies below it */
#define DO(name, call) do { PAINT; call; SNAP; out(name); } while(0)
#define SEE(name, call) do { now = (name); PAINT; call; SNAP; look(copy, AREA); now = NULL; n_calls++; } while(0)
static char secs[1 << 20]; static size_t nsecs;
static void sec(const char *name, const void *p, size_t n) {
  nsecs += (size_t) snprintf(secs + nsecs, sizeof secs - nsecs, "%s[\"%s\",\"", nsecs ? "," : "", name);
  for(size_t i = 0; i < n; i++) nsecs += (size_t) snprintf(secs + nsecs, sizeof secs - nsecs, "%02x", ((const uint8_t*) p)[i]);
  nsecs += (size_t) snprintf(secs + nsecs, sizeof secs - nsecs, "\"]");
}
static void begin(void) { jo(); jk("calls"); printf("["); first = 1; nsecs = 0; secs[0] = 0; if(!copy) copy = malloc(AREA); n_undone = n_unknown = n_calls = 0; }
static void end(void) { printf("]"); jk("secrets"); printf("[%s]", secs); ji("undone", n_undone); ji("unknown", n_unknown); ji("ncalls", n_calls); ji("n", jn); jc(); }
static uint8_t *heap(size_t n) { uint8_t *p = xbuf(n); memset(p, 0, n); return p; }
static uint8_t dr[1 << 16]; static size_t ndr;
static void observe(const uint8_t *p, size_t n) { if(ndr + n <= sizeof dr) { memcpy(dr + ndr, p, n); ndr += n; } }
static void observe_key(const uint8_t *p, size_t n) { observe(p, n); if(n == 32) know("random", p, 32); }
static void draws(void) { for(size_t i = 0; i + 16 <= ndr && i < 4096; i += 32) sec("random", dr + i, ndr - i < 32 ? ndr - i : 32); ndr = 0; }

static void m_prim(uint64_t no) {
  (void) no;
  begin();
  lr_observer = observe; ndr = 0;
  size_t xl = 16 + hrn(200);
  uint8_t *x = heap(xl), *k = heap(32), *r = heap(32), *a = heap(32), *z = heap(32), *u = heap(32), *y = heap(64), *p = heap(32);
  hrbuf(x, xl);
  DO("oprf_KeyGen", oprf_KeyGen(k));
  DO("oprf_Blind", oprf_Blind(x, (uint16_t) xl, r, a));
  DO("oprf_Evaluate", oprf_Evaluate(k, a, z));
  DO("oprf_Unblind", oprf_Unblind(r, z, u));
  DO("oprf_Finalize", oprf_Finalize(x, (uint16_t) xl, u, y));
  DO("voprf_hash_to_group", voprf_hash_to_group(x, (uint16_t) xl, p));
  crypto_core_ristretto255_scalar_invert(z, r);
  sec("input", x, xl < 64 ? xl : 64); sec("key", k, 32); sec("blind", r, 32); sec("inverse of the blind", z, 32); sec("unblinded element", u, 32); sec("output", y, 64); sec("hash of the input", p, 32);
  draws();
  int n = 2 + (int) hrn(6), t = 1 + (int) hrn(n);
  uint8_t (*sh)[33] = (void*) heap(33 * n), (*zs)[33] = (void*) heap(33 * n), *zero = heap(32), *part = heap(33), ix[16];
  for(int i = 0; i < 16; i++) ix[i] = (uint8_t) (i + 1);
  DO("toprf_create_shares", toprf_create_shares(k, (uint8_t) n, (uint8_t) t, sh));
  toprf_create_shares(zero, (uint8_t) n, (uint8_t) t, zs);
  for(int i = 0; i < n; i++) sec("share", sh[i] + 1, 32);
  draws();
  jn = n;
  for(int i = 0; i < n; i++) if(t > 1) sec("zero share", zs[i] + 1, 32);
  DO("toprf_Evaluate", toprf_Evaluate(sh[0], a, 1, ix, (size_t) t, part));
  DO("toprf_3hashtdh", toprf_3hashtdh(sh[0], zs[0], a, x, (uint16_t) xl, part));
  /* products with Lagrange coefficients */
  uint8_t *c = heap(32); coeff(1, (size_t) t, ix, c); crypto_core_ristretto255_scalar_mul(c, c, sh[0] + 1); sec("weighted share", c, 32);
  /* DKG */
  uint8_t (*com)[32] = (void*) heap((size_t) 32 * t * n);
  TOPRF_Share *ds = (void*) heap((size_t) 33 * n * n), *mine = (void*) heap(33 * n), *fin = (void*) heap(33);
  uint8_t *fails = heap(n), *fl = heap(1), *rec = heap(32);
  ndr = 0;
  for(int i = 0; i < n; i++) { DO("dkg_start", dkg_start((uint8_t) n, (uint8_t) t, (void*) (com + i * t), (void*) (ds + i * n))); mine[i] = ds[i * n]; for(int j = 0; j < n; j++) sec("dkg share", ds[i * n + j].value, 32); }
  draws();
  DO("dkg_verify_commitments", dkg_verify_commitments((uint8_t) n, (uint8_t) t, 1, (void*) com, (void*) mine, fails, fl));
  DO("dkg_finish", dkg_finish((uint8_t) n, (void*) mine, 1, fin));
  sec("final share", fin->value, 32);
  DO("dkg_reconstruct", dkg_reconstruct((size_t) t, (void*) sh, rec));
  sec("reconstructed", rec, 32);
  /* multiplication */
  uint8_t (*mul)[33] = (void*) heap(33 * n), *mo = heap(33);
  ndr = 0;
  DO("toprf_mpc_mul_start", toprf_mpc_mul_start(sh[0], zs[0], (uint8_t) n, (uint8_t) (n / 2 + 1), mul));
  draws();
  for(int i = 0; i < n; i++) sec("product share", mul[i] + 1, 32);
  crypto_core_ristretto255_scalar_mul(c, sh[0] + 1, zs[0] + 1); if(t > 1) sec("product", c, 32);
  DO("toprf_mpc_mul_finish", toprf_mpc_mul_finish((uint8_t) n, ix, 1, mul, mo));
  sec("final product share", mo + 1, 32);
  lr_observer = NULL;
  end();
  xfree(x); xfree(k); xfree(r); xfree(a); xfree(z); xfree(u); xfree(y); xfree(p); xfree(sh); xfree(zs); xfree(zero); xfree(part); xfree(c); xfree(com); xfree(ds); xfree(mine);
  xfree(fin); xfree(fails); xfree(fl); xfree(rec); xfree(mul); xfree(mo);
}
static void hmac(uint8_t out[64], const uint8_t *key, size_t kn, const uint8_t *m, size_t n) {
  uint8_t b[128], in[64]; crypto_generichash_blake2b_state s;
  memset(b, 0x36, 128); for(size_t i = 0; i < kn; i++) b[i] ^= key[i];
  crypto_generichash_blake2b_init(&s, NULL, 0, 64); crypto_generichash_blake2b_update(&s, b, 128); crypto_generichash_blake2b_update(&s, m, n); crypto_generichash_blake2b_final(&s, in, 64);
  memset(b, 0x5c, 128); for(size_t i = 0; i < kn; i++) b[i] ^= key[i];
  crypto_generichash_blake2b_init(&s, NULL, 0, 64); crypto_generichash_blake2b_update(&s, b, 128); crypto_generichash_blake2b_update(&s, in, 64); crypto_generichash_blake2b_final(&s, out, 64);
}
static void pads(const char *name, const uint8_t *k) {
  uint8_t b[64];
  for(int i = 0; i < 64; i++) b[i] = k[i] ^ 0x36;
  know(name, b, 64);
  for(int i = 0; i < 64; i++) b[i] = k[i] ^ 0x5c;
  know(name, b, 64);
}
/* all keys of a session, from the specification */
static void derive(const uint8_t si[32], const uint8_t SR[32], const uint8_t ei[32], const uint8_t er[32]) {
  uint8_t ER[32], dh[3][32], ck[64] = "Noise_XK_25519_ChaChaPoly_BLAKE2b", t[64], k[65]; char name[32];
  crypto_scalarmult_base(ER, er);
  if(crypto_scalarmult(dh[0], ei, SR) || crypto_scalarmult(dh[1], ei, ER) || crypto_scalarmult(dh[2], si, ER)) h_die("dh");
  for(int i = 0; i < 4; i++) {
    if(i < 3) { snprintf(name, sizeof name, "shared secret %d", i); know(name, dh[i], 32); }
    hmac(t, ck, 64, i < 3 ? dh[i] : NULL, i < 3 ? 32 : 0);
    snprintf(name, sizeof name, "key of key derivation %d", i); know(name, t, 64); pads(name, t);
    k[0] = 1; hmac(ck, t, 64, k, 1);
    memcpy(k, ck, 64); k[64] = 2; hmac(k, t, 64, k, 65);
    snprintf(name, sizeof name, i < 3 ? "chaining key %d" : "transport key 0", i); know(name, ck, i < 3 ? 64 : 32); if(i < 3) pads(name, ck);
    snprintf(name, sizeof name, i < 3 ? "handshake key %d" : "transport key 1", i); know(name, k, 32);
  }
}
static void m_noise(uint64_t no) {
  (void) no;
  forget(); n_undone = n_unknown = n_calls = 0; if(!copy) copy = malloc(AREA);
  uint32_t pl = (uint32_t) hrn(40);
  uint8_t *ska = heap(32), *skb = heap(32), *pka = heap(32), *pkb = heap(32), *srl = heap(32), *prlg = heap(pl + 1), *ea = heap(32), *eb = heap(32), *Ea = heap(32), *Eb = heap(32);
  hrbuf(ska, 32); hrbuf(skb, 32); hrbuf(srl, 32); hrbuf(prlg, pl); hrbuf(ea, 32); hrbuf(eb, 32);
  crypto_scalarmult_base(pka, ska); crypto_scalarmult_base(pkb, skb); crypto_scalarmult_base(Ea, ea); crypto_scalarmult_base(Eb, eb);
  Noise_XK_device_t *da, *db; Noise_XK_peer_t *pb; Noise_XK_session_t *sa, *sb;
  SEE("device_create", da = Noise_XK_device_create(pl, prlg, (uint8_t*) "alice", srl, ska));
  db = Noise_XK_device_create(pl, prlg, (uint8_t*) "bob", srl, skb);
  SEE("device_add_peer", pb = Noise_XK_device_add_peer(da, (uint8_t*) "b", pkb));
  Noise_XK_device_add_peer(db, (uint8_t*) "a", pka);
  know("static key", ska, 32); know("static key", skb, 32); know("storage key", srl, 32);
  uint32_t bid = Noise_XK_peer_get_id(pb);
  int own = (int) hrn(2), known_ones = own;
  size_t nd = 0;
  if(own) {
    know("ephemeral key", ea, 32); know("ephemeral key", eb, 32); derive(ska, pkb, ea, eb);
    SEE("create_initiator_with_ephemeral", sa = Noise_XK__session_create_initiator_with_ephemeral(da, ea, Ea, bid));
    SEE("create_responder_with_ephemeral", sb = Noise_XK__session_create_responder_with_ephemeral(db, eb, Eb));
  } else {
    lr_observer = observe_key; ndr = 0;
    SEE("create_initiator", sa = Noise_XK_session_create_initiator(da, bid));
    SEE("create_responder", sb = Noise_XK_session_create_responder(db));
    lr_observer = NULL; nd = ndr;
    if(nd == 64) { derive(ska, pkb, dr, dr + 32); known_ones = 1; }
  }
  static char wn[16], rn[16];
  uint8_t *pay[5];
  int spoil = hrn(3) ? -1 : (int) hrn(5), done = 5; long n_odd = 0;
  for(int i = 0; i < 5; i++) {
    Noise_XK_session_t *w = i % 2 ? sb : sa, *r = i % 2 ? sa : sb;
    uint32_t n = 16 + (uint32_t) hrn(100), ol = 0, bl = 0; uint8_t *m = pay[i] = heap(n), *o = NULL, *back = NULL;
    hrbuf(m, n);
    know("payload", m, n);
    Noise_XK_encap_message_t *e, *g = NULL; Noise_XK_rcode rc; int ok = 0;
    snprintf(wn, sizeof wn, "write%d", i); snprintf(rn, sizeof rn, "read%d", i);
    SEE("pack", e = Noise_XK_pack_message_with_conf_level(0, n, m));
    SEE(wn, rc = Noise_XK_session_write(e, w, &ol, &o));
    if(!Noise_XK_rcode_is_success(rc)) h_die("write");
    if(spoil == i) {
      /* a message that is refused */
      if(hrn(2)) o[hrn(ol)] ^= (uint8_t) (1 + hrn(255)); else ol = (uint32_t) hrn(ol);
      SEE("refused", rc = Noise_XK_session_read(&g, r, ol, o));
      if(Noise_XK_rcode_is_success(rc)) { n_odd++; Noise_XK_encap_message_p_free(g); }
      Noise_XK_encap_message_p_free(e);
      free(o);
      done = i + 1;
      break;
    }
    SEE(rn, rc = Noise_XK_session_read(&g, r, ol, o));
    if(!Noise_XK_rcode_is_success(rc)) h_die("read");
    SEE("unpack", ok = Noise_XK_unpack_message_with_auth_level(&bl, &back, 0, g));
    if(!ok || bl != n || memcmp(back, m, n)) h_die("unpack");
    SEE("free message", Noise_XK_encap_message_p_free(g));
    Noise_XK_encap_message_p_free(e);
    free(o); free(back);
  }
  uint32_t sl = 0; uint8_t *s = NULL;
  SEE("serialize_device", Noise_XK_serialize_device_secret(&sl, &s, da)); free(s); s = NULL;
  SEE("serialize_peer", Noise_XK_serialize_peer_secret(&sl, &s, da, pb)); free(s);
  SEE("session_free", Noise_XK_session_free(sa)); Noise_XK_session_free(sb);
  SEE("device_free", Noise_XK_device_free(da)); Noise_XK_device_free(db);
  jo(); ji("ncalls", n_calls); ji("undone", n_undone); ji("unknown", n_unknown); ji("looks", n_looks); ji("bytes", n_bytes); ji("secrets", nknown);
  ji("own", own); ji("known", known_ones); ji("prologue", pl); ji("spoil", spoil); ji("odd", n_odd);
  jk("left"); printf("[");
  for(int i = 0; i < nleft; i++) printf("%s\"%s\"", i ? "," : "", left[i]);
  printf("]"); jc();
  for(int i = 0; i < done; i++) xfree(pay[i]);
  ndr = 0;
  xfree(ska); xfree(skb); xfree(pka); xfree(pkb); xfree(srl); xfree(prlg); xfree(ea); xfree(eb); xfree(Ea); xfree(Eb);
}
static const mode_t_ modes[] = { {"prim", m_prim}, {"noise", m_noise}, {NULL, NULL} };
int main(int argc, char **argv) { return h_main(argc, argv, modes); }
