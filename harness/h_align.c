/* Work whose byte buffers lie at any address: first all at addresses that are multiples of 16, then at odd ones.
   The results must be the same, and UndefinedBehaviorSanitizer sees accesses that need an alignment. */
#include "hcommon.h"
#include "oprf.h"
#include "toprf.h"
#include "dkg.h"
#include "mpmult.h"
#include "tp-dkg.h"
#include "XK.h"

static int odd; static long nmoved; static uint64_t pos;
static size_t pick_off(void) { pos = pos * 6364136223846793005ull + 1442695040888963407ull; return 1 + (size_t) (pos >> 60) % 15; }
static struct { uint8_t *p; size_t n; int used; } tab[4096]; static int ntab;
static uint8_t *keep[200000]; static int nkeep;
/* n bytes at an address of the wanted kind; nothing before or behind them may be touched */
static uint8_t *place(size_t n, uint8_t **base) {
  size_t off = odd ? pick_off() : 0;
  uint8_t *m = malloc(16 + off + n);
  if(!m) h_die("malloc");
#ifdef HAVE_ASAN
  ASAN_POISON_MEMORY_REGION(m, 16 + off);
#endif
  *base = m; nmoved++;
  return m + 16 + off;
}
static void unplace(uint8_t *base, size_t n) {
#ifdef HAVE_ASAN
  ASAN_UNPOISON_MEMORY_REGION(base, n);
#endif
  free(base);
}
/* a copy of the n bytes at p, as input of one call */
static void *at(const void *p, size_t n) {
  if(!p) return NULL;
  uint8_t *base, *q = place(n, &base);
  if(nkeep == 200000) h_die("too many inputs");
  keep[nkeep++] = base;
  if(n) memcpy(q, p, n);
  return q;
}
static char *ats(const uint8_t *s) { return at(s, s ? strlen((char*) s) + 1 : 0); }
static void at_clear(void) { while(nkeep) unplace(keep[--nkeep], 16); }
#define oprf_Blind(x, n, r, a) oprf_Blind(at(x, n), n, r, a)
#define oprf_Evaluate(k, b, z) oprf_Evaluate(at(k, 32), at(b, 32), z)
#define oprf_Unblind(r, z, n) oprf_Unblind(at(r, 32), at(z, 32), n)
#define oprf_Finalize(x, n, N, y) oprf_Finalize(at(x, n), n, at(N, 32), y)
#define voprf_hash_to_group(x, n, p) voprf_hash_to_group(at(x, n), n, p)
#define expand_message_xmd(m, ml, d, dl, l, o) expand_message_xmd(at(m, ml), ml, at(d, dl), dl, l, o)
#define coeff(i, l, p, r) coeff(i, l, at(p, l), r)
#define toprf_create_shares(s, n, t, o) toprf_create_shares(at(s, 32), n, t, o)
#define toprf_thresholdmult(l, p, r) toprf_thresholdmult(l, at(p, 33 * (size_t) (l)), r)
#define toprf_thresholdcombine(l, p, r) toprf_thresholdcombine(l, at(p, 33 * (size_t) (l)), r)
#define toprf_Evaluate(k, b, s, i, l, o) toprf_Evaluate(at(k, 33), at(b, 32), s, at(i, l), l, o)
#define toprf_3hashtdh(k, z, a, s, l, o) toprf_3hashtdh(at(k, 33), at(z, 33), at(a, 32), at(s, l), l, o)
#define dkg_verify_commitment(n, t, s, i, c, m) dkg_verify_commitment(n, t, s, i, at(c, 32 * (size_t) (t)), m)
#define dkg_verify_commitments(n, t, s, c, m, f, l) dkg_verify_commitments(n, t, s, at(c, 32 * (size_t) (n) * (t)), at(m, 33 * (size_t) (n)), f, l)
#define dkg_finish(n, m, s, x) dkg_finish(n, at(m, 33 * (size_t) (n)), s, x)
#define dkg_reconstruct(n, m, r) dkg_reconstruct(n, at(m, 33 * (size_t) (n)), r)
#define toprf_mpc_mul_start(a, b, n, t, o) toprf_mpc_mul_start(at(a, 33), at(b, 33), n, t, o)
#define toprf_mpc_mul_finish(d, ix, p, in, o) toprf_mpc_mul_finish(d, at(ix, d), p, at(in, 33 * (size_t) (d)), o)
#define invertedVDMmatrix(d, ix, m) invertedVDMmatrix(d, at(ix, d), m)
#define Noise_XK_device_create(l, p, n, s, k) Noise_XK_device_create(l, at(p, l), (uint8_t*) ats(n), at(s, 32), at(k, 32))
#define Noise_XK_device_create_from_secret(pl, p, n, s, k) Noise_XK_device_create_from_secret(pl, at(p, pl), (uint8_t*) ats(n), at(s, 32), at(k, l))   /* l also in the caller */
#define Noise_XK_deserialize_peer_secret(d, n, l, s) Noise_XK_deserialize_peer_secret(d, (uint8_t*) ats(n), l, at(s, l))
#define Noise_XK_device_add_peer(d, n, k) Noise_XK_device_add_peer(d, (uint8_t*) ats(n), at(k, 32))
#define Noise_XK_device_lookup_peer_by_static(d, k) Noise_XK_device_lookup_peer_by_static(d, at(k, 32))
#define Noise_XK_pack_message_with_conf_level(c, n, m) Noise_XK_pack_message_with_conf_level(c, n, at(m, n))
#define Noise_XK_session_read(g, s, n, m) Noise_XK_session_read(g, s, n, at(m, n))
#define tpdkg_start_peer(c, e, k, m) tpdkg_start_peer(c, e, at(k, 64), at(m, tpdkg_msg0_SIZE))

/* outputs of the steps of the key generation */
static int step_at(int (*f)(void *, const uint8_t *, const size_t, uint8_t *, const size_t), void *c, const uint8_t *i, size_t il, uint8_t *o, size_t ol) {
  if(!o) return f(c, at(i, il), il, o, ol);
  uint8_t *base, *q = place(ol, &base);
  memcpy(q, o, ol);
  int r = f(c, at(i, il), il, q, ol);
  memcpy(o, q, ol);
  unplace(base, 16);
  return r;
}
static int tp_at(void *c, const uint8_t *i, const size_t il, uint8_t *o, const size_t ol) { return tpdkg_tp_next(c, i, il, o, ol); }
static int peer_at(void *c, const uint8_t *i, const size_t il, uint8_t *o, const size_t ol) { return tpdkg_peer_next(c, i, il, o, ol); }
static int start_at(TP_DKG_TPState *c, uint64_t e, uint8_t n, uint8_t t, const char *nm, size_t nl, size_t ml, TP_DKG_Message *m) {
  uint8_t *base, *q = place(ml, &base);
  memcpy(q, m, ml);
  int r = tpdkg_start_tp(c, e, n, t, at(nm, nl), nl, ml, (TP_DKG_Message *) q);
  memcpy(m, q, ml);
  unplace(base, 16);
  return r;
}
static int cheater_at(const TP_DKG_Cheater *c, char *o, size_t l) {
  uint8_t *base, *q = place(l, &base);
  memcpy(q, o, l);
  int r = tpdkg_cheater_msg(c, (char *) q, l);
  memcpy(o, q, l);
  unplace(base, 16);
  return r;
}
#define tpdkg_start_tp(c, e, n, t, nm, nl, ml, m) start_at(c, e, n, t, nm, nl, ml, m)
#define tpdkg_tp_next(c, i, il, o, ol) step_at(tp_at, c, i, il, o, ol)
#define tpdkg_peer_next(c, i, il, o, ol) step_at(peer_at, c, i, il, o, ol)
#define tpdkg_cheater_msg(c, o, l) cheater_at(c, o, l)
/* outputs of the other calls */
static void *ob(size_t n) {
  uint8_t *base, *q = place(n, &base);
  memset(q, 0xdd, n);
  if(ntab == 4096) h_die("too many outputs");
  tab[ntab].p = q; tab[ntab].n = (size_t) (q - base); tab[ntab++].used = 1;
  return q;
}
static void ob_free(void *p) {
  for(int i = ntab; i-- > 0; ) if(tab[i].p == p) {
    unplace((uint8_t *) p - tab[i].n, tab[i].n);
    tab[i] = tab[--ntab];
    return;
  }
  free(p);
}
#define free ob_free
#include "work.h"
#undef free

static struct { const char *what; uint32_t d; } res[2][40000]; static int nres[2], cur;
static void emit(const char *what, const void *p, size_t n) {
  uint8_t h[16];
  crypto_generichash(h, 16, p, n, NULL, 0);
  if(nres[cur] == 40000) h_die("too many results");
  res[cur][nres[cur]].what = what; memcpy(&res[cur][nres[cur]++].d, h, 4);
}
static void m_work(uint64_t no) {
  int k = (int) (no % NKINDS);
  uint64_t hs[4]; uint8_t key[32];
  memcpy(hs, hr_s, sizeof hs); memcpy(key, lr_key, 32);
  nres[0] = nres[1] = 0; ntab = 0;
  S.prefill = 0xdd;
  for(cur = 0; cur < 2; cur++) {
    memcpy(hr_s, hs, sizeof hs); memcpy(lr_key, key, 32); lr_ctr = 0;
    odd = cur; nmoved = 0; pos = no;
    kinds[k]();
    at_clear();
  }
  char diff[200] = "";
  for(int i = 0; i < nres[0] || i < nres[1]; i++)
    if(i >= nres[0] || i >= nres[1] || res[0][i].d != res[1][i].d || strcmp(res[0][i].what, res[1][i].what)) {
      snprintf(diff, sizeof diff, "%s", i < nres[1] ? res[1][i].what : "number of results");
      break;
    }
  jo(); js("kind", kind_name[k]); ji("results", nres[0]); ji("moved", nmoved); js("diff", diff); jc();
}
static const mode_t_ modes[] = { {"work", m_work}, {NULL, NULL} };
int main(int argc, char **argv) { return h_main(argc, argv, modes); }
