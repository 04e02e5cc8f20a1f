/* Work whose inputs lie in pages that cannot be written, each ending at a page that cannot be touched at all,
   and which is repeated after other work: the results must be the same. */
#include "hcommon.h"
#include "oprf.h"
#include "toprf.h"
#include "dkg.h"
#include "mpmult.h"
#include "tp-dkg.h"
#include "XK.h"
#include <sys/mman.h>

#define PAGE 4096
static struct { void *p; size_t n; } maps[200000]; static int nmaps; static long nro, roll;
/* a read-only copy of the n bytes at p */
static void *ro(const void *p, size_t n) {
  if(!p) return NULL;
  size_t body = (n + PAGE - 1) / PAGE * PAGE;
  uint8_t *m = mmap(NULL, body + PAGE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  if(m == MAP_FAILED || nmaps == 200000) h_die("mmap");
  maps[nmaps].p = m; maps[nmaps++].n = body + PAGE;
  if(n) memcpy(m + body - n, p, n);
  if(body && mprotect(m, body, PROT_READ)) h_die("mprotect");
  if(mprotect(m + body, PAGE, PROT_NONE)) h_die("mprotect");
  nro++; roll += (long) n;
  return m + body - n;
}
static void ro_clear(void) { while(nmaps) { nmaps--; munmap(maps[nmaps].p, maps[nmaps].n); } }
static char *ros(const uint8_t *s) { return ro(s, s ? strlen((char*) s) + 1 : 0); }

#define oprf_Blind(x, n, r, a) oprf_Blind(ro(x, n), n, r, a)
#define oprf_Evaluate(k, b, z) oprf_Evaluate(ro(k, 32), ro(b, 32), z)
#define oprf_Unblind(r, z, n) oprf_Unblind(ro(r, 32), ro(z, 32), n)
#define oprf_Finalize(x, n, N, y) oprf_Finalize(ro(x, n), n, ro(N, 32), y)
#define voprf_hash_to_group(x, n, p) voprf_hash_to_group(ro(x, n), n, p)
#define expand_message_xmd(m, ml, d, dl, l, o) expand_message_xmd(ro(m, ml), ml, ro(d, dl), dl, l, o)
#define coeff(i, l, p, r) coeff(i, l, ro(p, l), r)
#define toprf_create_shares(s, n, t, o) toprf_create_shares(ro(s, 32), n, t, o)
#define toprf_thresholdmult(l, p, r) toprf_thresholdmult(l, ro(p, 33 * (size_t) (l)), r)
#define toprf_thresholdcombine(l, p, r) toprf_thresholdcombine(l, ro(p, 33 * (size_t) (l)), r)
#define toprf_Evaluate(k, b, s, i, l, o) toprf_Evaluate(ro(k, 33), ro(b, 32), s, ro(i, l), l, o)
#define toprf_3hashtdh(k, z, a, s, l, o) toprf_3hashtdh(ro(k, 33), ro(z, 33), ro(a, 32), ro(s, l), l, o)
#define dkg_verify_commitment(n, t, s, i, c, m) dkg_verify_commitment(n, t, s, i, ro(c, 32 * (size_t) (t)), m)
#define dkg_verify_commitments(n, t, s, c, m, f, l) dkg_verify_commitments(n, t, s, ro(c, 32 * (size_t) (n) * (t)), ro(m, 33 * (size_t) (n)), f, l)
#define dkg_finish(n, m, s, x) dkg_finish(n, ro(m, 33 * (size_t) (n)), s, x)
#define dkg_reconstruct(n, m, r) dkg_reconstruct(n, ro(m, 33 * (size_t) (n)), r)
#define toprf_mpc_mul_start(a, b, n, t, o) toprf_mpc_mul_start(ro(a, 33), ro(b, 33), n, t, o)
#define toprf_mpc_mul_finish(d, ix, p, in, o) toprf_mpc_mul_finish(d, ro(ix, d), p, ro(in, 33 * (size_t) (d)), o)
#define invertedVDMmatrix(d, ix, m) invertedVDMmatrix(d, ro(ix, d), m)
#define Noise_XK_device_create(l, p, n, s, k) Noise_XK_device_create(l, ro(p, l), (uint8_t*) ros(n), ro(s, 32), ro(k, 32))
#define Noise_XK_device_create_from_secret(pl, p, n, s, k) Noise_XK_device_create_from_secret(pl, ro(p, pl), (uint8_t*) ros(n), ro(s, 32), ro(k, l))   /* l also in the caller */
#define Noise_XK_deserialize_peer_secret(d, n, l, s) Noise_XK_deserialize_peer_secret(d, (uint8_t*) ros(n), l, ro(s, l))
#define Noise_XK_device_add_peer(d, n, k) Noise_XK_device_add_peer(d, (uint8_t*) ros(n), ro(k, 32))
#define Noise_XK_device_lookup_peer_by_static(d, k) Noise_XK_device_lookup_peer_by_static(d, ro(k, 32))
#define Noise_XK_pack_message_with_conf_level(c, n, m) Noise_XK_pack_message_with_conf_level(c, n, ro(m, n))
#define Noise_XK_session_read(g, s, n, m) Noise_XK_session_read(g, s, n, ro(m, n))
#define tpdkg_start_tp(c, e, n, t, nm, nl, ml, m) tpdkg_start_tp(c, e, n, t, ro(nm, nl), nl, ml, m)
#define tpdkg_start_peer(c, e, k, m) tpdkg_start_peer(c, e, ro(k, 64), ro(m, tpdkg_msg0_SIZE))
#define tpdkg_tp_next(c, i, il, o, ol) tpdkg_tp_next(c, ro(i, il), il, o, ol)
#define tpdkg_peer_next(c, i, il, o, ol) tpdkg_peer_next(c, ro(i, il), il, o, ol)
#define tpdkg_cheater_msg(c, o, l) tpdkg_cheater_msg(ro(c, sizeof *(c)), o, l)
#include "work.h"

static struct { const char *what; uint32_t d; } res[2][40000]; static int nres[2], cur;
static void emit(const char *what, const void *p, size_t n) {
  uint8_t h[16];
  crypto_generichash(h, 16, p, n, NULL, 0);
  if(cur < 0) return;
  if(nres[cur] == 40000) h_die("too many results");
  res[cur][nres[cur]].what = what; memcpy(&res[cur][nres[cur]++].d, h, 4);
}
static void *ob(size_t n) { void *p = xbuf(n); memset(p, 0xdd, n); return p; }
static void m_work(uint64_t no) {
  int k = (int) (no % NKINDS), others = 0;
  uint64_t hs[4]; uint8_t key[32];
  memcpy(hs, hr_s, sizeof hs); memcpy(key, lr_key, 32);
  nro = roll = 0; nres[0] = nres[1] = 0;
  S.prefill = 0xdd;
  for(cur = 0; cur < 2; cur++) {
    memcpy(hr_s, hs, sizeof hs); memcpy(lr_key, key, 32); lr_ctr = 0;
    kinds[k]();
    ro_clear();
    if(cur) break;
    cur = -1;                           /* other work between the two */
    for(int i = 0; i < 2; i++) { int o = (int) hrn(NKINDS); others |= 1 << o; kinds[o](); ro_clear(); }
    if(hrn(2)) { kinds[k](); ro_clear(); }
    cur = 0;
  }
  char diff[200] = "";
  for(int i = 0; i < nres[0] || i < nres[1]; i++)
    if(i >= nres[0] || i >= nres[1] || res[0][i].d != res[1][i].d || strcmp(res[0][i].what, res[1][i].what)) {
      snprintf(diff, sizeof diff, "%s", i < nres[1] ? res[1][i].what : "number of results");
      break;
    }
  jo(); js("kind", kind_name[k]); ji("results", nres[0]); ji("others", others); ji("inputs", nro); ji("bytes", roll); js("diff", diff); jc();
}
static const mode_t_ modes[] = { {"work", m_work}, {NULL, NULL} };
int main(int argc, char **argv) { return h_main(argc, argv, modes); }
