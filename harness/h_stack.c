/* Calls with large parameters on a thread whose stack has the usual 8 MiB, with a forbidden page below it.
   The stack is painted first, so that what was used can be told. */
#include "tpsim.h"
#include "oprf.h"
#include "toprf.h"
#include "mpmult.h"
#include "XK.h"
#include <pthread.h>
#include <sys/mman.h>

#define STACK (8u << 20)
static uint8_t *stk;
static int what; static uint64_t size_; static int fine;
static uint8_t keyc[32]; static uint64_t hsc[4], the_no;
static const char *names[] = { "oprf", "toprf_create_shares", "toprf_Evaluate", "toprf_thresholdmult", "toprf_thresholdcombine", "toprf_3hashtdh",
  "dkg_start", "dkg_verify_commitments", "dkg_finish", "dkg_reconstruct", "toprf_mpc_mul_start", "toprf_mpc_mul_finish", "invertedVDMmatrix",
  "expand_message_xmd", "noise", "noise device", "tpdkg" };
#define NW ((int) (sizeof names / sizeof *names))
/* everything the calls need is on the heap, so the stack is theirs */
static uint8_t *big(size_t n) { uint8_t *p = xbuf(n); memset(p, 0, n); return p; }
static void set33(uint8_t (*s)[33], int n, int points) {
  uint8_t a[32]; hrscalar(a); if(points) hrpoint(a);
  for(int i = 0; i < n; i++) { s[i][0] = (uint8_t) (i + 1); memcpy(s[i] + 1, a, 32); }
}
static void noise(uint32_t len) {
  uint8_t *ska = big(32), *skb = big(32), *pka = big(32), *pkb = big(32), *srl = big(32), *m = big(len);
  hrbuf(ska, 32); hrbuf(skb, 32); crypto_scalarmult_base(pka, ska); crypto_scalarmult_base(pkb, skb);
  uint32_t pl = what == 15 ? len : 3;
  Noise_XK_device_t *da = Noise_XK_device_create(pl, m, (uint8_t*) "a", srl, ska), *db = Noise_XK_device_create(pl, m, (uint8_t*) "b", srl, skb);
  uint8_t *name = big(what == 15 ? len + 1 : 2);
  memset(name, 'x', what == 15 ? len : 1);
  Noise_XK_peer_t *p = da && db ? Noise_XK_device_add_peer(da, name, pkb) : NULL;
  if(!p || !Noise_XK_device_add_peer(db, name, pka)) h_die("peer");
  Noise_XK_session_t *sa = Noise_XK_session_create_initiator(da, Noise_XK_peer_get_id(p)), *sb = Noise_XK_session_create_responder(db);
  fine = 1;
  for(int i = 0; i < 5 && fine; i++) {
    Noise_XK_session_t *w = i % 2 ? sb : sa, *r = i % 2 ? sa : sb;
    uint32_t ol = 0, bl = 0; uint8_t *o = NULL, *back = NULL;
    Noise_XK_encap_message_t *e = Noise_XK_pack_message_with_conf_level(0, what == 15 ? 0 : len, m), *g = NULL;
    if(!Noise_XK_rcode_is_success(Noise_XK_session_write(e, w, &ol, &o)) || !Noise_XK_rcode_is_success(Noise_XK_session_read(&g, r, ol, o)) ||
       !Noise_XK_unpack_message_with_auth_level(&bl, &back, 0, g) || bl != (what == 15 ? 0 : len)) fine = 0;
    if(g) Noise_XK_encap_message_p_free(g);
    Noise_XK_encap_message_p_free(e);
    free(o); free(back);
  }
  uint32_t sl = 0; uint8_t *s = NULL;
  if(what == 15) { Noise_XK_serialize_peer_secret(&sl, &s, da, p); free(s); s = NULL; Noise_XK_serialize_device_secret(&sl, &s, da); free(s); }
  Noise_XK_session_free(sa); Noise_XK_session_free(sb); Noise_XK_device_free(da); Noise_XK_device_free(db);
  xfree(ska); xfree(skb); xfree(pka); xfree(pkb); xfree(srl); xfree(m); xfree(name);
}
static void work(void) {
  int n = 128 + (int) hrn(128), t = 2 + (int) hrn(n - 2);
  if(the_no / NW % 2) n = 255;
  if(the_no / NW % 4 == 1) t = n;
  if((what == 11 || what == 12) && the_no / NW % 20 != (what == 11 ? 1 : 9)) n = 30 + (int) hrn(60);     /* slow */
  uint8_t (*a)[33] = (void*) big(33 * 255), (*b)[33] = (void*) big(33 * 255), *o = big(255 * 33), *k = big(64), *p = big(32), *ix = big(255), *l = big(65535);
  uint8_t *r = big(32), *z = big(64), fails = 0;
  hrscalar(k); hrpoint(p);
  for(int i = 0; i < 255; i++) ix[i] = (uint8_t) (i + 1);
  size_ = (uint64_t) n;
  switch(what) {
  case 0: size_ = 65535; fine = !oprf_Blind(l, 65535, r, o) && !oprf_Evaluate(k, o, z) && !oprf_Unblind(r, z, o) && !oprf_Finalize(l, 65535, o, z); break;
  case 1: fine = !toprf_create_shares(k, n, t, a); break;
  case 2: set33(a, 1, 0); fine = !toprf_Evaluate(a[0], p, 1, ix, n, o); break;
  case 3: set33(a, n, 1); fine = !toprf_thresholdmult(n, a, o); break;
  case 4: set33(a, n, 1); fine = !toprf_thresholdcombine(n, a, o) || 1; break;
  case 5: size_ = 65535; set33(a, 1, 0); fine = !toprf_3hashtdh(a[0], a[0], p, l, 65535, o); break;
  case 6: case 7: {
    if(what == 7) { n = 40 + (int) hrn(60); t = 2 + (int) hrn(20); if(the_no / NW % 8 == 7) { n = 255; t = 3; } }
    uint8_t (*c)[32] = (void*) big((size_t) 32 * n * t);
    TOPRF_Share *s = (void*) a, *m = (void*) b;
    for(int i = 0; i < (what == 7 ? n : 1); i++) { if(dkg_start(n, t, c + (size_t) i * t, s)) h_die("dkg_start"); m[i] = s[0]; }
    fine = 1; size_ = (uint64_t) n;
    if(what == 7) fine = !dkg_verify_commitments(n, t, 1, (void*) c, (void*) m, o, &fails) && !fails;
    xfree(c); break; }
  case 8: set33(a, n, 0); dkg_finish(n, (void*) a, 1, (void*) o); fine = 1; break;
  case 9: set33(a, n, 0); dkg_reconstruct(n, (void*) a, o); fine = 1; break;
  case 10: set33(a, 1, 0); set33(b, 1, 0); fine = !toprf_mpc_mul_start(a[0], b[0], n, 2 + (int) hrn(n / 2 - 1), (void*) o); break;
  case 11: set33(a, n, 0); toprf_mpc_mul_finish(n, ix, 1, a, o); fine = 1; break;
  case 12: { uint8_t *m = big((size_t) n * n * 32); invertedVDMmatrix(n, ix, (void*) m); fine = 1; xfree(m); break; }
  case 13: size_ = 65535; fine = !expand_message_xmd(l, 65535, l, 200, 255, o); break;
  case 14: size_ = hrn(3) ? hrn(20u << 20) : (9u << 20) + hrn(8u << 20); noise((uint32_t) size_); break;
  case 15: size_ = hrn(12u << 20); noise((uint32_t) size_); break;
  case 16: {
    n = 10 + (int) hrn(h_argc > 0 ? atoi(h_argv[0]) : 30); t = 2 + (int) hrn(n - 2); size_ = (uint64_t) n;
    memset(sim_off, 0, sizeof sim_off);
    S.keeplog = 0; S.namelen = 4; hrbuf(S.name, 4); S.h = NULL; S.prefill = 0; sim_now = 1700000000;
    if(sim_start(n, t, 1000)) h_die("start");
    sim_run();
    fine = !S.tpret && !tpdkg_tp_not_done(S.tp);
    sim_end(); break; }
  }
  xfree(a); xfree(b); xfree(o); xfree(k); xfree(p); xfree(ix); xfree(l); xfree(r); xfree(z);
}
static void *body(void *x) {
  (void) x;
  memcpy(hr_s, hsc, sizeof hsc); memcpy(lr_key, keyc, 32); lr_ctr = 0;
  work();
  return NULL;
}
static void m_stack(uint64_t no) {
  what = (int) (no % NW); fine = 0; the_no = no; size_ = 0;
  if(!stk) {
    stk = mmap(NULL, STACK + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if(stk == MAP_FAILED || mprotect(stk, 4096, PROT_NONE)) h_die("stack");
  }
  memset(stk + 4096, 0xa5, STACK);
  memcpy(hsc, hr_s, sizeof hsc); memcpy(keyc, lr_key, 32);
  pthread_attr_t at; pthread_t th;
  pthread_attr_init(&at);
  if(pthread_attr_setstack(&at, stk + 4096, STACK) || pthread_create(&th, &at, body, NULL)) h_die("thread");
  pthread_join(th, NULL);
  pthread_attr_destroy(&at);
  size_t low = 0;
  while(low < STACK && stk[4096 + low] == 0xa5) low++;
  jo(); js("what", names[what]); ji("size", size_); ji("fine", fine); ji("used", STACK - low); jc();
}
static const mode_t_ modes[] = { {"stack", m_stack}, {NULL, NULL} };
int main(int argc, char **argv) { return h_main(argc, argv, modes); }
