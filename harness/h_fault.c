/* Failing locks, allocations and group operations, and what happens to locked memory.
   Linked with --wrap for the functions below. Modes: locks (random faults), lockfail (every lock of a call in
   turn), alloc (one allocation of a Noise operation). */
#include "tpsim.h"
#include "oprf.h"
#include "toprf.h"
#include "mpmult.h"
#include "XK.h"
#include <sys/mman.h>
#include <errno.h>

/* ---- monitors ---- */
static int armed;
static long n_lock, n_alloc, n_crypto;               /* events so far */
static long fail_lock = -1, fail_alloc = -1, fail_crypto = -1;
static struct { uint8_t *p; size_t len; int act; } reg[256];
static int regn;
static long unlocked;
static char bad[400];
static void complain(const char *fmt, ...) {
  if(bad[0]) return;
  va_list a; va_start(a, fmt); vsnprintf(bad, sizeof bad, fmt, a); va_end(a);
}
static void note_lock(void *p, size_t len) {
  if(regn == 256) { int k = 0; for(int i = 0; i < regn; i++) if(reg[i].act) reg[k++] = reg[i]; regn = k; }
  if(regn < 256) { reg[regn].p = p; reg[regn].len = len; reg[regn].act = 1; regn++; }
}
static void *lock_failed;
static void note_unlock(void *p, size_t len) {
  for(int i = regn - 1; i >= 0; i--) if(reg[i].act && reg[i].p == (uint8_t*) p) {
    if(len < reg[i].len) complain("only %zu of %zu locked bytes are released", len, reg[i].len);
    for(size_t k = 0; k < reg[i].len; k++) if(reg[i].p[k]) { complain("a locked region of %zu bytes is released without being zeroed", reg[i].len); break; }
    reg[i].act = 0;
    unlocked++;
    return;
  }
  if(p >= (void*) 0x1000) {
    /* part of a locked region? */
    for(int i = 0; i < regn; i++) if(reg[i].act && (uint8_t*) p > reg[i].p && (uint8_t*) p < reg[i].p + reg[i].len) complain("a locked region is released from its middle");
    if(p != lock_failed) complain("%zu bytes are unlocked that are not locked", len);
  }
}
static int in_sodium;
int __real_sodium_mlock(void *p, size_t len); int __real_sodium_munlock(void *p, size_t len);
int __wrap_sodium_mlock(void *p, size_t len) {
  if(!armed) return __real_sodium_mlock(p, len);
  if(n_lock++ == fail_lock) { lock_failed = p; errno = ENOMEM; return -1; }
  in_sodium++; int r = __real_sodium_mlock(p, len); in_sodium--;
  /* where the limit of locked memory is low the call cannot succeed: stand in for it */
  note_lock(p, len);
  (void) r;
  return 0;
}
int __wrap_sodium_munlock(void *p, size_t len) {
  in_sodium++; int r = __real_sodium_munlock(p, len); in_sodium--;
  if(armed) note_unlock(p, len);
  (void) r;
  return 0;
}
int __real_mlock(const void *p, size_t len); int __real_munlock(const void *p, size_t len);
int __wrap_mlock(const void *p, size_t len) {
  if(armed && n_lock++ == fail_lock) { lock_failed = (void*) p; errno = ENOMEM; return -1; }
  int r = __real_mlock(p, len);
  if(armed) { note_lock((void*) p, len); return 0; }
  return r;
}
int __wrap_munlock(const void *p, size_t len) { if(armed) note_unlock((void*) p, len); return __real_munlock(p, len); }
void *__real_malloc(size_t n); void *__real_calloc(size_t a, size_t b); void *__real_realloc(void *p, size_t n);
void *__wrap_malloc(size_t n) { if(armed && n_alloc++ == fail_alloc) return NULL; return __real_malloc(n); }
void *__wrap_calloc(size_t a, size_t b) { if(armed && n_alloc++ == fail_alloc) return NULL; return __real_calloc(a, b); }
void *__wrap_realloc(void *p, size_t n) { if(armed && n_alloc++ == fail_alloc) return NULL; return __real_realloc(p, n); }
#define CRYPTO(name, params, args) \
  int __real_##name params; \
  int __wrap_##name params { if(armed && n_crypto++ == fail_crypto) return -1; return __real_##name args; }
CRYPTO(crypto_scalarmult_ristretto255, (unsigned char *q, const unsigned char *n, const unsigned char *p), (q, n, p))
CRYPTO(crypto_core_ristretto255_scalar_invert, (unsigned char *r, const unsigned char *s), (r, s))
CRYPTO(crypto_core_ristretto255_from_hash, (unsigned char *p, const unsigned char *r), (p, r))
CRYPTO(crypto_core_ristretto255_is_valid_point, (const unsigned char *p), (p))
CRYPTO(crypto_core_ristretto255_add, (unsigned char *r, const unsigned char *p, const unsigned char *q), (r, p, q))
CRYPTO(crypto_scalarmult_ristretto255_base, (unsigned char *q, const unsigned char *n), (q, n))

static void arm(long lock, long alloc, long crypto) {
  n_lock = n_alloc = n_crypto = 0; fail_lock = lock; fail_alloc = alloc; fail_crypto = crypto;
  regn = 0; armed = 1;
}
static void disarm(const char *what) {
  armed = 0;
  for(int i = 0; i < regn; i++) if(reg[i].act) complain("%s returns with %zu bytes still locked", what, reg[i].len);
}

/* ---- the calls; inputs come from the harness generator, so that a call can be repeated ---- */
#define NOPS 9
static const char *opname[NOPS] = { "oprf_Blind", "oprf_Unblind", "oprf_Finalize", "voprf_hash_to_group", "dkg_start", "toprf_create_shares", "toprf_3hashtdh", "toprf_mpc_mul_start", "expand_message_xmd" };
static uint64_t keep[4]; static uint64_t keep_ctr;
static void rewind_(void) { memcpy(hr_s, keep, sizeof keep); lr_ctr = keep_ctr; }
static uint8_t out[40000]; static size_t outl;
static int call(int op, int badin, long lock, long alloc, long crypto) {
  size_t l = hrn(4) ? hrn(60) : hrn(3000);
  uint8_t *x = xbuf(l), *a = xbuf(64), *b = xbuf(64), *c = xbuf(64);
  int n = 2 + (int) hrn(8), t = 2 + (int) hrn(n - 1);
  uint8_t *sh = xbuf(33 * n), *cm = xbuf(32 * t);
  uint8_t *k = xbuf(33), *z = xbuf(33), *p = xbuf(32), *r = xbuf(32);
  hrbuf(x, l); hrbuf(a, 64); hrscalar(k + 1); hrscalar(z + 1); k[0] = z[0] = 1; hrpoint(p); hrscalar(r);
  if(badin == 1) memset(p, 0xff, 32);
  if(badin == 2) memset(p, 0, 32);
  if(badin == 3) memset(r, 0, 32);
  memset(b, 0xdd, 64); memset(c, 0xdd, 64); memset(sh, 0xdd, 33 * n); memset(cm, 0xdd, 32 * t);
  int ret = 0;
  arm(lock, alloc, crypto);
  switch(op) {
    case 0: ret = oprf_Blind(x, (uint16_t) l, b, c); break;
    case 1: ret = oprf_Unblind(r, p, b); break;
    case 2: ret = oprf_Finalize(x, (uint16_t) l, p, b); break;
    case 3: ret = voprf_hash_to_group(x, (uint16_t) l, b); break;
    case 4: ret = dkg_start(n, t, (void*) cm, (TOPRF_Share*) sh); break;
    case 5: ret = toprf_create_shares(k + 1, n, t, (uint8_t (*)[33]) sh); break;
    case 6: ret = toprf_3hashtdh(k, z, p, x, (uint16_t) l, b); break;
    case 7: ret = toprf_mpc_mul_start(k, z, n, t, (uint8_t (*)[33]) sh); break;
    case 8: ret = expand_message_xmd(x, (uint16_t) l, (const uint8_t*) "dst", 3, 64, b); break;
  }
  disarm(opname[op]);
  outl = 0;
  memcpy(out, b, 64); memcpy(out + 64, c, 64); outl = 128;
  memcpy(out + outl, sh, 33 * n); outl += 33 * n; memcpy(out + outl, cm, 32 * t); outl += 32 * t;
  xfree(x); xfree(a); xfree(b); xfree(c); xfree(sh); xfree(cm); xfree(k); xfree(z); xfree(p); xfree(r);
  return ret;
}
static void mark(void) { memcpy(keep, hr_s, sizeof keep); keep_ctr = lr_ctr; }

/* whole protocol runs under the lock monitor */
static int wiped_bad;
static void look_peer(int p, int step, uint8_t **b, size_t *l) {
  (void) b; (void) l; (void) step;
  if(!sodium_is_zero(S.p[p].st->lt_sk, 64)) wiped_bad = 1;
}
static int session(long lock, int badmsg) {
  memset(sim_off, 0, sizeof sim_off);
  S.prefill = 0xdd; S.keeplog = 0; S.namelen = 5; memcpy(S.name, "proto", 5);
  int n = 3 + (int) hrn(3), t = 2 + (int) hrn(n - 2);
  (void) badmsg;
  sim_now = 1700000000; hk_peer_out = look_peer; wiped_bad = 0;
  arm(lock, -1, -1);
  if(sim_start(n, t, 10)) h_die("start");
  sim_run();
  disarm("tp-dkg");
  int bad_ = S.tpret || S.stalled;
  for(int i = 0; i < n; i++) {
    bad_ |= S.p[i].ret != 0;
    if(S.p[i].nexts > 0 && !sodium_is_zero(S.p[i].st->lt_sk, 64)) wiped_bad = 1;
  }
  if(wiped_bad) complain("a peer keeps its long-term signing key after its use");
  outl = 0;
  for(int i = 0; i < n; i++) { memcpy(out + outl, (uint8_t*) &S.p[i].st->share, 33); outl += 33; }
  sim_end();
  hk_peer_out = NULL;
  return bad_;
}

/* random faults; judges the locked regions */
static void m_locks(uint64_t no) {
  bad[0] = 0; unlocked = 0;
  long locks = 0; int errs = 0;
  int op = (int) (no % (NOPS + 1));
  mark();
  if(op == NOPS) {
    if(no % 20 == NOPS) errs = session(-1, 0);
    else { session(-1, 0); long k = n_lock; mark(); errs = session((long) hrn(k ? k : 1), 0); }
    locks = n_lock;
  } else {
    int badin = (int) hrn(5);
    long N, C;
    mark();
    int r0 = call(op, badin, -1, -1, -1);
    N = n_lock; C = n_crypto; locks = N; errs += r0 != 0;
    for(long k = 0; k < N; k++) { rewind_(); errs += call(op, badin, k, -1, -1) != 0; }
    for(long k = 0; k < C && k < 40; k++) { rewind_(); errs += call(op, badin, -1, -1, k) != 0; }
  }
  jo(); js("op", op == NOPS ? "session" : opname[op]); ji("locks", locks); ji("unlocked", unlocked); ji("errors", errs);
  if(bad[0]) js("bad", bad);
  jc();
}

/* every lock of a call fails in turn; judges results */
static void m_lockfail(uint64_t no) {
  static uint8_t base[40000];
  bad[0] = 0;
  int op = (int) (no % (NOPS + 1)), fails = 0;
  char what[300] = "";
  long N;
  mark();
  if(op == NOPS) {
    int r = session(-1, 0);
    if(r) h_die("session fails without a fault");
    N = n_lock;
    for(long k = 0; k < N; k++) {
      rewind_();
      r = session(k, 0);
      fails++;
      if(!r && !what[0]) snprintf(what, sizeof what, "the run succeeds for everybody although lock %ld of %ld failed", k, N);
    }
    rewind_();
    r = session(-1, 0);
    if(r && !what[0]) snprintf(what, sizeof what, "the run fails after earlier failures");
  } else {
    int r = call(op, 0, -1, -1, -1);
    size_t bl = outl; memcpy(base, out, outl);
    if(r) h_die("call fails without a fault");
    N = n_lock;
    for(long k = 0; k < N; k++) {
      rewind_();
      r = call(op, 0, k, -1, -1);
      fails++;
      if(r == 0 && !what[0]) snprintf(what, sizeof what, "%s succeeds although lock %ld of %ld failed", opname[op], k, N);
      rewind_();
      r = call(op, 0, -1, -1, -1);
      if((r || outl != bl || memcmp(base, out, bl)) && !what[0]) snprintf(what, sizeof what, "%s gives another result after a failed lock", opname[op]);
    }
  }
  jo(); js("op", op == NOPS ? "session" : opname[op]); ji("faults", fails); ji("locks", N);
  if(what[0]) js("bad", what);
  jc();
}

/* ---- allocations ---- */
#define NAOPS 8
static const char *aname[NAOPS] = { "device_create", "add_peer", "session_initiator", "session_responder", "pack", "handshake", "transport", "session_tpdkg" };
static uint8_t ska[32], skb[32], pka[32], pkb[32];
/* runs one operation with allocation k failing (-1: none); returns 0 success, 1 refused */
static int aop(int op, long k) {
  uint8_t srl[32] = {7};
  Noise_XK_device_t *da = NULL, *db = NULL; Noise_XK_peer_t *pb = NULL; Noise_XK_session_t *sa = NULL, *sb = NULL;
  int ret = 0;
#define STEP(o, stmt) do { if(op == (o)) arm(-1, k, -1); stmt; armed = 0; } while(0)
  STEP(0, da = Noise_XK_device_create(5, (uint8_t*) "prolo", (uint8_t*) "A", srl, ska));
  if(!da) return 1;
  db = Noise_XK_device_create(5, (uint8_t*) "prolo", (uint8_t*) "B", srl, skb);
  STEP(1, pb = Noise_XK_device_add_peer(da, (uint8_t*) "Bob", pkb));
  if(!pb) ret = 1;
  if(pb) {
    Noise_XK_peer_t *pa = Noise_XK_device_add_peer(db, (uint8_t*) "Alice", pka); (void) pa;
    STEP(2, sa = Noise_XK_session_create_initiator(da, Noise_XK_peer_get_id(pb)));
    STEP(3, sb = Noise_XK_session_create_responder(db));
    if(!sa || !sb) ret = 1;
    int rounds = op == 4 ? 1 : 6;
    for(int i = 0; i < rounds && !ret; i++) {
      Noise_XK_session_t *w = i % 2 ? sb : sa, *r = i % 2 ? sa : sb;
      uint32_t l = 0, pl = 0; uint8_t *m = NULL, *p = NULL;
      Noise_XK_encap_message_t *e = NULL, *g = NULL;
      int on = op == 4 || (op == 5 && i < 3) || (op == 6 && i >= 3);
      static long left; if(i == 0) left = k;
      if(on) { arm(-1, left, -1); }
      e = Noise_XK_pack_message_with_conf_level(0, 3, (uint8_t*) "abc");
      if(!e) ret = 1;
      if(!ret && op != 4) {
        if(Noise_XK_session_write(e, w, &l, &m).tag != 0) ret = 1;
        else if(Noise_XK_session_read(&g, r, l, m).tag != 0) ret = 1;
        else if(!Noise_XK_unpack_message_with_auth_level(&pl, &p, 0, g)) ret = 1;
        else if(pl != 3 || memcmp(p, "abc", 3)) { armed = 0; complain("a message is wrong after a failed allocation"); }
      }
      armed = 0;
      if(on) left = left < 0 ? -1 : left - n_alloc < 0 ? -1 : left - n_alloc;
      if(e) Noise_XK_encap_message_p_free(e);
      if(g) Noise_XK_encap_message_p_free(g);
      free(m); free(p);
    }
    if(sa) Noise_XK_session_free(sa);
    if(sb) Noise_XK_session_free(sb);
  }
  Noise_XK_device_free(da); Noise_XK_device_free(db);
  return ret;
}
static void m_alloc(uint64_t no) {
  bad[0] = 0;
  hrbuf(ska, 32); hrbuf(skb, 32); crypto_scalarmult_base(pka, ska); crypto_scalarmult_base(pkb, skb);
  int op = (int) (no % (NAOPS - 1));
  long k = (long) (no / (NAOPS - 1));
  int r = aop(op, k);
  int hit = n_alloc > k;
  int r2 = aop(op, -1);
  jo(); js("op", aname[op]); ji("k", k); ji("ret", r); ji("hit", hit);
  if(r2) js("bad", "the operation fails although all allocations succeed");
  else if(bad[0]) js("bad", bad);
  jc();
}

static const mode_t_ modes[] = { {"locks", m_locks}, {"lockfail", m_lockfail}, {"alloc", m_alloc}, {NULL, NULL} };
int main(int argc, char **argv) { return h_main(argc, argv, modes); }
