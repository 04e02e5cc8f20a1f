/* Simulator of complete TP-DKG runs: one trusted party, n peers, the network in between.
   Every buffer is an exact-size heap block; hooks may change anything on its way. */
#ifndef TPSIM_H
#define TPSIM_H
#include <time.h>
#include "hcommon.h"
#include "dkg.h"
#include "tp-dkg.h"
#include "noise_private.h"

#define HDR sizeof(TP_DKG_Message)
extern FILE *log_file;

/* ---- clock: every party has its own ---- */
static __thread uint64_t sim_now = 1700000000;
static __thread int64_t sim_off[130];
static __thread int sim_party;                      /* 0 is the TP */
time_t __wrap_time(time_t *p) {
  time_t t = (time_t) (sim_now + (uint64_t) sim_off[sim_party]);
  if(p) *p = t;
  return t;
}

typedef struct {
  TP_DKG_PeerState *st;
  uint8_t (*sig_pks)[][32], (*noise_pks)[][32], (*commitments)[][32];
  Noise_XK_session_t *(*outs)[], *(*ins)[];
  TOPRF_Share (*shares)[], (*xshares)[];
  uint16_t *complaints;
  uint8_t *my_complaints;
  uint64_t *last_ts;
  uint8_t lt_pk[32], lt_sk[64];
  uint8_t *in; size_t inlen;
  int started;      /* start returned 0 */
  int ret;          /* first non-zero return */
  int retstep;      /* step in which this happened, -1 is start */
  int freed;
  int lastout;      /* step of the latest output */
  int nexts;        /* calls of next */
} peer_t;

static __thread struct {
  int n, t, nlog;
  uint64_t eps;
  TP_DKG_TPState *tp;
  uint8_t (*commitments)[][32], (*enc)[][tpdkg_msg8_SIZE], (*sig_pks)[][32], (*lt_pks)[][32];
  uint16_t (*complaints)[];
  TP_DKG_Cheater (*cheaters)[];
  size_t cheater_max;
  uint64_t *last_ts;
  uint8_t *msg0;
  int tpret, tpretstep, stalled, startret;
  peer_t p[130];
  uint8_t *log; size_t loglen, logcap;     /* everything that was sent */
  int keeplog;
  int prefill;                              /* contents of fresh output buffers and states; -1: random, -2: as allocated */
  int coverfull;                            /* signatures cover the payload */
  crypto_generichash_state *h;              /* hash of everything sent */
  /* size bookkeeping */
  char sizebad[300];
  int tpsteps;
  int samesize;                             /* the hook for outputs keeps their sizes */
  uint8_t name[1024]; size_t namelen;
} S;

/* hooks; the buffers are heap blocks that the hook may replace */
static __thread void (*hk_msg0)(int p, uint8_t **b, size_t *l);
static __thread void (*hk_tp_in)(int step, uint8_t **b, size_t *l);
static __thread void (*hk_tp_out)(int step, uint8_t **b, size_t *l);
static __thread void (*hk_peer_in)(int p, int step, uint8_t **b, size_t *l);
static __thread void (*hk_pre_peer)(int p, int step);
static __thread void (*hk_peer_out)(int p, int step, uint8_t **b, size_t *l);
/* called when the peers did not produce what the TP wants; may build the input; returns 1 to go on */
static __thread int (*hk_stall)(int step, uint8_t **b, size_t *l, size_t want);
static __thread int stop_tp = -1, stop_peer = -1;    /* stop the run before this TP step / after this many peer calls */

static void fill(void *p, size_t n) {
  if(S.prefill == -1) hrbuf(p, n); else if(S.prefill >= 0) memset(p, S.prefill, n);
}
static void *fbuf(size_t n) { uint8_t *b = xbuf(n); fill(b, n); return b; }
static void *astate(size_t n) { void *p = NULL; if(posix_memalign(&p, 64, n)) h_die("memory"); fill(p, n); return p; }
static uint8_t *dupb(const uint8_t *p, size_t n) { uint8_t *b = xbuf(n); memcpy(b, p, n); return b; }

static __thread void (*hk_log)(const uint8_t *p, size_t n);
static void logmsg(const uint8_t *p, size_t n) {
  if(hk_log) hk_log(p, n);
  if(S.h) { uint64_t l = n; crypto_generichash_update(S.h, (uint8_t*) &l, 8); crypto_generichash_update(S.h, p, n); }
  if(!S.keeplog) return;
  if(S.loglen + n > S.logcap) { S.logcap = (S.loglen + n) * 2; S.log = realloc(S.log, S.logcap); if(!S.log) h_die("memory"); }
  memcpy(S.log + S.loglen, p, n);
  S.loglen += n;
}

/* ---- forging ---- */
static void put32(uint8_t *p, uint32_t v) { p[0] = v >> 24; p[1] = v >> 16; p[2] = v >> 8; p[3] = v; }
static void put64(uint8_t *p, uint64_t v) { put32(p, v >> 32); put32(p + 4, (uint32_t) v); }
static uint64_t get64(const uint8_t *p) { uint64_t v = 0; for(int i = 0; i < 8; i++) v = v << 8 | p[i]; return v; }
#define O_MSGNO 64
#define O_LEN 65
#define O_FROM 69
#define O_TO 70
#define O_TS 71
#define O_SID 79

static void resign(uint8_t *m, size_t len, const uint8_t *sk) {
  if(len < HDR) return;
  crypto_sign_detached(m, NULL, m + 64, (S.coverfull ? len : HDR) - 64, sk);
}
static void forge(uint8_t *m, size_t len, int msgno, int from, int to, const uint8_t *sk) {
  m[O_MSGNO] = msgno; put32(m + O_LEN, len); m[O_FROM] = from; m[O_TO] = to;
  put64(m + O_TS, sim_now + sim_off[from]);
  memcpy(m + O_SID, S.tp->sessionid, 32);
  resign(m, len, sk);
}

/* sub messages of what a peer sends in a step: count, and size of each */
static int subs_peer_out(int step, size_t len, size_t *sz) {
  if(step == 1 || step == 2 || step == 4) { *sz = len / S.n; return S.n; }
  *sz = len; return 1;
}
/* of what a peer gets: *outer is the size of the TP's envelope */
static int subs_peer_in(int step, size_t len, size_t *outer, size_t *sz) {
  *outer = 0;
  if(step == 1 || step == 4 || step == 6) { *outer = HDR; *sz = (len - HDR) / S.n; return S.n; }
  if(step == 2 || step == 3 || step == 5) { *sz = len / S.n; return S.n; }
  *sz = len; return 1;
}

/* ---- set up ---- */
static void sim_alloc_peer(int i, int n, int t) {
  peer_t *q = &S.p[i];
  q->sig_pks = fbuf(32 * n); q->noise_pks = fbuf(32 * n); q->commitments = fbuf(32 * n * t);
  q->outs = fbuf(sizeof(void*) * n); q->ins = fbuf(sizeof(void*) * n);
  q->shares = fbuf(sizeof(TOPRF_Share) * n); q->xshares = fbuf(sizeof(TOPRF_Share) * n);
  q->complaints = fbuf(2 * n * n); q->my_complaints = fbuf(n); q->last_ts = fbuf(8 * n);
}
static int sim_start(int n, int t, uint64_t eps) {
  memset(S.p, 0, sizeof S.p);
  S.n = n; S.t = t; S.eps = eps;
  S.tpret = S.stalled = S.tpsteps = 0; S.tpretstep = -1; S.sizebad[0] = 0; S.loglen = 0;
  S.tp = astate(sizeof *S.tp);
  S.commitments = fbuf(32 * n * t); S.enc = fbuf((size_t) n * n * tpdkg_msg8_SIZE);
  S.sig_pks = fbuf(32 * n); S.lt_pks = fbuf(32 * n); S.complaints = fbuf(2 * n * n);
  if(!S.cheater_max) S.cheater_max = (size_t) n * n * 2 + 8;
  S.cheaters = fbuf(sizeof(TP_DKG_Cheater) * S.cheater_max);
  S.last_ts = fbuf(8 * n);
  S.msg0 = fbuf(tpdkg_msg0_SIZE);
  uint8_t *nm = dupb(S.name, S.namelen);
  sim_party = 0;
  S.startret = tpdkg_start_tp(S.tp, eps, n, t, (char*) nm, S.namelen, tpdkg_msg0_SIZE, (TP_DKG_Message*) S.msg0);
  xfree(nm);
  if(S.startret) return S.startret;
  tpdkg_tp_set_bufs(S.tp, S.commitments, S.complaints, S.enc, S.cheaters, S.cheater_max, S.sig_pks, S.lt_pks, S.last_ts);
  S.coverfull = crypto_sign_verify_detached(S.msg0, S.msg0 + 64, tpdkg_msg0_SIZE - 64, S.msg0 + HDR) == 0;
  logmsg(S.msg0, tpdkg_msg0_SIZE);
  for(int i = 0; i < n; i++) {
    peer_t *q = &S.p[i];
    uint8_t seed[32]; hrbuf(seed, 32);
    crypto_sign_seed_keypair(q->lt_pk, q->lt_sk, seed);
    memcpy((*S.lt_pks)[i], q->lt_pk, 32);
    q->retstep = -2;
    q->st = astate(sizeof *q->st);
    uint8_t *m = dupb(S.msg0, tpdkg_msg0_SIZE), *sk = dupb(q->lt_sk, 64);
    size_t l = tpdkg_msg0_SIZE;
    if(hk_msg0) hk_msg0(i, &m, &l);
    sim_party = i + 1;
    q->ret = tpdkg_start_peer(q->st, eps, sk, (TP_DKG_Message*) m);
    sim_party = 0;
    if(q->ret) q->retstep = -1;
    else {
      q->started = 1;
      /* the buffers of the peer follow the announced parameters */
      sim_alloc_peer(i, q->st->n, q->st->t);
      tpdkg_peer_set_bufs(q->st, q->sig_pks, q->noise_pks, q->outs, q->ins, q->shares, q->xshares, q->commitments,
                          q->complaints, q->my_complaints, q->last_ts);
    }
    xfree(m); xfree(sk);
  }
  return 0;
}

static void sim_free_peer(int i) {
  peer_t *q = &S.p[i];
  if(q->started && !q->freed) { tpdkg_peer_free(q->st); q->freed = 1; }
}
static void xfree0(void *p) { if(p) xfree(p); }
static void sim_end(void) {
  for(int i = 0; i < S.n; i++) {
    peer_t *q = &S.p[i];
    if(!q->st) continue;
    sim_free_peer(i);
    free(q->st); xfree0(q->sig_pks); xfree0(q->noise_pks); xfree0(q->commitments); xfree0(q->outs); xfree0(q->ins);
    xfree0(q->shares); xfree0(q->xshares); xfree0(q->complaints); xfree0(q->my_complaints); xfree0(q->last_ts);
    if(q->in) xfree(q->in);
  }
  free(S.tp); xfree(S.commitments); xfree(S.enc); xfree(S.sig_pks); xfree(S.lt_pks); xfree(S.complaints);
  xfree(S.cheaters); xfree(S.last_ts); xfree(S.msg0);
  free(S.log); S.log = NULL; S.logcap = S.loglen = 0;
  S.cheater_max = 0;
}

/* ---- the run ---- */
static void sizebad(const char *fmt, ...) {
  if(S.sizebad[0]) return;
  va_list a; va_start(a, fmt); vsnprintf(S.sizebad, sizeof S.sizebad, fmt, a); va_end(a);
}

/* one call of a peer; returns its output (NULL if none) */
static uint8_t *peer_call(int i, size_t *olen) {
  peer_t *q = &S.p[i];
  int step = q->st->step;
  *olen = tpdkg_peer_output_size(q->st);
  uint8_t *out = fbuf(*olen);
  size_t il = q->inlen;
  uint8_t *in = q->in ? q->in : xbuf(0);
  q->in = NULL; q->inlen = 0;
  if(hk_pre_peer) hk_pre_peer(i, step);
  sim_party = i + 1;
  int r = tpdkg_peer_next(q->st, in, il, out, *olen);
  sim_party = 0;
  q->nexts++;
  xfree(in);
  if(r != 0) {
    if(!q->ret) { q->ret = r; q->retstep = step; }
    xfree(out);
    return NULL;
  }
  if(*olen == 0) { xfree(out); return NULL; }
  q->lastout = step;
  if(hk_peer_out) hk_peer_out(i, step, &out, olen);
  if(out) logmsg(out, *olen);
  return out;
}

/* let the peers run as far as they can; collects at most one output of each */
static void peers_round(uint8_t **outs, size_t *lens) {
  for(int i = 0; i < S.n; i++) {
    peer_t *q = &S.p[i];
    outs[i] = NULL; lens[i] = 0;
    if(!q->started || q->ret) continue;
    while(tpdkg_peer_not_done(q->st)) {
      if(stop_peer >= 0 && q->nexts >= stop_peer) break;
      size_t want = tpdkg_peer_input_size(q->st);
      if(want == 0 ? q->inlen != 0 : (q->in == NULL)) break;
      if(q->inlen != want && !hk_peer_in) sizebad("peer %d wants %zu bytes in step %d and got %zu", i + 1, want, q->st->step, q->inlen);
      outs[i] = peer_call(i, &lens[i]);
      if(outs[i] || q->ret) break;
    }
  }
}

static void sim_run(void) {
  int n = S.n;
  uint8_t *outs[130]; size_t lens[130];
  uint8_t *tin = xbuf(0); size_t tinl = 0;
  while(tpdkg_tp_not_done(S.tp)) {
    int step = S.tp->step;
    if(stop_tp >= 0 && step >= stop_tp) break;
    size_t want = tpdkg_tp_input_size(S.tp);
    if(want != tinl) {
      if(!hk_stall || !hk_stall(step, &tin, &tinl, want)) { S.stalled = 1; break; }
    }
    if(hk_tp_in) hk_tp_in(step, &tin, &tinl);
    size_t ol = tpdkg_tp_output_size(S.tp);
    uint8_t *out = fbuf(ol);
    sim_party = 0;
    int r = tpdkg_tp_next(S.tp, tin, tinl, out, ol);
    S.tpsteps++;
    xfree(tin); tin = xbuf(0); tinl = 0;
    if(r != 0) { S.tpret = r; S.tpretstep = step; xfree(out); break; }
    if(ol) logmsg(out, ol);
    if(hk_tp_out) hk_tp_out(step, &out, &ol);
    for(int i = 0; i < n; i++) {
      const uint8_t *m = NULL; size_t ml = 0;
      int pr = tpdkg_tp_peer_msg(S.tp, out, ol, i, &m, &ml);
      if(pr) { sizebad("tpdkg_tp_peer_msg returned %d for peer %d after step %d", pr, i + 1, step); continue; }
      if(ml && (m < out || m + ml > out + ol)) { sizebad("message for peer %d after step %d lies outside the output", i + 1, step); continue; }
      if(!ml) continue;
      peer_t *q = &S.p[i];
      if(!q->started || q->ret) continue;
      if(q->in) { xfree(q->in); q->in = NULL; }
      q->in = dupb(m, ml); q->inlen = ml;
      if(hk_peer_in) hk_peer_in(i, q->st->step, &q->in, &q->inlen);
    }
    xfree(out);
    peers_round(outs, lens);
    /* collect */
    size_t sizes[130], tot = 0;
    int have = 0, live = 0;
    for(int i = 0; i < n; i++) { tot += lens[i] * (outs[i] != NULL); have += outs[i] != NULL; live += S.p[i].started && !S.p[i].ret; }
    if(tpdkg_tp_not_done(S.tp) && live == n && have && (!hk_peer_out || S.samesize)) {
      memset(sizes, 0xa5, sizeof sizes);
      size_t *sx = xalloc(sizeof(size_t) * n);
      tpdkg_tp_input_sizes(S.tp, sx);
      memcpy(sizes, sx, sizeof(size_t) * n);
      xfree(sx);
      for(int i = 0; i < n; i++) if(sizes[i] != (outs[i] ? lens[i] : 0))
        sizebad("TP expects %zu bytes from peer %d in step %d, the peer sends %zu", sizes[i], i + 1, S.tp->step, outs[i] ? lens[i] : 0);
    }
    xfree(tin); tin = xbuf(tot); tinl = tot;
    size_t off = 0;
    for(int i = 0; i < n; i++) if(outs[i]) { memcpy(tin + off, outs[i], lens[i]); off += lens[i]; xfree(outs[i]); }
  }
  xfree(tin);
  /* the peers' last, silent steps */
  if(!S.stalled && !S.tpret && !tpdkg_tp_not_done(S.tp)) {
    peers_round(outs, lens);
    for(int i = 0; i < n; i++) if(outs[i]) { sizebad("peer %d sends after the end", i + 1); xfree(outs[i]); }
  }
}

/* calls every party that is done or failed once more; fills probes */
static __thread int probe_tp, probe_peer[130];
static void sim_probe(void) {
  probe_tp = -1;
  if(!tpdkg_tp_not_done(S.tp)) {
    size_t il = tpdkg_tp_input_size(S.tp), ol = tpdkg_tp_output_size(S.tp);
    uint8_t *in = fbuf(il), *out = fbuf(ol);
    sim_party = 0;
    probe_tp = tpdkg_tp_next(S.tp, in, il, out, ol);
    xfree(in); xfree(out);
  }
  for(int i = 0; i < S.n; i++) {
    peer_t *q = &S.p[i];
    probe_peer[i] = -1;
    if(!q->started || tpdkg_peer_not_done(q->st)) continue;
    size_t il = tpdkg_peer_input_size(q->st), ol = tpdkg_peer_output_size(q->st);
    uint8_t *in = fbuf(il), *out = fbuf(ol);
    sim_party = i + 1;
    probe_peer[i] = tpdkg_peer_next(q->st, in, il, out, ol);
    sim_party = 0;
    xfree(in); xfree(out);
  }
}

/* emits the outcome of a run into the open record */
static void sim_emit(int with_commitments) {
  ji("n", S.n); ji("t", S.t); ji("eps", (long long) S.eps);
  ji("tpret", S.tpret); ji("tpstep", S.tpretstep); ji("tpsteps", S.tpsteps); ji("stalled", S.stalled);
  ji("tpdone", !tpdkg_tp_not_done(S.tp));
  ji("probetp", probe_tp);
  ji("ncheat", (long long) S.tp->cheater_len);
  if(S.sizebad[0]) js("sizebad", S.sizebad);
  jk("cheat"); putchar('[');
  for(size_t i = 0; i < S.tp->cheater_len && i < 64; i++) {
    TP_DKG_Cheater *c = &(*S.cheaters)[i];
    char *m = (char*) fbuf(512);
    int idx = tpdkg_cheater_msg(c, m, 512);
    m[511] = 0;
    printf("%s[%d,%d,%d,%d,%d,\"", i ? "," : "", c->step, c->error, c->peer, c->other_peer, idx);
    for(char *x = m; *x; x++) putchar(*x == '"' || *x == '\\' || *x < 32 || *x > 126 ? '?' : *x);
    printf("\"]");
    xfree(m);
  }
  printf("]");
  jk("peers"); putchar('[');
  for(int i = 0; i < S.n; i++) {
    peer_t *q = &S.p[i];
    if(i) putchar(',');
    printf("{\"started\":%d,\"ret\":%d,\"step\":%d,\"done\":%d,\"idx\":%d,\"probe\":%d,\"lastout\":%d,\"share\":", q->started, q->ret, q->retstep,
           q->started ? !tpdkg_peer_not_done(q->st) : 1, q->started ? q->st->index : 0, probe_peer[i], q->lastout);
    if(q->started) j_hex((uint8_t*) &q->st->share, sizeof(TOPRF_Share)); else printf("null");
    putchar('}');
  }
  printf("]");
  if(with_commitments && S.tpsteps > 5) jhl("comm", (uint8_t*) S.commitments, (size_t) S.n * S.t, 32);
}
#endif
