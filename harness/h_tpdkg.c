/* Complete TP-DKG runs: honest, tampered, replayed, with deviating peers, fuzzed. */
#include <ctype.h>
#include "tpsim.h"

static int mark[130];                 /* deviating peers */
static int must[130];                 /* peers the TP has to name */
static char what[4000];
static void note(const char *fmt, ...) {
  size_t l = strlen(what);
  if(l > sizeof what - 100) return;
  va_list a; va_start(a, fmt);
  if(l) { strcpy(what + l, "; "); l += 2; }
  vsnprintf(what + l, sizeof what - l, fmt, a);
  va_end(a);
}
static FILE *nulllog;
static void setup(void) {
  hk_msg0 = NULL; hk_tp_in = NULL; hk_tp_out = NULL; hk_peer_in = NULL; hk_pre_peer = NULL; hk_peer_out = NULL; hk_stall = NULL;
  stop_tp = stop_peer = -1; S.samesize = 0;
  memset(mark, 0, sizeof mark); memset(must, 0, sizeof must); what[0] = 0;
  memset(sim_off, 0, sizeof sim_off);
  static const uint64_t eras[] = { 1000000000, 1000000000, 1000000000, 0x7fffff00, 0xffffff00, 0x100000000 + 1000 };
  sim_now = eras[hrn(6)]; sim_now += hrn(sim_now == 1000000000 ? 1000000000 : 0x200); sim_party = 0;
  S.cheater_max = 0; S.keeplog = 0; S.h = NULL; S.prefill = -1;
  S.namelen = 1 + hrn(40);
  hrbuf(S.name, sizeof S.name);
  if(!nulllog) nulllog = fopen("/dev/null", "w");
  log_file = hrn(4) == 0 ? nulllog : NULL;
}
static void pick(int maxn, int *n, int *t) { *n = 3 + hrn(maxn - 2); *t = 2 + hrn(*n - 2); }
static const uint64_t epss[] = {1, 2, 5, 60, 3600, 120000};
static uint64_t pickeps(void) { return epss[hrn(6)]; }
static void emit_marks(void) {
  js("what", what);
  jk("byz"); putchar('['); for(int i = 0, f = 1; i < S.n; i++) if(mark[i]) { printf("%s%d", f ? "" : ",", i + 1); f = 0; } putchar(']');
  jk("must"); putchar('['); for(int i = 0, f = 1; i < S.n; i++) if(must[i]) { printf("%s%d", f ? "" : ",", i + 1); f = 0; } putchar(']');
}
static size_t inuse(void) {
#ifdef HAVE_ASAN
  extern size_t __sanitizer_get_current_allocated_bytes(void);
  return __sanitizer_get_current_allocated_bytes();
#else
  return 0;
#endif
}

/* ------------------------------------------------------------------ honest runs */
static void adv(int step, uint8_t **b, size_t *l) { (void) step; (void) b; (void) l; sim_now += hrn((S.eps >> 34 ? 1ULL << 34 : S.eps) / 4 + 1); }

static void sizes_of_case(uint64_t no, int *n, int *t) {
  /* all pairs for small n first, then larger ones */
  uint64_t k = no;
  int top = h_argc > 0 ? atoi(h_argv[0]) : 8;
  for(int a = 3; a <= top; a++) for(int b = 2; b < a; b++) if(k-- == 0) { *n = a; *t = b; return; }
  *n = 3 + hrn(10); *t = 2 + hrn(*n - 2);
}

static void m_honest(uint64_t no) {
  setup();
  int n, t;
  sizes_of_case(no, &n, &t);
  if(h_argc > 2) { n = atoi(h_argv[1]); t = atoi(h_argv[2]); }
  /* also limits that reach back before 1970 or further than any clock */
  static const uint64_t far[] = {1ULL << 32, 1ULL << 40, INT64_MAX, 1ULL << 63, UINT64_MAX - 1, UINT64_MAX};
  uint64_t eps = hrn(4) ? pickeps() : far[hrn(6)];
  if(hrn(6) == 0) sim_now = hrn(5000);      /* nobody has set the clock */
  S.namelen = hrn(5) == 0 ? 1024 : hrn(4) == 0 ? 1 : 1 + hrn(1024);
  hk_tp_in = adv;
  int skew = hrn(3) > 0;
  int64_t off[130] = {0};
  for(int i = 0; skew && i < n; i++) off[i] = (int64_t) hrn((eps >> 34 ? 1ULL << 34 : eps) / 3 + 1);
  /* the same run with differently prefilled buffers must send the same bytes */
  uint8_t hash[2][32];
  uint64_t hs[4], now = sim_now;
  uint8_t key[32];
  memcpy(hs, hr_s, sizeof hs); memcpy(key, lr_key, 32);
  int rounds = n <= 12 ? 2 : 1;
  for(int round = 0; round < rounds; round++) {
    memcpy(hr_s, hs, sizeof hs); memcpy(lr_key, key, 32); lr_ctr = 0; sim_now = now;
    S.prefill = round ? 0x5a : 0xff;
    for(int i = 0; i < n; i++) sim_off[i + 1] = off[i];
    crypto_generichash_state *st = astate(sizeof *st);
    crypto_generichash_init(st, NULL, 0, 32);
    S.h = st;
    int r = sim_start(n, t, eps);
    if(r == 0) { sim_run(); sim_probe(); }
    crypto_generichash_final(st, hash[round], 32);
    free(st); S.h = NULL;
    if(round == rounds - 1) {
      jo(); ji("start", r); ji("namelen", S.namelen); ji("skew", skew);
      if(r == 0) {
        sim_emit(1);
        /* what the protocol name contributes */
        jh("dst", S.msg0 + HDR + 32, 32); jh("name", S.name, S.namelen);
        jil("nt", S.msg0 + HDR + 64, 2);
      }
      ji("same", rounds < 2 || memcmp(hash[0], hash[1], 32) == 0);
      jc();
    }
    sim_end();
  }
}

/* ------------------------------------------------------------------ many justified and false complaints */
static uint8_t cp_pair[130][130];       /* 1: the dealer (first) deals badly to the second; 2: the second lies about the first; 3: like 1, with a wrong index; 4: both agreed on a complaint about a message that nobody can decrypt */
static uint8_t *cp_kept[130][130];
static uint8_t *sesskey(Noise_XK_session_t *s, int recv);
static void cp_pre_peer(int p, int step) {
  if(step == 4) for(int v = 0; v < S.n; v++) if(cp_pair[p][v] & 1) {
    (*S.p[p].st->shares)[v].value[v % 31] ^= 1 << v % 8;
    if(cp_pair[p][v] == 3) (*S.p[p].st->shares)[v].index = (uint8_t) hrn(256);
  }
}
static void cp_peer_out(int p, int step, uint8_t **b, size_t *l) {
  if(step == 4) for(int v = 0; v < S.n; v++) if(cp_pair[p][v] == 4) {
    uint8_t *m = *b + v * tpdkg_msg8_SIZE, *d = m + HDR + noise_xk_handshake3_SIZE;
    size_t dl = sizeof(TOPRF_Share) + crypto_secretbox_xchacha20poly1305_MACBYTES;
    uint8_t *k = sesskey((*S.p[p].outs)[v], 0);
    if(!k) h_die("no session key");
    cp_kept[p][v] = malloc(tpdkg_msg8_SIZE);
    memcpy(cp_kept[p][v], m, tpdkg_msg8_SIZE);
    d[hrn(dl)] ^= 1 << hrn(8);
    crypto_auth(d + dl, d, dl, k);
    resign(m, tpdkg_msg8_SIZE, S.p[p].st->sig_sk);
  }
  if(step != 5) return;
  uint8_t *d = *b + HDR;
  for(int v = 0; v < S.n; v++) if((cp_pair[v][p] == 2 || cp_pair[v][p] == 4) && d[0] < S.n) d[1 + d[0]++] = v + 1;
  resign(*b, *l, S.p[p].st->sig_sk);
}
/* the partner of the dealer has the message as it was */
static void cp_peer_in(int p, int step, uint8_t **b, size_t *l) {
  (void) l;
  if(step == 5) for(int d = 0; d < S.n; d++) if(cp_kept[d][p]) {
    memcpy(*b + d * tpdkg_msg8_SIZE, cp_kept[d][p], tpdkg_msg8_SIZE);
    free(cp_kept[d][p]); cp_kept[d][p] = NULL;
  }
}
/* more offences than the list of offenders holds */
static void m_full(uint64_t no) {
  setup();
  int n, t;
  pick(8, &n, &t);
  memset(cp_pair, 0, sizeof cp_pair);
  int made = 0, want = 1 + (int) hrn(t * t - 1);
  for(int k = 0; k < 40 * want && made < want; k++) {
    int d = (int) hrn(n), v = (int) hrn(n);
    if(d == v || cp_pair[d][v]) continue;
    cp_pair[d][v] = no % 2 ? 3 : 1 + hrn(3);
    made++;
  }
  hk_pre_peer = cp_pre_peer; hk_peer_out = cp_peer_out; S.samesize = 1;
  S.cheater_max = hrn(made) + (no % 3 == 0);
  size_t max = S.cheater_max;
  if(!max) S.cheater_max = max = 1;
  if(sim_start(n, t, pickeps())) h_die("start");
  sim_run(); sim_probe();
  jo(); ji("made", made); ji("max", max); js("what", made ? "bad shares" : ""); sim_emit(0); jc();
  sim_end();
}
static void cp_emit(int n) {
  jk("pairs"); putchar('[');
  for(int d = 0, f = 1; d < n; d++) for(int v = 0; v < n; v++) if(cp_pair[d][v]) { printf("%s[%d,%d,%d]", f ? "" : ",", d + 1, v + 1, cp_pair[d][v]); f = 0; }
  putchar(']');
  jk("recs"); putchar('[');
  for(size_t i = 0; i < S.tp->cheater_len; i++) {
    TP_DKG_Cheater *c = &(*S.cheaters)[i];
    char m[256];
    printf("%s[%d,%d,%d,%d,%d]", i ? "," : "", c->step, c->error, c->peer, c->other_peer, tpdkg_cheater_msg(c, m, sizeof m));
  }
  putchar(']');
}
/* complaints of and about the peers with the largest numbers */
static void big_complain(uint64_t no, int many) {
  setup();
  int n = 128 - (int) (no % 4 == 3 ? hrn(28) : 0), t = 2 + (int) hrn(2), made = 0;
  if(many) { n = 20 + (int) hrn(5); t = 17 + (int) hrn(3); }
  int want = t * t - 1;
  memset(cp_pair, 0, sizeof cp_pair);
  for(int d = 0; many && d < n; d++) for(int v = 0; v < n && made < want; v++) if(d != v) { cp_pair[d][v] = 1 + hrn(2); made++; }
  for(int k = 0; k < 100 && made < want; k++) {
    int d = hrn(3) ? n - 1 - (int) hrn(3) : (int) hrn(n), v = hrn(2) ? n - 1 - (int) hrn(3) : (int) hrn(n);
    if(!made) { if(no % 2) d = n - 1; else v = n - 1; }
    if(d == v || cp_pair[d][v]) continue;
    cp_pair[d][v] = 1 + hrn(2);
    made++;
  }
  hk_peer_in = cp_peer_in; hk_pre_peer = cp_pre_peer; hk_peer_out = cp_peer_out; S.samesize = 1;
  S.cheater_max = (size_t) n * n * 2 + 8;
  if(sim_start(n, t, pickeps())) h_die("start");
  sim_run(); sim_probe();
  jo(); cp_emit(n); sim_emit(0); jc();
  sim_end();
}
static void m_bigcomplain(uint64_t no) { big_complain(no, 0); }
/* more complaints than a byte can count */
static void m_manycomplain(uint64_t no) { big_complain(no, 1); }
static void m_complain(uint64_t no) {
  setup();
  int top = h_argc > 0 ? atoi(h_argv[0]) : 10;
  int n = 3 + (int) hrn(top - 2), t = 2 + (int) hrn(n - 2);
  if(hrn(2)) t = n - 1;
  memset(cp_pair, 0, sizeof cp_pair);
  int max = t * t - 1, want = 1 + (int) hrn(max < n * (n - 1) ? max : n * (n - 1)), made = 0;
  int dealers = 1 + (int) hrn(hrn(2) ? 2 : n), falsely = (int) hrn(3);
  if(no % 3 == 0) { dealers = 1; want = n - 1 < max ? n - 1 : max; }      /* everybody against one */
  for(int k = 0; k < 40 * want && made < want; k++) {
    int d = no % 3 == 0 ? (int) (no / 3 % n) : (int) hrn(dealers), v = (int) hrn(n);
    if(d == v || cp_pair[d][v]) continue;
    cp_pair[d][v] = falsely == 0 ? 1 : falsely == 1 ? 2 : 1 + hrn(2);
    if(no % 2 && hrn(3) == 0) cp_pair[d][v] = 4;
    made++;
  }
  uint64_t eps = pickeps();
  hk_peer_in = cp_peer_in; hk_pre_peer = cp_pre_peer; hk_peer_out = cp_peer_out; S.samesize = 1;
  uint8_t hash[2][32], key[32];
  uint64_t hs[4], now = sim_now;
  memcpy(hs, hr_s, sizeof hs); memcpy(key, lr_key, 32);
  for(int round = 0; round < 2; round++) {
    memcpy(hr_s, hs, sizeof hs); memcpy(lr_key, key, 32); lr_ctr = 0; sim_now = now;
    S.prefill = round ? 0x5a : 0xff;
    crypto_generichash_state *st = astate(sizeof *st);
    crypto_generichash_init(st, NULL, 0, 32);
    S.h = st;
    S.cheater_max = (size_t) n * n * 2 + 8;
    if(sim_start(n, t, eps)) h_die("start");
    sim_run(); sim_probe();
    crypto_generichash_final(st, hash[round], 32);
    free(st); S.h = NULL;
    if(round) {
      jo();
      cp_emit(n);
      ji("same", memcmp(hash[0], hash[1], 32) == 0);
      sim_emit(0);
      jc();
    }
    sim_end();
  }
}

/* ------------------------------------------------------------------ everything that is sent, for an independent reader */
static int wr_first, wr_party, wr_step; static uint8_t wr_draw[40000][34]; static int wr_draws;
static void wr(const char *kind, int party, int step, const uint8_t *p, size_t n) {
  printf("%s[\"%s\",%d,%d,%llu,", wr_first ? "" : ",", kind, party, step, (unsigned long long) (sim_now + (uint64_t) sim_off[party]));
  j_hex(p, n); putchar(']'); wr_first = 0;
}
static void wr_seen(const uint8_t *p, size_t n) {
  if(n != 32 || wr_party == 0 || wr_step < 1 || wr_step > 2 || wr_draws == 40000) return;
  wr_draw[wr_draws][0] = wr_party; wr_draw[wr_draws][1] = wr_step; memcpy(wr_draw[wr_draws++] + 2, p, 32);
}
static void wr_tp_out(int step, uint8_t **b, size_t *l) { wr_party = 0; wr("tp", 0, step, *b, *l); }
static void wr_peer_in(int p, int step, uint8_t **b, size_t *l) { wr("in", p + 1, step, *b, *l); }
static void wr_pre_peer(int p, int step) {
  cp_pre_peer(p, step);
  wr_party = p + 1; wr_step = step;
  if(step == 4) wr("shares", p + 1, step, (uint8_t*) *S.p[p].st->shares, 33 * (size_t) S.n);
}
static void wr_peer_out(int p, int step, uint8_t **b, size_t *l) {
  wr_party = 0;
  cp_peer_out(p, step, b, l);
  wr("out", p + 1, step, *b, *l);
  if(step == 0) wr("noise_sk", p + 1, step, S.p[p].st->noise_sk, 32);
}
static void m_wire(uint64_t no) {
  setup();
  int n, t;
  if(no % 4) pick(6, &n, &t); else pick(14, &n, &t);
  memset(cp_pair, 0, sizeof cp_pair);
  int c = no % 3 ? 0 : 1 + (int) hrn(t * t - 1);
  for(int i = 0; i < c; i++) { int d = (int) hrn(n), v = (int) hrn(n); if(d != v) cp_pair[d][v] = 1 + (hrn(4) == 0); }
  uint64_t eps = pickeps();
  if(hrn(4) == 0) S.namelen = 1 + hrn(1024);
  for(int i = 0; i < n; i++) sim_off[i + 1] = (int64_t) hrn(eps / 3 + 1);
  hk_tp_in = adv; hk_tp_out = wr_tp_out; hk_peer_in = wr_peer_in; hk_pre_peer = wr_pre_peer; hk_peer_out = wr_peer_out; S.samesize = 1;
  wr_draws = wr_party = 0; wr_first = 1;
  jo();
  jh("name", S.name, S.namelen);
  jk("ev"); putchar('[');
  lr_observer = wr_seen;
  if(sim_start(n, t, eps)) h_die("start");
  wr("msg0", 0, 0, S.msg0, tpdkg_msg0_SIZE);
  sim_run();
  lr_observer = NULL;
  sim_probe();
  putchar(']');
  jhl("draws", (uint8_t*) wr_draw, wr_draws, 34);
  jhl("lt", (uint8_t*) S.lt_pks, n, 32);
  jk("pairs"); putchar('[');
  for(int d = 0, f = 1; d < n; d++) for(int v = 0; v < n; v++) if(cp_pair[d][v]) { printf("%s[%d,%d,%d]", f ? "" : ",", d + 1, v + 1, cp_pair[d][v]); f = 0; }
  putchar(']');
  sim_emit(0);
  jc();
  sim_end();
}

/* ------------------------------------------------------------------ tampering and replay on the wire */
/* a target is one message of one leg: 0 msg0 to a peer, 1 TP to peer in the peer's step, 2 peer to TP from the peer's step */
static const struct { int leg, step; } targets[] = {
  {0, 0}, {1, 0}, {1, 1}, {1, 2}, {1, 3}, {1, 4}, {1, 5}, {1, 6}, {1, 9},
  {2, 0}, {2, 1}, {2, 2}, {2, 3}, {2, 4}, {2, 5}, {2, 7}, {2, 8}, {2, 9} };
#define NT 18
static int tg_leg, tg_step, tg_p, tg_hit, tg_kind;
static long tg_pos;
static int tg_relay;                    /* the TP itself alters what it relays */
static int lie_a = -1, lie_b = -1;      /* lie_b complains about lie_a without reason */

static void alter(uint8_t **b, size_t *l, size_t sub, int nsub, size_t outer) {
  uint8_t *o = dupb(*b, *l);
  size_t ol = *l;
  switch(tg_kind) {
  case 0: (*b)[hrn(*l)] ^= 1 << hrn(8); break;
  case 1: { size_t s = hrn(nsub); (*b)[outer + s * sub + 64 + hrn(47)] ^= 1 << hrn(8); break; }
  case 2: { size_t s = hrn(nsub); (*b)[(hrn(2) ? 0 : outer + s * sub) + hrn(64)] ^= 1 << hrn(8); break; }
  case 3: { size_t s = hrn(nsub); size_t d = sub > HDR ? HDR + hrn(sub - HDR) : hrn(sub); (*b)[outer + s * sub + d] ^= 1 << hrn(8); break; }
  case 4: memset(*b, 0, *l); break;
  case 5: if(nsub > 1) { size_t x = hrn(nsub), y = (x + 1 + hrn(nsub - 1)) % nsub; memcpy(*b + outer + x * sub, o + outer + y * sub, sub); } else hrbuf(*b, 64); break;
  case 6: if(nsub > 1) { size_t x = hrn(nsub), y = (x + 1 + hrn(nsub - 1)) % nsub; memcpy(*b + outer + x * sub, o + outer + y * sub, sub); memcpy(*b + outer + y * sub, o + outer + x * sub, sub); } else hrbuf(*b + 64, *l - 64); break;
  case 7: hrbuf(*b, *l); break;
  case 8: {   /* other length */
    size_t nl = hrn(2) ? *l - 1 - hrn(hrn(2) ? 4 : *l) % *l : *l + 1 + hrn(80);
    uint8_t *x = xbuf(nl); memcpy(x, o, nl < *l ? nl : *l); if(nl > *l) hrbuf(x + *l, nl - *l);
    xfree(*b); *b = x; *l = nl; break;
  }
  case 9: (*b)[*l - 1 - hrn(2)] ^= 1 << hrn(8); break;
  case 10: { /* swap payload bytes of two positions inside one message */
    size_t x = HDR < *l ? HDR + hrn(*l - HDR) : hrn(*l), y = HDR < *l ? HDR + hrn(*l - HDR) : hrn(*l); uint8_t c = (*b)[x]; (*b)[x] = (*b)[y]; (*b)[y] = c; break; }
  case 11: if(tg_pos >= 0 && (size_t) tg_pos < *l) (*b)[tg_pos] ^= 1 << hrn(8); break;
  }
  if(*l == ol && memcmp(o, *b, ol) == 0 && tg_kind != 11) (*b)[hrn(ol)] ^= 1 << hrn(8);
  tg_hit = *l != ol || memcmp(o, *b, ol) != 0;
  xfree(o);
}
static void t_msg0(int p, uint8_t **b, size_t *l) {
  if(tg_leg != 0 || p != tg_p) return;
  if(tg_kind == 8) tg_kind = 0;       /* this message has no length argument */
  alter(b, l, *l, 1, 0);
}
static void t_peer_in(int p, int step, uint8_t **b, size_t *l) {
  if(tg_leg != 1 || p != tg_p || step != tg_step) return;
  size_t outer, sub; int k = subs_peer_in(step, *l, &outer, &sub);
  if(tg_relay) {
    uint8_t *o = dupb(*b, *l);
    int s = hrn(2) ? p : (int) hrn(k);
    size_t at = outer + s * sub, other = outer + (s + 1 + hrn(k - 1)) % k * sub;
    switch(tg_kind) {
    case 0: (*b)[at + hrn(sub)] ^= 1 << hrn(8); break;
    case 1: (*b)[at + hrn(64)] ^= 1 << hrn(8); break;
    case 2: (*b)[at + 64 + hrn(47)] ^= 1 << hrn(8); break;
    case 3: hrbuf(*b + at, sub); break;
    case 4: memset(*b + at, 0, sub); break;
    case 5: memcpy(*b + at, o + other, sub); break;
    case 6: memcpy(*b + at, o + other, sub); memcpy(*b + other, o + at, sub); break;
    case 7: memcpy(*b + at + HDR, o + other + HDR, sub - HDR); break;
    case 8: resign(*b + at, sub, S.tp->sig_sk); break;
    case 9: memcpy(*b + at + HDR, o + other + HDR, sub - HDR); resign(*b + at, sub, S.tp->sig_sk); break;
    case 11: if((size_t) tg_pos < *l - outer) (*b)[outer + tg_pos] ^= 1 << hrn(8); break;
    }
    tg_hit = memcmp(o, *b, *l) != 0;
    resign(*b, *l, S.tp->sig_sk);
    xfree(o);
    return;
  }
  alter(b, l, sub, k, outer);
}
static void lie(int p, int step, uint8_t **b, size_t *l) {
  if(lie_a < 0 || step != 5 || p != lie_b) return;
  uint8_t *d = *b + HDR;
  d[0] = 1; memset(d + 1, 0, *l - HDR - 1); d[1] = lie_a + 1;
  resign(*b, *l, S.p[p].st->sig_sk);
  mark[p] = 1;
}
static void t_peer_out(int p, int step, uint8_t **b, size_t *l) {
  lie(p, step, b, l);
  if(tg_leg != 2 || p != tg_p || step != tg_step) return;
  size_t sub; int k = subs_peer_out(step, *l, &sub);
  alter(b, l, sub, k, 0);
}
static int t_stall(int step, uint8_t **b, size_t *l, size_t want) {
  (void) step; (void) b; (void) l; (void) want;
  return tg_hit && tg_leg == 2 && tg_kind == 8;      /* deliver the message of another length */
}
static void tamper_run(int n, int t) {
  lie_a = lie_b = -1; tg_hit = 0;
  if(tg_relay != 2) tg_p = hrn(n);
  if(tg_leg == 2 && tg_step == 7) { lie_a = tg_p; lie_b = (tg_p + 1 + hrn(n - 1)) % n; }
  hk_msg0 = t_msg0; hk_peer_in = t_peer_in; hk_peer_out = t_peer_out; hk_stall = t_stall;
  sim_start(n, t, 3600);
  sim_run();
  sim_probe();
  jo(); ji("leg", tg_leg); ji("step", tg_step); ji("p", tg_p); ji("kind", tg_kind); ji("pos", tg_pos); ji("hit", tg_hit); ji("relay", tg_relay); ji("lie", lie_b);
  sim_emit(0);
  jc();
  sim_end();
}
static void m_tamper(uint64_t no) {
  setup();
  int n, t;
  pick(5, &n, &t);
  tg_relay = 0;
  tg_leg = targets[no % NT].leg; tg_step = targets[no % NT].step; tg_kind = (no / NT) % 11; tg_pos = -1;
  tamper_run(n, t);
}
static const int relays[] = {1, 4, 6};
static void m_relay(uint64_t no) {
  setup();
  int n, t;
  pick(5, &n, &t);
  tg_relay = 1; tg_leg = 1; tg_step = relays[no % 3]; tg_kind = (no / 3) % 10; tg_pos = -1;
  tamper_run(n, t);
}
/* every byte of every relayed message for every peer; arguments: stride */
static void m_relayall(uint64_t no) {
  setup();
  uint64_t stride = h_argc > 0 ? strtoull(h_argv[0], NULL, 10) : 1;
  long pos = (long) (no * stride + h_seedval % stride);
  static const long len[3] = {525, 525, 345};
  tg_p = (int) (pos % 3); pos /= 3;
  int i = 0;
  while(i < 2 && pos >= len[i]) pos -= len[i++];
  tg_relay = 2; tg_leg = 1; tg_step = relays[i]; tg_kind = 11; tg_pos = pos;
  tamper_run(3, 2);
}
/* every byte of every message of a run with three peers; arguments: stride */
static void m_tamperall(uint64_t no) {
  setup();
  tg_relay = 0;
  uint64_t stride = h_argc > 0 ? strtoull(h_argv[0], NULL, 10) : 1;
  long pos = (long) (no * stride + h_seedval % stride);
  static const long len[NT] = {177, 111, 636, 477, 477, 636, 768, 456, 113, 239, 477, 477, 175, 768, 115, 144, 143, 113};
  int i = 0;
  while(i < NT - 1 && pos >= len[i]) pos -= len[i++];
  tg_leg = targets[i].leg; tg_step = targets[i].step; tg_kind = 11; tg_pos = pos;
  tamper_run(3, 2);
}

/* ---- replay and misdirection: substitution by genuinely signed messages ---- */
static uint8_t *rec_in[8][16], *rec_out[8][16]; static size_t reclen_in[8][16], reclen_out[8][16];
static int recording, rp_kind, rp_q;
static void rec_clear(void) {
  for(int i = 0; i < 8; i++) for(int j = 0; j < 16; j++) { xfree0(rec_in[i][j]); xfree0(rec_out[i][j]); rec_in[i][j] = rec_out[i][j] = NULL; }
}
static void setmsg(uint8_t **b, size_t *l, const uint8_t *m, size_t ml) {
  uint8_t *x = dupb(m, ml);
  if(ml != *l || memcmp(*b, m, ml)) tg_hit = 1;
  xfree(*b); *b = x; *l = ml;
}
static uint8_t *cur_in[8]; static size_t cur_inl[8];
static void r_peer_in(int p, int step, uint8_t **b, size_t *l) {
  if(recording) { xfree0(rec_in[p][step]); rec_in[p][step] = dupb(*b, *l); reclen_in[p][step] = *l; }
}
static void r_sub(int p, int step, uint8_t **b, size_t *l, int in) {
  size_t outer = 0, sub; int k = in ? subs_peer_in(step, *l, &outer, &sub) : subs_peer_out(step, *l, &sub);
  switch(rp_kind) {
  case 0: {    /* the same message of another session with the same parties */
    uint8_t *m = in ? rec_in[p][step] : rec_out[p][step]; size_t ml = in ? reclen_in[p][step] : reclen_out[p][step];
    if(m) setmsg(b, l, m, ml);
    break;
  }
  case 1: {    /* only one of its parts from the other session */
    uint8_t *m = in ? rec_in[p][step] : rec_out[p][step]; size_t ml = in ? reclen_in[p][step] : reclen_out[p][step];
    if(m && ml == *l) {
      size_t s = hrn(k);
      uint8_t *x = dupb(*b, *l); memcpy(x + outer + s * sub, m + outer + s * sub, sub);
      setmsg(b, l, x, *l); xfree(x);
    }
    break;
  }
  case 2: {    /* a part of another sender, or for another recipient */
    if(k > 1) {
      size_t x = hrn(k), y = (x + 1 + hrn(k - 1)) % k;
      uint8_t *m = dupb(*b, *l); memcpy(m + outer + x * sub, *b + outer + y * sub, sub);
      setmsg(b, l, m, *l); xfree(m);
    }
    break;
  }
  case 6: {    /* one byte of a header is another one, signed by the sender all the same */
    uint8_t *m = dupb(*b, *l);
    if(in && step == 0 && tg_pos == O_TO) tg_pos = O_FROM;      /* here a peer learns its number */
    if(in && (step == 0 || step == 9 || (outer && hrn(3) == 0))) m[tg_pos] ^= 1 << hrn(8);
    else {
      int s = hrn(k);
      if(k > 1 && s == p) s = (s + 1) % k;
      if(!in && step == 0) sub = *l - 64;
      uint8_t *x = m + outer + s * sub;
      x[tg_pos] ^= 1 << hrn(8);
      resign(x, sub, S.p[in ? s : p].st->sig_sk);
      if(!in && step == 0) crypto_sign_detached(m + sub, NULL, m, sub, S.p[p].lt_sk);
    }
    if(in && (outer || step == 0 || step == 9)) resign(m, *l, S.tp->sig_sk);
    setmsg(b, l, m, *l); xfree(m);
    break;
  }
  }
}
/* history of the running session, for messages of other steps and other peers */
static uint8_t *his_in[8][16], *his_out[8][16]; static size_t hisl_in[8][16], hisl_out[8][16];
static void his_clear(void) {
  for(int i = 0; i < 8; i++) for(int j = 0; j < 16; j++) { xfree0(his_in[i][j]); xfree0(his_out[i][j]); his_in[i][j] = his_out[i][j] = NULL; }
}
static void q_peer_in(int p, int step, uint8_t **b, size_t *l) {
  if(recording) { r_peer_in(p, step, b, l); return; }
  his_in[p][step] = dupb(*b, *l); hisl_in[p][step] = *l;
  if(tg_leg != 1 || step != tg_step || p != tg_p) return;
  if(rp_kind <= 2 || rp_kind == 6) r_sub(p, step, b, l, 1);
  else if(rp_kind == 3) {     /* an earlier message of this session, as it was or cut/padded to the size */
    int s = -1; for(int k = 0, c = 0; k < step; k++) if(his_in[p][k] && hrn(++c) == 0) s = k;
    if(s >= 0) {
      size_t nl = hrn(2) && hisl_in[p][s] != *l ? hisl_in[p][s] : *l;
      uint8_t *x = xbuf(nl); memset(x, 0, nl); memcpy(x, his_in[p][s], nl < hisl_in[p][s] ? nl : hisl_in[p][s]);
      setmsg(b, l, x, nl); xfree(x);
    }
  } else if(rp_kind == 4) {   /* the message that another peer gets in this step */
    if(his_in[rp_q][step]) setmsg(b, l, his_in[rp_q][step], hisl_in[rp_q][step]);
  } else if(rp_kind == 5) {   /* its own message comes back */
    int s = S.p[p].lastout;
    if(his_out[p][s]) {
      uint8_t *x = xbuf(*l); memset(x, 0, *l); memcpy(x, his_out[p][s], *l < hisl_out[p][s] ? *l : hisl_out[p][s]);
      setmsg(b, l, x, *l); xfree(x);
    }
  }
}
static void q_peer_out(int p, int step, uint8_t **b, size_t *l) {
  if(recording) { xfree0(rec_out[p][step]); rec_out[p][step] = dupb(*b, *l); reclen_out[p][step] = *l; return; }
  his_out[p][step] = dupb(*b, *l); hisl_out[p][step] = *l;
  if(tg_leg != 2 || step != tg_step) return;
  if(rp_kind == 4) { if(p == tg_p && his_out[rp_q][step]) setmsg(b, l, his_out[rp_q][step], hisl_out[rp_q][step]); return; }
  if(p != tg_p) return;
  if(rp_kind <= 2 || rp_kind == 6) r_sub(p, step, b, l, 0);
  else if(rp_kind == 3) {
    int s = -1; for(int k = 0, c = 0; k < step; k++) if(his_out[p][k] && hrn(++c) == 0) s = k;
    if(s >= 0) {
      uint8_t *x = xbuf(*l); memset(x, 0, *l); memcpy(x, his_out[p][s], *l < hisl_out[p][s] ? *l : hisl_out[p][s]);
      setmsg(b, l, x, *l); xfree(x);
    }
  } else if(rp_kind == 5) {   /* the TP's message comes back */
    if(his_in[p][step]) {
      uint8_t *x = xbuf(*l); memset(x, 0, *l); memcpy(x, his_in[p][step], *l < hisl_in[p][step] ? *l : hisl_in[p][step]);
      setmsg(b, l, x, *l); xfree(x);
    }
  }
}
/* clocks: the sender's clock jumps before the message of the target is built */
static int64_t jump;
static void c_tp_in(int step, uint8_t **b, size_t *l) {
  (void) b; (void) l;
  if(tg_leg == 1 && step == tg_step) { sim_off[0] += jump; tg_hit = 1; }
}
static void c_pre_peer(int p, int step) {
  if(tg_leg == 2 && step == tg_step && p == tg_p) { sim_off[p + 1] += jump; tg_hit = 1; }
}
static void replay_run(uint64_t no, int kind) {
  int n, t;
  pick(5, &n, &t);
  rp_kind = kind;
  /* leg 1 steps and leg 2 steps without msg0 and the key reveal */
  static const struct { int leg, step; } tt[] = {{1, 0}, {1, 1}, {1, 2}, {1, 3}, {1, 4}, {1, 5}, {1, 6}, {1, 9},
    {2, 0}, {2, 1}, {2, 2}, {2, 3}, {2, 4}, {2, 5}, {2, 8}, {2, 9}};
  tg_leg = tt[no % 16].leg; tg_step = tt[no % 16].step;
  /* another peer's message has to exist before the target's */
  tg_p = rp_kind == 4 ? 1 + hrn(n - 1) : hrn(n);
  rp_q = rp_kind == 4 ? hrn(tg_p) : 0;
  tg_hit = 0; tg_kind = 0;
  uint8_t keys[8][64];
  if(rp_kind <= 1) {
    recording = 1;
    hk_peer_in = q_peer_in; hk_peer_out = q_peer_out;
    sim_start(n, t, 3600); sim_run(); sim_end();
    recording = 0;
  }
  (void) keys;
  hk_peer_in = q_peer_in; hk_peer_out = q_peer_out;
  sim_start(n, t, 3600);
  sim_run();
  sim_probe();
  jo(); ji("leg", tg_leg); ji("step", tg_step); ji("p", tg_p); ji("q", rp_q); ji("kind", rp_kind); ji("pos", rp_kind == 6 ? tg_pos : -1); ji("hit", tg_hit);
  sim_emit(0);
  jc();
  sim_end();
  rec_clear(); his_clear();
}
static void m_replay(uint64_t no) { setup(); replay_run(no / 6, no % 6); }
static void m_header(uint64_t no) {
  setup();
  /* all but the time stamp, which may be another one */
  int k = (no % 16 * 5 + no / 16 * 7) % 39;
  tg_pos = k < 7 ? O_MSGNO + k : O_SID + k - 7;
  replay_run(no, 6);
}
static void m_clock(uint64_t no) {
  setup();
  int n, t;
  pick(5, &n, &t);
  uint64_t eps = epss[1 + hrn(5)];
  int kind = no % 6;
  /* senders: the TP in its steps with messages of its own, the peers in all of theirs */
  static const struct { int leg, step; } tt[] = {{0, 0}, {1, 0}, {1, 1}, {1, 4}, {1, 6}, {1, 8},
    {2, 0}, {2, 1}, {2, 2}, {2, 3}, {2, 4}, {2, 5}, {2, 8}, {2, 9}};
  tg_leg = tt[(no / 6) % 14].leg; tg_step = tt[(no / 6) % 14].step;
  tg_p = hrn(n); tg_hit = 0;
  switch(kind) {
  case 0: jump = -1; break;
  case 1: jump = -(int64_t) (1 + hrn(100000)); break;
  case 2: jump = (int64_t) eps + 1; break;
  case 3: jump = (int64_t) (eps + 1 + hrn(10000000)); break;
  case 4: jump = (int64_t) eps; break;            /* just fresh */
  case 5: jump = (int64_t) hrn(eps); break;
  }
  hk_tp_in = c_tp_in; hk_pre_peer = c_pre_peer;
  int ok = kind >= 4;
  if(tg_leg == 0) {
    /* first contact: against the receiver's own clock, in both directions */
    if(kind < 2) jump -= (int64_t) eps;
    sim_off[0] = jump; tg_hit = 1;
    for(int i = 1; i <= n; i++) sim_off[i] = 0;
  }
  sim_start(n, t, eps);
  if(tg_leg == 0) sim_off[0] = jump;
  /* the peers follow, so that only the first contact is judged */
  sim_run();
  sim_probe();
  jo(); ji("leg", tg_leg); ji("step", tg_step); ji("p", tg_p); ji("kind", kind); ji("jump", jump); ji("fresh", ok); ji("hit", tg_hit);
  sim_emit(0);
  jc();
  sim_end();
}

/* ------------------------------------------------------------------ deviating peers, properly signed */
static int bz_kind, bz_step, bz_field, bz_all;
static char bz_name[100];
static uint8_t bz_spoilt[130][130];      /* by sender and addressee, the messages with a bad field */
static const char *fields[] = {"len", "msgno", "from", "to", "old", "new", "session", "sig", "ltsig"};
static void bad_field(int p, int step, uint8_t *m, size_t len, int f) {
  const uint8_t *sk = S.p[p].st->sig_sk;
  switch(f) {
  case 0: put32(m + O_LEN, (uint32_t) len + (hrn(2) ? 1 + hrn(1000) : -1 - hrn(100))); break;
  case 1: m[O_MSGNO] ^= 1 + hrn(255); break;
  case 2: { uint8_t o = m[O_FROM]; do m[O_FROM] = hrn(2) ? hrn(S.n + 2) : hr64(); while(m[O_FROM] == o); break; }
  case 3: { uint8_t o = m[O_TO]; do m[O_TO] = hrn(2) ? hrn(S.n + 2) : hr64(); while(m[O_TO] == o); break; }
  case 4: put64(m + O_TS, hrn(4) == 0 ? hrn(2) : get64(m + O_TS) - 1 - hrn(100)); break;
  case 5: put64(m + O_TS, hrn(4) == 0 ? UINT64_MAX - hrn(2) : get64(m + O_TS) + S.eps + 1 + hrn(100)); break;
  case 6: m[O_SID + hrn(32)] ^= 1 << hrn(8); break;
  case 7: break;
  }
  (void) step;
  if(f == 7) m[hrn(64)] ^= 1 << hrn(8); else resign(m, len, sk);
}
static int victims[130];
static void b_pre_peer(int p, int step) {
  if(step == 4 && mark[p] && (bz_kind == 1 || bz_kind == 6 || bz_kind == 9)) {
    /* shares that do not fit the commitments */
    for(int v = 0; v < S.n; v++) if(victims[v] && v != p) {
      TOPRF_Share *s = &(*S.p[p].st->shares)[v];
      switch(bz_kind == 9 ? 3 : hrn(4)) {
      case 0: s->value[hrn(31)] ^= 1 << hrn(8); break;
      case 1: hrscalar(s->value); break;
      case 2: memset(s->value, 0, 32); break;
      case 3: if(bz_kind == 9) { s->index ^= 1 + hrn(255); } else { memset(s->value, 0xff, 32); } break;
      }
    }
  }
}
static void b_peer_out(int p, int step, uint8_t **b, size_t *l) {
  if(!mark[p]) return;
  const uint8_t *sk = S.p[p].st->sig_sk;
  uint8_t *d = *b + HDR;
  switch(bz_kind) {
  case 0: {   /* one field of the header of one or all messages of a step */
    if(step != bz_step) return;
    size_t sub; int k = subs_peer_out(step, *l, &sub), s = hrn(k);
    if(step == 0) {
      sub = *l - 64;
      if(bz_field != 8) bad_field(p, step, *b, sub, bz_field);
      crypto_sign_detached(*b + sub, NULL, *b, sub, S.p[p].lt_sk);
      if(bz_field == 8) (*b)[sub + hrn(64)] ^= 1 << hrn(8);
      bz_spoilt[p][0] = 1;
    } else for(int i = 0; i < k; i++) if(bz_all || i == s) { bad_field(p, step, *b + i * sub, sub, bz_field); bz_spoilt[p][k > 1 ? i + 1 : 0] = 1; }
    must[p] = 1;
    return;
  }
  case 1: if(step == 5) must[p] = 1; return;     /* only corrupted shares */
  case 2: {   /* false complaints */
    if(step != 5) return;
    for(int v = 0; v < S.n; v++) if(victims[v]) {
      int dup = 0;
      for(int k = 0; k < d[0]; k++) if(d[1 + k] == v + 1) dup = 1;
      if(!dup) d[1 + d[0]++] = v + 1;
    }
    resign(*b, *l, sk); must[p] = 1;
    return;
  }
  case 3: {   /* complaints without meaning */
    if(step != 5) return;
    if(bz_field == 0) { static const int bad[] = {0, -1, 255, 254}; int x = bad[hrn(4)]; d[0] = 1; d[1] = x == -1 ? S.n + 1 : x; }
    else if(bz_field == 1) { int v = 1 + hrn(S.n); d[0] = 2; d[1] = d[2] = v; }
    else { d[0] = S.n + 1 + hrn(255 - S.n); }
    resign(*b, *l, sk); must[p] = 1;
    return;
  }
  case 4: {   /* wrong transcript */
    if(step != 8) return;
    if(hrn(2)) d[hrn(32)] ^= 1 << hrn(8); else memset(d, 0, 32);
    resign(*b, *l, sk); must[p] = 1;
    return;
  }
  case 5: {   /* refuses to acknowledge */
    if(step != 9) return;
    if(hrn(2)) memcpy(d, "NO", 2); else d[hrn(2)] ^= 1 + hrn(255);
    resign(*b, *l, sk); must[p] = 1;
    return;
  }
  case 6: {   /* corrupted shares and useless defence */
    if(step != 7) return;
    int k = (*l - HDR) / 33, x = hrn(k);
    if(bz_field == 0) d[33 * x + 1 + hrn(32)] ^= 1 << hrn(8);
    else if(bz_field == 1) { int c; do c = 1 + hrn(S.n); while(victims[c - 1]); d[33 * x] = c; }
    else if(bz_field == 2) { d[33 * x] = hrn(2) ? 0 : S.n + 1 + hrn(255 - S.n); }
    else bad_field(p, step, *b, *l, bz_field - 3);
    if(bz_field < 3) resign(*b, *l, sk);
    must[p] = 1;
    return;
  }
  case 7: {   /* commitments that do not fit or are not points */
    if(step != 3) return;
    int k = hrn(S.t);
    switch(hrn(4)) {
    case 0: hrpoint(d + 32 * k); break;
    case 1: memset(d + 32 * k, 0xff, 32); d[32 * k + 31] = 0x7f; break;
    case 2: memset(d + 32 * k, 0, 32); break;
    case 3: hrbuf(d + 32 * k, 32); d[32 * k + 31] &= 0x7f; break;
    }
    resign(*b, *l, sk); must[p] = 1;
    return;
  }
  case 8: {   /* garbage in the encrypted channels: seen by honest peers only */
    if(step != bz_step) return;
    size_t sub; int k = subs_peer_out(step, *l, &sub);
    for(int v = 0; v < k; v++) if(v != p && (victims[v] || bz_all)) {
      uint8_t *m = *b + v * sub;
      if(hrn(2)) m[HDR + hrn(sub - HDR)] ^= 1 << hrn(8); else hrbuf(m + HDR, sub - HDR);
      resign(m, sub, sk);
    }
    return;
  }
  }
}
static void m_byz(uint64_t no) {
  setup();
  int n, t;
  static const int plan[] = {0, 0, 1, 2, 3, 4, 5, 6, 7, 0, 0, 8, 9};
  bz_kind = plan[no % 13];
  pick(7, &n, &t);
  if(bz_kind == 7 || bz_kind == 1 || bz_kind == 2 || bz_kind == 6) { n = 4 + hrn(4); t = 3 + hrn(n - 3); if(t >= n) t = n - 1; }
  int nb = 1 + hrn(t - 1);
  uint64_t r = no / 13;
  static const int steps[] = {0, 1, 2, 3, 4, 5, 8, 9};
  if(bz_kind == 0) { uint64_t q = no % 13 + 13 * r; bz_step = steps[q % 8]; bz_field = (q / 8) % (bz_step == 0 ? 9 : 8); bz_all = hrn(2); }
  if(bz_kind == 3) bz_field = r % 3;
  if(bz_kind == 6) bz_field = r % 11;
  if(bz_kind == 8) { static const int s8[] = {1, 2, 4}; bz_step = s8[r % 3]; bz_all = hrn(2); }
  if(bz_kind == 6 && bz_field == 1 && n - nb < 2) nb = 1;
  uint8_t ord[130]; for(int i = 0; i < n; i++) ord[i] = i;
  shuffle(ord, n);
  for(int i = 0; i < nb; i++) mark[ord[i]] = 1;
  /* victims among the honest ones; keep the number of complaints below t*t */
  memset(victims, 0, sizeof victims);
  int maxv = (t * t - 1) / nb, nv;
  if(maxv > n - nb) maxv = n - nb;
  if(bz_kind == 6 && bz_field == 1 && maxv > n - nb - 1) maxv = n - nb - 1;
  nv = 1 + hrn(maxv);
  for(int i = 0; i < nv; i++) victims[ord[nb + i]] = 1;
  memset(bz_spoilt, 0, sizeof bz_spoilt);
  hk_pre_peer = b_pre_peer; hk_peer_out = b_peer_out;
  snprintf(bz_name, sizeof bz_name, "%d:%s:%d", bz_kind, bz_kind == 0 ? fields[bz_field] : "", bz_kind == 0 || bz_kind == 8 ? bz_step : 0);
  if(bz_kind == 3 || bz_kind == 6) snprintf(bz_name, sizeof bz_name, "%d:%d", bz_kind, bz_field);
  sim_start(n, t, pickeps());
  sim_run();
  sim_probe();
  jo(); ji("kind", bz_kind); ji("field", bz_field); ji("bstep", bz_step); js("dev", bz_name); ji("nv", nv); ji("nb", nb);
  jk("spoilt"); putchar('[');
  for(int d = 0, f = 1; d < n; d++) for(int v = 0; v <= n; v++) if(bz_spoilt[d][v]) { printf("%s[%d,%d]", f ? "" : ",", d + 1, v); f = 0; }
  putchar(']');
  emit_marks();
  /* explanations: bounded, terminated, the same for every buffer size */
  int bad = 0, texts = 0;
  for(size_t i = 0; i < S.tp->cheater_len; i++) {
    TP_DKG_Cheater *c = &(*S.cheaters)[i];
    char full[1024]; memset(full, 1, sizeof full);
    uint8_t idx = tpdkg_cheater_msg(c, full, sizeof full);
    full[1023] = 0;
    size_t fl = strlen(full);
    static const size_t lens[] = {0, 1, 2, 5, 16, 31, 64, 127, 128, 200, 300};
    for(int k = 0; k < 11; k++) {
      char *o = (char*) xbuf(lens[k]); memset(o, 0x7e, lens[k]);
      uint8_t i2 = tpdkg_cheater_msg(c, o, lens[k]);
      if(i2 != idx) bad |= 1;
      if(lens[k]) {
        size_t e = fl < lens[k] - 1 ? fl : lens[k] - 1;
        if(o[e] != 0 || memcmp(o, full, e)) bad |= 2;
      }
      xfree(o); texts++;
    }
    if(fl >= tpdkg_max_err_SIZE) bad |= 4;
  }
  ji("texts", texts); ji("textbad", bad);
  sim_emit(1);
  jc();
  sim_end();
}

/* ------------------------------------------------------------------ chaos: random payload changes, signed by the deviating peers */
static int ch_rate;
static void mutate(uint8_t *m, size_t from, size_t len) {
  if(from >= len) return;
  switch(hrn(7)) {
  case 0: m[from + hrn(len - from)] ^= 1 << hrn(8); break;
  case 1: m[from + hrn(len - from)] = hr64(); break;
  case 2: m[from + hrn(len - from)] = hrn(S.n + 2); break;
  case 3: hrbuf(m + from, len - from); break;
  case 4: memset(m + from, hrn(2) ? 0 : 0xff, len - from); break;
  case 5: { size_t a = from + hrn(len - from), k = 1 + hrn(len - a); memset(m + a, (int) hrn(4), k); break; }
  case 6: { size_t a = from + hrn(len - from), k = 1 + hrn(len - a > 40 ? 40 : len - a); hrbuf(m + a, k); break; }
  }
}
static void x_pre_peer(int p, int step) {
  if(!mark[p] || step != 4) return;
  if(hrn(3) == 0) for(int v = 0; v < S.n; v++) if(hrn(3) == 0) {
    TOPRF_Share *s = &(*S.p[p].st->shares)[v];
    if(hrn(3) == 0) s->index = hr64(); else if(hrn(2)) s->value[hrn(32)] ^= 1 << hrn(8); else hrscalar(s->value);
    note("share %d>%d", p + 1, v + 1);
  }
}
static void x_peer_out(int p, int step, uint8_t **b, size_t *l) {
  if(!mark[p] || hrn(ch_rate)) return;
  const uint8_t *sk = S.p[p].st->sig_sk;
  size_t sub; int k = subs_peer_out(step, *l, &sub);
  if(step == 0) sub = *l - 64;
  int only = hrn(k), all = hrn(3) == 0;
  for(int i = 0; i < k; i++) if(all || i == only) {
    uint8_t *m = *b + i * sub;
    if(hrn(12) == 0) mutate(m, 64, sub); else mutate(m, HDR, sub);
    if(step == 0 && hrn(2)) {  /* keep the signing key, so that the message is accepted */
      memcpy(m + HDR, S.p[p].st->sig_pk, 32);
    }
    if(hrn(20)) resign(m, sub, sk);
  }
  if(step == 0 && hrn(20)) crypto_sign_detached(*b + sub, NULL, *b, sub, S.p[p].lt_sk);
  note("out %d step %d", p + 1, step);
}
static void m_chaos(uint64_t no) {
  setup();
  int n, t;
  pick(6, &n, &t);
  ch_rate = 2 + hrn(14);
  int nb = 1 + hrn(t - 1);
  uint8_t ord[130]; for(int i = 0; i < n; i++) ord[i] = i;
  shuffle(ord, n);
  for(int i = 0; i < nb; i++) mark[ord[i]] = 1;
  hk_pre_peer = x_pre_peer; hk_peer_out = x_peer_out;
  (void) no;
  sim_start(n, t, pickeps());
  sim_run();
  sim_probe();
  jo();
  emit_marks();
  sim_emit(1);
  jc();
  sim_end();
}

/* ------------------------------------------------------------------ everybody may lie: memory safety and release */
static int fz_tpstep, fz_peer, fz_peerstep, fz_free_after;
static void fz_alter_list(uint8_t *b, size_t len, size_t outer, size_t sub, int k, int from_tp_in, int peer_of_list) {
  /* changes some sub messages and signs them with the key of whoever the receiver expects */
  int cnt = 1 + hrn(3);
  while(cnt--) {
    int i = hrn(k);
    uint8_t *m = b + outer + i * sub;
    if(outer + (i + 1) * sub > len || sub < HDR) return;
    if(hrn(10) == 0) mutate(m, 64, sub); else mutate(m, HDR, sub);
    int signer = from_tp_in ? peer_of_list : i;
    if(signer < S.n && S.p[signer].started && hrn(10)) resign(m, sub, S.p[signer].st->sig_sk);
  }
}
static void f_tp_in(int step, uint8_t **b, size_t *l) {
  if(step != fz_tpstep) return;
  if(hrn(25) == 0) {   /* another length */
    size_t nl = hrn(*l + 100);
    uint8_t *x = xbuf(nl); hrbuf(x, nl); memcpy(x, *b, nl < *l ? nl : *l);
    xfree(*b); *b = x; *l = nl;
    return;
  }
  size_t *sz = xalloc(sizeof(size_t) * S.n), off = 0;
  tpdkg_tp_input_sizes(S.tp, sz);
  int hit = hrn(S.n);
  for(int p = 0; p < S.n; p++) {
    if(off + sz[p] > *l) break;
    if((p == hit || hrn(4) == 0) && sz[p]) {
      uint8_t *o = *b + off;
      size_t sub = sz[p]; int k = 1;
      if(step == 2 || step == 3 || step == 5) { k = S.n; sub = sz[p] / S.n; }
      if(step == 1) sub = sz[p] - 64;
      fz_alter_list(o, sz[p], 0, sub, k, 1, p);
      if(step == 1 && hrn(10)) {
        if(hrn(3)) { memcpy(o + HDR, S.p[p].st->sig_pk, 32); resign(o, sub, S.p[p].st->sig_sk); }
        crypto_sign_detached(o + sub, NULL, o, sub, S.p[p].lt_sk);
      }
      if(step == 6 && hrn(2)) {   /* complaints that look right */
        uint8_t *d = o + HDR; d[0] = hrn(3) ? hrn(S.n + 1) : hr64();
        int fav = 1 + hrn(S.n), much = hrn(2);      /* sometimes mostly about one peer, again and again */
        if(much) d[0] = S.n;
        for(int i = 0; i < S.n; i++) d[1 + i] = much && hrn(5) ? fav : hrn(8) ? 1 + hrn(S.n) : hr64();
        resign(o, sub, S.p[p].st->sig_sk);
      }
      note("tp in %d from %d", step, p + 1);
    }
    off += sz[p];
  }
  xfree(sz);
}
static int f_stall(int step, uint8_t **b, size_t *l, size_t want) {
  /* replace missing messages by forged ones */
  static const int msgnos[] = {1, 2, 4, 5, 6, 8, 9, 11, 20, 22};
  if(hrn(4) == 0) return hrn(2);       /* sometimes hand over what there is */
  uint8_t *x = xbuf(want); hrbuf(x, want);
  size_t *sz = xalloc(sizeof(size_t) * S.n), off = 0;
  tpdkg_tp_input_sizes(S.tp, sz);
  for(int p = 0; p < S.n; p++) {
    int k = step == 2 || step == 3 || step == 5 ? S.n : 1;
    size_t sub = sz[p] / k;
    if(sub >= HDR && S.p[p].started) for(int i = 0; i < k; i++) {
      int to = k > 1 ? i + 1 : (step == 7 || step >= 8) ? 0 : 255;
      forge(x + off + i * sub, step == 1 ? sub - 64 : sub, msgnos[step], p + 1, to, S.p[p].st->sig_sk);
    }
    off += sz[p];
  }
  xfree(sz); xfree(*b); *b = x; *l = want;
  note("stall %d", step);
  return 1;
}
static void f_peer_in(int p, int step, uint8_t **b, size_t *l) {
  if(p != fz_peer || step != fz_peerstep) return;
  if(hrn(25) == 0) {
    size_t nl = hrn(*l + 100);
    uint8_t *x = xbuf(nl); hrbuf(x, nl); memcpy(x, *b, nl < *l ? nl : *l);
    xfree(*b); *b = x; *l = nl;
    return;
  }
  size_t outer, sub; int k = subs_peer_in(step, *l, &outer, &sub);
  if(step == 0 || step == 9) {
    mutate(*b, hrn(2) ? 64 : HDR, *l);
    if(step == 0 && hrn(3) == 0) (*b)[O_TO] = hr64();
    if(hrn(10)) resign(*b, *l, S.tp->sig_sk);
    return;
  }
  fz_alter_list(*b, *l, outer, sub, k, 0, 0);
  if(step == 1) for(int i = 0; i < k; i++) if(hrn(2)) {
    /* the TP may invent keys: equal noise keys, weak points, keys of its own */
    uint8_t *m = *b + outer + i * sub, pk[32], sk[64];
    crypto_sign_keypair(pk, sk);
    memcpy(m + HDR, pk, 32);
    switch(hrn(4)) { case 0: memset(m + HDR + 32, 0, 32); break; case 1: memcpy(m + HDR + 32, *b + outer + HDR + 32, 32); break; case 2: memset(m + HDR + 32, 0xff, 32); break; default: break; }
    resign(m, sub, sk);
  }
  int much = hrn(2), clean = much && hrn(2), last = hrn(2);       /* mostly about the receiver, again and again; only the last list full */
  if(step == 6 && hrn(2)) for(int i = 0; i < k; i++) {
    uint8_t *m = *b + outer + i * sub, *d = m + HDR; d[0] = hrn(3) ? hrn(S.n + 1) : hr64();
    if(much) d[0] = last && i < k - 1 ? hrn(S.n) : S.n;
    for(int j = 0; j < S.n; j++) d[1 + j] = much && (clean || hrn(5)) ? p + 1 : clean || hrn(8) ? 1 + hrn(S.n) : hr64();
    resign(m, sub, S.p[i].st->sig_sk);
  }
  if(outer && hrn(10)) resign(*b, *l, S.tp->sig_sk);
  note("peer in %d of %d", step, p + 1);
}
static void f_msg0(int p, uint8_t **b, size_t *l) {
  if(fz_peerstep != -1 || p != fz_peer) return;
  if(hrn(2)) mutate(*b, hrn(2) ? 64 : HDR, *l);
  if(hrn(2)) { (*b)[HDR + 64] = hrn(2) ? hr64() : hrn(6); (*b)[HDR + 65] = hrn(2) ? hr64() : hrn(6); }
  if(hrn(8)) { memcpy(*b + HDR, S.tp->sig_pk, 32); resign(*b, *l, S.tp->sig_sk); }
  note("msg0 of %d", p + 1);
}
static void fuzz_finish(size_t before) {
  sim_probe();
  jo(); js("what", what);
  ji("n", S.n); ji("t", S.t); ji("tpsteps", S.tpsteps); ji("tpret", S.tpret); ji("ncheat", S.tp->cheater_len); ji("tpdone", !tpdkg_tp_not_done(S.tp)); ji("probetp", probe_tp);
  jk("p"); putchar('[');
  for(int i = 0; i < S.n; i++) printf("%s[%d,%d,%d,%d,%d,%d,%d]", i ? "," : "", S.p[i].started, S.p[i].ret, S.p[i].retstep,
     S.p[i].started ? !tpdkg_peer_not_done(S.p[i].st) : 1, probe_peer[i], S.p[i].started ? !sodium_is_zero((uint8_t*) &S.p[i].st->share, sizeof(TOPRF_Share)) : 0, S.p[i].lastout);
  printf("]");
  sim_end();
  long long g = (long long) inuse() - (long long) before;
  ji("growth", g);
  jc();
  fflush(stdout);
#ifdef HAVE_ASAN
  if(g > 0 && __lsan_do_recoverable_leak_check()) _exit(77);
#endif
}
static void warm(void) {
  static int done;
  if(done) return;
  done = 1;
  /* library one-time allocations do not count */
  setup(); sim_start(3, 2, 60); sim_run(); sim_end();
  setup(); log_file = nulllog; sim_start(3, 2, 60); sim_run(); sim_end();
}
static void m_fuzztp(uint64_t no) {
  uint64_t hs[4]; uint8_t key[32]; memcpy(hs, hr_s, 32); memcpy(key, lr_key, 32);
  warm();
  memcpy(hr_s, hs, 32); memcpy(lr_key, key, 32); lr_ctr = 0;
  setup();
  int n, t;
  pick(6, &n, &t);
  fz_tpstep = 1 + no % 9;
  size_t before = inuse();
  if(hrn(8) == 0) S.cheater_max = 1 + hrn(t * t);   /* down to less than documented */
  if(fz_tpstep == 7) { lie_a = hrn(n); lie_b = (lie_a + 1) % n; hk_peer_out = lie; } else lie_a = -1;
  hk_tp_in = f_tp_in; hk_stall = f_stall;
  sim_start(n, t, pickeps());
  sim_run();
  fuzz_finish(before);
}
static void m_fuzzpeer(uint64_t no) {
  uint64_t hs[4]; uint8_t key[32]; memcpy(hs, hr_s, 32); memcpy(key, lr_key, 32);
  warm();
  memcpy(hr_s, hs, 32); memcpy(lr_key, key, 32); lr_ctr = 0;
  setup();
  int n, t;
  pick(6, &n, &t);
  static const int st[] = {-1, 0, 1, 2, 3, 4, 5, 6, 9};
  fz_peerstep = st[no % 9]; fz_peer = hrn(n); fz_tpstep = -1;
  size_t before = inuse();
  lie_a = -1;
  hk_msg0 = f_msg0; hk_peer_in = f_peer_in; hk_stall = f_stall;
  sim_start(n, t, pickeps());
  sim_run();
  fuzz_finish(before);
}
/* stop anywhere, with or without misbehaviour before, then release */
static void m_release(uint64_t no) {
  uint64_t hs[4]; uint8_t key[32]; memcpy(hs, hr_s, 32); memcpy(key, lr_key, 32);
  warm();
  memcpy(hr_s, hs, 32); memcpy(lr_key, key, 32); lr_ctr = 0;
  setup();
  int n, t;
  pick(6, &n, &t);
  fz_tpstep = fz_peerstep = -2; lie_a = -1;
  size_t before = inuse();
  switch(no % 5) {
  case 0: stop_tp = (no / 5) % 11; break;
  case 1: stop_peer = (no / 5) % 11; break;
  case 2: case 3: {
    static const int st[] = {0, 1, 2, 3, 4, 5, 6, 9};
    fz_peerstep = st[(no / 5) % 8]; fz_peer = hrn(n); hk_peer_in = f_peer_in; if(hrn(2)) hk_stall = f_stall;
    break;
  }
  case 4: {
    int nb = 1 + hrn(t - 1);
    for(int i = 0; i < nb; i++) mark[hrn(n)] = 1;
    ch_rate = 1 + hrn(6);
    hk_pre_peer = x_pre_peer; hk_peer_out = x_peer_out;
    if(hrn(2)) hk_stall = f_stall;
    break;
  }
  }
  sim_start(n, t, pickeps());
  sim_run();
  fuzz_finish(before);
}

/* ------------------------------------------------------------------ wrong sizes */
static void m_sizes(uint64_t no) {
  setup();
  int n, t;
  pick(6, &n, &t);
  /* run up to a step of one party, then call it with other sizes */
  int tpside = no % 2, step = (no / 2) % (tpside ? 10 : 11), kind = (no / 22) % 8;
  lie_a = -1;
  if((tpside && step == 7) || (!tpside && step == 7)) { lie_a = hrn(n); lie_b = (lie_a + 1) % n; hk_peer_out = lie; }
  int who = lie_a >= 0 ? lie_a : hrn(n);
  sim_start(n, t, 3600);
  size_t wi = 0, wo = 0, gi = 0, go = 0;
  int r = -1, touched = -1, reached = 0;
  if(tpside) stop_tp = step; else {
    static const int at[] = {0, 1, 2, 3, 4, 5, 6, 7, 7, 8, 9};   /* number of calls before that step (7 and 8 exclude each other) */
    stop_peer = at[step];
  }
  sim_run();
  /* the input of the interrupted step is gone for the TP; sizes decide before contents */
  if(tpside ? S.tp->step == step : S.p[who].st->step == step) {
    reached = 1;
    wi = tpside ? tpdkg_tp_input_size(S.tp) : tpdkg_peer_input_size(S.p[who].st);
    wo = tpside ? tpdkg_tp_output_size(S.tp) : tpdkg_peer_output_size(S.p[who].st);
    gi = wi; go = wo;
    switch(kind) {
    case 0: gi = wi + 1; break;
    case 1: gi = wi ? wi - 1 : 1; break;
    case 2: go = wo + 1; break;
    case 3: go = wo ? wo - 1 : 1; break;
    case 4: gi = wi ? 0 : 7; break;
    case 5: go = wo ? 0 : 9; break;
    case 6: gi = hrn(2 * wi + 200); if(gi == wi) gi++; break;
    case 7: go = hrn(2 * wo + 200); if(go == wo) go++; break;
    }
    uint8_t *in = xbuf(gi), *out = xbuf(go), *ref = xbuf(go);
    hrbuf(in, gi);
    if(!tpside && S.p[who].in) memcpy(in, S.p[who].in, gi < S.p[who].inlen ? gi : S.p[who].inlen);
    memset(out, 0xc3, go); memset(ref, 0xc3, go);
    sim_party = tpside ? 0 : who + 1;
    r = tpside ? tpdkg_tp_next(S.tp, in, gi, out, go) : tpdkg_peer_next(S.p[who].st, in, gi, out, go);
    sim_party = 0;
    touched = memcmp(out, ref, go) != 0;
    xfree(in); xfree(out); xfree(ref);
    if(!tpside) S.p[who].ret = r;
  }
  sim_probe();
  jo(); ji("tpside", tpside); ji("step", step); ji("kind", kind); ji("reached", reached); ji("r", r); ji("touched", touched);
  ji("wi", wi); ji("wo", wo); ji("gi", gi); ji("go", go);
  ji("done", tpside ? !tpdkg_tp_not_done(S.tp) : !tpdkg_peer_not_done(S.p[who].st));
  jc();
  sim_end();
}

/* ------------------------------------------------------------------ secrets in traffic */
typedef struct { uint8_t v[64]; int len; char name[40]; int tpmay; } secret_t;
static secret_t *secs; static int nsecs, capsecs;
static void add_secret(const uint8_t *v, int len, int tpmay, const char *fmt, ...) {
  if(nsecs == capsecs) { capsecs = capsecs ? capsecs * 2 : 256; secs = realloc(secs, sizeof(secret_t) * capsecs); }
  secret_t *s = &secs[nsecs++];
  memcpy(s->v, v, len); s->len = len; s->tpmay = tpmay;
  va_list a; va_start(a, fmt); vsnprintf(s->name, sizeof s->name, fmt, a); va_end(a);
}
static int observing;
static void observe(const uint8_t *p, size_t n) {
  if(!observing) return;
  /* the session id is the one public value drawn at random */
  if(sim_party == 0 && n == 32 && memcmp(p, S.tp->sessionid, 32) == 0) return;
  if(n >= 16) add_secret(p, n > 64 ? 64 : (int) n, sim_party == 0, "random number of party %d", sim_party);
}
static int keyfound(const uint8_t *k, const uint8_t *mem, size_t len) { return memmem(mem, len, k, 32) != NULL; }
static int half(const secret_t *s, const uint8_t *mem, size_t len) {
  /* any 16 bytes in a row at these offsets */
  for(int o = 0; o + 16 <= s->len; o += 8) {
    int z = 1; for(int i = 0; i < 16; i++) if(s->v[o + i]) z = 0;
    if(z) continue;
    if(memmem(mem, len, s->v + o, 16)) return 1;
  }
  return 0;
}
static uint8_t *sesskey(Noise_XK_session_t *s, int recv) {
  if(!s) return NULL;
  if(s->tag == Noise_XK_DS_Initiator && s->val.case_DS_Initiator.state.tag == Noise_XK_IMS_Transport)
    return recv ? s->val.case_DS_Initiator.state.val.case_IMS_Transport.receive_key : s->val.case_DS_Initiator.state.val.case_IMS_Transport.send_key;
  if(s->tag == Noise_XK_DS_Responder && s->val.case_DS_Responder.state.tag == Noise_XK_IMS_Transport)
    return recv ? s->val.case_DS_Responder.state.val.case_IMS_Transport.receive_key : s->val.case_DS_Responder.state.val.case_IMS_Transport.send_key;
  return NULL;
}
static void x18_pre(int p, int step) {
  b_pre_peer(p, step);
  cp_pre_peer(p, step);
  /* shares exist after step 3 */
  if(step == 4) for(int j = 0; j < S.n; j++) if(j != p) add_secret((*S.p[p].st->shares)[j].value, 32, 0, "share %d>%d", p + 1, j + 1);
}
/* the log as bytes: every hexadecimal number of 16 bytes or more, followed by a separator */
static size_t unhex(const char *s, size_t l, uint8_t *out) {
  size_t o = 0;
  for(size_t i = 0; i < l;) {
    size_t e = i;
    while(e < l && isxdigit((unsigned char) s[e])) e++;
    if(e - i >= 32) { for(size_t k = i; k + 1 < e; k += 2) { unsigned v; char x[3] = {s[k], s[k+1], 0}; sscanf(x, "%x", &v); out[o++] = (uint8_t) v; } memcpy(out + o, "--------", 8); o += 8; }
    i = e + 1;
  }
  return o;
}
/* with a hash of the outcome, the log may be on */
static void secrets(uint64_t no, int logging, uint8_t outcome[32], int emit) {
  setup();
  log_file = NULL;
  char *text = NULL; size_t textlen = 0;
  if(logging) log_file = open_memstream(&text, &textlen);
  int n, t;
  pick(6, &n, &t);
  S.keeplog = 1;
  int kind = no % 5;   /* 0 honest, 1 bad shares, 2 false complaints, 3 chaos, 4 many complaints of both kinds */
  memset(victims, 0, sizeof victims);
  memset(cp_pair, 0, sizeof cp_pair);
  int nb = kind ? 1 + hrn(t - 1) : 0;
  if(kind == 1 || kind == 2) nb = 1;
  uint8_t ord[130]; for(int i = 0; i < n; i++) ord[i] = i;
  shuffle(ord, n);
  for(int i = 0; i < nb; i++) mark[ord[i]] = 1;
  int nv = 1 + hrn(n - 1 < t * t - 1 ? n - 1 : t * t - 1);
  if(kind == 1 || kind == 2) for(int i = 0; i < nv && 1 + i < n; i++) victims[ord[1 + i]] = 1;
  bz_kind = kind; ch_rate = 6;
  nsecs = 0;
  lr_observer = observe; observing = 1;
  hk_pre_peer = x18_pre;
  if(kind == 1 || kind == 2) hk_peer_out = b_peer_out;
  if(kind == 3) hk_peer_out = x_peer_out;
  if(kind == 4) {
    for(int i = 0, made = 0; i < 3 * n && made < t * t - 1; i++) {
      int d = hrn(hrn(2) ? 2 : n), v = hrn(n);
      if(d != v && !cp_pair[d][v]) { cp_pair[d][v] = 1 + hrn(2); made++; }
    }
    hk_peer_out = cp_peer_out;
  }
  sim_start(n, t, 3600);
  sim_run();
  sim_probe();
  observing = 0;
  if(logging) fclose(log_file);
  log_file = NULL;
  uint8_t *lb = NULL; size_t ll = 0;
  if(logging) { lb = xbuf(textlen + 16); ll = unhex(text, textlen, lb); }
  /* complaints the accused peers answered */
  int ncomp = 0; int comp[130][130]; memset(comp, 0, sizeof comp);
  if(S.tpsteps > 6) for(int i = 0; i < S.tp->complaints_len; i++) { int c = (*S.complaints)[i] >> 8, a = (*S.complaints)[i] & 0xff; if(c <= n && a <= n) { comp[a - 1][c - 1] = 1; ncomp++; } }
  for(int i = 0; i < n; i++) {
    peer_t *q = &S.p[i];
    if(!q->started) continue;
    add_secret(q->lt_sk, 32, 0, "long-term key of %d", i + 1);
    if(S.tpsteps > 0 && q->nexts > 0) { add_secret(q->st->sig_sk, 32, 0, "signing key of %d", i + 1); add_secret(q->st->noise_sk, 32, 0, "noise key of %d", i + 1); }
    if(q->nexts > 5 && !q->ret) for(int j = 0; j < n; j++) if(j != i) add_secret((*q->st->xshares)[j].value, 32, 0, "received share %d>%d", j + 1, i + 1);
    if(!sodium_is_zero((uint8_t*) &q->st->share, 33)) add_secret(q->st->share.value, 32, 0, "final share of %d", i + 1);
  }
  add_secret(S.tp->sig_sk, 32, 1, "signing key of the TP");
  char bad[200] = "";
  int keys = 0, disclosed = 0, dupkeys = 0;
  uint8_t allkeys[64][32];
  for(int i = 0; i < n; i++) for(int j = 0; j < n; j++) {
    peer_t *q = &S.p[i];
    if(!q->started || q->nexts < 2) continue;
    uint8_t *k = sesskey((*q->outs)[j], 0);
    if(!k) continue;
    for(int x = 0; x < keys; x++) if(!memcmp(allkeys[x], k, 32)) dupkeys++;
    if(keys < 64) memcpy(allkeys[keys++], k, 32);
    int f = keyfound(k, S.log, S.loglen);
    if(f && comp[i][j]) disclosed++;
    if(f && !comp[i][j] && (kind != 3 || !mark[i])) snprintf(bad, sizeof bad, "channel key %d>%d was disclosed without a complaint", i + 1, j + 1);
    uint8_t *rk = sesskey((*q->outs)[j], 1);
    if(rk && keyfound(rk, S.log, S.loglen)) snprintf(bad, sizeof bad, "receiving key of channel %d>%d was disclosed", i + 1, j + 1);
  }
  if(dupkeys) snprintf(bad, sizeof bad, "two channels use the same key");
  for(int i = 0; i < nsecs && !bad[0]; i++) {
    if(half(&secs[i], S.log, S.loglen)) snprintf(bad, sizeof bad, "%s was sent in clear", secs[i].name);
    if(secs[i].tpmay) continue;
    if(half(&secs[i], (uint8_t*) S.tp, sizeof *S.tp) || half(&secs[i], (uint8_t*) S.enc, (size_t) n * n * tpdkg_msg8_SIZE) ||
       half(&secs[i], (uint8_t*) S.commitments, 32 * n * t) || half(&secs[i], (uint8_t*) S.sig_pks, 32 * n))
      snprintf(bad, sizeof bad, "%s is in the TP's state", secs[i].name);
  }
  for(int i = 0; i < nsecs && !bad[0] && logging; i++) {
    int d, v;
    char *at = strpbrk(secs[i].name, "0123456789");
    if(at && sscanf(at, "%d>%d", &d, &v) == 2 && comp[d - 1][v - 1]) continue;  /* disclosed to settle a complaint */
    if(half(&secs[i], lb, ll)) snprintf(bad, sizeof bad, "%s is in the log", secs[i].name);
  }
  if(logging) for(int i = 0; i < n && !bad[0]; i++) for(int j = 0; j < n; j++) {
    uint8_t *k = S.p[i].started && S.p[i].nexts >= 2 ? sesskey((*S.p[i].outs)[j], 0) : NULL, *rk = k ? sesskey((*S.p[i].outs)[j], 1) : NULL;
    if((k && !comp[i][j] && (kind != 3 || !mark[i]) && keyfound(k, lb, ll)) || (rk && keyfound(rk, lb, ll))) snprintf(bad, sizeof bad, "a key of channel %d>%d is in the log", i + 1, j + 1);
  }
  if(outcome) {
    crypto_generichash_state st;
    crypto_generichash_init(&st, NULL, 0, 32);
    crypto_generichash_update(&st, S.log, S.loglen);
    int rs[3] = {S.tpret, S.tpsteps, S.stalled};
    crypto_generichash_update(&st, (uint8_t*) rs, sizeof rs);
    for(size_t i = 0; i < S.tp->cheater_len; i++) { TP_DKG_Cheater *c = &(*S.cheaters)[i]; int x[4] = {c->step, c->error, c->peer, c->other_peer}; crypto_generichash_update(&st, (uint8_t*) x, sizeof x); }
    for(int i = 0; i < n; i++) {
      peer_t *q = &S.p[i]; int x[4] = {q->started, q->ret, q->retstep, q->nexts};
      crypto_generichash_update(&st, (uint8_t*) x, sizeof x);
      if(q->started) crypto_generichash_update(&st, (uint8_t*) &q->st->share, 33);
    }
    crypto_generichash_final(&st, outcome, 32);
  }
  free(text); xfree(lb);
  if(emit) jo();
  if(!emit) { sim_end(); free(secs); secs = NULL; nsecs = capsecs = 0; lr_observer = NULL; return; }
  ji("logged", (long long) ll);
  ji("kind", kind); ji("secrets", nsecs); ji("traffic", S.loglen); ji("keys", keys); ji("disclosed", disclosed); ji("ncomp", ncomp); js("bad", bad);
  ji("wiped", 1);
  emit_marks(); sim_emit(0);
  if(!outcome) jc();
  sim_end();
  free(secs); secs = NULL; nsecs = capsecs = 0;
  lr_observer = NULL;
}
static void m_secrets(uint64_t no) { secrets(no, 0, NULL, 1); }
/* the same run without and with log */
static void m_log(uint64_t no) {
  uint8_t a[32], b[32], key[32]; uint64_t hs[4];
  memcpy(hs, hr_s, sizeof hs); memcpy(key, lr_key, 32); uint64_t ctr = lr_ctr;
  secrets(no, 0, a, 0);
  memcpy(hr_s, hs, sizeof hs); memcpy(lr_key, key, 32); lr_ctr = ctr;
  secrets(no, 1, b, 1);
  ji("same", memcmp(a, b, 32) == 0);
  jc();
}

static const mode_t_ modes[] = {
  {"honest", m_honest}, {"complain", m_complain}, {"bigcomplain", m_bigcomplain}, {"manycomplain", m_manycomplain}, {"wire", m_wire}, {"full", m_full}, {"tamper", m_tamper}, {"tamperall", m_tamperall}, {"relay", m_relay}, {"relayall", m_relayall}, {"replay", m_replay}, {"header", m_header}, {"clock", m_clock},
  {"byz", m_byz}, {"chaos", m_chaos}, {"fuzztp", m_fuzztp}, {"fuzzpeer", m_fuzzpeer}, {"release", m_release},
  {"sizes", m_sizes}, {"secrets", m_secrets}, {"log", m_log}, {NULL, NULL} };
int main(int argc, char **argv) { return h_main(argc, argv, modes); }
