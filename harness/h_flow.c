/* Long sequences over shared keys: made in every way, multiplied, renewed, evaluated by changing sets of shareholders. */
#include "tpsim.h"
#include "oprf.h"
#include "toprf.h"
#include "mpmult.h"

#define KEYS 24
#define SH 128
static uint8_t ks[KEYS][SH][33];
static int n, t, nk, rc, first;

static void op(const char *what) { printf("%s{\"op\":\"%s\"", first ? "" : ",", what); first = 0; j_first = 0; }
static void shares_out(int k) { ji("k", k); jhl("shares", (uint8_t*) ks[k], n, 33); }
static int some(uint8_t *ix, int least) {
  for(int i = 0; i < n; i++) ix[i] = i + 1;
  shuffle(ix, n);
  return least + (int) hrn(n - least + 1);
}
static void mk_split(void) {
  uint8_t s[32]; hrscalar(s);
  if(hrn(8) == 0) memset(s, 0, 32);
  rc |= toprf_create_shares(s, n, t, ks[nk]);
  op("split"); jh("secret", s, 32); shares_out(nk++); putchar('}');
}
static void mk_dkg(void) {
  uint8_t (*c)[32] = xbuf((size_t) n * t * 32);
  TOPRF_Share *s = (void*) xbuf((size_t) n * n * 33), *m = (void*) xbuf(n * 33);
  for(int i = 0; i < n; i++) rc |= dkg_start(n, t, c + i * t, s + i * n);
  for(int j = 0; j < n; j++) {
    for(int i = 0; i < n; i++) m[i] = s[i * n + j];
    uint8_t fails[SH], fl = 0;
    rc |= dkg_verify_commitments(n, t, j + 1, (void*) c, m, fails, &fl) | fl;
    TOPRF_Share f; memset(&f, 0xee, sizeof f); f.index = j + 1;
    dkg_finish(n, m, j + 1, &f);
    memcpy(ks[nk][j], &f, 33);
  }
  op("dkg"); jk("comm"); putchar('[');
  for(int i = 0; i < n; i++) { if(i) putchar(','); j_hex(c[i * t], 32); }
  putchar(']');
  shares_out(nk++); putchar('}');
  xfree(c); xfree(s); xfree(m);
}
static void mk_tp(void) {
  S.namelen = 1 + hrn(30); hrbuf(S.name, S.namelen);
  S.prefill = -1; S.cheater_max = 0;
  if(sim_start(n, t, 60)) h_die("start");
  sim_run();
  rc |= S.tpret | S.stalled;
  for(int i = 0; i < n; i++) { rc |= S.p[i].ret; memcpy(ks[nk][i], &S.p[i].st->share, 33); }
  op("tpdkg"); jk("comm"); putchar('[');
  for(int i = 0; i < n; i++) { if(i) putchar(','); j_hex((*S.commitments)[i * t], 32); }
  putchar(']');
  shares_out(nk++); putchar('}');
  sim_end();
}
static void mk_mul(int a, int b) {
  uint8_t ix[SH]; int d = some(ix, 2 * t - 1);
  uint8_t (*mul)[33] = (void*) xbuf((size_t) d * n * 33), (*in)[33] = (void*) xbuf(d * 33);
  for(int i = 0; i < d; i++) rc |= toprf_mpc_mul_start(ks[a][ix[i] - 1], ks[b][ix[i] - 1], n, t, mul + i * n);
  for(int j = 0; j < n; j++) {
    for(int i = 0; i < d; i++) memcpy(in[i], mul[i * n + j], 33);
    toprf_mpc_mul_finish(d, ix, j + 1, in, ks[nk][j]);
  }
  op("mul"); ji("a", a); ji("b", b); jil("dealers", ix, d); shares_out(nk++); putchar('}');
  xfree(mul); xfree(in);
}
static void ev(int k) {
  uint8_t ix[SH], x[100], r[32], al[32], tmp[33], be[32], N[32], y[64];
  int m = some(ix, t), way = (int) hrn(5), l = (int) hrn(100);
  hrbuf(x, l);
  rc |= oprf_Blind(x, l, r, al);
  int cc = 0;
  if(way == 4) {                        /* the key is put together and used on its own */
    TOPRF_Share sh[SH]; uint8_t key[32];
    for(int i = 0; i < m; i++) memcpy(&sh[i], ks[k][ix[i] - 1], 33);
    dkg_reconstruct(m, sh, key);
    cc = oprf_Evaluate(key, al, be);
  } else {
    uint8_t z[SH][33], zero[32] = {0}, ss[40]; int sl = (int) hrn(40);
    hrbuf(ss, sizeof ss);
    if(way == 3) rc |= toprf_create_shares(zero, n, t, z);
    uint8_t (*p)[33] = (void*) xbuf(33 * m);
    for(int i = 0; i < m; i++) {
      uint8_t *s = ks[k][ix[i] - 1];
      if(way == 0) cc |= toprf_Evaluate(s, al, ix[i], ix, m, p[i]);
      else if(way == 3) cc |= toprf_3hashtdh(s, z[ix[i] - 1], al, ss, sl, p[i]);
      else { p[i][0] = s[0]; cc |= oprf_Evaluate(s + 1, al, p[i] + 1); }
    }
    for(int i = m; i > 1; i--) { int j = (int) hrn(i); memcpy(tmp, p[i-1], 33); memcpy(p[i-1], p[j], 33); memcpy(p[j], tmp, 33); }
    cc |= way == 0 ? toprf_thresholdcombine(m, p, be) : toprf_thresholdmult(m, p, be);
    xfree(p);
  }
  if(!cc) cc = oprf_Unblind(r, be, N);
  if(!cc) cc = oprf_Finalize(x, l, N, y);
  op("eval"); ji("k", k); ji("way", way); jil("set", ix, m); ji("cc", cc); jh("x", x, l); if(!cc) jh("y", y, 64); putchar('}');
}
static void m_flow(uint64_t no) {
  hk_msg0 = NULL; hk_tp_in = NULL; hk_tp_out = NULL; hk_peer_in = NULL; hk_pre_peer = NULL; hk_peer_out = NULL; hk_stall = NULL;
  memset(&S, 0, sizeof S); memset(ks, 0xee, sizeof ks);
  sim_now = 1000000000 + hrn(1000000000); sim_party = 0;
  n = 3 + (int) hrn(no % 5 ? 5 : 9); t = 2 + (int) hrn(n - 2);
  if(no % 4 == 0) t = (n + 1) / 2;
  if(t < 2) t = 2;
  int big = no % 40 == 39;              /* many shareholders, only split and evaluated, the rest takes too long */
  if(big) { n = 60 + (int) hrn(SH - 59); t = no % 80 == 39 ? n - (int) hrn(6) : 2 + (int) hrn(n - 2); }
  nk = rc = 0; first = 1;
  jo(); ji("n", n); ji("t", t); jk("ops"); putchar('[');
  int steps = 6 + (int) hrn(8);
  if(big) { mk_split(); for(int i = 0; i < 5; i++) ev(0); }
  else for(int i = 0; i < steps && nk < KEYS - 1; i++) {
    int c = nk == 0 ? (int) hrn(3) : (int) hrn(9);
    if(c == 0) mk_split();
    else if(c == 1) mk_dkg();
    else if(c == 2) mk_tp();
    else if(c <= 4 && 2 * t - 1 <= n) mk_mul((int) hrn(nk), (int) hrn(nk));
    else ev((int) hrn(nk));
  }
  ev(nk - 1);
  putchar(']'); j_first = 0; ji("rc", rc); jc();
}
static const mode_t_ modes[] = { {"flow", m_flow}, {NULL, NULL} };
int main(int argc, char **argv) { return h_main(argc, argv, modes); }
