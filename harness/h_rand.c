/* Which random bytes feed which secret: every run of a case is repeated with one draw of the random source
   changed. Draws are numbered within their scope (a call, or a party of a protocol run), so a change never
   shifts the bytes of another scope. Modes: prim, noise, tpdkg. */
#include "tpsim.h"
#include "oprf.h"
#include "toprf.h"
#include "mpmult.h"
#include "XK.h"

#define MAXSC 140
#define MAXCH 4096
static int scope;                                   /* current scope */
static uint32_t sc_n[MAXSC];                        /* draws of each scope in this run */
static struct { int sc; uint32_t no; size_t len; } ch[MAXCH];
static int chn;
static int f_sc, f_no, f_byte; static uint8_t f_mask; static const uint8_t *f_special;   /* the change of this run */
static int by_party;

static void draw(const uint8_t *p, size_t n) {
  uint8_t *b = (uint8_t*) p, nonce[8] = {0}, key[32];
  int sc = by_party ? sim_party : scope;
  memcpy(key, lr_key, 32);
  uint32_t no = sc_n[sc]++;
  memcpy(nonce, &sc, 2); memcpy(nonce + 4, &no, 4);
  if(n) crypto_stream_chacha20(b, n, nonce, key);
  /* below the group order, so that no scalar is drawn twice */
  if(n == 32) b[31] &= 0x0f;
  if(sc == f_sc && (int) no == f_no) {
    if(f_special) { if(n == 32) memcpy(b, f_special, 32); else memset(b, f_special[0], n); }
    else if(f_byte >= 0) { if((size_t) f_byte < n) b[f_byte] ^= f_mask; }
    else for(size_t i = 0; i < n; i++) b[i] ^= (n == 32 && i == 31) ? 0x05 : 0xa5;
  }
  if(chn < MAXCH) { ch[chn].sc = sc; ch[chn].no = no; ch[chn].len = n; chn++; }
}

static uint64_t hr_keep[4];
static void begin(int sc, int no, int byte, uint8_t mask, const uint8_t *special) {
  memcpy(hr_s, hr_keep, sizeof hr_s);
  memset(sc_n, 0, sizeof sc_n);
  chn = 0; scope = 0;
  f_sc = sc; f_no = no; f_byte = byte; f_mask = mask; f_special = special;
}

/* ---- observables ---- */
static void (*body)(int print);
static uint8_t *ob; static size_t obl, obc;         /* all observables of the run, for quick comparison */
static struct { int sc; const char *kind; size_t off, len, n; } obs[2000];
static int obn;
static void observe(int sc, const char *kind, const void *p, size_t n, size_t len) {
  if(obl + n * len > obc) { obc = (obl + n * len) * 2 + 4096; ob = realloc(ob, obc); if(!ob) h_die("memory"); }
  memcpy(ob + obl, p, n * len);
  if(obn == 2000) h_die("too many observables");
  obs[obn].sc = sc; obs[obn].kind = kind; obs[obn].off = obl; obs[obn].len = len; obs[obn].n = n; obn++;
  obl += n * len;
}
static void emit(const char *what, int sc, int no, int bit) {
  jo(); js("run", what); ji("sc", sc); ji("no", no); ji("bit", bit);
  jk("obs"); putchar('[');
  for(int i = 0; i < obn; i++) {
    printf("%s[%d,\"%s\",[", i ? "," : "", obs[i].sc, obs[i].kind);
    for(size_t j = 0; j < obs[i].n; j++) { if(j) putchar(','); j_hex(ob + obs[i].off + j * obs[i].len, obs[i].len); }
    printf("]]");
  }
  putchar(']');
  jk("draws"); putchar('[');
  for(int i = 0; i < chn; i++) printf("%s[%d,%u,%zu]", i ? "," : "", ch[i].sc, ch[i].no, ch[i].len);
  putchar(']');
  jc();
}
static void once(const char *what, int sc, int no, int byte, uint8_t mask, const uint8_t *sp) {
  begin(sc, no, byte, mask, sp);
  obn = 0; obl = 0;
  body(0);
  int bit = -1;
  if(byte >= 0) { bit = byte * 8; while(!(mask >> (bit & 7) & 1)) bit++; }
  emit(what, sc, no, bit);
}

static void study(int bits, int specials) {
  memcpy(hr_keep, hr_s, sizeof hr_keep);
  lr_observer = draw;
  once("base", -1, -1, -1, 0, NULL);
  int n = chn;
  static struct { int sc; uint32_t no; size_t len; } c0[MAXCH];
  for(int i = 0; i < n; i++) { c0[i].sc = ch[i].sc; c0[i].no = ch[i].no; c0[i].len = ch[i].len; }
  once("again", -1, -1, -1, 0, NULL);
  for(int i = 0; i < n; i++) once("flip", c0[i].sc, c0[i].no, -1, 0, NULL);
  /* every bit of one draw */
  uint64_t pick = h_seedval * 7919 + hr_keep[0];
  if(n && bits) {
    int i = (int) (pick % (uint64_t) n);
    int step = bits == 2 ? 8 : 1;
    for(size_t b = 0; b < c0[i].len * 8 && b < 1024; b += step) {
      size_t bb = bits == 2 ? b + 3 : b;
      if(c0[i].len == 32 && bb >= 252) continue;
      once("bit", c0[i].sc, c0[i].no, (int) (bb / 8), (uint8_t) (1 << (bb % 8)), NULL);
    }
  }
  if(n && specials) {
    static const uint8_t z[32] = {0}, f[32] = {255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255},
      l[32] = {0xed,0xd3,0xf5,0x5c,0x1a,0x63,0x12,0x58,0xd6,0x9c,0xf7,0xa2,0xde,0xf9,0xde,0x14,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0x10},
      l1[32] = {0xee,0xd3,0xf5,0x5c,0x1a,0x63,0x12,0x58,0xd6,0x9c,0xf7,0xa2,0xde,0xf9,0xde,0x14,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0x10};
    const uint8_t *sp[] = { z, f, l, l1 };
    int i = (int) (pick / 3 % (uint64_t) n);
    for(int k = 0; k < 4; k++) once("special", c0[i].sc, c0[i].no, -1, 0, sp[k]);
  }
  lr_observer = NULL;
}

/* ---- mode prim: a few calls in a row ---- */
static int large;                     /* one polynomial of high degree */
static void prim_body(int x) {
  (void) x;
  int calls = large ? 1 : 1 + (int) hrn(5);
  for(int c = 0; c < calls; c++) {
    scope = c;
    int op = large ? 2 + (int) hrn(3) : (int) hrn(6);
    if(op == 5 && calls > 3) op = 1;
    if(op == 0) {
      uint8_t *k = xbuf(32);
      oprf_KeyGen(k);
      observe(c, "keygen", k, 1, 32);
      xfree(k);
    } else if(op == 1 || op == 5) {
      size_t l = hrn(op == 5 ? 3000 : 20);
      uint8_t *x = xbuf(l), *r = xbuf(32), *a = xbuf(32);
      hrbuf(x, l);
      if(hrn(2)) memset(x, 7, l);           /* the same input again and again */
      int ret = oprf_Blind(x, (uint16_t) l, r, a);
      if(ret == 0) observe(c, "blind", r, 1, 32);
      xfree(x); xfree(r); xfree(a);
    } else if(op == 2 || op == 3 || op == 4) {
      int n = 2 + (int) hrn(hrn(4) ? 6 : 24), t = 2 + (int) hrn(n - 1);
      if(large) { n = 40 + (int) hrn(81); t = n - (int) hrn(n / 3); }
      TOPRF_Share *sh = (TOPRF_Share*) xbuf(n * sizeof *sh);
      uint8_t *cm = xbuf(32 * t), s1[32], s2[32];
      hrscalar(s1); hrscalar(s2);
      int ret;
      if(op == 2) ret = toprf_create_shares(s1, n, t, (uint8_t (*)[33]) sh);
      else if(op == 3) ret = dkg_start(n, t, (void*) cm, sh);
      else {
        uint8_t *a = xbuf(33), *b = xbuf(33);
        a[0] = b[0] = 1; memcpy(a + 1, s1, 32); memcpy(b + 1, s2, 32);
        ret = toprf_mpc_mul_start(a, b, n, t, (uint8_t (*)[33]) sh);
        xfree(a); xfree(b);
      }
      if(ret == 0) {
        char *kind = op == 2 ? "shares" : op == 3 ? "dkg" : "mul";
        uint8_t tt = (uint8_t) t;
        observe(c, "t", &tt, 1, 1);
        observe(c, kind, sh, n, 33);
      }
      xfree(sh); xfree(cm);
    }
  }
}
static void m_prim(uint64_t no) { large = 0; by_party = 0; body = prim_body; study(no % 2 ? 1 : 0, 1); }
static void m_large(uint64_t no) { (void) no; large = 1; by_party = 0; body = prim_body; study(0, 0); }

/* ---- mode noise: sessions of two devices ---- */
static void noise_body(int x) {
  (void) x;
  uint8_t ska[32], skb[32], pka[32], pkb[32], srl[32];
  hrbuf(ska, 32); hrbuf(skb, 32); hrbuf(srl, 32);
  crypto_scalarmult_base(pka, ska); crypto_scalarmult_base(pkb, skb);
  Noise_XK_device_t *da = Noise_XK_device_create(0, NULL, (uint8_t*) "A", srl, ska), *db = Noise_XK_device_create(0, NULL, (uint8_t*) "B", srl, skb);
  Noise_XK_peer_t *pb = Noise_XK_device_add_peer(da, (uint8_t*) "B", pkb), *pa = Noise_XK_device_add_peer(db, (uint8_t*) "A", pka);
  if(!da || !db || !pa || !pb) h_die("devices");
  int k = 1 + (int) hrn(4);
  for(int c = 0; c < k; c++) {
    scope = 2 * c;
    Noise_XK_session_t *sa = Noise_XK_session_create_initiator(da, Noise_XK_peer_get_id(pb));
    scope = 2 * c + 1;
    Noise_XK_session_t *sb = Noise_XK_session_create_responder(db);
    if(!sa || !sb) h_die("sessions");
    uint32_t l; uint8_t *m = NULL, *p = NULL;
    scope = 2 * c;
    Noise_XK_encap_message_t *e = Noise_XK_pack_message_with_conf_level(0, 0, NULL), *r;
    if(Noise_XK_session_write(e, sa, &l, &m).tag != 0 || l < 32) h_die("write");
    Noise_XK_encap_message_p_free(e);
    observe(2 * c, "ephemeral", m, 1, 32);
    scope = 2 * c + 1;
    if(Noise_XK_session_read(&r, sb, l, m).tag != 0) h_die("read");
    Noise_XK_encap_message_p_free(r);
    free(m); m = NULL;
    e = Noise_XK_pack_message_with_conf_level(0, 0, NULL);
    if(Noise_XK_session_write(e, sb, &l, &m).tag != 0 || l < 32) h_die("write");
    Noise_XK_encap_message_p_free(e);
    observe(2 * c + 1, "ephemeral", m, 1, 32);
    free(m); (void) p;
    Noise_XK_session_free(sa); Noise_XK_session_free(sb);
  }
  Noise_XK_device_free(da); Noise_XK_device_free(db);
}
static void m_noise(uint64_t no) { by_party = 0; body = noise_body; study(no % 2 ? 1 : 2, 0); }

/* ---- mode tpdkg: the draws of every party of a whole run ---- */
static void peer_out(int p, int step, uint8_t **b, size_t *l) {
  uint8_t *o = *b;
  int n = S.n;
  if(step == 0) {
    observe(p + 1, "sig_sk", S.p[p].st->sig_sk, 1, 32);
    observe(p + 1, "noise_sk", S.p[p].st->noise_sk, 1, 32);
    observe(p + 1, "sent", o + HDR, 2, 32);
  } else if((step == 1 || step == 2) && *l == n * (HDR + 48)) {
    for(int i = 0; i < n; i++) observe(p + 1, "ephemeral", o + i * (HDR + 48) + HDR, 1, 32);
  } else if(step == 3) observe(p + 1, "commitments", o + HDR, S.t, 32);
}
static void tp_body(int x) {
  (void) x;
  memset(sim_off, 0, sizeof sim_off);
  S.prefill = 0; S.keeplog = 0; S.namelen = 5; memcpy(S.name, "proto", 5);
  int n = 2 + (int) hrn(3);
  if(n == 2) n = 3;
  int t = 2 + (int) hrn(n - 2);
  sim_now = 1700000000;
  hk_peer_out = peer_out;
  if(sim_start(n, t, 10)) h_die("start");
  observe(0, "sessionid", S.tp->sessionid, 1, 32);
  observe(0, "tp_sig_sk", S.tp->sig_sk, 1, 32);
  sim_run();
  uint8_t ok = S.tpret == 0 && !S.stalled;
  for(int i = 0; i < n; i++) ok &= S.p[i].ret == 0;
  observe(0, "ok", &ok, 1, 1);
  sim_end();
  hk_peer_out = NULL;
}
static void m_tpdkg(uint64_t no) { by_party = 1; body = tp_body; study(no % 3 == 0 ? 2 : 0, 0); }

static const mode_t_ modes[] = { {"prim", m_prim}, {"large", m_large}, {"noise", m_noise}, {"tpdkg", m_tpdkg}, {NULL, NULL} };
int main(int argc, char **argv) { return h_main(argc, argv, modes); }
