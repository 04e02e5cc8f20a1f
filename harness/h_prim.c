/* Drives the OPRF, threshold OPRF, DKG and multiplication primitives and prints what they return. */
#include "hcommon.h"
#include "oprf.h"
#include "toprf.h"
#include "dkg.h"
#include "mpmult.h"

static uint8_t *dup_(const void *p, size_t n) { uint8_t *r = xbuf(n); if(n) memcpy(r, p, n); return r; }
static uint8_t *rnd(size_t n) { uint8_t *r = xbuf(n); hrbuf(r, n); return r; }

/* ---- C01 ---- */
static size_t pick_len(uint64_t no) {
  static const unsigned edge[] = { 255, 256, 257, 511, 512, 513, 1023, 1024, 4095, 4096, 32767, 32768, 65279, 65280, 65534, 65535,
                                   111, 112, 127, 128, 129, 239, 240, 254 };
  if(no < 300) return no;
  if(no < 300 + sizeof edge / sizeof edge[0]) return edge[no - 300];
  switch(hrn(4)) {
  case 0: return hrn(64);
  case 1: return hrn(600);
  case 2: return hrn(5000);
  default: return hrn(20) == 0 ? hrn(65536) : 200 + hrn(200);
  }
}
static void fill_input(uint8_t *x, size_t n) {
  switch(hrn(4)) {
  case 0: memset(x, 0, n); break;
  case 1: memset(x, 0xff, n); break;
  default: hrbuf(x, n);
  }
}
static void special_scalar(uint8_t k[32]) {
  switch(hrn(8)) {
  case 0: memset(k, 0, 32); k[0] = 1 + hrn(3); break;
  case 1: { /* L-1 */
    static const uint8_t lm1[32] = {0xec,0xd3,0xf5,0x5c,0x1a,0x63,0x12,0x58,0xd6,0x9c,0xf7,0xa2,0xde,0xf9,0xde,0x14,
                                    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0x10};
    memcpy(k, lm1, 32); break; }
  default: hrscalar(k);
  }
}
static void m_oprf(uint64_t no) {
  size_t n = pick_len(no);
  uint8_t *x = xbuf(n), *k = xbuf(32), *r = xbuf(32), *a = xbuf(32), *z = xbuf(32), *u = xbuf(32), *y = xbuf(64);
  fill_input(x, n);
  special_scalar(k);
  memset(r, 0xa5, 32); memset(a, 0xa5, 32); memset(z, 0xa5, 32); memset(u, 0xa5, 32); memset(y, 0xa5, 64);
  int keygen = hrn(3) == 0;
  if(keygen) oprf_KeyGen(k);
  int r1 = oprf_Blind(x, n, r, a);
  int r2 = oprf_Evaluate(k, a, z);
  int r3 = oprf_Unblind(r, z, u);
  int r4 = oprf_Finalize(x, n, u, y);
  jo(); ji("n", n); ji("keygen", keygen); jh("x", x, n); jh("k", k, 32); ji("r1", r1); ji("r2", r2); ji("r3", r3); ji("r4", r4);
  jh("r", r, 32); jh("a", a, 32); jh("z", z, 32); jh("u", u, 32); jh("y", y, 64); jc();
  free(k); free(r); free(a); free(z); free(u); free(y); xfree(x);
}
static void m_h2g(uint64_t no) {
  size_t n = pick_len(no);
  uint8_t *x = xbuf(n), *p = xbuf(32);
  fill_input(x, n);
  int r = voprf_hash_to_group(x, n, p);
  jo(); ji("n", n); jh("x", x, n); ji("r", r); jh("p", p, 32); jc();
  free(p); xfree(x);
}
static void m_xmd(uint64_t no) {
  size_t n = hrn(3) ? hrn(300) : pick_len(1000), dl, ol;
  if(no < 256) { dl = no; ol = 64; }
  else if(no < 512) { dl = 1 + hrn(60); ol = no - 256; }
  else { dl = hrn(256); ol = hrn(256); }
  if(n > 255) n = 255 + hrn(400);
  uint8_t *x = rnd(n), *d = rnd(dl), *o = xbuf(ol);
  int r = expand_message_xmd(x, n, d, dl, ol, o);
  jo(); ji("n", n); ji("dl", dl); ji("ol", ol); jh("x", x, n); jh("d", d, dl); ji("r", r); if(r == 0) jh("o", o, ol); jc();
  xfree(x); xfree(d); xfree(o);
}

/* ---- C02 ---- */
static void add_small(uint8_t v[32], unsigned d) { for(int i = 0; i < 32 && d; i++) { d += v[i]; v[i] = (uint8_t) d; d >>= 8; } }
static void bad_element(uint8_t e[32], const uint8_t good[32], int *kind) {
  static const uint8_t prime[32] = {0xed,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,
                                    0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0x7f};
  *kind = hrn(9);
  switch(*kind) {
  case 0: memset(e, 0, 32); break;                                   /* identity */
  case 1: memcpy(e, good, 32); e[31] |= 0x80; break;                 /* high bit of a good element */
  case 2: {                                                          /* negative: p - s */
    int b = 0;
    for(int i = 0; i < 32; i++) { int v = prime[i] - good[i] - b; b = v < 0; e[i] = (uint8_t) v; }
    break; }
  case 3: memcpy(e, prime, 32); add_small(e, hrn(19)); break;        /* >= p */
  case 4: memset(e, 0xff, 32); break;
  case 5: memcpy(e, good, 32); e[hrn(32)] ^= 1 << hrn(8); break;     /* one bit off */
  case 6: hrbuf(e, 32); e[0] &= 0xfe; e[31] &= 0x7f; break;          /* canonical field element, maybe off curve */
  case 7: hrbuf(e, 32); break;
  default: memset(e, 0, 32); e[0] = 2 * (1 + hrn(20)); break;        /* small field elements */
  }
}
static void m_invalid(uint64_t no) {
  int f = no % 8, kind;
 uint8_t k[33], good[32], out[64];
  hrscalar(k + 1); k[0] = 1 + hrn(255);
  hrpoint(good);
  uint8_t *e = xbuf(32);
  bad_element(e, good, &kind);
  int ret = -99;
  size_t m = 1, pos = 0;
  uint8_t base[32]; memcpy(base, good, 32);
  switch(f) {
  case 0: ret = oprf_Evaluate(k + 1, e, out); break;
  case 1: ret = oprf_Unblind(k + 1, e, out); break;
  case 2: { uint8_t ix[3] = {1, 2, 3}; ret = toprf_Evaluate(k, e, 1 + hrn(3), ix, 3, out); break; }
  case 3: { uint8_t z[33]; hrscalar(z + 1); z[0] = k[0]; ret = toprf_3hashtdh(k, z, e, good, 1 + hrn(32), out); break; }
  case 4: case 5: {
    m = 1 + hrn(8); pos = hrn(m);
    uint8_t (*parts)[33] = xalloc(m * 33), ix[255];
    for(int i = 0; i < 255; i++) ix[i] = i + 1;
    shuffle(ix, 255);
    for(size_t i = 0; i < m; i++) { parts[i][0] = ix[i]; hrpoint(parts[i] + 1); }
    memcpy(parts[pos] + 1, e, 32);
    ret = f == 4 ? toprf_thresholdmult(m, parts, out) : toprf_thresholdcombine(m, parts, out);
    free(parts);
    break; }
  case 6: case 7: {  /* a genuine dealing with one commitment replaced by an alternative encoding */
    uint8_t n = 2 + hrn(6), t = 1 + hrn(n);
    uint8_t (*c)[32] = xalloc(t * 32);
    TOPRF_Share *s = xalloc(n * sizeof(TOPRF_Share));
    if(dkg_start(n, t, c, s)) h_die("dkg_start");
    m = t; pos = hrn(t);
    memcpy(base, c[pos], 32);
    if(f == 6) bad_element(c[pos], base, &kind); else memcpy(c[pos], e, 32);
    memcpy(e, c[pos], 32);
    uint8_t self = 1 + hrn(n), dealer = self % n + 1;
    ret = dkg_verify_commitment(n, t, self, dealer, (const uint8_t (*)[32]) c, s[self - 1]);
    free(c); free(s);
    break; }
  }
  jo(); ji("f", f); ji("kind", kind); jh("e", e, 32); jh("good", base, 32); ji("ret", ret); ji("m", m); ji("pos", pos); jc();
  free(e);
}

/* ---- C04 ---- */
static void pick_nt(uint64_t no, int *n, int *t) {
  /* all pairs up to 10, then random and the largest ones */
  int c = 0;
  for(int a = 1; a <= 10; a++) for(int b = 1; b <= a; b++) if(c++ == (int) no) { *n = a; *t = b; return; }
  switch(no % 37) {
  case 0: *n = 255; *t = 1 + hrn(12); return;
  case 1: *n = 254; *t = 2 + hrn(6); return;
  case 2: *n = 100 + hrn(156); *t = 1 + hrn(40); return;
  case 3: *n = 120 + hrn(10); *t = 1 + hrn(*n); return;
  case 4: *n = 255; *t = no % 3 ? 2 : 250 + hrn(6); return;
  default: *n = 2 + hrn(30); *t = 1 + hrn(*n); return;
  }
}
static void m_sss(uint64_t no) {
  int n, t;
  pick_nt(no, &n, &t);
  uint8_t *secret = xbuf(32), *p = xbuf(32);
  special_scalar(secret);
  hrpoint(p);
  uint8_t (*shares)[33] = xalloc(n * 33);
  memset(shares, 0xa5, n * 33);
  int rc = toprf_create_shares(secret, n, t, shares);
  /* subset: t..n members (sometimes fewer than t), any order */
  uint8_t ix[255];
  for(int i = 0; i < n; i++) ix[i] = i + 1;
  shuffle(ix, n);
  int m;
  switch(hrn(4)) {
  case 0: m = n; break;
  case 1: m = t > 1 ? 1 + hrn(t - 1) : t; break;
  case 2: m = t + hrn(n - t + 1); break;
  default: m = t;
  }
  uint8_t *set = dup_(ix, m);
  uint8_t (*parts)[33] = xalloc(m * 33), (*eparts)[33] = xalloc(m * 33);
  TOPRF_Share *sel = xalloc(m * sizeof(TOPRF_Share));
  uint8_t *res1 = xbuf(32), *res2 = xbuf(32), *res3 = xbuf(32), *cf = xbuf(32);
  int r1 = 0, r2 = 0;
  for(int i = 0; i < m; i++) {
    memcpy(&sel[i], shares[set[i] - 1], 33);
    parts[i][0] = set[i];
    r1 |= oprf_Evaluate(shares[set[i] - 1] + 1, p, parts[i] + 1);
    memset(eparts[i], 0, 33);
    r2 |= toprf_Evaluate(shares[set[i] - 1], p, set[i], set, m, eparts[i]);
    eparts[i][0] = set[i];
  }
  /* the responses may arrive in yet another order */
  for(int i = m; i > 1; i--) {
    int j = hrn(i); uint8_t tmp[33];
    memcpy(tmp, eparts[i-1], 33); memcpy(eparts[i-1], eparts[j], 33); memcpy(eparts[j], tmp, 33);
  }
  r1 |= toprf_thresholdmult(m, parts, res1);
  r2 |= toprf_thresholdcombine(m, eparts, res2);
  dkg_reconstruct(m, sel, res3);
  coeff(set[0], m, set, cf);
  jo(); ji("n", n); ji("t", t); ji("rc", rc); jh("secret", secret, 32); jh("p", p, 32); jhl("shares", (uint8_t*) shares, n, 33);
  jil("set", set, m); ji("r1", r1); ji("r2", r2); jh("res1", res1, 32); jh("res2", res2, 32); jh("res3", res3, 32); jh("coeff", cf, 32); jc();
  free(secret); free(p); free(shares); xfree(set); free(parts); free(eparts); free(sel); free(res1); free(res2); free(res3); free(cf);
}

/* ---- C05 ---- */
static void m_tdh(uint64_t no) {
  int n = 2 + hrn(no % 10 == 9 ? 60 : 8), t = 1 + hrn(n);
  if(t < 2 && hrn(3)) t = 2;
  if(t > n) t = n;
  uint8_t k[32], zero[32] = {0}, alpha[32];
  special_scalar(k);
  hrpoint(alpha);
  uint8_t (*ks)[33] = xalloc(n * 33), (*zs)[33] = xalloc(n * 33);
  int variant = no % 6;     /* 0,1,2 agreement; 3 ssid differs; 4 alpha differs; 5 shares not of zero */
  if(variant == 5) hrscalar(zero);
  int rc = toprf_create_shares(k, n, t, ks) | toprf_create_shares(zero, n, t > 1 ? t : t, zs);
  if(t == 1 && variant != 5) { /* a constant sharing of zero is zero everywhere: responses cannot be evaluated; use t=2 for zero */
    if(n >= 2) rc |= toprf_create_shares(zero, n, 2, zs);
  }
  int need = t == 1 ? 2 : t;
  uint8_t ix[255];
  for(int i = 0; i < n; i++) ix[i] = i + 1;
  shuffle(ix, n);
  int m = need + hrn(n - need + 1);
  size_t sl = no < 80 ? no : (hrn(6) ? hrn(300) : hrn(65536));
  if(no == 80) sl = 65535;
  uint8_t *ssid = rnd(sl), *ssid2 = NULL;
  size_t sl2 = sl;
  uint8_t alpha2[32]; hrpoint(alpha2);
  int odd = hrn(m);
  if(variant == 3) {
    int how = hrn(3);
    if(how == 0 && sl > 0) { ssid2 = dup_(ssid, sl); ssid2[hrn(sl)] ^= 1 << hrn(8); }
    else if(how == 1 && sl > 0) { sl2 = sl - 1; ssid2 = dup_(ssid, sl2); }
    else { sl2 = sl < 65535 ? sl + 1 : 5; ssid2 = rnd(sl2); if(sl2 > sl) memcpy(ssid2, ssid, sl); }
  }
  uint8_t (*parts)[33] = xalloc(m * 33);
  int r = 0;
  for(int i = 0; i < m; i++) {
    const uint8_t *s = ssid; size_t l = sl; const uint8_t *a = alpha;
    if(i == odd && variant == 3) { s = ssid2; l = sl2; }
    if(i == odd && variant == 4) a = alpha2;
    memset(parts[i], 0xa5, 33);
    r |= toprf_3hashtdh(ks[ix[i] - 1], zs[ix[i] - 1], a, s, l, parts[i]);
  }
  uint8_t res[32];
  int r2 = toprf_thresholdmult(m, parts, res);
  int chk = hrn(m); /* this single response is compared with the definition */
  jo(); ji("n", n); ji("t", t); ji("variant", variant); ji("rc", rc); jh("k", k, 32); jh("alpha", alpha, 32); jh("ssid", ssid, sl);
  jil("set", ix, m); ji("r", r); ji("r2", r2); jh("res", res, 32); ji("chk", chk); ji("odd", odd);
  jh("ki", ks[ix[chk] - 1], 33); jh("zi", zs[ix[chk] - 1], 33); jh("part", parts[chk], 33); jil("idx", (uint8_t[]){parts[0][0]}, 1);
  if(ssid2) jh("ssid2", ssid2, sl2);
  jh("alpha2", alpha2, 32); jc();
  free(ks); free(zs); xfree(ssid); if(ssid2) xfree(ssid2); free(parts);
}

/* ---- C06 / C07 ---- */
static void m_dkg(uint64_t no) {
  int n, t;
  pick_nt(no, &n, &t);
  if(n > 40 && t > 12) t = 1 + hrn(12);
  uint8_t (*c)[32] = xalloc((size_t) n * t * 32);
  TOPRF_Share *s = xalloc((size_t) n * n * sizeof(TOPRF_Share)), *fin = xalloc(n * sizeof(TOPRF_Share)), *mine = xalloc(n * sizeof(TOPRF_Share));
  int rs = 0, rv = 0, nf = 0;
  for(int i = 0; i < n; i++) rs |= dkg_start(n, t, c + (size_t) i * t, s + (size_t) i * n);
  int stride = n > 40 ? 1 + n / 7 : 1;
  int wrongidx = 0;
  for(int j = 0; j < n; j++) {
    for(int i = 0; i < n; i++) { mine[i] = s[(size_t) i * n + j]; if(mine[i].index != j + 1) wrongidx++; }
    if(j % stride == 0 || j == n - 1) {
      uint8_t *fails = xbuf(n), *fl = xbuf(1);
      memset(fails, 0, n); *fl = 0xa5;
      rv |= dkg_verify_commitments(n, t, j + 1, (void*) c, mine, fails, fl);
      nf += *fl;
      free(fails); free(fl);
    }
    fin[j].index = j + 1;
    dkg_finish(n, mine, j + 1, &fin[j]);
  }
  uint8_t ix[255];
  for(int i = 0; i < n; i++) ix[i] = i;
  shuffle(ix, n);
  int m = t + hrn(n - t + 1);
  TOPRF_Share *sel = xalloc(m * sizeof(TOPRF_Share));
  for(int i = 0; i < m; i++) sel[i] = fin[ix[i]];
  uint8_t rec[32];
  dkg_reconstruct(m, sel, rec);
  jo(); ji("n", n); ji("t", t); ji("rs", rs); ji("rv", rv); ji("nf", nf); ji("wrongidx", wrongidx);
  jhl("fin", (uint8_t*) fin, n, 33);
  jk("c0"); putchar('['); for(int i = 0; i < n; i++) { if(i) putchar(','); j_hex(c[(size_t) i * t], 32); } putchar(']');
  jhl("cfirst", (uint8_t*) c, t, 32); jhl("sfirst", (uint8_t*) s, n, 33);
  jh("rec", rec, 32); jc();
  free(c); free(s); free(fin); free(mine); free(sel);
}
/* large groups: one or two dealers act for all */
static void m_dkgbig(uint64_t no) {
  int top = h_argc > 0 ? atoi(h_argv[0]) : 100;
  int n = no == 0 ? top : top / 2 + (int) hrn(top / 2 + 1), t = no == 0 ? n : n - (int) hrn(n / 2 + 1);
  if(no == 1) t = n - 1;
  int k = 1 + (int) hrn(2);
  uint8_t (*c)[32] = xalloc((size_t) n * t * 32);
  TOPRF_Share *s = xalloc((size_t) k * n * sizeof(TOPRF_Share)), *mine = xalloc(n * sizeof(TOPRF_Share));
  int rs = 0, rv = 0, nf = 0, wrongidx = 0;
  for(int i = 0; i < k; i++) rs |= dkg_start(n, t, c + (size_t) i * t, s + (size_t) i * n);
  for(int i = k; i < n; i++) memcpy(c + (size_t) i * t, c + (size_t) (i % k) * t, (size_t) t * 32);
  int who[2] = { n, 1 + (int) hrn(n) };
  uint8_t fin[2][33];
  for(int x = 0; x < 2; x++) {
    int j = who[x];
    for(int i = 0; i < n; i++) { mine[i] = s[(size_t) (i % k) * n + j - 1]; if(mine[i].index != j) wrongidx++; }
    uint8_t *fails = xbuf(n), *fl = xbuf(1);
    memset(fails, 0, n); *fl = 0xa5;
    rv |= dkg_verify_commitments(n, t, j, (void*) c, mine, fails, fl);
    nf += *fl;
    free(fails); free(fl);
    fin[x][0] = j;
    dkg_finish(n, mine, j, (TOPRF_Share*) fin[x]);
  }
  uint8_t rec[32];
  dkg_reconstruct(t, s + n - t, rec);
  jo(); ji("n", n); ji("t", t); ji("k", k); ji("rs", rs); ji("rv", rv); ji("nf", nf); ji("wrongidx", wrongidx);
  jhl("c", (uint8_t*) c, t, 32); jhl("s", (uint8_t*) s, (size_t) k * n, 33); jhl("fin", (uint8_t*) fin, 2, 33); jh("rec", rec, 32); jc();
  free(c); free(s); free(mine);
}
static const uint8_t Lbytes[32] = {0xed,0xd3,0xf5,0x5c,0x1a,0x63,0x12,0x58,0xd6,0x9c,0xf7,0xa2,0xde,0xf9,0xde,0x14,
                                   0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0x10};
static void m_dkgbad(uint64_t no) {
  int n = 2 + hrn(no % 8 == 7 ? 24 : 7), t = 1 + hrn(n);
  if(t > 8) t = 8;
  int self = 1 + hrn(n);
  uint8_t (*c)[32] = xalloc((size_t) n * t * 32);
  TOPRF_Share *all = xalloc((size_t) n * n * sizeof(TOPRF_Share)), *mine = xalloc(n * sizeof(TOPRF_Share));
  for(int i = 0; i < n; i++) if(dkg_start(n, t, c + (size_t) i * t, all + (size_t) i * n)) h_die("dkg_start");
  for(int i = 0; i < n; i++) mine[i] = all[(size_t) i * n + self - 1];
  int ncorrupt = no % 5 == 0 ? 0 : 1 + hrn(n);
  uint8_t kinds[255] = {0};
  for(int q = 0; q < ncorrupt; q++) {
    int d = hrn(n);
    if(d + 1 == self) continue;
    int kind = 1 + hrn(11), kx;
    kinds[d] = kind;
    uint8_t *v = mine[d].value;
    uint8_t (*cd)[32] = c + (size_t) d * t;
    switch(kind) {
    case 1: v[hrn(32)] ^= 1 << hrn(8); break;
    case 2: hrscalar(v); break;
    case 3: memcpy(v, all[(size_t) d * n + self % n].value, 32); break;             /* someone else's share */
    case 4: hrpoint(cd[hrn(t)]); break;
    case 5: bad_element(cd[hrn(t)], cd[hrn(t)], &kx); break;
    case 6: memset(cd[hrn(t)], 0, 32); break;
    case 7: v[31] |= 0x80; break;                                                   /* same multiple of the generator */
    case 8: { unsigned cr = 0; for(int i = 0; i < 32; i++) { cr += v[i] + Lbytes[i]; v[i] = (uint8_t) cr; cr >>= 8; } break; } /* + group order */
    case 9: if(t > 1) { int a = hrn(t), b = hrn(t); uint8_t x[32]; memcpy(x, cd[a], 32); memcpy(cd[a], cd[b], 32); memcpy(cd[b], x, 32); } break;
    case 10: memset(v, 0, 32); break;
    case 11: memset(v, 0xff, 32); break;
    }
  }
  if(no % 2) for(int d = 0; d < n; d++) {                                           /* what the label says must not matter */
    unsigned l = (unsigned) hrn(8);
    if(d + 1 != self && l < 3) mine[d].index = l == 0 ? d + 1 : l == 1 ? 0 : (uint8_t) hrn(256);
  }
  uint8_t *fails = xbuf(n), *fl = xbuf(1);
  memset(fails, 0, n); *fl = 0xa5;
  int ret = dkg_verify_commitments(n, t, self, (void*) c, mine, fails, fl);
  int single[255];
  for(int i = 0; i < n; i++) single[i] = dkg_verify_commitment(n, t, self, i + 1, (const uint8_t (*)[32]) (c + (size_t) i * t), mine[i]);
  TOPRF_Share fin; fin.index = self;
  dkg_finish(n, mine, self, &fin);
  jo(); ji("n", n); ji("t", t); ji("self", self); ji("ret", ret); jil("kinds", kinds, n);
  jhl("c", (uint8_t*) c, (size_t) n * t, 32); jhl("s", (uint8_t*) mine, n, 33);
  ji("fl", *fl); jil("fails", fails, *fl <= n ? *fl : n);
  jk("single"); putchar('['); for(int i = 0; i < n; i++) printf("%s%d", i ? "," : "", single[i]); putchar(']');
  jh("fin", (uint8_t*) &fin, 33); jc();
  free(c); free(all); free(mine); free(fails); free(fl);
}

/* ---- C21 ---- */
/* one result share from the messages of many dealers */
static void m_mulbig(uint64_t no) {
  static const int sizes[] = { 131, 65, 64, 128, 100, 129, 127, 150, 199, 230 };
  int top = h_argc > 0 ? atoi(h_argv[0]) : 10;
  int d = sizes[no % top], peer = 1 + hrn(255);
  uint8_t ix[255];
  for(int i = 0; i < 255; i++) ix[i] = i + 1;
  shuffle(ix, 255);
  uint8_t *dealers = dup_(ix, d), (*in)[33] = xalloc(d * 33), *out = xbuf(33);
  for(int i = 0; i < d; i++) { in[i][0] = peer; special_scalar(in[i] + 1); }
  toprf_mpc_mul_finish(d, dealers, peer, in, out);
  jo(); ji("peer", peer); jil("dealers", dealers, d); jhl("in", (uint8_t*) in, d, 33); jh("out", out, 33); jc();
  xfree(dealers); free(in); free(out);
}
static void m_mul(uint64_t no) {
  int t = 1 + hrn(no % 12 == 11 ? 9 : 5), need = 2 * t - 1;
  int n = need + hrn(6);
  if(no % 12 == 5) n = need;
  if(no % 60 == 59) { t = 20; need = 39; n = 60 + hrn(190); }
  uint8_t a[32], b[32];
  special_scalar(a); special_scalar(b);
  if(hrn(20) == 0) memset(a, 0, 32);
  uint8_t (*as)[33] = xalloc(n * 33), (*bs)[33] = xalloc(n * 33);
  int rc = toprf_create_shares(a, n, t, as) | toprf_create_shares(b, n, t, bs);
  uint8_t ix[255];
  for(int i = 0; i < n; i++) ix[i] = i + 1;
  shuffle(ix, n);
  int d = need + hrn(n - need + 1);
  if(d > 45) d = need;
  uint8_t *dealers = dup_(ix, d);
  int t2 = hrn(3) ? t : 1 + hrn(n);      /* threshold of the result */
  if(t2 > 30) t2 = 30;
  uint8_t (*mul)[33] = xalloc((size_t) d * n * 33), (*out)[33] = xalloc(n * 33), (*in)[33] = xalloc(d * 33);
  for(int i = 0; i < d; i++) rc |= toprf_mpc_mul_start(as[dealers[i] - 1], bs[dealers[i] - 1], n, t2, mul + (size_t) i * n);
  int nout = n > 40 ? t2 + 2 : n;
  if(nout > n) nout = n;
  for(int j = 0; j < nout; j++) {
    for(int i = 0; i < d; i++) memcpy(in[i], mul[(size_t) i * n + j], 33);
    memset(out[j], 0xa5, 33);
    toprf_mpc_mul_finish(d, dealers, j + 1, in, out[j]);
  }
  /* calls that must be refused */
  int bad[4];
  uint8_t x[33], y[33], *so = xbuf((size_t) n * 33);
  memcpy(x, as[0], 33); memcpy(y, bs[0], 33);
  y[0] = x[0] + 1 + hrn(200); if(y[0] == x[0]) y[0]++;
  bad[0] = toprf_mpc_mul_start(x, y, n, t, (void*) so);
  y[0] = x[0];
  bad[1] = toprf_mpc_mul_start(x, y, n, 0, (void*) so);
  bad[2] = n < 255 ? toprf_mpc_mul_start(x, y, n, n + 1 + hrn(255 - n), (void*) so) : 1;
  bad[3] = toprf_mpc_mul_start(x, y, 0, 1, (void*) so);
  jo(); ji("n", n); ji("t", t); ji("t2", t2); ji("rc", rc); jh("a", a, 32); jh("b", b, 32); jil("dealers", dealers, d);
  jhl("out", (uint8_t*) out, nout, 33);
  jk("bad"); printf("[%d,%d,%d,%d]", bad[0] != 0, bad[1] != 0, bad[2] != 0, bad[3] != 0); jc();
  free(as); free(bs); xfree(dealers); free(mul); free(out); free(in); free(so);
}
static void m_vdm(uint64_t no) {
  int d = no < 12 ? 1 + no : 1 + hrn(14);
  uint8_t ix[255];
  for(int i = 0; i < 255; i++) ix[i] = i + 1;
  shuffle(ix, 255);
  if(no % 3 == 0) for(int i = 0; i < d; i++) ix[i] = no % 2 ? d - i : i + 1;
  uint8_t *p = dup_(ix, d), *m = xbuf((size_t) d * d * 32);
  invertedVDMmatrix(d, p, (void*) m);
  jo(); jil("ix", p, d); jhl("m", m, (size_t) d * d, 32); jc();
  xfree(p); free(m);
}

/* ---- C32 ---- */
static void m_bounds(uint64_t no) {
  static const uint8_t B[] = {0, 1, 2, 3, 4, 7, 8, 15, 16, 17, 31, 32, 33, 63, 64, 127, 128, 129, 253, 254, 255};
  const int NB = sizeof B;
  uint8_t n = B[no % NB], t = B[(no / NB) % NB];
  int f = (no / NB / NB) % 8;
  uint8_t s[32];
  hrscalar(s);
  int ret = 0, meaningful = 1, ok = 1;
  size_t cnt = 0;
  switch(f) {
  case 0: {
    uint8_t (*sh)[33] = xalloc((size_t) n * 33 + (n == 0));
    meaningful = t >= 1 && t <= n;
    ret = toprf_create_shares(s, n, t, sh);
    if(ret == 0 && n) ok = sh[n-1][0] == n && sh[0][0] == 1;
    free(sh); break; }
  case 1: {
    uint8_t (*c)[32] = xalloc((size_t) t * 32 + (t == 0));
    TOPRF_Share *sh = xalloc((size_t) n * 33 + (n == 0));
    meaningful = t >= 1 && t <= n;
    ret = dkg_start(n, t, c, sh);
    if(ret == 0 && n) ok = sh[n-1].index == n && sh[0].index == 1;
    free(c); free(sh); break; }
  case 2: case 3: { /* number of responses */
    static const size_t M[] = {0, 1, 2, 3, 16, 128, 254, 255, 256, 257, 300, 511, 512, 65535, 65536, 200000};
    cnt = M[(no / 3) % 16];
    uint8_t (*parts)[33] = xalloc(cnt * 33 + (cnt == 0));
    uint8_t p[32], *res = xbuf(32); hrpoint(p);
    for(size_t i = 0; i < cnt; i++) { parts[i][0] = (uint8_t) (i + 1); memcpy(parts[i] + 1, p, 32); }
    meaningful = cnt >= 1 && cnt <= 255;
    ret = f == 2 ? toprf_thresholdmult(cnt, parts, res) : toprf_thresholdcombine(cnt, parts, res);
    free(parts); free(res); break; }
  case 4: { /* verification of all dealers, random content; result itself is not judged */
    if(t == 0 || n == 0 || (size_t) n * t > 2000) { meaningful = -1; break; }
    uint8_t (*c)[32] = xalloc((size_t) n * t * 32);
    TOPRF_Share *sh = xalloc((size_t) n * 33);
    for(size_t i = 0; i < (size_t) n * t; i++) { hrpoint(c[i]); if(hrn(40) == 0) hrbuf(c[i], 32); }
    for(int i = 0; i < n; i++) { sh[i].index = 1; hrscalar(sh[i].value); }
    uint8_t *fails = xbuf(n), *fl = xbuf(1); *fl = 0;
    int self = hrn(n + 1);
    ret = dkg_verify_commitments(n, t, self, (void*) c, sh, fails, fl);
    ok = *fl <= n && (ret != 0 || (*fl == 0 && n <= 1)) && (*fl == (self >= 1 ? n - 1 : n));
    TOPRF_Share x; dkg_finish(n, sh, 1, &x);
    meaningful = -1;
    free(c); free(sh); free(fails); free(fl); break; }
  case 5: { /* evaluation with an index list of any length */
    static const unsigned K[] = {1, 2, 3, 128, 254, 255};
    cnt = K[no % 6];
    uint8_t k[33], z[33], p[32], *ix = xbuf(cnt);
    memcpy(k + 1, s, 32); k[0] = 1; hrpoint(p);
    for(size_t i = 0; i < cnt; i++) ix[i] = (uint8_t) (i + 1);
    ret = toprf_Evaluate(k, p, 1 + hrn(cnt), ix, cnt, z);
    xfree(ix); break; }
  case 6: { /* multiplication */
    uint8_t a[33], b[33];
    hrscalar(a + 1); hrscalar(b + 1); a[0] = b[0] = 1;
    uint8_t (*sh)[33] = xalloc((size_t) n * 33 + (n == 0));
    meaningful = t >= 1 && t <= n;
    ret = toprf_mpc_mul_start(a, b, n, t, sh);
    free(sh); break; }
  case 7: { /* recombination with many dealers */
    cnt = n;
    if(n == 0 || n > 64) { if(!(n == 255 && t == 255)) { meaningful = -1; break; } }
    uint8_t *ix = xbuf(n), (*sh)[33] = xalloc((size_t) n * 33), o[33];
    for(int i = 0; i < n; i++) { ix[i] = i + 1; sh[i][0] = i + 1; hrscalar(sh[i] + 1); }
    toprf_mpc_mul_finish(n, ix, 1 + hrn(255), sh, o);
    xfree(ix); free(sh); break; }
  }
  jo(); ji("f", f); ji("n", n); ji("t", t); ji("cnt", cnt); ji("meaningful", meaningful); ji("ret", ret); ji("ok", ok); jc();
}

static const mode_t_ modes[] = {
  {"oprf", m_oprf}, {"h2g", m_h2g}, {"xmd", m_xmd}, {"invalid", m_invalid}, {"sss", m_sss}, {"tdh", m_tdh},
  {"dkg", m_dkg}, {"dkgbig", m_dkgbig}, {"dkgbad", m_dkgbad}, {"mul", m_mul}, {"mulbig", m_mulbig}, {"vdm", m_vdm}, {"bounds", m_bounds}, {NULL, NULL}
};
int main(int argc, char **argv) { return h_main(argc, argv, modes); }
