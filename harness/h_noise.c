/* drives the Noise XK implementation */
#include "hcommon.h"
#include <stdarg.h>
#include "XK.h"
#include "noise_private.h"
#include <malloc.h>
#ifdef HAVE_ASAN
#include <sanitizer/allocator_interface.h>
#endif

typedef Noise_XK_device_t dev_t_;
typedef Noise_XK_session_t ses_t;
typedef Noise_XK_peer_t peer_t;
typedef Noise_XK_encap_message_t em_t;

/* ---- complaints of a case ---- */
static char n_bad[6][300]; static int n_nbad;
static long n_ops, n_refused, n_accepted;
static void bad(const char *fmt, ...) {
  if(n_nbad >= 6) return;
  va_list ap; va_start(ap, fmt);
  vsnprintf(n_bad[n_nbad++], sizeof n_bad[0], fmt, ap);
  va_end(ap);
}
static void reset(void) { n_nbad = 0; n_ops = n_refused = n_accepted = 0; }
static void jbad(void) {
  jk("bad"); printf("[");
  for(int i = 0; i < n_nbad; i++) printf("%s\"%s\"", i ? "," : "", n_bad[i]);
  printf("]");
  ji("ops", n_ops); ji("refused", n_refused); ji("accepted", n_accepted);
}

/* ---- helpers ---- */
static const uint32_t lens[] = {0, 1, 2, 15, 16, 17, 31, 32, 33, 48, 63, 64, 65, 127, 128, 129, 255, 256, 1000, 4096};
static uint32_t hrlen(void) {
  if(hrn(3)) return lens[hrn(sizeof lens / sizeof *lens - (hrn(4) ? 2 : 0))];
  return (uint32_t) hrn(300);
}
/* a name as an exact-size string; may be NULL */
static char *hrname(void) {
  if(hrn(12) == 0) return NULL;
  size_t n = hrn(6) == 0 ? 0 : 1 + hrn(hrn(5) == 0 ? 200 : 12);
  char *s = xalloc(n + 1);
  for(size_t i = 0; i < n; i++) s[i] = (char) ('A' + hrn(hrn(2) ? 26 : 3));
  s[n] = 0;
  return s;
}
static int same_name(const char *a, const uint8_t *b) {
  return !strcmp(a ? a : "", b ? (const char *) b : "");
}
static uint8_t *bdup(const uint8_t *p, size_t n) { uint8_t *q = xbuf(n); if(n) memcpy(q, p, n); return q; }

typedef struct {
  dev_t_ *dev; uint8_t priv[32], pub[32], sk[32];
  uint8_t *prlg; uint32_t plen; char *name;
} party;

static void mkparty(party *p, const uint8_t *prlg, uint32_t plen) {
  hrbuf(p->priv, 32); hrbuf(p->sk, 32);
  crypto_scalarmult_base(p->pub, p->priv);
  p->plen = plen; p->prlg = bdup(prlg, plen);
  p->name = hrname();
  uint8_t *k = bdup(p->priv, 32), *s = bdup(p->sk, 32);
  p->dev = Noise_XK_device_create(plen, p->prlg, (uint8_t *) p->name, s, k);
  if(!p->dev) h_die("device_create");
  xfree(k); xfree(s);
}
static void rmparty(party *p) { Noise_XK_device_free(p->dev); xfree(p->prlg); free(p->name); }
static uint32_t addpeer(party *a, const char *name, const uint8_t pub[32]) {
  uint8_t *k = bdup(pub, 32);
  peer_t *p = Noise_XK_device_add_peer(a->dev, (uint8_t *) name, k);
  xfree(k);
  return p ? Noise_XK_peer_get_id(p) : 0;
}

typedef struct { uint8_t *p; uint32_t n; } msg;
static void mfree(msg *m) { xfree(m->p); m->p = NULL; m->n = 0; }
static msg mdup(const msg *m) { msg r = { bdup(m->p, m->n), m->n }; return r; }
static int meq(const msg *a, const msg *b) { return a->n == b->n && (!a->n || !memcmp(a->p, b->p, a->n)); }
static msg hrmsg(uint32_t n) { msg m = { xbuf(n), n }; hrbuf(m.p, n); return m; }

/* returns the tag; on success *out is an exact-size copy of the message */
static int wr(ses_t *s, int level, const msg *pl, msg *out) {
  uint8_t *c = bdup(pl->p, pl->n);
  em_t *e = level < 0 ? Noise_XK_pack_message(pl->n, c) : Noise_XK_pack_message_with_conf_level((uint8_t) level, pl->n, c);
  xfree(c);
  uint32_t want = 0, len = 0xaaaaaaaa; uint8_t *o = (uint8_t *) 1;
  bool w = Noise_XK_session_compute_next_message_len(&want, s, pl->n);
  if(w) {
    /* lengths up to the largest: a length is announced without wrapping round, or none at all */
    uint32_t over = want - pl->n;
    for(int i = 0; i < 3; i++) {
      uint32_t big = UINT32_MAX - (hrn(3) ? (uint32_t) hrn(100) : hrn(2) ? over : (uint32_t) hrn(1u << 31)), got = 0;
      bool ok = Noise_XK_session_compute_next_message_len(&got, s, big);
      if(ok ? got != (uint64_t) big + over : big < UINT32_MAX - 256) bad("len:length %u was announced (%d) for a payload of %u bytes, which has %u more", got, ok, big, over);
    }
  }
  Noise_XK_rcode r = Noise_XK_session_write(e, s, &len, &o);
  Noise_XK_encap_message_p_free(e);
  n_ops++;
  out->p = NULL; out->n = 0;
  if(Noise_XK_rcode_is_success(r)) {
    if(!w || want != len) bad("len:announced length %u (%d) but wrote %u", want, w, len);
    out->p = bdup(o, len); out->n = len;
    free(o);
  } else if(o || len) bad("out-on-error:session_write failed but left output %d of length %u", o != NULL, len);
  return r.tag;
}
/* reads; on success *out is the payload released for the requested level, *auth the level */
static int rd(ses_t *s, const msg *in, msg *out, int *auth) {
  uint8_t *c = bdup(in->p, in->n);
  em_t *e = (em_t *) 1;
  Noise_XK_rcode r = Noise_XK_session_read(&e, s, in->n, c);
  xfree(c);
  n_ops++;
  out->p = NULL; out->n = 0;
  if(!Noise_XK_rcode_is_success(r)) {
    if(e) bad("out-on-error:session_read failed but left a payload");
    return r.tag;
  }
  Noise_XK_ac_level_t lv; uint32_t n; uint8_t *p;
  Noise_XK_unsafe_unpack_message(&lv, &n, &p, e);
  if(auth) *auth = lv.tag == Noise_XK_Auth_level ? lv.val.case_Auth_level : -1;
  out->p = bdup(p, n); out->n = n;
  free(p);
  Noise_XK_encap_message_p_free(e);
  return r.tag;
}

/* ---- observed random bytes, to learn the ephemeral keys ---- */
static uint8_t *drawn; static size_t ndrawn;
static void observe(const uint8_t *p, size_t n) {
  if(ndrawn + n > 4096) return;
  memcpy(drawn + ndrawn, p, n); ndrawn += n;
}

/* C23: everything an independent implementation needs to recompute the session */
static void m_interop(uint64_t no) {
  reset();
  msg prlg = hrmsg(hrlen());
  party A, B; mkparty(&A, prlg.p, prlg.n); mkparty(&B, prlg.p, prlg.n);
  uint32_t bid = addpeer(&A, "b", B.pub); addpeer(&B, "a", A.pub);
  uint8_t draws[2][4096]; size_t nd[2] = {0, 0};
  ses_t *a, *b;
  int own = hrn(2);
  if(own) {
    uint8_t e[2][32], E[2][32];
    for(int i = 0; i < 2; i++) { hrbuf(e[i], 32); crypto_scalarmult_base(E[i], e[i]); memcpy(draws[i], e[i], 32); nd[i] = 32; }
    uint8_t *x = bdup(e[0], 32), *X = bdup(E[0], 32), *y = bdup(e[1], 32), *Y = bdup(E[1], 32);
    a = Noise_XK__session_create_initiator_with_ephemeral(A.dev, x, X, bid);
    b = Noise_XK__session_create_responder_with_ephemeral(B.dev, y, Y);
    xfree(x); xfree(X); xfree(y); xfree(Y);
  } else {
    lr_observer = observe;
    drawn = draws[0]; ndrawn = 0; a = Noise_XK_session_create_initiator(A.dev, bid); nd[0] = ndrawn;
    drawn = draws[1]; ndrawn = 0; b = Noise_XK_session_create_responder(B.dev); nd[1] = ndrawn;
    lr_observer = NULL;
  }
  jo(); ji("own", own); jh("prologue", prlg.p, prlg.n);
  jh("si", A.priv, 32); jh("sr", B.priv, 32); jh("di", draws[0], nd[0]); jh("dr", draws[1], nd[1]);
  int ok = a && b;
  if(!ok) bad("create:sessions between registered parties were not created");
  int long_run = no % 40 == 7;
  int T = long_run ? 300 : (int) hrn(8);
  jk("msgs"); printf("[");
  int first = 1;
  for(int k = 0; ok && k < 3 + T; k++) {
    int dir = k < 3 ? k & 1 : (long_run ? k / 150 & 1 : (int) hrn(2));
    ses_t *f = dir ? b : a, *t = dir ? a : b;
    msg pl = hrmsg(long_run && k >= 3 ? (uint32_t) hrn(4) : hrlen()), m, got;
    if(wr(f, 0, &pl, &m) != Noise_XK_Success) { bad("write:message %d could not be written", k); ok = 0; mfree(&pl); break; }
    printf("%s[%d,", first ? "" : ",", dir); first = 0;
    j_hex(pl.p, pl.n); printf(","); j_hex(m.p, m.n);
    if(k == 2) {
      uint8_t h[2][64];
      Noise_XK_session_get_hash(h[0], a);
      printf(","); j_hex(h[0], 64);
    }
    printf("]");
    if(rd(t, &m, &got, NULL) != Noise_XK_Success) { bad("read:message %d was refused", k); ok = 0; }
    else { if(!meq(&got, &pl)) bad("payload:message %d arrived differently", k); mfree(&got); }
    mfree(&pl); mfree(&m);
  }
  printf("]");
  if(ok) {
    uint8_t h[2][64];
    Noise_XK_session_get_hash(h[0], a); Noise_XK_session_get_hash(h[1], b);
    jh("h0", h[0], 64); jh("h1", h[1], 64);
  }
  jbad(); jc();
  if(a) Noise_XK_session_free(a);
  if(b) Noise_XK_session_free(b);
  rmparty(&A); rmparty(&B); mfree(&prlg);
}

/* ---- C22 ---- */
#define QMAX 700
typedef struct { msg m[QMAX], pl[QMAX]; int head, n; } queue;

static const char *alter_name[] = {"flip", "truncate", "extend", "cutfront", "random", "empty", "zero", "swap"};
/* an altered copy of m that differs from it */
static msg alter(const msg *m, int kind) {
  msg r;
  switch(kind) {
  case 0: r = mdup(m); if(r.n) r.p[hrn(3) ? hrn(r.n) : (hrn(2) ? r.n - 1 - hrn(r.n < 16 ? r.n : 16) : hrn(r.n < 64 ? r.n : 64))] ^= (uint8_t) (1u << hrn(8)); break;
  case 1: r.n = m->n ? (uint32_t) (hrn(2) ? m->n - 1 : hrn(m->n)) : 0; r.p = bdup(m->p, r.n); break;
  case 2: { uint32_t x = 1 + (uint32_t) hrn(40); r.n = m->n + x; r.p = xbuf(r.n); if(m->n) memcpy(r.p, m->p, m->n); if(hrn(2)) memset(r.p + m->n, 0, x); else hrbuf(r.p + m->n, x); break; }
  case 3: { uint32_t x = m->n ? 1 + (uint32_t) hrn(m->n) : 0; r.n = m->n - x; r.p = bdup(m->p + x, r.n); break; }
  case 4: r = hrmsg(hrn(2) ? m->n : hrlen()); break;
  case 5: r.n = 0; r.p = xbuf(0); break;
  case 6: r = mdup(m); if(r.n) memset(r.p + (hrn(2) ? 0 : hrn(r.n)), 0, 1); break;
  default: r = mdup(m); if(r.n > 1) { uint32_t i = (uint32_t) hrn(r.n), j = (uint32_t) hrn(r.n); uint8_t t = r.p[i]; r.p[i] = r.p[j]; r.p[j] = t; }
  }
  return r;
}

static void must_refuse(ses_t *s, const msg *m, const char *what, int phase) {
  msg got; int before = Noise_XK_session_get_status(s);
  int t = rd(s, m, &got, NULL);
  if(t == Noise_XK_Success) { bad("accepted-%s:phase %d, %u bytes", what, phase, m->n); mfree(&got); }
  else n_refused++;
  if(before != Noise_XK_Transport && Noise_XK_session_get_status(s) == Noise_XK_Transport) bad("transport-after-%s:a refused handshake message led to the transport phase", what);
  if(before == Noise_XK_Transport && Noise_XK_session_get_status(s) != Noise_XK_Transport) bad("left-transport-%s:a refused message took the session out of the transport phase", what);
}

/* runs an undisturbed handshake, keeping the three messages; 1 if it succeeds */
static int shake(ses_t *a, ses_t *b, msg m[3]) {
  int ok = 1;
  for(int k = 0; k < 3; k++) { m[k].p = NULL; m[k].n = 0; }
  for(int k = 0; ok && k < 3; k++) {
    msg pl = hrmsg((uint32_t) hrn(40)), got;
    ses_t *f = k & 1 ? b : a, *t = k & 1 ? a : b;
    if(wr(f, 0, &pl, &m[k]) != Noise_XK_Success) ok = 0;
    else if(rd(t, &m[k], &got, NULL) != Noise_XK_Success) ok = 0;
    else { if(!meq(&pl, &got)) { bad("payload:handshake message %d arrived differently", k); } mfree(&got); }
    mfree(&pl);
  }
  return ok;
}

static void check_identity(party *A, party *B, ses_t *a, ses_t *b, uint32_t bid, uint32_t aid, const char *bname, const char *aname) {
  (void) A; (void) B;
  if(Noise_XK_session_get_peer_id(a) != bid) bad("peerid:the initiator names peer %u, not %u", Noise_XK_session_get_peer_id(a), bid);
  if(Noise_XK_session_get_peer_id(b) != aid) bad("peerid:the responder names peer %u, not %u", Noise_XK_session_get_peer_id(b), aid);
  uint8_t *s = NULL;
  if(!Noise_XK_session_get_peer_info(&s, a) || !same_name(bname, s)) bad("peerinfo:the initiator has a wrong name for its peer");
  free(s); s = NULL;
  if(!Noise_XK_session_get_peer_info(&s, b) || !same_name(aname, s)) bad("peerinfo:the responder has a wrong name for its peer");
  free(s);
  uint8_t h[2][64];
  Noise_XK_session_get_hash(h[0], a); Noise_XK_session_get_hash(h[1], b);
  if(memcmp(h[0], h[1], 64)) bad("hash:the two sides have different session hashes");
}

static void m_channel(uint64_t no) {
  reset();
  msg prlg = hrmsg(hrn(3) ? (uint32_t) hrn(50) : hrlen());
  int wrong = no % 4 == 0 ? 1 + (int) hrn(6) : 0;
  party A, B, E;
  mkparty(&A, prlg.p, prlg.n);
  msg prlg2 = wrong == 2 ? alter(&prlg, (int) hrn(3)) : mdup(&prlg);
  if(wrong == 2 && meq(&prlg, &prlg2)) { mfree(&prlg2); prlg2 = hrmsg(prlg.n + 1); }
  mkparty(&B, prlg2.p, prlg2.n); mkparty(&E, prlg.p, prlg.n);
  char *an = hrname(), *bn = hrname();
  uint32_t bid = 0, aid = 0, eid_b;
  for(int i = (int) hrn(3); i > 0; i--) { uint8_t k[32]; hrbuf(k, 32); addpeer(&A, "x", k); hrbuf(k, 32); addpeer(&B, "y", k); }
  uint8_t rs[32]; memcpy(rs, B.pub, 32);
  if(wrong == 1) { if(hrn(2)) memcpy(rs, E.pub, 32); else { rs[hrn(31)] ^= (uint8_t) (1u << hrn(8)); } }
  bid = addpeer(&A, bn, rs);
  int with_e = (int) hrn(2);
  if(with_e) addpeer(&B, "eve", E.pub);
  if(wrong != 3) aid = addpeer(&B, an, A.pub);
  eid_b = addpeer(&E, "b", B.pub);
  ses_t *a = Noise_XK_session_create_initiator(A.dev, bid), *b = Noise_XK_session_create_responder(B.dev);
  /* a second session between the same parties as a source of foreign messages */
  msg f[3] = {{0}}; ses_t *a2 = NULL, *b2 = NULL; int f_ok = 0;
  if(!wrong) {
    a2 = Noise_XK_session_create_initiator(A.dev, bid); b2 = Noise_XK_session_create_responder(B.dev);
    f_ok = shake(a2, b2, f);
    if(!f_ok) bad("handshake:an undisturbed handshake failed");
  }
  /* a session of the third party, as itself */
  msg ef[3] = {{0}}; ses_t *e1 = Noise_XK_session_create_initiator(E.dev, eid_b), *e2 = Noise_XK_session_create_responder(B.dev);
  int e_ok = wrong == 2 ? 0 : shake(e1, e2, ef);
  if(wrong != 2 && e_ok != with_e) bad("unregistered:third party registered %d, handshake result %d", with_e, e_ok);

  msg h[3] = {{0}}; int ok = 1, tampered = 0, step = 0; char kind[40] = "none";
  uint32_t pre_id = Noise_XK_session_get_peer_id(b);
  if(pre_id) bad("peerid:a fresh responder session names a peer");
  for(step = 0; ok && step < 3; step++) {
    ses_t *fr = step & 1 ? b : a, *to = step & 1 ? a : b;
    msg pl = hrmsg(hrlen()), got;
    if(wrong == 4 && step == 2) Noise_XK_device_remove_peer(B.dev, aid);
    if(wr(fr, 0, &pl, &h[step]) != Noise_XK_Success) { bad("write:handshake message %d could not be written", step); ok = 0; mfree(&pl); break; }
    if((wrong == 1 || wrong == 2) && step == 0) { must_refuse(to, &h[0], wrong == 1 ? "wrong-key" : "wrong-prologue", 0); ok = 0; }
    else if((wrong == 3 || wrong == 4) && step == 2) {
      must_refuse(to, &h[2], wrong == 3 ? "unknown-peer" : "removed-peer", 2); ok = 0;
      if(Noise_XK_session_get_peer_id(to)) bad("peerid:an unregistered initiator got a peer identifier");
    }
    else if(wrong == 5 && step == 1) { must_refuse(to, with_e ? &ef[1] : &h[0], "foreign", 1); ok = 0; }
    else if(!tampered && hrn(5) == 0) {
      tampered = 1;
      int k = (int) hrn(11); msg x;
      if(k < 8) { x = alter(&h[step], k); snprintf(kind, sizeof kind, "%s", alter_name[k]); }
      else if(k == 8 && step > 0 && f_ok) { x = mdup(&f[step]); strcpy(kind, "foreign"); }
      else if(k == 9 && step > 0) { x = mdup(&h[hrn(step)]); strcpy(kind, "replayed"); }
      else if(k == 10 && step == 2 && e_ok) { x = mdup(&ef[2]); strcpy(kind, "other-party"); }
      else { x = hrmsg(h[step].n); strcpy(kind, "random"); }
      if(!meq(&x, &h[step])) {
        must_refuse(to, &x, kind, step);
        /* the genuine message afterwards: either still accepted and intact, or the session is over */
        int t = rd(to, &h[step], &got, NULL);
        if(t == Noise_XK_Success) { if(!meq(&got, &pl)) { bad("payload:handshake message %d arrived differently after a refused one", step); } mfree(&got); }
        else ok = 0;
      } else if(rd(to, &h[step], &got, NULL) != Noise_XK_Success) { bad("refused:genuine handshake message %d", step); ok = 0; }
      else mfree(&got);
      mfree(&x);
    } else if(wrong == 6 && step == 0) {
      /* a replayed first message may be accepted, but then the real initiator must refuse the answer */
      ses_t *b3 = Noise_XK_session_create_responder(B.dev);
      msg r1, p = hrmsg(3);
      if(rd(b3, &ef[0], &got, NULL) == Noise_XK_Success) {
        mfree(&got);
        if(wr(b3, 0, &p, &r1) == Noise_XK_Success) { must_refuse(a, &r1, "answer-to-other", 1); mfree(&r1); }
      } else bad("refused:first message of the third party in a fresh session");
      mfree(&p); Noise_XK_session_free(b3); ok = 0;
    } else {
      if(rd(to, &h[step], &got, NULL) != Noise_XK_Success) { bad("refused:genuine handshake message %d", step); ok = 0; }
      else { n_accepted++; if(!meq(&got, &pl)) { bad("payload:handshake message %d arrived differently", step); } mfree(&got); }
    }
    mfree(&pl);
  }
  int reached = ok;
  if(reached) {
    check_identity(&A, &B, a, b, bid, aid, bn, an);
    uint8_t h0[64]; Noise_XK_session_get_hash(h0, a);
    static queue q[2]; memset(q, 0, sizeof q);
    int long_run = no % 50 == 3;
    int N = long_run ? 900 : 10 + (int) hrn(70);
    msg ft = {0};        /* a foreign transport message */
    if(f_ok) { msg p = hrmsg(5); wr(a2, 5, &p, &ft); mfree(&p); }
    for(int i = 0; i < N; i++) {
      int d = (int) hrn(2); queue *Q = &q[d];
      ses_t *fr = d ? b : a, *to = d ? a : b;
      int op = (int) hrn(10);
      if(op < 4 && Q->n < QMAX) {
        Q->pl[Q->n] = hrmsg(long_run ? (uint32_t) hrn(5) : hrlen());
        if(wr(fr, (int) hrn(6), &Q->pl[Q->n], &Q->m[Q->n]) != Noise_XK_Success) { bad("write:transport message %d", Q->n); break; }
        Q->n++;
      } else if(op < 8) {
        if(Q->head == Q->n) continue;
        msg got;
        if(rd(to, &Q->m[Q->head], &got, NULL) != Noise_XK_Success) { bad("refused:genuine transport message %d after %ld refusals", Q->head, n_refused); break; }
        n_accepted++;
        if(!meq(&got, &Q->pl[Q->head])) bad("payload:transport message %d arrived differently", Q->head);
        mfree(&got); Q->head++;
      } else {
        msg x; const char *w; int k = (int) hrn(14);
        if(k < 8) { if(!Q->n) continue; x = alter(&Q->m[Q->head < Q->n ? Q->head : Q->n - 1], k); w = alter_name[k]; }
        else if(k == 8) { if(!Q->head) continue; x = mdup(&Q->m[hrn(2) ? Q->head - 1 : hrn(Q->head)]); w = "replayed"; }
        else if(k == 9) { if(Q->head + 1 >= Q->n) continue; x = mdup(&Q->m[Q->head + 1 + hrn(Q->n - Q->head - 1)]); w = "reordered"; }
        else if(k == 10) { queue *R = &q[!d]; if(!R->n) continue; x = mdup(&R->m[hrn(2) && Q->head < R->n ? Q->head : hrn(R->n)]); w = "reflected"; }
        else if(k == 11) { if(!ft.p) continue; x = mdup(&ft); w = "foreign"; }
        else if(k == 12) { x = mdup(&h[hrn(3)]); w = "handshake"; }
        else { x = hrmsg(hrlen()); w = "random"; }
        if(Q->head < Q->n && meq(&x, &Q->m[Q->head])) { mfree(&x); continue; }
        must_refuse(to, &x, w, 3);
        mfree(&x);
      }
    }
    for(int d = 0; d < 2 && !n_nbad; d++) {
      queue *Q = &q[d]; ses_t *to = d ? a : b; msg got;
      for(; Q->head < Q->n; Q->head++) {
        if(rd(to, &Q->m[Q->head], &got, NULL) != Noise_XK_Success) { bad("refused:genuine transport message %d at the end", Q->head); break; }
        n_accepted++;
        if(!meq(&got, &Q->pl[Q->head])) bad("payload:transport message %d arrived differently", Q->head);
        mfree(&got);
      }
    }
    uint8_t h1[64]; Noise_XK_session_get_hash(h1, b);
    if(memcmp(h0, h1, 64)) bad("hash:the session hash changed during transport");
    for(int d = 0; d < 2; d++) for(int i = 0; i < q[d].n; i++) { mfree(&q[d].m[i]); mfree(&q[d].pl[i]); }
    mfree(&ft);
  }
  jo(); ji("wrong", wrong); js("tamper", kind); ji("step", step); ji("reached", reached); jbad(); jc();
  for(int k = 0; k < 3; k++) { mfree(&h[k]); mfree(&f[k]); mfree(&ef[k]); }
  ses_t *all[] = {a, b, a2, b2, e1, e2};
  for(int i = 0; i < 6; i++) if(all[i]) Noise_XK_session_free(all[i]);
  rmparty(&A); rmparty(&B); rmparty(&E); mfree(&prlg); mfree(&prlg2); free(an); free(bn);
}

/* ---- C22: counters of long sessions ---- */
static uint64_t *counter(ses_t *s, int recv) {
  if(s->tag == Noise_XK_DS_Initiator && s->val.case_DS_Initiator.state.tag == Noise_XK_IMS_Transport)
    return recv ? &s->val.case_DS_Initiator.state.val.case_IMS_Transport.receive_nonce : &s->val.case_DS_Initiator.state.val.case_IMS_Transport.send_nonce;
  if(s->tag == Noise_XK_DS_Responder && s->val.case_DS_Responder.state.tag == Noise_XK_IMS_Transport)
    return recv ? &s->val.case_DS_Responder.state.val.case_IMS_Transport.receive_nonce : &s->val.case_DS_Responder.state.val.case_IMS_Transport.send_nonce;
  h_die("no transport state");
  return NULL;
}
static const uint8_t *sendkey(ses_t *s) {
  return s->tag == Noise_XK_DS_Initiator ? s->val.case_DS_Initiator.state.val.case_IMS_Transport.send_key : s->val.case_DS_Responder.state.val.case_IMS_Transport.send_key;
}
static void pairup(party *A, party *B, ses_t **a, ses_t **b) {
  mkparty(A, (const uint8_t *) "p", 1); mkparty(B, (const uint8_t *) "p", 1);
  uint32_t bid = addpeer(A, "b", B->pub); addpeer(B, "a", A->pub);
  *a = Noise_XK_session_create_initiator(A->dev, bid); *b = Noise_XK_session_create_responder(B->dev);
  msg h[3];
  if(!shake(*a, *b, h)) bad("handshake:an undisturbed handshake failed");
  for(int k = 0; k < 3; k++) mfree(&h[k]);
}
/* both sides have already exchanged about 2^w messages; w = 64 is the end of the counter */
static void m_nonces(uint64_t no) {
  static const int ws[] = {8, 16, 24, 31, 32, 33, 40, 48, 56, 63, 64};
  reset();
  int w = ws[no % 11], d = (int) (no / 11 % 2), more = 3 + (int) hrn(4);
  party A, B; ses_t *a, *b; pairup(&A, &B, &a, &b);
  msg old[16], early[16] = {{0}}; int nold = 0;
  if(!n_nbad) {
    ses_t *fr = d ? b : a, *to = d ? a : b;
    /* the first messages of the session, to be replayed later */
    for(int i = 0; i < 8; i++) {
      msg pl = hrmsg((uint32_t) hrn(20)), got;
      if(wr(fr, 5, &pl, &early[i]) || rd(to, &early[i], &got, NULL)) { bad("refused:message %d", i); mfree(&pl); break; }
      mfree(&got); mfree(&pl);
    }
    uint64_t n = (w == 64 ? 0 : 1ull << w) - 1 - (uint64_t) more;
    *counter(fr, 0) = n; *counter(to, 1) = n;
    for(int i = 0; i < more + 8 && !n_nbad; i++, n++) {
      msg pl = hrmsg((uint32_t) hrn(20)), m, got;
      int t = wr(fr, 5, &pl, &m);
      if(n == UINT64_MAX) {
        if(t == Noise_XK_Success) bad("counter:a message was written with the last counter value");
        mfree(&m);
        /* nor is one read, from a peer that goes on */
        uint8_t nonce[12] = {0, 0, 0, 0, 255, 255, 255, 255, 255, 255, 255, 255}; unsigned long long wl;
        *counter(to, 1) = n;
        m.p = xbuf(pl.n + 16); m.n = pl.n + 16;
        crypto_aead_chacha20poly1305_ietf_encrypt(m.p, &wl, pl.p, pl.n, NULL, 0, NULL, nonce, sendkey(fr));
        for(int k = 0; k < 2; k++) if(rd(to, &m, &got, NULL) == Noise_XK_Success) { bad("counter:a message with the last counter value was read"); mfree(&got); break; }
        mfree(&m); mfree(&pl); n_refused++;
        break;
      }
      if(t != Noise_XK_Success) { bad("write:message number %llu", (unsigned long long) n); mfree(&pl); break; }
      /* what the specification asks for */
      uint8_t nonce[12] = {0}, want[64]; unsigned long long wl;
      for(int k = 0; k < 8; k++) nonce[4 + k] = (uint8_t) (n >> 8 * k);
      crypto_aead_chacha20poly1305_ietf_encrypt(want, &wl, pl.p, pl.n, NULL, 0, NULL, nonce, sendkey(fr));
      if(wl != m.n || memcmp(want, m.p, wl)) bad("counter:message number %llu is not encrypted with its number", (unsigned long long) n);
      for(int k = 0; k < nold && !n_nbad; k++) if(hrn(2)) must_refuse(to, &old[k], "replayed", 3);
      for(int k = 0; k < 8 && !n_nbad; k++) if(early[k].p) must_refuse(to, &early[k], "replayed", 3);
      if(rd(to, &m, &got, NULL) != Noise_XK_Success) bad("refused:genuine message number %llu", (unsigned long long) n);
      else { n_accepted++; if(!meq(&got, &pl)) { bad("payload:message number %llu arrived differently", (unsigned long long) n); } mfree(&got); }
      mfree(&pl);
      if(nold < 16) old[nold++] = m; else mfree(&m);
    }
  }
  jo(); ji("wrong", w); js("tamper", "counter"); ji("step", d); ji("reached", 1); jbad(); jc();
  for(int k = 0; k < nold; k++) mfree(&old[k]);
  for(int k = 0; k < 8; k++) mfree(&early[k]);
  Noise_XK_session_free(a); Noise_XK_session_free(b); rmparty(&A); rmparty(&B);
}
/* really exchanges that many */
static void m_long(uint64_t no) {
  reset();
  long N = 66000 + (long) hrn(1000);
  party A, B; ses_t *a, *b; pairup(&A, &B, &a, &b);
  msg first = {0};
  for(long i = 0; i < N && !n_nbad; i++) {
    ses_t *fr = no % 2 ? b : a, *to = no % 2 ? a : b;
    msg pl = hrmsg((uint32_t) hrn(9)), m, got;
    if(wr(fr, (int) hrn(6), &pl, &m) != Noise_XK_Success) { bad("write:message %ld", i); mfree(&pl); break; }
    if(hrn(4096) == 0) { msg x = alter(&m, 0); must_refuse(to, &x, "flip", 3); mfree(&x); }
    if(first.p && (hrn(4096) == 0 || i == 256 || i == 65536)) must_refuse(to, &first, "replayed", 3);
    if(rd(to, &m, &got, NULL) != Noise_XK_Success) bad("refused:genuine message %ld", i);
    else { n_accepted++; if(!meq(&got, &pl)) { bad("payload:message %ld arrived differently", i); } mfree(&got); }
    if(!i) first = m; else mfree(&m);
    mfree(&pl);
  }
  jo(); ji("wrong", 0); js("tamper", "long"); ji("step", (long) (no % 2)); ji("reached", 1); jbad(); jc();
  mfree(&first);
  Noise_XK_session_free(a); Noise_XK_session_free(b); rmparty(&A); rmparty(&B);
}

/* ---- C24: the attempts and results are judged by the monitor ---- */
static int contains(const msg *h, const msg *n) {
  if(n->n < 8 || h->n < n->n) return 0;
  for(uint32_t i = 0; i + n->n <= h->n; i++) if(!memcmp(h->p + i, n->p, n->n)) return 1;
  return 0;
}
static void m_levels(uint64_t no) {
  reset();
  msg prlg = hrmsg((uint32_t) hrn(20));
  party A, B; mkparty(&A, prlg.p, prlg.n); mkparty(&B, prlg.p, prlg.n);
  uint32_t bid = addpeer(&A, "b", B.pub); addpeer(&B, "a", A.pub);
  ses_t *a = Noise_XK_session_create_initiator(A.dev, bid), *b = Noise_XK_session_create_responder(B.dev);
  int T = 3 + (int) hrn(8), recv[2] = {0, 0};
  jo(); ji("no", (long long) no);
  jk("w"); printf("[");
  /* [step, dir, requested, payload length, tag, bytes written, payload visible] then reads "r" in the same list:
     [step, dir, -1, payload length, level, [[requested, released, right]..], max security reported by both] */
  int first = 1, ok = 1;
  for(int k = 0; ok && k < 3 + T; k++) {
    int dir = k < 3 ? k & 1 : (int) hrn(2);
    ses_t *f = dir ? b : a, *t = dir ? a : b;
    msg pl, m = {0}; int done = 0;
    for(int tries = 0; !done && tries < 12; tries++) {
      pl = hrmsg(hrn(8) == 0 ? 0 : 8 + (uint32_t) hrn(60));
      int req = tries == 11 ? 0 : (hrn(10) == 0 ? -1 : (hrn(6) == 0 ? (int) hrn(256) : (int) hrn(8)));
      int tag = wr(f, req, &pl, &m);
      printf("%s[%d,%d,%d,%u,%d,%u,%d]", first ? "" : ",", k < 3 ? k : 3, dir, req < 0 ? 5 : req, pl.n, tag, m.n, contains(&m, &pl)); first = 0;
      if(tag == Noise_XK_Success) done = 1; else mfree(&pl);
    }
    if(!done) { bad("stuck:no message could be written at step %d after refused levels", k); break; }
    uint8_t *c = bdup(m.p, m.n); em_t *e = NULL;
    Noise_XK_rcode r = Noise_XK_session_read(&e, t, m.n, c);
    xfree(c); n_ops++;
    if(!Noise_XK_rcode_is_success(r)) { bad("refused:message %d sent after level refusals", k); ok = 0; }
    else {
      if(k >= 3) recv[!dir]++;
      printf(",[%d,%d,-1,%u,[", k < 3 ? k : 3, dir, pl.n);
      for(int i = 0; i < 6; i++) {
        int q = i == 0 ? 0 : i == 1 ? 1 : i == 2 ? 2 : i == 3 ? 3 : (int) hrn(256);
        uint32_t n = 0xaaaaaaaa; uint8_t *p = (uint8_t *) 1;
        bool rel = i == 4 ? Noise_XK_unpack_message(&n, &p, e) : Noise_XK_unpack_message_with_auth_level(&n, &p, (uint8_t) q, e);
        if(i == 4) q = 2;
        int right = rel ? n == pl.n && (n == 0 || !memcmp(p, pl.p, n)) : p == NULL;
        printf("%s[%d,%d,%d]", i ? "," : "", q, rel, right);
        if(rel) free(p);
      }
      printf("],%d,%d,%d,%d]", Noise_XK_session_reached_max_security(a), Noise_XK_session_reached_max_security(b), recv[0], recv[1]);
      Noise_XK_encap_message_p_free(e);
    }
    mfree(&pl); mfree(&m);
  }
  printf("]");
  jbad(); jc();
  Noise_XK_session_free(a); Noise_XK_session_free(b);
  rmparty(&A); rmparty(&B); mfree(&prlg);
}

/* ---- C26: registry against a model ---- */
#define PMAX 64
typedef struct { uint32_t id; char *name; uint8_t pub[32]; } mpeer;
static mpeer M[PMAX]; static int nM;
static int find_id(uint32_t id) { for(int i = 0; i < nM; i++) if(M[i].id == id) return i; return -1; }
static int find_pub(const uint8_t *k) { for(int i = 0; i < nM; i++) if(!memcmp(M[i].pub, k, 32)) return i; return -1; }
static void same_peer(peer_t *p, const mpeer *m, const char *by) {
  uint8_t k[32], *s = NULL;
  Noise_XK_peer_get_static(k, p); Noise_XK_peer_get_info(&s, p);
  if(Noise_XK_peer_get_id(p) != m->id) bad("lookup-%s:identifier %u instead of %u", by, Noise_XK_peer_get_id(p), m->id);
  if(memcmp(k, m->pub, 32)) bad("lookup-%s:other static key for peer %u", by, m->id);
  if(!same_name(m->name, s)) bad("lookup-%s:other name for peer %u", by, m->id);
  free(s);
}
static void m_registry(uint64_t no) {
  reset(); nM = 0;
  party A; mkparty(&A, (const uint8_t *) "p", 1);
  party *O = &A;
  uint8_t pool[24][32]; uint32_t seen[600]; int nseen = 0;
  int np = 3 + (int) hrn(21), N = 30 + (int) hrn(no % 10 == 0 ? 500 : 90);
  party owners[3]; for(int i = 0; i < 3; i++) mkparty(&owners[i], (const uint8_t *) "p", 1);
  for(int i = 0; i < np; i++) { hrbuf(pool[i], 32); if(i && hrn(5) == 0) { memcpy(pool[i], pool[i-1], 32); pool[i][hrn(2) ? 31 : hrn(32)] ^= (uint8_t) (1u << hrn(8)); } }
  for(int i = 0; i < 3 && i < np; i++) memcpy(pool[i], owners[i].pub, 32);
  long counts[8] = {0};
  for(int i = 0; i < N && !n_nbad; i++) {
    int op = (int) hrn(12); n_ops++;
    if(op < 4) {                                   /* add, sometimes through a sealed record */
      uint8_t *k = pool[hrn(np)]; char *nm = hrname(); peer_t *p;
      int at = find_pub(k), full = nM >= PMAX;
      if(full) { free(nm); continue; }
      uint8_t *kk = bdup(k, 32);
      if(hrn(4) == 0) {
        /* sealed under the same symmetric key and name by another device */
        dev_t_ *d = Noise_XK_device_create(1, (uint8_t *) "p", (uint8_t *) "tmp", O->sk, O->priv);
        peer_t *tp = Noise_XK_device_add_peer(d, (uint8_t *) nm, kk);
        uint32_t sl = 0; uint8_t *so = NULL;
        Noise_XK_serialize_peer_secret(&sl, &so, d, tp);
        Noise_XK_device_free(d);
        if(!so) { bad("seal:a peer could not be sealed"); p = NULL; }
        else { uint8_t *x = bdup(so, sl); p = Noise_XK_deserialize_peer_secret(O->dev, (uint8_t *) nm, sl, x); xfree(x); }
        free(so); counts[5]++;
      } else p = Noise_XK_device_add_peer(O->dev, (uint8_t *) nm, kk);
      xfree(kk); counts[0]++;
      if(at >= 0) { if(p) bad("duplicate:a second peer with the same key was added"); free(nm); counts[1]++; }
      else if(!p) { bad("add:a new peer was refused"); free(nm); }
      else {
        mpeer *m = &M[nM]; m->id = Noise_XK_peer_get_id(p); m->name = nm; memcpy(m->pub, k, 32); nM++;
        same_peer(p, m, "add");
        if(m->id == 0) bad("id:a peer got identifier 0");
        for(int j = 0; j < nseen; j++) if(seen[j] == m->id) { bad("id:identifier %u was given out twice", m->id); break; }
        if(nseen < 600) seen[nseen++] = m->id;
      }
    } else if(op < 6) {                            /* remove */
      uint32_t id = nM && hrn(4) ? M[hrn(nM)].id : (hrn(2) && nseen ? seen[hrn(nseen)] : (uint32_t) hrn(40));
      Noise_XK_device_remove_peer(O->dev, id); counts[2]++;
      int at = find_id(id);
      if(at >= 0) { free(M[at].name); memmove(&M[at], &M[at+1], (size_t) (nM - at - 1) * sizeof *M); nM--; }
    } else if(op < 8) {
      uint32_t id = nM && hrn(2) ? M[hrn(nM)].id : (hrn(2) && nseen ? seen[hrn(nseen)] : (uint32_t) hrn(nM + 5));
      peer_t *p = Noise_XK_device_lookup_peer_by_id(O->dev, id); int at = find_id(id);
      counts[3]++;
      if((p != NULL) != (at >= 0)) bad("lookup-id:identifier %u found %d expected %d", id, p != NULL, at >= 0);
      else if(p) same_peer(p, &M[at], "id");
    } else if(op < 10) {
      uint8_t *k = bdup(pool[hrn(np)], 32);
      peer_t *p = Noise_XK_device_lookup_peer_by_static(O->dev, k); int at = find_pub(k);
      counts[4]++;
      if((p != NULL) != (at >= 0)) bad("lookup-key:found %d expected %d", p != NULL, at >= 0);
      else if(p) same_peer(p, &M[at], "key");
      xfree(k);
    } else if(op == 10) {                          /* initiator sessions only with registered identifiers */
      uint32_t id = nM && hrn(2) ? M[hrn(nM)].id : (hrn(2) && nseen ? seen[hrn(nseen)] : (uint32_t) hrn(nM + 5));
      uint32_t cnt = Noise_XK_device_get_sessions_counter(O->dev);
      ses_t *s = Noise_XK_session_create_initiator(O->dev, id); int at = find_id(id);
      counts[6]++;
      if((s != NULL) != (at >= 0)) bad("session:identifier %u session %d registered %d", id, s != NULL, at >= 0);
      else if(s) {
        uint8_t *x = NULL;
        if(Noise_XK_session_get_peer_id(s) != id) bad("session:wrong peer identifier");
        if(!Noise_XK_session_get_peer_info(&x, s) || !same_name(M[at].name, x)) bad("session:wrong peer name");
        free(x); x = NULL;
        Noise_XK_session_get_info(&x, s);
        if(!same_name(O->name, x)) bad("session:wrong own name");
        free(x);
        if(Noise_XK_session_get_id(s) < cnt) bad("session:identifier %u given out before", Noise_XK_session_get_id(s));
        if(Noise_XK_device_get_sessions_counter(O->dev) <= cnt) bad("session:the counter did not advance");
      }
      if(s) Noise_XK_session_free(s);
    } else {                                       /* responder sessions only with registered peers */
      party *X = &owners[hrn(3)];
      int at = find_pub(X->pub);
      uint32_t oid = 0; peer_t *pp = Noise_XK_device_lookup_peer_by_static(X->dev, O->pub);
      oid = pp ? Noise_XK_peer_get_id(pp) : addpeer(X, "o", O->pub);
      ses_t *x = Noise_XK_session_create_initiator(X->dev, oid), *y = Noise_XK_session_create_responder(O->dev);
      msg m[3];
      int ok = x && y ? shake(x, y, m) : -1;
      counts[7]++;
      if(ok < 0) bad("session:could not be created");
      else {
        if(ok != (at >= 0)) bad("handshake:result %d with registered %d", ok, at >= 0);
        if(ok && at >= 0) {
          uint8_t *s = NULL;
          if(Noise_XK_session_get_peer_id(y) != M[at].id) bad("handshake:wrong peer identifier");
          if(!Noise_XK_session_get_peer_info(&s, y) || !same_name(M[at].name, s)) bad("handshake:wrong peer name");
          free(s);
        } else if(Noise_XK_session_get_peer_id(y)) bad("handshake:an unregistered peer has an identifier");
        for(int k = 0; k < 3; k++) mfree(&m[k]);
      }
      if(x) Noise_XK_session_free(x);
      if(y) Noise_XK_session_free(y);
    }
  }
  /* everything once more at the end */
  for(int i = 0; i < nM && !n_nbad; i++) {
    peer_t *p = Noise_XK_device_lookup_peer_by_id(O->dev, M[i].id);
    if(!p) bad("lookup-id:peer %u is gone", M[i].id); else same_peer(p, &M[i], "id");
    p = Noise_XK_device_lookup_peer_by_static(O->dev, M[i].pub);
    if(!p) bad("lookup-key:peer %u is gone", M[i].id); else same_peer(p, &M[i], "key");
  }
  for(int i = 0; i < nseen && !n_nbad; i++) if(find_id(seen[i]) < 0 && Noise_XK_device_lookup_peer_by_id(O->dev, seen[i])) bad("lookup-id:removed peer %u is still there", seen[i]);
  { uint8_t *s = NULL, k[32]; Noise_XK_device_get_info(&s, O->dev); if(!same_name(O->name, s)) { bad("device:wrong name"); } free(s);
    Noise_XK_device_get_static_priv(k, O->dev); if(memcmp(k, O->priv, 32)) bad("device:wrong private key");
    Noise_XK_device_get_static_pub(k, O->dev); if(memcmp(k, O->pub, 32)) bad("device:wrong public key"); }
  jo(); ji("peers", nM); ji("given", nseen);
  jk("counts"); printf("["); for(int i = 0; i < 8; i++) printf("%s%ld", i ? "," : "", counts[i]); printf("]");
  jbad(); jc();
  for(int i = 0; i < nM; i++) free(M[i].name);
  rmparty(&A); for(int i = 0; i < 3; i++) rmparty(&owners[i]);
}

/* ---- C26: nearly used up identifiers ---- */
static int set_counter(dev_t_ *d, uint32_t (*get)(dev_t_ *), uint32_t v) {
  size_t n = malloc_usable_size(d);
  for(size_t o = 0; o + 4 <= n; o += 4) {
    uint32_t *p = (uint32_t *) ((uint8_t *) d + o), old = *p, was = get(d);
    *p = v;
    if(get(d) == v && was != v) return 1;
    *p = old;
  }
  return 0;
}
static void m_saturate(uint64_t no) {
  reset();
  party A; mkparty(&A, (const uint8_t *) "p", 1);
  int left = (int) hrn(4), sess = (int) (no % 2), got = 0;
  uint32_t seen[16], pid = 0;
  int early = 1 + (int) hrn(3);
  uint8_t keys[16][32]; char nm[2] = "A";
  for(int i = 0; i < early; i++) { hrbuf(keys[i], 32); pid = addpeer(&A, nm, keys[i]); seen[i] = pid; }
  if(sess) { seen[0] = 0; early = 0; }
  if(!set_counter(A.dev, sess ? Noise_XK_device_get_sessions_counter : Noise_XK_device_get_peers_counter, UINT32_MAX - (uint32_t) left)) h_die("counter not found");
  ses_t *s[16] = {0};
  for(int i = 0; i < left + 3 && !n_nbad; i++) {
    int full = sess ? Noise_XK_device_sessions_counter_is_saturated(A.dev) : Noise_XK_device_peers_counter_is_saturated(A.dev);
    if(full != (i >= left)) bad("counter:reported as used up %d when %d of %d are taken", full, i, left);
    uint32_t id = 0; int ok;
    if(sess) {
      s[i] = hrn(2) ? Noise_XK_session_create_initiator(A.dev, pid) : Noise_XK_session_create_responder(A.dev);
      ok = s[i] != NULL; if(ok) id = Noise_XK_session_get_id(s[i]);
    } else { hrbuf(keys[early + i], 32); id = addpeer(&A, nm, keys[early + i]); ok = id != 0; }
    if(ok != (i < left)) bad("counter:%s although %d of %d identifiers are taken", ok ? "given out" : "refused", i, left);
    if(ok) { for(int k = 0; k < early + got; k++) if(seen[k] == id) { bad("id:identifier %u was given out twice", id); } seen[early + got++] = id; n_accepted++; }
    else n_refused++;
  }
  if(!sess) for(int i = 0; i < early + left + 3 && !n_nbad; i++) {
    peer_t *p = Noise_XK_device_lookup_peer_by_static(A.dev, keys[i]);
    if((p != NULL) != (i < early + left)) bad("lookup-key:peer %d of %d found %d", i, early + left, p != NULL);
    else if(p && Noise_XK_peer_get_id(p) != seen[i]) bad("lookup-key:wrong identifier");
    if(i < early + left && Noise_XK_device_lookup_peer_by_id(A.dev, seen[i]) != p) bad("lookup-id:peer %u", seen[i]);
  }
  jo(); ji("sess", sess); ji("left", left); jbad(); jc();
  for(int i = 0; i < 16; i++) if(s[i]) Noise_XK_session_free(s[i]);
  rmparty(&A);
}

/* ---- C26: sealed records ---- */
static int try_device(const party *P, const char *name, const uint8_t *sk, const msg *rec, uint8_t out[32]) {
  uint8_t *x = bdup(rec->p, rec->n), *s = bdup(sk, 32);
  dev_t_ *d = Noise_XK_device_create_from_secret(P->plen, P->prlg, (uint8_t *) name, s, x);
  xfree(x); xfree(s); n_ops++;
  if(!d) return 0;
  Noise_XK_device_get_static_priv(out, d);
  uint8_t pub[32], want[32]; Noise_XK_device_get_static_pub(pub, d); crypto_scalarmult_base(want, out);
  if(memcmp(pub, want, 32)) bad("device:public key does not belong to the private key");
  Noise_XK_device_free(d);
  return 1;
}
static int try_peer(const party *P, const char *name, const uint8_t *sk, const msg *rec, uint8_t out[32]) {
  uint8_t *x = bdup(rec->p, rec->n), *s = bdup(sk, 32), *k = bdup(P->priv, 32);
  dev_t_ *d = Noise_XK_device_create(P->plen, P->prlg, (uint8_t *) "d", s, k);
  peer_t *p = Noise_XK_deserialize_peer_secret(d, (uint8_t *) name, rec->n, x);
  n_ops++;
  int ok = p != NULL;
  if(ok) {
    uint8_t *nm = NULL;
    Noise_XK_peer_get_static(out, p); Noise_XK_peer_get_info(&nm, p);
    if(!same_name(name, nm)) bad("seal-peer:opened under another name");
    free(nm);
    if(Noise_XK_device_lookup_peer_by_static(d, out) != p) bad("seal-peer:not registered after opening");
  } else if(Noise_XK_device_lookup_peer_by_id(d, 1)) bad("seal-peer:refused but registered");
  Noise_XK_device_free(d);
  xfree(x); xfree(s); xfree(k);
  return ok;
}
static void m_seal(uint64_t no) {
  reset();
  int peer = (int) (no & 1);
  party P; mkparty(&P, (const uint8_t *) "pr", 2);
  uint8_t key[32]; char *name; msg rec = {0};
  uint32_t n = 0; uint8_t *o = NULL;
  if(peer) {
    hrbuf(key, 32); name = hrname();
    uint32_t id = addpeer(&P, name, key);
    Noise_XK_serialize_peer_secret(&n, &o, P.dev, Noise_XK_device_lookup_peer_by_id(P.dev, id));
  } else { memcpy(key, P.priv, 32); name = P.name ? strdup(P.name) : NULL; Noise_XK_serialize_device_secret(&n, &o, P.dev); }
  if(!o || !n) bad("seal:nothing was sealed");
  else {
    rec.p = bdup(o, n); rec.n = n; free(o);
    if(contains(&rec, &(msg){key, 32})) bad("seal:the key is readable in the sealed record");
    uint8_t got[32];
#define TRY(nm, sk, r) (peer ? try_peer(&P, nm, sk, r, got) : try_device(&P, nm, sk, r, got))
    if(!TRY(name, P.sk, &rec)) bad("open:an unaltered record did not open");
    else { n_accepted++; if(memcmp(got, key, 32)) bad("open:another key came out"); }
    /* every bit of a byte, over the cases every byte of the record */
    for(int i = 0; i < 12; i++) {
      msg x = mdup(&rec); uint32_t at = (uint32_t) ((no / 2 * 3 + (uint64_t) i % 3) % rec.n);
      x.p[i < 8 ? at : hrn(rec.n)] ^= (uint8_t) (1u << (i & 7));
      if(TRY(name, P.sk, &x)) bad("open:a record altered at byte %u opened", at); else n_refused++;
      mfree(&x);
    }
    /* lengths: only the peer call learns the length */
    if(peer) for(int i = 0; i < 4; i++) {
      msg x = alter(&rec, i == 3 ? 5 : 1 + i);
      if(!meq(&x, &rec)) { if(TRY(name, P.sk, &x)) bad("open:a record of %u bytes opened", x.n); else n_refused++; }
      mfree(&x);
    }
    uint8_t sk[32]; memcpy(sk, P.sk, 32); sk[hrn(32)] ^= (uint8_t) (1u << hrn(8));
    if(TRY(name, sk, &rec)) bad("open:a record opened with another key"); else n_refused++;
    for(int i = 0; i < 4; i++) {
      size_t L = name ? strlen(name) : 0;
      char *q = xalloc(L + 2); if(L) memcpy(q, name, L);
      q[L] = 0;
      if(i == 0 || !L) { q[L] = 'x'; q[L+1] = 0; }
      else if(i == 1) q[L-1] = 0;
      else if(i == 2) q[hrn(L)] ^= 1;
      else q[0] = 0;
      if(!same_name(name, (uint8_t *) q)) { if(TRY(q, P.sk, &rec)) bad("open:a record opened under another name"); else n_refused++; }
      free(q);
    }
    /* a second sealing must differ (fresh nonce) */
    uint32_t n2 = 0; uint8_t *o2 = NULL;
    if(peer) Noise_XK_serialize_peer_secret(&n2, &o2, P.dev, Noise_XK_device_lookup_peer_by_static(P.dev, key));
    else Noise_XK_serialize_device_secret(&n2, &o2, P.dev);
    if(!o2) bad("seal:second sealing failed");
    else { if(n2 == rec.n && !memcmp(o2, rec.p, n2)) { bad("seal:two sealings are identical"); } free(o2); }
    /* a device record is no peer record under another name and vice versa is not required to fail under the same name */
  }
  jo(); js("kind", peer ? "peer" : "device"); ji("namelen", name ? (long long) strlen(name) : -1); jbad(); jc();
  mfree(&rec); free(name); rmparty(&P);
}

/* ---- C25: arbitrary operations with arbitrary bytes; memory is judged by the sanitizers ---- */
static void m_fuzz(uint64_t no) {
  reset();
#ifdef HAVE_ASAN
  size_t before = __sanitizer_get_current_allocated_bytes();
#endif
  (void) no;
  party P[3]; char *nm[3];
  for(int i = 0; i < 3; i++) mkparty(&P[i], (const uint8_t *) "x", (uint32_t) hrn(2));
  uint32_t ids[3][3] = {{0}};
  for(int i = 0; i < 3; i++) { nm[i] = hrname(); for(int j = 0; j < 3; j++) if(i != j && hrn(8)) ids[i][j] = addpeer(&P[i], nm[i], P[j].pub); }
  ses_t *s[10] = {0}; int owner[10] = {0};
  msg pool[40]; int np = 0;
  int N = 60 + (int) hrn(140); long st[4] = {0}, succ = 0;
  for(int i = 0; i < N; i++) {
    int k = (int) hrn(10), op = (int) hrn(20);
    if(!s[k]) {
      owner[k] = (int) hrn(3);
      if(hrn(2)) s[k] = Noise_XK_session_create_responder(P[owner[k]].dev);
      else s[k] = Noise_XK_session_create_initiator(P[owner[k]].dev, hrn(6) ? ids[owner[k]][hrn(3)] : (uint32_t) hr64());
      continue;
    }
    n_ops++;
    st[Noise_XK_session_get_status(s[k])]++;
    if(op < 6) {
      msg pl = hrmsg(hrlen()), m;
      if(wr(s[k], hrn(3) ? 0 : (int) hrn(256), &pl, &m) == Noise_XK_Success) {
        succ++;
        /* usually let the right party read it */
        if(hrn(4)) for(int j = 0; j < 10; j++) if(s[j] && j != k && hrn(2)) { msg g; if(rd(s[j], &m, &g, NULL) == Noise_XK_Success) { succ++; mfree(&g); break; } }
        if(np < 40) pool[np++] = m; else { int z = (int) hrn(40); mfree(&pool[z]); pool[z] = m; }
      }
      mfree(&pl);
    } else if(op < 14) {
      msg m = np && hrn(4) ? alter(&pool[hrn(np)], (int) hrn(8)) : hrmsg(hrn(2) ? (uint32_t) hrn(70) : hrlen()), g;
      if(m.n >= 32 && hrn(6) == 0) {                /* low order and odd points as ephemeral key */
        static const uint8_t odd[][1] = {{0}, {1}, {0xec}, {0xed}, {0xee}};
        memset(m.p, hrn(2) ? 0xff : 0, 32); m.p[0] = odd[hrn(5)][0]; m.p[31] = hrn(2) ? 0x7f : (hrn(2) ? 0 : 0xff);
      }
      if(rd(s[k], &m, &g, NULL) == Noise_XK_Success) { succ++; mfree(&g); }
      mfree(&m);
    } else if(op == 14) { Noise_XK_session_free(s[k]); s[k] = NULL; }
    else if(op == 15) {
      uint8_t h[64], *x = NULL; uint32_t l = 0;
      Noise_XK_session_get_hash(h, s[k]);
      if(Noise_XK_session_get_peer_info(&x, s[k])) free(x);
      x = NULL; Noise_XK_session_get_info(&x, s[k]); free(x);
      Noise_XK_session_compute_next_message_len(&l, s[k], (uint32_t) hr64());
      Noise_XK_session_reached_max_security(s[k]);
      /* peers of sessions may be looked up after removal */
      Noise_XK_device_lookup_peer_by_id(P[owner[k]].dev, Noise_XK_session_get_peer_id(s[k]));
    } else if(op == 16) {
      int o = (int) hrn(3), p = (int) hrn(3);
      Noise_XK_device_remove_peer(P[o].dev, hrn(3) ? ids[o][p] : (uint32_t) hr64());
    } else if(op == 17) {
      int o = (int) hrn(3), p = (int) hrn(3);
      uint32_t id = addpeer(&P[o], nm[hrn(3)], P[p].pub); if(id) ids[o][p] = id;
    } else if(op == 18) {
      int o = (int) hrn(3), p = (int) hrn(3);
      peer_t *pe = Noise_XK_device_lookup_peer_by_id(P[o].dev, ids[o][p]);
      uint32_t n = 0; uint8_t *x = NULL;
      if(pe) { Noise_XK_serialize_peer_secret(&n, &x, P[o].dev, pe); if(hrn(2)) Noise_XK_device_remove_peer(P[o].dev, ids[o][p]); }
      msg r = x ? (msg){x, n} : hrmsg(hrn(2) ? 56 : (uint32_t) hrn(120));
      msg z = hrn(2) ? mdup(&r) : alter(&r, (int) hrn(8));
      peer_t *q = Noise_XK_deserialize_peer_secret(P[o].dev, (uint8_t *) nm[hrn(2) ? o : (int) hrn(3)], z.n, z.p);
      if(q && pe) { ids[o][p] = Noise_XK_peer_get_id(q); succ++; }
      mfree(&z); if(x) free(x); else mfree(&r);
    } else {
      int o = (int) hrn(3); uint32_t n = 0; uint8_t *x = NULL;
      Noise_XK_serialize_device_secret(&n, &x, P[o].dev);
      if(x && n >= 56) {
        uint8_t *y = bdup(x, n); if(hrn(2)) y[hrn(n)] ^= (uint8_t) (1u << hrn(8));
        dev_t_ *d = Noise_XK_device_create_from_secret(P[o].plen, P[o].prlg, (uint8_t *) P[o].name, P[o].sk, y);
        if(d) { succ++; Noise_XK_device_add_peer(d, (uint8_t *) "q", P[0].pub); Noise_XK_device_free(d); }
        xfree(y);
      }
      free(x);
    }
  }
  for(int i = 0; i < np; i++) mfree(&pool[i]);
  for(int i = 0; i < 10; i++) if(s[i]) Noise_XK_session_free(s[i]);
  for(int i = 0; i < 3; i++) { rmparty(&P[i]); free(nm[i]); }
  jo(); ji("succ", succ); jk("st"); printf("[%ld,%ld,%ld]", st[0], st[1], st[2]);
  jbad(); jc();
  fflush(stdout);
#ifdef HAVE_ASAN
  if(__sanitizer_get_current_allocated_bytes() > before && __lsan_do_recoverable_leak_check()) _exit(77);
#endif
}

static const mode_t_ modes[] = {
  {"interop", m_interop}, {"channel", m_channel}, {"nonces", m_nonces}, {"long", m_long}, {"saturate", m_saturate}, {"levels", m_levels}, {"registry", m_registry}, {"seal", m_seal}, {"fuzz", m_fuzz}, {0, 0}
};
int main(int argc, char **argv) { return h_main(argc, argv, modes); }
