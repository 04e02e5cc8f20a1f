/* One unit of work of every kind, driven by the case generator; every result is handed to emit().
   Used by the thread and the memory-content harnesses. */
#ifndef WORK_H
#define WORK_H
#include "tpsim.h"
#include "oprf.h"
#include "toprf.h"
#include "mpmult.h"
#include "XK.h"

#define NKINDS 10
static const char *kind_name[NKINDS] = { "oprf", "threshold", "3hashtdh", "dkg", "mpmult", "algebra", "noise", "tpdkg", "refusals", "secrets" };
static void emit(const char *what, const void *p, size_t n);      /* supplied by the harness */
static void *ob(size_t n);                                        /* output buffer, contents chosen by the harness */
static void emit_i(const char *what, int v) { emit(what, &v, sizeof v); }

static void w_oprf(void) {
  size_t n = hrn(8) ? hrn(100) : hrn(3000);
  uint8_t *x = xbuf(n), *k = ob(32), *r = ob(32), *a = ob(32), *z = ob(32), *u = ob(32), *y = ob(64);
  hrbuf(x, n);
  oprf_KeyGen(k); emit("oprf_KeyGen", k, 32);
  emit_i("oprf_Blind code", oprf_Blind(x, n, r, a)); emit("oprf_Blind blind", r, 32); emit("oprf_Blind element", a, 32);
  emit_i("oprf_Evaluate code", oprf_Evaluate(k, a, z)); emit("oprf_Evaluate", z, 32);
  emit_i("oprf_Unblind code", oprf_Unblind(r, z, u)); emit("oprf_Unblind", u, 32);
  emit_i("oprf_Finalize code", oprf_Finalize(x, n, u, y)); emit("oprf_Finalize", y, 64);
  xfree(x); free(k); free(r); free(a); free(z); free(u); free(y);
}
static void w_threshold(void) {
  int n = 2 + (int) hrn(9), t = 1 + (int) hrn(n);
  uint8_t k[32], a[32];
  hrscalar(k); hrpoint(a);
  uint8_t (*sh)[33] = ob(33 * n), (*p)[33] = ob(33 * t), (*p2)[33] = ob(33 * t), *r = ob(32), *r2 = ob(32), *c = ob(32);
  emit_i("toprf_create_shares code", toprf_create_shares(k, n, t, sh)); emit("toprf_create_shares", sh, 33 * n);
  uint8_t ix[16]; for(int i = 0; i < n; i++) ix[i] = i + 1;
  shuffle(ix, n);
  for(int i = 0; i < t; i++) {
    p2[i][0] = ix[i];
    emit_i("oprf_Evaluate code", oprf_Evaluate(sh[ix[i] - 1] + 1, a, p2[i] + 1)); emit("oprf_Evaluate", p2[i] + 1, 32);
    emit_i("toprf_Evaluate code", toprf_Evaluate(sh[ix[i] - 1], a, ix[i], ix, t, p[i])); emit("toprf_Evaluate", p[i], 33);
  }
  emit_i("toprf_thresholdmult code", toprf_thresholdmult(t, p2, r)); emit("toprf_thresholdmult", r, 32);
  emit_i("toprf_thresholdcombine code", toprf_thresholdcombine(t, p, r2)); emit("toprf_thresholdcombine", r2, 32);
  coeff(ix[hrn(t)], t, ix, c); emit("coeff", c, 32);
  free(sh); free(p); free(p2); free(r); free(r2); free(c);
}
static void w_3hashtdh(void) {
  int n = 2 + (int) hrn(6), t = 1 + (int) hrn(n);
  size_t l = hrn(60);
  uint8_t k[32], zero[32] = {0}, a[32], *ss = xbuf(l);
  hrscalar(k); hrpoint(a); hrbuf(ss, l);
  uint8_t (*sh)[33] = ob(33 * n), (*zs)[33] = ob(33 * n), (*p)[33] = ob(33 * t), *r = ob(32);
  emit_i("create", toprf_create_shares(k, n, t, sh)); emit_i("create", toprf_create_shares(zero, n, t, zs));
  for(int i = 0; i < t; i++) { emit_i("toprf_3hashtdh code", toprf_3hashtdh(sh[i], zs[i], a, ss, l, p[i])); emit("toprf_3hashtdh", p[i], 33); }
  emit_i("toprf_thresholdmult code", toprf_thresholdmult(t, p, r)); emit("toprf_thresholdmult", r, 32);
  xfree(ss); free(sh); free(zs); free(p); free(r);
}
static void w_dkg(void) {
  int n = 2 + (int) hrn(6), t = 1 + (int) hrn(n), cheat = (int) hrn(3) == 0;
  uint8_t (*c)[32] = ob((size_t) 32 * n * t);
  TOPRF_Share *s = ob(33 * n * n), *m = ob(33 * n), *f = ob(33 * n), *one = ob(33);
  uint8_t *fails = ob(n), *fl = ob(1), *rec = ob(32);
  for(int i = 0; i < n; i++) { emit_i("dkg_start code", dkg_start(n, t, c + i * t, s + i * n)); emit("dkg_start shares", s + i * n, 33 * n); emit("dkg_start commitments", c + i * t, 32 * t); }
  if(cheat) { int i = (int) hrn(n * n); s[i].value[hrn(31)] ^= 1 + hrn(255); if(hrn(2)) memset(c + hrn(n * t), 0xff, 32); }
  for(int j = 0; j < n; j++) {
    for(int i = 0; i < n; i++) m[i] = s[i * n + j];
    *fl = 0;
    int r = dkg_verify_commitments(n, t, j + 1, (void*) c, m, fails, fl);
    emit_i("dkg_verify_commitments code", r); emit("dkg_verify_commitments count", fl, 1); emit("dkg_verify_commitments list", fails, *fl);
    emit_i("dkg_verify_commitment code", dkg_verify_commitment(n, t, j + 1, 1, (void*) c, m[0]));
    one->index = j + 1;
    dkg_finish(n, m, j + 1, one); emit("dkg_finish", one, 33);
    f[j] = *one;
  }
  dkg_reconstruct(t, f, rec); emit("dkg_reconstruct", rec, 32);
  free(c); free(s); free(m); free(f); free(one); free(fails); free(fl); free(rec);
}
static void w_mpmult(void) {
  int t = 1 + (int) hrn(3), d = 2 * t - 1, n = d + (int) hrn(3);
  uint8_t a[32], b[32]; hrscalar(a); hrscalar(b);
  uint8_t (*as)[33] = ob(33 * n), (*bs)[33] = ob(33 * n), (*mul)[33] = ob(33 * n * d), (*in)[33] = ob(33 * d), *out = ob(33);
  emit_i("create", toprf_create_shares(a, n, t, as)); emit_i("create", toprf_create_shares(b, n, t, bs));
  uint8_t ix[16]; for(int i = 0; i < n; i++) ix[i] = i + 1;
  shuffle(ix, n);
  for(int i = 0; i < d; i++) { emit_i("toprf_mpc_mul_start code", toprf_mpc_mul_start(as[ix[i] - 1], bs[ix[i] - 1], n, t, mul + i * n)); emit("toprf_mpc_mul_start", mul + i * n, 33 * n); }
  for(int j = 0; j < n; j++) {
    for(int i = 0; i < d; i++) memcpy(in[i], mul[i * n + j], 33);
    toprf_mpc_mul_finish(d, ix, j + 1, in, out); emit("toprf_mpc_mul_finish", out, 33);
  }
  free(as); free(bs); free(mul); free(in); free(out);
}
static void w_algebra(void) {
  int d = 1 + (int) hrn(7);
  uint8_t ix[255]; for(int i = 0; i < 255; i++) ix[i] = i + 1;
  shuffle(ix, 255);
  uint8_t *m = ob((size_t) d * d * 32), *c = ob(32), *p = ob(32);
  invertedVDMmatrix(d, ix, (void*) m); emit("invertedVDMmatrix", m, (size_t) d * d * 32);
  coeff(ix[0], d, ix, c); emit("coeff", c, 32);
  size_t n = hrn(300), l = 1 + hrn(255), dl = hrn(256);
  uint8_t *x = xbuf(n), *ds = xbuf(dl), *o = ob(l);
  hrbuf(x, n); hrbuf(ds, dl);
  int r = expand_message_xmd(x, n, ds, dl, l, o);
  emit_i("expand_message_xmd code", r); if(!r) emit("expand_message_xmd", o, l);
  r = voprf_hash_to_group(x, n, p);
  emit_i("voprf_hash_to_group code", r); emit("voprf_hash_to_group", p, 32);
  free(m); free(c); free(p); xfree(x); xfree(ds); free(o);
}
static void emit_str(const char *what, Noise_XK_noise_string s) { emit(what, s ? (const char*) s : "", s ? strlen((char*) s) + 1 : 1); free(s); }
static void w_noise(void) {
  uint8_t ska[32], skb[32], pka[32], pkb[32], srl[32], *h = ob(64), *k = ob(32);
  hrbuf(ska, 32); hrbuf(skb, 32); hrbuf(srl, 32); crypto_scalarmult_base(pka, ska); crypto_scalarmult_base(pkb, skb);
  uint32_t pl = (uint32_t) hrn(40); uint8_t *prlg = xbuf(pl); hrbuf(prlg, pl);
  Noise_XK_device_t *da = Noise_XK_device_create(pl, prlg, (uint8_t*) "alice", srl, ska), *db = Noise_XK_device_create(pl, prlg, (uint8_t*) "bob", srl, skb);
  if(!da || !db) h_die("device");
  Noise_XK_peer_t *pb = Noise_XK_device_add_peer(da, (uint8_t*) "to-bob", pkb);
  if(hrn(3)) Noise_XK_device_add_peer(db, (uint8_t*) "to-alice", pka);
  if(!pb) h_die("peer");
  Noise_XK_session_t *sa = Noise_XK_session_create_initiator(da, Noise_XK_peer_get_id(pb)), *sb = Noise_XK_session_create_responder(db);
  if(!sa || !sb) h_die("session");
  int rounds = 3 + (int) hrn(6);
  for(int i = 0; i < rounds; i++) {
    Noise_XK_session_t *w = i % 2 ? sb : sa, *r = i % 2 ? sa : sb;
    uint32_t n = (uint32_t) hrn(200), ol = 0, bl = 0; uint8_t *m = xbuf(n), *o = NULL, *back = NULL;
    hrbuf(m, n);
    uint32_t nl = 0;
    emit_i("next length code", Noise_XK_session_compute_next_message_len(&nl, w, n)); emit("next length", &nl, 4);
    Noise_XK_encap_message_t *e = Noise_XK_pack_message_with_conf_level(0, n, m), *g = NULL;
    emit_i("write code", Noise_XK_session_write(e, w, &ol, &o).tag); emit("write length", &ol, 4);
    if(o) {
      emit("write", o, ol);
      int hurt = i >= 3 && hrn(6) == 0;
      if(hurt) o[hrn(ol)] ^= 1;
      Noise_XK_rcode rc = Noise_XK_session_read(&g, r, ol, o);
      emit_i("read code", rc.tag);
      if(g) { emit_i("unpack code", Noise_XK_unpack_message_with_auth_level(&bl, &back, 0, g)); emit("read length", &bl, 4); if(back) emit("read", back, bl); Noise_XK_encap_message_p_free(g); }
      if(hurt) i = rounds;
    }
    Noise_XK_encap_message_p_free(e);
    free(o); free(back); xfree(m);
  }
  Noise_XK_noise_string str = NULL;
  for(int s = 0; s < 2; s++) {
    Noise_XK_session_t *x = s ? sb : sa;
    Noise_XK_session_get_hash(h, x); emit("session hash", h, 64);
    emit_i("session id", Noise_XK_session_get_id(x)); emit_i("session peer", Noise_XK_session_get_peer_id(x));
    emit_i("status", Noise_XK_session_get_status(x)); emit_i("max security", Noise_XK_session_reached_max_security(x));
    str = NULL; Noise_XK_session_get_info(&str, x); emit_str("session info", str);
    str = NULL; emit_i("peer info code", Noise_XK_session_get_peer_info(&str, x)); emit_str("peer info", str);
  }
  str = NULL; Noise_XK_device_get_info(&str, da); emit_str("device info", str);
  Noise_XK_device_get_static_priv(k, da); emit("device private", k, 32);
  Noise_XK_device_get_static_pub(k, da); emit("device public", k, 32);
  pb = Noise_XK_device_lookup_peer_by_static(da, pkb);
  emit_i("lookup", pb != NULL);
  if(pb) { Noise_XK_peer_get_static(k, pb); emit("peer static", k, 32); str = NULL; Noise_XK_peer_get_info(&str, pb); emit_str("peer info", str); }
  Noise_XK_session_free(sa); Noise_XK_session_free(sb); Noise_XK_device_free(da); Noise_XK_device_free(db);
  xfree(prlg); free(h); free(k);
}
static void w_secrets(void) {
  uint8_t ska[32], pkb[32], srl[32];
  hrbuf(ska, 32); hrbuf(srl, 32); hrbuf(pkb, 32);
  Noise_XK_device_t *da = Noise_XK_device_create(4, (uint8_t*) "prlg", (uint8_t*) "dev", srl, ska);
  Noise_XK_peer_t *p = da ? Noise_XK_device_add_peer(da, (uint8_t*) "peer", pkb) : NULL;
  if(!p) h_die("peer");
  uint32_t l = 0, l2 = 0; uint8_t *o = NULL, *o2 = NULL, *k = ob(32);
  Noise_XK_serialize_device_secret(&l, &o, da); emit("device secret", o, l);
  Noise_XK_serialize_peer_secret(&l2, &o2, da, p); emit("peer secret", o2, l2);
  if(hrn(3) == 0) o[hrn(l)] ^= 4;
  if(hrn(3) == 0) o2[hrn(l2)] ^= 4;
  uint8_t *e = xbuf(l);
  memcpy(e, o, l);
  Noise_XK_device_t *dc = Noise_XK_device_create_from_secret(4, (uint8_t*) "prlg", (uint8_t*) "dev", srl, e);
  emit_i("device opened", dc != NULL);
  if(dc) {
    Noise_XK_device_get_static_priv(k, dc); emit("device private", k, 32);
    Noise_XK_peer_t *q = Noise_XK_deserialize_peer_secret(dc, (uint8_t*) "peer", l2, o2);
    emit_i("peer opened", q != NULL);
    if(q) { Noise_XK_peer_get_static(k, q); emit("peer static", k, 32); }
    Noise_XK_device_free(dc);
  }
  Noise_XK_device_free(da);
  xfree(e); free(o); free(o2); free(k);
}
/* ---- TP-DKG ---- */
static __thread int w_hurt_peer, w_hurt_step, w_hurt_kind;
static void w_log(const uint8_t *p, size_t n) { emit("message", p, n); }
static void w_hurt(int p, int step, uint8_t **b, size_t *l) {
  if(p != w_hurt_peer || step != w_hurt_step || !*l) return;
  size_t sz; int c = subs_peer_out(step, *l, &sz);
  int j = (int) hrn(c);
  if(sz <= HDR) { (*b)[hrn(*l)] ^= 1 + hrn(255); return; }
  uint8_t *m = *b + sz * j;
  if(w_hurt_kind == 0) m[hrn(sz)] ^= 1 + hrn(255);
  else { m[HDR + hrn(sz - HDR)] ^= 1 + hrn(127); if(step) resign(m, sz, S.p[p].st->sig_sk); }
}
static void w_tpdkg(void) {
  int n = 3 + (int) hrn(3), t = 2 + (int) hrn(n - 2);
  memset(sim_off, 0, sizeof sim_off);
  S.keeplog = 0; S.namelen = 1 + hrn(20); hrbuf(S.name, S.namelen); S.h = NULL;
  sim_now = 1700000000 + hrn(1000000);
  hk_log = w_log;
  int hurt = hrn(2) == 0;
  w_hurt_peer = (int) hrn(n); w_hurt_step = 1 + (int) hrn(7); w_hurt_kind = (int) hrn(3);
  hk_peer_out = hurt ? w_hurt : NULL;
  int r = sim_start(n, t, 1 + hrn(1000));
  emit_i("tp start code", r);
  if(!r) {
    sim_run();
    emit_i("tp code", S.tpret); emit_i("tp done", tpdkg_tp_not_done(S.tp)); emit_i("stalled", S.stalled);
    int cl = (int) S.tp->cheater_len;
    emit_i("cheaters", cl);
    for(int i = 0; i < cl; i++) {
      char txt[300]; memset(txt, 0, sizeof txt);
      emit_i("cheater", tpdkg_cheater_msg(&(*S.cheaters)[i], txt, sizeof txt)); emit("cheater text", txt, strlen(txt) + 1);
    }
    for(int i = 0; i < n; i++) {
      peer_t *q = &S.p[i];
      emit_i("peer start", q->started); emit_i("peer code", q->ret);
      if(q->started) { emit_i("peer done", tpdkg_peer_not_done(q->st)); emit_i("peer step", q->st->step); }
      if(q->started && !q->ret && !tpdkg_peer_not_done(q->st)) emit("peer share", &q->st->share, 33);
    }
    sim_end();
  }
  hk_log = NULL; hk_peer_out = NULL;
}
static void w_refusals(void) {
  uint8_t bad[32], k[33], z[33], a[32], *o = ob(64), *o2 = ob(33 * 8), *p = ob(33 * 4), x[20];
  memset(bad, 0xff, 32); hrscalar(k + 1); hrscalar(z + 1); k[0] = z[0] = 1; hrpoint(a); hrbuf(x, 20);
  if(hrn(3) == 0) memset(bad, 0, 32);
  uint8_t zero[32] = {0}, ix[4] = {1, 2, 3, 4};
  emit_i("oprf_Evaluate refuses", oprf_Evaluate(k + 1, bad, o));
  emit_i("oprf_Unblind refuses", oprf_Unblind(k + 1, bad, o));
  emit_i("oprf_Unblind refuses zero", oprf_Unblind(zero, a, o));
  emit_i("toprf_Evaluate refuses", toprf_Evaluate(k, bad, 1, ix, 3, o));
  emit_i("toprf_3hashtdh refuses", toprf_3hashtdh(k, z, bad, x, 20, o));
  for(int i = 0; i < 4; i++) { p[33 * i] = i + 1; memcpy(p + 33 * i + 1, i == 2 ? bad : a, 32); }
  emit_i("toprf_thresholdmult refuses", toprf_thresholdmult(4, (void*) p, o));
  emit_i("toprf_thresholdcombine refuses", toprf_thresholdcombine(4, (void*) p, o));
  emit_i("toprf_create_shares refuses", toprf_create_shares(k + 1, 4, 0, (void*) o2));
  emit_i("toprf_mpc_mul_start refuses", toprf_mpc_mul_start(k, z, 4, 5, (void*) o2));
  z[0] = 2;
  emit_i("toprf_mpc_mul_start refuses indexes", toprf_mpc_mul_start(k, z, 4, 2, (void*) o2));
  free(o); free(o2); free(p);
}
static void (*const kinds[NKINDS])(void) = { w_oprf, w_threshold, w_3hashtdh, w_dkg, w_mpmult, w_algebra, w_noise, w_tpdkg, w_refusals, w_secrets };
#endif
