From 321d50f3c51dd800d95858e4e7bf51a5679f2566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:11:41 +0000
Subject: [PATCH 01/41] fix: hash OPRF inputs longer than 255 bytes completely

oprf_Blind, voprf_hash_to_group and expand_message_xmd took the input
length as uint8_t, so it was silently cut to its lowest 8 bits. Inputs
that only differ after that point were mapped to the same element.
Take the length as uint16_t, like oprf_Finalize does.
---
 src/oprf.c | 6 +++---
 src/oprf.h | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/oprf.c b/src/oprf.c
index 87fee33..a9d55e7 100644
--- a/src/oprf.c
+++ b/src/oprf.c
@@ -154,7 +154,7 @@ static void expand_loop(const uint8_t *b_0, const uint8_t *b_i, const uint8_t i,
  * 11. uniform_bytes = b_1 || ... || b_ell
  * 12. return substr(uniform_bytes, 0, len_in_bytes)
  */
-int expand_message_xmd(const uint8_t *msg, const uint8_t msg_len, const uint8_t *dst, const uint8_t dst_len, const uint8_t len_in_bytes, uint8_t *uniform_bytes) {
+int expand_message_xmd(const uint8_t *msg, const uint16_t msg_len, const uint8_t *dst, const uint8_t dst_len, const uint8_t len_in_bytes, uint8_t *uniform_bytes) {
   // 1.  ell = ceil(len_in_bytes / b_in_bytes)
   const unsigned ell = (len_in_bytes + crypto_hash_sha512_BYTES-1) / crypto_hash_sha512_BYTES;
 #ifdef TRACE
@@ -250,7 +250,7 @@ int expand_message_xmd(const uint8_t *msg, const uint8_t msg_len, const uint8_t
  * 2. P = ristretto255_map(uniform_bytes)
  * 3. return P
  */
-int voprf_hash_to_group(const uint8_t *msg, const uint8_t msg_len, uint8_t p[crypto_core_ristretto255_BYTES]) {
+int voprf_hash_to_group(const uint8_t *msg, const uint16_t msg_len, uint8_t p[crypto_core_ristretto255_BYTES]) {
   const uint8_t dst[] = "HashToGroup-"VOPRF"-\x00-ristretto255-SHA512";
   const uint8_t dst_len = (sizeof dst) - 1;
   uint8_t uniform_bytes[crypto_core_ristretto255_HASHBYTES]={0};
@@ -286,7 +286,7 @@ int voprf_hash_to_group(const uint8_t *msg, const uint8_t msg_len, uint8_t p[cry
  * the blinded version of x, an input to oprf_Evaluate
  * @return The function returns 0 if everything is correct.
  */
-int oprf_Blind(const uint8_t *x, const uint8_t x_len,
+int oprf_Blind(const uint8_t *x, const uint16_t x_len,
                uint8_t r[crypto_core_ristretto255_SCALARBYTES],
                uint8_t blinded[crypto_core_ristretto255_BYTES]) {
 #if (defined TRACE || defined CFRG_TEST_VEC)
diff --git a/src/oprf.h b/src/oprf.h
index c8569cb..6c04002 100644
--- a/src/oprf.h
+++ b/src/oprf.h
@@ -53,7 +53,7 @@ int oprf_Finalize(const uint8_t *x, const uint16_t x_len,
  * the blinded version of x, an input to oprf_Evaluate
  * @return The function returns 0 if everything is correct.
  */
-int oprf_Blind(const uint8_t *x, const uint8_t x_len,
+int oprf_Blind(const uint8_t *x, const uint16_t x_len,
                uint8_t r[crypto_core_ristretto255_SCALARBYTES],
                uint8_t blinded[crypto_core_ristretto255_BYTES]);
 
@@ -100,7 +100,7 @@ int oprf_Unblind(const uint8_t r[crypto_core_ristretto255_SCALARBYTES],
  * @param [in] msg_len: the length of the input
  * @param [out] p: the resulting ristretto255 point
  */
-int voprf_hash_to_group(const uint8_t *msg, const uint8_t msg_len, uint8_t p[crypto_core_ristretto255_BYTES]);
+int voprf_hash_to_group(const uint8_t *msg, const uint16_t msg_len, uint8_t p[crypto_core_ristretto255_BYTES]);
 
 /**
  * A utility function from the hash to curve CFRG IRTF draft/spec
@@ -109,7 +109,7 @@ int voprf_hash_to_group(const uint8_t *msg, const uint8_t msg_len, uint8_t p[cry
  * for domain separation tag), and produces a high entropy output in
  * uniform_bytes of length: len_in_bytes
  */
-int expand_message_xmd(const uint8_t *msg, const uint8_t msg_len, const uint8_t *dst, const uint8_t dst_len, const uint8_t len_in_bytes, uint8_t *uniform_bytes);
+int expand_message_xmd(const uint8_t *msg, const uint16_t msg_len, const uint8_t *dst, const uint8_t dst_len, const uint8_t len_in_bytes, uint8_t *uniform_bytes);
 
 #ifdef __EMSCRIPTEN__
 /**
-- 
2.43.0


From 8380a91f7c22cec59ccd8bc118e0b80cab507265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:11:41 +0000
Subject: [PATCH 02/41] fix: unlock H0 when hashing to the group fails in
 oprf_Blind

---
 src/oprf.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/oprf.c b/src/oprf.c
index a9d55e7..9a1a5c6 100644
--- a/src/oprf.c
+++ b/src/oprf.c
@@ -297,7 +297,10 @@ int oprf_Blind(const uint8_t *x, const uint16_t x_len,
     return -1;
   }
   // sets α := (H^0(pw))^r
-  if(0!=voprf_hash_to_group(x, x_len, H0)) return -1;
+  if(0!=voprf_hash_to_group(x, x_len, H0)) {
+    sodium_munlock(H0,sizeof H0);
+    return -1;
+  }
 #if (defined TRACE || defined CFRG_TEST_VEC)
   dump(H0,sizeof H0, "H0");
 #endif
-- 
2.43.0


From 69f44ad3d1feb1c53def841c0e9e0ac9cc0f8c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:11:41 +0000
Subject: [PATCH 03/41] fix: toprf_create_shares with 255 shares or a useless
 threshold

With n=255 the uint8_t loop counter never exceeded n, so the function
wrote past the end of shares forever. A threshold of zero handed out the
secret itself as every share, and a threshold greater than n made shares
that can never be combined. Return an error for such thresholds, as the
documentation of the return value promises.
---
 src/mpmult.c |  2 +-
 src/toprf.c  | 16 ++++++++++------
 src/toprf.h  |  5 +++--
 3 files changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/mpmult.c b/src/mpmult.c
index e5ff412..21f8891 100644
--- a/src/mpmult.c
+++ b/src/mpmult.c
@@ -166,7 +166,7 @@ int toprf_mpc_mul_start(const uint8_t _a[TOPRF_Share_BYTES],
   uint8_t ab[crypto_core_ristretto255_SCALARBYTES];
   crypto_core_ristretto255_scalar_mul(ab, a->value, b->value);
   //dump(ab, sizeof ab, "ab");
-  toprf_create_shares(ab, peers, threshold, shares);
+  if(0!=toprf_create_shares(ab, peers, threshold, shares)) return 1;
   //for(unsigned j=0;j<peers;j++)
     //dump(shares[j], TOPRF_Share_BYTES, "mulshare");
   return 0;
diff --git a/src/toprf.c b/src/toprf.c
index 88b74c9..8a1d642 100644
--- a/src/toprf.c
+++ b/src/toprf.c
@@ -78,22 +78,25 @@ void coeff(const uint8_t index, const size_t peers_len, const uint8_t peers[peer
   crypto_core_ristretto255_scalar_mul(result, divisor, divident);
 }
 
-void toprf_create_shares(const uint8_t secret[crypto_core_ristretto255_SCALARBYTES],
+int toprf_create_shares(const uint8_t secret[crypto_core_ristretto255_SCALARBYTES],
                    const uint8_t n,
                    const uint8_t threshold,
                    uint8_t _shares[n][TOPRF_Share_BYTES]) {
   TOPRF_Share *shares= (TOPRF_Share*)_shares;
 
-  uint8_t a[threshold-1][crypto_core_ristretto255_SCALARBYTES];
-  uint8_t i;
-  for(i=0;i<threshold-1;i++) {
+  if(threshold==0 || threshold>n) return 1;
+
+  // one more than used, so that the array is not empty if threshold is 1
+  uint8_t a[threshold][crypto_core_ristretto255_SCALARBYTES];
+  unsigned i;
+  for(i=0;i<threshold-1U;i++) {
     crypto_core_ristretto255_scalar_random(a[i]);
   }
   for(i=1;i<=n;i++) {
     //f(x) = a_0 + a_1*x + a_2*x^2 + a_3*x^3 + ⋯ + a_(k−1)*x^(k−1)
-    shares[i-1].index=i;
+    shares[i-1].index=(uint8_t) i;
     uint8_t x[crypto_core_ristretto255_SCALARBYTES]={0};
-    x[0]=i;
+    x[0]=(uint8_t) i;
     memcpy(shares[i-1].value, secret, crypto_core_ristretto255_SCALARBYTES);
     for(int j=0;j<threshold-1;j++) {
       // a_j^j
@@ -105,6 +108,7 @@ void toprf_create_shares(const uint8_t secret[crypto_core_ristretto255_SCALARBYT
       crypto_core_ristretto255_scalar_add(shares[i-1].value, shares[i-1].value, tmp);
     }
   }
+  return 0;
 }
 
 static void sort_parts(const int n, const TOPRF_Part parts[n], uint8_t indexes[n]) {
diff --git a/src/toprf.h b/src/toprf.h
index 2e6fa25..a8746f9 100644
--- a/src/toprf.h
+++ b/src/toprf.h
@@ -52,9 +52,10 @@ void coeff(const uint8_t index, const size_t peers_len, const uint8_t peers[peer
  *
  * @param [out] shares - n shares
  *
- * @return The function returns 0 if everything is correct.
+ * @return The function returns 0 if everything is correct, it returns
+ *          1 if the threshold is zero or greater than n.
  */
-void toprf_create_shares(const uint8_t secret[crypto_core_ristretto255_SCALARBYTES],
+int toprf_create_shares(const uint8_t secret[crypto_core_ristretto255_SCALARBYTES],
                    const uint8_t n,
                    const uint8_t threshold,
                    uint8_t shares[n][TOPRF_Share_BYTES]);
-- 
2.43.0


From f855f3dffd0e810273cef7071044cffc975b291c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:11:41 +0000
Subject: [PATCH 04/41] fix: check responses when combining threshold
 evaluations

toprf_thresholdcombine ignored responses that are not valid group
elements and returned success for a result computed without them. Both
combining functions accepted an empty set of responses, and
toprf_thresholdmult checked the number of responses only after using it
to size an array on the stack.
---
 src/toprf.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/toprf.c b/src/toprf.c
index 8a1d642..f5323b3 100644
--- a/src/toprf.c
+++ b/src/toprf.c
@@ -141,8 +141,8 @@ int toprf_thresholdmult(const size_t response_len,
   memset(result,0,crypto_scalarmult_ristretto255_BYTES);
 
   // sort the responses by their indexes
+  if(response_len==0 || response_len>255) return 1;
   uint8_t indexed_indexes[response_len];
-  if(response_len>255) return 1;
   sort_parts((uint8_t) response_len, (TOPRF_Part*) responses, indexed_indexes);
 
   uint8_t indexes[response_len];
@@ -182,7 +182,7 @@ int toprf_Evaluate(const uint8_t _k[TOPRF_Share_BYTES],
 int toprf_thresholdcombine(const size_t response_len,
                             const uint8_t _responses[response_len][TOPRF_Part_BYTES],
                             uint8_t result[crypto_scalarmult_ristretto255_BYTES]) {
-  if(response_len>255) return 1;
+  if(response_len==0 || response_len>255) return 1;
   const TOPRF_Part *responses=(TOPRF_Part*) _responses;
   memset(result,0,crypto_scalarmult_ristretto255_BYTES);
 
@@ -190,7 +190,7 @@ int toprf_thresholdcombine(const size_t response_len,
   sort_parts((uint8_t) response_len, (TOPRF_Part*) responses, indexed_indexes);
 
   for(size_t i=0;i<response_len;i++) {
-    crypto_core_ristretto255_add(result,result,responses[indexed_indexes[i]].value);
+    if(crypto_core_ristretto255_add(result,result,responses[indexed_indexes[i]].value)) return 1;
   }
   return 0;
 }
-- 
2.43.0


From bb2a2e6124d08fc59f1329b1a5bd702164916d19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:11:41 +0000
Subject: [PATCH 05/41] fix: set the index of the part returned by
 toprf_Evaluate

The index byte of the result was left uninitialised, although
toprf_thresholdcombine reads it.
---
 src/toprf.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/toprf.c b/src/toprf.c
index f5323b3..fadc475 100644
--- a/src/toprf.c
+++ b/src/toprf.c
@@ -174,6 +174,7 @@ int toprf_Evaluate(const uint8_t _k[TOPRF_Share_BYTES],
   crypto_core_ristretto255_scalar_mul(kl, k->value, lpoly);
 
   TOPRF_Part *Z=(TOPRF_Part*) _Z;
+  Z->index=self;
   if(oprf_Evaluate(kl,blinded, Z->value)) return 1;
 
   return 0;
-- 
2.43.0


From e504b7ab163f7bfc9937feaead7f323ef32840fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:11:41 +0000
Subject: [PATCH 06/41] fix: endless loops in the DKG with 255 participants

The uint8_t loop counters of dkg_start and dkg_verify_commitments never
exceeded n when n is 255. Also refuse thresholds that are zero or
greater than n in dkg_start.
---
 src/dkg.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/dkg.c b/src/dkg.c
index 4db1ef5..091f706 100644
--- a/src/dkg.c
+++ b/src/dkg.c
@@ -63,6 +63,8 @@ int dkg_start(const uint8_t n,
               uint8_t commitments[threshold][crypto_core_ristretto255_BYTES],
               TOPRF_Share shares[n]) {
 
+  if(threshold==0 || threshold>n) return -1;
+
   uint8_t a[threshold][crypto_core_ristretto255_SCALARBYTES];
   if(0!=sodium_mlock(a,sizeof a)) {
     return -1;
@@ -82,9 +84,9 @@ int dkg_start(const uint8_t n,
   }
 
   // calculate shares s_ij
-  for(uint8_t j=1;j<=n;j++) {
+  for(unsigned j=1;j<=n;j++) {
     //f(x) = a_0 + a_1*x + a_2*x^2 + a_3*x^3 + ⋯ + a_(t)*x^(t)
-    polynom(j, threshold, a, &shares[j-1]);
+    polynom((uint8_t) j, threshold, a, &shares[j-1]);
   }
 
   sodium_munlock(a,sizeof a);
@@ -147,9 +149,9 @@ int dkg_verify_commitments(const uint8_t n,
                            uint8_t fails[n],
                            uint8_t *fails_len) {
   *fails_len = 0;
-  for(uint8_t i=1;i<=n;i++) {
+  for(unsigned i=1;i<=n;i++) {
     if(i==self) continue;
-    int ret = dkg_verify_commitment(n, threshold, self, i, commitments[i-1], shares[i-1]);
+    int ret = dkg_verify_commitment(n, threshold, self, (uint8_t) i, commitments[i-1], shares[i-1]);
     if(-1 == ret) return ret;
     if(0 == ret) continue;
     fails[(*fails_len)++] = (uint8_t) i;
-- 
2.43.0


From 4f1612e0015e448c476527651d9af9346a0acf2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:11:41 +0000
Subject: [PATCH 07/41] fix: name dealers with invalid commitments as failed

dkg_verify_commitments stopped at the first commitment that is not a
valid group element. Its sender was missing from the list of failed
dealers, and no dealer after it was checked.
---
 src/dkg.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dkg.c b/src/dkg.c
index 091f706..e1f4a62 100644
--- a/src/dkg.c
+++ b/src/dkg.c
@@ -152,8 +152,8 @@ int dkg_verify_commitments(const uint8_t n,
   for(unsigned i=1;i<=n;i++) {
     if(i==self) continue;
     int ret = dkg_verify_commitment(n, threshold, self, (uint8_t) i, commitments[i-1], shares[i-1]);
-    if(-1 == ret) return ret;
     if(0 == ret) continue;
+    // either the share is wrong or the commitments are not even valid
     fails[(*fails_len)++] = (uint8_t) i;
   }
   if(*fails_len!=0) return 1;
-- 
2.43.0


From 8f3854fb0d101ea3cd412f2a2f2b86d1eef47466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:11:41 +0000
Subject: [PATCH 08/41] fix: refuse DKG shares that are not reduced scalars

Setting the top bit of a share or adding the group order to it left its
multiple of the generator unchanged, so the commitments matched although
the recipient then used a different value.
---
 src/dkg.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/dkg.c b/src/dkg.c
index e1f4a62..97a9e48 100644
--- a/src/dkg.c
+++ b/src/dkg.c
@@ -106,6 +106,20 @@ int dkg_verify_commitment(const uint8_t n,
   if(i==self) return 0;
   uint8_t v0[crypto_core_ristretto255_BYTES];
 
+  // scalar multiplication ignores the top bit and reduces its input,
+  // so shares must be reduced already for the check to be meaningful
+  uint8_t wide[crypto_core_ristretto255_NONREDUCEDSCALARBYTES]={0};
+  uint8_t reduced[crypto_core_ristretto255_SCALARBYTES];
+  memcpy(wide, share.value, sizeof share.value);
+  crypto_core_ristretto255_scalar_reduce(reduced, wide);
+  const int canonical = (0==sodium_memcmp(reduced, share.value, sizeof reduced));
+  sodium_memzero(wide, sizeof wide);
+  sodium_memzero(reduced, sizeof reduced);
+  if(!canonical) {
+    if(debug) fprintf(stderr, "\e[0;31mshare of P_%d is not a reduced scalar\e[0m\n", i);
+    return 1;
+  }
+
   // v0 = g*(s_ij)
   //dump((uint8_t*)&shares[i-1], sizeof(TOPRF_Share), "s(%d,%d) ", i, self);
   // g*(s_ij)
-- 
2.43.0


From 2c2c062b9fa0b77922b8b39821489e31c6ee8a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:26:11 +0000
Subject: [PATCH 09/41] fix: sign the payload of TP-DKG messages

Only the header of a message was signed and verified. Anyone on the path
could replace keys, commitments, handshakes, complaints or the final
verdict without being noticed. Sign everything after the signature.
---
 src/tp-dkg.c | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/tp-dkg.c b/src/tp-dkg.c
index 23b8a80..d13aaf9 100644
--- a/src/tp-dkg.c
+++ b/src/tp-dkg.c
@@ -118,7 +118,7 @@ static int send_msg(uint8_t* msg_buf, const size_t msg_buf_len, const uint8_t ms
   msg->ts = htonll((uint64_t)time(NULL));
   memcpy(msg->sessionid, sessionid, tpdkg_sessionid_SIZE);
 
-  crypto_sign_detached(msg->sig, NULL, &msg->msgno, sizeof(TP_DKG_Message) - crypto_sign_BYTES, sig_sk);
+  crypto_sign_detached(msg->sig, NULL, msg_buf + crypto_sign_BYTES, msg_buf_len - crypto_sign_BYTES, sig_sk);
   return 0;
 }
 
@@ -141,14 +141,8 @@ static int recv_msg(const uint8_t *msg_buf, const size_t msg_buf_len, const uint
   }
 #endif
 
-  const size_t unsigned_buf_len = msg_buf_len - crypto_sign_BYTES;
-
-  uint8_t with_sessionid[unsigned_buf_len + tpdkg_sessionid_SIZE];
-  memcpy(with_sessionid, msg_buf + crypto_sign_BYTES, unsigned_buf_len);
-  memcpy(with_sessionid + unsigned_buf_len, sessionid, tpdkg_sessionid_SIZE);
-
 #if !defined(FUZZING_BUILD_MODE_UNSAFE_FOR_PRODUCTION)
-  if(0!=crypto_sign_verify_detached(msg->sig, &msg->msgno, sizeof(TP_DKG_Message) - crypto_sign_BYTES, sig_pk)) return 6;
+  if(0!=crypto_sign_verify_detached(msg->sig, msg_buf + crypto_sign_BYTES, msg_buf_len - crypto_sign_BYTES, sig_pk)) return 6;
 #endif
 
   return 0;
-- 
2.43.0


From 0427bec723cdf9474414bfc688350f4f7ca2ec7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:26:11 +0000
Subject: [PATCH 10/41] fix: bound the number of complaints in a TP-DKG message

The bound was computed from the length field in network byte order, so
it had no effect. A message announcing more complaints than fit made the
TP and the peers read past it, and peers store complaints about
nonexistent peers past the end of their buffer.
---
 src/tp-dkg.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/tp-dkg.c b/src/tp-dkg.c
index d13aaf9..ec833b1 100644
--- a/src/tp-dkg.c
+++ b/src/tp-dkg.c
@@ -1190,10 +1190,14 @@ static int tp_step16_handler(TP_DKG_TPState *ctx, const uint8_t *input, const si
       if(add_cheater(ctx, 16, 64+ret, i+1, 0xff) == NULL) return 6;
       continue;
     }
-    if(msg->len - sizeof(TP_DKG_Message) < msg->data[0]) return 4;
+    // there is only room for n complaints
+    if(msg->data[0] > ctx->n) {
+      if(add_cheater(ctx, 16, 64+1, i+1, 0xff) == NULL) return 6;
+      continue;
+    }
 
     // keep a copy all complaint pairs (complainer, complained)
-    for(int k=0;k<msg->data[0] && (k+1)<msg->len-sizeof(TP_DKG_Message);k++) {
+    for(int k=0;k<msg->data[0];k++) {
       if(msg->data[k+1] > ctx->n || msg->data[k+1] < 1) {
         if(add_cheater(ctx, 16, 7, i+1, msg->data[k+1]) == NULL) return 6;
         continue;
@@ -1264,10 +1268,11 @@ static int peer_step17_handler(TP_DKG_PeerState *ctx, const uint8_t *input, cons
     }
     ret = recv_msg(ptr, tpdkg_msg9_SIZE(ctx), 9, i+1, 0xff, (*ctx->peer_sig_pks)[i], ctx->sessionid, ctx->ts_epsilon, &ctx->last_ts[i]);
     if(0!=ret) return 32+ret;
-    if(msg9->len - sizeof(TP_DKG_Message) < msg9->data[0]) return 5;
+    if(msg9->data[0] > ctx->n) return 5;
 
     // keep a copy all complaint pairs (complainer, complained)
-    for(int k=0;k<msg9->data[0] && (k+1)<msg9->len-sizeof(TP_DKG_Message);k++) {
+    for(int k=0;k<msg9->data[0];k++) {
+      if(msg9->data[k+1] > ctx->n || msg9->data[k+1] < 1) return 6;
       uint16_t pair=(uint16_t) (((i+1)<<8) | msg9->data[k+1]);
       int j=0;
       for(j=0;j<ctx->complaints_len;j++) if(ctx->complaints[j]==pair) break;
-- 
2.43.0


From afec4f0b27c36a57ae87da4ef6f4f671dd8a9a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:26:11 +0000
Subject: [PATCH 11/41] fix: crash of the TP on a bad handshake message

Without a log file a handshake message that fails validation was
reported to a NULL stream.
---
 src/tp-dkg.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/tp-dkg.c b/src/tp-dkg.c
index ec833b1..1c94289 100644
--- a/src/tp-dkg.c
+++ b/src/tp-dkg.c
@@ -878,9 +878,11 @@ static int tp_step68_handler(TP_DKG_TPState *ctx, const uint8_t *msg4s, const si
       int ret = recv_msg((*inputs)[j][i], tpdkg_msg4_SIZE, (uint8_t) (2+ctx->step), j+1, i+1, (*ctx->peer_sig_pks)[j], ctx->sessionid, ctx->ts_epsilon, &ctx->last_ts[j]);
       if(0!=ret) {
         if(add_cheater(ctx, 6 + (ctx->step - 1) * 2, 64+ret, j+1, i+1) == NULL) return 7;
-        TP_DKG_Message *msg = (TP_DKG_Message*) (*inputs)[j][i];
-        fprintf(log_file,"[x] msgno: %d, from: %d to: %d ", msg->msgno, msg->from, msg->to);
-        dump((*inputs)[j][i], tpdkg_msg4_SIZE, "msg");
+        if(log_file!=NULL) {
+          TP_DKG_Message *msg = (TP_DKG_Message*) (*inputs)[j][i];
+          fprintf(log_file,"[x] msgno: %d, from: %d to: %d ", msg->msgno, msg->from, msg->to);
+          dump((*inputs)[j][i], tpdkg_msg4_SIZE, "msg");
+        }
         continue;
       }
       memcpy(wptr, (*inputs)[j][i], tpdkg_msg4_SIZE);
-- 
2.43.0


From 8510b99db7143608dc7649dc88383419af3572a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:26:11 +0000
Subject: [PATCH 12/41] fix: stop TP-DKG peers when a noise handshake fails

A failed handshake freed the session but left the pointer to it in
place, and the peer went on, sent uninitialised bytes to the other peer
and later used the freed session. Clear the pointer and abort the peer,
and free the received message when it is not authentic enough.
---
 src/tp-dkg.c | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/tp-dkg.c b/src/tp-dkg.c
index 1c94289..732e34a 100644
--- a/src/tp-dkg.c
+++ b/src/tp-dkg.c
@@ -169,11 +169,13 @@ static int tpdkg_init_noise_handshake(TP_DKG_PeerState *ctx,
   Noise_XK_encap_message_p_free(encap_msg);
   if(!Noise_XK_rcode_is_success(ret)) {
     Noise_XK_session_free(*session);
+    *session=NULL;
     return 3;
   }
 
   if(cipher_msg_len!=noise_xk_handshake1_SIZE) {
     Noise_XK_session_free(*session);
+    *session=NULL;
     free(cipher_msg);
     return 4;
   }
@@ -200,13 +202,16 @@ static int tpdkg_respond_noise_handshake(TP_DKG_PeerState *ctx,
   Noise_XK_rcode ret = Noise_XK_session_read(&encap_msg, *session, noise_xk_handshake1_SIZE, inmsg);
   if(!Noise_XK_rcode_is_success(ret)) {
     Noise_XK_session_free(*session);
+    *session=NULL;
     return 2;
   }
 
   uint32_t plain_msg_len;
   uint8_t *plain_msg;
   if(!Noise_XK_unpack_message_with_auth_level(&plain_msg_len, &plain_msg, NOISE_XK_AUTH_ZERO, encap_msg)) {
+    Noise_XK_encap_message_p_free(encap_msg);
     Noise_XK_session_free(*session);
+    *session=NULL;
     return 3;
   }
   Noise_XK_encap_message_p_free(encap_msg);
@@ -218,11 +223,13 @@ static int tpdkg_respond_noise_handshake(TP_DKG_PeerState *ctx,
   Noise_XK_encap_message_p_free(encap_msg);
   if(!Noise_XK_rcode_is_success(ret)) {
     Noise_XK_session_free(*session);
+    *session=NULL;
     return 4;
   }
 
   if(cipher_msg_len!=noise_xk_handshake2_SIZE) {
     Noise_XK_session_free(*session);
+    *session=NULL;
     free(cipher_msg);
     return 4;
   }
@@ -245,12 +252,14 @@ static int tpdkg_finish_noise_handshake(TP_DKG_PeerState *ctx,
     Noise_XK_peer_t *peer = Noise_XK_device_lookup_peer_by_id(ctx->dev, peer_id);
     if(peer==NULL) {
       Noise_XK_session_free(*session);
+      *session=NULL;
       return 2;
     }
     uint8_t *pinfo;
     Noise_XK_peer_get_info((Noise_XK_noise_string*) &pinfo, peer);
     if(pinfo==NULL) {
       Noise_XK_session_free(*session);
+      *session=NULL;
       return 3;
     }
     fprintf(log_file, "[%d] finishing noise session -> %s\n", ctx->index, pinfo);
@@ -262,13 +271,16 @@ static int tpdkg_finish_noise_handshake(TP_DKG_PeerState *ctx,
   if(!Noise_XK_rcode_is_success(ret)) {
     if(log_file!=NULL) fprintf(log_file, "session read fail: %d\n", ret.val.case_Error);
     Noise_XK_session_free(*session);
+    *session=NULL;
     return 4;
   }
 
   uint32_t plain_msg_len;
   uint8_t *plain_msg;
   if(!Noise_XK_unpack_message_with_auth_level(&plain_msg_len, &plain_msg, NOISE_XK_AUTH_ZERO, encap_msg)) {
+    Noise_XK_encap_message_p_free(encap_msg);
     Noise_XK_session_free(*session);
+    *session=NULL;
     return 5;
   }
   Noise_XK_encap_message_p_free(encap_msg);
@@ -328,6 +340,7 @@ static int tpdkg_noise_decrypt(uint8_t *input,
   uint32_t plain_msg_len;
   uint8_t *plain_msg=NULL;
   if(!Noise_XK_unpack_message_with_auth_level(&plain_msg_len, &plain_msg, NOISE_XK_AUTH_KNOWN_SENDER_NO_KCI, encap_msg)) {
+    Noise_XK_encap_message_p_free(encap_msg);
     return 4;
   }
   Noise_XK_encap_message_p_free(encap_msg);
@@ -830,6 +843,7 @@ static int peer_step5_handler(TP_DKG_PeerState *ctx, const uint8_t *input, const
   uint8_t dummy[32]={0}; // the following function needs a deserialization key, which we never use.
 
   ctx->dev = Noise_XK_device_create(13, (uint8_t*) "dpkg p2p v0.1", iname, dummy, ctx->noise_sk);
+  if(ctx->dev==NULL) return 7;
 
   TP_DKG_Message* msg3 = (TP_DKG_Message*) input;
   const uint8_t *ptr = msg3->data;
@@ -850,7 +864,7 @@ static int peer_step5_handler(TP_DKG_PeerState *ctx, const uint8_t *input, const
     TP_DKG_Message *msg4 = (TP_DKG_Message *) wptr;
     uint8_t rname[13];
     snprintf((char*) rname, sizeof rname, "dkg peer %02x", i+1);
-    tpdkg_init_noise_handshake(ctx, (*ctx->peer_noise_pks)[i], rname, &(*ctx->noise_outs)[i], msg4->data);
+    if(0!=tpdkg_init_noise_handshake(ctx, (*ctx->peer_noise_pks)[i], rname, &(*ctx->noise_outs)[i], msg4->data)) return 6;
     if(0!=send_msg(wptr, tpdkg_msg4_SIZE, 4, ctx->index, i+1, ctx->sig_sk, ctx->sessionid)) return 5;
     if(log_file!=NULL) {
       fprintf(log_file,"[%d] msgno: %d, from: %d to: %d ", ctx->index, msg4->msgno, msg4->from, msg4->to);
@@ -915,7 +929,7 @@ static int peer_step7_handler(TP_DKG_PeerState *ctx, const uint8_t *input, const
     TP_DKG_Message *msg5 = (TP_DKG_Message *) wptr;
     uint8_t rname[13];
     snprintf((char*) rname, sizeof rname, "dkg peer %02x", i+1);
-    tpdkg_respond_noise_handshake(ctx, (*ctx->peer_noise_pks)[i], rname, &(*ctx->noise_ins)[i], msg4->data, msg5->data);
+    if(0!=tpdkg_respond_noise_handshake(ctx, (*ctx->peer_noise_pks)[i], rname, &(*ctx->noise_ins)[i], msg4->data, msg5->data)) return 5;
     if(0!=send_msg(wptr, tpdkg_msg5_SIZE, 5, ctx->index, i+1, ctx->sig_sk, ctx->sessionid)) return 4;
     if(log_file!=NULL) {
       fprintf(log_file,"[%d] msgno: %d, from: %d to: %d ", ctx->index, msg5->msgno, msg5->from, msg5->to);
@@ -943,7 +957,7 @@ static int peer_step911_handler(TP_DKG_PeerState *ctx, const uint8_t *input, con
     if(0!=ret) return 64+ret;
     ptr+=tpdkg_msg5_SIZE;
     // process final step of noise handshake
-    tpdkg_finish_noise_handshake(ctx, &(*ctx->noise_outs)[i], msg5->data);
+    if(0!=tpdkg_finish_noise_handshake(ctx, &(*ctx->noise_outs)[i], msg5->data)) return 5;
   }
 
   TP_DKG_Message* msg6 = (TP_DKG_Message*) output;
-- 
2.43.0


From 47f09fd96ce9c10ed860e94f4403447a036b630c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:26:11 +0000
Subject: [PATCH 13/41] fix: refuse to start a TP-DKG with a threshold below
 two

Peers refuse such a session, but the TP started it.
---
 src/tp-dkg.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tp-dkg.c b/src/tp-dkg.c
index 732e34a..45c1b27 100644
--- a/src/tp-dkg.c
+++ b/src/tp-dkg.c
@@ -634,7 +634,7 @@ int tpdkg_start_tp(TP_DKG_TPState *ctx, const uint64_t ts_epsilon,
              const char *proto_name, const size_t proto_name_len,
              const size_t msg0_len, TP_DKG_Message *msg0) {
   if(log_file!=NULL) fprintf(log_file, "\e[0;33m[!] step 0. start protocol\e[0m\n");
-  if(2>n || t>=n || n>128) return 1;
+  if(2>n || t<2 || t>=n || n>128) return 1;
   if(proto_name_len<1) return 2;
   if(proto_name_len>1024) return 3;
   if(msg0_len != tpdkg_msg0_SIZE) return 4;
-- 
2.43.0


From 40d4dc955851f5f8b7ffdddffb7b6541eac4c264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:26:11 +0000
Subject: [PATCH 14/41] fix: blame the accused peer for not answering a
 complaint

Complainer and accused were swapped, so the honest peer that complained
was reported as the cheater.
---
 src/tp-dkg.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tp-dkg.c b/src/tp-dkg.c
index 45c1b27..e9ec675 100644
--- a/src/tp-dkg.c
+++ b/src/tp-dkg.c
@@ -1488,7 +1488,7 @@ static int tp_step18_handler(TP_DKG_TPState *ctx, const uint8_t *input, const si
 
   for(int i=0;i<ctx->complaints_len;i++) {
     if(complaints[i] != 0xffff) {
-      if(add_cheater(ctx, 18, 7, (uint8_t) (complaints[i] >> 8), (uint8_t) (complaints[i] & 0xff)) == NULL) return 4;
+      if(add_cheater(ctx, 18, 7, (uint8_t) (complaints[i] & 0xff), (uint8_t) (complaints[i] >> 8)) == NULL) return 4;
     }
   }
 
-- 
2.43.0


From 4e463c005b1a1110a3f912718156cc0c3566676d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:26:11 +0000
Subject: [PATCH 15/41] fix: fail the TP-DKG if a peer does not acknowledge the
 result

The TP only logged an acknowledgement other than OK and then reported
success.
---
 src/tp-dkg.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/tp-dkg.c b/src/tp-dkg.c
index e9ec675..8b52b7b 100644
--- a/src/tp-dkg.c
+++ b/src/tp-dkg.c
@@ -1612,8 +1612,9 @@ static int tp_step22_handler(TP_DKG_TPState *ctx, const uint8_t *input, const si
 
     if(memcmp("OK", msg->data, 2)!=0) {
       if(log_file!=NULL) {
-        fprintf(log_file,"\e[0;31m[!] failed to get ack from %d!\e[0m\n", i);
+        fprintf(log_file,"\e[0;31m[!] failed to get ack from %d!\e[0m\n", i+1);
       }
+      if(add_cheater(ctx, 22, 1, i+1, 0) == NULL) return 6;
     }
   }
   if(ctx->cheater_len>0) return 5;
@@ -1769,6 +1770,13 @@ uint8_t tpdkg_cheater_msg(const TP_DKG_Cheater *c, char *out, const size_t outle
     }
     snprintf(out,outlen, "invalid error code for step 20: %d", c->error);
     return 0;
+  } else if(c->step==22) {
+    if(c->error == 1) {
+      snprintf(out,outlen, "peer %d did not acknowledge the result", c->peer);
+      return c->peer;
+    }
+    snprintf(out,outlen, "invalid error code for step 22: %d", c->error);
+    return 0;
   }
   snprintf(out,outlen, "invalid step %d", c->step);
   return 0;
-- 
2.43.0


From 8eaa9f738e32fe1c81a6892a5b54bbdf5a399680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:26:12 +0000
Subject: [PATCH 16/41] fix: explanations of TP-DKG cheating

Messages with an invalid length or session id, and all invalid messages
of step 20, were explained as an invalid code and named no peer. The
texts for a bad key-committing MAC and a failed decryption described
something else, the text for an invalid share index had its arguments
swapped, and unverifiable shares were reported as invalid messages.
---
 src/tp-dkg.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/tp-dkg.c b/src/tp-dkg.c
index 8b52b7b..c91cc80 100644
--- a/src/tp-dkg.c
+++ b/src/tp-dkg.c
@@ -1533,7 +1533,7 @@ static int tp_step20_handler(TP_DKG_TPState *ctx, const uint8_t *input, const si
     }
     int ret = recv_msg(ptr, tpdkg_msg19_SIZE, 20, i+1, 0, (*ctx->peer_sig_pks)[i], ctx->sessionid, ctx->ts_epsilon, &ctx->last_ts[i]);
     if(0!=ret) {
-      if(add_cheater(ctx, 20, 1+ret, i+1, 0) == NULL) return 4;
+      if(add_cheater(ctx, 20, 64+ret, i+1, 0) == NULL) return 4;
 
       memcpy(wptr,"NO",2);
       continue;
@@ -1697,7 +1697,7 @@ char* tpdkg_recv_err(const int code) {
 }
 
 uint8_t tpdkg_cheater_msg(const TP_DKG_Cheater *c, char *out, const size_t outlen) {
-  if(c->error>65 && c->error<=70) {
+  if(c->error>64 && c->error<=71) {
       snprintf(out, outlen, "step %d message from peer %d for peer %d could not be validated: %s",
                c->step, c->peer, c->other_peer, tpdkg_recv_err(c->error & 0x3f));
       return c->peer;
@@ -1716,26 +1716,26 @@ uint8_t tpdkg_cheater_msg(const TP_DKG_Cheater *c, char *out, const size_t outle
     snprintf(out,outlen, "invalid error code for step 16: %d", c->error);
     return 0;
   } else if(c->step==18) {
-    if(c->error & 16) {
+    if(c->error > 16 && c->error < 32) {
       snprintf(out, outlen, "message containing encrypted share from peer %d for peer %d could not be validated: %s",
                c->peer, c->other_peer, tpdkg_recv_err(c->error & 0xf));
       return c->peer;
-    } else if (c->error & 32) {
+    } else if (c->error > 32 && c->error < 64) {
       snprintf(out, outlen, "message revealing key encrypting share from peer %d for peer %d could not be validated: %s",
                c->peer, c->other_peer, tpdkg_recv_err(c->error & 0x1f));
       return c->peer;
     }
     switch(c->error) {
     case 3: {
-      snprintf(out,outlen, "accused peer %d revealed a key (for peer %d) that was not complained about", c->peer, c->other_peer);
+      snprintf(out,outlen, "verification of hmac of message from accused peer %d to complaining peer %d failed", c->peer, c->other_peer);
       return c->peer;
     }
     case 4: {
-      snprintf(out,outlen, "verification of hmac of message from accused peer %d to complaining peer %d failed", c->peer, c->other_peer);
+      snprintf(out,outlen, "decryption of share from accused peer %d to complaining peer %d failed", c->peer, c->other_peer);
       return c->peer;
     }
     case 5: {
-      snprintf(out,outlen, "accused peer %d sent an invalid share with index %d to complaining peer %d", c->peer, c->other_peer, c->invalid_index);
+      snprintf(out,outlen, "accused peer %d sent an invalid share with index %d to complaining peer %d", c->peer, c->invalid_index, c->other_peer);
       return c->peer;
     }
     case 6: {
-- 
2.43.0


From 5c51edb2b21cf6bb49a42a02520deaf8588f7062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:26:30 +0000
Subject: [PATCH 17/41] fix: name the peer whose long-term signature is invalid

The TP aborted without recording which peer failed to authenticate.
---
 src/tp-dkg.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/tp-dkg.c b/src/tp-dkg.c
index c91cc80..19a7b80 100644
--- a/src/tp-dkg.c
+++ b/src/tp-dkg.c
@@ -805,7 +805,10 @@ static int tp_step4_handler(TP_DKG_TPState *ctx, const uint8_t *msg2s, const siz
       dump(ptr, tpdkg_msg2_SIZE, "msg");
     }
 #if !defined(FUZZING_BUILD_MODE_UNSAFE_FOR_PRODUCTION)
-    if(0!=crypto_sign_verify_detached(ptr+tpdkg_msg2_SIZE,ptr,tpdkg_msg2_SIZE,(*ctx->peer_lt_pks)[i])) return 3;
+    if(0!=crypto_sign_verify_detached(ptr+tpdkg_msg2_SIZE,ptr,tpdkg_msg2_SIZE,(*ctx->peer_lt_pks)[i])) {
+      if(add_cheater(ctx, 4, 64+6, i+1, 0xff) == NULL) return 7;
+      continue;
+    }
 #endif
     int ret = recv_msg(ptr, tpdkg_msg2_SIZE, 2, i+1, 0xff, msg->data, ctx->sessionid, ctx->ts_epsilon, &ctx->last_ts[i]);
     if(0!=ret) {
-- 
2.43.0


From cba2b43af4271998afa46dfc2c354bdc08ce4942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:26:30 +0000
Subject: [PATCH 18/41] fix: end the TP-DKG when collecting complaints fails

The TP returned an error but moved on to the next step, so it reported
that it is not done and could even complete the session after having
recorded cheaters.
---
 src/tp-dkg.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tp-dkg.c b/src/tp-dkg.c
index 19a7b80..5035d6d 100644
--- a/src/tp-dkg.c
+++ b/src/tp-dkg.c
@@ -1637,6 +1637,10 @@ int tpdkg_tp_next(TP_DKG_TPState *ctx, const uint8_t *input, const size_t input_
   case 6: {
     ret = tp_step16_handler(ctx, input, input_len, output, output_len);
     ctx->prev = ctx->step;
+    if(ret!=0) {
+      ctx->step=99; // so that not_done reports done
+      return ret;
+    }
     if(ctx->complaints_len == 0) {
       // we skip over to step 21
       ctx->step++;
-- 
2.43.0


From 2540f505fdb45939dbfb3fbbf6d90a1f1768e49c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:26:30 +0000
Subject: [PATCH 19/41] fix: TP-DKG peers must not continue after complaints

A run with complaints never succeeds, but peers that are not accused
went on to send their transcript and wait for the approval of the
result. Peers that ended early also presented an uninitialised share;
clear it at the start.
---
 src/tp-dkg.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/tp-dkg.c b/src/tp-dkg.c
index 5035d6d..ffc029b 100644
--- a/src/tp-dkg.c
+++ b/src/tp-dkg.c
@@ -725,6 +725,9 @@ int tpdkg_start_peer(TP_DKG_PeerState *ctx, const uint64_t ts_epsilon,
   // feed msg0 into transcript
   update_transcript(&ctx->transcript, (uint8_t*) msg0, tpdkg_msg0_SIZE);
 
+  // only set when the protocol succeeds
+  memset(&ctx->share, 0, sizeof ctx->share);
+
   ctx->dev = NULL;
   ctx->step = 0;
 
@@ -1323,6 +1326,8 @@ static int peer_step17a_handler(TP_DKG_PeerState *ctx, const uint8_t *input, con
     if(log_file!=NULL) {
       fprintf(log_file,"[%d] nothing to defend against, no message to send\n", ctx->index);
     }
+    // there are complaints, so this run cannot succeed anymore
+    ctx->step=99;
     return 0;
   }
 
-- 
2.43.0


From 8fa528923f867b50792e72360740e527f935df41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:26:30 +0000
Subject: [PATCH 20/41] fix: initialise the noise session pointers of TP-DKG
 peers

tpdkg_peer_free frees all sessions that are not NULL, but nothing set
the pointers to NULL, so freeing a peer that failed early freed
arbitrary pointers.
---
 src/tp-dkg.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/tp-dkg.c b/src/tp-dkg.c
index ffc029b..f1bda8e 100644
--- a/src/tp-dkg.c
+++ b/src/tp-dkg.c
@@ -589,7 +589,12 @@ void tpdkg_peer_set_bufs(TP_DKG_PeerState *ctx,
   ctx->complaints = complaints;
   ctx->my_complaints = my_complaints;
   ctx->last_ts = last_ts;
-  for(uint8_t i=0;i<ctx->n;i++) ctx->last_ts[i]=0;
+  for(uint8_t i=0;i<ctx->n;i++) {
+    ctx->last_ts[i]=0;
+    // tpdkg_peer_free looks at these even if no session was created
+    (*ctx->noise_outs)[i]=NULL;
+    (*ctx->noise_ins)[i]=NULL;
+  }
 }
 
 int tpdkg_tp_not_done(const TP_DKG_TPState *tp) {
-- 
2.43.0


From 20fb4d9f08693c57fd26b41643e2c95b8fb8d5cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:58:56 +0000
Subject: [PATCH 21/41] fix: no arithmetic on a NULL message in
 tpdkg_tp_peer_msg

Two steps have no message for the peers. The bounds check still added to the
NULL pointer returned for them, which is undefined.
---
 src/tp-dkg.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tp-dkg.c b/src/tp-dkg.c
index f1bda8e..c16d38a 100644
--- a/src/tp-dkg.c
+++ b/src/tp-dkg.c
@@ -512,7 +512,7 @@ int tpdkg_tp_peer_msg(const TP_DKG_TPState *ctx, const uint8_t *base, const size
   }
   }
 
-  if(base+base_size < *msg + *len) {
+  if(*len>0 && base+base_size < *msg + *len) {
     if(log_file!=NULL) fprintf(log_file, "buffer overread detected in tpdkg_tp_peer_msg %ld\n", (base+base_size) - (*msg + *len));
     return 2;
   }
-- 
2.43.0


From eeac127c350471e15f35bfd0571eaebd5dbf06d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:00:11 +0000
Subject: [PATCH 22/41] fix: free the peers and the symmetric key of a noise
 device

Noise_XK_device_free only released the list of the peers, not the peers
themselves, and never the key for serialization. Every TP-DKG run leaked.
---
 src/noise_xk/src/XK.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/noise_xk/src/XK.c b/src/noise_xk/src/XK.c
index d928b67..6d0eea0 100644
--- a/src/noise_xk/src/XK.c
+++ b/src/noise_xk/src/XK.c
@@ -608,8 +608,12 @@ void Noise_XK_device_free(Noise_XK_device_t *dvp)
   if (!(str == NULL))
     KRML_HOST_FREE(str);
   KRML_HOST_FREE(dv.dv_info);
+  // also frees the data of the peers
+  while (!(*dv.dv_peers == NULL))
+    Noise_XK_device_remove_peer(dvp, (**dv.dv_peers).data->p_id);
   free__Impl_Noise_API_Device_raw_peer_p_or_null_raw_Impl_Noise_API_Device_raw_peer_t_raw_uint32_t_Impl_Noise_String_hstring__uint8_t____(dv.dv_peers);
   KRML_HOST_FREE(dv.dv_peers);
+  KRML_HOST_FREE(dv.dv_sk);
   KRML_HOST_FREE(dv.dv_spriv);
   KRML_HOST_FREE(dv.dv_spub);
   if (!(dv.dv_prologue.buffer == NULL))
-- 
2.43.0


From 008bb84ce99143d98963e1f2bde912fce5efea6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:30:05 +0000
Subject: [PATCH 23/41] fix: pass the shareholder indexes to coeff as bytes in
 Python

---
 python/pyoprf/__init__.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/python/pyoprf/__init__.py b/python/pyoprf/__init__.py
index bac9ce0..e9ec224 100755
--- a/python/pyoprf/__init__.py
+++ b/python/pyoprf/__init__.py
@@ -196,9 +196,12 @@ TOPRF_Part_BYTES=pysodium.crypto_core_ristretto255_BYTES+1
 # @param [out] result - the lagrange coefficient
 #void coeff(const int index, const int peers_len, const uint8_t peers[peers_len], uint8_t result[crypto_scalarmult_ristretto255_SCALARBYTES]);
 def coeff(index: int, peers: list) -> bytes:
-    if index < 1: raise ValueError("index must be positive integer")
-    if len(peers) < 2: ValueError("peers must be a list of at least 2 integers")
+    if index < 1 or index > 255: raise ValueError("index outside valid range")
+    if len(peers) < 2: raise ValueError("peers must be a list of at least 2 integers")
+    if(not all(i>0 and i<256 for i in peers)):
+        raise ValueError("peer(s) outside valid range")
     peers_len=ctypes.c_size_t(len(peers))
+    peers=bytes(peers)
     c = ctypes.create_string_buffer(pysodium.crypto_core_ristretto255_SCALARBYTES)
     liboprf.coeff(index, peers_len, peers, c)
     return c.raw
-- 
2.43.0


From 29b39d277720d85444e60e5c16c484592e304b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:30:30 +0000
Subject: [PATCH 24/41] fix: return the failing dealers from
 dkg_verify_commitments in Python

---
 python/pyoprf/__init__.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/python/pyoprf/__init__.py b/python/pyoprf/__init__.py
index e9ec224..5800e3f 100755
--- a/python/pyoprf/__init__.py
+++ b/python/pyoprf/__init__.py
@@ -416,9 +416,11 @@ def dkg_verify_commitments(n: int, t: int, self: int,
     shares = ctypes.create_string_buffer(shares)
     fails = ctypes.create_string_buffer(n)
     fails_len = ctypes.c_uint8()
-    __check(liboprf.dkg_verify_commitments(n, t, self,
-                                           commitments, shares,
-                                           fails, ctypes.byref(fails_len)))
+    ret = liboprf.dkg_verify_commitments(n, t, self,
+                                         commitments, shares,
+                                         fails, ctypes.byref(fails_len))
+    # failing peers are reported in fails, anything else is an error
+    if fails_len.value == 0: __check(ret)
     return fails[:fails_len.value]
 
 #void dkg_finish(const uint8_t n,
-- 
2.43.0


From 91afff22a72336b5f205836acd23fd5bd5a330b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:30:34 +0000
Subject: [PATCH 25/41] fix: refuse OPRF inputs of wrong type or length and too
 few responses in Python

---
 python/pyoprf/__init__.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/python/pyoprf/__init__.py b/python/pyoprf/__init__.py
index 5800e3f..7ab8b4a 100755
--- a/python/pyoprf/__init__.py
+++ b/python/pyoprf/__init__.py
@@ -79,6 +79,10 @@ def keygen() -> bytes:
 #               uint8_t r[crypto_core_ristretto255_SCALARBYTES],
 #               uint8_t blinded[crypto_core_ristretto255_BYTES]);
 def blind(x: bytes) -> (bytes, bytes):
+    if not isinstance(x, bytes):
+        raise ValueError("param x is not of type bytes")
+    if len(x) > (1<<16)-1:
+        raise ValueError("param x is too long")
     r =       ctypes.create_string_buffer(pysodium.crypto_core_ristretto255_SCALARBYTES)
     blinded = ctypes.create_string_buffer(pysodium.crypto_core_ristretto255_BYTES)
     __check(liboprf.oprf_Blind(x, ctypes.c_size_t(len(x)), r, blinded))
@@ -172,6 +176,10 @@ def finalize(x: bytes, N: bytes) -> bytes:
         raise ValueError("param N has incorrect length")
     if not isinstance(N, bytes):
         raise ValueError("param N is not of type bytes")
+    if not isinstance(x, bytes):
+        raise ValueError("param x is not of type bytes")
+    if len(x) > (1<<16)-1:
+        raise ValueError("param x is too long")
     y = ctypes.create_string_buffer(OPRF_BYTES)
     __check(liboprf.oprf_Finalize(x, ctypes.c_size_t(len(x)), N, y))
     return y.raw
@@ -257,7 +265,7 @@ def create_shares(secret: bytes, n: int, t: int) -> bytes_list_t:
 #                        const uint8_t responses[response_len][TOPRF_Part_BYTES],
 #                        uint8_t result[crypto_scalarmult_ristretto255_BYTES]);
 def thresholdmult(responses: bytes_list_t) -> bytes:
-    if len(responses) < 2: ValueError("responses must be a list of at least 2 integers")
+    if len(responses) < 2: raise ValueError("responses must be a list of at least 2 integers")
     if not all(isinstance(r,bytes) for r in responses):
         raise ValueError("at least one of the responses is not of type bytes")
     if not all(len(r)==TOPRF_Part_BYTES for r in responses):
@@ -332,7 +340,7 @@ def threshold_evaluate(k: bytes, blinded: bytes, self: int, indexes: list) -> by
 #                            const uint8_t _responses[response_len][TOPRF_Part_BYTES],
 #                            uint8_t result[crypto_scalarmult_ristretto255_BYTES]);
 def threshold_combine(responses: bytes_list_t) -> bytes:
-    if len(responses) < 2: ValueError("responses must be a list of at least 2 integers")
+    if len(responses) < 2: raise ValueError("responses must be a list of at least 2 integers")
     if not all(isinstance(r,bytes) for r in responses):
         raise ValueError("at least one of the responses is not of type bytes")
     if not all(len(r)==TOPRF_Part_BYTES for r in responses):
-- 
2.43.0


From d0c1ed086cc1d4949886a402323a6a5563b010b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:30:39 +0000
Subject: [PATCH 26/41] fix: check the number and sizes of shares in Python

---
 python/pyoprf/__init__.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/python/pyoprf/__init__.py b/python/pyoprf/__init__.py
index 7ab8b4a..28f1ccb 100755
--- a/python/pyoprf/__init__.py
+++ b/python/pyoprf/__init__.py
@@ -241,6 +241,8 @@ def create_shares(secret: bytes, n: int, t: int) -> bytes_list_t:
         raise ValueError("t cannot be bigger than n")
     if t < 2:
         raise ValueError("t must be bigger than 1")
+    if n > 255:
+        raise ValueError("n cannot be bigger than 255")
     shares = ctypes.create_string_buffer(n*TOPRF_Share_BYTES)
     __check(liboprf.toprf_create_shares(secret, n, t, shares))
     return tuple([bytes(s) for s in split_by_n(shares.raw, TOPRF_Share_BYTES)])
@@ -318,6 +320,8 @@ def threshold_evaluate(k: bytes, blinded: bytes, self: int, indexes: list) -> by
         raise ValueError("self outside valid range")
     if(not all(i>0 and i<256 for i in indexes)):
         raise ValueError("index(es) outside valid range")
+    if len(indexes) > 255:
+        raise ValueError("too many indexes")
     index_len=ctypes.c_uint16(len(indexes))
 
     indexes_buf=ctypes.create_string_buffer(bytes(indexes))
@@ -391,6 +395,8 @@ def dkg_start(n : int, t : int) -> (bytes, bytes, bytes_list_t):
         raise ValueError("t cannot be bigger than n")
     if t < 2:
         raise ValueError("t must be bigger than 1")
+    if n > 255:
+        raise ValueError("n cannot be bigger than 255")
     shares = ctypes.create_string_buffer(n*TOPRF_Share_BYTES)
     commitments = ctypes.create_string_buffer(t*pysodium.crypto_core_ristretto255_BYTES)
 
@@ -413,10 +419,16 @@ def dkg_verify_commitments(n: int, t: int, self: int,
         raise ValueError("t cannot be bigger than n")
     if t < 2:
         raise ValueError("t must be bigger than 1")
+    if n > 255:
+        raise ValueError("n cannot be bigger than 255")
     if self < 1 or self > n:
         raise ValueError("self must 1 <= self <= n")
+    if not isinstance(commitments, bytes):
+        raise ValueError("commitments is not of type bytes")
     if len(commitments) != n*t*pysodium.crypto_core_ristretto255_BYTES:
         raise ValueError(f"signed_commitments must be {n*t*pysodium.crypto_core_ristretto255_BYTES} bytes is instead: {len(commitments)}")
+    if not all(len(s)==TOPRF_Share_BYTES for s in shares):
+        raise ValueError("at least one of the shares is not of correct size")
     shares = b''.join(shares)
     if len(shares) != n*TOPRF_Share_BYTES:
         raise ValueError(f"shares must be {TOPRF_Share_BYTES*n} bytes is instead {len(shares)}")
@@ -436,8 +448,12 @@ def dkg_verify_commitments(n: int, t: int, self: int,
 #                const uint8_t self,
 #                TOPRF_Share *xi);
 def dkg_finish(n: int, shares: List[bytes], self: int, ) -> bytes:
+    if n > 255:
+        raise ValueError("n cannot be bigger than 255")
     if self < 1 or self > n:
         raise ValueError("self must 1 <= self <= n")
+    if not all(len(s)==TOPRF_Share_BYTES for s in shares):
+        raise ValueError("at least one of the shares is not of correct size")
     shares = b''.join(shares)
     if len(shares) != n*TOPRF_Share_BYTES:
         raise ValueError(f"shares must be {TOPRF_Share_BYTES*n} bytes is instead {len(shares)}")
@@ -455,6 +471,10 @@ def dkg_finish(n: int, shares: List[bytes], self: int, ) -> bytes:
 #                     uint8_t result[crypto_scalarmult_ristretto255_BYTES]);
 def dkg_reconstruct(responses) -> bytes_list_t:
     rlen = len(responses)
+    if rlen < 2 or rlen > 255:
+        raise ValueError("responses must be a list of 2 to 255 shares")
+    if not all(len(r)==TOPRF_Share_BYTES for r in responses):
+        raise ValueError("at least one of the responses is not of correct size")
     responses = ctypes.create_string_buffer(b''.join(responses))
     result = ctypes.create_string_buffer(pysodium.crypto_core_ristretto255_BYTES)
 
-- 
2.43.0


From 9e306b0defdc7d5ae2be4509ec3d20f4f429fc1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:31:06 +0000
Subject: [PATCH 27/41] fix: pass the protocol name to the TP-DKG as UTF-8 in
 Python

---
 python/pyoprf/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/pyoprf/__init__.py b/python/pyoprf/__init__.py
index 28f1ccb..842e734 100755
--- a/python/pyoprf/__init__.py
+++ b/python/pyoprf/__init__.py
@@ -572,6 +572,9 @@ class TP_DKG_TPState(ctypes.Structure):
 #                  uint8_t (*peer_lt_pks)[][crypto_sign_PUBLICKEYBYTES],
 #                  uint64_t (*last_ts)[]);
 def tpdkg_start_tp(n, t, ts_epsilon, proto_name, peer_lt_pks):
+    if isinstance(proto_name, str): proto_name = proto_name.encode('utf8')
+    if not isinstance(proto_name, bytes):
+        raise ValueError("proto_name is neither of type str nor bytes")
     #state = TP_DKG_TPState()
     ## force 32 byte alignment of state
     #while ctypes.addressof(state) % 32 != 0:
-- 
2.43.0


From a727a2fff01f57a87c28e47b2709d1d1a04ac942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:31:11 +0000
Subject: [PATCH 28/41] fix: check the parameters of the TP-DKG in Python

---
 python/pyoprf/__init__.py | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/python/pyoprf/__init__.py b/python/pyoprf/__init__.py
index 842e734..09965fb 100755
--- a/python/pyoprf/__init__.py
+++ b/python/pyoprf/__init__.py
@@ -575,6 +575,14 @@ def tpdkg_start_tp(n, t, ts_epsilon, proto_name, peer_lt_pks):
     if isinstance(proto_name, str): proto_name = proto_name.encode('utf8')
     if not isinstance(proto_name, bytes):
         raise ValueError("proto_name is neither of type str nor bytes")
+    if n < 2 or n > 128 or t < 2 or t >= n:
+        raise ValueError("n and t outside valid range")
+    if ts_epsilon < 0 or ts_epsilon >= 1<<64:
+        raise ValueError("ts_epsilon outside valid range")
+    if len(peer_lt_pks) != n:
+        raise ValueError("peer_lt_pks must contain n keys")
+    if not all(isinstance(pk,bytes) and len(pk)==pysodium.crypto_sign_PUBLICKEYBYTES for pk in peer_lt_pks):
+        raise ValueError("at least one of the long-term keys is not of correct type or size")
     #state = TP_DKG_TPState()
     ## force 32 byte alignment of state
     #while ctypes.addressof(state) % 32 != 0:
@@ -588,7 +596,7 @@ def tpdkg_start_tp(n, t, ts_epsilon, proto_name, peer_lt_pks):
       raise ValueError("cannot align at 32bytes the TP_DKG_PeerState struct")
 
     msg = ctypes.create_string_buffer(tpdkg_msg0_SIZE)
-    __check(liboprf.tpdkg_start_tp(ctypes.byref(state), ts_epsilon, n, t, proto_name, ctypes.c_size_t(len(proto_name)), ctypes.c_size_t(len(msg.raw)), msg))
+    __check(liboprf.tpdkg_start_tp(ctypes.byref(state), ctypes.c_uint64(ts_epsilon), n, t, proto_name, ctypes.c_size_t(len(proto_name)), ctypes.c_size_t(len(msg.raw)), msg))
 
     peers_sig_pks = ctypes.create_string_buffer(n*pysodium.crypto_sign_PUBLICKEYBYTES)
     commitments = ctypes.create_string_buffer(n*t*pysodium.crypto_core_ristretto255_BYTES)
@@ -632,6 +640,7 @@ def tpdkg_tp_output_size(ctx):
 def tpdkg_tp_next(ctx, msg):
     input_len = tpdkg_tp_input_size(ctx)
     if len(msg) != input_len: raise ValueError(f"input msg is invalid size: {len(msg)}B must be: {input_len}B")
+    if input_len > 0 and not isinstance(msg, bytes): raise ValueError("input msg is not of type bytes")
     output_len = tpdkg_tp_output_size(ctx)
     output = ctypes.create_string_buffer(output_len)
     __check(liboprf.tpdkg_tp_next(ctypes.byref(ctx[0]), msg, input_len, output, output_len))
@@ -639,6 +648,8 @@ def tpdkg_tp_next(ctx, msg):
 
 #int tpdkg_tp_peer_msg(const TP_DKG_TPState *ctx, const uint8_t *base, const size_t base_size, const uint8_t peer, const uint8_t **msg, size_t *len);
 def tpdkg_tp_peer_msg(ctx, base, peer):
+    if peer < 0 or peer >= ctx[0].n:
+        raise ValueError("peer outside valid range")
     msg = ctypes.POINTER(ctypes.c_char)()
     size = ctypes.c_size_t()
     __check(liboprf.tpdkg_tp_peer_msg(ctypes.byref(ctx[0]), base, len(base.raw), peer, ctypes.byref(msg), ctypes.byref(size)))
@@ -679,6 +690,12 @@ def tpdkg_get_cheaters(ctx):
 #                         uint16_t (*complaints)[],
 #                         uint8_t (*my_complaints)[]);
 def tpdkg_peer_start(ts_epsilon, peer_lt_sk, msg0):
+    if ts_epsilon < 0 or ts_epsilon >= 1<<64:
+        raise ValueError("ts_epsilon outside valid range")
+    if not isinstance(peer_lt_sk, bytes) or len(peer_lt_sk) != pysodium.crypto_sign_SECRETKEYBYTES:
+        raise ValueError("peer_lt_sk is not of correct type or size")
+    if not isinstance(msg0, bytes) or len(msg0) != tpdkg_msg0_SIZE:
+        raise ValueError("msg0 is not of correct type or size")
     #state = TP_DKG_PeerState()
     # force 32 byte alignment of state
     #while ctypes.addressof(state) % 32 != 0:
@@ -691,7 +708,7 @@ def tpdkg_peer_start(ts_epsilon, peer_lt_sk, msg0):
     if ctypes.addressof(state) % 32 != 0:
       raise ValueError("cannot align at 32bytes the TP_DKG_PeerState struct")
 
-    __check(liboprf.tpdkg_start_peer(ctypes.byref(state), ts_epsilon, peer_lt_sk, msg0))
+    __check(liboprf.tpdkg_start_peer(ctypes.byref(state), ctypes.c_uint64(ts_epsilon), peer_lt_sk, msg0))
 
     peers_sig_pks = ctypes.create_string_buffer(b"peer_sig_pks", state.n * pysodium.crypto_sign_PUBLICKEYBYTES)
     peers_noise_pks = ctypes.create_string_buffer(b"peer_noise_pks", state.n * pysodium.crypto_scalarmult_BYTES)
@@ -731,6 +748,7 @@ def tpdkg_peer_output_size(ctx):
 def tpdkg_peer_next(ctx, msg):
     input_len = tpdkg_peer_input_size(ctx)
     if len(msg) != input_len: raise ValueError(f"input msg is invalid size: {len(msg)}B must be: {input_len}B")
+    if input_len > 0 and not isinstance(msg, bytes): raise ValueError("input msg is not of type bytes")
     output_len = tpdkg_peer_output_size(ctx)
     output = ctypes.create_string_buffer(output_len)
     __check(liboprf.tpdkg_peer_next(ctypes.byref(ctx[0]), msg, input_len, output, output_len))
-- 
2.43.0


From c65edc5a300a6e13d01509d41abe1eb064837caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:31:16 +0000
Subject: [PATCH 29/41] fix: align the TP-DKG states at 64 bytes in Python

---
 python/pyoprf/__init__.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/python/pyoprf/__init__.py b/python/pyoprf/__init__.py
index 09965fb..85a4c37 100755
--- a/python/pyoprf/__init__.py
+++ b/python/pyoprf/__init__.py
@@ -587,13 +587,13 @@ def tpdkg_start_tp(n, t, ts_epsilon, proto_name, peer_lt_pks):
     ## force 32 byte alignment of state
     #while ctypes.addressof(state) % 32 != 0:
     #  state = TP_DKG_TPState()
-    b = ctypes.create_string_buffer(ctypes.sizeof(TP_DKG_TPState)+32)
+    b = ctypes.create_string_buffer(ctypes.sizeof(TP_DKG_TPState)+64)
     b_addr = ctypes.addressof(b)
-    s_addr = b_addr + (b_addr % 32)
+    s_addr = b_addr + (-b_addr % 64)
     s_p = ctypes.c_void_p(s_addr)
     state = ctypes.cast(s_p, ctypes.POINTER(TP_DKG_TPState)).contents
-    if ctypes.addressof(state) % 32 != 0:
-      raise ValueError("cannot align at 32bytes the TP_DKG_PeerState struct")
+    if ctypes.addressof(state) % 64 != 0:
+      raise ValueError("cannot align at 64bytes the TP_DKG_PeerState struct")
 
     msg = ctypes.create_string_buffer(tpdkg_msg0_SIZE)
     __check(liboprf.tpdkg_start_tp(ctypes.byref(state), ctypes.c_uint64(ts_epsilon), n, t, proto_name, ctypes.c_size_t(len(proto_name)), ctypes.c_size_t(len(msg.raw)), msg))
@@ -700,13 +700,13 @@ def tpdkg_peer_start(ts_epsilon, peer_lt_sk, msg0):
     # force 32 byte alignment of state
     #while ctypes.addressof(state) % 32 != 0:
     #  state = TP_DKG_PeerState()
-    b = ctypes.create_string_buffer(ctypes.sizeof(TP_DKG_PeerState)+32)
+    b = ctypes.create_string_buffer(ctypes.sizeof(TP_DKG_PeerState)+64)
     b_addr = ctypes.addressof(b)
-    s_addr = b_addr + (b_addr % 32)
+    s_addr = b_addr + (-b_addr % 64)
     s_p = ctypes.c_void_p(s_addr)
     state = ctypes.cast(s_p, ctypes.POINTER(TP_DKG_PeerState)).contents
-    if ctypes.addressof(state) % 32 != 0:
-      raise ValueError("cannot align at 32bytes the TP_DKG_PeerState struct")
+    if ctypes.addressof(state) % 64 != 0:
+      raise ValueError("cannot align at 64bytes the TP_DKG_PeerState struct")
 
     __check(liboprf.tpdkg_start_peer(ctypes.byref(state), ctypes.c_uint64(ts_epsilon), peer_lt_sk, msg0))
 
-- 
2.43.0


From 5cc9a0f297b2e8c0a757f9f3f60b0307f4a182d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:32:11 +0000
Subject: [PATCH 30/41] fix: check keys, names and peers of the Noise module in
 Python

---
 python/pyoprf/noisexk.py | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/python/pyoprf/noisexk.py b/python/pyoprf/noisexk.py
index b080a9d..727be1f 100755
--- a/python/pyoprf/noisexk.py
+++ b/python/pyoprf/noisexk.py
@@ -47,24 +47,35 @@ def __check(code):
     if code != 0:
         raise ValueError
 
+# names and prologues are C strings
+def __bytes(s):
+    return s.encode('utf8') if isinstance(s, str) else s
+
+def __key(key):
+    if not isinstance(key, bytes) or len(key) != KEYSIZE:
+        raise ValueError("key is not of correct type or size")
+    return key
+
 lib.Noise_XK_device_add_peer.restype = c_void_p
 lib.Noise_XK_device_add_peer.argtypes = [c_void_p, c_void_p, ctypes.c_char_p]
 def add_peer(device, name, key):
-    return lib.Noise_XK_device_add_peer(device, name, key)
+    return lib.Noise_XK_device_add_peer(device, __bytes(name), __key(key))
 
 def pubkey(privkey):
     pubkey = ctypes.create_string_buffer(KEYSIZE)
-    lib.Noise_XK_dh_secret_to_public(pubkey, privkey)
+    lib.Noise_XK_dh_secret_to_public(pubkey, __key(privkey))
     return pubkey.raw
 
 lib.Noise_XK_device_create.restype = c_void_p
 def create_device(prologue, name, privkey):
     srlz_key = b'\x00'*KEYSIZE
-    return lib.Noise_XK_device_create(len(prologue), prologue, name, srlz_key, privkey)
+    prologue = __bytes(prologue)
+    return lib.Noise_XK_device_create(len(prologue), prologue, __bytes(name), srlz_key, __key(privkey))
 
 lib.Noise_XK_peer_get_id.restype = c_void_p
 lib.Noise_XK_peer_get_id.argtypes = [c_void_p]
 def get_peerid(peer):
+    if not peer: raise ValueError("no such peer")
     return lib.Noise_XK_peer_get_id(peer)
 
 lib.Noise_XK_session_create_initiator.restype = c_void_p
@@ -77,14 +88,14 @@ lib.Noise_XK_session_create_initiator.restype = c_void_p
 lib.Noise_XK_session_create_initiator.argtypes = [c_void_p, c_void_p]
 def create_session_initiator(device, peerid):
     res = lib.Noise_XK_session_create_initiator(device, peerid)
-    if res == 0: raise ValueError
+    if not res: raise ValueError
     return res
 
 lib.Noise_XK_session_create_responder.restype = c_void_p
 lib.Noise_XK_session_create_responder.argtypes = [c_void_p]
 def create_session_responder(device):
     res = lib.Noise_XK_session_create_responder(device)
-    if res == 0: raise ValueError
+    if not res: raise ValueError
     return res
 
 lib.Noise_XK_pack_message_with_conf_level.restype = c_void_p
@@ -172,6 +183,7 @@ lib.Noise_XK_peer_get_static.argtypes = [(c_char * 32), c_void_p]
 def get_pubkey(session, device):
     peerid = lib.Noise_XK_session_get_peer_id(session)
     peer = lib.Noise_XK_device_lookup_peer_by_id(device, peerid);
+    if not peer: raise ValueError("no such peer")
     pubkey = ctypes.create_string_buffer(KEYSIZE)
     lib.Noise_XK_peer_get_static(pubkey, peer);
     return pubkey.raw
-- 
2.43.0


From 0327dbf4b2aa524eda16c28db249329f8f121c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:32:35 +0000
Subject: [PATCH 31/41] fix: declare what the Noise functions return in Python

---
 python/pyoprf/noisexk.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/python/pyoprf/noisexk.py b/python/pyoprf/noisexk.py
index 727be1f..5726313 100755
--- a/python/pyoprf/noisexk.py
+++ b/python/pyoprf/noisexk.py
@@ -98,14 +98,19 @@ def create_session_responder(device):
     if not res: raise ValueError
     return res
 
+class rcode(ctypes.Structure):
+    _fields_ = [('tag', c_ubyte),
+                ('error', c_ubyte)]
+
 lib.Noise_XK_pack_message_with_conf_level.restype = c_void_p
+lib.Noise_XK_session_write.restype = rcode
 lib.Noise_XK_session_write.argtypes = [c_void_p, c_void_p, POINTER(c_uint32), POINTER(POINTER(c_ubyte))]
 lib.Noise_XK_encap_message_p_free.argtypes = [c_void_p]
 def initiator_1st_msg(session):
     encap_msg = lib.Noise_XK_pack_message_with_conf_level(0, 0, 0);
     msg_len = c_uint32()
     msg = POINTER(c_ubyte)()
-    if 0!=lib.Noise_XK_session_write(encap_msg, session, byref(msg_len), byref(msg)):
+    if 0!=lib.Noise_XK_session_write(encap_msg, session, byref(msg_len), byref(msg)).tag:
         raise ValueError
     lib.Noise_XK_encap_message_p_free(encap_msg)
     res = bytes(msg[i] for i in range(msg_len.value))
@@ -114,13 +119,15 @@ def initiator_1st_msg(session):
     return res
 
 # Noise_XK_session_read(&encap_msg, bob_session, cipher_msg_len, cipher_msg);
+lib.Noise_XK_session_read.restype = rcode
 lib.Noise_XK_session_read.argtypes = [POINTER(c_void_p), c_void_p, c_uint32, POINTER(c_ubyte)]
+lib.Noise_XK_unpack_message_with_auth_level.restype = ctypes.c_bool
 # Noise_XK_unpack_message_with_auth_level(&plain_msg_len, &plain_msg, NOISE_XK_AUTH_ZERO, encap_msg),
 def responder_1st_msg(session, msg):
     encap_msg = c_void_p()
     msg = (c_ubyte * len(msg)).from_buffer(bytearray(msg))
     msg_len = c_uint32(len(msg))
-    if 0 != lib.Noise_XK_session_read(byref(encap_msg), session, msg_len, msg):
+    if 0 != lib.Noise_XK_session_read(byref(encap_msg), session, msg_len, msg).tag:
         raise ValueError
     plain_msg_len = c_uint32()
     plain_msg = POINTER(c_ubyte)()
@@ -135,7 +142,7 @@ def initiator_handshake_finish(session, msg):
     encap_msg = c_void_p()
     msg = (c_ubyte * len(msg)).from_buffer(bytearray(msg))
     msg_len = c_uint32(len(msg))
-    if 0 != lib.Noise_XK_session_read(byref(encap_msg), session, msg_len, msg):
+    if 0 != lib.Noise_XK_session_read(byref(encap_msg), session, msg_len, msg).tag:
         raise ValueError
     plain_msg_len = c_uint32()
     plain_msg = POINTER(c_ubyte)()
@@ -150,7 +157,7 @@ def send_msg(session, msg):
     encap_msg = lib.Noise_XK_pack_message_with_conf_level(NOISE_XK_CONF_STRONG_FORWARD_SECRECY, len(msg), msg);
     ct_len = c_uint32()
     ct = POINTER(c_ubyte)()
-    if 0!=lib.Noise_XK_session_write(encap_msg, session, byref(ct_len), byref(ct)):
+    if 0!=lib.Noise_XK_session_write(encap_msg, session, byref(ct_len), byref(ct)).tag:
         raise ValueError
     lib.Noise_XK_encap_message_p_free(encap_msg)
     res = bytes(ct[:ct_len.value])
@@ -162,7 +169,7 @@ def read_msg(session, msg):
     encap_msg = c_void_p()
     u_bytes = (c_ubyte * (len(msg)))()
     u_bytes[:] = msg
-    if 0 != lib.Noise_XK_session_read(byref(encap_msg), session, len(msg), u_bytes):
+    if 0 != lib.Noise_XK_session_read(byref(encap_msg), session, len(msg), u_bytes).tag:
         raise ValueError
     plain_msg_len = c_uint32()
     plain_msg = POINTER(c_ubyte)()
-- 
2.43.0


From 48452a272acc1066d2b78726531c24a4fc62a938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:33:44 +0000
Subject: [PATCH 32/41] fix: support plain TCP peers in the multiplexer

---
 python/pyoprf/multiplexer.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/python/pyoprf/multiplexer.py b/python/pyoprf/multiplexer.py
index e163af3..5743622 100755
--- a/python/pyoprf/multiplexer.py
+++ b/python/pyoprf/multiplexer.py
@@ -39,6 +39,8 @@ class Peer:
         s.settimeout(self.timeout)
         if self.type == "SSL":
             self.fd = ctx.wrap_socket(s, server_hostname=self.address[0])
+        else:
+            self.fd = s
         self.fd.connect(self.address)
         self.state="connected"
 
@@ -57,6 +59,10 @@ class Peer:
             #raise ValueError(f"short read for {self.name}, only {len(b''.join(res))} instead of expected {size} bytes")
         return b''.join(res)
 
+    def pending(self):
+        # plain sockets have no buffer of their own
+        return self.fd.pending() if self.type == "SSL" else 0
+
     def send(self, msg):
         self.fd.sendall(msg)
 
@@ -111,7 +117,7 @@ class Multiplexer:
            n=len(self.peers)
        responses={}
        for idx, peer in enumerate(self.peers):
-           pending = peer.fd.pending()
+           pending = peer.pending()
            if pending == expectedmsglen:
                pkt = peer.read(expectedmsglen)
                if debug: print(f"{idx} got pending {len(pkt)}")
-- 
2.43.0


From e9448bc521494d7d7259f4fd6834478b28c771b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:33:48 +0000
Subject: [PATCH 33/41] fix: gather messages that are already buffered by TLS

---
 python/pyoprf/multiplexer.py | 17 +++--------------
 1 file changed, 3 insertions(+), 14 deletions(-)

diff --git a/python/pyoprf/multiplexer.py b/python/pyoprf/multiplexer.py
index 5743622..75ccd72 100755
--- a/python/pyoprf/multiplexer.py
+++ b/python/pyoprf/multiplexer.py
@@ -116,24 +116,13 @@ class Multiplexer:
        if n is None:
            n=len(self.peers)
        responses={}
-       for idx, peer in enumerate(self.peers):
-           pending = peer.pending()
-           if pending == expectedmsglen:
-               pkt = peer.read(expectedmsglen)
-               if debug: print(f"{idx} got pending {len(pkt)}")
-               if pkt == b'\x00\x04fail':
-                   responses[idx]=None
-                   continue
-               responses[idx]=pkt if not proc else proc(pkt)
-           #if peer.fd.fileno() < 0:
-           #  print(f"{peer} has negative fileno: {peer.fd.fileno()}")
-           #elif pending != 0:
-           #    print(f"wtf peer {peer.name} has {peer.fd.pending()} bytes pending, which is not equ {expectedmsglen}")
        while len(responses)<n:
           fds={x.fd.fileno(): (i, x) for i,x in enumerate(self.peers) if i not in responses and x.fd.fileno() >= 0}
           if not fds: raise ValueError("not enough peers left to get enough results")
           #print("select")
-          r, _,_ =select.select(fds.keys(),[],[],2)
+          # data already decrypted by TLS does not show up in select
+          r = [fd for fd, (_, x) in fds.items() if x.pending() > 0]
+          if not r: r, _,_ =select.select(fds.keys(),[],[],2)
           #print("select done")
           if not r: continue
           #print("got r")
-- 
2.43.0


From c0aa6c15e77aa3694b3a65ce6eb4f5be5a28007d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:33:53 +0000
Subject: [PATCH 34/41] fix: never gather an incomplete message

---
 python/pyoprf/multiplexer.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/python/pyoprf/multiplexer.py b/python/pyoprf/multiplexer.py
index 75ccd72..5d9fe55 100755
--- a/python/pyoprf/multiplexer.py
+++ b/python/pyoprf/multiplexer.py
@@ -51,7 +51,8 @@ class Peer:
         res = []
         read = 0
         while read<size and (len(res)==0 or len(res[-1])!=0):
-          res.append(self.fd.recv(size-read))
+          try: res.append(self.fd.recv(size-read))
+          except OSError: res.append(b'')
           read+=len(res[-1])
 
         if len(res[-1])==0 and read<size:
@@ -117,7 +118,7 @@ class Multiplexer:
            n=len(self.peers)
        responses={}
        while len(responses)<n:
-          fds={x.fd.fileno(): (i, x) for i,x in enumerate(self.peers) if i not in responses and x.fd.fileno() >= 0}
+          fds={x.fd.fileno(): (i, x) for i,x in enumerate(self.peers) if i not in responses and x.state == "connected" and x.fd.fileno() >= 0}
           if not fds: raise ValueError("not enough peers left to get enough results")
           #print("select")
           # data already decrypted by TLS does not show up in select
@@ -135,6 +136,7 @@ class Multiplexer:
              if pkt == b'\x00\x04fail':
                  responses[idx]=None
                  continue
+             if len(pkt) != expectedmsglen: continue # lost the connection
              if debug: print(f"{idx} got response of {len(pkt)}")
              tmp = pkt if not proc else proc(pkt)
              if tmp is None: continue
-- 
2.43.0


From bb7977a8503ec15e863f4462c8b3caa12c43ada1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:34:08 +0000
Subject: [PATCH 35/41] fix: give up gathering when too few peers are left

---
 python/pyoprf/multiplexer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/pyoprf/multiplexer.py b/python/pyoprf/multiplexer.py
index 5d9fe55..d3d76f5 100755
--- a/python/pyoprf/multiplexer.py
+++ b/python/pyoprf/multiplexer.py
@@ -119,7 +119,7 @@ class Multiplexer:
        responses={}
        while len(responses)<n:
           fds={x.fd.fileno(): (i, x) for i,x in enumerate(self.peers) if i not in responses and x.state == "connected" and x.fd.fileno() >= 0}
-          if not fds: raise ValueError("not enough peers left to get enough results")
+          if len(responses)+len(fds) < n: raise ValueError("not enough peers left to get enough results")
           #print("select")
           # data already decrypted by TLS does not show up in select
           r = [fd for fd, (_, x) in fds.items() if x.pending() > 0]
-- 
2.43.0


From 06bab273a07ae8efa42f94cb89cf5528d99f0344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:11:02 +0000
Subject: [PATCH 36/41] fix: close the connection when connecting a peer of the
 multiplexer fails, so nothing is sent in clear after a failed TLS handshake

---
 python/pyoprf/multiplexer.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/python/pyoprf/multiplexer.py b/python/pyoprf/multiplexer.py
index d3d76f5..5cd5b50 100755
--- a/python/pyoprf/multiplexer.py
+++ b/python/pyoprf/multiplexer.py
@@ -41,7 +41,11 @@ class Peer:
             self.fd = ctx.wrap_socket(s, server_hostname=self.address[0])
         else:
             self.fd = s
-        self.fd.connect(self.address)
+        try: self.fd.connect(self.address)
+        except:
+            # after a failed handshake the ssl module sends in clear
+            self.fd.close()
+            raise
         self.state="connected"
 
     def read(self,size):
-- 
2.43.0


From 8c3d55bd552b4c0890926da5954fc17542f93c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:38:43 +0000
Subject: [PATCH 37/41] fix: wipe the polynomial from the stack after
 toprf_create_shares

---
 src/toprf.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/toprf.c b/src/toprf.c
index fadc475..515edf7 100644
--- a/src/toprf.c
+++ b/src/toprf.c
@@ -106,8 +106,10 @@ int toprf_create_shares(const uint8_t secret[crypto_core_ristretto255_SCALARBYTE
         crypto_core_ristretto255_scalar_mul(tmp, tmp, x);
       }
       crypto_core_ristretto255_scalar_add(shares[i-1].value, shares[i-1].value, tmp);
+      sodium_memzero(tmp, sizeof tmp);
     }
   }
+  sodium_memzero(a, sizeof a);
   return 0;
 }
 
-- 
2.43.0


From dabfead86323c62cc22ae20e0563831147dcf0ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:38:51 +0000
Subject: [PATCH 38/41] fix: wipe the terms of the polynomial from the stack in
 dkg_start

---
 src/dkg.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/dkg.c b/src/dkg.c
index 97a9e48..cf3dbf0 100644
--- a/src/dkg.c
+++ b/src/dkg.c
@@ -55,6 +55,7 @@ static void polynom(const uint8_t j, const uint8_t threshold,
     crypto_core_ristretto255_scalar_mul(tmp, a[t], tmp);
     // add into result
     crypto_core_ristretto255_scalar_add(result->value, result->value, tmp);
+    sodium_memzero(tmp, sizeof tmp);
   }
 }
 
-- 
2.43.0


From 71c585bdaaff63263ff4098ffc44041a9fcc1957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:29:14 +0000
Subject: [PATCH 39/41] fix: do not name a peer 0 as cheater in Python

---
 python/pyoprf/__init__.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/python/pyoprf/__init__.py b/python/pyoprf/__init__.py
index 85a4c37..d580bc6 100755
--- a/python/pyoprf/__init__.py
+++ b/python/pyoprf/__init__.py
@@ -666,10 +666,8 @@ def tpdkg_get_cheaters(ctx):
     for i in range(ctx[0].cheater_len):
         err = ctypes.create_string_buffer(tpdkg_max_err_SIZE)
         p = liboprf.tpdkg_cheater_msg(ctypes.byref(ctx[1][i]), err, tpdkg_max_err_SIZE)
-        if 0 >= p > ctx[0].n:
-            print(f"invalid cheater index: {p}, skipping this entry")
-            continue
-        cheaters.add(p)
+        # some reasons are not about a particular peer
+        if 0 < p <= ctx[0].n: cheaters.add(p)
         cheats.append((p, err.raw[:err.raw.find(b'\x00')].decode('utf8')))
     return cheaters, cheats
 
-- 
2.43.0


From e6b326726749bcf1d4b4a7ed66c276ec66440dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:46:04 +0000
Subject: [PATCH 40/41] fix: free messages that are refused in the Noise
 binding

---
 python/pyoprf/noisexk.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/python/pyoprf/noisexk.py b/python/pyoprf/noisexk.py
index 5726313..6154152 100755
--- a/python/pyoprf/noisexk.py
+++ b/python/pyoprf/noisexk.py
@@ -111,6 +111,7 @@ def initiator_1st_msg(session):
     msg_len = c_uint32()
     msg = POINTER(c_ubyte)()
     if 0!=lib.Noise_XK_session_write(encap_msg, session, byref(msg_len), byref(msg)).tag:
+        lib.Noise_XK_encap_message_p_free(encap_msg)
         raise ValueError
     lib.Noise_XK_encap_message_p_free(encap_msg)
     res = bytes(msg[i] for i in range(msg_len.value))
@@ -132,6 +133,7 @@ def responder_1st_msg(session, msg):
     plain_msg_len = c_uint32()
     plain_msg = POINTER(c_ubyte)()
     if not lib.Noise_XK_unpack_message_with_auth_level(byref(plain_msg_len), byref(plain_msg), 0, encap_msg):
+        lib.Noise_XK_encap_message_p_free(encap_msg)
         raise ValueError
     lib.Noise_XK_encap_message_p_free(encap_msg)
     if plain_msg_len.value > 0:
@@ -147,6 +149,7 @@ def initiator_handshake_finish(session, msg):
     plain_msg_len = c_uint32()
     plain_msg = POINTER(c_ubyte)()
     if not lib.Noise_XK_unpack_message_with_auth_level(byref(plain_msg_len), byref(plain_msg), 0, encap_msg):
+        lib.Noise_XK_encap_message_p_free(encap_msg)
         raise ValueError
     lib.Noise_XK_encap_message_p_free(encap_msg)
     if plain_msg_len.value > 0:
@@ -158,6 +161,7 @@ def send_msg(session, msg):
     ct_len = c_uint32()
     ct = POINTER(c_ubyte)()
     if 0!=lib.Noise_XK_session_write(encap_msg, session, byref(ct_len), byref(ct)).tag:
+        lib.Noise_XK_encap_message_p_free(encap_msg)
         raise ValueError
     lib.Noise_XK_encap_message_p_free(encap_msg)
     res = bytes(ct[:ct_len.value])
@@ -175,6 +179,7 @@ def read_msg(session, msg):
     plain_msg = POINTER(c_ubyte)()
     if not lib.Noise_XK_unpack_message_with_auth_level(byref(plain_msg_len), byref(plain_msg),
                                                               NOISE_XK_AUTH_KNOWN_SENDER_NO_KCI, encap_msg):
+        lib.Noise_XK_encap_message_p_free(encap_msg)
         raise ValueError
     lib.Noise_XK_encap_message_p_free(encap_msg)
     res = bytes(plain_msg[i] for i in range(plain_msg_len.value))
-- 
2.43.0


From 15291412fa36f27cffdb79301af6bde5c50a0eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 04:11:54 +0000
Subject: [PATCH 41/41] fix: accept time limits that reach before 1970 or
 beyond the largest timestamp

check_ts computed now - ts_epsilon and now + ts_epsilon, which wrap around
for large limits or small clocks. Every message was then refused.
---
 src/tp-dkg.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/tp-dkg.c b/src/tp-dkg.c
index c16d38a..00a9df6 100644
--- a/src/tp-dkg.c
+++ b/src/tp-dkg.c
@@ -98,11 +98,12 @@ static uint64_t ntohll(uint64_t n) {
 static int check_ts(const uint64_t ts_epsilon, uint64_t *last_ts, const uint64_t ts) {
   if(*last_ts == 0) {
     uint64_t now = (uint64_t)time(NULL);
-    if(ts < now - ts_epsilon) return 3;
-    if(ts > now + ts_epsilon) return 4;
+    // differences, as now +/- ts_epsilon might wrap around
+    if(ts < now && now - ts > ts_epsilon) return 3;
+    if(ts > now && ts - now > ts_epsilon) return 4;
   } else {
     if(*last_ts > ts) return 1;
-    if(ts > *last_ts + ts_epsilon) return 2;
+    if(ts - *last_ts > ts_epsilon) return 2;
   }
   *last_ts = ts;
   return 0;
-- 
2.43.0

