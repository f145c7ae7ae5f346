From 84562e3efd8178a0b84136d2aa6cfb732de2a5d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:37:16 +0000
Subject: [PATCH 01/78] fix: fmove copies B into A before clearing B

fassign takes its source first, so fmove overwrote B with A and then
cleared it, losing B and leaving A unchanged.
---
 fflas-ffpack/fflas/fflas_level2.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fflas-ffpack/fflas/fflas_level2.inl b/fflas-ffpack/fflas/fflas_level2.inl
index 7910050..0ffb6f2 100644
--- a/fflas-ffpack/fflas/fflas_level2.inl
+++ b/fflas-ffpack/fflas/fflas_level2.inl
@@ -414,7 +414,7 @@ namespace FFLAS {
            typename Field::Element_ptr A, const size_t lda,
            typename Field::Element_ptr B, const size_t ldb )
     {
-        fassign(F,m,n,A,lda,B,ldb);
+        fassign(F,m,n,B,ldb,A,lda);
         fzero(F,m,n,B,ldb);
     }
 
-- 
2.43.0


From 6f5e862d035260508475ff5c25aefe44d72a9d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:37:16 +0000
Subject: [PATCH 02/78] fix: fscal over floating point domains honours the
 source increment

---
 fflas-ffpack/fflas/fflas_fscal.inl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fflas-ffpack/fflas/fflas_fscal.inl b/fflas-ffpack/fflas/fflas_fscal.inl
index 133eab8..5565d5e 100644
--- a/fflas-ffpack/fflas/fflas_fscal.inl
+++ b/fflas-ffpack/fflas/fflas_fscal.inl
@@ -368,7 +368,7 @@ namespace FFLAS {
 #if defined(__FFLASFFPACK_OPENBLAS_NUM_THREADS) and not defined (__FFLASFFPACK_OPENBLAS_NT_ALREADY_SET)
         openblas_set_num_threads(__FFLASFFPACK_OPENBLAS_NUM_THREADS);
 #endif
-        cblas_dcopy( (int)N, x, (int)incy, y, (int)incy);
+        cblas_dcopy( (int)N, x, (int)incx, y, (int)incy);
         cblas_dscal( (int)N, a, y, (int)incy);
     }
 
@@ -382,7 +382,7 @@ namespace FFLAS {
 #if defined(__FFLASFFPACK_OPENBLAS_NUM_THREADS) and not defined (__FFLASFFPACK_OPENBLAS_NT_ALREADY_SET)
         openblas_set_num_threads(__FFLASFFPACK_OPENBLAS_NUM_THREADS);
 #endif
-        cblas_scopy( (int)N, x, (int)incy, y, (int)incy);
+        cblas_scopy( (int)N, x, (int)incx, y, (int)incy);
         cblas_sscal( (int)N, a, y, (int)incy);
     }
 
-- 
2.43.0


From 5deacbfe8dd6495126a2d561f9cdbfe8bf5c319b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:08 +0000
Subject: [PATCH 03/78] fix: fzero on an empty unit triangular matrix writes
 out of bounds

size-- wrapped around for n == 0 and diag == FflasUnit.
---
 fflas-ffpack/fflas/fflas_level2.inl | 1 +
 1 file changed, 1 insertion(+)

diff --git a/fflas-ffpack/fflas/fflas_level2.inl b/fflas-ffpack/fflas/fflas_level2.inl
index 0ffb6f2..26575f0 100644
--- a/fflas-ffpack/fflas/fflas_level2.inl
+++ b/fflas-ffpack/fflas/fflas_level2.inl
@@ -94,6 +94,7 @@ namespace FFLAS {
     fzero (const Field& F, const FFLAS_UPLO shape, const FFLAS_DIAG diag,
            const size_t n, typename Field::Element_ptr A, const size_t lda)
     {
+        if (n == 0) return;
         ptrdiff_t inc_row;
         typename Field::Element_ptr Ai;
         size_t size = n;
-- 
2.43.0


From c5c0bd8fb727853d6675d7679df0d335332812a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:24 +0000
Subject: [PATCH 04/78] fix: fgemv with an empty transposed matrix still has to
 scale Y

The early exit tested M, which is the length of X (not of Y) when A is
transposed, so Y was left unscaled by beta.
---
 fflas-ffpack/fflas/fflas_fgemv.inl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fflas-ffpack/fflas/fflas_fgemv.inl b/fflas-ffpack/fflas/fflas_fgemv.inl
index 2a03984..d67b655 100644
--- a/fflas-ffpack/fflas/fflas_fgemv.inl
+++ b/fflas-ffpack/fflas/fflas_fgemv.inl
@@ -127,8 +127,8 @@ namespace FFLAS {
            MMHelper<Field, MMHelperAlgo::Classic, ModeCategories::DelayedTag> & H)
     {
 
-        if (!M) {return Y;}
         size_t Ydim = (ta == FflasNoTrans)?M:N;
+        if (!Ydim) {return Y;}
         size_t Xdim = (ta == FflasNoTrans)?N:M;
         if (!Xdim || F.isZero (alpha)){
             if (F.isZero (beta))
@@ -344,8 +344,8 @@ namespace FFLAS{
            const typename Field::Element beta,
            typename Field::Element_ptr Y, const size_t incY)
     {
-        if (!M) {return Y;}
         size_t Ydim = (ta == FflasNoTrans)?M:N;
+        if (!Ydim) {return Y;}
         size_t Xdim = (ta == FflasNoTrans)?N:M;
         if (!Xdim || F.isZero (alpha)){
             if (F.isZero (beta))
-- 
2.43.0


From 2f44d27d13f009326492ea52f1e20e4c8e0af755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:51 +0000
Subject: [PATCH 05/78] fix: multiprecision fgemm scales C by beta when the
 product vanishes

With a zero A or B (or k == 0) the RNS based product returned early and
left C unscaled.
---
 .../fflas/fflas_fgemm/fgemm_classical_mp.inl        | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/fflas-ffpack/fflas/fflas_fgemm/fgemm_classical_mp.inl b/fflas-ffpack/fflas/fflas_fgemm/fgemm_classical_mp.inl
index 14a2ac3..0bfb937 100644
--- a/fflas-ffpack/fflas/fflas_fgemm/fgemm_classical_mp.inl
+++ b/fflas-ffpack/fflas/fflas_fgemm/fgemm_classical_mp.inl
@@ -327,12 +327,11 @@ namespace FFLAS {
         Timer chrono;
         chrono.start();
 #endif
-        if (alpha == 0){
+        if (alpha == 0 || k == 0){
             fscalin(F,m,n,beta,C,ldc);
             return C;
         }
 
-        if (k==0) return C;
         // compute bit size of feasible prime for FFLAS
         size_t _k=k,lk=0;
         while ( _k ) {_k>>=1; ++lk;}
@@ -352,8 +351,11 @@ namespace FFLAS {
 
         mC = 2*uint64_t(k)*H.normA*H.normB*abs(alpha); // need to use 2x bound to reach both positive and negative
 
-        // A or B is zero, no need to modify C
-        if (mC == 0) return C;
+        // A or B is zero: only the scaling of C remains
+        if (mC == 0){
+            fscalin(F,m,n,beta,C,ldc);
+            return C;
+        }
 
         // construct an RNS structure and its associated Domain
         FFPACK::rns_double RNS(mC, prime_bitsize);
@@ -595,12 +597,11 @@ namespace FFLAS {
         Timer chrono;
         chrono.start();
 #endif
-        if (alpha == 0){
+        if (alpha == 0 || k == 0){
             fscalin(F,m,n,beta,C,ldc);
             return C;
         }
 
-        if (k==0) return C;
         // compute bit size of feasible prime for FFLAS
         size_t _k=k,lk=0;
         while ( _k ) {_k>>=1; ++lk;}
-- 
2.43.0


From 35dc550353b182ae72acd04488f30ccd1040f8c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:01 +0000
Subject: [PATCH 06/78] fix: three operand ftrmm with beta = 0 must overwrite C

The generic implementation skipped the scaling of C for beta = 0 and
accumulated onto its old contents.
---
 fflas-ffpack/fflas/fflas_ftrmm_src.inl | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/fflas-ffpack/fflas/fflas_ftrmm_src.inl b/fflas-ffpack/fflas/fflas_ftrmm_src.inl
index 736f7ba..0e109c2 100644
--- a/fflas-ffpack/fflas/fflas_ftrmm_src.inl
+++ b/fflas-ffpack/fflas/fflas_ftrmm_src.inl
@@ -356,8 +356,7 @@ public:
     {
 
         if (__FFLAS__Na == 1){
-            if (!F.isZero(beta))
-                fscalin (F, __FFLAS__Bdim, beta, C, __FFLAS__Cnorminc);
+            fscalin (F, __FFLAS__Bdim, beta, C, __FFLAS__Cnorminc);
 #ifdef __FFLAS__NONUNIT
             //TODO: replace by faxpby when available
             faxpy (F, __FFLAS__Bdim, *A, B, __FFLAS__Bnorminc, C, __FFLAS__Cnorminc);
-- 
2.43.0


From 67fd3363590b0dad4921ed832d1aa19bdfe9cecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:33 +0000
Subject: [PATCH 07/78] fix: fsyr2k with K = 0 scales C by beta only once

The product over an empty dimension scaled C a second time.
---
 fflas-ffpack/fflas/fflas_fsyr2k.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fflas-ffpack/fflas/fflas_fsyr2k.inl b/fflas-ffpack/fflas/fflas_fsyr2k.inl
index 618624d..b8e826b 100644
--- a/fflas-ffpack/fflas/fflas_fsyr2k.inl
+++ b/fflas-ffpack/fflas/fflas_fsyr2k.inl
@@ -42,7 +42,7 @@ namespace FFLAS {
             typename Field::Element_ptr C, const size_t ldc){
 
         if (!N) return C;
-        if (!K) fscalin(F, N,N, beta, C, ldc);
+        if (!K) { fscalin(F, N,N, beta, C, ldc); return C; }
 
         typename Field::Element_ptr diagC(nullptr);
 
-- 
2.43.0


From f4b7f1a38140a7245768e479838f2929837931c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:58:04 +0000
Subject: [PATCH 08/78] fix: max3 returned the maximum of m and min(n,k)

---
 fflas-ffpack/fflas/fflas_enum.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fflas-ffpack/fflas/fflas_enum.h b/fflas-ffpack/fflas/fflas_enum.h
index 8d82a3a..f75a690 100644
--- a/fflas-ffpack/fflas/fflas_enum.h
+++ b/fflas-ffpack/fflas/fflas_enum.h
@@ -86,7 +86,7 @@ namespace FFLAS {
 
     template <class T> const T &min3(const T &m, const T &n, const T &k) { return std::min(m, std::min(n, k)); }
 
-    template <class T> const T &max3(const T &m, const T &n, const T &k) { return std::max(m, std::min(n, k)); }
+    template <class T> const T &max3(const T &m, const T &n, const T &k) { return std::max(m, std::max(n, k)); }
 
     template <class T> const T &min4(const T &m, const T &n, const T &k, const T &l) {
         return std::min(std::min(m, n), std::min(k, l));
-- 
2.43.0


From 06685f162f7b28a89ebc80718565911b1cd80759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:58:04 +0000
Subject: [PATCH 09/78] fix: fsyrk with 2x2 diagonal blocks recursed forever
 when a block starts at the split

The split is on the rows of A whereas twoBlocks describes its columns: no 2x2
block can be cut, and the lookup could also read beyond twoBlocks.
---
 fflas-ffpack/fflas/fflas_fsyrk.inl | 1 -
 1 file changed, 1 deletion(-)

diff --git a/fflas-ffpack/fflas/fflas_fsyrk.inl b/fflas-ffpack/fflas/fflas_fsyrk.inl
index dd5aab4..96b728e 100644
--- a/fflas-ffpack/fflas/fflas_fsyrk.inl
+++ b/fflas-ffpack/fflas/fflas_fsyrk.inl
@@ -723,7 +723,6 @@ namespace FFLAS {
 
         }else {
             size_t N1 = N>>1;
-            if (twoBlocks[N1-1]) N1++; // don't split a 2x2 block
             size_t N2 = N - N1;
             // Comments written for the case UpLo==FflasUpper, trans==FflasNoTrans
 
-- 
2.43.0


From 857942f428b0c0553982131edee0b4bd35f4c45b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:58:04 +0000
Subject: [PATCH 10/78] fix: Strassen fsyrk on matrices too small for the
 requested recursion accessed memory out of bounds

---
 fflas-ffpack/fflas/fflas_fsyrk_strassen.inl | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/fflas-ffpack/fflas/fflas_fsyrk_strassen.inl b/fflas-ffpack/fflas/fflas_fsyrk_strassen.inl
index 3eb1f86..c48949f 100644
--- a/fflas-ffpack/fflas/fflas_fsyrk_strassen.inl
+++ b/fflas-ffpack/fflas/fflas_fsyrk_strassen.inl
@@ -384,16 +384,17 @@ namespace FFLAS {
            typename Field::Element_ptr C, const size_t ldc,
            MMHelper<Field, MMHelperAlgo::Winograd, Mode> & H){
 
-        if (!H.recLevel){
+        size_t q = 1 << (H.recLevel+1);
+        size_t Ns = (N/q)*q;
+        size_t Ks = (K/q)*q;
+
+        if (!H.recLevel || !Ns || !Ks){ // no recursion requested, or matrices too small for it
             MMHelper<Field, MMHelperAlgo::Classic, Mode>  H2 (H);
             fsyrk (F, UpLo, trans, N, K, alpha, A, lda, beta, C, ldc, H2);
             H.Outmin = H2.Outmin;
             H.Outmax = H2.Outmax;
             return C;
         }
-        size_t q = 1 << (H.recLevel+1);
-        size_t Ns = (N/q)*q;
-        size_t Ks = (K/q)*q;
         
             // find a, b such that a^2 + b^2 = -1 mod p
         Givaro::Integer a,b;
-- 
2.43.0


From ce3ee9012890b8a30d23d1097f9e307a9a0844fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:58:04 +0000
Subject: [PATCH 11/78] fix: Strassen fsyrk propagates the bounds of the
 trailing update to the final scaling

---
 fflas-ffpack/fflas/fflas_fsyrk_strassen.inl | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fflas-ffpack/fflas/fflas_fsyrk_strassen.inl b/fflas-ffpack/fflas/fflas_fsyrk_strassen.inl
index c48949f..dafd5ec 100644
--- a/fflas-ffpack/fflas/fflas_fsyrk_strassen.inl
+++ b/fflas-ffpack/fflas/fflas_fsyrk_strassen.inl
@@ -422,6 +422,9 @@ namespace FFLAS {
         H2.Cmin = H.Outmin;
         H2.Cmax = H.Outmax;
         fsyrk (F, UpLo, trans, Ns, K-Ks, alpha, A12, lda, F.one, C, ldc, H2);
+            // the other blocks of C are reduced
+        H.Outmin = std::min (H2.Outmin, H.FieldMin);
+        H.Outmax = std::max (H2.Outmax, H.FieldMax);
 
             // C22 = [A21 A22] x [A21 A22]^T
         fsyrk (F, UpLo, trans, N-Ns, K, alpha, A21, lda, beta, C+Ns*(ldc+1), ldc);
-- 
2.43.0


From 8e12b10ec7b8602d6730372c6ca2b68d693650e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:12:08 +0000
Subject: [PATCH 12/78] fix: fgemv over integer fields of cardinality 2

---
 fflas-ffpack/fflas/fflas_fgemv.inl | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/fflas-ffpack/fflas/fflas_fgemv.inl b/fflas-ffpack/fflas/fflas_fgemv.inl
index d67b655..bfe8dd5 100644
--- a/fflas-ffpack/fflas/fflas_fgemv.inl
+++ b/fflas-ffpack/fflas/fflas_fgemv.inl
@@ -35,7 +35,7 @@
 #endif
 
 namespace FFLAS{ namespace Protected {
-    template <typename FloatElement, class Field>
+    template <typename FloatElement, class Field, class ModField = Givaro::ModularBalanced<FloatElement> >
     inline typename Field::Element_ptr
     fgemv_convert (const Field& F,
                    const FFLAS_TRANSPOSE ta,
@@ -48,7 +48,7 @@ namespace FFLAS{ namespace Protected {
     {
         FFLASFFPACK_check(lda);
 
-        Givaro::ModularBalanced<FloatElement> G((FloatElement) F.characteristic());
+        ModField G((FloatElement) F.characteristic());
         FloatElement tmp,alphaf, betaf;
         F.convert (tmp, beta);
         G.init(betaf,tmp);
@@ -96,9 +96,11 @@ namespace FFLAS {
            typename Field::Element_ptr Y, const size_t incY,
            MMHelper<Field, MMHelperAlgo::Classic, ModeCategories::ConvertTo<ElementCategories::MachineFloatTag> > & H)
     {
-        if (F.cardinality() < DOUBLE_TO_FLOAT_CROSSOVER && F.cardinality() > 2)
+        if (F.cardinality() == 2)
+            return Protected::fgemv_convert<float,Field,Givaro::Modular<float> >(F,ta,M,N,alpha,A,lda,X, incX, beta,Y,incY);
+        else if (F.cardinality() < DOUBLE_TO_FLOAT_CROSSOVER)
             return Protected::fgemv_convert<float,Field>(F,ta,M,N,alpha,A,lda,X, incX, beta,Y,incY);
-        else if (16*F.cardinality() < Givaro::ModularBalanced<double>::maxCardinality() && F.cardinality() > 2)
+        else if (16*F.cardinality() < Givaro::ModularBalanced<double>::maxCardinality())
             return Protected::fgemv_convert<double,Field>(F,ta,M,N,alpha,A,lda,X, incX, beta,Y,incY);
         else {
             FFPACK::failure()(__func__,__LINE__,"Invalid ConvertTo Mode for this field");
-- 
2.43.0


From d5c28ba1ef04b3bb3e735b23bc73dc85b245b67c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:12:14 +0000
Subject: [PATCH 13/78] fix: LUdivine must not use the CUP base case for the
 PLE decomposition

---
 fflas-ffpack/ffpack/ffpack_ludivine.inl | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fflas-ffpack/ffpack/ffpack_ludivine.inl b/fflas-ffpack/ffpack/ffpack_ludivine.inl
index 4d3aea3..e2fa0eb 100644
--- a/fflas-ffpack/ffpack/ffpack_ludivine.inl
+++ b/fflas-ffpack/ffpack/ffpack_ludivine.inl
@@ -432,7 +432,8 @@ namespace FFPACK {
             rowDim = M;
         }
 
-        if ((rowDim < cutoff) && (colDim < 2*cutoff)) { // the coeff 2 is experimentally determined!
+        // the base case only computes the CUP decomposition
+        if ((trans == FFLAS::FflasNoTrans) && (rowDim < cutoff) && (colDim < 2*cutoff)) { // the coeff 2 is experimentally determined!
             return LUdivine_small (F, Diag, trans, M, N, A, lda, P, Q, LuTag);
         }
         else { // recursively :
-- 
2.43.0


From ec8d42560750fc42a8390fa83278234de8e8cad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:21:21 +0000
Subject: [PATCH 14/78] fix: ColRankProfileSubmatrixIndices initialises its M
 row indices (was N: overflow or uninitialised)

---
 fflas-ffpack/ffpack/ffpack_rankprofiles.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fflas-ffpack/ffpack/ffpack_rankprofiles.inl b/fflas-ffpack/ffpack/ffpack_rankprofiles.inl
index 97d5d35..8095d79 100644
--- a/fflas-ffpack/ffpack/ffpack_rankprofiles.inl
+++ b/fflas-ffpack/ffpack/ffpack_rankprofiles.inl
@@ -216,7 +216,7 @@ namespace FFPACK{
         for (size_t i=0; i<R; ++i)
             colindices [i] = Q [i];
 
-        for (size_t i=0; i<N; ++i)
+        for (size_t i=0; i<M; ++i)
             rowindices [i] = i;
 
         size_t tmp;
-- 
2.43.0


From c247a85de0a4fbe579d83ff9d5e472febea1016d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:22:03 +0000
Subject: [PATCH 15/78] fix: LQUPtoInverseOfFullRankMinor uses L^-1 only, not
 the packed L^-1 and U

---
 fflas-ffpack/ffpack/ffpack_rankprofiles.inl | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/fflas-ffpack/ffpack/ffpack_rankprofiles.inl b/fflas-ffpack/ffpack/ffpack_rankprofiles.inl
index 8095d79..a245de5 100644
--- a/fflas-ffpack/ffpack/ffpack_rankprofiles.inl
+++ b/fflas-ffpack/ffpack/ffpack_rankprofiles.inl
@@ -302,7 +302,11 @@ namespace FFPACK{
         // X <- (Qt.L.Q)^(-1)
         //invL( F, rank, A_factors, lda, X, ldx);
         ftrtri (F, FFLAS::FflasLower, FFLAS::FflasUnit, rank, A_factors, lda);
-        FFLAS::fassign(F,rank,rank,A_factors,lda,X,ldx);
+        FFLAS::fzero (F, rank, rank, X, ldx);
+        for (size_t row=0; row<rank; row++){
+            FFLAS::fassign (F, row, A_factors+row*lda, 1, X+row*ldx, 1);
+            F.assign (X[row*ldx+row], F.one);
+        }
 
         // X = U^-1.X
         ftrsm( F, FFLAS::FflasLeft, FFLAS::FflasUpper, FFLAS::FflasNoTrans,
-- 
2.43.0


From b23674c3347d0fa6c60975b708de2cb877b8f965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:25:35 +0000
Subject: [PATCH 16/78] fix: Invert applies the column permutation of the tile
 Gauss-Jordan elimination

---
 fflas-ffpack/ffpack/ffpack_invert.inl | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/fflas-ffpack/ffpack/ffpack_invert.inl b/fflas-ffpack/ffpack/ffpack_invert.inl
index 96058c0..fe094b8 100644
--- a/fflas-ffpack/ffpack/ffpack_invert.inl
+++ b/fflas-ffpack/ffpack/ffpack_invert.inl
@@ -49,6 +49,11 @@ namespace FFPACK {
         size_t R =  ReducedRowEchelonForm (F, M, M, A, lda, P, Q, true, FfpackGaussJordanTile);
         nullity = (int)(M - R);
         applyP (F, FFLAS::FflasRight, FFLAS::FflasNoTrans, M, 0, (int)R, A, lda, P);
+        if (R == M) {
+            // The pivots of the tile elimination need not come in increasing order of their columns
+            PLUQtoEchelonPermutation (M, R, Q, P);
+            applyP (F, FFLAS::FflasLeft, FFLAS::FflasNoTrans, M, 0, (int)R, A, lda, P);
+        }
         FFLAS::fflas_delete(P);
         FFLAS::fflas_delete(Q);
 
-- 
2.43.0


From 442fbfd4c0ce9d92516466239fa49d6b11fa60ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:02 +0000
Subject: [PATCH 17/78] fix: integer Det overwrites its output instead of
 adding to it

---
 fflas-ffpack/ffpack/ffpack_det_mp.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fflas-ffpack/ffpack/ffpack_det_mp.inl b/fflas-ffpack/ffpack/ffpack_det_mp.inl
index 9a026c1..919d6b9 100644
--- a/fflas-ffpack/ffpack/ffpack_det_mp.inl
+++ b/fflas-ffpack/ffpack/ffpack_det_mp.inl
@@ -73,7 +73,7 @@ namespace FFPACK {
 
         FFLAS::finit_rns(Zrns,N,N,(Abs/16)+((Abs%16)?1:0),A,lda,Arns);
         Det(Zrns, Detrns, N, Arns, N, psH);
-        FFLAS::fconvert_rns (Zrns,1,1, Givaro::Integer(1),&det, 1, Detrns);
+        FFLAS::fconvert_rns (Zrns,1,1, F.zero,&det, 1, Detrns);
 
         FFLAS::fflas_delete(Arns);
         FFLAS::fflas_delete(Detrns);
-- 
2.43.0


From b4b0148d11a6432a8f6d4b77459769dcff7dd6fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:32 +0000
Subject: [PATCH 18/78] fix: integer Det accounts for the sign in its CRT bound

---
 fflas-ffpack/ffpack/ffpack_det_mp.inl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fflas-ffpack/ffpack/ffpack_det_mp.inl b/fflas-ffpack/ffpack/ffpack_det_mp.inl
index 919d6b9..e80af3a 100644
--- a/fflas-ffpack/ffpack/ffpack_det_mp.inl
+++ b/fflas-ffpack/ffpack/ffpack_det_mp.inl
@@ -61,8 +61,8 @@ namespace FFPACK {
             return  F.assign(det,F.one);
 
         size_t Abs = FFLAS::bitsize(F,N,N,A,lda);
-        // Hadamard's bound on the bitsize of the determinant over Z
-        int64_t Detbs = (int64_t) ceil (N * (log(double(N))/(log(2.0)*2.0) + Abs));
+        // Hadamard's bound on the bitsize of the determinant over Z, plus one bit for its sign
+        int64_t Detbs = (int64_t) ceil (N * (log(double(N))/(log(2.0)*2.0) + Abs)) + 1;
         Givaro::Integer Detbound = Givaro::Integer(1) << Detbs;
         FFPACK::rns_double RNS(Detbound, 23);
         typedef FFPACK::RNSInteger<FFPACK::rns_double> RnsDomain;
-- 
2.43.0


From e01e6bcf1eb634e0740d5796464b5e2d5680e248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:34 +0000
Subject: [PATCH 19/78] fix: RandomNullSpaceVector permutes its vector with the
 increment incX

---
 fflas-ffpack/ffpack/ffpack.inl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fflas-ffpack/ffpack/ffpack.inl b/fflas-ffpack/ffpack/ffpack.inl
index 0e4cdcc..18a00bb 100755
--- a/fflas-ffpack/ffpack/ffpack.inl
+++ b/fflas-ffpack/ffpack/ffpack.inl
@@ -248,7 +248,7 @@ namespace FFPACK {
             FFLAS::ftrsv(F, FFLAS::FflasUpper, FFLAS::FflasNoTrans, FFLAS::FflasNonUnit, R,
                          A, lda, X, (int)incX);
 
-            applyP(F, FFLAS::FflasLeft, FFLAS::FflasTrans, 1u, 0u, (int) N, X, 1u, Q);
+            applyP(F, FFLAS::FflasLeft, FFLAS::FflasTrans, 1u, 0u, (int) N, X, incX, Q);
 
             FFLAS::fflas_delete(Q);
         }
@@ -289,7 +289,7 @@ namespace FFPACK {
             FFLAS::ftrsv(F, FFLAS::FflasLower, FFLAS::FflasTrans, FFLAS::FflasUnit, R,
                          A, lda, X, (int)incX);
 
-            applyP(F, FFLAS::FflasRight, FFLAS::FflasNoTrans, 1u, 0u, (int) M, X, 1u, P);
+            applyP(F, FFLAS::FflasLeft, FFLAS::FflasTrans, 1u, 0u, (int) M, X, incX, P);
 
             FFLAS::fflas_delete(P);
         }
-- 
2.43.0


From fece4a211761e0ac4ac2ae1d03dcd83d9f0f9d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:01:42 +0000
Subject: [PATCH 20/78] fix: MatVecMinPoly on a matrix of order 0 (dereferenced
 an empty Krylov basis)

---
 fflas-ffpack/ffpack/ffpack_minpoly.inl | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/fflas-ffpack/ffpack/ffpack_minpoly.inl b/fflas-ffpack/ffpack/ffpack_minpoly.inl
index d59b4c0..d0aa6ba 100644
--- a/fflas-ffpack/ffpack/ffpack_minpoly.inl
+++ b/fflas-ffpack/ffpack/ffpack_minpoly.inl
@@ -64,6 +64,11 @@ namespace FFPACK {
                    typename Field::ConstElement_ptr A, const size_t lda,
                    typename Field::ConstElement_ptr v, const size_t incv){
 
+        if (N==0){
+            minP.resize(1);
+            F.assign(minP[0],F.one);
+            return minP;
+        }
         // Construct the Krylov matrix K and eliminate it online
         typename Field::Element_ptr K = FFLAS::fflas_new(F, N+1, N);
         const size_t ldk = N;
-- 
2.43.0


From bbcca52625ef4c17a3d5e1f242564de6ab7b94b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:01:42 +0000
Subject: [PATCH 21/78] fix: integer CharPoly of a matrix of order 0 (log(0)
 bit size bound)

---
 fflas-ffpack/ffpack/ffpack_charpoly_mp.inl | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fflas-ffpack/ffpack/ffpack_charpoly_mp.inl b/fflas-ffpack/ffpack/ffpack_charpoly_mp.inl
index 54b6808..0d0b645 100644
--- a/fflas-ffpack/ffpack/ffpack_charpoly_mp.inl
+++ b/fflas-ffpack/ffpack/ffpack_charpoly_mp.inl
@@ -66,6 +66,9 @@ namespace FFPACK {
              Givaro::ZRing<Givaro::Integer>::RandIter& G, const FFPACK_CHARPOLY_TAG CharpTag, size_t degree){
 
         const Givaro::ZRing<Givaro::Integer>& F = R.getdomain();
+        if (N==0)
+            return R.assign (charp, R.one);
+
         size_t Abs = FFLAS::bitsize(F,N,N,A,lda);
         // See [Dumas Pernet Wang ISSAC'05] for the following bound on the bitsize
         // of the coefficients of the characteristic polynomial
-- 
2.43.0


From d39d0f794fcd86376807ddf642b949dbbfff2b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:09:41 +0000
Subject: [PATCH 22/78] fix: CharPoly (ArithProg): check that the Krylov
 preconditioner really found invariant blocks

Missing elimination of the component outside of the Krylov space, unchecked
truncated or intercalated blocks and an ignored singular basis returned wrong
characteristic polynomials instead of falling back to another algorithm.
---
 fflas-ffpack/ffpack/ffpack_frobenius.inl | 34 +++++++++++++-----------
 1 file changed, 18 insertions(+), 16 deletions(-)

diff --git a/fflas-ffpack/ffpack/ffpack_frobenius.inl b/fflas-ffpack/ffpack/ffpack_frobenius.inl
index a42fb54..6640af2 100644
--- a/fflas-ffpack/ffpack/ffpack_frobenius.inl
+++ b/fflas-ffpack/ffpack/ffpack_frobenius.inl
@@ -144,10 +144,12 @@ namespace FFPACK { namespace Protected {
         // Determining the degree sequence dK
         for (size_t k = 0; k<noc; ++k){
             size_t d = 0;
+            ii = k*degree;
             while ( (d<degree) && (row_idx<R) && (Qk[row_idx] == ii)) {ii++; row_idx++; d++;}
-            if (d > dold){
+            if (d > dold || (row_idx < R && Qk[row_idx] < (k+1)*degree)){
                 // std::cerr << "FAIL in preconditionning phase:"
                 //           << " degree sequence is not monotonically not increasing"
+                //           << " or an independent iterate follows a dependent one"
                 // 	     << std::endl;
                 FFLAS::fflas_delete (K, Pk, Qk, dA, dK);
                 throw CharpolyFailed();
@@ -156,8 +158,6 @@ namespace FFPACK { namespace Protected {
             Mk++;
             if (d == degree)
                 nb_full_blocks++;
-            if (row_idx < N)
-                ii = Qk[row_idx];
         }
 #ifdef __FFLASFFPACK_ARITHPROG_PROFILING
         timelim.stop();
@@ -185,6 +185,10 @@ namespace FFPACK { namespace Protected {
         // K <- K U^-1
         ftrsm (F, FFLAS::FflasRight, FFLAS::FflasUpper, FFLAS::FflasNoTrans, FFLAS::FflasNonUnit, Mk, R,F.one, K, ldk, K4, ldk);
 
+        // Component of K4 outside of the Krylov space: K4_2 <- K4_2 - K4_1 . U_2
+        if (R<N)
+            fgemm (F, FFLAS::FflasNoTrans, FFLAS::FflasNoTrans, Mk, N-R, R, F.mOne, K4, ldk, K+R, ldk, F.one, K4+R, ldk);
+
         // L <-  Q^T L
         applyP(F, FFLAS::FflasLeft, FFLAS::FflasNoTrans, N, 0,(int) R, K, ldk, Qk);
 
@@ -200,7 +204,7 @@ namespace FFPACK { namespace Protected {
         size_t offset = Ncurr-1;
         for (size_t i=Mk-1; i>=nb_full_blocks+1;  --i){
             if (dK[i] >= 1){
-                for (size_t j = offset+1; j<R; ++j)
+                for (size_t j = offset+1; j<N; ++j)
                     if (!F.isZero(*(K4 + i*ldk + j))){
                         //std::cerr<<"FAIL C != 0 in preconditionning"<<std::endl;
                         FFLAS::fflas_delete (K,K3,K4,Pk,Qk,dA,dK);
@@ -223,18 +227,16 @@ namespace FFPACK { namespace Protected {
         std::cerr <<"  Similarity)              : "<<timsimilar.usertime()<<std::endl;
         timrest.start();
 #endif
+        if (Ncurr<N){
+                // The remaining blocks must span an invariant subspace
+            if (! FFLAS::fiszero (F, nb_full_blocks+1, N-Ncurr, K4+Ncurr, ldk)){
+                FFLAS::fflas_delete (K3, K4, K, Pk, Qk, dA, dK);
+                throw CharpolyFailed();
+            }
+        }
         if (R<N){
                 // The Krylov basis did not span the whole space
                 // Recurse on the complementary subspace
-            if (! FFLAS::fiszero (F, nb_full_blocks+1, N-R, K4+R, ldk)){
-                
-            // for (size_t i=0; i<nb_full_blocks + 1; ++i)
-            //     for (size_t j=R; j<N; ++j){
-            //         if (!F.isZero( *(K4+i*ldk+j) )){
-                        FFLAS::fflas_delete (K3, K4, K, Pk, Qk, dA, dK);
-                        throw CharpolyFailed();
-            }
-
             size_t Nrest = N-R;
             typename Field::Element_ptr K21 = K + R*ldk;
             typename Field::Element_ptr K22 = K21 + R;
@@ -446,9 +448,9 @@ namespace FFPACK { namespace Protected {
             size_t *P=FFLAS::fflas_new<size_t>(Mk);
             size_t *Q=FFLAS::fflas_new<size_t>(Mk);
             if (LUdivine (F, FFLAS::FflasNonUnit, FFLAS::FflasNoTrans, Mk, Mk , K3 + (Ncurr-Mk)*ldk, ldk, P, Q) < Mk){
-                // should never happen (not a LAS VEGAS check)
-                //std::cerr<<"FAIL R2 < MK"<<std::endl;
-                //			exit(-1);
+                // the selected iterates are not a basis
+                FFLAS::fflas_delete (P, Q, rp, Arp, Ac, K, K3, dA, dK);
+                throw CharpolyFailed();
             }
             ftrsm (F, FFLAS::FflasLeft, FFLAS::FflasLower, FFLAS::FflasNoTrans, FFLAS::FflasUnit, Mk, Mk,F.one,
                    K3 + (Ncurr-Mk)*ldk, ldk, K+(Ncurr-Mk)*ldk, ldk);
-- 
2.43.0


From a625dd917eec0e3ca85876e8e2d923aa3de1a0ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:09:41 +0000
Subject: [PATCH 23/78] fix: memory leak in RandomKrylovPrecond when the
 preconditioner fails

---
 fflas-ffpack/ffpack/ffpack_frobenius.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fflas-ffpack/ffpack/ffpack_frobenius.inl b/fflas-ffpack/ffpack/ffpack_frobenius.inl
index 6640af2..a67d308 100644
--- a/fflas-ffpack/ffpack/ffpack_frobenius.inl
+++ b/fflas-ffpack/ffpack/ffpack_frobenius.inl
@@ -151,7 +151,7 @@ namespace FFPACK { namespace Protected {
                 //           << " degree sequence is not monotonically not increasing"
                 //           << " or an independent iterate follows a dependent one"
                 // 	     << std::endl;
-                FFLAS::fflas_delete (K, Pk, Qk, dA, dK);
+                FFLAS::fflas_delete (K, K2, Pk, Qk, dA, dK);
                 throw CharpolyFailed();
             }
             dK[k] = dold = d;
-- 
2.43.0


From 5ee8e61993199ce16ee3554a606fdf0f5d3780e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:15:11 +0000
Subject: [PATCH 24/78] fix: 2D cutting with Grain or Fixed strategies must
 cover the whole range

---
 fflas-ffpack/paladin/blockcuts.inl | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fflas-ffpack/paladin/blockcuts.inl b/fflas-ffpack/paladin/blockcuts.inl
index c67650b..087f0ae 100644
--- a/fflas-ffpack/paladin/blockcuts.inl
+++ b/fflas-ffpack/paladin/blockcuts.inl
@@ -287,6 +287,10 @@ namespace FFLAS {
         numRowBlock = m/rowBlockSize;
         numColBlock = n/colBlockSize;
 
+        // the remainder can exceed the number of blocks: share the whole range out evenly
+        if (numRowBlock) rowBlockSize = m/numRowBlock;
+        if (numColBlock) colBlockSize = n/numColBlock;
+
         changeRBS = m-rowBlockSize*numRowBlock;
         lastRBS = rowBlockSize;
         if (changeRBS) ++rowBlockSize;
-- 
2.43.0


From 3b364895b24b6a74dc2dcdc2b4d0735e0c7e2f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:15:11 +0000
Subject: [PATCH 25/78] fix: parallel fdot needs one partial sum per block, not
 per thread

---
 fflas-ffpack/paladin/fflas_plevel1.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/fflas-ffpack/paladin/fflas_plevel1.h b/fflas-ffpack/paladin/fflas_plevel1.h
index 53999ea..c49556e 100644
--- a/fflas-ffpack/paladin/fflas_plevel1.h
+++ b/fflas-ffpack/paladin/fflas_plevel1.h
@@ -96,12 +96,13 @@ namespace FFLAS
          typename Field::Element& d,
          const ParSeqHelper::Parallel<Cut,Param> par)
     {
-        const size_t rs(par.numthreads());
+        // one partial sum for each block that the cutting strategy produces
+        const size_t rs(ForStrategy1D<size_t, Cut, Param>(N, par).numblocks());
         typename Field::Element_ptr z(fflas_new(F,rs));
         for(size_t i=0;i<rs;++i) F.init(z[i]);
 
         SYNCH_GROUP({
-                    FORBLOCK1D(iter, N, SPLITTER(rs, Cut, Param), {
+                    FORBLOCK1D(iter, N, SPLITTER(par.numthreads(), Cut, Param), {
                                const size_t i( iter.blockindex() );
 
                                TASK(MODE(CONSTREFERENCE(F) READ(x,y) WRITE(z[i])), {
-- 
2.43.0


From 256200b576c2cf75617c94a3391082976592b61f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:21:13 +0000
Subject: [PATCH 26/78] fix: binary WriteMatrix must honour the leading
 dimension and column-major storage

---
 fflas-ffpack/utils/fflas_io.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/fflas-ffpack/utils/fflas_io.h b/fflas-ffpack/utils/fflas_io.h
index e879867..7074387 100644
--- a/fflas-ffpack/utils/fflas_io.h
+++ b/fflas-ffpack/utils/fflas_io.h
@@ -253,7 +253,13 @@ namespace FFLAS{
                              c<<std::endl;
                              c.write ( reinterpret_cast<char*> (&m), sizeof (size_t));
                              c.write ( reinterpret_cast<char*> (&n), sizeof (size_t));
-                             c.write ( reinterpret_cast<const char*> (A), sizeof(typename Field::Element)*m*n);
+                             for (size_t i = 0; i<m; ++i){
+                                 if (column_major)
+                                     for (size_t j=0; j<n;++j)
+                                         c.write ( reinterpret_cast<const char*> (A+j*lda+i), sizeof(typename Field::Element));
+                                 else
+                                     c.write ( reinterpret_cast<const char*> (A+i*lda), sizeof(typename Field::Element)*n);
+                             }
                              break;
                          }
         default:{ // format == FflasMath
-- 
2.43.0


From 36893efd3205522c7967c90601812d2dc0ab8111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:21:13 +0000
Subject: [PATCH 27/78] fix: WriteMatrix must not read a column-major matrix as
 row-major

---
 fflas-ffpack/utils/fflas_io.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fflas-ffpack/utils/fflas_io.h b/fflas-ffpack/utils/fflas_io.h
index 7074387..4dd6da5 100644
--- a/fflas-ffpack/utils/fflas_io.h
+++ b/fflas-ffpack/utils/fflas_io.h
@@ -263,7 +263,7 @@ namespace FFLAS{
                              break;
                          }
         default:{ // format == FflasMath
-                    size_t char_width = ceil(FFLAS::bitsize (F,m,n,A,lda)*0.301029995663982);
+                    size_t char_width = ceil((column_major ? FFLAS::bitsize (F,n,m,A,lda) : FFLAS::bitsize (F,m,n,A,lda))*0.301029995663982);
                     if (F.characteristic()==0 || F.minElement()<0) char_width++; // minus sign
                     c.fill(' ');
                     for (size_t i = 0; i<m; ++i){
-- 
2.43.0


From e84c3875f89483c0431c91231ae129d10ca5c5f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:21:13 +0000
Subject: [PATCH 28/78] fix: WriteMatrix must print every digit of floating
 point entries

---
 fflas-ffpack/utils/fflas_io.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fflas-ffpack/utils/fflas_io.h b/fflas-ffpack/utils/fflas_io.h
index 4dd6da5..a1e46e1 100644
--- a/fflas-ffpack/utils/fflas_io.h
+++ b/fflas-ffpack/utils/fflas_io.h
@@ -185,6 +185,8 @@ namespace FFLAS{
     inline std::ostream& WriteMatrix (std::ostream& c, const Field& F, size_t m, size_t n,
                                       typename Field::ConstElement_ptr A, size_t lda,
                                       FFLAS_FORMAT format, bool column_major) {
+        // enough digits to read floating point entries back exactly
+        const std::streamsize precision = c.precision (std::numeric_limits<double>::max_digits10);
         switch (format){
         case FflasSageMath:
             c << "Matrix (";
@@ -277,6 +279,7 @@ namespace FFLAS{
                     }
                 }
         }
+        c.precision (precision);
         return c ;
     }
 
-- 
2.43.0


From 74d44ed1089f4dab4d550b034efa8232e4903ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:28:30 +0000
Subject: [PATCH 29/78] fix: characteristic polynomial checker on the empty
 matrix

The determinant was initialised from the first diagonal entry, which does
not exist for n=0: out-of-bounds read and rejection of the correct
polynomial 1.
---
 fflas-ffpack/checkers/checker_charpoly.inl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fflas-ffpack/checkers/checker_charpoly.inl b/fflas-ffpack/checkers/checker_charpoly.inl
index cd77956..332086a 100644
--- a/fflas-ffpack/checkers/checker_charpoly.inl
+++ b/fflas-ffpack/checkers/checker_charpoly.inl
@@ -136,8 +136,8 @@ namespace FFPACK {
 
             // compute the determinant of A
             F.init(det);
-            F.assign(det, *Ac);
-            for (size_t i=1; i<n; ++i)
+            F.assign(det, F.one);
+            for (size_t i=0; i<n; ++i)
                 F.mulin(det,*(Ac+i*n+i));
             if (n%2 == 1) F.negin(det); // Ac is A -lambda I
 
-- 
2.43.0


From dde900a3ba0b5dd5c0733e4e92ce63248ada976c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:21 +0000
Subject: [PATCH 30/78] fix: scalar floating point reduction near the largest
 exact integer

floor(A/p)*p can exceed 2^24 (2^53) by up to p when A is close to that
bound, so A-Q*p was off by one unless the compiler happened to contract
it. fgemm over Modular<float>(1549) with k=7, alpha=beta=-1 and extremal
entries returned a wrong result. Use the fused operation explicitly where
the hardware provides it, as the SIMD path already does.
---
 fflas-ffpack/fflas/fflas_freduce.inl | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/fflas-ffpack/fflas/fflas_freduce.inl b/fflas-ffpack/fflas/fflas_freduce.inl
index 09460a5..c4d6fa3 100644
--- a/fflas-ffpack/fflas/fflas_freduce.inl
+++ b/fflas-ffpack/fflas/fflas_freduce.inl
@@ -30,6 +30,7 @@
 #ifndef __FFLASFFPACK_fflas_freduce_INL
 #define __FFLASFFPACK_fflas_freduce_INL
 
+#include <cmath>
 #include <givaro/udl.h>
 
 #include "fflas-ffpack/fflas/fflas_fassign.h"
@@ -62,7 +63,12 @@ namespace FFLAS { namespace vectorised { /*  for casts (?) */
     {
         float Q = A * invB;
         Q = floorf(Q);
+#ifdef __FMA__
+        // Q*B may not be representable when |A| is close to the largest exact integer
+        A = std::fma(-Q,B,A);
+#else
         A = A - Q*B;
+#endif
         A = A < min ? A + B : A;
         A = A > max ? A - B : A;
         return A;
@@ -73,7 +79,12 @@ namespace FFLAS { namespace vectorised { /*  for casts (?) */
         //std::cerr<<"fmod"<<std::endl;
         double Q = A * invB;
         Q = floor(Q);
+#ifdef __FMA__
+        // Q*B may not be representable when |A| is close to the largest exact integer
+        A = std::fma(-Q,B,A);
+#else
         A = A - Q*B;
+#endif
         A = A < min ? A + B : A;
         A = A > max ? A - B : A;
         return A;
-- 
2.43.0


From 7a45d03a6b33b9e95a8383e7807b6387a58ebc33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:01 +0000
Subject: [PATCH 31/78] fix: valuate and RandomLTQSRankProfileMatrix are
 defined in a header: make them inline

---
 fflas-ffpack/utils/fflas_randommatrix.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fflas-ffpack/utils/fflas_randommatrix.h b/fflas-ffpack/utils/fflas_randommatrix.h
index 968f304..99c87e7 100644
--- a/fflas-ffpack/utils/fflas_randommatrix.h
+++ b/fflas-ffpack/utils/fflas_randommatrix.h
@@ -494,7 +494,7 @@ namespace FFPACK{
 
     // O(1)
     // estimate what rank a submatrix is able to reach given the current configuration of the algorithm
-    size_t valuate(int ti, int r, int n, int i, int Is_pivot_not_moved,int nb_pivot_after_i, int nb_pivot_bf_i, int nb_pivot_after_i_not_moved, int nb_pivot_before_i_not_moved) {
+    inline size_t valuate(int ti, int r, int n, int i, int Is_pivot_not_moved,int nb_pivot_after_i, int nb_pivot_bf_i, int nb_pivot_after_i_not_moved, int nb_pivot_before_i_not_moved) {
         // Compute the valuation of a given leading submatrix ti
             return ti + std::min(i + 1 - nb_pivot_bf_i, nb_pivot_after_i_not_moved - Is_pivot_not_moved) +
                         std::min(n - (i + 1) - nb_pivot_after_i, nb_pivot_before_i_not_moved - Is_pivot_not_moved);
@@ -507,7 +507,7 @@ namespace FFPACK{
      * @param [out] rows
      * @param [out] cols
     */
-    void RandomLTQSRankProfileMatrix (size_t n, size_t r, size_t t, size_t* rows, size_t* cols) {
+    inline void RandomLTQSRankProfileMatrix (size_t n, size_t r, size_t t, size_t* rows, size_t* cols) {
 
         // if (r <= 0 || n <= 0 || t <= 0) {
         //     std::cout << "care, all the arguments must be positive" << std::endl;
-- 
2.43.0


From 47864ba523991dbecafaab00b00b868a7e698cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:18 +0000
Subject: [PATCH 32/78] fix: C interface: functions declared in ffpack_c.h are
 defined with C linkage under their declared signatures

---
 fflas-ffpack/interfaces/libs/ffpack.C   | 64 ++++++++++++-------------
 fflas-ffpack/interfaces/libs/ffpack_c.h | 10 ++--
 2 files changed, 38 insertions(+), 36 deletions(-)

diff --git a/fflas-ffpack/interfaces/libs/ffpack.C b/fflas-ffpack/interfaces/libs/ffpack.C
index b16de46..7e15c80 100644
--- a/fflas-ffpack/interfaces/libs/ffpack.C
+++ b/fflas-ffpack/interfaces/libs/ffpack.C
@@ -171,8 +171,8 @@ void cyclic_shift_col_modular_double(const double p, double * A, size_t m, size_
 
 void
 applyP_modular_double( const double p,
-                       const enum FFLAS::FFLAS_SIDE Side,
-                       const enum FFLAS::FFLAS_TRANSPOSE Trans,
+                       const enum FFLAS_C_SIDE Side,
+                       const enum FFLAS_C_TRANSPOSE Trans,
                        const size_t M, const size_t ibeg, const size_t iend,
                        double * A, const size_t lda, const size_t * P
                        , bool positive)
@@ -190,7 +190,7 @@ applyP_modular_double( const double p,
 
 void
 fgetrsin_modular_double (const double p,
-                         const enum FFLAS::FFLAS_SIDE Side,
+                         const enum FFLAS_C_SIDE Side,
                          const size_t M, const size_t N, const size_t R,
                          double * A, const size_t lda,
                          const size_t *P, const size_t *Q,
@@ -209,8 +209,8 @@ fgetrsin_modular_double (const double p,
 
 
 double *
-fgetrsv_modular_double (const double p,
-                        const enum FFLAS::FFLAS_SIDE Side,
+fgetrs_modular_double (const double p,
+                        const enum FFLAS_C_SIDE Side,
                         const size_t M, const size_t N, const size_t NRHS, const size_t R,
                         double * A, const size_t lda,
                         const size_t *P, const size_t *Q,
@@ -232,7 +232,7 @@ fgetrsv_modular_double (const double p,
 
 size_t
 fgesvin_modular_double (const double p,
-                        const enum FFLAS::FFLAS_SIDE Side,
+                        const enum FFLAS_C_SIDE Side,
                         const size_t M, const size_t N,
                         double * A, const size_t lda,
                         double * B, const size_t ldb,
@@ -252,7 +252,7 @@ fgesvin_modular_double (const double p,
 
 size_t
 fgesv_modular_double (const double p,
-                      const enum FFLAS::FFLAS_SIDE Side,
+                      const enum FFLAS_C_SIDE Side,
                       const size_t M, const size_t N, const size_t NRHS,
                       double * A, const size_t lda,
                       double * X, const size_t ldx,
@@ -273,7 +273,7 @@ fgesv_modular_double (const double p,
 
 
 void
-ftrtri_modular_double (const double p, const enum FFLAS::FFLAS_UPLO Uplo, const enum FFLAS::FFLAS_DIAG Diag,
+ftrtri_modular_double (const double p, const enum FFLAS_C_UPLO Uplo, const enum FFLAS_C_DIAG Diag,
                        const size_t N, double * A, const size_t lda
                        , bool positive)
 {
@@ -301,15 +301,15 @@ void trinv_left_modular_double( const double p, const size_t N, const double * L
 }
 
 void
-ftrtrm_modular_double (const double p, const FFLAS::FFLAS_SIDE side, const enum FFLAS::FFLAS_DIAG Diag,
+ftrtrm_modular_double (const double p, const enum FFLAS_C_SIDE side, const enum FFLAS_C_DIAG Diag,
                        const size_t N, double * A, const size_t lda, bool positive)
 {
     if (positive) {
         Modular<double> F(p);
-        ftrtrm(F,side,Diag,N,A,lda);
+        ftrtrm(F,(enum FFLAS::FFLAS_SIDE)side,(enum FFLAS::FFLAS_DIAG)Diag,N,A,lda);
     } else {
         ModularBalanced<double> F(p);
-        ftrtrm(F,side,Diag,N,A,lda);
+        ftrtrm(F,(enum FFLAS::FFLAS_SIDE)side,(enum FFLAS::FFLAS_DIAG)Diag,N,A,lda);
     }
 }
 
@@ -318,7 +318,7 @@ ftrtrm_modular_double (const double p, const FFLAS::FFLAS_SIDE side, const enum
 /* PLUQ */
 
 size_t
-PLUQ_modular_double (const double p, const enum FFLAS::FFLAS_DIAG Diag,
+PLUQ_modular_double (const double p, const enum FFLAS_C_DIAG Diag,
                      const size_t M, const size_t N,
                      double * A, const size_t lda,
                      size_t*P, size_t *Q
@@ -334,7 +334,7 @@ PLUQ_modular_double (const double p, const enum FFLAS::FFLAS_DIAG Diag,
 }
 
 size_t
-LUdivine_modular_double (const double p, const enum FFLAS::FFLAS_DIAG Diag,  const enum FFLAS::FFLAS_TRANSPOSE Trans,
+LUdivine_modular_double (const double p, const enum FFLAS_C_DIAG Diag,  const enum FFLAS_C_TRANSPOSE Trans,
                          const size_t M, const size_t N,
                          double * A, const size_t lda,
                          size_t* P, size_t* Qt,
@@ -355,7 +355,7 @@ LUdivine_modular_double (const double p, const enum FFLAS::FFLAS_DIAG Diag,  con
 #if 0 /*  UTILE ?? */
 
 size_t
-LUdivine_small_modular_double (const double p, const enum FFLAS::FFLAS_DIAG Diag,  const enum FFLAS::FFLAS_TRANSPOSE Trans,
+LUdivine_small_modular_double (const double p, const enum FFLAS_C_DIAG Diag,  const enum FFLAS_C_TRANSPOSE Trans,
                                const size_t M, const size_t N,
                                double * A, const size_t lda,
                                size_t* P, size_t* Q,
@@ -363,7 +363,7 @@ LUdivine_small_modular_double (const double p, const enum FFLAS::FFLAS_DIAG Diag
 
 
 size_t
-LUdivine_gauss_modular_double (const double p, const enum FFLAS::FFLAS_DIAG Diag,
+LUdivine_gauss_modular_double (const double p, const enum FFLAS_C_DIAG Diag,
                                const size_t M, const size_t N,
                                double * A, const size_t lda,
                                size_t* P, size_t* Q,
@@ -1014,7 +1014,7 @@ Solve_modular_double( const double p, const size_t M,
 
 
 void
-solveLB_modular_double( const double p, const enum FFLAS::FFLAS_SIDE Side,
+solveLB_modular_double( const double p, const enum FFLAS_C_SIDE Side,
                         const size_t M, const size_t N, const size_t R,
                         double * L, const size_t ldl,
                         const size_t * Q,
@@ -1033,7 +1033,7 @@ solveLB_modular_double( const double p, const enum FFLAS::FFLAS_SIDE Side,
 
 
 void
-solveLB2_modular_double( const double p, const enum FFLAS::FFLAS_SIDE Side,
+solveLB2_modular_double( const double p, const enum FFLAS_C_SIDE Side,
                          const size_t M, const size_t N, const size_t R,
                          double * L, const size_t ldl,
                          const size_t * Q,
@@ -1056,7 +1056,7 @@ solveLB2_modular_double( const double p, const enum FFLAS::FFLAS_SIDE Side,
 /*************/
 
 
-void RandomNullSpaceVector_modular_double (const double p, const enum FFLAS::FFLAS_SIDE Side,
+void RandomNullSpaceVector_modular_double (const double p, const enum FFLAS_C_SIDE Side,
                                            const size_t M, const size_t N,
                                            double * A, const size_t lda,
                                            double * X, const size_t incX
@@ -1073,7 +1073,7 @@ void RandomNullSpaceVector_modular_double (const double p, const enum FFLAS::FFL
 
 
 
-size_t NullSpaceBasis_modular_double (const double p, const enum FFLAS::FFLAS_SIDE Side,
+size_t NullSpaceBasis_modular_double (const double p, const enum FFLAS_C_SIDE Side,
                                       const size_t M, const size_t N,
                                       double * A, const size_t lda,
                                       double ** NS, size_t* ldn,
@@ -1223,8 +1223,8 @@ size_t ColRankProfileSubmatrix_modular_double (const double p, const size_t M, c
 
 
 void
-getTriangular_modular_double (const double p, const enum FFLAS::FFLAS_UPLO Uplo,
-                              const enum FFLAS::FFLAS_DIAG Diag,
+getTriangular_modular_double (const double p, const enum FFLAS_C_UPLO Uplo,
+                              const enum FFLAS_C_DIAG Diag,
                               const size_t M, const size_t N, const size_t R,
                               const double * A, const size_t lda,
                               double * T, const size_t ldt,
@@ -1243,8 +1243,8 @@ getTriangular_modular_double (const double p, const enum FFLAS::FFLAS_UPLO Uplo,
 
 
 void
-getTriangularin_modular_double (const double p, const enum FFLAS::FFLAS_UPLO Uplo,
-                                const enum FFLAS::FFLAS_DIAG Diag,
+getTriangularin_modular_double (const double p, const enum FFLAS_C_UPLO Uplo,
+                                const enum FFLAS_C_DIAG Diag,
                                 const size_t M, const size_t N, const size_t R,
                                 double * A, const size_t lda
                                 , bool positive)
@@ -1261,8 +1261,8 @@ getTriangularin_modular_double (const double p, const enum FFLAS::FFLAS_UPLO Upl
 
 
 void
-getEchelonForm_modular_double (const double p, const enum FFLAS::FFLAS_UPLO Uplo,
-                               const enum FFLAS::FFLAS_DIAG Diag,
+getEchelonForm_modular_double (const double p, const enum FFLAS_C_UPLO Uplo,
+                               const enum FFLAS_C_DIAG Diag,
                                const size_t M, const size_t N, const size_t R, const size_t* P,
                                const double * A, const size_t lda,
                                double * T, const size_t ldt,
@@ -1282,8 +1282,8 @@ getEchelonForm_modular_double (const double p, const enum FFLAS::FFLAS_UPLO Uplo
 
 
 void
-getEchelonFormin_modular_double (const double p, const enum FFLAS::FFLAS_UPLO Uplo,
-                                 const enum FFLAS::FFLAS_DIAG Diag,
+getEchelonFormin_modular_double (const double p, const enum FFLAS_C_UPLO Uplo,
+                                 const enum FFLAS_C_DIAG Diag,
                                  const size_t M, const size_t N, const size_t R, const size_t* P,
                                  double * A, const size_t lda,
                                  const enum FFPACK_C_LU_TAG LuTag
@@ -1300,8 +1300,8 @@ getEchelonFormin_modular_double (const double p, const enum FFLAS::FFLAS_UPLO Up
 
 
 void
-getEchelonTransform_modular_double (const double p, const enum FFLAS::FFLAS_UPLO Uplo,
-                                    const enum FFLAS::FFLAS_DIAG Diag,
+getEchelonTransform_modular_double (const double p, const enum FFLAS_C_UPLO Uplo,
+                                    const enum FFLAS_C_DIAG Diag,
                                     const size_t M, const size_t N, const size_t R, const size_t* P, const size_t* Q,
                                     const double * A, const size_t lda,
                                     double * T, const size_t ldt,
@@ -1321,7 +1321,7 @@ getEchelonTransform_modular_double (const double p, const enum FFLAS::FFLAS_UPLO
 
 
 void
-getReducedEchelonForm_modular_double (const double p, const enum FFLAS::FFLAS_UPLO Uplo,
+getReducedEchelonForm_modular_double (const double p, const enum FFLAS_C_UPLO Uplo,
                                       const size_t M, const size_t N, const size_t R, const size_t* P,
                                       const double * A, const size_t lda,
                                       double * T, const size_t ldt,
@@ -1341,7 +1341,7 @@ getReducedEchelonForm_modular_double (const double p, const enum FFLAS::FFLAS_UP
 
 
 void
-getReducedEchelonFormin_modular_double (const double p, const enum FFLAS::FFLAS_UPLO Uplo,
+getReducedEchelonFormin_modular_double (const double p, const enum FFLAS_C_UPLO Uplo,
                                         const size_t M, const size_t N, const size_t R, const size_t* P,
                                         double * A, const size_t lda,
                                         const enum FFPACK_C_LU_TAG LuTag
@@ -1359,7 +1359,7 @@ getReducedEchelonFormin_modular_double (const double p, const enum FFLAS::FFLAS_
 
 
 void
-getReducedEchelonTransform_modular_double (const double p, const enum FFLAS::FFLAS_UPLO Uplo,
+getReducedEchelonTransform_modular_double (const double p, const enum FFLAS_C_UPLO Uplo,
                                            const size_t M, const size_t N, const size_t R, const size_t* P, const size_t* Q,
                                            const double * A, const size_t lda,
                                            double * T, const size_t ldt,
diff --git a/fflas-ffpack/interfaces/libs/ffpack_c.h b/fflas-ffpack/interfaces/libs/ffpack_c.h
index 191e98a..dcad2a3 100644
--- a/fflas-ffpack/interfaces/libs/ffpack_c.h
+++ b/fflas-ffpack/interfaces/libs/ffpack_c.h
@@ -217,7 +217,8 @@ extern "C" {
                           double * A, const size_t lda,
                           double * X, const size_t ldx,
                           const double * B, const size_t ldb,
-                          int * info);
+                          int * info
+                          , bool positive );
 
     /* ftrtr */
 
@@ -234,8 +235,8 @@ extern "C" {
 
 
     void
-    ftrtrm_modular_double (const double p, const enum FFLAS_C_DIAG diag, const size_t N,
-                           double * A, const size_t lda
+    ftrtrm_modular_double (const double p, const enum FFLAS_C_SIDE side, const enum FFLAS_C_DIAG diag,
+                           const size_t N, double * A, const size_t lda
                            , bool positive );
 
 
@@ -522,7 +523,8 @@ extern "C" {
                             const size_t M, const size_t N, const size_t R,
                             double * L, const size_t ldl,
                             const size_t * Q,
-                            double * B, const size_t ldb );
+                            double * B, const size_t ldb
+                            , bool positive );
 
 
     void
-- 
2.43.0


From fb0a4ecac014f719978e1f85fef4dfc237087d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:18 +0000
Subject: [PATCH 33/78] fix: C interface: the parallel echelon form wrappers
 passed transform and the thread count swapped

---
 fflas-ffpack/interfaces/libs/ffpack.C | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/fflas-ffpack/interfaces/libs/ffpack.C b/fflas-ffpack/interfaces/libs/ffpack.C
index 7e15c80..d7db3f3 100644
--- a/fflas-ffpack/interfaces/libs/ffpack.C
+++ b/fflas-ffpack/interfaces/libs/ffpack.C
@@ -697,10 +697,10 @@ pReducedColumnEchelonForm_modular_float (const float p, const size_t M, const si
 {
     if (positive) {
         Modular<float> F(p);
-        return pReducedColumnEchelonForm(F,M,N,A,lda,P,Qt,0,transform,(enum FFPACK::FFPACK_LU_TAG)LuTag);
+        return pReducedColumnEchelonForm(F,M,N,A,lda,P,Qt,transform,0,(enum FFPACK::FFPACK_LU_TAG)LuTag);
     } else {
         ModularBalanced<float> F(p);
-        return pReducedColumnEchelonForm(F,M,N,A,lda,P,Qt,0,transform,(enum FFPACK::FFPACK_LU_TAG)LuTag);
+        return pReducedColumnEchelonForm(F,M,N,A,lda,P,Qt,transform,0,(enum FFPACK::FFPACK_LU_TAG)LuTag);
     }
 }
 
@@ -715,10 +715,10 @@ pReducedRowEchelonForm_modular_float (const float p, const size_t M, const size_
 {
     if (positive) {
         Modular<float> F(p);
-        return pReducedRowEchelonForm(F,M,N,A,lda,P,Qt,0,transform,(enum FFPACK::FFPACK_LU_TAG)LuTag);
+        return pReducedRowEchelonForm(F,M,N,A,lda,P,Qt,transform,0,(enum FFPACK::FFPACK_LU_TAG)LuTag);
     } else {
         ModularBalanced<float> F(p);
-        return pReducedRowEchelonForm(F,M,N,A,lda,P,Qt,0,transform,(enum FFPACK::FFPACK_LU_TAG)LuTag);
+        return pReducedRowEchelonForm(F,M,N,A,lda,P,Qt,transform,0,(enum FFPACK::FFPACK_LU_TAG)LuTag);
     }
 }
 
@@ -731,10 +731,10 @@ pColumnEchelonForm_modular_int32_t (const int32_t p, const size_t M, const size_
 {
     if (positive) {
         Modular<int32_t> F(p);
-        return pColumnEchelonForm(F,M,N,A,lda,P,Qt,0,transform,(enum FFPACK::FFPACK_LU_TAG)LuTag);
+        return pColumnEchelonForm(F,M,N,A,lda,P,Qt,transform,0,(enum FFPACK::FFPACK_LU_TAG)LuTag);
     } else {
         ModularBalanced<int32_t> F(p);
-        return pColumnEchelonForm(F,M,N,A,lda,P,Qt,0,transform,(enum FFPACK::FFPACK_LU_TAG)LuTag);
+        return pColumnEchelonForm(F,M,N,A,lda,P,Qt,transform,0,(enum FFPACK::FFPACK_LU_TAG)LuTag);
     }
 }
 
@@ -748,10 +748,10 @@ pRowEchelonForm_modular_int32_t (const int32_t p, const size_t M, const size_t N
 {
     if (positive) {
         Modular<int32_t> F(p);
-        return pRowEchelonForm(F,M,N,A,lda,P,Qt,0,transform,(enum FFPACK::FFPACK_LU_TAG)LuTag);
+        return pRowEchelonForm(F,M,N,A,lda,P,Qt,transform,0,(enum FFPACK::FFPACK_LU_TAG)LuTag);
     } else {
         ModularBalanced<int32_t> F(p);
-        return pRowEchelonForm(F,M,N,A,lda,P,Qt,0,transform,(enum FFPACK::FFPACK_LU_TAG)LuTag);
+        return pRowEchelonForm(F,M,N,A,lda,P,Qt,transform,0,(enum FFPACK::FFPACK_LU_TAG)LuTag);
     }
 }
 
@@ -766,10 +766,10 @@ pReducedColumnEchelonForm_modular_int32_t (const int32_t p, const size_t M, cons
 {
     if (positive) {
         Modular<int32_t> F(p);
-        return pReducedColumnEchelonForm(F,M,N,A,lda,P,Qt,0,transform,(enum FFPACK::FFPACK_LU_TAG)LuTag);
+        return pReducedColumnEchelonForm(F,M,N,A,lda,P,Qt,transform,0,(enum FFPACK::FFPACK_LU_TAG)LuTag);
     } else {
         ModularBalanced<int32_t> F(p);
-        return pReducedColumnEchelonForm(F,M,N,A,lda,P,Qt,0,transform,(enum FFPACK::FFPACK_LU_TAG)LuTag);
+        return pReducedColumnEchelonForm(F,M,N,A,lda,P,Qt,transform,0,(enum FFPACK::FFPACK_LU_TAG)LuTag);
     }
 }
 
@@ -784,10 +784,10 @@ pReducedRowEchelonForm_modular_int32_t (const int32_t p, const size_t M, const s
 {
     if (positive) {
         Modular<int32_t> F(p);
-        return pReducedRowEchelonForm(F,M,N,A,lda,P,Qt,0,transform,(enum FFPACK::FFPACK_LU_TAG)LuTag);
+        return pReducedRowEchelonForm(F,M,N,A,lda,P,Qt,transform,0,(enum FFPACK::FFPACK_LU_TAG)LuTag);
     } else {
         ModularBalanced<int32_t> F(p);
-        return pReducedRowEchelonForm(F,M,N,A,lda,P,Qt,0,transform,(enum FFPACK::FFPACK_LU_TAG)LuTag);
+        return pReducedRowEchelonForm(F,M,N,A,lda,P,Qt,transform,0,(enum FFPACK::FFPACK_LU_TAG)LuTag);
     }
 }
 
-- 
2.43.0


From 4fda52f931ddda8ae7e4eda65a873a105d19fdc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:18 +0000
Subject: [PATCH 34/78] fix: rns bases of a given size: draw distinct primes

---
 fflas-ffpack/field/rns-double.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/fflas-ffpack/field/rns-double.h b/fflas-ffpack/field/rns-double.h
index 8286c87..db4800c 100644
--- a/fflas-ffpack/field/rns-double.h
+++ b/fflas-ffpack/field/rns-double.h
@@ -114,8 +114,10 @@ namespace FFPACK {
             _negbasis.resize(size);
             _basisMax.resize(size);
             for(size_t i = 0 ; i < _size ; ++i){
-                integer::random_exact_2exp(prime, _pbits-1);
-                IPD.nextprimein(prime);
+                do {
+                    integer::random_exact_2exp(prime, _pbits-1);
+                    IPD.nextprimein(prime);
+                } while (_M%prime == 0);
                 _basis[i]=prime;
                 _basisMax[i] = prime-1;
                 _negbasis[i] = 0-prime;
@@ -291,8 +293,10 @@ namespace FFPACK {
             _negbasis.resize(size);
             _basisMax.resize(size);
             for(size_t i = 0 ; i < _size ; ++i){
-                integer::random_exact_2exp(prime, _pbits-1);
-                IPD.nextprimein(prime);
+                do {
+                    integer::random_exact_2exp(prime, _pbits-1);
+                    IPD.nextprimein(prime);
+                } while (_M%prime == 0);
                 _basis[i]=prime;
                 _basisMax[i] = prime-1;
                 _negbasis[i] = 0-prime;
-- 
2.43.0


From c664a03b9bfb7bdc1ed0af198070019e74b896fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:18 +0000
Subject: [PATCH 35/78] fix: reduce_modp_rnsmajor: row length of the table of
 multiples of M

---
 fflas-ffpack/field/rns-integer-mod.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fflas-ffpack/field/rns-integer-mod.h b/fflas-ffpack/field/rns-integer-mod.h
index 7675a20..1f6b4f0 100644
--- a/fflas-ffpack/field/rns-integer-mod.h
+++ b/fflas-ffpack/field/rns-integer-mod.h
@@ -698,7 +698,7 @@ namespace FFPACK {
             //std::cout << "aa: " << aa << std::endl;
             for(size_t k = 0; k < _size ; k++){
                 // std::cout << Ad[k] << " - " << _iM_modp_rns[aa+k*_size] << " = ";
-                Fields[k].sub(B._ptr[i*_size+k], Ad[k], _iM_modp_rns[aa+k*_size]);
+                Fields[k].sub(B._ptr[i*_size+k], Ad[k], _iM_modp_rns[aa+k*(_size+1)]);
                 // std::cout<<B._ptr[i*_size+k]<<std::endl;
             }
             FFLAS::fflas_delete(Gamma);
@@ -824,7 +824,7 @@ namespace FFPACK {
                 long aa= (long)rint(alpha[j]);
                 for(size_t i=0;i<_size;i++){
                     //long aa=floor(alpha[j]+0.5);
-                    A[j*_size+i]-=_iM_modp_rns[aa+i*_size];
+                    A[j*_size+i]-=_iM_modp_rns[aa+i*(_size+1)];
                 }
             }
             // vect_t viM;
-- 
2.43.0


From 5cff3b556a1a86ce096b1299ba3c45cb909de7e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:59 +0000
Subject: [PATCH 36/78] fix: reduce_modp_rnsmajor: the table of inverses is not
 aligned for vector loads

---
 fflas-ffpack/field/rns-integer-mod.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fflas-ffpack/field/rns-integer-mod.h b/fflas-ffpack/field/rns-integer-mod.h
index 1f6b4f0..2a9bd4f 100644
--- a/fflas-ffpack/field/rns-integer-mod.h
+++ b/fflas-ffpack/field/rns-integer-mod.h
@@ -749,7 +749,7 @@ namespace FFPACK {
                         max   = simd::load(_rns->_basisMax.data()+k);
                         neg_  = simd::load(_rns->_negbasis.data()+k);
                         vA1   = simd::load(A+i*_size+k);
-                        vMi1  = simd::load(MMi+k);
+                        vMi1  = simd::loadu(MMi+k);
                         v     = simd::mul(vA1, vMi1);
                         tmp1  = simd::floor(simd::mul(v, inv_));
                         tmp2  = simd::fnmadd(v, tmp1, basis);
-- 
2.43.0


From 58a98b5b5609191197c91dfb9d5bc149aaae05f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:38:32 +0000
Subject: [PATCH 37/78] fix: rns_double_extended: honour signs, leading
 dimensions and gamma

---
 fflas-ffpack/field/rns-double.h   | 13 ++++++++++---
 fflas-ffpack/field/rns-double.inl |  4 +++-
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/fflas-ffpack/field/rns-double.h b/fflas-ffpack/field/rns-double.h
index db4800c..449ae43 100644
--- a/fflas-ffpack/field/rns-double.h
+++ b/fflas-ffpack/field/rns-double.h
@@ -357,14 +357,21 @@ namespace FFPACK {
         void init(size_t m, size_t n, double* Arns, size_t rda, const integer* A, size_t lda,
                   const integer& maxA, bool RNS_MAJOR=false) const
         {
-            init(m*n,Arns,A,lda);
+            for (size_t i=0;i<m;i++)
+                init(n,Arns+i*n*_size,A+i*lda,1);
         }
 
         void init(size_t m, size_t n, double* Arns, size_t rda, const integer* A, size_t lda, size_t k, bool RNS_MAJOR=false){
-            init(m*n,Arns,A,lda);
+            for (size_t i=0;i<m;i++)
+                init(n,Arns+i*n*_size,A+i*lda,1);
         }
         void convert(size_t m, size_t n, integer gamma, integer* A, size_t lda, const double* Arns, size_t rda, bool RNS_MAJOR=false){
-            convert(m*n, A, Arns);
+            std::vector<integer> res(n);
+            for (size_t i=0;i<m;i++){
+                convert(n, res.data(), Arns+i*n*_size);
+                for (size_t j=0;j<n;j++)
+                    A[i*lda+j] = gamma*A[i*lda+j] + res[j];
+            }
         }
         void init(size_t m, double* Arns, const integer* A, size_t lda) const;
         void convert(size_t m, integer *A, const double *Arns) const;
diff --git a/fflas-ffpack/field/rns-double.inl b/fflas-ffpack/field/rns-double.inl
index 7713129..5ebf683 100644
--- a/fflas-ffpack/field/rns-double.inl
+++ b/fflas-ffpack/field/rns-double.inl
@@ -540,7 +540,9 @@ namespace FFPACK {
     inline void rns_double_extended::init(size_t m, double* Arns, const integer* A, size_t lda) const{
         for(size_t i = 0 ; i < m ; ++i){
             for(size_t j = 0 ; j < _size ; ++j){
-                Arns[i*_size+j] = (double)((A[i*lda]%integer(_basis[j]))[0]);
+                integer r = A[i*lda]%integer(_basis[j]);
+                if (r<0) r+=integer(_basis[j]);
+                Arns[i*_size+j] = (double)r;
             }
         }
     }
-- 
2.43.0


From 6dffb207586308bde5d9a5ad12f46a383f253fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:02 +0000
Subject: [PATCH 38/78] fix: RandomTriangularMatrix: lower triangular matrices
 with more rows than columns

---
 fflas-ffpack/utils/fflas_randommatrix.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/fflas-ffpack/utils/fflas_randommatrix.h b/fflas-ffpack/utils/fflas_randommatrix.h
index 99c87e7..2a92290 100644
--- a/fflas-ffpack/utils/fflas_randommatrix.h
+++ b/fflas-ffpack/utils/fflas_randommatrix.h
@@ -140,9 +140,10 @@ namespace FFPACK {
             }
         } else { // FflasLower
             for (size_t i=0 ; i<m ; ++i){
-                for (size_t j=0; j<=i ;++j)
+                for (size_t j=0; j<std::min(i+1,n) ;++j)
                     G.random (A[i*lda+j]);
-                FFLAS::fzero (F, n-1-std::min(i,n-1), A + i*lda + i+1, 1);
+                if (i+1 < n)
+                    FFLAS::fzero (F, n-1-i, A + i*lda + i+1, 1);
             }
         }
         if (Diag == FFLAS::FflasUnit){
-- 
2.43.0


From 5430420953664b08c87020604915c72335351966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:02 +0000
Subject: [PATCH 39/78] fix: RandomSymmetricMatrix: symmetric also when a pivot
 is zero

---
 fflas-ffpack/utils/fflas_randommatrix.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fflas-ffpack/utils/fflas_randommatrix.h b/fflas-ffpack/utils/fflas_randommatrix.h
index 2a92290..efe9681 100644
--- a/fflas-ffpack/utils/fflas_randommatrix.h
+++ b/fflas-ffpack/utils/fflas_randommatrix.h
@@ -209,7 +209,8 @@ namespace FFPACK {
                 F.init(inv);
                 F.inv(inv, A[i*(lda+1)]);
                 FFLAS::fscal(F, n-i-1, inv, A+i*(lda+1)+1, 1, A+i*(lda+1)+lda, lda);
-            }
+            } else
+                FFLAS::fzero(F, n-i-1, A+i*(lda+1)+1, 1);
         }
         ftrtrm (F, FFLAS::FflasRight, FFLAS::FflasNonUnit, n, A, lda);
         return A;
-- 
2.43.0


From f7373afb9a46d919ab6e955afa169e4743a238d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:02 +0000
Subject: [PATCH 40/78] fix: RandomMatrixWithRank: honour the prescribed rank

---
 fflas-ffpack/utils/fflas_randommatrix.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/fflas-ffpack/utils/fflas_randommatrix.h b/fflas-ffpack/utils/fflas_randommatrix.h
index efe9681..1c9a3aa 100644
--- a/fflas-ffpack/utils/fflas_randommatrix.h
+++ b/fflas-ffpack/utils/fflas_randommatrix.h
@@ -252,6 +252,7 @@ namespace FFPACK{
         RandomTriangularMatrix (F, m, m, FFLAS::FflasLower, FFLAS::FflasNonUnit, true, L, m, G);
         /*  Create U, upper or rank r */
         RandomTriangularMatrix (F, m, n, FFLAS::FflasUpper, FFLAS::FflasNonUnit, true, U, n, G);
+        FFLAS::fzero (F, m-r, n, U + r*n, n);
 
         /*  Create a random P,Q */
         for (size_t i = 0 ; i < n ; ++i)
-- 
2.43.0


From cca3afb8aafa585bdaca44ef96538a25463c2439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:02 +0000
Subject: [PATCH 41/78] fix: RandomSymmetricRankProfileMatrix: endless loop
 when the last pivot is drawn off the diagonal

---
 fflas-ffpack/utils/fflas_randommatrix.h | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/fflas-ffpack/utils/fflas_randommatrix.h b/fflas-ffpack/utils/fflas_randommatrix.h
index 1c9a3aa..09f61da 100644
--- a/fflas-ffpack/utils/fflas_randommatrix.h
+++ b/fflas-ffpack/utils/fflas_randommatrix.h
@@ -357,13 +357,15 @@ namespace FFPACK{
         for (size_t i=0; i<N; ++i)
             rr[i] = cc[i] = i;
         for (size_t k=0; k<R; k+=2){
-            size_t i = RandInt(k,N);
-            size_t j = RandInt(k,N);
-            cols[k] = cc[j];
-            cc[j] = cc[k];
-            rows[k] = rr[i];
-            rr[i] = rr[k];
-            if (rows[k] != cols[k] && k < R-1){
+            if (k < R-1){
+                size_t i = RandInt(k,N);
+                size_t j = RandInt(k,N);
+                cols[k] = cc[j];
+                cc[j] = cc[k];
+                rows[k] = rr[i];
+                rr[i] = rr[k];
+            }
+            if (k < R-1 && rows[k] != cols[k]){
                 // adding the symmetric element
                 rows[k+1] = cols[k];
                 cols[k+1] = rows[k];
-- 
2.43.0


From 972d7e98b7e2c3989f4e1c8ebd2e3ecd0e2292e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:51:21 +0000
Subject: [PATCH 42/78] fix: RandomLTQSRankProfileMatrix: restore the state
 when a move is undone

---
 fflas-ffpack/utils/fflas_randommatrix.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fflas-ffpack/utils/fflas_randommatrix.h b/fflas-ffpack/utils/fflas_randommatrix.h
index 09f61da..cb980b4 100644
--- a/fflas-ffpack/utils/fflas_randommatrix.h
+++ b/fflas-ffpack/utils/fflas_randommatrix.h
@@ -692,14 +692,14 @@ namespace FFPACK{
                 // O(n)
                 for (size_t k = 0; k<n-1; k++){
                     if (k <= prev_i) {
-                        nb_pivot_after_index_not_moved[k]--;
+                        nb_pivot_after_index_not_moved[k]++;
                     }
                     if (k >= prev_i) {
-                        nb_pivot_before_index_not_moved[k]--;
+                        nb_pivot_before_index_not_moved[k]++;
                     }
                 }
 
-                H[prev_i] = 0;
+                H[prev_i] = 1;
 
                 ++loop;
                 if (prev_h != h) {
-- 
2.43.0


From 6551d594d068a5a3ad594f1f19298fb8680ec5c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:51:37 +0000
Subject: [PATCH 43/78] fix: NonZeroRandomMatrix without a random iterator can
 be called

---
 fflas-ffpack/utils/fflas_randommatrix.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fflas-ffpack/utils/fflas_randommatrix.h b/fflas-ffpack/utils/fflas_randommatrix.h
index cb980b4..e6b1f4f 100644
--- a/fflas-ffpack/utils/fflas_randommatrix.h
+++ b/fflas-ffpack/utils/fflas_randommatrix.h
@@ -72,7 +72,7 @@ namespace FFPACK {
      * @param lda leading dimension of \p A
      * @return \c A.
      */
-    template<class Field, class RandIter>
+    template<class Field>
     inline typename Field::Element_ptr
     NonZeroRandomMatrix(const Field & F, size_t m, size_t n,
                         typename Field::Element_ptr A, size_t lda) {
-- 
2.43.0


From 319cf4230257d6d78cfef69bba4c266e84b4385f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:19 +0000
Subject: [PATCH 44/78] fix: getLTBruhatGen: clear the output with its own
 leading dimension

---
 fflas-ffpack/ffpack/ffpack_bruhatgen.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fflas-ffpack/ffpack/ffpack_bruhatgen.inl b/fflas-ffpack/ffpack/ffpack_bruhatgen.inl
index 3d6f924..a657fb4 100644
--- a/fflas-ffpack/ffpack/ffpack_bruhatgen.inl
+++ b/fflas-ffpack/ffpack/ffpack_bruhatgen.inl
@@ -117,7 +117,7 @@ inline void getLTBruhatGen(const Field& Fi, const FFLAS::FFLAS_UPLO Uplo,const F
                            typename Field::ConstElement_ptr A, const size_t lda,
                            typename Field::Element_ptr T, const size_t ldt)
 
-{   FFLAS::fzero(Fi, N, N, T, N);
+{   FFLAS::fzero(Fi, N, N, T, ldt);
     if (Uplo==FFLAS::FflasUpper) {     //U
         if(diag==FFLAS::FflasNonUnit){
             for(size_t i=0; i<r;i++){
-- 
2.43.0


From 29b29ff1e650706593a0db014142ee0194a66b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:19 +0000
Subject: [PATCH 45/78] fix: CompressToBlockBiDiagonal: permute the copy with
 its own leading dimension

---
 fflas-ffpack/ffpack/ffpack_bruhatgen.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fflas-ffpack/ffpack/ffpack_bruhatgen.inl b/fflas-ffpack/ffpack/ffpack_bruhatgen.inl
index a657fb4..f575a76 100644
--- a/fflas-ffpack/ffpack/ffpack_bruhatgen.inl
+++ b/fflas-ffpack/ffpack/ffpack_bruhatgen.inl
@@ -225,7 +225,7 @@ inline size_t CompressToBlockBiDiagonal(const Field&Fi, const FFLAS::FFLAS_UPLO
    Bruhat2EchelonPermutation (N,r,outer,inner,M);
     size_t * MLap = FFLAS::fflas_new<size_t>(N);
     MathPerm2LAPACKPerm(MLap, M, N);
-    applyP (Fi, Side, Trans, N, size_t(0), N, C, lda, MLap);
+    applyP (Fi, Side, Trans, N, size_t(0), N, C, ldc, MLap);
     size_t * pivot_outer_pos = FFLAS::fflas_new<size_t>(r);
   size_t * last_coeff = FFLAS::fflas_new<size_t>(r);
   for (size_t i=0;i<r;i++)
-- 
2.43.0


From f2eeb8a2f4f2da186139ad32485c1faca6e49772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:08 +0000
Subject: [PATCH 46/78] fix: Bruhat generators: release the work arrays

---
 fflas-ffpack/ffpack/ffpack_bruhatgen.inl | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fflas-ffpack/ffpack/ffpack_bruhatgen.inl b/fflas-ffpack/ffpack/ffpack_bruhatgen.inl
index f575a76..8a5a9e2 100644
--- a/fflas-ffpack/ffpack/ffpack_bruhatgen.inl
+++ b/fflas-ffpack/ffpack/ffpack_bruhatgen.inl
@@ -297,7 +297,7 @@ inline size_t CompressToBlockBiDiagonal(const Field&Fi, const FFLAS::FFLAS_UPLO
     }
  
   FFLAS::fflas_delete(C);
-  FFLAS::fflas_delete(last_coeff);
+  FFLAS::fflas_delete(last_coeff, pivot_outer_pos, MLap, Inv);
   return(NbBlocks);
 
 }
@@ -360,6 +360,7 @@ if (Uplo==FFLAS::FflasUpper)//U
  else{
   applyP (Fi, FFLAS::FflasRight, FFLAS::FflasTrans, N, size_t(0), N, A, lda, MLap);
  }
+     FFLAS::fflas_delete(MLap);
 
 }
  // Compute the permutation M (in MathPermutation format) such that LM^T is in column echelon form, where L is the
@@ -797,6 +798,7 @@ inline  void productBruhatxTS (const Field& Fi, size_t N, size_t s, size_t r, si
 
         FFLAS::fflas_delete (CRE);
     }
+    FFLAS::fflas_delete (R, Tuinv, Tlinv);
 }
 } //namespace FFPACK
 #endif //_FFPACK_ffpack_bruhatgen_inl
-- 
2.43.0


From 1eda9f0a4ad16b3a13ca440ac6208e30b20e4c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:06:27 +0000
Subject: [PATCH 47/78] fix: Simd: the emulated shuffles select the lanes of
 the odd positions with the wrong field

---
 fflas-ffpack/fflas/fflas_simd/simd128_int16.inl |  8 ++++----
 fflas-ffpack/fflas/fflas_simd/simd256_int16.inl | 16 ++++++++--------
 fflas-ffpack/fflas/fflas_simd/simd256_int32.inl |  8 ++++----
 3 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/fflas-ffpack/fflas/fflas_simd/simd128_int16.inl b/fflas-ffpack/fflas/fflas_simd/simd128_int16.inl
index 080f0e1..92ddaec 100644
--- a/fflas-ffpack/fflas/fflas_simd/simd128_int16.inl
+++ b/fflas-ffpack/fflas/fflas_simd/simd128_int16.inl
@@ -198,10 +198,10 @@ template <> struct Simd128_impl<true, true, true, 2> : public Simd128i_base {
         //#pragma warning "The simd shuffle function is emulated, it may impact the performances.";
         Converter conv;
         conv.v = a;
-        return set (conv.t[( s      & 0x0000000F)], conv.t[( s      & 0x000000F0)],
-                    conv.t[((s>> 8) & 0x0000000F)], conv.t[((s>> 8) & 0x000000F0)],
-                    conv.t[((s>>16) & 0x0000000F)], conv.t[((s>>16) & 0x000000F0)],
-                    conv.t[((s>>24) & 0x0000000F)], conv.t[((s>>24) & 0x000000F0)]);
+        return set (conv.t[( s      & 0x0000000F)], conv.t[((s>> 4) & 0x0000000F)],
+                    conv.t[((s>> 8) & 0x0000000F)], conv.t[((s>>12) & 0x0000000F)],
+                    conv.t[((s>>16) & 0x0000000F)], conv.t[((s>>20) & 0x0000000F)],
+                    conv.t[((s>>24) & 0x0000000F)], conv.t[((s>>28) & 0x0000000F)]);
     }
 
     /*
diff --git a/fflas-ffpack/fflas/fflas_simd/simd256_int16.inl b/fflas-ffpack/fflas/fflas_simd/simd256_int16.inl
index 68ed9c4..3116ad6 100644
--- a/fflas-ffpack/fflas/fflas_simd/simd256_int16.inl
+++ b/fflas-ffpack/fflas/fflas_simd/simd256_int16.inl
@@ -216,14 +216,14 @@ template <> struct Simd256_impl<true, true, true, 2> : public Simd256i_base {
         //#pragma warning "The simd shuffle function is emulated, it may impact the performances.";
         Converter conv;
         conv.v = a;
-        return set (conv.t[( s      & 0x000000000000000F)], conv.t[( s      & 0x00000000000000F0)],
-                    conv.t[((s>> 8) & 0x000000000000000F)], conv.t[((s>> 8) & 0x00000000000000F0)],
-                    conv.t[((s>>16) & 0x000000000000000F)], conv.t[((s>>16) & 0x00000000000000F0)],
-                    conv.t[((s>>24) & 0x000000000000000F)], conv.t[((s>>24) & 0x00000000000000F0)],
-                    conv.t[((s>>32) & 0x000000000000000F)], conv.t[((s>>32) & 0x00000000000000F0)],
-                    conv.t[((s>>40) & 0x000000000000000F)], conv.t[((s>>40) & 0x00000000000000F0)],
-                    conv.t[((s>>48) & 0x000000000000000F)], conv.t[((s>>48) & 0x00000000000000F0)],
-                    conv.t[((s>>56) & 0x000000000000000F)], conv.t[((s>>56) & 0x00000000000000F0)]);
+        return set (conv.t[( s      & 0x000000000000000F)], conv.t[((s>> 4) & 0x000000000000000F)],
+                    conv.t[((s>> 8) & 0x000000000000000F)], conv.t[((s>>12) & 0x000000000000000F)],
+                    conv.t[((s>>16) & 0x000000000000000F)], conv.t[((s>>20) & 0x000000000000000F)],
+                    conv.t[((s>>24) & 0x000000000000000F)], conv.t[((s>>28) & 0x000000000000000F)],
+                    conv.t[((s>>32) & 0x000000000000000F)], conv.t[((s>>36) & 0x000000000000000F)],
+                    conv.t[((s>>40) & 0x000000000000000F)], conv.t[((s>>44) & 0x000000000000000F)],
+                    conv.t[((s>>48) & 0x000000000000000F)], conv.t[((s>>52) & 0x000000000000000F)],
+                    conv.t[((s>>56) & 0x000000000000000F)], conv.t[((s>>60) & 0x000000000000000F)]);
     }
 
     /*
diff --git a/fflas-ffpack/fflas/fflas_simd/simd256_int32.inl b/fflas-ffpack/fflas/fflas_simd/simd256_int32.inl
index 3d96675..320d327 100644
--- a/fflas-ffpack/fflas/fflas_simd/simd256_int32.inl
+++ b/fflas-ffpack/fflas/fflas_simd/simd256_int32.inl
@@ -222,10 +222,10 @@ template <> struct Simd256_impl<true, true, true, 4> : public Simd256i_base {
         //#pragma warning "The simd shuffle function is emulated, it may impact the performances."
         Converter conv;
         conv.v = a;
-        return set (conv.t[( s      & 0x0000000F)], conv.t[( s      & 0x000000F0)],
-                    conv.t[((s>> 8) & 0x0000000F)], conv.t[((s>> 8) & 0x000000F0)],
-                    conv.t[((s>>16) & 0x0000000F)], conv.t[((s>>16) & 0x000000F0)],
-                    conv.t[((s>>24) & 0x0000000F)], conv.t[((s>>24) & 0x000000F0)]);
+        return set (conv.t[( s      & 0x0000000F)], conv.t[((s>> 4) & 0x0000000F)],
+                    conv.t[((s>> 8) & 0x0000000F)], conv.t[((s>>12) & 0x0000000F)],
+                    conv.t[((s>>16) & 0x0000000F)], conv.t[((s>>20) & 0x0000000F)],
+                    conv.t[((s>>24) & 0x0000000F)], conv.t[((s>>28) & 0x0000000F)]);
     }
 
     /*
-- 
2.43.0


From 54774c7220abaa6937db2eb1661e493b97cb1834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:06:53 +0000
Subject: [PATCH 48/78] fix: Simd: in-place operations are not const functions
 (the call is dropped)

---
 fflas-ffpack/fflas/fflas_simd/simd128_double.inl | 10 +++++-----
 fflas-ffpack/fflas/fflas_simd/simd128_float.inl  | 10 +++++-----
 fflas-ffpack/fflas/fflas_simd/simd256_double.inl | 10 +++++-----
 fflas-ffpack/fflas/fflas_simd/simd256_float.inl  | 10 +++++-----
 fflas-ffpack/fflas/fflas_simd/simd512_double.inl | 10 +++++-----
 fflas-ffpack/fflas/fflas_simd/simd512_float.inl  | 10 +++++-----
 6 files changed, 30 insertions(+), 30 deletions(-)

diff --git a/fflas-ffpack/fflas/fflas_simd/simd128_double.inl b/fflas-ffpack/fflas/fflas_simd/simd128_double.inl
index 064e987..75525a6 100644
--- a/fflas-ffpack/fflas/fflas_simd/simd128_double.inl
+++ b/fflas-ffpack/fflas/fflas_simd/simd128_double.inl
@@ -313,7 +313,7 @@ template <> struct Simd128_impl<true, false, true, 8> {
      */
     static INLINE CONST vect_t sub(const vect_t a, const vect_t b) { return _mm_sub_pd(a, b); }
 
-    static INLINE CONST vect_t subin(vect_t &a, const vect_t b) { return a = sub(a, b); }
+    static INLINE vect_t subin(vect_t &a, const vect_t b) { return a = sub(a, b); }
 
     /*
      * Multiply packed double-precision (64-bit) floating-point elements in a and b, and store the results in vect_t.
@@ -322,7 +322,7 @@ template <> struct Simd128_impl<true, false, true, 8> {
      */
     static INLINE CONST vect_t mul(const vect_t a, const vect_t b) { return _mm_mul_pd(a, b); }
 
-    static INLINE CONST vect_t mulin(vect_t &a, const vect_t b) { return a = mul(a, b); }
+    static INLINE vect_t mulin(vect_t &a, const vect_t b) { return a = mul(a, b); }
 
     /*
      * Divide packed double-precision (64-bit) floating-point elements in a by packed elements in b,
@@ -351,7 +351,7 @@ template <> struct Simd128_impl<true, false, true, 8> {
 #endif
     }
 
-    static INLINE CONST vect_t fmaddin(vect_t &c, const vect_t a, const vect_t b) { return c = fmadd(c, a, b); }
+    static INLINE vect_t fmaddin(vect_t &c, const vect_t a, const vect_t b) { return c = fmadd(c, a, b); }
 
     /*
      * Multiply packed double-precision (64-bit) floating-point elements in a and b, add the negated intermediate result
@@ -367,7 +367,7 @@ template <> struct Simd128_impl<true, false, true, 8> {
 #endif
     }
 
-    static INLINE CONST vect_t fnmaddin(vect_t &c, const vect_t a, const vect_t b) { return c = fnmadd(c, a, b); }
+    static INLINE vect_t fnmaddin(vect_t &c, const vect_t a, const vect_t b) { return c = fnmadd(c, a, b); }
 
     /*
      * Multiply packed double-precision (64-bit) floating-point elements in a and b, subtract packed elements in c from
@@ -383,7 +383,7 @@ template <> struct Simd128_impl<true, false, true, 8> {
 #endif
     }
 
-    static INLINE CONST vect_t fmsubin(vect_t &c, const vect_t a, const vect_t b) { return c = fmsub(c, a, b); }
+    static INLINE vect_t fmsubin(vect_t &c, const vect_t a, const vect_t b) { return c = fmsub(c, a, b); }
 
     /*
      * Compare packed double-precision (64-bit) floating-point elements in a and b for equality, and store the results
diff --git a/fflas-ffpack/fflas/fflas_simd/simd128_float.inl b/fflas-ffpack/fflas/fflas_simd/simd128_float.inl
index 5d009f3..f0bd00f 100644
--- a/fflas-ffpack/fflas/fflas_simd/simd128_float.inl
+++ b/fflas-ffpack/fflas/fflas_simd/simd128_float.inl
@@ -342,7 +342,7 @@ template <> struct Simd128_impl<true, false, true, 4> {
      */
     static INLINE CONST vect_t sub(const vect_t a, const vect_t b) { return _mm_sub_ps(a, b); }
 
-    static INLINE CONST vect_t subin(vect_t &a, const vect_t b) { return a = sub(a, b); }
+    static INLINE vect_t subin(vect_t &a, const vect_t b) { return a = sub(a, b); }
 
     /*
      * Multiply packed single-precision (32-bit) floating-point elements in a and b, and store the results in vect_t.
@@ -351,7 +351,7 @@ template <> struct Simd128_impl<true, false, true, 4> {
      */
     static INLINE CONST vect_t mul(const vect_t a, const vect_t b) { return _mm_mul_ps(a, b); }
 
-    static INLINE CONST vect_t mulin(vect_t &a, const vect_t b) { return a = mul(a, b); }
+    static INLINE vect_t mulin(vect_t &a, const vect_t b) { return a = mul(a, b); }
 
     /*
      * Divide packed single-precision (32-bit) floating-point elements in a by packed elements in b,
@@ -383,7 +383,7 @@ template <> struct Simd128_impl<true, false, true, 4> {
 #endif
     }
 
-    static INLINE CONST vect_t fmaddin(vect_t &c, const vect_t a, const vect_t b) { return c = fmadd(c, a, b); }
+    static INLINE vect_t fmaddin(vect_t &c, const vect_t a, const vect_t b) { return c = fmadd(c, a, b); }
 
     /*
      * Multiply packed single-precision (32-bit) floating-point elements in a and b, add the intermediate result to
@@ -399,7 +399,7 @@ template <> struct Simd128_impl<true, false, true, 4> {
 #endif
     }
 
-    static INLINE CONST vect_t fnmaddin(vect_t &c, const vect_t a, const vect_t b) { return c = fnmadd(c, a, b); }
+    static INLINE vect_t fnmaddin(vect_t &c, const vect_t a, const vect_t b) { return c = fnmadd(c, a, b); }
 
     /*
      * Multiply packed single-precision (32-bit) floating-point elements in a and b, subtract packed elements in c from
@@ -415,7 +415,7 @@ template <> struct Simd128_impl<true, false, true, 4> {
 #endif
     }
 
-    static INLINE CONST vect_t fmsubin(vect_t &c, const vect_t a, const vect_t b) { return c = fmsub(c, a, b); }
+    static INLINE vect_t fmsubin(vect_t &c, const vect_t a, const vect_t b) { return c = fmsub(c, a, b); }
 
     /*
      * Compare packed single-precision (32-bit) floating-point elements in a and b for equality, and store the results
diff --git a/fflas-ffpack/fflas/fflas_simd/simd256_double.inl b/fflas-ffpack/fflas/fflas_simd/simd256_double.inl
index 6a94e5d..6514071 100644
--- a/fflas-ffpack/fflas/fflas_simd/simd256_double.inl
+++ b/fflas-ffpack/fflas/fflas_simd/simd256_double.inl
@@ -390,7 +390,7 @@ template <> struct Simd256_impl<true, false, true, 8> : public Simd256fp_base {
      */
     static INLINE CONST vect_t sub(const vect_t a, const vect_t b) { return _mm256_sub_pd(a, b); }
 
-    static INLINE CONST vect_t subin(vect_t &a, const vect_t b) { return a = sub(a, b); }
+    static INLINE vect_t subin(vect_t &a, const vect_t b) { return a = sub(a, b); }
 
     /*
      * Multiply packed double-precision (64-bit) floating-point elements in a and b, and store the results in vect_t.
@@ -399,7 +399,7 @@ template <> struct Simd256_impl<true, false, true, 8> : public Simd256fp_base {
      */
     static INLINE CONST vect_t mul(const vect_t a, const vect_t b) { return _mm256_mul_pd(a, b); }
 
-    static INLINE CONST vect_t mulin(vect_t &a, const vect_t b) { return a = mul(a, b); }
+    static INLINE vect_t mulin(vect_t &a, const vect_t b) { return a = mul(a, b); }
 
     /*
      * Divide packed double-precision (64-bit) floating-point elements in a by packed elements in b,
@@ -430,7 +430,7 @@ template <> struct Simd256_impl<true, false, true, 8> : public Simd256fp_base {
 #endif
     }
 
-    static INLINE CONST vect_t fmaddin(vect_t &c, const vect_t a, const vect_t b) { return c = fmadd(c, a, b); }
+    static INLINE vect_t fmaddin(vect_t &c, const vect_t a, const vect_t b) { return c = fmadd(c, a, b); }
 
     /*
      * Multiply packed double-precision (64-bit) floating-point elements in a and b, add the negated intermediate result
@@ -446,7 +446,7 @@ template <> struct Simd256_impl<true, false, true, 8> : public Simd256fp_base {
 #endif
     }
 
-    static INLINE CONST vect_t fnmaddin(vect_t &c, const vect_t a, const vect_t b) { return c = fnmadd(c, a, b); }
+    static INLINE vect_t fnmaddin(vect_t &c, const vect_t a, const vect_t b) { return c = fnmadd(c, a, b); }
 
     /*
      * Multiply packed double-precision (64-bit) floating-point elements in a and b, subtract packed elements in c from
@@ -462,7 +462,7 @@ template <> struct Simd256_impl<true, false, true, 8> : public Simd256fp_base {
 #endif
     }
 
-    static INLINE CONST vect_t fmsubin(vect_t &c, const vect_t a, const vect_t b) { return c = fmsub(c, a, b); }
+    static INLINE vect_t fmsubin(vect_t &c, const vect_t a, const vect_t b) { return c = fmsub(c, a, b); }
 
     /*
      * Compare packed double-precision (64-bit) floating-point elements in a and b for equality, and store the results
diff --git a/fflas-ffpack/fflas/fflas_simd/simd256_float.inl b/fflas-ffpack/fflas/fflas_simd/simd256_float.inl
index c7b0fa4..3d002a3 100644
--- a/fflas-ffpack/fflas/fflas_simd/simd256_float.inl
+++ b/fflas-ffpack/fflas/fflas_simd/simd256_float.inl
@@ -432,7 +432,7 @@ template <> struct Simd256_impl<true, false, true, 4> : public Simd256fp_base {
      */
     static INLINE CONST vect_t sub(const vect_t a, const vect_t b) { return _mm256_sub_ps(a, b); }
 
-    static INLINE CONST vect_t subin(vect_t &a, const vect_t b) { return a = sub(a, b); }
+    static INLINE vect_t subin(vect_t &a, const vect_t b) { return a = sub(a, b); }
 
     /*
      * Multiply packed single-precision (32-bit) floating-point elements in a and b, and store the results in vect_t.
@@ -441,7 +441,7 @@ template <> struct Simd256_impl<true, false, true, 4> : public Simd256fp_base {
      */
     static INLINE CONST vect_t mul(const vect_t a, const vect_t b) { return _mm256_mul_ps(a, b); }
 
-    static INLINE CONST vect_t mulin(vect_t &a, const vect_t b) { return a = mul(a, b); }
+    static INLINE vect_t mulin(vect_t &a, const vect_t b) { return a = mul(a, b); }
 
     /*
      * Divide packed single-precision (32-bit) floating-point elements in a by packed elements in b,
@@ -476,7 +476,7 @@ template <> struct Simd256_impl<true, false, true, 4> : public Simd256fp_base {
 #endif
     }
 
-    static INLINE CONST vect_t fmaddin(vect_t &c, const vect_t a, const vect_t b) { return c = fmadd(c, a, b); }
+    static INLINE vect_t fmaddin(vect_t &c, const vect_t a, const vect_t b) { return c = fmadd(c, a, b); }
 
     /*
      * Multiply packed single-precision (32-bit) floating-point elements in a and b, add the negated intermediate result
@@ -492,7 +492,7 @@ template <> struct Simd256_impl<true, false, true, 4> : public Simd256fp_base {
 #endif
     }
 
-    static INLINE CONST vect_t fnmaddin(vect_t &c, const vect_t a, const vect_t b) { return c = fnmadd(c, a, b); }
+    static INLINE vect_t fnmaddin(vect_t &c, const vect_t a, const vect_t b) { return c = fnmadd(c, a, b); }
 
     /*
      * Multiply packed single-precision (32-bit) floating-point elements in a and b, subtract packed elements in c from
@@ -508,7 +508,7 @@ template <> struct Simd256_impl<true, false, true, 4> : public Simd256fp_base {
 #endif
     }
 
-    static INLINE CONST vect_t fmsubin(vect_t &c, const vect_t a, const vect_t b) { return c = fmsub(c, a, b); }
+    static INLINE vect_t fmsubin(vect_t &c, const vect_t a, const vect_t b) { return c = fmsub(c, a, b); }
 
     /*
      * Compare packed single-precision (32-bit) floating-point elements in a and b for equality, and store the results
diff --git a/fflas-ffpack/fflas/fflas_simd/simd512_double.inl b/fflas-ffpack/fflas/fflas_simd/simd512_double.inl
index b89f61b..cb6514d 100644
--- a/fflas-ffpack/fflas/fflas_simd/simd512_double.inl
+++ b/fflas-ffpack/fflas/fflas_simd/simd512_double.inl
@@ -388,7 +388,7 @@ template <> struct Simd512_impl<true, false, true, 8> {
     static INLINE CONST vect_t sub(const vect_t a, const vect_t b) {
         return _mm512_sub_pd(a, b); }
 
-    static INLINE CONST vect_t subin(vect_t &a, const vect_t b) { return a = sub(a, b); }
+    static INLINE vect_t subin(vect_t &a, const vect_t b) { return a = sub(a, b); }
 
     /*
      * Multiply packed double-precision (64-bit) floating-point elements in a and b, and store the results in vect_t.
@@ -397,7 +397,7 @@ template <> struct Simd512_impl<true, false, true, 8> {
      */
     static INLINE CONST vect_t mul(const vect_t a, const vect_t b) { return _mm512_mul_pd(a, b); }
 
-    static INLINE CONST vect_t mulin(vect_t &a, const vect_t b) { return a = mul(a, b); }
+    static INLINE vect_t mulin(vect_t &a, const vect_t b) { return a = mul(a, b); }
 
     /*
      * Divide packed double-precision (64-bit) floating-point elements in a by packed elements in b,
@@ -417,7 +417,7 @@ template <> struct Simd512_impl<true, false, true, 8> {
         return _mm512_fmadd_pd(a, b, c);
     }
 
-    static INLINE CONST vect_t fmaddin(vect_t &c, const vect_t a, const vect_t b) { return c = fmadd(c, a, b); }
+    static INLINE vect_t fmaddin(vect_t &c, const vect_t a, const vect_t b) { return c = fmadd(c, a, b); }
 
     /*
      * Multiply packed double-precision (64-bit) floating-point elements in a and b, add the negated intermediate result
@@ -429,7 +429,7 @@ template <> struct Simd512_impl<true, false, true, 8> {
         return _mm512_fnmadd_pd(a, b, c);
     }
 
-    static INLINE CONST vect_t fnmaddin(vect_t &c, const vect_t a, const vect_t b) { return c = fnmadd(c, a, b); }
+    static INLINE vect_t fnmaddin(vect_t &c, const vect_t a, const vect_t b) { return c = fnmadd(c, a, b); }
 
     /*
      * Multiply packed double-precision (64-bit) floating-point elements in a and b, subtract packed elements in c from
@@ -441,7 +441,7 @@ template <> struct Simd512_impl<true, false, true, 8> {
         return _mm512_fmsub_pd(a, b, c);
     }
 
-    static INLINE CONST vect_t fmsubin(vect_t &c, const vect_t a, const vect_t b) { return c = fmsub(c, a, b); }
+    static INLINE vect_t fmsubin(vect_t &c, const vect_t a, const vect_t b) { return c = fmsub(c, a, b); }
 
     /*
      * Compare packed double-precision (64-bit) floating-point elements in a and b for equality, and store the results
diff --git a/fflas-ffpack/fflas/fflas_simd/simd512_float.inl b/fflas-ffpack/fflas/fflas_simd/simd512_float.inl
index 5c418ce..a11c8ae 100644
--- a/fflas-ffpack/fflas/fflas_simd/simd512_float.inl
+++ b/fflas-ffpack/fflas/fflas_simd/simd512_float.inl
@@ -438,7 +438,7 @@ template <> struct Simd512_impl<true, false, true, 4> {
      */
     static INLINE CONST vect_t sub(const vect_t a, const vect_t b) { return _mm512_sub_ps(a, b); }
 
-    static INLINE CONST vect_t subin(vect_t &a, const vect_t b) { return a = sub(a, b); }
+    static INLINE vect_t subin(vect_t &a, const vect_t b) { return a = sub(a, b); }
 
     /*
      * Multiply packed single-precision (32-bit) floating-point elements in a and b, and store the results in vect_t.
@@ -448,7 +448,7 @@ template <> struct Simd512_impl<true, false, true, 4> {
      */
     static INLINE CONST vect_t mul(const vect_t a, const vect_t b) { return _mm512_mul_ps(a, b); }
 
-    static INLINE CONST vect_t mulin(vect_t &a, const vect_t b) { return a = mul(a, b); }
+    static INLINE vect_t mulin(vect_t &a, const vect_t b) { return a = mul(a, b); }
 
     /*
      * Divide packed single-precision (32-bit) floating-point elements in a by packed elements in b,
@@ -472,7 +472,7 @@ template <> struct Simd512_impl<true, false, true, 4> {
         return _mm512_fmadd_ps(a, b, c);
     }
 
-    static INLINE CONST vect_t fmaddin(vect_t &c, const vect_t a, const vect_t b) { return c = fmadd(c, a, b); }
+    static INLINE vect_t fmaddin(vect_t &c, const vect_t a, const vect_t b) { return c = fmadd(c, a, b); }
 
     /*
      * Multiply packed single-precision (32-bit) floating-point elements in a and b, add the negated intermediate result
@@ -487,7 +487,7 @@ template <> struct Simd512_impl<true, false, true, 4> {
         return _mm512_fnmadd_ps(a, b, c);
     }
 
-    static INLINE CONST vect_t fnmaddin(vect_t &c, const vect_t a, const vect_t b) { return c = fnmadd(c, a, b); }
+    static INLINE vect_t fnmaddin(vect_t &c, const vect_t a, const vect_t b) { return c = fnmadd(c, a, b); }
 
     /*
      * Multiply packed single-precision (32-bit) floating-point elements in a and b, subtract packed elements in c from
@@ -502,7 +502,7 @@ template <> struct Simd512_impl<true, false, true, 4> {
         return _mm512_fmsub_ps(a, b, c);
     }
 
-    static INLINE CONST vect_t fmsubin(vect_t &c, const vect_t a, const vect_t b) { return c = fmsub(c, a, b); }
+    static INLINE vect_t fmsubin(vect_t &c, const vect_t a, const vect_t b) { return c = fmsub(c, a, b); }
 
 
     /*
-- 
2.43.0


From 5ed41179cbf68a6996882cb31360e536137c67fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:06:53 +0000
Subject: [PATCH 49/78] fix: FieldSimd: two-operand sub corrects results below
 the smallest element

---
 fflas-ffpack/fflas/fflas_simd/simd_modular.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fflas-ffpack/fflas/fflas_simd/simd_modular.inl b/fflas-ffpack/fflas/fflas_simd/simd_modular.inl
index 1c7525c..7edbf86 100644
--- a/fflas-ffpack/fflas/fflas_simd/simd_modular.inl
+++ b/fflas-ffpack/fflas/fflas_simd/simd_modular.inl
@@ -107,7 +107,7 @@ public:
     INLINE vect_t sub(const vect_t a, const vect_t b) {
         vect_t c;
         c = simd::sub(a, b);
-        _mask = simd::greater(c, _max);
+        _mask = simd::lesser(c, _min);
         _mask = simd::vand(_mask, _modulus);
         return c = simd::add(c, _mask);
     }
-- 
2.43.0


From 9dc1cd2918f19df0e7280d3d14750af978d29ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:06:53 +0000
Subject: [PATCH 50/78] fix: FieldSimd: maxpy computes c - a*b

---
 fflas-ffpack/fflas/fflas_simd/simd_modular.inl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fflas-ffpack/fflas/fflas_simd/simd_modular.inl b/fflas-ffpack/fflas/fflas_simd/simd_modular.inl
index 7edbf86..710c6ea 100644
--- a/fflas-ffpack/fflas/fflas_simd/simd_modular.inl
+++ b/fflas-ffpack/fflas/fflas_simd/simd_modular.inl
@@ -168,10 +168,10 @@ public:
     INLINE vect_t axpyin_r(vect_t &c, const vect_t a, const vect_t b) const { return c = axpy_r(c, a, b); }
 
     INLINE vect_t maxpy(vect_t &r, const vect_t a, const vect_t b, const vect_t c) const {
-        return r = mod(simd::fmsub(c, a, b));
+        return r = mod(simd::fnmadd(c, a, b));
     }
 
-    INLINE vect_t maxpy(const vect_t c, const vect_t a, const vect_t b) const { return mod(simd::fmsub(c, a, b)); }
+    INLINE vect_t maxpy(const vect_t c, const vect_t a, const vect_t b) const { return mod(simd::fnmadd(c, a, b)); }
 
     INLINE vect_t maxpyin(vect_t &c, const vect_t a, const vect_t b) const { return c = maxpy(c, a, b); }
 };
-- 
2.43.0


From 5000a98e8ba7327f0cb0f53ec49000e688968177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:07:34 +0000
Subject: [PATCH 51/78] fix: FieldSimd: in-place and multiplicative operations
 can be instantiated

---
 .../fflas/fflas_simd/simd_modular.inl         | 35 ++++++++++---------
 1 file changed, 18 insertions(+), 17 deletions(-)

diff --git a/fflas-ffpack/fflas/fflas_simd/simd_modular.inl b/fflas-ffpack/fflas/fflas_simd/simd_modular.inl
index 710c6ea..69a349c 100644
--- a/fflas-ffpack/fflas/fflas_simd/simd_modular.inl
+++ b/fflas-ffpack/fflas/fflas_simd/simd_modular.inl
@@ -45,7 +45,6 @@ private:
     vect_t _modulus;
     vect_t _invmod;
     vect_t _negmod;
-    vect_t _mask;
     vect_t _min;
     vect_t _max;
 
@@ -70,21 +69,21 @@ public:
     Self &operator=(const Self &) = default;
     Self &operator=(Self &&) = default;
 
-    INLINE vect_t init(vect_t &x, const vect_t a) const { return x = mod(a); }
+    INLINE vect_t init(vect_t &x, const vect_t a) const { x = a; return mod(x); }
 
-    INLINE vect_t init(const vect_t a) const { return mod(a); }
+    INLINE vect_t init(const vect_t a) const { vect_t x = a; return mod(x); }
 
-    INLINE vect_t add(vect_t &c, const vect_t a, const vect_t b) {
+    INLINE vect_t add(vect_t &c, const vect_t a, const vect_t b) const {
         c = simd::add(a, b);
-        _mask = simd::greater(c, _max);
+        vect_t _mask = simd::greater(c, _max);
         _mask = simd::vand(_mask, _modulus);
         return c = simd::sub(c, _mask);
     }
 
-    INLINE vect_t add(const vect_t a, const vect_t b) {
+    INLINE vect_t add(const vect_t a, const vect_t b) const {
         vect_t c;
         c = simd::add(a, b);
-        _mask = simd::greater(c, _max);
+        vect_t _mask = simd::greater(c, _max);
         _mask = simd::vand(_mask, _modulus);
         return c = simd::sub(c, _mask);
     }
@@ -97,17 +96,17 @@ public:
 
     INLINE vect_t addin_r(vect_t &a, const vect_t b) const { return a = add_r(a, b); }
 
-    INLINE vect_t sub(vect_t &c, const vect_t a, const vect_t b) {
+    INLINE vect_t sub(vect_t &c, const vect_t a, const vect_t b) const {
         c = simd::sub(a, b);
-        _mask = simd::lesser(c, _min);
+        vect_t _mask = simd::lesser(c, _min);
         _mask = simd::vand(_mask, _modulus);
         return c = simd::add(c, _mask);
     }
 
-    INLINE vect_t sub(const vect_t a, const vect_t b) {
+    INLINE vect_t sub(const vect_t a, const vect_t b) const {
         vect_t c;
         c = simd::sub(a, b);
-        _mask = simd::lesser(c, _min);
+        vect_t _mask = simd::lesser(c, _min);
         _mask = simd::vand(_mask, _modulus);
         return c = simd::add(c, _mask);
     }
@@ -141,9 +140,9 @@ public:
         }
     }
 
-    INLINE vect_t mul(vect_t &c, const vect_t a, const vect_t b) const { return c = mod(simd::mul(a, b)); }
+    INLINE vect_t mul(vect_t &c, const vect_t a, const vect_t b) const { c = simd::mul(a, b); return mod(c); }
 
-    INLINE vect_t mul(const vect_t a, const vect_t b) const { return mod(simd::mul(a, b)); }
+    INLINE vect_t mul(const vect_t a, const vect_t b) const { vect_t c = simd::mul(a, b); return mod(c); }
 
     INLINE vect_t mulin(vect_t &a, const vect_t b) const { return mul(a, a, b); }
 
@@ -152,10 +151,11 @@ public:
     INLINE vect_t mul_r(const vect_t a, const vect_t b) const { return simd::mul(a, b); }
 
     INLINE vect_t axpy(vect_t &r, const vect_t a, const vect_t b, const vect_t c) const {
-        return r = mod(simd::fmadd(c, a, b));
+        r = simd::fmadd(c, a, b);
+        return mod(r);
     }
 
-    INLINE vect_t axpy(const vect_t c, const vect_t a, const vect_t b) const { return mod(simd::fmadd(c, a, b)); }
+    INLINE vect_t axpy(const vect_t c, const vect_t a, const vect_t b) const { vect_t r = simd::fmadd(c, a, b); return mod(r); }
 
     INLINE vect_t axpyin(vect_t &c, const vect_t a, const vect_t b) const { return c = axpy(c, a, b); }
 
@@ -168,10 +168,11 @@ public:
     INLINE vect_t axpyin_r(vect_t &c, const vect_t a, const vect_t b) const { return c = axpy_r(c, a, b); }
 
     INLINE vect_t maxpy(vect_t &r, const vect_t a, const vect_t b, const vect_t c) const {
-        return r = mod(simd::fnmadd(c, a, b));
+        r = simd::fnmadd(c, a, b);
+        return mod(r);
     }
 
-    INLINE vect_t maxpy(const vect_t c, const vect_t a, const vect_t b) const { return mod(simd::fnmadd(c, a, b)); }
+    INLINE vect_t maxpy(const vect_t c, const vect_t a, const vect_t b) const { vect_t r = simd::fnmadd(c, a, b); return mod(r); }
 
     INLINE vect_t maxpyin(vect_t &c, const vect_t a, const vect_t b) const { return c = maxpy(c, a, b); }
 };
-- 
2.43.0


From f4b28eaef7922689bee26d7b200a21d674bcbe52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:08:14 +0000
Subject: [PATCH 52/78] fix: Simd int64: signbits shifts by the width of the
 element (mulhi_fast of negative operands)

---
 fflas-ffpack/fflas/fflas_simd/simd128_int64.inl | 2 +-
 fflas-ffpack/fflas/fflas_simd/simd256_int64.inl | 2 +-
 fflas-ffpack/fflas/fflas_simd/simd512_int64.inl | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/fflas-ffpack/fflas/fflas_simd/simd128_int64.inl b/fflas-ffpack/fflas/fflas_simd/simd128_int64.inl
index 0345843..48faba5 100644
--- a/fflas-ffpack/fflas/fflas_simd/simd128_int64.inl
+++ b/fflas-ffpack/fflas/fflas_simd/simd128_int64.inl
@@ -573,7 +573,7 @@ template <> struct Simd128_impl<true, true, true, 8> : public Simd128i_base {
 protected:
     /* return the sign where vect_t is seen as four int32_t */
     static INLINE CONST vect_t signbits(const vect_t x) {
-        vect_t signBits = sub(zero(), srl< 4*sizeof(scalar_t)-1>(x));
+        vect_t signBits = sub(zero(), srl<8*sizeof(scalar_t)-1>(x));
         return signBits;
     }
 }; // Simd128_impl<true, true, true, 8>
diff --git a/fflas-ffpack/fflas/fflas_simd/simd256_int64.inl b/fflas-ffpack/fflas/fflas_simd/simd256_int64.inl
index 660f965..ac2a7d2 100644
--- a/fflas-ffpack/fflas/fflas_simd/simd256_int64.inl
+++ b/fflas-ffpack/fflas/fflas_simd/simd256_int64.inl
@@ -600,7 +600,7 @@ template <> struct Simd256_impl<true, true, true, 8> : public Simd256i_base {
 protected:
     /* return the sign where vect_t is seen as eight int32_t */
     static INLINE CONST vect_t signbits(const vect_t x) {
-        vect_t signBits = sub(zero(), srl< 4*sizeof(scalar_t)-1>(x));
+        vect_t signBits = sub(zero(), srl<8*sizeof(scalar_t)-1>(x));
         return signBits;
     }
 }; // Simd256_impl<true, true, true, 8>
diff --git a/fflas-ffpack/fflas/fflas_simd/simd512_int64.inl b/fflas-ffpack/fflas/fflas_simd/simd512_int64.inl
index a51a740..390ee2c 100644
--- a/fflas-ffpack/fflas/fflas_simd/simd512_int64.inl
+++ b/fflas-ffpack/fflas/fflas_simd/simd512_int64.inl
@@ -651,7 +651,7 @@ template <> struct Simd512_impl<true, true, true, 8> : public Simd512i_base {
 protected:
     /* return the sign where vect_t is seen as sixteen int32_t */
     static INLINE CONST vect_t signbits(const vect_t x) {
-        vect_t signBits = sub(zero(), srl<4*sizeof(scalar_t)-1>(x));
+        vect_t signBits = sub(zero(), srl<8*sizeof(scalar_t)-1>(x));
         return signBits;
     }
 }; // Simd512_impl<true, true, true, 8>
-- 
2.43.0


From 2aab71c84c745c3b07a007abb93941ba27e95ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:39 +0000
Subject: [PATCH 53/78] fix: KGFast, KGFastG, KellerGehrig LU and
 LUKrylov_KGFast leak the polynomial they compute

---
 fflas-ffpack/ffpack/ffpack_charpoly.inl                   | 2 ++
 fflas-ffpack/ffpack/ffpack_charpoly_kgfast.inl            | 1 +
 fflas-ffpack/ffpack/ffpack_charpoly_kgfastgeneralized.inl | 1 +
 fflas-ffpack/ffpack/ffpack_charpoly_kglu.inl              | 1 +
 4 files changed, 5 insertions(+)

diff --git a/fflas-ffpack/ffpack/ffpack_charpoly.inl b/fflas-ffpack/ffpack/ffpack_charpoly.inl
index a821028..de75e53 100644
--- a/fflas-ffpack/ffpack/ffpack_charpoly.inl
+++ b/fflas-ffpack/ffpack/ffpack_charpoly.inl
@@ -291,6 +291,7 @@ namespace FFPACK {
                 if (k==N){
                     charp.clear();
                     charp.push_front(*minP); // CharPoly = MinPoly
+                    delete minP;
                     FFLAS::fflas_delete( P);
                     return charp;
                 }
@@ -375,6 +376,7 @@ namespace FFPACK {
                 // Recursive call on X22
                 LUKrylov_KGFast (F, charp, Nrest, A2, Nrest, X22, ldx);
                 charp.push_front (*minP);
+                delete minP;
                 FFLAS::fflas_delete( P);
                 FFLAS::fflas_delete (A2);
                 return charp;
diff --git a/fflas-ffpack/ffpack/ffpack_charpoly_kgfast.inl b/fflas-ffpack/ffpack/ffpack_charpoly_kgfast.inl
index 3e80e42..f9e2944 100644
--- a/fflas-ffpack/ffpack/ffpack_charpoly_kgfast.inl
+++ b/fflas-ffpack/ffpack/ffpack_charpoly_kgfast.inl
@@ -172,6 +172,7 @@ namespace FFPACK {
             }
             charp.clear();
             charp.push_front(*minP);
+            delete minP;
             return 0;
         }
 
diff --git a/fflas-ffpack/ffpack/ffpack_charpoly_kgfastgeneralized.inl b/fflas-ffpack/ffpack/ffpack_charpoly_kgfastgeneralized.inl
index 25fd927..97bc1b5 100644
--- a/fflas-ffpack/ffpack/ffpack_charpoly_kgfastgeneralized.inl
+++ b/fflas-ffpack/ffpack/ffpack_charpoly_kgfastgeneralized.inl
@@ -632,6 +632,7 @@ namespace FFPACK {
             }
             charp.clear();
             charp.push_front(*minP);
+            delete minP;
             return charp;
         }
     } // Protected
diff --git a/fflas-ffpack/ffpack/ffpack_charpoly_kglu.inl b/fflas-ffpack/ffpack/ffpack_charpoly_kglu.inl
index 6439a66..86d4268 100644
--- a/fflas-ffpack/ffpack/ffpack_charpoly_kglu.inl
+++ b/fflas-ffpack/ffpack/ffpack_charpoly_kglu.inl
@@ -267,6 +267,7 @@ namespace FFPACK {
                 for ( j=0; j<d[i]; ++j, it++)
                     F.neg(*it, m[i][j]);
                 charp.push_back( *minP );
+                delete minP;
             }
             FFLAS::fflas_delete (X);
             FFLAS::fflas_delete( d);
-- 
2.43.0


From 17d109ac74dec0642a21a4bc2ff0963e65b7a73d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:39 +0000
Subject: [PATCH 54/78] fix: MonotonicApplyP leaks its copy of the permutation
 when it is the identity

---
 fflas-ffpack/ffpack/ffpack_permutation.inl | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fflas-ffpack/ffpack/ffpack_permutation.inl b/fflas-ffpack/ffpack/ffpack_permutation.inl
index 1ee8142..58eb626 100644
--- a/fflas-ffpack/ffpack/ffpack_permutation.inl
+++ b/fflas-ffpack/ffpack/ffpack_permutation.inl
@@ -66,8 +66,10 @@ namespace FFPACK {
                 if(maxpiv < MathP[i]) maxpiv = MathP[i];
             }
         }
-        if (!pivrowstomove) // Permutation is the identity
+        if (!pivrowstomove) { // Permutation is the identity
+            delete[] MathP;
             return;
+        }
 
         for (size_t i=R; i<lenP; i++)
             if (MathP[i] != i)
-- 
2.43.0


From 83f05aaad7fad5d9f6c254f810b04388ed5ae7cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:39 +0000
Subject: [PATCH 55/78] fix: fsytrf leaks the inverse diagonal when the
 factorization fails

---
 fflas-ffpack/ffpack/ffpack_fsytrf.inl | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/fflas-ffpack/ffpack/ffpack_fsytrf.inl b/fflas-ffpack/ffpack/ffpack_fsytrf.inl
index 0dc6389..2c55303 100644
--- a/fflas-ffpack/ffpack/ffpack_fsytrf.inl
+++ b/fflas-ffpack/ffpack/ffpack_fsytrf.inl
@@ -692,7 +692,10 @@ namespace FFPACK {
                         size_t threshold){
         typename Field::Element_ptr Dinv = FFLAS::fflas_new(F,N);
         bool success = fsytrf_nonunit (F, UpLo, N, A, lda, Dinv, 1, seq, threshold);
-        if (!success) return false;
+        if (!success) {
+            FFLAS::fflas_delete(Dinv);
+            return false;
+        }
         size_t incA = (UpLo==FFLAS::FflasUpper) ? 1 : lda;
         for (size_t i=0; i<N; i++)
             FFLAS::fscalin (F, N-i-1, Dinv[i], A+i*(lda+1)+incA, incA);
@@ -707,7 +710,10 @@ namespace FFPACK {
                         size_t threshold){
         typename Field::Element_ptr Dinv = FFLAS::fflas_new(F,N);
         bool success = fsytrf_nonunit (F, UpLo, N, A, lda, Dinv, 1, par, threshold);
-        if (!success) return false;
+        if (!success) {
+            FFLAS::fflas_delete(Dinv);
+            return false;
+        }
         size_t incA = (UpLo==FFLAS::FflasUpper) ? 1 : lda;
         for (size_t i=0; i<N; i++)
             FFLAS::fscalin (F, N-i-1, Dinv[i], A+i*(lda+1)+incA, incA);
-- 
2.43.0


From 94fe4c7f516d20d71e34381c0c685f329efad084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:44 +0000
Subject: [PATCH 56/78] hook: let the parallel thresholds be set from the
 command line

---
 fflas-ffpack/fflas/fflas_pfgemm.inl | 4 ++++
 fflas-ffpack/fflas/fflas_pftrsm.inl | 2 ++
 2 files changed, 6 insertions(+)

diff --git a/fflas-ffpack/fflas/fflas_pfgemm.inl b/fflas-ffpack/fflas/fflas_pfgemm.inl
index f34d204..3cad605 100644
--- a/fflas-ffpack/fflas/fflas_pfgemm.inl
+++ b/fflas-ffpack/fflas/fflas_pfgemm.inl
@@ -27,8 +27,12 @@
 #ifndef __FFLASFFPACK_fflas_pfgemm_INL
 #define __FFLASFFPACK_fflas_pfgemm_INL
 
+#ifndef __FFLASFFPACK_SEQPARTHRESHOLD
 #define __FFLASFFPACK_SEQPARTHRESHOLD 220
+#endif
+#ifndef __FFLASFFPACK_DIMKPENALTY
 #define __FFLASFFPACK_DIMKPENALTY 1
+#endif
 
 #ifdef __FFLASFFPACK_USE_KAAPI
 #include <kaapi++>
diff --git a/fflas-ffpack/fflas/fflas_pftrsm.inl b/fflas-ffpack/fflas/fflas_pftrsm.inl
index 8b8d2fd..5d13a68 100644
--- a/fflas-ffpack/fflas/fflas_pftrsm.inl
+++ b/fflas-ffpack/fflas/fflas_pftrsm.inl
@@ -28,7 +28,9 @@
 #ifndef __FFLASFFPACK_fflas_pftrsm_INL
 #define __FFLASFFPACK_fflas_pftrsm_INL
 
+#ifndef PTRSM_HYBRID_THRESHOLD
 #define PTRSM_HYBRID_THRESHOLD 256
+#endif
 
 #include "fflas-ffpack/paladin/parallel.h"
 
-- 
2.43.0


From 5993d6834845a5cfba976af628d8aa284d230032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:17:58 +0000
Subject: [PATCH 57/78] fix: parallel fgemm ThreeDAdaptive swaps the dimensions
 when adding the two halves of a k-split

---
 fflas-ffpack/paladin/pfgemm_variants.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fflas-ffpack/paladin/pfgemm_variants.inl b/fflas-ffpack/paladin/pfgemm_variants.inl
index 224bf34..3615195 100644
--- a/fflas-ffpack/paladin/pfgemm_variants.inl
+++ b/fflas-ffpack/paladin/pfgemm_variants.inl
@@ -149,7 +149,7 @@ namespace FFLAS
                         TASK(MODE(CONSTREFERENCE(F,H2) READ(A2,B2) READWRITE(C2)), pfgemm(F, ta, tb, m, n, k-K2, a, A2, lda, B2, ldb, F.zero, C2, n, H2));
                         CHECK_DEPENDENCIES;
 
-                        TASK(MODE(CONSTREFERENCE(F) READ(C2) READWRITE(C)),faddin(F, n, m, C2, n, C, ldc));
+                        TASK(MODE(CONSTREFERENCE(F) READ(C2) READWRITE(C)),faddin(F, m, n, C2, n, C, ldc));
 
                        );
             fflas_delete(C2);
-- 
2.43.0


From cbf992a6090e06b9d424207e7eb4076ff754d2b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:38 +0000
Subject: [PATCH 58/78] fix: the tasks of the block parallel fgemm share and
 concurrently update one helper

---
 fflas-ffpack/paladin/pfgemm_variants.inl | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fflas-ffpack/paladin/pfgemm_variants.inl b/fflas-ffpack/paladin/pfgemm_variants.inl
index 3615195..5846b9c 100644
--- a/fflas-ffpack/paladin/pfgemm_variants.inl
+++ b/fflas-ffpack/paladin/pfgemm_variants.inl
@@ -53,7 +53,8 @@ namespace FFLAS
                                                READ(A[iter.ibegin()*sa],B[iter.jbegin()*sb])
                                                CONSTREFERENCE(F, SeqH)
                                                READWRITE(C[iter.ibegin()*ldc+iter.jbegin()])),
-                                          fgemm( F, ta, tb, iter.iend()-iter.ibegin(), iter.jend()-iter.jbegin(), k, alpha, A+iter.ibegin()*sa, lda, B+iter.jbegin()*sb, ldb, beta, C+iter.ibegin()*ldc+iter.jbegin(), ldc, SeqH););
+                                          {auto TaskH (SeqH); /* fgemm updates its helper: one copy per task */
+                                          fgemm( F, ta, tb, iter.iend()-iter.ibegin(), iter.jend()-iter.jbegin(), k, alpha, A+iter.ibegin()*sa, lda, B+iter.jbegin()*sb, ldb, beta, C+iter.ibegin()*ldc+iter.jbegin(), ldc, TaskH);});
                                    );
                         });
         }
-- 
2.43.0


From f105877bcd01a3d8fab3ae72eff53cc8e500c588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:38 +0000
Subject: [PATCH 59/78] fix: recursive parallel fgemv with a transposed matrix
 starts its second half at the wrong column

---
 fflas-ffpack/paladin/pfgemv.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fflas-ffpack/paladin/pfgemv.inl b/fflas-ffpack/paladin/pfgemv.inl
index c6f0234..2c7962f 100644
--- a/fflas-ffpack/paladin/pfgemv.inl
+++ b/fflas-ffpack/paladin/pfgemv.inl
@@ -52,7 +52,7 @@ namespace FFLAS
                         H1.parseq.set_numthreads(H.parseq.numthreads() >> 1);
                         H2.parseq.set_numthreads(H.parseq.numthreads() - H1.parseq.numthreads());
                         typename Field::ConstElement_ptr A1 = A;
-                        typename Field::ConstElement_ptr A2 = A + ((ta==FflasNoTrans) ? Ydim2*lda : Ydim);
+                        typename Field::ConstElement_ptr A2 = A + ((ta==FflasNoTrans) ? Ydim2*lda : Ydim2);
                         typename Field::Element_ptr C1 = Y;
                         typename Field::Element_ptr C2 = Y + Ydim2*incY;
                         if (ta==FflasNoTrans){
-- 
2.43.0


From 65cc1fc7fdf82ab37a7d6ac3805c9796a208dcea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:30:57 +0000
Subject: [PATCH 60/78] fix: parallel integer fgemm returns before the tasks
 computing the residues have completed

---
 fflas-ffpack/fflas/fflas_fgemm/fgemm_classical_mp.inl | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fflas-ffpack/fflas/fflas_fgemm/fgemm_classical_mp.inl b/fflas-ffpack/fflas/fflas_fgemm/fgemm_classical_mp.inl
index 0bfb937..966f684 100644
--- a/fflas-ffpack/fflas/fflas_fgemm/fgemm_classical_mp.inl
+++ b/fflas-ffpack/fflas/fflas_fgemm/fgemm_classical_mp.inl
@@ -210,6 +210,7 @@ namespace FFLAS {
 #endif
         size_t rns_size = F.size();
         typedef MMHelper<typename RNS::ModField, MMHelperAlgo::Winograd, typename ModeTraits<typename RNS::ModField>::value, ParSeqTrait> SubHelper;
+        SYNCH_GROUP(
         FORBLOCK1D(iter, rns_size, H.parseq.first_component(),
                    TASK(MODE(CONSTREFERENCE(F,H)),
                         {
@@ -225,6 +226,7 @@ namespace FFLAS {
                         }
                         })
                   );
+        );
 #ifdef PROFILE_FGEMM_MP
         t.stop();
         std::cerr<<"=========================================="<<std::endl
@@ -268,6 +270,7 @@ namespace FFLAS {
                 typename ModeTraits<typename RNS::ModField>::value,
                 ParSeqHelper::Sequential> SubSeq;
 
+        SYNCH_GROUP(
         FORBLOCK1D(iter, rns_size, Hloop,
                    TASK(MODE(CONSTREFERENCE(F,H)),
                         {
@@ -297,6 +300,7 @@ namespace FFLAS {
                         }
                         }); // TASK
         ); // FLORBLOCK1D
+        ); // SYNCH_GROUP
 
 #ifdef PROFILE_FGEMM_MP
         t.stop();
-- 
2.43.0


From 7fa1c0337d2f0acda46deeb67fe6c421a2e46163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:56 +0000
Subject: [PATCH 61/78] fix: fspmm scales Y by beta with leading dimension 1
 instead of ldy

---
 fflas-ffpack/fflas/fflas_sparse.inl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fflas-ffpack/fflas/fflas_sparse.inl b/fflas-ffpack/fflas/fflas_sparse.inl
index 1aaf816..4561fb3 100644
--- a/fflas-ffpack/fflas/fflas_sparse.inl
+++ b/fflas-ffpack/fflas/fflas_sparse.inl
@@ -53,9 +53,9 @@ namespace FFLAS {
                 if (F.isZero(b)) {
                     fzero(F, m, n, y, ldy);
                 } else if (F.isMOne(b)) {
-                    fnegin(F, m, n, y, 1);
+                    fnegin(F, m, n, y, ldy);
                 } else {
-                    fscalin(F, m, n, b, y, 1);
+                    fscalin(F, m, n, b, y, ldy);
                 }
             }
         }
-- 
2.43.0


From d40ee1652237c97f81b503f646f51212bb68ea14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:56 +0000
Subject: [PATCH 62/78] fix: fspmm and pfspmm take the aligned kernel although
 the leading dimensions break the alignment of the rows

---
 fflas-ffpack/fflas/fflas_sparse.inl | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/fflas-ffpack/fflas/fflas_sparse.inl b/fflas-ffpack/fflas/fflas_sparse.inl
index 4561fb3..99dac58 100644
--- a/fflas-ffpack/fflas/fflas_sparse.inl
+++ b/fflas-ffpack/fflas/fflas_sparse.inl
@@ -261,7 +261,7 @@ namespace FFLAS {
         fspmm(const Field &F, const SM &A, size_t blockSize, typename Field::ConstElement_ptr x, int ldx,
               typename Field::Element_ptr y, int ldy, FieldCategories::UnparametricTag, NotZOSparseMatrix) {
             using simd = Simd<typename Field::Element>;
-            if (simd::valid(y) && simd::valid(x) && simd::compliant(blockSize)) {
+            if (simd::valid(y) && simd::valid(x) && simd::compliant(blockSize) && simd::compliant(ldx) && simd::compliant(ldy)) {
                 sparse_details_impl::fspmm_simd_aligned(F, A, blockSize, x, ldx, y, ldy, FieldCategories::UnparametricTag());
             } else {
                 sparse_details_impl::fspmm_simd_unaligned(F, A, blockSize, x, ldx, y, ldy, FieldCategories::UnparametricTag());
@@ -285,7 +285,7 @@ namespace FFLAS {
                 freduce(F, A.m, blockSize, y, ldy);
             } else {
                 using simd = Simd<typename Field::Element>;
-                if (simd::valid(y) && simd::valid(x) && simd::compliant(blockSize)) {
+                if (simd::valid(y) && simd::valid(x) && simd::compliant(blockSize) && simd::compliant(ldx) && simd::compliant(ldy)) {
                     sparse_details_impl::fspmm_simd_aligned(F, A, blockSize, x, ldx, y, ldy, A.kmax);
                 } else {
                     sparse_details_impl::fspmm_simd_unaligned(F, A, blockSize, x, ldx, y, ldy, A.kmax);
@@ -328,7 +328,7 @@ namespace FFLAS {
               typename Field::Element_ptr y, int ldy, FieldCategories::UnparametricTag, ZOSparseMatrix) {
             using simd = Simd<typename Field::Element>;
             if (F.isOne(A.cst)) {
-                if (simd::valid(x) && simd::valid(y) && simd::compliant(blockSize)) {
+                if (simd::valid(x) && simd::valid(y) && simd::compliant(blockSize) && simd::compliant(ldx) && simd::compliant(ldy)) {
                     sparse_details_impl::fspmm_one_simd_aligned(F, A, blockSize, x, ldx, y, ldy,
                                                                 FieldCategories::UnparametricTag());
                 } else {
@@ -336,7 +336,7 @@ namespace FFLAS {
                                                                   FieldCategories::UnparametricTag());
                 }
             } else if (F.isMOne(A.cst)) {
-                if (simd::valid(x) && simd::valid(y) && simd::compliant(blockSize)) {
+                if (simd::valid(x) && simd::valid(y) && simd::compliant(blockSize) && simd::compliant(ldx) && simd::compliant(ldy)) {
                     sparse_details_impl::fspmm_mone_simd_aligned(F, A, blockSize, x, ldx, y, ldy,
                                                                  FieldCategories::UnparametricTag());
                 } else {
@@ -346,7 +346,7 @@ namespace FFLAS {
             } else {
                 auto x1 = fflas_new(F, A.m, blockSize, Alignment::CACHE_LINE);
                 fscal(F, A.m, blockSize, A.cst, x, ldx, x1, 1);
-                if (simd::valid(x) && simd::valid(y) && simd::compliant(blockSize)) {
+                if (simd::valid(x) && simd::valid(y) && simd::compliant(blockSize) && simd::compliant(ldx) && simd::compliant(ldy)) {
                     sparse_details_impl::fspmm_one_simd_aligned(F, A, blockSize, x, ldx, y, ldy,
                                                                 FieldCategories::UnparametricTag());
                 } else {
@@ -422,7 +422,7 @@ namespace FFLAS {
         pfspmm(const Field &F, const SM &A, size_t blockSize, typename Field::ConstElement_ptr x, int ldx,
                typename Field::Element_ptr y, int ldy, FieldCategories::UnparametricTag, NotZOSparseMatrix) {
             using simd = Simd<typename Field::Element>;
-            if (simd::valid(y) && simd::valid(x) && simd::compliant(blockSize)) {
+            if (simd::valid(y) && simd::valid(x) && simd::compliant(blockSize) && simd::compliant(ldx) && simd::compliant(ldy)) {
                 sparse_details_impl::pfspmm_simd_aligned(F, A, blockSize, x, ldx, y, ldy, FieldCategories::UnparametricTag());
             } else {
                 sparse_details_impl::pfspmm_simd_unaligned(F, A, blockSize, x, ldx, y, ldy, FieldCategories::UnparametricTag());
@@ -446,7 +446,7 @@ namespace FFLAS {
                 freduce(F, A.m, blockSize, y, ldy);
             } else {
                 using simd = Simd<typename Field::Element>;
-                if (simd::valid(y) && simd::valid(x) && simd::compliant(blockSize)) {
+                if (simd::valid(y) && simd::valid(x) && simd::compliant(blockSize) && simd::compliant(ldx) && simd::compliant(ldy)) {
                     sparse_details_impl::pfspmm_simd_aligned(F, A, blockSize, x, ldx, y, ldy, A.kmax);
                 } else {
                     sparse_details_impl::pfspmm_simd_unaligned(F, A, blockSize, x, ldx, y, ldy, A.kmax);
@@ -493,7 +493,7 @@ namespace FFLAS {
                typename Field::Element_ptr y, int ldy, FieldCategories::UnparametricTag, ZOSparseMatrix) {
             using simd = Simd<typename Field::Element>;
             if (F.isOne(A.cst)) {
-                if (simd::valid(x) && simd::valid(y) && simd::compliant(blockSize)) {
+                if (simd::valid(x) && simd::valid(y) && simd::compliant(blockSize) && simd::compliant(ldx) && simd::compliant(ldy)) {
                     sparse_details_impl::pfspmm_one_simd_aligned(F, A, blockSize, x, ldx, y, ldy,
                                                                  FieldCategories::UnparametricTag());
                 } else {
@@ -501,7 +501,7 @@ namespace FFLAS {
                                                                    FieldCategories::UnparametricTag());
                 }
             } else if (F.isMOne(A.cst)) {
-                if (simd::valid(x) && simd::valid(y) && simd::compliant(blockSize)) {
+                if (simd::valid(x) && simd::valid(y) && simd::compliant(blockSize) && simd::compliant(ldx) && simd::compliant(ldy)) {
                     sparse_details_impl::pfspmm_mone_simd_aligned(F, A, blockSize, x, ldx, y, ldy,
                                                                   FieldCategories::UnparametricTag());
                 } else {
@@ -511,7 +511,7 @@ namespace FFLAS {
             } else {
                 auto x1 = fflas_new(F, A.m, blockSize, Alignment::CACHE_LINE);
                 fscal(F, A.m, blockSize, A.cst, x, ldx, x1, 1);
-                if (simd::valid(x) && simd::valid(y) && simd::compliant(blockSize)) {
+                if (simd::valid(x) && simd::valid(y) && simd::compliant(blockSize) && simd::compliant(ldx) && simd::compliant(ldy)) {
                     sparse_details_impl::pfspmm_one_simd_aligned(F, A, blockSize, x, ldx, y, ldy,
                                                                  FieldCategories::UnparametricTag());
                 } else {
-- 
2.43.0


From 807a5ac564c51ea43a9607e7ffe6fdf73071532e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:56 +0000
Subject: [PATCH 63/78] fix: fspmm with a zero-one matrix reduces Y with its
 dimensions swapped

---
 fflas-ffpack/fflas/fflas_sparse.inl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fflas-ffpack/fflas/fflas_sparse.inl b/fflas-ffpack/fflas/fflas_sparse.inl
index 99dac58..32fba3d 100644
--- a/fflas-ffpack/fflas/fflas_sparse.inl
+++ b/fflas-ffpack/fflas/fflas_sparse.inl
@@ -379,7 +379,7 @@ namespace FFLAS {
               typename Field::Element_ptr y, int ldy, FieldCategories::ModularTag, ZOSparseMatrix) {
             sparse_details::fspmm(F, A, blockSize, x, ldx, y, ldy, typename FieldCategories::UnparametricTag(),
                                   ZOSparseMatrix());
-            freduce(F, blockSize, A.m, y, ldy);
+            freduce(F, A.m, blockSize, y, ldy);
         }
 
 #if defined(__FFLASFFPACK_USE_OPENMP)
@@ -544,7 +544,7 @@ namespace FFLAS {
                typename Field::Element_ptr y, int ldy, FieldCategories::ModularTag, ZOSparseMatrix) {
             sparse_details::pfspmm(F, A, blockSize, x, ldx, y, ldy, typename FieldCategories::UnparametricTag(),
                                    ZOSparseMatrix());
-            freduce(F, blockSize, A.m, y, ldy);
+            freduce(F, A.m, blockSize, y, ldy);
         }
 
 #endif // __FFLASFFPACK_HAVE_SSE4_1_INSTRUCTIONS
-- 
2.43.0


From 62395784b88f730de5e25c84b6d9918ab4010b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:20:13 +0000
Subject: [PATCH 64/78] fix: sparse products with a zero-one matrix of constant
 other than 1 and -1 ignore the constant

---
 fflas-ffpack/fflas/fflas_sparse.inl | 50 ++++++++++++++---------------
 1 file changed, 25 insertions(+), 25 deletions(-)

diff --git a/fflas-ffpack/fflas/fflas_sparse.inl b/fflas-ffpack/fflas/fflas_sparse.inl
index 32fba3d..479c68d 100644
--- a/fflas-ffpack/fflas/fflas_sparse.inl
+++ b/fflas-ffpack/fflas/fflas_sparse.inl
@@ -164,7 +164,7 @@ namespace FFLAS {
             } else {
                 auto x1 = fflas_new(F, A.n, Alignment::CACHE_LINE);
                 fscal(F, A.n, A.cst, x, 1, x1, 1);
-                sparse_details_impl::fspmv_one(F, A, x, y, FieldCategories::GenericTag());
+                sparse_details_impl::fspmv_one(F, A, x1, y, FieldCategories::GenericTag());
                 fflas_delete(x1);
             }
         }
@@ -180,7 +180,7 @@ namespace FFLAS {
             } else {
                 auto x1 = fflas_new(F, A.n, Alignment::CACHE_LINE);
                 fscal(F, A.n, A.cst, x, 1, x1, 1);
-                sparse_details_impl::fspmv_one(F, A, x, y, FieldCategories::UnparametricTag());
+                sparse_details_impl::fspmv_one(F, A, x1, y, FieldCategories::UnparametricTag());
                 fflas_delete(x1);
             }
         }
@@ -199,7 +199,7 @@ namespace FFLAS {
             } else {
                 auto x1 = fflas_new(F, A.n, Alignment::CACHE_LINE);
                 fscal(F, A.n, A.cst, x, 1, x1, 1);
-                sparse_details_impl::fspmv_one_simd(F, A, x, y, FieldCategories::UnparametricTag());
+                sparse_details_impl::fspmv_one_simd(F, A, x1, y, FieldCategories::UnparametricTag());
                 fflas_delete(x1);
             }
             // #else
@@ -315,9 +315,9 @@ namespace FFLAS {
             } else if (F.isMOne(A.cst)) {
                 sparse_details_impl::fspmm_mone(F, A, blockSize, x, ldx, y, ldy, FieldCategories::GenericTag());
             } else {
-                auto x1 = fflas_new(F, A.m, blockSize, Alignment::CACHE_LINE);
-                fscal(F, A.m, blockSize, A.cst, x, ldx, x1, 1);
-                sparse_details_impl::fspmm_one(F, A, blockSize, x, ldx, y, ldy, FieldCategories::GenericTag());
+                auto x1 = fflas_new(F, A.n, blockSize, Alignment::CACHE_LINE);
+                fscal(F, A.n, blockSize, A.cst, x, ldx, x1, blockSize);
+                sparse_details_impl::fspmm_one(F, A, blockSize, x1, (int)blockSize, y, ldy, FieldCategories::GenericTag());
                 fflas_delete(x1);
             }
         }
@@ -344,13 +344,13 @@ namespace FFLAS {
                                                                    FieldCategories::UnparametricTag());
                 }
             } else {
-                auto x1 = fflas_new(F, A.m, blockSize, Alignment::CACHE_LINE);
-                fscal(F, A.m, blockSize, A.cst, x, ldx, x1, 1);
-                if (simd::valid(x) && simd::valid(y) && simd::compliant(blockSize) && simd::compliant(ldx) && simd::compliant(ldy)) {
-                    sparse_details_impl::fspmm_one_simd_aligned(F, A, blockSize, x, ldx, y, ldy,
+                auto x1 = fflas_new(F, A.n, blockSize, Alignment::CACHE_LINE);
+                fscal(F, A.n, blockSize, A.cst, x, ldx, x1, blockSize);
+                if (simd::valid(x1) && simd::valid(y) && simd::compliant(blockSize) && simd::compliant(ldy)) {
+                    sparse_details_impl::fspmm_one_simd_aligned(F, A, blockSize, x1, (int)blockSize, y, ldy,
                                                                 FieldCategories::UnparametricTag());
                 } else {
-                    sparse_details_impl::fspmm_one_simd_unaligned(F, A, blockSize, x, ldx, y, ldy,
+                    sparse_details_impl::fspmm_one_simd_unaligned(F, A, blockSize, x1, (int)blockSize, y, ldy,
                                                                   FieldCategories::UnparametricTag());
                 }
                 fflas_delete(x1);
@@ -366,9 +366,9 @@ namespace FFLAS {
             } else if (F.isMOne(A.cst)) {
                 sparse_details_impl::fspmm_mone(F, A, blockSize, x, ldx, y, ldy, FieldCategories::UnparametricTag());
             } else {
-                auto x1 = fflas_new(F, A.m, blockSize, Alignment::CACHE_LINE);
-                fscal(F, A.m, blockSize, A.cst, x, ldx, x1, 1);
-                sparse_details_impl::fspmm_one(F, A, blockSize, x1, ldx, y, ldy, FieldCategories::UnparametricTag());
+                auto x1 = fflas_new(F, A.n, blockSize, Alignment::CACHE_LINE);
+                fscal(F, A.n, blockSize, A.cst, x, ldx, x1, blockSize);
+                sparse_details_impl::fspmm_one(F, A, blockSize, x1, (int)blockSize, y, ldy, FieldCategories::UnparametricTag());
                 fflas_delete(x1);
             }
         }
@@ -478,9 +478,9 @@ namespace FFLAS {
             } else if (F.isMOne(A.cst)) {
                 sparse_details_impl::pfspmm_mone(F, A, blockSize, x, ldx, y, ldy, FieldCategories::GenericTag());
             } else {
-                auto x1 = fflas_new(F, A.m, blockSize, Alignment::CACHE_LINE);
-                fscal(F, A.m, blockSize, A.cst, x, ldx, x1, 1);
-                sparse_details_impl::pfspmm_one(F, A, blockSize, x, ldx, y, ldy, FieldCategories::GenericTag());
+                auto x1 = fflas_new(F, A.n, blockSize, Alignment::CACHE_LINE);
+                fscal(F, A.n, blockSize, A.cst, x, ldx, x1, blockSize);
+                sparse_details_impl::pfspmm_one(F, A, blockSize, x1, (int)blockSize, y, ldy, FieldCategories::GenericTag());
                 fflas_delete(x1);
             }
         }
@@ -509,13 +509,13 @@ namespace FFLAS {
                                                                     FieldCategories::UnparametricTag());
                 }
             } else {
-                auto x1 = fflas_new(F, A.m, blockSize, Alignment::CACHE_LINE);
-                fscal(F, A.m, blockSize, A.cst, x, ldx, x1, 1);
-                if (simd::valid(x) && simd::valid(y) && simd::compliant(blockSize) && simd::compliant(ldx) && simd::compliant(ldy)) {
-                    sparse_details_impl::pfspmm_one_simd_aligned(F, A, blockSize, x, ldx, y, ldy,
+                auto x1 = fflas_new(F, A.n, blockSize, Alignment::CACHE_LINE);
+                fscal(F, A.n, blockSize, A.cst, x, ldx, x1, blockSize);
+                if (simd::valid(x1) && simd::valid(y) && simd::compliant(blockSize) && simd::compliant(ldy)) {
+                    sparse_details_impl::pfspmm_one_simd_aligned(F, A, blockSize, x1, (int)blockSize, y, ldy,
                                                                  FieldCategories::UnparametricTag());
                 } else {
-                    sparse_details_impl::pfspmm_one_simd_unaligned(F, A, blockSize, x, ldx, y, ldy,
+                    sparse_details_impl::pfspmm_one_simd_unaligned(F, A, blockSize, x1, (int)blockSize, y, ldy,
                                                                    FieldCategories::UnparametricTag());
                 }
                 fflas_delete(x1);
@@ -531,9 +531,9 @@ namespace FFLAS {
             } else if (F.isMOne(A.cst)) {
                 sparse_details_impl::pfspmm_mone(F, A, blockSize, x, ldx, y, ldy, FieldCategories::UnparametricTag());
             } else {
-                auto x1 = fflas_new(F, A.m, blockSize, Alignment::CACHE_LINE);
-                fscal(F, A.m, blockSize, A.cst, x, ldx, x1, 1);
-                sparse_details_impl::pfspmm_one(F, A, blockSize, x1, ldx, y, ldy, FieldCategories::UnparametricTag());
+                auto x1 = fflas_new(F, A.n, blockSize, Alignment::CACHE_LINE);
+                fscal(F, A.n, blockSize, A.cst, x, ldx, x1, blockSize);
+                sparse_details_impl::pfspmm_one(F, A, blockSize, x1, (int)blockSize, y, ldy, FieldCategories::UnparametricTag());
                 fflas_delete(x1);
             }
         }
-- 
2.43.0


From a9d9dc0c57d0748675373607fde3b2ee83875bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:20:13 +0000
Subject: [PATCH 65/78] fix: CSR_HYB stores the column indices in the order of
 the input, not in the order of its values

---
 fflas-ffpack/fflas/fflas_sparse/csr_hyb/csr_hyb_utils.inl | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/fflas-ffpack/fflas/fflas_sparse/csr_hyb/csr_hyb_utils.inl b/fflas-ffpack/fflas/fflas_sparse/csr_hyb/csr_hyb_utils.inl
index 8372dd2..37053cf 100644
--- a/fflas-ffpack/fflas/fflas_sparse/csr_hyb/csr_hyb_utils.inl
+++ b/fflas-ffpack/fflas/fflas_sparse/csr_hyb/csr_hyb_utils.inl
@@ -124,10 +124,6 @@ namespace FFLAS {
         for (uint64_t i = 0; i < 4 * (rowdim + 1); ++i)
             A.st[i] = 0;
 
-        for (size_t i = 0; i < nnz; ++i) {
-            A.col[i] = static_cast<index_t>(data[i].col);
-        }
-
         data.shrink_to_fit();
 
         // sort nnz by row with order -1 1 L
@@ -141,6 +137,10 @@ namespace FFLAS {
                    (a.col < b.col));
                   });
 
+        for (size_t i = 0; i < nnz; ++i) {
+            A.col[i] = static_cast<index_t>(data[i].col);
+        }
+
 #ifdef CSR_HYB_DEBUG
         for (auto &x : data) {
             cout << "(" << x.row << "," << x.col << "," << x.val << ") ";
-- 
2.43.0


From f78513f5cbc204dd38fdd4c8fd22a43a0b9e13e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:09 +0000
Subject: [PATCH 66/78] fix: fspmv with a COO matrix of long rows overflows and
 leaves unreduced entries

---
 fflas-ffpack/fflas/fflas_sparse/coo/coo_spmv.inl | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/fflas-ffpack/fflas/fflas_sparse/coo/coo_spmv.inl b/fflas-ffpack/fflas/fflas_sparse/coo/coo_spmv.inl
index 18977ad..6f512eb 100644
--- a/fflas-ffpack/fflas/fflas_sparse/coo/coo_spmv.inl
+++ b/fflas-ffpack/fflas/fflas_sparse/coo/coo_spmv.inl
@@ -128,12 +128,13 @@ namespace FFLAS {
                         e += dat[w] * x[col[w]];
                         accu += 1;
                     } else {
-                        F.axpyin(e, dat[w], x[col[w]]);
-                        accu = 0;
+                        F.reduce(e);
+                        e += dat[w] * x[col[w]];
+                        accu = 1;
                     }
                 } else { // new line
                     F.init(y[larow_i]);
-                    F.assign(y[larow_i], e);
+                    F.reduce(y[larow_i], e);
                     larow_i = row[w];
                     F.init(e);
                     F.assign(e, y[larow_i]);
@@ -143,7 +144,7 @@ namespace FFLAS {
                 ++w;
             }
             F.init(y[larow_i]);
-            F.assign(y[larow_i], e);
+            F.reduce(y[larow_i], e);
         }
 
         template <class Field>
-- 
2.43.0


From 96921606a5dea4b1e1425c1afde0e96c74d4a71d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:09 +0000
Subject: [PATCH 67/78] fix: fspmm with a COO matrix of long rows computes
 nothing

---
 fflas-ffpack/fflas/fflas_sparse/coo/coo_spmm.inl | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fflas-ffpack/fflas/fflas_sparse/coo/coo_spmm.inl b/fflas-ffpack/fflas/fflas_sparse/coo/coo_spmm.inl
index 3a200ea..5168603 100644
--- a/fflas-ffpack/fflas/fflas_sparse/coo/coo_spmm.inl
+++ b/fflas-ffpack/fflas/fflas_sparse/coo/coo_spmm.inl
@@ -174,21 +174,21 @@ namespace FFLAS {
         inline void fspmm(const Field &F, const Sparse<Field, SparseMatrix_t::COO> &A, size_t blockSize,
                           typename Field::ConstElement_ptr x_, int ldx, typename Field::Element_ptr y_, int ldy,
                           const int64_t kmax) {
-            // TODO
+            sparse_details_impl::fspmm(F, A, blockSize, x_, ldx, y_, ldy, FieldCategories::GenericTag());
         }
 
         template <class Field>
         inline void fspmm_simd_aligned(const Field &F, const Sparse<Field, SparseMatrix_t::COO> &A, size_t blockSize,
                                        typename Field::ConstElement_ptr x_, int ldx, typename Field::Element_ptr y_, int ldy,
                                        const int64_t kmax) {
-            // TODO
+            sparse_details_impl::fspmm(F, A, blockSize, x_, ldx, y_, ldy, FieldCategories::GenericTag());
         }
 
         template <class Field>
         inline void fspmm_simd_unaligned(const Field &F, const Sparse<Field, SparseMatrix_t::COO> &A, size_t blockSize,
                                          typename Field::ConstElement_ptr x_, int ldx, typename Field::Element_ptr y_, int ldy,
                                          const int64_t kmax) {
-            // TODO
+            sparse_details_impl::fspmm(F, A, blockSize, x_, ldx, y_, ldy, FieldCategories::GenericTag());
         }
 
         template <class Field>
-- 
2.43.0


From 2ba4e68a01cca9edc891115d5e9ef123926b64d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:09 +0000
Subject: [PATCH 68/78] fix: fspmm with a CSR_HYB matrix reads Y in place of X
 and misaddresses the values

---
 .../fflas_sparse/csr_hyb/csr_hyb_spmm.inl     | 64 +++++++++----------
 1 file changed, 32 insertions(+), 32 deletions(-)

diff --git a/fflas-ffpack/fflas/fflas_sparse/csr_hyb/csr_hyb_spmm.inl b/fflas-ffpack/fflas/fflas_sparse/csr_hyb/csr_hyb_spmm.inl
index 495aebc..9b6627a 100644
--- a/fflas-ffpack/fflas/fflas_sparse/csr_hyb/csr_hyb_spmm.inl
+++ b/fflas-ffpack/fflas/fflas_sparse/csr_hyb/csr_hyb_spmm.inl
@@ -69,13 +69,13 @@ namespace FFLAS {
                 for (uint64_t j = start; j < stop; ++j) {
                     size_t k = 0;
                     for (; k < ROUND_DOWN(blockSize, 4); k += 4) {
-                        F.axpyin(y[i * ldy + k], dat[startDat + k], x[col[j] * ldx + k]);
-                        F.axpyin(y[i * ldy + k + 1], dat[startDat + k], x[col[j] * ldx + k + 1]);
-                        F.axpyin(y[i * ldy + k + 2], dat[startDat + k], x[col[j] * ldx + k + 2]);
-                        F.axpyin(y[i * ldy + k + 3], dat[startDat + k], x[col[j] * ldx + k + 3]);
+                        F.axpyin(y[i * ldy + k], dat[startDat + j - start], x[col[j] * ldx + k]);
+                        F.axpyin(y[i * ldy + k + 1], dat[startDat + j - start], x[col[j] * ldx + k + 1]);
+                        F.axpyin(y[i * ldy + k + 2], dat[startDat + j - start], x[col[j] * ldx + k + 2]);
+                        F.axpyin(y[i * ldy + k + 3], dat[startDat + j - start], x[col[j] * ldx + k + 3]);
                     }
                     for (; k < blockSize; ++k)
-                        F.axpyin(y[i * ldy + k], dat[startDat + k], x[col[j] * ldx + k]);
+                        F.axpyin(y[i * ldy + k], dat[startDat + j - start], x[col[j] * ldx + k]);
                 }
             }
         }
@@ -119,13 +119,13 @@ namespace FFLAS {
                 for (uint64_t j = start; j < stop; ++j) {
                     size_t k = 0;
                     for (; k < ROUND_DOWN(blockSize, 4); k += 4) {
-                        y[i * ldy + k] += dat[startDat + j] * x[col[j] * ldx + k];
-                        y[i * ldy + k + 1] += dat[startDat + j] * x[col[j] * ldx + k + 1];
-                        y[i * ldy + k + 2] += dat[startDat + j] * x[col[j] * ldx + k + 2];
-                        y[i * ldy + k + 3] += dat[startDat + j] * x[col[j] * ldx + k + 3];
+                        y[i * ldy + k] += dat[startDat + j - start] * x[col[j] * ldx + k];
+                        y[i * ldy + k + 1] += dat[startDat + j - start] * x[col[j] * ldx + k + 1];
+                        y[i * ldy + k + 2] += dat[startDat + j - start] * x[col[j] * ldx + k + 2];
+                        y[i * ldy + k + 3] += dat[startDat + j - start] * x[col[j] * ldx + k + 3];
                     }
                     for (; k < blockSize; ++k)
-                        y[i * ldy + k] += dat[startDat + j] * x[col[j] * ldx + k];
+                        y[i * ldy + k] += dat[startDat + j - start] * x[col[j] * ldx + k];
                 }
             }
         }
@@ -151,14 +151,14 @@ namespace FFLAS {
                     for (; k < ROUND_DOWN(blockSize, 2 * simd::vect_size); k += 2 * simd::vect_size) {
                         vy1 = simd::load(y + i * ldy + k);
                         vy2 = simd::load(y + i * ldy + k + simd::vect_size);
-                        vx1 = simd::load(y + col[j] * ldx + k);
-                        vx2 = simd::load(y + col[j] * ldx + k + simd::vect_size);
+                        vx1 = simd::load(x + col[j] * ldx + k);
+                        vx2 = simd::load(x + col[j] * ldx + k + simd::vect_size);
                         simd::store(y + i * ldy + k, simd::sub(vy1, vx1));
                         simd::store(y + i * ldy + k + simd::vect_size, simd::sub(vy2, vx2));
                     }
                     for (; k < ROUND_DOWN(blockSize, simd::vect_size); k += simd::vect_size) {
                         vy1 = simd::load(y + i * ldy + k);
-                        vx1 = simd::load(y + col[j] * ldx + k);
+                        vx1 = simd::load(x + col[j] * ldx + k);
                         simd::store(y + i * ldy + k, simd::sub(vy1, vx1));
                     }
                     for (; k < blockSize; ++k)
@@ -170,14 +170,14 @@ namespace FFLAS {
                     for (; k < ROUND_DOWN(blockSize, 2 * simd::vect_size); k += 2 * simd::vect_size) {
                         vy1 = simd::load(y + i * ldy + k);
                         vy2 = simd::load(y + i * ldy + k + simd::vect_size);
-                        vx1 = simd::load(y + col[j] * ldx + k);
-                        vx2 = simd::load(y + col[j] * ldx + k + simd::vect_size);
+                        vx1 = simd::load(x + col[j] * ldx + k);
+                        vx2 = simd::load(x + col[j] * ldx + k + simd::vect_size);
                         simd::store(y + i * ldy + k, simd::add(vy1, vx1));
                         simd::store(y + i * ldy + k + simd::vect_size, simd::add(vy2, vx2));
                     }
                     for (; k < ROUND_DOWN(blockSize, simd::vect_size); k += simd::vect_size) {
                         vy1 = simd::load(y + i * ldy + k);
-                        vx1 = simd::load(y + col[j] * ldx + k);
+                        vx1 = simd::load(x + col[j] * ldx + k);
                         simd::store(y + i * ldy + k, simd::add(vy1, vx1));
                     }
                     for (; k < blockSize; ++k)
@@ -187,22 +187,22 @@ namespace FFLAS {
                 index_t startDat = st[4 * i + 3];
                 for (uint64_t j = start; j < stop; ++j) {
                     size_t k = 0;
-                    vdat = simd::set1(dat[startDat + j]);
+                    vdat = simd::set1(dat[startDat + j - start]);
                     for (; k < ROUND_DOWN(blockSize, 2 * simd::vect_size); k += 2 * simd::vect_size) {
                         vy1 = simd::load(y + i * ldy + k);
                         vy2 = simd::load(y + i * ldy + k + simd::vect_size);
-                        vx1 = simd::load(y + col[j] * ldx + k);
-                        vx2 = simd::load(y + col[j] * ldx + k + simd::vect_size);
+                        vx1 = simd::load(x + col[j] * ldx + k);
+                        vx2 = simd::load(x + col[j] * ldx + k + simd::vect_size);
                         simd::store(y + i * ldy + k, simd::fmadd(vy1, vdat, vx1));
                         simd::store(y + i * ldy + k + simd::vect_size, simd::fmadd(vy2, vdat, vx2));
                     }
                     for (; k < ROUND_DOWN(blockSize, simd::vect_size); k += simd::vect_size) {
                         vy1 = simd::load(y + i * ldy + k);
-                        vx1 = simd::load(y + col[j] * ldx + k);
+                        vx1 = simd::load(x + col[j] * ldx + k);
                         simd::store(y + i * ldy + k, simd::fmadd(vy1, vdat, vx1));
                     }
                     for (; k < blockSize; ++k)
-                        y[i * ldy + k] -= dat[startDat + j] * x[col[j] * ldx + k];
+                        y[i * ldy + k] += dat[startDat + j - start] * x[col[j] * ldx + k];
                 }
             }
         }
@@ -226,14 +226,14 @@ namespace FFLAS {
                     for (; k < ROUND_DOWN(blockSize, 2 * simd::vect_size); k += 2 * simd::vect_size) {
                         vy1 = simd::loadu(y + i * ldy + k);
                         vy2 = simd::loadu(y + i * ldy + k + simd::vect_size);
-                        vx1 = simd::loadu(y + col[j] * ldx + k);
-                        vx2 = simd::loadu(y + col[j] * ldx + k + simd::vect_size);
+                        vx1 = simd::loadu(x + col[j] * ldx + k);
+                        vx2 = simd::loadu(x + col[j] * ldx + k + simd::vect_size);
                         simd::storeu(y + i * ldy + k, simd::sub(vy1, vx1));
                         simd::storeu(y + i * ldy + k + simd::vect_size, simd::sub(vy2, vx2));
                     }
                     for (; k < ROUND_DOWN(blockSize, simd::vect_size); k += simd::vect_size) {
                         vy1 = simd::loadu(y + i * ldy + k);
-                        vx1 = simd::loadu(y + col[j] * ldx + k);
+                        vx1 = simd::loadu(x + col[j] * ldx + k);
                         simd::storeu(y + i * ldy + k, simd::sub(vy1, vx1));
                     }
                     for (; k < blockSize; ++k)
@@ -245,14 +245,14 @@ namespace FFLAS {
                     for (; k < ROUND_DOWN(blockSize, 2 * simd::vect_size); k += 2 * simd::vect_size) {
                         vy1 = simd::loadu(y + i * ldy + k);
                         vy2 = simd::loadu(y + i * ldy + k + simd::vect_size);
-                        vx1 = simd::loadu(y + col[j] * ldx + k);
-                        vx2 = simd::loadu(y + col[j] * ldx + k + simd::vect_size);
+                        vx1 = simd::loadu(x + col[j] * ldx + k);
+                        vx2 = simd::loadu(x + col[j] * ldx + k + simd::vect_size);
                         simd::storeu(y + i * ldy + k, simd::add(vy1, vx1));
                         simd::storeu(y + i * ldy + k + simd::vect_size, simd::add(vy2, vx2));
                     }
                     for (; k < ROUND_DOWN(blockSize, simd::vect_size); k += simd::vect_size) {
                         vy1 = simd::loadu(y + i * ldy + k);
-                        vx1 = simd::loadu(y + col[j] * ldx + k);
+                        vx1 = simd::loadu(x + col[j] * ldx + k);
                         simd::storeu(y + i * ldy + k, simd::add(vy1, vx1));
                     }
                     for (; k < blockSize; ++k)
@@ -262,22 +262,22 @@ namespace FFLAS {
                 index_t startDat = st[4 * i + 3];
                 for (uint64_t j = start; j < stop; ++j) {
                     size_t k = 0;
-                    vdat = simd::set1(dat[startDat + j]);
+                    vdat = simd::set1(dat[startDat + j - start]);
                     for (; k < ROUND_DOWN(blockSize, 2 * simd::vect_size); k += 2 * simd::vect_size) {
                         vy1 = simd::loadu(y + i * ldy + k);
                         vy2 = simd::loadu(y + i * ldy + k + simd::vect_size);
-                        vx1 = simd::loadu(y + col[j] * ldx + k);
-                        vx2 = simd::loadu(y + col[j] * ldx + k + simd::vect_size);
+                        vx1 = simd::loadu(x + col[j] * ldx + k);
+                        vx2 = simd::loadu(x + col[j] * ldx + k + simd::vect_size);
                         simd::storeu(y + i * ldy + k, simd::fmadd(vy1, vdat, vx1));
                         simd::storeu(y + i * ldy + k + simd::vect_size, simd::fmadd(vy2, vdat, vx2));
                     }
                     for (; k < ROUND_DOWN(blockSize, simd::vect_size); k += simd::vect_size) {
                         vy1 = simd::loadu(y + i * ldy + k);
-                        vx1 = simd::loadu(y + col[j] * ldx + k);
+                        vx1 = simd::loadu(x + col[j] * ldx + k);
                         simd::storeu(y + i * ldy + k, simd::fmadd(vy1, vdat, vx1));
                     }
                     for (; k < blockSize; ++k)
-                        y[i * ldy + k] -= dat[startDat + j] * x[col[j] * ldx + k];
+                        y[i * ldy + k] += dat[startDat + j - start] * x[col[j] * ldx + k];
                 }
             }
         }
-- 
2.43.0


From 5484d1f2ffca85e9f6f69a247e85ec7815a81d8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:09 +0000
Subject: [PATCH 69/78] fix: products with a CSR_HYB matrix of long rows
 compute nothing

---
 fflas-ffpack/fflas/fflas_sparse/csr_hyb/csr_hyb_spmm.inl | 6 +++---
 fflas-ffpack/fflas/fflas_sparse/csr_hyb/csr_hyb_spmv.inl | 3 +--
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/fflas-ffpack/fflas/fflas_sparse/csr_hyb/csr_hyb_spmm.inl b/fflas-ffpack/fflas/fflas_sparse/csr_hyb/csr_hyb_spmm.inl
index 9b6627a..c9070e8 100644
--- a/fflas-ffpack/fflas/fflas_sparse/csr_hyb/csr_hyb_spmm.inl
+++ b/fflas-ffpack/fflas/fflas_sparse/csr_hyb/csr_hyb_spmm.inl
@@ -287,7 +287,7 @@ namespace FFLAS {
         inline void fspmm(const Field &F, const Sparse<Field, SparseMatrix_t::CSR_HYB> &A, size_t blockSize,
                           typename Field::ConstElement_ptr x_, int ldx, typename Field::Element_ptr y_, int ldy,
                           const int64_t kmax) {
-            // TODO
+            sparse_details_impl::fspmm(F, A, blockSize, x_, ldx, y_, ldy, FieldCategories::GenericTag());
         }
 
 #ifdef __FFLASFFPACK_HAVE_SSE4_1_INSTRUCTIONS
@@ -296,14 +296,14 @@ namespace FFLAS {
         inline void fspmm_simd_aligned(const Field &F, const Sparse<Field, SparseMatrix_t::CSR_HYB> &A, size_t blockSize,
                                        typename Field::ConstElement_ptr x, int ldx, typename Field::Element_ptr y, int ldy,
                                        uint64_t kmax) {
-            // TODO
+            sparse_details_impl::fspmm(F, A, blockSize, x, ldx, y, ldy, FieldCategories::GenericTag());
         }
 
         template <class Field>
         inline void fspmm_simd_unaligned(const Field &F, const Sparse<Field, SparseMatrix_t::CSR_HYB> &A, size_t blockSize,
                                          typename Field::ConstElement_ptr x, int ldx, typename Field::Element_ptr y, int ldy,
                                          uint64_t kmax) {
-            // TODO
+            sparse_details_impl::fspmm(F, A, blockSize, x, ldx, y, ldy, FieldCategories::GenericTag());
         }
 
 #endif
diff --git a/fflas-ffpack/fflas/fflas_sparse/csr_hyb/csr_hyb_spmv.inl b/fflas-ffpack/fflas/fflas_sparse/csr_hyb/csr_hyb_spmv.inl
index 6b91d6b..aaa6184 100644
--- a/fflas-ffpack/fflas/fflas_sparse/csr_hyb/csr_hyb_spmv.inl
+++ b/fflas-ffpack/fflas/fflas_sparse/csr_hyb/csr_hyb_spmv.inl
@@ -118,8 +118,7 @@ namespace FFLAS {
         template <class Field>
         inline void fspmv(const Field &F, const Sparse<Field, SparseMatrix_t::CSR_HYB> &A, typename Field::ConstElement_ptr x_,
                           typename Field::Element_ptr y_, const uint64_t kmax) {
-            return;
-            // TODO
+            sparse_details_impl::fspmv(F, A, x_, y_, FieldCategories::GenericTag());
         }
 
     } // CSR_HYB_details
-- 
2.43.0


From 7126167f8ab8aea4a3731eba8ef3f1465d0709c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:09 +0000
Subject: [PATCH 70/78] fix: fspmm with an ELL_ZO matrix confuses ldx and ldy

---
 .../fflas/fflas_sparse/ell/ell_spmm.inl       | 32 +++++++++----------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/fflas-ffpack/fflas/fflas_sparse/ell/ell_spmm.inl b/fflas-ffpack/fflas/fflas_sparse/ell/ell_spmm.inl
index c9a424b..741c014 100644
--- a/fflas-ffpack/fflas/fflas_sparse/ell/ell_spmm.inl
+++ b/fflas-ffpack/fflas/fflas_sparse/ell/ell_spmm.inl
@@ -446,13 +446,13 @@ namespace FFLAS {
                         vy2 = simd::load(y + i * ldy + k + simd::vect_size);
                         vx1 = simd::load(x + col[i * A.ld + j] * ldx + k);
                         vx2 = simd::load(x + col[i * A.ld + j] * ldx + k + simd::vect_size);
-                        simd::store(y + i * ldx + k, simd::add(vy1, vx1));
-                        simd::store(y + i * ldx + k + simd::vect_size, simd::add(vy2, vx2));
+                        simd::store(y + i * ldy + k, simd::add(vy1, vx1));
+                        simd::store(y + i * ldy + k + simd::vect_size, simd::add(vy2, vx2));
                     }
                     for (; k < ROUND_DOWN(blockSize, simd::vect_size); k += simd::vect_size) {
                         vy1 = simd::load(y + i * ldy + k);
-                        vx1 = simd::load(x + col[i * A.ld + j] * ldy + k);
-                        simd::store(y + i * ldx + k, simd::add(vy1, vx1));
+                        vx1 = simd::load(x + col[i * A.ld + j] * ldx + k);
+                        simd::store(y + i * ldy + k, simd::add(vy1, vx1));
                     }
                     for (; k < blockSize; ++k)
                         y[i * ldy + k] += x[col[i * A.ld + j] * ldx + k];
@@ -478,13 +478,13 @@ namespace FFLAS {
                         vy2 = simd::loadu(y + i * ldy + k + simd::vect_size);
                         vx1 = simd::loadu(x + col[i * A.ld + j] * ldx + k);
                         vx2 = simd::loadu(x + col[i * A.ld + j] * ldx + k + simd::vect_size);
-                        simd::storeu(y + i * ldx + k, simd::add(vy1, vx1));
-                        simd::storeu(y + i * ldx + k + simd::vect_size, simd::add(vy2, vx2));
+                        simd::storeu(y + i * ldy + k, simd::add(vy1, vx1));
+                        simd::storeu(y + i * ldy + k + simd::vect_size, simd::add(vy2, vx2));
                     }
                     for (; k < ROUND_DOWN(blockSize, simd::vect_size); k += simd::vect_size) {
                         vy1 = simd::loadu(y + i * ldy + k);
-                        vx1 = simd::loadu(x + col[i * A.ld + j] * ldy + k);
-                        simd::storeu(y + i * ldx + k, simd::add(vy1, vx1));
+                        vx1 = simd::loadu(x + col[i * A.ld + j] * ldx + k);
+                        simd::storeu(y + i * ldy + k, simd::add(vy1, vx1));
                     }
                     for (; k < blockSize; ++k)
                         y[i * ldy + k] += x[col[i * A.ld + j] * ldx + k];
@@ -510,13 +510,13 @@ namespace FFLAS {
                         vy2 = simd::load(y + i * ldy + k + simd::vect_size);
                         vx1 = simd::load(x + col[i * A.ld + j] * ldx + k);
                         vx2 = simd::load(x + col[i * A.ld + j] * ldx + k + simd::vect_size);
-                        simd::store(y + i * ldx + k, simd::sub(vy1, vx1));
-                        simd::store(y + i * ldx + k + simd::vect_size, simd::sub(vy2, vx2));
+                        simd::store(y + i * ldy + k, simd::sub(vy1, vx1));
+                        simd::store(y + i * ldy + k + simd::vect_size, simd::sub(vy2, vx2));
                     }
                     for (; k < ROUND_DOWN(blockSize, simd::vect_size); k += simd::vect_size) {
                         vy1 = simd::load(y + i * ldy + k);
-                        vx1 = simd::load(x + col[i * A.ld + j] * ldy + k);
-                        simd::store(y + i * ldx + k, simd::sub(vy1, vx1));
+                        vx1 = simd::load(x + col[i * A.ld + j] * ldx + k);
+                        simd::store(y + i * ldy + k, simd::sub(vy1, vx1));
                     }
                     for (; k < blockSize; ++k)
                         y[i * ldy + k] -= x[col[i * A.ld + j] * ldx + k];
@@ -542,13 +542,13 @@ namespace FFLAS {
                         vy2 = simd::loadu(y + i * ldy + k + simd::vect_size);
                         vx1 = simd::loadu(x + col[i * A.ld + j] * ldx + k);
                         vx2 = simd::loadu(x + col[i * A.ld + j] * ldx + k + simd::vect_size);
-                        simd::storeu(y + i * ldx + k, simd::sub(vy1, vx1));
-                        simd::storeu(y + i * ldx + k + simd::vect_size, simd::sub(vy2, vx2));
+                        simd::storeu(y + i * ldy + k, simd::sub(vy1, vx1));
+                        simd::storeu(y + i * ldy + k + simd::vect_size, simd::sub(vy2, vx2));
                     }
                     for (; k < ROUND_DOWN(blockSize, simd::vect_size); k += simd::vect_size) {
                         vy1 = simd::loadu(y + i * ldy + k);
-                        vx1 = simd::loadu(x + col[i * A.ld + j] * ldy + k);
-                        simd::storeu(y + i * ldx + k, simd::sub(vy1, vx1));
+                        vx1 = simd::loadu(x + col[i * A.ld + j] * ldx + k);
+                        simd::storeu(y + i * ldy + k, simd::sub(vy1, vx1));
                     }
                     for (; k < blockSize; ++k)
                         y[i * ldy + k] -= x[col[i * A.ld + j] * ldx + k];
-- 
2.43.0


From 65bf6317e22556964645bd90bd7b85aaae0b5b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:32 +0000
Subject: [PATCH 71/78] fix: fspmm with a HYB_ZO matrix over a ring without
 SIMD support does not compile

---
 fflas-ffpack/fflas/fflas_sparse/hyb_zo/hyb_zo_pspmm.inl | 2 +-
 fflas-ffpack/fflas/fflas_sparse/hyb_zo/hyb_zo_spmm.inl  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/fflas-ffpack/fflas/fflas_sparse/hyb_zo/hyb_zo_pspmm.inl b/fflas-ffpack/fflas/fflas_sparse/hyb_zo/hyb_zo_pspmm.inl
index d69258b..8f033bc 100644
--- a/fflas-ffpack/fflas/fflas_sparse/hyb_zo/hyb_zo_pspmm.inl
+++ b/fflas-ffpack/fflas/fflas_sparse/hyb_zo/hyb_zo_pspmm.inl
@@ -50,7 +50,7 @@ namespace FFLAS {
             if (A.one != nullptr)
                 sparse_details_impl::pfspmm_one(F, *(A.one), blockSize, x, ldx, y, ldy, FieldCategories::UnparametricTag());
             if (A.mone != nullptr)
-                sparse_details_impl::pfspmm_mone(F, *(A.mone), blockSize, x, ldx, y, FieldCategories::UnparametricTag());
+                sparse_details_impl::pfspmm_mone(F, *(A.mone), blockSize, x, ldx, y, ldy, FieldCategories::UnparametricTag());
             if (A.dat != nullptr)
                 sparse_details_impl::pfspmm(F, *(A.dat), blockSize, x, ldx, y, ldy, FieldCategories::UnparametricTag());
         }
diff --git a/fflas-ffpack/fflas/fflas_sparse/hyb_zo/hyb_zo_spmm.inl b/fflas-ffpack/fflas/fflas_sparse/hyb_zo/hyb_zo_spmm.inl
index c859447..2a9f552 100644
--- a/fflas-ffpack/fflas/fflas_sparse/hyb_zo/hyb_zo_spmm.inl
+++ b/fflas-ffpack/fflas/fflas_sparse/hyb_zo/hyb_zo_spmm.inl
@@ -49,7 +49,7 @@ namespace FFLAS {
             if (A.one != nullptr)
                 sparse_details_impl::fspmm_one(F, *(A.one), blockSize, x, ldx, y, ldy, FieldCategories::UnparametricTag());
             if (A.mone != nullptr)
-                sparse_details_impl::fspmm_mone(F, *(A.mone), blockSize, x, ldx, y, FieldCategories::UnparametricTag());
+                sparse_details_impl::fspmm_mone(F, *(A.mone), blockSize, x, ldx, y, ldy, FieldCategories::UnparametricTag());
             if (A.dat != nullptr)
                 sparse_details_impl::fspmm(F, *(A.dat), blockSize, x, ldx, y, ldy, FieldCategories::UnparametricTag());
         }
-- 
2.43.0


From 8288d36199e182785809ad24a25135a04bb87e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:32 +0000
Subject: [PATCH 72/78] fix: products with a HYB_ZO matrix of long rows
 overflow as the delayed reduction bound is ignored

---
 fflas-ffpack/fflas/fflas_sparse/hyb_zo/hyb_zo_pspmm.inl | 3 +++
 fflas-ffpack/fflas/fflas_sparse/hyb_zo/hyb_zo_pspmv.inl | 1 +
 fflas-ffpack/fflas/fflas_sparse/hyb_zo/hyb_zo_spmm.inl  | 3 +++
 fflas-ffpack/fflas/fflas_sparse/hyb_zo/hyb_zo_spmv.inl  | 1 +
 fflas-ffpack/fflas/fflas_sparse/hyb_zo/hyb_zo_utils.inl | 2 ++
 5 files changed, 10 insertions(+)

diff --git a/fflas-ffpack/fflas/fflas_sparse/hyb_zo/hyb_zo_pspmm.inl b/fflas-ffpack/fflas/fflas_sparse/hyb_zo/hyb_zo_pspmm.inl
index 8f033bc..4efe71a 100644
--- a/fflas-ffpack/fflas/fflas_sparse/hyb_zo/hyb_zo_pspmm.inl
+++ b/fflas-ffpack/fflas/fflas_sparse/hyb_zo/hyb_zo_pspmm.inl
@@ -96,6 +96,7 @@ namespace FFLAS {
                 sparse_details_impl::pfspmm_one(F, *(A.one), blockSize, x, ldx, y, ldy, FieldCategories::UnparametricTag());
             if (A.mone != nullptr)
                 sparse_details_impl::pfspmm_mone(F, *(A.mone), blockSize, x, ldx, y, ldy, FieldCategories::UnparametricTag());
+            freduce(F, A.m, blockSize, y, ldy);
             if (A.dat != nullptr)
                 sparse_details_impl::pfspmm(F, *(A.dat), blockSize, x, ldx, y, ldy, kmax);
         }
@@ -112,6 +113,7 @@ namespace FFLAS {
             if (A.mone != nullptr)
                 sparse_details_impl::pfspmm_mone_simd_aligned(F, *(A.mone), blockSize, x, ldx, y, ldy,
                                                               FieldCategories::UnparametricTag());
+            freduce(F, A.m, blockSize, y, ldy);
             if (A.dat != nullptr)
                 sparse_details_impl::pfspmm_simd_aligned(F, *(A.dat), blockSize, x, ldx, y, ldy, kmax);
         }
@@ -126,6 +128,7 @@ namespace FFLAS {
             if (A.mone != nullptr)
                 sparse_details_impl::pfspmm_mone_simd_unaligned(F, *(A.mone), blockSize, x, ldx, y, ldy,
                                                                 FieldCategories::UnparametricTag());
+            freduce(F, A.m, blockSize, y, ldy);
             if (A.dat != nullptr)
                 sparse_details_impl::pfspmm_simd_unaligned(F, *(A.dat), blockSize, x, ldx, y, ldy, kmax);
         }
diff --git a/fflas-ffpack/fflas/fflas_sparse/hyb_zo/hyb_zo_pspmv.inl b/fflas-ffpack/fflas/fflas_sparse/hyb_zo/hyb_zo_pspmv.inl
index 4b0ff2f..45fd106 100644
--- a/fflas-ffpack/fflas/fflas_sparse/hyb_zo/hyb_zo_pspmv.inl
+++ b/fflas-ffpack/fflas/fflas_sparse/hyb_zo/hyb_zo_pspmv.inl
@@ -59,6 +59,7 @@ namespace FFLAS {
                 sparse_details_impl::pfspmv_one(F, *(A.one), x, y, FieldCategories::UnparametricTag());
             if (A.mone != nullptr)
                 sparse_details_impl::pfspmv_mone(F, *(A.mone), x, y, FieldCategories::UnparametricTag());
+            freduce(F, A.m, y, 1);
             if (A.dat != nullptr)
                 sparse_details_impl::pfspmv(F, *(A.dat), x, y, kmax);
         }
diff --git a/fflas-ffpack/fflas/fflas_sparse/hyb_zo/hyb_zo_spmm.inl b/fflas-ffpack/fflas/fflas_sparse/hyb_zo/hyb_zo_spmm.inl
index 2a9f552..a14cc48 100644
--- a/fflas-ffpack/fflas/fflas_sparse/hyb_zo/hyb_zo_spmm.inl
+++ b/fflas-ffpack/fflas/fflas_sparse/hyb_zo/hyb_zo_spmm.inl
@@ -95,6 +95,7 @@ namespace FFLAS {
                 sparse_details_impl::fspmm_one(F, *(A.one), blockSize, x, ldx, y, ldy, FieldCategories::UnparametricTag());
             if (A.mone != nullptr)
                 sparse_details_impl::fspmm_mone(F, *(A.mone), blockSize, x, ldx, y, ldy, FieldCategories::UnparametricTag());
+            freduce(F, A.m, blockSize, y, ldy);
             if (A.dat != nullptr)
                 sparse_details_impl::fspmm(F, *(A.dat), blockSize, x, ldx, y, ldy, kmax);
         }
@@ -111,6 +112,7 @@ namespace FFLAS {
             if (A.mone != nullptr)
                 sparse_details_impl::fspmm_mone_simd_aligned(F, *(A.mone), blockSize, x, ldx, y, ldy,
                                                              FieldCategories::UnparametricTag());
+            freduce(F, A.m, blockSize, y, ldy);
             if (A.dat != nullptr)
                 sparse_details_impl::fspmm_simd_aligned(F, *(A.dat), blockSize, x, ldx, y, ldy, kmax);
         }
@@ -125,6 +127,7 @@ namespace FFLAS {
             if (A.mone != nullptr)
                 sparse_details_impl::fspmm_mone_simd_unaligned(F, *(A.mone), blockSize, x, ldx, y, ldy,
                                                                FieldCategories::UnparametricTag());
+            freduce(F, A.m, blockSize, y, ldy);
             if (A.dat != nullptr)
                 sparse_details_impl::fspmm_simd_unaligned(F, *(A.dat), blockSize, x, ldx, y, ldy, kmax);
         }
diff --git a/fflas-ffpack/fflas/fflas_sparse/hyb_zo/hyb_zo_spmv.inl b/fflas-ffpack/fflas/fflas_sparse/hyb_zo/hyb_zo_spmv.inl
index e80fcd0..53a6205 100644
--- a/fflas-ffpack/fflas/fflas_sparse/hyb_zo/hyb_zo_spmv.inl
+++ b/fflas-ffpack/fflas/fflas_sparse/hyb_zo/hyb_zo_spmv.inl
@@ -59,6 +59,7 @@ namespace FFLAS {
                 sparse_details_impl::fspmv_one(F, *(A.one), x, y, FieldCategories::UnparametricTag());
             if (A.mone != nullptr)
                 sparse_details_impl::fspmv_mone(F, *(A.mone), x, y, FieldCategories::UnparametricTag());
+            freduce(F, A.m, y, 1);
             if (A.dat != nullptr)
                 sparse_details_impl::fspmv(F, *(A.dat), x, y, kmax);
         }
diff --git a/fflas-ffpack/fflas/fflas_sparse/hyb_zo/hyb_zo_utils.inl b/fflas-ffpack/fflas/fflas_sparse/hyb_zo/hyb_zo_utils.inl
index fa775ee..e6a8b87 100644
--- a/fflas-ffpack/fflas/fflas_sparse/hyb_zo/hyb_zo_utils.inl
+++ b/fflas-ffpack/fflas/fflas_sparse/hyb_zo/hyb_zo_utils.inl
@@ -106,6 +106,8 @@ namespace FFLAS {
         if (nOthers) {
             A.dat = new Sparse<Field, SparseMatrix_t::CSR>();
             sparse_init(F, *(A.dat), rowOther, colOther, dat2, rowdim, coldim, nOthers);
+            A.kmax = A.dat->kmax;
+            A.delayed = A.dat->delayed;
         }
 
         if (nOnes) {
-- 
2.43.0


From 2182337b958c6f6d8f87b6845f8bb0fdeb620112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:23:58 +0000
Subject: [PATCH 73/78] fix: fspmv with a zero-one CSR matrix over a
 multiprecision field leaves unreduced entries

---
 fflas-ffpack/fflas/fflas_sparse/csr/csr_spmv.inl | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/fflas-ffpack/fflas/fflas_sparse/csr/csr_spmv.inl b/fflas-ffpack/fflas/fflas_sparse/csr/csr_spmv.inl
index c50fe9f..32474dc 100644
--- a/fflas-ffpack/fflas/fflas_sparse/csr/csr_spmv.inl
+++ b/fflas-ffpack/fflas/fflas_sparse/csr/csr_spmv.inl
@@ -239,7 +239,10 @@ namespace FFLAS {
                 for (; j < diff; ++j) {
                     F.addin(y1, x[col[start + j]]);
                 }
-                F.addin(y[i], y1 + y2 + y3 + y4);
+                F.addin(y[i], y1);
+                F.addin(y[i], y2);
+                F.addin(y[i], y3);
+                F.addin(y[i], y4);
             }
         }
 
@@ -265,7 +268,10 @@ namespace FFLAS {
                 for (; j < diff; ++j) {
                     F.addin(y1, x[col[start + j]]);
                 }
-                F.subin(y[i], y1 + y2 + y3 + y4);
+                F.subin(y[i], y1);
+                F.subin(y[i], y2);
+                F.subin(y[i], y3);
+                F.subin(y[i], y4);
             }
         }
 
-- 
2.43.0


From 6e773b365d8e5584ad5ccfae0e88a7ab517b292a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:27:24 +0000
Subject: [PATCH 74/78] fix: the constant of a zero-one sparse matrix is used
 without being reduced into the field

---
 fflas-ffpack/fflas/fflas_sparse.inl | 72 ++++++++++++++++++-----------
 1 file changed, 45 insertions(+), 27 deletions(-)

diff --git a/fflas-ffpack/fflas/fflas_sparse.inl b/fflas-ffpack/fflas/fflas_sparse.inl
index 479c68d..955d1c9 100644
--- a/fflas-ffpack/fflas/fflas_sparse.inl
+++ b/fflas-ffpack/fflas/fflas_sparse.inl
@@ -157,13 +157,15 @@ namespace FFLAS {
         inline void
         fspmv(const Field &F, const SM &A, typename Field::ConstElement_ptr x, typename Field::Element_ptr y,
               FieldCategories::GenericTag, ZOSparseMatrix) {
-            if (A.cst == 1) {
+            typename Field::Element cst;
+            F.init(cst, A.cst);
+            if (F.isOne(cst)) {
                 sparse_details_impl::fspmv_one(F, A, x, y, FieldCategories::GenericTag());
-            } else if (A.cst == -1) {
+            } else if (F.isMOne(cst)) {
                 sparse_details_impl::fspmv_mone(F, A, x, y, FieldCategories::GenericTag());
             } else {
                 auto x1 = fflas_new(F, A.n, Alignment::CACHE_LINE);
-                fscal(F, A.n, A.cst, x, 1, x1, 1);
+                fscal(F, A.n, cst, x, 1, x1, 1);
                 sparse_details_impl::fspmv_one(F, A, x1, y, FieldCategories::GenericTag());
                 fflas_delete(x1);
             }
@@ -173,13 +175,15 @@ namespace FFLAS {
         inline typename std::enable_if<!isSparseMatrixSimdFormat<Field, SM>::value>::type
         fspmv(const Field &F, const SM &A, typename Field::ConstElement_ptr x, typename Field::Element_ptr y,
               FieldCategories::UnparametricTag, ZOSparseMatrix) {
-            if (A.cst == 1) {
+            typename Field::Element cst;
+            F.init(cst, A.cst);
+            if (F.isOne(cst)) {
                 sparse_details_impl::fspmv_one(F, A, x, y, FieldCategories::UnparametricTag());
-            } else if (A.cst == -1) {
+            } else if (F.isMOne(cst)) {
                 sparse_details_impl::fspmv_mone(F, A, x, y, FieldCategories::UnparametricTag());
             } else {
                 auto x1 = fflas_new(F, A.n, Alignment::CACHE_LINE);
-                fscal(F, A.n, A.cst, x, 1, x1, 1);
+                fscal(F, A.n, cst, x, 1, x1, 1);
                 sparse_details_impl::fspmv_one(F, A, x1, y, FieldCategories::UnparametricTag());
                 fflas_delete(x1);
             }
@@ -192,13 +196,15 @@ namespace FFLAS {
         fspmv(const Field &F, const SM &A, typename Field::ConstElement_ptr x, typename Field::Element_ptr y,
               FieldCategories::UnparametricTag, ZOSparseMatrix) {
             // #ifdef __FFLASFFPACK_HAVE_SSE4_1_INSTRUCTIONS
-            if (A.cst == 1) {
+            typename Field::Element cst;
+            F.init(cst, A.cst);
+            if (F.isOne(cst)) {
                 sparse_details_impl::fspmv_one_simd(F, A, x, y, FieldCategories::UnparametricTag());
-            } else if (A.cst == -1) {
+            } else if (F.isMOne(cst)) {
                 sparse_details_impl::fspmv_mone_simd(F, A, x, y, FieldCategories::UnparametricTag());
             } else {
                 auto x1 = fflas_new(F, A.n, Alignment::CACHE_LINE);
-                fscal(F, A.n, A.cst, x, 1, x1, 1);
+                fscal(F, A.n, cst, x, 1, x1, 1);
                 sparse_details_impl::fspmv_one_simd(F, A, x1, y, FieldCategories::UnparametricTag());
                 fflas_delete(x1);
             }
@@ -310,13 +316,15 @@ namespace FFLAS {
         inline void
         fspmm(const Field &F, const SM &A, size_t blockSize, typename Field::ConstElement_ptr x, int ldx,
               typename Field::Element_ptr y, int ldy, FieldCategories::GenericTag, ZOSparseMatrix) {
-            if (F.isOne(A.cst)) {
+            typename Field::Element cst;
+            F.init(cst, A.cst);
+            if (F.isOne(cst)) {
                 sparse_details_impl::fspmm_one(F, A, blockSize, x, ldx, y, ldy, FieldCategories::GenericTag());
-            } else if (F.isMOne(A.cst)) {
+            } else if (F.isMOne(cst)) {
                 sparse_details_impl::fspmm_mone(F, A, blockSize, x, ldx, y, ldy, FieldCategories::GenericTag());
             } else {
                 auto x1 = fflas_new(F, A.n, blockSize, Alignment::CACHE_LINE);
-                fscal(F, A.n, blockSize, A.cst, x, ldx, x1, blockSize);
+                fscal(F, A.n, blockSize, cst, x, ldx, x1, blockSize);
                 sparse_details_impl::fspmm_one(F, A, blockSize, x1, (int)blockSize, y, ldy, FieldCategories::GenericTag());
                 fflas_delete(x1);
             }
@@ -327,7 +335,9 @@ namespace FFLAS {
         fspmm(const Field &F, const SM &A, size_t blockSize, typename Field::ConstElement_ptr x, int ldx,
               typename Field::Element_ptr y, int ldy, FieldCategories::UnparametricTag, ZOSparseMatrix) {
             using simd = Simd<typename Field::Element>;
-            if (F.isOne(A.cst)) {
+            typename Field::Element cst;
+            F.init(cst, A.cst);
+            if (F.isOne(cst)) {
                 if (simd::valid(x) && simd::valid(y) && simd::compliant(blockSize) && simd::compliant(ldx) && simd::compliant(ldy)) {
                     sparse_details_impl::fspmm_one_simd_aligned(F, A, blockSize, x, ldx, y, ldy,
                                                                 FieldCategories::UnparametricTag());
@@ -335,7 +345,7 @@ namespace FFLAS {
                     sparse_details_impl::fspmm_one_simd_unaligned(F, A, blockSize, x, ldx, y, ldy,
                                                                   FieldCategories::UnparametricTag());
                 }
-            } else if (F.isMOne(A.cst)) {
+            } else if (F.isMOne(cst)) {
                 if (simd::valid(x) && simd::valid(y) && simd::compliant(blockSize) && simd::compliant(ldx) && simd::compliant(ldy)) {
                     sparse_details_impl::fspmm_mone_simd_aligned(F, A, blockSize, x, ldx, y, ldy,
                                                                  FieldCategories::UnparametricTag());
@@ -345,7 +355,7 @@ namespace FFLAS {
                 }
             } else {
                 auto x1 = fflas_new(F, A.n, blockSize, Alignment::CACHE_LINE);
-                fscal(F, A.n, blockSize, A.cst, x, ldx, x1, blockSize);
+                fscal(F, A.n, blockSize, cst, x, ldx, x1, blockSize);
                 if (simd::valid(x1) && simd::valid(y) && simd::compliant(blockSize) && simd::compliant(ldy)) {
                     sparse_details_impl::fspmm_one_simd_aligned(F, A, blockSize, x1, (int)blockSize, y, ldy,
                                                                 FieldCategories::UnparametricTag());
@@ -361,13 +371,15 @@ namespace FFLAS {
         inline typename std::enable_if<!support_simd<typename Field::Element>::value>::type
         fspmm(const Field &F, const SM &A, size_t blockSize, typename Field::ConstElement_ptr x, int ldx,
               typename Field::Element_ptr y, int ldy, FieldCategories::UnparametricTag, ZOSparseMatrix) {
-            if (F.isOne(A.cst)) {
+            typename Field::Element cst;
+            F.init(cst, A.cst);
+            if (F.isOne(cst)) {
                 sparse_details_impl::fspmm_one(F, A, blockSize, x, ldx, y, ldy, FieldCategories::UnparametricTag());
-            } else if (F.isMOne(A.cst)) {
+            } else if (F.isMOne(cst)) {
                 sparse_details_impl::fspmm_mone(F, A, blockSize, x, ldx, y, ldy, FieldCategories::UnparametricTag());
             } else {
                 auto x1 = fflas_new(F, A.n, blockSize, Alignment::CACHE_LINE);
-                fscal(F, A.n, blockSize, A.cst, x, ldx, x1, blockSize);
+                fscal(F, A.n, blockSize, cst, x, ldx, x1, blockSize);
                 sparse_details_impl::fspmm_one(F, A, blockSize, x1, (int)blockSize, y, ldy, FieldCategories::UnparametricTag());
                 fflas_delete(x1);
             }
@@ -473,13 +485,15 @@ namespace FFLAS {
         inline void
         pfspmm(const Field &F, const SM &A, size_t blockSize, typename Field::ConstElement_ptr x, int ldx,
                typename Field::Element_ptr y, int ldy, FieldCategories::GenericTag, ZOSparseMatrix) {
-            if (F.isOne(A.cst)) {
+            typename Field::Element cst;
+            F.init(cst, A.cst);
+            if (F.isOne(cst)) {
                 sparse_details_impl::pfspmm_one(F, A, blockSize, x, ldx, y, ldy, FieldCategories::GenericTag());
-            } else if (F.isMOne(A.cst)) {
+            } else if (F.isMOne(cst)) {
                 sparse_details_impl::pfspmm_mone(F, A, blockSize, x, ldx, y, ldy, FieldCategories::GenericTag());
             } else {
                 auto x1 = fflas_new(F, A.n, blockSize, Alignment::CACHE_LINE);
-                fscal(F, A.n, blockSize, A.cst, x, ldx, x1, blockSize);
+                fscal(F, A.n, blockSize, cst, x, ldx, x1, blockSize);
                 sparse_details_impl::pfspmm_one(F, A, blockSize, x1, (int)blockSize, y, ldy, FieldCategories::GenericTag());
                 fflas_delete(x1);
             }
@@ -492,7 +506,9 @@ namespace FFLAS {
         pfspmm(const Field &F, const SM &A, size_t blockSize, typename Field::ConstElement_ptr x, int ldx,
                typename Field::Element_ptr y, int ldy, FieldCategories::UnparametricTag, ZOSparseMatrix) {
             using simd = Simd<typename Field::Element>;
-            if (F.isOne(A.cst)) {
+            typename Field::Element cst;
+            F.init(cst, A.cst);
+            if (F.isOne(cst)) {
                 if (simd::valid(x) && simd::valid(y) && simd::compliant(blockSize) && simd::compliant(ldx) && simd::compliant(ldy)) {
                     sparse_details_impl::pfspmm_one_simd_aligned(F, A, blockSize, x, ldx, y, ldy,
                                                                  FieldCategories::UnparametricTag());
@@ -500,7 +516,7 @@ namespace FFLAS {
                     sparse_details_impl::pfspmm_one_simd_unaligned(F, A, blockSize, x, ldx, y, ldy,
                                                                    FieldCategories::UnparametricTag());
                 }
-            } else if (F.isMOne(A.cst)) {
+            } else if (F.isMOne(cst)) {
                 if (simd::valid(x) && simd::valid(y) && simd::compliant(blockSize) && simd::compliant(ldx) && simd::compliant(ldy)) {
                     sparse_details_impl::pfspmm_mone_simd_aligned(F, A, blockSize, x, ldx, y, ldy,
                                                                   FieldCategories::UnparametricTag());
@@ -510,7 +526,7 @@ namespace FFLAS {
                 }
             } else {
                 auto x1 = fflas_new(F, A.n, blockSize, Alignment::CACHE_LINE);
-                fscal(F, A.n, blockSize, A.cst, x, ldx, x1, blockSize);
+                fscal(F, A.n, blockSize, cst, x, ldx, x1, blockSize);
                 if (simd::valid(x1) && simd::valid(y) && simd::compliant(blockSize) && simd::compliant(ldy)) {
                     sparse_details_impl::pfspmm_one_simd_aligned(F, A, blockSize, x1, (int)blockSize, y, ldy,
                                                                  FieldCategories::UnparametricTag());
@@ -526,13 +542,15 @@ namespace FFLAS {
         inline typename std::enable_if<!support_simd<typename Field::Element>::value>::type
         pfspmm(const Field &F, const SM &A, size_t blockSize, typename Field::ConstElement_ptr x, int ldx,
                typename Field::Element_ptr y, int ldy, FieldCategories::UnparametricTag, ZOSparseMatrix) {
-            if (F.isOne(A.cst)) {
+            typename Field::Element cst;
+            F.init(cst, A.cst);
+            if (F.isOne(cst)) {
                 sparse_details_impl::pfspmm_one(F, A, blockSize, x, ldx, y, ldy, FieldCategories::UnparametricTag());
-            } else if (F.isMOne(A.cst)) {
+            } else if (F.isMOne(cst)) {
                 sparse_details_impl::pfspmm_mone(F, A, blockSize, x, ldx, y, ldy, FieldCategories::UnparametricTag());
             } else {
                 auto x1 = fflas_new(F, A.n, blockSize, Alignment::CACHE_LINE);
-                fscal(F, A.n, blockSize, A.cst, x, ldx, x1, blockSize);
+                fscal(F, A.n, blockSize, cst, x, ldx, x1, blockSize);
                 sparse_details_impl::pfspmm_one(F, A, blockSize, x1, (int)blockSize, y, ldy, FieldCategories::UnparametricTag());
                 fflas_delete(x1);
             }
-- 
2.43.0


From a4758aaefa5ca640c63b4eeb59e24027792aaa82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:31:04 +0000
Subject: [PATCH 75/78] fix: pfspmm with a zero-one CSR matrix of constant -1
 adds in the tail of the rows

---
 fflas-ffpack/fflas/fflas_sparse/csr/csr_pspmm.inl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fflas-ffpack/fflas/fflas_sparse/csr/csr_pspmm.inl b/fflas-ffpack/fflas/fflas_sparse/csr/csr_pspmm.inl
index f52b7b3..34f5ff3 100644
--- a/fflas-ffpack/fflas/fflas_sparse/csr/csr_pspmm.inl
+++ b/fflas-ffpack/fflas/fflas_sparse/csr/csr_pspmm.inl
@@ -821,7 +821,7 @@ inline void pfspmm_mone_simd_aligned(const Field &F, const Sparse<Field, SparseM
                                 simd::store(y + i * ldy + k, simd::sub(y1, x1));
                                 }
                                 for (; k < blockSize; ++k) {
-                                y[i * ldy + k] += x[col[j] * ldx + k];
+                                y[i * ldy + k] -= x[col[j] * ldx + k];
                                 }
                                 }
                                 }
@@ -893,7 +893,7 @@ inline void pfspmm_mone_simd_unaligned(const Field &F, const Sparse<Field, Spars
                                 simd::storeu(y + i * ldy + k, simd::sub(y1, x1));
                                 }
                                 for (; k < blockSize; ++k) {
-                                y[i * ldy + k] += x[col[j] * ldx + k];
+                                y[i * ldy + k] -= x[col[j] * ldx + k];
                                 }
                                 }
                                 }
-- 
2.43.0


From 12aafb193a946cc7ed717ad643d69e3b27a0c6a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:02 +0000
Subject: [PATCH 76/78] fix: igemm_ with alpha other than 1 and -1 truncates to
 32 bits before scaling

---
 .../fflas/fflas_igemm/igemm_kernels.inl       | 44 +++++++++----------
 1 file changed, 21 insertions(+), 23 deletions(-)

diff --git a/fflas-ffpack/fflas/fflas_igemm/igemm_kernels.inl b/fflas-ffpack/fflas/fflas_igemm/igemm_kernels.inl
index 0ca1211..8268d5b 100644
--- a/fflas-ffpack/fflas/fflas_igemm/igemm_kernels.inl
+++ b/fflas-ffpack/fflas/fflas_igemm/igemm_kernels.inl
@@ -192,7 +192,7 @@ namespace FFLAS { namespace details { /*  kernels */
             simd::subin(R0,C0);
         }
         if (K == number_kind::other) {
-            simd::fmaddxin(R0,A_0,C0);
+            simd::fmaddin(R0,A_0,C0);
         }
         simd::storeu(r0,R0);
         R0 = simd::loadu( r3+simd::vect_size);
@@ -215,13 +215,13 @@ namespace FFLAS { namespace details { /*  kernels */
             simd::subin(R0,C7);
         }
         if (K == number_kind::other) {
-            simd::fmaddxin(R1,A_0,C1);
-            simd::fmaddxin(R2,A_0,C2);
-            simd::fmaddxin(R3,A_0,C3);
-            simd::fmaddxin(R4,A_0,C4);
-            simd::fmaddxin(R5,A_0,C5);
-            simd::fmaddxin(R6,A_0,C6);
-            simd::fmaddxin(R0,A_0,C7);
+            simd::fmaddin(R1,A_0,C1);
+            simd::fmaddin(R2,A_0,C2);
+            simd::fmaddin(R3,A_0,C3);
+            simd::fmaddin(R4,A_0,C4);
+            simd::fmaddin(R5,A_0,C5);
+            simd::fmaddin(R6,A_0,C6);
+            simd::fmaddin(R0,A_0,C7);
         }
         simd::storeu(r1,R1);
         simd::storeu(r2,R2);
@@ -335,10 +335,10 @@ namespace FFLAS { namespace details { /*  kernels */
         if ( K == number_kind::other) {
             vect_t A_0 ;
             A_0 = simd::set1(alpha);
-            simd::fmaddxin(R0,A_0,C0);
-            simd::fmaddxin(R1,A_0,C1);
-            simd::fmaddxin(R2,A_0,C2);
-            simd::fmaddxin(R3,A_0,C3);
+            simd::fmaddin(R0,A_0,C0);
+            simd::fmaddin(R1,A_0,C1);
+            simd::fmaddin(R2,A_0,C2);
+            simd::fmaddin(R3,A_0,C3);
         }
         simd::storeu(r0,R0);
         simd::storeu(r1,R1);
@@ -415,9 +415,8 @@ namespace FFLAS { namespace details { /*  kernels */
                 simd::subin(R0,simd::mulx(A_0, B_0));
             }
             if (K == number_kind::other) {
-                int64_t abla = alpha*blA[0];
-                A_0 = simd::set1(abla);
-                simd::fmaddxin(R0, A_0, B_0);
+                A_0 = simd::set1(blA[0]);
+                simd::fmaddin(R0, simd::set1(alpha), simd::mulx(A_0, B_0));
             }
 
             blA++;
@@ -449,11 +448,10 @@ namespace FFLAS { namespace details { /*  kernels */
                 simd::subin(R1,simd::mulx(A_1, B_1));
             }
             if (K == number_kind::other) {
-                int64_t abla = alpha*blA[0];
-                A_0 = simd::set1(abla);
-                A_1 = simd::set1(abla);
-                simd::fmaddxin(R0, A_0, B_0);
-                simd::fmaddxin(R1, A_1, B_1);
+                A_0 = simd::set1(blA[0]);
+                A_1 = simd::set1(blA[0]);
+                simd::fmaddin(R0, simd::set1(alpha), simd::mulx(A_0, B_0));
+                simd::fmaddin(R1, simd::set1(alpha), simd::mulx(A_1, B_1));
             }
 
             blA++;
@@ -512,8 +510,8 @@ namespace FFLAS { namespace details { /*  kernels */
         if (K == number_kind::other) {
             vect_t A_0 ;
             A_0 = simd::set1(alpha);
-            simd::fmaddxin(R0,A_0,C0);
-            simd::fmaddxin(R4,A_0,C4);
+            simd::fmaddin(R0,A_0,C0);
+            simd::fmaddin(R4,A_0,C4);
         }
         simd::storeu(r0,R0);
         simd::storeu(r4,R4);
@@ -555,7 +553,7 @@ namespace FFLAS { namespace details { /*  kernels */
         if ( K == number_kind::other){
             vect_t A_0 ;
             A_0 = simd::set1(alpha);
-            simd::fmaddxin(R0,A_0,C0);
+            simd::fmaddin(R0,A_0,C0);
         }
         simd::storeu(r0,R0);
     }
-- 
2.43.0


From 56e5a0db972b1531d19dc05564c2a61656d1839d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:38:18 +0000
Subject: [PATCH 77/78] fix: readSmsFormat misplaces entries after one that is
 zero in the field, and its unsorted mode loses entries and rows

---
 fflas-ffpack/fflas/fflas_sparse/read_sparse.h | 31 ++++---------------
 1 file changed, 6 insertions(+), 25 deletions(-)

diff --git a/fflas-ffpack/fflas/fflas_sparse/read_sparse.h b/fflas-ffpack/fflas/fflas_sparse/read_sparse.h
index d00708d..4840c73 100644
--- a/fflas-ffpack/fflas/fflas_sparse/read_sparse.h
+++ b/fflas-ffpack/fflas/fflas_sparse/read_sparse.h
@@ -111,8 +111,8 @@ namespace FFLAS {
         row = fflas_new<index_t>(rowdim+1);
         std::memset(row,0, sizeof(index_t)*(rowdim+1));
         assert(!row[0] && !row[rowdim]);
-        std::vector<index_t> colid((sms)?0:nnz);
-        std::vector<typename Field::Element> dat((sms)?0:nnz);
+        std::vector<index_t> colid;
+        std::vector<typename Field::Element> dat;
 
 
         /* got header */
@@ -153,14 +153,8 @@ namespace FFLAS {
                     }
                     else {
                         row[l] += 1 ;
-                        if (!sms) {
-                            colid[i] = c-1 ;
-                            dat[i] = v ;
-                        }
-                        else {
-                            colid.push_back(c-1);
-                            dat.push_back(v);
-                        }
+                        colid.push_back(c-1);
+                        dat.push_back(v);
                     }
                 }
             }
@@ -169,28 +163,16 @@ namespace FFLAS {
             }
             ++i ;
         }
-        if (sms) {
-            nnz=dat.size();
-        }
-        assert(i == nnz);
+        // entries that are zero in the field are not stored
+        nnz = sorted ? dat.size() : data.size();
 
         col = fflas_new<index_t>(nnz);
         val = fflas_new(f, nnz);
 
         if (!sorted) {
-            assert(nnz == data.size());
-
             std::sort(data.begin(), data.end(), [](const Coo<Field> &a, const Coo<Field> &b) {
                       return (a.row < b.row) || ((a.row == b.row) && (a.col < b.col));
                       });
-            auto rowmax = (std::max_element(data.begin(), data.end(),
-                                            [](const Coo<Field> &a, const Coo<Field> &b) { return a.row < b.row; }))->row;
-            if (rowdim != rowmax + 1) {
-                std::cout << "Matrix row dimension change : " << rowdim << " -> " << rowmax << std::endl;
-                rowdim = rowmax;
-            }
-
-
             for (size_t j = 0, end = data.size(); j < end; ++j) {
                 val[j] = data[j].val;
                 col[j] = data[j].col;
@@ -198,7 +180,6 @@ namespace FFLAS {
             }
         }
         else {
-            assert(nnz==dat.size());
             for (size_t j = 0, end = nnz; j < end; ++j) {
                 val[j] = dat[j];
                 col[j] = colid[j];
-- 
2.43.0


From a9100b2dfc019375d76b96c7b5c1271043406472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:39:13 +0000
Subject: [PATCH 78/78] fix: readSprFormat crashes on a final newline and
 shrinks the row dimension when the last rows are empty

---
 fflas-ffpack/fflas/fflas_sparse/read_sparse.h | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/fflas-ffpack/fflas/fflas_sparse/read_sparse.h b/fflas-ffpack/fflas/fflas_sparse/read_sparse.h
index 4840c73..1a6dd7a 100644
--- a/fflas-ffpack/fflas/fflas_sparse/read_sparse.h
+++ b/fflas-ffpack/fflas/fflas_sparse/read_sparse.h
@@ -221,6 +221,8 @@ namespace FFLAS {
             std::copy(std::istream_iterator<std::string>(iss), std::istream_iterator<std::string>(),
                       std::back_inserter<std::vector<std::string>>(tokens));
 
+            if (tokens.empty()) continue; // blank line, or end of file after the last newline
+
             // if (!(tokens[0] == "0" && tokens[1] == "0" && tokens[2] == "0")) {
             uint64_t nElements = std::stoull(tokens[0]);
             for (uint64_t i = 0; i < nElements; ++i) {
@@ -241,12 +243,6 @@ namespace FFLAS {
         std::sort(data.begin(), data.end(), [](const Coo<Field> &a, const Coo<Field> &b) {
                   return (a.row < b.row) || ((a.row == b.row) && (a.col < b.col));
                   });
-        auto rowmax = (std::max_element(data.begin(), data.end(),
-                                        [](const Coo<Field> &a, const Coo<Field> &b) { return a.row < b.row; }))->row;
-        if (rowdim != rowmax + 1) {
-            std::cout << "Matrix row dimension change : " << rowdim << " -> " << rowmax << std::endl;
-            rowdim = rowmax;
-        }
         row = fflas_new<index_t>(data.size());
         col = fflas_new<index_t>(data.size());
         val = fflas_new(f, data.size());
-- 
2.43.0

