From e77813c68f582e021da33dad6b2311de3c478408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:08 +0000
Subject: [PATCH 01/24] fix: find_pk: search the whole table for each query, so
 that queries need not be sorted

---
 src/common.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/common.c b/src/common.c
index d44ed31..41097ee 100644
--- a/src/common.c
+++ b/src/common.c
@@ -193,7 +193,6 @@ void find_pk(Pk pkin,histo_t* k,histo_t* pk,size_t nk,INTERPOL interpol)
 		else if (k[ik]<kstart) pk[ik] = extrapol_pk_lowk(pkin,k[ik]);
 		else {
 			size_t ind = get_dichotomy_index(k[ik],pkin.k,start,end+1);
-			start = ind;
 			if (interpol==POLY) {
 				size_t ikmin = MAX(0,((long) ind)-2);
 				size_t ikmax = MIN(end,ind+2);
-- 
2.43.0


From a6453c518b85934678e9a7eead3ce48b1a935ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:08 +0000
Subject: [PATCH 02/24] fix: find_pk: linear interpolation at the last table
 point stays inside the table

---
 src/common.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/common.c b/src/common.c
index 41097ee..534bf27 100644
--- a/src/common.c
+++ b/src/common.c
@@ -198,7 +198,10 @@ void find_pk(Pk pkin,histo_t* k,histo_t* pk,size_t nk,INTERPOL interpol)
 				size_t ikmax = MIN(end,ind+2);
 				pk[ik] = interpol_poly(k[ik],&(pkin.k[ikmin]),&(pkin.pk[ikmin]),ikmax-ikmin+1);
 			}
-			else pk[ik] = interpol_lin(k[ik],pkin.k[ind],pkin.k[ind+1],pkin.pk[ind],pkin.pk[ind+1]);
+			else {
+				ind = MIN(ind,end-1);
+				pk[ik] = interpol_lin(k[ik],pkin.k[ind],pkin.k[ind+1],pkin.pk[ind],pkin.pk[ind+1]);
+			}
 		}
 	}
 }
-- 
2.43.0


From 59c3d6526e1c722067cb4f0adf552c3504e983f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:08 +0000
Subject: [PATCH 03/24] fix: calc_running_sigmad2: restart the running sum when
 the wavenumbers decrease

---
 src/common.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/common.c b/src/common.c
index 534bf27..27ca73b 100644
--- a/src/common.c
+++ b/src/common.c
@@ -218,6 +218,11 @@ void calc_running_sigmad2(histo_t *k,histo_t *sigmad2,size_t nk,histo_t uvcutoff
 	histo_t sigmad2_ = 0.;
 	for (ik=0;ik<nk;ik++) {
 		histo_t kmax = k[ik]*uvcutoff;
+		if ((ik>0)&&(k[ik]<k[ik-1])) {
+			//the running sum already passed this k
+			iklin = 0;
+			sigmad2_ = 0.;
+		}
 		if (kmax < pk_lin.k[0]) {
 			sigmad2[ik] = 0.;
 			continue;
-- 
2.43.0


From 0fd542397390a0ce9664617c088b39bcd78e35fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:08 +0000
Subject: [PATCH 04/24] fix: set_spectra_B: compare the second field instead of
 assigning it

---
 src/spectrum_B.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spectrum_B.c b/src/spectrum_B.c
index 5f46cba..061cf0c 100644
--- a/src/spectrum_B.c
+++ b/src/spectrum_B.c
@@ -62,7 +62,7 @@ void set_spectra_B(char* a_,char* b_, size_t nk, histo_t *k, histo_t *pk)
 	pk_ab.pk = pk;
 	FLAG a = set_flag(a_);
 	FLAG b = set_flag(b_);
-	if (((a==DELTA)&&(b=THETA))||((a==THETA)&&(b==DELTA))) {
+	if (((a==DELTA)&&(b==THETA))||((a==THETA)&&(b==DELTA))) {
 		if (verbose == INFO) printf(" - setting P_delta_theta\n");
 		pk_dt = pk_ab;
 	}
-- 
2.43.0


From 8edc4a2e2d711e5d491d03f5a5ade70cbb61bc83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:45 +0000
Subject: [PATCH 05/24] fix: gamma3, A_2loop_II_III: an automatic range follows
 the spectrum of each run

---
 src/calc_pkcorr_from_A_2loop_II_III.c | 11 ++++++-----
 src/calc_pkcorr_from_gamma3.c         | 18 ++++++++++--------
 2 files changed, 16 insertions(+), 13 deletions(-)

diff --git a/src/calc_pkcorr_from_A_2loop_II_III.c b/src/calc_pkcorr_from_A_2loop_II_III.c
index 1aa84b8..e0af4bb 100644
--- a/src/calc_pkcorr_from_A_2loop_II_III.c
+++ b/src/calc_pkcorr_from_A_2loop_II_III.c
@@ -30,12 +30,13 @@ void set_precision_A_2loop_II_III_q(histo_t min_,histo_t max_,char* interpol_)
 
 void init_A_2loop_II_III()
 {
-	if ((precision_q.min<=0.)||(precision_q.max<=0.)) {
-		precision_q.min = pk_lin.k[0];
-		precision_q.max = pk_lin.k[pk_lin.nk-1];
+	histo_t qmin = precision_q.min,qmax = precision_q.max;
+	if ((qmin<=0.)||(qmax<=0.)) {
+		qmin = pk_lin.k[0];
+		qmax = pk_lin.k[pk_lin.nk-1];
 	}
-	logqmin = my_log(precision_q.min);
-	logqmax = my_log(precision_q.max);
+	logqmin = my_log(qmin);
+	logqmax = my_log(qmax);
 	get_precision_bispectrum_1loop_pk_lin(&interpol_pk_lin);
 	get_running_uvcutoff_bispectrum_1loop(&uvcutoff);
 }
diff --git a/src/calc_pkcorr_from_gamma3.c b/src/calc_pkcorr_from_gamma3.c
index b568d63..3c824a8 100644
--- a/src/calc_pkcorr_from_gamma3.c
+++ b/src/calc_pkcorr_from_gamma3.c
@@ -6,7 +6,7 @@
 #include "common.h"
 #include "kernels.h"
 
-static histo_t k,logqmin,logqmax;
+static histo_t k,qmin,qmax,logqmin,logqmax;
 static const Precision precision_q_default = {.n=0,.min=5e-4,.max=10.,.interpol=POLY};
 static Precision precision_q = {.n=0,.min=5e-4,.max=10.,.interpol=POLY};
 static FLAG a,b;
@@ -19,12 +19,14 @@ void set_precision_gamma3_tree_q(histo_t min_,histo_t max_,char* interpol_)
 
 void init_gamma3_tree()
 {
-	if ((precision_q.min<=0.)||(precision_q.max<=0.)) {
-		precision_q.min = pk_lin.k[0];
-		precision_q.max = pk_lin.k[pk_lin.nk-1];
+	qmin = precision_q.min;
+	qmax = precision_q.max;
+	if ((qmin<=0.)||(qmax<=0.)) {
+		qmin = pk_lin.k[0];
+		qmax = pk_lin.k[pk_lin.nk-1];
 	}
-	logqmin = my_log(precision_q.min);
-	logqmax = my_log(precision_q.max);
+	logqmin = my_log(qmin);
+	logqmax = my_log(qmax);
 }
 
 void free_gamma3_tree() {}
@@ -63,7 +65,7 @@ static void kernel_pk_gamma3_tree(const int *ndim, const double xx[],const int *
 	histo_t prod_q_kp = qq[0]*kp[0] + qq[1]*kp[1] + qq[2]*kp[2];
 	
 	ff[0] = 0.;
-	if ((k_p_q>=precision_q.min)&&(k_p_q<=precision_q.max)&&(prod_q_kp<=0.5*k_p*k_p)) {
+	if ((k_p_q>=qmin)&&(k_p_q<=qmax)&&(prod_q_kp<=0.5*k_p*k_p)) {
 		histo_t pk_p,pk_q,pk_kpq;
 		find_pk_lin(&p,&pk_p,1,precision_q.interpol);
 		find_pk_lin(&q,&pk_q,1,precision_q.interpol);
@@ -134,7 +136,7 @@ static int kernel_pk_gamma3_tree(const int *ndim, const double xx[],const int *n
 	histo_t prod_q_kp = qq[0]*kp[0] + qq[1]*kp[1] + qq[2]*kp[2];
 	
 	ff[0] = 0.;
-	if ((k_p_q>=precision_q.min)&&(k_p_q<=precision_q.max)&&(prod_q_kp<=0.5*k_p*k_p)) {
+	if ((k_p_q>=qmin)&&(k_p_q<=qmax)&&(prod_q_kp<=0.5*k_p*k_p)) {
 		histo_t pk_p,pk_q,pk_kpq;
 		find_pk_lin(&p,&pk_p,1,precision_q.interpol);
 		find_pk_lin(&q,&pk_q,1,precision_q.interpol);
-- 
2.43.0


From 962a6410c5c812f571d2af117c237601dcbf2853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:45 +0000
Subject: [PATCH 06/24] fix: set_precision('all_pklin') names the calculations
 of the library

---
 pyregpt/pyregpt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyregpt/pyregpt.py b/pyregpt/pyregpt.py
index 2bdfe17..f35957b 100644
--- a/pyregpt/pyregpt.py
+++ b/pyregpt/pyregpt.py
@@ -293,7 +293,7 @@ class PyRegPT(Terms):
                 self.set_precision(calculation, n=n, min=min, max=max, interpol=interpol)
             return
         if calculation == 'all_pklin':
-            for calculation in ['spectrum_1loop_pk_lin', 'spectrum_2loop_pk_lin', 'bias_pk_lin', 'bispectrum_1loop_pk_lin', 'spectrum_A_2loop_pklin', 'spectrum_B_2loop_pklin']:
+            for calculation in ['spectrum_1loop_pk_lin', 'spectrum_2loop_pk_lin', 'bias_1loop_pk_lin', 'bispectrum_1loop_pk_lin', 'A_1loop_pk_lin', 'A_2loop_pk_lin', 'B_pk_lin']:
                 self.set_precision(calculation, n=n, min=min, max=max, interpol=interpol)
             return
         func = getattr(self.regpt, 'set_precision_' + calculation)
-- 
2.43.0


From d710cfbcd98bfb93a7ab4b31bf377e32b5153bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:30 +0000
Subject: [PATCH 07/24] fix: set_precision: 'all_q' and 'all_mu' (hence clear)
 cover the 1-loop A term

---
 pyregpt/pyregpt.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyregpt/pyregpt.py b/pyregpt/pyregpt.py
index f35957b..885eb7e 100644
--- a/pyregpt/pyregpt.py
+++ b/pyregpt/pyregpt.py
@@ -270,11 +270,11 @@ class PyRegPT(Terms):
                 self.set_precision(calculation, n=n, min=min, max=max, interpol=interpol)
             return
         if calculation == 'all_q':
-            for calculation in ['spectrum_2loop_q', 'bias_1loop_q', 'A_2loop_q', 'B_q']:
+            for calculation in ['spectrum_2loop_q', 'bias_1loop_q', 'A_1loop_q', 'A_2loop_q', 'B_q']:
                 self.set_precision(calculation, n=n, min=min, max=max, interpol=interpol)
             return
         if calculation == 'all_mu':
-            for calculation in ['gamma2_tree_mu', 'bias_1loop_mu', 'A_2loop_I_mu', 'B_mu']:
+            for calculation in ['gamma2_tree_mu', 'bias_1loop_mu', 'A_1loop_mu', 'A_2loop_I_mu', 'B_mu']:
                 self.set_precision(calculation, n=n, min=min, max=max, interpol=interpol)
             return
         if calculation == 'spectrum_1loop_q':
-- 
2.43.0


From 3b5972ae0e4ecffeac0621bdc1e5408fb0b397ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:30 +0000
Subject: [PATCH 08/24] fix: set_running_uvcutoff: reach the A and B terms, and
 cover them with 'all' (hence clear)

---
 pyregpt/pyregpt.py     | 2 +-
 src/spectrum_A_1loop.c | 2 +-
 src/spectrum_A_2loop.c | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyregpt/pyregpt.py b/pyregpt/pyregpt.py
index 885eb7e..ea855f8 100644
--- a/pyregpt/pyregpt.py
+++ b/pyregpt/pyregpt.py
@@ -313,7 +313,7 @@ class PyRegPT(Terms):
     def set_running_uvcutoff(self, calculation='all', uvcutoff=0.5):
 
         if calculation == 'all':
-            for calculation in ['spectrum_1loop', 'spectrum_2loop', 'bispectrum_1loop', 'bias_1loop']:
+            for calculation in ['spectrum_1loop', 'spectrum_2loop', 'bispectrum_1loop', 'bias_1loop', 'A_1loop', 'A_2loop', 'B']:
                 self.set_running_uvcutoff(calculation, uvcutoff=uvcutoff)
             return
         func = getattr(self.regpt, 'set_running_uvcutoff_' + calculation)
diff --git a/src/spectrum_A_1loop.c b/src/spectrum_A_1loop.c
index 8320cd8..3311bb7 100644
--- a/src/spectrum_A_1loop.c
+++ b/src/spectrum_A_1loop.c
@@ -21,7 +21,7 @@ void set_precision_A_1loop_pk_lin(char* interpol_)
 	set_interpol(&interpol_pk_lin,interpol_);
 }
 
-void set_precision_A_1loop_sigmad2(histo_t uvcutoff_)
+void set_running_uvcutoff_A_1loop(histo_t uvcutoff_)
 {
 	uvcutoff = uvcutoff_;
 }
diff --git a/src/spectrum_A_2loop.c b/src/spectrum_A_2loop.c
index fb99862..ecc090e 100644
--- a/src/spectrum_A_2loop.c
+++ b/src/spectrum_A_2loop.c
@@ -19,7 +19,7 @@ void set_precision_A_2loop_pk_lin(char* interpol_)
 	set_interpol(&interpol_pk_lin,interpol_);
 }
 
-void set_precision_A_2loop_sigmad2(histo_t uvcutoff_)
+void set_running_uvcutoff_A_2loop(histo_t uvcutoff_)
 {
 	uvcutoff = uvcutoff_;
 }
-- 
2.43.0


From c362ac80e02961ea64485ec306577330ceb2aa15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:30 +0000
Subject: [PATCH 09/24] fix: clear: also reset the interpolation of the linear
 spectrum

---
 pyregpt/pyregpt.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyregpt/pyregpt.py b/pyregpt/pyregpt.py
index ea855f8..dba55aa 100644
--- a/pyregpt/pyregpt.py
+++ b/pyregpt/pyregpt.py
@@ -333,6 +333,7 @@ class PyRegPT(Terms):
     def clear(self):
         #To reset all precision settings
         self.set_precision(calculation='all', n=0, min=1., max=-1., interpol='test')
+        self.set_precision(calculation='all_pklin', interpol='poly')
         self.set_running_uvcutoff(calculation='all')
         self.set_verbosity()
 
-- 
2.43.0


From 9cd57717607eaca451e4ac7873fdbcce84c37723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:30 +0000
Subject: [PATCH 10/24] fix: Bias1Loop: sigma3sq is linear in the linear
 spectrum

---
 pyregpt/pyregpt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyregpt/pyregpt.py b/pyregpt/pyregpt.py
index dba55aa..8be040c 100644
--- a/pyregpt/pyregpt.py
+++ b/pyregpt/pyregpt.py
@@ -407,7 +407,7 @@ class Spectrum2Loop(Spectrum1Loop):
 class Bias1Loop(PyRegPT):
 
     FIELDS = ['k', 'pk_lin', 'sigmad2', 'pk_b2d', 'pk_bs2d', 'pk_b2t', 'pk_bs2t', 'pk_b22', 'pk_b2s2', 'pk_bs22', 'sigma3sq']
-    SCALE = {'k': 0, 'pk_lin': 1, 'sigmad2': 1, 'pk_b2d': 2, 'pk_bs2d': 2, 'pk_b2t': 2, 'pk_bs2t': 2, 'pk_b22': 2, 'pk_b2s2': 2, 'pk_bs22': 2, 'sigma3sq': 2}
+    SCALE = {'k': 0, 'pk_lin': 1, 'sigmad2': 1, 'pk_b2d': 2, 'pk_bs2d': 2, 'pk_b2t': 2, 'pk_bs2t': 2, 'pk_b22': 2, 'pk_b2s2': 2, 'pk_bs22': 2, 'sigma3sq': 1}
 
     @scale_factor(1)
     def pk_lin(self):
-- 
2.43.0


From f5e3f042674ef5077459ca7017f3c9cf2afbd894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:30 +0000
Subject: [PATCH 11/24] fix: Terms.zeros: use the requested dtype, so that
 SpectrumNoWiggle.set_terms works

---
 pyregpt/pyregpt.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyregpt/pyregpt.py b/pyregpt/pyregpt.py
index 8be040c..1aa9bca 100644
--- a/pyregpt/pyregpt.py
+++ b/pyregpt/pyregpt.py
@@ -118,8 +118,8 @@ class Terms(object):
         self['k'] = np.asarray(k, dtype=dtype).flatten()
         for key in self.FIELDS:
             if key == 'k': continue
-            if key in self.SHAPE: self[key] = np.zeros((self.size,) + tuple(self.SHAPE[key]), dtype=self.C_TYPE).flatten()
-            else: self[key] = np.zeros((self.size,), dtype=self.C_TYPE)
+            if key in self.SHAPE: self[key] = np.zeros((self.size,) + tuple(self.SHAPE[key]), dtype=dtype).flatten()
+            else: self[key] = np.zeros((self.size,), dtype=dtype)
 
     def reshape(self):
         for key in self.FIELDS:
-- 
2.43.0


From 8340b306fa2c4459fe440da3b0817fc595f06fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:30 +0000
Subject: [PATCH 12/24] fix: B1Loop.pk_interp: use the requested values outside
 the grid

---
 pyregpt/pyregpt.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/pyregpt/pyregpt.py b/pyregpt/pyregpt.py
index 1aa9bca..2211932 100644
--- a/pyregpt/pyregpt.py
+++ b/pyregpt/pyregpt.py
@@ -573,15 +573,15 @@ class B1Loop(PyRegPT):
         beta2 = beta**2
         beta3 = beta2 * beta
         beta4 = beta2 * beta2
-        return mu2 * beta2 * np.interp(k, self['k'], pk[0], left=0., right=0.) \
-               + mu2 * beta3 * np.interp(k, self['k'], pk[1], left=0., right=0.) \
-               + mu2 * beta4 * np.interp(k, self['k'], pk[2], left=0., right=0.) \
-               + mu4 * beta2 * np.interp(k, self['k'], pk[3], left=0., right=0.) \
-               + mu4 * beta3 * np.interp(k, self['k'], pk[4], left=0., right=0.) \
-               + mu4 * beta4 * np.interp(k, self['k'], pk[5], left=0., right=0.) \
-               + mu6 * beta3 * np.interp(k, self['k'], pk[6], left=0., right=0.) \
-               + mu6 * beta4 * np.interp(k, self['k'], pk[7], left=0., right=0.) \
-               + mu8 * beta4 * np.interp(k, self['k'], pk[8], left=0., right=0.)
+        return mu2 * beta2 * np.interp(k, self['k'], pk[0], left=left, right=right) \
+               + mu2 * beta3 * np.interp(k, self['k'], pk[1], left=left, right=right) \
+               + mu2 * beta4 * np.interp(k, self['k'], pk[2], left=left, right=right) \
+               + mu4 * beta2 * np.interp(k, self['k'], pk[3], left=left, right=right) \
+               + mu4 * beta3 * np.interp(k, self['k'], pk[4], left=left, right=right) \
+               + mu4 * beta4 * np.interp(k, self['k'], pk[5], left=left, right=right) \
+               + mu6 * beta3 * np.interp(k, self['k'], pk[6], left=left, right=right) \
+               + mu6 * beta4 * np.interp(k, self['k'], pk[7], left=left, right=right) \
+               + mu8 * beta4 * np.interp(k, self['k'], pk[8], left=left, right=right)
 
 
 class B2Loop(B1Loop):
-- 
2.43.0


From 92e7b53aca554af6e2c254501e4cab15f5695799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:10 +0000
Subject: [PATCH 13/24] fix: pad_k: no row to add at the end, columns with
 several components, modes other than constant

---
 pyregpt/pyregpt.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/pyregpt/pyregpt.py b/pyregpt/pyregpt.py
index 2211932..cdb82c4 100644
--- a/pyregpt/pyregpt.py
+++ b/pyregpt/pyregpt.py
@@ -97,16 +97,18 @@ class Terms(object):
         return new
 
     def pad_k(self, k, mode='constant', constant_values=0., **kwargs):
-        pad_start = np.sum(k < self.k[0])
-        pad_end = np.sum(k > self.k[-1])
+        k = np.asarray(k)
+        mask_start, mask_end = k < self.k[0], k > self.k[-1]
+        pad_start, pad_end = np.sum(mask_start), np.sum(mask_end)
+        stop = pad_start + self.size
+        pad_kwargs = {'constant_values': constant_values} if mode == 'constant' else {}
         for key in self.FIELDS:
-            pad_width = ((0, 0)) * (self[key].ndim - 1) + ((pad_start, pad_end))
-            self[key] = np.pad(self[key], pad_width=pad_width, mode=mode, constant_values=constant_values)
-        self['k'][:pad_start] = k[:pad_start]
-        self['k'][-pad_end:] = k[-pad_end:]
-        for key in kwargs:
-            self[key][:pad_start] = kwargs[key][:pad_start]
-            self[key][-pad_end:] = kwargs[key][-pad_end:]
+            pad_width = ((pad_start, pad_end),) + ((0, 0),) * (self[key].ndim - 1)
+            self[key] = np.pad(self[key], pad_width=pad_width, mode=mode, **pad_kwargs)
+        for key, values in {'k': k, **kwargs}.items():
+            values = np.asarray(values)
+            self[key][:pad_start] = values[mask_start]
+            self[key][stop:] = values[mask_end]
 
     def nan_to_zero(self):
         for key in self.FIELDS: self[key][np.isnan(self[key])] = 0.
-- 
2.43.0


From 73607693e174b905b7ca3ad039b836e3a2e24102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:10 +0000
Subject: [PATCH 14/24] fix: A1Loop.set_terms: give the components their shape
 at once, as A2Loop and B1Loop do

---
 pyregpt/pyregpt.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyregpt/pyregpt.py b/pyregpt/pyregpt.py
index cdb82c4..9a49766 100644
--- a/pyregpt/pyregpt.py
+++ b/pyregpt/pyregpt.py
@@ -500,6 +500,7 @@ class A1Loop(PyRegPT):
         pointers = [ctypeslib.ndpointer(dtype=self.C_TYPE, shape=(self[key].size,)) for key in self.FIELDS]
         self.regpt.set_terms_A_1loop.argtypes = (ctypes.c_size_t,) + tuple(pointers)
         self.regpt.set_terms_A_1loop(self.size, *self.tolist())
+        self.reshape()
 
     def run_terms(self, nthreads=8):
 
-- 
2.43.0


From 77b3c2a80f4133a922ca58351b16a95968b805aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:10 +0000
Subject: [PATCH 15/24] fix: PyRegPT.deepcopy: instances without linear
 spectrum can be copied

---
 pyregpt/pyregpt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyregpt/pyregpt.py b/pyregpt/pyregpt.py
index 9a49766..072b3ac 100644
--- a/pyregpt/pyregpt.py
+++ b/pyregpt/pyregpt.py
@@ -324,7 +324,7 @@ class PyRegPT(Terms):
 
     def deepcopy(self):
         new = super(PyRegPT, self).deepcopy()
-        new.spectrum_lin = self.spectrum_lin.deepcopy()
+        if hasattr(self, 'spectrum_lin'): new.spectrum_lin = self.spectrum_lin.deepcopy()
         return new
 
     def pad_k(self, k, mode='constant', constant_values=0., interpol='poly'):
-- 
2.43.0


From 30013a5ade0f6ce52933b46c5ce476bbcdfcf7ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:10 +0000
Subject: [PATCH 16/24] fix: set_verbosity: the level holds for instances to
 come, including copies and slices

---
 pyregpt/pyregpt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyregpt/pyregpt.py b/pyregpt/pyregpt.py
index 072b3ac..4096694 100644
--- a/pyregpt/pyregpt.py
+++ b/pyregpt/pyregpt.py
@@ -249,7 +249,7 @@ class PyRegPT(Terms):
     def set_verbosity(self, mode='info'):
         self.regpt.set_verbosity.argtypes = (ctypes.c_char_p,)
         self.regpt.set_verbosity(mode.encode('utf-8'))
-        self._verbose = mode
+        PyRegPT._verbose = mode  # the level is the library's: new instances keep it
 
     def set_spectrum_lin(self, spectrum_lin):
 
-- 
2.43.0


From ac8d36f8040b43f9ce014de9a2c76cfc0f519ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:21 +0000
Subject: [PATCH 17/24] fix: interpol_poly: hand contiguous arrays over to the
 library

---
 pyregpt/pyregpt.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyregpt/pyregpt.py b/pyregpt/pyregpt.py
index 4096694..88a7967 100644
--- a/pyregpt/pyregpt.py
+++ b/pyregpt/pyregpt.py
@@ -215,6 +215,7 @@ class PyRegPT(Terms):
 
         nx = len(tabx)
         assert nx == len(taby)
+        tabx, taby = [np.ascontiguousarray(tab, dtype=self.C_TYPE) for tab in [tabx, taby]]
         pointer = ctypeslib.ndpointer(dtype=self.C_TYPE, shape=(nx,))
         self.regpt.interpol_poly.argtypes = (self.C_TYPE, pointer, pointer, ctypes.c_size_t)
         self.regpt.interpol_poly.restype = self.C_TYPE
-- 
2.43.0


From fd23f94202591116f2960d1dac8bbd0c5f7e1474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:21 +0000
Subject: [PATCH 18/24] fix: set_spectrum_lin: keep contiguous arrays alive as
 long as the library points to them

---
 pyregpt/pyregpt.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyregpt/pyregpt.py b/pyregpt/pyregpt.py
index 88a7967..4b5d905 100644
--- a/pyregpt/pyregpt.py
+++ b/pyregpt/pyregpt.py
@@ -194,6 +194,7 @@ class PyRegPT(Terms):
 
     C_TYPE = ctypes.c_double
     _path_lib = os.path.join(utils.lib_dir, 'regpt.so')
+    _registered = {}  # arrays last handed over to the library, which keeps pointers to them
 
     def __init__(self, *args, **kwargs):
 
@@ -255,9 +256,11 @@ class PyRegPT(Terms):
     def set_spectrum_lin(self, spectrum_lin):
 
         self.spectrum_lin = spectrum_lin
+        k, pk = [np.ascontiguousarray(self.spectrum_lin[key], dtype=self.C_TYPE) for key in ['k', 'pk']]
         pointer = ctypeslib.ndpointer(dtype=self.C_TYPE, shape=(self.spectrum_lin.size,))
         self.regpt.set_pk_lin.argtypes = (pointer, pointer, ctypes.c_size_t)
-        self.regpt.set_pk_lin(self.spectrum_lin.k, self.spectrum_lin['pk'], self.spectrum_lin.size)
+        self.regpt.set_pk_lin(k, pk, self.spectrum_lin.size)
+        PyRegPT._registered['pk_lin'] = (k, pk)
 
     def set_pk_lin(self, k, pk):
 
-- 
2.43.0


From dc2a55333fc4164bbe9ba5ea26ff285d637146f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:19 +0000
Subject: [PATCH 19/24] fix: run_terms: fill the columns of the object it is
 called on, and keep them alive

---
 pyregpt/pyregpt.py | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/pyregpt/pyregpt.py b/pyregpt/pyregpt.py
index 4b5d905..08a47ac 100644
--- a/pyregpt/pyregpt.py
+++ b/pyregpt/pyregpt.py
@@ -269,6 +269,17 @@ class PyRegPT(Terms):
         spectrum_lin['pk'] = np.asarray(pk, dtype=self.C_TYPE).flatten()
         self.set_spectrum_lin(spectrum_lin)
 
+    def _set_terms(self, calculation):
+        # The library fills the arrays it was given last: make sure these are the columns of this object
+        for key in self.FIELDS: self[key] = np.ascontiguousarray(self[key], dtype=self.C_TYPE)
+        registered = self._registered.get(calculation, [])
+        if len(registered) == len(self.FIELDS) and all(self[key] is array for key, array in zip(self.FIELDS, registered)): return
+        pointers = [ctypeslib.ndpointer(dtype=self.C_TYPE, shape=(self.size,) + tuple(self.SHAPE.get(key, ()))) for key in self.FIELDS]
+        func = getattr(self.regpt, 'set_terms_' + calculation)
+        func.argtypes = (ctypes.c_size_t,) + tuple(pointers)
+        func(self.size, *self.tolist())
+        PyRegPT._registered[calculation] = self.tolist()
+
     def set_precision(self, calculation='all_q', n=0, min=1., max=-1., interpol='test'):
 
         if calculation == 'all':
@@ -355,9 +366,11 @@ class Spectrum1Loop(PyRegPT):
         pointer = ctypeslib.ndpointer(dtype=self.C_TYPE, shape=(self.size,))
         self.regpt.set_terms_spectrum_1loop.argtypes = (ctypes.c_size_t,) + (pointer,) * len(self.FIELDS)
         self.regpt.set_terms_spectrum_1loop(self.size, *self.tolist())
+        PyRegPT._registered['spectrum_1loop'] = self.tolist()
 
     def run_terms(self, a='delta', b='delta', nthreads=8):
 
+        self._set_terms('spectrum_1loop')
         self.regpt.run_terms_spectrum_1loop.argtypes = (ctypes.c_char_p, ctypes.c_char_p, ctypes.c_size_t)
         self.regpt.run_terms_spectrum_1loop(a.encode('utf-8'), b.encode('utf-8'), nthreads)
 
@@ -389,9 +402,11 @@ class Spectrum2Loop(Spectrum1Loop):
         pointer = ctypeslib.ndpointer(dtype=self.C_TYPE, shape=(self.size,))
         self.regpt.set_terms_spectrum_2loop.argtypes = (ctypes.c_size_t,) + (pointer,) * len(self.FIELDS)
         self.regpt.set_terms_spectrum_2loop(self.size, *self.tolist())
+        PyRegPT._registered['spectrum_2loop'] = self.tolist()
 
     def run_terms(self, a='delta', b='delta', nthreads=8):
 
+        self._set_terms('spectrum_2loop')
         self.regpt.run_terms_spectrum_2loop.argtypes = (ctypes.c_char_p, ctypes.c_char_p, ctypes.c_size_t)
         self.regpt.run_terms_spectrum_2loop(a.encode('utf-8'), b.encode('utf-8'), nthreads)
 
@@ -469,9 +484,11 @@ class Bias1Loop(PyRegPT):
         pointer = ctypeslib.ndpointer(dtype=self.C_TYPE, shape=(self.size,))
         self.regpt.set_terms_bias_1loop.argtypes = (ctypes.c_size_t,) + (pointer,) * len(self.FIELDS)
         self.regpt.set_terms_bias_1loop(self.size, *self.tolist())
+        PyRegPT._registered['bias_1loop'] = self.tolist()
 
     def run_terms(self, nthreads=8):
 
+        self._set_terms('bias_1loop')
         self.regpt.run_terms_bias_1loop.argtypes = (ctypes.c_size_t,)
         self.regpt.run_terms_bias_1loop(nthreads)
 
@@ -504,10 +521,12 @@ class A1Loop(PyRegPT):
         pointers = [ctypeslib.ndpointer(dtype=self.C_TYPE, shape=(self[key].size,)) for key in self.FIELDS]
         self.regpt.set_terms_A_1loop.argtypes = (ctypes.c_size_t,) + tuple(pointers)
         self.regpt.set_terms_A_1loop(self.size, *self.tolist())
+        PyRegPT._registered['A_1loop'] = self.tolist()
         self.reshape()
 
     def run_terms(self, nthreads=8):
 
+        self._set_terms('A_1loop')
         self.regpt.run_terms_A_1loop.argtypes = (ctypes.c_size_t,)
         self.regpt.run_terms_A_1loop(nthreads)
         self.reshape()
@@ -533,10 +552,12 @@ class A2Loop(A1Loop):
         pointers = [ctypeslib.ndpointer(dtype=self.C_TYPE, shape=(self[key].size,)) for key in self.FIELDS]
         self.regpt.set_terms_A_2loop.argtypes = (ctypes.c_size_t,) + tuple(pointers)
         self.regpt.set_terms_A_2loop(self.size, *self.tolist())
+        PyRegPT._registered['A_2loop'] = self.tolist()
         self.reshape()
 
     def run_terms(self, nthreads=8):
 
+        self._set_terms('A_2loop')
         self.regpt.run_terms_A_2loop.argtypes = (ctypes.c_size_t,)
         self.regpt.run_terms_A_2loop(nthreads)
 
@@ -561,6 +582,7 @@ class B1Loop(PyRegPT):
         pointers = [ctypeslib.ndpointer(dtype=self.C_TYPE, shape=(self[key].size,)) for key in self.FIELDS]
         self.regpt.set_terms_B.argtypes = (ctypes.c_size_t,) + tuple(pointers)
         self.regpt.set_terms_B(self.size, *self.tolist())
+        PyRegPT._registered['B'] = self.tolist()
         self.reshape()
 
     def run_terms(self, nthreads=8):
@@ -569,6 +591,7 @@ class B1Loop(PyRegPT):
         self.regpt.set_spectra_B.argtypes = (ctypes.c_char_p, ctypes.c_char_p, ctypes.c_size_t, pointer, pointer)
         self.regpt.set_spectra_B('delta'.encode('utf-8'), 'theta'.encode('utf-8'), self.spectrum_lin.size, self.spectrum_lin.k, self.spectrum_lin['pk'])
         self.regpt.set_spectra_B('theta'.encode('utf-8'), 'theta'.encode('utf-8'), self.spectrum_lin.size, self.spectrum_lin.k, self.spectrum_lin['pk'])
+        self._set_terms('B')
         self.regpt.run_terms_B.argtypes = (ctypes.c_size_t,)
         self.regpt.run_terms_B(nthreads)
 
@@ -612,5 +635,6 @@ class B2Loop(B1Loop):
         self.regpt.set_spectra_B('delta'.encode('utf-8'), 'theta'.encode('utf-8'), self.spectrum_lin.size, self.spectrum_lin.k, pk_dt)
         self.regpt.set_spectra_B('theta'.encode('utf-8'), 'theta'.encode('utf-8'), self.spectrum_lin.size, self.spectrum_lin.k, pk_tt)
 
+        self._set_terms('B')
         self.regpt.run_terms_B.argtypes = (ctypes.c_size_t,)
         self.regpt.run_terms_B(nthreads)
-- 
2.43.0


From c763010f74318d2c866db039760fa0fb7d74fddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:08 +0000
Subject: [PATCH 20/24] fix: B terms: use the linear spectrum registered last,
 contiguous, as every other calculation does

---
 pyregpt/pyregpt.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyregpt/pyregpt.py b/pyregpt/pyregpt.py
index 08a47ac..c6791c5 100644
--- a/pyregpt/pyregpt.py
+++ b/pyregpt/pyregpt.py
@@ -260,7 +260,7 @@ class PyRegPT(Terms):
         pointer = ctypeslib.ndpointer(dtype=self.C_TYPE, shape=(self.spectrum_lin.size,))
         self.regpt.set_pk_lin.argtypes = (pointer, pointer, ctypes.c_size_t)
         self.regpt.set_pk_lin(k, pk, self.spectrum_lin.size)
-        PyRegPT._registered['pk_lin'] = (k, pk)
+        PyRegPT._registered['pk_lin'] = SpectrumLin(k=k, pk=pk)
 
     def set_pk_lin(self, k, pk):
 
@@ -587,6 +587,7 @@ class B1Loop(PyRegPT):
 
     def run_terms(self, nthreads=8):
 
+        self.spectrum_lin = self._registered['pk_lin']
         pointer = ctypeslib.ndpointer(dtype=self.C_TYPE, shape=(self.spectrum_lin.size,))
         self.regpt.set_spectra_B.argtypes = (ctypes.c_char_p, ctypes.c_char_p, ctypes.c_size_t, pointer, pointer)
         self.regpt.set_spectra_B('delta'.encode('utf-8'), 'theta'.encode('utf-8'), self.spectrum_lin.size, self.spectrum_lin.k, self.spectrum_lin['pk'])
@@ -618,6 +619,7 @@ class B2Loop(B1Loop):
 
     def run_terms(self, nthreads=8):
 
+        self.spectrum_lin = self._registered['pk_lin']
         self.spectrum_1loop_dt = Spectrum1Loop()
         self.spectrum_1loop_dt.set_terms(self.spectrum_lin.k)
         self.spectrum_1loop_dt.run_terms(a='delta', b='theta', nthreads=nthreads)
-- 
2.43.0


From 2fb06de8c7db53edb22f935970b8b7aad41223d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:18 +0000
Subject: [PATCH 21/24] fix: run_spectrum_1loop: give back the terms it was
 working for instead of freed ones

---
 src/spectrum_1loop.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/spectrum_1loop.c b/src/spectrum_1loop.c
index 9b5cfc9..07864e7 100644
--- a/src/spectrum_1loop.c
+++ b/src/spectrum_1loop.c
@@ -129,9 +129,11 @@ void run_spectrum_1loop(char* a_,char* b_,size_t num_threads)
 	size_t nk = pk_1loop.nk;
 	histo_t *k = pk_1loop.k;
 	size_t size = sizeof(histo_t);
+	Terms1Loop terms = terms_1loop;
 	set_terms_spectrum_1loop(nk,k,(histo_t *) calloc(nk,size),(histo_t *) calloc(nk,size),(histo_t *) calloc(nk,size),(histo_t *) calloc(nk,size),(histo_t *) calloc(nk,size));
 	run_terms_spectrum_1loop(a_,b_,num_threads);
 	spectrum_1loop(pk_1loop.pk);
 	free_terms_spectrum_1loop();
+	terms_1loop = terms;
 }
 
-- 
2.43.0


From d689f16e9d6438a445cccd6e96774ff160b53bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:31 +0000
Subject: [PATCH 22/24] fix: gamma1_2loop: sign of the cubic term in the
 expansion of the velocity fit for unequal modes

---
 src/gamma1_2loop.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gamma1_2loop.c b/src/gamma1_2loop.c
index 4694428..8cc511a 100644
--- a/src/gamma1_2loop.c
+++ b/src/gamma1_2loop.c
@@ -38,7 +38,7 @@ histo_t beta(FLAG a, histo_t q1, histo_t q2) {
 			histo_t diffy2 = diffy*diffy;
 			histo_t diffy3 = diffy2*diffy;
 			histo_t diffy4 = diffy3*diffy;
-			return 594232. / 33108075. + (91912.*diffy2)/33108075. - (91912.*diffy3)/33108075. + (1818458.*diffy4)/1092566475.;
+			return 594232. / 33108075. + (91912.*diffy2)/33108075. + (91912.*diffy3)/33108075. + (1818458.*diffy4)/1092566475.;
 		}
 		else if (y < 0.01) {
 			return 9886./429975. - 254356.*y*y/4729725.;
-- 
2.43.0


From a40a1c5fc7979fad7bf8f2cb067f17f9122c35f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:04 +0000
Subject: [PATCH 23/24] fix: run_terms_B: forget the spectra it computed itself
 once they are freed

---
 src/spectrum_B.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/spectrum_B.c b/src/spectrum_B.c
index 061cf0c..44612c5 100644
--- a/src/spectrum_B.c
+++ b/src/spectrum_B.c
@@ -95,6 +95,8 @@ void free_spectra_B()
 {
 	free(pk_dt.pk);
 	free(pk_tt.pk);
+	pk_dt.nk = 0;
+	pk_tt.nk = 0;
 }
 
 void run_terms_B(size_t num_threads)
-- 
2.43.0


From d4ea45eec00ddfe54a6248c4d7ef161ad0982edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:56:17 +0000
Subject: [PATCH 24/24] fix: no range of wavenumbers to print when there are
 none

---
 src/regpt.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/regpt.c b/src/regpt.c
index 267c8f3..3ada97e 100644
--- a/src/regpt.c
+++ b/src/regpt.c
@@ -40,7 +40,7 @@ void print_k(histo_t *k,size_t nk)
 {
 	printf("*** k-output\n");
 	printf(" - #modes: %zu\n",nk);
-	printf(" - range: %.3g < k < %.3g\n",k[0],k[nk-1]);
+	if (nk>0) printf(" - range: %.3g < k < %.3g\n",k[0],k[nk-1]);
 }
 
 void print_flags(FLAG a,FLAG b)
-- 
2.43.0

