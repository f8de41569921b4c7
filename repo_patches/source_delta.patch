From 72b414c22d96d5ab7fcbfee4ebb92eb4269c6ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:46 +0000
Subject: [PATCH 01/98] fix: accept a single station in the compiled polarity
 likelihoods

np.squeeze turned the one-element mispick probability array of a single
station into a 0-d array, so both the compiled and the fallback path raised.
---
 src/MTfit/probability/probability.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/MTfit/probability/probability.py b/src/MTfit/probability/probability.py
index 065512e..a39f261 100644
--- a/src/MTfit/probability/probability.py
+++ b/src/MTfit/probability/probability.py
@@ -115,7 +115,7 @@ def polarity_ln_pdf(a, mt, sigma, incorrect_polarity_probability=0.0, _use_c=Non
             # Handle incorrect polarity probability
             if isinstance(incorrect_polarity_probability, (float, int)):
                 incorrect_polarity_probability = np.ones(sigma.shape)*incorrect_polarity_probability
-            incorrect_polarity_probability = np.squeeze(incorrect_polarity_probability)
+            incorrect_polarity_probability = np.atleast_1d(np.squeeze(incorrect_polarity_probability))
             if incorrect_polarity_probability.ndim != 1:
                 raise TypeError('Variable: incorrect_polarity_probability is expected to be a one-dimensional numpy array or a float')
             # Check types and convert to the correct types in place
@@ -230,7 +230,7 @@ def polarity_probability_ln_pdf(a, mt, positive_probability, negative_probabilit
             # Handle incorrect polarity probability
             if isinstance(incorrect_polarity_probability, (float, int)):
                 incorrect_polarity_probability = np.ones(positive_probability.shape)*incorrect_polarity_probability
-            incorrect_polarity_probability = np.squeeze(incorrect_polarity_probability)
+            incorrect_polarity_probability = np.atleast_1d(np.squeeze(incorrect_polarity_probability))
             if incorrect_polarity_probability.ndim != 1:
                 raise TypeError('Variable: incorrect_polarity_probability is expected to be a one-dimensional numpy array or a float')
             # Check types and convert to the correct types in place
-- 
2.43.0


From f819cbb6568c496c0c7e09d7c7b9f0d3fa03652f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:46 +0000
Subject: [PATCH 02/98] fix: compiled polarity-probability likelihood at zero
 amplitude

The step function is 0.5 at zero, so the mixture is 0.5*(p+n) as in the
Python implementation, not 0.5, when the two probabilities do not sum to one.
---
 src/MTfit/probability/cprobability.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MTfit/probability/cprobability.pyx b/src/MTfit/probability/cprobability.pyx
index 0f776b8..7925986 100644
--- a/src/MTfit/probability/cprobability.pyx
+++ b/src/MTfit/probability/cprobability.pyx
@@ -221,7 +221,7 @@ cdef inline DTYPE_t pol_prob_pdf(DTYPE_t x,DTYPE_t p,DTYPE_t n,DTYPE_t i) nogil:
     if x>0:
        return (1-i)*p+i*n
     elif x==0:
-        return 0.5
+        return 0.5*(p+n)
     else:
         return (1-i)*n+i*p
 
-- 
2.43.0


From c3833be0086bbf55a9ade9c7047c19bb1d8e3fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:10 +0000
Subject: [PATCH 03/98] fix: exact and stable log-domain marginalisation and
 normalisation

---
 src/MTfit/probability/cprobability.pyx | 26 ++++++-------
 src/MTfit/probability/probability.py   | 51 ++++++++++++--------------
 2 files changed, 36 insertions(+), 41 deletions(-)

diff --git a/src/MTfit/probability/cprobability.pyx b/src/MTfit/probability/cprobability.pyx
index 7925986..eb2d2cd 100644
--- a/src/MTfit/probability/cprobability.pyx
+++ b/src/MTfit/probability/cprobability.pyx
@@ -85,13 +85,11 @@ IF UNAME_SYSNAME == "Windows":
                 for v from 0<=v<vmax:
                     if ln_p[v,w]>scale:
                         scale=ln_p[v,w]
-                if scale>0:
-                    scale=0
                 if scale==-inf:
                     scale=0
                 for v from 0<=v<vmax:
-                    p+=exp(ln_p[v,w]+fabs(scale))
-                Ln_P[w]=log(p)-fabs(scale)
+                    p+=exp(ln_p[v,w]-scale)
+                Ln_P[w]=log(p)+scale
         return np.asarray(Ln_P)
 
     @cython.boundscheck(False)
@@ -104,11 +102,11 @@ IF UNAME_SYSNAME == "Windows":
         for w from 0<=w<wmax:            
             if scale<ln_p[w]:
                 scale=ln_p[w]
-        if scale>0:
-            scale=0
+        if scale==-inf:
+            return np.asarray(ln_p)
         for w from 0<=w<wmax:
-            N+=exp(ln_p[w]+fabs(scale))*dV
-        N=log(N)-fabs(scale)
+            N+=exp(ln_p[w]-scale)
+        N=log(N)+log(dV)+scale
         for w from 0<=w<wmax:
             ln_p[w]-=N
         return np.asarray(ln_p)
@@ -142,12 +140,11 @@ ELSE:
                 scale=-inf
                 for v from 0<=v<vmax:
                     scale=fmax(scale,ln_p[v,w])
-                scale=fmin(scale,0)
                 if scale==-inf:
                     scale=0
                 for v from 0<=v<vmax:
-                    p+=exp(ln_p[v,w]+fabs(scale))
-                Ln_P[w]=log(p)-fabs(scale)
+                    p+=exp(ln_p[v,w]-scale)
+                Ln_P[w]=log(p)+scale
         return np.asarray(Ln_P)
 
     @cython.boundscheck(False)
@@ -159,10 +156,11 @@ ELSE:
         cdef DTYPE_t scale=-inf, N=0
         for w from 0<=w<wmax:
             scale=fmax(scale,ln_p[w])
-        scale=fmin(scale,0)
+        if scale==-inf:
+            return np.asarray(ln_p)
         for w from 0<=w<wmax:
-            N+=exp(ln_p[w]+fabs(scale))*dV
-        N=log(N)-fabs(scale)
+            N+=exp(ln_p[w]-scale)
+        N=log(N)+log(dV)+scale
         for w from 0<=w<wmax:
             ln_p[w]-=N
         return np.asarray(ln_p)
diff --git a/src/MTfit/probability/probability.py b/src/MTfit/probability/probability.py
index a39f261..743f124 100644
--- a/src/MTfit/probability/probability.py
+++ b/src/MTfit/probability/probability.py
@@ -864,32 +864,29 @@ def ln_marginalise(ln_pdf, axis=0, dV=1.0):
     Returns
         np.array - marginalised distribtion over axis
     """
+    if isinstance(ln_pdf, LnPDF):
+        ln_pdf = ln_pdf._ln_pdf
+    if axis == 0 and ln_pdf.ndim == 1:
+        # Probably shouldn't be marginalising over the last parameter
+        return ln_pdf
     if cprobability and axis == 0:
         try:
-            if isinstance(ln_pdf, LnPDF):
-                return cprobability.ln_marginalise(ln_pdf._ln_pdf.astype(np.float64))
-            return cprobability.ln_marginalise(ln_pdf.astype(np.float64))
+            return cprobability.ln_marginalise(ln_pdf.astype(np.float64)) + np.log(dV)
         except Exception:
             logger.exception('Error running cython code')
     else:
         logger.info(C_EXTENSION_FALLBACK_LOG_MSG)
-    # scale and then marginalise:
-    ln_scale = 0
-    if ln_pdf.shape[axis] == 1:
-        return np.array(ln_pdf).squeeze(axis)
-    elif axis == 0 and len(ln_pdf.shape) == 1:
-        # Probably shouldn't be marginalising over the last parameter
-        return ln_pdf
-    if np.prod(ln_pdf.shape) and ln_pdf.max() < 0 and ln_pdf.max() > -np.inf:
-        ln_scale = -ln_pdf.max()
+    # scale each marginalised value by its maximum and then marginalise:
+    ln_p = np.asarray(ln_pdf, dtype=np.float64)
+    ln_scale = np.max(ln_p, axis=axis, keepdims=True, initial=-np.inf)
+    ln_scale[~np.isfinite(ln_scale)] = 0
     with warnings.catch_warnings() and np.errstate(divide='ignore'):
         warnings.simplefilter("ignore")
-        # if axis == 0:
-        #     # Get consistency with c code
-        #     ln_pdf = np.array(ln_pdf)
-        result = np.log(np.sum(np.exp(ln_pdf+ln_scale)*dV, axis=axis)) - ln_scale
+        result = np.log(np.sum(np.exp(ln_p-ln_scale), axis=axis)) + ln_scale.squeeze(axis) + np.log(dV)
     if axis == 0:
         result = np.array(result).flatten()
+    elif isinstance(ln_pdf, np.matrix) and ln_pdf.shape[axis] != 1:
+        result = np.matrix(result).T
     return result
 
 
@@ -910,32 +907,32 @@ def ln_normalise(ln_pdf, dV=1):
         np.array - normalised distribtion
 
     """
-    if ln_pdf.ndim == 1 and ln_pdf.shape[0] == 1:
-        return np.array([0])
+    if isinstance(ln_pdf, LnPDF):
+        ln_pdf = ln_pdf._ln_pdf
     if cprobability:
         try:
             if ln_pdf.ndim != 1 and ln_pdf.shape[0] != 1:
                 raise Exception('Incorrect shape')
-            if ln_pdf.ndim == 2:
-                normalised_ln_pdf = cprobability.ln_normalise(np.asarray(ln_pdf).flatten())
-            else:
-                normalised_ln_pdf = cprobability.ln_normalise(ln_pdf)
-            return normalised_ln_pdf
+            # The compiled function works in place, so give it a copy
+            return cprobability.ln_normalise(np.array(ln_pdf, dtype=np.float64).flatten(), dV)
         except Exception:
             logger.exception('Error running cython code')
     else:
         logger.info(C_EXTENSION_FALLBACK_LOG_MSG)
     # scale and then marginalise:
-    ln_scale = 0
-    if -ln_pdf.max() > 0 and ln_pdf.max() > -np.inf:
-        ln_scale = -ln_pdf.max()
+    ln_scale = ln_pdf.max()
+    if not np.isfinite(ln_scale):
+        ln_scale = 0
     with warnings.catch_warnings() and np.errstate(divide='ignore'):
         warnings.simplefilter("ignore")
-        ln_n = np.log(np.sum(np.exp(ln_pdf+ln_scale) * dV, axis=None)) - ln_scale
+        ln_n = np.log(np.sum(np.exp(ln_pdf-ln_scale), axis=None)) + ln_scale + np.log(dV)
     if ln_pdf.ndim == 2 and 1 in list(ln_pdf.shape):
         ln_pdf = np.squeeze(np.asarray(ln_pdf))
         if not ln_pdf.shape:
             ln_pdf = np.array([ln_pdf])
+    if ln_n == -np.inf:
+        # No non-zero probabilities, so nothing to normalise
+        return ln_pdf.copy()
     # ln_probability_scale_factor is automatically included in normalisation
     return ln_pdf - ln_n
 
-- 
2.43.0


From 5dceea849a18cdb2b85fdd8456b243860df7b432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:10 +0000
Subject: [PATCH 04/98] fix: compiled ln_exp read the length from a missing
 dimension

---
 src/MTfit/probability/cprobability.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MTfit/probability/cprobability.pyx b/src/MTfit/probability/cprobability.pyx
index eb2d2cd..6db6733 100644
--- a/src/MTfit/probability/cprobability.pyx
+++ b/src/MTfit/probability/cprobability.pyx
@@ -1813,7 +1813,7 @@ cpdef ln_non_zero(DTYPE_t[:] ln_p):
 @cython.wraparound(False)
 @cython.nonecheck(False)
 cpdef ln_exp(DTYPE_t[::1] ln_p, DTYPE_t dV=1):
-    cdef Py_ssize_t wmax=ln_p.shape[1]
+    cdef Py_ssize_t wmax=ln_p.shape[0]
     cdef Py_ssize_t w
     cdef DTYPE_t[::1] p =np.empty(wmax)
     for w from 0<=w<wmax:
-- 
2.43.0


From 25e15b8474410e7af3c352efbb00886d79387a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:17 +0000
Subject: [PATCH 05/98] fix: divergence of two PDFs is not NaN where a
 negligible p meets a zero q

---
 src/MTfit/probability/cprobability.pyx | 4 ++--
 src/MTfit/probability/probability.py   | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/MTfit/probability/cprobability.pyx b/src/MTfit/probability/cprobability.pyx
index 6db6733..77fd775 100644
--- a/src/MTfit/probability/cprobability.pyx
+++ b/src/MTfit/probability/cprobability.pyx
@@ -1844,8 +1844,8 @@ cdef DTYPE_t c_dkl(DTYPE_t*ln_probability_p,DTYPE_t*ln_probability_q,DTYPE_t dV,
     cdef DTYPE_t dkl=0.0
     cdef DTYPE_t p
     for i from 0<=i<n:
-        if ln_probability_p[i]>-inf:#Check no zeros in p 
-            p=exp(ln_probability_p[i])
+        p=exp(ln_probability_p[i])
+        if p>0:#Check no zeros in p
             dkl+=p*ln_probability_p[i]-p*ln_probability_q[i]
     return dkl*dV
 
diff --git a/src/MTfit/probability/probability.py b/src/MTfit/probability/probability.py
index 743f124..62a6afd 100644
--- a/src/MTfit/probability/probability.py
+++ b/src/MTfit/probability/probability.py
@@ -829,7 +829,6 @@ def dkl(ln_probability_p, ln_probability_q, dV=1.0):
             logger.exception('Error running cython code')
     else:
         logger.info(C_EXTENSION_FALLBACK_LOG_MSG)
-    ind = ln_probability_p > -np.inf
     ln_probability_p = ln_probability_p.copy() - ln_probability_p.max()
     ln_probability_q = ln_probability_q.copy() - ln_probability_q.max()
     probability_p = np.exp(ln_probability_p)
@@ -837,6 +836,7 @@ def dkl(ln_probability_p, ln_probability_q, dV=1.0):
     n = np.sum(probability_p)*dV
     ln_probability_p -= np.log(n)
     probability_p /= n
+    ind = probability_p > 0
     # Normalise PDF q
     probability_q = np.exp(ln_probability_q)
     n = np.sum(probability_q)*dV
-- 
2.43.0


From 2b6328b89d641adde537ec6aa924cdeef3a1c9df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:17 +0000
Subject: [PATCH 06/98] fix: evidence of samples that all have zero probability
 is zero, not NaN

---
 src/MTfit/sampling.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/MTfit/sampling.py b/src/MTfit/sampling.py
index 95c1ddf..f78ec7c 100644
--- a/src/MTfit/sampling.py
+++ b/src/MTfit/sampling.py
@@ -428,7 +428,11 @@ def ln_bayesian_evidence(output, n_samples, prior=_6sphere_prior):
         p = prior(output['g'], output['d'])
     if not isinstance(output['ln_pdf'], LnPDF):
         output['ln_pdf'] = LnPDF(output['ln_pdf'])
-    return np.log((output['ln_pdf']+np.log(p)-output['ln_pdf']._ln_pdf.max()).exp().sum())+output['ln_pdf']._ln_pdf.max()-np.log(n_samples)
+    ln_scale = output['ln_pdf']._ln_pdf.max()
+    if ln_scale == -np.inf:
+        # No non-zero probability samples
+        return -np.inf
+    return np.log((output['ln_pdf']+np.log(p)-ln_scale).exp().sum())+ln_scale-np.log(n_samples)
 
 
 def _convert(moment_tensors, i=None):
-- 
2.43.0


From 592263a9ae28736758af0765c53542f81700d4fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:39 +0000
Subject: [PATCH 07/98] fix: normalising an empty log PDF returns it instead of
 raising

---
 src/MTfit/probability/probability.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/MTfit/probability/probability.py b/src/MTfit/probability/probability.py
index 62a6afd..106c1bf 100644
--- a/src/MTfit/probability/probability.py
+++ b/src/MTfit/probability/probability.py
@@ -919,6 +919,9 @@ def ln_normalise(ln_pdf, dV=1):
             logger.exception('Error running cython code')
     else:
         logger.info(C_EXTENSION_FALLBACK_LOG_MSG)
+    if not np.prod(ln_pdf.shape):
+        # No samples, so nothing to normalise
+        return ln_pdf.copy()
     # scale and then marginalise:
     ln_scale = ln_pdf.max()
     if not np.isfinite(ln_scale):
-- 
2.43.0


From 403af34e045a883276e05a9b32ff73342cfb4209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:12 +0000
Subject: [PATCH 08/98] fix: FileSample.output returns every stored batch, in
 order

---
 src/MTfit/sampling.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/MTfit/sampling.py b/src/MTfit/sampling.py
index f78ec7c..b98dea3 100644
--- a/src/MTfit/sampling.py
+++ b/src/MTfit/sampling.py
@@ -376,20 +376,21 @@ class FileSample(Sample):
         data = self.loadmat(self.fname)
         # Set up attributes for Sample.output call
         self.moment_tensors = np.matrix(np.zeros((self.number_events*6, self.non_zero_samples)))
-        self.scale_factor = False
-        if len([key for key in data if 'scale_factor' in key]):
-            self.scale_factor = []
+        scale_factor = []
         _x = 0
         self.n = data['n']
-        for key in [key for key in data.keys() if 'MTSpace' in key]:
-            i = key.split('_')[-1]
+        # Batches in the order they were appended
+        for i in sorted([int(key.split('_')[-1]) for key in data.keys() if key.startswith('MTSpace_')]):
             self.ln_pdf.append(LnPDF(data['LnPDF_'+str(i)]))
             moment_tensors = data['MTSpace_'+str(i)]
             self.moment_tensors[:, _x: _x+moment_tensors.shape[1]] = moment_tensors
-            if isinstance(self.scale_factor, list):
-                self.scale_factor.append(data['scale_factor_'+str(i)])
+            if 'scale_factor_'+str(i) in data:
+                scale_factor.extend(list(data['scale_factor_'+str(i)]))
             _x += moment_tensors.shape[1]
-        self.scale_factor = np.array(self.scale_factor)
+        # Number of stored samples, as used by Sample.output
+        self._i = _x
+        if len(scale_factor):
+            self.scale_factor = np.array(scale_factor)
         output, output_string = super(FileSample, self).output(*args, **kwargs)
         try:
             os.remove(self.fname)
-- 
2.43.0


From 3bef313a7cb8116c043e303cbecce569bb1097b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:12 +0000
Subject: [PATCH 09/98] fix: converted output for multiple events

---
 src/MTfit/sampling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MTfit/sampling.py b/src/MTfit/sampling.py
index b98dea3..e763c30 100644
--- a/src/MTfit/sampling.py
+++ b/src/MTfit/sampling.py
@@ -450,6 +450,6 @@ def _convert(moment_tensors, i=None):
     output = output_convert(moment_tensors)
     if isinstance(i, int):
         # Multiple events
-        for key in output.keys():
+        for key in list(output.keys()):
             output[key+'_'+str(i)] = output.pop(key)
     return output
-- 
2.43.0


From 8d2e778ca73d3895ff5e93d326d8cbbebf009829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:12 +0000
Subject: [PATCH 10/98] fix: divergence reported by the sample store for
 multiple events and location samples

---
 src/MTfit/sampling.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/MTfit/sampling.py b/src/MTfit/sampling.py
index e763c30..cff3527 100644
--- a/src/MTfit/sampling.py
+++ b/src/MTfit/sampling.py
@@ -212,7 +212,7 @@ class Sample(object):
                         g = sorted([key for key in output.keys() if key == 'g' or ('g' in key and (key[0] == 'g' and key[1] == '_'))], key=lambda u: int(u.split('_')[-1]))
                         d = sorted([key for key in output.keys() if key == 'd' or ('d' in key and (key[0] == 'd' and key[1] == '_'))], key=lambda u: int(u.split('_')[-1]))
                         for i, gi in enumerate(g):
-                            if np.max(gi)-np.min(gi) < 0.000001 and np.abs(np.mean(gi)) < 0.000001 and np.max(d[i])-np.min(d[i]) < 0.000001 and np.abs(np.mean(d[i])) < 0.000001:
+                            if np.max(output[gi])-np.min(output[gi]) < 0.000001 and np.abs(np.mean(output[gi])) < 0.000001 and np.max(output[d[i]])-np.min(output[d[i]]) < 0.000001 and np.abs(np.mean(output[d[i]])) < 0.000001:
                                 V *= (2*np.pi*np.pi)
                             else:
                                 V *= (np.pi*np.pi*np.pi)
@@ -223,7 +223,7 @@ class Sample(object):
                         else:
                             V *= (np.pi*np.pi*np.pi)
                     output_string += str(V)+'\n'
-                    output['dkl'] = dkl_estimate(self.ln_pdf, V, n_samples)
+                    output['dkl'] = dkl_estimate(self.ln_pdf.marginalise(), V, n_samples)
                     output_string += 'PDF Kullback-Leibler Divergence Estimate (Dkl): '+str(output['dkl'])+'\n\n'
             except Exception:
                 pass
-- 
2.43.0


From fbabdd020f9decd76128942bd2f38c11fd227198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:33 +0000
Subject: [PATCH 11/98] fix: random CLVD samples draw their sign independently

---
 src/MTfit/algorithms/base.py | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/src/MTfit/algorithms/base.py b/src/MTfit/algorithms/base.py
index 74924ee..782e038 100644
--- a/src/MTfit/algorithms/base.py
+++ b/src/MTfit/algorithms/base.py
@@ -252,15 +252,9 @@ class BaseAlgorithm(object):
 
         """
         np.random.seed()
-        # Select CVLD type
-        np.kron([[1], [1], [1]], np.sign(np.random.rand(self.number_samples)-0.5))*np.ones(
-            (3, self.number_samples))*np.array([[2/np.sqrt(6)], [-1/np.sqrt(6)], [-1/np.sqrt(6)]])
-        if np.random.rand() > 0.5:
-            clvd_diag = np.array(
-                [[2/np.sqrt(6)], [-1/np.sqrt(6)], [-1/np.sqrt(6)]])
-        else:
-            clvd_diag = np.array(
-                [[-2/np.sqrt(6)], [1/np.sqrt(6)], [1/np.sqrt(6)]])
+        # Select CVLD type for each sample
+        clvd_diag = np.where(np.random.rand(self.number_samples) > 0.5, 1., -1.)*np.array(
+            [[2/np.sqrt(6)], [-1/np.sqrt(6)], [-1/np.sqrt(6)]])
         # Use random_type for DC eigenvalues
         return self.random_type(clvd_diag)
 
-- 
2.43.0


From 1e565588204955fc135db3b66da406d356f8a16b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:33 +0000
Subject: [PATCH 12/98] fix: joint random sampling of several events uses the
 selected source model

---
 src/MTfit/algorithms/monte_carlo.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/MTfit/algorithms/monte_carlo.py b/src/MTfit/algorithms/monte_carlo.py
index 9a58b98..439f86d 100644
--- a/src/MTfit/algorithms/monte_carlo.py
+++ b/src/MTfit/algorithms/monte_carlo.py
@@ -64,6 +64,8 @@ class BaseMonteCarloRandomSample(BaseAlgorithm):
                     MTs.append(self.random_dc())
                 elif self.basic_cdc:
                     MTs.append(self.random_basic_cdc())
+                elif self._model:
+                    MTs.append(self.random_model(self.number_samples))
                 else:
                     MTs.append(self.random_mt())
                 i += 1
-- 
2.43.0


From 69ee86e16aaebb266f7b0a17c443056c8b19b168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:06 +0000
Subject: [PATCH 13/98] fix: compiled random double-couple samples have unit
 norm

---
 src/MTfit/probability/cprobability.pyx | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/MTfit/probability/cprobability.pyx b/src/MTfit/probability/cprobability.pyx
index 77fd775..a3d3015 100644
--- a/src/MTfit/probability/cprobability.pyx
+++ b/src/MTfit/probability/cprobability.pyx
@@ -1954,12 +1954,12 @@ cdef DTYPE_t[:,::1] rand_dc(int x):
         s2k=sin(2*kappa)
         ss=sin(sigma)
         sh=sqrt(1-h*h)
-        mt[0,j]=-sh*cs*s2k-2*h*sh*ss*sk*sk
-        mt[1,j]=sh*cs*2*sk*ck-2*sh*h*ss*ck*ck
-        mt[2,j]=2*sh*h*ss
-        mt[3,j]=sqrt2*(sh*cs*(ck*ck-sk*sk)+h*sh*ss*s2k)
-        mt[4,j]=sqrt2*(-h*cs*ck-(2*h*h-1)*ss*sk)
-        mt[5,j]=sqrt2*(-h*cs*sk+(2*h*h-1)*ss*ck)
+        mt[0,j]=(-sh*cs*s2k-2*h*sh*ss*sk*sk)/sqrt2
+        mt[1,j]=(sh*cs*2*sk*ck-2*sh*h*ss*ck*ck)/sqrt2
+        mt[2,j]=2*sh*h*ss/sqrt2
+        mt[3,j]=sh*cs*(ck*ck-sk*sk)+h*sh*ss*s2k
+        mt[4,j]=-h*cs*ck-(2*h*h-1)*ss*sk
+        mt[5,j]=-h*cs*sk+(2*h*h-1)*ss*ck
     return mt
 
 cpdef random_mt(int x):
-- 
2.43.0


From 6c0153eda9f7fdd6c7acd27a67e79d53e4c70554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:59 +0000
Subject: [PATCH 14/98] fix: eigen-decomposition of symmetric tensors with
 repeated eigenvalues

The general eigen-solver returns complex or non-orthogonal vectors for repeated
eigenvalues, and the compiled version indexed past the arrays for an isotropic tensor.
---
 src/MTfit/convert/cmoment_tensor_conversion.pyx | 3 ++-
 src/MTfit/convert/moment_tensor_conversion.py   | 4 ++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/MTfit/convert/cmoment_tensor_conversion.pyx b/src/MTfit/convert/cmoment_tensor_conversion.pyx
index a6bfe5c..2ac1feb 100644
--- a/src/MTfit/convert/cmoment_tensor_conversion.pyx
+++ b/src/MTfit/convert/cmoment_tensor_conversion.pyx
@@ -296,7 +296,8 @@ cdef cMT6_TNPE(DTYPE_t[:] MT):
         e,L=eigh(MT33,overwrite_a=True,check_finite=False)
     else:        
         e,L=eigh(MT33,overwrite_a=True)
-    maxi=0
+    # e is in ascending order, so for repeated eigenvalues the extremes are still different columns
+    maxi=2
     mini=0
     cdef Py_ssize_t i
     for i in [0,1,2]:
diff --git a/src/MTfit/convert/moment_tensor_conversion.py b/src/MTfit/convert/moment_tensor_conversion.py
index 20753a5..06fee85 100644
--- a/src/MTfit/convert/moment_tensor_conversion.py
+++ b/src/MTfit/convert/moment_tensor_conversion.py
@@ -178,7 +178,7 @@ def MT33_TNPE(MT33):
         (numpy.matrix, numpy.matrix, numpy.matrix, numpy.array): tuple of T, N, P
                         vectors and Eigenvalue array
     """
-    E, L = np.linalg.eig(MT33)
+    E, L = np.linalg.eigh(MT33)
     idx = E.argsort()[::-1]
     E = E[idx]
     L = L[:, idx]
@@ -213,7 +213,7 @@ def MT33_GD(MT33):
     Returns
         (numpy.array, numpy.array): tuple of gamma, delta
     """
-    E, L = np.linalg.eig(MT33)
+    E, L = np.linalg.eigh(MT33)
     return E_GD(E)
 
 
-- 
2.43.0


From 843c66ddce0279bcac2092075c8dc1dee68d75e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:27 +0000
Subject: [PATCH 15/98] fix: source-type coordinates of unsorted and
 near-isotropic eigenvalues

The Hudson and (compiled) lune coordinates depended on the order of the eigenvalues, and
rounding made them NaN or out of range near isotropic sources and at zero opening angle.
---
 .../convert/cmoment_tensor_conversion.pyx     | 41 ++++++++++++++-----
 src/MTfit/convert/moment_tensor_conversion.py | 20 ++++-----
 2 files changed, 41 insertions(+), 20 deletions(-)

diff --git a/src/MTfit/convert/cmoment_tensor_conversion.pyx b/src/MTfit/convert/cmoment_tensor_conversion.pyx
index 2ac1feb..e57b5e1 100644
--- a/src/MTfit/convert/cmoment_tensor_conversion.pyx
+++ b/src/MTfit/convert/cmoment_tensor_conversion.pyx
@@ -43,9 +43,11 @@ if int(__scipy_version__.split('.')[0])==0 and int(__scipy_version__.split('.')[
 @cython.cdivision(True)
 cdef inline DTYPE_t[::1] cE_tk(DTYPE_t[::1] E,DTYPE_t[::1] results) nogil:
     cdef DTYPE_t iso=(E[0]+E[1]+E[2])/3
-    cdef DTYPE_t dev0=E[0]-iso
-    cdef DTYPE_t dev1=E[2]-iso#Odd sorting from hudson paper E[0]>=E[2]>=E[1]
-    cdef DTYPE_t dev2=E[1]-iso
+    #Odd sorting from hudson paper E[0]>=E[2]>=E[1]
+    #from the eigenvalue differences as these are accurate close to isotropic
+    cdef DTYPE_t dev0=((E[0]-E[1])+(E[0]-E[2]))/3
+    cdef DTYPE_t dev1=((E[2]-E[0])+(E[2]-E[1]))/3
+    cdef DTYPE_t dev2=((E[1]-E[0])+(E[1]-E[2]))/3
     if dev2>0:
         results[5]=iso/(fabs(iso)-dev1)
         results[6]=-2*(dev2)/(dev1)
@@ -87,16 +89,35 @@ cdef inline DTYPE_t[::1] ctk_uv(DTYPE_t[::1] results) nogil:
 @cython.nonecheck(False)
 @cython.cdivision(True)
 cdef inline void cE_gd(DTYPE_t[:] E,DTYPE_t*g,DTYPE_t*d) nogil:
-    if E[0]==E[2]:
-        if E[0]>0:
-            g[0]=0
+    cdef DTYPE_t e0=E[0]
+    cdef DTYPE_t e1=E[1]
+    cdef DTYPE_t e2=E[2]
+    cdef DTYPE_t e
+    #Sort to e0>=e1>=e2
+    if e0<e1:
+        e=e0
+        e0=e1
+        e1=e
+    if e1<e2:
+        e=e1
+        e1=e2
+        e2=e
+    if e0<e1:
+        e=e0
+        e0=e1
+        e1=e
+    if e0==e2:
+        g[0]=0
+        if e0>0:
             d[0]=pi/2
-        elif E[0]<0:
-            g[0]=0
+        elif e0<0:
             d[0]=-pi/2
+        else:
+            d[0]=0
     else:
-        g[0]=atan2(-E[0]+2*E[1]-E[2],sqrt3*(E[0]-E[2]))
-        d[0]=pi/2-acos((E[0]+E[1]+E[2])/(sqrt3*sqrt((E[0]*E[0]+E[1]*E[1]+E[2]*E[2]))))
+        g[0]=atan2((e1-e0)+(e1-e2),sqrt3*(e0-e2))
+        #atan2 rather than acos as it is accurate (and in range) close to isotropic
+        d[0]=atan2(e0+e1+e2,sqrt((e0-e1)*(e0-e1)+(e1-e2)*(e1-e2)+(e0-e2)*(e0-e2)))
 @cython.boundscheck(False)
 @cython.wraparound(False)
 @cython.nonecheck(False)
diff --git a/src/MTfit/convert/moment_tensor_conversion.py b/src/MTfit/convert/moment_tensor_conversion.py
index 06fee85..849c07b 100644
--- a/src/MTfit/convert/moment_tensor_conversion.py
+++ b/src/MTfit/convert/moment_tensor_conversion.py
@@ -227,20 +227,20 @@ def E_tk(E):
     Returns
         (float, float): tau, k  tuple
     """
-    if isinstance(E, np.ndarray):
-        E = np.squeeze(np.array(E))
+    E = np.squeeze(np.array(E, dtype=np.float64))
     if len(E.shape) > 1 and E.shape[1] > 1:
         tau = np.empty(E.shape[1])
         k = np.empty(E.shape[1])
         for i in range(E.shape[1]):
             tau[i], k[i] = E_tk(E[:, i])
     else:
-        idx = [0, 2, 1]  # Odd sorting
+        idx = E.argsort()[[2, 0, 1]]  # Odd sorting
         E = E[idx]
         iso = (E[0]+E[1]+E[2])/3
-        dev0 = E[0]-iso
-        dev1 = E[1]-iso
-        dev2 = E[2]-iso
+        # from the eigenvalue differences as these are accurate close to isotropic
+        dev0 = ((E[0]-E[1])+(E[0]-E[2]))/3
+        dev1 = ((E[1]-E[0])+(E[1]-E[2]))/3
+        dev2 = ((E[2]-E[0])+(E[2]-E[1]))/3
         if dev2 > 0:
             k = iso/(abs(iso)-dev1)
             T = -2*(dev2)/(dev1)
@@ -349,9 +349,9 @@ def E_GD(E):
             return 0, np.sign(np.unique(E))*np.pi/2
         idx = E.argsort()[::-1]
         E = E[idx]
-        gamma = np.arctan2(-E[0]+2*E[1]-E[2], np.sqrt(3)*(E[0]-E[2]))
-        beta = np.arccos(np.sum(E)/(np.sqrt(3)*np.sqrt(np.sum(E*E))))
-        delta = np.real(np.pi/2-beta)
+        gamma = np.arctan2((E[1]-E[0])+(E[1]-E[2]), np.sqrt(3)*(E[0]-E[2]))
+        # arctan2 rather than arccos as it is accurate (and in range) close to isotropic
+        delta = np.arctan2(np.sum(E), np.sqrt((E[0]-E[1])**2+(E[1]-E[2])**2+(E[0]-E[2])**2))
     return gamma, delta
 
 
@@ -369,7 +369,7 @@ def GD_basic_cdc(gamma, delta):
         (numpy.array, numpy.array): tuple of alpha, poisson
     """
 
-    alpha = np.arccos(-np.sqrt(3)*np.tan(gamma))
+    alpha = np.arccos(np.clip(-np.sqrt(3)*np.tan(gamma), -1, 1))
     poisson = (1+np.sqrt(2) * (np.tan((np.pi/2)-delta) * np.sin(gamma)))
     poisson /= (2-(np.sqrt(2) * (np.tan((np.pi/2)-delta) * np.sin(gamma))))
     return alpha, poisson
-- 
2.43.0


From f4f48f7bea7ede1b2f9090a33d2e8131c3f80310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:46 +0000
Subject: [PATCH 16/98] fix: auxiliary plane choice by strike difference
 returned the input plane

Planes whose strikes differ by less than a radian, or strikes either side of north, got
the wrong plane (or a mixture of the two) from the pure Python SDR_SDR.
---
 src/MTfit/convert/moment_tensor_conversion.py | 16 ++--------------
 1 file changed, 2 insertions(+), 14 deletions(-)

diff --git a/src/MTfit/convert/moment_tensor_conversion.py b/src/MTfit/convert/moment_tensor_conversion.py
index 849c07b..331e8bc 100644
--- a/src/MTfit/convert/moment_tensor_conversion.py
+++ b/src/MTfit/convert/moment_tensor_conversion.py
@@ -571,21 +571,9 @@ def SDR_SDR(strike, dip, rake):
             logger.exception('Error with C extension')
     else:
         logger.info(C_EXTENSION_FALLBACK_LOG_MSG)
-    # Handle multiple inputs
+    # SDR_TNP has T+P along the slip vector, which is the normal of the other plane
     N1, N2 = SDR_FP(strike, dip, rake)
-    s1, d1, r1 = FP_SDR(N1, N2)
-    s2, d2, r2 = FP_SDR(N2, N1)
-    # This should be ok to return s2,d2,r2 but doesn't seem to work
-    try:
-        r2[np.abs(strike-s2) < 1] = r1[np.abs(strike-s2) < 1]
-        d2[np.abs(strike-s2) < 1] = d1[np.abs(strike-s2) < 1]
-        s2[np.abs(strike-s2) < 1] = s1[np.abs(strike-s2) < 1]
-        return s2, d2, r2
-    except Exception:
-        if np.abs(strike-s1) < 1:
-            return (s2, d2, r2)
-        else:
-            return (s1, d1, r1)
+    return FP_SDR(N1, N2)
 
 
 def FP_TNP(normal, slip):
-- 
2.43.0


From 939698131d3b1dbfd9d8834d2b74ae66a22690d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:46 +0000
Subject: [PATCH 17/98] fix: rake of a horizontal fault plane

---
 src/MTfit/convert/cmoment_tensor_conversion.pyx | 6 +++++-
 src/MTfit/convert/moment_tensor_conversion.py   | 5 +++++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/MTfit/convert/cmoment_tensor_conversion.pyx b/src/MTfit/convert/cmoment_tensor_conversion.pyx
index e57b5e1..0c64706 100644
--- a/src/MTfit/convert/cmoment_tensor_conversion.pyx
+++ b/src/MTfit/convert/cmoment_tensor_conversion.pyx
@@ -132,7 +132,11 @@ cdef inline void cN_SDR(DTYPE_t N0,DTYPE_t N1,DTYPE_t N2,DTYPE_t S0,DTYPE_t S1,D
         S2 = -S2
     strike[0] = atan2(-N0, N1)
     dip[0] = atan2((N1**2+N0**2), sqrt((N0*N2)**2+(N1*N2)**2))
-    rake[0] = atan2(-S2, S0*N1 - S1*N0)
+    if sqrt(N0*N0+N1*N1) < 1e-6:
+        #For a horizontal plane the expression below is 0/0 (and the strike arbitrary), so use the slip components in the plane
+        rake[0] = atan2(cos(dip[0])*(S0*sin(strike[0])-S1*cos(strike[0]))-S2*sin(dip[0]), S0*cos(strike[0])+S1*sin(strike[0]))
+    else:
+        rake[0] = atan2(-S2, S0*N1 - S1*N0)
     if dip[0] > pi/2:
         dip[0] = pi-dip[0]
         strike[0] = strike[0]+pi
diff --git a/src/MTfit/convert/moment_tensor_conversion.py b/src/MTfit/convert/moment_tensor_conversion.py
index 331e8bc..0c0b356 100644
--- a/src/MTfit/convert/moment_tensor_conversion.py
+++ b/src/MTfit/convert/moment_tensor_conversion.py
@@ -455,6 +455,11 @@ def FP_SDR(normal, slip):
     slip = np.array(slip)
     strike, dip = normal_SD(normal)
     rake = np.arctan2(-slip[2], slip[0]*normal[1]-slip[1]*normal[0])
+    # For a horizontal plane the expression is 0/0 (and the strike arbitrary), so use the slip components in the plane
+    flat = np.hypot(normal[0], normal[1]) < 1e-6
+    if np.any(flat):
+        ss, cs, sd, cd = np.sin(strike), np.cos(strike), np.sin(dip), np.cos(dip)
+        rake[flat] = np.arctan2(slip[0]*ss*cd-slip[1]*cs*cd-slip[2]*sd, slip[0]*cs+slip[1]*ss)[flat]
     strike[dip > np.pi/2] += np.pi
     rake[dip > np.pi/2] = 2*np.pi-rake[dip > np.pi/2]
     dip[dip > np.pi/2] = np.pi-dip[dip > np.pi/2]
-- 
2.43.0


From d1e1fa11d7d788a4e51af46af01d61265193c9cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:44 +0000
Subject: [PATCH 18/98] fix: shape handling of eigenvalue, axis and potency
 conversions

Six columns were taken for a transposed single vector by MT6c_D6, row vectors were read
past their end by the compiled TNP_SDR, and the Python E_GD rejected the (n, 3) arrays
which the compiled version accepts.
---
 src/MTfit/convert/cmoment_tensor_conversion.pyx | 2 +-
 src/MTfit/convert/moment_tensor_conversion.py   | 6 +++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/MTfit/convert/cmoment_tensor_conversion.pyx b/src/MTfit/convert/cmoment_tensor_conversion.pyx
index 0c64706..308e8fa 100644
--- a/src/MTfit/convert/cmoment_tensor_conversion.pyx
+++ b/src/MTfit/convert/cmoment_tensor_conversion.pyx
@@ -504,7 +504,7 @@ def MT6_biaxes(DTYPE_t[:]MT6,list c):
 cpdef MT6c_D6(mt6,list c=isotropic_c(l=1,mu=1)):
     mtvoigt=mt6[np.array([0,1,2,5,4,3])]
     mtvoigt=np.matrix(mtvoigt)
-    if mtvoigt.shape[1]==6:
+    if mtvoigt.shape[0]!=6:
         mtvoigt=mtvoigt.T
     #Convert to voigt
     dvoigt=np.linalg.solve(np.matrix(c21_cvoigt(c)),mtvoigt)
diff --git a/src/MTfit/convert/moment_tensor_conversion.py b/src/MTfit/convert/moment_tensor_conversion.py
index 0c0b356..31abf71 100644
--- a/src/MTfit/convert/moment_tensor_conversion.py
+++ b/src/MTfit/convert/moment_tensor_conversion.py
@@ -339,6 +339,8 @@ def E_GD(E):
         logger.info(C_EXTENSION_FALLBACK_LOG_MSG)
     if isinstance(E, np.ndarray):
         E = np.squeeze(np.array(E))
+    if len(E.shape) > 1 and E.shape[1] == 3 and E.shape[0] != 3:
+        E = E.T
     if len(E.shape) > 1 and E.shape[1] > 1:
         gamma = np.empty(E.shape[1])
         delta = np.empty(E.shape[1])
@@ -390,6 +392,8 @@ def TNP_SDR(T, N, P):
     """
     if cmoment_tensor_conversion:
         try:
+            if T.ndim == 2 and T.shape[0] != 3:
+                T, P = T.T, P.T
             return cmoment_tensor_conversion.TP_SDR(T.astype(np.float64), P.astype(np.float64))
         except Exception:
             logger.exception('Error with C extension')
@@ -1083,7 +1087,7 @@ def MT6c_D6(MT6, c=isotropic_c(lambda_=1, mu=1)):
         logger.info(C_EXTENSION_FALLBACK_LOG_MSG)
     mtvoigt = MT6[np.array([0, 1, 2, 5, 4, 3])]
     mtvoigt = np.matrix(mtvoigt)
-    if mtvoigt.shape[1] == 6:
+    if mtvoigt.shape[0] != 6:
         mtvoigt = mtvoigt.T
     # Convert to voigt
     dvoigt = np.linalg.solve(np.matrix(c21_cvoigt(c)), mtvoigt)
-- 
2.43.0


From b7c4e7d21af9895b972143a581a4d8c6b1596d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:57 +0000
Subject: [PATCH 19/98] fix: crack parameters with a Poisson ratio close to 0.5
 gave NaN

---
 src/MTfit/convert/moment_tensor_conversion.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/MTfit/convert/moment_tensor_conversion.py b/src/MTfit/convert/moment_tensor_conversion.py
index 31abf71..b058e25 100644
--- a/src/MTfit/convert/moment_tensor_conversion.py
+++ b/src/MTfit/convert/moment_tensor_conversion.py
@@ -492,9 +492,11 @@ def basic_cdc_GD(alpha, poisson=0.25):
 
     """
     gamma = np.arctan((-1/np.sqrt(3.))*np.cos(alpha))
-    beta = np.arccos(np.sqrt(2./3)*np.cos(alpha)*(1.+poisson) /
-                     np.sqrt(((1.-2.*poisson)*(1.-2.*poisson)) +
-                             np.cos(alpha)*np.cos(alpha)*(1.+2.*poisson*poisson)))
+    cos_beta = (np.sqrt(2./3)*np.cos(alpha)*(1.+poisson) /
+                np.sqrt(((1.-2.*poisson)*(1.-2.*poisson)) +
+                        np.cos(alpha)*np.cos(alpha)*(1.+2.*poisson*poisson)))
+    # rounding can take this just above 1 for poisson close to 0.5
+    beta = np.arccos(np.clip(cos_beta, -1, 1))
     try:
         # fix for odd cos division problems
         beta[alpha == np.pi/2] = np.pi/2
-- 
2.43.0


From 8ec3344c76baa15ac5bb519ec1dcadd54eab9fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:47 +0000
Subject: [PATCH 20/98] fix: same symmetric eigen-solver in the Python and
 compiled conversions

Both give the same axis directions, as the Python solver otherwise flips their arbitrary sign.
---
 src/MTfit/convert/moment_tensor_conversion.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/MTfit/convert/moment_tensor_conversion.py b/src/MTfit/convert/moment_tensor_conversion.py
index b058e25..87eea1c 100644
--- a/src/MTfit/convert/moment_tensor_conversion.py
+++ b/src/MTfit/convert/moment_tensor_conversion.py
@@ -18,6 +18,7 @@ The coordinate system is North (X), East (Y), Down (Z)
 import logging
 
 import numpy as np
+from scipy.linalg import eigh
 from scipy.optimize import fsolve
 
 from ..utilities import C_EXTENSION_FALLBACK_LOG_MSG
@@ -178,7 +179,9 @@ def MT33_TNPE(MT33):
         (numpy.matrix, numpy.matrix, numpy.matrix, numpy.array): tuple of T, N, P
                         vectors and Eigenvalue array
     """
-    E, L = np.linalg.eigh(MT33)
+    E, L = eigh(MT33)
+    if isinstance(MT33, np.matrix):
+        L = np.matrix(L)
     idx = E.argsort()[::-1]
     E = E[idx]
     L = L[:, idx]
@@ -213,7 +216,7 @@ def MT33_GD(MT33):
     Returns
         (numpy.array, numpy.array): tuple of gamma, delta
     """
-    E, L = np.linalg.eigh(MT33)
+    E, L = eigh(MT33)
     return E_GD(E)
 
 
-- 
2.43.0


From 8e92182948a6f11ed5088dcf25f1e7737107e2e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:05 +0000
Subject: [PATCH 21/98] fix: index every location record by its own station
 names

---
 src/MTfit/inversion.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/MTfit/inversion.py b/src/MTfit/inversion.py
index 418074d..f9cb60e 100644
--- a/src/MTfit/inversion.py
+++ b/src/MTfit/inversion.py
@@ -2876,9 +2876,9 @@ def polarity_matrix(data, location_samples=False):
             location_samples = [u.copy() for u in original_samples]
             selected_stations = sorted(list(set(location_samples[0]['Name']) & set(data[key]['Stations']['Name'])))
             n_stations = len(selected_stations)
-            indices = [location_samples[0]['Name'].index(u) for u in selected_stations]
             angles = np.zeros((n_stations, len(location_samples), 6))
             for i, sample in enumerate(location_samples):
+                indices = [sample['Name'].index(u) for u in selected_stations]
                 sample['Name'] = operator.itemgetter(*indices)(sample['Name'])
                 sample['TakeOffAngle'] = sample['TakeOffAngle'][indices]
                 sample['Azimuth'] = sample['Azimuth'][indices]
@@ -2957,9 +2957,9 @@ def polarity_probability_matrix(data, location_samples=False):
         if location_samples:
             location_samples = [u.copy() for u in original_samples]
             selected_stations = sorted(list(set(location_samples[0]['Name']) & set(data[key]['Stations']['Name'])))
-            indices = [location_samples[0]['Name'].index(u) for u in selected_stations]
             angles = np.zeros((len(selected_stations), len(location_samples), 6))
             for i, sample in enumerate(location_samples):
+                indices = [sample['Name'].index(u) for u in selected_stations]
                 sample['Name'] = operator.itemgetter(*indices)(sample['Name'])
                 sample['TakeOffAngle'] = sample['TakeOffAngle'][indices]
                 sample['Azimuth'] = sample['Azimuth'][indices]
@@ -3032,10 +3032,10 @@ def amplitude_ratio_matrix(data, location_samples=False):
         if location_samples:
             location_samples = [u.copy() for u in original_samples]
             selected_stations = sorted(list(set(location_samples[0]['Name']) & set(data[key]['Stations']['Name'])))
-            indices = [location_samples[0]['Name'].index(u) for u in selected_stations]
             angles1 = np.zeros((len(selected_stations), len(location_samples), 6))
             angles2 = np.zeros((len(selected_stations), len(location_samples), 6))
             for i, sample in enumerate(location_samples):
+                indices = [sample['Name'].index(u) for u in selected_stations]
                 sample['Name'] = operator.itemgetter(*indices)(sample['Name'])
                 sample['TakeOffAngle'] = sample['TakeOffAngle'][indices]
                 sample['Azimuth'] = sample['Azimuth'][indices]
@@ -3106,9 +3106,9 @@ def relative_amplitude_ratio_matrix(data, location_samples=False):
         if location_samples:
             location_samples = [u.copy() for u in original_samples]
             selected_stations = sorted(list(set(location_samples[0]['Name']) & set(data[key]['Stations']['Name'])))
-            indices = [location_samples[0]['Name'].index(u) for u in selected_stations]
             angles = np.zeros((len(selected_stations), len(location_samples), 6))
             for i, sample in enumerate(location_samples):
+                indices = [sample['Name'].index(u) for u in selected_stations]
                 sample['Name'] = operator.itemgetter(*indices)(sample['Name'])
                 sample['TakeOffAngle'] = sample['TakeOffAngle'][indices]
                 sample['Azimuth'] = sample['Azimuth'][indices]
-- 
2.43.0


From e0476d91a4529ae93715f7412e8bffbb463f0d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:05 +0000
Subject: [PATCH 22/98] fix: second polarity-probability type extends the
 negative probabilities

---
 src/MTfit/inversion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MTfit/inversion.py b/src/MTfit/inversion.py
index f9cb60e..47aac8b 100644
--- a/src/MTfit/inversion.py
+++ b/src/MTfit/inversion.py
@@ -2990,7 +2990,7 @@ def polarity_probability_matrix(data, location_samples=False):
         else:
             a = np.append(a, angles, 0)
             positive_probability = np.append(positive_probability, np.array(measured[:, 0]).flatten())
-            negative_probability = np.append(positive_probability, np.array(measured[:, 1]).flatten())
+            negative_probability = np.append(negative_probability, np.array(measured[:, 1]).flatten())
             incorrect_polarity_prob = np.append(incorrect_polarity_prob, _incorrect_polarity_prob, 0)
     # Set incorrect polarity prob if default
     if np.sum(np.abs(incorrect_polarity_prob)) == 0:
-- 
2.43.0


From 034522134b9e5f763137b8508e3ce44f2067791f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:05 +0000
Subject: [PATCH 23/98] fix: mispick probabilities given for some polarity
 types only stay aligned with their observations

---
 src/MTfit/inversion.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/MTfit/inversion.py b/src/MTfit/inversion.py
index 47aac8b..eced330 100644
--- a/src/MTfit/inversion.py
+++ b/src/MTfit/inversion.py
@@ -2905,6 +2905,9 @@ def polarity_matrix(data, location_samples=False):
                 _incorrect_polarity_prob = np.array(data[key]['IncorrectPolarityProbability']).flatten()
             else:
                 _incorrect_polarity_prob = np.array([0])
+        if len(_incorrect_polarity_prob) != n_stations:
+            # One value per observation, so that the data types stay aligned
+            _incorrect_polarity_prob = np.kron(_incorrect_polarity_prob, np.ones(n_stations))
         # If angles have multiple dimensions (location samples),  expand the measurements
         if angles.ndim > 2:
             measured = np.array(measured)
@@ -2918,9 +2921,6 @@ def polarity_matrix(data, location_samples=False):
         else:
             a = np.append(a, np.multiply(angles, measured), 0)
             error = np.append(error, _error, 0)
-            if len(_incorrect_polarity_prob) != n_stations:
-                # Make sure this is the same length as the data as we are appending it
-                _incorrect_polarity_prob = np.kron(_incorrect_polarity_prob, np.ones(n_stations))
             incorrect_polarity_prob = np.append(incorrect_polarity_prob, _incorrect_polarity_prob, 0)
     # Set incorrect polarity prob if default
     if np.sum(np.abs(incorrect_polarity_prob)) == 0:
@@ -2980,6 +2980,9 @@ def polarity_probability_matrix(data, location_samples=False):
                 _incorrect_polarity_prob = np.array(data[key]['IncorrectPolarityProbability']).flatten()
             else:
                 _incorrect_polarity_prob = np.array([0])
+        if len(_incorrect_polarity_prob) != len(angles):
+            # One value per observation, so that the data types stay aligned
+            _incorrect_polarity_prob = np.kron(_incorrect_polarity_prob, np.ones(len(angles)))
         # Set or append to outputs
         if not _a:
             _a = True
-- 
2.43.0


From a1efe410c406d9f973ee162e965799cb670ecfc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:05 +0000
Subject: [PATCH 24/98] fix: several relative amplitude types can be used with
 location samples

---
 src/MTfit/inversion.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/MTfit/inversion.py b/src/MTfit/inversion.py
index eced330..849473c 100644
--- a/src/MTfit/inversion.py
+++ b/src/MTfit/inversion.py
@@ -3119,8 +3119,8 @@ def relative_amplitude_ratio_matrix(data, location_samples=False):
             angles = np.array(angles)
             relative_amplitude_stations.extend(selected_stations)
             indices = [data[key]['Stations']['Name'].index(u) for u in selected_stations]
-            measured = data[key]['Measured'][indices]
-            error = data[key]['Error'][indices]
+            measured = np.array(data[key]['Measured'][indices]).flatten()
+            error = np.array(data[key]['Error'][indices]).flatten()
         # Otherwise get angles and measurements
         else:
             angles = np.zeros((np.prod(data[key]['Stations']['TakeOffAngle'].shape), 1, 6))
-- 
2.43.0


From fe0c7e7f68510c63e0c4722b5c3d77c550b187c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:05 +0000
Subject: [PATCH 25/98] fix: pair the shared stations of two events by name
 whatever their order

---
 src/MTfit/inversion.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/MTfit/inversion.py b/src/MTfit/inversion.py
index 849473c..92b0317 100644
--- a/src/MTfit/inversion.py
+++ b/src/MTfit/inversion.py
@@ -3169,10 +3169,13 @@ def _intersect_stations(relative_amplitude_stations_i, relative_amplitude_statio
 
     """
     # Get intersection of stations between events
-    selected_stations = list(set(relative_amplitude_stations_i) & set(relative_amplitude_stations_j))
-    # Get indices for each event
-    indices_i = [i for i, u in enumerate(relative_amplitude_stations_i) if u in selected_stations]
-    indices_j = [i for i, u in enumerate(relative_amplitude_stations_j) if u in selected_stations]
+    # (a station can occur once per data type, so pair the occurrences)
+    occurrences_i = [(u, relative_amplitude_stations_i[:i].count(u)) for i, u in enumerate(relative_amplitude_stations_i)]
+    occurrences_j = [(u, relative_amplitude_stations_j[:i].count(u)) for i, u in enumerate(relative_amplitude_stations_j)]
+    selected_stations = [u for u in occurrences_i if u in set(occurrences_j)]
+    # Get indices for each event, in the same station order
+    indices_i = [occurrences_i.index(u) for u in selected_stations]
+    indices_j = [occurrences_j.index(u) for u in selected_stations]
     # Get parameters for event i
     a_relative_amplitude_ratio_i = a_relative_amplitude_ratio_i[indices_i]
     relative_amplitude_i = relative_amplitude_i[indices_i]
@@ -3202,12 +3205,12 @@ def _intersect_stations_extension_data(extension_data_i, extension_data_j):
 
     """
     # Get intersection of stations between events
-    stations_i = extension_data_i['stations']
-    stations_j = extension_data_j['stations']
-    selected_stations = list(set(stations_i) & set(stations_j))
-    # Get indices for each event
-    indices_i = [i for i, u in enumerate(stations_i) if u in selected_stations]
-    indices_j = [i for i, u in enumerate(stations_j) if u in selected_stations]
+    stations_i = list(extension_data_i['stations'])
+    stations_j = list(extension_data_j['stations'])
+    selected_stations = [u for u in stations_i if u in set(stations_j)]
+    # Get indices for each event, in the same station order
+    indices_i = [stations_i.index(u) for u in selected_stations]
+    indices_j = [stations_j.index(u) for u in selected_stations]
     # Get parameters for event i
     for key in extension_data_i:
         extension_data_i[key] = np.ascontiguousarray(extension_data_i[key][indices_i])
-- 
2.43.0


From 804ab12220dc0b6818a596c13c0735c534f8c13e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:26 +0000
Subject: [PATCH 26/98] fix: accept the Q label on either side of RMS in
 amplitude ratio types

---
 src/MTfit/inversion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MTfit/inversion.py b/src/MTfit/inversion.py
index 92b0317..2617560 100644
--- a/src/MTfit/inversion.py
+++ b/src/MTfit/inversion.py
@@ -3028,9 +3028,9 @@ def amplitude_ratio_matrix(data, location_samples=False):
     # Loop over data and get amplitude ratio data
     for key in sorted([u for u in data.keys() if 'amplituderatio' in u.lower() or 'amplitude_ratio' in u.lower()]):
         phase = key.replace('_', '').lower().split('amplituderatio')[0]
+        phase = phase.rstrip('q')
         phase = phase.rstrip('rms')
         phase = phase.rstrip('q')
-        phase.replace('_', '')
         # If location samples, get intersection stations and data
         if location_samples:
             location_samples = [u.copy() for u in original_samples]
-- 
2.43.0


From 0060b0b439cb515a7735a30bbf7cb37ea86a999d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:55 +0000
Subject: [PATCH 27/98] fix: polarity probability data contribute on the
 pure-Python forward path

---
 src/MTfit/inversion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MTfit/inversion.py b/src/MTfit/inversion.py
index 2617560..aa69b68 100644
--- a/src/MTfit/inversion.py
+++ b/src/MTfit/inversion.py
@@ -279,7 +279,7 @@ class ForwardTask(object):
                             with warnings.catch_warnings() and np.errstate(divide='ignore'):
                                 warnings.simplefilter("ignore")
                                 # Polarity probability ln_pdf (will try to use cython again, and only fall back to python if necessary)
-                                ln_p_total = polarity_probability_ln_pdf(np.tensordot(self.a_polarity_prob, self.mt, 1), self.polarity_prob[0], self.polarity_prob[1], self.incorrect_polarity_prob)
+                                ln_p_total = polarity_probability_ln_pdf(self.a_polarity_prob, self.mt, self.polarity_prob[0], self.polarity_prob[1], self.incorrect_polarity_prob)
                             _return = True
                             # Print number of non zero samples (Verbosity>=3)
                             logger.debug('Polarity probability non-zero samples = {}'.format(sum(ln_p_total > -np.inf)))
-- 
2.43.0


From 81b45f64ea1e535249ecbc3caff8f57b5357c060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:55 +0000
Subject: [PATCH 28/98] fix: location sample weights apply whatever their mean
 and number

---
 src/MTfit/inversion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MTfit/inversion.py b/src/MTfit/inversion.py
index aa69b68..0fc0068 100644
--- a/src/MTfit/inversion.py
+++ b/src/MTfit/inversion.py
@@ -343,7 +343,7 @@ class ForwardTask(object):
                         # No data has been used, so print exceptions
                         logging.error('No data used in polarity, amplitude ratio or polarity PDF')
                     # If location PDF samples exist and sample PDF multipliers exist (increased Prob) - For Oct -tree sampling  sample density correspond to PDF values (more samples in higher prob). Grid sampling needs location multipliers set (can be done using Scat2Angle with 'grid' option in command line)
-                    if location_samples and self.location_sample_multipliers and sum(self.location_sample_multipliers) != len(self.location_sample_multipliers):
+                    if self.location_sample_multipliers and (location_samples or len(self.location_sample_multipliers) == 1):
                         if cprobability:
                             location_sample_multipliers = np.array(self.location_sample_multipliers)
                             location_sample_multipliers = location_sample_multipliers.astype(np.float64, copy=False)
-- 
2.43.0


From 353f6a32e83807cb83f891c9980674c367bda18c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:13 +0000
Subject: [PATCH 29/98] fix: compiled polarity likelihood of a zero amplitude
 with zero uncertainty

---
 src/MTfit/probability/cprobability.pyx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/MTfit/probability/cprobability.pyx b/src/MTfit/probability/cprobability.pyx
index a3d3015..c6fce27 100644
--- a/src/MTfit/probability/cprobability.pyx
+++ b/src/MTfit/probability/cprobability.pyx
@@ -209,6 +209,9 @@ cdef inline DTYPE_t gaussian_cdf(DTYPE_t x,DTYPE_t mu,DTYPE_t s) nogil:
 @cython.cdivision(True)
 cdef inline DTYPE_t pol_pdf(DTYPE_t x,DTYPE_t s,DTYPE_t i) nogil:
     # print x,s,i,0.5*((1-i)*(1+erf(x/(sqrt2*s)))+i*(1+erf(-x/(sqrt2*s))))
+    if x==0:
+        # erf(0), including for zero uncertainty
+        return 0.5
     return 0.5*((1-i)*(1+erf(x/(sqrt2*s)))+i*(1+erf(-x/(sqrt2*s))))
 
 @cython.boundscheck(False)
-- 
2.43.0


From e2d8fa5b5eebe6cd61ccf5cc627ffbdc0c2bc6d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:30 +0000
Subject: [PATCH 30/98] fix: a location sample without modelled amplitudes no
 longer removes the source on the compiled path

---
 src/MTfit/probability/cprobability.pyx | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/MTfit/probability/cprobability.pyx b/src/MTfit/probability/cprobability.pyx
index c6fce27..893546b 100644
--- a/src/MTfit/probability/cprobability.pyx
+++ b/src/MTfit/probability/cprobability.pyx
@@ -232,7 +232,7 @@ cdef inline DTYPE_t pol_prob_pdf(DTYPE_t x,DTYPE_t p,DTYPE_t n,DTYPE_t i) nogil:
 @cython.cdivision(True)
 cdef inline DTYPE_t ar_pdf(DTYPE_t z,DTYPE_t mux,DTYPE_t muy,DTYPE_t psx,DTYPE_t psy) nogil:
     cdef double sqrtpi=sqrt(pi)
-    cdef DTYPE_t a,b1,b2,c,d1,d2,f1,f2,sx,sy
+    cdef DTYPE_t a,b1,b2,c,d1,d2,f1,f2,sx,sy,p
     if psy<cutoff:
         a=fabs(mux/muy)
         sx=a*sqrt((psx*psx)+(psy*psy))
@@ -248,7 +248,12 @@ cdef inline DTYPE_t ar_pdf(DTYPE_t z,DTYPE_t mux,DTYPE_t muy,DTYPE_t psx,DTYPE_t
         f1=0.5*(1+erf(b1/(sqrt2*a)))
         d2=exp((b2*b2-c*a*a)/(2*a*a))
         f2=0.5*(1+erf(b2/(sqrt2*a)))
-        return b1*d1/(sx*sy*a*a*a*sqrt2*sqrtpi)*(2*f1-1)+2/(pi*sx*sy*a*a)*exp(-c/2)+b2*d2/(sx*sy*a*a*a*sqrt2*sqrtpi)*(2*f2-1)
+        p=b1*d1/(sx*sy*a*a*a*sqrt2*sqrtpi)*(2*f1-1)+2/(pi*sx*sy*a*a)*exp(-c/2)+b2*d2/(sx*sy*a*a*a*sqrt2*sqrtpi)*(2*f2-1)
+        if p!=p:
+            # No modelled amplitude to form a ratio from (e.g. a nodal station), so the density is zero as in
+            # the Python functions; a NaN here would remove the other location samples when marginalising
+            return 0.
+        return p
 
 #
 # Station Loops
-- 
2.43.0


From a6f4e766937bb12f70327720f3c43e24a823cd40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:35 +0000
Subject: [PATCH 31/98] fix: stable variance of the relative scale factor for
 small errors

---
 src/MTfit/probability/cprobability.pyx | 12 +++++++-----
 src/MTfit/probability/probability.py   | 12 +++++++-----
 2 files changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/MTfit/probability/cprobability.pyx b/src/MTfit/probability/cprobability.pyx
index 893546b..2649d4c 100644
--- a/src/MTfit/probability/cprobability.pyx
+++ b/src/MTfit/probability/cprobability.pyx
@@ -1654,7 +1654,7 @@ cdef inline DTYPE_t combine_s(DTYPE_t s1, DTYPE_t s2) nogil:
 @cython.cdivision(True)
 cdef void estimate_scale_mu_s(DTYPE_t *mu, DTYPE_t *s, DTYPE_t x,DTYPE_t y,DTYPE_t mux,DTYPE_t muy,DTYPE_t psx,DTYPE_t psy) nogil:
     cdef double sqrtpi=sqrt(pi)
-    cdef DTYPE_t N,sx,sy,z,mu1,mux3,mux2,sy_2,sx_2,s1_2,mu1_2,s1,A,B,C
+    cdef DTYPE_t N,sx,sy,z,mu1,mux3,mux2,sy_2,sx_2,s1_2,mu1_2,s1,A,B,C,delta
 
     z=fabs(x/y)
     mux=fabs(mux)
@@ -1670,13 +1670,15 @@ cdef void estimate_scale_mu_s(DTYPE_t *mu, DTYPE_t *s, DTYPE_t x,DTYPE_t y,DTYPE
     s1_2=s1*s1
     mu1=muy*z/mux
     mu1_2=mu1*mu1
-    N=((sy_2*mux*z*mu1+sx_2*muy)/(mux3)+(sqrt2*sx_2*sy*exp_muy)/(sqrtpi*mux3*s1_2))
-    A=(sy_2*mux*z*mu1)/(mux3)
+    A=(sy_2*mux*z)/(mux3)
     B=sx_2*muy/mux3
     C=sqrt2*sx_2*sy*exp_muy/(sqrtpi*mux3*s1_2)
+    N=A*mu1+B+C
+    # relative to mu1: the second moment minus the squared mean cancels for small errors
+    delta=(A*s1_2-C*mu1)/N
     #CYTHON POINTER ASSIGNMENT
-    mu[0]=(sy_2*mux*z*(s1_2+mu1_2)+sx_2*mu1*muy)/(mux3*N)
-    s[0]=sqrt(((sy_2*(mu1_2*mu1+3*mu1*s1_2)*mux*z+sx_2*(s1_2+mu1_2)*muy)/mux3+sqrt2*sx_2*sx_2*sy*exp_muy/(sqrtpi*mux3*mux2*s1_2))/N-mu[0]*mu[0])
+    mu[0]=mu1+delta
+    s[0]=sqrt((s1_2*(A*mu1+B)+C*(sx_2/mux2+mu1_2))/N-delta*delta)
 
 @cython.boundscheck(False)
 @cython.wraparound(False)
diff --git a/src/MTfit/probability/probability.py b/src/MTfit/probability/probability.py
index 106c1bf..604893a 100644
--- a/src/MTfit/probability/probability.py
+++ b/src/MTfit/probability/probability.py
@@ -583,11 +583,13 @@ def scale_estimator(observed_ratio, mu_x, mu_y, percentage_error_x, percentage_e
 
     N = np.multiply(A, mu1) + B + C
     # Calculate mean and standard deviations
-    mu = np.divide(np.multiply(A, (s1_2 + mu1_2)) + np.multiply(B, mu1), N)
-    s = np.sqrt(np.divide(np.multiply(A, (3*np.multiply(s1_2, mu1)+np.multiply(mu1_2, mu1))) +
-                          np.multiply(B, (s1_2 + mu1_2)) +
-                          np.multiply(C, np.divide(sx_2, mu_x_2)),
-                          N) - np.multiply(mu, mu))
+    # (evaluated relative to mu1, as the difference of the second moment and the
+    # squared mean cancels for small errors)
+    delta = np.divide(np.multiply(A, s1_2) - np.multiply(C, mu1), N)
+    mu = mu1 + delta
+    s = np.sqrt(np.divide(np.multiply(s1_2, np.multiply(A, mu1) + B) +
+                          np.multiply(C, np.divide(sx_2, mu_x_2) + mu1_2),
+                          N) - np.multiply(delta, delta))
     # Combine mean over stations
     return combine_mu(mu, s)
 
-- 
2.43.0


From ae6f701ba534ac09729096f00d14f138456d89b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:21 +0000
Subject: [PATCH 32/98] fix: a tuple of sources is only dropped when it has
 zero probability at every location sample

---
 src/MTfit/inversion.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/MTfit/inversion.py b/src/MTfit/inversion.py
index 0fc0068..aee61d8 100644
--- a/src/MTfit/inversion.py
+++ b/src/MTfit/inversion.py
@@ -639,13 +639,15 @@ class MultipleEventsForwardTask(object):
             # Update mts
             if not self._return_zero:
                 # Update ln_pdfs etc. for non-zeros
-                if sum(non_zeros) != sum(np.array(np.sum(ln_p_total, 0) > -np.inf).flatten()):
-                    non_zeros[non_zeros] = np.array(np.sum(ln_p_total, 0) > -np.inf).flatten()  # update non zeros
+                # (a sample is only zero if it is zero for every location sample)
+                non_zero_indices = np.array(np.max(ln_p_total, 0) > -np.inf).flatten()
+                if sum(non_zeros) != sum(non_zero_indices):
+                    non_zeros[non_zeros] = non_zero_indices  # update non zeros
                     for j in range(i+1):
-                        self.mts[j] = np.ascontiguousarray(self.mts[j][:, np.array(np.sum(ln_p_total, 0) > -np.inf). flatten()])
-                    scale_factor = np.ascontiguousarray(scale_factor[:, np.array(np.sum(ln_p_total, 0) > -np.inf).flatten(), :, :])
-                    scale_factor_uncertainty = np.ascontiguousarray(scale_factor_uncertainty[:, np.array(np.sum(ln_p_total, 0) > -np.inf).flatten(), :, :])
-                    ln_p_total = ln_p_total[:, np.array(np.sum(ln_p_total, 0) > -np.inf).flatten()]
+                        self.mts[j] = np.ascontiguousarray(self.mts[j][:, non_zero_indices])
+                    scale_factor = np.ascontiguousarray(scale_factor[:, non_zero_indices, :, :])
+                    scale_factor_uncertainty = np.ascontiguousarray(scale_factor_uncertainty[:, non_zero_indices, :, :])
+                    ln_p_total = ln_p_total[:, non_zero_indices]
                     mt = self.mts[i]
             #####
             if self._relative and ((isinstance(self.a_relative_amplitude, list) and len(self.a_relative_amplitude)) or not isinstance(self.a_relative_amplitude, (bool, list))) and not self._combine:
@@ -730,7 +732,7 @@ class MultipleEventsForwardTask(object):
                                 return {'moment_tensors': self.mts, 'ln_pdf': ln_p_total, 'n': N}
                             # Update mts for non-zeros
                             if not self._return_zero:
-                                non_zero_indices = np.array(np.sum(ln_p_total, 0) > -np.inf).flatten()
+                                non_zero_indices = np.array(np.max(ln_p_total, 0) > -np.inf).flatten()
                                 if sum(non_zeros) != sum(non_zero_indices):
                                     non_zeros[non_zeros] = non_zero_indices
                                     for j in range(i+1):
@@ -788,7 +790,7 @@ class MultipleEventsForwardTask(object):
                                         return {'moment_tensors': self.mts, 'ln_pdf': ln_p_total, 'n': N}
                                     # Update mts for non-zeros
                                     if not self._return_zero:
-                                        non_zero_indices = np.array(np.sum(ln_p_total, 0) > -np.inf).flatten()
+                                        non_zero_indices = np.array(np.max(ln_p_total, 0) > -np.inf).flatten()
                                         if sum(non_zeros) != sum(non_zero_indices):
                                             non_zeros[non_zeros] = non_zero_indices
                                             for j in range(i+1):
-- 
2.43.0


From 150e66dc05ae96bee0aa43f80001679c09409024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:21 +0000
Subject: [PATCH 33/98] fix: relative amplitudes use the samples left after the
 previous pair was filtered

---
 src/MTfit/inversion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MTfit/inversion.py b/src/MTfit/inversion.py
index aee61d8..752ebe8 100644
--- a/src/MTfit/inversion.py
+++ b/src/MTfit/inversion.py
@@ -700,7 +700,7 @@ class MultipleEventsForwardTask(object):
                         # Check number of intersections
                         if n_intersections >= self.minimum_number_intersections:
                             # Evaluate relative amplitude ratio pdf
-                            ln_p_amp_rat, scale, scale_uncertainty = relative_amplitude_ratio_ln_pdf(relative_amplitude_i, relative_amplitude_j, np.ascontiguousarray(mt),
+                            ln_p_amp_rat, scale, scale_uncertainty = relative_amplitude_ratio_ln_pdf(relative_amplitude_i, relative_amplitude_j, np.ascontiguousarray(self.mts[i]),
                                                                                                      np.ascontiguousarray(self.mts[j]), a1_relative_amplitude_ratio,
                                                                                                      a2_relative_amplitude_ratio, percentage_error_relative_amplitude_i,
                                                                                                      percentage_error_relative_amplitude_j)
-- 
2.43.0


From 67cd97ebb1431b8019bda86f5c893c54a5c48f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:21 +0000
Subject: [PATCH 34/98] fix: a reused joint task keeps one forward task per
 event after an early return

---
 src/MTfit/inversion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MTfit/inversion.py b/src/MTfit/inversion.py
index 752ebe8..08b3583 100644
--- a/src/MTfit/inversion.py
+++ b/src/MTfit/inversion.py
@@ -602,7 +602,7 @@ class MultipleEventsForwardTask(object):
                 self.mts[i] = np.ascontiguousarray(self.mts[i][:, non_zeros])
                 mt = self.mts[i]
             # If forward tasks are being re-used and one doesn't exist or no tasks are re-used
-            if self._reuse and len(self.forward_tasks) < len(self.mts) or not self._reuse:
+            if self._reuse and len(self.forward_tasks) <= i or not self._reuse:
                 forward_task = ForwardTask(mt, a_polarity, self.error_polarity[i], a1_amplitude_ratio, a2_amplitude_ratio, self.amplitude_ratio[i],
                                            self.percentage_error1_amplitude_ratio[i], self.percentage_error2_amplitude_ratio[i], a_polarity_prob,
                                            self.polarity_prob[i], self.location_sample_multipliers, incorrect_polarity_prob, return_zero=True,
-- 
2.43.0


From e5b3362253f976c135f3d3819ed9cc5279ddb354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:21 +0000
Subject: [PATCH 35/98] fix: joint samples that all have zero probability are
 returned in the usual form with return_zero

---
 src/MTfit/inversion.py | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/src/MTfit/inversion.py b/src/MTfit/inversion.py
index 08b3583..9b16f8c 100644
--- a/src/MTfit/inversion.py
+++ b/src/MTfit/inversion.py
@@ -632,10 +632,9 @@ class MultipleEventsForwardTask(object):
             ln_p_total = ln_p_total+ln_pdf
             # return if ln_p_total is all zero
             if not (ln_p_total > -np.inf).any():
-                # return zeros
+                # return if not returning zeros
                 if not self._return_zero:
                     return {'moment_tensors': np.matrix([]), 'ln_pdf': LnPDF(np.matrix([])), 'n': N}
-                return {'moment_tensors': self.mts, 'ln_pdf': ln_p_total, 'n': N, 'scale_factor': scale_factor}
             # Update mts
             if not self._return_zero:
                 # Update ln_pdfs etc. for non-zeros
@@ -725,11 +724,9 @@ class MultipleEventsForwardTask(object):
                                 ln_p_total = cprobability.ln_combine(np.ascontiguousarray(ln_p_total), ln_p_amp_rat)
                             else:
                                 ln_p_total = ln_p_total+ln_p_amp_rat
-                            # return zeros
-                            if not (ln_p_total > -np.inf).any():
-                                if not self._return_zero:
-                                    return {'moment_tensors': np.matrix([]), 'ln_pdf': LnPDF(np.matrix([])), 'n': N}
-                                return {'moment_tensors': self.mts, 'ln_pdf': ln_p_total, 'n': N}
+                            # return if not returning zeros
+                            if not (ln_p_total > -np.inf).any() and not self._return_zero:
+                                return {'moment_tensors': np.matrix([]), 'ln_pdf': LnPDF(np.matrix([])), 'n': N}
                             # Update mts for non-zeros
                             if not self._return_zero:
                                 non_zero_indices = np.array(np.max(ln_p_total, 0) > -np.inf).flatten()
@@ -784,10 +781,8 @@ class MultipleEventsForwardTask(object):
                                     else:
                                         ln_p_total = ln_p_total+ln_p_extensions
 
-                                    if not (ln_p_total > -np.inf).any():
-                                        if not self._return_zero:
-                                            return {'moment_tensors': np.matrix([]), 'ln_pdf': LnPDF(np.matrix([])), 'n': N}
-                                        return {'moment_tensors': self.mts, 'ln_pdf': ln_p_total, 'n': N}
+                                    if not (ln_p_total > -np.inf).any() and not self._return_zero:
+                                        return {'moment_tensors': np.matrix([]), 'ln_pdf': LnPDF(np.matrix([])), 'n': N}
                                     # Update mts for non-zeros
                                     if not self._return_zero:
                                         non_zero_indices = np.array(np.max(ln_p_total, 0) > -np.inf).flatten()
-- 
2.43.0


From db9744b9cc54d58b11131e10c0dcecaa263db6fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:21 +0000
Subject: [PATCH 36/98] fix: joint probability of events marginalised over
 location samples is not repeated per sample

---
 src/MTfit/inversion.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/MTfit/inversion.py b/src/MTfit/inversion.py
index 9b16f8c..f27a5f0 100644
--- a/src/MTfit/inversion.py
+++ b/src/MTfit/inversion.py
@@ -557,7 +557,8 @@ class MultipleEventsForwardTask(object):
         # If combining outputs make a single ln_pdf else make a list of them
         if self._combine:
             # Assuming that location uncertainty matches for each event (i.e if samples used, event is still co-located...)
-            ln_p_total = np.matrix(np.zeros((self.location_sample_size, self.mts[0].shape[1])))
+            # If the location samples are marginalised for each event there is one value per sample
+            ln_p_total = np.matrix(np.zeros((1 if self._marginalise_relative else self.location_sample_size, self.mts[0].shape[1])))
         else:
             ln_p_total = []
         # Set non-zero array
-- 
2.43.0


From 7012991d7e506fedb09a0aae56ba36df5b399abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:50 +0000
Subject: [PATCH 37/98] fix: relative amplitudes are compared between events
 phase by phase

---
 src/MTfit/inversion.py | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/MTfit/inversion.py b/src/MTfit/inversion.py
index f27a5f0..e3076ba 100644
--- a/src/MTfit/inversion.py
+++ b/src/MTfit/inversion.py
@@ -3076,6 +3076,18 @@ def amplitude_ratio_matrix(data, location_samples=False):
     return a1, a2, amplitude_ratio, percentage_error1, percentage_error2
 
 
+class _PhaseStation(str):
+    """Station name which keeps the phase of its relative amplitude observation"""
+    phase = None
+
+
+def _phase_stations(names, phase):
+    stations = [_PhaseStation(u) for u in names]
+    for station in stations:
+        station.phase = phase
+    return stations
+
+
 def relative_amplitude_ratio_matrix(data, location_samples=False):
     """
     Generates the relative amplitude ratio observation matrices from the data.
@@ -3115,7 +3127,7 @@ def relative_amplitude_ratio_matrix(data, location_samples=False):
                 sample['Azimuth'] = sample['Azimuth'][indices]
                 angles[:, i, :] = station_angles(sample, phase)
             angles = np.array(angles)
-            relative_amplitude_stations.extend(selected_stations)
+            relative_amplitude_stations.extend(_phase_stations(selected_stations, phase))
             indices = [data[key]['Stations']['Name'].index(u) for u in selected_stations]
             measured = np.array(data[key]['Measured'][indices]).flatten()
             error = np.array(data[key]['Error'][indices]).flatten()
@@ -3123,7 +3135,7 @@ def relative_amplitude_ratio_matrix(data, location_samples=False):
         else:
             angles = np.zeros((np.prod(data[key]['Stations']['TakeOffAngle'].shape), 1, 6))
             angles[:, 0, :] = station_angles(data[key]['Stations'], phase)
-            relative_amplitude_stations.extend(data[key]['Stations']['Name'])
+            relative_amplitude_stations.extend(_phase_stations(data[key]['Stations']['Name'], phase))
             measured = np.array(data[key]['Measured']).flatten()
             error = np.array(data[key]['Error']).flatten()
         # Set or append to outputs
@@ -3167,9 +3179,11 @@ def _intersect_stations(relative_amplitude_stations_i, relative_amplitude_statio
 
     """
     # Get intersection of stations between events
-    # (a station can occur once per data type, so pair the occurrences)
-    occurrences_i = [(u, relative_amplitude_stations_i[:i].count(u)) for i, u in enumerate(relative_amplitude_stations_i)]
-    occurrences_j = [(u, relative_amplitude_stations_j[:i].count(u)) for i, u in enumerate(relative_amplitude_stations_j)]
+    # (a station can occur once per data type, so pair the occurrences of the same phase)
+    stations_i = [(u, getattr(u, 'phase', None)) for u in relative_amplitude_stations_i]
+    stations_j = [(u, getattr(u, 'phase', None)) for u in relative_amplitude_stations_j]
+    occurrences_i = [(u, stations_i[:i].count(u)) for i, u in enumerate(stations_i)]
+    occurrences_j = [(u, stations_j[:i].count(u)) for i, u in enumerate(stations_j)]
     selected_stations = [u for u in occurrences_i if u in set(occurrences_j)]
     # Get indices for each event, in the same station order
     indices_i = [occurrences_i.index(u) for u in selected_stations]
-- 
2.43.0


From d808228ef5ee6030874a60a8bcdcbaa02e4b5702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:04 +0000
Subject: [PATCH 38/98] fix: joint marginalisation over location samples does
 not depend on the other samples of the batch

---
 src/MTfit/inversion.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/MTfit/inversion.py b/src/MTfit/inversion.py
index e3076ba..2b160d0 100644
--- a/src/MTfit/inversion.py
+++ b/src/MTfit/inversion.py
@@ -820,19 +820,14 @@ class MultipleEventsForwardTask(object):
         # Set up results dict
         if self.location_sample_size > 1 and not self._marginalise_relative:
             # Relative not marginalised already
-            ln_scale = 0
-            if -ln_p_total.max() > 0 and ln_p_total.max() > -np.inf:
-                ln_scale = -ln_p_total.max()
             scale_factor = np.array([{'mu': scale_factor[:, i], 'ln_p': ln_p_total[:, i], 'sigma': scale_factor_uncertainty[:, i]} for i in range(scale_factor.shape[1])])
             try:
                 for key in extension_scale.keys():
                     extension_scale[key] = np.array([{'mu': extension_scale[key][:, i], 'ln_p': ln_p_total[:, i], 'sigma': extension_scale_uncertainty[key][:, i]} for i in range(extension_scale[key].shape[1])])
             except Exception:
                 extension_scale = {}
-            p_total = np.exp(ln_p_total+ln_scale)
             # Marginalise
-            p_total = np.matrix(np.sum(p_total, 0))
-            ln_p_total = np.log(p_total)-ln_scale
+            ln_p_total = ln_marginalise(np.array(ln_p_total))
         elif self._relative:  # marginalise_relative is true
             if scale_factor.shape[0] == 1:
                 scale_factor = scale_factor.squeeze(0)
-- 
2.43.0


From 985124dc18f090d9e787da02b8d371cee842c359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:42 +0000
Subject: [PATCH 39/98] fix: no scale factor is reported for two events without
 a shared station

---
 src/MTfit/inversion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MTfit/inversion.py b/src/MTfit/inversion.py
index 2b160d0..ed99fdd 100644
--- a/src/MTfit/inversion.py
+++ b/src/MTfit/inversion.py
@@ -698,7 +698,7 @@ class MultipleEventsForwardTask(object):
                         percentage_error_relative_amplitude_j = intersected_data[5]
                         n_intersections = intersected_data[6]
                         # Check number of intersections
-                        if n_intersections >= self.minimum_number_intersections:
+                        if n_intersections and n_intersections >= self.minimum_number_intersections:
                             # Evaluate relative amplitude ratio pdf
                             ln_p_amp_rat, scale, scale_uncertainty = relative_amplitude_ratio_ln_pdf(relative_amplitude_i, relative_amplitude_j, np.ascontiguousarray(self.mts[i]),
                                                                                                      np.ascontiguousarray(self.mts[j]), a1_relative_amplitude_ratio,
-- 
2.43.0


From 4ebdae03f3a641f9ba081a6d10de1376fc240553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:04 +0000
Subject: [PATCH 40/98] fix: the initial sample of a Markov chain carries its
 own likelihood

---
 src/MTfit/algorithms/markov_chain_monte_carlo.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/MTfit/algorithms/markov_chain_monte_carlo.py b/src/MTfit/algorithms/markov_chain_monte_carlo.py
index 64be869..501aed2 100644
--- a/src/MTfit/algorithms/markov_chain_monte_carlo.py
+++ b/src/MTfit/algorithms/markov_chain_monte_carlo.py
@@ -788,7 +788,8 @@ class MarginalisedMarkovChainMonteCarlo(BaseAlgorithm):
         self.xi = self.x0
         self.xi_1 = self.x0
         self._tried = -1  # As this will always be accepted as initial sample
-        self.ln_likelihood_xi = 0
+        # Set ln_likelihood so accepted
+        self.ln_likelihood_xi = -np.inf
         self.scale_factor_i = False
         gc.collect()
         return self.convert_sample(self.xi_1), False
-- 
2.43.0


From 089c380698e667dfdfdaa22ff175b5f11b1bdd97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:04 +0000
Subject: [PATCH 41/98] fix: every tried proposal of a multiple-try chain is
 recorded

---
 .../algorithms/markov_chain_monte_carlo.py    | 44 +++++++++++--------
 1 file changed, 25 insertions(+), 19 deletions(-)

diff --git a/src/MTfit/algorithms/markov_chain_monte_carlo.py b/src/MTfit/algorithms/markov_chain_monte_carlo.py
index 501aed2..458a928 100644
--- a/src/MTfit/algorithms/markov_chain_monte_carlo.py
+++ b/src/MTfit/algorithms/markov_chain_monte_carlo.py
@@ -593,6 +593,24 @@ class MarginalisedMarkovChainMonteCarlo(BaseAlgorithm):
             self.pdf_sample.append(self.convert_sample(xi_1), ln_pi_1, 1, scale_factori_1)
             self._tried += 1
 
+    def _check_first_sample(self):
+        """Start the main chain (hold the state) if the first chain sample has just been added"""
+        if not self.learning_check() and self._tried == 0:
+            # Check and modify transition PDF parameters if within 25%
+            # of the acceptance_rate_window
+            if len(self._learning_accepted[-self.acceptance_rate_window:]) > 0.75*self.acceptance_rate_window:
+                self._learning_accepted = self._learning_accepted[
+                    -self.acceptance_rate_window:]
+                self._modify_acceptance_rate()
+                logger.info('Learning complete - this learning iteration: {} accepted and {} tried - acceptance rate: {:.6f}'.format(sum(self._learning_accepted), len(self._learning_accepted), self.acceptance_rate()))
+            # Print out initialisation completion
+            t1 = time.time()
+            logger.info("\nLearning elapsed time: {}".format(t1-self.t0))
+            logger.info("\n\nStarting main inversion\n---------")
+            self.t0 = t1
+            # Add sample (added to saved chain)
+            self._add_new(self.xi, self.ln_likelihood_xi, self.scale_factor_i)
+
     def iterate(self, result):
         """
         Iterate from result
@@ -715,16 +733,20 @@ class MarginalisedMarkovChainMonteCarlo(BaseAlgorithm):
                 # returns dict not array/list of arrays
                 if (self.number_events == 1 and len(xi_1)) or (self.number_events > 1 and all([len(u) for u in xi_1]) and len(xi_1)):
                     # Handling for multiple tries (agnostic)
-                    for i in range(tried-1):
+                    for i in range(tried):
                         # Add old samples for tried but not accepted samples
                         self._add_old(i)
+                        self._check_first_sample()
                     self._add_new(xi_1, ln_pi_1, scale_factor_i)
+                    self._check_first_sample()
                 else:
                     # Handling for multiple tries (agnostic)
                     for i in range(tried-1):
                         # Add old samples for tried but not accepted samples
                         self._add_old(i)
+                        self._check_first_sample()
                     self._add_old()  # Add old sample as non-accepted
+                    self._check_first_sample()
             # Check if need to do learning transition PDF update
             if self.learning_check() and len(self._learning_accepted) >= self.acceptance_rate_window:
                 self._modify_acceptance_rate()
@@ -736,24 +758,8 @@ class MarginalisedMarkovChainMonteCarlo(BaseAlgorithm):
                     self.tx = time.time()
                 self._learning_accepted = []
             # Not in learning
-            if not self.learning_check():
-                if self._tried == 0:  # First sample
-                    # Check and modify transition PDF parameters if within 25%
-                    # of the acceptance_rate_window
-                    if len(self._learning_accepted[-self.acceptance_rate_window:]) > 0.75*self.acceptance_rate_window:
-                        self._learning_accepted = self._learning_accepted[
-                            -self.acceptance_rate_window:]
-                        self._modify_acceptance_rate()
-                        logger.info('Learning complete - this learning iteration: {} accepted and {} tried - acceptance rate: {:.6f}'.format(sum(self._learning_accepted), len(self._learning_accepted), self.acceptance_rate()))
-                    # Print out initialisation completion
-                    t1 = time.time()
-                    logger.info("\nLearning elapsed time: {}".format(t1-self.t0))
-                    logger.info("\n\nStarting main inversion\n---------")
-                    self.t0 = t1
-                    # Add sample (added to saved chain)
-                    self._add_new(self.xi, self.ln_likelihood_xi, self.scale_factor_i)
-                elif not self._tried % 100:
-                    logger.info('{} samples tried: {} samples accepted'.format(self._tried, self._accepted))
+            if not self.learning_check() and self._tried and not self._tried % 100:
+                logger.info('{} samples tried: {} samples accepted'.format(self._tried, self._accepted))
             gc.collect()
             return self.new_sample(), False
         # Error handling
-- 
2.43.0


From f543aa43083788ffabe334e3e40726331e0eacd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:04 +0000
Subject: [PATCH 42/98] fix: an accepted multiple-try sample with a ln
 likelihood of zero is accepted

---
 src/MTfit/algorithms/markov_chain_monte_carlo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MTfit/algorithms/markov_chain_monte_carlo.py b/src/MTfit/algorithms/markov_chain_monte_carlo.py
index 458a928..71358b9 100644
--- a/src/MTfit/algorithms/markov_chain_monte_carlo.py
+++ b/src/MTfit/algorithms/markov_chain_monte_carlo.py
@@ -1644,7 +1644,7 @@ class IterativeMultipleTryMetropolisHastingsGaussianTape(IterativeMetropolisHast
                 # Get acceptance result
                 oxi_1, oln_pi_1, a, b = super(IterativeMultipleTryMetropolisHastingsGaussianTape, self)._acceptance_check(_xi_1, np.asarray(ln_pi_1).flatten()[u],
                                                                                                                           False, dc_prior=getattr(self, 'dc_prior', False))
-                if oln_pi_1:
+                if len(oxi_1) and not isinstance(oln_pi_1, bool):
                     # If accepted sample, try to get the sacale_factor
                     if not isinstance(scale_factori_1, bool):
                         oscale_factori_1 = scale_factori_1[u]
-- 
2.43.0


From 8f9980df67a6eaf356faf89d234c3420b163d36e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:04 +0000
Subject: [PATCH 43/98] fix: the transition density is not zero for a state
 reached by a model jump

---
 src/MTfit/algorithms/markov_chain_monte_carlo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MTfit/algorithms/markov_chain_monte_carlo.py b/src/MTfit/algorithms/markov_chain_monte_carlo.py
index 71358b9..a6ee297 100644
--- a/src/MTfit/algorithms/markov_chain_monte_carlo.py
+++ b/src/MTfit/algorithms/markov_chain_monte_carlo.py
@@ -968,7 +968,7 @@ class MarginalisedMetropolisHastingsGaussianTape(MarginalisedMetropolisHastings)
         """
         # Gaussian makes transition PDF symmetrical but some parameters can be
         # truncated parameters (gamma,delta,h,sigma)
-        if len(x) == len(x1) and len(x) > 0:
+        if len(x) > 0 and len(x1) > 0:
             if dc is None:
                 dc = self.dc
             if basic_cdc is None:
-- 
2.43.0


From 98a047394146d4e19e9b6417c775fd58dfe052c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:04 +0000
Subject: [PATCH 44/98] fix: single-try trans-dimensional chains use the
 configured double-couple prior

---
 src/MTfit/algorithms/markov_chain_monte_carlo.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/MTfit/algorithms/markov_chain_monte_carlo.py b/src/MTfit/algorithms/markov_chain_monte_carlo.py
index a6ee297..6075802 100644
--- a/src/MTfit/algorithms/markov_chain_monte_carlo.py
+++ b/src/MTfit/algorithms/markov_chain_monte_carlo.py
@@ -503,8 +503,10 @@ class MarginalisedMarkovChainMonteCarlo(BaseAlgorithm):
         """
         return 0
 
-    def _acceptance_check(self, xi_1, ln_pi_1, scale_factori_1, dc_prior=0.5):
+    def _acceptance_check(self, xi_1, ln_pi_1, scale_factori_1, dc_prior=None):
         """Calculate acceptance"""
+        if dc_prior is None:
+            dc_prior = getattr(self, 'dc_prior', 0.5)
         if np.random.rand() <= self.acceptance(xi_1, ln_pi_1, dc_prior):
             return xi_1, ln_pi_1, scale_factori_1, 0
         else:
-- 
2.43.0


From 71224401e33001ea24f05b6474fa786f142ef54b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:04 +0000
Subject: [PATCH 45/98] fix: a proposal with an acceptance of zero is never
 accepted

---
 src/MTfit/algorithms/markov_chain_monte_carlo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MTfit/algorithms/markov_chain_monte_carlo.py b/src/MTfit/algorithms/markov_chain_monte_carlo.py
index 6075802..e89e357 100644
--- a/src/MTfit/algorithms/markov_chain_monte_carlo.py
+++ b/src/MTfit/algorithms/markov_chain_monte_carlo.py
@@ -507,7 +507,7 @@ class MarginalisedMarkovChainMonteCarlo(BaseAlgorithm):
         """Calculate acceptance"""
         if dc_prior is None:
             dc_prior = getattr(self, 'dc_prior', 0.5)
-        if np.random.rand() <= self.acceptance(xi_1, ln_pi_1, dc_prior):
+        if np.random.rand() < self.acceptance(xi_1, ln_pi_1, dc_prior):
             return xi_1, ln_pi_1, scale_factori_1, 0
         else:
             return {}, False, False, 0
-- 
2.43.0


From a37c580271267aa8d405fcb7f7db18170f0206bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:04 +0000
Subject: [PATCH 46/98] fix: the balancing density of a model jump is
 normalised as it is drawn

---
 src/MTfit/algorithms/markov_chain_monte_carlo.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/MTfit/algorithms/markov_chain_monte_carlo.py b/src/MTfit/algorithms/markov_chain_monte_carlo.py
index e89e357..aeef9bb 100644
--- a/src/MTfit/algorithms/markov_chain_monte_carlo.py
+++ b/src/MTfit/algorithms/markov_chain_monte_carlo.py
@@ -1300,9 +1300,8 @@ class IterativeTransDMetropolisHastingsGaussianTape(IterativeMetropolisHastingsG
         # Set DC model prior
         self.dc_prior = kwargs.get('dc_prior', .5)
         # Calculate balance vector proposal normalisation
-        d = np.linspace(-np.pi/2, np.pi/2, 10000)
-        pn = sum(np.cos(d)*gaussian_pdf(d, 0, kwargs.get('dc_sigma_d', .2)) *
-                 np.mean(np.diff(d)))*(1-2*gaussian_cdf(-np.pi/6, 0, kwargs.get('dc_sigma_g', .2)))
+        # (the draw is from Gaussians in gamma and delta, truncated at the lune bounds)
+        pn = (1-2*gaussian_cdf(-np.pi/2, 0, kwargs.get('dc_sigma_d', .2)))*(1-2*gaussian_cdf(-np.pi/6, 0, kwargs.get('dc_sigma_g', .2)))
         # Add proposal normalisation to alpha
         if self.number_events > 1:
             for alpha in self.alpha:
-- 
2.43.0


From 642796081a9eba29f2fa625b9963b945c8d05f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:05 +0000
Subject: [PATCH 47/98] fix: the widths of the dimension-balancing draw are
 kept on adaptation

---
 src/MTfit/algorithms/markov_chain_monte_carlo.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/MTfit/algorithms/markov_chain_monte_carlo.py b/src/MTfit/algorithms/markov_chain_monte_carlo.py
index aeef9bb..c53cc2f 100644
--- a/src/MTfit/algorithms/markov_chain_monte_carlo.py
+++ b/src/MTfit/algorithms/markov_chain_monte_carlo.py
@@ -448,7 +448,10 @@ class MarginalisedMarkovChainMonteCarlo(BaseAlgorithm):
         if isinstance(alpha, dict):
             newAlpha = {}
             for key in alpha.keys():
-                if key not in ['gamma_dc', 'delta_dc', 'proposal_normalisation']:
+                if key in ['gamma_dc', 'delta_dc', 'proposal_normalisation']:
+                    # Balancing parameter widths are not adapted
+                    newAlpha[key] = alpha[key]
+                else:
                     newAlpha[key] = alpha[key]*ratio
                     if newAlpha[key] > self.max_alpha[key]:
                         newAlpha[key] = alpha[key]
-- 
2.43.0


From 9f9a83f14f7f8012bbbe9dc385bd8f1496deeb95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:09 +0000
Subject: [PATCH 48/98] fix: the double-couple model fraction is a fraction of
 the chain

---
 src/MTfit/algorithms/markov_chain_monte_carlo.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/MTfit/algorithms/markov_chain_monte_carlo.py b/src/MTfit/algorithms/markov_chain_monte_carlo.py
index c53cc2f..4192cb4 100644
--- a/src/MTfit/algorithms/markov_chain_monte_carlo.py
+++ b/src/MTfit/algorithms/markov_chain_monte_carlo.py
@@ -1450,11 +1450,11 @@ class IterativeTransDMetropolisHastingsGaussianTape(IterativeMetropolisHastingsG
         MTs, end = super(IterativeTransDMetropolisHastingsGaussianTape, self).iterate(*args, **kwargs)
         # Print pDC output
         if end:
-            if isinstance(self.p_dc, float):
-                logging.info('Probability of dc: {:.6f}'.format(float(self.p_dc)/float(len(self.pdf_sample.ln_pdf))))
-            elif isinstance(self.p_dc, list):
+            if isinstance(self.p_dc, list):
                 for i, pdc in enumerate(self.p_dc):
-                    logging.info('Event - {} Probability of dc: {:.6f}'.format(i, float(pdc)/float(len(self.pdf_sample.ln_pdf))))
+                    logging.info('Event - {} Probability of dc: {:.6f}'.format(i, float(pdc)/max(self.pdf_sample.n, 1)))
+            else:
+                logging.info('Probability of dc: {:.6f}'.format(float(self.p_dc)/max(self.pdf_sample.n, 1)))
         if self.jump:
             # check current sample
             self.dc = (self.xi['gamma'] == 0.0 and self.xi['delta'] == 0.0)
@@ -1467,7 +1467,12 @@ class IterativeTransDMetropolisHastingsGaussianTape(IterativeMetropolisHastingsG
         Return output dict including pDC value
         """
         output, output_string = super(IterativeTransDMetropolisHastingsGaussianTape, self).output(*args, **kwargs)
-        output['pDC'] = self.p_dc
+        # Fraction of the chain samples that are double-couple
+        number_samples = float(max(self.pdf_sample.n, 1))
+        if isinstance(self.p_dc, list):
+            output['pDC'] = [p_dc/number_samples for p_dc in self.p_dc]
+        else:
+            output['pDC'] = self.p_dc/number_samples
         return output, output_string
 
 
-- 
2.43.0


From 92ae294a89fb57b68dc9942956e4d8afb47439a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:09 +0000
Subject: [PATCH 49/98] fix: the proposal widths stay positive on adaptation

---
 src/MTfit/algorithms/markov_chain_monte_carlo.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/MTfit/algorithms/markov_chain_monte_carlo.py b/src/MTfit/algorithms/markov_chain_monte_carlo.py
index 4192cb4..3d7a023 100644
--- a/src/MTfit/algorithms/markov_chain_monte_carlo.py
+++ b/src/MTfit/algorithms/markov_chain_monte_carlo.py
@@ -136,6 +136,10 @@ class DataError(ValueError):
     pass
 
 
+# Smallest transition PDF width from the acceptance rate adaptation
+_MIN_ALPHA = 1e-10
+
+
 class McMCAlgorithmCreator(object):
 
     """
@@ -388,7 +392,8 @@ class MarginalisedMarkovChainMonteCarlo(BaseAlgorithm):
                 ratio = np.sqrt(self._old_ratio)
                 self._old_ratio = ratio
             except Exception:
-                ratio = 0
+                # No alpha to revert to
+                ratio = rate/self.max_acceptance_rate
         elif not rate:
             # revert to old alpha and change ratio
             try:
@@ -399,7 +404,8 @@ class MarginalisedMarkovChainMonteCarlo(BaseAlgorithm):
                 ratio = self._old_ratio*self._old_ratio
                 self._old_ratio = ratio
             except Exception:
-                ratio = 0
+                # No alpha to revert to, so smallest change
+                ratio = 0.1
         return ratio
 
     def output(self, *args, **kwargs):
@@ -452,7 +458,8 @@ class MarginalisedMarkovChainMonteCarlo(BaseAlgorithm):
                     # Balancing parameter widths are not adapted
                     newAlpha[key] = alpha[key]
                 else:
-                    newAlpha[key] = alpha[key]*ratio
+                    # Keep widths positive
+                    newAlpha[key] = max(alpha[key]*ratio, min(alpha[key], _MIN_ALPHA))
                     if newAlpha[key] > self.max_alpha[key]:
                         newAlpha[key] = alpha[key]
         elif isinstance(alpha, list):
@@ -460,7 +467,7 @@ class MarginalisedMarkovChainMonteCarlo(BaseAlgorithm):
             for i, alph in enumerate(alpha):
                 newAlpha.append(self._modify_alpha(alph, ratio))
         else:
-            newAlpha = alpha*ratio
+            newAlpha = max(alpha*ratio, min(alpha, _MIN_ALPHA))
             if newAlpha > self.max_alpha:
                 newAlpha = alpha
         return newAlpha
-- 
2.43.0


From e81fe624ffc87b7e926b80745a0d3650991b086d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:09 +0000
Subject: [PATCH 50/98] fix: a double-couple-constrained chain stays in the
 double-couple model after grid initialisation

---
 src/MTfit/algorithms/markov_chain_monte_carlo.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/MTfit/algorithms/markov_chain_monte_carlo.py b/src/MTfit/algorithms/markov_chain_monte_carlo.py
index 3d7a023..fde6706 100644
--- a/src/MTfit/algorithms/markov_chain_monte_carlo.py
+++ b/src/MTfit/algorithms/markov_chain_monte_carlo.py
@@ -283,7 +283,7 @@ class MarginalisedMarkovChainMonteCarlo(BaseAlgorithm):
         # Handle initial sampling - either random sampling or single
         # sampling/initial sample.
         if kwargs.get('initial_sample', '').lower() == 'grid':
-            self._initialiser = IterationSample(number_samples=kwargs.get('number_samples', 10000))
+            self._initialiser = IterationSample(number_samples=kwargs.get('number_samples', 10000), dc=self.dc)
             self._initialising = False
             self.x0 = None
             self._number_initialisation_samples = 0
@@ -307,6 +307,8 @@ class MarginalisedMarkovChainMonteCarlo(BaseAlgorithm):
         self._init_max_mt = False
         self.p_dc = 0
         self.jump = False
+        # Chain constrained to the double-couple model
+        self._dc_constrained = self.dc
         # Debug flag - adds learning samples and learning results etc to output
         # (large data size)
         if self._debug:
@@ -591,7 +593,7 @@ class MarginalisedMarkovChainMonteCarlo(BaseAlgorithm):
                         self.p_dc[i] += 1
                     self.dc[i] = True
                 else:
-                    self.dc[i] = False
+                    self.dc[i] = self._dc_constrained
         # TODO handle warning about element wise comparison - sometimes output is a single element array
         # need to tidy output/array passing
         elif 'gamma' in self.xi and self.xi['gamma'] == 0 and self.xi['delta'] == 0:
@@ -599,7 +601,7 @@ class MarginalisedMarkovChainMonteCarlo(BaseAlgorithm):
                 self.p_dc += 1
             self.dc = True
         else:
-            self.dc = False
+            self.dc = self._dc_constrained
         self.scale_factor_i = scale_factori_1
         if not self.learning_check():
             self.pdf_sample.append(self.convert_sample(xi_1), ln_pi_1, 1, scale_factori_1)
@@ -704,6 +706,12 @@ class MarginalisedMarkovChainMonteCarlo(BaseAlgorithm):
                     #
                     # Convert initial sample
                     self.x0 = self.convert_sample(self._init_max_mt)
+                    if self._dc_constrained:
+                        # Remove the rounding from the conversion
+                        for x0 in (self.x0 if isinstance(self.x0, list) else [self.x0]):
+                            if isinstance(x0, dict):
+                                x0['gamma'] = 0.0
+                                x0['delta'] = 0.0
                     # Initialise samples
                     self.xi = self.x0
                     self.xi_1 = self.x0
@@ -1295,6 +1303,8 @@ class IterativeTransDMetropolisHastingsGaussianTape(IterativeMetropolisHastingsG
 
         """
         super(IterativeTransDMetropolisHastingsGaussianTape, self).__init__(*args, **kwargs)
+        # Chain moves between the models
+        self._dc_constrained = False
         # Update alpha with dc balance vector parameters
         if self.number_events > 1:
             for alpha in self.alpha:
-- 
2.43.0


From 8b459becd8735afb499ce4a2c78801c4adbcc35a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:09 +0000
Subject: [PATCH 51/98] fix: the grid initialisation uses the best of all its
 samples

---
 .../algorithms/markov_chain_monte_carlo.py    | 41 +++++++------------
 1 file changed, 14 insertions(+), 27 deletions(-)

diff --git a/src/MTfit/algorithms/markov_chain_monte_carlo.py b/src/MTfit/algorithms/markov_chain_monte_carlo.py
index fde6706..a256238 100644
--- a/src/MTfit/algorithms/markov_chain_monte_carlo.py
+++ b/src/MTfit/algorithms/markov_chain_monte_carlo.py
@@ -638,11 +638,6 @@ class MarginalisedMarkovChainMonteCarlo(BaseAlgorithm):
         try:
             # Check if in initialisation stage
             if self._initialising:
-                # Check number samples with max prob.
-                if self._initialiser and self.number_events > 1:
-                    maximum_initialisation_probability = all([u > -np.inf for u in self._max_initialisation_probability])
-                else:
-                    maximum_initialisation_probability = self._max_initialisation_probability > -np.inf
                 # Multiple events
                 if self.number_events > 1 and self._initialiser:
                     for i, individual_result in enumerate(result):
@@ -651,15 +646,11 @@ class MarginalisedMarkovChainMonteCarlo(BaseAlgorithm):
                             ln_pdf = LnPDF(ln_pdf)
                         if len(ln_pdf.nonzero()):
                             self._init_nonzero[i] += len(ln_pdf.nonzero())
-                            # Check if number of initialisation samples<desired
-                            # number or if there are no non-zero probability
-                            # samples
-                            if self._number_initialisation_samples < self._min_number_initialisation_samples or not maximum_initialisation_probability:
-                                # Update max_prob/mt combinations for each
-                                # event
-                                if float(ln_pdf[0, ln_pdf.argmax(-1)]) > self._max_initialisation_probability[i]:
-                                    self._max_initialisation_probability[i] = float(ln_pdf[0, ln_pdf.argmax(-1)])
-                                    self._init_max_mt[i] = individual_result['moment_tensors'][:, ln_pdf.argmax(-1)[0]]
+                            # Update max_prob/mt combinations for each
+                            # event
+                            if float(ln_pdf[0, ln_pdf.argmax(-1)]) > self._max_initialisation_probability[i]:
+                                self._max_initialisation_probability[i] = float(ln_pdf[0, ln_pdf.argmax(-1)])
+                                self._init_max_mt[i] = individual_result['moment_tensors'][:, ln_pdf.argmax(-1)[0]]
                 # Single event or full joint PDF initialisation
                 else:
                     ln_pdf = result['ln_pdf']
@@ -667,19 +658,15 @@ class MarginalisedMarkovChainMonteCarlo(BaseAlgorithm):
                         ln_pdf = LnPDF(ln_pdf)
                     if len(ln_pdf.nonzero()):
                         self._init_nonzero += len(ln_pdf.nonzero())
-                        # Check if number of initialisation samples<desired
-                        # number or if there are no non-zero probability
-                        # samples
-                        if self._number_initialisation_samples < self._min_number_initialisation_samples or not maximum_initialisation_probability:
-                            if float(ln_pdf[0, ln_pdf.argmax(-1)]) > self._max_initialisation_probability:
-                                # Update max_prob/mt combinations for the event
-                                self._max_initialisation_probability = float(ln_pdf[0, ln_pdf.argmax(-1)])
-                                if isinstance(result['moment_tensors'], list):
-                                    self._init_max_mt = []
-                                    for mt in result['moment_tensors']:
-                                        self._init_max_mt.append(mt[:, ln_pdf.argmax(-1)[0]])
-                                else:
-                                    self._init_max_mt = result['moment_tensors'][:, ln_pdf.argmax(-1)[0]]
+                        if float(ln_pdf[0, ln_pdf.argmax(-1)]) > self._max_initialisation_probability:
+                            # Update max_prob/mt combinations for the event
+                            self._max_initialisation_probability = float(ln_pdf[0, ln_pdf.argmax(-1)])
+                            if isinstance(result['moment_tensors'], list):
+                                self._init_max_mt = []
+                                for mt in result['moment_tensors']:
+                                    self._init_max_mt.append(mt[:, ln_pdf.argmax(-1)[0]])
+                            else:
+                                self._init_max_mt = result['moment_tensors'][:, ln_pdf.argmax(-1)[0]]
                 # Do quality check and chek if init_max p>0
                 if self._initialiser and self.number_events > 1:
                     maximum_initialisation_probability = all([u > -np.inf for u in self._max_initialisation_probability])
-- 
2.43.0


From 4ffed579d617419a2da33ff20561136a8d21f333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:09 +0000
Subject: [PATCH 52/98] fix: each event of a joint chain is proposed in its own
 model

---
 src/MTfit/algorithms/markov_chain_monte_carlo.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/MTfit/algorithms/markov_chain_monte_carlo.py b/src/MTfit/algorithms/markov_chain_monte_carlo.py
index a256238..f406b56 100644
--- a/src/MTfit/algorithms/markov_chain_monte_carlo.py
+++ b/src/MTfit/algorithms/markov_chain_monte_carlo.py
@@ -1108,15 +1108,22 @@ class MarginalisedMetropolisHastingsGaussianTape(MarginalisedMetropolisHastings)
             if not isinstance(all_x, list):
                 raise TypeError('Expect self.xi to be list not {}\n self.xi = {}'.format(type(self.xi), self.xi))
             all_alpha = self.alpha
+            all_dc = self.dc
+            jump = False
             x = []
             if not isinstance(all_x[0], dict):
                 all_x = self.convert_sample(all_x)
             for i, xi in enumerate(all_x):
                 self.xi = xi
                 self.alpha = all_alpha[i]
+                if isinstance(all_dc, list):
+                    self.dc = all_dc[i]
                 x.append(self._new_sample_single(*args, **kwargs))
+                jump = jump or self.jump
             self.xi = all_x
             self.alpha = all_alpha
+            self.dc = all_dc
+            self.jump = jump
         else:
             x = self._new_sample_single(*args, **kwargs)
         self.xi_1 = x
-- 
2.43.0


From d5afc3649e29b6d4955101193aa3ee80d0378b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:09 +0000
Subject: [PATCH 53/98] fix: the joint trans-dimensional acceptance is the
 product over events

---
 .../algorithms/markov_chain_monte_carlo.py    | 69 ++++++++++++++-----
 1 file changed, 50 insertions(+), 19 deletions(-)

diff --git a/src/MTfit/algorithms/markov_chain_monte_carlo.py b/src/MTfit/algorithms/markov_chain_monte_carlo.py
index f406b56..0cab10c 100644
--- a/src/MTfit/algorithms/markov_chain_monte_carlo.py
+++ b/src/MTfit/algorithms/markov_chain_monte_carlo.py
@@ -862,6 +862,10 @@ class MarginalisedMetropolisHastings(MarginalisedMarkovChainMonteCarlo):
 
     """
 
+    def _event_jump_ratio(self, x, xi, i, *args):
+        """Acceptance ratio (without likelihoods) for a model jump of event i in a joint sample, None if it is not a jump"""
+        return None
+
     def acceptance(self, x, ln_likelihood_x, *args):
         """
         Calculates acceptance
@@ -883,11 +887,17 @@ class MarginalisedMetropolisHastings(MarginalisedMarkovChainMonteCarlo):
         if ln_likelihood_x == -np.inf:
             return 0
         if self.number_events > 1:
+            if self.ln_likelihood_xi == -np.inf:
+                # acceptance denominator is 0
+                return 1
             alpha = self.alpha[:]
             acc = 1
             for i in range(self.number_events):
                 self.alpha = alpha[i]
-                if self.transition_pdf(x[i], self.xi[i], self.dc[i]) > 0 and self.prior(self.xi[i], self.dc[i]) > 0:
+                jump_ratio = self._event_jump_ratio(x[i], self.xi[i], i, *args)
+                if jump_ratio is not None:
+                    acc *= jump_ratio
+                elif self.transition_pdf(x[i], self.xi[i], self.dc[i]) > 0 and self.prior(self.xi[i], self.dc[i]) > 0:
                     _numerator = self.transition_pdf(self.xi[i], x[i], self.dc[i])*self.prior(x[i], self.dc[i])
                     _denominator = self.transition_pdf(x[i], self.xi[i], self.dc[i])*self.prior(self.xi[i], self.dc[i])
                     acc *= _numerator/_denominator
@@ -1410,6 +1420,38 @@ class IterativeTransDMetropolisHastingsGaussianTape(IterativeMetropolisHastingsG
                 delta = (np.random.rand()*2-1)*np.pi/2
             return gamma, delta
 
+    def _jump_ratio(self, x, xi, dc_prior):
+        """
+        Acceptance ratio for a jump between the models, without the likelihoods
+
+        Args
+            x: Proposed model values
+            xi: Current model values
+            dc_prior: Prior probability for the DC model
+
+        Returns
+            float: acceptance ratio
+        """
+        if self.is_dc(xi):
+            # dc to mt jump
+            xp = copy.copy(xi)
+            xp.pop('gamma')
+            xp.pop('delta')
+            # N.B> self.jump_params(x) called as x contains gamma delta generated using jump Params
+            return (self.prior(x)/(self.jump_params(x)*self.prior(xp)))*(1-dc_prior)/dc_prior
+        # mt to dc jump
+        xp = copy.copy(x)
+        xp.pop('gamma')
+        xp.pop('delta')
+        # N.B> self.jump_params(xi) called as xi contains gamma delta generated using jump Params
+        return (self.jump_params(xi)*self.prior(xp))/(self.prior(xi))*dc_prior/(1-dc_prior)
+
+    def _event_jump_ratio(self, x, xi, i, dc_prior=0.5):
+        """Acceptance ratio (without likelihoods) for a model jump of event i in a joint sample, None if it is not a jump"""
+        if self.is_dc(x) == self.is_dc(xi):
+            return None
+        return self._jump_ratio(x, xi, dc_prior if np.isscalar(dc_prior) else dc_prior[min(i, len(dc_prior)-1)])
+
     def acceptance(self, x, ln_likelihoodx, dc_prior=0.5):
         """
         Calculates acceptance
@@ -1425,28 +1467,17 @@ class IterativeTransDMetropolisHastingsGaussianTape(IterativeMetropolisHastingsG
         """
         if isinstance(self.ln_likelihood_xi, np.ndarray):
             self.ln_likelihood_xi = float(self.ln_likelihood_xi)
+        # Multiple events
+        if self.number_events > 1:
+            return super(IterativeTransDMetropolisHastingsGaussianTape, self).acceptance(x, ln_likelihoodx, dc_prior)
         # Handle jump parameters
         if self.jump and (self.ln_likelihood_xi > -np.inf):
             # No jump - may have been accidentally picked up
             if self.xi['gamma'] == x['gamma'] and self.xi['delta'] == x['delta']:
                 return super(IterativeTransDMetropolisHastingsGaussianTape, self).acceptance(x, ln_likelihoodx)
-            # dc to mt jump
-            elif self.xi['gamma'] == 0.0 and self.xi['delta'] == 0.0:
-                xi = copy.copy(self.xi)
-                xi.pop('gamma')
-                xi.pop('delta')
-                model_prior_ratio = (1-dc_prior)/dc_prior
-                # LnLikelihoods    N.B> self.jump_params(x) called as x
-                # contains gamma delta generated using jump Params
-                return min(1, (self.prior(x)/(self.jump_params(x)*self.prior(xi)))*model_prior_ratio*np.exp(ln_likelihoodx-self.ln_likelihood_xi))
-            elif x['gamma'] == 0.0 and x['delta'] == 0.0:  # mt to dc jump
-                xp = copy.copy(x)
-                xp.pop('gamma')
-                xp.pop('delta')
-                model_prior_ratio = dc_prior/(1-dc_prior)
-                # LnLikelihoods    N.B> self.jump_params(self.xi) called as
-                # self.xi contains gamma delta generated using jump Params
-                return min(1, (self.jump_params(self.xi)*self.prior(xp))/(self.prior(self.xi))*model_prior_ratio*np.exp(ln_likelihoodx-self.ln_likelihood_xi))
+            # dc to mt or mt to dc jump
+            elif self.is_dc(self.xi) or self.is_dc(x):
+                return min(1, self._jump_ratio(x, self.xi, dc_prior)*np.exp(ln_likelihoodx-self.ln_likelihood_xi))
             else:  # no jump may have been accidentally picked up
                 return super(IterativeTransDMetropolisHastingsGaussianTape, self).acceptance(x, ln_likelihoodx)
         else:
@@ -1466,7 +1497,7 @@ class IterativeTransDMetropolisHastingsGaussianTape(IterativeMetropolisHastingsG
                     logging.info('Event - {} Probability of dc: {:.6f}'.format(i, float(pdc)/max(self.pdf_sample.n, 1)))
             else:
                 logging.info('Probability of dc: {:.6f}'.format(float(self.p_dc)/max(self.pdf_sample.n, 1)))
-        if self.jump:
+        if self.jump and self.number_events == 1:
             # check current sample
             self.dc = (self.xi['gamma'] == 0.0 and self.xi['delta'] == 0.0)
         return MTs, end
-- 
2.43.0


From 77e8f1aa551805a8965e320e5598b5e7db0c3323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:58 +0000
Subject: [PATCH 54/98] fix: proposed strikes are wrapped into [0, 2pi)

---
 src/MTfit/algorithms/cmarkov_chain_monte_carlo.pyx | 4 +++-
 src/MTfit/algorithms/markov_chain_monte_carlo.py   | 2 ++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/MTfit/algorithms/cmarkov_chain_monte_carlo.pyx b/src/MTfit/algorithms/cmarkov_chain_monte_carlo.pyx
index 068ed51..12a9d6b 100644
--- a/src/MTfit/algorithms/cmarkov_chain_monte_carlo.pyx
+++ b/src/MTfit/algorithms/cmarkov_chain_monte_carlo.pyx
@@ -210,10 +210,12 @@ cdef DTYPE_t new_delta(DTYPE_t d0, DTYPE_t d_s):
 @cython.cdivision(True)
 cdef DTYPE_t new_kappa(DTYPE_t k0, DTYPE_t k_s):
     cdef DTYPE_t kn=k_s*np.random.randn(1)+k0
-    if fabs(kn)<PI2:
+    if fabs(kn)>=PI2:
         kn=fmod(kn,PI2)
     if kn<0.0:
         kn+=PI2
+    if kn>=PI2:
+        kn=0.0
     return kn
 
 @cython.boundscheck(False)
diff --git a/src/MTfit/algorithms/markov_chain_monte_carlo.py b/src/MTfit/algorithms/markov_chain_monte_carlo.py
index 0cab10c..ba535a5 100644
--- a/src/MTfit/algorithms/markov_chain_monte_carlo.py
+++ b/src/MTfit/algorithms/markov_chain_monte_carlo.py
@@ -1072,6 +1072,8 @@ class MarginalisedMetropolisHastingsGaussianTape(MarginalisedMetropolisHastings)
             x['delta'] = d
         # since strike 2*pi=strike 0 wrap round
         x['kappa'] = np.mod(self.alpha['kappa']*np.random.randn(1)+self.xi['kappa'], 2*np.pi)
+        # mod rounds up to 2*pi for tiny negative values
+        x['kappa'] = np.where(x['kappa'] < 2*np.pi, x['kappa'], 0.)
         h = self.alpha['h']*np.random.randn(1)+self.xi['h']
         while h > 1 or h < 0:
             # wrap h round and change strike by pi
-- 
2.43.0


From 13f599404c5571c062836818a0d0b750612694dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:58 +0000
Subject: [PATCH 55/98] fix: a jump to or from a source with only one non-zero
 lune parameter is a jump

---
 src/MTfit/algorithms/cmarkov_chain_monte_carlo.pyx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/MTfit/algorithms/cmarkov_chain_monte_carlo.pyx b/src/MTfit/algorithms/cmarkov_chain_monte_carlo.pyx
index 12a9d6b..cf5ebde 100644
--- a/src/MTfit/algorithms/cmarkov_chain_monte_carlo.pyx
+++ b/src/MTfit/algorithms/cmarkov_chain_monte_carlo.pyx
@@ -275,7 +275,7 @@ cdef int c_acceptance_check(transition_ratio_ptr transition_ratio_fn,prior_ratio
     cdef DTYPE_t acc=0
     for u in range(umax):
         jump=0
-        if ((g0==0.0 and d0==0.0) or (gamma[u]==0.0 and delta[u]==0.0)) and  not gamma[u]==g0 and not delta[u]==d0 and h0==h[u] and s0==sigma[u] and k0==kappa[u]:
+        if ((g0==0.0 and d0==0.0) != (gamma[u]==0.0 and delta[u]==0.0)) and h0==h[u] and s0==sigma[u] and k0==kappa[u]:
             jump=1
         if ln_p[u]==-inf:
             continue
@@ -299,7 +299,7 @@ cdef int c_me_acceptance_check(transition_ratio_ptr transition_ratio_fn,prior_ra
             continue
         for v in range(nevents):
             jump=0
-            if ((g0[v]==0.0 and d0[v]==0.0) or (gamma[u,v]==0.0 and delta[u,v]==0.0)) and  not gamma[u,v]==g0[v] and not delta[u,v]==d0[v] and h0[v]==h[u,v] and s0[v]==sigma[u,v] and k0[v]==kappa[u,v]:#Check for jump
+            if ((g0[v]==0.0 and d0[v]==0.0) != (gamma[u,v]==0.0 and delta[u,v]==0.0)) and h0[v]==h[u,v] and s0[v]==sigma[u,v] and k0[v]==kappa[u,v]:#Check for jump
                 jump=1
             acc*=acceptance(transition_ratio_fn,prior_ratio_fn,jump_params_fn,gamma[u,v], delta[u,v], h[u,v], sigma[u,v], g0[v], g_s[v], d0[v], d_s[v], h0[v], h_s[v], s0[v], s_s[v], 0,0,jump,qg[u,v],qd[u,v],sg[v],sd[v],proposal_normalisation[v],p_dc[v])
             if acc==0:
@@ -843,7 +843,7 @@ def _acceptance_test_fn(dict x, dict x0, dict alpha, DTYPE_t ln_p,DTYPE_t ln_p0,
     else:
         qd=x['delta'];
     cdef int jump=0
-    if ((x0['gamma']==0.0 and x0['delta']==0.0) or (x['gamma']==0.0 and x['delta']==0.0)) and  not x['gamma']==x0['gamma'] and not x['delta']==x0['delta'] and x0['h']==x['h'] and x0['sigma']==x['sigma'] and x0['kappa']==x['kappa']:
+    if ((x0['gamma']==0.0 and x0['delta']==0.0) != (x['gamma']==0.0 and x['delta']==0.0)) and x0['h']==x['h'] and x0['sigma']==x['sigma'] and x0['kappa']==x['kappa']:
         jump=1
     if ln_p==-inf:
         return 0
-- 
2.43.0


From a5e354c6ad5aaa0d57c64e3ef90e9a3d2c52f62a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:58 +0000
Subject: [PATCH 56/98] fix: the joint C acceptance is the product over events
 for each tried sample

---
 .../algorithms/cmarkov_chain_monte_carlo.pyx  | 38 ++++++++++++++-----
 1 file changed, 28 insertions(+), 10 deletions(-)

diff --git a/src/MTfit/algorithms/cmarkov_chain_monte_carlo.pyx b/src/MTfit/algorithms/cmarkov_chain_monte_carlo.pyx
index cf5ebde..98e5f63 100644
--- a/src/MTfit/algorithms/cmarkov_chain_monte_carlo.pyx
+++ b/src/MTfit/algorithms/cmarkov_chain_monte_carlo.pyx
@@ -75,6 +75,13 @@ IF UNAME_SYSNAME == "Windows":
     @cython.nonecheck(False)
     @cython.cdivision(True)
     cdef DTYPE_t acceptance(transition_ratio_ptr transition_ratio_fn,prior_ratio_ptr prior_ratio_fn,jump_params_ptr jump_params_fn,DTYPE_t gamma,DTYPE_t delta,DTYPE_t h,DTYPE_t sigma,DTYPE_t g0,DTYPE_t g_s,DTYPE_t d0,DTYPE_t d_s,DTYPE_t h0,DTYPE_t h_s,DTYPE_t s0,DTYPE_t s_s,DTYPE_t ln_p,DTYPE_t ln_p0,int jump,DTYPE_t qg,DTYPE_t qd,DTYPE_t sg,DTYPE_t sd,DTYPE_t proposal_normalisation,DTYPE_t p_dc) :
+        cdef DTYPE_t acc=acceptance_ratio(transition_ratio_fn,prior_ratio_fn,jump_params_fn,gamma,delta,h,sigma,g0,g_s,d0,d_s,h0,h_s,s0,s_s,ln_p,ln_p0,jump,qg,qd,sg,sd,proposal_normalisation,p_dc)
+        if acc<1:
+            return acc
+        return 1
+
+    #Acceptance without the upper limit of 1
+    cdef DTYPE_t acceptance_ratio(transition_ratio_ptr transition_ratio_fn,prior_ratio_ptr prior_ratio_fn,jump_params_ptr jump_params_fn,DTYPE_t gamma,DTYPE_t delta,DTYPE_t h,DTYPE_t sigma,DTYPE_t g0,DTYPE_t g_s,DTYPE_t d0,DTYPE_t d_s,DTYPE_t h0,DTYPE_t h_s,DTYPE_t s0,DTYPE_t s_s,DTYPE_t ln_p,DTYPE_t ln_p0,int jump,DTYPE_t qg,DTYPE_t qd,DTYPE_t sg,DTYPE_t sd,DTYPE_t proposal_normalisation,DTYPE_t p_dc) :
         cdef DTYPE_t acc
         if jump>0:
             if gamma==0.0 and delta==0.0:
@@ -87,9 +94,7 @@ IF UNAME_SYSNAME == "Windows":
                 acc=exp(ln_p-ln_p0)*prior_ratio_fn(gamma,delta,g0,d0)/jump_params_fn(qg,qd,sg,sd,proposal_normalisation)*model_prior_ratio            
         else:   
             acc=exp(ln_p-ln_p0)*transition_ratio_fn(gamma,delta,h,sigma,g0,g_s,d0,d_s,h0,h_s,s0,s_s)*prior_ratio_fn(gamma,delta,g0,d0)
-        if acc<1:
-            return acc
-        return 1
+        return acc
 ELSE:
     cdef DTYPE_t ND=tgamma(11.490)/(tgamma(5.745)*tgamma(5.745))*1.10452194071529090000
 
@@ -98,14 +103,22 @@ ELSE:
     @cython.nonecheck(False)
     @cython.cdivision(True)
     cdef DTYPE_t acceptance(transition_ratio_ptr transition_ratio_fn,prior_ratio_ptr prior_ratio_fn,jump_params_ptr jump_params_fn,DTYPE_t gamma,DTYPE_t delta,DTYPE_t h,DTYPE_t sigma,DTYPE_t g0,DTYPE_t g_s,DTYPE_t d0,DTYPE_t d_s,DTYPE_t h0,DTYPE_t h_s,DTYPE_t s0,DTYPE_t s_s,DTYPE_t ln_p,DTYPE_t ln_p0,int jump,DTYPE_t qg,DTYPE_t qd,DTYPE_t sg,DTYPE_t sd,DTYPE_t proposal_normalisation,DTYPE_t p_dc) :
+        return fmin(1,acceptance_ratio(transition_ratio_fn,prior_ratio_fn,jump_params_fn,gamma,delta,h,sigma,g0,g_s,d0,d_s,h0,h_s,s0,s_s,ln_p,ln_p0,jump,qg,qd,sg,sd,proposal_normalisation,p_dc))
+
+    #Acceptance without the upper limit of 1
+    @cython.boundscheck(False)
+    @cython.wraparound(False)
+    @cython.nonecheck(False)
+    @cython.cdivision(True)
+    cdef DTYPE_t acceptance_ratio(transition_ratio_ptr transition_ratio_fn,prior_ratio_ptr prior_ratio_fn,jump_params_ptr jump_params_fn,DTYPE_t gamma,DTYPE_t delta,DTYPE_t h,DTYPE_t sigma,DTYPE_t g0,DTYPE_t g_s,DTYPE_t d0,DTYPE_t d_s,DTYPE_t h0,DTYPE_t h_s,DTYPE_t s0,DTYPE_t s_s,DTYPE_t ln_p,DTYPE_t ln_p0,int jump,DTYPE_t qg,DTYPE_t qd,DTYPE_t sg,DTYPE_t sd,DTYPE_t proposal_normalisation,DTYPE_t p_dc) :
         if jump>0:
             if gamma==0.0 and delta==0.0:
                 model_prior_ratio=p_dc/(1-p_dc)
-                return fmin(1,exp(ln_p-ln_p0)*prior_ratio_fn(gamma,delta,g0,d0)*jump_params_fn(qg,qd,sg,sd, proposal_normalisation)*model_prior_ratio)
+                return exp(ln_p-ln_p0)*prior_ratio_fn(gamma,delta,g0,d0)*jump_params_fn(qg,qd,sg,sd, proposal_normalisation)*model_prior_ratio
             elif g0==0.0 and d0==0.0 :
                 model_prior_ratio=(1-p_dc)/p_dc
-                return fmin(1,exp(ln_p-ln_p0)*prior_ratio_fn(gamma,delta,g0,d0)/jump_params_fn(qg,qd,sg,sd,proposal_normalisation)*model_prior_ratio)
-        return fmin(1,exp(ln_p-ln_p0)*transition_ratio_fn(gamma,delta,h,sigma,g0,g_s,d0,d_s,h0,h_s,s0,s_s)*prior_ratio_fn(gamma,delta,g0,d0))
+                return exp(ln_p-ln_p0)*prior_ratio_fn(gamma,delta,g0,d0)/jump_params_fn(qg,qd,sg,sd,proposal_normalisation)*model_prior_ratio
+        return exp(ln_p-ln_p0)*transition_ratio_fn(gamma,delta,h,sigma,g0,g_s,d0,d_s,h0,h_s,s0,s_s)*prior_ratio_fn(gamma,delta,g0,d0)
 
 #Gaussian PDF
 @cython.boundscheck(False)
@@ -275,6 +288,8 @@ cdef int c_acceptance_check(transition_ratio_ptr transition_ratio_fn,prior_ratio
     cdef DTYPE_t acc=0
     for u in range(umax):
         jump=0
+        if ln_p0==-inf and ln_p[u]>-inf:#Always move from a zero likelihood sample
+            return <int>u
         if ((g0==0.0 and d0==0.0) != (gamma[u]==0.0 and delta[u]==0.0)) and h0==h[u] and s0==sigma[u] and k0==kappa[u]:
             jump=1
         if ln_p[u]==-inf:
@@ -297,11 +312,14 @@ cdef int c_me_acceptance_check(transition_ratio_ptr transition_ratio_fn,prior_ra
     for u in range(umax):
         if ln_p[u]==-inf:
             continue
+        if ln_p0==-inf:#Always move from a zero likelihood sample
+            return <int>u
+        acc=1
         for v in range(nevents):
             jump=0
             if ((g0[v]==0.0 and d0[v]==0.0) != (gamma[u,v]==0.0 and delta[u,v]==0.0)) and h0[v]==h[u,v] and s0[v]==sigma[u,v] and k0[v]==kappa[u,v]:#Check for jump
                 jump=1
-            acc*=acceptance(transition_ratio_fn,prior_ratio_fn,jump_params_fn,gamma[u,v], delta[u,v], h[u,v], sigma[u,v], g0[v], g_s[v], d0[v], d_s[v], h0[v], h_s[v], s0[v], s_s[v], 0,0,jump,qg[u,v],qd[u,v],sg[v],sd[v],proposal_normalisation[v],p_dc[v])
+            acc*=acceptance_ratio(transition_ratio_fn,prior_ratio_fn,jump_params_fn,gamma[u,v], delta[u,v], h[u,v], sigma[u,v], g0[v], g_s[v], d0[v], d_s[v], h0[v], h_s[v], s0[v], s_s[v], 0,0,jump,qg[u,v],qd[u,v],sg[v],sd[v],proposal_normalisation[v],p_dc[v])
             if acc==0:
                 break
         if v<nevents-1 or acc==0.0:#No acceptance, so no point in continuing
@@ -438,12 +456,12 @@ def me_acceptance_check(list x,list x0,list alpha, DTYPE_t[::1] ln_p,DTYPE_t ln_
     cdef DTYPE_t [::1]s0=np.empty((nevents))
     cdef DTYPE_t [::1]s_s=np.empty((nevents))
     cdef DTYPE_t [::1]k0=np.empty((nevents))
-    cdef DTYPE_t [::1]sg=np.empty((nevents))
-    cdef DTYPE_t [::1]sd=np.empty((nevents))
+    cdef DTYPE_t [::1]sg=0.1*np.ones((nevents))
+    cdef DTYPE_t [::1]sd=0.1*np.ones((nevents))
     cdef DTYPE_t [::1]proposal_normalisation=np.ones((nevents))
     cdef DTYPE_t [::1]prior_dc=np.ones((nevents))
     if dc_prior.shape[0]==0:
-        prior_dc=np.array([0.5])
+        prior_dc=0.5*np.ones((nevents))
     cdef int index
     if gaussian_jump:
         jump_params_fn=&gaussian_jump_prob
-- 
2.43.0


From bbcfa2fb118436cd1ff3d0df397879c725e1a518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:58 +0000
Subject: [PATCH 57/98] fix: model jumps with the flat prior use its density
 over the lune in the C acceptance

---
 .../algorithms/cmarkov_chain_monte_carlo.pyx  | 20 ++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/MTfit/algorithms/cmarkov_chain_monte_carlo.pyx b/src/MTfit/algorithms/cmarkov_chain_monte_carlo.pyx
index 98e5f63..e94f7fd 100644
--- a/src/MTfit/algorithms/cmarkov_chain_monte_carlo.pyx
+++ b/src/MTfit/algorithms/cmarkov_chain_monte_carlo.pyx
@@ -194,6 +194,20 @@ cdef inline DTYPE_t uniform_prior_ratio(DTYPE_t gamma,DTYPE_t delta,DTYPE_t g0,D
 cdef inline DTYPE_t flat_prior_ratio(DTYPE_t gamma,DTYPE_t delta,DTYPE_t g0,DTYPE_t d0) nogil:
     return 1.0
 
+@cython.boundscheck(False)
+@cython.wraparound(False)
+@cython.nonecheck(False)
+@cython.cdivision(True)
+#Flat prior ratio, including DC/MT jumps (density over gamma and delta)
+cdef inline DTYPE_t flat_model_prior_ratio(DTYPE_t gamma,DTYPE_t delta,DTYPE_t g0,DTYPE_t d0) nogil:
+    cdef bint dc=gamma==0.0 and delta==0.0
+    cdef bint dc0=g0==0.0 and d0==0.0
+    if dc and not dc0:
+        return pi*pi/3
+    elif dc0 and not dc:
+        return 3/(pi*pi)
+    return 1.0
+
 # Functions for obtaining new Tape parameter samples etc.
 @cython.boundscheck(False)
 @cython.wraparound(False)
@@ -405,7 +419,7 @@ def acceptance_check(list x,dict x0,dict alpha, ln_p, DTYPE_t ln_p0, bool unifor
     if uniform_prior:
         prior_ratio_fn=&uniform_prior_ratio
     else:
-        prior_ratio_fn=&flat_prior_ratio
+        prior_ratio_fn=&flat_model_prior_ratio
     if 'gamma_dc' in alpha.keys():
         sg=<DTYPE_t>alpha['gamma_dc']
     if 'delta_dc' in alpha.keys():
@@ -470,7 +484,7 @@ def me_acceptance_check(list x,list x0,list alpha, DTYPE_t[::1] ln_p,DTYPE_t ln_
     if uniform_prior:
         prior_ratio_fn=&uniform_prior_ratio
     else:
-        prior_ratio_fn=&flat_prior_ratio
+        prior_ratio_fn=&flat_model_prior_ratio
     for v in range(nevents):
         g0[v]=<DTYPE_t>x0[v]['gamma']
         g_s[v]=<DTYPE_t>alpha[v]['gamma']
@@ -847,7 +861,7 @@ def _acceptance_test_fn(dict x, dict x0, dict alpha, DTYPE_t ln_p,DTYPE_t ln_p0,
     if uniform_prior:
         prior_ratio_fn=&uniform_prior_ratio
     else:
-        prior_ratio_fn=&flat_prior_ratio
+        prior_ratio_fn=&flat_model_prior_ratio
     if 'gamma_dc' in alpha.keys():
         sg=<DTYPE_t>alpha['gamma_dc']
     if 'delta_dc' in alpha.keys():
-- 
2.43.0


From e1b64ba1e8e75804fff67ceabee2487a9ea6ba0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:45 +0000
Subject: [PATCH 58/98] fix: a scalar proposal width is reverted on adaptation

---
 src/MTfit/algorithms/markov_chain_monte_carlo.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/MTfit/algorithms/markov_chain_monte_carlo.py b/src/MTfit/algorithms/markov_chain_monte_carlo.py
index ba535a5..1773738 100644
--- a/src/MTfit/algorithms/markov_chain_monte_carlo.py
+++ b/src/MTfit/algorithms/markov_chain_monte_carlo.py
@@ -389,8 +389,10 @@ class MarginalisedMarkovChainMonteCarlo(BaseAlgorithm):
             try:
                 if type(self.alpha) == dict:
                     self.alpha = self._old_alpha.copy()
-                else:  # list
+                elif type(self.alpha) == list:
                     self.alpha = self._old_alpha[:]
+                else:
+                    self.alpha = self._old_alpha
                 ratio = np.sqrt(self._old_ratio)
                 self._old_ratio = ratio
             except Exception:
@@ -401,8 +403,10 @@ class MarginalisedMarkovChainMonteCarlo(BaseAlgorithm):
             try:
                 if type(self.alpha) == dict:
                     self.alpha = self._old_alpha.copy()
-                else:  # list
+                elif type(self.alpha) == list:
                     self.alpha = self._old_alpha[:]
+                else:
+                    self.alpha = self._old_alpha
                 ratio = self._old_ratio*self._old_ratio
                 self._old_ratio = ratio
             except Exception:
-- 
2.43.0


From c05a1ced39ed7fbf01f0c3e8974dd2135b59cb4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:23 +0000
Subject: [PATCH 59/98] fix: a double-couple-constrained inversion runs a
 double-couple Markov chain

---
 src/MTfit/inversion.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/MTfit/inversion.py b/src/MTfit/inversion.py
index ed99fdd..4c66283 100644
--- a/src/MTfit/inversion.py
+++ b/src/MTfit/inversion.py
@@ -1667,6 +1667,8 @@ class Inversion(object):
                 self.kwargs['number_samples'] = self.number_samples
             if self._algorithm_name.lower() in get_extensions('MTfit.directed_algorithms')[0]:
                 kwargs['mode'] = self._algorithm_name.lower()
+            kwargs['dc'] = self.dc
+            self.kwargs['dc'] = self.dc
             self.McMC = True
             self.algorithm = MarkovChainMonteCarloAlgorithmCreator(**kwargs)
 
-- 
2.43.0


From d9352f700a55d19a7f7594e4d5a868fc3d5b3344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:23 +0000
Subject: [PATCH 60/98] fix: Markov chain inversions use the location sample
 multipliers

---
 src/MTfit/inversion.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/MTfit/inversion.py b/src/MTfit/inversion.py
index 4c66283..bc9b600 100644
--- a/src/MTfit/inversion.py
+++ b/src/MTfit/inversion.py
@@ -2255,8 +2255,8 @@ class Inversion(object):
                                           self.location_sample_multipliers, self.normalise, self.convert, extension_data)
                 else:
                     result = McMCForwardTask(self.kwargs, a_polarity, error_polarity, a1_amplitude_ratio, a2_amplitude_ratio, amplitude_ratio, percentage_error1_amplitude_ratio,
-                                             percentage_error2_amplitude_ratio, a_polarity_probability, polarity_probability, incorrect_polarity_probability, fid, normalise=self.normalise,
-                                             convert=self.convert, extension_data=extension_data)()
+                                             percentage_error2_amplitude_ratio, a_polarity_probability, polarity_probability, incorrect_polarity_probability, fid, event, self.location_samples,
+                                             self.location_sample_multipliers, normalise=self.normalise, convert=self.convert, extension_data=extension_data)()
                     try:
                         accepted = (float(result['algorithm_output_data']['accepted'])/float(result['algorithm_output_data']['total_number_samples']))*100
                     except ZeroDivisionError:
@@ -2395,7 +2395,7 @@ class Inversion(object):
                                                        amplitude_ratio, percentage_error1_amplitude_ratio, percentage_error2_amplitude_ratio, a_polarity_probability, polarity_probability,
                                                        a_relative_amplitude, relative_amplitude, percentage_error_relative_amplitude, relative_amplitude_stations, incorrect_polarity_probability,
                                                        relative=self._relative, minimum_number_intersections=self.minimum_number_intersections, fid=fid, location_samples=self.location_samples,
-                                                       marginalise_relative=self._marginalise_relative, normalise=self.normalise, convert=self.convert, extension_data=extension_data)()
+                                                       location_sample_multipliers=self.location_sample_multipliers, marginalise_relative=self._marginalise_relative, normalise=self.normalise, convert=self.convert, extension_data=extension_data)()
                 self._print('Inversion completed, '+str(result['algorithm_output_data']['total_number_samples'])+' samples evaluated: '+str((result['algorithm_output_data']['accepted'])) +
                             ' accepted samples: '+str((float(result['algorithm_output_data']['accepted'])/float(result['algorithm_output_data']['total_number_samples']))*100)[:4]+'%')
                 try:
-- 
2.43.0


From 772f294ac29ed8f3b2a7ae207f970fc612c66e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:23 +0000
Subject: [PATCH 61/98] fix: Markov chain inversions run and are output with
 worker processes

---
 src/MTfit/inversion.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/MTfit/inversion.py b/src/MTfit/inversion.py
index bc9b600..0a486c7 100644
--- a/src/MTfit/inversion.py
+++ b/src/MTfit/inversion.py
@@ -469,7 +469,7 @@ class McMCForwardTask(object):
         # Get output data and print results
         output_data, output_string = self.algorithm.output(self.normalise, self.convert, 0)
         return {'algorithm_output_data': output_data, 'event_data': self.event_data, 'location_samples': self.location_samples,
-                'location_sample_multipliers': self.location_sample_multipliers}
+                'location_sample_multipliers': self.location_sample_multipliers, 'fid': self.fid}
 
 
 class MultipleEventsForwardTask(object):
@@ -1022,7 +1022,7 @@ class MultipleEventsMcMCForwardTask(McMCForwardTask):
         # Print output string
         print(output_string)
         return {'algorithm_output_data': output_data, 'event_data': self.event_data, 'location_samples': self.location_samples,
-                'location_sample_multipliers': self.location_sample_multipliers}
+                'location_sample_multipliers': self.location_sample_multipliers, 'fid': self.fid}
 
 
 class CombineMpiOutputTask(object):
@@ -2252,7 +2252,7 @@ class Inversion(object):
 
                     self.pool.custom_task(McMCForwardTask, self.kwargs, a_polarity, error_polarity, a1_amplitude_ratio, a2_amplitude_ratio, amplitude_ratio, percentage_error1_amplitude_ratio,
                                           percentage_error2_amplitude_ratio, a_polarity_probability, polarity_probability, incorrect_polarity_probability, fid, event, self.location_samples,
-                                          self.location_sample_multipliers, self.normalise, self.convert, extension_data)
+                                          self.location_sample_multipliers, True, self.normalise, self.convert, extension_data)
                 else:
                     result = McMCForwardTask(self.kwargs, a_polarity, error_polarity, a1_amplitude_ratio, a2_amplitude_ratio, amplitude_ratio, percentage_error1_amplitude_ratio,
                                              percentage_error2_amplitude_ratio, a_polarity_probability, polarity_probability, incorrect_polarity_probability, fid, event, self.location_samples,
@@ -2371,7 +2371,7 @@ class Inversion(object):
                                       amplitude_ratio, percentage_error1_amplitude_ratio, percentage_error2_amplitude_ratio, a_polarity_probability,
                                       polarity_probability, a_relative_amplitude, relative_amplitude, percentage_error_relative_amplitude,
                                       relative_amplitude_stations, incorrect_polarity_probability, self._relative, self.minimum_number_intersections,
-                                      fid, event, self.location_samples, self.location_sample_multipliers, self._marginalise_relative, self.normalise,
+                                      fid, self.data, self.location_samples, self.location_sample_multipliers, self._marginalise_relative, self.normalise,
                                       self.convert, extension_data)
 
                 result = self.pool.result()
-- 
2.43.0


From e089c8e88f4a32b9e173bc35438c3854f22b43bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:54 +0000
Subject: [PATCH 62/98] fix: the configured proposal widths and their maxima
 are used

---
 src/MTfit/algorithms/markov_chain_monte_carlo.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/MTfit/algorithms/markov_chain_monte_carlo.py b/src/MTfit/algorithms/markov_chain_monte_carlo.py
index 1773738..afefd93 100644
--- a/src/MTfit/algorithms/markov_chain_monte_carlo.py
+++ b/src/MTfit/algorithms/markov_chain_monte_carlo.py
@@ -956,6 +956,9 @@ class MarginalisedMetropolisHastingsGaussianTape(MarginalisedMetropolisHastings)
         super(MarginalisedMetropolisHastingsGaussianTape, self).__init__(*args, **kwargs)
         self.alpha = {'kappa': np.pi/5, 'h': 0.2, 'sigma': np.pi/10, 'gamma': np.pi/15,
                       'delta': np.pi/10, 'alpha': np.pi/10, 'poisson': 0.2}
+        # Update with any configured values
+        if isinstance(kwargs.get('alpha', False), dict):
+            self.alpha.update(kwargs['alpha'])
         # Set up alpha for multiple events
         if self.number_events > 1:
             all_alpha = []
@@ -964,6 +967,8 @@ class MarginalisedMetropolisHastingsGaussianTape(MarginalisedMetropolisHastings)
             self.alpha = all_alpha
         self.max_alpha = {'kappa': np.pi/2, 'h': 0.5, 'sigma': np.pi/4, 'gamma': np.pi/12,
                           'delta': np.pi/4, 'alpha': np.pi/4, 'poisson': 0.1}
+        if isinstance(kwargs.get('max_alpha', False), dict):
+            self.max_alpha.update(kwargs['max_alpha'])
         # Reflect PDFs off upper limit - maintains uniformity in transition PDF
         self._reflect_gamma = kwargs.get('reflect_gamma', False)
         self._reflect_delta = kwargs.get('reflect_delta', False)
-- 
2.43.0


From fdb3863e1a7ba00112ae22fd44affaf60c006708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:38 +0000
Subject: [PATCH 63/98] fix: single-try trans-dimensional chains evaluate model
 jumps from forward task results

---
 src/MTfit/algorithms/markov_chain_monte_carlo.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/MTfit/algorithms/markov_chain_monte_carlo.py b/src/MTfit/algorithms/markov_chain_monte_carlo.py
index afefd93..c7cacff 100644
--- a/src/MTfit/algorithms/markov_chain_monte_carlo.py
+++ b/src/MTfit/algorithms/markov_chain_monte_carlo.py
@@ -1476,8 +1476,10 @@ class IterativeTransDMetropolisHastingsGaussianTape(IterativeMetropolisHastingsG
         Returns
             float:acceptance
         """
-        if isinstance(self.ln_likelihood_xi, np.ndarray):
+        if isinstance(self.ln_likelihood_xi, (np.ndarray, LnPDF)):
             self.ln_likelihood_xi = float(self.ln_likelihood_xi)
+        if isinstance(ln_likelihoodx, (np.ndarray, LnPDF)):
+            ln_likelihoodx = float(ln_likelihoodx)
         # Multiple events
         if self.number_events > 1:
             return super(IterativeTransDMetropolisHastingsGaussianTape, self).acceptance(x, ln_likelihoodx, dc_prior)
-- 
2.43.0


From 248597b6fe3099129db3f9fa71506759cdb153fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:09 +0000
Subject: [PATCH 64/98] fix: acceptances do not depend on the overflow of the
 likelihood ratio

---
 .../algorithms/cmarkov_chain_monte_carlo.pyx  | 25 +++++++++++++------
 .../algorithms/markov_chain_monte_carlo.py    | 19 +++++++++++---
 2 files changed, 33 insertions(+), 11 deletions(-)

diff --git a/src/MTfit/algorithms/cmarkov_chain_monte_carlo.pyx b/src/MTfit/algorithms/cmarkov_chain_monte_carlo.pyx
index e94f7fd..e9e60e1 100644
--- a/src/MTfit/algorithms/cmarkov_chain_monte_carlo.pyx
+++ b/src/MTfit/algorithms/cmarkov_chain_monte_carlo.pyx
@@ -23,6 +23,7 @@ ELSE:
     from libc.math cimport tgamma
 from libc.math cimport sqrt
 from libc.math cimport exp
+from libc.math cimport log
 from libc.math cimport pow
 from libc.math cimport fabs
 from libc.math cimport fmod
@@ -42,6 +43,16 @@ ctypedef DTYPE_t (*jump_params_ptr)(DTYPE_t,DTYPE_t,DTYPE_t,DTYPE_t,DTYPE_t)
 ctypedef DTYPE_t (*prior_ratio_ptr)(DTYPE_t,DTYPE_t,DTYPE_t,DTYPE_t) nogil
 ctypedef DTYPE_t (*transition_ratio_ptr)(DTYPE_t,DTYPE_t,DTYPE_t,DTYPE_t,DTYPE_t,DTYPE_t,DTYPE_t,DTYPE_t,DTYPE_t,DTYPE_t,DTYPE_t,DTYPE_t) nogil
 
+#Scales the acceptance ratio by the likelihoods - in logs as the exponential can overflow
+@cython.boundscheck(False)
+@cython.wraparound(False)
+@cython.nonecheck(False)
+@cython.cdivision(True)
+cdef inline DTYPE_t scale_ratio(DTYPE_t ratio,DTYPE_t ln_p_difference) nogil:
+    if not ratio>0:
+        return 0.0
+    return exp(log(ratio)+ln_p_difference)
+
 #Windows specific functions - in libc.math otherwise
 IF UNAME_SYSNAME == "Windows":    
     cdef DTYPE_t ND=1902.9928503773808*1.10452194071529090000 #Calculated from python and MATLAB
@@ -87,13 +98,13 @@ IF UNAME_SYSNAME == "Windows":
             if gamma==0.0 and delta==0.0:
                 #MT to DC
                 model_prior_ratio=p_dc/(1-p_dc)
-                acc=exp(ln_p-ln_p0)*prior_ratio_fn(gamma,delta,g0,d0)*jump_params_fn(qg,qd,sg,sd, proposal_normalisation)*model_prior_ratio
+                acc=scale_ratio(prior_ratio_fn(gamma,delta,g0,d0)*jump_params_fn(qg,qd,sg,sd, proposal_normalisation)*model_prior_ratio,ln_p-ln_p0)
             elif g0==0.0 and d0==0.0 :
                 #DC to MT
                 model_prior_ratio=(1-p_dc)/p_dc
-                acc=exp(ln_p-ln_p0)*prior_ratio_fn(gamma,delta,g0,d0)/jump_params_fn(qg,qd,sg,sd,proposal_normalisation)*model_prior_ratio            
+                acc=scale_ratio(prior_ratio_fn(gamma,delta,g0,d0)/jump_params_fn(qg,qd,sg,sd,proposal_normalisation)*model_prior_ratio,ln_p-ln_p0)
         else:   
-            acc=exp(ln_p-ln_p0)*transition_ratio_fn(gamma,delta,h,sigma,g0,g_s,d0,d_s,h0,h_s,s0,s_s)*prior_ratio_fn(gamma,delta,g0,d0)
+            acc=scale_ratio(transition_ratio_fn(gamma,delta,h,sigma,g0,g_s,d0,d_s,h0,h_s,s0,s_s)*prior_ratio_fn(gamma,delta,g0,d0),ln_p-ln_p0)
         return acc
 ELSE:
     cdef DTYPE_t ND=tgamma(11.490)/(tgamma(5.745)*tgamma(5.745))*1.10452194071529090000
@@ -114,11 +125,11 @@ ELSE:
         if jump>0:
             if gamma==0.0 and delta==0.0:
                 model_prior_ratio=p_dc/(1-p_dc)
-                return exp(ln_p-ln_p0)*prior_ratio_fn(gamma,delta,g0,d0)*jump_params_fn(qg,qd,sg,sd, proposal_normalisation)*model_prior_ratio
+                return scale_ratio(prior_ratio_fn(gamma,delta,g0,d0)*jump_params_fn(qg,qd,sg,sd, proposal_normalisation)*model_prior_ratio,ln_p-ln_p0)
             elif g0==0.0 and d0==0.0 :
                 model_prior_ratio=(1-p_dc)/p_dc
-                return exp(ln_p-ln_p0)*prior_ratio_fn(gamma,delta,g0,d0)/jump_params_fn(qg,qd,sg,sd,proposal_normalisation)*model_prior_ratio
-        return exp(ln_p-ln_p0)*transition_ratio_fn(gamma,delta,h,sigma,g0,g_s,d0,d_s,h0,h_s,s0,s_s)*prior_ratio_fn(gamma,delta,g0,d0)
+                return scale_ratio(prior_ratio_fn(gamma,delta,g0,d0)/jump_params_fn(qg,qd,sg,sd,proposal_normalisation)*model_prior_ratio,ln_p-ln_p0)
+        return scale_ratio(transition_ratio_fn(gamma,delta,h,sigma,g0,g_s,d0,d_s,h0,h_s,s0,s_s)*prior_ratio_fn(gamma,delta,g0,d0),ln_p-ln_p0)
 
 #Gaussian PDF
 @cython.boundscheck(False)
@@ -338,7 +349,7 @@ cdef int c_me_acceptance_check(transition_ratio_ptr transition_ratio_fn,prior_ra
                 break
         if v<nevents-1 or acc==0.0:#No acceptance, so no point in continuing
             continue
-        acc*=exp(ln_p[u]-ln_p0)
+        acc=scale_ratio(acc,ln_p[u]-ln_p0)
         if acc>np.random.rand():
             return <int>u
     return -1
diff --git a/src/MTfit/algorithms/markov_chain_monte_carlo.py b/src/MTfit/algorithms/markov_chain_monte_carlo.py
index c7cacff..74c199e 100644
--- a/src/MTfit/algorithms/markov_chain_monte_carlo.py
+++ b/src/MTfit/algorithms/markov_chain_monte_carlo.py
@@ -870,6 +870,16 @@ class MarginalisedMetropolisHastings(MarginalisedMarkovChainMonteCarlo):
         """Acceptance ratio (without likelihoods) for a model jump of event i in a joint sample, None if it is not a jump"""
         return None
 
+    def _scale_ratio(self, ratio, ln_likelihood_difference):
+        """
+        Acceptance from the ratio without the likelihoods and the ln likelihood difference
+
+        The exponential can overflow, so zero ratios are handled separately and the product is evaluated in logs.
+        """
+        if not ratio > 0:
+            return 0
+        return min(1, np.exp(np.log(ratio)+ln_likelihood_difference))
+
     def acceptance(self, x, ln_likelihood_x, *args):
         """
         Calculates acceptance
@@ -911,12 +921,11 @@ class MarginalisedMetropolisHastings(MarginalisedMarkovChainMonteCarlo):
                     # infinite --> set to 1
                     return 1
             self.alpha = alpha[:]
-            return min(1, acc*np.exp(ln_likelihood_x-self.ln_likelihood_xi))
+            return self._scale_ratio(acc, ln_likelihood_x-self.ln_likelihood_xi)
         if self.ln_likelihood_xi > -np.inf and self.transition_pdf(x, self.xi) > 0 and self.prior(self.xi) > 0:
             # ln likelihoods
             acceptance = (self.transition_pdf(self.xi, x)*self.prior(x))/(self.transition_pdf(x, self.xi)*self.prior(self.xi))
-            acceptance *= np.exp(ln_likelihood_x-self.ln_likelihood_xi)
-            return min(1, acceptance)
+            return self._scale_ratio(acceptance, ln_likelihood_x-self.ln_likelihood_xi)
         else:
             # 0 probability values for acceptance denominator so acc is
             # infinite --> set to 1
@@ -1490,7 +1499,9 @@ class IterativeTransDMetropolisHastingsGaussianTape(IterativeMetropolisHastingsG
                 return super(IterativeTransDMetropolisHastingsGaussianTape, self).acceptance(x, ln_likelihoodx)
             # dc to mt or mt to dc jump
             elif self.is_dc(self.xi) or self.is_dc(x):
-                return min(1, self._jump_ratio(x, self.xi, dc_prior)*np.exp(ln_likelihoodx-self.ln_likelihood_xi))
+                if ln_likelihoodx == -np.inf:
+                    return 0
+                return self._scale_ratio(self._jump_ratio(x, self.xi, dc_prior), ln_likelihoodx-self.ln_likelihood_xi)
             else:  # no jump may have been accidentally picked up
                 return super(IterativeTransDMetropolisHastingsGaussianTape, self).acceptance(x, ln_likelihoodx)
         else:
-- 
2.43.0


From e89bfa8c10cab580e98a4bef0474c5100a6a962e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:52 +0000
Subject: [PATCH 65/98] fix: adapted widths are limited to their maxima when an
 earlier width is restored

---
 src/MTfit/algorithms/markov_chain_monte_carlo.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/MTfit/algorithms/markov_chain_monte_carlo.py b/src/MTfit/algorithms/markov_chain_monte_carlo.py
index 74c199e..ba946ef 100644
--- a/src/MTfit/algorithms/markov_chain_monte_carlo.py
+++ b/src/MTfit/algorithms/markov_chain_monte_carlo.py
@@ -467,7 +467,7 @@ class MarginalisedMarkovChainMonteCarlo(BaseAlgorithm):
                     # Keep widths positive
                     newAlpha[key] = max(alpha[key]*ratio, min(alpha[key], _MIN_ALPHA))
                     if newAlpha[key] > self.max_alpha[key]:
-                        newAlpha[key] = alpha[key]
+                        newAlpha[key] = min(alpha[key], self.max_alpha[key])
         elif isinstance(alpha, list):
             newAlpha = []
             for i, alph in enumerate(alpha):
@@ -475,7 +475,7 @@ class MarginalisedMarkovChainMonteCarlo(BaseAlgorithm):
         else:
             newAlpha = max(alpha*ratio, min(alpha, _MIN_ALPHA))
             if newAlpha > self.max_alpha:
-                newAlpha = alpha
+                newAlpha = min(alpha, self.max_alpha)
         return newAlpha
 
     def transition_pdf(self, x, x1):
-- 
2.43.0


From 4c9364bd5c6f18eeebd51d8bae3a4d32c02f53b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:28 +0000
Subject: [PATCH 66/98] fix: random initial sample for multiple event chains
 has a source for each event

---
 src/MTfit/algorithms/markov_chain_monte_carlo.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/MTfit/algorithms/markov_chain_monte_carlo.py b/src/MTfit/algorithms/markov_chain_monte_carlo.py
index ba946ef..3379377 100644
--- a/src/MTfit/algorithms/markov_chain_monte_carlo.py
+++ b/src/MTfit/algorithms/markov_chain_monte_carlo.py
@@ -798,7 +798,13 @@ class MarginalisedMarkovChainMonteCarlo(BaseAlgorithm):
             self._number_initialisation_samples += self._initialiser.number_samples
             return self._initialiser.initialise()
         if not isinstance(self.x0, (np.ndarray, dict, list)):
-            self.x0 = self.random_sample()
+            if self.number_events > 1:
+                # Sample for each event (the chain dc flags are per event)
+                dc, self.dc = self.dc, self._dc_constrained
+                self.x0 = [self.random_sample() for i in range(self.number_events)]
+                self.dc = dc
+            else:
+                self.x0 = self.random_sample()
         if not isinstance(self.x0, (dict, list)):
             self.x0 = self.convert_sample(self.x0)
         # Set initialse sample parameters
-- 
2.43.0


From 8f8fa478f3f86f5ad5fa6acaac80c02848b777ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:37 +0000
Subject: [PATCH 67/98] fix: proposal widths are not adapted while the chain
 has zero likelihood

---
 src/MTfit/algorithms/markov_chain_monte_carlo.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/MTfit/algorithms/markov_chain_monte_carlo.py b/src/MTfit/algorithms/markov_chain_monte_carlo.py
index 3379377..a0c5da2 100644
--- a/src/MTfit/algorithms/markov_chain_monte_carlo.py
+++ b/src/MTfit/algorithms/markov_chain_monte_carlo.py
@@ -760,7 +760,9 @@ class MarginalisedMarkovChainMonteCarlo(BaseAlgorithm):
                     self._check_first_sample()
             # Check if need to do learning transition PDF update
             if self.learning_check() and len(self._learning_accepted) >= self.acceptance_rate_window:
-                self._modify_acceptance_rate()
+                # The acceptance rate says nothing about the widths until a non-zero probability state has been found
+                if float(self.ln_likelihood_xi) > -np.inf:
+                    self._modify_acceptance_rate()
                 logger.info('Learning {:.4f}% complete - this learning iteration: {} accepted and {}  tried - acceptance rate: {:.6f}'.format(100*self._number_learning_accepted/float(self.learning_length), sum(self._learning_accepted), len(self._learning_accepted), self.acceptance_rate()))
                 if self._debug:  # Append rate info to Debug output
                     self._debug_output['bir'].append(float(
-- 
2.43.0


From 7f5c27066df367ffca977e3ace4a9f286f1bdacc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:36 +0000
Subject: [PATCH 68/98] fix: log-PDF objects can be unpickled

---
 src/MTfit/probability/probability.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/MTfit/probability/probability.py b/src/MTfit/probability/probability.py
index 604893a..0d51ea9 100644
--- a/src/MTfit/probability/probability.py
+++ b/src/MTfit/probability/probability.py
@@ -1044,7 +1044,8 @@ class LnPDF(object):
     def __getstate__(self):
         return self._ln_pdf, self.dV
 
-    def __setstate__(self, ln_pdf, dV):
+    def __setstate__(self, state):
+        ln_pdf, dV = state
         self._set_ln_pdf(ln_pdf)
         self._set_dv(dV)
 
-- 
2.43.0


From beb15772180a25ca40fc9c32fac023973c79f187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:36 +0000
Subject: [PATCH 69/98] fix: all dead workers are replaced

---
 src/MTfit/utilities/multiprocessing_helper.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/MTfit/utilities/multiprocessing_helper.py b/src/MTfit/utilities/multiprocessing_helper.py
index 8d90d90..d909452 100644
--- a/src/MTfit/utilities/multiprocessing_helper.py
+++ b/src/MTfit/utilities/multiprocessing_helper.py
@@ -188,11 +188,11 @@ class JobPool(object):
         Removes killed workers and adds new ones until the number of workers is correct.
 
         """
-        for i, worker in enumerate(self.workers):
+        for worker in self.workers[:]:
             if not worker.is_alive():
                 if not self.single_life:
                     print(str(worker.name)+' Dead')
-                self.workers.pop(i)
+                self.workers.remove(worker)
                 del worker
         while len(self.workers) < self.number_workers:
             w = Worker(self.tasks, self.results, self.single_life)
-- 
2.43.0


From 9bae29e2ae6ab9aa3f6cf5d8166a498b4c25decf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:36 +0000
Subject: [PATCH 70/98] fix: worker returns every exception of a task and keeps
 serving later tasks

---
 src/MTfit/utilities/multiprocessing_helper.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/MTfit/utilities/multiprocessing_helper.py b/src/MTfit/utilities/multiprocessing_helper.py
index d909452..a7766d8 100644
--- a/src/MTfit/utilities/multiprocessing_helper.py
+++ b/src/MTfit/utilities/multiprocessing_helper.py
@@ -14,6 +14,8 @@ Handles multiprocessing queue and worker behaviour, including return codes
 import multiprocessing
 import gc
 import os
+import pickle
+from multiprocessing.reduction import ForkingPickler
 
 
 from ..probability import LnPDF
@@ -87,16 +89,27 @@ class Worker(multiprocessing.Process):
                     for key, value in answer.items():
                         if isinstance(value, LnPDF):
                             answer[key] = {'ln_pdf_obj': value.__getstate__()}
+                # The queue drops (in a thread of its own) results that can't be pickled, so check here
+                ForkingPickler.dumps(answer)
                 self.result_queue.put(answer)
                 if self.single_life:
                     break
                 gc.collect()
-            except Exception as e:
-                self.result_queue.put(e)
+            except (Exception, SystemExit) as e:
+                self.result_queue.put(self._picklable(e))
+                if self.single_life:
+                    break
                 gc.collect()
-                break
         return
 
+    def _picklable(self, exception):
+        """Returns the exception, or a description of it if it would be lost in the result queue"""
+        try:
+            pickle.loads(pickle.dumps(exception))
+        except Exception:
+            return RuntimeError('{}: {}'.format(exception.__class__.__name__, exception))
+        return exception
+
     def start(self):
         print(self.name, 'Starting')
         super(Worker, self).start()
-- 
2.43.0


From f0da0712b88a3cfc5d39b23296dee7de7e950d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:36 +0000
Subject: [PATCH 71/98] fix: collecting results terminates when the last task
 returns a status code

---
 src/MTfit/utilities/multiprocessing_helper.py | 23 +++++++++++++++----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/MTfit/utilities/multiprocessing_helper.py b/src/MTfit/utilities/multiprocessing_helper.py
index a7766d8..7b4f219 100644
--- a/src/MTfit/utilities/multiprocessing_helper.py
+++ b/src/MTfit/utilities/multiprocessing_helper.py
@@ -229,21 +229,31 @@ class JobPool(object):
     def result(self):
         """
 
-        Returns a result object (skipping tasks that return results in the RETURN_CODES)
+        Returns a result object (skipping tasks that return results in the RETURN_CODES, unless there are
+        no other outstanding results)
 
         Returns
             Task result
         """
+        result = self._next_result()
+        # Check if result is in return codes (errors or otherwise)
+        while self._is_return_code(result) and self.number_jobs > 0:
+            result = self._next_result()
+        return result
+
+    def _next_result(self):
+        """Returns the next result in the queue, including return codes"""
         # clean up dead workers
         self.clean_workers()
         # Get result
         result = self.results.get()
         self.number_jobs -= 1
-        # Check if result is in return codes (errors or otherwise)
-        if isinstance(result, int) and result in RETURN_CODES:
-            result = self.result()
         return self.rebuild_ln_pdf(result)
 
+    def _is_return_code(self, result):
+        """Checks if the result is in the return codes (errors or otherwise)"""
+        return isinstance(result, int) and result in RETURN_CODES
+
     def rebuild_ln_pdf(self, result):
         if isinstance(result, dict):
             for key, value in result.items():
@@ -271,7 +281,10 @@ class JobPool(object):
         results = []
         # Loop over all un-returned jobs
         while self.number_jobs:
-            results.append(self.result())
+            result = self._next_result()
+            # Skip return codes (errors or otherwise)
+            if not self._is_return_code(result):
+                results.append(result)
         return results
 
     def close(self):
-- 
2.43.0


From 1a67cee59ba443bab202eae95b3cadb82ca06eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:36 +0000
Subject: [PATCH 72/98] fix: closing the pool with uncollected results does not
 block

---
 src/MTfit/utilities/multiprocessing_helper.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/MTfit/utilities/multiprocessing_helper.py b/src/MTfit/utilities/multiprocessing_helper.py
index 7b4f219..7b79fba 100644
--- a/src/MTfit/utilities/multiprocessing_helper.py
+++ b/src/MTfit/utilities/multiprocessing_helper.py
@@ -15,6 +15,10 @@ import multiprocessing
 import gc
 import os
 import pickle
+try:
+    import queue
+except ImportError:
+    import Queue as queue
 from multiprocessing.reduction import ForkingPickler
 
 
@@ -165,6 +169,7 @@ class JobPool(object):
         self.number_workers = number_workers
         self.single_life = single_life
         self.number_jobs = 0
+        self.collected = []
         # Add new workers until the number of workers is correct
         self.clean_workers()
         print('Job Pool Initialised')
@@ -243,6 +248,10 @@ class JobPool(object):
 
     def _next_result(self):
         """Returns the next result in the queue, including return codes"""
+        # Results collected when closing
+        if self.collected:
+            self.number_jobs -= 1
+            return self.rebuild_ln_pdf(self.collected.pop(0))
         # clean up dead workers
         self.clean_workers()
         # Get result
@@ -297,6 +306,14 @@ class JobPool(object):
         for i in range(self.number_workers):
             # Add poison pill
             self.tasks.put(PoisonPill())
+        # Workers only end once their results have left the queue, so keep any outstanding results
+        finished = False
+        while not finished:
+            ended = not any([w.is_alive() for w in self.workers])
+            try:
+                self.collected.append(self.results.get(timeout=0.1))
+            except queue.Empty:
+                finished = ended
         # Join workers to main thread
         for w in self.workers:
             w.join()
-- 
2.43.0


From 7a9557cf4a1531812a7c8fac0f400b7d26ef9ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:58 +0000
Subject: [PATCH 73/98] fix: results that can not be unpickled are returned as
 their exception

---
 src/MTfit/utilities/multiprocessing_helper.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/MTfit/utilities/multiprocessing_helper.py b/src/MTfit/utilities/multiprocessing_helper.py
index 7b79fba..7d96cc9 100644
--- a/src/MTfit/utilities/multiprocessing_helper.py
+++ b/src/MTfit/utilities/multiprocessing_helper.py
@@ -255,10 +255,19 @@ class JobPool(object):
         # clean up dead workers
         self.clean_workers()
         # Get result
-        result = self.results.get()
+        result = self._get_result()
         self.number_jobs -= 1
         return self.rebuild_ln_pdf(result)
 
+    def _get_result(self, timeout=None):
+        """Gets from the result queue, a result that can't be rebuilt here gives the exception"""
+        try:
+            return self.results.get(timeout=timeout)
+        except queue.Empty:
+            raise
+        except Exception as e:
+            return e
+
     def _is_return_code(self, result):
         """Checks if the result is in the return codes (errors or otherwise)"""
         return isinstance(result, int) and result in RETURN_CODES
@@ -311,7 +320,7 @@ class JobPool(object):
         while not finished:
             ended = not any([w.is_alive() for w in self.workers])
             try:
-                self.collected.append(self.results.get(timeout=0.1))
+                self.collected.append(self._get_result(timeout=0.1))
             except queue.Empty:
                 finished = ended
         # Join workers to main thread
-- 
2.43.0


From b2addac15fafaccadb49250caa01191d46b49ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:29 +0000
Subject: [PATCH 74/98] fix: blank lines without commas separate the events of
 a csv file

---
 src/MTfit/utilities/file_io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MTfit/utilities/file_io.py b/src/MTfit/utilities/file_io.py
index 41e7014..9f4f5b3 100644
--- a/src/MTfit/utilities/file_io.py
+++ b/src/MTfit/utilities/file_io.py
@@ -347,7 +347,7 @@ def parse_csv(filename):
     event = []
     # Loop over lines
     for l in lines:
-        if not len(l.split(',')[0]) and not len(l.split(',')[1]):
+        if not l.replace(',', '').strip():
             # End OF event
             if len(event):
                 events_list.append(event)
-- 
2.43.0


From 1f53a3cf390117b5cd6bf291913d80418b288e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:29 +0000
Subject: [PATCH 75/98] fix: default csv event UIDs count the events even when
 they are identical

---
 src/MTfit/utilities/file_io.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/MTfit/utilities/file_io.py b/src/MTfit/utilities/file_io.py
index 9f4f5b3..d872236 100644
--- a/src/MTfit/utilities/file_io.py
+++ b/src/MTfit/utilities/file_io.py
@@ -398,8 +398,8 @@ def _parse_csv_events(events_list):
     take_off_angle_index = 2
     error_index = 4
     # Loop over events
-    for event in events_list:
-        event_dict = {'UID': str(events_list.index(event)+1)}
+    for i, event in enumerate(events_list):
+        event_dict = {'UID': str(i+1)}
         # Set up generic dictionary
         key_dict = {'Stations': {
             'Name': [], 'TakeOffAngle': [], 'Azimuth': []}, 'Measured': [], 'Error': []}
-- 
2.43.0


From 48ad1b79e50b480b56ff055a9d363f90362dc55b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:29 +0000
Subject: [PATCH 76/98] fix: csv UIDs which contain the text UID are kept whole

---
 src/MTfit/utilities/file_io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MTfit/utilities/file_io.py b/src/MTfit/utilities/file_io.py
index d872236..ebbd467 100644
--- a/src/MTfit/utilities/file_io.py
+++ b/src/MTfit/utilities/file_io.py
@@ -410,7 +410,7 @@ def _parse_csv_events(events_list):
                 # Try tp get UID
                 if 'UID' in split_line[0]:
                     event_dict['UID'] = split_line[0].split(
-                        'UID')[1].lstrip(':').lstrip('=').strip()
+                        'UID', 1)[1].strip().lstrip(':').lstrip('=').strip()
                 else:
                     # End of event
                     if len(key_dict['Stations']['Name']):
-- 
2.43.0


From 33f80ba521b890b26b5297c9f583341365c53d8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:29 +0000
Subject: [PATCH 77/98] fix: hyp phase lines are read by their columns when
 there is a prior weight

---
 src/MTfit/utilities/file_io.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/MTfit/utilities/file_io.py b/src/MTfit/utilities/file_io.py
index ebbd467..509533c 100644
--- a/src/MTfit/utilities/file_io.py
+++ b/src/MTfit/utilities/file_io.py
@@ -269,7 +269,10 @@ def _parse_hyp_events(events_list, polarity_error_multiplier=3.):
             if line[0] == 'END_PHASE':
                 phase = False
             # If in phase section, read data
-            if phase and len(line) >= 24:
+            if phase and len(line) >= 25:
+                # Angles follow the observation part of the line (newer NonLinLoc
+                # versions have an additional prior weight before the separator)
+                azimuth_index = line.index('>')+9 if '>' in line else 23
                 # Get station
                 station = line[0]
                 # Get phase
@@ -290,9 +293,9 @@ def _parse_hyp_events(events_list, polarity_error_multiplier=3.):
                     event_dict[
                         phase_type+'Polarity']['Error'].append(uncertainty*polarity_error_multiplier)
                     event_dict[
-                        phase_type+'Polarity']['Stations']['TakeOffAngle'].append([float(line[24])])
+                        phase_type+'Polarity']['Stations']['TakeOffAngle'].append([float(line[azimuth_index+1])])
                     event_dict[
-                        phase_type+'Polarity']['Stations']['Azimuth'].append([float(line[23])])
+                        phase_type+'Polarity']['Stations']['Azimuth'].append([float(line[azimuth_index])])
         # End of event, make data into appropriate structures
         for key in event_dict.keys():
             if key != 'UID':
-- 
2.43.0


From eb319a94ce8da076e0bd45d9d3e918a1ea912254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:59 +0000
Subject: [PATCH 78/98] fix: unknown first motions in hyp files are not
 polarity picks

---
 src/MTfit/utilities/file_io.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/MTfit/utilities/file_io.py b/src/MTfit/utilities/file_io.py
index 509533c..cf03883 100644
--- a/src/MTfit/utilities/file_io.py
+++ b/src/MTfit/utilities/file_io.py
@@ -278,7 +278,7 @@ def _parse_hyp_events(events_list, polarity_error_multiplier=3.):
                 # Get phase
                 phase_type = line[4]
                 # Get polarity
-                polarity = nlloc_polarity_dict[line[5].lower()]
+                polarity = nlloc_polarity_dict.get(line[5].lower(), 0)
                 # Get uncertainty
                 uncertainty = float(line[10])
                 # Get amplitude (unused)
@@ -719,11 +719,12 @@ def _generate_hyp_output_data(event_data, inversion_options=False, output_data=F
     for i in range(phase_line_index+2, end_phase_line_index+1):
         if len(lines[i]) < 24:
             continue
-        if _polarity_misfit_check(nlloc_polarity_dict[lines[i][5].lower()], float(lines[i][23]), float(lines[i][24]), lines[i][4], maxMT):
+        polarity = nlloc_polarity_dict.get(lines[i][5].lower(), 0)
+        if _polarity_misfit_check(polarity, float(lines[i][23]), float(lines[i][24]), lines[i][4], maxMT):
             mf += 1
-            lines[i][5] = nlloc_polarity_inv_dict[lines[i][4].upper()[0]][nlloc_polarity_dict[lines[i][5].lower()]].lower()
+            lines[i][5] = nlloc_polarity_inv_dict[lines[i][4].upper()[0]][polarity].lower()
         else:
-            lines[i][5] = nlloc_polarity_inv_dict[lines[i][4].upper()[0]][nlloc_polarity_dict[lines[i][5].lower()]].upper()
+            lines[i][5] = nlloc_polarity_inv_dict[lines[i][4].upper()[0]][polarity].upper()
 
         if lines[i][5] != '?':
             nobs += 1
-- 
2.43.0


From ef3340d5569299984bd9598190ed6ce13a4384bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:59 +0000
Subject: [PATCH 79/98] fix: hyp output can be written for hyp files with prior
 weights

---
 src/MTfit/utilities/file_io.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/MTfit/utilities/file_io.py b/src/MTfit/utilities/file_io.py
index cf03883..fee0dc8 100644
--- a/src/MTfit/utilities/file_io.py
+++ b/src/MTfit/utilities/file_io.py
@@ -689,8 +689,7 @@ def _generate_hyp_output_data(event_data, inversion_options=False, output_data=F
                               '{:5.1f}'.format(event_data[phase+'Polarity']['Stations']['TakeOffAngle'][i, 0]).lstrip(), '?', '?'])
         lines.append(['END_PHASE'])
         lines.append(['END_NLLOC'])
-    phase_line_index = lines.index(['PHASE', 'ID', 'Ins', 'Cmp', 'On', 'Pha', 'FM', 'Date', 'HrMn', 'Sec', 'Err', 'ErrMag', 'Coda',
-                                    'Amp', 'Per', '>', 'TTpred', 'Res', 'Weight', 'StaLoc(X', 'Y', 'Z)', 'SDist', 'SAzim', 'RAz', 'RDip', 'RQual', 'Tcorr'])
+    phase_line_index = [line[0] for line in lines].index('PHASE')
     end_phase_line_index = lines.index(['END_PHASE'])
     geog_line = [line for line in lines if line[0] == 'GEOGRAPHIC'][0]
     # GET PHASE LINE AND THEN PREPEND MT AND UPDATE misfit_checks
@@ -717,10 +716,11 @@ def _generate_hyp_output_data(event_data, inversion_options=False, output_data=F
     nobs = 0
     # Run polarity misfit checks
     for i in range(phase_line_index+2, end_phase_line_index+1):
-        if len(lines[i]) < 24:
+        if len(lines[i]) < 25:
             continue
+        azimuth_index = lines[i].index('>')+9 if '>' in lines[i] else 23
         polarity = nlloc_polarity_dict.get(lines[i][5].lower(), 0)
-        if _polarity_misfit_check(polarity, float(lines[i][23]), float(lines[i][24]), lines[i][4], maxMT):
+        if _polarity_misfit_check(polarity, float(lines[i][azimuth_index]), float(lines[i][azimuth_index+1]), lines[i][4], maxMT):
             mf += 1
             lines[i][5] = nlloc_polarity_inv_dict[lines[i][4].upper()[0]][polarity].lower()
         else:
-- 
2.43.0


From bd88223f241f909926c71e57e979f01d637a93ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:59 +0000
Subject: [PATCH 80/98] fix: scale factors are written to the binary output

---
 src/MTfit/utilities/file_io.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/MTfit/utilities/file_io.py b/src/MTfit/utilities/file_io.py
index fee0dc8..b7a5db5 100644
--- a/src/MTfit/utilities/file_io.py
+++ b/src/MTfit/utilities/file_io.py
@@ -604,10 +604,10 @@ def _convert_mt_space_to_struct(output_data, i=False):
     else:
         sf_output = ''
     if 'scale_factors' in output_data:
-        n_events = output_data['scale_factors']['mu'].shape[1]
+        n_events = output_data['scale_factors'][0]['mu'].shape[1] if len(output_data['scale_factors']) else 0
         sf_output = struct.pack('QQQ', output_data['total_number_samples'], len(output_data['scale_factors']), n_events)
         for i, sf in enumerate(output_data['scale_factors']):
-            sf_output += struct.pack('dd', output_data['probability'][0, i], output_data['ln_pdf'][0, i])
+            sf_output += struct.pack('dd', np.asarray(output_data['probability']).flatten()[i], np.asarray(output_data['ln_pdf']).flatten()[i])
             # Add data for each event - Loops over off diagonal elements
             k = 0
             _l = 1
-- 
2.43.0


From 041a947feb1f44fca0cb358e34edb0f237db7478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:59 +0000
Subject: [PATCH 81/98] fix: hyp output can be written for one dimensional
 station data

---
 src/MTfit/utilities/file_io.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/MTfit/utilities/file_io.py b/src/MTfit/utilities/file_io.py
index b7a5db5..ea36626 100644
--- a/src/MTfit/utilities/file_io.py
+++ b/src/MTfit/utilities/file_io.py
@@ -683,10 +683,10 @@ def _generate_hyp_output_data(event_data, inversion_options=False, output_data=F
         for phase in [key.split('Polarity')[0] for key in event_data.keys() if 'Polarity' in key and 'PolarityProb' not in key]:
             for i, station in enumerate(event_data[phase+'Polarity']['Stations']['Name']):
                 polarity = nlloc_polarity_inv_dict[phase[0]][
-                    event_data[phase+'Polarity']['Measured'][i, 0]]
+                    np.asarray(event_data[phase+'Polarity']['Measured']).flatten()[i]]
                 lines.append([station, '?', '?', '?', phase.upper(), polarity, '?', '?', '?', '?', '?', '?', '?', '?', '>', '?', '?', '?', '?', '?', '?', '?', '?',
-                              '{:5.1f}'.format(event_data[phase+'Polarity']['Stations']['Azimuth'][i, 0]).lstrip(),
-                              '{:5.1f}'.format(event_data[phase+'Polarity']['Stations']['TakeOffAngle'][i, 0]).lstrip(), '?', '?'])
+                              '{:5.1f}'.format(np.asarray(event_data[phase+'Polarity']['Stations']['Azimuth']).flatten()[i]).lstrip(),
+                              '{:5.1f}'.format(np.asarray(event_data[phase+'Polarity']['Stations']['TakeOffAngle']).flatten()[i]).lstrip(), '?', '?'])
         lines.append(['END_PHASE'])
         lines.append(['END_NLLOC'])
     phase_line_index = [line[0] for line in lines].index('PHASE')
-- 
2.43.0


From 3a04d2e0f8b65bcf2eeb927f07aafc59ff098dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:58 +0000
Subject: [PATCH 82/98] fix: csv files are not taken for pickled strings

---
 src/MTfit/inversion.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/MTfit/inversion.py b/src/MTfit/inversion.py
index 0a486c7..d464d1f 100644
--- a/src/MTfit/inversion.py
+++ b/src/MTfit/inversion.py
@@ -1517,10 +1517,15 @@ class Inversion(object):
         try:
             with open(filename, 'rb') as f:
                 data = pickle.load(f)
+            # Text files can have the start of a valid pickle
+            if not isinstance(data, (dict, list)):
+                raise ValueError('No pickled event data')
         except Exception:
             try:
                 with open(filename, 'r') as f:
                     data = pickle.load(f)
+                if not isinstance(data, (dict, list)):
+                    raise ValueError('No pickled event data')
             except Exception:
                 data = False
                 # Parser plug-in extensions.
-- 
2.43.0


From 81726c562405fdf56fb370e96f55dee721c8e52d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:08 +0000
Subject: [PATCH 83/98] fix: hyp output can be written for hyp files with other
 phases

---
 src/MTfit/utilities/file_io.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/MTfit/utilities/file_io.py b/src/MTfit/utilities/file_io.py
index ea36626..8166ca6 100644
--- a/src/MTfit/utilities/file_io.py
+++ b/src/MTfit/utilities/file_io.py
@@ -720,11 +720,17 @@ def _generate_hyp_output_data(event_data, inversion_options=False, output_data=F
             continue
         azimuth_index = lines[i].index('>')+9 if '>' in lines[i] else 23
         polarity = nlloc_polarity_dict.get(lines[i][5].lower(), 0)
-        if _polarity_misfit_check(polarity, float(lines[i][azimuth_index]), float(lines[i][azimuth_index+1]), lines[i][4], maxMT):
+        try:
+            misfit = _polarity_misfit_check(polarity, float(lines[i][azimuth_index]), float(lines[i][azimuth_index+1]), lines[i][4], maxMT)
+        except ValueError:
+            # Phase is not one that is modelled (e.g. Pg)
+            misfit = False
+        inv_dict = nlloc_polarity_inv_dict.get(lines[i][4].upper()[0], nlloc_polarity_inv_dict['P'])
+        if misfit:
             mf += 1
-            lines[i][5] = nlloc_polarity_inv_dict[lines[i][4].upper()[0]][polarity].lower()
+            lines[i][5] = inv_dict[polarity].lower()
         else:
-            lines[i][5] = nlloc_polarity_inv_dict[lines[i][4].upper()[0]][polarity].upper()
+            lines[i][5] = inv_dict[polarity].upper()
 
         if lines[i][5] != '?':
             nobs += 1
-- 
2.43.0


From a38fac89466e99f29bfa4bd18af46a9783ad8176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:48 +0000
Subject: [PATCH 84/98] fix: csv and hyp files are parsed rather than unpickled

---
 src/MTfit/inversion.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/MTfit/inversion.py b/src/MTfit/inversion.py
index d464d1f..c7532a4 100644
--- a/src/MTfit/inversion.py
+++ b/src/MTfit/inversion.py
@@ -1515,6 +1515,10 @@ class Inversion(object):
             data: Loaded data from filename or False if exception thrown.
         """
         try:
+            # Files with text extensions are parsed, as unpickling them can give
+            # other objects or exhaust the memory
+            if os.path.splitext(filename)[1] in ['.csv', '.hyp']:
+                raise ValueError('Not a pickle')
             with open(filename, 'rb') as f:
                 data = pickle.load(f)
             # Text files can have the start of a valid pickle
-- 
2.43.0


From 7b4c841ec6d5c092a2fbe7d9f351b1bde1cc81a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:57 +0000
Subject: [PATCH 85/98] fix: scatangle blocks can be separated by lines of
 blanks

---
 src/MTfit/extensions/scatangle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MTfit/extensions/scatangle.py b/src/MTfit/extensions/scatangle.py
index 3511d48..97c82b7 100644
--- a/src/MTfit/extensions/scatangle.py
+++ b/src/MTfit/extensions/scatangle.py
@@ -109,7 +109,7 @@ def parse_scatangle(filename, number_location_samples=0, bin_size=0, _use_c=True
     multiplier = 1.0
     # Loop over lines
     for line in station_file:
-        if line.lstrip('\r') == '\n':
+        if not line.strip():
             if len(record['Name']) and multiplier:
                 record['Azimuth'] = np.matrix(record['Azimuth']).T
                 record['TakeOffAngle'] = np.matrix(record['TakeOffAngle']).T
-- 
2.43.0


From 41bcb9ce5ea2d27926c162d326008681a899a2d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:39 +0000
Subject: [PATCH 86/98] fix: location samples are binned station by station

---
 src/MTfit/extensions/cscatangle.pyx | 20 +++++++++++++-------
 src/MTfit/extensions/scatangle.py   | 11 +++++++++--
 2 files changed, 22 insertions(+), 9 deletions(-)

diff --git a/src/MTfit/extensions/cscatangle.pyx b/src/MTfit/extensions/cscatangle.pyx
index 07cc21c..bb12e3f 100644
--- a/src/MTfit/extensions/cscatangle.pyx
+++ b/src/MTfit/extensions/cscatangle.pyx
@@ -39,7 +39,7 @@ from libc.math cimport M_SQRT2 as sqrt2
 @cython.wraparound(False)
 @cython.nonecheck(False)
 @cython.cdivision(True)
-cdef DTYPE_t[::1] get_multipliers(DTYPE_t[:,:,::1] angles,DTYPE_t bin_size,DTYPE_t [::1] multipliers) nogil:
+cdef DTYPE_t[::1] get_multipliers(DTYPE_t[:,:,::1] angles,LONG[::1] groups,DTYPE_t bin_size,DTYPE_t [::1] multipliers) nogil:
     cdef Py_ssize_t umax=angles.shape[0]
     cdef Py_ssize_t nsta=angles.shape[2]
     cdef Py_ssize_t u
@@ -49,7 +49,7 @@ cdef DTYPE_t[::1] get_multipliers(DTYPE_t[:,:,::1] angles,DTYPE_t bin_size,DTYPE
         if multipliers[u]==-1:
             continue
         for v in range(u+1,umax):  
-            if multipliers[v]>-1:
+            if multipliers[v]>-1 and groups[u]==groups[v]:
                 ok=1
                 for w in range(nsta):
                     ok=ok*(fabs(angles[u,0,w]-angles[v,0,w])<bin_size/2.)*(fabs(angles[u,1,w]-angles[v,1,w])<bin_size/2.)
@@ -63,18 +63,24 @@ cdef DTYPE_t[::1] get_multipliers(DTYPE_t[:,:,::1] angles,DTYPE_t bin_size,DTYPE
 
 
 cpdef bin_scatangle(sample_records,multipliers,bin_size):
-    cdef DTYPE_t[:,:,::1] angles=np.empty((len(sample_records),2,len(sample_records[0]['Name'])))
+    cdef DTYPE_t[:,:,::1] angles=np.zeros((len(sample_records),2,max([len(record['Name']) for record in sample_records])))
+    # Samples with the same stations are in the same group
+    cdef LONG[::1] groups=np.zeros(len(sample_records),dtype=np.longlong)
     cdef Py_ssize_t i
     cdef Py_ssize_t j
+    stations={}
     new_records=[]
     new_multipliers=[]
     for i,record in enumerate(sample_records):
         # print i,record
-        for j in range(len(record['Name'])):
-            angles[i,0,j]=record['TakeOffAngle'][j,0]
-            angles[i,1,j]=record['Azimuth'][j,0]
+        # Angles are compared station by station, whatever their order in the sample
+        order=sorted(range(len(record['Name'])),key=record['Name'].__getitem__)
+        groups[i]=stations.setdefault(tuple([record['Name'][k] for k in order]),len(stations))
+        for j,k in enumerate(order):
+            angles[i,0,j]=record['TakeOffAngle'][k,0]
+            angles[i,1,j]=record['Azimuth'][k,0]
     # print multipliers,bin_size,angles
-    multipliers=np.asarray(get_multipliers(angles,bin_size,multipliers)).flatten()
+    multipliers=np.asarray(get_multipliers(angles,groups,bin_size,multipliers)).flatten()
     for i,record in enumerate(sample_records):
         if multipliers[i]>0:
             new_records.append(record)
diff --git a/src/MTfit/extensions/scatangle.py b/src/MTfit/extensions/scatangle.py
index 97c82b7..4e6c963 100644
--- a/src/MTfit/extensions/scatangle.py
+++ b/src/MTfit/extensions/scatangle.py
@@ -158,17 +158,24 @@ def parse_scatangle(filename, number_location_samples=0, bin_size=0, _use_c=True
         else:
             logger.info('Python code used')
             t0 = time.time()
+            # Angles are compared station by station, whatever their order in the sample
+            station_orders = [sorted(range(len(record['Name'])), key=record['Name'].__getitem__) for record in sample_records]
             for i, record in enumerate(sample_records):
                 if not (i+1) % 10:
                     logger.info('{} records completed'.format(i+1))
                 j = i+1
                 multiplier = multipliers[i]
+                names = [record['Name'][k] for k in station_orders[i]]
                 while j < len(sample_records):
-                    toa_diff = sample_records[j]['TakeOffAngle']-record['TakeOffAngle']
-                    az_diff = sample_records[j]['Azimuth']-record['Azimuth']
+                    if [sample_records[j]['Name'][k] for k in station_orders[j]] != names:
+                        j += 1
+                        continue
+                    toa_diff = sample_records[j]['TakeOffAngle'][station_orders[j]]-record['TakeOffAngle'][station_orders[i]]
+                    az_diff = sample_records[j]['Azimuth'][station_orders[j]]-record['Azimuth'][station_orders[i]]
                     if np.max(np.abs(toa_diff)) < bin_size/2.0 and np.max(np.abs(az_diff)) < bin_size/2.0:
                         multiplier += multipliers.pop(j)
                         sample_records.pop(j)
+                        station_orders.pop(j)
                     else:
                         j += 1
                 new_multipliers.append(multiplier)
-- 
2.43.0


From 6ef73e240a34a114fbd664bfcdd2bfbee53da1b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:23 +0000
Subject: [PATCH 87/98] fix: six 3x3 tensors and matrices of six-vectors are
 read as samples by MTData

An array of shape (6, 3, 3) was taken for six-vectors, and a numpy matrix was
kept as one, which gave the mean the wrong shape.
---
 src/MTfit/plot/plot_classes.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/MTfit/plot/plot_classes.py b/src/MTfit/plot/plot_classes.py
index 39f4091..f3bbc2f 100644
--- a/src/MTfit/plot/plot_classes.py
+++ b/src/MTfit/plot/plot_classes.py
@@ -205,9 +205,8 @@ class MTData(object):
             numpy array: numpy array of moment tensor 6 vectors
         """
         # convert MTs to MT6
-        if not isinstance(MTs, np.ndarray):
-            MTs = np.array(MTs)
-        if 6 not in MTs.shape:
+        MTs = np.asarray(MTs)
+        if MTs.shape[-2:] == (3, 3) or 6 not in MTs.shape:
             # MT 33 as (:,3,3) 3 dimensional array
             if MTs.shape[-2:] == (3, 3):
                 # 3x3 matrix
@@ -218,7 +217,7 @@ class MTData(object):
                         new_mts[:, i] = np.array(
                             MT33_MT6(MTs[i, :, :])).flatten()
                 else:
-                    new_mts = MT33_MT6(MTs)
+                    new_mts = np.asarray(MT33_MT6(MTs))
             else:
                 raise ValueError('MTs shape, {} cannot be processed. The last two elements need to be 3,3 or it needs to be in six vector form'.format(MTs.shape))
         else:
-- 
2.43.0


From df74a7f615ee6930711c8138a43f12aff69804ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:23 +0000
Subject: [PATCH 88/98] fix: the ln_pdf of MTfit output is kept by MTData

The output holds it as a row, whose length was compared to the number of
samples, so that it was dropped.
---
 src/MTfit/plot/plot_classes.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/MTfit/plot/plot_classes.py b/src/MTfit/plot/plot_classes.py
index f3bbc2f..fe7daf7 100644
--- a/src/MTfit/plot/plot_classes.py
+++ b/src/MTfit/plot/plot_classes.py
@@ -175,6 +175,7 @@ class MTData(object):
         """Set ln_pdf samples, if the ln_pdf is the same size as the moment tensor."""
         if not isinstance(ln_pdf, (list, np.ndarray)):
             ln_pdf = [ln_pdf]
+        ln_pdf = np.array(ln_pdf).flatten()
         try:
             assert len(ln_pdf) == len(self)
         except AssertionError:
-- 
2.43.0


From 0dc8e1a679ba78e997a5e122a4bb0573a240d4a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:23 +0000
Subject: [PATCH 89/98] fix: MTData keeps converted parameters aligned when a
 selection is indexed

Selecting one sample left its parameters without the sample axis, so that
selecting from it again gave the wrong values. The probability of a single
sample and the stiffness tensor were dropped, and a selection of components was
taken for tensors when there were six samples.
---
 src/MTfit/plot/plot_classes.py | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/src/MTfit/plot/plot_classes.py b/src/MTfit/plot/plot_classes.py
index fe7daf7..520d943 100644
--- a/src/MTfit/plot/plot_classes.py
+++ b/src/MTfit/plot/plot_classes.py
@@ -240,14 +240,28 @@ class MTData(object):
         Returns
              MTData: new object with the corresponding moment tensors and any converted parameters.
         """
-        converted = self._get_converted(arg)
+        samples = self._get_samples(arg)
+        converted = self._get_converted((slice(None), samples))
         probability = []
-        if len(self.probability) > 1:
-            try:
-                probability = self.probability.__getitem__(arg)
-            except Exception:
-                probability = self.probability.__getitem__(arg[1])
-        return self.__class__(self.MTs.__getitem__(arg), probability, **converted)
+        if len(self.probability) == len(self):
+            probability = self.probability[samples]
+        return self.__class__(self.MTs[:, samples], probability, c=self.c, prior=self._prior, **converted)
+
+    def _get_samples(self, arg):
+        """
+        Get the indices of the samples selected by an index into the moment tensor array
+
+        Returns
+            numpy array: sample indices
+        """
+        samples = np.broadcast_to(np.arange(len(self)), self.MTs.shape)[arg]
+        components = np.broadcast_to(np.arange(6).reshape(6, 1), self.MTs.shape)[arg]
+        if samples.shape[:1] != (6,) or samples.ndim > 2:
+            raise IndexError('Only whole moment tensors can be selected')
+        samples = samples.reshape(6, -1)
+        if (samples != samples[0]).any() or (components.reshape(6, -1) != np.arange(6).reshape(6, 1)).any():
+            raise IndexError('Only whole moment tensors can be selected')
+        return samples[0]
 
     def __setitem__(self, arg, value):
         """
-- 
2.43.0


From f31711caf077c4890b22df3c0a57d80b9681782a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:23 +0000
Subject: [PATCH 90/98] fix: setting MTData samples updates their converted
 parameters

The parameters were updated with degrees and radians mixed, u and v from the
wrong conversion and the eigenvalues, clustered normals not at all.
---
 src/MTfit/plot/plot_classes.py | 154 ++-------------------------------
 1 file changed, 5 insertions(+), 149 deletions(-)

diff --git a/src/MTfit/plot/plot_classes.py b/src/MTfit/plot/plot_classes.py
index 520d943..63bbccb 100644
--- a/src/MTfit/plot/plot_classes.py
+++ b/src/MTfit/plot/plot_classes.py
@@ -26,7 +26,7 @@ from mpl_toolkits.mplot3d import proj3d
 from matplotlib.patches import FancyArrowPatch
 
 from MTfit.inversion import station_angles
-from MTfit.convert import MT33_MT6, toa_vec, tk_uv, E_tk, TNP_SDR, MT6_TNPE, E_GD, TP_FP, normal_SD, SDR_SDR, MT6_biaxes, E_uv
+from MTfit.convert import MT33_MT6, toa_vec, tk_uv, E_tk, TNP_SDR, MT6_TNPE, E_GD, TP_FP, normal_SD, SDR_SDR, MT6_biaxes
 from MTfit.utilities.extensions import get_extensions
 try:
     from MTfit.sampling import unique_columns, _6sphere_prior, ln_bayesian_evidence
@@ -390,160 +390,16 @@ class MTData(object):
 
     def _set_converted(self, arg):
         """
-        Sets the converted parameters for a new MTs set using __setitem__
+        Resets the converted parameters for a new MTs set using __setitem__
 
-        If a parameter has been set, the new moment tensors are converted to that parameter and set
-
-        (Includes parent parameters, i.e. those required to calculate the other parameters)
+        Any parameter that has been set is calculated from the moment tensors when it is next used.
 
         Args
             arg: index or slice of parameters to set.
         """
         self._clear_dependent_parameters()
-        T, N, P, E = MT6_TNPE(self.MTs[arg])
-        if 'phi1' in self.__dict__.keys():
-            phi, explosion, area_displacement = MT6_biaxes(
-                self.MTs[arg], self.c)
-            try:
-                self.phi1[arg] = (phi[:, :, 0]).T
-            except Exception:
-                self.phi1[arg[1]] = (phi[:, :, 0]).T
-            try:
-                self.phi2[arg] = (phi[:, :, 1]).T
-            except Exception:
-                self.phi2[arg[1]] = (phi[:, :, 1]).T
-            try:
-                self.area_displacement[arg] = area_displacement
-            except Exception:
-                self.area_displacement[arg[1]] = area_displacement
-            try:
-                self.explosion[arg] = explosion
-            except Exception:
-                self.explosion[arg[1]] = explosion
-        if 'T' in self.__dict__.keys():
-            try:
-                self.T[arg] = np.array(np.matrix(T))
-                self.N[arg] = np.array(np.matrix(N))
-                self.P[arg] = np.array(np.matrix(P))
-            except ValueError:
-                self.T[arg] = T.flatten()
-                self.N[arg] = N.flatten()
-                self.P[arg] = P.flatten()
-        if 'N1' in self.__dict__.keys():
-            N1, N2 = TP_FP(self.T, self.P)
-            try:
-                self.N1[arg] = np.matrix(N1)
-                self.N2[arg] = np.matrix(N2)
-            except ValueError:
-                self.N1[arg] = N1.flatten()
-                self.N2[arg] = N2.flatten()
-
-        if 'strike' in self.__dict__.keys():
-            strike, dip, rake = TNP_SDR(T, N, P)
-            try:
-                self.strike[arg] = strike*rad_deg
-            except Exception:
-                self.strike[arg[1]] = strike*rad_deg
-            try:
-                self.dip[arg] = dip*rad_deg
-            except Exception:
-                self.dip[arg[1]] = dip*rad_deg
-            try:
-                self.rake[arg] = rake*rad_deg
-            except Exception:
-                self.rake[arg[1]] = rake*rad_deg
-
-        if 'strike2' in self.__dict__.keys():
-            try:
-                strike2, dip2, rake2 = SDR_SDR(strike, dip, rake)
-            except Exception:
-                strike, dip, rake = TNP_SDR(T, N, P)
-                strike2, dip2, rake2 = SDR_SDR(strike, dip, rake)
-
-            try:
-                self.strike2[arg] = strike2*rad_deg
-            except Exception:
-                self.strike2[arg[1]] = strike2*rad_deg
-            try:
-                self.dip2[arg] = dip2*rad_deg
-            except Exception:
-                self.dip2[arg[1]] = dip2*rad_deg
-            try:
-                self.rake2[arg] = rake2*rad_deg
-            except Exception:
-                self.rake2[arg[1]] = rake2*rad_deg
-        if 'gamma' in self.__dict__.keys():
-            gamma, delta = E_GD(E)
-            try:
-                self.gamma[arg] = gamma
-            except Exception:
-                self.gamma[arg[1]] = gamma
-            try:
-                self.delta[arg] = delta
-            except Exception:
-                self.delta[arg[1]] = delta
-
-        if 'tau' in self.__dict__.keys():
-            tau, k = E_tk(E)
-            try:
-                self.tau[arg] = tau
-            except Exception:
-                self.tau[arg[1]] = tau
-            try:
-                self.k[arg] = k
-            except Exception:
-                self.k[arg[1]] = k
-
-        if 'u' in self.__dict__.keys():
-            try:
-                u, v = E_uv(tau, k)
-            except Exception:
-                tau, k = E_tk(E)
-                u, v = E_uv(tau, k)
-            try:
-                self.u[arg] = u
-            except Exception:
-                self.u[arg[1]] = u
-            try:
-                self.v[arg] = v
-            except Exception:
-                self.v[arg[1]] = v
-
-        if 'kappa' in self.__dict__.keys():
-            try:
-                kappa = strike
-                kappa[np.abs(rake) > 90] = strike2[np.abs(rake) > 90]
-                h = dip
-                h[np.abs(rake) > 90] = dip2[np.abs(rake) > 90]
-                h = np.cos(h/rad_deg)
-                sigma = rake
-                sigma[np.abs(rake) > 90] = rake2[np.abs(rake) > 90]
-                kappa = kappa/rad_deg
-                sigma = sigma/rad_deg
-            except Exception:
-                strike, dip, rake = TNP_SDR(T, N, P)
-                strike2, dip2, rake2 = SDR_SDR(strike, dip, rake)
-                kappa = strike
-                kappa[np.abs(rake) > 90] = strike2[np.abs(rake) > 90]
-                h = dip
-                h[np.abs(rake) > 90] = dip2[np.abs(rake) > 90]
-                h = np.cos(h/rad_deg)
-                sigma = rake
-                sigma[np.abs(rake) > 90] = rake2[np.abs(rake) > 90]
-                kappa = kappa/rad_deg
-                sigma = sigma/rad_deg
-            try:
-                self.kappa[arg] = kappa
-            except Exception:
-                self.kappa[arg[1]] = kappa
-            try:
-                self.h[arg] = h
-            except Exception:
-                self.h[arg[1]] = h
-            try:
-                self.sigma[arg] = sigma
-            except Exception:
-                self.sigma[arg[1]] = sigma
+        for key in self._calculable + ['phi1', 'phi2']:
+            self.__dict__.pop(key, None)
 
     def _convert(self, attr, *args, **kwargs):
         """
-- 
2.43.0


From f03739f712ee737d2d66136612d2d221275cb9c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:23 +0000
Subject: [PATCH 91/98] fix: MTData bi-axes are calculated on access and
 indexed with the samples

Accessing phi1 or phi2 failed unless another bi-axes parameter was used first,
and they were lost on indexing.
---
 src/MTfit/plot/plot_classes.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/src/MTfit/plot/plot_classes.py b/src/MTfit/plot/plot_classes.py
index 63bbccb..43689dd 100644
--- a/src/MTfit/plot/plot_classes.py
+++ b/src/MTfit/plot/plot_classes.py
@@ -113,7 +113,7 @@ class MTData(object):
                             'clustered_rake2', 'mean_strike', 'mean_dip', 'mean_rake',
                             'mean_normal', 'cov_clustered_N1', 'var_clustered_rake1',
                             'bayesian_evidence', 'ln_bayesian_evidence', 'mean', 'covariance',
-                            'max_probability', 'phi', 'explosion', 'area_displacement']
+                            'max_probability', 'phi1', 'phi2', 'explosion', 'area_displacement']
         self.c = c  # Stiffness tensor
         if isinstance(MTs, dict):
             # Assume output dictionary from MTfit
@@ -398,7 +398,7 @@ class MTData(object):
             arg: index or slice of parameters to set.
         """
         self._clear_dependent_parameters()
-        for key in self._calculable + ['phi1', 'phi2']:
+        for key in self._calculable:
             self.__dict__.pop(key, None)
 
     def _convert(self, attr, *args, **kwargs):
@@ -467,14 +467,11 @@ class MTData(object):
             self.v = v
         if attr in ['phi1', 'phi2', 'area_displacement', 'explosion']:
             phi, explosion, area_displacement = MT6_biaxes(self.MTs, self.c)
-            try:
-                self.phi1 = np.squeeze(phi[:, :, 0]).T
-                self.phi2 = np.squeeze(phi[:, :, 1]).T
-            except Exception:
-                self.phi1 = np.atleast_2d(phi[:, 0]).T
-                self.phi2 = np.atleast_2d(phi[:, 1]).T
-            self.area_displacement = area_displacement
-            self.explosion = explosion
+            phi = np.reshape(phi, (-1, 3, 2))
+            self.phi1 = phi[:, :, 0].T
+            self.phi2 = phi[:, :, 1].T
+            self.area_displacement = np.array(area_displacement).flatten()
+            self.explosion = np.array(explosion).flatten()
         if attr in ['tau', 'k']:
             tau, k = E_tk(self.E)
             self.tau = tau
-- 
2.43.0


From 7d9de920ce948a81f1b8e29fd0de78a29105dbbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:23 +0000
Subject: [PATCH 92/98] fix: MTData max_probability holds every maximum
 probability sample

It was cut to one sample after get_max_probability(single=True), and not
available for a single sample.
---
 src/MTfit/plot/plot_classes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/MTfit/plot/plot_classes.py b/src/MTfit/plot/plot_classes.py
index 43689dd..ca09f93 100644
--- a/src/MTfit/plot/plot_classes.py
+++ b/src/MTfit/plot/plot_classes.py
@@ -623,13 +623,13 @@ class MTData(object):
         Returns:
             MTData:  New MTData object with max probability MT samples.
         """
-        if not len(self.probability) > 1:
+        if len(self.probability) != len(self):
             raise ValueError('maximum probability requires probability to be set.')
         idx = self.probability == self.probability.max()
         new = self[:, idx]
+        self.max_probability = new
         if single and len(new) > 1:
             new = new[:, 0]
-        self.max_probability = new
         return new
 
     def get_mean(self):
-- 
2.43.0


From 77e01c872a77171b6747a4c84718c29270c540e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:51 +0000
Subject: [PATCH 93/98] fix: spherical projections about another axis

The projection axis option used the bitwise exclusive or for squares and
indices beyond the three components, so it always failed, and it rotated away
from the axis.
---
 src/MTfit/plot/spherical_projection.py | 30 ++++++++++++++------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/src/MTfit/plot/spherical_projection.py b/src/MTfit/plot/spherical_projection.py
index d49b849..49603c0 100644
--- a/src/MTfit/plot/spherical_projection.py
+++ b/src/MTfit/plot/spherical_projection.py
@@ -107,21 +107,23 @@ def __project(x, y, z, correction_function, projection_axis=False, lower=True, f
     x = np.array(x)
     y = np.array(y)
     z = np.array(z)
-    if isinstance(projection_axis, (list, np.ndarray)):
-        projection_axis = np.array(projection_axis).flatten()
+    if isinstance(projection_axis, (list, tuple, np.ndarray)):
+        # Rotate the projection axis on to the downward axis
+        projection_axis = np.array(projection_axis, dtype=float).flatten()
+        projection_axis = projection_axis/np.sqrt(np.sum(projection_axis**2))
         rAxis = np.cross(projection_axis, np.array([0, 0, 1]))
-        theta = - np.arcsin(np.sqrt(np.sum(rAxis ^ 2)) /
-                            (np.sqrt(np.sum(projection_axis ^ 2))))
-        rAxis = rAxis/np.sqrt(np.sum(rAxis ^ 2))
-        R = np.matrix([[1, 0, 0], [0, 1, 0], [0, 0, 1]])*np.cos(theta) + \
-            np.sin(theta)*np.matrix([[0, -rAxis[2], rAxis[1]],
-                                     [rAxis[2], 0, -rAxis[0]],
-                                     [-rAxis[1], rAxis[0], 0]]) + \
-            (1-np.cos(theta))*(np.matrix(rAxis).T*np.matrix(rAxis))
-        V = R*np.matrix([[x], [y], [z]])
-        x = V[1, :]
-        y = V[2, :]
-        z = V[3, :]
+        sin_theta = np.sqrt(np.sum(rAxis**2))
+        theta = np.arctan2(sin_theta, projection_axis[2])
+        if sin_theta > 0:
+            rAxis = rAxis/sin_theta
+        else:
+            rAxis = np.array([1, 0, 0])
+        R = np.eye(3)*np.cos(theta) + \
+            np.sin(theta)*np.array([[0, -rAxis[2], rAxis[1]],
+                                    [rAxis[2], 0, -rAxis[0]],
+                                    [-rAxis[1], rAxis[0], 0]]) + \
+            (1-np.cos(theta))*np.outer(rAxis, rAxis)
+        x, y, z = [R[i, 0]*x+R[i, 1]*y+R[i, 2]*z for i in range(3)]
     X = x*correction_function(x, y, z, lower)
     Y = y*correction_function(x, y, z, lower)
     if not full_sphere:
-- 
2.43.0


From 14e256cbe23a568a3ec9f7905aef8503e4e5005d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:51 +0000
Subject: [PATCH 94/98] fix: back projection of vectors next to the antipode of
 a full sphere projection

One of the coordinates can be infinite there and the other not a number, for
which the masks of the two differ.
---
 src/MTfit/plot/spherical_projection.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/MTfit/plot/spherical_projection.py b/src/MTfit/plot/spherical_projection.py
index 49603c0..0ad722b 100644
--- a/src/MTfit/plot/spherical_projection.py
+++ b/src/MTfit/plot/spherical_projection.py
@@ -136,8 +136,9 @@ def __project(x, y, z, correction_function, projection_axis=False, lower=True, f
     if back_project:
         X_b = -x*correction_function(-x, -y, -z, lower)
         Y_b = -y*correction_function(-x, -y, -z, lower)
-        X[np.isnan(X)] = X_b[np.isnan(Y)]
-        Y[np.isnan(Y)] = Y_b[np.isnan(Y)]
+        hidden = ~(np.isfinite(X) & np.isfinite(Y))
+        X[hidden] = X_b[hidden]
+        Y[hidden] = Y_b[hidden]
     X[np.isinf(X)] = np.nan
     Y[np.isinf(Y)] = np.nan
     return X, Y
-- 
2.43.0


From 26ae97c5875eac6b94f8c91bc1f904b0cb29a92a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:50 +0000
Subject: [PATCH 95/98] fix: MTData with a single sample can be indexed after
 conversion

The parameters of a single sample can be scalars, which cannot be indexed.
---
 src/MTfit/plot/plot_classes.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/MTfit/plot/plot_classes.py b/src/MTfit/plot/plot_classes.py
index ca09f93..a13f9c4 100644
--- a/src/MTfit/plot/plot_classes.py
+++ b/src/MTfit/plot/plot_classes.py
@@ -352,10 +352,14 @@ class MTData(object):
                 if arg is None:
                     converted[key] = getattr(self, key)
                 else:
+                    value = getattr(self, key)
+                    if len(self) == 1:
+                        # Conversions of a single sample can be without the sample axis
+                        value = np.reshape(value, (-1, 1) if np.size(value) > 1 else (1,))
                     try:
-                        converted[key] = getattr(self, key).__getitem__(arg)
+                        converted[key] = value.__getitem__(arg)
                     except Exception:
-                        converted[key] = getattr(self, key).__getitem__(arg[1])
+                        converted[key] = value.__getitem__(arg[1])
         return converted
 
     def _del_converted(self, arg=None):
-- 
2.43.0


From 4844a79765aa9dbd884575b1d34f0f9b4eea30ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:35 +0000
Subject: [PATCH 96/98] fix: clustering normals when three distances are equal

The indices of the shortest distances were compared to two values, which fails
when there are three of them.
---
 src/MTfit/plot/plot_classes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MTfit/plot/plot_classes.py b/src/MTfit/plot/plot_classes.py
index a13f9c4..8bd2910 100644
--- a/src/MTfit/plot/plot_classes.py
+++ b/src/MTfit/plot/plot_classes.py
@@ -525,7 +525,7 @@ class MTData(object):
             n2_2cos_theta = np.abs(self.N2[:, i].T*n2).max()
             dist = np.array([n1_1cos_theta, n1_2cos_theta, n2_1cos_theta, n2_2cos_theta])
             ind = np.nonzero(dist == max(dist))[0]
-            if (len(ind == 1) and (ind[0] == 0 or ind[0] == 3)) or (ind == [0, 3]).all():
+            if ind[0] == 0 or ind[0] == 3:
                 if (self.N1[:, i].T*n1).max() < 0:
                     N1 = -self.N1[:, i]
                 else:
-- 
2.43.0


From 9f5bf05af5073689591678a9aefa37cde74db74c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:11 +0000
Subject: [PATCH 97/98] fix: binning of angle coefficient samples compares
 every coefficient and keeps the weight in the compiled code

---
 src/MTfit/inversion.py                 | 29 +++-----
 src/MTfit/probability/cprobability.pyx | 93 +++++++++-----------------
 2 files changed, 42 insertions(+), 80 deletions(-)

diff --git a/src/MTfit/inversion.py b/src/MTfit/inversion.py
index c7532a4..4310047 100644
--- a/src/MTfit/inversion.py
+++ b/src/MTfit/inversion.py
@@ -2102,7 +2102,7 @@ class Inversion(object):
         if self.bin_angle_coefficient_samples > 0 and location_samples:
             (a_polarity, a1_amplitude_ratio, a2_amplitude_ratio, a_polarity_probability, extension_data,
              self.location_sample_multipliers) = bin_angle_coefficient_samples(a_polarity, a1_amplitude_ratio, a2_amplitude_ratio, a_polarity_probability, self.location_sample_multipliers,
-                                                                               self.bin_angle_coefficient_samples, extension_data)
+                                                                               extension_data, self.bin_angle_coefficient_samples)
         if isinstance(a_polarity, bool):
             incorrect_polarity_probability = incorrect_polarity_probability_2
         return (a_polarity, error_polarity, a1_amplitude_ratio, a2_amplitude_ratio, amplitude_ratio, percentage_error1_amplitude_ratio, percentage_error2_amplitude_ratio,
@@ -3680,9 +3680,10 @@ def bin_angle_coefficient_samples(a_polarity, a1_amplitude_ratio, a2_amplitude_r
          epsilon:[0] allowed difference for the samples to be binned together.
 
     Returns
-        a_polarity,a1_amplitude_ratio,a2_amplitude_ratio,a_polarity_prob,multipliers
+        a_polarity,a1_amplitude_ratio,a2_amplitude_ratio,a_polarity_prob,extension_data,multipliers
         np.arrays of station coefficents for each data type and the location sample multipliers.
     """
+    multipliers = location_sample_multipliers
     if epsilon > 0:
         import time
         if cprobability:
@@ -3698,25 +3699,15 @@ def bin_angle_coefficient_samples(a_polarity, a1_amplitude_ratio, a2_amplitude_r
             t0 = time.time()
             multipliers = []
             no_pop = np.ones((len(location_sample_multipliers),), dtype=bool)
+            coefficients = [a for a in (a_polarity, a1_amplitude_ratio, a2_amplitude_ratio, a_polarity_prob) if not isinstance(a, bool)]
             for i in range(len(location_sample_multipliers)):
+                if not no_pop[i]:
+                    continue
                 multiplier = location_sample_multipliers[i]
-                for j in range(i, len(location_sample_multipliers)):
-                    if no_pop[j]:
-                        diff_polarity = 0
-                        if not isinstance(a_polarity, bool):
-                            diff_polarity = a_polarity[:, i, :]-a_polarity[:, j, :]
-                        diff_polarity = 0
-                        if not isinstance(a1_amplitude_ratio, bool):
-                            diff_a1_amplitude_ratio = a1_amplitude_ratio[:, i, :]-a1_amplitude_ratio[:, j, :]
-                        diff_polarity = 0
-                        if not isinstance(a2_amplitude_ratio, bool):
-                            diff_a2_amplitude_ratio = a2_amplitude_ratio[:, i, :]-a2_amplitude_ratio[:, j, :]
-                        diff_polarity = 0
-                        if not isinstance(a_polarity_prob, bool):
-                            diff_polarity_prob = a_polarity_prob[:, i, :]-a_polarity_prob[:, j, :]
-                        if np.max([np.max(np.abs(diff_polarity)), np.max(np.abs(diff_a1_amplitude_ratio)), np.max(np.abs(diff_a2_amplitude_ratio)), np.max(np.abs(diff_polarity_prob))]) < epsilon:
-                            multiplier += location_sample_multipliers[j]
-                            no_pop[j] = 0
+                for j in range(i+1, len(location_sample_multipliers)):
+                    if no_pop[j] and all([np.max(np.abs(a[:, i, :]-a[:, j, :])) < epsilon for a in coefficients]):
+                        multiplier += location_sample_multipliers[j]
+                        no_pop[j] = False
                 multipliers.append(multiplier)
             print('Pytime = {}'.format(time.time()-t0))
             if not isinstance(a_polarity, bool):
diff --git a/src/MTfit/probability/cprobability.pyx b/src/MTfit/probability/cprobability.pyx
index 2649d4c..88e6b7d 100644
--- a/src/MTfit/probability/cprobability.pyx
+++ b/src/MTfit/probability/cprobability.pyx
@@ -1983,64 +1983,37 @@ cpdef random_dc(int x):
 @cython.wraparound(False)
 @cython.nonecheck(False)
 @cython.cdivision(True)
-cdef DTYPE_t[::1] get_angle_coeff_multipliers(DTYPE_t[:,:,::1] a_polarity,DTYPE_t[:,:,::1] a1_amplitude_ratio,DTYPE_t[:,:,::1] a2_amplitude_ratio,DTYPE_t[:,:,::1] a_polarity_prob,DTYPE_t[::1] multipliers,DTYPE_t epsilon) nogil:
-    cdef Py_ssize_t nsamples
-    cdef Py_ssize_t nsta
-    cdef Py_ssize_t kmax
-    cdef int polarity=0
-    cdef int amplitude_ratio=0
-    cdef int polarity_prob=0
-    if a_polarity.shape[0]>0:
-        nsta=a_polarity.shape[0]
-        nsamples=a_polarity.shape[1]
-        kmax=a_polarity.shape[2]
-        pol=1
-    if a1_amplitude_ratio.shape[0]>0:
-        if pol==0:
-            nsta=a1_amplitude_ratio.shape[0]
-            nsamples=a1_amplitude_ratio.shape[1]
-            kmax=a1_amplitude_ratio.shape[2]
-        amplitude_ratio=1
-    if a_polarity_prob.shape[0]>0:
-        if pol==0:
-            if amplitude_ratio==0:
-                nsta=a_polarity_prob.shape[0]
-                nsamples=a_polarity_prob.shape[1]
-                kmax=a_polarity_prob.shape[2]
-        polarity_prob=1
-    cdef Py_ssize_t u
+cdef int angle_coeff_close(DTYPE_t[:,:,::1] a,Py_ssize_t u,Py_ssize_t v,DTYPE_t epsilon) nogil:
     cdef Py_ssize_t w
-    cdef int ok=1
-    for u in range(nsamples):
-        if multipliers[u]==-1:
+    cdef Py_ssize_t k
+    for w in range(a.shape[0]):
+        for k in range(a.shape[2]):
+            if not fabs(a[w,u,k]-a[w,v,k])<epsilon:
+                return 0
+    return 1
+
+@cython.boundscheck(False)
+@cython.wraparound(False)
+@cython.nonecheck(False)
+@cython.cdivision(True)
+cdef void get_angle_coeff_multipliers(DTYPE_t[:,:,::1] a_polarity,DTYPE_t[:,:,::1] a1_amplitude_ratio,DTYPE_t[:,:,::1] a2_amplitude_ratio,DTYPE_t[:,:,::1] a_polarity_prob,DTYPE_t[::1] multipliers,LONG[::1] keep,DTYPE_t epsilon) nogil:
+    cdef Py_ssize_t u
+    cdef Py_ssize_t v
+    for u in range(multipliers.shape[0]):
+        if keep[u]==0:
             continue
-        for v in range(u,nsamples):  
-            if multipliers[v]>-1:
-                ok=1
-                for w in range(nsta):
-                    for k in range(kmax):
-                        if pol>0:
-                            ok*=(fabs(a_polarity[w,u,k]-a_polarity[w,v,k])<epsilon)
-                        if polarity_prob>0:
-                            ok*=(fabs(a_polarity_prob[w,u,k]-a_polarity_prob[w,v,k])<epsilon)
-                        if amplitude_ratio>0:
-                            ok*=(fabs(a1_amplitude_ratio[w,u,k]-a1_amplitude_ratio[w,v,k])<epsilon)*(fabs(a2_amplitude_ratio[w,u,k]-a2_amplitude_ratio[w,v,k])<epsilon)
-                    if ok==0:
-                        break
-                if w==nsta-1 and ok>0:
-                    multipliers[u]+=multipliers[v]
-                    if v>u:
-                        multipliers[v]=-1
-    return multipliers
+        for v in range(u+1,multipliers.shape[0]):
+            if keep[v]>0 and angle_coeff_close(a_polarity,u,v,epsilon) and angle_coeff_close(a1_amplitude_ratio,u,v,epsilon) and angle_coeff_close(a2_amplitude_ratio,u,v,epsilon) and angle_coeff_close(a_polarity_prob,u,v,epsilon):
+                multipliers[u]+=multipliers[v]
+                keep[v]=0
 
 @cython.boundscheck(False)
 @cython.wraparound(False)
 @cython.nonecheck(False)
 @cython.cdivision(True)
 cpdef bin_angle_coefficient_samples(a_polarity,a1_amplitude_ratio,a2_amplitude_ratio,a_polarity_prob,location_sample_multipliers,ext_data,epsilon):
-    cdef DTYPE_t[::1] multipliers=np.array(location_sample_multipliers)
-    new_records=[]
-    new_multipliers=[]
+    multipliers=np.array(location_sample_multipliers,dtype=np.float64).flatten()
+    kept=np.ones(multipliers.shape,dtype=np.longlong)
     polarity=False
     amplitude_ratio=False
     polarity_prob=False
@@ -2057,30 +2030,28 @@ cpdef bin_angle_coefficient_samples(a_polarity,a1_amplitude_ratio,a2_amplitude_r
         polarity_prob=True
     else:
         a_polarity_prob=np.empty((0,0,0))
-    # print multipliers,bin_size,angles
-    multipliers=np.asarray(get_angle_coeff_multipliers(a_polarity,a1_amplitude_ratio,a2_amplitude_ratio,a_polarity_prob,np.array(location_sample_multipliers,dtype=np.longlong),epsilon)).flatten()
-    cdef Py_ssize_t i
-    for i,record in enumerate(multipliers):
-        if multipliers[i]>0:
-            new_multipliers.append(multipliers[i])
+    get_angle_coeff_multipliers(np.ascontiguousarray(a_polarity,dtype=np.float64),np.ascontiguousarray(a1_amplitude_ratio,dtype=np.float64),np.ascontiguousarray(a2_amplitude_ratio,dtype=np.float64),
+                                np.ascontiguousarray(a_polarity_prob,dtype=np.float64),multipliers,kept,epsilon)
+    kept=kept>0
+    new_multipliers=list(multipliers[kept])
     if polarity:
-        a_polarity=np.ascontiguousarray(a_polarity[:,np.asarray(multipliers)>0,:])
+        a_polarity=np.ascontiguousarray(a_polarity[:,kept,:])
     else:
         a_polarity=False
     if amplitude_ratio:
-        a1_amplitude_ratio=np.ascontiguousarray(a1_amplitude_ratio[:,np.asarray(multipliers)>0,:])
-        a2_amplitude_ratio=np.ascontiguousarray(a2_amplitude_ratio[:,np.asarray(multipliers)>0,:])
+        a1_amplitude_ratio=np.ascontiguousarray(a1_amplitude_ratio[:,kept,:])
+        a2_amplitude_ratio=np.ascontiguousarray(a2_amplitude_ratio[:,kept,:])
     else:
         a1_amplitude_ratio=False
         a2_amplitude_ratio=False
     if  polarity_prob:
-        a_polarity_prob=np.ascontiguousarray(a_polarity_prob[:,np.asarray(multipliers)>0,:])
+        a_polarity_prob=np.ascontiguousarray(a_polarity_prob[:,kept,:])
     else:
         a_polarity_prob=False
     for key in ext_data.keys():
         for k in ext_data[key].keys():
             if k[:2]=='a_' or k[0]=='a' and k[2]=='_':
-                ext_data[key][k]=np.ascontiguousarray(ext_data[key][k][:,np.asarray(multipliers)>0,:])
+                ext_data[key][k]=np.ascontiguousarray(ext_data[key][k][:,kept,:])
     return a_polarity,a1_amplitude_ratio,a2_amplitude_ratio,a_polarity_prob,ext_data,new_multipliers
 
 @cython.boundscheck(False)
-- 
2.43.0


From cfc05bf407e7542337eba415bf2341232065e142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:17 +0000
Subject: [PATCH 98/98] fix: bi-axes of a CLVD are not undefined when rounding
 makes the other eigenvalue negative

---
 src/MTfit/convert/cmoment_tensor_conversion.pyx | 4 ++--
 src/MTfit/convert/moment_tensor_conversion.py   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/MTfit/convert/cmoment_tensor_conversion.pyx b/src/MTfit/convert/cmoment_tensor_conversion.pyx
index 308e8fa..1910bb0 100644
--- a/src/MTfit/convert/cmoment_tensor_conversion.pyx
+++ b/src/MTfit/convert/cmoment_tensor_conversion.pyx
@@ -495,8 +495,8 @@ def MT6_biaxes(DTYPE_t[:]MT6,list c):
     area_displacement = E[0]-E[2]
     phi=np.zeros((3,2))  
     if area_displacement!=0:      # to avoid undefined
-        cphi=np.squeeze(np.sqrt(E[0]/area_displacement))
-        sphi=np.squeeze(np.sqrt(-E[2]/area_displacement))
+        cphi=np.squeeze(np.sqrt(max(E[0], 0)/area_displacement))
+        sphi=np.squeeze(np.sqrt(max(-E[2], 0)/area_displacement))
         phi[:,0]=np.array(cphi*T+sphi*P).flatten()
         phi[:,1]=np.array(cphi*T-sphi*P).flatten()
     return phi,explosion,area_displacement
diff --git a/src/MTfit/convert/moment_tensor_conversion.py b/src/MTfit/convert/moment_tensor_conversion.py
index 87eea1c..32f6767 100644
--- a/src/MTfit/convert/moment_tensor_conversion.py
+++ b/src/MTfit/convert/moment_tensor_conversion.py
@@ -1040,8 +1040,8 @@ def MT6_biaxes(MT6, c=isotropic_c(lambda_=1, mu=1)):
         area_displacement = E[0]-E[2]
         phi = np.zeros((3, 2))
         if area_displacement != 0:      # to avoid undefined
-            cphi = np.squeeze(np.sqrt(E[0]/area_displacement))
-            sphi = np.squeeze(np.sqrt(-E[2]/area_displacement))
+            cphi = np.squeeze(np.sqrt(max(E[0], 0)/area_displacement))
+            sphi = np.squeeze(np.sqrt(max(-E[2], 0)/area_displacement))
             phi[:, 0] = np.array(cphi*T+sphi*P).flatten()
             phi[:, 1] = np.array(cphi*T-sphi*P).flatten()
     return phi, explosion, area_displacement
-- 
2.43.0

