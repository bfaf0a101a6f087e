From c0f199b554941cdf73a391c478e33809343bcf7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:19 +0000
Subject: [PATCH 01/71] fix: accept a mispick probability when there is a
 single polarity station

---
 src/MTfit/probability/probability.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/MTfit/probability/probability.py b/src/MTfit/probability/probability.py
index 065512e..a39f261 100644
--- a/src/MTfit/probability/probability.py
+++ b/src/MTfit/probability/probability.py
@@ -115,7 +115,7 @@ def polarity_ln_pdf(a, mt, sigma, incorrect_polarity_probability=0.0, _use_c=Non
             # Handle incorrect polarity probability
             if isinstance(incorrect_polarity_probability, (float, int)):
                 incorrect_polarity_probability = np.ones(sigma.shape)*incorrect_polarity_probability
-            incorrect_polarity_probability = np.squeeze(incorrect_polarity_probability)
+            incorrect_polarity_probability = np.atleast_1d(np.squeeze(incorrect_polarity_probability))
             if incorrect_polarity_probability.ndim != 1:
                 raise TypeError('Variable: incorrect_polarity_probability is expected to be a one-dimensional numpy array or a float')
             # Check types and convert to the correct types in place
@@ -230,7 +230,7 @@ def polarity_probability_ln_pdf(a, mt, positive_probability, negative_probabilit
             # Handle incorrect polarity probability
             if isinstance(incorrect_polarity_probability, (float, int)):
                 incorrect_polarity_probability = np.ones(positive_probability.shape)*incorrect_polarity_probability
-            incorrect_polarity_probability = np.squeeze(incorrect_polarity_probability)
+            incorrect_polarity_probability = np.atleast_1d(np.squeeze(incorrect_polarity_probability))
             if incorrect_polarity_probability.ndim != 1:
                 raise TypeError('Variable: incorrect_polarity_probability is expected to be a one-dimensional numpy array or a float')
             # Check types and convert to the correct types in place
-- 
2.43.0


From 5f9fd779c8db9ce4be674a80dbe56cfafa08016b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:19 +0000
Subject: [PATCH 02/71] fix: polarity likelihoods of a nodal amplitude in the
 compiled code

Zero amplitude with zero uncertainty gave 0/0=NaN and the polarity probability
step function returned 0.5 instead of 0.5*(p+n).
---
 src/MTfit/probability/cprobability.pyx | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/MTfit/probability/cprobability.pyx b/src/MTfit/probability/cprobability.pyx
index 0f776b8..06775ac 100644
--- a/src/MTfit/probability/cprobability.pyx
+++ b/src/MTfit/probability/cprobability.pyx
@@ -211,6 +211,9 @@ cdef inline DTYPE_t gaussian_cdf(DTYPE_t x,DTYPE_t mu,DTYPE_t s) nogil:
 @cython.cdivision(True)
 cdef inline DTYPE_t pol_pdf(DTYPE_t x,DTYPE_t s,DTYPE_t i) nogil:
     # print x,s,i,0.5*((1-i)*(1+erf(x/(sqrt2*s)))+i*(1+erf(-x/(sqrt2*s))))
+    if x==0:
+        # no preferred polarity (also avoids 0/0 for zero uncertainty)
+        return 0.5
     return 0.5*((1-i)*(1+erf(x/(sqrt2*s)))+i*(1+erf(-x/(sqrt2*s))))
 
 @cython.boundscheck(False)
@@ -221,7 +224,7 @@ cdef inline DTYPE_t pol_prob_pdf(DTYPE_t x,DTYPE_t p,DTYPE_t n,DTYPE_t i) nogil:
     if x>0:
        return (1-i)*p+i*n
     elif x==0:
-        return 0.5
+        return 0.5*(p+n)
     else:
         return (1-i)*n+i*p
 
-- 
2.43.0


From 6d4d2a960bbdd1b6dde07beaf853c508b536a4e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:26 +0000
Subject: [PATCH 03/71] fix: use every station when combining data types with
 different numbers of stations

The compiled combined likelihood dropped polarity stations beyond the number of
polarity probability stations, accumulated the polarity amplitude of the previous
station and read outside the amplitude ratio arrays.
---
 src/MTfit/probability/cprobability.pyx | 105 +++++--------------------
 1 file changed, 21 insertions(+), 84 deletions(-)

diff --git a/src/MTfit/probability/cprobability.pyx b/src/MTfit/probability/cprobability.pyx
index 06775ac..d1cf81e 100644
--- a/src/MTfit/probability/cprobability.pyx
+++ b/src/MTfit/probability/cprobability.pyx
@@ -420,99 +420,37 @@ cdef void station_combined_all_ln_pdf(DTYPE_t*a,DTYPE_t*a_prob,DTYPE_t*ax,DTYPE_
     cdef DTYPE_t muy=0.0
     cdef DTYPE_t x=0.0 
     cdef DTYPE_t x1=0.0     
-    cdef Py_ssize_t utmin=umax
     cdef Py_ssize_t utmax=uarmax
-    if umax>uarmax:
+    if umax>utmax:
         utmax=umax
-        utmin=uarmax
-    if uprobmax<utmin:
-        utmin=uprobmax
     if uprobmax>utmax:
         utmax=uprobmax
     for u from 0<=u<utmax:
-        if u<utmin:#all
-            x=0
-            x1=0
-            mux=0
-            muy=0
+        #First index is station, second is locaton sample, last is MT sample
+        #Each data type has its own number of stations
+        if u<umax:#Pol
+            x=0.
             for k from 0<=k<kmax:# loop over num mt samples and make x
                 x+=a[u*vmax*kmax+v*kmax+k]*mt[k*wmax+w]
+            if ipmax==1:
+                ln_P[index]+=log(pol_pdf(x,sigma[u],incorrect_polarity_prob[0]))
+            else:
+                ln_P[index]+=log(pol_pdf(x,sigma[u],incorrect_polarity_prob[u]))
+        if u<uprobmax:#Pol prob
+            x1=0.
+            for k from 0<=k<kmax:# loop over num mt samples and make x
                 x1+=a_prob[u*vmax*kmax+v*kmax+k]*mt[k*wmax+w]
-                mux+=ax[u*vmax*kmax+v*kmax+k]*mt[k*wmax+w]
-                muy+=ay[u*vmax*kmax+v*kmax+k]*mt[k*wmax+w]
-            #First index is station, second is locaton sample, last is MT sample
             if ipmax==1:
-                ln_P[index]+=log(pol_pdf(x,sigma[u],incorrect_polarity_prob[0]))+log(pol_prob_pdf(x1,positive_probability[u],negative_probability[u],incorrect_polarity_prob[0]))+log(ar_pdf(z[u],mux,muy,psx[u],psy[u]))
+                ln_P[index]+=log(pol_prob_pdf(x1,positive_probability[u],negative_probability[u],incorrect_polarity_prob[0]))
             else:
-                ln_P[index]+=log(pol_pdf(x,sigma[u],incorrect_polarity_prob[u]))+log(pol_prob_pdf(x1,positive_probability[u],negative_probability[u],incorrect_polarity_prob[u]))+log(ar_pdf(z[u],mux,muy,psx[u],psy[u]))
-        elif u>=umax:#AR +pol?
-            if u>=uprobmax:#AR Only
-                mux=0.
-                muy=0.
-                for k from 0<=k<kmax:# loop over num mt samples and make x
-                    mux+=ax[u*vmax*kmax+v*kmax+k]*mt[k*wmax+w]
-                    muy+=ay[u*vmax*kmax+v*kmax+k]*mt[k*wmax+w]
-                if ipmax==1:
-                    ln_P[index]+=log(ar_pdf(z[u],mux,muy,psx[u],psy[u]))
-                else:
-                    ln_P[index]+=log(ar_pdf(z[u],mux,muy,psx[u],psy[u]))   
-            else:#AR +pol prob
-                x1=0
-                mux=0
-                muy=0
-                for k from 0<=k<kmax:# loop over num mt samples and make x
-                    x1+=a_prob[u*vmax*kmax+v*kmax+k]*mt[k*wmax+w]
-                    mux+=ax[u*vmax*kmax+v*kmax+k]*mt[k*wmax+w]
-                    muy+=ay[u*vmax*kmax+v*kmax+k]*mt[k*wmax+w]
-                #First index is station, second is locaton sample, last is MT sample
-                if ipmax==1:
-                    ln_P[index]+=log(pol_prob_pdf(x1,positive_probability[u],negative_probability[u],incorrect_polarity_prob[0]))+log(ar_pdf(z[u],mux,muy,psx[u],psy[u]))
-                else:
-                    ln_P[index]+=log(pol_prob_pdf(x1,positive_probability[u],negative_probability[u],incorrect_polarity_prob[u]))+log(ar_pdf(z[u],mux,muy,psx[u],psy[u]))
-        elif u>=uprobmax:#AR +pol?
-            if u>=umax:#AR Only
-                mux=0.
-                muy=0.
-                for k from 0<=k<kmax:# loop over num mt samples and make x
-                    mux+=ax[u*vmax*kmax+v*kmax+k]*mt[k*wmax+w]
-                    muy+=ay[u*vmax*kmax+v*kmax+k]*mt[k*wmax+w]
-                if ipmax==1:
-                    ln_P[index]+=log(ar_pdf(z[u],mux,muy,psx[u],psy[u]))
-                else:
-                    ln_P[index]+=log(ar_pdf(z[u],mux,muy,psx[u],psy[u]))   
-            else:#AR +pol prob
-                x1=0
-                mux=0
-                muy=0
-                for k from 0<=k<kmax:# loop over num mt samples and make x
-                    x+=a[u*vmax*kmax+v*kmax+k]*mt[k*wmax+w]
-                    mux+=ax[u*vmax*kmax+v*kmax+k]*mt[k*wmax+w]
-                    muy+=ay[u*vmax*kmax+v*kmax+k]*mt[k*wmax+w]
-                #First index is station, second is locaton sample, last is MT sample
-                if ipmax==1:
-                    ln_P[index]+=log(pol_pdf(x,sigma[u],incorrect_polarity_prob[0]))+log(ar_pdf(z[u],mux,muy,psx[u],psy[u]))
-                else:
-                    ln_P[index]+=log(pol_pdf(x,sigma[u],incorrect_polarity_prob[u]))+log(ar_pdf(z[u],mux,muy,psx[u],psy[u]))
-        else:#Pol prob +pol?
-            if u>=uprobmax:#Pol Only
-                x=0.
-                for k from 0<=k<kmax:# loop over num mt samples and make x
-                    x+=a[u*vmax*kmax+v*kmax+k]*mt[k*wmax+w]
-                if ipmax==1:
-                    ln_P[index]+=log(pol_pdf(x,sigma[u],incorrect_polarity_prob[0]))
-                else:
-                    ln_P[index]+=log(pol_pdf(x,sigma[u],incorrect_polarity_prob[u]))  
-            else:#Pol +pol prob
-                x1=0.
-                x=0.
-                for k from 0<=k<kmax:# loop over num mt samples and make x
-                    x+=a[u*vmax*kmax+v*kmax+k]*mt[k*wmax+w]
-                    x1+=a_prob[u*vmax*kmax+v*kmax+k]*mt[k*wmax+w]
-                #First index is station, second is locaton sample, last is MT sample
-                if ipmax==1:
-                    ln_P[index]+=log(pol_prob_pdf(x1,positive_probability[u],negative_probability[u],incorrect_polarity_prob[0]))+log(pol_pdf(x,sigma[u],incorrect_polarity_prob[0]))
-                else:
-                    ln_P[index]+=log(pol_prob_pdf(x1,positive_probability[u],negative_probability[u],incorrect_polarity_prob[u]))+log(pol_pdf(x,sigma[u],incorrect_polarity_prob[u]))
+                ln_P[index]+=log(pol_prob_pdf(x1,positive_probability[u],negative_probability[u],incorrect_polarity_prob[u]))
+        if u<uarmax:#AR
+            mux=0.
+            muy=0.
+            for k from 0<=k<kmax:# loop over num mt samples and make x
+                mux+=ax[u*vmax*kmax+v*kmax+k]*mt[k*wmax+w]
+                muy+=ay[u*vmax*kmax+v*kmax+k]*mt[k*wmax+w]
+            ln_P[index]+=log(ar_pdf(z[u],mux,muy,psx[u],psy[u]))
         if ln_P[index]==-inf:
             return 
 
@@ -529,7 +467,6 @@ cdef void station_combined_pol_ln_pdf(DTYPE_t*a,DTYPE_t*a_prob,DTYPE_t*mt,DTYPE_
     if umax>uprobmax:
         utmax=umax
         utmin=uprobmax
-        utmax=uprobmax
     for u from 0<=u<utmax:
         if u<utmin:#all
             x=0
-- 
2.43.0


From ff7985f5a3fe795c030b54109387271da3f5184a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:57 +0000
Subject: [PATCH 04/71] fix: use polarity probabilities in the pure Python
 forward task

They were passed with the wrong arguments (so silently ignored), and dropped
altogether when manual polarities were present too.
---
 src/MTfit/inversion.py | 42 +++++++++++++++++++++---------------------
 1 file changed, 21 insertions(+), 21 deletions(-)

diff --git a/src/MTfit/inversion.py b/src/MTfit/inversion.py
index 418074d..357d9f8 100644
--- a/src/MTfit/inversion.py
+++ b/src/MTfit/inversion.py
@@ -253,16 +253,13 @@ class ForwardTask(object):
                         ln_p_total = np.zeros((self.a_polarity_prob.shape[1], self.mt.shape[1]))
                     else:
                         ln_p_total = np.zeros((1, self.mt.shape[1]))
-                    # Set manual polarities flag
-                    manual_polarities = False
                     try:
                         # Ignore np.divide errors
                         with warnings.catch_warnings() and np.errstate(divide='ignore'):
                             warnings.simplefilter("ignore")
                             # polarity ln_pdf (will try to use cython again, and only fall back to python if necessary)
                             ln_p_total = polarity_ln_pdf(self.a_polarity, self.mt, self.error_polarity, self.incorrect_polarity_prob)
-                        # Set manual_polarities (don't use auto-polarities) and return flags (have evaluated a PDF)
-                        manual_polarities = True
+                        # Set return flag (have evaluated a PDF)
                         _return = True
                         # Print number of non zero samples (Verbosity>=3)
                         logger.debug('Polarity non-zero samples = {}'.format(sum(ln_p_total > -np.inf)))
@@ -272,23 +269,26 @@ class ForwardTask(object):
                             logger.exception('Polarity Exception')
                     # Force garbage collect to tidy memory
                     gc.collect()
-                    # If manual polarity data didn't work or doesn't exist, try automated polarities
-                    if not manual_polarities:
-                        try:
-                            # Ignore np.divide errors
-                            with warnings.catch_warnings() and np.errstate(divide='ignore'):
-                                warnings.simplefilter("ignore")
-                                # Polarity probability ln_pdf (will try to use cython again, and only fall back to python if necessary)
-                                ln_p_total = polarity_probability_ln_pdf(np.tensordot(self.a_polarity_prob, self.mt, 1), self.polarity_prob[0], self.polarity_prob[1], self.incorrect_polarity_prob)
-                            _return = True
-                            # Print number of non zero samples (Verbosity>=3)
-                            logger.debug('Polarity probability non-zero samples = {}'.format(sum(ln_p_total > -np.inf)))
-                        except Exception:
-                            # Exception  - check if data exists and print output, otherwise ignore
-                            if not isinstance(self.a_polarity_prob, np.ndarray) and self.a_polarity_prob:
-                                logging.exception('Polarity PDF Exception')
-                        # Force garbage collect to tidy memory
-                        gc.collect()
+                    # Add the automated polarities if there are any
+                    try:
+                        # Ignore np.divide errors
+                        with warnings.catch_warnings() and np.errstate(divide='ignore'):
+                            warnings.simplefilter("ignore")
+                            # Polarity probability ln_pdf (will try to use cython again, and only fall back to python if necessary)
+                            ln_p_pol_prob = polarity_probability_ln_pdf(self.a_polarity_prob, self.mt, self.polarity_prob[0], self.polarity_prob[1], self.incorrect_polarity_prob)
+                        if _return:
+                            ln_p_total = ln_p_total+ln_p_pol_prob
+                        else:
+                            ln_p_total = ln_p_pol_prob
+                        _return = True
+                        # Print number of non zero samples (Verbosity>=3)
+                        logger.debug('Polarity probability non-zero samples = {}'.format(sum(ln_p_pol_prob > -np.inf)))
+                    except Exception:
+                        # Exception  - check if data exists and print output, otherwise ignore
+                        if not isinstance(self.a_polarity_prob, np.ndarray) and self.a_polarity_prob:
+                            logging.exception('Polarity PDF Exception')
+                    # Force garbage collect to tidy memory
+                    gc.collect()
                     # Check if  any probabilities are non zero otherwise return
                     if not ln_p_total.max() > -np.inf:
                         if not self._return_zero:
-- 
2.43.0


From c808c77ef1d4c5d391b13ed10f627012b05f5e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:30 +0000
Subject: [PATCH 05/71] fix: log-domain marginalisation and normalisation for
 any magnitude

Only negative maxima were scaled (positive log values overflowed to inf), the pure
Python marginalisation used one scale for every column (underflowing small columns
to zero), the compiled paths ignored dV and the compiled normalisation changed its
input in place.
---
 src/MTfit/probability/cprobability.pyx | 30 ++++++++---------
 src/MTfit/probability/probability.py   | 46 ++++++++++++--------------
 2 files changed, 36 insertions(+), 40 deletions(-)

diff --git a/src/MTfit/probability/cprobability.pyx b/src/MTfit/probability/cprobability.pyx
index d1cf81e..58fcc37 100644
--- a/src/MTfit/probability/cprobability.pyx
+++ b/src/MTfit/probability/cprobability.pyx
@@ -85,13 +85,11 @@ IF UNAME_SYSNAME == "Windows":
                 for v from 0<=v<vmax:
                     if ln_p[v,w]>scale:
                         scale=ln_p[v,w]
-                if scale>0:
-                    scale=0
                 if scale==-inf:
                     scale=0
                 for v from 0<=v<vmax:
-                    p+=exp(ln_p[v,w]+fabs(scale))
-                Ln_P[w]=log(p)-fabs(scale)
+                    p+=exp(ln_p[v,w]-scale)
+                Ln_P[w]=log(p)+scale
         return np.asarray(Ln_P)
 
     @cython.boundscheck(False)
@@ -104,13 +102,13 @@ IF UNAME_SYSNAME == "Windows":
         for w from 0<=w<wmax:            
             if scale<ln_p[w]:
                 scale=ln_p[w]
-        if scale>0:
+        if scale==-inf:
             scale=0
         for w from 0<=w<wmax:
-            N+=exp(ln_p[w]+fabs(scale))*dV
-        N=log(N)-fabs(scale)
+            N+=exp(ln_p[w]-scale)*dV
+        N=log(N)
         for w from 0<=w<wmax:
-            ln_p[w]-=N
+            ln_p[w]=(ln_p[w]-scale)-N
         return np.asarray(ln_p)
 
     @cython.boundscheck(False)
@@ -142,12 +140,11 @@ ELSE:
                 scale=-inf
                 for v from 0<=v<vmax:
                     scale=fmax(scale,ln_p[v,w])
-                scale=fmin(scale,0)
                 if scale==-inf:
                     scale=0
                 for v from 0<=v<vmax:
-                    p+=exp(ln_p[v,w]+fabs(scale))
-                Ln_P[w]=log(p)-fabs(scale)
+                    p+=exp(ln_p[v,w]-scale)
+                Ln_P[w]=log(p)+scale
         return np.asarray(Ln_P)
 
     @cython.boundscheck(False)
@@ -159,12 +156,13 @@ ELSE:
         cdef DTYPE_t scale=-inf, N=0
         for w from 0<=w<wmax:
             scale=fmax(scale,ln_p[w])
-        scale=fmin(scale,0)
+        if scale==-inf:
+            scale=0
         for w from 0<=w<wmax:
-            N+=exp(ln_p[w]+fabs(scale))*dV
-        N=log(N)-fabs(scale)
+            N+=exp(ln_p[w]-scale)*dV
+        N=log(N)
         for w from 0<=w<wmax:
-            ln_p[w]-=N
+            ln_p[w]=(ln_p[w]-scale)-N
         return np.asarray(ln_p)
 
 
@@ -1776,7 +1774,7 @@ cdef void c_ln_normalise(DTYPE_t*ln_probability_p,DTYPE_t dV,Py_ssize_t n) nogil
         norm+=exp(ln_probability_p[i]-max_ln_p)
     norm*=dV
     for i from 0<=i<n:
-        ln_probability_p[i]-=log(norm)+max_ln_p
+        ln_probability_p[i]=(ln_probability_p[i]-max_ln_p)-log(norm)
 
 @cython.boundscheck(False)
 @cython.wraparound(False)
diff --git a/src/MTfit/probability/probability.py b/src/MTfit/probability/probability.py
index a39f261..9f7b957 100644
--- a/src/MTfit/probability/probability.py
+++ b/src/MTfit/probability/probability.py
@@ -864,33 +864,33 @@ def ln_marginalise(ln_pdf, axis=0, dV=1.0):
     Returns
         np.array - marginalised distribtion over axis
     """
+    if isinstance(ln_pdf, LnPDF):
+        ln_pdf = ln_pdf._ln_pdf
     if cprobability and axis == 0:
         try:
-            if isinstance(ln_pdf, LnPDF):
-                return cprobability.ln_marginalise(ln_pdf._ln_pdf.astype(np.float64))
-            return cprobability.ln_marginalise(ln_pdf.astype(np.float64))
+            result = cprobability.ln_marginalise(ln_pdf.astype(np.float64))
+            return result + np.log(dV)
         except Exception:
             logger.exception('Error running cython code')
     else:
         logger.info(C_EXTENSION_FALLBACK_LOG_MSG)
-    # scale and then marginalise:
-    ln_scale = 0
     if ln_pdf.shape[axis] == 1:
-        return np.array(ln_pdf).squeeze(axis)
+        return np.array(ln_pdf).squeeze(axis) + np.log(dV)
     elif axis == 0 and len(ln_pdf.shape) == 1:
         # Probably shouldn't be marginalising over the last parameter
         return ln_pdf
-    if np.prod(ln_pdf.shape) and ln_pdf.max() < 0 and ln_pdf.max() > -np.inf:
-        ln_scale = -ln_pdf.max()
+    # scale each sum by its largest term and then marginalise:
+    values = np.asarray(ln_pdf, dtype=np.float64)
+    ln_scale = values.max(axis=axis, keepdims=True, initial=-np.inf)
+    ln_scale[np.isinf(ln_scale)] = 0
     with warnings.catch_warnings() and np.errstate(divide='ignore'):
         warnings.simplefilter("ignore")
-        # if axis == 0:
-        #     # Get consistency with c code
-        #     ln_pdf = np.array(ln_pdf)
-        result = np.log(np.sum(np.exp(ln_pdf+ln_scale)*dV, axis=axis)) - ln_scale
+        result = np.log(np.sum(np.exp(values-ln_scale)*dV, axis=axis, keepdims=True)) + ln_scale
     if axis == 0:
-        result = np.array(result).flatten()
-    return result
+        return result.flatten()
+    if isinstance(ln_pdf, np.matrix):
+        return np.matrix(result)
+    return np.squeeze(result, axis)
 
 
 def ln_normalise(ln_pdf, dV=1):
@@ -911,27 +911,25 @@ def ln_normalise(ln_pdf, dV=1):
 
     """
     if ln_pdf.ndim == 1 and ln_pdf.shape[0] == 1:
-        return np.array([0])
+        return np.array([-np.log(dV)])
     if cprobability:
         try:
             if ln_pdf.ndim != 1 and ln_pdf.shape[0] != 1:
                 raise Exception('Incorrect shape')
-            if ln_pdf.ndim == 2:
-                normalised_ln_pdf = cprobability.ln_normalise(np.asarray(ln_pdf).flatten())
-            else:
-                normalised_ln_pdf = cprobability.ln_normalise(ln_pdf)
-            return normalised_ln_pdf
+            # flatten returns a copy, as the normalisation is done in place
+            return cprobability.ln_normalise(np.asarray(ln_pdf).flatten(), dV)
         except Exception:
             logger.exception('Error running cython code')
     else:
         logger.info(C_EXTENSION_FALLBACK_LOG_MSG)
-    # scale and then marginalise:
+    # scale by the largest value and then marginalise:
     ln_scale = 0
-    if -ln_pdf.max() > 0 and ln_pdf.max() > -np.inf:
-        ln_scale = -ln_pdf.max()
+    if np.isfinite(ln_pdf.max()):
+        ln_scale = ln_pdf.max()
     with warnings.catch_warnings() and np.errstate(divide='ignore'):
         warnings.simplefilter("ignore")
-        ln_n = np.log(np.sum(np.exp(ln_pdf+ln_scale) * dV, axis=None)) - ln_scale
+        ln_pdf = ln_pdf-ln_scale
+        ln_n = np.log(np.sum(np.exp(ln_pdf) * dV, axis=None))
     if ln_pdf.ndim == 2 and 1 in list(ln_pdf.shape):
         ln_pdf = np.squeeze(np.asarray(ln_pdf))
         if not ln_pdf.shape:
-- 
2.43.0


From 6255a69e0ebe3f9b8a908b987ef496aa64e41ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:09 +0000
Subject: [PATCH 06/71] fix: nodal modelled amplitude in the compiled amplitude
 ratio likelihood

0/0 gave NaN, which removed every other location sample from the marginalised sum.
---
 src/MTfit/probability/cprobability.pyx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/MTfit/probability/cprobability.pyx b/src/MTfit/probability/cprobability.pyx
index 58fcc37..7c7e59a 100644
--- a/src/MTfit/probability/cprobability.pyx
+++ b/src/MTfit/probability/cprobability.pyx
@@ -238,6 +238,9 @@ cdef inline DTYPE_t ar_pdf(DTYPE_t z,DTYPE_t mux,DTYPE_t muy,DTYPE_t psx,DTYPE_t
         sx=a*sqrt((psx*psx)+(psy*psy))
         return gaussian_pdf(z,a,sx)+gaussian_pdf(-z,a,sx)
     else:
+        if mux==0 or muy==0:
+            # nodal amplitude: the errors are fractional so a non-zero finite ratio is impossible
+            return 0.0
         sx=psx*fabs(mux)
         sy=psy*fabs(muy)
         a=sqrt(z*z/(sx*sx)+1/(sy*sy))
-- 
2.43.0


From 64f7fb53aab97f4b7051ca06b85e010b5619c388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:47 +0000
Subject: [PATCH 07/71] fix: multiple-event conversion and on-disk storage of
 samples

---
 src/MTfit/sampling.py | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/src/MTfit/sampling.py b/src/MTfit/sampling.py
index 95c1ddf..efa6bdc 100644
--- a/src/MTfit/sampling.py
+++ b/src/MTfit/sampling.py
@@ -211,8 +211,8 @@ class Sample(object):
                         # Multiple events
                         g = sorted([key for key in output.keys() if key == 'g' or ('g' in key and (key[0] == 'g' and key[1] == '_'))], key=lambda u: int(u.split('_')[-1]))
                         d = sorted([key for key in output.keys() if key == 'd' or ('d' in key and (key[0] == 'd' and key[1] == '_'))], key=lambda u: int(u.split('_')[-1]))
-                        for i, gi in enumerate(g):
-                            if np.max(gi)-np.min(gi) < 0.000001 and np.abs(np.mean(gi)) < 0.000001 and np.max(d[i])-np.min(d[i]) < 0.000001 and np.abs(np.mean(d[i])) < 0.000001:
+                        for gi, di in zip([output[key] for key in g], [output[key] for key in d]):
+                            if np.max(gi)-np.min(gi) < 0.000001 and np.abs(np.mean(gi)) < 0.000001 and np.max(di)-np.min(di) < 0.000001 and np.abs(np.mean(di)) < 0.000001:
                                 V *= (2*np.pi*np.pi)
                             else:
                                 V *= (np.pi*np.pi*np.pi)
@@ -376,21 +376,27 @@ class FileSample(Sample):
         data = self.loadmat(self.fname)
         # Set up attributes for Sample.output call
         self.moment_tensors = np.matrix(np.zeros((self.number_events*6, self.non_zero_samples)))
-        self.scale_factor = False
-        if len([key for key in data if 'scale_factor' in key]):
-            self.scale_factor = []
+        scale_factors = []
+        self.ln_pdf = LnPDF()
         _x = 0
         self.n = data['n']
-        for key in [key for key in data.keys() if 'MTSpace' in key]:
-            i = key.split('_')[-1]
+        # Batches in the order they were appended (the file is not necessarily in that order)
+        for i in sorted([int(key.split('_')[-1]) for key in data.keys() if key.startswith('MTSpace_')]):
             self.ln_pdf.append(LnPDF(data['LnPDF_'+str(i)]))
             moment_tensors = data['MTSpace_'+str(i)]
             self.moment_tensors[:, _x: _x+moment_tensors.shape[1]] = moment_tensors
-            if isinstance(self.scale_factor, list):
-                self.scale_factor.append(data['scale_factor_'+str(i)])
+            if 'scale_factor_'+str(i) in data:
+                scale_factors.extend(data['scale_factor_'+str(i)])
             _x += moment_tensors.shape[1]
-        self.scale_factor = np.array(self.scale_factor)
-        output, output_string = super(FileSample, self).output(*args, **kwargs)
+        if len(scale_factors):
+            self.scale_factor = np.array(scale_factors)
+        # self._i is the batch number for the file, but Sample.output expects the number of stored samples
+        batch_number = self._i
+        self._i = _x
+        try:
+            output, output_string = super(FileSample, self).output(*args, **kwargs)
+        finally:
+            self._i = batch_number
         try:
             os.remove(self.fname)
         except Exception:
@@ -445,6 +451,5 @@ def _convert(moment_tensors, i=None):
     output = output_convert(moment_tensors)
     if isinstance(i, int):
         # Multiple events
-        for key in output.keys():
-            output[key+'_'+str(i)] = output.pop(key)
+        output = dict((key+'_'+str(i), value) for key, value in output.items())
     return output
-- 
2.43.0


From 5ca19253530909fe8e901149130d3ab86a9d6353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:43 +0000
Subject: [PATCH 08/71] fix: normalising an empty PDF in pure Python

---
 src/MTfit/probability/probability.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MTfit/probability/probability.py b/src/MTfit/probability/probability.py
index 9f7b957..6bc1764 100644
--- a/src/MTfit/probability/probability.py
+++ b/src/MTfit/probability/probability.py
@@ -924,7 +924,7 @@ def ln_normalise(ln_pdf, dV=1):
         logger.info(C_EXTENSION_FALLBACK_LOG_MSG)
     # scale by the largest value and then marginalise:
     ln_scale = 0
-    if np.isfinite(ln_pdf.max()):
+    if np.prod(ln_pdf.shape) and np.isfinite(ln_pdf.max()):
         ln_scale = ln_pdf.max()
     with warnings.catch_warnings() and np.errstate(divide='ignore'):
         warnings.simplefilter("ignore")
-- 
2.43.0


From f9d584aa86eb05f749ff22a7b2d0a2dfe6ac6987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:53 +0000
Subject: [PATCH 09/71] fix: match every location sample to the data by station
 name

The station indices were taken from the first location sample only, so samples
listing the stations in another order were paired with the wrong stations.
---
 src/MTfit/inversion.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/MTfit/inversion.py b/src/MTfit/inversion.py
index 357d9f8..2b84963 100644
--- a/src/MTfit/inversion.py
+++ b/src/MTfit/inversion.py
@@ -2876,9 +2876,10 @@ def polarity_matrix(data, location_samples=False):
             location_samples = [u.copy() for u in original_samples]
             selected_stations = sorted(list(set(location_samples[0]['Name']) & set(data[key]['Stations']['Name'])))
             n_stations = len(selected_stations)
-            indices = [location_samples[0]['Name'].index(u) for u in selected_stations]
             angles = np.zeros((n_stations, len(location_samples), 6))
             for i, sample in enumerate(location_samples):
+                # Station order can differ between location samples
+                indices = [list(sample['Name']).index(u) for u in selected_stations]
                 sample['Name'] = operator.itemgetter(*indices)(sample['Name'])
                 sample['TakeOffAngle'] = sample['TakeOffAngle'][indices]
                 sample['Azimuth'] = sample['Azimuth'][indices]
@@ -2957,9 +2958,10 @@ def polarity_probability_matrix(data, location_samples=False):
         if location_samples:
             location_samples = [u.copy() for u in original_samples]
             selected_stations = sorted(list(set(location_samples[0]['Name']) & set(data[key]['Stations']['Name'])))
-            indices = [location_samples[0]['Name'].index(u) for u in selected_stations]
             angles = np.zeros((len(selected_stations), len(location_samples), 6))
             for i, sample in enumerate(location_samples):
+                # Station order can differ between location samples
+                indices = [list(sample['Name']).index(u) for u in selected_stations]
                 sample['Name'] = operator.itemgetter(*indices)(sample['Name'])
                 sample['TakeOffAngle'] = sample['TakeOffAngle'][indices]
                 sample['Azimuth'] = sample['Azimuth'][indices]
@@ -3032,10 +3034,11 @@ def amplitude_ratio_matrix(data, location_samples=False):
         if location_samples:
             location_samples = [u.copy() for u in original_samples]
             selected_stations = sorted(list(set(location_samples[0]['Name']) & set(data[key]['Stations']['Name'])))
-            indices = [location_samples[0]['Name'].index(u) for u in selected_stations]
             angles1 = np.zeros((len(selected_stations), len(location_samples), 6))
             angles2 = np.zeros((len(selected_stations), len(location_samples), 6))
             for i, sample in enumerate(location_samples):
+                # Station order can differ between location samples
+                indices = [list(sample['Name']).index(u) for u in selected_stations]
                 sample['Name'] = operator.itemgetter(*indices)(sample['Name'])
                 sample['TakeOffAngle'] = sample['TakeOffAngle'][indices]
                 sample['Azimuth'] = sample['Azimuth'][indices]
@@ -3106,9 +3109,10 @@ def relative_amplitude_ratio_matrix(data, location_samples=False):
         if location_samples:
             location_samples = [u.copy() for u in original_samples]
             selected_stations = sorted(list(set(location_samples[0]['Name']) & set(data[key]['Stations']['Name'])))
-            indices = [location_samples[0]['Name'].index(u) for u in selected_stations]
             angles = np.zeros((len(selected_stations), len(location_samples), 6))
             for i, sample in enumerate(location_samples):
+                # Station order can differ between location samples
+                indices = [list(sample['Name']).index(u) for u in selected_stations]
                 sample['Name'] = operator.itemgetter(*indices)(sample['Name'])
                 sample['TakeOffAngle'] = sample['TakeOffAngle'][indices]
                 sample['Azimuth'] = sample['Azimuth'][indices]
-- 
2.43.0


From 565d266e7910044c1922e11b61196a93dd6e3497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:18 +0000
Subject: [PATCH 10/71] fix: mispick and polarity probabilities when several
 polarity types are given

A mispick probability given for only some polarity types was paired with the
wrong stations, and the negative polarity probabilities of a second type were
appended to the positive ones.
---
 src/MTfit/inversion.py | 46 +++++++++++++++++++++++-------------------
 1 file changed, 25 insertions(+), 21 deletions(-)

diff --git a/src/MTfit/inversion.py b/src/MTfit/inversion.py
index 2b84963..201b903 100644
--- a/src/MTfit/inversion.py
+++ b/src/MTfit/inversion.py
@@ -2849,6 +2849,26 @@ class Inversion(object):
 #
 
 
+def _get_incorrect_polarity_prob(data, indices=None):
+    """
+    Get the incorrect polarity probability of each station (zero if not given, a single value is used for every station)
+
+    Args:
+        data: Data dictionary for a single data type
+        indices:[None] Indices of the selected stations (default is all stations).
+
+    Returns
+        numpy array of incorrect polarity probabilities (one per selected station)
+    """
+    incorrect_polarity_prob = np.array(data.get('IncorrectPolarityProbability', 0)).flatten()
+    n_stations = np.size(data['Stations']['TakeOffAngle'])
+    if len(incorrect_polarity_prob) != n_stations:
+        incorrect_polarity_prob = np.kron(incorrect_polarity_prob, np.ones(n_stations))
+    if indices is not None:
+        incorrect_polarity_prob = incorrect_polarity_prob[indices]
+    return incorrect_polarity_prob
+
+
 def polarity_matrix(data, location_samples=False):
     """
     Generates the polarity observation matrices from the data.
@@ -2890,11 +2910,7 @@ def polarity_matrix(data, location_samples=False):
             # Get measured and errors from location sample indices
             measured = data[key]['Measured'][indices]
             _error = np.array(data[key]['Error'][indices]).flatten()
-            # Try to get incorrect polarity probability
-            if data[key].__contains__('IncorrectPolarityProbability'):
-                _incorrect_polarity_prob = np.array(data[key]['IncorrectPolarityProbability'][indices]).flatten()
-            else:
-                _incorrect_polarity_prob = np.array([0])
+            _incorrect_polarity_prob = _get_incorrect_polarity_prob(data[key], indices)
         else:
             # Otherwise get angles and measured directly
             n_stations = np.prod(data[key]['Stations']['TakeOffAngle'].shape)
@@ -2902,10 +2918,7 @@ def polarity_matrix(data, location_samples=False):
             angles[:, 0, :] = station_angles(data[key]['Stations'], mode)
             measured = data[key]['Measured']
             _error = np.array(data[key]['Error']).flatten()
-            if data[key].__contains__('IncorrectPolarityProbability'):
-                _incorrect_polarity_prob = np.array(data[key]['IncorrectPolarityProbability']).flatten()
-            else:
-                _incorrect_polarity_prob = np.array([0])
+            _incorrect_polarity_prob = _get_incorrect_polarity_prob(data[key])
         # If angles have multiple dimensions (location samples),  expand the measurements
         if angles.ndim > 2:
             measured = np.array(measured)
@@ -2919,9 +2932,6 @@ def polarity_matrix(data, location_samples=False):
         else:
             a = np.append(a, np.multiply(angles, measured), 0)
             error = np.append(error, _error, 0)
-            if len(_incorrect_polarity_prob) != n_stations:
-                # Make sure this is the same length as the data as we are appending it
-                _incorrect_polarity_prob = np.kron(_incorrect_polarity_prob, np.ones(n_stations))
             incorrect_polarity_prob = np.append(incorrect_polarity_prob, _incorrect_polarity_prob, 0)
     # Set incorrect polarity prob if default
     if np.sum(np.abs(incorrect_polarity_prob)) == 0:
@@ -2969,19 +2979,13 @@ def polarity_probability_matrix(data, location_samples=False):
             angles = np.array(angles)
             indices = [data[key]['Stations']['Name'].index(u) for u in selected_stations]
             measured = data[key]['Measured'][indices]
-            if data[key].__contains__('IncorrectPolarityProbability'):
-                _incorrect_polarity_prob = np.array(data[key]['IncorrectPolarityProbability'][indices]).flatten()
-            else:
-                _incorrect_polarity_prob = np.array([0])
+            _incorrect_polarity_prob = _get_incorrect_polarity_prob(data[key], indices)
         # Otherwise get angles and measeured
         else:
             angles = np.zeros((np.prod(data[key]['Stations']['TakeOffAngle'].shape), 1, 6))
             angles[:, 0, :] = station_angles(data[key]['Stations'], mode)
             measured = data[key]['Measured']
-            if data[key].__contains__('IncorrectPolarityProbability'):
-                _incorrect_polarity_prob = np.array(data[key]['IncorrectPolarityProbability']).flatten()
-            else:
-                _incorrect_polarity_prob = np.array([0])
+            _incorrect_polarity_prob = _get_incorrect_polarity_prob(data[key])
         # Set or append to outputs
         if not _a:
             _a = True
@@ -2992,7 +2996,7 @@ def polarity_probability_matrix(data, location_samples=False):
         else:
             a = np.append(a, angles, 0)
             positive_probability = np.append(positive_probability, np.array(measured[:, 0]).flatten())
-            negative_probability = np.append(positive_probability, np.array(measured[:, 1]).flatten())
+            negative_probability = np.append(negative_probability, np.array(measured[:, 1]).flatten())
             incorrect_polarity_prob = np.append(incorrect_polarity_prob, _incorrect_polarity_prob, 0)
     # Set incorrect polarity prob if default
     if np.sum(np.abs(incorrect_polarity_prob)) == 0:
-- 
2.43.0


From d9c958110a0b32f12af053a63da54db141d77023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:18 +0000
Subject: [PATCH 11/71] fix: relative amplitudes of several types with location
 samples

---
 src/MTfit/inversion.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/MTfit/inversion.py b/src/MTfit/inversion.py
index 201b903..fedb314 100644
--- a/src/MTfit/inversion.py
+++ b/src/MTfit/inversion.py
@@ -3124,8 +3124,8 @@ def relative_amplitude_ratio_matrix(data, location_samples=False):
             angles = np.array(angles)
             relative_amplitude_stations.extend(selected_stations)
             indices = [data[key]['Stations']['Name'].index(u) for u in selected_stations]
-            measured = data[key]['Measured'][indices]
-            error = data[key]['Error'][indices]
+            measured = np.array(data[key]['Measured'][indices]).flatten()
+            error = np.array(data[key]['Error'][indices]).flatten()
         # Otherwise get angles and measurements
         else:
             angles = np.zeros((np.prod(data[key]['Stations']['TakeOffAngle'].shape), 1, 6))
-- 
2.43.0


From 542790d893604efef1dde0dee317267d72328b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:24 +0000
Subject: [PATCH 12/71] fix: always apply the location sample weights in the
 pure Python forward task

The weights were skipped when they added up to the number of samples, and for a
single sample.
---
 src/MTfit/inversion.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/MTfit/inversion.py b/src/MTfit/inversion.py
index fedb314..312736a 100644
--- a/src/MTfit/inversion.py
+++ b/src/MTfit/inversion.py
@@ -296,7 +296,7 @@ class ForwardTask(object):
                         if location_samples and self.marginalise:
                             # Return marginalised zero PDF
                             return {'moment_tensors': self.mt, 'ln_pdf': LnPDF(-np.inf*np.ones(self.mt.shape[1])), 'n': N}
-                        return {'moment_tensors': self.mt, 'ln_pdf': ln_p_total, 'n': N}
+                        return {'moment_tensors': self.mt, 'ln_pdf': LnPDF(ln_p_total), 'n': N}
                     try:
                         # Ignore np.divide errors
                         with warnings.catch_warnings() and np.errstate(divide='ignore'):
@@ -343,7 +343,7 @@ class ForwardTask(object):
                         # No data has been used, so print exceptions
                         logging.error('No data used in polarity, amplitude ratio or polarity PDF')
                     # If location PDF samples exist and sample PDF multipliers exist (increased Prob) - For Oct -tree sampling  sample density correspond to PDF values (more samples in higher prob). Grid sampling needs location multipliers set (can be done using Scat2Angle with 'grid' option in command line)
-                    if location_samples and self.location_sample_multipliers and sum(self.location_sample_multipliers) != len(self.location_sample_multipliers):
+                    if self.location_sample_multipliers:
                         if cprobability:
                             location_sample_multipliers = np.array(self.location_sample_multipliers)
                             location_sample_multipliers = location_sample_multipliers.astype(np.float64, copy=False)
-- 
2.43.0


From 1447c5dd91ec3f09544d6e1fb4f65db301478c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:37 +0000
Subject: [PATCH 13/71] fix: pass the location samples and weights to the
 Markov chain forward tasks

The weights were ignored when running without a pool, and the positional
arguments of the pool call were shifted by one.
---
 src/MTfit/inversion.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/MTfit/inversion.py b/src/MTfit/inversion.py
index 312736a..3743157 100644
--- a/src/MTfit/inversion.py
+++ b/src/MTfit/inversion.py
@@ -469,7 +469,7 @@ class McMCForwardTask(object):
         # Get output data and print results
         output_data, output_string = self.algorithm.output(self.normalise, self.convert, 0)
         return {'algorithm_output_data': output_data, 'event_data': self.event_data, 'location_samples': self.location_samples,
-                'location_sample_multipliers': self.location_sample_multipliers}
+                'location_sample_multipliers': self.location_sample_multipliers, 'fid': self.fid}
 
 
 class MultipleEventsForwardTask(object):
@@ -1029,7 +1029,7 @@ class MultipleEventsMcMCForwardTask(McMCForwardTask):
         # Print output string
         print(output_string)
         return {'algorithm_output_data': output_data, 'event_data': self.event_data, 'location_samples': self.location_samples,
-                'location_sample_multipliers': self.location_sample_multipliers}
+                'location_sample_multipliers': self.location_sample_multipliers, 'fid': self.fid}
 
 
 class CombineMpiOutputTask(object):
@@ -2257,10 +2257,11 @@ class Inversion(object):
 
                     self.pool.custom_task(McMCForwardTask, self.kwargs, a_polarity, error_polarity, a1_amplitude_ratio, a2_amplitude_ratio, amplitude_ratio, percentage_error1_amplitude_ratio,
                                           percentage_error2_amplitude_ratio, a_polarity_probability, polarity_probability, incorrect_polarity_probability, fid, event, self.location_samples,
-                                          self.location_sample_multipliers, self.normalise, self.convert, extension_data)
+                                          self.location_sample_multipliers, True, self.normalise, self.convert, extension_data)
                 else:
                     result = McMCForwardTask(self.kwargs, a_polarity, error_polarity, a1_amplitude_ratio, a2_amplitude_ratio, amplitude_ratio, percentage_error1_amplitude_ratio,
-                                             percentage_error2_amplitude_ratio, a_polarity_probability, polarity_probability, incorrect_polarity_probability, fid, normalise=self.normalise,
+                                             percentage_error2_amplitude_ratio, a_polarity_probability, polarity_probability, incorrect_polarity_probability, fid, event_data=event,
+                                             location_samples=self.location_samples, location_sample_multipliers=self.location_sample_multipliers, normalise=self.normalise,
                                              convert=self.convert, extension_data=extension_data)()
                     try:
                         accepted = (float(result['algorithm_output_data']['accepted'])/float(result['algorithm_output_data']['total_number_samples']))*100
@@ -2400,6 +2401,7 @@ class Inversion(object):
                                                        amplitude_ratio, percentage_error1_amplitude_ratio, percentage_error2_amplitude_ratio, a_polarity_probability, polarity_probability,
                                                        a_relative_amplitude, relative_amplitude, percentage_error_relative_amplitude, relative_amplitude_stations, incorrect_polarity_probability,
                                                        relative=self._relative, minimum_number_intersections=self.minimum_number_intersections, fid=fid, location_samples=self.location_samples,
+                                                       location_sample_multipliers=self.location_sample_multipliers,
                                                        marginalise_relative=self._marginalise_relative, normalise=self.normalise, convert=self.convert, extension_data=extension_data)()
                 self._print('Inversion completed, '+str(result['algorithm_output_data']['total_number_samples'])+' samples evaluated: '+str((result['algorithm_output_data']['accepted'])) +
                             ' accepted samples: '+str((float(result['algorithm_output_data']['accepted'])/float(result['algorithm_output_data']['total_number_samples']))*100)[:4]+'%')
-- 
2.43.0


From 007396ba5c8d471e1446d74ab3e7a7dc29784f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:10 +0000
Subject: [PATCH 14/71] fix: unit norm for the compiled random double-couple
 samples

---
 src/MTfit/probability/cprobability.pyx | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/MTfit/probability/cprobability.pyx b/src/MTfit/probability/cprobability.pyx
index 7c7e59a..783175e 100644
--- a/src/MTfit/probability/cprobability.pyx
+++ b/src/MTfit/probability/cprobability.pyx
@@ -1897,12 +1897,13 @@ cdef DTYPE_t[:,::1] rand_dc(int x):
         s2k=sin(2*kappa)
         ss=sin(sigma)
         sh=sqrt(1-h*h)
-        mt[0,j]=-sh*cs*s2k-2*h*sh*ss*sk*sk
-        mt[1,j]=sh*cs*2*sk*ck-2*sh*h*ss*ck*ck
-        mt[2,j]=2*sh*h*ss
-        mt[3,j]=sqrt2*(sh*cs*(ck*ck-sk*sk)+h*sh*ss*s2k)
-        mt[4,j]=sqrt2*(-h*cs*ck-(2*h*h-1)*ss*sk)
-        mt[5,j]=sqrt2*(-h*cs*sk+(2*h*h-1)*ss*ck)
+        # Unit double-couple, so the Tape parameterisation is scaled by 1/sqrt(2)
+        mt[0,j]=(-sh*cs*s2k-2*h*sh*ss*sk*sk)/sqrt2
+        mt[1,j]=(sh*cs*2*sk*ck-2*sh*h*ss*ck*ck)/sqrt2
+        mt[2,j]=2*sh*h*ss/sqrt2
+        mt[3,j]=sh*cs*(ck*ck-sk*sk)+h*sh*ss*s2k
+        mt[4,j]=-h*cs*ck-(2*h*h-1)*ss*sk
+        mt[5,j]=-h*cs*sk+(2*h*h-1)*ss*ck
     return mt
 
 cpdef random_mt(int x):
-- 
2.43.0


From 41b9c9e7c2cddb78f71f6124db976a18e6cdf780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:10 +0000
Subject: [PATCH 15/71] fix: draw the sign of every random CLVD sample
 independently

---
 src/MTfit/algorithms/base.py | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/src/MTfit/algorithms/base.py b/src/MTfit/algorithms/base.py
index 74924ee..e9b19d4 100644
--- a/src/MTfit/algorithms/base.py
+++ b/src/MTfit/algorithms/base.py
@@ -252,15 +252,9 @@ class BaseAlgorithm(object):
 
         """
         np.random.seed()
-        # Select CVLD type
-        np.kron([[1], [1], [1]], np.sign(np.random.rand(self.number_samples)-0.5))*np.ones(
-            (3, self.number_samples))*np.array([[2/np.sqrt(6)], [-1/np.sqrt(6)], [-1/np.sqrt(6)]])
-        if np.random.rand() > 0.5:
-            clvd_diag = np.array(
-                [[2/np.sqrt(6)], [-1/np.sqrt(6)], [-1/np.sqrt(6)]])
-        else:
-            clvd_diag = np.array(
-                [[-2/np.sqrt(6)], [1/np.sqrt(6)], [1/np.sqrt(6)]])
+        # Select CLVD type (positive or negative) for each sample
+        signs = np.where(np.random.rand(self.number_samples) > 0.5, 1., -1.)
+        clvd_diag = signs*np.array([[2/np.sqrt(6)], [-1/np.sqrt(6)], [-1/np.sqrt(6)]])
         # Use random_type for DC eigenvalues
         return self.random_type(clvd_diag)
 
-- 
2.43.0


From 2c5fe46c7e769fc25e9185d9dc3e2389a2547426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:15 +0000
Subject: [PATCH 16/71] fix: scale factor uncertainty of relative amplitudes
 with small errors

---
 src/MTfit/probability/cprobability.pyx | 15 +++++++++------
 src/MTfit/probability/probability.py   | 18 +++++++++++-------
 2 files changed, 20 insertions(+), 13 deletions(-)

diff --git a/src/MTfit/probability/cprobability.pyx b/src/MTfit/probability/cprobability.pyx
index 783175e..9720e1d 100644
--- a/src/MTfit/probability/cprobability.pyx
+++ b/src/MTfit/probability/cprobability.pyx
@@ -1589,7 +1589,7 @@ cdef inline DTYPE_t combine_s(DTYPE_t s1, DTYPE_t s2) nogil:
 @cython.cdivision(True)
 cdef void estimate_scale_mu_s(DTYPE_t *mu, DTYPE_t *s, DTYPE_t x,DTYPE_t y,DTYPE_t mux,DTYPE_t muy,DTYPE_t psx,DTYPE_t psy) nogil:
     cdef double sqrtpi=sqrt(pi)
-    cdef DTYPE_t N,sx,sy,z,mu1,mux3,mux2,sy_2,sx_2,s1_2,mu1_2,s1,A,B,C
+    cdef DTYPE_t N,sx,sy,z,mu1,mux3,mux2,sy_2,sx_2,s1_2,s1,A,B,C,D,exp_muy,shift
 
     z=fabs(x/y)
     mux=fabs(mux)
@@ -1604,14 +1604,17 @@ cdef void estimate_scale_mu_s(DTYPE_t *mu, DTYPE_t *s, DTYPE_t x,DTYPE_t y,DTYPE
     s1=sqrt((sy_2*z*z+sx_2)/(mux2))
     s1_2=s1*s1
     mu1=muy*z/mux
-    mu1_2=mu1*mu1
-    N=((sy_2*mux*z*mu1+sx_2*muy)/(mux3)+(sqrt2*sx_2*sy*exp_muy)/(sqrtpi*mux3*s1_2))
-    A=(sy_2*mux*z*mu1)/(mux3)
+    # The PDF is a mixture of a component around mu1 and one around 0, the variance is
+    # evaluated from their means and variances to avoid cancellation for small errors
+    A=(sy_2*mux*z)/(mux3)
     B=sx_2*muy/mux3
     C=sqrt2*sx_2*sy*exp_muy/(sqrtpi*mux3*s1_2)
+    D=A*mu1+B
+    N=D+C
+    shift=A*s1_2/D
     #CYTHON POINTER ASSIGNMENT
-    mu[0]=(sy_2*mux*z*(s1_2+mu1_2)+sx_2*mu1*muy)/(mux3*N)
-    s[0]=sqrt(((sy_2*(mu1_2*mu1+3*mu1*s1_2)*mux*z+sx_2*(s1_2+mu1_2)*muy)/mux3+sqrt2*sx_2*sx_2*sy*exp_muy/(sqrtpi*mux3*mux2*s1_2))/N-mu[0]*mu[0])
+    mu[0]=D*(mu1+shift)/N
+    s[0]=sqrt((D*(s1_2-shift*shift)+(D*C/N)*(mu1+shift)*(mu1+shift)+C*sx_2/mux2)/N)
 
 @cython.boundscheck(False)
 @cython.wraparound(False)
diff --git a/src/MTfit/probability/probability.py b/src/MTfit/probability/probability.py
index 6bc1764..fde6427 100644
--- a/src/MTfit/probability/probability.py
+++ b/src/MTfit/probability/probability.py
@@ -571,7 +571,6 @@ def scale_estimator(observed_ratio, mu_x, mu_y, percentage_error_x, percentage_e
     s1 = np.sqrt(
         np.divide(np.multiply(np.multiply(sy_2, observed_ratio), observed_ratio) + sx_2, mu_x_2))
     s1_2 = np.multiply(s1, s1)
-    mu1_2 = np.multiply(mu1, mu1)
     A = np.divide(np.multiply(np.multiply(mu_x, observed_ratio), sy_2), mu_x_3)
     B = np.divide(np.multiply(mu_y, sx_2), mu_x_3)
     C = np.sqrt(2./np.pi) * np.divide(
@@ -581,13 +580,18 @@ def scale_estimator(observed_ratio, mu_x, mu_y, percentage_error_x, percentage_e
                     ),
         np.multiply(mu_x_3, s1_2))
 
-    N = np.multiply(A, mu1) + B + C
-    # Calculate mean and standard deviations
-    mu = np.divide(np.multiply(A, (s1_2 + mu1_2)) + np.multiply(B, mu1), N)
-    s = np.sqrt(np.divide(np.multiply(A, (3*np.multiply(s1_2, mu1)+np.multiply(mu1_2, mu1))) +
-                          np.multiply(B, (s1_2 + mu1_2)) +
+    D = np.multiply(A, mu1) + B
+    N = D + C
+    # Calculate mean and standard deviations - the PDF is a mixture of a component
+    # around mu1 and one around 0, and the variance is evaluated from the means and
+    # variances of these to avoid cancellation when the errors are small
+    shift = np.divide(np.multiply(A, s1_2), D)
+    mu_d = mu1 + shift
+    mu = np.divide(np.multiply(D, mu_d), N)
+    s = np.sqrt(np.divide(np.multiply(D, s1_2 - np.multiply(shift, shift)) +
+                          np.multiply(np.divide(np.multiply(D, C), N), np.multiply(mu_d, mu_d)) +
                           np.multiply(C, np.divide(sx_2, mu_x_2)),
-                          N) - np.multiply(mu, mu))
+                          N))
     # Combine mean over stations
     return combine_mu(mu, s)
 
-- 
2.43.0


From 461eeb3443a422bd3fa1aeb6c25462261b96a3e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:15 +0000
Subject: [PATCH 17/71] fix: joint log-probability of several events with
 location samples and zero probabilities

---
 src/MTfit/inversion.py | 47 ++++++++++++++++--------------------------
 1 file changed, 18 insertions(+), 29 deletions(-)

diff --git a/src/MTfit/inversion.py b/src/MTfit/inversion.py
index 3743157..59c6399 100644
--- a/src/MTfit/inversion.py
+++ b/src/MTfit/inversion.py
@@ -557,7 +557,8 @@ class MultipleEventsForwardTask(object):
         # If combining outputs make a single ln_pdf else make a list of them
         if self._combine:
             # Assuming that location uncertainty matches for each event (i.e if samples used, event is still co-located...)
-            ln_p_total = np.matrix(np.zeros((self.location_sample_size, self.mts[0].shape[1])))
+            # The location samples are already marginalised for each event if marginalise_relative is set
+            ln_p_total = np.matrix(np.zeros((1 if self._marginalise_relative else self.location_sample_size, self.mts[0].shape[1])))
         else:
             ln_p_total = []
         # Set non-zero array
@@ -603,9 +604,12 @@ class MultipleEventsForwardTask(object):
                 mt = self.mts[i]
             # If forward tasks are being re-used and one doesn't exist or no tasks are re-used
             if self._reuse and len(self.forward_tasks) < len(self.mts) or not self._reuse:
+                # The events share the location samples, so their weights only enter the joint probability once
+                # (unless each event is marginalised separately)
+                location_sample_multipliers = self.location_sample_multipliers if self._marginalise_relative or i == 0 else False
                 forward_task = ForwardTask(mt, a_polarity, self.error_polarity[i], a1_amplitude_ratio, a2_amplitude_ratio, self.amplitude_ratio[i],
                                            self.percentage_error1_amplitude_ratio[i], self.percentage_error2_amplitude_ratio[i], a_polarity_prob,
-                                           self.polarity_prob[i], self.location_sample_multipliers, incorrect_polarity_prob, return_zero=True,
+                                           self.polarity_prob[i], location_sample_multipliers, incorrect_polarity_prob, return_zero=True,
                                            reuse=True, marginalise=self._marginalise_relative, extension_data=extension_data)
                 if self._reuse:
                     self.forward_tasks.append(forward_task)
@@ -639,13 +643,13 @@ class MultipleEventsForwardTask(object):
             # Update mts
             if not self._return_zero:
                 # Update ln_pdfs etc. for non-zeros
-                if sum(non_zeros) != sum(np.array(np.sum(ln_p_total, 0) > -np.inf).flatten()):
-                    non_zeros[non_zeros] = np.array(np.sum(ln_p_total, 0) > -np.inf).flatten()  # update non zeros
+                if sum(non_zeros) != sum(np.array(np.max(ln_p_total, 0) > -np.inf).flatten()):
+                    non_zeros[non_zeros] = np.array(np.max(ln_p_total, 0) > -np.inf).flatten()  # update non zeros
                     for j in range(i+1):
-                        self.mts[j] = np.ascontiguousarray(self.mts[j][:, np.array(np.sum(ln_p_total, 0) > -np.inf). flatten()])
-                    scale_factor = np.ascontiguousarray(scale_factor[:, np.array(np.sum(ln_p_total, 0) > -np.inf).flatten(), :, :])
-                    scale_factor_uncertainty = np.ascontiguousarray(scale_factor_uncertainty[:, np.array(np.sum(ln_p_total, 0) > -np.inf).flatten(), :, :])
-                    ln_p_total = ln_p_total[:, np.array(np.sum(ln_p_total, 0) > -np.inf).flatten()]
+                        self.mts[j] = np.ascontiguousarray(self.mts[j][:, np.array(np.max(ln_p_total, 0) > -np.inf). flatten()])
+                    scale_factor = np.ascontiguousarray(scale_factor[:, np.array(np.max(ln_p_total, 0) > -np.inf).flatten(), :, :])
+                    scale_factor_uncertainty = np.ascontiguousarray(scale_factor_uncertainty[:, np.array(np.max(ln_p_total, 0) > -np.inf).flatten(), :, :])
+                    ln_p_total = ln_p_total[:, np.array(np.max(ln_p_total, 0) > -np.inf).flatten()]
                     mt = self.mts[i]
             #####
             if self._relative and ((isinstance(self.a_relative_amplitude, list) and len(self.a_relative_amplitude)) or not isinstance(self.a_relative_amplitude, (bool, list))) and not self._combine:
@@ -707,17 +711,6 @@ class MultipleEventsForwardTask(object):
                             scale_factor[:, :, j, i] = scale
                             scale_factor_uncertainty[:, :, j, i] = scale_uncertainty
                             scale_factor_uncertainty[:, :, i, j] = scale_uncertainty
-                            # Handle location samples PDFs
-                            if self.location_sample_multipliers and sum(self.location_sample_multipliers) != len(self.location_sample_multipliers):
-                                if cprobability:
-                                    location_sample_multipliers = np.array(self.location_sample_multipliers)
-                                    location_sample_multipliers = location_sample_multipliers.astype(np.float64, copy=False)
-                                    ln_p_amp_rat = cprobability.ln_multipliers(ln_p_amp_rat, location_sample_multipliers)
-                                else:
-                                    ln_p_amp_rat += np.log(np.matrix(self.location_sample_multipliers).T)
-                            # Marginalise if marginalise_relative flag is True
-                            if self.location_sample_size > 1 and self._marginalise_relative:
-                                ln_p_amp_rat = ln_marginalise(ln_p_amp_rat, _cython=cprobability is not False)
                             # Combine ln_p_total and amp rat
                             if cprobability and not _CYTHON_TESTS:
                                 ln_p_total = cprobability.ln_combine(np.ascontiguousarray(ln_p_total), ln_p_amp_rat)
@@ -730,11 +723,12 @@ class MultipleEventsForwardTask(object):
                                 return {'moment_tensors': self.mts, 'ln_pdf': ln_p_total, 'n': N}
                             # Update mts for non-zeros
                             if not self._return_zero:
-                                non_zero_indices = np.array(np.sum(ln_p_total, 0) > -np.inf).flatten()
+                                non_zero_indices = np.array(np.max(ln_p_total, 0) > -np.inf).flatten()
                                 if sum(non_zeros) != sum(non_zero_indices):
                                     non_zeros[non_zeros] = non_zero_indices
-                                    for j in range(i+1):
-                                        self.mts[j] = np.ascontiguousarray(self.mts[j][:, non_zero_indices])
+                                    for k in range(i+1):
+                                        self.mts[k] = np.ascontiguousarray(self.mts[k][:, non_zero_indices])
+                                    mt = self.mts[i]
                                     ln_p_total = np.ascontiguousarray(ln_p_total[:, non_zero_indices])
                                     scale_factor = np.ascontiguousarray(scale_factor[:, non_zero_indices, :, :])
                                     scale_factor_uncertainty = np.ascontiguousarray(scale_factor_uncertainty[:, non_zero_indices, :, :])
@@ -788,7 +782,7 @@ class MultipleEventsForwardTask(object):
                                         return {'moment_tensors': self.mts, 'ln_pdf': ln_p_total, 'n': N}
                                     # Update mts for non-zeros
                                     if not self._return_zero:
-                                        non_zero_indices = np.array(np.sum(ln_p_total, 0) > -np.inf).flatten()
+                                        non_zero_indices = np.array(np.max(ln_p_total, 0) > -np.inf).flatten()
                                         if sum(non_zeros) != sum(non_zero_indices):
                                             non_zeros[non_zeros] = non_zero_indices
                                             for j in range(i+1):
@@ -822,19 +816,14 @@ class MultipleEventsForwardTask(object):
         # Set up results dict
         if self.location_sample_size > 1 and not self._marginalise_relative:
             # Relative not marginalised already
-            ln_scale = 0
-            if -ln_p_total.max() > 0 and ln_p_total.max() > -np.inf:
-                ln_scale = -ln_p_total.max()
             scale_factor = np.array([{'mu': scale_factor[:, i], 'ln_p': ln_p_total[:, i], 'sigma': scale_factor_uncertainty[:, i]} for i in range(scale_factor.shape[1])])
             try:
                 for key in extension_scale.keys():
                     extension_scale[key] = np.array([{'mu': extension_scale[key][:, i], 'ln_p': ln_p_total[:, i], 'sigma': extension_scale_uncertainty[key][:, i]} for i in range(extension_scale[key].shape[1])])
             except Exception:
                 extension_scale = {}
-            p_total = np.exp(ln_p_total+ln_scale)
             # Marginalise
-            p_total = np.matrix(np.sum(p_total, 0))
-            ln_p_total = np.log(p_total)-ln_scale
+            ln_p_total = np.matrix(ln_marginalise(np.ascontiguousarray(ln_p_total)))
         elif self._relative:  # marginalise_relative is true
             if scale_factor.shape[0] == 1:
                 scale_factor = scale_factor.squeeze(0)
-- 
2.43.0


From 06600f4e74761892c8cba7581b28b15587a55aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:15 +0000
Subject: [PATCH 18/71] fix: match the relative amplitudes of two events by
 station and data type

---
 src/MTfit/inversion.py | 46 +++++++++++++++++++++++++++++-------------
 1 file changed, 32 insertions(+), 14 deletions(-)

diff --git a/src/MTfit/inversion.py b/src/MTfit/inversion.py
index 59c6399..8e0dcee 100644
--- a/src/MTfit/inversion.py
+++ b/src/MTfit/inversion.py
@@ -3086,6 +3086,7 @@ def relative_amplitude_ratio_matrix(data, location_samples=False):
         a_relative_amplitude: numpy matrix of station angle MT coefficients for ratio numerator.
         relative_amplitude: numpy matrix of observations.
         percentage_error: numpy matrix of relative amplitude percentage error.
+        relative_amplitude_stations: list of (station name, data type) for each observation.
     """
     a_relative_amplitude = False
     a = False
@@ -3113,7 +3114,7 @@ def relative_amplitude_ratio_matrix(data, location_samples=False):
                 sample['Azimuth'] = sample['Azimuth'][indices]
                 angles[:, i, :] = station_angles(sample, phase)
             angles = np.array(angles)
-            relative_amplitude_stations.extend(selected_stations)
+            relative_amplitude_stations.extend([(u, key) for u in selected_stations])
             indices = [data[key]['Stations']['Name'].index(u) for u in selected_stations]
             measured = np.array(data[key]['Measured'][indices]).flatten()
             error = np.array(data[key]['Error'][indices]).flatten()
@@ -3121,7 +3122,7 @@ def relative_amplitude_ratio_matrix(data, location_samples=False):
         else:
             angles = np.zeros((np.prod(data[key]['Stations']['TakeOffAngle'].shape), 1, 6))
             angles[:, 0, :] = station_angles(data[key]['Stations'], phase)
-            relative_amplitude_stations.extend(data[key]['Stations']['Name'])
+            relative_amplitude_stations.extend([(u, key) for u in data[key]['Stations']['Name']])
             measured = np.array(data[key]['Measured']).flatten()
             error = np.array(data[key]['Error']).flatten()
         # Set or append to outputs
@@ -3139,6 +3140,31 @@ def relative_amplitude_ratio_matrix(data, location_samples=False):
     return a_relative_amplitude, relative_amplitude, percentage_error, relative_amplitude_stations
 
 
+def _intersection_indices(stations_i, stations_j):
+    """
+    Determine the indices of the stations in both lists, such that the k-th indices correspond to the same station in each list.
+
+    Repeated entries are paired in the order in which they occur.
+
+    Args
+        stations_i: List of stations from event_i
+        stations_j: List of stations from event_j
+
+    Returns
+        indices_i, indices_j: lists of the indices of the intersection in stations_i and stations_j
+    """
+    unpaired = {}
+    for index, station in enumerate(stations_j):
+        unpaired.setdefault(station, []).append(index)
+    indices_i = []
+    indices_j = []
+    for index, station in enumerate(stations_i):
+        if unpaired.get(station):
+            indices_i.append(index)
+            indices_j.append(unpaired[station].pop(0))
+    return indices_i, indices_j
+
+
 def _intersect_stations(relative_amplitude_stations_i, relative_amplitude_stations_j, a_relative_amplitude_ratio_i, a_relative_amplitude_ratio_j,
                         relative_amplitude_i, relative_amplitude_j, percentage_error_relative_amplitude_i, percentage_error_relative_amplitude_j):
     """
@@ -3164,11 +3190,8 @@ def _intersect_stations(relative_amplitude_stations_i, relative_amplitude_statio
         number_intersections: integer number of intersections between event_i and event_j.
 
     """
-    # Get intersection of stations between events
-    selected_stations = list(set(relative_amplitude_stations_i) & set(relative_amplitude_stations_j))
-    # Get indices for each event
-    indices_i = [i for i, u in enumerate(relative_amplitude_stations_i) if u in selected_stations]
-    indices_j = [i for i, u in enumerate(relative_amplitude_stations_j) if u in selected_stations]
+    # Get indices of the intersection of stations between events
+    indices_i, indices_j = _intersection_indices(relative_amplitude_stations_i, relative_amplitude_stations_j)
     # Get parameters for event i
     a_relative_amplitude_ratio_i = a_relative_amplitude_ratio_i[indices_i]
     relative_amplitude_i = relative_amplitude_i[indices_i]
@@ -3197,13 +3220,8 @@ def _intersect_stations_extension_data(extension_data_i, extension_data_j):
         number_intersections: integer number of intersections between event_i and event_j.
 
     """
-    # Get intersection of stations between events
-    stations_i = extension_data_i['stations']
-    stations_j = extension_data_j['stations']
-    selected_stations = list(set(stations_i) & set(stations_j))
-    # Get indices for each event
-    indices_i = [i for i, u in enumerate(stations_i) if u in selected_stations]
-    indices_j = [i for i, u in enumerate(stations_j) if u in selected_stations]
+    # Get indices of the intersection of stations between events
+    indices_i, indices_j = _intersection_indices(extension_data_i['stations'], extension_data_j['stations'])
     # Get parameters for event i
     for key in extension_data_i:
         extension_data_i[key] = np.ascontiguousarray(extension_data_i[key][indices_i])
-- 
2.43.0


From 1453eb7c5a7171b3ad214d27731063b833e05215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:05 +0000
Subject: [PATCH 19/71] fix: match the stations by name when binning location
 samples

---
 src/MTfit/extensions/cscatangle.pyx | 14 +++++++++++---
 src/MTfit/extensions/scatangle.py   | 29 ++++++++++++++++++++++++++---
 2 files changed, 37 insertions(+), 6 deletions(-)

diff --git a/src/MTfit/extensions/cscatangle.pyx b/src/MTfit/extensions/cscatangle.pyx
index 07cc21c..fd9b901 100644
--- a/src/MTfit/extensions/cscatangle.pyx
+++ b/src/MTfit/extensions/cscatangle.pyx
@@ -63,16 +63,24 @@ cdef DTYPE_t[::1] get_multipliers(DTYPE_t[:,:,::1] angles,DTYPE_t bin_size,DTYPE
 
 
 cpdef bin_scatangle(sample_records,multipliers,bin_size):
-    cdef DTYPE_t[:,:,::1] angles=np.empty((len(sample_records),2,len(sample_records[0]['Name'])))
+    # The station order can differ between samples so match the stations by name
+    # (a station that is not in a sample has an angle that is different from any in the other samples)
+    columns={}
+    for record in sample_records:
+        for name in record['Name']:
+            columns.setdefault(name,len(columns))
+    cdef DTYPE_t[:,:,::1] angles=np.full((len(sample_records),2,len(columns)),np.finfo(float).max)
     cdef Py_ssize_t i
+    cdef Py_ssize_t k
     cdef Py_ssize_t j
     new_records=[]
     new_multipliers=[]
     for i,record in enumerate(sample_records):
         # print i,record
         for j in range(len(record['Name'])):
-            angles[i,0,j]=record['TakeOffAngle'][j,0]
-            angles[i,1,j]=record['Azimuth'][j,0]
+            k=columns[record['Name'][j]]
+            angles[i,0,k]=record['TakeOffAngle'][j,0]
+            angles[i,1,k]=record['Azimuth'][j,0]
     # print multipliers,bin_size,angles
     multipliers=np.asarray(get_multipliers(angles,bin_size,multipliers)).flatten()
     for i,record in enumerate(sample_records):
diff --git a/src/MTfit/extensions/scatangle.py b/src/MTfit/extensions/scatangle.py
index 3511d48..296018f 100644
--- a/src/MTfit/extensions/scatangle.py
+++ b/src/MTfit/extensions/scatangle.py
@@ -158,17 +158,17 @@ def parse_scatangle(filename, number_location_samples=0, bin_size=0, _use_c=True
         else:
             logger.info('Python code used')
             t0 = time.time()
+            angles = list(_station_angles(sample_records))
             for i, record in enumerate(sample_records):
                 if not (i+1) % 10:
                     logger.info('{} records completed'.format(i+1))
                 j = i+1
                 multiplier = multipliers[i]
                 while j < len(sample_records):
-                    toa_diff = sample_records[j]['TakeOffAngle']-record['TakeOffAngle']
-                    az_diff = sample_records[j]['Azimuth']-record['Azimuth']
-                    if np.max(np.abs(toa_diff)) < bin_size/2.0 and np.max(np.abs(az_diff)) < bin_size/2.0:
+                    if np.max(np.abs(angles[j]-angles[i])) < bin_size/2.0:
                         multiplier += multipliers.pop(j)
                         sample_records.pop(j)
+                        angles.pop(j)
                     else:
                         j += 1
                 new_multipliers.append(multiplier)
@@ -178,6 +178,29 @@ def parse_scatangle(filename, number_location_samples=0, bin_size=0, _use_c=True
     return sample_records, multipliers
 
 
+def _station_angles(sample_records):
+    """
+    Angles of each station in each sample, matched by the station name as the station order can differ between samples.
+
+    Args
+        sample_records: list of location samples.
+
+    Returns
+        np.array: array of angles with shape (number of samples, 2, number of stations), with take off angle then azimuth.
+                  A station that is not in a sample has an angle that is different from any angle in the other samples.
+    """
+    columns = {}
+    for record in sample_records:
+        for name in record['Name']:
+            columns.setdefault(name, len(columns))
+    angles = np.full((len(sample_records), 2, len(columns)), np.finfo(float).max)
+    for i, record in enumerate(sample_records):
+        indices = [columns[name] for name in record['Name']]
+        angles[i, 0, indices] = np.asarray(record['TakeOffAngle'], dtype=float).flatten()
+        angles[i, 1, indices] = np.asarray(record['Azimuth'], dtype=float).flatten()
+    return angles
+
+
 def _output_scatangle(filename, samples, probabilities):
     """
     Output scatangle file from samples and probabilities.
-- 
2.43.0


From 4314a16513c81be3a2667561564c3a34cfe1a028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:48 +0000
Subject: [PATCH 20/71] fix: sample the selected source model for several
 events

---
 src/MTfit/algorithms/monte_carlo.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/MTfit/algorithms/monte_carlo.py b/src/MTfit/algorithms/monte_carlo.py
index 9a58b98..439f86d 100644
--- a/src/MTfit/algorithms/monte_carlo.py
+++ b/src/MTfit/algorithms/monte_carlo.py
@@ -64,6 +64,8 @@ class BaseMonteCarloRandomSample(BaseAlgorithm):
                     MTs.append(self.random_dc())
                 elif self.basic_cdc:
                     MTs.append(self.random_basic_cdc())
+                elif self._model:
+                    MTs.append(self.random_model(self.number_samples))
                 else:
                     MTs.append(self.random_mt())
                 i += 1
-- 
2.43.0


From b464e313b2d30fe158814b296645e5c489ae7539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:48 +0000
Subject: [PATCH 21/71] fix: independent compiled double-couple samples in
 forked processes

---
 src/MTfit/probability/cprobability.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/MTfit/probability/cprobability.pyx b/src/MTfit/probability/cprobability.pyx
index 9720e1d..14faada 100644
--- a/src/MTfit/probability/cprobability.pyx
+++ b/src/MTfit/probability/cprobability.pyx
@@ -1887,6 +1887,8 @@ cdef DTYPE_t[:,::1] rand_dc(int x):
     cdef DTYPE_t s2k
     cdef DTYPE_t ss
     cdef DTYPE_t sh
+    # Reseed as for rand_mt, otherwise processes forked from the same state draw the same samples
+    np.random.seed()
     for j from 0<=j<x:
         # h=ranf()
         # kappa=2*pi*ranf()
-- 
2.43.0


From be5f660567518bf70aff6acb214abe12f0bb077b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:06 +0000
Subject: [PATCH 22/71] fix: rake of horizontal fault planes from normal and
 slip vectors

---
 src/MTfit/convert/cmoment_tensor_conversion.pyx | 3 +++
 src/MTfit/convert/moment_tensor_conversion.py   | 5 +++++
 2 files changed, 8 insertions(+)

diff --git a/src/MTfit/convert/cmoment_tensor_conversion.pyx b/src/MTfit/convert/cmoment_tensor_conversion.pyx
index a6bfe5c..737ce57 100644
--- a/src/MTfit/convert/cmoment_tensor_conversion.pyx
+++ b/src/MTfit/convert/cmoment_tensor_conversion.pyx
@@ -112,6 +112,9 @@ cdef inline void cN_SDR(DTYPE_t N0,DTYPE_t N1,DTYPE_t N2,DTYPE_t S0,DTYPE_t S1,D
     strike[0] = atan2(-N0, N1)
     dip[0] = atan2((N1**2+N0**2), sqrt((N0*N2)**2+(N1*N2)**2))
     rake[0] = atan2(-S2, S0*N1 - S1*N0)
+    # The expression above vanishes for horizontal planes, so resolve the slip along the strike and dip directions
+    if sqrt(N0*N0+N1*N1) < 1e-5:
+        rake[0] = atan2((S0*sin(strike[0])-S1*cos(strike[0]))*cos(dip[0])-S2*sin(dip[0]), S0*cos(strike[0])+S1*sin(strike[0]))
     if dip[0] > pi/2:
         dip[0] = pi-dip[0]
         strike[0] = strike[0]+pi
diff --git a/src/MTfit/convert/moment_tensor_conversion.py b/src/MTfit/convert/moment_tensor_conversion.py
index 20753a5..0ede88e 100644
--- a/src/MTfit/convert/moment_tensor_conversion.py
+++ b/src/MTfit/convert/moment_tensor_conversion.py
@@ -455,6 +455,11 @@ def FP_SDR(normal, slip):
     slip = np.array(slip)
     strike, dip = normal_SD(normal)
     rake = np.arctan2(-slip[2], slip[0]*normal[1]-slip[1]*normal[0])
+    # The expression above vanishes for horizontal planes, so resolve the slip along the strike and dip directions
+    horizontal = np.hypot(normal[0], normal[1]) < 1e-5
+    along_strike = slip[0]*np.cos(strike)+slip[1]*np.sin(strike)
+    up_dip = (slip[0]*np.sin(strike)-slip[1]*np.cos(strike))*np.cos(dip)-slip[2]*np.sin(dip)
+    rake[horizontal] = np.arctan2(up_dip, along_strike)[horizontal]
     strike[dip > np.pi/2] += np.pi
     rake[dip > np.pi/2] = 2*np.pi-rake[dip > np.pi/2]
     dip[dip > np.pi/2] = np.pi-dip[dip > np.pi/2]
-- 
2.43.0


From 976dbb2c336fb62846c844e6288cb3ac6094222c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:06 +0000
Subject: [PATCH 23/71] fix: keep the strike below 2 pi when it is a rounding
 error below zero

---
 src/MTfit/convert/cmoment_tensor_conversion.pyx | 2 ++
 src/MTfit/convert/moment_tensor_conversion.py   | 3 +++
 2 files changed, 5 insertions(+)

diff --git a/src/MTfit/convert/cmoment_tensor_conversion.pyx b/src/MTfit/convert/cmoment_tensor_conversion.pyx
index 737ce57..beaf09e 100644
--- a/src/MTfit/convert/cmoment_tensor_conversion.pyx
+++ b/src/MTfit/convert/cmoment_tensor_conversion.pyx
@@ -123,6 +123,8 @@ cdef inline void cN_SDR(DTYPE_t N0,DTYPE_t N1,DTYPE_t N2,DTYPE_t S0,DTYPE_t S1,D
         strike[0] = fmod(strike[0],PI2)
     if strike[0] < 0.0:
         strike[0] += PI2
+    if strike[0] >= PI2:
+        strike[0] = 0.0
     if rake[0] > pi:
         rake[0] -= PI2
     elif rake[0] < -pi:
diff --git a/src/MTfit/convert/moment_tensor_conversion.py b/src/MTfit/convert/moment_tensor_conversion.py
index 0ede88e..2ec8fb2 100644
--- a/src/MTfit/convert/moment_tensor_conversion.py
+++ b/src/MTfit/convert/moment_tensor_conversion.py
@@ -464,6 +464,7 @@ def FP_SDR(normal, slip):
     rake[dip > np.pi/2] = 2*np.pi-rake[dip > np.pi/2]
     dip[dip > np.pi/2] = np.pi-dip[dip > np.pi/2]
     strike = np.mod(strike, 2*np.pi)
+    strike[strike >= 2*np.pi] = 0.
     rake[rake > np.pi] -= 2*np.pi
     rake[rake < -np.pi] += 2*np.pi
     return (np.array(strike).flatten(), np.array(dip).flatten(), np.array(rake).flatten())
@@ -804,6 +805,8 @@ def normal_SD(normal):
     dip = np.arctan2((normal[1]**2+normal[0]**2),
                      np.sqrt((normal[0]*normal[2])**2+(normal[1]*normal[2])**2))
     strike = np.mod(strike, 2*np.pi)
+    # The modulus of a tiny negative angle rounds up to 2 pi
+    strike[strike >= 2*np.pi] = 0.
     return strike, dip
 
 
-- 
2.43.0


From 16b7a681b1cbf37efd68bdc062699cc99913a81b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:06 +0000
Subject: [PATCH 24/71] fix: auxiliary plane was the input plane for nearby or
 wrapped strikes

---
 src/MTfit/convert/moment_tensor_conversion.py | 15 ++-------------
 1 file changed, 2 insertions(+), 13 deletions(-)

diff --git a/src/MTfit/convert/moment_tensor_conversion.py b/src/MTfit/convert/moment_tensor_conversion.py
index 2ec8fb2..7044a82 100644
--- a/src/MTfit/convert/moment_tensor_conversion.py
+++ b/src/MTfit/convert/moment_tensor_conversion.py
@@ -579,19 +579,8 @@ def SDR_SDR(strike, dip, rake):
         logger.info(C_EXTENSION_FALLBACK_LOG_MSG)
     # Handle multiple inputs
     N1, N2 = SDR_FP(strike, dip, rake)
-    s1, d1, r1 = FP_SDR(N1, N2)
-    s2, d2, r2 = FP_SDR(N2, N1)
-    # This should be ok to return s2,d2,r2 but doesn't seem to work
-    try:
-        r2[np.abs(strike-s2) < 1] = r1[np.abs(strike-s2) < 1]
-        d2[np.abs(strike-s2) < 1] = d1[np.abs(strike-s2) < 1]
-        s2[np.abs(strike-s2) < 1] = s1[np.abs(strike-s2) < 1]
-        return s2, d2, r2
-    except Exception:
-        if np.abs(strike-s1) < 1:
-            return (s2, d2, r2)
-        else:
-            return (s1, d1, r1)
+    # The first vector is the slip vector, which is the normal of the other plane
+    return FP_SDR(N1, N2)
 
 
 def FP_TNP(normal, slip):
-- 
2.43.0


From 9e56632cd72257e1d0f11aaa76ec3c7affb179f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:06 +0000
Subject: [PATCH 25/71] fix: orthonormal axes for tensors with repeated
 eigenvalues

---
 src/MTfit/convert/moment_tensor_conversion.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/MTfit/convert/moment_tensor_conversion.py b/src/MTfit/convert/moment_tensor_conversion.py
index 7044a82..714b581 100644
--- a/src/MTfit/convert/moment_tensor_conversion.py
+++ b/src/MTfit/convert/moment_tensor_conversion.py
@@ -178,10 +178,12 @@ def MT33_TNPE(MT33):
         (numpy.matrix, numpy.matrix, numpy.matrix, numpy.array): tuple of T, N, P
                         vectors and Eigenvalue array
     """
-    E, L = np.linalg.eig(MT33)
+    E, L = np.linalg.eigh(MT33)
     idx = E.argsort()[::-1]
     E = E[idx]
     L = L[:, idx]
+    # Fix the arbitrary sign of each axis so that its largest component is positive
+    L = np.multiply(L, np.where(L[np.abs(L).argmax(axis=0), [0, 1, 2]] < 0, -1, 1))
     T = L[:, 0]
     P = L[:, 2]
     N = L[:, 1]
-- 
2.43.0


From 879d9b21cf56050c49d16369a05fdb61598d7db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:38 +0000
Subject: [PATCH 26/71] fix: finite lune latitude for nearly isotropic tensors

---
 src/MTfit/convert/cmoment_tensor_conversion.pyx | 5 ++++-
 src/MTfit/convert/moment_tensor_conversion.py   | 3 ++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/MTfit/convert/cmoment_tensor_conversion.pyx b/src/MTfit/convert/cmoment_tensor_conversion.pyx
index beaf09e..3ad330c 100644
--- a/src/MTfit/convert/cmoment_tensor_conversion.pyx
+++ b/src/MTfit/convert/cmoment_tensor_conversion.pyx
@@ -8,6 +8,8 @@
 # Applications for commercial use should be made to Schlumberger or the University of Cambridge.
 
 from libc.math cimport fabs
+from libc.math cimport fmax
+from libc.math cimport fmin
 from libc.math cimport fmod
 from libc.math cimport cos
 from libc.math cimport acos
@@ -96,7 +98,8 @@ cdef inline void cE_gd(DTYPE_t[:] E,DTYPE_t*g,DTYPE_t*d) nogil:
             d[0]=-pi/2
     else:
         g[0]=atan2(-E[0]+2*E[1]-E[2],sqrt3*(E[0]-E[2]))
-        d[0]=pi/2-acos((E[0]+E[1]+E[2])/(sqrt3*sqrt((E[0]*E[0]+E[1]*E[1]+E[2]*E[2]))))
+        # Rounding can take the cosine past one for nearly isotropic sources
+        d[0]=pi/2-acos(fmax(-1,fmin(1,(E[0]+E[1]+E[2])/(sqrt3*sqrt((E[0]*E[0]+E[1]*E[1]+E[2]*E[2]))))))
 @cython.boundscheck(False)
 @cython.wraparound(False)
 @cython.nonecheck(False)
diff --git a/src/MTfit/convert/moment_tensor_conversion.py b/src/MTfit/convert/moment_tensor_conversion.py
index 714b581..b4bbda8 100644
--- a/src/MTfit/convert/moment_tensor_conversion.py
+++ b/src/MTfit/convert/moment_tensor_conversion.py
@@ -352,7 +352,8 @@ def E_GD(E):
         idx = E.argsort()[::-1]
         E = E[idx]
         gamma = np.arctan2(-E[0]+2*E[1]-E[2], np.sqrt(3)*(E[0]-E[2]))
-        beta = np.arccos(np.sum(E)/(np.sqrt(3)*np.sqrt(np.sum(E*E))))
+        # Rounding can take the cosine past one for nearly isotropic sources
+        beta = np.arccos(np.clip(np.sum(E)/(np.sqrt(3)*np.sqrt(np.sum(E*E))), -1, 1))
         delta = np.real(np.pi/2-beta)
     return gamma, delta
 
-- 
2.43.0


From b8b752f868f0c20db45617c87c34a19f5ce49ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:38 +0000
Subject: [PATCH 27/71] fix: axes of exactly isotropic tensors read past the
 end of the eigenvalues

---
 src/MTfit/convert/cmoment_tensor_conversion.pyx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/MTfit/convert/cmoment_tensor_conversion.pyx b/src/MTfit/convert/cmoment_tensor_conversion.pyx
index 3ad330c..576646b 100644
--- a/src/MTfit/convert/cmoment_tensor_conversion.pyx
+++ b/src/MTfit/convert/cmoment_tensor_conversion.pyx
@@ -304,7 +304,8 @@ cdef cMT6_TNPE(DTYPE_t[:] MT):
         e,L=eigh(MT33,overwrite_a=True,check_finite=False)
     else:        
         e,L=eigh(MT33,overwrite_a=True)
-    maxi=0
+    # Distinct starting points, so that three equal eigenvalues still give three different axes
+    maxi=2
     mini=0
     cdef Py_ssize_t i
     for i in [0,1,2]:
-- 
2.43.0


From f13d5090e78550a31c1de58b3bbb897957c446a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:05 +0000
Subject: [PATCH 28/71] fix: finite Hudson coordinates for isotropic tensors
 with rounding

---
 src/MTfit/convert/cmoment_tensor_conversion.pyx | 7 ++++---
 src/MTfit/convert/moment_tensor_conversion.py   | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/MTfit/convert/cmoment_tensor_conversion.pyx b/src/MTfit/convert/cmoment_tensor_conversion.pyx
index 576646b..811cf5c 100644
--- a/src/MTfit/convert/cmoment_tensor_conversion.pyx
+++ b/src/MTfit/convert/cmoment_tensor_conversion.pyx
@@ -45,9 +45,10 @@ if int(__scipy_version__.split('.')[0])==0 and int(__scipy_version__.split('.')[
 @cython.cdivision(True)
 cdef inline DTYPE_t[::1] cE_tk(DTYPE_t[::1] E,DTYPE_t[::1] results) nogil:
     cdef DTYPE_t iso=(E[0]+E[1]+E[2])/3
-    cdef DTYPE_t dev0=E[0]-iso
-    cdef DTYPE_t dev1=E[2]-iso#Odd sorting from hudson paper E[0]>=E[2]>=E[1]
-    cdef DTYPE_t dev2=E[1]-iso
+    # Deviatoric parts from differences, so that they vanish only when the eigenvalues are equal
+    cdef DTYPE_t dev0=((E[0]-E[1])+(E[0]-E[2]))/3
+    cdef DTYPE_t dev1=((E[2]-E[0])+(E[2]-E[1]))/3#Odd sorting from hudson paper E[0]>=E[2]>=E[1]
+    cdef DTYPE_t dev2=((E[1]-E[0])+(E[1]-E[2]))/3
     if dev2>0:
         results[5]=iso/(fabs(iso)-dev1)
         results[6]=-2*(dev2)/(dev1)
diff --git a/src/MTfit/convert/moment_tensor_conversion.py b/src/MTfit/convert/moment_tensor_conversion.py
index b4bbda8..453aa29 100644
--- a/src/MTfit/convert/moment_tensor_conversion.py
+++ b/src/MTfit/convert/moment_tensor_conversion.py
@@ -240,9 +240,10 @@ def E_tk(E):
         idx = [0, 2, 1]  # Odd sorting
         E = E[idx]
         iso = (E[0]+E[1]+E[2])/3
-        dev0 = E[0]-iso
-        dev1 = E[1]-iso
-        dev2 = E[2]-iso
+        # Deviatoric parts from differences, so that they vanish only when the eigenvalues are equal
+        dev0 = ((E[0]-E[1])+(E[0]-E[2]))/3
+        dev1 = ((E[1]-E[0])+(E[1]-E[2]))/3
+        dev2 = ((E[2]-E[0])+(E[2]-E[1]))/3
         if dev2 > 0:
             k = iso/(abs(iso)-dev1)
             T = -2*(dev2)/(dev1)
-- 
2.43.0


From 3d597442694dba9bf52457a61c74f41280b18426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:05 +0000
Subject: [PATCH 29/71] fix: source-type coordinates do not depend on the order
 of the eigenvalues

---
 src/MTfit/convert/cmoment_tensor_conversion.pyx | 14 +++++++++-----
 src/MTfit/convert/moment_tensor_conversion.py   |  2 +-
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/MTfit/convert/cmoment_tensor_conversion.pyx b/src/MTfit/convert/cmoment_tensor_conversion.pyx
index 811cf5c..e58f483 100644
--- a/src/MTfit/convert/cmoment_tensor_conversion.pyx
+++ b/src/MTfit/convert/cmoment_tensor_conversion.pyx
@@ -90,17 +90,21 @@ cdef inline DTYPE_t[::1] ctk_uv(DTYPE_t[::1] results) nogil:
 @cython.nonecheck(False)
 @cython.cdivision(True)
 cdef inline void cE_gd(DTYPE_t[:] E,DTYPE_t*g,DTYPE_t*d) nogil:
-    if E[0]==E[2]:
-        if E[0]>0:
+    # The eigenvalues can be in any order
+    cdef DTYPE_t E0=fmax(E[0],fmax(E[1],E[2]))
+    cdef DTYPE_t E2=fmin(E[0],fmin(E[1],E[2]))
+    cdef DTYPE_t E1=fmax(fmin(E[0],E[1]),fmin(fmax(E[0],E[1]),E[2]))
+    if E0==E2:
+        if E0>0:
             g[0]=0
             d[0]=pi/2
-        elif E[0]<0:
+        elif E0<0:
             g[0]=0
             d[0]=-pi/2
     else:
-        g[0]=atan2(-E[0]+2*E[1]-E[2],sqrt3*(E[0]-E[2]))
+        g[0]=atan2(-E0+2*E1-E2,sqrt3*(E0-E2))
         # Rounding can take the cosine past one for nearly isotropic sources
-        d[0]=pi/2-acos(fmax(-1,fmin(1,(E[0]+E[1]+E[2])/(sqrt3*sqrt((E[0]*E[0]+E[1]*E[1]+E[2]*E[2]))))))
+        d[0]=pi/2-acos(fmax(-1,fmin(1,(E0+E1+E2)/(sqrt3*sqrt((E0*E0+E1*E1+E2*E2))))))
 @cython.boundscheck(False)
 @cython.wraparound(False)
 @cython.nonecheck(False)
diff --git a/src/MTfit/convert/moment_tensor_conversion.py b/src/MTfit/convert/moment_tensor_conversion.py
index 453aa29..56a1fd2 100644
--- a/src/MTfit/convert/moment_tensor_conversion.py
+++ b/src/MTfit/convert/moment_tensor_conversion.py
@@ -237,7 +237,7 @@ def E_tk(E):
         for i in range(E.shape[1]):
             tau[i], k[i] = E_tk(E[:, i])
     else:
-        idx = [0, 2, 1]  # Odd sorting
+        idx = E.argsort()[[2, 0, 1]]  # Odd sorting
         E = E[idx]
         iso = (E[0]+E[1]+E[2])/3
         # Deviatoric parts from differences, so that they vanish only when the eigenvalues are equal
-- 
2.43.0


From 8f86ae3ff379197afe95407324e7e8818095af8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:05 +0000
Subject: [PATCH 30/71] fix: lune coordinates of eigenvalues given in rows
 without the compiled extension

---
 src/MTfit/convert/moment_tensor_conversion.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/MTfit/convert/moment_tensor_conversion.py b/src/MTfit/convert/moment_tensor_conversion.py
index 56a1fd2..7a6641e 100644
--- a/src/MTfit/convert/moment_tensor_conversion.py
+++ b/src/MTfit/convert/moment_tensor_conversion.py
@@ -342,6 +342,9 @@ def E_GD(E):
         logger.info(C_EXTENSION_FALLBACK_LOG_MSG)
     if isinstance(E, np.ndarray):
         E = np.squeeze(np.array(E))
+    # Eigenvalues of each source in a row
+    if len(E.shape) > 1 and E.shape[1] == 3 and E.shape[0] != 3:
+        E = E.T
     if len(E.shape) > 1 and E.shape[1] > 1:
         gamma = np.empty(E.shape[1])
         delta = np.empty(E.shape[1])
-- 
2.43.0


From 5d833f6d24ca472767ed5f14b6e6bfb61b11ecc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:09 +0000
Subject: [PATCH 31/71] fix: real eigenvalues for the lune coordinates of 3x3
 tensors

---
 src/MTfit/convert/moment_tensor_conversion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MTfit/convert/moment_tensor_conversion.py b/src/MTfit/convert/moment_tensor_conversion.py
index 7a6641e..f2d1d00 100644
--- a/src/MTfit/convert/moment_tensor_conversion.py
+++ b/src/MTfit/convert/moment_tensor_conversion.py
@@ -215,7 +215,7 @@ def MT33_GD(MT33):
     Returns
         (numpy.array, numpy.array): tuple of gamma, delta
     """
-    E, L = np.linalg.eig(MT33)
+    E = np.linalg.eigvalsh(MT33)
     return E_GD(E)
 
 
-- 
2.43.0


From 5e588f5f7c33ff93734fc8980deb1d8048de2a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:09 +0000
Subject: [PATCH 32/71] fix: crack-plus-double-couple conversions at the ends
 of their ranges

---
 src/MTfit/convert/moment_tensor_conversion.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/MTfit/convert/moment_tensor_conversion.py b/src/MTfit/convert/moment_tensor_conversion.py
index f2d1d00..51788a6 100644
--- a/src/MTfit/convert/moment_tensor_conversion.py
+++ b/src/MTfit/convert/moment_tensor_conversion.py
@@ -376,7 +376,8 @@ def GD_basic_cdc(gamma, delta):
         (numpy.array, numpy.array): tuple of alpha, poisson
     """
 
-    alpha = np.arccos(-np.sqrt(3)*np.tan(gamma))
+    # Rounding can take the cosine past one for pure cracks
+    alpha = np.arccos(np.clip(-np.sqrt(3)*np.tan(gamma), -1, 1))
     poisson = (1+np.sqrt(2) * (np.tan((np.pi/2)-delta) * np.sin(gamma)))
     poisson /= (2-(np.sqrt(2) * (np.tan((np.pi/2)-delta) * np.sin(gamma))))
     return alpha, poisson
@@ -496,9 +497,10 @@ def basic_cdc_GD(alpha, poisson=0.25):
 
     """
     gamma = np.arctan((-1/np.sqrt(3.))*np.cos(alpha))
-    beta = np.arccos(np.sqrt(2./3)*np.cos(alpha)*(1.+poisson) /
-                     np.sqrt(((1.-2.*poisson)*(1.-2.*poisson)) +
-                             np.cos(alpha)*np.cos(alpha)*(1.+2.*poisson*poisson)))
+    # Rounding can take the cosine past one for a Poisson ratio of a half
+    beta = np.arccos(np.clip(np.sqrt(2./3)*np.cos(alpha)*(1.+poisson) /
+                             np.sqrt(((1.-2.*poisson)*(1.-2.*poisson)) +
+                                     np.cos(alpha)*np.cos(alpha)*(1.+2.*poisson*poisson)), -1, 1))
     try:
         # fix for odd cos division problems
         beta[alpha == np.pi/2] = np.pi/2
-- 
2.43.0


From 4bf5edc954d82f1138d0bf163c9328a9ea596958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:20 +0000
Subject: [PATCH 33/71] fix: keep the stiffness tensor when indexing moment
 tensor samples

---
 src/MTfit/plot/plot_classes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MTfit/plot/plot_classes.py b/src/MTfit/plot/plot_classes.py
index 39f4091..2e00909 100644
--- a/src/MTfit/plot/plot_classes.py
+++ b/src/MTfit/plot/plot_classes.py
@@ -247,7 +247,7 @@ class MTData(object):
                 probability = self.probability.__getitem__(arg)
             except Exception:
                 probability = self.probability.__getitem__(arg[1])
-        return self.__class__(self.MTs.__getitem__(arg), probability, **converted)
+        return self.__class__(self.MTs.__getitem__(arg), probability, c=self.c, **converted)
 
     def __setitem__(self, arg, value):
         """
-- 
2.43.0


From 821b7d0d26c4bb6e0bc79c0a01a7b5255ad28ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:20 +0000
Subject: [PATCH 34/71] fix: six moment tensors given as 3x3 matrices

---
 src/MTfit/plot/plot_classes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MTfit/plot/plot_classes.py b/src/MTfit/plot/plot_classes.py
index 2e00909..bfa5e0d 100644
--- a/src/MTfit/plot/plot_classes.py
+++ b/src/MTfit/plot/plot_classes.py
@@ -207,7 +207,7 @@ class MTData(object):
         # convert MTs to MT6
         if not isinstance(MTs, np.ndarray):
             MTs = np.array(MTs)
-        if 6 not in MTs.shape:
+        if 6 not in MTs.shape or len(MTs.shape) == 3:
             # MT 33 as (:,3,3) 3 dimensional array
             if MTs.shape[-2:] == (3, 3):
                 # 3x3 matrix
-- 
2.43.0


From 924e0c4370ec5f946e38913b3e23ad01cb60d89d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:30 +0000
Subject: [PATCH 35/71] fix: converted parameters after setting moment tensors
 in place

---
 src/MTfit/plot/plot_classes.py | 155 ++-------------------------------
 1 file changed, 6 insertions(+), 149 deletions(-)

diff --git a/src/MTfit/plot/plot_classes.py b/src/MTfit/plot/plot_classes.py
index bfa5e0d..f82cf4c 100644
--- a/src/MTfit/plot/plot_classes.py
+++ b/src/MTfit/plot/plot_classes.py
@@ -26,7 +26,7 @@ from mpl_toolkits.mplot3d import proj3d
 from matplotlib.patches import FancyArrowPatch
 
 from MTfit.inversion import station_angles
-from MTfit.convert import MT33_MT6, toa_vec, tk_uv, E_tk, TNP_SDR, MT6_TNPE, E_GD, TP_FP, normal_SD, SDR_SDR, MT6_biaxes, E_uv
+from MTfit.convert import MT33_MT6, toa_vec, tk_uv, E_tk, TNP_SDR, MT6_TNPE, E_GD, TP_FP, normal_SD, SDR_SDR, MT6_biaxes
 from MTfit.utilities.extensions import get_extensions
 try:
     from MTfit.sampling import unique_columns, _6sphere_prior, ln_bayesian_evidence
@@ -376,160 +376,17 @@ class MTData(object):
 
     def _set_converted(self, arg):
         """
-        Sets the converted parameters for a new MTs set using __setitem__
+        Updates the converted parameters for a new MTs set using __setitem__
 
-        If a parameter has been set, the new moment tensors are converted to that parameter and set
-
-        (Includes parent parameters, i.e. those required to calculate the other parameters)
+        Any parameter that has been converted is removed, so that it is recalculated from the new moment tensors
+        when it is next used.
 
         Args
             arg: index or slice of parameters to set.
         """
         self._clear_dependent_parameters()
-        T, N, P, E = MT6_TNPE(self.MTs[arg])
-        if 'phi1' in self.__dict__.keys():
-            phi, explosion, area_displacement = MT6_biaxes(
-                self.MTs[arg], self.c)
-            try:
-                self.phi1[arg] = (phi[:, :, 0]).T
-            except Exception:
-                self.phi1[arg[1]] = (phi[:, :, 0]).T
-            try:
-                self.phi2[arg] = (phi[:, :, 1]).T
-            except Exception:
-                self.phi2[arg[1]] = (phi[:, :, 1]).T
-            try:
-                self.area_displacement[arg] = area_displacement
-            except Exception:
-                self.area_displacement[arg[1]] = area_displacement
-            try:
-                self.explosion[arg] = explosion
-            except Exception:
-                self.explosion[arg[1]] = explosion
-        if 'T' in self.__dict__.keys():
-            try:
-                self.T[arg] = np.array(np.matrix(T))
-                self.N[arg] = np.array(np.matrix(N))
-                self.P[arg] = np.array(np.matrix(P))
-            except ValueError:
-                self.T[arg] = T.flatten()
-                self.N[arg] = N.flatten()
-                self.P[arg] = P.flatten()
-        if 'N1' in self.__dict__.keys():
-            N1, N2 = TP_FP(self.T, self.P)
-            try:
-                self.N1[arg] = np.matrix(N1)
-                self.N2[arg] = np.matrix(N2)
-            except ValueError:
-                self.N1[arg] = N1.flatten()
-                self.N2[arg] = N2.flatten()
-
-        if 'strike' in self.__dict__.keys():
-            strike, dip, rake = TNP_SDR(T, N, P)
-            try:
-                self.strike[arg] = strike*rad_deg
-            except Exception:
-                self.strike[arg[1]] = strike*rad_deg
-            try:
-                self.dip[arg] = dip*rad_deg
-            except Exception:
-                self.dip[arg[1]] = dip*rad_deg
-            try:
-                self.rake[arg] = rake*rad_deg
-            except Exception:
-                self.rake[arg[1]] = rake*rad_deg
-
-        if 'strike2' in self.__dict__.keys():
-            try:
-                strike2, dip2, rake2 = SDR_SDR(strike, dip, rake)
-            except Exception:
-                strike, dip, rake = TNP_SDR(T, N, P)
-                strike2, dip2, rake2 = SDR_SDR(strike, dip, rake)
-
-            try:
-                self.strike2[arg] = strike2*rad_deg
-            except Exception:
-                self.strike2[arg[1]] = strike2*rad_deg
-            try:
-                self.dip2[arg] = dip2*rad_deg
-            except Exception:
-                self.dip2[arg[1]] = dip2*rad_deg
-            try:
-                self.rake2[arg] = rake2*rad_deg
-            except Exception:
-                self.rake2[arg[1]] = rake2*rad_deg
-        if 'gamma' in self.__dict__.keys():
-            gamma, delta = E_GD(E)
-            try:
-                self.gamma[arg] = gamma
-            except Exception:
-                self.gamma[arg[1]] = gamma
-            try:
-                self.delta[arg] = delta
-            except Exception:
-                self.delta[arg[1]] = delta
-
-        if 'tau' in self.__dict__.keys():
-            tau, k = E_tk(E)
-            try:
-                self.tau[arg] = tau
-            except Exception:
-                self.tau[arg[1]] = tau
-            try:
-                self.k[arg] = k
-            except Exception:
-                self.k[arg[1]] = k
-
-        if 'u' in self.__dict__.keys():
-            try:
-                u, v = E_uv(tau, k)
-            except Exception:
-                tau, k = E_tk(E)
-                u, v = E_uv(tau, k)
-            try:
-                self.u[arg] = u
-            except Exception:
-                self.u[arg[1]] = u
-            try:
-                self.v[arg] = v
-            except Exception:
-                self.v[arg[1]] = v
-
-        if 'kappa' in self.__dict__.keys():
-            try:
-                kappa = strike
-                kappa[np.abs(rake) > 90] = strike2[np.abs(rake) > 90]
-                h = dip
-                h[np.abs(rake) > 90] = dip2[np.abs(rake) > 90]
-                h = np.cos(h/rad_deg)
-                sigma = rake
-                sigma[np.abs(rake) > 90] = rake2[np.abs(rake) > 90]
-                kappa = kappa/rad_deg
-                sigma = sigma/rad_deg
-            except Exception:
-                strike, dip, rake = TNP_SDR(T, N, P)
-                strike2, dip2, rake2 = SDR_SDR(strike, dip, rake)
-                kappa = strike
-                kappa[np.abs(rake) > 90] = strike2[np.abs(rake) > 90]
-                h = dip
-                h[np.abs(rake) > 90] = dip2[np.abs(rake) > 90]
-                h = np.cos(h/rad_deg)
-                sigma = rake
-                sigma[np.abs(rake) > 90] = rake2[np.abs(rake) > 90]
-                kappa = kappa/rad_deg
-                sigma = sigma/rad_deg
-            try:
-                self.kappa[arg] = kappa
-            except Exception:
-                self.kappa[arg[1]] = kappa
-            try:
-                self.h[arg] = h
-            except Exception:
-                self.h[arg[1]] = h
-            try:
-                self.sigma[arg] = sigma
-            except Exception:
-                self.sigma[arg[1]] = sigma
+        for key in self._calculable+['phi1', 'phi2', 'var_clustered_rake2', 'cov_clustered_N2']:
+            self.__dict__.pop(key, None)
 
     def _convert(self, attr, *args, **kwargs):
         """
-- 
2.43.0


From 04ce95770e06e8636e11c65f8e7d65007f4ffd41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:56 +0000
Subject: [PATCH 36/71] fix: keep single moment tensor samples as columns when
 indexing

---
 src/MTfit/plot/plot_classes.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/MTfit/plot/plot_classes.py b/src/MTfit/plot/plot_classes.py
index f82cf4c..47507a8 100644
--- a/src/MTfit/plot/plot_classes.py
+++ b/src/MTfit/plot/plot_classes.py
@@ -240,6 +240,9 @@ class MTData(object):
         Returns
              MTData: new object with the corresponding moment tensors and any converted parameters.
         """
+        if isinstance(arg, tuple) and len(arg) == 2 and isinstance(arg[1], (int, np.integer)) and not isinstance(arg[1], (bool, np.bool_)):
+            # Single sample is kept as a column so that the converted parameters stay as arrays
+            arg = (arg[0], slice(arg[1], arg[1]+1 or None))
         converted = self._get_converted(arg)
         probability = []
         if len(self.probability) > 1:
-- 
2.43.0


From a6103036252a45a655116da4c3875e68eab091bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:48 +0000
Subject: [PATCH 37/71] fix: converted parameters of a single moment tensor are
 arrays

---
 src/MTfit/plot/plot_classes.py | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/src/MTfit/plot/plot_classes.py b/src/MTfit/plot/plot_classes.py
index 47507a8..24fc88b 100644
--- a/src/MTfit/plot/plot_classes.py
+++ b/src/MTfit/plot/plot_classes.py
@@ -226,6 +226,8 @@ class MTData(object):
         # make into an array
         if len(new_mts.shape) < 2:
             new_mts = np.array([new_mts])
+        # np.matrix slices do not change dimension, which the conversions rely on
+        new_mts = np.asarray(new_mts)
         # Get 6,n format
         if new_mts.shape[0] != 6:
             new_mts = new_mts.T
@@ -419,18 +421,18 @@ class MTData(object):
         if attr in ['strike2', 'dip2', 'rake2']:
             strike2, dip2, rake2 = SDR_SDR(
                 self.strike1/rad_deg, self.dip1/rad_deg, self.rake1/rad_deg)
-            self.strike2 = strike2*rad_deg
-            self.dip2 = dip2*rad_deg
-            self.rake2 = rake2*rad_deg
+            self.strike2 = np.atleast_1d(strike2*rad_deg)
+            self.dip2 = np.atleast_1d(dip2*rad_deg)
+            self.rake2 = np.atleast_1d(rake2*rad_deg)
         if attr in ['gamma', 'delta']:
             gamma, delta = E_GD(self.E)
-            self.gamma = gamma
-            self.delta = delta
+            self.gamma = np.atleast_1d(gamma)
+            self.delta = np.atleast_1d(delta)
         if attr in ['strike', 'dip', 'rake']:
             strike, dip, rake = TNP_SDR(self.T, self.N, self.P)
-            self.strike = strike*rad_deg
-            self.dip = dip*rad_deg
-            self.rake = rake*rad_deg
+            self.strike = np.atleast_1d(strike*rad_deg)
+            self.dip = np.atleast_1d(dip*rad_deg)
+            self.rake = np.atleast_1d(rake*rad_deg)
         if attr in ['T', 'N', 'P', 'E']:
             T, N, P, E = MT6_TNPE(self.MTs)
             self.T = np.array(T)
@@ -453,8 +455,8 @@ class MTData(object):
             self.get_max_probability()
         if attr in ['u', 'v']:
             u, v = tk_uv(self.tau, self.k)
-            self.u = u
-            self.v = v
+            self.u = np.atleast_1d(u)
+            self.v = np.atleast_1d(v)
         if attr in ['phi1', 'phi2', 'area_displacement', 'explosion']:
             phi, explosion, area_displacement = MT6_biaxes(self.MTs, self.c)
             try:
@@ -463,12 +465,12 @@ class MTData(object):
             except Exception:
                 self.phi1 = np.atleast_2d(phi[:, 0]).T
                 self.phi2 = np.atleast_2d(phi[:, 1]).T
-            self.area_displacement = area_displacement
-            self.explosion = explosion
+            self.area_displacement = np.atleast_1d(area_displacement)
+            self.explosion = np.atleast_1d(explosion)
         if attr in ['tau', 'k']:
             tau, k = E_tk(self.E)
-            self.tau = tau
-            self.k = k
+            self.tau = np.atleast_1d(tau)
+            self.k = np.atleast_1d(k)
         if attr in ['ln_bayesian_evidence']:
             try:
                 self.ln_bayesian_evidence = ln_bayesian_evidence({'g': self.gamma, 'd': self.delta, 'ln_pdf': self.ln_pdf},
-- 
2.43.0


From a7e03ca258aac0ccf6eb75cc748bf5a94e88db70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:31 +0000
Subject: [PATCH 38/71] fix: empty lines split events in csv files

---
 src/MTfit/utilities/file_io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MTfit/utilities/file_io.py b/src/MTfit/utilities/file_io.py
index 41e7014..d050dca 100644
--- a/src/MTfit/utilities/file_io.py
+++ b/src/MTfit/utilities/file_io.py
@@ -347,7 +347,7 @@ def parse_csv(filename):
     event = []
     # Loop over lines
     for l in lines:
-        if not len(l.split(',')[0]) and not len(l.split(',')[1]):
+        if not any(l.rstrip().split(',')[:2]):
             # End OF event
             if len(event):
                 events_list.append(event)
-- 
2.43.0


From d7725a49a768aabcb54f19a23f73a2efb9d15a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:31 +0000
Subject: [PATCH 39/71] fix: event numbers of identical events in csv files

---
 src/MTfit/utilities/file_io.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/MTfit/utilities/file_io.py b/src/MTfit/utilities/file_io.py
index d050dca..52bf821 100644
--- a/src/MTfit/utilities/file_io.py
+++ b/src/MTfit/utilities/file_io.py
@@ -398,8 +398,8 @@ def _parse_csv_events(events_list):
     take_off_angle_index = 2
     error_index = 4
     # Loop over events
-    for event in events_list:
-        event_dict = {'UID': str(events_list.index(event)+1)}
+    for event_number, event in enumerate(events_list, 1):
+        event_dict = {'UID': str(event_number)}
         # Set up generic dictionary
         key_dict = {'Stations': {
             'Name': [], 'TakeOffAngle': [], 'Azimuth': []}, 'Measured': [], 'Error': []}
-- 
2.43.0


From 89e1de803ec486ec8c62d1131395911610aaf590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:22:44 +0000
Subject: [PATCH 40/71] fix: unpickling LnPDF objects

---
 src/MTfit/probability/probability.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/MTfit/probability/probability.py b/src/MTfit/probability/probability.py
index fde6427..0a9c9e2 100644
--- a/src/MTfit/probability/probability.py
+++ b/src/MTfit/probability/probability.py
@@ -1044,7 +1044,8 @@ class LnPDF(object):
     def __getstate__(self):
         return self._ln_pdf, self.dV
 
-    def __setstate__(self, ln_pdf, dV):
+    def __setstate__(self, state):
+        ln_pdf, dV = state
         self._set_ln_pdf(ln_pdf)
         self._set_dv(dV)
 
-- 
2.43.0


From 244c20b30c34c7c70d47f9c052517993672474c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:08 +0000
Subject: [PATCH 41/71] fix: keep a worker serving after a task raises

---
 src/MTfit/utilities/multiprocessing_helper.py | 29 ++++++++++++-------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/src/MTfit/utilities/multiprocessing_helper.py b/src/MTfit/utilities/multiprocessing_helper.py
index 8d90d90..2091fb6 100644
--- a/src/MTfit/utilities/multiprocessing_helper.py
+++ b/src/MTfit/utilities/multiprocessing_helper.py
@@ -80,20 +80,29 @@ class Worker(multiprocessing.Process):
         while True:
             try:
                 next_task = self.task_queue.get()
-                if isinstance(next_task, PoisonPill):
-                    break
-                answer = next_task()
+            except (EOFError, OSError) as e:
+                # Task queue is broken
+                self.result_queue.put(e)
+                break
+            except Exception as e:
+                # Task could not be rebuilt, the queue is still usable
+                next_task = None
+                answer = e
+            if isinstance(next_task, PoisonPill):
+                break
+            try:
+                if next_task is not None:
+                    answer = next_task()
                 if isinstance(answer, dict):
                     for key, value in answer.items():
                         if isinstance(value, LnPDF):
                             answer[key] = {'ln_pdf_obj': value.__getstate__()}
-                self.result_queue.put(answer)
-                if self.single_life:
-                    break
-                gc.collect()
-            except Exception as e:
-                self.result_queue.put(e)
-                gc.collect()
+            except (Exception, SystemExit) as e:
+                # The exception is the result of this task, the worker can still run others
+                answer = e
+            self.result_queue.put(answer)
+            gc.collect()
+            if self.single_life:
                 break
         return
 
-- 
2.43.0


From fffd8bbec365f81b927898b3163b9b1fc45409fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:08 +0000
Subject: [PATCH 42/71] fix: remove every dead worker from the pool

---
 src/MTfit/utilities/multiprocessing_helper.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/MTfit/utilities/multiprocessing_helper.py b/src/MTfit/utilities/multiprocessing_helper.py
index 2091fb6..9fff925 100644
--- a/src/MTfit/utilities/multiprocessing_helper.py
+++ b/src/MTfit/utilities/multiprocessing_helper.py
@@ -197,12 +197,13 @@ class JobPool(object):
         Removes killed workers and adds new ones until the number of workers is correct.
 
         """
-        for i, worker in enumerate(self.workers):
-            if not worker.is_alive():
-                if not self.single_life:
-                    print(str(worker.name)+' Dead')
-                self.workers.pop(i)
-                del worker
+        living_workers = []
+        for worker in self.workers:
+            if worker.is_alive():
+                living_workers.append(worker)
+            elif not self.single_life:
+                print(str(worker.name)+' Dead')
+        self.workers = living_workers
         while len(self.workers) < self.number_workers:
             w = Worker(self.tasks, self.results, self.single_life)
             self.workers.append(w)
-- 
2.43.0


From edb8ddf6774c1df3ff89ef53b7cdecbd7c2743ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:08 +0000
Subject: [PATCH 43/71] fix: collecting results with reserved codes does not
 wait for results that never come

---
 src/MTfit/utilities/multiprocessing_helper.py | 24 ++++++++++++++-----
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/MTfit/utilities/multiprocessing_helper.py b/src/MTfit/utilities/multiprocessing_helper.py
index 9fff925..5843af8 100644
--- a/src/MTfit/utilities/multiprocessing_helper.py
+++ b/src/MTfit/utilities/multiprocessing_helper.py
@@ -226,20 +226,30 @@ class JobPool(object):
     def result(self):
         """
 
-        Returns a result object (skipping tasks that return results in the RETURN_CODES)
+        Returns a result object (skipping tasks that return results in the RETURN_CODES, unless there are no other
+        tasks to wait for)
 
         Returns
             Task result
         """
+        result = self._next_result()
+        # Check if result is in return codes (errors or otherwise)
+        while self._is_return_code(result) and self.number_jobs > 0:
+            result = self._next_result()
+        return self.rebuild_ln_pdf(result)
+
+    def _next_result(self):
+        """Returns the next object from the results queue"""
         # clean up dead workers
         self.clean_workers()
         # Get result
         result = self.results.get()
         self.number_jobs -= 1
-        # Check if result is in return codes (errors or otherwise)
-        if isinstance(result, int) and result in RETURN_CODES:
-            result = self.result()
-        return self.rebuild_ln_pdf(result)
+        return result
+
+    @staticmethod
+    def _is_return_code(result):
+        return isinstance(result, int) and result in RETURN_CODES
 
     def rebuild_ln_pdf(self, result):
         if isinstance(result, dict):
@@ -268,7 +278,9 @@ class JobPool(object):
         results = []
         # Loop over all un-returned jobs
         while self.number_jobs:
-            results.append(self.result())
+            result = self.result()
+            if not self._is_return_code(result):
+                results.append(result)
         return results
 
     def close(self):
-- 
2.43.0


From d1c4ed1f308f536900950f93641b3e1e492d0c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:09 +0000
Subject: [PATCH 44/71] fix: closing a pool with uncollected results ends the
 workers

---
 src/MTfit/utilities/multiprocessing_helper.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/MTfit/utilities/multiprocessing_helper.py b/src/MTfit/utilities/multiprocessing_helper.py
index 5843af8..875ba12 100644
--- a/src/MTfit/utilities/multiprocessing_helper.py
+++ b/src/MTfit/utilities/multiprocessing_helper.py
@@ -14,7 +14,10 @@ Handles multiprocessing queue and worker behaviour, including return codes
 import multiprocessing
 import gc
 import os
-
+try:
+    from queue import Empty
+except ImportError:
+    from Queue import Empty
 
 from ..probability import LnPDF
 
@@ -148,6 +151,8 @@ class JobPool(object):
         print('Initialising Job Pool')
         self.tasks = multiprocessing.Queue()
         self.results = multiprocessing.Queue()
+        # Results read from the queue while closing the workers
+        self.read_results = []
         self.workers = []
         # Set default task
         self.task_class = task
@@ -243,7 +248,10 @@ class JobPool(object):
         # clean up dead workers
         self.clean_workers()
         # Get result
-        result = self.results.get()
+        if self.read_results:
+            result = self.read_results.pop(0)
+        else:
+            result = self.results.get()
         self.number_jobs -= 1
         return result
 
@@ -295,4 +303,10 @@ class JobPool(object):
             self.tasks.put(PoisonPill())
         # Join workers to main thread
         for w in self.workers:
+            # A worker can only end once its results have been read from the queue
+            while w.is_alive():
+                try:
+                    self.read_results.append(self.results.get(timeout=0.02))
+                except Empty:
+                    pass
             w.join()
-- 
2.43.0


From e370a7689d15d068db2f9785a1d686d664d2e004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:09 +0000
Subject: [PATCH 45/71] fix: task results that cannot be pickled are reported
 rather than lost

---
 src/MTfit/utilities/multiprocessing_helper.py | 20 ++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/MTfit/utilities/multiprocessing_helper.py b/src/MTfit/utilities/multiprocessing_helper.py
index 875ba12..e943e5f 100644
--- a/src/MTfit/utilities/multiprocessing_helper.py
+++ b/src/MTfit/utilities/multiprocessing_helper.py
@@ -14,6 +14,7 @@ Handles multiprocessing queue and worker behaviour, including return codes
 import multiprocessing
 import gc
 import os
+import pickle
 try:
     from queue import Empty
 except ImportError:
@@ -103,12 +104,29 @@ class Worker(multiprocessing.Process):
             except (Exception, SystemExit) as e:
                 # The exception is the result of this task, the worker can still run others
                 answer = e
-            self.result_queue.put(answer)
+            self.result_queue.put(self._transferable(answer))
             gc.collect()
             if self.single_life:
                 break
         return
 
+    @staticmethod
+    def _transferable(answer):
+        """
+        Checks that the answer can be passed through the result queue
+
+        An object that cannot be pickled would be dropped by the queue, so is replaced by an exception describing it.
+        """
+        try:
+            pickled = pickle.dumps(answer)
+            if isinstance(answer, BaseException):
+                pickle.loads(pickled)
+        except Exception as e:
+            if isinstance(answer, BaseException):
+                return RuntimeError('{}: {}'.format(type(answer).__name__, answer))
+            return RuntimeError('Result could not be returned from worker: {}'.format(e))
+        return answer
+
     def start(self):
         print(self.name, 'Starting')
         super(Worker, self).start()
-- 
2.43.0


From 2b5ae5c6d80798d747356885e31835e48c2f7e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:42 +0000
Subject: [PATCH 46/71] fix: use the configured double-couple prior and never
 accept a proposal with zero acceptance

---
 src/MTfit/algorithms/markov_chain_monte_carlo.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/MTfit/algorithms/markov_chain_monte_carlo.py b/src/MTfit/algorithms/markov_chain_monte_carlo.py
index 64be869..f570501 100644
--- a/src/MTfit/algorithms/markov_chain_monte_carlo.py
+++ b/src/MTfit/algorithms/markov_chain_monte_carlo.py
@@ -503,9 +503,12 @@ class MarginalisedMarkovChainMonteCarlo(BaseAlgorithm):
         """
         return 0
 
-    def _acceptance_check(self, xi_1, ln_pi_1, scale_factori_1, dc_prior=0.5):
+    def _acceptance_check(self, xi_1, ln_pi_1, scale_factori_1, dc_prior=None):
         """Calculate acceptance"""
-        if np.random.rand() <= self.acceptance(xi_1, ln_pi_1, dc_prior):
+        if dc_prior is None:
+            dc_prior = getattr(self, 'dc_prior', 0.5)
+        # strict comparison as rand() can be 0, and a proposal with 0 acceptance must never be accepted
+        if np.random.rand() < self.acceptance(xi_1, ln_pi_1, dc_prior):
             return xi_1, ln_pi_1, scale_factori_1, 0
         else:
             return {}, False, False, 0
-- 
2.43.0


From 73fc373372db21a19291d3cb90f169887bab67d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:42 +0000
Subject: [PATCH 47/71] fix: normalise the balancing draw density over the
 range it is drawn from

---
 src/MTfit/algorithms/markov_chain_monte_carlo.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/MTfit/algorithms/markov_chain_monte_carlo.py b/src/MTfit/algorithms/markov_chain_monte_carlo.py
index f570501..dddc4e5 100644
--- a/src/MTfit/algorithms/markov_chain_monte_carlo.py
+++ b/src/MTfit/algorithms/markov_chain_monte_carlo.py
@@ -1294,9 +1294,8 @@ class IterativeTransDMetropolisHastingsGaussianTape(IterativeMetropolisHastingsG
         # Set DC model prior
         self.dc_prior = kwargs.get('dc_prior', .5)
         # Calculate balance vector proposal normalisation
-        d = np.linspace(-np.pi/2, np.pi/2, 10000)
-        pn = sum(np.cos(d)*gaussian_pdf(d, 0, kwargs.get('dc_sigma_d', .2)) *
-                 np.mean(np.diff(d)))*(1-2*gaussian_cdf(-np.pi/6, 0, kwargs.get('dc_sigma_g', .2)))
+        # (probability of the two normally distributed balance parameters being in the gamma and delta ranges)
+        pn = (1-2*gaussian_cdf(-np.pi/2, 0, kwargs.get('dc_sigma_d', .2)))*(1-2*gaussian_cdf(-np.pi/6, 0, kwargs.get('dc_sigma_g', .2)))
         # Add proposal normalisation to alpha
         if self.number_events > 1:
             for alpha in self.alpha:
-- 
2.43.0


From 02d9c42662495a39148a7ddd1983163cd3bbdcec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:54 +0000
Subject: [PATCH 48/71] fix: Markov chain acceptance for multiple events, model
 jumps of joint states and zero prior samples

The double-couple flags of the events were used as one (always true) flag when
proposing, a trans-dimensional joint state raised a TypeError, likelihood
objects were not converted for model jumps, and a sample of zero prior density
was accepted if the likelihood ratio overflowed.
---
 .../algorithms/markov_chain_monte_carlo.py    | 125 ++++++++++--------
 1 file changed, 67 insertions(+), 58 deletions(-)

diff --git a/src/MTfit/algorithms/markov_chain_monte_carlo.py b/src/MTfit/algorithms/markov_chain_monte_carlo.py
index dddc4e5..3d7adb0 100644
--- a/src/MTfit/algorithms/markov_chain_monte_carlo.py
+++ b/src/MTfit/algorithms/markov_chain_monte_carlo.py
@@ -851,11 +851,29 @@ class MarginalisedMetropolisHastings(MarginalisedMarkovChainMonteCarlo):
 
     """
 
-    def acceptance(self, x, ln_likelihood_x, *args):
+    def _acceptance_terms(self, x, xi, dc=None, dc_prior=0.5):
+        """
+        Calculates the numerator and denominator of the acceptance ratio (without the likelihoods) for one event
+
+        Args
+            x: Model values for the event.
+            xi: Current model values for the event.
+            dc:[None] Boolean flag for double-couple samples (None uses the algorithm value).
+            dc_prior:[0.5] Prior probability for the DC model (trans-dimensional sampling).
+
+        Returns
+            float, float: numerator and denominator
+        """
+        args = () if dc is None else (dc,)
+        numerator = self.transition_pdf(xi, x, *args)*self.prior(x, *args)
+        denominator = self.transition_pdf(x, xi, *args)*self.prior(xi, *args)
+        return numerator, denominator
+
+    def acceptance(self, x, ln_likelihood_x, dc_prior=0.5, *args):
         """
         Calculates acceptance
 
-        Calculates the acceptance from the Metropolis condition.
+        Calculates the acceptance from the Metropolis condition. For multiple events the ratio is the product over the events.
 
         Args
             x: Model values
@@ -868,34 +886,34 @@ class MarginalisedMetropolisHastings(MarginalisedMarkovChainMonteCarlo):
             self.ln_likelihood_xi = float(self.ln_likelihood_xi)
         if isinstance(ln_likelihood_x, (np.ndarray, LnPDF)):
             ln_likelihood_x = float(ln_likelihood_x)
-        # Handle multiple events
         if ln_likelihood_x == -np.inf:
             return 0
+        if self.ln_likelihood_xi == -np.inf:
+            # 0 probability values for acceptance denominator so acc is
+            # infinite --> set to 1
+            return 1
         if self.number_events > 1:
             alpha = self.alpha[:]
-            acc = 1
+            dc_prior = np.ravel(dc_prior)
+            terms = []
             for i in range(self.number_events):
                 self.alpha = alpha[i]
-                if self.transition_pdf(x[i], self.xi[i], self.dc[i]) > 0 and self.prior(self.xi[i], self.dc[i]) > 0:
-                    _numerator = self.transition_pdf(self.xi[i], x[i], self.dc[i])*self.prior(x[i], self.dc[i])
-                    _denominator = self.transition_pdf(x[i], self.xi[i], self.dc[i])*self.prior(self.xi[i], self.dc[i])
-                    acc *= _numerator/_denominator
-                else:
-                    self.alpha = alpha[:]
-                    # 0 probability values for acceptance denominator so acc is
-                    # infinite --> set to 1
-                    return 1
+                terms.append(self._acceptance_terms(x[i], self.xi[i], self.dc[i], dc_prior[min(i, len(dc_prior)-1)]))
             self.alpha = alpha[:]
-            return min(1, acc*np.exp(ln_likelihood_x-self.ln_likelihood_xi))
-        if self.ln_likelihood_xi > -np.inf and self.transition_pdf(x, self.xi) > 0 and self.prior(self.xi) > 0:
-            # ln likelihoods
-            acceptance = (self.transition_pdf(self.xi, x)*self.prior(x))/(self.transition_pdf(x, self.xi)*self.prior(self.xi))
-            acceptance *= np.exp(ln_likelihood_x-self.ln_likelihood_xi)
-            return min(1, acceptance)
         else:
-            # 0 probability values for acceptance denominator so acc is
-            # infinite --> set to 1
-            return 1
+            terms = [self._acceptance_terms(x, self.xi, dc_prior=dc_prior)]
+        acceptance = 1.
+        for numerator, denominator in terms:
+            if not denominator > 0:
+                # 0 probability values for acceptance denominator so acc is
+                # infinite --> set to 1
+                return 1
+            acceptance *= numerator/denominator
+        if not acceptance > 0:
+            # 0 probability sample, whatever the likelihood ratio
+            return 0
+        # ln likelihoods
+        return min(1, acceptance*np.exp(ln_likelihood_x-self.ln_likelihood_xi))
 
 
 class MarginalisedMetropolisHastingsGaussianTape(MarginalisedMetropolisHastings):
@@ -1097,15 +1115,19 @@ class MarginalisedMetropolisHastingsGaussianTape(MarginalisedMetropolisHastings)
             if not isinstance(all_x, list):
                 raise TypeError('Expect self.xi to be list not {}\n self.xi = {}'.format(type(self.xi), self.xi))
             all_alpha = self.alpha
+            all_dc = self.dc
             x = []
             if not isinstance(all_x[0], dict):
                 all_x = self.convert_sample(all_x)
             for i, xi in enumerate(all_x):
                 self.xi = xi
                 self.alpha = all_alpha[i]
+                if isinstance(all_dc, list):
+                    self.dc = all_dc[i]
                 x.append(self._new_sample_single(*args, **kwargs))
             self.xi = all_x
             self.alpha = all_alpha
+            self.dc = all_dc
         else:
             x = self._new_sample_single(*args, **kwargs)
         self.xi_1 = x
@@ -1390,47 +1412,34 @@ class IterativeTransDMetropolisHastingsGaussianTape(IterativeMetropolisHastingsG
                 delta = (np.random.rand()*2-1)*np.pi/2
             return gamma, delta
 
-    def acceptance(self, x, ln_likelihoodx, dc_prior=0.5):
+    def _acceptance_terms(self, x, xi, dc=None, dc_prior=0.5):
         """
-        Calculates acceptance
+        Calculates the numerator and denominator of the acceptance ratio (without the likelihoods) for one event
 
-        Calculates the acceptance from the Trans-Dimensional Metropolis condition.
+        Uses the Trans-Dimensional Metropolis condition if x and xi are from different models.
 
         Args
-            x: Model values
-            ln_likelihoodx: Model likelihood.
+            x: Model values for the event.
+            xi: Current model values for the event.
+            dc:[None] Boolean flag for double-couple samples (None uses the algorithm value).
+            dc_prior:[0.5] Prior probability for the DC model.
 
         Returns
-            float:acceptance
-        """
-        if isinstance(self.ln_likelihood_xi, np.ndarray):
-            self.ln_likelihood_xi = float(self.ln_likelihood_xi)
-        # Handle jump parameters
-        if self.jump and (self.ln_likelihood_xi > -np.inf):
-            # No jump - may have been accidentally picked up
-            if self.xi['gamma'] == x['gamma'] and self.xi['delta'] == x['delta']:
-                return super(IterativeTransDMetropolisHastingsGaussianTape, self).acceptance(x, ln_likelihoodx)
-            # dc to mt jump
-            elif self.xi['gamma'] == 0.0 and self.xi['delta'] == 0.0:
-                xi = copy.copy(self.xi)
-                xi.pop('gamma')
-                xi.pop('delta')
-                model_prior_ratio = (1-dc_prior)/dc_prior
-                # LnLikelihoods    N.B> self.jump_params(x) called as x
-                # contains gamma delta generated using jump Params
-                return min(1, (self.prior(x)/(self.jump_params(x)*self.prior(xi)))*model_prior_ratio*np.exp(ln_likelihoodx-self.ln_likelihood_xi))
-            elif x['gamma'] == 0.0 and x['delta'] == 0.0:  # mt to dc jump
-                xp = copy.copy(x)
-                xp.pop('gamma')
-                xp.pop('delta')
-                model_prior_ratio = dc_prior/(1-dc_prior)
-                # LnLikelihoods    N.B> self.jump_params(self.xi) called as
-                # self.xi contains gamma delta generated using jump Params
-                return min(1, (self.jump_params(self.xi)*self.prior(xp))/(self.prior(self.xi))*model_prior_ratio*np.exp(ln_likelihoodx-self.ln_likelihood_xi))
-            else:  # no jump may have been accidentally picked up
-                return super(IterativeTransDMetropolisHastingsGaussianTape, self).acceptance(x, ln_likelihoodx)
-        else:
-            return super(IterativeTransDMetropolisHastingsGaussianTape, self).acceptance(x, ln_likelihoodx)
+            float, float: numerator and denominator
+        """
+        if self.is_dc(x) == self.is_dc(xi):
+            return super(IterativeTransDMetropolisHastingsGaussianTape, self)._acceptance_terms(x, xi, dc, dc_prior)
+        x_dc, x_mt = (xi, x) if self.is_dc(xi) else (x, xi)
+        x_dc = copy.copy(x_dc)
+        x_dc.pop('gamma')
+        x_dc.pop('delta')
+        # LnLikelihoods    N.B> self.jump_params(x_mt) called as x_mt
+        # contains gamma delta generated using jump Params
+        p_mt = self.prior(x_mt)*(1-dc_prior)
+        p_dc = self.prior(x_dc)*dc_prior*self.jump_params(x_mt)
+        if self.is_dc(xi):  # dc to mt jump
+            return p_mt, p_dc
+        return p_dc, p_mt  # mt to dc jump
 
     def iterate(self, *args, **kwargs):
         """
@@ -1446,7 +1455,7 @@ class IterativeTransDMetropolisHastingsGaussianTape(IterativeMetropolisHastingsG
             elif isinstance(self.p_dc, list):
                 for i, pdc in enumerate(self.p_dc):
                     logging.info('Event - {} Probability of dc: {:.6f}'.format(i, float(pdc)/float(len(self.pdf_sample.ln_pdf))))
-        if self.jump:
+        if self.jump and self.number_events == 1:
             # check current sample
             self.dc = (self.xi['gamma'] == 0.0 and self.xi['delta'] == 0.0)
         return MTs, end
-- 
2.43.0


From 769de496cbfd5734c0a58b97af2d3990a8107c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:54 +0000
Subject: [PATCH 49/71] fix: recognise model jumps with one balancing parameter
 equal to zero

---
 src/MTfit/algorithms/cmarkov_chain_monte_carlo.pyx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/MTfit/algorithms/cmarkov_chain_monte_carlo.pyx b/src/MTfit/algorithms/cmarkov_chain_monte_carlo.pyx
index 068ed51..975274c 100644
--- a/src/MTfit/algorithms/cmarkov_chain_monte_carlo.pyx
+++ b/src/MTfit/algorithms/cmarkov_chain_monte_carlo.pyx
@@ -273,7 +273,7 @@ cdef int c_acceptance_check(transition_ratio_ptr transition_ratio_fn,prior_ratio
     cdef DTYPE_t acc=0
     for u in range(umax):
         jump=0
-        if ((g0==0.0 and d0==0.0) or (gamma[u]==0.0 and delta[u]==0.0)) and  not gamma[u]==g0 and not delta[u]==d0 and h0==h[u] and s0==sigma[u] and k0==kappa[u]:
+        if ((g0==0.0 and d0==0.0) or (gamma[u]==0.0 and delta[u]==0.0)) and  not (gamma[u]==g0 and delta[u]==d0) and h0==h[u] and s0==sigma[u] and k0==kappa[u]:
             jump=1
         if ln_p[u]==-inf:
             continue
@@ -297,7 +297,7 @@ cdef int c_me_acceptance_check(transition_ratio_ptr transition_ratio_fn,prior_ra
             continue
         for v in range(nevents):
             jump=0
-            if ((g0[v]==0.0 and d0[v]==0.0) or (gamma[u,v]==0.0 and delta[u,v]==0.0)) and  not gamma[u,v]==g0[v] and not delta[u,v]==d0[v] and h0[v]==h[u,v] and s0[v]==sigma[u,v] and k0[v]==kappa[u,v]:#Check for jump
+            if ((g0[v]==0.0 and d0[v]==0.0) or (gamma[u,v]==0.0 and delta[u,v]==0.0)) and  not (gamma[u,v]==g0[v] and delta[u,v]==d0[v]) and h0[v]==h[u,v] and s0[v]==sigma[u,v] and k0[v]==kappa[u,v]:#Check for jump
                 jump=1
             acc*=acceptance(transition_ratio_fn,prior_ratio_fn,jump_params_fn,gamma[u,v], delta[u,v], h[u,v], sigma[u,v], g0[v], g_s[v], d0[v], d_s[v], h0[v], h_s[v], s0[v], s_s[v], 0,0,jump,qg[u,v],qd[u,v],sg[v],sd[v],proposal_normalisation[v],p_dc[v])
             if acc==0:
@@ -841,7 +841,7 @@ def _acceptance_test_fn(dict x, dict x0, dict alpha, DTYPE_t ln_p,DTYPE_t ln_p0,
     else:
         qd=x['delta'];
     cdef int jump=0
-    if ((x0['gamma']==0.0 and x0['delta']==0.0) or (x['gamma']==0.0 and x['delta']==0.0)) and  not x['gamma']==x0['gamma'] and not x['delta']==x0['delta'] and x0['h']==x['h'] and x0['sigma']==x['sigma'] and x0['kappa']==x['kappa']:
+    if ((x0['gamma']==0.0 and x0['delta']==0.0) or (x['gamma']==0.0 and x['delta']==0.0)) and  not (x['gamma']==x0['gamma'] and x['delta']==x0['delta']) and x0['h']==x['h'] and x0['sigma']==x['sigma'] and x0['kappa']==x['kappa']:
         jump=1
     if ln_p==-inf:
         return 0
-- 
2.43.0


From 12e77bcbde2dec11e6ef74e0c3a15a0bbd63a488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:54 +0000
Subject: [PATCH 50/71] fix: include the full moment tensor prior density in
 compiled model jumps with the flat prior

---
 .../algorithms/cmarkov_chain_monte_carlo.pyx  | 20 ++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/MTfit/algorithms/cmarkov_chain_monte_carlo.pyx b/src/MTfit/algorithms/cmarkov_chain_monte_carlo.pyx
index 975274c..23c8d25 100644
--- a/src/MTfit/algorithms/cmarkov_chain_monte_carlo.pyx
+++ b/src/MTfit/algorithms/cmarkov_chain_monte_carlo.pyx
@@ -181,6 +181,20 @@ cdef inline DTYPE_t uniform_prior_ratio(DTYPE_t gamma,DTYPE_t delta,DTYPE_t g0,D
 cdef inline DTYPE_t flat_prior_ratio(DTYPE_t gamma,DTYPE_t delta,DTYPE_t g0,DTYPE_t d0) nogil:
     return 1.0
 
+#flat prior ratio including the density of the MT model for DC/MT jumps
+@cython.boundscheck(False)
+@cython.wraparound(False)
+@cython.nonecheck(False)
+@cython.cdivision(True)
+cdef inline DTYPE_t flat_model_prior_ratio(DTYPE_t gamma,DTYPE_t delta,DTYPE_t g0,DTYPE_t d0) nogil:
+    cdef bint dc=gamma==0.0 and delta==0.0
+    cdef bint dc0=g0==0.0 and d0==0.0
+    if dc and not dc0:
+        return pi*pi/3.0
+    elif dc0 and not dc:
+        return 3.0/(pi*pi)
+    return flat_prior_ratio(gamma,delta,g0,d0)
+
 # Functions for obtaining new Tape parameter samples etc.
 @cython.boundscheck(False)
 @cython.wraparound(False)
@@ -385,7 +399,7 @@ def acceptance_check(list x,dict x0,dict alpha, ln_p, DTYPE_t ln_p0, bool unifor
     if uniform_prior:
         prior_ratio_fn=&uniform_prior_ratio
     else:
-        prior_ratio_fn=&flat_prior_ratio
+        prior_ratio_fn=&flat_model_prior_ratio
     if 'gamma_dc' in alpha.keys():
         sg=<DTYPE_t>alpha['gamma_dc']
     if 'delta_dc' in alpha.keys():
@@ -450,7 +464,7 @@ def me_acceptance_check(list x,list x0,list alpha, DTYPE_t[::1] ln_p,DTYPE_t ln_
     if uniform_prior:
         prior_ratio_fn=&uniform_prior_ratio
     else:
-        prior_ratio_fn=&flat_prior_ratio
+        prior_ratio_fn=&flat_model_prior_ratio
     for v in range(nevents):
         g0[v]=<DTYPE_t>x0[v]['gamma']
         g_s[v]=<DTYPE_t>alpha[v]['gamma']
@@ -827,7 +841,7 @@ def _acceptance_test_fn(dict x, dict x0, dict alpha, DTYPE_t ln_p,DTYPE_t ln_p0,
     if uniform_prior:
         prior_ratio_fn=&uniform_prior_ratio
     else:
-        prior_ratio_fn=&flat_prior_ratio
+        prior_ratio_fn=&flat_model_prior_ratio
     if 'gamma_dc' in alpha.keys():
         sg=<DTYPE_t>alpha['gamma_dc']
     if 'delta_dc' in alpha.keys():
-- 
2.43.0


From 161cfd45cdadf65d778dc2f8058f43ff021fc84f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:51 +0000
Subject: [PATCH 51/71] fix: compiled joint acceptance is the product of the
 event ratios for each try

The per-event ratios were limited to 1 before being multiplied, and the product
was carried over from one try to the next; a zero prior sample was accepted if
the likelihood ratio overflowed.
---
 .../algorithms/cmarkov_chain_monte_carlo.pyx  | 63 ++++++++++++-------
 1 file changed, 39 insertions(+), 24 deletions(-)

diff --git a/src/MTfit/algorithms/cmarkov_chain_monte_carlo.pyx b/src/MTfit/algorithms/cmarkov_chain_monte_carlo.pyx
index 23c8d25..3eea8c5 100644
--- a/src/MTfit/algorithms/cmarkov_chain_monte_carlo.pyx
+++ b/src/MTfit/algorithms/cmarkov_chain_monte_carlo.pyx
@@ -76,17 +76,13 @@ IF UNAME_SYSNAME == "Windows":
     @cython.cdivision(True)
     cdef DTYPE_t acceptance(transition_ratio_ptr transition_ratio_fn,prior_ratio_ptr prior_ratio_fn,jump_params_ptr jump_params_fn,DTYPE_t gamma,DTYPE_t delta,DTYPE_t h,DTYPE_t sigma,DTYPE_t g0,DTYPE_t g_s,DTYPE_t d0,DTYPE_t d_s,DTYPE_t h0,DTYPE_t h_s,DTYPE_t s0,DTYPE_t s_s,DTYPE_t ln_p,DTYPE_t ln_p0,int jump,DTYPE_t qg,DTYPE_t qd,DTYPE_t sg,DTYPE_t sd,DTYPE_t proposal_normalisation,DTYPE_t p_dc) :
         cdef DTYPE_t acc
-        if jump>0:
-            if gamma==0.0 and delta==0.0:
-                #MT to DC
-                model_prior_ratio=p_dc/(1-p_dc)
-                acc=exp(ln_p-ln_p0)*prior_ratio_fn(gamma,delta,g0,d0)*jump_params_fn(qg,qd,sg,sd, proposal_normalisation)*model_prior_ratio
-            elif g0==0.0 and d0==0.0 :
-                #DC to MT
-                model_prior_ratio=(1-p_dc)/p_dc
-                acc=exp(ln_p-ln_p0)*prior_ratio_fn(gamma,delta,g0,d0)/jump_params_fn(qg,qd,sg,sd,proposal_normalisation)*model_prior_ratio            
-        else:   
-            acc=exp(ln_p-ln_p0)*transition_ratio_fn(gamma,delta,h,sigma,g0,g_s,d0,d_s,h0,h_s,s0,s_s)*prior_ratio_fn(gamma,delta,g0,d0)
+        if ln_p0==-inf:
+            return 1
+        acc=acceptance_ratio(transition_ratio_fn,prior_ratio_fn,jump_params_fn,gamma,delta,h,sigma,g0,g_s,d0,d_s,h0,h_s,s0,s_s,jump,qg,qd,sg,sd,proposal_normalisation,p_dc)
+        #zero probability sample, whatever the likelihood ratio
+        if acc==0.0:
+            return 0
+        acc*=exp(ln_p-ln_p0)
         if acc<1:
             return acc
         return 1
@@ -98,14 +94,29 @@ ELSE:
     @cython.nonecheck(False)
     @cython.cdivision(True)
     cdef DTYPE_t acceptance(transition_ratio_ptr transition_ratio_fn,prior_ratio_ptr prior_ratio_fn,jump_params_ptr jump_params_fn,DTYPE_t gamma,DTYPE_t delta,DTYPE_t h,DTYPE_t sigma,DTYPE_t g0,DTYPE_t g_s,DTYPE_t d0,DTYPE_t d_s,DTYPE_t h0,DTYPE_t h_s,DTYPE_t s0,DTYPE_t s_s,DTYPE_t ln_p,DTYPE_t ln_p0,int jump,DTYPE_t qg,DTYPE_t qd,DTYPE_t sg,DTYPE_t sd,DTYPE_t proposal_normalisation,DTYPE_t p_dc) :
-        if jump>0:
-            if gamma==0.0 and delta==0.0:
-                model_prior_ratio=p_dc/(1-p_dc)
-                return fmin(1,exp(ln_p-ln_p0)*prior_ratio_fn(gamma,delta,g0,d0)*jump_params_fn(qg,qd,sg,sd, proposal_normalisation)*model_prior_ratio)
-            elif g0==0.0 and d0==0.0 :
-                model_prior_ratio=(1-p_dc)/p_dc
-                return fmin(1,exp(ln_p-ln_p0)*prior_ratio_fn(gamma,delta,g0,d0)/jump_params_fn(qg,qd,sg,sd,proposal_normalisation)*model_prior_ratio)
-        return fmin(1,exp(ln_p-ln_p0)*transition_ratio_fn(gamma,delta,h,sigma,g0,g_s,d0,d_s,h0,h_s,s0,s_s)*prior_ratio_fn(gamma,delta,g0,d0))
+        cdef DTYPE_t acc
+        if ln_p0==-inf:
+            return 1
+        acc=acceptance_ratio(transition_ratio_fn,prior_ratio_fn,jump_params_fn,gamma,delta,h,sigma,g0,g_s,d0,d_s,h0,h_s,s0,s_s,jump,qg,qd,sg,sd,proposal_normalisation,p_dc)
+        #zero probability sample, whatever the likelihood ratio
+        if acc==0.0:
+            return 0
+        return fmin(1,exp(ln_p-ln_p0)*acc)
+
+#Ratio for a single event without the likelihoods (not limited to 1, as the joint ratio is the product over the events)
+@cython.boundscheck(False)
+@cython.wraparound(False)
+@cython.nonecheck(False)
+@cython.cdivision(True)
+cdef DTYPE_t acceptance_ratio(transition_ratio_ptr transition_ratio_fn,prior_ratio_ptr prior_ratio_fn,jump_params_ptr jump_params_fn,DTYPE_t gamma,DTYPE_t delta,DTYPE_t h,DTYPE_t sigma,DTYPE_t g0,DTYPE_t g_s,DTYPE_t d0,DTYPE_t d_s,DTYPE_t h0,DTYPE_t h_s,DTYPE_t s0,DTYPE_t s_s,int jump,DTYPE_t qg,DTYPE_t qd,DTYPE_t sg,DTYPE_t sd,DTYPE_t proposal_normalisation,DTYPE_t p_dc):
+    if jump>0:
+        if gamma==0.0 and delta==0.0:
+            #MT to DC
+            return prior_ratio_fn(gamma,delta,g0,d0)*jump_params_fn(qg,qd,sg,sd,proposal_normalisation)*p_dc/(1-p_dc)
+        elif g0==0.0 and d0==0.0:
+            #DC to MT
+            return prior_ratio_fn(gamma,delta,g0,d0)/jump_params_fn(qg,qd,sg,sd,proposal_normalisation)*(1-p_dc)/p_dc
+    return transition_ratio_fn(gamma,delta,h,sigma,g0,g_s,d0,d_s,h0,h_s,s0,s_s)*prior_ratio_fn(gamma,delta,g0,d0)
 
 #Gaussian PDF
 @cython.boundscheck(False)
@@ -309,16 +320,20 @@ cdef int c_me_acceptance_check(transition_ratio_ptr transition_ratio_fn,prior_ra
     for u in range(umax):
         if ln_p[u]==-inf:
             continue
+        acc=1
         for v in range(nevents):
             jump=0
             if ((g0[v]==0.0 and d0[v]==0.0) or (gamma[u,v]==0.0 and delta[u,v]==0.0)) and  not (gamma[u,v]==g0[v] and delta[u,v]==d0[v]) and h0[v]==h[u,v] and s0[v]==sigma[u,v] and k0[v]==kappa[u,v]:#Check for jump
                 jump=1
-            acc*=acceptance(transition_ratio_fn,prior_ratio_fn,jump_params_fn,gamma[u,v], delta[u,v], h[u,v], sigma[u,v], g0[v], g_s[v], d0[v], d_s[v], h0[v], h_s[v], s0[v], s_s[v], 0,0,jump,qg[u,v],qd[u,v],sg[v],sd[v],proposal_normalisation[v],p_dc[v])
-            if acc==0:
-                break
-        if v<nevents-1 or acc==0.0:#No acceptance, so no point in continuing
+            acc*=acceptance_ratio(transition_ratio_fn,prior_ratio_fn,jump_params_fn,gamma[u,v], delta[u,v], h[u,v], sigma[u,v], g0[v], g_s[v], d0[v], d_s[v], h0[v], h_s[v], s0[v], s_s[v], jump,qg[u,v],qd[u,v],sg[v],sd[v],proposal_normalisation[v],p_dc[v])
+        if ln_p0==-inf:
+            acc=1
+        elif acc==0.0:#No acceptance, so no point in continuing
             continue
-        acc*=exp(ln_p[u]-ln_p0)
+        else:
+            acc*=exp(ln_p[u]-ln_p0)
+        if not acc<1:
+            acc=1
         if acc>np.random.rand():
             return <int>u
     return -1
-- 
2.43.0


From bb2efeb719e5cbf80795460eed32ee1cae35bfdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:24 +0000
Subject: [PATCH 52/71] fix: keep the balance vector parameters when adapting
 the proposal widths

---
 src/MTfit/algorithms/markov_chain_monte_carlo.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/MTfit/algorithms/markov_chain_monte_carlo.py b/src/MTfit/algorithms/markov_chain_monte_carlo.py
index 3d7adb0..1a034c5 100644
--- a/src/MTfit/algorithms/markov_chain_monte_carlo.py
+++ b/src/MTfit/algorithms/markov_chain_monte_carlo.py
@@ -448,6 +448,8 @@ class MarginalisedMarkovChainMonteCarlo(BaseAlgorithm):
         if isinstance(alpha, dict):
             newAlpha = {}
             for key in alpha.keys():
+                # the balance vector parameters are not adjusted
+                newAlpha[key] = alpha[key]
                 if key not in ['gamma_dc', 'delta_dc', 'proposal_normalisation']:
                     newAlpha[key] = alpha[key]*ratio
                     if newAlpha[key] > self.max_alpha[key]:
-- 
2.43.0


From e4aacab61554ac222c249db09136ac055ee90e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:29 +0000
Subject: [PATCH 53/71] fix: adapted proposal widths stay positive

---
 .../algorithms/markov_chain_monte_carlo.py    | 28 +++++++++----------
 1 file changed, 13 insertions(+), 15 deletions(-)

diff --git a/src/MTfit/algorithms/markov_chain_monte_carlo.py b/src/MTfit/algorithms/markov_chain_monte_carlo.py
index 1a034c5..311f314 100644
--- a/src/MTfit/algorithms/markov_chain_monte_carlo.py
+++ b/src/MTfit/algorithms/markov_chain_monte_carlo.py
@@ -249,6 +249,8 @@ class MarginalisedMarkovChainMonteCarlo(BaseAlgorithm):
 
     # Returns zero for testing - should be set in __init__
     default_sampling_priors = {'uniform_prior': zero_prior}
+    # Smallest value of the transition PDF parameters when adjusting them (relative to max_alpha)
+    _min_alpha_ratio = np.finfo(float).eps
 
     def __init__(self, *args, **kwargs):
         """
@@ -381,25 +383,21 @@ class MarginalisedMarkovChainMonteCarlo(BaseAlgorithm):
         if rate >= 1:
             # revert to old alpha and change ratio
             try:
-                if type(self.alpha) == dict:
-                    self.alpha = self._old_alpha.copy()
-                else:  # list
-                    self.alpha = self._old_alpha[:]
+                self.alpha = copy.copy(self._old_alpha)
                 ratio = np.sqrt(self._old_ratio)
                 self._old_ratio = ratio
-            except Exception:
-                ratio = 0
+            except AttributeError:
+                # no previous values, so larger steps
+                ratio = 1/self.max_acceptance_rate
         elif not rate:
             # revert to old alpha and change ratio
             try:
-                if type(self.alpha) == dict:
-                    self.alpha = self._old_alpha.copy()
-                else:  # list
-                    self.alpha = self._old_alpha[:]
+                self.alpha = copy.copy(self._old_alpha)
                 ratio = self._old_ratio*self._old_ratio
                 self._old_ratio = ratio
-            except Exception:
-                ratio = 0
+            except AttributeError:
+                # no previous values, so smallest ratio allowed
+                ratio = 0.1
         return ratio
 
     def output(self, *args, **kwargs):
@@ -443,7 +441,7 @@ class MarginalisedMarkovChainMonteCarlo(BaseAlgorithm):
     def _modify_alpha(self, alpha, ratio):
         """
         Modifies the transition PDF parameters based on the ratio argument
-        The alpha argument is increased up to some max_alpha value
+        The alpha argument is increased up to some max_alpha value, and is not decreased below the resolution of that value
         """
         if isinstance(alpha, dict):
             newAlpha = {}
@@ -452,7 +450,7 @@ class MarginalisedMarkovChainMonteCarlo(BaseAlgorithm):
                 newAlpha[key] = alpha[key]
                 if key not in ['gamma_dc', 'delta_dc', 'proposal_normalisation']:
                     newAlpha[key] = alpha[key]*ratio
-                    if newAlpha[key] > self.max_alpha[key]:
+                    if newAlpha[key] > self.max_alpha[key] or newAlpha[key] < self._min_alpha_ratio*self.max_alpha[key]:
                         newAlpha[key] = alpha[key]
         elif isinstance(alpha, list):
             newAlpha = []
@@ -460,7 +458,7 @@ class MarginalisedMarkovChainMonteCarlo(BaseAlgorithm):
                 newAlpha.append(self._modify_alpha(alph, ratio))
         else:
             newAlpha = alpha*ratio
-            if newAlpha > self.max_alpha:
+            if newAlpha > self.max_alpha or newAlpha < self._min_alpha_ratio*self.max_alpha:
                 newAlpha = alpha
         return newAlpha
 
-- 
2.43.0


From f39b56f2be0a24525d822fcdf79a3173891ce7d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:29 +0000
Subject: [PATCH 54/71] fix: proposed strikes are wrapped into [0, 2 pi)

---
 src/MTfit/algorithms/cmarkov_chain_monte_carlo.pyx | 6 ++++--
 src/MTfit/algorithms/markov_chain_monte_carlo.py   | 3 +++
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/MTfit/algorithms/cmarkov_chain_monte_carlo.pyx b/src/MTfit/algorithms/cmarkov_chain_monte_carlo.pyx
index 3eea8c5..67b6e9e 100644
--- a/src/MTfit/algorithms/cmarkov_chain_monte_carlo.pyx
+++ b/src/MTfit/algorithms/cmarkov_chain_monte_carlo.pyx
@@ -235,10 +235,12 @@ cdef DTYPE_t new_delta(DTYPE_t d0, DTYPE_t d_s):
 @cython.cdivision(True)
 cdef DTYPE_t new_kappa(DTYPE_t k0, DTYPE_t k_s):
     cdef DTYPE_t kn=k_s*np.random.randn(1)+k0
-    if fabs(kn)<PI2:
-        kn=fmod(kn,PI2)
+    kn=fmod(kn,PI2)
     if kn<0.0:
         kn+=PI2
+    #rounding can give 2*pi for small negative values
+    if kn>=PI2:
+        kn=0.0
     return kn
 
 @cython.boundscheck(False)
diff --git a/src/MTfit/algorithms/markov_chain_monte_carlo.py b/src/MTfit/algorithms/markov_chain_monte_carlo.py
index 311f314..a3335c0 100644
--- a/src/MTfit/algorithms/markov_chain_monte_carlo.py
+++ b/src/MTfit/algorithms/markov_chain_monte_carlo.py
@@ -1069,6 +1069,9 @@ class MarginalisedMetropolisHastingsGaussianTape(MarginalisedMetropolisHastings)
             x['delta'] = d
         # since strike 2*pi=strike 0 wrap round
         x['kappa'] = np.mod(self.alpha['kappa']*np.random.randn(1)+self.xi['kappa'], 2*np.pi)
+        # rounding can give 2*pi for small negative values
+        if x['kappa'] >= 2*np.pi:
+            x['kappa'] = 0*x['kappa']
         h = self.alpha['h']*np.random.randn(1)+self.xi['h']
         while h > 1 or h < 0:
             # wrap h round and change strike by pi
-- 
2.43.0


From 7544d16faccfe9cf91a56f2005288bf7de8e7ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:54 +0000
Subject: [PATCH 55/71] fix: double-couple constrained chains with grid
 initialisation start from a double-couple

---
 src/MTfit/algorithms/markov_chain_monte_carlo.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/MTfit/algorithms/markov_chain_monte_carlo.py b/src/MTfit/algorithms/markov_chain_monte_carlo.py
index a3335c0..4f5a632 100644
--- a/src/MTfit/algorithms/markov_chain_monte_carlo.py
+++ b/src/MTfit/algorithms/markov_chain_monte_carlo.py
@@ -281,7 +281,7 @@ class MarginalisedMarkovChainMonteCarlo(BaseAlgorithm):
         # Handle initial sampling - either random sampling or single
         # sampling/initial sample.
         if kwargs.get('initial_sample', '').lower() == 'grid':
-            self._initialiser = IterationSample(number_samples=kwargs.get('number_samples', 10000))
+            self._initialiser = IterationSample(number_samples=kwargs.get('number_samples', 10000), dc=self.dc)
             self._initialising = False
             self.x0 = None
             self._number_initialisation_samples = 0
@@ -677,6 +677,12 @@ class MarginalisedMarkovChainMonteCarlo(BaseAlgorithm):
                     #
                     # Convert initial sample
                     self.x0 = self.convert_sample(self._init_max_mt)
+                    # Double-couple constrained - remove the rounding errors from the conversion
+                    if getattr(self._initialiser, 'dc', False):
+                        for x0 in self.x0 if isinstance(self.x0, list) else [self.x0]:
+                            if isinstance(x0, dict):
+                                x0['gamma'] = 0.
+                                x0['delta'] = 0.
                     # Initialise samples
                     self.xi = self.x0
                     self.xi_1 = self.x0
-- 
2.43.0


From 85676c5b4e6b7f09646b950ee7a788ae5c9b974e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:54 +0000
Subject: [PATCH 56/71] fix: record every rejected proposal of a multiple-try
 batch

---
 src/MTfit/algorithms/markov_chain_monte_carlo.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/MTfit/algorithms/markov_chain_monte_carlo.py b/src/MTfit/algorithms/markov_chain_monte_carlo.py
index 4f5a632..b12c432 100644
--- a/src/MTfit/algorithms/markov_chain_monte_carlo.py
+++ b/src/MTfit/algorithms/markov_chain_monte_carlo.py
@@ -724,7 +724,8 @@ class MarginalisedMarkovChainMonteCarlo(BaseAlgorithm):
                 # returns dict not array/list of arrays
                 if (self.number_events == 1 and len(xi_1)) or (self.number_events > 1 and all([len(u) for u in xi_1]) and len(xi_1)):
                     # Handling for multiple tries (agnostic)
-                    for i in range(tried-1):
+                    # (tried is the index of the accepted sample)
+                    for i in range(tried):
                         # Add old samples for tried but not accepted samples
                         self._add_old(i)
                     self._add_new(xi_1, ln_pi_1, scale_factor_i)
-- 
2.43.0


From 1117d57099e7699e6348606b631192aac1888ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:54 +0000
Subject: [PATCH 57/71] fix: the first chain sample is held and states of zero
 likelihood are not recorded

---
 .../algorithms/markov_chain_monte_carlo.py    | 47 ++++++++++---------
 1 file changed, 26 insertions(+), 21 deletions(-)

diff --git a/src/MTfit/algorithms/markov_chain_monte_carlo.py b/src/MTfit/algorithms/markov_chain_monte_carlo.py
index b12c432..1a7ea56 100644
--- a/src/MTfit/algorithms/markov_chain_monte_carlo.py
+++ b/src/MTfit/algorithms/markov_chain_monte_carlo.py
@@ -574,11 +574,13 @@ class MarginalisedMarkovChainMonteCarlo(BaseAlgorithm):
         self.xi = xi_1  # Set new sample to old sample
         # set old ln_likelihood to new ln_likelihood
         self.ln_likelihood_xi = float(ln_pi_1)
+        # The chain starts once the learning is complete and there is a non-zero probability sample
+        record = not self.learning_check() and self.ln_likelihood_xi > -np.inf
         # MULTIPLE_EVENTS
         if self.number_events > 1:
             for i, xi in enumerate(self.xi):
                 if 'gamma' in xi and xi['gamma'] == 0 and xi['delta'] == 0:
-                    if not self.learning_check():
+                    if record:
                         self.p_dc[i] += 1
                     self.dc[i] = True
                 else:
@@ -586,15 +588,34 @@ class MarginalisedMarkovChainMonteCarlo(BaseAlgorithm):
         # TODO handle warning about element wise comparison - sometimes output is a single element array
         # need to tidy output/array passing
         elif 'gamma' in self.xi and self.xi['gamma'] == 0 and self.xi['delta'] == 0:
-            if not self.learning_check():
+            if record:
                 self.p_dc += 1
             self.dc = True
         else:
             self.dc = False
         self.scale_factor_i = scale_factori_1
-        if not self.learning_check():
+        if record:
             self.pdf_sample.append(self.convert_sample(xi_1), ln_pi_1, 1, scale_factori_1)
             self._tried += 1
+            if self._tried == 0:  # First sample
+                self._start_chain()
+
+    def _start_chain(self):
+        """Complete the learning and hold the first sample of the saved chain"""
+        # Check and modify transition PDF parameters if within 25%
+        # of the acceptance_rate_window
+        if len(self._learning_accepted[-self.acceptance_rate_window:]) > 0.75*self.acceptance_rate_window:
+            self._learning_accepted = self._learning_accepted[
+                -self.acceptance_rate_window:]
+            self._modify_acceptance_rate()
+            logger.info('Learning complete - this learning iteration: {} accepted and {} tried - acceptance rate: {:.6f}'.format(sum(self._learning_accepted), len(self._learning_accepted), self.acceptance_rate()))
+        # Print out initialisation completion
+        t1 = time.time()
+        logger.info("\nLearning elapsed time: {}".format(t1-self.t0))
+        logger.info("\n\nStarting main inversion\n---------")
+        self.t0 = t1
+        # Add sample (added to saved chain)
+        self._add_new(self.xi, self.ln_likelihood_xi, self.scale_factor_i)
 
     def iterate(self, result):
         """
@@ -746,24 +767,8 @@ class MarginalisedMarkovChainMonteCarlo(BaseAlgorithm):
                     self.tx = time.time()
                 self._learning_accepted = []
             # Not in learning
-            if not self.learning_check():
-                if self._tried == 0:  # First sample
-                    # Check and modify transition PDF parameters if within 25%
-                    # of the acceptance_rate_window
-                    if len(self._learning_accepted[-self.acceptance_rate_window:]) > 0.75*self.acceptance_rate_window:
-                        self._learning_accepted = self._learning_accepted[
-                            -self.acceptance_rate_window:]
-                        self._modify_acceptance_rate()
-                        logger.info('Learning complete - this learning iteration: {} accepted and {} tried - acceptance rate: {:.6f}'.format(sum(self._learning_accepted), len(self._learning_accepted), self.acceptance_rate()))
-                    # Print out initialisation completion
-                    t1 = time.time()
-                    logger.info("\nLearning elapsed time: {}".format(t1-self.t0))
-                    logger.info("\n\nStarting main inversion\n---------")
-                    self.t0 = t1
-                    # Add sample (added to saved chain)
-                    self._add_new(self.xi, self.ln_likelihood_xi, self.scale_factor_i)
-                elif not self._tried % 100:
-                    logger.info('{} samples tried: {} samples accepted'.format(self._tried, self._accepted))
+            if not self.learning_check() and self._tried > 0 and not self._tried % 100:
+                logger.info('{} samples tried: {} samples accepted'.format(self._tried, self._accepted))
             gc.collect()
             return self.new_sample(), False
         # Error handling
-- 
2.43.0


From 2f1e206ef9b1f24d20fbeedd16b60f32dba58fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:54 +0000
Subject: [PATCH 58/71] fix: a random initial sample is recorded with its own
 likelihood

---
 src/MTfit/algorithms/markov_chain_monte_carlo.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/MTfit/algorithms/markov_chain_monte_carlo.py b/src/MTfit/algorithms/markov_chain_monte_carlo.py
index 1a7ea56..ee36496 100644
--- a/src/MTfit/algorithms/markov_chain_monte_carlo.py
+++ b/src/MTfit/algorithms/markov_chain_monte_carlo.py
@@ -803,7 +803,8 @@ class MarginalisedMarkovChainMonteCarlo(BaseAlgorithm):
         self.xi = self.x0
         self.xi_1 = self.x0
         self._tried = -1  # As this will always be accepted as initial sample
-        self.ln_likelihood_xi = 0
+        # Set ln_likelihood so accepted (with its own likelihood)
+        self.ln_likelihood_xi = -np.inf
         self.scale_factor_i = False
         gc.collect()
         return self.convert_sample(self.xi_1), False
-- 
2.43.0


From c17790be1690ce4b287af399d9bb99938236081b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:54 +0000
Subject: [PATCH 59/71] fix: transition density from a double-couple reached by
 a dimension jump

---
 src/MTfit/algorithms/markov_chain_monte_carlo.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/MTfit/algorithms/markov_chain_monte_carlo.py b/src/MTfit/algorithms/markov_chain_monte_carlo.py
index ee36496..b9a467c 100644
--- a/src/MTfit/algorithms/markov_chain_monte_carlo.py
+++ b/src/MTfit/algorithms/markov_chain_monte_carlo.py
@@ -995,7 +995,8 @@ class MarginalisedMetropolisHastingsGaussianTape(MarginalisedMetropolisHastings)
         """
         # Gaussian makes transition PDF symmetrical but some parameters can be
         # truncated parameters (gamma,delta,h,sigma)
-        if len(x) == len(x1) and len(x) > 0:
+        # (the double-couple from a dimension jump also has the balance vector parameters)
+        if len([u for u in x if u not in ('g0', 'd0')]) == len([u for u in x1 if u not in ('g0', 'd0')]) and len(x) > 0:
             if dc is None:
                 dc = self.dc
             if basic_cdc is None:
-- 
2.43.0


From 1606b3066c17c62e837c888a8faff68a08877162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:54 +0000
Subject: [PATCH 60/71] fix: report the double-couple model probability as the
 fraction of the chain

---
 .../algorithms/markov_chain_monte_carlo.py    | 23 ++++++++++++++-----
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/MTfit/algorithms/markov_chain_monte_carlo.py b/src/MTfit/algorithms/markov_chain_monte_carlo.py
index b9a467c..345523f 100644
--- a/src/MTfit/algorithms/markov_chain_monte_carlo.py
+++ b/src/MTfit/algorithms/markov_chain_monte_carlo.py
@@ -1467,16 +1467,27 @@ class IterativeTransDMetropolisHastingsGaussianTape(IterativeMetropolisHastingsG
         MTs, end = super(IterativeTransDMetropolisHastingsGaussianTape, self).iterate(*args, **kwargs)
         # Print pDC output
         if end:
-            if isinstance(self.p_dc, float):
-                logging.info('Probability of dc: {:.6f}'.format(float(self.p_dc)/float(len(self.pdf_sample.ln_pdf))))
-            elif isinstance(self.p_dc, list):
-                for i, pdc in enumerate(self.p_dc):
-                    logging.info('Event - {} Probability of dc: {:.6f}'.format(i, float(pdc)/float(len(self.pdf_sample.ln_pdf))))
+            p_dc = self.dc_fraction()
+            if isinstance(p_dc, list):
+                for i, pdc in enumerate(p_dc):
+                    logging.info('Event - {} Probability of dc: {:.6f}'.format(i, pdc))
+            else:
+                logging.info('Probability of dc: {:.6f}'.format(p_dc))
         if self.jump and self.number_events == 1:
             # check current sample
             self.dc = (self.xi['gamma'] == 0.0 and self.xi['delta'] == 0.0)
         return MTs, end
 
+    def dc_fraction(self):
+        """
+        Returns the share of the chain entries that are double-couple (list for multiple events)
+        """
+        # number of chain entries
+        n = max(len(self.pdf_sample), 1)
+        if isinstance(self.p_dc, list):
+            return [float(p_dc)/n for p_dc in self.p_dc]
+        return float(self.p_dc)/n
+
     def output(self, *args, **kwargs):
         """
         Return output dict
@@ -1484,7 +1495,7 @@ class IterativeTransDMetropolisHastingsGaussianTape(IterativeMetropolisHastingsG
         Return output dict including pDC value
         """
         output, output_string = super(IterativeTransDMetropolisHastingsGaussianTape, self).output(*args, **kwargs)
-        output['pDC'] = self.p_dc
+        output['pDC'] = self.dc_fraction()
         return output, output_string
 
 
-- 
2.43.0


From b55fd2d45042970d8785ef989bf27f9883387846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:54 +0000
Subject: [PATCH 61/71] fix: multiple-try acceptance of samples with ln
 likelihood 0 and of all tries

---
 src/MTfit/algorithms/markov_chain_monte_carlo.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/MTfit/algorithms/markov_chain_monte_carlo.py b/src/MTfit/algorithms/markov_chain_monte_carlo.py
index 345523f..9b868b4 100644
--- a/src/MTfit/algorithms/markov_chain_monte_carlo.py
+++ b/src/MTfit/algorithms/markov_chain_monte_carlo.py
@@ -1657,7 +1657,8 @@ class IterativeMultipleTryMetropolisHastingsGaussianTape(IterativeMetropolisHast
         # Non-zero samples
         if not isinstance(ln_pi_1, bool) and np.prod(ln_pi_1.shape) > 1:
             if not isinstance(ln_pi_1, np.ndarray):
-                ln_pi_1 = ln_pi_1._ln_pdf.transpose()
+                ln_pi_1 = ln_pi_1._ln_pdf
+            ln_pi_1 = np.asarray(ln_pi_1).flatten()
             # Loop over samples
             for u in range(ln_pi_1.shape[0]):
                 if self.number_events > 1:
@@ -1674,9 +1675,10 @@ class IterativeMultipleTryMetropolisHastingsGaussianTape(IterativeMetropolisHast
                     else:
                         _xi_1 = xi_1
                 # Get acceptance result
-                oxi_1, oln_pi_1, a, b = super(IterativeMultipleTryMetropolisHastingsGaussianTape, self)._acceptance_check(_xi_1, np.asarray(ln_pi_1).flatten()[u],
+                oxi_1, oln_pi_1, a, b = super(IterativeMultipleTryMetropolisHastingsGaussianTape, self)._acceptance_check(_xi_1, ln_pi_1[u],
                                                                                                                           False, dc_prior=getattr(self, 'dc_prior', False))
-                if oln_pi_1:
+                # ln_pi_1 is False if the sample is rejected (an accepted value can be 0.)
+                if not isinstance(oln_pi_1, bool):
                     # If accepted sample, try to get the sacale_factor
                     if not isinstance(scale_factori_1, bool):
                         oscale_factori_1 = scale_factori_1[u]
-- 
2.43.0


From f70dce7e36bad14aa575ca4661c00f0ca8435216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:54 +0000
Subject: [PATCH 62/71] fix: pass the double-couple constraint to the Markov
 chain

---
 src/MTfit/inversion.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/MTfit/inversion.py b/src/MTfit/inversion.py
index 8e0dcee..145cf3f 100644
--- a/src/MTfit/inversion.py
+++ b/src/MTfit/inversion.py
@@ -1656,6 +1656,8 @@ class Inversion(object):
             self.algorithm = extension_algorithms[self._algorithm_name.lower()](**kwargs)
         # McMC algorithm
         elif 'mcmc' in self._algorithm_name.lower() or self._algorithm_name.lower() in get_extensions('MTfit.directed_algorithms')[0]:
+            kwargs['dc'] = self.dc
+            self.kwargs['dc'] = self.dc
             if 'transd' in self._algorithm_name.lower():
                 kwargs['trans_dimensional'] = True
                 self.kwargs['trans_dimensional'] = True
-- 
2.43.0


From 19b3dc7249e58725ae042ddc5ef002460fca22e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:17 +0000
Subject: [PATCH 63/71] fix: relative amplitude ratios use the absolute
 observed ratio in Python as in Cython

---
 src/MTfit/probability/probability.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MTfit/probability/probability.py b/src/MTfit/probability/probability.py
index 0a9c9e2..26ce7aa 100644
--- a/src/MTfit/probability/probability.py
+++ b/src/MTfit/probability/probability.py
@@ -487,7 +487,7 @@ def relative_amplitude_ratio_ln_pdf(x_1, x_2, mt_1, mt_2, a_1, a_2, percentage_e
     if not completed:
         # Calculate probability using Python code
         # Calculate the ratio
-        ratio = np.divide(x_1, x_2)
+        ratio = np.abs(np.divide(x_1, x_2))
         # Calculate means for numerator and denominator
         mu_x = np.tensordot(a_1, mt_1, 1)
         mu_y = np.tensordot(a_2, mt_2, 1)
-- 
2.43.0


From 943316a6bc9935b0b60f872827196ef19fc92921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:17 +0000
Subject: [PATCH 64/71] fix: orient the moment tensors before the compiled
 polarity likelihoods read them

---
 src/MTfit/probability/probability.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/MTfit/probability/probability.py b/src/MTfit/probability/probability.py
index 26ce7aa..45b90db 100644
--- a/src/MTfit/probability/probability.py
+++ b/src/MTfit/probability/probability.py
@@ -104,6 +104,9 @@ def polarity_ln_pdf(a, mt, sigma, incorrect_polarity_probability=0.0, _use_c=Non
     # For fractional uncertainties that are zero make them really small
     # to avoid zero divison errors
     sigma[sigma == 0] = _SMALL_NUMBER
+    # Check moment tensor shape is correct
+    if mt.shape[0] != a.shape[-1]:
+        mt = mt.transpose()
     completed = False
     if cprobability and (_use_c is None or _use_c):
         try:
@@ -143,9 +146,6 @@ def polarity_ln_pdf(a, mt, sigma, incorrect_polarity_probability=0.0, _use_c=Non
     else:
         logger.info(C_EXTENSION_FALLBACK_LOG_MSG)
     if not completed:
-        # Check moment tensor shape is correct
-        if mt.shape[0] != a.shape[-1]:
-            mt = mt.transpose()
         # Calcuate Theoretical Amplitude for moment tensors
         X = np.tensordot(a, mt, 1)
         # Expand errors and incorrect_polarity_probability dimensions to be
@@ -223,6 +223,9 @@ def polarity_probability_ln_pdf(a, mt, positive_probability, negative_probabilit
         raise TypeError('Variable: a is expected to be a three-dimensional numpy array')
     if not isinstance(mt, np.ndarray) or mt.ndim != 2:
         raise TypeError('Variable: mt is expected to be a two-dimensional numpy array of moment tensor six vectors')
+    # Check moment tensor shape is correct
+    if mt.shape[0] != a.shape[-1]:
+        mt = mt.transpose()
     completed = False
     if cprobability and (_use_c is None or _use_c):
         try:
@@ -261,8 +264,6 @@ def polarity_probability_ln_pdf(a, mt, positive_probability, negative_probabilit
     else:
         logger.info(C_EXTENSION_FALLBACK_LOG_MSG)
     if not completed:
-        if mt.shape[0] != a.shape[-1]:
-            mt = mt.transpose()
         # Calculate theoretical amplitude
         X = np.tensordot(a, mt, 1)
         # Expand errors and incorrect_polarity_probability dimensions to be
-- 
2.43.0


From bc5b1b76142a183e2a212b374c4d8745f8345993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:17 +0000
Subject: [PATCH 65/71] fix: give the compiled TNP axes the same sign
 convention as the Python ones

---
 src/MTfit/convert/cmoment_tensor_conversion.pyx | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/MTfit/convert/cmoment_tensor_conversion.pyx b/src/MTfit/convert/cmoment_tensor_conversion.pyx
index e58f483..a25cf32 100644
--- a/src/MTfit/convert/cmoment_tensor_conversion.pyx
+++ b/src/MTfit/convert/cmoment_tensor_conversion.pyx
@@ -288,6 +288,19 @@ def MT_output_convert(DTYPE_t[:,:] MTs):
 @cython.wraparound(False)
 @cython.nonecheck(False)
 @cython.cdivision(True)
+cdef inline void cfix_sign(DTYPE_t[::1] axis) nogil:
+    # Fix the arbitrary sign of the axis so that its largest component is positive
+    cdef Py_ssize_t i,imax=0
+    for i in range(1,3):
+        if fabs(axis[i])>fabs(axis[imax]):
+            imax=i
+    if axis[imax]<0:
+        for i in range(3):
+            axis[i]=-axis[i]
+@cython.boundscheck(False)
+@cython.wraparound(False)
+@cython.nonecheck(False)
+@cython.cdivision(True)
 cdef cMT6_TNPE(DTYPE_t[:] MT):
     cdef DTYPE_t [:,::1] MT33=np.empty((3,3))
     cdef DTYPE_t [::1] E=np.empty((3,))
@@ -330,6 +343,9 @@ cdef cMT6_TNPE(DTYPE_t[:] MT):
     P[0]=L[0,mini]
     P[1]=L[1,mini]
     P[2]=L[2,mini]
+    cfix_sign(T)
+    cfix_sign(N)
+    cfix_sign(P)
     return T,N,P,E
 @cython.boundscheck(False)
 @cython.wraparound(False)
-- 
2.43.0


From 57e50574d6e85f4ae337d73c4e8c34a9fff30278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:17 +0000
Subject: [PATCH 66/71] fix: keep zero-weight scatangle samples in the compiled
 binning as Python does

---
 src/MTfit/extensions/cscatangle.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MTfit/extensions/cscatangle.pyx b/src/MTfit/extensions/cscatangle.pyx
index fd9b901..15607b6 100644
--- a/src/MTfit/extensions/cscatangle.pyx
+++ b/src/MTfit/extensions/cscatangle.pyx
@@ -84,7 +84,7 @@ cpdef bin_scatangle(sample_records,multipliers,bin_size):
     # print multipliers,bin_size,angles
     multipliers=np.asarray(get_multipliers(angles,bin_size,multipliers)).flatten()
     for i,record in enumerate(sample_records):
-        if multipliers[i]>0:
+        if multipliers[i]>-1:
             new_records.append(record)
             new_multipliers.append(multipliers[i])
     return new_records,new_multipliers
\ No newline at end of file
-- 
2.43.0


From e731029fccf02e0fee930fb10923b35ff24412ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:17 +0000
Subject: [PATCH 67/71] fix: bi-axes of tensors with a zero extreme eigenvalue
 are not NaN from rounding

---
 src/MTfit/convert/cmoment_tensor_conversion.pyx | 4 ++--
 src/MTfit/convert/moment_tensor_conversion.py   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/MTfit/convert/cmoment_tensor_conversion.pyx b/src/MTfit/convert/cmoment_tensor_conversion.pyx
index a25cf32..d122a5e 100644
--- a/src/MTfit/convert/cmoment_tensor_conversion.pyx
+++ b/src/MTfit/convert/cmoment_tensor_conversion.pyx
@@ -499,8 +499,8 @@ def MT6_biaxes(DTYPE_t[:]MT6,list c):
     area_displacement = E[0]-E[2]
     phi=np.zeros((3,2))  
     if area_displacement!=0:      # to avoid undefined
-        cphi=np.squeeze(np.sqrt(E[0]/area_displacement))
-        sphi=np.squeeze(np.sqrt(-E[2]/area_displacement))
+        cphi=np.squeeze(np.sqrt(np.maximum(E[0]/area_displacement, 0)))
+        sphi=np.squeeze(np.sqrt(np.maximum(-E[2]/area_displacement, 0)))
         phi[:,0]=np.array(cphi*T+sphi*P).flatten()
         phi[:,1]=np.array(cphi*T-sphi*P).flatten()
     return phi,explosion,area_displacement
diff --git a/src/MTfit/convert/moment_tensor_conversion.py b/src/MTfit/convert/moment_tensor_conversion.py
index 51788a6..7755e38 100644
--- a/src/MTfit/convert/moment_tensor_conversion.py
+++ b/src/MTfit/convert/moment_tensor_conversion.py
@@ -1044,8 +1044,8 @@ def MT6_biaxes(MT6, c=isotropic_c(lambda_=1, mu=1)):
         area_displacement = E[0]-E[2]
         phi = np.zeros((3, 2))
         if area_displacement != 0:      # to avoid undefined
-            cphi = np.squeeze(np.sqrt(E[0]/area_displacement))
-            sphi = np.squeeze(np.sqrt(-E[2]/area_displacement))
+            cphi = np.squeeze(np.sqrt(np.maximum(E[0]/area_displacement, 0)))
+            sphi = np.squeeze(np.sqrt(np.maximum(-E[2]/area_displacement, 0)))
             phi[:, 0] = np.array(cphi*T+sphi*P).flatten()
             phi[:, 1] = np.array(cphi*T-sphi*P).flatten()
     return phi, explosion, area_displacement
-- 
2.43.0


From ddf8133a95a3124702d00c04507a19a0f0f9852e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:17 +0000
Subject: [PATCH 68/71] fix: all-zero location-sample likelihoods keep their
 shape in the compiled forward task

---
 src/MTfit/inversion.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/MTfit/inversion.py b/src/MTfit/inversion.py
index 145cf3f..e48c8bd 100644
--- a/src/MTfit/inversion.py
+++ b/src/MTfit/inversion.py
@@ -222,6 +222,8 @@ class ForwardTask(object):
                         if not np.prod(ln_p_total.shape) or not ln_p_total.max() > -np.inf:
                             if not self._return_zero:
                                 return {'moment_tensors': np.matrix([]), 'ln_pdf': LnPDF(np.matrix([])), 'n': N}
+                            if location_samples and not self.marginalise:
+                                return {'moment_tensors': self.mt, 'ln_pdf': LnPDF(ln_p_total), 'n': N}
                             return {'moment_tensors': self.mt, 'ln_pdf': LnPDF(-np.inf*np.ones(self.mt.shape[1])), 'n': N}
                         # Otherwise probability evaluation is complete so set return flag to True
                         _return = True
-- 
2.43.0


From 1eedde38e68942106114c364ca655b2ad53ecf51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:17 +0000
Subject: [PATCH 69/71] fix: combined generated-sample likelihoods are
 evaluated at the generated sample

---
 src/MTfit/probability/cprobability.pyx | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/MTfit/probability/cprobability.pyx b/src/MTfit/probability/cprobability.pyx
index 14faada..9839207 100644
--- a/src/MTfit/probability/cprobability.pyx
+++ b/src/MTfit/probability/cprobability.pyx
@@ -1251,7 +1251,7 @@ cdef void c_all_combined_ln_pdf_gen(DTYPE_t* ln_P,DTYPE_t[:,:,::1] a_arr,DTYPE_t
             #loc_samples_multiplier
             for v from 0<=v<vmax:
                 ln_P_loc_samples[v]=location_samples_multiplier[v]
-                station_combined_all_ln_pdf(&a[0,0,0],&a_prob[0,0,0],&ax[0,0,0],&ay[0,0,0],&test_mt[0,0],&ln_P_loc_samples[0],&z[0],&positive_probability[0],&negative_probability[0],&incorrect_polarity_prob[0],&psx[0],&psy[0],&sigma[0], ipmax, v, umax,uarmax,uprobmax,vmax,kmax,wmax, w, v) 
+                station_combined_all_ln_pdf(&a[0,0,0],&a_prob[0,0,0],&ax[0,0,0],&ay[0,0,0],&test_mt[0,0],&ln_P_loc_samples[0],&z[0],&positive_probability[0],&negative_probability[0],&incorrect_polarity_prob[0],&psx[0],&psy[0],&sigma[0], ipmax, v, umax,uarmax,uprobmax,vmax,kmax,tmax, t, v) 
                 max_ln_p_loc=fmax(max_ln_p_loc,ln_P_loc_samples[v])
             if max_ln_p_loc>-inf:
                 ln_P[w]=0.0
@@ -1263,7 +1263,7 @@ cdef void c_all_combined_ln_pdf_gen(DTYPE_t* ln_P,DTYPE_t[:,:,::1] a_arr,DTYPE_t
         else:
             for v from 0<=v<vmax:
                 ln_P[v*wmax+w]=location_samples_multiplier[v]
-                station_combined_all_ln_pdf(&a[0,0,0],&a_prob[0,0,0],&ax[0,0,0],&ay[0,0,0],&test_mt[0,0],&ln_P[0],&z[0],&positive_probability[0],&negative_probability[0],&incorrect_polarity_prob[0],&psx[0],&psy[0],&sigma[0], ipmax, v, umax,uarmax,uprobmax,vmax,kmax,wmax, w, v*wmax+w) 
+                station_combined_all_ln_pdf(&a[0,0,0],&a_prob[0,0,0],&ax[0,0,0],&ay[0,0,0],&test_mt[0,0],&ln_P[0],&z[0],&positive_probability[0],&negative_probability[0],&incorrect_polarity_prob[0],&psx[0],&psy[0],&sigma[0], ipmax, v, umax,uarmax,uprobmax,vmax,kmax,tmax, t, v*wmax+w) 
                 if ln_P[v*wmax+w]>-inf:
                     ok=True
         if ok:
@@ -1318,7 +1318,7 @@ cdef void c_combined_pol_ln_pdf_gen(DTYPE_t* ln_P,DTYPE_t[:,:,::1] a_arr,DTYPE_t
             #loc_samples_multiplier
             for v from 0<=v<vmax:
                 ln_P_loc_samples[v]=location_samples_multiplier[v]
-                station_combined_pol_ln_pdf(&a[0,0,0],&a_prob[0,0,0],&test_mt[0,0],&ln_P_loc_samples[0],&positive_probability[0],&negative_probability[0],&incorrect_polarity_prob[0],&sigma[0], ipmax, v, umax,uprobmax,vmax,kmax,wmax, w, v) 
+                station_combined_pol_ln_pdf(&a[0,0,0],&a_prob[0,0,0],&test_mt[0,0],&ln_P_loc_samples[0],&positive_probability[0],&negative_probability[0],&incorrect_polarity_prob[0],&sigma[0], ipmax, v, umax,uprobmax,vmax,kmax,tmax, t, v) 
                 max_ln_p_loc=fmax(max_ln_p_loc,ln_P_loc_samples[v])
             if max_ln_p_loc>-inf:
                 ln_P[w]=0.0
@@ -1330,7 +1330,7 @@ cdef void c_combined_pol_ln_pdf_gen(DTYPE_t* ln_P,DTYPE_t[:,:,::1] a_arr,DTYPE_t
         else:
             for v from 0<=v<vmax:
                 ln_P[v*wmax+w]=location_samples_multiplier[v]
-                station_combined_pol_ln_pdf(&a[0,0,0],&a_prob[0,0,0],&test_mt[0,0],&ln_P[0],&positive_probability[0],&negative_probability[0],&incorrect_polarity_prob[0],&sigma[0], ipmax, v, umax,uprobmax,vmax,kmax,wmax, w, v*wmax+w) 
+                station_combined_pol_ln_pdf(&a[0,0,0],&a_prob[0,0,0],&test_mt[0,0],&ln_P[0],&positive_probability[0],&negative_probability[0],&incorrect_polarity_prob[0],&sigma[0], ipmax, v, umax,uprobmax,vmax,kmax,tmax, t, v*wmax+w) 
                 if ln_P[v*wmax+w]>-inf:
                     ok=True
         if ok:
-- 
2.43.0


From 2f94842590e42fabf958aa2f8afed09028e79a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:28 +0000
Subject: [PATCH 70/71] fix: write scale factors of joint inversions to the hyp
 scale factor output

---
 src/MTfit/utilities/file_io.py | 36 ++++++++++++++++++++++++++++++----
 1 file changed, 32 insertions(+), 4 deletions(-)

diff --git a/src/MTfit/utilities/file_io.py b/src/MTfit/utilities/file_io.py
index 52bf821..6f9446f 100644
--- a/src/MTfit/utilities/file_io.py
+++ b/src/MTfit/utilities/file_io.py
@@ -493,6 +493,31 @@ def csv2inv(filename):
 #
 
 
+def _marginalise_scale_factor(scale_factor):
+    """
+    Scale factor estimates of a sample over its location samples (if these have not been marginalised already)
+
+    Args
+        scale_factor: dictionary of mu and sigma arrays, with the sample's ln_p for each location sample if there are several.
+
+    Returns
+        dictionary of mean and standard deviation arrays for the event pairs
+    """
+    mu = np.asarray(scale_factor['mu'])
+    sigma = np.asarray(scale_factor['sigma'])
+    if mu.ndim < 3:
+        return {'mu': mu, 'sigma': sigma}
+    if 'ln_p' in scale_factor:
+        ln_p = np.asarray(scale_factor['ln_p']).flatten()
+        weights = np.exp(ln_p-ln_p.max())
+    else:
+        weights = np.ones(mu.shape[0])
+    weights = (weights/weights.sum())[:, None, None]
+    mean = (weights*mu).sum(0)
+    variance = (weights*(sigma*sigma+(mu-mean)*(mu-mean))).sum(0)
+    return {'mu': mean, 'sigma': np.sqrt(variance)}
+
+
 def _convert_mt_space_to_struct(output_data, i=False):
     """
     Coverts mt space to binary struct
@@ -601,10 +626,13 @@ def _convert_mt_space_to_struct(output_data, i=False):
     else:
         sf_output = ''
     if 'scale_factors' in output_data:
-        n_events = output_data['scale_factors']['mu'].shape[1]
-        sf_output = struct.pack('QQQ', output_data['total_number_samples'], len(output_data['scale_factors']), n_events)
-        for i, sf in enumerate(output_data['scale_factors']):
-            sf_output += struct.pack('dd', output_data['probability'][0, i], output_data['ln_pdf'][0, i])
+        scale_factors = [_marginalise_scale_factor(sf) for sf in output_data['scale_factors']]
+        n_events = scale_factors[0]['mu'].shape[-1] if len(scale_factors) else 0
+        sf_output = struct.pack('QQQ', output_data['total_number_samples'], len(scale_factors), n_events)
+        probability = np.asarray(output_data['probability']).flatten()
+        ln_pdf = np.asarray(output_data['ln_pdf']).flatten()
+        for i, sf in enumerate(scale_factors):
+            sf_output += struct.pack('dd', probability[i], ln_pdf[i])
             # Add data for each event - Loops over off diagonal elements
             k = 0
             _l = 1
-- 
2.43.0


From b108d0858687fe469a5890f34782c3ad2a0da077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:42 +0000
Subject: [PATCH 71/71] fix: use the mispick probabilities of polarity
 probabilities when polarities are given too

---
 src/MTfit/inversion.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/MTfit/inversion.py b/src/MTfit/inversion.py
index e48c8bd..5c51274 100644
--- a/src/MTfit/inversion.py
+++ b/src/MTfit/inversion.py
@@ -120,6 +120,7 @@ class ForwardTask(object):
             percentage_error2_amplitude_ratio: Amplitude ratio observations percentage error for the denominator.
             a_polarity_prob: Polarity PDF observations station-ray 6 vector.
             polarity_prob: Polarity PDF probability
+            incorrect_polarity_prob:[0] Mispick probabilities (a tuple of the polarity and polarity PDF values if they differ).
             return_zero:[False] Boolean flag to return zero probability samples.
             reuse:[False] Boolean flag as to whether task is reused (mt changed and re-run...)
             marginalise:[True] Boolean flag as to whether pdf is marginalised over location/model uncertainty or not.
@@ -169,7 +170,12 @@ class ForwardTask(object):
                     memory_profiler = False
             if self.generate_samples or len(self.mt):
                 _return = False  # set _return flag to False before starting
-                if cprobability and not _CYTHON_TESTS and not _COMBINED_TESTS:
+                # Polarities and polarity probabilities can have different mispick probabilities, which the combined PDFs cannot handle
+                if isinstance(self.incorrect_polarity_prob, tuple):
+                    incorrect_polarity_prob, incorrect_polarity_prob_prob = self.incorrect_polarity_prob
+                else:
+                    incorrect_polarity_prob = incorrect_polarity_prob_prob = self.incorrect_polarity_prob
+                if cprobability and not _CYTHON_TESTS and not _COMBINED_TESTS and not isinstance(self.incorrect_polarity_prob, tuple):
                     try:
                         # Get number of samples if not generating them
                         if not self.generate_samples:
@@ -260,7 +266,7 @@ class ForwardTask(object):
                         with warnings.catch_warnings() and np.errstate(divide='ignore'):
                             warnings.simplefilter("ignore")
                             # polarity ln_pdf (will try to use cython again, and only fall back to python if necessary)
-                            ln_p_total = polarity_ln_pdf(self.a_polarity, self.mt, self.error_polarity, self.incorrect_polarity_prob)
+                            ln_p_total = polarity_ln_pdf(self.a_polarity, self.mt, self.error_polarity, incorrect_polarity_prob)
                         # Set return flag (have evaluated a PDF)
                         _return = True
                         # Print number of non zero samples (Verbosity>=3)
@@ -277,7 +283,7 @@ class ForwardTask(object):
                         with warnings.catch_warnings() and np.errstate(divide='ignore'):
                             warnings.simplefilter("ignore")
                             # Polarity probability ln_pdf (will try to use cython again, and only fall back to python if necessary)
-                            ln_p_pol_prob = polarity_probability_ln_pdf(self.a_polarity_prob, self.mt, self.polarity_prob[0], self.polarity_prob[1], self.incorrect_polarity_prob)
+                            ln_p_pol_prob = polarity_probability_ln_pdf(self.a_polarity_prob, self.mt, self.polarity_prob[0], self.polarity_prob[1], incorrect_polarity_prob_prob)
                         if _return:
                             ln_p_total = ln_p_total+ln_p_pol_prob
                         else:
@@ -2094,6 +2100,9 @@ class Inversion(object):
                                                                                self.bin_angle_coefficient_samples, extension_data)
         if isinstance(a_polarity, bool):
             incorrect_polarity_probability = incorrect_polarity_probability_2
+        elif not isinstance(a_polarity_probability, bool) and (np.any(incorrect_polarity_probability) or np.any(incorrect_polarity_probability_2)):
+            # Each of the data types has its own mispick probabilities
+            incorrect_polarity_probability = (incorrect_polarity_probability, incorrect_polarity_probability_2)
         return (a_polarity, error_polarity, a1_amplitude_ratio, a2_amplitude_ratio, amplitude_ratio, percentage_error1_amplitude_ratio, percentage_error2_amplitude_ratio,
                 a_polarity_probability, polarity_probability, incorrect_polarity_probability, extension_data)
 
-- 
2.43.0

