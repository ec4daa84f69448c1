From 62a78690a764c806f3f56537d4a6bf5c5a6a6971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:07 +0000
Subject: [PATCH 01/19] fix: adapt filters on a private float64 copy of the
 data

Integer samples (int16 audio for example) were multiplied in their own
storage type, so x^T x overflowed and the normalised filters diverged.
adapt() also kept a reference to the caller's sample (GNGD, VSLMS), so a
reused buffer silently changed the filter state.
---
 padasip/filters/base_filter.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/padasip/filters/base_filter.py b/padasip/filters/base_filter.py
index 53a55cc..de91413 100644
--- a/padasip/filters/base_filter.py
+++ b/padasip/filters/base_filter.py
@@ -161,6 +161,7 @@ class AdaptiveFilter():
 
         * `x` : input array (1-dimensional array)
         """
+        x = np.array(x, dtype="float64")
         y = self.predict(x)
         e = d - y
         self.w += self.learning_rule(e, x)
@@ -194,8 +195,8 @@ class AdaptiveFilter():
         self.n = len(x[0])
         # prepare data
         try:
-            x = np.array(x)
-            d = np.array(d)
+            x = np.array(x, dtype="float64")
+            d = np.array(d, dtype="float64")
         except:
             raise ValueError('Impossible to convert x or d to a numpy array')
         # create empty arrays
-- 
2.43.0


From b34976c13a01bbdf58aba743062b3a6353c3990e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:07 +0000
Subject: [PATCH 02/19] fix: reject data that does not fit the filter before
 changing its state

run() overwrote the filter size with the width of the data before it knew
that the data is usable. After a rejected call FilterVSLMS_Benveniste and
FilterOCNLMS raised for every correct sample.
---
 padasip/filters/base_filter.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/padasip/filters/base_filter.py b/padasip/filters/base_filter.py
index de91413..f6ea5cd 100644
--- a/padasip/filters/base_filter.py
+++ b/padasip/filters/base_filter.py
@@ -192,13 +192,15 @@ class AdaptiveFilter():
         N = len(x)
         if not len(d) == N:
             raise ValueError('The length of vector d and matrix x must agree.')
-        self.n = len(x[0])
+        if not len(x[0]) == len(self.w):
+            raise ValueError('The number of columns of x must agree with the filter size.')
         # prepare data
         try:
             x = np.array(x, dtype="float64")
             d = np.array(d, dtype="float64")
         except:
             raise ValueError('Impossible to convert x or d to a numpy array')
+        self.n = len(x[0])
         # create empty arrays
         y = np.zeros(N)
         e = np.zeros(N)
@@ -304,13 +306,15 @@ class AdaptiveFilterAP(AdaptiveFilter):
         N = len(x)
         if not len(d) == N:
             raise ValueError('The length of vector d and matrix x must agree.')
-        self.n = len(x[0])
+        if not len(x[0]) == len(self.w):
+            raise ValueError('The number of columns of x must agree with the filter size.')
         # prepare data
         try:
             x = np.array(x)
             d = np.array(d)
         except:
             raise ValueError('Impossible to convert x or d to a numpy array')
+        self.n = len(x[0])
         # create empty arrays
         y = np.zeros(N)
         e = np.zeros(N)
-- 
2.43.0


From 73e66d366c14c2396c88e6704ed992e617a1cd31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:07 +0000
Subject: [PATCH 03/19] fix: give the adaptive filters the documented default
 learning rate

The documentation creates every filter as Filter...(n), but FilterLMS,
FilterLMF, FilterSSLMS and FilterAP raised TypeError without mu, and so did
filter_data(d, x) with its default model. 0.01 is the default before 1.2.0.
---
 padasip/filters/base_filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/padasip/filters/base_filter.py b/padasip/filters/base_filter.py
index f6ea5cd..83d74ed 100644
--- a/padasip/filters/base_filter.py
+++ b/padasip/filters/base_filter.py
@@ -11,7 +11,7 @@ class AdaptiveFilter():
     Base class for adaptive filter classes. It puts together some functions
     used by all adaptive filters.
     """
-    def __init__(self, n, mu, w="random"):
+    def __init__(self, n, mu=0.01, w="random"):
         """
         This class represents an generic adaptive filter.
 
-- 
2.43.0


From 7d43648d02eeb80979ebc404cef2b56128880bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:26 +0000
Subject: [PATCH 04/19] fix: FilterOCNLMS.predict no longer changes the filter

Reading the memory also moved its index, so the documented real-time use
(predict, then adapt) gave other weights than adapt or run alone.
---
 padasip/filters/ocnlms.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/padasip/filters/ocnlms.py b/padasip/filters/ocnlms.py
index 7e36644..7578dce 100644
--- a/padasip/filters/ocnlms.py
+++ b/padasip/filters/ocnlms.py
@@ -98,8 +98,10 @@ class FilterOCNLMS(AdaptiveFilter):
         """
         Override the parent class.
         """
+        self.move_memory()
         self.update_memory_x(x)
         m_d, m_x = self.read_memory()
+        self.move_memory()
         y = np.dot(self.w, x-m_x) + m_d
         self.update_memory_d(e + y)
         return self.mu / (self.eps + np.dot(x - m_x, x - m_x)) * e * (x - m_x)
@@ -157,8 +159,13 @@ class FilterOCNLMS(AdaptiveFilter):
         else:
             m_x = np.mean(self.mem_x, axis=0)
             m_d = np.mean(np.delete(self.mem_d, self.mem_idx))
+        return m_d, m_x
+
+    def move_memory(self):
+        """
+        This function moves the memory index to the next position.
+        """
         self.mem_idx += 1
         if self.mem_idx > len(self.mem_x)-1:
             self.mem_idx = 0
             self.mem_empty = False
-        return m_d, m_x
-- 
2.43.0


From 3d33be3077f3924b1ffcd2a63702a6687b9ac22a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:07 +0000
Subject: [PATCH 05/19] fix: evaluate errors in floating point

The difference and the square were calculated in the integer type of the
data: MAE of uint8 series 1 and 2 was 255, MSE of int8 error 100 was 16.
---
 padasip/misc/error_evaluation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/padasip/misc/error_evaluation.py b/padasip/misc/error_evaluation.py
index d2896f1..f81f750 100644
--- a/padasip/misc/error_evaluation.py
+++ b/padasip/misc/error_evaluation.py
@@ -109,14 +109,14 @@ def get_valid_error(x1, x2=-1):
     # just error
     if isinstance(x2, int) and x2 == -1:
         try:
-            e = np.array(x1)
+            e = np.array(x1, dtype="float64")
         except:
             raise ValueError('Impossible to convert series to a numpy array')
     # two series
     else:
         try:
-            x1 = np.array(x1)
-            x2 = np.array(x2)
+            x1 = np.array(x1, dtype="float64")
+            x2 = np.array(x2, dtype="float64")
         except:
             raise ValueError('Impossible to convert one of series to a numpy array')
         if not len(x1) == len(x2):
-- 
2.43.0


From 7af30acd2f1d7b983e996e6b4360090fd173ebee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:53 +0000
Subject: [PATCH 06/19] fix: accept an array of sensitivities in
 learning_entropy

alpha is documented as 1d array, but a numpy array of more than one
sensitivity raised 'truth value of an array is ambiguous'.
---
 padasip/detection/le.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/padasip/detection/le.py b/padasip/detection/le.py
index 725e438..7116bca 100644
--- a/padasip/detection/le.py
+++ b/padasip/detection/le.py
@@ -167,7 +167,7 @@ def learning_entropy(w, m=10, order=1, alpha=False):
     dw[order:] = np.abs(np.diff(dw, n=order, axis=0))
     # average floting window - window is k-m ... k-1
     awd = np.zeros(w.shape)
-    if not alpha:
+    if alpha is None or alpha is False or len(alpha) == 0:
         # estimate the ALPHA with multiscale approach
         swd = np.zeros(w.shape)
         for k in range(m, N):
-- 
2.43.0


From 33efac911b128371b6c8f745e6e199022a936b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:53 +0000
Subject: [PATCH 07/19] fix: difference the weight history in floating point

Increments of a history stored in (unsigned or short) integers wrapped
around in learning_entropy, ELBND and ESE.
---
 padasip/detection/elbnd.py | 2 +-
 padasip/detection/ese.py   | 2 +-
 padasip/detection/le.py    | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/padasip/detection/elbnd.py b/padasip/detection/elbnd.py
index 491f14e..d87725c 100644
--- a/padasip/detection/elbnd.py
+++ b/padasip/detection/elbnd.py
@@ -115,7 +115,7 @@ def ELBND(w, e, function="max"):
         raise ValueError('Unknown output function')
     # get abs dw from w
     dw = np.zeros(w.shape)
-    dw[:-1] = np.abs(np.diff(w, axis=0))
+    dw[:-1] = np.abs(np.diff(np.array(w, dtype="float64"), axis=0))
     # absolute values of product of increments and error
     elbnd = np.abs((dw.T*e).T)
     # apply output function
diff --git a/padasip/detection/ese.py b/padasip/detection/ese.py
index cc5ad45..b111c96 100644
--- a/padasip/detection/ese.py
+++ b/padasip/detection/ese.py
@@ -122,7 +122,7 @@ def ESE(w, window=1000, pot_method="10%"):
 
     """
     filter_len = w.shape[1]
-    dw = np.copy(w)
+    dw = np.array(w, dtype="float64")
     dw[1:] = np.abs(np.diff(dw, n=1, axis=0))
     dw_count = int(dw.shape[0])
 
diff --git a/padasip/detection/le.py b/padasip/detection/le.py
index 7116bca..db2e9a2 100644
--- a/padasip/detection/le.py
+++ b/padasip/detection/le.py
@@ -159,7 +159,7 @@ def learning_entropy(w, m=10, order=1, alpha=False):
     * Learning Entropy of data (1 d array) - one value for every sample
 
     """
-    w = np.array(w)
+    w = np.array(w, dtype="float64")
     # get length of data and number of parameters
     N, n = w.shape
     # get abs dw from w
-- 
2.43.0


From 708c44b4e6c89bb1795212594afe88b85a35387e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:53 +0000
Subject: [PATCH 08/19] fix: ESE accepts the documented 30% method and reports
 unknown methods

Both ended with IndexError from an empty selection of peaks.
---
 padasip/detection/ese.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/padasip/detection/ese.py b/padasip/detection/ese.py
index b111c96..16500c6 100644
--- a/padasip/detection/ese.py
+++ b/padasip/detection/ese.py
@@ -96,8 +96,12 @@ def pot(data, method):
         k = max(int((n ** (2/3))/np.log10(np.log10(n))), 1)
     elif method == "log10":
         k = max(int(np.log10(n)), 1)
+    elif method == "30%":
+        k = max(int(0.3 * n), 1)
     elif method == "35%":
         k = max(int(0.35 * n), 1)
+    else:
+        raise ValueError('Unknown POT method')
     return sorted_data[:k]
 
 def ESE(w, window=1000, pot_method="10%"):
-- 
2.43.0


From 0de843f6e7ebaca4532171eb274169162ffbc110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:53 +0000
Subject: [PATCH 09/19] fix: correct the documented calls of ESE and ELBND

ELBND has no argument window and its keyword is function.
---
 padasip/detection/elbnd.py | 2 +-
 padasip/detection/ese.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/padasip/detection/elbnd.py b/padasip/detection/elbnd.py
index d87725c..7c70795 100644
--- a/padasip/detection/elbnd.py
+++ b/padasip/detection/elbnd.py
@@ -98,7 +98,7 @@ def ELBND(w, e, function="max"):
 
     **Kwargs:**
 
-    * `functions` : output function (str). The way how to produce single
+    * `function` : output function (str). The way how to produce single
       value for every sample (from all parameters)
 
         * `max` - maximal value
diff --git a/padasip/detection/ese.py b/padasip/detection/ese.py
index 16500c6..c1f447e 100644
--- a/padasip/detection/ese.py
+++ b/padasip/detection/ese.py
@@ -28,7 +28,7 @@ The ESE algorithm can be used as follows
 
 .. code-block:: python
 
-    ese = pa.detection.ELBND(w, window=1000)
+    ese = pa.detection.ESE(w, window=1000)
 
 where `w` is matrix of the adaptive parameters (changing in time, every row
 should represent one time index) and
-- 
2.43.0


From 5228ab47116b290e23d679766e3c46124d2f254e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:53 +0000
Subject: [PATCH 10/19] fix: LDA accepts a list of labels and does not depend
 on the hash seed

A documented list of labels was compared as a whole, which selected wrong
rows or raised. The classes were visited in the order of a set of strings,
so the rounding and with it the signs of the output changed from run to run.
---
 padasip/preprocess/lda.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/padasip/preprocess/lda.py b/padasip/preprocess/lda.py
index 6ec1b02..aa5edb9 100644
--- a/padasip/preprocess/lda.py
+++ b/padasip/preprocess/lda.py
@@ -113,7 +113,8 @@ def LDA_base(x, labels):
       from LDA analysis
 
     """
-    classes = np.array(tuple(set(labels)))
+    labels = np.array(labels)
+    classes = np.array(tuple(dict.fromkeys(labels)))
     cols = x.shape[1]
     # mean values for every class
     means = np.zeros((len(classes), cols))
-- 
2.43.0


From de6416e5cc270e8ff420954f17f24384e877fb6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:53 +0000
Subject: [PATCH 11/19] fix: include the last sample in the MSE of a training
 epoch of MLP

---
 padasip/ann/mlp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/padasip/ann/mlp.py b/padasip/ann/mlp.py
index f0fa4fa..3613ea8 100644
--- a/padasip/ann/mlp.py
+++ b/padasip/ann/mlp.py
@@ -324,7 +324,7 @@ class NetworkMLP():
             for k in range(N):
                 self.predict(x[k])
                 e[(epoch*N)+k] = self.update(d[k])
-            MSE[epoch] = np.sum(e[epoch*N:(epoch+1)*N-1]**2) / N
+            MSE[epoch] = np.sum(e[epoch*N:(epoch+1)*N]**2) / N
         return e, MSE
 
     def run(self, x):
-- 
2.43.0


From 90609012838174480a0518579e6c169607fbf575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:53 +0000
Subject: [PATCH 12/19] fix: propagate the error through hidden layers of MLP
 correctly

The derivative of a deeper layer was multiplied by a second (1 - y), and the
error was propagated through the already updated weights (a view of them),
so the update was not the gradient of the squared error.
---
 padasip/ann/mlp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/padasip/ann/mlp.py b/padasip/ann/mlp.py
index 3613ea8..a33c129 100644
--- a/padasip/ann/mlp.py
+++ b/padasip/ann/mlp.py
@@ -183,9 +183,9 @@ class Layer():
             e = self.activation(self.y, f=self.f, der=True) * e * w
             dw = self.mu * np.outer(e, self.x)
         else:
-            e = self.activation(self.y, f=self.f, der=True) * (1 - self.y) * np.dot(e, w)
+            e = self.activation(self.y, f=self.f, der=True) * np.dot(e, w)
             dw = self.mu * np.outer(e, self.x)
-        w = self.w[:, 1:]
+        w = np.copy(self.w)[:, 1:]
         self.w += dw
         return w, e
 
-- 
2.43.0


From b94b3a60627af708b08a02ec647fece9de1a9dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:53 +0000
Subject: [PATCH 13/19] fix: shuffle the training data of MLP in every epoch as
 documented

---
 padasip/ann/mlp.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/padasip/ann/mlp.py b/padasip/ann/mlp.py
index a33c129..b5e07e6 100644
--- a/padasip/ann/mlp.py
+++ b/padasip/ann/mlp.py
@@ -313,14 +313,14 @@ class NetworkMLP():
         else:
             e = np.zeros((epochs*N, self.outputs))
         MSE = np.zeros(epochs)
-        # shuffle data if demanded
-        if shuffle:
-            randomize = np.arange(len(x))
-            np.random.shuffle(randomize)
-            x = x[randomize]
-            d = d[randomize]
         # adaptation loop
         for epoch in range(epochs):
+            # shuffle data if demanded
+            if shuffle:
+                randomize = np.arange(len(x))
+                np.random.shuffle(randomize)
+                x = x[randomize]
+                d = d[randomize]
             for k in range(N):
                 self.predict(x[k])
                 e[(epoch*N)+k] = self.update(d[k])
-- 
2.43.0


From 159bbcbc09006f37bf66110004e5ca5ab93caa62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:53 +0000
Subject: [PATCH 14/19] fix: MLP rejects an unknown activation and uses the
 converted mu

An unknown activation function gave None as output of the layers, and a
numeric string passed the check of mu but was stored unconverted.
---
 padasip/ann/mlp.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/padasip/ann/mlp.py b/padasip/ann/mlp.py
index b5e07e6..0d30798 100644
--- a/padasip/ann/mlp.py
+++ b/padasip/ann/mlp.py
@@ -109,6 +109,8 @@ class Layer():
             self.mu = sigma
         else:
             self.mu = mu
+        if activation_f not in ["sigmoid", "tanh"]:
+            raise ValueError('Unknown activation function')
         self.n_input = n_input
         self.w = np.random.normal(0, sigma, (n_layer, n_input+1))
         self.x = np.ones(n_input+1)
@@ -237,7 +239,7 @@ class NetworkMLP():
                 raise ValueError(
                     'Parameter mu is not float or similar'
                     )
-            self.mu = mu
+            self.mu = mu = param
         self.n_input = n_input
         # create output layer
         self.outputs = outputs
-- 
2.43.0


From 1fe907cd66fc8ca9a2191bbf3b9fe9670d9b24f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:18 +0000
Subject: [PATCH 15/19] fix: pass the fixed location to genpareto.fit as a
 number

With floc given as a list the fit returned arrays, which current NumPy
refuses to store as an element: ESE raised for every history with a peak.
---
 padasip/detection/ese.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/padasip/detection/ese.py b/padasip/detection/ese.py
index c1f447e..78bd57d 100644
--- a/padasip/detection/ese.py
+++ b/padasip/detection/ese.py
@@ -137,7 +137,7 @@ def ESE(w, window=1000, pot_method="10%"):
         for j in range(filter_len):
             poted_values = pot(dw[i - window:i, j], pot_method)
             if dw[i, j] > poted_values[-1]:
-                fit = genpareto.fit(poted_values, floc=[poted_values[-1]])
+                fit = genpareto.fit(poted_values, floc=poted_values[-1])
                 if dw[i, j] >= fit[1]:
                     hpp[i - window, j] = 1 - genpareto.cdf(dw[i, j], fit[0], fit[1], fit[2]) + 1e-20
 
-- 
2.43.0


From a7cecb751d502d5ed9bd5e528ac8a7a76818ac6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:25 +0000
Subject: [PATCH 16/19] fix: AP filter rejects data that are not numbers before
 changing its state

---
 padasip/filters/base_filter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/padasip/filters/base_filter.py b/padasip/filters/base_filter.py
index 83d74ed..5c3307b 100644
--- a/padasip/filters/base_filter.py
+++ b/padasip/filters/base_filter.py
@@ -310,8 +310,8 @@ class AdaptiveFilterAP(AdaptiveFilter):
             raise ValueError('The number of columns of x must agree with the filter size.')
         # prepare data
         try:
-            x = np.array(x)
-            d = np.array(d)
+            x = np.array(x, dtype="float64")
+            d = np.array(d, dtype="float64")
         except:
             raise ValueError('Impossible to convert x or d to a numpy array')
         self.n = len(x[0])
-- 
2.43.0


From f9f961c4645c2bdb7e11df41553f06b1f562fb20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:35 +0000
Subject: [PATCH 17/19] fix: MLP rejects data that are not numbers before
 anything changes

---
 padasip/ann/mlp.py | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/padasip/ann/mlp.py b/padasip/ann/mlp.py
index 0d30798..c90c352 100644
--- a/padasip/ann/mlp.py
+++ b/padasip/ann/mlp.py
@@ -298,17 +298,17 @@ class NetworkMLP():
             raise ValueError('The length of vector d and matrix x must agree.')
         if not len(x[0]) == self.n_input:
             raise ValueError('The number of network inputs is not correct.')
+        try:
+            x = np.array(x, dtype="float64")
+            d = np.array(d, dtype="float64")
+        except:
+            raise ValueError('Impossible to convert x or d to a numpy array')
         if self.outputs == 1:
             if not len(d.shape) == 1:
                 raise ValueError('For one output MLP the d must have one dimension')
         else:
-            if not d.shape[1] == self.outputs:
+            if not (len(d.shape) == 2 and d.shape[1] == self.outputs):
                 raise ValueError('The number of outputs must agree with number of columns in d')
-        try:
-            x = np.array(x)
-            d = np.array(d)
-        except:
-            raise ValueError('Impossible to convert x or d to a numpy array')
         # create empty arrays
         if self.outputs == 1:
             e = np.zeros(epochs*N)
@@ -346,7 +346,7 @@ class NetworkMLP():
         """
         # measure the data and check if the dimmension agree
         try:
-            x = np.array(x)
+            x = np.array(x, dtype="float64")
         except:
             raise ValueError('Impossible to convert x to a numpy array')
         N = len(x)
@@ -385,17 +385,17 @@ class NetworkMLP():
             raise ValueError('The length of vector d and matrix x must agree.')
         if not len(x[0]) == self.n_input:
             raise ValueError('The number of network inputs is not correct.')
+        try:
+            x = np.array(x, dtype="float64")
+            d = np.array(d, dtype="float64")
+        except:
+            raise ValueError('Impossible to convert x or d to a numpy array')
         if self.outputs == 1:
             if not len(d.shape) == 1:
                 raise ValueError('For one output MLP the d must have one dimension')
         else:
-            if not d.shape[1] == self.outputs:
+            if not (len(d.shape) == 2 and d.shape[1] == self.outputs):
                 raise ValueError('The number of outputs must agree with number of columns in d')
-        try:
-            x = np.array(x)
-            d = np.array(d)
-        except:
-            raise ValueError('Impossible to convert x or d to a numpy array')
         # create empty arrays
         if self.outputs == 1:
             y = np.zeros(N)
-- 
2.43.0


From 2778b70fb06cd7731e463b48eda6fd21fd1898d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:54 +0000
Subject: [PATCH 18/19] fix: document the arguments and the result of
 AdaptiveFilter

---
 padasip/filters/__init__.py | 20 ++++----------------
 1 file changed, 4 insertions(+), 16 deletions(-)

diff --git a/padasip/filters/__init__.py b/padasip/filters/__init__.py
index 32920b9..df4fc36 100644
--- a/padasip/filters/__init__.py
+++ b/padasip/filters/__init__.py
@@ -218,17 +218,12 @@ def filter_data(d, x, model="lms", **kwargs):
 
 def AdaptiveFilter(model="lms", **kwargs):
     """
-    Function that filter data with selected adaptive filter.
-
-    **Args:**
-
-    * `d` : desired value (1 dimensional array)
-
-    * `x` : input matrix (2-dimensional array). Rows are samples, columns are
-      input arrays.
+    Function that creates an instance of selected adaptive filter.
 
     **Kwargs:**
 
+    * `model` : name of the filter model (str)
+
     * Any key argument that can be accepted with selected filter model.
       For more information see documentation of desired adaptive filter.
 
@@ -236,14 +231,7 @@ def AdaptiveFilter(model="lms", **kwargs):
 
     **Returns:**
 
-    * `y` : output value (1 dimensional array).
-      The size corresponds with the desired value.
-
-    * `e` : filter error for every sample (1 dimensional array).
-      The size corresponds with the desired value.
-
-    * `w` : history of all weights (2 dimensional array).
-      Every row is set of the weights for given sample.
+    * `f` : instance of the selected adaptive filter
 
     """
     # check if the filter size was specified
-- 
2.43.0


From 1963784ab4b2ca719902d8e3980198b96dd1a91b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:21 +0000
Subject: [PATCH 19/19] fix: document the arguments Layer.update takes

---
 padasip/ann/mlp.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/padasip/ann/mlp.py b/padasip/ann/mlp.py
index c90c352..4570aa9 100644
--- a/padasip/ann/mlp.py
+++ b/padasip/ann/mlp.py
@@ -165,21 +165,25 @@ class Layer():
 
     def update(self, w, e):
         """
-        This function make update according provided target
-        and the last used input vector.
+        This function make update according provided weights and error
+        of the following layer and the last used input vector.
 
         **Args:**
 
-        * `d` : target (float or 1-dimensional array).
-            Size depends on number of MLP outputs.
+        * `w` : weights of the following layer without bias (1-dimensional
+            array for one following node, otherwise 2-dimensional array where
+            every row represents one node).
+
+        * `e` : error of the following layer (float or 1-dimensional array).
+            Size depends on number of nodes in the following layer.
 
         **Returns:**
 
-        * `w` : weights of the layers (2-dimensional layer).
+        * `w` : weights of the layer without bias (2-dimensional array).
             Every row represents one node.
 
-        * `e` : error used for update (float or 1-diemnsional array).
-            Size correspond to size of input `d`.
+        * `e` : error used for update (1-dimensional array).
+            Size correspond to number of nodes in the layer.
         """
         if len(w.shape) == 1:
             e = self.activation(self.y, f=self.f, der=True) * e * w
-- 
2.43.0

