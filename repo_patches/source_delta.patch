From dd956e03feed800c78dcd4fffb4da388cd03f2be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:26 +0000
Subject: [PATCH 01/19] fix: accumulate the sum of squares when the peaks stats
 are recomputed

peaks_update_stats() overwrote e2 with the square of the last stored
value instead of summing the squares, so every eviction of the min or the
max corrupted the variance (and the method of moments estimator).
---
 src/peaks.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/peaks.c b/src/peaks.c
index fcaaadc..97010d7 100644
--- a/src/peaks.c
+++ b/src/peaks.c
@@ -42,7 +42,7 @@ static unsigned long peaks_update_stats(struct Peaks *peaks) {
         // value = *iterator;
         double value = peaks->container.data[i];
         peaks->e += value;
-        peaks->e2 = value * value;
+        peaks->e2 += value * value;
         if (is_nan(peaks->min) || (value < peaks->min)) {
             peaks->min = value;
         }
-- 
2.43.0


From 4666b324a1c8244659079705b18eda4170e5999c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:26 +0000
Subject: [PATCH 02/19] fix: do not write before the buffer when its size is
 zero

libspot_version/license/error wrote a NUL at buffer[-1] when called with
size = 0.
---
 src/spot.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spot.c b/src/spot.c
index 7dc4ed7..f8d783e 100644
--- a/src/spot.c
+++ b/src/spot.c
@@ -172,7 +172,7 @@ void set_allocators(malloc_fn m, free_fn f) { internal_set_allocators(m, f); }
  * @return char* pointer to the output buffer
  */
 static char *strncpy(char *dst, const char *src, unsigned long size) {
-    if (dst) {
+    if (dst && size > 0) {
         unsigned long i = 0;
         for (; (i < size) && (src[i] != '\0'); i++) {
             dst[i] = src[i];
-- 
2.43.0


From f3ed151f8d6dea542ad88b7930ad010ccdbea559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:26 +0000
Subject: [PATCH 03/19] fix: reject NaN level and NaN q in spot_init

Every comparison with NaN is false, so NaN parameters passed the bounds
checks and spot_init returned 0.
---
 src/spot.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/spot.c b/src/spot.c
index f8d783e..fe05608 100644
--- a/src/spot.c
+++ b/src/spot.c
@@ -23,10 +23,10 @@ static const char *license = LICENSE;
 
 int spot_init(struct Spot *spot, double q, int low, int discard_anomalies,
               double level, unsigned long max_excess) {
-    if ((level < 0.) || (level >= 1.)) {
+    if (!((level >= 0.) && (level < 1.))) {
         return -ERR_LEVEL_OUT_OF_BOUNDS;
     }
-    if ((q >= (1. - level)) || (q <= 0.0)) {
+    if (!((q < (1. - level)) && (q > 0.0))) {
         return -ERR_Q_OUT_OF_BOUNDS;
     }
     spot->q = q;
-- 
2.43.0


From 56abb26a88203f8c4723dc24b4870e6d52fabdce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:26 +0000
Subject: [PATCH 04/19] fix: refuse a tail capacity of zero or whose byte size
 overflows

With max_excess = 0 (or a capacity whose byte size wraps around) the
allocation succeeded with a buffer smaller than the capacity and the pushes
wrote out of it.
---
 src/ubend.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/ubend.c b/src/ubend.c
index 9a58175..487c6ef 100644
--- a/src/ubend.c
+++ b/src/ubend.c
@@ -14,7 +14,13 @@ int ubend_init(struct Ubend *ubend, unsigned long capacity) {
     ubend->filled = 0;
     ubend->capacity = capacity;
     ubend->last_erased_data = _NAN;
-    ubend->data = (double *)xmalloc(capacity * __SIZEOF_DOUBLE__);
+    ubend->data = 0x0;
+    // an empty buffer cannot store anything and the size of a too big one
+    // does not fit in an unsigned long
+    if ((capacity > 0) &&
+        (capacity <= ((unsigned long)-1) / __SIZEOF_DOUBLE__)) {
+        ubend->data = (double *)xmalloc(capacity * __SIZEOF_DOUBLE__);
+    }
     if (ubend->data) {
         return 0;
     }
-- 
2.43.0


From 879e449333b9dbb3519d2ae9f13d1d475ffc0f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:41 +0000
Subject: [PATCH 05/19] fix: exponential of huge values and logarithm of
 infinity

xexp() converted x / LOG2 to an unsigned int even when it does not fit, so
xexp(9.3e12) returned 0 (and xexp(-9.3e12) returned inf), which turned the
anomaly threshold of nearly constant tails into -inf. xlog(inf) and
xexp(+/-inf) returned NaN.
---
 src/xmath.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/xmath.c b/src/xmath.c
index 81dfcb8..59fd3a8 100644
--- a/src/xmath.c
+++ b/src/xmath.c
@@ -325,6 +325,11 @@ double xexp(double x) {
     if (x < 0) {
         return 1.0 / xexp(-x);
     }
+    if (x > 2048 * LOG2) {
+        // the result is far beyond the largest double and x / LOG2 may not
+        // fit in an integer
+        return _INFINITY;
+    }
     if (x > LOG2) {
         unsigned int k = x / LOG2;
         double r = x - LOG2 * (double)k;
@@ -344,6 +349,9 @@ double xlog(double x) {
     if (x == 0) {
         return -_INFINITY;
     }
+    if (x == _INFINITY) {
+        return _INFINITY;
+    }
     // double_cast casted = {.d = x};
     // if (casted.bits.exponent == 1022 || casted.bits.exponent == 1023) {
     //     // 1/2 < x < 1
-- 
2.43.0


From 3ccb752bf4dc5a03204218c2a921304871b93859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:41 +0000
Subject: [PATCH 06/19] fix: probability of exceeding a value beyond the tail
 endpoint is zero

When gamma < 0 the tail has a finite right endpoint. Beyond it,
tail_probability() returned NaN.
---
 src/tail.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tail.c b/src/tail.c
index 6fcf574..594bf25 100644
--- a/src/tail.c
+++ b/src/tail.c
@@ -39,6 +39,10 @@ double tail_probability(struct Tail const *tail, double s, double d) {
         return s * xexp(-d / tail->sigma);
     } else {
         double r = d * (tail->gamma / tail->sigma);
+        if ((tail->gamma < 0.0) && (1.0 + r <= 0.0)) {
+            // the tail is bounded and d is beyond its right endpoint
+            return 0.0;
+        }
         return s * xpow(1.0 + r, -1.0 / tail->gamma);
     }
 }
-- 
2.43.0


From 4552c919e697f5adfc44fae99b303cf8e1787520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:04 +0000
Subject: [PATCH 07/19] fix: a new fit does not mix its excesses with those of
 a previous fit

spot_fit() resets the counters but kept the excesses stored by an earlier
fit (or by the steps that followed it). They are relative to another
threshold, so fitting again gave an anomaly threshold that was not based
on the training data.
---
 include/peaks.h | 7 +++++++
 include/tail.h  | 7 +++++++
 include/ubend.h | 7 +++++++
 src/peaks.c     | 8 ++++++++
 src/spot.c      | 2 ++
 src/tail.c      | 6 ++++++
 src/ubend.c     | 6 ++++++
 7 files changed, 43 insertions(+)

diff --git a/include/peaks.h b/include/peaks.h
index 2a99670..9352906 100644
--- a/include/peaks.h
+++ b/include/peaks.h
@@ -23,6 +23,13 @@
  */
 int peaks_init(struct Peaks *peaks, unsigned long size);
 
+/**
+ * @brief Forget the stored peaks
+ *
+ * @param peaks Peaks instance
+ */
+void peaks_clear(struct Peaks *peaks);
+
 /**
  * @brief Free the peaks structure
  *
diff --git a/include/tail.h b/include/tail.h
index e876ceb..068527b 100644
--- a/include/tail.h
+++ b/include/tail.h
@@ -32,6 +32,13 @@
  */
 int tail_init(struct Tail *tail, unsigned long size);
 
+/**
+ * @brief Forget the tail data
+ *
+ * @param tail Tail instance
+ */
+void tail_clear(struct Tail *tail);
+
 /**
  * @brief Free the tail structure
  *
diff --git a/include/ubend.h b/include/ubend.h
index 0852761..2c1eca4 100644
--- a/include/ubend.h
+++ b/include/ubend.h
@@ -37,6 +37,13 @@
  */
 int ubend_init(struct Ubend *ubend, unsigned long capacity);
 
+/**
+ * @brief Forget the stored values (the storage is kept)
+ *
+ * @param ubend
+ */
+void ubend_clear(struct Ubend *ubend);
+
 /**
  * @param ubend
  */
diff --git a/src/peaks.c b/src/peaks.c
index 97010d7..92d9a18 100644
--- a/src/peaks.c
+++ b/src/peaks.c
@@ -17,6 +17,14 @@ int peaks_init(struct Peaks *peaks, unsigned long size) {
     return ubend_init(&peaks->container, size);
 }
 
+void peaks_clear(struct Peaks *peaks) {
+    peaks->e = 0.0;
+    peaks->e2 = 0.0;
+    peaks->min = _NAN;
+    peaks->max = _NAN;
+    ubend_clear(&(peaks->container));
+}
+
 void peaks_free(struct Peaks *peaks) {
     peaks->e = _NAN;
     peaks->e2 = _NAN;
diff --git a/src/spot.c b/src/spot.c
index fe05608..3b60d9a 100644
--- a/src/spot.c
+++ b/src/spot.c
@@ -81,6 +81,8 @@ int spot_fit(struct Spot *spot, double const *data, unsigned long size) {
     // total number of excesses
     spot->Nt = 0;
     spot->n = size;
+    // forget the excesses over a previous threshold
+    tail_clear(&(spot->tail));
 
     // compute excess threshold
     double et;
diff --git a/src/tail.c b/src/tail.c
index 594bf25..6c95d22 100644
--- a/src/tail.c
+++ b/src/tail.c
@@ -21,6 +21,12 @@ int tail_init(struct Tail *tail, unsigned long size) {
     return peaks_init(&(tail->peaks), size);
 }
 
+void tail_clear(struct Tail *tail) {
+    tail->gamma = _NAN;
+    tail->sigma = _NAN;
+    peaks_clear(&(tail->peaks));
+}
+
 void tail_free(struct Tail *tail) {
     tail->gamma = _NAN;
     tail->sigma = _NAN;
diff --git a/src/ubend.c b/src/ubend.c
index 487c6ef..e55c825 100644
--- a/src/ubend.c
+++ b/src/ubend.c
@@ -27,6 +27,12 @@ int ubend_init(struct Ubend *ubend, unsigned long capacity) {
     return -ERR_MEMORY_ALLOCATION_FAILED;
 }
 
+void ubend_clear(struct Ubend *ubend) {
+    ubend->cursor = 0;
+    ubend->filled = 0;
+    ubend->last_erased_data = _NAN;
+}
+
 void ubend_free(struct Ubend *ubend) {
     ubend->cursor = 0;
     ubend->capacity = 0;
-- 
2.43.0


From b8a9c4d82280e49788d0174f548bca20ad5925f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:48 +0000
Subject: [PATCH 08/19] fix: python fit() crashed on tuples, leaked its input
 and masked errors

PySequence_Fast() returns tuples unchanged while the code used the PyList
API (segmentation fault), the new reference was never released, non float
items were not detected and a failed fit returned None with an exception
set (SystemError instead of RuntimeError).
---
 python/libspotmodule.c | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/python/libspotmodule.c b/python/libspotmodule.c
index 0af61aa..2d4686d 100644
--- a/python/libspotmodule.c
+++ b/python/libspotmodule.c
@@ -134,14 +134,29 @@ static PyObject *Spot_fit(Spot *self, PyObject *data) {
         return NULL;
     }
 
-    unsigned long size = (unsigned long)PyList_Size(seq);
+    // seq is either a list or a tuple
+    unsigned long size = (unsigned long)PySequence_Size(seq);
 
     // allocate a new raw buffer to pass to the fit method
     double *x = malloc(size * sizeof(double));
+    if (x == NULL && size > 0) {
+        Py_DECREF(seq);
+        return PyErr_NoMemory();
+    }
     for (unsigned long i = 0; i < size; i++) {
-        // https://docs.python.org/3/c-api/float.html#c.PyFloat_AsDouble
-        x[i] = PyFloat_AsDouble(PyList_GetItem(seq, i));
+        PyObject *item = PySequence_GetItem(seq, i);
+        if (item != NULL) {
+            // https://docs.python.org/3/c-api/float.html#c.PyFloat_AsDouble
+            x[i] = PyFloat_AsDouble(item);
+            Py_DECREF(item);
+        }
+        if (PyErr_Occurred()) {
+            free(x);
+            Py_DECREF(seq);
+            return NULL;
+        }
     }
+    Py_DECREF(seq);
     // libspot API call
     int result = spot_fit(&(self->_spot), x, size);
     // free the buffer
@@ -152,6 +167,7 @@ static PyObject *Spot_fit(Spot *self, PyObject *data) {
         char buffer[256];
         libspot_error(-result, buffer, 256);
         PyErr_SetString(PyExc_RuntimeError, buffer);
+        return NULL;
     }
     Py_RETURN_NONE;
 }
-- 
2.43.0


From d95cf6d8e9dd56be7a52840d02c47ac42d0e241a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:48 +0000
Subject: [PATCH 09/19] fix: python step/quantile/probability ignored
 conversion errors

step("x") fed -1.0 to the model and then raised SystemError. Non numeric
arguments now raise TypeError and leave the detector untouched.
---
 python/libspotmodule.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/python/libspotmodule.c b/python/libspotmodule.c
index 2d4686d..8f0e8a7 100644
--- a/python/libspotmodule.c
+++ b/python/libspotmodule.c
@@ -177,6 +177,9 @@ PyDoc_STRVAR(Spot_step_doc, "step($self, x)\n--\n\n"
 
 static PyObject *Spot_step(Spot *self, PyObject *x) {
     double z = PyFloat_AsDouble(x);
+    if (PyErr_Occurred()) {
+        return NULL;
+    }
 
     // libspot API call
     int result = spot_step(&(self->_spot), z);
@@ -189,6 +192,9 @@ PyDoc_STRVAR(Spot_quantile_doc, "quantile($self, q)\n--\n\n"
 
 static PyObject *Spot_quantile(Spot *self, PyObject *x) {
     double q = PyFloat_AsDouble(x);
+    if (PyErr_Occurred()) {
+        return NULL;
+    }
 
     // libspot API call
     double z = spot_quantile(&(self->_spot), q);
@@ -202,6 +208,9 @@ PyDoc_STRVAR(Spot_probability_doc,
 
 static PyObject *Spot_probability(Spot *self, PyObject *x) {
     double z = PyFloat_AsDouble(x);
+    if (PyErr_Occurred()) {
+        return NULL;
+    }
 
     // libspot API call
     double q = spot_probability(&(self->_spot), z);
-- 
2.43.0


From 59c521c4fbcd11f2264d493323b3ab15bc0ded6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:48 +0000
Subject: [PATCH 10/19] fix: release the python object when a Spot is
 deallocated

Spot_dealloc() only released the tail data: every deleted Spot leaked the
object and a reference to its type.
---
 python/libspotmodule.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/python/libspotmodule.c b/python/libspotmodule.c
index 8f0e8a7..0107b58 100644
--- a/python/libspotmodule.c
+++ b/python/libspotmodule.c
@@ -266,10 +266,15 @@ static PyObject *Spot_as_dict(Spot *self) {
 }
 
 static void Spot_dealloc(Spot *self) {
+    PyTypeObject *type = Py_TYPE(self);
     // free internal structure
     // libspot API call
     spot_free(&(self->_spot));
-    // Py_TYPE(self)->tp_free((PyObject *)self);
+    // release the object itself (tp_free is not reachable with the Limited
+    // API) and its reference to the heap type
+    freefunc tp_free = (freefunc)PyType_GetSlot(type, Py_tp_free);
+    tp_free((PyObject *)self);
+    Py_DECREF(type);
 }
 
 static const PyMemberDef Spot_members[] = {
-- 
2.43.0


From bd67948b0049f70c635ab7d4720db66fa987e7d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:48 +0000
Subject: [PATCH 11/19] fix: spot_new must return a structure that can be freed

The JS constructor registers its finalizer before calling spot_init. When
the latter refuses the parameters, spot_free was called on uninitialized
memory (free of a wild pointer).
---
 wasm/main.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/wasm/main.c b/wasm/main.c
index dc8ed65..5afdf1b 100644
--- a/wasm/main.c
+++ b/wasm/main.c
@@ -3,7 +3,8 @@
 #include "stdlib.h"
 #include <emscripten.h>
 
-struct Spot *spot_new(void) { return malloc(sizeof(struct Spot)); }
+// zeroed so that it can be freed even if spot_init has failed
+struct Spot *spot_new(void) { return calloc(1, sizeof(struct Spot)); }
 
 __SIZE_TYPE__ spot_size(void) { return sizeof(struct Spot); }
 
-- 
2.43.0


From cf25de2d389ac32bfea8d7a7789e9d5587c84e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:48 +0000
Subject: [PATCH 12/19] fix: js fit() copies the given view only and always
 releases its buffer

When data is a view on a larger ArrayBuffer (subarray), the whole buffer
was copied over the allocated block: wrong training data and heap
corruption. The block was also leaked when the fit failed.
---
 wasm/index.ts | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/wasm/index.ts b/wasm/index.ts
index 2095cc1..587dff5 100644
--- a/wasm/index.ts
+++ b/wasm/index.ts
@@ -198,14 +198,17 @@ export class Spot {
     // reserve heap
     const arrayPtr = libspot._malloc(data.length * data.BYTES_PER_ELEMENT);
     // copy array (converted to bytes) to the heap
-    libspot.HEAPU8.set(new Uint8Array(data.buffer), arrayPtr);
+    libspot.HEAPU8.set(
+      new Uint8Array(data.buffer, data.byteOffset, data.byteLength),
+      arrayPtr
+    );
     // call the function
     const code = spotFit(this.ptr, arrayPtr, data.length);
+    // release heap
+    libspot._free(arrayPtr);
     if (code < 0) {
       throw new Error(libspotError(-code));
     }
-    // release heap
-    libspot._free(arrayPtr);
     return code;
   }
 
-- 
2.43.0


From 4f791a23b0c718864cfc571e0edeb3a7de1325a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:50 +0000
Subject: [PATCH 13/19] fix: a fit that fails on a NaN excess threshold leaves
 no stale thresholds

---
 src/spot.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/spot.c b/src/spot.c
index 3b60d9a..90880d8 100644
--- a/src/spot.c
+++ b/src/spot.c
@@ -92,11 +92,13 @@ int spot_fit(struct Spot *spot, double const *data, unsigned long size) {
     } else {
         et = p2_quantile(spot->level, data, size);
     }
+    spot->excess_threshold = et;
     if (is_nan(et)) {
+        // do not keep the anomaly threshold of a previous fit
+        spot->anomaly_threshold = _NAN;
         return -ERR_EXCESS_THRESHOLD_IS_NAN;
     }
     // here we know that et is not NaN
-    spot->excess_threshold = et;
 
     // fill the tail
     for (unsigned long i = 0; i < size; ++i) {
-- 
2.43.0


From e11f890bc27f2ebe5434e3c49c80d16acedf21d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:50 +0000
Subject: [PATCH 14/19] fix: calling python __init__ again leaked the tail of
 the Spot

---
 python/libspotmodule.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/python/libspotmodule.c b/python/libspotmodule.c
index 0107b58..1b97d56 100644
--- a/python/libspotmodule.c
+++ b/python/libspotmodule.c
@@ -113,14 +113,19 @@ static int Spot_init(Spot *self, PyObject *args, PyObject *kwds) {
         return -1;
 
     // libspot API call
-    int result = spot_init(&(self->_spot), q, low, discard_anomalies, level,
-                           max_excess);
+    struct Spot spot;
+    int result =
+        spot_init(&spot, q, low, discard_anomalies, level, max_excess);
     if (result < 0) {
         char buffer[256];
         libspot_error(-result, buffer, 256);
         PyErr_SetString(PyExc_RuntimeError, buffer);
+        return -1;
     }
-    return result;
+    // release what a previous call to __init__ has allocated
+    spot_free(&(self->_spot));
+    self->_spot = spot;
+    return 0;
 }
 
 PyDoc_STRVAR(Spot_fit_doc,
-- 
2.43.0


From f435619faa1f2c2f0a6aee379587a0f2e81bf9d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:50 +0000
Subject: [PATCH 15/19] fix: python fit/step crashed on a Spot that is not
 initialized

---
 python/libspotmodule.c | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/python/libspotmodule.c b/python/libspotmodule.c
index 1b97d56..86a5231 100644
--- a/python/libspotmodule.c
+++ b/python/libspotmodule.c
@@ -128,12 +128,25 @@ static int Spot_init(Spot *self, PyObject *args, PyObject *kwds) {
     return 0;
 }
 
+// an object whose __init__ has not (successfully) run has nowhere to store
+// its excesses
+static int ensure_initialized(Spot *self) {
+    if (self->_spot.tail.peaks.container.data == NULL) {
+        PyErr_SetString(PyExc_RuntimeError, "the Spot is not initialized");
+        return -1;
+    }
+    return 0;
+}
+
 PyDoc_STRVAR(Spot_fit_doc,
              "fit($self, data)\n--\n\n"
              "Compute the first excess and anomaly thresholds based "
              "on training data");
 
 static PyObject *Spot_fit(Spot *self, PyObject *data) {
+    if (ensure_initialized(self) < 0) {
+        return NULL;
+    }
     PyObject *seq = PySequence_Fast(data, "cannot turn arg into sequence");
     if (seq == NULL) {
         return NULL;
@@ -181,6 +194,9 @@ PyDoc_STRVAR(Spot_step_doc, "step($self, x)\n--\n\n"
                             "Fit-predict step");
 
 static PyObject *Spot_step(Spot *self, PyObject *x) {
+    if (ensure_initialized(self) < 0) {
+        return NULL;
+    }
     double z = PyFloat_AsDouble(x);
     if (PyErr_Occurred()) {
         return NULL;
-- 
2.43.0


From 23fc331d0b0f95ffe1797e19b2d3abf005b32312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:39 +0000
Subject: [PATCH 16/19] fix: the scale of the tail collapsed to zero when the
 excesses are tiny

---
 src/estimator.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/estimator.c b/src/estimator.c
index 700dd2d..2013f8d 100644
--- a/src/estimator.c
+++ b/src/estimator.c
@@ -42,6 +42,9 @@ static double grimshaw_v(double x, struct Peaks const *peaks) {
     return 1.0 + v / Nt_local;
 }
 
+// under this magnitude gamma is considered as null
+static double const GAMMA_PRECISION = 1.0e-12;
+
 static double grimshaw_simplified_log_likelihood(double x_star,
                                                  struct Peaks const *peaks,
                                                  double *gamma,
@@ -52,6 +55,12 @@ static double grimshaw_simplified_log_likelihood(double x_star,
     } else {
         *gamma = grimshaw_v(x_star, peaks) - 1;
         *sigma = *gamma / x_star;
+        if ((*gamma > -GAMMA_PRECISION) && (*gamma < GAMMA_PRECISION)) {
+            // x_star is so small with respect to the peaks that gamma is only
+            // made of rounding errors, so is sigma (it may even be null)
+            *gamma = 0.0;
+            *sigma = peaks_mean(peaks);
+        }
     }
     return log_likelihood(peaks, *gamma, *sigma);
 }
-- 
2.43.0


From 2d0c133835daa2db0701edb1321baaea92e7b7b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:40 +0000
Subject: [PATCH 17/19] fix: python max_excess beyond an unsigned long was
 silently masked

---
 python/libspotmodule.c | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/python/libspotmodule.c b/python/libspotmodule.c
index 86a5231..670fe5d 100644
--- a/python/libspotmodule.c
+++ b/python/libspotmodule.c
@@ -96,6 +96,17 @@ PyDoc_STRVAR(
                                                                      "training"
                                                                      " data");
 
+// converter for PyArg_ParseTupleAndKeywords (the "k" format silently masks the
+// values which do not fit in an unsigned long)
+static int to_unsigned_long(PyObject *object, void *address) {
+    unsigned long value = PyLong_AsUnsignedLong(object);
+    if (PyErr_Occurred()) {
+        return 0;
+    }
+    *(unsigned long *)address = value;
+    return 1;
+}
+
 static int Spot_init(Spot *self, PyObject *args, PyObject *kwds) {
     static char *kwlist[] = {"q",     "low",        "discard_anomalies",
                              "level", "max_excess", NULL};
@@ -108,8 +119,9 @@ static int Spot_init(Spot *self, PyObject *args, PyObject *kwds) {
     double level = SPOT_INIT_LEVEL;
     unsigned long max_excess = SPOT_INIT_MAX_EXCESS;
 
-    if (!PyArg_ParseTupleAndKeywords(args, kwds, "d|$iidk", kwlist, &q, &low,
-                                     &discard_anomalies, &level, &max_excess))
+    if (!PyArg_ParseTupleAndKeywords(args, kwds, "d|$iidO&", kwlist, &q, &low,
+                                     &discard_anomalies, &level,
+                                     to_unsigned_long, &max_excess))
         return -1;
 
     // libspot API call
-- 
2.43.0


From 8a9eb9421cd121ee30aa2ca4bb116bee8fac513b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:44:42 +0000
Subject: [PATCH 18/19] fix: a fit on fewer than five values reported success
 with a null excess threshold

---
 src/p2.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/p2.c b/src/p2.c
index 88e4360..d390206 100644
--- a/src/p2.c
+++ b/src/p2.c
@@ -116,7 +116,8 @@ static double quantile(struct P2 *p2, double const *x, unsigned long size) {
     double qp;
 
     if (size < 5) {
-        return 0.0;
+        // not enough data to initialize the markers: there is no estimate
+        return 0.0 / 0.0;
     }
     // init q with the 5 first values
     for (i = 0; i < 5; i++) {
-- 
2.43.0


From 8b261e9e2ce1da6dcc39819eb2431742288327dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:51:36 +0000
Subject: [PATCH 19/19] fix: look for the Grimshaw roots at the scale of the
 peaks

The bracket stopped at a fixed 2e-8 from zero, where the function is about
1e-16 for peaks around one: its sign was noise and the root (the maximum
likelihood estimate) was missed about half of the time. For large peaks the
same constant was wider than the whole bracket.
---
 src/estimator.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/estimator.c b/src/estimator.c
index 2013f8d..1c85784 100644
--- a/src/estimator.c
+++ b/src/estimator.c
@@ -71,7 +71,11 @@ double grimshaw_estimator(struct Peaks const *peaks, double *gamma,
     double maxi = peaks->max;
     double mean = peaks_mean(peaks);
 
-    double epsilon = xmin(BRENT_DEFAULT_EPSILON, 0.5 / maxi);
+    // the roots are inversely proportional to the scale of the peaks
+    double tol = BRENT_DEFAULT_EPSILON / mean;
+    double border = xmin(tol, 0.5 / maxi);
+    // closer to zero, the sign of grimshaw_w is only made of rounding errors
+    double epsilon = xmin(1.0e-5 / mean, 0.5 / maxi);
     double r;
     double a, b;
 
@@ -83,10 +87,9 @@ double grimshaw_estimator(struct Peaks const *peaks, double *gamma,
     double tmp_gamma, tmp_sigma;
     double llhood, max_llhood;
     // left root -------------------------------------------------------------
-    a = -1.0 / maxi + epsilon;
+    a = -1.0 / maxi + border;
     b = -epsilon;
-    r = brent(&found[left], a, b, grimshaw_w, (void *)peaks,
-              BRENT_DEFAULT_EPSILON);
+    r = brent(&found[left], a, b, grimshaw_w, (void *)peaks, tol);
     if (found[left]) {
         roots[left] = r;
     }
@@ -94,8 +97,7 @@ double grimshaw_estimator(struct Peaks const *peaks, double *gamma,
     // right root -------------------------------------------------------------
     a = epsilon;
     b = 2.0 * (mean - mini) / (mini * mini);
-    r = brent(&found[right], a, b, grimshaw_w, (void *)peaks,
-              BRENT_DEFAULT_EPSILON);
+    r = brent(&found[right], a, b, grimshaw_w, (void *)peaks, tol);
     if (found[right]) {
         roots[right] = r;
     }
-- 
2.43.0

