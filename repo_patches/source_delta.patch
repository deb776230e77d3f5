From 9fe12e897925e5f473786bc66d9680cd73661097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:51 +0000
Subject: [PATCH 01/50] fix: Bcast_from_root must broadcast from the requested
 root, not from rank 0

---
 src/pyuoi/mpi_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyuoi/mpi_utils.py b/src/pyuoi/mpi_utils.py
index 4c3f3e9..471c81f 100644
--- a/src/pyuoi/mpi_utils.py
+++ b/src/pyuoi/mpi_utils.py
@@ -112,7 +112,7 @@ def Bcast_from_root(send, comm=None, root=0):
     if comm is None:
         comm = MPI.COMM_WORLD
     rank = comm.rank
-    if rank == 0:
+    if rank == root:
         dtype = send.dtype
         shape = send.shape
     else:
@@ -120,7 +120,7 @@ def Bcast_from_root(send, comm=None, root=0):
         shape = None
     shape = comm.bcast(shape, root=root)
     dtype = comm.bcast(dtype, root=root)
-    if rank != 0:
+    if rank != root:
         send = np.empty(shape, dtype=dtype)
     comm.Bcast([send, _np2mpi[np.dtype(dtype)]], root=root)
     return send
-- 
2.43.0


From 076819b7211b30b48d91023c42649b2522c4dbdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:51 +0000
Subject: [PATCH 02/50] fix: Gatherv_rows counts must be integers, also for 1-d
 arrays

np.prod(()) is a float, which mpi4py rejects on the root, so every
distributed fit failed when its scores were gathered.
---
 src/pyuoi/mpi_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pyuoi/mpi_utils.py b/src/pyuoi/mpi_utils.py
index 471c81f..3e09762 100644
--- a/src/pyuoi/mpi_utils.py
+++ b/src/pyuoi/mpi_utils.py
@@ -160,7 +160,8 @@ def Gatherv_rows(send, comm=None, root=0):
     if rank == root:
         rec_shape = (tot[0],) + shape[1:]
         rec = np.empty(rec_shape, dtype=dtype)
-        sizes = [size * np.prod(rec_shape[1:]) for size in rank_sizes]
+        sizes = [size * np.prod(rec_shape[1:], dtype=int)
+                 for size in rank_sizes]
         disps = np.insert(np.cumsum(sizes), 0, 0)[:-1]
     else:
         rec = None
-- 
2.43.0


From d75505d4dab124d29643469eae212325e600c934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:51 +0000
Subject: [PATCH 03/50] fix: Gatherv_rows must gather onto the requested root

---
 src/pyuoi/mpi_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyuoi/mpi_utils.py b/src/pyuoi/mpi_utils.py
index 3e09762..84ad2f8 100644
--- a/src/pyuoi/mpi_utils.py
+++ b/src/pyuoi/mpi_utils.py
@@ -168,5 +168,5 @@ def Gatherv_rows(send, comm=None, root=0):
         sizes = None
         disps = None
 
-    comm.Gatherv(send, [rec, sizes, disps, _np2mpi[dtype]], root=0)
+    comm.Gatherv(send, [rec, sizes, disps, _np2mpi[dtype]], root=root)
     return rec
-- 
2.43.0


From 691dea375838bdbb07738cadca1d98a2a8eb2e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:51 +0000
Subject: [PATCH 04/50] fix: load_data_MPI must report a failed load on every
 rank

Only the root raised; the other ranks waited in bcast forever.
---
 src/pyuoi/mpi_utils.py | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/pyuoi/mpi_utils.py b/src/pyuoi/mpi_utils.py
index 84ad2f8..0212ea0 100644
--- a/src/pyuoi/mpi_utils.py
+++ b/src/pyuoi/mpi_utils.py
@@ -69,14 +69,25 @@ def load_data_MPI(h5_name, X_key='X', y_key='y', comm=None, root=0):
     Xdtype = None
     yshape = None
     ydtype = None
+    error = None
     if rank == root:
-        with h5py.File(h5_name, 'r') as f:
-            X = f[X_key][()]
-            Xshape = X.shape
-            Xdtype = X.dtype
-            y = f[y_key][()]
-            yshape = y.shape
-            ydtype = y.dtype
+        try:
+            with h5py.File(h5_name, 'r') as f:
+                X = f[X_key][()]
+                Xshape = X.shape
+                Xdtype = X.dtype
+                y = f[y_key][()]
+                yshape = y.shape
+                ydtype = y.dtype
+        except Exception as e:
+            error = e
+    # the other ranks must learn of a failed load, or they wait forever
+    failed = comm.bcast(None if error is None else repr(error), root=root)
+    if error is not None:
+        raise error
+    if failed is not None:
+        raise RuntimeError('Rank %d could not load the data: %s'
+                           % (root, failed))
     Xshape = comm.bcast(Xshape, root=root)
     Xdtype = comm.bcast(Xdtype, root=root)
     yshape = comm.bcast(yshape, root=root)
-- 
2.43.0


From 01ebfeeb53b1f0c4c025b8b00968e97cba95b246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:10 +0000
Subject: [PATCH 05/50] fix: drop the solver's previous solution at each
 bootstrap instead of scaling it by 0

A fit on data with another number of features was warm started from a
solution of the wrong shape (an error, or out of bounds writes), and an
infinite or NaN solution stayed NaN.
---
 src/pyuoi/linear_model/base.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/pyuoi/linear_model/base.py b/src/pyuoi/linear_model/base.py
index ca93d16..53492ad 100644
--- a/src/pyuoi/linear_model/base.py
+++ b/src/pyuoi/linear_model/base.py
@@ -277,10 +277,9 @@ class AbstractUoILinearModel(SparseCoefMixin, metaclass=_abc.ABCMeta):
                 my_reg_params = self.reg_params_
             # Never warm start across bootstraps
             if (curr_boot_idx != boot_idx):
-                if hasattr(self._selection_lm, 'coef_'):
-                    self._selection_lm.coef_ *= 0.
-                if hasattr(self._selection_lm, 'intercept_'):
-                    self._selection_lm.intercept_ *= 0.
+                for attr in ('coef_', 'intercept_'):
+                    if hasattr(self._selection_lm, attr):
+                        delattr(self._selection_lm, attr)
             curr_boot_idx = boot_idx
 
             # draw a resampled bootstrap
-- 
2.43.0


From 8ee1ac64f0431e5e6ec43190447503078b741459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:29 +0000
Subject: [PATCH 06/50] fix: recompute the regularization path on every fit

UoI_ElasticNet, UoI_Poisson and UoI_L1Logistic kept the path of their
first fit, so a refit on other data used the old data's penalties.
---
 src/pyuoi/linear_model/elasticnet.py | 21 +++++++-------
 src/pyuoi/linear_model/logistic.py   | 41 ++++++++++++++--------------
 src/pyuoi/linear_model/poisson.py    | 25 ++++++++---------
 3 files changed, 42 insertions(+), 45 deletions(-)

diff --git a/src/pyuoi/linear_model/elasticnet.py b/src/pyuoi/linear_model/elasticnet.py
index 1d3eed1..9b9d838 100644
--- a/src/pyuoi/linear_model/elasticnet.py
+++ b/src/pyuoi/linear_model/elasticnet.py
@@ -160,17 +160,16 @@ class UoI_ElasticNet(AbstractUoILinearRegressor, LinearRegression):
             alpha->l1_ratio). This allows easy passing into the ElasticNet
             object.
         """
-        if self.lambdas is None:
-            self.lambdas = np.zeros((self.n_alphas, self.n_lambdas))
-            # a set of lambdas are generated for each alpha value (l1_ratio in
-            # sci-kit learn parlance)
-            for alpha_idx, alpha in enumerate(self.alphas):
-                self.lambdas[alpha_idx, :] = _alpha_grid(
-                    X=X, y=y,
-                    l1_ratio=alpha,
-                    fit_intercept=self.fit_intercept,
-                    eps=self.eps,
-                    n_alphas=self.n_lambdas)
+        self.lambdas = np.zeros((self.n_alphas, self.n_lambdas))
+        # a set of lambdas are generated for each alpha value (l1_ratio in
+        # sci-kit learn parlance)
+        for alpha_idx, alpha in enumerate(self.alphas):
+            self.lambdas[alpha_idx, :] = _alpha_grid(
+                X=X, y=y,
+                l1_ratio=alpha,
+                fit_intercept=self.fit_intercept,
+                eps=self.eps,
+                n_alphas=self.n_lambdas)
 
         # place the regularization parameters into a list of dictionaries
         reg_params = list()
diff --git a/src/pyuoi/linear_model/logistic.py b/src/pyuoi/linear_model/logistic.py
index f3b1da7..b0db14e 100644
--- a/src/pyuoi/linear_model/logistic.py
+++ b/src/pyuoi/linear_model/logistic.py
@@ -152,27 +152,26 @@ class UoI_L1Logistic(AbstractUoIGeneralizedLinearRegressor, LogisticRegression):
 
     def get_reg_params(self, X, y):
         input_dim = X.shape[1]
-        if self.Cs is None:
-            if self.output_dim == 1:
-                w = np.zeros(input_dim)
-                if self.fit_intercept:
-                    intercept = LogisticInterceptFitterNoFeatures(
-                        y, 1).intercept_
-                    w = np.concatenate([w, np.atleast_1d(intercept)])
-                _, grad = _logistic_loss_and_grad(w, X, y, 0., None)
-            else:
-                w = np.zeros((self.output_dim, input_dim))
-                yp = OneHotEncoder(categories=[range(self.output_dim)],
-                                   sparse=False).fit_transform(y[:, np.newaxis])
-                if self.fit_intercept:
-                    intercept = LogisticInterceptFitterNoFeatures(
-                        y, self.output_dim).intercept_
-                    w = np.concatenate([w, intercept[:, np.newaxis]], axis=1)
-                _, grad, _ = _multinomial_loss_grad(w, X, yp, 0., None,
-                                                    np.ones(X.shape[0]))
-            alpha_max = abs(grad[:-1]).max()
-            logC = -np.log10(alpha_max)
-            self.Cs = np.logspace(logC, logC - np.log10(self.eps), self.n_C)
+        if self.output_dim == 1:
+            w = np.zeros(input_dim)
+            if self.fit_intercept:
+                intercept = LogisticInterceptFitterNoFeatures(
+                    y, 1).intercept_
+                w = np.concatenate([w, np.atleast_1d(intercept)])
+            _, grad = _logistic_loss_and_grad(w, X, y, 0., None)
+        else:
+            w = np.zeros((self.output_dim, input_dim))
+            yp = OneHotEncoder(categories=[range(self.output_dim)],
+                               sparse=False).fit_transform(y[:, np.newaxis])
+            if self.fit_intercept:
+                intercept = LogisticInterceptFitterNoFeatures(
+                    y, self.output_dim).intercept_
+                w = np.concatenate([w, intercept[:, np.newaxis]], axis=1)
+            _, grad, _ = _multinomial_loss_grad(w, X, yp, 0., None,
+                                                np.ones(X.shape[0]))
+        alpha_max = abs(grad[:-1]).max()
+        logC = -np.log10(alpha_max)
+        self.Cs = np.logspace(logC, logC - np.log10(self.eps), self.n_C)
         ret = list()
         for c in self.Cs:
             ret.append(dict(C=c))
diff --git a/src/pyuoi/linear_model/poisson.py b/src/pyuoi/linear_model/poisson.py
index 3fa3103..de7c3a4 100644
--- a/src/pyuoi/linear_model/poisson.py
+++ b/src/pyuoi/linear_model/poisson.py
@@ -524,19 +524,18 @@ class UoI_Poisson(AbstractUoIGeneralizedLinearRegressor, Poisson):
             object.
         """
         n_samples = X.shape[0]
-        if self.lambdas is None:
-            self.lambdas = np.zeros((self.n_alphas, self.n_lambdas))
-            # a set of lambdas are generated for each alpha value (l1_ratio in
-            # sci-kit learn parlance)
-            for alpha_idx, alpha in enumerate(self.alphas):
-                # calculate upper bound for lambda sweep
-                ybar = y.mean()
-                lambda_max = np.max(np.abs(np.dot(X.T, y - ybar)))
-                lambda_max /= n_samples * alpha
-                self.lambdas[alpha_idx, :] = np.logspace(
-                    start=np.log10(lambda_max),
-                    stop=np.log10(self.eps * lambda_max),
-                    num=self.n_lambdas)
+        self.lambdas = np.zeros((self.n_alphas, self.n_lambdas))
+        # a set of lambdas are generated for each alpha value (l1_ratio in
+        # sci-kit learn parlance)
+        for alpha_idx, alpha in enumerate(self.alphas):
+            # calculate upper bound for lambda sweep
+            ybar = y.mean()
+            lambda_max = np.max(np.abs(np.dot(X.T, y - ybar)))
+            lambda_max /= n_samples * alpha
+            self.lambdas[alpha_idx, :] = np.logspace(
+                start=np.log10(lambda_max),
+                stop=np.log10(self.eps * lambda_max),
+                num=self.n_lambdas)
 
         # place the regularization parameters into a list of dictionaries
         reg_params = list()
-- 
2.43.0


From 5b091fc5d4f2648f910ea108e08fe177656a01bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:03 +0000
Subject: [PATCH 07/50] fix: check_logger must not add a handler to a shared
 logger on every call

Each model constructed made every later message print once more.
---
 src/pyuoi/utils.py | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/src/pyuoi/utils.py b/src/pyuoi/utils.py
index 1b3709d..e005171 100755
--- a/src/pyuoi/utils.py
+++ b/src/pyuoi/utils.py
@@ -1,6 +1,7 @@
 import numpy as np
 import sys
 import logging
+import threading
 
 
 def softmax(y, axis=-1):
@@ -137,6 +138,20 @@ def AICc(ll, n_features, n_samples):
     return AICc
 
 
+_logger_lock = threading.Lock()
+
+
+class _StdoutHandler(logging.StreamHandler):
+    """The handler of the default loggers: writes to the current sys.stdout."""
+
+    def __init__(self):
+        logging.Handler.__init__(self)
+
+    @property
+    def stream(self):
+        return sys.stdout
+
+
 def check_logger(logger, name='uoi', comm=None):
     ret = logger
     if ret is None:
@@ -145,10 +160,15 @@ def check_logger(logger, name='uoi', comm=None):
             name += " " + str(r).rjust(int(np.log10(s)) + 1)
 
         ret = logging.getLogger(name=name)
-        handler = logging.StreamHandler(sys.stdout)
 
         fmt = '%(asctime)s - %(name)s - %(levelname)s - %(message)s'
 
-        handler.setFormatter(logging.Formatter(fmt))
-        ret.addHandler(handler)
+        # loggers are shared by name: a second handler would print every
+        # message once more
+        with _logger_lock:
+            if not any(isinstance(handler, _StdoutHandler)
+                       for handler in ret.handlers):
+                handler = _StdoutHandler()
+                handler.setFormatter(logging.Formatter(fmt))
+                ret.addHandler(handler)
     return ret
-- 
2.43.0


From d652cc6fbaa0702b16a315902969ea5d3d1d0dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:03 +0000
Subject: [PATCH 08/50] fix: load_swimmer must open the packaged data read-only

---
 src/pyuoi/datasets/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyuoi/datasets/__init__.py b/src/pyuoi/datasets/__init__.py
index d13394e..0c42f97 100644
--- a/src/pyuoi/datasets/__init__.py
+++ b/src/pyuoi/datasets/__init__.py
@@ -7,7 +7,7 @@ from ..utils import softmax, sigmoid
 def load_swimmer(flatten=True):
     from pkg_resources import resource_filename
     import h5py
-    with h5py.File(resource_filename('pyuoi', 'data/Swimmer.h5'), 'r+') as f:
+    with h5py.File(resource_filename('pyuoi', 'data/Swimmer.h5'), 'r') as f:
         swimmers = f['Y'][:].astype(float)
     if flatten:
         swimmers = swimmers.T.reshape(256, 1024)
-- 
2.43.0


From 6650657158f7d72e94a4c01e94172e50daf69d8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:03 +0000
Subject: [PATCH 09/50] fix: errors and cancellation in LBFGS callbacks must
 reach the caller

An exception raised by the objective or by progress was printed and
ignored, and the start point came back as if it were the minimum; a
nonzero value returned by progress was looked up as a status code
(KeyError, or even success) instead of raising LBFGSError.
---
 src/pyuoi/lbfgs/_lowlevel.pyx | 51 ++++++++++++++++++++++++++---------
 1 file changed, 39 insertions(+), 12 deletions(-)

diff --git a/src/pyuoi/lbfgs/_lowlevel.pyx b/src/pyuoi/lbfgs/_lowlevel.pyx
index 7afad38..1fc794b 100644
--- a/src/pyuoi/lbfgs/_lowlevel.pyx
+++ b/src/pyuoi/lbfgs/_lowlevel.pyx
@@ -113,12 +113,25 @@ cdef lbfgsfloatval_t call_eval(void *cb_data_v,
     cdef np.npy_intp tshape[1]
 
     callback_data = <object>cb_data_v
-    (f, progress_fn, shape, args) = callback_data
-    tshape[0] = <np.npy_intp>n
-    x_array = np.PyArray_SimpleNewFromData(1, tshape, np.NPY_DOUBLE, <void *>x)
-    g_array = np.PyArray_SimpleNewFromData(1, tshape, np.NPY_DOUBLE, <void *>g)
+    (f, progress_fn, shape, args, errors) = callback_data
 
-    return f(x_array.reshape(shape), g_array.reshape(shape), *args)
+    if not errors:
+        try:
+            tshape[0] = <np.npy_intp>n
+            x_array = np.PyArray_SimpleNewFromData(1, tshape, np.NPY_DOUBLE,
+                                                   <void *>x)
+            g_array = np.PyArray_SimpleNewFromData(1, tshape, np.NPY_DOUBLE,
+                                                   <void *>g)
+
+            return f(x_array.reshape(shape), g_array.reshape(shape), *args)
+        except BaseException as error:
+            errors.append(error)
+
+    # There is no way to abandon an evaluation: end the line search at once,
+    # so that call_progress can cancel the minimization.
+    for i in range(n):
+        g[i] = 0.
+    return -float('inf')
 
 
 # Callback into Python progress reporting callable.
@@ -131,9 +144,15 @@ cdef int call_progress(void *cb_data_v,
     cdef np.npy_intp tshape[1]
 
     callback_data = <object>cb_data_v
-    (f, progress_fn, shape, args) = callback_data
+    (f, progress_fn, shape, args, errors) = callback_data
 
-    if progress_fn:
+    if errors:
+        return LBFGSERR_CANCELED
+
+    if progress_fn is None:
+        return 0
+
+    try:
         tshape[0] = <np.npy_intp>n
         x_array = np.PyArray_SimpleNewFromData(1, tshape, np.NPY_DOUBLE,
                                                <void *>x)
@@ -142,10 +161,13 @@ cdef int call_progress(void *cb_data_v,
 
         r = progress_fn(x_array.reshape(shape), g_array.reshape(shape), fx,
                         xnorm, gnorm, step, k, ls, *args)
-        # TODO what happens when the callback returns the wrong type?
-        return 0 if r is None else r
-    else:
-        return 0
+
+        if r is None or r == 0:
+            return 0
+        return LBFGS_ALLZERO if r == LBFGS_ALLZERO else LBFGSERR_CANCELED
+    except BaseException as error:
+        errors.append(error)
+        return LBFGSERR_CANCELED
 
 
 # Copy an ndarray to a buffer allocated with lbfgs_malloc; needed to get the
@@ -396,10 +418,15 @@ cdef class LBFGS(object):
         x_a = aligned_copy(x0.ravel())
 
         try:
-            callback_data = (f, progress, x0.shape, args)
+            # exceptions raised by the callbacks
+            errors = []
+            callback_data = (f, progress, x0.shape, args, errors)
             r = lbfgs(n, x_a, fx_final, call_eval,
                       call_progress, <void *>callback_data, &self.params)
 
+            if errors:
+                raise errors[0]
+
             if r == LBFGS_SUCCESS or r == LBFGS_ALREADY_MINIMIZED:
 
                 x_array = np.PyArray_SimpleNewFromData(1, tshape, np.NPY_DOUBLE,
-- 
2.43.0


From a4c432f98641fcdfae9440676603c7be5534b5d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:03 +0000
Subject: [PATCH 10/50] fix: LBFGS stopping by the delta criterion is a
 success, not a KeyError

---
 src/pyuoi/lbfgs/_lowlevel.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyuoi/lbfgs/_lowlevel.pyx b/src/pyuoi/lbfgs/_lowlevel.pyx
index 1fc794b..3662216 100644
--- a/src/pyuoi/lbfgs/_lowlevel.pyx
+++ b/src/pyuoi/lbfgs/_lowlevel.pyx
@@ -427,7 +427,7 @@ cdef class LBFGS(object):
             if errors:
                 raise errors[0]
 
-            if r == LBFGS_SUCCESS or r == LBFGS_ALREADY_MINIMIZED:
+            if r in (LBFGS_SUCCESS, LBFGS_STOP, LBFGS_ALREADY_MINIMIZED):
 
                 x_array = np.PyArray_SimpleNewFromData(1, tshape, np.NPY_DOUBLE,
                                                        <void *>x_a).copy()
-- 
2.43.0


From 81e0e269ad1dbdcbf699787d979afbb93a9a32ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:03 +0000
Subject: [PATCH 11/50] fix: free the copy of x0 when it cannot be converted

---
 src/pyuoi/lbfgs/_lowlevel.pyx | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/pyuoi/lbfgs/_lowlevel.pyx b/src/pyuoi/lbfgs/_lowlevel.pyx
index 3662216..6c3b1c6 100644
--- a/src/pyuoi/lbfgs/_lowlevel.pyx
+++ b/src/pyuoi/lbfgs/_lowlevel.pyx
@@ -177,8 +177,12 @@ cdef lbfgsfloatval_t *aligned_copy(x) except NULL:
     x_copy = lbfgs_malloc(n)
     if x_copy is NULL:
         raise MemoryError
-    for i in xrange(n):
-        x_copy[i] = x[i]
+    try:
+        for i in xrange(n):
+            x_copy[i] = x[i]
+    except BaseException:
+        lbfgs_free(x_copy)
+        raise
     return x_copy
 
 
-- 
2.43.0


From ccc1160a6d8262fba94ebc02111d17067d99dd88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:03 +0000
Subject: [PATCH 12/50] fix: report a failed allocation of the objective
 history as out of memory

The delta stopping criterion was silently dropped instead.
---
 liblbfgs/lbfgs.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/liblbfgs/lbfgs.c b/liblbfgs/lbfgs.c
index 7c29728..1499a06 100644
--- a/liblbfgs/lbfgs.c
+++ b/liblbfgs/lbfgs.c
@@ -406,6 +406,10 @@ int lbfgs(
     /* Allocate an array for storing previous values of the objective function. */
     if (0 < param.past) {
         pf = (lbfgsfloatval_t*)vecalloc(param.past * sizeof(lbfgsfloatval_t));
+        if (pf == NULL) {
+            ret = LBFGSERR_OUTOFMEMORY;
+            goto lbfgs_exit;
+        }
     }
 
     /* Evaluate the function value and its gradient. */
-- 
2.43.0


From ea04b346e581ac40494d1f85b7f14262db82fc06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:03 +0000
Subject: [PATCH 13/50] fix: the backtracking line search must not accept a NaN
 objective

---
 liblbfgs/lbfgs.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/liblbfgs/lbfgs.c b/liblbfgs/lbfgs.c
index 1499a06..a40de1e 100644
--- a/liblbfgs/lbfgs.c
+++ b/liblbfgs/lbfgs.c
@@ -691,7 +691,8 @@ static int line_search_backtracking(
 
         ++count;
 
-        if (*f > finit + *stp * dgtest) {
+        if (!(*f <= finit + *stp * dgtest)) {
+            /* Also when the objective is not a number. */
             width = dec;
         } else {
             /* The sufficient decrease condition (Armijo condition). */
-- 
2.43.0


From 22137b979b64753ef6bc5d96a10a00bffd965972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:03 +0000
Subject: [PATCH 14/50] fix: intersection must keep a single support
 two-dimensional

---
 src/pyuoi/linear_model/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyuoi/linear_model/utils.py b/src/pyuoi/linear_model/utils.py
index 6b26a16..9fd0ce2 100644
--- a/src/pyuoi/linear_model/utils.py
+++ b/src/pyuoi/linear_model/utils.py
@@ -135,10 +135,10 @@ def intersection(coefs, selection_thresholds=None):
 
     # unravel the dimension corresponding to selection thresholds
 
-    supports = np.squeeze(np.reshape(
+    supports = np.reshape(
         supports,
         (n_selection_thresholds * n_reg_params, n_features)
-    ))
+    )
 
     supports = np.unique(supports, axis=0)
 
-- 
2.43.0


From ec54fa157b53e2413c33f139b700200f2b410f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:17 +0000
Subject: [PATCH 15/50] fix: column_select must use the random_state it is
 given

A seeded CUR or UoI_CUR selected different columns on every run.
---
 src/pyuoi/decomposition/utils.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/pyuoi/decomposition/utils.py b/src/pyuoi/decomposition/utils.py
index 70a44f5..8166134 100644
--- a/src/pyuoi/decomposition/utils.py
+++ b/src/pyuoi/decomposition/utils.py
@@ -1,5 +1,7 @@
 import numpy as np
 
+from sklearn.utils import check_random_state
+
 
 def column_select(V, c, leverage_sort=False, random_state=None):
     """Chooses column indices from a matrix given its SVD.
@@ -16,6 +18,9 @@ def column_select(V, c, leverage_sort=False, random_state=None):
         If True, resorts the column indices in increasing order of leverage
         score. If False, the column indices are sorted normally.
 
+    random_state : int, RandomState instance, or None
+        The random state that decides which columns are selected.
+
     Returns
     -------
     column_indices : ndarray of ints
@@ -24,7 +29,7 @@ def column_select(V, c, leverage_sort=False, random_state=None):
         score.
     """
     # random state
-    rng = np.random.RandomState(seed=None)
+    rng = check_random_state(random_state)
 
     # extract number of samples and rank
     n_features, k = V.shape
-- 
2.43.0


From 322f13b0861a61a8caba433fd6c779fabafc2493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:04 +0000
Subject: [PATCH 16/50] fix: UoI_CUR with an int seed must not repeat the same
 bootstrap n_boots times

---
 src/pyuoi/decomposition/CUR.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/pyuoi/decomposition/CUR.py b/src/pyuoi/decomposition/CUR.py
index 7b017b6..c1f9418 100644
--- a/src/pyuoi/decomposition/CUR.py
+++ b/src/pyuoi/decomposition/CUR.py
@@ -4,7 +4,7 @@ from .base import AbstractDecompositionModel
 
 from sklearn.decomposition import TruncatedSVD
 from sklearn.model_selection import train_test_split
-from sklearn.utils import check_array
+from sklearn.utils import check_array, check_random_state
 from sklearn.utils.validation import check_is_fitted
 
 from .utils import column_select, stability_selection_to_threshold
@@ -98,12 +98,17 @@ class UoI_CUR(AbstractDecompositionModel):
         # keep track of which columns are chosen
         columns = np.zeros((n_ks, self.n_boots, n_features), dtype='int')
 
+        # every bootstrap continues these streams: an int seed must not make
+        # all bootstraps the same
+        boot_rng = check_random_state(self.random_state)
+        column_rng = check_random_state(self.random_state)
+
         # truncated SVD fitter object
         tsvd = TruncatedSVD(n_components=self.max_k,
                             algorithm=self.algorithm,
                             n_iter=self.n_iter,
                             tol=self.tol,
-                            random_state=self.random_state)
+                            random_state=boot_rng)
 
         # iterate over bootstraps
         for bootstrap in range(self.n_boots):
@@ -113,7 +118,7 @@ class UoI_CUR(AbstractDecompositionModel):
             else:
                 X_train, _ = train_test_split(X, test_size=1 - self.boots_frac,
                                               stratify=stratify,
-                                              random_state=self.random_state)
+                                              random_state=boot_rng)
             # perform truncated SVD on bootstrap
             tsvd.fit(X_train)
             # extract right singular vectors
@@ -124,7 +129,7 @@ class UoI_CUR(AbstractDecompositionModel):
                 c = cs[k_idx]
 
                 column_indices = column_select(V[:, :k], c=c,
-                                               random_state=self.random_state)
+                                               random_state=column_rng)
                 # convert column flags to set
                 columns[k_idx, bootstrap][column_indices] += 1
 
-- 
2.43.0


From 55ea5ce3861bb50dce0a2028caa06729da971bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:04 +0000
Subject: [PATCH 17/50] fix: a NumPy integer seed must seed one random stream,
 like an int

Linear models resampled the same bootstrap every time, NMF failed.
---
 src/pyuoi/decomposition/NMF.py | 3 ++-
 src/pyuoi/linear_model/base.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pyuoi/decomposition/NMF.py b/src/pyuoi/decomposition/NMF.py
index 52e105a..6ad26dd 100644
--- a/src/pyuoi/decomposition/NMF.py
+++ b/src/pyuoi/decomposition/NMF.py
@@ -1,3 +1,4 @@
+import numbers
 import scipy.optimize as spo
 import numpy as np
 import logging
@@ -143,7 +144,7 @@ class UoI_NMF_Base(AbstractDecompositionModel):
         if random_state is None:
             self._rand = np.random.RandomState()
         else:
-            if isinstance(random_state, int):
+            if isinstance(random_state, numbers.Integral):
                 self._rand = np.random.RandomState(random_state)
             elif isinstance(random_state, np.random.RandomState):
                 self._rand = random_state
diff --git a/src/pyuoi/linear_model/base.py b/src/pyuoi/linear_model/base.py
index 53492ad..b15eb97 100644
--- a/src/pyuoi/linear_model/base.py
+++ b/src/pyuoi/linear_model/base.py
@@ -1,4 +1,5 @@
 import abc as _abc
+import numbers
 import numpy as np
 import logging
 from sklearn.linear_model._base import SparseCoefMixin
@@ -102,7 +103,7 @@ class AbstractUoILinearModel(SparseCoefMixin, metaclass=_abc.ABCMeta):
         self.tol = tol
         self.comm = comm
         # preprocessing
-        if isinstance(random_state, int):
+        if isinstance(random_state, numbers.Integral):
             # make sure ranks use different seed
             if self.comm is not None:
                 random_state += self.comm.rank
-- 
2.43.0


From f7d40234ac8a8fe11df9efc6b02f266f9f2c9060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:56 +0000
Subject: [PATCH 18/50] fix: a RandomState instance must give the same fit on
 any number of ranks

---
 src/pyuoi/linear_model/elasticnet.py | 4 +++-
 src/pyuoi/linear_model/lasso.py      | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/pyuoi/linear_model/elasticnet.py b/src/pyuoi/linear_model/elasticnet.py
index 9b9d838..339db8f 100644
--- a/src/pyuoi/linear_model/elasticnet.py
+++ b/src/pyuoi/linear_model/elasticnet.py
@@ -125,7 +125,9 @@ class UoI_ElasticNet(AbstractUoILinearRegressor, LinearRegression):
             tol=tol,
             copy_X=copy_X,
             warm_start=warm_start,
-            random_state=random_state)
+            # cyclic coordinate descent draws a seed it does not use: not
+            # from the random state of the bootstraps
+            random_state=0)
         self._estimation_lm = LinearRegression(fit_intercept=fit_intercept)
 
     def get_reg_params(self, X, y):
diff --git a/src/pyuoi/linear_model/lasso.py b/src/pyuoi/linear_model/lasso.py
index 2bc148e..fd6729d 100644
--- a/src/pyuoi/linear_model/lasso.py
+++ b/src/pyuoi/linear_model/lasso.py
@@ -232,7 +232,9 @@ class UoI_Lasso(AbstractUoILinearRegressor, LinearRegression):
                 max_iter=max_iter,
                 tol=tol,
                 warm_start=warm_start,
-                random_state=random_state,
+                # cyclic coordinate descent draws a seed it does not use: not
+                # from the random state of the bootstraps
+                random_state=0,
                 fit_intercept=fit_intercept)
         elif solver == 'pyc':
             if pycasso is None:
-- 
2.43.0


From 65c294d87412df8300e1f14446053ae401e75931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:43 +0000
Subject: [PATCH 19/50] fix: make_classification must accept a NumPy integer
 seed

---
 src/pyuoi/datasets/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pyuoi/datasets/__init__.py b/src/pyuoi/datasets/__init__.py
index 0c42f97..d4aef87 100644
--- a/src/pyuoi/datasets/__init__.py
+++ b/src/pyuoi/datasets/__init__.py
@@ -1,3 +1,4 @@
+import numbers
 import numpy as np
 from sklearn.utils import check_random_state
 
@@ -123,7 +124,7 @@ def make_classification(n_samples=100, n_features=20, n_informative=2,
         If true, includes an intercept in the model, if False, the intercept is
         set to 0.
     """
-    if isinstance(random_state, int):
+    if isinstance(random_state, numbers.Integral):
         rng = np.random.RandomState(random_state)
     else:
         if random_state is None:
-- 
2.43.0


From 8d9513fafe11a6390e16b00ee87834ba7d5721e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:54 +0000
Subject: [PATCH 20/50] fix: a COO matrix must be fitted, rows of it cannot be
 taken

---
 src/pyuoi/linear_model/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyuoi/linear_model/base.py b/src/pyuoi/linear_model/base.py
index b15eb97..af9cd1a 100644
--- a/src/pyuoi/linear_model/base.py
+++ b/src/pyuoi/linear_model/base.py
@@ -204,7 +204,7 @@ class AbstractUoILinearModel(SparseCoefMixin, metaclass=_abc.ABCMeta):
 
         X, y = self._pre_fit(X, y)
 
-        X, y = check_X_y(X, y, accept_sparse=['csr', 'csc', 'coo'],
+        X, y = check_X_y(X, y, accept_sparse=['csr', 'csc'],
                          y_numeric=True, multi_output=True)
 
         # extract model dimensions
-- 
2.43.0


From d027f24fd4db948cc50c530f031a5154571831e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:55 +0000
Subject: [PATCH 21/50] fix: the intercept of a fit to sparse data must be an
 array like any other

---
 src/pyuoi/linear_model/base.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pyuoi/linear_model/base.py b/src/pyuoi/linear_model/base.py
index af9cd1a..8dcc6ec 100644
--- a/src/pyuoi/linear_model/base.py
+++ b/src/pyuoi/linear_model/base.py
@@ -651,8 +651,9 @@ class AbstractUoILinearRegressor(AbstractUoILinearModel,
     def _fit_intercept(self, X, y):
         """Fit the intercept."""
         if self.fit_intercept:
-            self.intercept_ = (y.mean(axis=0) -
-                               np.dot(X.mean(axis=0), self.coef_.T))
+            # the mean of a sparse matrix is a matrix
+            X_mean = np.asarray(X.mean(axis=0)).ravel()
+            self.intercept_ = y.mean(axis=0) - np.dot(X_mean, self.coef_.T)
         else:
             self.intercept_ = np.zeros(1)
 
-- 
2.43.0


From 9c64f3ac3b0f2b7542952834c75ec5c8d57e3158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:55 +0000
Subject: [PATCH 22/50] fix: likelihood scores of a classifier must not depend
 on the labels of the classes

---
 src/pyuoi/linear_model/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pyuoi/linear_model/base.py b/src/pyuoi/linear_model/base.py
index 8dcc6ec..b5307ca 100644
--- a/src/pyuoi/linear_model/base.py
+++ b/src/pyuoi/linear_model/base.py
@@ -787,7 +787,8 @@ class AbstractUoIGeneralizedLinearRegressor(AbstractUoILinearModel,
                 y_pred = fitter.predict_proba(X[:, support])
             else:
                 y_pred = fitter.predict_proba(X)
-            ll = -log_loss(y, y_pred, labels=self.classes_)
+            # y holds the indices of the classes
+            ll = -log_loss(y, y_pred, labels=np.arange(self.classes_.size))
             if metric == 'log':
                 score = ll
             else:
-- 
2.43.0


From 2454e04021f3dec1252e972f4093fb624f2bb29b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:28 +0000
Subject: [PATCH 23/50] fix: a UoI_NMF must be picklable, keep lambdas out of
 its attributes

---
 src/pyuoi/decomposition/NMF.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/pyuoi/decomposition/NMF.py b/src/pyuoi/decomposition/NMF.py
index 6ad26dd..25c283f 100644
--- a/src/pyuoi/decomposition/NMF.py
+++ b/src/pyuoi/decomposition/NMF.py
@@ -8,6 +8,7 @@ from .utils import dissimilarity
 
 from ..utils import check_logger
 
+from functools import partial
 from itertools import combinations
 from sklearn.base import BaseEstimator
 from sklearn.decomposition import NMF as skNMF
@@ -17,6 +18,18 @@ from sklearn.utils.validation import check_non_negative
 from sklearn.utils.validation import check_is_fitted
 
 
+# functions of the module, not of an instance: an instance can be pickled
+
+def _nnls(A, b):
+    """Non-negative least squares."""
+    return spo.nnls(A, b)[0]
+
+
+def _fit_coef(nnreg, A, b):
+    """Coefficients of a regression with a scikit-learn estimator."""
+    return nnreg.fit(A, b).coef_
+
+
 class UoI_NMF_Base(AbstractDecompositionModel):
     """Performs non-negative matrix factorization in the Union of Intersections
     framework.
@@ -124,10 +137,10 @@ class UoI_NMF_Base(AbstractDecompositionModel):
 
         # initialize non-negative regression solver
         if nnreg is None:
-            self.nnreg = lambda A, b: spo.nnls(A, b)[0]
+            self.nnreg = _nnls
         else:
             if isinstance(nnreg, BaseEstimator):
-                self.nnreg = lambda A, B: nnreg.fit(A, B).coef_
+                self.nnreg = partial(_fit_coef, nnreg)
             elif callable(nnreg):
                 self.nnreg = nnreg
             else:
-- 
2.43.0


From d19d51410458613d6f8b2dade78787b38cf88fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:28 +0000
Subject: [PATCH 24/50] fix: a fitted PycLasso must be picklable

---
 src/pyuoi/linear_model/lasso.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/pyuoi/linear_model/lasso.py b/src/pyuoi/linear_model/lasso.py
index fd6729d..7a355f8 100644
--- a/src/pyuoi/linear_model/lasso.py
+++ b/src/pyuoi/linear_model/lasso.py
@@ -52,6 +52,13 @@ class PycLasso():
         self.isfitted = False
         self.tol = tol
 
+    def __getstate__(self):
+        """What of this estimator is copied or pickled: not the solver of the
+        last fit, which cannot be."""
+        state = self.__dict__.copy()
+        state.pop('solver', None)
+        return state
+
     def set_params(self, **kwargs):
         """Sets the parameters of this estimator."""
         _valid_params = ['alphas', 'fit_intercept', 'max_iter']
-- 
2.43.0


From 8e5ca292d9f20b4f4e6c75eddd33c96bb5e0df9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:19 +0000
Subject: [PATCH 25/50] fix: UoI_NMF.transform truncated the coefficients of
 integer data

---
 src/pyuoi/decomposition/NMF.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pyuoi/decomposition/NMF.py b/src/pyuoi/decomposition/NMF.py
index 25c283f..6efe3da 100644
--- a/src/pyuoi/decomposition/NMF.py
+++ b/src/pyuoi/decomposition/NMF.py
@@ -283,7 +283,9 @@ class UoI_NMF_Base(AbstractDecompositionModel):
                 % (X.shape, self.components_.shape))
 
         H_t = self.components_.T
-        W = np.zeros((n_samples, self.n_components), dtype=X.dtype)
+        # the coefficients of integer data are not integers
+        dtype = X.dtype if np.issubdtype(X.dtype, np.floating) else float
+        W = np.zeros((n_samples, self.n_components), dtype=dtype)
 
         # calculate coefficients for each sample
         for sample in range(n_samples):
-- 
2.43.0


From 98efa01b268676522992641e94353f74294c6aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:19 +0000
Subject: [PATCH 26/50] fix: a zero basis made the dissimilarity of its rank
 NaN, which was then chosen

---
 src/pyuoi/decomposition/utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pyuoi/decomposition/utils.py b/src/pyuoi/decomposition/utils.py
index 8166134..8132944 100644
--- a/src/pyuoi/decomposition/utils.py
+++ b/src/pyuoi/decomposition/utils.py
@@ -1,5 +1,6 @@
 import numpy as np
 
+from sklearn.preprocessing import normalize
 from sklearn.utils import check_random_state
 
 
@@ -112,8 +113,9 @@ def dissimilarity(H1, H2):
         Dissimilarity between the two sets of bases.
     """
     k = H1.shape[0]
-    H1 = H1 / np.linalg.norm(H1, axis=1, keepdims=True)
-    H2 = H2 / np.linalg.norm(H2, axis=1, keepdims=True)
+    # a zero basis stays zero: it resembles no other basis
+    H1 = normalize(H1, norm='l2', axis=1)
+    H2 = normalize(H2, norm='l2', axis=1)
     C = np.dot(H1, H2.T)
     diss = 1 - ((np.max(C, axis=0).sum() + np.max(C, axis=1).sum()) / (2. * k))
     return diss
-- 
2.43.0


From e3684cb6ba79d327632c5a0972cee19bf2040bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:08 +0000
Subject: [PATCH 27/50] fix: the intercept of a standardized generalized linear
 model was moved the wrong way

---
 src/pyuoi/linear_model/base.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/pyuoi/linear_model/base.py b/src/pyuoi/linear_model/base.py
index b5307ca..7550b2e 100644
--- a/src/pyuoi/linear_model/base.py
+++ b/src/pyuoi/linear_model/base.py
@@ -719,8 +719,7 @@ class AbstractUoIGeneralizedLinearRegressor(AbstractUoILinearModel,
         super()._post_fit(X, y)
         if self.standardize and self.fit_intercept:
             sX = self._X_scaler
-            self.intercept_ += np.dot(sX.mean_ * sX.scale_,
-                                      self.coef_.T)
+            self.intercept_ -= np.dot(sX.mean_, self.coef_.T)
 
     def intersect(self, coef, thresholds):
         """Intersect coefficients accross all thresholds.
-- 
2.43.0


From 93821561831a71819baaa9aed544e290ec75a2cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:03 +0000
Subject: [PATCH 28/50] fix: broadcast a 0-d array with its shape

np.ascontiguousarray turns a 0-d array into one with one dimension, so
every rank, the root included, received an array of another shape than
the root passed.
---
 src/pyuoi/mpi_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pyuoi/mpi_utils.py b/src/pyuoi/mpi_utils.py
index 0212ea0..e37eb39 100644
--- a/src/pyuoi/mpi_utils.py
+++ b/src/pyuoi/mpi_utils.py
@@ -32,7 +32,8 @@ def check_valid_ndarray(X):
         return X
     if not isinstance(X, np.ndarray):
         raise ValueError('Must be a numpy ndarray.')
-    return np.ascontiguousarray(X)
+    # np.ascontiguousarray would give a 0-d array a dimension
+    return np.asarray(X, order='C')
 
 
 def load_data_MPI(h5_name, X_key='X', y_key='y', comm=None, root=0):
-- 
2.43.0


From fe3d53670fa85affc6f456e05061881616223c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:03 +0000
Subject: [PATCH 29/50] fix: a fit on a constant response keeps nothing of an
 earlier fit

The early return left supports_, estimates_, scores_, rp_max_idx_ and the
regularization parameters of the previous fit, of other data and possibly
another number of features, beside the new coefficients.
---
 src/pyuoi/linear_model/base.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pyuoi/linear_model/base.py b/src/pyuoi/linear_model/base.py
index 7550b2e..09379c4 100644
--- a/src/pyuoi/linear_model/base.py
+++ b/src/pyuoi/linear_model/base.py
@@ -213,6 +213,12 @@ class AbstractUoILinearModel(SparseCoefMixin, metaclass=_abc.ABCMeta):
 
         # check if the response variable is constant
         if np.unique(y).size == 1:
+            # nothing is selected or estimated: keep nothing of earlier fits
+            self.n_supports_ = None
+            for attr in ('reg_params_', 'n_reg_params_', 'supports_',
+                         'estimates_', 'scores_', 'rp_max_idx_'):
+                if hasattr(self, attr):
+                    delattr(self, attr)
             self.coef_ = np.zeros((self.output_dim, n_features))
             self._fit_intercept(X, y)
             self._post_fit(X, y)
-- 
2.43.0


From b604fef0c27425c5bbae646369a7a1d2384e16e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:54 +0000
Subject: [PATCH 30/50] fix: fit data with a single feature

---
 src/pyuoi/linear_model/base.py    | 6 +++---
 src/pyuoi/linear_model/poisson.py | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pyuoi/linear_model/base.py b/src/pyuoi/linear_model/base.py
index 09379c4..d8cd70b 100644
--- a/src/pyuoi/linear_model/base.py
+++ b/src/pyuoi/linear_model/base.py
@@ -303,8 +303,8 @@ class AbstractUoILinearModel(SparseCoefMixin, metaclass=_abc.ABCMeta):
 
             else:
                 self._logger.info("selection bootstrap %d" % (boot_idx))
-            selection_coefs[ii] = np.squeeze(
-                self.uoi_selection_sweep(X_rep, y_rep, my_reg_params))
+            coefs = self.uoi_selection_sweep(X_rep, y_rep, my_reg_params)
+            selection_coefs[ii] = np.reshape(coefs, selection_coefs[ii].shape)
 
         # if distributed, gather selection coefficients to 0,
         # perform intersection, and broadcast results
@@ -568,7 +568,7 @@ class AbstractUoILinearRegressor(AbstractUoILinearModel,
                 self.intercept_ *= sy.scale_
                 self.intercept_ += sy.mean_ - np.dot(sX.mean_,
                                                      self.coef_.T)
-        self.coef_ = np.squeeze(self.coef_)
+        self.coef_ = np.ravel(self.coef_)
 
     def intersect(self, coef, thresholds):
         """Intersect coefficients accross all thresholds."""
diff --git a/src/pyuoi/linear_model/poisson.py b/src/pyuoi/linear_model/poisson.py
index de7c3a4..ecd1478 100644
--- a/src/pyuoi/linear_model/poisson.py
+++ b/src/pyuoi/linear_model/poisson.py
@@ -623,7 +623,7 @@ class UoI_Poisson(AbstractUoIGeneralizedLinearRegressor, Poisson):
     def _post_fit(self, X, y):
         """Rescale coefficients, if needed, after fitting."""
         if self.output_dim == 1:
-            self.coef_ = np.squeeze(self.coef_)
+            self.coef_ = np.ravel(self.coef_)
         if self.standardize:
             sX = self._X_scaler
             if self.fit_intercept:
-- 
2.43.0


From d105be356f562e84975fd8514357947bba4237d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:28 +0000
Subject: [PATCH 31/50] fix: the last feature counts for the penalties of a
 logistic fit without intercept

---
 src/pyuoi/linear_model/logistic.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pyuoi/linear_model/logistic.py b/src/pyuoi/linear_model/logistic.py
index b0db14e..bb07aa9 100644
--- a/src/pyuoi/linear_model/logistic.py
+++ b/src/pyuoi/linear_model/logistic.py
@@ -169,7 +169,9 @@ class UoI_L1Logistic(AbstractUoIGeneralizedLinearRegressor, LogisticRegression):
                 w = np.concatenate([w, intercept[:, np.newaxis]], axis=1)
             _, grad, _ = _multinomial_loss_grad(w, X, yp, 0., None,
                                                 np.ones(X.shape[0]))
-        alpha_max = abs(grad[:-1]).max()
+        if self.fit_intercept:
+            grad = grad[:-1]
+        alpha_max = abs(grad).max()
         logC = -np.log10(alpha_max)
         self.Cs = np.logspace(logC, logC - np.log10(self.eps), self.n_C)
         ret = list()
-- 
2.43.0


From 65588dc9ce171ce237cc421cf35dd6a40414098f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:58 +0000
Subject: [PATCH 32/50] fix: a score that is not a number is never the best

---
 src/pyuoi/linear_model/base.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/pyuoi/linear_model/base.py b/src/pyuoi/linear_model/base.py
index d8cd70b..0908d82 100644
--- a/src/pyuoi/linear_model/base.py
+++ b/src/pyuoi/linear_model/base.py
@@ -17,6 +17,11 @@ from .utils import stability_selection_to_threshold, intersection
 from ..utils import check_logger
 
 
+def _best_scores(scores):
+    """The first best score in each row; nan is never better than a number."""
+    return np.argmax(np.where(np.isnan(scores), -np.inf, scores), axis=1)
+
+
 class AbstractUoILinearModel(SparseCoefMixin, metaclass=_abc.ABCMeta):
     r"""An abstract base class for UoI ``linear_model`` classes.
 
@@ -419,7 +424,7 @@ class AbstractUoILinearModel(SparseCoefMixin, metaclass=_abc.ABCMeta):
                 estimates = estimates.reshape(self.n_boots_est,
                                               self.n_supports_, n_coef)
                 scores = scores.reshape(self.n_boots_est, self.n_supports_)
-                self.rp_max_idx_ = np.argmax(scores, axis=1)
+                self.rp_max_idx_ = _best_scores(scores)
                 best_estimates = estimates[np.arange(self.n_boots_est),
                                            self.rp_max_idx_]
                 # take the median across estimates for the final estimate
@@ -437,7 +442,7 @@ class AbstractUoILinearModel(SparseCoefMixin, metaclass=_abc.ABCMeta):
             self.estimates_ = estimates.reshape(self.n_boots_est,
                                                 self.n_supports_, n_coef)
             self.scores_ = scores.reshape(self.n_boots_est, self.n_supports_)
-            self.rp_max_idx_ = np.argmax(self.scores_, axis=1)
+            self.rp_max_idx_ = _best_scores(self.scores_)
             # extract the estimates over bootstraps from model with best
             # regularization parameter value
             best_estimates = self.estimates_[np.arange(self.n_boots_est),
-- 
2.43.0


From 2e2f580465de06cab6fa9083ac2d82f0b1c1192a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:46 +0000
Subject: [PATCH 33/50] fix: the arrays given to callbacks of a minimization
 stay valid

---
 src/pyuoi/lbfgs/_lowlevel.pyx | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/pyuoi/lbfgs/_lowlevel.pyx b/src/pyuoi/lbfgs/_lowlevel.pyx
index 6c3b1c6..6fa3df9 100644
--- a/src/pyuoi/lbfgs/_lowlevel.pyx
+++ b/src/pyuoi/lbfgs/_lowlevel.pyx
@@ -117,13 +117,17 @@ cdef lbfgsfloatval_t call_eval(void *cb_data_v,
 
     if not errors:
         try:
+            # f gets its own arrays: it may keep them
             tshape[0] = <np.npy_intp>n
             x_array = np.PyArray_SimpleNewFromData(1, tshape, np.NPY_DOUBLE,
-                                                   <void *>x)
-            g_array = np.PyArray_SimpleNewFromData(1, tshape, np.NPY_DOUBLE,
-                                                   <void *>g)
-
-            return f(x_array.reshape(shape), g_array.reshape(shape), *args)
+                                                   <void *>x).copy()
+            g_out = np.PyArray_SimpleNewFromData(1, tshape, np.NPY_DOUBLE,
+                                                 <void *>g)
+            g_array = g_out.copy()
+
+            fx = f(x_array.reshape(shape), g_array.reshape(shape), *args)
+            g_out[...] = g_array
+            return fx
         except BaseException as error:
             errors.append(error)
 
@@ -153,11 +157,12 @@ cdef int call_progress(void *cb_data_v,
         return 0
 
     try:
+        # progress_fn gets its own arrays: it may keep them
         tshape[0] = <np.npy_intp>n
         x_array = np.PyArray_SimpleNewFromData(1, tshape, np.NPY_DOUBLE,
-                                               <void *>x)
+                                               <void *>x).copy()
         g_array = np.PyArray_SimpleNewFromData(1, tshape, np.NPY_DOUBLE,
-                                               <void *>g)
+                                               <void *>g).copy()
 
         r = progress_fn(x_array.reshape(shape), g_array.reshape(shape), fx,
                         xnorm, gnorm, step, k, ls, *args)
-- 
2.43.0


From 7ca3c86bc96ca87b7c43ead2523d4ce39c25fcc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:46 +0000
Subject: [PATCH 34/50] fix: refuse to minimize with fewer than one correction

---
 src/pyuoi/lbfgs/_lowlevel.pyx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pyuoi/lbfgs/_lowlevel.pyx b/src/pyuoi/lbfgs/_lowlevel.pyx
index 6fa3df9..41169d3 100644
--- a/src/pyuoi/lbfgs/_lowlevel.pyx
+++ b/src/pyuoi/lbfgs/_lowlevel.pyx
@@ -414,6 +414,9 @@ cdef class LBFGS(object):
         if progress is not None and not callable(progress):
             raise TypeError("progress must be callable, got %s" % type(f))
 
+        if self.params.m < 1:
+            raise LBFGSError("Invalid parameter m specified.")
+
         x0 = np.atleast_1d(x0)
         n = np.product(x0.shape)
 
-- 
2.43.0


From ee4df602048bed301e6c00218a10dc2889b5494b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:46 +0000
Subject: [PATCH 35/50] fix: a step without curvature does not make a
 minimization go on with NaN

---
 liblbfgs/lbfgs.c | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/liblbfgs/lbfgs.c b/liblbfgs/lbfgs.c
index a40de1e..19d595a 100644
--- a/liblbfgs/lbfgs.c
+++ b/liblbfgs/lbfgs.c
@@ -253,7 +253,7 @@ int lbfgs(
     )
 {
     int ret;
-    int i, j, k, ls, end, bound;
+    int i, j, k, ls, end, bound, kept = 0;
     lbfgsfloatval_t step;
 
     /* Constant parameters and their default values. */
@@ -566,9 +566,17 @@ int lbfgs(
                 Mathematics of Computation, Vol. 35, No. 151,
                 pp. 773--782, 1980.
          */
-        bound = (m <= k) ? m : k;
+        if (ys == 0. || yy == 0.) {
+            /* A step without curvature (such as one that ends at a kink of
+               the penalty) tells nothing, and must not be divided by:
+               forget the corrections. */
+            kept = 0;
+        } else {
+            ++kept;
+            end = (end + 1) % m;
+        }
+        bound = (m <= kept) ? m : kept;
         ++k;
-        end = (end + 1) % m;
 
         /* Compute the steepest direction. */
         if (param.orthantwise_c == 0.) {
@@ -589,7 +597,9 @@ int lbfgs(
             vecadd(d, it->y, -it->alpha, n);
         }
 
-        vecscale(d, ys / yy, n);
+        if (0 < bound) {
+            vecscale(d, ys / yy, n);
+        }
 
         for (i = 0;i < bound;++i) {
             it = &lm[j];
@@ -616,6 +626,9 @@ int lbfgs(
             Now the search direction d is ready. We try step = 1 first.
          */
         step = 1.0;
+        if (bound == 0) {
+            vec2norminv(&step, d, n);
+        }
     }
 
 lbfgs_exit:
-- 
2.43.0


From bc6a5e006cbb6d053df758da0b7c8703b54650e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:46 +0000
Subject: [PATCH 36/50] fix: the cubic step of the line search goes beyond the
 trial, not back

---
 liblbfgs/lbfgs.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/liblbfgs/lbfgs.c b/liblbfgs/lbfgs.c
index 19d595a..8910b32 100644
--- a/liblbfgs/lbfgs.c
+++ b/liblbfgs/lbfgs.c
@@ -1080,7 +1080,7 @@ static int line_search_morethuente(
     r = p / q; \
     if (r < 0. && gamma != 0.) { \
         (cm) = (v) - r * d; \
-    } else if (a < 0) { \
+    } else if (d > 0) { \
         (cm) = (xmax); \
     } else { \
         (cm) = (xmin); \
-- 
2.43.0


From fc2a375c78cc14de11c71eab1c76745938b212a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:17 +0000
Subject: [PATCH 37/50] fix: a Poisson fit without an intercept has an
 intercept of zero

---
 src/pyuoi/linear_model/poisson.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/pyuoi/linear_model/poisson.py b/src/pyuoi/linear_model/poisson.py
index ecd1478..d07a6b0 100644
--- a/src/pyuoi/linear_model/poisson.py
+++ b/src/pyuoi/linear_model/poisson.py
@@ -80,8 +80,8 @@ class Poisson(BaseEstimator):
         self.n_samples, self.n_features = X.shape
         X, y = self._pre_fit(X, y)
 
-        # check if the response variable is constant
-        if np.unique(y).size == 1:
+        # check if the response variable is constant: the intercept explains it
+        if self.fit_intercept and np.unique(y).size == 1:
             self.coef_ = np.zeros(self.n_features)
             if np.any(y):
                 self.intercept_ = np.log(y.mean())
@@ -126,14 +126,12 @@ class Poisson(BaseEstimator):
                 self.intercept_ = coef[-1]
             else:
                 self.coef_ = coef
+                self.intercept_ = 0.
 
         # coordinate descent
         elif self.solver == 'cd':
-            self.coef_, intercept = self._cd(X=X, y=y,
-                                             sample_weight=sample_weight)
-
-            if self.fit_intercept:
-                self.intercept_ = intercept
+            self.coef_, self.intercept_ = self._cd(X=X, y=y,
+                                                   sample_weight=sample_weight)
 
         else:
             raise ValueError('Solver not available.')
-- 
2.43.0


From 61286406e126007ccede98d5f59fcb2e0a340f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:17 +0000
Subject: [PATCH 38/50] fix: the intercept of a standardized logistic
 regression, or its absence, is that of the given features

---
 src/pyuoi/linear_model/logistic.py | 4 +++-
 src/pyuoi/linear_model/poisson.py  | 4 ++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/pyuoi/linear_model/logistic.py b/src/pyuoi/linear_model/logistic.py
index bb07aa9..55261b9 100644
--- a/src/pyuoi/linear_model/logistic.py
+++ b/src/pyuoi/linear_model/logistic.py
@@ -438,7 +438,7 @@ class MaskedCoefLogisticRegression(LogisticRegression):
 
     def _pre_fit(self, X, y):
         if self.standardize:
-            self._X_scaler = StandardScaler()
+            self._X_scaler = StandardScaler(with_mean=self.fit_intercept)
             X = self._X_scaler.fit_transform(X)
         le = LabelEncoder()
         y = le.fit_transform(y)
@@ -457,6 +457,8 @@ class MaskedCoefLogisticRegression(LogisticRegression):
         if self.standardize:
             sX = self._X_scaler
             self.coef_ /= sX.scale_[np.newaxis]
+            if self.fit_intercept:
+                self.intercept_ -= np.dot(self.coef_, sX.mean_)
 
 
 def _logistic_regression_path(X, y, Cs=48, fit_intercept=True,
diff --git a/src/pyuoi/linear_model/poisson.py b/src/pyuoi/linear_model/poisson.py
index d07a6b0..7b07c2c 100644
--- a/src/pyuoi/linear_model/poisson.py
+++ b/src/pyuoi/linear_model/poisson.py
@@ -308,7 +308,7 @@ class Poisson(BaseEstimator):
     def _pre_fit(self, X, y):
         """Perform standardization, if needed, before fitting."""
         if self.standardize:
-            self._X_scaler = StandardScaler()
+            self._X_scaler = StandardScaler(with_mean=self.fit_intercept)
             X = self._X_scaler.fit_transform(X)
         return X, y
 
@@ -610,7 +610,7 @@ class UoI_Poisson(AbstractUoIGeneralizedLinearRegressor, Poisson):
     def _pre_fit(self, X, y):
         """Perform standardization, if needed, before fitting."""
         if self.standardize:
-            self._X_scaler = StandardScaler()
+            self._X_scaler = StandardScaler(with_mean=self.fit_intercept)
             X = self._X_scaler.fit_transform(X)
         if y.ndim == 2:
             self.output_dim = y.shape[1]
-- 
2.43.0


From 2e35f6231612400cdf5c1de9b5e89c609f93dd0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:17 +0000
Subject: [PATCH 39/50] fix: coordinate descent for Poisson models reaches the
 minimum from any start

---
 src/pyuoi/linear_model/poisson.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/pyuoi/linear_model/poisson.py b/src/pyuoi/linear_model/poisson.py
index 7b07c2c..bb4bcc5 100644
--- a/src/pyuoi/linear_model/poisson.py
+++ b/src/pyuoi/linear_model/poisson.py
@@ -211,19 +211,17 @@ class Poisson(BaseEstimator):
                 if self.standardize:
                     coef = self.coef_ * self._X_scaler.scale_
                 else:
-                    coef = self.coef_
+                    coef = np.array(self.coef_)
 
             if self.fit_intercept:
                 if hasattr(self, 'intercept_'):
                     intercept = self.intercept_
 
-        # every coefficient is active unless there's a warm start
-        if self.warm_start:
-            active_idx = np.argwhere(coef != 0)
-        else:
-            active_idx = np.arange(self.n_features)
+        # every coefficient is active at first, whatever the start
+        active_idx = np.arange(n_features)
 
         prev_coef = np.copy(coef)
+        prev_intercept = intercept
         # perform coordinate descent updates
         for iteration in range(self.max_iter):
             # linearize the log-likelihood
@@ -237,13 +235,20 @@ class Poisson(BaseEstimator):
                 active_idx=active_idx)
 
             # check convergence
-            if np.max(np.abs(prev_coef - coef)) < self.tol:
+            change = np.append(prev_coef - coef, prev_intercept - intercept)
+            converged = np.max(np.abs(change)) < self.tol
+            if converged and len(active_idx) == n_features:
                 break
 
             prev_coef = np.copy(coef)
+            prev_intercept = intercept
 
-            # update the active features
-            active_idx = np.argwhere(coef != 0).ravel()
+            # update the active features; the others have their turn again
+            # once these do not change
+            if converged:
+                active_idx = np.arange(n_features)
+            else:
+                active_idx = np.argwhere(coef != 0).ravel()
 
         return coef, intercept
 
-- 
2.43.0


From 7483ab0e49803d99d564647ad1123fb9ec37b06e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:17 +0000
Subject: [PATCH 40/50] fix: a masked logistic regression predicts the labels
 it was given

---
 src/pyuoi/linear_model/logistic.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/pyuoi/linear_model/logistic.py b/src/pyuoi/linear_model/logistic.py
index 55261b9..aa2ae30 100644
--- a/src/pyuoi/linear_model/logistic.py
+++ b/src/pyuoi/linear_model/logistic.py
@@ -380,7 +380,6 @@ class MaskedCoefLogisticRegression(LogisticRegression):
         X, y = check_X_y(X, y, accept_sparse='csr', dtype=_dtype, order="C",
                          accept_large_sparse=True)
         check_classification_targets(y)
-        self.classes_ = np.unique(y)
         n_samples, n_features = X.shape
 
         multi_class = self.multi_class
-- 
2.43.0


From baedb1e605b7030f1767946518da1559356e0a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:17 +0000
Subject: [PATCH 41/50] fix: an interrupted logistic regression can be fitted
 again

---
 src/pyuoi/linear_model/logistic.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/pyuoi/linear_model/logistic.py b/src/pyuoi/linear_model/logistic.py
index aa2ae30..3523219 100644
--- a/src/pyuoi/linear_model/logistic.py
+++ b/src/pyuoi/linear_model/logistic.py
@@ -410,8 +410,6 @@ class MaskedCoefLogisticRegression(LogisticRegression):
                                         self.intercept_[:, np.newaxis],
                                         axis=1)
 
-        self.intercept_ = np.zeros(n_classes)
-
         fold_coefs_ = _logistic_regression_path(
             X, y, Cs=[self.C],
             fit_intercept=self.fit_intercept,
@@ -423,13 +421,17 @@ class MaskedCoefLogisticRegression(LogisticRegression):
             sample_weight=sample_weight, coef_mask=coef_mask)
 
         fold_coefs_, _, self.n_iter_ = fold_coefs_
-        self.coef_ = np.asarray(fold_coefs_)
-        self.coef_ = self.coef_.reshape(n_classes, n_features +
-                                        int(self.fit_intercept))
+        coef = np.asarray(fold_coefs_)
+        coef = coef.reshape(n_classes, n_features + int(self.fit_intercept))
 
+        # (a warm start relies on coefficients of the right shape, with an
+        # intercept, also after an interrupted fit)
         if self.fit_intercept:
-            self.intercept_ = self.coef_[:, -1]
-            self.coef_ = self.coef_[:, :-1]
+            self.intercept_ = coef[:, -1]
+            self.coef_ = coef[:, :-1]
+        else:
+            self.intercept_ = np.zeros(n_classes)
+            self.coef_ = coef
 
         self._post_fit(X, y)
 
-- 
2.43.0


From da1189c4a5883d488c352ab6a846dcef38161feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:38 +0000
Subject: [PATCH 42/50] fix: no logistic fit is taken for zero before it has
 converged

---
 src/pyuoi/linear_model/logistic.py | 32 +++++++-----------------------
 1 file changed, 7 insertions(+), 25 deletions(-)

diff --git a/src/pyuoi/linear_model/logistic.py b/src/pyuoi/linear_model/logistic.py
index 3523219..71bf63a 100644
--- a/src/pyuoi/linear_model/logistic.py
+++ b/src/pyuoi/linear_model/logistic.py
@@ -18,7 +18,7 @@ import numpy as np
 
 from .base import AbstractUoIGeneralizedLinearRegressor
 from ..utils import sigmoid, softmax
-from ..lbfgs import fmin_lbfgs, AllZeroLBFGSError
+from ..lbfgs import fmin_lbfgs
 
 
 class UoI_L1Logistic(AbstractUoIGeneralizedLinearRegressor, LogisticRegression):
@@ -697,30 +697,12 @@ def _logistic_regression_path(X, y, Cs=48, fit_intercept=True,
                     w0[mask] = wp
 
             else:
-                zeros_seen = [0]
-
-                def zero_coef(x, *args):
-                    if multi_class == 'multinomial':
-                        x = x.reshape(-1, classes.size)[:-1]
-                    else:
-                        x = x[:-1]
-                    now_zeros = np.array_equiv(x, 0.)
-                    if now_zeros:
-                        zeros_seen[0] += 1
-                    else:
-                        zeros_seen[0] = 0
-                    if zeros_seen[0] > 1:
-                        return -2048
-                try:
-                    args = (X, target, 0., coef_mask, sample_weight)
-                    w0 = fmin_lbfgs(func, w0, orthantwise_c=1. / C,
-                                    args=args,
-                                    max_iterations=max_iter,
-                                    epsilon=tol,
-                                    orthantwise_end=coef_size,
-                                    progress=zero_coef)
-                except AllZeroLBFGSError:
-                    w0 *= 0.
+                args = (X, target, 0., coef_mask, sample_weight)
+                w0 = fmin_lbfgs(func, w0, orthantwise_c=1. / C,
+                                args=args,
+                                max_iterations=max_iter,
+                                epsilon=tol,
+                                orthantwise_end=coef_size)
                 info = None
             if info is not None and info["warnflag"] == 1:
                 warnings.warn("lbfgs failed to converge. Increase the number "
-- 
2.43.0


From e25378937998671e2f42512c18e888feb957734f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:38 +0000
Subject: [PATCH 43/50] fix: the intercept of a logistic regression without
 features is fitted

---
 src/pyuoi/linear_model/logistic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyuoi/linear_model/logistic.py b/src/pyuoi/linear_model/logistic.py
index 71bf63a..38fd93c 100644
--- a/src/pyuoi/linear_model/logistic.py
+++ b/src/pyuoi/linear_model/logistic.py
@@ -668,7 +668,7 @@ def _logistic_regression_path(X, y, Cs=48, fit_intercept=True,
     coefs = list()
     n_iter = np.zeros(len(Cs), dtype=np.int32)
     for i, C in enumerate(Cs):
-        if coef_mask is None or coef_mask.sum():
+        if fit_intercept or coef_mask is None or coef_mask.sum():
             iprint = [-1, 50, 1, 100, 101][
                 np.searchsorted(np.array([0, 1, 2, 3]), verbose)]
             if penalty == 'l2':
-- 
2.43.0


From a278027713dca1c3e9526e4b8411243b7c95afc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:57 +0000
Subject: [PATCH 44/50] fix: class weights of a masked logistic regression
 belong to the labels given

---
 src/pyuoi/linear_model/logistic.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/pyuoi/linear_model/logistic.py b/src/pyuoi/linear_model/logistic.py
index 38fd93c..cd1d65a 100644
--- a/src/pyuoi/linear_model/logistic.py
+++ b/src/pyuoi/linear_model/logistic.py
@@ -401,6 +401,13 @@ class MaskedCoefLogisticRegression(LogisticRegression):
         if multi_class == 'multinomial' and coef_mask is not None:
             coef_mask = coef_mask.reshape(n_classes, -1)
 
+        class_weight = self.class_weight
+        if isinstance(class_weight, dict):
+            # the labels are encoded by now
+            class_weight = dict((code, class_weight[label])
+                                for code, label in enumerate(self.classes_)
+                                if label in class_weight)
+
         if self.warm_start:
             warm_start_coef = getattr(self, 'coef_', None)
         else:
@@ -415,7 +422,7 @@ class MaskedCoefLogisticRegression(LogisticRegression):
             fit_intercept=self.fit_intercept,
             tol=self.tol, verbose=self.verbose,
             multi_class=multi_class, max_iter=self.max_iter,
-            class_weight=self.class_weight, penalty=self.penalty,
+            class_weight=class_weight, penalty=self.penalty,
             check_input=False,
             coef=warm_start_coef,
             sample_weight=sample_weight, coef_mask=coef_mask)
-- 
2.43.0


From b9c176c249d15d5abfcc1e00590eec40bf25a3f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:27 +0000
Subject: [PATCH 45/50] fix: a multinomial fit to integers raised in the
 gradient

---
 src/pyuoi/linear_model/logistic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyuoi/linear_model/logistic.py b/src/pyuoi/linear_model/logistic.py
index cd1d65a..7de01dd 100644
--- a/src/pyuoi/linear_model/logistic.py
+++ b/src/pyuoi/linear_model/logistic.py
@@ -869,7 +869,7 @@ def _multinomial_loss_grad(w, X, Y, alpha, mask, sample_weight):
         w[:, :n_features] *= mask
         w = w.ravel()
     grad = np.zeros((n_classes, n_features + bool(fit_intercept)),
-                    dtype=X.dtype)
+                    dtype=w.dtype)
     loss, p, w = _multinomial_loss(w, X, Y, alpha, sample_weight)
     sample_weight = sample_weight[:, np.newaxis]
     diff = sample_weight * (p - Y)
-- 
2.43.0


From 57a35ba01f9006b02dea1d892e8bd1a54c3d52a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:35 +0000
Subject: [PATCH 46/50] fix: a Poisson model standardizes the features only if
 asked to

---
 src/pyuoi/linear_model/poisson.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pyuoi/linear_model/poisson.py b/src/pyuoi/linear_model/poisson.py
index bb4bcc5..ff71abb 100644
--- a/src/pyuoi/linear_model/poisson.py
+++ b/src/pyuoi/linear_model/poisson.py
@@ -480,6 +480,7 @@ class UoI_Poisson(AbstractUoIGeneralizedLinearRegressor, Poisson):
             estimation_target=estimation_target,
             copy_X=copy_X,
             fit_intercept=fit_intercept,
+            standardize=standardize,
             random_state=random_state,
             comm=comm,
             logger=logger)
-- 
2.43.0


From 13fa00e870cbd1cd30b6fa37a6039f8b12305096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:36 +0000
Subject: [PATCH 47/50] fix: a start with a value that is not finite was
 returned as the minimum without a warning

---
 liblbfgs/lbfgs.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/liblbfgs/lbfgs.c b/liblbfgs/lbfgs.c
index 8910b32..6c01d5e 100644
--- a/liblbfgs/lbfgs.c
+++ b/liblbfgs/lbfgs.c
@@ -450,7 +450,8 @@ int lbfgs(
     }
     if (xnorm < 1.0) xnorm = 1.0;
     if (gnorm / xnorm <= param.epsilon) {
-        ret = LBFGS_ALREADY_MINIMIZED;
+        /* (a point whose value is not finite is no minimizer) */
+        ret = isfinite(fx) ? LBFGS_ALREADY_MINIMIZED : LBFGSERR_ROUNDING_ERROR;
         goto lbfgs_exit;
     }
 
-- 
2.43.0


From 87d7acac5233eab5d4ad31cb937b29dd4ad8360d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:36 +0000
Subject: [PATCH 48/50] fix: a warm start of a Poisson regression after a
 response of zeros started at minus infinity

---
 src/pyuoi/linear_model/poisson.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/pyuoi/linear_model/poisson.py b/src/pyuoi/linear_model/poisson.py
index ff71abb..12bb422 100644
--- a/src/pyuoi/linear_model/poisson.py
+++ b/src/pyuoi/linear_model/poisson.py
@@ -98,7 +98,9 @@ class Poisson(BaseEstimator):
                         coef = self.coef_ * self._X_scaler.scale_
                     else:
                         coef = self.coef_
-                if hasattr(self, 'intercept_') and self.fit_intercept:
+                # (-inf after a response of zeros only)
+                if hasattr(self, 'intercept_') and self.fit_intercept \
+                        and np.isfinite(self.intercept_):
                     intercept = self.intercept_
 
             if self.fit_intercept:
@@ -214,7 +216,8 @@ class Poisson(BaseEstimator):
                     coef = np.array(self.coef_)
 
             if self.fit_intercept:
-                if hasattr(self, 'intercept_'):
+                if hasattr(self, 'intercept_') \
+                        and np.isfinite(self.intercept_):
                     intercept = self.intercept_
 
         # every coefficient is active at first, whatever the start
-- 
2.43.0


From 68f477fbcb4ef01de99891d7b187d9e23b776669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:12 +0000
Subject: [PATCH 49/50] fix: a logistic regression of a single class raised in
 the intercept's loss

---
 src/pyuoi/linear_model/logistic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyuoi/linear_model/logistic.py b/src/pyuoi/linear_model/logistic.py
index 7de01dd..ffcd695 100644
--- a/src/pyuoi/linear_model/logistic.py
+++ b/src/pyuoi/linear_model/logistic.py
@@ -218,7 +218,7 @@ def fit_intercept_fixed_coef(X, coef_, y, output_dim):
         def f_df(intercept):
             py = sigmoid(X.dot(coef_.T) + intercept)
             dfdb = py.mean() - y.mean()
-            return log_loss(y, py), np.atleast_1d(dfdb)
+            return log_loss(y, py, labels=[0, 1]), np.atleast_1d(dfdb)
 
         opt = minimize(f_df, np.atleast_1d(np.zeros(1)),
                        method='L-BFGS-B', jac=True)
-- 
2.43.0


From 5db08a01645a04f74801c65add86dfabbd977575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:27 +0000
Subject: [PATCH 50/50] fix: labels of a cluster object that leave out a number
 raised IndexError in UoI NMF

---
 src/pyuoi/decomposition/NMF.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/pyuoi/decomposition/NMF.py b/src/pyuoi/decomposition/NMF.py
index 6efe3da..71a33da 100644
--- a/src/pyuoi/decomposition/NMF.py
+++ b/src/pyuoi/decomposition/NMF.py
@@ -243,9 +243,10 @@ class UoI_NMF_Base(AbstractDecompositionModel):
                           n_clusters)
         H_cons = np.zeros((n_clusters, n_features))
 
-        for c_id in cluster_ids:
-            H_cons[c_id, :] = self.cons_meth(H_pre_cluster[labels == c_id],
-                                             axis=0)
+        # (the labels of a cluster object may leave out numbers)
+        for c_idx, c_id in enumerate(cluster_ids):
+            H_cons[c_idx, :] = self.cons_meth(H_pre_cluster[labels == c_id],
+                                              axis=0)
 
         # re-normalize across features
         H_cons = normalize(H_cons, norm='l2', axis=1)
-- 
2.43.0

