From b114404174b66adf621df07006d162e2718bb4e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:52 +0000
Subject: [PATCH 01/63] fix: LnPDF can be unpickled and copied (the state
 arrives as one argument)

---
 src/MTfit/probability/probability.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/MTfit/probability/probability.py b/src/MTfit/probability/probability.py
index 065512e..1b60962 100644
--- a/src/MTfit/probability/probability.py
+++ b/src/MTfit/probability/probability.py
@@ -1042,7 +1042,10 @@ class LnPDF(object):
     def __getstate__(self):
         return self._ln_pdf, self.dV
 
-    def __setstate__(self, ln_pdf, dV):
+    def __setstate__(self, ln_pdf, dV=None):
+        if dV is None:
+            # pickle and copy pass the state as returned from __getstate__
+            ln_pdf, dV = ln_pdf
         self._set_ln_pdf(ln_pdf)
         self._set_dv(dV)
 
-- 
2.43.0


From 085b02bbe978249aaba303d82aee58d25640fa1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:32 +0000
Subject: [PATCH 02/63] fix: pool workers report every task failure as a result
 and keep serving

A worker stopped after the first exception, so with every worker stopped the
remaining tasks were never run and collecting their results blocked forever.
Results and exceptions that cannot be pickled were dropped by the queue's
feeder thread, with the same effect.
---
 src/MTfit/utilities/multiprocessing_helper.py | 41 ++++++++++++++++---
 1 file changed, 35 insertions(+), 6 deletions(-)

diff --git a/src/MTfit/utilities/multiprocessing_helper.py b/src/MTfit/utilities/multiprocessing_helper.py
index 8d90d90..27670d2 100644
--- a/src/MTfit/utilities/multiprocessing_helper.py
+++ b/src/MTfit/utilities/multiprocessing_helper.py
@@ -14,6 +14,7 @@ Handles multiprocessing queue and worker behaviour, including return codes
 import multiprocessing
 import gc
 import os
+import pickle
 
 
 from ..probability import LnPDF
@@ -82,21 +83,49 @@ class Worker(multiprocessing.Process):
                 next_task = self.task_queue.get()
                 if isinstance(next_task, PoisonPill):
                     break
+            except (EOFError, OSError) as e:
+                # No more tasks can be read from the queue
+                self.result_queue.put(e)
+                break
+            except Exception as e:
+                self._put_exception(e)
+                if self.single_life:
+                    break
+                continue
+            try:
                 answer = next_task()
                 if isinstance(answer, dict):
                     for key, value in answer.items():
                         if isinstance(value, LnPDF):
                             answer[key] = {'ln_pdf_obj': value.__getstate__()}
+                self._check_transport(answer)
                 self.result_queue.put(answer)
-                if self.single_life:
-                    break
-                gc.collect()
-            except Exception as e:
-                self.result_queue.put(e)
-                gc.collect()
+            except (Exception, SystemExit) as e:
+                # The exception is the result of this task, so the worker carries on with the next one
+                self._put_exception(e)
+            if self.single_life:
                 break
+            gc.collect()
         return
 
+    def _put_exception(self, exception):
+        """Adds an exception to the result queue (as a RuntimeError if it cannot be pickled)"""
+        try:
+            self._check_transport(exception)
+        except Exception:
+            exception = RuntimeError(repr(exception))
+        self.result_queue.put(exception)
+
+    @staticmethod
+    def _check_transport(answer):
+        """
+        Checks the answer can be passed through the result queue
+
+        The queue pickles in a background thread and drops anything that it cannot pickle, and
+        unpickling errors would be raised from JobPool.result instead, so check before adding to the queue.
+        """
+        pickle.loads(pickle.dumps(answer))
+
     def start(self):
         print(self.name, 'Starting')
         super(Worker, self).start()
-- 
2.43.0


From 63c754f8ea8a6c8bbd5932b875ad02037db66e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:48 +0000
Subject: [PATCH 03/63] fix: collecting results terminates when the last task
 returns a reserved code

JobPool.result waited for another result after a return code, even with no
outstanding tasks, and so blocked forever.
---
 src/MTfit/utilities/multiprocessing_helper.py | 25 +++++++++++--------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/src/MTfit/utilities/multiprocessing_helper.py b/src/MTfit/utilities/multiprocessing_helper.py
index 27670d2..588e4a8 100644
--- a/src/MTfit/utilities/multiprocessing_helper.py
+++ b/src/MTfit/utilities/multiprocessing_helper.py
@@ -245,19 +245,21 @@ class JobPool(object):
     def result(self):
         """
 
-        Returns a result object (skipping tasks that return results in the RETURN_CODES)
+        Returns a result object (skipping tasks that return results in the RETURN_CODES, unless there
+        are no more outstanding tasks, when the return code is returned)
 
         Returns
             Task result
         """
-        # clean up dead workers
-        self.clean_workers()
-        # Get result
-        result = self.results.get()
-        self.number_jobs -= 1
-        # Check if result is in return codes (errors or otherwise)
-        if isinstance(result, int) and result in RETURN_CODES:
-            result = self.result()
+        while True:
+            # clean up dead workers
+            self.clean_workers()
+            # Get result
+            result = self.results.get()
+            self.number_jobs -= 1
+            # Check if result is in return codes (errors or otherwise)
+            if not (isinstance(result, int) and result in RETURN_CODES and self.number_jobs):
+                break
         return self.rebuild_ln_pdf(result)
 
     def rebuild_ln_pdf(self, result):
@@ -287,7 +289,10 @@ class JobPool(object):
         results = []
         # Loop over all un-returned jobs
         while self.number_jobs:
-            results.append(self.result())
+            result = self.result()
+            # The last result may be a return code
+            if not (isinstance(result, int) and result in RETURN_CODES):
+                results.append(result)
         return results
 
     def close(self):
-- 
2.43.0


From ea13a00a7e7d90ddcc17d970be55398808a99bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:00 +0000
Subject: [PATCH 04/63] fix: JobPool.close does not wait for ever when results
 have not been collected

A worker only ends when its results have been read from the queue, so joining
the workers blocked as soon as the uncollected results filled the pipe.
---
 src/MTfit/utilities/multiprocessing_helper.py | 28 +++++++++++++++----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/src/MTfit/utilities/multiprocessing_helper.py b/src/MTfit/utilities/multiprocessing_helper.py
index 588e4a8..b319c90 100644
--- a/src/MTfit/utilities/multiprocessing_helper.py
+++ b/src/MTfit/utilities/multiprocessing_helper.py
@@ -15,6 +15,7 @@ import multiprocessing
 import gc
 import os
 import pickle
+from multiprocessing.queues import Empty
 
 
 from ..probability import LnPDF
@@ -168,6 +169,8 @@ class JobPool(object):
         print('Initialising Job Pool')
         self.tasks = multiprocessing.Queue()
         self.results = multiprocessing.Queue()
+        # Results read from the queue but not yet returned (see close)
+        self._uncollected = []
         self.workers = []
         # Set default task
         self.task_class = task
@@ -252,10 +255,13 @@ class JobPool(object):
             Task result
         """
         while True:
-            # clean up dead workers
-            self.clean_workers()
-            # Get result
-            result = self.results.get()
+            if self._uncollected:
+                result = self._uncollected.pop(0)
+            else:
+                # clean up dead workers
+                self.clean_workers()
+                # Get result
+                result = self.results.get()
             self.number_jobs -= 1
             # Check if result is in return codes (errors or otherwise)
             if not (isinstance(result, int) and result in RETURN_CODES and self.number_jobs):
@@ -299,7 +305,8 @@ class JobPool(object):
         """
         Closes worker pool
 
-        Adds poison pill to tasks and then joins workers to close them.
+        Adds poison pill to tasks and then joins workers to close them. Results that have not been
+        collected are kept for result() and all_results().
         """
         self.clean_workers()
         for i in range(self.number_workers):
@@ -307,4 +314,15 @@ class JobPool(object):
             self.tasks.put(PoisonPill())
         # Join workers to main thread
         for w in self.workers:
+            # A worker cannot end until its results have been read from the queue
+            while w.is_alive():
+                try:
+                    self._uncollected.append(self.results.get(timeout=0.05))
+                except Empty:
+                    continue
             w.join()
+        while len(self._uncollected) < self.number_jobs:
+            try:
+                self._uncollected.append(self.results.get(timeout=0.05))
+            except Empty:
+                break
-- 
2.43.0


From 2a527dd3b101ad33c1bb832d055e41c7b4ec5c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:43 +0000
Subject: [PATCH 05/63] fix: FileSample outputs every stored batch in order,
 with its scale factors, and replaces its file in one step

---
 src/MTfit/sampling.py | 58 ++++++++++++++++++++++++-------------------
 1 file changed, 33 insertions(+), 25 deletions(-)

diff --git a/src/MTfit/sampling.py b/src/MTfit/sampling.py
index 95c1ddf..ed9bdf2 100644
--- a/src/MTfit/sampling.py
+++ b/src/MTfit/sampling.py
@@ -334,31 +334,32 @@ class FileSample(Sample):
             for key in extensions_scale_factor.keys():
                 extensions_scale_factor[key] = convert_keys_to_unicode(list(extensions_scale_factor[key][ln_pdf.nonzero()]))
         if self.file_safe:
-            old_fname = self.fname
-            try:
-                shutil.copy(self.fname, self.fname+'~')
-            except IOError:
-                pass
-            self.fname += '~'
+            # Write to a copy which then replaces the file
+            fname = self.fname+'~'
+            if os.path.exists(self.fname):
+                shutil.copy(self.fname, fname)
+            elif os.path.exists(fname):
+                os.remove(fname)
+        else:
+            fname = self.fname
         if moment_tensors.shape[0]*moment_tensors.shape[1] > 0:  # Check there are samples
             if len(ln_pdf.nonzero()) != moment_tensors.shape[1]:
                 raise ValueError('Moment Tensor shape[2] and ln_pdf shape[2] must be the same')
-            self.savemat(self.fname, {'MTSpace_'+str(self._i): moment_tensors}, appendmat=not self.file_safe, store_python_metadata=True)
+            self.savemat(fname, {'MTSpace_'+str(self._i): moment_tensors}, appendmat=not self.file_safe, store_python_metadata=True)
             if not isinstance(scale_factor, bool):
                 # dict with p mu and s
-                self.savemat(self.fname, {'scale_factor_'+str(self._i): convert_keys_to_unicode(list(scale_factor))}, appendmat=not self.file_safe, store_python_metadata=True)
+                self.savemat(fname, {'scale_factor_'+str(self._i): convert_keys_to_unicode(list(scale_factor))}, appendmat=not self.file_safe, store_python_metadata=True)
             if isinstance(extensions_scale_factor, dict) and len(extensions_scale_factor):
                 # dict with p mu and s
-                self.savemat(self.fname, {'extensions_scale_factor_'+str(self._i): extensions_scale_factor}, appendmat=not self.file_safe, store_python_metadata=True)
-            self.savemat(self.fname, {'LnPDF_'+str(self._i): ln_pdf[:, ln_pdf.nonzero()]}, appendmat=not self.file_safe, store_python_metadata=True)
+                self.savemat(fname, {'extensions_scale_factor_'+str(self._i): extensions_scale_factor}, appendmat=not self.file_safe, store_python_metadata=True)
+            self.savemat(fname, {'LnPDF_'+str(self._i): ln_pdf[:, ln_pdf.nonzero()]}, appendmat=not self.file_safe, store_python_metadata=True)
             self.non_zero_samples += len(ln_pdf.nonzero())
-            self.savemat(self.fname, {'non_zero_samples': self.non_zero_samples}, appendmat=not self.file_safe, store_python_metadata=True)
+            self.savemat(fname, {'non_zero_samples': self.non_zero_samples}, appendmat=not self.file_safe, store_python_metadata=True)
             self._i += 1
-        self.savemat(self.fname, {'i': self._i}, appendmat=not self.file_safe, store_python_metadata=True)
-        self.savemat(self.fname, {'n': self.n}, appendmat=not self.file_safe, store_python_metadata=True)
+        self.savemat(fname, {'i': self._i}, appendmat=not self.file_safe, store_python_metadata=True)
+        self.savemat(fname, {'n': self.n}, appendmat=not self.file_safe, store_python_metadata=True)
         if self.file_safe:
-            shutil.copy(self.fname, old_fname)
-            self.fname = old_fname
+            shutil.move(fname, self.fname)
 
     def output(self, *args, **kwargs):
         """
@@ -376,21 +377,28 @@ class FileSample(Sample):
         data = self.loadmat(self.fname)
         # Set up attributes for Sample.output call
         self.moment_tensors = np.matrix(np.zeros((self.number_events*6, self.non_zero_samples)))
-        self.scale_factor = False
-        if len([key for key in data if 'scale_factor' in key]):
-            self.scale_factor = []
+        self.ln_pdf = LnPDF()
+        scale_factor = []
+        has_scale_factor = any(key.startswith('scale_factor_') for key in data.keys())
         _x = 0
         self.n = data['n']
-        for key in [key for key in data.keys() if 'MTSpace' in key]:
-            i = key.split('_')[-1]
+        # Batches in the order they were appended
+        for i in sorted(int(key.split('_')[-1]) for key in data.keys() if key.startswith('MTSpace_')):
             self.ln_pdf.append(LnPDF(data['LnPDF_'+str(i)]))
             moment_tensors = data['MTSpace_'+str(i)]
             self.moment_tensors[:, _x: _x+moment_tensors.shape[1]] = moment_tensors
-            if isinstance(self.scale_factor, list):
-                self.scale_factor.append(data['scale_factor_'+str(i)])
+            if has_scale_factor:
+                scale_factor.extend(data['scale_factor_'+str(i)])
             _x += moment_tensors.shape[1]
-        self.scale_factor = np.array(self.scale_factor)
-        output, output_string = super(FileSample, self).output(*args, **kwargs)
+        if has_scale_factor:
+            self.scale_factor = np.array(scale_factor, dtype=object)
+        # Sample.output uses self._i as the number of stored samples, not the number of batches
+        n_batches = self._i
+        self._i = _x
+        try:
+            output, output_string = super(FileSample, self).output(*args, **kwargs)
+        finally:
+            self._i = n_batches
         try:
             os.remove(self.fname)
         except Exception:
@@ -445,6 +453,6 @@ def _convert(moment_tensors, i=None):
     output = output_convert(moment_tensors)
     if isinstance(i, int):
         # Multiple events
-        for key in output.keys():
+        for key in list(output.keys()):
             output[key+'_'+str(i)] = output.pop(key)
     return output
-- 
2.43.0


From a674b9c21d84c320f1e0a7880a99424e8a73e746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:43 +0000
Subject: [PATCH 06/63] fix: log-domain sums are scaled by their maximum,
 whatever its sign

---
 src/MTfit/probability/cprobability.pyx | 24 +++++++++++-------------
 src/MTfit/probability/probability.py   | 13 +++++++++----
 2 files changed, 20 insertions(+), 17 deletions(-)

diff --git a/src/MTfit/probability/cprobability.pyx b/src/MTfit/probability/cprobability.pyx
index 0f776b8..7f8886c 100644
--- a/src/MTfit/probability/cprobability.pyx
+++ b/src/MTfit/probability/cprobability.pyx
@@ -85,13 +85,11 @@ IF UNAME_SYSNAME == "Windows":
                 for v from 0<=v<vmax:
                     if ln_p[v,w]>scale:
                         scale=ln_p[v,w]
-                if scale>0:
-                    scale=0
                 if scale==-inf:
                     scale=0
                 for v from 0<=v<vmax:
-                    p+=exp(ln_p[v,w]+fabs(scale))
-                Ln_P[w]=log(p)-fabs(scale)
+                    p+=exp(ln_p[v,w]-scale)
+                Ln_P[w]=log(p)+scale
         return np.asarray(Ln_P)
 
     @cython.boundscheck(False)
@@ -104,11 +102,11 @@ IF UNAME_SYSNAME == "Windows":
         for w from 0<=w<wmax:            
             if scale<ln_p[w]:
                 scale=ln_p[w]
-        if scale>0:
+        if scale==-inf:
             scale=0
         for w from 0<=w<wmax:
-            N+=exp(ln_p[w]+fabs(scale))*dV
-        N=log(N)-fabs(scale)
+            N+=exp(ln_p[w]-scale)*dV
+        N=log(N)+scale
         for w from 0<=w<wmax:
             ln_p[w]-=N
         return np.asarray(ln_p)
@@ -142,12 +140,11 @@ ELSE:
                 scale=-inf
                 for v from 0<=v<vmax:
                     scale=fmax(scale,ln_p[v,w])
-                scale=fmin(scale,0)
                 if scale==-inf:
                     scale=0
                 for v from 0<=v<vmax:
-                    p+=exp(ln_p[v,w]+fabs(scale))
-                Ln_P[w]=log(p)-fabs(scale)
+                    p+=exp(ln_p[v,w]-scale)
+                Ln_P[w]=log(p)+scale
         return np.asarray(Ln_P)
 
     @cython.boundscheck(False)
@@ -159,10 +156,11 @@ ELSE:
         cdef DTYPE_t scale=-inf, N=0
         for w from 0<=w<wmax:
             scale=fmax(scale,ln_p[w])
-        scale=fmin(scale,0)
+        if scale==-inf:
+            scale=0
         for w from 0<=w<wmax:
-            N+=exp(ln_p[w]+fabs(scale))*dV
-        N=log(N)-fabs(scale)
+            N+=exp(ln_p[w]-scale)*dV
+        N=log(N)+scale
         for w from 0<=w<wmax:
             ln_p[w]-=N
         return np.asarray(ln_p)
diff --git a/src/MTfit/probability/probability.py b/src/MTfit/probability/probability.py
index 1b60962..79bd1b6 100644
--- a/src/MTfit/probability/probability.py
+++ b/src/MTfit/probability/probability.py
@@ -874,20 +874,25 @@ def ln_marginalise(ln_pdf, axis=0, dV=1.0):
     else:
         logger.info(C_EXTENSION_FALLBACK_LOG_MSG)
     # scale and then marginalise:
+    if isinstance(ln_pdf, LnPDF):
+        ln_pdf = ln_pdf._ln_pdf
     ln_scale = 0
     if ln_pdf.shape[axis] == 1:
         return np.array(ln_pdf).squeeze(axis)
     elif axis == 0 and len(ln_pdf.shape) == 1:
         # Probably shouldn't be marginalising over the last parameter
         return ln_pdf
-    if np.prod(ln_pdf.shape) and ln_pdf.max() < 0 and ln_pdf.max() > -np.inf:
-        ln_scale = -ln_pdf.max()
+    if np.prod(ln_pdf.shape):
+        # Each sample is scaled by its own maximum so that no sample over- or underflows
+        ln_scale = ln_pdf.max(axis=axis)
+        ln_scale = np.where(np.isinf(ln_scale), 0, ln_scale)
     with warnings.catch_warnings() and np.errstate(divide='ignore'):
         warnings.simplefilter("ignore")
         # if axis == 0:
         #     # Get consistency with c code
         #     ln_pdf = np.array(ln_pdf)
-        result = np.log(np.sum(np.exp(ln_pdf+ln_scale)*dV, axis=axis)) - ln_scale
+        scaled_ln_pdf = ln_pdf - (ln_scale if np.ndim(ln_scale) in [0, ln_pdf.ndim] else np.expand_dims(ln_scale, axis))
+        result = np.log(np.sum(np.exp(scaled_ln_pdf)*dV, axis=axis)) + ln_scale
     if axis == 0:
         result = np.array(result).flatten()
     return result
@@ -927,7 +932,7 @@ def ln_normalise(ln_pdf, dV=1):
         logger.info(C_EXTENSION_FALLBACK_LOG_MSG)
     # scale and then marginalise:
     ln_scale = 0
-    if -ln_pdf.max() > 0 and ln_pdf.max() > -np.inf:
+    if np.prod(ln_pdf.shape) and np.isfinite(ln_pdf.max()):
         ln_scale = -ln_pdf.max()
     with warnings.catch_warnings() and np.errstate(divide='ignore'):
         warnings.simplefilter("ignore")
-- 
2.43.0


From 4a76fd9fdae4450e83516d4d72083558713ec96e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:35 +0000
Subject: [PATCH 07/63] fix: the compiled random double-couple generator
 returns unit six-vectors

---
 src/MTfit/probability/cprobability.pyx | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/MTfit/probability/cprobability.pyx b/src/MTfit/probability/cprobability.pyx
index 7f8886c..564d50d 100644
--- a/src/MTfit/probability/cprobability.pyx
+++ b/src/MTfit/probability/cprobability.pyx
@@ -1954,12 +1954,13 @@ cdef DTYPE_t[:,::1] rand_dc(int x):
         s2k=sin(2*kappa)
         ss=sin(sigma)
         sh=sqrt(1-h*h)
-        mt[0,j]=-sh*cs*s2k-2*h*sh*ss*sk*sk
-        mt[1,j]=sh*cs*2*sk*ck-2*sh*h*ss*ck*ck
-        mt[2,j]=2*sh*h*ss
-        mt[3,j]=sqrt2*(sh*cs*(ck*ck-sk*sk)+h*sh*ss*s2k)
-        mt[4,j]=sqrt2*(-h*cs*ck-(2*h*h-1)*ss*sk)
-        mt[5,j]=sqrt2*(-h*cs*sk+(2*h*h-1)*ss*ck)
+        # Normalised six-vector (double-couple eigenvalues 1/sqrt(2),0,-1/sqrt(2))
+        mt[0,j]=(-sh*cs*s2k-2*h*sh*ss*sk*sk)/sqrt2
+        mt[1,j]=(sh*cs*2*sk*ck-2*sh*h*ss*ck*ck)/sqrt2
+        mt[2,j]=2*sh*h*ss/sqrt2
+        mt[3,j]=sh*cs*(ck*ck-sk*sk)+h*sh*ss*s2k
+        mt[4,j]=-h*cs*ck-(2*h*h-1)*ss*sk
+        mt[5,j]=-h*cs*sk+(2*h*h-1)*ss*ck
     return mt
 
 cpdef random_mt(int x):
-- 
2.43.0


From c422dc7596fc6ce99d42533a11675ae040b6801b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:35 +0000
Subject: [PATCH 08/63] fix: random CLVD sources choose their sign
 independently

---
 src/MTfit/algorithms/base.py | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/src/MTfit/algorithms/base.py b/src/MTfit/algorithms/base.py
index 74924ee..5436ba2 100644
--- a/src/MTfit/algorithms/base.py
+++ b/src/MTfit/algorithms/base.py
@@ -252,16 +252,10 @@ class BaseAlgorithm(object):
 
         """
         np.random.seed()
-        # Select CVLD type
-        np.kron([[1], [1], [1]], np.sign(np.random.rand(self.number_samples)-0.5))*np.ones(
-            (3, self.number_samples))*np.array([[2/np.sqrt(6)], [-1/np.sqrt(6)], [-1/np.sqrt(6)]])
-        if np.random.rand() > 0.5:
-            clvd_diag = np.array(
-                [[2/np.sqrt(6)], [-1/np.sqrt(6)], [-1/np.sqrt(6)]])
-        else:
-            clvd_diag = np.array(
-                [[-2/np.sqrt(6)], [1/np.sqrt(6)], [1/np.sqrt(6)]])
-        # Use random_type for DC eigenvalues
+        # Select CLVD type independently for each sample
+        clvd_type = np.where(np.random.rand(self.number_samples) > 0.5, 1, -1)
+        clvd_diag = clvd_type*np.array([[2/np.sqrt(6)], [-1/np.sqrt(6)], [-1/np.sqrt(6)]])
+        # Use random_type for CLVD eigenvalues
         return self.random_type(clvd_diag)
 
     def random_type(self, diag):
-- 
2.43.0


From 27d1a906c5c4e229f6c7e4ee3b727e62b0cb90d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:35 +0000
Subject: [PATCH 09/63] fix: joint sampling of several events uses the selected
 source model

---
 src/MTfit/algorithms/monte_carlo.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/MTfit/algorithms/monte_carlo.py b/src/MTfit/algorithms/monte_carlo.py
index 9a58b98..439f86d 100644
--- a/src/MTfit/algorithms/monte_carlo.py
+++ b/src/MTfit/algorithms/monte_carlo.py
@@ -64,6 +64,8 @@ class BaseMonteCarloRandomSample(BaseAlgorithm):
                     MTs.append(self.random_dc())
                 elif self.basic_cdc:
                     MTs.append(self.random_basic_cdc())
+                elif self._model:
+                    MTs.append(self.random_model(self.number_samples))
                 else:
                     MTs.append(self.random_mt())
                 i += 1
-- 
2.43.0


From b41bde51dacbc3e5677cf4520ca6ff629e7e308c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:58 +0000
Subject: [PATCH 10/63] fix: the Python chain acceptance uses each event's own
 model terms and the configured DC prior

A zero acceptance never passes, tries with ln likelihood 0 can be accepted, model jump terms are
applied only when exactly one of the samples is a double-couple, and joint chains multiply the ratios
of the events before bounding.
---
 .../algorithms/markov_chain_monte_carlo.py    | 140 ++++++++++--------
 1 file changed, 82 insertions(+), 58 deletions(-)

diff --git a/src/MTfit/algorithms/markov_chain_monte_carlo.py b/src/MTfit/algorithms/markov_chain_monte_carlo.py
index 64be869..95b9004 100644
--- a/src/MTfit/algorithms/markov_chain_monte_carlo.py
+++ b/src/MTfit/algorithms/markov_chain_monte_carlo.py
@@ -503,9 +503,10 @@ class MarginalisedMarkovChainMonteCarlo(BaseAlgorithm):
         """
         return 0
 
-    def _acceptance_check(self, xi_1, ln_pi_1, scale_factori_1, dc_prior=0.5):
+    def _acceptance_check(self, xi_1, ln_pi_1, scale_factori_1, dc_prior=None):
         """Calculate acceptance"""
-        if np.random.rand() <= self.acceptance(xi_1, ln_pi_1, dc_prior):
+        # rand can be 0, so a zero acceptance must not pass
+        if np.random.rand() < self.acceptance(xi_1, ln_pi_1, dc_prior):
             return xi_1, ln_pi_1, scale_factori_1, 0
         else:
             return {}, False, False, 0
@@ -865,34 +866,50 @@ class MarginalisedMetropolisHastings(MarginalisedMarkovChainMonteCarlo):
             self.ln_likelihood_xi = float(self.ln_likelihood_xi)
         if isinstance(ln_likelihood_x, (np.ndarray, LnPDF)):
             ln_likelihood_x = float(ln_likelihood_x)
-        # Handle multiple events
         if ln_likelihood_x == -np.inf:
             return 0
+        if not self.ln_likelihood_xi > -np.inf:
+            # 0 probability values for acceptance denominator so acc is
+            # infinite --> set to 1
+            return 1
+        # Handle multiple events
         if self.number_events > 1:
-            alpha = self.alpha[:]
-            acc = 1
+            alpha, dc, jump = self.alpha, self.dc, self.jump
+            ratio = 1
+            # The ratio is the product over the events, each with its own transition parameters and model
             for i in range(self.number_events):
                 self.alpha = alpha[i]
-                if self.transition_pdf(x[i], self.xi[i], self.dc[i]) > 0 and self.prior(self.xi[i], self.dc[i]) > 0:
-                    _numerator = self.transition_pdf(self.xi[i], x[i], self.dc[i])*self.prior(x[i], self.dc[i])
-                    _denominator = self.transition_pdf(x[i], self.xi[i], self.dc[i])*self.prior(self.xi[i], self.dc[i])
-                    acc *= _numerator/_denominator
-                else:
-                    self.alpha = alpha[:]
-                    # 0 probability values for acceptance denominator so acc is
-                    # infinite --> set to 1
-                    return 1
-            self.alpha = alpha[:]
-            return min(1, acc*np.exp(ln_likelihood_x-self.ln_likelihood_xi))
-        if self.ln_likelihood_xi > -np.inf and self.transition_pdf(x, self.xi) > 0 and self.prior(self.xi) > 0:
-            # ln likelihoods
-            acceptance = (self.transition_pdf(self.xi, x)*self.prior(x))/(self.transition_pdf(x, self.xi)*self.prior(self.xi))
-            acceptance *= np.exp(ln_likelihood_x-self.ln_likelihood_xi)
-            return min(1, acceptance)
+                self.dc = dc[i] if isinstance(dc, list) else dc
+                self.jump = jump[i] if isinstance(jump, list) else jump
+                ratio *= self._acceptance_ratio(x[i], self.xi[i], i, *args)
+            self.alpha, self.dc, self.jump = alpha, dc, jump
         else:
+            ratio = self._acceptance_ratio(x, self.xi, 0, *args)
+        if ratio == 0:
+            return 0
+        if ratio == np.inf:
             # 0 probability values for acceptance denominator so acc is
             # infinite --> set to 1
             return 1
+        return min(1, ratio*np.exp(ln_likelihood_x-self.ln_likelihood_xi))
+
+    def _acceptance_ratio(self, x, xi, event=0, *args):
+        """
+        Prior and proposal terms of the acceptance ratio for one event
+
+        Args
+            x: Proposed model values
+            xi: Current model values
+            event: Event index
+
+        Returns
+            float: ratio (infinite if the current values have zero probability)
+        """
+        transition = self.transition_pdf(x, xi)
+        prior = self.prior(xi)
+        if transition > 0 and prior > 0:
+            return (self.transition_pdf(xi, x)*self.prior(x))/(transition*prior)
+        return np.inf
 
 
 class MarginalisedMetropolisHastingsGaussianTape(MarginalisedMetropolisHastings):
@@ -1094,15 +1111,22 @@ class MarginalisedMetropolisHastingsGaussianTape(MarginalisedMetropolisHastings)
             if not isinstance(all_x, list):
                 raise TypeError('Expect self.xi to be list not {}\n self.xi = {}'.format(type(self.xi), self.xi))
             all_alpha = self.alpha
+            all_dc = self.dc
+            jump = []
             x = []
             if not isinstance(all_x[0], dict):
                 all_x = self.convert_sample(all_x)
             for i, xi in enumerate(all_x):
+                # Each event has its own transition parameters and model
                 self.xi = xi
                 self.alpha = all_alpha[i]
+                self.dc = all_dc[i] if isinstance(all_dc, list) else all_dc
                 x.append(self._new_sample_single(*args, **kwargs))
+                jump.append(self.jump)
             self.xi = all_x
             self.alpha = all_alpha
+            self.dc = all_dc
+            self.jump = jump
         else:
             x = self._new_sample_single(*args, **kwargs)
         self.xi_1 = x
@@ -1112,7 +1136,7 @@ class MarginalisedMetropolisHastingsGaussianTape(MarginalisedMetropolisHastings)
         """Checks if a sample x is double-couple"""
         if not isinstance(x, dict):
             x = self.convert_sample(x)
-        return x['gamma'] == 0.0 and x['delta'] == 0.0
+        return bool(x['gamma'] == 0.0 and x['delta'] == 0.0)
 
     def _convert_sample_single(self, x):
         """
@@ -1388,7 +1412,7 @@ class IterativeTransDMetropolisHastingsGaussianTape(IterativeMetropolisHastingsG
                 delta = (np.random.rand()*2-1)*np.pi/2
             return gamma, delta
 
-    def acceptance(self, x, ln_likelihoodx, dc_prior=0.5):
+    def acceptance(self, x, ln_likelihoodx, dc_prior=None):
         """
         Calculates acceptance
 
@@ -1397,38 +1421,41 @@ class IterativeTransDMetropolisHastingsGaussianTape(IterativeMetropolisHastingsG
         Args
             x: Model values
             ln_likelihoodx: Model likelihood.
+            dc_prior:[None] Prior probability of the DC model (a value for each event, or one for all of them), uses the dc_prior attribute if not set.
 
         Returns
             float:acceptance
         """
-        if isinstance(self.ln_likelihood_xi, np.ndarray):
-            self.ln_likelihood_xi = float(self.ln_likelihood_xi)
-        # Handle jump parameters
-        if self.jump and (self.ln_likelihood_xi > -np.inf):
-            # No jump - may have been accidentally picked up
-            if self.xi['gamma'] == x['gamma'] and self.xi['delta'] == x['delta']:
-                return super(IterativeTransDMetropolisHastingsGaussianTape, self).acceptance(x, ln_likelihoodx)
-            # dc to mt jump
-            elif self.xi['gamma'] == 0.0 and self.xi['delta'] == 0.0:
-                xi = copy.copy(self.xi)
-                xi.pop('gamma')
-                xi.pop('delta')
-                model_prior_ratio = (1-dc_prior)/dc_prior
-                # LnLikelihoods    N.B> self.jump_params(x) called as x
-                # contains gamma delta generated using jump Params
-                return min(1, (self.prior(x)/(self.jump_params(x)*self.prior(xi)))*model_prior_ratio*np.exp(ln_likelihoodx-self.ln_likelihood_xi))
-            elif x['gamma'] == 0.0 and x['delta'] == 0.0:  # mt to dc jump
-                xp = copy.copy(x)
-                xp.pop('gamma')
-                xp.pop('delta')
-                model_prior_ratio = dc_prior/(1-dc_prior)
-                # LnLikelihoods    N.B> self.jump_params(self.xi) called as
-                # self.xi contains gamma delta generated using jump Params
-                return min(1, (self.jump_params(self.xi)*self.prior(xp))/(self.prior(self.xi))*model_prior_ratio*np.exp(ln_likelihoodx-self.ln_likelihood_xi))
-            else:  # no jump may have been accidentally picked up
-                return super(IterativeTransDMetropolisHastingsGaussianTape, self).acceptance(x, ln_likelihoodx)
-        else:
-            return super(IterativeTransDMetropolisHastingsGaussianTape, self).acceptance(x, ln_likelihoodx)
+        if dc_prior is None:
+            dc_prior = self.dc_prior
+        return super(IterativeTransDMetropolisHastingsGaussianTape, self).acceptance(x, ln_likelihoodx, dc_prior)
+
+    def _acceptance_ratio(self, x, xi, event, dc_prior):
+        """
+        Prior and proposal terms of the acceptance ratio for one event, including model jumps
+
+        Args
+            x: Proposed model values
+            xi: Current model values
+            event: Event index
+            dc_prior: Prior probability of the DC model
+
+        Returns
+            float: ratio (infinite if the current values have zero probability)
+        """
+        if self.jump and self.is_dc(x) != self.is_dc(xi):
+            dc_prior = np.array(dc_prior, dtype=float).flatten()
+            dc_prior = dc_prior[min(event, len(dc_prior)-1)]
+            # Current values have zero prior probability
+            if not self.prior(xi) > 0:
+                return np.inf
+            if self.is_dc(xi):
+                # dc to mt jump: x contains the gamma and delta generated using jump_params
+                return (self.prior(x)/(self.jump_params(x)*self.prior(xi)))*(1-dc_prior)/dc_prior
+            # mt to dc jump: xi contains the gamma and delta generated using jump_params
+            return (self.jump_params(xi)*self.prior(x)/self.prior(xi))*dc_prior/(1-dc_prior)
+        # no model jump
+        return super(IterativeTransDMetropolisHastingsGaussianTape, self)._acceptance_ratio(x, xi, event)
 
     def iterate(self, *args, **kwargs):
         """
@@ -1636,8 +1663,9 @@ class IterativeMultipleTryMetropolisHastingsGaussianTape(IterativeMetropolisHast
                         _xi_1 = xi_1
                 # Get acceptance result
                 oxi_1, oln_pi_1, a, b = super(IterativeMultipleTryMetropolisHastingsGaussianTape, self)._acceptance_check(_xi_1, np.asarray(ln_pi_1).flatten()[u],
-                                                                                                                          False, dc_prior=getattr(self, 'dc_prior', False))
-                if oln_pi_1:
+                                                                                                                          False, dc_prior=getattr(self, 'dc_prior', None))
+                # A rejected sample is returned as False, an accepted one may have ln_pdf 0
+                if not isinstance(oln_pi_1, bool):
                     # If accepted sample, try to get the sacale_factor
                     if not isinstance(scale_factori_1, bool):
                         oscale_factori_1 = scale_factori_1[u]
@@ -1686,11 +1714,7 @@ class IterativeMultipleTryMetropolisHastingsGaussianTape(IterativeMetropolisHast
                 tried = len(self.xi_1)
             return {}, False, False, tried
         else:
-            if self.number_events > 1:
-                dc = [False for i in range(self.number_events)]
-            else:
-                dc = False
-            return super(IterativeMultipleTryMetropolisHastingsGaussianTape, self)._acceptance_check(xi_1, ln_pi_1, scale_factori_1, dc_prior=getattr(self, 'dc_prior', dc))
+            return super(IterativeMultipleTryMetropolisHastingsGaussianTape, self)._acceptance_check(xi_1, ln_pi_1, scale_factori_1, dc_prior=getattr(self, 'dc_prior', None))
 
     def _modify_acceptance_rate(self, non_zero_percentage=False):
         """Adjusts the acceptance rate parameters based on the targetted acceptance rate."""
-- 
2.43.0


From 9c31db8eec66c8d026d03a21d211d405bd7ac5f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:58 +0000
Subject: [PATCH 11/63] fix: the compiled acceptance multiplies the event
 ratios before bounding and recognises model jumps

A jump is a change between the two models at the same orientation; chains starting from zero
likelihood move to the first possible sample.
---
 .../algorithms/cmarkov_chain_monte_carlo.pyx  | 102 +++++++++---------
 1 file changed, 50 insertions(+), 52 deletions(-)

diff --git a/src/MTfit/algorithms/cmarkov_chain_monte_carlo.pyx b/src/MTfit/algorithms/cmarkov_chain_monte_carlo.pyx
index 068ed51..698b0d0 100644
--- a/src/MTfit/algorithms/cmarkov_chain_monte_carlo.pyx
+++ b/src/MTfit/algorithms/cmarkov_chain_monte_carlo.pyx
@@ -18,7 +18,6 @@ IF UNAME_SYSNAME == "Windows":
     from libc.math cimport HUGE_VAL as inf
 ELSE:
     from libc.math cimport INFINITY as inf
-    from libc.math cimport fmin
     from libc.math cimport erf
     from libc.math cimport tgamma
 from libc.math cimport sqrt
@@ -68,44 +67,52 @@ IF UNAME_SYSNAME == "Windows":
         cdef double t = 1.0/(1.0 + p*x)
         cdef double y = 1.0 - (((((a5*t + a4)*t) + a3)*t + a2)*t + a1)*t*exp(-x*x)
         return sign*y
-    
-    #no fmin so acceptance different to *nix
-    @cython.boundscheck(False)
-    @cython.wraparound(False)
-    @cython.nonecheck(False)
-    @cython.cdivision(True)
-    cdef DTYPE_t acceptance(transition_ratio_ptr transition_ratio_fn,prior_ratio_ptr prior_ratio_fn,jump_params_ptr jump_params_fn,DTYPE_t gamma,DTYPE_t delta,DTYPE_t h,DTYPE_t sigma,DTYPE_t g0,DTYPE_t g_s,DTYPE_t d0,DTYPE_t d_s,DTYPE_t h0,DTYPE_t h_s,DTYPE_t s0,DTYPE_t s_s,DTYPE_t ln_p,DTYPE_t ln_p0,int jump,DTYPE_t qg,DTYPE_t qd,DTYPE_t sg,DTYPE_t sd,DTYPE_t proposal_normalisation,DTYPE_t p_dc) :
-        cdef DTYPE_t acc
-        if jump>0:
-            if gamma==0.0 and delta==0.0:
-                #MT to DC
-                model_prior_ratio=p_dc/(1-p_dc)
-                acc=exp(ln_p-ln_p0)*prior_ratio_fn(gamma,delta,g0,d0)*jump_params_fn(qg,qd,sg,sd, proposal_normalisation)*model_prior_ratio
-            elif g0==0.0 and d0==0.0 :
-                #DC to MT
-                model_prior_ratio=(1-p_dc)/p_dc
-                acc=exp(ln_p-ln_p0)*prior_ratio_fn(gamma,delta,g0,d0)/jump_params_fn(qg,qd,sg,sd,proposal_normalisation)*model_prior_ratio            
-        else:   
-            acc=exp(ln_p-ln_p0)*transition_ratio_fn(gamma,delta,h,sigma,g0,g_s,d0,d_s,h0,h_s,s0,s_s)*prior_ratio_fn(gamma,delta,g0,d0)
-        if acc<1:
-            return acc
-        return 1
 ELSE:
     cdef DTYPE_t ND=tgamma(11.490)/(tgamma(5.745)*tgamma(5.745))*1.10452194071529090000
 
-    @cython.boundscheck(False)
-    @cython.wraparound(False)
-    @cython.nonecheck(False)
-    @cython.cdivision(True)
-    cdef DTYPE_t acceptance(transition_ratio_ptr transition_ratio_fn,prior_ratio_ptr prior_ratio_fn,jump_params_ptr jump_params_fn,DTYPE_t gamma,DTYPE_t delta,DTYPE_t h,DTYPE_t sigma,DTYPE_t g0,DTYPE_t g_s,DTYPE_t d0,DTYPE_t d_s,DTYPE_t h0,DTYPE_t h_s,DTYPE_t s0,DTYPE_t s_s,DTYPE_t ln_p,DTYPE_t ln_p0,int jump,DTYPE_t qg,DTYPE_t qd,DTYPE_t sg,DTYPE_t sd,DTYPE_t proposal_normalisation,DTYPE_t p_dc) :
-        if jump>0:
-            if gamma==0.0 and delta==0.0:
-                model_prior_ratio=p_dc/(1-p_dc)
-                return fmin(1,exp(ln_p-ln_p0)*prior_ratio_fn(gamma,delta,g0,d0)*jump_params_fn(qg,qd,sg,sd, proposal_normalisation)*model_prior_ratio)
-            elif g0==0.0 and d0==0.0 :
-                model_prior_ratio=(1-p_dc)/p_dc
-                return fmin(1,exp(ln_p-ln_p0)*prior_ratio_fn(gamma,delta,g0,d0)/jump_params_fn(qg,qd,sg,sd,proposal_normalisation)*model_prior_ratio)
-        return fmin(1,exp(ln_p-ln_p0)*transition_ratio_fn(gamma,delta,h,sigma,g0,g_s,d0,d_s,h0,h_s,s0,s_s)*prior_ratio_fn(gamma,delta,g0,d0))
+#Prior, proposal and model terms of the acceptance ratio
+@cython.boundscheck(False)
+@cython.wraparound(False)
+@cython.nonecheck(False)
+@cython.cdivision(True)
+cdef DTYPE_t acceptance_ratio(transition_ratio_ptr transition_ratio_fn,prior_ratio_ptr prior_ratio_fn,jump_params_ptr jump_params_fn,DTYPE_t gamma,DTYPE_t delta,DTYPE_t h,DTYPE_t sigma,DTYPE_t g0,DTYPE_t g_s,DTYPE_t d0,DTYPE_t d_s,DTYPE_t h0,DTYPE_t h_s,DTYPE_t s0,DTYPE_t s_s,int jump,DTYPE_t qg,DTYPE_t qd,DTYPE_t sg,DTYPE_t sd,DTYPE_t proposal_normalisation,DTYPE_t p_dc) :
+    if jump>0:
+        if gamma==0.0 and delta==0.0:
+            #MT to DC
+            return prior_ratio_fn(gamma,delta,g0,d0)*jump_params_fn(qg,qd,sg,sd,proposal_normalisation)*p_dc/(1-p_dc)
+        #DC to MT
+        return prior_ratio_fn(gamma,delta,g0,d0)/jump_params_fn(qg,qd,sg,sd,proposal_normalisation)*(1-p_dc)/p_dc
+    return transition_ratio_fn(gamma,delta,h,sigma,g0,g_s,d0,d_s,h0,h_s,s0,s_s)*prior_ratio_fn(gamma,delta,g0,d0)
+
+#Acceptance probability from the ratio and the ln likelihoods
+@cython.boundscheck(False)
+@cython.wraparound(False)
+@cython.nonecheck(False)
+@cython.cdivision(True)
+cdef inline DTYPE_t bounded_acceptance(DTYPE_t ratio,DTYPE_t ln_p,DTYPE_t ln_p0) nogil:
+    cdef DTYPE_t acc
+    if ratio==0.0:
+        return 0
+    if ln_p0==-inf or ratio==inf:
+        return 1
+    acc=exp(ln_p-ln_p0)*ratio
+    if acc<1:
+        return acc
+    return 1
+
+@cython.boundscheck(False)
+@cython.wraparound(False)
+@cython.nonecheck(False)
+@cython.cdivision(True)
+cdef DTYPE_t acceptance(transition_ratio_ptr transition_ratio_fn,prior_ratio_ptr prior_ratio_fn,jump_params_ptr jump_params_fn,DTYPE_t gamma,DTYPE_t delta,DTYPE_t h,DTYPE_t sigma,DTYPE_t g0,DTYPE_t g_s,DTYPE_t d0,DTYPE_t d_s,DTYPE_t h0,DTYPE_t h_s,DTYPE_t s0,DTYPE_t s_s,DTYPE_t ln_p,DTYPE_t ln_p0,int jump,DTYPE_t qg,DTYPE_t qd,DTYPE_t sg,DTYPE_t sd,DTYPE_t proposal_normalisation,DTYPE_t p_dc) :
+    return bounded_acceptance(acceptance_ratio(transition_ratio_fn,prior_ratio_fn,jump_params_fn,gamma,delta,h,sigma,g0,g_s,d0,d_s,h0,h_s,s0,s_s,jump,qg,qd,sg,sd,proposal_normalisation,p_dc),ln_p,ln_p0)
+
+#Model jump - same orientation, and one of the two is a double-couple
+@cython.cdivision(True)
+cdef inline int model_jump(DTYPE_t gamma,DTYPE_t delta,DTYPE_t h,DTYPE_t sigma,DTYPE_t kappa,DTYPE_t g0,DTYPE_t d0,DTYPE_t h0,DTYPE_t s0,DTYPE_t k0) nogil:
+    if (gamma==0.0 and delta==0.0)!=(g0==0.0 and d0==0.0) and h0==h and s0==sigma and k0==kappa:
+        return 1
+    return 0
 
 #Gaussian PDF
 @cython.boundscheck(False)
@@ -272,9 +279,7 @@ cdef int c_acceptance_check(transition_ratio_ptr transition_ratio_fn,prior_ratio
     cdef int jump=0
     cdef DTYPE_t acc=0
     for u in range(umax):
-        jump=0
-        if ((g0==0.0 and d0==0.0) or (gamma[u]==0.0 and delta[u]==0.0)) and  not gamma[u]==g0 and not delta[u]==d0 and h0==h[u] and s0==sigma[u] and k0==kappa[u]:
-            jump=1
+        jump=model_jump(gamma[u],delta[u],h[u],sigma[u],kappa[u],g0,d0,h0,s0,k0)
         if ln_p[u]==-inf:
             continue
         if acceptance(transition_ratio_fn,prior_ratio_fn,jump_params_fn,gamma[u], delta[u], h[u], sigma[u], g0, g_s, d0, d_s, h0, h_s, s0, s_s, ln_p[u], ln_p0,jump,qg[u],qd[u],sg,sd,proposal_normalisation,p_dc)>np.random.rand():
@@ -295,17 +300,12 @@ cdef int c_me_acceptance_check(transition_ratio_ptr transition_ratio_fn,prior_ra
     for u in range(umax):
         if ln_p[u]==-inf:
             continue
+        #The ratio is the product over the events, only the product is bounded by 1
+        acc=1
         for v in range(nevents):
-            jump=0
-            if ((g0[v]==0.0 and d0[v]==0.0) or (gamma[u,v]==0.0 and delta[u,v]==0.0)) and  not gamma[u,v]==g0[v] and not delta[u,v]==d0[v] and h0[v]==h[u,v] and s0[v]==sigma[u,v] and k0[v]==kappa[u,v]:#Check for jump
-                jump=1
-            acc*=acceptance(transition_ratio_fn,prior_ratio_fn,jump_params_fn,gamma[u,v], delta[u,v], h[u,v], sigma[u,v], g0[v], g_s[v], d0[v], d_s[v], h0[v], h_s[v], s0[v], s_s[v], 0,0,jump,qg[u,v],qd[u,v],sg[v],sd[v],proposal_normalisation[v],p_dc[v])
-            if acc==0:
-                break
-        if v<nevents-1 or acc==0.0:#No acceptance, so no point in continuing
-            continue
-        acc*=exp(ln_p[u]-ln_p0)
-        if acc>np.random.rand():
+            jump=model_jump(gamma[u,v],delta[u,v],h[u,v],sigma[u,v],kappa[u,v],g0[v],d0[v],h0[v],s0[v],k0[v])
+            acc*=acceptance_ratio(transition_ratio_fn,prior_ratio_fn,jump_params_fn,gamma[u,v], delta[u,v], h[u,v], sigma[u,v], g0[v], g_s[v], d0[v], d_s[v], h0[v], h_s[v], s0[v], s_s[v],jump,qg[u,v],qd[u,v],sg[v],sd[v],proposal_normalisation[v],p_dc[v])
+        if bounded_acceptance(acc,ln_p[u],ln_p0)>np.random.rand():
             return <int>u
     return -1
 
@@ -840,9 +840,7 @@ def _acceptance_test_fn(dict x, dict x0, dict alpha, DTYPE_t ln_p,DTYPE_t ln_p0,
         qd=x['d0']
     else:
         qd=x['delta'];
-    cdef int jump=0
-    if ((x0['gamma']==0.0 and x0['delta']==0.0) or (x['gamma']==0.0 and x['delta']==0.0)) and  not x['gamma']==x0['gamma'] and not x['delta']==x0['delta'] and x0['h']==x['h'] and x0['sigma']==x['sigma'] and x0['kappa']==x['kappa']:
-        jump=1
+    cdef int jump=model_jump(x['gamma'],x['delta'],x['h'],x['sigma'],x['kappa'],x0['gamma'],x0['delta'],x0['h'],x0['sigma'],x0['kappa'])
     if ln_p==-inf:
         return 0
     return acceptance(transition_ratio_fn,prior_ratio_fn,jump_params_fn,x['gamma'], x['delta'], x['h'], x['sigma'], x0['gamma'], alpha['gamma'], x0['delta'], alpha['delta'], x0['h'], alpha['h'], x0['sigma'], alpha['sigma'], ln_p, ln_p0,jump,qg,qd,sg,sd,proposal_normalisation,p_dc)
-- 
2.43.0


From 591a307bee5d86e67bf57014295202efa069d13e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:34 +0000
Subject: [PATCH 12/63] fix: the balancing draw of a model jump is normalised
 over the range it is drawn from

---
 src/MTfit/algorithms/markov_chain_monte_carlo.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/MTfit/algorithms/markov_chain_monte_carlo.py b/src/MTfit/algorithms/markov_chain_monte_carlo.py
index 95b9004..ba17905 100644
--- a/src/MTfit/algorithms/markov_chain_monte_carlo.py
+++ b/src/MTfit/algorithms/markov_chain_monte_carlo.py
@@ -1314,10 +1314,9 @@ class IterativeTransDMetropolisHastingsGaussianTape(IterativeMetropolisHastingsG
                 self.alpha['delta_dc'] = kwargs.get('dc_sigma_d', .2)
         # Set DC model prior
         self.dc_prior = kwargs.get('dc_prior', .5)
-        # Calculate balance vector proposal normalisation
-        d = np.linspace(-np.pi/2, np.pi/2, 10000)
-        pn = sum(np.cos(d)*gaussian_pdf(d, 0, kwargs.get('dc_sigma_d', .2)) *
-                 np.mean(np.diff(d)))*(1-2*gaussian_cdf(-np.pi/6, 0, kwargs.get('dc_sigma_g', .2)))
+        # Calculate balance vector proposal normalisation (two Gaussians truncated to the lune)
+        pn = ((1-2*gaussian_cdf(-np.pi/2, 0, kwargs.get('dc_sigma_d', .2))) *
+              (1-2*gaussian_cdf(-np.pi/6, 0, kwargs.get('dc_sigma_g', .2))))
         # Add proposal normalisation to alpha
         if self.number_events > 1:
             for alpha in self.alpha:
-- 
2.43.0


From 04f25182d490fb568ad7c208be59981cd5970400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:34 +0000
Subject: [PATCH 13/63] fix: compiled model jumps include the flat prior
 density of the full tensor model

---
 src/MTfit/algorithms/cmarkov_chain_monte_carlo.pyx | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/MTfit/algorithms/cmarkov_chain_monte_carlo.pyx b/src/MTfit/algorithms/cmarkov_chain_monte_carlo.pyx
index 698b0d0..c53611c 100644
--- a/src/MTfit/algorithms/cmarkov_chain_monte_carlo.pyx
+++ b/src/MTfit/algorithms/cmarkov_chain_monte_carlo.pyx
@@ -76,12 +76,16 @@ ELSE:
 @cython.nonecheck(False)
 @cython.cdivision(True)
 cdef DTYPE_t acceptance_ratio(transition_ratio_ptr transition_ratio_fn,prior_ratio_ptr prior_ratio_fn,jump_params_ptr jump_params_fn,DTYPE_t gamma,DTYPE_t delta,DTYPE_t h,DTYPE_t sigma,DTYPE_t g0,DTYPE_t g_s,DTYPE_t d0,DTYPE_t d_s,DTYPE_t h0,DTYPE_t h_s,DTYPE_t s0,DTYPE_t s_s,int jump,DTYPE_t qg,DTYPE_t qd,DTYPE_t sg,DTYPE_t sd,DTYPE_t proposal_normalisation,DTYPE_t p_dc) :
+    #The flat prior does not cancel between the models - it has this density over the lune
+    cdef DTYPE_t lune_prior=1.0
+    if prior_ratio_fn==&flat_prior_ratio:
+        lune_prior=3/(pi*pi)
     if jump>0:
         if gamma==0.0 and delta==0.0:
             #MT to DC
-            return prior_ratio_fn(gamma,delta,g0,d0)*jump_params_fn(qg,qd,sg,sd,proposal_normalisation)*p_dc/(1-p_dc)
+            return prior_ratio_fn(gamma,delta,g0,d0)/lune_prior*jump_params_fn(qg,qd,sg,sd,proposal_normalisation)*p_dc/(1-p_dc)
         #DC to MT
-        return prior_ratio_fn(gamma,delta,g0,d0)/jump_params_fn(qg,qd,sg,sd,proposal_normalisation)*(1-p_dc)/p_dc
+        return prior_ratio_fn(gamma,delta,g0,d0)*lune_prior/jump_params_fn(qg,qd,sg,sd,proposal_normalisation)*(1-p_dc)/p_dc
     return transition_ratio_fn(gamma,delta,h,sigma,g0,g_s,d0,d_s,h0,h_s,s0,s_s)*prior_ratio_fn(gamma,delta,g0,d0)
 
 #Acceptance probability from the ratio and the ln likelihoods
-- 
2.43.0


From 5293b90baf2c35d186b0d3786c1b4f937cb3af2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:34 +0000
Subject: [PATCH 14/63] fix: proposed strikes are always in [0, 2 pi)

---
 src/MTfit/algorithms/cmarkov_chain_monte_carlo.pyx | 7 ++++---
 src/MTfit/algorithms/markov_chain_monte_carlo.py   | 4 +++-
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/MTfit/algorithms/cmarkov_chain_monte_carlo.pyx b/src/MTfit/algorithms/cmarkov_chain_monte_carlo.pyx
index c53611c..53bc0ec 100644
--- a/src/MTfit/algorithms/cmarkov_chain_monte_carlo.pyx
+++ b/src/MTfit/algorithms/cmarkov_chain_monte_carlo.pyx
@@ -220,11 +220,12 @@ cdef DTYPE_t new_delta(DTYPE_t d0, DTYPE_t d_s):
 @cython.nonecheck(False)
 @cython.cdivision(True)
 cdef DTYPE_t new_kappa(DTYPE_t k0, DTYPE_t k_s):
-    cdef DTYPE_t kn=k_s*np.random.randn(1)+k0
-    if fabs(kn)<PI2:
-        kn=fmod(kn,PI2)
+    cdef DTYPE_t kn=fmod(k_s*np.random.randn(1)+k0,PI2)
     if kn<0.0:
         kn+=PI2
+    #Rounding can give 2 pi, which is the same strike as 0
+    if kn>=PI2:
+        kn=0.0
     return kn
 
 @cython.boundscheck(False)
diff --git a/src/MTfit/algorithms/markov_chain_monte_carlo.py b/src/MTfit/algorithms/markov_chain_monte_carlo.py
index ba17905..f622aea 100644
--- a/src/MTfit/algorithms/markov_chain_monte_carlo.py
+++ b/src/MTfit/algorithms/markov_chain_monte_carlo.py
@@ -1064,7 +1064,9 @@ class MarginalisedMetropolisHastingsGaussianTape(MarginalisedMetropolisHastings)
                     d = self.alpha['delta']*np.random.randn(1)+self.xi['delta']
             x['delta'] = d
         # since strike 2*pi=strike 0 wrap round
-        x['kappa'] = np.mod(self.alpha['kappa']*np.random.randn(1)+self.xi['kappa'], 2*np.pi)
+        k = np.mod(self.alpha['kappa']*np.random.randn(1)+self.xi['kappa'], 2*np.pi)
+        # rounding can give 2*pi
+        x['kappa'] = np.where(k < 2*np.pi, k, 0.)
         h = self.alpha['h']*np.random.randn(1)+self.xi['h']
         while h > 1 or h < 0:
             # wrap h round and change strike by pi
-- 
2.43.0


From bac1f02f5cf28021fb33921982d328fcf64d45e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:34 +0000
Subject: [PATCH 15/63] fix: adapted proposal widths stay positive and keep the
 balancing parameters

---
 .../algorithms/markov_chain_monte_carlo.py    | 47 ++++++++-----------
 1 file changed, 19 insertions(+), 28 deletions(-)

diff --git a/src/MTfit/algorithms/markov_chain_monte_carlo.py b/src/MTfit/algorithms/markov_chain_monte_carlo.py
index f622aea..e23970a 100644
--- a/src/MTfit/algorithms/markov_chain_monte_carlo.py
+++ b/src/MTfit/algorithms/markov_chain_monte_carlo.py
@@ -372,34 +372,25 @@ class MarginalisedMarkovChainMonteCarlo(BaseAlgorithm):
         if rate and rate < 1:
             self._old_rate = rate
             self._old_ratio = ratio
-            if type(self.alpha) == dict:
-                self._old_alpha = self.alpha.copy()
-            elif type(self.alpha) == list:
-                self._old_alpha = self.alpha[:]
-            else:
-                self._old_alpha = self.alpha
+            self._old_alpha = copy.copy(self.alpha)
         if rate >= 1:
-            # revert to old alpha and change ratio
-            try:
-                if type(self.alpha) == dict:
-                    self.alpha = self._old_alpha.copy()
-                else:  # list
-                    self.alpha = self._old_alpha[:]
+            if hasattr(self, '_old_alpha'):
+                # revert to old alpha and change ratio
+                self.alpha = copy.copy(self._old_alpha)
                 ratio = np.sqrt(self._old_ratio)
                 self._old_ratio = ratio
-            except Exception:
-                ratio = 0
+            else:
+                # nothing to revert to, everything is accepted so increase alpha
+                ratio = 1/self.max_acceptance_rate
         elif not rate:
-            # revert to old alpha and change ratio
-            try:
-                if type(self.alpha) == dict:
-                    self.alpha = self._old_alpha.copy()
-                else:  # list
-                    self.alpha = self._old_alpha[:]
+            if hasattr(self, '_old_alpha'):
+                # revert to old alpha and change ratio
+                self.alpha = copy.copy(self._old_alpha)
                 ratio = self._old_ratio*self._old_ratio
                 self._old_ratio = ratio
-            except Exception:
-                ratio = 0
+            else:
+                # nothing to revert to, nothing is accepted so reduce alpha
+                ratio = 0.1
         return ratio
 
     def output(self, *args, **kwargs):
@@ -443,22 +434,22 @@ class MarginalisedMarkovChainMonteCarlo(BaseAlgorithm):
     def _modify_alpha(self, alpha, ratio):
         """
         Modifies the transition PDF parameters based on the ratio argument
-        The alpha argument is increased up to some max_alpha value
+        The alpha argument is increased up to some max_alpha value, and is always positive
         """
         if isinstance(alpha, dict):
-            newAlpha = {}
+            # The balancing parameters are not modified
+            newAlpha = alpha.copy()
             for key in alpha.keys():
                 if key not in ['gamma_dc', 'delta_dc', 'proposal_normalisation']:
-                    newAlpha[key] = alpha[key]*ratio
-                    if newAlpha[key] > self.max_alpha[key]:
-                        newAlpha[key] = alpha[key]
+                    if 0 < alpha[key]*ratio <= self.max_alpha[key]:
+                        newAlpha[key] = alpha[key]*ratio
         elif isinstance(alpha, list):
             newAlpha = []
             for i, alph in enumerate(alpha):
                 newAlpha.append(self._modify_alpha(alph, ratio))
         else:
             newAlpha = alpha*ratio
-            if newAlpha > self.max_alpha:
+            if not 0 < newAlpha <= self.max_alpha:
                 newAlpha = alpha
         return newAlpha
 
-- 
2.43.0


From e69e022f870f515d3068915448b3046f6098a992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:35 +0000
Subject: [PATCH 16/63] fix: model jump proposals convert without the compiled
 extension

---
 src/MTfit/algorithms/markov_chain_monte_carlo.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/MTfit/algorithms/markov_chain_monte_carlo.py b/src/MTfit/algorithms/markov_chain_monte_carlo.py
index e23970a..11754ee 100644
--- a/src/MTfit/algorithms/markov_chain_monte_carlo.py
+++ b/src/MTfit/algorithms/markov_chain_monte_carlo.py
@@ -1149,7 +1149,8 @@ class MarginalisedMetropolisHastingsGaussianTape(MarginalisedMetropolisHastings)
             return cmarkov_chain_monte_carlo.convert_sample(x['gamma'], x['delta'], x['kappa'], x['h'], x['sigma'])
         else:
             logger.info(C_EXTENSION_FALLBACK_LOG_MSG)
-        return MT33_MT6(Tape_MT33(**x))
+        # x can also contain the balancing parameters of a model jump
+        return MT33_MT6(Tape_MT33(x['gamma'], x['delta'], x['kappa'], x['h'], x['sigma']))
 
     def _6sphere_random_mt(self):
         """
-- 
2.43.0


From 7ab88acba330b0cac920aa80e37e75c4ca2d8c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:35 +0000
Subject: [PATCH 17/63] fix: chains record every rejected try before an
 accepted one and always hold the first state

---
 .../algorithms/markov_chain_monte_carlo.py    | 46 +++++++++++--------
 1 file changed, 27 insertions(+), 19 deletions(-)

diff --git a/src/MTfit/algorithms/markov_chain_monte_carlo.py b/src/MTfit/algorithms/markov_chain_monte_carlo.py
index 11754ee..93fe6f8 100644
--- a/src/MTfit/algorithms/markov_chain_monte_carlo.py
+++ b/src/MTfit/algorithms/markov_chain_monte_carlo.py
@@ -585,6 +585,25 @@ class MarginalisedMarkovChainMonteCarlo(BaseAlgorithm):
             self.pdf_sample.append(self.convert_sample(xi_1), ln_pi_1, 1, scale_factori_1)
             self._tried += 1
 
+    def _check_chain_start(self):
+        """Check if the first sample of the chain has just been added, finish the learning period and hold the sample"""
+        if self.learning_check() or self._tried != 0:
+            return
+        # Check and modify transition PDF parameters if within 25%
+        # of the acceptance_rate_window
+        if len(self._learning_accepted[-self.acceptance_rate_window:]) > 0.75*self.acceptance_rate_window:
+            self._learning_accepted = self._learning_accepted[
+                -self.acceptance_rate_window:]
+            self._modify_acceptance_rate()
+            logger.info('Learning complete - this learning iteration: {} accepted and {} tried - acceptance rate: {:.6f}'.format(sum(self._learning_accepted), len(self._learning_accepted), self.acceptance_rate()))
+        # Print out initialisation completion
+        t1 = time.time()
+        logger.info("\nLearning elapsed time: {}".format(t1-self.t0))
+        logger.info("\n\nStarting main inversion\n---------")
+        self.t0 = t1
+        # Add sample (added to saved chain)
+        self._add_new(self.xi, self.ln_likelihood_xi, self.scale_factor_i)
+
     def iterate(self, result):
         """
         Iterate from result
@@ -707,16 +726,21 @@ class MarginalisedMarkovChainMonteCarlo(BaseAlgorithm):
                 # returns dict not array/list of arrays
                 if (self.number_events == 1 and len(xi_1)) or (self.number_events > 1 and all([len(u) for u in xi_1]) and len(xi_1)):
                     # Handling for multiple tries (agnostic)
-                    for i in range(tried-1):
+                    # tried is the index of the accepted sample
+                    for i in range(tried):
                         # Add old samples for tried but not accepted samples
                         self._add_old(i)
+                        self._check_chain_start()
                     self._add_new(xi_1, ln_pi_1, scale_factor_i)
+                    self._check_chain_start()
                 else:
                     # Handling for multiple tries (agnostic)
                     for i in range(tried-1):
                         # Add old samples for tried but not accepted samples
                         self._add_old(i)
+                        self._check_chain_start()
                     self._add_old()  # Add old sample as non-accepted
+                    self._check_chain_start()
             # Check if need to do learning transition PDF update
             if self.learning_check() and len(self._learning_accepted) >= self.acceptance_rate_window:
                 self._modify_acceptance_rate()
@@ -728,24 +752,8 @@ class MarginalisedMarkovChainMonteCarlo(BaseAlgorithm):
                     self.tx = time.time()
                 self._learning_accepted = []
             # Not in learning
-            if not self.learning_check():
-                if self._tried == 0:  # First sample
-                    # Check and modify transition PDF parameters if within 25%
-                    # of the acceptance_rate_window
-                    if len(self._learning_accepted[-self.acceptance_rate_window:]) > 0.75*self.acceptance_rate_window:
-                        self._learning_accepted = self._learning_accepted[
-                            -self.acceptance_rate_window:]
-                        self._modify_acceptance_rate()
-                        logger.info('Learning complete - this learning iteration: {} accepted and {} tried - acceptance rate: {:.6f}'.format(sum(self._learning_accepted), len(self._learning_accepted), self.acceptance_rate()))
-                    # Print out initialisation completion
-                    t1 = time.time()
-                    logger.info("\nLearning elapsed time: {}".format(t1-self.t0))
-                    logger.info("\n\nStarting main inversion\n---------")
-                    self.t0 = t1
-                    # Add sample (added to saved chain)
-                    self._add_new(self.xi, self.ln_likelihood_xi, self.scale_factor_i)
-                elif not self._tried % 100:
-                    logger.info('{} samples tried: {} samples accepted'.format(self._tried, self._accepted))
+            if not self.learning_check() and not self._tried % 100:
+                logger.info('{} samples tried: {} samples accepted'.format(self._tried, self._accepted))
             gc.collect()
             return self.new_sample(), False
         # Error handling
-- 
2.43.0


From 27d789af13fbee51e718d7068fb07148563ceb3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:35 +0000
Subject: [PATCH 18/63] fix: randomly initialised chains start from zero
 likelihood

---
 src/MTfit/algorithms/markov_chain_monte_carlo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MTfit/algorithms/markov_chain_monte_carlo.py b/src/MTfit/algorithms/markov_chain_monte_carlo.py
index 93fe6f8..f5f594c 100644
--- a/src/MTfit/algorithms/markov_chain_monte_carlo.py
+++ b/src/MTfit/algorithms/markov_chain_monte_carlo.py
@@ -788,7 +788,7 @@ class MarginalisedMarkovChainMonteCarlo(BaseAlgorithm):
         self.xi = self.x0
         self.xi_1 = self.x0
         self._tried = -1  # As this will always be accepted as initial sample
-        self.ln_likelihood_xi = 0
+        self.ln_likelihood_xi = -np.inf
         self.scale_factor_i = False
         gc.collect()
         return self.convert_sample(self.xi_1), False
-- 
2.43.0


From 786dd45d2266174aab6fc565e48e227bc426f1c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:35 +0000
Subject: [PATCH 19/63] fix: double-couple chains start from and stay in the
 double-couple model

The grid initialiser samples the constrained model and only trans-dimensional chains change model,
also for joint chains; accepted jumps no longer keep their balancing parameters.
---
 .../algorithms/markov_chain_monte_carlo.py    | 53 ++++++++++++++-----
 1 file changed, 41 insertions(+), 12 deletions(-)

diff --git a/src/MTfit/algorithms/markov_chain_monte_carlo.py b/src/MTfit/algorithms/markov_chain_monte_carlo.py
index f5f594c..5eed759 100644
--- a/src/MTfit/algorithms/markov_chain_monte_carlo.py
+++ b/src/MTfit/algorithms/markov_chain_monte_carlo.py
@@ -279,7 +279,7 @@ class MarginalisedMarkovChainMonteCarlo(BaseAlgorithm):
         # Handle initial sampling - either random sampling or single
         # sampling/initial sample.
         if kwargs.get('initial_sample', '').lower() == 'grid':
-            self._initialiser = IterationSample(number_samples=kwargs.get('number_samples', 10000))
+            self._initialiser = IterationSample(number_samples=kwargs.get('number_samples', 10000), dc=self.dc)
             self._initialising = False
             self.x0 = None
             self._number_initialisation_samples = 0
@@ -569,17 +569,11 @@ class MarginalisedMarkovChainMonteCarlo(BaseAlgorithm):
                 if 'gamma' in xi and xi['gamma'] == 0 and xi['delta'] == 0:
                     if not self.learning_check():
                         self.p_dc[i] += 1
-                    self.dc[i] = True
-                else:
-                    self.dc[i] = False
         # TODO handle warning about element wise comparison - sometimes output is a single element array
         # need to tidy output/array passing
         elif 'gamma' in self.xi and self.xi['gamma'] == 0 and self.xi['delta'] == 0:
             if not self.learning_check():
                 self.p_dc += 1
-            self.dc = True
-        else:
-            self.dc = False
         self.scale_factor_i = scale_factori_1
         if not self.learning_check():
             self.pdf_sample.append(self.convert_sample(xi_1), ln_pi_1, 1, scale_factori_1)
@@ -684,7 +678,7 @@ class MarginalisedMarkovChainMonteCarlo(BaseAlgorithm):
                     # ADDED DJP 1/9/14 - check values  - killed as alpha large already
                     #
                     # Convert initial sample
-                    self.x0 = self.convert_sample(self._init_max_mt)
+                    self.x0 = self._constrain_sample(self.convert_sample(self._init_max_mt))
                     # Initialise samples
                     self.xi = self.x0
                     self.xi_1 = self.x0
@@ -783,7 +777,7 @@ class MarginalisedMarkovChainMonteCarlo(BaseAlgorithm):
         if not isinstance(self.x0, (np.ndarray, dict, list)):
             self.x0 = self.random_sample()
         if not isinstance(self.x0, (dict, list)):
-            self.x0 = self.convert_sample(self.x0)
+            self.x0 = self._constrain_sample(self.convert_sample(self.x0))
         # Set initialse sample parameters
         self.xi = self.x0
         self.xi_1 = self.x0
@@ -806,6 +800,27 @@ class MarginalisedMarkovChainMonteCarlo(BaseAlgorithm):
         """
         return x
 
+    def _constrain_sample(self, x):
+        """
+        Removes the source-type of a double-couple constrained sample, as the conversion is not exact
+
+        Args
+            x: sample (list of samples for multiple events)
+
+        Returns
+            Constrained sample
+
+        """
+        if isinstance(x, list):
+            for i, dc in enumerate(self.dc):
+                if dc and isinstance(x[i], dict):
+                    x[i]['gamma'] = 0.0
+                    x[i]['delta'] = 0.0
+        elif self.dc and isinstance(x, dict):
+            x['gamma'] = 0.0
+            x['delta'] = 0.0
+        return x
+
     def convert_sample(self, x):
         """
         Converts sample to MT form
@@ -1472,11 +1487,25 @@ class IterativeTransDMetropolisHastingsGaussianTape(IterativeMetropolisHastingsG
             elif isinstance(self.p_dc, list):
                 for i, pdc in enumerate(self.p_dc):
                     logging.info('Event - {} Probability of dc: {:.6f}'.format(i, float(pdc)/float(len(self.pdf_sample.ln_pdf))))
-        if self.jump:
-            # check current sample
-            self.dc = (self.xi['gamma'] == 0.0 and self.xi['delta'] == 0.0)
         return MTs, end
 
+    def _add(self, xi_1, ln_pi_1, scale_factori_1):
+        """Add result xi_1 with ln_pdf ln_pi_1 and set the current model from it"""
+        # The balancing parameters belong to the proposal not the sample
+        if self.number_events > 1:
+            xi_1 = [self._sample_parameters(x) for x in xi_1]
+            self.dc = [self.is_dc(x) for x in xi_1]
+        else:
+            xi_1 = self._sample_parameters(xi_1)
+            self.dc = self.is_dc(xi_1)
+        super(IterativeTransDMetropolisHastingsGaussianTape, self)._add(xi_1, ln_pi_1, scale_factori_1)
+
+    def _sample_parameters(self, x):
+        """Get the sample parameters without the balancing parameters of a model jump"""
+        if isinstance(x, dict):
+            return {key: value for key, value in x.items() if key not in ['g0', 'd0']}
+        return x
+
     def output(self, *args, **kwargs):
         """
         Return output dict
-- 
2.43.0


From 13448f64bd028e4855431099dc3b4ea72914aee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:35 +0000
Subject: [PATCH 20/63] fix: the reported double-couple fraction is the share
 of the chain

---
 .../algorithms/markov_chain_monte_carlo.py    | 20 +++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/MTfit/algorithms/markov_chain_monte_carlo.py b/src/MTfit/algorithms/markov_chain_monte_carlo.py
index 5eed759..dc7fd4d 100644
--- a/src/MTfit/algorithms/markov_chain_monte_carlo.py
+++ b/src/MTfit/algorithms/markov_chain_monte_carlo.py
@@ -1482,11 +1482,12 @@ class IterativeTransDMetropolisHastingsGaussianTape(IterativeMetropolisHastingsG
         MTs, end = super(IterativeTransDMetropolisHastingsGaussianTape, self).iterate(*args, **kwargs)
         # Print pDC output
         if end:
-            if isinstance(self.p_dc, float):
-                logging.info('Probability of dc: {:.6f}'.format(float(self.p_dc)/float(len(self.pdf_sample.ln_pdf))))
-            elif isinstance(self.p_dc, list):
-                for i, pdc in enumerate(self.p_dc):
-                    logging.info('Event - {} Probability of dc: {:.6f}'.format(i, float(pdc)/float(len(self.pdf_sample.ln_pdf))))
+            p_dc = self._dc_fraction()
+            if isinstance(p_dc, list):
+                for i, pdc in enumerate(p_dc):
+                    logging.info('Event - {} Probability of dc: {:.6f}'.format(i, pdc))
+            else:
+                logging.info('Probability of dc: {:.6f}'.format(p_dc))
         return MTs, end
 
     def _add(self, xi_1, ln_pi_1, scale_factori_1):
@@ -1513,9 +1514,16 @@ class IterativeTransDMetropolisHastingsGaussianTape(IterativeMetropolisHastingsG
         Return output dict including pDC value
         """
         output, output_string = super(IterativeTransDMetropolisHastingsGaussianTape, self).output(*args, **kwargs)
-        output['pDC'] = self.p_dc
+        output['pDC'] = self._dc_fraction()
         return output, output_string
 
+    def _dc_fraction(self):
+        """Fraction of the chain samples that are double-couple (a list for multiple events)"""
+        number = float(max(self.pdf_sample.n, 1))
+        if isinstance(self.p_dc, list):
+            return [p_dc/number for p_dc in self.p_dc]
+        return self.p_dc/number
+
 
 class IterativeMultipleTryMetropolisHastingsGaussianTape(IterativeMetropolisHastingsGaussianTape):
 
-- 
2.43.0


From 915347a99d24fab1ac5e4ac9677fb11cc025335a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:40 +0000
Subject: [PATCH 21/63] fix: the Python acceptance fallback handles every try
 and model jump proposed by the C code

---
 src/MTfit/algorithms/markov_chain_monte_carlo.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/MTfit/algorithms/markov_chain_monte_carlo.py b/src/MTfit/algorithms/markov_chain_monte_carlo.py
index dc7fd4d..de22d77 100644
--- a/src/MTfit/algorithms/markov_chain_monte_carlo.py
+++ b/src/MTfit/algorithms/markov_chain_monte_carlo.py
@@ -1459,7 +1459,7 @@ class IterativeTransDMetropolisHastingsGaussianTape(IterativeMetropolisHastingsG
         Returns
             float: ratio (infinite if the current values have zero probability)
         """
-        if self.jump and self.is_dc(x) != self.is_dc(xi):
+        if self.is_dc(x) != self.is_dc(xi):
             dc_prior = np.array(dc_prior, dtype=float).flatten()
             dc_prior = dc_prior[min(event, len(dc_prior)-1)]
             # Current values have zero prior probability
@@ -1680,10 +1680,11 @@ class IterativeMultipleTryMetropolisHastingsGaussianTape(IterativeMetropolisHast
         else:
             logger.info(C_EXTENSION_FALLBACK_LOG_MSG)
         # Otherwise use/fallback to Python code
+        # Proposals from the C code are a list of tries (for each event)
+        tries = isinstance(self.xi_1[0] if self.number_events > 1 else self.xi_1, list)
         # Non-zero samples
-        if not isinstance(ln_pi_1, bool) and np.prod(ln_pi_1.shape) > 1:
-            if not isinstance(ln_pi_1, np.ndarray):
-                ln_pi_1 = ln_pi_1._ln_pdf.transpose()
+        if not isinstance(ln_pi_1, bool) and (tries or np.prod(ln_pi_1.shape) > 1) and len(xi_1):
+            ln_pi_1 = np.asarray(getattr(ln_pi_1, '_ln_pdf', ln_pi_1)).flatten()
             # Loop over samples
             for u in range(ln_pi_1.shape[0]):
                 if self.number_events > 1:
@@ -1700,7 +1701,7 @@ class IterativeMultipleTryMetropolisHastingsGaussianTape(IterativeMetropolisHast
                     else:
                         _xi_1 = xi_1
                 # Get acceptance result
-                oxi_1, oln_pi_1, a, b = super(IterativeMultipleTryMetropolisHastingsGaussianTape, self)._acceptance_check(_xi_1, np.asarray(ln_pi_1).flatten()[u],
+                oxi_1, oln_pi_1, a, b = super(IterativeMultipleTryMetropolisHastingsGaussianTape, self)._acceptance_check(_xi_1, float(ln_pi_1[u]),
                                                                                                                           False, dc_prior=getattr(self, 'dc_prior', None))
                 # A rejected sample is returned as False, an accepted one may have ln_pdf 0
                 if not isinstance(oln_pi_1, bool):
-- 
2.43.0


From decb5dcbfb2e2fa0bfe9b49bf50b5a04fa8bd2b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:49 +0000
Subject: [PATCH 22/63] fix: width adaptation could revert a width to a value
 above its maximum

---
 src/MTfit/algorithms/markov_chain_monte_carlo.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/MTfit/algorithms/markov_chain_monte_carlo.py b/src/MTfit/algorithms/markov_chain_monte_carlo.py
index de22d77..3d3c9e9 100644
--- a/src/MTfit/algorithms/markov_chain_monte_carlo.py
+++ b/src/MTfit/algorithms/markov_chain_monte_carlo.py
@@ -443,6 +443,9 @@ class MarginalisedMarkovChainMonteCarlo(BaseAlgorithm):
                 if key not in ['gamma_dc', 'delta_dc', 'proposal_normalisation']:
                     if 0 < alpha[key]*ratio <= self.max_alpha[key]:
                         newAlpha[key] = alpha[key]*ratio
+                    elif alpha[key] > self.max_alpha[key]:
+                        # Reverting to older values can not raise it above the maximum
+                        newAlpha[key] = self.max_alpha[key]
         elif isinstance(alpha, list):
             newAlpha = []
             for i, alph in enumerate(alpha):
-- 
2.43.0


From 7834188d39160a617bdc164c6be943f9d164cacc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:34 +0000
Subject: [PATCH 23/63] fix: match stations by name in every location sample

---
 src/MTfit/inversion.py | 46 ++++++++++++++++++++++++++++++------------
 1 file changed, 33 insertions(+), 13 deletions(-)

diff --git a/src/MTfit/inversion.py b/src/MTfit/inversion.py
index 418074d..4faf2b2 100644
--- a/src/MTfit/inversion.py
+++ b/src/MTfit/inversion.py
@@ -15,7 +15,6 @@ Module containing the main inversion class, MTfit.inversion.Inversion class.
 import sys
 import os
 import glob
-import operator
 import time
 import gc
 import warnings
@@ -2849,6 +2848,23 @@ class Inversion(object):
 #
 
 
+def _common_stations(location_samples, stations):
+    """
+    Get the sorted names of the stations that are in all the location samples
+
+    Args:
+        location_samples: Station angle scatter samples.
+        stations: list of station names of the data.
+
+    Returns
+        list of station names in all location samples and the data.
+    """
+    common = set(stations)
+    for sample in location_samples:
+        common &= set(sample['Name'])
+    return sorted(common)
+
+
 def polarity_matrix(data, location_samples=False):
     """
     Generates the polarity observation matrices from the data.
@@ -2874,12 +2890,13 @@ def polarity_matrix(data, location_samples=False):
         mode = key.lower().split('polarity')[0]
         if location_samples:
             location_samples = [u.copy() for u in original_samples]
-            selected_stations = sorted(list(set(location_samples[0]['Name']) & set(data[key]['Stations']['Name'])))
+            selected_stations = _common_stations(location_samples, data[key]['Stations']['Name'])
             n_stations = len(selected_stations)
-            indices = [location_samples[0]['Name'].index(u) for u in selected_stations]
             angles = np.zeros((n_stations, len(location_samples), 6))
             for i, sample in enumerate(location_samples):
-                sample['Name'] = operator.itemgetter(*indices)(sample['Name'])
+                # The station order can differ between the location samples
+                indices = [sample['Name'].index(u) for u in selected_stations]
+                sample['Name'] = selected_stations
                 sample['TakeOffAngle'] = sample['TakeOffAngle'][indices]
                 sample['Azimuth'] = sample['Azimuth'][indices]
                 angles[:, i, :] = station_angles(sample, mode)
@@ -2956,11 +2973,12 @@ def polarity_probability_matrix(data, location_samples=False):
         # If location samples, then select stations appropriately
         if location_samples:
             location_samples = [u.copy() for u in original_samples]
-            selected_stations = sorted(list(set(location_samples[0]['Name']) & set(data[key]['Stations']['Name'])))
-            indices = [location_samples[0]['Name'].index(u) for u in selected_stations]
+            selected_stations = _common_stations(location_samples, data[key]['Stations']['Name'])
             angles = np.zeros((len(selected_stations), len(location_samples), 6))
             for i, sample in enumerate(location_samples):
-                sample['Name'] = operator.itemgetter(*indices)(sample['Name'])
+                # The station order can differ between the location samples
+                indices = [sample['Name'].index(u) for u in selected_stations]
+                sample['Name'] = selected_stations
                 sample['TakeOffAngle'] = sample['TakeOffAngle'][indices]
                 sample['Azimuth'] = sample['Azimuth'][indices]
                 angles[:, i, :] = station_angles(sample, mode)
@@ -3031,12 +3049,13 @@ def amplitude_ratio_matrix(data, location_samples=False):
         # If location samples, get intersection stations and data
         if location_samples:
             location_samples = [u.copy() for u in original_samples]
-            selected_stations = sorted(list(set(location_samples[0]['Name']) & set(data[key]['Stations']['Name'])))
-            indices = [location_samples[0]['Name'].index(u) for u in selected_stations]
+            selected_stations = _common_stations(location_samples, data[key]['Stations']['Name'])
             angles1 = np.zeros((len(selected_stations), len(location_samples), 6))
             angles2 = np.zeros((len(selected_stations), len(location_samples), 6))
             for i, sample in enumerate(location_samples):
-                sample['Name'] = operator.itemgetter(*indices)(sample['Name'])
+                # The station order can differ between the location samples
+                indices = [sample['Name'].index(u) for u in selected_stations]
+                sample['Name'] = selected_stations
                 sample['TakeOffAngle'] = sample['TakeOffAngle'][indices]
                 sample['Azimuth'] = sample['Azimuth'][indices]
                 angles1[:, i, :] = station_angles(sample, phase.split('/')[0])
@@ -3105,11 +3124,12 @@ def relative_amplitude_ratio_matrix(data, location_samples=False):
         # If location samples, get intersection stations and data
         if location_samples:
             location_samples = [u.copy() for u in original_samples]
-            selected_stations = sorted(list(set(location_samples[0]['Name']) & set(data[key]['Stations']['Name'])))
-            indices = [location_samples[0]['Name'].index(u) for u in selected_stations]
+            selected_stations = _common_stations(location_samples, data[key]['Stations']['Name'])
             angles = np.zeros((len(selected_stations), len(location_samples), 6))
             for i, sample in enumerate(location_samples):
-                sample['Name'] = operator.itemgetter(*indices)(sample['Name'])
+                # The station order can differ between the location samples
+                indices = [sample['Name'].index(u) for u in selected_stations]
+                sample['Name'] = selected_stations
                 sample['TakeOffAngle'] = sample['TakeOffAngle'][indices]
                 sample['Azimuth'] = sample['Azimuth'][indices]
                 angles[:, i, :] = station_angles(sample, phase)
-- 
2.43.0


From 3a09ed50de86641724f0747c454fed9ad7c6c51e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:34 +0000
Subject: [PATCH 24/63] fix: keep the negative polarity probabilities of every
 data type

---
 src/MTfit/inversion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MTfit/inversion.py b/src/MTfit/inversion.py
index 4faf2b2..29b66c8 100644
--- a/src/MTfit/inversion.py
+++ b/src/MTfit/inversion.py
@@ -3008,7 +3008,7 @@ def polarity_probability_matrix(data, location_samples=False):
         else:
             a = np.append(a, angles, 0)
             positive_probability = np.append(positive_probability, np.array(measured[:, 0]).flatten())
-            negative_probability = np.append(positive_probability, np.array(measured[:, 1]).flatten())
+            negative_probability = np.append(negative_probability, np.array(measured[:, 1]).flatten())
             incorrect_polarity_prob = np.append(incorrect_polarity_prob, _incorrect_polarity_prob, 0)
     # Set incorrect polarity prob if default
     if np.sum(np.abs(incorrect_polarity_prob)) == 0:
-- 
2.43.0


From 39d2aac1517dfc5a709e9a06005074bcf03d0000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:34 +0000
Subject: [PATCH 25/63] fix: give every polarity observation its own mispick
 probability

---
 src/MTfit/inversion.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/MTfit/inversion.py b/src/MTfit/inversion.py
index 29b66c8..5c61d9b 100644
--- a/src/MTfit/inversion.py
+++ b/src/MTfit/inversion.py
@@ -2922,6 +2922,9 @@ def polarity_matrix(data, location_samples=False):
                 _incorrect_polarity_prob = np.array(data[key]['IncorrectPolarityProbability']).flatten()
             else:
                 _incorrect_polarity_prob = np.array([0])
+        if len(_incorrect_polarity_prob) != n_stations:
+            # Make sure this is the same length as the data, as other data types are appended to it
+            _incorrect_polarity_prob = np.kron(_incorrect_polarity_prob, np.ones(n_stations))
         # If angles have multiple dimensions (location samples),  expand the measurements
         if angles.ndim > 2:
             measured = np.array(measured)
@@ -2935,9 +2938,6 @@ def polarity_matrix(data, location_samples=False):
         else:
             a = np.append(a, np.multiply(angles, measured), 0)
             error = np.append(error, _error, 0)
-            if len(_incorrect_polarity_prob) != n_stations:
-                # Make sure this is the same length as the data as we are appending it
-                _incorrect_polarity_prob = np.kron(_incorrect_polarity_prob, np.ones(n_stations))
             incorrect_polarity_prob = np.append(incorrect_polarity_prob, _incorrect_polarity_prob, 0)
     # Set incorrect polarity prob if default
     if np.sum(np.abs(incorrect_polarity_prob)) == 0:
@@ -2998,6 +2998,9 @@ def polarity_probability_matrix(data, location_samples=False):
                 _incorrect_polarity_prob = np.array(data[key]['IncorrectPolarityProbability']).flatten()
             else:
                 _incorrect_polarity_prob = np.array([0])
+        if len(_incorrect_polarity_prob) != angles.shape[0]:
+            # Make sure this is the same length as the data, as other data types are appended to it
+            _incorrect_polarity_prob = np.kron(_incorrect_polarity_prob, np.ones(angles.shape[0]))
         # Set or append to outputs
         if not _a:
             _a = True
-- 
2.43.0


From 68c79045c5639b467c23f36e33cda9179b416b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:34 +0000
Subject: [PATCH 26/63] fix: evaluate polarity probabilities without the
 compiled combined PDF

---
 src/MTfit/inversion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MTfit/inversion.py b/src/MTfit/inversion.py
index 5c61d9b..3e40dc8 100644
--- a/src/MTfit/inversion.py
+++ b/src/MTfit/inversion.py
@@ -278,7 +278,7 @@ class ForwardTask(object):
                             with warnings.catch_warnings() and np.errstate(divide='ignore'):
                                 warnings.simplefilter("ignore")
                                 # Polarity probability ln_pdf (will try to use cython again, and only fall back to python if necessary)
-                                ln_p_total = polarity_probability_ln_pdf(np.tensordot(self.a_polarity_prob, self.mt, 1), self.polarity_prob[0], self.polarity_prob[1], self.incorrect_polarity_prob)
+                                ln_p_total = polarity_probability_ln_pdf(self.a_polarity_prob, self.mt, self.polarity_prob[0], self.polarity_prob[1], self.incorrect_polarity_prob)
                             _return = True
                             # Print number of non zero samples (Verbosity>=3)
                             logger.debug('Polarity probability non-zero samples = {}'.format(sum(ln_p_total > -np.inf)))
-- 
2.43.0


From 68e9f1e9fcdcb5a767f9bb0a0036ffae7a850efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:34 +0000
Subject: [PATCH 27/63] fix: always use the location sample multipliers without
 the compiled combined PDF

---
 src/MTfit/inversion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MTfit/inversion.py b/src/MTfit/inversion.py
index 3e40dc8..7208ef8 100644
--- a/src/MTfit/inversion.py
+++ b/src/MTfit/inversion.py
@@ -342,7 +342,7 @@ class ForwardTask(object):
                         # No data has been used, so print exceptions
                         logging.error('No data used in polarity, amplitude ratio or polarity PDF')
                     # If location PDF samples exist and sample PDF multipliers exist (increased Prob) - For Oct -tree sampling  sample density correspond to PDF values (more samples in higher prob). Grid sampling needs location multipliers set (can be done using Scat2Angle with 'grid' option in command line)
-                    if location_samples and self.location_sample_multipliers and sum(self.location_sample_multipliers) != len(self.location_sample_multipliers):
+                    if self.location_sample_multipliers:
                         if cprobability:
                             location_sample_multipliers = np.array(self.location_sample_multipliers)
                             location_sample_multipliers = location_sample_multipliers.astype(np.float64, copy=False)
-- 
2.43.0


From a0b24c05aae04c7f786b9850a76b1ed81785a3fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:01 +0000
Subject: [PATCH 28/63] fix: generated samples need a whole number of samples

---
 src/MTfit/inversion.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/MTfit/inversion.py b/src/MTfit/inversion.py
index 7208ef8..fd7d570 100644
--- a/src/MTfit/inversion.py
+++ b/src/MTfit/inversion.py
@@ -1643,7 +1643,7 @@ class Inversion(object):
                                              sample_distribution=self.kwargs.get('sample_distribution', False))
             if single and self.c_generate:
                 # Set generate cutoff size
-                self.generate_samples = self.number_samples/5
+                self.generate_samples = max(int(self.number_samples/5), 1)
                 self.generate_cutoff = max_samples
         # Time algorithm
         elif self._algorithm_name.lower() in ['time']:
@@ -1657,7 +1657,7 @@ class Inversion(object):
                                         sample_distribution=self.kwargs.get('sample_distribution', False))
             if single and self.c_generate:
                 # Set generate sample size, cutoff is default or set in initialisation
-                self.generate_samples = self.number_samples/5
+                self.generate_samples = max(int(self.number_samples/5), 1)
         # Algorithm extensions
         elif self._algorithm_name.lower() in get_extensions('MTfit.parallel_algorithms')[0]:
             extension_algorithms = get_extensions('MTfit.parallel_algorithms')[0]
-- 
2.43.0


From 36627da78f16aaeac1456d468ea920574dac0f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:06 +0000
Subject: [PATCH 29/63] fix: compiled nodal polarity probability uses the
 observation

---
 src/MTfit/probability/cprobability.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MTfit/probability/cprobability.pyx b/src/MTfit/probability/cprobability.pyx
index 564d50d..b3e5ab8 100644
--- a/src/MTfit/probability/cprobability.pyx
+++ b/src/MTfit/probability/cprobability.pyx
@@ -219,7 +219,7 @@ cdef inline DTYPE_t pol_prob_pdf(DTYPE_t x,DTYPE_t p,DTYPE_t n,DTYPE_t i) nogil:
     if x>0:
        return (1-i)*p+i*n
     elif x==0:
-        return 0.5
+        return 0.5*(p+n)
     else:
         return (1-i)*n+i*p
 
-- 
2.43.0


From a530569b0f4f142aae2f7b9d62b57cc429c9e481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:06 +0000
Subject: [PATCH 30/63] fix: compiled nodal amplitudes gave NaN, discarding the
 other location samples

---
 src/MTfit/probability/cprobability.pyx | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/MTfit/probability/cprobability.pyx b/src/MTfit/probability/cprobability.pyx
index b3e5ab8..664e3eb 100644
--- a/src/MTfit/probability/cprobability.pyx
+++ b/src/MTfit/probability/cprobability.pyx
@@ -208,6 +208,9 @@ cdef inline DTYPE_t gaussian_cdf(DTYPE_t x,DTYPE_t mu,DTYPE_t s) nogil:
 @cython.nonecheck(False)
 @cython.cdivision(True)
 cdef inline DTYPE_t pol_pdf(DTYPE_t x,DTYPE_t s,DTYPE_t i) nogil:
+    if x==0:
+        # Nodal amplitude, 0.5 even for zero uncertainty
+        return 0.5
     # print x,s,i,0.5*((1-i)*(1+erf(x/(sqrt2*s)))+i*(1+erf(-x/(sqrt2*s))))
     return 0.5*((1-i)*(1+erf(x/(sqrt2*s)))+i*(1+erf(-x/(sqrt2*s))))
 
@@ -230,6 +233,9 @@ cdef inline DTYPE_t pol_prob_pdf(DTYPE_t x,DTYPE_t p,DTYPE_t n,DTYPE_t i) nogil:
 cdef inline DTYPE_t ar_pdf(DTYPE_t z,DTYPE_t mux,DTYPE_t muy,DTYPE_t psx,DTYPE_t psy) nogil:
     cdef double sqrtpi=sqrt(pi)
     cdef DTYPE_t a,b1,b2,c,d1,d2,f1,f2,sx,sy
+    if mux==0 or muy==0:
+        # Nodal amplitude, zero probability (same as the Python code)
+        return 0.0
     if psy<cutoff:
         a=fabs(mux/muy)
         sx=a*sqrt((psx*psx)+(psy*psy))
-- 
2.43.0


From b80d11332fdc82c4e118f769978095c059b8f865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:54 +0000
Subject: [PATCH 31/63] fix: c_generate without the compiled code never
 generated a sample

---
 src/MTfit/inversion.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/MTfit/inversion.py b/src/MTfit/inversion.py
index fd7d570..c48b141 100644
--- a/src/MTfit/inversion.py
+++ b/src/MTfit/inversion.py
@@ -1401,7 +1401,8 @@ class Inversion(object):
         self.normalise = kwargs.get('normalise', True)
         self.convert = kwargs.get('convert', False)
         self.discard = kwargs.get('discard', False)
-        self.c_generate = kwargs.get('c_generate', False)
+        # Only the compiled code can generate the samples
+        self.c_generate = kwargs.get('c_generate', False) and bool(cprobability)
         self._relative_loop = kwargs.get('relative_loop', False)
         self.bin_angle_coefficient_samples = kwargs.get('bin_angle_coefficient_samples', 0)
         number_stations = 40
-- 
2.43.0


From bd200d4b46759a566ee20d322693d6bda60786d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:41 +0000
Subject: [PATCH 32/63] fix: mispick probability of a single polarity
 observation

---
 src/MTfit/probability/probability.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/MTfit/probability/probability.py b/src/MTfit/probability/probability.py
index 79bd1b6..73dd46b 100644
--- a/src/MTfit/probability/probability.py
+++ b/src/MTfit/probability/probability.py
@@ -115,7 +115,7 @@ def polarity_ln_pdf(a, mt, sigma, incorrect_polarity_probability=0.0, _use_c=Non
             # Handle incorrect polarity probability
             if isinstance(incorrect_polarity_probability, (float, int)):
                 incorrect_polarity_probability = np.ones(sigma.shape)*incorrect_polarity_probability
-            incorrect_polarity_probability = np.squeeze(incorrect_polarity_probability)
+            incorrect_polarity_probability = np.atleast_1d(np.squeeze(incorrect_polarity_probability))
             if incorrect_polarity_probability.ndim != 1:
                 raise TypeError('Variable: incorrect_polarity_probability is expected to be a one-dimensional numpy array or a float')
             # Check types and convert to the correct types in place
@@ -230,7 +230,7 @@ def polarity_probability_ln_pdf(a, mt, positive_probability, negative_probabilit
             # Handle incorrect polarity probability
             if isinstance(incorrect_polarity_probability, (float, int)):
                 incorrect_polarity_probability = np.ones(positive_probability.shape)*incorrect_polarity_probability
-            incorrect_polarity_probability = np.squeeze(incorrect_polarity_probability)
+            incorrect_polarity_probability = np.atleast_1d(np.squeeze(incorrect_polarity_probability))
             if incorrect_polarity_probability.ndim != 1:
                 raise TypeError('Variable: incorrect_polarity_probability is expected to be a one-dimensional numpy array or a float')
             # Check types and convert to the correct types in place
-- 
2.43.0


From 7ea60a9a83a689c670018f47916da06ba2ca987e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:05 +0000
Subject: [PATCH 33/63] fix: double-couple constrained Markov chain inversion
 sampled the full moment tensor space

---
 src/MTfit/inversion.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/MTfit/inversion.py b/src/MTfit/inversion.py
index c48b141..a505ed6 100644
--- a/src/MTfit/inversion.py
+++ b/src/MTfit/inversion.py
@@ -1675,6 +1675,9 @@ class Inversion(object):
             if self._algorithm_name.lower() in get_extensions('MTfit.directed_algorithms')[0]:
                 kwargs['mode'] = self._algorithm_name.lower()
             self.McMC = True
+            # The forward tasks make their algorithm from self.kwargs
+            kwargs['dc'] = self.dc
+            self.kwargs['dc'] = self.dc
             self.algorithm = MarkovChainMonteCarloAlgorithmCreator(**kwargs)
 
     def _update_samples(self, show=True, _cython=cprobability is not False):
-- 
2.43.0


From 24110ba8985fb603f7bc818b69895c299afced15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:05 +0000
Subject: [PATCH 34/63] fix: Markov chain results from the job pool were never
 output

---
 src/MTfit/inversion.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/MTfit/inversion.py b/src/MTfit/inversion.py
index a505ed6..5450d88 100644
--- a/src/MTfit/inversion.py
+++ b/src/MTfit/inversion.py
@@ -468,7 +468,7 @@ class McMCForwardTask(object):
         # Get output data and print results
         output_data, output_string = self.algorithm.output(self.normalise, self.convert, 0)
         return {'algorithm_output_data': output_data, 'event_data': self.event_data, 'location_samples': self.location_samples,
-                'location_sample_multipliers': self.location_sample_multipliers}
+                'location_sample_multipliers': self.location_sample_multipliers, 'fid': self.fid}
 
 
 class MultipleEventsForwardTask(object):
@@ -1028,7 +1028,7 @@ class MultipleEventsMcMCForwardTask(McMCForwardTask):
         # Print output string
         print(output_string)
         return {'algorithm_output_data': output_data, 'event_data': self.event_data, 'location_samples': self.location_samples,
-                'location_sample_multipliers': self.location_sample_multipliers}
+                'location_sample_multipliers': self.location_sample_multipliers, 'fid': self.fid}
 
 
 class CombineMpiOutputTask(object):
-- 
2.43.0


From 4ae9ee28d6ac2a5e75e583cbbf0d1248200117ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:05 +0000
Subject: [PATCH 35/63] fix: Markov chain tasks in the job pool got their
 arguments shifted by one

---
 src/MTfit/inversion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MTfit/inversion.py b/src/MTfit/inversion.py
index 5450d88..dbbe148 100644
--- a/src/MTfit/inversion.py
+++ b/src/MTfit/inversion.py
@@ -2260,7 +2260,7 @@ class Inversion(object):
 
                     self.pool.custom_task(McMCForwardTask, self.kwargs, a_polarity, error_polarity, a1_amplitude_ratio, a2_amplitude_ratio, amplitude_ratio, percentage_error1_amplitude_ratio,
                                           percentage_error2_amplitude_ratio, a_polarity_probability, polarity_probability, incorrect_polarity_probability, fid, event, self.location_samples,
-                                          self.location_sample_multipliers, self.normalise, self.convert, extension_data)
+                                          self.location_sample_multipliers, True, self.normalise, self.convert, extension_data)
                 else:
                     result = McMCForwardTask(self.kwargs, a_polarity, error_polarity, a1_amplitude_ratio, a2_amplitude_ratio, amplitude_ratio, percentage_error1_amplitude_ratio,
                                              percentage_error2_amplitude_ratio, a_polarity_probability, polarity_probability, incorrect_polarity_probability, fid, normalise=self.normalise,
-- 
2.43.0


From 7105350fc8585eda1e52becd1f4ef0e8fb933be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:05 +0000
Subject: [PATCH 36/63] fix: Markov chain inversion without the job pool
 ignored the location sample weights

---
 src/MTfit/inversion.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/MTfit/inversion.py b/src/MTfit/inversion.py
index dbbe148..d097555 100644
--- a/src/MTfit/inversion.py
+++ b/src/MTfit/inversion.py
@@ -2263,8 +2263,8 @@ class Inversion(object):
                                           self.location_sample_multipliers, True, self.normalise, self.convert, extension_data)
                 else:
                     result = McMCForwardTask(self.kwargs, a_polarity, error_polarity, a1_amplitude_ratio, a2_amplitude_ratio, amplitude_ratio, percentage_error1_amplitude_ratio,
-                                             percentage_error2_amplitude_ratio, a_polarity_probability, polarity_probability, incorrect_polarity_probability, fid, normalise=self.normalise,
-                                             convert=self.convert, extension_data=extension_data)()
+                                             percentage_error2_amplitude_ratio, a_polarity_probability, polarity_probability, incorrect_polarity_probability, fid, event, self.location_samples,
+                                             self.location_sample_multipliers, normalise=self.normalise, convert=self.convert, extension_data=extension_data)()
                     try:
                         accepted = (float(result['algorithm_output_data']['accepted'])/float(result['algorithm_output_data']['total_number_samples']))*100
                     except ZeroDivisionError:
@@ -2403,7 +2403,7 @@ class Inversion(object):
                                                        amplitude_ratio, percentage_error1_amplitude_ratio, percentage_error2_amplitude_ratio, a_polarity_probability, polarity_probability,
                                                        a_relative_amplitude, relative_amplitude, percentage_error_relative_amplitude, relative_amplitude_stations, incorrect_polarity_probability,
                                                        relative=self._relative, minimum_number_intersections=self.minimum_number_intersections, fid=fid, location_samples=self.location_samples,
-                                                       marginalise_relative=self._marginalise_relative, normalise=self.normalise, convert=self.convert, extension_data=extension_data)()
+                                                       location_sample_multipliers=self.location_sample_multipliers, marginalise_relative=self._marginalise_relative, normalise=self.normalise, convert=self.convert, extension_data=extension_data)()
                 self._print('Inversion completed, '+str(result['algorithm_output_data']['total_number_samples'])+' samples evaluated: '+str((result['algorithm_output_data']['accepted'])) +
                             ' accepted samples: '+str((float(result['algorithm_output_data']['accepted'])/float(result['algorithm_output_data']['total_number_samples']))*100)[:4]+'%')
                 try:
-- 
2.43.0


From 5f842051ad1a8d8c2626ab0f84423d1ce22966d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:05 +0000
Subject: [PATCH 37/63] fix: extension data index in the multiple events Markov
 chain initialisation

---
 src/MTfit/inversion.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/MTfit/inversion.py b/src/MTfit/inversion.py
index d097555..95812aa 100644
--- a/src/MTfit/inversion.py
+++ b/src/MTfit/inversion.py
@@ -592,7 +592,7 @@ class MultipleEventsForwardTask(object):
                 incorrect_polarity_prob = self.incorrect_polarity_prob[i]
             else:
                 incorrect_polarity_prob = self.incorrect_polarity_prob
-            if len(self.extension_data) and len(self.extension_data) >= i:
+            if len(self.extension_data) and len(self.extension_data) > i:
                 extension_data = self.extension_data[i]
             else:
                 extension_data = {}
@@ -978,7 +978,7 @@ class MultipleEventsMcMCForwardTask(McMCForwardTask):
                     incorrect_polarity_prob = self.incorrect_polarity_prob[i]
                 else:
                     incorrect_polarity_prob = self.incorrect_polarity_prob
-                if len(self.extension_data) and len(self.extension_data) >= i:
+                if len(self.extension_data) and len(self.extension_data) > i:
                     extension_data = self.extension_data[i]
                 else:
                     extension_data = {}
-- 
2.43.0


From 954c89ab303afede86fbb4b47ae29390b2efcf93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:29 +0000
Subject: [PATCH 38/63] fix: joint Markov chain inversion in the job pool
 output only the last event's data

---
 src/MTfit/inversion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MTfit/inversion.py b/src/MTfit/inversion.py
index 95812aa..0cf0ad1 100644
--- a/src/MTfit/inversion.py
+++ b/src/MTfit/inversion.py
@@ -2379,7 +2379,7 @@ class Inversion(object):
                                       amplitude_ratio, percentage_error1_amplitude_ratio, percentage_error2_amplitude_ratio, a_polarity_probability,
                                       polarity_probability, a_relative_amplitude, relative_amplitude, percentage_error_relative_amplitude,
                                       relative_amplitude_stations, incorrect_polarity_probability, self._relative, self.minimum_number_intersections,
-                                      fid, event, self.location_samples, self.location_sample_multipliers, self._marginalise_relative, self.normalise,
+                                      fid, self.data, self.location_samples, self.location_sample_multipliers, self._marginalise_relative, self.normalise,
                                       self.convert, extension_data)
 
                 result = self.pool.result()
-- 
2.43.0


From 91943041d5b862f67f3554ff854ec5bf26c29771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:50 +0000
Subject: [PATCH 39/63] fix: random initial samples of a joint Markov chain
 inversion were for one event

---
 src/MTfit/algorithms/markov_chain_monte_carlo.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/MTfit/algorithms/markov_chain_monte_carlo.py b/src/MTfit/algorithms/markov_chain_monte_carlo.py
index 3d3c9e9..803ef14 100644
--- a/src/MTfit/algorithms/markov_chain_monte_carlo.py
+++ b/src/MTfit/algorithms/markov_chain_monte_carlo.py
@@ -474,6 +474,16 @@ class MarginalisedMarkovChainMonteCarlo(BaseAlgorithm):
         """
         return self._prior(x, *args, **kwargs)
 
+    def random_sample(self):
+        """
+        Return random sample
+
+        Extends BaseAlgorithm.random_sample to give a sample for each event (a list) for multiple events.
+        """
+        if self.number_events > 1:
+            return [self.random_dc() if dc else self.random_mt() for dc in self.dc]
+        return super(MarginalisedMarkovChainMonteCarlo, self).random_sample()
+
     def new_sample(self):
         """
         Generates new sample
-- 
2.43.0


From fc7b9014b6e80fea1ca8dccf41ebb10e9cc4501d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:35 +0000
Subject: [PATCH 40/63] fix: a joint inversion evaluated later events with the
 first event's data after a zero probability batch

---
 src/MTfit/inversion.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/MTfit/inversion.py b/src/MTfit/inversion.py
index 0cf0ad1..8022cce 100644
--- a/src/MTfit/inversion.py
+++ b/src/MTfit/inversion.py
@@ -600,8 +600,8 @@ class MultipleEventsForwardTask(object):
             if not self._return_zero and self._combine:
                 self.mts[i] = np.ascontiguousarray(self.mts[i][:, non_zeros])
                 mt = self.mts[i]
-            # If forward tasks are being re-used and one doesn't exist or no tasks are re-used
-            if self._reuse and len(self.forward_tasks) < len(self.mts) or not self._reuse:
+            # If forward tasks are being re-used and the one for this event does not exist or no tasks are re-used
+            if self._reuse and len(self.forward_tasks) <= i or not self._reuse:
                 forward_task = ForwardTask(mt, a_polarity, self.error_polarity[i], a1_amplitude_ratio, a2_amplitude_ratio, self.amplitude_ratio[i],
                                            self.percentage_error1_amplitude_ratio[i], self.percentage_error2_amplitude_ratio[i], a_polarity_prob,
                                            self.polarity_prob[i], self.location_sample_multipliers, incorrect_polarity_prob, return_zero=True,
-- 
2.43.0


From 7e0d81f598caf14fe1a1a3d333af005fed28e863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:15 +0000
Subject: [PATCH 41/63] fix: relative amplitudes of joint events were not
 compared station by station

The shared stations kept the order they had in each event, so that with
different station orders (or several amplitude data types) the amplitudes
of different stations or types were compared.
---
 src/MTfit/inversion.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/MTfit/inversion.py b/src/MTfit/inversion.py
index 8022cce..f30a612 100644
--- a/src/MTfit/inversion.py
+++ b/src/MTfit/inversion.py
@@ -3114,6 +3114,7 @@ def relative_amplitude_ratio_matrix(data, location_samples=False):
         a_relative_amplitude: numpy matrix of station angle MT coefficients for ratio numerator.
         relative_amplitude: numpy matrix of observations.
         percentage_error: numpy matrix of relative amplitude percentage error.
+        relative_amplitude_stations: list of the station and data type of each observation.
     """
     a_relative_amplitude = False
     a = False
@@ -3141,7 +3142,7 @@ def relative_amplitude_ratio_matrix(data, location_samples=False):
                 sample['Azimuth'] = sample['Azimuth'][indices]
                 angles[:, i, :] = station_angles(sample, phase)
             angles = np.array(angles)
-            relative_amplitude_stations.extend(selected_stations)
+            relative_amplitude_stations.extend([(u, key) for u in selected_stations])
             indices = [data[key]['Stations']['Name'].index(u) for u in selected_stations]
             measured = data[key]['Measured'][indices]
             error = data[key]['Error'][indices]
@@ -3149,7 +3150,7 @@ def relative_amplitude_ratio_matrix(data, location_samples=False):
         else:
             angles = np.zeros((np.prod(data[key]['Stations']['TakeOffAngle'].shape), 1, 6))
             angles[:, 0, :] = station_angles(data[key]['Stations'], phase)
-            relative_amplitude_stations.extend(data[key]['Stations']['Name'])
+            relative_amplitude_stations.extend([(u, key) for u in data[key]['Stations']['Name']])
             measured = np.array(data[key]['Measured']).flatten()
             error = np.array(data[key]['Error']).flatten()
         # Set or append to outputs
@@ -3194,9 +3195,11 @@ def _intersect_stations(relative_amplitude_stations_i, relative_amplitude_statio
     """
     # Get intersection of stations between events
     selected_stations = list(set(relative_amplitude_stations_i) & set(relative_amplitude_stations_j))
-    # Get indices for each event
+    # Get indices for each event (the same station has to be at the same place for both events)
     indices_i = [i for i, u in enumerate(relative_amplitude_stations_i) if u in selected_stations]
-    indices_j = [i for i, u in enumerate(relative_amplitude_stations_j) if u in selected_stations]
+    indices_j = [list(relative_amplitude_stations_j).index(relative_amplitude_stations_i[i]) for i in indices_i]
+    # Number of stations (there can be several types of amplitude data at a station)
+    number_intersections = len(set([u[0] if isinstance(u, tuple) else u for u in selected_stations]))
     # Get parameters for event i
     a_relative_amplitude_ratio_i = a_relative_amplitude_ratio_i[indices_i]
     relative_amplitude_i = relative_amplitude_i[indices_i]
@@ -3208,7 +3211,7 @@ def _intersect_stations(relative_amplitude_stations_i, relative_amplitude_statio
     return (np.ascontiguousarray(a_relative_amplitude_ratio_i), np.ascontiguousarray(a_relative_amplitude_ratio_j),
             np.ascontiguousarray(relative_amplitude_i), np.ascontiguousarray(relative_amplitude_j),
             np.ascontiguousarray(percentage_error_relative_amplitude_i), np.ascontiguousarray(percentage_error_relative_amplitude_j),
-            len(indices_i))
+            number_intersections)
 
 
 def _intersect_stations_extension_data(extension_data_i, extension_data_j):
@@ -3229,9 +3232,9 @@ def _intersect_stations_extension_data(extension_data_i, extension_data_j):
     stations_i = extension_data_i['stations']
     stations_j = extension_data_j['stations']
     selected_stations = list(set(stations_i) & set(stations_j))
-    # Get indices for each event
+    # Get indices for each event (the same station has to be at the same place for both events)
     indices_i = [i for i, u in enumerate(stations_i) if u in selected_stations]
-    indices_j = [i for i, u in enumerate(stations_j) if u in selected_stations]
+    indices_j = [list(stations_j).index(stations_i[i]) for i in indices_i]
     # Get parameters for event i
     for key in extension_data_i:
         extension_data_i[key] = np.ascontiguousarray(extension_data_i[key][indices_i])
-- 
2.43.0


From 3393592706bfe28e6273bd3af5897c162f298b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:38 +0000
Subject: [PATCH 42/63] fix: joint log-probabilities lost or repeated terms of
 the events and pairs

Without relative data each event is marginalised over its own location
samples with its own weights. With relative data the weights of the shared
location samples are included once, and a candidate is kept if any location
sample has a non-zero probability. After zero probability samples were
removed the next pair was evaluated with the wrong tensors and its term was
dropped, as was any pair term that raised an error.
---
 src/MTfit/inversion.py | 199 ++++++++++++++++++++++-------------------
 1 file changed, 105 insertions(+), 94 deletions(-)

diff --git a/src/MTfit/inversion.py b/src/MTfit/inversion.py
index f30a612..ae73a26 100644
--- a/src/MTfit/inversion.py
+++ b/src/MTfit/inversion.py
@@ -481,7 +481,7 @@ class MultipleEventsForwardTask(object):
     def __init__(self, mts, a_polarity, error_polarity, a1_amplitude_ratio, a2_amplitude_ratio, amplitude_ratio, percentage_error1_amplitude_ratio, percentage_error2_amplitude_ratio,
                  a_polarity_prob, polarity_prob, a_relative_amplitude, relative_amplitude, percentage_error_relative_amplitude, relative_amplitude_stations, location_sample_multipliers=False,
                  incorrect_polarity_prob=0, minimum_number_intersections=2, return_zero=False, reuse=False, relative=False, location_sample_size=1, marginalise_relative=False,
-                 combine=True, extension_data=[]):
+                 combine=True, extension_data=[], event_location_sample_multipliers=False):
         """
         Initialisation of MultipleEventsForwardTask
 
@@ -509,6 +509,7 @@ class MultipleEventsForwardTask(object):
             marginalise_relative:[False] Boolean flag to marginalise the location uncertainty between absolute and relative data.
             combine:[False] Boolean flag to combine the probabilities between multiple events.
             extension_data:[] A list of dictionaries of processed data for use by an MTfit.data_types extension.
+            event_location_sample_multipliers:[False] List of the location sample multipliers of each event (default is the location_sample_multipliers for all events).
         """
         self.mts = mts
         self.a_polarity = a_polarity
@@ -526,6 +527,7 @@ class MultipleEventsForwardTask(object):
         self.relative_amplitude = relative_amplitude
         self.percentage_error_relative_amplitude = percentage_error_relative_amplitude
         self.location_sample_multipliers = location_sample_multipliers
+        self.event_location_sample_multipliers = event_location_sample_multipliers
         self._return_zero = return_zero
         self._reuse = reuse
         self._relative = relative
@@ -553,10 +555,15 @@ class MultipleEventsForwardTask(object):
         Returns
             Dictionary of results as {'mt1':mt1,'mt2':mt2,'PDF':pdf}
         """
+        # Without relative data the events are independent, so each one is marginalised over its own location samples
+        marginalise = self._marginalise_relative or not self._relative
         # If combining outputs make a single ln_pdf else make a list of them
         if self._combine:
             # Assuming that location uncertainty matches for each event (i.e if samples used, event is still co-located...)
-            ln_p_total = np.matrix(np.zeros((self.location_sample_size, self.mts[0].shape[1])))
+            ln_p_total = np.zeros((1 if marginalise else self.location_sample_size, self.mts[0].shape[1]))
+            if not marginalise and isinstance(self.location_sample_multipliers, (list, np.ndarray)) and len(self.location_sample_multipliers):
+                # The location samples are shared, so the multipliers are included once, not for each event
+                ln_p_total += np.log(np.array(self.location_sample_multipliers).astype(np.float64)).reshape(-1, 1)
         else:
             ln_p_total = []
         # Set non-zero array
@@ -596,6 +603,12 @@ class MultipleEventsForwardTask(object):
                 extension_data = self.extension_data[i]
             else:
                 extension_data = {}
+            # The multipliers of the location samples belong to the event
+            location_sample_multipliers = False
+            if marginalise:
+                location_sample_multipliers = self.location_sample_multipliers
+                if isinstance(self.event_location_sample_multipliers, list):
+                    location_sample_multipliers = self.event_location_sample_multipliers[i]
             # Update mt with non-zeros if combining
             if not self._return_zero and self._combine:
                 self.mts[i] = np.ascontiguousarray(self.mts[i][:, non_zeros])
@@ -604,8 +617,8 @@ class MultipleEventsForwardTask(object):
             if self._reuse and len(self.forward_tasks) <= i or not self._reuse:
                 forward_task = ForwardTask(mt, a_polarity, self.error_polarity[i], a1_amplitude_ratio, a2_amplitude_ratio, self.amplitude_ratio[i],
                                            self.percentage_error1_amplitude_ratio[i], self.percentage_error2_amplitude_ratio[i], a_polarity_prob,
-                                           self.polarity_prob[i], self.location_sample_multipliers, incorrect_polarity_prob, return_zero=True,
-                                           reuse=True, marginalise=self._marginalise_relative, extension_data=extension_data)
+                                           self.polarity_prob[i], location_sample_multipliers, incorrect_polarity_prob, return_zero=True,
+                                           reuse=True, marginalise=marginalise, extension_data=extension_data)
                 if self._reuse:
                     self.forward_tasks.append(forward_task)
             elif self._reuse:
@@ -626,7 +639,7 @@ class MultipleEventsForwardTask(object):
                 continue
             # all zero so breaking
             if ln_pdf.shape[1] == 0:
-                ln_p_total = 0*ln_p_total-np.inf
+                ln_p_total = np.full(ln_p_total.shape, -np.inf)
                 break
             ln_p_total = ln_p_total+ln_pdf
             # return if ln_p_total is all zero
@@ -637,14 +650,15 @@ class MultipleEventsForwardTask(object):
                 return {'moment_tensors': self.mts, 'ln_pdf': ln_p_total, 'n': N, 'scale_factor': scale_factor}
             # Update mts
             if not self._return_zero:
-                # Update ln_pdfs etc. for non-zeros
-                if sum(non_zeros) != sum(np.array(np.sum(ln_p_total, 0) > -np.inf).flatten()):
-                    non_zeros[non_zeros] = np.array(np.sum(ln_p_total, 0) > -np.inf).flatten()  # update non zeros
+                # Update ln_pdfs etc. for non-zeros (for any of the location samples)
+                non_zero_indices = np.array(np.max(ln_p_total, 0) > -np.inf).flatten()
+                if sum(non_zeros) != sum(non_zero_indices):
+                    non_zeros[non_zeros] = non_zero_indices  # update non zeros
                     for j in range(i+1):
-                        self.mts[j] = np.ascontiguousarray(self.mts[j][:, np.array(np.sum(ln_p_total, 0) > -np.inf). flatten()])
-                    scale_factor = np.ascontiguousarray(scale_factor[:, np.array(np.sum(ln_p_total, 0) > -np.inf).flatten(), :, :])
-                    scale_factor_uncertainty = np.ascontiguousarray(scale_factor_uncertainty[:, np.array(np.sum(ln_p_total, 0) > -np.inf).flatten(), :, :])
-                    ln_p_total = ln_p_total[:, np.array(np.sum(ln_p_total, 0) > -np.inf).flatten()]
+                        self.mts[j] = np.ascontiguousarray(self.mts[j][:, non_zero_indices])
+                    scale_factor = np.ascontiguousarray(scale_factor[:, non_zero_indices, :, :])
+                    scale_factor_uncertainty = np.ascontiguousarray(scale_factor_uncertainty[:, non_zero_indices, :, :])
+                    ln_p_total = ln_p_total[:, non_zero_indices]
                     mt = self.mts[i]
             #####
             if self._relative and ((isinstance(self.a_relative_amplitude, list) and len(self.a_relative_amplitude)) or not isinstance(self.a_relative_amplitude, (bool, list))) and not self._combine:
@@ -675,73 +689,57 @@ class MultipleEventsForwardTask(object):
             if self._relative and ((isinstance(self.a_relative_amplitude, list) and len(self.a_relative_amplitude)) or not isinstance(self.a_relative_amplitude, (bool, list))):
                 for j in range(i):
                     # Go backwards to ease calculation as there are  fewer events at start when most non-zero mts
-                    try:
-                        # Get amplitude ratio station coefficients
-                        if isinstance(self.a_relative_amplitude, list) and len(self.a_relative_amplitude):
-                            a1_relative_amplitude_ratio = self.a_relative_amplitude[i]
-                            a2_relative_amplitude_ratio = self.a_relative_amplitude[j]
-                        else:
-                            a1_relative_amplitude_ratio = self.a_relative_amplitude
-                            a2_relative_amplitude_ratio = self.a_relative_amplitude
-                        # Intersect stations
-                        intersected_data = _intersect_stations(self.relative_amplitude_stations[i], self.relative_amplitude_stations[j], a1_relative_amplitude_ratio,
-                                                               a2_relative_amplitude_ratio, self.relative_amplitude[i], self.relative_amplitude[j],
-                                                               self.percentage_error_relative_amplitude[i], self.percentage_error_relative_amplitude[j])
-                        a1_relative_amplitude_ratio = intersected_data[0]
-                        a2_relative_amplitude_ratio = intersected_data[1]
-                        relative_amplitude_i = intersected_data[2]
-                        relative_amplitude_j = intersected_data[3]
-                        percentage_error_relative_amplitude_i = intersected_data[4]
-                        percentage_error_relative_amplitude_j = intersected_data[5]
-                        n_intersections = intersected_data[6]
-                        # Check number of intersections
-                        if n_intersections >= self.minimum_number_intersections:
-                            # Evaluate relative amplitude ratio pdf
-                            ln_p_amp_rat, scale, scale_uncertainty = relative_amplitude_ratio_ln_pdf(relative_amplitude_i, relative_amplitude_j, np.ascontiguousarray(mt),
-                                                                                                     np.ascontiguousarray(self.mts[j]), a1_relative_amplitude_ratio,
-                                                                                                     a2_relative_amplitude_ratio, percentage_error_relative_amplitude_i,
-                                                                                                     percentage_error_relative_amplitude_j)
-                            # Set scale_factor and scale_factor_uncertainties
-                            scale_factor[:, :, i, j] = scale
-                            scale_factor[:, :, j, i] = scale
-                            scale_factor_uncertainty[:, :, j, i] = scale_uncertainty
-                            scale_factor_uncertainty[:, :, i, j] = scale_uncertainty
-                            # Handle location samples PDFs
-                            if self.location_sample_multipliers and sum(self.location_sample_multipliers) != len(self.location_sample_multipliers):
-                                if cprobability:
-                                    location_sample_multipliers = np.array(self.location_sample_multipliers)
-                                    location_sample_multipliers = location_sample_multipliers.astype(np.float64, copy=False)
-                                    ln_p_amp_rat = cprobability.ln_multipliers(ln_p_amp_rat, location_sample_multipliers)
-                                else:
-                                    ln_p_amp_rat += np.log(np.matrix(self.location_sample_multipliers).T)
-                            # Marginalise if marginalise_relative flag is True
-                            if self.location_sample_size > 1 and self._marginalise_relative:
-                                ln_p_amp_rat = ln_marginalise(ln_p_amp_rat, _cython=cprobability is not False)
-                            # Combine ln_p_total and amp rat
-                            if cprobability and not _CYTHON_TESTS:
-                                ln_p_total = cprobability.ln_combine(np.ascontiguousarray(ln_p_total), ln_p_amp_rat)
-                            else:
-                                ln_p_total = ln_p_total+ln_p_amp_rat
-                            # return zeros
-                            if not (ln_p_total > -np.inf).any():
-                                if not self._return_zero:
-                                    return {'moment_tensors': np.matrix([]), 'ln_pdf': LnPDF(np.matrix([])), 'n': N}
-                                return {'moment_tensors': self.mts, 'ln_pdf': ln_p_total, 'n': N}
-                            # Update mts for non-zeros
+                    # Get amplitude ratio station coefficients
+                    if isinstance(self.a_relative_amplitude, list) and len(self.a_relative_amplitude):
+                        a1_relative_amplitude_ratio = self.a_relative_amplitude[i]
+                        a2_relative_amplitude_ratio = self.a_relative_amplitude[j]
+                    else:
+                        a1_relative_amplitude_ratio = self.a_relative_amplitude
+                        a2_relative_amplitude_ratio = self.a_relative_amplitude
+                    # Check that both events have relative data
+                    if isinstance(self.relative_amplitude_stations[i], bool) or isinstance(self.relative_amplitude_stations[j], bool):
+                        continue
+                    # Intersect stations
+                    intersected_data = _intersect_stations(self.relative_amplitude_stations[i], self.relative_amplitude_stations[j], a1_relative_amplitude_ratio,
+                                                           a2_relative_amplitude_ratio, self.relative_amplitude[i], self.relative_amplitude[j],
+                                                           self.percentage_error_relative_amplitude[i], self.percentage_error_relative_amplitude[j])
+                    a1_relative_amplitude_ratio = intersected_data[0]
+                    a2_relative_amplitude_ratio = intersected_data[1]
+                    relative_amplitude_i = intersected_data[2]
+                    relative_amplitude_j = intersected_data[3]
+                    percentage_error_relative_amplitude_i = intersected_data[4]
+                    percentage_error_relative_amplitude_j = intersected_data[5]
+                    n_intersections = intersected_data[6]
+                    # Check number of intersections
+                    if n_intersections >= max(self.minimum_number_intersections, 1):
+                        # Evaluate relative amplitude ratio pdf
+                        ln_p_amp_rat, scale, scale_uncertainty = relative_amplitude_ratio_ln_pdf(relative_amplitude_i, relative_amplitude_j, np.ascontiguousarray(self.mts[i]),
+                                                                                                 np.ascontiguousarray(self.mts[j]), a1_relative_amplitude_ratio,
+                                                                                                 a2_relative_amplitude_ratio, percentage_error_relative_amplitude_i,
+                                                                                                 percentage_error_relative_amplitude_j)
+                        # Set scale_factor and scale_factor_uncertainties
+                        scale_factor[:, :, i, j] = scale
+                        scale_factor[:, :, j, i] = scale
+                        scale_factor_uncertainty[:, :, j, i] = scale_uncertainty
+                        scale_factor_uncertainty[:, :, i, j] = scale_uncertainty
+                        # Combine ln_p_total and amp rat
+                        ln_p_total = ln_p_total+ln_p_amp_rat
+                        ln_p_total[np.isnan(ln_p_total)] = -np.inf
+                        # return zeros
+                        if not (ln_p_total > -np.inf).any():
                             if not self._return_zero:
-                                non_zero_indices = np.array(np.sum(ln_p_total, 0) > -np.inf).flatten()
-                                if sum(non_zeros) != sum(non_zero_indices):
-                                    non_zeros[non_zeros] = non_zero_indices
-                                    for j in range(i+1):
-                                        self.mts[j] = np.ascontiguousarray(self.mts[j][:, non_zero_indices])
-                                    ln_p_total = np.ascontiguousarray(ln_p_total[:, non_zero_indices])
-                                    scale_factor = np.ascontiguousarray(scale_factor[:, non_zero_indices, :, :])
-                                    scale_factor_uncertainty = np.ascontiguousarray(scale_factor_uncertainty[:, non_zero_indices, :, :])
-                    except Exception as e:
-                        print('Relative Amplitude Ratio Exception {}'.format(e))
-                        # Exception in cprobabilities combined PDF - print error message
-                        if _VERBOSITY >= 4:
-                            traceback.print_exc()
+                                return {'moment_tensors': np.matrix([]), 'ln_pdf': LnPDF(np.matrix([])), 'n': N}
+                            return {'moment_tensors': self.mts, 'ln_pdf': ln_p_total, 'n': N}
+                        # Update mts for non-zeros
+                        if not self._return_zero:
+                            non_zero_indices = np.array(np.max(ln_p_total, 0) > -np.inf).flatten()
+                            if sum(non_zeros) != sum(non_zero_indices):
+                                non_zeros[non_zeros] = non_zero_indices
+                                for k in range(i+1):
+                                    self.mts[k] = np.ascontiguousarray(self.mts[k][:, non_zero_indices])
+                                ln_p_total = np.ascontiguousarray(ln_p_total[:, non_zero_indices])
+                                scale_factor = np.ascontiguousarray(scale_factor[:, non_zero_indices, :, :])
+                                scale_factor_uncertainty = np.ascontiguousarray(scale_factor_uncertainty[:, non_zero_indices, :, :])
             # Handle relative inversion extensions
             if self._relative and len(self.extension_data):
                 extension_names, extensions = get_extensions('MTfit.data_types')
@@ -821,19 +819,16 @@ class MultipleEventsForwardTask(object):
         # Set up results dict
         if self.location_sample_size > 1 and not self._marginalise_relative:
             # Relative not marginalised already
-            ln_scale = 0
-            if -ln_p_total.max() > 0 and ln_p_total.max() > -np.inf:
-                ln_scale = -ln_p_total.max()
             scale_factor = np.array([{'mu': scale_factor[:, i], 'ln_p': ln_p_total[:, i], 'sigma': scale_factor_uncertainty[:, i]} for i in range(scale_factor.shape[1])])
             try:
                 for key in extension_scale.keys():
                     extension_scale[key] = np.array([{'mu': extension_scale[key][:, i], 'ln_p': ln_p_total[:, i], 'sigma': extension_scale_uncertainty[key][:, i]} for i in range(extension_scale[key].shape[1])])
             except Exception:
                 extension_scale = {}
-            p_total = np.exp(ln_p_total+ln_scale)
             # Marginalise
-            p_total = np.matrix(np.sum(p_total, 0))
-            ln_p_total = np.log(p_total)-ln_scale
+            if ln_p_total.shape[0] > 1:
+                ln_p_total = ln_marginalise(ln_p_total)
+            ln_p_total = np.array(ln_p_total).reshape(1, -1)
         elif self._relative:  # marginalise_relative is true
             if scale_factor.shape[0] == 1:
                 scale_factor = scale_factor.squeeze(0)
@@ -872,7 +867,8 @@ class MultipleEventsMcMCForwardTask(McMCForwardTask):
 
     def __init__(self, algorithm_kwargs, a_polarity, error_polarity, a1_amplitude_ratio, a2_amplitude_ratio, amplitude_ratio, percentage_error1_amplitude_ratio, percentage_error2_amplitude_ratio,
                  a_polarity_prob, polarity_prob, a_relative_amplitude, relative_amplitude, percentage_error_relative_amplitude, relative_amplitude_stations, incorrect_polarity_prob=0, relative=True,
-                 minimum_number_intersections=2, fid=False, event_data=False, location_samples=False, location_sample_multipliers=False, marginalise_relative=True, normalise=True, convert=False, extension_data=[]):
+                 minimum_number_intersections=2, fid=False, event_data=False, location_samples=False, location_sample_multipliers=False, marginalise_relative=True, normalise=True, convert=False, extension_data=[],
+                 event_location_sample_multipliers=False):
         """
         Initialisation of MultipleEventsMcMCForwardTask
 
@@ -901,6 +897,7 @@ class MultipleEventsMcMCForwardTask(McMCForwardTask):
             normalise:[True] Normalise output (doesn't matter for McMC main output, but will affect probability output)
             convert:[False] Convert output data to tape, hudson and fault plane coordinates.
             extension_data:[] A list of dictionaries of processed data for use by an MTfit.data_types extension.
+            event_location_sample_multipliers:[False] List of the location sample multipliers of each event (default is the location_sample_multipliers for all events).
 
         """
         self.algorithm_kwargs = algorithm_kwargs
@@ -923,6 +920,7 @@ class MultipleEventsMcMCForwardTask(McMCForwardTask):
         self.event_data = event_data
         self.location_samples = location_samples
         self.location_sample_multipliers = location_sample_multipliers
+        self.event_location_sample_multipliers = event_location_sample_multipliers
         self.minimum_number_intersections = minimum_number_intersections
         self._marginalise_relative = True  # Setting this to False causes issues at the moment marginalise_relative
         # TODO fix thie marginalise relative handling in the McMC
@@ -998,11 +996,14 @@ class MultipleEventsMcMCForwardTask(McMCForwardTask):
                     percentage_error2_amplitude_ratio = self.percentage_error2_amplitude_ratio[i]
                 else:
                     percentage_error2_amplitude_ratio = self.percentage_error2_amplitude_ratio
+                location_sample_multipliers = self.location_sample_multipliers
+                if isinstance(self.event_location_sample_multipliers, list):
+                    location_sample_multipliers = self.event_location_sample_multipliers[i]
                 # Run forward task
                 forward_task = ForwardTask(mt, a_polarity, error_polarity, a1_amplitude_ratio, a2_amplitude_ratio,
                                            amplitude_ratio, percentage_error1_amplitude_ratio,
                                            percentage_error2_amplitude_ratio, a_polarity_prob,
-                                           polarity_prob, self.location_sample_multipliers, incorrect_polarity_prob,
+                                           polarity_prob, location_sample_multipliers, incorrect_polarity_prob,
                                            return_zero=False, reuse=False, extension_data=extension_data)
                 results.append(forward_task())
             mts, end = self.algorithm.iterate(results)
@@ -1017,7 +1018,8 @@ class MultipleEventsMcMCForwardTask(McMCForwardTask):
                                                                  self.minimum_number_intersections, return_zero=True, reuse=True,
                                                                  relative=self._relative, location_sample_size=location_sample_size,
                                                                  marginalise_relative=self._marginalise_relative,
-                                                                 extension_data=self.extension_data)
+                                                                 extension_data=self.extension_data,
+                                                                 event_location_sample_multipliers=self.event_location_sample_multipliers)
         while not end:
             multiple_events_forward_task.mts = mts
             result = multiple_events_forward_task()
@@ -2330,6 +2332,7 @@ class Inversion(object):
         relative_amplitude_stations = []
         incorrect_polarity_probability = []
         extension_data = []
+        event_location_sample_multipliers = []
         for i, event in enumerate(self.data):
             try:
                 # Check event data
@@ -2355,6 +2358,7 @@ class Inversion(object):
                 polarity_probability.append(polarity_probability_i)
                 incorrect_polarity_probability.append(incorrect_polarity_probability_i)
                 extension_data.append(extension_data_i)
+                event_location_sample_multipliers.append(self.location_sample_multipliers)
                 # If running relative get relative data
                 if self._relative:
                     a_relative_amplitude_i, relative_amplitude_i, percentage_error_relative_amplitude_i, relative_amplitude_stations_i = relative_amplitude_ratio_matrix(event, self.location_samples)
@@ -2380,7 +2384,7 @@ class Inversion(object):
                                       polarity_probability, a_relative_amplitude, relative_amplitude, percentage_error_relative_amplitude,
                                       relative_amplitude_stations, incorrect_polarity_probability, self._relative, self.minimum_number_intersections,
                                       fid, self.data, self.location_samples, self.location_sample_multipliers, self._marginalise_relative, self.normalise,
-                                      self.convert, extension_data)
+                                      self.convert, extension_data, event_location_sample_multipliers)
 
                 result = self.pool.result()
                 try:
@@ -2403,7 +2407,7 @@ class Inversion(object):
                                                        amplitude_ratio, percentage_error1_amplitude_ratio, percentage_error2_amplitude_ratio, a_polarity_probability, polarity_probability,
                                                        a_relative_amplitude, relative_amplitude, percentage_error_relative_amplitude, relative_amplitude_stations, incorrect_polarity_probability,
                                                        relative=self._relative, minimum_number_intersections=self.minimum_number_intersections, fid=fid, location_samples=self.location_samples,
-                                                       location_sample_multipliers=self.location_sample_multipliers, marginalise_relative=self._marginalise_relative, normalise=self.normalise, convert=self.convert, extension_data=extension_data)()
+                                                       location_sample_multipliers=self.location_sample_multipliers, marginalise_relative=self._marginalise_relative, normalise=self.normalise, convert=self.convert, extension_data=extension_data, event_location_sample_multipliers=event_location_sample_multipliers)()
                 self._print('Inversion completed, '+str(result['algorithm_output_data']['total_number_samples'])+' samples evaluated: '+str((result['algorithm_output_data']['accepted'])) +
                             ' accepted samples: '+str((float(result['algorithm_output_data']['accepted'])/float(result['algorithm_output_data']['total_number_samples']))*100)[:4]+'%')
                 try:
@@ -2622,6 +2626,7 @@ class Inversion(object):
         relative_amplitude_stations = []
         incorrect_polarity_probability = []
         extension_data = []
+        event_location_sample_multipliers = []
         for i, event in enumerate(self.data):
             try:
                 # Check event data
@@ -2647,6 +2652,7 @@ class Inversion(object):
                 polarity_probability.append(polarity_probability_i)
                 incorrect_polarity_probability.append(incorrect_polarity_probability_i)
                 extension_data.append(extension_data_i)
+                event_location_sample_multipliers.append(self.location_sample_multipliers)
                 # If running relative get relative data
                 if self._relative:
                     a_relative_amplitude_i, relative_amplitude_i, percentage_error_relative_amplitude_i, relative_amplitude_stations_i = relative_amplitude_ratio_matrix(event, self.location_samples)
@@ -2671,7 +2677,8 @@ class Inversion(object):
                     self.pool.custom_task(MultipleEventsForwardTask, MTs, a_polarity, error_polarity, a1_amplitude_ratio, a2_amplitude_ratio, amplitude_ratio,
                                           percentage_error1_amplitude_ratio, percentage_error2_amplitude_ratio, a_polarity_probability, polarity_probability, a_relative_amplitude,
                                           relative_amplitude, percentage_error_relative_amplitude, relative_amplitude_stations, self.location_sample_multipliers, incorrect_polarity_probability, self.minimum_number_intersections,
-                                          False, False, self._relative, location_sample_size, self._marginalise_relative, not self._relative_loop, extension_data)
+                                          False, False, self._relative, location_sample_size, self._marginalise_relative, not self._relative_loop, extension_data,
+                                          event_location_sample_multipliers)
             elif self._MPI:
                 end = False
                 # Carried out in each worker
@@ -2680,7 +2687,8 @@ class Inversion(object):
                                                    percentage_error2_amplitude_ratio, a_polarity_probability, polarity_probability, a_relative_amplitude, relative_amplitude,
                                                    percentage_error_relative_amplitude, relative_amplitude_stations, self.location_sample_multipliers, incorrect_polarity_probability,
                                                    self.minimum_number_intersections, relative=self._relative, location_sample_size=location_sample_size,
-                                                   marginalise_relative=self._marginalise_relative, combine=not self._relative_loop, extension_data=extension_data)()
+                                                   marginalise_relative=self._marginalise_relative, combine=not self._relative_loop, extension_data=extension_data,
+                                                   event_location_sample_multipliers=event_location_sample_multipliers)()
             else:
                 MTs, end = self._parse_job_result(False)
             while not end:
@@ -2690,7 +2698,8 @@ class Inversion(object):
                     self.pool.custom_task(MultipleEventsForwardTask, MTs, a_polarity, error_polarity, a1_amplitude_ratio, a2_amplitude_ratio, amplitude_ratio,
                                           percentage_error1_amplitude_ratio, percentage_error2_amplitude_ratio, a_polarity_probability, polarity_probability,
                                           a_relative_amplitude, relative_amplitude, percentage_error_relative_amplitude, relative_amplitude_stations, self.location_sample_multipliers, incorrect_polarity_probability,
-                                          self.minimum_number_intersections, False, False, self._relative, location_sample_size, self._marginalise_relative, not self._relative_loop, extension_data)
+                                          self.minimum_number_intersections, False, False, self._relative, location_sample_size, self._marginalise_relative, not self._relative_loop, extension_data,
+                                          event_location_sample_multipliers)
                 elif self._MPI:
                     if not self.mpi_output:
                         items = self.comm.Gather(result, 0)
@@ -2722,13 +2731,15 @@ class Inversion(object):
                                                        percentage_error2_amplitude_ratio, a_polarity_probability, polarity_probability, a_relative_amplitude, relative_amplitude,
                                                        percentage_error_relative_amplitude, relative_amplitude_stations, self.location_sample_multipliers, incorrect_polarity_probability,
                                                        self.minimum_number_intersections, relative=self._relative, location_sample_size=location_sample_size,
-                                                       marginalise_relative=self._marginalise_relative, combine=not self._relative_loop, extension_data=extension_data)()
+                                                       marginalise_relative=self._marginalise_relative, combine=not self._relative_loop, extension_data=extension_data,
+                                                   event_location_sample_multipliers=event_location_sample_multipliers)()
                 else:
                     result = MultipleEventsForwardTask(MTs, a_polarity, error_polarity, a1_amplitude_ratio, a2_amplitude_ratio, amplitude_ratio, percentage_error1_amplitude_ratio,
                                                        percentage_error2_amplitude_ratio, a_polarity_probability, polarity_probability, a_relative_amplitude, relative_amplitude,
                                                        percentage_error_relative_amplitude, relative_amplitude_stations, self.location_sample_multipliers, incorrect_polarity_probability,
                                                        self.minimum_number_intersections, relative=self._relative, location_sample_size=location_sample_size,
-                                                       marginalise_relative=self._marginalise_relative, combine=not self._relative_loop, extension_data=extension_data)()
+                                                       marginalise_relative=self._marginalise_relative, combine=not self._relative_loop, extension_data=extension_data,
+                                                   event_location_sample_multipliers=event_location_sample_multipliers)()
                     MTs, end = self._parse_job_result(result)
             # Get all pool results
             if self.pool:
-- 
2.43.0


From c269ea1e7ff4a8f0e218dcd5fa03ec3d8348bd43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:38 +0000
Subject: [PATCH 43/63] fix: relative loop of joint inversions did not evaluate
 the joint log-probability

---
 src/MTfit/inversion.py | 115 ++++++++++++++++++++---------------------
 1 file changed, 56 insertions(+), 59 deletions(-)

diff --git a/src/MTfit/inversion.py b/src/MTfit/inversion.py
index ae73a26..7a410b6 100644
--- a/src/MTfit/inversion.py
+++ b/src/MTfit/inversion.py
@@ -544,7 +544,8 @@ class MultipleEventsForwardTask(object):
             # We would expect amplitude ratio location uncertainty to be minimal between co-located events
             # So probably need to remove any location uncertainty for the relative amplitude terms
         self.extension_data = extension_data
-        if self._relative and not self._combine and self._return_zero:
+        # The relative loop only changes how the samples are combined when there is relative data
+        if not self._combine and (self._return_zero or not self._relative):
             self._combine = True
 
     @memory_profile_test(_MEMTEST)
@@ -635,74 +636,70 @@ class MultipleEventsForwardTask(object):
                 if not (ln_pdf > -np.inf).any() and self._relative and ((isinstance(self.a_relative_amplitude, list) and len(self.a_relative_amplitude)) or not isinstance(self.a_relative_amplitude, (bool, list))):
                     # in relative loop  and all zero prob
                     return {'moment_tensors': np.matrix([]), 'ln_pdf': LnPDF(np.matrix([])), 'n': N}
-                ln_p_total.append(ln_pdf)
-                continue
-            # all zero so breaking
-            if ln_pdf.shape[1] == 0:
-                ln_p_total = np.full(ln_p_total.shape, -np.inf)
-                break
-            ln_p_total = ln_p_total+ln_pdf
-            # return if ln_p_total is all zero
-            if not (ln_p_total > -np.inf).any():
-                # return zeros
-                if not self._return_zero:
-                    return {'moment_tensors': np.matrix([]), 'ln_pdf': LnPDF(np.matrix([])), 'n': N}
-                return {'moment_tensors': self.mts, 'ln_pdf': ln_p_total, 'n': N, 'scale_factor': scale_factor}
-            # Update mts
-            if not self._return_zero:
-                # Update ln_pdfs etc. for non-zeros (for any of the location samples)
-                non_zero_indices = np.array(np.max(ln_p_total, 0) > -np.inf).flatten()
-                if sum(non_zeros) != sum(non_zero_indices):
-                    non_zeros[non_zeros] = non_zero_indices  # update non zeros
-                    for j in range(i+1):
-                        self.mts[j] = np.ascontiguousarray(self.mts[j][:, non_zero_indices])
-                    scale_factor = np.ascontiguousarray(scale_factor[:, non_zero_indices, :, :])
-                    scale_factor_uncertainty = np.ascontiguousarray(scale_factor_uncertainty[:, non_zero_indices, :, :])
-                    ln_p_total = ln_p_total[:, non_zero_indices]
-                    mt = self.mts[i]
-            #####
-            if self._relative and ((isinstance(self.a_relative_amplitude, list) and len(self.a_relative_amplitude)) or not isinstance(self.a_relative_amplitude, (bool, list))) and not self._combine:
-                # Do relative amplitude calculations if not combining PDFs - Relative loop over non-zero samples, introduces some bias but not much, and should reduce computation time
-                # Set non zeros
-                non_zero = []
-                for i, ln_p in enumerate(ln_p_total):
-                    nonzero_p = LnPDF(ln_p).nonzero()
-                    self.mts[i] = self.mts[i][:, nonzero_p]
-                    ln_p_total[i] = LnPDF(ln_p)[:, nonzero_p]
-                    non_zero.append(len(nonzero_p))
+                ln_p_total.append(np.array(ln_pdf)*np.ones((1 if marginalise else self.location_sample_size, 1)))
+                if i < len(self.mts)-1:
+                    continue
+                # Relative loop over non-zero samples, introduces some bias but not much, and should reduce computation time
+                non_zero = [np.nonzero(np.max(ln_p, 0) > -np.inf)[0] for ln_p in ln_p_total]
                 # Get fewest number of mts and set all non-zero mts to that
-                min_mts = min(non_zero)
+                min_mts = min([len(indices) for indices in non_zero])
                 if min_mts == 0:
                     return {'moment_tensors': np.matrix([]), 'ln_pdf': LnPDF(np.matrix([])), 'n': N}
-                for i, ln_p in enumerate(ln_p_total):
-                    if i == 0:
-                        ln_p_t = ln_p[:, 0: min_mts]
-                    else:
-                        ln_p_t += ln_p[:, 0: min_mts]
-                    self.mts[i] = np.ascontiguousarray(self.mts[i][:, 0: min_mts])
-                # Set up ln_p_total to run amp ratios through
-                ln_p_total = LnPDF(ln_p_t)
+                self.mts = [np.ascontiguousarray(mts[:, indices[:min_mts]]) for mts, indices in zip(self.mts, non_zero)]
+                ln_p_loop = [ln_p[:, indices[:min_mts]] for ln_p, indices in zip(ln_p_total, non_zero)]
+                ln_p_total = np.zeros((1 if marginalise else self.location_sample_size, min_mts))
+                if not marginalise and isinstance(self.location_sample_multipliers, (list, np.ndarray)) and len(self.location_sample_multipliers):
+                    ln_p_total += np.log(np.array(self.location_sample_multipliers).astype(np.float64)).reshape(-1, 1)
+                for ln_p in ln_p_loop:
+                    ln_p_total += ln_p
+                non_zeros = np.ones(min_mts, dtype=bool)
+                scale_factor = np.zeros((self.location_sample_size, min_mts, len(self.mts), len(self.mts)))
+                scale_factor_uncertainty = np.zeros(scale_factor.shape)
+                for k in range(len(self.mts)):
+                    scale_factor[:, :, k, k] = 1
+                relative_pairs = [(k, l) for k in range(len(self.mts)) for l in range(k)]
+            else:
+                relative_pairs = [(i, k) for k in range(i)]
+                # all zero so breaking
+                if ln_pdf.shape[1] == 0:
+                    ln_p_total = np.full(ln_p_total.shape, -np.inf)
+                    break
+                ln_p_total = ln_p_total+ln_pdf
+                # return if ln_p_total is all zero
+                if not (ln_p_total > -np.inf).any():
+                    # return zeros
+                    if not self._return_zero:
+                        return {'moment_tensors': np.matrix([]), 'ln_pdf': LnPDF(np.matrix([])), 'n': N}
+                    return {'moment_tensors': self.mts, 'ln_pdf': ln_p_total, 'n': N, 'scale_factor': scale_factor}
+                # Update mts
                 if not self._return_zero:
-                    nonzero_p = ln_p_total.nonzero()
-                    self.mts = [mts[:, nonzero_p] for mts in self.mts]
-                ln_p_total = ln_p_total._ln_pdf
+                    # Update ln_pdfs etc. for non-zeros (for any of the location samples)
+                    non_zero_indices = np.array(np.max(ln_p_total, 0) > -np.inf).flatten()
+                    if sum(non_zeros) != sum(non_zero_indices):
+                        non_zeros[non_zeros] = non_zero_indices  # update non zeros
+                        for j in range(i+1):
+                            self.mts[j] = np.ascontiguousarray(self.mts[j][:, non_zero_indices])
+                        scale_factor = np.ascontiguousarray(scale_factor[:, non_zero_indices, :, :])
+                        scale_factor_uncertainty = np.ascontiguousarray(scale_factor_uncertainty[:, non_zero_indices, :, :])
+                        ln_p_total = ln_p_total[:, non_zero_indices]
+                        mt = self.mts[i]
             if self._relative and ((isinstance(self.a_relative_amplitude, list) and len(self.a_relative_amplitude)) or not isinstance(self.a_relative_amplitude, (bool, list))):
-                for j in range(i):
+                for pair_i, j in relative_pairs:
                     # Go backwards to ease calculation as there are  fewer events at start when most non-zero mts
                     # Get amplitude ratio station coefficients
                     if isinstance(self.a_relative_amplitude, list) and len(self.a_relative_amplitude):
-                        a1_relative_amplitude_ratio = self.a_relative_amplitude[i]
+                        a1_relative_amplitude_ratio = self.a_relative_amplitude[pair_i]
                         a2_relative_amplitude_ratio = self.a_relative_amplitude[j]
                     else:
                         a1_relative_amplitude_ratio = self.a_relative_amplitude
                         a2_relative_amplitude_ratio = self.a_relative_amplitude
                     # Check that both events have relative data
-                    if isinstance(self.relative_amplitude_stations[i], bool) or isinstance(self.relative_amplitude_stations[j], bool):
+                    if isinstance(self.relative_amplitude_stations[pair_i], bool) or isinstance(self.relative_amplitude_stations[j], bool):
                         continue
                     # Intersect stations
-                    intersected_data = _intersect_stations(self.relative_amplitude_stations[i], self.relative_amplitude_stations[j], a1_relative_amplitude_ratio,
-                                                           a2_relative_amplitude_ratio, self.relative_amplitude[i], self.relative_amplitude[j],
-                                                           self.percentage_error_relative_amplitude[i], self.percentage_error_relative_amplitude[j])
+                    intersected_data = _intersect_stations(self.relative_amplitude_stations[pair_i], self.relative_amplitude_stations[j], a1_relative_amplitude_ratio,
+                                                           a2_relative_amplitude_ratio, self.relative_amplitude[pair_i], self.relative_amplitude[j],
+                                                           self.percentage_error_relative_amplitude[pair_i], self.percentage_error_relative_amplitude[j])
                     a1_relative_amplitude_ratio = intersected_data[0]
                     a2_relative_amplitude_ratio = intersected_data[1]
                     relative_amplitude_i = intersected_data[2]
@@ -713,15 +710,15 @@ class MultipleEventsForwardTask(object):
                     # Check number of intersections
                     if n_intersections >= max(self.minimum_number_intersections, 1):
                         # Evaluate relative amplitude ratio pdf
-                        ln_p_amp_rat, scale, scale_uncertainty = relative_amplitude_ratio_ln_pdf(relative_amplitude_i, relative_amplitude_j, np.ascontiguousarray(self.mts[i]),
+                        ln_p_amp_rat, scale, scale_uncertainty = relative_amplitude_ratio_ln_pdf(relative_amplitude_i, relative_amplitude_j, np.ascontiguousarray(self.mts[pair_i]),
                                                                                                  np.ascontiguousarray(self.mts[j]), a1_relative_amplitude_ratio,
                                                                                                  a2_relative_amplitude_ratio, percentage_error_relative_amplitude_i,
                                                                                                  percentage_error_relative_amplitude_j)
                         # Set scale_factor and scale_factor_uncertainties
-                        scale_factor[:, :, i, j] = scale
-                        scale_factor[:, :, j, i] = scale
-                        scale_factor_uncertainty[:, :, j, i] = scale_uncertainty
-                        scale_factor_uncertainty[:, :, i, j] = scale_uncertainty
+                        scale_factor[:, :, pair_i, j] = scale
+                        scale_factor[:, :, j, pair_i] = scale
+                        scale_factor_uncertainty[:, :, j, pair_i] = scale_uncertainty
+                        scale_factor_uncertainty[:, :, pair_i, j] = scale_uncertainty
                         # Combine ln_p_total and amp rat
                         ln_p_total = ln_p_total+ln_p_amp_rat
                         ln_p_total[np.isnan(ln_p_total)] = -np.inf
-- 
2.43.0


From 02e2f9bc3d60d1ca4e6c0dd73c799b7e55f3cc29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:46 +0000
Subject: [PATCH 44/63] fix: relative amplitude scale factor was lost to
 rounding for small measurement errors

---
 src/MTfit/probability/cprobability.pyx | 12 +++++++-----
 src/MTfit/probability/probability.py   | 14 ++++++++------
 2 files changed, 15 insertions(+), 11 deletions(-)

diff --git a/src/MTfit/probability/cprobability.pyx b/src/MTfit/probability/cprobability.pyx
index 664e3eb..c60ee86 100644
--- a/src/MTfit/probability/cprobability.pyx
+++ b/src/MTfit/probability/cprobability.pyx
@@ -1652,7 +1652,7 @@ cdef inline DTYPE_t combine_s(DTYPE_t s1, DTYPE_t s2) nogil:
 @cython.cdivision(True)
 cdef void estimate_scale_mu_s(DTYPE_t *mu, DTYPE_t *s, DTYPE_t x,DTYPE_t y,DTYPE_t mux,DTYPE_t muy,DTYPE_t psx,DTYPE_t psy) nogil:
     cdef double sqrtpi=sqrt(pi)
-    cdef DTYPE_t N,sx,sy,z,mu1,mux3,mux2,sy_2,sx_2,s1_2,mu1_2,s1,A,B,C
+    cdef DTYPE_t N,sx,sy,z,mu1,mux3,mux2,sy_2,sx_2,s1_2,mu1_2,s1,A,B,C,shift,exp_muy
 
     z=fabs(x/y)
     mux=fabs(mux)
@@ -1668,13 +1668,15 @@ cdef void estimate_scale_mu_s(DTYPE_t *mu, DTYPE_t *s, DTYPE_t x,DTYPE_t y,DTYPE
     s1_2=s1*s1
     mu1=muy*z/mux
     mu1_2=mu1*mu1
-    N=((sy_2*mux*z*mu1+sx_2*muy)/(mux3)+(sqrt2*sx_2*sy*exp_muy)/(sqrtpi*mux3*s1_2))
-    A=(sy_2*mux*z*mu1)/(mux3)
+    A=(sy_2*mux*z)/(mux3)
     B=sx_2*muy/mux3
     C=sqrt2*sx_2*sy*exp_muy/(sqrtpi*mux3*s1_2)
+    N=A*mu1+B+C
+    # With respect to mu1, as the difference of the second moment and the squared mean is lost to rounding for small errors
+    shift=(A*s1_2-C*mu1)/N
     #CYTHON POINTER ASSIGNMENT
-    mu[0]=(sy_2*mux*z*(s1_2+mu1_2)+sx_2*mu1*muy)/(mux3*N)
-    s[0]=sqrt(((sy_2*(mu1_2*mu1+3*mu1*s1_2)*mux*z+sx_2*(s1_2+mu1_2)*muy)/mux3+sqrt2*sx_2*sx_2*sy*exp_muy/(sqrtpi*mux3*mux2*s1_2))/N-mu[0]*mu[0])
+    mu[0]=mu1+shift
+    s[0]=sqrt(((A*mu1+B)*s1_2+C*(sx_2/mux2+mu1_2))/N-shift*shift)
 
 @cython.boundscheck(False)
 @cython.wraparound(False)
diff --git a/src/MTfit/probability/probability.py b/src/MTfit/probability/probability.py
index 73dd46b..5211809 100644
--- a/src/MTfit/probability/probability.py
+++ b/src/MTfit/probability/probability.py
@@ -582,12 +582,14 @@ def scale_estimator(observed_ratio, mu_x, mu_y, percentage_error_x, percentage_e
         np.multiply(mu_x_3, s1_2))
 
     N = np.multiply(A, mu1) + B + C
-    # Calculate mean and standard deviations
-    mu = np.divide(np.multiply(A, (s1_2 + mu1_2)) + np.multiply(B, mu1), N)
-    s = np.sqrt(np.divide(np.multiply(A, (3*np.multiply(s1_2, mu1)+np.multiply(mu1_2, mu1))) +
-                          np.multiply(B, (s1_2 + mu1_2)) +
-                          np.multiply(C, np.divide(sx_2, mu_x_2)),
-                          N) - np.multiply(mu, mu))
+    # Calculate mean and standard deviations (with respect to mu1, as the
+    # difference of the second moment and the squared mean is lost to
+    # rounding for small errors)
+    shift = np.divide(np.multiply(A, s1_2) - np.multiply(C, mu1), N)
+    mu = mu1 + shift
+    s = np.sqrt(np.divide(np.multiply(np.multiply(A, mu1) + B, s1_2) +
+                          np.multiply(C, np.divide(sx_2, mu_x_2) + mu1_2),
+                          N) - np.multiply(shift, shift))
     # Combine mean over stations
     return combine_mu(mu, s)
 
-- 
2.43.0


From 4c8018e25bf41ef2edbfe6284531f6f5002df580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:13 +0000
Subject: [PATCH 45/63] fix: relative amplitudes of several types could not be
 used with location samples

---
 src/MTfit/inversion.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/MTfit/inversion.py b/src/MTfit/inversion.py
index 7a410b6..b45b56a 100644
--- a/src/MTfit/inversion.py
+++ b/src/MTfit/inversion.py
@@ -3152,8 +3152,8 @@ def relative_amplitude_ratio_matrix(data, location_samples=False):
             angles = np.array(angles)
             relative_amplitude_stations.extend([(u, key) for u in selected_stations])
             indices = [data[key]['Stations']['Name'].index(u) for u in selected_stations]
-            measured = data[key]['Measured'][indices]
-            error = data[key]['Error'][indices]
+            measured = np.array(data[key]['Measured'][indices]).flatten()
+            error = np.array(data[key]['Error'][indices]).flatten()
         # Otherwise get angles and measurements
         else:
             angles = np.zeros((np.prod(data[key]['Stations']['TakeOffAngle'].shape), 1, 6))
-- 
2.43.0


From 0cc85b779ff5d758653871146dfd11be8b78b0e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:13 +0000
Subject: [PATCH 46/63] fix: joint log-probability was NaN when a zero
 probability followed an infinite ratio density

---
 src/MTfit/inversion.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/MTfit/inversion.py b/src/MTfit/inversion.py
index b45b56a..ba38123 100644
--- a/src/MTfit/inversion.py
+++ b/src/MTfit/inversion.py
@@ -665,6 +665,8 @@ class MultipleEventsForwardTask(object):
                     ln_p_total = np.full(ln_p_total.shape, -np.inf)
                     break
                 ln_p_total = ln_p_total+ln_pdf
+                # zero probability, whatever the other terms are
+                ln_p_total[np.isnan(ln_p_total)] = -np.inf
                 # return if ln_p_total is all zero
                 if not (ln_p_total > -np.inf).any():
                     # return zeros
-- 
2.43.0


From a49ec136fe36bac8d1110aa83954faca0519eff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:01 +0000
Subject: [PATCH 47/63] fix: scatter binning compared the angles of different
 stations when blocks list them in another order

---
 src/MTfit/extensions/scatangle.py | 84 +++++++++++++++++++++++--------
 1 file changed, 63 insertions(+), 21 deletions(-)

diff --git a/src/MTfit/extensions/scatangle.py b/src/MTfit/extensions/scatangle.py
index 3511d48..4d3e144 100644
--- a/src/MTfit/extensions/scatangle.py
+++ b/src/MTfit/extensions/scatangle.py
@@ -147,37 +147,79 @@ def parse_scatangle(filename, number_location_samples=0, bin_size=0, _use_c=True
         # Sample randomly from records, probability
         sample_records = list(np.array(sample_records)[samples])
         multipliers = list(np.array(multipliers)[samples])
-    new_multipliers = []
     if bin_size:
         old_size = len(sample_records)
         if cscatangle and _use_c:
             logger.info('C code used')
-            t0 = time.time()
-            sample_records, multipliers = cscatangle.bin_scatangle(sample_records, np.array(multipliers), bin_size)
-            logger.info('Elapsed time = {}'.format(time.time()-t0))
         else:
             logger.info('Python code used')
-            t0 = time.time()
-            for i, record in enumerate(sample_records):
-                if not (i+1) % 10:
-                    logger.info('{} records completed'.format(i+1))
-                j = i+1
-                multiplier = multipliers[i]
-                while j < len(sample_records):
-                    toa_diff = sample_records[j]['TakeOffAngle']-record['TakeOffAngle']
-                    az_diff = sample_records[j]['Azimuth']-record['Azimuth']
-                    if np.max(np.abs(toa_diff)) < bin_size/2.0 and np.max(np.abs(az_diff)) < bin_size/2.0:
-                        multiplier += multipliers.pop(j)
-                        sample_records.pop(j)
-                    else:
-                        j += 1
-                new_multipliers.append(multiplier)
-            multipliers = new_multipliers
-            logger.info('Elapsed time = {}'.format(time.time()-t0))
+        t0 = time.time()
+        binned = []
+        for indices, records in _match_stations(sample_records):
+            records, record_multipliers = _bin_records(records, [multipliers[i] for i in indices], bin_size, _use_c)
+            binned.extend(zip([record['Index'] for record in records], record_multipliers))
+        binned.sort(key=operator.itemgetter(0))
+        sample_records = [sample_records[i] for i, _ in binned]
+        multipliers = [multiplier for _, multiplier in binned]
+        logger.info('Elapsed time = {}'.format(time.time()-t0))
         logger.info('{} degree binning reduced {}  samples to {} samples.'.format(bin_size, old_size, len(sample_records)))
     return sample_records, multipliers
 
 
+def _match_stations(sample_records):
+    """
+    Group the records by the stations they hold, with the stations of a group in one order.
+
+    Args
+        sample_records: list of location sample records.
+
+    Returns
+        list of (indices, records) for each set of stations, where the angles of the records are in the order of the
+        (sorted) station names and the 'Index' of each record is its position in sample_records.
+    """
+    groups = {}
+    for i, record in enumerate(sample_records):
+        order = sorted(range(len(record['Name'])), key=record['Name'].__getitem__)
+        names = [record['Name'][j] for j in order]
+        indices, records = groups.setdefault(tuple(names), ([], []))
+        indices.append(i)
+        records.append({'Name': names, 'Azimuth': record['Azimuth'][order], 'TakeOffAngle': record['TakeOffAngle'][order], 'Index': i})
+    return list(groups.values())
+
+
+def _bin_records(sample_records, multipliers, bin_size, _use_c=True):
+    """
+    Bin records that hold the same stations in the same order.
+
+    Args
+        sample_records: list of location sample records.
+        multipliers: list of sample multipliers.
+        bin_size: bin size in degrees.
+        _use_c: [True] use the C code if available.
+
+    Returns
+        (list, list): records and multipliers of the bins.
+    """
+    if cscatangle and _use_c:
+        return cscatangle.bin_scatangle(sample_records, np.array(multipliers), bin_size)
+    new_multipliers = []
+    for i, record in enumerate(sample_records):
+        if not (i+1) % 10:
+            logger.info('{} records completed'.format(i+1))
+        j = i+1
+        multiplier = multipliers[i]
+        while j < len(sample_records):
+            toa_diff = sample_records[j]['TakeOffAngle']-record['TakeOffAngle']
+            az_diff = sample_records[j]['Azimuth']-record['Azimuth']
+            if np.max(np.abs(toa_diff)) < bin_size/2.0 and np.max(np.abs(az_diff)) < bin_size/2.0:
+                multiplier += multipliers.pop(j)
+                sample_records.pop(j)
+            else:
+                j += 1
+        new_multipliers.append(multiplier)
+    return sample_records, new_multipliers
+
+
 def _output_scatangle(filename, samples, probabilities):
     """
     Output scatangle file from samples and probabilities.
-- 
2.43.0


From dee0585e7db38219ac8982c255f6ec6758e95fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:19 +0000
Subject: [PATCH 48/63] fix: a blank line without commas in a CSV event file
 made parsing fail

---
 src/MTfit/utilities/file_io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MTfit/utilities/file_io.py b/src/MTfit/utilities/file_io.py
index 41e7014..0f5451c 100644
--- a/src/MTfit/utilities/file_io.py
+++ b/src/MTfit/utilities/file_io.py
@@ -347,7 +347,7 @@ def parse_csv(filename):
     event = []
     # Loop over lines
     for l in lines:
-        if not len(l.split(',')[0]) and not len(l.split(',')[1]):
+        if not len(l.strip()) or (not len(l.split(',')[0]) and not len(l.split(',')[1])):
             # End OF event
             if len(event):
                 events_list.append(event)
-- 
2.43.0


From 3af9ddf18131e719e025766ee070506bdf567c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:19 +0000
Subject: [PATCH 49/63] fix: events with the same data in a CSV file were given
 the same default UID

---
 src/MTfit/utilities/file_io.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/MTfit/utilities/file_io.py b/src/MTfit/utilities/file_io.py
index 0f5451c..a124968 100644
--- a/src/MTfit/utilities/file_io.py
+++ b/src/MTfit/utilities/file_io.py
@@ -398,8 +398,8 @@ def _parse_csv_events(events_list):
     take_off_angle_index = 2
     error_index = 4
     # Loop over events
-    for event in events_list:
-        event_dict = {'UID': str(events_list.index(event)+1)}
+    for i, event in enumerate(events_list):
+        event_dict = {'UID': str(i+1)}
         # Set up generic dictionary
         key_dict = {'Stations': {
             'Name': [], 'TakeOffAngle': [], 'Azimuth': []}, 'Measured': [], 'Error': []}
-- 
2.43.0


From 319d23d3b6049401a3da0038991e78557bd9bf8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:19 +0000
Subject: [PATCH 50/63] fix: a UID containing UID was cut short when read from
 a CSV file

---
 src/MTfit/utilities/file_io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MTfit/utilities/file_io.py b/src/MTfit/utilities/file_io.py
index a124968..718a1b2 100644
--- a/src/MTfit/utilities/file_io.py
+++ b/src/MTfit/utilities/file_io.py
@@ -410,7 +410,7 @@ def _parse_csv_events(events_list):
                 # Try tp get UID
                 if 'UID' in split_line[0]:
                     event_dict['UID'] = split_line[0].split(
-                        'UID')[1].lstrip(':').lstrip('=').strip()
+                        'UID', 1)[1].lstrip(':').lstrip('=').strip()
                 else:
                     # End of event
                     if len(key_dict['Stations']['Name']):
-- 
2.43.0


From d381229e3cf5f25a9505ffbd4f8c6b0f76b85f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:19 +0000
Subject: [PATCH 51/63] fix: NonLinLoc phases with a prior weight column were
 read with the wrong azimuth and take-off angle

---
 src/MTfit/utilities/file_io.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/MTfit/utilities/file_io.py b/src/MTfit/utilities/file_io.py
index 718a1b2..75a49ea 100644
--- a/src/MTfit/utilities/file_io.py
+++ b/src/MTfit/utilities/file_io.py
@@ -280,6 +280,8 @@ def _parse_hyp_events(events_list, polarity_error_multiplier=3.):
                 uncertainty = float(line[10])
                 # Get amplitude (unused)
                 amplitude = float(line[12])  # noqa F841
+                # The columns after > move if there is a prior weight
+                observed = line.index('>')
                 if polarity != 0:
                     if not event_dict.__contains__(phase_type+'Polarity'):
                         event_dict[phase_type+'Polarity'] = key_dict.copy()
@@ -290,9 +292,9 @@ def _parse_hyp_events(events_list, polarity_error_multiplier=3.):
                     event_dict[
                         phase_type+'Polarity']['Error'].append(uncertainty*polarity_error_multiplier)
                     event_dict[
-                        phase_type+'Polarity']['Stations']['TakeOffAngle'].append([float(line[24])])
+                        phase_type+'Polarity']['Stations']['TakeOffAngle'].append([float(line[observed+10])])
                     event_dict[
-                        phase_type+'Polarity']['Stations']['Azimuth'].append([float(line[23])])
+                        phase_type+'Polarity']['Stations']['Azimuth'].append([float(line[observed+9])])
         # End of event, make data into appropriate structures
         for key in event_dict.keys():
             if key != 'UID':
@@ -686,8 +688,7 @@ def _generate_hyp_output_data(event_data, inversion_options=False, output_data=F
                               '{:5.1f}'.format(event_data[phase+'Polarity']['Stations']['TakeOffAngle'][i, 0]).lstrip(), '?', '?'])
         lines.append(['END_PHASE'])
         lines.append(['END_NLLOC'])
-    phase_line_index = lines.index(['PHASE', 'ID', 'Ins', 'Cmp', 'On', 'Pha', 'FM', 'Date', 'HrMn', 'Sec', 'Err', 'ErrMag', 'Coda',
-                                    'Amp', 'Per', '>', 'TTpred', 'Res', 'Weight', 'StaLoc(X', 'Y', 'Z)', 'SDist', 'SAzim', 'RAz', 'RDip', 'RQual', 'Tcorr'])
+    phase_line_index = [line[0] for line in lines].index('PHASE')
     end_phase_line_index = lines.index(['END_PHASE'])
     geog_line = [line for line in lines if line[0] == 'GEOGRAPHIC'][0]
     # GET PHASE LINE AND THEN PREPEND MT AND UPDATE misfit_checks
@@ -716,7 +717,8 @@ def _generate_hyp_output_data(event_data, inversion_options=False, output_data=F
     for i in range(phase_line_index+2, end_phase_line_index+1):
         if len(lines[i]) < 24:
             continue
-        if _polarity_misfit_check(nlloc_polarity_dict[lines[i][5].lower()], float(lines[i][23]), float(lines[i][24]), lines[i][4], maxMT):
+        observed = lines[i].index('>')
+        if _polarity_misfit_check(nlloc_polarity_dict[lines[i][5].lower()], float(lines[i][observed+9]), float(lines[i][observed+10]), lines[i][4], maxMT):
             mf += 1
             lines[i][5] = nlloc_polarity_inv_dict[lines[i][4].upper()[0]][nlloc_polarity_dict[lines[i][5].lower()]].lower()
         else:
-- 
2.43.0


From df644fbc26f43bb9f1d9aceaabb9bcb54148443a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:19 +0000
Subject: [PATCH 52/63] fix: results with scale factors could not be written in
 the binary format

---
 src/MTfit/utilities/file_io.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/MTfit/utilities/file_io.py b/src/MTfit/utilities/file_io.py
index 75a49ea..7e332f3 100644
--- a/src/MTfit/utilities/file_io.py
+++ b/src/MTfit/utilities/file_io.py
@@ -603,10 +603,10 @@ def _convert_mt_space_to_struct(output_data, i=False):
     else:
         sf_output = ''
     if 'scale_factors' in output_data:
-        n_events = output_data['scale_factors']['mu'].shape[1]
+        n_events = output_data['scale_factors'][0]['mu'].shape[1] if len(output_data['scale_factors']) else 0
         sf_output = struct.pack('QQQ', output_data['total_number_samples'], len(output_data['scale_factors']), n_events)
         for i, sf in enumerate(output_data['scale_factors']):
-            sf_output += struct.pack('dd', output_data['probability'][0, i], output_data['ln_pdf'][0, i])
+            sf_output += struct.pack('dd', np.asarray(output_data['probability']).flatten()[i], np.asarray(output_data['ln_pdf']).flatten()[i])
             # Add data for each event - Loops over off diagonal elements
             k = 0
             _l = 1
-- 
2.43.0


From a6e9a90b7ffbdf77a939c0cb1eb620493a35759e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:19 +0000
Subject: [PATCH 53/63] fix: binary results were not written next to the hyp
 file that read_hyp_output looks for

---
 src/MTfit/utilities/file_io.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/MTfit/utilities/file_io.py b/src/MTfit/utilities/file_io.py
index 7e332f3..cbba115 100644
--- a/src/MTfit/utilities/file_io.py
+++ b/src/MTfit/utilities/file_io.py
@@ -1139,17 +1139,17 @@ def hyp_output(output_data, fid='MTfitOutput.hyp', pool=False, *args, **kwargs):
         pool.custom_task(HypOutputTask, fid, output, False)
         if mt_data and (sys.version_info[:2] >= (2, 7, 4) or len(mt_data)*128 < 2**30):
             pool.custom_task(
-                HypOutputTask, fid.replace('.hyp', '.mt'), mt_data, True)
+                HypOutputTask, os.path.splitext(fid)[0]+'.mt', mt_data, True)
         if sf_data and (sys.version_info[:2] >= (2, 7, 4) or len(sf_data)*128 < 2**30):
             pool.custom_task(
-                HypOutputTask, fid.replace('.hyp', '.sf'), sf_data, True)
+                HypOutputTask, os.path.splitext(fid)[0]+'.sf', sf_data, True)
 
     else:
         HypOutputTask(fid, output, False)()
         if mt_data:
-            HypOutputTask(fid.replace('.hyp', '.mt'), mt_data, True)()
+            HypOutputTask(os.path.splitext(fid)[0]+'.mt', mt_data, True)()
         if sf_data and len(sf_data):
-            HypOutputTask(fid.replace('.hyp', '.sf'), sf_data, True)()
+            HypOutputTask(os.path.splitext(fid)[0]+'.sf', sf_data, True)()
         output_string += 'Saved to '+fid+'\n'
     return output_string, fid
 
-- 
2.43.0


From e978c13d3e7b01b9081245d97e4020804133ce8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:33 +0000
Subject: [PATCH 54/63] fix: data files with a known extension could be loaded
 as pickle code

---
 src/MTfit/inversion.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/MTfit/inversion.py b/src/MTfit/inversion.py
index ba38123..8e731b3 100644
--- a/src/MTfit/inversion.py
+++ b/src/MTfit/inversion.py
@@ -1522,6 +1522,13 @@ class Inversion(object):
         Returns
             data: Loaded data from filename or False if exception thrown.
         """
+        # Parser plug-in extensions.
+        parser_names, parsers = get_extensions('MTfit.parsers', {'.csv': parse_csv, '.hyp': parse_hyp})
+        # Text can be valid pickle code, so files with a known extension are not tried as pickles first
+        try:
+            return parsers[os.path.splitext(filename)[1]](filename)
+        except Exception:
+            pass
         try:
             with open(filename, 'rb') as f:
                 data = pickle.load(f)
@@ -1531,8 +1538,6 @@ class Inversion(object):
                     data = pickle.load(f)
             except Exception:
                 data = False
-                # Parser plug-in extensions.
-                parser_names, parsers = get_extensions('MTfit.parsers', {'.csv': parse_csv, '.hyp': parse_hyp})
                 try:
                     try:
                         ext = os.path.splitext(filename)[1]
-- 
2.43.0


From 3449fd8e9abafaf19c55744dc83151ba474c7414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:11 +0000
Subject: [PATCH 55/63] fix: use dV in the compiled log-domain reductions and
 leave their input alone

---
 src/MTfit/probability/probability.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/MTfit/probability/probability.py b/src/MTfit/probability/probability.py
index 5211809..431cb72 100644
--- a/src/MTfit/probability/probability.py
+++ b/src/MTfit/probability/probability.py
@@ -868,9 +868,11 @@ def ln_marginalise(ln_pdf, axis=0, dV=1.0):
     """
     if cprobability and axis == 0:
         try:
-            if isinstance(ln_pdf, LnPDF):
-                return cprobability.ln_marginalise(ln_pdf._ln_pdf.astype(np.float64))
-            return cprobability.ln_marginalise(ln_pdf.astype(np.float64))
+            ln_p = ln_pdf._ln_pdf if isinstance(ln_pdf, LnPDF) else ln_pdf
+            marginalised = cprobability.ln_marginalise(ln_p.astype(np.float64))
+            if ln_p.shape[0] != 1:
+                marginalised = marginalised + np.log(dV)
+            return marginalised
         except Exception:
             logger.exception('Error running cython code')
     else:
@@ -923,11 +925,8 @@ def ln_normalise(ln_pdf, dV=1):
         try:
             if ln_pdf.ndim != 1 and ln_pdf.shape[0] != 1:
                 raise Exception('Incorrect shape')
-            if ln_pdf.ndim == 2:
-                normalised_ln_pdf = cprobability.ln_normalise(np.asarray(ln_pdf).flatten())
-            else:
-                normalised_ln_pdf = cprobability.ln_normalise(ln_pdf)
-            return normalised_ln_pdf
+            # Flattening copies, as the C code works in place
+            return cprobability.ln_normalise(np.asarray(ln_pdf).flatten(), dV)
         except Exception:
             logger.exception('Error running cython code')
     else:
-- 
2.43.0


From d33ebf3402c339a34788c2ad47301dff93d8acf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:11 +0000
Subject: [PATCH 56/63] fix: compiled exponential of a marginalised PDF
 returned no values

---
 src/MTfit/probability/cprobability.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MTfit/probability/cprobability.pyx b/src/MTfit/probability/cprobability.pyx
index c60ee86..0d223d6 100644
--- a/src/MTfit/probability/cprobability.pyx
+++ b/src/MTfit/probability/cprobability.pyx
@@ -1821,7 +1821,7 @@ cpdef ln_non_zero(DTYPE_t[:] ln_p):
 @cython.wraparound(False)
 @cython.nonecheck(False)
 cpdef ln_exp(DTYPE_t[::1] ln_p, DTYPE_t dV=1):
-    cdef Py_ssize_t wmax=ln_p.shape[1]
+    cdef Py_ssize_t wmax=ln_p.shape[0]
     cdef Py_ssize_t w
     cdef DTYPE_t[::1] p =np.empty(wmax)
     for w from 0<=w<wmax:
-- 
2.43.0


From 8d32cd7d229269934b700413f5723c6992b19c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:11 +0000
Subject: [PATCH 57/63] fix: orient the moment tensors before calling the
 compiled polarity likelihoods

---
 src/MTfit/probability/probability.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/MTfit/probability/probability.py b/src/MTfit/probability/probability.py
index 431cb72..4ecaa50 100644
--- a/src/MTfit/probability/probability.py
+++ b/src/MTfit/probability/probability.py
@@ -101,6 +101,9 @@ def polarity_ln_pdf(a, mt, sigma, incorrect_polarity_probability=0.0, _use_c=Non
         raise TypeError('Variable: a is expected to be a three-dimensional numpy array')
     if not isinstance(mt, np.ndarray) or mt.ndim != 2:
         raise TypeError('Variable: mt is expected to be a two-dimensional numpy array of moment tensor six vectors')
+    # Check moment tensor shape is correct
+    if mt.shape[0] != a.shape[-1]:
+        mt = mt.transpose()
     # For fractional uncertainties that are zero make them really small
     # to avoid zero divison errors
     sigma[sigma == 0] = _SMALL_NUMBER
@@ -143,9 +146,6 @@ def polarity_ln_pdf(a, mt, sigma, incorrect_polarity_probability=0.0, _use_c=Non
     else:
         logger.info(C_EXTENSION_FALLBACK_LOG_MSG)
     if not completed:
-        # Check moment tensor shape is correct
-        if mt.shape[0] != a.shape[-1]:
-            mt = mt.transpose()
         # Calcuate Theoretical Amplitude for moment tensors
         X = np.tensordot(a, mt, 1)
         # Expand errors and incorrect_polarity_probability dimensions to be
@@ -223,6 +223,9 @@ def polarity_probability_ln_pdf(a, mt, positive_probability, negative_probabilit
         raise TypeError('Variable: a is expected to be a three-dimensional numpy array')
     if not isinstance(mt, np.ndarray) or mt.ndim != 2:
         raise TypeError('Variable: mt is expected to be a two-dimensional numpy array of moment tensor six vectors')
+    # Check moment tensor shape is correct
+    if mt.shape[0] != a.shape[-1]:
+        mt = mt.transpose()
     completed = False
     if cprobability and (_use_c is None or _use_c):
         try:
@@ -261,8 +264,6 @@ def polarity_probability_ln_pdf(a, mt, positive_probability, negative_probabilit
     else:
         logger.info(C_EXTENSION_FALLBACK_LOG_MSG)
     if not completed:
-        if mt.shape[0] != a.shape[-1]:
-            mt = mt.transpose()
         # Calculate theoretical amplitude
         X = np.tensordot(a, mt, 1)
         # Expand errors and incorrect_polarity_probability dimensions to be
-- 
2.43.0


From 5bbb7d0450f707e34abccacfbe3b1dfeaa01dbbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:11 +0000
Subject: [PATCH 58/63] fix: compiled eigenvalues of an isotropic tensor read
 out of bounds

---
 src/MTfit/convert/cmoment_tensor_conversion.pyx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/MTfit/convert/cmoment_tensor_conversion.pyx b/src/MTfit/convert/cmoment_tensor_conversion.pyx
index a6bfe5c..e887a04 100644
--- a/src/MTfit/convert/cmoment_tensor_conversion.pyx
+++ b/src/MTfit/convert/cmoment_tensor_conversion.pyx
@@ -296,7 +296,8 @@ cdef cMT6_TNPE(DTYPE_t[:] MT):
         e,L=eigh(MT33,overwrite_a=True,check_finite=False)
     else:        
         e,L=eigh(MT33,overwrite_a=True)
-    maxi=0
+    # The middle one needs to be another one if all are equal
+    maxi=2
     mini=0
     cdef Py_ssize_t i
     for i in [0,1,2]:
-- 
2.43.0


From ea6eb1101be33a512f889a37560d6fd866dedb51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:59 +0000
Subject: [PATCH 59/63] fix: source type parameters from unsorted, row-wise or
 isotropic eigenvalues depended on the extension

---
 .../convert/cmoment_tensor_conversion.pyx     | 37 +++++++++++++++----
 src/MTfit/convert/moment_tensor_conversion.py | 13 ++++---
 2 files changed, 37 insertions(+), 13 deletions(-)

diff --git a/src/MTfit/convert/cmoment_tensor_conversion.pyx b/src/MTfit/convert/cmoment_tensor_conversion.pyx
index e887a04..7417767 100644
--- a/src/MTfit/convert/cmoment_tensor_conversion.pyx
+++ b/src/MTfit/convert/cmoment_tensor_conversion.pyx
@@ -87,16 +87,39 @@ cdef inline DTYPE_t[::1] ctk_uv(DTYPE_t[::1] results) nogil:
 @cython.nonecheck(False)
 @cython.cdivision(True)
 cdef inline void cE_gd(DTYPE_t[:] E,DTYPE_t*g,DTYPE_t*d) nogil:
-    if E[0]==E[2]:
-        if E[0]>0:
-            g[0]=0
+    # Sort the eigenvalues in descending order
+    cdef DTYPE_t e0=E[0]
+    cdef DTYPE_t e1=E[1]
+    cdef DTYPE_t e2=E[2]
+    cdef DTYPE_t x
+    if e0<e1:
+        x=e0
+        e0=e1
+        e1=x
+    if e1<e2:
+        x=e1
+        e1=e2
+        e2=x
+    if e0<e1:
+        x=e0
+        e0=e1
+        e1=x
+    if e0==e2:
+        g[0]=0
+        d[0]=0
+        if e0>0:
             d[0]=pi/2
-        elif E[0]<0:
-            g[0]=0
+        elif e0<0:
             d[0]=-pi/2
     else:
-        g[0]=atan2(-E[0]+2*E[1]-E[2],sqrt3*(E[0]-E[2]))
-        d[0]=pi/2-acos((E[0]+E[1]+E[2])/(sqrt3*sqrt((E[0]*E[0]+E[1]*E[1]+E[2]*E[2]))))
+        g[0]=atan2(-e0+2*e1-e2,sqrt3*(e0-e2))
+        # Rounding can make the cosine of a nearly isotropic source larger than 1
+        x=(e0+e1+e2)/(sqrt3*sqrt((e0*e0+e1*e1+e2*e2)))
+        if x>1:
+            x=1
+        elif x<-1:
+            x=-1
+        d[0]=pi/2-acos(x)
 @cython.boundscheck(False)
 @cython.wraparound(False)
 @cython.nonecheck(False)
diff --git a/src/MTfit/convert/moment_tensor_conversion.py b/src/MTfit/convert/moment_tensor_conversion.py
index 20753a5..5260d10 100644
--- a/src/MTfit/convert/moment_tensor_conversion.py
+++ b/src/MTfit/convert/moment_tensor_conversion.py
@@ -325,13 +325,13 @@ def E_GD(E):
         (numpy.array, numpy.array): tuple of gamma, delta
 
     """
+    # Expect E to be an array of arrays
+    if E.ndim < 2:
+        E = np.array([E])
+    if E.shape[1] == 3 and E.shape != (3, 3):
+        E = E.T
     if cmoment_tensor_conversion:
         try:
-            # Expect E to be an array of arrays
-            if E.ndim < 2:
-                E = np.array([E])
-            if E.shape[1] == 3 and E.shape != (3, 3):
-                E = E.T
             return cmoment_tensor_conversion.E_GD(E.astype(np.float64))
         except Exception:
             logger.exception('Error with C extension')
@@ -350,7 +350,8 @@ def E_GD(E):
         idx = E.argsort()[::-1]
         E = E[idx]
         gamma = np.arctan2(-E[0]+2*E[1]-E[2], np.sqrt(3)*(E[0]-E[2]))
-        beta = np.arccos(np.sum(E)/(np.sqrt(3)*np.sqrt(np.sum(E*E))))
+        # Rounding can make the cosine of a nearly isotropic source larger than 1
+        beta = np.arccos(np.clip(np.sum(E)/(np.sqrt(3)*np.sqrt(np.sum(E*E))), -1, 1))
         delta = np.real(np.pi/2-beta)
     return gamma, delta
 
-- 
2.43.0


From 87e882605316fff628813c025ce773850994e1f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:59 +0000
Subject: [PATCH 60/63] fix: principal axes of degenerate tensors were not
 orthogonal without the extension

---
 src/MTfit/convert/moment_tensor_conversion.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/MTfit/convert/moment_tensor_conversion.py b/src/MTfit/convert/moment_tensor_conversion.py
index 5260d10..ff257db 100644
--- a/src/MTfit/convert/moment_tensor_conversion.py
+++ b/src/MTfit/convert/moment_tensor_conversion.py
@@ -18,6 +18,7 @@ The coordinate system is North (X), East (Y), Down (Z)
 import logging
 
 import numpy as np
+from scipy.linalg import eigh
 from scipy.optimize import fsolve
 
 from ..utilities import C_EXTENSION_FALLBACK_LOG_MSG
@@ -178,10 +179,12 @@ def MT33_TNPE(MT33):
         (numpy.matrix, numpy.matrix, numpy.matrix, numpy.array): tuple of T, N, P
                         vectors and Eigenvalue array
     """
-    E, L = np.linalg.eig(MT33)
-    idx = E.argsort()[::-1]
-    E = E[idx]
-    L = L[:, idx]
+    # The tensor is symmetric, so there is an orthogonal set of eigenvectors (sorted by ascending eigenvalue)
+    E, L = eigh(MT33)
+    E = E[::-1]
+    L = L[:, ::-1]
+    if isinstance(MT33, np.matrix):
+        L = np.matrix(L)
     T = L[:, 0]
     P = L[:, 2]
     N = L[:, 1]
-- 
2.43.0


From 4e9ed9cef3317f20c191af4b069dbd28c1296bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:59 +0000
Subject: [PATCH 61/63] fix: auxiliary plane without the extension could be the
 input plane

---
 src/MTfit/convert/moment_tensor_conversion.py | 15 ++-------------
 1 file changed, 2 insertions(+), 13 deletions(-)

diff --git a/src/MTfit/convert/moment_tensor_conversion.py b/src/MTfit/convert/moment_tensor_conversion.py
index ff257db..3316142 100644
--- a/src/MTfit/convert/moment_tensor_conversion.py
+++ b/src/MTfit/convert/moment_tensor_conversion.py
@@ -577,19 +577,8 @@ def SDR_SDR(strike, dip, rake):
         logger.info(C_EXTENSION_FALLBACK_LOG_MSG)
     # Handle multiple inputs
     N1, N2 = SDR_FP(strike, dip, rake)
-    s1, d1, r1 = FP_SDR(N1, N2)
-    s2, d2, r2 = FP_SDR(N2, N1)
-    # This should be ok to return s2,d2,r2 but doesn't seem to work
-    try:
-        r2[np.abs(strike-s2) < 1] = r1[np.abs(strike-s2) < 1]
-        d2[np.abs(strike-s2) < 1] = d1[np.abs(strike-s2) < 1]
-        s2[np.abs(strike-s2) < 1] = s1[np.abs(strike-s2) < 1]
-        return s2, d2, r2
-    except Exception:
-        if np.abs(strike-s1) < 1:
-            return (s2, d2, r2)
-        else:
-            return (s1, d1, r1)
+    # N2 is the normal of the input plane, and N1 the normal of the other one
+    return FP_SDR(N1, N2)
 
 
 def FP_TNP(normal, slip):
-- 
2.43.0


From 86d93e6f846254128e2edc845c081d9e0af3be52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:59 +0000
Subject: [PATCH 62/63] fix: row-wise axes and tensors were converted
 differently with and without the extension

---
 src/MTfit/convert/moment_tensor_conversion.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/MTfit/convert/moment_tensor_conversion.py b/src/MTfit/convert/moment_tensor_conversion.py
index 3316142..91273d8 100644
--- a/src/MTfit/convert/moment_tensor_conversion.py
+++ b/src/MTfit/convert/moment_tensor_conversion.py
@@ -99,14 +99,14 @@ def MT6_TNPE(MT6):
         (numpy.matrix, numpy.matrix, numpy.matrix, numpy.array): tuple of T, N, P
                         vectors and Eigenvalue array
     """
+    if not isinstance(MT6, np.ndarray):
+        MT6 = np.array(MT6)
+    if MT6.ndim < 2:
+        MT6 = np.array([MT6])
+    if MT6.shape[1] == 6 and MT6.shape[0] != 6:
+        MT6 = MT6.T
     if cmoment_tensor_conversion:
         try:
-                if not isinstance(MT6, np.ndarray):
-                    MT6 = np.array(MT6)
-                if MT6.ndim < 2:
-                    MT6 = np.array([MT6])
-                if MT6.shape[1] == 6 and MT6.shape[0] != 6:
-                    MT6 = MT6.T
                 return cmoment_tensor_conversion.MT6_TNPE(MT6.astype(np.float64))
         except Exception:
             logger.exception('Error with C extension')
@@ -394,6 +394,10 @@ def TNP_SDR(T, N, P):
     """
     if cmoment_tensor_conversion:
         try:
+            if T.ndim == 2 and T.shape[0] != 3:
+                T = T.T
+            if P.ndim == 2 and P.shape[0] != 3:
+                P = P.T
             return cmoment_tensor_conversion.TP_SDR(T.astype(np.float64), P.astype(np.float64))
         except Exception:
             logger.exception('Error with C extension')
-- 
2.43.0


From b842c0e699bb10b9989ff33e7cb8e9448f1cf5bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:30 +0000
Subject: [PATCH 63/63] fix: binning of the station coefficient samples

The caller passed the extension data as the tolerance, the extension needed
integer weights and counted the weight of the first sample twice, the Python
code used undefined variables, and zero tolerance returned unbound weights.
---
 src/MTfit/inversion.py                 | 13 +++--
 src/MTfit/probability/cprobability.pyx | 73 ++++++++++----------------
 2 files changed, 37 insertions(+), 49 deletions(-)

diff --git a/src/MTfit/inversion.py b/src/MTfit/inversion.py
index 8e731b3..6242bd1 100644
--- a/src/MTfit/inversion.py
+++ b/src/MTfit/inversion.py
@@ -2107,7 +2107,7 @@ class Inversion(object):
         if self.bin_angle_coefficient_samples > 0 and location_samples:
             (a_polarity, a1_amplitude_ratio, a2_amplitude_ratio, a_polarity_probability, extension_data,
              self.location_sample_multipliers) = bin_angle_coefficient_samples(a_polarity, a1_amplitude_ratio, a2_amplitude_ratio, a_polarity_probability, self.location_sample_multipliers,
-                                                                               self.bin_angle_coefficient_samples, extension_data)
+                                                                               extension_data, self.bin_angle_coefficient_samples)
         if isinstance(a_polarity, bool):
             incorrect_polarity_probability = incorrect_polarity_probability_2
         return (a_polarity, error_polarity, a1_amplitude_ratio, a2_amplitude_ratio, amplitude_ratio, percentage_error1_amplitude_ratio, percentage_error2_amplitude_ratio,
@@ -3704,6 +3704,7 @@ def bin_angle_coefficient_samples(a_polarity, a1_amplitude_ratio, a2_amplitude_r
         a_polarity,a1_amplitude_ratio,a2_amplitude_ratio,a_polarity_prob,multipliers
         np.arrays of station coefficents for each data type and the location sample multipliers.
     """
+    multipliers = location_sample_multipliers
     if epsilon > 0:
         import time
         if cprobability:
@@ -3720,19 +3721,21 @@ def bin_angle_coefficient_samples(a_polarity, a1_amplitude_ratio, a2_amplitude_r
             multipliers = []
             no_pop = np.ones((len(location_sample_multipliers),), dtype=bool)
             for i in range(len(location_sample_multipliers)):
+                if not no_pop[i]:
+                    continue
                 multiplier = location_sample_multipliers[i]
-                for j in range(i, len(location_sample_multipliers)):
+                for j in range(i+1, len(location_sample_multipliers)):
                     if no_pop[j]:
                         diff_polarity = 0
                         if not isinstance(a_polarity, bool):
                             diff_polarity = a_polarity[:, i, :]-a_polarity[:, j, :]
-                        diff_polarity = 0
+                        diff_a1_amplitude_ratio = 0
                         if not isinstance(a1_amplitude_ratio, bool):
                             diff_a1_amplitude_ratio = a1_amplitude_ratio[:, i, :]-a1_amplitude_ratio[:, j, :]
-                        diff_polarity = 0
+                        diff_a2_amplitude_ratio = 0
                         if not isinstance(a2_amplitude_ratio, bool):
                             diff_a2_amplitude_ratio = a2_amplitude_ratio[:, i, :]-a2_amplitude_ratio[:, j, :]
-                        diff_polarity = 0
+                        diff_polarity_prob = 0
                         if not isinstance(a_polarity_prob, bool):
                             diff_polarity_prob = a_polarity_prob[:, i, :]-a_polarity_prob[:, j, :]
                         if np.max([np.max(np.abs(diff_polarity)), np.max(np.abs(diff_a1_amplitude_ratio)), np.max(np.abs(diff_a2_amplitude_ratio)), np.max(np.abs(diff_polarity_prob))]) < epsilon:
diff --git a/src/MTfit/probability/cprobability.pyx b/src/MTfit/probability/cprobability.pyx
index 0d223d6..d1d7270 100644
--- a/src/MTfit/probability/cprobability.pyx
+++ b/src/MTfit/probability/cprobability.pyx
@@ -1983,53 +1983,39 @@ cpdef random_dc(int x):
 @cython.nonecheck(False)
 @cython.cdivision(True)
 cdef DTYPE_t[::1] get_angle_coeff_multipliers(DTYPE_t[:,:,::1] a_polarity,DTYPE_t[:,:,::1] a1_amplitude_ratio,DTYPE_t[:,:,::1] a2_amplitude_ratio,DTYPE_t[:,:,::1] a_polarity_prob,DTYPE_t[::1] multipliers,DTYPE_t epsilon) nogil:
-    cdef Py_ssize_t nsamples
-    cdef Py_ssize_t nsta
-    cdef Py_ssize_t kmax
-    cdef int polarity=0
-    cdef int amplitude_ratio=0
-    cdef int polarity_prob=0
-    if a_polarity.shape[0]>0:
-        nsta=a_polarity.shape[0]
-        nsamples=a_polarity.shape[1]
-        kmax=a_polarity.shape[2]
-        pol=1
-    if a1_amplitude_ratio.shape[0]>0:
-        if pol==0:
-            nsta=a1_amplitude_ratio.shape[0]
-            nsamples=a1_amplitude_ratio.shape[1]
-            kmax=a1_amplitude_ratio.shape[2]
-        amplitude_ratio=1
-    if a_polarity_prob.shape[0]>0:
-        if pol==0:
-            if amplitude_ratio==0:
-                nsta=a_polarity_prob.shape[0]
-                nsamples=a_polarity_prob.shape[1]
-                kmax=a_polarity_prob.shape[2]
-        polarity_prob=1
+    cdef Py_ssize_t nsamples=multipliers.shape[0]
     cdef Py_ssize_t u
+    cdef Py_ssize_t v
     cdef Py_ssize_t w
+    cdef Py_ssize_t k
     cdef int ok=1
+    # The data types can have different numbers of stations, merged samples are marked with -1
     for u in range(nsamples):
         if multipliers[u]==-1:
             continue
-        for v in range(u,nsamples):  
+        for v in range(u+1,nsamples):
             if multipliers[v]>-1:
                 ok=1
-                for w in range(nsta):
-                    for k in range(kmax):
-                        if pol>0:
-                            ok*=(fabs(a_polarity[w,u,k]-a_polarity[w,v,k])<epsilon)
-                        if polarity_prob>0:
-                            ok*=(fabs(a_polarity_prob[w,u,k]-a_polarity_prob[w,v,k])<epsilon)
-                        if amplitude_ratio>0:
-                            ok*=(fabs(a1_amplitude_ratio[w,u,k]-a1_amplitude_ratio[w,v,k])<epsilon)*(fabs(a2_amplitude_ratio[w,u,k]-a2_amplitude_ratio[w,v,k])<epsilon)
+                for w in range(a_polarity.shape[0]):
+                    for k in range(a_polarity.shape[2]):
+                        ok*=(fabs(a_polarity[w,u,k]-a_polarity[w,v,k])<epsilon)
                     if ok==0:
                         break
-                if w==nsta-1 and ok>0:
+                if ok>0:
+                    for w in range(a1_amplitude_ratio.shape[0]):
+                        for k in range(a1_amplitude_ratio.shape[2]):
+                            ok*=(fabs(a1_amplitude_ratio[w,u,k]-a1_amplitude_ratio[w,v,k])<epsilon)*(fabs(a2_amplitude_ratio[w,u,k]-a2_amplitude_ratio[w,v,k])<epsilon)
+                        if ok==0:
+                            break
+                if ok>0:
+                    for w in range(a_polarity_prob.shape[0]):
+                        for k in range(a_polarity_prob.shape[2]):
+                            ok*=(fabs(a_polarity_prob[w,u,k]-a_polarity_prob[w,v,k])<epsilon)
+                        if ok==0:
+                            break
+                if ok>0:
                     multipliers[u]+=multipliers[v]
-                    if v>u:
-                        multipliers[v]=-1
+                    multipliers[v]=-1
     return multipliers
 
 @cython.boundscheck(False)
@@ -2037,7 +2023,6 @@ cdef DTYPE_t[::1] get_angle_coeff_multipliers(DTYPE_t[:,:,::1] a_polarity,DTYPE_
 @cython.nonecheck(False)
 @cython.cdivision(True)
 cpdef bin_angle_coefficient_samples(a_polarity,a1_amplitude_ratio,a2_amplitude_ratio,a_polarity_prob,location_sample_multipliers,ext_data,epsilon):
-    cdef DTYPE_t[::1] multipliers=np.array(location_sample_multipliers)
     new_records=[]
     new_multipliers=[]
     polarity=False
@@ -2057,29 +2042,29 @@ cpdef bin_angle_coefficient_samples(a_polarity,a1_amplitude_ratio,a2_amplitude_r
     else:
         a_polarity_prob=np.empty((0,0,0))
     # print multipliers,bin_size,angles
-    multipliers=np.asarray(get_angle_coeff_multipliers(a_polarity,a1_amplitude_ratio,a2_amplitude_ratio,a_polarity_prob,np.array(location_sample_multipliers,dtype=np.longlong),epsilon)).flatten()
+    multipliers=np.asarray(get_angle_coeff_multipliers(np.ascontiguousarray(a_polarity),np.ascontiguousarray(a1_amplitude_ratio),np.ascontiguousarray(a2_amplitude_ratio),np.ascontiguousarray(a_polarity_prob),np.array(location_sample_multipliers,dtype=np.float64),epsilon)).flatten()
     cdef Py_ssize_t i
     for i,record in enumerate(multipliers):
-        if multipliers[i]>0:
+        if multipliers[i]>-1:
             new_multipliers.append(multipliers[i])
     if polarity:
-        a_polarity=np.ascontiguousarray(a_polarity[:,np.asarray(multipliers)>0,:])
+        a_polarity=np.ascontiguousarray(a_polarity[:,np.asarray(multipliers)>-1,:])
     else:
         a_polarity=False
     if amplitude_ratio:
-        a1_amplitude_ratio=np.ascontiguousarray(a1_amplitude_ratio[:,np.asarray(multipliers)>0,:])
-        a2_amplitude_ratio=np.ascontiguousarray(a2_amplitude_ratio[:,np.asarray(multipliers)>0,:])
+        a1_amplitude_ratio=np.ascontiguousarray(a1_amplitude_ratio[:,np.asarray(multipliers)>-1,:])
+        a2_amplitude_ratio=np.ascontiguousarray(a2_amplitude_ratio[:,np.asarray(multipliers)>-1,:])
     else:
         a1_amplitude_ratio=False
         a2_amplitude_ratio=False
     if  polarity_prob:
-        a_polarity_prob=np.ascontiguousarray(a_polarity_prob[:,np.asarray(multipliers)>0,:])
+        a_polarity_prob=np.ascontiguousarray(a_polarity_prob[:,np.asarray(multipliers)>-1,:])
     else:
         a_polarity_prob=False
     for key in ext_data.keys():
         for k in ext_data[key].keys():
             if k[:2]=='a_' or k[0]=='a' and k[2]=='_':
-                ext_data[key][k]=np.ascontiguousarray(ext_data[key][k][:,np.asarray(multipliers)>0,:])
+                ext_data[key][k]=np.ascontiguousarray(ext_data[key][k][:,np.asarray(multipliers)>-1,:])
     return a_polarity,a1_amplitude_ratio,a2_amplitude_ratio,a_polarity_prob,ext_data,new_multipliers
 
 @cython.boundscheck(False)
-- 
2.43.0

