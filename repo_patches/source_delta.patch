From 93e72fd62d91689528a8a4ec28d39839867c5236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:05 +0000
Subject: [PATCH 01/42] fix: compare iteration numbers by value in
 ParConvBPDN.solve

The test for the first and last iteration of a solve call compared integers
by identity, which fails for iteration numbers above 256: a run resumed at
iteration 257 skipped its initial step and gave a different solution.
---
 sporco/admm/parcbpdn.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sporco/admm/parcbpdn.py b/sporco/admm/parcbpdn.py
index f8ff768..de96040 100644
--- a/sporco/admm/parcbpdn.py
+++ b/sporco/admm/parcbpdn.py
@@ -771,10 +771,10 @@ class ParConvBPDN(GenericConvBPDN):
             mp_Y1old[:] = np.copy(mp_Y1)
 
             # Perform the variable updates.
-            if self.k is first_iteration:
+            if self.k == first_iteration:
                 self.distribute(par_initial_stepgrp, mp_ngrp)
             y0astep()
-            if self.k is last_iteration:
+            if self.k == last_iteration:
                 self.distribute(par_final_stepgrp, mp_ngrp)
             else:
                 self.distribute(par_stepgrp, mp_ngrp)
-- 
2.43.0


From 4fae34949fafb3a39e57013e74bb194ad1061081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:05 +0000
Subject: [PATCH 02/42] fix: use channel axis rather than channel count in
 ParConvBPDN x step

With a multi-channel dictionary the inner product was taken over the axis
numbered as the number of channels, which is only right for three channels
and two spatial dimensions.
---
 sporco/admm/parcbpdn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sporco/admm/parcbpdn.py b/sporco/admm/parcbpdn.py
index de96040..9346faa 100644
--- a/sporco/admm/parcbpdn.py
+++ b/sporco/admm/parcbpdn.py
@@ -151,7 +151,7 @@ def par_xstep(i):
                             mp_cache[i], axis=mp_axisM)
     else:
         b = sl.inner(np.conj(mp_Df[mp_grp[i]:mp_grp[i+1]]), YU0f,
-                     axis=mp_C) + mp_alpha**2*YU1f
+                     axis=mp_axisC) + mp_alpha**2*YU1f
         Xf = sl.solvemdbi_ism(mp_Df[mp_grp[i]:mp_grp[i+1]], mp_alpha**2, b,
                               mp_axisM, mp_axisC)
     mp_X[mp_grp[i]:mp_grp[i+1]] = irfftn(Xf, mp_Nv,
-- 
2.43.0


From bb54c80d9c28dcc90d6886bfbea2bc7008537084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:45 +0000
Subject: [PATCH 03/42] fix: shut down the worker pool of ParConvBPDN.solve
 when an exception is raised

---
 sporco/admm/parcbpdn.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/sporco/admm/parcbpdn.py b/sporco/admm/parcbpdn.py
index 9346faa..c79ba53 100644
--- a/sporco/admm/parcbpdn.py
+++ b/sporco/admm/parcbpdn.py
@@ -753,11 +753,22 @@ class ParConvBPDN(GenericConvBPDN):
           to compute residuals and implemented ``AutoRho`` mechanism
         """
 
+        self.init_pool()
+        try:
+            return self._solve()
+        finally:
+            # Also required if the iterations are terminated by an
+            # exception
+            self.terminate_pool()
+
+
+
+    def _solve(self):
+        """Main optimisation iterations of :meth:`solve`."""
+
         global mp_Y0old
         global mp_Y1old
 
-        self.init_pool()
-
         fmtstr, nsep = self.display_start()
 
         # Start solve timer
@@ -830,8 +841,6 @@ class ParConvBPDN(GenericConvBPDN):
         self.Y = np.moveaxis(mp_Y1, mp_axisM, self.cri.axisM)
         self.X = np.moveaxis(mp_X, mp_axisM, self.cri.axisM)
 
-        self.terminate_pool()
-
         return self.getmin()
 
 
-- 
2.43.0


From 407630cca98bd3dd661c8de40665a4dbf12176d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:45 +0000
Subject: [PATCH 04/42] fix: shut down the worker pool of the consensus
 dictionary learning solvers when an exception is raised

---
 sporco/dictlrn/prlcnscdl.py | 34 ++++++++++++++++++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/sporco/dictlrn/prlcnscdl.py b/sporco/dictlrn/prlcnscdl.py
index 913beee..0af861c 100644
--- a/sporco/dictlrn/prlcnscdl.py
+++ b/sporco/dictlrn/prlcnscdl.py
@@ -398,6 +398,7 @@ class ConvBPDNDictLearn_Consensus(cbpdndl.ConvBPDNDictLearn):
             self.nproc = min(mp.cpu_count(), S.shape[-1])
         else:
             self.nproc = nproc
+        self.pool = None
 
         # Set flag indicating whether problem involves real or complex
         # values, and get appropriate versions of functions from fft
@@ -536,6 +537,21 @@ class ConvBPDNDictLearn_Consensus(cbpdndl.ConvBPDNDictLearn):
           value and related iteration statistics
         """
 
+        try:
+            return self._solve()
+        finally:
+            # Make sure that no worker processes are left running if
+            # the iterations were terminated by an exception
+            if self.pool is not None:
+                self.pool.terminate()
+                self.pool.join()
+                self.pool = None
+
+
+
+    def _solve(self):
+        """Main optimisation iterations of :meth:`solve`."""
+
         # Construct tuple of status display column titles and set status
         # display strings
         hdrtxt = ['Itn', 'Fnc', 'DFid', u('Regℓ1')]
@@ -583,6 +599,7 @@ class ConvBPDNDictLearn_Consensus(cbpdndl.ConvBPDNDictLearn):
         if self.nproc > 0:
             self.pool.close()
             self.pool.join()
+            self.pool = None
 
         # Increment iteration count
         self.j += 1
@@ -953,6 +970,7 @@ class ConvBPDNMaskDcplDictLearn_Consensus(cbpdndlmd.ConvBPDNMaskDictLearn):
             self.nproc = min(mp.cpu_count(), S.shape[-1])
         else:
             self.nproc = nproc
+        self.pool = None
 
         # Set flag indicating whether problem involves real or complex
         # values, and get appropriate versions of functions from fft
@@ -1102,6 +1120,21 @@ class ConvBPDNMaskDcplDictLearn_Consensus(cbpdndlmd.ConvBPDNMaskDictLearn):
           value and related iteration statistics
         """
 
+        try:
+            return self._solve()
+        finally:
+            # Make sure that no worker processes are left running if
+            # the iterations were terminated by an exception
+            if self.pool is not None:
+                self.pool.terminate()
+                self.pool.join()
+                self.pool = None
+
+
+
+    def _solve(self):
+        """Main optimisation iterations of :meth:`solve`."""
+
         # Construct tuple of status display column titles and set status
         # display strings
         hdrtxt = ['Itn', 'Fnc', 'DFid', u('Regℓ1')]
@@ -1149,6 +1182,7 @@ class ConvBPDNMaskDcplDictLearn_Consensus(cbpdndlmd.ConvBPDNMaskDictLearn):
         if self.nproc > 0:
             self.pool.close()
             self.pool.join()
+            self.pool = None
 
         # Increment iteration count
         self.j += 1
-- 
2.43.0


From eeaf9370e85aa17d87ac1a4b9cbea129fc9a0490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:45 +0000
Subject: [PATCH 05/42] fix: shut down the worker pool of grid_search when an
 exception is raised

---
 sporco/util.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/sporco/util.py b/sporco/util.py
index be39ecd..055cfed 100644
--- a/sporco/util.py
+++ b/sporco/util.py
@@ -148,9 +148,11 @@ def grid_search(fn, grd, fmin=True, nproc=None):
         if nproc is None:
             nproc = mp.cpu_count()
         pool = mp.Pool(processes=nproc)
-        fval = pool.map(fn, fprm)
-        pool.close()
-        pool.join()
+        try:
+            fval = pool.map(fn, fprm)
+        finally:
+            pool.terminate()
+            pool.join()
     if isinstance(fval[0], (tuple, list, np.ndarray)):
         nfnv = len(fval[0])
         fvmx = np.reshape(fval, [a.size for a in grd] + [nfnv,])
-- 
2.43.0


From 92aa6a76186e1f9f33aae29ea24848cfa8cf67c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:18 +0000
Subject: [PATCH 06/42] fix: do not advance the iteration number in a solve
 call that performs no iterations

---
 sporco/admm/admm.py         | 3 ++-
 sporco/admm/parcbpdn.py     | 3 ++-
 sporco/dictlrn/dictlrn.py   | 3 ++-
 sporco/dictlrn/prlcnscdl.py | 6 ++++--
 sporco/pgm/pgm.py           | 3 ++-
 5 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/sporco/admm/admm.py b/sporco/admm/admm.py
index babe48c..d8fb17d 100644
--- a/sporco/admm/admm.py
+++ b/sporco/admm/admm.py
@@ -378,7 +378,8 @@ class ADMM(common.IterativeSolver):
 
 
         # Increment iteration count
-        self.k += 1
+        if self.opt['MaxMainIter'] > 0:
+            self.k += 1
 
         # Record solve time
         self.timer.stop(['solve', 'solve_wo_func', 'solve_wo_rsdl'])
diff --git a/sporco/admm/parcbpdn.py b/sporco/admm/parcbpdn.py
index c79ba53..9daf3ed 100644
--- a/sporco/admm/parcbpdn.py
+++ b/sporco/admm/parcbpdn.py
@@ -830,7 +830,8 @@ class ParConvBPDN(GenericConvBPDN):
                     break
 
         # Increment iteration count
-        self.k += 1
+        if self.opt['MaxMainIter'] > 0:
+            self.k += 1
 
         # Record solve time
         self.timer.stop(['solve', 'solve_wo_func', 'solve_wo_rsdl'])
diff --git a/sporco/dictlrn/dictlrn.py b/sporco/dictlrn/dictlrn.py
index 6f27a3a..670d1df 100644
--- a/sporco/dictlrn/dictlrn.py
+++ b/sporco/dictlrn/dictlrn.py
@@ -362,7 +362,8 @@ class DictLearn(with_metaclass(_DictLearn_Meta, object)):
 
 
         # Increment iteration count
-        self.j += 1
+        if self.opt['MaxMainIter'] > 0:
+            self.j += 1
 
         # Record solve time
         self.timer.stop(['solve', 'solve_wo_eval'])
diff --git a/sporco/dictlrn/prlcnscdl.py b/sporco/dictlrn/prlcnscdl.py
index 0af861c..531bd52 100644
--- a/sporco/dictlrn/prlcnscdl.py
+++ b/sporco/dictlrn/prlcnscdl.py
@@ -602,7 +602,8 @@ class ConvBPDNDictLearn_Consensus(cbpdndl.ConvBPDNDictLearn):
             self.pool = None
 
         # Increment iteration count
-        self.j += 1
+        if self.opt['MaxMainIter'] > 0:
+            self.j += 1
 
         # Record solve time
         self.timer.stop(['solve', 'solve_wo_eval'])
@@ -1185,7 +1186,8 @@ class ConvBPDNMaskDcplDictLearn_Consensus(cbpdndlmd.ConvBPDNMaskDictLearn):
             self.pool = None
 
         # Increment iteration count
-        self.j += 1
+        if self.opt['MaxMainIter'] > 0:
+            self.j += 1
 
         # Record solve time
         self.timer.stop(['solve', 'solve_wo_eval'])
diff --git a/sporco/pgm/pgm.py b/sporco/pgm/pgm.py
index 0f25ea5..220231b 100644
--- a/sporco/pgm/pgm.py
+++ b/sporco/pgm/pgm.py
@@ -370,7 +370,8 @@ class PGM(IterativeSolver):
                     break
 
         # Increment iteration count
-        self.k += 1
+        if self.opt['MaxMainIter'] > 0:
+            self.k += 1
 
         # Record solve time
         self.timer.stop(['solve', 'solve_wo_func', 'solve_wo_rsdl',
-- 
2.43.0


From d27ad9e3fd4904d13b32d7cf826e82c7db5732f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:10:24 +0000
Subject: [PATCH 07/42] fix: define FFT wrapper functions at module level so
 that complex-valued solvers can be pickled

---
 sporco/fft.py | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/sporco/fft.py b/sporco/fft.py
index ab1ed28..23633f7 100644
--- a/sporco/fft.py
+++ b/sporco/fft.py
@@ -507,9 +507,17 @@ def empty_aligned_func(real=False):
     if real:
         return rfftn_empty_aligned
     else:
-        def empty_aligned_wrapper(shape, axes, dtype, order='C', n=None):
-            return empty_aligned(shape, dtype, order=order, n=n)
-        return empty_aligned_wrapper
+        return _empty_aligned_wrapper
+
+
+
+def _empty_aligned_wrapper(shape, axes, dtype, order='C', n=None):
+    """Wrapper for :func:`empty_aligned` with the same signature as
+    :func:`rfftn_empty_aligned`. Defined at module level so that objects
+    with a reference to it can be pickled.
+    """
+
+    return empty_aligned(shape, dtype, order=order, n=n)
 
 
 
@@ -583,9 +591,17 @@ def fl2norm2_func(real=False):
     if real:
         return rfl2norm2
     else:
-        def fl2norm2_wrapper(xf, xs, axis=(0, 1)):
-            return fl2norm2(xf, axis=axis)
-        return fl2norm2_wrapper
+        return _fl2norm2_wrapper
+
+
+
+def _fl2norm2_wrapper(xf, xs, axis=(0, 1)):
+    """Wrapper for :func:`fl2norm2` with the same signature as
+    :func:`rfl2norm2`. Defined at module level so that objects with a
+    reference to it can be pickled.
+    """
+
+    return fl2norm2(xf, axis=axis)
 
 
 
-- 
2.43.0


From 7ff59290729c64e44f7ddbdca48e4115dbe5ced4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:10:24 +0000
Subject: [PATCH 08/42] fix: define constraint projection functions at module
 level so that constrained MOD solvers can be pickled

---
 sporco/admm/cmod.py |  9 ++++++++-
 sporco/pgm/cmod.py  | 18 ++++++++++++++++--
 2 files changed, 24 insertions(+), 3 deletions(-)

diff --git a/sporco/admm/cmod.py b/sporco/admm/cmod.py
index 7c35907..f01604f 100644
--- a/sporco/admm/cmod.py
+++ b/sporco/admm/cmod.py
@@ -299,12 +299,19 @@ def getPcn(zm):
     """
 
     if zm:
-        return lambda x: normalise(zeromean(x))
+        return _normalise_zeromean
     else:
         return normalise
 
 
 
+def _normalise_zeromean(x):
+    """Subtract column means and normalise columns."""
+
+    return normalise(zeromean(x))
+
+
+
 def zeromean(v):
     """Subtract mean of each column of matrix.
 
diff --git a/sporco/pgm/cmod.py b/sporco/pgm/cmod.py
index db89512..4dbda8a 100644
--- a/sporco/pgm/cmod.py
+++ b/sporco/pgm/cmod.py
@@ -361,15 +361,29 @@ def getPcn(zm, nnc):
         if nnc:
             raise ValueError('Parameters zm and nnc may not both be True')
         else:
-            return lambda x: normalise(zeromean(x))
+            return _normalise_zeromean
     else:
         if nnc:
-            return lambda x: normalise(np.clip(x, 0, None))
+            return _normalise_nonneg
         else:
             return normalise
 
 
 
+def _normalise_zeromean(x):
+    """Subtract column means and normalise columns."""
+
+    return normalise(zeromean(x))
+
+
+
+def _normalise_nonneg(x):
+    """Clip to non-negative values and normalise columns."""
+
+    return normalise(np.clip(x, 0, None))
+
+
+
 def zeromean(v):
     """Subtract mean of each column of matrix.
 
-- 
2.43.0


From c4a319658b4423655356c9412f7fc931c456c43c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:10:24 +0000
Subject: [PATCH 09/42] fix: make iteration statistics and dynamically defined
 classes picklable

Solver objects that have performed an iteration could not be pickled, and
objects of dynamically defined classes could not be unpickled in a new process.
---
 sporco/common.py          | 69 +++++++++++++++++++++++++++++++++++++--
 sporco/dictlrn/dictlrn.py | 22 +++++++++++--
 2 files changed, 87 insertions(+), 4 deletions(-)

diff --git a/sporco/common.py b/sporco/common.py
index f57723f..595cc8c 100644
--- a/sporco/common.py
+++ b/sporco/common.py
@@ -13,6 +13,7 @@ from builtins import object
 
 import sys
 import re
+import importlib
 import collections
 import numpy as np
 
@@ -80,6 +81,71 @@ def _fix_dynamic_class_lookup(cls, pstfx):
         cls.__qualname__ = extnm
     else:
         cls.__name__ = extnm
+    # Ensure that objects of this class can be unpickled in a process in
+    # which the class has not yet been defined, and that they can still
+    # be pickled when an equivalent class is subsequently defined
+    cls._dynamic_spec = (cls.__module__, cls.__name__, cls.__bases__[0],
+                         pstfx)
+    cls.__reduce_ex__ = _reduce_dynamic
+
+
+
+def _reduce_dynamic(obj, protocol):
+    """Implementation of `__reduce_ex__` for dynamically defined classes."""
+
+    rdc = super(type(obj), obj).__reduce_ex__(max(2, protocol))
+    return (_new_dynamic, type(obj)._dynamic_spec) + tuple(rdc[2:])
+
+
+
+def _new_dynamic(mdlnm, clsnm, base, pstfx):
+    """Create an uninitialised object of a dynamically defined class,
+    defining the class if necessary.
+    """
+
+    mdl = importlib.import_module(mdlnm)
+    extnm = '_' + clsnm + '_' + pstfx
+    if not hasattr(mdl, extnm):
+        cls = type(base)(clsnm, (base,), {'__module__': mdlnm})
+        _fix_dynamic_class_lookup(cls, pstfx)
+    cls = getattr(mdl, extnm)
+    return cls.__new__(cls)
+
+
+
+_itstat_types = {}
+
+
+def itstat_namedtuple(fields):
+    """Construct an IterationStats named tuple type, the objects of which
+    can be pickled.
+
+    Parameters
+    ----------
+    fields : sequence of strings
+      Field names of the named tuple
+    """
+
+    fields = tuple(fields)
+    if fields not in _itstat_types:
+        cls = collections.namedtuple('IterationStats', fields)
+        cls.__reduce__ = _reduce_itstat
+        _itstat_types[fields] = cls
+    return _itstat_types[fields]
+
+
+
+def _reduce_itstat(itst):
+    """Implementation of `__reduce__` for IterationStats named tuples."""
+
+    return _restore_itstat, (itst._fields, tuple(itst))
+
+
+
+def _restore_itstat(fields, values):
+    """Reconstruct an IterationStats named tuple when unpickling."""
+
+    return itstat_namedtuple(fields)(*values)
 
 
 
@@ -97,8 +163,7 @@ class _IterSolver_Meta(type):
     def __init__(cls, *args):
 
         # Initialise named tuple type for recording iteration statistics
-        cls.IterationStats = collections.namedtuple('IterationStats',
-                                                    cls.itstat_fields())
+        cls.IterationStats = itstat_namedtuple(cls.itstat_fields())
         # Apply _fix_nested_class_lookup function to class after creation
         _fix_nested_class_lookup(cls, nstnm='Options')
 
diff --git a/sporco/dictlrn/dictlrn.py b/sporco/dictlrn/dictlrn.py
index 670d1df..9ad3349 100644
--- a/sporco/dictlrn/dictlrn.py
+++ b/sporco/dictlrn/dictlrn.py
@@ -14,7 +14,6 @@ from future.utils import with_metaclass
 from builtins import range
 from builtins import object
 
-import collections
 
 from sporco import cdict
 from sporco import common
@@ -66,7 +65,7 @@ class IterStatsConfig(object):
           formats that depart from the standard format
         """
 
-        self.IterationStats = collections.namedtuple('IterationStats', isfld)
+        self.IterationStats = common.itstat_namedtuple(isfld)
         self.isxmap = isxmap
         self.isdmap = isdmap
         self.evlmap = evlmap
@@ -80,6 +79,25 @@ class IterStatsConfig(object):
 
 
 
+    def __getstate__(self):
+        """Replace the named tuple type, which cannot be pickled, with
+        its field names.
+        """
+
+        state = self.__dict__.copy()
+        state['IterationStats'] = self.IterationStats._fields
+        return state
+
+
+
+    def __setstate__(self, state):
+        """Reconstruct the named tuple type from its field names."""
+
+        self.__dict__.update(state)
+        self.IterationStats = common.itstat_namedtuple(self.IterationStats)
+
+
+
     def iterstats(self, j, t, isx, isd, evl):
         """Construct IterationStats namedtuple from X step and D step
         IterationStats namedtuples.
-- 
2.43.0


From 8014fb854cc4d5370b2c354e06387bfc5e50cc1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:41 +0000
Subject: [PATCH 10/42] fix: report all network failures in netgetdata as
 URLError and retry timeouts while reading

Timeouts and other failures after the connection had been established were
raised as exceptions other than the documented URLError, and such timeouts
were not retried. Close the response.
---
 sporco/util.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/sporco/util.py b/sporco/util.py
index 055cfed..9f77e63 100644
--- a/sporco/util.py
+++ b/sporco/util.py
@@ -22,9 +22,11 @@ import socket
 if PY2:
     import urllib2 as urlrequest
     import urllib2 as urlerror
+    import httplib as httpclient
 else:
     import urllib.request as urlrequest
     import urllib.error as urlerror
+    import http.client as httpclient
 import numpy as np
 import imageio
 import scipy.ndimage as sn
@@ -198,12 +200,22 @@ def netgetdata(url, maxtry=3, timeout=10):
     for ntry in range(maxtry):
         try:
             rspns = urlrequest.urlopen(url, timeout=timeout)
-            cntnt = rspns.read()
+            try:
+                cntnt = rspns.read()
+            finally:
+                rspns.close()
             break
         except urlerror.URLError as e:
             err = e
             if not isinstance(e.reason, socket.timeout):
                 raise
+        except socket.timeout as e:
+            # Timeouts after the connection has been established are not
+            # wrapped in a URLError by urllib
+            err = urlerror.URLError(e)
+        except (httpclient.HTTPException, socket.error) as e:
+            # Nor are other failures while receiving the response
+            raise urlerror.URLError(e)
     else:
         raise err
 
-- 
2.43.0


From 25907239dad6a5a6b99b2d26ab40a10f1620ab01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:22 +0000
Subject: [PATCH 11/42] fix: make all MPI ranks take part in the same
 collectives in mpiutil.grid_search

With a vector valued function and more ranks than grid points the ranks
without grid points took the branch for a scalar function: deadlock.
---
 sporco/mpiutil.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/sporco/mpiutil.py b/sporco/mpiutil.py
index 2e0c3e0..b3bf8a9 100644
--- a/sporco/mpiutil.py
+++ b/sporco/mpiutil.py
@@ -133,12 +133,18 @@ def grid_search(fn, grid, comm=None, mpidtype=None, fmin=True):
     rankgrid = (afprm[begin:end, :])
     rankfval = np.asarray(list(map(fn, rankgrid)))
 
-    if rankfval.ndim == 1:  # Function with a scalar return value
+    # Number of function values (zero for a scalar function), which is
+    # not known on ranks that have no grid points
+    nfval = comm.allreduce(0 if rankfval.ndim == 1 else rankfval.shape[1],
+                           op=MPI.MAX)
+
+    if nfval == 0:  # Function with a scalar return value
         fval = np.empty(afprm.shape[0])
         comm.Allgatherv([rankfval, mpidtype], [fval, mpidtype])
     else:  # Function with a vector return value
+        rankfval = rankfval.reshape((-1, nfval))
         # Vector for gathering all the results
-        fval = np.empty([afprm.shape[0], rankfval.shape[1]])
+        fval = np.empty([afprm.shape[0], nfval])
         # Size of values to collect locally
         sizeL = np.array(np.prod(np.array(rankfval.shape)))
         # Number of processes to collect from
-- 
2.43.0


From b57d3312d4117cda11a899aae91a7a73ac1ef52f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:12 +0000
Subject: [PATCH 12/42] fix: use the selected iteration timer in the consensus
 dictionary learning solvers

---
 sporco/dictlrn/prlcnscdl.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sporco/dictlrn/prlcnscdl.py b/sporco/dictlrn/prlcnscdl.py
index 531bd52..bb71e54 100644
--- a/sporco/dictlrn/prlcnscdl.py
+++ b/sporco/dictlrn/prlcnscdl.py
@@ -582,7 +582,7 @@ class ConvBPDNDictLearn_Consensus(cbpdndl.ConvBPDNDictLearn):
             self.timer.start('solve_wo_eval')
 
             # Record iteration stats
-            tk = self.timer.elapsed('solve')
+            tk = self.timer.elapsed(self.opt['IterTimer'])
             itst = self.IterationStats(*((self.j,) + fnev + (tk,)))
             self.itstat.append(itst)
 
@@ -1166,7 +1166,7 @@ class ConvBPDNMaskDcplDictLearn_Consensus(cbpdndlmd.ConvBPDNMaskDictLearn):
             self.timer.start('solve_wo_eval')
 
             # Record iteration stats
-            tk = self.timer.elapsed('solve')
+            tk = self.timer.elapsed(self.opt['IterTimer'])
             itst = self.IterationStats(*((self.j,) + fnev + (tk,)))
             self.itstat.append(itst)
 
-- 
2.43.0


From 847de9388f967924f6731d8ad338c83b60924cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:59:19 +0000
Subject: [PATCH 13/42] fix: preserve all option values when options objects
 are copied or pickled

---
 sporco/cdict.py | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/sporco/cdict.py b/sporco/cdict.py
index 901b4d1..227d5fd 100644
--- a/sporco/cdict.py
+++ b/sporco/cdict.py
@@ -52,6 +52,13 @@ class InvalidValueError(ValueError):
 
 
 
+def _new(cls):
+    """Construct an uninitialised object of class `cls`."""
+
+    return cls.__new__(cls)
+
+
+
 class ConstrainedDict(dict):
     """A dict subclass that constrains the allowed dict keys.
 
@@ -219,6 +226,26 @@ class ConstrainedDict(dict):
 
 
 
+    def __reduce__(self):
+        """Support for copying and pickling."""
+
+        return _new, (self.__class__,), (dict(self), self.__dict__.copy())
+
+
+
+    def __setstate__(self, state):
+        """Restore the state of a copied or unpickled object. The
+        content is restored as it is, without calling
+        :meth:`__setitem__` for each key, since derived classes may
+        define this method so that setting a key also modifies the
+        values of other keys.
+        """
+
+        dict.update(self, state[0])
+        self.__dict__.update(state[1])
+
+
+
     def __str__(self):
         """Return string representation of object."""
 
-- 
2.43.0


From 8042abd00ed0d1e8e9731258f60ed0670337c130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:00:41 +0000
Subject: [PATCH 14/42] fix: do not modify the options passed to the dictionary
 learning solvers

---
 sporco/dictlrn/bpdndl.py    | 7 ++++---
 sporco/dictlrn/cbpdndl.py   | 7 ++++---
 sporco/dictlrn/cbpdndlmd.py | 9 +++++----
 sporco/dictlrn/wbpdndl.py   | 7 ++++---
 4 files changed, 17 insertions(+), 13 deletions(-)

diff --git a/sporco/dictlrn/bpdndl.py b/sporco/dictlrn/bpdndl.py
index fc6d67b..d3ea480 100644
--- a/sporco/dictlrn/bpdndl.py
+++ b/sporco/dictlrn/bpdndl.py
@@ -151,16 +151,17 @@ class BPDNDictLearn(dictlrn.DictLearn):
         # Normalise dictionary according to D update options
         D0 = cmod.getPcn(opt['CMOD', 'ZeroMean'])(D0)
 
-        # Modify D update options to include initial values for Y and U
+        # Add initial values for Y and U to a copy of the D update options
         Nc = D0.shape[1]
-        opt['CMOD'].update({'Y0': D0, 'U0': np.zeros((S.shape[0], Nc))})
+        optd = copy.copy(opt['CMOD'])
+        optd.update({'Y0': D0, 'U0': np.zeros((S.shape[0], Nc))})
 
         # Create X update object
         xstep = bpdn.BPDN(D0, S, lmbda, opt['BPDN'])
 
         # Create D update object
         Nm = S.shape[1]
-        dstep = cmod.CnstrMOD(xstep.Y, S, (Nc, Nm), opt['CMOD'])
+        dstep = cmod.CnstrMOD(xstep.Y, S, (Nc, Nm), optd)
 
         # Configure iteration statistics reporting
         if self.opt['AccurateDFid']:
diff --git a/sporco/dictlrn/cbpdndl.py b/sporco/dictlrn/cbpdndl.py
index 33eacd9..6b6dd62 100644
--- a/sporco/dictlrn/cbpdndl.py
+++ b/sporco/dictlrn/cbpdndl.py
@@ -448,9 +448,10 @@ class ConvBPDNDictLearn(dictlrn.DictLearn):
         D0 = cr.Pcn(D0, dsz, cri.Nv, dimN, cri.dimCd, crp=True,
                     zm=opt['CCMOD', 'ZeroMean'])
 
-        # Modify D update options to include initial value for Y
+        # Add initial value for Y to a copy of the D update options
         optname = 'X0' if dmethod == 'pgm' else 'Y0'
-        opt['CCMOD'].update({optname: cr.zpad(
+        optd = copy.copy(opt['CCMOD'])
+        optd.update({optname: cr.zpad(
             cr.stdformD(D0, cri.Cd, cri.M, dimN), cri.Nv)})
 
         # Create X update object
@@ -458,7 +459,7 @@ class ConvBPDNDictLearn(dictlrn.DictLearn):
                          dimK=dimK, dimN=dimN)
 
         # Create D update object
-        dstep = ConvCnstrMOD(None, S, dsz, opt['CCMOD'], method=dmethod,
+        dstep = ConvCnstrMOD(None, S, dsz, optd, method=dmethod,
                              dimK=dimK, dimN=dimN)
 
         # Configure iteration statistics reporting
diff --git a/sporco/dictlrn/cbpdndlmd.py b/sporco/dictlrn/cbpdndlmd.py
index a5b4b07..524f7da 100644
--- a/sporco/dictlrn/cbpdndlmd.py
+++ b/sporco/dictlrn/cbpdndlmd.py
@@ -462,27 +462,28 @@ class ConvBPDNMaskDictLearn(dictlrn.DictLearn):
         D0 = cr.Pcn(D0, dsz, cri.Nv, dimN, cri.dimCd, crp=True,
                     zm=opt['CCMOD', 'ZeroMean'])
 
-        # Modify D update options to include initial values for Y
+        # Add initial values for Y to a copy of the D update options
+        optd = copy.copy(opt['CCMOD'])
         if cri.C == cri.Cd:
             Y0b0 = np.zeros(cri.Nv + (cri.C, 1, cri.K))
         else:
             Y0b0 = np.zeros(cri.Nv + (1, 1, cri.C * cri.K))
         Y0b1 = cr.zpad(cr.stdformD(D0, cri.Cd, cri.M, dimN), cri.Nv)
         if dmethod == 'pgm':
-            opt['CCMOD'].update({'X0': Y0b1})
+            optd.update({'X0': Y0b1})
         else:
             if dmethod == 'cns':
                 Y0 = Y0b1
             else:
                 Y0 = np.concatenate((Y0b0, Y0b1), axis=cri.axisM)
-            opt['CCMOD'].update({'Y0': Y0})
+            optd.update({'Y0': Y0})
 
         # Create X update object
         xstep = ConvBPDNMask(D0, S, lmbda, W, opt['CBPDN'], method=xmethod,
                              dimK=dimK, dimN=dimN)
 
         # Create D update object
-        dstep = ConvCnstrMODMask(None, S, W, dsz, opt['CCMOD'],
+        dstep = ConvCnstrMODMask(None, S, W, dsz, optd,
                                  method=dmethod, dimK=dimK, dimN=dimN)
 
         # Configure iteration statistics reporting
diff --git a/sporco/dictlrn/wbpdndl.py b/sporco/dictlrn/wbpdndl.py
index 27b34e2..1f66e73 100644
--- a/sporco/dictlrn/wbpdndl.py
+++ b/sporco/dictlrn/wbpdndl.py
@@ -152,9 +152,10 @@ class WeightedBPDNDictLearn(dictlrn.DictLearn):
         D0 = cmod.getPcn(opt['CMOD', 'ZeroMean'],
                          opt['CMOD', 'NonNegCoef'])(D0)
 
-        # Modify D update options to include initial values for Y and U
+        # Add initial value for X to a copy of the D update options
         Nc = D0.shape[1]
-        opt['CMOD'].update({'X0': D0})
+        optd = copy.copy(opt['CMOD'])
+        optd.update({'X0': D0})
 
         # Create X update object
         xstep = bpdn.WeightedBPDN(D0, S, lmbda, W=W, opt=opt['BPDN'])
@@ -162,7 +163,7 @@ class WeightedBPDNDictLearn(dictlrn.DictLearn):
         # Create D update object
         Nm = S.shape[1]
         dstep = cmod.WeightedCnstrMOD(xstep.Y, S, W=W, dsz=(Nc, Nm),
-                                      opt=opt['CMOD'])
+                                      opt=optd)
 
         if W is None:
             W = np.array([1.0], dtype=xstep.dtype)
-- 
2.43.0


From 309e98db9bb8a5093a01082ce25bcf233befd20e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:00:41 +0000
Subject: [PATCH 15/42] fix: do not share step size policy and backtracking
 state between PGM solvers constructed from the same options

---
 sporco/pgm/pgm.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/sporco/pgm/pgm.py b/sporco/pgm/pgm.py
index 220231b..bfe1d15 100644
--- a/sporco/pgm/pgm.py
+++ b/sporco/pgm/pgm.py
@@ -242,8 +242,10 @@ class PGM(IterativeSolver):
         self.set_attr('L', opt['L'], dval=1.0, dtype=self.dtype)
 
         # Configure policy for step size
-        # Step size policy is turned off if Backtrack is enabled
-        self.stepsizepolicy = self.opt['StepSizePolicy']
+        # Step size policy is turned off if Backtrack is enabled. The policy
+        # object is copied since it has a state that should not be shared
+        # with other solver objects constructed from the same options
+        self.stepsizepolicy = copy.deepcopy(self.opt['StepSizePolicy'])
         if self.opt['Backtrack'] is not None:
             self.stepsizepolicy = None
 
@@ -264,7 +266,7 @@ class PGM(IterativeSolver):
         self.F = None
         self.Q = None
         self.iterBTrack = None
-        self.backtrack = self.opt['Backtrack']
+        self.backtrack = copy.deepcopy(self.opt['Backtrack'])
 
         self.Y = None
 
-- 
2.43.0


From 78585653548a123e6dfe946f9eac83a19918cfd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:06:14 +0000
Subject: [PATCH 16/42] fix: reconstruct methods of pgm.cmod.CnstrMOD and
 MultiDictConvBPDN

---
 sporco/admm/cbpdn.py | 2 +-
 sporco/pgm/cmod.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sporco/admm/cbpdn.py b/sporco/admm/cbpdn.py
index 7b08026..e4596ec 100644
--- a/sporco/admm/cbpdn.py
+++ b/sporco/admm/cbpdn.py
@@ -2898,7 +2898,7 @@ class MultiDictConvBPDN(object):
 
         if X is None:
             X = self.getcoef()
-        Xf = rfftn(X, None, self.cbpdn.cri.axisN)
+        Xf = self.cbpdn.fftn(X, None, self.cbpdn.cri.axisN)
         slc = (slice(None),)*self.dimN + \
               (slice(self.chncs[b], self.chncs[b+1]),)
         Sf = np.sum(self.cbpdn.Df[slc] * Xf, axis=self.cbpdn.cri.axisM)
diff --git a/sporco/pgm/cmod.py b/sporco/pgm/cmod.py
index 4dbda8a..800dfae 100644
--- a/sporco/pgm/cmod.py
+++ b/sporco/pgm/cmod.py
@@ -229,7 +229,7 @@ class CnstrMOD(pgm.PGM):
 
         if X is None:
             X = self.X
-        return self.D.dot(self.X)
+        return X.dot(self.Z)
 
 
 
-- 
2.43.0


From 8ae0e467a741f056993f49ffc0f953adee97b63f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:28 +0000
Subject: [PATCH 17/42] fix: use the Y0 and U0 options of ConvProdDictL1L1Grd

---
 sporco/admm/pdcsc.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sporco/admm/pdcsc.py b/sporco/admm/pdcsc.py
index 90ecec5..10d138f 100644
--- a/sporco/admm/pdcsc.py
+++ b/sporco/admm/pdcsc.py
@@ -398,8 +398,10 @@ class ConvProdDictL1L1Grd(cbpdn.ConvL1L1Grd):
         self.y0I = int(np.prod(np.array(self.y0shp[self.cri.axisC:])))
         self.y1I = int(np.prod(np.array(self.y1shp[self.cri.axisC:])))
         self.yshp = self.cri.shpX[0:self.cri.axisC:] + (self.y0I + self.y1I,)
-        self.Y = np.zeros(self.yshp, dtype=self.dtype)
-        self.U = np.zeros(self.yshp, dtype=self.dtype)
+        if self.opt['Y0'] is None:
+            self.Y = np.zeros(self.yshp, dtype=self.dtype)
+        if self.opt['U0'] is None:
+            self.U = np.zeros(self.yshp, dtype=self.dtype)
         self.YU = empty_aligned(self.Y.shape, dtype=self.dtype)
 
 
-- 
2.43.0


From 221e4164c3c1608b6424f900d2a056faaea0df45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:28 +0000
Subject: [PATCH 18/42] fix: use the Y0, Y1, U0 and U1 options of ParConvBPDN

---
 sporco/admm/parcbpdn.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/sporco/admm/parcbpdn.py b/sporco/admm/parcbpdn.py
index 9daf3ed..730dd7f 100644
--- a/sporco/admm/parcbpdn.py
+++ b/sporco/admm/parcbpdn.py
@@ -638,7 +638,8 @@ class ParConvBPDN(GenericConvBPDN):
         global mp_Df
         init_mpraw('mp_Df', np.moveaxis(self.Df, self.cri.axisM, mp_axisM))
         global mp_X
-        init_mpraw('mp_X', np.moveaxis(self.Y, self.cri.axisM, mp_axisM))
+        init_mpraw('mp_X', np.moveaxis(np.zeros(self.cri.shpX, self.dtype),
+                                       self.cri.axisM, mp_axisM))
         shp_X = list(mp_X.shape)
         global mp_Xnr
         mp_Xnr = mpraw_as_np(mp_X.shape, mp_X.dtype)
@@ -647,7 +648,7 @@ class ParConvBPDN(GenericConvBPDN):
         shp_Y0[0] = self.ngrp
         shp_Y0[mp_axisC] = mp_C
         if self.opt['Y0'] is not None:
-            init_mpraw('Y0', np.moveaxis(
+            init_mpraw('mp_Y0', np.moveaxis(
                 self.opt['Y0'].astype(self.dtype, copy=True),
                 self.cri.axisM, mp_axisM))
         else:
@@ -656,7 +657,7 @@ class ParConvBPDN(GenericConvBPDN):
         mp_Y0old = mpraw_as_np(shp_Y0, mp_X.dtype)
         global mp_Y1
         if self.opt['Y1'] is not None:
-            init_mpraw('Y1', np.moveaxis(
+            init_mpraw('mp_Y1', np.moveaxis(
                 self.opt['Y1'].astype(self.dtype, copy=True),
                 self.cri.axisM, mp_axisM))
         else:
@@ -665,14 +666,14 @@ class ParConvBPDN(GenericConvBPDN):
         mp_Y1old = mpraw_as_np(shp_X, mp_X.dtype)
         global mp_U0
         if self.opt['U0'] is not None:
-            init_mpraw('U0', np.moveaxis(
+            init_mpraw('mp_U0', np.moveaxis(
                 self.opt['U0'].astype(self.dtype, copy=True),
                 self.cri.axisM, mp_axisM))
         else:
             mp_U0 = mpraw_as_np(shp_Y0, mp_X.dtype)
         global mp_U1
         if self.opt['U1'] is not None:
-            init_mpraw('U1', np.moveaxis(
+            init_mpraw('mp_U1', np.moveaxis(
                 self.opt['U1'].astype(self.dtype, copy=True),
                 self.cri.axisM, mp_axisM))
         else:
-- 
2.43.0


From a393ecaf63835b7d43a037b1a21d930e244b85df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:26 +0000
Subject: [PATCH 19/42] fix: online dictionary learning batches with a changed
 number of images or channels

The arrays that depend on the batch were only set up again when the image
size changed, so that a batch with a different number of images or channels
raised an exception.
---
 sporco/dictlrn/onlinecdl.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sporco/dictlrn/onlinecdl.py b/sporco/dictlrn/onlinecdl.py
index f17a802..a456fc7 100644
--- a/sporco/dictlrn/onlinecdl.py
+++ b/sporco/dictlrn/onlinecdl.py
@@ -245,9 +245,9 @@ class OnlineConvBPDNDictLearn(common.IterativeSolver):
         """Initalise variables required for sparse coding and dictionary
         update for training data `S`."""
 
-        Nv = S.shape[0:self.dimN]
-        if self.cri is None or Nv != self.cri.Nv:
-            self.cri = CDU_ConvRepIndexing(self.dsz, S, dimK, self.dimN)
+        cri = CDU_ConvRepIndexing(self.dsz, S, dimK, self.dimN)
+        if self.cri is None or cri.shpS != self.cri.shpS:
+            self.cri = cri
             if self.opt['CUDA_CBPDN']:
                 if self.cri.Cd > 1 or self.cri.Cx > 1:
                     raise ValueError('CUDA CBPDN solver can only be used for '
-- 
2.43.0


From 1bc01481bce7346a52cf82b090a79b468a75ff9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:25 +0000
Subject: [PATCH 20/42] fix: online dictionary learning with a single-channel
 dictionary and a multi-channel batch

The dictionary was handed to the sparse coding solver without its singleton
dimensions, so that the role of the axes of the batch could be inferred
differently there (or, with a single filter, not at all), and the gradient
mixed up channels and images when the batch had a channel axis.
---
 sporco/dictlrn/onlinecdl.py | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/sporco/dictlrn/onlinecdl.py b/sporco/dictlrn/onlinecdl.py
index a456fc7..8dc1100 100644
--- a/sporco/dictlrn/onlinecdl.py
+++ b/sporco/dictlrn/onlinecdl.py
@@ -264,6 +264,19 @@ class OnlineConvBPDNDictLearn(common.IterativeSolver):
 
 
 
+    def extdict(self):
+        """Get current dictionary in the external layout, i.e. without
+        a signal axis and, if the dictionary size specification does not
+        include one, without a channel axis.
+        """
+
+        if self.cri.dimCd == 0:
+            return self.D[..., 0, 0, :]
+        else:
+            return self.D[..., 0, :]
+
+
+
     def xstep(self, S, lmbda, dimK):
         """Solve CSC problem for training data `S`."""
 
@@ -278,7 +291,7 @@ class OnlineConvBPDNDictLearn(common.IterativeSolver):
             self.xstep_itstat = None
         else:
             # Create X update object (external representation is expected!)
-            xstep = cbpdn.ConvBPDN(self.D.squeeze(), S, lmbda,
+            xstep = cbpdn.ConvBPDN(self.extdict(), S, lmbda,
                                    self.opt['CBPDN'], dimK=dimK,
                                    dimN=self.cri.dimN)
             xstep.solve()
@@ -291,18 +304,7 @@ class OnlineConvBPDNDictLearn(common.IterativeSolver):
     def setcoef(self, Z):
         """Set coefficient array."""
 
-        # If the dictionary has a single channel but the input (and
-        # therefore also the coefficient map array) has multiple
-        # channels, the channel index and multiple image index have
-        # the same behaviour in the dictionary update equation: the
-        # simplest way to handle this is to just reshape so that the
-        # channels also appear on the multiple image index.
-        if self.cri.Cd == 1 and self.cri.C > 1:
-            Z = Z.reshape(self.cri.Nv + (1,) + (self.cri.Cx*self.cri.K,) +
-                          (self.cri.M,))
-            if Z.shape != self.Z.shape:
-                self.Z = empty_aligned(Z.shape, self.dtype)
-        self.Z[:] = np.asarray(Z, dtype=self.dtype)
+        self.Z[:] = np.asarray(Z.reshape(self.cri.shpX), dtype=self.dtype)
         self.Zf = rfftn(self.Z, self.cri.Nv, self.cri.axisN)
 
 
@@ -560,7 +562,7 @@ class OnlineConvBPDNMaskDictLearn(OnlineConvBPDNDictLearn):
             self.xstep_itstat = None
         else:
             # Create X update object (external representation is expected!)
-            xstep = cbpdn.ConvBPDNMaskDcpl(self.D.squeeze(), S, lmbda, W,
+            xstep = cbpdn.ConvBPDNMaskDcpl(self.extdict(), S, lmbda, W,
                                            self.opt['CBPDN'], dimK=dimK,
                                            dimN=self.cri.dimN)
             xstep.solve()
-- 
2.43.0


From e193ac2013483e89bcb0bb40408cd47d3f685902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:34:39 +0000
Subject: [PATCH 21/42] fix: Cauchy and BB step size policies when the gradient
 or its change is zero

The step size became NaN (0/0), and with it the solution in the next
iteration, e.g. for an all-zero coefficient array in a dictionary update.
---
 sporco/pgm/stepsize.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/sporco/pgm/stepsize.py b/sporco/pgm/stepsize.py
index d5a6a0c..8996625 100644
--- a/sporco/pgm/stepsize.py
+++ b/sporco/pgm/stepsize.py
@@ -79,6 +79,11 @@ class StepSizePolicyCauchy(StepSizePolicyBase):
         den = np.sum(np.real(np.conj(grad) * grad))
         num = np.sum(np.real(np.conj(grad) * solverobj.hessian_f(grad)))
 
+        # Keep current step size if the gradient is zero (or has no component
+        # in the range of the Hessian)
+        if den == 0. or num == 0.:
+            return solverobj.L
+
         return num / den
 
 
@@ -138,6 +143,11 @@ class StepSizePolicyBB(StepSizePolicyBase):
         den = np.sum(np.real(np.conj(dx) * dg))
         num = np.sum(np.real(np.conj(dg) * dg))
 
+        # Keep current step size if there is no change in the state or if
+        # the curvature is not positive
+        if den == 0. or num == 0.:
+            return solverobj.L
+
         L = num / den
         if L < 0.:
             L = solverobj.L
-- 
2.43.0


From 46bfcd0fc63c78a507b7442b9ff71fd406c47d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:43 +0000
Subject: [PATCH 22/42] fix: ExampleImages with a path that ends with a
 separator

The names of groups and images lost their first character.
---
 sporco/util.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sporco/util.py b/sporco/util.py
index 9f77e63..dae13f0 100644
--- a/sporco/util.py
+++ b/sporco/util.py
@@ -438,9 +438,9 @@ class ExampleImages(object):
         self.imglst = []
         self.grpimg = {}
         for dirpath, dirnames, filenames in os.walk(self.bpth):
-            # It would be more robust and portable to use
-            # pathlib.PurePath.relative_to
-            prnpth = dirpath[len(self.bpth)+1:]
+            prnpth = os.path.relpath(dirpath, self.bpth)
+            if prnpth == os.curdir:
+                prnpth = ''
             for f in filenames:
                 fpth = os.path.join(dirpath, f)
                 if is_image(fpth):
-- 
2.43.0


From dada2aed004d14c0b50b3830936f1cfde2a8ee52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:43 +0000
Subject: [PATCH 23/42] fix: conversion of integer RGB images to grayscale

The weights were converted to the integer type of the image, so that the
result was zero everywhere. Also, the weights were not applied along the
channel axis of a multiple image array.
---
 sporco/signal.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/sporco/signal.py b/sporco/signal.py
index 802b091..08a665a 100644
--- a/sporco/signal.py
+++ b/sporco/signal.py
@@ -106,9 +106,14 @@ def rgb2gray(rgb):
       Grayscale image as Nr x Nc or Nr x Nc x K array
     """
 
-    w = np.array([0.299, 0.587, 0.114], dtype=rgb.dtype)[np.newaxis,
-                                                         np.newaxis]
-    return np.sum(w * rgb, axis=2)
+    # Integer weights would all be zero
+    dtype = np.float64 if np.issubdtype(rgb.dtype, np.integer) else rgb.dtype
+    w = np.array([0.299, 0.587, 0.114], dtype=dtype)
+    w = w.reshape((1, 1, 3) + (1,) * (rgb.ndim - 3))
+    gry = np.sum(w * rgb, axis=2)
+    if dtype != rgb.dtype:
+        gry = np.rint(gry).astype(rgb.dtype)
+    return gry
 
 
 
-- 
2.43.0


From 4b347077699be19539403b6a8eddfc1a73a3647f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:43 +0000
Subject: [PATCH 24/42] fix: ExampleImages with grayscale conversion of a
 grayscale image

The conversion was attempted although there are no colour channels, which
raised an exception or mixed up the columns of the image.
---
 sporco/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sporco/util.py b/sporco/util.py
index dae13f0..ea073bb 100644
--- a/sporco/util.py
+++ b/sporco/util.py
@@ -578,7 +578,7 @@ class ExampleImages(object):
                 img = sn.zoom(img, zoom)
             else:
                 img = sn.zoom(img, (zoom,)*2 + (1,)*(img.ndim-2))
-        if gray:
+        if gray and img.ndim > 2:
             img = signal.rgb2gray(img)
 
         return img
-- 
2.43.0


From 9a43a6e6757afc092b813133f84317d17cda4b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:40 +0000
Subject: [PATCH 25/42] fix: zooming in figures with more than one set of axes

A scroll event over one set of axes zoomed all of the others as well, at a
position determined by the coordinates of the wrong axes.
---
 sporco/plot.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/sporco/plot.py b/sporco/plot.py
index 0359c30..a54acdd 100644
--- a/sporco/plot.py
+++ b/sporco/plot.py
@@ -100,11 +100,16 @@ def attach_zoom(ax, scaling=2.0):
         # Get the current x and y limits
         cur_xlim = ax.get_xlim()
         cur_ylim = ax.get_ylim()
-        # Get event location
-        xdata = event.xdata
-        ydata = event.ydata
-        # Return if cursor is not over valid region of plot
-        if xdata is None or ydata is None:
+        # Get event location in the coordinates of this plot (the data
+        # coordinates of the event are those of the topmost axes)
+        if event.inaxes is ax:
+            xdata = event.xdata
+            ydata = event.ydata
+        elif event.inaxes is not None and ax.in_axes(event):
+            xdata, ydata = ax.transData.inverted().transform(
+                (event.x, event.y))
+        else:
+            # Return if cursor is not over valid region of plot
             return
 
         if event.button == 'up':
-- 
2.43.0


From be66e8d3284488acb31919e354b866b90bd0eb5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:40 +0000
Subject: [PATCH 26/42] fix: zooming in a plot with an inverted x axis

The comparisons with the reference limits assumed that the first x limit is
the smaller one, so that zooming left the region of the original plot.
---
 sporco/plot.py | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/sporco/plot.py b/sporco/plot.py
index a54acdd..bcf19da 100644
--- a/sporco/plot.py
+++ b/sporco/plot.py
@@ -131,15 +131,26 @@ def attach_zoom(ax, scaling=2.0):
         new_ylim = (ydata - y_top * scale_factor,
                     ydata + y_bottom * scale_factor)
 
+        # Ensure that xlim tuple has the smallest value first
+        if zoom.xlim_ref[1] < zoom.xlim_ref[0]:
+            xlim_ref = zoom.xlim_ref[::-1]
+            new_xlim = new_xlim[::-1]
+        else:
+            xlim_ref = zoom.xlim_ref
+
         # Ensure that x limit range is no larger than that of the reference
-        if np.diff(new_xlim) > np.diff(zoom.xlim_ref):
-            new_xlim *= np.diff(zoom.xlim_ref) / np.diff(new_xlim)
+        if np.diff(new_xlim) > np.diff(xlim_ref):
+            new_xlim *= np.diff(xlim_ref) / np.diff(new_xlim)
         # Ensure that lower x limit is not less than that of the reference
-        if new_xlim[0] < zoom.xlim_ref[0]:
-            new_xlim += np.array(zoom.xlim_ref[0] - new_xlim[0])
+        if new_xlim[0] < xlim_ref[0]:
+            new_xlim += np.array(xlim_ref[0] - new_xlim[0])
         # Ensure that upper x limit is not greater than that of the reference
-        if new_xlim[1] > zoom.xlim_ref[1]:
-            new_xlim -= np.array(new_xlim[1] - zoom.xlim_ref[1])
+        if new_xlim[1] > xlim_ref[1]:
+            new_xlim -= np.array(new_xlim[1] - xlim_ref[1])
+
+        # Return the xlim tuple to its original order
+        if zoom.xlim_ref[1] < zoom.xlim_ref[0]:
+            new_xlim = new_xlim[::-1]
 
         # Ensure that ylim tuple has the smallest value first
         if zoom.ylim_ref[1] < zoom.ylim_ref[0]:
-- 
2.43.0


From 2c0e5c1899fbb9c62d635aa4d262e815ebf82e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:40 +0000
Subject: [PATCH 27/42] fix: zooming of a plot to which the event handler was
 attached repeatedly

Drawing more than once in the same axes attached an additional handler each
time, so that a single scroll event was acted on more than once.
---
 sporco/plot.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/sporco/plot.py b/sporco/plot.py
index bcf19da..de8f4d5 100644
--- a/sporco/plot.py
+++ b/sporco/plot.py
@@ -176,6 +176,7 @@ def attach_zoom(ax, scaling=2.0):
         # Set new x and y limits
         ax.set_xlim(new_xlim)
         ax.set_ylim(new_ylim)
+        zoom.lim_last = (ax.get_xlim(), ax.get_ylim())
 
         # Force redraw
         ax.figure.canvas.draw()
@@ -183,10 +184,24 @@ def attach_zoom(ax, scaling=2.0):
     # Record reference x and y limits prior to any zooming
     zoom.xlim_ref = ax.get_xlim()
     zoom.ylim_ref = ax.get_ylim()
+    zoom.lim_last = None
 
-    # Get figure for specified axes and attach the event handler
+    # Get figure for specified axes
     fig = ax.get_figure()
-    fig.canvas.mpl_connect('scroll_event', zoom)
+
+    # Replace an event handler already attached to the same axes, retaining
+    # its reference limits if the current limits result from zooming
+    if hasattr(ax, '_sporco_zoom'):
+        cid, prev = ax._sporco_zoom
+        fig.canvas.mpl_disconnect(cid)
+        if prev.lim_last == (ax.get_xlim(), ax.get_ylim()):
+            zoom.xlim_ref = prev.xlim_ref
+            zoom.ylim_ref = prev.ylim_ref
+            zoom.lim_last = prev.lim_last
+
+    # Attach the event handler
+    cid = fig.canvas.mpl_connect('scroll_event', zoom)
+    ax._sporco_zoom = (cid, zoom)
 
     return zoom
 
-- 
2.43.0


From 003d2f060a4320890f25fa23ec44b2201beff5f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:17 +0000
Subject: [PATCH 28/42] fix: zooming in beyond the resolution of the axis
 limits

When the limits became indistinguishable, Matplotlib expanded them so that
the view left the region of the original plot, or an exception was raised.
---
 sporco/plot.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sporco/plot.py b/sporco/plot.py
index de8f4d5..b0b281a 100644
--- a/sporco/plot.py
+++ b/sporco/plot.py
@@ -115,6 +115,11 @@ def attach_zoom(ax, scaling=2.0):
         if event.button == 'up':
             # Deal with zoom in
             scale_factor = 1.0 / scaling
+            # Return if the limits can no longer be told apart at a higher
+            # magnification (Matplotlib expands limits that are too close)
+            for lim in (cur_xlim, cur_ylim):
+                if np.ptp(lim) * scale_factor < 1e-10 * np.abs(lim).max():
+                    return
         elif event.button == 'down':
             # Deal with zoom out
             scale_factor = scaling
-- 
2.43.0


From bc16ca9c4eeee1cdae6fd4c88d37b6bb79ec6a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:26 +0000
Subject: [PATCH 29/42] fix: monotone PGM keeps the objective value and the
 iterate consistent

With the Monotone option the objective value recorded for the first iteration
(and used as the reference for the second one) was that of the initial
point, and PGMDFT reverted only the frequency domain version of the
solution when rejecting a step.
---
 sporco/pgm/pgm.py | 32 ++++++++++++++++++--------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/sporco/pgm/pgm.py b/sporco/pgm/pgm.py
index bfe1d15..4c9b336 100644
--- a/sporco/pgm/pgm.py
+++ b/sporco/pgm/pgm.py
@@ -413,14 +413,15 @@ class PGM(IterativeSolver):
 
         self.X = self.prox_g(V)
 
-        if self.opt['Monotone'] and self.k > 0:
-            self.ZZ = self.X.copy()
+        if self.opt['Monotone']:
             self.objfn = self.eval_objfn()
-            if self.objfn_prev[0] < self.objfn[0]:
-                # If increment on objective function
-                # revert to previous iterate
-                self.X = self.Xprv.copy()
-                self.objfn = self.objfn_prev
+            if self.k > 0:
+                self.ZZ = self.X.copy()
+                if self.objfn_prev[0] < self.objfn[0]:
+                    # If increment on objective function
+                    # revert to previous iterate
+                    self.X = self.Xprv.copy()
+                    self.objfn = self.objfn_prev
 
         return grad
 
@@ -802,14 +803,16 @@ class PGMDFT(PGM):
         self.X[:] = self.prox_g(V)
         self.Xf = rfftn(self.X, None, self.axisN)
 
-        if self.opt['Monotone'] and self.k > 0:
-            self.ZZf = self.Xf.copy()
+        if self.opt['Monotone']:
             self.objfn = self.eval_objfn()
-            if self.objfn_prev[0] < self.objfn[0]:
-                # If increment on objective function
-                # revert to previous iterate
-                self.Xf = self.Xfprv.copy()
-                self.objfn = self.objfn_prev
+            if self.k > 0:
+                self.ZZf = self.Xf.copy()
+                if self.objfn_prev[0] < self.objfn[0]:
+                    # If increment on objective function
+                    # revert to previous iterate
+                    self.X[:] = self.Xprv
+                    self.Xf = self.Xfprv.copy()
+                    self.objfn = self.objfn_prev
 
         return gradf
 
@@ -844,6 +847,7 @@ class PGMDFT(PGM):
             self.Yfprv = self.Yf.copy()
 
         if self.opt['Monotone']:
+            self.Xprv = self.X.copy()
             if self.k == 0:
                 self.objfn = self.eval_objfn()
             self.objfn_prev = self.objfn
-- 
2.43.0


From 586c5c4fa8c05d2067defd7e4edd260c06e64f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:26 +0000
Subject: [PATCH 30/42] fix: HighMemSolve with a default penalty parameter in
 ConvBPDN

The cached array was computed with the initial penalty parameter, before
the default depending on lambda was set, so that the linear systems were
not solved until the first change of the penalty parameter.
---
 sporco/admm/cbpdn.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sporco/admm/cbpdn.py b/sporco/admm/cbpdn.py
index e4596ec..d708d2b 100644
--- a/sporco/admm/cbpdn.py
+++ b/sporco/admm/cbpdn.py
@@ -583,6 +583,8 @@ class ConvBPDN(GenericConvBPDN):
         # Set penalty parameter
         self.set_attr('rho', opt['rho'], dval=(50.0 * self.lmbda + 1.0),
                       dtype=real_dtype(self.dtype), reset=True)
+        # The cached c array, if any, depends on the penalty parameter
+        self.rhochange()
 
         # Set rho_xi attribute (see Sec. VI.C of wohlberg-2015-adaptive)
         if self.lmbda != 0.0:
-- 
2.43.0


From 104b275ece1d7bb63dc54a8ec03b4415ac70edcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:26 +0000
Subject: [PATCH 31/42] fix: HighMemSolve in ConvElasticNet and ConvBPDNGradReg

The cached array was recomputed without the second term of the system
matrix when the penalty parameter changed.
---
 sporco/admm/cbpdn.py | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/sporco/admm/cbpdn.py b/sporco/admm/cbpdn.py
index d708d2b..fad83c8 100644
--- a/sporco/admm/cbpdn.py
+++ b/sporco/admm/cbpdn.py
@@ -989,6 +989,15 @@ class ConvElasticNet(ConvBPDN):
 
 
 
+    def rhochange(self):
+        """Updated cached c array when rho changes."""
+
+        if self.opt['HighMemSolve'] and self.cri.Cd == 1:
+            self.c = sl.solvedbi_sm_c(
+                self.Df, np.conj(self.Df), self.mu + self.rho, self.cri.axisM)
+
+
+
 
 
 class ConvBPDNGradReg(ConvBPDN):
@@ -1217,6 +1226,16 @@ class ConvBPDNGradReg(ConvBPDN):
 
 
 
+    def rhochange(self):
+        """Updated cached c array when rho changes."""
+
+        if self.opt['HighMemSolve'] and self.cri.Cd == 1:
+            self.c = sl.solvedbd_sm_c(
+                self.Df, np.conj(self.Df), self.mu*self.GHGf + self.rho,
+                self.cri.axisM)
+
+
+
 
 
 class ConvBPDNProjL1(GenericConvBPDN):
-- 
2.43.0


From 45b827feeabe63b707dccdeaba5b199c7b8b88dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:26 +0000
Subject: [PATCH 32/42] fix: HighMemSolve in ConvL1L1Grd

The constructor failed since the dictionary is set before the attributes
the cached array depends on.
---
 sporco/admm/cbpdn.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/sporco/admm/cbpdn.py b/sporco/admm/cbpdn.py
index fad83c8..f37f3ae 100644
--- a/sporco/admm/cbpdn.py
+++ b/sporco/admm/cbpdn.py
@@ -2663,8 +2663,10 @@ class ConvL1L1Grd(ConvBPDNMaskDcpl):
         if opt is None:
             opt = ConvL1L1Grd.Options()
 
-        super(ConvL1L1Grd, self).__init__(D, S, lmbda, W, opt, dimK=dimK,
-                                          dimN=dimN)
+        self.cri = cr.CSC_ConvRepIndexing(D, S, dimK=dimK, dimN=dimN)
+
+        # Set dtype attribute based on S.dtype and opt['DataType']
+        self.set_dtype(opt, S.dtype)
 
         self.mu = self.dtype.type(mu)
         if hasattr(opt['GradWeight'], 'ndim'):
@@ -2677,6 +2679,9 @@ class ConvL1L1Grd(ConvBPDNMaskDcpl):
                                          self.cri.Nv, dtype=self.dtype)
         self.GHGf = self.Wgrd * GHGf
 
+        super(ConvL1L1Grd, self).__init__(D, S, lmbda, W, opt, dimK=dimK,
+                                          dimN=dimN)
+
 
 
     def setdict(self, D=None):
-- 
2.43.0


From f560b1b90f2de86ead71c738009ee26173840618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:46 +0000
Subject: [PATCH 33/42] fix: solvedbd_sm keeps the precision of its arguments
 when numexpr is used

---
 sporco/linalg.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sporco/linalg.py b/sporco/linalg.py
index a274522..f8b88ab 100644
--- a/sporco/linalg.py
+++ b/sporco/linalg.py
@@ -337,7 +337,8 @@ def solvedbd_sm(ah, d, b, c=None, axis=4):
         c = solvedbd_sm_c(ah, a, d, axis)
     if have_numexpr:
         cb = inner(c, b, axis=axis)
-        return ne.evaluate('(b - (a * cb)) / d')
+        return ne.evaluate('(b - (a * cb)) / d').astype(
+            np.result_type(a, b, d), copy=False)
     else:
         return (b - (a * inner(c, b, axis=axis))) / d
 
-- 
2.43.0


From 98e1c407002c40c4de188e5acd17e1cf4cc30e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:46 +0000
Subject: [PATCH 34/42] fix: prox_l1 keeps the precision of its argument when
 numexpr is used

---
 sporco/prox/_lp.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sporco/prox/_lp.py b/sporco/prox/_lp.py
index 1df8802..3e69342 100644
--- a/sporco/prox/_lp.py
+++ b/sporco/prox/_lp.py
@@ -173,10 +173,13 @@ def prox_l1(v, alpha):
 
     if np.isrealobj(v):
         if have_numexpr:
+            # Python scalars are of double precision in numexpr
+            dtype = np.result_type(np.asarray(v), alpha if np.isscalar(alpha)
+                                   else np.asarray(alpha))
             return ne.evaluate(
                 'where(abs(v)-alpha > 0, where(v >= 0, 1, -1) * '
                 '(abs(v)-alpha), 0)'
-            )
+            ).astype(dtype, copy=False)
         else:
             return np.sign(v) * (np.clip(np.abs(v) - alpha, 0, float('Inf')))
     else:
-- 
2.43.0


From 27909dfb0e9dbb3f8190c5211423faecf1d4707a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:46 +0000
Subject: [PATCH 35/42] fix: creating the cupy version of an imported module
 does not modify that module

---
 sporco/cupy/__init__.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/sporco/cupy/__init__.py b/sporco/cupy/__init__.py
index 50fb271..5a83ddd 100644
--- a/sporco/cupy/__init__.py
+++ b/sporco/cupy/__init__.py
@@ -11,6 +11,7 @@ of numpy"""
 from __future__ import absolute_import
 
 import sys
+import copy
 import re
 from functools import reduce
 try:
@@ -131,7 +132,13 @@ def patch_module(name, pname, pfile=None, attrib=None):
 
     if attrib is None:
         attrib = {}
-    spec = importlib.util.find_spec(name)
+    # If the source module is already imported, find_spec returns the spec
+    # of that module rather than a new one, so modify a copy
+    spec = copy.copy(importlib.util.find_spec(name))
+    spec.loader = copy.copy(spec.loader)
+    if spec.submodule_search_locations is not None:
+        spec.submodule_search_locations = list(
+            spec.submodule_search_locations)
     spec.name = pname
     if pfile is not None:
         spec.origin = pfile
-- 
2.43.0


From 57d429a5d35b497c3ee9bd2f86caf22062a8b13b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:46 +0000
Subject: [PATCH 36/42] fix: Cholesky solvers of sporco.cupy when cupy is not
 available

---
 sporco/cupy/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sporco/cupy/__init__.py b/sporco/cupy/__init__.py
index 5a83ddd..062d9bd 100644
--- a/sporco/cupy/__init__.py
+++ b/sporco/cupy/__init__.py
@@ -51,6 +51,7 @@ try:
 except Exception:
     # If cupy import or device access fails, import numpy to the same alias
     import numpy as cp
+    import scipy.linalg as cpxl
     # Flag indicating unsuccessful import
     have_cupy = False
     # Import appropriate versions of utility functions
-- 
2.43.0


From ccdf1d6c104d1fcc5b9abfcaa6101f6baa049029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:46 +0000
Subject: [PATCH 37/42] fix: byte_aligned of sporco.cupy.fft respects the dtype
 argument

---
 sporco/cupy/__init__.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sporco/cupy/__init__.py b/sporco/cupy/__init__.py
index 062d9bd..a132d4a 100644
--- a/sporco/cupy/__init__.py
+++ b/sporco/cupy/__init__.py
@@ -254,7 +254,10 @@ def _complex_dtype(dtype):
 def _byte_aligned(array, dtype=None, n=None):
     """Patched version of :func:`sporco.fft.byte_aligned`."""
 
-    return array
+    if dtype is None:
+        return array
+    else:
+        return array.astype(dtype)
 
 
 def _empty_aligned(shape, dtype, order='C', n=None):
-- 
2.43.0


From 1e65a4adea294343f48c17882e528d94daeef99e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:34 +0000
Subject: [PATCH 38/42] fix: online dictionary learning is usable after an
 interrupted initialisation for a new batch shape

---
 sporco/dictlrn/onlinecdl.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/sporco/dictlrn/onlinecdl.py b/sporco/dictlrn/onlinecdl.py
index 8dc1100..5e92dcd 100644
--- a/sporco/dictlrn/onlinecdl.py
+++ b/sporco/dictlrn/onlinecdl.py
@@ -247,18 +247,20 @@ class OnlineConvBPDNDictLearn(common.IterativeSolver):
 
         cri = CDU_ConvRepIndexing(self.dsz, S, dimK, self.dimN)
         if self.cri is None or cri.shpS != self.cri.shpS:
-            self.cri = cri
+            # Leave cri undefined until the working arrays have the
+            # corresponding shapes, in case the allocation fails
+            self.cri = None
             if self.opt['CUDA_CBPDN']:
-                if self.cri.Cd > 1 or self.cri.Cx > 1:
+                if cri.Cd > 1 or cri.Cx > 1:
                     raise ValueError('CUDA CBPDN solver can only be used for '
                                      'single channel problems')
-                if self.cri.K > 1:
+                if cri.K > 1:
                     raise ValueError('CUDA CBPDN solver can not be used with '
                                      'mini-batches')
-            self.Df = byte_aligned(rfftn(self.D, self.cri.Nv,
-                                         self.cri.axisN))
+            self.Df = byte_aligned(rfftn(self.D, cri.Nv, cri.axisN))
             self.Gf = empty_aligned(self.Df.shape, self.Df.dtype)
-            self.Z = empty_aligned(self.cri.shpX, self.dtype)
+            self.Z = empty_aligned(cri.shpX, self.dtype)
+            self.cri = cri
         else:
             self.Df[:] = rfftn(self.D, self.cri.Nv, self.cri.axisN)
 
-- 
2.43.0


From 25c2cbf810aa80c14d9c8906ca20f6b58243ebd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:26 +0000
Subject: [PATCH 39/42] fix: options of convolutional dictionary learning with
 different methods do not affect each other

---
 sporco/dictlrn/cbpdndl.py   | 16 +++++++---------
 sporco/dictlrn/cbpdndlmd.py | 16 +++++++---------
 2 files changed, 14 insertions(+), 18 deletions(-)

diff --git a/sporco/dictlrn/cbpdndl.py b/sporco/dictlrn/cbpdndl.py
index 6b6dd62..5d52c74 100644
--- a/sporco/dictlrn/cbpdndl.py
+++ b/sporco/dictlrn/cbpdndl.py
@@ -344,7 +344,9 @@ class ConvBPDNDictLearn(dictlrn.DictLearn):
         """
 
         defaults = copy.deepcopy(dictlrn.DictLearn.Options.defaults)
-        defaults.update({'DictSize': None, 'AccurateDFid': False})
+        defaults.update({'DictSize': None, 'AccurateDFid': False,
+                         'CBPDN': ConvBPDNOptionsDefaults(),
+                         'CCMOD': ConvCnstrMODOptionsDefaults()})
 
 
         def __init__(self, opt=None, xmethod=None, dmethod=None):
@@ -362,19 +364,15 @@ class ConvBPDNDictLearn(dictlrn.DictLearn):
             self.xmethod = xmethod
             self.dmethod = dmethod
 
-            self.defaults.update(
-                {'CBPDN': ConvBPDNOptionsDefaults(xmethod),
-                 'CCMOD': ConvCnstrMODOptionsDefaults(dmethod)})
-
             # Initialisation of CBPDN and CCMOD keys here is required to
             # ensure that the corresponding options have types appropriate
             # for classes in the cbpdn and ccmod modules, and are not just
             # standard entries in the parent option tree
             dictlrn.DictLearn.Options.__init__(self, {
-                'CBPDN': ConvBPDNOptions(self.defaults['CBPDN'],
-                                         method=xmethod),
-                'CCMOD': ConvCnstrMODOptions(self.defaults['CCMOD'],
-                                             method=dmethod)})
+                'CBPDN': ConvBPDNOptions(
+                    ConvBPDNOptionsDefaults(xmethod), method=xmethod),
+                'CCMOD': ConvCnstrMODOptions(
+                    ConvCnstrMODOptionsDefaults(dmethod), method=dmethod)})
 
             if opt is None:
                 opt = {}
diff --git a/sporco/dictlrn/cbpdndlmd.py b/sporco/dictlrn/cbpdndlmd.py
index 524f7da..fb4433a 100644
--- a/sporco/dictlrn/cbpdndlmd.py
+++ b/sporco/dictlrn/cbpdndlmd.py
@@ -350,7 +350,9 @@ class ConvBPDNMaskDictLearn(dictlrn.DictLearn):
         """
 
         defaults = copy.deepcopy(dictlrn.DictLearn.Options.defaults)
-        defaults.update({'DictSize': None, 'AccurateDFid': False})
+        defaults.update({'DictSize': None, 'AccurateDFid': False,
+                         'CBPDN': ConvBPDNMaskOptionsDefaults(),
+                         'CCMOD': ConvCnstrMODMaskOptionsDefaults()})
 
 
         def __init__(self, opt=None, xmethod=None, dmethod=None):
@@ -368,19 +370,15 @@ class ConvBPDNMaskDictLearn(dictlrn.DictLearn):
             self.xmethod = xmethod
             self.dmethod = dmethod
 
-            self.defaults.update(
-                {'CBPDN': ConvBPDNMaskOptionsDefaults(xmethod),
-                 'CCMOD': ConvCnstrMODMaskOptionsDefaults(dmethod)})
-
             # Initialisation of CBPDN and CCMOD keys here is required to
             # ensure that the corresponding options have types appropriate
             # for classes in the cbpdn and ccmod modules, and are not just
             # standard entries in the parent option tree
             dictlrn.DictLearn.Options.__init__(self, {
-                'CBPDN': ConvBPDNMaskOptions(self.defaults['CBPDN'],
-                                             method=xmethod),
-                'CCMOD': ConvCnstrMODMaskOptions(self.defaults['CCMOD'],
-                                                 method=dmethod)})
+                'CBPDN': ConvBPDNMaskOptions(
+                    ConvBPDNMaskOptionsDefaults(xmethod), method=xmethod),
+                'CCMOD': ConvCnstrMODMaskOptions(
+                    ConvCnstrMODMaskOptionsDefaults(dmethod), method=dmethod)})
 
             if opt is None:
                 opt = {}
-- 
2.43.0


From 3aefc82e84b448061c7334bb5b00af74dcd26568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:21 +0000
Subject: [PATCH 40/42] fix: ConvBPDNJoint and ConvProdDictL1L1GrdJoint can be
 constructed with default options

---
 sporco/admm/cbpdn.py | 2 +-
 sporco/admm/pdcsc.py | 3 +++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/sporco/admm/cbpdn.py b/sporco/admm/cbpdn.py
index f37f3ae..64eddad 100644
--- a/sporco/admm/cbpdn.py
+++ b/sporco/admm/cbpdn.py
@@ -776,7 +776,7 @@ class ConvBPDNJoint(ConvBPDN):
         """
 
         if opt is None:
-            opt = ConvBPDN.Options()
+            opt = ConvBPDNJoint.Options()
         super(ConvBPDNJoint, self).__init__(D, S, lmbda, opt, dimK=dimK,
                                             dimN=dimN)
         self.mu = self.dtype.type(mu)
diff --git a/sporco/admm/pdcsc.py b/sporco/admm/pdcsc.py
index 10d138f..51aea2f 100644
--- a/sporco/admm/pdcsc.py
+++ b/sporco/admm/pdcsc.py
@@ -674,6 +674,9 @@ class ConvProdDictL1L1GrdJoint(ConvProdDictL1L1Grd):
           Number of spatial dimensions
         """
 
+        if opt is None:
+            opt = ConvProdDictL1L1GrdJoint.Options()
+
         super(ConvProdDictL1L1GrdJoint, self).__init__(D, B, S, lmbda, mu,
                                             opt=opt, dimK=dimK, dimN=dimN)
         self.wl21 = np.asarray(opt['L21Weight'], dtype=self.dtype)
-- 
2.43.0


From a74169a61f3cf80ca19ad586a80d8c7393ed4b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:52 +0000
Subject: [PATCH 41/42] fix: replacing only the standard dictionary of
 ConvProdDictBPDN updates the data term

---
 sporco/admm/pdcsc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sporco/admm/pdcsc.py b/sporco/admm/pdcsc.py
index 51aea2f..64cb3e4 100644
--- a/sporco/admm/pdcsc.py
+++ b/sporco/admm/pdcsc.py
@@ -116,8 +116,8 @@ class ConvProdDictBPDN(cbpdn.ConvBPDN):
         if D is not None or not hasattr(self, 'Df'):
             self.Df = rfftn(self.D, self.cri.Nv, self.cri.axisN)
             self.DSf = np.conj(self.Df) * self.Sf
-            self.DSfBQ = dot(self.B.dot(self.Q).T, self.DSf,
-                             axis=self.cri.axisC)
+        self.DSfBQ = dot(self.B.dot(self.Q).T, self.DSf,
+                         axis=self.cri.axisC)
 
         # Fold square root of Gamma into the dictionary array to enable
         # use of the solvedbi_sm solver
-- 
2.43.0


From 04afe8e65e706602e9f8ff45c5acf3bb83c88b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:52 +0000
Subject: [PATCH 42/42] fix: AddMaskSim.setdict can be called

---
 sporco/admm/cbpdn.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/sporco/admm/cbpdn.py b/sporco/admm/cbpdn.py
index 64eddad..41e2ddf 100644
--- a/sporco/admm/cbpdn.py
+++ b/sporco/admm/cbpdn.py
@@ -2449,8 +2449,11 @@ class AddMaskSim(object):
     def setdict(self, D=None):
         """Set dictionary array."""
 
-        Di = np.concatenate((D, sl.atleast_nd(D.ndim, self.imp)),
-                            axis=D.ndim-1)
+        if D is None:
+            Di = None
+        else:
+            Di = np.concatenate((D, self.imp.reshape(D.shape[:-1] + (-1,))),
+                                axis=D.ndim-1)
         self.cbpdn.setdict(Di)
 
 
-- 
2.43.0

