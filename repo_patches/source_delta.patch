From 4e7d87d8355b7973d369cf9767ff542b3d9fc51a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:10 +0000
Subject: [PATCH 01/73] fix: load the archive when a store is opened by its
 full file name

---
 package/inference/utils/ioutils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/package/inference/utils/ioutils.py b/package/inference/utils/ioutils.py
index ea9e41b..3741c8b 100644
--- a/package/inference/utils/ioutils.py
+++ b/package/inference/utils/ioutils.py
@@ -109,7 +109,7 @@ class ArrayStore(object):
         if fname:
             if not fname.endswith('.npz'):
                 fname = fname + '.npz'
-                self._npz = load(fname)
+            self._npz = load(fname)
         else:
             self._npz = None
         self._fname = fname
@@ -239,9 +239,9 @@ class AttrStore(object):
         if fname:
             if not fname.endswith('.pkl'):
                 fname = fname + '.pkl'
-                ifile = open(fname, 'rb')
-                self._archive = pkl.load(ifile)
-                ifile.close()
+            ifile = open(fname, 'rb')
+            self._archive = pkl.load(ifile)
+            ifile.close()
         else:
             self._archive = None
         self._fname = fname
-- 
2.43.0


From 6a7921912cb27b5d3a5ddd3ee6cf579738157d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:10 +0000
Subject: [PATCH 02/73] fix: store contents() lists names of new attributes,
 not their values

---
 package/inference/utils/ioutils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/package/inference/utils/ioutils.py b/package/inference/utils/ioutils.py
index 3741c8b..0cdcdb2 100644
--- a/package/inference/utils/ioutils.py
+++ b/package/inference/utils/ioutils.py
@@ -201,7 +201,7 @@ class ArrayStore(object):
         names = []
         if self._npz:
             names.extend(self._npz.files)  # archive file names will be array names
-        names.extend(list(self._new.values()))
+        names.extend([name for name in self._new if name not in names])
         return names
 
 
@@ -335,7 +335,7 @@ class AttrStore(object):
         names = []
         if self._archive:
             names.extend(list(self._archive.keys()))
-        names.extend(list(self._new.values()))
+        names.extend([name for name in self._new if name not in names])
         return names
 
 
-- 
2.43.0


From 794c67dfe2e25a38489d45e59407022961c63a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:10 +0000
Subject: [PATCH 03/73] fix: report failures to read an archived attribute
 instead of calling it missing

---
 package/inference/utils/ioutils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/package/inference/utils/ioutils.py b/package/inference/utils/ioutils.py
index 0cdcdb2..aff0dad 100644
--- a/package/inference/utils/ioutils.py
+++ b/package/inference/utils/ioutils.py
@@ -132,7 +132,7 @@ class ArrayStore(object):
                 object.__setattr__(self, name, value)
                 self._archived[name] = value
                 return value
-            except:
+            except KeyError:
                 raise AttributeError(name)
 
     def __setattr__(self, name, value):
@@ -267,7 +267,7 @@ class AttrStore(object):
                 object.__setattr__(self, name, value)
                 self._pulled[name] = value
                 return value
-            except:
+            except KeyError:
                 raise AttributeError(name)
 
     def __setattr__(self, name, value):
-- 
2.43.0


From 0b9c1fca2997f6ec7ba193872aa750e18b4e9a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:10 +0000
Subject: [PATCH 04/73] fix: keep existing versions of a store when saving a
 new one fails

---
 package/inference/utils/ioutils.py | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/package/inference/utils/ioutils.py b/package/inference/utils/ioutils.py
index aff0dad..c229dab 100644
--- a/package/inference/utils/ioutils.py
+++ b/package/inference/utils/ioutils.py
@@ -44,6 +44,24 @@ def safe_open(fname, binary=False, opener=None, *args, **kwds):
             fobj = open(fname, 'w')
     return fobj
 
+def _save_file(fname, write):
+    """
+    Create a new version of the binary file fname by calling write(fobj),
+    backing up an existing version up to two levels.  The new version is
+    first written to a temporary file, so that existing versions are left
+    alone if it cannot be written completely.
+    """
+    tname = fname + '.tmp'
+    try:
+        with open(tname, 'wb') as fobj:
+            write(fobj)
+        backup(fname)
+        os.rename(tname, fname)
+    except:
+        if path.exists(tname):
+            os.remove(tname)
+        raise
+
 def read_column_vectors(dfile, types, as_arrays=True):
     """
     Read vectors of scalar-valued data stored as whitespace-delimited strings
@@ -190,8 +208,7 @@ class ArrayStore(object):
         for name, val in list(self._new.items()):
             arrays[name] = val
         # Backup any existing file, and save the arrays to a new file.
-        backup(fname)
-        savez(fname, **arrays)
+        _save_file(fname, lambda fobj: savez(fobj, **arrays))
 
     def contents(self):
         """
@@ -323,9 +340,8 @@ class AttrStore(object):
         for name, val in list(self._new.items()):
             attrs[name] = val
         # Backup any existing file, and save the attrs to a new file.
-        ofile = safe_open(fname, 'b')
-        pkl.dump(attrs, ofile, -1)  # use highest protocol
-        ofile.close()
+        # Use the highest pickle protocol.
+        _save_file(fname, lambda fobj: pkl.dump(attrs, fobj, -1))
 
     def contents(self):
         """
-- 
2.43.0


From fce86beaea97e3f949cf9393e6d3a6fefb47a830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:10 +0000
Subject: [PATCH 05/73] fix: pass keyword arguments to the opener in safe_open

---
 package/inference/utils/ioutils.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/package/inference/utils/ioutils.py b/package/inference/utils/ioutils.py
index c229dab..b83a69e 100644
--- a/package/inference/utils/ioutils.py
+++ b/package/inference/utils/ioutils.py
@@ -33,10 +33,7 @@ def safe_open(fname, binary=False, opener=None, *args, **kwds):
     """
     backup(fname)
     if opener:
-        if args:
-            fobj = opener(fname, *args, **kwds)
-        else:
-            fobj = opener(fname)
+        fobj = opener(fname, *args, **kwds)
     else:
         if binary is True or binary == 'b':
             fobj = open(fname, 'wb')
-- 
2.43.0


From 87abc472be215c64ee453e1a54ac7897d0b1387a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:10 +0000
Subject: [PATCH 06/73] fix: import array in ioutils for read_column_vectors

---
 package/inference/utils/ioutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/package/inference/utils/ioutils.py b/package/inference/utils/ioutils.py
index b83a69e..06b55a9 100644
--- a/package/inference/utils/ioutils.py
+++ b/package/inference/utils/ioutils.py
@@ -1,7 +1,7 @@
 import os
 import os.path as path
 import pickle as pkl
-from numpy import ndarray, savez, load
+from numpy import array, ndarray, savez, load
 
 __all__ = ['backup', 'safe_open', 'ArrayStore', 'AttrStore']
 
-- 
2.43.0


From e36c372afcb0eec4ef3d58058cab6d5ed0e8ffb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:02 +0000
Subject: [PATCH 07/73] fix: open RNG state files in binary mode

---
 package/inference/utils/rng.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/package/inference/utils/rng.py b/package/inference/utils/rng.py
index 80d1e94..e02dd28 100644
--- a/package/inference/utils/rng.py
+++ b/package/inference/utils/rng.py
@@ -24,7 +24,7 @@ def save_rng(fname='.numpy-rng-state'):
             fname2 = fname + '.2'
             os.rename(fname1, fname2)
         os.rename(fname, fname1)
-    ofile = open(fname, 'w')
+    ofile = open(fname, 'wb')
     pickle.dump((id, state), ofile)
     ofile.close()
     
@@ -35,7 +35,7 @@ def restore_rng(fname='.numpy-rng-state', notify=True):
     The default file name is '.numpy-rng-state'.
     """
     if os.access(fname, os.R_OK | os.W_OK):
-        rng_file = open(fname, 'r')
+        rng_file = open(fname, 'rb')
         id, state = pickle.load(rng_file)
         rng_file.close()
         if id == MT_id:
-- 
2.43.0


From 2a5c81873a4dfec72d4035b01eac8b8697bb39b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:02 +0000
Subject: [PATCH 08/73] fix: save and restore the cached normal deviate with
 the RNG state

---
 package/inference/utils/rng.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/package/inference/utils/rng.py b/package/inference/utils/rng.py
index e02dd28..5bea4b9 100644
--- a/package/inference/utils/rng.py
+++ b/package/inference/utils/rng.py
@@ -15,7 +15,7 @@ def save_rng(fname='.numpy-rng-state'):
     """
     state = random.get_state()
     if state[0] == MT_id:
-        id, state = state[0], (state[1], state[2]) # (ID, (key, pos)) for MT
+        id, state = state[0], tuple(state[1:]) # (ID, (key, pos, ...)) for MT
     else:
         raise RuntimeError('numpy.random using unrecognized RNG type!')
     if path.exists(fname):
@@ -43,7 +43,7 @@ def restore_rng(fname='.numpy-rng-state', notify=True):
             if notify:
                 print('Recovered RNG state:  %s [%s %s ...] %i' %\
             	    (id, repr(state[0][0]), repr(state[0][1]), state[1]))
-            random.set_state((id, state[0], state[1]))
+            random.set_state((id,) + tuple(state))
         else:
             raise ValueError('Invalid ID for RNG in %s!' % fname)
     else:
-- 
2.43.0


From 7beae02d52c30fa48b2800a15a5377d6fa823383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:02 +0000
Subject: [PATCH 09/73] fix: keep the saved RNG states when saving a new one
 fails

---
 package/inference/utils/rng.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/package/inference/utils/rng.py b/package/inference/utils/rng.py
index 5bea4b9..02fd5e9 100644
--- a/package/inference/utils/rng.py
+++ b/package/inference/utils/rng.py
@@ -18,15 +18,22 @@ def save_rng(fname='.numpy-rng-state'):
         id, state = state[0], tuple(state[1:]) # (ID, (key, pos, ...)) for MT
     else:
         raise RuntimeError('numpy.random using unrecognized RNG type!')
+    # Write the new state completely before touching the previous ones.
+    tname = fname + '.tmp'
+    try:
+        with open(tname, 'wb') as ofile:
+            pickle.dump((id, state), ofile)
+    except:
+        if path.exists(tname):
+            os.remove(tname)
+        raise
     if path.exists(fname):
         fname1 = fname + '.1'
         if path.exists(fname1):
             fname2 = fname + '.2'
             os.rename(fname1, fname2)
         os.rename(fname, fname1)
-    ofile = open(fname, 'wb')
-    pickle.dump((id, state), ofile)
-    ofile.close()
+    os.rename(tname, fname)
     
 def restore_rng(fname='.numpy-rng-state', notify=True):
     """
-- 
2.43.0


From 613aa93bd7e79da50f7a5eece8416cdc41f6c42a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:31 +0000
Subject: [PATCH 10/73] fix: don't alter the caller's arrays in dllsteps and
 obsinfo

---
 package/inference/deriv/obsinfo.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/package/inference/deriv/obsinfo.py b/package/inference/deriv/obsinfo.py
index 74ab0b4..870d5d8 100644
--- a/package/inference/deriv/obsinfo.py
+++ b/package/inference/deriv/obsinfo.py
@@ -3,6 +3,7 @@ obsinfo - Tools for calculating the observed Fisher information matrix
 from log-likelihood functions.
 """
 
+from numpy import array
 from ._obsinfo import pk_scales, ninfol
 
 __all__ = ['dllsteps', 'obsinfo']
@@ -23,6 +24,8 @@ def dllsteps(loglike, mle, guess, dll=1., maxll=None, maxiter=20, tol=0.01):
     maxiter =   maximum number of iterations
     tol     =   tolerance (% of dll) for convergence
     """
+    # The Fortran code works in place; don't let it change the caller's arrays.
+    mle, guess = array(mle, float), array(guess, float)
     if maxll is None:
         maxll = loglike(mle)
     deltas, status = pk_scales(loglike, mle, maxll, dll, guess, maxiter, tol)
@@ -64,6 +67,7 @@ def obsinfo(loglike, mle, deltas, maxll=None, niter=2):
     # Note ninfol interprets # of iterations as # of sets of 2nd differences
     # to use, not # of Richardson extrapolation steps (i.e., #=1 corresponds
     # to plain 2nd differences, with no extrapolation).
+    mle = array(mle, float)  # altered in place by ninfol
     if maxll is None:
         maxll = loglike(mle)
     return ninfol(loglike, mle, maxll, deltas, niter+1)
-- 
2.43.0


From 7a0c238fee39739e7e529331d458fd79f93722b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:31 +0000
Subject: [PATCH 11/73] fix: give up expanding a step along which the log
 likelihood is flat

---
 package/inference/deriv/_obsinfo.f | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/package/inference/deriv/_obsinfo.f b/package/inference/deriv/_obsinfo.f
index acfe4ee..7a3cc9a 100644
--- a/package/inference/deriv/_obsinfo.f
+++ b/package/inference/deriv/_obsinfo.f
@@ -55,7 +55,7 @@ cf2py intent(in,out) dx
 cf2py intent(out) status
 
 c+++  Locals:
-        integer i, nit
+        integer i, nit, nexp
         real*8 f_c, s, x0, fnew, del, fp, dfdx
 
         status = 1
@@ -71,6 +71,7 @@ c---  Loop thru the parameters.
 c===  For first guess, use a quadratic approximation.
             s = 1.
             x0 = x(i)
+            nexp = 0
 10          x(i) = x0 + s*dx(i)
             fnew = f(n, x)
 c            print *, 'guess: ', i, x0, x(i), fnew
@@ -81,6 +82,11 @@ c            print *, 'guess: ', i, x0, x(i), fnew
             del = fmax - fnew
             if (del .le. 0.) then
                 s = 1.3 * s
+                nexp = nexp + 1
+                if (nexp .gt. 200) then
+                    status = 3
+                    return
+                endif
                 go to 10
             endif
             x(i) = x0 + s*dx(i) * sqrt(df/del)
-- 
2.43.0


From ba5771530d0b4eccfb4a0cd7080c94d5e1652acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:31 +0000
Subject: [PATCH 12/73] fix: stop bracketing when the function no longer
 decreases

---
 package/inference/utils/nrmin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/package/inference/utils/nrmin.py b/package/inference/utils/nrmin.py
index 7dbd9e2..9e0649a 100644
--- a/package/inference/utils/nrmin.py
+++ b/package/inference/utils/nrmin.py
@@ -20,7 +20,7 @@ class MinBracket:
         self.x2 = self.xm + GOLD*(self.xm - self.x1)
         self.f2 = f(self.x2)
         while 1:
-            if (self.fm < self.f2):
+            if not (self.fm > self.f2):
                 break
             d1 = (self.xm - self.x1)
             d2 = (self.xm - self.x2)
-- 
2.43.0


From c60c7b68e754afba4d1e757eba80b6b2b040fda4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:31 +0000
Subject: [PATCH 13/73] fix: don't alter the caller's directions in powell

---
 package/inference/utils/nrmin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/package/inference/utils/nrmin.py b/package/inference/utils/nrmin.py
index 9e0649a..eaa429e 100644
--- a/package/inference/utils/nrmin.py
+++ b/package/inference/utils/nrmin.py
@@ -182,7 +182,7 @@ def powell(f, p, drxns=None, ftol=1.e-6, maxit=200, nlog=None, shuffle=False):
     n = len(p)
     if drxns is None:
         drxns = identity(n)
-        drxns = array(drxns, float)
+    drxns = array(drxns, float)  # a copy, since directions get replaced
     if shuffle:
         vec = drxns[0].copy()  # must copy!
         for i in range(n-1):
-- 
2.43.0


From 4e78e89112d4d83e205ec21570f0061f4a4f4564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:31 +0000
Subject: [PATCH 14/73] fix: honour maxfac and wrkfac in adapt, and report
 invalid arguments

---
 package/inference/integrate/adapt.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/package/inference/integrate/adapt.py b/package/inference/integrate/adapt.py
index 241ee2d..63e4e48 100644
--- a/package/inference/integrate/adapt.py
+++ b/package/inference/integrate/adapt.py
@@ -60,7 +60,7 @@ def adapt_sizes(ndim, maxfac=100):
   """
   rulcls = 2**ndim + 2*ndim**2 + 6*ndim + 1
   minpts, maxpts = rulcls, maxfac*rulcls
-  lenwrk = (2*ndim + 3) * (1 + maxfac) / 2
+  lenwrk = (2*ndim + 3) * (1 + maxfac) // 2
   return minpts, maxpts, lenwrk
 
 
@@ -82,7 +82,8 @@ def adapt(func, lower, upper, relacc, maxfac=100, wrkfac=1):
     err = estimate of relative error of result
     ntps = # of function evaluations used
   """
-  minpts, maxpts, lenwrk = adapt_sizes(len(lower))
+  minpts, maxpts, lenwrk = adapt_sizes(len(lower), maxfac)
+  lenwrk = wrkfac*lenwrk
   npts, err, result, ifail = _adapt.adapt(lower, upper, minpts, maxpts,
                                           func, relacc, lenwrk)
   if ifail == 0:
@@ -91,3 +92,5 @@ def adapt(func, lower, upper, relacc, maxfac=100, wrkfac=1):
     raise RuntimeError('Failed to achieve specified accuracy; increase maxfac!')
   elif ifail == 2:
     raise RuntimeError('Failed to achieve specified accuracy; increase wrkfac!')
+  else:
+    raise ValueError('Invalid dimension or maxfac!')
-- 
2.43.0


From a4b26a512cfb5e25bbeec98ec614f2577b062b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:31 +0000
Subject: [PATCH 15/73] fix: use integer sizes in adapt_vec

---
 package/inference/integrate/adapt_vec.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/package/inference/integrate/adapt_vec.py b/package/inference/integrate/adapt_vec.py
index ff8f1e6..01c7384 100644
--- a/package/inference/integrate/adapt_vec.py
+++ b/package/inference/integrate/adapt_vec.py
@@ -39,14 +39,14 @@ def adapt_vec(nfuncs, vfunc, lower, upper, releps,
         num = 127
     elif (key == 0 and ndim >= 3) or key == 3:
         num = 1 + 8*ndim + 2*ndim*(ndim-1) + 4*ndim*(ndim-1) + \
-            4*ndim*(ndim-1)*(ndim-2)/3 + 2**ndim
+            4*ndim*(ndim-1)*(ndim-2)//3 + 2**ndim
     elif key == 4:
         num = 1 + 6*ndim + 2*ndim*(ndim-1) + 2**ndim
     else:
         raise ValueError('Illegal key value!')
 
     # Calculate the max number of subregions, and workspace size.
-    maxsub = (maxpts-num)/(2*num) + 1
+    maxsub = (maxpts-num)//(2*num) + 1
     nw = maxsub*(2*ndim+2*nfuncs+2) + 17*nfuncs + 1
     work = zeros(nw, float)
     print('Rule size, max subregions, workspace size:', num, maxsub, nw)
-- 
2.43.0


From 56a6e6c3ba9d302bb3003943e904bcf3b3e59efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:54:46 +0000
Subject: [PATCH 16/73] fix: don't leave a partly evaluated grid behind when
 the function fails

---
 package/inference/grid/grid1d.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/package/inference/grid/grid1d.py b/package/inference/grid/grid1d.py
index 39f8fe7..aeea6e3 100644
--- a/package/inference/grid/grid1d.py
+++ b/package/inference/grid/grid1d.py
@@ -510,6 +510,9 @@ class BasicGrid1D:
         in the list of maxima.
         The notify parameter allows monitoring of progress."""
 
+        # Work on a new array, so that an error in func can't leave behind a
+        # partly evaluated grid (or one with values from a previous func).
+        self.vals, self.valSeq = None, None
         x1, x2 = None, None
         for i in range(self.n):
             if i == self.n-1:  # Avoid roundoff error at the endpoint.
@@ -527,16 +530,16 @@ class BasicGrid1D:
                     if select is None:
                         raise ValueError("must set select!")
                     self.valSeq = len(f)
-                    self.vals = zeros((self.n, self.valSeq), float)
+                    vals = zeros((self.n, self.valSeq), float)
                 else:
-                    self.vals = zeros((self.n), float)
-                self.vals[i] = f
+                    vals = zeros((self.n), float)
+                vals[i] = f
             else:
-                self.vals[i] = func(x)
+                vals[i] = func(x)
 
             if notify:
                 if i % notify == 0:
-                    print(i, x, self.vals[i])
+                    print(i, x, vals[i])
 
         # Here is the check for a local maximum, with special treatment for
         # possible "half peaks" at the ends.  These have fudged params
@@ -544,9 +547,9 @@ class BasicGrid1D:
 #*** check the endpt trtmt.
             if self.lml is not None and i > 1:
                 if self.valSeq:
-                    y3 = self.vals[i-2:i+1, select]
+                    y3 = vals[i-2:i+1, select]
                 else:
-                    y3 = self.vals[i-2:i+1]
+                    y3 = vals[i-2:i+1]
                 if IsPeak(y3):
                     logA, mean, sig = PeakParams((x1, x2, x), y3)
                     area = logA + log(sig*rt2pi)
@@ -574,6 +577,7 @@ class BasicGrid1D:
                         msr = area
                     self.lml.update(msr, (i, logA, mean, sig))
             x1, x2 = x2, x
+        self.vals = vals
 
 #*** test treatment of endpoints, which was just copied from above
     def vecfunc(self, func, select=None):
-- 
2.43.0


From d0ec84b7652c0398213dea416cb1efd9e231e4a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:54:46 +0000
Subject: [PATCH 17/73] fix: discard the results of previous or failed passes
 in Grid1D

---
 package/inference/grid/grid1d.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/package/inference/grid/grid1d.py b/package/inference/grid/grid1d.py
index aeea6e3..93163e7 100644
--- a/package/inference/grid/grid1d.py
+++ b/package/inference/grid/grid1d.py
@@ -885,9 +885,22 @@ class Grid1D:
     def firstpass(self, f, select=None, notify=None):
         """Apply func on the base grid."""
 
+        # Forget the results of any previous pass.
+        self.func = None
+        self.lml.list = []
+        self._unrefine()
+
+        self.base.stepfunc(f, select=select, notify=notify)
         self.func = f
         self.select = select
-        self.base.stepfunc(f, select=select, notify=notify)
+
+    def _unrefine(self):
+        """Reset the list of intervals to just the base interval."""
+
+        base = self.base
+        self.ilist = RefinedIntervalList1D(base.lo, base.hi, base.n, self.stype)
+        self.totpts = base.n
+        self.glist = [base]
 
     def refine(self, dynrange=None, notify=None):
         """Refine the grid at the maxima.
@@ -902,7 +915,8 @@ class Grid1D:
         if dynrange:
             self.lml.limitRange(dynrange)
 
-        # First, refine the interval list.
+        # First, refine the interval list, starting from the base interval.
+        self._unrefine()
         for (A, label) in self.lml:
             lo = label[2] - self.nsig*label[3]
             hi = label[2] + self.nsig*label[3]
-- 
2.43.0


From 9a8999c47eb125c0b277062037e7cab2f71c2c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:54:46 +0000
Subject: [PATCH 18/73] fix: repair Grid1D iteration and moment-free quadrature

---
 package/inference/grid/grid1d.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/package/inference/grid/grid1d.py b/package/inference/grid/grid1d.py
index 93163e7..523043e 100644
--- a/package/inference/grid/grid1d.py
+++ b/package/inference/grid/grid1d.py
@@ -874,13 +874,8 @@ class Grid1D:
         return self.glist[i].point(indx)
 
     def __iter__(self):
-        i = 0
-        while 1:
-            try:
-                yield self.__getitem__[i]
-            except IndexError:
-                raise StopIteration
-            i += 1
+        for i in range(self.totpts):
+            yield self[i]
 
     def firstpass(self, f, select=None, notify=None):
         """Apply func on the base grid."""
@@ -986,7 +981,7 @@ class Grid1D:
         the 1st and/or 2nd moments."""
 
         if not nmom:
-            return self.trapzd_log(select)
+            return self.logtrapzd(select)
 
         # Sum over the refined grids taking care to avoid overflows.
         vals = []
-- 
2.43.0


From ebfb23b935ea03eb37184ce9b09f4edd82944705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:54:46 +0000
Subject: [PATCH 19/73] fix: record an HPD level only together with its bounds

---
 package/inference/grid/hpd.py     | 6 +++---
 package/inference/grid/hpdgrid.py | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/package/inference/grid/hpd.py b/package/inference/grid/hpd.py
index c783d9f..881d472 100644
--- a/package/inference/grid/hpd.py
+++ b/package/inference/grid/hpd.py
@@ -173,14 +173,14 @@ class HPD1D(object):
         # print 'Bracket:', lr1, lr2
         logratio = float(brentq(self._diff, lr1, lr2, xtol=tol))
         # print repr(logratio)
-        self.probs.append(p)
-        self.deltas.append(logratio)
-        self.levels.append(self.max+logratio)
         # 10 is the max # boundaries; it should handle pretty bumpy PDFs!
         bounds, nb, ok = xvalues(self.xvals, self.logpdf-self.max, logratio, 10)
         if not ok:
             raise RuntimeError('Too many boundary points in PDF!')
         bounds = bounds[:nb]
+        self.probs.append(p)
+        self.deltas.append(logratio)
+        self.levels.append(self.max+logratio)
         self.bounds.append(bounds)
         return logratio, bounds
 
diff --git a/package/inference/grid/hpdgrid.py b/package/inference/grid/hpdgrid.py
index 5a4338c..6aec084 100644
--- a/package/inference/grid/hpdgrid.py
+++ b/package/inference/grid/hpdgrid.py
@@ -183,14 +183,14 @@ class HPDGrid1D(object):
         # print 'Bracket:', lr1, lr2
         logratio = float(brentq(self._diff, lr1, lr2, xtol=tol))
         # print repr(logratio)
-        self.probs.append(p)
-        self.deltas.append(logratio)
-        self.levels.append(self.max+logratio)
         # 10 is the max # boundaries; it should handle pretty bumpy PDFs!
         bounds, nb, ok = xvalues(self.xvals, self.logpdf-self.max, logratio, 10)
         if not ok:
             raise RuntimeError('Too many boundary points in PDF!')
         bounds = bounds[:nb]
+        self.probs.append(p)
+        self.deltas.append(logratio)
+        self.levels.append(self.max+logratio)
         self.bounds.append(bounds)
         return logratio, bounds
 
-- 
2.43.0


From cef0690cf130c1808d42910fe82079fcd3d13ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:54:46 +0000
Subject: [PATCH 20/73] fix: check the number of upward crossings in xvalues

---
 package/inference/grid/_gridquad.f | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/package/inference/grid/_gridquad.f b/package/inference/grid/_gridquad.f
index 94366de..349021d 100644
--- a/package/inference/grid/_gridquad.f
+++ b/package/inference/grid/_gridquad.f
@@ -102,6 +102,10 @@ cf2py intent(out) xvals, nx, ok
 	do 20 i=1, n-1
 	    if (yarr(i) .lt. ycrit .and. yarr(i+1) .gt. ycrit) then
 	        nx = nx + 1
+	        if (nx .gt. nxvmax) then
+	            ok = .false.
+	            return
+	        endif
 	        xvals(nx) = xarr(i) + (xarr(i+1)-xarr(i)) *
      *            (ycrit - yarr(i)) / (yarr(i+1) - yarr(i))
 	    else if (yarr(i+1) .lt. ycrit .and. yarr(i) .gt. ycrit) then
-- 
2.43.0


From fa5c335406981a17c54ebdaa108d5f7c542aec0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:54:46 +0000
Subject: [PATCH 21/73] fix: store the upper y bound of an HPD2D grid

---
 package/inference/grid/hpd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/package/inference/grid/hpd.py b/package/inference/grid/hpd.py
index 881d472..35182d7 100644
--- a/package/inference/grid/hpd.py
+++ b/package/inference/grid/hpd.py
@@ -221,7 +221,7 @@ class HPD2D(object):
             self.dx = log(xhi/xlo)/(self.nx-1)
         else:
             raise ValueError('Invalid xstep type!')
-        self.ylo, selfyxhi = ylo, yhi
+        self.ylo, self.yhi = ylo, yhi
         self.ny = logpdf.shape[1]
         if ystep == 'linear' or ystep == 'lin':
             self.ylinstep = True
-- 
2.43.0


From 5da949bd4796ec33b10e087f0955745ae5987b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:37 +0000
Subject: [PATCH 22/73] fix: do not report success from adapt_vec with NaN
 error estimates

---
 package/inference/integrate/adapt_vec.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/package/inference/integrate/adapt_vec.py b/package/inference/integrate/adapt_vec.py
index 01c7384..3f382e9 100644
--- a/package/inference/integrate/adapt_vec.py
+++ b/package/inference/integrate/adapt_vec.py
@@ -1,4 +1,4 @@
-from numpy import zeros
+from numpy import isnan, zeros
 from ._dcuhre import dcuhre
 
 __all__ = ['adapt_vec']
@@ -58,6 +58,10 @@ def adapt_vec(nfuncs, vfunc, lower, upper, releps,
     result, abserr, neval, ifail = dcuhre(nfuncs, lower, upper, minpts,
                                           maxpts, vfunc, abseps, releps, key, restart, result, work)
 
+    # NaN error estimates (from a non-finite integrand) pass dcuhre's tests.
+    if ifail == 0 and isnan(abserr).any():
+        ifail = 1
+
     if ifail == 0:
         return result, abserr, neval
     elif ifail == 1:
-- 
2.43.0


From 96797a544d43b697987969b717cbd8eae24da9f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:37 +0000
Subject: [PATCH 23/73] fix: do not accept a NaN log likelihood as convergence
 in pk_scales

---
 package/inference/deriv/_obsinfo.f | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/package/inference/deriv/_obsinfo.f b/package/inference/deriv/_obsinfo.f
index 7a3cc9a..413e93e 100644
--- a/package/inference/deriv/_obsinfo.f
+++ b/package/inference/deriv/_obsinfo.f
@@ -105,7 +105,7 @@ c       write(9,'(i5,2(1pg12.4))') nit, x(i), fnew
                 status = 3
                 return
             endif
-            if (abs(fnew-f_c) .gt. tol) then
+            if (.not. (abs(fnew-f_c) .le. tol)) then
                 x(i) = x(i) + s*dx(i)
                 fp = f(n, x)
                 if (fp .gt. fmax) then
-- 
2.43.0


From a5f65b2c4717e50b76e289767e797a1ab0010cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:14:29 +0000
Subject: [PATCH 24/73] fix: do not report success from adapt_vec with infinite
 error estimates

---
 package/inference/integrate/adapt_vec.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/package/inference/integrate/adapt_vec.py b/package/inference/integrate/adapt_vec.py
index 3f382e9..f83cf15 100644
--- a/package/inference/integrate/adapt_vec.py
+++ b/package/inference/integrate/adapt_vec.py
@@ -1,4 +1,4 @@
-from numpy import isnan, zeros
+from numpy import isfinite, zeros
 from ._dcuhre import dcuhre
 
 __all__ = ['adapt_vec']
@@ -58,8 +58,9 @@ def adapt_vec(nfuncs, vfunc, lower, upper, releps,
     result, abserr, neval, ifail = dcuhre(nfuncs, lower, upper, minpts,
                                           maxpts, vfunc, abseps, releps, key, restart, result, work)
 
-    # NaN error estimates (from a non-finite integrand) pass dcuhre's tests.
-    if ifail == 0 and isnan(abserr).any():
+    # Non-finite error estimates (from a non-finite integrand) can pass dcuhre's
+    # tests.
+    if ifail == 0 and not isfinite(abserr).all():
         ifail = 1
 
     if ifail == 0:
-- 
2.43.0


From 79de0b7e9ed267dfd393a704da3445ac6cef6334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:32 +0000
Subject: [PATCH 25/73] fix: remove the listener in ParamHandler.del_listener

---
 package/inference/pie/param.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/package/inference/pie/param.py b/package/inference/pie/param.py
index f8a3113..a427767 100644
--- a/package/inference/pie/param.py
+++ b/package/inference/pie/param.py
@@ -164,7 +164,7 @@ class ParamHandler(object):
 
     def del_listener(self, listener):
         try:
-            self.listener.remove(listener)
+            self.listeners.remove(listener)
         except ValueError:
             pass
 
-- 
2.43.0


From 3ccf58833b139720811bc1e5f9b6303df5b2f638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:32 +0000
Subject: [PATCH 26/73] fix: let linstep and logstep default to the allowed
 range, and check before changing

---
 package/inference/pie/realparam.py | 56 ++++++++++++++----------------
 1 file changed, 26 insertions(+), 30 deletions(-)

diff --git a/package/inference/pie/realparam.py b/package/inference/pie/realparam.py
index df6e6ed..bb3548e 100644
--- a/package/inference/pie/realparam.py
+++ b/package/inference/pie/realparam.py
@@ -117,25 +117,32 @@ class RealParamHandler(ScalarParamHandler):
 
     # *** Perhaps make these so a single (unnamed) arg -> set n over current range.
 
+    def _step_range(self, lo, hi):
+        """
+        The ends of a step range, defaulting to the parameter's allowed range.
+        """
+        if not self.bounded:
+            if lo is None or hi is None:
+                raise ValueError('Need a range for stepping parameter!')
+            return lo, hi
+        if lo is None:
+            lo = self.lo
+        if hi is None:
+            hi = self.hi
+        if lo < self.lo or lo > self.hi:
+            raise ParamRangeError("lo step out of parameter's allowed range!")
+        if hi < self.lo or hi > self.hi:
+            raise ParamRangeError("hi step out of parameter's allowed range!")
+        return lo, hi
+
     def linstep(self, lo=None, hi=None, n=10):
         """Step from lo to hi (inclusive) in n equal steps."""
-        if self.bounded and lo != None:
-            if lo < self.lo or lo > self.hi:
-                raise ParamRangeError("lo step out of parameter's allowed range!")
-        if self.bounded and hi != None:
-            if hi < self.lo or hi > self.hi:
-                raise ParamRangeError("hi step out of parameter's allowed range!")
+        lo, hi = self._step_range(lo, hi)
+        delta = (hi-lo)/(n-1.)
         self.stype = lin_steps
-        if lo is None:
-            self.slo = self.lo
-        else:
-            self.slo = lo
-        if hi is None:
-            self.shi = self.hi
-        else:
-            self.shi = hi
+        self.slo, self.shi = lo, hi
         self.steps = n
-        self.delta = (hi-lo)/(n-1.)
+        self.delta = delta
         self.step_num = 0
         self._set_value(lo)
         self._set_status(stepping)
@@ -146,25 +153,14 @@ class RealParamHandler(ScalarParamHandler):
 
     def logstep(self, lo=None, hi=None, n=10):
         """Step from lo to hi (inclusive) in n logarithmic steps."""
-        if self.bounded and lo != None:
-            if lo < self.lo or lo > self.hi:
-                raise ParamRangeError("lo step out of parameter's allowed range!")
-        if self.bounded and hi != None:
-            if hi < self.lo or hi > self.hi:
-                raise ParamRangeError("hi step out of parameter's allowed range!")
+        lo, hi = self._step_range(lo, hi)
         if lo*hi <= 0.:
             raise ValueError('Illegal (lo,hi) for log stepping (need same sign)!')
+        fac = exp(log(hi/lo)/(n-1.))
         self.stype = log_steps
-        if lo:
-            self.slo = lo
-        else:
-            self.slo = self.lo
-        if hi:
-            self.shi = hi
-        else:
-            self.shi = self.hi
+        self.slo, self.shi = lo, hi
         self.steps = n
-        self.fac = exp(log(hi/lo)/(n-1.))
+        self.fac = fac
         self.step_num = 0
         self._set_value(lo)
         self._set_status(stepping)
-- 
2.43.0


From b054062f4a2be2880f5a6d7bf829fad2dd23c0bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:32 +0000
Subject: [PATCH 27/73] fix: verify the arguments of vary before changing the
 parameter

---
 package/inference/pie/realparam.py | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/package/inference/pie/realparam.py b/package/inference/pie/realparam.py
index bb3548e..b8d6684 100644
--- a/package/inference/pie/realparam.py
+++ b/package/inference/pie/realparam.py
@@ -223,23 +223,26 @@ class RealParamHandler(ScalarParamHandler):
         return self.step_num
 
     def vary(self, start=None, delta=None, range=None):
-        if not range:
-            if not self.bounded:
-                raise ValueError('Need a range for varying parameter!')
+        # Verify all arguments before changing anything.
+        if range:
+            lo, hi = float(min(range)), float(max(range))
+        elif self.bounded:
+            lo, hi = self.lo, self.hi
         else:
-            self.range(range)
+            raise ValueError('Need a range for varying parameter!')
+        if delta is None and self.delta is None:
+            # *** Perhaps use a default delta (& warn if so)?
+            raise ValueError('Need a delta for varying parameter!')
+        if start is not None and not (start >= lo and start <= hi):
+            raise ParamRangeError("Value out of parameter's allowed range!")
+        if start is None and self._value is None:
+            raise ValueError('Need a start value for varying parameter!')
+        self.range(lo, hi)
         if delta is not None:
             self.delta = delta
-        else:  # *** Perhaps use a default delta (& warn if so)?
-            if self.delta == None:
-                raise ValueError('Need a delta for varying parameter!')
         self._set_status(varying)
-        # *** Can harm be done by setting status before verifying
-        # the start value?
-        if start != None:
-            self.set_value(start)  # Note: this will verify in range.
-        elif self._value == None:
-            raise ValueError('Need a start value for varying parameter!')
+        if start is not None:
+            self.set_value(start)
 
     def check(self, percent=1.):
         if self.status != varying:
-- 
2.43.0


From b5f6f4f84c46b906603ec7cc0848d96ea9994836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:32 +0000
Subject: [PATCH 28/73] fix: update the parameter lists before resetting steps

---
 package/inference/pie/inference_base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/package/inference/pie/inference_base.py b/package/inference/pie/inference_base.py
index 3e96ac2..a06739c 100644
--- a/package/inference/pie/inference_base.py
+++ b/package/inference/pie/inference_base.py
@@ -224,12 +224,13 @@ class Inference(HasAutoNamed):
                 self.reset_steps()
         if old == stepping:
             self.stepping_params.remove(param)
-            self.reset_steps()
             del(self.stepping_info[param])
             if new == fixed:
                 self.fixed_params.append(param)
             elif new == varying:
                 self.varying_params.append(param)
+            # Last, since this runs user code that may fail.
+            self.reset_steps()
 
     def map_bounds(self):
         """
-- 
2.43.0


From 1d5efd0081180ced88c06294bbe539bf9b24521b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:32 +0000
Subject: [PATCH 29/73] fix: start grid calculations at the first grid point

---
 package/inference/pie/inference_base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/package/inference/pie/inference_base.py b/package/inference/pie/inference_base.py
index a06739c..7fbc39e 100644
--- a/package/inference/pie/inference_base.py
+++ b/package/inference/pie/inference_base.py
@@ -414,6 +414,8 @@ class Inference(HasAutoNamed):
         collected and returned as a SimpleVectorGrid.  The method and
         tol arguments get passed to the resulting optimize() calls.
         """
+        # An earlier, interrupted calculation may have left us inside the grid.
+        self.reset_steps()
         results = ScalarGrid(self.stepping_params)
         vdim = len(self.varying_params)
         # if vargrid and (vdim == 0):
-- 
2.43.0


From b5ed25c4cde9ef86cb75488cdd9752dda41a0cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:32 +0000
Subject: [PATCH 30/73] fix: ignore vargrid when no parameter varies

---
 package/inference/pie/inference_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/package/inference/pie/inference_base.py b/package/inference/pie/inference_base.py
index 7fbc39e..e7dc6ee 100644
--- a/package/inference/pie/inference_base.py
+++ b/package/inference/pie/inference_base.py
@@ -466,7 +466,7 @@ class Inference(HasAutoNamed):
         if self.varying_params:
             results.opt_val = opt_val
             results.opt_ind = opt_ind
-        if vargrid:
+        if self.varying_params and vargrid:
             vresults.opt_ind = opt_ind
             return results, vresults
         else:
-- 
2.43.0


From cb689f2e2645085f38a85e60c7c0c2978959dbbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:32 +0000
Subject: [PATCH 31/73] fix: leave the model at the best fit after optimizing

---
 package/inference/pie/inference_base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/package/inference/pie/inference_base.py b/package/inference/pie/inference_base.py
index e7dc6ee..3c11046 100644
--- a/package/inference/pie/inference_base.py
+++ b/package/inference/pie/inference_base.py
@@ -531,6 +531,8 @@ class Inference(HasAutoNamed):
                                              ftol=1.e-3, maxit=200, shuffle=True)
         else:
             raise InferenceError('Invalid minimization method specified!')
+        # The last point tried need not be the best fit; leave the model there.
+        self._score(params)
         if self.extremize == maximize:  # adjust for sign reversal
             extremum = -extremum
         if self.use_unbounded:  # Convert unbounded values back to normal.
-- 
2.43.0


From d332977880242d7117de1b3debd9fcfd04610b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:32 +0000
Subject: [PATCH 32/73] fix: return the model to the mode after obs_info

---
 package/inference/pie/bayes.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/package/inference/pie/bayes.py b/package/inference/pie/bayes.py
index 07abfc2..d97aea7 100644
--- a/package/inference/pie/bayes.py
+++ b/package/inference/pie/bayes.py
@@ -82,9 +82,16 @@ class BayesianInference(Inference):
                 deltas.append(param.delta)
         else:
             deltas = steps
-        deltas = dllsteps(self._logp_func, mode, deltas, dlogp, logp_max)
-        # Use those step sizes for estimating the observed info matrix.
-        info, ierr = obsinfo(self._logp_func, mode, deltas, logp_max, niter=n)
+        log_like, log_prior = self._log_like, self._log_prior
+        try:
+            deltas = dllsteps(self._logp_func, mode, deltas, dlogp, logp_max)
+            # Use those step sizes for estimating the observed info matrix.
+            info, ierr = obsinfo(self._logp_func, mode, deltas, logp_max, niter=n)
+        finally:
+            # Go back to the mode.
+            for param, val in zip(self.varying_params, mode):
+                param.set_value(val)
+            self._log_like, self._log_prior = log_like, log_prior
         if err:
             return info, ierr
         else:
-- 
2.43.0


From 84c4b663f425fec7ee7e8f488354037f9e90d6b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:33 +0000
Subject: [PATCH 33/73] fix: let sim accept arrays of locations and sigmas, and
 keep the data if it fails

---
 package/inference/pie/gaussian.py | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/package/inference/pie/gaussian.py b/package/inference/pie/gaussian.py
index 3192bf1..a145f8b 100644
--- a/package/inference/pie/gaussian.py
+++ b/package/inference/pie/gaussian.py
@@ -109,21 +109,28 @@ class SampledGaussianHandler(PredictorHandler):
         different than that in the original data set.
         """
         self.changing_data()
-        # Change the data locns/sigmas if necessary.
-        if locns and sigmas:
+        # Change the data locns/sigmas if necessary; copy them, since sim1
+        # changes them in place.
+        old = self.locns, self.sigmas, self.ndata
+        if locns is not None and sigmas is not None:
             if len(locns) != len(sigmas):
                 raise ValueError('locns/sigmas length mismatch!')
-            self.locns = locns
-            self.sigmas = sigmas
-        elif locns:
+            self.locns, self.sigmas = array(locns), array(sigmas)
+            self.ndata = len(locns)
+        elif locns is not None:
             if len(locns) != self.ndata:
                 raise ValueError('Incorrect number of locns!')
-            self.locns = locns
-        elif sigmas:
+            self.locns = array(locns)
+        elif sigmas is not None:
             if len(sigmas) != self.ndata:
                 raise ValueError('Incorrect number of sigmas!')
-            self.sigmas = sigmas
-        self.get_prdxns()
+            self.sigmas = array(sigmas)
+        try:
+            self.get_prdxns()
+        except:
+            # Keep the data consistent if the signal model fails.
+            self.locns, self.sigmas, self.ndata = old
+            raise
         # Sample data via Gaussians.
         self.vals = self.prdxns + self.sigmas*stdnorm.rvs(self.ndata)
     
-- 
2.43.0


From f6f16971409b422f3c734d2ada1399f789b5ec6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:33 +0000
Subject: [PATCH 34/73] fix: let sim1 move a datum to 0, and keep the data if
 it fails

---
 package/inference/pie/gaussian.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/package/inference/pie/gaussian.py b/package/inference/pie/gaussian.py
index a145f8b..9e237e3 100644
--- a/package/inference/pie/gaussian.py
+++ b/package/inference/pie/gaussian.py
@@ -145,12 +145,18 @@ class SampledGaussianHandler(PredictorHandler):
         location and/or sigma for the datum.
         """
         self.changing_data()
-        if locn:
-            # *** Verify locn dimension!
-            self.locns[n] = locn
-        if sigma:
-            self.sigmas[n] = sigma
-        self.get_prdxns()
+        old = self.locns.copy(), self.sigmas.copy()
+        try:
+            if locn is not None:
+                # *** Verify locn dimension!
+                self.locns[n] = locn
+            if sigma is not None:
+                self.sigmas[n] = sigma
+            self.get_prdxns()
+        except:
+            # Keep the data consistent if the signal model fails.
+            self.locns, self.sigmas = old
+            raise
         # Sample datum via Gaussian.
         self.vals[n] = self.prdxns[n] + self.sigmas[n]*stdnorm.rvs()
         
-- 
2.43.0


From 59545871a4751003e76b0b0f9aaa757b7c295dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:33 +0000
Subject: [PATCH 35/73] fix: simulate and count the data added by add_sim

---
 package/inference/pie/gaussian.py | 36 ++++++++++++++++---------------
 1 file changed, 19 insertions(+), 17 deletions(-)

diff --git a/package/inference/pie/gaussian.py b/package/inference/pie/gaussian.py
index 9e237e3..6ed938c 100644
--- a/package/inference/pie/gaussian.py
+++ b/package/inference/pie/gaussian.py
@@ -172,25 +172,27 @@ class SampledGaussianHandler(PredictorHandler):
         """
         self.changing_data()
         # First adjust locns and sigmas.
-        if locn and sigma:
-            self.ndata += 1
-            self.locns = concatenate( (self.locns, (locn,)) )
-            self.sigmas = concatenate( (self.sigmas, (sigma,)) )
-        elif locns and sigmas:
-            if len(locns) != len(sigmas):
-                raise ValueError('locns/sigmas length mismatch!')
-            self.ndata += len(locns)
+        if locn is not None and sigma is not None:
+            locns, sigmas = (locn,), (sigma,)
+        if locns is None or sigmas is None:
+            raise ValueError('Both locations and sigmas are needed!')
+        if len(locns) != len(sigmas):
+            raise ValueError('locns/sigmas length mismatch!')
+        old = self.locns, self.sigmas
+        nold, nnew = self.ndata, len(locns)
+        try:
             self.locns = concatenate( (self.locns, locns) )
             self.sigmas = concatenate( (self.sigmas, sigmas) )
-        self.ndata += len(self.locns)
-        if len(self.locns.shape) == 1:
-            self.dimen = 1
-        elif len(self._locns.shape) == 2:
-            self.dimen = self.locns.shape[1]
-        else:
-            raise DataError('Locations should be scalars or 1-d arrays!')
-        # Update predictions.
-        self.get_prdxns()
+            # Update predictions.
+            self.get_prdxns()
+        except:
+            # Keep the data consistent if the signal model fails.
+            self.locns, self.sigmas = old
+            raise
+        # Sample the new data via Gaussians.
+        new = self.prdxns[nold:] + self.sigmas[nold:]*stdnorm.rvs(nnew)
+        self.vals = concatenate( (self.vals, new) )
+        self.ndata = nold + nnew
         
 
 # *** Add method to restore to original (not simulated) data?
-- 
2.43.0


From fc2b631c2eb26cf669a89868c23f487508eb7616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:33 +0000
Subject: [PATCH 36/73] fix: store single-argument data and the dimension of
 2-d locations

---
 package/inference/pie/gaussian.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/package/inference/pie/gaussian.py b/package/inference/pie/gaussian.py
index 6ed938c..60d2f01 100644
--- a/package/inference/pie/gaussian.py
+++ b/package/inference/pie/gaussian.py
@@ -270,9 +270,9 @@ class SampledGaussian(Predictor):
             all = args[0]
             try:
                 rows, cols = all.shape
-                self.locns = all[:,0]
-                self.vals = all[:,1]
-                self.sigmas = all[:,2]
+                self._locns = all[:,0]
+                self._vals = all[:,1]
+                self._sigmas = all[:,2]
             except AttributeError:
             # If *all* is not an array, treat it as a list.
             # Only the list format can handle >1-d locns using
@@ -283,9 +283,9 @@ class SampledGaussian(Predictor):
                     self._locns.append(row[0])
                     self._vals.append(row[1])
                     self._sigmas.append(row[2])
-                self._locns = array(self.locns)
-                self._vals = array(self.vals)
-                self._sigmas = array(self.sigmas)
+                self._locns = array(self._locns)
+                self._vals = array(self._vals)
+                self._sigmas = array(self._sigmas)
             except:
                 raise DataError('Bad data array format!')
                 # *** Should ndata, dimen be _ndata...?  Or eliminate _...?
@@ -294,6 +294,6 @@ class SampledGaussian(Predictor):
         if len(self._locns.shape) == 1:
             self.dimen = 1
         elif len(self._locns.shape) == 2:
-            self.dimen = self.locns.shape[1]
+            self.dimen = self._locns.shape[1]
         else:
             raise DataError('Locations should be scalars or 1-d arrays!')
-- 
2.43.0


From 19c0bc72ba4ed14abe90068fde865c936f61f23b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:52 +0000
Subject: [PATCH 37/73] fix: make pnsig handle n=0 and protect its cache

---
 package/inference/count/onoff.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/package/inference/count/onoff.py b/package/inference/count/onoff.py
index 03efa77..cb09826 100644
--- a/package/inference/count/onoff.py
+++ b/package/inference/count/onoff.py
@@ -202,12 +202,12 @@ class OnOff(object):
         if self.p_signal is None:
             self.p_signal = sigctp(self.on_cts, self.on_intvl,
                                    self.off_cts, self.off_intvl)
-        if n:
+        if n is not None:
             if n < 0 or n > self.on_cts:
                 raise ValueError('Number of source counts must be <= on_cts!')
             return self.p_signal[n]
         else:
-            return self.p_signal[:]  # return copy so cache can't be altered
+            return self.p_signal.copy()  # return copy so cache can't be altered
 
 
 # Interim documentation for the underlying Fortran extension module.
-- 
2.43.0


From dae75db1b7a2e49c241ae0d9f7218a1f6e4e684e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:52 +0000
Subject: [PATCH 38/73] fix: do not truncate siglml and sigmp for integer
 signal arrays

---
 package/inference/count/onoff.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/package/inference/count/onoff.py b/package/inference/count/onoff.py
index cb09826..6037e0f 100644
--- a/package/inference/count/onoff.py
+++ b/package/inference/count/onoff.py
@@ -106,7 +106,7 @@ class OnOff(object):
         except TypeError:
             if len(s.shape) != 1:
                 raise ValueError('sigll handles only 1-D arrays!')
-            llvals = zeros_like(s)
+            llvals = zeros_like(s, float)
             for i, sval in enumerate(s):
                 llvals[i], nt, err = slmlike(sval, self.on_cts, self.on_intvl,
                                              self.off_cts, self.off_intvl, self.offset, self.cutoff)
@@ -164,7 +164,7 @@ class OnOff(object):
         except TypeError:
             if len(s.shape) != 1:
                 raise ValueError('sigll handles only 1-D arrays!')
-            llvals = zeros_like(s)
+            llvals = zeros_like(s, float)
             for i, sval in enumerate(s):
                 llvals[i] = psigc(sval, self.on_intvl, self.p_signal)
             return llvals
-- 
2.43.0


From d5e8b2627b6242b36cbd0c27a02f403170b5c8a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:35:46 +0000
Subject: [PATCH 39/73] fix: keep mapped parameter values within the allowed
 range

---
 package/inference/pie/realparam.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/package/inference/pie/realparam.py b/package/inference/pie/realparam.py
index b8d6684..90af42c 100644
--- a/package/inference/pie/realparam.py
+++ b/package/inference/pie/realparam.py
@@ -284,10 +284,10 @@ class RealParamHandler(ScalarParamHandler):
                 else:
                     self._set_value(self.lo)
             else:
-                # Use _set_value, since this should be in range.  In fact,
-                # I've found just-barely out-of-range results (presumably due
-                # to roundoff at limits) that trigger exceptions using set_value.
-                self._set_value((self.lo + self.hi*expv)/(1. + expv))
+                # Roundoff at the limits can produce just-barely out-of-range
+                # results; keep them in range.
+                value = (self.lo + self.hi*expv)/(1. + expv)
+                self._set_value(min(max(value, self.lo), self.hi))
 
     def show(self):
         """Return a string containing the name, value, and doc for the param."""
-- 
2.43.0


From 533c7464795ca70e4f29246005af01e83185ec63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:38 +0000
Subject: [PATCH 40/73] fix: map values at a bound to a finite unbounded value

---
 package/inference/pie/realparam.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/package/inference/pie/realparam.py b/package/inference/pie/realparam.py
index 90af42c..3c5dd91 100644
--- a/package/inference/pie/realparam.py
+++ b/package/inference/pie/realparam.py
@@ -3,6 +3,7 @@ Real-valued (i.e., float-valued) parameters.
 """
 
 from .param import *
+from numpy import nextafter
 from scipy import exp, log, isinf, isnan
 
 from .logger import pielog
@@ -259,14 +260,11 @@ class RealParamHandler(ScalarParamHandler):
         if not self.bounded:
             raise ValueError('No bounds defined for parameter!')
         else:
-            # Handle roundoff error near boundaries.
-            # *** Make the constants platform-independent.
-            # if self._value <= self.lo:
-            # return -1.e-323
-            # elif self._value >= self.hi:
-            # return 1.e308
-            # else:
-            return log(self._value-self.lo) - log(self.hi-self._value)
+            # A value at (or, by roundoff, beyond) a boundary would map to an
+            # infinite value; use the nearest value inside.
+            value = max(self._value, nextafter(self.lo, self.hi))
+            value = min(value, nextafter(self.hi, self.lo))
+            return log(value-self.lo) - log(self.hi-value)
 
     def _unbounded_set_value(self, uvalue):
         """Set a varying param's value via a transformed parameter that has
-- 
2.43.0


From 827151eeaf56a23f5566fff5386186afbf170e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:13 +0000
Subject: [PATCH 41/73] fix: do not truncate simulated values in integer data
 arrays

---
 package/inference/pie/gaussian.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/package/inference/pie/gaussian.py b/package/inference/pie/gaussian.py
index 60d2f01..713748b 100644
--- a/package/inference/pie/gaussian.py
+++ b/package/inference/pie/gaussian.py
@@ -38,13 +38,11 @@ class SampledGaussianHandler(PredictorHandler):
 	    than references to it (e.g., to the original data stored in class
 	    rather than instance variables).
 	    """
-        # Note this presumes the data have a copy method (as do numpy
-        # arrays).  For other data types we might need to use the copy
-        # or deepcopy modules.
+        # Integer data become floats, so they can hold simulated values.
         if self._using_globals:
-            self.locns = self.locns.copy()
-            self.vals = self.vals.copy()
-            self.sigmas = self.sigmas.copy()
+            self.locns = array(self.locns, float)
+            self.vals = array(self.vals, float)
+            self.sigmas = array(self.sigmas, float)
             self._using_globals = False
         
     def changing_data(self):
@@ -115,16 +113,16 @@ class SampledGaussianHandler(PredictorHandler):
         if locns is not None and sigmas is not None:
             if len(locns) != len(sigmas):
                 raise ValueError('locns/sigmas length mismatch!')
-            self.locns, self.sigmas = array(locns), array(sigmas)
+            self.locns, self.sigmas = array(locns, float), array(sigmas, float)
             self.ndata = len(locns)
         elif locns is not None:
             if len(locns) != self.ndata:
                 raise ValueError('Incorrect number of locns!')
-            self.locns = array(locns)
+            self.locns = array(locns, float)
         elif sigmas is not None:
             if len(sigmas) != self.ndata:
                 raise ValueError('Incorrect number of sigmas!')
-            self.sigmas = array(sigmas)
+            self.sigmas = array(sigmas, float)
         try:
             self.get_prdxns()
         except:
-- 
2.43.0


From c102e1c5d61e53d1d0a0432440605d733461f797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:34 +0000
Subject: [PATCH 42/73] fix: bound HPD regions of logarithmic grids by the
 level of p(log x)

---
 package/inference/grid/hpd.py     | 6 +++++-
 package/inference/grid/hpdgrid.py | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/package/inference/grid/hpd.py b/package/inference/grid/hpd.py
index 35182d7..751c1bf 100644
--- a/package/inference/grid/hpd.py
+++ b/package/inference/grid/hpd.py
@@ -174,7 +174,11 @@ class HPD1D(object):
         logratio = float(brentq(self._diff, lr1, lr2, xtol=tol))
         # print repr(logratio)
         # 10 is the max # boundaries; it should handle pretty bumpy PDFs!
-        bounds, nb, ok = xvalues(self.xvals, self.logpdf-self.max, logratio, 10)
+        logspdf = self.logpdf-self.max
+        if not self.linstep:
+            # The region is for p(log x) = x*p(x).
+            logspdf = logspdf + log(self.xvals)
+        bounds, nb, ok = xvalues(self.xvals, logspdf, logratio, 10)
         if not ok:
             raise RuntimeError('Too many boundary points in PDF!')
         bounds = bounds[:nb]
diff --git a/package/inference/grid/hpdgrid.py b/package/inference/grid/hpdgrid.py
index 6aec084..1b1eccc 100644
--- a/package/inference/grid/hpdgrid.py
+++ b/package/inference/grid/hpdgrid.py
@@ -184,7 +184,11 @@ class HPDGrid1D(object):
         logratio = float(brentq(self._diff, lr1, lr2, xtol=tol))
         # print repr(logratio)
         # 10 is the max # boundaries; it should handle pretty bumpy PDFs!
-        bounds, nb, ok = xvalues(self.xvals, self.logpdf-self.max, logratio, 10)
+        logspdf = self.logpdf-self.max
+        if not self.linstep:
+            # The region is for p(log x) = x*p(x).
+            logspdf = logspdf + log(self.xvals)
+        bounds, nb, ok = xvalues(self.xvals, logspdf, logratio, 10)
         if not ok:
             raise RuntimeError('Too many boundary points in PDF!')
         bounds = bounds[:nb]
-- 
2.43.0


From 77c403c39a3e4b2bc72ec36531eafbf63efdebe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:15 +0000
Subject: [PATCH 43/73] fix: a class defining params or predictors no longer
 adds them to its base class

---
 package/inference/pie/param.py     | 9 +++++----
 package/inference/pie/predictor.py | 9 +++++----
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/package/inference/pie/param.py b/package/inference/pie/param.py
index a427767..b338aa7 100644
--- a/package/inference/pie/param.py
+++ b/package/inference/pie/param.py
@@ -84,11 +84,12 @@ class Param(AutoNamed):
         self.name = name
         self.value_name = '__' + name + '_val'
         self.handler_name = '__' + name + '_hndlr'
-        # Keep a list of param names in the class dict.
-        try:
+        # Keep a list of param names in the class dict, starting with any
+        # inherited names (in a copy; a base class keeps its own list).
+        if 'param_names' not in cls.__dict__:
+            cls.param_names = list(getattr(cls, 'param_names', []))
+        if name not in cls.param_names:
             cls.param_names.append(name)
-        except AttributeError:
-            cls.param_names = [name]
 
     def __get__(self, inst, owner):
         # On access (via an Inference instance), the arguments will be:
diff --git a/package/inference/pie/predictor.py b/package/inference/pie/predictor.py
index be542d3..3714cf8 100644
--- a/package/inference/pie/predictor.py
+++ b/package/inference/pie/predictor.py
@@ -58,11 +58,12 @@ class Predictor(AutoNamed):
         pielog.debug('Predictor instance in %s is named %s', cls, name)
         self.name = name
         self.handler_name = '__' + name + '_hndlr'
-        # Keep a list of predictor names in the class dict.
-        try:
+        # Keep a list of predictor names in the class dict, starting with any
+        # inherited names (in a copy; a base class keeps its own list).
+        if 'predictor_names' not in cls.__dict__:
+            cls.predictor_names = list(getattr(cls, 'predictor_names', []))
+        if name not in cls.predictor_names:
             cls.predictor_names.append(name)
-        except AttributeError:
-            cls.predictor_names = [name]
 
     def clone(self):
         # ??? Can this be abstracted here?
-- 
2.43.0


From a8abe4443503e4618beab210fe655bd6d0f002f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:15 +0000
Subject: [PATCH 44/73] fix: take param and predictor names from the classes,
 not from their source files

---
 package/inference/pie/inference_base.py | 102 +++---------------------
 1 file changed, 11 insertions(+), 91 deletions(-)

diff --git a/package/inference/pie/inference_base.py b/package/inference/pie/inference_base.py
index 3c11046..d5bf74a 100644
--- a/package/inference/pie/inference_base.py
+++ b/package/inference/pie/inference_base.py
@@ -2,8 +2,6 @@
 Utilities and base class for inferences.
 """
 
-import inspect
-
 from .param import *
 from .autoname import HasAutoNamed
 from .signalmodel import SignalModel, StopStepping
@@ -85,101 +83,23 @@ class Inference(HasAutoNamed):
         # *** Provide hooks for storing state or calculating candidate state
         # before storing it, to facilitate MCMC.
 
-        # Reorder the param names associated with this inference to reflect
-        # the order in the source code (the metaclass will order them in a
-        # shuffled order, the order of keys in the class dict).
+        # Gather the param and predictor names associated with this inference,
+        # in the order in which the user defined them (class dicts preserve
+        # it; reading it from the source files fails or goes wrong if they
+        # are missing, unreadable or edited, or if params are inherited).
         # First, get the SignalModel and Predictors mixin classes.
         for cls in self.__class__.__bases__:
-            if SignalModel in cls.__bases__:
+            if issubclass(cls, SignalModel):
                 self.signal_class = cls
-            elif PredictorSet in cls.__bases__:
+            elif issubclass(cls, PredictorSet):
                 self.pred_class = cls
-        # Get the names of params and predictors from the mixins.
-        # Get them from source if available, to preserve the order
-        # in which the user defined them.
+        # Copy the names of params and predictors from the mixins.
         # Be careful gathering params; the PredictorSet mixin class
         # may have params.
-        try:
-            unordered = self.signal_class.param_names[:]
-            self.params = self._get_signal_names(unordered)
-        except:
-            self.params = []
-        try:
-            unordered = self.pred_class.param_names[:]
-        except:
-            unordered = []
-        oparams, self.predictors = self._get_pred_names(unordered)
-        self.params.extend(oparams)
-        # Make sure params are unique; i.e., that the Predictors class
-        # hasn't duplicated a param name.
-        if len(set(self.params)) != len(self.params):
-            raise InferenceError('A parameter name is duplicated within this inference!')
-
-    def _get_signal_names(self, signal_params):
-        """Use the source for the SignalModel and Predictors mixins to
-        fix the order of param and predictor names.  If source is
-        unavailable, just grab the names from the mixin class dicts."""
-        # Be careful gathering params; the Predictors mixin class
-        # may have params.
-        oparams = []
-        try:
-            source = inspect.getsourcelines(self.signal_class)[0]
-            for line in source:
-                line = line.strip()
-                for param in signal_params:
-                    # *** Use a regexp here to match any white space b/4 '='.
-                    if line.startswith(param+' =') or line.startswith(param+'='):
-                        oparams.append(param)
-                        signal_params.remove(param)
-            if signal_params != []:
-                raise InferenceError('Some params not defined in SignalModel source!')
-        except IOError:  # Only in the unlikely event of interactive model def'n
-            print('Could not locate SignalModel source; proceeding with unordered params.')
-            oparams = self.signal_class.param_names
-        except TypeError:  # This is needed due to an apparent bug in inspect (failure can raise TypeError).
-            print('Could not locate SignalModel source; proceeding with unordered params.')
-            print('(Note: This may be due to a bug in inspect.py)')
-            oparams = self.signal_class.param_names
-        return oparams
-
-    def _get_pred_names(self, pred_params):
-        """Use the source for the SignalModel and Predictors mixins to
-        fix the order of param and predictor names.  If source is
-        unavailable, just grab the names from the mixin class dicts."""
-        # Be careful gathering params; the Predictors mixin class
-        # may have params.
-        oparams = []
-        try:
-            source = inspect.getsourcelines(self.pred_class)[0]
-            if pred_params:
-                for line in source:
-                    line = line.strip()
-                    for param in pred_params:
-                        if line.startswith(param+' =') or line.startswith(param+'='):
-                            oparams.append(param)
-                            pred_params.remove(param)
-                if pred_params != []:
-                    raise InferenceError('Some params not defined in Predictors source!')
-            # Now do the same to get the Predictor order.
-            opreds = []
-            preds = self.pred_class.predictor_names[:]
-            for line in source:
-                line = line.strip()
-                for pred in preds:
-                    if line.startswith(pred+' =') or line.startswith(pred+'='):
-                        opreds.append(pred)
-                        preds.remove(pred)
-            if preds != []:
-                raise InferenceError('Some Predictor(s) not defined in Predictors source!')
-        except IOError:  # Only in the unlikely event of interactive pred. def'n
-            print('Could not locate PredictorSet source; proceeding with unordered params.')
-            oparams.extend(self.pred_class.param_names)
-            opreds = self.pred_class.predictor_names
-        except:  # This is needed due to an apparent bug in inspect (failure can raise TypeError).
-            print('Could not locate PredictorSet source; proceeding with unordered params.')
-            oparams.extend(self.pred_class.param_names)
-            opreds = self.pred_class.predictor_names
-        return oparams, opreds
+        signal_class = getattr(self, 'signal_class', None)
+        self.params = list(getattr(signal_class, 'param_names', []))
+        self.params.extend(getattr(self.pred_class, 'param_names', []))
+        self.predictors = list(self.pred_class.predictor_names)
         # Make sure params are unique; i.e., that the Predictors class
         # hasn't duplicated a param name.
         if len(set(self.params)) != len(self.params):
-- 
2.43.0


From 5a95c7ef8b5c956e8f3095be9fa76c37ee761833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:45:56 +0000
Subject: [PATCH 45/73] fix: never evaluate a grid function outside the grid
 interval

---
 package/inference/grid/grid1d.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/package/inference/grid/grid1d.py b/package/inference/grid/grid1d.py
index 523043e..c9979d8 100644
--- a/package/inference/grid/grid1d.py
+++ b/package/inference/grid/grid1d.py
@@ -307,7 +307,7 @@ class RefinedIntervalList1D:
         lo = lo_int[1]
         hi_int = int_hi.locate(hi)  # returns (i, lo, hi) of grid point pair
         if hi != hi_int[1]:  # if not lo, it's within the grid space; set to hi
-            hi = hi_int[2]
+            hi = min(hi_int[2], int_hi.hi)  # don't let roundoff exceed the interval
         # Test if resolved.  Use lo_int rather than hi_int, because if
         # hi happens to hit an endpoint, hi_int's lo == its hi.
         if 5*step > (lo_int[2]-lo_int[1]):  # resolved
@@ -517,7 +517,7 @@ class BasicGrid1D:
         for i in range(self.n):
             if i == self.n-1:  # Avoid roundoff error at the endpoint.
                 x = self.hi
-            if self.isLin:
+            elif self.isLin:
                 x = self.lo + i*self.step
             else:
                 x = self.lo * exp(i*self.step)
-- 
2.43.0


From 09c17a5611722f58ea19ff37cdb5fae6af90b5d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:49:16 +0000
Subject: [PATCH 46/73] fix: keep the data of a predictor consistent if
 sampling fails in a simulation

---
 package/inference/pie/gaussian.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/package/inference/pie/gaussian.py b/package/inference/pie/gaussian.py
index 713748b..a8456ed 100644
--- a/package/inference/pie/gaussian.py
+++ b/package/inference/pie/gaussian.py
@@ -125,12 +125,12 @@ class SampledGaussianHandler(PredictorHandler):
             self.sigmas = array(sigmas, float)
         try:
             self.get_prdxns()
+            # Sample data via Gaussians.
+            self.vals = self.prdxns + self.sigmas*stdnorm.rvs(self.ndata)
         except:
-            # Keep the data consistent if the signal model fails.
+            # Keep the data consistent if the signal model or sampling fails.
             self.locns, self.sigmas, self.ndata = old
             raise
-        # Sample data via Gaussians.
-        self.vals = self.prdxns + self.sigmas*stdnorm.rvs(self.ndata)
     
     # *** sim1, add_sim only simulate the NEW data.  But params could
     # have changed since the last simulation, in which case there will be an
@@ -151,12 +151,12 @@ class SampledGaussianHandler(PredictorHandler):
             if sigma is not None:
                 self.sigmas[n] = sigma
             self.get_prdxns()
+            # Sample datum via Gaussian.
+            self.vals[n] = self.prdxns[n] + self.sigmas[n]*stdnorm.rvs()
         except:
-            # Keep the data consistent if the signal model fails.
+            # Keep the data consistent if the signal model or sampling fails.
             self.locns, self.sigmas = old
             raise
-        # Sample datum via Gaussian.
-        self.vals[n] = self.prdxns[n] + self.sigmas[n]*stdnorm.rvs()
         
     def add_sim(self, locn=None, sigma=None, locns=None, sigmas=None):
         """
@@ -183,13 +183,13 @@ class SampledGaussianHandler(PredictorHandler):
             self.sigmas = concatenate( (self.sigmas, sigmas) )
             # Update predictions.
             self.get_prdxns()
+            # Sample the new data via Gaussians.
+            new = self.prdxns[nold:] + self.sigmas[nold:]*stdnorm.rvs(nnew)
+            self.vals = concatenate( (self.vals, new) )
         except:
-            # Keep the data consistent if the signal model fails.
+            # Keep the data consistent if the signal model or sampling fails.
             self.locns, self.sigmas = old
             raise
-        # Sample the new data via Gaussians.
-        new = self.prdxns[nold:] + self.sigmas[nold:]*stdnorm.rvs(nnew)
-        self.vals = concatenate( (self.vals, new) )
         self.ndata = nold + nnew
         
 
-- 
2.43.0


From 26b3ada4ec216c7128a7be9e121e24cf50b7c6d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:27 +0000
Subject: [PATCH 47/73] fix: leave all parameters unchanged when set_params is
 refused

---
 package/inference/pie/inference_base.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/package/inference/pie/inference_base.py b/package/inference/pie/inference_base.py
index d5bf74a..f4b854b 100644
--- a/package/inference/pie/inference_base.py
+++ b/package/inference/pie/inference_base.py
@@ -259,14 +259,22 @@ class Inference(HasAutoNamed):
         This is valid only if all params are either fixed or varying."""
         # *** Should this just skip stepped params rather than quit?
         # *** Should it check there are no "extras" in the passed pv?
+        # Verify all values before changing anything.
+        vals = []
         for name in self.params:
+            param = getattr(self, name)
+            val = float(getattr(pv, name))
+            if param.status != fixed and param.status != varying:
+                raise ParamError('Use set_params only when params are fixed or varying!')
+            if param.bounded and not (val >= param.lo and val <= param.hi):
+                raise ParamRangeError("Value out of parameter's allowed range!")
+            vals.append(val)
+        for name, val in zip(self.params, vals):
             param = getattr(self, name)
             if param.status == fixed:
-                param.fix(getattr(pv,name))
-            elif param.status == varying:
-                param.vary(getattr(pv,name))
+                param.fix(val)
             else:
-                raise ParamError('Use set_params only when params are fixed or varying!')
+                param.vary(val)
 
     # *** Make versions of show*() that return strings.
 
-- 
2.43.0


From 19826d4ad92365d48a329a08c640e2d549312d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:47 +0000
Subject: [PATCH 48/73] fix: keep the statistics of a linear model together
 when an evaluation fails

---
 package/inference/gauss/vecba.py | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/package/inference/gauss/vecba.py b/package/inference/gauss/vecba.py
index b2f336a..1580541 100644
--- a/package/inference/gauss/vecba.py
+++ b/package/inference/gauss/vecba.py
@@ -98,17 +98,22 @@ class BA:
             args = list(args)
             args.append(aux)
             args = tuple(args)
+        modvals = zeros((self.M, self.N), float)
         for a in range(self.M):
             g = self.basis[a]
-            self.modvals[a,:] = g(*args) / self.sigs
+            modvals[a,:] = g(*args) / self.sigs
 
 #...    Calculate the metric and various derived quantities.  Store them
-#...    for possible future use before returning.
+#...    for possible future use before returning, all together, so the
+#...    stored results stay those for self.pars if anything fails.
+        metric, L, rdet, proj, ampl, suf =\
+            vba.metricAnalysis(modvals, self.std_smpls)
+        Jac = 1. / rdet
+        self.modvals = modvals
         self.metric, self.L, self.Jac, self.proj, self.ampl, self.suf =\
-            vba.metricAnalysis(self.modvals, self.std_smpls)
+            metric, L, Jac, proj, ampl, suf
         self.Q = self.dsqr - self.suf
         self.pars = params
-        self.Jac = 1. / self.Jac
 
     def amplitudes(self, *params):
         """Calculate the best-fit amplitudes."""
@@ -229,16 +234,21 @@ class BAObj:
 #...    Evaluate the standardized models on the data, first calling the setup
 #...    function.
         self.obj.set_nonlin(*params)
+        modvals = zeros((self.M, self.N), float)
         for a in range(self.M):
-            self.modvals[a,:] = self.obj.std_basis[a]()
+            modvals[a,:] = self.obj.std_basis[a]()
 
 #...    Calculate the metric and various derived quantities.  Store them
-#...    for possible future use before returning.
+#...    for possible future use before returning, all together, so the
+#...    stored results stay those for self.pars if anything fails.
+        metric, L, rdet, proj, ampl, suf =\
+            vba.metricAnalysis(modvals, self.obj.std_smpls)
+        Jac = 1. / rdet
+        self.modvals = modvals
         self.metric, self.L, self.Jac, self.proj, self.ampl, self.suf =\
-            vba.metricAnalysis(self.modvals, self.obj.std_smpls)
+            metric, L, Jac, proj, ampl, suf
         self.Q = self.dsqr - self.suf
         self.pars = params
-        self.Jac = 1. / self.Jac
 
     def amplitudes(self, *params):
         """Calculate the best-fit amplitudes."""
-- 
2.43.0


From 5d88aa36c91e330005b875022c99dbd01c3aa741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:47 +0000
Subject: [PATCH 49/73] fix: return a copy of the amplitudes, so a caller
 cannot alter later results

---
 package/inference/gauss/vecba.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/package/inference/gauss/vecba.py b/package/inference/gauss/vecba.py
index 1580541..071a76c 100644
--- a/package/inference/gauss/vecba.py
+++ b/package/inference/gauss/vecba.py
@@ -125,7 +125,7 @@ class BA:
             self.calc_marg_stats(*params)
 
 #...    Now just return the stored amplitudes..
-        return self.ampl
+        return self.ampl.copy()
 
     def covar(self):
         """Return the covariance matrix for the best-fit amplitudes."""
@@ -260,7 +260,7 @@ class BAObj:
             self.calc_marg_stats(*params)
 
 #...    Now just return the stored amplitudes.
-        return self.ampl
+        return self.ampl.copy()
 
     def covar(self):
         """Return the covariance matrix for the best-fit amplitudes."""
-- 
2.43.0


From 0428183d300a07e150f7effe4b17593456d4773c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:27 +0000
Subject: [PATCH 50/73] fix: pass and keep the full generator state when
 sampling without replacement

---
 package/inference/mc/population.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/package/inference/mc/population.py b/package/inference/mc/population.py
index 3e105cf..8bba90e 100644
--- a/package/inference/mc/population.py
+++ b/package/inference/mc/population.py
@@ -93,7 +93,9 @@ class Population(object):
         # Copy the whole population if nsamp = npopn.
         if nsamp == self.npopn:
             return [item for item in self.items]
-        set_rng_state(*random.get_state())
+        rng_state = random.get_state()
+        mt_state, extra_state = rng_state[:3], rng_state[3:]
+        set_rng_state(*mt_state)
         if self.equiprob:
             pool = arange(self.npopn)
             indices = equalprob(nsamp, pool)
@@ -125,7 +127,9 @@ class Population(object):
             self.ntry, sindices = self.sampler.samplenr()
             indices = [self.sort_indices[i] for i in sindices]
         result = [self.items[i] for i in indices]
-        random.set_state(get_rng_state())
+        new_state = list(get_rng_state())
+        new_state.extend(extra_state)
+        random.set_state(new_state)
         return result
 
     def subset_pps5(self, nsamp):
@@ -140,7 +144,9 @@ class Population(object):
         # Copy the whole population if nsamp = npopn.
         if nsamp == self.npopn:
             return [item for item in self.items]
-        set_rng_state(*random.get_state())
+        rng_state = random.get_state()
+        mt_state, extra_state = rng_state[:3], rng_state[3:]
+        set_rng_state(*mt_state)
         if self.equiprob:
             pool = arange(self.npopn)
             indices = equalprob(nsamp, pool)
@@ -178,7 +184,9 @@ class Population(object):
             # Note the 5-table version returns unsorted indices.
             # indices = [self.sort_indices[i] for i in sindices]
         result = [self.items[i] for i in indices]
-        random.set_state(get_rng_state())
+        new_state = list(get_rng_state())
+        new_state.extend(extra_state)
+        random.set_state(new_state)
         return result
 
 
-- 
2.43.0


From 7dda4cff73336c79667e4f3ddaa478f3d52e0c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:27 +0000
Subject: [PATCH 51/73] fix: import arange for equal-probability subsets

---
 package/inference/mc/population.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/package/inference/mc/population.py b/package/inference/mc/population.py
index 8bba90e..4ddcc08 100644
--- a/package/inference/mc/population.py
+++ b/package/inference/mc/population.py
@@ -6,7 +6,7 @@ Classes and functions for describing and sampling discrete populations.
 
 __author__ = "Tom Loredo"
 
-from numpy import array, random
+from numpy import arange, array, random
 from _ppssampler import _ppssampler, equalprob
 from _ppssampler import set_rng_state, get_rng_state
 from inference.utils.pl import pl
-- 
2.43.0


From 549a75877bc5066fab30cda280bb61b81717a599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:42 +0000
Subject: [PATCH 52/73] fix: draw all members of a subset from the shared
 random stream

---
 package/inference/mc/sampford.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/package/inference/mc/sampford.c b/package/inference/mc/sampford.c
index 00663ee..7389443 100644
--- a/package/inference/mc/sampford.c
+++ b/package/inference/mc/sampford.c
@@ -110,7 +110,7 @@ sampford_pps(Sampford* sampford, int* sample, rk_state* rng_state_ptr) {
         duplicate = 0;
         tot = sampford->cumratios[npopn-1];
         for (j=1; j<nsamp; j++) {
-            val = tot * (1.*rand())/(RAND_MAX+1.);
+            val = tot * rk_double(rng_state_ptr);
             for (i=0; i<npopn; i++) {
                 if (val <= sampford->cumratios[i]) break;
             }
-- 
2.43.0


From 6b1d38050ca17fcfb80c66f551dd414ce4d64f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:58 +0000
Subject: [PATCH 53/73] fix: accept sequences and integers as values of a
 piecewise-linear density

---
 package/inference/mc/pwlinear.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/package/inference/mc/pwlinear.py b/package/inference/mc/pwlinear.py
index 398334f..923b6a1 100644
--- a/package/inference/mc/pwlinear.py
+++ b/package/inference/mc/pwlinear.py
@@ -1,5 +1,5 @@
 from numpy import linspace, concatenate, zeros, sqrt, log, exp
-from numpy import iterable, empty, any
+from numpy import iterable, empty, any, asarray
 from numpy.random import rand
 from .population import Population
 
@@ -59,6 +59,7 @@ class PWLinear(object):
             self.step = None  # indicates arbitrary step sizes
 
         # Define and select the non-negligible values, 'weight values.'
+        vals = asarray(vals, float)
         if logvals:
             wvals = vals - max(vals)
             selected = (wvals > log(cut)).nonzero()[0]
-- 
2.43.0


From 5af28488d6bb2e3e262aad8e5f91e1d5759c95ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:14 +0000
Subject: [PATCH 54/73] fix: refuse subsets of no members instead of crashing

---
 package/inference/mc/population.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/package/inference/mc/population.py b/package/inference/mc/population.py
index 4ddcc08..97a2971 100644
--- a/package/inference/mc/population.py
+++ b/package/inference/mc/population.py
@@ -93,6 +93,8 @@ class Population(object):
         # Copy the whole population if nsamp = npopn.
         if nsamp == self.npopn:
             return [item for item in self.items]
+        if nsamp < 1:
+            raise ValueError('nsamp must be positive!')
         rng_state = random.get_state()
         mt_state, extra_state = rng_state[:3], rng_state[3:]
         set_rng_state(*mt_state)
@@ -144,6 +146,8 @@ class Population(object):
         # Copy the whole population if nsamp = npopn.
         if nsamp == self.npopn:
             return [item for item in self.items]
+        if nsamp < 1:
+            raise ValueError('nsamp must be positive!')
         rng_state = random.get_state()
         mt_state, extra_state = rng_state[:3], rng_state[3:]
         set_rng_state(*mt_state)
-- 
2.43.0


From 331c88a35d682370b0e9135659df6c3943e6730f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:29 +0000
Subject: [PATCH 55/73] fix: density of a piecewise-linear pdf at its upper end

---
 package/inference/mc/pwlinear.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/package/inference/mc/pwlinear.py b/package/inference/mc/pwlinear.py
index 923b6a1..4019d35 100644
--- a/package/inference/mc/pwlinear.py
+++ b/package/inference/mc/pwlinear.py
@@ -209,6 +209,7 @@ class PWLinear(object):
         # Handle even step size case.
         elif self.step == 'lin':
             i = region[0] + int((x - region[2])/self.delta)
+            i = min(i, region[1]-1)  # the upper end is in the last interval
             return self.pdf_vals[i] + \
                 (self.pdf_vals[i+1]-self.pdf_vals[i]) * \
                 (x - self.absc[i])/(self.absc[i+1] - self.absc[i])
-- 
2.43.0


From 60e5ff4b04afac19e892116c9c93d215b2f8dc36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:25 +0000
Subject: [PATCH 56/73] fix: no outdated ratios after a failed change of the
 sample size

---
 package/inference/mc/population.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/package/inference/mc/population.py b/package/inference/mc/population.py
index 97a2971..a114740 100644
--- a/package/inference/mc/population.py
+++ b/package/inference/mc/population.py
@@ -123,8 +123,10 @@ class Population(object):
                     raise ValueError('nsamp larger than population size!')
                 if nsamp*self.max_wt > 1:
                     raise ValueError('Sample size too large for PPS sampling!')
-                self.sampler.prepratios(nsamp, self.sort_wts, self.tot_wt)
+                # Until the ratios are complete, they are for no sample size.
+                self.nsamp = 0
                 self.did_Sampford_tables = False
+                self.sampler.prepratios(nsamp, self.sort_wts, self.tot_wt)
                 self.nsamp = nsamp
             self.ntry, sindices = self.sampler.samplenr()
             indices = [self.sort_indices[i] for i in sindices]
@@ -175,6 +177,9 @@ class Population(object):
                     raise ValueError('nsamp larger than population size!')
                 if nsamp*self.max_wt > 1:
                     raise ValueError('Sample size too large for PPS sampling!')
+                # Until the ratios are complete, they are for no sample size.
+                self.nsamp = 0
+                self.did_Sampford_tables = False
                 self.sampler.prepratios(nsamp, self.sort_wts, self.tot_wt)
                 self.sampler.prepratiotables()
                 self.did_Sampford_tables = True
-- 
2.43.0


From 505aea3a39de2e77b63ad6480d63039009346962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:09:54 +0000
Subject: [PATCH 57/73] fix: same largest subset size before and after the
 first sample

---
 package/inference/mc/population.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/package/inference/mc/population.py b/package/inference/mc/population.py
index a114740..1353c1a 100644
--- a/package/inference/mc/population.py
+++ b/package/inference/mc/population.py
@@ -79,10 +79,7 @@ class Population(object):
         sample (of course, they will all have inclusion probability of
         unity, regardless of size).
         """
-        if self.did_Sampford_init:
-            return int(1./self.max_wt)
-        else:
-            return int(sum(self.weights)/self.weights.max())
+        return int(sum(self.weights)/self.weights.max())
 
     def subset_pps(self, nsamp):
         """
-- 
2.43.0


From fd15124f3930127a71dd7de301b940d051133572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:26 +0000
Subject: [PATCH 58/73] fix: ArrayStore reads back the object arrays it saves

Arrays of Python objects were saved without complaint but could not be
loaded again, as NumPy's load() refuses pickled arrays by default.
---
 package/inference/utils/ioutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/package/inference/utils/ioutils.py b/package/inference/utils/ioutils.py
index 06b55a9..41e8987 100644
--- a/package/inference/utils/ioutils.py
+++ b/package/inference/utils/ioutils.py
@@ -124,7 +124,7 @@ class ArrayStore(object):
         if fname:
             if not fname.endswith('.npz'):
                 fname = fname + '.npz'
-            self._npz = load(fname)
+            self._npz = load(fname, allow_pickle=True)
         else:
             self._npz = None
         self._fname = fname
-- 
2.43.0


From b092393ebbe02979bd32c44048d9da591988869e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:27 +0000
Subject: [PATCH 59/73] fix: ArrayStore can save an array named 'file'

savez() takes the archive's name in an argument called file, so such an
array made saving fail.
---
 package/inference/utils/ioutils.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/package/inference/utils/ioutils.py b/package/inference/utils/ioutils.py
index 41e8987..e49d025 100644
--- a/package/inference/utils/ioutils.py
+++ b/package/inference/utils/ioutils.py
@@ -1,7 +1,9 @@
 import os
 import os.path as path
 import pickle as pkl
-from numpy import array, ndarray, savez, load
+from zipfile import ZipFile
+from numpy import array, ndarray, load
+from numpy.lib.format import write_array
 
 __all__ = ['backup', 'safe_open', 'ArrayStore', 'AttrStore']
 
@@ -59,6 +61,16 @@ def _save_file(fname, write):
             os.remove(tname)
         raise
 
+def _write_npz(fobj, arrays):
+    """
+    Write a dictionary of arrays to fobj as a NumPy .npz archive; unlike
+    savez(fobj, **arrays), this can store an array with the name 'file'.
+    """
+    with ZipFile(fobj, 'w') as archive:
+        for name, val in arrays.items():
+            with archive.open(name + '.npy', 'w', force_zip64=True) as member:
+                write_array(member, val)
+
 def read_column_vectors(dfile, types, as_arrays=True):
     """
     Read vectors of scalar-valued data stored as whitespace-delimited strings
@@ -205,7 +217,7 @@ class ArrayStore(object):
         for name, val in list(self._new.items()):
             arrays[name] = val
         # Backup any existing file, and save the arrays to a new file.
-        _save_file(fname, lambda fobj: savez(fobj, **arrays))
+        _save_file(fname, lambda fobj: _write_npz(fobj, arrays))
 
     def contents(self):
         """
-- 
2.43.0


From f4e700003a297feb38e2236aac07fe1381ae4414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:39:10 +0000
Subject: [PATCH 60/73] fix: restore_rng does not pass over an existing file it
 may not write

A read-only or unreadable state file was treated as missing: the
generator was not restored, and the file was moved aside.
---
 package/inference/utils/rng.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/package/inference/utils/rng.py b/package/inference/utils/rng.py
index 02fd5e9..ae99486 100644
--- a/package/inference/utils/rng.py
+++ b/package/inference/utils/rng.py
@@ -41,7 +41,7 @@ def restore_rng(fname='.numpy-rng-state', notify=True):
     if the file exists; otherwise use (and save) the default initialization.
     The default file name is '.numpy-rng-state'.
     """
-    if os.access(fname, os.R_OK | os.W_OK):
+    if path.exists(fname):
         rng_file = open(fname, 'rb')
         id, state = pickle.load(rng_file)
         rng_file.close()
@@ -54,5 +54,5 @@ def restore_rng(fname='.numpy-rng-state', notify=True):
         else:
             raise ValueError('Invalid ID for RNG in %s!' % fname)
     else:
-        print('No accessible RNG status file; using (and saving) default initialization.')
+        print('No RNG status file; using (and saving) default initialization.')
         save_rng(fname)
-- 
2.43.0


From 0c42f4fcf29fc28f5df75b4aace306db55e008db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:45:15 +0000
Subject: [PATCH 61/73] fix: step grids with an impossible number of steps are
 refused

linstep and logstep accepted zero, negative and fractional numbers of
steps, for which next_step never comes to an end.
---
 package/inference/pie/realparam.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/package/inference/pie/realparam.py b/package/inference/pie/realparam.py
index 3c5dd91..0a9bab0 100644
--- a/package/inference/pie/realparam.py
+++ b/package/inference/pie/realparam.py
@@ -118,14 +118,18 @@ class RealParamHandler(ScalarParamHandler):
 
     # *** Perhaps make these so a single (unnamed) arg -> set n over current range.
 
-    def _step_range(self, lo, hi):
+    def _step_range(self, lo, hi, n):
         """
-        The ends of a step range, defaulting to the parameter's allowed range.
+        The ends of a step range, defaulting to the parameter's allowed range,
+        and the number of steps.
         """
+        if n != int(n) or n < 1:
+            raise ValueError('Need a positive whole number of steps!')
+        n = int(n)
         if not self.bounded:
             if lo is None or hi is None:
                 raise ValueError('Need a range for stepping parameter!')
-            return lo, hi
+            return lo, hi, n
         if lo is None:
             lo = self.lo
         if hi is None:
@@ -134,11 +138,11 @@ class RealParamHandler(ScalarParamHandler):
             raise ParamRangeError("lo step out of parameter's allowed range!")
         if hi < self.lo or hi > self.hi:
             raise ParamRangeError("hi step out of parameter's allowed range!")
-        return lo, hi
+        return lo, hi, n
 
     def linstep(self, lo=None, hi=None, n=10):
         """Step from lo to hi (inclusive) in n equal steps."""
-        lo, hi = self._step_range(lo, hi)
+        lo, hi, n = self._step_range(lo, hi, n)
         delta = (hi-lo)/(n-1.)
         self.stype = lin_steps
         self.slo, self.shi = lo, hi
@@ -154,7 +158,7 @@ class RealParamHandler(ScalarParamHandler):
 
     def logstep(self, lo=None, hi=None, n=10):
         """Step from lo to hi (inclusive) in n logarithmic steps."""
-        lo, hi = self._step_range(lo, hi)
+        lo, hi, n = self._step_range(lo, hi, n)
         if lo*hi <= 0.:
             raise ValueError('Illegal (lo,hi) for log stepping (need same sign)!')
         fac = exp(log(hi/lo)/(n-1.))
-- 
2.43.0


From 4ff2b9c899e5acda88d374af3eab66b94e8d35a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:45:15 +0000
Subject: [PATCH 62/73] fix: step grids whose ends are not finite numbers are
 refused

A NaN end was accepted even for a bounded parameter.
---
 package/inference/pie/realparam.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/package/inference/pie/realparam.py b/package/inference/pie/realparam.py
index 0a9bab0..67527f9 100644
--- a/package/inference/pie/realparam.py
+++ b/package/inference/pie/realparam.py
@@ -3,7 +3,7 @@ Real-valued (i.e., float-valued) parameters.
 """
 
 from .param import *
-from numpy import nextafter
+from numpy import isfinite, nextafter
 from scipy import exp, log, isinf, isnan
 
 from .logger import pielog
@@ -129,14 +129,16 @@ class RealParamHandler(ScalarParamHandler):
         if not self.bounded:
             if lo is None or hi is None:
                 raise ValueError('Need a range for stepping parameter!')
+            if not (isfinite(lo) and isfinite(hi)):
+                raise ValueError('Need a finite range for stepping parameter!')
             return lo, hi, n
         if lo is None:
             lo = self.lo
         if hi is None:
             hi = self.hi
-        if lo < self.lo or lo > self.hi:
+        if not (lo >= self.lo and lo <= self.hi):
             raise ParamRangeError("lo step out of parameter's allowed range!")
-        if hi < self.lo or hi > self.hi:
+        if not (hi >= self.lo and hi <= self.hi):
             raise ParamRangeError("hi step out of parameter's allowed range!")
         return lo, hi, n
 
-- 
2.43.0


From 0019a5963e8ede17c2c0b6d342845137dca33ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:23 +0000
Subject: [PATCH 63/73] fix: a parameter range with a NaN end is refused

Depending on the order, no value could be set within such a range, or
the NaN was ignored and the range was empty.
---
 package/inference/pie/realparam.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/package/inference/pie/realparam.py b/package/inference/pie/realparam.py
index 67527f9..8512281 100644
--- a/package/inference/pie/realparam.py
+++ b/package/inference/pie/realparam.py
@@ -107,11 +107,18 @@ class RealParamHandler(ScalarParamHandler):
             self._set_value(value)
         self._set_status(fixed)
 
+    def _range_ends(self, range):
+        """The lower and upper ends of a range given in either order."""
+        ends = [float(end) for end in range]
+        if isnan(ends).any():
+            raise ValueError('The ends of a range must be numbers!')
+        return min(ends), max(ends)
+
     def range(self, *range):
         if len(range) == 2:  # Two values were passed.
-            self.lo, self.hi = float(min(range)), float(max(range))
+            self.lo, self.hi = self._range_ends(range)
         elif len(range) == 1:  # A 2-tuple was passed.
-            self.lo, self.hi = float(min(range[0])), float(max(range[0]))
+            self.lo, self.hi = self._range_ends(range[0])
         else:
             raise ValueError('Range must be a pair of scalars or a 2-element sequence!')
         self.bounded = 1
@@ -232,7 +239,7 @@ class RealParamHandler(ScalarParamHandler):
     def vary(self, start=None, delta=None, range=None):
         # Verify all arguments before changing anything.
         if range:
-            lo, hi = float(min(range)), float(max(range))
+            lo, hi = self._range_ends(range)
         elif self.bounded:
             lo, hi = self.lo, self.hi
         else:
-- 
2.43.0


From 90a246325460a4b56ec0dda2e0c2ed2406c5bb88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:23 +0000
Subject: [PATCH 64/73] fix: vary refuses a scale that is zero or not a number

A fit of a parameter with a zero scale reported its start value as the
optimum.
---
 package/inference/pie/realparam.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/package/inference/pie/realparam.py b/package/inference/pie/realparam.py
index 8512281..94d772a 100644
--- a/package/inference/pie/realparam.py
+++ b/package/inference/pie/realparam.py
@@ -247,6 +247,8 @@ class RealParamHandler(ScalarParamHandler):
         if delta is None and self.delta is None:
             # *** Perhaps use a default delta (& warn if so)?
             raise ValueError('Need a delta for varying parameter!')
+        if not abs(self.delta if delta is None else delta) > 0.:
+            raise ValueError('Need a nonzero delta for varying parameter!')
         if start is not None and not (start >= lo and start <= hi):
             raise ParamRangeError("Value out of parameter's allowed range!")
         if start is None and self._value is None:
-- 
2.43.0


From 560b627ce7a59992f773de0d5ffdee7adecb34bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:33 +0000
Subject: [PATCH 65/73] fix: bounds of a credible region next to a zero density
 are not NaN

Interpolating the log density from a point where it is -infinity gave
NaN for the lower bound, while the upper bound was found.
---
 package/inference/grid/_gridquad.f | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/package/inference/grid/_gridquad.f b/package/inference/grid/_gridquad.f
index 349021d..797c419 100644
--- a/package/inference/grid/_gridquad.f
+++ b/package/inference/grid/_gridquad.f
@@ -106,8 +106,9 @@ cf2py intent(out) xvals, nx, ok
 	            ok = .false.
 	            return
 	        endif
-	        xvals(nx) = xarr(i) + (xarr(i+1)-xarr(i)) *
-     *            (ycrit - yarr(i)) / (yarr(i+1) - yarr(i))
+c  Interpolate from the upper end, as y(i) may be infinite (log of 0).
+	        xvals(nx) = xarr(i+1) - (xarr(i+1)-xarr(i)) *
+     *            (yarr(i+1) - ycrit) / (yarr(i+1) - yarr(i))
 	    else if (yarr(i+1) .lt. ycrit .and. yarr(i) .gt. ycrit) then
 	        nx = nx + 1
 	        if (nx .gt. nxvmax) then
-- 
2.43.0


From 98ef99ab339c9a0221ca6d2d01dcaedec450f770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:30 +0000
Subject: [PATCH 66/73] fix: Population1D accepts error bars

---
 package/inference/mc/population.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/package/inference/mc/population.py b/package/inference/mc/population.py
index 1353c1a..770b4a1 100644
--- a/package/inference/mc/population.py
+++ b/package/inference/mc/population.py
@@ -207,7 +207,7 @@ class Population1D(Population):
         indices = array(vals).argsort()
         self.vals = vals[indices].copy()
         self.weights = array(weights)[indices].copy()
-        if err == None:
+        if err is None:
             self.err = None
         else:
             self.err = array(err)[indices].copy()
@@ -237,7 +237,7 @@ class Population1D(Population):
         # The last step is zero.
         absc.append(end)
         ord.append(0.)
-        if self.err == None:
+        if self.err is None:
             return array(absc), array(ord)
         else:
             # For error bars, just copy the stored errors in the middle of
@@ -260,10 +260,10 @@ class Population1D(Population):
             start = self.vals[0]
         if end is None:
             end = self.vals[-1]
-        if self.err == None:
+        if self.err is None:
             a, o = self.haz_pts(start, end)
         else:
             a, o, ea, eo, ee = self.haz_pts(start, end)
         pl.plot(a, o, 'b-', linewidth=2)
-        if self.err != None:
+        if self.err is not None:
             pl.errorbar(ea, eo, ee, fmt='o', markersize=0)
-- 
2.43.0


From 345bd670a4929543f07a0272124d6cfc7b51171d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:51:51 +0000
Subject: [PATCH 67/73] fix: refining a logarithmic grid keeps its intervals
 logarithmic

---
 package/inference/grid/grid1d.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/package/inference/grid/grid1d.py b/package/inference/grid/grid1d.py
index c9979d8..9dbc007 100644
--- a/package/inference/grid/grid1d.py
+++ b/package/inference/grid/grid1d.py
@@ -181,6 +181,7 @@ class BasicInterval:
             self.step = (self.hi-self.lo) / (n-1.)
         else:
             self.step = log(self.hi/self.lo) / (n-1.)
+            self.fac = exp(self.step)
 
 
 ################################################################################
@@ -216,6 +217,7 @@ class RefinedIntervalList1D:
                 raise ValueError("Zero boundary for log interval!")
         else:
             raise ValueError("Interval stype must be Lin or Log!")
+        self.stype = stype
         self.base = BasicInterval(self.lo, self.hi, n, stype=stype)
 
         # Initialize the list with the base interval.
@@ -310,7 +312,7 @@ class RefinedIntervalList1D:
             hi = min(hi_int[2], int_hi.hi)  # don't let roundoff exceed the interval
         # Test if resolved.  Use lo_int rather than hi_int, because if
         # hi happens to hit an endpoint, hi_int's lo == its hi.
-        if 5*step > (lo_int[2]-lo_int[1]):  # resolved
+        if 5*step > self._stepSize(lo_int[1], lo_int[2], 2):  # resolved
             n = self._numPts(lo, hi, step)
         step = self._stepSize(lo, hi, n)
 
@@ -323,12 +325,12 @@ class RefinedIntervalList1D:
             self._del(nlo)
             if lo > int_lo.lo:
                 m = self._numPts(int_lo.lo, lo, int_lo.step)
-                self._insert(nlo, BasicInterval(int_lo.lo, lo, m))
+                self._insert(nlo, BasicInterval(int_lo.lo, lo, m, self.stype))
                 nlo = nlo + 1
-            self._insert(nlo, BasicInterval(lo, hi, n))
+            self._insert(nlo, BasicInterval(lo, hi, n, self.stype))
             if int_lo.hi > hi:
                 m = self._numPts(hi, int_lo.hi, int_lo.step)
-                self._insert(nlo+1, BasicInterval(hi, int_lo.hi, m))
+                self._insert(nlo+1, BasicInterval(hi, int_lo.hi, m, self.stype))
             self.merge()
             return
 
@@ -338,19 +340,19 @@ class RefinedIntervalList1D:
             self._del(nlo)
             if lo > int_lo.lo:
                 m = self._numPts(int_lo.lo, lo, int_lo.step)
-                self._insert(nlo, BasicInterval(int_lo.lo, lo, m))
+                self._insert(nlo, BasicInterval(int_lo.lo, lo, m, self.stype))
                 nlo = nlo + 1
                 nhi = nhi + 1        # Shift nhi since we're adding an intvl.
             m = self._numPts(lo, int_lo.hi, step)
-            self._insert(nlo, BasicInterval(lo, int_lo.hi, m))
+            self._insert(nlo, BasicInterval(lo, int_lo.hi, m, self.stype))
             nlo = nlo + 1
         if step < int_hi.step:
             self._del(nhi)
             m = self._numPts(int_hi.lo, hi, step)
-            self._insert(nhi, BasicInterval(int_hi.lo, hi, m))
+            self._insert(nhi, BasicInterval(int_hi.lo, hi, m, self.stype))
             if int_hi.hi > hi:
                 m = self._numPts(hi, int_hi.hi, int_hi.step)
-                self._insert(nhi+1, BasicInterval(hi, int_hi.hi, m))
+                self._insert(nhi+1, BasicInterval(hi, int_hi.hi, m, self.stype))
                 # We needn't update nhi here since range won't include it.
         for i in range(nlo, nhi):
             if self.ilist[i].step > step:
@@ -381,7 +383,7 @@ class RefinedIntervalList1D:
                 n = self.ilist[i].n + self.ilist[i+1].n - 1
                 self._del(i)
                 self._del(i)
-                self._insert(i, BasicInterval(lo, hi, n))
+                self._insert(i, BasicInterval(lo, hi, n, self.stype))
                 self.cumpts[i] = self.cumpts[i+1]
                 del self.cumpts[-1]
             else:
-- 
2.43.0


From bfe0f0bcd85ed06d13bef913d17d796bc704ef2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:16:19 +0000
Subject: [PATCH 68/73] fix: the log likelihood of an under/overflowing channel
 is not left undefined

---
 package/inference/count/_cbmlike.f | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/package/inference/count/_cbmlike.f b/package/inference/count/_cbmlike.f
index 7c7d2e7..3e40eb6 100644
--- a/package/inference/count/_cbmlike.f
+++ b/package/inference/count/_cbmlike.f
@@ -351,7 +351,7 @@ c---  It is conceivable it could underflow, if we are evaluating
 c---  the likelihood extremely far from the peak.  It should
 c---  never overflow, but we check anyway.
         if (lterm .lt. -700. .or. lterm .gt. 700.) then
-            slike = 0.
+            slmlike = lterm
             print *, 'Under/overflow lterm in slike:'
             write(*,'(g12.4,2i6,2g12.4)') s, n_on, n_off, t_on, t_off
             ierr = 1
@@ -504,7 +504,8 @@ c---  Begin by finding the largest term.
         lterm = km*log(stt) + gammln(arg1) - gammln(arg2) - 
      +          gammln(arg3) - s*t_on - offset
         if (lterm .lt. -700. .or. lterm .gt. 700.) then
-            slike = 0.
+            sll = lterm
+            dsll = km/s - t_on
             print *, 'Under/overflow lterm in cbmllike:'
             write(*,'(g12.4,2i6,2g12.4)') s, n_on, n_off, t_on, t_off
             ierr = 1
-- 
2.43.0


From f69e028b6642276c64852a916ec97404e83ef3d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:52:47 +0000
Subject: [PATCH 69/73] fix: a value that cannot be added to a LogSummer leaves
 it alone

---
 package/inference/utils/numutils.py | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/package/inference/utils/numutils.py b/package/inference/utils/numutils.py
index 71340db..0544f9e 100644
--- a/package/inference/utils/numutils.py
+++ b/package/inference/utils/numutils.py
@@ -97,33 +97,39 @@ class LogSummer:
             self.sigSum = None
             
     def __add__(self, val):
-        self.n += 1
+        # Work out the new sums first, so that a value that cannot be added
+        # leaves the old ones (and the count) alone.
+        val = val + 0.
         if self.logSum == None:
-            self.logSum = val
+            logSum = val
         elif self.logSum >= val:
+            logSum = self.logSum
             dif = val - self.logSum
             if dif > -40:	# Handles doubles w/o underflow
-                self.logSum += log(1. + exp(dif))
+                logSum = self.logSum + log(1. + exp(dif))
         else:
             dif = self.logSum - val
             if dif > -40:
-                self.logSum = val + log(1. + exp(dif))
+                logSum = val + log(1. + exp(dif))
             else:
-                self.logSum = val
+                logSum = val
         if self.dosig:
             v2 = 2*val
             if self.sigSum == None:
-                self.sigSum = v2
+                sigSum = v2
             elif self.sigSum >= v2:
+                sigSum = self.sigSum
                 dif = v2 - self.sigSum
                 if dif > -40:
-                    self.sigSum += log(1. + exp(dif))
+                    sigSum = self.sigSum + log(1. + exp(dif))
             else:
                 dif = self.sigSum - v2
                 if dif > -40:
-                    self.sigSum = v2 + log(1. + exp(dif))
+                    sigSum = v2 + log(1. + exp(dif))
                 else:
-                    self.sigSum = v2
+                    sigSum = v2
+            self.sigSum = sigSum
+        self.n, self.logSum = self.n + 1, logSum
         return self
         
     def add_zero(self):
-- 
2.43.0


From 2e4772c10c5084bbd45852731fb2c0dc4ec2f3df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:53:00 +0000
Subject: [PATCH 70/73] fix: a LogSummer for standard deviations resumes with
 its sum of squares

---
 package/inference/utils/numutils.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/package/inference/utils/numutils.py b/package/inference/utils/numutils.py
index 0544f9e..8a1879e 100644
--- a/package/inference/utils/numutils.py
+++ b/package/inference/utils/numutils.py
@@ -87,14 +87,19 @@ class LogSummer:
     def __init__(self, dosig=None, start=None):
         """Initialize; can use start = (n, log(sum)) to start
 		with results of a prior sum of n values.  If sig==True,
-		a running sum of x**2 is also kept."""
+		a running sum of x**2 is also kept, and a prior sum
+		is given as start = (n, log(sum), log(sum of x**2))."""
         if start==None:
             self.n, self.logSum = 0, None
         else:
-            self.n, self.logSum = start
+            self.n, self.logSum = start[:2]
         self.dosig = dosig
         if dosig:
             self.sigSum = None
+            if self.logSum != None:
+                if len(start) < 3:
+                    raise ValueError('Need the log of the prior sum of x**2!')
+                self.sigSum = start[2]
             
     def __add__(self, val):
         # Work out the new sums first, so that a value that cannot be added
-- 
2.43.0


From 8fa451f9cbbb545fc5781e765392a83f47283cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:53:14 +0000
Subject: [PATCH 71/73] fix: a LogSummer does not forget a NaN with the next
 value

---
 package/inference/utils/numutils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/package/inference/utils/numutils.py b/package/inference/utils/numutils.py
index 8a1879e..581cc87 100644
--- a/package/inference/utils/numutils.py
+++ b/package/inference/utils/numutils.py
@@ -1,4 +1,4 @@
-from numpy import exp, log, fromfunction
+from numpy import exp, log, isnan, fromfunction
 # from roots import zbracket
 
 __all__ = ['lin_stepper', 'lin_enum_stepper', 'log_stepper', 'log_enum_stepper',
@@ -107,7 +107,7 @@ class LogSummer:
         val = val + 0.
         if self.logSum == None:
             logSum = val
-        elif self.logSum >= val:
+        elif self.logSum >= val or isnan(self.logSum):
             logSum = self.logSum
             dif = val - self.logSum
             if dif > -40:	# Handles doubles w/o underflow
@@ -122,7 +122,7 @@ class LogSummer:
             v2 = 2*val
             if self.sigSum == None:
                 sigSum = v2
-            elif self.sigSum >= v2:
+            elif self.sigSum >= v2 or isnan(self.sigSum):
                 sigSum = self.sigSum
                 dif = v2 - self.sigSum
                 if dif > -40:
-- 
2.43.0


From 8bfec1228cf3c0bdae0fea463bed010ed9a6faf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:53:31 +0000
Subject: [PATCH 72/73] fix: the standard deviation of equal values in a
 LogSummer is not NaN

---
 package/inference/utils/numutils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/package/inference/utils/numutils.py b/package/inference/utils/numutils.py
index 581cc87..2b59ec4 100644
--- a/package/inference/utils/numutils.py
+++ b/package/inference/utils/numutils.py
@@ -154,7 +154,8 @@ class LogSummer:
             dif = 2*lmean - l2
             lsig = 0.5*l2
             if dif > -40:	# Otherwise the (-mean**2) part is below roundoff.
-                lsig += 0.5*log(1. - exp(dif))
+                # Roundoff can make the variance of equal values negative.
+                lsig += 0.5*log(max(1. - exp(dif), 0.))
             return self.n, self.logSum, self.sigSum, lmean, lsig
         else:
             return self.n, self.logSum, lmean
-- 
2.43.0


From 270f93fbe500f121e5f3732a068555ee341c46ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:48:55 +0000
Subject: [PATCH 73/73] fix: a listener that removes itself does not hide the
 change from the next one

---
 package/inference/pie/param.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/package/inference/pie/param.py b/package/inference/pie/param.py
index b338aa7..1f7e49e 100644
--- a/package/inference/pie/param.py
+++ b/package/inference/pie/param.py
@@ -185,7 +185,7 @@ class ScalarParamHandler(ParamHandler):
         old = self.status
         self.status = status
         pielog.debug('setStatus for %s %s %s',self.name, old, status)
-        for listener in self.listeners:
+        for listener in list(self.listeners):  # one may be removed meanwhile
             listener._on_param_status_change(self, old, status)
 
 # *** Is there a use case for this?
@@ -201,5 +201,5 @@ class ScalarParamHandler(ParamHandler):
         """
         self._value = self.value_class(value, self)
         setattr(self.owner, self.value_name, self._value)
-        for listener in self.listeners:
+        for listener in list(self.listeners):  # one may be removed meanwhile
             listener._on_param_value_change(self.param_inst)
-- 
2.43.0

