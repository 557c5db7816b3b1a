From b753ce5724417bd1504c9432a14c1f2271cb7560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:14 +0000
Subject: [PATCH 01/46] fix: caches confuse calls with different arguments

Entries were identified by the python hash of flattened arguments: -1 and -2, 1 and
True, or arrays with different shapes shared the same entry, and keys involving strings
depended on the hash seed. Unhashable arguments nested in tuples raised an exception.
---
 dolo/misc/caching.py | 55 +++++++++++++++++++++++++++++---------------
 1 file changed, 37 insertions(+), 18 deletions(-)

diff --git a/dolo/misc/caching.py b/dolo/misc/caching.py
index 37ff9d6..9757220 100644
--- a/dolo/misc/caching.py
+++ b/dolo/misc/caching.py
@@ -13,11 +13,10 @@ class memoized(object):
 
     def __call__(self, *args, **kargs):
 
-        targs = (e for e in args)
-        hh = tuple(hashable(e) for e in targs)
-        h2 = hashable(kargs)
-        h = hash((hh, h2))
         try:
+            hh = tuple(hashable(e) for e in args)
+            h2 = hashable(kargs)
+            h = (hh, h2)
             return self.cache[h]
         except KeyError:
             value = self.func(*args, **kargs)
@@ -57,9 +56,14 @@ class cachedondisk(object):
     def __call__(self, *args, **kargs):
         import pickle
 
-        hh = tuple(hashable(e) for e in args)
-        h2 = hashable(kargs)
-        h = hash((hh, h2))
+        try:
+            hh = tuple(hashable(e) for e in args)
+            h2 = hashable(kargs)
+            h = digest((hh, h2))
+        except Exception:
+            # uncachable -- for instance, passing a function as an argument.
+            # Better to not cache than to blow up entirely.
+            return self.func(*args, **kargs)
         try:
             with open(".cache/{0}.{1}.pickle".format(self.fname, h), "rb") as f:
                 value = pickle.load(f)
@@ -111,8 +115,7 @@ class DiskDictionary:
     def get_filename(self, key):
         import pickle
 
-        hh = tuple(hashable(k) for k in key)
-        h = hash(hh)
+        h = digest(tuple(hashable(k) for k in key))
         filename = "{0}/{1}.{2}.pickle".format(self.directory, self.funname, h)
         return filename
 
@@ -138,17 +141,33 @@ class DiskDictionary:
             return None
 
 
-import collections
+import collections.abc
 
 
 def hashable(obj):
+    """Converts `obj` to a hashable key. Objects with different values, types or
+    shapes have different keys."""
     if hasattr(obj, "flatten"):  # for numpy arrays
-        return tuple(obj.flatten().tolist())
-    if isinstance(obj, collections.abc.Hashable):
-        return obj
+        values = tuple(hashable(e) for e in obj.flatten().tolist())
+        return (type(obj), str(obj.dtype), obj.shape, values)
     if isinstance(obj, collections.abc.Mapping):
-        items = [(k, hashable(v)) for (k, v) in obj.items()]
-        return frozenset(items)
-    if isinstance(obj, collections.abc.Iterable):
-        return tuple([hashable(item) for item in obj])
-    return TypeError(type(obj))
+        items = [(hashable(k), hashable(v)) for (k, v) in obj.items()]
+        return (type(obj), tuple(sorted(items, key=repr)))
+    if isinstance(obj, (tuple, list)):
+        return (type(obj), tuple([hashable(item) for item in obj]))
+    if isinstance(obj, collections.abc.Hashable):
+        return (type(obj), obj)
+    raise TypeError(type(obj))
+
+
+def digest(key):
+    """Computes a string identifying `key`, which is the same in all sessions."""
+    import hashlib
+    import io
+    import pickle
+
+    buf = io.BytesIO()
+    pickler = pickle.Pickler(buf, protocol=4)
+    pickler.fast = True  # result must not depend on objects identities
+    pickler.dump(key)
+    return hashlib.sha1(buf.getvalue()).hexdigest()
-- 
2.43.0


From 4683351b74f16743afcafac6647e1f86a5f6272d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:14 +0000
Subject: [PATCH 02/46] fix: interrupted or failing writes corrupt the disk
 cache

A crash or an error (e.g. disk full) during a write left a truncated entry which made
all subsequent calls fail. I/O errors were raised to the caller even though the result
was available.
---
 dolo/misc/caching.py | 54 ++++++++++++++++++++++++++++++++------------
 1 file changed, 40 insertions(+), 14 deletions(-)

diff --git a/dolo/misc/caching.py b/dolo/misc/caching.py
index 9757220..5d28b00 100644
--- a/dolo/misc/caching.py
+++ b/dolo/misc/caching.py
@@ -47,8 +47,10 @@ class cachedondisk(object):
         # create caching direcory if it is not there already
         import os
 
-        if not os.path.isdir(".cache"):
-            os.mkdir(".cache")
+        try:
+            os.makedirs(".cache", exist_ok=True)
+        except OSError:
+            pass  # cache will not be used
 
         self.func = func
         self.fname = func.__name__
@@ -64,21 +66,22 @@ class cachedondisk(object):
             # uncachable -- for instance, passing a function as an argument.
             # Better to not cache than to blow up entirely.
             return self.func(*args, **kargs)
+        filename = ".cache/{0}.{1}.pickle".format(self.fname, h)
         try:
-            with open(".cache/{0}.{1}.pickle".format(self.fname, h), "rb") as f:
+            with open(filename, "rb") as f:
                 value = pickle.load(f)
             return value
-        except IOError:
-            value = self.func(*args, **kargs)
-            if value is not None:  # should there be other kinds of error values
-                # write file with h
-                with open(".cache/{0}.{1}.pickle".format(self.fname, h), "wb") as f:
-                    pickle.dump(value, f)
-            return value
-        except TypeError:
-            # uncachable -- for instance, passing a list as an argument.
-            # Better to not cache than to blow up entirely.
-            return self.func(*args, **kargs)
+        except Exception:
+            # no entry, or an entry which can't be read
+            pass
+        value = self.func(*args, **kargs)
+        if value is not None:  # should there be other kinds of error values
+            try:
+                write_entry(filename, value)
+            except Exception:
+                # a value which can't be stored is still a good value
+                pass
+        return value
 
     def __repr__(self):
         """Return the function's docstring."""
@@ -89,6 +92,29 @@ class cachedondisk(object):
         return functools.partial(self.__call__, obj)
 
 
+def write_entry(filename, value):
+    """Stores `value` so that a crash or an error leaves a complete entry (the former
+    one if there was one) or none at all."""
+
+    import os
+    import pickle
+    import tempfile
+
+    directory = os.path.dirname(filename)
+    os.makedirs(directory, exist_ok=True)
+    fd, tmp = tempfile.mkstemp(suffix=".tmp", dir=directory)
+    try:
+        with os.fdopen(fd, "wb") as f:
+            pickle.dump(value, f)
+        os.replace(tmp, filename)
+    except BaseException:
+        try:
+            os.remove(tmp)
+        except OSError:
+            pass
+        raise
+
+
 def clear_cache(function_name=None):
 
     import os
-- 
2.43.0


From 8af260ed4f89cb3182b0137f4162fbaed3485662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:14 +0000
Subject: [PATCH 03/46] fix: DiskDictionary never stores anything

Pickles were written to and read from files opened in text mode: all assignments failed
and get() always returned None.
---
 dolo/misc/caching.py | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/dolo/misc/caching.py b/dolo/misc/caching.py
index 5d28b00..a99e1df 100644
--- a/dolo/misc/caching.py
+++ b/dolo/misc/caching.py
@@ -134,36 +134,28 @@ import os
 class DiskDictionary:
     def __init__(self, directory=".cache", funname="fun"):
         self.funname = funname
-        if not os.path.isdir(directory):
-            os.mkdir(directory)
+        os.makedirs(directory, exist_ok=True)
         self.directory = directory
 
     def get_filename(self, key):
-        import pickle
 
         h = digest(tuple(hashable(k) for k in key))
         filename = "{0}/{1}.{2}.pickle".format(self.directory, self.funname, h)
         return filename
 
     def __setitem__(self, key, value):
-        import pickle
-
         filename = self.get_filename(key)
-        try:
-            with open(filename, "w") as f:
-                pickle.dump(value, f)
-        except TypeError as e:
-            raise e
+        write_entry(filename, value)
 
     def get(self, item):
         import pickle
 
         filename = self.get_filename(item)
         try:
-            with open(filename) as f:
+            with open(filename, "rb") as f:
                 value = pickle.load(f)
                 return value
-        except:
+        except Exception:
             return None
 
 
-- 
2.43.0


From dbdad2b7102441ef4605c428938a3a764ea6c091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:14 +0000
Subject: [PATCH 04/46] fix: clear_cache passes the function name to a shell

Names with special characters could remove the entries of other functions, or any other
file.
---
 dolo/misc/caching.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/dolo/misc/caching.py b/dolo/misc/caching.py
index a99e1df..5e38de7 100644
--- a/dolo/misc/caching.py
+++ b/dolo/misc/caching.py
@@ -120,12 +120,20 @@ def clear_cache(function_name=None):
     import os
 
     try:
-        if function_name:
-            os.system("rm -rf .cache/{}.*.pickle".format(function_name))
-        else:
-            os.system("rm -rf .cache/*.pickle")
-    except:
-        pass
+        filenames = os.listdir(".cache")
+    except OSError:
+        return
+    for filename in filenames:
+        # entries are named: function_name.key.pickle
+        fields = filename.rsplit(".", 2)
+        if len(fields) != 3 or fields[2] != "pickle":
+            continue
+        if function_name and fields[0] != function_name:
+            continue
+        try:
+            os.remove(os.path.join(".cache", filename))
+        except OSError:
+            pass
 
 
 import os
-- 
2.43.0


From be958eec5d4019fe02289bd64bb5f01f836707e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:04 +0000
Subject: [PATCH 05/46] fix: groot leaves the directory changed when the search
 fails

When a directory on the way up could not be listed or entered, or when the
sub-path could not be entered, groot raised from another directory than the
initial one.
---
 dolo/misc/groot.py | 30 +++++++++---------------------
 1 file changed, 9 insertions(+), 21 deletions(-)

diff --git a/dolo/misc/groot.py b/dolo/misc/groot.py
index 959dfd8..c075080 100644
--- a/dolo/misc/groot.py
+++ b/dolo/misc/groot.py
@@ -8,27 +8,15 @@ def groot(path=""):
         else:
             return False
 
-    import os, copy
+    import os
 
-    cwd = os.getcwd()  # initial dir
-    cwd0 = copy.copy(cwd)
-    cwd_init = copy.copy(cwd)
+    cwd = os.getcwd()
 
-    found = False
-    sysroot = False
+    # the current directory is changed only once the root has been found
+    while not check_filelist(os.listdir(cwd)):
+        parent = os.path.dirname(cwd)
+        if parent == cwd:
+            raise Exception("Root directory not found.")
+        cwd = parent
 
-    while not found and not sysroot:
-        found = check_filelist(os.listdir())
-        if not found:
-            os.chdir(os.path.join(cwd, os.pardir))
-            cwd = os.getcwd()
-            if cwd == cwd0:
-                sysroot = True
-            else:
-                cwd0 = cwd
-        else:
-            os.chdir(os.path.join(cwd0, path))
-
-    if sysroot:
-        os.chdir(cwd_init)
-        raise Exception("Root directory not found.")
+    os.chdir(os.path.join(cwd, path))
-- 
2.43.0


From 161d42fbc77078f3f44c3201ef97f2d48cdd3341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:04 +0000
Subject: [PATCH 06/46] fix: local files with http in their path are taken for
 web addresses

Also closes the connection when the transfer fails.
---
 dolo/misc/display.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dolo/misc/display.py b/dolo/misc/display.py
index 16cf377..f954605 100644
--- a/dolo/misc/display.py
+++ b/dolo/misc/display.py
@@ -5,11 +5,12 @@ is_python_3 = sys.version_info >= (3, 0)
 
 def read_file_or_url(url):
 
-    if "http" in url:
+    if url.lower().startswith(("http://", "https://")):
         if is_python_3:
             import urllib.request
 
-            txt = urllib.request.urlopen(url).read()
+            with urllib.request.urlopen(url) as f:
+                txt = f.read()
             txt = txt.decode("utf8")  # not very robust
         else:
             import urllib2
-- 
2.43.0


From e032d1b04b5439afe5720300f50e2eaafd77feb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:07 +0000
Subject: [PATCH 07/46] fix: an interrupted first read of the symbols leaves a
 half-built model

Symbols were kept without the auxiliaries when reading the definitions was
interrupted. Reading the definitions first failed for new-style definitions.
---
 dolo/compiler/model.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/dolo/compiler/model.py b/dolo/compiler/model.py
index 8c454bd..bc08ac6 100644
--- a/dolo/compiler/model.py
+++ b/dolo/compiler/model.py
@@ -22,10 +22,17 @@ class SymbolicModel:
             for sg in self.data["symbols"].keys():
                 symbols[sg] = [s.value for s in self.data["symbols"][sg]]
 
-            self.__symbols__ = symbols
+            try:
+                self.__symbols__ = symbols
 
-            # the following call adds auxiliaries (tricky, isn't it?)
-            self.definitions
+                # the following call adds auxiliaries (tricky, isn't it?)
+                self.definitions
+            except BaseException:
+                # don't keep symbols without auxiliaries
+                self.__symbols__ = None
+                self.__definitions__ = None
+                self.__variables__ = None
+                raise
 
         return self.__symbols__
 
@@ -136,6 +143,9 @@ class SymbolicModel:
 
             # at this stage, basic_symbols doesn't contain auxiliaries
             basic_symbols = self.symbols
+            if self.__definitions__ is not None:
+                # they have just been read along with the symbols
+                return self.__definitions__
             vars = sum(
                 [basic_symbols[k] for k in basic_symbols.keys() if k != "parameters"],
                 [],
-- 
2.43.0


From 9c384675df5d7b0e18f28892b6383c045a0a1bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:07 +0000
Subject: [PATCH 08/46] fix: concurrent reads and updates of a model

Threads reading the symbols or definitions for the first time saw them half
read, and a calibration computed while set_calibration was running in another
thread was kept although outdated.
---
 dolo/compiler/model.py | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/dolo/compiler/model.py b/dolo/compiler/model.py
index bc08ac6..2295aac 100644
--- a/dolo/compiler/model.py
+++ b/dolo/compiler/model.py
@@ -3,6 +3,20 @@ from dolang.language import eval_data
 from dolang.symbolic import str_expression
 
 import copy
+import functools
+import threading
+
+# protects data computed on first use from concurrent readers and updates
+_lock = threading.RLock()
+
+
+def synchronized(fun):
+    @functools.wraps(fun)
+    def new_fun(*args, **kwargs):
+        with _lock:
+            return fun(*args, **kwargs)
+
+    return new_fun
 
 
 class SymbolicModel:
@@ -11,6 +25,7 @@ class SymbolicModel:
         self.data = data
 
     @property
+    @synchronized
     def symbols(self):
 
         if self.__symbols__ is None:
@@ -37,6 +52,7 @@ class SymbolicModel:
         return self.__symbols__
 
     @property
+    @synchronized
     def variables(self):
         if self.__variables__ is None:
 
@@ -47,6 +63,7 @@ class SymbolicModel:
         return self.__variables__
 
     @property
+    @synchronized
     def equations(self):
         import yaml.nodes
 
@@ -135,6 +152,7 @@ class SymbolicModel:
         return self.__equations__
 
     @property
+    @synchronized
     def definitions(self):
 
         from yaml import ScalarNode
@@ -288,6 +306,7 @@ class SymbolicModel:
     def options(self):
         return self.data["options"]
 
+    @synchronized
     def get_calibration(self):
 
         # if self.__calibration__ is None:
@@ -354,6 +373,7 @@ class SymbolicModel:
 
     # return self.__calibration__
 
+    @synchronized
     def get_domain(self):
 
         calibration = self.get_calibration()
@@ -395,6 +415,7 @@ class SymbolicModel:
 
         return domain
 
+    @synchronized
     def get_exogenous(self):
 
         if "exogenous" not in self.data:
@@ -434,6 +455,7 @@ class SymbolicModel:
             return ProductProcess(*exogenous.values())
 
     @property
+    @synchronized
     def endo_grid(self):
 
         # determine bounds:
@@ -570,6 +592,7 @@ class Model(SymbolicModel):
             self.__variables__ = None
             self.__equations__ = None
 
+    @synchronized
     def set_calibration(self, *pargs, **kwargs):
         if len(pargs) == 1:
             self.set_calibration(**pargs[0])
@@ -577,6 +600,7 @@ class Model(SymbolicModel):
         self.data["calibration"].update(kwargs)
 
     @property
+    @synchronized
     def calibration(self):
         if self.__calibration__ is None:
             calibration_dict = super().get_calibration()
@@ -587,12 +611,14 @@ class Model(SymbolicModel):
         return self.__calibration__
 
     @property
+    @synchronized
     def exogenous(self):
         if self.__exogenous__ is None:
             self.__exogenous__ = super(self.__class__, self).get_exogenous()
         return self.__exogenous__
 
     @property
+    @synchronized
     def domain(self):
         if self.__domain__ is None:
             self.__domain__ = super().get_domain()
@@ -650,6 +676,7 @@ class Model(SymbolicModel):
         self.__functions__ = functions
 
     @property
+    @synchronized
     def functions(self):
         if self.__functions__ is None:
             self.__compile_functions__()
-- 
2.43.0


From d9957d62e1bfbb9c5aa526a6a6504478257f7762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:31 +0000
Subject: [PATCH 09/46] fix: set_calibration loses values not listed in the
 calibration section

---
 dolo/compiler/model.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/dolo/compiler/model.py b/dolo/compiler/model.py
index 2295aac..590761f 100644
--- a/dolo/compiler/model.py
+++ b/dolo/compiler/model.py
@@ -597,7 +597,17 @@ class Model(SymbolicModel):
         if len(pargs) == 1:
             self.set_calibration(**pargs[0])
         self.set_changed()
-        self.data["calibration"].update(kwargs)
+        calibration = self.data["calibration"]
+        for k in kwargs:
+            if k not in calibration:
+                # update() doesn't keep the name of a new entry
+                from yaml import MappingNode, ScalarNode
+
+                entry = MappingNode(tag="tag:yaml.org,2002:map", value=[])
+                entry[k] = kwargs[k]
+                key = ScalarNode(tag="tag:yaml.org,2002:str", value=k)
+                calibration.value.append((key, entry.value[0][1]))
+        calibration.update(kwargs)
 
     @property
     @synchronized
-- 
2.43.0


From 8071fac2f39379cc8a61020110f15af391173b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:03 +0000
Subject: [PATCH 10/46] fix: simulated Markov chains ignore the seed and can
 leave the state space

Random numbers were drawn from numba's own generator, which numpy.random.seed
does not control. A row of cumulated probabilities can end slightly below one:
a larger draw then led to a state out of range. return_values referred to an
undefined name.
---
 dolo/numeric/processes.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/dolo/numeric/processes.py b/dolo/numeric/processes.py
index fa934ec..d3e388f 100644
--- a/dolo/numeric/processes.py
+++ b/dolo/numeric/processes.py
@@ -11,7 +11,6 @@ Matrix = List[Vector]
 
 from numba import jit, njit
 from dolo.numeric.grids import EmptyGrid, CartesianGrid, UnstructuredGrid
-from random import random as rand
 
 from xarray import DataArray
 
@@ -28,11 +27,16 @@ def choice(x, n, cumul):
             running = False
         else:
             i += 1
+    if i == n:
+        # cumul[-1] can be slightly below 1: take the last likely state
+        i = n - 1
+        while i > 0 and cumul[i - 1] >= cumul[i]:
+            i -= 1
     return i
 
 
 @njit
-def simulate_mc_indices(C, N, T, i0):
+def simulate_mc_indices(C, N, T, i0, u):
     k = len(C)
     out = np.zeros((T, N), dtype=np.int32)
     out[0, :] = i0
@@ -40,7 +44,7 @@ def simulate_mc_indices(C, N, T, i0):
         for t in range(0, T - 1):
             ii = out[t, n]
             options = C[ii]
-            x = rand()
+            x = u[t, n]
             ix = choice(x, k, options)
             out[t + 1, n] = ix
     return out
@@ -51,10 +55,11 @@ def simulate_markov_chain(nodes, transitions, N, T, i0=None, return_values=False
     if i0 is not None:
         i0_[:] = i0
     C = transitions.cumsum(axis=1)
-    indices = simulate_mc_indices(C, N, T, i0_)
+    u = np.random.random((T, N))
+    indices = simulate_mc_indices(C, N, T, i0_, u)
     if return_values:
         values = np.reshape(
-            np.concatenate([Q[i, :][None, :] for i in indices.ravel()], axis=0),
+            np.concatenate([nodes[i, :][None, :] for i in indices.ravel()], axis=0),
             indices.shape + (-1,),
         )
         return indices, values
-- 
2.43.0


From d7e76826bd9d8f651b489c859e175058a8d402cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:35 +0000
Subject: [PATCH 11/46] fix: simulations of AR1 and VAR1 processes

AR1 failed on an undefined name and would have counted the mean several times;
both added the mean to the initial value given, and failed when not stochastic.
---
 dolo/numeric/processes.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/dolo/numeric/processes.py b/dolo/numeric/processes.py
index d3e388f..bf5b6e1 100644
--- a/dolo/numeric/processes.py
+++ b/dolo/numeric/processes.py
@@ -467,20 +467,20 @@ class AR1(ContinuousProcess):
         d = self.d
 
         if m0 is None:
-            m0 = np.zeros(d)
+            m0 = mu
         from numpy.random import multivariate_normal
 
         if stochastic:
-            innov = multivariate_normal(mu, Sigma, N * T)
+            innov = multivariate_normal(mu * 0, Sigma, N * T)
         else:
-            innov = mu[None, len(mu)].repeat(T * N, axis=0)
+            innov = np.zeros((T * N, d))
         innov = innov.reshape((T, N, d))
         sim = np.zeros((T, N, d))
-        sim[0, :, :] = m0[None, :]
+        sim[0, :, :] = (m0 - mu)[None, :]
         for t in range(1, sim.shape[0]):
             sim[t, :, :] = sim[t - 1, :, :] @ rho.T + innov[t, :, :]
 
-        sim += μ[None, None, :]
+        sim += mu[None, None, :]
 
         return sim
 
@@ -601,7 +601,7 @@ class VAR1(ContinuousProcess):
         d = self.d
 
         if m0 is None:
-            m0 = np.zeros(d)
+            m0 = self.μ
         from numpy.random import multivariate_normal
 
         Sigma = self.Σ
@@ -609,11 +609,11 @@ class VAR1(ContinuousProcess):
         if stochastic:
             innov = multivariate_normal(mu, Sigma, N * T)
         else:
-            innov = mu[None, len(mu)].repeat(T * N, axis=0)
+            innov = np.zeros((T * N, d))
         innov = innov.reshape((T, N, d))
         rho = self.ρ
         sim = np.zeros((T, N, d))
-        sim[0, :, :] = m0[None, :]
+        sim[0, :, :] = (m0 - self.μ)[None, :]
         for t in range(1, sim.shape[0]):
             sim[t, :, :] = sim[t - 1, :, :] @ rho.T + innov[t, :, :]
 
-- 
2.43.0


From 412365e8709c83cd32a4ea1ae8fa12a65403fa38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:02 +0000
Subject: [PATCH 12/46] fix: draws of Bernouilli, Mixture, Normal and constant
 processes, iid simulations

Bernouilli ignored its parameter and had no dimension, Mixture compared string
keys with integers, one draw of a Normal vector was a column, and constants
could not be drawn. Simulations of iid processes ignored stochastic and m0.
---
 dolo/numeric/distribution.py | 13 ++++++-------
 dolo/numeric/processes.py    | 11 ++++++++++-
 2 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/dolo/numeric/distribution.py b/dolo/numeric/distribution.py
index 5b3132d..836fbc2 100644
--- a/dolo/numeric/distribution.py
+++ b/dolo/numeric/distribution.py
@@ -283,6 +283,7 @@ class Bernouilli(DiscreteDistribution):
     @greek_tolerance
     def __init__(self, π: float = None):
         self.π = float(π)
+        self.d = 1
 
     def discretize(self, to="iid"):
 
@@ -298,7 +299,7 @@ class Bernouilli(DiscreteDistribution):
 
     def draw(self, N: int) -> Matrix:
         a = np.array([0, 1])
-        c = np.random.choice(a, size=N)
+        c = np.random.choice(a, size=N, p=[1 - self.π, self.π])
         return c.reshape((N, 1))
 
 
@@ -589,11 +590,8 @@ class Normal(ContinuousDistribution):
     def draw(self, N: int) -> Matrix:
 
         res = self._dist_.rvs(size=N)
-        if res.ndim == 1:
-            # scipy returns a 1d object for 1d distribution
-            res = res[:, None]
-
-        return res
+        # scipy returns a 1d object for 1d distribution and for one draw
+        return np.reshape(res, (N, self.d))
 
     def discretize(self, to="iid", N=None) -> FiniteDistribution:
 
@@ -761,7 +759,8 @@ class Mixture(ContinuousDistribution):
         # naive and overkill algorithm
         inds = self.index.draw(N)  # should be (N x 1) array
         return sum(
-            [(inds == k) * dist.draw(N) for (k, dist) in self.distributions.items()]
+            # keys read from a file are strings
+            [(inds == int(k)) * dist.draw(N) for (k, dist) in self.distributions.items()]
         )
 
 
diff --git a/dolo/numeric/processes.py b/dolo/numeric/processes.py
index bf5b6e1..ac2af2c 100644
--- a/dolo/numeric/processes.py
+++ b/dolo/numeric/processes.py
@@ -110,7 +110,13 @@ class IIDProcess(Process):
     def simulate(
         self, N: int = 10, T: int = 100, i0=None, m0=None, stochastic=True
     ) -> DataArray:
-        sim = self.draw((T) * N).reshape((T, N, -1))
+        if stochastic:
+            sim = self.draw((T) * N).reshape((T, N, -1))
+        else:
+            mean = self.discretize(to="iid").integrate(lambda x: x)
+            sim = numpy.zeros((T, N, self.d)) + mean
+        if m0 is not None:
+            sim[0, :, :] = m0
         coords = {"T": range(T), "N": range(N), "V": list(self.names)}
         xar = DataArray(sim, dims=coords.keys(), coords=coords)
         return xar
@@ -130,6 +136,9 @@ class ConstantProcess(IIDProcess):
         assert self.μ.ndim == 1
         self.d = len(self.μ)
 
+    def draw(self, n: int) -> Vector:
+        return self.μ[None, :].repeat(n, axis=0)
+
     def discretize(self, to=None, **kwargs):
 
         if to == "iid":
-- 
2.43.0


From 561ab18211ef23bf4629a33eb5100f935c60aca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:29 +0000
Subject: [PATCH 13/46] fix: simulate draws shocks before seeding and mixes up
 dates

The generator was seeded after the shocks had been drawn. The transition was
applied to last date's and today's shocks instead of today's and tomorrow's.
Supplied discrete shocks and vectors of initial values failed on values that
were never used. Chains whose states have equal values were reported (and
decided upon) as if they were in the first of them.
---
 dolo/algos/simulations.py | 25 ++++++-------------------
 dolo/numeric/processes.py |  8 ++++++--
 2 files changed, 12 insertions(+), 21 deletions(-)

diff --git a/dolo/algos/simulations.py b/dolo/algos/simulations.py
index f716fbf..98f54e3 100644
--- a/dolo/algos/simulations.py
+++ b/dolo/algos/simulations.py
@@ -124,14 +124,13 @@ def simulate(
 
     s_simul[0, :, :] = s0[None, :]
 
+    numpy.random.seed(seed)
+
     # are we simulating a markov chain or a continuous process ?
     if driving_process is not None:
         if len(driving_process.shape) == 3:
             m_simul = driving_process
             sim_type = "continuous"
-            if m0 is None:
-                m0 = model.calibration["exogenous"]
-            x_simul[0, :, :] = dr.eval_ms(m0[None, :], s0[None, :])[0, :]
         elif len(driving_process.shape) == 2:
             i_simul = driving_process
             nodes = dr.exo_grid.nodes
@@ -139,10 +138,8 @@ def simulate(
             # inds = i_simul.ravel()
             # m_simul = np.reshape( np.concatenate( [nodes[i,:][None,:] for i in inds.ravel()], axis=0 ), inds.shape + (-1,) )
             sim_type = "discrete"
-            x_simul[0, :, :] = dr.eval_is(i0, s0[None, :])[0, :]
         else:
             raise Exception("Incorrect specification of driving values.")
-        m0 = m_simul[0, :, :]
     else:
         from dolo.numeric.processes import DiscreteProcess
 
@@ -162,26 +159,17 @@ def simulate(
             if i0 is None:
                 i0 = 0
             dp = process
-            m_simul = dp.simulate(N, T, i0=i0, stochastic=stochastic)
-            i_simul = find_index(m_simul, dp.values)
-            m0 = dp.node(i0)
-            x0 = dr.eval_is(i0, s0[None, :])[0, :]
+            i_simul = dp.simulate_indices(N, T, i0=i0, stochastic=stochastic)
+            m_simul = dp.values[i_simul]
         else:
             m_simul = process.simulate(N, T, m0=m0, stochastic=stochastic)
             if isinstance(m_simul, xr.DataArray):
                 m_simul = m_simul.data
             sim_type = "continuous"
-            if m0 is None:
-                m0 = model.calibration["exogenous"]
-            x0 = dr.eval_ms(m0[None, :], s0[None, :])[0, :]
-            x_simul[0, :, :] = x0[None, :]
 
     f = model.functions["arbitrage"]
     g = model.functions["transition"]
 
-    numpy.random.seed(seed)
-
-    mp = m0
     for i in range(T):
         m = m_simul[i, :, :]
         s = s_simul[i, :, :]
@@ -196,10 +184,9 @@ def simulate(
 
         x_simul[i, :, :] = x
 
-        ss = g(mp, s, x, m, parms)
         if i < T - 1:
-            s_simul[i + 1, :, :] = ss
-        mp = m
+            M = m_simul[i + 1, :, :]
+            s_simul[i + 1, :, :] = g(m, s, x, M, parms)
 
     if "auxiliary" not in model.functions:  # TODO: find a better test than this
         l = [s_simul, x_simul]
diff --git a/dolo/numeric/processes.py b/dolo/numeric/processes.py
index ac2af2c..c2ac6e3 100644
--- a/dolo/numeric/processes.py
+++ b/dolo/numeric/processes.py
@@ -296,12 +296,16 @@ class MarkovChain(DiscretizedProcess, DiscreteProcess):
     def iweight(self, i: int, j: int):  # scalar
         return self.transitions[i, j]
 
-    def simulate(self, N, T, i0=0, m0=None, stochastic=True):
-        # m0 is basically ignored
+    def simulate_indices(self, N, T, i0=0, stochastic=True):
         if stochastic:
             inds = simulate_markov_chain(self.values, self.transitions, N, T, i0=i0)
         else:
             inds = np.zeros((T, N), dtype=int) + i0
+        return inds
+
+    def simulate(self, N, T, i0=0, m0=None, stochastic=True):
+        # m0 is basically ignored
+        inds = self.simulate_indices(N, T, i0=i0, stochastic=stochastic)
         return self.values[inds]
 
 
-- 
2.43.0


From 12f7f01bd10abad21c0e9f98cdcd7bc6482ac69c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:35 +0000
Subject: [PATCH 14/46] fix: the mean of a normal vector is counted twice when
 discretized

---
 dolo/numeric/distribution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolo/numeric/distribution.py b/dolo/numeric/distribution.py
index 836fbc2..2edcf1b 100644
--- a/dolo/numeric/distribution.py
+++ b/dolo/numeric/distribution.py
@@ -602,7 +602,7 @@ class Normal(ContinuousDistribution):
                 N = [N] * self.d
             from dolo.numeric.discretization.quadrature import gauss_hermite_nodes  # type: ignore
 
-            [x, w] = gauss_hermite_nodes(N, self.Σ, mu=self.Μ)
+            [x, w] = gauss_hermite_nodes(N, self.Σ)
             x = np.row_stack([(e + self.Μ) for e in x])
             return FiniteDistribution(x, w, origin=self)
 
-- 
2.43.0


From 6b2ab41e945a6e91c84d665a87964e7594f8f0ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:35 +0000
Subject: [PATCH 15/46] fix: quadrature modifies a covariance matrix with zero
 columns

---
 dolo/numeric/discretization/quadrature.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dolo/numeric/discretization/quadrature.py b/dolo/numeric/discretization/quadrature.py
index b92c37f..0854ab8 100644
--- a/dolo/numeric/discretization/quadrature.py
+++ b/dolo/numeric/discretization/quadrature.py
@@ -104,6 +104,7 @@ def gauss_hermite_nodes(orders, sigma, mu=None):
         w = reduce(numpy.kron, weights)
 
         zero_columns = numpy.where(sigma.sum(axis=0) == 0)[0]
+        sigma = numpy.array(sigma)  # don't modify the caller's matrix
         for i in zero_columns:
             sigma[i, i] = 1.0
 
-- 
2.43.0


From 3f40598088d823fcd8a9cb2d10e86a4209ca277a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:32 +0000
Subject: [PATCH 16/46] fix: initial value of integer valued iid simulations is
 truncated

---
 dolo/numeric/processes.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dolo/numeric/processes.py b/dolo/numeric/processes.py
index c2ac6e3..eb81076 100644
--- a/dolo/numeric/processes.py
+++ b/dolo/numeric/processes.py
@@ -116,6 +116,7 @@ class IIDProcess(Process):
             mean = self.discretize(to="iid").integrate(lambda x: x)
             sim = numpy.zeros((T, N, self.d)) + mean
         if m0 is not None:
+            sim = sim.astype(float)
             sim[0, :, :] = m0
         coords = {"T": range(T), "N": range(N), "V": list(self.names)}
         xar = DataArray(sim, dims=coords.keys(), coords=coords)
-- 
2.43.0


From e413db96ee818832658478534d798a2ce80ecb12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:43 +0000
Subject: [PATCH 17/46] fix: reading old style definitions adds entries to the
 model's variables

---
 dolo/compiler/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolo/compiler/model.py b/dolo/compiler/model.py
index 590761f..7ae79f5 100644
--- a/dolo/compiler/model.py
+++ b/dolo/compiler/model.py
@@ -243,7 +243,7 @@ class SymbolicModel:
                 ]
                 auxiliaries = [str_expression(e) for e in auxiliaries]
                 self.__symbols__["auxiliaries"] = auxiliaries
-                vars = self.variables
+                vars = self.variables.copy()
                 auxs = []
 
                 definitions = self.data["definitions"]
-- 
2.43.0


From e55a81c786bf2d5e938db7e97a8f156b706b3c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:19 +0000
Subject: [PATCH 18/46] fix: evaluate_policy modifies the initial guess

---
 dolo/algos/value_iteration.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dolo/algos/value_iteration.py b/dolo/algos/value_iteration.py
index 8e52d13..163c65e 100644
--- a/dolo/algos/value_iteration.py
+++ b/dolo/algos/value_iteration.py
@@ -1,3 +1,4 @@
+import copy
 import time
 import numpy as np
 import numpy
@@ -276,7 +277,7 @@ def evaluate_policy(
     n_s = len(model.symbols["states"])
 
     if dr0 is not None:
-        mdrv = dr0
+        mdrv = copy.copy(dr0)
     else:
         mdrv = DecisionRule(exo_grid, endo_grid, interp_method=interp_method)
 
-- 
2.43.0


From bdcd3f0d495e1289e497b010627976d0b82f5696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:19 +0000
Subject: [PATCH 19/46] fix: egm writes to the console when not verbose

---
 dolo/algos/egm.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/dolo/algos/egm.py b/dolo/algos/egm.py
index 5e158c9..626f300 100644
--- a/dolo/algos/egm.py
+++ b/dolo/algos/egm.py
@@ -107,7 +107,6 @@ def egm(
                 w = dp.iweight(i_m, i_M)
                 M = dp.inode(i_m, i_M)
                 S = gt(m, a, M, p)
-                print(it, i_m, i_M)
                 X = drfut(i_M, S)
                 z[i_m, :, :] += w * h(M, S, X, p)
             xa[i_m, :, :] = τ(m, a, z[i_m, :, :], p)
-- 
2.43.0


From f8f20bb5585740fe8b8e923f5d32b6ac9bee47e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:51 +0000
Subject: [PATCH 20/46] fix: interrupts are swallowed or replaced by other
 errors

---
 dolo/algos/simulations.py         |  6 +++---
 dolo/compiler/model.py            |  4 ++--
 dolo/numeric/optimize/newton.py   |  4 ++--
 dolo/numeric/processes.py         | 18 +++++++++---------
 dolo/numeric/serial_operations.py |  4 ++--
 5 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/dolo/algos/simulations.py b/dolo/algos/simulations.py
index 98f54e3..32bcb34 100644
--- a/dolo/algos/simulations.py
+++ b/dolo/algos/simulations.py
@@ -20,7 +20,7 @@ def response(model, dr, varname, T=40, impulse: float = None):
             impulse = numpy.sqrt(
                 model.exogenous.Σ[i_exo, i_exo]
             )  # works only for IID/AR1
-        except:
+        except (AttributeError, IndexError, TypeError):
             impulse = numpy.sqrt(model.exogenous.σ)  # works only for IID/AR1
 
     e1 = numpy.zeros(len(model.symbols["exogenous"]))
@@ -240,7 +240,7 @@ def tabulate(
         try:
             endo_grid = dr.endo_grid
             bounds = [endo_grid.min[index], endo_grid.max[index]]
-        except:
+        except (AttributeError, IndexError, TypeError):
             domain = model.domain
             bounds = [domain.min[index], domain.max[index]]
         if bounds is None:
@@ -256,7 +256,7 @@ def tabulate(
 
     try:
         dp = dr.dprocess
-    except:
+    except AttributeError:
         dp = model.exogenous.discretize()
 
     if (i0 is None) and (m0 is None):
diff --git a/dolo/compiler/model.py b/dolo/compiler/model.py
index 7ae79f5..8ae76c2 100644
--- a/dolo/compiler/model.py
+++ b/dolo/compiler/model.py
@@ -507,7 +507,7 @@ def get_type(d):
     try:
         s = d.tag
         return s.strip("!")
-    except:
+    except AttributeError:
         v = d.get("type")
         return v
 
@@ -546,7 +546,7 @@ def decode_complementarity(comp, control):
 
     try:
         res = regex.match(comp).groups()
-    except:
+    except (AttributeError, TypeError):
         raise Exception("Unable to parse complementarity condition '{}'".format(comp))
 
     res = [r.strip() for r in res]
diff --git a/dolo/numeric/optimize/newton.py b/dolo/numeric/optimize/newton.py
index 2947155..59c231d 100644
--- a/dolo/numeric/optimize/newton.py
+++ b/dolo/numeric/optimize/newton.py
@@ -59,13 +59,13 @@ def serial_solve(A, B, diagnose=True):
         for i in range(sol.shape[0]):
             try:
                 sol[i, :] = linalg_solve(A[i, :, :], B[i, :])
-            except:
+            except Exception as e:
                 # Should be a special type of exception
                 a = Exception("Error solving point {}".format(i))
                 a.x = B[i, :]
                 a.J = A[i, :, :]
                 a.i = i
-                raise a
+                raise a from e
 
     else:
         M = numpy.concatenate([A, B[:, :, None]], axis=2)
diff --git a/dolo/numeric/processes.py b/dolo/numeric/processes.py
index eb81076..5f89c12 100644
--- a/dolo/numeric/processes.py
+++ b/dolo/numeric/processes.py
@@ -76,7 +76,7 @@ class Process:
     def names(self):
         try:
             return self._names_
-        except:
+        except AttributeError:
             self._names_ = tuple(f"_x_{i}" for i in range(self.d))
             return self._names_
 
@@ -415,10 +415,10 @@ class AR1(ContinuousProcess):
 
         try:
             assert abs(np.eye(rho.shape[0]) * rho[0, 0] - rho).max() <= 1
-        except:
+        except AssertionError:
             raise Exception(
                 "When discretizing a Vector AR1 process, the autocorrelation coefficient must be as scalar. Found: {}".format(
-                    rho_array
+                    rho
                 )
             )
 
@@ -441,12 +441,12 @@ class AR1(ContinuousProcess):
 
         try:
             assert Σ.shape[0] == 1
-        except:
+        except AssertionError:
             raise Exception("Not implemented.")
 
         try:
             assert ρ.shape[0] == ρ.shape[1] == 1
-        except:
+        except (AssertionError, AttributeError, IndexError):
             raise Exception("Not implemented.")
 
         ρ = ρ[0, 0]
@@ -552,10 +552,10 @@ class VAR1(ContinuousProcess):
 
         try:
             assert abs(np.eye(rho.shape[0]) * rho[0, 0] - rho).max() <= 1
-        except:
+        except AssertionError:
             raise Exception(
                 "When discretizing a Vector AR1 process, the autocorrelation coefficient must be as scalar. Found: {}".format(
-                    rho_array
+                    rho
                 )
             )
 
@@ -578,12 +578,12 @@ class VAR1(ContinuousProcess):
 
         try:
             assert Σ.shape[0] == 1
-        except:
+        except AssertionError:
             raise Exception("Not implemented.")
 
         try:
             assert ρ.shape[0] == ρ.shape[1] == 1
-        except:
+        except (AssertionError, AttributeError, IndexError):
             raise Exception("Not implemented.")
 
         ρ = ρ[0, 0]
diff --git a/dolo/numeric/serial_operations.py b/dolo/numeric/serial_operations.py
index a40a25f..c2af326 100644
--- a/dolo/numeric/serial_operations.py
+++ b/dolo/numeric/serial_operations.py
@@ -125,13 +125,13 @@ def serial_solve(A, B, diagnose=True):
         for i in range(sol.shape[0]):
             try:
                 sol[i, :] = linalg_solve(A[i, :, :], B[i, :])
-            except:
+            except Exception as e:
                 # Should be a special type of exception
                 a = Exception("Error solving point {}".format(i))
                 a.x = B[i, :]
                 a.J = A[i, :, :]
                 a.i = i
-                raise a
+                raise a from e
 
     else:
         M = numpy.concatenate([A, B[:, :, None]], axis=2)
-- 
2.43.0


From 0e718b2d814f9a7f24858d25ea056e1b4358e7fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:59 +0000
Subject: [PATCH 21/46] fix: threads simulating at the same time share one
 random number stream

---
 dolo/algos/simulations.py | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/dolo/algos/simulations.py b/dolo/algos/simulations.py
index 32bcb34..85db9ff 100644
--- a/dolo/algos/simulations.py
+++ b/dolo/algos/simulations.py
@@ -1,3 +1,6 @@
+import threading
+from contextlib import contextmanager
+
 import numpy
 import pandas
 import xarray as xr
@@ -58,6 +61,17 @@ from dolo.algos.results import AlgoResult
 from dolo.numeric.decision_rule import DecisionRule
 
 
+_generator_lock = threading.RLock()
+
+
+@contextmanager
+def seeded(seed):
+    # the random number generator is common to all threads
+    with _generator_lock:
+        numpy.random.seed(seed)
+        yield
+
+
 def simulate(
     model: Model,
     dr: DecisionRule,
@@ -124,8 +138,6 @@ def simulate(
 
     s_simul[0, :, :] = s0[None, :]
 
-    numpy.random.seed(seed)
-
     # are we simulating a markov chain or a continuous process ?
     if driving_process is not None:
         if len(driving_process.shape) == 3:
@@ -159,10 +171,12 @@ def simulate(
             if i0 is None:
                 i0 = 0
             dp = process
-            i_simul = dp.simulate_indices(N, T, i0=i0, stochastic=stochastic)
+            with seeded(seed):
+                i_simul = dp.simulate_indices(N, T, i0=i0, stochastic=stochastic)
             m_simul = dp.values[i_simul]
         else:
-            m_simul = process.simulate(N, T, m0=m0, stochastic=stochastic)
+            with seeded(seed):
+                m_simul = process.simulate(N, T, m0=m0, stochastic=stochastic)
             if isinstance(m_simul, xr.DataArray):
                 m_simul = m_simul.data
             sim_type = "continuous"
-- 
2.43.0


From 13252107f96bed71263769dba27892a8e992fcbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:59 +0000
Subject: [PATCH 22/46] fix: concurrent first calls of ergodic_distribution
 fail

---
 dolo/misc/multimethod.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dolo/misc/multimethod.py b/dolo/misc/multimethod.py
index 2608d85..4892160 100644
--- a/dolo/misc/multimethod.py
+++ b/dolo/misc/multimethod.py
@@ -153,7 +153,9 @@ class multimethod(dict):
 
     def parents(self, types: tuple) -> set:
         """Find immediate parents of potential key."""
-        parents = {key for key in self if isinstance(key, signature) and key < types}
+        parents = {
+            key for key in list(self) if isinstance(key, signature) and key < types
+        }
         return parents - {ancestor for parent in parents for ancestor in parent.parents}
 
     def clean(self):
-- 
2.43.0


From 0886f94391ddd3725e8526d896f363c17b676cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:55 +0000
Subject: [PATCH 23/46] fix: linear decision rules with discrete shocks fail
 with several states

---
 dolo/numeric/decision_rule.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dolo/numeric/decision_rule.py b/dolo/numeric/decision_rule.py
index d720d47..50171ec 100644
--- a/dolo/numeric/decision_rule.py
+++ b/dolo/numeric/decision_rule.py
@@ -347,7 +347,8 @@ def get_coefficients(
     interp_type: Linear,
     x: object,
 ):
-    return [x[i].copy() for i in range(x.shape[0])]
+    n = tuple(endo_grid.n) + (-1,)
+    return [x[i].reshape(n).copy() for i in range(x.shape[0])]
 
 
 @multimethod
-- 
2.43.0


From 77667d45dcdeb8111fd76319602b1bbc7b502c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:55 +0000
Subject: [PATCH 24/46] fix: time_iteration fails when no iteration is allowed

---
 dolo/algos/time_iteration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolo/algos/time_iteration.py b/dolo/algos/time_iteration.py
index ae47e44..72d5306 100644
--- a/dolo/algos/time_iteration.py
+++ b/dolo/algos/time_iteration.py
@@ -229,7 +229,7 @@ def time_iteration(
 
         itprint.print_iteration(N=it, Error=err_0, Gain=err_SA, Time=elapsed, nit=nit),
 
-    controls_0 = controls.reshape(sh_c)
+    controls_0 = controls_0.reshape(sh_c)
 
     mdr.set_values(controls_0)
     if trace:
-- 
2.43.0


From c25d222a8f761f699b21fab1b2507569fe81aa3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:34 +0000
Subject: [PATCH 25/46] fix: lmmcp returns a point that is not a solution when
 the residual is not a number

---
 dolo/numeric/extern/lmmcp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dolo/numeric/extern/lmmcp.py b/dolo/numeric/extern/lmmcp.py
index ed5dbf8..9c96dde 100644
--- a/dolo/numeric/extern/lmmcp.py
+++ b/dolo/numeric/extern/lmmcp.py
@@ -371,7 +371,8 @@ def lmmcp(fun, Dfun, x0, lb, ub, verbose=True, options={}):
         if verbose:
             print("{}\t{}\t{}\t{}\n".format(k, Psix, normDPsix, t))
 
-    if k == kmax:
+    # not satisfied either when Psix is not a number
+    if not (Psix <= eps2):
         raise Exception("No convergence")
     return x
 
-- 
2.43.0


From e765cb9bef1462d31685295a1efe34973a93f615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:00 +0000
Subject: [PATCH 26/46] fix: deterministic_solve passes arguments to lmmcp in
 the wrong order

---
 dolo/algos/perfect_foresight.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dolo/algos/perfect_foresight.py b/dolo/algos/perfect_foresight.py
index 9950d55..2be618f 100644
--- a/dolo/algos/perfect_foresight.py
+++ b/dolo/algos/perfect_foresight.py
@@ -248,10 +248,10 @@ def deterministic_solve(
 
             sol = lmmcp(
                 lambda u: ff(u)[0],
-                lambda u: ff(u)[1].todense(),
+                lambda u: ff(u)[1].toarray(),
+                initial_guess.ravel(),
                 lower_bound.ravel(),
                 upper_bound.ravel(),
-                initial_guess.ravel(),
                 verbose=verbose,
             )
             nit = -1
-- 
2.43.0


From b87da4f0369e471c2ec3fae2ba2c86979599c23d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:00 +0000
Subject: [PATCH 27/46] fix: ncpsolve ignores the bounds when the jacobian is a
 full matrix

---
 dolo/numeric/optimize/ncpsolve.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/dolo/numeric/optimize/ncpsolve.py b/dolo/numeric/optimize/ncpsolve.py
index 7bf9bb4..1862b7d 100644
--- a/dolo/numeric/optimize/ncpsolve.py
+++ b/dolo/numeric/optimize/ncpsolve.py
@@ -91,7 +91,6 @@ def smooth(x, a, b, fx, J, jactype="serial"):
         xxx = diag(xx)
         #        xxx = diag(xx)
         Jnew = fff * J - xxx
-        return fx, J
         return [fxnew, Jnew]
 
     else:
-- 
2.43.0


From 506b66e78001c034ddc1ca3c6f5fcbde34f4894e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:00 +0000
Subject: [PATCH 28/46] fix: deterministic_solve without constraints ignores
 its limit and tolerance

---
 dolo/algos/perfect_foresight.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dolo/algos/perfect_foresight.py b/dolo/algos/perfect_foresight.py
index 2be618f..a01f10b 100644
--- a/dolo/algos/perfect_foresight.py
+++ b/dolo/algos/perfect_foresight.py
@@ -270,7 +270,9 @@ def deterministic_solve(
         # sol = sol.x.reshape(sh)
         from dolo.numeric.optimize.newton import newton
 
-        sol, nit = newton(ff, v0, jactype="sparse")
+        sol, nit = newton(
+            ff, v0, verbose=verbose, maxit=maxit, tol=tol, jactype="sparse"
+        )
         sol = sol.reshape(sh)
 
     # sol = sol[:-1, :]
-- 
2.43.0


From 01676292eee43072d8dfde7102e511593c129eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:00 +0000
Subject: [PATCH 29/46] fix: exceptions raised when a model cannot be perturbed
 are not defined

---
 dolo/algos/perturbation.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/dolo/algos/perturbation.py b/dolo/algos/perturbation.py
index a64fe13..8a1c2d3 100644
--- a/dolo/algos/perturbation.py
+++ b/dolo/algos/perturbation.py
@@ -116,6 +116,18 @@ from numpy.linalg import solve
 from dolo.numeric.extern.qz import qzordered
 
 
+class GeneralizedEigenvaluesError(Exception):
+    def __init__(self, **data):
+        super().__init__("Eigenvalues are not uniquely defined.")
+        self.data = data
+
+
+class GeneralizedEigenvaluesSelectionError(Exception):
+    def __init__(self, **data):
+        super().__init__("Eigenvalues cannot be separated.")
+        self.data = data
+
+
 def approximate_1st_order(g_s, g_x, g_e, f_s, f_x, f_S, f_X):
 
     n_s = g_s.shape[0]  # number of controls
-- 
2.43.0


From 23ed6c3c447d2bd3ea570649d5f2fee0a45f058a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:22 +0000
Subject: [PATCH 30/46] fix: find_steady_state does not tell when no
 steady-state is found

---
 dolo/algos/steady_state.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dolo/algos/steady_state.py b/dolo/algos/steady_state.py
index 800fb53..e68dc54 100644
--- a/dolo/algos/steady_state.py
+++ b/dolo/algos/steady_state.py
@@ -48,5 +48,10 @@ def find_steady_state(model: Model, *, m=None):
     sol = scipy.optimize.root(fobj, x0)
     res = sol.x
 
+    if not (sol.success and np.isfinite(sol.fun).all()):
+        import warnings
+
+        warnings.warn("The steady-state was not found: {}".format(sol.message))
+
     d = dict(exogenous=m, states=res[:n_s], controls=res[n_s:], parameters=p)
     return CalibrationDict(model.symbols, d)
-- 
2.43.0


From 12f1de088e53078b165ff3323f7fa0e3b7a2e88c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:00 +0000
Subject: [PATCH 31/46] fix: sum of uniform cartesian grids repeats the bounds
 of the first one

---
 dolo/numeric/grids.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dolo/numeric/grids.py b/dolo/numeric/grids.py
index c6cf223..4d86f90 100644
--- a/dolo/numeric/grids.py
+++ b/dolo/numeric/grids.py
@@ -129,8 +129,8 @@ class UniformCartesianGrid(CartesianGrid):
             raise Exception("Not implemented.")
 
         n = np.array(tuple(self.n) + tuple(g.n))
-        min = np.array(tuple(self.min) + tuple(self.min))
-        max = np.array(tuple(self.max) + tuple(self.max))
+        min = np.array(tuple(self.min) + tuple(g.min))
+        max = np.array(tuple(self.max) + tuple(g.max))
 
         return UniformCartesianGrid(min, max, n)
 
-- 
2.43.0


From fd79015da56364bf558eeb32657258b251dc7021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:00 +0000
Subject: [PATCH 32/46] fix: decision rules on a cartesian exogenous grid
 evaluate only one state

---
 dolo/numeric/decision_rule.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dolo/numeric/decision_rule.py b/dolo/numeric/decision_rule.py
index 50171ec..b8f36b0 100644
--- a/dolo/numeric/decision_rule.py
+++ b/dolo/numeric/decision_rule.py
@@ -204,7 +204,7 @@ def eval_is(
     i: object,
     s: object,
 ):
-    m = exo_grid.node(i)[None, :]
+    m = exo_grid.node(i)[None, :].repeat(s.shape[0], axis=0)
     return eval_ms(itp, exo_grid, endo_grid, interp_type, m, s)
 
 
@@ -261,7 +261,7 @@ def eval_is(
     i: object,
     s: object,
 ):
-    m = exo_grid.node(i)[None, :]
+    m = exo_grid.node(i)[None, :].repeat(s.shape[0], axis=0)
     return eval_ms(itp, exo_grid, endo_grid, interp_type, m, s)
 
 
-- 
2.43.0


From 89fc4c4e138a81625d5dbf57271cd5533f2bba16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:14 +0000
Subject: [PATCH 33/46] fix: discretized vector autoregression has another
 covariance

---
 dolo/numeric/discretization/discretization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolo/numeric/discretization/discretization.py b/dolo/numeric/discretization/discretization.py
index 3345bb4..dde5237 100644
--- a/dolo/numeric/discretization/discretization.py
+++ b/dolo/numeric/discretization/discretization.py
@@ -129,7 +129,7 @@ def multidimensional_discretization(rho, sigma, N=3, method="rouwenhorst", m=2):
     for i in zero_columns:
         sigma[i, i] = 1
 
-    L = scipy.linalg.cholesky(sigma)
+    L = scipy.linalg.cholesky(sigma, lower=True)
 
     N = int(N)
 
-- 
2.43.0


From 19b39c00dc1efa997bcc30acd1decc46f93ac46a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:14 +0000
Subject: [PATCH 34/46] fix: shocks whose covariances sum to zero get another
 variance

---
 dolo/numeric/discretization/discretization.py | 2 +-
 dolo/numeric/discretization/quadrature.py     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/dolo/numeric/discretization/discretization.py b/dolo/numeric/discretization/discretization.py
index dde5237..6884e80 100644
--- a/dolo/numeric/discretization/discretization.py
+++ b/dolo/numeric/discretization/discretization.py
@@ -125,7 +125,7 @@ def multidimensional_discretization(rho, sigma, N=3, method="rouwenhorst", m=2):
 
     sigma = sigma.copy()
 
-    zero_columns = np.where(sigma.sum(axis=0) == 0)[0]
+    zero_columns = np.where(np.diag(sigma) == 0)[0]
     for i in zero_columns:
         sigma[i, i] = 1
 
diff --git a/dolo/numeric/discretization/quadrature.py b/dolo/numeric/discretization/quadrature.py
index 0854ab8..72292cc 100644
--- a/dolo/numeric/discretization/quadrature.py
+++ b/dolo/numeric/discretization/quadrature.py
@@ -103,7 +103,7 @@ def gauss_hermite_nodes(orders, sigma, mu=None):
 
         w = reduce(numpy.kron, weights)
 
-        zero_columns = numpy.where(sigma.sum(axis=0) == 0)[0]
+        zero_columns = numpy.where(numpy.diag(sigma) == 0)[0]
         sigma = numpy.array(sigma)  # don't modify the caller's matrix
         for i in zero_columns:
             sigma[i, i] = 1.0
-- 
2.43.0


From aba706c6aeadffe4a5f042fc0b84f648f17fa692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:14 +0000
Subject: [PATCH 35/46] fix: vector autoregression with several coefficients is
 discretized with the first one

---
 dolo/numeric/processes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolo/numeric/processes.py b/dolo/numeric/processes.py
index 5f89c12..f1e3e7e 100644
--- a/dolo/numeric/processes.py
+++ b/dolo/numeric/processes.py
@@ -551,7 +551,7 @@ class VAR1(ContinuousProcess):
         Sigma = self.Σ
 
         try:
-            assert abs(np.eye(rho.shape[0]) * rho[0, 0] - rho).max() <= 1
+            assert abs(np.eye(rho.shape[0]) * rho[0, 0] - rho).max() <= 1e-12
         except AssertionError:
             raise Exception(
                 "When discretizing a Vector AR1 process, the autocorrelation coefficient must be as scalar. Found: {}".format(
-- 
2.43.0


From 96aaf408c8c9f2fbdf21945f42d962dd1c4f0484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:14 +0000
Subject: [PATCH 36/46] fix: discretize(to="mc") ignores the number of nodes

---
 dolo/numeric/distribution.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dolo/numeric/distribution.py b/dolo/numeric/distribution.py
index 2edcf1b..afb0f87 100644
--- a/dolo/numeric/distribution.py
+++ b/dolo/numeric/distribution.py
@@ -370,7 +370,9 @@ class UnivariateContinuousDistribution(ContinuousDistribution):
             else:
                 raise Exception("Unknown discretization method.")
         elif to == "mc":
-            discr_iid = self.discretize(to="iid")
+            discr_iid = self.discretize(
+                to="iid", N=N, method=method, mass_point=mass_point
+            )
             return discr_iid.discretize(to="mc")
         else:
             raise Exception("Not implemented (yet).")
@@ -607,7 +609,7 @@ class Normal(ContinuousDistribution):
             return FiniteDistribution(x, w, origin=self)
 
         elif to == "mc":
-            discr_iid = self.discretize(to="iid")
+            discr_iid = self.discretize(to="iid", N=N)
             return discr_iid.discretize(to="mc")
 
         else:
-- 
2.43.0


From e1ecfc0e60fc6bfd4448f57ef110f41a225c3c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:14 +0000
Subject: [PATCH 37/46] fix: deterministic_solve drops the first value of an
 array of exogenous values

---
 dolo/algos/perfect_foresight.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dolo/algos/perfect_foresight.py b/dolo/algos/perfect_foresight.py
index a01f10b..765aecd 100644
--- a/dolo/algos/perfect_foresight.py
+++ b/dolo/algos/perfect_foresight.py
@@ -44,8 +44,8 @@ def _shocks_to_epsilons(model, shocks, T):
 
     # until last period, exogenous shock takes its last value
     epsilons = np.zeros((T + 1, n_e))
-    epsilons[: (shocks.shape[0] - 1), :] = shocks[1:, :]
-    epsilons[(shocks.shape[0] - 1) :, :] = shocks[-1:, :]
+    epsilons[: shocks.shape[0], :] = shocks
+    epsilons[shocks.shape[0] :, :] = shocks[-1:, :]
 
     return epsilons
 
-- 
2.43.0


From 8655206fc56d13a7057b0ca8039b005c37284a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:14 +0000
Subject: [PATCH 38/46] fix: deterministic_solve does not start from the given
 state

---
 dolo/algos/perfect_foresight.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/dolo/algos/perfect_foresight.py b/dolo/algos/perfect_foresight.py
index 765aecd..fa35b87 100644
--- a/dolo/algos/perfect_foresight.py
+++ b/dolo/algos/perfect_foresight.py
@@ -166,8 +166,6 @@ def deterministic_solve(
         start_state = find_steady_state(model, m=m0)
         s0 = start_state["states"]
         x0 = start_state["controls"]
-        m1 = epsilons[1, :]
-        s1 = model.functions["transition"](m0, s0, x0, m1, p)
     else:
         if s0 is None:
             s0 = model.calibration["states"]
@@ -178,10 +176,10 @@ def deterministic_solve(
         # we should probably do something here with the nature of the exogenous process if specified
         # i.e. compute nonlinear irf
         epsilons = _shocks_to_epsilons(model, exogenous, T)
-        x0 = model.calibration["controls"]
-        m1 = epsilons[1, :]
-        s1 = model.functions["transition"](m0, s0, x0, m1, p)
-        s1 = np.array(s1)
+        epsilons[0, :] = m0
+
+    # the initial state is given
+    s1 = np.array(s0)
 
     x1_g = model.calibration["controls"]  # we can do better here
     sT_g = model.calibration["states"]  # we can do better here
-- 
2.43.0


From 514e5eca40d7043eca93cd704d5ed889b0690b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:14 +0000
Subject: [PATCH 39/46] fix: deterministic_solve does not accept initial values
 given by name

---
 dolo/algos/perfect_foresight.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/dolo/algos/perfect_foresight.py b/dolo/algos/perfect_foresight.py
index fa35b87..88b6b78 100644
--- a/dolo/algos/perfect_foresight.py
+++ b/dolo/algos/perfect_foresight.py
@@ -50,6 +50,17 @@ def _shocks_to_epsilons(model, shocks, T):
     return epsilons
 
 
+def _initial_values(model, group, values):
+    """Vector of initial values. Missing ones are taken from the calibration."""
+    calibrated = model.calibration[group]
+    if values is None:
+        return calibrated
+    if isinstance(values, dict):
+        names = model.symbols[group]
+        return np.array([values.get(k, v) for k, v in zip(names, calibrated)])
+    return np.asarray(values, dtype=float)
+
+
 def deterministic_solve(
     model: Model,
     *,  #
@@ -167,10 +178,8 @@ def deterministic_solve(
         s0 = start_state["states"]
         x0 = start_state["controls"]
     else:
-        if s0 is None:
-            s0 = model.calibration["states"]
-        if m0 is None:
-            m0 = model.calibration["exogenous"]
+        s0 = _initial_values(model, "states", s0)
+        m0 = _initial_values(model, "exogenous", m0)
         # if m0 is None:
         #     m0 = np.zeros(len(model.symbols['exogenous']))
         # we should probably do something here with the nature of the exogenous process if specified
-- 
2.43.0


From 53e2c62323819fbff34f45e206619095565cb925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:46 +0000
Subject: [PATCH 40/46] fix: complex roots are compared with the threshold by
 their modulus when eigenvalues are ordered

---
 dolo/numeric/extern/qz.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dolo/numeric/extern/qz.py b/dolo/numeric/extern/qz.py
index be26ea8..b2855e5 100644
--- a/dolo/numeric/extern/qz.py
+++ b/dolo/numeric/extern/qz.py
@@ -11,11 +11,11 @@ def qzordered(A, B, crit=1.0):
     TOL = 1e-10
 
     def select(alpha, beta):
-        return alpha**2 > crit * beta**2
+        return abs(alpha) ** 2 > crit * abs(beta) ** 2
 
     [S, T, alpha, beta, U, V] = ordqz(A, B, output="real", sort=select)
 
-    eigval = abs(numpy.diag(S) / numpy.diag(T))
+    eigval = abs(alpha) / abs(beta)
 
     return [S, T, U, V, eigval]
 
-- 
2.43.0


From e513635955ebd6a08eebee09fa6c79bfcf652820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:55 +0000
Subject: [PATCH 41/46] fix: perturb raises AttributeError for models with VAR1
 shocks

---
 dolo/algos/perturbation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolo/algos/perturbation.py b/dolo/algos/perturbation.py
index 8a1c2d3..9bea4ae 100644
--- a/dolo/algos/perturbation.py
+++ b/dolo/algos/perturbation.py
@@ -30,7 +30,7 @@ def get_derivatives(model, steady_state=None):
     process = model.exogenous
 
     if isinstance(process, VAR1):
-        A = process.rho
+        A = process.ρ
         B = np.eye(A.shape[0])
         G_s = np.row_stack(
             [
-- 
2.43.0


From 5d92728021d9beee79244f16b2b04076462880ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:55 +0000
Subject: [PATCH 42/46] fix: perturb accepts models with too many or too few
 explosive roots

---
 dolo/algos/perturbation.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dolo/algos/perturbation.py b/dolo/algos/perturbation.py
index 9bea4ae..0d7e71a 100644
--- a/dolo/algos/perturbation.py
+++ b/dolo/algos/perturbation.py
@@ -141,7 +141,9 @@ def approximate_1st_order(g_s, g_x, g_e, f_s, f_x, f_S, f_X):
 
     B = row_stack([column_stack([g_s, g_x]), column_stack([f_s, f_x])])
 
-    [S, T, Q, Z, eigval] = qzordered(A, B, 1.0 - 1e-8)
+    crit = 1.0 - 1e-8
+
+    [S, T, Q, Z, eigval] = qzordered(A, B, crit)
 
     Z = Z.real
 
@@ -157,7 +159,7 @@ def approximate_1st_order(g_s, g_x, g_e, f_s, f_x, f_S, f_X):
         raise GeneralizedEigenvaluesError(diag_S=diag_S, diag_T=diag_T)
 
     eigval_s = sorted(eigval, reverse=False)
-    if max(eigval[:n_s]) >= 1 and min(eigval[n_s:]) < 1:
+    if min(eigval[:n_s]) ** 2 > crit and max(eigval[n_s:]) ** 2 <= crit:
         # BK conditions are met
         pass
     else:
-- 
2.43.0


From 25f3d7cfd11fa707b11cbe91f46c7e0d44ac9cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:55 +0000
Subject: [PATCH 43/46] fix: domain is misordered when the file lists it in
 another order than the states

---
 dolo/compiler/model.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dolo/compiler/model.py b/dolo/compiler/model.py
index 8ae76c2..af15f16 100644
--- a/dolo/compiler/model.py
+++ b/dolo/compiler/model.py
@@ -411,6 +411,9 @@ class SymbolicModel:
 
         sdomain = eval_data(sdomain, calibration)
 
+        # same order as the states, whatever the order in the file
+        sdomain = {s: sdomain[s] for s in states}
+
         domain = CartesianDomain(**sdomain)
 
         return domain
-- 
2.43.0


From 06c25754c8d0886100f721481ebfe6b5988a3b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:55 +0000
Subject: [PATCH 44/46] fix: a variable called out0 is overwritten by the value
 of the first equation

---
 dolo/compiler/factories.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dolo/compiler/factories.py b/dolo/compiler/factories.py
index 77de480..e6a06af 100644
--- a/dolo/compiler/factories.py
+++ b/dolo/compiler/factories.py
@@ -106,7 +106,8 @@ def get_factory(model, eq_type: str, tshift: int = 0):
         eqs = [
             ("({1})-({0})".format(*eq.split("=")) if "=" in eq else eq) for eq in eqs
         ]
-        targets = [("out{}".format(i), 0) for i in range(len(eqs))]
+        # no symbol of the model can start with an underscore
+        targets = [("_out{}".format(i), 0) for i in range(len(eqs))]
 
     eqs = [str.strip(eq) for eq in eqs]
 
-- 
2.43.0


From 89e537d391219e484a2638e0c596d3bd68492c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:20 +0000
Subject: [PATCH 45/46] fix: domain entries that are no states raise
 AttributeError instead of being ignored

---
 dolo/compiler/model.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/dolo/compiler/model.py b/dolo/compiler/model.py
index af15f16..8d93fef 100644
--- a/dolo/compiler/model.py
+++ b/dolo/compiler/model.py
@@ -380,9 +380,7 @@ class SymbolicModel:
         states = self.symbols["states"]
 
         sdomain = self.data.get("domain", {})
-        for k in sdomain.keys():
-            if k not in states:
-                sdomain.pop(k)
+        sdomain = {k: v for k, v in sdomain.items() if k in states}
 
         # backward compatibility
         if len(sdomain) == 0 and len(states) > 0:
@@ -409,10 +407,8 @@ class SymbolicModel:
         from dolo.compiler.objects import CartesianDomain
         from dolang.language import eval_data
 
-        sdomain = eval_data(sdomain, calibration)
-
         # same order as the states, whatever the order in the file
-        sdomain = {s: sdomain[s] for s in states}
+        sdomain = {s: [eval_data(b, calibration) for b in sdomain[s]] for s in states}
 
         domain = CartesianDomain(**sdomain)
 
-- 
2.43.0


From 9584a171716b7f55a271ba4f1fb75c153a2180f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:19 +0000
Subject: [PATCH 46/46] fix: Beta shocks, documented, are not recognized in
 model files

---
 dolo/numeric/distribution.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dolo/numeric/distribution.py b/dolo/numeric/distribution.py
index afb0f87..18fe56a 100644
--- a/dolo/numeric/distribution.py
+++ b/dolo/numeric/distribution.py
@@ -528,6 +528,7 @@ class LogNormal(UnivariateContinuousDistribution):
         # Probability associated with each point in grid (nodes)
 
 
+@language_element
 class Beta(UnivariateContinuousDistribution):
 
     α: float
-- 
2.43.0

