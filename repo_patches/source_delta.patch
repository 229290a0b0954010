From 8aba6f29e6c7f9da277d94f17ddb4491bae2510a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:40 +0000
Subject: [PATCH 01/23] fix: notify observers after in-place matrix
 multiplication of ObsAr

---
 paramz/core/observable_array.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/paramz/core/observable_array.py b/paramz/core/observable_array.py
index 06f8ee4..9dc2197 100644
--- a/paramz/core/observable_array.py
+++ b/paramz/core/observable_array.py
@@ -199,3 +199,9 @@ class ObsAr(np.ndarray, Pickleable, Observable):
         r = np.ndarray.__imul__(self, *args, **kwargs)
         self.notify_observers()
         return r
+
+
+    def __imatmul__(self, *args, **kwargs): #pragma: no cover
+        r = np.ndarray.__imatmul__(self, *args, **kwargs)
+        self.notify_observers()
+        return r
-- 
2.43.0


From 4749b9f9c089610d04fc5031a28f60ea410b9571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:42 +0000
Subject: [PATCH 02/23] fix: remove observers by identity, not by equality

---
 paramz/core/lists_and_dicts.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paramz/core/lists_and_dicts.py b/paramz/core/lists_and_dicts.py
index 472b0a2..f4b7785 100644
--- a/paramz/core/lists_and_dicts.py
+++ b/paramz/core/lists_and_dicts.py
@@ -82,7 +82,7 @@ class ObserverList(object):
         self.flush()
         for i in range(len(self) - 1, -1, -1):
             p,o,c = self[i]
-            if priority==p and observer==o and callble==c:
+            if priority==p and observer is o and callble==c:
                 del self._poc[i]
 
     def __repr__(self):
-- 
2.43.0


From becd01c4f5d0e92e5157f28a3ac7eb0fc0c0db50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:44 +0000
Subject: [PATCH 03/23] fix: keep the parents of a ParamConcatenation in a
 list, so that every operation updates them

---
 paramz/param.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paramz/param.py b/paramz/param.py
index c4322ac..ee682a5 100644
--- a/paramz/param.py
+++ b/paramz/param.py
@@ -423,7 +423,7 @@ class ParamConcatenation(object):
         import operator
         #py3 fix
         #self.parents = map(lambda x: x[0], sorted(parents.iteritems(), key=operator.itemgetter(1)))
-        self.parents = map(lambda x: x[0], sorted(parents.items(), key=operator.itemgetter(1)))
+        self.parents = list(map(lambda x: x[0], sorted(parents.items(), key=operator.itemgetter(1))))
     #===========================================================================
     # Get/set items, enable broadcasting
     #===========================================================================
-- 
2.43.0


From f13bf4202d81165374e7c4ba65a0fe8083c1565f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:46 +0000
Subject: [PATCH 04/23] fix: assign only the selected values of each member of
 a ParamConcatenation

---
 paramz/param.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paramz/param.py b/paramz/param.py
index ee682a5..fb93b42 100644
--- a/paramz/param.py
+++ b/paramz/param.py
@@ -439,7 +439,7 @@ class ParamConcatenation(object):
         ind = np.zeros(sum(self._param_sizes), dtype=bool); ind[s] = True;
         vals = self.values(); vals[s] = val
         for p, ps in zip(self.params, self._param_slices_):
-            p.flat[ind[ps]] = vals[ps]
+            p.flat[ind[ps]] = vals[ps][ind[ps]]
         self.update_all_params()
 
     def values(self):
-- 
2.43.0


From 503dac45f68764cded0ba2d02160d6b0d616d9f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:49 +0000
Subject: [PATCH 05/23] fix: select the members of a ParamConcatenation by
 index, not by value

---
 paramz/param.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paramz/param.py b/paramz/param.py
index fb93b42..7f2d978 100644
--- a/paramz/param.py
+++ b/paramz/param.py
@@ -429,7 +429,7 @@ class ParamConcatenation(object):
     #===========================================================================
     def __getitem__(self, s):
         ind = np.zeros(sum(self._param_sizes), dtype=bool); ind[s] = True;
-        params = [p.param_array.flat[ind[ps]] for p,ps in zip(self.params, self._param_slices_) if np.any(p.param_array.flat[ind[ps]])]
+        params = [p.param_array.flat[ind[ps]] for p,ps in zip(self.params, self._param_slices_) if np.any(ind[ps])]
         if len(params)==1: return params[0]
         return ParamConcatenation(params)
 
-- 
2.43.0


From 452676661b7fe540f7cc32a0e7cab222eabfdeca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:40 +0000
Subject: [PATCH 06/23] fix: mark the optimizer copy as outdated when
 constraints are removed

---
 paramz/core/constrainable.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/paramz/core/constrainable.py b/paramz/core/constrainable.py
index f571700..8c662ca 100644
--- a/paramz/core/constrainable.py
+++ b/paramz/core/constrainable.py
@@ -162,7 +162,14 @@ class Constrainable(Indexable):
         remove all :py:class:`paramz.transformations.Transformation`
         transformats of this parameter object.
         """
-        return self._remove_from_index_operations(self.constraints, transforms)
+        removed = self._remove_from_index_operations(self.constraints, transforms)
+        # the mapping to the optimizer changed for all nodes sharing these parameters
+        def outdated(node):
+            node._optimizer_copy_transformed = False
+            for p in node.parameters:
+                outdated(p)
+        outdated(self._highest_parent_)
+        return removed
 
     def constrain_positive(self, warning=True, trigger_parent=True):
         """
-- 
2.43.0


From 426f340dbbcd1e445c2711e2c405d5f763948b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:42 +0000
Subject: [PATCH 07/23] fix: leave the model's own gradient alone when
 transforming gradients

---
 paramz/core/parameter_core.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/paramz/core/parameter_core.py b/paramz/core/parameter_core.py
index 10a141a..fde380f 100644
--- a/paramz/core/parameter_core.py
+++ b/paramz/core/parameter_core.py
@@ -147,6 +147,7 @@ class OptimizationHandlable(Constrainable):
         """
         #py3 fix
         #[np.put(g, i, c.gradfactor(self.param_array[i], g[i])) for c, i in self.constraints.iteritems() if c != __fixed__]
+        g = g.copy() # do not change the gradient of the model itself
         [np.put(g, i, c.gradfactor(self.param_array[i], g[i])) for c, i in self.constraints.items() if c != __fixed__]
         if self._has_fixes(): return g[self._fixes_]
         return g
-- 
2.43.0


From 9156d5057c8e59d5a5c7f1a54785af2686d3633d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:45 +0000
Subject: [PATCH 08/23] fix: read parameters of any shape through their flat
 index in optimizer_array

---
 paramz/core/parameter_core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paramz/core/parameter_core.py b/paramz/core/parameter_core.py
index fde380f..7c5e9c1 100644
--- a/paramz/core/parameter_core.py
+++ b/paramz/core/parameter_core.py
@@ -84,7 +84,7 @@ class OptimizationHandlable(Constrainable):
             self._optimizer_copy_.flat = self.param_array.flat
             #py3 fix
             #[np.put(self._optimizer_copy_, ind, c.finv(self.param_array[ind])) for c, ind in self.constraints.iteritems() if c != __fixed__]
-            [np.put(self._optimizer_copy_, ind, c.finv(self.param_array[ind])) for c, ind in self.constraints.items() if c != __fixed__]
+            [np.put(self._optimizer_copy_, ind, c.finv(self.param_array.flat[ind])) for c, ind in self.constraints.items() if c != __fixed__]
             self._optimizer_copy_transformed = True
 
         if self._has_fixes():# or self._has_ties()):
-- 
2.43.0


From 78aba8a18972870df88fce23b067384f11d722a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:47 +0000
Subject: [PATCH 09/23] fix: recompute the mask of free parameters of inner
 nodes from their constraints

---
 paramz/core/constrainable.py  | 2 +-
 paramz/core/parameter_core.py | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/paramz/core/constrainable.py b/paramz/core/constrainable.py
index 8c662ca..60702c1 100644
--- a/paramz/core/constrainable.py
+++ b/paramz/core/constrainable.py
@@ -86,7 +86,7 @@ class Constrainable(Indexable):
         # Ensure that the fixes array is set:
         # Parameterized: ones(self.size)
         # Param: ones(self._realsize_
-        if (not hasattr(self, "_fixes_")) or (self._fixes_ is None) or (self._fixes_.size != self.size):
+        if (not hasattr(self, "_fixes_")) or (self._fixes_ is None) or (self._fixes_.size != self.size) or self.has_parent():
             self._fixes_ = np.ones(self.size, dtype=bool)
             self._fixes_[self.constraints[__fixed__]] = FIXED
 
diff --git a/paramz/core/parameter_core.py b/paramz/core/parameter_core.py
index 7c5e9c1..c627fc1 100644
--- a/paramz/core/parameter_core.py
+++ b/paramz/core/parameter_core.py
@@ -220,6 +220,7 @@ class OptimizationHandlable(Constrainable):
         name_list = np.array(name_list)
 
         if not include_fixed and self._has_fixes():
+            self._ensure_fixes()
             return name_list[self._fixes_]
         return name_list
 
-- 
2.43.0


From a404c374883fc25607b82e6f1d314fb76dd06180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:50 +0000
Subject: [PATCH 10/23] fix: sign of inverse and gradient factor of
 NegativeExponent

---
 paramz/transformations.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/paramz/transformations.py b/paramz/transformations.py
index f0159e1..2bfb88e 100644
--- a/paramz/transformations.py
+++ b/paramz/transformations.py
@@ -160,9 +160,9 @@ class NegativeExponent(Exponent):
     def f(self, x):
         return -Exponent.f(self, x)
     def finv(self, f):
-        return -Exponent.finv(self, -f)
+        return Exponent.finv(self, -f)
     def gradfactor(self, f, df):
-        return -Exponent.gradfactor(self, f, df)
+        return Exponent.gradfactor(self, f, df)
     def initialize(self, f):
         return -Exponent.initialize(self, f) #np.abs(f)
     def __str__(self):
-- 
2.43.0


From 2cb6ff496f1b8389596aee85a697988d3b230a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:52 +0000
Subject: [PATCH 11/23] fix: share restored Logistic constraints and do not
 keep refused ones

---
 paramz/transformations.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/paramz/transformations.py b/paramz/transformations.py
index 2bfb88e..54313b7 100644
--- a/paramz/transformations.py
+++ b/paramz/transformations.py
@@ -188,7 +188,7 @@ class Logistic(Transformation):
         if cls._instances:
             cls._instances[:] = [instance for instance in cls._instances if instance()]
             for instance in cls._instances:
-                if instance().lower == lower and instance().upper == upper:
+                if getattr(instance(), 'lower', None) == lower and instance().upper == upper:
                     return instance()
         newfunc = super(Transformation, cls).__new__
         if newfunc is object.__new__:
@@ -197,6 +197,8 @@ class Logistic(Transformation):
             o = newfunc(cls, lower, upper, *args, **kwargs)
         cls._instances.append(weakref.ref(o))
         return cls._instances[-1]()
+    def __getnewargs__(self):
+        return (self.lower, self.upper)
     def __init__(self, lower, upper):
         assert lower < upper
         self.lower, self.upper = float(lower), float(upper)
-- 
2.43.0


From 0dd4e1aebf754153c7019bbb6ca2ed1147e811e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:55 +0000
Subject: [PATCH 12/23] fix: include the names of keyword arguments in the
 cache id

---
 paramz/caching.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paramz/caching.py b/paramz/caching.py
index 75dd48b..b7a3b86 100644
--- a/paramz/caching.py
+++ b/paramz/caching.py
@@ -164,7 +164,7 @@ class Cacher(object):
 
         # 2: prepare_cache_id and get the unique self.id string for this call
         inputs = self.combine_inputs(args, kw, self.ignore_args)
-        cache_id = self.prepare_cache_id(inputs)
+        cache_id = self.prepare_cache_id(inputs) + "".join(",{}".format(k) for k in sorted(kw))
         # 2: if anything is not cachable, we will just return the operation, without caching
         if reduce(lambda a, b: a or (not (isinstance(b, Observable) or b is None or isinstance(b, Number) or isinstance(b, str))), inputs, False):
 #             print 'WARNING: '+self.operation.__name__ + ' not cacheable!'
-- 
2.43.0


From 7c869bf7d75d9d8f9c8aacf13da721ef82814a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:58 +0000
Subject: [PATCH 13/23] fix: always reset the visited mark at the end of a
 traversal

---
 paramz/core/parameter_core.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/paramz/core/parameter_core.py b/paramz/core/parameter_core.py
index c627fc1..c6c1191 100644
--- a/paramz/core/parameter_core.py
+++ b/paramz/core/parameter_core.py
@@ -386,8 +386,10 @@ class Parameterizable(OptimizationHandlable):
         if not self.__visited:
             visit(self, *args, **kwargs)
             self.__visited = True
-            self._traverse(visit, *args, **kwargs)
-            self.__visited = False
+            try:
+                self._traverse(visit, *args, **kwargs)
+            finally:
+                self.__visited = False
 
     def _traverse(self, visit, *args, **kwargs):
         for c in self.parameters:
@@ -407,9 +409,11 @@ class Parameterizable(OptimizationHandlable):
         """
         if self.has_parent():
             self.__visited = True
-            self._parent_.traverse_parents(visit, *args, **kwargs)
-            self._parent_.traverse(visit, *args, **kwargs)
-            self.__visited = False
+            try:
+                self._parent_.traverse_parents(visit, *args, **kwargs)
+                self._parent_.traverse(visit, *args, **kwargs)
+            finally:
+                self.__visited = False
 
     #===========================================================================
     # Caching
-- 
2.43.0


From 15ef7c74ac5646dba5ece5071e85b23f71ba72f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:01 +0000
Subject: [PATCH 14/23] fix: status texts for all termination codes of fmin_tnc
 and fmin_bfgs

---
 paramz/optimization/optimization.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/paramz/optimization/optimization.py b/paramz/optimization/optimization.py
index 53d9c42..27df6f1 100644
--- a/paramz/optimization/optimization.py
+++ b/paramz/optimization/optimization.py
@@ -78,7 +78,8 @@ class opt_tnc(Optimizer):
 
         """
         tnc_rcstrings = ['Local minimum', 'Converged', 'XConverged', 'Maximum number of f evaluations reached',
-             'Line search failed', 'Function is constant']
+             'Line search failed', 'Function is constant', 'Unable to progress',
+             'User requested end of minimization', 'Infeasible']  # the last one is code -1
 
         assert f_fp != None, "TNC requires f_fp"
 
@@ -141,7 +142,7 @@ class opt_bfgs(Optimizer):
         Run the optimizer
 
         """
-        rcstrings = ['','Maximum number of iterations exceeded', 'Gradient and/or function calls not changing']
+        rcstrings = ['','Maximum number of iterations exceeded', 'Gradient and/or function calls not changing', 'NaN result encountered']
 
         opt_dict = {}
         if self.xtol is not None:
-- 
2.43.0


From 1f01d998bb781b385cf1c57b0bc730c981f5b34b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:03 +0000
Subject: [PATCH 15/23] fix: stack the indices of a parameter group as a list

---
 paramz/core/indexable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paramz/core/indexable.py b/paramz/core/indexable.py
index b648422..c39dfd7 100644
--- a/paramz/core/indexable.py
+++ b/paramz/core/indexable.py
@@ -158,7 +158,7 @@ class Indexable(Nameable, Updateable):
         """
         from ..param import ParamConcatenation
         if isinstance(param, ParamConcatenation):
-            return np.hstack((self._raveled_index_for(p) for p in param.params))
+            return np.hstack([self._raveled_index_for(p) for p in param.params])
         return param._raveled_index() + self._offset_for(param)
 
     def _raveled_index_for_transformed(self, param):
-- 
2.43.0


From 50c5f6ad9cba8c7f182ededdcae11506e7877143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:06 +0000
Subject: [PATCH 16/23] fix: accept an integer index for assignment as for
 reading

---
 paramz/parameterized.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paramz/parameterized.py b/paramz/parameterized.py
index 64ab493..05572db 100644
--- a/paramz/parameterized.py
+++ b/paramz/parameterized.py
@@ -319,7 +319,7 @@ If you are loading a model, set updates off, then initialize, then set the value
 """)
         if value is None:
             return # nothing to do here
-        if isinstance(name, (slice, tuple, np.ndarray)):
+        if isinstance(name, (int, slice, tuple, np.ndarray)):
             try:
                 self.param_array[name] = value
             except:
-- 
2.43.0


From acb2f8b74a32a2e0d5b087f253bfa7410323ac82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:08 +0000
Subject: [PATCH 17/23] fix: refuse to link an object below itself

---
 paramz/parameterized.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/paramz/parameterized.py b/paramz/parameterized.py
index 05572db..4048f70 100644
--- a/paramz/parameterized.py
+++ b/paramz/parameterized.py
@@ -140,6 +140,11 @@ class Parameterized(with_metaclass(ParametersChangedMeta, Parameterizable)):
         # elif param.has_parent():
         #    raise HierarchyError, "parameter {} already in another model ({}), create new object (or copy) for adding".format(param._short(), param._highest_parent_._short())
         elif param not in self.parameters:
+            ancestor = self
+            while ancestor is not None:
+                if ancestor is param:
+                    raise HierarchyError("You cannot add an object below itself into the hierarchy")
+                ancestor = ancestor._parent_
             if param.has_parent():
                 def visit(parent, self):
                     if parent is self:
-- 
2.43.0


From 6a0f09eb54ed206950c9aa3743e995b724d41644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:17 +0000
Subject: [PATCH 18/23] fix: only accept whole identifiers as printable names

---
 paramz/core/nameable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paramz/core/nameable.py b/paramz/core/nameable.py
index 43e4f74..da9dca2 100644
--- a/paramz/core/nameable.py
+++ b/paramz/core/nameable.py
@@ -41,7 +41,7 @@ def adjust_name_for_printing(name):
         name = name.replace("**", "_xx_").replace("*", "_x_")
         name = name.replace("/", "_l_").replace("@", '_at_')
         name = name.replace("(", "_of_").replace(")", "")
-        if re.match(r'^[a-zA-Z_][a-zA-Z0-9-_]*$', name) is None:
+        if re.match(r'^[a-zA-Z_][a-zA-Z0-9_]*\Z', name) is None:
             raise NameError("name {} converted to {} cannot be further converted to valid python variable name!".format(name2, name))
         return name
     return ''
-- 
2.43.0


From 4c1dc8402d8dd6105fba629f0a35d61e21e0e1ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:20 +0000
Subject: [PATCH 19/23] fix: restore the updates switch when randomizing fails

---
 paramz/core/parameter_core.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/paramz/core/parameter_core.py b/paramz/core/parameter_core.py
index c6c1191..48a255a 100644
--- a/paramz/core/parameter_core.py
+++ b/paramz/core/parameter_core.py
@@ -243,13 +243,15 @@ class OptimizationHandlable(Constrainable):
         x = rand_gen(size=self._size_transformed(), *args, **kwargs)
         updates = self.update_model()
         self.update_model(False) # Switch off the updates
-        self.optimizer_array = x  # makes sure all of the tied parameters get the same init (since there's only one prior object...)
-        # now draw from prior where possible
-        x = self.param_array.copy()
-        unfixlist = np.ones((self.size,),dtype=bool)
-        unfixlist[self.constraints[__fixed__]] = False
-        self.param_array.flat[unfixlist] = x.view(np.ndarray).ravel()[unfixlist]
-        self.update_model(updates)
+        try:
+            self.optimizer_array = x  # makes sure all of the tied parameters get the same init (since there's only one prior object...)
+            # now draw from prior where possible
+            x = self.param_array.copy()
+            unfixlist = np.ones((self.size,),dtype=bool)
+            unfixlist[self.constraints[__fixed__]] = False
+            self.param_array.flat[unfixlist] = x.view(np.ndarray).ravel()[unfixlist]
+        finally:
+            self.update_model(updates)
 
     #===========================================================================
     # For shared memory arrays. This does nothing in Param, but sets the memory
-- 
2.43.0


From d5ea525c5d5065a95d2e429f1deaf99ccc9c8a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:22 +0000
Subject: [PATCH 20/23] fix: optimize_restarts of a model without free
 parameters

---
 paramz/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paramz/model.py b/paramz/model.py
index 1c9a7e1..32572f6 100644
--- a/paramz/model.py
+++ b/paramz/model.py
@@ -173,7 +173,7 @@ class Model(Parameterized):
                 else:#pragma: no cover
                     self.optimization_runs.append(jobs[i])
 
-                if verbose:
+                if verbose and len(self.optimization_runs) > initial_length:
                     print(("Optimization restart {0}/{1}, f = {2}".format(i + 1, num_restarts, self.optimization_runs[-1].f_opt)))
             except Exception as e:
                 if robust:
-- 
2.43.0


From 50599d4a31a44dc1a03a3c3e7ecb6cc0dcc077a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:25 +0000
Subject: [PATCH 21/23] fix: pass the warning switch on to the members of a
 ParamConcatenation

---
 paramz/param.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paramz/param.py b/paramz/param.py
index 7f2d978..d0b4572 100644
--- a/paramz/param.py
+++ b/paramz/param.py
@@ -452,7 +452,7 @@ class ParamConcatenation(object):
             par.trigger_update(trigger_parent=False)
 
     def constrain(self, constraint, warning=True):
-        [param.constrain(constraint, trigger_parent=False) for param in self.params]
+        [param.constrain(constraint, warning, trigger_parent=False) for param in self.params]
         self.update_all_params()
     constrain.__doc__ = Param.constrain.__doc__
 
-- 
2.43.0


From d5ff06a44a70223181589867a0c47b131f486ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:28 +0000
Subject: [PATCH 22/23] fix: report objective and number of evaluations of the
 climin optimizers

---
 paramz/optimization/optimization.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/paramz/optimization/optimization.py b/paramz/optimization/optimization.py
index 27df6f1..8ac7c4b 100644
--- a/paramz/optimization/optimization.py
+++ b/paramz/optimization/optimization.py
@@ -271,6 +271,8 @@ class Opt_Adadelta(Optimizer):
         for info in opt:
             if info['n_iter']>=self.max_iters:
                 self.x_opt =  opt.wrt
+                self.f_opt = None if f is None else float(f(self.x_opt))
+                self.funct_eval = info['n_iter']
                 self.status = 'maximum number of function evaluations exceeded '
                 break
         else: # pragma: no cover
@@ -307,6 +309,8 @@ class RProp(Optimizer):
         for info in opt:
             if info['n_iter']>=self.max_iters:
                 self.x_opt =  opt.wrt
+                self.f_opt = None if f is None else float(f(self.x_opt))
+                self.funct_eval = info['n_iter']
                 self.status = 'maximum number of function evaluations exceeded'
                 break
         else: # pragma: no cover
@@ -349,6 +353,8 @@ class Adam(Optimizer):
         for info in opt:
             if info['n_iter']>=self.max_iters:
                 self.x_opt =  opt.wrt
+                self.f_opt = None if f is None else float(f(self.x_opt))
+                self.funct_eval = info['n_iter']
                 self.status = 'maximum number of function evaluations exceeded'
                 break
         else: # pragma: no cover
-- 
2.43.0


From d3fc134b07a916f2bbddac38b9378ae5d793d68c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:04 +0000
Subject: [PATCH 23/23] fix: log jacobian of NegativeExponent

---
 paramz/transformations.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/paramz/transformations.py b/paramz/transformations.py
index 54313b7..53755d2 100644
--- a/paramz/transformations.py
+++ b/paramz/transformations.py
@@ -165,6 +165,8 @@ class NegativeExponent(Exponent):
         return Exponent.gradfactor(self, f, df)
     def initialize(self, f):
         return -Exponent.initialize(self, f) #np.abs(f)
+    def log_jacobian(self, model_param):
+        return Exponent.log_jacobian(self, -model_param)
     def __str__(self):
         return '-ve'
 
-- 
2.43.0

