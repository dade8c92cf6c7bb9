From 3fe3c05e17b0df870fb34b41efc8871f4df70a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:23 +0000
Subject: [PATCH 01/52] fix: compare objective values in the right direction
 when maximizing

---
 bayes_optim/_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayes_optim/_base.py b/bayes_optim/_base.py
index 94a2098..a0c3541 100644
--- a/bayes_optim/_base.py
+++ b/bayes_optim/_base.py
@@ -176,4 +176,4 @@ class BaseOptimizer:
 
     def _compare(self, f1: float, f2: float) -> bool:
         """Test if objecctive value f1 is better than f2"""
-        return f1 < f2 if self.minimize else f2 > f1
+        return f1 < f2 if self.minimize else f1 > f2
-- 
2.43.0


From 1ecec367e9c2bf3de096307bf941c947224f790a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:23 +0000
Subject: [PATCH 02/52] fix: UCB must prefer better, not worse, predicted
 values

---
 bayes_optim/acquisition/acquisition_fun.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/bayes_optim/acquisition/acquisition_fun.py b/bayes_optim/acquisition/acquisition_fun.py
index 9a2ae06..8d93ea6 100644
--- a/bayes_optim/acquisition/acquisition_fun.py
+++ b/bayes_optim/acquisition/acquisition_fun.py
@@ -108,9 +108,9 @@ class UCB(AcquisitionFunction):
     def __init__(self, alpha: float = 0.5, **kwargs):
         """Upper Confidence Bound
 
-        \alpha(x) = m(x) + \alpha * \sigma(x),
+        \alpha(x) = -m(x) + \alpha * \sigma(x),
 
-        where m(x) the predicted value and \sigma(x) is the uncertainty of the prediction
+        where m(x) the predicted value (subject to minimization) and \sigma(x) is the uncertainty of the prediction
         """
         super().__init__(**kwargs)
         self.alpha = alpha
@@ -130,7 +130,7 @@ class UCB(AcquisitionFunction):
         y_hat, sd = self._predict(X)
 
         try:
-            f_value = y_hat + self.alpha * sd
+            f_value = -y_hat + self.alpha * sd
             if n_sample == 1:
                 f_value = sum(f_value)
         except Exception:  # in case of numerical errors
@@ -140,7 +140,7 @@ class UCB(AcquisitionFunction):
             y_dx, sd2_dx = self._gradient(X)
             sd_dx = sd2_dx / (2.0 * sd)
             try:
-                f_dx = y_dx + self.alpha * sd_dx
+                f_dx = -y_dx + self.alpha * sd_dx
             except Exception:
                 f_dx = np.zeros((len(X[0]), 1))
             return f_value, f_dx
-- 
2.43.0


From e57b9d3e67d9f18b15a67038ed5719a9d17d90e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:23 +0000
Subject: [PATCH 03/52] fix: allow epsilon = 0 such that PI can be instantiated

---
 bayes_optim/acquisition/acquisition_fun.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayes_optim/acquisition/acquisition_fun.py b/bayes_optim/acquisition/acquisition_fun.py
index 8d93ea6..832f972 100644
--- a/bayes_optim/acquisition/acquisition_fun.py
+++ b/bayes_optim/acquisition/acquisition_fun.py
@@ -202,7 +202,7 @@ class EpsilonPI(ImprovementBased):
 
     @epsilon.setter
     def epsilon(self, eps):
-        assert eps > 0
+        assert eps >= 0
         self._epsilon = eps
 
     def __call__(self, X, return_dx=False):
-- 
2.43.0


From a7a47b48ef75e1ece23f0715da8029becc44bb2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:23 +0000
Subject: [PATCH 04/52] fix: Node.remove/deepcopy returned None unless inverted

---
 bayes_optim/search_space/node.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayes_optim/search_space/node.py b/bayes_optim/search_space/node.py
index 7e5d8aa..d970980 100644
--- a/bayes_optim/search_space/node.py
+++ b/bayes_optim/search_space/node.py
@@ -100,7 +100,7 @@ class Node:
         Node
             the updated root node
         """
-        op = lambda e, S: e not in S if invert else lambda e, S: e in S
+        op = (lambda e, S: e not in S) if invert else (lambda e, S: e in S)
         if op(self.name, node_names):
             return None
         node = Node(self.name, deepcopy(self.data))
-- 
2.43.0


From 8120d0a61360710dc40e52513279cb0abd60b9b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:55 +0000
Subject: [PATCH 05/52] fix: only a user-given seed may re-seed the random
 generator in search spaces

---
 bayes_optim/search_space/search_space.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/bayes_optim/search_space/search_space.py b/bayes_optim/search_space/search_space.py
index a01926f..24eb607 100644
--- a/bayes_optim/search_space/search_space.py
+++ b/bayes_optim/search_space/search_space.py
@@ -128,10 +128,10 @@ class SearchSpace:
 
     @random_seed.setter
     def random_seed(self, seed):
-        if seed:
+        if seed is not None:
             seed = int(seed)
+            np.random.seed(seed)
         self._random_seed = seed
-        np.random.seed(self._random_seed)
 
     @staticmethod
     def _ready_args(bounds, var_name, **kwargs):
@@ -260,7 +260,8 @@ class SearchSpace:
         if isinstance(data, Variable):
             out = data
         elif isinstance(data, list):
-            out = SearchSpace(data, self.random_seed)
+            out = SearchSpace(data)
+            out._random_seed = self.random_seed  # NOTE: slicing should not re-seed the generator
             # backwards compatibility
             if hasattr(self, "structure"):
                 getattr(out, "_set_structure")(self.structure)
@@ -326,7 +327,9 @@ class SearchSpace:
             ]
         else:
             structure = {}
-        return SearchSpace(data, random_seed, structure)
+        cs = SearchSpace(data, structure=structure)
+        cs._random_seed = random_seed
+        return cs
 
     def __radd__(self, space) -> SearchSpace:
         return self.__add__(space)
@@ -344,7 +347,8 @@ class SearchSpace:
         _res = set(self.var_name) - set(space.var_name)
         _index = [self.var_name.index(_) for _ in _res]
         data = [copy(self.data[i]) for i in range(self.dim) if i in _index]
-        cs = SearchSpace(data, random_seed)
+        cs = SearchSpace(data)
+        cs._random_seed = random_seed
         # backwards compatibility
         if hasattr(self, "structure"):
             getattr(cs, "_set_structure")(self.structure)
@@ -377,7 +381,8 @@ class SearchSpace:
         data = [deepcopy(var) for _ in range(max(1, int(N))) for var in self.data]
         # TODO: this is not working yet..
         # structure = [t.deepcopy() for _ in range(max(1, int(N))) for t in self.structure]
-        obj = SearchSpace(data, self.random_seed)
+        obj = SearchSpace(data)
+        obj._random_seed = self.random_seed
         obj.__class__ = type(self)
         return obj
 
-- 
2.43.0


From 7b76fe9bee60a62d24a99328508f5d856839a236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:55 +0000
Subject: [PATCH 06/52] fix: honour random_seed=0 and make the unseeded state
 readable

---
 bayes_optim/_base.py                                 | 7 +++----
 bayes_optim/acquisition/optim/one_plus_one_cma_es.py | 7 +++----
 2 files changed, 6 insertions(+), 8 deletions(-)

diff --git a/bayes_optim/_base.py b/bayes_optim/_base.py
index a0c3541..91036a7 100644
--- a/bayes_optim/_base.py
+++ b/bayes_optim/_base.py
@@ -149,10 +149,9 @@ class BaseOptimizer:
 
     @random_seed.setter
     def random_seed(self, seed):
-        if seed:
-            self._random_seed = int(seed)
-            if self._random_seed:
-                np.random.seed(self._random_seed)
+        self._random_seed = None if seed is None else int(seed)
+        if self._random_seed is not None:
+            np.random.seed(self._random_seed)
 
     @property
     def search_space(self):
diff --git a/bayes_optim/acquisition/optim/one_plus_one_cma_es.py b/bayes_optim/acquisition/optim/one_plus_one_cma_es.py
index c8295f8..531ef4c 100644
--- a/bayes_optim/acquisition/optim/one_plus_one_cma_es.py
+++ b/bayes_optim/acquisition/optim/one_plus_one_cma_es.py
@@ -178,10 +178,9 @@ class OnePlusOne_CMA(object):
 
     @random_seed.setter
     def random_seed(self, seed):
-        if seed:
-            self._random_seed = int(seed)
-            if self._random_seed:
-                np.random.seed(self._random_seed)
+        self._random_seed = None if seed is None else int(seed)
+        if self._random_seed is not None:
+            np.random.seed(self._random_seed)
 
     @property
     def C(self):
-- 
2.43.0


From 4d09120b5597e83478151a45a1652e944243b7ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:55 +0000
Subject: [PATCH 07/52] fix: (1+1)-CMA-ES re-seeded the global generator with
 42 at every restart

---
 bayes_optim/acquisition/optim/__init__.py            | 2 --
 bayes_optim/acquisition/optim/one_plus_one_cma_es.py | 2 +-
 2 files changed, 1 insertion(+), 3 deletions(-)

diff --git a/bayes_optim/acquisition/optim/__init__.py b/bayes_optim/acquisition/optim/__init__.py
index d55d253..9c218cc 100644
--- a/bayes_optim/acquisition/optim/__init__.py
+++ b/bayes_optim/acquisition/optim/__init__.py
@@ -1,5 +1,4 @@
 import logging
-import time
 from typing import Callable, List, Tuple
 
 import numpy as np
@@ -104,7 +103,6 @@ def argmax_restart(
                 n_restart=0,
                 minimize=False,
                 verbose=False,
-                seed=time.time(),
             )
             xopt_, fopt_, stop_dict = opt.run()
             stop_dict["funcalls"] = stop_dict["FEs"] if "FEs" in stop_dict else opt.eval_count
diff --git a/bayes_optim/acquisition/optim/one_plus_one_cma_es.py b/bayes_optim/acquisition/optim/one_plus_one_cma_es.py
index 531ef4c..a8af1b7 100644
--- a/bayes_optim/acquisition/optim/one_plus_one_cma_es.py
+++ b/bayes_optim/acquisition/optim/one_plus_one_cma_es.py
@@ -35,7 +35,7 @@ class OnePlusOne_CMA(object):
         ftol: float = 1e-4,
         verbose: bool = False,
         log_file: str = None,
-        random_seed: int = 42,
+        random_seed: int = None,
         **kwargs,
     ):
         """Hereafter, we use the following customized
-- 
2.43.0


From 8146e69face42dc91acc55604dc0b7bf6e27b738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:55 +0000
Subject: [PATCH 08/52] fix: sub-spaces of a conditional space must not depend
 on the hash order of sets

---
 bayes_optim/search_space/node.py         | 2 +-
 bayes_optim/search_space/search_space.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/bayes_optim/search_space/node.py b/bayes_optim/search_space/node.py
index d970980..ccb9ea1 100644
--- a/bayes_optim/search_space/node.py
+++ b/bayes_optim/search_space/node.py
@@ -172,7 +172,7 @@ class Node:
             return {(): None}
 
         path = dict()
-        for br in set(self.branches):
+        for br in dict.fromkeys(self.branches):
             _path = [
                 ((br,) + p, v) if p else ((br,), [self.children[i].name])
                 for i in [i for i, b in enumerate(self.branches) if b == br]
diff --git a/bayes_optim/search_space/search_space.py b/bayes_optim/search_space/search_space.py
index 24eb607..5e9ad57 100644
--- a/bayes_optim/search_space/search_space.py
+++ b/bayes_optim/search_space/search_space.py
@@ -706,7 +706,7 @@ class SearchSpace:
             # all variables in the conditional structure
             _var = _reduce([t.get_all_name() for t in self.structure])
             # remaining variables not affected by conditions
-            isolated_var = [self[v] for v in set(self.var_name) - set(_var)]
+            isolated_var = [self[v] for v in self.var_name if v not in _var]
             out, d = list(), dict()
             # all paths in the conditional tree
             paths = [list(root.get_all_path().items()) for root in self.structure]
-- 
2.43.0


From a61b8cf28d253cf6d73fbd5a842de0a6f36a112e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:55 +0000
Subject: [PATCH 09/52] fix: SearchSpace.update failed for several common
 variables and shared new ones

---
 bayes_optim/search_space/search_space.py | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/bayes_optim/search_space/search_space.py b/bayes_optim/search_space/search_space.py
index 5e9ad57..1f1cba5 100644
--- a/bayes_optim/search_space/search_space.py
+++ b/bayes_optim/search_space/search_space.py
@@ -488,17 +488,11 @@ class SearchSpace:
             the input space for the update
         """
         _var_name = space.var_name
-        _update = np.array(list(set(_var_name) & set(self.var_name)))
-        _add = np.array(list(set(_var_name) - set(self.var_name)))
-
-        _index_update_to = np.nonzero(np.array(self._var_name) == _update)[0]
-        _index_update_from = np.nonzero(np.array(_var_name) == _update)[0]
-        for i, k in enumerate(_index_update_to):
-            j = _index_update_from[i]
-            self.data[k] = deepcopy(space.data[j])
-
-        _index_add = np.nonzero(np.array(_var_name) == _add)[0]
-        self.data += [space.data[i] for i in _index_add]
+        for i, name in enumerate(_var_name):
+            if name in self.var_name:
+                self.data[self.var_name.index(name)] = deepcopy(space.data[i])
+            else:
+                self.data.append(deepcopy(space.data[i]))
         self._set_data(self.data)
         return SearchSpace.__set_type(self)
 
-- 
2.43.0


From 6c52f3f4864e4e6998992da502f19ad4102980b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:55 +0000
Subject: [PATCH 10/52] fix: search spaces must not rename or share variables
 owned by others

---
 bayes_optim/search_space/search_space.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bayes_optim/search_space/search_space.py b/bayes_optim/search_space/search_space.py
index 1f1cba5..5a7ed33 100644
--- a/bayes_optim/search_space/search_space.py
+++ b/bayes_optim/search_space/search_space.py
@@ -180,7 +180,7 @@ class SearchSpace:
             for t in structure:
                 _structure.update(t.to_dict())
         elif isinstance(structure, dict):
-            _structure = structure
+            _structure = {k: list(v) for k, v in structure.items()}
         # scan for all conditions defined in variables
         for var in self.data:
             if not hasattr(var, "conditions") or var.conditions is None:
@@ -203,6 +203,8 @@ class SearchSpace:
 
     def _set_data(self, data):
         """Sanity check on the input data and set the auxiliary variables"""
+        # NOTE: a space owns its variables, e.g., renaming must not affect the caller's or other spaces
+        data = [copy(var) for var in data]
         self._check_data(data)
         self.data: List = data
         self.dim: int = len(self.data)
-- 
2.43.0


From f0d7760d48958ab6b0cc21d5ad83365026df4257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:55 +0000
Subject: [PATCH 11/52] fix: categorical_mask missed subset variables and
 overwrote subset_mask

---
 bayes_optim/search_space/search_space.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/bayes_optim/search_space/search_space.py b/bayes_optim/search_space/search_space.py
index 5a7ed33..f1a50a7 100644
--- a/bayes_optim/search_space/search_space.py
+++ b/bayes_optim/search_space/search_space.py
@@ -228,9 +228,8 @@ class SearchSpace:
             self.categorical_id = np.r_[
                 self.discrete_id, self.ordinal_id, self.bool_id, self.subset_id
             ]
-            self.categorical_mask = np.bitwise_or(
-                self.bool_mask,
-                np.bitwise_or(self.discrete_mask, self.ordinal_mask, self.subset_mask),
+            self.categorical_mask = (
+                self.bool_mask | self.discrete_mask | self.ordinal_mask | self.subset_mask
             )
 
     def _set_levels(self):
-- 
2.43.0


From 3b9e7c71b36591d4761718afcab2a156c1ab0994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:55 +0000
Subject: [PATCH 12/52] fix: assigning a variable must update the type of the
 search space

---
 bayes_optim/search_space/search_space.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bayes_optim/search_space/search_space.py b/bayes_optim/search_space/search_space.py
index f1a50a7..63c2e75 100644
--- a/bayes_optim/search_space/search_space.py
+++ b/bayes_optim/search_space/search_space.py
@@ -286,6 +286,7 @@ class SearchSpace:
                 else:
                     raise Exception(f"index type {type(i)} is not supported")
         self._set_data(self.data)
+        SearchSpace.__set_type(self)
 
     def __contains__(self, item: Union[str, Variable, SearchSpace, list, dict]) -> bool:
         """check if a name, a variable, a space, or a sample point in the the search space"""
-- 
2.43.0


From 6be95d992180536842298d45551dfa55beba747e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:55 +0000
Subject: [PATCH 13/52] fix: SearchSpace.from_dict lost default values and
 consumed the step of the input

---
 bayes_optim/search_space/search_space.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bayes_optim/search_space/search_space.py b/bayes_optim/search_space/search_space.py
index 63c2e75..7e7a6e2 100644
--- a/bayes_optim/search_space/search_space.py
+++ b/bayes_optim/search_space/search_space.py
@@ -646,7 +646,7 @@ class SearchSpace:
                 bounds = ()
 
             N = range(int(v["N"])) if "N" in v else range(1)
-            default_value = v["defualt"] if "default" in v else None
+            default_value = v["default"] if "default" in v else None
             try:
                 if v["type"] in ["r", "real"]:  # real-valued parameter
                     precision = v["precision"] if "precision" in v else None
@@ -663,7 +663,7 @@ class SearchSpace:
                     ]
                 elif v["type"] in ["i", "int", "integer"]:  # integer-valued parameter
                     _vars = [
-                        Integer(bounds, name=k, default_value=default_value, step=v.pop("step", 1))
+                        Integer(bounds, name=k, default_value=default_value, step=v.get("step", 1))
                         for _ in N
                     ]
                 elif v["type"] in ["o", "ordinal"]:  # ordinal parameter
-- 
2.43.0


From 33833f51b534c417de43525b6e0f4246fa455159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:55 +0000
Subject: [PATCH 14/52] fix: equal variables must have equal hashes

---
 bayes_optim/search_space/variable.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/bayes_optim/search_space/variable.py b/bayes_optim/search_space/variable.py
index 8a4a41b..d4dccfb 100644
--- a/bayes_optim/search_space/variable.py
+++ b/bayes_optim/search_space/variable.py
@@ -196,6 +196,9 @@ class Real(Variable):
         self.precision: int = precision
         self.scale = scale
 
+    def __eq__(self, var: Variable) -> bool:
+        return super().__eq__(var) and self.precision == var.precision and self.scale == var.scale
+
     def __hash__(self):
         return hash((self.name, self.bounds, self.default_value, self.precision, self.scale))
 
@@ -333,6 +336,9 @@ class Integer(_Discrete):
     def __contains__(self, x: int) -> bool:
         return self.bounds[0] <= x <= self.bounds[1]
 
+    def __eq__(self, var: Variable) -> bool:
+        return super().__eq__(var) and self.step == var.step
+
     def __hash__(self):
         return hash((self.name, self.bounds, self.default_value, self.step))
 
-- 
2.43.0


From b9c6665955f2fb5fbe05712f52a48ca647e2851b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:54 +0000
Subject: [PATCH 15/52] fix: acquisition parameters were shared between
 optimizers and with the caller

---
 bayes_optim/base.py      | 2 +-
 bayes_optim/bayes_opt.py | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/bayes_optim/base.py b/bayes_optim/base.py
index ce22003..1945e79 100644
--- a/bayes_optim/base.py
+++ b/bayes_optim/base.py
@@ -109,7 +109,7 @@ class BaseBO(BaseOptimizer):
         self.DoE_size = DoE_size
 
         self.acquisition_fun = acquisition_fun
-        self._acquisition_par = acquisition_par if acquisition_par else {}
+        self._acquisition_par = copy(acquisition_par) if acquisition_par else {}
         # the callback functions executed after every call of `arg_max_acquisition`
         self._acquisition_callbacks = []
         self.model = model
diff --git a/bayes_optim/bayes_opt.py b/bayes_optim/bayes_opt.py
index b760b5d..11400de 100644
--- a/bayes_optim/bayes_opt.py
+++ b/bayes_optim/bayes_opt.py
@@ -67,9 +67,11 @@ class ParallelBO(BO):
         self,
         n_point: int = 3,
         acquisition_fun: str = "MGFI",
-        acquisition_par: Dict = {"t": 2},
+        acquisition_par: Dict = None,
         **kwargs,
     ):
+        if acquisition_par is None:
+            acquisition_par = {"t": 2} if acquisition_fun == "MGFI" else {}
         super().__init__(
             n_point=n_point,
             acquisition_fun=acquisition_fun,
-- 
2.43.0


From 91c33ae0e613e1399e4cc0c6031b858fc8dbfa11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:54 +0000
Subject: [PATCH 16/52] fix: user-given acquisition parameters were ignored for
 single-point proposals

---
 bayes_optim/base.py      | 4 +++-
 bayes_optim/extension.py | 1 +
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/bayes_optim/base.py b/bayes_optim/base.py
index 1945e79..7f07065 100644
--- a/bayes_optim/base.py
+++ b/bayes_optim/base.py
@@ -468,7 +468,9 @@ class BaseBO(BaseOptimizer):
                 n_point=n_point, return_dx=return_dx, fixed=fixed
             )
         else:  # single-point strategy
-            criteria = self._create_acquisition(par={}, return_dx=return_dx, fixed=fixed)
+            criteria = self._create_acquisition(
+                par=copy(self._acquisition_par), return_dx=return_dx, fixed=fixed
+            )
             candidates, values = self._argmax_restart(criteria, logger=self.logger)
             candidates, values = [candidates], [values]
 
diff --git a/bayes_optim/extension.py b/bayes_optim/extension.py
index eb5189b..c06be11 100644
--- a/bayes_optim/extension.py
+++ b/bayes_optim/extension.py
@@ -322,6 +322,7 @@ class MultiAcquisitionBO(ParallelBO):
         self._par_name_list = ["t", "alpha"]
         self._acquisition_par_list = [{"t": 1}, {"alpha": 0.1}]
         self._N_acquisition = len(self._acquisition_fun_list)
+        self._acquisition_par = copy(self._acquisition_par_list[0])
 
         for i, _n in enumerate(self._par_name_list):
             _criterion = getattr(AcquisitionFunction, self._acquisition_fun_list[i])(model=kwargs["model"])
-- 
2.43.0


From 729011017fb061009dd0a7075a48ec1e16c14ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:54 +0000
Subject: [PATCH 17/52] fix: a failing save must not leave the optimizer with a
 serialized history and logger

---
 bayes_optim/base.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/bayes_optim/base.py b/bayes_optim/base.py
index 7f07065..083ee42 100644
--- a/bayes_optim/base.py
+++ b/bayes_optim/base.py
@@ -507,17 +507,17 @@ class BaseBO(BaseOptimizer):
         with open(filename, "wb") as f:
             # NOTE: we need to dump `self.data` first. Otherwise, some
             # attributes of it will be lost
-            if hasattr(self, "data"):
-                self.data = dill.dumps(self.data)
-
             logger = self.logger
-            self.logger = dump_logger(self.logger)
-
-            dill.dump(self, f)
-
-            self.logger = logger
-            if hasattr(self, "data"):
-                self.data = dill.loads(self.data)
+            data = getattr(self, "data", None)
+            try:
+                if data is not None:
+                    self.data = dill.dumps(data)
+                self.logger = dump_logger(logger)
+                dill.dump(self, f)
+            finally:  # restore the optimizer even if it cannot be dumped
+                self.logger = logger
+                if data is not None:
+                    self.data = data
             self.logger.info(f"save to file {filename}...")
 
     @classmethod
-- 
2.43.0


From 2b4d2706140a550a088fd01861a9e788c8a850e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:54 +0000
Subject: [PATCH 18/52] fix: post_eval_check failed on partially failed
 multi-objective evaluations

---
 bayes_optim/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bayes_optim/base.py b/bayes_optim/base.py
index 083ee42..3846fbf 100644
--- a/bayes_optim/base.py
+++ b/bayes_optim/base.py
@@ -412,6 +412,8 @@ class BaseBO(BaseOptimizer):
 
     def post_eval_check(self, X: Solution) -> Solution:
         _ = np.isnan(X.fitness) | np.isinf(X.fitness)
+        if _.ndim == 2:  # multi-objective: a point fails if any of its objective values fails
+            _ = np.any(_, axis=1)
         if np.any(_):
             self.logger.warning(
                 f"{sum(_)} candidate solutions are removed "
-- 
2.43.0


From 4389c8483bf0e8e8044e16ee2a734324d60bc988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:54 +0000
Subject: [PATCH 19/52] fix: ConditionalBO dropped falsy values, miscounted
 failed evaluations and mixed up variables

---
 bayes_optim/extension.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/bayes_optim/extension.py b/bayes_optim/extension.py
index c06be11..d38c7d6 100644
--- a/bayes_optim/extension.py
+++ b/bayes_optim/extension.py
@@ -264,7 +264,7 @@ class ConditionalBO(ParallelBO):
         # fill in the value for conditioning and irrelative variables (None)
         for i, k in enumerate(idx):
             X[i].update(self._fixed_vars[k])
-            X[i].update({k: None for k in set(self.var_names) - set(X[i].keys())})
+            X[i] = {name: X[i].get(name) for name in self.var_names}
             self.logger.info(f"#{i + 1} - {X[i]}")
         return X
 
@@ -288,14 +288,16 @@ class ConditionalBO(ParallelBO):
         assert len(self._bo_idx) == len(X)
         # call `tell` method of BOs in each subspace
         for i, k in enumerate(self._bo_idx):
-            x = {k: v for k, v in X[i].items() if v}
+            x = {key: v for key, v in X[i].items() if v is not None}
             for key, _ in self._fixed_vars[k].items():
                 x.pop(key)
             self._bo[k].tell([x], [func_vals[i]], **kwargs)
 
-        X = self.post_eval_check(self._to_geno(X, fitness=func_vals))
+        X = self._to_geno(X, fitness=func_vals)
+        if not warm_start:
+            self.eval_count += len(X)
+        X = self.post_eval_check(X)
         self.data = self.data + X if hasattr(self, "data") else X
-        self.eval_count += len(X)
 
         xopt = self.xopt
         self.logger.info(f"fopt: {xopt.fitness}")
-- 
2.43.0


From a90eb8208eb7181753550a2336142e70cf80bff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:11 +0000
Subject: [PATCH 20/52] fix: deriving a conditional space duplicated its
 conditions

---
 bayes_optim/search_space/search_space.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bayes_optim/search_space/search_space.py b/bayes_optim/search_space/search_space.py
index 7e7a6e2..91ca28c 100644
--- a/bayes_optim/search_space/search_space.py
+++ b/bayes_optim/search_space/search_space.py
@@ -189,9 +189,9 @@ class SearchSpace:
             key = var.conditions["vars"][0]
             if key not in var.conditions["vars"]:
                 raise ValueError(f"variable {var} not in {self}")
-            _structure.setdefault(key, []).append(
-                {"name": var.name, "condition": var.conditions["string"]}
-            )
+            child = {"name": var.name, "condition": var.conditions["string"]}
+            if child not in _structure.setdefault(key, []):  # it might be in `structure` already
+                _structure[key].append(child)
         self.structure = [t.remove(self.var_name, invert=True) for t in Node.from_dict(_structure)]
         self.structure = [t for t in self.structure if t]
 
-- 
2.43.0


From 0874ac34f9a3d2ad2ed91416441459a2d8a03534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:11 +0000
Subject: [PATCH 21/52] fix: negative indices lost the attributes of a solution

---
 bayes_optim/solution.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bayes_optim/solution.py b/bayes_optim/solution.py
index 774d2f6..ef3e7e5 100644
--- a/bayes_optim/solution.py
+++ b/bayes_optim/solution.py
@@ -210,7 +210,7 @@ class Solution(np.ndarray):
             _ = index[0]
             if len(index) == 2:
                 if isinstance(index[1], int) and not isinstance(index[0], int):
-                    __ = slice(index[1], index[1] + 1)
+                    __ = slice(index[1], (index[1] + 1) or None)
                     index = (_, __)
                 else:
                     __ = index[1]
@@ -222,7 +222,7 @@ class Solution(np.ndarray):
             # NOTE: `slice` is needed here to make sure an array is always returned
             # after slicing attributes `fitness`, `n_eval, `index`
             # Otherwise setting the attribute of a slice is by value...
-            _ = slice(_, _ + 1) if isinstance(_, (int, np.int_)) else _
+            _ = slice(_, (_ + 1) or None) if isinstance(_, (int, np.int_)) else _
             if len(self.shape) == 1:  # `self` is a 1-d array
                 subarr.var_name = subarr.var_name[_]
             else:
-- 
2.43.0


From de2309dd72e8afc9014ec2b4ad4d3f9b4cf46f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:11 +0000
Subject: [PATCH 22/52] fix: values of dictionary points were assigned to the
 wrong variables when keys are reordered

---
 bayes_optim/base.py      |  4 +++-
 bayes_optim/extension.py |  2 +-
 bayes_optim/solution.py  | 10 ++++++----
 3 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/bayes_optim/base.py b/bayes_optim/base.py
index 3846fbf..2d57e30 100644
--- a/bayes_optim/base.py
+++ b/bayes_optim/base.py
@@ -187,7 +187,9 @@ class BaseBO(BaseOptimizer):
             )
         elif self._eval_type == "dict":
             self._to_pheno = lambda x: x.to_dict().copy()
-            self._to_geno = lambda x, index=None: Solution.from_dict(x, index=index, n_obj=self.n_obj)
+            self._to_geno = lambda x, index=None: Solution.from_dict(
+                x, index=index, var_name=self.var_names, n_obj=self.n_obj
+            )
 
     def _set_internal_optimization(self, kwargs):
         if kwargs is None:
diff --git a/bayes_optim/extension.py b/bayes_optim/extension.py
index d38c7d6..0838794 100644
--- a/bayes_optim/extension.py
+++ b/bayes_optim/extension.py
@@ -214,7 +214,7 @@ class ConditionalBO(ParallelBO):
         self._create_optimizer(**kwargs)
         self._ucb = np.zeros(self.n_subspace)
         self._to_pheno = lambda x: x.to_dict()
-        self._to_geno = lambda x, **kwargs: Solution.from_dict(x, **kwargs)
+        self._to_geno = lambda x, **kwargs: Solution.from_dict(x, var_name=self.var_names, **kwargs)
         self._bo_idx: List[int] = list()
 
     def _create_optimizer(self, **kwargs):
diff --git a/bayes_optim/solution.py b/bayes_optim/solution.py
index ef3e7e5..aa7edf0 100644
--- a/bayes_optim/solution.py
+++ b/bayes_optim/solution.py
@@ -272,12 +272,14 @@ class Solution(np.ndarray):
         var_name: Union[str, List[str]] = None,
         **kwargs,
     ) -> Solution:
+        # NOTE: dictionaries might list the same variables in different orders
         if isinstance(x, dict):
-            var_name = list(x.keys())
-            res = cls.__new__(cls, x=list(x.values()), var_name=var_name, index=index, **kwargs)
+            var_name = list(x.keys()) if var_name is None else list(var_name)
+            _x = [x[k] for k in var_name]
+            res = cls.__new__(cls, x=_x, var_name=var_name, index=index, **kwargs)
         elif isinstance(x, list):
-            var_name = list(x[0].keys())
-            _x = [list(_.values()) for _ in x]
+            var_name = list(x[0].keys()) if var_name is None else list(var_name)
+            _x = [[_[k] for k in var_name] for _ in x]
             res = cls.__new__(cls, x=_x, var_name=var_name, index=index, **kwargs)
         return res
 
-- 
2.43.0


From a7f027359e2808a98395185fb773e8c94ff463d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:11 +0000
Subject: [PATCH 23/52] fix: concatenation must refuse solutions whose columns
 are ordered differently

---
 bayes_optim/solution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayes_optim/solution.py b/bayes_optim/solution.py
index aa7edf0..16c61f2 100644
--- a/bayes_optim/solution.py
+++ b/bayes_optim/solution.py
@@ -147,7 +147,7 @@ class Solution(np.ndarray):
         assert self.dim == other.dim
         assert self.n_obj == other.n_obj
         assert len(set(self.fitness_name).symmetric_difference(other.fitness_name)) == 0
-        assert len(set(self.var_name).symmetric_difference(other.var_name)) == 0
+        assert list(self.var_name) == list(other.var_name)
 
         _ = [self.tolist()] if len(self.shape) == 1 else self.tolist()
         __ = [other.tolist()] if len(other.shape) == 1 else other.tolist()
-- 
2.43.0


From 295511f576a3f140fdfa5378a29b41f86ec667f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:11 +0000
Subject: [PATCH 24/52] fix: warm data could not be used with dictionary points

---
 bayes_optim/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayes_optim/base.py b/bayes_optim/base.py
index 2d57e30..f13c41f 100644
--- a/bayes_optim/base.py
+++ b/bayes_optim/base.py
@@ -172,7 +172,7 @@ class BaseBO(BaseOptimizer):
             assert all([isinstance(_, int) for _ in X[:, self.i_index].ravel()])
             assert all([isinstance(_, str) for _ in X[:, self.d_index].ravel()])
             self._warm_data = X
-            self.tell(X, y, warm_start=True)
+            self.tell(self._to_pheno(X), y, warm_start=True)
 
     def _set_aux_vars(self):
         if self._eval_type == "list":
-- 
2.43.0


From 36abb21c7f18bab533e0dcf400ebae27d3151e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:49 +0000
Subject: [PATCH 25/52] fix: malformed entries of a space description were
 silently dropped

---
 bayes_optim/search_space/search_space.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bayes_optim/search_space/search_space.py b/bayes_optim/search_space/search_space.py
index 91ca28c..db0f5bb 100644
--- a/bayes_optim/search_space/search_space.py
+++ b/bayes_optim/search_space/search_space.py
@@ -674,9 +674,11 @@ class SearchSpace:
                     _vars = [Subset(bounds, name=k, default_value=default_value) for _ in N]
                 elif v["type"] in ["b", "bool"]:  # Boolean-valued
                     _vars = [Bool(name=k, default_value=default_value) for _ in N]
+                else:
+                    raise ValueError(f"unknown type {v['type']}")
                 variables += _vars
-            except:
-                print(param)
+            except Exception as e:
+                raise ValueError(f"malformed description of variable {k}: {v}") from e
         return SearchSpace(variables)
 
     @classmethod
-- 
2.43.0


From e5ccbf248fbcfc2cf96fa47db855bd468de4bf96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:49 +0000
Subject: [PATCH 26/52] fix: points were rounded after the feasibility test and
 fixed values were rounded too

---
 bayes_optim/acquisition/optim/__init__.py | 3 +++
 bayes_optim/base.py                       | 1 -
 bayes_optim/search_space/search_space.py  | 2 ++
 3 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/bayes_optim/acquisition/optim/__init__.py b/bayes_optim/acquisition/optim/__init__.py
index 9c218cc..d12e387 100644
--- a/bayes_optim/acquisition/optim/__init__.py
+++ b/bayes_optim/acquisition/optim/__init__.py
@@ -119,6 +119,9 @@ def argmax_restart(
                 eval_type="list",
             ).optimize()
 
+        # NOTE: the constraints should be tested on the point to return
+        if len(search_space.real_id) > 0:
+            xopt_ = search_space.round(xopt_)[0].tolist()
         cond_h = all(np.isclose(np.abs(h(xopt_)), 0, atol=1e-1)) if h else True
         cond_g = all(g(xopt_) <= 0) if g else True
         if cond_h and cond_g:
diff --git a/bayes_optim/base.py b/bayes_optim/base.py
index f13c41f..6b87992 100644
--- a/bayes_optim/base.py
+++ b/bayes_optim/base.py
@@ -391,7 +391,6 @@ class BaseBO(BaseOptimizer):
             X = fillin_fixed_value(X, fixed, self.search_space)
 
             if len(X) != 0:
-                X = self.search_space.round(X)
                 X = self.pre_eval_check(X)
                 DoE += X
                 n_point -= len(X)
diff --git a/bayes_optim/search_space/search_space.py b/bayes_optim/search_space/search_space.py
index db0f5bb..19afc50 100644
--- a/bayes_optim/search_space/search_space.py
+++ b/bayes_optim/search_space/search_space.py
@@ -534,6 +534,8 @@ class SearchSpace:
         n = max(N, 10) if h or g else N
         constraints = lambda x: np.r_[np.abs(h(x)) if h else [], np.array(g(x)) if g else []]
         S = SCMC(self, constraints, tol=tol).sample(n) if h or g else self._sample(N, method)
+        # NOTE: the constraints should be tested on the points to return
+        S = self.round(S) if len(S) > 0 else S
         try:
             # NOTE: equality constraints are converted to an epsilon-tude around the
             # corresponding manifold
-- 
2.43.0


From c2281018c789de339b6361f2d82c6aa1c08caaf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:55 +0000
Subject: [PATCH 27/52] fix: (1+1)-CMA-ES restarted forever once the last
 restart was used

---
 bayes_optim/acquisition/optim/one_plus_one_cma_es.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bayes_optim/acquisition/optim/one_plus_one_cma_es.py b/bayes_optim/acquisition/optim/one_plus_one_cma_es.py
index a8af1b7..79d83b5 100644
--- a/bayes_optim/acquisition/optim/one_plus_one_cma_es.py
+++ b/bayes_optim/acquisition/optim/one_plus_one_cma_es.py
@@ -274,6 +274,7 @@ class OnePlusOne_CMA(object):
             self._delta_f = self.ftol * 200
             self.stop_dict = {}
             self.n_restart -= 1
+            self._restart = False
 
     def ask(self) -> np.ndarray:
         """The mutation operator
-- 
2.43.0


From a0a2e1900bb63a1b7725fb6b5b8f69456532b663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:55 +0000
Subject: [PATCH 28/52] fix: MIES started another generation when its budget
 was already used up

---
 bayes_optim/acquisition/optim/mies.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayes_optim/acquisition/optim/mies.py b/bayes_optim/acquisition/optim/mies.py
index a8a5524..bcee754 100644
--- a/bayes_optim/acquisition/optim/mies.py
+++ b/bayes_optim/acquisition/optim/mies.py
@@ -274,7 +274,7 @@ class MIES:
             individual[self.id_d[i]] = levels[randint(0, len(levels))]
 
     def stop(self):
-        if self.eval_count > self.max_eval:
+        if self.eval_count >= self.max_eval:
             self.stop_dict["max_eval"] = True
 
         if self.eval_count != 0 and self.iter_count != 0:
-- 
2.43.0


From f9fbf0325ebf571738edb151f3aa317bbff81da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:55 +0000
Subject: [PATCH 29/52] fix: SelfAdaptiveBO ranked the components of one
 candidate instead of the acquisition values

---
 bayes_optim/bayes_opt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayes_optim/bayes_opt.py b/bayes_optim/bayes_opt.py
index 11400de..f114ced 100644
--- a/bayes_optim/bayes_opt.py
+++ b/bayes_optim/bayes_opt.py
@@ -171,7 +171,7 @@ class SelfAdaptiveBO(ParallelBO):
             __ = [list(self._argmax_restart(_, logger=self.logger)) for _ in criteria]
 
         # NOTE: this adaptation is different from what I did in the LeGO paper..
-        idx = np.argsort(__[1])[::-1][:N]
+        idx = np.argsort([_[1] for _ in __])[::-1][:N]
         self._acquisition_par["t"] = np.mean([_t_list[i] for i in idx])
         return tuple(zip(*__))
 
-- 
2.43.0


From 67c0e523ebada6df31e49470c44e6e419ba5792d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:55 +0000
Subject: [PATCH 30/52] fix: multi-objective BO failed with warm data and
 parallel objective functions

---
 bayes_optim/mobo.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/bayes_optim/mobo.py b/bayes_optim/mobo.py
index 2588af4..456e209 100644
--- a/bayes_optim/mobo.py
+++ b/bayes_optim/mobo.py
@@ -20,11 +20,15 @@ __authors__ = ["Hao Wang"]
 class BaseMOBO(BO):
     """Base class for multi-objective BO"""
 
-    def __init__(self, n_obj: int = 2, minimize: Union[bool, List[bool]] = True, **kwargv):
+    def __init__(
+        self, n_obj: int = 2, minimize: Union[bool, List[bool]] = True, warm_data: Tuple = None, **kwargv
+    ):
         # NOTE: setting `minimize=True` to make parent's constructor work
-        super().__init__(minimize=True, **kwargv)
+        super().__init__(n_obj=n_obj, minimize=True, **kwargv)
         self._check_obj_fun(n_obj)
         self._check_minimize(minimize)
+        # NOTE: the warm-starting data can only be told when the objectives are known
+        self.warm_data = warm_data
 
     def _check_minimize(self, minimize: bool):
         self.minimize = minimize
@@ -83,6 +87,9 @@ class BaseMOBO(BO):
         List[Tuple[float]]
             of the shape [[f1(x1),...,fm(x1)], [f1(x2),...,fm(x2)],...,[f1(xn),...,fm(xn)]]
         """
+        if self.parallel_obj_fun is not None:
+            return self.parallel_obj_fun(X)
+
         func_vals = []
         for f in self.obj_fun:
             if self.n_job > 1:  # or by ourselves..
-- 
2.43.0


From 0ba1e154f119d324779f9509c580cdac38174668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:55 +0000
Subject: [PATCH 31/52] fix: PCABO did not support warm data and proposed
 points outside the search space

---
 bayes_optim/extension.py | 39 +++++++++++++++++++++++++++++----------
 1 file changed, 29 insertions(+), 10 deletions(-)

diff --git a/bayes_optim/extension.py b/bayes_optim/extension.py
index 0838794..7045cee 100644
--- a/bayes_optim/extension.py
+++ b/bayes_optim/extension.py
@@ -2,7 +2,7 @@ from __future__ import annotations
 
 import functools
 from copy import copy, deepcopy
-from typing import Callable, Dict, List, Union
+from typing import Callable, Dict, List, Tuple, Union
 
 import numpy as np
 from joblib import Parallel, delayed
@@ -99,7 +99,7 @@ class PCABO(BO):
 
     """
 
-    def __init__(self, n_components: Union[float, int] = None, **kwargs):
+    def __init__(self, n_components: Union[float, int] = None, warm_data: Tuple = None, **kwargs):
         super().__init__(**kwargs)
         if self.model is not None:
             self.logger.warning(
@@ -109,6 +109,7 @@ class PCABO(BO):
         assert isinstance(self._search_space, RealSpace)
         self.__search_space = deepcopy(self._search_space)  # the original search space
         self._pca = LinearTransform(n_components=n_components, svd_solver="full", minimize=self.minimize)
+        self.warm_data = warm_data  # NOTE: it can only be told when the transformation is created
 
     @staticmethod
     def _compute_bounds(pca: PCA, search_space: SearchSpace) -> List[float]:
@@ -148,21 +149,39 @@ class PCABO(BO):
         self._xopt = self.data[np.where(self.data.fitness == fopt)[0][0]]
         return self._xopt
 
-    def ask(self, n_point: int = None) -> List[List[float]]:
-        return self._pca.inverse_transform(super().ask(n_point))
+    def ask(
+        self, n_point: int = None, fixed: Dict[str, Union[float, int, str]] = None
+    ) -> List[List[float]]:
+        if fixed:
+            raise NotImplementedError("fixing variables is not supported in PCA-BO")
+        X = np.asarray(self._pca.inverse_transform(super().ask(n_point)), dtype=float)
+        # NOTE: points in the reduced space might be mapped outside the original search space
+        bounds = np.asarray(self.__search_space.bounds)
+        return np.clip(X, bounds[:, 0], bounds[:, 1]).tolist()
 
-    def tell(self, new_X, new_y):
+    def tell(
+        self,
+        X: List[List[float]],
+        func_vals: List[float],
+        h_vals: List[Union[float, list]] = None,
+        g_vals: List[Union[float, list]] = None,
+        index: List[str] = None,
+        warm_start: bool = False,
+    ):
+        new_X, new_y = X, func_vals
         self.logger.info(f"observing {len(new_X)} points:")
         for i, x in enumerate(new_X):
             self.logger.info(f"#{i + 1} - fitness: {new_y[i]}, solution: {x}")
 
-        index = np.arange(len(new_X))
-        if hasattr(self, "data"):
-            index += len(self.data)
+        if index is None:
+            index = np.arange(len(new_X))
+            if hasattr(self, "data"):
+                index += len(self.data)
         # convert `new_X` to a `Solution` object
         new_X = self._to_geno(new_X, index=index, n_eval=1, fitness=new_y)
-        self.iter_count += 1
-        self.eval_count += len(new_X)
+        if not warm_start:
+            self.iter_count += 1
+            self.eval_count += len(new_X)
 
         new_X = self.post_eval_check(new_X)  # remove NaN's
         self.data = self.data + new_X if hasattr(self, "data") else new_X
-- 
2.43.0


From 7715b244d14d283eec0d93d093a7490cb4c42f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:55 +0000
Subject: [PATCH 32/52] fix: ConditionalBO.tell must accept the arguments of
 the base class

---
 bayes_optim/extension.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/bayes_optim/extension.py b/bayes_optim/extension.py
index 7045cee..f74a30d 100644
--- a/bayes_optim/extension.py
+++ b/bayes_optim/extension.py
@@ -292,8 +292,10 @@ class ConditionalBO(ParallelBO):
         self,
         X: List[Union[list, dict]],
         func_vals: List[Union[float, list]],
+        h_vals: List[Union[float, list]] = None,
+        g_vals: List[Union[float, list]] = None,
+        index: List[str] = None,
         warm_start: bool = False,
-        **kwargs,
     ):
         """Tell the BO about the function values of proposed candidate solutions
 
@@ -310,9 +312,9 @@ class ConditionalBO(ParallelBO):
             x = {key: v for key, v in X[i].items() if v is not None}
             for key, _ in self._fixed_vars[k].items():
                 x.pop(key)
-            self._bo[k].tell([x], [func_vals[i]], **kwargs)
+            self._bo[k].tell([x], [func_vals[i]], warm_start=warm_start)
 
-        X = self._to_geno(X, fitness=func_vals)
+        X = self._to_geno(X, index=index, fitness=func_vals)
         if not warm_start:
             self.eval_count += len(X)
         X = self.post_eval_check(X)
-- 
2.43.0


From 31f3621069310c7818d8b711c211c01f86c05ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:55 +0000
Subject: [PATCH 33/52] fix: partial_argument took the number of variables for
 the number of points

---
 bayes_optim/utils/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayes_optim/utils/utils.py b/bayes_optim/utils/utils.py
index 5494afc..8e5f364 100644
--- a/bayes_optim/utils/utils.py
+++ b/bayes_optim/utils/utils.py
@@ -186,7 +186,7 @@ def partial_argument(
         if not isinstance(X, np.ndarray):
             X = np.array(X, dtype=object)
 
-        N = 1 if len(X.shape) == 1 else X.shape[1]
+        N = 1 if len(X.shape) == 1 else X.shape[0]
         X_ = np.empty((N, len(masks)), dtype=object)
         X_[:, ~masks] = X
         # this is needed if `values` contains tuples
-- 
2.43.0


From 69ce5e172bd87929d12fe239bc92cfcd802d3ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:55 +0000
Subject: [PATCH 34/52] fix: the random forest claimed to be fitted when
 fitting failed

---
 bayes_optim/surrogate/random_forest.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bayes_optim/surrogate/random_forest.py b/bayes_optim/surrogate/random_forest.py
index 22a643c..5f27484 100644
--- a/bayes_optim/surrogate/random_forest.py
+++ b/bayes_optim/surrogate/random_forest.py
@@ -113,8 +113,9 @@ class RandomForest(RandomForestRegressor):
             y = y.ravel()
         self.X = self._check_X(X)
         self.y = y
+        super().fit(self.X, self.y)
         self.is_fitted = True
-        return super().fit(self.X, self.y)
+        return self
 
     def predict(self, X: Union[Solution, List, np.ndarray], eval_MSE=False) -> np.ndarray:
         """Predict regression target for `X`.
-- 
2.43.0


From 7f8afaf965fff8695f355233a2ea6bc9b5c04670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:55 +0000
Subject: [PATCH 35/52] fix: fmin reported the wrong initial sample and failed
 on integer bounds

---
 bayes_optim/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bayes_optim/__init__.py b/bayes_optim/__init__.py
index 0115a59..987a8c5 100755
--- a/bayes_optim/__init__.py
+++ b/bayes_optim/__init__.py
@@ -136,7 +136,7 @@ def fmin(
     """
     obj_func = lambda x: func(x, *args)
 
-    if isinstance(lower, float) and isinstance(upper, float):
+    if isinstance(lower, (int, float)) and isinstance(upper, (int, float)):
         search_space = RealSpace([lower, upper])
     elif isinstance(lower, list) and isinstance(upper, list):
         assert len(lower) == len(upper)
@@ -191,7 +191,7 @@ def fmin(
     N, n = opt.DoE_size, opt.n_point
     _data, data = opt.data[:N, :], opt.data[N:, :]
 
-    data_per_iteration = [np.asarray(data[:N, :])]
+    data_per_iteration = [np.asarray(_data)]
     data_per_iteration += [np.asarray(data[(i * n) : ((i + 1) * n), :]) for i in range(opt.iter_count - 1)]
 
     print(
-- 
2.43.0


From 7ad7a51f35591b84e913c417334b5458875780d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:55 +0000
Subject: [PATCH 36/52] fix: a log file was taken for the console when saving
 and creating loggers

---
 bayes_optim/utils/logger.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bayes_optim/utils/logger.py b/bayes_optim/utils/logger.py
index 88df37d..089ca82 100644
--- a/bayes_optim/utils/logger.py
+++ b/bayes_optim/utils/logger.py
@@ -49,7 +49,7 @@ def get_logger(
 
     fmt = LoggerFormatter()
     # create console handler and set level to the vebosity
-    SH = list(filter(lambda h: isinstance(h, logging.StreamHandler), logger.handlers))
+    SH = [h for h in logger.handlers if type(h) is logging.StreamHandler]
     if len(SH) == 0 and console:  # if console handler is not registered yet
         sh = logging.StreamHandler(sys.stdout)
         sh.setLevel(logging.INFO)
@@ -76,7 +76,7 @@ def get_logger(
 def dump_logger(logger: logging.Logger) -> str:
     FHs = list(filter(lambda h: isinstance(h, logging.FileHandler), logger.handlers))
     log_file = None if len(FHs) == 0 else [fh.baseFilename for fh in FHs]
-    SH = list(filter(lambda h: isinstance(h, logging.StreamHandler), logger.handlers))
+    SH = [h for h in logger.handlers if type(h) is logging.StreamHandler]
     return dill.dumps({"logger_id": logger.name, "console": len(SH) != 0, "file": log_file})
 
 
-- 
2.43.0


From 091d98a411e04b7ab473f0951e50013fbe221d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:14:14 +0000
Subject: [PATCH 37/52] fix: random top-up gave up on discrete spaces that are
 far from being enumerated

---
 bayes_optim/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bayes_optim/base.py b/bayes_optim/base.py
index 6b87992..a2bde5c 100644
--- a/bayes_optim/base.py
+++ b/bayes_optim/base.py
@@ -383,7 +383,7 @@ class BaseBO(BaseOptimizer):
             # NOTE: random sampling could generate duplicated points again
             # keep sampling until getting enough points
             X = search_space.sample(
-                n_point,
+                n_point if count == 0 else max(n_point, 10),  # draw more after duplicated points
                 method="LHS" if n_point > 1 else "uniform",
                 h=partial_argument(self._h, self.search_space.var_name, fixed) if self._h else None,
                 g=partial_argument(self._g, self.search_space.var_name, fixed) if self._g else None,
@@ -391,7 +391,7 @@ class BaseBO(BaseOptimizer):
             X = fillin_fixed_value(X, fixed, self.search_space)
 
             if len(X) != 0:
-                X = self.pre_eval_check(X)
+                X = self.pre_eval_check(X)[:n_point]
                 DoE += X
                 n_point -= len(X)
 
-- 
2.43.0


From 05809a760e28e45228c846c7ab500016af6759ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:24:34 +0000
Subject: [PATCH 38/52] fix: a space emptied by pop, remove or subtraction kept
 the index sets and levels of its former variables

---
 bayes_optim/search_space/search_space.py | 34 +++++++++---------------
 1 file changed, 13 insertions(+), 21 deletions(-)

diff --git a/bayes_optim/search_space/search_space.py b/bayes_optim/search_space/search_space.py
index 19afc50..b13e37c 100644
--- a/bayes_optim/search_space/search_space.py
+++ b/bayes_optim/search_space/search_space.py
@@ -216,31 +216,23 @@ class SearchSpace:
 
     def _set_index(self):
         """set indices for each type of variables"""
-        if self.dim > 0:
-            for var_type in self._supported_types:
-                name = var_type.__name__
-                attr_mask = name.lower() + "_mask"
-                attr_id = name.lower() + "_id"
-                mask = np.asarray(self._var_type) == name
-                self.__dict__[attr_mask] = mask
-                self.__dict__[attr_id] = np.nonzero(mask)[0]
-
-            self.categorical_id = np.r_[
-                self.discrete_id, self.ordinal_id, self.bool_id, self.subset_id
-            ]
-            self.categorical_mask = (
-                self.bool_mask | self.discrete_mask | self.ordinal_mask | self.subset_mask
-            )
+        for var_type in self._supported_types:
+            name = var_type.__name__
+            attr_mask = name.lower() + "_mask"
+            attr_id = name.lower() + "_id"
+            mask = np.asarray(self._var_type, dtype=str) == name
+            self.__dict__[attr_mask] = mask
+            self.__dict__[attr_id] = np.nonzero(mask)[0]
+
+        self.categorical_id = np.r_[self.discrete_id, self.ordinal_id, self.bool_id, self.subset_id]
+        self.categorical_mask = self.bool_mask | self.discrete_mask | self.ordinal_mask | self.subset_mask
 
     def _set_levels(self):
         # TODO: check if this is still needed
         """Set categorical levels for all nominal variables"""
-        if self.dim > 0:
-            self.levels = (
-                {i: self._bounds[i] for i in self.categorical_id}
-                if len(self.categorical_id) > 0
-                else {}
-            )
+        self.levels = (
+            {i: self._bounds[i] for i in self.categorical_id} if len(self.categorical_id) > 0 else {}
+        )
 
     def __getitem__(self, index) -> Union[SearchSpace, Variable]:
         if isinstance(index, (int, slice)):
-- 
2.43.0


From a3647041b8bc21c2f337f768535144bdd4028b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:40:26 +0000
Subject: [PATCH 39/52] fix: rows of multi-objective solutions could not be
 concatenated, single-row solutions not be replicated

---
 bayes_optim/solution.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/bayes_optim/solution.py b/bayes_optim/solution.py
index 16c61f2..8d27d69 100644
--- a/bayes_optim/solution.py
+++ b/bayes_optim/solution.py
@@ -153,7 +153,7 @@ class Solution(np.ndarray):
         __ = [other.tolist()] if len(other.shape) == 1 else other.tolist()
         return Solution(
             _ + __,
-            self.fitness.tolist() + other.fitness.tolist(),
+            self._fitness_rows() + other._fitness_rows(),
             self.n_eval.tolist() + other.n_eval.tolist(),
             var_name=self.var_name,
             fitness_name=self.fitness_name,
@@ -162,14 +162,18 @@ class Solution(np.ndarray):
             verbose=self.verbose,
         )
 
+    def _fitness_rows(self) -> List:
+        # NOTE: the `fitness` of a single row is 1-d, also with multiple objectives
+        return self.fitness.reshape((-1, self.n_obj) if self.n_obj > 1 else -1).tolist()
+
     def __mul__(self, N: int) -> Solution:
         """repeat a solution N times"""
         assert isinstance(N, int)
         if self.N > 1:
             raise Exception("Replication is not supported for 2D")
         return Solution(
-            [self.tolist()] * N,
-            self.fitness.tolist() * N,
+            ([self.tolist()] if len(self.shape) == 1 else self.tolist()) * N,
+            self._fitness_rows() * N,
             self.n_eval.tolist() * N,
             var_name=self.var_name,
             fitness_name=self.fitness_name,
-- 
2.43.0


From 766fa154c69b126e8610a832495e8638db4d2812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:07:36 +0000
Subject: [PATCH 40/52] fix: warm data given as solutions is accepted and not
 modified

---
 bayes_optim/base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bayes_optim/base.py b/bayes_optim/base.py
index a2bde5c..13c3810 100644
--- a/bayes_optim/base.py
+++ b/bayes_optim/base.py
@@ -162,7 +162,9 @@ class BaseBO(BaseOptimizer):
             assert len(X) == len(y)
 
             if isinstance(X, Solution):
-                assert X.var_name == self.var_names
+                assert list(X.var_name) == list(self.var_names)
+                # NOTE: the solutions belong to the caller and should not be modified
+                X = Solution(X.tolist(), var_name=self.var_names, n_obj=self.n_obj, index=X.index.tolist())
             else:
                 X = self._to_geno(X)
 
-- 
2.43.0


From 0112e2a3b7c8f49af135e291914cbd80297f1469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:07:36 +0000
Subject: [PATCH 41/52] fix: rounding or rescaling points in a mixed space does
 not change the input array

---
 bayes_optim/search_space/search_space.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/bayes_optim/search_space/search_space.py b/bayes_optim/search_space/search_space.py
index b13e37c..382a3b4 100644
--- a/bayes_optim/search_space/search_space.py
+++ b/bayes_optim/search_space/search_space.py
@@ -563,8 +563,8 @@ class SearchSpace:
         return X
 
     def round(self, X: Union[np.ndarray, List[List]]) -> np.ndarray:
-        if not isinstance(X, np.ndarray):
-            X = np.array(X, dtype=object)
+        # NOTE: always make a copy such that the input array is not modified
+        X = X.copy() if isinstance(X, np.ndarray) else np.array(X, dtype=object)
         if len(X.shape) == 1:
             X = X.reshape(1, -1)
         if len(self.real_id) > 0:  # if real-valued variables exist.
@@ -573,8 +573,8 @@ class SearchSpace:
         return X
 
     def to_linear_scale(self, X: Union[np.ndarray, List[List]]) -> np.ndarray:
-        if not isinstance(X, np.ndarray):
-            X = np.array(X, dtype=object)
+        # NOTE: always make a copy such that the input array is not modified
+        X = X.copy() if isinstance(X, np.ndarray) else np.array(X, dtype=object)
         if len(X.shape) == 1:
             X = X.reshape(1, -1)
         if len(self.real_id) > 0:  # if real-valued variables exist.
-- 
2.43.0


From cbf1d6435be07ba7ce18aa58b40dfbed8e813891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:07:58 +0000
Subject: [PATCH 42/52] fix: Gaussian processes given the same trend do not
 share its coefficients

---
 bayes_optim/surrogate/gaussian_process/gpr.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bayes_optim/surrogate/gaussian_process/gpr.py b/bayes_optim/surrogate/gaussian_process/gpr.py
index 024c9b6..59fca09 100755
--- a/bayes_optim/surrogate/gaussian_process/gpr.py
+++ b/bayes_optim/surrogate/gaussian_process/gpr.py
@@ -1,4 +1,5 @@
 import warnings
+from copy import deepcopy
 
 import numpy as np
 from numpy import array, dot, exp, log, log10, pi, sqrt
@@ -226,7 +227,7 @@ class GaussianProcess(BaseEstimator, RegressorMixin):
         random_state=None,
         verbose=False,
     ):
-        self.mean = mean  # Prior mean function
+        self.mean = deepcopy(mean)  # Prior mean function, which will be modified in `fit`
         self.corr = corr  # Prior correlation function
         self.sigma2 = sigma2  # variance of the stationary process
         self.verbose = verbose
-- 
2.43.0


From 68667d7975b5172c96dcae49cbeb6640657d812a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:10:10 +0000
Subject: [PATCH 43/52] fix: a constraint failing in the feasibility test of
 argmax_restart surfaces as ConstraintEvaluationError

---
 bayes_optim/acquisition/optim/__init__.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/bayes_optim/acquisition/optim/__init__.py b/bayes_optim/acquisition/optim/__init__.py
index d12e387..6430714 100644
--- a/bayes_optim/acquisition/optim/__init__.py
+++ b/bayes_optim/acquisition/optim/__init__.py
@@ -6,6 +6,7 @@ from scipy.optimize import fmin_l_bfgs_b
 
 from ...search_space import RealSpace
 from ...utils import dynamic_penalty
+from ...utils.exception import ConstraintEvaluationError
 from .mies import MIES
 from .one_plus_one_cma_es import OnePlusOne_Cholesky_CMA, OnePlusOne_CMA
 from .option import default_AQ_max_FEs, default_AQ_n_restart, default_AQ_wait_iter
@@ -122,8 +123,11 @@ def argmax_restart(
         # NOTE: the constraints should be tested on the point to return
         if len(search_space.real_id) > 0:
             xopt_ = search_space.round(xopt_)[0].tolist()
-        cond_h = all(np.isclose(np.abs(h(xopt_)), 0, atol=1e-1)) if h else True
-        cond_g = all(g(xopt_) <= 0) if g else True
+        try:
+            cond_h = all(np.isclose(np.abs(h(xopt_)), 0, atol=1e-1)) if h else True
+            cond_g = all(g(xopt_) <= 0) if g else True
+        except Exception as e:
+            raise ConstraintEvaluationError(xopt_, str(e)) from None
         if cond_h and cond_g:
             if isinstance(fopt_, np.ndarray):
                 fopt_ = fopt_[0]
-- 
2.43.0


From 2f725a679f110673059447fad23a1d6a38ebc645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:10:10 +0000
Subject: [PATCH 44/52] fix: constrained sampling keeps categorical levels of
 mixed types and tuples as declared

---
 bayes_optim/search_space/samplers.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/bayes_optim/search_space/samplers.py b/bayes_optim/search_space/samplers.py
index b62235e..a1c3e4f 100644
--- a/bayes_optim/search_space/samplers.py
+++ b/bayes_optim/search_space/samplers.py
@@ -147,9 +147,11 @@ class SCMC:
         N = len(X)
         prob = max(0.5 * np.exp(-1 * t), 1 / self.N_d)
         for i in self.id_d:
-            levels = np.array(self.sample_space.bounds[i])
-            idx = np.random.rand(N) < prob
-            X[idx, i] = levels[np.random.randint(0, len(levels), sum(idx))]
+            # NOTE: the levels should not be casted to an array, as they can be of different types or tuples
+            levels = self.sample_space.bounds[i]
+            (idx,) = np.nonzero(np.random.rand(N) < prob)
+            for j, k in zip(idx, np.random.randint(0, len(levels), len(idx))):
+                X[j, i] = levels[k]
 
     def _ess(self, nu: float, nu_ref: float, X: np.ndarray) -> float:
         """effective sample size"""
-- 
2.43.0


From 15869278b6cf9ef426ba5e8d63d0aae3b807014f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:38 +0000
Subject: [PATCH 45/52] fix: a surrogate whose refit fails midway no longer
 reports being fitted

---
 bayes_optim/surrogate/gaussian_process/__init__.py | 1 +
 bayes_optim/surrogate/gaussian_process/gpr.py      | 1 +
 bayes_optim/surrogate/random_forest.py             | 1 +
 3 files changed, 3 insertions(+)

diff --git a/bayes_optim/surrogate/gaussian_process/__init__.py b/bayes_optim/surrogate/gaussian_process/__init__.py
index dbf9559..6ce6ff2 100755
--- a/bayes_optim/surrogate/gaussian_process/__init__.py
+++ b/bayes_optim/surrogate/gaussian_process/__init__.py
@@ -122,6 +122,7 @@ class GaussianProcessSklearn:
         self : object
             `GaussianProcess` class instance.
         """
+        self.is_fitted = False
         X = np.array(X.tolist())
         self._check_dims(X, y)
         self._gprs = list()
diff --git a/bayes_optim/surrogate/gaussian_process/gpr.py b/bayes_optim/surrogate/gaussian_process/gpr.py
index 59fca09..b8ef004 100755
--- a/bayes_optim/surrogate/gaussian_process/gpr.py
+++ b/bayes_optim/surrogate/gaussian_process/gpr.py
@@ -372,6 +372,7 @@ class GaussianProcess(BaseEstimator, RegressorMixin):
             A fitted Gaussian Process model object awaiting data to perform
             predictions.
         """
+        self.is_fitted = False
         # Run input checks
         self.random_state = check_random_state(self.random_state)
         self._check_data(X, y)
diff --git a/bayes_optim/surrogate/random_forest.py b/bayes_optim/surrogate/random_forest.py
index 5f27484..2093b5b 100644
--- a/bayes_optim/surrogate/random_forest.py
+++ b/bayes_optim/surrogate/random_forest.py
@@ -109,6 +109,7 @@ class RandomForest(RandomForestRegressor):
         return X
 
     def fit(self, X: Union[Solution, List, np.ndarray], y: np.ndarray):
+        self.is_fitted = False
         if y.ndim == 2 and y.shape[1] == 1:
             y = y.ravel()
         self.X = self._check_X(X)
-- 
2.43.0


From 514d663b22506abb23e9dfa1dcee8f81814f5444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:14 +0000
Subject: [PATCH 46/52] fix: the (1+1)-CMA-ES does not start another step once
 its budget is used up by the initial or a restart point

---
 bayes_optim/acquisition/optim/one_plus_one_cma_es.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bayes_optim/acquisition/optim/one_plus_one_cma_es.py b/bayes_optim/acquisition/optim/one_plus_one_cma_es.py
index 79d83b5..2019e0f 100644
--- a/bayes_optim/acquisition/optim/one_plus_one_cma_es.py
+++ b/bayes_optim/acquisition/optim/one_plus_one_cma_es.py
@@ -232,6 +232,7 @@ class OnePlusOne_CMA(object):
         self._sigma = sigma
 
     def run(self):
+        self.check_stop()
         while not self._stop:
             self.step()
         return self.xopt, self.fopt, self.stop_dict
@@ -275,6 +276,7 @@ class OnePlusOne_CMA(object):
             self.stop_dict = {}
             self.n_restart -= 1
             self._restart = False
+            self.check_stop()
 
     def ask(self) -> np.ndarray:
         """The mutation operator
-- 
2.43.0


From 9930d5a5e27e3a9eedcbe8f09d61823c342abe5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:58 +0000
Subject: [PATCH 47/52] fix: fitting a Gaussian process with noise estimation
 on constant values no longer loops forever

---
 bayes_optim/surrogate/gaussian_process/gpr.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bayes_optim/surrogate/gaussian_process/gpr.py b/bayes_optim/surrogate/gaussian_process/gpr.py
index b8ef004..5f9c52f 100755
--- a/bayes_optim/surrogate/gaussian_process/gpr.py
+++ b/bayes_optim/surrogate/gaussian_process/gpr.py
@@ -392,7 +392,8 @@ class GaussianProcess(BaseEstimator, RegressorMixin):
                     print("Invalid likelihood value. Increasing nugget...")
 
                     # TODO: maybe turn the working mode to 'noise_estim' directly
-                    if self.estimation_mode == "noiseless":
+                    # NOTE: increasing `noise_var` only takes effect in the "noisy" mode
+                    if self.estimation_mode != "noisy":
                         self.estimation_mode = "noisy"
                         self.noise_var = 1e-5
                     else:
-- 
2.43.0


From 7ce732633355655a0de6142a29093c1423bbc7ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:00 +0000
Subject: [PATCH 48/52] fix: warm-start data with boolean or non-string
 categorical values are no longer rejected

---
 bayes_optim/base.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bayes_optim/base.py b/bayes_optim/base.py
index 13c3810..c9c79ec 100644
--- a/bayes_optim/base.py
+++ b/bayes_optim/base.py
@@ -172,7 +172,10 @@ class BaseBO(BaseOptimizer):
             X.n_eval = 1
             assert all([isinstance(_, float) for _ in X[:, self.r_index].ravel()])
             assert all([isinstance(_, int) for _ in X[:, self.i_index].ravel()])
-            assert all([isinstance(_, str) for _ in X[:, self.d_index].ravel()])
+            # NOTE: the levels of a categorical variable are not necessarily strings
+            for i in self.d_index:
+                _type = tuple(type(_) for _ in self.search_space.bounds[i])
+                assert all([isinstance(_, _type) for _ in X[:, i]])
             self._warm_data = X
             self.tell(self._to_pheno(X), y, warm_start=True)
 
-- 
2.43.0


From 275374c9ccb1e4a6d9ddd868d4ea9fbbd61c4b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:41:47 +0000
Subject: [PATCH 49/52] fix: judge Pareto dominance on the recorded values, not
 on normalized single-precision ones

---
 bayes_optim/mobo.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bayes_optim/mobo.py b/bayes_optim/mobo.py
index 456e209..0ea7082 100644
--- a/bayes_optim/mobo.py
+++ b/bayes_optim/mobo.py
@@ -5,7 +5,7 @@ import numpy as np
 from joblib import Parallel, delayed
 from sklearn.metrics import mean_squared_error, r2_score
 from sklearn.preprocessing import MinMaxScaler
-from torch import Tensor
+from torch import Tensor, from_numpy
 
 from .acquisition.optim import argmax_restart
 from .bayes_opt import BO
@@ -57,7 +57,9 @@ class BaseMOBO(BO):
         """get the non-dominated subset of solutions"""
         if self.y is None:
             return None
-        idx = is_non_dominated(Tensor(self.y)).detach().cpu().numpy()
+        # NOTE: compare the recorded values; the normalized ones in single precision can coincide
+        y = self.data.fitness * (-1.0) ** self.minimize
+        idx = is_non_dominated(from_numpy(y)).detach().cpu().numpy()
         return self.data[idx, :]
 
     @property
-- 
2.43.0


From 1341c5cb5589e5405be7ada6dc4b93ad73de693d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:09:03 +0000
Subject: [PATCH 50/52] fix: NoisyBO.pre_eval_check returns a list, so that its
 initial design and top-up can be created

---
 bayes_optim/bayes_opt.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/bayes_optim/bayes_opt.py b/bayes_optim/bayes_opt.py
index f114ced..9aa2ad2 100644
--- a/bayes_optim/bayes_opt.py
+++ b/bayes_optim/bayes_opt.py
@@ -179,10 +179,9 @@ class SelfAdaptiveBO(ParallelBO):
 class NoisyBO(ParallelBO):
     """Bayesian Optimization for Noisy Scenarios"""
 
-    def pre_eval_check(self, X: List):
-        if not isinstance(X, Solution):
-            X = Solution(X, var_name=self.var_names)
-        return X
+    def pre_eval_check(self, X: List) -> List:
+        # NOTE: re-evaluating the same point is allowed in the noisy case
+        return X.tolist() if isinstance(X, Solution) else X
 
     def _create_acquisition(self, fun: Callable = None, par: Dict = None, **kwargv):
         par = {} if par is None else par
-- 
2.43.0


From f46ab0ece6f1af98d520b770d82cdd0d071eef50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:20:28 +0000
Subject: [PATCH 51/52] fix: a point told once is recorded with n_eval=1 (it
 was 2 for list-typed points and 0 in ConditionalBO)

---
 bayes_optim/base.py      | 2 +-
 bayes_optim/extension.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/bayes_optim/base.py b/bayes_optim/base.py
index c9c79ec..7943e0f 100644
--- a/bayes_optim/base.py
+++ b/bayes_optim/base.py
@@ -182,7 +182,7 @@ class BaseBO(BaseOptimizer):
     def _set_aux_vars(self):
         if self._eval_type == "list":
             self._to_pheno = lambda x: copy(x.tolist())
-            self._to_geno = lambda x, index=None, n_eval=1, fitness=None: Solution(
+            self._to_geno = lambda x, index=None, n_eval=0, fitness=None: Solution(
                 x,
                 var_name=self.var_names,
                 n_obj=self.n_obj,
diff --git a/bayes_optim/extension.py b/bayes_optim/extension.py
index f74a30d..9940468 100644
--- a/bayes_optim/extension.py
+++ b/bayes_optim/extension.py
@@ -314,7 +314,7 @@ class ConditionalBO(ParallelBO):
                 x.pop(key)
             self._bo[k].tell([x], [func_vals[i]], warm_start=warm_start)
 
-        X = self._to_geno(X, index=index, fitness=func_vals)
+        X = self._to_geno(X, index=index, n_eval=1, fitness=func_vals)
         if not warm_start:
             self.eval_count += len(X)
         X = self.post_eval_check(X)
-- 
2.43.0


From b1fde0116fa85bc3e653ad1ed0ff32397afe8c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:20:50 +0000
Subject: [PATCH 52/52] fix: PCABO works with eval_type='dict': ask returns
 dictionaries of the original variables and tell accepts them

---
 bayes_optim/base.py      | 9 +++++++--
 bayes_optim/extension.py | 8 ++++++--
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/bayes_optim/base.py b/bayes_optim/base.py
index 7943e0f..3d3172e 100644
--- a/bayes_optim/base.py
+++ b/bayes_optim/base.py
@@ -192,8 +192,13 @@ class BaseBO(BaseOptimizer):
             )
         elif self._eval_type == "dict":
             self._to_pheno = lambda x: x.to_dict().copy()
-            self._to_geno = lambda x, index=None: Solution.from_dict(
-                x, index=index, var_name=self.var_names, n_obj=self.n_obj
+            self._to_geno = lambda x, index=None, n_eval=0, fitness=None: Solution.from_dict(
+                x,
+                var_name=self.var_names,
+                n_obj=self.n_obj,
+                index=index,
+                n_eval=n_eval,
+                fitness=fitness,
             )
 
     def _set_internal_optimization(self, kwargs):
diff --git a/bayes_optim/extension.py b/bayes_optim/extension.py
index 9940468..da1188d 100644
--- a/bayes_optim/extension.py
+++ b/bayes_optim/extension.py
@@ -154,10 +154,14 @@ class PCABO(BO):
     ) -> List[List[float]]:
         if fixed:
             raise NotImplementedError("fixing variables is not supported in PCA-BO")
-        X = np.asarray(self._pca.inverse_transform(super().ask(n_point)), dtype=float)
+        X = super().ask(n_point)
+        if self._eval_type == "dict":
+            X = [list(x.values()) for x in X]
+        X = np.asarray(self._pca.inverse_transform(X), dtype=float)
         # NOTE: points in the reduced space might be mapped outside the original search space
         bounds = np.asarray(self.__search_space.bounds)
-        return np.clip(X, bounds[:, 0], bounds[:, 1]).tolist()
+        X = np.clip(X, bounds[:, 0], bounds[:, 1]).tolist()
+        return [dict(zip(self.__search_space.var_name, x)) for x in X] if self._eval_type == "dict" else X
 
     def tell(
         self,
-- 
2.43.0

