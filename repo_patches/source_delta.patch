From a71b24b1596d4eedecd2c932ed1116aeff4e1fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:45 +0000
Subject: [PATCH 01/42] fix: ContractionTree loses the first contraction when
 'path' is an iterator

---
 tnco/ctree.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tnco/ctree.py b/tnco/ctree.py
index 7ddd39d..d1b11d7 100644
--- a/tnco/ctree.py
+++ b/tnco/ctree.py
@@ -79,6 +79,7 @@ class ContractionTree(_ContractionTree):
             raise TypeError("Got unexpected keyword arguments.")
 
         # Convert to list
+        path = list(path)
         ts_inds = list(ts_inds)
 
         # If a list of nodes has been provide, use it as 'ctree'
-- 
2.43.0


From 17de75f6e75d0c960d78358768b05ae4a2fc34cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:44 +0000
Subject: [PATCH 02/42] fix: contraction cost for uniform dimensions is limited
 to double, whatever the cost type

---
 .../tnco/optimize/infinite_memory/cost_model/simple.hpp   | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/tnco/optimize/infinite_memory/cost_model/simple.hpp b/include/tnco/optimize/infinite_memory/cost_model/simple.hpp
index a9b5d01..64ffeb3 100644
--- a/include/tnco/optimize/infinite_memory/cost_model/simple.hpp
+++ b/include/tnco/optimize/infinite_memory/cost_model/simple.hpp
@@ -42,7 +42,13 @@ template <typename CostType, typename Bitset, typename DimsType>
     -> CostType {
   if constexpr (std::is_arithmetic_v<DimsType>) {
     ASSERT(dims != 0, "Each dimension must be a positive number.");
-    return std::pow(dims, inds.count());
+    // Do not use 'std::pow', as it would be limited to the precision (and the
+    // maximum value) of a double
+    CostType cost_{1};
+    for (auto n_ = inds.count(); n_ > 0; --n_) {
+      cost_ *= dims;
+    }
+    return cost_;
   } else {
     ASSERT(std::size(inds) <= std::size(dims), "'Too few dimensions.'");
     ASSERT(std::none_of(std::begin(dims), std::end(dims),
-- 
2.43.0


From 82192768e40ce62653aa8dffe6adad12a58d7a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:44 +0000
Subject: [PATCH 03/42] fix: division by zero when no index is left to slice
 for a move

---
 include/tnco/optimize/finite_width/greedy/optimizer.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/tnco/optimize/finite_width/greedy/optimizer.hpp b/include/tnco/optimize/finite_width/greedy/optimizer.hpp
index e6b7380..2131bb3 100644
--- a/include/tnco/optimize/finite_width/greedy/optimizer.hpp
+++ b/include/tnco/optimize/finite_width/greedy/optimizer.hpp
@@ -239,7 +239,7 @@ struct Optimizer : optimize::optimizer::Optimizer {
 
           // Keep adding new random slices until the sliced width is not larger
           // than max_width
-          while (n_new_slices < max_number_new_slices &&
+          while (n_pos > 0 && n_new_slices < max_number_new_slices &&
                  new_sliced_width_B > p_cmodel->max_width) {
             // Get a random position
             std::swap(pos[this->prng() % n_pos], pos[n_pos - 1]);
@@ -277,7 +277,7 @@ struct Optimizer : optimize::optimizer::Optimizer {
           ASSERT(abs(p_cmodel->width(new_inds_B - new_slices, dims) -
                      new_sliced_width_B) < 1e-5,
                  "Error when getting new slices.");
-          ASSERT(n_new_slices >= max_number_new_slices ||
+          ASSERT(n_pos == 0 || n_new_slices >= max_number_new_slices ||
                      new_sliced_width_B <= p_cmodel->max_width,
                  "New slices are not enough to reduce width.");
         }
-- 
2.43.0


From 5bf2dbde044837c18a5d9652d1abba025c15dcd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:44 +0000
Subject: [PATCH 04/42] fix: finite-width moves ignore the cost model when
 adding new slices

---
 .../optimize/finite_width/greedy/optimizer.hpp     | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/include/tnco/optimize/finite_width/greedy/optimizer.hpp b/include/tnco/optimize/finite_width/greedy/optimizer.hpp
index 2131bb3..02f8550 100644
--- a/include/tnco/optimize/finite_width/greedy/optimizer.hpp
+++ b/include/tnco/optimize/finite_width/greedy/optimizer.hpp
@@ -251,17 +251,9 @@ struct Optimizer : optimize::optimizer::Optimizer {
             // Add it to new_slices
             new_slices.set(pos[n_pos - 1]);
 
-            // Update sliced width
-            std::visit(
-                [&new_sliced_width_B, &pos, &n_pos](auto &&log2_dims) -> auto {
-                  if constexpr (std::is_arithmetic_v<
-                                    std::decay_t<decltype(log2_dims)>>) {
-                    new_sliced_width_B -= log2_dims;
-                  } else {
-                    new_sliced_width_B -= log2_dims[pos[n_pos - 1]];
-                  }
-                },
-                dims_cache.log2_dims);
+            // Update sliced width (how much it decreases depends on the cost
+            // model)
+            new_sliced_width_B = p_cmodel->width(new_inds_B - new_slices, dims);
 
             // Update number of available slices
             --n_pos;
-- 
2.43.0


From 7cab5d89ca28e32571d7a24bc14e71c91e256be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:46 +0000
Subject: [PATCH 05/42] fix: rounding errors while slicing refuse networks that
 fit max_width

---
 include/tnco/optimize/finite_width/greedy/utils.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/tnco/optimize/finite_width/greedy/utils.hpp b/include/tnco/optimize/finite_width/greedy/utils.hpp
index f179d7d..8548ee3 100644
--- a/include/tnco/optimize/finite_width/greedy/utils.hpp
+++ b/include/tnco/optimize/finite_width/greedy/utils.hpp
@@ -91,12 +91,13 @@ template <typename Bitset, typename CTree, typename GetWidth,
           // Update slices
           slices.set(xpos);
 
-          // Get the new width
-          sliced_width += get_delta_width(sliced_xs, ctree.dims, xpos);
-
           // Update indices
           sliced_xs.reset(xpos);
 
+          // Get the new width (from scratch, as adding differences would
+          // accumulate rounding errors)
+          sliced_width = get_width(sliced_xs, ctree.dims);
+
           // Break if slices are enough
           if (sliced_width <= max_width) {
             break;
-- 
2.43.0


From 624e12dfe2bf8f2b72bab3324cb26af30535a5d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:20 +0000
Subject: [PATCH 06/42] fix: total cost of an optimizer update is wrong once
 most of it is gone (cancellation)

---
 .../optimize/finite_width/greedy/optimizer.hpp    | 15 +++++++++++++++
 .../tnco/optimize/infinite_memory/optimizer.hpp   | 14 ++++++++++++++
 2 files changed, 29 insertions(+)

diff --git a/include/tnco/optimize/finite_width/greedy/optimizer.hpp b/include/tnco/optimize/finite_width/greedy/optimizer.hpp
index 02f8550..573230f 100644
--- a/include/tnco/optimize/finite_width/greedy/optimizer.hpp
+++ b/include/tnco/optimize/finite_width/greedy/optimizer.hpp
@@ -138,6 +138,9 @@ struct Optimizer : optimize::optimizer::Optimizer {
     // Initialize total cost
     auto total_cost = get_total_cost();
 
+    // Largest total cost since it was last computed from scratch
+    auto max_total_cost = total_cost;
+
     // Total cost should be a positive number
     ASSERT(total_cost >= 0, "'total_cost' should always be a positive number.");
 
@@ -215,6 +218,17 @@ struct Optimizer : optimize::optimizer::Optimizer {
           ccost_A = new_ccost_A;
           total_cost += delta_cost;
 
+          // Once most of the cost is gone, what is left is mostly rounding errors:
+          // get it from scratch
+          if (total_cost > max_total_cost) {
+            max_total_cost = total_cost;
+          } else if (total_cost * 1000 < max_total_cost) {
+            const auto &ccost = cost_cache.contraction_cost;
+            total_cost = std::accumulate(std::begin(ccost), std::end(ccost),
+                                         cost_type{0});
+            max_total_cost = total_cost;
+          }
+
           // Update width
           width_B = new_width_B;
 
@@ -297,6 +311,7 @@ struct Optimizer : optimize::optimizer::Optimizer {
 
             // Update total cost
             total_cost = get_total_cost();
+            max_total_cost = total_cost;
 
             // Update slices
             slices = std::move(new_slices);
diff --git a/include/tnco/optimize/infinite_memory/optimizer.hpp b/include/tnco/optimize/infinite_memory/optimizer.hpp
index 1817d20..937e517 100644
--- a/include/tnco/optimize/infinite_memory/optimizer.hpp
+++ b/include/tnco/optimize/infinite_memory/optimizer.hpp
@@ -111,6 +111,9 @@ struct Optimizer : optimize::optimizer::Optimizer {
     // Initialize total cost
     auto total_cost = get_total_cost();
 
+    // Largest total cost since it was last computed from scratch
+    auto max_total_cost = total_cost;
+
     // Total cost should be a positive number
     ASSERT(total_cost >= 0, "'total_cost' should always be a positive number.");
 
@@ -176,6 +179,17 @@ struct Optimizer : optimize::optimizer::Optimizer {
         ccost_A = new_ccost_A;
         total_cost += delta_cost;
 
+        // Once most of the cost is gone, what is left is mostly rounding errors:
+        // get it from scratch
+        if (total_cost > max_total_cost) {
+          max_total_cost = total_cost;
+        } else if (total_cost * 1000 < max_total_cost) {
+          const auto &ccost = cost_cache.contraction_cost;
+          total_cost = std::accumulate(std::begin(ccost), std::end(ccost),
+                                       cost_type{0});
+          max_total_cost = total_cost;
+        }
+
         // Total cost should be a positive number
         ASSERT(total_cost >= 0,
                "'total_cost' should always be a positive number.");
-- 
2.43.0


From 378dc811a2e7d869681ed795d627c96344ddb767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:14 +0000
Subject: [PATCH 07/42] fix: pickling a finite-width Optimizer drops
 max_number_new_slices

---
 tnco/optimize/finite_width/optimizer.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/tnco/optimize/finite_width/optimizer.py b/tnco/optimize/finite_width/optimizer.py
index 2f43094..f0429ef 100644
--- a/tnco/optimize/finite_width/optimizer.py
+++ b/tnco/optimize/finite_width/optimizer.py
@@ -88,6 +88,9 @@ class Optimizer:
         # Save model
         self._cmodel = cmodel
 
+        # Save max_number_new_slices
+        self._max_number_new_slices = max_number_new_slices
+
         # Save cache
         self._ctree_cache = (ctree.dims, ctree._n_tensors, ctree._tensors_pos,
                              ctree._inds_order)
@@ -332,9 +335,10 @@ class Optimizer:
     @staticmethod
     def __build__(*args):
         (ctree, cmodel, prng_state, disable_shared_inds, min_ctree, slices,
-         min_slices, skip_slices) = args
+         min_slices, skip_slices, max_number_new_slices) = args
         return Optimizer(ctree,
                          cmodel,
+                         max_number_new_slices=max_number_new_slices,
                          seed=prng_state,
                          disable_shared_inds=disable_shared_inds,
                          skip_slices=skip_slices,
@@ -345,7 +349,8 @@ class Optimizer:
     def __reduce__(self):
         return self.__build__, (self.ctree, self.cmodel, self.prng_state,
                                 self.disable_shared_inds, self.min_ctree,
-                                self.slices, self.min_slices, self.skip_slices)
+                                self.slices, self.min_slices, self.skip_slices,
+                                self._max_number_new_slices)
 
     def __repr__(self) -> str:
         return "Optimizer(ctree={}, cmodel={})".format(self.ctree, self.cmodel)
-- 
2.43.0


From d1b5fa034210d41fe6851d93bb3a4223a8e2dbcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:00 +0000
Subject: [PATCH 08/42] fix: unsupported types of a cost model raise
 AttributeError instead of NotImplementedError

---
 tnco/optimize/finite_width/cost_model.py    | 4 ++--
 tnco/optimize/infinite_memory/cost_model.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/tnco/optimize/finite_width/cost_model.py b/tnco/optimize/finite_width/cost_model.py
index ea7c6de..c340e2f 100644
--- a/tnco/optimize/finite_width/cost_model.py
+++ b/tnco/optimize/finite_width/cost_model.py
@@ -89,11 +89,11 @@ class SimpleCostModel(BaseCostModel):
         width_type = str(width_type).lower()
         if width_type not in ['float32', 'float64', 'float128']:
             raise NotImplementedError(
-                f"'width_type={self.width_type}' not available.")
+                f"'{width_type=}' not available.")
         cost_type = str(cost_type).lower()
         if cost_type not in ['float32', 'float64', 'float128', 'float1024']:
             raise NotImplementedError(
-                f"'cost_type={self.cost_type}' not available.")
+                f"'{cost_type=}' not available.")
 
         # Check sparse_inds and n_projs
         if n_projs is not None and (n_projs != int(n_projs) or n_projs < 1):
diff --git a/tnco/optimize/infinite_memory/cost_model.py b/tnco/optimize/infinite_memory/cost_model.py
index d9424d0..7ef3f36 100644
--- a/tnco/optimize/infinite_memory/cost_model.py
+++ b/tnco/optimize/infinite_memory/cost_model.py
@@ -73,7 +73,7 @@ class SimpleCostModel(BaseCostModel):
         cost_type = str(cost_type).lower()
         if cost_type not in ['float32', 'float64', 'float128', 'float1024']:
             raise NotImplementedError(
-                f"'cost_type={self.cost_type}' not available.")
+                f"'{cost_type=}' not available.")
 
         # Check sparse_inds and n_projs
         if n_projs is not None and (n_projs != int(n_projs) or n_projs < 1):
-- 
2.43.0


From 23f2b7e1737f482c0f4c964670782d124369cee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:00 +0000
Subject: [PATCH 09/42] fix: delta_width refuses an index to add

---
 tnco/optimize/finite_width/cost_model.py | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/tnco/optimize/finite_width/cost_model.py b/tnco/optimize/finite_width/cost_model.py
index c340e2f..63cd539 100644
--- a/tnco/optimize/finite_width/cost_model.py
+++ b/tnco/optimize/finite_width/cost_model.py
@@ -238,15 +238,8 @@ class SimpleCostModel(BaseCostModel):
         # Convert to tuple
         inds = tuple(inds)
 
-        # Check index
-        if index not in inds:
-            raise ValueError("'index' not in 'inds'.")
-
-        # Get position of the index
-        index_pos = inds.index(index)
-
-        # Get all inds
-        all_inds = inds
+        # Get all inds (index may be either in inds or not)
+        all_inds = inds if index in inds else inds + (index,)
         if self.sparse_inds is not None:
             all_inds = tuple(
                 mit.unique_everseen(all_inds + tuple(self.sparse_inds)))
@@ -270,7 +263,7 @@ class SimpleCostModel(BaseCostModel):
         inds = Bitset(map(all_inds.index, inds), len(all_inds))
 
         # Get result
-        return core.delta_width(inds, dims, index_pos)
+        return core.delta_width(inds, dims, all_inds.index(index))
 
     def contraction_cost(self, inds_A: Iterable[Index], inds_B: Iterable[Index],
                          inds_C: Iterable[Index], dims: Union[Dict[Index, int],
-- 
2.43.0


From 0763c0bf7bc527e3d784e4332de4f94a4d5fd1c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:06 +0000
Subject: [PATCH 10/42] fix: sparse indices of other connected components are
 refused by the app

---
 tnco/app/finite_width/sa.py    | 21 ++++++++++++++-------
 tnco/app/infinite_memory/sa.py | 17 ++++++++++++-----
 2 files changed, 26 insertions(+), 12 deletions(-)

diff --git a/tnco/app/finite_width/sa.py b/tnco/app/finite_width/sa.py
index ff018da..18b13f2 100644
--- a/tnco/app/finite_width/sa.py
+++ b/tnco/app/finite_width/sa.py
@@ -170,11 +170,15 @@ class Optimizer(BaseOptimizer):
                                       (betas[1] - betas[0]) / n_steps)
 
         # Get contraction cost
-        cmodel = SimpleCostModel(max_width=self.max_width,
-                                 cost_type=self.cost_type,
-                                 width_type=self.width_type,
-                                 sparse_inds=tn.sparse_inds,
-                                 n_projs=n_projs)
+        def get_cmodel(inds):
+            return SimpleCostModel(max_width=self.max_width,
+                                   cost_type=self.cost_type,
+                                   width_type=self.width_type,
+                                   sparse_inds=tn.sparse_inds & inds,
+                                   n_projs=n_projs)
+
+        # Check parameters
+        get_cmodel(tn.inds)
 
         # Get probability
         prob = MetropolisHastings(cost_type=self.cost_type)
@@ -207,8 +211,11 @@ class Optimizer(BaseOptimizer):
                                         output_inds=tn.output_inds,
                                         check_shared_inds=True)
 
-                # Get optimizer
-                opt = OptimizerImpl(ctree, cmodel, seed=seed)
+                # Get optimizer (only the sparse indices of the connected
+                # component belong to its contraction tree)
+                opt = OptimizerImpl(ctree,
+                                    get_cmodel(ctree.all_inds()),
+                                    seed=seed)
 
                 # Start clock
                 runtime = perf_counter()
diff --git a/tnco/app/infinite_memory/sa.py b/tnco/app/infinite_memory/sa.py
index 7c18f0e..3fab858 100644
--- a/tnco/app/infinite_memory/sa.py
+++ b/tnco/app/infinite_memory/sa.py
@@ -152,9 +152,13 @@ class Optimizer(BaseOptimizer):
                                       (betas[1] - betas[0]) / n_steps)
 
         # Get contraction cost
-        cmodel = SimpleCostModel(cost_type=self.cost_type,
-                                 sparse_inds=tn.sparse_inds,
-                                 n_projs=n_projs)
+        def get_cmodel(inds):
+            return SimpleCostModel(cost_type=self.cost_type,
+                                   sparse_inds=tn.sparse_inds & inds,
+                                   n_projs=n_projs)
+
+        # Check parameters
+        get_cmodel(tn.inds)
 
         # Get probability
         prob = MetropolisHastings(cost_type=self.cost_type)
@@ -184,8 +188,11 @@ class Optimizer(BaseOptimizer):
                                         output_inds=tn.output_inds,
                                         check_shared_inds=True)
 
-                # Get optimizer
-                opt = OptimizerImpl(ctree, cmodel, seed=seed)
+                # Get optimizer (only the sparse indices of the connected
+                # component belong to its contraction tree)
+                opt = OptimizerImpl(ctree,
+                                    get_cmodel(ctree.all_inds()),
+                                    seed=seed)
 
                 # Start clock
                 runtime = perf_counter()
-- 
2.43.0


From 7713013983f2f9110c325eb898be1ebb044d26b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:06 +0000
Subject: [PATCH 11/42] fix: iterators of temperatures fail in the app

---
 tnco/app/finite_width/sa.py    | 3 +++
 tnco/app/infinite_memory/sa.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/tnco/app/finite_width/sa.py b/tnco/app/finite_width/sa.py
index 18b13f2..e1ec9dd 100644
--- a/tnco/app/finite_width/sa.py
+++ b/tnco/app/finite_width/sa.py
@@ -168,6 +168,9 @@ class Optimizer(BaseOptimizer):
                     "with 'beta_ini != beta_end'.")
             betas = mit.numeric_range(betas[0], betas[1],
                                       (betas[1] - betas[0]) / n_steps)
+        else:
+            # The same temperatures are used by all runs
+            betas = tuple(betas)
 
         # Get contraction cost
         def get_cmodel(inds):
diff --git a/tnco/app/infinite_memory/sa.py b/tnco/app/infinite_memory/sa.py
index 3fab858..6050ee2 100644
--- a/tnco/app/infinite_memory/sa.py
+++ b/tnco/app/infinite_memory/sa.py
@@ -150,6 +150,9 @@ class Optimizer(BaseOptimizer):
                     "with 'beta_ini != beta_end'.")
             betas = mit.numeric_range(betas[0], betas[1],
                                       (betas[1] - betas[0]) / n_steps)
+        else:
+            # The same temperatures are used by all runs
+            betas = tuple(betas)
 
         # Get contraction cost
         def get_cmodel(inds):
-- 
2.43.0


From 47f23e7d65839b1d8f380e6ab5c9d10a8236b04b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:20 +0000
Subject: [PATCH 12/42] fix: finite-width app fails on a network without
 tensors

---
 tnco/app/finite_width/sa.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tnco/app/finite_width/sa.py b/tnco/app/finite_width/sa.py
index e1ec9dd..6dff4cf 100644
--- a/tnco/app/finite_width/sa.py
+++ b/tnco/app/finite_width/sa.py
@@ -265,7 +265,8 @@ class Optimizer(BaseOptimizer):
 
             # Get full slices
             results['slices'] = fts.reduce(op.or_,
-                                           results['disconnected_slices'])
+                                           results['disconnected_slices'],
+                                           frozenset())
 
             # Return results
             return ContractionResults(**results)
-- 
2.43.0


From b9c4392dfa5298ce791a46e00c3ae7cb6bf4911c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:06 +0000
Subject: [PATCH 13/42] fix: a failing run leaves timer, progress bar and
 shared memory of Parallel behind

---
 tnco/parallel.py | 80 ++++++++++++++++++++++++++----------------------
 1 file changed, 43 insertions(+), 37 deletions(-)

diff --git a/tnco/parallel.py b/tnco/parallel.py
index f6e211d..af017bd 100644
--- a/tnco/parallel.py
+++ b/tnco/parallel.py
@@ -317,43 +317,49 @@ def Parallel(core: Callable[..., Any],
             # Return results
             return results
 
-        # Get results (parallel)
-        if use_joblib:
-            with parallel_config(backend='loky',
-                                 n_jobs=n_jobs,
-                                 verbose=(10 if verbose == 1 else False)):
-                results = Parallel()(map(
-                    lambda idx, xs: delayed(core_)(*xs[:-1],
-                                                   idx=idx,
-                                                   status=status,
-                                                   stop=stop,
-                                                   **xs[-1],
-                                                   **buffers), range(n_runs),
-                    args))
-
-        # Get results (sequential)
-        else:
-            results = list(
-                map(
-                    lambda idx, xs: core_(*xs[:-1],
-                                          idx=idx,
-                                          status=status,
-                                          stop=stop,
-                                          **xs[-1],
-                                          **buffers), range(n_runs), args))
-
-        # Close progressbar
-        if verbose >= 2:
-            updater.join()
-
-    # Close buffers
-    status.shm.unlink()
-    completed.shm.unlink()
-    stop.shm.unlink()
-    mit.consume(map(lambda buffer: buffer.shm.unlink(), buffers.values()))
-
-    # Stop timer
-    timer.cancel()
+        try:
+            # Get results (parallel)
+            if use_joblib:
+                with parallel_config(backend='loky',
+                                     n_jobs=n_jobs,
+                                     verbose=(10 if verbose == 1 else False)):
+                    results = Parallel()(map(
+                        lambda idx, xs: delayed(core_)(*xs[:-1],
+                                                       idx=idx,
+                                                       status=status,
+                                                       stop=stop,
+                                                       **xs[-1],
+                                                       **buffers),
+                        range(n_runs), args))
+
+            # Get results (sequential)
+            else:
+                results = list(
+                    map(
+                        lambda idx, xs: core_(*xs[:-1],
+                                              idx=idx,
+                                              status=status,
+                                              stop=stop,
+                                              **xs[-1],
+                                              **buffers), range(n_runs), args))
+
+        # Always release the resources, even if a run fails
+        finally:
+            # Stop timer
+            timer.cancel()
+
+            # Close progressbar
+            if verbose >= 2:
+                for idx in range(n_runs):
+                    completed[idx] = True
+                updater.join()
+
+            # Close buffers
+            status.shm.unlink()
+            completed.shm.unlink()
+            stop.shm.unlink()
+            mit.consume(map(lambda buffer: buffer.shm.unlink(),
+                            buffers.values()))
 
     # Return results
     return results
-- 
2.43.0


From 5af1a21de2d35f93481b8be9001ebfaf8983e5bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:06 +0000
Subject: [PATCH 14/42] fix: Parallel fails without tasks

---
 tnco/parallel.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tnco/parallel.py b/tnco/parallel.py
index af017bd..0e2d576 100644
--- a/tnco/parallel.py
+++ b/tnco/parallel.py
@@ -216,6 +216,10 @@ def Parallel(core: Callable[..., Any],
     # Get number of total runs
     n_runs = len(args)
 
+    # Nothing to run
+    if not n_runs:
+        return []
+
     # Initialize status
     status = Buffer([0] * n_runs, 'f')
 
-- 
2.43.0


From 943e0aa4be73b19168ca0e5d9cefa78e2f770cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:28 +0000
Subject: [PATCH 15/42] fix: decompose_hyper_inds uses 'atol' for the first
 pair of indices only

---
 tnco/utils/tensor.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tnco/utils/tensor.py b/tnco/utils/tensor.py
index bee9edc..00e7f9c 100644
--- a/tnco/utils/tensor.py
+++ b/tnco/utils/tensor.py
@@ -139,7 +139,10 @@ def decompose_hyper_inds(
                 ()), _hyper_inds
 
     # Call again
-    return decompose_hyper_inds(array, inds, _hyper_inds=_hyper_inds)
+    return decompose_hyper_inds(array,
+                                inds,
+                                atol=atol,
+                                _hyper_inds=_hyper_inds)
 
 
 def get_einsum_subscripts(inds_a: Iterable[Index], inds_b: Iterable[Index],
-- 
2.43.0


From 571ac357066bbcee7a8f5b84cee18b6b62c4b9a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:28 +0000
Subject: [PATCH 16/42] fix: decomposing hyper-indices leaves repeated indices
 in a tensor

---
 tnco/utils/tn.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/tnco/utils/tn.py b/tnco/utils/tn.py
index 77ca73e..7561420 100644
--- a/tnco/utils/tn.py
+++ b/tnco/utils/tn.py
@@ -852,6 +852,19 @@ def decompose_hyper_inds(
     new_ts_inds = list(
         map(lambda xs: tuple(map(hyper_inds_map.get, xs)), new_ts_inds))
 
+    # Different indices of the same tensor may now be the same index: keep only
+    # the corresponding diagonal
+    for i, xs in enumerate(new_ts_inds):
+        while (pair := next(
+            ((p, q) for p, q in its.combinations(range(len(xs)), 2)
+             if xs[p] == xs[q]), None)) is not None:
+            pos = pair + tuple(p for p in range(len(xs)) if p not in pair)
+            array = new_arrays[i].transpose(pos)
+            new_arrays[i] = ar.do('stack',
+                                  [array[k, k] for k in range(array.shape[0])])
+            xs = tuple(map(xs.__getitem__, pos[1:]))
+        new_ts_inds[i] = xs
+
     # Return the decomposed tensors
     return new_arrays, new_ts_inds, hyper_inds_map
 
-- 
2.43.0


From 30c02cf956d66f1a285bba37ab2319132d904ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:28 +0000
Subject: [PATCH 17/42] fix: decomposing hyper-indices loses the indices of
 constant tensors

---
 tnco/utils/tn.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/tnco/utils/tn.py b/tnco/utils/tn.py
index 7561420..2b257ae 100644
--- a/tnco/utils/tn.py
+++ b/tnco/utils/tn.py
@@ -799,7 +799,8 @@ def decompose_hyper_inds(
             - **hyper_inds_map**: Mapping from original to new indices.
     """
     # Get all available inds
-    ts_inds = list(ts_inds)
+    arrays = list(arrays)
+    ts_inds = list(map(tuple, ts_inds))
     all_inds = OrderedFrozenSet(mit.flatten(ts_inds))
 
     # New tn
@@ -865,6 +866,17 @@ def decompose_hyper_inds(
             xs = tuple(map(xs.__getitem__, pos[1:]))
         new_ts_inds[i] = xs
 
+    # Constant tensors are reduced to a number: put back those indices which
+    # would otherwise disappear from the tensor network
+    missing = frozenset(hyper_inds_map.values()).difference(
+        mit.flatten(new_ts_inds))
+    for i, (array, inds) in enumerate(zip(arrays, ts_inds)):
+        dims = dict(zip(map(hyper_inds_map.get, inds), ar.do('shape', array)))
+        for x in filter(missing.__contains__, dims):
+            new_arrays[i] = ar.do('stack', [new_arrays[i]] * dims[x])
+            new_ts_inds[i] = (x,) + new_ts_inds[i]
+        missing -= dims.keys()
+
     # Return the decomposed tensors
     return new_arrays, new_ts_inds, hyper_inds_map
 
-- 
2.43.0


From a75b83cbcc1786af6949729fb2ff3a4ada06e7b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:33 +0000
Subject: [PATCH 18/42] fix: the order of contracted hyper-indices depends on
 the hash seed

---
 tnco/utils/tn.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tnco/utils/tn.py b/tnco/utils/tn.py
index 2b257ae..4a6e59a 100644
--- a/tnco/utils/tn.py
+++ b/tnco/utils/tn.py
@@ -1024,6 +1024,9 @@ def contract(
                 filter(lambda x: x[0] in shared_inds and x[1] > 1,
                        hyper_count.items()))) | (output_inds & shared_inds)
 
+        # The order of the new indices must not depend on the order of a set
+        hyper_inds = tuple(filter(hyper_inds.__contains__, xs))
+
         # Update hyper-count
         for x in shared_inds:
             hyper_count[x] -= 1
-- 
2.43.0


From 5ed3c60f4e6979742418eaddc8e57412af241ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:03 +0000
Subject: [PATCH 19/42] fix: nearly constant tensors are replaced by a
 constant, whatever 'atol'

---
 tnco/utils/tensor.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tnco/utils/tensor.py b/tnco/utils/tensor.py
index 00e7f9c..7b48f20 100644
--- a/tnco/utils/tensor.py
+++ b/tnco/utils/tensor.py
@@ -134,7 +134,8 @@ def decompose_hyper_inds(
                   list(map(lambda x: array[x, x], range(array.shape[0]))))
 
     # In permutations, all elements in 'array' are the same
-    if array.size and ar.do('allclose', array, array.ravel()[0], atol=atol):
+    if array.size and ar.do(
+            'allclose', array, array.ravel()[0], rtol=0, atol=atol):
         return (array.ravel()[0] * ar.do('ones_like', array, shape=()),
                 ()), _hyper_inds
 
-- 
2.43.0


From e22e8e64804e6da277c9f05f448193eb1023becf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:36 +0000
Subject: [PATCH 20/42] fix: svd hangs if the generated name of the new index
 is taken

---
 tnco/utils/tensor.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tnco/utils/tensor.py b/tnco/utils/tensor.py
index 7b48f20..631167f 100644
--- a/tnco/utils/tensor.py
+++ b/tnco/utils/tensor.py
@@ -319,8 +319,9 @@ def svd(array: Array,
 
     # If svd_index_name is not provided, generate a random one
     if svd_index_name is None:
-        while (svd_index_name :=
-               ''.join(Random(seed).choices(ascii_letters, k=10))) in inds:
+        rng = Random(seed)
+        while (svd_index_name := ''.join(rng.choices(ascii_letters,
+                                                     k=10))) in inds:
             pass
 
     # If left_inds is empty or equal to inds, just return
-- 
2.43.0


From ce9b65ab06862e464139538fd0c2dbb5add31780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:36 +0000
Subject: [PATCH 21/42] fix: get_symbol returns surrogates for some integers

---
 tnco/utils/tn.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/tnco/utils/tn.py b/tnco/utils/tn.py
index 4a6e59a..c96e363 100644
--- a/tnco/utils/tn.py
+++ b/tnco/utils/tn.py
@@ -263,16 +263,14 @@ def get_symbol(i: int) -> str:
     if i < 52:
         return "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"[i]
 
+    # Start at 192 (0xC0)
+    # 52 + 140 = 192
+    i += 140
+
     # Skip Unicode surrogates (0xD800-0xDFFF) 55296 is the start of the
     # surrogate range (0xD800). Add 2048 to skip past the entire surrogate
     # block (2048 chars)
-    elif i >= 55296:
-        return chr(i + 2048)
-
-    # Start at 192 (0xC0)
-    # 52 + 140 = 192
-    else:
-        return chr(i + 140)
+    return chr(i + 2048 if i >= 55296 else i)
 
 
 def get_einsum_subscripts(ts_inds: Iterable[List[Index]],
-- 
2.43.0


From 508782abe9db6800d0a911075a410c872ef3bef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:54 +0000
Subject: [PATCH 22/42] fix: measurements and barriers of qiskit circuits are
 not ignored

---
 tnco/utils/circuit.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/tnco/utils/circuit.py b/tnco/utils/circuit.py
index fc4dee4..35f92fd 100644
--- a/tnco/utils/circuit.py
+++ b/tnco/utils/circuit.py
@@ -586,10 +586,18 @@ try:
         Returns:
             A list of (array, qubits).
         """
+
+        # Define gates to ignore
+        def ignore_gate(op):
+            # Ignore measurement gates and barriers
+            return op.name in ('measure', 'barrier')
+
+        # Create circuit
         return list(
             map(
                 lambda g: (ar.do('asarray', g.matrix, dtype=dtype, like=backend
-                                ), g.qubits), circuit))
+                                ), g.qubits),
+                filter(lambda op: not ignore_gate(op), circuit)))
 
     @load.register
     def _(circuit: qiskit.QuantumCircuit, *args, **kwargs):
-- 
2.43.0


From 6f8f2dff68d2942846cb280181a7f2a3cfb41aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:28 +0000
Subject: [PATCH 23/42] fix: JSON texts longer than a file name are refused by
 load_tn

---
 tnco/app/app.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/tnco/app/app.py b/tnco/app/app.py
index 79f964c..8f23b9b 100644
--- a/tnco/app/app.py
+++ b/tnco/app/app.py
@@ -449,10 +449,11 @@ def load_tn(obj: Any,
         # Is it a file?
         try:
             validate_filepath(obj, platform='auto')
-            if Path(obj).exists():
-                return load_tn(load_file(obj), **options)
-        except ValidationError:
-            pass
+            is_file = Path(obj).exists()
+        except (ValidationError, OSError):
+            is_file = False
+        if is_file:
+            return load_tn(load_file(obj), **options)
 
         # Is it JSON?
         try:
-- 
2.43.0


From be4dad7ac66ac536bd9dfd3ac93210f7701cc271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:50 +0000
Subject: [PATCH 24/42] fix: classical operations with phases are refused by
 the sampler because of rounding errors

---
 tnco/app/circuit/sampling.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/tnco/app/circuit/sampling.py b/tnco/app/circuit/sampling.py
index 7b2d19f..5d55756 100644
--- a/tnco/app/circuit/sampling.py
+++ b/tnco/app/circuit/sampling.py
@@ -52,14 +52,15 @@ def is_classical_operation(m: Matrix) -> bool:
         return False
 
     # Get elements different from zero
-    row_pos, col_pos = ar.do('where', m)
+    pos = abs(m) > 1e-6
+    row_pos, col_pos = ar.do('where', pos)
 
     # It should be a permutation of indices
     if not (sorted(row_pos) == sorted(col_pos) == list(range(m.shape[0]))):
         return False
 
     # All elements should be one, excluding a phase
-    if not all(abs(m)[m != 0] == 1):
+    if not all(abs(abs(m)[pos] - 1) < 1e-6):
         return False
 
     # Excluding a phase change, it's a permutation
@@ -184,14 +185,15 @@ def sample(
 
         # Load partial tensors
         partial_tn = list(
-            ((m != 0).astype(int), None, None, q) if is_classical_operation(
-                m) else load(circuit[:i + 1],
-                             initial_state='0',
-                             final_state=None,
-                             simplify=simplify,
-                             use_matrix_commutation=use_matrix_commutation,
-                             decompose_hyper_inds=decompose_hyper_inds,
-                             fuse=fuse) + (q,)
+            ((abs(m) > 1e-6).astype(int), None, None,
+             q) if is_classical_operation(m) else
+            load(circuit[:i + 1],
+                 initial_state='0',
+                 final_state=None,
+                 simplify=simplify,
+                 use_matrix_commutation=use_matrix_commutation,
+                 decompose_hyper_inds=decompose_hyper_inds,
+                 fuse=fuse) + (q,)
             for i, (m, q) in track(enumerate(circuit),
                                    total=len(circuit),
                                    description="Loading TNs...",
-- 
2.43.0


From 8234915b8431a38885e98850a20ecf3605c4e47a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:50 +0000
Subject: [PATCH 25/42] fix: sampling from a qiskit circuit loads it instead

---
 tnco/app/circuit/sampling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tnco/app/circuit/sampling.py b/tnco/app/circuit/sampling.py
index 5d55756..444dd81 100644
--- a/tnco/app/circuit/sampling.py
+++ b/tnco/app/circuit/sampling.py
@@ -404,7 +404,7 @@ try:
 
     @sample.register
     def _(circuit: qiskit.QuantumCircuit, *args, **kwargs):
-        return load(
+        return sample(
             qiskit_to_arrays(circuit,
                              dtype=kwargs.get('dtype', None),
                              backend=kwargs.get('backend', None)), *args,
-- 
2.43.0


From 2505e6551344ad2be9970755c62f74d3acfc6fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:33 +0000
Subject: [PATCH 26/42] fix: compression without a file is not refused

---
 tnco/app/app.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tnco/app/app.py b/tnco/app/app.py
index 8f23b9b..bd7ceec 100644
--- a/tnco/app/app.py
+++ b/tnco/app/app.py
@@ -650,7 +650,7 @@ def dump_results(tn: TensorNetwork,
     output_compression = str(output_compression).lower()
     if output_compression not in ['auto', 'none', 'bz2', 'gzip']:
         raise ValueError(f'"{output_compression=}" not supported.')
-    if output_compression not in ['auto', 'none'] and not output_compression:
+    if output_compression not in ['auto', 'none'] and not output_filename:
         raise ValueError(
             "Output can be compressed only if 'output_filename' is provided.")
 
-- 
2.43.0


From 7612291b3ef00187a2111f35fec39953bdfe35d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:33 +0000
Subject: [PATCH 27/42] fix: load_file fails on binary files

---
 tnco/app/app.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tnco/app/app.py b/tnco/app/app.py
index bd7ceec..879aea8 100644
--- a/tnco/app/app.py
+++ b/tnco/app/app.py
@@ -128,7 +128,7 @@ def load_file(filename: str) -> Any:
         # Is json?
         try:
             return json.loads(binary.decode())
-        except json.JSONDecodeError:
+        except (json.JSONDecodeError, UnicodeDecodeError):
             pass
 
         # Is text?
-- 
2.43.0


From 857e14adffaa31311db0078011104eed2922685b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:52 +0000
Subject: [PATCH 28/42] fix: equal OrderedFrozenSets have different hashes

---
 tnco/ordered_frozenset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tnco/ordered_frozenset.py b/tnco/ordered_frozenset.py
index d82a00e..ff558cd 100644
--- a/tnco/ordered_frozenset.py
+++ b/tnco/ordered_frozenset.py
@@ -52,7 +52,7 @@ class OrderedFrozenSet:
         return iter(self._order)
 
     def __hash__(self) -> int:
-        return hash(self._order)
+        return hash(self._set)
 
     def __len__(self) -> int:
         return len(self._order)
-- 
2.43.0


From a1ed2714653151d91e055dba325e71c5388c9d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:48 +0000
Subject: [PATCH 29/42] fix: operations on Bitsets of different sizes abort the
 process

---
 include/tnco/bitset.hpp | 55 +++++++++++++++++++++++++++++------------
 1 file changed, 39 insertions(+), 16 deletions(-)

diff --git a/include/tnco/bitset.hpp b/include/tnco/bitset.hpp
index ef4eea3..bf0cd7e 100644
--- a/include/tnco/bitset.hpp
+++ b/include/tnco/bitset.hpp
@@ -119,15 +119,38 @@ struct Bitset : boost::dynamic_bitset<T...> {
 template <typename... T>
 void init(py::module &m, const std::string &name) {
   using self_type = Bitset<T...>;
+
+  // Most operations are only defined for operands of the same size
+  static constexpr auto same_size = [](auto &&op) -> auto {
+    return [op](const self_type &self, const self_type &other) -> auto {
+      if (std::size(self) != std::size(other)) {
+        throw std::invalid_argument("Bitsets must have the same size.");
+      }
+      return op(self, other);
+    };
+  };
+
   py::class_<self_type>(m, name.c_str())
       .def(py::init<>())
       .def(py::init<const std::vector<size_t> &, size_t>(), "positions"_a,
            "size"_a)
       .def(py::init<const std::string &>())
-      .def("__and__", &self_type::operator&)
-      .def("__or__", &self_type::operator|)
-      .def("__xor__", &self_type::operator^)
-      .def("__sub__", &self_type::operator-)
+      .def("__and__", same_size([](const self_type &self,
+                                const self_type &other) -> auto {
+             return self & other;
+           }))
+      .def("__or__", same_size([](const self_type &self,
+                                const self_type &other) -> auto {
+             return self | other;
+           }))
+      .def("__xor__", same_size([](const self_type &self,
+                                const self_type &other) -> auto {
+             return self ^ other;
+           }))
+      .def("__sub__", same_size([](const self_type &self,
+                                const self_type &other) -> auto {
+             return self - other;
+           }))
       .def("__eq__",
            [](const self_type &self, const self_type &other) -> auto {
              return self == other;
@@ -137,29 +160,29 @@ void init(py::module &m, const std::string &name) {
              return !self.intersects(other);
            })
       .def("issubset",
-           [](const self_type &self, const self_type &other) -> auto {
+           same_size([](const self_type &self, const self_type &other) -> auto {
              return self.is_subset_of(other);
-           })
+           }))
       .def("issuperset",
-           [](const self_type &self, const self_type &other) -> auto {
+           same_size([](const self_type &self, const self_type &other) -> auto {
              return other.is_subset_of(self);
-           })
+           }))
       .def("__le__",
-           [](const self_type &self, const self_type &other) -> auto {
+           same_size([](const self_type &self, const self_type &other) -> auto {
              return self.is_subset_of(other);
-           })
+           }))
       .def("__ge__",
-           [](const self_type &self, const self_type &other) -> auto {
+           same_size([](const self_type &self, const self_type &other) -> auto {
              return other.is_subset_of(self);
-           })
+           }))
       .def("__lt__",
-           [](const self_type &self, const self_type &other) -> auto {
+           same_size([](const self_type &self, const self_type &other) -> auto {
              return self.is_proper_subset_of(other);
-           })
+           }))
       .def("__gt__",
-           [](const self_type &self, const self_type &other) -> auto {
+           same_size([](const self_type &self, const self_type &other) -> auto {
              return other.is_proper_subset_of(self);
-           })
+           }))
       .def("__invert__", [](const self_type &self) -> auto { return ~self; })
       .def("__len__",
            [](const self_type &self) -> auto { return std::size(self); })
-- 
2.43.0


From e9ca2291f4acbdacf7e7374cdd861a78c98c0ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:48 +0000
Subject: [PATCH 30/42] fix: isinf and signbit of float1024 return isnan

---
 include/tnco/fixed_float.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/tnco/fixed_float.hpp b/include/tnco/fixed_float.hpp
index e88ada9..521b8fc 100644
--- a/include/tnco/fixed_float.hpp
+++ b/include/tnco/fixed_float.hpp
@@ -575,9 +575,10 @@ void init(py::module &m, const std::string &name) {
            [](const self_type &self, const long double &other) -> auto {
              return self >= other;
            })
-      .def("isinf", [](const self_type &self) -> auto { return isnan(self); })
+      .def("isinf", [](const self_type &self) -> auto { return isinf(self); })
       .def("isnan", [](const self_type &self) -> auto { return isnan(self); })
-      .def("signbit", [](const self_type &self) -> auto { return isnan(self); })
+      .def("signbit",
+           [](const self_type &self) -> auto { return signbit(self); })
       .def(py::pickle(
           [](const self_type &self) -> std::string { return dump(self); },
           [](const std::string &state) -> auto {
-- 
2.43.0


From 2c5bba214b05b35c074d22b65010d2873e86130c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:48 +0000
Subject: [PATCH 31/42] fix: NaN compares equal to every float1024

---
 include/tnco/fixed_float.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/tnco/fixed_float.hpp b/include/tnco/fixed_float.hpp
index 521b8fc..695fd02 100644
--- a/include/tnco/fixed_float.hpp
+++ b/include/tnco/fixed_float.hpp
@@ -134,27 +134,27 @@ struct FixedFloat {
   }
 
   auto operator==(const FixedFloat &x) const -> bool {
-    return mpfr_cmp(_x, x._x) == 0;
+    return mpfr_equal_p(_x, x._x);
   }
 
   auto operator!=(const FixedFloat &x) const -> bool {
-    return mpfr_cmp(_x, x._x) != 0;
+    return !mpfr_equal_p(_x, x._x);
   }
 
   auto operator>(const FixedFloat &x) const -> bool {
-    return mpfr_cmp(_x, x._x) > 0;
+    return mpfr_greater_p(_x, x._x);
   }
 
   auto operator>=(const FixedFloat &x) const -> bool {
-    return mpfr_cmp(_x, x._x) >= 0;
+    return mpfr_greaterequal_p(_x, x._x);
   }
 
   auto operator<(const FixedFloat &x) const -> bool {
-    return mpfr_cmp(_x, x._x) < 0;
+    return mpfr_less_p(_x, x._x);
   }
 
   auto operator<=(const FixedFloat &x) const -> bool {
-    return mpfr_cmp(_x, x._x) <= 0;
+    return mpfr_lessequal_p(_x, x._x);
   }
 
   template <typename T>
-- 
2.43.0


From 205a9657b403256c47472ff965c0a9adcb16a5c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:48 +0000
Subject: [PATCH 32/42] fix: exponents of float1024 are rounded to double

---
 include/tnco/fixed_float.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/tnco/fixed_float.hpp b/include/tnco/fixed_float.hpp
index 695fd02..ebcf2fa 100644
--- a/include/tnco/fixed_float.hpp
+++ b/include/tnco/fixed_float.hpp
@@ -523,6 +523,10 @@ void init(py::module &m, const std::string &name) {
       .def("__pos__", [](const self_type &self) -> auto { return +self; })
       .def("__neg__", [](const self_type &self) -> auto { return -self; })
       .def("__abs__", [](const self_type &self) -> auto { return abs(self); })
+      .def("__pow__",
+           [](const self_type &self, const self_type &p) -> auto {
+             return pow(self, p);
+           })
       .def("__pow__",
            [](const self_type &self, const long double &p) -> auto {
              return pow(self, p);
-- 
2.43.0


From 16b56393555c23b844ae7bdf4ee285445bad5f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:48 +0000
Subject: [PATCH 33/42] fix: float1024 is rounded twice when converted to float

---
 include/tnco/fixed_float.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/tnco/fixed_float.hpp b/include/tnco/fixed_float.hpp
index ebcf2fa..0a7e281 100644
--- a/include/tnco/fixed_float.hpp
+++ b/include/tnco/fixed_float.hpp
@@ -427,7 +427,7 @@ void init(py::module &m, const std::string &name) {
              return to_string(self, fmt);
            })
       .def("__float__",
-           [](const self_type &self) -> auto { return (long double)(self); })
+           [](const self_type &self) -> auto { return (double)(self); })
       .def("__repr__",
            [](const self_type &self) -> auto { return to_string(self); })
       .def("__str__",
-- 
2.43.0


From 481ef55e9990434e7e1abe622f1395b7b208efab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:08 +0000
Subject: [PATCH 34/42] fix: zero padding and sign-aware alignment of float1024
 are ignored

---
 include/tnco/fixed_float.hpp | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/include/tnco/fixed_float.hpp b/include/tnco/fixed_float.hpp
index 0a7e281..028aaf0 100644
--- a/include/tnco/fixed_float.hpp
+++ b/include/tnco/fixed_float.hpp
@@ -281,11 +281,12 @@ struct FixedFloat {
     }
 
     // --- 1. Extract components from the regex match ---
-    char fill_char = match[2].matched ? match[2].str()[0] : ' ';
-    char align_char = match[3].matched ? match[3].str()[0] : '>';
+    bool zero_pad = match[6].matched;
+    // Zeros go between the sign and the digits, unless told otherwise
+    char fill_char = match[2].matched ? match[2].str()[0] : zero_pad ? '0' : ' ';
+    char align_char = match[3].matched ? match[3].str()[0] : zero_pad ? '=' : '>';
     std::string sign = match[4].str();
     bool alt_form = match[5].matched;
-    bool zero_pad = match[6].matched;
     int width = match[7].matched ? std::stoi(match[7].str()) : 0;
     bool thousands = match[8].matched;
     std::string prec = match[9].matched ? match[9].str() : "";
@@ -296,11 +297,6 @@ struct FixedFloat {
       prec = prec.empty() ? ".6" : prec;
     }
 
-    // If alignment is '=', it's like zero-padding for numbers.
-    if (align_char == '=') {
-      zero_pad = true;
-    }
-
     // --- 2. Build the core mpfr_asprintf format string (without
     // alignment/width) ---
     std::ostringstream mpfr_fmt;
@@ -311,11 +307,6 @@ struct FixedFloat {
     if (alt_form) {
       mpfr_fmt << "#";
     }
-    if (zero_pad && align_char != '<' && align_char != '^') {
-      // '0' is only a printf flag for right-alignment. We handle others
-      // manually.
-      mpfr_fmt << "0";
-    }
     if (thousands) {
       mpfr_fmt << "'";
     }
@@ -371,7 +362,14 @@ struct FixedFloat {
              std::string(right_pad, fill_char);
     }
 
-    // Right align ('>' or '=')
+    // Padding after the sign
+    if (align_char == '=') {
+      const auto has_sign =
+          formatted_num.find_first_of("+- ") == 0 ? size_t{1} : size_t{0};
+      return formatted_num.insert(has_sign, padding, fill_char);
+    }
+
+    // Right align
     return std::string(padding, fill_char) + formatted_num;
   }
 
-- 
2.43.0


From cdeb4716f6dfb098a072efca981f24e9d5acca88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:08 +0000
Subject: [PATCH 35/42] fix: thousands separators of float1024 are ignored

---
 include/tnco/fixed_float.hpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/include/tnco/fixed_float.hpp b/include/tnco/fixed_float.hpp
index 028aaf0..2cc70be 100644
--- a/include/tnco/fixed_float.hpp
+++ b/include/tnco/fixed_float.hpp
@@ -307,9 +307,6 @@ struct FixedFloat {
     if (alt_form) {
       mpfr_fmt << "#";
     }
-    if (thousands) {
-      mpfr_fmt << "'";
-    }
     if (!prec.empty()) {
       mpfr_fmt << prec;
     }
@@ -341,6 +338,18 @@ struct FixedFloat {
     }
     mpfr_free_str(formatted_num_c_str);
 
+    // Separate groups of three digits of the integer part
+    if (thousands) {
+      const auto first = formatted_num.find_first_of("0123456789");
+      if (first != std::string::npos) {
+        auto last = formatted_num.find_first_not_of("0123456789", first);
+        last = std::min(last, formatted_num.length());
+        for (; last > first + 3; last -= 3) {
+          formatted_num.insert(last - 3, ",");
+        }
+      }
+    }
+
     // --- 4. Manually apply padding and alignment ---
     if (static_cast<int>(formatted_num.length()) >= width) {
       return formatted_num;
-- 
2.43.0


From 061122d1ff1cbf700db9415315182b3dad2dd3a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:08 +0000
Subject: [PATCH 36/42] fix: float1024 accepts text that is not a number

---
 include/tnco/fixed_float.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/tnco/fixed_float.hpp b/include/tnco/fixed_float.hpp
index 2cc70be..65bf886 100644
--- a/include/tnco/fixed_float.hpp
+++ b/include/tnco/fixed_float.hpp
@@ -47,7 +47,9 @@ struct FixedFloat {
   FixedFloat(long double x) : FixedFloat() { mpfr_set_ld(_x, x, rounding); }
 
   FixedFloat(const std::string &x, const int base = 10) : FixedFloat() {
-    mpfr_set_str(_x, x.data(), base, rounding);
+    if (mpfr_set_str(_x, x.data(), base, rounding) != 0) {
+      throw std::invalid_argument("'" + x + "' is not a valid number.");
+    }
   }
 
   FixedFloat(const mpfr_t &x) : FixedFloat() { mpfr_set(_x, x, rounding); }
-- 
2.43.0


From 5790930bc1035d619b095acbe5ad5c855ca4d37b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:48 +0000
Subject: [PATCH 37/42] fix: nodes that are not a tree are accepted

---
 include/tnco/tree.hpp | 54 +++++++++++++++++++------------------------
 1 file changed, 24 insertions(+), 30 deletions(-)

diff --git a/include/tnco/tree.hpp b/include/tnco/tree.hpp
index c5bd046..7ac0da8 100644
--- a/include/tnco/tree.hpp
+++ b/include/tnco/tree.hpp
@@ -97,38 +97,32 @@ struct Tree {
               "Number of nodes is not constenst with the number of leaves."};
     }
 
-    {
-      std::vector<size_t> count_parents(size());
-      std::vector<size_t> count_children(size());
-      std::for_each(std::begin(nodes), std::end(nodes),
-                    [&count_parents, &count_children](auto &&node) -> auto {
-                      if (!node.is_leaf()) {
-                        count_children[node.children[0]] += 1;
-                        count_children[node.children[1]] += 1;
-                      }
-                      if (!node.is_root()) {
-                        count_parents[node.parent] += 1;
-                      }
-                    });
-
-      // No leaves should be the parent of any nodes. All the other nodes must
-      // have two children
-      if (!std::transform_reduce(std::begin(count_parents),
-                                 std::end(count_parents), std::begin(nodes),
-                                 true, std::logical_and<bool>{},
-                                 [](auto &&c, auto &&node) -> auto {
-                                   return c == node.is_leaf() ? 0 : 2;
-                                 })) {
-        return {false, "Tree is not valid."};
+    // Every node should be the parent of its own children
+    for (size_t i_ = 0; i_ < size(); ++i_) {
+      if (const auto &node_ = nodes[i_]; !node_.is_leaf()) {
+        for (const auto &x : node_.children) {
+          if (nodes[x].parent != static_cast<long int>(i_)) {
+            return {false, "Tree is not valid."};
+          }
+        }
       }
+    }
 
-      // All nodes, excluding root, should be the child of a single node
-      if (!std::transform_reduce(std::begin(count_children),
-                                 std::end(count_children), std::begin(nodes),
-                                 true, std::logical_and<bool>{},
-                                 [](auto &&c, auto &&node) -> auto {
-                                   return c == node.is_root() ? 0 : 1;
-                                 })) {
+    // All nodes should be reachable from root
+    {
+      size_t n_visited = 0;
+      std::vector<typename node_type::index_type> to_visit{
+          static_cast<typename node_type::index_type>(size() - 1)};
+      while (!std::empty(to_visit)) {
+        const auto &node_ = nodes[to_visit.back()];
+        to_visit.pop_back();
+        n_visited += 1;
+        if (!node_.is_leaf()) {
+          to_visit.insert(std::end(to_visit), std::begin(node_.children),
+                          std::end(node_.children));
+        }
+      }
+      if (n_visited != size()) {
         return {false, "Tree is not valid."};
       }
     }
-- 
2.43.0


From 1807062fbd4e58ea38edd5b9565b1c8769965fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:48 +0000
Subject: [PATCH 38/42] fix: swap_with_nn reads out of bounds for negative
 positions

---
 include/tnco/tree.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/tnco/tree.hpp b/include/tnco/tree.hpp
index 7ac0da8..be1063b 100644
--- a/include/tnco/tree.hpp
+++ b/include/tnco/tree.hpp
@@ -145,7 +145,7 @@ struct Tree {
      *
      *   Swap D <-> C.
      */
-    if (pos_D >= static_cast<long int>(size())) {
+    if (pos_D < 0 || pos_D >= static_cast<long int>(size())) {
       return;
     }
 
-- 
2.43.0


From 9b933fe6e2f59f3e4973401de0206577fe41cf5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:52 +0000
Subject: [PATCH 39/42] fix: pickling a ContractionTree of tnco_core aborts the
 process

---
 include/tnco/ctree.hpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/include/tnco/ctree.hpp b/include/tnco/ctree.hpp
index 81a9d8f..69adcb5 100644
--- a/include/tnco/ctree.hpp
+++ b/include/tnco/ctree.hpp
@@ -186,7 +186,17 @@ void init(py::module &m, const std::string &name) {
             return valid;
           },
           py::kw_only(), "check_shared_inds"_a = false,
-          "return_message"_a = false);
+          "return_message"_a = false)
+      .def(py::pickle(
+          [](const self_type &self) -> auto {
+            return std::tuple{self.nodes, self.inds, self.dims};
+          },
+          [](const std::tuple<decltype(self_type::nodes),
+                              decltype(self_type::inds),
+                              decltype(self_type::dims)> &state) -> auto {
+            return self_type{std::get<0>(state), std::get<1>(state),
+                             std::get<2>(state)};
+          }));
 }
 
 }  // namespace tnco::ctree
-- 
2.43.0


From 082bee419d8607eb4b0718d83c988d238a7846ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:01 +0000
Subject: [PATCH 40/42] fix: dimensions of a Tensor are not converted to
 integers

A Tensor whose dimensions are integers of another type (numpy, or floats
like 2.0) keeps them as they are, and 'to_json' fails or writes '2.0'.
---
 tnco/app/tn.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tnco/app/tn.py b/tnco/app/tn.py
index f011119..2d2c226 100644
--- a/tnco/app/tn.py
+++ b/tnco/app/tn.py
@@ -129,6 +129,7 @@ class Tensor:
         # Check dimensions
         if any(not is_int(d) or d < 1 for d in self.dims):
             raise ValueError("Every dimension must be a positive integers.")
+        object.__setattr__(self, 'dims', tuple(map(int, self.dims)))
         if len(self.dims) != len(self.inds):
             raise ValueError("Wrong number of 'inds'.")
 
-- 
2.43.0


From e044e21fff22cb9f4a5ba14ef9bdadad8836bd03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:01 +0000
Subject: [PATCH 41/42] fix: comparing Tensors of different dimensions fails

The arrays were subtracted before comparing indices and dimensions, which
raises an error if they cannot be broadcast. The subtraction also failed
for boolean arrays, and wrapped around for small integers.
---
 tnco/app/tn.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/tnco/app/tn.py b/tnco/app/tn.py
index 2d2c226..b68fc20 100644
--- a/tnco/app/tn.py
+++ b/tnco/app/tn.py
@@ -138,12 +138,14 @@ class Tensor:
             raise ValueError("'dims' are not consistent with 'array'.")
 
     def __eq__(self, other: Any, *, atol: float = 1e-5) -> bool:
-        if (self.array is None) ^ (other.array is None):
+        if not isinstance(other, Tensor):
+            return NotImplemented
+        if self.inds != other.inds or self.dims != other.dims:
             return False
-        if self.array is not None and not all(
-                abs(self.array - other.array).ravel() < atol):
+        if (self.array is None) ^ (other.array is None):
             return False
-        return self.inds == other.inds and self.dims == other.dims
+        return self.array is None or bool(
+            ar.do('allclose', self.array, other.array, rtol=0, atol=atol))
 
     def __repr__(self) -> str:
         return 'Tensor(ndim={}, array={}{}{})'.format(
-- 
2.43.0


From 59eeeaddd900b7e0d1cfc4de9f764b52e3320acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:57 +0000
Subject: [PATCH 42/42] fix: costs of the optimizers are rounded to six digits

---
 include/tnco/globals.hpp                               | 10 ++++++++++
 .../tnco/optimize/finite_width/greedy/optimizer.hpp    |  4 ++--
 include/tnco/optimize/infinite_memory/optimizer.hpp    |  4 ++--
 3 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/include/tnco/globals.hpp b/include/tnco/globals.hpp
index 70993c4..08c2f7d 100644
--- a/include/tnco/globals.hpp
+++ b/include/tnco/globals.hpp
@@ -14,6 +14,8 @@
 
 #pragma once
 
+#include <iomanip>
+#include <limits>
 #include <random>
 
 #include "bitset.hpp"
@@ -51,6 +53,14 @@ auto to_string(const T&... x) -> std::string {
   return ss.str();
 }
 
+// Convert to string, with all the significant digits
+template <typename T>
+auto to_digits(const T& x) -> std::string {
+  std::ostringstream ss;
+  ss << std::setprecision(std::numeric_limits<T>::max_digits10) << x;
+  return ss.str();
+}
+
 template <typename T>
 auto type_to_str() -> std::string {
   using type = std::decay_t<T>;
diff --git a/include/tnco/optimize/finite_width/greedy/optimizer.hpp b/include/tnco/optimize/finite_width/greedy/optimizer.hpp
index 573230f..d20836d 100644
--- a/include/tnco/optimize/finite_width/greedy/optimizer.hpp
+++ b/include/tnco/optimize/finite_width/greedy/optimizer.hpp
@@ -486,13 +486,13 @@ void init(py::module &m, const std::string &name) {
           "total_cost",
           [](const self_type &self) -> auto {
             auto Decimal = py::module_::import("decimal").attr("Decimal");
-            return Decimal(tnco::to_string(self.get_total_cost()));
+            return Decimal(tnco::to_digits(self.get_total_cost()));
           })
       .def_property_readonly(
           "min_total_cost",
           [](const self_type &self) -> auto {
             auto Decimal = py::module_::import("decimal").attr("Decimal");
-            return Decimal(tnco::to_string(self.get_min_total_cost()));
+            return Decimal(tnco::to_digits(self.get_min_total_cost()));
           })
       .def_property_readonly("log2_total_cost",
                              [](const self_type &self) -> auto {
diff --git a/include/tnco/optimize/infinite_memory/optimizer.hpp b/include/tnco/optimize/infinite_memory/optimizer.hpp
index 937e517..57d2c6f 100644
--- a/include/tnco/optimize/infinite_memory/optimizer.hpp
+++ b/include/tnco/optimize/infinite_memory/optimizer.hpp
@@ -288,13 +288,13 @@ void init(py::module &m, const std::string &name) {
           "total_cost",
           [](const self_type &self) -> auto {
             auto Decimal = py::module_::import("decimal").attr("Decimal");
-            return Decimal(tnco::to_string(self.get_total_cost()));
+            return Decimal(tnco::to_digits(self.get_total_cost()));
           })
       .def_property_readonly(
           "min_total_cost",
           [](const self_type &self) -> auto {
             auto Decimal = py::module_::import("decimal").attr("Decimal");
-            return Decimal(tnco::to_string(self.get_min_total_cost()));
+            return Decimal(tnco::to_digits(self.get_min_total_cost()));
           })
       .def_property_readonly("log2_total_cost",
                              [](const self_type &self) -> auto {
-- 
2.43.0

