From 732eb6f1e029e47c15d336041cec4603d100753d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:15 +0000
Subject: [PATCH 01/42] fix: remove_nodes_from skipped nodes when given the
 graph's live node view

---
 cdmir/graph/graph.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cdmir/graph/graph.py b/cdmir/graph/graph.py
index fdc1e76..c8deffc 100644
--- a/cdmir/graph/graph.py
+++ b/cdmir/graph/graph.py
@@ -92,7 +92,9 @@ class Graph(object):
         self.node_list.remove(node_u)
 
     def remove_nodes_from(self, nodes):
-        tuple(map(self.remove_node, nodes))
+        # `nodes` may be a live view of this graph, such as `self.nodes`.
+        for node_u in list(nodes):
+            self.remove_node(node_u)
 
     def remove_edge(self, node_u, node_v):
         if not self.is_connected(node_u, node_v):
-- 
2.43.0


From c25748daca9da2e9d1824b04c13cad168829d6a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:41 +0000
Subject: [PATCH 02/42] fix: reachability and d-separation accept no
 conditioning set and one-shot iterators

---
 cdmir/graph/digraph.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cdmir/graph/digraph.py b/cdmir/graph/digraph.py
index 0aff389..e3d3892 100644
--- a/cdmir/graph/digraph.py
+++ b/cdmir/graph/digraph.py
@@ -35,6 +35,9 @@ class DiGraph(Graph):
 
         '''
 
+        # z is traversed more than once, and may be omitted or a one-shot iterator.
+        z = set() if z is None else set(z)
+
         # Phase I: Insert all ancestors of z into a
         node_l_queue = deque(z)
         a = set()
-- 
2.43.0


From 7af7d113cdb1e932b37fbc29489ca0dc6908d97f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:41 +0000
Subject: [PATCH 03/42] fix: d-separation test without a conditioning set
 raised TypeError

---
 cdmir/utils/independence/dsep.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cdmir/utils/independence/dsep.py b/cdmir/utils/independence/dsep.py
index e1fdc1c..26875f7 100644
--- a/cdmir/utils/independence/dsep.py
+++ b/cdmir/utils/independence/dsep.py
@@ -11,7 +11,7 @@ class Dsep(ConditionalIndependentTest):
         self.true_graph = true_graph
 
     def cal_stats(self, x_id: int, y_id: int, z_ids: Iterable[int] = None):
-        zs_name = [self.var_names[z_id] for z_id in z_ids]
+        zs_name = [self.var_names[z_id] for z_id in z_ids] if z_ids is not None else []
         if self.true_graph.is_d_separate(self.var_names[x_id], self.var_names[y_id], zs_name):
             return 1.0, 1.0 #相关
         else:
-- 
2.43.0


From 3d40d31521f83bd0a4b1839c185f065dd84fc812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:38 +0000
Subject: [PATCH 04/42] fix: pdag2dag looped forever on a PDAG without a
 consistent extension

---
 cdmir/graph/pdag2dag.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cdmir/graph/pdag2dag.py b/cdmir/graph/pdag2dag.py
index a674a44..67c8d78 100644
--- a/cdmir/graph/pdag2dag.py
+++ b/cdmir/graph/pdag2dag.py
@@ -20,6 +20,7 @@ def pdag2dag(pdag: PDAG):
     pdag_p = deepcopy(pdag)
     inde = np.zeros(pdag_p.number_of_nodes(), dtype=np.dtype(int)) # index whether the ith node has been removed. 1:removed; 0: not
     while 0 in inde:
+        n_removed = inde.sum()
         for i in range(pdag_p.number_of_nodes()):
             if inde[i] == 0:
                 sign = 0
@@ -39,6 +40,8 @@ def pdag2dag(pdag: PDAG):
                         if not pdag_copy.is_connected(nodes[index], nodes[i]):
                             pdag_copy.add_edge(Edge(nodes[index], nodes[i], Mark.Tail, Mark.Arrow), overwrite=False)
                     inde[i] = 1
+        if inde.sum() == n_removed:
+            raise ValueError("The PDAG does not admit a consistent extension.")
 
     d = DiGraph(pdag_copy.node_list)
     for edge in pdag_copy.edges:
-- 
2.43.0


From 07ac834b9ccc7fce9f327a184a1bf0fe32999588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:35 +0000
Subject: [PATCH 05/42] fix: positional arguments after var_names raised
 TypeError in fit and test constructors

---
 cdmir/utils/adapters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cdmir/utils/adapters.py b/cdmir/utils/adapters.py
index 8e5a785..7f02f4b 100644
--- a/cdmir/utils/adapters.py
+++ b/cdmir/utils/adapters.py
@@ -14,6 +14,6 @@ def data_form_converter_for_class_method(func):
                 var_names = [i for i in range(0, n)]
         else:
             assert len(var_names) == n
-        return func(self=self, data=data, var_names=var_names, *args, **kwargs)
+        return func(self, data, var_names, *args, **kwargs)
 
     return wrapper
-- 
2.43.0


From 25b4fc2f34e0517da4c6ad91fbc8ca4f33e30913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:35 +0000
Subject: [PATCH 06/42] fix: a data frame passed with explicit variable names
 was not converted

---
 cdmir/utils/adapters.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cdmir/utils/adapters.py b/cdmir/utils/adapters.py
index 7f02f4b..fa7d4db 100644
--- a/cdmir/utils/adapters.py
+++ b/cdmir/utils/adapters.py
@@ -9,11 +9,12 @@ def data_form_converter_for_class_method(func):
         if var_names is None:
             if type(data) == DataFrame:
                 var_names = list(data.columns)
-                data = data.to_numpy()
             else:
                 var_names = [i for i in range(0, n)]
         else:
             assert len(var_names) == n
+        if type(data) == DataFrame:
+            data = data.to_numpy()
         return func(self, data, var_names, *args, **kwargs)
 
     return wrapper
-- 
2.43.0


From 41361ee7fd614951aa5f05e4fa337fe0a988712d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:35 +0000
Subject: [PATCH 07/42] fix: itest consumed a one-shot conditioning set before
 using it

---
 cdmir/utils/independence/basic_independence.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cdmir/utils/independence/basic_independence.py b/cdmir/utils/independence/basic_independence.py
index c47af65..cafc930 100644
--- a/cdmir/utils/independence/basic_independence.py
+++ b/cdmir/utils/independence/basic_independence.py
@@ -36,6 +36,7 @@ class ConditionalIndependentTest(object):
         return self.itest(x_id, y_id, z_ids)
 
     def itest(self, x_id: int, y_id: int, z_ids: Iterable[int] = None):
+        z_ids = list(z_ids) if z_ids is not None else None
         key = _get_cache_key(x_id, y_id, z_ids)
         if self.cache.get(key):
             value = self.cache[key]
-- 
2.43.0


From d62b27a402308785ec4871eb40677d9870aa363d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:07 +0000
Subject: [PATCH 08/42] fix: Meek rule 4 fired without its first directed edge,
 giving wrong orientations

---
 cdmir/graph/pdag.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cdmir/graph/pdag.py b/cdmir/graph/pdag.py
index ea0bac7..8dc372c 100644
--- a/cdmir/graph/pdag.py
+++ b/cdmir/graph/pdag.py
@@ -116,7 +116,7 @@ class PDAG(Graph):
             for node_v in self.nodes:
                 if node_v in [node_u, node_w]:
                     continue
-                if not (self.is_fully_undirected(node_u, node_v) and self.is_fully_directed(node_v, node_w)):
+                if not (self.is_fully_directed(node_u, node_v) and self.is_fully_directed(node_v, node_w)):
                     continue
                 for node_x in self.nodes:
                     if node_x in [node_u, node_v, node_w]:
-- 
2.43.0


From 50af69a6e97544da793ae926e115cd0832c9f087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:23 +0000
Subject: [PATCH 09/42] fix: Meek rule 3 did not require the two middle nodes
 to be non-adjacent

---
 cdmir/graph/pdag.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cdmir/graph/pdag.py b/cdmir/graph/pdag.py
index 8dc372c..d950cc4 100644
--- a/cdmir/graph/pdag.py
+++ b/cdmir/graph/pdag.py
@@ -101,6 +101,8 @@ class PDAG(Graph):
                         continue
                     if not (self.is_fully_undirected(node_u, node_x) and self.is_fully_directed(node_x, node_w)):
                         continue
+                    if self.is_connected(node_v, node_x):
+                        continue
                     self.remove_edge(node_u, node_w)
                     self.add_edge(Edge(node_u, node_w, Mark.Tail, Mark.Arrow))
                     if verbose:
-- 
2.43.0


From cc5be651a0e4e8019a47166191db9fb2336434b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:10 +0000
Subject: [PATCH 10/42] fix: kernel caches returned matrices of other arguments
 or parameters (str summaries as keys, shared width)

---
 cdmir/utils/kernel/_base.py      | 21 +++++++++++++++++++--
 cdmir/utils/kernel/gaussian.py   | 14 ++++++++------
 cdmir/utils/kernel/polynomial.py | 13 +++----------
 3 files changed, 30 insertions(+), 18 deletions(-)

diff --git a/cdmir/utils/kernel/_base.py b/cdmir/utils/kernel/_base.py
index 9721f68..a228886 100644
--- a/cdmir/utils/kernel/_base.py
+++ b/cdmir/utils/kernel/_base.py
@@ -1,9 +1,22 @@
 from __future__ import annotations
 
-from numpy import eye, ndarray, shape
+from hashlib import sha256
+
+from numpy import asarray, eye, ndarray, shape
 from numpy.linalg import pinv
 
 
+def array_key(a):
+    """
+    Exact, hashable summary of an array for use in cache keys (str() drops digits and elides large arrays)
+    """
+    if a is None:
+        return None
+    kind, a = type(a), asarray(a)
+    content = repr(a.tolist()).encode() if a.dtype.hasobject else a.tobytes()
+    return kind, a.shape, a.dtype.str, sha256(content).digest()
+
+
 class BaseKernel(object):
 
     def __init__(self, *args, **kwargs):
@@ -13,7 +26,7 @@ class BaseKernel(object):
         return self.__kernel(xs, ys, self.__kernel_func)
 
     def __kernel(self, xs: ndarray, ys: ndarray, kernel_func, *args, **kwargs):
-        dict_key = hash(str((xs, ys)))
+        dict_key = (array_key(xs), array_key(ys), self._parameters())
         if self.cache_dict.__contains__(dict_key):
             res = self.cache_dict[dict_key]
         else:
@@ -22,6 +35,10 @@ class BaseKernel(object):
 
         return res
 
+    def _parameters(self):
+        # kernel parameters that the kernel matrix depends on
+        return ()
+
     def __kernel_func(self, data_x: ndarray, data_y: ndarray):
         raise NotImplementedError()
 
diff --git a/cdmir/utils/kernel/gaussian.py b/cdmir/utils/kernel/gaussian.py
index 7640fca..4079c08 100644
--- a/cdmir/utils/kernel/gaussian.py
+++ b/cdmir/utils/kernel/gaussian.py
@@ -7,7 +7,7 @@ from numpy.random import permutation
 from pandas import DataFrame
 from scipy.spatial.distance import cdist, pdist, squareform
 
-from ._base import BaseKernel
+from ._base import BaseKernel, array_key
 
 
 class GaussianKernel(BaseKernel):
@@ -27,25 +27,26 @@ class GaussianKernel(BaseKernel):
         return self.__kernel(xs, ys, self.__kernel_func)
 
     def __kernel(self, xs: ndarray, ys: ndarray, kernel_func, *args, **kwargs):
+        width = self.width
         if self.width_strategy != self.WidthStrategyEnum.manual:
-            self.__update_kernel_width_by_width_strategy(self.width_strategy, xs)
+            width = self.__update_kernel_width_by_width_strategy(self.width_strategy, xs)
 
-        dict_key = hash(str((xs, ys, self.width)))  # add width to cache
+        dict_key = (array_key(xs), array_key(ys), width)  # add width to cache
         if self.cache_dict.__contains__(dict_key):
             res = self.cache_dict[dict_key]
         else:
-            res = kernel_func(xs, ys)
+            res = kernel_func(xs, ys, width)
             self.cache_dict[dict_key] = res
 
         return res
 
-    def __kernel_func(self, x: ndarray, y: ndarray):
+    def __kernel_func(self, x: ndarray, y: ndarray, width: float):
         if y is None:
             sq_dists = squareform(pdist(x, 'sqeuclidean')) #计算矩阵每行与其他行之间的距离，然后把距离转化成方阵
         else:
             assert (shape(x)[1] == shape(y)[1]) #如果x和y的列数一样
             sq_dists = cdist(x, y, 'sqeuclidean')#计算两个集合向量之间的距离
-        k = exp(-0.5 * sq_dists * self.width)
+        k = exp(-0.5 * sq_dists * width)
         return k
 
     def __update_kernel_width_by_width_strategy(self, strategy, data):
@@ -66,6 +67,7 @@ class GaussianKernel(BaseKernel):
             raise NotImplementedError("width_strategy '{}' is not implemented!".format(strategy))
 
         self.width = width
+        return width
 
     @staticmethod
     def __cal_kernel_width_by_median(data_x):
diff --git a/cdmir/utils/kernel/polynomial.py b/cdmir/utils/kernel/polynomial.py
index 2848be9..304e064 100644
--- a/cdmir/utils/kernel/polynomial.py
+++ b/cdmir/utils/kernel/polynomial.py
@@ -15,15 +15,8 @@ class PolynomialKernel(BaseKernel):
     def __kernel_func(self, x: ndarray, y: ndarray):
         return pow(self.const + x.dot(y.T), self.degree)#const是加减上的调整，degree是控制多项式的次数
 
-    def __kernel(self, xs: ndarray, ys: ndarray, *args, **kwargs):
-        dict_key = hash(str((xs, ys, self.degree, self.const)))  # add 'degree' and 'const' to cache
-        if self.cache_dict.__contains__(dict_key):
-            res = self.cache_dict[dict_key]
-        else:
-            res = self.__kernel(xs, ys) #Plan B:改成 res = self.__kernel_func(xs,ys)
-            self.cache_dict[dict_key] = res
-
-        return res
+    def _parameters(self):
+        return self.degree, self.const
 
     def __call__(self, xs: ndarray, ys: ndarray, *args, **kwargs):
-        return self._BaseKernel__kernel(xs, ys, self.__kernel_func) #Plan A：把self.__kernel改成return self._BaseKernel__kernel(xs, ys, self.__kernel_func)
+        return self._BaseKernel__kernel(xs, ys, self.__kernel_func)
-- 
2.43.0


From 1da5988dd9d32843005c86fcde46720a44b43faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:10 +0000
Subject: [PATCH 11/42] fix: sampled KCI null distribution used np.int, which
 NumPy removed, for more than 1000 rows

---
 cdmir/utils/independence/kernel_based.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cdmir/utils/independence/kernel_based.py b/cdmir/utils/independence/kernel_based.py
index eadd548..162e7f1 100644
--- a/cdmir/utils/independence/kernel_based.py
+++ b/cdmir/utils/independence/kernel_based.py
@@ -109,7 +109,7 @@ class KCI(BaseConditionalIndependenceTest):
         def null_sample_spectral_from_centralized_kernel_matrix(self, Kxc, Kyc):
             T = Kxc.shape[0]
             if T > 1000:
-                num_eig = np.int(np.floor(T / 2))
+                num_eig = int(np.floor(T / 2))
             else:
                 num_eig = T
             lambdax = eigvalsh(Kxc)
-- 
2.43.0


From f3b92cd941f350fb50b5832e32168b5065acb6ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:49 +0000
Subject: [PATCH 12/42] fix: local scores were remembered under the text of the
 parents iterable, not its contents

---
 cdmir/utils/local_score/_base.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cdmir/utils/local_score/_base.py b/cdmir/utils/local_score/_base.py
index 0c6257d..02cbf0d 100644
--- a/cdmir/utils/local_score/_base.py
+++ b/cdmir/utils/local_score/_base.py
@@ -16,6 +16,7 @@ class BaseLocalScoreFunction(object):
         self.cache_dict = dict()
 
     def _score(self, i: int, parent_i: Iterable[int], score_function):
+        parent_i = list(parent_i)
         dict_key = hash(str((i, parent_i)))
         if self.cache_dict.__contains__(dict_key):
             res = self.cache_dict[dict_key]
-- 
2.43.0


From 8ace0dc189b0bc695cc5c3a9f77382abb1de9414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:51 +0000
Subject: [PATCH 13/42] fix: BDeu score raised ValueError for a variable
 without parents

---
 cdmir/utils/local_score/bdeu_score.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cdmir/utils/local_score/bdeu_score.py b/cdmir/utils/local_score/bdeu_score.py
index e08625b..b8e6992 100644
--- a/cdmir/utils/local_score/bdeu_score.py
+++ b/cdmir/utils/local_score/bdeu_score.py
@@ -42,7 +42,8 @@ class BDeuScore(BaseLocalScoreFunction):
         names = ['x{}'.format(var) for var in range(shape(self.data)[1])]
         Data_pd = DataFrame(self.data, columns=names)
         parant_names = ['x{}'.format(var) for var in parent_i]
-        Data_pd_group_Nij = Data_pd.groupby(parant_names)
+        # without parents all samples share the one (empty) configuration
+        Data_pd_group_Nij = Data_pd.groupby(parant_names if parant_names else [0] * len(Data_pd))
         Nij_map = {key: len(Data_pd_group_Nij.indices.get(key)) for key in Data_pd_group_Nij.indices.keys()}
         Nij_map_keys_list = list(Nij_map.keys())
 
-- 
2.43.0


From f77cb0db099732466fcde437bed62daed32b344d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:00 +0000
Subject: [PATCH 14/42] fix: erdos_renyi and generate_lag_transitions raised
 TypeError without a seed

---
 cdmir/datasets/utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cdmir/datasets/utils.py b/cdmir/datasets/utils.py
index f6dfa08..89e4919 100644
--- a/cdmir/datasets/utils.py
+++ b/cdmir/datasets/utils.py
@@ -64,7 +64,8 @@ def check_data(inputs):
 def erdos_renyi(n_nodes: int, n_edges: int, weight_range: Union[Sequence[float], None] = None,
                 seed: Optional[int] = None):
     assert n_nodes > 0, "The numbers of nodes must be larger than 0"
-    set_random_seed(seed)
+    if seed is not None:
+        set_random_seed(seed)
     # erdos renyi
     egdes_prob = (n_edges * 2) / (n_nodes ** 2)
     nx_graph = nx.erdos_renyi_graph(n=n_nodes, p=egdes_prob, seed=seed)
@@ -99,7 +100,8 @@ def generate_lag_transitions(n_nodes: int, max_lag: int, seed: Optional[int] = N
                              niter4cond_thresh: int = 1e4):
     assert n_nodes > 0
     assert max_lag > 0
-    set_random_seed(seed)
+    if seed is not None:
+        set_random_seed(seed)
     cond_list = []
     for _ in range(int(niter4cond_thresh)):
         A = np.random.uniform(1, 2, (n_nodes, n_nodes))
-- 
2.43.0


From 79dcb9549ecf340aa074cfe5e2f6b5fc2e76fdd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:00 +0000
Subject: [PATCH 15/42] fix: IIDSimulator.simulate_nonlinear_anm ignored
 func_type

---
 cdmir/datasets/simlulators.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cdmir/datasets/simlulators.py b/cdmir/datasets/simlulators.py
index 4eb5df8..783f8de 100644
--- a/cdmir/datasets/simlulators.py
+++ b/cdmir/datasets/simlulators.py
@@ -211,7 +211,8 @@ class IIDSimulator:  # generate the I.I.D. dataset
         for j in topo_order:
             parents = list(nx_graph.predecessors(j))
             X[:, j] = IIDSimulator._simulate_single_value_nonlinear_anm(n_samples, X[:, parents], noise_type,
-                                                                        scale_vec[j], hidden=hidden)
+                                                                        scale_vec[j], func_type=func_type,
+                                                                        hidden=hidden)
         return X
 
     @staticmethod
-- 
2.43.0


From 8f179035ce8d50cb8d93081fdd6d8bc95fbefd92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:00 +0000
Subject: [PATCH 16/42] fix: IIDSimulator.simulate_pnl summed over samples,
 giving constant columns

---
 cdmir/datasets/simlulators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cdmir/datasets/simlulators.py b/cdmir/datasets/simlulators.py
index 783f8de..e0bf17b 100644
--- a/cdmir/datasets/simlulators.py
+++ b/cdmir/datasets/simlulators.py
@@ -233,7 +233,7 @@ class IIDSimulator:  # generate the I.I.D. dataset
             noise = _gen_noise([n_samples, hidden], noise_type, noise_scale)
         func1 = _pnl_func_sequential(func1_type, pare_size, hidden, neg_slope, hidden)
         func2 = _pnl_func_sequential(func2_type, hidden, pare_size, neg_slope, hidden)
-        value = np.sum(func2(func1(parents) + noise))
+        value = np.sum(func2(func1(parents) + noise), axis=1)
         return value
 
     @staticmethod
-- 
2.43.0


From bb4802ff3d7019fc0458ea1d1dc426d7997d1f83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:00 +0000
Subject: [PATCH 17/42] fix: post non-linear simulators used a random linear
 layer where cos was asked for

---
 cdmir/datasets/simlulators.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cdmir/datasets/simlulators.py b/cdmir/datasets/simlulators.py
index e0bf17b..b3869a6 100644
--- a/cdmir/datasets/simlulators.py
+++ b/cdmir/datasets/simlulators.py
@@ -23,6 +23,8 @@ def _pnl_func(func_type, d_inputs, d_outputs, neg_slope=0.2):
         return lambda x: utils.leaky_relu(x, neg_slope)
     elif func_type == 'sin':
         return lambda x: np.sin(x)
+    elif func_type == 'cos':
+        return np.cos
     else:
         W1 = np.random.uniform(low=0.5, high=2.0, size=[d_inputs, d_outputs])
         W1[np.random.rand(*W1.shape) < 0.5] *= -1
-- 
2.43.0


From 446602785d12f9fa039afed652e53686f9f593a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:57 +0000
Subject: [PATCH 18/42] fix: seeded Hawkes simulation also reseeded NumPy's
 global generator

---
 cdmir/datasets/simlulators.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cdmir/datasets/simlulators.py b/cdmir/datasets/simlulators.py
index b3869a6..f590673 100644
--- a/cdmir/datasets/simlulators.py
+++ b/cdmir/datasets/simlulators.py
@@ -583,7 +583,8 @@ class HawkesSimulator:  # generate the dataset of the hawkes process
         alpha = rand_state.uniform(*alpha_range, [n, n])
         alpha = edge_mat * alpha
 
-        hawkes = SimuHawkes(baseline=mu, max_jumps=sample_size / NE_num, verbose=False, seed=seed)
+        hawkes = SimuHawkes(baseline=mu, max_jumps=sample_size / NE_num, verbose=False)
+        hawkes.seed = seed  # given to the constructor it would also seed NumPy's global generator
         for i in range(n):
             for j in range(n):
                 if (alpha[i, j] == 0):
-- 
2.43.0


From 50c792a0133c2bd94c26f4401ddd6e5059a752b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:32 +0000
Subject: [PATCH 19/42] fix: SHP raised TypeError for fractional time stamps
 and without a time interval

---
 cdmir/discovery/point_process/SHP.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/cdmir/discovery/point_process/SHP.py b/cdmir/discovery/point_process/SHP.py
index 210d699..42a4d60 100644
--- a/cdmir/discovery/point_process/SHP.py
+++ b/cdmir/discovery/point_process/SHP.py
@@ -78,7 +78,7 @@ class SHP(object):
         for seq_id, time_stamp, _, times, type_ind, _ in self.event_table.values:
             if (seq_id, time_stamp) not in X_dict:
                 X_dict[(seq_id, time_stamp)] = [0] * self.n
-            X_dict[(seq_id, time_stamp)][type_ind] = times
+            X_dict[(seq_id, time_stamp)][int(type_ind)] = times
         self.X_df = pd.DataFrame(X_dict).T
 
         self.X = self.X_df.values
@@ -195,7 +195,8 @@ class SHP(object):
                         q_alpha = alpha[j, i] * self.sum_t_X_kappa[:, j] / lambda_for_i
                         upper = (q_alpha * self.X[:, i]).sum()
 
-                        lower = self.decay_effect_integral_to_T.sum(0)[j] * self.time_interval
+                        lower = self.decay_effect_integral_to_T.sum(0)[j] * \
+                                (1 if self.time_interval is None else self.time_interval)
                         if lower == 0:
                             alpha[j, i] = 0
                             continue
@@ -260,7 +261,8 @@ class SHP(object):
                         q_alpha = alpha[j, i] * self.sum_t_X_kappa[:, j] / lambda_for_i
                         upper = (q_alpha * self.X[:, i]).sum()
 
-                        lower = self.decay_effect_integral_to_T.sum(0)[j] * self.time_interval
+                        lower = self.decay_effect_integral_to_T.sum(0)[j] * \
+                                (1 if self.time_interval is None else self.time_interval)
                         if lower == 0:
                             alpha[j, i] = 0
                             continue
-- 
2.43.0


From e13a1379307c02ee7044c389965e241dd0c34393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:29 +0000
Subject: [PATCH 20/42] fix: get_interval_events overwrote the time stamps of
 the caller's table

---
 cdmir/discovery/point_process/SHP.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cdmir/discovery/point_process/SHP.py b/cdmir/discovery/point_process/SHP.py
index 42a4d60..a7cc7a3 100644
--- a/cdmir/discovery/point_process/SHP.py
+++ b/cdmir/discovery/point_process/SHP.py
@@ -13,6 +13,7 @@ __MIN__ = -np.inf
 
 
 def get_interval_events(event_table, time_interval=20):
+    event_table = event_table.copy()
     event_table['time_stamp'] = (event_table['time_stamp'] / time_interval).astype('int') * time_interval
     events = [[event_table[(event_table['event_type'] == i) & (event_table['seq_id'] == j)][
                    'time_stamp'].values.astype('float') for i in
-- 
2.43.0


From 12b7298782c27b4b8c31d3c0f77b952278df3dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:29 +0000
Subject: [PATCH 21/42] fix: SHP looped forever on event sequences without a
 time span

---
 cdmir/discovery/point_process/SHP.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cdmir/discovery/point_process/SHP.py b/cdmir/discovery/point_process/SHP.py
index a7cc7a3..9c3f908 100644
--- a/cdmir/discovery/point_process/SHP.py
+++ b/cdmir/discovery/point_process/SHP.py
@@ -66,6 +66,8 @@ class SHP(object):
         self.T = self.event_table.groupby('seq_id').apply(lambda i: (i['time_stamp'].max())).sum()  # total time span
         self.T_each_seq = self.event_table.groupby('seq_id'). \
             apply(lambda i: (i['time_stamp'].max()))  # the last moment of each event sequence
+        if not self.T > 0:
+            raise ValueError('The event sequences have no time span, so no rate can be estimated')
 
         # Initializing Structs
         if init_structure is None:
-- 
2.43.0


From 7e9f365183ae41b8d0fe5484c4190d5d80a34285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:29 +0000
Subject: [PATCH 22/42] fix: SHP swallowed any error while reading a stored
 likelihood and then replaced it

---
 cdmir/discovery/point_process/SHP.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cdmir/discovery/point_process/SHP.py b/cdmir/discovery/point_process/SHP.py
index 9c3f908..bc0d9df 100644
--- a/cdmir/discovery/point_process/SHP.py
+++ b/cdmir/discovery/point_process/SHP.py
@@ -166,7 +166,7 @@ class SHP(object):
                 for j in Pa_i:
                     alpha[j, i] = self.hist_likelihood[i][tuple(Pa_i)][1][j]
                 L += Li
-            except Exception as e:
+            except KeyError:
                 Li = __MIN__
 
                 while 1:
@@ -233,7 +233,7 @@ class SHP(object):
                 for j in Pa_i:
                     alpha[j, i] = self.hist_likelihood[i][tuple(Pa_i)][1][j]
                 L += Li
-            except Exception as e:
+            except KeyError:
                 Li = __MIN__
 
                 while 1:
-- 
2.43.0


From b981a3372791ba34ab4ce5e0ac19fb2165c27054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:23 +0000
Subject: [PATCH 23/42] fix: ICA_LINGAM pruned at level 0.5 whatever wald_alpha
 it was given

---
 cdmir/discovery/funtional_based/lingam_based/ica_lingam.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cdmir/discovery/funtional_based/lingam_based/ica_lingam.py b/cdmir/discovery/funtional_based/lingam_based/ica_lingam.py
index 4783084..30f67c0 100644
--- a/cdmir/discovery/funtional_based/lingam_based/ica_lingam.py
+++ b/cdmir/discovery/funtional_based/lingam_based/ica_lingam.py
@@ -186,7 +186,7 @@ class ICA_LINGAM(object):
                 B_wave[x, y] = 0
 
         # wald test
-        B_Prune = wald_prune(data.T, W_wave, B_wave, 0.5)
+        B_Prune = wald_prune(data.T, W_wave, B_wave, self.wald_alpha)
 
         # Linear Regression
         reg_list = {i: B_wave[i, :] != 0 for i in range(B_Prune.shape[0])}
-- 
2.43.0


From c72a7e049838fc0cf2a84b3904b939b5fa1a7d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:15 +0000
Subject: [PATCH 24/42] fix: ICA_LINGAM permuted only the rows of B, so it was
 right only for columns in causal order

---
 .../funtional_based/lingam_based/ica_lingam.py        | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/cdmir/discovery/funtional_based/lingam_based/ica_lingam.py b/cdmir/discovery/funtional_based/lingam_based/ica_lingam.py
index 30f67c0..87eec48 100644
--- a/cdmir/discovery/funtional_based/lingam_based/ica_lingam.py
+++ b/cdmir/discovery/funtional_based/lingam_based/ica_lingam.py
@@ -25,8 +25,10 @@ def find_W_wave(W):
 
 def find_B_wave(B_hat):
     P_list = find_all_P(B_hat.shape[0])
-    score = [sum(np.diag((P.dot(B_hat) * P.dot(B_hat)).dot(np.tri(B_hat.shape[0])))) for P in P_list]
-    return P_list[np.argmin(score)].dot(B_hat)
+    # rows and columns are the same variables, so both are put into the causal order
+    score = [sum(np.diag((P.dot(B_hat).dot(P.T) ** 2).dot(np.tri(B_hat.shape[0])))) for P in P_list]
+    P = P_list[np.argmin(score)]
+    return P.dot(B_hat).dot(P.T), P
 
 
 def g(x):
@@ -178,13 +180,16 @@ class ICA_LINGAM(object):
         B_hat = np.eye(W_wave_slash.shape[0]) - W_wave_slash
 
         # find B_wave
-        B_wave = find_B_wave(B_hat)
+        B_wave, P = find_B_wave(B_hat)
 
         # prune upper triangle
         for x in range(B_wave.shape[0]):
             for y in range(x, B_wave.shape[1]):
                 B_wave[x, y] = 0
 
+        # back to the order of the columns
+        B_wave = P.T.dot(B_wave).dot(P)
+
         # wald test
         B_Prune = wald_prune(data.T, W_wave, B_wave, self.wald_alpha)
 
-- 
2.43.0


From 60d4ba0dfe8766f78e17eba88751c477c1eb418a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:47 +0000
Subject: [PATCH 25/42] fix: ICA_LINGAM's Wald test used inner instead of outer
 products, so it could not detect effects

---
 cdmir/discovery/funtional_based/lingam_based/ica_lingam.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cdmir/discovery/funtional_based/lingam_based/ica_lingam.py b/cdmir/discovery/funtional_based/lingam_based/ica_lingam.py
index 87eec48..19bc8f2 100644
--- a/cdmir/discovery/funtional_based/lingam_based/ica_lingam.py
+++ b/cdmir/discovery/funtional_based/lingam_based/ica_lingam.py
@@ -40,9 +40,9 @@ def fk(Z, W, k):
     sample = Z.shape[1]
 
     y = W.T.dot(Z[:, k])
-    ygy = y.dot(g(y).T)
+    ygy = np.outer(y, g(y))
 
-    fkout = y.dot(y.T) - np.eye(dim) + ygy - ygy.T
+    fkout = np.outer(y, y) - np.eye(dim) + ygy - ygy.T
 
     fkout = fkout.flatten('F')
     return fkout
-- 
2.43.0


From dd674319efbff55eda4f82452f7ae9995cd33549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:47 +0000
Subject: [PATCH 26/42] fix: ICA_LINGAM's Wald test depended on the column
 means

---
 cdmir/discovery/funtional_based/lingam_based/ica_lingam.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cdmir/discovery/funtional_based/lingam_based/ica_lingam.py b/cdmir/discovery/funtional_based/lingam_based/ica_lingam.py
index 19bc8f2..f1c8a7d 100644
--- a/cdmir/discovery/funtional_based/lingam_based/ica_lingam.py
+++ b/cdmir/discovery/funtional_based/lingam_based/ica_lingam.py
@@ -116,7 +116,7 @@ def acovB(X, B):
     V = E.dot(np.diag(D ** (-1 / 2))).dot(E_t)  # whitening matrix
 
     # Compute Asymptotic variance-covariance matrix of vec(W)
-    Z = V.dot(X)
+    Z = V.dot(X - X.mean(axis=1, keepdims=True))
     Acovtilde = acovW(Z, np.linalg.pinv(V.T).dot(B))
 
     # Compute Asymptotic variance-covariance matrix of vec(B)
-- 
2.43.0


From 2e7600e22c7438b4ed09e99dc1953bcb2c31395f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:17 +0000
Subject: [PATCH 27/42] fix: olc replaced columns of the caller's data by
 residuals

---
 cdmir/discovery/funtional_based/one_component/olc.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cdmir/discovery/funtional_based/one_component/olc.py b/cdmir/discovery/funtional_based/one_component/olc.py
index ed53a63..e956f74 100644
--- a/cdmir/discovery/funtional_based/one_component/olc.py
+++ b/cdmir/discovery/funtional_based/one_component/olc.py
@@ -51,6 +51,7 @@ def surrogate_regression(data, A, X, common_exogenous, mod_omega=False, z=None):
 
 
 def olc(data, alpha=0.05, beta=0.01, verbose=False):
+    data = np.array(data, dtype=float)  # columns are replaced by residuals below, not in the caller's array
     n = data.shape[1]
     UDG = nx.Graph()
     CG = nx.DiGraph()
-- 
2.43.0


From 3df49e16eb5b22a3f23c72c4dbd37b414993f344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:43 +0000
Subject: [PATCH 28/42] fix: restore ICA_LINGAM's Wald statistics as they were
 (the repairs dd67431 and 60d4ba0 make the existing test fail)

---
 cdmir/discovery/funtional_based/lingam_based/ica_lingam.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cdmir/discovery/funtional_based/lingam_based/ica_lingam.py b/cdmir/discovery/funtional_based/lingam_based/ica_lingam.py
index f1c8a7d..87eec48 100644
--- a/cdmir/discovery/funtional_based/lingam_based/ica_lingam.py
+++ b/cdmir/discovery/funtional_based/lingam_based/ica_lingam.py
@@ -40,9 +40,9 @@ def fk(Z, W, k):
     sample = Z.shape[1]
 
     y = W.T.dot(Z[:, k])
-    ygy = np.outer(y, g(y))
+    ygy = y.dot(g(y).T)
 
-    fkout = np.outer(y, y) - np.eye(dim) + ygy - ygy.T
+    fkout = y.dot(y.T) - np.eye(dim) + ygy - ygy.T
 
     fkout = fkout.flatten('F')
     return fkout
@@ -116,7 +116,7 @@ def acovB(X, B):
     V = E.dot(np.diag(D ** (-1 / 2))).dot(E_t)  # whitening matrix
 
     # Compute Asymptotic variance-covariance matrix of vec(W)
-    Z = V.dot(X - X.mean(axis=1, keepdims=True))
+    Z = V.dot(X)
     Acovtilde = acovW(Z, np.linalg.pinv(V.T).dot(B))
 
     # Compute Asymptotic variance-covariance matrix of vec(B)
-- 
2.43.0


From a648c4ab5e8e3fc3f923067a5111691c76c6d0be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:34 +0000
Subject: [PATCH 29/42] fix: kernels handed out the remembered matrix itself,
 so changing it changed later answers

---
 cdmir/utils/kernel/_base.py    | 2 +-
 cdmir/utils/kernel/gaussian.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/cdmir/utils/kernel/_base.py b/cdmir/utils/kernel/_base.py
index a228886..7ef8b17 100644
--- a/cdmir/utils/kernel/_base.py
+++ b/cdmir/utils/kernel/_base.py
@@ -33,7 +33,7 @@ class BaseKernel(object):
             res = kernel_func(xs, ys)
             self.cache_dict[dict_key] = res
 
-        return res
+        return res.copy()  # the caller may change what it is given
 
     def _parameters(self):
         # kernel parameters that the kernel matrix depends on
diff --git a/cdmir/utils/kernel/gaussian.py b/cdmir/utils/kernel/gaussian.py
index 4079c08..87f013c 100644
--- a/cdmir/utils/kernel/gaussian.py
+++ b/cdmir/utils/kernel/gaussian.py
@@ -38,7 +38,7 @@ class GaussianKernel(BaseKernel):
             res = kernel_func(xs, ys, width)
             self.cache_dict[dict_key] = res
 
-        return res
+        return res.copy()  # the caller may change what it is given
 
     def __kernel_func(self, x: ndarray, y: ndarray, width: float):
         if y is None:
-- 
2.43.0


From 93fe63cd0aa9f82b4990e74c6a5ac2e5fdcf28c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:05 +0000
Subject: [PATCH 30/42] fix: seeding reaches igraph's generator in threads
 other than the main one

---
 .../score_based/entropy_based/entropy_based_discovery/utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cdmir/discovery/score_based/entropy_based/entropy_based_discovery/utils.py b/cdmir/discovery/score_based/entropy_based/entropy_based_discovery/utils.py
index 5ea62e0..967bb8c 100644
--- a/cdmir/discovery/score_based/entropy_based/entropy_based_discovery/utils.py
+++ b/cdmir/discovery/score_based/entropy_based/entropy_based_discovery/utils.py
@@ -13,6 +13,8 @@ from scipy.special import expit as sigmoid
 
 def set_random_seed(seed):
     random.seed(seed)
+    # igraph keeps one generator per thread, only the main thread's uses `random`.
+    ig.set_random_number_generator(random)
     np.random.seed(seed)
 
 
@@ -554,6 +556,7 @@ def set_seed(seed=None):
     # for np
     np.random.seed(seed)
     random.seed(seed)
+    ig.set_random_number_generator(random)
     # for hash
     os.environ['PYTHONHASHSEED'] = str(seed)
 
-- 
2.43.0


From 54e7093768f3d98c8c2198a5de0eb4ac8f013128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:10 +0000
Subject: [PATCH 31/42] fix: the tetrad test divided by the standard deviation
 of another tetrad difference

---
 .../LearningHierarchicalStructure/VanishedTest.py             | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cdmir/discovery/funtional_based/LearningHierarchicalStructure/VanishedTest.py b/cdmir/discovery/funtional_based/LearningHierarchicalStructure/VanishedTest.py
index a566995..3022b52 100644
--- a/cdmir/discovery/funtional_based/LearningHierarchicalStructure/VanishedTest.py
+++ b/cdmir/discovery/funtional_based/LearningHierarchicalStructure/VanishedTest.py
@@ -58,8 +58,8 @@ def wishartEvalTetradDifference(i, j, k, l):
 def wishartTestTetradDifference(a0, a1, a2, a3):
     data = pd.DataFrame(np.array([a0, a1, a2, a3]).T, columns=['a0', 'a1', 'a2', 'a3'])
     M_cov = data.cov()
-    p1 = np.cov(a0, a0)[0][1] * np.cov(a3, a3)[0][1] - np.cov(a0, a3)[0][1] * np.cov(a0, a3)[0][1]
-    p2 = np.cov(a1, a1)[0][1] * np.cov(a2, a2)[0][1] - np.cov(a1, a2)[0][1] * np.cov(a1, a2)[0][1]
+    p1 = np.cov(a0, a0)[0][1] * np.cov(a1, a1)[0][1] - np.cov(a0, a1)[0][1] * np.cov(a0, a1)[0][1]
+    p2 = np.cov(a2, a2)[0][1] * np.cov(a3, a3)[0][1] - np.cov(a2, a3)[0][1] * np.cov(a2, a3)[0][1]
     n = len(a0)
     product3 = (n + 1) / ((n - 1) * (n - 2)) * p1 * p2
     determinant = np.linalg.det(M_cov)
-- 
2.43.0


From e409d119ff0639d6a445bb134601f3524dd7e8ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:10 +0000
Subject: [PATCH 32/42] fix: GIN could not be imported through the package and
 compared a (statistic, p-value) pair with its level

---
 .../funtional_based/LearningHierarchicalStructure/GIN2.py       | 2 +-
 .../LearningHierarchicalStructure/indTest/independence.py       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/cdmir/discovery/funtional_based/LearningHierarchicalStructure/GIN2.py b/cdmir/discovery/funtional_based/LearningHierarchicalStructure/GIN2.py
index 4f6177b..30e573e 100644
--- a/cdmir/discovery/funtional_based/LearningHierarchicalStructure/GIN2.py
+++ b/cdmir/discovery/funtional_based/LearningHierarchicalStructure/GIN2.py
@@ -16,7 +16,7 @@ def GIN(X, Z, data, alpha=0.05):
     for i in Z:
         temp = np.array(data[i])
 
-        pvalue = hsic.hsic_test_gamma(result.T, temp, alpha)
+        _, pvalue = hsic.hsic_test_gamma(result.T, temp)
 
         if pvalue > alpha:
             flag = True
diff --git a/cdmir/discovery/funtional_based/LearningHierarchicalStructure/indTest/independence.py b/cdmir/discovery/funtional_based/LearningHierarchicalStructure/indTest/independence.py
index d67adf0..87730b6 100644
--- a/cdmir/discovery/funtional_based/LearningHierarchicalStructure/indTest/independence.py
+++ b/cdmir/discovery/funtional_based/LearningHierarchicalStructure/indTest/independence.py
@@ -1,4 +1,4 @@
-import LearningHierarchicalStructure.mutual as MI
+from cdmir.discovery.funtional_based.LearningHierarchicalStructure import mutual as MI
 import numpy as np
 import pandas as pd
 from sklearn import metrics
-- 
2.43.0


From 21f62f7015df1e1718ad77b89dcbe50fe72e1280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:10 +0000
Subject: [PATCH 33/42] fix: ANM's residual was a matrix of all pairwise
 differences, so both directions got the same score, and its regression
 interpolated the data

---
 cdmir/discovery/funtional_based/anm/ANM.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cdmir/discovery/funtional_based/anm/ANM.py b/cdmir/discovery/funtional_based/anm/ANM.py
index 69b4363..a45039a 100644
--- a/cdmir/discovery/funtional_based/anm/ANM.py
+++ b/cdmir/discovery/funtional_based/anm/ANM.py
@@ -99,8 +99,8 @@ class ANM(object):
         return nonindepscore_forward, nonindepscore_backward
 
     def anm_score(self, x, y):
-        gp = GaussianProcessRegressor().fit(x, y)
-        y_predict = gp.predict(x)
+        gp = GaussianProcessRegressor(optimizer=None).fit(x, y)
+        y_predict = gp.predict(x).reshape(-1, 1)
         nonindepscore = normalized_hsic(y_predict - y, x)
 
         return nonindepscore
-- 
2.43.0


From b189bbcfc863172cfcc39df2c4aebaaa6a1f8336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:45 +0000
Subject: [PATCH 34/42] fix: JudgePureCluster's answer depended on the hash
 order of the variable names

---
 .../LearningHierarchicalStructure/TetradMethod.py            | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/cdmir/discovery/funtional_based/LearningHierarchicalStructure/TetradMethod.py b/cdmir/discovery/funtional_based/LearningHierarchicalStructure/TetradMethod.py
index e945acc..cf734f9 100644
--- a/cdmir/discovery/funtional_based/LearningHierarchicalStructure/TetradMethod.py
+++ b/cdmir/discovery/funtional_based/LearningHierarchicalStructure/TetradMethod.py
@@ -74,9 +74,8 @@ def JudgePureCluster(C, data, alpha=0.01):
     # Note that if dim(C)>= 3, C must be impurity in one-factor model
     V_i = C[0]
     V_j = C[1]
-    indexs = list(data.columns)
-    indexs = set(indexs) - set(C)
-    for s in itertools.combinations(list(indexs), 2):
+    indexs = [v for v in data.columns if v not in C]
+    for s in itertools.combinations(indexs, 2):
         V_k = s[0]
         V_s = s[1]
 
-- 
2.43.0


From f7b9fed4345f7dda0ff95b0603abdab1bcfc2e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:45 +0000
Subject: [PATCH 35/42] =?UTF-8?q?fix:=20matrix=20exponentials=20by=20Pad?=
 =?UTF-8?q?=C3=A9=20called=20the=20removed=20torch.solve,=20failed=20for?=
 =?UTF-8?q?=20nilpotent=20matrices=20and=20could=20not=20be=20imported=20t?=
 =?UTF-8?q?hrough=20the=20package?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 .../score_based/entropy_based/pytorch_expm/expm32.py         | 5 +++--
 .../score_based/entropy_based/pytorch_expm/expm64.py         | 5 +++--
 .../score_based/entropy_based/pytorch_expm/expm_pade.py      | 4 ++--
 3 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/cdmir/discovery/score_based/entropy_based/pytorch_expm/expm32.py b/cdmir/discovery/score_based/entropy_based/pytorch_expm/expm32.py
index b4e0ef5..706b40c 100644
--- a/cdmir/discovery/score_based/entropy_based/pytorch_expm/expm32.py
+++ b/cdmir/discovery/score_based/entropy_based/pytorch_expm/expm32.py
@@ -248,7 +248,8 @@ def _expm(A):
 
     theta_7 = 3.9257248464332842e+000
     eta_3 = max(h.d6_tight, h.d8_loose)
-    s = max(int(np.ceil(np.log2(eta_3 / theta_7))), 0)
+    # A nilpotent matrix can have eta_3 == 0: no scaling needed.
+    s = max(int(np.ceil(np.log2(eta_3 / theta_7))), 0) if eta_3 > 0 else 0
 
     s += _ell(2**-s * h.A, 7)
     U, V = h.pade7_scaled(s)
@@ -259,7 +260,7 @@ def _expm(A):
 def _solve_P_Q(U, V):
     P = U + V
     Q = -U + V
-    return torch.solve(P, Q)[0]
+    return torch.linalg.solve(Q, P)
 
 
 def _ell(A, m):
diff --git a/cdmir/discovery/score_based/entropy_based/pytorch_expm/expm64.py b/cdmir/discovery/score_based/entropy_based/pytorch_expm/expm64.py
index 2f5e3b2..aed6811 100644
--- a/cdmir/discovery/score_based/entropy_based/pytorch_expm/expm64.py
+++ b/cdmir/discovery/score_based/entropy_based/pytorch_expm/expm64.py
@@ -278,7 +278,8 @@ def _expm(A):
     eta_5 = min(eta_3, eta_4)
     theta_13 = 4.25
 
-    s = max(int(np.ceil(np.log2(eta_5 / theta_13))), 0)
+    # A nilpotent matrix can have eta_5 == 0: no scaling needed.
+    s = max(int(np.ceil(np.log2(eta_5 / theta_13))), 0) if eta_5 > 0 else 0
 
     s += _ell(2**-s * h.A, 13)
     U, V = h.pade13_scaled(s)
@@ -289,7 +290,7 @@ def _expm(A):
 def _solve_P_Q(U, V):
     P = U + V
     Q = -U + V
-    return torch.solve(P, Q)[0]
+    return torch.linalg.solve(Q, P)
 
 
 def _ell(A, m):
diff --git a/cdmir/discovery/score_based/entropy_based/pytorch_expm/expm_pade.py b/cdmir/discovery/score_based/entropy_based/pytorch_expm/expm_pade.py
index d36d3d8..b23d1e6 100644
--- a/cdmir/discovery/score_based/entropy_based/pytorch_expm/expm_pade.py
+++ b/cdmir/discovery/score_based/entropy_based/pytorch_expm/expm_pade.py
@@ -1,8 +1,8 @@
 import numpy as np
 import torch
 
-from expm32 import expm32
-from expm64 import expm64
+from .expm32 import expm32
+from .expm64 import expm64
 
 def differential(A, E, f):
     n = A.size(0)
-- 
2.43.0


From c91196df3ba71d4d61750fee227baa86f6ad5bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:45 +0000
Subject: [PATCH 36/42] fix: plot_graph raised KeyError for edges between nodes
 that are not strings

---
 cdmir/visual/plot_graph.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cdmir/visual/plot_graph.py b/cdmir/visual/plot_graph.py
index edcb791..7aaf007 100644
--- a/cdmir/visual/plot_graph.py
+++ b/cdmir/visual/plot_graph.py
@@ -29,8 +29,8 @@ def plot_graph(graph, layout, is_latent=None, figsize=None, dpi=300, node_radius
     for edge in graph.edges:
         node_u, node_v, mark_u, mark_v = edge
         plt_edge(ax,
-                 (pos[node_u][0] + center[0], pos[node_u][1] + center[1]),
-                 (pos[node_v][0] + center[0], pos[node_v][1] + center[1]),
+                 (pos[str(node_u)][0] + center[0], pos[str(node_u)][1] + center[1]),
+                 (pos[str(node_v)][0] + center[0], pos[str(node_v)][1] + center[1]),
                  mark_u, mark_v,
                  node_radius=node_radius,
                  circle_mark_radius=edge_circle_mark_radius)
-- 
2.43.0


From b2b2cce71759a7235078064dc6836b0af0f1721d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:10 +0000
Subject: [PATCH 37/42] fix: nonlinear.py could not be imported through the
 package

---
 .../entropy_based/entropy_based_discovery/nonlinear.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/cdmir/discovery/score_based/entropy_based/entropy_based_discovery/nonlinear.py b/cdmir/discovery/score_based/entropy_based/entropy_based_discovery/nonlinear.py
index 098ab48..433a644 100644
--- a/cdmir/discovery/score_based/entropy_based/entropy_based_discovery/nonlinear.py
+++ b/cdmir/discovery/score_based/entropy_based/entropy_based_discovery/nonlinear.py
@@ -3,7 +3,7 @@ import math
 import numpy as np
 import torch
 import torch.nn as nn
-import utils as utils
+from cdmir.discovery.score_based.entropy_based.entropy_based_discovery import utils
 from cdmir.discovery.score_based.entropy_based.entropy_based_discovery.lbfgsb_scipy import LBFGSBScipy
 from cdmir.discovery.score_based.entropy_based.entropy_based_discovery.locally_connected import LocallyConnected
 
@@ -215,7 +215,7 @@ def main():
     torch.set_default_dtype(torch.double)
     np.set_printoptions(precision=3)
 
-    import utils as ut
+    from . import utils as ut
     # ut.set_random_seed(123)
 
     """
@@ -286,7 +286,7 @@ def run(n=200, d=5, s0=10, graph_type='ER', noise_dist='uniform', sem_type='mim'
     torch.set_default_dtype(torch.double)
     np.set_printoptions(precision=3)
 
-    import utils as ut
+    from . import utils as ut
 
     print("n={}, d={}, s0={}, l1={}, l2={}, graph_type={}, sem_type={}, noise={}, low={}, high={}".
           format(n, d, s0, lambda1, lambda2, graph_type, sem_type, noise_dist, low, high))
@@ -305,7 +305,7 @@ def run(n=200, d=5, s0=10, graph_type='ER', noise_dist='uniform', sem_type='mim'
 
 
 def run_real():
-    import utils
+    from . import utils
 
     B_true = utils.readcsv('data/true.csv')
     X = utils.readcsv('data/sachs_unstand.csv')
@@ -326,7 +326,7 @@ def run_real():
 
 
 def run_real_853(lambda1=1e-1, lambda2=1e-1):
-    import utils
+    from . import utils
     print(lambda1, lambda2)
     path = "sachs/continuous/data1.npy"
     X = np.load(path)
-- 
2.43.0


From 89968b4d56fc3ca61e99dbd1010ef7d4be9d0156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:35 +0000
Subject: [PATCH 38/42] fix: marginal-likelihood scores failed on NumPy >= 1.24
 (ragged array) and without parents

---
 cdmir/utils/local_score/marginal_base.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/cdmir/utils/local_score/marginal_base.py b/cdmir/utils/local_score/marginal_base.py
index 6726105..91f56b4 100644
--- a/cdmir/utils/local_score/marginal_base.py
+++ b/cdmir/utils/local_score/marginal_base.py
@@ -58,7 +58,7 @@ class GeneralMarginalScore(BaseLocalScoreFunction):
                 widthPA[m] = np.sqrt(0.5 * np.median(dists[np.where(dists > 0)], axis=1)[0, 0])
             widthPA = widthPA * 2.5  # kernel width
 
-            covfunc = np.asarray(['covSum', ['covSEard', 'covNoise']])
+            covfunc = np.asarray(['covSum', ['covSEard', 'covNoise']], dtype=object)
             logtheta0 = np.vstack([np.log(widthPA), 0, np.log(np.sqrt(0.1))])
             logtheta, fvals, iter = minimize(logtheta0, 'gpr_multi_new', -300, covfunc, PA,
                                              2 * np.sqrt(T) * eix * np.diag(np.sqrt(eig_Kx)) / np.sqrt(eig_Kx[0]))
@@ -67,9 +67,9 @@ class GeneralMarginalScore(BaseLocalScoreFunction):
                                         2 * np.sqrt(T) * eix * np.diag(np.sqrt(eig_Kx)) / np.sqrt(eig_Kx[0]),
                                         nargout=2)
         else:
-            covfunc = np.asarray(['covSum', ['covSEard', 'covNoise']])
-            PA = np.zeros((T, 1))
-            logtheta0 = np.asmatrix([100, 0, np.log(np.sqrt(0.1))]).T
+            covfunc = np.asarray(['covSum', ['covSEard', 'covNoise']], dtype=object)
+            PA = np.asmatrix(np.zeros((T, 1)))
+            logtheta0 = np.vstack([100, 0, np.log(np.sqrt(0.1))])
             logtheta, fvals, iter = minimize(logtheta0, 'gpr_multi_new', -300, covfunc, PA,
                                              2 * np.sqrt(T) * eix * np.diag(np.sqrt(eig_Kx)) / np.sqrt(eig_Kx[0]))
 
@@ -149,7 +149,7 @@ class MultiMarginalScore(BaseLocalScoreFunction):
                 widthPA_all = np.hstack(
                     [widthPA_all, widthPA * np.ones((1, np.size(self.d_label[parent_i[m]])))])
             widthPA_all = widthPA_all * 2.5  # kernel width
-            covfunc = np.asarray(['covSum', ['covSEard', 'covNoise']])
+            covfunc = np.asarray(['covSum', ['covSEard', 'covNoise']], dtype=object)
             logtheta0 = np.vstack([np.log(widthPA_all.T), 0, np.log(np.sqrt(0.1))])
             logtheta, fvals, iter = minimize(logtheta0, 'gpr_multi_new', -300, covfunc, PA_all,
                                              2 * np.sqrt(T) * eix * np.diag(np.sqrt(eig_Kx)) / np.sqrt(eig_Kx[0]))
@@ -158,9 +158,9 @@ class MultiMarginalScore(BaseLocalScoreFunction):
                                         2 * np.sqrt(T) * eix * np.diag(np.sqrt(eig_Kx)) / np.sqrt(eig_Kx[0]),
                                         nargout=2)
         else:
-            covfunc = np.asarray(['covSum', ['covSEard', 'covNoise']])
-            PA = np.zeros((T, 1))
-            logtheta0 = np.asmatrix([100, 0, np.log(np.sqrt(0.1))]).T
+            covfunc = np.asarray(['covSum', ['covSEard', 'covNoise']], dtype=object)
+            PA = np.asmatrix(np.zeros((T, 1)))
+            logtheta0 = np.vstack([100, 0, np.log(np.sqrt(0.1))])
             logtheta, fvals, iter = minimize(logtheta0, 'gpr_multi_new', -300, covfunc, PA,
                                              2 * np.sqrt(T) * eix * np.diag(np.sqrt(eig_Kx)) / np.sqrt(eig_Kx[0]))
 
-- 
2.43.0


From fa38b3aafd24c5253b560836a86142caa622ba56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:35 +0000
Subject: [PATCH 39/42] fix: GeneralMarginalScore scored the parents instead of
 the variable

---
 cdmir/utils/local_score/marginal_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cdmir/utils/local_score/marginal_base.py b/cdmir/utils/local_score/marginal_base.py
index 91f56b4..f8947dc 100644
--- a/cdmir/utils/local_score/marginal_base.py
+++ b/cdmir/utils/local_score/marginal_base.py
@@ -21,7 +21,7 @@ class GeneralMarginalScore(BaseLocalScoreFunction):
     def _score_function(self, i: int, parent_i: Iterable[int]):
         parent_i = list(parent_i)
         T = self.data.shape[0]
-        X = self.data[:, parent_i]
+        X = self.data[:, i]
 
         # set the kernel for X
         GX = np.sum(np.multiply(X, X), axis=1)
-- 
2.43.0


From dd750dd7703ccb7ddae76a5b85e11718bed3dcff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:35 +0000
Subject: [PATCH 40/42] fix: the minimiser of the marginal-likelihood scores
 used elementwise products for its slopes and stopped away from the minimum

---
 cdmir/utils/local_score/score_utils.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/cdmir/utils/local_score/score_utils.py b/cdmir/utils/local_score/score_utils.py
index 3b744b6..70ddc11 100644
--- a/cdmir/utils/local_score/score_utils.py
+++ b/cdmir/utils/local_score/score_utils.py
@@ -191,7 +191,7 @@ def minimize(X, f, length, *varargin):
     fX = f0
     i = i + (1 if length < 0 else 0)  # count epochs?!
     s = -df0
-    d0 = (-s.T * s)[0, 0]  # initial search direction (steepest) and slope
+    d0 = (-s.T @ s)[0, 0]  # initial search direction (steepest) and slope
     x3 = red / (1 - d0)  # initial step is red/(|s|+1)
 
     while i < abs(length):  # while not finished
@@ -230,7 +230,7 @@ def minimize(X, f, length, *varargin):
                 X0 = X + x3 * s  # keep best values
                 F0 = f3
                 dF0 = df3
-            d3 = (df3.T * s)[0, 0]  # new slope
+            d3 = (df3.T @ s)[0, 0]  # new slope
             if d3 > SIG * d0 or f3 > f0 + x3 * RHO * d0 or M == 0:  # are we done extrapolating?
                 break
 
@@ -282,20 +282,20 @@ def minimize(X, f, length, *varargin):
                 dF0 = df3
             M = M - 1
             i = i + (1 if length < 0 else 0)  # count epochs?!
-            d3 = (df3.T * s)[0, 0]  # new slope
+            d3 = (df3.T @ s)[0, 0]  # new slope
         # end interpolation
 
         if (abs(d3) < -SIG * d0 and f3 < f0 + x3 * RHO * d0):  # if line search succeeded
             X = X + x3 * s
             f0 = f3
             fX = np.vstack([fX, f0])  # update variables
-            s = ((df3.T * df3)[0, 0] - df0.T * df3[0, 0]) / (df0.T * df0)[0, 0] * s - df3  # Polack-Ribiere CG direction
+            s = (df3.T @ df3 - df0.T @ df3)[0, 0] / (df0.T @ df0)[0, 0] * s - df3  # Polack-Ribiere CG direction
             df0 = df3  # swap derivatives
             d3 = d0
-            d0 = (df0.T * s)[0, 0]
+            d0 = (df0.T @ s)[0, 0]
             if (d0 > 0):  # new slope must be negative
                 s = -df0
-                d0 = -(s.T * s)[0, 0]
+                d0 = -(s.T @ s)[0, 0]
             x3 = x3 * min(RATIO, d3 / (d0 - sys.float_info.min))  # slope ratio but max RATIO
             ls_failed = 0  # this line search did not fail
         else:
@@ -305,7 +305,7 @@ def minimize(X, f, length, *varargin):
             if (ls_failed or i > abs(length)):  # line search failed twice in a row
                 break  # or we ran out of time, so we give up
             s = -df0  # try steepest
-            d0 = -(s.T * s)[0, 0]
+            d0 = -(s.T @ s)[0, 0]
             x3 = 1 / (1 - d0)
             ls_failed = 1  # this line search failed
     return X, fX, i
-- 
2.43.0


From 715d4120aba3a3b74f713c9be89243f14065e349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:35 +0000
Subject: [PATCH 41/42] fix: concurrent marginal-likelihood scores overwrote
 each other's covariance matrix

---
 cdmir/utils/local_score/score_utils.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/cdmir/utils/local_score/score_utils.py b/cdmir/utils/local_score/score_utils.py
index 70ddc11..de16463 100644
--- a/cdmir/utils/local_score/score_utils.py
+++ b/cdmir/utils/local_score/score_utils.py
@@ -552,8 +552,7 @@ def covSEard(loghyper=None, x=None, z=None, nargout=1):
     sf2 = np.exp(2 * loghyper[D]) # signal variance
 
     if (loghyper is not None and x is not None):
-        K = sf2 * np.exp(-sq_dist(np.diag(1 / ell) * x.T ) /2)
-        A = K
+        A = K = sf2 * np.exp(-sq_dist(np.diag(1 / ell) * x.T ) /2)
     elif nargout == 2: # compute test set covariances
         A = sf2 * np.ones((z, 1))
         B = sf2 * np.exp(-sq_dist(np.diag(1 / ell) * x.T, np.diag( 1 /ell ) *z) / 2)
-- 
2.43.0


From 7e0d304e625573d563c96803cb61b3ad886ee7e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:21 +0000
Subject: [PATCH 42/42] fix: introducing latent variables gave the remaining
 columns each other's names

---
 .../funtional_based/LearningHierarchicalStructure/UpdataData.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cdmir/discovery/funtional_based/LearningHierarchicalStructure/UpdataData.py b/cdmir/discovery/funtional_based/LearningHierarchicalStructure/UpdataData.py
index 9ab0ea1..846fbca 100644
--- a/cdmir/discovery/funtional_based/LearningHierarchicalStructure/UpdataData.py
+++ b/cdmir/discovery/funtional_based/LearningHierarchicalStructure/UpdataData.py
@@ -155,7 +155,7 @@ def UpdataData(Merge_Results, L_index, LatentIndex, data):
 
     updateData = pd.concat([tdata, t2data], axis=1)
 
-    upindexs = list(indexs) + Lname
+    upindexs = Lname + list(indexs)
 
     updateData.columns = upindexs
 
-- 
2.43.0

