From f27ad078feec53bb78538ef0165bea983da3699d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:23 +0000
Subject: [PATCH 01/21] fix: sampled trajectories kept integer times and
 overwrote the previous row

CTBN_Sample built its frame from integers, so the time column was integer
and every time was truncated, and each new row was a view of the previous
one, which changed with it.
---
 PyCTBN/PyCTBN/structure_graph/trajectory_generator.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py b/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py
index 56e170f..043fc16 100644
--- a/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py
+++ b/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py
@@ -77,8 +77,7 @@ class TrajectoryGenerator(object):
         """
 
         t = 0
-        sigma = pd.DataFrame(columns = (["Time"] + self._vnames))
-        sigma.loc[len(sigma)] = [0] + [0 for v in self._vnames]
+        sigma = pd.DataFrame([[0.0] + [0 for v in self._vnames]], columns = (["Time"] + self._vnames), dtype = object)
         time = np.full(len(self._vnames), np.NaN)
         n_tr = 0
         self._generated_trajectory = None
@@ -106,6 +105,7 @@ class TrajectoryGenerator(object):
 
             if (max_tr != -1 and n_tr == max_tr) or (t_end != -1 and t >= t_end):
                 sigma.loc[len(sigma) - 1, self._vnames] = -1
+                sigma = sigma.astype({"Time": float, **{v: int for v in self._vnames}})
                 self._generated_trajectory = sigma
                 return sigma
             else:
@@ -123,9 +123,9 @@ class TrajectoryGenerator(object):
                 cim_row /= sum(cim_row)
                 rand_mult = np.random.multinomial(1, cim_row, size=1)
 
-                new_row = pd.DataFrame(sigma[-1:].values, columns = sigma.columns)
-                new_row.loc[0].at[self._vnames[next]] = np.where(rand_mult[0] == 1)[0][0]
-                new_row.loc[0].at["Time"] = round(t, 4)
+                new_row = pd.DataFrame(sigma[-1:].values.copy(), columns = sigma.columns)
+                new_row.at[0, self._vnames[next]] = np.where(rand_mult[0] == 1)[0][0]
+                new_row.at[0, "Time"] = round(t, 4)
                 sigma = sigma.append(new_row, ignore_index = True)
 
                 n_tr += 1
-- 
2.43.0


From 639f409f7fd20bc7a36e0c55a4d5df8f59a87575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:23 +0000
Subject: [PATCH 02/21] fix: holding times were drawn with the rate as their
 mean

numpy's exponential takes the mean, which is 1 / rate.
---
 PyCTBN/PyCTBN/structure_graph/trajectory_generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py b/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py
index 043fc16..deca787 100644
--- a/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py
+++ b/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py
@@ -98,7 +98,7 @@ class TrajectoryGenerator(object):
 
                     param = -1 * cim[current_values.at[self._vnames[i]]][current_values.at[self._vnames[i]]]
 
-                    time[i] = t + random.exponential(scale = param)
+                    time[i] = t + random.exponential(scale = 1 / param)
         
             next = time.argmin()
             t = time[next]
-- 
2.43.0


From 81eb206fe0dc28c3f4ee21293ea765fe7f644479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:23 +0000
Subject: [PATCH 03/21] fix: parent configurations were wrong for parents of
 different cardinality

The first two columns were swapped after the grid was built, so each of them
listed the states of the other parent. With equal cardinalities the result is
unchanged.
---
 PyCTBN/PyCTBN/structure_graph/network_graph.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/PyCTBN/PyCTBN/structure_graph/network_graph.py b/PyCTBN/PyCTBN/structure_graph/network_graph.py
index 254555d..a6dc756 100644
--- a/PyCTBN/PyCTBN/structure_graph/network_graph.py
+++ b/PyCTBN/PyCTBN/structure_graph/network_graph.py
@@ -231,11 +231,7 @@ class NetworkGraph(object):
         for val in parents_values:
             tmp.append([x for x in range(val)])
         if len(parents_values) > 0:
-            parents_comb = np.array(np.meshgrid(*tmp)).T.reshape(-1, len(parents_values))
-            if len(parents_values) > 1:
-                tmp_comb = parents_comb[:, 1].copy()
-                parents_comb[:, 1] = parents_comb[:, 0].copy()
-                parents_comb[:, 0] = tmp_comb
+            parents_comb = np.array(np.meshgrid(*tmp, indexing='ij')).T.reshape(-1, len(parents_values))
         else:
             parents_comb = np.array([[]], dtype=np.int)
         return parents_comb
-- 
2.43.0


From e6c670a4c0c5fe191595b6b01fd9683646918c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:23 +0000
Subject: [PATCH 04/21] fix: tabu search sampled from a set

random.sample rejects sets since Python 3.11; sorting also makes seeded
searches independent of the hash seed.
---
 PyCTBN/PyCTBN/optimizers/tabu_search.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyCTBN/PyCTBN/optimizers/tabu_search.py b/PyCTBN/PyCTBN/optimizers/tabu_search.py
index 7650732..ccd856e 100644
--- a/PyCTBN/PyCTBN/optimizers/tabu_search.py
+++ b/PyCTBN/PyCTBN/optimizers/tabu_search.py
@@ -121,7 +121,7 @@ class TabuSearch(Optimizer):
 
             'choose a new random edge according to tabu restiction'
             if(len(current_possible_nodes) > 0):
-                current_new_parent = sample(current_possible_nodes,k=1)[0]
+                current_new_parent = sample(sorted(current_possible_nodes),k=1)[0]
             else:
                 current_new_parent = tabu_queue.get()
                 tabu_set.remove(current_new_parent)
-- 
2.43.0


From 5dccc34ae07b2cd59345b1b99b6eca5d72915501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:40 +0000
Subject: [PATCH 05/21] fix: parallel trajectories were copies of one another

Every worker process started from the random state of the parent. The parent
now draws a separate seed for each of them.
---
 .../PyCTBN/structure_graph/trajectory_generator.py  | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py b/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py
index deca787..d5b4bbf 100644
--- a/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py
+++ b/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py
@@ -136,7 +136,7 @@ class TrajectoryGenerator(object):
                     if self._vnames[next] in self._parents[v]:
                         time[i] = np.NaN
 
-    def worker(self, t_end, max_tr, trajectories):
+    def worker(self, t_end, max_tr, trajectories, seed = None):
         """Single process that will be executed in parallel in order to generate one trajectory. 
 
             :param t_end: If defined, the sampling ends when end time is reached
@@ -145,8 +145,12 @@ class TrajectoryGenerator(object):
             :type max_tr: int
             :param trajectories: Shared list that contains to which the generated trajectory is added
             :type trajectories: list
+            :param seed: Seed of the random stream of this process; if None the current stream is used
+            :type seed: int
         """
         
+        if seed is not None:
+            random.seed(seed)
         trajectory = self.CTBN_Sample(t_end = t_end, max_tr = max_tr)
         trajectories.append(trajectory)
 
@@ -165,10 +169,13 @@ class TrajectoryGenerator(object):
 
         trajectories = Manager().list()
 
+        # Forked processes inherit the random state of the parent: each one needs a stream of its own
+        seeds = random.randint(2 ** 32, size = len(max_trs if t_ends is None else t_ends), dtype = np.uint32)
+
         if t_ends is not None:
-            processes = [Process(target = self.worker, args = (t, -1, trajectories)) for t in t_ends]
+            processes = [Process(target = self.worker, args = (t, -1, trajectories, s)) for t, s in zip(t_ends, seeds)]
         else:   
-            processes = [Process(target = self.worker, args = (-1, m, trajectories)) for m in max_trs]
+            processes = [Process(target = self.worker, args = (-1, m, trajectories, s)) for m, s in zip(max_trs, seeds)]
 
         for p in processes:
             p.start()
-- 
2.43.0


From 122262d1d59499eaa9529bc08d1348ccf4148c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:40 +0000
Subject: [PATCH 06/21] fix: multi_trajectory silently returned fewer
 trajectories when a process failed

---
 PyCTBN/PyCTBN/structure_graph/trajectory_generator.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py b/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py
index d5b4bbf..344a669 100644
--- a/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py
+++ b/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py
@@ -183,4 +183,7 @@ class TrajectoryGenerator(object):
         for p in processes:
             p.join()
 
+        if any(p.exitcode != 0 for p in processes):
+            raise RuntimeError("A process generating a trajectory has failed")
+
         return trajectories
\ No newline at end of file
-- 
2.43.0


From 2c956324cc7fa7fc5cec593ec1a10b96175d2e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:40 +0000
Subject: [PATCH 07/21] fix: constraint-based estimation left state behind on
 the estimator

After an interrupted sequential run the cache still held the statistics of the
unfinished variable, and the next run used them for another one. Edges kept for
lack of data stayed marked as not removable in later runs.
---
 .../estimators/structure_constraint_based_estimator.py     | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/PyCTBN/PyCTBN/estimators/structure_constraint_based_estimator.py b/PyCTBN/PyCTBN/estimators/structure_constraint_based_estimator.py
index c0fef70..866d9ff 100644
--- a/PyCTBN/PyCTBN/estimators/structure_constraint_based_estimator.py
+++ b/PyCTBN/PyCTBN/estimators/structure_constraint_based_estimator.py
@@ -2,6 +2,7 @@
 # License: MIT License
 
 
+import copy
 import itertools
 import json
 import typing
@@ -195,9 +196,13 @@ class StructureConstraintBasedEstimator(StructureEstimator):
         :param var_id: the node label of the test child
         :type var_id: string
         """
+        'Work on private copies, so that nothing outlives this variable or leaks into another computation'
+        estimator = copy.copy(self)
+        estimator._cache = Cache()
+        estimator._removable_edges_matrix = self._removable_edges_matrix.copy()
         optimizer_obj = ConstraintBasedOptimizer(
                                                             node_id = var_id,
-                                                            structure_estimator = self,
+                                                            structure_estimator = estimator,
                                                             tot_vars_count = tot_vars_count)
         return optimizer_obj.optimize_structure()
 
-- 
2.43.0


From 37b091f86245377a6a3dafe7baa663b5335e7b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:40 +0000
Subject: [PATCH 08/21] fix: variables without edges were missing from the
 estimated graph

adjacency_matrix raised and the saved results lacked them. The graph is also
replaced in one step now, so an interruption cannot leave an empty one.
---
 .../estimators/structure_constraint_based_estimator.py      | 6 ++++--
 PyCTBN/PyCTBN/estimators/structure_score_based_estimator.py | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/PyCTBN/PyCTBN/estimators/structure_constraint_based_estimator.py b/PyCTBN/PyCTBN/estimators/structure_constraint_based_estimator.py
index 866d9ff..ae22871 100644
--- a/PyCTBN/PyCTBN/estimators/structure_constraint_based_estimator.py
+++ b/PyCTBN/PyCTBN/estimators/structure_constraint_based_estimator.py
@@ -248,8 +248,10 @@ class StructureConstraintBasedEstimator(StructureEstimator):
             
         'Update the graph'
         edges = set(itertools.chain.from_iterable(list_edges_partial))
-        self._complete_graph = nx.DiGraph()
-        self._complete_graph.add_edges_from(edges)
+        complete_graph = nx.DiGraph()
+        complete_graph.add_nodes_from(self._sample_path.structure.nodes_labels)
+        complete_graph.add_edges_from(edges)
+        self._complete_graph = complete_graph
 
         return edges
 
diff --git a/PyCTBN/PyCTBN/estimators/structure_score_based_estimator.py b/PyCTBN/PyCTBN/estimators/structure_score_based_estimator.py
index 70523ee..2a3c821 100644
--- a/PyCTBN/PyCTBN/estimators/structure_score_based_estimator.py
+++ b/PyCTBN/PyCTBN/estimators/structure_score_based_estimator.py
@@ -158,8 +158,10 @@ class StructureScoreBasedEstimator(StructureEstimator):
 
 
         'Update the graph'
-        self._complete_graph = nx.DiGraph()
-        self._complete_graph.add_edges_from(set_list_edges)
+        complete_graph = nx.DiGraph()
+        complete_graph.add_nodes_from(self._sample_path.structure.nodes_labels)
+        complete_graph.add_edges_from(set_list_edges)
+        self._complete_graph = complete_graph
 
         return set_list_edges
     
-- 
2.43.0


From e4f9d7b115f10a80abc87a5c34ac56a87df87547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:40 +0000
Subject: [PATCH 09/21] fix: score-based search could drop known edges, fail or
 hang

With max_parents a known parent could be swapped out. Without any candidate
parent left, or without room for one, hill climbing raised an IndexError and tabu
search waited forever on its empty queue.
---
 PyCTBN/PyCTBN/optimizers/hill_climbing_search.py | 7 ++++++-
 PyCTBN/PyCTBN/optimizers/tabu_search.py          | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/PyCTBN/PyCTBN/optimizers/hill_climbing_search.py b/PyCTBN/PyCTBN/optimizers/hill_climbing_search.py
index ede3db7..dd89aad 100644
--- a/PyCTBN/PyCTBN/optimizers/hill_climbing_search.py
+++ b/PyCTBN/PyCTBN/optimizers/hill_climbing_search.py
@@ -89,6 +89,10 @@ class HillClimbing(Optimizer):
                                                                                             node != self.node_id and
                                                                                             not prior_parents.__contains__(node)]
         
+        'nothing to search if every parent is known or the known ones already reach max_parents'
+        if not other_nodes or (self.max_parents is not None and len(prior_parents) >= self.max_parents):
+            return graph.edges
+
         actual_best_score = self.structure_estimator.get_score_from_graph(graph,self.node_id)
 
         patince_count = 0
@@ -107,7 +111,8 @@ class HillClimbing(Optimizer):
                 if self.max_parents is not None:
                     parents_list = graph.get_parents_by_id(self.node_id)
                     if len(parents_list) >= self.max_parents :
-                        parent_removed = (choice(parents_list), self.node_id)
+                        removable_parents = [parent for parent in parents_list if parent not in prior_parents]
+                        parent_removed = (choice(removable_parents), self.node_id)
                         graph.remove_edges([parent_removed])
                 graph.add_edges([current_edge])
                 added = True
diff --git a/PyCTBN/PyCTBN/optimizers/tabu_search.py b/PyCTBN/PyCTBN/optimizers/tabu_search.py
index ccd856e..5a3bce0 100644
--- a/PyCTBN/PyCTBN/optimizers/tabu_search.py
+++ b/PyCTBN/PyCTBN/optimizers/tabu_search.py
@@ -98,6 +98,10 @@ class TabuSearch(Optimizer):
                                                                                             node != self.node_id and
                                                                                             not prior_parents.__contains__(node)])
 
+        'nothing to search if every parent is known or the known ones already reach max_parents'
+        if not other_nodes or (self.max_parents is not None and len(prior_parents) >= self.max_parents):
+            return graph.edges
+
         'calculate the score for the node without parents'
         actual_best_score = self.structure_estimator.get_score_from_graph(graph,self.node_id)
 
@@ -139,7 +143,8 @@ class TabuSearch(Optimizer):
                 if self.max_parents is not None:
                     parents_list = graph.get_parents_by_id(self.node_id)
                     if len(parents_list) >= self.max_parents :
-                        parent_removed = (choice(parents_list), self.node_id)
+                        removable_parents = [parent for parent in parents_list if parent not in prior_parents]
+                        parent_removed = (choice(removable_parents), self.node_id)
                         graph.remove_edges([parent_removed])
                 graph.add_edges([current_edge])
                 added = True
-- 
2.43.0


From 136b0b936b4cfa4e626476d33389e24af3fa6822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:40 +0000
Subject: [PATCH 10/21] fix: tabu search with tabu_length 0 waited forever on
 its empty queue

---
 PyCTBN/PyCTBN/optimizers/tabu_search.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/PyCTBN/PyCTBN/optimizers/tabu_search.py b/PyCTBN/PyCTBN/optimizers/tabu_search.py
index 5a3bce0..2d08a7b 100644
--- a/PyCTBN/PyCTBN/optimizers/tabu_search.py
+++ b/PyCTBN/PyCTBN/optimizers/tabu_search.py
@@ -171,12 +171,12 @@ class TabuSearch(Optimizer):
                 patince_count += 1
                 
             
-            if tabu_queue.qsize() >= self.tabu_length:
-                    current_removed = tabu_queue.get()
-                    tabu_set.remove(current_removed)
             'Add the node on the tabu list'
             tabu_queue.put(current_new_parent)
             tabu_set.add(current_new_parent)
+            if tabu_queue.qsize() > self.tabu_length:
+                    current_removed = tabu_queue.get()
+                    tabu_set.remove(current_removed)
 
             tabu_count += 1
 
-- 
2.43.0


From 4bcc4bf918b3624fc154f321fa0c14be0b4a4082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:40 +0000
Subject: [PATCH 11/21] fix: spurious_edges reported nothing after an
 estimation

The estimation empties the edge list of the structure, so the prior net was
gone, and the difference was taken the wrong way round (missing edges).
---
 PyCTBN/PyCTBN/estimators/structure_estimator.py | 4 ++--
 PyCTBN/PyCTBN/structure_graph/sample_path.py    | 9 ++++++++-
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/PyCTBN/PyCTBN/estimators/structure_estimator.py b/PyCTBN/PyCTBN/estimators/structure_estimator.py
index 8840c85..aeca3b3 100644
--- a/PyCTBN/PyCTBN/estimators/structure_estimator.py
+++ b/PyCTBN/PyCTBN/estimators/structure_estimator.py
@@ -141,8 +141,8 @@ class StructureEstimator(object):
             return []
         real_graph = nx.DiGraph()
         real_graph.add_nodes_from(self._sample_path.structure.nodes_labels)
-        real_graph.add_edges_from(self._sample_path.structure.edges)
-        return nx.difference(real_graph, self._complete_graph).edges
+        real_graph.add_edges_from(self._sample_path.prior_edges)
+        return list(nx.difference(self._complete_graph, real_graph).edges)
 
     def save_plot_estimated_structure_graph(self, file_path: str) -> None:  
         """Plot the estimated structure in a graphical model style, use .png extension.
diff --git a/PyCTBN/PyCTBN/structure_graph/sample_path.py b/PyCTBN/PyCTBN/structure_graph/sample_path.py
index a924fe4..78267b9 100644
--- a/PyCTBN/PyCTBN/structure_graph/sample_path.py
+++ b/PyCTBN/PyCTBN/structure_graph/sample_path.py
@@ -41,6 +41,7 @@ class SamplePath(object):
                 raise RuntimeError(MESSAGE_HAS_TO_CONTAIN_EXCEPTION)
         self._trajectories = None
         self._structure = None
+        self._prior_edges = []
         self._total_variables_count = None
 
     def build_trajectories(self) -> None:
@@ -67,6 +68,7 @@ class SamplePath(object):
             edges = []
         else:
             edges = list(self._importer.structure.to_records(index=False))
+        self._prior_edges = edges[:]
         self._structure = Structure(labels, indxs, vals, edges,
                                        self._total_variables_count)
 
@@ -87,7 +89,12 @@ class SamplePath(object):
 
     @property
     def has_prior_net_structure(self) -> bool:
-        return bool(self._structure.edges)
+        return bool(self._prior_edges)
+
+    @property
+    def prior_edges(self) -> list:
+        """The edges of the prior net structure; unlike those in ``structure`` they outlive an estimation."""
+        return self._prior_edges
 
 
 
-- 
2.43.0


From b2df79e77c06280884025783c9b9d4895043d318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:40 +0000
Subject: [PATCH 12/21] fix: parent states above 9 were misread from an
 imported network

---
 PyCTBN/PyCTBN/structure_graph/trajectory_generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py b/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py
index 344a669..51eff89 100644
--- a/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py
+++ b/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py
@@ -50,7 +50,7 @@ class TrajectoryGenerator(object):
                 p_combs = []
                 v_cims = []
                 for comb in sampled_cims[v].keys():
-                    p_combs.append(np.array(re.findall(r"=(\d)", comb)).astype("int"))
+                    p_combs.append(np.array(re.findall(r"=(\d+)", comb)).astype("int"))
                     cim = pd.DataFrame(sampled_cims[v][comb]).to_numpy()    
                     v_cims.append(ConditionalIntensityMatrix(cim = cim))
 
-- 
2.43.0


From abab4f1ff10caf407ec4d301549936a75c67e874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:40 +0000
Subject: [PATCH 13/21] fix: TrajectoryGenerator could not be built from an
 imported network without edges

---
 PyCTBN/PyCTBN/structure_graph/trajectory_generator.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py b/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py
index 51eff89..280a25f 100644
--- a/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py
+++ b/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py
@@ -36,9 +36,12 @@ class TrajectoryGenerator(object):
         self._vnames = self._importer._df_variables.iloc[:, 0].to_list() if importer is not None else variables.iloc[:, 0].to_list()
  
         self._parents = {}
+        if importer is not None:
+            # A network without edges is imported as a frame without columns
+            imported_str = pd.DataFrame(self._importer._df_structure, columns = ["From", "To"])
         for v in self._vnames:
             if importer is not None:
-                self._parents[v] = self._importer._df_structure.where(self._importer._df_structure["To"] == v).dropna()["From"].tolist()
+                self._parents[v] = imported_str.where(imported_str["To"] == v).dropna()["From"].tolist()
             else:
                 self._parents[v] = dyn_str.where(dyn_str["To"] == v).dropna()["From"].tolist()
         
-- 
2.43.0


From 5e69c94f97b9d92312c899441830fac14df30dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:40 +0000
Subject: [PATCH 14/21] fix: importing lost intervals when row labels are
 repeated

Dropping the last row by label dropped every row carrying that label.
---
 PyCTBN/PyCTBN/utility/abstract_importer.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/PyCTBN/PyCTBN/utility/abstract_importer.py b/PyCTBN/PyCTBN/utility/abstract_importer.py
index 9328a65..47ded64 100644
--- a/PyCTBN/PyCTBN/utility/abstract_importer.py
+++ b/PyCTBN/PyCTBN/utility/abstract_importer.py
@@ -85,8 +85,7 @@ class AbstractImporter(ABC):
         shifted_cols = sample_frame[columns_header].shift(-1).fillna(0).astype('int32')
         shifted_cols.columns = shifted_cols_header
         sample_frame = sample_frame.assign(**shifted_cols)
-        sample_frame.drop(sample_frame.tail(1).index, inplace=True)
-        return sample_frame
+        return sample_frame.iloc[:-1]
 
     def compute_row_delta_in_all_samples_frames(self, df_samples_list: typing.List) -> None:
         """Calls the method ``compute_row_delta_sigle_samples_frame`` on every dataframe present in the list
-- 
2.43.0


From 63e5ce4b9a8e33295ac52944e11eb9e17cdb671c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:05 +0000
Subject: [PATCH 15/21] fix: importing failed unless the time column was named
 Time

---
 PyCTBN/PyCTBN/utility/abstract_importer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyCTBN/PyCTBN/utility/abstract_importer.py b/PyCTBN/PyCTBN/utility/abstract_importer.py
index 47ded64..aec5f67 100644
--- a/PyCTBN/PyCTBN/utility/abstract_importer.py
+++ b/PyCTBN/PyCTBN/utility/abstract_importer.py
@@ -112,7 +112,7 @@ class AbstractImporter(ABC):
         self._concatenated_samples = pd.concat(proc_samples_list)
 
         complete_header = self._sorter[:]
-        complete_header.insert(0,'Time')
+        complete_header.insert(0, df_samples_list[0].columns[0])
         complete_header.extend(shifted_cols_header)
         self._concatenated_samples = self._concatenated_samples[complete_header]
 
-- 
2.43.0


From 0004405a67539494b3188bcc18fe7e5f21ac7bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:05 +0000
Subject: [PATCH 16/21] fix: importing corrupted variables whose name is
 another one's plus S

The column holding the next state of X took the place of the variable XS.
---
 PyCTBN/PyCTBN/utility/abstract_importer.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/PyCTBN/PyCTBN/utility/abstract_importer.py b/PyCTBN/PyCTBN/utility/abstract_importer.py
index aec5f67..e764287 100644
--- a/PyCTBN/PyCTBN/utility/abstract_importer.py
+++ b/PyCTBN/PyCTBN/utility/abstract_importer.py
@@ -105,7 +105,10 @@ class AbstractImporter(ABC):
         """
         if not self._sorter:
             raise RuntimeError("The class member self._sorter has to be INITIALIZED!")
-        shifted_cols_header = [s + "S" for s in self._sorter]
+        suffix = "S"
+        while any(s + suffix in df_samples_list[0].columns for s in self._sorter):
+            suffix += "S"
+        shifted_cols_header = [s + suffix for s in self._sorter]
         compute_row_delta = self.compute_row_delta_sigle_samples_frame
         proc_samples_list = [compute_row_delta(sample, self._sorter, shifted_cols_header)
                                 for sample in df_samples_list]
-- 
2.43.0


From e75e526f1bae3d6e58e6cf81f80b61082b7c16ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:05 +0000
Subject: [PATCH 17/21] fix: valid fixed densities were rejected because of
 float rounding

0.7 with 6 variables asks for 21 edges; integer densities raised a TypeError.
---
 PyCTBN/PyCTBN/structure_graph/network_generator.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/PyCTBN/PyCTBN/structure_graph/network_generator.py b/PyCTBN/PyCTBN/structure_graph/network_generator.py
index d10ba9e..2dd6858 100644
--- a/PyCTBN/PyCTBN/structure_graph/network_generator.py
+++ b/PyCTBN/PyCTBN/structure_graph/network_generator.py
@@ -41,10 +41,11 @@ class NetworkGenerator(object):
         
         if fixed:
             n_edges = density * len(self._labels) * (len(self._labels) - 1)
-            if not float.is_integer(n_edges):
+            # The product may be off by the rounding of density, e.g. 0.7 * 6 * 5 == 20.999999999999996
+            if abs(n_edges - round(n_edges)) > 1e-9:
                 raise RuntimeError("Invalid Density")
             else:
-                n_edges = int(n_edges)
+                n_edges = round(n_edges)
             edges = [(i, j) for i in self._labels for j in self._labels if i != j]
             random.shuffle(edges)
             edges = edges[:n_edges]
-- 
2.43.0


From a2c66f691c1af4be53866f1badd2477e122b7467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:06 +0000
Subject: [PATCH 18/21] fix: statistics were wrong for variables of different
 cardinality

The position of a (state, parents) combination is weighted by the product of the
cardinalities before it; dividing the cumulative products by the first one gives
that only if all cardinalities are equal.
---
 PyCTBN/PyCTBN/estimators/parameters_estimator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/PyCTBN/PyCTBN/estimators/parameters_estimator.py b/PyCTBN/PyCTBN/estimators/parameters_estimator.py
index a01d549..b8ec07f 100644
--- a/PyCTBN/PyCTBN/estimators/parameters_estimator.py
+++ b/PyCTBN/PyCTBN/estimators/parameters_estimator.py
@@ -81,7 +81,7 @@ class ParametersEstimator(object):
         :param T: the state residence times vectors
         :type T: numpy.ndArray
         """
-        T[:] = np.bincount(np.sum(trajectory[:, cols_filter] * scalar_indexes_struct / scalar_indexes_struct[0], axis=1)
+        T[:] = np.bincount(np.sum(trajectory[:, cols_filter] * np.append(1, scalar_indexes_struct[:-1]), axis=1)
                            .astype(np.int), \
                            times,
                            minlength=scalar_indexes_struct[-1]).reshape(-1, T.shape[1])
@@ -105,7 +105,7 @@ class ParametersEstimator(object):
         diag_indices = np.array([x * M.shape[1] + x % M.shape[1] for x in range(M.shape[0] * M.shape[1])],
                                 dtype=np.int64)
         trj_tmp = trajectory[trajectory[:, int(trajectory.shape[1] / 2) + node_indx].astype(np.int) >= 0]
-        M[:] = np.bincount(np.sum(trj_tmp[:, cols_filter] * scalar_indexing / scalar_indexing[0], axis=1).astype(np.int)
+        M[:] = np.bincount(np.sum(trj_tmp[:, cols_filter] * np.append(1, scalar_indexing[:-1]), axis=1).astype(np.int)
                            , minlength=scalar_indexing[-1]).reshape(-1, M.shape[1], M.shape[2])
         M_raveled = M.ravel()
         M_raveled[diag_indices] = 0
-- 
2.43.0


From 1a08d2eaca6ab7714a50ac0286ae70a1d60b3f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:18 +0000
Subject: [PATCH 19/21] fix: learning a structure erased the dataset's own
 edges

---
 .../estimators/structure_constraint_based_estimator.py       | 3 ---
 PyCTBN/PyCTBN/estimators/structure_score_based_estimator.py  | 3 ---
 PyCTBN/PyCTBN/optimizers/hill_climbing_search.py             | 5 ++++-
 PyCTBN/PyCTBN/optimizers/tabu_search.py                      | 5 ++++-
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/PyCTBN/PyCTBN/estimators/structure_constraint_based_estimator.py b/PyCTBN/PyCTBN/estimators/structure_constraint_based_estimator.py
index ae22871..75f7bdf 100644
--- a/PyCTBN/PyCTBN/estimators/structure_constraint_based_estimator.py
+++ b/PyCTBN/PyCTBN/estimators/structure_constraint_based_estimator.py
@@ -226,9 +226,6 @@ class StructureConstraintBasedEstimator(StructureEstimator):
         'get the number of CPU'
         cpu_count = multiprocessing.cpu_count()
 
-        'Remove all the edges from the structure'   
-        self._sample_path.structure.clean_structure_edges()
-
         'Estimate the best parents for each node'
         #with multiprocessing.Pool(processes=cpu_count) as pool:
         #with get_context("spawn").Pool(processes=cpu_count) as pool:
diff --git a/PyCTBN/PyCTBN/estimators/structure_score_based_estimator.py b/PyCTBN/PyCTBN/estimators/structure_score_based_estimator.py
index 2a3c821..26db4b3 100644
--- a/PyCTBN/PyCTBN/estimators/structure_score_based_estimator.py
+++ b/PyCTBN/PyCTBN/estimators/structure_score_based_estimator.py
@@ -83,9 +83,6 @@ class StructureScoreBasedEstimator(StructureEstimator):
         true_edges = copy.deepcopy(self._sample_path.structure.edges)
         true_edges = set(map(tuple, true_edges))
 
-        'Remove all the edges from the structure'   
-        self._sample_path.structure.clean_structure_edges()
-
         estimate_parents = self.estimate_parents
 
         n_nodes= len(self._nodes)
diff --git a/PyCTBN/PyCTBN/optimizers/hill_climbing_search.py b/PyCTBN/PyCTBN/optimizers/hill_climbing_search.py
index dd89aad..2d93f5e 100644
--- a/PyCTBN/PyCTBN/optimizers/hill_climbing_search.py
+++ b/PyCTBN/PyCTBN/optimizers/hill_climbing_search.py
@@ -17,6 +17,7 @@ from abc import ABC
 from .optimizer import Optimizer
 from ..estimators.structure_estimator import StructureEstimator
 from ..structure_graph.network_graph import NetworkGraph
+from ..structure_graph.structure import Structure
 
 
 class HillClimbing(Optimizer):
@@ -64,7 +65,9 @@ class HillClimbing(Optimizer):
         """
 
         #'Create the graph for the single node'
-        graph = NetworkGraph(self.structure_estimator._sample_path.structure)
+        structure = self.structure_estimator._sample_path.structure
+        graph = NetworkGraph(Structure(structure.nodes_labels, structure.nodes_indexes, structure.nodes_values, [],
+                                        structure.total_variables_number))
 
         'get the index for the current node'
         node_index = self.structure_estimator._sample_path._structure.get_node_indx(self.node_id)
diff --git a/PyCTBN/PyCTBN/optimizers/tabu_search.py b/PyCTBN/PyCTBN/optimizers/tabu_search.py
index 2d08a7b..559b7c6 100644
--- a/PyCTBN/PyCTBN/optimizers/tabu_search.py
+++ b/PyCTBN/PyCTBN/optimizers/tabu_search.py
@@ -17,6 +17,7 @@ from abc import ABC
 from .optimizer import Optimizer
 from ..estimators.structure_estimator import StructureEstimator
 from ..structure_graph.network_graph import NetworkGraph
+from ..structure_graph.structure import Structure
 
 import queue
 
@@ -73,7 +74,9 @@ class TabuSearch(Optimizer):
         print(f"tabu search is processing the structure of {self.node_id}")
 
         'Create the graph for the single node'
-        graph = NetworkGraph(self.structure_estimator._sample_path.structure)
+        structure = self.structure_estimator._sample_path.structure
+        graph = NetworkGraph(Structure(structure.nodes_labels, structure.nodes_indexes, structure.nodes_values, [],
+                                        structure.total_variables_number))
 
         'get the index for the current node'
         node_index = self.structure_estimator._sample_path._structure.get_node_indx(self.node_id)
-- 
2.43.0


From 6a6f5da361b22b39ce8c78f9f47ba6f03f8433ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:50 +0000
Subject: [PATCH 20/21] fix: labels containing text like =1 were misread from
 an imported network

---
 PyCTBN/PyCTBN/structure_graph/trajectory_generator.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py b/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py
index 280a25f..2455409 100644
--- a/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py
+++ b/PyCTBN/PyCTBN/structure_graph/trajectory_generator.py
@@ -52,8 +52,11 @@ class TrajectoryGenerator(object):
             for v in sampled_cims.keys():
                 p_combs = []
                 v_cims = []
+                # The labels may themselves contain text of the form "=1"
+                labels = ",".join(re.escape(str(p)) + r"=(\d+)" for p in self._parents[v]) or re.escape(str(v))
                 for comb in sampled_cims[v].keys():
-                    p_combs.append(np.array(re.findall(r"=(\d+)", comb)).astype("int"))
+                    match = re.fullmatch(labels, comb)
+                    p_combs.append(np.array(match.groups() if match else re.findall(r"=(\d+)", comb)).astype("int"))
                     cim = pd.DataFrame(sampled_cims[v][comb]).to_numpy()    
                     v_cims.append(ConditionalIntensityMatrix(cim = cim))
 
-- 
2.43.0


From 7b7509a40b343460fd24c0985b3f178fc2301fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:48:50 +0000
Subject: [PATCH 21/21] fix: a transition that never occurs switched the
 chi-square test off

---
 .../PyCTBN/estimators/structure_constraint_based_estimator.py  | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/PyCTBN/PyCTBN/estimators/structure_constraint_based_estimator.py b/PyCTBN/PyCTBN/estimators/structure_constraint_based_estimator.py
index 75f7bdf..b07c9a0 100644
--- a/PyCTBN/PyCTBN/estimators/structure_constraint_based_estimator.py
+++ b/PyCTBN/PyCTBN/estimators/structure_constraint_based_estimator.py
@@ -166,7 +166,8 @@ class StructureConstraintBasedEstimator(StructureEstimator):
         Ks = np.sqrt(r1s / r2s)
         Ls = np.sqrt(r2s / r1s)
         for val in range(0, child_states_numb):
-            Chi = np.sum(np.power(Ks[val] * M2_no_diag[val] - Ls[val] *M1_no_diag[val], 2) /
+            # A transition that never occurs (0 / 0) tells nothing about the others
+            Chi = np.nansum(np.power(Ks[val] * M2_no_diag[val] - Ls[val] *M1_no_diag[val], 2) /
                          (M1_no_diag[val] + M2_no_diag[val]))
             if Chi > chi_2_quantile:
                 return False
-- 
2.43.0

