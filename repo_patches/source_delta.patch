From 66da36e30cdc60de616e2cd5ceeb8eb5ea53817a Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 21:57:56 +0000
Subject: [PATCH 01/14] fix: find_heuristic_1pc crashed on graphs with edges
 outside the pure children's cliques

The uncovered edges are rows of np.argwhere(), which cannot be put in a
set, so e.g. a cycle on four vertices raised TypeError.
---
 medil/ecc_algorithms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/medil/ecc_algorithms.py b/medil/ecc_algorithms.py
index 22af0c0..8f78042 100644
--- a/medil/ecc_algorithms.py
+++ b/medil/ecc_algorithms.py
@@ -246,7 +246,7 @@ def find_heuristic_1pc(graph):
 
     uncovered_edges = deque(
         {
-            edge
+            tuple(edge)
             for edge in np.argwhere(np.triu(graph, 1))
             if not np.logical_and(the_cover[:, edge[0]], the_cover[:, edge[1]]).any()
         }
-- 
2.43.0


From 5e39d3f610d655d495fcaca14059828c39fde609 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 21:58:28 +0000
Subject: [PATCH 02/14] fix: covers reconstructed after reduction rule 3 were
 not edge clique covers

- a cover completed by the reductions was returned without adding the
  reduced away vertices back;
- the vertices were added back in index order, instead of last one first,
  to cliques chosen before they were reduced away, and the record of them
  was shared between the branches of the search;
- exits, prisoners, and the cliques to branch on were computed in the graph
  without the covered edges, and the rule was applied when a prisoner's or
  an exit's edges were all covered already.
---
 medil/ecc_algorithms.py |  5 ++--
 medil/graph.py          | 52 +++++++++++++++++++++++++----------------
 2 files changed, 34 insertions(+), 23 deletions(-)

diff --git a/medil/ecc_algorithms.py b/medil/ecc_algorithms.py
index 8f78042..dbab756 100644
--- a/medil/ecc_algorithms.py
+++ b/medil/ecc_algorithms.py
@@ -116,9 +116,8 @@ def branch(graph, k_num_cliques, the_cover, iteration, iteration_max):
         return None
 
     if branch_graph.num_edges == 0:  # equiv to len(branch_graph.extant_edges_idx)==0
-        return (
-            branch_graph.the_cover
-        )  # not in paper, but speeds it up slightly; or rather return None?
+        # not in paper, but speeds it up slightly; or rather return None?
+        return branch_graph.reconstruct_cover(branch_graph.the_cover)
 
     chosen_nbrhood = branch_graph.choose_nbrhood()
     # print("num cliques: {}".format(len([x for x in max_cliques(chosen_nbrhood)])))
diff --git a/medil/graph.py b/medil/graph.py
index 42a31e4..8b05a1e 100644
--- a/medil/graph.py
+++ b/medil/graph.py
@@ -162,7 +162,8 @@ class ReducibleUndDepGraph(UndirectedDependenceGraph):
         self.get_edge = udg.get_edge
 
         if hasattr(udg, "reduced_away"):  # then rule_3 wasn't applied
-            self.reduced_away = udg.reduced_away
+            self.reduced_away = udg.reduced_away.copy()
+            self.reduced_order = udg.reduced_order.copy()
 
     def reset(self):
         self.__init__(self.unreduced)
@@ -273,22 +274,26 @@ class ReducibleUndDepGraph(UndirectedDependenceGraph):
         # a solution for the unreduced instance, add v to every clique
         # containing a prisoner of v.
 
-        for vert, nbrhood in enumerate(self.adj_matrix):
+        graph = self.reduced_graph()
+        for vert, nbrhood in enumerate(graph):
             if nbrhood[vert] == 0:  # then nbrhood is empty
                 continue
             exits = np.zeros(self.unreduced.max_num_verts, bool)
             nbrs = np.flatnonzero(nbrhood)
             for nbr in nbrs:
-                if (nbrhood.astype(int) - self.adj_matrix[nbr].astype(int) == -1).any():
+                if (nbrhood.astype(int) - graph[nbr].astype(int) == -1).any():
                     exits[nbr] = True
             # exits[j] == True iff j is an exit for vert
             # prisoners[j] == True iff j is a prisoner of vert
-            prisoners = np.logical_and(~exits, self.adj_matrix[vert])
+            prisoners = np.logical_and(~exits, graph[vert])
             prisoners[vert] = False  # a vert isn't its own prisoner
 
-            # check if each exit is adjacent to at least one prisoner
-            prisoners_dominate_exits = self.adj_matrix[prisoners][:, exits].sum(0)
-            if prisoners_dominate_exits.all():  # apply the rule
+            # check if each exit is adjacent to at least one prisoner, and
+            # each prisoner to a vert other than this one, by an uncovered edge
+            uncovered = self.adj_matrix[prisoners]
+            prisoners_dominate_exits = uncovered[:, exits].sum(0)
+            uncovered[:, vert] = 0
+            if prisoners_dominate_exits.all() and (uncovered.sum(1) > 1).all():
                 self.reducing = True
                 if self.verbose:
                     print("\t\t\tapplying Rule 3...")
@@ -297,7 +302,7 @@ class ReducibleUndDepGraph(UndirectedDependenceGraph):
                 edges = np.array(
                     [
                         [vert, u]
-                        for u in np.flatnonzero(self.adj_matrix[vert])
+                        for u in np.flatnonzero(graph[vert])
                         if vert != u
                     ]
                 )
@@ -307,9 +312,20 @@ class ReducibleUndDepGraph(UndirectedDependenceGraph):
                 # keep track of deleted nodes and their prisoners for reconstructing solution
                 if not hasattr(self, "reduced_away"):
                     self.reduced_away = np.zeros_like(self.adj_matrix, bool)
+                    self.reduced_order = []
                 self.reduced_away[vert] = prisoners
+                num_cliques = 0 if self.the_cover is None else len(self.the_cover)
+                self.reduced_order.append((vert, num_cliques))
                 break
 
+    def reduced_graph(self):
+        # unlike self.adj_matrix, this also contains the covered edges
+        removed = self.adj_matrix.diagonal() == 0
+        graph = self.unreduced.adj_matrix.copy()
+        graph[removed, :] = 0
+        graph[:, removed] = 0
+        return graph
+
     def choose_nbrhood(self):
         # only compute for existing edges
         common_neighbors = self.common_neighbors[self.extant_edges_idx]
@@ -321,7 +337,7 @@ class ReducibleUndDepGraph(UndirectedDependenceGraph):
 
         mask = common_neighbors[chosen_edge_idx].astype(bool)
 
-        chosen_nbrhood = self.adj_matrix.copy()
+        chosen_nbrhood = self.reduced_graph()
         chosen_nbrhood[~mask, :] = 0
         chosen_nbrhood[:, ~mask] = 0
         if chosen_nbrhood.sum() <= mask.sum():
@@ -381,17 +397,13 @@ class ReducibleUndDepGraph(UndirectedDependenceGraph):
         if not hasattr(self, "reduced_away"):  # then rule_3 wasn't applied
             return the_cover
 
-        # add the reduced away vert to all covering cliques containing at least one of its prisoners
-        to_expand = np.flatnonzero(self.reduced_away.sum(1))
-        for vert in to_expand:
-            prisoners = self.reduced_away[vert]
-            tiled_prisoners = np.tile(
-                prisoners, (len(the_cover), 1)
-            )  # instead of another loop
-            cliques_to_update_mask = (
-                np.logical_and(tiled_prisoners, the_cover).sum(1).astype(bool)
-            )
-            the_cover[cliques_to_update_mask, vert] = 1
+        # undo the reductions, last one first, by adding the reduced away
+        # vert to all cliques of the cover of the reduced graph (i.e., cliques
+        # chosen after reducing) containing at least one of its prisoners
+        for vert, num_cliques in reversed(self.reduced_order):
+            cliques = the_cover[num_cliques:]
+            has_prisoner = cliques[:, self.reduced_away[vert]].any(1)
+            cliques[has_prisoner, vert] = 1
 
         return the_cover
 
-- 
2.43.0


From dfb47ea1fb68a2a88ae1ca629d43239b79c642f3 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 21:58:28 +0000
Subject: [PATCH 03/14] fix: find_clique_min_cover returned partial covers when
 reaching its depth limit

The cover chosen so far was returned as if it were complete, leaving edges
of the graph uncovered (e.g. for 147 of the graphs on six vertices).
---
 medil/ecc_algorithms.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/medil/ecc_algorithms.py b/medil/ecc_algorithms.py
index dbab756..841a7f5 100644
--- a/medil/ecc_algorithms.py
+++ b/medil/ecc_algorithms.py
@@ -119,6 +119,11 @@ def branch(graph, k_num_cliques, the_cover, iteration, iteration_max):
         # not in paper, but speeds it up slightly; or rather return None?
         return branch_graph.reconstruct_cover(branch_graph.the_cover)
 
+    if iteration > iteration_max:
+        # stop searching for a minimum cover, and complete the partial
+        # cover greedily: one clique per uncovered edge always suffices
+        k_num_cliques = branch_graph.num_edges
+
     chosen_nbrhood = branch_graph.choose_nbrhood()
     # print("num cliques: {}".format(len([x for x in max_cliques(chosen_nbrhood)])))
     for clique_nodes in max_cliques(chosen_nbrhood):
@@ -132,10 +137,6 @@ def branch(graph, k_num_cliques, the_cover, iteration, iteration_max):
             else np.vstack((branch_graph.the_cover, clique))
         )
 
-        # print(iteration)
-        if iteration > iteration_max:
-            return branch_graph.the_cover
-
         the_cover_prime = branch(
             branch_graph,
             k_num_cliques - 1,
-- 
2.43.0


From ad808ac9e87fb929c3629680eab45d35dd8d3b49 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 21:58:29 +0000
Subject: [PATCH 04/14] fix: GaussianMCM's estimated UDG depended on the units
 of the data

The BIC comparison needs one minus the squared correlation, not one minus
the product of covariance and correlation.
---
 medil/models.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/medil/models.py b/medil/models.py
index 1fdb927..9a16aaa 100644
--- a/medil/models.py
+++ b/medil/models.py
@@ -118,9 +118,8 @@ class GaussianMCM(MedilCausalModel):
     def _estimate_udg(self):
         """Constraint-based structure learning."""
         samp_size = len(self.dataset)
-        cov = np.cov(self.dataset, rowvar=False)
         corr = np.corrcoef(self.dataset, rowvar=False)
-        inner_numerator = 1 - cov * corr  # should never be <= 0?
+        inner_numerator = 1 - corr**2  # should never be <= 0?
         inner_numerator = inner_numerator.clip(min=0.00001)
         inner_numerator[np.tril_indices_from(inner_numerator)] = 1
         udg_triu = np.log(inner_numerator) < (-np.log(samp_size) / samp_size)
-- 
2.43.0


From 8fd854e1f13f487424ebddcacf2d9c2b94d3c2f5 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 21:58:29 +0000
Subject: [PATCH 05/14] fix: sample.mcm ignored the given generator when
 drawing the graph

The same seed gave different models, depending on the draws made before.
---
 medil/sample.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/medil/sample.py b/medil/sample.py
index f3f41f3..c27c8c4 100644
--- a/medil/sample.py
+++ b/medil/sample.py
@@ -14,7 +14,7 @@ def mcm(
     **kwargs,
 ) -> GaussianMCM:
     if biadj.size == 0:
-        biadj = _biadj(**kwargs)
+        biadj = _biadj(rng=rng, **kwargs)
     if parameterization == "Gaussian":
         mcm = GaussianMCM(biadj=biadj)
         params = mcm.parameters
-- 
2.43.0


From bd148ea5ae6cbfc053f55177e859bc6f2a324e25 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 21:58:29 +0000
Subject: [PATCH 06/14] fix: NCFA trained in evaluation mode after the first
 epoch

_valid_vae() sets evaluation mode, so the latents were no longer sampled.
---
 medil/models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/medil/models.py b/medil/models.py
index 9a16aaa..ab55f69 100644
--- a/medil/models.py
+++ b/medil/models.py
@@ -272,12 +272,12 @@ class NeuroCausalFactorAnalysis(MedilCausalModel):
         self.log(f"Number of parameters: {num_params}")
 
         # training loop
-        model.train()
         train_elbo, train_error = [], []
         valid_elbo, valid_error = [], []
 
         for idx in range(self.hyperparams["num_epochs"]):
             self.log(f"Training on epoch {idx}...")
+            model.train()  # validation leaves the model in evaluation mode
             train_lb, train_er, nbatch = 0.0, 0.0, 0
 
             for x_batch, _ in train_loader:
-- 
2.43.0


From 7d4415f57318111628146e37f050a136367e6e06 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 21:58:29 +0000
Subject: [PATCH 07/14] fix: NCFA wrote training.log outside of its directory

when the path was given without a trailing slash.
---
 medil/models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/medil/models.py b/medil/models.py
index ab55f69..e568ecf 100644
--- a/medil/models.py
+++ b/medil/models.py
@@ -179,7 +179,7 @@ class NeuroCausalFactorAnalysis(MedilCausalModel):
 
     def log(self, entry: str) -> None:
         time_stamped_entry = f"{datetime.now().strftime('%Y-%m-%d %H:%M:%S')} {entry}"
-        with open(f"{self.path}training.log", "a") as log_file:
+        with open(os.path.join(self.path, "training.log"), "a") as log_file:
             log_file.write(time_stamped_entry + "\n")
         if self.verbose:
             print(time_stamped_entry)
-- 
2.43.0


From 54b6503904356ea39e25bf2b8fa2a7dcadbca3f8 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 21:58:29 +0000
Subject: [PATCH 08/14] fix: NCFA.fit skipped standardizing when given explicit
 split indices

---
 medil/models.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/medil/models.py b/medil/models.py
index e568ecf..1283d39 100644
--- a/medil/models.py
+++ b/medil/models.py
@@ -195,8 +195,8 @@ class NeuroCausalFactorAnalysis(MedilCausalModel):
                 standardized, train_size=0.7, random_state=self.seed
             )
         else:
-            train_split = dataset[split_idcs[0]]
-            valid_split = dataset[split_idcs[1]]
+            train_split = standardized[split_idcs[0]]
+            valid_split = standardized[split_idcs[1]]
 
         train_loader = self._data_loader(train_split)
         valid_loader = self._data_loader(valid_split)
-- 
2.43.0


From d38218c9229d90c350f80d4b13cf0e12e5a5760c Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 21:58:29 +0000
Subject: [PATCH 09/14] fix: DevMedil.sample refused fitted models

The estimates it samples from were never stored.
---
 medil/models.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/medil/models.py b/medil/models.py
index 1283d39..1a5a776 100644
--- a/medil/models.py
+++ b/medil/models.py
@@ -518,6 +518,7 @@ class DevMedil(MedilCausalModel):
         self.result = result
         self.W_hat = result.x[: num_latent * num_meas].reshape(num_latent, num_meas)
         self.D_hat = np.diag(result.x[num_latent * num_meas :])
+        self.W_hat_mle, self.D_hat_mle = self.W_hat, self.D_hat
         self.convergence_success_mle = result.success
         self.convergence_message_mle = result.message
 
@@ -572,6 +573,7 @@ class DevMedil(MedilCausalModel):
         self.result = result
         self.W_hat = result.x[: num_latent * num_meas].reshape(num_latent, num_meas)
         self.D_hat = np.diag(np.abs(result.x[num_latent * num_meas :]))
+        self.W_hat_lse, self.D_hat_lse = self.W_hat, self.D_hat
         self.convergence_success_lse = result.success
         self.convergence_message_lse = result.message
 
-- 
2.43.0


From d8ded5ed3bedc6e342dc9134599348c50b90628f Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 21:58:29 +0000
Subject: [PATCH 10/14] fix: dcov dropped the diagonal and half of the rest of
 the distance matrices

Doubly centered distance matrices have a nonzero diagonal, so the result
was not the sample distance covariance (it could be negative).
---
 medil/independence_testing.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/medil/independence_testing.py b/medil/independence_testing.py
index dd9f1ac..b81799f 100644
--- a/medil/independence_testing.py
+++ b/medil/independence_testing.py
@@ -25,8 +25,7 @@ def dcov(samples):
         :math:`R_j`.
     """
     num_samps, num_feats = samples.shape
-    num_pairs = num_samps * (num_samps - 1) // 2
-    dists = np.zeros((num_feats, num_pairs))
+    dists = np.zeros((num_feats, num_samps**2))
     d_bars = np.zeros(num_feats)
     # compute doubly centered distance matrix for every feature:
     for feat_idx in range(num_feats):
@@ -37,8 +36,7 @@ def dcov(samples):
         # doubly centered:
         d_bar = d.mean()
         d -= t(d.mean(0), (n, 1)) + t(d.mean(1), (n, 1)).T - t(d_bar, (n, n))
-        d = squareform(d, checks=False)  # ignore assymmetry due to numerical error
-        dists[feat_idx] = d
+        dists[feat_idx] = d.ravel()
         d_bars[feat_idx] = d_bar
     return dists @ dists.T / num_samps**2, d_bars
 
-- 
2.43.0


From bd56fdc0354f8bd118118f40d71f09b987f1a957 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 21:58:48 +0000
Subject: [PATCH 11/14] fix: the decoder's hidden layers were never trained

Modules kept in a plain dict are not registered, so their parameters were
missing from the optimizer and the state dict.
---
 medil/vae.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/medil/vae.py b/medil/vae.py
index ba9677d..b4e20ff 100644
--- a/medil/vae.py
+++ b/medil/vae.py
@@ -94,22 +94,22 @@ class Decoder(Block):
         hidden_blocks = [hidden_block for _ in range(num_meas)]
         hidden_mask = torch.block_diag(*hidden_blocks)
 
-        self.mean_linear_hidden = {
-            layer_idx: SparseLinear(
+        self.mean_linear_hidden = nn.ModuleList(
+            SparseLinear(
                 in_features=self.hidden_dim,
                 out_features=self.hidden_dim,
                 mask=hidden_mask,
             )
-            for layer_idx in range(num_hidden_layers)
-        }
-        self.cov_linear_hidden = {
-            layer_idx: SparseLinear(
+            for _ in range(num_hidden_layers)
+        )
+        self.cov_linear_hidden = nn.ModuleList(
+            SparseLinear(
                 in_features=self.hidden_dim,
                 out_features=self.hidden_dim,
                 mask=hidden_mask,
             )
-            for layer_idx in range(num_hidden_layers)
-        }
+            for _ in range(num_hidden_layers)
+        )
 
         output_block = torch.ones(1, width_per_meas)
         output_blocks = [output_block for _ in range(num_meas)]
@@ -131,14 +131,14 @@ class Decoder(Block):
         # new arch
         mean = self.mean_linear_fulcon(z)
         mean = self.activation(mean)
-        for hidden_layer in self.mean_linear_hidden.values():
+        for hidden_layer in self.mean_linear_hidden:
             mean = hidden_layer(mean)
             mean = self.activation(mean)
         mean = self.mean_linear_output(mean)
 
         logcov = self.cov_linear_fulcon(z)
         logcov = self.activation(logcov)
-        for hidden_layer in self.cov_linear_hidden.values():
+        for hidden_layer in self.cov_linear_hidden:
             logcov = hidden_layer(logcov)
             logcov = self.activation(logcov)
         logcov = self.cov_linear_output(logcov)
-- 
2.43.0


From fb6f7ff801deff7f0263f807f8fa1cc7214760c1 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 21:59:23 +0000
Subject: [PATCH 12/14] fix: NCFA's loss used the determinant in place of the
 log-determinant

of the covariance in the Gaussian log-likelihood.
---
 medil/models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/medil/models.py b/medil/models.py
index 1a5a776..97c8346 100644
--- a/medil/models.py
+++ b/medil/models.py
@@ -395,7 +395,7 @@ class NeuroCausalFactorAnalysis(MedilCausalModel):
 
         diff = x - x_recon
         recon_loss = torch.sum(
-            torch.det(cov)
+            torch.logdet(cov)
             + torch.diagonal(
                 torch.mm(
                     torch.mm(diff, torch.inverse(cov)), torch.transpose(diff, 0, 1)
-- 
2.43.0


From 6a1346b8a5513fee67aa3007816dcd07830c46b6 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 22:17:49 +0000
Subject: [PATCH 13/14] fix: the clique cover search accepted covers beyond its
 size bound

branch() tested whether everything is covered before testing whether the
allowed number of cliques is used up, so it could return a cover with
one clique more than it was asked for.
---
 medil/ecc_algorithms.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/medil/ecc_algorithms.py b/medil/ecc_algorithms.py
index 841a7f5..4efe470 100644
--- a/medil/ecc_algorithms.py
+++ b/medil/ecc_algorithms.py
@@ -104,6 +104,9 @@ def branch(graph, k_num_cliques, the_cover, iteration, iteration_max):
     branch_graph.the_cover = the_cover
     branch_graph.cover_edges()
 
+    if k_num_cliques < 0:  # then the_cover has too many cliques already
+        return None
+
     if branch_graph.num_edges == 0:
         return branch_graph.reconstruct_cover(the_cover)
 
-- 
2.43.0


From 2e7442f833c226f896edcd4569d25262b19877f8 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 22:34:23 +0000
Subject: [PATCH 14/14] fix: DevMedil estimated negative error variances

The objectives let the error variances become negative, and the LSE
estimate then took their absolute values, which do not minimize it.
---
 medil/models.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/medil/models.py b/medil/models.py
index 97c8346..eaabc4f 100644
--- a/medil/models.py
+++ b/medil/models.py
@@ -492,7 +492,7 @@ class DevMedil(MedilCausalModel):
 
         def penalized_mle_loss(W_and_D):
             W = W_and_D[: num_latent * num_meas].reshape(num_latent, num_meas)
-            D = np.diag(W_and_D[num_latent * num_meas :])
+            D = np.diag(np.abs(W_and_D[num_latent * num_meas :]))
 
             Sigma = self.compute_sigma(W, D)
             Sigma_inv = np.linalg.inv(Sigma)
@@ -517,7 +517,7 @@ class DevMedil(MedilCausalModel):
         result = minimize(penalized_mle_loss, initial_W_and_D, method="BFGS")
         self.result = result
         self.W_hat = result.x[: num_latent * num_meas].reshape(num_latent, num_meas)
-        self.D_hat = np.diag(result.x[num_latent * num_meas :])
+        self.D_hat = np.diag(np.abs(result.x[num_latent * num_meas :]))
         self.W_hat_mle, self.D_hat_mle = self.W_hat, self.D_hat
         self.convergence_success_mle = result.success
         self.convergence_message_mle = result.message
@@ -555,7 +555,7 @@ class DevMedil(MedilCausalModel):
 
         def penalized_lse_loss(W_and_D):
             W = W_and_D[: num_latent * num_meas].reshape(num_latent, num_meas)
-            D = np.diag(W_and_D[num_latent * num_meas :])
+            D = np.diag(np.abs(W_and_D[num_latent * num_meas :]))
 
             loss = norm(Sigma_hat - W.T @ W - D, "fro") ** 2
             # nuclear norm for the first penalty term
-- 
2.43.0

