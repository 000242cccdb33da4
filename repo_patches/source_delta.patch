From 4901b0cbc108376ea895b40ce3708d34a2c35345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:27 +0000
Subject: [PATCH 01/50] fix: robust SOCP must penalise ||L'w|| for S = LL', not
 ||Lw||

---
 pyvallocation/optimization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyvallocation/optimization.py b/pyvallocation/optimization.py
index 77e65fe..eabe017 100644
--- a/pyvallocation/optimization.py
+++ b/pyvallocation/optimization.py
@@ -868,7 +868,7 @@ class RobustOptimizer(_BaseOptimization):
         # --- SOC:  ||S^{1/2}w||_2 <= t  ------------------------------- #
         G_soc = np.zeros((n + 1, n_vars))
         G_soc[0, n] = -1
-        G_soc[1:, :n] = -self._s_sqrt
+        G_soc[1:, :n] = -self._s_sqrt.T  # S = L L', so ||S^{1/2} w|| = ||L' w||
         h_soc = np.zeros(n + 1)
 
         # --- linear inequalities ----------------------------------- #
-- 
2.43.0


From 5062f035efb3995cc3e40e84c42722bf0a83f5b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:27 +0000
Subject: [PATCH 02/50] fix: relaxed risk parity average-risk cone must use the
 transposed Cholesky factor

---
 pyvallocation/optimization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyvallocation/optimization.py b/pyvallocation/optimization.py
index eabe017..b61fd40 100644
--- a/pyvallocation/optimization.py
+++ b/pyvallocation/optimization.py
@@ -1145,7 +1145,7 @@ class RelaxedRiskParity(_BaseOptimization):
 
         G1 = np.zeros((n + 1, n_vars), dtype=float)
         G1[0, q_idx] = -1.0
-        G1[1:, x_slice] = -self._chol
+        G1[1:, x_slice] = -self._chol.T  # Sigma = L L', so x'Sigma x = ||L' x||^2
         G_soc_all.append(G1)
         h_soc_all.append(np.zeros(n + 1, dtype=float))
         soc_dims.append(n + 1)
-- 
2.43.0


From c139249eec127adb467174824902a9cd1ef060a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:27 +0000
Subject: [PATCH 03/50] fix: relaxed risk parity return clipping must respect
 the implied budget row

---
 pyvallocation/optimization.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/pyvallocation/optimization.py b/pyvallocation/optimization.py
index b61fd40..e4ab226 100644
--- a/pyvallocation/optimization.py
+++ b/pyvallocation/optimization.py
@@ -1286,11 +1286,13 @@ class RelaxedRiskParity(_BaseOptimization):
         h_lp_vals.append(np.zeros(n, dtype=float))
         G_lp = np.vstack(G_lp_rows)
         h_lp = np.hstack(h_lp_vals)
-        if A_user is None:
-            A_lp = np.ones((1, n), dtype=float)
-            b_lp = np.array([1.0], dtype=float)
-        else:
-            A_lp, b_lp = A_user, b_user
+        A_lp = np.ones((1, n), dtype=float)
+        b_lp = np.array([1.0], dtype=float)
+        if A_user is not None:
+            if any(np.allclose(row, 1.0, atol=1e-8, rtol=1e-8) for row in A_user):
+                A_lp, b_lp = A_user, b_user
+            else:
+                A_lp, b_lp = np.vstack([A_lp, A_user]), np.hstack([b_lp, b_user])
 
         sol_lp = solvers.lp(
             matrix(-self._mean),
-- 
2.43.0


From f2076d3dbf7bce9aecccc4e445904fe3381d801e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:08 +0000
Subject: [PATCH 04/50] fix: max_sharpe must scale constraint right-hand sides
 by the weight sum instead of dropping them

---
 pyvallocation/optimization.py | 32 ++++++++++++++------------------
 1 file changed, 14 insertions(+), 18 deletions(-)

diff --git a/pyvallocation/optimization.py b/pyvallocation/optimization.py
index e4ab226..9eef588 100644
--- a/pyvallocation/optimization.py
+++ b/pyvallocation/optimization.py
@@ -449,7 +449,7 @@ class MeanVariance(_FrontierMixin, _BaseOptimization):
 
            \min_{y}\; y^\top \Sigma\, y
            \quad\text{s.t.}\quad
-           (\mu - r_f)^\top y = 1,\; G\,y \le 0,\; A\,y = 0
+           (\mu - r_f)^\top y = 1,\; G\,y \le h\,\mathbf{1}^\top y,\; A\,y = b\,\mathbf{1}^\top y
 
         The optimal weights are ``w = y / \mathbf{1}^\top y``.
 
@@ -466,34 +466,30 @@ class MeanVariance(_FrontierMixin, _BaseOptimization):
         P = matrix(2.0 * np.asarray(self._cov, dtype=float))
         q = matrix(np.zeros(N))
 
-        # Equality: (μ-rf)'y = 1  +  any user equalities scaled to 0
+        # Equality: (μ-rf)'y = 1  +  user equalities scaled by 1'y
         A_rows = [mu_excess.reshape(1, -1)]
         b_vals = [1.0]
         if self._A is not None:
-            # User equalities become homogeneous: A y = 0 (since we normalize later).
-            # Non-homogeneous constraints (b != 0) cannot be enforced in this
-            # reformulation (Cornuejols-Tutuncu) and are skipped with a warning.
+            # User equalities become homogeneous: A y = b 1'y (since we normalize
+            # later). Budget rows are implied by that normalisation.
             A_np = np.asarray(self._A)
             b_np = np.asarray(self._b).ravel()
             for row_idx in range(A_np.shape[0]):
-                if not np.isclose(b_np[row_idx], 0.0, atol=1e-12):
-                    _LOGGER.warning(
-                        "max_sharpe: equality b[%d]=%.4g is non-homogeneous; "
-                        "skipping (cannot be enforced in Cornuejols-Tutuncu "
-                        "reformulation).",
-                        row_idx, b_np[row_idx],
-                    )
+                row = A_np[row_idx:row_idx+1]
+                if np.allclose(row, row[0, 0], rtol=0.0, atol=1e-12):
                     continue
-                A_rows.append(A_np[row_idx:row_idx+1])
+                A_rows.append(row - b_np[row_idx])
                 b_vals.append(0.0)
 
         A_mat = matrix(np.vstack(A_rows))
         b_vec = matrix(np.array(b_vals, dtype=float))
 
-        # Inequalities: G y <= 0 (homogeneous version of G w <= h)
+        # Inequalities: G y <= h 1'y (homogeneous version of G w <= h)
         if self._G is not None:
-            G_mat = matrix(np.asarray(self._G, dtype=float))
-            h_vec = matrix(np.zeros(np.asarray(self._G).shape[0]))
+            G_np = np.asarray(self._G, dtype=float)
+            h_np = np.asarray(self._h, dtype=float).reshape(-1, 1)
+            G_mat = matrix(G_np - h_np)
+            h_vec = matrix(np.zeros(G_np.shape[0]))
         else:
             G_mat = None
             h_vec = None
@@ -504,8 +500,8 @@ class MeanVariance(_FrontierMixin, _BaseOptimization):
 
         y = np.asarray(sol["x"]).ravel()
         y_sum = y.sum()
-        if abs(y_sum) < 1e-12:
-            raise InfeasibleOptimizationError("Max Sharpe portfolio has zero weight sum (degenerate).")
+        if y_sum < 1e-12:
+            raise InfeasibleOptimizationError("Max Sharpe portfolio has no positive weight sum (degenerate).")
 
         w = y / y_sum
         ret = float(np.dot(np.asarray(self._mean).ravel(), w))
-- 
2.43.0


From 5a86a46ffa2184d29d45ccd713cccc48cae75637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:08 +0000
Subject: [PATCH 05/50] fix: integer bounds must compile to a float right-hand
 side (solvers reject integer matrices)

---
 pyvallocation/utils/constraints.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyvallocation/utils/constraints.py b/pyvallocation/utils/constraints.py
index c5bc199..0084e05 100644
--- a/pyvallocation/utils/constraints.py
+++ b/pyvallocation/utils/constraints.py
@@ -361,7 +361,7 @@ def build_G_h_A_b(
 
     G = _stack(G_rows)
     h = (
-        np.asarray(h_vals)
+        np.asarray(h_vals, float)
         if h_vals
         else (None if return_none_if_empty else np.zeros(0))
     )
-- 
2.43.0


From b33324221ba7faaa151839cd3f7a0d086d40d2b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:08 +0000
Subject: [PATCH 06/50] fix: Black-Litterman must not normalise the caller's
 market weights in place

---
 pyvallocation/views.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyvallocation/views.py b/pyvallocation/views.py
index 549c53f..7480d51 100644
--- a/pyvallocation/views.py
+++ b/pyvallocation/views.py
@@ -1346,7 +1346,7 @@ class BlackLittermanProcessor:
             weights = np.asarray(market_weights, dtype=float).ravel()
             if weights.size != n_assets:
                 raise ValueError("market_weights length mismatch.")
-            weights /= weights.sum()
+            weights = weights / weights.sum()
             self._pi = risk_aversion * self._sigma @ weights.reshape(-1, 1)
             src = "\\delta \\Sigma w"
         elif prior_mean is not None:
-- 
2.43.0


From 543112c529dc5a7a99f65bcf7ed0d812863f2d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:20 +0000
Subject: [PATCH 07/50] fix: report CVaR with its sign instead of folding tail
 gains into losses

---
 pyvallocation/portfolioapi.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pyvallocation/portfolioapi.py b/pyvallocation/portfolioapi.py
index 40eb604..0c9e208 100644
--- a/pyvallocation/portfolioapi.py
+++ b/pyvallocation/portfolioapi.py
@@ -780,8 +780,8 @@ class PortfolioWrapper:
                     if self.dist.probabilities is not None
                     else generate_uniform_probabilities(scen.shape[0])
                 )
-                alt[f"CVaR ({int(confidence*100)}%)"] = np.abs(
-                    np.asarray(portfolio_cvar(weights, scen, probs, confidence=confidence))
+                alt[f"CVaR ({int(confidence*100)}%)"] = np.asarray(
+                    portfolio_cvar(weights, scen, probs, confidence=confidence)
                 ).reshape(-1)
             except Exception as exc:  # pragma: no cover
                 logger.debug("CVaR overlay skipped: %s", exc)
@@ -1371,7 +1371,7 @@ class PortfolioWrapper:
         )
         weights = optimizer.efficient_frontier(num_portfolios)
         returns = mu_for_frontier @ weights
-        risks = np.abs(np.asarray(portfolio_cvar(weights, scenarios, probs, confidence=1.0 - alpha))).reshape(-1)
+        risks = np.asarray(portfolio_cvar(weights, scenarios, probs, confidence=1.0 - alpha)).reshape(-1)
         raw_risks = risks.copy()
         alternate_risks: Dict[str, np.ndarray] = {}
         try:
@@ -1538,7 +1538,7 @@ class PortfolioWrapper:
             except Exception as exc:  # pragma: no cover - defensive
                 logger.debug("Unable to compute volatility overlay for robust frontier: %s", exc)
             try:
-                alt_cvar = np.abs(np.asarray(portfolio_cvar(weights_arr, scen, probs, confidence=0.95))).reshape(-1)
+                alt_cvar = np.asarray(portfolio_cvar(weights_arr, scen, probs, confidence=0.95)).reshape(-1)
                 alternate_risks["CVaR (95%)"] = alt_cvar
             except Exception as exc:  # pragma: no cover
                 logger.debug("Unable to compute CVaR overlay for robust frontier: %s", exc)
@@ -1664,7 +1664,7 @@ class PortfolioWrapper:
             ) from e
 
         actual_return = mu_for_cvar @ weights
-        risk = float(np.abs(portfolio_cvar(weights, scenarios, probs, confidence=1.0 - alpha)))
+        risk = float(portfolio_cvar(weights, scenarios, probs, confidence=1.0 - alpha))
 
         w_series = pd.Series(weights, index=self.dist.asset_names, name=f"CVaR Portfolio (Return >= {return_target:.4f})")
 
-- 
2.43.0


From a114b3622617466353fb6d34aeea4fa714e2d955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:20 +0000
Subject: [PATCH 08/50] fix: stress_invariants must align labelled weights with
 the instruments

---
 pyvallocation/stress.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyvallocation/stress.py b/pyvallocation/stress.py
index a073219..7e139da 100644
--- a/pyvallocation/stress.py
+++ b/pyvallocation/stress.py
@@ -528,7 +528,8 @@ def stress_invariants(
             ens = compute_effective_number_scenarios(p)
             return mean_r, stdev_r, var_r, cvar_r, ens
 
-        w_arr = np.asarray(weights, float).ravel() if not isinstance(weights, pd.Series) else weights.values
+        names = list(pnl_df.columns) if isinstance(pnl_df, pd.DataFrame) else None
+        w_arr = _align_weights(weights, names)[0].ravel()
         m_n = _metrics(pnl_nom, nom_probs, w_arr)
         m_s = _metrics(pnl_stressed, stressed_probs, w_arr)
         ci = int(round(confidence * 100))
-- 
2.43.0


From 26fcd839725daf09df66696d045c2d5a95be6ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:31 +0000
Subject: [PATCH 09/50] fix: rank_mean must not add views to the caller's
 mean_views mapping

---
 pyvallocation/views.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyvallocation/views.py b/pyvallocation/views.py
index 7480d51..6663d63 100644
--- a/pyvallocation/views.py
+++ b/pyvallocation/views.py
@@ -606,6 +606,7 @@ class FlexibleViewsProcessor:
         if rank_mean is not None:
             if len(rank_mean) < 2:
                 raise ValueError("`rank_mean` requires at least 2 assets.")
+            self.mean_views = dict(self.mean_views)
             for i in range(len(rank_mean) - 1):
                 pair = (rank_mean[i], rank_mean[i + 1])
                 if pair not in self.mean_views:
-- 
2.43.0


From f3cc34d8e545fe39b3d191a5c9de54e9a590af0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:53 +0000
Subject: [PATCH 10/50] fix: min_risk ensemble selector must keep its risk
 label when the spec is used again

---
 pyvallocation/ensembles.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyvallocation/ensembles.py b/pyvallocation/ensembles.py
index 625ca2b..4bf7362 100644
--- a/pyvallocation/ensembles.py
+++ b/pyvallocation/ensembles.py
@@ -981,6 +981,7 @@ def _build_selector(
         return _tangency
 
     if key in {"min_risk", "minimum_risk"}:
+        risk_label = selector_kwargs.pop("risk_label", None)
 
         def _min(frontier: "PortfolioFrontier") -> pd.Series:
             """Select the minimum-risk portfolio.
@@ -991,7 +992,6 @@ def _build_selector(
             Returns:
                 pd.Series: Minimum-risk portfolio weights.
             """
-            risk_label = selector_kwargs.pop("risk_label", None)
             weights, *_ = frontier.min_risk(risk_label=risk_label)
             return weights.rename(label)
 
-- 
2.43.0


From 0793388022504594c3cef64331ee19801ff9450a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:27 +0000
Subject: [PATCH 11/50] fix: Ledoit-Wolf identity intensity never shrank (mixed
 normalisations) and was NaN for one asset

---
 pyvallocation/moments.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/pyvallocation/moments.py b/pyvallocation/moments.py
index 2503484..0266556 100644
--- a/pyvallocation/moments.py
+++ b/pyvallocation/moments.py
@@ -367,21 +367,21 @@ def shrink_covariance_ledoit_wolf(
 
     M = X[:, :, None] * X[:, None, :]
     pi_mat = np.mean((M - S_arr) ** 2, axis=0)
-    pi_hat = np.mean(pi_mat)
-    diag_pi = np.trace(pi_mat)
-    off_pi = pi_hat - diag_pi
+    gamma_hat = np.linalg.norm(S_arr - F, "fro") ** 2
 
     if target == "identity":
-        rho_hat = diag_pi
+        # Ledoit-Wolf (2004): delta = (sum of asymptotic variances / T) / ||S - F||^2.
+        pi_hat, rho_hat = pi_mat.sum(), 0.0
     else:
+        # Variant that accounts for the larger number of estimated parameters
+        # in the structured target.
+        pi_hat = np.mean(pi_mat)
+        diag_pi = np.trace(pi_mat)
+        off_pi = pi_hat - diag_pi
         rho_hat = diag_pi + ((F - np.diag(np.diag(F))).sum() / (N * (N - 1))) * off_pi
 
-    gamma_hat = np.linalg.norm(S_arr - F, "fro") ** 2
-    kappa = (pi_hat - rho_hat) / gamma_hat
-    # For identity target: delta = kappa (Ledoit-Wolf 2004, Eq. 2).
-    # For constant_correlation target: delta = kappa / T (variant that accounts
-    # for the larger number of estimated parameters in the structured target).
-    delta = float(np.clip(kappa if target == "identity" else kappa / T, 0.0, 1.0))
+    kappa = (pi_hat - rho_hat) / gamma_hat if gamma_hat > 0 else 0.0
+    delta = float(np.clip(kappa / T, 0.0, 1.0))
 
     Sigma = ensure_psd_matrix(delta * F + (1 - delta) * S_arr)
     Sigma = (Sigma + Sigma.T) / 2
-- 
2.43.0


From 89239e08cdb11fc0e6f267f5b6abe017ebd02547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:40 +0000
Subject: [PATCH 12/50] fix: MILP lot caps must allow positions beyond 100%
 when weights are leveraged

---
 pyvallocation/discrete_allocation.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/pyvallocation/discrete_allocation.py b/pyvallocation/discrete_allocation.py
index 847eb63..7ebf770 100644
--- a/pyvallocation/discrete_allocation.py
+++ b/pyvallocation/discrete_allocation.py
@@ -372,7 +372,8 @@ def allocate_mip(
         [cash_penalty],
     ])
 
-    max_shares_per_lot = np.where(price_per_lot > 0, np.floor(inputs.total_value / price_per_lot).astype(int), 0)
+    position_cap = np.maximum(inputs.total_value, np.abs(target_values))
+    max_shares_per_lot = np.where(price_per_lot > 0, np.floor(position_cap / price_per_lot).astype(int), 0)
     max_shares_per_lot = np.clip(max_shares_per_lot + 1, 0, None)
 
     # With short positions, short-sale proceeds can push leftover cash
@@ -382,6 +383,12 @@ def allocate_mip(
         np.sum(np.where(weights.values < 0, max_shares_per_lot * price_per_lot, 0.0))
     )
     effective_cash_ub = inputs.total_value + short_proceeds_max
+    # The same proceeds may fund long positions beyond total_value.
+    max_shares_per_lot = np.where(
+        weights.values >= 0,
+        np.floor(effective_cash_ub / price_per_lot).astype(int) + 1,
+        max_shares_per_lot,
+    )
     upper_cash = effective_cash_ub if max_cash is None else min(max_cash, effective_cash_ub)
 
     # Allow negative lots for short positions
@@ -391,7 +398,7 @@ def allocate_mip(
     lb = np.concatenate([lot_lb, np.zeros(n + 1)])  # u and r stay >= 0
     ub = np.concatenate([
         max_shares_per_lot.astype(float),
-        np.full(n, inputs.total_value, dtype=float),
+        np.full(n, np.inf),  # absolute errors are bounded by the lot bounds
         [upper_cash],
     ])
     bounds = optimize.Bounds(lb, ub)
-- 
2.43.0


From 741b7bc652448e2f655a0bfc7434a2428b1c555b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:40 +0000
Subject: [PATCH 13/50] fix: scenario labels of a probability Series must not
 be used as asset labels

---
 pyvallocation/moments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyvallocation/moments.py b/pyvallocation/moments.py
index 0266556..dca1df7 100644
--- a/pyvallocation/moments.py
+++ b/pyvallocation/moments.py
@@ -231,7 +231,7 @@ def estimate_sample_moments(R: ArrayLike, p: ArrayLike) -> Tuple[ArrayLike, Arra
     S = np.einsum('ti,tj,t->ij', X, X, p_arr, optimize=True)
     S = (S + S.T) / 2
 
-    labels = _labels(R, p)
+    labels = _labels(R)  # `p` is indexed by scenario, not by asset
     logger.debug("Estimated weighted mean and covariance matrix.")
     return _wrap(mu, labels, True), _wrap(S, labels, False)
 
-- 
2.43.0


From 7076f023c572bd542e88dcdcdb2c49d19daeaadd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:24 +0000
Subject: [PATCH 14/50] fix: scenario_pnl must reject weights missing a
 scenario asset instead of returning NaN

---
 pyvallocation/utils/performance.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pyvallocation/utils/performance.py b/pyvallocation/utils/performance.py
index e5d1fab..56f1d2a 100644
--- a/pyvallocation/utils/performance.py
+++ b/pyvallocation/utils/performance.py
@@ -66,10 +66,18 @@ def scenario_pnl(weights: WeightsLike, scenarios: ArrayLike) -> ArrayLike:
     if isinstance(weights, pd.Series):
         if columns is not None and list(weights.index) != columns:
             weights = weights.reindex(columns)
+            if weights.isna().any():
+                raise ValueError(
+                    "Weight labels do not match scenario asset names after reindexing."
+                )
         w = weights.to_numpy(dtype=float).reshape(-1, 1)
     elif isinstance(weights, pd.DataFrame):
         if columns is not None and list(weights.index) != columns:
             weights = weights.reindex(columns)
+            if weights.isna().any().any():
+                raise ValueError(
+                    "Weight labels do not match scenario asset names after reindexing."
+                )
         w = weights.to_numpy(dtype=float)
     else:
         arr_w = np.asarray(weights, dtype=float)
-- 
2.43.0


From 0fb2a76137c4f67423cc8b5b1dce999352d836a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:24 +0000
Subject: [PATCH 15/50] fix: drawdowns must be measured from a peak that
 includes the starting wealth

---
 pyvallocation/utils/performance.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyvallocation/utils/performance.py b/pyvallocation/utils/performance.py
index 56f1d2a..8574d23 100644
--- a/pyvallocation/utils/performance.py
+++ b/pyvallocation/utils/performance.py
@@ -312,8 +312,8 @@ def drawdown_quantile(
     port_cum = paths @ w  # (n_paths, horizon)
     wealth = 1.0 + port_cum  # wealth relative to $1
 
-    # Running maximum and drawdown
-    running_max = np.maximum.accumulate(wealth, axis=1)
+    # Running maximum (including the initial wealth of 1) and drawdown
+    running_max = np.maximum(np.maximum.accumulate(wealth, axis=1), 1.0)
     drawdowns = (running_max - wealth) / np.where(running_max > 0, running_max, 1.0)
     max_dd = drawdowns.max(axis=1)  # (n_paths,)
 
-- 
2.43.0


From ab428c5874d8c612bb434414e4b7fe314c593800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:47 +0000
Subject: [PATCH 16/50] fix: labelled transaction-cost inputs must be matched
 to the assets by label

---
 pyvallocation/portfolioapi.py  | 14 +++++++-------
 pyvallocation/utils/weights.py | 22 ++++++++++++++++++++++
 2 files changed, 29 insertions(+), 7 deletions(-)

diff --git a/pyvallocation/portfolioapi.py b/pyvallocation/portfolioapi.py
index 0c9e208..94c83b9 100644
--- a/pyvallocation/portfolioapi.py
+++ b/pyvallocation/portfolioapi.py
@@ -23,7 +23,7 @@ from .optimization import (
 )
 from .probabilities import generate_uniform_probabilities
 from .utils.functions import portfolio_cvar
-from .utils.weights import wrap_exposure_vector
+from .utils.weights import align_to_labels, wrap_exposure_vector
 
 if TYPE_CHECKING:
     from .ensembles import EnsembleResult, EnsembleSpec
@@ -1117,21 +1117,21 @@ class PortfolioWrapper:
         Args:
             costs: Transaction cost specification.
         """
-        iw = np.asarray(costs.initial_weights, dtype=float).ravel()
+        iw = np.asarray(align_to_labels(costs.initial_weights, self.dist.asset_names, "initial_weights"), dtype=float).ravel()
         if iw.shape != (self.dist.N,):
             raise ValueError(
                 f"`initial_weights` must have shape ({self.dist.N},), got {iw.shape}"
             )
         self.initial_weights = iw
         if costs.market_impact_costs is not None:
-            mic = np.asarray(costs.market_impact_costs, dtype=float).ravel()
+            mic = np.asarray(align_to_labels(costs.market_impact_costs, self.dist.asset_names, "market_impact_costs"), dtype=float).ravel()
             if mic.shape != (self.dist.N,):
                 raise ValueError(
                     f"`market_impact_costs` must have shape ({self.dist.N},), got {mic.shape}"
                 )
             self.market_impact_costs = mic
         if costs.proportional_costs is not None:
-            pc = np.asarray(costs.proportional_costs, dtype=float).ravel()
+            pc = np.asarray(align_to_labels(costs.proportional_costs, self.dist.asset_names, "proportional_costs"), dtype=float).ravel()
             if pc.shape != (self.dist.N,):
                 raise ValueError(
                     f"`proportional_costs` must have shape ({self.dist.N},), got {pc.shape}"
@@ -1165,9 +1165,9 @@ class PortfolioWrapper:
                 G, h, A, b = self.G, self.h, self.A, self.b
 
         if costs is not None:
-            iw = np.asarray(costs.initial_weights, dtype=float).ravel()
-            mic = np.asarray(costs.market_impact_costs, dtype=float).ravel() if costs.market_impact_costs is not None else None
-            pc = np.asarray(costs.proportional_costs, dtype=float).ravel() if costs.proportional_costs is not None else None
+            iw = np.asarray(align_to_labels(costs.initial_weights, self.dist.asset_names, "initial_weights"), dtype=float).ravel()
+            mic = np.asarray(align_to_labels(costs.market_impact_costs, self.dist.asset_names, "market_impact_costs"), dtype=float).ravel() if costs.market_impact_costs is not None else None
+            pc = np.asarray(align_to_labels(costs.proportional_costs, self.dist.asset_names, "proportional_costs"), dtype=float).ravel() if costs.proportional_costs is not None else None
         else:
             iw = self.initial_weights
             mic = self.market_impact_costs
diff --git a/pyvallocation/utils/weights.py b/pyvallocation/utils/weights.py
index 212ef7e..5018a01 100644
--- a/pyvallocation/utils/weights.py
+++ b/pyvallocation/utils/weights.py
@@ -21,9 +21,31 @@ __all__ = [
     "ensure_samples_matrix",
     "wrap_exposure_vector",
     "normalize_weights",
+    "align_to_labels",
 ]
 
 
+def align_to_labels(values, labels: Optional[Sequence], name: str):
+    """Reorder a labelled vector to ``labels``; anything unlabelled is returned as is.
+
+    Args:
+        values: Vector-like. Only a Series with explicit labels is reordered.
+        labels: Target label order, or ``None`` when there is none.
+        name: Identifier used in error messages.
+
+    Returns:
+        The vector in the order of ``labels``.
+    """
+    if labels is None or not isinstance(values, pd.Series) or isinstance(values.index, pd.RangeIndex):
+        return values
+    index, order = list(values.index), list(labels)
+    if index == order:
+        return values
+    if len(index) != len(order) or set(index) != set(order):
+        raise ValueError(f"`{name}` labels {index} do not match the asset names {order}.")
+    return values.reindex(order)
+
+
 def ensure_samples_matrix(
     sample_portfolios: ArrayLike,
     *,
-- 
2.43.0


From 1b551916f507d4dca2da471a4ee3f71938ab11ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:47 +0000
Subject: [PATCH 17/50] fix: drawdown_quantile must match labelled weights to
 the invariants by label

---
 pyvallocation/utils/performance.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyvallocation/utils/performance.py b/pyvallocation/utils/performance.py
index 8574d23..6a0c4f6 100644
--- a/pyvallocation/utils/performance.py
+++ b/pyvallocation/utils/performance.py
@@ -15,6 +15,7 @@ from ..probabilities import (
     resolve_probabilities,
 )
 from ..utils.functions import portfolio_cvar, portfolio_var
+from ..utils.weights import align_to_labels
 
 ArrayLike = Union[np.ndarray, pd.DataFrame, pd.Series]
 ProbabilityLike = Union[np.ndarray, pd.Series, Sequence[float]]
@@ -302,6 +303,8 @@ def drawdown_quantile(
     if reprice is None:
         reprice = _reprice_exp
 
+    if isinstance(invariants, pd.DataFrame):
+        weights = align_to_labels(weights, invariants.columns, "weights")
     w = np.asarray(weights, dtype=float).ravel()
     paths = simulate_paths(
         invariants, horizon=horizon, n_paths=n_paths,
-- 
2.43.0


From 7bf01c4ab47df84ef5e6303f147fd7f7e51e1c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:00 +0000
Subject: [PATCH 18/50] fix: Black-Litterman must match labelled priors, market
 weights and views to the covariance labels

---
 pyvallocation/views.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pyvallocation/views.py b/pyvallocation/views.py
index 6663d63..d1457b1 100644
--- a/pyvallocation/views.py
+++ b/pyvallocation/views.py
@@ -11,6 +11,7 @@ from scipy.optimize import Bounds, minimize
 
 from .bayesian import _cholesky_pd
 from .probabilities import normalize_probability_vector
+from .utils.weights import align_to_labels
 
 # ---------------------------------------------------------------------------
 # View helper functions — readable shortcuts for constraint operators
@@ -1340,6 +1341,12 @@ class BlackLittermanProcessor:
             raise ValueError("risk_aversion must be positive.")
         self._tau: float = float(tau)
 
+        labels = self._assets if self._is_pandas else None
+        pi = align_to_labels(pi, labels, "pi")
+        market_weights = align_to_labels(market_weights, labels, "market_weights")
+        prior_mean = align_to_labels(prior_mean, labels, "prior_mean")
+        mean_views = align_to_labels(mean_views, labels, "mean_views")
+
         if pi is not None:
             self._pi = np.asarray(pi, dtype=float).reshape(-1, 1)
             src = "user \\pi"
-- 
2.43.0


From 9bd5ec08fc73dc52e51b246fbf3ccb2abe5286e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:00 +0000
Subject: [PATCH 19/50] fix: flexible views must match labelled priors and view
 vectors by label

---
 pyvallocation/views.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pyvallocation/views.py b/pyvallocation/views.py
index d1457b1..40bbbbc 100644
--- a/pyvallocation/views.py
+++ b/pyvallocation/views.py
@@ -533,6 +533,10 @@ class FlexibleViewsProcessor:
                 if not self._use_pandas:
                     self.assets = list(prior_cov.index)
                     self._use_pandas = True
+                elif list(prior_cov.index) != self.assets or list(prior_cov.columns) != self.assets:
+                    if set(prior_cov.index) != set(self.assets) or set(prior_cov.columns) != set(self.assets):
+                        raise ValueError("`prior_mean` and `prior_cov` labels do not match.")
+                    cov = prior_cov.loc[self.assets, self.assets].values.astype(float)
             else:
                 cov = np.asarray(prior_cov, float)
 
@@ -587,6 +591,7 @@ class FlexibleViewsProcessor:
                 return {}
             if isinstance(vec_like, dict):
                 return vec_like
+            vec_like = align_to_labels(vec_like, self.assets if self._use_pandas else None, name)
             vec = np.asarray(vec_like, float).ravel()
             if vec.size != len(self.assets):
                 raise ValueError(f"`{name}` must have length {len(self.assets)} matching the number of assets.")
-- 
2.43.0


From 7f0e78c2317f2eaff18df35564fcf2b72a5ca09f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:00 +0000
Subject: [PATCH 20/50] fix: accept the documented "A,B" spelling for
 relative-view confidences

---
 pyvallocation/views.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyvallocation/views.py b/pyvallocation/views.py
index 40bbbbc..364ceee 100644
--- a/pyvallocation/views.py
+++ b/pyvallocation/views.py
@@ -1502,6 +1502,10 @@ class BlackLittermanProcessor:
         if isinstance(conf, dict):
             result = []
             for k in keys:
+                if isinstance(k, tuple) and k not in conf:
+                    joined = ",".join(map(str, k))  # documented spelling of a relative view
+                    if joined in conf:
+                        k = joined
                 if k not in conf:
                     logging.getLogger(__name__).warning(
                         "No confidence found for view key %r; defaulting to 1.0. "
-- 
2.43.0


From d6b6d1853157bbf2f03bd63a81fa3ddef38d173b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:16 +0000
Subject: [PATCH 21/50] fix: an explicitly empty constraint set must not be
 replaced by long-only, fully invested

---
 pyvallocation/portfolioapi.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/pyvallocation/portfolioapi.py b/pyvallocation/portfolioapi.py
index 94c83b9..9b14b29 100644
--- a/pyvallocation/portfolioapi.py
+++ b/pyvallocation/portfolioapi.py
@@ -1156,13 +1156,9 @@ class PortfolioWrapper:
                 constraints = Constraints.from_dict(constraints)
             G, h, A, b = constraints.to_matrices(self.dist.N)
         else:
-            if self.G is None and self.A is None:
-                # Apply defaults
-                c = Constraints()
-                G, h, A, b = c.to_matrices(self.dist.N)
-                logger.warning("No constraints set; using default long-only, fully-invested.")
-            else:
-                G, h, A, b = self.G, self.h, self.A, self.b
+            # The constructor already applied the default constraint set, so an
+            # empty system here means the caller asked for no constraints.
+            G, h, A, b = self.G, self.h, self.A, self.b
 
         if costs is not None:
             iw = np.asarray(align_to_labels(costs.initial_weights, self.dist.asset_names, "initial_weights"), dtype=float).ravel()
-- 
2.43.0


From 9d704820394f33d31c6558e4db424b236bd40067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:23 +0000
Subject: [PATCH 22/50] fix: simulate_paths must keep repriced values and
 instrument count (not the drivers' dtype and width)

---
 pyvallocation/utils/projection.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/pyvallocation/utils/projection.py b/pyvallocation/utils/projection.py
index 41ed005..fa9db5d 100644
--- a/pyvallocation/utils/projection.py
+++ b/pyvallocation/utils/projection.py
@@ -301,11 +301,14 @@ def simulate_paths(
     cumulative = np.cumsum(sampled, axis=1)  # cumulative sum along time
 
     if reprice is not None:
-        # Apply repricing at each time step
-        out = np.empty_like(cumulative)
-        for t in range(horizon):
-            out[:, t, :] = reprice(cumulative[:, t, :])
-        return out
+        # Apply repricing at each time step. The number of instruments may differ
+        # from the number of risk drivers, and the values are not integers even
+        # when the invariants are.
+        steps = [
+            np.asarray(reprice(cumulative[:, t, :]), dtype=float).reshape(n_paths, -1)
+            for t in range(horizon)
+        ]
+        return np.stack(steps, axis=1)
 
     return cumulative
 
-- 
2.43.0


From 59a4ac34eb5bd0a7cbd0cdeda43309e2b1802f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:24 +0000
Subject: [PATCH 23/50] fix: MILP allocation must not hold a short target long

---
 pyvallocation/discrete_allocation.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pyvallocation/discrete_allocation.py b/pyvallocation/discrete_allocation.py
index 7ebf770..3a69fab 100644
--- a/pyvallocation/discrete_allocation.py
+++ b/pyvallocation/discrete_allocation.py
@@ -395,10 +395,14 @@ def allocate_mip(
     lot_lb = np.where(
         weights.values >= 0, 0.0, -max_shares_per_lot.astype(float)
     )
+    # ... and never hold a short target long
+    lot_ub = np.where(weights.values >= 0, max_shares_per_lot.astype(float), 0.0)
+    # largest deviation the lot bounds allow (HiGHS wants it finite)
+    max_error = np.abs(target_values) + max_shares_per_lot * price_per_lot
     lb = np.concatenate([lot_lb, np.zeros(n + 1)])  # u and r stay >= 0
     ub = np.concatenate([
-        max_shares_per_lot.astype(float),
-        np.full(n, np.inf),  # absolute errors are bounded by the lot bounds
+        lot_ub,
+        max_error,
         [upper_cash],
     ])
     bounds = optimize.Bounds(lb, ub)
-- 
2.43.0


From 4c19515a9c27117ee5b43d7ec6fffc9230a3713f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:08 +0000
Subject: [PATCH 24/50] fix: max_sharpe must respect a total weight other than
 one

---
 pyvallocation/optimization.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/pyvallocation/optimization.py b/pyvallocation/optimization.py
index 9eef588..3aea316 100644
--- a/pyvallocation/optimization.py
+++ b/pyvallocation/optimization.py
@@ -451,7 +451,8 @@ class MeanVariance(_FrontierMixin, _BaseOptimization):
            \quad\text{s.t.}\quad
            (\mu - r_f)^\top y = 1,\; G\,y \le h\,\mathbf{1}^\top y,\; A\,y = b\,\mathbf{1}^\top y
 
-        The optimal weights are ``w = y / \mathbf{1}^\top y``.
+        The optimal weights are ``w = y / \mathbf{1}^\top y`` (times the total weight
+        when the budget constraint asks for a sum other than one).
 
         Args:
             risk_free_rate: Risk-free rate for Sharpe computation.
@@ -469,16 +470,22 @@ class MeanVariance(_FrontierMixin, _BaseOptimization):
         # Equality: (μ-rf)'y = 1  +  user equalities scaled by 1'y
         A_rows = [mu_excess.reshape(1, -1)]
         b_vals = [1.0]
+        budget = 1.0
         if self._A is not None:
             # User equalities become homogeneous: A y = b 1'y (since we normalize
-            # later). Budget rows are implied by that normalisation.
+            # later). Budget rows fix the weight sum used by that normalisation.
             A_np = np.asarray(self._A)
             b_np = np.asarray(self._b).ravel()
+            is_budget = [bool(np.allclose(row, row[0], rtol=0.0, atol=1e-12)) for row in A_np]
+            for row, rhs, skip in zip(A_np, b_np, is_budget):
+                if skip and row[0] != 0:
+                    budget = rhs / row[0]
+            if budget <= 0:
+                raise InfeasibleOptimizationError("Max Sharpe portfolio needs a positive total weight.")
             for row_idx in range(A_np.shape[0]):
-                row = A_np[row_idx:row_idx+1]
-                if np.allclose(row, row[0, 0], rtol=0.0, atol=1e-12):
+                if is_budget[row_idx]:
                     continue
-                A_rows.append(row - b_np[row_idx])
+                A_rows.append(A_np[row_idx:row_idx+1] - b_np[row_idx] / budget)
                 b_vals.append(0.0)
 
         A_mat = matrix(np.vstack(A_rows))
@@ -488,7 +495,7 @@ class MeanVariance(_FrontierMixin, _BaseOptimization):
         if self._G is not None:
             G_np = np.asarray(self._G, dtype=float)
             h_np = np.asarray(self._h, dtype=float).reshape(-1, 1)
-            G_mat = matrix(G_np - h_np)
+            G_mat = matrix(G_np - h_np / budget)
             h_vec = matrix(np.zeros(G_np.shape[0]))
         else:
             G_mat = None
@@ -503,7 +510,7 @@ class MeanVariance(_FrontierMixin, _BaseOptimization):
         if y_sum < 1e-12:
             raise InfeasibleOptimizationError("Max Sharpe portfolio has no positive weight sum (degenerate).")
 
-        w = y / y_sum
+        w = y * (budget / y_sum)
         ret = float(np.dot(np.asarray(self._mean).ravel(), w))
         risk = float(np.sqrt(w @ np.asarray(self._cov, dtype=float) @ w))
         return OptimizationResult(weights=w, nominal_return=ret, risk=risk)
-- 
2.43.0


From caa13c7ce68e1162193a2f82602b8ba7fa192854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:10 +0000
Subject: [PATCH 25/50] fix: robust optimiser must report the uncertainty
 radius of the returned weights

---
 pyvallocation/optimization.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyvallocation/optimization.py b/pyvallocation/optimization.py
index 3aea316..7b00315 100644
--- a/pyvallocation/optimization.py
+++ b/pyvallocation/optimization.py
@@ -936,8 +936,10 @@ class RobustOptimizer(_BaseOptimization):
         )
         self._assert_optimal(sol, "SOCP")
         x = np.asarray(sol["x"]).ravel()
-        w, t = x[:n], x[n]
-        return OptimizationResult(w, float(self._mean @ w), float(t))
+        w = x[:n]
+        # With a zero penalty nothing presses t onto the cone, so measure the radius on w
+        radius = np.sqrt(np.sum((self._s_sqrt.T @ w) ** 2))
+        return OptimizationResult(w, float(self._mean @ w), float(radius))
 
 
 # =================================================================== #
-- 
2.43.0


From 5571b0613dc49b56d1080602f52c7182c4a29ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:14 +0000
Subject: [PATCH 26/50] fix: robust portfolios must report return and
 volatility in simple-return space

---
 pyvallocation/portfolioapi.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pyvallocation/portfolioapi.py b/pyvallocation/portfolioapi.py
index 9b14b29..ab11d7e 100644
--- a/pyvallocation/portfolioapi.py
+++ b/pyvallocation/portfolioapi.py
@@ -1502,7 +1502,8 @@ class PortfolioWrapper:
 
         alternate_risks: Dict[str, np.ndarray] = {}
         if return_cov is None and self._uncertainty_cov is not None:
-            return_cov = self.dist.cov  # Sigma_ce lives in dist.cov after from_robust_posterior
+            # Sigma_ce lives in dist.cov after from_robust_posterior (log space there)
+            return_cov = self._report_mu_cov()[1]
         if return_cov is not None:
             try:
                 cov_ref = return_cov
@@ -2021,6 +2022,8 @@ class PortfolioWrapper:
         result = optimizer.solve_gamma_variant(gamma_mu, gamma_sigma_sq)
 
         w_series = pd.Series(result.weights, index=self.dist.asset_names, name="Robust Gamma Portfolio")
+        mu_r, _ = self._report_mu_cov()
+        nominal_return = float(mu_r @ result.weights)
         risk_value = float(result.risk) ** 2
         if risk_value > gamma_sigma_sq:
             logger.debug(
@@ -2032,9 +2035,9 @@ class PortfolioWrapper:
 
         logger.info(
             f"Successfully solved for robust \\gamma-portfolio. "
-            f"Nominal Return: {result.nominal_return:.4f}, Estimation Risk (squared): {risk_value:.4f}"
+            f"Nominal Return: {nominal_return:.4f}, Estimation Risk (squared): {risk_value:.4f}"
         )
-        return w_series, result.nominal_return, risk_value
+        return w_series, nominal_return, risk_value
 
     def make_ensemble_spec(
         self,
-- 
2.43.0


From 61a8a26a8fe2758d80140b83b3bec16398e0b998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:17 +0000
Subject: [PATCH 27/50] fix: robust optimisation with proportional costs must
 build a flat cost vector (it always raised)

---
 pyvallocation/optimization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyvallocation/optimization.py b/pyvallocation/optimization.py
index 7b00315..a2a6944 100644
--- a/pyvallocation/optimization.py
+++ b/pyvallocation/optimization.py
@@ -865,7 +865,7 @@ class RobustOptimizer(_BaseOptimization):
         penalty = kw.get("lam", kw.get("gamma_mu"))
 
         c = np.hstack(
-            (-self._mean, penalty, (self._costs, self._costs) if self._has_costs else [])
+            (-self._mean, penalty, np.hstack((self._costs, self._costs)) if self._has_costs else [])
         )
 
         # --- SOC:  ||S^{1/2}w||_2 <= t  ------------------------------- #
-- 
2.43.0


From c8aa0e83f460712c3abaf531d4a62f7488465a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:14 +0000
Subject: [PATCH 28/50] fix: match labelled sample statistics to the prior's
 assets in the NIW update

---
 pyvallocation/bayesian.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pyvallocation/bayesian.py b/pyvallocation/bayesian.py
index 392d28e..19f78aa 100644
--- a/pyvallocation/bayesian.py
+++ b/pyvallocation/bayesian.py
@@ -10,6 +10,8 @@ from scipy import linalg as sla
 from scipy.stats import chi2
 import pandas as pd
 
+from .utils.weights import align_to_labels
+
 
 def _to_numpy(x: Union[npt.NDArray[np.floating], pd.Series, pd.DataFrame]) -> npt.NDArray[np.floating]:
     """Return ``x`` as a NumPy array with ``float`` dtype.
@@ -350,6 +352,9 @@ class NIWPosterior:
                 "Posterior already computed. Create a new NIWPosterior for a fresh update."
             )
 
+        labels = None if self._asset_index is None else list(self._asset_index)
+        sample_mu = align_to_labels(sample_mu, labels, "sample_mu")
+
         # Convert pandas inputs if present
         if isinstance(sample_mu, pd.Series):
             smu = sample_mu.values.astype(float)
@@ -363,6 +368,10 @@ class NIWPosterior:
             raise ValueError("`n_obs` (number of observations) must be strictly positive.")
 
         if isinstance(sample_sigma, pd.DataFrame):
+            if labels is not None and not isinstance(sample_sigma.index, pd.RangeIndex):
+                if set(sample_sigma.index) != set(labels) or set(sample_sigma.columns) != set(labels):
+                    raise ValueError("`sample_sigma` labels do not match the prior's asset labels.")
+                sample_sigma = sample_sigma.loc[labels, labels]
             ssigma = sample_sigma.values.astype(float)
         else:
             ssigma = np.asarray(sample_sigma, dtype=float)
-- 
2.43.0


From 364feea21fb2995977106b838a7bb7ec602ef021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:18 +0000
Subject: [PATCH 29/50] fix: scale the log covariance linearly with the horizon
 in the exact simple-return uncertainty

---
 pyvallocation/bayesian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyvallocation/bayesian.py b/pyvallocation/bayesian.py
index 19f78aa..e02b218 100644
--- a/pyvallocation/bayesian.py
+++ b/pyvallocation/bayesian.py
@@ -767,7 +767,7 @@ class RobustBayesPosterior:
         mu_log = mu_np * annualization_factor
         s_mu_log = s_mu_np * (annualization_factor ** 2)
         if exact:
-            sigma_log = sigma_np * (annualization_factor ** 2)
+            sigma_log = sigma_np * annualization_factor
             scale = np.exp(mu_log + 0.5 * np.diag(sigma_log))
         else:
             scale = np.exp(mu_log)
-- 
2.43.0


From 789f15f4935519d2d4fca470769694354d75947d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:01 +0000
Subject: [PATCH 30/50] fix: flexible views accept a single asset

---
 pyvallocation/views.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyvallocation/views.py b/pyvallocation/views.py
index 364ceee..297d40b 100644
--- a/pyvallocation/views.py
+++ b/pyvallocation/views.py
@@ -574,7 +574,7 @@ class FlexibleViewsProcessor:
             self.p0 = np.full((S, 1), 1.0 / S)
 
         self.mu0 = (self.R.T @ self.p0).flatten()
-        self.cov0 = np.cov(self.R.T, aweights=self.p0.flatten(), bias=True)
+        self.cov0 = np.atleast_2d(np.cov(self.R.T, aweights=self.p0.flatten(), bias=True))
         self.var0 = np.diag(self.cov0)
 
         def _vec_to_dict(vec_like, name):
@@ -624,7 +624,7 @@ class FlexibleViewsProcessor:
 
         q = self.posterior_probabilities
         mu_post = (self.R.T @ q).flatten()
-        cov_post = np.cov(self.R.T, aweights=q.flatten(), bias=True)
+        cov_post = np.atleast_2d(np.cov(self.R.T, aweights=q.flatten(), bias=True))
 
         if self._use_pandas:
             self.posterior_returns = pd.Series(mu_post, index=self.assets)
-- 
2.43.0


From 64f4db41b3c2cc6cf6a25130b573d051b813f96a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:05 +0000
Subject: [PATCH 31/50] fix: keep the ranking view of a pair that also has a
 mean view

---
 pyvallocation/views.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pyvallocation/views.py b/pyvallocation/views.py
index 297d40b..b9b8d97 100644
--- a/pyvallocation/views.py
+++ b/pyvallocation/views.py
@@ -617,6 +617,11 @@ class FlexibleViewsProcessor:
                 pair = (rank_mean[i], rank_mean[i + 1])
                 if pair not in self.mean_views:
                     self.mean_views[pair] = (">=", 0.0)
+                elif pair[::-1] not in self.mean_views:
+                    # the pair already carries a view: state the ranking the other way round
+                    self.mean_views[pair[::-1]] = ("<=", 0.0)
+                else:
+                    raise ValueError(f"`rank_mean` pair {pair} already has views in both directions.")
 
         self.sequential = bool(sequential)
 
-- 
2.43.0


From 3afa4a347b4a5c3e65a689fa04bbb52485d87bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:25 +0000
Subject: [PATCH 32/50] fix: one-shot entropy pooling states quantile views
 together with the moment views

---
 pyvallocation/views.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pyvallocation/views.py b/pyvallocation/views.py
index b9b8d97..c1a3ac0 100644
--- a/pyvallocation/views.py
+++ b/pyvallocation/views.py
@@ -1041,6 +1041,7 @@ class FlexibleViewsProcessor:
         if not has_any:
             return p0
 
+        simultaneous: Tuple[list, list, list, list] = ([], [], [], [])
         if self.sequential:
             q_result = p0
             view_blocks = [
@@ -1083,6 +1084,7 @@ class FlexibleViewsProcessor:
                     G_all.extend(G)
                     h_all.extend(h)
 
+            simultaneous = (list(A_all), list(b_all), list(G_all), list(h_all))
             if A_all or G_all:
                 q_result = do_ep(p0, A_all, b_all, G_all, h_all)
             else:
@@ -1090,7 +1092,8 @@ class FlexibleViewsProcessor:
 
         # --- Quantile (VaR) views: P(R_i <= level) {op} probability ---
         if self.quantile_views:
-            A_q, b_q, G_q, h_q = [], [], [], []
+            # one-shot pooling states them together with the moment views
+            A_q, b_q, G_q, h_q = (list(rows) for rows in simultaneous)
             for asset, spec in self.quantile_views.items():
                 idx = self._asset_idx(asset)
                 if isinstance(spec, (list, tuple)) and len(spec) == 2:
@@ -1114,7 +1117,7 @@ class FlexibleViewsProcessor:
                         G_q.append(-indicator)
                         h_q.append(-prob)
             if A_q or G_q:
-                q_result = do_ep(q_result, A_q, b_q, G_q, h_q)
+                q_result = do_ep(q_result if self.sequential else p0, A_q, b_q, G_q, h_q)
 
         # --- CVaR views (recursive EP, Meucci 2011 ssrn-1542083) ---
         if self.cvar_views:
-- 
2.43.0


From da6b21f4ad6096f3483b4f869af15ac6f8175402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:29 +0000
Subject: [PATCH 33/50] fix: read a Black-Litterman prior covariance by its
 labels

---
 pyvallocation/views.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyvallocation/views.py b/pyvallocation/views.py
index c1a3ac0..c99a2f4 100644
--- a/pyvallocation/views.py
+++ b/pyvallocation/views.py
@@ -1336,6 +1336,9 @@ class BlackLittermanProcessor:
 
         # ---------- \Sigma (prior covariance) --------------------------------
         self._is_pandas: bool = isinstance(prior_cov, pd.DataFrame)
+        if self._is_pandas and list(prior_cov.columns) != list(prior_cov.index):
+            if set(prior_cov.columns) == set(prior_cov.index):
+                prior_cov = prior_cov[list(prior_cov.index)]
         self._assets: List[Union[str, int]] = (
             list(prior_cov.index)
             if self._is_pandas
-- 
2.43.0


From e089e7375dea0bd650192fdd604f5f967ba38ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:53 +0000
Subject: [PATCH 34/50] fix: James-Stein shrinkage of a single mean moved it
 away from a custom target

---
 pyvallocation/moments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyvallocation/moments.py b/pyvallocation/moments.py
index dca1df7..4b70dde 100644
--- a/pyvallocation/moments.py
+++ b/pyvallocation/moments.py
@@ -975,7 +975,7 @@ def shrink_mean_james_stein(
     if quad <= 0.0:
         shrink = 0.0
     else:
-        shrink = max(0.0, 1.0 - (N - 2.0) / quad)
+        shrink = min(1.0, max(0.0, 1.0 - (N - 2.0) / quad))
     mu_js = mu_target + shrink * diff
     return _wrap(mu_js, _labels(mu_hat, S), True)
 
-- 
2.43.0


From 68135a7351f16d3a15aced5174a5d8a48b435994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:53 +0000
Subject: [PATCH 35/50] fix: estimate_moments returned a scalar, or failed, for
 the covariance of a single asset

---
 pyvallocation/moments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyvallocation/moments.py b/pyvallocation/moments.py
index 4b70dde..d7cf2aa 100644
--- a/pyvallocation/moments.py
+++ b/pyvallocation/moments.py
@@ -1226,7 +1226,7 @@ def estimate_moments(
     if p is None:
         mu_sample = X.mean(axis=0)
         # Use ddof=0 (MLE) for consistency with estimate_sample_moments
-        S_sample = np.cov(X, rowvar=False, ddof=0)
+        S_sample = np.atleast_2d(np.cov(X, rowvar=False, ddof=0))
         mu_sample_wrapped = _wrap(mu_sample, labels, True)
         S_sample_wrapped = _wrap(S_sample, labels, False)
     else:
-- 
2.43.0


From cb4daedf31617e188580123c8fc5c1bb28321272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:54 +0000
Subject: [PATCH 36/50] fix: a labelled James-Stein target was read by position

---
 pyvallocation/moments.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyvallocation/moments.py b/pyvallocation/moments.py
index d7cf2aa..77b2229 100644
--- a/pyvallocation/moments.py
+++ b/pyvallocation/moments.py
@@ -128,6 +128,7 @@ from pyvallocation.utils.validation import (
     check_weights_sum_to_one,
     ensure_psd_matrix,
 )
+from pyvallocation.utils.weights import align_to_labels
 
 import pandas as pd
 
@@ -963,6 +964,7 @@ def shrink_mean_james_stein(
             raise ValueError("`target` must be 'grand_mean' or an array-like.")
         mu_target = np.full_like(mu_arr, mu_arr.mean())
     else:
+        target = align_to_labels(target, _labels(mu_hat, S), "target")
         mu_target = np.asarray(target, dtype=float).reshape(-1)
         if mu_target.size != N:
             raise ValueError("Custom target must have length N.")
-- 
2.43.0


From 7a70f11f9dcd2c67ac7bffd7cdd3d68bfc562475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:13 +0000
Subject: [PATCH 37/50] fix: accept a single asset in the POET and Tyler
 covariances

---
 pyvallocation/moments.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyvallocation/moments.py b/pyvallocation/moments.py
index 77b2229..af2edd8 100644
--- a/pyvallocation/moments.py
+++ b/pyvallocation/moments.py
@@ -520,7 +520,7 @@ def factor_covariance_poet(
     else:
         scale = np.ones(N, dtype=float)
     X_scaled = X_centered / scale
-    S_scaled = np.cov(X_scaled, rowvar=False, ddof=1)
+    S_scaled = np.atleast_2d(np.cov(X_scaled, rowvar=False, ddof=1))
     eigvals, eigvecs = np.linalg.eigh(S_scaled)
     order = np.argsort(eigvals)[::-1]
     eigvals = eigvals[order]
@@ -651,7 +651,7 @@ def robust_covariance_tyler(
         raise ValueError("`shrinkage` must lie in [0, 1].")
 
     X = X - X.mean(axis=0, keepdims=True)
-    sample_cov = np.cov(X, rowvar=False, ddof=1)
+    sample_cov = np.atleast_2d(np.cov(X, rowvar=False, ddof=1))
     sample_cov = ensure_psd_matrix(sample_cov)
     trace_target = np.trace(sample_cov) / max(N, 1)
     if trace_target <= 0.0:
-- 
2.43.0


From d929d5a0999e3d67b8c7c73f7f106772c976074e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:13 +0000
Subject: [PATCH 38/50] fix: read a labelled Tyler target by its labels

---
 pyvallocation/moments.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pyvallocation/moments.py b/pyvallocation/moments.py
index af2edd8..62c05f8 100644
--- a/pyvallocation/moments.py
+++ b/pyvallocation/moments.py
@@ -661,6 +661,13 @@ def robust_covariance_tyler(
             raise ValueError("`target` must be 'identity' or an array-like.")
         target_matrix = np.eye(N)
     else:
+        labels = _labels(R)
+        if (
+            labels is not None
+            and isinstance(target, pd.DataFrame)
+            and set(target.index) == set(target.columns) == set(labels)
+        ):
+            target = target.loc[labels, labels]
         target_matrix = np.asarray(target, dtype=float)
         if target_matrix.shape != (N, N):
             raise ValueError("Custom target must have shape (N, N).")
-- 
2.43.0


From 820ede30f5fe1fee0f219a37984fe754d944b857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:04 +0000
Subject: [PATCH 39/50] fix: Tyler covariance keeps the sample scale

---
 pyvallocation/moments.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyvallocation/moments.py b/pyvallocation/moments.py
index 62c05f8..e216d74 100644
--- a/pyvallocation/moments.py
+++ b/pyvallocation/moments.py
@@ -675,7 +675,7 @@ def robust_covariance_tyler(
         target_matrix = ensure_psd_matrix(target_matrix)
     target_matrix *= N / np.trace(target_matrix)
 
-    covariance = sample_cov / trace_target * N
+    covariance = sample_cov / trace_target
     for _ in range(max_iter):
         try:
             inv_cov = np.linalg.pinv(covariance)
@@ -710,7 +710,7 @@ def robust_covariance_tyler(
             max_iter, delta / denom, tol,
         )
 
-    covariance *= trace_target / N
+    covariance *= trace_target
     covariance = 0.5 * (covariance + covariance.T)
     if ensure_psd:
         covariance = ensure_psd_matrix(covariance)
-- 
2.43.0


From d9632470fea026ea9b8121164b664d85a2137436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:33:34 +0000
Subject: [PATCH 40/50] fix: ensembles of equally named specs blend every
 frontier

---
 pyvallocation/ensembles.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyvallocation/ensembles.py b/pyvallocation/ensembles.py
index 4bf7362..42eff9c 100644
--- a/pyvallocation/ensembles.py
+++ b/pyvallocation/ensembles.py
@@ -552,12 +552,14 @@ def assemble_portfolio_ensemble(
         raise ValueError("At least one EnsembleSpec must be provided.")
 
     frontiers: Dict[str, "PortfolioFrontier"] = {}
+    frontier_list: List["PortfolioFrontier"] = []
     selections: List[pd.Series] = []
     metadata: Dict[str, Dict[str, Any]] = {}
 
     for spec in specs:
         frontier = spec.frontier_factory()
         frontiers[spec.name] = frontier
+        frontier_list.append(frontier)
         metadata[spec.name] = dict(spec.metadata or {})
         selected = _coerce_weights_series(frontier, spec.selector(frontier), spec.name)
         selections.append(selected)
@@ -589,7 +591,6 @@ def assemble_portfolio_ensemble(
                 else:
                     raise ValueError(f"Unsupported ensemble option '{entry}'.")
         else:  # combine on full frontier matrices
-            frontier_list = [frontiers[spec.name] for spec in specs]
             selections_norm = [
                 None if spec.frontier_selection is None else list(spec.frontier_selection)
                 for spec in specs
-- 
2.43.0


From be77ac73328dc95cef829810a72b8e1f6a2e39d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:33:34 +0000
Subject: [PATCH 41/50] fix: accept optimiser callables without a __name__

---
 pyvallocation/ensembles.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyvallocation/ensembles.py b/pyvallocation/ensembles.py
index 42eff9c..155b14f 100644
--- a/pyvallocation/ensembles.py
+++ b/pyvallocation/ensembles.py
@@ -751,7 +751,7 @@ def make_portfolio_spec(
     selector_fn = _build_selector(selector, selector_kwargs, name)
 
     spec_metadata = dict(metadata or {})
-    spec_metadata.setdefault("optimiser", optimiser if isinstance(optimiser, str) else optimiser.__name__)
+    spec_metadata.setdefault("optimiser", optimiser if isinstance(optimiser, str) else getattr(optimiser, "__name__", type(optimiser).__name__))
     spec_metadata.setdefault("mean_estimator", mean_estimator)
     spec_metadata.setdefault("cov_estimator", cov_estimator)
     spec_metadata.setdefault("use_scenarios", use_scenarios)
-- 
2.43.0


From d3aac6216c05eecd63fe4077cb554ee8d039e353 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 06:39:56 +0000
Subject: [PATCH 42/50] fix: linear_map returns a copy even when it changes
 nothing

---
 pyvallocation/stress.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyvallocation/stress.py b/pyvallocation/stress.py
index 7e139da..e78ce8d 100644
--- a/pyvallocation/stress.py
+++ b/pyvallocation/stress.py
@@ -409,7 +409,7 @@ def linear_map(
         Returns:
             np.ndarray: Transformed scenarios.
         """
-        X = np.asarray(R, dtype=float)
+        X = np.array(R, dtype=float)
         if matrix is not None:
             mat = np.asarray(matrix, dtype=float)
             X = X @ mat.T
-- 
2.43.0


From bb3552cdb32490e6f74c356a351492651033e2e9 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 06:47:56 +0000
Subject: [PATCH 43/50] fix: match scenario probabilities to scenarios by label

---
 pyvallocation/portfolioapi.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pyvallocation/portfolioapi.py b/pyvallocation/portfolioapi.py
index ab11d7e..2021991 100644
--- a/pyvallocation/portfolioapi.py
+++ b/pyvallocation/portfolioapi.py
@@ -122,6 +122,13 @@ class AssetsDistribution:
             cov = np.asarray(cov, dtype=float)
 
         if isinstance(scenarios, pd.DataFrame):
+            if (
+                isinstance(probs, pd.Series)
+                and probs.index.is_unique
+                and len(probs) == len(scenarios.index)
+                and set(probs.index) == set(scenarios.index)
+            ):
+                probs = probs.reindex(scenarios.index)
             asset_names = _merge_names(asset_names, scenarios.columns)
             scenarios = scenarios.to_numpy(dtype=float)
         elif scenarios is not None:
-- 
2.43.0


From 64cb1e2daf77c1f5ec97f52b3ce2ce70e4c199ca Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 06:48:15 +0000
Subject: [PATCH 44/50] fix: from_prices rejects infinite prices in tables too

---
 pyvallocation/portfolioapi.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyvallocation/portfolioapi.py b/pyvallocation/portfolioapi.py
index 2021991..544e018 100644
--- a/pyvallocation/portfolioapi.py
+++ b/pyvallocation/portfolioapi.py
@@ -1004,6 +1004,8 @@ class PortfolioWrapper:
                 raise ValueError("`prices` must have at least 2 rows to compute returns.")
             if prices.isnull().any().any():
                 raise ValueError("`prices` contains NaN values. Fill or drop missing data before calling from_prices.")
+            if np.isinf(prices.to_numpy(dtype=float)).any():
+                raise ValueError("`prices` contains infinite values.")
             if (prices <= 0).any().any():
                 raise ValueError("`prices` contains non-positive values. Prices must be strictly positive.")
             returns = prices.pct_change().iloc[1:]
-- 
2.43.0


From 521d89d19132c6b71c3ac7f5dbcfed478978dffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:04:40 +0000
Subject: [PATCH 45/50] fix: plot_frontier_report(selection='tangency') loses
 the risk-free rate and always raises

---
 pyvallocation/plotting.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyvallocation/plotting.py b/pyvallocation/plotting.py
index 89f7331..fd47dd2 100644
--- a/pyvallocation/plotting.py
+++ b/pyvallocation/plotting.py
@@ -948,7 +948,7 @@ def plot_frontier_report(
         elif selection_key in {"max_return", "maximum_return"}:
             selected_weights, selected_return, selected_risk = frontier.max_return()
         elif selection_key in {"tangency", "max_sharpe", "sharpe"}:
-            rf = float(selection_kwargs.pop("risk_free_rate", 0.0))
+            rf = float(selection_kwargs.get("risk_free_rate", 0.0))
             selected_weights, selected_return, selected_risk = frontier.tangency(rf)
         elif selection_key in {"risk_target", "max_return_subject_to_risk"}:
             max_risk = float(selection_kwargs.pop("max_risk"))
@@ -983,7 +983,7 @@ def plot_frontier_report(
         frontier,
         ax=ax_frontier,
         highlight=highlight,
-        risk_free_rate=selection_kwargs.get("risk_free_rate"),
+        risk_free_rate=selection_kwargs.get("risk_free_rate", 0.0),
         show_points=show_points,
         percent_axes=percent_axes,
         risk_label=risk_label,
-- 
2.43.0


From 5e1b03d43994dbe1858b4fa8a76369261f32348d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:04:40 +0000
Subject: [PATCH 46/50] fix: plot_frontier_report marks the selection off the
 curve under an alternate risk measure

---
 pyvallocation/plotting.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/pyvallocation/plotting.py b/pyvallocation/plotting.py
index fd47dd2..dc18211 100644
--- a/pyvallocation/plotting.py
+++ b/pyvallocation/plotting.py
@@ -947,9 +947,21 @@ def plot_frontier_report(
             )
         elif selection_key in {"max_return", "maximum_return"}:
             selected_weights, selected_return, selected_risk = frontier.max_return()
+            selected_risk = float(frontier._risk_vector(risk_label)[int(np.argmax(frontier.returns))])
         elif selection_key in {"tangency", "max_sharpe", "sharpe"}:
             rf = float(selection_kwargs.get("risk_free_rate", 0.0))
-            selected_weights, selected_return, selected_risk = frontier.tangency(rf)
+            if risk_label is None:
+                selected_weights, selected_return, selected_risk = frontier.tangency(rf)
+            else:
+                resolved = _resolve_highlight(
+                    frontier,
+                    "tangency",
+                    risk_vector=frontier._risk_vector(risk_label),
+                    risk_free_rate=rf,
+                )
+                if resolved is None:
+                    raise ValueError("The tangency portfolio is undefined for the requested risk measure.")
+                _, selected_risk, selected_return, selected_weights, _ = resolved
         elif selection_key in {"risk_target", "max_return_subject_to_risk"}:
             max_risk = float(selection_kwargs.pop("max_risk"))
             selected_weights, selected_return, selected_risk = frontier.at_risk(
-- 
2.43.0


From 4f7fbd80aa6c13b61e7bbe73970af675824901b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:04:40 +0000
Subject: [PATCH 47/50] fix: plot_frontiers_grid drops frontiers that share a
 label or risk measure

---
 pyvallocation/plotting.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pyvallocation/plotting.py b/pyvallocation/plotting.py
index dc18211..5c7aa3d 100644
--- a/pyvallocation/plotting.py
+++ b/pyvallocation/plotting.py
@@ -444,11 +444,11 @@ def plot_frontiers_grid(
     normalized = _normalize_frontiers(frontiers, labels)
     grouper = by or (lambda supplied, fr: fr.risk_measure or "Risk")
 
-    grouped: "OrderedDict[str, OrderedDict[str, PortfolioFrontier]]" = OrderedDict()
+    grouped: "OrderedDict[str, List[Tuple[str, PortfolioFrontier]]]" = OrderedDict()
     for supplied_label, frontier in normalized:
         key = str(grouper(supplied_label, frontier))
-        bucket = grouped.setdefault(key, OrderedDict())
-        bucket[supplied_label or frontier.risk_measure] = frontier
+        bucket = grouped.setdefault(key, [])
+        bucket.append((supplied_label or frontier.risk_measure, frontier))
 
     if not grouped:
         raise ValueError("No frontiers supplied.")
@@ -458,7 +458,7 @@ def plot_frontiers_grid(
     fig, axes = plt.subplots(rows, cols, figsize=figsize, sharex=sharex, sharey=sharey)
     axes_flat = np.atleast_1d(axes).ravel()
 
-    for ax, (group_name, mapping) in zip(axes_flat, grouped.items()):
+    for ax, (group_name, bucket) in zip(axes_flat, grouped.items()):
         show_legend = legend
         if legend_policy == "auto":
             show_legend = legend and len(grouped) == 1
@@ -470,7 +470,8 @@ def plot_frontiers_grid(
             raise ValueError("`legend_policy` must be 'auto', 'each', or 'none'.")
 
         plot_frontiers(
-            mapping,
+            [frontier for _, frontier in bucket],
+            labels=[label for label, _ in bucket],
             ax=ax,
             highlight=highlight,
             risk_free_rate=risk_free_rate,
-- 
2.43.0


From b6af6b0e779bf31bc32e288bd349389c999a8d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:04:40 +0000
Subject: [PATCH 48/50] fix: plot_frontiers_grid refuses the documented legend
 policy 'all'

---
 pyvallocation/plotting.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyvallocation/plotting.py b/pyvallocation/plotting.py
index 5c7aa3d..0ebb15d 100644
--- a/pyvallocation/plotting.py
+++ b/pyvallocation/plotting.py
@@ -464,10 +464,10 @@ def plot_frontiers_grid(
             show_legend = legend and len(grouped) == 1
         elif legend_policy == "none":
             show_legend = False
-        elif legend_policy == "each":
+        elif legend_policy in {"all", "each"}:
             show_legend = legend
         else:
-            raise ValueError("`legend_policy` must be 'auto', 'each', or 'none'.")
+            raise ValueError("`legend_policy` must be 'auto', 'all', 'each', or 'none'.")
 
         plot_frontiers(
             [frontier for _, frontier in bucket],
-- 
2.43.0


From 429bc9d29c07d6f7fa2693c69fed37431f923073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:04:40 +0000
Subject: [PATCH 49/50] fix: plot_weights(kind='bar') prints percentages
 instead of the asset names

---
 pyvallocation/plotting.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pyvallocation/plotting.py b/pyvallocation/plotting.py
index 0ebb15d..caef50e 100644
--- a/pyvallocation/plotting.py
+++ b/pyvallocation/plotting.py
@@ -534,9 +534,8 @@ def plot_weights(
         try:
             from matplotlib.ticker import FuncFormatter
             fmt = FuncFormatter(lambda x, _pos: f"{x:.1%}")
-            ax.xaxis.set_major_formatter(fmt)
-            if kind == "bar":
-                ax.yaxis.set_major_formatter(fmt)
+            value_axis = ax.xaxis if kind == "barh" else ax.yaxis
+            value_axis.set_major_formatter(fmt)
         except Exception:  # pragma: no cover
             pass
 
-- 
2.43.0


From ee92f493c12aab5c68457d29726e9ad97ba469e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:04:40 +0000
Subject: [PATCH 50/50] fix: plot_param_impact cannot draw on the axes it is
 given

---
 pyvallocation/plotting.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyvallocation/plotting.py b/pyvallocation/plotting.py
index caef50e..0491330 100644
--- a/pyvallocation/plotting.py
+++ b/pyvallocation/plotting.py
@@ -642,8 +642,8 @@ def plot_param_impact(
     if ax is None:
         fig, axes = plt.subplots(1, 2, figsize=(8, 3))
     else:
-        fig = ax.figure
-        axes = ax
+        axes = tuple(np.ravel(ax))
+        fig = axes[0].figure
 
     ax_return, ax_risk = axes
     ax_return.plot(values, returns, marker="o")
-- 
2.43.0

