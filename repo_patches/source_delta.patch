From ec06f9fa122b49d4533bcdfc64552891c50227aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:45 +0000
Subject: [PATCH 01/26] fix: derivatives of the Hayhurst-Leckie damage rate

The derivative with respect to damage missed the factor (xi - phi) and the
derivative with respect to stress missed the factor xi / A, so the implicit
solve and the adjoint gradients used the wrong Jacobian.
---
 pyoptmat/damage.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pyoptmat/damage.py b/pyoptmat/damage.py
index 32cce5c..d9c2a80 100644
--- a/pyoptmat/damage.py
+++ b/pyoptmat/damage.py
@@ -111,9 +111,9 @@ class HayhurstLeckie(DamageModel):
         """
         return (torch.abs(s) / self.A(T)) ** self.xi(T) * (1 - d) ** (
             self.xi(T) - self.phi(T)
-        ), -((torch.abs(s) / self.A(T)) ** self.xi(T)) * (1 - d) ** (
-            self.xi(T) - self.phi(T) - 1
-        )
+        ), -(self.xi(T) - self.phi(T)) * (torch.abs(s) / self.A(T)) ** self.xi(
+            T
+        ) * (1 - d) ** (self.xi(T) - self.phi(T) - 1)
 
     def d_damage_rate_d_s(self, s, d, t, T, e):
         """
@@ -126,7 +126,9 @@ class HayhurstLeckie(DamageModel):
           T (torch.tensor):      temperature
         """
         return (
-            (torch.abs(s) / self.A(T)) ** (self.xi(T) - 1)
+            self.xi(T)
+            / self.A(T)
+            * (torch.abs(s) / self.A(T)) ** (self.xi(T) - 1)
             * (1 - d) ** (self.xi(T) - self.phi(T))
             * torch.sign(s)
         )
-- 
2.43.0


From 935f777428578752594510dbf1f0549c710d4569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:10 +0000
Subject: [PATCH 02/26] fix: damage entry of the damaged model Jacobian

The damage rate is evaluated at the effective stress s / (1 - d), so its
derivative with respect to the damage has a chain rule term through the
effective stress, which was missing.
---
 pyoptmat/models.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pyoptmat/models.py b/pyoptmat/models.py
index 19d4d1d..2dc3cdf 100644
--- a/pyoptmat/models.py
+++ b/pyoptmat/models.py
@@ -237,7 +237,12 @@ class DamagedInelasticModel(nn.Module):
                     / (1 - d)
                 )[..., None, None],
                 torch.zeros_like(h).unsqueeze(-2),
-                ddrate[..., None, None],
+                (
+                    ddrate
+                    + self.dmodel.d_damage_rate_d_s(stress / (1 - d), d, t, T, erate)
+                    * stress
+                    / (1 - d) ** 2
+                )[..., None, None],
             ],
             dim=-1,
         )
-- 
2.43.0


From e93fe7ff15badf6302b396fe978098d4db0136d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:10 +0000
Subject: [PATCH 03/26] fix: Jacobian of the stress-controlled model

The history and damage rates may depend on the total strain rate, which in
stress control is itself a function of the state.  The Jacobian neglected
that dependence.
---
 pyoptmat/models.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pyoptmat/models.py b/pyoptmat/models.py
index 2dc3cdf..c321733 100644
--- a/pyoptmat/models.py
+++ b/pyoptmat/models.py
@@ -555,8 +555,13 @@ class StressBasedModel(nn.Module):
         yp[..., 0] = cs
         ydot, J, Je, _ = self.model(t, yp, erate[..., 0], cT)
 
-        # Rescale the jacobian
-        J[..., 0, :] = -J[..., 0, :] / Je[..., 0][..., None]
+        # Derivative of the strain rate with respect to the state
+        de = -J[..., 0, :] / Je[..., 0][..., None]
+
+        # Rescale the jacobian, the other rates also depend on the state
+        # through the strain rate
+        J = J + Je[..., :, None] * de[..., None, :]
+        J[..., 0, :] = de
         J[..., :, 0] = 0
 
         # Insert the strain rate
-- 
2.43.0


From b2fced98552506a0666630987a57cb177f2c5de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:10 +0000
Subject: [PATCH 04/26] fix: Newton solvers modified the caller's starting
 point in place

The in-place update overwrote the tensor passed in as the initial guess and
broke backpropagation through functions that save it (for example stress
control with a flow rule depending on the total strain rate).
---
 pyoptmat/chunktime.py | 2 +-
 pyoptmat/solvers.py   | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyoptmat/chunktime.py b/pyoptmat/chunktime.py
index a84e0c1..55172e3 100644
--- a/pyoptmat/chunktime.py
+++ b/pyoptmat/chunktime.py
@@ -48,7 +48,7 @@ def newton_raphson_chunk(
     i = 0
 
     while (i < miter) and torch.any(nR > atol) and torch.any(nR / nR0 > rtol):
-        x -= solver.solve(J, R)
+        x = x - solver.solve(J, R)
         R, J = fn(x)
         nR = torch.norm(R, dim=-1)
         i += 1
diff --git a/pyoptmat/solvers.py b/pyoptmat/solvers.py
index 5044715..cb46282 100644
--- a/pyoptmat/solvers.py
+++ b/pyoptmat/solvers.py
@@ -114,7 +114,7 @@ def newton_raphson(fn, x0, linsolver="lu", rtol=1e-6, atol=1e-10, miter=100):
     i = 0
 
     while (i < miter) and torch.any(nR > atol) and torch.any(nR / nR0 > rtol):
-        x -= solver(J, R)
+        x = x - solver(J, R)
         R, J = fn(x)
         nR = torch.norm(R, dim=-1)
         i += 1
@@ -418,7 +418,7 @@ class PreconditionerReuseNonlinearSolver:
                 return_iters=True,
                 tol=ltol,
             )
-            x -= dx
+            x = x - dx
             R, J = fn(x)
             if niter > l_refactor:
                 self._update_preconditioner(J)
-- 
2.43.0


From 99984a575ffdbb50621671c93de0ea5e5a58d13a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:07 +0000
Subject: [PATCH 05/26] fix: reusing a PCR or hybrid bidiagonal factorization

The cyclic reduction overwrote the stored off diagonal blocks, so every
solve after the first one with the same factorization was wrong.
---
 pyoptmat/chunktime.py | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/pyoptmat/chunktime.py b/pyoptmat/chunktime.py
index 55172e3..13a425c 100644
--- a/pyoptmat/chunktime.py
+++ b/pyoptmat/chunktime.py
@@ -229,17 +229,14 @@ class BidiagonalPCRFactorization(LUFactorization):
             v (torch.tensor): tensor of shape (nblk, sbat, sblk, 1)
         """
         # We could do this in place if it wasn't for the pad
-        self.B = pad(self.B, (0, 0, 0, 0, 0, 0, 1, 0))
+        B = pad(self.B, (0, 0, 0, 0, 0, 0, 1, 0))
 
         # Now figure out how many powers of 2 we need to complete our matrix
         for s, e in zip(*self._pow2(self.nblk)):
-            self.B[s + 1 : e], v[s + 1 : e] = self._solve_block(
-                self.lu[s:e], self.pivots[s:e], self.B[s:e], v[s:e]
+            B[s + 1 : e], v[s + 1 : e] = self._solve_block(
+                self.lu[s:e], self.pivots[s:e], B[s:e], v[s:e]
             )
 
-        # To retain consistent sizes
-        self.B = self.B[1:]
-
         return torch.linalg.lu_solve(self.lu, self.pivots, v)
 
     def _solve_block(self, lu, pivots, B, v):
@@ -355,20 +352,17 @@ class BidiagonalHybridFactorization(BidiagonalPCRFactorization):
             v (torch.tensor): tensor of shape (nblk, sbat, sblk, 1)
         """
         # We could do this in place if it wasn't for the pad
-        self.B = pad(self.B, (0, 0, 0, 0, 0, 0, 1, 0))
+        B = pad(self.B, (0, 0, 0, 0, 0, 0, 1, 0))
 
         # Get the PCR blocks to actually use
         start, end, last = self._pcr_blocks()
 
         # Do PCR
         for s, e in zip(start, end):
-            self.B[s + 1 : e], v[s + 1 : e] = self._solve_block(
-                self.lu[s:e], self.pivots[s:e], self.B[s:e], v[s:e]
+            B[s + 1 : e], v[s + 1 : e] = self._solve_block(
+                self.lu[s:e], self.pivots[s:e], B[s:e], v[s:e]
             )
 
-        # To retain consistent sizes
-        self.B = self.B[1:]
-
         # We still need to solve the first block even if last is 0
 
         # The actual LU solve for the solution
-- 
2.43.0


From 2ff9c9c72708b4a691a064d4dfa9bd66b3a18156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:07 +0000
Subject: [PATCH 06/26] fix: bidiagonal solve overwrote the right hand side

With a single batch or a single block the rearranged right hand side is
already contiguous, so the in-place solve worked on the memory of the
caller's tensor.
---
 pyoptmat/chunktime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyoptmat/chunktime.py b/pyoptmat/chunktime.py
index 13a425c..771a9b8 100644
--- a/pyoptmat/chunktime.py
+++ b/pyoptmat/chunktime.py
@@ -163,7 +163,7 @@ class LUFactorization(BidiagonalOperator):
                 v.reshape((self.sbat, self.nblk, self.sblk))
                 .transpose(0, 1)
                 .unsqueeze(-1)
-                .contiguous()
+                .clone(memory_format=torch.contiguous_format)
             )
             .squeeze(-1)
             .transpose(0, 1)
-- 
2.43.0


From d90b4888c65f7fe2c3e5fffd5ee5bafbaeabfe63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:07 +0000
Subject: [PATCH 07/26] fix: failure detection of the chunked Newton solver

A NaN residual ends the iteration and was accepted as a converged solution,
even with throw_on_fail=True, while a solve converging in exactly miter
iterations was reported as failed.
---
 pyoptmat/chunktime.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyoptmat/chunktime.py b/pyoptmat/chunktime.py
index 771a9b8..854146a 100644
--- a/pyoptmat/chunktime.py
+++ b/pyoptmat/chunktime.py
@@ -53,7 +53,10 @@ def newton_raphson_chunk(
         nR = torch.norm(R, dim=-1)
         i += 1
 
-    if i == miter:
+    # Also catch NaN residuals, which end the iteration
+    if torch.any(torch.isnan(nR)) or (
+        torch.any(nR > atol) and torch.any(nR / nR0 > rtol)
+    ):
         if throw_on_fail:
             raise RuntimeError("Implicit solve did not succeed.")
         warnings.warn("Implicit solve did not succeed.  Results may be inaccurate...")
-- 
2.43.0


From 9d2a6a679147804a40739feba0dd87799aad1522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:07 +0000
Subject: [PATCH 08/26] fix: size of the unrolled CSR matrices

The size was inferred from the stored entries, so matrices with empty
trailing rows or columns lost them.
---
 pyoptmat/chunktime.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyoptmat/chunktime.py b/pyoptmat/chunktime.py
index 854146a..fa1a1b4 100644
--- a/pyoptmat/chunktime.py
+++ b/pyoptmat/chunktime.py
@@ -708,6 +708,8 @@ class SquareBatchedBlockDiagonalMatrix:
         """
         coo = self.to_batched_coo()
         return [
-            torch.sparse_coo_tensor(coo.indices(), coo.values()[:, i]).to_sparse_csr()
+            torch.sparse_coo_tensor(
+                coo.indices(), coo.values()[:, i], size=(self.n, self.n)
+            ).to_sparse_csr()
             for i in range(self.sbat)
         ]
-- 
2.43.0


From 386ee5578ce9c2b224b45c83c205a101232daa11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:07 +0000
Subject: [PATCH 09/26] fix: adjoint backward pass with frozen or unused
 parameters

odeint_adjoint failed in the backward pass if any parameter of the ODE did
not require a gradient or did not enter the rate, where odeint worked.
---
 pyoptmat/ode.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pyoptmat/ode.py b/pyoptmat/ode.py
index cb7989f..9815712 100644
--- a/pyoptmat/ode.py
+++ b/pyoptmat/ode.py
@@ -420,7 +420,9 @@ class FixedGridBlockSolver:
         """
         with torch.enable_grad():
             ydot = self.func(t, y)[0]
-            return torch.autograd.grad(ydot, self.adjoint_params, a)
+            return torch.autograd.grad(
+                ydot, self.adjoint_params, a, allow_unused=True, materialize_grads=True
+            )
 
     def rewind(self, output_grad):
         """
@@ -659,7 +661,9 @@ def odeint_adjoint(
     # Grab parameters for backward
     if extra_params is None:
         extra_params = []
-    adjoint_params = tuple(p for p in func.parameters()) + tuple(extra_params)
+    adjoint_params = tuple(
+        p for p in (*func.parameters(), *extra_params) if p.requires_grad
+    )
 
     solver = FixedGridBlockSolver(
         func, y0, scheme=int_methods[method], adjoint_params=adjoint_params, **kwargs
-- 
2.43.0


From 620dff59b6d2e827334321f3a0e9ef7d60e4def5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:07 +0000
Subject: [PATCH 10/26] fix: Kocks-Mecking activation energy ignored the
 scaling of the shear modulus

The value method of a temperature parameter skips its numerical scaling
function.
---
 pyoptmat/flowrules.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyoptmat/flowrules.py b/pyoptmat/flowrules.py
index 249ba36..9af4224 100644
--- a/pyoptmat/flowrules.py
+++ b/pyoptmat/flowrules.py
@@ -208,7 +208,7 @@ class KocksMeckingRegimeFlowRule(FlowRule):
         return (
             self.k
             * T
-            / (self.mu.value(T) * self.b**3.0)
+            / (self.mu(T) * self.b**3.0)
             * torch.log(self.eps0 / (torch.abs(e) + self.eps))
         )
 
@@ -473,7 +473,7 @@ class SoftKocksMeckingRegimeFlowRule(FlowRule):
         return (
             self.k
             * T
-            / (self.mu.value(T) * self.b**3.0)
+            / (self.mu(T) * self.b**3.0)
             * torch.log(self.eps0 / (torch.abs(e) + self.eps))
         )
 
@@ -490,7 +490,7 @@ class SoftKocksMeckingRegimeFlowRule(FlowRule):
             torch.tensor:       derivative of the activation energy
         """
         return -(
-            self.k * T / (self.mu.value(T) * self.b**3.0) / (torch.abs(e) + self.eps)
+            self.k * T / (self.mu(T) * self.b**3.0) / (torch.abs(e) + self.eps)
         ) * torch.sign(e)
 
     def f(self, T, e):
-- 
2.43.0


From 5adf31c0f5dafc4f7938368db0e71d5429ff8e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:07 +0000
Subject: [PATCH 11/26] fix: shape of a batched piecewise temperature parameter

The values have shape (optional_batch, npoints).
---
 pyoptmat/temperature.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyoptmat/temperature.py b/pyoptmat/temperature.py
index 52ddc3f..1f64f57 100644
--- a/pyoptmat/temperature.py
+++ b/pyoptmat/temperature.py
@@ -576,7 +576,7 @@ class PiecewiseScaling(TemperatureParameter):
         """
         Shape of the underlying parameter
         """
-        return self.values.shape[1:]
+        return self.values.shape[:-1]
 
 
 class ArrheniusScaling(TemperatureParameter):
-- 
2.43.0


From c4d25a99983bef5c46acc6098f7349e253fee30e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:34 +0000
Subject: [PATCH 12/26] fix: flow rate derivatives of IsoKinViscoplasticity for
 small exponents

In the elastic region the derivatives raised zero to the power n - 1.  For
n = 1 (the lower limit of the Kocks-Mecking rate sensitivity) this gave a
nonzero derivative of a zero flow rate, and for n < 2 backpropagation through
the derivative gave NaN gradients.
---
 pyoptmat/flowrules.py | 41 ++++++++++++++++++++++++++---------------
 1 file changed, 26 insertions(+), 15 deletions(-)

diff --git a/pyoptmat/flowrules.py b/pyoptmat/flowrules.py
index 9af4224..aacfa27 100644
--- a/pyoptmat/flowrules.py
+++ b/pyoptmat/flowrules.py
@@ -1186,10 +1186,29 @@ class IsoKinViscoplasticity(FlowRule):
             utility.macaulay((torch.abs(s - kh) - self.s0(T) - ih) / self.eta(T))
             ** self.n(T)
             * torch.sign(s - kh),
-            self.n(T)
-            * utility.macaulay((torch.abs(s - kh) - self.s0(T) - ih) / self.eta(T))
-            ** (self.n(T) - 1)
-            / self.eta(T),
+            self._doverstress((torch.abs(s - kh) - self.s0(T) - ih) / self.eta(T), T),
+        )
+
+    def _doverstress(self, iv, T):
+        """
+        The derivative of the magnitude of the flow rate with respect to the
+        overstress, zero in the elastic region
+
+        Args:
+          iv (torch.tensor):  normalized overstress
+          T (torch.tensor):   temperature
+
+        Returns:
+          torch.tensor:       the derivative of the flow rate
+        """
+        # Avoid raising zero to a power in the elastic region: 0^0 = 1 and
+        # the AD derivative of small powers is not finite there
+        active = iv > 0
+        base = torch.where(active, iv, torch.ones_like(iv))
+        return torch.where(
+            active,
+            self.n(T) * base ** (self.n(T) - 1) / self.eta(T),
+            torch.zeros_like(iv),
         )
 
     def dflow_diso(self, s, h, t, T, e):
@@ -1213,12 +1232,7 @@ class IsoKinViscoplasticity(FlowRule):
 
         iv = (torch.abs(s - kh) - self.s0(T) - ih) / self.eta(T)
 
-        return (
-            -self.n(T)
-            * utility.macaulay(iv) ** (self.n(T) - 1)
-            / self.eta(T)
-            * torch.sign(s - kh)
-        )
+        return -self._doverstress(iv, T) * torch.sign(s - kh)
 
     def dflow_dkin(self, s, h, t, T, e):
         """
@@ -1239,11 +1253,8 @@ class IsoKinViscoplasticity(FlowRule):
             h[..., self.isotropic.nhist : self.isotropic.nhist + self.kinematic.nhist]
         )
 
-        return (
-            -self.n(T)
-            * utility.macaulay((torch.abs(s - kh) - self.s0(T) - ih) / self.eta(T))
-            ** (self.n(T) - 1)
-            / self.eta(T)
+        return -self._doverstress(
+            (torch.abs(s - kh) - self.s0(T) - ih) / self.eta(T), T
         )
 
     @property
-- 
2.43.0


From 3f9a3954a7c1c0b137379f1e314e2000714de03c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:11 +0000
Subject: [PATCH 13/26] fix: NaN backpropagation gradients of power laws at
 zero

The power law rates and derivatives raise absolute values to exponents that
can be below one.  Backpropagation through them at zero, where every
integration starts, multiplied an infinite derivative with zero.
---
 pyoptmat/damage.py    |  4 +++-
 pyoptmat/flowrules.py |  2 +-
 pyoptmat/hardening.py | 14 +++++++-------
 pyoptmat/utility.py   | 24 ++++++++++++++++++++++++
 4 files changed, 35 insertions(+), 9 deletions(-)

diff --git a/pyoptmat/damage.py b/pyoptmat/damage.py
index d9c2a80..5379580 100644
--- a/pyoptmat/damage.py
+++ b/pyoptmat/damage.py
@@ -9,6 +9,8 @@
 import torch
 from torch import nn
 
+from pyoptmat import utility
+
 
 class DamageModel(nn.Module):
     """
@@ -128,7 +130,7 @@ class HayhurstLeckie(DamageModel):
         return (
             self.xi(T)
             / self.A(T)
-            * (torch.abs(s) / self.A(T)) ** (self.xi(T) - 1)
+            * utility.abs_pow(s / self.A(T), self.xi(T) - 1)
             * (1 - d) ** (self.xi(T) - self.phi(T))
             * torch.sign(s)
         )
diff --git a/pyoptmat/flowrules.py b/pyoptmat/flowrules.py
index aacfa27..ee7b396 100644
--- a/pyoptmat/flowrules.py
+++ b/pyoptmat/flowrules.py
@@ -1095,7 +1095,7 @@ class PerfectViscoplasticity(FlowRule):
         """
         return (
             (torch.abs(s) / self.eta(T)) ** self.n(T) * torch.sign(s),
-            self.n(T) * (torch.abs(s) / self.eta(T)) ** (self.n(T) - 1) / self.eta(T),
+            self.n(T) * utility.abs_pow(s / self.eta(T), self.n(T) - 1) / self.eta(T),
         )
 
     @property
diff --git a/pyoptmat/hardening.py b/pyoptmat/hardening.py
index 6492e2e..5c5b934 100644
--- a/pyoptmat/hardening.py
+++ b/pyoptmat/hardening.py
@@ -18,7 +18,7 @@ import numpy as np
 import torch
 from torch import nn
 
-from pyoptmat import temperature
+from pyoptmat import temperature, utility
 
 
 class HardeningModel(nn.Module):
@@ -387,7 +387,7 @@ class Theta0RecoveryVoceIsotropicHardeningModel(IsotropicHardeningModel):
             self.theta(T) * (1.0 - h[..., 0] / self.tau(T)) * torch.abs(ep)
             + self.r1(T)
             * (self.R0(T) - h[..., 0])
-            * torch.abs(self.R0(T) - h[..., 0]) ** (self.r2(T) - 1.0),
+            * utility.abs_pow(self.R0(T) - h[..., 0], self.r2(T) - 1.0),
             -1,
         )
 
@@ -420,7 +420,7 @@ class Theta0RecoveryVoceIsotropicHardeningModel(IsotropicHardeningModel):
         recovery = (
             self.r2(T)
             * self.r1(T)
-            * torch.abs(self.R0(T) - h[..., 0]) ** (self.r2(T) - 1.0)
+            * utility.abs_pow(self.R0(T) - h[..., 0], self.r2(T) - 1.0)
         )[..., None, None]
         return (
             -self.theta(T) / self.tau(T) * torch.ones_like(h[..., 0]) * torch.abs(ep)
@@ -642,7 +642,7 @@ class FAKinematicHardeningModel(KinematicHardeningModel):
         return torch.unsqueeze(
             self.C(T) * torch.ones_like(h[..., 0]) * ep
             - self.g(T) * h[..., 0] * torch.abs(ep)
-            - self.b(T) * torch.abs(h[..., 0]) ** (self.r(T) - 1.0) * h[..., 0],
+            - self.b(T) * utility.abs_pow(h[..., 0], self.r(T) - 1.0) * h[..., 0],
             -1,
         )
 
@@ -680,7 +680,7 @@ class FAKinematicHardeningModel(KinematicHardeningModel):
         """
         return (
             -self.g(T) * torch.ones_like(h[..., 0]) * torch.abs(ep)
-            - (self.b(T) * self.r(T) * torch.abs(h[..., 0]) ** (self.r(T) - 1.0))
+            - (self.b(T) * self.r(T) * utility.abs_pow(h[..., 0], self.r(T) - 1.0))
         )[..., None, None]
 
     def dhistory_rate_derate(self, s, h, t, ep, T, e):
@@ -1069,7 +1069,7 @@ class ChabocheHardeningModelRecovery(KinematicHardeningModel):
         return (
             self.C(T)[None, ...] * ep[..., None]
             - self.g(T)[None, ...] * h * torch.abs(ep)[..., None]
-            - self.b(T)[None, ...] * torch.abs(h) ** (self.r(T)[None, ...] - 1.0) * h
+            - self.b(T)[None, ...] * utility.abs_pow(h, self.r(T)[None, ...] - 1.0) * h
         ).reshape(h.shape)
 
     def dhistory_rate_dstress(self, s, h, t, ep, T, e):
@@ -1109,7 +1109,7 @@ class ChabocheHardeningModelRecovery(KinematicHardeningModel):
         ).reshape(h.shape + (self.nback,)) + torch.diag_embed(
             -self.b(T)[None, ...]
             * self.r(T)[None, ...]
-            * torch.abs(h) ** (self.r(T)[None, ...] - 1.0)
+            * utility.abs_pow(h, self.r(T)[None, ...] - 1.0)
         ).reshape(
             h.shape + (self.nback,)
         )
diff --git a/pyoptmat/utility.py b/pyoptmat/utility.py
index 2e57e0c..2dbed65 100644
--- a/pyoptmat/utility.py
+++ b/pyoptmat/utility.py
@@ -509,6 +509,30 @@ def macaulay(X):
     return X * heaviside(X)
 
 
+def abs_pow(X, p):
+    """
+    The power of the absolute value with a backpropagation derivative
+    that remains finite at zero
+
+    .. math::
+
+      f\\left(x\\right) = \\left| x \\right|^p
+
+    Args:
+      X (torch.tensor):  tensor input
+      p (torch.tensor):  exponent
+
+    Returns:
+      torch.tensor:      the absolute value raised to the power
+    """
+    zero = X == 0
+    return torch.where(
+        zero,
+        torch.zeros_like(X) ** p,
+        torch.abs(torch.where(zero, torch.ones_like(X), X)) ** p,
+    )
+
+
 def add_id(df):
     """
     Add the identity to a tensor with the shape of the Jacobian
-- 
2.43.0


From 2f3cab2aba0ad44bb49520868bd2f9beb50e76b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:30 +0000
Subject: [PATCH 14/26] fix: backpropagation through steps starting in
 equilibrium

If the initial guess already solved the implicit equations Newton's method
took no step, so the result of odeint lost its dependence on the state and
the parameters and backpropagation gave wrong gradients.
---
 pyoptmat/chunktime.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyoptmat/chunktime.py b/pyoptmat/chunktime.py
index fa1a1b4..2d37ed4 100644
--- a/pyoptmat/chunktime.py
+++ b/pyoptmat/chunktime.py
@@ -47,7 +47,11 @@ def newton_raphson_chunk(
     nR0 = nR
     i = 0
 
-    while (i < miter) and torch.any(nR > atol) and torch.any(nR / nR0 > rtol):
+    # Take at least one step: if the starting point already is the solution then
+    # the step is zero, but backpropagation still needs it
+    while (i < miter) and (
+        i == 0 or (torch.any(nR > atol) and torch.any(nR / nR0 > rtol))
+    ):
         x = x - solver.solve(J, R)
         R, J = fn(x)
         nR = torch.norm(R, dim=-1)
-- 
2.43.0


From cbd779848db426981f04c60c8371ab047bce43dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:45 +0000
Subject: [PATCH 15/26] fix: GMRES with a zero initial residual in part of the
 batch

---
 pyoptmat/solvers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyoptmat/solvers.py b/pyoptmat/solvers.py
index cb46282..beb76c4 100644
--- a/pyoptmat/solvers.py
+++ b/pyoptmat/solvers.py
@@ -315,7 +315,7 @@ def gmres(
 
     # Basis
     V = torch.zeros((nbatch, b.shape[-1], maxiter + 1), device=A.device)
-    V[..., :, 0] = r / torch.linalg.norm(r, dim=-1)[:, None]
+    V[..., :, 0] = r / (torch.linalg.norm(r, dim=-1)[:, None] + eps)
 
     # Preconditioned basis
     Z = torch.zeros((nbatch, b.shape[-1], maxiter + 1), device=A.device)
-- 
2.43.0


From d7aab243a65f7aa7447d4e4ba82f2fb4707fb5ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:03 +0000
Subject: [PATCH 16/26] fix: NaN interpolation at a repeated first time

---
 pyoptmat/utility.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pyoptmat/utility.py b/pyoptmat/utility.py
index 2dbed65..e955bf6 100644
--- a/pyoptmat/utility.py
+++ b/pyoptmat/utility.py
@@ -298,7 +298,12 @@ class ArbitraryBatchTimeSeriesInterpolator(nn.Module):
         self.times = times.t()
         self.values = data.t()
 
-        self.slopes = torch.diff(self.values, dim=-1) / torch.diff(self.times, dim=-1)
+        dt = torch.diff(self.times, dim=-1)
+        # A repeated time has no slope, it just takes the first value
+        repeated = dt == 0
+        self.slopes = torch.where(
+            repeated, 0.0, torch.diff(self.values, dim=-1) / torch.where(repeated, 1.0, dt)
+        )
 
     def forward(self, t):
         """
-- 
2.43.0


From 7f025d32997fb25124d32fd51231841a57f6e82c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:19 +0000
Subject: [PATCH 17/26] fix: previous-chunk initial guess when the first chunk
 is a partial one

---
 pyoptmat/ode.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyoptmat/ode.py b/pyoptmat/ode.py
index 9815712..e2f949d 100644
--- a/pyoptmat/ode.py
+++ b/pyoptmat/ode.py
@@ -402,8 +402,8 @@ class FixedGridBlockSolver:
                 guess = torch.zeros_like(result[k : k + self.n])
             else:
                 guess = result[(k - self.n) : k] - result[k - self.n - 1].unsqueeze(0)
-            blk = self.n - result[k : k + self.n].shape[0]
-            guess = guess[blk:]
+                blk = self.n - result[k : k + self.n].shape[0]
+                guess = guess[blk:]
         else:
             raise ValueError(f"Unknown initial guess strategy {self.guess_type}!")
 
-- 
2.43.0


From 8fe8e95ee60c8f4451bfa40f8808c01e6b792890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:31 +0000
Subject: [PATCH 18/26] fix: backpropagation through the PCR and hybrid
 bidiagonal solvers

---
 pyoptmat/chunktime.py | 62 ++++++++++++++++++++++++-------------------
 1 file changed, 34 insertions(+), 28 deletions(-)

diff --git a/pyoptmat/chunktime.py b/pyoptmat/chunktime.py
index 2d37ed4..b74a20b 100644
--- a/pyoptmat/chunktime.py
+++ b/pyoptmat/chunktime.py
@@ -10,7 +10,7 @@
 """
 
 import warnings
-from math import prod, log2, floor
+from math import log2, floor
 
 import torch
 from torch.nn.functional import pad
@@ -235,14 +235,12 @@ class BidiagonalPCRFactorization(LUFactorization):
         Args:
             v (torch.tensor): tensor of shape (nblk, sbat, sblk, 1)
         """
-        # We could do this in place if it wasn't for the pad
         B = pad(self.B, (0, 0, 0, 0, 0, 0, 1, 0))
 
         # Now figure out how many powers of 2 we need to complete our matrix
         for s, e in zip(*self._pow2(self.nblk)):
-            B[s + 1 : e], v[s + 1 : e] = self._solve_block(
-                self.lu[s:e], self.pivots[s:e], B[s:e], v[s:e]
-            )
+            vb = self._solve_block(self.lu[s:e], self.pivots[s:e], B[s:e], v[s:e])
+            v = torch.cat((v[: s + 1], vb, v[e:]))
 
         return torch.linalg.lu_solve(self.lu, self.pivots, v)
 
@@ -265,25 +263,39 @@ class BidiagonalPCRFactorization(LUFactorization):
         v = v.unsqueeze(0)
 
         # Actually start reduction!
-        for i in range(niter):
-            # Reduce RHS
-            v[:, 1:] -= mbmm(
-                B[:, 1:], torch.linalg.lu_solve(lu[:, :-1], pivots[:, :-1], v[:, :-1])
+        for _ in range(niter):
+            # Reduce RHS, not in place so that autograd can go through
+            v = torch.cat(
+                (
+                    v[:, :1],
+                    v[:, 1:]
+                    - mbmm(
+                        B[:, 1:],
+                        torch.linalg.lu_solve(lu[:, :-1], pivots[:, :-1], v[:, :-1]),
+                    ),
+                ),
+                dim=1,
             )
 
             # Reduce off diagonal coefficients
-            B[:, 2:] = -mbmm(
-                B[:, 2:],
-                torch.linalg.lu_solve(lu[:, 1:-1], pivots[:, 1:-1], B[:, 1:-1]),
+            B = torch.cat(
+                (
+                    B[:, :2],
+                    -mbmm(
+                        B[:, 2:],
+                        torch.linalg.lu_solve(lu[:, 1:-1], pivots[:, 1:-1], B[:, 1:-1]),
+                    ),
+                ),
+                dim=1,
             )
 
             # Shuffle dimensions
-            v = self._cyclic_shift(v, i)
-            B = self._cyclic_shift(B, i)
-            lu = self._cyclic_shift(lu, i)
-            pivots = self._cyclic_shift(pivots, i)
+            v = self._cyclic_shift(v)
+            B = self._cyclic_shift(B)
+            lu = self._cyclic_shift(lu)
+            pivots = self._cyclic_shift(pivots)
 
-        return B.squeeze(1)[1:], v.squeeze(1)[1:]
+        return v.squeeze(1)[1:]
 
     @staticmethod
     def _pow2(n):
@@ -317,17 +329,13 @@ class BidiagonalPCRFactorization(LUFactorization):
         return start, end
 
     @staticmethod
-    def _cyclic_shift(A, n):
-        """Provide a view of the input with a cyclic shift applied
+    def _cyclic_shift(A):
+        """Separate the even and the odd entries along the second dimension
 
         Args:
             A (torch.tensor): input tensor
-            n (int): number of cyclic shifts
         """
-        return A.as_strided(
-            (A.shape[0] * 2, A.shape[1] // 2) + A.shape[2:],
-            (prod(A.shape[2:]), 2 ** (n + 1) * prod(A.shape[2:])) + A.stride()[2:],
-        )
+        return torch.cat((A[:, 0::2], A[:, 1::2]))
 
 
 class BidiagonalHybridFactorization(BidiagonalPCRFactorization):
@@ -358,7 +366,6 @@ class BidiagonalHybridFactorization(BidiagonalPCRFactorization):
         Args:
             v (torch.tensor): tensor of shape (nblk, sbat, sblk, 1)
         """
-        # We could do this in place if it wasn't for the pad
         B = pad(self.B, (0, 0, 0, 0, 0, 0, 1, 0))
 
         # Get the PCR blocks to actually use
@@ -366,9 +373,8 @@ class BidiagonalHybridFactorization(BidiagonalPCRFactorization):
 
         # Do PCR
         for s, e in zip(start, end):
-            B[s + 1 : e], v[s + 1 : e] = self._solve_block(
-                self.lu[s:e], self.pivots[s:e], B[s:e], v[s:e]
-            )
+            vb = self._solve_block(self.lu[s:e], self.pivots[s:e], B[s:e], v[s:e])
+            v = torch.cat((v[: s + 1], vb, v[e:]))
 
         # We still need to solve the first block even if last is 0
 
-- 
2.43.0


From deb0b5845d0a797c22b5e539f0327a8f86496ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:08 +0000
Subject: [PATCH 19/26] fix: accuracy of backpropagation through the chunked
 Newton iteration

---
 pyoptmat/chunktime.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/pyoptmat/chunktime.py b/pyoptmat/chunktime.py
index b74a20b..db7db8a 100644
--- a/pyoptmat/chunktime.py
+++ b/pyoptmat/chunktime.py
@@ -47,11 +47,7 @@ def newton_raphson_chunk(
     nR0 = nR
     i = 0
 
-    # Take at least one step: if the starting point already is the solution then
-    # the step is zero, but backpropagation still needs it
-    while (i < miter) and (
-        i == 0 or (torch.any(nR > atol) and torch.any(nR / nR0 > rtol))
-    ):
+    while (i < miter) and torch.any(nR > atol) and torch.any(nR / nR0 > rtol):
         x = x - solver.solve(J, R)
         R, J = fn(x)
         nR = torch.norm(R, dim=-1)
@@ -65,6 +61,12 @@ def newton_raphson_chunk(
             raise RuntimeError("Implicit solve did not succeed.")
         warnings.warn("Implicit solve did not succeed.  Results may be inaccurate...")
 
+    # Backpropagating through the iteration provides the derivatives at the next
+    # to last iterate, so add the derivatives (but not the value) of one more step
+    if R.requires_grad:
+        dx = solver.solve(J, R)
+        x = x - (dx - dx.detach())
+
     return x
 
 
-- 
2.43.0


From 81e35860ada6c4b522f58f45b78480ab33883981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:54 +0000
Subject: [PATCH 20/26] fix: interpolation at times with several leading
 dimensions

---
 pyoptmat/utility.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pyoptmat/utility.py b/pyoptmat/utility.py
index e955bf6..b6dd064 100644
--- a/pyoptmat/utility.py
+++ b/pyoptmat/utility.py
@@ -316,10 +316,13 @@ class ArbitraryBatchTimeSeriesInterpolator(nn.Module):
           torch.tensor:       batched values at :code:`t`
         """
         squeeze = t.dim() == 1
+        shape = t.shape
 
-        t = t.t()  # Transpose so the common dimension is first
         if squeeze:
             t = t.unsqueeze(-1)
+        else:
+            # Flatten the other dimensions and put the common dimension first
+            t = t.reshape(-1, shape[-1]).t()
 
         # Which dimensions to offset -- likely there is some efficiency
         # to be gained by flipping these, but probably depends on the
@@ -344,7 +347,7 @@ class ArbitraryBatchTimeSeriesInterpolator(nn.Module):
         if squeeze:
             return poss[locs].squeeze(-1).t()
 
-        return poss[locs].reshape(t.shape).t()
+        return poss[locs].reshape(t.shape).t().reshape(shape)
 
 
 class BatchTimeSeriesInterpolator(nn.Module):
-- 
2.43.0


From 48528a6c1bad90a403d893190571872d28567935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:45 +0000
Subject: [PATCH 21/26] fix: numerical differentiation of and with respect to
 vectors and matrices

---
 pyoptmat/utility.py | 32 ++++++++++----------------------
 1 file changed, 10 insertions(+), 22 deletions(-)

diff --git a/pyoptmat/utility.py b/pyoptmat/utility.py
index b6dd064..93cc6db 100644
--- a/pyoptmat/utility.py
+++ b/pyoptmat/utility.py
@@ -150,18 +150,16 @@ def batch_differentiate(fn, x0, eps=1.0e-6, nbatch_dim=1):
 
     for i2 in np.ndindex(s2):
         dx = torch.zeros_like(x0)
-        inc = torch.abs(x0[..., i2]) * eps
+        inc = torch.abs(x0[(...,) + i2]) * eps
         inc[inc < eps] = eps
-        dx[..., i2] = inc
+        dx[(...,) + i2] = inc
 
         x = x0 + dx
         if squeeze2:
             x = x.squeeze(-1)
 
         v1 = fn(x).reshape(bs + s1)
-        d[..., i2] = (v1 - v0).unsqueeze(-1).expand(d[..., i2].shape) / inc.unsqueeze(
-            -2
-        ).expand(d[..., i2].shape)
+        d[(...,) + i2] = (v1 - v0) / inc.reshape(bs + (1,) * len(s1))
 
     if squeeze1 and squeeze2:
         d = d.squeeze(-1).squeeze(-1)
@@ -210,16 +208,16 @@ def new_differentiate(fn, x0, eps=1.0e-6):
 
     for i2 in np.ndindex(s2):
         dx = torch.zeros_like(x0.reshape(fs2))
-        inc = torch.abs(x0[..., i2]) * eps
+        inc = torch.abs(x0.reshape(fs2)[(...,) + i2]) * eps
         inc[inc < eps] = eps
-        dx[..., i2] = inc
+        dx[(...,) + i2] = inc
 
         if flatten:
             v1 = fn(x0 + dx[:, 0]).reshape(fs1)
         else:
             v1 = fn(x0 + dx).reshape(fs1)
 
-        d[:, :, i2] = torch.unsqueeze(((v1 - v0) / inc), 2)
+        d[(...,) + i2] = (v1 - v0) / inc.reshape((nbatch,) + (1,) * len(s1))
 
     return d
 
@@ -256,22 +254,12 @@ def differentiate(fn, x0, eps=1.0e-6):
 
     for i2 in np.ndindex(s2):
         dx = torch.zeros_like(x0)
-        if len(s2) == 0:
-            dx = torch.abs(x0) * eps
-        else:
-            inc = torch.abs(x0[..., i2]) * eps
-            inc[inc < eps] = eps
-            dx[..., i2] = inc
+        inc = torch.abs(x0[(...,) + i2]) * eps
+        inc[inc < eps] = eps
+        dx[(...,) + i2] = inc
         v1 = fn(x0 + dx)
 
-        if len(s1) == 0 and len(s2) == 0:
-            d = (v1 - v0) / dx
-        elif len(s2) == 0:
-            d[...] = (v1 - v0) / dx.reshape(v1.shape)
-        elif len(s1) == 0:
-            d[..., i2] = ((v1 - v0) / dx.reshape(v1.shape))[:, None]
-        else:
-            d[..., i2] = ((v1 - v0) / dx)[..., None]
+        d[(...,) + i2] = (v1 - v0) / inc.reshape((nbatch,) + (1,) * len(s1))
 
     return d
 
-- 
2.43.0


From d3ca3c54e7a15ad1b6966de2496367a227999904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:14 +0000
Subject: [PATCH 22/26] fix: shape of the values interpolated for a single
 sample

---
 pyoptmat/utility.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyoptmat/utility.py b/pyoptmat/utility.py
index 93cc6db..361d6f6 100644
--- a/pyoptmat/utility.py
+++ b/pyoptmat/utility.py
@@ -333,7 +333,7 @@ class ArbitraryBatchTimeSeriesInterpolator(nn.Module):
         )
 
         if squeeze:
-            return poss[locs].squeeze(-1).t()
+            return poss[locs]
 
         return poss[locs].reshape(t.shape).t().reshape(shape)
 
-- 
2.43.0


From 36ca0ec24d07a2a2783a9399c2a743276439241a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:17 +0000
Subject: [PATCH 23/26] fix: conversion of tests with different hold or cycle
 positions in one batch

---
 pyoptmat/experiments.py | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/pyoptmat/experiments.py b/pyoptmat/experiments.py
index 4a9afd0..9a13140 100644
--- a/pyoptmat/experiments.py
+++ b/pyoptmat/experiments.py
@@ -252,15 +252,13 @@ def format_relaxation(cycles, predictions):
     Returns:
       torch.tensor:                 processed results
     """
-    result = torch.zeros_like(predictions)
-    rcurve = cycles[:, 0] == 1  # This is right, but dangerous in the future
-
-    curve = predictions[rcurve]
-    curve = curve - curve[0]
+    hold = cycles == 1
 
-    result[rcurve] = curve
+    # First value in the hold, for each test
+    _, index = torch.max(hold, 0)
+    first = predictions.gather(0, index.view(1, -1))
 
-    return result
+    return torch.where(hold, predictions - first, 0.0)
 
 
 def format_cyclic(cycles, predictions):
@@ -281,11 +279,10 @@ def format_cyclic(cycles, predictions):
     """
     # If this is slow we can probably remove the for loop
     result = torch.zeros_like(predictions)
-    uc = cycles[:, 0]  # Correct but dangerous for future expansion
-    for i in range(uc[-1] + 1):
-        curr = uc == i
-        vals, _ = torch.max(predictions[curr], axis=0)
-        result[curr] = vals
+    for i in range(torch.max(cycles) + 1):
+        curr = cycles == i
+        vals, _ = torch.max(torch.where(curr, predictions, -torch.inf), 0)
+        result = torch.where(curr, vals, result)
 
     return result
 
-- 
2.43.0


From 029d7c26f8042b253792bd5e7556d71da6bd6e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:32 +0000
Subject: [PATCH 24/26] fix: prior location moved together with the parameters
 of the guide

---
 pyoptmat/optimize.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyoptmat/optimize.py b/pyoptmat/optimize.py
index c9d80e9..c4715bb 100644
--- a/pyoptmat/optimize.py
+++ b/pyoptmat/optimize.py
@@ -433,7 +433,8 @@ class HierarchicalStatisticalModel(PyroModule):
             ):
                 dim = loc_loc.dim()
                 loc_param = pyro.param(
-                    var + self.loc_suffix + self.param_suffix, loc_loc
+                    var + self.loc_suffix + self.param_suffix,
+                    loc_loc.detach().clone(),
                 )
                 scale_param = pyro.param(
                     var + self.scale_suffix + self.param_suffix,
-- 
2.43.0


From 857fece130b41a1c7f82aa01a8a8c32c9f780551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:58 +0000
Subject: [PATCH 25/26] fix: NaN backpropagation gradients of Larson-Miller
 damage at zero stress

---
 pyoptmat/damage.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pyoptmat/damage.py b/pyoptmat/damage.py
index 5379580..ba793bb 100644
--- a/pyoptmat/damage.py
+++ b/pyoptmat/damage.py
@@ -247,11 +247,13 @@ class LarsonMillerDamage(DamageModel):
         """
         return (
             10.0 ** (self.C(T) - self.B(T) / T)
-            * (torch.abs(s) * (1 - d)) ** (-self.A(T) / T),
+            * utility.abs_pow(s, -self.A(T) / T)
+            * (1 - d) ** (-self.A(T) / T),
             10.0 ** (self.C(T) - self.B(T) / T)
             * self.A(T)
             * torch.abs(s)
-            * (torch.abs(s) * (1 - d)) ** (-(self.A(T) + T) / T)
+            * utility.abs_pow(s, -(self.A(T) + T) / T)
+            * (1 - d) ** (-(self.A(T) + T) / T)
             / T,
         )
 
@@ -268,7 +270,8 @@ class LarsonMillerDamage(DamageModel):
         return (
             -(10.0 ** (self.C(T) - self.B(T) / T))
             * self.A(T)
-            * (torch.abs(s) * (1 - d)) ** (-self.A(T) / T)
+            * utility.abs_pow(s, -self.A(T) / T)
+            * (1 - d) ** (-self.A(T) / T)
             / ((torch.abs(s) + self.eps) * T)
             * torch.sign(s)
         )
-- 
2.43.0


From 8cc1bfbb08f32870615057a018f8d7e07d4ce8a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:09 +0000
Subject: [PATCH 26/26] fix: Newton solvers returned NaN without a warning

---
 pyoptmat/solvers.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyoptmat/solvers.py b/pyoptmat/solvers.py
index beb76c4..5f6e79e 100644
--- a/pyoptmat/solvers.py
+++ b/pyoptmat/solvers.py
@@ -69,7 +69,7 @@ def newton_raphson_bt(
         x = xp
         i += 1
 
-    if i == miter:
+    if i == miter or torch.any(torch.isnan(nR)):
         warnings.warn("Implicit solve did not succeed.  Results may be inaccurate...")
 
     return x, J
@@ -119,7 +119,7 @@ def newton_raphson(fn, x0, linsolver="lu", rtol=1e-6, atol=1e-10, miter=100):
         nR = torch.norm(R, dim=-1)
         i += 1
 
-    if i == miter:
+    if i == miter or torch.any(torch.isnan(nR)):
         warnings.warn("Implicit solve did not succeed.  Results may be inaccurate...")
 
     return x, J
@@ -425,7 +425,7 @@ class PreconditionerReuseNonlinearSolver:
             nR = torch.norm(R, dim=-1)
             i += 1
 
-        if i == miter:
+        if i == miter or torch.any(torch.isnan(nR)):
             warnings.warn(
                 "Implicit solve did not succeed.  Results may be inaccurate..."
             )
-- 
2.43.0

