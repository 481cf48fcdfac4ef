From 6e27efc321c210ecc4d5ad66a904f87be7390ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:42 +0000
Subject: [PATCH 01/30] fix: FeaturesCombiner.deriv keeps the derivatives of
 every combined basis

---
 VolterraBasis/basis/_basis_features.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/VolterraBasis/basis/_basis_features.py b/VolterraBasis/basis/_basis_features.py
index a0c2ba0..e1f1645 100644
--- a/VolterraBasis/basis/_basis_features.py
+++ b/VolterraBasis/basis/_basis_features.py
@@ -256,8 +256,8 @@ class FeaturesCombiner(TransformerMixin):
         grad = self.basis_set[0].deriv(X, deriv_order=deriv_order)
         for b in self.basis_set[1:]:
             # print(grad.shape, b.deriv(X, deriv_order=deriv_order).shape)
-            features = np.concatenate((grad, b.deriv(X, deriv_order=deriv_order)), axis=1)
-        return features
+            grad = np.concatenate((grad, b.deriv(X, deriv_order=deriv_order)), axis=1)
+        return grad
 
     def hessian(self, X):
         return self.deriv(X, deriv_order=2)
-- 
2.43.0


From dc5cfe5db4284ea0130e5ead7d048a7ffcaef6b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:42 +0000
Subject: [PATCH 02/30] fix: LinearFeatures.antiderivative integrates the
 centered function

---
 VolterraBasis/basis/_basis_features.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/VolterraBasis/basis/_basis_features.py b/VolterraBasis/basis/_basis_features.py
index e1f1645..9115ce7 100644
--- a/VolterraBasis/basis/_basis_features.py
+++ b/VolterraBasis/basis/_basis_features.py
@@ -46,7 +46,7 @@ class LinearFeatures(TransformerMixin):
         return self.deriv(X, deriv_order=2)
 
     def antiderivative(self, X, order=1):
-        return 0.5 * np.power(X, 2)
+        return 0.5 * np.power(X, 2) - self.mean_ * X
 
 
 class PolynomialFeatures(TransformerMixin):
-- 
2.43.0


From 061d148176455a41a02b2fa3f147ab9385bf7ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:42 +0000
Subject: [PATCH 03/30] fix: TensorialBasis2D built from one basis fits each
 dimension independently

---
 VolterraBasis/basis/_multidim_basis.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/VolterraBasis/basis/_multidim_basis.py b/VolterraBasis/basis/_multidim_basis.py
index 9355d4a..f9533ca 100644
--- a/VolterraBasis/basis/_multidim_basis.py
+++ b/VolterraBasis/basis/_multidim_basis.py
@@ -1,6 +1,7 @@
 """
 This the main estimator module
 """
+import copy
 import numpy as np
 import scipy.stats
 from sklearn.base import TransformerMixin
@@ -16,7 +17,7 @@ class TensorialBasis2D(TransformerMixin):
         """Take two of basis"""
         self.b1 = b1
         if b2 is None:
-            self.b2 = b1
+            self.b2 = copy.deepcopy(b1)  # Each dimension should be fitted independently
         else:
             self.b2 = b2
         # Force rank projection
-- 
2.43.0


From ed5246536fca53595da6b3576634114f863c4c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:25:19 +0000
Subject: [PATCH 04/30] fix: correlation_direct_ND without second argument
 correlates every pair of components

---
 VolterraBasis/correlation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/VolterraBasis/correlation.py b/VolterraBasis/correlation.py
index 9b4eaed..29d36a5 100644
--- a/VolterraBasis/correlation.py
+++ b/VolterraBasis/correlation.py
@@ -63,10 +63,10 @@ def correlation_direct_ND(a, b=None, trunc=None):
     else:
         len_trunc = a.shape[-1]
     len_dat = a.shape[-1]
-    if b is None:
-        b = a
+    if b is None:  # All pairs of components, same convention than correlation_ND
+        a, b = np.asarray(a)[np.newaxis, ...], np.asarray(a)[:, np.newaxis, ...]
     # TODO: vérifier le type de l'array a et créer un array vide du même type
-    res = np.zeros((a.shape[0], b.shape[0], len_trunc))
+    res = np.zeros(np.broadcast(a[..., 0], b[..., 0]).shape + (len_trunc,))
     res[:, :, 0] = (a * b).sum(axis=-1) / len_dat
     for n in range(1, len_trunc):
         res[:, :, n] = (a[..., :-n] * b[..., n:]).sum(axis=-1) / (len_dat - n)
-- 
2.43.0


From a62587208eb280b6b2434f60114523d8e5c65900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:48 +0000
Subject: [PATCH 05/30] fix: Pos_gle_hybrid differentiates the position
 features at each time

---
 VolterraBasis/models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/VolterraBasis/models.py b/VolterraBasis/models.py
index 249959c..957ce47 100644
--- a/VolterraBasis/models.py
+++ b/VolterraBasis/models.py
@@ -629,7 +629,7 @@ class Pos_gle_hybrid(Pos_gle):
             # return bk.reshape(-1, self.N_basis_elt_kernel - 1, 1)
         elif compute_for == "corrs":
             E = xr.concat([xva["v"].rename({"dim_x": "dim_basis"}), bk], dim="dim_basis")
-            dbk = xr.dot(xr.apply_ufunc(self.basis.deriv, xva["x"], input_core_dims=[["dim_x"]], output_core_dims=[["dim_basis", "dim_x"]], dask_gufunc_kwargs={"output_sizes": {"dim_basis": self.N_basis_elt, "dim_x": self.dim_x}}, dask="parallelized"), xva["v"])
+            dbk = xr.dot(xr.apply_ufunc(self.basis.deriv, xva["x"], input_core_dims=[["dim_x"]], output_core_dims=[["dim_basis", "dim_x"]], dask_gufunc_kwargs={"output_sizes": {"dim_basis": self.N_basis_elt, "dim_x": self.dim_x}}, dask="parallelized"), xva["v"], dims=["dim_x"])
             dE = xr.concat([xva["a"].rename({"dim_x": "dim_basis"}), dbk], dim="dim_basis")  # To test
             return bk, E, dE
         else:
-- 
2.43.0


From 1a13e1129a58e46f61ab6b76bf146cc7ed9b1905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:40 +0000
Subject: [PATCH 06/30] fix: memory_trapz counted the last kernel point 1.5
 times beyond the memory length

---
 VolterraBasis/fkernel.f90 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/VolterraBasis/fkernel.f90 b/VolterraBasis/fkernel.f90
index f99caa5..9347333 100644
--- a/VolterraBasis/fkernel.f90
+++ b/VolterraBasis/fkernel.f90
@@ -326,7 +326,7 @@ subroutine memory_trapz(lenTraj,len_mem, dim_basis, dim_x, memory, kernel, E, dt
 
   do i=1,lenTraj !! for i in range(1, lenTraj):
     memory(i,:)=-0.5*dt*matmul(E(i,:),kernel(0,:,:))
-    do j=1,min(i-1,len_mem)
+    do j=1,min(i,len_mem)-1
        memory(i,:)=memory(i,:)-dt*matmul(E(i-j,:),kernel(j,:,:))
     end do
    memory(i,:)=memory(i,:)-0.5*dt*matmul(E(i-min(i,len_mem),:),kernel(min(i,len_mem),:,:))
-- 
2.43.0


From 480d18832483b90b799298bbdcde864de4d54486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:40 +0000
Subject: [PATCH 07/30] fix: midpoint Volterra inversion used correlations one
 step too early in the memory sum

---
 VolterraBasis/fkernel.f90 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/VolterraBasis/fkernel.f90 b/VolterraBasis/fkernel.f90
index 9347333..0b63357 100644
--- a/VolterraBasis/fkernel.f90
+++ b/VolterraBasis/fkernel.f90
@@ -146,7 +146,7 @@ subroutine kernel_first_kind_midpoint(lenTraj, dim_basis,dim_x, kernel,  B, DxB,
   kernel(0,:,:)=-1*matmul(invB0,DxB(:,:,1))
 
   do i=1,lenTraj/2-1 !! for i in range(1, lenTraj):
-     call midpoint_integral(num,2*dt,i,B(:,:,0:2*i),kernel(0:i,:,:),dim_basis,dim_x,dim_basis)
+     call midpoint_integral(num,2*dt,i,B(:,:,1:2*i+1),kernel(0:i,:,:),dim_basis,dim_x,dim_basis)
      kernel(i,:,:)=-1*matmul(invB0,num+DxB(:,:,2*i+1))
   end do
 
-- 
2.43.0


From 371fc88ab557b6eae0007bed9db875f7b0d681d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:40 +0000
Subject: [PATCH 08/30] fix: midpoint Volterra inversion left its last point
 uncomputed for even-length data

---
 VolterraBasis/fkernel.f90 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/VolterraBasis/fkernel.f90 b/VolterraBasis/fkernel.f90
index 0b63357..835fdcd 100644
--- a/VolterraBasis/fkernel.f90
+++ b/VolterraBasis/fkernel.f90
@@ -145,7 +145,7 @@ subroutine kernel_first_kind_midpoint(lenTraj, dim_basis,dim_x, kernel,  B, DxB,
 
   kernel(0,:,:)=-1*matmul(invB0,DxB(:,:,1))
 
-  do i=1,lenTraj/2-1 !! for i in range(1, lenTraj):
+  do i=1,(lenTraj-1)/2 !! for i in range(1, lenTraj):
      call midpoint_integral(num,2*dt,i,B(:,:,1:2*i+1),kernel(0:i,:,:),dim_basis,dim_x,dim_basis)
      kernel(i,:,:)=-1*matmul(invB0,num+DxB(:,:,2*i+1))
   end do
-- 
2.43.0


From a990833f9f1b3e00bddec801a82685fa00c62bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:40 +0000
Subject: [PATCH 09/30] fix: solve_ide_trapz_stab sliced the wrong axis of the
 solution

---
 VolterraBasis/fkernel.f90 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/VolterraBasis/fkernel.f90 b/VolterraBasis/fkernel.f90
index 835fdcd..1210101 100644
--- a/VolterraBasis/fkernel.f90
+++ b/VolterraBasis/fkernel.f90
@@ -477,7 +477,7 @@ subroutine solve_ide_trapz_stab(len_mem, dim_basis, dim_other, kernel, E0, f_coe
 
   do i=1,lenTraj-1
     max_len = min(i,len_mem)
-    call trapz_integral(memory,dt,max_len, E(i-max_len:i,:,:),kernel(0:max_len,:,:),dim_basis,dim_basis,dim_other)
+    call trapz_integral(memory,dt,max_len, E(:,:,i-max_len:i),kernel(0:max_len,:,:),dim_basis,dim_basis,dim_other)
     E(:,:,i) = matmul(E(:,:,i-1)-dt*memory+dt*matmul(E(:,:,i-1),f_coeff),invK0)
     ! projection onto the unit simplex for stabilisation, start with simple normalization
     E(:,:,i) = max(E(:,:,i),0.)
-- 
2.43.0


From cb916f5e26373b085199f55f8d4606e6a8e681ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:40 +0000
Subject: [PATCH 10/30] fix: sign of the implicit term in the second kind
 Simpson inversion

---
 VolterraBasis/fkernel.f90 | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/VolterraBasis/fkernel.f90 b/VolterraBasis/fkernel.f90
index 1210101..588c865 100644
--- a/VolterraBasis/fkernel.f90
+++ b/VolterraBasis/fkernel.f90
@@ -276,11 +276,11 @@ subroutine kernel_second_kind_simpson(lenTraj, dim_basis,dim_x, kernel, k0, B0,
   double precision,dimension(dim_basis,dim_x)::num
   integer::i
 
-  invB0=inv(B0+0.5*dt*Bdot(:,:,0)) ! Update this depending of integration rule
+  invB0=inv(B0-0.5*dt*Bdot(:,:,0)) ! Update this depending of integration rule
 
   kernel(0,:,:)=k0
   kernel(1,:,:)=matmul(invB0,DxBdot(:,:,1)+0.5*dt*matmul(Bdot(:,:,1),kernel(0,:,:))) ! First point trapz rule
-  invB0=inv(B0+dt*Bdot(:,:,0)/3) ! Update this depending of integration rule
+  invB0=inv(B0-dt*Bdot(:,:,0)/3) ! Update this depending of integration rule
 
   do i=2,lenTraj !! for i in range(1, lenTraj):
      call simpson_integral(num,dt,i,Bdot(:,:,0:i),kernel(0:i,:,:),dim_basis,dim_x,dim_basis)
-- 
2.43.0


From 40d33a2eafb418a9d3a615a6ef88e159ae871b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:58:12 +0000
Subject: [PATCH 11/30] fix: simpson_integral read outside its arrays for fewer
 than three points

---
 VolterraBasis/fkernel.f90 | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/VolterraBasis/fkernel.f90 b/VolterraBasis/fkernel.f90
index 588c865..cf63173 100644
--- a/VolterraBasis/fkernel.f90
+++ b/VolterraBasis/fkernel.f90
@@ -86,6 +86,10 @@ subroutine simpson_integral(res,dt,n,B,kernel,dim_basis,dim_x,dim_out)
   double precision,intent(in)::dt
   integer::j,start_j
   double precision::h
+  if(n < 2) then ! No parabola through less than three points
+     call trapz_integral(res,dt,n,B,kernel,dim_basis,dim_x,dim_out)
+     return
+  end if
   h=dt/3.
   !n even use trapezodial rule for first point
   if(mod(n,2) ==1) then
-- 
2.43.0


From e7133585b1ce34ab4058e89d22607617bda8f3a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:42 +0000
Subject: [PATCH 12/30] fix: compute_noise summed the mean force over the
 components of the observable

---
 VolterraBasis/models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/VolterraBasis/models.py b/VolterraBasis/models.py
index 957ce47..9b8c7f6 100644
--- a/VolterraBasis/models.py
+++ b/VolterraBasis/models.py
@@ -159,7 +159,7 @@ class ModelBase(object):
         E_force, E, _ = self.basis_vector(xva)
         if self.rank_projection:
             E = matmulPrange(self.P_range, E)
-        force = xr.dot(E_force, self.force_coeff, dims=["dim_basis", "dim_x"])
+        force = xr.dot(E_force, self.force_coeff, dims=["dim_basis"])
         if self.method in ["rect", "rectangular", "second_kind_rect"] or self.method is None:
             memory = memory_rect(self.kernel[:trunc_kernel], E, dt)
         elif self.method == "trapz" or self.method == "second_kind_trapz":
-- 
2.43.0


From efeda575d62e6d1e082a94d7f782b9cb64e93f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:17 +0000
Subject: [PATCH 13/30] fix: compute_gram_kernel with projection looked for the
 gram matrix on the estimator

---
 VolterraBasis/gle_estimation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/VolterraBasis/gle_estimation.py b/VolterraBasis/gle_estimation.py
index a25d0be..d133a33 100644
--- a/VolterraBasis/gle_estimation.py
+++ b/VolterraBasis/gle_estimation.py
@@ -211,7 +211,7 @@ class Estimator_gle(object):
             print("Calculate kernel gram...")
         self.model.gram_kernel = self.loop_over_trajs(self._compute_gram, self.model, gram_type="kernel")[0]
         if self.model.rank_projection:
-            self.model.gram_kernel = np.einsum("lj,jk,mk->lm", self.model.P_range, self.gram_kernel, self.model.P_range)
+            self.model.gram_kernel = np.einsum("lj,jk,mk->lm", self.model.P_range, self.model.gram_kernel, self.model.P_range)
         return self.model
 
     def compute_effective_mass(self):
-- 
2.43.0


From 7cff53b89d8fa478ff7c71a4c548d2c817313622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:50 +0000
Subject: [PATCH 14/30] fix: the estimator did not expose basis_vector (string
 compared instead of the name)

---
 VolterraBasis/gle_estimation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/VolterraBasis/gle_estimation.py b/VolterraBasis/gle_estimation.py
index d133a33..bdad58c 100644
--- a/VolterraBasis/gle_estimation.py
+++ b/VolterraBasis/gle_estimation.py
@@ -99,7 +99,7 @@ class Estimator_gle(object):
         # For retrocompatibility, expose model methods for coefficients evaluation
         for func in dir(self.model):
             if callable(getattr(self.model, func)) and not func.startswith("_"):
-                if "eval" in func or "compute" in func or "func" in ["basis_vector"]:
+                if "eval" in func or "compute" in func or func in ["basis_vector"]:
                     setattr(self, func, getattr(self.model, func))
 
     def _do_check(self, xva_arg):
-- 
2.43.0


From 3313f77fa941c95fa4670f668f4f1c08b30d1928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:36 +0000
Subject: [PATCH 15/30] fix: load_model added the keyword arguments to the
 attributes of the caller's dataset

---
 VolterraBasis/models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/VolterraBasis/models.py b/VolterraBasis/models.py
index 9b8c7f6..46f4b86 100644
--- a/VolterraBasis/models.py
+++ b/VolterraBasis/models.py
@@ -386,7 +386,7 @@ class ModelBase(object):
         """
         # A partir des attibuts du DataSet construire un dictionnaire des arguments à donner
         # kwargs = .. dim_x, dim_obs, trunc_ind, L_obs, describe_data
-        cls_attrs = coeffs.attrs
+        cls_attrs = dict(coeffs.attrs)  # Copy, to leave the dataset unchanged
         for key, value in kwargs.items():
             cls_attrs[key] = value
         model = cls(basis, **cls_attrs)
-- 
2.43.0


From 633c0e0f54d167cd5ae5012fa505aad23f4d294f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:36 +0000
Subject: [PATCH 16/30] fix: load_model dropped the inversion method, the
 masses and the kernel Gram matrix

---
 VolterraBasis/models.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/VolterraBasis/models.py b/VolterraBasis/models.py
index 46f4b86..66273d7 100644
--- a/VolterraBasis/models.py
+++ b/VolterraBasis/models.py
@@ -391,9 +391,11 @@ class ModelBase(object):
             cls_attrs[key] = value
         model = cls(basis, **cls_attrs)
 
-        for key in ["force_coeff", "kernel", "rank_projection", "P_range", "gram_force"]:
+        for key in ["force_coeff", "kernel", "rank_projection", "P_range", "gram_force", "gram_kernel", "eff_mass", "inv_mass_coeff"]:
             if key in coeffs:
                 setattr(model, key, coeffs[key])
+        if "method" in coeffs:  # Needed to use the same quadrature than the kernel
+            model.method = coeffs["method"].item()
         if model.force_coeff is not None:
             model.force_coeff = model.force_coeff.rename({"dim_basis_force": "dim_basis"})
         if model.gram_force is not None:
-- 
2.43.0


From 6385e6d764fe4eaa8c3baccfba78d3cb61320c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:57 +0000
Subject: [PATCH 17/30] fix: laplace_transform_kernel used a time variable the
 kernel no longer has

---
 VolterraBasis/models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/VolterraBasis/models.py b/VolterraBasis/models.py
index 66273d7..75e0066 100644
--- a/VolterraBasis/models.py
+++ b/VolterraBasis/models.py
@@ -359,7 +359,7 @@ class ModelBase(object):
         s_range = np.linspace(s_start, s_end, n_points)
         laplace = np.zeros((n_points, self.kernel.shape[1], self.kernel.shape[2]))
         for n, s in enumerate(s_range):
-            laplace[n, :, :] = simpson(np.einsum("i,ijk-> ijk", np.exp(-s * self.kernel["time"][:, 0]), self.kernel), self.kernel["time"][:, 0], axis=0)
+            laplace[n, :, :] = simpson(np.einsum("i,ijk-> ijk", np.exp(-s * self.kernel["time_kernel"]), self.kernel), self.kernel["time_kernel"], axis=0)
         return s_range, laplace
 
     def save_model(self):
-- 
2.43.0


From a5719cbe068fa1e3bbf20bd2d138a4c59b871e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:33 +0000
Subject: [PATCH 18/30] fix: the integrator built its noise on the untruncated
 kernel times and needed a model when given coefficients

---
 VolterraBasis/gle_integrate.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/VolterraBasis/gle_integrate.py b/VolterraBasis/gle_integrate.py
index 5b69dae..bb845ed 100644
--- a/VolterraBasis/gle_integrate.py
+++ b/VolterraBasis/gle_integrate.py
@@ -196,6 +196,7 @@ class Integrator_gle(object):
             if coeffs_noise_kernel is None:  # Coeffs pour le FDT
                 coeffs_noise_kernel = gle_model.inv_mass_coeff
             kernel_noise = np.einsum("kl,ikd->ild", coeffs_noise_kernel, self.kernel)
+            time_kernel = gle_model.kernel["time_kernel"].to_numpy()[: self.kernel.shape[0]]
         else:
             self.basis = kwargs["basis"]
             self.force_coeff = kwargs["force_coeff"]
@@ -217,13 +218,14 @@ class Integrator_gle(object):
                 kernel_noise = self.kernel
             else:
                 kernel_noise = np.einsum("kl,ikd->ild", coeffs_noise_kernel, self.kernel)
+            time_kernel = np.arange(self.kernel.shape[0]) * self.dt
 
         if self.verbose:
             print("Found dt =", self.dt)
 
         self.trunc_kernel = self.kernel.shape[0]
 
-        self.noise_generator = ColoredNoiseGenerator(kernel_noise, gle_model.kernel["time_kernel"].to_numpy(), rng=rng)
+        self.noise_generator = ColoredNoiseGenerator(kernel_noise, time_kernel, rng=rng)
 
     def _copy_from_estimator(self, gle_model, trunc_kernel=None):
         """
-- 
2.43.0


From 8d8b09faffbb8e841afe31e52282d681b73c43a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:42 +0000
Subject: [PATCH 19/30] fix: count the frames at the smallest position in
 compute_1d_fe

---
 VolterraBasis/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/VolterraBasis/__init__.py b/VolterraBasis/__init__.py
index 654cf73..3de2ea5 100644
--- a/VolterraBasis/__init__.py
+++ b/VolterraBasis/__init__.py
@@ -198,7 +198,7 @@ def compute_1d_fe(xva_list, bins=150, kT=2.494, hist=False):
     count_bins = 0
     for xva in xva_list:
         # add v^2 to the list
-        ds_groups = xva.assign({"v2": xva["v"] * xva["v"]}).groupby_bins("x", x_bins)
+        ds_groups = xva.assign({"v2": xva["v"] * xva["v"]}).groupby_bins("x", x_bins, include_lowest=True)
         # print(ds_groups)
         mean_val += ds_groups.sum().fillna(0)
         count_bins += ds_groups.count().fillna(0)
-- 
2.43.0


From 4a968d012a3d49dab650d3779184855028739820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:42 +0000
Subject: [PATCH 20/30] fix: compute_1d_fe makes as many bins as requested

---
 VolterraBasis/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/VolterraBasis/__init__.py b/VolterraBasis/__init__.py
index 3de2ea5..452c5fc 100644
--- a/VolterraBasis/__init__.py
+++ b/VolterraBasis/__init__.py
@@ -190,7 +190,7 @@ def compute_1d_fe(xva_list, bins=150, kT=2.494, hist=False):
         # # D'abord on obtient les bins
         min_x = np.min([xva["x"].min("time") for xva in xva_list])
         max_x = np.max([xva["x"].max("time") for xva in xva_list])
-        x_bins = np.linspace(min_x, max_x, bins)
+        x_bins = np.linspace(min_x, max_x, bins + 1)
     else:
         raise ValueError("bins should be a str or a int")
 
-- 
2.43.0


From fde41d01f54c0f0e61a5fd6f15a920422ab8ac1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:10 +0000
Subject: [PATCH 21/30] fix: locate points in one-dimensional meshes whose
 vertices are not sorted (refined meshes)

---
 VolterraBasis/basis/_fem_features.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/VolterraBasis/basis/_fem_features.py b/VolterraBasis/basis/_fem_features.py
index cbae7d9..5147901 100644
--- a/VolterraBasis/basis/_fem_features.py
+++ b/VolterraBasis/basis/_fem_features.py
@@ -22,7 +22,7 @@ class ElementFinder:
             self.max_point = np.max(mesh.p)  # To avoid strict < in np.digitize
             ix = np.argsort(mesh.p)
             self.bins = mesh.p[0, ix[0]]
-            self.bins_idx = mesh.t[0]
+            self.bins_idx = np.min(np.argsort(ix[0])[mesh.t], axis=0)  # rank of the left vertex, vertices are not always sorted
             self.find = self.find_element_1D
         # elif self.dim == 2:
         #     self.find = self.find_element_2D
-- 
2.43.0


From 37d44a5f518a8ac9aced2280edc3376050ff9716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:10 +0000
Subject: [PATCH 22/30] fix: find_element_1D wrote into the caller's points

---
 VolterraBasis/basis/_fem_features.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/VolterraBasis/basis/_fem_features.py b/VolterraBasis/basis/_fem_features.py
index 5147901..7ce77d6 100644
--- a/VolterraBasis/basis/_fem_features.py
+++ b/VolterraBasis/basis/_fem_features.py
@@ -40,9 +40,8 @@ class ElementFinder:
         """
         Assuming X is nsamples x 1
         """
-        maxix = X[:, 0] == self.max_point
-        X[maxix, 0] = X[maxix, 0] - 1e-10  # special case in np.digitize
-        return np.argmax((np.digitize(X[:, 0], self.bins) - 1)[:, None] == self.bins_idx, axis=1)
+        x = np.where(X[:, 0] == self.max_point, X[:, 0] - 1e-10, X[:, 0])  # special case in np.digitize
+        return np.argmax((np.digitize(x, self.bins) - 1)[:, None] == self.bins_idx, axis=1)
 
     def find_element_2D(self, X):
         return self.mesh_finder(X[:, 0], X[:, 1])
-- 
2.43.0


From 6793d70d4259b35c24dd433a3429ec05ef547425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:10 +0000
Subject: [PATCH 23/30] fix: find_element_ND failed on meshes with fewer than
 five elements

---
 VolterraBasis/basis/_fem_features.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/VolterraBasis/basis/_fem_features.py b/VolterraBasis/basis/_fem_features.py
index 7ce77d6..cc4b349 100644
--- a/VolterraBasis/basis/_fem_features.py
+++ b/VolterraBasis/basis/_fem_features.py
@@ -47,7 +47,7 @@ class ElementFinder:
         return self.mesh_finder(X[:, 0], X[:, 1])
 
     def find_element_ND(self, X, _search_all=False):
-        tree_query = self.tree.query(X, 5)[1]
+        tree_query = self.tree.query(X, min(5, self.tree.n))[1].reshape(X.shape[0], -1)
         element_inds = np.empty((X.shape[0],), dtype=int)
         for n, point in enumerate(X):  # Try to avoid loop
             i_e = tree_query[n, :]
-- 
2.43.0


From c910ccda01600eabd23af3de1eb84cf4725dd184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:10 +0000
Subject: [PATCH 24/30] fix: points outside of the five closest elements were
 put into an arbitrary one

---
 VolterraBasis/basis/_fem_features.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/VolterraBasis/basis/_fem_features.py b/VolterraBasis/basis/_fem_features.py
index cc4b349..3b08828 100644
--- a/VolterraBasis/basis/_fem_features.py
+++ b/VolterraBasis/basis/_fem_features.py
@@ -53,6 +53,9 @@ class ElementFinder:
             i_e = tree_query[n, :]
             X_loc = self.mapping.invF((point.T)[:, None, None], tind=i_e)
             inside = self.inside(X_loc)
+            if not np.any(inside):  # The element is not among the closest ones
+                i_e = np.arange(self.tree.n)
+                inside = self.inside(self.mapping.invF((point.T)[:, None, None], tind=i_e))
             element_inds[n] = i_e[np.argmax(inside, axis=0)]
         return element_inds
 
-- 
2.43.0


From 2b6041451c692846793e83293113a68cf478a258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:10 +0000
Subject: [PATCH 25/30] fix: inside_3D lacked self: no point of a
 three-dimensional mesh could be located

---
 VolterraBasis/basis/_fem_features.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/VolterraBasis/basis/_fem_features.py b/VolterraBasis/basis/_fem_features.py
index 3b08828..7e34957 100644
--- a/VolterraBasis/basis/_fem_features.py
+++ b/VolterraBasis/basis/_fem_features.py
@@ -65,7 +65,7 @@ class ElementFinder:
         """
         return (X[0] >= -np.finfo(X.dtype).eps) * (X[1] >= -np.finfo(X.dtype).eps) * (1 - X[0] - X[1] >= -np.finfo(X.dtype).eps)
 
-    def inside_3D(X):
+    def inside_3D(self, X):
         """
         Say which point are inside the element
         """
-- 
2.43.0


From 56c160ef4266588c15a6a425dd4bdbcb41add629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:10 +0000
Subject: [PATCH 26/30] fix: gradients of finite element features were
 scrambled in two and three dimensions

---
 VolterraBasis/basis/_fem_features.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/VolterraBasis/basis/_fem_features.py b/VolterraBasis/basis/_fem_features.py
index 7e34957..72d53b0 100644
--- a/VolterraBasis/basis/_fem_features.py
+++ b/VolterraBasis/basis/_fem_features.py
@@ -124,6 +124,7 @@ class FEMScalarFeatures(TransformerMixin):
         # cells = self.basis_fem.mesh.element_finder(mapping=self.basis_fem.mapping)(*x)  # TODO: Il faudrait trouver un moyen de mettre en cache ce résultat
         pts = self.basis_fem.mapping.invF(x[:, :, np.newaxis], tind=cells)
         phis = np.array([self.basis_fem.elem.gbasis(self.basis_fem.mapping, pts, k, tind=cells)[0].grad.transpose([1, 2, 0]) for k in range(self.basis_fem.Nbfun)])  # TODO: vérifier la shape et en extraire les diverses dimensions
+        phis = np.moveaxis(phis, -1, 0)  # The coordinates below have the component of the gradient first
         return sparse.COO(
             (np.tile(np.arange(nsamples), dim * self.basis_fem.Nbfun), np.tile(self.basis_fem.element_dofs[:, cells].flatten(), dim), np.repeat(np.arange(dim), nsamples * self.basis_fem.Nbfun)), np.ravel(phis), shape=(nsamples, self.n_output_features_, dim)  # Le dernier array doit être 000011111222
         ).todense()  # .todense(): Temporary workaround to the absence if einsum in sparse library
-- 
2.43.0


From 997696e887033ef7720c71c35270d939bd47756c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:17 +0000
Subject: [PATCH 27/30] fix: non_uniform_line with ratio 1 divided zero by zero

---
 VolterraBasis/basis/_mesh_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/VolterraBasis/basis/_mesh_utils.py b/VolterraBasis/basis/_mesh_utils.py
index 439d147..24dd5fd 100644
--- a/VolterraBasis/basis/_mesh_utils.py
+++ b/VolterraBasis/basis/_mesh_utils.py
@@ -29,7 +29,7 @@ def non_uniform_line(x_start, x_end, num_elements, ratio):
     """
 
     # Create grid points between 0 and 1
-    h = (ratio - 1) / (ratio ** num_elements - 1)
+    h = 1 / num_elements if ratio == 1 else (ratio - 1) / (ratio ** num_elements - 1)
     x = np.append([0], h * np.cumsum(ratio ** np.arange(num_elements)))
 
     return x_start + x * (x_end - x_start)
-- 
2.43.0


From 93af177f733566bb0c39bf02a54a03ba32efe6b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:45 +0000
Subject: [PATCH 28/30] fix: keeping as many Prony terms as there are singular
 values raised IndexError

---
 VolterraBasis/fit_prony.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/VolterraBasis/fit_prony.py b/VolterraBasis/fit_prony.py
index caadf4d..56e316f 100644
--- a/VolterraBasis/fit_prony.py
+++ b/VolterraBasis/fit_prony.py
@@ -42,7 +42,8 @@ def ldl_hankel(y, n=None, thres=None, N_keep=None):
     else:
         N = min(N_keep, N_rank)  # Number of singular values to keep, given from rank of Hankel matrix or from input
         # Update the thresold from highest non keeped singular value
-        thres = s_svd[N]
+        if N < s_svd.shape[0]:
+            thres = s_svd[N]
     N = min(N, n)  # Limit the number of vector
     # Keep only the N highest singular value
     # print("Prony: Singular values. Value lower than thres are considered zero.")
@@ -139,7 +140,8 @@ def prony_inspect_data(data, thres=None, N_keep=None):
     else:
         N = min(N_keep, N_rank)  # Number of singular values to keep, given from rank of Hankel matrix or from input
         # Update the thresold from highest non keeped singular value
-        thres = s_svd[N]
+        if N < s_svd.shape[0]:
+            thres = s_svd[N]
     N = min(N, n)  # Limit the number of vector
     # Keep only the N highest singular value
     print("Prony: Singular values. Value lower than thres are considered zero.")
-- 
2.43.0


From 6b7b7bc4451aca02eb3b4d6613e5d017dd27c25b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:45 +0000
Subject: [PATCH 29/30] fix: Prony series could not be evaluated at a single
 time

---
 VolterraBasis/fit_prony.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/VolterraBasis/fit_prony.py b/VolterraBasis/fit_prony.py
index 56e316f..2e1ec5e 100644
--- a/VolterraBasis/fit_prony.py
+++ b/VolterraBasis/fit_prony.py
@@ -191,7 +191,7 @@ def prony_series_eval(times, y0, A):
     A :
         Result of the prony fitting.
     """
-    times = np.asarray(times).squeeze()
+    times = np.asarray(times).ravel()
     nb_times = times.shape[0]
     fit = np.zeros((nb_times,))
     for i, t in enumerate(times.flatten()):  # TODO: Implement with linear system
@@ -238,13 +238,13 @@ def prony_series_kernel_eval(times, list_A):
     list_A:
         The result of fit_kernel
     """
-    times = np.asarray(times).squeeze()
+    times = np.asarray(times).ravel()
     nb_times = times.shape[0]
     dim_x = len(list_A)
     dim_basis = len(list_A[0])
     fit = np.zeros((nb_times, dim_basis, dim_x))
     for d in range(dim_x):
         for k in range(dim_basis):
-            for i, t in enumerate(times.squeeze()):
+            for i, t in enumerate(times):
                 fit[i, k, d] = list_A[d][k][0] * scipy.linalg.expm(t * list_A[d][k][1])[0, 0]
     return fit
-- 
2.43.0


From 920e908051c6d39d203e2f2ef3272f9caba7f378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:17 +0000
Subject: [PATCH 30/30] fix: Prony fit took the real logarithm of negative
 eigenvalues (NaN) when all eigenvalues are real

---
 VolterraBasis/fit_prony.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/VolterraBasis/fit_prony.py b/VolterraBasis/fit_prony.py
index 2e1ec5e..958353f 100644
--- a/VolterraBasis/fit_prony.py
+++ b/VolterraBasis/fit_prony.py
@@ -105,7 +105,7 @@ def clean_eigenvalues(J, dt, remove=True, debug=False):
     # We need to duplicate real eigenvalue with negative value
     dupl = np.logical_and(np.abs(np.imag(lamb)) < 1e-15, np.real(lamb < 0))
     n_dupl = len(lamb[dupl])
-    log_lamp = np.log(lamb) / dt
+    log_lamp = np.log(lamb.astype(complex)) / dt
     # add eigenvector
     new_vect = np.zeros((len(lamb) + n_dupl, len(lamb) + n_dupl), dtype=complex)
     new_vect[: len(lamb), : len(lamb)] = vect
-- 
2.43.0

