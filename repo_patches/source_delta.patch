From 46afef6f5f832ddd03bc9be33fc9ca2b8491be47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:22 +0000
Subject: [PATCH 01/34] fix: start downward Bessel/log-derivative recurrences
 above |z|

With an explicit (small) n_max, far probe points or large spheres, the
downward sweeps of D1_n and j_n started below the transition order |z|
and returned wrong values (e.g. a_1 wrong by 0.1 for n_max=5, mx=17).
---
 src/pymiediff/special.py | 43 ++++++++++++++++++++++++++++++++++++----
 1 file changed, 39 insertions(+), 4 deletions(-)

diff --git a/src/pymiediff/special.py b/src/pymiediff/special.py
index 8d09ec3..1b74a4b 100644
--- a/src/pymiediff/special.py
+++ b/src/pymiediff/special.py
@@ -448,6 +448,34 @@ def _pena_nmax(n):
     return int(n)
 
 
+def _downward_start_order(n_max, n_add, z):
+    """Starting order for downward (Miller-type) recurrences.
+
+    The sweep only converges from orders above the transition region of the
+    Bessel functions, i.e. it has to start beyond ``|z|``, independently of the
+    number of requested orders.
+
+    Parameters
+    ----------
+    n_max : int
+        Highest requested order.
+    n_add : int
+        Extra recurrence depth.
+    z : torch.Tensor
+        Complex argument(s).
+
+    Returns
+    -------
+    int
+        Starting order.
+    """
+    z_abs = torch.abs(z.detach())
+    z_abs = z_abs[torch.isfinite(z_abs)]
+    z_max = float(z_abs.max()) if z_abs.numel() > 0 else 0.0
+    n_transition = int(z_max + 4.05 * z_max ** (1 / 3)) + 1
+    return max(n_max, n_transition) + int(n_add)
+
+
 def pena_D1_n(
     n: Union[torch.Tensor, int],
     z: torch.Tensor,
@@ -489,7 +517,7 @@ def pena_D1_n(
     # build entries without in-place tensor writes (autograd-safe)
     D_list = [None] * (n_max + 1)
 
-    n_start = n_max + int(n_add)
+    n_start = _downward_start_order(n_max, n_add, _z)
     D_next = torch.zeros_like(_z, dtype=dtype_c)
     z_safe = torch.where(_z.abs() < eps, _z + eps, _z)
 
@@ -757,6 +785,9 @@ def sph_jn_torch_via_rec(
         n_add = max(n_add_min, int(1.5 * torch.abs(z).detach().cpu().max()))
         if n_add > n_add_max:
             n_add = n_add_max
+        n_start = max(n_max + n_add, _downward_start_order(n_max, n_add_min, _z))
+    else:
+        n_start = n_max + int(n_add)
 
     # allocate tensors
     jns = []  # use python list for Bessel orders to avoid in-place modif.
@@ -765,7 +796,7 @@ def sph_jn_torch_via_rec(
     j_np1 = torch.ones_like(_z, dtype=dtype_c) * 1e-25
     j_nm1 = torch.zeros_like(_z, dtype=dtype_c)
 
-    for _n in range(n_max + n_add, 0, -1):
+    for _n in range(n_start, 0, -1):
         j_nm1 = ((2.0 * _n + 1.0) / _z) * j_n - j_np1
         j_np1 = j_n
         j_n = j_nm1
@@ -871,9 +902,10 @@ def sph_jn_torch(
             zabs_max = float(torch.max(torch.abs(z_big)).item())
             n_extra_auto = max(20, int(zabs_max * 2.0) + 10)
             n_extra_use = min(n_extra_auto, max_n_add)
+            N = max(n_max + n_extra_use, _downward_start_order(n_max, 20, z_big))
         else:
             n_extra_use = int(n_add)
-        N = n_max + n_extra_use
+            N = n_max + n_extra_use
 
         # - allocate tensors
         r_storage = torch.zeros((n_max, n_z_big), dtype=dtype_c, device=z.device)
@@ -1254,13 +1286,16 @@ def D1n_torch(
         n_add = max(n_add_min, int(1.5 * torch.abs(z).detach().cpu().max()))
         if n_add > n_add_max:
             n_add = n_add_max
+        n_start = max(n_max + n_add, _downward_start_order(n_max, n_add_min, _z))
+    else:
+        n_start = n_max + int(n_add)
 
     D1ns = []
 
     D1_n = torch.ones_like(_z, dtype=dtype_c) * 0.0
     D1_nm1 = torch.zeros_like(_z, dtype=dtype_c)
 
-    for _n in range(n_max + n_add, 0, -1):
+    for _n in range(n_start, 0, -1):
         D1_nm1 = _n/_z - 1/(D1_n + _n/_z)
         D1_n = D1_nm1
         if _n <= n_max + 1:
-- 
2.43.0


From b682401ea49c18631e1f1740484c907c06ca018d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:22 +0000
Subject: [PATCH 02/34] fix: accept the documented integer n_add in
 sph_jn_torch_via_rec and D1n_torch

---
 src/pymiediff/special.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pymiediff/special.py b/src/pymiediff/special.py
index 1b74a4b..5ef02a1 100644
--- a/src/pymiediff/special.py
+++ b/src/pymiediff/special.py
@@ -781,7 +781,7 @@ def sph_jn_torch_via_rec(
     _z = torch.where(_z.abs() < eps, eps * torch.ones_like(_z), _z)
 
     # some empirical automatic starting order guess
-    if n_add.lower() == "auto":
+    if str(n_add).lower() == "auto":
         n_add = max(n_add_min, int(1.5 * torch.abs(z).detach().cpu().max()))
         if n_add > n_add_max:
             n_add = n_add_max
@@ -1282,7 +1282,7 @@ def D1n_torch(
     _z = torch.where(_z.abs() < eps, eps * torch.ones_like(_z), _z)
 
     # some empirical automatic starting order guess
-    if n_add.lower() == "auto":
+    if str(n_add).lower() == "auto":
         n_add = max(n_add_min, int(1.5 * torch.abs(z).detach().cpu().max()))
         if n_add > n_add_max:
             n_add = n_add_max
-- 
2.43.0


From 022073f7b497d37b62adde6c4b3f1aef4a75657d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:23 +0000
Subject: [PATCH 03/34] fix: Riccati-Bessel sequences at the zeros of sin(z)

psi_n, D3_n, Q_n and the torch j_n were built by products starting from
psi_0=sin(z), whose log-derivative has a pole at z=k*pi. E.g. a sphere with
diameter equal to the wavelength (x=pi) got a_1 and b_1 wrong by 0.3.
---
 src/pymiediff/special.py | 86 ++++++++++++++++++++++++++++++++++------
 1 file changed, 74 insertions(+), 12 deletions(-)

diff --git a/src/pymiediff/special.py b/src/pymiediff/special.py
index 5ef02a1..7263a53 100644
--- a/src/pymiediff/special.py
+++ b/src/pymiediff/special.py
@@ -476,6 +476,33 @@ def _downward_start_order(n_max, n_add, z):
     return max(n_max, n_transition) + int(n_add)
 
 
+def _scaled_psi_1(z, z_safe, D1_0):
+    """Evaluate ``exp(i z) * psi_1(z)`` without loss of precision.
+
+    ``psi_1 = psi_0 * (1/z - D1_0)`` is used, except around the zeros of
+    ``psi_0 = sin(z)`` (poles of ``D1_0``), where the explicit expression
+    ``psi_1 = sin(z)/z - cos(z)`` is accurate.
+
+    Parameters
+    ----------
+    z, z_safe : torch.Tensor
+        Complex argument(s), raw and protected against division by zero.
+    D1_0 : torch.Tensor
+        Zeroth order log-derivative ``D_0^(1)(z)``.
+
+    Returns
+    -------
+    torch.Tensor
+        Scaled first order Riccati-Bessel function.
+    """
+    exp_2iz = torch.exp(2j * z)
+    psi_0 = -0.5j * (exp_2iz - 1.0)
+    psi_1 = psi_0 / z_safe - 0.5 * (exp_2iz + 1.0)
+    return torch.where(
+        psi_1.abs() > psi_0.abs(), psi_1, psi_0 * (1.0 / z_safe - D1_0)
+    )
+
+
 def pena_D1_n(
     n: Union[torch.Tensor, int],
     z: torch.Tensor,
@@ -582,9 +609,14 @@ def pena_D3_n(
 
     z_safe = torch.where(_z.abs() < eps, _z + eps, _z)
     for nn in range(1, n_max + 1):
-        t1 = (nn / z_safe) - D1[nn - 1, ...]
-        t2 = (nn / z_safe) - D3_prev
-        psi_zeta_curr = psi_zeta_prev * t1 * t2
+        if nn == 1:
+            # D1_0 has poles at the zeros of psi_0: use explicit psi_1 * zeta_1
+            psi_1 = _scaled_psi_1(_z, z_safe, D1[0, ...])
+            psi_zeta_curr = -psi_1 * (1.0 + 1j / z_safe)
+        else:
+            t1 = (nn / z_safe) - D1[nn - 1, ...]
+            t2 = (nn / z_safe) - D3_prev
+            psi_zeta_curr = psi_zeta_prev * t1 * t2
         denom = torch.where(psi_zeta_curr.abs() < eps, psi_zeta_curr + eps, psi_zeta_curr)
         D3_curr = D1[nn, ...] + 1j / denom
         D3_list.append(D3_curr)
@@ -658,7 +690,23 @@ def pena_Q_n(
     # Eq. (19b): Q_n^(l), n >= 1
     x2_safe = torch.where(_x2.abs() < eps, _x2 + eps, _x2)
     x_ratio_sq = (_x1 / x2_safe) ** 2
-    for nn in range(1, n_max + 1):
+    if n_max >= 1:
+        # explicit Q_1: Q_0 is singular at the zeros of psi_0 = sin(z)
+        z1_safe = torch.where(_z1.abs() < eps, _z1 + eps, _z1)
+        z2_safe = torch.where(_z2.abs() < eps, _z2 + eps, _z2)
+        psi_1_z1 = _scaled_psi_1(_z1, z1_safe, D1_z1[0, ...])
+        psi_1_z2 = _scaled_psi_1(_z2, z2_safe, D1_z2[0, ...])
+        num = psi_1_z1 * (1.0 + 1j / z2_safe)
+        den = psi_1_z2 * (1.0 + 1j / z1_safe)
+        den = torch.where(den.abs() < eps, den + eps, den)
+        Q_prev = (
+            x_ratio_sq
+            * (z2_safe / z1_safe) ** 2
+            * (num / den)
+            * torch.exp(2j * (_z2 - _z1))
+        )
+        Q_list.append(Q_prev)
+    for nn in range(2, n_max + 1):
         n_c = torch.as_tensor(nn, dtype=dtype_c, device=_z1.device)
         num = (_z2 * D1_z2[nn, ...] + n_c) * (n_c - _z2 * D3_z2[nn - 1, ...])
         den = (_z1 * D1_z1[nn, ...] + n_c) * (n_c - _z1 * D3_z1[nn - 1, ...])
@@ -715,6 +763,10 @@ def pena_psi_zeta_n(
     z_safe = torch.where(_z.abs() < eps, _z + eps, _z)
     for nn in range(1, n_max + 1):
         psi_curr = psi_prev * ((nn / z_safe) - D1[nn - 1, ...])
+        if nn == 1:
+            # D1_0 has poles at the zeros of psi_0: use explicit psi_1 there
+            psi_1 = torch.sin(_z) / z_safe - torch.cos(_z)
+            psi_curr = torch.where(psi_1.abs() > psi_prev.abs(), psi_1, psi_curr)
         zeta_curr = zeta_prev * ((nn / z_safe) - D3[nn - 1, ...])
         psi_list.append(psi_curr)
         zeta_list.append(zeta_curr)
@@ -737,10 +789,9 @@ def sph_jn_torch_via_rec(
 ):
     """Torch-native ``j_n`` via downward recurrence. 
 
-    BEWARE: With this implementaion there is a singularity at z=pi, 
-    and the renormalization of the downward recurrence will fail.
-    The logarithmic derivatives implmentations, do not pose this risk.
-    
+    The downward recurrence is renormalized to the larger one of the explicit
+    ``j_0`` and ``j_1``, since ``j_0`` vanishes at ``z = k*pi``.
+
     Parameters
     ----------
     n : int or torch.Tensor
@@ -809,6 +860,12 @@ def sph_jn_torch_via_rec(
     # normalize
     j0_exact = torch.sin(_z[-1, ...]) / _z[-1, ...]
     scale = j0_exact / jns[0, ...]
+    if n_max >= 1:
+        # j_0 vanishes at z=k*pi: normalize to the larger one of j_0 and j_1
+        j1_exact = (j0_exact - torch.cos(_z[-1, ...])) / _z[-1, ...]
+        scale = torch.where(
+            j1_exact.abs() > j0_exact.abs(), j1_exact / jns[1, ...], scale
+        )
     jns = jns * scale.unsqueeze(0)  # scale: expand order dim.
 
     return jns
@@ -932,13 +989,18 @@ def sph_jn_torch(
             z_big == 0.0, torch.ones_like(z_big), torch.sin(z_big) / z_big
         )  # compute j0 safely
 
-        # cumulative product of r_k across orders: shape (Q, n_max)
-        r_cum = torch.cumprod(r_storage, dim=0)  # r_1, r_1*r_2, ...
-
         # fill spherical bessel output
         jns_big[0, :] = j0_big
         if n_max >= 1:
-            jns_big[1:, :] = j0_big.unsqueeze(0) * r_cum
+            # j_0 vanishes at z=k*pi: start from explicit j_1 if it is larger
+            j1_big = (j0_big - torch.cos(z_big)) / z_big
+            j1_big = torch.where(
+                j1_big.abs() > j0_big.abs(), j1_big, j0_big * r_storage[0]
+            )
+            # cumulative product of r_k across orders: r_2, r_2*r_3, ...
+            r_cum = torch.cumprod(r_storage[1:], dim=0)
+            jns_big[1, :] = j1_big
+            jns_big[2:, :] = j1_big.unsqueeze(0) * r_cum
         jns_flat[:, idx_big] = jns_big
 
     # reshape jns_flat into original z shape plus orders axis
-- 
2.43.0


From 03904a4357f16f041f1c3a6f4fd4571abf478933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:47 +0000
Subject: [PATCH 04/34] fix: cancellation in psi_n and psi_n*zeta_n products at
 small arguments

n/z - D1_{n-1} cancels to nothing for |z| << 1, e.g. psi_1(1e-8) came out
as zero and magnetic coefficients of small spheres lost all digits. Use the
equivalent 1/(n/z + D1_n).
---
 src/pymiediff/special.py | 52 ++++++++++++++++++++++++++++++----------
 1 file changed, 39 insertions(+), 13 deletions(-)

diff --git a/src/pymiediff/special.py b/src/pymiediff/special.py
index 7263a53..8f38615 100644
--- a/src/pymiediff/special.py
+++ b/src/pymiediff/special.py
@@ -476,19 +476,45 @@ def _downward_start_order(n_max, n_add, z):
     return max(n_max, n_transition) + int(n_add)
 
 
-def _scaled_psi_1(z, z_safe, D1_0):
+def _psi_ratio(n, z_safe, D1_n, eps=1e-30):
+    """Return ``psi_n / psi_{n-1} = 1 / (n/z + D1_n)``.
+
+    Equal to ``n/z - D1_{n-1}``, but free of cancellation for small ``z``.
+
+    Parameters
+    ----------
+    n : int
+        Order.
+    z_safe : torch.Tensor
+        Complex argument(s), protected against division by zero.
+    D1_n : torch.Tensor
+        Log-derivative ``D_n^(1)(z)`` of order ``n``.
+    eps : float, default=1e-30
+        Small denominator safeguard.
+
+    Returns
+    -------
+    torch.Tensor
+        Ratio of Riccati-Bessel functions of subsequent order.
+    """
+    den = D1_n + n / z_safe
+    den = torch.where(den.abs() < eps, den + eps, den)
+    return 1.0 / den
+
+
+def _scaled_psi_1(z, z_safe, D1_1):
     """Evaluate ``exp(i z) * psi_1(z)`` without loss of precision.
 
-    ``psi_1 = psi_0 * (1/z - D1_0)`` is used, except around the zeros of
-    ``psi_0 = sin(z)`` (poles of ``D1_0``), where the explicit expression
+    ``psi_1 = psi_0 / (1/z + D1_1)`` is used, except around the zeros of
+    ``psi_0 = sin(z)``, where the explicit expression
     ``psi_1 = sin(z)/z - cos(z)`` is accurate.
 
     Parameters
     ----------
     z, z_safe : torch.Tensor
         Complex argument(s), raw and protected against division by zero.
-    D1_0 : torch.Tensor
-        Zeroth order log-derivative ``D_0^(1)(z)``.
+    D1_1 : torch.Tensor
+        First order log-derivative ``D_1^(1)(z)``.
 
     Returns
     -------
@@ -499,7 +525,7 @@ def _scaled_psi_1(z, z_safe, D1_0):
     psi_0 = -0.5j * (exp_2iz - 1.0)
     psi_1 = psi_0 / z_safe - 0.5 * (exp_2iz + 1.0)
     return torch.where(
-        psi_1.abs() > psi_0.abs(), psi_1, psi_0 * (1.0 / z_safe - D1_0)
+        psi_1.abs() > psi_0.abs(), psi_1, psi_0 * _psi_ratio(1, z_safe, D1_1)
     )
 
 
@@ -610,11 +636,11 @@ def pena_D3_n(
     z_safe = torch.where(_z.abs() < eps, _z + eps, _z)
     for nn in range(1, n_max + 1):
         if nn == 1:
-            # D1_0 has poles at the zeros of psi_0: use explicit psi_1 * zeta_1
-            psi_1 = _scaled_psi_1(_z, z_safe, D1[0, ...])
+            # psi_0 has zeros at k*pi: use explicit psi_1 * zeta_1
+            psi_1 = _scaled_psi_1(_z, z_safe, D1[1, ...])
             psi_zeta_curr = -psi_1 * (1.0 + 1j / z_safe)
         else:
-            t1 = (nn / z_safe) - D1[nn - 1, ...]
+            t1 = _psi_ratio(nn, z_safe, D1[nn, ...])
             t2 = (nn / z_safe) - D3_prev
             psi_zeta_curr = psi_zeta_prev * t1 * t2
         denom = torch.where(psi_zeta_curr.abs() < eps, psi_zeta_curr + eps, psi_zeta_curr)
@@ -694,8 +720,8 @@ def pena_Q_n(
         # explicit Q_1: Q_0 is singular at the zeros of psi_0 = sin(z)
         z1_safe = torch.where(_z1.abs() < eps, _z1 + eps, _z1)
         z2_safe = torch.where(_z2.abs() < eps, _z2 + eps, _z2)
-        psi_1_z1 = _scaled_psi_1(_z1, z1_safe, D1_z1[0, ...])
-        psi_1_z2 = _scaled_psi_1(_z2, z2_safe, D1_z2[0, ...])
+        psi_1_z1 = _scaled_psi_1(_z1, z1_safe, D1_z1[1, ...])
+        psi_1_z2 = _scaled_psi_1(_z2, z2_safe, D1_z2[1, ...])
         num = psi_1_z1 * (1.0 + 1j / z2_safe)
         den = psi_1_z2 * (1.0 + 1j / z1_safe)
         den = torch.where(den.abs() < eps, den + eps, den)
@@ -762,9 +788,9 @@ def pena_psi_zeta_n(
 
     z_safe = torch.where(_z.abs() < eps, _z + eps, _z)
     for nn in range(1, n_max + 1):
-        psi_curr = psi_prev * ((nn / z_safe) - D1[nn - 1, ...])
+        psi_curr = psi_prev * _psi_ratio(nn, z_safe, D1[nn, ...])
         if nn == 1:
-            # D1_0 has poles at the zeros of psi_0: use explicit psi_1 there
+            # psi_0 has zeros at k*pi: use explicit psi_1 there
             psi_1 = torch.sin(_z) / z_safe - torch.cos(_z)
             psi_curr = torch.where(psi_1.abs() > psi_prev.abs(), psi_1, psi_curr)
         zeta_curr = zeta_prev * ((nn / z_safe) - D3[nn - 1, ...])
-- 
2.43.0


From d54db75c04f0faa2d62e2b99e490ed19d7566117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:45 +0000
Subject: [PATCH 05/34] fix: NaN coefficients of large, strongly refracting
 spheres

The automatic order follows |m x| and exceeds x by far for metals, where
zeta_n(x) overflows (r=8um silver at 1.5um gave NaN). Evaluate a_n, b_n from
the ratio psi_n/zeta_n.
---
 src/pymiediff/multishell.py | 27 +++++++----------
 src/pymiediff/special.py    | 59 +++++++++++++++++++++++++++++++++++++
 2 files changed, 70 insertions(+), 16 deletions(-)

diff --git a/src/pymiediff/multishell.py b/src/pymiediff/multishell.py
index 7c432ec..f34bda2 100644
--- a/src/pymiediff/multishell.py
+++ b/src/pymiediff/multishell.py
@@ -380,27 +380,22 @@ def _miecoef_pena(
     mL = m_layers[:, -1, :]
     D1_xL = special.pena_D1_n(n_max, xL, precision=precision)
     D3_xL = special.pena_D3_n(n_max, xL, D1=D1_xL, precision=precision)
-    psi_xL, zeta_xL = special.pena_psi_zeta_n(
+    psi_zeta_xL = special.pena_psi_over_zeta_n(
         n_max, xL, D1=D1_xL, D3=D3_xL, precision=precision
-    )
-
-    n_arr = torch.arange(n_max + 1, device=k.device, dtype=k.real.dtype).to(dtype_c)
-    n_arr = n_arr.view(-1, 1, 1)
-    xL_safe = torch.where(xL.abs() < eps.abs(), xL + eps, xL)
+    )[1:, ...]
+    D1_xL = D1_xL[1:, ...]
+    D3_xL = D3_xL[1:, ...]
 
-    term_a = H_a / mL.unsqueeze(0) + (n_arr / xL_safe.unsqueeze(0))
-    den_a = term_a[1:, ...] * zeta_xL[1:, ...] - zeta_xL[:-1, ...]
+    # `psi_n / zeta_n` form: zeta_n alone overflows for orders n >> x_L
+    term_a = H_a[1:, ...] / mL.unsqueeze(0)
+    den_a = term_a - D3_xL
     den_a = torch.where(den_a.abs() < eps.abs(), den_a + eps, den_a)
-    a_n = (
-        term_a[1:, ...] * psi_xL[1:, ...] - psi_xL[:-1, ...]
-    ) / den_a
+    a_n = psi_zeta_xL * (term_a - D1_xL) / den_a
 
-    term_b = mL.unsqueeze(0) * H_b + (n_arr / xL_safe.unsqueeze(0))
-    den_b = term_b[1:, ...] * zeta_xL[1:, ...] - zeta_xL[:-1, ...]
+    term_b = mL.unsqueeze(0) * H_b[1:, ...]
+    den_b = term_b - D3_xL
     den_b = torch.where(den_b.abs() < eps.abs(), den_b + eps, den_b)
-    b_n = (
-        term_b[1:, ...] * psi_xL[1:, ...] - psi_xL[:-1, ...]
-    ) / den_b
+    b_n = psi_zeta_xL * (term_b - D1_xL) / den_b
 
     return dict(
         a_n=a_n,
diff --git a/src/pymiediff/special.py b/src/pymiediff/special.py
index 8f38615..8c4244f 100644
--- a/src/pymiediff/special.py
+++ b/src/pymiediff/special.py
@@ -802,6 +802,65 @@ def pena_psi_zeta_n(
     return torch.stack(psi_list, dim=0), torch.stack(zeta_list, dim=0)
 
 
+def pena_psi_over_zeta_n(
+    n: Union[torch.Tensor, int],
+    z: torch.Tensor,
+    D1: torch.Tensor,
+    D3: torch.Tensor,
+    eps: float = 1e-30,
+    precision: str = "double",
+):
+    """Build the ratio ``psi_n / zeta_n`` from Peña derivatives.
+
+    In contrast to ``zeta_n``, the ratio does not overflow for orders
+    ``n >> |z|``.
+
+    Parameters
+    ----------
+    n : int or torch.Tensor
+        Maximum order.
+    z : torch.Tensor
+        Complex argument(s).
+    D1, D3 : torch.Tensor
+        Log-derivative sequences.
+    eps : float, default=1e-30
+        Small denominator safeguard.
+    precision : {"single", "double"}, default="double"
+        Complex dtype selection.
+
+    Returns
+    -------
+    torch.Tensor
+        Ratio sequence for orders ``0..n``.
+    """
+    n_max = _pena_nmax(n)
+    _z = torch.atleast_1d(torch.as_tensor(z))
+
+    if precision.lower() == "single":
+        dtype_c = torch.complex64
+    else:
+        dtype_c = torch.complex128
+    _z = _z.to(dtype=dtype_c)
+
+    ratio_prev = 0.5 * (1.0 - torch.exp(-2j * _z))
+    ratio_list = [ratio_prev]
+
+    z_safe = torch.where(_z.abs() < eps, _z + eps, _z)
+    for nn in range(1, n_max + 1):
+        if nn == 1:
+            # psi_0 has zeros at k*pi: use explicit psi_1 / zeta_1
+            psi_1 = _scaled_psi_1(_z, z_safe, D1[1, ...])
+            ratio_curr = -psi_1 * torch.exp(-2j * _z) / (1.0 + 1j / z_safe)
+        else:
+            psi_ratio = _psi_ratio(nn, z_safe, D1[nn, ...])
+            zeta_ratio = (nn / z_safe) - D3[nn - 1, ...]
+            ratio_curr = ratio_prev * (psi_ratio / zeta_ratio)
+        ratio_list.append(ratio_curr)
+        ratio_prev = ratio_curr
+
+    return torch.stack(ratio_list, dim=0)
+
+
 # --- torch-native spherical Bessel functions via recurrences
 def sph_jn_torch_via_rec(
     n: torch.Tensor,
-- 
2.43.0


From 0bc3483507e2d590607216fc2615a5f7ee6432b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:47 +0000
Subject: [PATCH 06/34] fix: NaN near fields and gradients at/around the
 particle center

The irregular VSH were multiplied by zero coefficients in the core (0*inf at
the center), and masked-out regions with diverging VSH gave NaN gradients.
---
 src/pymiediff/multishell.py | 55 +++++++++++++++++++++++--------------
 1 file changed, 35 insertions(+), 20 deletions(-)

diff --git a/src/pymiediff/multishell.py b/src/pymiediff/multishell.py
index f34bda2..ca15200 100644
--- a/src/pymiediff/multishell.py
+++ b/src/pymiediff/multishell.py
@@ -1179,6 +1179,27 @@ def nearfields(
         n = n.view((-1,) + (r_sh.ndim - 1) * (1,))
         En = 1j**n * E_0 * (2 * n + 1) / (n * (n + 1))
 
+        # region masks
+        r_pos = r.view(1, 1, n_pos)
+        masks = []
+        r_regions = []
+        for li in range(L):
+            r_hi = r_layers[:, li].view(n_p, 1, 1)
+            if li == 0:
+                m = r_pos <= r_hi
+            else:
+                r_lo = r_layers[:, li - 1].view(n_p, 1, 1)
+                m = torch.logical_and(r_pos > r_lo, r_pos <= r_hi)
+            masks.append(m)
+            r_regions.append(torch.where(m, r_pos, r_hi))
+        m_out = r_pos > r_layers[:, -1].view(n_p, 1, 1)
+        masks.append(m_out)
+        r_regions.append(torch.where(m_out, r_pos, r_layers[:, -1].view(n_p, 1, 1)))
+        masks = [torch.broadcast_to(m.unsqueeze(0).unsqueeze(-1), full_shape) for m in masks]
+        # radii per region: positions outside a region are replaced by its outer
+        # boundary, since the (masked) divergent VSH there would spoil gradients
+        r_regions = [_r.unsqueeze(0).unsqueeze(-1) for _r in r_regions]
+
         # evaluate VSH per region medium (0..L-1 layers, L outside env)
         n_layers_abs = torch.sqrt(eps_layers)
         n_medium_reg = [
@@ -1189,13 +1210,18 @@ def nearfields(
 
         M1_o, M1_e, N1_o, N1_e = [], [], [], []
         M3_o, M3_e, N3_o, N3_e = [], [], [], []
-        for n_med in n_medium_reg:
+        for li, n_med in enumerate(n_medium_reg):
+            r_reg = r_regions[li]
             _M1o, _M1e, _N1o, _N1e = vsh_pena(
-                n_max, k0, n_med, r_sh, theta_sh, phi_sh, kind=1, precision=precision
-            )
-            _M3o, _M3e, _N3o, _N3e = vsh_pena(
-                n_max, k0, n_med, r_sh, theta_sh, phi_sh, kind=3, precision=precision
+                n_max, k0, n_med, r_reg, theta_sh, phi_sh, kind=1, precision=precision
             )
+            if li == 0:
+                # core: only regular VSH (irregular ones diverge at the center)
+                _M3o = _M3e = _N3o = _N3e = None
+            else:
+                _M3o, _M3e, _N3o, _N3e = vsh_pena(
+                    n_max, k0, n_med, r_reg, theta_sh, phi_sh, kind=3, precision=precision
+                )
             M1_o.append(_M1o)
             M1_e.append(_M1e)
             N1_o.append(_N1o)
@@ -1205,21 +1231,6 @@ def nearfields(
             N3_o.append(_N3o)
             N3_e.append(_N3e)
 
-        # region masks
-        r_pos = r.view(1, 1, n_pos)
-        masks = []
-        for li in range(L):
-            r_hi = r_layers[:, li].view(n_p, 1, 1)
-            if li == 0:
-                m = r_pos <= r_hi
-            else:
-                r_lo = r_layers[:, li - 1].view(n_p, 1, 1)
-                m = torch.logical_and(r_pos > r_lo, r_pos <= r_hi)
-            masks.append(m)
-        m_out = r_pos > r_layers[:, -1].view(n_p, 1, 1)
-        masks.append(m_out)
-        masks = [torch.broadcast_to(m.unsqueeze(0).unsqueeze(-1), full_shape) for m in masks]
-
         Es = torch.zeros(full_shape, dtype=dtype_c, device=k0.device)
         Hs = torch.zeros_like(Es)
 
@@ -1234,6 +1245,10 @@ def nearfields(
                 # outside: scattered field only
                 E_l = En * (1j * a_l * N3_e[li] - b_l * M3_o[li])
                 H_l = n_med * En * (1j * b_l * N3_o[li] + a_l * M3_e[li])
+            elif li == 0:
+                # core: regular part of the field expansion
+                E_l = En * (c_l * M1_o[li] - 1j * d_l * N1_e[li])
+                H_l = -n_med * En * (d_l * M1_e[li] + 1j * c_l * N1_o[li])
             else:
                 # inside layers: full field expansion (Ladutenko et al. 2017, Eq. 4)
                 E_l = En * (
-- 
2.43.0


From 51aa4e78cdd396e82c001bcf85aad64733251d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:47 +0000
Subject: [PATCH 07/34] fix: single-precision expansion prefactors in
 double-precision solvers

Integer tensors made i^n (2n+1)/(n(n+1)) complex64/float32, limiting near
fields and S1/S2 to ~1e-7 regardless of the requested precision.
---
 src/pymiediff/multishell.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pymiediff/multishell.py b/src/pymiediff/multishell.py
index ca15200..b3a0046 100644
--- a/src/pymiediff/multishell.py
+++ b/src/pymiediff/multishell.py
@@ -957,6 +957,7 @@ def angular_scattering(
     k0 = k0.unsqueeze(0)  # add dim order
     pi_n = pi_n.unsqueeze(1).unsqueeze(1)  # add N_part, k0 dims.
     tau_n = tau_n.unsqueeze(1).unsqueeze(1)  # add N_part, k0 dims.
+    n = n.to(a_n.real.dtype)  # avoid single precision results of integer tensors
     n = n.unsqueeze(-1).unsqueeze(-1).unsqueeze(-1)  # add dim N_part, N_k0, N_theta
     a_n = a_n.unsqueeze(-1)
     b_n = b_n.unsqueeze(-1)
@@ -1177,6 +1178,7 @@ def nearfields(
         phi_sh = phi.unsqueeze(0).unsqueeze(0).unsqueeze(0).unsqueeze(-1)
 
         n = n.view((-1,) + (r_sh.ndim - 1) * (1,))
+        n = n.to(dtype=dtype_c)  # avoid single precision results of integer tensors
         En = 1j**n * E_0 * (2 * n + 1) / (n * (n + 1))
 
         # region masks
@@ -1420,6 +1422,7 @@ def nearfields(
     # Hs = k/(omega mu) sum_n En (i b_n N3o1n + a_n M3e1n)
     # the resulting fields are the spherical coordinate components
 
+    n = n.to(dtype=a_n.dtype)  # avoid single precision results of integer tensors
     En = 1j**n * E_0 * (2 * n + 1) / (n * (n + 1))
     idx_1 = torch.broadcast_to(idx_1, full_shape)
     idx_2 = torch.broadcast_to(idx_2, full_shape)
-- 
2.43.0


From 8ba5a43c117562ca859070986663655b89bfe0b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:25 +0000
Subject: [PATCH 08/34] fix: polar angle close to the z axis in
 transform_xyz_to_spherical

Clamping z/r before acos shifted points on the axis by sqrt(20 eps): 1.5e-3
rad in single precision. Use atan2 with gradient-safe arguments instead.
---
 src/pymiediff/helper/helper.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/pymiediff/helper/helper.py b/src/pymiediff/helper/helper.py
index 75578d1..a72dd93 100644
--- a/src/pymiediff/helper/helper.py
+++ b/src/pymiediff/helper/helper.py
@@ -247,14 +247,17 @@ def transform_xyz_to_spherical(x, y, z):
         Spherical coordinates ``(r, theta, phi)``.
     """
     r = torch.sqrt(x**2 + y**2 + z**2)
-    r_safe = torch.where(r == 0, torch.as_tensor(1e-12, device=r.device, dtype=r.dtype), r)
-    z_over_r = z / r_safe
-    eps = torch.finfo(z_over_r.dtype).eps * 10
-    z_over_r = torch.clamp(z_over_r, -1.0 + eps, 1.0 - eps)
-    theta = torch.acos(z_over_r)
-    eps_phi = torch.finfo(x.dtype).eps * 10
-    x_safe = x + (x == 0).to(x.dtype) * eps_phi
-    phi = torch.atan2(y, x_safe)
+    # polar angle via atan2: accurate close to the z axis (in contrast to acos).
+    # the undefined angles on the axis / at the origin use gradient-safe inputs
+    rho_sq = x**2 + y**2
+    on_axis = rho_sq == 0
+    rho = torch.sqrt(torch.where(on_axis, torch.ones_like(rho_sq), rho_sq))
+    rho = torch.where(on_axis, torch.zeros_like(rho), rho)
+    z_safe = torch.where(r == 0, torch.ones_like(z), z)
+    theta = torch.atan2(rho, z_safe)
+    x_safe = torch.where(on_axis, torch.ones_like(x), x)
+    y_safe = torch.where(on_axis, torch.zeros_like(y), y)
+    phi = torch.atan2(y_safe, x_safe)
     return r, theta, phi
 
 
-- 
2.43.0


From 5caa617ef67b5a01a63e1f01ba661aaac0fbe9f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:12 +0000
Subject: [PATCH 09/34] fix: near fields of backends torch/scipy for several
 wavelengths/particles

Radii and refractive indices were not expanded to the (order, particle,
wavelength, position, component) layout: wrong fields or shape errors.
---
 src/pymiediff/multishell.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pymiediff/multishell.py b/src/pymiediff/multishell.py
index b3a0046..41843e4 100644
--- a/src/pymiediff/multishell.py
+++ b/src/pymiediff/multishell.py
@@ -1376,7 +1376,12 @@ def nearfields(
     k0 = k0.unsqueeze(0).unsqueeze(-1).unsqueeze(-1)
     kc = kc.unsqueeze(0).unsqueeze(-1).unsqueeze(-1)
     ks = ks.unsqueeze(0).unsqueeze(-1).unsqueeze(-1)
+    n_env = n_env.unsqueeze(0).unsqueeze(-1).unsqueeze(-1)
     n_sourrounding = n_sourrounding.unsqueeze(0).unsqueeze(-1).unsqueeze(-1)
+    n_core = n_core.unsqueeze(0).unsqueeze(-1).unsqueeze(-1)
+    n_shell = n_shell.unsqueeze(0).unsqueeze(-1).unsqueeze(-1)
+    r_c = r_c.unsqueeze(0).unsqueeze(-1).unsqueeze(-1)
+    r_s = r_s.unsqueeze(0).unsqueeze(-1).unsqueeze(-1)
 
     # add position, vector dim
     a_n = a_n.unsqueeze(-1).unsqueeze(-1)
-- 
2.43.0


From ece4f982b9e370ae3f7201c4164ffa2aff488ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:42 +0000
Subject: [PATCH 10/34] fix: wavelength gradient of database materials depends
 on call history

---
 src/pymiediff/materials/mat.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/pymiediff/materials/mat.py b/src/pymiediff/materials/mat.py
index eaece00..175734d 100644
--- a/src/pymiediff/materials/mat.py
+++ b/src/pymiediff/materials/mat.py
@@ -384,6 +384,13 @@ class MatDatabase(MaterialBase):
         return eps
 
     def _get_eps_single_wl(self, wavelength):
+        # differentiation wrt wavelength: don't use the lookup table, as stored
+        # values carry no (or an already released) autograd graph
+        if torch.is_grad_enabled() and getattr(wavelength, "requires_grad", False):
+            return torch.as_tensor(
+                self._eval(wavelength), dtype=DTYPE_COMPLEX, device=self.device
+            )
+
         # memoize evaluations
         wl_key = float(wavelength)
 
-- 
2.43.0


From e150a46475f3cdd5a08433f6df52fb6eb54a6d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:14 +0000
Subject: [PATCH 11/34] fix: NaN for real-valued negative layer permittivities
 (ideal metals)

---
 src/pymiediff/multishell.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pymiediff/multishell.py b/src/pymiediff/multishell.py
index 41843e4..74cfd47 100644
--- a/src/pymiediff/multishell.py
+++ b/src/pymiediff/multishell.py
@@ -623,6 +623,9 @@ def _broadcast_mie_layers(k0, r_layers, eps_layers, eps_env):
         raise ValueError("`eps_env` length must match len(k0).")
     eps_env = eps_env.unsqueeze(0)  # particle dim
 
+    # negative real permittivities (ideal metals) have an imaginary ref. index
+    eps_layers = eps_layers + 0j
+
     # layer-specific refractive index
     n_layers_rel = eps_layers**0.5
     n_env = eps_env**0.5
-- 
2.43.0


From 5ee0995b1b3cbeb7da1f3a419d70ac6ed0df8a7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:32 +0000
Subject: [PATCH 12/34] fix: angular_scattering returned per-order values for a
 scalar angle

---
 src/pymiediff/multishell.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pymiediff/multishell.py b/src/pymiediff/multishell.py
index 74cfd47..1a4f858 100644
--- a/src/pymiediff/multishell.py
+++ b/src/pymiediff/multishell.py
@@ -924,6 +924,9 @@ def angular_scattering(
     dict
         ``S1``, ``S2``, polarized intensities, and angular metadata.
     """
+    # single angles need an angle dimension, too
+    theta = torch.atleast_1d(torch.as_tensor(theta))
+
     # - evaluate mie coefficients (vectorized)
     miecoeff = mie_coefficients(
         k0=k0,
-- 
2.43.0


From 6806bee3332433954141d8ba82296328e7665e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:53 +0000
Subject: [PATCH 13/34] fix: torchgdm Mie coefficients for n_max=1 and the
 n_env override

---
 src/pymiediff/helper/tg.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/pymiediff/helper/tg.py b/src/pymiediff/helper/tg.py
index 26ca5c4..ee7df6c 100644
--- a/src/pymiediff/helper/tg.py
+++ b/src/pymiediff/helper/tg.py
@@ -179,7 +179,7 @@ def mie_ab_sphere_3d_AD(
     assert torch.all(eps_env == eps_env[0]), "dispersive environment not supported yet"
     if n_env is not None:
         assert eps_env[0] == n_env**2
-        eps_env = n_env**2
+        eps_env = torch.atleast_1d(torch.as_tensor(n_env**2, device=device))
     env_3d = EnvHomogeneous3D(env_material=float(eps_env[0].real), device=device)
 
     # --- get Mie coefficients from pymiediff particle
@@ -188,10 +188,9 @@ def mie_ab_sphere_3d_AD(
     a_n = miecoeff["a_n"]
     b_n = miecoeff["b_n"]
 
-    if a_n.ndim == 1:  # single wl
-        a_n = a_n.unsqueeze(1)  # add empty wavelength dimension
-    if b_n.ndim == 1:
-        b_n = b_n.unsqueeze(1)
+    # restore squeezed dimensions (single Mie order and/or single wavelength)
+    a_n = a_n.reshape(-1, len(wavelengths))
+    b_n = b_n.reshape(-1, len(wavelengths))
 
     a_n = a_n.moveaxis(0, 1)
     b_n = b_n.moveaxis(0, 1)  # move Mie-order last
@@ -510,7 +509,7 @@ def extract_GPM_sphere_miediff(
     assert torch.all(eps_env == eps_env[0]), "dispersive environment not supported yet"
     if n_env is not None:
         assert eps_env[0] == n_env**2
-        eps_env = n_env**2
+        eps_env = torch.atleast_1d(torch.as_tensor(n_env**2, device=device))
     env_3d = EnvHomogeneous3D(env_material=float(eps_env[0].real), device=device)
 
     # full radius
-- 
2.43.0


From 62b7036fb652d29771e77570fa55c94f82d392cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:12 +0000
Subject: [PATCH 14/34] fix: backward of Bessel derivatives modified the
 caller's argument

---
 src/pymiediff/special.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymiediff/special.py b/src/pymiediff/special.py
index 8c4244f..c862dcd 100644
--- a/src/pymiediff/special.py
+++ b/src/pymiediff/special.py
@@ -67,7 +67,7 @@ def bessel2ndDer(n: torch.Tensor, z: torch.Tensor, bessel, **kwargs):
     torch.Tensor
         Second derivative with respect to ``z``.
     """
-    z[z == 0] = 1e-10
+    z = np.where(z == 0, 1e-10, z)  # copy: don't modify the caller's memory
     z = np.nan_to_num(z, nan=1e-10)
     return (1 / z**2) * ((n**2 - n - z**2) * bessel(n, z) + 2 * z * bessel(n + 1, z))
 
-- 
2.43.0


From 488a5b55f2e9951b5e7f4212a90a9f378d96c6ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:23 +0000
Subject: [PATCH 15/34] fix: list_available_materials(verbose=True) raised a
 TypeError

---
 src/pymiediff/materials/mat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymiediff/materials/mat.py b/src/pymiediff/materials/mat.py
index 175734d..61470bd 100644
--- a/src/pymiediff/materials/mat.py
+++ b/src/pymiediff/materials/mat.py
@@ -33,7 +33,7 @@ def list_available_materials(verbose=False):
     """Return all keys for the database materials"""
     if verbose:
         for f in REFINDEX_DATA:
-            print("{}: ".format(f, pathlib.Path(REFINDEX_DATA[f]).name))
+            print("{}: {}".format(f, pathlib.Path(REFINDEX_DATA[f][0]).name))
     return [f for f in REFINDEX_DATA]
 
 
-- 
2.43.0


From d1275788e198ba589ac279a4b52442f7b2902187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:51 +0000
Subject: [PATCH 16/34] fix: material plot methods imported a module that does
 not exist

---
 src/pymiediff/materials/mat.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pymiediff/materials/mat.py b/src/pymiediff/materials/mat.py
index 61470bd..1d1057f 100644
--- a/src/pymiediff/materials/mat.py
+++ b/src/pymiediff/materials/mat.py
@@ -97,13 +97,13 @@ class MaterialBase:
             tensor_comp (list, optional): permittivity tensor component indices. Defaults to [0, 0].
         """
         import matplotlib.pyplot as plt
-        from pymiediff.helper.plotting import _get_axis_existing_or_new_axes
         from pymiediff.helper import detach_tensor
 
         eps = self.get_epsilon(wavelengths)
 
         # plot
-        ax, show = _get_axis_existing_or_new_axes()
+        # only show new figures, otherwise add to existing axes
+        show = len(plt.get_fignums()) == 0
 
         plt.title("epsilon - '{}'".format(self.__name__))
         plt.plot(
@@ -131,14 +131,14 @@ class MaterialBase:
             tensor_comp (list, optional): refractive index tensor component indices. Defaults to [0, 0].
         """
         import matplotlib.pyplot as plt
-        from pymiediff.helper.plotting import _get_axis_existing_or_new_axes
         from pymiediff.helper import detach_tensor
         
 
         n_mat = self.get_epsilon(wavelengths) ** 0.5
 
         # plot
-        ax, show = _get_axis_existing_or_new_axes()
+        # only show new figures, otherwise add to existing axes
+        show = len(plt.get_fignums()) == 0
 
         plt.title("ref. index - '{}'".format(self.__name__))
         plt.plot(
-- 
2.43.0


From cacf8766b8d65dae269b0705d6aca404fd1fd25d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:45 +0000
Subject: [PATCH 17/34] fix: zeta_n of pena_psi_zeta_n in strongly absorbing
 media

---
 src/pymiediff/special.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymiediff/special.py b/src/pymiediff/special.py
index c862dcd..4abc7da 100644
--- a/src/pymiediff/special.py
+++ b/src/pymiediff/special.py
@@ -782,7 +782,7 @@ def pena_psi_zeta_n(
     _z = _z.to(dtype=dtype_c)
 
     psi_prev = torch.sin(_z)
-    zeta_prev = torch.sin(_z) - 1j * torch.cos(_z)
+    zeta_prev = -1j * torch.exp(1j * _z)  # sin(z) - i cos(z), without cancellation
     psi_list = [psi_prev]
     zeta_list = [zeta_prev]
 
-- 
2.43.0


From b35d416a72d06cdbd4cdcd82616e61137f2e364f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:45 +0000
Subject: [PATCH 18/34] fix: unstable expansion coefficients of inner layers in
 pena near fields

---
 src/pymiediff/multishell.py | 119 +++++++++++++++++++++---------------
 1 file changed, 71 insertions(+), 48 deletions(-)

diff --git a/src/pymiediff/multishell.py b/src/pymiediff/multishell.py
index 1a4f858..3b28768 100644
--- a/src/pymiediff/multishell.py
+++ b/src/pymiediff/multishell.py
@@ -274,6 +274,7 @@ def _miecoef_pena(
     n,
     return_internal=False,
     precision="double",
+    return_layer_terms=False,
 ):
     """Compute external multilayer Mie coefficients with Peña/Yang recurrences.
 
@@ -293,6 +294,9 @@ def _miecoef_pena(
         Not supported in this backend.
     precision : {"single", "double"}, default="double"
         Computation precision.
+    return_layer_terms : bool, default=False
+        If ``True``, also return ``layer_terms``: per layer (and finally the
+        host medium) the terms needed for the expansion inside the layers.
 
     Returns
     -------
@@ -328,6 +332,11 @@ def _miecoef_pena(
     H_a = None
     H_b = None
 
+    # Per layer: field at its outer and inner boundary relative to the part
+    # `d_n psi_n` (`c_n psi_n`), and the amplitude ratio of outgoing to regular
+    # parts, `a_n / d_n` (`b_n / c_n`). Core: regular part only.
+    layer_terms = [(1.0, None, 0.0, 1.0, None, 0.0)]
+
     # layer recursion for H^a and H^b (Peña/Pal 2009, Yang recursion)
     for l_idx in range(n_layers):
         ml = m_layers[:, l_idx, :]
@@ -375,6 +384,22 @@ def _miecoef_pena(
         den_b = torch.where(den_b.abs() < eps.abs(), den_b + eps, den_b)
         H_b = (Gt2 * D1_curr - Q * Gt1 * D3_curr) / den_b
 
+        if return_layer_terms:
+            psi_zeta_prev = special.pena_psi_over_zeta_n(
+                n_max, z_prev, D1=D1_prev, D3=D3_prev, precision=precision
+            )
+            U_prev = D1_prev - D3_prev
+            layer_terms.append(
+                (
+                    den_a / G2,
+                    mlm1 * U_prev / G2,
+                    psi_zeta_prev * G1 / G2,
+                    den_b / Gt2,
+                    ml * U_prev / Gt2,
+                    psi_zeta_prev * Gt1 / Gt2,
+                )
+            )
+
     # final scattering coefficients with outer size parameter x_L
     xL = x_layers[:, -1, :]
     mL = m_layers[:, -1, :]
@@ -397,6 +422,15 @@ def _miecoef_pena(
     den_b = torch.where(den_b.abs() < eps.abs(), den_b + eps, den_b)
     b_n = psi_zeta_xL * (term_b - D1_xL) / den_b
 
+    if return_layer_terms:
+        U_xL = D1_xL - D3_xL
+        layer_terms = [
+            tuple(_t[1:, ...] if isinstance(_t, torch.Tensor) else _t for _t in _terms)
+            for _terms in layer_terms
+        ]
+        layer_terms.append((None, U_xL / den_a, a_n, None, U_xL / den_b, b_n))
+        return dict(a_n=a_n, b_n=b_n, layer_terms=layer_terms)
+
     return dict(
         a_n=a_n,
         b_n=b_n,
@@ -1070,16 +1104,20 @@ def nearfields(
         eps_layers = miecoeff["eps_layers"]
         L = r_layers.shape[1]
 
-        # prepare full order arrays with n=0 slot (avoid in-place ops for autograd)
         dtype_c = a_ext.dtype
         n_p = r_layers.shape[0]
         n_k0 = k0.shape[1]
 
-        zeros_n = torch.zeros((1, n_p, n_k0), dtype=dtype_c, device=k0.device)
-        a_L = torch.cat((zeros_n, a_ext), dim=0)
-        b_L = torch.cat((zeros_n, b_ext), dim=0)
-        c_L = torch.ones_like(a_L)
-        d_L = torch.ones_like(a_L)
+        # terms of the (outward) recursion through the layers
+        layer_terms = _miecoef_pena(
+            k=k,
+            r_layers=r_layers,
+            eps_layers=eps_layers,
+            n_env=n_env,
+            n=n_max,
+            precision=precision,
+            return_layer_terms=True,
+        )["layer_terms"]
 
         x_layers = k.unsqueeze(1) * r_layers.unsqueeze(-1).to(dtype=dtype_c)  # (Np, L, Nk)
         m_ext = torch.cat(
@@ -1090,17 +1128,15 @@ def nearfields(
             dim=1,
         )  # (Np, L+1, Nk)
 
-        eps = torch.tensor(1e-30, dtype=dtype_c, device=k0.device)
-
         # recursive expansion coefficients, l = L ... 1
         a_layers = [None] * (L + 1)
         b_layers = [None] * (L + 1)
         c_layers = [None] * (L + 1)
         d_layers = [None] * (L + 1)
-        a_layers[L] = a_L
-        b_layers[L] = b_L
-        c_layers[L] = c_L
-        d_layers[L] = d_L
+        a_layers[L] = a_ext
+        b_layers[L] = b_ext
+        c_layers[L] = torch.ones_like(a_ext)
+        d_layers[L] = torch.ones_like(a_ext)
 
         for li in range(L - 1, -1, -1):
             ml = m_ext[:, li, :]
@@ -1112,54 +1148,41 @@ def nearfields(
 
             D1_l = special.pena_D1_n(n_max, z_l, precision=precision)
             D3_l = special.pena_D3_n(n_max, z_l, D1=D1_l, precision=precision)
-            psi_l, zeta_l = special.pena_psi_zeta_n(
+            psi_l, _ = special.pena_psi_zeta_n(
                 n_max, z_l, D1=D1_l, D3=D3_l, precision=precision
             )
 
             D1_lp1 = special.pena_D1_n(n_max, z_lp1, precision=precision)
             D3_lp1 = special.pena_D3_n(n_max, z_lp1, D1=D1_lp1, precision=precision)
-            psi_lp1, zeta_lp1 = special.pena_psi_zeta_n(
+            psi_lp1, _ = special.pena_psi_zeta_n(
                 n_max, z_lp1, D1=D1_lp1, D3=D3_lp1, precision=precision
             )
 
-            a_nxt = a_layers[li + 1]
-            b_nxt = b_layers[li + 1]
-            c_nxt = c_layers[li + 1]
-            d_nxt = d_layers[li + 1]
-
-            T1 = a_nxt * zeta_lp1 - d_nxt * psi_lp1
-            T2 = b_nxt * zeta_lp1 - c_nxt * psi_lp1
-            T3 = d_nxt * D1_lp1 * psi_lp1 - a_nxt * D3_lp1 * zeta_lp1
-            T4 = c_nxt * D1_lp1 * psi_lp1 - b_nxt * D3_lp1 * zeta_lp1
-            U = D1_l - D3_l
-
-            den_a = zeta_l * U
-            den_c = psi_l * U
-            den_a = torch.where(den_a.abs() < eps.abs(), den_a + eps, den_a)
-            den_c = torch.where(den_c.abs() < eps.abs(), den_c + eps, den_c)
-
-            # Ladutenko et al. 2017, Eq. (7.1)-(7.4): factor m_l / m_{l+1}
+            # Continuity of the tangential fields at x_l (equivalent to Ladutenko
+            # et al. 2017, Eq. (7.1)-(7.4), factor m_l / m_{l+1}). The ratios
+            # a_l / d_l and b_l / c_l are fixed by the inner layers: obtaining
+            # them from the outer coefficients is numerically unstable.
             m_ratio = ml / mlp1
-            a_l = (D1_l * T1 + T3 * m_ratio) / den_a
-            b_l = (D1_l * T2 * m_ratio + T4) / den_a
-            c_l = (D3_l * T2 * m_ratio + T4) / den_c
-            d_l = (D3_l * T1 + T3 * m_ratio) / den_c
-
-            # enforce regularity in inner core
-            if li == 0:
-                a_l = torch.zeros_like(a_l)
-                b_l = torch.zeros_like(b_l)
-
-            a_layers[li] = a_l
-            b_layers[li] = b_l
+            # orders for which psi_n underflows do not contribute
+            underflow = psi_l.abs() < 1e10 * torch.finfo(psi_l.dtype).tiny
+            psi_l = torch.where(underflow, torch.ones_like(psi_l), psi_l)
+            psi_ratio = psi_lp1[1:, ...] / psi_l[1:, ...]
+            f_hi_a, _, ratio_a, f_hi_b, _, ratio_b = layer_terms[li]
+            _, f_lo_a, _, _, f_lo_b, _ = layer_terms[li + 1]
+
+            c_l = c_layers[li + 1] * m_ratio * psi_ratio * f_lo_b / f_hi_b
+            d_l = d_layers[li + 1] * psi_ratio * f_lo_a / f_hi_a
+
+            a_layers[li] = d_l * ratio_a
+            b_layers[li] = c_l * ratio_b
             c_layers[li] = c_l
             d_layers[li] = d_l
 
-        # stack and remove n=0 slot for field sums
-        a_reg = torch.stack(a_layers, dim=-1)[1:, ...]
-        b_reg = torch.stack(b_layers, dim=-1)[1:, ...]
-        c_reg = torch.stack(c_layers, dim=-1)[1:, ...]
-        d_reg = torch.stack(d_layers, dim=-1)[1:, ...]
+        # stack for field sums
+        a_reg = torch.stack(a_layers, dim=-1)
+        b_reg = torch.stack(b_layers, dim=-1)
+        c_reg = torch.stack(c_layers, dim=-1)
+        d_reg = torch.stack(d_layers, dim=-1)
 
         # - convert Cartesian to spherical coordinates
         r, theta, phi = transform_xyz_to_spherical(
-- 
2.43.0


From ea5e224c45413d1a749a722223ee43f0bb681f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:46 +0000
Subject: [PATCH 19/34] fix: NaN near fields and gradients of particles much
 smaller than others in the batch

---
 src/pymiediff/multishell.py |  2 +-
 src/pymiediff/special.py    | 10 +++++++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/pymiediff/multishell.py b/src/pymiediff/multishell.py
index 3b28768..fa50510 100644
--- a/src/pymiediff/multishell.py
+++ b/src/pymiediff/multishell.py
@@ -1164,7 +1164,7 @@ def nearfields(
             # them from the outer coefficients is numerically unstable.
             m_ratio = ml / mlp1
             # orders for which psi_n underflows do not contribute
-            underflow = psi_l.abs() < 1e10 * torch.finfo(psi_l.dtype).tiny
+            underflow = psi_l.abs() < torch.finfo(psi_l.dtype).tiny ** 0.5
             psi_l = torch.where(underflow, torch.ones_like(psi_l), psi_l)
             psi_ratio = psi_lp1[1:, ...] / psi_l[1:, ...]
             f_hi_a, _, ratio_a, f_hi_b, _, ratio_b = layer_terms[li]
diff --git a/src/pymiediff/special.py b/src/pymiediff/special.py
index 4abc7da..bf197f8 100644
--- a/src/pymiediff/special.py
+++ b/src/pymiediff/special.py
@@ -771,6 +771,11 @@ def pena_psi_zeta_n(
     -------
     tuple of torch.Tensor
         ``(psi_n, zeta_n)`` for orders ``0..n``.
+
+    Notes
+    -----
+    For orders ``n >> |z|``, ``zeta_n`` is kept at a large, finite value before
+    it overflows.
     """
     n_max = _pena_nmax(n)
     _z = torch.atleast_1d(torch.as_tensor(z))
@@ -780,6 +785,7 @@ def pena_psi_zeta_n(
     else:
         dtype_c = torch.complex128
     _z = _z.to(dtype=dtype_c)
+    zeta_limit = torch.finfo(dtype_c).max ** 0.8
 
     psi_prev = torch.sin(_z)
     zeta_prev = -1j * torch.exp(1j * _z)  # sin(z) - i cos(z), without cancellation
@@ -793,7 +799,9 @@ def pena_psi_zeta_n(
             # psi_0 has zeros at k*pi: use explicit psi_1 there
             psi_1 = torch.sin(_z) / z_safe - torch.cos(_z)
             psi_curr = torch.where(psi_1.abs() > psi_prev.abs(), psi_1, psi_curr)
-        zeta_curr = zeta_prev * ((nn / z_safe) - D3[nn - 1, ...])
+        zeta_curr = zeta_prev * torch.where(
+            zeta_prev.abs() < zeta_limit, (nn / z_safe) - D3[nn - 1, ...], 1.0
+        )
         psi_list.append(psi_curr)
         zeta_list.append(zeta_curr)
         psi_prev = psi_curr
-- 
2.43.0


From 27d16405bb91e02104be6b32a6f4d74383a9d53f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:26 +0000
Subject: [PATCH 20/34] fix: derivatives of near fields with respect to
 positions on the z axis

---
 src/pymiediff/multishell.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/pymiediff/multishell.py b/src/pymiediff/multishell.py
index fa50510..789c8ec 100644
--- a/src/pymiediff/multishell.py
+++ b/src/pymiediff/multishell.py
@@ -1074,6 +1074,13 @@ def nearfields(
 
     backend_l = backend.lower()
 
+    # The azimuth is undefined on the z axis: positions there are evaluated
+    # minimally off-axis, for correct derivatives with respect to `r_probe`.
+    pos_sq = r_probe.detach() ** 2
+    rho_min = 1e-9 * torch.sqrt(pos_sq.sum(dim=-1))
+    on_axis = torch.sqrt(pos_sq[..., 0] + pos_sq[..., 1]) < rho_min
+    x_probe = r_probe[..., 0] + torch.where(on_axis, rho_min, 0.0)
+
     if backend_l == "pena":
         # evaluate scattering coefficients and multilayer metadata
         miecoeff = mie_coefficients(
@@ -1186,7 +1193,7 @@ def nearfields(
 
         # - convert Cartesian to spherical coordinates
         r, theta, phi = transform_xyz_to_spherical(
-            r_probe[..., 0], r_probe[..., 1], r_probe[..., 2]
+            x_probe, r_probe[..., 1], r_probe[..., 2]
         )
 
         n_pos = theta.shape[0]
@@ -1378,7 +1385,7 @@ def nearfields(
 
     # - convert Cartesian to spherical coordinates
     r, theta, phi = transform_xyz_to_spherical(
-        r_probe[..., 0], r_probe[..., 1], r_probe[..., 2]
+        x_probe, r_probe[..., 1], r_probe[..., 2]
     )
 
     # canonicalize n_max
-- 
2.43.0


From 5e7f13a162bc3937b69214788c7df8a7c77e2b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:24 +0000
Subject: [PATCH 21/34] fix: derivatives of sph_jn_torch_via_rec at zeros of
 sin(z)

---
 src/pymiediff/special.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/pymiediff/special.py b/src/pymiediff/special.py
index bf197f8..85bf84c 100644
--- a/src/pymiediff/special.py
+++ b/src/pymiediff/special.py
@@ -952,13 +952,15 @@ def sph_jn_torch_via_rec(
 
     # normalize
     j0_exact = torch.sin(_z[-1, ...]) / _z[-1, ...]
-    scale = j0_exact / jns[0, ...]
+    jn_exact, jn_rec = j0_exact, jns[0, ...]
     if n_max >= 1:
         # j_0 vanishes at z=k*pi: normalize to the larger one of j_0 and j_1
+        # (select before the division, which may be singular at zeros of j_0)
         j1_exact = (j0_exact - torch.cos(_z[-1, ...])) / _z[-1, ...]
-        scale = torch.where(
-            j1_exact.abs() > j0_exact.abs(), j1_exact / jns[1, ...], scale
-        )
+        use_j1 = j1_exact.abs() > j0_exact.abs()
+        jn_exact = torch.where(use_j1, j1_exact, jn_exact)
+        jn_rec = torch.where(use_j1, jns[1, ...], jn_rec)
+    scale = jn_exact / jn_rec
     jns = jns * scale.unsqueeze(0)  # scale: expand order dim.
 
     return jns
-- 
2.43.0


From 3690e2e6416dc309f8a0bb70e0548343422458dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:34 +0000
Subject: [PATCH 22/34] fix: sph_jn_torch failed for multi-dimensional
 arguments close to zero

---
 src/pymiediff/special.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pymiediff/special.py b/src/pymiediff/special.py
index 85bf84c..264dddd 100644
--- a/src/pymiediff/special.py
+++ b/src/pymiediff/special.py
@@ -1027,7 +1027,7 @@ def sph_jn_torch(
         z_small = z_flat[idx_small]  # shape (S_small,)
 
         # double-factorial: log((2n+1)!!) = lgamma(2n+2) - n*log(2) - lgamma(n+1)
-        n_arr = _n.to(dtype_f)
+        n_arr = _n.reshape(-1, 1).to(dtype_f)  # shape (n_max+1, 1)
         log_dd = (
             torch.lgamma(2.0 * n_arr + 2.0)
             - n_arr * torch.log(torch.tensor(2.0))
@@ -1036,8 +1036,8 @@ def sph_jn_torch(
         dd = torch.exp(log_dd).to(dtype_f)
 
         # leading-term series (very small z)
-        zpow = z_small.unsqueeze(0) ** _n.to(dtype_c)  # shape (n_max+1, S_small)
-        jn_small = zpow / dd.to(dtype_c).unsqueeze(0)
+        zpow = z_small.unsqueeze(0) ** n_arr.to(dtype_c)  # shape (n_max+1, S_small)
+        jn_small = zpow / dd.to(dtype_c)
 
         # for n==0, j0 = 1 (z^0 / 1 ), correct; for exact z==0, higher orders are zero
         jns_flat[:, idx_small] = jn_small
-- 
2.43.0


From 77f28f9aa190b1bc6f79066f8c182776d0d9f983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:14 +0000
Subject: [PATCH 23/34] fix: torchGDM structure classes did not raise without
 torchgdm

---
 src/pymiediff/helper/tg.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/pymiediff/helper/tg.py b/src/pymiediff/helper/tg.py
index ee7df6c..d320fc7 100644
--- a/src/pymiediff/helper/tg.py
+++ b/src/pymiediff/helper/tg.py
@@ -59,8 +59,12 @@ if _tg_available is None:
                 "'pymiediff.helper.tg' Install it via `pip install torchgdm`."
             )
 
-    StructAutodiffMieEffPola3D = _MissingDependency
-    StructAutodiffMieGPM3D = _MissingDependency
+    class _RequiresTorchGDM:
+        def __init__(self, *args, **kwargs):
+            raise _MissingDependency()
+
+    StructAutodiffMieEffPola3D = _RequiresTorchGDM
+    StructAutodiffMieGPM3D = _RequiresTorchGDM
 
 else:
     from torchgdm.constants import DTYPE_COMPLEX, DTYPE_FLOAT
-- 
2.43.0


From 31b1c169badcd4ec62b6341991ed4b0bf2ae992e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:07 +0000
Subject: [PATCH 24/34] fix: wrong polarizabilities of effective dipoles for
 unsorted wavelengths

---
 src/pymiediff/helper/tg.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pymiediff/helper/tg.py b/src/pymiediff/helper/tg.py
index d320fc7..0a976b2 100644
--- a/src/pymiediff/helper/tg.py
+++ b/src/pymiediff/helper/tg.py
@@ -841,7 +841,8 @@ if _tg_available is not None:
             wavelengths = torch.as_tensor(
                 wavelengths, dtype=DTYPE_FLOAT, device=self.device
             )
-            wavelengths = torch.atleast_1d(wavelengths)
+            # torchgdm interpolates between (ascending) wavelengths
+            wavelengths = torch.sort(torch.atleast_1d(wavelengths)).values
             k0 = 2 * torch.pi / wavelengths
 
             # mie coefficients
-- 
2.43.0


From d2729c1fce1587c5576175e6745a8a057e4394cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:13 +0000
Subject: [PATCH 25/34] fix: near fields with precision='single' failed for
 double precision inputs

---
 src/pymiediff/multishell.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/pymiediff/multishell.py b/src/pymiediff/multishell.py
index 789c8ec..55f0943 100644
--- a/src/pymiediff/multishell.py
+++ b/src/pymiediff/multishell.py
@@ -1302,8 +1302,8 @@ def nearfields(
                     - a_l * M3_e[li]
                 )
 
-            Es[masks[li]] = E_l[masks[li]]
-            Hs[masks[li]] = H_l[masks[li]]
+            Es[masks[li]] = E_l[masks[li]].to(dtype=Es.dtype)
+            Hs[masks[li]] = H_l[masks[li]].to(dtype=Hs.dtype)
 
         # convert to Cartesian and sum over Mie orders
         Es_xyz = transform_fields_spherical_to_cartesian(
@@ -1477,9 +1477,9 @@ def nearfields(
     Es_3 = En * (1j * a_n * N3_e1n - b_n * M3_o1n)
 
     Es = torch.zeros(full_shape, dtype=a_n.dtype, device=a_n.device)
-    Es[idx_1] = Es_1[idx_1]
-    Es[idx_2] = Es_2[idx_2]
-    Es[idx_3] = Es_3[idx_3]
+    Es[idx_1] = Es_1[idx_1].to(dtype=Es.dtype)
+    Es[idx_2] = Es_2[idx_2].to(dtype=Es.dtype)
+    Es[idx_3] = Es_3[idx_3].to(dtype=Es.dtype)
 
     # magnetic fields (relative to H0)
     Hs_1 = -n_core * En * (d_n * M1_e1n_c + 1j * c_n * N1_o1n_c)
@@ -1495,9 +1495,9 @@ def nearfields(
     Hs_3 = En*n_env * (1j * b_n * N3_o1n + a_n * M3_e1n)
 
     Hs = torch.zeros(full_shape, dtype=a_n.dtype, device=a_n.device)
-    Hs[idx_1] = Hs_1[idx_1]
-    Hs[idx_2] = Hs_2[idx_2]
-    Hs[idx_3] = Hs_3[idx_3]
+    Hs[idx_1] = Hs_1[idx_1].to(dtype=Hs.dtype)
+    Hs[idx_2] = Hs_2[idx_2].to(dtype=Hs.dtype)
+    Hs[idx_3] = Hs_3[idx_3].to(dtype=Hs.dtype)
 
     # convert to Cartesian
     Es_xyz = transform_fields_spherical_to_cartesian(
-- 
2.43.0


From c3985fb3aa8111b51b2c8d74677def34dfef729c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:25 +0000
Subject: [PATCH 26/34] fix: materials handed out their stored permittivity
 tensor

---
 src/pymiediff/materials/mat.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pymiediff/materials/mat.py b/src/pymiediff/materials/mat.py
index 1d1057f..1f1a912 100644
--- a/src/pymiediff/materials/mat.py
+++ b/src/pymiediff/materials/mat.py
@@ -401,7 +401,8 @@ class MatDatabase(MaterialBase):
             eps = torch.as_tensor(_eps, dtype=DTYPE_COMPLEX, device=self.device)
             self.lookup_eps[wl_key] = eps
 
-        return eps
+        # never hand out the stored tensor itself
+        return eps.clone()
 
     def get_epsilon(self, wavelength):
         """get permittivity at `wavelength`
-- 
2.43.0


From e5cd20f4636fa4af8cbea67a0df6047519c9628a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:38 +0000
Subject: [PATCH 27/34] fix: overflow and cancellation for small arguments in
 single precision

Near fields of small particles were NaN with precision='single', and real
parts of coefficients lost all digits.
---
 src/pymiediff/special.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/pymiediff/special.py b/src/pymiediff/special.py
index 264dddd..69c68d7 100644
--- a/src/pymiediff/special.py
+++ b/src/pymiediff/special.py
@@ -521,12 +521,16 @@ def _scaled_psi_1(z, z_safe, D1_1):
     torch.Tensor
         Scaled first order Riccati-Bessel function.
     """
+    # no cancellation close to the origin
+    small = z.abs() < 1.0
+    z_small = torch.where(small, z, torch.ones_like(z))
     exp_2iz = torch.exp(2j * z)
-    psi_0 = -0.5j * (exp_2iz - 1.0)
-    psi_1 = psi_0 / z_safe - 0.5 * (exp_2iz + 1.0)
-    return torch.where(
-        psi_1.abs() > psi_0.abs(), psi_1, psi_0 * _psi_ratio(1, z_safe, D1_1)
+    psi_0 = torch.where(
+        small, torch.exp(1j * z_small) * torch.sin(z_small), -0.5j * (exp_2iz - 1.0)
     )
+    psi_1 = psi_0 / z_safe - 0.5 * (exp_2iz + 1.0)
+    use_psi_1 = torch.logical_and(psi_1.abs() > psi_0.abs(), ~small)
+    return torch.where(use_psi_1, psi_1, psi_0 * _psi_ratio(1, z_safe, D1_1))
 
 
 def pena_D1_n(
@@ -785,7 +789,8 @@ def pena_psi_zeta_n(
     else:
         dtype_c = torch.complex128
     _z = _z.to(dtype=dtype_c)
-    zeta_limit = torch.finfo(dtype_c).max ** 0.8
+    # leave room for divisions by z (little in single precision)
+    zeta_limit = torch.finfo(dtype_c).max ** (0.5 if dtype_c == torch.complex64 else 0.8)
 
     psi_prev = torch.sin(_z)
     zeta_prev = -1j * torch.exp(1j * _z)  # sin(z) - i cos(z), without cancellation
@@ -798,7 +803,8 @@ def pena_psi_zeta_n(
         if nn == 1:
             # psi_0 has zeros at k*pi: use explicit psi_1 there
             psi_1 = torch.sin(_z) / z_safe - torch.cos(_z)
-            psi_curr = torch.where(psi_1.abs() > psi_prev.abs(), psi_1, psi_curr)
+            use_psi_1 = torch.logical_and(psi_1.abs() > psi_prev.abs(), _z.abs() >= 1.0)
+            psi_curr = torch.where(use_psi_1, psi_1, psi_curr)
         zeta_curr = zeta_prev * torch.where(
             zeta_prev.abs() < zeta_limit, (nn / z_safe) - D3[nn - 1, ...], 1.0
         )
-- 
2.43.0


From 9fa758d4cf64e577662665ff66ff104c8a0ce40f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:27 +0000
Subject: [PATCH 28/34] fix: second derivatives through the SciPy Bessel
 functions were dropped silently

---
 src/pymiediff/special.py | 51 ++++++++++++++++++++++++++--------------
 1 file changed, 33 insertions(+), 18 deletions(-)

diff --git a/src/pymiediff/special.py b/src/pymiediff/special.py
index 69c68d7..b71a42e 100644
--- a/src/pymiediff/special.py
+++ b/src/pymiediff/special.py
@@ -67,11 +67,18 @@ def bessel2ndDer(n: torch.Tensor, z: torch.Tensor, bessel, **kwargs):
     torch.Tensor
         Second derivative with respect to ``z``.
     """
-    z = np.where(z == 0, 1e-10, z)  # copy: don't modify the caller's memory
-    z = np.nan_to_num(z, nan=1e-10)
+    z = torch.where(z == 0, torch.full_like(z, 1e-10), z)
+    z = torch.where(torch.isnan(z), torch.full_like(z, 1e-10), z)
     return (1 / z**2) * ((n**2 - n - z**2) * bessel(n, z) + 2 * z * bessel(n + 1, z))
 
 
+def _vmap_bessel(func, in_dims, n, z):
+    """Batching rule of the element-wise SciPy Bessel functions."""
+    n = n if in_dims[0] is None else n.movedim(in_dims[0], 0)
+    z = z if in_dims[1] is None else z.movedim(in_dims[1], 0)
+    return func.apply(n, z), 0
+
+
 class _AutoDiffJn(torch.autograd.Function):
     @staticmethod
     def forward(n, z):
@@ -79,6 +86,10 @@ class _AutoDiffJn(torch.autograd.Function):
         result = torch.from_numpy(spherical_jn(n_np, z_np))
         return result
 
+    @staticmethod
+    def vmap(info, in_dims, n, z):
+        return _vmap_bessel(_AutoDiffJn, in_dims, n, z)
+
     @staticmethod
     def setup_context(ctx, inputs, output):
         n, z = inputs
@@ -86,13 +97,11 @@ class _AutoDiffJn(torch.autograd.Function):
         ctx.save_for_backward(n, z, result)
 
     @staticmethod
-    @torch.autograd.function.once_differentiable  # todo: double diff support
     def backward(ctx, grad_result):
         n, z, result = ctx.saved_tensors
-        n_np, z_np = n.detach().numpy(), z.detach().numpy()
 
-        # gradient of forward pass
-        dz = torch.from_numpy(spherical_jn(n_np, z_np, derivative=True))
+        # gradient of forward pass (itself differentiable)
+        dz = _AutoDiffdJn.apply(n, z)
 
         # apply chain rule
         # torch convention: use conjugate!
@@ -135,6 +144,10 @@ class _AutoDiffdJn(torch.autograd.Function):
         result = torch.from_numpy(spherical_jn(n_np, z_np, derivative=True))
         return result
 
+    @staticmethod
+    def vmap(info, in_dims, n, z):
+        return _vmap_bessel(_AutoDiffdJn, in_dims, n, z)
+
     @staticmethod
     def setup_context(ctx, inputs, output):
         n, z = inputs
@@ -142,13 +155,11 @@ class _AutoDiffdJn(torch.autograd.Function):
         ctx.save_for_backward(n, z, result)
 
     @staticmethod
-    @torch.autograd.function.once_differentiable  # todo: double diff support
     def backward(ctx, grad_result):
         n, z, result = ctx.saved_tensors
-        n_np, z_np = n.detach().numpy(), z.detach().numpy()
 
-        # gradient of forward pass
-        ddz = torch.from_numpy(bessel2ndDer(n_np, z_np, spherical_jn))
+        # gradient of forward pass (itself differentiable)
+        ddz = bessel2ndDer(n, z, _AutoDiffJn.apply)
 
         # apply chain rule
         # torch convention: use conjugate!
@@ -191,6 +202,10 @@ class _AutoDiffYn(torch.autograd.Function):
         result = torch.from_numpy(spherical_yn(n_np, z_np))
         return result
 
+    @staticmethod
+    def vmap(info, in_dims, n, z):
+        return _vmap_bessel(_AutoDiffYn, in_dims, n, z)
+
     @staticmethod
     def setup_context(ctx, inputs, output):
         n, z = inputs
@@ -198,13 +213,11 @@ class _AutoDiffYn(torch.autograd.Function):
         ctx.save_for_backward(n, z, result)
 
     @staticmethod
-    @torch.autograd.function.once_differentiable  # todo: double diff support
     def backward(ctx, grad_result):
         n, z, result = ctx.saved_tensors
-        n_np, z_np = n.detach().numpy(), z.detach().numpy()
 
-        # gradient of forward pass
-        dz = torch.from_numpy(spherical_yn(n_np, z_np, derivative=True))
+        # gradient of forward pass (itself differentiable)
+        dz = _AutoDiffdYn.apply(n, z)
 
         # apply chain rule
         # torch convention: use conjugate!
@@ -247,6 +260,10 @@ class _AutoDiffdYn(torch.autograd.Function):
         result = torch.from_numpy(spherical_yn(n_np, z_np, derivative=True))
         return result
 
+    @staticmethod
+    def vmap(info, in_dims, n, z):
+        return _vmap_bessel(_AutoDiffdYn, in_dims, n, z)
+
     @staticmethod
     def setup_context(ctx, inputs, output):
         n, z = inputs
@@ -254,13 +271,11 @@ class _AutoDiffdYn(torch.autograd.Function):
         ctx.save_for_backward(n, z, result)
 
     @staticmethod
-    @torch.autograd.function.once_differentiable  # todo: double diff support
     def backward(ctx, grad_result):
         n, z, result = ctx.saved_tensors
-        n_np, z_np = n.detach().numpy(), z.detach().numpy()
 
-        # gradient of forward pass
-        ddz = torch.from_numpy(bessel2ndDer(n_np, z_np, spherical_yn))
+        # gradient of forward pass (itself differentiable)
+        ddz = bessel2ndDer(n, z, _AutoDiffYn.apply)
 
         # apply chain rule
         # torch convention: use conjugate!
-- 
2.43.0


From 6ebbb2d2be3bb84da7b7f9a476fa8e07f50836aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:40 +0000
Subject: [PATCH 29/34] fix: pi_tau failed for non-contiguous arguments

---
 src/pymiediff/special.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymiediff/special.py b/src/pymiediff/special.py
index b71a42e..30b5192 100644
--- a/src/pymiediff/special.py
+++ b/src/pymiediff/special.py
@@ -1304,7 +1304,7 @@ def pi_tau(n: int, mu: torch.Tensor, **kwargs):
 
     # keep original shape to reshape later
     orig_shape = mu.shape
-    mu_flat = mu.view(-1)  # 1D for iteration
+    mu_flat = mu.reshape(-1)  # 1D for iteration
     L = mu_flat.shape[0]
 
     # build pi/tau without in-place writes (autograd-safe)
-- 
2.43.0


From 7c61e57b1e74354cfb82842cf4bb8bd57116cc7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:40 +0000
Subject: [PATCH 30/34] fix: wrong scattering amplitudes for multi-dimensional
 angles

---
 src/pymiediff/multishell.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pymiediff/multishell.py b/src/pymiediff/multishell.py
index 55f0943..681e09d 100644
--- a/src/pymiediff/multishell.py
+++ b/src/pymiediff/multishell.py
@@ -960,6 +960,8 @@ def angular_scattering(
     """
     # single angles need an angle dimension, too
     theta = torch.atleast_1d(torch.as_tensor(theta))
+    if theta.ndim != 1:
+        raise ValueError("`theta` must be scalar or 1D.")
 
     # - evaluate mie coefficients (vectorized)
     miecoeff = mie_coefficients(
-- 
2.43.0


From 7b5c53d6b3c6e3b2721762bf7b6d017f6a96da6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:14 +0000
Subject: [PATCH 31/34] fix: sph_jn_torch was wrong for small arguments in
 single precision

---
 src/pymiediff/special.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/pymiediff/special.py b/src/pymiediff/special.py
index 30b5192..e6cdbfb 100644
--- a/src/pymiediff/special.py
+++ b/src/pymiediff/special.py
@@ -978,7 +978,8 @@ def sph_jn_torch_via_rec(
         # j_0 vanishes at z=k*pi: normalize to the larger one of j_0 and j_1
         # (select before the division, which may be singular at zeros of j_0)
         j1_exact = (j0_exact - torch.cos(_z[-1, ...])) / _z[-1, ...]
-        use_j1 = j1_exact.abs() > j0_exact.abs()
+        # (explicit j_1 is inaccurate for small z, where it is not needed)
+        use_j1 = (j1_exact.abs() > j0_exact.abs()) & (_z[-1, ...].abs() > 1.0)
         jn_exact = torch.where(use_j1, j1_exact, jn_exact)
         jn_rec = torch.where(use_j1, jns[1, ...], jn_rec)
     scale = jn_exact / jn_rec
@@ -1110,9 +1111,9 @@ def sph_jn_torch(
         if n_max >= 1:
             # j_0 vanishes at z=k*pi: start from explicit j_1 if it is larger
             j1_big = (j0_big - torch.cos(z_big)) / z_big
-            j1_big = torch.where(
-                j1_big.abs() > j0_big.abs(), j1_big, j0_big * r_storage[0]
-            )
+            # (explicit j_1 is inaccurate for small z, where it is not needed)
+            use_j1 = (j1_big.abs() > j0_big.abs()) & (z_big.abs() > 1.0)
+            j1_big = torch.where(use_j1, j1_big, j0_big * r_storage[0])
             # cumulative product of r_k across orders: r_2, r_2*r_3, ...
             r_cum = torch.cumprod(r_storage[1:], dim=0)
             jns_big[1, :] = j1_big
-- 
2.43.0


From 0a19f129353256f84bdde5e981b8ed885902c9c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:19 +0000
Subject: [PATCH 32/34] fix: sph_jn_torch used a single precision logarithm for
 small arguments

---
 src/pymiediff/special.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymiediff/special.py b/src/pymiediff/special.py
index e6cdbfb..e904930 100644
--- a/src/pymiediff/special.py
+++ b/src/pymiediff/special.py
@@ -1052,7 +1052,7 @@ def sph_jn_torch(
         n_arr = _n.reshape(-1, 1).to(dtype_f)  # shape (n_max+1, 1)
         log_dd = (
             torch.lgamma(2.0 * n_arr + 2.0)
-            - n_arr * torch.log(torch.tensor(2.0))
+            - n_arr * np.log(2.0)
             - torch.lgamma(n_arr + 1.0)
         )
         dd = torch.exp(log_dd).to(dtype_f)
-- 
2.43.0


From ac7291108cd8aaa717e71fe1bc6a6cd20e52de9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:19:15 +0000
Subject: [PATCH 33/34] fix: sph_jn_torch_via_rec overflowed for small
 arguments next to large ones

The recurrence starts above the largest argument of a call; for much smaller
arguments in the same batch the unnormalised values exceeded the floating
point range, so small particles next to large ones came out as NaN.
---
 src/pymiediff/special.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/pymiediff/special.py b/src/pymiediff/special.py
index e904930..2bbc03b 100644
--- a/src/pymiediff/special.py
+++ b/src/pymiediff/special.py
@@ -960,11 +960,19 @@ def sph_jn_torch_via_rec(
     j_n = torch.ones_like(_z, dtype=dtype_c) * 0.0
     j_np1 = torch.ones_like(_z, dtype=dtype_c) * 1e-25
     j_nm1 = torch.zeros_like(_z, dtype=dtype_c)
+    j_limit = torch.finfo(dtype_c).max ** 0.25
 
     for _n in range(n_start, 0, -1):
         j_nm1 = ((2.0 * _n + 1.0) / _z) * j_n - j_np1
         j_np1 = j_n
         j_n = j_nm1
+        # small arguments: rescale all orders before the recurrence overflows
+        j_abs = j_n.detach().abs()
+        if (j_abs > j_limit).any():
+            rescale = torch.where(j_abs > j_limit, 1.0 / j_abs, torch.ones_like(j_abs))
+            j_n = j_n * rescale
+            j_np1 = j_np1 * rescale
+            jns = [_j * rescale[-1, ...] for _j in jns]
         if _n <= n_max + 1:
             jns.append(j_n[-1, ...])
 
-- 
2.43.0


From 2988dc978b12ab11c24da318f86c85f44e53b9c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:26:56 +0000
Subject: [PATCH 34/34] fix: closed-form Mie coefficients overflowed for orders
 beyond small arguments

Products of the Bessel functions exceed the floating point range for particles
(or cores) much smaller than the largest one of a batch, giving NaN. Scale the
functions of each order, which cancels in the coefficients.
---
 src/pymiediff/multishell.py | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/src/pymiediff/multishell.py b/src/pymiediff/multishell.py
index 681e09d..f0a17cb 100644
--- a/src/pymiediff/multishell.py
+++ b/src/pymiediff/multishell.py
@@ -21,6 +21,13 @@ from pymiediff import helper
 
 
 # - Mie coefficients, private API
+# - internal helper
+def _inverse_magnitude(f, df):
+    """Return ``1 / (|f| + |df|)`` as constant, one where it is not finite."""
+    inv = 1.0 / (f.detach().abs() + df.detach().abs())
+    return torch.where(torch.isfinite(inv), inv, torch.ones_like(inv))
+
+
 def _miecoef(
     x,
     y,
@@ -116,6 +123,19 @@ def _miecoef(
 
     dxi_y = h1_y + y * dh1_y
 
+    # Scale the functions of each order to values close to one: for orders
+    # larger than the arguments, their products exceed the floating point range.
+    s_m1x = _inverse_magnitude(psi_m1x, dpsi_m1x)
+    psi_m1x, dpsi_m1x = psi_m1x * s_m1x, dpsi_m1x * s_m1x
+    s_psi = _inverse_magnitude(psi_m2x, dpsi_m2x)
+    psi_m2x, dpsi_m2x = psi_m2x * s_psi, dpsi_m2x * s_psi
+    psi_m2y, dpsi_m2y = psi_m2y * s_psi, dpsi_m2y * s_psi
+    s_chi = _inverse_magnitude(chi_m2x, dchi_m2x)
+    chi_m2x, dchi_m2x = chi_m2x * s_chi, dchi_m2x * s_chi
+    chi_m2y, dchi_m2y = chi_m2y * s_chi, dchi_m2y * s_chi
+    s_xi = _inverse_magnitude(xi_y, dxi_y)
+    xi_y, dxi_y = xi_y * s_xi, dxi_y * s_xi
+
     # # Mie coeffs.
     # An = (m2 * psi_m2x * dpsi_m1x - m1 * dpsi_m2x * psi_m1x) / (
     #     m2 * chi_m2x * dpsi_m1x - m1 * dchi_m2x * psi_m1x
@@ -245,6 +265,14 @@ def _miecoef(
         vn = x40 * (-x42 * x54 + x43 * x54 + x53 * x9 - x55 * x9)
         wn = x46 * (x42 * x56 - x43 * x56 - x53 * x6 + x55 * x6)
 
+        # undo the scaling
+        cn, dn = cn * s_m1x, dn * s_m1x
+        fn, gn = fn * s_psi, gn * s_psi
+        vn, wn = vn * s_chi, wn * s_chi
+
+    # undo the scaling
+    an, bn = an * s_xi, bn * s_xi
+
     # recurrences return n+1 orders: remove zeroth order
     if return_internal:
         result_dict = dict(
-- 
2.43.0

