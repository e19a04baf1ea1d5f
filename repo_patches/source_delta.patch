From ed863f7a9e216628035710cb243c1fdd8ad69618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:56 +0000
Subject: [PATCH 01/69] fix: bind each decay channel's positron spectrum to its
 own final state

---
 hazma/theory/__init__.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/hazma/theory/__init__.py b/hazma/theory/__init__.py
index 427e962..3103fd2 100644
--- a/hazma/theory/__init__.py
+++ b/hazma/theory/__init__.py
@@ -601,15 +601,14 @@ class TheoryDec(TheoryGammaRayLimits, TheoryCMB, TheoryConstrain):
         widths = self.decay_widths()
         dndes_wrapped = {}
 
-        for fs, dnde in self._positron_spectrum_funcs().items():
-
-            def dnde_wrapped(e_ps):
-                if widths[fs] > 0:
-                    return dnde(e_ps)
-                else:
-                    return np.zeros_like(e_ps)
+        def dnde_null(e_ps):
+            return np.zeros_like(e_ps)
 
-            dndes_wrapped[fs] = dnde_wrapped
+        for fs, dnde in self._positron_spectrum_funcs().items():
+            if widths[fs] > 0.0:
+                dndes_wrapped[fs] = dnde
+            else:
+                dndes_wrapped[fs] = dnde_null
 
         return dndes_wrapped
 
-- 
2.43.0


From 97336c3babe78870c11d52bf9ae77af646efcda7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:56 +0000
Subject: [PATCH 02/69] fix: size custom_constrain images by the parameter
 grid's columns

---
 hazma/theory/_theory_constrain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hazma/theory/_theory_constrain.py b/hazma/theory/_theory_constrain.py
index f2a1c4a..1b83df2 100644
--- a/hazma/theory/_theory_constrain.py
+++ b/hazma/theory/_theory_constrain.py
@@ -34,7 +34,7 @@ class TheoryConstrain:
 
         # Store the constraint images. Note that p1 and p2 must be swapped
         # so we can use Cartesian rather than matrix indexing.
-        imgs = {cn: np.zeros([n_rows, n_rows]) for cn in constraints.keys()}
+        imgs = {cn: np.zeros([n_rows, n_cols]) for cn in constraints.keys()}
 
         # Loop over the parameter grid
         for i in range(n_rows):
-- 
2.43.0


From 380a5b28848f0d18a30296c00f9fee29bfd55201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:15 +0000
Subject: [PATCH 03/69] fix: flat squared matrix elements are one for array
 arguments

---
 hazma/phase_space/_three_body.py | 4 ++--
 hazma/phase_space/_two_body.py   | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/hazma/phase_space/_three_body.py b/hazma/phase_space/_three_body.py
index e351d61..c02ecef 100644
--- a/hazma/phase_space/_three_body.py
+++ b/hazma/phase_space/_three_body.py
@@ -35,9 +35,9 @@ def _msqrd_flat(s, t):
         return 1.0
 
     if scalar_s:
-        return np.zeros_like(t)
+        return np.ones_like(t)
 
-    return np.zeros_like(s)
+    return np.ones_like(s)
 
 
 def _mandelstam_to_momenta(s, t, q: float, masses: Tuple[float, float, float]):
diff --git a/hazma/phase_space/_two_body.py b/hazma/phase_space/_two_body.py
index 4cbe51c..d3eafa6 100644
--- a/hazma/phase_space/_two_body.py
+++ b/hazma/phase_space/_two_body.py
@@ -16,7 +16,7 @@ def _msqrd_flat(z):
     if np.isscalar(z):
         return 1.0
 
-    return np.zeros_like(z)
+    return np.ones_like(z)
 
 
 class TwoBody(AbstractPhaseSpaceIntegrator):
-- 
2.43.0


From 49eeb13a62bca556663643480d14cf6d2ec637f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:16 +0000
Subject: [PATCH 04/69] fix: ThreeBody.msqrd setter takes effect with the
 'momenta' signature

---
 hazma/phase_space/_three_body.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/hazma/phase_space/_three_body.py b/hazma/phase_space/_three_body.py
index c02ecef..585ee26 100644
--- a/hazma/phase_space/_three_body.py
+++ b/hazma/phase_space/_three_body.py
@@ -176,8 +176,12 @@ class ThreeBody(AbstractPhaseSpaceIntegrator):
     @msqrd.setter
     def msqrd(self, fn) -> None:
         r"""Squared matrix element of the proccess."""
-        self.__msqrd = fn
-        self.__update_msqrd()
+        if self.__original_msqrd is not None:
+            # The matrix element keeps the signature the class was built with.
+            self.__original_msqrd = fn
+            self.__update_msqrd()
+        else:
+            self.__msqrd = fn
 
     def __trapz(self, fn, a: float, b: float, npts: int):
         xs = np.linspace(a, b, npts)
-- 
2.43.0


From 0f192c7c9e917b86be53f328d37b96745a43b912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:16 +0000
Subject: [PATCH 05/69] fix: three-body t bounds use the parent mass in the
 Kallen function

---
 hazma/phase_space/_three_body.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hazma/phase_space/_three_body.py b/hazma/phase_space/_three_body.py
index 585ee26..825ab23 100644
--- a/hazma/phase_space/_three_body.py
+++ b/hazma/phase_space/_three_body.py
@@ -252,7 +252,7 @@ class ThreeBody(AbstractPhaseSpaceIntegrator):
         m32 = m3**2
 
         pfac = -(msqr - m12) * (m22 - m32) + (msqr + m12 + m22 + m32) * s - s**2
-        sfac = np.sqrt(kallen_lambda(s, m12, m22) * kallen_lambda(s, m22, m32))
+        sfac = np.sqrt(kallen_lambda(s, msqr, m12) * kallen_lambda(s, m22, m32))
 
         lb = 0.5 * (pfac - sfac) / s
         ub = 0.5 * (pfac + sfac) / s
-- 
2.43.0


From 1d32feac244bcaa034e21697a5777065f6d3614e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:34 +0000
Subject: [PATCH 06/69] fix: Rambo setters recompute the initial momentum scale

---
 hazma/phase_space/_rambo.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/hazma/phase_space/_rambo.py b/hazma/phase_space/_rambo.py
index 389e158..0205334 100644
--- a/hazma/phase_space/_rambo.py
+++ b/hazma/phase_space/_rambo.py
@@ -65,7 +65,7 @@ class Rambo(AbstractPhaseSpaceIntegrator, AbstractPhaseSpaceGenerator):
         self.__msqrd: Optional[SquaredMatrixElement] = msqrd
 
         self.__n = n
-        self.__xi0 = np.sqrt(1.0 - (np.sum(ms) / cme) ** 2)
+        self.__xi0 = self._compute_initial_scale()
         self.__base_wgt = self._compute_base_weight()
 
         self.__rng = np.random.default_rng()
@@ -82,6 +82,7 @@ class Rambo(AbstractPhaseSpaceIntegrator, AbstractPhaseSpaceGenerator):
     @cme.setter
     def cme(self, val) -> None:
         self.__cme = val
+        self.__xi0 = self._compute_initial_scale()
         self.__base_wgt = self._compute_base_weight()
 
     @property
@@ -95,6 +96,7 @@ class Rambo(AbstractPhaseSpaceIntegrator, AbstractPhaseSpaceGenerator):
     def masses(self, masses: npt.NDArray) -> None:
         self.__n = len(masses)
         self.__masses = np.array(masses).reshape((self.__n, 1))
+        self.__xi0 = self._compute_initial_scale()
         self.__base_wgt = self._compute_base_weight()
 
     @property
@@ -104,6 +106,12 @@ class Rambo(AbstractPhaseSpaceIntegrator, AbstractPhaseSpaceGenerator):
         """
         return self.__msqrd
 
+    def _compute_initial_scale(self) -> float:
+        """
+        Compute the initial guess for the momentum scale factor.
+        """
+        return np.sqrt(1.0 - (np.sum(self.__masses) / self.__cme) ** 2)
+
     def _compute_base_weight(self) -> float:
         """
         Compute the starting weight for each phase space point.
-- 
2.43.0


From fc97607e87404d55d7f3b803d2167f3fa594e269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:34 +0000
Subject: [PATCH 07/69] fix: accumulate batched Rambo histograms in floating
 point

---
 hazma/phase_space/_rambo.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/hazma/phase_space/_rambo.py b/hazma/phase_space/_rambo.py
index 0205334..f501e92 100644
--- a/hazma/phase_space/_rambo.py
+++ b/hazma/phase_space/_rambo.py
@@ -589,9 +589,7 @@ class Rambo(AbstractPhaseSpaceIntegrator, AbstractPhaseSpaceGenerator):
         ebounds = energy_limits(self.cme, self.masses)  # type: ignore
         bins = [np.linspace(emin, emax, nbins + 1) for emin, emax in ebounds]
 
-        distributions = [
-            np.histogram(np.zeros(nbins, dtype=np.float64), bins=b)[0] for b in bins
-        ]
+        distributions = [np.zeros(nbins, dtype=np.float64) for _ in bins]
 
         if batch_size is not None and not batch_size == n:
             # Build up the distributions from batches
@@ -658,9 +656,7 @@ class Rambo(AbstractPhaseSpaceIntegrator, AbstractPhaseSpaceGenerator):
 
         bins = [make_bins(pair) for pair in pairs]
 
-        distributions = [
-            np.histogram(np.zeros(nbins, dtype=np.float64), bins=b)[0] for b in bins
-        ]
+        distributions = [np.zeros(nbins, dtype=np.float64) for _ in bins]
 
         if batch_size is not None and not batch_size == n:
             # Build up the distributions from batches
-- 
2.43.0


From 79c0c59da659c5f56c314771456a0c83577c9547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:34 +0000
Subject: [PATCH 08/69] fix: Rambo two-body integration finds the flat matrix
 element

---
 hazma/phase_space/_rambo.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hazma/phase_space/_rambo.py b/hazma/phase_space/_rambo.py
index f501e92..83a8283 100644
--- a/hazma/phase_space/_rambo.py
+++ b/hazma/phase_space/_rambo.py
@@ -32,7 +32,7 @@ MassList = Union[List[float], RealArray]
 SquaredMatrixElement = Callable[[RealArray], float]
 
 
-def __flat_squared_matrix_element(_: RealArray) -> float:
+def _flat_squared_matrix_element(_: RealArray) -> float:
     return 1.0
 
 
@@ -414,7 +414,7 @@ class Rambo(AbstractPhaseSpaceIntegrator, AbstractPhaseSpaceGenerator):
         e2 = np.hypot(m2, p)
         ps = np.zeros((4, 2), dtype=np.float64)
 
-        msqrd = __flat_squared_matrix_element if self.msqrd is None else self.msqrd
+        msqrd = _flat_squared_matrix_element if self.msqrd is None else self.msqrd
 
         def integrand(z):
             sin = np.sqrt(1 - z**2)
-- 
2.43.0


From 988861ec0a6dd4a0752dbe43ae375d49ca8cfb53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:01 +0000
Subject: [PATCH 09/69] fix: zero boosted spectra for unphysical velocities and
 pass args at rest

---
 hazma/spectra/boost.py | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/hazma/spectra/boost.py b/hazma/spectra/boost.py
index d0f5fdd..bdbc955 100644
--- a/hazma/spectra/boost.py
+++ b/hazma/spectra/boost.py
@@ -206,12 +206,12 @@ def dnde_boost_array(dnde, energies, beta: float, mass: float = 0.0):
     dnde_boosted: array
         The boosted spectrum.
     """
+    if beta < 0.0 or beta >= 1.0:
+        return np.zeros_like(energies)
+
     if beta < np.finfo(float).eps:
         return dnde
 
-    if beta < 0 or beta > 1.0:
-        return np.zeros_like(energies)
-
     gamma = 1.0 / np.sqrt(1 - beta**2)
 
     boosted = np.zeros_like(energies)
@@ -277,19 +277,20 @@ def make_boost_function(fn: Callable, mass: float, vectorized: bool = True):
     """
     methods = ["quad", "trapz", "simps", "quadrature"]
 
-    def kinematic_early_return(energies: RealArray, beta: float):
+    def kinematic_early_return(energies: RealArray, beta: float, args: Tuple):
         # The function will return something if we should return early due to
         # kinematic constraints. The constraints are:
-        #   1. beta ~ 0: In rest frame => no boost
-        #   2. beta > 1 or beta < 0: Unphysical.
+        #   1. beta >= 1 or beta < 0: Unphysical.
+        #   2. beta ~ 0: In rest frame => no boost
 
-        if beta < np.finfo(energies.dtype).eps:
-            return fn(energies)
-
-        if beta < 0.0 or beta > 1.0:
+        if beta < 0.0 or beta >= 1.0:
             warnings.warn(f"Unphysical beta = {beta}. Returning zero.")
             return np.zeros_like(energies)
 
+        if beta < np.finfo(energies.dtype).eps:
+            ff = fn if vectorized else np.vectorize(fn)
+            return ff(energies, *args)
+
         return None
 
     def bounds_and_mask(energies: RealArray, gamma: float, beta: float):
@@ -325,7 +326,7 @@ def make_boost_function(fn: Callable, mass: float, vectorized: bool = True):
         energies: array
             Array of energies where spectrum should be evaluated.
         beta: float
-            Boost velocity. If beta < 0 or beta > 1, zeros are returned.
+            Boost velocity. If outside [0, 1), zeros are returned.
         method: str, optional
             Method to use to integrate. Can be 'quad', 'trapz' or
             'simps'. Default is 'quad'.
@@ -350,7 +351,7 @@ def make_boost_function(fn: Callable, mass: float, vectorized: bool = True):
         arguments compatible with quad can be specified.
         """
         check_method(method)
-        early = kinematic_early_return(energies, beta)
+        early = kinematic_early_return(energies, beta, args)
         if early is not None:
             return early
 
@@ -384,7 +385,7 @@ def dnde_boost(
     energies: array
         Array of energies where spectrum should be evaluated.
     beta: float
-        Boost velocity. If beta < 0 or beta > 1, zeros are returned.
+        Boost velocity. If outside [0, 1), zeros are returned.
     mass: float, optional
         Mass of the product. Default is zero (i.e. for a photon.)
     method: str, optional
-- 
2.43.0


From ab497176a9adc7da04c1df38f9c9209a595dc399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:01 +0000
Subject: [PATCH 10/69] fix: normalise doubly boosted lines of massive products
 by the momentum

---
 hazma/spectra/boost.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hazma/spectra/boost.py b/hazma/spectra/boost.py
index bdbc955..8b2ef46 100644
--- a/hazma/spectra/boost.py
+++ b/hazma/spectra/boost.py
@@ -174,7 +174,7 @@ def double_boost_delta_function(
         pre = 1.0
 
     dnde[mask] = pre * np.log(num / den)
-    dnde /= 4.0 * gamma1 * gamma2 * beta1 * beta2 * e0
+    dnde /= 4.0 * gamma1 * gamma2 * beta1 * beta2 * np.sqrt(e0**2 - m**2)
 
     if scalar:
         return dnde[0]
-- 
2.43.0


From 566b3fb5960b4b935a902b1cb57adf143c8ac9e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:10 +0000
Subject: [PATCH 11/69] fix: rest-frame table spectra vanish outside their
 table

---
 hazma/spectra/_neutrino/_utils.py | 2 +-
 hazma/spectra/_positron/_utils.py | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/hazma/spectra/_neutrino/_utils.py b/hazma/spectra/_neutrino/_utils.py
index 7a7e705..a2122ae 100644
--- a/hazma/spectra/_neutrino/_utils.py
+++ b/hazma/spectra/_neutrino/_utils.py
@@ -19,7 +19,7 @@ def load_interp(fname, k=2):
     dnde_integrand = dnde / energies
 
     integrand_interp = interpolate.InterpolatedUnivariateSpline(
-        energies, dnde_integrand, k=k
+        energies, dnde_integrand, k=k, ext="zeros"
     )
 
     return integrand_interp
diff --git a/hazma/spectra/_positron/_utils.py b/hazma/spectra/_positron/_utils.py
index a80dfb1..805e843 100644
--- a/hazma/spectra/_positron/_utils.py
+++ b/hazma/spectra/_positron/_utils.py
@@ -21,7 +21,7 @@ def load_interp(fname):
     dnde_integrand = dnde / np.sqrt(energies**2 - me**2)
 
     integrand_interp = interpolate.InterpolatedUnivariateSpline(
-        energies, dnde_integrand, k=1
+        energies, dnde_integrand, k=1, ext="zeros"
     )
 
     return integrand_interp
@@ -65,7 +65,8 @@ def _dnde_positron_array(
         return np.zeros_like(positron_energy)
 
     if parent_energy - parent_mass < eps:
-        return interp(positron_energy) * np.sqrt(positron_energy**2 - me**2)
+        k = np.sqrt(np.maximum(positron_energy**2 - me**2, 0.0))
+        return interp(positron_energy) * k
 
     return np.array(
         [
-- 
2.43.0


From b3210d6b4c5d733e6df308c8a75bf3b3bae52f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:24 +0000
Subject: [PATCH 12/69] fix: scalar neutrino energies give scalars for a single
 flavor

---
 hazma/spectra/_neutrino/_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hazma/spectra/_neutrino/_utils.py b/hazma/spectra/_neutrino/_utils.py
index a2122ae..b39f12e 100644
--- a/hazma/spectra/_neutrino/_utils.py
+++ b/hazma/spectra/_neutrino/_utils.py
@@ -95,7 +95,7 @@ def dnde_neutrino(
     dnde = np.zeros((3, *enu.shape), dtype=enu.dtype)
 
     if flavor == "tau":
-        return dnde[2]
+        return dnde[2, 0] if scalar else dnde[2]
 
     for i, flav, inter in [(0, "e", interp_e), (1, "mu", interp_mu)]:
         if not flavor or flavor == flav:
@@ -107,7 +107,7 @@ def dnde_neutrino(
             )
 
             if flavor == flav:
-                return dnde_
+                return dnde_[0] if scalar else dnde_
             else:
                 dnde[i] = dnde_
 
-- 
2.43.0


From 1b8f7172274fcf2bc4916a5943fcec0eb6db16ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:24 +0000
Subject: [PATCH 13/69] fix: marginalize spectra with a vectorized spectrum
 function

---
 hazma/spectra/convolve.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/hazma/spectra/convolve.py b/hazma/spectra/convolve.py
index 917029b..aeef7ba 100644
--- a/hazma/spectra/convolve.py
+++ b/hazma/spectra/convolve.py
@@ -59,11 +59,14 @@ def make_marginal_fn(
     probs_ = np.expand_dims(np.array(probs), 1)
 
     if vectorized:
-        excluded = (0,) + tuple([i + 2 for i in range(len(args))])
+
+        def integrand(es, _, *args):
+            es = np.ravel(es)
+            return np.array([dnde_fn(es, cme, *args) for cme in cmes_[:, 0]])
+
     else:
         excluded = tuple([i + 2 for i in range(len(args))])
-
-    integrand = np.vectorize(dnde_fn, excluded=excluded)
+        integrand = np.vectorize(dnde_fn, excluded=excluded)
 
     if method == "trapz":
         integrator = np.trapezoid
-- 
2.43.0


From 8b62601f623f972bf2a69064068eb09067f57293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:53 +0000
Subject: [PATCH 14/69] fix: every identical particle of an n-body final state
 radiates

---
 hazma/spectra/_nbody.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hazma/spectra/_nbody.py b/hazma/spectra/_nbody.py
index 17ad1c4..d491698 100644
--- a/hazma/spectra/_nbody.py
+++ b/hazma/spectra/_nbody.py
@@ -386,8 +386,9 @@ def _dnde_photon_fsr(
                         photon_energies, dist, s, "fsr"
                     )
 
+        # Each particle of a species radiates.
         for key in dndes.keys():
-            dnde += dndes[key] / counts[key]
+            dnde += list(final_states).count(key) * dndes[key] / counts[key]
 
     return dnde
 
-- 
2.43.0


From 090c1688823b61eb5ea2588e99c3e134753a4b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:53 +0000
Subject: [PATCH 15/69] fix: primary neutrinos of n-body final states enter
 their own flavor

---
 hazma/spectra/_nbody.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/hazma/spectra/_nbody.py b/hazma/spectra/_nbody.py
index d491698..4dc75a7 100644
--- a/hazma/spectra/_nbody.py
+++ b/hazma/spectra/_nbody.py
@@ -25,6 +25,9 @@ MSqrd = Union[Callable[[Any], Any], Callable[[Any, Any], Any]]
 # Currently implemented backend integrators
 _INTEGRATORS = ["quad", "trapz", "simps", "rambo"]
 
+# Rows of the neutrino spectra
+_NEUTRINO_ROWS = {"ve": 0, "vm": 1, "vt": 2}
+
 
 def _check_integrator(integrator: str):
     assert integrator in _INTEGRATORS, (
@@ -499,15 +502,19 @@ def _dnde_multi_particle(
         # if product is in final state, add it to spectrum
         cond = state == product
         cond = cond or (state == "e" and product == "positron")
-        cond = cond or (state in ["ve", "vm", "vt"] and product == "neutrino")
+        cond = cond or (state in _NEUTRINO_ROWS and product == "neutrino")
         if cond:
-            dnde += np.interp(
+            primary = np.interp(
                 product_energies,
                 dist.bin_centers,
                 dist.probabilities,
                 right=0.0,
                 left=0.0,
             )
+            if product == "neutrino":
+                dnde[_NEUTRINO_ROWS[state]] += primary
+            else:
+                dnde += primary
 
     if product == "photon" and include_fsr:
         dnde = dnde + _dnde_photon_fsr(
-- 
2.43.0


From 29dee2ac2601d6439a921bc129d0b573db87a59b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:05 +0000
Subject: [PATCH 16/69] fix: neutral rho final states decay to positrons and
 neutrinos

---
 hazma/spectra/_nbody.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hazma/spectra/_nbody.py b/hazma/spectra/_nbody.py
index 4dc75a7..be88f6f 100644
--- a/hazma/spectra/_nbody.py
+++ b/hazma/spectra/_nbody.py
@@ -99,7 +99,7 @@ _dnde_positron_dict: Dict[str, Callable[[RealArray, float], RealArray]] = {
     "eta": _positron.dnde_positron_eta,
     "etap": _positron.dnde_positron_eta_prime,
     "rho": _positron.dnde_positron_charged_rho,
-    "rho0": _dnde_zero,
+    "rho0": _positron.dnde_positron_neutral_rho,
     "omega": _positron.dnde_positron_omega,
     "phi": _positron.dnde_positron_phi,
 }
@@ -118,7 +118,7 @@ _dnde_neutrino_dict = {
     "eta": _neutrino.dnde_neutrino_eta,
     "etap": _neutrino.dnde_neutrino_eta_prime,
     "rho": _neutrino.dnde_neutrino_charged_rho,
-    "rho0": _dnde_zero_nu,
+    "rho0": _neutrino.dnde_neutrino_neutral_rho,
     "omega": _neutrino.dnde_neutrino_omega,
     "phi": _neutrino.dnde_neutrino_phi,
 }
-- 
2.43.0


From 60a6385f58d4e1eb084fa4ed406c719e77fe3601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:41 +0000
Subject: [PATCH 17/69] fix: FluxMeasurement leaves the caller's flux array
 alone

---
 hazma/flux_measurement.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hazma/flux_measurement.py b/hazma/flux_measurement.py
index 9347f28..42b6135 100644
--- a/hazma/flux_measurement.py
+++ b/hazma/flux_measurement.py
@@ -74,7 +74,7 @@ class FluxMeasurement:
         self._e_bins = 0.5 * (self.e_lows + self.e_highs)
 
         # E^2 dN/dE -> dN/dE
-        self.fluxes /= self._e_bins**power
+        self.fluxes = self.fluxes / self._e_bins**power
 
         # Compute upper and lower error bars
         self.upper_errors = self.upper_errors / self._e_bins**power - self.fluxes
-- 
2.43.0


From 2023dad6554f126037a3e54d3395f4bb982f457d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:41 +0000
Subject: [PATCH 18/69] fix: Fisher derivatives of background parameters
 include the solid angle

---
 hazma/theory/_theory_gamma_ray_limits.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hazma/theory/_theory_gamma_ray_limits.py b/hazma/theory/_theory_gamma_ray_limits.py
index 0e6ba5f..c37d942 100644
--- a/hazma/theory/_theory_gamma_ray_limits.py
+++ b/hazma/theory/_theory_gamma_ray_limits.py
@@ -349,7 +349,7 @@ def fisher(
         return background_model.dPhi_dEdOmega(energy) * dOmega
 
     def dphi_b(energy, key):
-        return background_model.derivatives(energy)[key]
+        return background_model.derivatives(energy)[key] * dOmega
 
     dphi = {key: functools.partial(dphi_b, key=key) for key in background_model.params}
     dphi["rate"] = lambda e: phi_s(e)  # type: ignore
-- 
2.43.0


From 86b8e0b280a7f2c897998a3b277dcc0bf01a3de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:41 +0000
Subject: [PATCH 19/69] fix: report the galactic exponential index of the
 background model

---
 hazma/gamma_ray_parameters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hazma/gamma_ray_parameters.py b/hazma/gamma_ray_parameters.py
index b1f7a20..2748689 100644
--- a/hazma/gamma_ray_parameters.py
+++ b/hazma/gamma_ray_parameters.py
@@ -1151,7 +1151,7 @@ class GalacticCenterBackgroundModel(ParametricBackgroundModel):
             "galactic_amplitude": self._galactic_amplitude,
             "galactic_power_law_index": self._galactic_power_law_index,
             "galactic_exponential_cutoff": self._galactic_exponential_cutoff,
-            "galactic_exponential_index": self._galactic_exponential_cutoff,
+            "galactic_exponential_index": self._galactic_exponential_index,
             "extra_galactic_amplitude": self._extra_galactic_amplitude,
             "extra_galactic_power_law_index": self._extra_galactic_power_law_index,
         }
-- 
2.43.0


From b2acfd99b90f2b3082cdfdc9afc03f8dfc5f8404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:41 +0000
Subject: [PATCH 20/69] fix: sign of the power-law index derivative of the
 GECCO background

---
 hazma/gamma_ray_parameters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hazma/gamma_ray_parameters.py b/hazma/gamma_ray_parameters.py
index 2748689..02a7302 100644
--- a/hazma/gamma_ray_parameters.py
+++ b/hazma/gamma_ray_parameters.py
@@ -1324,6 +1324,6 @@ class GeccoBackgroundModel:
         alpha = self.power_law_index
 
         dn = energy ** (-alpha)
-        da = amp * energy ** (-alpha) * np.log(energy)
+        da = -amp * energy ** (-alpha) * np.log(energy)
 
         return {"amplitude": dn, "power_law_index": da}
-- 
2.43.0


From 6ce60982ef5111293dacb3c061f0790921d680a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:21 +0000
Subject: [PATCH 21/69] fix: CMBLimit passes the model to its efficiency

---
 hazma/limits/_cmb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hazma/limits/_cmb.py b/hazma/limits/_cmb.py
index b09db71..24815ac 100644
--- a/hazma/limits/_cmb.py
+++ b/hazma/limits/_cmb.py
@@ -108,7 +108,7 @@ class CMBLimit(AbstractLimit):
         <sigma v> : float
             Upper bound on <sigma v>, in cm^3 s^-1.
         """
-        return self.p_ann * model.mx / self.f_eff(self.x_kd)  # type: ignore
+        return self.p_ann * model.mx / self.f_eff(model)
 
     def _f_eff_helper(self, model, fs, mode="quad"):
         """Computes f_eff^gg or f_eff^ep for DM annihilation.
-- 
2.43.0


From 574b69df634fe7fb1ca8b4bf490121f3072bb568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:21 +0000
Subject: [PATCH 22/69] fix: CMBLimit squares the relative velocity once

---
 hazma/limits/_cmb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hazma/limits/_cmb.py b/hazma/limits/_cmb.py
index 24815ac..698fd8a 100644
--- a/hazma/limits/_cmb.py
+++ b/hazma/limits/_cmb.py
@@ -131,7 +131,7 @@ class CMBLimit(AbstractLimit):
             f_eff for photons or electrons and positrons.
         """
         # Center of mass energy
-        vx = self.vx_cmb(model.mx, self.x_kd) ** 2
+        vx = self.vx_cmb(model.mx, self.x_kd)
         e_cm = 2.0 * model.mx * (1.0 + 0.5 * vx**2)
 
         if fs == "g g":
-- 
2.43.0


From 0fa901c6f0a277cf6b9a63e464bd2931574a9dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:51 +0000
Subject: [PATCH 23/69] fix: binned gamma-ray constraints use cross sections in
 cm^3 / s

---
 hazma/theory/_theory_constrain.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hazma/theory/_theory_constrain.py b/hazma/theory/_theory_constrain.py
index 1b83df2..99945ae 100644
--- a/hazma/theory/_theory_constrain.py
+++ b/hazma/theory/_theory_constrain.py
@@ -3,6 +3,8 @@ from skimage import measure
 
 import numpy as np
 
+from hazma.parameters import sv_inv_MeV_to_cm3_per_s
+
 
 class TheoryConstrain:
     def custom_constrain(self, param_grid, ls_or_img="image"):
@@ -119,10 +121,11 @@ class TheoryConstrain:
         if self.kind == "ann":  # type: ignore
             e_cm = 2 * self.mx * (1 + 0.5 * measurement.target.vx**2)  # type: ignore
             f_dm = 2.0
-            # Approximate <sigma v> ~ sigma * v
+            # Approximate <sigma v> ~ sigma * v, in cm^3 / s
             sv = (
                 self.annihilation_cross_sections(e_cm)["total"]  # type: ignore
                 * measurement.target.vx
+                * sv_inv_MeV_to_cm3_per_s
             )
             dm_flux_factor = (
                 sv
-- 
2.43.0


From b00868d41cd150d50c90e84c20a8afe137b7d7c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:51 +0000
Subject: [PATCH 24/69] fix: composite constrainers do not share their default
 list

---
 hazma/limits/_abstract.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hazma/limits/_abstract.py b/hazma/limits/_abstract.py
index e34b811..95eaf81 100644
--- a/hazma/limits/_abstract.py
+++ b/hazma/limits/_abstract.py
@@ -45,8 +45,8 @@ class AbstractLimit(abc.ABC):
 
 
 class CompositeConstrainer(abc.ABC):
-    def __init__(self, constrainers=[]):
-        self._constrainers = constrainers
+    def __init__(self, constrainers=None):
+        self._constrainers = [] if constrainers is None else constrainers
 
     def add_constrainer(self, constrainer):
         self._constrainers.append(constrainer)
-- 
2.43.0


From a024c542178637e1aaab0c50f2718357c0641bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:04 +0000
Subject: [PATCH 25/69] fix: sign of the bosonic equilibrium density derivative

---
 hazma/relic_density/_thermal_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hazma/relic_density/_thermal_functions.py b/hazma/relic_density/_thermal_functions.py
index f9d2760..1e53ba1 100644
--- a/hazma/relic_density/_thermal_functions.py
+++ b/hazma/relic_density/_thermal_functions.py
@@ -240,7 +240,7 @@ def neq_deriv(
             if hasattr(Ts, "__len__")
             else np.array([1, 2, 3, 4, 5])
         )
-        dnbar = xs**2 * np.sum(eta**ns * k1(ns * xs), axis=0) / (2.0 * np.pi**2)
+        dnbar = -(xs**2) * np.sum(eta ** (ns + 1) * k1(ns * xs), axis=0) / (2.0 * np.pi**2)
         nbar = (
             xs**2
             * np.sum(eta ** (ns + 1) / ns * kn(2, ns * xs), axis=0)
-- 
2.43.0


From e5d4685323a61ed07e2c41cea4e96c7d3478f66f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:36 +0000
Subject: [PATCH 26/69] fix: thermal average integrates above threshold at low
 temperatures

---
 hazma/relic_density/_thermal_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hazma/relic_density/_thermal_functions.py b/hazma/relic_density/_thermal_functions.py
index 1e53ba1..f289c2e 100644
--- a/hazma/relic_density/_thermal_functions.py
+++ b/hazma/relic_density/_thermal_functions.py
@@ -478,7 +478,7 @@ def thermal_cross_section(x: float, model) -> float:
         * quad(
             thermal_cross_section_integrand,
             2.0,
-            50.0 / x,
+            2.0 + 50.0 / x,
             args=(x, model),
             points=[2.0],
         )[0]
-- 
2.43.0


From 1f9a62343381a62d6ac2bb9bd9d705c83ff207f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:14 +0000
Subject: [PATCH 27/69] fix: total spectra of a scalar energy are scalars

---
 hazma/theory/__init__.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hazma/theory/__init__.py b/hazma/theory/__init__.py
index 3103fd2..c872300 100644
--- a/hazma/theory/__init__.py
+++ b/hazma/theory/__init__.py
@@ -206,7 +206,7 @@ class TheoryAnn(TheoryGammaRayLimits, TheoryCMB, TheoryConstrain):
         if hasattr(e_gams, "__len__"):
             return self.spectra(e_gams, e_cm)["total"]
         else:
-            return self.spectra(np.array([e_gams]), e_cm)["total"]
+            return np.ravel(self.spectra(np.array([e_gams]), e_cm)["total"])[0]
 
     @abstractmethod
     def _gamma_ray_line_energies(self, e_cm) -> Dict[str, float]:
@@ -370,7 +370,7 @@ class TheoryAnn(TheoryGammaRayLimits, TheoryCMB, TheoryConstrain):
         if hasattr(e_ps, "__len__"):
             return self.positron_spectra(e_ps, e_cm)["total"]
         else:
-            return self.positron_spectra(np.array([e_ps]), e_cm)["total"]
+            return np.ravel(self.positron_spectra(np.array([e_ps]), e_cm)["total"])[0]
 
     @abstractmethod
     def _positron_line_energies(self, e_cm) -> Dict[str, float]:
@@ -560,7 +560,7 @@ class TheoryDec(TheoryGammaRayLimits, TheoryCMB, TheoryConstrain):
         if hasattr(e_gams, "__len__"):
             return self.spectra(e_gams)["total"]
         else:
-            return self.spectra(np.array([e_gams]))["total"]
+            return np.ravel(self.spectra(np.array([e_gams]))["total"])[0]
 
     @abstractmethod
     def _gamma_ray_line_energies(self) -> Dict[str, float]:
@@ -627,7 +627,7 @@ class TheoryDec(TheoryGammaRayLimits, TheoryCMB, TheoryConstrain):
         if hasattr(e_ps, "__len__"):
             return self.positron_spectra(e_ps)["total"]
         else:
-            return self.positron_spectra(np.array([e_ps]))["total"]
+            return np.ravel(self.positron_spectra(np.array([e_ps]))["total"])[0]
 
     @abstractmethod
     def _positron_line_energies(self) -> Dict[str, float]:
-- 
2.43.0


From 2c4cdd23447e797c3a95d09aa9670fd7318cc007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:27 +0000
Subject: [PATCH 28/69] fix: convert_sigmav accepts its documented cm^3/s

---
 hazma/parameters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hazma/parameters.py b/hazma/parameters.py
index beba99d..4dadea8 100644
--- a/hazma/parameters.py
+++ b/hazma/parameters.py
@@ -370,7 +370,7 @@ def convert_sigmav(sv, target):
     # hbar^2 c^3 in units of MeV^2 cm^3 / s
     hbar2_c3 = (3.0e10) ** 3 * (6.58e-22) ** 2
 
-    if target == "cm^3 / s":
+    if target in ("cm^3/s", "cm^3 / s"):
         return sv * hbar2_c3
     elif target == "MeV^-2":
         return sv / hbar2_c3
-- 
2.43.0


From 92717eef97eec0a24716ea0b1ed072bb4395ef57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:07 +0000
Subject: [PATCH 29/69] fix: single-channel lines report their energy

---
 hazma/single_channel.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/hazma/single_channel.py b/hazma/single_channel.py
index 0c213f0..8ba4e5b 100644
--- a/hazma/single_channel.py
+++ b/hazma/single_channel.py
@@ -95,11 +95,11 @@ class SingleChannelAnn(TheoryAnn):
             ]
 
             if s1 == "g" and s2 == "g":
-                lines[self.fs] = {"g g": energies[0]}
+                lines[self.fs] = energies[0]
             elif s1 == "g":
-                lines[self.fs] = {"g g": energies[0]}
+                lines[self.fs] = energies[0]
             elif s2 == "g":
-                lines[self.fs] = {"g g": energies[1]}
+                lines[self.fs] = energies[1]
 
         return lines
 
@@ -117,9 +117,9 @@ class SingleChannelAnn(TheoryAnn):
             ]
 
             if s1 == "e":
-                lines[self.fs] = {self.fs: energies[0]}
+                lines[self.fs] = energies[0]
             elif s2 == "e":
-                lines[self.fs] = {self.fs: energies[1]}
+                lines[self.fs] = energies[1]
 
         return lines
 
@@ -209,11 +209,11 @@ class SingleChannelDec(TheoryDec):
             ]
 
             if s1 == "g" and s2 == "g":
-                lines[self.fs] = {"g g": energies[0]}
+                lines[self.fs] = energies[0]
             elif s1 == "g":
-                lines[self.fs] = {"g g": energies[0]}
+                lines[self.fs] = energies[0]
             elif s2 == "g":
-                lines[self.fs] = {"g g": energies[1]}
+                lines[self.fs] = energies[1]
 
         return lines
 
@@ -232,9 +232,9 @@ class SingleChannelDec(TheoryDec):
             ]
 
             if s1 == "e":
-                lines[self.fs] = {self.fs: energies[0]}
+                lines[self.fs] = energies[0]
             elif s2 == "e":
-                lines[self.fs] = {self.fs: energies[1]}
+                lines[self.fs] = energies[1]
 
         return lines
 
-- 
2.43.0


From 843efd3fc067df07ee8c35e6fa2639ec239731d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:07 +0000
Subject: [PATCH 30/69] fix: setting the final state of SingleChannelDec
 updates its particles

---
 hazma/single_channel.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hazma/single_channel.py b/hazma/single_channel.py
index 8ba4e5b..34355aa 100644
--- a/hazma/single_channel.py
+++ b/hazma/single_channel.py
@@ -156,6 +156,8 @@ class SingleChannelDec(TheoryDec):
     @fs.setter
     def fs(self, fs: str) -> None:
         self._fs = fs
+        self._final_states = fs.split(" ")
+        self._fs_masses = list(map(lambda s: sm_masses[s], self._final_states))
 
     @property
     def mx(self) -> float:
-- 
2.43.0


From a491d87153023c00083fed410c422063a0c27d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:00 +0000
Subject: [PATCH 31/69] fix: B -> K form factor has its pole at 38 GeV^2

---
 hazma/scalar_mediator/_scalar_mediator_constraints.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hazma/scalar_mediator/_scalar_mediator_constraints.py b/hazma/scalar_mediator/_scalar_mediator_constraints.py
index 506d2b1..b5cd96d 100644
--- a/hazma/scalar_mediator/_scalar_mediator_constraints.py
+++ b/hazma/scalar_mediator/_scalar_mediator_constraints.py
@@ -36,7 +36,7 @@ from hazma.utils import kallen_lambda
 
 def width_B_k_s(self):
     if self.ms <= mB - mk:
-        f0B = 0.33 / (1.0 - self.ms**2 / (38.0e3) ** 2)
+        f0B = 0.33 / (1.0 - self.ms**2 / 38.0e6)
         # FCNC couplings
         hSsb = (
             3.0
-- 
2.43.0


From 5d91da041918053c498a19b72acfbdfc3d7751ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:00 +0000
Subject: [PATCH 32/69] fix: mediator spectra without photons accept a single
 energy

---
 hazma/scalar_mediator/_scalar_mediator_spectra.py | 4 ++--
 hazma/vector_mediator/_vector_mediator_spectra.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/hazma/scalar_mediator/_scalar_mediator_spectra.py b/hazma/scalar_mediator/_scalar_mediator_spectra.py
index 648dffe..7cff306 100644
--- a/hazma/scalar_mediator/_scalar_mediator_spectra.py
+++ b/hazma/scalar_mediator/_scalar_mediator_spectra.py
@@ -17,7 +17,7 @@ def dnde_ee(self, e_gams, e_cm, spectrum_type="all"):
     elif spectrum_type == "fsr":
         return self.dnde_xx_to_s_to_ffg(e_gams, e_cm, me)
     elif spectrum_type == "decay":
-        return np.array([0.0 for _ in range(len(e_gams))])
+        return np.zeros_like(e_gams, dtype=float)
     else:
         raise ValueError("Type {} is invalid. Use 'all', 'fsr' or \
                             'decay'".format(spectrum_type))
@@ -43,7 +43,7 @@ def dnde_pi0pi0(self, e_gams, e_cm, spectrum_type="all"):
             e_gams, e_cm, "decay"
         )
     if spectrum_type == "fsr":
-        return np.array([0.0 for _ in range(len(e_gams))])
+        return np.zeros_like(e_gams, dtype=float)
     if spectrum_type == "decay":
         return 2.0 * spectra.dnde_photon_neutral_pion(e_gams, e_cm / 2.0)
     else:
diff --git a/hazma/vector_mediator/_vector_mediator_spectra.py b/hazma/vector_mediator/_vector_mediator_spectra.py
index 12bffc2..ca44237 100644
--- a/hazma/vector_mediator/_vector_mediator_spectra.py
+++ b/hazma/vector_mediator/_vector_mediator_spectra.py
@@ -21,7 +21,7 @@ class VectorMediatorSpectra:
         elif spectrum_type == "fsr":
             return fsr(e_gams, e_cm, "e")
         elif spectrum_type == "decay":
-            return np.array([0.0 for _ in range(len(e_gams))])
+            return np.zeros_like(e_gams, dtype=float)
         else:
             raise ValueError(
                 "Type {} is invalid. Use 'all', 'fsr' or 'decay'".format(spectrum_type)
@@ -51,7 +51,7 @@ class VectorMediatorSpectra:
                 e_gams, e_cm, "decay"
             )
         elif spectrum_type == "fsr":
-            return np.array([0.0 for _ in range(len(e_gams))])
+            return np.zeros_like(e_gams, dtype=float)
         elif spectrum_type == "decay":
             # Neutral pion's energy
             e_pi0 = (e_cm**2 + mpi0**2) / (2.0 * e_cm)
-- 
2.43.0


From b96b6f5d7f77edd967c5dd1d2f822c7d20f6fbff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:00 +0000
Subject: [PATCH 33/69] fix: positrons of vector mediator muons used their
 photon spectrum

---
 hazma/vector_mediator/_vector_mediator_positron_spectra.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hazma/vector_mediator/_vector_mediator_positron_spectra.py b/hazma/vector_mediator/_vector_mediator_positron_spectra.py
index f961ec7..3a49d2e 100644
--- a/hazma/vector_mediator/_vector_mediator_positron_spectra.py
+++ b/hazma/vector_mediator/_vector_mediator_positron_spectra.py
@@ -9,7 +9,7 @@ class VectorMediatorPositronSpectra:
         return spectra.dnde_positron_charged_pion(e_ps, e_cm / 2.0)
 
     def dnde_pos_mumu(self, e_ps, e_cm):
-        return spectra.dnde_photon_muon(e_ps, e_cm / 2.0)
+        return spectra.dnde_positron_muon(e_ps, e_cm / 2.0)
 
     # positron decay spectrum for chi chibar -> v v
     def dnde_pos_vv(self, e_ps, e_cm, fs="total"):
-- 
2.43.0


From 321d28418c25fcdebcebcc62cfafda2e6cf3794b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:53 +0000
Subject: [PATCH 34/69] fix: RHNeutrino.flavor setter assigns the right
 generation and neutrino

---
 hazma/rh_neutrino/_model.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hazma/rh_neutrino/_model.py b/hazma/rh_neutrino/_model.py
index 8bc732c..6239098 100644
--- a/hazma/rh_neutrino/_model.py
+++ b/hazma/rh_neutrino/_model.py
@@ -106,10 +106,10 @@ class RHNeutrino(SingleRhNeutrinoModel, TheoryDec):
             self._vstr = "ve"
         elif val == "mu":
             self.__gen = Generation.Snd
-            self._vstr = "vmu"
+            self._vstr = "vm"
         elif val == "tau":
-            self.__gen = Generation.Snd
-            self._vstr = "vmu"
+            self.__gen = Generation.Trd
+            self._vstr = "vt"
         else:
             raise ValueError(f"Invalid lepton {val}. Use 'e', 'mu', or 'tau'")
 
-- 
2.43.0


From 2965c2ee7381029bef6bbc4d821daad9e9a9c76d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:53 +0000
Subject: [PATCH 35/69] fix: RH-neutrino lines are keyed by their decay final
 states

---
 hazma/rh_neutrino/_model.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hazma/rh_neutrino/_model.py b/hazma/rh_neutrino/_model.py
index 6239098..94b1889 100644
--- a/hazma/rh_neutrino/_model.py
+++ b/hazma/rh_neutrino/_model.py
@@ -226,7 +226,7 @@ class RHNeutrino(SingleRhNeutrinoModel, TheoryDec):
         Returns dict of final states and photon energies for final states
         containing monochromatic gamma ray lines.
         """
-        return {"nu g": self.mx / 2.0}
+        return {f"{self._vstr} a": self.mx / 2.0}
 
     def _positron_spectrum_funcs(self) -> Dict[str, Callable]:
         """
@@ -238,9 +238,9 @@ class RHNeutrino(SingleRhNeutrinoModel, TheoryDec):
     def _positron_line_energies(self) -> Dict[str, float]:
         if self.flavor == "e":
             return {
-                "pi l": (self.mx**2 + self.ml**2 - sm_masses["pi"] ** 2)
+                "e pi": (self.mx**2 + self.ml**2 - sm_masses["pi"] ** 2)
                 / (2.0 * self.mx),
-                "k l": (self.mx**2 + self.ml**2 - sm_masses["k"] ** 2)
+                "e k": (self.mx**2 + self.ml**2 - sm_masses["k"] ** 2)
                 / (2.0 * self.mx),
             }
         return {}
@@ -261,7 +261,7 @@ class RHNeutrino(SingleRhNeutrinoModel, TheoryDec):
             lines[f"{vv} pi0"] = (mx**2 - sm_masses["pi0"] ** 2) / (2.0 * mx)
 
         if self.mx > sm_masses["eta"]:
-            lines[f"{vv} pi0"] = (mx**2 - sm_masses["eta"] ** 2) / (2.0 * mx)
+            lines[f"{vv} eta"] = (mx**2 - sm_masses["eta"] ** 2) / (2.0 * mx)
 
         lines[f"{vv} a"] = 0.5 * mx
         return lines
-- 
2.43.0


From 9408ea6c5e2620c65326e0a24a67b61180d0f0b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:54 +0000
Subject: [PATCH 36/69] fix: RH-neutrino eta and rho spectra use the eta and
 the rho

---
 hazma/rh_neutrino/_spectra.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hazma/rh_neutrino/_spectra.py b/hazma/rh_neutrino/_spectra.py
index fcbb8e8..c2e95e9 100644
--- a/hazma/rh_neutrino/_spectra.py
+++ b/hazma/rh_neutrino/_spectra.py
@@ -153,7 +153,7 @@ def dnde_v_eta(model: SingleRhNeutrinoModel, product_energies, product: str):
         Differential energy spectrum evaluated at the input energies.
     """
     nu = _NEUTRINO_STRS[model.gen]
-    return _dnde_two_body(model, product_energies, product, (nu, "pi0"))
+    return _dnde_two_body(model, product_energies, product, (nu, "eta"))
 
 
 def dnde_v_rho(model: SingleRhNeutrinoModel, product_energies, product: str):
@@ -299,7 +299,7 @@ def dnde_l_rho(model: SingleRhNeutrinoModel, product_energies, product: str):
         Differential energy spectrum evaluated at the input energies.
     """
     ell = _LEPTON_STRS[model.gen]
-    return _dnde_two_body(model, product_energies, product, (ell, "k"))
+    return _dnde_two_body(model, product_energies, product, (ell, "rho"))
 
 
 def dnde_v_l_l(
-- 
2.43.0


From 1229de6f9ea894aa7974455f7047d01450ed4e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:54 +0000
Subject: [PATCH 37/69] fix: RH-neutrino widths into pseudoscalar mesons

The decay constants of the package are the ones near 92 MeV, for which the
rates carry 1/8 (charged) and 1/16 (neutral), and the charged rate had the
polynomial of a vector meson.
---
 hazma/rh_neutrino/_widths.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hazma/rh_neutrino/_widths.py b/hazma/rh_neutrino/_widths.py
index df6f5ca..2b2650c 100644
--- a/hazma/rh_neutrino/_widths.py
+++ b/hazma/rh_neutrino/_widths.py
@@ -86,7 +86,7 @@ def _width_v_hp(model: SingleRhNeutrinoModel, mp, fp):
 
     x = mp / mx
     u = 0.5 * np.tan(2 * model.theta)
-    return u**2 * parameters.GF**2 * fp**2 * mx**3 * (1.0 - x**2) ** 2 / (64.0 * np.pi)
+    return u**2 * parameters.GF**2 * fp**2 * mx**3 * (1.0 - x**2) ** 2 / (16.0 * np.pi)
 
 
 def width_v_pi0(model: SingleRhNeutrinoModel):
@@ -117,11 +117,11 @@ def _width_l_hp(model: SingleRhNeutrinoModel, ml, mh, fh, ckm):
     xl = ml / mx
     u = 0.5 * np.tan(2 * model.theta)
 
-    pre = u**2 * parameters.GF**2 * abs(ckm) ** 2 * fh**2 * mx**3 / (32 * np.pi)
+    pre = u**2 * parameters.GF**2 * abs(ckm) ** 2 * fh**2 * mx**3 / (8 * np.pi)
 
     return (
         pre
-        * ((1 - xl**2) ** 2 + xh**2 * (1 + xl**2) - 2 * xh**4)
+        * ((1 - xl**2) ** 2 - xh**2 * (1 + xl**2))
         * np.sqrt(kallen_lambda(1, xh**2, xl**2))
     )
 
-- 
2.43.0


From f484bc0d6dc410ed996144ca677d43c8e86eec42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:54 +0000
Subject: [PATCH 38/69] fix: three-neutrino amplitude is quadratic in the
 mixing

---
 hazma/rh_neutrino/_widths.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hazma/rh_neutrino/_widths.py b/hazma/rh_neutrino/_widths.py
index 2b2650c..fd63886 100644
--- a/hazma/rh_neutrino/_widths.py
+++ b/hazma/rh_neutrino/_widths.py
@@ -743,7 +743,7 @@ def msqrd_v_v_v(s, t, model: SingleRhNeutrinoModel, gen: Generation):
     mx = model.mx
     u = 0.5 * np.tan(2 * model.theta)
     pre = 2.0 if gen == model.gen else 1.0
-    return -pre * 16 * GF**2 * (s**2 + s * t + t**2 - mx**2 * (s + t)) * u
+    return -pre * 16 * GF**2 * (s**2 + s * t + t**2 - mx**2 * (s + t)) * u**2
 
 
 def energy_distributions_v_v_v(
-- 
2.43.0


From 23f7ca913da0688093c6da5fda4a86370730a955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:11 +0000
Subject: [PATCH 39/69] fix: V-A amplitude and order of the leptons in N -> v l
 l'

The squared amplitude of N -> l u d pairs the antifermion d with N, and is
a function of (pu + pl)^2; the masses of N -> v l1 l2 follow the order of the
final state also when l1 has the flavour of N.
---
 hazma/rh_neutrino/_widths.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/hazma/rh_neutrino/_widths.py b/hazma/rh_neutrino/_widths.py
index fd63886..c7a97af 100644
--- a/hazma/rh_neutrino/_widths.py
+++ b/hazma/rh_neutrino/_widths.py
@@ -436,15 +436,15 @@ def width_v_pi_pi(
 def _msqrd_l_u_d(s, t, model: SingleRhNeutrinoModel, mu, md, ml, ckm):
     r"""Squared matrix element for N -> l + u + d, where u = (nu, up-type-quark)
     and d=(lep,down-type-quark). If u = nu and d=lep, they must have a different
-    generation than l and N.
+    generation than l and N. Here, s = (pd + pl)^2 and t = (pu + pl)^2.
     """
     mx = model.mx
     u = 0.5 * np.tan(2 * model.theta)
     return (
         16.0
         * GF**2
-        * (ml**2 + mx**2 - s - t)
-        * (s + t - mu**2 - md**2)
+        * (t - mu**2 - ml**2)
+        * (mx**2 + md**2 - t)
         * u**2
         * abs(ckm) ** 2
     )
@@ -604,10 +604,12 @@ def _make_msqrd_and_masses_v_l_l(
 
     elif (genn == genl1) and (genv == genl2):
         mu, md, ml = 0.0, ml2, ml1
-        masses = (mu, md, ml)
+        masses = (mu, ml, md)
 
         def msqrd(s, t):
-            return _msqrd_l_u_d(s, t, model, mu, md, ml, 1.0)
+            # The masses are ordered like the final state, (v, l1, l2)
+            t_ul = model.mx**2 + mu**2 + md**2 + ml**2 - s - t
+            return _msqrd_l_u_d(s, t_ul, model, mu, md, ml, 1.0)
 
     elif (genn == genl2) and (genv == genl1):
         mu, md, ml = 0.0, ml1, ml2
-- 
2.43.0


From cf71bf8badec9ac92708735c22e1657b3b4ffec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:37 +0000
Subject: [PATCH 40/69] fix: alpha_em runs above 1e-6 GeV^2 with the right
 vacuum polarisation

---
 hazma/form_factors/vector/_alpha.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/hazma/form_factors/vector/_alpha.py b/hazma/form_factors/vector/_alpha.py
index 34c4b6c..8ac2ae5 100644
--- a/hazma/form_factors/vector/_alpha.py
+++ b/hazma/form_factors/vector/_alpha.py
@@ -26,7 +26,7 @@ def real_pi(r):
 
     m1 = r < 1e-3
     m2 = r > rmax
-    m3 = 4.0 * r > 1.0
+    m3 = (4.0 * r > 1.0) & ~m2
     m4 = ~(m1 | m2 | m3)
 
     results = np.zeros_like(r)
@@ -34,10 +34,11 @@ def real_pi(r):
     # use asymptotic formula
     if np.any(m1):
         results[m1] = -fvthr - np.log(r[m1])
-    if np.any(m2):
-        beta = np.sqrt(4.0 * r[m2] - 1.0)
-        results[m2] = 1.0 / 3.0 - (1.0 + 2.0 * r[m2]) * (
-            2.0 - beta * np.arccos(1.0 - 1.0 / (2.0 * r[m2]))
+    # heavy fermions (m2) decouple
+    if np.any(m3):
+        beta = np.sqrt(4.0 * r[m3] - 1.0)
+        results[m3] = 1.0 / 3.0 - (1.0 + 2.0 * r[m3]) * (
+            2.0 - beta * np.arccos(1.0 - 1.0 / (2.0 * r[m3]))
         )
     if np.any(m4):
         beta = np.sqrt(1.0 - 4.0 * r[m4])
@@ -58,7 +59,7 @@ def alpha_em(s):
     ss = np.atleast_1d(s).astype(np.float64)
 
     # return q^2=0 value for small scales
-    mask = s < eps
+    mask = ss >= eps
     repigg = np.zeros_like(ss)
     sm = ss[mask]
 
@@ -70,7 +71,7 @@ def alpha_em(s):
     # Hadronic component from light quarks
     repigg[mask] += np.piecewise(
         sm,
-        [sm < 9e-2, sm < 9.0, sm < 1.0e4],
+        [sm < 9e-2, (9e-2 <= sm) & (sm < 9.0), (9.0 <= sm) & (sm < 1.0e4)],
         [
             hadronic(CS0),
             hadronic(CS1),
-- 
2.43.0


From c686c6e24e324bf9170662a98f6801dda4ed5b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:45 +0000
Subject: [PATCH 41/69] fix: form factors of a single energy are in 1/MeV like
 those of an array

---
 hazma/form_factors/vector/_eta_omega.py | 2 +-
 hazma/form_factors/vector/_eta_phi.py   | 2 +-
 hazma/form_factors/vector/_pi_gamma.py  | 2 +-
 hazma/form_factors/vector/_pi_omega.py  | 2 +-
 hazma/form_factors/vector/_pi_phi.py    | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/hazma/form_factors/vector/_eta_omega.py b/hazma/form_factors/vector/_eta_omega.py
index 1c8ab70..ca0cdd5 100644
--- a/hazma/form_factors/vector/_eta_omega.py
+++ b/hazma/form_factors/vector/_eta_omega.py
@@ -146,7 +146,7 @@ class VectorFormFactorEtaOmega(VectorFormFactorPV):
         ff[mask] = self.__form_factor(s=qq[mask] ** 2, couplings=couplings)
 
         if single:
-            return ff[0]
+            return ff[0] * 1e-3
 
         return ff * 1e-3
 
diff --git a/hazma/form_factors/vector/_eta_phi.py b/hazma/form_factors/vector/_eta_phi.py
index cf43499..2f7668e 100644
--- a/hazma/form_factors/vector/_eta_phi.py
+++ b/hazma/form_factors/vector/_eta_phi.py
@@ -141,7 +141,7 @@ class VectorFormFactorEtaPhi(VectorFormFactorPV):
         ff[mask] = self.__form_factor(s=qq[mask] ** 2, gvss=couplings[2])
 
         if single:
-            return ff[0]
+            return ff[0] * 1e-3
 
         return ff * 1e-3
 
diff --git a/hazma/form_factors/vector/_pi_gamma.py b/hazma/form_factors/vector/_pi_gamma.py
index b017d40..eaf6cac 100644
--- a/hazma/form_factors/vector/_pi_gamma.py
+++ b/hazma/form_factors/vector/_pi_gamma.py
@@ -192,7 +192,7 @@ class VectorFormFactorPi0Gamma(VectorFormFactorPA):
         ff[mask] = self.__form_factor(q=qq[mask], couplings=couplings)
 
         if single:
-            return ff[0]
+            return ff[0] * 1e-3
 
         return ff * 1e-3
 
diff --git a/hazma/form_factors/vector/_pi_omega.py b/hazma/form_factors/vector/_pi_omega.py
index d12f218..de68ad1 100644
--- a/hazma/form_factors/vector/_pi_omega.py
+++ b/hazma/form_factors/vector/_pi_omega.py
@@ -189,7 +189,7 @@ class VectorFormFactorPi0Omega(VectorFormFactorPV):
         )
 
         if single:
-            return ff[0]
+            return ff[0] * 1e-3
 
         return ff * 1e-3
 
diff --git a/hazma/form_factors/vector/_pi_phi.py b/hazma/form_factors/vector/_pi_phi.py
index e87dff9..be90272 100644
--- a/hazma/form_factors/vector/_pi_phi.py
+++ b/hazma/form_factors/vector/_pi_phi.py
@@ -188,7 +188,7 @@ class VectorFormFactorPi0Phi(VectorFormFactorPV):
         )
 
         if single:
-            return ff[0]
+            return ff[0] * 1e-3
 
         return ff * 1e-3
 
-- 
2.43.0


From ca59edabec86ac0cd4b6b59cf2cb8ed45e2c89b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:57 +0000
Subject: [PATCH 42/69] fix: the phi correction of the K0 form factor scales
 the phi, at every energy

---
 hazma/form_factors/vector/_k_k.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hazma/form_factors/vector/_k_k.py b/hazma/form_factors/vector/_k_k.py
index 8dc2da6..5dd4234 100644
--- a/hazma/form_factors/vector/_k_k.py
+++ b/hazma/form_factors/vector/_k_k.py
@@ -441,7 +441,7 @@ class _VectorFormFactorKKBase(VectorFormFactorPP):
 
         phi_terms = 1.0 / 3.0 * cs * self.fit_data.phi_coup * bwp
         if self._imode == 0:
-            phi_terms[0] *= eta_phi
+            phi_terms[:, 0] *= eta_phi
         fk += phi_terms
 
         return np.sum(fk, axis=1)
-- 
2.43.0


From be59bbf6882582a60722ee833d783081a90e5ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:18 +0000
Subject: [PATCH 43/69] fix: third rho coupling of the four-pion currents

---
 hazma/form_factors/vector/_pi_pi_pi_pi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hazma/form_factors/vector/_pi_pi_pi_pi.py b/hazma/form_factors/vector/_pi_pi_pi_pi.py
index cede309..0a9fe26 100644
--- a/hazma/form_factors/vector/_pi_pi_pi_pi.py
+++ b/hazma/form_factors/vector/_pi_pi_pi_pi.py
@@ -183,7 +183,7 @@ class _VectorFormFactorPiPiPiPiBase(VectorFormFactorPPPP):
             beta_omega_3=beta_omegas[2],
             beta_b_rho=beta_b_rhos[0],
             beta_t_rho1=beta_b_rhos[1],
-            beta_t_rho2=beta_b_rhos[1],
+            beta_t_rho2=beta_b_rhos[2],
             coupling_f0=coupling_f0,
             coupling_a1=coupling_a1,
             coupling_rho=coupling_rho,
-- 
2.43.0


From e6824e368e19e6b538de41fc9d6f90e4ed6d7693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:37 +0000
Subject: [PATCH 44/69] fix: the pi pi pi0 pi0 current gets the neutral pions
 where it expects them

---
 hazma/form_factors/vector/_pi_pi_pi_pi.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/hazma/form_factors/vector/_pi_pi_pi_pi.py b/hazma/form_factors/vector/_pi_pi_pi_pi.py
index 0a9fe26..99f4c84 100644
--- a/hazma/form_factors/vector/_pi_pi_pi_pi.py
+++ b/hazma/form_factors/vector/_pi_pi_pi_pi.py
@@ -588,10 +588,11 @@ class _VectorFormFactorPiPiPiPiBase(VectorFormFactorPPPP):
         Q2: ndarray
             Squared center-of-mass energy.
         q1, q2, q3, q4: ndarray
-            Momenta of the charged pions.
+            Momenta of the final-state pions, ordered as `fsp_masses`.
         """
         if self._imode == 0:
-            return self._current_neutral(Q, Q2, q1, q2, q3, q4)
+            # the final state is (pi, pi, pi0, pi0), the current takes pi0's first
+            return self._current_neutral(Q, Q2, q3, q4, q1, q2)
         return self._current_charged(Q, Q2, q1, q2, q3, q4)
 
     def form_factor(self, momenta: RealArray):
@@ -644,10 +645,7 @@ class _VectorFormFactorPiPiPiPiBase(VectorFormFactorPPPP):
         q3 = momenta[:, 2, :]
         q4 = momenta[:, 3, :]
 
-        if self._imode == 0:
-            current = self._current_neutral(Q, Q2, q1, q2, q3, q4)
-        else:
-            current = self._current_charged(Q, Q2, q1, q2, q3, q4)
+        current = self._form_factor(Q, Q2, q1, q2, q3, q4)
 
         j = -np.real(ldot(current, np.conj(current)))
         weights = j / (3.0 * Q2)
-- 
2.43.0


From bfe6d0d0cecf3b861e4e18ba3db6fb617b3c75e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:37 +0000
Subject: [PATCH 45/69] fix: four-pion form_factor no longer overwrites the
 second pion's momentum

---
 hazma/form_factors/vector/_pi_pi_pi_pi.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hazma/form_factors/vector/_pi_pi_pi_pi.py b/hazma/form_factors/vector/_pi_pi_pi_pi.py
index 99f4c84..c860b24 100644
--- a/hazma/form_factors/vector/_pi_pi_pi_pi.py
+++ b/hazma/form_factors/vector/_pi_pi_pi_pi.py
@@ -611,10 +611,10 @@ class _VectorFormFactorPiPiPiPiBase(VectorFormFactorPPPP):
         q3 = ps[:, 2]
         q4 = ps[:, 3]
 
-        q = np.sum(ps, axis=1)
-        q2 = np.mean(np.sum(ps[0], axis=0))
+        Q = np.sum(ps, axis=1)
+        Q2 = lnorm_sqr(Q)
 
-        ff = self._form_factor(q, q2, q1, q2, q3, q4)
+        ff = self._form_factor(Q, Q2, q1, q2, q3, q4)
 
         return ff
 
-- 
2.43.0


From 8c195f938628e749c13117848ad5f7c548208c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:03 +0000
Subject: [PATCH 46/69] fix: Lorentz structure of a vector and two
 pseudoscalars has the vector first

---
 hazma/form_factors/vector/_three_body.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/hazma/form_factors/vector/_three_body.py b/hazma/form_factors/vector/_three_body.py
index 29ac1cb..9eb80dc 100644
--- a/hazma/form_factors/vector/_three_body.py
+++ b/hazma/form_factors/vector/_three_body.py
@@ -710,16 +710,17 @@ class VectorFormFactorPPV(VectorFormFactorThreeBody):
     def form_factor(self, q, **kwargs):  # pylint: disable=arguments-differ
         raise NotImplementedError()
 
-    def __squared_lorentz_structure(self, q, s, t):
-        m1, m2, mv = self.fsp_masses
+    def __squared_lorentz_structure(self, q, s):
+        # the vector is the first particle: s = (q - pv)^2
+        mv, _, _ = self.fsp_masses
 
-        return (2 * mv**2 * q**2 + (-(m1**2) - m2**2 + s + t) ** 2 / 4.0) / (
+        return (2 * mv**2 * q**2 + (q**2 + mv**2 - s) ** 2 / 4.0) / (
             3.0 * mv**2 * q**4
         )
 
     def squared_lorentz_structure(self, q, s, t):
-        r"""Compute the Lorentz structure of a three pseudo-scalar meson
-        final-state.
+        r"""Compute the Lorentz structure of a final-state with a vector and
+        two pseudo-scalar mesons.
 
         Parameters
         ----------
@@ -743,9 +744,9 @@ class VectorFormFactorPPV(VectorFormFactorThreeBody):
         The current is defined as:
             J[mu] = (g[mu,nu] - q[mu] q[nu] / q.q) polvec[nu,pv,mv] FF[p1,p2,p3]
         where:
-            `p1`: momentum of 1st scalar,
-            `p2`: momentum of 2nd scalar,
-            `pv`: momentum of vector,
+            `pv`: momentum of vector (1st particle),
+            `p1`: momentum of 1st scalar (2nd particle),
+            `p2`: momentum of 2nd scalar (3rd particle),
             `polvec`: polarization vector of vector,
             `FF`: form-factor.
         The returned values is the square of this expression excluding the
@@ -756,14 +757,15 @@ class VectorFormFactorPPV(VectorFormFactorThreeBody):
         scalar_t = np.isscalar(t)
 
         if scalar_q and scalar_s and scalar_t:
-            return self.__squared_lorentz_structure(q, s, t)
+            return self.__squared_lorentz_structure(q, s)
 
         # q is in first dimension, s/t are in second.
         qq = np.expand_dims(np.atleast_1d(q).astype(np.float64), -1)
         ss = np.expand_dims(np.atleast_1d(s).astype(np.float64), 0)
         tt = np.expand_dims(np.atleast_1d(t).astype(np.float64), 0)
 
-        res = self.__squared_lorentz_structure(qq, ss, tt)
+        ss, _ = np.broadcast_arrays(ss, tt)
+        res = self.__squared_lorentz_structure(qq, ss)
 
         if scalar_q:
             return res[0]
-- 
2.43.0


From 38ac31a15b9f5f475601fa22f0a4d5c8db3a62a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:03 +0000
Subject: [PATCH 47/69] fix: invariant-mass distributions of a vector and two
 pseudoscalars are in increasing mass and normalised

---
 hazma/form_factors/vector/_three_body.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/hazma/form_factors/vector/_three_body.py b/hazma/form_factors/vector/_three_body.py
index 9eb80dc..b28cbf9 100644
--- a/hazma/form_factors/vector/_three_body.py
+++ b/hazma/form_factors/vector/_three_body.py
@@ -980,13 +980,18 @@ class VectorFormFactorPPV(VectorFormFactorThreeBody):
             return q * np.sqrt(1 - 2 * e / q + (m / q) ** 2)
 
         keys = [(1, 2), (0, 2), (0, 1)]
+        # the invariant mass decreases with the energy: reverse the bins
         sqrts = [
-            etosqrts(edists[i].bins, self.fsp_masses[i]) for i in range(len(edists))
+            etosqrts(edists[i].bins[::-1], self.fsp_masses[i])
+            for i in range(len(edists))
         ]
         invdists = {
             keys[i]: PhaseSpaceDistribution1D(
                 sqrts[i],
-                0.25 * (sqrts[i][1:] + sqrts[i][:-1]) / q * edists[i].probabilities,
+                0.5
+                * (sqrts[i][1:] + sqrts[i][:-1])
+                / q
+                * edists[i].probabilities[::-1],
             )
             for i in range(len(edists))
         }
-- 
2.43.0


From d60b704b9b8d8bbd9d2bd42fd89c02ec276494f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:46 +0000
Subject: [PATCH 48/69] fix: KineticMixingGeV.eps can be set

---
 hazma/vector_mediator/_gev/model.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/hazma/vector_mediator/_gev/model.py b/hazma/vector_mediator/_gev/model.py
index 93c5c26..df6555b 100644
--- a/hazma/vector_mediator/_gev/model.py
+++ b/hazma/vector_mediator/_gev/model.py
@@ -1141,11 +1141,13 @@ class KineticMixingGeV(VectorMediatorGeV):
     @eps.setter
     def eps(self, eps: float):
         self._eps = eps
-        self.gvuu = -Qu * eps * qe
-        self.gvdd = -Qd * eps * qe
-        self.gvss = -Qd * eps * qe
-        self.gvee = -Qe * eps * qe
-        self.gvmumu = -Qe * eps * qe
+        self._gvuu = -Qu * eps * qe
+        self._gvdd = -Qd * eps * qe
+        self._gvss = -Qd * eps * qe
+        self._gvee = -Qe * eps * qe
+        self._gvmumu = -Qe * eps * qe
+        self._couplings = VectorFormFactorCouplings(self._gvuu, self._gvdd, self._gvss)
+        self._invalidate_width_cache()
 
     def __cannot_set_error(self, param: str) -> AttributeError:
         return AttributeError(f"""
-- 
2.43.0


From b377c18a47b03b9b36efe80ac5e7d3b189109c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:46 +0000
Subject: [PATCH 49/69] fix: setting BLGeV.g updates the quark couplings and
 the widths

---
 hazma/vector_mediator/_gev/model.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hazma/vector_mediator/_gev/model.py b/hazma/vector_mediator/_gev/model.py
index df6555b..380f90c 100644
--- a/hazma/vector_mediator/_gev/model.py
+++ b/hazma/vector_mediator/_gev/model.py
@@ -1253,6 +1253,8 @@ class BLGeV(VectorMediatorGeV):
         self._gvveve = self._g * gl
         self._gvvmvm = self._g * gl
         self._gvvtvt = self._g * gl
+        self._couplings = VectorFormFactorCouplings(self._gvuu, self._gvdd, self._gvss)
+        self._invalidate_width_cache()
 
     @property
     def g(self) -> float:
-- 
2.43.0


From 9011eee4cc1ff34f2df5cdaa93902f510a6ae769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:46 +0000
Subject: [PATCH 50/69] fix: width_v_to_pi0_pi0 has an entry in the cache

---
 hazma/vector_mediator/_gev/model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hazma/vector_mediator/_gev/model.py b/hazma/vector_mediator/_gev/model.py
index 380f90c..d843dd3 100644
--- a/hazma/vector_mediator/_gev/model.py
+++ b/hazma/vector_mediator/_gev/model.py
@@ -185,7 +185,8 @@ class VectorMediatorGeV(TheoryAnn):
         self._width_cache = {
             name: {"value": 0.0, "valid": False, "kwargs": {}} for name in final_states
         }
-        self._width_cache["x x"] = {"value": 0.0, "valid": False, "kwargs": {}}
+        for name in ("x x", "pi0 pi0"):
+            self._width_cache[name] = {"value": 0.0, "valid": False, "kwargs": {}}
 
     # ========================================================================
     # ---- Cache Control -----------------------------------------------------
-- 
2.43.0


From a75f4a2cfd0a5adbfc216a8106614f1fc01c2511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:55 +0000
Subject: [PATCH 51/69] fix: setting a mass or lepton coupling of the GeV
 vector model updates its width

---
 hazma/vector_mediator/_gev/model.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/hazma/vector_mediator/_gev/model.py b/hazma/vector_mediator/_gev/model.py
index d843dd3..a36b814 100644
--- a/hazma/vector_mediator/_gev/model.py
+++ b/hazma/vector_mediator/_gev/model.py
@@ -227,7 +227,7 @@ class VectorMediatorGeV(TheoryAnn):
     @mx.setter
     def mx(self, val: float) -> None:
         self._mx = val
-        self._width_cache["x x"]["value"] = self.width_v_to_x_x()
+        self._width_cache["x x"]["valid"] = False
 
     @mv.setter
     def mv(self, val: float) -> None:
@@ -286,7 +286,7 @@ class VectorMediatorGeV(TheoryAnn):
     @gvxx.setter
     def gvxx(self, val: float) -> None:
         self._gvxx = val
-        self._update_width_cache("x x", self.width_v_to_x_x())
+        self._width_cache["x x"]["valid"] = False
 
     @gvuu.setter
     def gvuu(self, val: float) -> None:
@@ -309,27 +309,27 @@ class VectorMediatorGeV(TheoryAnn):
     @gvee.setter
     def gvee(self, val: float) -> None:
         self._gvee = val
-        self._update_width_cache("e e", self.width_v_to_e_e())
+        self._width_cache["e e"]["valid"] = False
 
     @gvmumu.setter
     def gvmumu(self, val: float) -> None:
         self._gvmumu = val
-        self._update_width_cache("mu mu", self.width_v_to_mu_mu())
+        self._width_cache["mu mu"]["valid"] = False
 
     @gvveve.setter
     def gvveve(self, val: float) -> None:
         self._gvveve = val
-        self._update_width_cache("ve ve", self.width_v_to_ve_ve())
+        self._width_cache["ve ve"]["valid"] = False
 
     @gvvmvm.setter
     def gvvmvm(self, val: float) -> None:
         self._gvvmvm = val
-        self._update_width_cache("vm vm", self.width_v_to_vm_vm())
+        self._width_cache["vm vm"]["valid"] = False
 
     @gvvtvt.setter
     def gvvtvt(self, val: float) -> None:
         self._gvvtvt = val
-        self._update_width_cache("vt vt", self.width_v_to_vt_vt())
+        self._width_cache["vt vt"]["valid"] = False
 
     # ========================================================================
     # ---- Form Factors ------------------------------------------------------
-- 
2.43.0


From 96d4605701c5b244fb7802fac32cb10f1bb2a76d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:41 +0000
Subject: [PATCH 52/69] fix: three-body spectra of the GeV vector model pair
 each particle with its own energies

---
 hazma/vector_mediator/_gev/neutrino.py | 14 +++++++-------
 hazma/vector_mediator/_gev/positron.py | 14 +++++++-------
 hazma/vector_mediator/_gev/spectra.py  | 16 ++++++++--------
 3 files changed, 22 insertions(+), 22 deletions(-)

diff --git a/hazma/vector_mediator/_gev/neutrino.py b/hazma/vector_mediator/_gev/neutrino.py
index 6c3c96e..28a483a 100644
--- a/hazma/vector_mediator/_gev/neutrino.py
+++ b/hazma/vector_mediator/_gev/neutrino.py
@@ -509,9 +509,9 @@ def dnde_neutrino_pi_pi_pi0(
     ff: VectorFormFactorPiPiPi0 = self._ff_pi_pi_pi0
 
     dnde_decays = [
+        _dnde_neutrino_zero,
         spectra.dnde_neutrino_charged_pion,
         spectra.dnde_neutrino_charged_pion,
-        _dnde_neutrino_zero,
     ]
     dists = ff.energy_distributions(
         q=cme,
@@ -556,9 +556,9 @@ def dnde_neutrino_pi_pi_eta(
     ff: VectorFormFactorPiPiEta = self._ff_pi_pi_eta
 
     dnde_decays = [
+        spectra.dnde_neutrino_eta,
         spectra.dnde_neutrino_charged_pion,
         spectra.dnde_neutrino_charged_pion,
-        spectra.dnde_neutrino_eta,
     ]
     dists = ff.energy_distributions(
         q=cme,
@@ -601,9 +601,9 @@ def dnde_neutrino_pi_pi_etap(
     ff: VectorFormFactorPiPiEtaPrime = self._ff_pi_pi_etap
 
     dnde_decays = [
+        spectra.dnde_neutrino_eta_prime,
         spectra.dnde_neutrino_charged_pion,
         spectra.dnde_neutrino_charged_pion,
-        spectra.dnde_neutrino_eta_prime,
     ]
     dists = ff.energy_distributions(
         q=cme,
@@ -646,9 +646,9 @@ def dnde_neutrino_pi_pi_omega(
     ff: VectorFormFactorPiPiOmega = self._ff_pi_pi_omega
 
     dnde_decays = [
+        spectra.dnde_neutrino_omega,
         spectra.dnde_neutrino_charged_pion,
         spectra.dnde_neutrino_charged_pion,
-        spectra.dnde_neutrino_omega,
     ]
     dists = ff.energy_distributions(
         q=cme,
@@ -691,9 +691,9 @@ def dnde_neutrino_pi0_pi0_omega(
     ff: VectorFormFactorPi0Pi0Omega = self._ff_pi0_pi0_omega
 
     dnde_decays = [
+        spectra.dnde_neutrino_omega,
         _dnde_neutrino_zero,
         _dnde_neutrino_zero,
-        spectra.dnde_neutrino_omega,
     ]
     dists = ff.energy_distributions(
         q=cme,
@@ -737,9 +737,9 @@ def dnde_neutrino_pi0_k0_k0(
     ff: VectorFormFactorPi0K0K0 = self._ff_pi0_k0_k0
 
     dnde_decays = [
-        _dnde_neutrino_zero,
         spectra.dnde_neutrino_long_kaon,
         spectra.dnde_neutrino_short_kaon,
+        _dnde_neutrino_zero,
     ]
     dists = ff.energy_distributions(
         q=cme,
@@ -784,9 +784,9 @@ def dnde_neutrino_pi0_k_k(
     ff: VectorFormFactorPi0KpKm = self._ff_pi0_k_k
 
     dnde_decays = [
-        _dnde_neutrino_zero,
         spectra.dnde_neutrino_charged_kaon,
         spectra.dnde_neutrino_charged_kaon,
+        _dnde_neutrino_zero,
     ]
     dists = ff.energy_distributions(
         q=cme,
diff --git a/hazma/vector_mediator/_gev/positron.py b/hazma/vector_mediator/_gev/positron.py
index 913b41a..7b97dfb 100644
--- a/hazma/vector_mediator/_gev/positron.py
+++ b/hazma/vector_mediator/_gev/positron.py
@@ -438,9 +438,9 @@ def dnde_positron_pi_pi_pi0(
     ff: VectorFormFactorPiPiPi0 = self._ff_pi_pi_pi0
 
     dnde_decays = [
+        _dnde_positron_zero,
         spectra.dnde_positron_charged_pion,
         spectra.dnde_positron_charged_pion,
-        _dnde_positron_zero,
     ]
     dists = ff.energy_distributions(
         q=cme,
@@ -480,9 +480,9 @@ def dnde_positron_pi_pi_eta(
     ff: VectorFormFactorPiPiEta = self._ff_pi_pi_eta
 
     dnde_decays = [
+        spectra.dnde_positron_eta,
         spectra.dnde_positron_charged_pion,
         spectra.dnde_positron_charged_pion,
-        spectra.dnde_positron_eta,
     ]
     dists = ff.energy_distributions(
         q=cme,
@@ -522,9 +522,9 @@ def dnde_positron_pi_pi_etap(
     ff: VectorFormFactorPiPiEtaPrime = self._ff_pi_pi_etap
 
     dnde_decays = [
+        spectra.dnde_positron_eta_prime,
         spectra.dnde_positron_charged_pion,
         spectra.dnde_positron_charged_pion,
-        spectra.dnde_positron_eta_prime,
     ]
     dists = ff.energy_distributions(
         q=cme,
@@ -564,9 +564,9 @@ def dnde_positron_pi_pi_omega(
     ff: VectorFormFactorPiPiOmega = self._ff_pi_pi_omega
 
     dnde_decays = [
+        spectra.dnde_positron_omega,
         spectra.dnde_positron_charged_pion,
         spectra.dnde_positron_charged_pion,
-        spectra.dnde_positron_omega,
     ]
     dists = ff.energy_distributions(
         q=cme,
@@ -606,9 +606,9 @@ def dnde_positron_pi0_pi0_omega(
     ff: VectorFormFactorPi0Pi0Omega = self._ff_pi0_pi0_omega
 
     dnde_decays = [
+        spectra.dnde_positron_omega,
         _dnde_positron_zero,
         _dnde_positron_zero,
-        spectra.dnde_positron_omega,
     ]
     dists = ff.energy_distributions(
         q=cme,
@@ -649,9 +649,9 @@ def dnde_positron_pi0_k0_k0(
     ff: VectorFormFactorPi0K0K0 = self._ff_pi0_k0_k0
 
     dnde_decays = [
-        _dnde_positron_zero,
         spectra.dnde_positron_long_kaon,
         spectra.dnde_positron_short_kaon,
+        _dnde_positron_zero,
     ]
     dists = ff.energy_distributions(
         q=cme,
@@ -693,9 +693,9 @@ def dnde_positron_pi0_k_k(
     ff: VectorFormFactorPi0KpKm = self._ff_pi0_k_k
 
     dnde_decays = [
-        _dnde_positron_zero,
         spectra.dnde_positron_charged_kaon,
         spectra.dnde_positron_charged_kaon,
+        _dnde_positron_zero,
     ]
     dists = ff.energy_distributions(
         q=cme,
diff --git a/hazma/vector_mediator/_gev/spectra.py b/hazma/vector_mediator/_gev/spectra.py
index 15d1157..b14880e 100644
--- a/hazma/vector_mediator/_gev/spectra.py
+++ b/hazma/vector_mediator/_gev/spectra.py
@@ -443,9 +443,9 @@ def dnde_photon_pi_pi_pi0(
     couplings = self._couplings
 
     dnde_decays = [
+        spectra.dnde_photon_neutral_pion,
         spectra.dnde_photon_charged_pion,
         spectra.dnde_photon_charged_pion,
-        spectra.dnde_photon_neutral_pion,
     ]
     dists = ff.energy_distributions(q=cme, couplings=couplings, nbins=nbins, npts=npts)
     dnde = _make_spectrum_n_body_decay(photon_energies, dists, dnde_decays)
@@ -454,7 +454,7 @@ def dnde_photon_pi_pi_pi0(
         q=cme, couplings=couplings, nbins=nbins
     )
 
-    dist = inv_mass_dist[(0, 1)]
+    dist = inv_mass_dist[(1, 2)]
     ps = dist.probabilities
     ms = dist.bin_centers
 
@@ -489,9 +489,9 @@ def dnde_photon_pi_pi_eta(
     ff: VectorFormFactorPiPiEta = self._ff_pi_pi_eta
 
     dnde_decays = [
+        spectra.dnde_photon_eta,
         spectra.dnde_photon_charged_pion,
         spectra.dnde_photon_charged_pion,
-        spectra.dnde_photon_eta,
     ]
     dists = ff.energy_distributions(q=cme, couplings=self._couplings, nbins=nbins)
     dec = _make_spectrum_n_body_decay(photon_energies, dists, dnde_decays)
@@ -522,9 +522,9 @@ def dnde_photon_pi_pi_etap(
     ff: VectorFormFactorPiPiEtaPrime = self._ff_pi_pi_etap
 
     dnde_decays = [
+        spectra.dnde_photon_eta_prime,
         spectra.dnde_photon_charged_pion,
         spectra.dnde_photon_charged_pion,
-        spectra.dnde_photon_eta_prime,
     ]
     dists = ff.energy_distributions(q=cme, couplings=self._couplings, nbins=nbins)
     dec = _make_spectrum_n_body_decay(photon_energies, dists, dnde_decays)
@@ -555,9 +555,9 @@ def dnde_photon_pi_pi_omega(
     ff: VectorFormFactorPiPiOmega = self._ff_pi_pi_omega
 
     dnde_decays = [
+        spectra.dnde_photon_omega,
         spectra.dnde_photon_charged_pion,
         spectra.dnde_photon_charged_pion,
-        spectra.dnde_photon_omega,
     ]
     dists = ff.energy_distributions(
         q=cme,
@@ -579,9 +579,9 @@ def dnde_photon_pi0_pi0_omega(
     ff: VectorFormFactorPi0Pi0Omega = self._ff_pi0_pi0_omega
 
     dnde_decays = [
+        spectra.dnde_photon_omega,
         spectra.dnde_photon_neutral_pion,
         spectra.dnde_photon_neutral_pion,
-        spectra.dnde_photon_omega,
     ]
     dists = ff.energy_distributions(
         q=cme,
@@ -603,9 +603,9 @@ def dnde_photon_pi0_k0_k0(
     ff: VectorFormFactorPi0K0K0 = self._ff_pi0_k0_k0
 
     dnde_decays = [
-        spectra.dnde_photon_neutral_pion,
         spectra.dnde_photon_long_kaon,
         spectra.dnde_photon_short_kaon,
+        spectra.dnde_photon_neutral_pion,
     ]
     dists = ff.energy_distributions(
         q=cme, couplings=self._couplings, npts=npts, nbins=nbins
@@ -625,9 +625,9 @@ def dnde_photon_pi0_k_k(
     ff: VectorFormFactorPi0KpKm = self._ff_pi0_k_k
 
     dnde_decays = [
-        spectra.dnde_photon_neutral_pion,
         spectra.dnde_photon_charged_kaon,
         spectra.dnde_photon_charged_kaon,
+        spectra.dnde_photon_neutral_pion,
     ]
     dists = ff.energy_distributions(
         q=cme, couplings=self._couplings, npts=npts, nbins=nbins
-- 
2.43.0


From f2b100892a90eb829e1831463eea51713f43f561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:41 +0000
Subject: [PATCH 53/69] fix: pi K K0 spectra of the GeV vector model are those
 of a charged pion, a charged and a neutral kaon

---
 hazma/vector_mediator/_gev/neutrino.py | 12 ++++++++++--
 hazma/vector_mediator/_gev/positron.py | 12 ++++++++++--
 hazma/vector_mediator/_gev/spectra.py  | 12 ++++++++++--
 3 files changed, 30 insertions(+), 6 deletions(-)

diff --git a/hazma/vector_mediator/_gev/neutrino.py b/hazma/vector_mediator/_gev/neutrino.py
index 28a483a..d2fe72f 100644
--- a/hazma/vector_mediator/_gev/neutrino.py
+++ b/hazma/vector_mediator/_gev/neutrino.py
@@ -103,6 +103,14 @@ def _dnde_neutrino_zero(neutrino_energies, *_):
     return _make_zeros(neutrino_energies)
 
 
+def _dnde_neutrino_neutral_kaon(neutrino_energies, energy, flavor: NeutrinoFlavor):
+    """Spectrum of a neutral kaon: half long, half short."""
+    return 0.5 * (
+        spectra.dnde_neutrino_long_kaon(neutrino_energies, energy, flavor)
+        + spectra.dnde_neutrino_short_kaon(neutrino_energies, energy, flavor)
+    )
+
+
 # =============================================================================
 # ---- 2-body Lepton ----------------------------------------------------------
 # =============================================================================
@@ -831,9 +839,9 @@ def dnde_neutrino_pi_k_k0(
     ff: VectorFormFactorPiKK0 = self._ff_pi_k_k0
 
     dnde_decays = [
-        _dnde_neutrino_zero,
-        spectra.dnde_neutrino_charged_kaon,
+        _dnde_neutrino_neutral_kaon,
         spectra.dnde_neutrino_charged_kaon,
+        spectra.dnde_neutrino_charged_pion,
     ]
     dists = ff.energy_distributions(
         q=cme,
diff --git a/hazma/vector_mediator/_gev/positron.py b/hazma/vector_mediator/_gev/positron.py
index 7b97dfb..fb6509b 100644
--- a/hazma/vector_mediator/_gev/positron.py
+++ b/hazma/vector_mediator/_gev/positron.py
@@ -93,6 +93,14 @@ def _dnde_positron_zero(positron_energies, *_):
     return np.zeros_like(positron_energies)
 
 
+def _dnde_positron_neutral_kaon(positron_energies, energy):
+    """Spectrum of a neutral kaon: half long, half short."""
+    return 0.5 * (
+        spectra.dnde_positron_long_kaon(positron_energies, energy)
+        + spectra.dnde_positron_short_kaon(positron_energies, energy)
+    )
+
+
 # =============================================================================
 # ---- 2-body Lepton ----------------------------------------------------------
 # =============================================================================
@@ -737,9 +745,9 @@ def dnde_positron_pi_k_k0(
     ff: VectorFormFactorPiKK0 = self._ff_pi_k_k0
 
     dnde_decays = [
-        _dnde_positron_zero,
-        spectra.dnde_positron_charged_kaon,
+        _dnde_positron_neutral_kaon,
         spectra.dnde_positron_charged_kaon,
+        spectra.dnde_positron_charged_pion,
     ]
     dists = ff.energy_distributions(
         q=cme,
diff --git a/hazma/vector_mediator/_gev/spectra.py b/hazma/vector_mediator/_gev/spectra.py
index b14880e..e1af844 100644
--- a/hazma/vector_mediator/_gev/spectra.py
+++ b/hazma/vector_mediator/_gev/spectra.py
@@ -96,6 +96,14 @@ def _dnde_photon_two_body(photon_energies, *, cme, m1, m2, dnde1, dnde2):
     return dnde1(photon_energies, e1) + dnde2(photon_energies, e2)
 
 
+def _dnde_photon_neutral_kaon(photon_energies, energy):
+    """Spectrum of a neutral kaon: half long, half short."""
+    return 0.5 * (
+        spectra.dnde_photon_long_kaon(photon_energies, energy)
+        + spectra.dnde_photon_short_kaon(photon_energies, energy)
+    )
+
+
 # =============================================================================
 # ---- 2-body Lepton ----------------------------------------------------------
 # =============================================================================
@@ -647,9 +655,9 @@ def dnde_photon_pi_k_k0(
     ff: VectorFormFactorPiKK0 = self._ff_pi_k_k0
 
     dnde_decays = [
-        spectra.dnde_photon_neutral_pion,
-        spectra.dnde_photon_charged_kaon,
+        _dnde_photon_neutral_kaon,
         spectra.dnde_photon_charged_kaon,
+        spectra.dnde_photon_charged_pion,
     ]
     dists = ff.energy_distributions(
         q=cme,
-- 
2.43.0


From 2590ec6dbe66032b4816944b0f09c57f9c809f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:41 +0000
Subject: [PATCH 54/69] fix: four-pion spectra of the GeV vector model are
 those of pions, not kaons

---
 hazma/vector_mediator/_gev/neutrino.py | 8 ++++----
 hazma/vector_mediator/_gev/positron.py | 8 ++++----
 hazma/vector_mediator/_gev/spectra.py  | 4 ++--
 3 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/hazma/vector_mediator/_gev/neutrino.py b/hazma/vector_mediator/_gev/neutrino.py
index d2fe72f..787842c 100644
--- a/hazma/vector_mediator/_gev/neutrino.py
+++ b/hazma/vector_mediator/_gev/neutrino.py
@@ -891,8 +891,8 @@ def dnde_neutrino_pi_pi_pi_pi(
     ff: VectorFormFactorPiPiPiPi = self._ff_pi_pi_pi_pi
 
     dnde_decays = [
-        spectra.dnde_neutrino_charged_kaon,
-        spectra.dnde_neutrino_charged_kaon,
+        spectra.dnde_neutrino_charged_pion,
+        spectra.dnde_neutrino_charged_pion,
         spectra.dnde_neutrino_charged_pion,
         spectra.dnde_neutrino_charged_pion,
     ]
@@ -939,8 +939,8 @@ def dnde_neutrino_pi_pi_pi0_pi0(
     ff: VectorFormFactorPiPiPi0Pi0 = self._ff_pi_pi_pi0_pi0
 
     dnde_decays = [
-        spectra.dnde_neutrino_charged_kaon,
-        spectra.dnde_neutrino_charged_kaon,
+        spectra.dnde_neutrino_charged_pion,
+        spectra.dnde_neutrino_charged_pion,
         _dnde_neutrino_zero,
         _dnde_neutrino_zero,
     ]
diff --git a/hazma/vector_mediator/_gev/positron.py b/hazma/vector_mediator/_gev/positron.py
index fb6509b..bbf93cb 100644
--- a/hazma/vector_mediator/_gev/positron.py
+++ b/hazma/vector_mediator/_gev/positron.py
@@ -794,8 +794,8 @@ def dnde_positron_pi_pi_pi_pi(
     ff: VectorFormFactorPiPiPiPi = self._ff_pi_pi_pi_pi
 
     dnde_decays = [
-        spectra.dnde_positron_charged_kaon,
-        spectra.dnde_positron_charged_kaon,
+        spectra.dnde_positron_charged_pion,
+        spectra.dnde_positron_charged_pion,
         spectra.dnde_positron_charged_pion,
         spectra.dnde_positron_charged_pion,
     ]
@@ -839,8 +839,8 @@ def dnde_positron_pi_pi_pi0_pi0(
     ff: VectorFormFactorPiPiPi0Pi0 = self._ff_pi_pi_pi0_pi0
 
     dnde_decays = [
-        spectra.dnde_positron_charged_kaon,
-        spectra.dnde_positron_charged_kaon,
+        spectra.dnde_positron_charged_pion,
+        spectra.dnde_positron_charged_pion,
         _dnde_positron_zero,
         _dnde_positron_zero,
     ]
diff --git a/hazma/vector_mediator/_gev/spectra.py b/hazma/vector_mediator/_gev/spectra.py
index e1af844..efd63c3 100644
--- a/hazma/vector_mediator/_gev/spectra.py
+++ b/hazma/vector_mediator/_gev/spectra.py
@@ -685,8 +685,8 @@ def dnde_photon_pi_pi_pi_pi(
     ff: VectorFormFactorPiPiPiPi = self._ff_pi_pi_pi_pi
 
     dnde_decays = [
-        spectra.dnde_photon_charged_kaon,
-        spectra.dnde_photon_charged_kaon,
+        spectra.dnde_photon_charged_pion,
+        spectra.dnde_photon_charged_pion,
         spectra.dnde_photon_charged_pion,
         spectra.dnde_photon_charged_pion,
     ]
-- 
2.43.0


From b03de2656066811b8fac2a52e5308c988d97a4f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:41 +0000
Subject: [PATCH 55/69] fix: all four pions of pi pi pi pi radiate

---
 hazma/vector_mediator/_gev/spectra.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hazma/vector_mediator/_gev/spectra.py b/hazma/vector_mediator/_gev/spectra.py
index efd63c3..e9912cd 100644
--- a/hazma/vector_mediator/_gev/spectra.py
+++ b/hazma/vector_mediator/_gev/spectra.py
@@ -699,7 +699,7 @@ def dnde_photon_pi_pi_pi_pi(
 
     dnde = _make_spectrum_n_body_decay(photon_energies, dists, dnde_decays)
 
-    pairs = [(0, 1), (1, 2), (2, 3)]
+    pairs = [(0, 1), (1, 2), (2, 3), (0, 3)]
     inv_mass_dist = ff.invariant_mass_distributions(
         q=cme,
         couplings=self._couplings,
-- 
2.43.0


From 47072519fc77bbcf385239d2a894e4119a5f8ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:41 +0000
Subject: [PATCH 56/69] fix: both charged kaons count in the K K spectra of the
 GeV vector model

---
 hazma/vector_mediator/_gev/neutrino.py | 2 +-
 hazma/vector_mediator/_gev/positron.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/hazma/vector_mediator/_gev/neutrino.py b/hazma/vector_mediator/_gev/neutrino.py
index 787842c..e49d9c4 100644
--- a/hazma/vector_mediator/_gev/neutrino.py
+++ b/hazma/vector_mediator/_gev/neutrino.py
@@ -264,7 +264,7 @@ def dnde_neutrino_k_k(
     if cme < 2 * mk:
         return _make_zeros(neutrino_energies)
 
-    dec = spectra.dnde_neutrino_charged_kaon(
+    dec = 2 * spectra.dnde_neutrino_charged_kaon(
         neutrino_energies, cme / 2.0, flavor=flavor
     )
     return dec
diff --git a/hazma/vector_mediator/_gev/positron.py b/hazma/vector_mediator/_gev/positron.py
index bbf93cb..bb94054 100644
--- a/hazma/vector_mediator/_gev/positron.py
+++ b/hazma/vector_mediator/_gev/positron.py
@@ -234,7 +234,7 @@ def dnde_positron_k_k(
     if cme < 2 * mk:
         return np.zeros_like(positron_energies)
 
-    dec = spectra.dnde_positron_charged_kaon(positron_energies, cme / 2.0)
+    dec = 2 * spectra.dnde_positron_charged_kaon(positron_energies, cme / 2.0)
     return dec
 
 
-- 
2.43.0


From 164c53a82cd6903591017f15210f1437a2632eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:41 +0000
Subject: [PATCH 57/69] fix: omega -> pi0 gamma fraction counts once in the pi0
 pi0 gamma channel

---
 hazma/vector_mediator/_gev/spectra.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/hazma/vector_mediator/_gev/spectra.py b/hazma/vector_mediator/_gev/spectra.py
index e9912cd..6989040 100644
--- a/hazma/vector_mediator/_gev/spectra.py
+++ b/hazma/vector_mediator/_gev/spectra.py
@@ -397,9 +397,6 @@ def dnde_photon_pi0_pi0_gamma(_, photon_energies, cme: float):
 
     dnde = spectra.dnde_photon_neutral_pion(photon_energies, epi1)
 
-    # Contributions from omega decay into pi0 + gamma:
-    br_omega_to_pi0_a = 8.34e-2
-
     # Factors to boost from omega rest-frame to V rest-frame.
     gamma2 = eomega / momega
     beta2 = np.sqrt(1.0 - gamma2**-2)
@@ -410,15 +407,14 @@ def dnde_photon_pi0_pi0_gamma(_, photon_energies, cme: float):
     # Final state photon from omega decay: In the omega rest-frame, the
     # spectrum is a delta-function. We perform one boost to bring into the V
     # rest-frame.
-    pre = br_omega_to_pi0_a
     e0 = (momega**2 - mpi0**2) / (2 * momega)
-    dnde += pre * boost_delta_function(photon_energies, e0=e0, m=0.0, beta=beta2)
+    dnde += boost_delta_function(photon_energies, e0=e0, m=0.0, beta=beta2)
 
     # Double-boosted neutral pion: In the pion rest-frame, the spectra is a
     # delta-function. We then boost this into the omega rest-frame, then again
     # into the V rest-frame.
     br_pi0_to_a_a = 98.823e-2
-    pre = 2.0 * br_omega_to_pi0_a * br_pi0_to_a_a
+    pre = 2.0 * br_pi0_to_a_a
     e0 = mpi0 / 2.0
     dnde += pre * double_boost_delta_function(
         photon_energies, e0=e0, m=0.0, beta1=beta1, beta2=beta2
-- 
2.43.0


From d7d818ab0a8f1d2c789c1c3d1f3eb0808aa8b279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:41 +0000
Subject: [PATCH 58/69] fix: total_neutrino_spectrum returns the total

---
 hazma/vector_mediator/_gev/model.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hazma/vector_mediator/_gev/model.py b/hazma/vector_mediator/_gev/model.py
index a36b814..d8f65b0 100644
--- a/hazma/vector_mediator/_gev/model.py
+++ b/hazma/vector_mediator/_gev/model.py
@@ -1077,8 +1077,9 @@ class VectorMediatorGeV(TheoryAnn):
         """
 
         if hasattr(energies, "__len__"):
-            return self.neutrino_spectra(energies, e_cm, flavor=flavor)
-        return self.neutrino_spectra(np.array([energies]), e_cm, flavor=flavor)
+            return self.neutrino_spectra(energies, e_cm, flavor=flavor)["total"]
+        spec = self.neutrino_spectra(np.array([energies]), e_cm, flavor=flavor)
+        return spec["total"][0]
 
 
 class KineticMixingGeV(VectorMediatorGeV):
-- 
2.43.0


From 8be10b7e4467f1d7deaa8bdd01bf95fdfa8f95aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:24 +0000
Subject: [PATCH 59/69] fix: spectra of the GeV vector model accept a single
 energy

---
 hazma/vector_mediator/_gev/neutrino.py | 8 +++-----
 hazma/vector_mediator/_gev/positron.py | 2 +-
 hazma/vector_mediator/_gev/spectra.py  | 8 ++++----
 3 files changed, 8 insertions(+), 10 deletions(-)

diff --git a/hazma/vector_mediator/_gev/neutrino.py b/hazma/vector_mediator/_gev/neutrino.py
index e49d9c4..a9ff200 100644
--- a/hazma/vector_mediator/_gev/neutrino.py
+++ b/hazma/vector_mediator/_gev/neutrino.py
@@ -65,9 +65,7 @@ class _DecayDndeNeutrino(Protocol):
 
 
 def _make_zeros(neutrino_energies):
-    dtype = neutrino_energies.dtype
-    shape = neutrino_energies.shape
-    return np.zeros(shape, dtype=dtype)
+    return np.zeros_like(neutrino_energies)
 
 
 def _make_spectrum_n_body_decay(
@@ -77,13 +75,13 @@ def _make_spectrum_n_body_decay(
     flavor: NeutrinoFlavor,
 ):
 
-    dnde = np.zeros(neutrino_energies.shape)
+    dnde = np.zeros(np.shape(neutrino_energies))
 
     for i, dist in enumerate(energy_distributions):
         bins = dist.bin_centers
         probs = dist.probabilities
         dec = np.array([dnde_decays[i](neutrino_energies, e, flavor) for e in bins])
-        dnde += np.trapezoid(np.expand_dims(probs, 1) * dec, x=bins, axis=0)
+        dnde += np.trapezoid((probs * dec.T).T, x=bins, axis=0)
 
     return dnde
 
diff --git a/hazma/vector_mediator/_gev/positron.py b/hazma/vector_mediator/_gev/positron.py
index bb94054..93327b5 100644
--- a/hazma/vector_mediator/_gev/positron.py
+++ b/hazma/vector_mediator/_gev/positron.py
@@ -76,7 +76,7 @@ def _make_spectrum_n_body_decay(
         bins = dist.bin_centers
 
         dec = np.array([dnde_decays[i](positron_energies, e) for e in bins])
-        dnde += np.trapezoid(np.expand_dims(probs, 1) * dec, x=bins, axis=0)
+        dnde += np.trapezoid((probs * dec.T).T, x=bins, axis=0)
 
     return dnde
 
diff --git a/hazma/vector_mediator/_gev/spectra.py b/hazma/vector_mediator/_gev/spectra.py
index 6989040..2fbcac8 100644
--- a/hazma/vector_mediator/_gev/spectra.py
+++ b/hazma/vector_mediator/_gev/spectra.py
@@ -82,7 +82,7 @@ def _make_spectrum_n_body_decay(
     for i, dist in enumerate(energy_distributions):
         dec = np.array([dnde_decays[i](photon_energies, e) for e in dist.bin_centers])
         dnde += np.trapezoid(
-            np.expand_dims(dist.probabilities, 1) * dec, x=dist.bin_centers, axis=0
+            (dist.probabilities * dec.T).T, x=dist.bin_centers, axis=0
         )
 
     return dnde
@@ -465,7 +465,7 @@ def dnde_photon_pi_pi_pi0(
     fsr = np.array(
         [2.0 * dnde_photon_ap_scalar(photon_energies, m**2, mpi) for m in ms]
     )
-    dnde += np.trapezoid(np.expand_dims(ps, 1) * fsr, x=ms, axis=0)
+    dnde += np.trapezoid((ps * fsr.T).T, x=ms, axis=0)
 
     return dnde
 
@@ -710,7 +710,7 @@ def dnde_photon_pi_pi_pi_pi(
             [2.0 * dnde_photon_ap_scalar(photon_energies, m**2, mpi) for m in ms]
         )
         # 0.5 since each particle is counted twice
-        dnde += 0.5 * np.trapezoid(np.expand_dims(ps, 1) * fsr, x=ms, axis=0)
+        dnde += 0.5 * np.trapezoid((ps * fsr.T).T, x=ms, axis=0)
 
     return dnde
 
@@ -752,7 +752,7 @@ def dnde_photon_pi_pi_pi0_pi0(
     fsr = np.array(
         [2.0 * dnde_photon_ap_scalar(photon_energies, m**2, mpi) for m in ms]
     )
-    dnde += np.trapezoid(np.expand_dims(ps, 1) * fsr, x=ms, axis=0)
+    dnde += np.trapezoid((ps * fsr.T).T, x=ms, axis=0)
 
     return dnde
 
-- 
2.43.0


From dd93c350b3c78de3db03b5a42b1e28925e3eb8bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:24 +0000
Subject: [PATCH 60/69] fix: lines of V -> pi0 gamma and V -> eta gamma carry
 their branching fractions in V V

---
 hazma/vector_mediator/_gev/spectra.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/hazma/vector_mediator/_gev/spectra.py b/hazma/vector_mediator/_gev/spectra.py
index 2fbcac8..dd762f6 100644
--- a/hazma/vector_mediator/_gev/spectra.py
+++ b/hazma/vector_mediator/_gev/spectra.py
@@ -839,11 +839,16 @@ def dnde_photon_v_v(
     dnde = _dnde_photon_v_v_rest_frame(self, photon_energies, npts=npts, nbins=nbins)
     boosted = boost.dnde_boost_array(dnde, photon_energies, beta)
 
+    pws = self.partial_widths()
+    pw = sum(pws.values())
+
     # Factor of 2 for 2 vectors
     e0pi = 0.5 * (mv - mpi**2 / mv)
-    boosted += 2 * boost_delta_function(photon_energies, e0pi, 0.0, beta)
+    br_pi = pws["pi0 gamma"] / pw
+    boosted += 2 * br_pi * boost_delta_function(photon_energies, e0pi, 0.0, beta)
     e0eta = 0.5 * (mv - meta**2 / mv)
-    boosted += 2 * boost_delta_function(photon_energies, e0eta, 0.0, beta)
+    br_eta = pws["eta gamma"] / pw
+    boosted += 2 * br_eta * boost_delta_function(photon_energies, e0eta, 0.0, beta)
 
     return boosted
 
-- 
2.43.0


From 32cc20621a5254f67d2811804203bfd9ccb04e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:25 +0000
Subject: [PATCH 61/69] fix: positron and neutrino spectra of V V are those of
 the decays of the two mediators

---
 hazma/vector_mediator/_gev/neutrino.py | 60 ++++++++++++-------------
 hazma/vector_mediator/_gev/positron.py | 61 +++++++++++++-------------
 2 files changed, 60 insertions(+), 61 deletions(-)

diff --git a/hazma/vector_mediator/_gev/neutrino.py b/hazma/vector_mediator/_gev/neutrino.py
index a9ff200..3ca315c 100644
--- a/hazma/vector_mediator/_gev/neutrino.py
+++ b/hazma/vector_mediator/_gev/neutrino.py
@@ -980,44 +980,44 @@ def dnde_neutrino_v_v(
     dnde: array
         Spectrum evaluated at `neutrino_energies`.
     """
-    gamma = 2.0 * self.mv / cme
+    gamma = 0.5 * cme / self.mv
     if gamma < 1.0:
         return _make_zeros(neutrino_energies)
 
     beta = np.sqrt(1.0 - gamma**-2)
 
+    pws = self.partial_widths()
+    pw = sum(pws.values())
+
     kwargs = {"npts": npts, "nbins": nbins}
     kwargs2 = {"nbins": nbins}
 
-    def dnde(es):
-        args = (es, cme, flavor)
-        spec = np.zeros_like(es)
-        spec += dnde_neutrino_e_e(self, *args)
-        spec += dnde_neutrino_mu_mu(self, *args)
-        spec += dnde_neutrino_pi_pi(self, *args)
-        spec += dnde_neutrino_k0_k0(self, *args)
-        spec += dnde_neutrino_k_k(self, *args)
-        spec += dnde_neutrino_pi0_gamma(self, *args)
-        spec += dnde_neutrino_eta_gamma(self, *args)
-        spec += dnde_neutrino_pi0_phi(self, *args)
-        spec += dnde_neutrino_eta_phi(self, *args)
-        spec += dnde_neutrino_eta_omega(self, *args)
-        spec += dnde_neutrino_pi0_pi0_gamma(self, *args)
-        spec += dnde_neutrino_pi_pi_pi0(self, *args, **kwargs)
-        spec += dnde_neutrino_pi_pi_eta(self, *args, **kwargs2)
-        spec += dnde_neutrino_pi_pi_etap(self, *args, **kwargs2)
-        spec += dnde_neutrino_pi_pi_omega(self, *args, **kwargs2)
-        spec += dnde_neutrino_pi0_pi0_omega(self, *args, **kwargs2)
-        spec += dnde_neutrino_pi0_k0_k0(self, *args, **kwargs)
-        spec += dnde_neutrino_pi0_k_k(self, *args, **kwargs)
-        spec += dnde_neutrino_pi_k_k0(self, *args, **kwargs)
-        spec += dnde_neutrino_pi_pi_pi_pi(self, *args, **kwargs)
-        spec += dnde_neutrino_pi_pi_pi0_pi0(self, *args, **kwargs)
-
-        return spec
-
-    booster = boost.make_boost_function(dnde, mass=0.0)
-    return booster(neutrino_energies, beta, method=method)
+    args = (neutrino_energies, self.mv, flavor)
+    spec = np.zeros_like(neutrino_energies)
+    spec += pws["e e"] * dnde_neutrino_e_e(self, *args)
+    spec += pws["mu mu"] * dnde_neutrino_mu_mu(self, *args)
+    spec += pws["pi pi"] * dnde_neutrino_pi_pi(self, *args)
+    spec += pws["k0 k0"] * dnde_neutrino_k0_k0(self, *args)
+    spec += pws["k k"] * dnde_neutrino_k_k(self, *args)
+    spec += pws["pi0 gamma"] * dnde_neutrino_pi0_gamma(self, *args)
+    spec += pws["eta gamma"] * dnde_neutrino_eta_gamma(self, *args)
+    spec += pws["pi0 phi"] * dnde_neutrino_pi0_phi(self, *args)
+    spec += pws["eta phi"] * dnde_neutrino_eta_phi(self, *args)
+    spec += pws["eta omega"] * dnde_neutrino_eta_omega(self, *args)
+    spec += pws["pi0 pi0 gamma"] * dnde_neutrino_pi0_pi0_gamma(self, *args)
+    spec += pws["pi pi pi0"] * dnde_neutrino_pi_pi_pi0(self, *args, **kwargs)
+    spec += pws["pi pi eta"] * dnde_neutrino_pi_pi_eta(self, *args, **kwargs2)
+    spec += pws["pi pi etap"] * dnde_neutrino_pi_pi_etap(self, *args, **kwargs2)
+    spec += pws["pi pi omega"] * dnde_neutrino_pi_pi_omega(self, *args, **kwargs2)
+    spec += pws["pi0 pi0 omega"] * dnde_neutrino_pi0_pi0_omega(self, *args, **kwargs2)
+    spec += pws["pi0 k0 k0"] * dnde_neutrino_pi0_k0_k0(self, *args, **kwargs)
+    spec += pws["pi0 k k"] * dnde_neutrino_pi0_k_k(self, *args, **kwargs)
+    spec += pws["pi k k0"] * dnde_neutrino_pi_k_k0(self, *args, **kwargs)
+    spec += pws["pi pi pi pi"] * dnde_neutrino_pi_pi_pi_pi(self, *args, **kwargs)
+    spec += pws["pi pi pi0 pi0"] * dnde_neutrino_pi_pi_pi0_pi0(self, *args, **kwargs)
+
+    # Factor of 2 for 2 vectors
+    return boost.dnde_boost_array(2 * spec / pw, neutrino_energies, beta, mass=0.0)
 
 
 NeutrinoSpectrumFunctions = TypedDict(
diff --git a/hazma/vector_mediator/_gev/positron.py b/hazma/vector_mediator/_gev/positron.py
index 93327b5..30a97e8 100644
--- a/hazma/vector_mediator/_gev/positron.py
+++ b/hazma/vector_mediator/_gev/positron.py
@@ -879,45 +879,44 @@ def dnde_positron_v_v(
     dnde: array
         Spectrum evaluated at `photon_energies`.
     """
-    gamma = 2.0 * self.mv / cme
+    gamma = 0.5 * cme / self.mv
     if gamma < 1.0:
         return np.zeros_like(positron_energies)
 
     beta = np.sqrt(1.0 - gamma**-2)
 
+    pws = self.partial_widths()
+    pw = sum(pws.values())
+
     kwargs = {"npts": npts, "nbins": nbins}
     kwargs2 = {"nbins": nbins}
 
-    def dnde(es):
-        args = (es, cme)
-        spec = np.zeros_like(es)
-        spec += dnde_positron_e_e(self, *args)
-        spec += dnde_positron_mu_mu(self, *args)
-        spec += dnde_positron_pi_pi(self, *args)
-        spec += dnde_positron_k0_k0(self, *args)
-        spec += dnde_positron_k_k(self, *args)
-        spec += dnde_positron_pi0_gamma(self, *args)
-        spec += dnde_positron_eta_gamma(self, *args)
-        spec += dnde_positron_pi0_phi(self, *args)
-        spec += dnde_positron_eta_phi(self, *args)
-        spec += dnde_positron_eta_omega(self, *args)
-        spec += dnde_positron_pi0_pi0_gamma(self, *args)
-        spec += dnde_positron_pi_pi_pi0(self, *args, **kwargs)
-        spec += dnde_positron_pi_pi_eta(self, *args, **kwargs2)
-        spec += dnde_positron_pi_pi_etap(self, *args, **kwargs2)
-        spec += dnde_positron_pi_pi_omega(self, *args, **kwargs2)
-        spec += dnde_positron_pi0_pi0_omega(self, *args, **kwargs2)
-        spec += dnde_positron_pi0_k0_k0(self, *args, **kwargs)
-        spec += dnde_positron_pi0_k_k(self, *args, **kwargs)
-        spec += dnde_positron_pi_k_k0(self, *args, **kwargs)
-        spec += dnde_positron_pi_pi_pi_pi(self, *args, **kwargs)
-        spec += dnde_positron_pi_pi_pi0_pi0(self, *args, **kwargs)
-
-        return spec
-
-    return boost.make_boost_function(dnde, mass=me)(
-        positron_energies, beta, method=method
-    )
+    args = (positron_energies, self.mv)
+    spec = np.zeros_like(positron_energies)
+    spec += pws["e e"] * dnde_positron_e_e(self, *args)
+    spec += pws["mu mu"] * dnde_positron_mu_mu(self, *args)
+    spec += pws["pi pi"] * dnde_positron_pi_pi(self, *args)
+    spec += pws["k0 k0"] * dnde_positron_k0_k0(self, *args)
+    spec += pws["k k"] * dnde_positron_k_k(self, *args)
+    spec += pws["pi0 gamma"] * dnde_positron_pi0_gamma(self, *args)
+    spec += pws["eta gamma"] * dnde_positron_eta_gamma(self, *args)
+    spec += pws["pi0 phi"] * dnde_positron_pi0_phi(self, *args)
+    spec += pws["eta phi"] * dnde_positron_eta_phi(self, *args)
+    spec += pws["eta omega"] * dnde_positron_eta_omega(self, *args)
+    spec += pws["pi0 pi0 gamma"] * dnde_positron_pi0_pi0_gamma(self, *args)
+    spec += pws["pi pi pi0"] * dnde_positron_pi_pi_pi0(self, *args, **kwargs)
+    spec += pws["pi pi eta"] * dnde_positron_pi_pi_eta(self, *args, **kwargs2)
+    spec += pws["pi pi etap"] * dnde_positron_pi_pi_etap(self, *args, **kwargs2)
+    spec += pws["pi pi omega"] * dnde_positron_pi_pi_omega(self, *args, **kwargs2)
+    spec += pws["pi0 pi0 omega"] * dnde_positron_pi0_pi0_omega(self, *args, **kwargs2)
+    spec += pws["pi0 k0 k0"] * dnde_positron_pi0_k0_k0(self, *args, **kwargs)
+    spec += pws["pi0 k k"] * dnde_positron_pi0_k_k(self, *args, **kwargs)
+    spec += pws["pi k k0"] * dnde_positron_pi_k_k0(self, *args, **kwargs)
+    spec += pws["pi pi pi pi"] * dnde_positron_pi_pi_pi_pi(self, *args, **kwargs)
+    spec += pws["pi pi pi0 pi0"] * dnde_positron_pi_pi_pi0_pi0(self, *args, **kwargs)
+
+    # Factor of 2 for 2 vectors
+    return boost.dnde_boost_array(2 * spec / pw, positron_energies, beta, mass=me)
 
 
 PositronSpectrumFunctions = TypedDict(
-- 
2.43.0


From 867ecdc8ec849a993caf373a02536218d9d311e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:28 +0000
Subject: [PATCH 62/69] fix: V V annihilation cross section of the GeV vector
 model counts each identical pair once

The phase space of two identical vectors was integrated without the symmetry
factor of 1/2, so the cross section was twice sigma_xx_to_vv of the MeV models
and twice the e+ e- -> gamma gamma limit.
---
 hazma/vector_mediator/_gev/cross_sections.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hazma/vector_mediator/_gev/cross_sections.py b/hazma/vector_mediator/_gev/cross_sections.py
index 773f744..2c02cf1 100644
--- a/hazma/vector_mediator/_gev/cross_sections.py
+++ b/hazma/vector_mediator/_gev/cross_sections.py
@@ -178,7 +178,8 @@ def sigma_xx_to_v_v(self, cme):
     sqrtx = np.sqrt(1.0 - 4 * mux2)
     sqrtv = np.sqrt(1.0 - 4 * muv2)
     sqrtxv = sqrtx * sqrtv
-    pre = self.gvxx**4 * sqrtv / (4.0 * np.pi * sqrtx * qq**2)
+    # Includes the factor of 1/2 for two identical particles in the final state.
+    pre = self.gvxx**4 * sqrtv / (8.0 * np.pi * sqrtx * qq**2)
 
     sigma[mask] = pre * (
         -((2 * muv4 + mux2 + 4 * mux4) / (muv4 + mux2 - 4 * muv2 * mux2))
-- 
2.43.0


From 0cb89ed42fbba03ce9df758148ec7f5738419a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:01 +0000
Subject: [PATCH 63/69] fix: thermal average of the GeV vector model integrates
 above threshold for every x

The upper limit in units of the dark matter mass was 50/x, below the threshold
2 for x > 25, so the thermal cross section was cut off and then vanished where
the dark matter freezes out.
---
 hazma/vector_mediator/_gev/thermal_cross_section.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hazma/vector_mediator/_gev/thermal_cross_section.py b/hazma/vector_mediator/_gev/thermal_cross_section.py
index 37bea26..69a0ed1 100644
--- a/hazma/vector_mediator/_gev/thermal_cross_section.py
+++ b/hazma/vector_mediator/_gev/thermal_cross_section.py
@@ -140,7 +140,8 @@ def relic_density(
             return 0.0
 
         pf = x / (2.0 * special.kn(2, x)) ** 2
-        return pf * integrate.quad(integrand, 2.0, 50.0 / x, points=[2.0], args=(x,))[0]
+        upper = 2.0 + 50.0 / x
+        return pf * integrate.quad(integrand, 2.0, upper, points=[2.0], args=(x,))[0]
 
     model = VectorMediatorGeVRelicDensity(
         mx=self.mx, thermal_cross_section=thermal_cross_section
-- 
2.43.0


From 8a02154a8dbd8395badcbd0ca7bd7b02e73a1fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:01 +0000
Subject: [PATCH 64/69] fix: relic density of the GeV vector model includes
 annihilation into V V

The channel is among annihilation_cross_section_funcs but was missing from the
two-body final states of the thermal average.
---
 hazma/vector_mediator/_gev/thermal_cross_section.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hazma/vector_mediator/_gev/thermal_cross_section.py b/hazma/vector_mediator/_gev/thermal_cross_section.py
index 69a0ed1..73450f7 100644
--- a/hazma/vector_mediator/_gev/thermal_cross_section.py
+++ b/hazma/vector_mediator/_gev/thermal_cross_section.py
@@ -19,6 +19,7 @@ TWO_BODY = [
     "pi0 phi",
     "eta phi",
     "eta omega",
+    "v v",
 ]
 
 THREE_BODY = [
-- 
2.43.0


From 107856114eeeb42c9fdb52a4a8f032549709fe79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:50 +0000
Subject: [PATCH 65/69] fix: pi0 pi0 gamma cross section accepts energies that
 are all below threshold

np.vectorize cannot be called on an empty array without otypes.
---
 hazma/vector_mediator/_gev/cross_sections.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hazma/vector_mediator/_gev/cross_sections.py b/hazma/vector_mediator/_gev/cross_sections.py
index 2c02cf1..fde396e 100644
--- a/hazma/vector_mediator/_gev/cross_sections.py
+++ b/hazma/vector_mediator/_gev/cross_sections.py
@@ -98,7 +98,7 @@ def __sigma_from_width_fn(self, width: Callable, e_cm, fsp_masses: Sequence[floa
         rescale = np.zeros_like(cme)
 
         rescale = __width_to_cs(self, cme[mask])
-        cs[mask] = np.vectorize(width)(cme[mask]) * rescale
+        cs[mask] = np.vectorize(width, otypes=[np.float64])(cme[mask]) * rescale
 
         return cs
     else:
-- 
2.43.0


From 59a066a145fb56e773b34ed306c1ac0462796496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:45 +0000
Subject: [PATCH 66/69] fix: photon line of V -> pi0 gamma in V V has the
 energy of a neutral pion decay

The line energy was computed with the charged pion mass.
---
 hazma/vector_mediator/_gev/spectra.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hazma/vector_mediator/_gev/spectra.py b/hazma/vector_mediator/_gev/spectra.py
index dd762f6..ec5003f 100644
--- a/hazma/vector_mediator/_gev/spectra.py
+++ b/hazma/vector_mediator/_gev/spectra.py
@@ -843,7 +843,7 @@ def dnde_photon_v_v(
     pw = sum(pws.values())
 
     # Factor of 2 for 2 vectors
-    e0pi = 0.5 * (mv - mpi**2 / mv)
+    e0pi = 0.5 * (mv - mpi0**2 / mv)
     br_pi = pws["pi0 gamma"] / pw
     boosted += 2 * br_pi * boost_delta_function(photon_energies, e0pi, 0.0, beta)
     e0eta = 0.5 * (mv - meta**2 / mv)
-- 
2.43.0


From c7856396a9489e4bebe5fc2caad06b2d5fcc7927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:53 +0000
Subject: [PATCH 67/69] fix: dark matter self-interaction cross sections of the
 mediator models are in MeV^-2

---
 hazma/scalar_mediator/_scalar_mediator_cross_sections.py | 2 +-
 hazma/vector_mediator/_vector_mediator_cross_sections.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/hazma/scalar_mediator/_scalar_mediator_cross_sections.py b/hazma/scalar_mediator/_scalar_mediator_cross_sections.py
index f7f143b..45bdceb 100644
--- a/hazma/scalar_mediator/_scalar_mediator_cross_sections.py
+++ b/hazma/scalar_mediator/_scalar_mediator_cross_sections.py
@@ -264,7 +264,7 @@ def sigma_xx_to_s_to_xx(self, e_cm):
         nodes, weights = leggauss(10)
         nodes, weights = (np.reshape(nodes, (10, 1)), np.reshape(weights, (10, 1)))
         ret_val = mask * np.nan_to_num(
-            np.sum(weights * msqrd(nodes), axis=0) / (32.0 * np.pi * e_cms)
+            np.sum(weights * msqrd(nodes), axis=0) / (32.0 * np.pi * e_cms**2)
         )
 
     return ret_val.real
diff --git a/hazma/vector_mediator/_vector_mediator_cross_sections.py b/hazma/vector_mediator/_vector_mediator_cross_sections.py
index ccaaf14..eef3a56 100644
--- a/hazma/vector_mediator/_vector_mediator_cross_sections.py
+++ b/hazma/vector_mediator/_vector_mediator_cross_sections.py
@@ -254,7 +254,7 @@ class VectorMediatorCrossSections:
             nodes, weights = leggauss(10)
             nodes, weights = (np.reshape(nodes, (10, 1)), np.reshape(weights, (10, 1)))
             ret_val = mask * np.nan_to_num(
-                np.sum(weights * msqrd(nodes), axis=0) / (32.0 * np.pi * e_cms)
+                np.sum(weights * msqrd(nodes), axis=0) / (32.0 * np.pi * e_cms**2)
             )
 
         return ret_val.real
-- 
2.43.0


From cef333a03ade2a8e33cdac8890966366b34c8ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:56 +0000
Subject: [PATCH 68/69] fix: photon and neutrino spectra of RHNeutrino decays
 are not doubled

The widths, and with them the branching fractions, already include the
charge-conjugated final states, so that doubling the spectra counted the
conjugates twice.
---
 hazma/rh_neutrino/_model.py | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/hazma/rh_neutrino/_model.py b/hazma/rh_neutrino/_model.py
index 94b1889..a6dfef9 100644
--- a/hazma/rh_neutrino/_model.py
+++ b/hazma/rh_neutrino/_model.py
@@ -195,20 +195,14 @@ class RHNeutrino(SingleRhNeutrinoModel, TheoryDec):
         Gets a function taking a photon energy and returning the continuum
         gamma ray spectrum dN/dE for each relevant decay final state.
         """
-        ispositron = product == "positron"
-        conjfactor = 1.0 if ispositron else 2.0
-
-        def pre(self_conjugate):
-            return 1.0 if self_conjugate else conjfactor
+        # NOTE: The charge-conjugated final states are included in the decay
+        # widths. These are the spectra of a single decay.
 
         def mk_dnde(key):
             dnde = self._config[key].dnde
-            self_conjugate = self._config[key].self_conjugate
 
             def new_dnde(energies, **kwargs):
-                return pre(self_conjugate) * dnde(
-                    product_energies=energies, product=product, **kwargs
-                )
+                return dnde(product_energies=energies, product=product, **kwargs)
 
             return new_dnde
 
-- 
2.43.0


From a901291b4e952b732862a5f4874edccf07334daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:56 +0000
Subject: [PATCH 69/69] fix: three-lepton widths of RHNeutrino are not doubled
 twice

Both charge assignments of the charged leptons are listed as final states;
doubling each of them for its conjugate gave twice the width.
---
 hazma/rh_neutrino/_configure.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hazma/rh_neutrino/_configure.py b/hazma/rh_neutrino/_configure.py
index 1bc99dd..7a450d0 100644
--- a/hazma/rh_neutrino/_configure.py
+++ b/hazma/rh_neutrino/_configure.py
@@ -170,7 +170,9 @@ def configure(
         fns[key] = RHNFinalStateAttrs(
             dnde=mk_dnde_3body(rhn_spectra.dnde_v_l_l, genv=g1, genl1=g2, genl2=g3),
             width=mk_width_fn(rhn_widths.width_v_l_l, genv=g1, genl1=g2, genl2=g3),
-            self_conjugate=g2 == g3,
+            # Both charge assignments of l2 and l3 are listed as final states,
+            # hence the conjugate of each state is already accounted for.
+            self_conjugate=True,
             masses=tuple(sm_masses[s] for s in states),
         )
 
-- 
2.43.0

