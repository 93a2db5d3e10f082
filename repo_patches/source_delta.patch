From 66d195f7b0a46ecacdb2ec563fd06f2c249ab9d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:30 +0000
Subject: [PATCH 01/23] fix: reading a band parameter equal to zero raised
 AssertionError

---
 cuprates_transport/bandstructure.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/cuprates_transport/bandstructure.py b/cuprates_transport/bandstructure.py
index 5e63a84..79dd81f 100644
--- a/cuprates_transport/bandstructure.py
+++ b/cuprates_transport/bandstructure.py
@@ -106,11 +106,9 @@ class BandStructure:
 
     def __getitem__(self, key):
         try:
-            assert self._band_params[key]
+            return self._band_params[key]
         except KeyError:
             print(key + " is not a defined band parameter")
-        else:
-            return self._band_params[key]
 
     def get_band_param(self, key):
         return self[key]
-- 
2.43.0


From 0a5b5b91bb3cef2e6279d5260d0654e2014b41f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:30 +0000
Subject: [PATCH 02/23] fix: solving for a target doping left the previous
 Fermi surface and filling on the band

---
 cuprates_transport/bandstructure.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cuprates_transport/bandstructure.py b/cuprates_transport/bandstructure.py
index 79dd81f..2ea4133 100644
--- a/cuprates_transport/bandstructure.py
+++ b/cuprates_transport/bandstructure.py
@@ -259,12 +259,12 @@ class BandStructure:
         return n_per_kz, p_per_kz
 
     def diff_doping(self, mu, p_target):
-        self._band_params["mu"] = mu
+        self["mu"] = mu
         return self.doping() - p_target
 
     def set_mu_to_doping(self, p_target, ptol=0.001):
-        self._band_params["mu"] = optimize.brentq(self.diff_doping, -10, 10,
-                                                  args=(p_target,), xtol=ptol)
+        self["mu"] = optimize.brentq(self.diff_doping, -10, 10,
+                                     args=(p_target,), xtol=ptol)
 
     def discretize_fermi_surface(self, epsilon=0):
         if self.march_square is True:
-- 
2.43.0


From b32ba2207e831c8bdb2249c5b916c8da1cd2b13e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:30 +0000
Subject: [PATCH 03/23] fix: changing a band parameter left the previous
 cyclotron mass on the band

---
 cuprates_transport/bandstructure.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cuprates_transport/bandstructure.py b/cuprates_transport/bandstructure.py
index 2ea4133..f1f22e1 100644
--- a/cuprates_transport/bandstructure.py
+++ b/cuprates_transport/bandstructure.py
@@ -143,6 +143,7 @@ class BandStructure:
     def erase_Fermi_surface(self):
         self.kf  = None
         self.vf  = None
+        self.mass = None
         self.dkf = None
         self.dks = None
         self.dkz = None
-- 
2.43.0


From 4492ef7cbbfc93d51e8e579755c26043e43f90ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:30 +0000
Subject: [PATCH 04/23] fix: replacing band_params kept a reference to the
 caller's dictionary

---
 cuprates_transport/bandstructure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cuprates_transport/bandstructure.py b/cuprates_transport/bandstructure.py
index f1f22e1..4fc560f 100644
--- a/cuprates_transport/bandstructure.py
+++ b/cuprates_transport/bandstructure.py
@@ -121,7 +121,7 @@ class BandStructure:
         return self._band_params
 
     def _set_band_params(self, band_params):
-        self._band_params = band_params
+        self._band_params = deepcopy(band_params)
         self.erase_Fermi_surface()
     band_params = property(_get_band_params, _set_band_params)
 
-- 
2.43.0


From bcb0e22345fd9a3c059648bf6367559bacee641d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:30 +0000
Subject: [PATCH 05/23] fix: bands shared the caller's (or the default) k_max
 list

---
 cuprates_transport/bandstructure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cuprates_transport/bandstructure.py b/cuprates_transport/bandstructure.py
index 4fc560f..05b83c7 100644
--- a/cuprates_transport/bandstructure.py
+++ b/cuprates_transport/bandstructure.py
@@ -76,7 +76,7 @@ class BandStructure:
         # Number of subdivisions of the FBZ in units of Pi
         self.resolution = [res if res % 2 != 0 else res + 1 for res in resolution]
         # Unitless bounds of the Brillouin zone : k_x = [- k_max / a ... + k_max / a]
-        self.k_max = k_max # list
+        self.k_max = list(k_max) # own copy, not the caller's (or the default) list
 
         # Whether to use or not the marching square for higher symmetries
         self.march_square = march_square
-- 
2.43.0


From 00ef0179d7c7602740cb3a8346a1ab05ca3722e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:30 +0000
Subject: [PATCH 06/23] fix: scattering models and replaced scattering
 parameters aliased the caller's objects

---
 cuprates_transport/scattering.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cuprates_transport/scattering.py b/cuprates_transport/scattering.py
index 0723b3b..57c8a5f 100644
--- a/cuprates_transport/scattering.py
+++ b/cuprates_transport/scattering.py
@@ -23,7 +23,7 @@ def scattering_method(func):
 class Scattering:
     def __init__(self, scattering_models, scattering_params, **kwargs):
 
-        self.scattering_models = scattering_models
+        self.scattering_models = list(scattering_models)
         self._scattering_params = deepcopy(scattering_params)
         self.gamma_tot = np.empty(1) # [ps^-1] total scattering rate array
 
@@ -82,7 +82,7 @@ class Scattering:
         return self._scattering_params
 
     def _set_scattering_params(self, scattering_params):
-        self._scattering_params = scattering_params
+        self._scattering_params = deepcopy(scattering_params)
         # Set scattering rate model parameters as class attributes
         for param, value in self._scattering_params.items():
             setattr(self, param, value)  # Set each parameter as an attribute
-- 
2.43.0


From c005b3b6c299dfa065bd7cc5678b76f4b91e1b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:04 +0000
Subject: [PATCH 07/23] fix: marching_square failed when the first kz slice has
 no contour

---
 cuprates_transport/bandstructure.py | 24 +++++++++---------------
 1 file changed, 9 insertions(+), 15 deletions(-)

diff --git a/cuprates_transport/bandstructure.py b/cuprates_transport/bandstructure.py
index 05b83c7..697e0bd 100644
--- a/cuprates_transport/bandstructure.py
+++ b/cuprates_transport/bandstructure.py
@@ -362,6 +362,9 @@ class BandStructure:
         # Meshgrid for kx and ky
         kxx, kyy = np.meshgrid(kx_a, ky_a, indexing='ij')
         self.number_of_points_per_kz_list = []
+        # Initialize empty (some or all kz slices may not have any contour)
+        kxf, kyf, kzf, dkf = np.empty(0), np.empty(0), np.empty(0), np.empty(0)
+        self.dks, self.dkz = np.empty(0), np.empty(0)
         # Loop over the kz array
         for j, kz in enumerate(kz_a):
             contours = measure.find_contours(self.energy_func(kxx, kyy, kz), epsilon)
@@ -399,21 +402,12 @@ class BandStructure:
                     x_int = x_dump
                     y_int = y_dump
                 # Put in an array /////////////////////////////////////////////////////#
-                if i == 0 and j == 0:  # for first contour and first kz
-                    kxf = x_int / self.a
-                    kyf = y_int / self.b
-                    # self.a (and not b) because anisotropy is taken into account earlier
-                    kzf = kz * np.ones_like(x_int)
-                    dkf = dks * dkz * np.ones_like(x_int)
-                    self.dks = dks * np.ones_like(x_int)
-                    self.dkz = dkz * np.ones_like(x_int)
-                else:
-                    kxf = np.append(kxf, x_int / self.a)
-                    kyf = np.append(kyf, y_int / self.b)
-                    kzf = np.append(kzf, kz * np.ones_like(x_int))
-                    dkf = np.append(dkf, dks * dkz * np.ones_like(x_int))
-                    self.dks = np.append(self.dks, dks * np.ones_like(x_int))
-                    self.dkz = np.append(self.dkz, dkz * np.ones_like(x_int))
+                kxf = np.append(kxf, x_int / self.a)
+                kyf = np.append(kyf, y_int / self.b)
+                kzf = np.append(kzf, kz * np.ones_like(x_int))
+                dkf = np.append(dkf, dks * dkz * np.ones_like(x_int))
+                self.dks = np.append(self.dks, dks * np.ones_like(x_int))
+                self.dkz = np.append(self.dkz, dkz * np.ones_like(x_int))
             if self.a == self.b:
                 # discretize one fourth of FS, therefore need * 4
                 self.number_of_points_per_kz_list.append(4 * number_of_points_per_kz)
-- 
2.43.0


From 33ee958d6d72d3d25e02a77c408d970f05803a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:04 +0000
Subject: [PATCH 08/23] fix: marching_square measured arc lengths as if b were
 equal to a

---
 cuprates_transport/bandstructure.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cuprates_transport/bandstructure.py b/cuprates_transport/bandstructure.py
index 697e0bd..84a4c7f 100644
--- a/cuprates_transport/bandstructure.py
+++ b/cuprates_transport/bandstructure.py
@@ -380,7 +380,8 @@ class BandStructure:
                     x = (contour[:, 0] / (2*self.res_xy_rough - 1) - 0.5) * 2*self.k_max[0]
                     y = (contour[:, 1] / (2*self.res_xy_rough - 1) - 0.5) * 2*self.k_max[1]
                 # path
-                ds = sqrt(np.diff(x)**2 + np.diff(y)**2)  # segment lengths
+                # (in units of 1 / a along both directions, x and y are in units of 1 / a and 1 / b)
+                ds = sqrt(np.diff(x)**2 + (np.diff(y) * (self.a / self.b))**2)  # segment lengths
                 s = np.zeros_like(x)  # arrays of zeros
                 s[1:] = np.cumsum(ds)  # integrate path, s[0] = 0
                 # Store the number of k points per kz
-- 
2.43.0


From ee53881a0f3a6902efe9c7bfac839581e2c35a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:04 +0000
Subject: [PATCH 09/23] fix: gamma_dos_func ignored the velocity at which it is
 evaluated

---
 cuprates_transport/scattering.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cuprates_transport/scattering.py b/cuprates_transport/scattering.py
index 57c8a5f..3804136 100644
--- a/cuprates_transport/scattering.py
+++ b/cuprates_transport/scattering.py
@@ -156,7 +156,8 @@ class Scattering:
         """
         dos_max = np.max(self.bandObject.dos_k)
         # value to normalize the DOS to a quantity without units
-        return self.gamma_dos_max * (self.bandObject.dos_k / dos_max)
+        dos_k = 1 / (hbar * sqrt(vx**2 + vy**2 + vz**2))
+        return self.gamma_dos_max * (dos_k / dos_max)
 
     # @scattering_method
     # def gamma_cmfp_func(self, vx, vy, vz):
-- 
2.43.0


From dba38a31c173f1ebbb82515d9970689bb5c64d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:04 +0000
Subject: [PATCH 10/23] fix: omegac_tau_func passed kz as the z component of
 the velocity

---
 cuprates_transport/conductivity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cuprates_transport/conductivity.py b/cuprates_transport/conductivity.py
index 0d818a9..0736a5c 100644
--- a/cuprates_transport/conductivity.py
+++ b/cuprates_transport/conductivity.py
@@ -319,7 +319,7 @@ class Conductivity(Scattering):
         prefactor = hbar / (2 * pi * e * self._Bamp)
         ## Function of k
         kf0, kf1, kf2 = kf[0, :], kf[1, :], kf[2, :]
-        vf0, vf1, vf2 = vf[0, :], vf[1, :], kf[2, :]
+        vf0, vf1, vf2 = vf[0, :], vf[1, :], vf[2, :]
         inverse_omegac_tau_k = (prefactor * 2*pi*kf_perp / vf_perp / picosecond *
                                 self.tau_tot_func(kf0, kf1, kf2, vf0, vf1, vf2))
         self.omegac_tau_k = 1 / inverse_omegac_tau_k
-- 
2.43.0


From 5b2a4dd85f344e86f88265de7ba4e23a72e5254b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:04 +0000
Subject: [PATCH 11/23] fix: ADMR totals accumulated over sweeps and the total
 hole doping was never set

---
 cuprates_transport/admr.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cuprates_transport/admr.py b/cuprates_transport/admr.py
index 8905099..0e06eb7 100644
--- a/cuprates_transport/admr.py
+++ b/cuprates_transport/admr.py
@@ -66,9 +66,10 @@ class ADMR:
 
     #---------------------------------------------------------------------------
     def update_total_doping(self):
+        self.total_filling = 0
         for i in range(len(self.condObject_list)):
             self.total_filling += self.condObject_list[i].bandObject.n
-        self.total_hole_dopin = 1 - self.total_filling
+        self.total_hole_doping = 1 - self.total_filling
 
     def file_name_func(self):
         # To point to bandstructure parameters, we use just one band
-- 
2.43.0


From c256633554a8238de33399b383bc1fe058c71b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:04 +0000
Subject: [PATCH 12/23] fix: compute_fitness ignored the whole trial vector
 when one component was zero

---
 cuprates_transport/fitting_admr_parallel_multiT.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cuprates_transport/fitting_admr_parallel_multiT.py b/cuprates_transport/fitting_admr_parallel_multiT.py
index d421b6d..61b2aa0 100644
--- a/cuprates_transport/fitting_admr_parallel_multiT.py
+++ b/cuprates_transport/fitting_admr_parallel_multiT.py
@@ -205,10 +205,10 @@ class Fitness:
                 for T in self.T_list:
                     self.update_conditions(T, band, param, x[i])
 
-    def compute_fitness(self, x=np.array([0])):
+    def compute_fitness(self, x=None):
         """Compute chi2 = sum((sim[i] - data[i])**2)"""
         ## Update the params_dict with fit values
-        if x.all()!=0:
+        if x is not None:
             self.update_parameters(x)
         ## Compute sim, then diff
         diff_array = np.empty(0)
-- 
2.43.0


From 9778d803469be7152e8035384f4034a594322b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:10 +0000
Subject: [PATCH 13/23] fix: changing N_time before the first run raised
 TypeError

---
 cuprates_transport/conductivity.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/cuprates_transport/conductivity.py b/cuprates_transport/conductivity.py
index 0736a5c..96530ff 100644
--- a/cuprates_transport/conductivity.py
+++ b/cuprates_transport/conductivity.py
@@ -115,10 +115,8 @@ class Conductivity(Scattering):
         return self._N_time
     def _set_N_time(self, N_time):
         self._N_time = N_time
-        self.dtime = self.time_max / self._N_time
-        self.time_array = np.arange(0, self.time_max, self.dtime)
-        # integrand for tau_function
-        self.dtime_array = np.append(0, self.dtime * np.ones_like(self.time_array))[:-1]
+        if self.time_max is not None: # otherwise the grid is built by the first run
+            self.time_grid()
     N_time = property(_get_N_time, _set_N_time)
 
     def _get_T(self):
@@ -183,6 +181,9 @@ class Conductivity(Scattering):
     def reset_time(self):
         # Time parameters
         self.time_max = 8 * self.tau_total_max()  # in picoseconds
+        self.time_grid()
+
+    def time_grid(self):
         self.dtime = self.time_max / self.N_time
         self.time_array = np.arange(0, self.time_max, self.dtime)
         self.dtime_array = np.append(0, self.dtime * np.ones_like(self.time_array))[:-1] # integrand for tau_function
-- 
2.43.0


From 53bfb6f622e26d6284408986581b273ce26af034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:10 +0000
Subject: [PATCH 14/23] fix: the time grid had one step too many for some
 values of N_time

---
 cuprates_transport/conductivity.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cuprates_transport/conductivity.py b/cuprates_transport/conductivity.py
index 96530ff..97b60ce 100644
--- a/cuprates_transport/conductivity.py
+++ b/cuprates_transport/conductivity.py
@@ -185,7 +185,8 @@ class Conductivity(Scattering):
 
     def time_grid(self):
         self.dtime = self.time_max / self.N_time
-        self.time_array = np.arange(0, self.time_max, self.dtime)
+        # not np.arange(0, time_max, dtime), which has one point too many for some N_time
+        self.time_array = self.dtime * np.arange(self.N_time)
         self.dtime_array = np.append(0, self.dtime * np.ones_like(self.time_array))[:-1] # integrand for tau_function
 
     def B_func(self):
-- 
2.43.0


From 4360523920efb4216048616523cadd4a5ae39488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:10 +0000
Subject: [PATCH 15/23] fix: fitted lattice, energy scale, field and
 temperature never reached the simulation

---
 cuprates_transport/fitting_admr_parallel_multiT.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/cuprates_transport/fitting_admr_parallel_multiT.py b/cuprates_transport/fitting_admr_parallel_multiT.py
index 61b2aa0..9223c44 100644
--- a/cuprates_transport/fitting_admr_parallel_multiT.py
+++ b/cuprates_transport/fitting_admr_parallel_multiT.py
@@ -118,8 +118,15 @@ class SimADMR:
         for i, band in enumerate(self.bands_list):
             band_params = self.params_dict[band]["band_params"]
             scattering_params = self.params_dict[band]["scattering_params"]
-            self.admrObject.condObject_list[i].bandObject.band_params =  band_params
-            self.admrObject.condObject_list[i].scattering_params = scattering_params
+            condObject = self.admrObject.condObject_list[i]
+            for name in ["a", "b", "c", "energy_scale"]:
+                if name in self.params_dict[band].keys():
+                    setattr(condObject.bandObject, name, self.params_dict[band][name])
+            for name in ["Bamp", "T"]:
+                if name in self.params_dict[band].keys():
+                    setattr(condObject, name, self.params_dict[band][name])
+            condObject.bandObject.band_params = band_params
+            condObject.scattering_params = scattering_params
 
     def compute_rhozz(self, Btheta_norm=0):
         """Calculate the simulated rhozz from ADMR object"""
-- 
2.43.0


From 20b7052d1d9b571f1958a356420cbd7e99cd84c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:10 +0000
Subject: [PATCH 16/23] fix: single-temperature fits ignored or rejected free
 scattering parameters

---
 cuprates_transport/fitting_admr_parallel_oneT.py | 4 ++++
 cuprates_transport/fitting_admr_series_oneT.py   | 6 ++++++
 2 files changed, 10 insertions(+)

diff --git a/cuprates_transport/fitting_admr_parallel_oneT.py b/cuprates_transport/fitting_admr_parallel_oneT.py
index bff76df..ce9b8fb 100644
--- a/cuprates_transport/fitting_admr_parallel_oneT.py
+++ b/cuprates_transport/fitting_admr_parallel_oneT.py
@@ -161,6 +161,8 @@ class FittingADMRParallel:
                 self.member[pars_name] = self.pars[pars_name]
             elif pars_name in self.member["band_params"].keys():
                 self.member["band_params"][pars_name] = self.pars[pars_name]
+            elif pars_name in self.member["scattering_params"].keys():
+                self.member["scattering_params"][pars_name] = self.pars[pars_name]
 
         ## Compute ADMR ------------------------------------------------------------
         self.generate_admr()
@@ -400,6 +402,8 @@ def fit_admr_parallel(init_member, bounds_dict, data_dict,
             fit_object.member[pars_name] = res.x[i]
         elif pars_name in fit_object.member["band_params"].keys():
             fit_object.member["band_params"][pars_name] = res.x[i]
+        elif pars_name in fit_object.member["scattering_params"].keys():
+            fit_object.member["scattering_params"][pars_name] = res.x[i]
         print(pars_name + " : " + "{0:g}".format(res.x[i]))
     ## Save BEST member to JSON
     fit_object.save_member_to_json(filename=filename)
diff --git a/cuprates_transport/fitting_admr_series_oneT.py b/cuprates_transport/fitting_admr_series_oneT.py
index ef2c0f8..2de2aaa 100644
--- a/cuprates_transport/fitting_admr_series_oneT.py
+++ b/cuprates_transport/fitting_admr_series_oneT.py
@@ -34,6 +34,8 @@ class FittingADMR:
                 self.pars.add(param_name, value = self.init_member[param_name], min = param_range[0], max = param_range[-1])
             elif param_name in self.init_member["band_params"].keys():
                 self.pars.add(param_name, value = self.init_member["band_params"][param_name], min = param_range[0], max = param_range[-1])
+            elif param_name in self.init_member["scattering_params"].keys():
+                self.pars.add(param_name, value = self.init_member["scattering_params"][param_name], min = param_range[0], max = param_range[-1])
         self.method      = method # "shgo", "differential_evolution", "leastsq"
         ## Differential evolution
         self.population  = population
@@ -164,6 +166,8 @@ class FittingADMR:
                 self.member[param_name] = self.pars[param_name].value
             elif param_name in self.init_member["band_params"].keys():
                 self.member["band_params"][param_name] = self.pars[param_name].value
+            elif param_name in self.init_member["scattering_params"].keys():
+                self.member["scattering_params"][param_name] = self.pars[param_name].value
             print(param_name + " : " + "{0:g}".format(self.pars[param_name].value))
 
         ## Compute ADMR ------------------------------------------------------------
@@ -213,6 +217,8 @@ class FittingADMR:
                 self.member[param_name] = out.params[param_name].value
             elif param_name in self.init_member["band_params"].keys():
                 self.member["band_params"][param_name] = out.params[param_name].value
+            elif param_name in self.init_member["scattering_params"].keys():
+                self.member["scattering_params"][param_name] = out.params[param_name].value
 
         ## Save BEST member to JSON
         self.save_member_to_json(filename=filename)
-- 
2.43.0


From 9185fd97d01a673dacb38b3a95a617d0d7cd212a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:29 +0000
Subject: [PATCH 17/23] fix: scattering models get the arguments they declare,
 whatever their local variables are called

---
 cuprates_transport/scattering.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cuprates_transport/scattering.py b/cuprates_transport/scattering.py
index 3804136..9032448 100644
--- a/cuprates_transport/scattering.py
+++ b/cuprates_transport/scattering.py
@@ -249,7 +249,7 @@ class Scattering:
         # Execute each method in scattering_params
         for model in self.scattering_models:
             func = getattr(self, model)
-            func_args = func.__code__.co_varnames
+            func_args = func.__code__.co_varnames[:func.__code__.co_argcount] # without its local variables
             if "epsilon" in func_args:
                 self.gamma_tot += func(epsilon)
             elif "vx" in func_args:
-- 
2.43.0


From 4f63ba789fbdc428a172b063faf6e2e9047c2a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:11 +0000
Subject: [PATCH 18/23] fix: a multi-temperature fit with bounds for "all" only
 uses every temperature, not none

---
 cuprates_transport/fitting_admr_parallel_multiT.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cuprates_transport/fitting_admr_parallel_multiT.py b/cuprates_transport/fitting_admr_parallel_multiT.py
index 9223c44..67dcc3e 100644
--- a/cuprates_transport/fitting_admr_parallel_multiT.py
+++ b/cuprates_transport/fitting_admr_parallel_multiT.py
@@ -149,6 +149,8 @@ class Fitness:
         self.bounds_dict = deepcopy(bounds_dict)
         self.data_dict   = deepcopy(data_dict)
         self.T_list = [T for T in self.bounds_dict.keys() if T!="all"]
+        if not self.T_list: # only "all": every temperature
+            self.T_list = list(self.params_dict.keys())
         self.normalized_data = normalized_data
         ## Create list of free parameters
         self.free_params_labels = []
-- 
2.43.0


From 8efedc23e6d59eb8d64406e525cfef2db78f729f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:25 +0000
Subject: [PATCH 19/23] fix: velocity_func of a band without dispersion along
 one axis failed for scalar wavevectors

---
 cuprates_transport/bandstructure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cuprates_transport/bandstructure.py b/cuprates_transport/bandstructure.py
index 84a4c7f..68e8f9e 100644
--- a/cuprates_transport/bandstructure.py
+++ b/cuprates_transport/bandstructure.py
@@ -171,7 +171,7 @@ class BandStructure:
         k_list = ['kx', 'ky', 'kz']
         for i, v in enumerate(self.v_sym):
             if v == 0:
-                self.v_sym[i] = "numpy.zeros_like(" + k_list[i] + ")"
+                self.v_sym[i] = "0.0 * " + k_list[i] # zeros shaped like k, scalar or array
 
         # Lambdafity //////////////////////////////////////////////////////////
         epsilon_func = sp.lambdify(self.var_sym, self.energy_sym, 'numpy')
-- 
2.43.0


From 5ad6320e3d9c7e446cc7162ab170718f748c8a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:25 +0000
Subject: [PATCH 20/23] fix: velocity_func failed when one velocity component
 is constant and not zero

---
 cuprates_transport/bandstructure.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cuprates_transport/bandstructure.py b/cuprates_transport/bandstructure.py
index 68e8f9e..c46fece 100644
--- a/cuprates_transport/bandstructure.py
+++ b/cuprates_transport/bandstructure.py
@@ -172,6 +172,8 @@ class BandStructure:
         for i, v in enumerate(self.v_sym):
             if v == 0:
                 self.v_sym[i] = "0.0 * " + k_list[i] # zeros shaped like k, scalar or array
+            elif not v.free_symbols & {kx, ky, kz}: # constant: the same value at every k
+                self.v_sym[i] = "(" + str(v) + ") + 0.0 * " + k_list[i]
 
         # Lambdafity //////////////////////////////////////////////////////////
         epsilon_func = sp.lambdify(self.var_sym, self.energy_sym, 'numpy')
-- 
2.43.0


From 20d43671122ba43731a3266818e165700a70453d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:56 +0000
Subject: [PATCH 21/23] fix: saving and plotting the result of a
 single-temperature fit used attributes ADMR does not have, so the fit never
 returned

---
 cuprates_transport/fitting_admr_parallel_oneT.py | 6 +++---
 cuprates_transport/fitting_admr_series_oneT.py   | 8 ++++----
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/cuprates_transport/fitting_admr_parallel_oneT.py b/cuprates_transport/fitting_admr_parallel_oneT.py
index ce9b8fb..eee6f00 100644
--- a/cuprates_transport/fitting_admr_parallel_oneT.py
+++ b/cuprates_transport/fitting_admr_parallel_oneT.py
@@ -319,15 +319,15 @@ class FittingADMRParallel:
             plt.close(fig)
 
         ## Figure Parameters //////////////////////////////////////////////////////#
-        for iniCondObject in self.admrObject.condObject_dict.values():
-            fig_list.append(iniCondObject.figParameters(fig_show=fig_show))
+        for condObject in self.admrObject.condObject_list:
+            fig_list.append(condObject.figParameters(fig_show=fig_show))
 
         ## Save figures list --------------
         if fig_save == True:
             if figname==None:
                 figname = "data_" + \
                 "p" + "{0:.2f}".format(self.member["data_p"]) + "_" + \
-                "T" + "{0:.1f}".format(self.member["data_T"]) + "_fit_" + self.admrObject.fileNameFunc()
+                "T" + "{0:.1f}".format(self.member["data_T"]) + "_fit_" + self.admrObject.file_name_func()
             path = self.folder + "/" + figname + ".pdf"
             file_figures = PdfPages(path)
             for fig in fig_list:
diff --git a/cuprates_transport/fitting_admr_series_oneT.py b/cuprates_transport/fitting_admr_series_oneT.py
index 2de2aaa..30e7d15 100644
--- a/cuprates_transport/fitting_admr_series_oneT.py
+++ b/cuprates_transport/fitting_admr_series_oneT.py
@@ -237,7 +237,7 @@ class FittingADMR:
         if filename==None:
             filename = "data_" + \
             "p" + "{0:.2f}".format(self.member["data_p"]) + "_" + \
-            "T" + "{0:.1f}".format(self.member["data_T"]) + "_fit_" + self.admrObject.fileNameFunc()
+            "T" + "{0:.1f}".format(self.member["data_T"]) + "_fit_" + self.admrObject.file_name_func()
         path = self.folder + "/" + filename + ".json"
         with open(path, 'w') as f:
             json.dump(self.member, f, indent=4)
@@ -355,15 +355,15 @@ class FittingADMR:
             plt.close(fig)
 
         ## Figure Parameters //////////////////////////////////////////////////////#
-        for iniCondObject in self.admrObject.initialCondObjectDict.values():
-            fig_list.append(iniCondObject.figParameters(fig_show=fig_show))
+        for condObject in self.admrObject.condObject_list:
+            fig_list.append(condObject.figParameters(fig_show=fig_show))
 
         ## Save figures list --------------
         if fig_save == True:
             if figname==None:
                 figname = "data_" + \
                 "p" + "{0:.2f}".format(self.member["data_p"]) + "_" + \
-                "T" + "{0:.1f}".format(self.member["data_T"]) + "_fit_" + self.admrObject.fileNameFunc()
+                "T" + "{0:.1f}".format(self.member["data_T"]) + "_fit_" + self.admrObject.file_name_func()
             path = self.folder + "/" + figname + ".pdf"
             file_figures = PdfPages(path)
             for fig in fig_list:
-- 
2.43.0


From d9625eb7063555f13ddcde412b0baa4358ffe9ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:56 +0000
Subject: [PATCH 22/23] fix: a parallel fit with a small percentage of workers
 asked for a pool of zero processes

---
 cuprates_transport/fitting_admr_parallel_multiT.py | 2 +-
 cuprates_transport/fitting_admr_parallel_oneT.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/cuprates_transport/fitting_admr_parallel_multiT.py b/cuprates_transport/fitting_admr_parallel_multiT.py
index 67dcc3e..4970518 100644
--- a/cuprates_transport/fitting_admr_parallel_multiT.py
+++ b/cuprates_transport/fitting_admr_parallel_multiT.py
@@ -337,7 +337,7 @@ def fit_admr_parallel(params_dict, bounds_dict, data_dict,
     ## Initialize workers
     if num_cpu is None:
         num_cpu = cpu_count(logical=False)
-    num_workers = int(percent_workers / 100 * num_cpu)
+    num_workers = max(int(percent_workers / 100 * num_cpu), 1) # at least one worker
     print("# Parallelization | CPU cores: " + str(num_cpu) + " | Workers: " + str(num_workers) )
     ## Initialize counter
     num_member = Value('i', 0)
diff --git a/cuprates_transport/fitting_admr_parallel_oneT.py b/cuprates_transport/fitting_admr_parallel_oneT.py
index eee6f00..a7ca70b 100644
--- a/cuprates_transport/fitting_admr_parallel_oneT.py
+++ b/cuprates_transport/fitting_admr_parallel_oneT.py
@@ -354,7 +354,7 @@ def fit_admr_parallel(init_member, bounds_dict, data_dict,
                 normalized_data=normalized_data)
     if num_cpu is None:
         num_cpu = cpu_count(logical=False)
-    num_workers = int(percent_workers / 100 * num_cpu)
+    num_workers = max(int(percent_workers / 100 * num_cpu), 1) # at least one worker
     print("# cpu cores: " + str(num_cpu))
     print("# workers: " + str(num_workers))
     ## Initialize counter
-- 
2.43.0


From ef8009688ea5b636cdccfdccdf747c923157d0a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:24 +0000
Subject: [PATCH 23/23] fix: band parameters named like Sympy constants or
 functions (E, I, S, beta) keep their meaning

---
 cuprates_transport/bandstructure.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cuprates_transport/bandstructure.py b/cuprates_transport/bandstructure.py
index c46fece..1b27eaa 100644
--- a/cuprates_transport/bandstructure.py
+++ b/cuprates_transport/bandstructure.py
@@ -68,7 +68,8 @@ class BandStructure:
 
         # Create the dispersion and velocity functions
         self.band_model = band_model
-        self.energy_sym = sp.sympify(band_model)
+        # a parameter may be called E, I, S, beta, ..., which mean something else to Sympy
+        self.energy_sym = sp.sympify(band_model, locals={name: sp.Symbol(name) for name in self._band_params})
         self.energy_velocity_definition()
 
         # Discretization
-- 
2.43.0

