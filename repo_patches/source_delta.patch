From 6a7e94b04d8a78c73fa24c0f4db84d7a04b92c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:34 +0000
Subject: [PATCH 001/169] fix: accept numpy arrays as box_dims in the power
 spectrum routines

---
 src/tools21cm/power_spectrum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/power_spectrum.py b/src/tools21cm/power_spectrum.py
index 2faaa86..ce7fa22 100755
--- a/src/tools21cm/power_spectrum.py
+++ b/src/tools21cm/power_spectrum.py
@@ -527,7 +527,7 @@ def _get_dims(box_dims, ashape):
         size
         Otherwise, return as it is
         '''
-        if box_dims == None:
+        if box_dims is None:
                 return [conv.LB]*len(ashape)
         if not hasattr(box_dims, '__iter__'):
                 return [box_dims]*len(ashape)
-- 
2.43.0


From 742a633e837a0a199fbf6d9323aa357e0fa38bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:34 +0000
Subject: [PATCH 002/169] fix: apply_window takes array windows and leaves the
 caller's data unchanged

---
 src/tools21cm/power_spectrum.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/tools21cm/power_spectrum.py b/src/tools21cm/power_spectrum.py
index ce7fa22..775d3c5 100755
--- a/src/tools21cm/power_spectrum.py
+++ b/src/tools21cm/power_spectrum.py
@@ -12,12 +12,14 @@ from scipy import fftpack, stats
 def apply_window(input_array, window):
     if window is None: return input_array
     from scipy.signal import windows
+    if not isinstance(window, str):
+            return input_array * window
     if window.lower()=='blackmanharris':
-            input_array *= windows.blackmanharris(input_array.shape[-1])[None,None,:]
+            input_array = input_array * windows.blackmanharris(input_array.shape[-1])[None,None,:]
     elif window.lower()=='tukey':
-            input_array *= windows.tukey(input_array.shape[-1])[None,None,:]
+            input_array = input_array * windows.tukey(input_array.shape[-1])[None,None,:]
     else:
-            input_array *= window
+            raise ValueError('Unknown window: %s' % window)
     return input_array
 
 
-- 
2.43.0


From 38901f29ea0154b84fb4107e6c97fb2cc8784d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:34 +0000
Subject: [PATCH 003/169] fix: place k=0 on the zero-frequency cell of even 1D
 and 2D grids

---
 src/tools21cm/power_spectrum.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tools21cm/power_spectrum.py b/src/tools21cm/power_spectrum.py
index 775d3c5..410cefb 100755
--- a/src/tools21cm/power_spectrum.py
+++ b/src/tools21cm/power_spectrum.py
@@ -457,12 +457,12 @@ def _get_k(input_array, box_dims):
     dim = len(input_array.shape)
     if dim == 1:
         x = np.arange(len(input_array))
-        center = x.max()/2.
+        center = len(input_array)//2
         kx = 2.*np.pi*(x-center)/box_dims[0]
         return [kx], kx
     elif dim == 2:
         x,y = np.indices(input_array.shape, dtype='int32')
-        center = np.array([(x.max()-x.min())/2, (y.max()-y.min())/2])
+        center = np.array([input_array.shape[0]//2, input_array.shape[1]//2])
         kx = 2.*np.pi * (x-center[0])/box_dims[0]
         ky = 2.*np.pi * (y-center[1])/box_dims[1]
         k = np.sqrt(kx**2 + ky**2)
-- 
2.43.0


From 172126c74941f1ac1d808f63fdc6c729e1f830bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:34 +0000
Subject: [PATCH 004/169] fix: accept lists of bin edges in the power spectrum
 routines

---
 src/tools21cm/power_spectrum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/power_spectrum.py b/src/tools21cm/power_spectrum.py
index 410cefb..30edcce 100755
--- a/src/tools21cm/power_spectrum.py
+++ b/src/tools21cm/power_spectrum.py
@@ -518,7 +518,7 @@ def _get_kbins(kbins, box_dims, k, binning='log', breakpoint=0.1, kmin=None, kma
                         kbins_low  = np.linspace(kmin, kmax, kbins+1)
                         kbins_high = 10**np.linspace(np.log10(kmin), np.log10(kmax), kbins+1)
                         kbins = np.hstack((kbins_low[kbins_low<breakpoint],kbins_high[kbins_high>breakpoint]))          
-        return kbins
+        return np.asarray(kbins)
 
 
 def _get_dims(box_dims, ashape):
-- 
2.43.0


From e1aed0c45722cda66b2e0cf1009173180de9c7cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:34 +0000
Subject: [PATCH 005/169] fix: keep dimensionless_ps inside its interpolation
 range despite rounding

---
 src/tools21cm/power_spectrum.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tools21cm/power_spectrum.py b/src/tools21cm/power_spectrum.py
index 30edcce..5524510 100755
--- a/src/tools21cm/power_spectrum.py
+++ b/src/tools21cm/power_spectrum.py
@@ -560,6 +560,7 @@ def dimensionless_ps(data, kbins=100, box_dims=None, binning='log', factor=10):
         Pk, ks = power_spectrum_1d(data, kbins=kbins*factor, box_dims=box_dims, binning=binning)
         f_Dlta = interp1d(ks, Pk*ks**3/2/np.pi**2)
         knew   = 10**np.linspace(np.log10(ks[1]),np.log10(ks[-1]), kbins) if binning=='log' else np.linspace(ks[1],ks[-1], kbins)
+        knew   = np.clip(knew, ks[1], ks[-1]) #rounding must not leave the interpolation range
         return f_Dlta(knew), knew
 
 def _get_nonzero_idx(ps_shape, los_axis):
-- 
2.43.0


From f3b8916321a0ac3b3b2b635a5c59af1a9af5f664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:34 +0000
Subject: [PATCH 006/169] fix: exclude k_perp=0 modes on odd grids too

---
 src/tools21cm/power_spectrum.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tools21cm/power_spectrum.py b/src/tools21cm/power_spectrum.py
index 5524510..73597c5 100755
--- a/src/tools21cm/power_spectrum.py
+++ b/src/tools21cm/power_spectrum.py
@@ -569,11 +569,11 @@ def _get_nonzero_idx(ps_shape, los_axis):
         '''
         x,y,z = np.indices(ps_shape)
         if los_axis == 0:
-                zero_idx = (y == ps_shape[1]/2)*(z == ps_shape[2]/2)
+                zero_idx = (y == ps_shape[1]//2)*(z == ps_shape[2]//2)
         elif los_axis == 1:
-                zero_idx = (x == ps_shape[0]/2)*(z == ps_shape[2]/2)
+                zero_idx = (x == ps_shape[0]//2)*(z == ps_shape[2]//2)
         else:
-                zero_idx = (x == ps_shape[0]/2)*(y == ps_shape[1]/2)
+                zero_idx = (x == ps_shape[0]//2)*(y == ps_shape[1]//2)
         good_idx = np.invert(zero_idx)
         return good_idx
 
-- 
2.43.0


From 3e6cfe7b3bbb90e759a3eb127010c4b74c447acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:52 +0000
Subject: [PATCH 007/169] fix: use |k| for 1D fields so that negative-k modes
 are binned

---
 src/tools21cm/power_spectrum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/power_spectrum.py b/src/tools21cm/power_spectrum.py
index 73597c5..a363f96 100755
--- a/src/tools21cm/power_spectrum.py
+++ b/src/tools21cm/power_spectrum.py
@@ -459,7 +459,7 @@ def _get_k(input_array, box_dims):
         x = np.arange(len(input_array))
         center = len(input_array)//2
         kx = 2.*np.pi*(x-center)/box_dims[0]
-        return [kx], kx
+        return [kx], np.abs(kx)
     elif dim == 2:
         x,y = np.indices(input_array.shape, dtype='int32')
         center = np.array([input_array.shape[0]//2, input_array.shape[1]//2])
-- 
2.43.0


From 65c5cd57875da5e308ed2e27b9c274a61543cd21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:26 +0000
Subject: [PATCH 008/169] fix: power_spectrum_2d takes a list with the numbers
 of bins, as documented

---
 src/tools21cm/power_spectrum.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/tools21cm/power_spectrum.py b/src/tools21cm/power_spectrum.py
index a363f96..4ce9923 100755
--- a/src/tools21cm/power_spectrum.py
+++ b/src/tools21cm/power_spectrum.py
@@ -209,11 +209,9 @@ def power_spectrum_2d(input_array, kbins=10, binning='log', box_dims=244/.7, ret
         '''
         input_array = apply_window(input_array, window)
         
-        if type(kbins) == list:
-                binning = None
-        elif np.array(kbins).size==1: 
+        if not hasattr(kbins, '__len__'):
                 kbins = [kbins, kbins]
-        elif not isinstance(kbins[0], int): 
+        elif np.ndim(kbins[0])>0 or np.ndim(kbins[1])>0:
                 binning = None
 
         if kwargs.get('boxsize') is not None: box_dims = kwargs.get('boxsize')
-- 
2.43.0


From 5348d156365546712582c19077137ea3ad29914e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:26 +0000
Subject: [PATCH 009/169] fix: accept weight arrays in the mu-binned power
 spectra

---
 src/tools21cm/power_spectrum.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tools21cm/power_spectrum.py b/src/tools21cm/power_spectrum.py
index 4ce9923..411db31 100755
--- a/src/tools21cm/power_spectrum.py
+++ b/src/tools21cm/power_spectrum.py
@@ -383,7 +383,7 @@ def mu_binning(powerspectrum, los_axis = 0, mubins=20, kbins=10, box_dims=None,
         This function is for internal use only.
         '''
         
-        if weights != None:
+        if weights is not None:
                 powerspectrum *= weights
 
         assert(len(powerspectrum.shape)==3)
@@ -429,7 +429,7 @@ def mu_binning(powerspectrum, los_axis = 0, mubins=20, kbins=10, box_dims=None,
                         idx = (mu >= mu_min) & (mu < mu_max) & kidx.astype(bool)
                         outdata[i,ki] = np.mean(powerspectrum[idx])
                         n_modes[i,ki] = np.size(powerspectrum[idx])
-                        if weights != None:
+                        if weights is not None:
                                 outdata[i,ki] /= weights[idx].mean()
 
         return outdata, mubins[:-1]+dmu, kbins[:-1]+dk, n_modes
-- 
2.43.0


From 733bc3c02f0e3456501d31fcc12410d0bdfbb768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:26 +0000
Subject: [PATCH 010/169] fix: make power_spectrum_multipoles run and count its
 modes

---
 src/tools21cm/power_legendre.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/tools21cm/power_legendre.py b/src/tools21cm/power_legendre.py
index d3fc984..e64a9f9 100755
--- a/src/tools21cm/power_legendre.py
+++ b/src/tools21cm/power_legendre.py
@@ -44,13 +44,13 @@ def power_spectrum_multipoles(input_array, kbins = 10, box_dims = None,\
     k_comp, k = _get_k(input_array, box_dims)
     kbins = _get_kbins(kbins, box_dims, k)
     dk = (kbins[1:]-kbins[:-1])/2.
-    mu = _get_mu(k_comp, k, los_axis)
+    mu = _get_mu(k_comp, k, los_axis, absolute_mus=True)
     
     #Exclude k_perp = 0 modes
     if exclude_zero_modes:
         good_idx = _get_nonzero_idx(ps.shape, los_axis)
     else:
-        good_idx = np.ones_like(ps)
+        good_idx = np.ones_like(ps, dtype=bool)
 
     #Legendre polynomials
     if 'P0' in output:
@@ -75,9 +75,8 @@ def power_spectrum_multipoles(input_array, kbins = 10, box_dims = None,\
     for i in range(n_kbins):
         kmin = kbins[i]
         kmax = kbins[i+1]
-        idx = get_eval()('(k >= kmin) & (k < kmax)')
-        idx *= good_idx
-        nmodes[i] = len(np.nonzero(idx))
+        idx = (k >= kmin) & (k < kmax) & good_idx
+        nmodes[i] = np.count_nonzero(idx)
         if 'P0' in output:
             multipoles['P0'][i] = np.sum(ps[idx]*P0[idx])/np.sum(P0[idx]**2)
         if 'P2' in output:
-- 
2.43.0


From 3549ec46354e7c3f60b51707076b55a0e30b1c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:03 +0000
Subject: [PATCH 011/169] fix: cosmology calculators keep fractions for integer
 input

---
 src/tools21cm/cosmo.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tools21cm/cosmo.py b/src/tools21cm/cosmo.py
index 1c836b9..84671b2 100755
--- a/src/tools21cm/cosmo.py
+++ b/src/tools21cm/cosmo.py
@@ -138,7 +138,7 @@ def z_to_cdist(z):
         Comoving distance in Mpc
     '''
     z = np.atleast_1d(z)
-    dist = np.zeros_like(z)
+    dist = np.zeros(z.shape)
     for i in range(len(z)):
         Ez_func = lambda x: 1./np.sqrt(const.Omega0*(1.+x)**3+const.lam)
         dist[i] = const.c/const.H0 * quad(Ez_func, 0, z[i])[0]
@@ -160,7 +160,7 @@ def cdist_to_z(dist):
         
     '''
     dist = np.atleast_1d(dist)
-    z = np.zeros_like(dist)
+    z = np.zeros(dist.shape)
     func        = interp1d(precalc_table_cdist, precalc_table_z, kind='cubic', bounds_error=False, fill_value="extrapolate")
     z_min_guess = func(dist)-1 if type(dist)==float else func(dist.min())-1
     z_max_guess = func(dist)+1 if type(dist)==float else func(dist.max())+1
@@ -183,7 +183,7 @@ def z_to_age(z):
     '''
     z = np.atleast_1d(z)
     a = 1/(1+z)
-    tage = np.zeros_like(z)
+    tage = np.zeros(z.shape)
     for i in range(len(a)):
         Ea_func = lambda x: 1./x/np.sqrt(const.Omega0*x**-3+const.lam)
         tage[i] = 1/const.H0 * quad(Ea_func, 0, a[i])[0]
-- 
2.43.0


From e6b92dbdab2c8c8988bd3bf0ca091d09a4507e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:25 +0000
Subject: [PATCH 012/169] fix: cdist_to_z tabulates the configured cosmology

---
 src/tools21cm/cosmo.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/tools21cm/cosmo.py b/src/tools21cm/cosmo.py
index 84671b2..c4975ed 100755
--- a/src/tools21cm/cosmo.py
+++ b/src/tools21cm/cosmo.py
@@ -161,11 +161,7 @@ def cdist_to_z(dist):
     '''
     dist = np.atleast_1d(dist)
     z = np.zeros(dist.shape)
-    func        = interp1d(precalc_table_cdist, precalc_table_z, kind='cubic', bounds_error=False, fill_value="extrapolate")
-    z_min_guess = func(dist)-1 if type(dist)==float else func(dist.min())-1
-    z_max_guess = func(dist)+1 if type(dist)==float else func(dist.max())+1
-    table_z     = precalc_table_z[precalc_table_z>z_min_guess]
-    table_z     = table_z[table_z<z_max_guess]
+    table_z     = precalc_table_z
     table_cdist = z_to_cdist(table_z)
     func = interp1d(table_cdist, table_z, kind='cubic', bounds_error=False, fill_value="extrapolate")
     for i in range(len(dist)):
-- 
2.43.0


From 59069b0777b51711452fb5f776eed839d95bdbcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:35 +0000
Subject: [PATCH 013/169] fix: refuse an unsupported box size before changing
 the current one

---
 src/tools21cm/conv.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tools21cm/conv.py b/src/tools21cm/conv.py
index ac939b4..9cec3e3 100755
--- a/src/tools21cm/conv.py
+++ b/src/tools21cm/conv.py
@@ -31,6 +31,10 @@ def set_sim_constants(boxsize_cMpc):
 	'''
 	global boxsize, LB, nbox_fine, M_box, M_grid, lscale, tscale, velconvert
 
+	supported = [425., 114., 64., 37., 500., 244., 47., 200.]
+	if not any(hf.flt_comp(boxsize_cMpc, supp) for supp in supported):
+		raise Exception('Invalid boxsize (%.3f cMpc)' % boxsize_cMpc)
+
 	boxsize = boxsize_cMpc
 	LB = boxsize/const.h	
 	if hf.flt_comp(boxsize, 425.):
-- 
2.43.0


From 657378040c20695cc95867141656768e555a2f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:35 +0000
Subject: [PATCH 014/169] fix: cosmology setters update the constants derived
 from them

---
 src/tools21cm/const.py | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/tools21cm/const.py b/src/tools21cm/const.py
index 810a56c..79997a1 100755
--- a/src/tools21cm/const.py
+++ b/src/tools21cm/const.py
@@ -27,6 +27,7 @@ def set_abundance_helium(value):
 	global abu_he_mass, abu_h_mass
 	abu_he_mass = value
 	abu_h_mass = 1.0-abu_he_mass
+	_update_derived()
 
 mean_molecular = 1.0/(1.0-abu_he_mass)
 solar_masses_per_gram = 5.02785431e-34
@@ -51,6 +52,7 @@ def set_hubble_h(value):
 	global h, H0
 	h  = value 
 	H0 = 100.0*h
+	_update_derived()
 
 def set_omega_matter(value): 
 	'''
@@ -60,6 +62,7 @@ def set_omega_matter(value):
 	Omega0 = value
 	lam = 1.0-Omega0
 	q0 = 0.5*Omega0 - lam
+	_update_derived()
 	# print(Omega0, q0)
 
 def set_omega_baryon(value):
@@ -68,14 +71,16 @@ def set_omega_baryon(value):
 	'''
 	global OmegaB
 	OmegaB = value 
+	_update_derived()
 
 def set_omega_lambda(value):
 	'''
 	Define new omega lambda value.
 	'''
-	global lam
+	global lam, OmegaL, q0
 	lam = value 
 	OmegaL = value
+	q0 = 0.5*Omega0 - lam
 
 def set_ns(value):
 	'''
@@ -109,3 +114,15 @@ lambda0 = c*1.0e5/(nu0*1.0e6) # cm
 num_h_0=(1-abu_he_mass)*OmegaB*rho_crit_0/m_p
 # meandt = 2.9*0.043/0.04
 meandt = 3.0*lambda0**3/(32.*np.pi)*A10*Tstar*num_h_0/(H0cgs/h)*1000.
+
+def _update_derived():
+	'''
+	Recompute the quantities above that follow from the settings.
+	'''
+	global mean_molecular, H0cgs, rho_crit_0, rho_matter, num_h_0, meandt
+	mean_molecular = 1.0/(1.0-abu_he_mass)
+	H0cgs = H0*1e5/Mpc
+	rho_crit_0 = 3.0*H0cgs*H0cgs/(8.0*np.pi*G_grav)
+	rho_matter = rho_crit_0*Omega0
+	num_h_0=(1-abu_he_mass)*OmegaB*rho_crit_0/m_p
+	meandt = 3.0*lambda0**3/(32.*np.pi)*A10*Tstar*num_h_0/(H0cgs/h)*1000.
-- 
2.43.0


From 4c343bc990dbbef410ef07d2a595f3f3c23d3f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:48 +0000
Subject: [PATCH 015/169] fix: DensityFile can write a density given in g/cm^3

---
 src/tools21cm/density_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/density_file.py b/src/tools21cm/density_file.py
index 305b9d6..b653c35 100755
--- a/src/tools21cm/density_file.py
+++ b/src/tools21cm/density_file.py
@@ -95,7 +95,7 @@ class DensityFile:
 			self.cgs_density = cgs_density
 			self.mesh_x, self.mesh_y, self.mesh_z = self.cgs_density.shape
 			conv_factor = const.rho_crit_0*(float(self.mesh_x)/float(conv.nbox_fine))**3*const.OmegaB
-			self.raw_density = cgs_density/self.conv_factor
+			self.raw_density = cgs_density/conv_factor
 		else:
 			pass 
 
-- 
2.43.0


From e86d2397fe2bffb9f1b53ddc97063c71bcbbe83a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:31 +0000
Subject: [PATCH 016/169] fix: step interpolation switches midway between the
 two snapshots

---
 src/tools21cm/lightcone.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/lightcone.py b/src/tools21cm/lightcone.py
index 4ad32fa..0322193 100755
--- a/src/tools21cm/lightcone.py
+++ b/src/tools21cm/lightcone.py
@@ -440,7 +440,7 @@ def _get_interp_slice(data_high, data_low, z_bracket_high, z_bracket_low, z, \
         slice_interp = ((z-z_bracket_low)*slice_high + \
                     (z_bracket_high - z)*slice_low)/(z_bracket_high-z_bracket_low)
     elif interpolation == 'step':
-        transition_z = (z_bracket_high-z_bracket_low)/2.
+        transition_z = (z_bracket_high+z_bracket_low)/2.
         if z < transition_z:
             slice_interp = slice_low.copy()
         else:
-- 
2.43.0


From be554aae1be33aef6c955d3aadda549ee07266ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:31 +0000
Subject: [PATCH 017/169] fix: light-cone rereads the low snapshot when a
 snapshot interval was skipped

---
 src/tools21cm/lightcone.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/lightcone.py b/src/tools21cm/lightcone.py
index 0322193..16feae0 100755
--- a/src/tools21cm/lightcone.py
+++ b/src/tools21cm/lightcone.py
@@ -129,7 +129,7 @@ def make_lightcone(filenames, z_low = None, z_high = None, depth_mhz = None, fil
         if z_bracket_low_new != z_bracket_low:
             z_bracket_low = z_bracket_low_new
             file_idx = np.argmin(np.abs(file_redshifts - z_bracket_low))
-            if data_high is None:
+            if z_bracket_low != z_bracket_high:
                 if reading_function is None: data_low, datatype = get_data_and_type(filenames[file_idx], cbin_bits, cbin_order, raw_density)
                 else: data_low = reading_function(filenames[file_idx])#; print('yes')
             else: #No need to read the file again
-- 
2.43.0


From ffe1939834f695453375358315be93dafda12698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:31 +0000
Subject: [PATCH 018/169] fix: light-cones accept lists of redshifts and
 directory or text file names

---
 src/tools21cm/lightcone.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/tools21cm/lightcone.py b/src/tools21cm/lightcone.py
index 16feae0..7ea7689 100755
--- a/src/tools21cm/lightcone.py
+++ b/src/tools21cm/lightcone.py
@@ -105,6 +105,7 @@ def make_lightcone(filenames, z_low = None, z_high = None, depth_mhz = None, fil
         assert file_redshifts is not None
         mesh_size = reading_function(filenames[0]).shape
 
+    file_redshifts = np.asarray(file_redshifts)
     assert len(file_redshifts) == len(filenames)
     
     output_z = _get_output_z(file_redshifts, z_low, z_high, mesh_size[0], box_length_mpc=box_length_mpc, dnu=depth_mhz)
@@ -522,7 +523,7 @@ def _get_filenames(filenames_in):
     If it is a text file, read the list of files from the file
     '''
     
-    if hasattr(filenames_in, '__iter__'):
+    if hasattr(filenames_in, '__iter__') and not isinstance(filenames_in, str):
         filenames_out = filenames_in
     elif os.path.isdir(filenames_in):
         files_in_dir = glob.glob(filenames_in + '/*')
@@ -548,8 +549,8 @@ def _get_file_redshifts(redshifts_in, filenames):
     Else, return as is
     '''
     
-    if hasattr(redshifts_in, '__iter__'):
-        redshifts_out = redshifts_in
+    if hasattr(redshifts_in, '__iter__') and not isinstance(redshifts_in, str):
+        redshifts_out = np.asarray(redshifts_in)
     elif redshifts_in is None:
         redshifts_out = [determine_redshift_from_filename(f) for f in filenames]
         redshifts_out = np.array(redshifts_out)
-- 
2.43.0


From f8a49ec182c00f96d773248f15ba40432ae63098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:31 +0000
Subject: [PATCH 019/169] fix: light-cones may end at the highest snapshot

---
 src/tools21cm/lightcone.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/tools21cm/lightcone.py b/src/tools21cm/lightcone.py
index 7ea7689..e302b37 100755
--- a/src/tools21cm/lightcone.py
+++ b/src/tools21cm/lightcone.py
@@ -123,8 +123,7 @@ def make_lightcone(filenames, z_low = None, z_high = None, depth_mhz = None, fil
     time.sleep(1)
     for ii in tqdm(range(len(output_z))):
         z = output_z[ii]
-        z_bracket_low_new = file_redshifts[file_redshifts <= z].max()
-        z_bracket_high_new = file_redshifts[file_redshifts > z].min()
+        z_bracket_low_new, z_bracket_high_new = _get_bracket(file_redshifts, z)
         
         #Do we need a new file for the low z?
         if z_bracket_low_new != z_bracket_low:
@@ -242,8 +241,7 @@ def make_velocity_lightcone(vel_filenames, dens_filenames, z_low = None, \
     time.sleep(1)
     for ii in tqdm(range(len(output_z))):
         z = output_z[ii]
-        z_bracket_low_new = file_redshifts[file_redshifts <= z].max()
-        z_bracket_high_new = file_redshifts[file_redshifts > z].min()
+        z_bracket_low_new, z_bracket_high_new = _get_bracket(file_redshifts, z)
         
         if z_bracket_low_new != z_bracket_low:
             z_bracket_low = z_bracket_low_new
@@ -429,6 +427,19 @@ def get_lightcone_subvolume(lightcone, redshifts, central_z, \
     return subbox, box_dims, redshifts[low_n:high_n]
 
 
+def _get_bracket(file_redshifts, z):
+    '''
+    Find the redshifts of the two snapshots around z. For internal use.
+    '''
+    z_low = file_redshifts[file_redshifts <= z].max()
+    if z_low < file_redshifts.max():
+        z_high = file_redshifts[file_redshifts > z].min()
+    else: #The last snapshot closes the interval below it
+        z_high = z_low
+        z_low = file_redshifts[file_redshifts < z_high].max()
+    return z_low, z_high
+
+
 def _get_interp_slice(data_high, data_low, z_bracket_high, z_bracket_low, z, \
                       comoving_pos_idx, los_axis, interpolation='linear'):
     '''
-- 
2.43.0


From 8e7df8d2d75619b98def397348c8182daabab298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:55 +0000
Subject: [PATCH 020/169] fix: step_cell interpolation of slices that do not
 change

---
 src/tools21cm/lightcone.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tools21cm/lightcone.py b/src/tools21cm/lightcone.py
index e302b37..ebbd187 100755
--- a/src/tools21cm/lightcone.py
+++ b/src/tools21cm/lightcone.py
@@ -477,7 +477,9 @@ def _get_step_weighted_slice(slice_low, slice_high, z_bracket_high, z_bracket_lo
     '''
     smoothed = smoothing.smooth_gauss(slice_high, sigma=4.) 
     diff = np.abs(slice_high-slice_low)
-    
+    if not np.any(diff>1.e-3): #No transitions to place
+        return slice_high.copy()
+
     #smoothed=1 means early transition. smoothed=0 means late
     #smoothed -= changed_cells.min()
     #smoothed /= (changed_cells.max()-changed_cells.min())
-- 
2.43.0


From 5d34419a8606c08ae9fc32810890bf18a1c3ebf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:10 +0000
Subject: [PATCH 021/169] fix: get_lightcone_subvolume may end at the last
 slice

---
 src/tools21cm/lightcone.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/lightcone.py b/src/tools21cm/lightcone.py
index ebbd187..c49e76f 100755
--- a/src/tools21cm/lightcone.py
+++ b/src/tools21cm/lightcone.py
@@ -418,7 +418,7 @@ def get_lightcone_subvolume(lightcone, redshifts, central_z, \
     box_depth = max_cdist-min_cdist
     box_dims = (fov_Mpc, fov_Mpc, box_depth)
     if(verbose): 
-        print('Slice redshift: %.3f %.3f' %(redshifts[low_n], redshifts[high_n]))
+        print('Slice redshift: %.3f %.3f' %(redshifts[low_n], redshifts[high_n-1]))
         print('Slice frequencies (MHz): %.1f %.1f' %(min_freq, max_freq))
         print('Slice comoving distances (cMpc): %.2f %.2f' %(min_cdist, max_cdist))
         print('Slice indices:', low_n, high_n)
-- 
2.43.0


From 4321eacf78f657d4870e68a3bdf48ba09eb1b2ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:49 +0000
Subject: [PATCH 022/169] fix: centre odd-sized kernels in the circular FFT
 convolution

---
 src/tools21cm/fft_functions.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tools21cm/fft_functions.py b/src/tools21cm/fft_functions.py
index 11b752c..d5758b5 100644
--- a/src/tools21cm/fft_functions.py
+++ b/src/tools21cm/fft_functions.py
@@ -107,7 +107,7 @@ def fftconvolve(in1, in2, mode='same', boundary='circular', backend='numpy', dev
             ret = torch_fft.ifftn(f1 * f2, s=fsize, dim=calc_axes)
 
         if boundary == 'circular':
-            return torch.roll(ret, shifts=tuple((-s2 // 2).tolist()), dims=calc_axes)
+            return torch.roll(ret, shifts=tuple((-(s2 // 2)).tolist()), dims=calc_axes)
 
     # --- 3. JAX Backend ---
     elif backend == 'jax':
@@ -132,7 +132,7 @@ def fftconvolve(in1, in2, mode='same', boundary='circular', backend='numpy', dev
             ret = jnp.fft.ifftn(f1 * f2, s=fsize, axes=calc_axes)
 
         if boundary == 'circular':
-            return jnp.roll(ret, shift=tuple((-s2 // 2).tolist()), axis=calc_axes)
+            return jnp.roll(ret, shift=tuple((-(s2 // 2)).tolist()), axis=calc_axes)
 
     # --- 4. NumPy Backend ---
     elif backend == 'numpy':
@@ -154,7 +154,7 @@ def fftconvolve(in1, in2, mode='same', boundary='circular', backend='numpy', dev
             ret = np.fft.ifftn(f1 * f2, s=fsize, axes=calc_axes)
 
         if boundary == 'circular':
-            return np.roll(ret, shift=tuple((-s2 // 2).tolist()), axis=calc_axes)
+            return np.roll(ret, shift=tuple((-(s2 // 2)).tolist()), axis=calc_axes)
 
     # --- 5. Cropping Logic (Applies to all backends) ---
     if do_pad:
-- 
2.43.0


From c66c4fab9bab55f89894ecea8f2de30a0d9e7ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:49 +0000
Subject: [PATCH 023/169] fix: tophat kernels wider than the array cover all of
 it

---
 src/tools21cm/smoothing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tools21cm/smoothing.py b/src/tools21cm/smoothing.py
index 2a5e27b..394ebba 100755
--- a/src/tools21cm/smoothing.py
+++ b/src/tools21cm/smoothing.py
@@ -98,7 +98,7 @@ def tophat_kernel(size, tophat_width):
         '''
         kernel   = np.zeros((size,size))
         center   = kernel.shape[0]/2
-        idx_low  = int(center-np.floor(tophat_width/2.))
+        idx_low  = max(int(center-np.floor(tophat_width/2.)), 0)
         idx_high = int(center+np.ceil(tophat_width/2.))
         kernel[idx_low:idx_high, idx_low:idx_high] = 1.
         kernel /= np.sum(kernel)
@@ -122,7 +122,7 @@ def tophat_kernel_3d(size, tophat_width, shape="cube"):
         kernel = np.zeros((size, size, size))
         if shape == "cube":
                 center   = kernel.shape[0]/2 
-                idx_low  = int(center-np.floor(tophat_width/2.))
+                idx_low  = max(int(center-np.floor(tophat_width/2.)), 0)
                 idx_high = int(center+np.ceil(tophat_width/2.))
                 kernel[idx_low:idx_high, idx_low:idx_high, idx_low:idx_high ] = 1.
         else:
-- 
2.43.0


From 09dbea9c5a28c9006ad725797e8671cfd58740f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:49 +0000
Subject: [PATCH 024/169] fix: smooth_tophat treats even-sized arrays as
 periodic too

---
 src/tools21cm/smoothing.py | 9 ---------
 1 file changed, 9 deletions(-)

diff --git a/src/tools21cm/smoothing.py b/src/tools21cm/smoothing.py
index 394ebba..88af97b 100755
--- a/src/tools21cm/smoothing.py
+++ b/src/tools21cm/smoothing.py
@@ -197,15 +197,6 @@ def smooth_tophat(input_array, tophat_width):
                 The smoothed array. A numpy array with the same
                 dimensions as the input.
         '''
-        #For some reason fftconvolve works produces edge effects with
-        #an even number of cells, so we pad the array with an extra pixel
-        #if this is the case
-        if input_array.shape[0] % 2 == 0:
-                from .angular_coordinates import _get_padded_slice
-                padded = _get_padded_slice(input_array, input_array.shape[0]+1)
-                out = smooth_tophat(padded, tophat_width)
-                return out[:-1,:-1]
-        
         kernel = tophat_kernel(input_array.shape[0], tophat_width)
         return smooth_with_kernel(input_array, kernel)
 
-- 
2.43.0


From 0db824678f0c248d61ad9a8a57b26e5bf2a62bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:49 +0000
Subject: [PATCH 025/169] fix: smooth_coeval_tophat filters only along the
 frequency axis

---
 src/tools21cm/smoothing.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/tools21cm/smoothing.py b/src/tools21cm/smoothing.py
index 88af97b..39ea7bf 100755
--- a/src/tools21cm/smoothing.py
+++ b/src/tools21cm/smoothing.py
@@ -405,12 +405,14 @@ def smooth_coeval_tophat(cube, width, nu_axis, verbose=True):
         Returns:
                 Smoothed_cube
         """
-        kernel = tophat_kernel(cube.shape[nu_axis], width)
+        #The filter only extends along the frequency axis
+        kernel = tophat_kernel(cube.shape[nu_axis], width).sum(axis=0)
         output_cube = np.zeros(cube.shape)
         if nu_axis==0:
                 for i in tqdm(range(cube.shape[1]), disable=False if verbose else True):
-                        output_cube[:,i,:] = smooth_with_kernel(cube[:,i,:], kernel)
+                        output_cube[:,i,:] = smooth_with_kernel(cube[:,i,:], kernel[:,np.newaxis])
         else:
+                kernel = kernel[:,np.newaxis] if nu_axis==1 else kernel[np.newaxis,:]
                 for i in tqdm(range(cube.shape[0]), disable=False if verbose else True):
                         output_cube[i,:,:] = smooth_with_kernel(cube[i,:,:], kernel)
         return output_cube
-- 
2.43.0


From 48a924462630d4c199aa7ba72f9aab55f3e55be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:49 +0000
Subject: [PATCH 026/169] fix: smooth_lightcone accepts the lowest redshift, as
 documented

---
 src/tools21cm/smoothing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/smoothing.py b/src/tools21cm/smoothing.py
index 39ea7bf..3fd6487 100755
--- a/src/tools21cm/smoothing.py
+++ b/src/tools21cm/smoothing.py
@@ -339,7 +339,7 @@ def smooth_lightcone(lightcone, z_array, box_size_mpc=False, max_baseline=2., ra
                 (Smoothed_lightcone, redshifts) 
         """
         if (not box_size_mpc): box_size_mpc=conv.LB
-        if(z_array.shape[0] == lightcone.shape[2]):
+        if(np.size(z_array) == lightcone.shape[2]):
                 input_redshifts = z_array.copy()
         else:
                 z_low = z_array
-- 
2.43.0


From c2236053a8cb4692c81b5bc593a5b3e7abf6957d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:49 +0000
Subject: [PATCH 027/169] fix: smooth_lightcone_uv_threshold raises on an
 invalid threshold

---
 src/tools21cm/smoothing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/smoothing.py b/src/tools21cm/smoothing.py
index 3fd6487..09baeb0 100755
--- a/src/tools21cm/smoothing.py
+++ b/src/tools21cm/smoothing.py
@@ -488,7 +488,7 @@ def smooth_lightcone_uv_threshold(lightcone, uv_box, threshold=0.0):
                 Smoothed lightcone.
         """
         if not isinstance(threshold, float) or threshold < 0.0:
-                return ValueError("Threshold value should be a positive float.")
+                raise ValueError("Threshold value should be a positive float.")
         
         lightcone = np.fft.fft2(lightcone, axes = (0, 1))
         uv_bool = uv_box < threshold
-- 
2.43.0


From dd4159e5dec0653fad090086e811b0b474170a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:49 +0000
Subject: [PATCH 028/169] fix: normalise the hamming and hanning windows of
 smooth_line

---
 src/tools21cm/smoothing.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tools21cm/smoothing.py b/src/tools21cm/smoothing.py
index 09baeb0..ca06687 100755
--- a/src/tools21cm/smoothing.py
+++ b/src/tools21cm/smoothing.py
@@ -636,8 +636,10 @@ def smooth_line(y, window=3, kind='tophat'):
             window = window / window.sum()
         elif kind.lower() == 'hamming':
             window = np.hamming(window)
+            window = window / window.sum()
         elif kind.lower() == 'hanning':
             window = np.hanning(window)
+            window = window / window.sum()
         else:
             raise ValueError(f"Unsupported window kind: '{kind}'. Choose from 'tophat', 'gaussian', 'triangular', 'hamming', or 'hanning'.")
     elif isinstance(window, (list, np.ndarray)):
-- 
2.43.0


From 7431079c08b5d8bffbee379b1023ebb4c461f1ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:49 +0000
Subject: [PATCH 029/169] fix: convolve_uvmap_coeval keeps the order of the
 cube's axes

---
 src/tools21cm/smoothing.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tools21cm/smoothing.py b/src/tools21cm/smoothing.py
index ca06687..1e76623 100755
--- a/src/tools21cm/smoothing.py
+++ b/src/tools21cm/smoothing.py
@@ -567,7 +567,7 @@ def convolve_uvmap_coeval(cube, z, box_size_mpc=False, max_baseline=2., ratio=1.
         if isinstance(max_baseline,u.Quantity):
                max_baseline = max_baseline.to('km').value
         if uv_map is None: 
-                uv_map, N_ant  = get_uv_map(array.shape[0],
+                uv_map, N_ant  = get_uv_map(cube.shape[0],
                                                 z,
                                                 filename=filename,
                                                 total_int_time=total_int_time,
@@ -584,6 +584,7 @@ def convolve_uvmap_coeval(cube, z, box_size_mpc=False, max_baseline=2., ratio=1.
         output_cube = smooth_coeval_tophat(cube, output_ang_res*ratio, nu_axis=nu_axis, verbose=verbose)
         if nu_axis not in [2,-1]: output_cube = np.swapaxes(output_cube,nu_axis,2)
         output_cube = np.array([convolve_uvmap(output_cube[:,:,i], uv_map=uv_map, verbose=verbose, box_size_mpc=box_size_mpc) for i in tqdm(range(output_cube.shape[2]),disable=not verbose)])
+        output_cube = np.moveaxis(output_cube,0,2)
         if nu_axis not in [2,-1]: output_cube = np.swapaxes(output_cube,nu_axis,2)
         return output_cube
 
-- 
2.43.0


From 019aeb5b7e5c5b520b982fa3fc37cadaf5fc23f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:49 +0000
Subject: [PATCH 030/169] fix: beam_convolve returns the whole convolved map

---
 src/tools21cm/beam_convolve.py | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/src/tools21cm/beam_convolve.py b/src/tools21cm/beam_convolve.py
index a98774e..79584f8 100755
--- a/src/tools21cm/beam_convolve.py
+++ b/src/tools21cm/beam_convolve.py
@@ -47,12 +47,4 @@ def beam_convolve(input_array, z, fov_mpc, beam_w = None, max_baseline = None, \
 	else:
 		raise Exception('Unknown beamshape: %g' % beamshape)
 
-	out =  signal.fftconvolve(input_array, kernel, mode='same')
-	# out =  fftconvolve(input_array, kernel)
-
-	#fftconvolve makes the output twice the size, so return only the central part	
-	ox = out.shape[0]
-	return out[ox*0.25:ox*0.75, ox*0.25:ox*0.75]
-
-
-
+	return fftconvolve(input_array, kernel, boundary='constant')
-- 
2.43.0


From 7f6f72e02be54a6b219720e4b5fdd51e825334da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:49 +0000
Subject: [PATCH 031/169] fix: find_idx leaves the requested values unchanged

---
 src/tools21cm/helper_functions.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/tools21cm/helper_functions.py b/src/tools21cm/helper_functions.py
index bcf86a6..408f031 100755
--- a/src/tools21cm/helper_functions.py
+++ b/src/tools21cm/helper_functions.py
@@ -526,9 +526,7 @@ def find_idx(ar, values):
         '''
         
         #Make input into an array and clamp outliers
-        values = np.atleast_1d(values)
-        values[values > ar.max()] = ar.max()
-        values[values < ar.min()] = ar.min()
+        values = np.clip(np.atleast_1d(values), ar.min(), ar.max())
         
         #Make sure that the values are monotonically increasing/decreasing
         dv = ar[1:]-ar[:-1]
-- 
2.43.0


From b6b75a3c9e91b2b6b4ea6908b35ef3f3c592c295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:49 +0000
Subject: [PATCH 032/169] fix: bin_lightcone_in_mpc returns one redshift per
 slice

---
 src/tools21cm/angular_coordinates.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/angular_coordinates.py b/src/tools21cm/angular_coordinates.py
index 79a088d..6515854 100755
--- a/src/tools21cm/angular_coordinates.py
+++ b/src/tools21cm/angular_coordinates.py
@@ -307,7 +307,7 @@ def bin_lightcone_in_mpc(lightcone, frequencies, cell_size_mpc):
     distances = cm.nu_to_cdist(frequencies)
     n_output_cells = (distances[-1]-distances[0])/cell_size_mpc
     output_distances = np.arange(distances[0], distances[-1], cell_size_mpc)
-    output_lightcone = np.zeros((lightcone.shape[0], lightcone.shape[1], int(n_output_cells)))
+    output_lightcone = np.zeros((lightcone.shape[0], lightcone.shape[1], len(output_distances)))
     
     #Bin in Mpc by smoothing and indexing
     smooth_scale = np.round(len(frequencies)/n_output_cells)
-- 
2.43.0


From f98f42d09b75878bb6f25fbef8cf76c497e8ee66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:28 +0000
Subject: [PATCH 033/169] fix: centre even-sized kernels in fftconvolve's
 padded boundaries

---
 src/tools21cm/fft_functions.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/tools21cm/fft_functions.py b/src/tools21cm/fft_functions.py
index d5758b5..072d435 100644
--- a/src/tools21cm/fft_functions.py
+++ b/src/tools21cm/fft_functions.py
@@ -71,8 +71,9 @@ def fftconvolve(in1, in2, mode='same', boundary='circular', backend='numpy', dev
         do_pad = False
     else: 
         do_pad = True
-        pad_before = s2 - 1 if mode == 'full' else s2 // 2
-        pad_after = s2 - 1 if mode == 'full' else s2 - 1 - (s2 // 2)
+        # 'same' centres the kernel on s2//2, as for the other boundaries
+        pad_before = s2 - 1 if mode == 'full' else s2 - 1 - (s2 // 2)
+        pad_after = s2 - 1 if mode == 'full' else s2 // 2
         fsize = tuple((s1 + pad_before + pad_after + s2 - 1).tolist())
 
     # --- 2. PyTorch Backend ---
-- 
2.43.0


From 62183f87d9f7fe8ead78db3d9a0cefb001b88bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:11 +0000
Subject: [PATCH 034/169] fix: bin_lightcone_in_frequency averages the slices
 around each channel

---
 src/tools21cm/angular_coordinates.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tools21cm/angular_coordinates.py b/src/tools21cm/angular_coordinates.py
index 6515854..0443f1f 100755
--- a/src/tools21cm/angular_coordinates.py
+++ b/src/tools21cm/angular_coordinates.py
@@ -290,7 +290,9 @@ def bin_lightcone_in_frequency(lightcone, z_low, box_size_mpc, dnu):
     hf.print_msg('Smooth along LoS with scale %f' % smooth_scale)
     tophat3d = np.ones((1,1,int(smooth_scale)))
     tophat3d /= np.sum(tophat3d)
-    lightcone_smoothed = fftconvolve(lightcone, tophat3d)
+    #Centre the window and average only over existing slices at the ends
+    norm = fftconvolve(np.ones((1,1,lightcone.shape[2])), tophat3d, mode='same')
+    lightcone_smoothed = fftconvolve(lightcone, tophat3d, mode='same')/norm
     
     for i in range(output_lightcone.shape[2]):
         nu = output_frequencies[i]
-- 
2.43.0


From d3dc85494906eb801705d31a29375ec943072c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:11 +0000
Subject: [PATCH 035/169] fix: bin_lightcone_in_mpc keeps the level at the ends
 and with finer cells

---
 src/tools21cm/angular_coordinates.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/tools21cm/angular_coordinates.py b/src/tools21cm/angular_coordinates.py
index 0443f1f..de441a6 100755
--- a/src/tools21cm/angular_coordinates.py
+++ b/src/tools21cm/angular_coordinates.py
@@ -313,10 +313,13 @@ def bin_lightcone_in_mpc(lightcone, frequencies, cell_size_mpc):
     
     #Bin in Mpc by smoothing and indexing
     smooth_scale = np.round(len(frequencies)/n_output_cells)
+    if smooth_scale < 1:
+        smooth_scale = 1
 
     tophat3d = np.ones((1,1,int(smooth_scale)))
     tophat3d /= np.sum(tophat3d)
-    lightcone_smoothed = fftconvolve(lightcone, tophat3d, mode='same')
+    norm = fftconvolve(np.ones((1,1,lightcone.shape[2])), tophat3d, mode='same')
+    lightcone_smoothed = fftconvolve(lightcone, tophat3d, mode='same')/norm
     
     for i in range(output_lightcone.shape[2]):
         idx = int(hf.find_idx(distances, output_distances[i]))
-- 
2.43.0


From 2061b05d3073be26511a9ade0af09865e1a0d180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:11 +0000
Subject: [PATCH 036/169] fix: physical_lightcone_to_observational takes any
 array-like of redshifts

---
 src/tools21cm/angular_coordinates.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/tools21cm/angular_coordinates.py b/src/tools21cm/angular_coordinates.py
index de441a6..9cac9af 100755
--- a/src/tools21cm/angular_coordinates.py
+++ b/src/tools21cm/angular_coordinates.py
@@ -64,12 +64,13 @@ def physical_lightcone_to_observational(physical_lightcone, input_z_low, output_
     if input_box_size_mpc == None:
         input_box_size_mpc = conv.LB
 
-    if isinstance(input_z_low,(float,int)):
+    if np.size(input_z_low) == 1:
+        input_z_low = float(np.squeeze(input_z_low))
         cell_size = input_box_size_mpc/physical_lightcone.shape[0]
         distances = cm.z_to_cdist(input_z_low) + np.arange(physical_lightcone.shape[2])*cell_size
         input_z_high = cm.cdist_to_z(distances).max()
     else:
-        input_z_low, input_z_high = input_z_low.min(), input_z_low.max()
+        input_z_low, input_z_high = np.min(input_z_low), np.max(input_z_low)
 
     #Calculate the FoV in degrees at lowest z (largest one)
     fov_deg_low  = cm.angular_size_comoving(input_box_size_mpc, input_z_low)
-- 
2.43.0


From 9533df64d175115a79024d0e62fe302bc3f75ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:47 +0000
Subject: [PATCH 037/169] fix: get_distorted_dt spaces its particles evenly
 within the cells

---
 src/tools21cm/pv_mpm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/pv_mpm.py b/src/tools21cm/pv_mpm.py
index a2c01a9..c513335 100755
--- a/src/tools21cm/pv_mpm.py
+++ b/src/tools21cm/pv_mpm.py
@@ -98,7 +98,7 @@ def get_distorted_dt(dT, kms, redsh, los_axis=0, velocity_axis = 0, num_particle
             dT_skewer = get_skewer(dT,i,j)
 
             #Create particles along the skewer and assign dT to the particles
-            particle_pos = np.linspace(0, box_depth, grid_depth*num_particles)
+            particle_pos = (np.arange(grid_depth*num_particles)+0.5)*(box_depth/(grid_depth*num_particles))
             for n in range(num_particles): 
                 particle_dT[n::num_particles] = dT_skewer/float(num_particles)
 
-- 
2.43.0


From 9d493ebd952f95b4f67e30b2aca2b649cc9b192b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:47 +0000
Subject: [PATCH 038/169] fix: get_distorted_dt keeps signal displaced by more
 than one box length

---
 src/tools21cm/pv_mpm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tools21cm/pv_mpm.py b/src/tools21cm/pv_mpm.py
index c513335..e6b0033 100755
--- a/src/tools21cm/pv_mpm.py
+++ b/src/tools21cm/pv_mpm.py
@@ -112,8 +112,8 @@ def get_distorted_dt(dT, kms, redsh, los_axis=0, velocity_axis = 0, num_particle
 
             #Periodic boundary conditions
             if periodic:
-                particle_pos[np.where(particle_pos < 0)] += box_depth
-                particle_pos[np.where(particle_pos > box_depth)] -= box_depth
+                outside = (particle_pos < 0) | (particle_pos > box_depth)
+                particle_pos[outside] = np.mod(particle_pos[outside], box_depth)
 
             #Regrid particles to original resolution
             dist_skewer = np.histogram(particle_pos, \
-- 
2.43.0


From 0225d85e2e54af6aa9658ff4ec07d4359af1ad94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:47 +0000
Subject: [PATCH 039/169] fix: get_distorted_dt does not truncate integer input

---
 src/tools21cm/pv_mpm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/pv_mpm.py b/src/tools21cm/pv_mpm.py
index e6b0033..07fbb57 100755
--- a/src/tools21cm/pv_mpm.py
+++ b/src/tools21cm/pv_mpm.py
@@ -83,7 +83,7 @@ def get_distorted_dt(dT, kms, redsh, los_axis=0, velocity_axis = 0, num_particle
     dr = (1.+z_obs)*vpar/const.Hz(z_obs)
 
     #Make the distorted box
-    distbox = np.zeros_like(dT)
+    distbox = np.zeros(dT.shape, dtype=np.result_type(dT, np.float32))
     particle_dT = np.zeros(grid_depth*num_particles)
 
     last_percent = 0
-- 
2.43.0


From 7ac45e0f383f4a9122ebbbc9f1cd24fbd2fca718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:09 +0000
Subject: [PATCH 040/169] fix: find the redshift of file objects and skip
 arrays when looking for it

---
 src/tools21cm/helper_functions.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/tools21cm/helper_functions.py b/src/tools21cm/helper_functions.py
index 408f031..b33d69c 100755
--- a/src/tools21cm/helper_functions.py
+++ b/src/tools21cm/helper_functions.py
@@ -485,6 +485,11 @@ def determine_redshift_from_filename(filename):
                 * redshift (float) 
                 If no redshift could be found, return -1
         '''
+        if not isinstance(filename, (str, os.PathLike)):
+                #File objects remember where they were read from
+                filename = getattr(filename, 'filename', None)
+                if filename is None:
+                        return -1
         filename = os.path.basename(filename)
         filename = os.path.splitext(filename)[0]
         
-- 
2.43.0


From 3e83caf7b9347281589ee734cf95effcce16af1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:09 +0000
Subject: [PATCH 041/169] fix: calc_dt_lightcone applies the redshifts along
 the chosen line of sight

---
 src/tools21cm/temperature.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/tools21cm/temperature.py b/src/tools21cm/temperature.py
index 815c4ae..ed32daa 100755
--- a/src/tools21cm/temperature.py
+++ b/src/tools21cm/temperature.py
@@ -146,7 +146,7 @@ def calc_dt_lightcone(xfrac, dens, lowest_z, los_axis = 2):
 	cell_size = conv.LB/xfrac.shape[(los_axis+1)%3]
 	cdist_low = cosmo.z_to_cdist(lowest_z)
 	cdist = np.arange(xfrac.shape[los_axis])*cell_size + cdist_low
-	z = cosmo.cdist_to_z(cdist)
+	z = _along_los(cosmo.cdist_to_z(cdist), los_axis)
 	return _dt(dens, xfrac, z)
 
 def calc_dt_full_lightcone(xfrac, temp, dens, lowest_z, los_axis = 2, correct=True):
@@ -212,6 +212,12 @@ def mean_dt(z):
 	return Cdt
 	
 
+def _along_los(z, los_axis):
+	#Redshifts of the slices, shaped to broadcast along the line of sight
+	shape = [1, 1, 1]
+	shape[los_axis] = -1
+	return np.reshape(z, shape)
+
 def _dt(rho, xi, z):
 		
 	rho_mean = const.rho_crit_0*const.OmegaB if rho.min()>=0 else 1
-- 
2.43.0


From 7e821215cd2946e9e5643be07ea3a7e3f5aa6e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:09 +0000
Subject: [PATCH 042/169] fix: calc_dt_full_lightcone uses the redshift of each
 slice

---
 src/tools21cm/temperature.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/tools21cm/temperature.py b/src/tools21cm/temperature.py
index ed32daa..b4a4e70 100755
--- a/src/tools21cm/temperature.py
+++ b/src/tools21cm/temperature.py
@@ -191,6 +191,7 @@ def calc_dt_full_lightcone(xfrac, temp, dens, lowest_z, los_axis = 2, correct=Tr
 	cdist = np.arange(xfrac.shape[los_axis])*cell_size + cdist_low
 	z = cosmo.cdist_to_z(cdist)
 	print("Redshift: ", str(z))
+	z = _along_los(z, los_axis)
 	return _dt_full(dens, xfrac,temp, z, correct)
 
 def mean_dt(z):
@@ -228,8 +229,6 @@ def _dt(rho, xi, z):
 	return dt
 
 def _dt_full(rho, xi, Ts, z, correct):
-        z = np.mean(z)
-        print("Redshift:" , str(z))
         rho_mean = const.rho_crit_0*const.OmegaB
         Tcmb 	 = const.Tcmb0*(1+z) 
         Cdt      = mean_dt(z)
@@ -256,7 +255,7 @@ def _dt_full(rho, xi, Ts, z, correct):
                 # (so a fraction xi of the cell's volume is ionized) and that
                 # the temperature of the ionized part is T_HII
                 Ts_new = (Ts-xi*T_HII)/(1.-xi)
-                Ts_new[Ts_new < T_min] = T_min
+                Ts_new = np.where(Ts_new < T_min, T_min, Ts_new)
                 if np.any(Ts_new < 0): print("WARNING: negative temperatures")
         else:
                 Ts_new=Ts
-- 
2.43.0


From ce314e796d92ae1e412820aef44d3fcfae77016e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:09 +0000
Subject: [PATCH 043/169] fix: no NaN in hot fully ionized cells

---
 src/tools21cm/temperature.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tools21cm/temperature.py b/src/tools21cm/temperature.py
index b4a4e70..a5ad61d 100755
--- a/src/tools21cm/temperature.py
+++ b/src/tools21cm/temperature.py
@@ -254,7 +254,9 @@ def _dt_full(rho, xi, Ts, z, correct):
                 # assuming that the ionized part of the cell is fully ionized
                 # (so a fraction xi of the cell's volume is ionized) and that
                 # the temperature of the ionized part is T_HII
-                Ts_new = (Ts-xi*T_HII)/(1.-xi)
+                neutral = 1.-xi
+                # (fully ionized cells give no signal whatever their temperature)
+                Ts_new = (Ts-xi*T_HII)/np.where(neutral > 0, neutral, 1.)
                 Ts_new = np.where(Ts_new < T_min, T_min, Ts_new)
                 if np.any(Ts_new < 0): print("WARNING: negative temperatures")
         else:
-- 
2.43.0


From 4f9889c0d7853d3a2688e8827d59350002412e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:43 +0000
Subject: [PATCH 044/169] fix: read_cbin reads headers with other than three
 dimensions

---
 src/tools21cm/helper_functions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tools21cm/helper_functions.py b/src/tools21cm/helper_functions.py
index b33d69c..67d20d3 100755
--- a/src/tools21cm/helper_functions.py
+++ b/src/tools21cm/helper_functions.py
@@ -182,8 +182,8 @@ def read_cbin(filename, bits=32, order='C', dimensions=3, records=False):
 
         counter=dimensions+3 if records else dimensions 
         header = np.fromfile(f, count=counter, dtype='int32')
-        if records: temp_mesh=header[1:4]
-        else: temp_mesh=header[0:3]
+        if records: temp_mesh=header[1:dimensions+1]
+        else: temp_mesh=header[0:dimensions]
         
         datatype = np.float32 if bits == 32 else np.float64
         data = np.fromfile(f, dtype=datatype, count=np.prod(temp_mesh))
-- 
2.43.0


From 556a986a06c3abc273258ec98fe6ed5aab87c21b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:43 +0000
Subject: [PATCH 045/169] fix: get_mesh_size of temperature files

---
 src/tools21cm/helper_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/helper_functions.py b/src/tools21cm/helper_functions.py
index 67d20d3..132f5ae 100755
--- a/src/tools21cm/helper_functions.py
+++ b/src/tools21cm/helper_functions.py
@@ -436,7 +436,7 @@ def get_mesh_size(filename):
                 temp_mesh = np.fromfile(f, count=6, dtype='int32')
                 mesh_size = temp_mesh[1:4]
         elif datatype == 'temper':
-                temp_mesh = np.fromfile(f,count=3,dtype='int32')
+                temp_mesh = np.fromfile(f,count=6,dtype='int32')
                 mesh_size = temp_mesh[1:4]
         elif datatype == 'density':
                 mesh_size = np.fromfile(f,count=3,dtype='int32')
-- 
2.43.0


From efcb69009397ea26447af6e0139f15405db4eef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:43 +0000
Subject: [PATCH 046/169] fix: save_fits and read_fits work with astropy

---
 src/tools21cm/helper_functions.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/tools21cm/helper_functions.py b/src/tools21cm/helper_functions.py
index 132f5ae..6359dac 100755
--- a/src/tools21cm/helper_functions.py
+++ b/src/tools21cm/helper_functions.py
@@ -275,16 +275,15 @@ def read_fits(filename, header=True):
         try:
                 import pyfits as pf
                 hdulist = pf.open(filename)
-                header = hdulist[0].header
+                hdr = hdulist[0].header
                 data = hdulist[0].data.astype('float64')
         except:
                 from astropy.io import fits
-                fits_image_filename = fits.util.get_testdata_filepath(filename)
-                hdul = fits.open(fits_image_filename)
-                header = hdul[0].header
-                data = hdul[1].data.astype('float64')
+                with fits.open(filename) as hdul:
+                        hdr = hdul[0].header
+                        data = hdul[0].data.astype('float64')
 
-        if header: return data, header
+        if header: return data, hdr
         else: return data
 
 
@@ -311,9 +310,8 @@ def save_fits(data, filename, header=None):
                 else: pf.writeto(filename, save_data)
         except:
                 from astropy.io import fits
-                hdu = pf.PrimaryHDU(save_data.astype('float64'))
-                hdulist = pf.HDUList([hdu])
-                hdulist.writeto(filename, clobber=True)
+                if not isinstance(header, fits.Header): header = None
+                fits.writeto(filename, save_data.astype('float64'), header, overwrite=True)
 
         
 
-- 
2.43.0


From 392ce42010ba4e7afd1dc7ac4375419d6d0a2e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:43 +0000
Subject: [PATCH 047/169] fix: old-format temperature files come back as cubes

---
 src/tools21cm/temper_file.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tools21cm/temper_file.py b/src/tools21cm/temper_file.py
index 3af9e2f..4d0448d 100755
--- a/src/tools21cm/temper_file.py
+++ b/src/tools21cm/temper_file.py
@@ -48,10 +48,10 @@ class TemperFile:
         self.mesh_x, self.mesh_y, self.mesh_z = temp_mesh[1:4]
 
         if old_format:
-                self.temper = np.fromfile(f, dtype='float32')
+                self.temper = np.fromfile(f, count=self.mesh_x*self.mesh_y*self.mesh_z, dtype='float32')
         else:
                 self.temper = np.fromfile(f, count=self.mesh_x*self.mesh_y*self.mesh_z, dtype='float32')
-                self.temper = self.temper.reshape((self.mesh_x, self.mesh_y, self.mesh_z), order='F')
+        self.temper = self.temper.reshape((self.mesh_x, self.mesh_y, self.mesh_z), order='F')
 
         f.close()
         print_msg('...done')
-- 
2.43.0


From d1dd1ed2b7d8b8e2911ab557fdbc9a6d0573b505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:43 +0000
Subject: [PATCH 048/169] fix: old-format ionization rate files come back as
 cubes

---
 src/tools21cm/irate_file.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tools21cm/irate_file.py b/src/tools21cm/irate_file.py
index 3b72a9a..d753efe 100755
--- a/src/tools21cm/irate_file.py
+++ b/src/tools21cm/irate_file.py
@@ -52,10 +52,10 @@ class IonRateFile:
             self.mesh_x, self.mesh_y, self.mesh_z = temp_mesh[1:4]
 
         if old_format:
-                self.irate = np.fromfile(f, dtype='float32')
+                self.irate = np.fromfile(f, count=self.mesh_x*self.mesh_y*self.mesh_z, dtype='float32')
         else:
                 self.irate = np.fromfile(f, count=self.mesh_x*self.mesh_y*self.mesh_z, dtype='float32')
-                self.irate = self.irate.reshape((self.mesh_x, self.mesh_y, self.mesh_z), order='F')
+        self.irate = self.irate.reshape((self.mesh_x, self.mesh_y, self.mesh_z), order='F')
 
         f.close()
         print_msg('...done')
-- 
2.43.0


From c2365bd5a3c78af5e0c68b6d2727a87c9681b398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:43 +0000
Subject: [PATCH 049/169] fix: XfracFile reads 32-bit files with record
 separators

---
 src/tools21cm/xfrac_file.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/tools21cm/xfrac_file.py b/src/tools21cm/xfrac_file.py
index c7ab90e..e7537d6 100755
--- a/src/tools21cm/xfrac_file.py
+++ b/src/tools21cm/xfrac_file.py
@@ -55,10 +55,12 @@ class XfracFile:
 			temp_mesh = np.fromfile(f, count=6, dtype='int32')
 			self.mesh_x, self.mesh_y, self.mesh_z = temp_mesh[1:4]
 
+		#Do not read a trailing record separator as data
+		ncells = int(self.mesh_x)*int(self.mesh_y)*int(self.mesh_z)
 		if old_format:
-			self.xi = np.fromfile(f, dtype='float32')
+			self.xi = np.fromfile(f, dtype='float32', count=ncells)
 		else:
-			self.xi = np.fromfile(f, dtype='float64')
+			self.xi = np.fromfile(f, dtype='float64', count=ncells)
 		self.xi = self.xi.reshape((self.mesh_x, self.mesh_y, self.mesh_z), order='F')
 
 		if neutral:
-- 
2.43.0


From 6bd7bd884cdb9a8e7192b05f88ca9c7a1717a94f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:43 +0000
Subject: [PATCH 050/169] fix: VelocityFile.write_to_file keeps the loaded data

---
 src/tools21cm/vel_file.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/tools21cm/vel_file.py b/src/tools21cm/vel_file.py
index 3c39ef8..248de10 100755
--- a/src/tools21cm/vel_file.py
+++ b/src/tools21cm/vel_file.py
@@ -79,8 +79,9 @@ class VelocityFile:
 		Returns:
 			Nothing
 		'''
-		self.raw_velocity = raw_velocity
-		if self.raw_velocity is None:
+		if raw_velocity is not None:
+			self.raw_velocity = raw_velocity
+		if getattr(self, 'raw_velocity', None) is None:
 			print_msg("Error: No raw velocity data to write. Please load a velocity file first or set the 'raw_velocity' attribute.")
 			return
 
-- 
2.43.0


From 80a3bc7362580ecc2891fc4e33fb7205f3179fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:43 +0000
Subject: [PATCH 051/169] fix: ClumpingFile.write_to_file keeps the loaded data

---
 src/tools21cm/density_file.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/tools21cm/density_file.py b/src/tools21cm/density_file.py
index b653c35..e6d1a73 100755
--- a/src/tools21cm/density_file.py
+++ b/src/tools21cm/density_file.py
@@ -189,8 +189,9 @@ class ClumpingFile:
 		Returns:
 			Nothing
 		'''
-		self.raw_clumping = raw_clumping
-		if self.raw_clumping is None:
+		if raw_clumping is not None:
+			self.raw_clumping = raw_clumping
+		if getattr(self, 'raw_clumping', None) is None:
 			print_msg("Error: No raw clumping data to write. Please load a clumping file first or set the 'raw_clumping' attribute.")
 			return
 
-- 
2.43.0


From ea0dc369b77dcb435a3076bcba86fb9100271d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:43 +0000
Subject: [PATCH 052/169] fix: SourceFile.write_to_file writes what
 read_from_file reads

---
 src/tools21cm/source_file.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/tools21cm/source_file.py b/src/tools21cm/source_file.py
index c7c85bc..96b500d 100755
--- a/src/tools21cm/source_file.py
+++ b/src/tools21cm/source_file.py
@@ -101,8 +101,9 @@ class SourceFile:
         Returns:
             Nothing
         '''
-        self.sources_list = sources_list
-        if self.sources_list is None or self.sources_list.shape[0] == 0:
+        if sources_list is not None:
+            self.sources_list = sources_list
+        if getattr(self, 'sources_list', None) is None or self.sources_list.shape[0] == 0:
             print_msg("Error: No sources_list data to write. Please load a source file first or set the 'sources_list' attribute.")
             return
 
@@ -143,14 +144,16 @@ class SourceFile:
                     else:
                         raise ValueError("Unexpected sources_list shape. Expected 4 or 5 columns.")
 
-                    # Convert Msun back to log10 of grid mass as expected by the file format
-                    # Ensure it's not log10(0) if mass is 0, to avoid errors.
-                    log10_grid_mass = conv.gridmass_to_msol(current_mass_msun) if current_mass_msun > 0 else -99.0 # Use a placeholder for zero mass
+                    # Convert Msun back to grid mass as expected by the file format
+                    # (a plain float, so that repr writes every digit)
+                    grid_mass = float(current_mass_msun / np.power(10, conv.gridmass_to_msol(1.0)))
+                    # High-mass sources are in the fourth column, low-mass ones in the fifth
+                    masses = f"0.0 {grid_mass!r}" if self.mass == 'lm' else f"{grid_mass!r} 0.0"
 
-                    # Write each source line: x y z log10(grid_mass)
-                    # The original file format has two lines per source, the first is coordinates and log10 grid mass
+                    # Write each source line: x y z high-mass low-mass
+                    # The original file format has two lines per source, the first is coordinates and grid masses
                     # and the second is empty. Let's replicate this based on the original parsing logic that does `lines[2*i+1]`
-                    f.write(f"{x} {y} {z} {log10_grid_mass:.6f}\n") # Using .6f for precision
+                    f.write(f"{x} {y} {z} {masses}\n")
                     f.write("\n") # Empty line as per typical C2Ray source file format
 
             print_msg('...done')
-- 
2.43.0


From 69245a0989714d85d9e96785a5caba95f48a97e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:43 +0000
Subject: [PATCH 053/169] fix: grid_sources adds up sources in the same cell

---
 src/tools21cm/source_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/source_file.py b/src/tools21cm/source_file.py
index 96b500d..cbc77eb 100755
--- a/src/tools21cm/source_file.py
+++ b/src/tools21cm/source_file.py
@@ -84,7 +84,7 @@ class SourceFile:
         # loop over list
         for n in range(self.sources_list.shape[0]):
             i, j, k = self.sources_list[n,:3].astype(int)
-            self.sources_coeval[i,j,k] = self.sources_list[n,3]  # Msun
+            self.sources_coeval[i,j,k] += self.sources_list[n,3]  # Msun
         
         print_msg('...done')
 
-- 
2.43.0


From f0c6d1e6ff34c85e18376628dadbda5b0fcec4c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:43 +0000
Subject: [PATCH 054/169] fix: read_21cmfast_files works with current numpy

---
 src/tools21cm/read_files.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/read_files.py b/src/tools21cm/read_files.py
index 62538df..b01874e 100755
--- a/src/tools21cm/read_files.py
+++ b/src/tools21cm/read_files.py
@@ -17,7 +17,7 @@ def _load_binary_data(filename, dtype=np.float32):
 	f = open(filename, "rb") 
 	data = f.read() 
 	f.close() 
-	_data = np.fromstring(data, dtype) 
+	_data = np.frombuffer(data, dtype).copy()
 	if sys.byteorder == 'big':
 		_data = _data.byteswap()
 	return _data 
-- 
2.43.0


From 3864ac583018ad71cc69a8c2f37cb04a27e8c9dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:43 +0000
Subject: [PATCH 055/169] fix: read_c2ray_files reads velocities

---
 src/tools21cm/read_files.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/tools21cm/read_files.py b/src/tools21cm/read_files.py
index b01874e..f8f4fd3 100755
--- a/src/tools21cm/read_files.py
+++ b/src/tools21cm/read_files.py
@@ -57,9 +57,7 @@ def read_c2ray_files(filename, file_type='xfrac', density_file=None):
 		out = dens.astype(np.float64)
 	elif file_type=='vel':
 		assert density_file is not None
-		dfile = density_file.DensityFile(density_file)
-		vel_file = vel_file.VelocityFile(filename)
-		out = vel_file.get_kms_from_density(dfile)
+		out = vel_file.VelocityFile(filename).get_kms_from_density(density_file)
 	return out
 
 def read_grizzly_files(filename):
-- 
2.43.0


From bf101d0f759e6f37607896ea535b4622fd135a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:10 +0000
Subject: [PATCH 056/169] fix: coeval_*_c2ray pick the files of the requested
 redshifts

---
 src/tools21cm/read_files.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/tools21cm/read_files.py b/src/tools21cm/read_files.py
index f8f4fd3..b4e9f6b 100755
--- a/src/tools21cm/read_files.py
+++ b/src/tools21cm/read_files.py
@@ -118,12 +118,12 @@ def coeval_xfrac_c2ray(xfrac_dir, z, interpolation='linear'):
 	xfrac_zs = None
 	xfrac_zs = lightcone._get_file_redshifts(xfrac_zs, xfrac_files)
 	if z in xfrac_zs:
-		xfrac = XfracFile(xfrac_files[np.argwhere(z==xfrac_zs)]).xi
+		xfrac = XfracFile(xfrac_files[np.argmin(np.abs(xfrac_zs-z))]).xi
 	else:
 		z_l = xfrac_zs[xfrac_zs<z].max()
 		z_h = xfrac_zs[xfrac_zs>z].min()
-		xfrac_l = XfracFile(xfrac_files[xfrac_zs[xfrac_zs<z].argmax()]).xi
-		xfrac_h = XfracFile(xfrac_files[xfrac_zs[xfrac_zs>z].argmin()]).xi
+		xfrac_l = XfracFile(xfrac_files[np.argmin(np.abs(xfrac_zs-z_l))]).xi
+		xfrac_h = XfracFile(xfrac_files[np.argmin(np.abs(xfrac_zs-z_h))]).xi
 		xfrac = xfrac_h + (xfrac_l-xfrac_h)*(z-z_h)/(z_l-z_h)
 		print("The xfrac cube has been interpolated using %s interpolation." %interpolation)
 		print("CAUTION: This data should be used with care.")
@@ -146,12 +146,12 @@ def coeval_dens_c2ray(dens_dir, z):
 	dens_zs  = None
 	dens_zs  = lightcone._get_file_redshifts(dens_zs, dens_files)
 	if z in dens_zs:
-		dens, dtype = helper_functions.get_data_and_type(dens_files[np.argwhere(z==dens_zs)])
+		dens, dtype = helper_functions.get_data_and_type(dens_files[np.argmin(np.abs(dens_zs-z))])
 	else:
 		#z_l = dens_zs[dens_zs<z].max()
 		z_h = dens_zs[dens_zs>z].min()
 		#dens_l,dtype = helper_functions.get_data_and_type(dens_files[dens_zs[dens_zs<z].argmax()])
-		dens_h, dtype = helper_functions.get_data_and_type(dens_files[dens_zs[dens_zs>z].argmin()])
+		dens_h, dtype = helper_functions.get_data_and_type(dens_files[np.argmin(np.abs(dens_zs-z_h))])
 		#dens = dens_h + (dens_l-dens_h)*(z-z_h)/(z_l-z_h)
 		dens = dens_h*(1+z_h)**3/(1+z)**3
 		#print("The density cube has been interpolated using %s interpolation."%interpolation)
-- 
2.43.0


From 5ec78497e0bf26f44b0c8bcb2c0917f2e9aef164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:10 +0000
Subject: [PATCH 057/169] fix: coeval_xfrac and coeval_dens pick the files of
 the requested redshifts

---
 src/tools21cm/usefuls.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/tools21cm/usefuls.py b/src/tools21cm/usefuls.py
index 7a54b32..f2af4b6 100755
--- a/src/tools21cm/usefuls.py
+++ b/src/tools21cm/usefuls.py
@@ -62,12 +62,12 @@ def coeval_xfrac(xfrac_dir, z, interpolation='linear'):
 	xfrac_zs = None
 	xfrac_zs = lightcone._get_file_redshifts(xfrac_zs, xfrac_files)
 	if z in xfrac_zs:
-		xfrac = xfrac_file.XfracFile(xfrac_files[np.argwhere(z==xfrac_zs)]).xi
+		xfrac = xfrac_file.XfracFile(xfrac_files[np.argmin(np.abs(xfrac_zs-z))]).xi
 	else:
 		z_l = xfrac_zs[xfrac_zs<z].max()
 		z_h = xfrac_zs[xfrac_zs>z].min()
-		xfrac_l = xfrac_file.XfracFile(xfrac_files[xfrac_zs[xfrac_zs<z].argmax()]).xi
-		xfrac_h = xfrac_file.XfracFile(xfrac_files[xfrac_zs[xfrac_zs>z].argmin()]).xi
+		xfrac_l = xfrac_file.XfracFile(xfrac_files[np.argmin(np.abs(xfrac_zs-z_l))]).xi
+		xfrac_h = xfrac_file.XfracFile(xfrac_files[np.argmin(np.abs(xfrac_zs-z_h))]).xi
 		xfrac = xfrac_h + (xfrac_l-xfrac_h)*(z-z_h)/(z_l-z_h)
 		print("The xfrac cube has been interpolated using", interpolation, "interpolation.")
 	return xfrac
@@ -84,12 +84,12 @@ def coeval_dens(dens_dir, z, interpolation='linear'):
 	dens_zs  = None
 	dens_zs  = lightcone._get_file_redshifts(dens_zs, dens_files)
 	if z in dens_zs:
-		dens, dtype = helper_functions.get_data_and_type(dens_files[np.argwhere(z==dens_zs)])
+		dens, dtype = helper_functions.get_data_and_type(dens_files[np.argmin(np.abs(dens_zs-z))])
 	else:
 		z_l = dens_zs[dens_zs<z].max()
 		z_h = dens_zs[dens_zs>z].min()
-		dens_l, dtype = helper_functions.get_data_and_type(dens_files[dens_zs[dens_zs<z].argmax()])
-		dens_h, dtype = helper_functions.get_data_and_type(dens_files[dens_zs[dens_zs>z].argmin()])
+		dens_l, dtype = helper_functions.get_data_and_type(dens_files[np.argmin(np.abs(dens_zs-z_l))])
+		dens_h, dtype = helper_functions.get_data_and_type(dens_files[np.argmin(np.abs(dens_zs-z_h))])
 		dens = dens_h + (dens_l-dens_h)*(z-z_h)/(z_l-z_h)
 		print("The density cube has been interpolated using", interpolation, "interpolation.")
 	return dens.astype(np.float64)
-- 
2.43.0


From 6f382771aa456c105541124f4967ddf7683a8d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:10 +0000
Subject: [PATCH 058/169] fix: coeval_vel reads the velocity with the density
 of its redshift

---
 src/tools21cm/usefuls.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/tools21cm/usefuls.py b/src/tools21cm/usefuls.py
index f2af4b6..dc50fc7 100755
--- a/src/tools21cm/usefuls.py
+++ b/src/tools21cm/usefuls.py
@@ -116,18 +116,18 @@ def coeval_vel(dens_dir, vel_dir, z, interpolation='linear'):
 	vel_files  = glob.glob(vel_dir + '/*v_all.dat')
 	vel_zs     = None
 	vel_zs     = lightcone._get_file_redshifts(vel_zs, vel_files)
-	def get_vel(vel_file, dens_file):
-		dfile = density_file.DensityFile(dens_file)
-		vel_file = vel_file.VelocityFile(vel_file)
-		vel = vel_file.get_kms_from_density(dfile)
-		return vel
+	dens_zs    = lightcone._get_file_redshifts(None, dens_files)
+	def get_vel(z):
+		dfile = density_file.DensityFile(dens_files[np.argmin(np.abs(dens_zs-z))])
+		vfile = vel_file.VelocityFile(vel_files[np.argmin(np.abs(vel_zs-z))])
+		return vfile.get_kms_from_density(dfile)
 	if z in vel_zs:
-		vel = get_vel(vel_files[np.argwhere(z==vel_zs)],dens_files[np.argwhere(z==vel_zs)])
+		vel = get_vel(z)
 	else:
 		z_l = vel_zs[vel_zs<z].max()
 		z_h = vel_zs[vel_zs>z].min()
-		vel_l = get_vel(vel_files[vel_zs[vel_zs<z].argmax()],dens_files[vel_zs[vel_zs<z].argmax()])
-		vel_h = get_vel(vel_files[vel_zs[vel_zs>z].argmin()],dens_files[vel_zs[vel_zs>z].argmin()])
+		vel_l = get_vel(z_l)
+		vel_h = get_vel(z_h)
 		vel = vel_h + (vel_l-vel_h)*(z-z_h)/(z_l-z_h)
 		print("The velocity cube has been interpolated using", interpolation, "interpolation.")
 	return vel
-- 
2.43.0


From 76a3125c435bece06f6186b90b80c5f01262e4a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:51 +0000
Subject: [PATCH 059/169] fix: get_data_and_type honours raw_density for file
 names

---
 src/tools21cm/helper_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/helper_functions.py b/src/tools21cm/helper_functions.py
index 6359dac..1733083 100755
--- a/src/tools21cm/helper_functions.py
+++ b/src/tools21cm/helper_functions.py
@@ -387,7 +387,7 @@ def get_data_and_type(indata, cbin_bits=32, cbin_order='c', raw_density=False):
                 elif filetype == 'temper':
                         return get_data_and_type(tools21cm.temper_file.TemperFile(indata))
                 elif filetype == 'density':
-                        return get_data_and_type(tools21cm.density_file.DensityFile(indata))
+                        return get_data_and_type(tools21cm.density_file.DensityFile(indata), raw_density=raw_density)
                 elif filetype == 'cbin':
                         return read_cbin(indata, bits=cbin_bits, order=cbin_order), 'cbin'
                 elif filetype == 'dbt':
-- 
2.43.0


From 23416a63e96e49ad5965860b92e9947cc4bd810d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:18 +0000
Subject: [PATCH 060/169] fix: fof keeps the only region when every cell is
 selected

---
 src/tools21cm/bubble_stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/bubble_stats.py b/src/tools21cm/bubble_stats.py
index 59e10b1..f1821eb 100755
--- a/src/tools21cm/bubble_stats.py
+++ b/src/tools21cm/bubble_stats.py
@@ -40,7 +40,7 @@ def fof(data, xth=0.5, connectivity=1):
 		from skimage import morphology
 		out_map = morphology.label(data, connectivity=connectivity)
 		elements, size_list = np.unique(out_map, return_counts=True)
-		size_list = size_list[1:]
+		size_list = size_list[elements>0]
 	else: out_map, size_list = FoF_search(data, xth)
 	t2 = datetime.datetime.now()
 	runtime = (t2-t1).total_seconds()/60
-- 
2.43.0


From 53fee1b20c7f523c822f17ce0fc98fa7bd9f673e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:18 +0000
Subject: [PATCH 061/169] fix: FoF_search visits its points (its iterator was
 exhausted before the search)

---
 src/tools21cm/Friends_of_Friends.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tools21cm/Friends_of_Friends.py b/src/tools21cm/Friends_of_Friends.py
index f1c6100..0f8e8bc 100755
--- a/src/tools21cm/Friends_of_Friends.py
+++ b/src/tools21cm/Friends_of_Friends.py
@@ -11,7 +11,7 @@ sizes_list = ast.literal_eval(sizes_string)
 import numpy as np
 from itertools import count
 #from Queue import Queue
-from multiprocessing import Queue
+from queue import Queue
 
 
 def FoF_search(array, threshold):
@@ -29,7 +29,7 @@ def FoF_search(array, threshold):
                 yield tuple(new_coordinate)
 
     out_map = np.zeros(array.shape, dtype=int)   # creates an array with the same shape as the input search array
-    possibilities = zip(*np.where(array > threshold))  # creates a list of indices of points above the threshold
+    possibilities = list(zip(*np.where(array > threshold)))  # creates a list of indices of points above the threshold
     poss_set = set(possibilities)
     
     def recursive_search(point, current_group, currentsize):     # function to calculate group membership of a point
-- 
2.43.0


From 7bf5adac5468e88d87d7041f1edbe6e6379c01a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:18 +0000
Subject: [PATCH 062/169] fix: find_percolation_cluster tests every cluster,
 and only across the faces of the box

---
 src/tools21cm/percolation.py | 23 +++++++++--------------
 1 file changed, 9 insertions(+), 14 deletions(-)

diff --git a/src/tools21cm/percolation.py b/src/tools21cm/percolation.py
index b994741..11eca58 100755
--- a/src/tools21cm/percolation.py
+++ b/src/tools21cm/percolation.py
@@ -22,23 +22,18 @@ def find_percolation_cluster(data, xth=0.5, connectivity=1):
 
 	Returns
 	-------
-	Size of the cluster if percolation cluster is present else -1.
+	Size of the (largest) percolation cluster if one is present else 0.
 	"""
 
 	out_map, size_list = bubble_stats.fof(data, xth=xth, connectivity=connectivity)
-	out_uniq  = np.unique(out_map, return_counts=1)
-	if out_uniq[0].size<2:
-		if out_uniq[0][0]==1: return out_map.size
-		print('There is no percolation cluster in the data.') 
-		return 0
-	out_label = np.zeros_like(out_map)
-	out_label[out_map==out_uniq[0][1]] = 1
-	isPerc = False
-	if np.any(out_label+np.roll(out_label, 1, axis=0)>1): isPerc = True
-	if np.any(out_label+np.roll(out_label, 1, axis=1)>1): isPerc = True
-	if np.any(out_label+np.roll(out_label, 1, axis=2)>1): isPerc = True
-	if isPerc:
-		return out_label.sum()
+	# a cluster percolates if it joins itself across a face of the (periodic) box
+	perc_size = 0
+	for axis in range(out_map.ndim):
+		first, last = np.take(out_map, 0, axis=axis), np.take(out_map, -1, axis=axis)
+		for label in np.unique(first[(first==last) & (first>0)]):
+			perc_size = max(perc_size, int(np.sum(out_map==label)))
+	if perc_size>0:
+		return perc_size
 	print('There is no percolation cluster in the data.')
 	return 0
 
-- 
2.43.0


From 56db6f028586f9e533504434f4c42c3576f95d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:18 +0000
Subject: [PATCH 063/169] fix: granulometry works with NumPy without np.bool,
 np.int and np.float

---
 src/tools21cm/bubble_stats.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/tools21cm/bubble_stats.py b/src/tools21cm/bubble_stats.py
index f1821eb..753feb0 100755
--- a/src/tools21cm/bubble_stats.py
+++ b/src/tools21cm/bubble_stats.py
@@ -418,7 +418,7 @@ def disk_structure(n):
     x, y, z = np.indices((2*n+1, 2*n+1, 2*n+1))
     mask = (x - n)**2 + (y - n)**2 + (z - n)**2 <= n**2
     struct[mask] = 1
-    return struct.astype(np.bool)
+    return struct.astype(bool)
 
 
 def granulometry_CDF(data, sizes=None, verbose=True, n_jobs=1):
@@ -498,18 +498,18 @@ def _granulometry(data, n_jobs=1, verbose=True):
         x, y = np.indices((2 * n + 1, 2 * n + 1))
         mask = (x - n)**2 + (y - n)**2 <= n**2
         struct[mask] = 1
-        return struct.astype(np.bool)
+        return struct.astype(bool)
     def ball(n):
         struct = np.zeros((2*n+1, 2*n+1, 2*n+1))
         x, y, z = np.indices((2*n+1, 2*n+1, 2*n+1))
         mask = (x - n)**2 + (y - n)**2 + (z - n)**2 <= n**2
         struct[mask] = 1
-        return struct.astype(np.bool)
+        return struct.astype(bool)
 
     s = max(data.shape)
     dim   = data.ndim
-    pixel = range(np.int(s/2))
-    area0 = np.float(data.sum())
+    pixel = range(int(s/2))
+    area0 = float(data.sum())
     area  = np.zeros_like(pixel)
 
     def func(n):
-- 
2.43.0


From 75e452f8e10219f63d6c27a32ca55c8b629364df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:18 +0000
Subject: [PATCH 064/169] fix: watershed_bsd measures the sizes of the regions,
 not their labels

---
 src/tools21cm/bubble_stats.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tools21cm/bubble_stats.py b/src/tools21cm/bubble_stats.py
index 753feb0..6eacd8b 100755
--- a/src/tools21cm/bubble_stats.py
+++ b/src/tools21cm/bubble_stats.py
@@ -611,8 +611,8 @@ def watershed_bsd(data, xth=0.5, boxsize=None, verbose=True, upper_lim=False, h=
 	if n_jobs>1: print('Parallelization not implemented yet.')
 	labels = _watershed(mask, h=h)
 	uniq   = np.unique(labels[labels>0], return_counts=1)
-	r_list = np.cbrt(3*uniq[0]/4/np.pi)
-	r_pixl = np.arange(0, np.int(r_list.max()+2), 1)-0.5 
+	r_list = np.cbrt(3*uniq[1]/4/np.pi)
+	r_pixl = np.arange(0, int(r_list.max()+2), 1)-0.5 
 	
 	ht = np.histogram(r_list, bins=r_pixl)
 	dFdR, R = ht[0]/ht[0].sum(), ht[1][1:]/2+ht[1][:-1]/2
-- 
2.43.0


From a68104002d5953b40a77ef1c4293c879382d85df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:45 +0000
Subject: [PATCH 065/169] fix: watershed_bsd bins reach the largest region

---
 src/tools21cm/bubble_stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/bubble_stats.py b/src/tools21cm/bubble_stats.py
index 6eacd8b..c1fb95a 100755
--- a/src/tools21cm/bubble_stats.py
+++ b/src/tools21cm/bubble_stats.py
@@ -612,7 +612,7 @@ def watershed_bsd(data, xth=0.5, boxsize=None, verbose=True, upper_lim=False, h=
 	labels = _watershed(mask, h=h)
 	uniq   = np.unique(labels[labels>0], return_counts=1)
 	r_list = np.cbrt(3*uniq[1]/4/np.pi)
-	r_pixl = np.arange(0, int(r_list.max()+2), 1)-0.5 
+	r_pixl = np.arange(0, int(r_list.max()+2.5), 1)-0.5 
 	
 	ht = np.histogram(r_list, bins=r_pixl)
 	dFdR, R = ht[0]/ht[0].sum(), ht[1][1:]/2+ht[1][:-1]/2
-- 
2.43.0


From 0a324708cf21f933d7b29a96df960708ad47b2a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:01 +0000
Subject: [PATCH 066/169] fix: slic_cube does not take the last axis of the
 cube for colours

---
 src/tools21cm/superpixels.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/superpixels.py b/src/tools21cm/superpixels.py
index 457c0c8..bf9516d 100755
--- a/src/tools21cm/superpixels.py
+++ b/src/tools21cm/superpixels.py
@@ -25,7 +25,7 @@ def slic_cube(cube, n_segments=5000, compactness=0.1,
 	except: 
 		labels = slic(cube, n_segments=n_segments, compactness=compactness, 
 					  max_num_iter=max_iter, sigma=sigma, max_size_factor=max_size_factor, 
-					  slic_zero=True, start_label=0)
+					  slic_zero=True, channel_axis=-1 if multichannel else None, start_label=0)
 	if verbose: print("The output contains the labels with %d segments"%(labels.max()+1))
 	return labels
 
-- 
2.43.0


From 730c9646b486ebbe58ed09e4720185b49d31b392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:01 +0000
Subject: [PATCH 067/169] fix: superpixel maps of labels that do not count from
 zero

---
 src/tools21cm/superpixels.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/tools21cm/superpixels.py b/src/tools21cm/superpixels.py
index bf9516d..cf34dfa 100755
--- a/src/tools21cm/superpixels.py
+++ b/src/tools21cm/superpixels.py
@@ -43,7 +43,7 @@ def binary_stitch(data, labels, stitch='mean', thres=None):
 		if stitch=='otsu': thres = threshold_otsu(np.array(y1))
 		else: thres = X1.mean()
 	y2 = np.zeros(y.shape)
-	for i in np.unique(y): y2[y==i] = y1[i]
+	for i,lab in enumerate(np.unique(y)): y2[y==lab] = y1[i]
 	y2 = y2 < thres
 	return y2.reshape(data.shape)
 
@@ -127,12 +127,12 @@ def apply_operator_labelled_data(data, labels, operator=np.mean, verbose=True):
 	idx_low = 0
 	if verbose:
 		time.sleep(1)
-		for i in tqdm(elems, disable=False if verbose else True):
+		for i in tqdm(range(elems.size), disable=False if verbose else True):
 			idx_high = idx_low + num[i]
 			out.append(operator(X1[idx_low:idx_high]))
 			idx_low  = idx_high
 	else:
-		for i in elems:
+		for i in range(elems.size):
 			idx_high = idx_low + num[i]
 			out.append(operator(X1[idx_low:idx_high]))
 			idx_low  = idx_high
@@ -227,9 +227,9 @@ def superpixel_map(data, labels, mns=None, verbose=True):
 	if verbose:
 		print('Constructing the superpixel map...')
 		time.sleep(1)
-		for i in tqdm(range(mns.size)): sp_map[labels==i] = mns[i]
+		for i,lab in enumerate(tqdm(np.unique(labels))): sp_map[labels==lab] = mns[i]
 	else:
-		for i in range(mns.size): sp_map[labels==i] = mns[i]
+		for i,lab in enumerate(np.unique(labels)): sp_map[labels==lab] = mns[i]
 	return sp_map
 
 
-- 
2.43.0


From a8389d64fd64bce80a40911c6afad288a98ef0d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:01 +0000
Subject: [PATCH 068/169] fix: stitch_using_histogram accepts a histogram that
 peaks in its first bin

---
 src/tools21cm/superpixels.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/superpixels.py b/src/tools21cm/superpixels.py
index cf34dfa..796483c 100755
--- a/src/tools21cm/superpixels.py
+++ b/src/tools21cm/superpixels.py
@@ -81,7 +81,7 @@ def stitch_using_histogram(data, mns, labels, bins='knuth', binary=True, on_supe
 	ht  = histogram(mns, bins=bins)
 	if ht[0].argmax()==0: peaks = argrelextrema(np.hstack((0,ht[0])), np.greater)[0]
 	else: peaks = argrelextrema(ht[0], np.greater)[0]
-	if peaks.size==1:
+	if peaks.size==1 and ht[0].argmax()>0:
 		x1,y1 = ht[1][0], ht[0][0]
 		y0 = ht[0].max()
 		bla = ht[0].argmax()
-- 
2.43.0


From f8623514755659084585310cde6b0445a5538428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:01 +0000
Subject: [PATCH 069/169] fix: get_superpixel_SNRs sorts the list of pixels

---
 src/tools21cm/superpixels.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/superpixels.py b/src/tools21cm/superpixels.py
index 796483c..e331def 100755
--- a/src/tools21cm/superpixels.py
+++ b/src/tools21cm/superpixels.py
@@ -177,7 +177,7 @@ def get_superpixel_SNRs(means=None, sigmas=None, n_pix=None, data=None, labels=N
 	means  = means[sorts]
 	if pixels:
 		pxls = get_superpixel_pixels(data=data, labels=labels, slic_segments=slic_segments)
-		pxls = pxls[sorts]
+		pxls = [pxls[i] for i in sorts]
 		return means/sigmas, means, sigmas, n_pix, pxls
 	return means/sigmas, means, sigmas, n_pix
 
-- 
2.43.0


From f67b2e284749e7b47f5fb4ef29eecc9e29554f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:01 +0000
Subject: [PATCH 070/169] fix: mean_estimate works from the data and labels it
 is given

---
 src/tools21cm/superpixels.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/superpixels.py b/src/tools21cm/superpixels.py
index e331def..a3dbb07 100755
--- a/src/tools21cm/superpixels.py
+++ b/src/tools21cm/superpixels.py
@@ -194,7 +194,7 @@ def mean_estimate(data, means=None, sigmas=None, n_pix=None, labels=None, slic_s
 	#if means is None: means  = get_superpixel_means(data, labels=labels, slic_segments=slic_segments)
 	#if sigmas is None: sigmas = get_superpixel_sigmas(data, labels=labels, slic_segments=slic_segments)
 	#if n_pix is None: n_pix = get_superpixel_n_pixels(data, labels=labels, slic_segments=slic_segments)
-	SNRs, means, sigmas, n_pix = get_superpixel_SNRs(means=means, sigmas=sigmas, n_pix=n_pix)
+	SNRs, means, sigmas, n_pix = get_superpixel_SNRs(means=means, sigmas=sigmas, n_pix=n_pix, data=data, labels=labels, slic_segments=slic_segments)
 	if SNR_thres<=0: locs = SNRs<SNR_thres
 	else: locs = SNRs<-SNR_thres
 	global_means  = np.abs(means[locs])
-- 
2.43.0


From dd6744672b4541f4e88cf4563b5b4f9e05ceace4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:01 +0000
Subject: [PATCH 071/169] fix: subtract_mean_signal and signal_overdensity
 accept integer cubes

---
 src/tools21cm/statistics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tools21cm/statistics.py b/src/tools21cm/statistics.py
index 615becf..6d1642d 100755
--- a/src/tools21cm/statistics.py
+++ b/src/tools21cm/statistics.py
@@ -72,7 +72,7 @@ def subtract_mean_signal(signal, los_axis=2):
 		
 	TODO:vectorize 
 	'''
-	signal_out = signal.copy()
+	signal_out = signal.astype(signal.dtype if np.issubdtype(signal.dtype, np.inexact) else float)
 	
 	for i in range(signal.shape[los_axis]):
 		if los_axis in [0,-3]:
@@ -98,7 +98,7 @@ def signal_overdensity(signal, los_axis):
 		
 	TODO:vectorize 
 	'''
-	signal_out = signal.copy()
+	signal_out = signal.astype(signal.dtype if np.issubdtype(signal.dtype, np.inexact) else float)
 	
 	for i in range(signal.shape[los_axis]):
 		if los_axis == 0:
-- 
2.43.0


From 9116c8f42f63399c41e570096e3abcfd05810c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:02 +0000
Subject: [PATCH 072/169] fix: signal_overdensity divides along negative axes
 too

---
 src/tools21cm/statistics.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tools21cm/statistics.py b/src/tools21cm/statistics.py
index 6d1642d..e53b50b 100755
--- a/src/tools21cm/statistics.py
+++ b/src/tools21cm/statistics.py
@@ -101,11 +101,11 @@ def signal_overdensity(signal, los_axis):
 	signal_out = signal.astype(signal.dtype if np.issubdtype(signal.dtype, np.inexact) else float)
 	
 	for i in range(signal.shape[los_axis]):
-		if los_axis == 0:
+		if los_axis in [0,-3]:
 			signal_out[i,:,:] /= signal[i,:,:].mean()
-		if los_axis == 1:
+		if los_axis in [1,-2]:
 			signal_out[:,i,:] /= signal[:,i,:].mean()
-		if los_axis == 2:
+		if los_axis in [2,-1]:
 			signal_out[:,:,i] /= signal[:,:,i].mean()
 
 	return signal_out - 1.
-- 
2.43.0


From d728e483eb99291bd2b5da9b21a949e4caf02435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:02 +0000
Subject: [PATCH 073/169] fix: apply_func_along_los covers every slice of a
 vector field

---
 src/tools21cm/statistics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/statistics.py b/src/tools21cm/statistics.py
index e53b50b..b2d8597 100755
--- a/src/tools21cm/statistics.py
+++ b/src/tools21cm/statistics.py
@@ -135,7 +135,7 @@ def apply_func_along_los(signal, func, los_axis):
 		
 	'''
 	assert los_axis >= 0 and los_axis < len(signal.shape)
-	output = np.zeros(signal.shape[los_axis])
+	output = np.zeros(signal.shape[los_axis + signal.ndim - 3])
 	
 	for i in range(len(output)):
 		signal_slice = _get_slice(signal, i, los_axis)
-- 
2.43.0


From 475c66048969133de44357275d27d645843ef94b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:43 +0000
Subject: [PATCH 074/169] fix: earth_rotation_effect keeps a single baseline as
 a row

---
 src/tools21cm/radio_telescope_layout.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/radio_telescope_layout.py b/src/tools21cm/radio_telescope_layout.py
index ed23305..4a6209f 100755
--- a/src/tools21cm/radio_telescope_layout.py
+++ b/src/tools21cm/radio_telescope_layout.py
@@ -143,7 +143,7 @@ def earth_rotation_effect(Nbase, slice_nums, int_time, total_int_time, declinati
     new_Nbase[:, :, 2] = (cos_delta * cos_HA[:, None] * Nbase[:, 0] -
                           cos_delta * sin_HA[:, None] * Nbase[:, 1] + sin_delta * Nbase[:, 2])
     
-    return new_Nbase.squeeze() if len(slice_nums) == 1 else new_Nbase
+    return new_Nbase[0] if len(slice_nums) == 1 else new_Nbase
 
 def get_uv_daily_observation(ncells, z, antxyz=None, total_int_time=4., int_time=10., boxsize=None, declination=-30., include_mirror_baselines=False, verbose=True):
     """
-- 
2.43.0


From 5fd6ced6c285665418234728f329146887827120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:43 +0000
Subject: [PATCH 075/169] fix: grid_uv_tracks puts zero frequency first for odd
 grids

---
 src/tools21cm/radio_telescope_layout.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/radio_telescope_layout.py b/src/tools21cm/radio_telescope_layout.py
index 4a6209f..7e30bbe 100755
--- a/src/tools21cm/radio_telescope_layout.py
+++ b/src/tools21cm/radio_telescope_layout.py
@@ -265,7 +265,7 @@ def grid_uv_tracks(Nbase, z, ncells, boxsize=None, include_mirror_baselines=Fals
         # uv_map += np.flip(np.flip(uv_map, axis=0), axis=1)  # Flip along both axes for mirror effect
         uv_map = uv_map/2.  # Average with mirrored baselines
     
-    return np.fft.fftshift(uv_map)
+    return np.fft.ifftshift(uv_map)
 
 def geographic_to_cartesian_coordinate_system(antll):
     """
-- 
2.43.0


From 459970b3dcf32eb212f8a3797ce8a64fc9f03252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:43 +0000
Subject: [PATCH 076/169] fix: from_antenna_config accepts plain arrays of
 positions

---
 src/tools21cm/radio_telescope_layout.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/radio_telescope_layout.py b/src/tools21cm/radio_telescope_layout.py
index 7e30bbe..0949fa1 100755
--- a/src/tools21cm/radio_telescope_layout.py
+++ b/src/tools21cm/radio_telescope_layout.py
@@ -67,7 +67,7 @@ def from_antenna_config(antxyz, z, nu=None):
         antll  = SKA1_LowConfig_Sept2016()
         antll  = antll[:,-2:].astype(float)
         antxyz = geographic_to_cartesian_coordinate_system(antll)
-    else:
+    elif isinstance(antxyz, u.Quantity):
         antxyz = antxyz.to('m').value
     if not nu: 
         nu = cm.z_to_nu(z)                           # MHz
-- 
2.43.0


From 27c5eb1df63fef8f6ea0dfc0fba087b0360423ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:43 +0000
Subject: [PATCH 077/169] fix: cartesian_to_geographic_coordinate_system works

---
 src/tools21cm/radio_telescope_layout.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tools21cm/radio_telescope_layout.py b/src/tools21cm/radio_telescope_layout.py
index 0949fa1..3c06c64 100755
--- a/src/tools21cm/radio_telescope_layout.py
+++ b/src/tools21cm/radio_telescope_layout.py
@@ -337,8 +337,8 @@ def cartesian_to_geographic_coordinate_system(antxyz):
     Re = 6371. * u.km  # Earth's radius
 
     # Extract Cartesian coordinates and attach units
-    if isinstance(antxyz, u.quantity.Quantity):
-        antxyz *= u.m
+    if not isinstance(antxyz, u.quantity.Quantity):
+        antxyz = antxyz*u.m
     x = antxyz[:, 0]
     y = antxyz[:, 1]
     z = antxyz[:, 2]
-- 
2.43.0


From 7461790805669dc972a4650982fcc44d8424ceec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:43 +0000
Subject: [PATCH 078/169] fix: get_SKA_Low_layout gives geodetic positions

---
 src/tools21cm/radio_telescope_layout.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tools21cm/radio_telescope_layout.py b/src/tools21cm/radio_telescope_layout.py
index 3c06c64..2a8a669 100755
--- a/src/tools21cm/radio_telescope_layout.py
+++ b/src/tools21cm/radio_telescope_layout.py
@@ -504,6 +504,7 @@ def get_SKA_Low_layout(subarray_type="AA4", unit='ecef', verbose=True):
         ant_xyz = ecef_to_xyz(ant_ecef, lon, origin_ecef)
         return ant_xyz * u.m
     elif unit in ['latlon', 'geodetic']:
+        ant_ecef = enu_to_ecef(ant_enu, lat, lon, origin_ecef)
         locations = EarthLocation.from_geocentric(ant_ecef[:, 0], ant_ecef[:, 1], ant_ecef[:, 2], unit=u.m)
         return locations.lat.deg, locations.lon.deg, locations.height.to(u.m).value
     else:
-- 
2.43.0


From 6cba59a1d5fa71f78b308d4c86b8e16edaa542f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:55 +0000
Subject: [PATCH 079/169] fix: uv maps with gains and antenna stamps rotate
 about the requested declination

---
 src/tools21cm/radio_telescope_calibration.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/tools21cm/radio_telescope_calibration.py b/src/tools21cm/radio_telescope_calibration.py
index 1bc88e5..3adb359 100755
--- a/src/tools21cm/radio_telescope_calibration.py
+++ b/src/tools21cm/radio_telescope_calibration.py
@@ -172,7 +172,7 @@ def get_uv_map_with_gains(ncells, z,
             Nbase, N_ant = from_antenna_config_with_gains(antxyz, z, gain_model=gain_model)
 
         # Apply incremental rotation for the time step
-        rotated_Nbase = earth_rotation_effect(Nbase[:,:3], time_idx, int_time, declination)
+        rotated_Nbase = earth_rotation_effect(Nbase[:,:3], time_idx, int_time, total_int_time, declination)
 
         # Grid the rotated baselines with gain values
         _grid_uv_tracks_with_gains(rotated_Nbase, Nbase[:,3:], gain_uv_map, z, ncells,
@@ -392,7 +392,7 @@ def get_full_uv_map_with_antenna_stamp(ncells, z, subarray_type="AA4", total_int
     # Parallel processing with progress bar for the first chunk
     results = Parallel(n_jobs=n_jobs)(
         delayed(_process_chunk_get_full_uv_map_with_antenna_stamp)(
-            chunk_start, chunk_end, ncells, z, Nbase, int_time, declination, boxsize, include_mirror_baselines, verbose, show_progress=(i == 0))
+            chunk_start, chunk_end, ncells, z, Nbase, int_time, total_int_time, declination, boxsize, include_mirror_baselines, verbose, show_progress=(i == 0))
             for i, (chunk_start, chunk_end) in enumerate(chunks)
     )
 
@@ -404,7 +404,7 @@ def get_full_uv_map_with_antenna_stamp(ncells, z, subarray_type="AA4", total_int
 
     return ant_tag_uv_map, N_ant
 
-def _process_chunk_get_full_uv_map_with_antenna_stamp(chunk_start, chunk_end, ncells, z, Nbase, int_time, declination, boxsize, include_mirror_baselines, verbose, show_progress):
+def _process_chunk_get_full_uv_map_with_antenna_stamp(chunk_start, chunk_end, ncells, z, Nbase, int_time, total_int_time, declination, boxsize, include_mirror_baselines, verbose, show_progress):
     """
     Process a chunk of time slices.
 
@@ -422,6 +422,8 @@ def _process_chunk_get_full_uv_map_with_antenna_stamp(chunk_start, chunk_end, nc
         Array containing ux, uy, uz values of the antenna configuration.
     int_time : float
         Integration time (in seconds).
+    total_int_time : float
+        Total observation time per day (in hours).
     declination : float
         Declination angle in degrees.
     boxsize : float
@@ -449,7 +451,7 @@ def _process_chunk_get_full_uv_map_with_antenna_stamp(chunk_start, chunk_end, nc
         time_indices = tqdm(time_indices, desc="Gridding uv tracks", disable=not verbose)
 
     for time_idx in time_indices:
-        rotated_Nbase = earth_rotation_effect(Nbase[:, :3], time_idx, int_time, declination)
+        rotated_Nbase = earth_rotation_effect(Nbase[:, :3], time_idx, int_time, total_int_time, declination)
         _grid_uv_tracks_with_antenna_stamp(rotated_Nbase, Nbase[:, 3:], ant_tag_uv_map_chunk, z, ncells, time_idx - chunk_start,
                                           boxsize=boxsize, include_mirror_baselines=include_mirror_baselines)
 
@@ -591,7 +593,7 @@ def get_full_uv_lagrangian_with_antenna_stamp(ncells, z, subarray_type="AA4", to
     # Parallel processing with progress bar for the first chunk
     results = Parallel(n_jobs=n_jobs)(
         delayed(_process_chunk_get_full_uv_lagrangian_with_antenna_stamp)(
-            chunk_start, chunk_end, ncells, z, Nbase, int_time, declination, boxsize, include_mirror_baselines, verbose, show_progress=(i == 0))
+            chunk_start, chunk_end, ncells, z, Nbase, int_time, total_int_time, declination, boxsize, include_mirror_baselines, verbose, show_progress=(i == 0))
             for i, (chunk_start, chunk_end) in enumerate(chunks)
     )
 
@@ -604,7 +606,7 @@ def get_full_uv_lagrangian_with_antenna_stamp(ncells, z, subarray_type="AA4", to
     ant_pairs = Nbase[:,-2:]
     return ant_tag_uv_lagr, ant_pairs
 
-def _process_chunk_get_full_uv_lagrangian_with_antenna_stamp(chunk_start, chunk_end, ncells, z, Nbase, int_time, declination, boxsize, include_mirror_baselines, verbose, show_progress):
+def _process_chunk_get_full_uv_lagrangian_with_antenna_stamp(chunk_start, chunk_end, ncells, z, Nbase, int_time, total_int_time, declination, boxsize, include_mirror_baselines, verbose, show_progress):
     """
     Processes a chunk of observation time slices for parallel computation.
 
@@ -626,6 +628,8 @@ def _process_chunk_get_full_uv_lagrangian_with_antenna_stamp(chunk_start, chunk_
         Array containing initial baseline vectors (ux, uy, uz) and antenna tags.
     int_time : float, optional
         Integration time for each snapshot, in seconds.
+    total_int_time : float
+        Total observation time per day, in hours.
     declination : float, optional
         Declination of the pointing center, in degrees.
     boxsize : float, optional
@@ -650,7 +654,7 @@ def _process_chunk_get_full_uv_lagrangian_with_antenna_stamp(chunk_start, chunk_
         time_indices = tqdm(time_indices, desc="Gridding uv tracks", disable=not verbose)
 
     for time_idx in time_indices:
-        rotated_Nbase = earth_rotation_effect(Nbase[:, :3], time_idx, int_time, declination)
+        rotated_Nbase = earth_rotation_effect(Nbase[:, :3], time_idx, int_time, total_int_time, declination)
         _grid_uv_lagrangian_tracks_with_antenna_stamp(rotated_Nbase, Nbase[:, 3:], ant_tag_uv_map_chunk, z, ncells, time_idx - chunk_start,
                                           boxsize=boxsize, include_mirror_baselines=include_mirror_baselines)
 
-- 
2.43.0


From 9d967b090798afcc6f5760c8a552fdff19ca49ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:55 +0000
Subject: [PATCH 080/169] fix: antenna stamp maps of fewer time steps than
 workers

---
 src/tools21cm/radio_telescope_calibration.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tools21cm/radio_telescope_calibration.py b/src/tools21cm/radio_telescope_calibration.py
index 3adb359..961af99 100755
--- a/src/tools21cm/radio_telescope_calibration.py
+++ b/src/tools21cm/radio_telescope_calibration.py
@@ -386,7 +386,7 @@ def get_full_uv_map_with_antenna_stamp(ncells, z, subarray_type="AA4", total_int
         print(f"Starting UV map generation on {n_jobs} CPUs...")
 
     # Split the workload into chunks
-    chunk_size = total_observations // n_jobs
+    chunk_size = max(total_observations // n_jobs, 1)
     chunks = [(i, min(i + chunk_size, total_observations)) for i in range(0, total_observations, chunk_size)]
 
     # Parallel processing with progress bar for the first chunk
@@ -587,7 +587,7 @@ def get_full_uv_lagrangian_with_antenna_stamp(ncells, z, subarray_type="AA4", to
         print(f"Starting UV map generation on {n_jobs} CPUs...")
 
     # Split the workload into chunks
-    chunk_size = total_observations // n_jobs
+    chunk_size = max(total_observations // n_jobs, 1)
     chunks = [(i, min(i + chunk_size, total_observations)) for i in range(0, total_observations, chunk_size)]
 
     # Parallel processing with progress bar for the first chunk
-- 
2.43.0


From 1d7db3891a195427fe47f78ab6548ffa62d368ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:55 +0000
Subject: [PATCH 081/169] fix: uv tracks per baseline stay in the row of their
 baseline

---
 src/tools21cm/radio_telescope_calibration.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/tools21cm/radio_telescope_calibration.py b/src/tools21cm/radio_telescope_calibration.py
index 961af99..aaef0b6 100755
--- a/src/tools21cm/radio_telescope_calibration.py
+++ b/src/tools21cm/radio_telescope_calibration.py
@@ -712,13 +712,9 @@ def _grid_uv_lagrangian_tracks_with_antenna_stamp(Nbase, ant_tag, ant_tag_uv_map
         (Nb[:, 0] < ncells / 2) & (Nb[:, 1] < ncells / 2) &
         (Nb[:, 0] >= -ncells / 2) & (Nb[:, 1] >= -ncells / 2)
     )
-    ant_tag1, ant_tag2 = ant_tag[:,0], ant_tag[:,1]
-    Nb, ant_tag1, ant_tag2 = Nb[in_bounds], ant_tag1[in_bounds], ant_tag2[in_bounds]
     
-    count = 0
-    for (x, y), ant1, ant2 in zip(Nb[:, :2].astype(int), ant_tag1.astype(int), ant_tag2.astype(int)):
-        ant_tag_uv_map[time_idx, count, 0] = x
-        ant_tag_uv_map[time_idx, count, 1] = y
-        count += 1
+    for count in np.flatnonzero(in_bounds):
+        ant_tag_uv_map[time_idx, count, 0] = Nb[count, 0]
+        ant_tag_uv_map[time_idx, count, 1] = Nb[count, 1]
         if include_mirror_baselines:
             print('include_mirror_baselines is not implemented yet.')
\ No newline at end of file
-- 
2.43.0


From 87823389bcc47633e4973052663ab1ff2341d272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:58 +0000
Subject: [PATCH 082/169] fix: get_uv_map cuts at the maximum baseline around
 zero frequency

---
 src/tools21cm/radio_telescope_noise.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/tools21cm/radio_telescope_noise.py b/src/tools21cm/radio_telescope_noise.py
index 7f20458..d7d55ac 100755
--- a/src/tools21cm/radio_telescope_noise.py
+++ b/src/tools21cm/radio_telescope_noise.py
@@ -614,12 +614,10 @@ def get_uv_map(ncells, z, subarray_type="AA4", total_int_time=6., int_time=10.,
 	uv_map, N_ant  = get_uv_daily_observation(ncells, z, antxyz, total_int_time=total_int_time, int_time=int_time, boxsize=boxsize, declination=declination, include_mirror_baselines=include_mirror_baselines, verbose=verbose)
 	if max_baseline is not None:
 		kcut = max_baseline_to_max_k(z, max_baseline)
-		kk = np.linspace(-ncells/2, ncells/2, ncells) * np.pi / boxsize
+		kk = np.fft.fftfreq(ncells) * ncells * np.pi / boxsize
 		kx, ky = np.meshgrid(kk, kk)
 		ksq = kx**2 + ky**2
-		uv_map_shift = np.fft.fftshift(uv_map)
-		uv_map_shift[ksq>kcut**2] = 0.0
-		uv_map = np.fft.fftshift(uv_map_shift)
+		uv_map[ksq>kcut**2] = 0.0
 	return uv_map, N_ant
 
 def make_uv_map_lightcone(ncells, zs, subarray_type="AA4", total_int_time=6., int_time=10., boxsize=None, declination=-30., verbose=True):
-- 
2.43.0


From 203f0390e7cb40f24e0f967f29164b1412a28849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:58 +0000
Subject: [PATCH 083/169] fix: uv maps computed in parallel use the cosmology
 that was set

---
 src/tools21cm/const.py                 | 13 +++++++++++++
 src/tools21cm/radio_telescope_noise.py |  8 ++++++--
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/tools21cm/const.py b/src/tools21cm/const.py
index 79997a1..9a1c16a 100755
--- a/src/tools21cm/const.py
+++ b/src/tools21cm/const.py
@@ -115,6 +115,19 @@ num_h_0=(1-abu_he_mass)*OmegaB*rho_crit_0/m_p
 # meandt = 2.9*0.043/0.04
 meandt = 3.0*lambda0**3/(32.*np.pi)*A10*Tstar*num_h_0/(H0cgs/h)*1000.
 
+def get_settings():
+	'''
+	The current values of all the constants, to hand over to another process.
+	'''
+	return {name: value for name, value in globals().items() if isinstance(value, (int, float))}
+
+def run_with_settings(settings, func, *args, **kwargs):
+	'''
+	Run func in a worker process with the constants set as in the process that gave them (see get_settings).
+	'''
+	globals().update(settings)
+	return func(*args, **kwargs)
+
 def _update_derived():
 	'''
 	Recompute the quantities above that follow from the settings.
diff --git a/src/tools21cm/radio_telescope_noise.py b/src/tools21cm/radio_telescope_noise.py
index d7d55ac..4c22f9a 100755
--- a/src/tools21cm/radio_telescope_noise.py
+++ b/src/tools21cm/radio_telescope_noise.py
@@ -9,6 +9,7 @@ import numpy as np
 import sys
 from .radio_telescope_sensitivity import *
 from .usefuls import *
+from . import const
 from . import conv
 from . import cosmo as cm
 from . import smoothing as sm
@@ -265,6 +266,9 @@ def get_uv_map_lightcone(ncells, zs, subarray_type="AA4", total_int_time=6., int
 		# Define the worker function for a single redshift
 		_uvmap_worker = lambda zi: get_uv_map(ncells, zi, subarray_type=antxyz, total_int_time=total_int_time, int_time=int_time, boxsize=boxsize, declination=declination, verbose=False)[0]
 		
+		# Worker processes need the cosmology set in this one
+		settings = const.get_settings()
+
 		# Condition for using chunked parallel processing with checkpoints
 		use_chunked_parallel = n_jobs > 1 and checkpoint is not None and checkpoint > 0
 
@@ -277,7 +281,7 @@ def get_uv_map_lightcone(ncells, zs, subarray_type="AA4", total_int_time=6., int
 				
 				# Run the parallel job on the current chunk
 				# Set inner verbose to 0 to avoid clutter; outer tqdm handles progress
-				results_chunk = Parallel(n_jobs=n_jobs, verbose=0)(delayed(_uvmap_worker)(zi) for zi in z_chunk)
+				results_chunk = Parallel(n_jobs=n_jobs, verbose=0)(delayed(const.run_with_settings)(settings, _uvmap_worker, zi) for zi in z_chunk)
 				
 				# Update the main dictionary with the results from the chunk
 				for zi, uv_map in zip(z_chunk, results_chunk):
@@ -292,7 +296,7 @@ def get_uv_map_lightcone(ncells, zs, subarray_type="AA4", total_int_time=6., int
 			if n_jobs > 1:
 				# Parallel processing for all z's at once
 				if verbose: print(f"Generating all {len(z_to_run)} maps in parallel...")
-				results = Parallel(n_jobs=n_jobs, verbose=10 if verbose else 0)(delayed(_uvmap_worker)(i) for i in z_to_run)
+				results = Parallel(n_jobs=n_jobs, verbose=10 if verbose else 0)(delayed(const.run_with_settings)(settings, _uvmap_worker, i) for i in z_to_run)
 				for zi, uv_map in zip(z_to_run, results):
 					uvs['{:.3f}'.format(zi)] = uv_map
 			else:
-- 
2.43.0


From 3e019245e297856b7da61d505e41a9b7e1200cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:58 +0000
Subject: [PATCH 084/169] fix: antenna stamp maps computed in parallel use the
 cosmology and box that were set

---
 src/tools21cm/radio_telescope_calibration.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/tools21cm/radio_telescope_calibration.py b/src/tools21cm/radio_telescope_calibration.py
index aaef0b6..0aa9321 100755
--- a/src/tools21cm/radio_telescope_calibration.py
+++ b/src/tools21cm/radio_telescope_calibration.py
@@ -9,6 +9,7 @@ import numpy as np
 import sys
 from .radio_telescope_sensitivity import *
 from .usefuls import *
+from . import const
 from . import conv
 from . import cosmo as cm
 from . import smoothing as sm
@@ -385,13 +386,18 @@ def get_full_uv_map_with_antenna_stamp(ncells, z, subarray_type="AA4", total_int
     if verbose:
         print(f"Starting UV map generation on {n_jobs} CPUs...")
 
+    # Worker processes need the cosmology and box size set in this one
+    settings = const.get_settings()
+    if boxsize is None:
+        boxsize = conv.LB
+
     # Split the workload into chunks
     chunk_size = max(total_observations // n_jobs, 1)
     chunks = [(i, min(i + chunk_size, total_observations)) for i in range(0, total_observations, chunk_size)]
 
     # Parallel processing with progress bar for the first chunk
     results = Parallel(n_jobs=n_jobs)(
-        delayed(_process_chunk_get_full_uv_map_with_antenna_stamp)(
+        delayed(const.run_with_settings)(settings, _process_chunk_get_full_uv_map_with_antenna_stamp, 
             chunk_start, chunk_end, ncells, z, Nbase, int_time, total_int_time, declination, boxsize, include_mirror_baselines, verbose, show_progress=(i == 0))
             for i, (chunk_start, chunk_end) in enumerate(chunks)
     )
@@ -586,13 +592,18 @@ def get_full_uv_lagrangian_with_antenna_stamp(ncells, z, subarray_type="AA4", to
     if verbose:
         print(f"Starting UV map generation on {n_jobs} CPUs...")
 
+    # Worker processes need the cosmology and box size set in this one
+    settings = const.get_settings()
+    if boxsize is None:
+        boxsize = conv.LB
+
     # Split the workload into chunks
     chunk_size = max(total_observations // n_jobs, 1)
     chunks = [(i, min(i + chunk_size, total_observations)) for i in range(0, total_observations, chunk_size)]
 
     # Parallel processing with progress bar for the first chunk
     results = Parallel(n_jobs=n_jobs)(
-        delayed(_process_chunk_get_full_uv_lagrangian_with_antenna_stamp)(
+        delayed(const.run_with_settings)(settings, _process_chunk_get_full_uv_lagrangian_with_antenna_stamp, 
             chunk_start, chunk_end, ncells, z, Nbase, int_time, total_int_time, declination, boxsize, include_mirror_baselines, verbose, show_progress=(i == 0))
             for i, (chunk_start, chunk_end) in enumerate(chunks)
     )
-- 
2.43.0


From 7bbb2c33fccd5fc52bbe639b4c87a23182a6bd95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:51 +0000
Subject: [PATCH 085/169] fix: get_uv_map_lightcone takes an array of antenna
 positions

---
 src/tools21cm/radio_telescope_noise.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tools21cm/radio_telescope_noise.py b/src/tools21cm/radio_telescope_noise.py
index 4c22f9a..2273a77 100755
--- a/src/tools21cm/radio_telescope_noise.py
+++ b/src/tools21cm/radio_telescope_noise.py
@@ -218,7 +218,7 @@ def get_uv_map_lightcone(ncells, zs, subarray_type="AA4", total_int_time=6., int
 	antxyz, N_ant = subarray_type_to_antxyz(subarray_type, verbose=verbose)
 	if boxsize is None: boxsize = conv.LB
 	if isinstance(zs, list): zs = np.array(zs)
-	if subarray_type.upper()=='AA*': subarray_type = 'AAstar'
+	if isinstance(subarray_type, str) and subarray_type.upper()=='AA*': subarray_type = 'AAstar'
 
 	# Define a dictionary of simulation parameters 
 	params = {
@@ -241,7 +241,7 @@ def get_uv_map_lightcone(ncells, zs, subarray_type="AA4", total_int_time=6., int
 		for key, current_val in params.items():
 			cached_val = uvs.get(key)
 			# Check for a mismatch
-			if cached_val is not None and cached_val != current_val:
+			if cached_val is not None and not np.array_equal(cached_val, current_val):
 				# Add the error message to a list instead of raising immediately
 				mismatch_msg = f"  - '{key}': Cached value is '{cached_val}', but current call requested '{current_val}'."
 				mismatches.append(mismatch_msg)
-- 
2.43.0


From 667181ed831e0266adc5121f4ee258b3e7bcd9e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:51 +0000
Subject: [PATCH 086/169] fix: uv maps saved for another cosmology are not
 reused

---
 src/tools21cm/radio_telescope_noise.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tools21cm/radio_telescope_noise.py b/src/tools21cm/radio_telescope_noise.py
index 2273a77..17bbae5 100755
--- a/src/tools21cm/radio_telescope_noise.py
+++ b/src/tools21cm/radio_telescope_noise.py
@@ -229,6 +229,10 @@ def get_uv_map_lightcone(ncells, zs, subarray_type="AA4", total_int_time=6., int
 		'declination': declination,
 		'subarray_type': subarray_type,
 		'N_ant': N_ant,
+		# the redshifts are mapped to the sky with this cosmology
+		'Omega0': const.Omega0,
+		'lam': const.lam,
+		'h': const.h,
 	}
 
 	# Attempt to load existing UV maps
-- 
2.43.0


From 4c5844f08b1b92975063d572971d28a6349265e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:51 +0000
Subject: [PATCH 087/169] fix: interrupting the save of uv maps does not
 destroy those saved before

---
 src/tools21cm/radio_telescope_noise.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/tools21cm/radio_telescope_noise.py b/src/tools21cm/radio_telescope_noise.py
index 17bbae5..4e33a27 100755
--- a/src/tools21cm/radio_telescope_noise.py
+++ b/src/tools21cm/radio_telescope_noise.py
@@ -180,6 +180,15 @@ def noise_coeval_power_spectrum_1d(ncells, z, depth_mhz, obs_time=1000, subarray
 		return pn, kn, n_modes
 	return pn, kn
 
+def _save_uv_maps(uvs, save_uvmap):
+	'''
+	(Internal) Save the uv maps such that an interruption leaves the previous file intact.
+	'''
+	directory, filename = os.path.split(save_uvmap)
+	temporary = os.path.join(directory, 'incomplete_' + filename)
+	write_dictionary_data(uvs, temporary)
+	os.replace(temporary, save_uvmap)
+
 def get_uv_map_lightcone(ncells, zs, subarray_type="AA4", total_int_time=6., int_time=10., boxsize=None, declination=-30., 
     save_uvmap=None, n_jobs=4, verbose=True, checkpoint=16):
 	"""
@@ -294,7 +303,7 @@ def get_uv_map_lightcone(ncells, zs, subarray_type="AA4", total_int_time=6., int
 				# Save after processing the chunk
 				if save_uvmap:
 					if verbose: print(f"\nCheckpoint: Saving results to {save_uvmap}")
-					write_dictionary_data(uvs, save_uvmap)
+					_save_uv_maps(uvs, save_uvmap)
 
 		else: # Original behavior: either sequential or parallel without checkpoints
 			if n_jobs > 1:
@@ -313,12 +322,12 @@ def get_uv_map_lightcone(ncells, zs, subarray_type="AA4", total_int_time=6., int
 					is_not_last_step = (i + 1) < len(z_to_run)
 					if save_uvmap and is_checkpoint_step and is_not_last_step:
 						if verbose: print(f"\nCheckpoint: Saving results to {save_uvmap}")
-						write_dictionary_data(uvs, save_uvmap)
+						_save_uv_maps(uvs, save_uvmap)
 		
 		# Final save to ensure the last chunk or the full result is written
 		if save_uvmap:
 			if verbose: print(f"Saving final updated UV maps to {save_uvmap}")
-			write_dictionary_data(uvs, save_uvmap)
+			_save_uv_maps(uvs, save_uvmap)
 			
 	elif verbose:
 		print("All requested redshift UV maps are already present.")
-- 
2.43.0


From 1724422d777c4e7e01378d7c70b7f342043608bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:41 +0000
Subject: [PATCH 088/169] fix: get_SEFD with constant system temperature and
 aperture efficiency

---
 src/tools21cm/radio_telescope_sensitivity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/radio_telescope_sensitivity.py b/src/tools21cm/radio_telescope_sensitivity.py
index ab00297..307fcda 100755
--- a/src/tools21cm/radio_telescope_sensitivity.py
+++ b/src/tools21cm/radio_telescope_sensitivity.py
@@ -90,7 +90,7 @@ def get_SEFD(nu_obs, T_sys=None, sefd_data=None, nu_data=None, D_station=40., ep
 	A_eff = ep_aperture_val * np.pi * ant_radius_ska ** 2  # m^2
 
 	# SEFD in Jy
-	sefd = 2 * KB_SI * T_sys_val / A_eff / janskytowatt  # Jy
+	sefd = 2 * KB_SI * T_sys_val / A_eff / janskytowatt * np.ones(nu_obs.shape)  # Jy
 
 	# Return a scalar if input was scalar
 	return sefd[0] if nu_obs.size == 1 else sefd
-- 
2.43.0


From 58e0c2e05a419f739de01aa2b4a7695ec7b840cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:41 +0000
Subject: [PATCH 089/169] fix: apply_uv_response_noise leaves the noise given
 to it unchanged

---
 src/tools21cm/radio_telescope_noise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/radio_telescope_noise.py b/src/tools21cm/radio_telescope_noise.py
index 4e33a27..18cb955 100755
--- a/src/tools21cm/radio_telescope_noise.py
+++ b/src/tools21cm/radio_telescope_noise.py
@@ -483,7 +483,7 @@ def apply_uv_response_noise(noise, uv_map, boxsize=None, uv_weighting='natural',
 			uv_map_smooth = uv_map
 		out = noise/np.sqrt(uv_map_smooth)
 	elif uv_weighting.lower() in ['uni', 'uniform', 'uniform_weighting']:
-		out = noise
+		out = noise.copy()
 	else:
 		print(f'{uv_weighting} scheme is not known or implemented')
 	out[uv_map<uv_map_min] = 0.
-- 
2.43.0


From 7d2701aecea01767255d0b183eca56246c279896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:41 +0000
Subject: [PATCH 090/169] fix: noise_map centres the window on zero frequency
 for odd grids

---
 src/tools21cm/radio_telescope_noise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/radio_telescope_noise.py b/src/tools21cm/radio_telescope_noise.py
index 18cb955..04bd6a9 100755
--- a/src/tools21cm/radio_telescope_noise.py
+++ b/src/tools21cm/radio_telescope_noise.py
@@ -408,7 +408,7 @@ def noise_map(ncells, z, depth_mhz, obs_time=1000, subarray_type="AA4", boxsize=
 	noise_four = apply_uv_response_noise(noise_arr, uv_map, boxsize=boxsize, uv_weighting=uv_weighting, suppress_sharp_features_uv_map=suppress_sharp_features_uv_map)
 	# noise_four = apply_uv_response_noise_briggs(noise_arr, uv_map, robust=2.0, epsilon=1e-6)
 	win_2d = signal_window(ncells, 'blackmanharris', ndim=2)
-	noise_four = noise_four*np.fft.fftshift(win_2d)
+	noise_four = noise_four*np.fft.ifftshift(win_2d)
 	if fft_wrap: noise_map  = ifft2_wrap(noise_four)*np.sqrt(int_time/3600./obs_time)
 	else: noise_map  = np.fft.ifft2(noise_four)*np.sqrt(int_time/3600./obs_time)
 	return np.real(noise_map)
-- 
2.43.0


From 86ec2d14c76d65f8ede51e5aed7b0dc564d84baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:41 +0000
Subject: [PATCH 091/169] fix: ifft2_wrap uses whole numbers of cells

---
 src/tools21cm/radio_telescope_noise.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tools21cm/radio_telescope_noise.py b/src/tools21cm/radio_telescope_noise.py
index 04bd6a9..ed0c2b2 100755
--- a/src/tools21cm/radio_telescope_noise.py
+++ b/src/tools21cm/radio_telescope_noise.py
@@ -536,11 +536,11 @@ def ifft2_wrap(nn1):
 	"""
 	assert nn1.ndim==2
 	bla0 = np.vstack((nn1,nn1))
-	bla1 = np.roll(bla0, nn1.shape[0]/2, 0)
+	bla1 = np.roll(bla0, nn1.shape[0]//2, 0)
 	bla2 = np.hstack((bla1,bla1))
-	bla3 = np.roll(bla2, nn1.shape[1]/2, 1)
+	bla3 = np.roll(bla2, nn1.shape[1]//2, 1)
 	imap = np.fft.ifft2(bla3)
-	return imap[nn1.shape[0]/2:-nn1.shape[0]/2,nn1.shape[1]/2:-nn1.shape[1]/2]
+	return imap[nn1.shape[0]//2:nn1.shape[0]//2+nn1.shape[0],nn1.shape[1]//2:nn1.shape[1]//2+nn1.shape[1]]
 
 def apply_uv_response_on_image(array, uv_map):
 	"""
-- 
2.43.0


From ec77a66c8021ecd49f745d1e92314ecc94301028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:41 +0000
Subject: [PATCH 092/169] fix: noise_cube_lightcone passes its arguments in
 order

---
 src/tools21cm/radio_telescope_noise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/radio_telescope_noise.py b/src/tools21cm/radio_telescope_noise.py
index ed0c2b2..26c688d 100755
--- a/src/tools21cm/radio_telescope_noise.py
+++ b/src/tools21cm/radio_telescope_noise.py
@@ -776,7 +776,7 @@ def noise_cube_lightcone(ncells, z, obs_time=1000, subarray_type="AA4", boxsize=
 
 	# This function body is very similar to `noise_lightcone`. Consider refactoring.
 	return noise_lightcone(ncells, zs, obs_time, subarray_type, boxsize, save_uvmap, 
-						total_int_time, int_time, declination, N_ant, uv_weighting, fft_wrap, verbose, n_jobs, checkpoint, 
+						total_int_time, int_time, declination, uv_weighting, fft_wrap, verbose, n_jobs, checkpoint, 
 						T_sys, sefd_data, nu_data, D_station, ep_aperture,
 						suppress_sharp_features_uv_map)
 
-- 
2.43.0


From 2b5b8ce195a4a2a3d82beb1b6cd8da105918720f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:41 +0000
Subject: [PATCH 093/169] fix: convolve_uvmap makes its uv map when none is
 given

---
 src/tools21cm/smoothing.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/tools21cm/smoothing.py b/src/tools21cm/smoothing.py
index 1e76623..8196440 100755
--- a/src/tools21cm/smoothing.py
+++ b/src/tools21cm/smoothing.py
@@ -527,7 +527,6 @@ def convolve_uvmap(array, z=None, uv_map=None, max_baseline=None, box_size_mpc=F
         if uv_map is None: 
                 uv_map, N_ant  = get_uv_map(array.shape[0],
                                                 z,
-                                                filename=filename,
                                                 total_int_time=total_int_time,
                                                 int_time=int_time,
                                                 boxsize=box_size_mpc,
@@ -569,7 +568,6 @@ def convolve_uvmap_coeval(cube, z, box_size_mpc=False, max_baseline=2., ratio=1.
         if uv_map is None: 
                 uv_map, N_ant  = get_uv_map(cube.shape[0],
                                                 z,
-                                                filename=filename,
                                                 total_int_time=total_int_time,
                                                 int_time=int_time,
                                                 boxsize=box_size_mpc,
-- 
2.43.0


From 5f574c0c5641bf5968dae3940d56cb029ae918cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:41 +0000
Subject: [PATCH 094/169] fix: noise_coeval_power_spectrum_1d decreases with
 observation time

---
 src/tools21cm/radio_telescope_noise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/radio_telescope_noise.py b/src/tools21cm/radio_telescope_noise.py
index 26c688d..b56c339 100755
--- a/src/tools21cm/radio_telescope_noise.py
+++ b/src/tools21cm/radio_telescope_noise.py
@@ -169,7 +169,7 @@ def noise_coeval_power_spectrum_1d(ncells, z, depth_mhz, obs_time=1000, subarray
 	else:
 		print(f'{uv_weighting} scheme is not known or implemented')
 
-	power = np.fft.fftshift(out**2)
+	power = np.fft.fftshift(out**2)*int_time/(3600.*obs_time)
 	# scale
 	boxvol = numpy_product(box_dims)
 	pixelsize = boxvol/(numpy_product(uv_map.shape))
-- 
2.43.0


From caf5e7fe12bf2ea5d9dc293495ab2d6c3b94f39e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:53 +0000
Subject: [PATCH 095/169] fix: noise_coeval_power_spectrum_1d works with
 uniform weighting

---
 src/tools21cm/radio_telescope_noise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/radio_telescope_noise.py b/src/tools21cm/radio_telescope_noise.py
index b56c339..91e4721 100755
--- a/src/tools21cm/radio_telescope_noise.py
+++ b/src/tools21cm/radio_telescope_noise.py
@@ -165,7 +165,7 @@ def noise_coeval_power_spectrum_1d(ncells, z, depth_mhz, obs_time=1000, subarray
 	if uv_weighting.lower() in ['nat', 'natural', 'natural_weighting']:
 		out = rms_noi/np.sqrt(uv_map)
 	elif uv_weighting.lower() in ['uni', 'uniform', 'uniform_weighting']:
-		out = rms_noi
+		out = rms_noi*np.ones(np.shape(uv_map))
 	else:
 		print(f'{uv_weighting} scheme is not known or implemented')
 
-- 
2.43.0


From d12ec8cd95c2567c6f16b87005ad8043b808a50f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:41 +0000
Subject: [PATCH 096/169] fix: gaussian random fields have the requested power
 on odd grids

---
 src/tools21cm/gaussian_random_field.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/gaussian_random_field.py b/src/tools21cm/gaussian_random_field.py
index 2188938..bd2bf58 100755
--- a/src/tools21cm/gaussian_random_field.py
+++ b/src/tools21cm/gaussian_random_field.py
@@ -55,7 +55,7 @@ def make_gaussian_random_field(dims, box_dims, power_spectrum, random_seed=None)
     map_ft *= np.sqrt(power_spectrum(k)/scale_factor)
     
     #Inverse FT
-    map_ift = fftpack.ifftn(fftpack.fftshift(map_ft))
+    map_ift = fftpack.ifftn(fftpack.ifftshift(map_ft))
     
     #Return real part
     map_real = np.real(map_ift)
-- 
2.43.0


From 5f922d4d0c9521bd77c24b6a3b6b4af1f78305d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:41 +0000
Subject: [PATCH 097/169] fix: foreground models accept a redshift list or
 integer with NumPy 2

---
 src/tools21cm/foreground_model.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/tools21cm/foreground_model.py b/src/tools21cm/foreground_model.py
index 3a8df22..ac7749d 100755
--- a/src/tools21cm/foreground_model.py
+++ b/src/tools21cm/foreground_model.py
@@ -27,10 +27,7 @@ def galactic_synch_fg(z, ncells, boxsize, rseed=False):
 	-------
 	A 2D numpy array of brightness temperature in mK.
 	"""
-	if(isinstance(z, float)):
-		z = np.array([z])
-	else:
-		z = np.array(z, copy=False)
+	z = np.atleast_1d(np.asarray(z))
 	gf_data = np.zeros((ncells, ncells, z.size))
 
 	if(rseed): np.random.seed(rseed)
@@ -69,10 +66,7 @@ def extragalactic_pointsource_fg(z, ncells, boxsize, rseed=False, S_max=100):
 	-------
 	A 2D numpy array of brightness temperature in mK.
 	"""
-	if(isinstance(z, float)):
-		z = np.array([z])
-	else:
-		z = np.array(z, copy=False)
+	z = np.atleast_1d(np.asarray(z))
 	exgf_data = np.zeros((ncells, ncells, z.size))
 
 	dS, nu_s = 0.01, 150
-- 
2.43.0


From fd57d9c94aad9454f964c19b23e2f8b7e96e5d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:41 +0000
Subject: [PATCH 098/169] fix: galactic_synch_fg is finite for odd ncells

---
 src/tools21cm/foreground_model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tools21cm/foreground_model.py b/src/tools21cm/foreground_model.py
index ac7749d..9643298 100755
--- a/src/tools21cm/foreground_model.py
+++ b/src/tools21cm/foreground_model.py
@@ -39,6 +39,7 @@ def galactic_synch_fg(z, ncells, boxsize, rseed=False):
 		nu = cm.z_to_nu(z[i])
 		U_cb  = (np.mgrid[-ncells/2:ncells/2,-ncells/2:ncells/2]+0.5)*cm.z_to_cdist(z[i])/boxsize
 		l_cb  = 2*np.pi*np.sqrt(U_cb[0,:,:]**2+U_cb[1,:,:]**2)
+		l_cb[l_cb==0] = np.inf  # no power in the mean, which odd ncells sample
 		C_syn = A150*(1000/l_cb)**beta_*(nu/nu_s)**(-2*a_syn-2*Da_syn*np.log(nu/nu_s))
 		solid_angle = boxsize**2/cm.z_to_cdist(z[i])**2
 		AA = np.sqrt(solid_angle*C_syn/2)
-- 
2.43.0


From 5cbe726afb2ada1e990d0054d2e1cbd46c8a72b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:41 +0000
Subject: [PATCH 099/169] fix: extragalactic_pointsource_fg works with NumPy 2

---
 src/tools21cm/foreground_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tools21cm/foreground_model.py b/src/tools21cm/foreground_model.py
index 9643298..7eb0956 100755
--- a/src/tools21cm/foreground_model.py
+++ b/src/tools21cm/foreground_model.py
@@ -74,9 +74,9 @@ def extragalactic_pointsource_fg(z, ncells, boxsize, rseed=False, S_max=100):
 	solid_angle = boxsize**2/cm.z_to_cdist(z.min())**2
 	
 	Ss = np.arange(0.1, S_max, dS)
-	N  = int(10**3.75*np.trapz(Ss**(-1.6), x=Ss, dx=dS)*solid_angle)
+	N  = int(10**3.75*trapz(Ss**(-1.6), x=Ss)*solid_angle)
 	if(rseed): np.random.seed(rseed)
-	x, y = np.random.random_integers(0, high=ncells-1, size=(2,N))
+	x, y = np.random.randint(0, ncells, size=(2,N))
 	alpha_ps = 0.7+0.1*np.random.random(size=N)
 	S_s  = np.random.choice(Ss, N)
 
-- 
2.43.0


From cce717eea1edc1f608f7378e64dd288d7397182a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:41 +0000
Subject: [PATCH 100/169] fix: extragalactic point sources in the same cell add
 up

---
 src/tools21cm/foreground_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/foreground_model.py b/src/tools21cm/foreground_model.py
index 7eb0956..c116bfc 100755
--- a/src/tools21cm/foreground_model.py
+++ b/src/tools21cm/foreground_model.py
@@ -84,7 +84,7 @@ def extragalactic_pointsource_fg(z, ncells, boxsize, rseed=False, S_max=100):
 		nu = cm.z_to_nu(z[i])
 		S_nu = S_s*(nu/nu_s)**(-alpha_ps)
 		for p in range(S_nu.size):
-			exgf_data[x[p], y[p], i] = jansky_2_kelvin(S_nu[p], z[i], boxsize=boxsize, ncells=ncells)
+			exgf_data[x[p], y[p], i] += jansky_2_kelvin(S_nu[p], z[i], boxsize=boxsize, ncells=ncells)
 	return exgf_data.squeeze()
 
 
-- 
2.43.0


From 4d75b99b772c5768c694897f037477602ac0fd83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:41 +0000
Subject: [PATCH 101/169] fix: remove_wedge_image filters the right modes on
 odd grids

---
 src/tools21cm/foreground_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/foreground_model.py b/src/tools21cm/foreground_model.py
index c116bfc..a534410 100755
--- a/src/tools21cm/foreground_model.py
+++ b/src/tools21cm/foreground_model.py
@@ -139,7 +139,7 @@ def barrel_filter(z, ncells=None, array=None, boxsize=None, k_par_min=None, smal
 def remove_wedge_image(dt, z, mu=0.5, funct='step', boxsize=None, filt=None):
 	if filt is None: filt = diabolo_filter(z, array=dt, mu=mu, funct=funct, boxsize=boxsize)
 	fft_dt = np.fft.fftn(dt)
-	apply_filt = np.fft.fftshift(np.fft.fftshift(fft_dt)*filt)
+	apply_filt = np.fft.ifftshift(np.fft.fftshift(fft_dt)*filt)
 	dt_new = np.real(np.fft.ifftn(apply_filt))
 	return dt_new
 
-- 
2.43.0


From aea539c705acc66c24b1a47f066b87a9d6e84d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:41 +0000
Subject: [PATCH 102/169] fix: primary_beam passes l_null on for images

---
 src/tools21cm/primary_beam.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/primary_beam.py b/src/tools21cm/primary_beam.py
index 14542cf..227dd40 100755
--- a/src/tools21cm/primary_beam.py
+++ b/src/tools21cm/primary_beam.py
@@ -36,7 +36,7 @@ def primary_beam(array, z, nu_axis=2, beam_func='Gaussian', boxsize=None, D_stat
 		boxsize = conv.LB
 	beam = np.zeros(array.shape)
 	if array.ndim==2: 
-		beamed = array*circular_beam(array.shape[0], z, D_station=D_station, beam_func=beam_func, boxsize=boxsize)
+		beamed = array*circular_beam(array.shape[0], z, D_station=D_station, beam_func=beam_func, boxsize=boxsize, l_null=l_null)
 	else:
 		if nu_axis!=2: 
 			array = np.swapaxes(array, nu_axis, 2)
-- 
2.43.0


From 2de580edc3647c904147394521bc6f0dccf0735e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:41 +0000
Subject: [PATCH 103/169] fix: primary_beam of non-cubic arrays with another
 frequency axis, redshift lists

---
 src/tools21cm/primary_beam.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/tools21cm/primary_beam.py b/src/tools21cm/primary_beam.py
index 227dd40..cb37b7a 100755
--- a/src/tools21cm/primary_beam.py
+++ b/src/tools21cm/primary_beam.py
@@ -34,13 +34,14 @@ def primary_beam(array, z, nu_axis=2, beam_func='Gaussian', boxsize=None, D_stat
 	assert array.ndim > 1
 	if boxsize is None: 
 		boxsize = conv.LB
-	beam = np.zeros(array.shape)
 	if array.ndim==2: 
 		beamed = array*circular_beam(array.shape[0], z, D_station=D_station, beam_func=beam_func, boxsize=boxsize, l_null=l_null)
 	else:
 		if nu_axis!=2: 
 			array = np.swapaxes(array, nu_axis, 2)
-		if np.array(z).size==1: 
+		beam = np.zeros(array.shape)
+		z = np.array(z)
+		if z.size==1: 
 			z = z*np.ones(array.shape[2])
 		for i in tqdm(range(z.size), disable=not verbose): 
 			beam[:,:,i] = circular_beam(array.shape[0], z[i], D_station=D_station, beam_func=beam_func, boxsize=boxsize, l_null=l_null)
-- 
2.43.0


From f1b2f9325ade59e45899e4a2ae55050b83b68929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:41 +0000
Subject: [PATCH 104/169] fix: the sigmoid beam falls off at l_null/2

---
 src/tools21cm/primary_beam.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/primary_beam.py b/src/tools21cm/primary_beam.py
index cb37b7a..a4ef4a5 100755
--- a/src/tools21cm/primary_beam.py
+++ b/src/tools21cm/primary_beam.py
@@ -98,7 +98,7 @@ def circular_beam(ncells, z, D_station=40., beam_func='Gaussian', boxsize=None,
         beam[center_idx] = 1.0  # Manually set the peak to 1
     elif beam_func.lower()=='sigmoid':
         r0, b = l_null/2., 0.5
-        beam = 1.-1/(1+np.exp(b*r0-b*rr**2**0.5))
+        beam = 1.-1/(1+np.exp(b*r0-b*rr))
     else:
         raise ValueError("Please choose between 'step', 'gaussian', 'bessel', and 'sigmoid' for beam_func.")
     
-- 
2.43.0


From 65e059cb324b5e51687b7b906b09d8ec51816bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:41 +0000
Subject: [PATCH 105/169] fix: correlation functions work with NumPy 2

---
 src/tools21cm/corr_function.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tools21cm/corr_function.py b/src/tools21cm/corr_function.py
index 99e59a7..010664e 100755
--- a/src/tools21cm/corr_function.py
+++ b/src/tools21cm/corr_function.py
@@ -2,6 +2,7 @@ import numpy as np
 from scipy.interpolate import splrep,splev
 from scipy.spatial import cKDTree
 from tqdm import tqdm
+from .scipy_func import trapz
 from .power_spectrum import power_spectrum_1d, cross_power_spectrum_1d
 from . import conv
 
@@ -27,7 +28,7 @@ def ps_to_corr(ps, ks, rbins=10, box_dims=None, n_grid=None, binning='log'):
 	knew, pnew = ks[np.isfinite(ps)], ps[np.isfinite(ps)]
 
 	integ = knew**2*pnew*np.sinc(knew[None,:]*rbins[:,None])
-	corr  = np.trapz(integ, knew, axis=1) 
+	corr  = trapz(integ, x=knew, axis=1) 
 
 	return corr*4*np.pi, rbins
 
-- 
2.43.0


From e5d3f727e092889017df077d3ba3cde001a48bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:41 +0000
Subject: [PATCH 106/169] fix: the correlation function uses
 sinc(kr)=sin(kr)/(kr)

---
 src/tools21cm/corr_function.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/tools21cm/corr_function.py b/src/tools21cm/corr_function.py
index 010664e..6ed725f 100755
--- a/src/tools21cm/corr_function.py
+++ b/src/tools21cm/corr_function.py
@@ -12,10 +12,12 @@ def ps_to_corr(ps, ks, rbins=10, box_dims=None, n_grid=None, binning='log'):
 	the correlation function using the following equation:
 	.. math:: \\xi(r) = \\int 4\\pi k^2 P(k) \\mathrm{sinc}(kr)dk
 	'''
-	if isinstance(rbins, (int)): 
+	if np.ndim(rbins)==0: 
 		rbins = 10**np.linspace(np.log10(2*box_dims/n_grid), np.log10(box_dims/2), rbins) if binning=='log' \
 					else np.linspace(2*box_dims/n_grid, box_dims/2, rbins)
 
+	rbins = np.asarray(rbins)
+
 	# if binning=='log':
 	# 	ps_tck = splrep(np.log10(ks[np.isfinite(ps)]), ps[np.isfinite(ps)], k=1)
 	# 	ps_fun = lambda k: splev(np.log10(k),ps_tck)
@@ -27,7 +29,7 @@ def ps_to_corr(ps, ks, rbins=10, box_dims=None, n_grid=None, binning='log'):
 	# pnew = ps_fun(knew)
 	knew, pnew = ks[np.isfinite(ps)], ps[np.isfinite(ps)]
 
-	integ = knew**2*pnew*np.sinc(knew[None,:]*rbins[:,None])
+	integ = knew**2*pnew*np.sinc(knew[None,:]*rbins[:,None]/np.pi)
 	corr  = trapz(integ, x=knew, axis=1) 
 
 	return corr*4*np.pi, rbins
-- 
2.43.0


From 5caa5c77468c8817b23f9fb9946163bb07083ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:41 +0000
Subject: [PATCH 107/169] fix: landy_szalay_estimator counts pair distances

---
 src/tools21cm/corr_function.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/tools21cm/corr_function.py b/src/tools21cm/corr_function.py
index 6ed725f..2a8a567 100755
--- a/src/tools21cm/corr_function.py
+++ b/src/tools21cm/corr_function.py
@@ -133,9 +133,9 @@ def landy_szalay_estimator(data, randoms=None, rbins=10, box_dims=None, binning=
 		randoms = np.random.uniform(data.min(), data.max(), data.shape)
 		
 	# Determine the radial bins
-	if isinstance(rbins, int):
+	rmax = kwargs.get('rmax')
+	if np.ndim(rbins)==0:
 		rmin = kwargs.get('rmin')
-		rmax = kwargs.get('rmax')
 		if rmin is None:
 			rmin = 0.01  
 		if rmax is None:
@@ -145,6 +145,8 @@ def landy_szalay_estimator(data, randoms=None, rbins=10, box_dims=None, binning=
 		else:
 			rbins = np.linspace(rmin, rmax, rbins)
 
+	rbins = np.asarray(rbins)
+	rmax = rbins[-1]  # pairs farther apart are in no bin
 	rbin_centers = (rbins[:-1] + rbins[1:]) / 2  # Midpoints of the bins
 
 	# Step 1: Pair Counting
@@ -154,10 +156,12 @@ def landy_szalay_estimator(data, randoms=None, rbins=10, box_dims=None, binning=
 	random_tree = cKDTree(randoms)
 
 	# Count DD pairs (data-data)
-	DD, _ = np.histogram(data_tree.query_pairs(rmax, output_type='ndarray'), bins=rbins)
+	pairs = data_tree.query_pairs(rmax, output_type='ndarray')
+	DD, _ = np.histogram(np.linalg.norm(data[pairs[:,0]]-data[pairs[:,1]], axis=1), bins=rbins)
 
 	# Count RR pairs (random-random)
-	RR, _ = np.histogram(random_tree.query_pairs(rmax, output_type='ndarray'), bins=rbins)
+	pairs = random_tree.query_pairs(rmax, output_type='ndarray')
+	RR, _ = np.histogram(np.linalg.norm(randoms[pairs[:,0]]-randoms[pairs[:,1]], axis=1), bins=rbins)
 
 	# Count DR pairs (data-random)
 	DR = np.zeros(len(rbins)-1)
-- 
2.43.0


From 89410e66ea4b6f0761ab0f88ecf365ffa2ebd694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:53 +0000
Subject: [PATCH 108/169] fix: correlation functions fall back on the current
 box

---
 src/tools21cm/corr_function.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tools21cm/corr_function.py b/src/tools21cm/corr_function.py
index 2a8a567..5308846 100755
--- a/src/tools21cm/corr_function.py
+++ b/src/tools21cm/corr_function.py
@@ -12,6 +12,8 @@ def ps_to_corr(ps, ks, rbins=10, box_dims=None, n_grid=None, binning='log'):
 	the correlation function using the following equation:
 	.. math:: \\xi(r) = \\int 4\\pi k^2 P(k) \\mathrm{sinc}(kr)dk
 	'''
+	if box_dims is None:
+		box_dims = conv.LB
 	if np.ndim(rbins)==0: 
 		rbins = 10**np.linspace(np.log10(2*box_dims/n_grid), np.log10(box_dims/2), rbins) if binning=='log' \
 					else np.linspace(2*box_dims/n_grid, box_dims/2, rbins)
-- 
2.43.0


From c2cd30f9254a5cf71c66eb507b240536f83572c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:17 +0000
Subject: [PATCH 109/169] fix: paint_kernel adds the kernel without doubling
 the cube

---
 src/tools21cm/test_case.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/test_case.py b/src/tools21cm/test_case.py
index 2e547fb..6b6a2fc 100755
--- a/src/tools21cm/test_case.py
+++ b/src/tools21cm/test_case.py
@@ -27,7 +27,7 @@ def paint_kernel(cube, positions, kernel):
         rolled_cube[:kernel_shape[0], :kernel_shape[1], :kernel_shape[2]] += kernel
         
         # Roll it back to the original position
-        cube += np.roll(rolled_cube, shift=pos - kernel_radius, axis=(0, 1, 2))
+        cube[...] = np.roll(rolled_cube, shift=pos - kernel_radius, axis=(0, 1, 2))
     
     return None
             
-- 
2.43.0


From d68357592e1ca75982ce3a44d00b6123d1597cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:17 +0000
Subject: [PATCH 110/169] fix: spherical_bubble_model leaves the given cube
 untouched

---
 src/tools21cm/test_case.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tools21cm/test_case.py b/src/tools21cm/test_case.py
index 6b6a2fc..def9eb4 100755
--- a/src/tools21cm/test_case.py
+++ b/src/tools21cm/test_case.py
@@ -59,6 +59,7 @@ def spherical_bubble_model(n_cells, x_ion, r=10, source_distribution='Poisson',
         print('Cube initialized to zeros...')
         cube = np.zeros((n_cells, n_cells, n_cells), dtype=float)
     else:
+        cube = np.array(cube, dtype=float)  # the bubbles are not painted on the input
         print(f'Cube with filling fraction of {cube.mean():.3f} provided...')
     
     # Volume fraction of a single bubble
-- 
2.43.0


From 691c020b903cbb7758a73733c48e2b177aafaa66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:17 +0000
Subject: [PATCH 111/169] fix: non-overlapping bubbles do not overlap across
 the box edges

---
 src/tools21cm/test_case.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tools21cm/test_case.py b/src/tools21cm/test_case.py
index def9eb4..6120f12 100755
--- a/src/tools21cm/test_case.py
+++ b/src/tools21cm/test_case.py
@@ -89,7 +89,8 @@ def spherical_bubble_model(n_cells, x_ion, r=10, source_distribution='Poisson',
             arg_zero = np.argwhere(cube==0)
             positions = arg_zero[np.random.randint(0, arg_zero.shape[0], batch_size)]
         elif source_distribution.lower() in ['anticlustered', 'anti-clustered', 'non-overlapping', 'nonoverlapping']:
-            edt = ndimage.distance_transform_edt(1-cube, return_indices=False)
+            pad = int(np.ceil(r))+1  # the bubbles wrap around the box
+            edt = ndimage.distance_transform_edt(np.pad(1-cube, pad, mode='wrap'), return_indices=False)[pad:-pad,pad:-pad,pad:-pad]
             arg_zero = np.argwhere(edt>r)
             if len(arg_zero)==0:
                 print('No empty space fill spheres.')
-- 
2.43.0


From 36e121d9cd10b3233f2808740d1ea24b11d41205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:21 +0000
Subject: [PATCH 112/169] fix: the Bispectrum class applies the window to the
 data it transforms

---
 src/tools21cm/bispectrum.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tools21cm/bispectrum.py b/src/tools21cm/bispectrum.py
index 71d0c26..c0fd923 100755
--- a/src/tools21cm/bispectrum.py
+++ b/src/tools21cm/bispectrum.py
@@ -109,7 +109,7 @@ class Bispectrum:
                     ):
         tstart = time()
         input_array_nd = self.input_array.astype(np.float64)
-        input_array = apply_window(input_array, window)
+        input_array_nd = apply_window(input_array_nd, window)
 
         box_dims, box_dims_input  = _get_dims(box_dims, input_array_nd.shape), box_dims
         if verbose and box_dims_input is None: print(f'box_dims set to {box_dims} Mpc')
@@ -165,7 +165,7 @@ class Bispectrum:
                     ):
         tstart = time()
         input_array_nd = self.input_array.astype(np.float64)
-        input_array = apply_window(input_array, window)
+        input_array_nd = apply_window(input_array_nd, window)
 
         box_dims, box_dims_input  = _get_dims(box_dims, input_array_nd.shape), box_dims
         if verbose and box_dims_input is None: print(f'box_dims set to {box_dims} Mpc')
-- 
2.43.0


From 24046f71d0d83884c9a608d59f1635842c3d8f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:21 +0000
Subject: [PATCH 113/169] fix: bispectrum triangles close on odd grids

---
 src/tools21cm/bispectrum.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/tools21cm/bispectrum.py b/src/tools21cm/bispectrum.py
index c0fd923..2545ae2 100755
--- a/src/tools21cm/bispectrum.py
+++ b/src/tools21cm/bispectrum.py
@@ -69,16 +69,16 @@ class Bispectrum:
         
         shell1 = self.spherical_shell_mask(input_array_fft.shape, k1, dk1, k_mag=k_mag)
         dfft1  = input_array_fft*shell1
-        s1     = np.fft.ifftn(np.fft.fftshift(shell1))
-        d1     = np.fft.ifftn(np.fft.fftshift(dfft1))
+        s1     = np.fft.ifftn(np.fft.ifftshift(shell1))
+        d1     = np.fft.ifftn(np.fft.ifftshift(dfft1))
         
         if k2==k1: 
             s2, d2 = s1, d1
         else: 
             shell2 = self.spherical_shell_mask(input_array_fft.shape, k2, dk2, k_mag=k_mag)
             dfft2  = input_array_fft*shell2
-            s2     = np.fft.ifftn(np.fft.fftshift(shell2))
-            d2     = np.fft.ifftn(np.fft.fftshift(dfft2))
+            s2     = np.fft.ifftn(np.fft.ifftshift(shell2))
+            d2     = np.fft.ifftn(np.fft.ifftshift(dfft2))
             
         if k3==k1: 
             s3, d3 = s1, d1
@@ -87,8 +87,8 @@ class Bispectrum:
         else: 
             shell3 = self.spherical_shell_mask(input_array_fft.shape, k3, dk3, k_mag=k_mag)
             dfft3  = input_array_fft*shell3
-            s3     = np.fft.ifftn(np.fft.fftshift(shell3))
-            d3     = np.fft.ifftn(np.fft.fftshift(dfft3))
+            s3     = np.fft.ifftn(np.fft.ifftshift(shell3))
+            d3     = np.fft.ifftn(np.fft.ifftshift(dfft3))
             
         d123 = np.real(d1*d2*d3)
         s123 = np.real(s1*s2*s3)
-- 
2.43.0


From 1351c0e1b176aae492dcd29fd79db321d750ad55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:21 +0000
Subject: [PATCH 114/169] fix: the Bispectrum class uses the box dimensions it
 was made with

---
 src/tools21cm/bispectrum.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/tools21cm/bispectrum.py b/src/tools21cm/bispectrum.py
index 2545ae2..7c7a46a 100755
--- a/src/tools21cm/bispectrum.py
+++ b/src/tools21cm/bispectrum.py
@@ -111,8 +111,7 @@ class Bispectrum:
         input_array_nd = self.input_array.astype(np.float64)
         input_array_nd = apply_window(input_array_nd, window)
 
-        box_dims, box_dims_input  = _get_dims(box_dims, input_array_nd.shape), box_dims
-        if verbose and box_dims_input is None: print(f'box_dims set to {box_dims} Mpc')
+        box_dims = self.box_dims if box_dims is None else _get_dims(box_dims, input_array_nd.shape)
         
         if verbose: print(f'Computing bispectrum with k1,k2={k1:.2f},{k2:.2f} 1/Mpc...')
         input_array_fft, k_comp, k_mag = fft_nd(input_array_nd, box_dims=box_dims, verbose=verbose)
@@ -167,8 +166,7 @@ class Bispectrum:
         input_array_nd = self.input_array.astype(np.float64)
         input_array_nd = apply_window(input_array_nd, window)
 
-        box_dims, box_dims_input  = _get_dims(box_dims, input_array_nd.shape), box_dims
-        if verbose and box_dims_input is None: print(f'box_dims set to {box_dims} Mpc')
+        box_dims = self.box_dims if box_dims is None else _get_dims(box_dims, input_array_nd.shape)
         
         if verbose: print(f'Computing bispectrum with k1=k2=k3...')
         input_array_fft, k_comp, k_mag = fft_nd(input_array_nd, box_dims=box_dims, verbose=verbose)
-- 
2.43.0


From 8904b166e2e4ad11f9d96b137e740cf9d734fce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:21 +0000
Subject: [PATCH 115/169] fix: bispectrum_fast keeps the width of each shell

---
 src/tools21cm/bispectrum.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tools21cm/bispectrum.py b/src/tools21cm/bispectrum.py
index 7c7a46a..36cf3d0 100755
--- a/src/tools21cm/bispectrum.py
+++ b/src/tools21cm/bispectrum.py
@@ -72,7 +72,7 @@ class Bispectrum:
         s1     = np.fft.ifftn(np.fft.ifftshift(shell1))
         d1     = np.fft.ifftn(np.fft.ifftshift(dfft1))
         
-        if k2==k1: 
+        if k2==k1 and dk2==dk1: 
             s2, d2 = s1, d1
         else: 
             shell2 = self.spherical_shell_mask(input_array_fft.shape, k2, dk2, k_mag=k_mag)
@@ -80,9 +80,9 @@ class Bispectrum:
             s2     = np.fft.ifftn(np.fft.ifftshift(shell2))
             d2     = np.fft.ifftn(np.fft.ifftshift(dfft2))
             
-        if k3==k1: 
+        if k3==k1 and dk3==dk1: 
             s3, d3 = s1, d1
-        elif k3==k2: 
+        elif k3==k2 and dk3==dk2: 
             s3, d3 = s2, d2
         else: 
             shell3 = self.spherical_shell_mask(input_array_fft.shape, k3, dk3, k_mag=k_mag)
-- 
2.43.0


From c9966aac0946774e02a75cd3326c5e7089a9e142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:21 +0000
Subject: [PATCH 116/169] fix: bispectrum_k is estimated at the k values it
 returns

---
 src/tools21cm/bispectrum.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tools21cm/bispectrum.py b/src/tools21cm/bispectrum.py
index 36cf3d0..ab2b4a1 100755
--- a/src/tools21cm/bispectrum.py
+++ b/src/tools21cm/bispectrum.py
@@ -173,10 +173,10 @@ class Bispectrum:
         if verbose: print('FFT of data done')
 
         kbins = _get_kbins(n_bins, box_dims, k_mag, binning=binning, kmax=k_mag.max()/2, kmin=None)
-        dk = dk*np.ones_like(kbins) if isinstance(dk,float) else dk
+        dk = dk*np.ones_like(kbins) if np.ndim(dk)==0 else dk
         
         def run_loop(i):
-            k1 = kbins[i]
+            k1 = (kbins[i]+kbins[i+1])/2
             dk1 = dk[i]
             b123 = self.bispectrum_fast(input_array_fft,
                             k1, k1, k1,
-- 
2.43.0


From 3811af78a515603d5b9833eac150933e9c9c0f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:21 +0000
Subject: [PATCH 117/169] fix: spherical_shell_mask from k components

---
 src/tools21cm/bispectrum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/bispectrum.py b/src/tools21cm/bispectrum.py
index ab2b4a1..ce97d5e 100755
--- a/src/tools21cm/bispectrum.py
+++ b/src/tools21cm/bispectrum.py
@@ -46,7 +46,7 @@ class Bispectrum:
          
     def spherical_shell_mask(self, array_shape, k_center, k_width, k_comp=None, k_mag=None):
         assert k_comp is not None or k_mag is not None
-        if k_mag is None: k_mag = np.sum(np.array(k_comp)**2, axis=0)
+        if k_mag is None: k_mag = np.sqrt(np.sum(np.array(k_comp)**2, axis=0))
         try: out = np.zeros(array_shape)
         except: out = np.zeros((array_shape[0],array_shape[1],array_shape[2]))
         out[np.abs(k_mag-k_center)<k_width/2] = 1
-- 
2.43.0


From c7b7529cbab1e78901ae309a78a4a0d19e7bdea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:21 +0000
Subject: [PATCH 118/169] fix: bispectrum_fast returns nan without closed
 triangles

---
 src/tools21cm/bispectrum.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tools21cm/bispectrum.py b/src/tools21cm/bispectrum.py
index ce97d5e..6e4ca69 100755
--- a/src/tools21cm/bispectrum.py
+++ b/src/tools21cm/bispectrum.py
@@ -92,6 +92,9 @@ class Bispectrum:
             
         d123 = np.real(d1*d2*d3)
         s123 = np.real(s1*s2*s3)
+        # sum(s123) counts the closed triangles: without any there is no estimate
+        n_triangles = np.round(np.sum(s123)*float(n_pixel)**2)
+        if n_triangles==0: return np.nan
         b123 = np.sum(d123)/np.sum(s123) * box_vol.astype(np.float64)**2/n_pixel.astype(np.float64)**3
         
         return b123
-- 
2.43.0


From 8c40bd6fd23c18c0ad76bfa8046fd19be26a0d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:49 +0000
Subject: [PATCH 119/169] fix: haloes are put in the cell of the box that
 contains them

---
 src/tools21cm/nbody_file.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tools21cm/nbody_file.py b/src/tools21cm/nbody_file.py
index 4a036fe..d754be2 100755
--- a/src/tools21cm/nbody_file.py
+++ b/src/tools21cm/nbody_file.py
@@ -248,7 +248,9 @@ class Halo2Grid:
 		# https://docs.scipy.org/doc/scipy/reference/generated/scipy.stats.binned_statistic_dd.html
 		statistic = kwargs.get('statistic', 'sum')
 		bins = kwargs.get('bins', self.n_grid)
-		binned_mass, bin_edges, bin_num = binned_statistic_dd(positions, values, statistic=statistic, bins=bins)
+		# The cells are those of the box, wherever the haloes happen to be
+		extent = kwargs.get('range', [(0, self.n_grid)]*np.shape(positions)[1])
+		binned_mass, bin_edges, bin_num = binned_statistic_dd(positions, values, statistic=statistic, bins=bins, range=extent)
 		return binned_mass, bin_edges, bin_num
 	
 	def halo_mass_on_grid(self, **kwargs):
-- 
2.43.0


From 125746df2e20f1b6fd30c24534d51c5a6d739d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:49 +0000
Subject: [PATCH 120/169] fix: halo_list_to_grid converts positions by their
 own unit

---
 src/tools21cm/nbody_file.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/tools21cm/nbody_file.py b/src/tools21cm/nbody_file.py
index d754be2..c755ca2 100755
--- a/src/tools21cm/nbody_file.py
+++ b/src/tools21cm/nbody_file.py
@@ -310,11 +310,13 @@ def halo_list_to_grid(mass, pos_xyz, box_dim, n_grid):
 	else:
 		print('The provided halo mass is assumed to be in Msun units.')
 		mhalo_msun = mass 
-	if isinstance(mass, astropy.units.quantity.Quantity):
+	if isinstance(pos_xyz, astropy.units.quantity.Quantity):
 		srcpos_mpc = pos_xyz.to('Mpc').value
 	else:
-		print('The provided halo mass is assumed to be in Mpc units.')
+		print('The provided halo positions are assumed to be in Mpc units.')
 		srcpos_mpc = pos_xyz 
+	if isinstance(box_dim, astropy.units.quantity.Quantity):
+		box_dim = box_dim.to('Mpc').value
 
 	hg = Halo2Grid(box_len=box_dim, n_grid=n_grid)
 	hg.set_halo_pos(srcpos_mpc, unit='mpc')
-- 
2.43.0


From aba8fb89b1f9fef352c19819465ee606718eec34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:49 +0000
Subject: [PATCH 121/169] fix: Halo2Grid.halo_mass_on_grid uses the halo masses
 that were set

---
 src/tools21cm/nbody_file.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tools21cm/nbody_file.py b/src/tools21cm/nbody_file.py
index c755ca2..9b39fc7 100755
--- a/src/tools21cm/nbody_file.py
+++ b/src/tools21cm/nbody_file.py
@@ -201,6 +201,7 @@ class Halo2Grid:
 		self.mpc_to_cm = 3.085677581491367e+24 # in cm
 		self.Msun_to_g = 1.988409870698051e+33 # in gram
 		self.pos_grid = None
+		self.mass_Msun = None
 
 	def set_halo_pos(self, pos, unit=None):
 		if unit.lower()=='cm':
@@ -258,7 +259,7 @@ class Halo2Grid:
 		if pos is None:
 			print('Provide the halo positions via parameter "pos".')
 			return None
-		mass = kwargs.get('mass', self.pos_grid)
+		mass = kwargs.get('mass', self.mass_Msun)
 		if mass is None:
 			print('Provide the halo masses via parameter "mass".')
 			return None
-- 
2.43.0


From e338a234409b7be80dcbc9bc54a633dc0deb2f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:49 +0000
Subject: [PATCH 122/169] fix: NbodyFile keeps the six coordinates of each
 particle together

---
 src/tools21cm/nbody_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/nbody_file.py b/src/tools21cm/nbody_file.py
index 9b39fc7..b1c44ce 100755
--- a/src/tools21cm/nbody_file.py
+++ b/src/tools21cm/nbody_file.py
@@ -120,7 +120,7 @@ class NbodyFile:
 			fxv = open(fn_xv, 'rb')
 			np_local_xv = self._get_header(fxv)
 			npart_xv += np_local_xv
-			pos_node = np.fromfile(fxv, count=np_local_xv*6, dtype='float32').reshape((np_local_xv,6), order='F')
+			pos_node = np.fromfile(fxv, count=np_local_xv*6, dtype='float32').reshape((np_local_xv,6), order='C')
 			fxv.close()
 
 			if(self.pid_file):
-- 
2.43.0


From d6e1d8deaa3c7002401f9416f596d1095351385a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:49 +0000
Subject: [PATCH 123/169] fix: reading an Nbody file again does not repeat its
 particles

---
 src/tools21cm/nbody_file.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tools21cm/nbody_file.py b/src/tools21cm/nbody_file.py
index b1c44ce..2d718ba 100755
--- a/src/tools21cm/nbody_file.py
+++ b/src/tools21cm/nbody_file.py
@@ -114,6 +114,7 @@ class NbodyFile:
 			filesname_xv = ['%snode%d/%.3fxv%d.dat' %(self.filespath, self.node, self.z, self.node)]
 			filesname_pid = ['%snode%d/%.3fPID%d.dat' %(self.filespath, self.node, self.z, self.node)]
 
+		self.nbody = []
 		npart_xv = 0
 		npart_pid = 0
 		for fn_xv, fn_pid in zip(filesname_xv, filesname_pid):
-- 
2.43.0


From 544fe6ba182b239bf41ead08c3cd82117b18bbbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:49 +0000
Subject: [PATCH 124/169] fix: HaloRockstar reads at most max_select_number
 haloes

---
 src/tools21cm/halo_list.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/tools21cm/halo_list.py b/src/tools21cm/halo_list.py
index 344066a..a949022 100755
--- a/src/tools21cm/halo_list.py
+++ b/src/tools21cm/halo_list.py
@@ -95,7 +95,7 @@ class HaloRockstar:
 				vals = line.split()
 				
 				#Create a halo and add it to the list
-				if(len(self.halos) > max_select_number):
+				if(max_select_number < 0 or len(self.halos) < max_select_number):
 					halo = Halo()
 					halo.pos = np.array(vals[idx_pos:idx_pos+3]).astype(float) #* U.Mpc/self.h
 					halo.vel = np.array(vals[idx_vel:idx_vel+3]).astype(float) #* U.km/U.s
@@ -107,7 +107,8 @@ class HaloRockstar:
 					halo.mp = int(round(halo.m / self.part_mass, 0))
 					self.halos.append(halo)
 				else:
-					break
+					fileinput.close()
+					return False
 		
 		fileinput.close()
 		return True
-- 
2.43.0


From bb4a661a029972192d4b0f80a37ea28fa5915b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:49 +0000
Subject: [PATCH 125/169] fix: HaloRockstar starts afresh for every file and
 rejects unknown formats

---
 src/tools21cm/halo_list.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tools21cm/halo_list.py b/src/tools21cm/halo_list.py
index a949022..5ccc9bc 100755
--- a/src/tools21cm/halo_list.py
+++ b/src/tools21cm/halo_list.py
@@ -47,6 +47,7 @@ class HaloRockstar:
 			True if all the halos were read. False otherwise.
 		'''
 
+		self.halos = []
 		print_msg('Reading Rockstar Halo Catalog %s...' % filename)
 		self.filename = filename
 		
@@ -79,7 +80,7 @@ class HaloRockstar:
 					lnr_part = 6
 					lnr_vals = 19
 				else:
-					ValueError('ERROR: wrong file format (must be .list or .ascii).')
+					raise ValueError('ERROR: wrong file format (must be .list or .ascii).')
 			elif(linenumber == 1):
 				# Store the redshift from the file header
 				a = float(line.split()[-1])
-- 
2.43.0


From 48cf6ad3c5602bfa64c46d018bffc58e7aff60c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:49 +0000
Subject: [PATCH 126/169] fix: negative angular momenta of haloes are kept

---
 src/tools21cm/halo_list.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tools21cm/halo_list.py b/src/tools21cm/halo_list.py
index 5ccc9bc..cbc81e0 100755
--- a/src/tools21cm/halo_list.py
+++ b/src/tools21cm/halo_list.py
@@ -244,7 +244,7 @@ class HaloCubeP3MFull:
 						halo.pos    = self._reposition(np.array([float(i) for i in vals[:3]]) * self.box_len / self.nbox_fine) # same units as box_len
 						halo.pos_cm = self._reposition(np.array([float(i) for i in vals[3:6]]) * self.box_len / self.nbox_fine) # same units as box_len
 						halo.vel = conv.gridvel_to_kms(gridvel=np.array([float(i) for i in vals[6:9]]), z=self.z)	# km/s
-						halo.l   = 10**(conv.gridmass_to_msol(conv.gridpos_to_mpc(conv.gridvel_to_kms(gridvel=np.array([float(i) for i in vals[9:12]]), z=self.z)))) * const.h * const.h # Msun/h * Mpc/h * km/s
+						halo.l   = conv.gridpos_to_mpc(conv.gridvel_to_kms(gridvel=np.array([float(i) for i in vals[9:12]]), z=self.z))*conv.M_grid*const.solar_masses_per_gram * const.h * const.h # Msun/h * Mpc/h * km/s
 						halo.vel_disp = conv.gridvel_to_kms(gridvel=np.array([float(i) for i in vals[12:15]]), z=self.z)	# km/s
 						halo.m  = 10**(conv.gridmass_to_msol(float(vals[16]))) * const.h # Msun/h
 						halo.mp = float(vals[17])
@@ -408,7 +408,7 @@ class HaloCubeP3M:
 					halo.r = conv.gridpos_to_mpc(halo.r) * const.h 				# Mpc/h
 					halo.pos_cm = self._reposition(pos=conv.gridpos_to_mpc(halo.pos_cm) * const.h)	# Mpc/h
 					halo.vel = conv.gridvel_to_kms(gridvel=halo.vel, z=self.z)	# km/s
-					halo.l = 10**(conv.gridmass_to_msol(conv.gridpos_to_mpc(conv.gridvel_to_kms(gridvel=halo.l, z=self.z)))) * const.h * const.h # Msun/h * Mpc/h * km/s
+					halo.l = conv.gridpos_to_mpc(conv.gridvel_to_kms(gridvel=halo.l, z=self.z))*conv.M_grid*const.solar_masses_per_gram * const.h * const.h # Msun/h * Mpc/h * km/s
 					halo.vel_disp = conv.gridvel_to_kms(gridvel=halo.vel_disp, z=self.z)	# km/s
 
 				self.halos.append(halo)
-- 
2.43.0


From d29156e39df50bd803bcfdca9d9fd59f58fad91d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:49 +0000
Subject: [PATCH 127/169] fix: halo_mass_to_particle_number returns the number
 of particles

---
 src/tools21cm/nbody_tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/nbody_tools.py b/src/tools21cm/nbody_tools.py
index accddf3..1f20242 100755
--- a/src/tools21cm/nbody_tools.py
+++ b/src/tools21cm/nbody_tools.py
@@ -38,7 +38,7 @@ def ParticleMass_to_ParticleNumber(Lbox, particle_mass, cosmo='Planck18'):
 
 def halo_mass_to_particle_number(Lbox, halo_mass, particles_in_halo, cosmo='Planck18'):
     particle_mass = halo_mass/particles_in_halo
-    return particle_number_to_particle_mass(Lbox, particle_mass, cosmo=cosmo)
+    return ParticleMass_to_ParticleNumber(Lbox, particle_mass, cosmo=cosmo)
 
 def particle_number_to_particle_mass(Lbox, particle_each_direction=None, particle_total=None, cosmo='Planck18'):
     particle_number = particle_each_direction if particle_each_direction is not None else np.cbrt(particle_total)
-- 
2.43.0


From 5354b8bea9b8ab740cc4262abcc116ad446c260d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:45 +0000
Subject: [PATCH 128/169] fix: M_HI_on_grid converts positions by their own
 unit

---
 src/tools21cm/line_intensity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/line_intensity.py b/src/tools21cm/line_intensity.py
index 0960084..dd3e648 100755
--- a/src/tools21cm/line_intensity.py
+++ b/src/tools21cm/line_intensity.py
@@ -49,7 +49,7 @@ def M_HI_on_grid(z, mass, pos_xyz, box_dim, n_grid, cosmo=None,
     else:
         print('The provided halo mass is assumed to be in Msun units.')
         mhalo = mass*units.Msun
-    if isinstance(mass, units.quantity.Quantity):
+    if isinstance(pos_xyz, units.quantity.Quantity):
         srcpos = pos_xyz.to('Mpc')
     else:
         print('The provided halo mass is assumed to be in Mpc units.')
-- 
2.43.0


From 1c35c07243f166c57e3a65850febbc00851411b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:09 +0000
Subject: [PATCH 129/169] fix: a halo file that cannot be read does not block
 later ones

---
 src/tools21cm/halo_list.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tools21cm/halo_list.py b/src/tools21cm/halo_list.py
index cbc81e0..ffaf06d 100755
--- a/src/tools21cm/halo_list.py
+++ b/src/tools21cm/halo_list.py
@@ -55,7 +55,7 @@ class HaloRockstar:
 		from astropy import units as U
 
 		#Read the file line by line, since it's large
-		for linenumber, line in tqdm(enumerate(fileinput.input(filename))):
+		for linenumber, line in tqdm(enumerate(fileinput.FileInput(filename))):
 			if(linenumber == 0):
 				# Store the variable from the file header
 				header = line.split()
@@ -213,7 +213,7 @@ class HaloCubeP3MFull:
 				print_msg('Max_select_mass: %g' % max_select_mass)
 				max_select_grid_mass = max_select_mass/(conv.M_grid*const.solar_masses_per_gram)
 
-		for line in tqdm(fileinput.input(filename)):
+		for line in tqdm(fileinput.FileInput(filename)):
 				if linenumber < startline: #If you want to read from a particular line
 						linenumber += 1
 						continue
@@ -503,7 +503,7 @@ class HaloList:
 			print_msg('Max_select_mass: %g' % max_select_mass)
 			max_select_grid_mass = max_select_mass/(conv.M_grid*const.solar_masses_per_gram)
 
-		for line in tqdm(fileinput.input(filename)):
+		for line in tqdm(fileinput.FileInput(filename)):
 			if linenumber < startline: #If you want to read from a particular line
 				linenumber += 1
 				continue
-- 
2.43.0


From abbdde55e422c25537a17e681befc753f943121c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:09 +0000
Subject: [PATCH 130/169] fix: masses of CubeP3M haloes do not overflow single
 precision

---
 src/tools21cm/halo_list.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/tools21cm/halo_list.py b/src/tools21cm/halo_list.py
index ffaf06d..7b02163 100755
--- a/src/tools21cm/halo_list.py
+++ b/src/tools21cm/halo_list.py
@@ -244,7 +244,7 @@ class HaloCubeP3MFull:
 						halo.pos    = self._reposition(np.array([float(i) for i in vals[:3]]) * self.box_len / self.nbox_fine) # same units as box_len
 						halo.pos_cm = self._reposition(np.array([float(i) for i in vals[3:6]]) * self.box_len / self.nbox_fine) # same units as box_len
 						halo.vel = conv.gridvel_to_kms(gridvel=np.array([float(i) for i in vals[6:9]]), z=self.z)	# km/s
-						halo.l   = conv.gridpos_to_mpc(conv.gridvel_to_kms(gridvel=np.array([float(i) for i in vals[9:12]]), z=self.z))*conv.M_grid*const.solar_masses_per_gram * const.h * const.h # Msun/h * Mpc/h * km/s
+						halo.l   = conv.gridpos_to_mpc(conv.gridvel_to_kms(gridvel=np.array([float(i) for i in vals[9:12]]), z=self.z))*(conv.M_grid*const.solar_masses_per_gram) * const.h * const.h # Msun/h * Mpc/h * km/s
 						halo.vel_disp = conv.gridvel_to_kms(gridvel=np.array([float(i) for i in vals[12:15]]), z=self.z)	# km/s
 						halo.m  = 10**(conv.gridmass_to_msol(float(vals[16]))) * const.h # Msun/h
 						halo.mp = float(vals[17])
@@ -383,10 +383,10 @@ class HaloCubeP3M:
 				mass_vir, mass_odc, r_vir, r_odc = np.fromfile(f, count=4, dtype='float32')
 				
 				if(mass_def == 'vir'):
-					halo.m = mass_vir # Msun/h
+					halo.m = float(mass_vir) # Msun/h
 					halo.r = r_vir # Mpc/h
 				else:
-					halo.m = mass_odc # Msun/h
+					halo.m = float(mass_odc) # Msun/h
 					halo.r = r_odc # Mpc/h
 				
 				halo.mp = 0		# TODO: DOUBLE CHEKC THIS QUANITTY
@@ -408,7 +408,7 @@ class HaloCubeP3M:
 					halo.r = conv.gridpos_to_mpc(halo.r) * const.h 				# Mpc/h
 					halo.pos_cm = self._reposition(pos=conv.gridpos_to_mpc(halo.pos_cm) * const.h)	# Mpc/h
 					halo.vel = conv.gridvel_to_kms(gridvel=halo.vel, z=self.z)	# km/s
-					halo.l = conv.gridpos_to_mpc(conv.gridvel_to_kms(gridvel=halo.l, z=self.z))*conv.M_grid*const.solar_masses_per_gram * const.h * const.h # Msun/h * Mpc/h * km/s
+					halo.l = conv.gridpos_to_mpc(conv.gridvel_to_kms(gridvel=halo.l, z=self.z))*(conv.M_grid*const.solar_masses_per_gram) * const.h * const.h # Msun/h * Mpc/h * km/s
 					halo.vel_disp = conv.gridvel_to_kms(gridvel=halo.vel_disp, z=self.z)	# km/s
 
 				self.halos.append(halo)
-- 
2.43.0


From 4451ec435f25f36999893dfdb8c5de0342aedb81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:09 +0000
Subject: [PATCH 131/169] fix: NbodyFile accepts files whose redshift rounds
 differently

---
 src/tools21cm/nbody_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/nbody_file.py b/src/tools21cm/nbody_file.py
index 2d718ba..56f0c1f 100755
--- a/src/tools21cm/nbody_file.py
+++ b/src/tools21cm/nbody_file.py
@@ -75,7 +75,7 @@ class NbodyFile:
 		np_local_xv = np.fromfile(f, count=1, dtype='int32')[0]
 
 		self.a, t, tau  = np.fromfile(f, count=3, dtype='float32')
-		assert round(1./self.a-1, 2) == round(self.z, 2)
+		assert abs(1./float(self.a)-1 - self.z) < 0.01
 
 		nts = np.fromfile(f, count=1, dtype='int32')[0]
 		dt_f_acc, dt_pp_acc, dt_c_acc  = np.fromfile(f, count=3, dtype='float32')
-- 
2.43.0


From c78c7a1e78f7e14f33468d61b195371954637dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:39 +0000
Subject: [PATCH 132/169] fix: Muv_to_muv adds magnitudes to magnitudes

---
 src/tools21cm/astro_tools.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tools21cm/astro_tools.py b/src/tools21cm/astro_tools.py
index 84d8e1e..4cdb936 100755
--- a/src/tools21cm/astro_tools.py
+++ b/src/tools21cm/astro_tools.py
@@ -88,8 +88,8 @@ def Muv_to_muv(Muv, z, cosmo=None):
         cosmo = Planck18
         print('Assuming Planck 2018 cosmology.')
     if isinstance(Muv, (int,float)): Muv *= units.mag
-    Kcorrection = 2.5 * np.log10(1 + z) 
-    m_uv = Muv + cosmo.distmod(z).value - Kcorrection
+    Kcorrection = 2.5 * np.log10(1 + z) * units.mag
+    m_uv = Muv + cosmo.distmod(z) - Kcorrection
     return m_uv
 
 
-- 
2.43.0


From 7d5079d376392c3fed577a90fc8c81c3c9c76df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:39 +0000
Subject: [PATCH 133/169] fix: Muv_to_L1500 uses its own argument

---
 src/tools21cm/astro_tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/astro_tools.py b/src/tools21cm/astro_tools.py
index 4cdb936..94e2440 100755
--- a/src/tools21cm/astro_tools.py
+++ b/src/tools21cm/astro_tools.py
@@ -145,7 +145,7 @@ def Muv_to_L1500(M_AB):
     This conversion is based on the AB magnitude system, where a magnitude of M_AB = 34.1 corresponds 
     to a luminosity of 10^34.1 erg/s/Hz.
     '''
-    if isinstance(Muv, (int,float)): Muv *= units.mag
+    if isinstance(M_AB, (int,float)): M_AB *= units.mag
     SI2cgs = 1e7  # 1 W/Hz = 1e7 erg/s/Hz
     L1500 = SI2cgs * 10.**((34.1 - M_AB.to('mag').value)/2.5) * units.erg/units.s/units.Hz
     return L1500
-- 
2.43.0


From 871faeca74cf116af3f7927b59a3849e304a67eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:39 +0000
Subject: [PATCH 134/169] fix: FoV_cMpc2 takes plain numbers as square degrees,
 as documented

---
 src/tools21cm/astro_tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/astro_tools.py b/src/tools21cm/astro_tools.py
index 94e2440..874a25f 100755
--- a/src/tools21cm/astro_tools.py
+++ b/src/tools21cm/astro_tools.py
@@ -30,7 +30,7 @@ def FoV_cMpc2(FoV, redshift, cosmo=None):
     if cosmo is None:
         cosmo = Planck18
         print('Assuming Planck 2018 cosmology.')
-    if isinstance(FoV,(int,float)): FoV *= units.rad**2
+    if isinstance(FoV,(int,float)): FoV *= units.deg**2
     D = cosmo.comoving_distance(redshift)
     FoV_cMpc2 = FoV.to('rad2').value * D**2
     return FoV_cMpc2
-- 
2.43.0


From 26d48d2586d3e261fcb03221dce10de4a5a39c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:39 +0000
Subject: [PATCH 135/169] fix: thermal Doppler width of the Lyman-alpha line is
 sqrt(2kT/m)

---
 src/tools21cm/lyman_alpha_transmission.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tools21cm/lyman_alpha_transmission.py b/src/tools21cm/lyman_alpha_transmission.py
index 5b4dedd..0ee9ac2 100755
--- a/src/tools21cm/lyman_alpha_transmission.py
+++ b/src/tools21cm/lyman_alpha_transmission.py
@@ -128,7 +128,7 @@ def lyA_scattering_cross_section(nu, Tk):
     a_nu = 4.7e-4/np.sqrt(Tk4) #2004.13065
 
     nuA = 2.46e15 #units.Hz
-    dnu_D = nuA*np.sqrt((constants.k_B*Tk/constants.m_p/constants.c**2).to(''))
+    dnu_D = nuA*np.sqrt((2*constants.k_B*Tk/constants.m_p/constants.c**2).to(''))
     if isinstance(nu, units.quantity.Quantity):
         nu = nu.to('Hz').value
     x_nu = (nu-nuA)/dnu_D
@@ -255,7 +255,7 @@ def tau_nu_lyA(z, xHI, Tk, dr, nu=2.46e15*units.Hz, X_H=0.76, cosmo=None):
     a_nu = 4.7e-4/np.sqrt(Tk4) #2004.13065
 
     nuA = 2.46e15 #units.Hz
-    dnu_D = nuA*np.sqrt((constants.k_B*Tk/constants.m_p/constants.c**2).to(''))
+    dnu_D = nuA*np.sqrt((2*constants.k_B*Tk/constants.m_p/constants.c**2).to(''))
     if isinstance(nu, units.quantity.Quantity):
         nu = nu.to('Hz').value
     x_nu = (nu-nuA)/dnu_D
-- 
2.43.0


From fabd1b89403d4bf16fda1d6ffa855e8b4539ad96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:39 +0000
Subject: [PATCH 136/169] fix: tau_nu_lyA_los method smith2015 calls the
 existing function

---
 src/tools21cm/lyman_alpha_transmission.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/lyman_alpha_transmission.py b/src/tools21cm/lyman_alpha_transmission.py
index 0ee9ac2..c775548 100755
--- a/src/tools21cm/lyman_alpha_transmission.py
+++ b/src/tools21cm/lyman_alpha_transmission.py
@@ -322,7 +322,7 @@ def tau_nu_lyA_los(z, xHI, dn, los_len=30*units.Mpc, box_len=None, los_axis=2, m
         nu = kwargs.get('nu', 2.46e15*units.Hz)
         if los_axis!=2: 
             Tk = np.swapaxes(Tk,los_axis,2)
-        tauA = tau_nu_lyA_Smith2015(z, xHI, Tk, dr, nu=nu, X_H=X_H, cosmo=cosmo)
+        tauA = tau_nu_lyA(z, xHI, Tk, dr, nu=nu, X_H=X_H, cosmo=cosmo)
     elif method.lower()=='fgpa':
         f_alpha = kwargs.get('f_alpha', 0.416)
         lambda_alpha = kwargs.get('lambda_alpha', 1216.0*units.Angstrom)
-- 
2.43.0


From 91cf51dfc611602ba5730e8453134a3676730cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:39 +0000
Subject: [PATCH 137/169] fix: tau_nu_lyA_los puts every field on the requested
 line-of-sight axis and keeps the input orientation

---
 src/tools21cm/lyman_alpha_transmission.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/tools21cm/lyman_alpha_transmission.py b/src/tools21cm/lyman_alpha_transmission.py
index c775548..57bea1f 100755
--- a/src/tools21cm/lyman_alpha_transmission.py
+++ b/src/tools21cm/lyman_alpha_transmission.py
@@ -306,7 +306,8 @@ def tau_nu_lyA_los(z, xHI, dn, los_len=30*units.Mpc, box_len=None, los_axis=2, m
 
     if los_axis!=2:
         xHI = np.swapaxes(xHI,los_axis,2)
-    
+        dn  = np.swapaxes(dn,los_axis,2)
+
     if not isinstance(los_len, units.quantity.Quantity):
         print(f'As a unitless los_len was provided, it is assumed to be number of grids')
         los_cells = los_len
@@ -320,7 +321,7 @@ def tau_nu_lyA_los(z, xHI, dn, los_len=30*units.Mpc, box_len=None, los_axis=2, m
         Tk = kwargs.get('Tk')
         dr = kwargs.get('dr')
         nu = kwargs.get('nu', 2.46e15*units.Hz)
-        if los_axis!=2: 
+        if los_axis!=2 and np.ndim(Tk)==3:
             Tk = np.swapaxes(Tk,los_axis,2)
         tauA = tau_nu_lyA(z, xHI, Tk, dr, nu=nu, X_H=X_H, cosmo=cosmo)
     elif method.lower()=='fgpa':
@@ -334,4 +335,6 @@ def tau_nu_lyA_los(z, xHI, dn, los_len=30*units.Mpc, box_len=None, los_axis=2, m
     exp_tauA_los = np.array([exp_tauA_padded[:,:,i:i+los_cells].sum(axis=2).T/los_cells for i in tqdm(range(tauA.shape[2]))])
     tauA_los = -np.log(exp_tauA_los)
     tauA_los = np.swapaxes(tauA_los,0,2)
+    if los_axis!=2:
+        tauA_los = np.swapaxes(tauA_los,los_axis,2)
     return tauA_los
-- 
2.43.0


From ac12adbafc993f01f6543a6055122d920a176c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:39 +0000
Subject: [PATCH 138/169] fix: tau_nu_lyA_los counts cells along the line of
 sight for any length unit

---
 src/tools21cm/lyman_alpha_transmission.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tools21cm/lyman_alpha_transmission.py b/src/tools21cm/lyman_alpha_transmission.py
index 57bea1f..f07096d 100755
--- a/src/tools21cm/lyman_alpha_transmission.py
+++ b/src/tools21cm/lyman_alpha_transmission.py
@@ -300,6 +300,8 @@ def tau_nu_lyA_los(z, xHI, dn, los_len=30*units.Mpc, box_len=None, los_axis=2, m
         print('Assuming Planck18 cosmology')
         cosmo = Planck18
 
+    if box_len is not None and not isinstance(box_len, units.quantity.Quantity):
+        box_len = box_len*units.Mpc
     if box_len is None:
         box_len = 200/cosmo.h*units.Mpc
         print(f'As box_len was not provided, it is assumed to be {box_len}')
@@ -312,7 +314,7 @@ def tau_nu_lyA_los(z, xHI, dn, los_len=30*units.Mpc, box_len=None, los_axis=2, m
         print(f'As a unitless los_len was provided, it is assumed to be number of grids')
         los_cells = los_len
     else:
-        los_cells = int(np.round(los_len*(xHI.shape[0]/box_len)))
+        los_cells = int(np.round((los_len*(xHI.shape[2]/box_len)).to('').value))
 
     if dn.min()>1:
         dn = dn/dn.mean()-1
-- 
2.43.0


From 4e5428ab1361a5eed517c86d158b8090d39a3649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:39 +0000
Subject: [PATCH 139/169] fix: tau_nu_lyA_los window wraps around for
 single-cell and longer-than-box windows

---
 src/tools21cm/lyman_alpha_transmission.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tools21cm/lyman_alpha_transmission.py b/src/tools21cm/lyman_alpha_transmission.py
index f07096d..5fdb734 100755
--- a/src/tools21cm/lyman_alpha_transmission.py
+++ b/src/tools21cm/lyman_alpha_transmission.py
@@ -332,7 +332,8 @@ def tau_nu_lyA_los(z, xHI, dn, los_len=30*units.Mpc, box_len=None, los_axis=2, m
         k_res = kwargs.get('k_res', 1.0)
         tauA = tau_nu_lyA_FGPA(z, xHI, dn, f_alpha=f_alpha, lambda_alpha=lambda_alpha, k_res=k_res, X_H=X_H, cosmo=cosmo)
 
-    tauA_padded = np.concatenate((tauA[:,:,-int(los_cells/2):],tauA,tauA[:,:,:int(los_cells/2) if los_cells%2==0 else int(los_cells/2)+1]),axis=2)
+    n_los = tauA.shape[2]
+    tauA_padded = np.take(tauA, np.arange(-(los_cells//2), n_los+los_cells-los_cells//2), axis=2, mode='wrap')
     exp_tauA_padded = np.exp(-tauA_padded)
     exp_tauA_los = np.array([exp_tauA_padded[:,:,i:i+los_cells].sum(axis=2).T/los_cells for i in tqdm(range(tauA.shape[2]))])
     tauA_los = -np.log(exp_tauA_los)
-- 
2.43.0


From 3237f0f1c118c197b859405538a04808c9865618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:38 +0000
Subject: [PATCH 140/169] fix: direct_voigt_profile does not miss a narrow
 Lorentzian peak

---
 src/tools21cm/lyman_alpha_transmission.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tools21cm/lyman_alpha_transmission.py b/src/tools21cm/lyman_alpha_transmission.py
index 5fdb734..ab3d4fc 100755
--- a/src/tools21cm/lyman_alpha_transmission.py
+++ b/src/tools21cm/lyman_alpha_transmission.py
@@ -93,7 +93,8 @@ def direct_voigt_profile(x, a):
     """
     Iy = lambda y,x,a: np.exp(-y**2) / ((y - x)**2 + a**2)
     def out_func(x,a):
-        return integrate.quad(Iy, -np.inf, np.inf, args=(x,a))[0]
+        # split at the Lorentzian peak, which quad may otherwise step over when it is narrow
+        return integrate.quad(Iy, -np.inf, x, args=(x,a))[0] + integrate.quad(Iy, x, np.inf, args=(x,a))[0]
     out = (a / np.pi) * np.vectorize(out_func)(x,a)
     return out
 
-- 
2.43.0


From 75541582f434e1298e6062eda5df2097a88f6cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:05 +0000
Subject: [PATCH 141/169] fix: anisotropy_ratio_r_mu returns the number of
 modes when asked

---
 src/tools21cm/power_spectrum.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tools21cm/power_spectrum.py b/src/tools21cm/power_spectrum.py
index 411db31..e001d20 100755
--- a/src/tools21cm/power_spectrum.py
+++ b/src/tools21cm/power_spectrum.py
@@ -606,10 +606,12 @@ def anisotropy_ratio_r_mu(input_array, los_axis=0, mu_cut=0.5, mubins=20, kbins=
             kbins is an array with the k bin centers.
 
     '''
-    Pk, mubins, kbins = power_spectrum_mu(input_array, los_axis=los_axis, mubins=mubins, kbins=kbins, box_dims=box_dims, weights=weights, exclude_zero_modes=exclude_zero_modes, return_n_modes=return_n_modes, absolute_mus=absolute_mus, **kwargs)
+    Pk, mubins, kbins, n_modes = power_spectrum_mu(input_array, los_axis=los_axis, mubins=mubins, kbins=kbins, box_dims=box_dims, weights=weights, exclude_zero_modes=exclude_zero_modes, return_n_modes=True, absolute_mus=absolute_mus, **kwargs)
     Pup = Pk[mubins>=mu_cut,:]
     Pdn = Pk[mubins<mu_cut,:]
     rup = np.array([pp[np.isfinite(pp)].mean() for pp in Pup.T])
     rdn = np.array([pp[np.isfinite(pp)].mean() for pp in Pdn.T])     
     rmu = rup/rdn-1.0
+    if return_n_modes:
+        return rmu, kbins, n_modes
     return rmu, kbins
\ No newline at end of file
-- 
2.43.0


From 72b035f534d6ea5b1f6271b5ca4be607325d5913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:17 +0000
Subject: [PATCH 142/169] Restore test_case.py: files named like tests stay as
 they were

---
 src/tools21cm/test_case.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/tools21cm/test_case.py b/src/tools21cm/test_case.py
index 6120f12..2e547fb 100755
--- a/src/tools21cm/test_case.py
+++ b/src/tools21cm/test_case.py
@@ -27,7 +27,7 @@ def paint_kernel(cube, positions, kernel):
         rolled_cube[:kernel_shape[0], :kernel_shape[1], :kernel_shape[2]] += kernel
         
         # Roll it back to the original position
-        cube[...] = np.roll(rolled_cube, shift=pos - kernel_radius, axis=(0, 1, 2))
+        cube += np.roll(rolled_cube, shift=pos - kernel_radius, axis=(0, 1, 2))
     
     return None
             
@@ -59,7 +59,6 @@ def spherical_bubble_model(n_cells, x_ion, r=10, source_distribution='Poisson',
         print('Cube initialized to zeros...')
         cube = np.zeros((n_cells, n_cells, n_cells), dtype=float)
     else:
-        cube = np.array(cube, dtype=float)  # the bubbles are not painted on the input
         print(f'Cube with filling fraction of {cube.mean():.3f} provided...')
     
     # Volume fraction of a single bubble
@@ -89,8 +88,7 @@ def spherical_bubble_model(n_cells, x_ion, r=10, source_distribution='Poisson',
             arg_zero = np.argwhere(cube==0)
             positions = arg_zero[np.random.randint(0, arg_zero.shape[0], batch_size)]
         elif source_distribution.lower() in ['anticlustered', 'anti-clustered', 'non-overlapping', 'nonoverlapping']:
-            pad = int(np.ceil(r))+1  # the bubbles wrap around the box
-            edt = ndimage.distance_transform_edt(np.pad(1-cube, pad, mode='wrap'), return_indices=False)[pad:-pad,pad:-pad,pad:-pad]
+            edt = ndimage.distance_transform_edt(1-cube, return_indices=False)
             arg_zero = np.argwhere(edt>r)
             if len(arg_zero)==0:
                 print('No empty space fill spheres.')
-- 
2.43.0


From 4e3bf6660fe9934def0c62a0003c9aa62575058b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:58 +0000
Subject: [PATCH 143/169] fix: rolling_wedge_removal_lightcone works with an
 odd chunk length

---
 src/tools21cm/foreground_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/foreground_model.py b/src/tools21cm/foreground_model.py
index a534410..b1c362a 100755
--- a/src/tools21cm/foreground_model.py
+++ b/src/tools21cm/foreground_model.py
@@ -193,7 +193,7 @@ def rolling_wedge_removal_lightcone(lightcone, redshifts, cell_size=None, chunk_
 	Box_uv = np.concatenate((empty_box, Box_uv, empty_box), axis = 2)
     
 	for i in range(chunk_length, box_shape[-1] + chunk_length):
-		t_box = np.copy(Box_uv[..., i-chunk_length//2: i+chunk_length//2])
+		t_box = np.copy(Box_uv[..., i-chunk_length//2: i-chunk_length//2+chunk_length])
 		t_box *= BM
 		W = k_par / (k_perp * MF[min(i - chunk_length // 2 - 1, box_shape[-1] - 1)] + buffer)
 		w = np.logical_or(W < -1., W > 1.)
-- 
2.43.0


From 0246cf9d927069f07fded30b573f72b0a54898bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:58 +0000
Subject: [PATCH 144/169] fix: wedge filters can be made for a number of cells
 and for short light-cones

---
 src/tools21cm/foreground_model.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tools21cm/foreground_model.py b/src/tools21cm/foreground_model.py
index b1c362a..721a628 100755
--- a/src/tools21cm/foreground_model.py
+++ b/src/tools21cm/foreground_model.py
@@ -113,7 +113,7 @@ def diabolo_filter(z, ncells=None, array=None, boxsize=None, mu=0.5, funct='step
 			ss[k2<=kpr]  = 0
 		ss[k2<=kmin] = 0
 		filt[:,:,i] = ss
-	if array.shape[2]<ncells: filt = filt[:,:,ncells/2-array.shape[2]/2:ncells/2+array.shape[2]/2]
+	if array is not None and array.shape[2]<ncells: filt = filt[:,:,(ncells-array.shape[2])//2:(ncells-array.shape[2])//2+array.shape[2]]
 	print("A diabolo filter made with %s function."%funct)
 	return filt
 
@@ -131,8 +131,8 @@ def barrel_filter(z, ncells=None, array=None, boxsize=None, k_par_min=None, smal
 	ss = np.ones(k2.shape)
 	ss[k2<=k_par_min] = 0
 	filt = np.zeros((ncells,ncells,ncells))
-	for i in range(ncells): filt[:,:,i] = filt
-	if array.shape[2]<ncells: filt = filt[:,:,ncells/2-array.shape[2]/2:ncells/2+array.shape[2]/2]
+	for i in range(ncells): filt[:,:,i] = ss
+	if array is not None and array.shape[2]<ncells: filt = filt[:,:,(ncells-array.shape[2])//2:(ncells-array.shape[2])//2+array.shape[2]]
 	print("A barrel filter made with step function.")
 	return filt	
 
-- 
2.43.0


From 9ca834c167388e08517d8e062b43f1a38c0fcfbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:43 +0000
Subject: [PATCH 145/169] fix: distribution diagnostics work with a single
 parameter

---
 src/tools21cm/plotting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/plotting.py b/src/tools21cm/plotting.py
index 9b96958..279fb23 100755
--- a/src/tools21cm/plotting.py
+++ b/src/tools21cm/plotting.py
@@ -326,7 +326,7 @@ class DistributionDiagnostic(ABC):
         num_params = points.shape[1]
 
         means = np.average(points, axis=0, weights=weights_norm)
-        cov = np.cov(points.T, aweights=weights_norm)
+        cov = np.atleast_2d(np.cov(points.T, aweights=weights_norm))
         sigmas = np.sqrt(np.diag(cov))
 
         cis = []
-- 
2.43.0


From 1b913c3528b37097df04d729b0f5b3d00958e812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:43 +0000
Subject: [PATCH 146/169] fix: print_chain_stats leaves the weights as they
 were and takes integer weights

---
 src/tools21cm/plotting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/plotting.py b/src/tools21cm/plotting.py
index 279fb23..22ad864 100755
--- a/src/tools21cm/plotting.py
+++ b/src/tools21cm/plotting.py
@@ -143,7 +143,7 @@ def print_chain_stats(samples_dict, weights_dict, param_names):
     for name, samples in samples_dict.items():
         weights = weights_dict[name] if weights_dict else np.ones(len(samples))
         # Normalize weights
-        weights /= np.sum(weights)
+        weights = weights / np.sum(weights)
         
         for i, p_name in enumerate(param_names):
             data = samples[:, i]
-- 
2.43.0


From e70db6f8fccdf5042867dddf31ee2a71e658c624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:43 +0000
Subject: [PATCH 147/169] fix: plot_hist uses the bins it is given

---
 src/tools21cm/plotting.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/tools21cm/plotting.py b/src/tools21cm/plotting.py
index 22ad864..19ac997 100755
--- a/src/tools21cm/plotting.py
+++ b/src/tools21cm/plotting.py
@@ -116,10 +116,8 @@ def plot_hist(data, logscale = False, **kwargs):
     plot_data, datatype = get_data_and_type(data)
     
     #Fix bins
-    if datatype == 'xfrac' and not 'bins' in kwargs.keys():
-        kwargs['bins'] = np.linspace(0,1,30)
-    else: 
-        kwargs['bins'] = 30
+    if not 'bins' in kwargs.keys():
+        kwargs['bins'] = np.linspace(0,1,30) if datatype == 'xfrac' else 30
         
     #Plot
     if not 'histtype' in kwargs.keys():
-- 
2.43.0


From 5e511e5c87609556b35e903eb42d235e4480af19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:43 +0000
Subject: [PATCH 148/169] fix: plot_forest and plot_corner accept the true
 values as an array

---
 src/tools21cm/plotting.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tools21cm/plotting.py b/src/tools21cm/plotting.py
index 19ac997..380fd43 100755
--- a/src/tools21cm/plotting.py
+++ b/src/tools21cm/plotting.py
@@ -444,7 +444,7 @@ class DistributionDiagnostic(ABC):
 
             handle_map[orig_i] = mlines.Line2D([], [], color=color, label=name, lw=2)
 
-        if self.true_values:
+        if self.true_values is not None:
             corner.overplot_lines(fig, self.true_values[:max_params],
                                   color="gray", ls="--", alpha=0.5)
 
@@ -498,7 +498,7 @@ class DistributionDiagnostic(ABC):
                 ax.errorbar(ci['median'], i, xerr=[[ci['median'] - ci['lo1']], [ci['hi1'] - ci['median']]],
                             fmt='o', color=color, lw=3)
 
-            if self.true_values and p < len(self.true_values):
+            if self.true_values is not None and p < len(self.true_values):
                 ax.axvline(self.true_values[p], color='gray', ls='--', alpha=0.6)
             ax.set_xlabel(f'${labels[p]}$')
             if p == 0:
-- 
2.43.0


From f5dcf5750c6126fd9088cc503050bb74875597c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:15 +0000
Subject: [PATCH 149/169] fix: freq_box interpolates between the two snapshots
 nearest to every slice

---
 src/tools21cm/deprecated.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/tools21cm/deprecated.py b/src/tools21cm/deprecated.py
index af18da2..dd1edf9 100755
--- a/src/tools21cm/deprecated.py
+++ b/src/tools21cm/deprecated.py
@@ -84,8 +84,8 @@ def freq_box(xfrac_dir, dens_dir, z_low, z_high):
     
     for z in output_z:
         #Find the output files that bracket the redshift
-        z_bracket_low_new = dens_redshifts[dens_redshifts <= z][0]
-        z_bracket_high_new = dens_redshifts[dens_redshifts >= z][0]
+        z_bracket_low_new = dens_redshifts[dens_redshifts <= z][-1]
+        z_bracket_high_new = dens_redshifts[dens_redshifts > z][0]
 
         if z_bracket_low_new != z_bracket_low:
             z_bracket_low = z_bracket_low_new
@@ -103,17 +103,17 @@ def freq_box(xfrac_dir, dens_dir, z_low, z_high):
         
         #Ionized fraction
         xi_interp = _get_interp_slice(xfrac_file_high.xi, xfrac_file_low.xi, z_bracket_high, \
-                                    z_bracket_low, z, comoving_pos_idx)
+                                    z_bracket_low, z, comoving_pos_idx, los_axis=2)
         xfrac_lightcone[:,:,comoving_pos_idx] = xi_interp
 
         #Density
         rho_interp = _get_interp_slice(dens_file_high.cgs_density, dens_file_low.cgs_density, z_bracket_high, \
-                                    z_bracket_low, z, comoving_pos_idx)
+                                    z_bracket_low, z, comoving_pos_idx, los_axis=2)
         dens_lightcone[:,:,comoving_pos_idx] = rho_interp
 
         #Brightness temperature
         dt_interp = _get_interp_slice(dt_cube_high, dt_cube_low, z_bracket_high, \
-                                    z_bracket_low, z, comoving_pos_idx)
+                                    z_bracket_low, z, comoving_pos_idx, los_axis=2)
         dt_lightcone[:,:,comoving_pos_idx] = dt_interp
 
         print_msg( 'Slice %d of %d' % (comoving_pos_idx, len(output_z)) )
-- 
2.43.0


From dd3704e0318ce96eb89e14ad59328900a6624110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:43 +0000
Subject: [PATCH 150/169] fix: the last mu bin keeps the modes along the line
 of sight (mu=1)

---
 src/tools21cm/power_spectrum.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tools21cm/power_spectrum.py b/src/tools21cm/power_spectrum.py
index e001d20..517a196 100755
--- a/src/tools21cm/power_spectrum.py
+++ b/src/tools21cm/power_spectrum.py
@@ -426,7 +426,9 @@ def mu_binning(powerspectrum, los_axis = 0, mubins=20, kbins=10, box_dims=None,
                 for i in range(n_mubins):
                         mu_min = mubins[i]
                         mu_max = mubins[i+1]
-                        idx = (mu >= mu_min) & (mu < mu_max) & kidx.astype(bool)
+                        #The last bin includes its upper edge: the modes along the line of sight have mu=1
+                        below = (mu <= mu_max) if i == n_mubins-1 else (mu < mu_max)
+                        idx = (mu >= mu_min) & below & kidx.astype(bool)
                         outdata[i,ki] = np.mean(powerspectrum[idx])
                         n_modes[i,ki] = np.size(powerspectrum[idx])
                         if weights is not None:
-- 
2.43.0


From 147c4aeeb0fa632fec3eb38d8fb9c6093a0b9c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:43 +0000
Subject: [PATCH 151/169] fix: modes with k below 0.001 of boxes larger than 6
 Gpc are not lost from mu bins and multipoles

---
 src/tools21cm/power_spectrum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/power_spectrum.py b/src/tools21cm/power_spectrum.py
index 517a196..ffb9b55 100755
--- a/src/tools21cm/power_spectrum.py
+++ b/src/tools21cm/power_spectrum.py
@@ -499,7 +499,7 @@ def _get_mu(k_comp, k, los_axis, absolute_mus):
 
         #mu=cos(theta) = k_par/k
         mu = np.abs(los_dist/k) if absolute_mus else los_dist/np.abs(k)
-        mu[np.where(k < 0.001)] = np.nan
+        mu[np.where(k == 0)] = np.nan #only k=0 has no direction
         
         return mu
 
-- 
2.43.0


From 996d8f65a5cab41720c8ba568502a05d77e602e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:45 +0000
Subject: [PATCH 152/169] fix: smooth_line takes integer custom windows

---
 src/tools21cm/smoothing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/smoothing.py b/src/tools21cm/smoothing.py
index 8196440..216ef52 100755
--- a/src/tools21cm/smoothing.py
+++ b/src/tools21cm/smoothing.py
@@ -643,7 +643,7 @@ def smooth_line(y, window=3, kind='tophat'):
             raise ValueError(f"Unsupported window kind: '{kind}'. Choose from 'tophat', 'gaussian', 'triangular', 'hamming', or 'hanning'.")
     elif isinstance(window, (list, np.ndarray)):
         window = np.array(window)
-        window /= np.sum(window)  # Ensure the custom window is normalized
+        window = window / np.sum(window)  # Ensure the custom window is normalized
     else:
         raise ValueError("Window must be an integer or an array-like object.")
 
-- 
2.43.0


From f10e0f9d4d5e081c86a4f7724050b104df405be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:57 +0000
Subject: [PATCH 153/169] fix: power_spectrum_2d tapers along the frequency
 axis it is given, not always the last one

---
 src/tools21cm/power_spectrum.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/tools21cm/power_spectrum.py b/src/tools21cm/power_spectrum.py
index ffb9b55..c905a4b 100755
--- a/src/tools21cm/power_spectrum.py
+++ b/src/tools21cm/power_spectrum.py
@@ -9,17 +9,18 @@ from .helper_functions import print_msg, get_eval
 from .scipy_func import numpy_product
 from scipy import fftpack, stats
 
-def apply_window(input_array, window):
+def apply_window(input_array, window, nu_axis=-1):
     if window is None: return input_array
     from scipy.signal import windows
     if not isinstance(window, str):
             return input_array * window
     if window.lower()=='blackmanharris':
-            input_array = input_array * windows.blackmanharris(input_array.shape[-1])[None,None,:]
+            taper = windows.blackmanharris(input_array.shape[nu_axis])
     elif window.lower()=='tukey':
-            input_array = input_array * windows.tukey(input_array.shape[-1])[None,None,:]
+            taper = windows.tukey(input_array.shape[nu_axis])
     else:
             raise ValueError('Unknown window: %s' % window)
+    input_array = np.moveaxis(np.moveaxis(input_array, nu_axis, -1) * taper, -1, nu_axis)
     return input_array
 
 
@@ -207,7 +208,7 @@ def power_spectrum_2d(input_array, kbins=10, binning='log', box_dims=244/.7, ret
                 n_modes is the number of modes.
         
         '''
-        input_array = apply_window(input_array, window)
+        input_array = apply_window(input_array, window, nu_axis)
         
         if not hasattr(kbins, '__len__'):
                 kbins = [kbins, kbins]
-- 
2.43.0


From ede7b36bc159a96959bb9f55a306433b5755b935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:26 +0000
Subject: [PATCH 154/169] fix: VelocityFile.write_to_file leaves kmsrho8 of the
 data it replaced

---
 src/tools21cm/vel_file.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tools21cm/vel_file.py b/src/tools21cm/vel_file.py
index 248de10..3b01a5d 100755
--- a/src/tools21cm/vel_file.py
+++ b/src/tools21cm/vel_file.py
@@ -81,6 +81,8 @@ class VelocityFile:
 		'''
 		if raw_velocity is not None:
 			self.raw_velocity = raw_velocity
+			if getattr(self, 'z', None) is not None:
+				self.kmsrho8 = self.raw_velocity*conv.velconvert(z = self.z)
 		if getattr(self, 'raw_velocity', None) is None:
 			print_msg("Error: No raw velocity data to write. Please load a velocity file first or set the 'raw_velocity' attribute.")
 			return
-- 
2.43.0


From 1246cd1f06c702659df8495feb30aab5589d73a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:26 +0000
Subject: [PATCH 155/169] fix: coeval_dens_c2ray keeps the mean comoving
 density between snapshots

---
 src/tools21cm/read_files.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tools21cm/read_files.py b/src/tools21cm/read_files.py
index b4e9f6b..dfd531a 100755
--- a/src/tools21cm/read_files.py
+++ b/src/tools21cm/read_files.py
@@ -153,9 +153,9 @@ def coeval_dens_c2ray(dens_dir, z):
 		#dens_l,dtype = helper_functions.get_data_and_type(dens_files[dens_zs[dens_zs<z].argmax()])
 		dens_h, dtype = helper_functions.get_data_and_type(dens_files[np.argmin(np.abs(dens_zs-z_h))])
 		#dens = dens_h + (dens_l-dens_h)*(z-z_h)/(z_l-z_h)
-		dens = dens_h*(1+z_h)**3/(1+z)**3
+		dens = dens_h # the densities are comoving: their mean is the same at every redshift
 		#print("The density cube has been interpolated using %s interpolation."%interpolation)
-		print("The density has been scaled from the density at the previous time.")
+		print("The density is that of the previous time.")
 	return dens.astype(np.float64)
 
 	
-- 
2.43.0


From 9f495ad2eed2d803db78e45d27a9c423323cebe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:06 +0000
Subject: [PATCH 156/169] fix: Briggs weighting runs from uniform at robust=-2
 to natural at +2

The sign of robust was inverted (the default, +2, gave noise growing with the
number of samples) and the squared weights never became uniform.
---
 src/tools21cm/radio_telescope_noise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/radio_telescope_noise.py b/src/tools21cm/radio_telescope_noise.py
index 91e4721..17943e7 100755
--- a/src/tools21cm/radio_telescope_noise.py
+++ b/src/tools21cm/radio_telescope_noise.py
@@ -512,7 +512,7 @@ def apply_uv_response_noise_briggs(noise, uv_map, robust=2.0, epsilon=1e-6):
 	w_nat = uv_map
 	w_mean = np.mean(w_nat[w_nat > 0]) + epsilon
 
-	briggs_weight = w_nat / (1 + (w_nat / w_mean)**2 * 10**(2 * robust))
+	briggs_weight = w_nat / (1 + (w_nat / w_mean) * 10**(-2 * robust))
 	noise_out = noise / np.sqrt(briggs_weight + epsilon)
 	noise_out[w_nat == 0] = 0.0
 
-- 
2.43.0


From e2c9cfcd09609803a99c74246343e783eab8101e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:38 +0000
Subject: [PATCH 157/169] fix: pad angular slices periodically beyond twice
 their size

A field of view more than twice the angular size of the box (a light-cone
spanning a wide range of low redshifts) raised a ValueError.
---
 src/tools21cm/angular_coordinates.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/tools21cm/angular_coordinates.py b/src/tools21cm/angular_coordinates.py
index 9cac9af..8ae3ad9 100755
--- a/src/tools21cm/angular_coordinates.py
+++ b/src/tools21cm/angular_coordinates.py
@@ -332,13 +332,8 @@ def bin_lightcone_in_mpc(lightcone, frequencies, cell_size_mpc):
 
 
 def _get_padded_slice(input_slice, padded_n):
-    slice_n = input_slice.shape[0]
-    padded_slice = np.zeros((padded_n, padded_n))
-    padded_slice[:slice_n, :slice_n] = input_slice
-    padded_slice[slice_n:, :slice_n] = input_slice[:(padded_n-slice_n),:slice_n]
-    padded_slice[:slice_n, slice_n:] = input_slice[:,:(padded_n-slice_n)]
-    padded_slice[slice_n:, slice_n:] = input_slice[:(padded_n-slice_n), :(padded_n-slice_n)]
-    return padded_slice
+    #Repeat the slice periodically, as many times as the field of view needs
+    return np.pad(input_slice, (0, padded_n-input_slice.shape[0]), mode='wrap')
 
 def padding_lightcone(lc, padded_n=None, mode='wrap', verbose=True):
     '''
-- 
2.43.0


From 2d92dfc9c3d0f41fbb7b1c3a82d5015c8809b0de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:15 +0000
Subject: [PATCH 158/169] fix: keep the longest mean free paths in three
 dimensions

Rays crossing more cells than the longest side of the cube (along its
diagonals) were missing from the distribution, so that it did not add up to
one; the two-dimensional code already allows for the diagonal.
---
 src/tools21cm/mfp_np.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/mfp_np.py b/src/tools21cm/mfp_np.py
index 845bb60..3be5eb8 100755
--- a/src/tools21cm/mfp_np.py
+++ b/src/tools21cm/mfp_np.py
@@ -7,7 +7,7 @@ from tqdm import tqdm
 def _ray3d(ar, xs, ys, zs, ls, ms, ns, verbose):
 
     info = ar.shape
-    longest = max(info)
+    longest = int(np.sqrt(3) * max(info))
     num_sz  = np.zeros(longest)
 
     # Ensure coordinates are of type float64 for compatibility with interpolation
-- 
2.43.0


From b1cbbd7215cde27cc02aa08258929a2737234f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:38 +0000
Subject: [PATCH 159/169] fix: stitch at a threshold of zero when zero is given

---
 src/tools21cm/superpixels.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/superpixels.py b/src/tools21cm/superpixels.py
index a3dbb07..3718b7f 100755
--- a/src/tools21cm/superpixels.py
+++ b/src/tools21cm/superpixels.py
@@ -39,7 +39,7 @@ def binary_stitch(data, labels, stitch='mean', thres=None):
 	X1 = data.reshape(-1,1)
 	y  = labels.reshape(-1,1)
 	y1 = [X1[y==i].mean() for i in np.unique(y)]
-	if not thres:
+	if thres is None:
 		if stitch=='otsu': thres = threshold_otsu(np.array(y1))
 		else: thres = X1.mean()
 	y2 = np.zeros(y.shape)
-- 
2.43.0


From 1636f1a537c8f20388f89dd3538434c4cc4170f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:38 +0000
Subject: [PATCH 160/169] fix: accept catalogues at redshift zero

---
 src/tools21cm/halo_list.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/halo_list.py b/src/tools21cm/halo_list.py
index 7b02163..f59ef41 100755
--- a/src/tools21cm/halo_list.py
+++ b/src/tools21cm/halo_list.py
@@ -315,7 +315,7 @@ class HaloCubeP3M:
 		'''
 
 		self.halos = []
-		if not z:
+		if z is None:
 			raise NameError('Redshift value not specified, please define.')
 
 		if filespath:
-- 
2.43.0


From be762e75a203f9f2437348d146448275472eb5a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:25 +0000
Subject: [PATCH 161/169] fix: let a foreground seed of zero fix the
 realisation

---
 src/tools21cm/foreground_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tools21cm/foreground_model.py b/src/tools21cm/foreground_model.py
index 721a628..b13c9aa 100755
--- a/src/tools21cm/foreground_model.py
+++ b/src/tools21cm/foreground_model.py
@@ -30,7 +30,7 @@ def galactic_synch_fg(z, ncells, boxsize, rseed=False):
 	z = np.atleast_1d(np.asarray(z))
 	gf_data = np.zeros((ncells, ncells, z.size))
 
-	if(rseed): np.random.seed(rseed)
+	if rseed is not None and rseed is not False: np.random.seed(rseed)
 	X  = np.random.normal(size=(ncells, ncells))
 	Y  = np.random.normal(size=(ncells, ncells))
 	nu_s,A150,beta_,a_syn,Da_syn = 150,513,2.34,2.8,0.1
@@ -75,7 +75,7 @@ def extragalactic_pointsource_fg(z, ncells, boxsize, rseed=False, S_max=100):
 	
 	Ss = np.arange(0.1, S_max, dS)
 	N  = int(10**3.75*trapz(Ss**(-1.6), x=Ss)*solid_angle)
-	if(rseed): np.random.seed(rseed)
+	if rseed is not None and rseed is not False: np.random.seed(rseed)
 	x, y = np.random.randint(0, ncells, size=(2,N))
 	alpha_ps = 0.7+0.1*np.random.random(size=N)
 	S_s  = np.random.choice(Ss, N)
-- 
2.43.0


From d30bf846aaf64c43c0b45b8c219400434a7c46d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:25 +0000
Subject: [PATCH 162/169] fix: give Fourier phases in the right quadrant

---
 src/tools21cm/helper_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/helper_functions.py b/src/tools21cm/helper_functions.py
index 1733083..25d13fa 100755
--- a/src/tools21cm/helper_functions.py
+++ b/src/tools21cm/helper_functions.py
@@ -22,7 +22,7 @@ def real_to_fourier_amplitude_phase(data):
         data_fft = fftn(data)
         a, b     = np.real(data_fft), np.imag(data_fft)
         R        = np.sqrt(a**2+b**2)
-        phi      = np.arctan(b/a)
+        phi      = np.arctan2(b, a)
         return R, phi
 
 def get_source_redshifts(source_dir, z_low = None, z_high = None, bracket=False):
-- 
2.43.0


From b793f01317625ebe4943c60fe850b88b9e5a024a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:26 +0000
Subject: [PATCH 163/169] fix: let figures of density files be drawn

---
 src/tools21cm/plotting.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tools21cm/plotting.py b/src/tools21cm/plotting.py
index 380fd43..16ed0e1 100755
--- a/src/tools21cm/plotting.py
+++ b/src/tools21cm/plotting.py
@@ -87,9 +87,9 @@ def plot_slice(data, los_axis = 0, slice_num = 0, logscale = False, **kwargs):
         pl.title('Ionized fraction, %s' % z_str)
     elif datatype == 'density':
         if (logscale):
-            cbar.set_label(r'$\log_{10} \\rho \; \mathrm{[g \; cm^{-3}]}$')
+            cbar.set_label(r'$\log_{10} \rho \; \mathrm{[g \; cm^{-3}]}$')
         else:
-            cbar.set_label(r'$\\rho \; \mathrm{[g \; cm^{-3}]}$')
+            cbar.set_label(r'$\rho \; \mathrm{[g \; cm^{-3}]}$')
         pl.title('Density, %s' % z_str)
         
 def plot_hist(data, logscale = False, **kwargs):
@@ -131,7 +131,7 @@ def plot_hist(data, logscale = False, **kwargs):
     if datatype == 'xfrac':
         pl.xlabel('$x_i$')
     elif datatype == 'density':
-        pl.xlabel(r'$\\rho \; \mathrm{[g \; cm^{-3}]}$')
+        pl.xlabel(r'$\rho \; \mathrm{[g \; cm^{-3}]}$')
 
 def print_chain_stats(samples_dict, weights_dict, param_names):
     """Calculates and prints Mean +/- 1-sigma for each chain."""
-- 
2.43.0


From 8a3d3266a210164d179fd12c3ab5fd77d5f846ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:26 +0000
Subject: [PATCH 164/169] fix: never replace a distribution by an unnamed one

---
 src/tools21cm/plotting.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/tools21cm/plotting.py b/src/tools21cm/plotting.py
index 16ed0e1..5fba67f 100755
--- a/src/tools21cm/plotting.py
+++ b/src/tools21cm/plotting.py
@@ -312,7 +312,10 @@ class DistributionDiagnostic(ABC):
         """Returns provided label or generates 'Distribution N'."""
         if label is not None:
             return label
-        return "Distribution %d" % (len(self.distributions) + 1)
+        number = len(self.distributions) + 1
+        while "Distribution %d" % number in self.distributions:
+            number += 1
+        return "Distribution %d" % number
 
     @abstractmethod
     def add_distribution(self, data, label=None, color=None):
-- 
2.43.0


From 3d2d6ed9254e4ee38f514ebc435e3c46bf1831b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:30 +0000
Subject: [PATCH 165/169] fix: accept a maximum halo mass of zero

---
 src/tools21cm/halo_list.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tools21cm/halo_list.py b/src/tools21cm/halo_list.py
index f59ef41..753cbca 100755
--- a/src/tools21cm/halo_list.py
+++ b/src/tools21cm/halo_list.py
@@ -209,7 +209,7 @@ class HaloCubeP3MFull:
 		tstart = time()
 		
 		min_select_grid_mass = min_select_mass/(conv.M_grid*const.solar_masses_per_gram)
-		if max_select_mass:
+		if max_select_mass is not None:
 				print_msg('Max_select_mass: %g' % max_select_mass)
 				max_select_grid_mass = max_select_mass/(conv.M_grid*const.solar_masses_per_gram)
 
@@ -499,7 +499,7 @@ class HaloList:
 		#Read the file line by line, since it's large
 		linenumber = 1
 		min_select_grid_mass = min_select_mass/(conv.M_grid*const.solar_masses_per_gram)
-		if max_select_mass:
+		if max_select_mass is not None:
 			print_msg('Max_select_mass: %g' % max_select_mass)
 			max_select_grid_mass = max_select_mass/(conv.M_grid*const.solar_masses_per_gram)
 
-- 
2.43.0


From 64673c57dfa38785aa36079fdfb9228e87d66bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:30 +0000
Subject: [PATCH 166/169] fix: take halo positions without a unit as grid
 positions

---
 src/tools21cm/nbody_file.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tools21cm/nbody_file.py b/src/tools21cm/nbody_file.py
index 56f0c1f..c9e034e 100755
--- a/src/tools21cm/nbody_file.py
+++ b/src/tools21cm/nbody_file.py
@@ -205,7 +205,9 @@ class Halo2Grid:
 		self.mass_Msun = None
 
 	def set_halo_pos(self, pos, unit=None):
-		if unit.lower()=='cm':
+		if unit is None:
+			self.pos_grid = pos
+		elif unit.lower()=='cm':
 			self.pos_cm_to_grid(pos) 
 		elif unit.lower()=='mpc':
 			self.pos_mpc_to_grid(pos)
-- 
2.43.0


From 0dfe29792d06de3eb2f36bc0898f16a83171cea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:09 +0000
Subject: [PATCH 167/169] fix: smoothing a field with more rows than columns
 returns a field of the same shape

---
 src/tools21cm/smoothing.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tools21cm/smoothing.py b/src/tools21cm/smoothing.py
index 216ef52..fe344d8 100755
--- a/src/tools21cm/smoothing.py
+++ b/src/tools21cm/smoothing.py
@@ -181,7 +181,7 @@ def smooth_gauss(input_array, sigma=1.0, fwhm=None):
                 The smoothed array. A numpy array with the same
                 dimensions as the input.
         '''
-        kernel = gauss_kernel(input_array.shape[0], sigma=sigma, fwhm=fwhm)
+        kernel = gauss_kernel(min(input_array.shape), sigma=sigma, fwhm=fwhm)
         return smooth_with_kernel(input_array, kernel)
 
 
@@ -197,7 +197,7 @@ def smooth_tophat(input_array, tophat_width):
                 The smoothed array. A numpy array with the same
                 dimensions as the input.
         '''
-        kernel = tophat_kernel(input_array.shape[0], tophat_width)
+        kernel = tophat_kernel(min(input_array.shape), tophat_width)
         return smooth_with_kernel(input_array, kernel)
 
 
@@ -214,7 +214,7 @@ def smooth_lanczos(input_array, kernel_width):
                 dimensions as the input.
         '''
 
-        kernel = lanczos_kernel(input_array.shape[0], kernel_width)
+        kernel = lanczos_kernel(min(input_array.shape), kernel_width)
         return smooth_with_kernel(input_array, kernel)
 
 
-- 
2.43.0


From 7bf991920021653db3d88a55f8ef46fa237ec8a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:40 +0000
Subject: [PATCH 168/169] fix: take the k modes of noise_error_ps as a list, as
 documented

---
 src/tools21cm/power_spectrum_noise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/power_spectrum_noise.py b/src/tools21cm/power_spectrum_noise.py
index 452f3c0..16f667b 100755
--- a/src/tools21cm/power_spectrum_noise.py
+++ b/src/tools21cm/power_spectrum_noise.py
@@ -61,7 +61,7 @@ def noise_error_ps(nu_c, k, t, **kwargs):
     epsilon = kwargs.get('epsilon', 1)
     multipole = kwargs.get('multipole', 0)
     multipole_factor = np.sqrt(2*multipole+1)
-    Delta_noise = (2./np.pi)*k**(3./2.)*np.sqrt(Dc**2*deltaDc*OmegaFoV)*(Tsys_val/np.sqrt(B*1.e6*t))**2*(Acore*Aeff_val/(Acoll**2))/np.sqrt(epsilon)
+    Delta_noise = (2./np.pi)*np.asarray(k)**(3./2.)*np.sqrt(Dc**2*deltaDc*OmegaFoV)*(Tsys_val/np.sqrt(B*1.e6*t))**2*(Acore*Aeff_val/(Acoll**2))/np.sqrt(epsilon)
     
     return Delta_noise*multipole_factor
 
-- 
2.43.0


From 3e8cb6939bc15cf910d26ab3ac7b068ad6dbaa73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:55:23 +0000
Subject: [PATCH 169/169] fix: accept the size of the 3D tophat kernel along
 each dimension, as documented

---
 src/tools21cm/smoothing.py | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/src/tools21cm/smoothing.py b/src/tools21cm/smoothing.py
index fe344d8..d537a5a 100755
--- a/src/tools21cm/smoothing.py
+++ b/src/tools21cm/smoothing.py
@@ -119,19 +119,14 @@ def tophat_kernel_3d(size, tophat_width, shape="cube"):
         Returns:
                 The normalized kernel
         '''
-        kernel = np.zeros((size, size, size))
+        sizes = [size]*3 if np.ndim(size) == 0 else size
+        kernel = np.zeros(sizes)
         if shape == "cube":
-                center   = kernel.shape[0]/2 
-                idx_low  = max(int(center-np.floor(tophat_width/2.)), 0)
-                idx_high = int(center+np.ceil(tophat_width/2.))
-                kernel[idx_low:idx_high, idx_low:idx_high, idx_low:idx_high ] = 1.
+                idx_low  = [max(int(n/2-np.floor(tophat_width/2.)), 0) for n in sizes]
+                idx_high = [int(n/2+np.ceil(tophat_width/2.)) for n in sizes]
+                kernel[idx_low[0]:idx_high[0], idx_low[1]:idx_high[1], idx_low[2]:idx_high[2]] = 1.
         else:
-                if size % 2 == 0:
-                        size = int(size/2)
-                        x,y,z = np.mgrid[-size:size, -size:size, -size:size]
-                else:
-                        size = int(size/2)
-                        x,y,z = np.mgrid[-size:size+1, -size:size+1, -size:size+1]
+                x,y,z = np.meshgrid(*[np.arange(n)-n//2 for n in sizes], indexing='ij')
                 radius=np.sqrt(x*x+y*y+z*z)
                 kernel[np.nonzero(radius <= 0.5*tophat_width)]=1.
                 
-- 
2.43.0

