From 0b8c5d4dbad377c55c8676d57ad680176ca494f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:39 +0000
Subject: [PATCH 01/46] fix: derive cached pulse grids from the time window as
 well

---
 src/pynlo/light/PulseBase.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pynlo/light/PulseBase.py b/src/pynlo/light/PulseBase.py
index 0b9b249..3b368e3 100644
--- a/src/pynlo/light/PulseBase.py
+++ b/src/pynlo/light/PulseBase.py
@@ -146,7 +146,7 @@ class Pulse:
     def _get_NPTS(self):
         return self._n
     def _get_hash(self):
-        return str(self._centerfrequency)+str(self.NPTS)    
+        return str((self._centerfrequency, self.NPTS, self._time_window))
     def _get_W_Hz(self):
         if (self._cache_W_Hz_hash == self.cache_hash):
             return self._cache_W_Hz
-- 
2.43.0


From 6998e0484304a28451e4ea40f0d5faac0810368a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:41 +0000
Subject: [PATCH 02/46] fix: return the center wavelength in metres from
 center_wavelength_mks

---
 src/pynlo/light/PulseBase.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pynlo/light/PulseBase.py b/src/pynlo/light/PulseBase.py
index 3b368e3..789fad7 100644
--- a/src/pynlo/light/PulseBase.py
+++ b/src/pynlo/light/PulseBase.py
@@ -137,7 +137,7 @@ class Pulse:
     def _get_center_wavelength_nm(self):
         return self._c_nmps / self._centerfrequency
     def _get_center_wavelength_mks(self):
-        return (self._c_nmps / self._centerfrequency )*1.0e9
+        return (self._c_nmps / self._centerfrequency )*1.0e-9
     def _get_center_frequency_THz(self):
         return self._centerfrequency        
     def _get_center_frequency_mks(self):
-- 
2.43.0


From 3f4278920767bce3057bd47264bf8dec3802b237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:43 +0000
Subject: [PATCH 03/46] fix: let set_AW follow a changed grid size

---
 src/pynlo/light/PulseBase.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pynlo/light/PulseBase.py b/src/pynlo/light/PulseBase.py
index 789fad7..8eaedce 100644
--- a/src/pynlo/light/PulseBase.py
+++ b/src/pynlo/light/PulseBase.py
@@ -211,9 +211,9 @@ class Pulse:
         """
         if not self._ready:
             raise RuntimeError(self._not_ready_msg)
-        if self._AW is None:
-            self._AW = np.zeros((self._n,), dtype = np.complex128)
-        self._AW[:] = AW_new
+        AW = np.zeros((self._n,), dtype = np.complex128)
+        AW[:] = AW_new
+        self._AW = AW
         
     def set_AT(self, AT_new):
         r""" Set the value of the time-domain electric field.
-- 
2.43.0


From 542fe210ab67df8d44b79dd4412608f82783d058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:46 +0000
Subject: [PATCH 04/46] fix: reject an invalid new_pts_loc before changing the
 pulse

---
 src/pynlo/light/PulseBase.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pynlo/light/PulseBase.py b/src/pynlo/light/PulseBase.py
index 8eaedce..6e5fc31 100644
--- a/src/pynlo/light/PulseBase.py
+++ b/src/pynlo/light/PulseBase.py
@@ -751,6 +751,8 @@ class Pulse:
             Where to put the new points. Valid options are "before", "even", 
             "after
         """
+        if new_pts_loc not in ("before", "even", "after"):
+            raise ValueError("new_pts_loc must be one of 'before', 'after', 'even'")
         num_new_pts = self.NPTS*(2**factor_log2 - 1)
         AT_current = self.AT
         
@@ -761,14 +763,12 @@ class Pulse:
             self.set_AT(np.hstack( (np.zeros(num_new_pts,), AT_current) ))
         elif new_pts_loc == "after":
             self.set_AT(np.hstack( (AT_current, np.zeros(num_new_pts,)) ))            
-        elif new_pts_loc == "even":
+        else:
             pts_before = int(np.floor(num_new_pts * 0.5))
             pts_after  = num_new_pts - pts_before
             self.set_AT(np.hstack( (np.zeros(pts_before,), 
                                     AT_current, 
                                     np.zeros(pts_after,)) ))            
-        else:
-            raise ValueError("new_pts_loc must be one of 'before', 'after', 'even'")
     def rotate_spectrum_to_new_center_wl(self, new_center_wl_nm):
         """Change center wavelength of pulse by rotating the electric field in
             the frequency domain. Designed for creating multiple pulses with same
-- 
2.43.0


From c1d03ba04996f099cb57894159c9125f26027ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:48 +0000
Subject: [PATCH 05/46] fix: correlate the intensity with itself in the
 autocorrelation

---
 src/pynlo/light/PulseBase.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pynlo/light/PulseBase.py b/src/pynlo/light/PulseBase.py
index 6e5fc31..dad4362 100644
--- a/src/pynlo/light/PulseBase.py
+++ b/src/pynlo/light/PulseBase.py
@@ -873,7 +873,7 @@ class Pulse:
             time grid.
             
         """  
-        return np.correlate(abs(self.AT)**2, abs(self.AT), mode='same')  
+        return np.correlate(abs(self.AT)**2, abs(self.AT)**2, mode='same')  
         
     def write_frog(self,
                  fileloc = 'broadened_er_pulse.dat', # default EDFA spectrum
-- 
2.43.0


From 8fb9bafe180f3efaa48cc3ec16bbc29d0c2c54a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:12 +0000
Subject: [PATCH 06/46] fix: do not hand out the cached grid arrays themselves

---
 src/pynlo/light/PulseBase.py | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/pynlo/light/PulseBase.py b/src/pynlo/light/PulseBase.py
index dad4362..f82ad9c 100644
--- a/src/pynlo/light/PulseBase.py
+++ b/src/pynlo/light/PulseBase.py
@@ -125,12 +125,10 @@ class Pulse:
     
     # Wavelength is dynamically derived from frequency grid
     def _get_wavelength_nm(self):
-        if (self.cache_hash == self._cache_wl_nm_hash):
-           return self._cache_wl_nm
-        else:
-           self._cache_wl_nm_hash = self.cache_hash
+        if (self.cache_hash != self._cache_wl_nm_hash):
            self._cache_wl_nm = 2*np.pi*self._c_nmps / self.W_THz
-           return self._cache_wl_nm
+           self._cache_wl_nm_hash = self.cache_hash
+        return self._cache_wl_nm.copy()
     # Wavelength is dynamically derived from frequency grid
     def _get_wavelength_m(self):    
         return 2*np.pi*self._c_mks / self.W_mks
@@ -148,12 +146,10 @@ class Pulse:
     def _get_hash(self):
         return str((self._centerfrequency, self.NPTS, self._time_window))
     def _get_W_Hz(self):
-        if (self._cache_W_Hz_hash == self.cache_hash):
-            return self._cache_W_Hz
-        else:
-            self._cache_W_Hz_hash = self.cache_hash
+        if (self._cache_W_Hz_hash != self.cache_hash):
             self._cache_W_Hz                 =  self._W * 1e12
-            return self._cache_W_Hz
+            self._cache_W_Hz_hash = self.cache_hash
+        return self._cache_W_Hz.copy()
     def _get_F_Hz(self):
         return self._get_W_Hz() / (2.0*np.pi)            
     def _get_W_THz(self):
-- 
2.43.0


From 318d0ed4acbbed92a669240c0aed7802ffeccc09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:13 +0000
Subject: [PATCH 07/46] fix: make write_frog use the existing pulse accessors
 and flip_phase

---
 src/pynlo/light/PulseBase.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/pynlo/light/PulseBase.py b/src/pynlo/light/PulseBase.py
index f82ad9c..a35ffcc 100644
--- a/src/pynlo/light/PulseBase.py
+++ b/src/pynlo/light/PulseBase.py
@@ -886,9 +886,11 @@ class Pulse:
         is multiplied by frep to calculate pulse energy"""       
         
         self.fileloc   = fileloc             
-        phase_data = np.unwrap(np.angle(self.get_AW()))
-        inten_data = np.abs(self.get_AW())
-        wavel_data = self.internal_wl_to_nm(self.wl_nm)
+        phase_data = np.unwrap(np.angle(self.AW))
+        if flip_phase:
+            phase_data = -1 * phase_data
+        inten_data = np.abs(self.AW)
+        wavel_data = self.wl_nm
         
         # Write pulse data file
         np.savetxt(self.fileloc, np.vstack((wavel_data, inten_data, phase_data)).T) 
-- 
2.43.0


From 78c821a80a626aa07da3f9ba74f4b3c2b35b13a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:16 +0000
Subject: [PATCH 08/46] fix: use a sinc shape for SincPulse when average power
 is given

---
 src/pynlo/light/DerivedPulses.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pynlo/light/DerivedPulses.py b/src/pynlo/light/DerivedPulses.py
index 222ed6d..588d441 100644
--- a/src/pynlo/light/DerivedPulses.py
+++ b/src/pynlo/light/DerivedPulses.py
@@ -114,7 +114,7 @@ class SincPulse(Pulse):
             # numpy.sinc is sin(pi*x)/(pi*x), so we divide by pi
             self.set_AT( np.sqrt(power) * np.sinc(self.T_ps/(T0_ps*np.pi)) ) 
         else:
-            self.set_AT( 1 / np.sinc(np.pi * self.T_ps/(T0_ps*np.pi)) )
+            self.set_AT( np.sinc(self.T_ps/(T0_ps*np.pi)) )
             self.set_AT(self.AT * np.sqrt( power / ( frep_MHz*1.0e6 * self.calc_epp()) ))
         
         self.chirp_pulse_W(GDD, TOD)
-- 
2.43.0


From 0227e5186b4a3bf4ee0d92ac3fa51b334c764ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:50 +0000
Subject: [PATCH 09/46] fix: replace np.float, which numpy no longer has

---
 src/pynlo/interactions/FourWaveMixing/SSFM.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pynlo/interactions/FourWaveMixing/SSFM.py b/src/pynlo/interactions/FourWaveMixing/SSFM.py
index 91cc905..091a04e 100755
--- a/src/pynlo/interactions/FourWaveMixing/SSFM.py
+++ b/src/pynlo/interactions/FourWaveMixing/SSFM.py
@@ -524,7 +524,7 @@ class SSFM:
         
 
         for i in range(n_steps):                        
-            print ("Step:", i, "Distance remaining:", fiber.length * (1 - np.float(i)/n_steps) )
+            print ("Step:", i, "Distance remaining:", fiber.length * (1 - float(i)/n_steps) )
             
             if reload_fiber_each_step:
                 self.load_fiber_parameters(pulse_in, fiber, output_power, z=i*delta_z) 
-- 
2.43.0


From f7df02b02313865e64a204b6f543f0ab64351d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:52 +0000
Subject: [PATCH 10/46] fix: do not overstep the end of the fiber by a full
 step

---
 src/pynlo/interactions/FourWaveMixing/SSFM.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pynlo/interactions/FourWaveMixing/SSFM.py b/src/pynlo/interactions/FourWaveMixing/SSFM.py
index 091a04e..97e07ca 100755
--- a/src/pynlo/interactions/FourWaveMixing/SSFM.py
+++ b/src/pynlo/interactions/FourWaveMixing/SSFM.py
@@ -366,7 +366,7 @@ class SSFM:
             dist -= 2.0*old_dz
             self.iter += 1
 #            printf("-> [%d] dz = %g dist = %g (old_dz = %g) (z = %g)\n",n,dz,dist,old_dz,self.z)
-            if (2.0*dz > dist) and (dist>2.0*self.dz_min):
+            if (2.0*dz > dist) and (dist>0.0):
                 force_last_dz = True
                 return_dz = dz
                 dz = dist/2.0
-- 
2.43.0


From 988c9863c7527a35d153e17aee3a46617e5091d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:55 +0000
Subject: [PATCH 11/46] fix: honour random_seed, output_power and fiber
 reloading in calculate_coherence

---
 src/pynlo/interactions/FourWaveMixing/SSFM.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/pynlo/interactions/FourWaveMixing/SSFM.py b/src/pynlo/interactions/FourWaveMixing/SSFM.py
index 97e07ca..3813306 100755
--- a/src/pynlo/interactions/FourWaveMixing/SSFM.py
+++ b/src/pynlo/interactions/FourWaveMixing/SSFM.py
@@ -580,13 +580,18 @@ class SSFM:
             obtained from :func:`pynlo.interactions.FourWaveMixing.SSFM.propagate`.
         """
         
+        if random_seed is not None:
+            np.random.seed(random_seed)
+
         results = []
         for num in range(0, num_trials):
 
             pulse = pulse_in.create_cloned_pulse()
             pulse.add_noise(noise_type=noise_type)
 
-            y, AW, AT, pulse_out = self.propagate(pulse_in=pulse, fiber=fiber, n_steps=n_steps)
+            y, AW, AT, pulse_out = self.propagate(pulse_in=pulse, fiber=fiber, n_steps=n_steps,
+                                                   output_power=output_power,
+                                                   reload_fiber_each_step=reload_fiber_each_step)
 
             results.append((y, AW, AT, pulse_in, pulse_out))
 
-- 
2.43.0


From 3e2525c35f08d289836806bcaa8933e636b9f99d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:30 +0000
Subject: [PATCH 12/46] fix: use the pulse's existing repetition-rate property
 for gain fibers

---
 src/pynlo/interactions/FourWaveMixing/SSFM.py | 6 +++---
 src/pynlo/media/fibers/fiber.py               | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pynlo/interactions/FourWaveMixing/SSFM.py b/src/pynlo/interactions/FourWaveMixing/SSFM.py
index 3813306..7048f52 100755
--- a/src/pynlo/interactions/FourWaveMixing/SSFM.py
+++ b/src/pynlo/interactions/FourWaveMixing/SSFM.py
@@ -633,15 +633,15 @@ class SSFM:
                                                  1,
                                                  output_power = scalefactor *\
                                                                  power_goal)         
-        scalefactor_revised = (power_goal / (pulse_out.calc_epp()*pulse_out.frep))
-        modeled_avg_power   = pulse_out.calc_epp()*pulse_out.frep                                                                 
+        scalefactor_revised = (power_goal / (pulse_out.calc_epp()*pulse_out.frep_mks))
+        modeled_avg_power   = pulse_out.calc_epp()*pulse_out.frep_mks                                                                 
         output_scale = scalefactor
         while abs(modeled_avg_power - power_goal) / power_goal > powertol:
             y, AW, AT, pulse_out = self.propagate(pulse_in, fiber,
                                                      1, output_power = 
                                                      power_goal * scalefactor_revised)
             modeled_avg_power_prev = modeled_avg_power
-            modeled_avg_power = pulse_out.calc_epp()*pulse_out.frep
+            modeled_avg_power = pulse_out.calc_epp()*pulse_out.frep_mks
             slope = (modeled_avg_power - modeled_avg_power_prev) /\
                             (scalefactor_revised - scalefactor)                            
             yint = modeled_avg_power_prev - slope*scalefactor    
diff --git a/src/pynlo/media/fibers/fiber.py b/src/pynlo/media/fibers/fiber.py
index 514bb4e..c82799d 100755
--- a/src/pynlo/media/fibers/fiber.py
+++ b/src/pynlo/media/fibers/fiber.py
@@ -324,7 +324,7 @@ class FiberInstance:
                                  bounds_error=False,fill_value=0)
                     gain_spec = f(pulse.W_mks/ (2*np.pi))
 
-                    g = lambda k: np.abs(output_power - pulse.frep_Hz * pulse.dT_mks*
+                    g = lambda k: np.abs(output_power - pulse.frep_mks * pulse.dT_mks*
                                         np.trapz(np.abs(
                                             IFFT_t( pulse.AW *
                                                 np.exp(k*gain_spec*self.length/2.0)
-- 
2.43.0


From 498416649067d91ae629acccd033578b38300936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:32 +0000
Subject: [PATCH 13/46] fix: keep fiber specifications separate between fiber
 instances

---
 src/pynlo/media/fibers/fiber.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pynlo/media/fibers/fiber.py b/src/pynlo/media/fibers/fiber.py
index c82799d..b7bfda6 100755
--- a/src/pynlo/media/fibers/fiber.py
+++ b/src/pynlo/media/fibers/fiber.py
@@ -63,6 +63,7 @@ class FiberInstance:
         self.is_simple_fiber = False
         self.fiberloader = JSONFiberLoader.JSONFiberLoader(fiber_db, 
                                                            fiber_db_dir)
+        self.fiberspecs = {}
         self.dispersion_changes_with_z = False
         self.gamma_changes_with_z = False
         
@@ -70,7 +71,7 @@ class FiberInstance:
     def load_from_db(self, length, fibertype, poly_order = 2):
         """This loads a fiber from the database. """
         self.fibertype = fibertype
-        self.fiberspecs = self.fiberloader.get_fiber(fibertype)
+        self.fiberspecs = dict(self.fiberloader.get_fiber(fibertype))
         self.length = length
         self.betas = np.array([0])
         self.gamma = self.fiberspecs["gamma"]
-- 
2.43.0


From af5b4c410247c2a8aa0445a15faa696397cb03ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:34 +0000
Subject: [PATCH 14/46] fix: forget z-dependent functions when a fiber is
 loaded anew

---
 src/pynlo/media/fibers/fiber.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/pynlo/media/fibers/fiber.py b/src/pynlo/media/fibers/fiber.py
index b7bfda6..ece0b0b 100755
--- a/src/pynlo/media/fibers/fiber.py
+++ b/src/pynlo/media/fibers/fiber.py
@@ -70,6 +70,8 @@ class FiberInstance:
         
     def load_from_db(self, length, fibertype, poly_order = 2):
         """This loads a fiber from the database. """
+        self.dispersion_changes_with_z = False
+        self.gamma_changes_with_z = False
         self.fibertype = fibertype
         self.fiberspecs = dict(self.fiberloader.get_fiber(fibertype))
         self.length = length
@@ -86,7 +88,9 @@ class FiberInstance:
         wavelength (nm), D (ps/nm/km).
         """
         import os
-        
+
+        self.dispersion_changes_with_z = False
+        self.gamma_changes_with_z = False
         if fiberName == None:
             self.fibertype = os.path.basename(filename)
         else:
@@ -363,6 +367,8 @@ class FiberInstance:
                        gvd_units = 'ps^n/m', label = 'Simple Fiber'):
         """ This generates a fiber instance using the beta-coefficients."""
         
+        self.dispersion_changes_with_z = False
+        self.gamma_changes_with_z = False
         self.length = length
         self.fiberspecs= {}
         self.fiberspecs['dispersion_format'] = 'GVD'
-- 
2.43.0


From cee4099f7b1dd4de1c18a147b925e122f52910f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:36 +0000
Subject: [PATCH 15/46] fix: load database GVD coefficients given per metre

---
 src/pynlo/media/fibers/fiber.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pynlo/media/fibers/fiber.py b/src/pynlo/media/fibers/fiber.py
index ece0b0b..5d2710a 100755
--- a/src/pynlo/media/fibers/fiber.py
+++ b/src/pynlo/media/fibers/fiber.py
@@ -126,8 +126,9 @@ class FiberInstance:
             self.dispersion_gvd_units = self.fiberspecs["dispersion_gvd_units"]
             self.center_wavelength = self.fiberspecs["dispersion_gvd_center_wavelength"]
             # If in km^-1 units, scale to m^-1
+            self.betas = np.array(self.fiberspecs["dispersion_data"], dtype=float)
             if self.dispersion_gvd_units == 'ps^n/km':
-                self.betas = np.array(self.fiberspecs["dispersion_data"]) / 1e3
+                self.betas = self.betas / 1e3
             return 1
         else:
             print( "Error: no dispersion found.")
-- 
2.43.0


From 55a40ac1e5074956fb757acaf04240be7e667d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:38 +0000
Subject: [PATCH 16/46] fix: use the exact speed of light for tabulated
 refractive indices

---
 src/pynlo/media/fibers/fiber.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pynlo/media/fibers/fiber.py b/src/pynlo/media/fibers/fiber.py
index 5d2710a..ef3641f 100755
--- a/src/pynlo/media/fibers/fiber.py
+++ b/src/pynlo/media/fibers/fiber.py
@@ -285,7 +285,7 @@ class FiberInstance:
             # self.x is the wavelength in nm
             # self.y is the refractive index (unitless)
             
-            supplied_W_THz = 2 * np.pi * 1e-12 * 3e8 / (self.x*1e-9)
+            supplied_W_THz = 2 * np.pi * 1e-12 * self.c_mks / (self.x*1e-9)
             supplied_betas = self.y * 2 * np.pi / (self.x * 1e-9)
             
             # InterpolatedUnivariateSpline wants increasing x, so flip arrays
-- 
2.43.0


From 4a3a6f9aa999f4a010f485e32fc75a71af76b51b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:40 +0000
Subject: [PATCH 17/46] fix: do not rescale the caller's dispersion table in
 place

---
 src/pynlo/media/fibers/calculators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pynlo/media/fibers/calculators.py b/src/pynlo/media/fibers/calculators.py
index 5499a6c..3459fc1 100644
--- a/src/pynlo/media/fibers/calculators.py
+++ b/src/pynlo/media/fibers/calculators.py
@@ -38,7 +38,7 @@ def DTabulationToBetas(lambda0, DData, polyOrder, DDataIsFile = True, return_dia
     if DDataIsFile:
         DTab = np.genfromtxt(DData,delimiter=',',skiprows=1)
     else:
-        DTab = DData[:]
+        DTab = np.array(DData, dtype=float)
             
     # Units of D are ps/nm/km
     # Convert to s/m/m 
-- 
2.43.0


From 79a6fb50b04981d677a3e6e3a7da6b19c185479a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:42 +0000
Subject: [PATCH 18/46] fix: use genfromtxt's skip_header argument

---
 src/pynlo/media/fibers/calculators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pynlo/media/fibers/calculators.py b/src/pynlo/media/fibers/calculators.py
index 3459fc1..0084cde 100644
--- a/src/pynlo/media/fibers/calculators.py
+++ b/src/pynlo/media/fibers/calculators.py
@@ -36,7 +36,7 @@ def DTabulationToBetas(lambda0, DData, polyOrder, DDataIsFile = True, return_dia
     # Expand about lambda0
     makePlots = 0
     if DDataIsFile:
-        DTab = np.genfromtxt(DData,delimiter=',',skiprows=1)
+        DTab = np.genfromtxt(DData,delimiter=',',skip_header=1)
     else:
         DTab = np.array(DData, dtype=float)
             
-- 
2.43.0


From c67cafe6bc5cbad8e5245891f9e8ceccf5974a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:15 +0000
Subject: [PATCH 19/46] fix: use the existing length property in set_pp_chirp

---
 src/pynlo/media/crystals/CrystalContainer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pynlo/media/crystals/CrystalContainer.py b/src/pynlo/media/crystals/CrystalContainer.py
index b6739e6..2c5bc29 100644
--- a/src/pynlo/media/crystals/CrystalContainer.py
+++ b/src/pynlo/media/crystals/CrystalContainer.py
@@ -48,7 +48,7 @@ class Crystal:
             self._enable_caching = False
             
     def set_pp_chirp(self, start, stop):
-        self.pp   = lambda x: start + (stop-start) * x /self.length        
+        self.pp   = lambda x: start + (stop-start) * x /self.length_mks
     def get_pulse_k(self, pulse_instance, axis = None):
         """ Return vector of angular wavenumbers (m^-1) for the pulse_instance's 
             frequency grid inside the crystal """
-- 
2.43.0


From a7da8c9f2272a235ff62e0efda10f6f8f76d964b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:17 +0000
Subject: [PATCH 20/46] fix: cache refractive indices per crystal and drop them
 when it changes

---
 src/pynlo/media/crystals/CrystalContainer.py | 5 +++--
 src/pynlo/media/crystals/XTAL_AgGaS.py       | 1 +
 src/pynlo/media/crystals/XTAL_AgGaSe2.py     | 1 +
 src/pynlo/media/crystals/XTAL_PPLN.py        | 2 ++
 4 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/pynlo/media/crystals/CrystalContainer.py b/src/pynlo/media/crystals/CrystalContainer.py
index 2c5bc29..e761185 100644
--- a/src/pynlo/media/crystals/CrystalContainer.py
+++ b/src/pynlo/media/crystals/CrystalContainer.py
@@ -38,6 +38,7 @@ class Crystal:
                             'damage_threshold_info' : ''}
     
     def __init__(self, params):                
+        self._cached_ns = {}
         if 'length' in params.keys():
             self._length = params['length']
         else:
@@ -62,13 +63,13 @@ class Crystal:
             frequency grid inside the crystal """
         if self._enable_caching:
             if pulse_instance.cache_hash + str(axis) in self._cached_ns.keys():
-                return self._cached_ns[pulse_instance.cache_hash + str(axis)]
+                return self._cached_ns[pulse_instance.cache_hash + str(axis)].copy()
             else:
                 if axis is None:
                     ns = self.n(pulse_instance.wl_nm)
                 else:
                     ns = self.n(pulse_instance.wl_nm, axis)
-                self._cached_ns[pulse_instance.cache_hash + str(axis)]= ns
+                self._cached_ns[pulse_instance.cache_hash + str(axis)]= ns.copy()
         else:
             if axis is None:
                 ns = self.n(pulse_instance.wl_nm)
diff --git a/src/pynlo/media/crystals/XTAL_AgGaS.py b/src/pynlo/media/crystals/XTAL_AgGaS.py
index 665c97a..3c8c54f 100644
--- a/src/pynlo/media/crystals/XTAL_AgGaS.py
+++ b/src/pynlo/media/crystals/XTAL_AgGaS.py
@@ -68,6 +68,7 @@ class AgGaSe2(Crystal):
         self.n2    = 0.0      # no data easily found...
         self.deff  = 8.69e-12 # from SNLO, original given in pm / V        
     def set_theta(self, angle):
+        self._cached_ns = {}
         self.theta = angle
     def n(self, wl_nm, axis = "mix"):        
         """ Axis specifies crystal axis, either o, e, or mix. If mix, class
diff --git a/src/pynlo/media/crystals/XTAL_AgGaSe2.py b/src/pynlo/media/crystals/XTAL_AgGaSe2.py
index 905ed86..a0e326d 100644
--- a/src/pynlo/media/crystals/XTAL_AgGaSe2.py
+++ b/src/pynlo/media/crystals/XTAL_AgGaSe2.py
@@ -62,6 +62,7 @@ class AgGaSe2(Crystal):
         self.n2    = 35e-15 / 100**2 # from Nikogosyan, originally given in cm^2 / W
         self.deff  = 28.5e-12 # from SNLO, original given in pm / V        
     def set_theta(self, angle):
+        self._cached_ns = {}
         self.theta = angle
     def n(self, wl_nm, axis = "mix"):        
         """ Axis specifies crystal axis, either o, e, or mix. If mix, class
diff --git a/src/pynlo/media/crystals/XTAL_PPLN.py b/src/pynlo/media/crystals/XTAL_PPLN.py
index 601987a..f591a95 100644
--- a/src/pynlo/media/crystals/XTAL_PPLN.py
+++ b/src/pynlo/media/crystals/XTAL_PPLN.py
@@ -92,6 +92,7 @@ class PPLN(Crystal):
             'Temperature and wavelength dependent refractive index equations 
             for MgO-doped congruent and stoichiometric LiNbO3'
         """
+        self._cached_ns = {}
         self.T = T
         self.mode = 'PP'
         self.sellmeier_type = data_source
@@ -114,6 +115,7 @@ class PPLN(Crystal):
         else:
             self.pp = lambda x: p(x)
     def set_T(self, T_degC):
+        self._cached_ns = {}
         self.T = T_degC
         self.set_xtalT(T_degC)
         
-- 
2.43.0


From 9297c626a9bdbbceb4f6480cbb6e919cc1288e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:20 +0000
Subject: [PATCH 21/46] fix: keep damage thresholds separate between crystals

---
 src/pynlo/media/crystals/CrystalContainer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pynlo/media/crystals/CrystalContainer.py b/src/pynlo/media/crystals/CrystalContainer.py
index e761185..024970b 100644
--- a/src/pynlo/media/crystals/CrystalContainer.py
+++ b/src/pynlo/media/crystals/CrystalContainer.py
@@ -39,6 +39,7 @@ class Crystal:
     
     def __init__(self, params):                
         self._cached_ns = {}
+        self._crystal_properties = dict(Crystal._crystal_properties)
         if 'length' in params.keys():
             self._length = params['length']
         else:
-- 
2.43.0


From 32cdeba7b66068cb8b8bf6c039b21aa42d78bbbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:22 +0000
Subject: [PATCH 22/46] fix: give material dispersion D its conventional sign

---
 src/pynlo/media/crystals/CrystalContainer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pynlo/media/crystals/CrystalContainer.py b/src/pynlo/media/crystals/CrystalContainer.py
index 024970b..4a8b497 100644
--- a/src/pynlo/media/crystals/CrystalContainer.py
+++ b/src/pynlo/media/crystals/CrystalContainer.py
@@ -102,7 +102,7 @@ class Crystal:
             standard photonic engineering units ps/nm/km"""        
         fn = lambda x: self.n(x, axis)
         d2n_dl2 = misc.derivative(fn, wavelengths_nm, dx = 0.1, n = 2, order = 11)
-        D1      = (wavelengths_nm / self._c_nm_ps) * d2n_dl2 # units are ps/nm/nm
+        D1      = -(wavelengths_nm / self._c_nm_ps) * d2n_dl2 # units are ps/nm/nm
         D       = D1 * 1.0e12
         return D    
     def calculate_D_fs_um_mm(self, wavelengths_nm, axis = None):
-- 
2.43.0


From 93bfb0360a9ecaf6233bc3ecb3138a0a0c46f18a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:25 +0000
Subject: [PATCH 23/46] fix: raise built-in exceptions instead of importing a
 Python 2 module

---
 src/pynlo/media/crystals/XTAL_AgGaS.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/pynlo/media/crystals/XTAL_AgGaS.py b/src/pynlo/media/crystals/XTAL_AgGaS.py
index 3c8c54f..5b583ba 100644
--- a/src/pynlo/media/crystals/XTAL_AgGaS.py
+++ b/src/pynlo/media/crystals/XTAL_AgGaS.py
@@ -25,7 +25,6 @@ from __future__ import print_function
 
 import numpy as np
 from pynlo.media.crystals.CrystalContainer import Crystal
-import exceptions 
 
 class AgGaSe2(Crystal):
     def __init__(self, theta = 0.0, **params):
@@ -97,7 +96,7 @@ class AgGaSe2(Crystal):
             return no
         elif axis == 'e':
             return ne
-        raise exceptions.ValueError("Axis was ",str(axis),"; must be 'mix', 'o', or 'e'")
+        raise ValueError("Axis was ",str(axis),"; must be 'mix', 'o', or 'e'")
     def phasematch(self, pump_wl_nm, sgnl_wl_nm, idlr_wl_nm, return_wavelength = False):
         """ Phase match mixing between pump (aligned to a mix of ne and no) and
             signal and idler (aligned to ordinary axis.)"""
@@ -134,7 +133,7 @@ class AgGaSe2(Crystal):
         if x < 0:
             x = ( -b - np.sqrt(b**2-4*a*c) )/ (2.0  * a)
         if np.isnan(np.arccos(x)) :
-            raise exceptions.AttributeError('No phase matching condition.')
+            raise AttributeError('No phase matching condition.')
         theta = np.arccos(x)
         print('Angle set to ',360*theta / (2.0*np.pi) )
         if RET_WL and return_wavelength:
-- 
2.43.0


From fcc4db0912ba10e004ab791339b85a31c0585a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:46 +0000
Subject: [PATCH 24/46] fix: drop the Python 2 exceptions module from the
 three-wave field classes

---
 src/pynlo/interactions/ThreeWaveMixing/field_classes.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/pynlo/interactions/ThreeWaveMixing/field_classes.py b/src/pynlo/interactions/ThreeWaveMixing/field_classes.py
index c303d44..c95fc37 100644
--- a/src/pynlo/interactions/ThreeWaveMixing/field_classes.py
+++ b/src/pynlo/interactions/ThreeWaveMixing/field_classes.py
@@ -25,7 +25,6 @@ from __future__ import division
 from __future__ import print_function
 
 import numpy as np
-import exceptions
 
 PUMP = 0
 SGNL = 1
@@ -49,10 +48,10 @@ class beam_parameters:
         """ calculate overlap integral between fields A and B. A & B must be
         integers between 0-2 (0 = pump, 1 = signal, 3 = idler.)"""
         if (type(A) is not int) or (type(B) is not int):
-            e = exceptions.TypeError('A & B must both be integers.')
+            e = TypeError('A & B must both be integers.')
             raise e
         if A < 0 or A>3 or B<0 or B>3:
-            e = exceptions.ValueError('A & B must be in range [0,3].')
+            e = ValueError('A & B must be in range [0,3].')
             raise e
         return (self.waists[A]+self.waists[B]) / 2.0
         
-- 
2.43.0


From 3fe6e5e15bd3e941a8ba2d4012bf389bdaf44a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:49 +0000
Subject: [PATCH 25/46] fix: write DFG runs with the current pytables API and
 every saved z

---
 .../ThreeWaveMixing/multi_run_rw.py           | 28 +++++++++----------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/pynlo/interactions/ThreeWaveMixing/multi_run_rw.py b/src/pynlo/interactions/ThreeWaveMixing/multi_run_rw.py
index 98fa86f..a37fe03 100644
--- a/src/pynlo/interactions/ThreeWaveMixing/multi_run_rw.py
+++ b/src/pynlo/interactions/ThreeWaveMixing/multi_run_rw.py
@@ -107,47 +107,47 @@ class DFGWriter:
             
     def add_run(self,integrand, odesolver, param):
         grp = self.tables_file.create_group(self.root, 'run'+str(self.run_ctr), title=str(param))
-        npts           = odesolver.nvar / 3
-        count          = odesolver.out.nsave
+        npts           = odesolver.nvar // 3
+        count          = odesolver.out.count
         
         # Store pump, signal, idler fields        
         atom = tables.Atom.from_dtype(odesolver.out.ysave[0:count, 0 : npts].T.dtype)
         data_shape = odesolver.out.ysave[0:count, 0 : npts].T.shape
-        pump_data = self.tables_file.createCArray(grp, 'pump', atom, data_shape)
+        pump_data = self.tables_file.create_carray(grp, 'pump', atom, data_shape)
         pump_data[:] = odesolver.out.ysave[0:count, 0 : npts].T
-        sgnl_data = self.tables_file.createCArray(grp, 'sgnl', atom, data_shape)      
+        sgnl_data = self.tables_file.create_carray(grp, 'sgnl', atom, data_shape)      
         sgnl_data[:] = odesolver.out.ysave[0:count, npts : 2 * npts].T
-        idlr_data = self.tables_file.createCArray(grp, 'idlr', atom, data_shape)
+        idlr_data = self.tables_file.create_carray(grp, 'idlr', atom, data_shape)
         idlr_data[:] = odesolver.out.ysave[0:count, 2*npts : 3 * npts].T
         
         # By the design of the pulse class, the three things we need are center
         # wavelength, time window, and rep rate (N points is set by the array sizes)
         atom = tables.Atom.from_dtype(np.dtype(np.double))
         data_shape = (1,)
-        pump_twind = self.tables_file.createCArray(grp, 'pump_Twind', atom, data_shape)
+        pump_twind = self.tables_file.create_carray(grp, 'pump_Twind', atom, data_shape)
         pump_twind[:] = integrand.pump.time_window_ps
-        sgnl_twind = self.tables_file.createCArray(grp, 'sgnl_Twind', atom, data_shape)
+        sgnl_twind = self.tables_file.create_carray(grp, 'sgnl_Twind', atom, data_shape)
         sgnl_twind[:] = integrand.sgnl.time_window_ps
-        idlr_twind = self.tables_file.createCArray(grp, 'idlr_Twind', atom, data_shape)
+        idlr_twind = self.tables_file.create_carray(grp, 'idlr_Twind', atom, data_shape)
         idlr_twind[:] = integrand.idlr.time_window_ps
         
         atom = tables.Atom.from_dtype(np.dtype(np.double))
         data_shape = (1,)
-        pump_wlc = self.tables_file.createCArray(grp, 'pump_center_nm', atom, data_shape)
+        pump_wlc = self.tables_file.create_carray(grp, 'pump_center_nm', atom, data_shape)
         pump_wlc[:] = integrand.pump.center_wavelength_nm
-        sgnl_wlc = self.tables_file.createCArray(grp, 'sgnl_center_nm', atom, data_shape)
+        sgnl_wlc = self.tables_file.create_carray(grp, 'sgnl_center_nm', atom, data_shape)
         sgnl_wlc[:] = integrand.sgnl.center_wavelength_nm
-        idlr_wlc = self.tables_file.createCArray(grp, 'idlr_center_nm', atom, data_shape)
+        idlr_wlc = self.tables_file.create_carray(grp, 'idlr_center_nm', atom, data_shape)
         idlr_wlc[:] = integrand.idlr.center_wavelength_nm
         
         atom = tables.Atom.from_dtype(np.dtype(np.double))
         data_shape = (1,)
-        fr = self.tables_file.createCArray(grp, 'frep_Hz', atom, data_shape)
-        fr[:] = integrand.pump.frep_Hz
+        fr = self.tables_file.create_carray(grp, 'frep_Hz', atom, data_shape)
+        fr[:] = integrand.pump.frep_mks
         
         atom = tables.Atom.from_dtype(np.dtype(np.double))
         data_shape = (1,)
-        para = self.tables_file.createCArray(grp, 'param', atom, data_shape)
+        para = self.tables_file.create_carray(grp, 'param', atom, data_shape)
         para[:] = param
         
         self.tables_file.flush()
-- 
2.43.0


From f2fe63919b4f5577b53b1cc128fb8eaca87ab5ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:52 +0000
Subject: [PATCH 26/46] fix: leave the solver's saved fields alone when
 post-processing DFG output

---
 src/pynlo/interactions/ThreeWaveMixing/DFG_integrand.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pynlo/interactions/ThreeWaveMixing/DFG_integrand.py b/src/pynlo/interactions/ThreeWaveMixing/DFG_integrand.py
index f1bcdaa..6245660 100644
--- a/src/pynlo/interactions/ThreeWaveMixing/DFG_integrand.py
+++ b/src/pynlo/interactions/ThreeWaveMixing/DFG_integrand.py
@@ -466,9 +466,9 @@ class dfg_problem:
         """
         npoints = self.veclength
         
-        pump_out = solver_out.ysave[0:solver_out.count, 0        :   npoints]
-        sgnl_out = solver_out.ysave[0:solver_out.count, npoints  : 2*npoints]
-        idlr_out = solver_out.ysave[0:solver_out.count, 2*npoints: 3*npoints]
+        pump_out = solver_out.ysave[0:solver_out.count, 0        :   npoints].copy()
+        sgnl_out = solver_out.ysave[0:solver_out.count, npoints  : 2*npoints].copy()
+        idlr_out = solver_out.ysave[0:solver_out.count, 2*npoints: 3*npoints].copy()
         zs       = solver_out.xsave[0:solver_out.count]
         print ('Pulse velocity is ~ '+str(self.approx_pulse_speed*1e-12)+'mm/fs' )
         print('ks: '+str(self.k_p_0)+' '+str(self.k_s_0)+' '+str(self.k_i_0))
-- 
2.43.0


From 7b7abe7a697198fec73690f14dc53cd070933055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:18 +0000
Subject: [PATCH 27/46] fix: save the start point once and then exactly on the
 requested grid

---
 src/pynlo/util/ode_solve/steppers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pynlo/util/ode_solve/steppers.py b/src/pynlo/util/ode_solve/steppers.py
index c43ea42..ba8777d 100644
--- a/src/pynlo/util/ode_solve/steppers.py
+++ b/src/pynlo/util/ode_solve/steppers.py
@@ -110,7 +110,7 @@ class Output:
         if not self.dense:
             e = AttributeError('Dense output is not set in Output!')
             raise e
-        if nstp == 1:
+        if nstp == -1:
             self.save(x,y)
             self.xout += self.dxout
         else:
-- 
2.43.0


From 1acec5ec1fa77a761ffe18e150d4ccadb1c08bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:20 +0000
Subject: [PATCH 28/46] fix: allow integrating without any saved output

---
 src/pynlo/util/ode_solve/steppers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pynlo/util/ode_solve/steppers.py b/src/pynlo/util/ode_solve/steppers.py
index ba8777d..3865664 100644
--- a/src/pynlo/util/ode_solve/steppers.py
+++ b/src/pynlo/util/ode_solve/steppers.py
@@ -94,11 +94,11 @@ class Output:
         self.xsave[self.count]      = xout
         self.count += 1
     def save(self, x, y):
+        if self.kmax <= 0:
+            return
         if self.ysave.dtype != y.dtype:            
             errmsg = 'Integrand returns ',str(y.dtype),' but workspaces are initialized to ',str(self.ysave.dtype),'!'
             raise TypeError(errmsg)
-        if self.kmax <= 0:
-            return
         if self.count == self.kmax:
             self.resize()
         self.ysave[self.count, :]   = y
-- 
2.43.0


From dc0a75cf2cb18d1d5b09251ae85c3aa774d3a983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:22 +0000
Subject: [PATCH 29/46] fix: start every integration with an empty output

---
 src/pynlo/util/ode_solve/steppers.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pynlo/util/ode_solve/steppers.py b/src/pynlo/util/ode_solve/steppers.py
index 3865664..d094762 100644
--- a/src/pynlo/util/ode_solve/steppers.py
+++ b/src/pynlo/util/ode_solve/steppers.py
@@ -63,6 +63,7 @@ class Output:
             """
         self.nvar = neqn
         self.dtype = dtype
+        self.count = 0
         if self.kmax == -1:
             return
         self.ysave = np.zeros((self.kmax, self.nvar), dtype = dtype)
-- 
2.43.0


From 6c5908dd3b42403dbcd73d86725a417fe963d934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:24 +0000
Subject: [PATCH 30/46] fix: accept steps whose error estimate is exactly zero

---
 src/pynlo/util/ode_solve/dopr853.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pynlo/util/ode_solve/dopr853.py b/src/pynlo/util/ode_solve/dopr853.py
index 0c68a69..0e5304d 100644
--- a/src/pynlo/util/ode_solve/dopr853.py
+++ b/src/pynlo/util/ode_solve/dopr853.py
@@ -170,7 +170,7 @@ class StepperDopr853(StepperBase):
         err2 = np.sum( pow(np.abs(self.yerr )/sk, 2) )
         err1 = np.sum( pow(np.abs(self.yerr2)/sk, 2) )
         deno = err1 + 0.01 * err2
-        if deno < 0.0:
+        if deno <= 0.0:
             deno = 1.0
         return abs(abs(h) * np.abs(err1) * np.sqrt(1.0 / (deno*self.n)))
         
\ No newline at end of file
-- 
2.43.0


From 0b733708922bad8e18ebbfe48d3b8b4f2d621596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:26 +0000
Subject: [PATCH 31/46] fix: give every stepper its own step-size controller

---
 src/pynlo/util/ode_solve/dopr853.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pynlo/util/ode_solve/dopr853.py b/src/pynlo/util/ode_solve/dopr853.py
index 0e5304d..7625b30 100644
--- a/src/pynlo/util/ode_solve/dopr853.py
+++ b/src/pynlo/util/ode_solve/dopr853.py
@@ -32,9 +32,10 @@ class StepperDopr853(StepperBase):
     k2= None;k3= None;k4= None; k5= None;k6= None;k7= None;k8= None;k9= None;k10 = None
     rcont1= None;rcont2= None;rcont3= None;rcont4= None;rcont5= None;rcont6= None
     rcont7= None;rcont8 = None
-    con = Controller()
+    con = None
     def __init__(self, yy, dydxx, xx, atoll, rtoll, dens):
         StepperBase.__init__(self, yy,dydxx, xx, atoll, rtoll, dens)
+        self.con    = Controller()
         self.yerr2  = self.gen_array()
         self.k2     = self.gen_array()
         self.k3     = self.gen_array()
-- 
2.43.0


From 8057811a22ad793db8c36d0904ed6d5c215320bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:39 +0000
Subject: [PATCH 32/46] fix: scale the compressor's phase derivatives to
 fs^(n+1) correctly

---
 src/pynlo/devices/grating_compressor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pynlo/devices/grating_compressor.py b/src/pynlo/devices/grating_compressor.py
index 8e85320..b9d2ec5 100644
--- a/src/pynlo/devices/grating_compressor.py
+++ b/src/pynlo/devices/grating_compressor.py
@@ -150,8 +150,8 @@ class TreacyCompressor:
         dphidw = fn(ws)        
         y = signal.savgol_filter(dphidw, window_length = 11,
                              polyorder = 7, deriv = dispersion_order)
-        dw = (ws[1] - ws[0])*10**(-15*(1+dispersion_order))
-        return y[50]/(dw**dispersion_order)
+        dw = ws[1] - ws[0]
+        return y[50]/(dw**dispersion_order * 10.0**(-15*(1+dispersion_order)))
     
     
     def apply_phase_to_pulse(self, grating_separation_meters, pulse):
-- 
2.43.0


From ae8234d1ff78f1899366c68ca0d1a285ac0960ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:41 +0000
Subject: [PATCH 33/46] fix: differentiate the compressor GDD with a step above
 rounding noise

---
 src/pynlo/devices/grating_compressor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pynlo/devices/grating_compressor.py b/src/pynlo/devices/grating_compressor.py
index b9d2ec5..01d7509 100644
--- a/src/pynlo/devices/grating_compressor.py
+++ b/src/pynlo/devices/grating_compressor.py
@@ -134,7 +134,7 @@ class TreacyCompressor:
         return misc.derivative(fn, 
                                       w_of_l(wavelength_nm),
                                       n     = dispersion_order - 2,
-                                      dx    = 2.0*np.pi*100.0e6, # Use dx = 100 MHz
+                                      dx    = 2.0*np.pi*100.0e9, # Use dx = 100 GHz
                                       order = 101 ) # Why not use 101's order?
     
     
-- 
2.43.0


From 60befa63778366897bcf264a892cf71742c726bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:44 +0000
Subject: [PATCH 34/46] fix: coerce impossible diffraction angles for scalar
 wavelengths too

---
 src/pynlo/devices/grating_compressor.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/pynlo/devices/grating_compressor.py b/src/pynlo/devices/grating_compressor.py
index 01d7509..b51b446 100644
--- a/src/pynlo/devices/grating_compressor.py
+++ b/src/pynlo/devices/grating_compressor.py
@@ -79,9 +79,7 @@ class TreacyCompressor:
             print( "Bad value for argument of arcsin: ",\
                 l/self.d  - np.sin(self.g),'. You are probably asking for diffraction of an impossible color (this wavelength is ',l*1e9,'nm. Coercing to [-1,1].' )
         val = l/self.d  - np.sin(self.g)
-        if type(val) == np.ndarray:
-            val[val>1] = 1
-            val[val<-1] = -1
+        val = np.clip(val, -1, 1)
 
         alpha = np.arcsin(val )
         if display_angle:
-- 
2.43.0


From 07dbc07a360bd28dd58fd04514debeaae0a11940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:11 +0000
Subject: [PATCH 35/46] fix: apply the whole linear step in the split-step
 method

---
 src/pynlo/interactions/FourWaveMixing/SSFM.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/pynlo/interactions/FourWaveMixing/SSFM.py b/src/pynlo/interactions/FourWaveMixing/SSFM.py
index 7048f52..8ea38b4 100755
--- a/src/pynlo/interactions/FourWaveMixing/SSFM.py
+++ b/src/pynlo/interactions/FourWaveMixing/SSFM.py
@@ -378,12 +378,10 @@ class SSFM:
  
     def Advance(self,A,dz,direction):
         if self.method == SSFM.METHOD_SSFM:
-            if direction==1:
-                A[:] = self.LinearStep(A,dz,direction)
-                return np.exp(dz*direction*self.NonlinearOperator(A))*A
-            else:
-                A[:] = np.exp(dz*direction*self.NonlinearOperator(A))*A
-                return self.LinearStep(A,dz,direction)
+            # LinearStep covers half of dz
+            A[:] = self.LinearStep(A,dz,direction)
+            A[:] = np.exp(dz*direction*self.NonlinearOperator(A))*A
+            return self.LinearStep(A,dz,direction)
         elif self.method == SSFM.METHOD_RK4IP:
             return self.RK4IP(A,dz,direction)
 
-- 
2.43.0


From b338c1343cbf2a62769ada0dc4b5034c5188ca1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:58 +0000
Subject: [PATCH 36/46] fix: put spectrogram rows at the pulse's true optical
 frequencies

---
 src/pynlo/light/PulseBase.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pynlo/light/PulseBase.py b/src/pynlo/light/PulseBase.py
index a35ffcc..98822c8 100644
--- a/src/pynlo/light/PulseBase.py
+++ b/src/pynlo/light/PulseBase.py
@@ -990,8 +990,9 @@ class Pulse:
         else:
             raise ValueError('Type \""%s\"" not recognized. Type must be \"xfrog\" or \"frog\".'%gate_type)
             
-        # make a 2D array of E(time, delay)
-        E = amp * gate_function * np.exp(1j*(2 * np.pi * T * self.center_frequency_THz + phase) )
+        # make a 2D array of E(time, delay); A(t) multiplies exp(-i w0 t), so
+        # its conjugate has the optical frequencies on the positive side
+        E = amp * np.conj(gate_function) * np.exp(1j*(2 * np.pi * T * self.center_frequency_THz - phase) )
         
         spectrogram = np.fft.fft(E, axis=0)
         freqs = np.fft.fftfreq(np.shape(E)[0], t[1]-t[0])
-- 
2.43.0


From 8450a03e9a107ab28f76561d9741aa61ff582240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:48 +0000
Subject: [PATCH 37/46] fix: avoid single-precision underflow when normalising
 the coherence

---
 src/pynlo/interactions/FourWaveMixing/SSFM.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pynlo/interactions/FourWaveMixing/SSFM.py b/src/pynlo/interactions/FourWaveMixing/SSFM.py
index 8ea38b4..18c8bed 100755
--- a/src/pynlo/interactions/FourWaveMixing/SSFM.py
+++ b/src/pynlo/interactions/FourWaveMixing/SSFM.py
@@ -598,7 +598,7 @@ class SSFM:
             for n2, (y, E2, AT, pulsein, pulseout) in enumerate(results):
                 if n1 == n2: continue # don't compare the same trial
 
-                g12 = np.conj(E1)*E2/np.sqrt(np.abs(E1)**2 * np.abs(E2)**2)
+                g12 = (np.conj(E1)/np.abs(E1)) * (E2/np.abs(E2))
                 if 'g12_stack' not in locals():
                     g12_stack = g12
                 else:
-- 
2.43.0


From fd2a950aeb694035555274478336641e4d95c876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:39 +0000
Subject: [PATCH 38/46] fix: delete a parameter's earlier runs when it is
 written again

---
 src/pynlo/interactions/ThreeWaveMixing/multi_run_rw.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pynlo/interactions/ThreeWaveMixing/multi_run_rw.py b/src/pynlo/interactions/ThreeWaveMixing/multi_run_rw.py
index a37fe03..09a3eda 100644
--- a/src/pynlo/interactions/ThreeWaveMixing/multi_run_rw.py
+++ b/src/pynlo/interactions/ThreeWaveMixing/multi_run_rw.py
@@ -102,7 +102,7 @@ class DFGWriter:
             self.root = self.tables_file.create_group('/', param_name)
         except tables.NodeError:
             print ('Parameter "'+param_name+'" already in table; deleting existing data.')
-            self.tables_file.remove_node('/', param_name)
+            self.tables_file.remove_node('/', param_name, recursive = True)
             self.root = self.tables_file.create_group('/', param_name)
             
     def add_run(self,integrand, odesolver, param):
-- 
2.43.0


From 7cf2bca672ea98b1291ffa31603062c279cfb755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:42 +0000
Subject: [PATCH 39/46] fix: give every run read from a file its own repetition
 rate

---
 src/pynlo/interactions/ThreeWaveMixing/multi_run_rw.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/pynlo/interactions/ThreeWaveMixing/multi_run_rw.py b/src/pynlo/interactions/ThreeWaveMixing/multi_run_rw.py
index 09a3eda..0f8f77f 100644
--- a/src/pynlo/interactions/ThreeWaveMixing/multi_run_rw.py
+++ b/src/pynlo/interactions/ThreeWaveMixing/multi_run_rw.py
@@ -53,6 +53,7 @@ class DFGReader:
             z_num = -1
             
         run = self.root_name+'/run'+str(run_num)
+        frep_Hz = self.tables_file.get_node(run+'/frep_Hz')[0]
         
         # Read in and generate pump pulse
         pump_field  = self.tables_file.get_node(run+'/pump')[:,z_num]
@@ -63,7 +64,7 @@ class DFGReader:
         p.set_center_wavelength_nm(pump_center)
         p.set_time_window_ps(pump_Twind)
         p.set_AW(pump_field)
-        p.set_frep_MHz(self.frep_Hz * 1.0e-6)
+        p.set_frep_MHz(frep_Hz * 1.0e-6)
         
         # Read in and generate signal pulse
         sgnl_field  = self.tables_file.get_node(run+'/sgnl')[:,z_num]
@@ -74,7 +75,7 @@ class DFGReader:
         s.set_center_wavelength_nm(sgnl_center)
         s.set_time_window_ps(sgnl_Twind)
         s.set_AW(sgnl_field)
-        s.set_frep_MHz(self.frep_Hz * 1.0e-6)
+        s.set_frep_MHz(frep_Hz * 1.0e-6)
 
         # Read in and generate idler pulse
         idlr_field  = self.tables_file.get_node(run+'/idlr')[:,z_num]
@@ -85,7 +86,7 @@ class DFGReader:
         i.set_center_wavelength_nm(idlr_center)
         i.set_time_window_ps(idlr_Twind)
         i.set_AW(idlr_field)
-        i.set_frep_MHz(self.frep_Hz * 1.0e-6)
+        i.set_frep_MHz(frep_Hz * 1.0e-6)
         
         return (p, s, i)
         
-- 
2.43.0


From 3d6069104ad6a0c75ad8cf6eb071f396727751d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:23 +0000
Subject: [PATCH 40/46] fix: keep the gain search within range for long fibers
 and any gain unit

---
 src/pynlo/media/fibers/fiber.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pynlo/media/fibers/fiber.py b/src/pynlo/media/fibers/fiber.py
index ef3641f..42a8c98 100755
--- a/src/pynlo/media/fibers/fiber.py
+++ b/src/pynlo/media/fibers/fiber.py
@@ -329,6 +329,11 @@ class FiberInstance:
                     f = scipy.interpolate.interp1d(self.c_mks/x[::-1],y[::-1],kind ='cubic',
                                  bounds_error=False,fill_value=0)
                     gain_spec = f(pulse.W_mks/ (2*np.pi))
+                    # Search in units of the peak gain over the fiber length,
+                    # so that the exponential below stays within range.
+                    peak_gain = np.max(np.abs(gain_spec)) * self.length
+                    if peak_gain > 0:
+                        gain_spec = gain_spec / peak_gain
 
                     g = lambda k: np.abs(output_power - pulse.frep_mks * pulse.dT_mks*
                                         np.trapz(np.abs(
-- 
2.43.0


From 72ea1edc0445f5b700bb763e7bb67e42576bcc7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:02 +0000
Subject: [PATCH 41/46] fix: end dense output exactly on the end point

---
 src/pynlo/util/ode_solve/steppers.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/pynlo/util/ode_solve/steppers.py b/src/pynlo/util/ode_solve/steppers.py
index d094762..87f9a66 100644
--- a/src/pynlo/util/ode_solve/steppers.py
+++ b/src/pynlo/util/ode_solve/steppers.py
@@ -105,6 +105,12 @@ class Output:
         self.ysave[self.count, :]   = y
         self.xsave[self.count]      = x
         self.count += 1        
+    def next_xout(self):
+        """ Position of the next point to be saved; steps are counted rather
+        than summed up, so that the last one is exactly x2."""
+        if self.count == self.nsave:
+            return self.x2
+        return self.x1 + self.count * self.dxout
     def out(self, nstp, x, y, s, h):
         """ nstp is current step number, current values are x & y, Stepper is s
         and step size is h"""
@@ -113,11 +119,11 @@ class Output:
             raise e
         if nstp == -1:
             self.save(x,y)
-            self.xout += self.dxout
+            self.xout = self.next_xout()
         else:
             while (x-self.xout)*(self.x2-self.x1) > 0.0:
                 self.save_dense(s, self.xout, h)
-                self.xout += self.dxout
+                self.xout = self.next_xout()
         
         
 
-- 
2.43.0


From af77315360a63146c03d1d19c36b6e1c77cf212a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:11 +0000
Subject: [PATCH 42/46] fix: save an end point at or near zero only once

---
 src/pynlo/util/ode_solve/steppers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pynlo/util/ode_solve/steppers.py b/src/pynlo/util/ode_solve/steppers.py
index 87f9a66..fb828e9 100644
--- a/src/pynlo/util/ode_solve/steppers.py
+++ b/src/pynlo/util/ode_solve/steppers.py
@@ -234,7 +234,7 @@ class ODEint:
                 self.ystart[:] = self.s.y
                 if self.out.kmax > 0 and\
                         abs(self.out.xsave[self.out.count-1]-self.x2) >\
-                        100.0*abs(self.x2)*self.EPS:
+                        100.0*max(abs(self.x1), abs(self.x2))*self.EPS:
                     self.out.save(self.s.x, self.s.y)
                 return
             if abs(self.s.hnext) <= self.hmin:
-- 
2.43.0


From 4bba2fb3b193c4f0c8b45da550622de03ed87402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:15 +0000
Subject: [PATCH 43/46] fix: a fibre of zero length no longer sets the solver's
 step to zero

The step was halved to fit the (zero) distance and then kept, so that the
next propagation with the same solver never ended.
---
 src/pynlo/interactions/FourWaveMixing/SSFM.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pynlo/interactions/FourWaveMixing/SSFM.py b/src/pynlo/interactions/FourWaveMixing/SSFM.py
index 18c8bed..22f6b3e 100755
--- a/src/pynlo/interactions/FourWaveMixing/SSFM.py
+++ b/src/pynlo/interactions/FourWaveMixing/SSFM.py
@@ -311,7 +311,7 @@ class SSFM:
         force_last_dz = False
         factor = 2**(1.0/self.eta)
 
-        if (2.0*dz > dist):
+        if (2.0*dz > dist) and (dist>0.0):
             dz = dist/2.0
 
         while dist>0.0:
-- 
2.43.0


From 24f6d6e0f85f7954ebb6de7f33e9250efe07f0f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:56 +0000
Subject: [PATCH 44/46] fix: a trial step that overflows is too long, not
 accepted

---
 src/pynlo/interactions/FourWaveMixing/SSFM.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pynlo/interactions/FourWaveMixing/SSFM.py b/src/pynlo/interactions/FourWaveMixing/SSFM.py
index 22f6b3e..4558cd1 100755
--- a/src/pynlo/interactions/FourWaveMixing/SSFM.py
+++ b/src/pynlo/interactions/FourWaveMixing/SSFM.py
@@ -330,7 +330,8 @@ class SSFM:
                 print ("iteration:",self.iter,"dz:",dz,"distance:", dist,\
                       "local error", delta )
 
-            if delta > 2.0*self.local_error:
+            if delta > 2.0*self.local_error or \
+                    (np.isnan(delta) and np.all(np.isfinite(self.A))):
                 # Discard the solution, decrease step
                 new_dz = dz/2.0
                 if new_dz >= self.dz_min:
-- 
2.43.0


From c92f7b77d808e65eeb3359c6a56b0dd5df75c59b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:14:55 +0000
Subject: [PATCH 45/46] fix: a gain spectrum reaches its power also when it
 holds little of the pulse

---
 src/pynlo/media/fibers/fiber.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/pynlo/media/fibers/fiber.py b/src/pynlo/media/fibers/fiber.py
index 42a8c98..08ae0ff 100755
--- a/src/pynlo/media/fibers/fiber.py
+++ b/src/pynlo/media/fibers/fiber.py
@@ -26,7 +26,7 @@ import scipy.interpolate
 from pynlo.media.fibers.calculators import DTabulationToBetas
 from scipy.special import factorial
 from scipy import constants
-from scipy.optimize import minimize
+from scipy.optimize import brentq, minimize
 from pynlo.util.pynlo_ffts import IFFT_t
 from pynlo.media.fibers import JSONFiberLoader
 
@@ -335,14 +335,24 @@ class FiberInstance:
                     if peak_gain > 0:
                         gain_spec = gain_spec / peak_gain
 
-                    g = lambda k: np.abs(output_power - pulse.frep_mks * pulse.dT_mks*
+                    power = lambda k: (pulse.frep_mks * pulse.dT_mks*
                                         np.trapz(np.abs(
                                             IFFT_t( pulse.AW *
                                                 np.exp(k*gain_spec*self.length/2.0)
                                                 )
                                                 )**2))
+                    g = lambda k: np.abs(output_power - power(k))
 
                     scale_factor = minimize(g, 1, method='Powell')
+                    if g(scale_factor.x) > 1e-6 * output_power:
+                        # g is all but flat where the gain band holds little of
+                        # the pulse and the search can stop short; the power
+                        # grows with the gain, so the gain can be bracketed.
+                        high = 1.0
+                        while power(high) < output_power and high < 512:
+                            high *= 2
+                        if power(0) < output_power <= power(high):
+                            return gain_spec * brentq(lambda k: power(k) - output_power, 0, high)
 #                    print 'Power:',pulse.frep * pulse.dt_seconds*\
 #                                        np.trapz(np.abs(
 #                                            IFFT_t( FFT_t(pulse.A) *
-- 
2.43.0


From 1315e5c1be3211b18c03e288df9c7f6e3c57bdff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:46:04 +0000
Subject: [PATCH 46/46] fix: the search for a poled signal wavelength gets past
 idlers without an index

---
 src/pynlo/media/crystals/CrystalContainer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pynlo/media/crystals/CrystalContainer.py b/src/pynlo/media/crystals/CrystalContainer.py
index 4a8b497..968cde4 100644
--- a/src/pynlo/media/crystals/CrystalContainer.py
+++ b/src/pynlo/media/crystals/CrystalContainer.py
@@ -168,7 +168,9 @@ class Crystal:
         """
 
         def err_fn(wl_s):
-            return (self.calculate_poling_period(pump_wl_nm, wl_s, None, silent = True)[0] - poling_period_mks )**2
+            err = (self.calculate_poling_period(pump_wl_nm, wl_s, None, silent = True)[0] - poling_period_mks )**2
+            # no index, hence no period, at this idler: worse than any other guess
+            return np.inf if np.isnan(err) else err
         
         res = optimize.minimize_scalar(err_fn, bounds = [pump_wl_nm*1.001, max_signal_wl_nm],
                                  method = 'bounded')
-- 
2.43.0

