From 8b2a18a86f6d0269a5d7a59ff8d34b393c86afe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:48 +0000
Subject: [PATCH 01/38] fix: systematic multipoles use each target's column and
 leave the given table unmodified

---
 pySC/core/simulated_commissioning.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pySC/core/simulated_commissioning.py b/pySC/core/simulated_commissioning.py
index ed5ff31..2ccb8c3 100644
--- a/pySC/core/simulated_commissioning.py
+++ b/pySC/core/simulated_commissioning.py
@@ -477,13 +477,13 @@ class SimulatedCommissioning:
         if BA.ndim != 2 or BA.shape[1] != 2:
             raise ValueError("BA has to  be numpy.array of shape N x 2.")
         ind, source = (1, "A") if skewness else (0, "B")
-        newBA = BA[:, :]
+        newBA = BA.copy()
         newBA[order, ind] = 0
         for ord in ords:
-            for target in ("A", "B"):
+            for target_ind, target in enumerate(("B", "A")):
                 attr_name = f'SysPol{target}From{source}'
                 syspol = getattr(self.RING[ord], attr_name) if hasattr(self.RING[ord], attr_name) else DotDict()
-                syspol[order] = newBA[:, ind]
+                syspol[order] = newBA[:, target_ind]
                 setattr(self.RING[ord], attr_name, syspol)
 
     def set_random_multipole_errors(self, ords: ndarray, BA):
-- 
2.43.0


From 32b90ec743bc4a1e0c32f3f39ece73c7223141c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:15 +0000
Subject: [PATCH 02/38] fix: integer setpoints are no longer truncated or
 rejected

---
 pySC/utils/classdef_tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySC/utils/classdef_tools.py b/pySC/utils/classdef_tools.py
index 9641d74..8514826 100644
--- a/pySC/utils/classdef_tools.py
+++ b/pySC/utils/classdef_tools.py
@@ -55,7 +55,7 @@ def check_input_and_setpoints(method, ords, setpoints):
     if method not in SETTING_METHODS:
         raise ValueError(f'Unsupported setpoint method: {method}. Allowed options are: {SETTING_METHODS}.')
     ords_1d = np.ravel(np.array([ords], dtype=int))
-    setpoints_1d = np.ravel(np.array([setpoints]))
+    setpoints_1d = np.ravel(np.array([setpoints], dtype=float))
     if len(setpoints_1d) not in (1, len(ords_1d)):
         raise ValueError(f'Setpoints have to have length of 1 or matching to the length or ordinates.')
     return ords_1d, (np.repeat(setpoints_1d, len(ords_1d)) if len(setpoints_1d) == 1 else setpoints_1d)
-- 
2.43.0


From 25f1110f676ebf6dc69a8a278a15b763717f84af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:32 +0000
Subject: [PATCH 03/38] fix: pseudo-orbit reading returns NaN instead of
 failing when a BPM sees no beam

---
 pySC/core/beam.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySC/core/beam.py b/pySC/core/beam.py
index bffd73d..6a6f80c 100644
--- a/pySC/core/beam.py
+++ b/pySC/core/beam.py
@@ -55,7 +55,7 @@ def bpm_reading(SC: SimulatedCommissioning, bpm_ords: ndarray = None, calculate_
     if SC.plot:
         _plot_bpm_reading(SC, mean_bpm_orbits_3d, bpm_inds)
     if SC.INJ.trackMode == TRACK_PORB:   # ORB averaged over low amount of turns
-        mean_bpm_orbits_3d = np.average(np.ma.array(mean_bpm_orbits_3d, mask=np.isnan(mean_bpm_orbits_3d)),
+        mean_bpm_orbits_3d = np.ma.average(np.ma.array(mean_bpm_orbits_3d, mask=np.isnan(mean_bpm_orbits_3d)),
                                         weights=np.ma.array(mean_bpm_sums_3d, mask=np.isnan(mean_bpm_sums_3d)), axis=2,
                                         keepdims=True).filled(np.nan)
         mean_bpm_sums_3d = np.nansum(mean_bpm_sums_3d, axis=2, keepdims=True) / SC.INJ.nTurns
-- 
2.43.0


From d279c6fcc84a0cb00a06021b83225b050eacf5e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:07 +0000
Subject: [PATCH 04/38] fix: bunch distribution follows a correlated beam-size
 matrix

---
 pySC/core/beam.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySC/core/beam.py b/pySC/core/beam.py
index 6a6f80c..dc856ca 100644
--- a/pySC/core/beam.py
+++ b/pySC/core/beam.py
@@ -163,7 +163,7 @@ def generate_bunches(SC: SimulatedCommissioning, nParticles=None) -> ndarray:
     Z = np.tile(np.transpose(SC.INJ.randomInjectionZ * sc_tools.randnc(2, (1, 6)) + SC.INJ.Z0), nParticles)
     if nParticles != 1:
         V, L = np.linalg.eig(SC.INJ.beamSize)
-        Z += np.diag(np.sqrt(V)) @ L @ sc_tools.randnc(3, (6, nParticles))
+        Z += L @ np.diag(np.sqrt(V)) @ sc_tools.randnc(3, (6, nParticles))
     return SC.INJ.postFun(Z)
 
 
-- 
2.43.0


From 0ccf19fb82ce702fbd39776763b16b292f31fa79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:19 +0000
Subject: [PATCH 05/38] fix: rolls of a support structure across the injection
 point apply only to its own elements

---
 pySC/core/simulated_commissioning.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySC/core/simulated_commissioning.py b/pySC/core/simulated_commissioning.py
index 2ccb8c3..3b3b8c4 100644
--- a/pySC/core/simulated_commissioning.py
+++ b/pySC/core/simulated_commissioning.py
@@ -748,7 +748,7 @@ class SimulatedCommissioning:
                 offset2 = off0[0, ords[1]] - off0[0, ords[0]]
                 if ords[0] > ords[1]:
                     struct_length = ring_length + struct_length
-                    mask[ords[0]] = False
+                    mask[ords[1] + 1:ords[0]] = True
                     mask = ~mask
                 else:
                     mask[ords[1]] = True
-- 
2.43.0


From 3e1e2032c869bbb2e5ae3153d74af63a1c216f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:19 +0000
Subject: [PATCH 06/38] fix: elements at a support end point follow their own
 support structure

---
 pySC/core/simulated_commissioning.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/pySC/core/simulated_commissioning.py b/pySC/core/simulated_commissioning.py
index 3b3b8c4..c9bc066 100644
--- a/pySC/core/simulated_commissioning.py
+++ b/pySC/core/simulated_commissioning.py
@@ -676,13 +676,13 @@ class SimulatedCommissioning:
             *SC.register_support*, *SC.support_offset_and_roll*, *plot_support*
 
         """
-        s_pos = at_wrapper.findspos(self.RING)
+        # evaluated at each element: s-positions alone are ambiguous at zero-length elements
+        offsets, rolls = self.support_offset_and_roll(at_wrapper.findspos(self.RING))
         if offset_magnets:
             if len(self.ORD.Magnet):
-                offsets, rolls = self.support_offset_and_roll(s_pos[self.ORD.Magnet])
-                for i, ind in enumerate(self.ORD.Magnet):
-                    setattr(self.RING[ind], "SupportOffset", offsets[:, i])
-                    setattr(self.RING[ind], "SupportRoll", rolls[:, i])
+                for ind in self.ORD.Magnet:
+                    setattr(self.RING[ind], "SupportOffset", offsets[:, ind])
+                    setattr(self.RING[ind], "SupportRoll", rolls[:, ind])
                     self.RING[ind] = sc_tools.update_transformation(self.RING[ind])
                     if hasattr(self.RING[ind], 'MasterOf'):
                         for child_ind in self.RING[ind].MasterOf:
@@ -692,11 +692,10 @@ class SimulatedCommissioning:
                 LOGGER.warning('SC: No magnets have been registered!')
         if offset_bpms:
             if len(self.ORD.BPM):
-                offsets, rolls = self.support_offset_and_roll(s_pos[self.ORD.BPM])
-                for i, ind in enumerate(self.ORD.BPM):
-                    setattr(self.RING[ind], "SupportOffset", offsets[0:2, i])  # No longitudinal BPM offsets implemented
+                for ind in self.ORD.BPM:
+                    setattr(self.RING[ind], "SupportOffset", offsets[0:2, ind])  # No longitudinal BPM offsets implemented
                     setattr(self.RING[ind], "SupportRoll",
-                            rolls[0, i])  # BPM pitch and yaw angles not  implemented
+                            rolls[0, ind])  # BPM pitch and yaw angles not  implemented
             else:
                 LOGGER.warning('SC: No BPMs have been registered!')
 
-- 
2.43.0


From a893a25884c497db4346bfe5d53d68ea24ca91be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:19 +0000
Subject: [PATCH 07/38] fix: support end points use their own uncertainties

---
 pySC/core/simulated_commissioning.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pySC/core/simulated_commissioning.py b/pySC/core/simulated_commissioning.py
index c9bc066..c627156 100644
--- a/pySC/core/simulated_commissioning.py
+++ b/pySC/core/simulated_commissioning.py
@@ -583,7 +583,8 @@ class SimulatedCommissioning:
                         continue
                     setattr(self.RING[ordPair[0]], field, classdef_tools.randn_cutoff(value, nsigmas))
                     setattr(self.RING[ordPair[1]], field,
-                            classdef_tools.randn_cutoff(value, nsigmas) if field in self.SIG.Support[ordPair[1]].keys()
+                            classdef_tools.randn_cutoff(self.SIG.Support[ordPair[1]][field], nsigmas)
+                            if field in self.SIG.Support[ordPair[1]].keys()
                             else getattr(self.RING[ordPair[0]], field))
 
                 struct_length = np.remainder(s_pos[ordPair][1] - s_pos[ordPair][0], s_pos[-1])
-- 
2.43.0


From 48252df9695ed1486a7cc25f9e2b2a2e29a003f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:19 +0000
Subject: [PATCH 08/38] fix: support errors can be applied repeatedly

---
 pySC/core/simulated_commissioning.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pySC/core/simulated_commissioning.py b/pySC/core/simulated_commissioning.py
index c627156..e7ffe21 100644
--- a/pySC/core/simulated_commissioning.py
+++ b/pySC/core/simulated_commissioning.py
@@ -578,6 +578,12 @@ class SimulatedCommissioning:
             for ordPair in self.ORD[support_type].T:
                 if ordPair[0] not in self.SIG.Support.keys():
                     continue
+                if classdef_tools.intersect([f"{support_type}{field}" for field in SUPPORT_ERROR_FIELDS],
+                                            self.SIG.Support[ordPair[0]].keys()):
+                    # errors are drawn anew, nothing is kept from previously applied (or derived) ones
+                    for ind in ordPair:
+                        for field in SUPPORT_ERROR_FIELDS:
+                            setattr(self.RING[ind], f"{support_type}{field}", np.zeros(3))
                 for field, value in self.SIG.Support[ordPair[0]].items():
                     if support_type not in field:
                         continue
-- 
2.43.0


From 05e801634761ae58e096f8a1de080dcc8140f947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:19 +0000
Subject: [PATCH 09/38] fix: registering a support structure keeps the
 uncertainties of other types at its end points

---
 pySC/core/simulated_commissioning.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pySC/core/simulated_commissioning.py b/pySC/core/simulated_commissioning.py
index e7ffe21..a554867 100644
--- a/pySC/core/simulated_commissioning.py
+++ b/pySC/core/simulated_commissioning.py
@@ -430,7 +430,9 @@ class SimulatedCommissioning:
         for ind in np.ravel(support_ords):
             setattr(self.RING[ind], f"{support_type}Offset", np.zeros(3))  # [x,y,z]
             setattr(self.RING[ind], f"{support_type}Roll", np.zeros(3))  # [az,ax,ay]
-            self.SIG.Support[ind] = DotDict()
+            # uncertainties of other support types starting or ending at the same element are kept
+            self.SIG.Support[ind] = DotDict({key: value for key, value in self.SIG.Support.get(ind, {}).items()
+                                             if key not in [f"{support_type}{field}" for field in SUPPORT_ERROR_FIELDS]})
         for ord_pair in support_ords.T:
             for key, value in kwargs.items():
                 if isinstance(value, list):
-- 
2.43.0


From 732f52b28f368959b7cca15d9fa7a82be5961770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:01 +0000
Subject: [PATCH 10/38] fix: stitching and balancing leave the given reference
 unmodified

---
 pySC/correction/orbit_trajectory.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pySC/correction/orbit_trajectory.py b/pySC/correction/orbit_trajectory.py
index 2d0d444..03c4b4b 100644
--- a/pySC/correction/orbit_trajectory.py
+++ b/pySC/correction/orbit_trajectory.py
@@ -142,7 +142,7 @@ def stitch(SC, response_matrix, reference=None, cm_ords=None, bpm_ords=None, n_b
             raise RuntimeError("Not enough transmission for stitching to work.")
 
     # Prepare reference
-    reference = reference.reshape(2, len(bpm_readings[0]))
+    reference = reference.reshape(2, len(bpm_readings[0])).copy()
     reference[:, len(bpm_ords):] = 0
     reference = reference.reshape(response_matrix.shape[0])
     Mplus = sc_tools.pinv(response_matrix, **pinv_params)
@@ -209,7 +209,7 @@ def balance(SC, response_matrix, reference=None, cm_ords=None, bpm_ords=None, ep
         raise ValueError("Balancing works only with full 2 turn transmission.")
 
     # Prepare reference
-    reference = reference.reshape(2, len(bpm_readings[0]))
+    reference = reference.reshape(2, len(bpm_readings[0])).copy()
     reference[:, len(bpm_ords):] = 0
     reference = reference.reshape(response_matrix.shape[0])
     Mplus = sc_tools.pinv(response_matrix, **pinv_params)
-- 
2.43.0


From b565336c4ac20dd0c06a391c047512b99792c5bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:01 +0000
Subject: [PATCH 11/38] fix: stitching reports a setback instead of discarding
 the error

---
 pySC/correction/orbit_trajectory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySC/correction/orbit_trajectory.py b/pySC/correction/orbit_trajectory.py
index 03c4b4b..7e7c7f4 100644
--- a/pySC/correction/orbit_trajectory.py
+++ b/pySC/correction/orbit_trajectory.py
@@ -165,7 +165,7 @@ def stitch(SC, response_matrix, reference=None, cm_ords=None, bpm_ords=None, n_b
 
         # Check stopping criteria
         if transmission_history[-1] < transmission_history[-2]:
-            RuntimeError('Second turn stitching: FAIL Setback')
+            raise RuntimeError('Second turn stitching: FAIL Setback')
         if _is_repro(transmission_history, NREPRO) and transmission_history[-1] == bpm_readings.shape[1]:
             LOGGER.debug('Second turn stitching: Success')
             return SC
-- 
2.43.0


From f8561208e952cf773355d1db65c2be68876d1067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:54 +0000
Subject: [PATCH 12/38] fix: a constant orbit counts as stable in orbit
 correction and balancing

---
 pySC/correction/orbit_trajectory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySC/correction/orbit_trajectory.py b/pySC/correction/orbit_trajectory.py
index 7e7c7f4..ce703f9 100644
--- a/pySC/correction/orbit_trajectory.py
+++ b/pySC/correction/orbit_trajectory.py
@@ -371,7 +371,7 @@ def _golden_donut_diffs(r0, r1, n_points):
 def _is_stable_or_converged(n, eps, hist):  # TODO rethink
     if len(hist) < n:
         return False
-    return (np.var(hist[-n:]) / np.std(hist[-n:])) < eps
+    return np.all(np.std(hist[-n:], axis=0) < eps)  # each plane on its own
 
 
 def _wiggling(SC, bpm_ords, cm_ords, transmission_limit, nums_correctors=range(1, 9)):
-- 
2.43.0


From e2bd8b8012e5951664ce4b3c5ed5ed4904dbe58b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:48 +0000
Subject: [PATCH 13/38] fix: a BPM without usable alignment data is reported as
 failed instead of aborting

---
 pySC/correction/bba.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pySC/correction/bba.py b/pySC/correction/bba.py
index 77682aa..4908e8f 100644
--- a/pySC/correction/bba.py
+++ b/pySC/correction/bba.py
@@ -172,6 +172,8 @@ def _data_evaluation(SC, bpm_pos, trajectories, mag_vec, n_dim, m_ord, par):
         center[j] = -p[1] / (par.fit_order * p[0])  # zero-crossing if linear, minimum is quadratic
         center_err[j] = np.sqrt(center[j] ** 2 * (pcov[0,0]/p[0]**2 + pcov[1,1]/p[1]**2 - 2 * pcov[0, 1] / p[0] / p[1]))
     mask = ~np.isnan(center)
+    if not np.any(mask):  # no usable measurement
+        return np.nan, np.nan
     offset_change = stats.weighted_mean(center[mask], center_err[mask])
     offset_change_error = stats.weighted_error(center[mask]-offset_change, center_err[mask]) / np.sqrt(stats.effective_sample_size(center[mask], stats.weights_from_errors(center_err[mask])))
     if not par.dipole_compensation and n_dim == 0 and SC.RING[m_ord].NomPolynomB[1] != 0:
-- 
2.43.0


From def95f894f2414515645e680bd2a1c71fedd515c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:24 +0000
Subject: [PATCH 14/38] fix: imprecise RF phase measurements leave the phase
 alone instead of raising TypeError

---
 pySC/correction/rf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySC/correction/rf.py b/pySC/correction/rf.py
index 069b286..b1d4bdf 100644
--- a/pySC/correction/rf.py
+++ b/pySC/correction/rf.py
@@ -49,7 +49,7 @@ def correct_rf_phase(SC, cav_ords=None, bpm_ords=None, n_steps=15, plot_results=
     delta_phi = _fold_phase(fsolve(sol, test_vec[np.argmax(sol(test_vec))] - abs(test_vec[0]) / 2), lamb)
     if np.abs(param[0]) < 2 * np.sqrt(param_cov[0, 0]) or np.abs(param[2]) < 2 * np.sqrt(param_cov[2, 2]):
         LOGGER.warning("Measurements is not sufficiently precise to make a correction")
-        delta_phi = 0.0
+        delta_phi = np.zeros(1)
     if np.isnan(delta_phi):  # TODO does this ever happen?
         raise RuntimeError('RF phase correction unsuccessful: NaN phase')
 
-- 
2.43.0


From c46095d8bdccaa6ea41cb4cb8a3c1b732fc144a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:24 +0000
Subject: [PATCH 15/38] fix: fold the static phase error, a fraction of the
 wavelength, with period one

---
 pySC/correction/rf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySC/correction/rf.py b/pySC/correction/rf.py
index b1d4bdf..32baf94 100644
--- a/pySC/correction/rf.py
+++ b/pySC/correction/rf.py
@@ -99,7 +99,7 @@ def phase_and_energy_error(SC, cav_ords):
     """This is not a simple observable in reality."""
     lamb = SPEED_OF_LIGHT / SC.RING[cav_ords[0]].Frequency
     orbit6 = at_wrapper.findorbit6(SC.RING)[0]
-    phase_error = _fold_phase((orbit6[5] - SC.INJ.Z0[5]) / lamb, lamb) * 360
+    phase_error = _fold_phase((orbit6[5] - SC.INJ.Z0[5]) / lamb, 1) * 360
     energy_error = SC.INJ.Z0[4] - orbit6[4]
     LOGGER.info(f'Static phase error {phase_error:.0f} deg')
     LOGGER.info(f'Energy error {1E2 * energy_error:.2f}%')
-- 
2.43.0


From ee32926103943a41e32e864bbee7a6b3229d49f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:03 +0000
Subject: [PATCH 16/38] fix: tune scan over an even number of set points stays
 inside the grid

---
 pySC/correction/tune.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySC/correction/tune.py b/pySC/correction/tune.py
index cb38b9f..c3fde84 100644
--- a/pySC/correction/tune.py
+++ b/pySC/correction/tune.py
@@ -49,7 +49,7 @@ def tune_scan(SC, quad_ords, rel_quad_changes, target=1, n_points=60, do_plot=Fa
     nqsp = np.array([len(rel_quad_changes[0]), len(rel_quad_changes[1])], dtype=int)
     max_turns = np.full((nqsp[0], nqsp[1]), np.nan)
     transmission = np.full((nqsp[0], nqsp[1], nTurns), np.nan)
-    inds = _golden_donut_inds(np.floor_divide(nqsp, 2), n_points=n_points)
+    inds = np.minimum(_golden_donut_inds(np.floor_divide(nqsp, 2), n_points=n_points), nqsp[:, np.newaxis] - 1)
     first_quads = [SC.RING[quad_ords[0][0]].FamName, SC.RING[quad_ords[1][0]].FamName]
     ords = np.hstack(quad_ords)
     for q1, q2 in inds.T:
-- 
2.43.0


From 17e7b926588aa9bce0cbf8f197cfca6403c7b2d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:03 +0000
Subject: [PATCH 17/38] fix: tune scan puts the quadrupoles back to their
 initial set points, also without transmission

---
 pySC/correction/tune.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pySC/correction/tune.py b/pySC/correction/tune.py
index c3fde84..37abc15 100644
--- a/pySC/correction/tune.py
+++ b/pySC/correction/tune.py
@@ -10,7 +10,7 @@ from matplotlib.gridspec import GridSpec
 from scipy.optimize import fmin
 
 from pySC.core.beam import beam_transmission, plot_transmission
-from pySC.utils import logging_tools
+from pySC.utils import at_wrapper, logging_tools
 from pySC.utils.at_wrapper import atlinopt
 
 LOGGER = logging_tools.get_logger(__name__)
@@ -52,12 +52,13 @@ def tune_scan(SC, quad_ords, rel_quad_changes, target=1, n_points=60, do_plot=Fa
     inds = np.minimum(_golden_donut_inds(np.floor_divide(nqsp, 2), n_points=n_points), nqsp[:, np.newaxis] - 1)
     first_quads = [SC.RING[quad_ords[0][0]].FamName, SC.RING[quad_ords[1][0]].FamName]
     ords = np.hstack(quad_ords)
+    init_setpoints = at_wrapper.atgetfieldvalues(SC.RING, ords, "SetPointB", index=1)
     for q1, q2 in inds.T:
         q_setpoints = np.hstack((np.ones(nq[0]) * rel_quad_changes[0][q1], np.ones(nq[1]) * rel_quad_changes[1][q2]))
         SC.set_magnet_setpoints(ords, q_setpoints, False, 1, method='rel')
         max_turns[q1, q2], surviving_fraction = beam_transmission(SC, nParticles=nParticles, nTurns=nTurns)
         transmission[q1, q2, :] = 1 * surviving_fraction
-        SC.set_magnet_setpoints(ords, 1 / q_setpoints, False, 1, method='rel')
+        SC.set_magnet_setpoints(ords, init_setpoints, False, 1, method='abs')
 
         if do_plot:
             f, ax = plot_scan(transmission[:, :, -1], max_turns, first_quads, rel_quad_changes)
-- 
2.43.0


From bdfd731a20b7b7b073b8f3d94610fae28ac171e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:50 +0000
Subject: [PATCH 18/38] fix: the ideal ring of a copy is a copy of the ideal
 ring

---
 pySC/core/simulated_commissioning.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pySC/core/simulated_commissioning.py b/pySC/core/simulated_commissioning.py
index a554867..d0a564c 100644
--- a/pySC/core/simulated_commissioning.py
+++ b/pySC/core/simulated_commissioning.py
@@ -959,6 +959,7 @@ class SimulatedCommissioning:
         copied_structure.IDEALRING = self.IDEALRING.deepcopy()
         for ind, element in enumerate(self.RING):
             copied_structure.RING[ind] = element.deepcopy()
+        for ind, element in enumerate(self.IDEALRING):
             copied_structure.IDEALRING[ind] = element.deepcopy()
         return copied_structure
 
-- 
2.43.0


From fd2d91ec8e37406cf90a11215aad774f9a395f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:26 +0000
Subject: [PATCH 19/38] fix: model ring leaves the set points of the machine
 alone

---
 pySC/lattice_properties/response_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pySC/lattice_properties/response_model.py b/pySC/lattice_properties/response_model.py
index 5c3dea5..0fc2f8a 100644
--- a/pySC/lattice_properties/response_model.py
+++ b/pySC/lattice_properties/response_model.py
@@ -160,8 +160,8 @@ def SCgetModelRING(SC: SimulatedCommissioning, includeAperture: bool =False) ->
     ring = SC.IDEALRING.deepcopy()
     for ord in range(len(SC.RING)):
         if hasattr(SC.RING[ord], 'SetPointA') and hasattr(SC.RING[ord], 'SetPointB'):
-            ring[ord].PolynomA = SC.RING[ord].SetPointA
-            ring[ord].PolynomB = SC.RING[ord].SetPointB
+            ring[ord].PolynomA = SC.RING[ord].SetPointA.copy()
+            ring[ord].PolynomB = SC.RING[ord].SetPointB.copy()
             ring[ord].PolynomA[0] = 0.0
             ring[ord].PolynomB[0] = 0.0
         if includeAperture:
-- 
2.43.0


From 0e715cdd09caf692f15fb005465abad932e5b46d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:27 +0000
Subject: [PATCH 20/38] fix: model ring with apertures raised TypeError

---
 pySC/lattice_properties/response_model.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pySC/lattice_properties/response_model.py b/pySC/lattice_properties/response_model.py
index 0fc2f8a..e506683 100644
--- a/pySC/lattice_properties/response_model.py
+++ b/pySC/lattice_properties/response_model.py
@@ -165,10 +165,10 @@ def SCgetModelRING(SC: SimulatedCommissioning, includeAperture: bool =False) ->
             ring[ord].PolynomA[0] = 0.0
             ring[ord].PolynomB[0] = 0.0
         if includeAperture:
-            if 'EApertures' in SC.RING[ord]:
-                ring[ord].EApertures = SC.RING[ord].EApertures
-            if 'RApertures' in SC.RING[ord]:
-                ring[ord].RApertures = SC.RING[ord].RApertures
+            if hasattr(SC.RING[ord], 'EApertures'):
+                ring[ord].EApertures = SC.RING[ord].EApertures.copy()
+            if hasattr(SC.RING[ord], 'RApertures'):
+                ring[ord].RApertures = SC.RING[ord].RApertures.copy()
         if len(SC.ORD.RF) and hasattr(SC.RING[ord], 'Frequency'):
             for field in RF_PROPERTIES:
                 setattr(ring[ord], field, getattr(SC.RING[ord], f"{field}SetPoint"))
-- 
2.43.0


From 0cd8c5f791ff2ec25aeb398a0e6694319729d379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:43 +0000
Subject: [PATCH 21/38] fix: measured response matrix evaluated two steps as
 many and many as two

---
 pySC/lattice_properties/response_measurement.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/pySC/lattice_properties/response_measurement.py b/pySC/lattice_properties/response_measurement.py
index 33dbb60..2bae47b 100644
--- a/pySC/lattice_properties/response_measurement.py
+++ b/pySC/lattice_properties/response_measurement.py
@@ -40,15 +40,18 @@ def response_matrix(SC, amp, bpm_ords, cm_ords, mode='fixedKick', n_steps=2, fit
                         gradient[n_step, :] = np.ravel(bpm_reading(SC, bpm_ords=bpm_ords)[0]) - bref
                 dCM = real_cm_setpoint - cmstart[nCM]
                 cm_steps[n_dim][:, nCM] = dCM
-                rm[:, i] = gradient / dCM
-            else:
-                dCM = max_step
-                cm_steps[n_dim][:, nCM] = dCM
                 for nBPM in range(gradient.shape[1]):
-                    x = dCM[~np.isnan(gradient[:, nBPM])]
-                    y = gradient[~np.isnan(gradient[:, nBPM]), nBPM]
+                    measured = ~np.isnan(gradient[:, nBPM])
+                    if np.sum(measured) <= fit_order:
+                        continue
+                    x = dCM[measured]
+                    y = gradient[measured, nBPM]
                     rm[nBPM, i] = np.polyfit(x, y, fit_order)[fit_order - 1]
                     error[nBPM, i] = np.sqrt(np.mean((rm[nBPM, i] * x - y).T ** 2))
+            else:
+                dCM = max_step
+                cm_steps[n_dim][:, nCM] = dCM
+                rm[:, i] = gradient / dCM
             i = i + 1
             SC.set_cm_setpoints(cm_ords[n_dim][nCM], cmstart[nCM], skewness=bool(n_dim))
     rm[np.isnan(rm)] = 0
-- 
2.43.0


From 6f5d040c6717bc0883774a649339591b26417d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:43 +0000
Subject: [PATCH 22/38] fix: measured response matrix rejected a single
 amplitude, pseudo-orbit readings did not fit in

---
 pySC/lattice_properties/response_measurement.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pySC/lattice_properties/response_measurement.py b/pySC/lattice_properties/response_measurement.py
index 2bae47b..84401c3 100644
--- a/pySC/lattice_properties/response_measurement.py
+++ b/pySC/lattice_properties/response_measurement.py
@@ -8,7 +8,7 @@ LOGGER = logging_tools.get_logger(__name__)
 
 
 def response_matrix(SC, amp, bpm_ords, cm_ords, mode='fixedKick', n_steps=2, fit_order=1):
-    if ((not isinstance(amp, list) and not len(amp) == 1) or
+    if ((not isinstance(amp, list) and np.size(amp) != 1) or
             (isinstance(amp, list) and (len(amp[0]) != len(cm_ords[0]) or len(amp[1]) != len(cm_ords[1])))):
         raise ValueError('response_matrix amplitude must be defined as single value or '
                          'array matching the number of used HCM and VCM.')
@@ -18,10 +18,10 @@ def response_matrix(SC, amp, bpm_ords, cm_ords, mode='fixedKick', n_steps=2, fit
                  f'{len(cm_ords[0])}|{len(cm_ords[1])} CMs with {mode=} and '
                  f'amplitudes {np.mean(amp[0])}|{np.mean(amp[1])} using {n_steps} steps ...')
     n_hcm, n_vcm = cm_ords[0].shape[0], cm_ords[1].shape[0]
-    rm = np.full((2 * SC.INJ.nTurns * bpm_ords.shape[0], n_hcm + n_vcm), np.nan)
-    error = np.full((2 * SC.INJ.nTurns * bpm_ords.shape[0], n_hcm + n_vcm), np.nan)
     cm_steps = [np.zeros((n_steps, n_hcm)), np.zeros((n_steps, n_vcm))]
     bref = np.ravel(bpm_reading(SC, bpm_ords=bpm_ords)[0])
+    rm = np.full((len(bref), n_hcm + n_vcm), np.nan)
+    error = np.full((len(bref), n_hcm + n_vcm), np.nan)
     if SC.INJ.trackMode == 'ORB' and np.sum(np.isnan(bref)):
         raise ValueError('No closed orbit found.')
     i = 0
-- 
2.43.0


From a2beeb256cf4818fba7bf044a209d4587a04e528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:43 +0000
Subject: [PATCH 23/38] fix: corrector steps in response measurement: short
 beam reach raised ValueError, reading and step did not match

---
 pySC/lattice_properties/response_measurement.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pySC/lattice_properties/response_measurement.py b/pySC/lattice_properties/response_measurement.py
index 84401c3..5247429 100644
--- a/pySC/lattice_properties/response_measurement.py
+++ b/pySC/lattice_properties/response_measurement.py
@@ -97,15 +97,16 @@ def _kick_amplitude(SC, bref, bpm_ords, cm_ord, amp, skewness: bool, mode):
         max_pos, max_pos_ref = np.sum(~np.isnan(bpm_readings_ravel)) / 2, np.sum(~np.isnan(bref)) / 2
         if max_pos_ref <= max_pos:
             if mode == "fixedOffset":
-                max_step = max_step * amp / np.max(np.abs(bpm_readings_ravel - bref))
+                max_step = max_step * amp / np.nanmax(np.abs(bpm_readings_ravel - bref))
             else:
                 break
         else:
             max_step *= decrease_factor
             LOGGER.debug(
-                f'Insufficient beam reach ({max_pos:d}/{max_pos_ref:d}). '
+                f'Insufficient beam reach ({max_pos:.0f}/{max_pos_ref:.0f}). '
                 f'cm_step reduced to {1E6 * max_step:.1f}urad.')
-    return max_step, np.ravel(bpm_reading(SC, bpm_ords=bpm_ords)[0]) - bref
+    SC, max_step, bpm_readings_ravel = _try_setpoint(SC, bpm_ords, cm_ord, cmstart, max_step, skewness)
+    return max_step, bpm_readings_ravel - bref
 
 
 def _try_setpoint(SC, bpm_ords, cm_ord, cmstart, max_step, skewness):
-- 
2.43.0


From 5895157e12ec38f27e46f97f4f04973fb7b491b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:43 +0000
Subject: [PATCH 24/38] fix: dispersion over more than two steps raised
 LinAlgError

---
 pySC/lattice_properties/response_measurement.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySC/lattice_properties/response_measurement.py b/pySC/lattice_properties/response_measurement.py
index 5247429..da1b755 100644
--- a/pySC/lattice_properties/response_measurement.py
+++ b/pySC/lattice_properties/response_measurement.py
@@ -76,7 +76,7 @@ def dispersion(SC, rf_step, bpm_ords=None, cav_ords=None, n_steps=2):
         SC.set_cavity_setpoints(cav_ords, rf_steps[:, nStep], 'Frequency', 'abs')
         dB[nStep, :] = np.ravel(bpm_reading(SC, bpm_ords=bpm_ords)[0]) - bref
     SC.set_cavity_setpoints(cav_ords, rf0, 'Frequency', 'abs')
-    return np.linalg.lstsq(np.linspace(-rf_step, rf_step, n_steps), dB)[0]
+    return np.linalg.lstsq(np.linspace(-rf_step, rf_step, n_steps)[:, np.newaxis], dB, rcond=None)[0][0]
 
 
 def _check_ords(SC, bpm_ords, cav_ords):
-- 
2.43.0


From 9547b606fd5c5bd9f64af5f8a1e2091957cf405d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:56 +0000
Subject: [PATCH 25/38] fix: injection fit minimises the rms distance of the
 readings, not their mean distance

---
 pySC/correction/injection_fit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySC/correction/injection_fit.py b/pySC/correction/injection_fit.py
index 95a35e1..bf97557 100644
--- a/pySC/correction/injection_fit.py
+++ b/pySC/correction/injection_fit.py
@@ -69,7 +69,7 @@ def _fit_bpm_data(s_bpm, bref):
 
 def _merit_function(x, SC, bref, ords_used):
     t = at_wrapper.lattice_track(SC.IDEALRING, np.concatenate((x, np.zeros(2))), 1, ords_used, keep_lattice=False)[[0, 2], 0, :, 0]
-    return np.sqrt(np.mean(bref - t) ** 2)
+    return np.sqrt(np.mean((bref - t) ** 2))
 
 
 def _log_initial_final_states(SC, delta_z0):
-- 
2.43.0


From 494564b08001061684903774dc256254a12f6f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:56 +0000
Subject: [PATCH 26/38] fix: chromaticity fit starts from the set points and
 ends at the solution

---
 pySC/correction/chroma.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pySC/correction/chroma.py b/pySC/correction/chroma.py
index 27b08ee..38de479 100644
--- a/pySC/correction/chroma.py
+++ b/pySC/correction/chroma.py
@@ -39,13 +39,13 @@ def fit_chroma(SC, s_ords, target_chroma=None, init_step_size=np.array([2, 2]),
     LOGGER.debug(f'Fitting chromaticities from {SC.RING.get_chrom()} to {target_chroma}.')  # first two elements
     SP0 = []
     for n in range(len(s_ords)):
-        SP0.append(np.zeros_like(s_ords[n]))
+        SP0.append(np.zeros(len(s_ords[n])))
     for nFam in range(len(s_ords)):
         for n in range(len(s_ords[nFam])):
             SP0[nFam][n] = SC.RING[s_ords[nFam][n]].SetPointB[2]
     fun = lambda x: _fit_chroma_fun(SC, s_ords, x, SP0, target_chroma)
     sol = fmin(fun, init_step_size, xtol=xtol, ftol=ftol)
-    # TODO needs to set the solution to SC
+    _fit_chroma_fun(SC, s_ords, sol, SP0, target_chroma)  # the last point evaluated is not necessarily the solution
     LOGGER.debug(f'        Final chromaticity: {SC.RING.get_chrom()}\n          Setpoints change: {sol}.')  # first two elements
     return SC
 
-- 
2.43.0


From 348afd8044025f0b80c1f6c37fd069d2dc518fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:50 +0000
Subject: [PATCH 27/38] fix: Gauss-Newton step of LOCO uses the Jacobian of the
 fitted parameters and weights once

---
 pySC/correction/loco.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pySC/correction/loco.py b/pySC/correction/loco.py
index 99568b4..304d1d8 100644
--- a/pySC/correction/loco.py
+++ b/pySC/correction/loco.py
@@ -92,12 +92,13 @@ def loco_correction_lm(initial_guess0, orm_model, orm_measured, Jn, lengths, inc
 def loco_correction_ng(initial_guess0, orm_model, orm_measured, J, lengths, including_fit_parameters, s_cut, weights=1, LM_lambda=0):
     initial_guess = initial_guess0.copy()
     mask = _get_parameters_mask(including_fit_parameters, lengths)
-    residuals = objective(initial_guess[mask], orm_measured - orm_model, J[mask, :, :], weights)
+    masked_jacobian = J[mask, :, :]
+    residuals = objective(initial_guess[mask], orm_measured - orm_model, masked_jacobian, 1)  # weights enter only once, below
     r = residuals.reshape(np.transpose(orm_model).shape)
-    t2 = np.zeros([len(initial_guess[mask]), 1])
-    for i in range(len(initial_guess[mask])):
-        t2[i] = np.sum(np.dot(np.dot(J[i].T, weights), r.T))
-    return get_inverse(J[mask, :, :], t2, s_cut, weights, LM_lambda=LM_lambda)
+    t2 = np.zeros([len(masked_jacobian), 1])
+    for i in range(len(masked_jacobian)):
+        t2[i] = np.sum(np.dot(np.dot(masked_jacobian[i].T, weights), r.T))
+    return get_inverse(masked_jacobian, t2, s_cut, weights, LM_lambda=LM_lambda)
 
 
 def objective(masked_params, orm_residuals, masked_jacobian, weights):
-- 
2.43.0


From e4d68b1607279176c8c95ce0382460331849dada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:51 +0000
Subject: [PATCH 28/38] fix: dispersion part of the LOCO Jacobian uses the same
 ring as the response matrix

---
 pySC/correction/loco.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pySC/correction/loco.py b/pySC/correction/loco.py
index 304d1d8..bf82263 100644
--- a/pySC/correction/loco.py
+++ b/pySC/correction/loco.py
@@ -50,11 +50,13 @@ def generating_quads_response_matrices(args):
         SC.set_magnet_setpoints(quad_index, -dk, skewness, order, method)
         return C_measured - C_model
 
-    dispersion_model = SCgetModelDispersion(SC, used_bpm_indexes, CAVords=cav_ords)
+    dispersion_model = SCgetModelDispersion(SC, used_bpm_indexes, CAVords=cav_ords, trackMode=trackMode,
+                                            rfStep=rf_step, useIdealRing=useIdealRing)
     SC.set_magnet_setpoints(quad_index, dk, skewness, order, method)
     C_measured = SCgetModelRM(SC, used_bpm_indexes, used_cor_indexes, dkick=correctors_kick, useIdealRing=useIdealRing,
                               trackMode=trackMode)
-    dispersion_meas = SCgetModelDispersion(SC, used_bpm_indexes, CAVords=cav_ords, rfStep=rf_step)
+    dispersion_meas = SCgetModelDispersion(SC, used_bpm_indexes, CAVords=cav_ords, trackMode=trackMode,
+                                           rfStep=rf_step, useIdealRing=useIdealRing)
     SC.set_magnet_setpoints(quad_index, -dk, skewness, order, method)
     return np.hstack((C_measured - C_model, (dispersion_meas - dispersion_model).reshape(-1, 1)))
 
-- 
2.43.0


From 3906de80ab47d49d46d06da56717ed2283f8253a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:57 +0000
Subject: [PATCH 29/38] fix: response measurement for LOCO puts limited
 correctors back

---
 pySC/correction/loco.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pySC/correction/loco.py b/pySC/correction/loco.py
index bf82263..1ff730f 100644
--- a/pySC/correction/loco.py
+++ b/pySC/correction/loco.py
@@ -73,9 +73,10 @@ def measure_closed_orbit_response_matrix(SC, bpm_ords, cm_ords, dkick=1e-5):
     cnt = 0
     for n_dim in range(2):
         for cm_ord in cm_ords[n_dim]:
+            initial_setpoint = SC.get_cm_setpoints(cm_ord, skewness=bool(n_dim))
             SC.set_cm_setpoints(cm_ord, dkick, skewness=bool(n_dim), method=SETTING_ADD)
             closed_orbits1 = bpm_reading(SC, bpm_ords=bpm_ords)[0]
-            SC.set_cm_setpoints(cm_ord, -dkick, skewness=bool(n_dim), method=SETTING_ADD)
+            SC.set_cm_setpoints(cm_ord, initial_setpoint, skewness=bool(n_dim))  # the step may be limited
             response_matrix[:, cnt] = np.ravel((closed_orbits1 - closed_orbits0) / dkick)
             cnt = cnt + 1
     return response_matrix
-- 
2.43.0


From 73f2c1742def5a07fee7f939d87975e5138e7fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:14 +0000
Subject: [PATCH 30/38] fix: SCsynchEnergyCorrection passed an argument
 correct_rf_frequency does not have

---
 pySC/matlab_index.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pySC/matlab_index.py b/pySC/matlab_index.py
index 082f0c9..59f6172 100644
--- a/pySC/matlab_index.py
+++ b/pySC/matlab_index.py
@@ -316,7 +316,8 @@ def SCsynchEnergyCorrection(SC, /, *, cavOrd=None, f_range=(-1E3, 1E3), nSteps=1
                             plotProgress=False, verbose=False):
     init_nturns = SC.INJ.nTurns
     SC.INJ.nTurns = nTurns
-    SC = correct_rf_frequency(SC, cav_ords=cavOrd, f_range=f_range, n_steps=nSteps, minTurns=minTurns,
+    # minTurns is a constant of correct_rf_frequency
+    SC = correct_rf_frequency(SC, cav_ords=cavOrd, f_range=f_range, n_steps=nSteps,
                            plot_results=plotResults, plot_progress=plotProgress, )
     SC.INJ.nTurns = init_nturns
     return SC
-- 
2.43.0


From 6fb40d74176e018248803c30bf4299f7947ff194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:22 +0000
Subject: [PATCH 31/38] fix: MATLAB wrappers of the RF corrections put the
 number of turns back when the correction fails

---
 pySC/matlab_index.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/pySC/matlab_index.py b/pySC/matlab_index.py
index 59f6172..6abcacb 100644
--- a/pySC/matlab_index.py
+++ b/pySC/matlab_index.py
@@ -317,9 +317,11 @@ def SCsynchEnergyCorrection(SC, /, *, cavOrd=None, f_range=(-1E3, 1E3), nSteps=1
     init_nturns = SC.INJ.nTurns
     SC.INJ.nTurns = nTurns
     # minTurns is a constant of correct_rf_frequency
-    SC = correct_rf_frequency(SC, cav_ords=cavOrd, f_range=f_range, n_steps=nSteps,
-                           plot_results=plotResults, plot_progress=plotProgress, )
-    SC.INJ.nTurns = init_nturns
+    try:
+        SC = correct_rf_frequency(SC, cav_ords=cavOrd, f_range=f_range, n_steps=nSteps,
+                               plot_results=plotResults, plot_progress=plotProgress, )
+    finally:
+        SC.INJ.nTurns = init_nturns
     return SC
 
 
@@ -327,8 +329,10 @@ def SCsynchPhaseCorrection(SC, /, *, cavOrd=None, nSteps=15, nTurns=20, plotResu
                            verbose=False):
     init_nturns = SC.INJ.nTurns
     SC.INJ.nTurns = nTurns
-    SC = correct_rf_phase(SC, cav_ords=cavOrd, n_steps=nSteps, plot_results=plotResults, plot_progress=plotProgress, )
-    SC.INJ.nTurns = init_nturns
+    try:
+        SC = correct_rf_phase(SC, cav_ords=cavOrd, n_steps=nSteps, plot_results=plotResults, plot_progress=plotProgress, )
+    finally:
+        SC.INJ.nTurns = init_nturns
     return SC
 
 
-- 
2.43.0


From a7a8f201aad074e2b8569860a09b23961a5db7f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:16 +0000
Subject: [PATCH 32/38] fix: verification of a machine with slave magnets
 raised TypeError

---
 pySC/core/simulated_commissioning.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySC/core/simulated_commissioning.py b/pySC/core/simulated_commissioning.py
index d0a564c..3e5c083 100644
--- a/pySC/core/simulated_commissioning.py
+++ b/pySC/core/simulated_commissioning.py
@@ -1026,7 +1026,7 @@ class SimulatedCommissioning:
                         LOGGER.warning(f'Field "{field:s}" in SC.SIG.Magnet doesnt match lattice element (Magnet ord: {ord:d})')
             if hasattr(self.RING[ord],'MasterOf'):
                 for cOrd in self.RING[ord].MasterOf:
-                    for field in self.RING[cOrd]:
+                    for field in vars(self.RING[cOrd]):
                         if not hasattr(self.RING[ord],field): 
                             LOGGER.warning(f'Child magnet (ord: {ord:d}) has different field "{field:s}" than master magnet (ord: %{cOrd:d}).')
        
-- 
2.43.0


From a8b4bae0eb3ca70e5342834d21e2b43a0059aa04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:16 +0000
Subject: [PATCH 33/38] fix: tune and its fit ran with the arguments of another
 toolbox and raised TypeError

---
 pySC/correction/tune.py | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/pySC/correction/tune.py b/pySC/correction/tune.py
index 37abc15..3dcfc4d 100644
--- a/pySC/correction/tune.py
+++ b/pySC/correction/tune.py
@@ -130,24 +130,22 @@ def plot_scan(fin_trans, max_turns, first_quads, rel_quad_changes):
     return f, [ax1, ax2, ax3]
 
 
-def fit_tune(SC, q_ords, target_tune=None, xtol=1E-4, ftol=1E-3, fit_integer=True):
+def fit_tune(SC, q_ords, target_tune=None, xtol=1E-4, ftol=1E-3, fit_integer=True, init_step_size=np.array([0.01, 0.01])):
     #  TODO check if experimantally feasible
     if target_tune is None:
         target_tune = tune(SC, fit_integer, ideal=True)
     LOGGER.debug(f'Fitting tunes from [{tune(SC, fit_integer)}] to [{target_tune}].')
-    SP0 = np.zeros((len(q_ords), len(q_ords[0])))  # TODO can the lengts vary
-    for nFam in range(len(q_ords)):
-        for n in range(len(q_ords[nFam])):
-            SP0[nFam][n] = SC.RING[q_ords[nFam][n]].SetPointB[1]
+    SP0 = [np.array([SC.RING[ord].SetPointB[1] for ord in family]) for family in q_ords]
     fun = lambda x: _fit_tune_fun(SC, q_ords, x, SP0, target_tune, fit_integer)
-    sol = fmin(fun, xtol=xtol, ftol=ftol)
-    SC.set_magnet_setpoints(q_ords, sol + SP0, False, 1, method='abs', dipole_compensation=True)
+    sol = fmin(fun, init_step_size, xtol=xtol, ftol=ftol)
+    _fit_tune_fun(SC, q_ords, sol, SP0, target_tune, fit_integer)
     LOGGER.debug(f'       Final tune: [{tune(SC, fit_integer)}]\n  Setpoints change: [{sol}]')
     return SC
 
 
 def _fit_tune_fun(SC, q_ords, setpoints, init_setpoints, target, fit_integer):
-    SC.set_magnet_setpoints(q_ords, setpoints + init_setpoints, False, 1, method='abs', dipole_compensation=True)
+    for n in range(len(q_ords)):
+        SC.set_magnet_setpoints(q_ords[n], setpoints[n] + init_setpoints[n], False, 1, method='abs', dipole_compensation=True)
     nu = tune(SC, fit_integer)
     return np.sqrt(np.mean((nu - target) ** 2))
 
@@ -155,7 +153,7 @@ def _fit_tune_fun(SC, q_ords, setpoints, init_setpoints, target, fit_integer):
 def tune(SC, fit_integer: bool = False, ideal: bool = False):
     ring = SC.IDEALRING if ideal else SC.RING
     if fit_integer:
-        ld, _, _ = atlinopt(ring, 0, range(len(ring) + 1))
-        return ld[-1].mu / 2 / np.pi
-    _, nu, _ = atlinopt(ring, 0)
-    return nu
+        _, _, ld = atlinopt(ring, range(len(ring) + 1))
+        return ld[-1].mu[0:2] / 2 / np.pi
+    _, ring_data, _ = atlinopt(ring)
+    return ring_data.tune[0:2]
-- 
2.43.0


From 347ba4f214bb77bb4da846d2d1709782b9efaae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:16 +0000
Subject: [PATCH 34/38] fix: closed orbit in magnets could not be evaluated
 (indices and return values of another toolbox)

---
 pySC/lattice_properties/magnet_orbit.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pySC/lattice_properties/magnet_orbit.py b/pySC/lattice_properties/magnet_orbit.py
index 75423f0..d75ee25 100644
--- a/pySC/lattice_properties/magnet_orbit.py
+++ b/pySC/lattice_properties/magnet_orbit.py
@@ -8,15 +8,15 @@ LOGGER = logging_tools.get_logger(__name__)
 def SCgetCOD(SC, ords=None, plot=False):
     if ords is None:
         ords = SC.ORD.Magnet
-    T = at_wrapper.findorbit6(SC.RING, ords)
-    if any(np.isnan(T)):
+    _, T = at_wrapper.findorbit6(SC.RING, ords)
+    if np.any(np.isnan(T)):
         LOGGER.error('Closed orbit could not be found.')
-        COD = np.nan(2, len(ords))
+        COD = np.full((2, len(ords)), np.nan)
         return COD
     magOffset = np.zeros((2, len(ords)))
     for i, ord in enumerate(ords):
-        magOffset[:, i] = SC.RING[ord].T2([1, 3])
-    COD = T[[1, 3], :] - magOffset
+        magOffset[:, i] = SC.RING[ord].T2[[0, 2]]
+    COD = T[:, [0, 2]].T - magOffset
     if plot:
         sPos = at_wrapper.findspos(SC.RING)[ords]
         ylabelStr = ['$\Delta x$ [mm]', '$\Delta y$ [mm]']
@@ -26,7 +26,7 @@ def SCgetCOD(SC, ords=None, plot=False):
             ax = plt.subplot(2, 1, nDim + 1)
             plt.plot(sPos, 1E3 * COD[nDim, :], linewidth=2)
             plt.plot(sPos, 1E3 * magOffset[nDim, :], linewidth=2)
-            plt.plot(sPos, 1E3 * T[2 * nDim, :], linewidth=2)
+            plt.plot(sPos, 1E3 * T[:, 2 * nDim], linewidth=2)
             plt.legend(['COD in magnets', 'Magnet offset', 'Orbit'])
             plt.xlabel('s [m]')
             plt.ylabel(ylabelStr[nDim])
-- 
2.43.0


From 8083496a008d8af815c966696598cd3cd68ca849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:09 +0000
Subject: [PATCH 35/38] fix: LOCO lattice correction returned None instead of
 the machine

---
 pySC/correction/loco_wrapper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySC/correction/loco_wrapper.py b/pySC/correction/loco_wrapper.py
index 1aff83e..d5a8033 100644
--- a/pySC/correction/loco_wrapper.py
+++ b/pySC/correction/loco_wrapper.py
@@ -105,7 +105,7 @@ def apply_lattice_correction(SC, fit_parameters, dipole_compensation=True, dampi
                 SC.set_magnet_setpoints(ord, setpoint, False, 1, dipole_compensation=dipole_compensation)
             elif field == 'SetPointA':  # Skew quadrupole
                 SC.set_magnet_setpoints(ord, setpoint, True, 1)
-    SC = SC.update_magnets(SC.ORD.Magnet)
+    SC.update_magnets(SC.ORD.Magnet)
     return SC
 
 
-- 
2.43.0


From c6a16e322e97484aca76dd88d76deabc4c109399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:09 +0000
Subject: [PATCH 36/38] fix: LOCO measurement scales each column by its own
 corrector step and hands options on

---
 pySC/correction/loco_wrapper.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pySC/correction/loco_wrapper.py b/pySC/correction/loco_wrapper.py
index d5a8033..423163d 100644
--- a/pySC/correction/loco_wrapper.py
+++ b/pySC/correction/loco_wrapper.py
@@ -59,8 +59,8 @@ def loco_measurement(SC, CMstep, deltaRF, BPMords, CMords, **kwargs):
     loco_meas_data.RF = SC.RING[SC.ORD.RF[0]].Frequency
     loco_meas_data.DeltaRF = deltaRF
     loco_meas_data.BPMSTD = 1E-3 * np.ones(2 * len(BPMords))  # [mm]
-    RM, Err, CMsteps = response_matrix(SC, CMstep, BPMords, CMords, *kwargs)
-    CMsteps = [np.max(np.abs(CMsteps[0]), axis=1), np.max(np.abs(CMsteps[1]), axis=1)]
+    RM, Err, CMsteps = response_matrix(SC, CMstep, BPMords, CMords, **kwargs)
+    CMsteps = [np.max(np.abs(CMsteps[0]), axis=0), np.max(np.abs(CMsteps[1]), axis=0)]
     loco_meas_data.M = 2 * 1000 * np.concatenate((CMsteps[0], CMsteps[1])) * RM
     loco_meas_data.Eta = deltaRF * 1000 * dispersion(SC, rf_step=deltaRF, bpm_ords=BPMords, n_steps=3)
     return loco_meas_data, CMsteps
-- 
2.43.0


From e6149f1b8ae5e550c86849e945e627f34fe6e108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:09 +0000
Subject: [PATCH 37/38] fix: LOCO corrector structure without steps raised
 TypeError

---
 pySC/correction/loco_wrapper.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pySC/correction/loco_wrapper.py b/pySC/correction/loco_wrapper.py
index 423163d..0d289f9 100644
--- a/pySC/correction/loco_wrapper.py
+++ b/pySC/correction/loco_wrapper.py
@@ -43,6 +43,8 @@ def loco_cm_structure(SC, cmords=None, cm_steps=None, **kwargs):
                            HCMsteps=np.ones(n_hcms), VCMsteps=np.ones(n_vcms),
                            HCMKicks=2e3 * np.ones(n_hcms), VCMKicks=2e3 * np.ones(n_vcms)  # [mrad] TODO why 2?
                            ))
+    if cm_steps is None:
+        cm_steps = 1
     if isinstance(cm_steps, (int, float)) or len(cm_steps) == 1:
         cm_data.HCMsteps *= cm_steps
         cm_data.VCMsteps *= cm_steps
-- 
2.43.0


From a682aca56bd6cdfc950d97a84e25bc6dc5813f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:09 +0000
Subject: [PATCH 38/38] fix: LOCO diagnostic correction raised TypeError for
 every kind of fit and changed the fitted gains

---
 pySC/correction/loco_wrapper.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pySC/correction/loco_wrapper.py b/pySC/correction/loco_wrapper.py
index 0d289f9..0f87f1d 100644
--- a/pySC/correction/loco_wrapper.py
+++ b/pySC/correction/loco_wrapper.py
@@ -112,7 +112,7 @@ def apply_lattice_correction(SC, fit_parameters, dipole_compensation=True, dampi
 
 
 def applyDiagnosticCorrection(SC, cm_step, CMData, BPMData, CMcalOffsets=None, meanToZero=False, outlierRemovalAt=None):
-    if not isinstance(cm_step, list) and not len(cm_step) == 1:
+    if not isinstance(cm_step, list) and not np.size(cm_step) == 1:
         raise ValueError(
             'CM steps must be defined as single value or cell array matching the number of used HCM and VCM.')
     if not isinstance(cm_step, list):
@@ -132,11 +132,11 @@ def applyDiagnosticCorrection(SC, cm_step, CMData, BPMData, CMcalOffsets=None, m
                 fit_cal_cm = fit_cal_cm + np.mean(1 - fit_cal_cm)
             i = 0
             for ord in CMData[fields[nDim] + 'CMIndex']:
-                SC.RING[ord][sc_fields[nDim]][0] = SC.RING[ord][sc_fields[nDim]][0] + (1 - fit_cal_cm[i])
+                getattr(SC.RING[ord], sc_fields[nDim])[0] += 1 - fit_cal_cm[i]
                 i = i + 1
         if BPMData.FitGains:
-            fit_cal_bpm = BPMData[fields[nDim] + 'BPMGain']
-            if not outlierRemovalAt == []:
+            fit_cal_bpm = BPMData[fields[nDim] + 'BPMGain'].copy()
+            if outlierRemovalAt is not None:
                 fit_cal_bpm[np.abs(1 - fit_cal_bpm) >= outlierRemovalAt] = 1
             if meanToZero:
                 fit_cal_bpm = fit_cal_bpm + np.mean(1 - fit_cal_bpm)
-- 
2.43.0

