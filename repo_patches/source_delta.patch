From 4934196601d25871cb6fd37af1a13ab875e32cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:14 +0000
Subject: [PATCH 01/46] fix: very_deep_copy fills the design lattice of the
 copy from the design lattice

---
 pySC/core/simulated_commissioning.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pySC/core/simulated_commissioning.py b/pySC/core/simulated_commissioning.py
index ed5ff31..d502425 100644
--- a/pySC/core/simulated_commissioning.py
+++ b/pySC/core/simulated_commissioning.py
@@ -951,6 +951,7 @@ class SimulatedCommissioning:
         copied_structure.IDEALRING = self.IDEALRING.deepcopy()
         for ind, element in enumerate(self.RING):
             copied_structure.RING[ind] = element.deepcopy()
+        for ind, element in enumerate(self.IDEALRING):
             copied_structure.IDEALRING[ind] = element.deepcopy()
         return copied_structure
 
-- 
2.43.0


From 85e64d5d2827020f4b9f3f13168c52d4084aff71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:14 +0000
Subject: [PATCH 02/46] fix: SCgetModelRING no longer zeroes the dipole
 setpoints of the machine

---
 pySC/lattice_properties/response_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pySC/lattice_properties/response_model.py b/pySC/lattice_properties/response_model.py
index 5c3dea5..0fc2f8a 100644
--- a/pySC/lattice_properties/response_model.py
+++ b/pySC/lattice_properties/response_model.py
@@ -160,8 +160,8 @@ def SCgetModelRING(SC: SimulatedCommissioning, includeAperture: bool =False) ->
     ring = SC.IDEALRING.deepcopy()
     for ord in range(len(SC.RING)):
         if hasattr(SC.RING[ord], 'SetPointA') and hasattr(SC.RING[ord], 'SetPointB'):
-            ring[ord].PolynomA = SC.RING[ord].SetPointA
-            ring[ord].PolynomB = SC.RING[ord].SetPointB
+            ring[ord].PolynomA = SC.RING[ord].SetPointA.copy()
+            ring[ord].PolynomB = SC.RING[ord].SetPointB.copy()
             ring[ord].PolynomA[0] = 0.0
             ring[ord].PolynomB[0] = 0.0
         if includeAperture:
-- 
2.43.0


From 8e0d0c977850bf6c7269bd4a269b0b2acc732327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:14 +0000
Subject: [PATCH 03/46] fix: SCgetModelRING works with includeAperture

---
 pySC/lattice_properties/response_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pySC/lattice_properties/response_model.py b/pySC/lattice_properties/response_model.py
index 0fc2f8a..103dd9d 100644
--- a/pySC/lattice_properties/response_model.py
+++ b/pySC/lattice_properties/response_model.py
@@ -165,9 +165,9 @@ def SCgetModelRING(SC: SimulatedCommissioning, includeAperture: bool =False) ->
             ring[ord].PolynomA[0] = 0.0
             ring[ord].PolynomB[0] = 0.0
         if includeAperture:
-            if 'EApertures' in SC.RING[ord]:
+            if hasattr(SC.RING[ord], 'EApertures'):
                 ring[ord].EApertures = SC.RING[ord].EApertures
-            if 'RApertures' in SC.RING[ord]:
+            if hasattr(SC.RING[ord], 'RApertures'):
                 ring[ord].RApertures = SC.RING[ord].RApertures
         if len(SC.ORD.RF) and hasattr(SC.RING[ord], 'Frequency'):
             for field in RF_PROPERTIES:
-- 
2.43.0


From cbd96b7a008e0f91405412d299563675a6cb8305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:14 +0000
Subject: [PATCH 04/46] fix: set_systematic_multipole_errors keeps the given
 table and uses the column of each target field

---
 pySC/core/simulated_commissioning.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pySC/core/simulated_commissioning.py b/pySC/core/simulated_commissioning.py
index d502425..d0accad 100644
--- a/pySC/core/simulated_commissioning.py
+++ b/pySC/core/simulated_commissioning.py
@@ -477,13 +477,13 @@ class SimulatedCommissioning:
         if BA.ndim != 2 or BA.shape[1] != 2:
             raise ValueError("BA has to  be numpy.array of shape N x 2.")
         ind, source = (1, "A") if skewness else (0, "B")
-        newBA = BA[:, :]
+        newBA = BA.copy()
         newBA[order, ind] = 0
         for ord in ords:
-            for target in ("A", "B"):
+            for target_ind, target in enumerate(("B", "A")):
                 attr_name = f'SysPol{target}From{source}'
                 syspol = getattr(self.RING[ord], attr_name) if hasattr(self.RING[ord], attr_name) else DotDict()
-                syspol[order] = newBA[:, ind]
+                syspol[order] = newBA[:, target_ind]
                 setattr(self.RING[ord], attr_name, syspol)
 
     def set_random_multipole_errors(self, ords: ndarray, BA):
-- 
2.43.0


From c390abe023f11f53a8cd250a091d1d44eee4cff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:14 +0000
Subject: [PATCH 05/46] fix: register_supports keeps uncertainties of other
 support types at the same ordinate

---
 pySC/core/simulated_commissioning.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pySC/core/simulated_commissioning.py b/pySC/core/simulated_commissioning.py
index d0accad..85bf581 100644
--- a/pySC/core/simulated_commissioning.py
+++ b/pySC/core/simulated_commissioning.py
@@ -430,7 +430,10 @@ class SimulatedCommissioning:
         for ind in np.ravel(support_ords):
             setattr(self.RING[ind], f"{support_type}Offset", np.zeros(3))  # [x,y,z]
             setattr(self.RING[ind], f"{support_type}Roll", np.zeros(3))  # [az,ax,ay]
-            self.SIG.Support[ind] = DotDict()
+            if ind not in self.SIG.Support.keys():
+                self.SIG.Support[ind] = DotDict()
+            for key in [key for key in self.SIG.Support[ind].keys() if key.startswith(support_type)]:
+                del self.SIG.Support[ind][key]
         for ord_pair in support_ords.T:
             for key, value in kwargs.items():
                 if isinstance(value, list):
-- 
2.43.0


From c34dac51fc0a210262b767d0d4d3dead6355509e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:14 +0000
Subject: [PATCH 06/46] fix: set_cavity_setpoints rejects unknown cavity
 parameters

---
 pySC/core/simulated_commissioning.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pySC/core/simulated_commissioning.py b/pySC/core/simulated_commissioning.py
index 85bf581..c13d188 100644
--- a/pySC/core/simulated_commissioning.py
+++ b/pySC/core/simulated_commissioning.py
@@ -796,6 +796,8 @@ class SimulatedCommissioning:
                 SC.set_cavity_setpoints(ords=SC.ORD.RF[0], setpoints=1E3, param='Frequency', method='add')
 
         """
+        if param not in RF_PROPERTIES:
+            raise ValueError(f"Unknown cavity parameter ``{param}`` found. Allowed are {RF_PROPERTIES}.")
         ords_1d, setpoints_1d = classdef_tools.check_input_and_setpoints(method, ords, setpoints)
         setpoint_str = f"{param}{SETPOINT}"
         if method == SETTING_REL:
-- 
2.43.0


From aef3286c4a198309c67f8a5c3f80387f4f512bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:14 +0000
Subject: [PATCH 07/46] fix: integer setpoints are not truncated

---
 pySC/utils/classdef_tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySC/utils/classdef_tools.py b/pySC/utils/classdef_tools.py
index 9641d74..8514826 100644
--- a/pySC/utils/classdef_tools.py
+++ b/pySC/utils/classdef_tools.py
@@ -55,7 +55,7 @@ def check_input_and_setpoints(method, ords, setpoints):
     if method not in SETTING_METHODS:
         raise ValueError(f'Unsupported setpoint method: {method}. Allowed options are: {SETTING_METHODS}.')
     ords_1d = np.ravel(np.array([ords], dtype=int))
-    setpoints_1d = np.ravel(np.array([setpoints]))
+    setpoints_1d = np.ravel(np.array([setpoints], dtype=float))
     if len(setpoints_1d) not in (1, len(ords_1d)):
         raise ValueError(f'Setpoints have to have length of 1 or matching to the length or ordinates.')
     return ords_1d, (np.repeat(setpoints_1d, len(ords_1d)) if len(setpoints_1d) == 1 else setpoints_1d)
-- 
2.43.0


From a6ea6c832dd87ccd6d412fd4730cfa59aef50576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:53 +0000
Subject: [PATCH 08/46] fix: register_cavities rejects uncertainties that would
 have no effect

---
 pySC/core/constants.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySC/core/constants.py b/pySC/core/constants.py
index 63b65aa..dc9fe0d 100644
--- a/pySC/core/constants.py
+++ b/pySC/core/constants.py
@@ -1,5 +1,5 @@
 from typing import Dict, Tuple
-GENERIC_FIELDS: Tuple[str, str, str] = ("Setpoint", "Offset", "CalError")
+GENERIC_FIELDS: Tuple[str, str] = ("Offset", "CalError")
 RF_PROPERTIES: Tuple[str, str, str] = ('Voltage', 'Frequency', 'TimeLag')
 RF_ERROR_FIELDS: Tuple[str] = tuple(f"{prop}{field}" for prop in RF_PROPERTIES for field in GENERIC_FIELDS)
 SUPPORT_TYPES:  Tuple[str, str, str] = ('Section', 'Plinth', 'Girder')  #  DO NOT change the order important for offset and roll calculation
-- 
2.43.0


From f564000d0cde800983c54f1cf369ca9eba80b7d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:53 +0000
Subject: [PATCH 09/46] fix: verify_structure handles magnets with children

---
 pySC/core/simulated_commissioning.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySC/core/simulated_commissioning.py b/pySC/core/simulated_commissioning.py
index c13d188..ea2f609 100644
--- a/pySC/core/simulated_commissioning.py
+++ b/pySC/core/simulated_commissioning.py
@@ -1023,7 +1023,7 @@ class SimulatedCommissioning:
                         LOGGER.warning(f'Field "{field:s}" in SC.SIG.Magnet doesnt match lattice element (Magnet ord: {ord:d})')
             if hasattr(self.RING[ord],'MasterOf'):
                 for cOrd in self.RING[ord].MasterOf:
-                    for field in self.RING[cOrd]:
+                    for field in vars(self.RING[cOrd]):
                         if not hasattr(self.RING[ord],field): 
                             LOGGER.warning(f'Child magnet (ord: {ord:d}) has different field "{field:s}" than master magnet (ord: %{cOrd:d}).')
        
-- 
2.43.0


From 23bfcd4f2bc8cb9d3c8a71ed453482275cf8a16e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:53 +0000
Subject: [PATCH 10/46] fix: register_magnets rejects non-unique masters before
 changing anything

---
 pySC/core/simulated_commissioning.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pySC/core/simulated_commissioning.py b/pySC/core/simulated_commissioning.py
index ea2f609..e3b2b1e 100644
--- a/pySC/core/simulated_commissioning.py
+++ b/pySC/core/simulated_commissioning.py
@@ -314,6 +314,8 @@ class SimulatedCommissioning:
 
         """
         self._check_kwargs(kwargs, MAGNET_TYPE_FIELDS + MAGNET_ERROR_FIELDS)
+        if 'MasterOf' in kwargs.keys() and len(np.unique(ords)) != len(ords):
+            raise ValueError(f"Non-unique element indices {ords} found together with ``MasterOf``")
         nvpairs = {key: value for key, value in kwargs.items() if key not in MAGNET_TYPE_FIELDS}
         self.ORD.Magnet = np.unique(np.concatenate((self.ORD.Magnet, ords)))
         if 'SkewQuad' in kwargs.keys():
-- 
2.43.0


From cbadb676417d0a00231376a326eb0dd31e601698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:53 +0000
Subject: [PATCH 11/46] fix: stitch and balance keep the given reference

---
 pySC/correction/orbit_trajectory.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pySC/correction/orbit_trajectory.py b/pySC/correction/orbit_trajectory.py
index 2d0d444..03c4b4b 100644
--- a/pySC/correction/orbit_trajectory.py
+++ b/pySC/correction/orbit_trajectory.py
@@ -142,7 +142,7 @@ def stitch(SC, response_matrix, reference=None, cm_ords=None, bpm_ords=None, n_b
             raise RuntimeError("Not enough transmission for stitching to work.")
 
     # Prepare reference
-    reference = reference.reshape(2, len(bpm_readings[0]))
+    reference = reference.reshape(2, len(bpm_readings[0])).copy()
     reference[:, len(bpm_ords):] = 0
     reference = reference.reshape(response_matrix.shape[0])
     Mplus = sc_tools.pinv(response_matrix, **pinv_params)
@@ -209,7 +209,7 @@ def balance(SC, response_matrix, reference=None, cm_ords=None, bpm_ords=None, ep
         raise ValueError("Balancing works only with full 2 turn transmission.")
 
     # Prepare reference
-    reference = reference.reshape(2, len(bpm_readings[0]))
+    reference = reference.reshape(2, len(bpm_readings[0])).copy()
     reference[:, len(bpm_ords):] = 0
     reference = reference.reshape(response_matrix.shape[0])
     Mplus = sc_tools.pinv(response_matrix, **pinv_params)
-- 
2.43.0


From e5ddaed526fbfdb358132b5f351c2ffd7f78dbb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:53 +0000
Subject: [PATCH 12/46] fix: stitch raises on setback

---
 pySC/correction/orbit_trajectory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySC/correction/orbit_trajectory.py b/pySC/correction/orbit_trajectory.py
index 03c4b4b..7e7c7f4 100644
--- a/pySC/correction/orbit_trajectory.py
+++ b/pySC/correction/orbit_trajectory.py
@@ -165,7 +165,7 @@ def stitch(SC, response_matrix, reference=None, cm_ords=None, bpm_ords=None, n_b
 
         # Check stopping criteria
         if transmission_history[-1] < transmission_history[-2]:
-            RuntimeError('Second turn stitching: FAIL Setback')
+            raise RuntimeError('Second turn stitching: FAIL Setback')
         if _is_repro(transmission_history, NREPRO) and transmission_history[-1] == bpm_readings.shape[1]:
             LOGGER.debug('Second turn stitching: Success')
             return SC
-- 
2.43.0


From 44bfd9b81e092644935c8b72b8cd86f7930b26cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:53 +0000
Subject: [PATCH 13/46] fix: model responses raise on unknown track mode

---
 pySC/lattice_properties/response_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pySC/lattice_properties/response_model.py b/pySC/lattice_properties/response_model.py
index 103dd9d..73855fe 100644
--- a/pySC/lattice_properties/response_model.py
+++ b/pySC/lattice_properties/response_model.py
@@ -51,7 +51,7 @@ def SCgetModelRM(SC, BPMords, CMords, trackMode='TBT', Z0=np.zeros(6), nTurns=1,
     LOGGER.info('Calculating model response matrix')
     track_methods = dict(TBT=at_wrapper.lattice_track, ORB=orbpass)
     if trackMode not in track_methods.keys():
-        ValueError(f'Unknown track mode {trackMode}. Valid values are {track_methods.keys()}')
+        raise ValueError(f'Unknown track mode {trackMode}. Valid values are {track_methods.keys()}')
     ring = SC.IDEALRING.deepcopy() if useIdealRing else SCgetModelRING(SC)
     trackmethod = track_methods[trackMode]
     if trackMode == 'ORB':
@@ -123,7 +123,7 @@ def SCgetModelDispersion(SC, BPMords, CAVords, trackMode='ORB', Z0=np.zeros(6),
     LOGGER.info('Calculating model dispersion')
     track_methods = dict(TBT=at_wrapper.lattice_track, ORB=orbpass)
     if trackMode not in track_methods.keys():
-        ValueError(f'Unknown track mode {trackMode}. Valid values are {track_methods.keys()}')
+        raise ValueError(f'Unknown track mode {trackMode}. Valid values are {track_methods.keys()}')
     ring = SC.IDEALRING.deepcopy() if useIdealRing else SCgetModelRING(SC)
     trackmethod = track_methods[trackMode]
     if trackMode == 'ORB':
-- 
2.43.0


From 7994b6bf3e8ab1a6015d03dd9d741087a0f48df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:53 +0000
Subject: [PATCH 14/46] fix: correlated beam sizes give bunches with the
 requested covariance

---
 pySC/core/beam.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySC/core/beam.py b/pySC/core/beam.py
index bffd73d..195c5b3 100644
--- a/pySC/core/beam.py
+++ b/pySC/core/beam.py
@@ -163,7 +163,7 @@ def generate_bunches(SC: SimulatedCommissioning, nParticles=None) -> ndarray:
     Z = np.tile(np.transpose(SC.INJ.randomInjectionZ * sc_tools.randnc(2, (1, 6)) + SC.INJ.Z0), nParticles)
     if nParticles != 1:
         V, L = np.linalg.eig(SC.INJ.beamSize)
-        Z += np.diag(np.sqrt(V)) @ L @ sc_tools.randnc(3, (6, nParticles))
+        Z += L @ np.diag(np.sqrt(V)) @ sc_tools.randnc(3, (6, nParticles))
     return SC.INJ.postFun(Z)
 
 
-- 
2.43.0


From fed0db9089db57eff67422abee700dc064a1968f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:27 +0000
Subject: [PATCH 15/46] fix: orbit_bba defines the options it uses

---
 pySC/correction/bba.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pySC/correction/bba.py b/pySC/correction/bba.py
index 77682aa..0c5fce4 100644
--- a/pySC/correction/bba.py
+++ b/pySC/correction/bba.py
@@ -50,8 +50,8 @@ def trajectory_bba(SC, bpm_ords, mag_ords, **kwargs):
 def orbit_bba(SC, bpm_ords, mag_ords, **kwargs):
     par = DotDict(dict(n_steps=10, fit_order=1, magnet_order=1, skewness=False, setpoint_method=SETTING_REL,
                        magnet_strengths=np.array([0.95, 1.05]), RMstruct=[], orbBumpWindow=5, BBABPMtarget=1E-3,
-                       maxNumOfDownstreamBPMs=len(SC.ORD.BPM), dipole_compensation=True,
-                       use_bpm_reading_for_orbit_bump_ref=False, plotResults=False))
+                       num_downstream_bpms=len(SC.ORD.BPM), dipole_compensation=True,
+                       use_bpm_reading_for_orbit_bump_ref=False, plot_results=False))
     par.update(**kwargs)
     par = _check_input(bpm_ords, mag_ords, par)
     if SC.INJ.trackMode == TRACK_TBT:
@@ -66,7 +66,6 @@ def orbit_bba(SC, bpm_ords, mag_ords, **kwargs):
             LOGGER.debug(f'BBA-BPM {j_bpm}/{bpm_ords.shape[1]}, n_dim = {n_dim}')
             bpm_ind = np.where(bpm_ords[n_dim, j_bpm] == SC.ORD.BPM)[0][0]
             m_ord = mag_ords[n_dim, j_bpm]
-            SC0 = SC.very_deep_copy
             bpm_pos, orbits = _data_measurement_orb(SC, m_ord, bpm_ind, j_bpm, n_dim, par,
                                                *_get_orbit_bump(SC, m_ord, bpm_ords[n_dim, j_bpm], n_dim, par))
             bba_offsets[n_dim, j_bpm], bba_offset_errors[n_dim, j_bpm] = _data_evaluation(SC, bpm_pos, orbits, par.magnet_strengths[n_dim, j_bpm], n_dim, m_ord, par)
-- 
2.43.0


From 8478b6ebaa3e964d6ea197a5a8b1e10f6ddba14a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:27 +0000
Subject: [PATCH 16/46] fix: orbit bump is searched on a copy and keeps the
 given response matrix

---
 pySC/correction/bba.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/pySC/correction/bba.py b/pySC/correction/bba.py
index 0c5fce4..694e924 100644
--- a/pySC/correction/bba.py
+++ b/pySC/correction/bba.py
@@ -326,21 +326,24 @@ def _data_measurement_orb(SC, m_ord, bpm_ind, j_bpm, n_dim, par, cm_ords, cm_vec
 
 
 def _get_orbit_bump(SC, cm_ord, bpm_ord, n_dim, par):  # TODO
-    tmpCMind = np.where(par.RMstruct.CMords[0] == cm_ord)[0]
+    response_matrix = par.RMstruct.RM
+    cm_ords = [par.RMstruct.CMords[0], par.RMstruct.CMords[1]]
+    tmpCMind = np.where(cm_ords[0] == cm_ord)[0]
     if len(tmpCMind):
-        par.RMstruct.RM = np.delete(par.RMstruct.RM, tmpCMind, 1)  # TODO not nice
-        par.RMstruct.CMords[0] = np.delete(par.RMstruct.CMords[0], tmpCMind)
-    tmpBPMind = np.where(bpm_ord == par.RMstruct.BPMords)[0]
+        response_matrix = np.delete(response_matrix, tmpCMind, 1)  # TODO not nice
+        cm_ords[0] = np.delete(cm_ords[0], tmpCMind)
+    tmpBPMind = np.where(bpm_ord == par.RMstruct.BPMords)[0][0]
 
-    R0 = bpm_reading(SC) if par.use_bpm_reading_for_orbit_bump_ref else np.zeros((2, len(par.RMstruct.BPMords)))
+    R0 = (bpm_reading(SC, bpm_ords=par.RMstruct.BPMords)[0] if par.use_bpm_reading_for_orbit_bump_ref
+          else np.zeros((2, len(par.RMstruct.BPMords))))
     R0[n_dim, tmpBPMind] += par.BBABPMtarget
-    cm_ords = par.RMstruct.CMords
 
     W0 = np.ones((2, len(par.RMstruct.BPMords)))  # TODO weight for SCFedbackRun
     W0[n_dim, max(1, tmpBPMind - par.orbBumpWindow):(tmpBPMind - 1)] = 0
     W0[n_dim, (tmpBPMind + 1):min(len(par.RMstruct.BPMords), tmpBPMind + par.orbBumpWindow)] = 0
 
-    CUR = orbit_trajectory.correct(SC, par.RMstruct.RM, reference=R0, cm_ords=cm_ords, bpm_ords=par.RMstruct.BPMords, eps=1E-6,
+    CUR = orbit_trajectory.correct(SC.very_deep_copy(), response_matrix, reference=R0.reshape(-1, 1), cm_ords=cm_ords,
+                  bpm_ords=par.RMstruct.BPMords, eps=1E-6,
                   target=0, maxsteps=50, scaleDisp=par.RMstruct.scaleDisp, )
     cm_vec = []
     factor = np.linspace(-1, 1, par.n_steps)
-- 
2.43.0


From a5b31a5c8a27784b462d64a4b0cf491283e5f980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:27 +0000
Subject: [PATCH 17/46] fix: orbit_bba restores the magnet and corrector
 setpoints

---
 pySC/correction/bba.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pySC/correction/bba.py b/pySC/correction/bba.py
index 694e924..cd66faf 100644
--- a/pySC/correction/bba.py
+++ b/pySC/correction/bba.py
@@ -311,6 +311,8 @@ def _data_measurement_orb(SC, m_ord, bpm_ind, j_bpm, n_dim, par, cm_ords, cm_vec
     n_msteps = cm_vec[n_dim].shape[0]
     orbits = np.full((n_msteps, len(par.magnet_strengths[n_dim, j_bpm]), len(SC.ORD.BPM)), np.nan)
     bpm_pos = np.full((n_msteps, len(par.magnet_strengths[n_dim, j_bpm])), np.nan)
+    init_setpoint = getattr(SC.RING[m_ord], f"SetPoint{NUM_TO_AB[int(par.skewness)]}")[par.magnet_order]
+    init_cm_setpoints = [SC.get_cm_setpoints(cm_ords[n_d], skewness=bool(n_d)) for n_d in range(2)]
     for n_q, setpoint_q in enumerate(par.magnet_strengths[n_dim, j_bpm]):
         SC.set_magnet_setpoints(m_ord, setpoint_q, par.skewness, par.magnet_order, method=par.setpoint_method,
                                 dipole_compensation=par.dipole_compensation)
@@ -322,6 +324,10 @@ def _data_measurement_orb(SC, m_ord, bpm_ind, j_bpm, n_dim, par, cm_ords, cm_vec
             orbits[step, n_q, :] = bpm_readings[meas_dim, :]
 
     SC.INJ.Z0 = initial_z0
+    SC.set_magnet_setpoints(m_ord, init_setpoint, par.skewness, par.magnet_order,
+                            method=SETTING_ABS, dipole_compensation=par.dipole_compensation)
+    for n_d in range(2):
+        SC.set_cm_setpoints(cm_ords[n_d], init_cm_setpoints[n_d], bool(n_d), method=SETTING_ABS)
     return bpm_pos, orbits
 
 
-- 
2.43.0


From b5a8d2bdf135bd83dd2b5af84279bcc55918997e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:27 +0000
Subject: [PATCH 18/46] fix: bba plots restore the font size

---
 pySC/correction/bba.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pySC/correction/bba.py b/pySC/correction/bba.py
index cd66faf..0acab24 100644
--- a/pySC/correction/bba.py
+++ b/pySC/correction/bba.py
@@ -181,6 +181,7 @@ def _data_evaluation(SC, bpm_pos, trajectories, mag_vec, n_dim, m_ord, par):
 def plot_bba_results(SC, bpm_ords, bba_offsets, bba_offset_errors):
     to_um = 1E6
     errors = is_bba_errored(bba_offsets, bba_offset_errors)
+    init_font = plt.rcParams["font.size"]
     plt.rcParams.update({'font.size': 10})
     f, ax = plt.subplots(nrows=2, num=90, figsize=(8, 8), facecolor="w")
     plabels = ("Horizontal", "Vertical")
@@ -196,9 +197,11 @@ def plot_bba_results(SC, bpm_ords, bba_offsets, bba_offset_errors):
         ax[n_dim].set_xlim([0, len(SC.ORD.BPM)])
         ax[n_dim].legend()
     f.show()
+    plt.rcParams.update({'font.size': init_font})
 
 
 def plot_bpm_offsets_from_magnets(SC, bpm_ords, mag_ords, error_flags):
+    init_font = plt.rcParams["font.size"]
     plt.rcParams.update({'font.size': 10})
     fom = _get_bpm_offset_from_mag(SC.RING, bpm_ords, mag_ords)
     n_steps = 1 if bpm_ords.shape[1] == 1 else 1.1 * np.max(np.abs(fom)) * np.linspace(-1, 1, int(np.floor(bpm_ords.shape[1] / 3)))
@@ -231,6 +234,7 @@ def plot_bpm_offsets_from_magnets(SC, bpm_ords, mag_ords, error_flags):
         ax[n_dim + 1].legend()
     f.tight_layout()
     f.show()
+    plt.rcParams.update({'font.size': init_font})
 
 
     
-- 
2.43.0


From 3f8b2b09ed4a58720466ca600b656ff51009ebb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:27 +0000
Subject: [PATCH 19/46] fix: correct_rf_phase completes when no correction is
 made

---
 pySC/correction/rf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pySC/correction/rf.py b/pySC/correction/rf.py
index 069b286..e417ad7 100644
--- a/pySC/correction/rf.py
+++ b/pySC/correction/rf.py
@@ -46,7 +46,7 @@ def correct_rf_phase(SC, cav_ords=None, bpm_ords=None, n_steps=15, plot_results=
 
     # Find zero crossing of fitted function
     sol = lambda x: _sin_fit_fun(x / lamb, param[0], param[1], param[2])
-    delta_phi = _fold_phase(fsolve(sol, test_vec[np.argmax(sol(test_vec))] - abs(test_vec[0]) / 2), lamb)
+    delta_phi = _fold_phase(fsolve(sol, test_vec[np.argmax(sol(test_vec))] - abs(test_vec[0]) / 2)[0], lamb)
     if np.abs(param[0]) < 2 * np.sqrt(param_cov[0, 0]) or np.abs(param[2]) < 2 * np.sqrt(param_cov[2, 2]):
         LOGGER.warning("Measurements is not sufficiently precise to make a correction")
         delta_phi = 0.0
@@ -54,7 +54,7 @@ def correct_rf_phase(SC, cav_ords=None, bpm_ords=None, n_steps=15, plot_results=
         raise RuntimeError('RF phase correction unsuccessful: NaN phase')
 
     SC.set_cavity_setpoints(cav_ords, delta_phi, 'TimeLag', 'add')
-    LOGGER.info(f'Time lag correction step: {delta_phi[0]:.3f} m\n')
+    LOGGER.info(f'Time lag correction step: {delta_phi:.3f} m\n')
     if plot_results:
         _plot_results((test_vec, bpm_shift, bpm_shift_err), sol, delta_phi, x_scale=360 / lamb, phase=True)
     return SC
-- 
2.43.0


From bbd086a44ab76fb0599fe5908d743351da9fd786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:27 +0000
Subject: [PATCH 20/46] fix: loco debug message is formatted

---
 pySC/correction/loco.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySC/correction/loco.py b/pySC/correction/loco.py
index 99568b4..0ad291c 100644
--- a/pySC/correction/loco.py
+++ b/pySC/correction/loco.py
@@ -41,7 +41,7 @@ def calculate_jacobian(SC, C_model, dkick, used_cor_ind, bpm_indexes, quads_ind,
 def generating_quads_response_matrices(args):
     (quad_index, SC, C_model, correctors_kick, used_cor_indexes, used_bpm_indexes, dk, trackMode, useIdealRing,
      skewness, order, method, includeDispersion, rf_step, cav_ords) = args
-    LOGGER.debug('generating response to quad of index', quad_index)
+    LOGGER.debug(f'generating response to quad of index {quad_index}')
     if not includeDispersion:
         SC.set_magnet_setpoints(quad_index, dk, skewness, order, method)
         C_measured = SCgetModelRM(SC, used_bpm_indexes, used_cor_indexes, dkick=correctors_kick,
-- 
2.43.0


From f53ac296b4e9b378f471accd622a4eb92de105b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:27 +0000
Subject: [PATCH 21/46] fix: loco dispersion uses the requested lattice, mode
 and step

---
 pySC/correction/loco.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pySC/correction/loco.py b/pySC/correction/loco.py
index 0ad291c..30a8f64 100644
--- a/pySC/correction/loco.py
+++ b/pySC/correction/loco.py
@@ -50,11 +50,13 @@ def generating_quads_response_matrices(args):
         SC.set_magnet_setpoints(quad_index, -dk, skewness, order, method)
         return C_measured - C_model
 
-    dispersion_model = SCgetModelDispersion(SC, used_bpm_indexes, CAVords=cav_ords)
+    dispersion_model = SCgetModelDispersion(SC, used_bpm_indexes, CAVords=cav_ords, trackMode=trackMode, rfStep=rf_step,
+                                            useIdealRing=useIdealRing)
     SC.set_magnet_setpoints(quad_index, dk, skewness, order, method)
     C_measured = SCgetModelRM(SC, used_bpm_indexes, used_cor_indexes, dkick=correctors_kick, useIdealRing=useIdealRing,
                               trackMode=trackMode)
-    dispersion_meas = SCgetModelDispersion(SC, used_bpm_indexes, CAVords=cav_ords, rfStep=rf_step)
+    dispersion_meas = SCgetModelDispersion(SC, used_bpm_indexes, CAVords=cav_ords, trackMode=trackMode, rfStep=rf_step,
+                                           useIdealRing=useIdealRing)
     SC.set_magnet_setpoints(quad_index, -dk, skewness, order, method)
     return np.hstack((C_measured - C_model, (dispersion_meas - dispersion_model).reshape(-1, 1)))
 
-- 
2.43.0


From 832d1d3fef7e41bf135e16f08c2762a4440f4dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:27 +0000
Subject: [PATCH 22/46] fix: measure_closed_orbit_response_matrix restores the
 injection settings and correctors

---
 pySC/correction/loco.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pySC/correction/loco.py b/pySC/correction/loco.py
index 30a8f64..381c4a6 100644
--- a/pySC/correction/loco.py
+++ b/pySC/correction/loco.py
@@ -67,17 +67,20 @@ def measure_closed_orbit_response_matrix(SC, bpm_ords, cm_ords, dkick=1e-5):
     n_bpms = len(bpm_ords)
     n_cms = len(cm_ords[0]) + len(cm_ords[1])
     response_matrix = np.full((2 * n_bpms * n_turns, n_cms), np.nan)
-    SC.INJ.trackMode = TRACK_ORB  # TODO may modify SC (not a pure function)!
+    init_track_mode, init_n_turns, init_n_particles = SC.INJ.trackMode, SC.INJ.nTurns, SC.INJ.nParticles
+    SC.INJ.trackMode = TRACK_ORB  # sets also the number of turns and particles
 
     closed_orbits0 = bpm_reading(SC, bpm_ords=bpm_ords)[0]
     cnt = 0
     for n_dim in range(2):
         for cm_ord in cm_ords[n_dim]:
+            init_setpoint = SC.get_cm_setpoints(cm_ord, skewness=bool(n_dim))
             SC.set_cm_setpoints(cm_ord, dkick, skewness=bool(n_dim), method=SETTING_ADD)
             closed_orbits1 = bpm_reading(SC, bpm_ords=bpm_ords)[0]
-            SC.set_cm_setpoints(cm_ord, -dkick, skewness=bool(n_dim), method=SETTING_ADD)
+            SC.set_cm_setpoints(cm_ord, init_setpoint, skewness=bool(n_dim))
             response_matrix[:, cnt] = np.ravel((closed_orbits1 - closed_orbits0) / dkick)
             cnt = cnt + 1
+    SC.INJ.trackMode, SC.INJ.nTurns, SC.INJ.nParticles = init_track_mode, init_n_turns, init_n_particles
     return response_matrix
 
 
-- 
2.43.0


From 3a57ca8a702ee2d786bec7319a15b39467aff168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:06 +0000
Subject: [PATCH 23/46] fix: fit_tune reads the tunes and varies the families

---
 pySC/correction/tune.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/pySC/correction/tune.py b/pySC/correction/tune.py
index cb38b9f..ba14492 100644
--- a/pySC/correction/tune.py
+++ b/pySC/correction/tune.py
@@ -139,14 +139,14 @@ def fit_tune(SC, q_ords, target_tune=None, xtol=1E-4, ftol=1E-3, fit_integer=Tru
         for n in range(len(q_ords[nFam])):
             SP0[nFam][n] = SC.RING[q_ords[nFam][n]].SetPointB[1]
     fun = lambda x: _fit_tune_fun(SC, q_ords, x, SP0, target_tune, fit_integer)
-    sol = fmin(fun, xtol=xtol, ftol=ftol)
-    SC.set_magnet_setpoints(q_ords, sol + SP0, False, 1, method='abs', dipole_compensation=True)
+    sol = fmin(fun, np.zeros(len(q_ords)), xtol=xtol, ftol=ftol)
+    SC.set_magnet_setpoints(q_ords, sol[:, np.newaxis] + SP0, False, 1, method='abs', dipole_compensation=True)
     LOGGER.debug(f'       Final tune: [{tune(SC, fit_integer)}]\n  Setpoints change: [{sol}]')
     return SC
 
 
 def _fit_tune_fun(SC, q_ords, setpoints, init_setpoints, target, fit_integer):
-    SC.set_magnet_setpoints(q_ords, setpoints + init_setpoints, False, 1, method='abs', dipole_compensation=True)
+    SC.set_magnet_setpoints(q_ords, setpoints[:, np.newaxis] + init_setpoints, False, 1, method='abs', dipole_compensation=True)
     nu = tune(SC, fit_integer)
     return np.sqrt(np.mean((nu - target) ** 2))
 
@@ -154,7 +154,7 @@ def _fit_tune_fun(SC, q_ords, setpoints, init_setpoints, target, fit_integer):
 def tune(SC, fit_integer: bool = False, ideal: bool = False):
     ring = SC.IDEALRING if ideal else SC.RING
     if fit_integer:
-        ld, _, _ = atlinopt(ring, 0, range(len(ring) + 1))
-        return ld[-1].mu / 2 / np.pi
-    _, nu, _ = atlinopt(ring, 0)
-    return nu
+        _, _, ld = atlinopt(ring, refpts=range(len(ring) + 1))
+        return ld[-1].mu[0:2] / 2 / np.pi
+    _, ring_data, _ = atlinopt(ring)
+    return ring_data.tune[0:2]
-- 
2.43.0


From 5e0c55da800f3e48dfdf7b4832797c0e0dfe950c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:07 +0000
Subject: [PATCH 24/46] fix: fit_chroma keeps the sextupole setpoints and
 applies its solution

---
 pySC/correction/chroma.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pySC/correction/chroma.py b/pySC/correction/chroma.py
index 27b08ee..5a1a2f6 100644
--- a/pySC/correction/chroma.py
+++ b/pySC/correction/chroma.py
@@ -39,13 +39,14 @@ def fit_chroma(SC, s_ords, target_chroma=None, init_step_size=np.array([2, 2]),
     LOGGER.debug(f'Fitting chromaticities from {SC.RING.get_chrom()} to {target_chroma}.')  # first two elements
     SP0 = []
     for n in range(len(s_ords)):
-        SP0.append(np.zeros_like(s_ords[n]))
+        SP0.append(np.zeros(len(s_ords[n])))
     for nFam in range(len(s_ords)):
         for n in range(len(s_ords[nFam])):
             SP0[nFam][n] = SC.RING[s_ords[nFam][n]].SetPointB[2]
     fun = lambda x: _fit_chroma_fun(SC, s_ords, x, SP0, target_chroma)
     sol = fmin(fun, init_step_size, xtol=xtol, ftol=ftol)
-    # TODO needs to set the solution to SC
+    for n in range(len(s_ords)):
+        SC.set_magnet_setpoints(s_ords[n], sol[n] + SP0[n], False, 2, method='abs', dipole_compensation=True)
     LOGGER.debug(f'        Final chromaticity: {SC.RING.get_chrom()}\n          Setpoints change: {sol}.')  # first two elements
     return SC
 
-- 
2.43.0


From b137d9e360222b9fd91ac5146f50095c74779905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:07 +0000
Subject: [PATCH 25/46] fix: injection fit minimises the rms difference

---
 pySC/correction/injection_fit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySC/correction/injection_fit.py b/pySC/correction/injection_fit.py
index 95a35e1..bf97557 100644
--- a/pySC/correction/injection_fit.py
+++ b/pySC/correction/injection_fit.py
@@ -69,7 +69,7 @@ def _fit_bpm_data(s_bpm, bref):
 
 def _merit_function(x, SC, bref, ords_used):
     t = at_wrapper.lattice_track(SC.IDEALRING, np.concatenate((x, np.zeros(2))), 1, ords_used, keep_lattice=False)[[0, 2], 0, :, 0]
-    return np.sqrt(np.mean(bref - t) ** 2)
+    return np.sqrt(np.mean((bref - t) ** 2))
 
 
 def _log_initial_final_states(SC, delta_z0):
-- 
2.43.0


From 900e3532c64cf32be69b91ad3b5f8a8f827dfd3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:07 +0000
Subject: [PATCH 26/46] fix: injection fit plots the reading after the
 correction

---
 pySC/correction/injection_fit.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/pySC/correction/injection_fit.py b/pySC/correction/injection_fit.py
index bf97557..057cfce 100644
--- a/pySC/correction/injection_fit.py
+++ b/pySC/correction/injection_fit.py
@@ -46,9 +46,7 @@ def fit_injection_trajectory(SC: SimulatedCommissioning, bpm_inds: ndarray = np.
     SC.INJ.Z0 += delta_z0
     if plot:
         fig, ax = plt.subplots(nrows=2, num=342, sharex="all")
-        SC.INJ.Z0 += delta_z0
         bnew = bpm_reading(SC)[0][:, bpm_inds]
-        SC.INJ.Z0 -= delta_z0
         s_bpm = s_pos[SC.ORD.BPM[bpm_inds]]
         for n_dim in range(2):
             ax[n_dim].plot(s_bpm, 1E3 * bref[n_dim, :], 'ro--', label="Initial")
-- 
2.43.0


From 95d9093109a659fba239d93dbac5968c7384278e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:07 +0000
Subject: [PATCH 27/46] fix: response_matrix accepts a single amplitude and
 reports insufficient reach

---
 pySC/lattice_properties/response_measurement.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pySC/lattice_properties/response_measurement.py b/pySC/lattice_properties/response_measurement.py
index 33dbb60..87c2697 100644
--- a/pySC/lattice_properties/response_measurement.py
+++ b/pySC/lattice_properties/response_measurement.py
@@ -8,7 +8,7 @@ LOGGER = logging_tools.get_logger(__name__)
 
 
 def response_matrix(SC, amp, bpm_ords, cm_ords, mode='fixedKick', n_steps=2, fit_order=1):
-    if ((not isinstance(amp, list) and not len(amp) == 1) or
+    if ((not isinstance(amp, list) and not np.size(amp) == 1) or
             (isinstance(amp, list) and (len(amp[0]) != len(cm_ords[0]) or len(amp[1]) != len(cm_ords[1])))):
         raise ValueError('response_matrix amplitude must be defined as single value or '
                          'array matching the number of used HCM and VCM.')
@@ -100,7 +100,7 @@ def _kick_amplitude(SC, bref, bpm_ords, cm_ord, amp, skewness: bool, mode):
         else:
             max_step *= decrease_factor
             LOGGER.debug(
-                f'Insufficient beam reach ({max_pos:d}/{max_pos_ref:d}). '
+                f'Insufficient beam reach ({max_pos:.0f}/{max_pos_ref:.0f}). '
                 f'cm_step reduced to {1E6 * max_step:.1f}urad.')
     return max_step, np.ravel(bpm_reading(SC, bpm_ords=bpm_ords)[0]) - bref
 
-- 
2.43.0


From 21c82916b39e27a1dd545eb68815ef4a70acffc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:07 +0000
Subject: [PATCH 28/46] fix: response_matrix and dispersion evaluate two and
 more steps

---
 pySC/lattice_properties/response_measurement.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pySC/lattice_properties/response_measurement.py b/pySC/lattice_properties/response_measurement.py
index 87c2697..f8fc6b9 100644
--- a/pySC/lattice_properties/response_measurement.py
+++ b/pySC/lattice_properties/response_measurement.py
@@ -30,7 +30,11 @@ def response_matrix(SC, amp, bpm_ords, cm_ords, mode='fixedKick', n_steps=2, fit
         for nCM in range(len(cm_ords[n_dim])):
             max_step, gradient = _kick_amplitude(SC, bref, bpm_ords, cm_ords[n_dim][nCM], amp[n_dim][nCM], bool(n_dim), mode)
             cm_step_vec = np.linspace(-max_step, max_step, n_steps)
-            if n_steps != 2:
+            if n_steps == 2:
+                dCM = max_step
+                cm_steps[n_dim][:, nCM] = dCM
+                rm[:, i] = gradient / dCM
+            else:
                 real_cm_setpoint = cmstart[nCM] + cm_step_vec
                 gradient = np.vstack((np.zeros((n_steps - 1, len(bref))), gradient.T))
                 for n_step in range(n_steps):
@@ -40,10 +44,6 @@ def response_matrix(SC, amp, bpm_ords, cm_ords, mode='fixedKick', n_steps=2, fit
                         gradient[n_step, :] = np.ravel(bpm_reading(SC, bpm_ords=bpm_ords)[0]) - bref
                 dCM = real_cm_setpoint - cmstart[nCM]
                 cm_steps[n_dim][:, nCM] = dCM
-                rm[:, i] = gradient / dCM
-            else:
-                dCM = max_step
-                cm_steps[n_dim][:, nCM] = dCM
                 for nBPM in range(gradient.shape[1]):
                     x = dCM[~np.isnan(gradient[:, nBPM])]
                     y = gradient[~np.isnan(gradient[:, nBPM]), nBPM]
@@ -73,7 +73,7 @@ def dispersion(SC, rf_step, bpm_ords=None, cav_ords=None, n_steps=2):
         SC.set_cavity_setpoints(cav_ords, rf_steps[:, nStep], 'Frequency', 'abs')
         dB[nStep, :] = np.ravel(bpm_reading(SC, bpm_ords=bpm_ords)[0]) - bref
     SC.set_cavity_setpoints(cav_ords, rf0, 'Frequency', 'abs')
-    return np.linalg.lstsq(np.linspace(-rf_step, rf_step, n_steps), dB)[0]
+    return np.linalg.lstsq(np.linspace(-rf_step, rf_step, n_steps)[:, np.newaxis], dB, rcond=None)[0][0]
 
 
 def _check_ords(SC, bpm_ords, cav_ords):
-- 
2.43.0


From a3e9a3f048a304466b84397001911fe11c09781c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:07 +0000
Subject: [PATCH 29/46] fix: SCgetCOD returns the transverse orbit in magnets

---
 pySC/lattice_properties/magnet_orbit.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pySC/lattice_properties/magnet_orbit.py b/pySC/lattice_properties/magnet_orbit.py
index 75423f0..865925c 100644
--- a/pySC/lattice_properties/magnet_orbit.py
+++ b/pySC/lattice_properties/magnet_orbit.py
@@ -8,15 +8,15 @@ LOGGER = logging_tools.get_logger(__name__)
 def SCgetCOD(SC, ords=None, plot=False):
     if ords is None:
         ords = SC.ORD.Magnet
-    T = at_wrapper.findorbit6(SC.RING, ords)
-    if any(np.isnan(T)):
+    T = at_wrapper.findorbit6(SC.RING, ords)[1].T
+    if np.any(np.isnan(T)):
         LOGGER.error('Closed orbit could not be found.')
-        COD = np.nan(2, len(ords))
+        COD = np.full((2, len(ords)), np.nan)
         return COD
     magOffset = np.zeros((2, len(ords)))
     for i, ord in enumerate(ords):
-        magOffset[:, i] = SC.RING[ord].T2([1, 3])
-    COD = T[[1, 3], :] - magOffset
+        magOffset[:, i] = SC.RING[ord].T2[[0, 2]]
+    COD = T[[0, 2], :] - magOffset
     if plot:
         sPos = at_wrapper.findspos(SC.RING)[ords]
         ylabelStr = ['$\Delta x$ [mm]', '$\Delta y$ [mm]']
-- 
2.43.0


From 58c36c991018df5293878cf38c617087e990f66e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:07 +0000
Subject: [PATCH 30/46] fix: SCmomentumAperture keeps the given bounds

---
 pySC/lattice_properties/apertures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySC/lattice_properties/apertures.py b/pySC/lattice_properties/apertures.py
index 7aaf94a..603a54a 100644
--- a/pySC/lattice_properties/apertures.py
+++ b/pySC/lattice_properties/apertures.py
@@ -70,7 +70,7 @@ def SCmomentumAperture(RING, REFPTS, inibounds, nturns=1000, accuracy=1e-4, step
         return dbounds
     for i in range(len(REFPTS)):
         ord = REFPTS[i]
-        local_bounds = inibounds
+        local_bounds = inibounds.copy()
         SHIFTRING = RING.rotate(-ord)  # TODO +/-
         ZCO = ZCOs[:, i]
         while not check_bounds(local_bounds, SHIFTRING, ZCO, nturns):
-- 
2.43.0


From 67f2867b879bdbc1c76971d8d7b9fd2b51966f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:07 +0000
Subject: [PATCH 31/46] fix: DebugMode restores the logger and closes its file

---
 pySC/utils/logging_tools.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pySC/utils/logging_tools.py b/pySC/utils/logging_tools.py
index ddee5c5..cd869e6 100644
--- a/pySC/utils/logging_tools.py
+++ b/pySC/utils/logging_tools.py
@@ -48,7 +48,7 @@ class DebugMode(object):
             self.logger = logging.getLogger(".".join([current_module, os.path.basename(caller_file)]))
 
             # set level to debug
-            self.current_level = self.logger.getEffectiveLevel()
+            self.current_level = self.logger.level
             self.logger.setLevel(DEBUG)
             self.logger.debug("Running in Debug-Mode.")
 
@@ -84,6 +84,7 @@ class DebugMode(object):
             # revert everything
             self.logger.setLevel(self.current_level)
             self.mod_logger.removeHandler(self.file_h)
+            self.file_h.close()
             self.mod_logger.removeHandler(self.console_h)
 
 # Public Methods ###############################################################
-- 
2.43.0


From 12a397880d490859ec750743f21322c805a1e8d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:07 +0000
Subject: [PATCH 32/46] fix: SCsynchEnergyCorrection calls correct_rf_frequency
 with its arguments

---
 pySC/matlab_index.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySC/matlab_index.py b/pySC/matlab_index.py
index 082f0c9..a51800b 100644
--- a/pySC/matlab_index.py
+++ b/pySC/matlab_index.py
@@ -316,7 +316,7 @@ def SCsynchEnergyCorrection(SC, /, *, cavOrd=None, f_range=(-1E3, 1E3), nSteps=1
                             plotProgress=False, verbose=False):
     init_nturns = SC.INJ.nTurns
     SC.INJ.nTurns = nTurns
-    SC = correct_rf_frequency(SC, cav_ords=cavOrd, f_range=f_range, n_steps=nSteps, minTurns=minTurns,
+    SC = correct_rf_frequency(SC, cav_ords=cavOrd, f_range=f_range, n_steps=nSteps,
                            plot_results=plotResults, plot_progress=plotProgress, )
     SC.INJ.nTurns = init_nturns
     return SC
-- 
2.43.0


From 6f04cb354e9c8dfd95a61a9487639d91af935fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:07 +0000
Subject: [PATCH 33/46] fix: SCplotLattice and SCplotPhaseSpace defaults are
 accepted by the plotting functions

---
 pySC/matlab_index.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pySC/matlab_index.py b/pySC/matlab_index.py
index a51800b..8948fb1 100644
--- a/pySC/matlab_index.py
+++ b/pySC/matlab_index.py
@@ -212,13 +212,13 @@ def SCplotCMstrengths(SC: SimulatedCommissioning):
     plot_cm_strengths(SC)
 
 
-def SCplotLattice(SC, /, *, transferLine=0, nSectors=1, oList=[], plotIdealRing=1, sRange=[], plotMagNames=0,
+def SCplotLattice(SC, /, *, transferLine=0, nSectors=1, oList=None, plotIdealRing=1, sRange=None, plotMagNames=0,
                   fontSize=16):
     return plot_lattice(SC, transfer_line=bool(transferLine), n_sectors=nSectors, indices=oList,
                         ideal_ring=bool(plotIdealRing), s_range=sRange, plot_magnet_names=bool(plotMagNames), font_size=fontSize)
 
 
-def SCplotPhaseSpace(SC, /, *, ord=np.zeros(1), customBunch=[], nParticles=None, nTurns=None, plotCO=False):
+def SCplotPhaseSpace(SC, /, *, ord=np.zeros(1, dtype=int), customBunch=None, nParticles=None, nTurns=None, plotCO=False):
     plot_phase_space(SC, ords=ord, custom_bunch=customBunch, nParticles=nParticles, nTurns=nTurns, plotCO=plotCO)
 
 
-- 
2.43.0


From b994dc5e51b66c0b8012ca8999de66e0b5f5f054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:07 +0000
Subject: [PATCH 34/46] fix: SCBBA rejects unknown modes

---
 pySC/matlab_index.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pySC/matlab_index.py b/pySC/matlab_index.py
index 8948fb1..56ecab0 100644
--- a/pySC/matlab_index.py
+++ b/pySC/matlab_index.py
@@ -55,6 +55,7 @@ def SCBBA(SC, BPMords, magOrds, **kwargs):
     if kwargs["mode"] == "ORB":
         LOGGER.warning("Performing orbit BBA, please check the actual function to resolve parameter changes.")
         return orbit_bba(SC, BPMords, magOrds, **kwargs)
+    raise ValueError(f"Unexpected mode {kwargs['mode']}.")
 
 
 def SCcronoff(ring: Lattice, *args: str) -> Lattice:
-- 
2.43.0


From d4c9ef8de2c8432b8763f535fc5efb3637a47fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:55 +0000
Subject: [PATCH 35/46] fix: loco_cm_structure works with its default steps

---
 pySC/correction/loco_wrapper.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pySC/correction/loco_wrapper.py b/pySC/correction/loco_wrapper.py
index 1aff83e..a124302 100644
--- a/pySC/correction/loco_wrapper.py
+++ b/pySC/correction/loco_wrapper.py
@@ -43,7 +43,9 @@ def loco_cm_structure(SC, cmords=None, cm_steps=None, **kwargs):
                            HCMsteps=np.ones(n_hcms), VCMsteps=np.ones(n_vcms),
                            HCMKicks=2e3 * np.ones(n_hcms), VCMKicks=2e3 * np.ones(n_vcms)  # [mrad] TODO why 2?
                            ))
-    if isinstance(cm_steps, (int, float)) or len(cm_steps) == 1:
+    if cm_steps is None:
+        pass  # unit steps
+    elif isinstance(cm_steps, (int, float)) or len(cm_steps) == 1:
         cm_data.HCMsteps *= cm_steps
         cm_data.VCMsteps *= cm_steps
     else:
-- 
2.43.0


From 7593f7d26cee78a94cbbca70d5d462f6a77974f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:55 +0000
Subject: [PATCH 36/46] fix: loco_measurement forwards its options and uses the
 step of each corrector

---
 pySC/correction/loco_wrapper.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pySC/correction/loco_wrapper.py b/pySC/correction/loco_wrapper.py
index a124302..04c5a56 100644
--- a/pySC/correction/loco_wrapper.py
+++ b/pySC/correction/loco_wrapper.py
@@ -61,8 +61,8 @@ def loco_measurement(SC, CMstep, deltaRF, BPMords, CMords, **kwargs):
     loco_meas_data.RF = SC.RING[SC.ORD.RF[0]].Frequency
     loco_meas_data.DeltaRF = deltaRF
     loco_meas_data.BPMSTD = 1E-3 * np.ones(2 * len(BPMords))  # [mm]
-    RM, Err, CMsteps = response_matrix(SC, CMstep, BPMords, CMords, *kwargs)
-    CMsteps = [np.max(np.abs(CMsteps[0]), axis=1), np.max(np.abs(CMsteps[1]), axis=1)]
+    RM, Err, CMsteps = response_matrix(SC, CMstep, BPMords, CMords, **kwargs)
+    CMsteps = [np.max(np.abs(CMsteps[0]), axis=0), np.max(np.abs(CMsteps[1]), axis=0)]
     loco_meas_data.M = 2 * 1000 * np.concatenate((CMsteps[0], CMsteps[1])) * RM
     loco_meas_data.Eta = deltaRF * 1000 * dispersion(SC, rf_step=deltaRF, bpm_ords=BPMords, n_steps=3)
     return loco_meas_data, CMsteps
-- 
2.43.0


From 3959b653eb26840e699c488844907f671aeec617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:56 +0000
Subject: [PATCH 37/46] fix: apply_lattice_correction returns the machine

---
 pySC/correction/loco_wrapper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySC/correction/loco_wrapper.py b/pySC/correction/loco_wrapper.py
index 04c5a56..309f819 100644
--- a/pySC/correction/loco_wrapper.py
+++ b/pySC/correction/loco_wrapper.py
@@ -107,7 +107,7 @@ def apply_lattice_correction(SC, fit_parameters, dipole_compensation=True, dampi
                 SC.set_magnet_setpoints(ord, setpoint, False, 1, dipole_compensation=dipole_compensation)
             elif field == 'SetPointA':  # Skew quadrupole
                 SC.set_magnet_setpoints(ord, setpoint, True, 1)
-    SC = SC.update_magnets(SC.ORD.Magnet)
+    SC.update_magnets(SC.ORD.Magnet)
     return SC
 
 
-- 
2.43.0


From 0c6d1986dd7ef3da2a09245378e6a6ac864079a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:56 +0000
Subject: [PATCH 38/46] fix: applyDiagnosticCorrection applies the corrector
 calibrations and keeps the fitted gains

---
 pySC/correction/loco_wrapper.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pySC/correction/loco_wrapper.py b/pySC/correction/loco_wrapper.py
index 309f819..dff1ddb 100644
--- a/pySC/correction/loco_wrapper.py
+++ b/pySC/correction/loco_wrapper.py
@@ -112,7 +112,7 @@ def apply_lattice_correction(SC, fit_parameters, dipole_compensation=True, dampi
 
 
 def applyDiagnosticCorrection(SC, cm_step, CMData, BPMData, CMcalOffsets=None, meanToZero=False, outlierRemovalAt=None):
-    if not isinstance(cm_step, list) and not len(cm_step) == 1:
+    if not isinstance(cm_step, list) and not np.size(cm_step) == 1:
         raise ValueError(
             'CM steps must be defined as single value or cell array matching the number of used HCM and VCM.')
     if not isinstance(cm_step, list):
@@ -132,11 +132,12 @@ def applyDiagnosticCorrection(SC, cm_step, CMData, BPMData, CMcalOffsets=None, m
                 fit_cal_cm = fit_cal_cm + np.mean(1 - fit_cal_cm)
             i = 0
             for ord in CMData[fields[nDim] + 'CMIndex']:
-                SC.RING[ord][sc_fields[nDim]][0] = SC.RING[ord][sc_fields[nDim]][0] + (1 - fit_cal_cm[i])
+                getattr(SC.RING[ord], sc_fields[nDim])[0] += 1 - fit_cal_cm[i]
                 i = i + 1
+            SC.update_magnets(CMData[fields[nDim] + 'CMIndex'])
         if BPMData.FitGains:
-            fit_cal_bpm = BPMData[fields[nDim] + 'BPMGain']
-            if not outlierRemovalAt == []:
+            fit_cal_bpm = BPMData[fields[nDim] + 'BPMGain'].copy()
+            if outlierRemovalAt is not None:
                 fit_cal_bpm[np.abs(1 - fit_cal_bpm) >= outlierRemovalAt] = 1
             if meanToZero:
                 fit_cal_bpm = fit_cal_bpm + np.mean(1 - fit_cal_bpm)
-- 
2.43.0


From 65bbed5df764306e879913c9d46866dfec697a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:56 +0000
Subject: [PATCH 39/46] fix: SCrampUpErrors scales the errors of a copy of the
 machine

---
 pySC/correction/ramp_errors.py | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/pySC/correction/ramp_errors.py b/pySC/correction/ramp_errors.py
index 27ba066..36cd072 100644
--- a/pySC/correction/ramp_errors.py
+++ b/pySC/correction/ramp_errors.py
@@ -12,7 +12,7 @@ def SCrampUpErrors(SC, nStepsRamp=10, eps=1e-5, target=0, alpha=10, maxsteps=30)
     errFieldsSup = ['Roll', 'Offset']
     errFieldsBPM = ['Noise', 'NoiseCO', 'Offset', 'SupportOffset', 'Roll', 'SupportRoll', 'CalError']
     errFieldsRF = ['Offset', 'CalError']
-    SC0 = SC
+    SC0 = SC.very_deep_copy()
     M = SCgetModelRM(SC, SC.ORD.BPM, SC.ORD.CM, nTurns=SC.INJ.nTurns, trackMode=SC.INJ.trackMode)
     for scale in np.linspace(1 / nStepsRamp, 1, nStepsRamp):
         LOGGER.debug(f'Ramping up errors with scaling factor {scale:.2f}.')
@@ -39,29 +39,29 @@ def SCrampUpErrors(SC, nStepsRamp=10, eps=1e-5, target=0, alpha=10, maxsteps=30)
 def scaleSupport(SC, SC0, fields, scale):
     for type in SUPPORT_TYPES:
         if type in SC.ORD:
-            for ordPair in SC.ORD[type]:
+            for ordPair in SC.ORD[type].T:
                 for field in fields:
                     for se in range(2):
-                        if field in SC.RING[ordPair[se]][type]:
-                            SC.RING[ordPair[se]][type][field] = scale * SC0.RING[ordPair[se]][type][field]
+                        if hasattr(SC.RING[ordPair[se]], f'{type}{field}'):
+                            setattr(SC.RING[ordPair[se]], f'{type}{field}', scale * getattr(SC0.RING[ordPair[se]], f'{type}{field}'))
     return SC
 
 
 def scaleMagnets(SC, SC0, fields, scale):
     for ord in SC.ORD.Magnet:
         for field in fields:
-            if field in SC.RING[ord]:
-                SC.RING[ord][field] = scale * SC0.RING[ord][field]
-    SC = SC.update_supports()
-    SC = SC.update_magnets()
+            if hasattr(SC.RING[ord], field):
+                setattr(SC.RING[ord], field, scale * getattr(SC0.RING[ord], field))
+    SC.update_supports()
+    SC.update_magnets()
     return SC
 
 
 def scaleBPMs(SC, SC0, fields, scale):
     for ord in SC.ORD.BPM:
         for field in fields:
-            if field in SC.RING[ord]:
-                SC.RING[ord][field] = scale * SC0.RING[ord][field]
+            if hasattr(SC.RING[ord], field):
+                setattr(SC.RING[ord], field, scale * getattr(SC0.RING[ord], field))
     return SC
 
 
@@ -69,7 +69,8 @@ def scaleRF(SC, SC0, fields, scale):
     for type in RF_PROPERTIES:
         for field in fields:
             for ord in SC.ORD.RF:
-                SC.RING[ord][type + field] = scale * SC0.RING[ord][type + field]
+                setattr(SC.RING[ord], f'{type}{field}', scale * getattr(SC0.RING[ord], f'{type}{field}'))
+    SC.update_cavities()
     return SC
 
 
-- 
2.43.0


From 7c478ed88b394894095bca67c549b6c54ace601c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:16 +0000
Subject: [PATCH 40/46] fix: rolls of supports crossing the injection point act
 only on the elements on the support

---
 pySC/core/simulated_commissioning.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pySC/core/simulated_commissioning.py b/pySC/core/simulated_commissioning.py
index e3b2b1e..a074524 100644
--- a/pySC/core/simulated_commissioning.py
+++ b/pySC/core/simulated_commissioning.py
@@ -751,10 +751,10 @@ class SimulatedCommissioning:
                 mask[ords[0]:ords[1]] = True
                 offset1 = off0[1, ords[1]] - off0[1, ords[0]]
                 offset2 = off0[0, ords[1]] - off0[0, ords[0]]
-                if ords[0] > ords[1]:
+                if ords[0] > ords[1]:  # Injection is within the support structure
                     struct_length = ring_length + struct_length
-                    mask[ords[0]] = False
-                    mask = ~mask
+                    mask[ords[0]:] = True
+                    mask[:ords[1] + 1] = True
                 else:
                     mask[ords[1]] = True
                 roll0[0, mask] += roll_start0
-- 
2.43.0


From 8614b407b83707c2b254a84a6b775991b0c0d3d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:50 +0000
Subject: [PATCH 41/46] fix: effective sample size does not count masked
 entries

---
 pySC/utils/stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySC/utils/stats.py b/pySC/utils/stats.py
index fafc5d8..9b4708a 100644
--- a/pySC/utils/stats.py
+++ b/pySC/utils/stats.py
@@ -286,7 +286,7 @@ def effective_sample_size(data, weights, axis=None):
         Returns the error of weighted circular average along the specified axis.
     """
     if weights is None:
-        sample_size = np.sum(np.ones(data.shape), axis=axis)
+        sample_size = np.ma.count(data, axis=axis)  # masked entries do not count
     else:
         sample_size = np.square(np.sum(weights, axis=axis)) / np.sum(np.square(weights), axis=axis)
     return np.where(sample_size > 2, sample_size, 2)
-- 
2.43.0


From df1010f56a8912a63223d6b933980cfa04429f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:18 +0000
Subject: [PATCH 42/46] fix: ramping up errors with more steps is not continued
 with the outer ramp

After a failed correction the ramp was repeated with twice the steps, and the
outer ramp then went on scaling the result by itself (SC and SC0 were the same
object), so that the returned machine had too small errors.
---
 pySC/correction/ramp_errors.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pySC/correction/ramp_errors.py b/pySC/correction/ramp_errors.py
index 36cd072..d6c519c 100644
--- a/pySC/correction/ramp_errors.py
+++ b/pySC/correction/ramp_errors.py
@@ -30,8 +30,8 @@ def SCrampUpErrors(SC, nStepsRamp=10, eps=1e-5, target=0, alpha=10, maxsteps=30)
                                 f'Try different feedback parameters.')
             else:
                 LOGGER.info(f'Feedback did not succeed at scaling {scale:.2f}. Trying with {2 * nStepsRamp} ramping steps.')
-                SC = SCrampUpErrors(SC0, nStepsRamp=2 * nStepsRamp, eps=eps, target=target, alpha=alpha,
-                                    maxsteps=maxsteps)
+                return SCrampUpErrors(SC0, nStepsRamp=2 * nStepsRamp, eps=eps, target=target, alpha=alpha,
+                                      maxsteps=maxsteps)
 
     return SC
 
-- 
2.43.0


From 9de4279d67dfb5776e77b2c61818a2bbf0252170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:29 +0000
Subject: [PATCH 43/46] fix: response_matrix divides by the corrector step that
 was applied

---
 pySC/lattice_properties/response_measurement.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pySC/lattice_properties/response_measurement.py b/pySC/lattice_properties/response_measurement.py
index f8fc6b9..46a1397 100644
--- a/pySC/lattice_properties/response_measurement.py
+++ b/pySC/lattice_properties/response_measurement.py
@@ -102,7 +102,8 @@ def _kick_amplitude(SC, bref, bpm_ords, cm_ord, amp, skewness: bool, mode):
             LOGGER.debug(
                 f'Insufficient beam reach ({max_pos:.0f}/{max_pos_ref:.0f}). '
                 f'cm_step reduced to {1E6 * max_step:.1f}urad.')
-    return max_step, np.ravel(bpm_reading(SC, bpm_ords=bpm_ords)[0]) - bref
+    applied_step = (SC.get_cm_setpoints(cm_ord, skewness) - cmstart)[0]  # last step tried, may be clipped
+    return applied_step, np.ravel(bpm_reading(SC, bpm_ords=bpm_ords)[0]) - bref
 
 
 def _try_setpoint(SC, bpm_ords, cm_ord, cmstart, max_step, skewness):
-- 
2.43.0


From 7ade293ac58a4c079e886fc2c9ea16c0eaa9e880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:29 +0000
Subject: [PATCH 44/46] fix: response_matrix in fixedOffset mode ignores BPMs
 without beam when it scales the step

---
 pySC/lattice_properties/response_measurement.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySC/lattice_properties/response_measurement.py b/pySC/lattice_properties/response_measurement.py
index 46a1397..19b7f41 100644
--- a/pySC/lattice_properties/response_measurement.py
+++ b/pySC/lattice_properties/response_measurement.py
@@ -94,7 +94,7 @@ def _kick_amplitude(SC, bref, bpm_ords, cm_ord, amp, skewness: bool, mode):
         max_pos, max_pos_ref = np.sum(~np.isnan(bpm_readings_ravel)) / 2, np.sum(~np.isnan(bref)) / 2
         if max_pos_ref <= max_pos:
             if mode == "fixedOffset":
-                max_step = max_step * amp / np.max(np.abs(bpm_readings_ravel - bref))
+                max_step = max_step * amp / np.nanmax(np.abs(bpm_readings_ravel - bref))
             else:
                 break
         else:
-- 
2.43.0


From 017325035010d8107b153f9fa2f2d2c5dec70f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:42 +0000
Subject: [PATCH 45/46] fix: loco_correction_ng uses the derivatives of the
 included parameters

---
 pySC/correction/loco.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySC/correction/loco.py b/pySC/correction/loco.py
index 381c4a6..0ee87cd 100644
--- a/pySC/correction/loco.py
+++ b/pySC/correction/loco.py
@@ -101,7 +101,7 @@ def loco_correction_ng(initial_guess0, orm_model, orm_measured, J, lengths, incl
     r = residuals.reshape(np.transpose(orm_model).shape)
     t2 = np.zeros([len(initial_guess[mask]), 1])
     for i in range(len(initial_guess[mask])):
-        t2[i] = np.sum(np.dot(np.dot(J[i].T, weights), r.T))
+        t2[i] = np.sum(np.dot(np.dot(J[mask, :, :][i].T, weights), r.T))
     return get_inverse(J[mask, :, :], t2, s_cut, weights, LM_lambda=LM_lambda)
 
 
-- 
2.43.0


From 03e77f9aecb3eb33d1bce5dd867e61e3c8d5ff13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:42 +0000
Subject: [PATCH 46/46] fix: measure_closed_orbit_response_matrix divides by
 the kick that was applied

---
 pySC/correction/loco.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pySC/correction/loco.py b/pySC/correction/loco.py
index 0ee87cd..3ff4ac3 100644
--- a/pySC/correction/loco.py
+++ b/pySC/correction/loco.py
@@ -76,9 +76,10 @@ def measure_closed_orbit_response_matrix(SC, bpm_ords, cm_ords, dkick=1e-5):
         for cm_ord in cm_ords[n_dim]:
             init_setpoint = SC.get_cm_setpoints(cm_ord, skewness=bool(n_dim))
             SC.set_cm_setpoints(cm_ord, dkick, skewness=bool(n_dim), method=SETTING_ADD)
+            applied_kick = SC.get_cm_setpoints(cm_ord, skewness=bool(n_dim)) - init_setpoint  # may be clipped
             closed_orbits1 = bpm_reading(SC, bpm_ords=bpm_ords)[0]
             SC.set_cm_setpoints(cm_ord, init_setpoint, skewness=bool(n_dim))
-            response_matrix[:, cnt] = np.ravel((closed_orbits1 - closed_orbits0) / dkick)
+            response_matrix[:, cnt] = np.ravel((closed_orbits1 - closed_orbits0) / applied_kick)
             cnt = cnt + 1
     SC.INJ.trackMode, SC.INJ.nTurns, SC.INJ.nParticles = init_track_mode, init_n_turns, init_n_particles
     return response_matrix
-- 
2.43.0

