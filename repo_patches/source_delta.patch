From c354ab4a748e152abd9cac7d53bbddf4f42a7b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:41 +0000
Subject: [PATCH 01/11] fix: schlick_diffuse returned (inf, nan) for a
 downward-facing surface

---
 pvlib/iam.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/pvlib/iam.py b/pvlib/iam.py
index 9ba981c..aed66d1 100644
--- a/pvlib/iam.py
+++ b/pvlib/iam.py
@@ -941,11 +941,17 @@ def schlick_diffuse(surface_tilt):
     # relative transmittance of sky diffuse radiation by PV cover:
     cosB = cosd(surface_tilt)
     sinB = sind(surface_tilt)
-    cuk = (2 / (np.pi * (1 + cosB))) * (
-        (30/7)*np.pi - (160/21)*np.radians(surface_tilt) - (10/3)*np.pi*cosB
-        + (160/21)*cosB*sinB - (5/3)*np.pi*cosB*sinB**2 + (20/7)*cosB*sinB**3
-        - (5/16)*np.pi*cosB*sinB**4 + (16/105)*cosB*sinB**5
-    )  # Eq 4 in [2]
+    with np.errstate(divide='ignore', invalid='ignore'):  # Eq 4 in [2]
+        cuk = (2 / (np.pi * (1 + cosB))) * (
+            (30/7)*np.pi - (160/21)*np.radians(surface_tilt)
+            - (10/3)*np.pi*cosB
+            + (160/21)*cosB*sinB - (5/3)*np.pi*cosB*sinB**2
+            + (20/7)*cosB*sinB**3
+            - (5/16)*np.pi*cosB*sinB**4 + (16/105)*cosB*sinB**5
+        )
+
+    # no sky is visible from a downward-facing surface (0/0 in Eq 4)
+    cuk = np.where(surface_tilt > 180 - 1e-6, 0, cuk)
 
     # relative transmittance of ground-reflected radiation by PV cover:
     with np.errstate(divide='ignore', invalid='ignore'):  # Eq 6 in [2]
-- 
2.43.0


From b2af86dd838e81b99f54d3adf44117fe142338c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:02 +0000
Subject: [PATCH 02/11] fix: bishop88 returned NaN at and below the breakdown
 voltage with breakdown disabled

---
 pvlib/singlediode.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pvlib/singlediode.py b/pvlib/singlediode.py
index 974d59d..eb92308 100644
--- a/pvlib/singlediode.py
+++ b/pvlib/singlediode.py
@@ -167,7 +167,9 @@ def bishop88(diode_voltage, photocurrent, saturation_current,
     v_star = diode_voltage / nNsVth  # non-dimensional diode voltage
     g_sh = 1.0 / resistance_shunt  # conductance
 
-    brk_term = 1 - diode_voltage / breakdown_voltage
+    # without breakdown the term is 1, so that i_breakdown is 0 at any voltage
+    brk_term = np.where(np.equal(breakdown_factor, 0), 1.,
+                        1 - diode_voltage / breakdown_voltage)
     brk_pwr = np.power(brk_term, -breakdown_exp)
     i_breakdown = breakdown_factor * diode_voltage * g_sh * brk_pwr
 
-- 
2.43.0


From 5ad9804eea8352982b5e9436d5f227eb5017e075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:02 +0000
Subject: [PATCH 03/11] fix: bishop88 gradients of the breakdown term lacked
 the factor -1/breakdown_voltage

---
 pvlib/singlediode.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pvlib/singlediode.py b/pvlib/singlediode.py
index eb92308..bf443c8 100644
--- a/pvlib/singlediode.py
+++ b/pvlib/singlediode.py
@@ -185,11 +185,14 @@ def bishop88(diode_voltage, photocurrent, saturation_current,
         brk_pwr_1 = np.power(brk_term, -breakdown_exp - 1)
         brk_pwr_2 = np.power(brk_term, -breakdown_exp - 2)
         brk_fctr = breakdown_factor * g_sh
+        # d(brk_term)/dvd
+        grad_brk = -1.0 / breakdown_voltage
         grad_i_brk = brk_fctr * (brk_pwr + diode_voltage *
-                                 -breakdown_exp * brk_pwr_1)
-        grad2i_brk = (brk_fctr * -breakdown_exp        # noqa: W503
+                                 -breakdown_exp * brk_pwr_1 * grad_brk)
+        grad2i_brk = (brk_fctr * -breakdown_exp * grad_brk   # noqa: W503
                       * (2 * brk_pwr_1 + diode_voltage   # noqa: W503
-                         * (-breakdown_exp - 1) * brk_pwr_2))  # noqa: W503
+                         * (-breakdown_exp - 1) * brk_pwr_2  # noqa: W503
+                         * grad_brk))  # noqa: W503
         grad_i = -g_diode - g_sh - grad_i_recomb - grad_i_brk  # di/dvd
         grad_v = 1.0 - grad_i * resistance_series  # dv/dvd
         # dp/dv = d(iv)/dv = v * di/dv + i
-- 
2.43.0


From e2b328014d3909528f7a0df815f615153a5e6ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:54 +0000
Subject: [PATCH 04/11] fix: sapm returned NaN v_mp and p_mp at zero irradiance
 for modules with C2 < 0

The C2 and C3 terms were infinities of opposite signs.
---
 pvlib/pvsystem.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pvlib/pvsystem.py b/pvlib/pvsystem.py
index 02b16ed..79c1db9 100644
--- a/pvlib/pvsystem.py
+++ b/pvlib/pvsystem.py
@@ -2383,7 +2383,10 @@ def sapm(effective_irradiance, temp_cell, module, *, temperature_ref=25,
         module['Voco'] + cells_in_series * delta * logEe +
         Bvoco*(temp_cell - temperature_ref)))
 
-    out['v_mp'] = np.maximum(0, (
+    # zero at zero irradiance, where the C2 and C3 terms could be infinite
+    # with opposite signs
+    logEe = np.where(Ee_eq_0, 0, logEe)
+    out['v_mp'] = ~Ee_eq_0 * np.maximum(0, (
         module['Vmpo'] +
         module['C2'] * cells_in_series * delta * logEe +
         module['C3'] * cells_in_series * ((delta * logEe) ** 2) +
-- 
2.43.0


From 2823b357cf72d217e6547ef69f8f5f616a2537fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:59 +0000
Subject: [PATCH 05/11] fix: calcparams_desoto and calcparams_cec raised
 ZeroDivisionError for zero irradiance given as a Python number

---
 pvlib/pvsystem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvlib/pvsystem.py b/pvlib/pvsystem.py
index 79c1db9..057a2b6 100644
--- a/pvlib/pvsystem.py
+++ b/pvlib/pvsystem.py
@@ -1743,7 +1743,7 @@ def calcparams_desoto(effective_irradiance, temp_cell,
     # spectral_modifier = 1.0.
     # use errstate to silence divide by warning
     with np.errstate(divide='ignore'):
-        Rsh = R_sh_ref * (irrad_ref / effective_irradiance)
+        Rsh = R_sh_ref * np.divide(irrad_ref, effective_irradiance)
 
     Rs = R_s
 
-- 
2.43.0


From 8a2d846e62135c1668c32f609b93930341f2afb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:48 +0000
Subject: [PATCH 06/11] fix: ModelChain ac_model accepted any substring of
 'adr' as the ADR inverter model

'', 'a', 'dr', ... selected the ADR inverter instead of raising ValueError.
---
 pvlib/modelchain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvlib/modelchain.py b/pvlib/modelchain.py
index cf7a5bf..355b0d8 100644
--- a/pvlib/modelchain.py
+++ b/pvlib/modelchain.py
@@ -720,7 +720,7 @@ class ModelChain:
             model = model.lower()
             if model == 'sandia':
                 self._ac_model = self.sandia_inverter
-            elif model in 'adr':
+            elif model == 'adr':
                 self._ac_model = self.adr_inverter
             elif model == 'pvwatts':
                 self._ac_model = self.pvwatts_inverter
-- 
2.43.0


From fa12771b4a3177b395b82e618ab487295adbbcea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:54 +0000
Subject: [PATCH 07/11] fix: ModelChain with the ADR inverter raised TypeError
 for one array with weather in a tuple

results.dc is then a tuple of length one, as for the Sandia inverter.
---
 pvlib/modelchain.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pvlib/modelchain.py b/pvlib/modelchain.py
index 355b0d8..c92b506 100644
--- a/pvlib/modelchain.py
+++ b/pvlib/modelchain.py
@@ -759,8 +759,8 @@ class ModelChain:
     def adr_inverter(self):
         self.results.ac = self.system.get_ac(
             'adr',
-            self.results.dc['p_mp'],
-            v_dc=self.results.dc['v_mp']
+            _tuple_from_dfs(self.results.dc, 'p_mp'),
+            v_dc=_tuple_from_dfs(self.results.dc, 'v_mp')
         )
         return self
 
-- 
2.43.0


From f55f6f488e7e8b76df68fb2932ab23c929f3a422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:59 +0000
Subject: [PATCH 08/11] fix: simplified_solis failed for a series of length one

The single value of taud was looked up by label 0, which raises KeyError
for any series without that label (such as one time stamp).
---
 pvlib/clearsky.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvlib/clearsky.py b/pvlib/clearsky.py
index da9d197..bac8cc0 100644
--- a/pvlib/clearsky.py
+++ b/pvlib/clearsky.py
@@ -509,7 +509,7 @@ def _calc_taud(w, aod700, p):
 
     # be polite about matching the output type to the input type(s)
     if len(taud) == 1:
-        taud = taud[0]
+        taud = np.asarray(taud)[0]
 
     return taud
 
-- 
2.43.0


From 935691f752340a0ebc71c620b924cde3b8a2249c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:17 +0000
Subject: [PATCH 09/11] fix: get_solarposition with nrel_c passed the
 temperature as altitude

spa_c takes pressure, altitude, temperature in that order, so the
altitude was dropped and the default temperature was used.
---
 pvlib/solarposition.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pvlib/solarposition.py b/pvlib/solarposition.py
index 4441ed0..ec8a447 100644
--- a/pvlib/solarposition.py
+++ b/pvlib/solarposition.py
@@ -101,8 +101,8 @@ def get_solarposition(time, latitude, longitude,
         time = pd.DatetimeIndex([time, ])
 
     if method == 'nrel_c':
-        ephem_df = spa_c(time, latitude, longitude, pressure, temperature,
-                         **kwargs)
+        ephem_df = spa_c(time, latitude, longitude, pressure, altitude,
+                         temperature, **kwargs)
     elif method == 'nrel_numba':
         ephem_df = spa_python(time, latitude, longitude, altitude,
                               pressure, temperature,
-- 
2.43.0


From 5f54b6a0f525fe24ec762e9fa592e03ad1d6f715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:32 +0000
Subject: [PATCH 10/11] fix: Location.get_airmass rejected the documented
 'gueymard2003' airmass model

---
 pvlib/atmosphere.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvlib/atmosphere.py b/pvlib/atmosphere.py
index f3b793e..a59437d 100644
--- a/pvlib/atmosphere.py
+++ b/pvlib/atmosphere.py
@@ -8,7 +8,7 @@ import numpy as np
 import pandas as pd
 
 APPARENT_ZENITH_MODELS = ('simple', 'kasten1966', 'kastenyoung1989',
-                          'gueymard1993', 'pickering2002')
+                          'gueymard1993', 'pickering2002', 'gueymard2003')
 TRUE_ZENITH_MODELS = ('youngirvine1967', 'young1994')
 AIRMASS_MODELS = APPARENT_ZENITH_MODELS + TRUE_ZENITH_MODELS
 
-- 
2.43.0


From 93af6b9f591458e0abaf1e5016d79a206fda1479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:59 +0000
Subject: [PATCH 11/11] fix: hour angle and geometric sunrise/sunset/transit
 were off by the clock change on days with a daylight saving transition

The UTC offset at each time was combined with the hours elapsed since local
midnight; the offset at local midnight is the one that matches them.
---
 pvlib/solarposition.py | 33 +++++++++++++++++++++++----------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/pvlib/solarposition.py b/pvlib/solarposition.py
index ec8a447..697f21d 100644
--- a/pvlib/solarposition.py
+++ b/pvlib/solarposition.py
@@ -1410,7 +1410,7 @@ def hour_angle(times, longitude, equation_of_time):
         raise ValueError('times must be localized')
 
     # hours - timezone = (times - normalized_times) - (naive_times - times)
-    tzs = np.array([ts.utcoffset().total_seconds() for ts in times]) / 3600
+    tzs = _utc_offset_at_local_midnight(times)
 
     hrs_minus_tzs = _times_to_hours_after_local_midnight(times) - tzs
 
@@ -1424,7 +1424,7 @@ def _hour_angle_to_hours(times, hourangle, longitude, equation_of_time):
     if not times.tz:
         raise ValueError('times must be localized')
 
-    tzs = np.array([ts.utcoffset().total_seconds() for ts in times]) / 3600
+    tzs = _utc_offset_at_local_midnight(times)
     hours = (hourangle - longitude - equation_of_time / 4.) / 15. + 12. + tzs
     return np.asarray(hours)
 
@@ -1443,12 +1443,8 @@ def _local_times_from_hours_since_midnight(times, hours):
     return times.normalize() + pd.to_timedelta(hours, unit='h')
 
 
-def _times_to_hours_after_local_midnight(times):
-    """convert local pandas datetime indices to array of hours as floats"""
-
-    # times must be localized
-    if not times.tz:
-        raise ValueError('times must be localized')
+def _local_midnight(times):
+    """previous local midnight of each time"""
 
     # Some timezones have a DST shift at midnight:
     #   11:59pm -> 1:00am - results in a nonexistent midnight
@@ -1457,10 +1453,27 @@ def _times_to_hours_after_local_midnight(times):
     naive_normalized_times = times.tz_localize(None).normalize()
 
     # Use Pandas functionality for shifting nonexistent times forward
-    normalized_times = naive_normalized_times.tz_localize(
+    return naive_normalized_times.tz_localize(
         times.tz, nonexistent='shift_forward', ambiguous='raise')
 
-    hrs = (times - normalized_times) / pd.Timedelta('1h')
+
+def _utc_offset_at_local_midnight(times):
+    """UTC offset in hours at local midnight. Hours after local midnight are
+    elapsed hours, so this is the offset that converts them to UTC also later
+    on a day with a daylight savings transition."""
+    naive_midnight = times.tz_localize(None).normalize()
+    offset = naive_midnight - _local_midnight(times).tz_convert(None)
+    return np.array(offset / pd.Timedelta('1h'))
+
+
+def _times_to_hours_after_local_midnight(times):
+    """convert local pandas datetime indices to array of hours as floats"""
+
+    # times must be localized
+    if not times.tz:
+        raise ValueError('times must be localized')
+
+    hrs = (times - _local_midnight(times)) / pd.Timedelta('1h')
 
     # ensure array return instead of a version-dependent pandas <T>Index
     return np.array(hrs)
-- 
2.43.0

