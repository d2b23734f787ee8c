From 30ec24e935690582a4dff952a1108e9da948fe1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:59 +0000
Subject: [PATCH 01/74] fix: leave skipped targets out of the observed target
 dict

A skipped target was stored as {None: None}, and standard_pipeline crashed
on it while writing the results, losing the targets still to be written.
---
 exorad/tasks/targetHandler.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/exorad/tasks/targetHandler.py b/exorad/tasks/targetHandler.py
index b1000ff..004055d 100644
--- a/exorad/tasks/targetHandler.py
+++ b/exorad/tasks/targetHandler.py
@@ -389,14 +389,16 @@ class ObserveTargetlist(Task):
                     repeat(out_dir),
                     repeat(debug),
                 ):
-                    outputDict[t_name] = output
+                    if t_name is not None:
+                        outputDict[t_name] = output
         else:
             outputDict = {}
             for target in targets:
                 t_name, output = pipeline_to_dict(
                     target, payload, channels, wl_range, plot, out_dir, debug
                 )
-                outputDict[t_name] = output
+                if t_name is not None:
+                    outputDict[t_name] = output
 
         self.set_output(outputDict)
 
-- 
2.43.0


From 1b226f8e68efc93d99ed2b64982c1292c26c3100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:59 +0000
Subject: [PATCH 02/74] fix: observe targets with a payload that lists no
 foreground

ObserveTarget propagated the foreground light even when the payload has no
foreground, so every target failed with an AttributeError.
---
 exorad/tasks/targetHandler.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/exorad/tasks/targetHandler.py b/exorad/tasks/targetHandler.py
index 004055d..8f82f98 100644
--- a/exorad/tasks/targetHandler.py
+++ b/exorad/tasks/targetHandler.py
@@ -250,7 +250,9 @@ class ObserveTarget(Task):
                 target=target,
                 wl_range=(wl_min, wl_max),
             )
-        target = propagateForegroundLight(channels=channels, target=target)
+            target = propagateForegroundLight(
+                channels=channels, target=target
+            )
 
         target, sed = loadSource(
             target=target,
-- 
2.43.0


From 7c6ef05b336aab2baaf1e55a7236235988e949d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:59 +0000
Subject: [PATCH 03/74] fix: keep the sky transmission of a target out of the
 channel table

The transmission of the sky in front of one target was stored as a column of
the channel table, so it showed up in the tables of the targets observed later
(and stayed there, stale, for targets without a sky transmission).
---
 exorad/models/instruments/instrument.py   | 4 ++--
 exorad/models/instruments/photometer.py   | 6 +++---
 exorad/models/instruments/spectrometer.py | 6 +++---
 3 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/exorad/models/instruments/instrument.py b/exorad/models/instruments/instrument.py
index 1ca745d..39d1a00 100644
--- a/exorad/models/instruments/instrument.py
+++ b/exorad/models/instruments/instrument.py
@@ -340,7 +340,7 @@ class Instrument(Logger):
         self.debug("qe in channel : {}".format(qe))
         return qe, qe_data
 
-    def _get_efficiency(self, wl, target):
+    def _get_efficiency(self, wl, target, out):
         # qe = interp1d(wl, self.built_instr['qe_data']['wl_grid'],
         #               self.built_instr['qe_data']['data'], left=0.0, right=0.0)
         # transmission = interp1d(wl, self.built_instr['transmission_data']['wl_grid'],
@@ -362,7 +362,7 @@ class Instrument(Logger):
 
         if hasattr(target, "skyTransmission"):
             target_transmission = copy.deepcopy(target.skyTransmission)
-            self.table["sky TR"], _ = self._get_transmission(
+            out["foreground_transmission"], _ = self._get_transmission(
                 target_transmission.wl_grid, target_transmission.data
             )
             target_transmission.spectral_rebin(wl)
diff --git a/exorad/models/instruments/photometer.py b/exorad/models/instruments/photometer.py
index 4bdc5f2..6a44589 100644
--- a/exorad/models/instruments/photometer.py
+++ b/exorad/models/instruments/photometer.py
@@ -134,9 +134,9 @@ class Photometer(Instrument):
     def propagate_target(self, target):
         out = QTable()
         wl = target.star.sed.wl_grid
-        qe, transmission, wave_window = self._get_efficiency(wl, target)
-        if "sky TR" in self.table.keys():
-            out["foreground_transmission"] = self.table["sky TR"]
+        qe, transmission, wave_window = self._get_efficiency(
+            wl, target, out
+        )
 
         if self.payload["optics"]["ForceChannelWlEdge"]["value"]:
             self.debug("force channel wl edge enabled")
diff --git a/exorad/models/instruments/spectrometer.py b/exorad/models/instruments/spectrometer.py
index f57e861..2f712ac 100644
--- a/exorad/models/instruments/spectrometer.py
+++ b/exorad/models/instruments/spectrometer.py
@@ -326,9 +326,9 @@ class Spectrometer(Instrument):
     def propagate_target(self, target):
         out = QTable()
         wl = target.star.sed.wl_grid
-        qe, transmission, wave_window = self._get_efficiency(wl, target)
-        if "sky TR" in self.table.keys():
-            out["foreground_transmission"] = self.table["sky TR"]
+        qe, transmission, wave_window = self._get_efficiency(
+            wl, target, out
+        )
         if self.payload["optics"]["ForceChannelWlEdge"]["value"]:
             self.debug("force channel wl edge enabled")
             idx = np.logical_or(
-- 
2.43.0


From c9ac040deafd55dc4f57c8a050c9d883edde9202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:59 +0000
Subject: [PATCH 04/74] fix: vstack_tables must not modify or return its input
 tables

Missing columns were added to the input tables, i.e. to the channel tables,
and a single table was returned as is, so that with a one channel payload the
target metadata ended up in the channel table.
---
 exorad/utils/util.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/exorad/utils/util.py b/exorad/utils/util.py
index d6ff10b..55453d2 100644
--- a/exorad/utils/util.py
+++ b/exorad/utils/util.py
@@ -77,9 +77,11 @@ def to_dict(obj, classkey=None):
 
 
 def vstack_tables(table_list):
-    table = False
+    table = None
     for tab in table_list:
-        if not table:
+        # work on copies: the input tables must not be modified
+        tab = tab.copy()
+        if table is None:
             table = tab
         else:
             col_name1 = [col for col in table.keys() if col not in tab.keys()]
-- 
2.43.0


From 27431f7ced38a51b44c083e9324e2081b354a1d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:59 +0000
Subject: [PATCH 05/74] fix: observing a target again starts from no
 foregrounds

The sky transmission of the previous observation was multiplied again by the
one of the new observation, and foregrounds no longer in the payload stayed.
---
 exorad/tasks/targetHandler.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/exorad/tasks/targetHandler.py b/exorad/tasks/targetHandler.py
index 8f82f98..1664d01 100644
--- a/exorad/tasks/targetHandler.py
+++ b/exorad/tasks/targetHandler.py
@@ -242,6 +242,11 @@ class ObserveTarget(Task):
         propagateForegroundLight = PropagateForegroundLight()
         estimateNoise = EstimateNoise()
 
+        # forget the foregrounds left by a previous observation of the target
+        for attr in ["foreground", "skyTransmission"]:
+            if hasattr(target, attr):
+                delattr(target, attr)
+
         target = prepareTarget(target=target, channels=channels)
 
         if "foreground" in payload["common"]:
-- 
2.43.0


From 00562f198263a0e571892d20c70b6bc82605900a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:26 +0000
Subject: [PATCH 06/74] fix: foregrounds are seen through the foregrounds in
 front of them

The transmission attribute was looked up on the name of the foreground instead
of the foreground, so a foreground never filtered the ones behind it.
---
 exorad/models/instruments/instrument.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/exorad/models/instruments/instrument.py b/exorad/models/instruments/instrument.py
index 39d1a00..6cef782 100644
--- a/exorad/models/instruments/instrument.py
+++ b/exorad/models/instruments/instrument.py
@@ -191,14 +191,17 @@ class Instrument(Logger):
             radiance = copy.deepcopy(target.foreground[frg])
             self.debug("{} radiance . {}".format(frg, radiance.data))
 
-            if hasattr(frg, "transmission"):
-                frg.transmission.spectral_rebin(transmission.wl_grid)
-                transmission.data *= frg.transmission.data
-                self.debug("added {} transmission".format(frg))
-
             transmission.spectral_rebin(radiance.wl_grid)
             radiance.data *= transmission.data
 
+            # the foregrounds behind this one are seen through it
+            frg_transmission = getattr(
+                target.foreground[frg], "transmission", None
+            )
+            if frg_transmission is not None:
+                transmission.data = transmission.data * frg_transmission
+                self.debug("added {} transmission".format(frg))
+
             # for other_el in foregrounds[i+1:]:
             #     if hasattr(target.foreground[other_el], 'transmission'):
             #         self.debug('passing through {}'.format(other_el))
-- 
2.43.0


From ca435b9dc4d16f5fdc847f037bed80d6e3e8f542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:26 +0000
Subject: [PATCH 07/74] fix: use the solid angle given for an optical element

The solid_angle of an element was read but never handed to its radiance, so
the element was always integrated over the default solid angle.
---
 exorad/models/optics/opticalPath.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/exorad/models/optics/opticalPath.py b/exorad/models/optics/opticalPath.py
index 5dd2f76..d1610d7 100644
--- a/exorad/models/optics/opticalPath.py
+++ b/exorad/models/optics/opticalPath.py
@@ -68,6 +68,7 @@ class InstRadiance(Radiance):
 
     position = "path"
     slit = None
+    angle = None
 
 
 class OpticalPath(Logger):
@@ -259,6 +260,7 @@ class OpticalPath(Logger):
             self.debug(f"Propagating {el.name}")
             out_radiance = InstRadiance(wl_grid=wl, data=np.zeros(wl.size))
             out_radiance.position = el.position
+            out_radiance.angle = el.angle
             if el.temperature is not None:
                 # Calculate the surface radiance
                 out_radiance.data = surface_radiance(
@@ -317,7 +319,7 @@ class OpticalPath(Logger):
                     ch_built_instr,
                     A,
                     ch_table,
-                    omega_pix,
+                    omega_pix if rad.angle is None else rad.angle,
                     qe,
                     rad,
                 )
-- 
2.43.0


From 0c466f92868a0473a208de28a4491bf79b4b3dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:39 +0000
Subject: [PATCH 08/74] fix: use the zodiac factor when the zodiacal map cannot
 be read

The result of the fallback was dropped, so the observation failed instead.
---
 exorad/models/foregrounds/zodiacalForeground.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exorad/models/foregrounds/zodiacalForeground.py b/exorad/models/foregrounds/zodiacalForeground.py
index 0bacb83..8db5daa 100644
--- a/exorad/models/foregrounds/zodiacalForeground.py
+++ b/exorad/models/foregrounds/zodiacalForeground.py
@@ -51,7 +51,7 @@ class ZodiacalFrg(Logger):
                 A = self.zodiacal_fit_direction(coordinates, map_file)
             except (KeyError, OSError):
                 self.warning("zodiacal fit failed")
-                self._get_radiance(coordinates=None)
+                return self._get_radiance(coordinates=None)
 
         elif "zodiacFactor" in self.description:
             self.debug(" model used for zodiacal foreground")
-- 
2.43.0


From 1cbccd2588a5a626868c93c2641e5bedb17e9065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:39 +0000
Subject: [PATCH 09/74] fix: nearest zodiacal map position across the zero of
 right ascension

---
 exorad/models/foregrounds/zodiacalForeground.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/exorad/models/foregrounds/zodiacalForeground.py b/exorad/models/foregrounds/zodiacalForeground.py
index 8db5daa..cd46354 100644
--- a/exorad/models/foregrounds/zodiacalForeground.py
+++ b/exorad/models/foregrounds/zodiacalForeground.py
@@ -1,4 +1,5 @@
 import astropy.units as u
+from astropy.coordinates import Angle
 
 from exorad.log import Logger
 from exorad.models.signal import Radiance
@@ -118,7 +119,10 @@ class ZodiacalFrg(Logger):
         try:
             zodi_table = read_table_hdf5(zodi_map_file)
             self.debug(zodi_table)
-            distance = (zodi_table["ra_icrs"] * u.deg - ra_input) ** 2 + (
+            delta_ra = Angle(
+                zodi_table["ra_icrs"] * u.deg - ra_input
+            ).wrap_at(180 * u.deg)
+            distance = delta_ra**2 + (
                 zodi_table["dec_icrs"] * u.deg - dec_input
             ) ** 2
             idx = np.argmin(distance)
-- 
2.43.0


From 37b291962270c550d12593e728f2dc5cce07e062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:39 +0000
Subject: [PATCH 10/74] fix: the ForceChannelWlEdge option may be left out, as
 documented

Commenting it out, as the example payload suggests, raised a KeyError.
---
 exorad/models/instruments/instrument.py   | 12 +++++++++++-
 exorad/models/instruments/photometer.py   |  2 +-
 exorad/models/instruments/spectrometer.py |  2 +-
 3 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/exorad/models/instruments/instrument.py b/exorad/models/instruments/instrument.py
index 6cef782..da9e16f 100644
--- a/exorad/models/instruments/instrument.py
+++ b/exorad/models/instruments/instrument.py
@@ -247,6 +247,16 @@ class Instrument(Logger):
         ]
         return u.Quantity(bsig)
 
+    def _force_channel_wl_edge(self):
+        """
+        it tells if the transmission is forced to zero outside the channel band.
+        The option is disabled if it is not in the payload description.
+        """
+        optics = self.payload["optics"]
+        if "ForceChannelWlEdge" not in optics:
+            return False
+        return bool(optics["ForceChannelWlEdge"]["value"])
+
     def _get_transmission(self, wl_grid, tr_data=None):
         tr_func = interp1d(
             wl_grid,
@@ -266,7 +276,7 @@ class Instrument(Logger):
             self.table["RightBinEdge"],
         )
 
-        if self.payload["optics"]["ForceChannelWlEdge"]["value"]:
+        if self._force_channel_wl_edge():
             self.debug("force channel wl edge enabled")
             idx = np.logical_or(
                 self.table["Wavelength"]
diff --git a/exorad/models/instruments/photometer.py b/exorad/models/instruments/photometer.py
index 6a44589..d8370d4 100644
--- a/exorad/models/instruments/photometer.py
+++ b/exorad/models/instruments/photometer.py
@@ -138,7 +138,7 @@ class Photometer(Instrument):
             wl, target, out
         )
 
-        if self.payload["optics"]["ForceChannelWlEdge"]["value"]:
+        if self._force_channel_wl_edge():
             self.debug("force channel wl edge enabled")
             idx = np.logical_or(
                 wl
diff --git a/exorad/models/instruments/spectrometer.py b/exorad/models/instruments/spectrometer.py
index 2f712ac..f04b25e 100644
--- a/exorad/models/instruments/spectrometer.py
+++ b/exorad/models/instruments/spectrometer.py
@@ -329,7 +329,7 @@ class Spectrometer(Instrument):
         qe, transmission, wave_window = self._get_efficiency(
             wl, target, out
         )
-        if self.payload["optics"]["ForceChannelWlEdge"]["value"]:
+        if self._force_channel_wl_edge():
             self.debug("force channel wl edge enabled")
             idx = np.logical_or(
                 wl
-- 
2.43.0


From cfea8d98a58647ea527dfc93c2a0efe33a913664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:30 +0000
Subject: [PATCH 11/74] fix: number of reads for any unit of the frame time and
 the read rate

numpy floors the bare value, so with e.g. a read rate in kHz the number of
reads was rounded before the conversion.
---
 exorad/models/noise.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/exorad/models/noise.py b/exorad/models/noise.py
index a6f524d..c8ec210 100644
--- a/exorad/models/noise.py
+++ b/exorad/models/noise.py
@@ -69,7 +69,11 @@ def multiaccum(channel, t_frame):
     float
         shot noise gain
     """
-    nRead = np.floor(t_frame * channel["detector"]["freqNDR"]["value"])
+    nRead = np.floor(
+        u.Quantity(t_frame * channel["detector"]["freqNDR"]["value"]).to(
+            u.dimensionless_unscaled
+        )
+    )
 
     if "multiaccumM" in channel["detector"]:
         m = channel["detector"]["multiaccumM"]["value"]
-- 
2.43.0


From ca697333729e0fc67b9a5c09ed873a3f4cbc6fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:30 +0000
Subject: [PATCH 12/74] fix: pixel size and detector coordinates in any length
 unit

The photometer window size kept the pixel size unit, which was later dropped,
and the spectrometer pixel bandwidth, a wavelength, got the unit of the
detector coordinate.
---
 exorad/models/instruments/photometer.py   | 4 ++--
 exorad/models/instruments/spectrometer.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/exorad/models/instruments/photometer.py b/exorad/models/instruments/photometer.py
index d8370d4..42e5494 100644
--- a/exorad/models/instruments/photometer.py
+++ b/exorad/models/instruments/photometer.py
@@ -101,7 +101,7 @@ class Photometer(Instrument):
                     * self.description["Fnum_y"]["value"]
                     * self.table["Wavelength"]
                     / self.description["detector"]["delta_pix"]["value"] ** 2
-                )
+                ).to(u.dimensionless_unscaled)
         elif "EnE" in self.description["aperture"].keys():
             if psf_format == "pixel_based":
                 aper_radius = find_aperture_radius(
@@ -128,7 +128,7 @@ class Photometer(Instrument):
                     * self.description["Fnum_y"]["value"]
                     * self.table["Wavelength"]
                     / self.description["detector"]["delta_pix"]["value"] ** 2
-                )
+                ).to(u.dimensionless_unscaled)
         return window_size_px
 
     def propagate_target(self, target):
diff --git a/exorad/models/instruments/spectrometer.py b/exorad/models/instruments/spectrometer.py
index f04b25e..74b4066 100644
--- a/exorad/models/instruments/spectrometer.py
+++ b/exorad/models/instruments/spectrometer.py
@@ -177,7 +177,7 @@ class Spectrometer(Instrument):
                 wl_sol_func(coord_pix_center - 0.5 * delta)
                 - wl_sol_func(coord_pix_center + 0.5 * delta)
             )
-            * delta.unit
+            * wl_solution_data.wl_grid.unit
         )
         self._add_data_to_built("pixel_bandwidth", pixel_bandwidth)
 
-- 
2.43.0


From 5ff96503c50b0a095204789f3c1985851f3734f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:30 +0000
Subject: [PATCH 13/74] fix: wavelength ranges in any length unit

The values of the wavelength ranges of channels, detectors and payload were
used as microns whatever their unit.
---
 exorad/models/instruments/instrument.py   |  8 ++++--
 exorad/models/instruments/photometer.py   | 12 +++------
 exorad/models/instruments/spectrometer.py | 30 ++++++++++++++---------
 exorad/tasks/loadSource.py                |  3 ++-
 4 files changed, 31 insertions(+), 22 deletions(-)

diff --git a/exorad/models/instruments/instrument.py b/exorad/models/instruments/instrument.py
index da9e16f..170c60c 100644
--- a/exorad/models/instruments/instrument.py
+++ b/exorad/models/instruments/instrument.py
@@ -108,10 +108,14 @@ class Instrument(Logger):
         wl_grid = (
             np.logspace(
                 np.log10(
-                    self.description["detector"]["wl_min"]["value"].value
+                    self.description["detector"]["wl_min"]["value"]
+                    .to(u.um)
+                    .value
                 ),
                 np.log10(
-                    self.description["detector"]["cut_off"]["value"].value
+                    self.description["detector"]["cut_off"]["value"]
+                    .to(u.um)
+                    .value
                 ),
                 PassVal.working_R,
             )
diff --git a/exorad/models/instruments/photometer.py b/exorad/models/instruments/photometer.py
index 42e5494..9853376 100644
--- a/exorad/models/instruments/photometer.py
+++ b/exorad/models/instruments/photometer.py
@@ -16,14 +16,10 @@ class Photometer(Instrument):
     """
 
     def _wavelength_table(self):
-        wl_c = 0.5 * (
-            self.description["wl_min"]["value"]
-            + self.description["wl_max"]["value"]
-        )
-        bandwidth = (
-            self.description["wl_max"]["value"]
-            - self.description["wl_min"]["value"]
-        )
+        wl_min = self.description["wl_min"]["value"].to(u.um)
+        wl_max = self.description["wl_max"]["value"].to(u.um)
+        wl_c = 0.5 * (wl_min + wl_max)
+        bandwidth = wl_max - wl_min
         left_bin_edge = wl_c - 0.5 * bandwidth
         right_bin_edge = wl_c + 0.5 * bandwidth
         self.table["chName"] = [self.name]
diff --git a/exorad/models/instruments/spectrometer.py b/exorad/models/instruments/spectrometer.py
index 74b4066..6bbf1fb 100644
--- a/exorad/models/instruments/spectrometer.py
+++ b/exorad/models/instruments/spectrometer.py
@@ -28,6 +28,9 @@ class Spectrometer(Instrument):
             self.warning("Channel targetR missing: native R is assumed")
             self.description["targetR"] = {"value": "native"}
 
+        wl_min = self.description["wl_min"]["value"].to(u.um)
+        wl_max = self.description["wl_max"]["value"].to(u.um)
+
         # define the wavelength grid
         if "value" in self.description["targetR"].keys():
             self.debug(
@@ -50,17 +53,14 @@ class Spectrometer(Instrument):
             else:
                 number_of_spectral_bins = (
                     np.ceil(
-                        np.log(
-                            self.description["wl_max"]["value"]
-                            / self.description["wl_min"]["value"]
-                        )
+                        np.log(wl_max / wl_min)
                         / np.log(
                             1.0 + 1.0 / self.description["targetR"]["value"]
                         )
                     )
                     + 1
                 )
-                wl_bin = self.description["wl_min"]["value"] * (
+                wl_bin = wl_min * (
                     1.0 + 1.0 / self.description["targetR"]["value"]
                 ) ** np.arange(number_of_spectral_bins)
                 wl_bin_c = 0.5 * (wl_bin[0:-1] + wl_bin[1:])
@@ -71,19 +71,19 @@ class Spectrometer(Instrument):
                 self.description["targetR"]["data"]["value"], sep="\t"
             )
             get_res = interp1d(res_data["W"], res_data["R"])
-            w1 = self.description["wl_min"]["value"].value
+            w1 = wl_min.value
             w2 = w1
             wl_bin = np.array([w1])
-            while w2 < self.description["wl_max"]["value"].value:
+            while w2 < wl_max.value:
                 w1 = w2
                 res = get_res(w1)
                 w2 = np.round((w1 + w1 / res), 4)
                 wl_bin = np.append(wl_bin, w2)
             if (
-                self.description["wl_max"]["value"].value - wl_bin[-2]
+                wl_max.value - wl_bin[-2]
                 < (wl_bin[-2] - wl_bin[-3]) / 2.0
             ):  # remove small bin at end of channel
-                wl_bin[-2] = self.description["wl_max"]["value"].value
+                wl_bin[-2] = wl_max.value
                 wl_bin = wl_bin[:-1]
             wl_bin_c = (
                 (np.array(wl_bin[:-1]) + np.array(wl_bin[1:])) / 2 * u.micron
@@ -140,11 +140,19 @@ class Spectrometer(Instrument):
         )
 
         first_pixel = (
-            wl_sol_func_reverse(self.description["wl_min"]["value"])
+            wl_sol_func_reverse(
+                self.description["wl_min"]["value"].to(
+                    wl_solution_data.wl_grid.unit
+                )
+            )
             * wl_solution_data.data.unit
         )
         last_pixel = (
-            wl_sol_func_reverse(self.description["wl_max"]["value"])
+            wl_sol_func_reverse(
+                self.description["wl_max"]["value"].to(
+                    wl_solution_data.wl_grid.unit
+                )
+            )
             * wl_solution_data.data.unit
         )
         self.debug(
diff --git a/exorad/tasks/loadSource.py b/exorad/tasks/loadSource.py
index 0e6d14a..6ed6fb4 100644
--- a/exorad/tasks/loadSource.py
+++ b/exorad/tasks/loadSource.py
@@ -61,6 +61,7 @@ class LoadSource(Task):
             self.debug("wavelength unit not found: micron assumed")
             wl_min *= u.um
             wl_max *= u.um
+        wl_min, wl_max = wl_min.to(u.um), wl_max.to(u.um)
 
         wl_grid = (
             np.logspace(
@@ -68,7 +69,7 @@ class LoadSource(Task):
                 np.log10(wl_max.value),
                 PassVal.working_R,
             )
-            * wl_max.unit
+            * u.um
         )
 
         if source["value"].lower() == "custom":
-- 
2.43.0


From f8557f3576c8cee4f8da68872871f21c411226f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:05 +0000
Subject: [PATCH 14/74] fix: honour the wavelength units of the payload data
 files

---
 exorad/models/instruments/spectrometer.py |  6 +++++-
 exorad/models/optics/opticalElement.py    | 11 ++++++++--
 exorad/models/signal.py                   |  3 +++
 exorad/models/utils.py                    | 26 ++++++++++++++++++++++-
 4 files changed, 42 insertions(+), 4 deletions(-)

diff --git a/exorad/models/instruments/spectrometer.py b/exorad/models/instruments/spectrometer.py
index 6bbf1fb..a9685d9 100644
--- a/exorad/models/instruments/spectrometer.py
+++ b/exorad/models/instruments/spectrometer.py
@@ -11,6 +11,7 @@ from .instrument import Instrument
 from exorad.models.signal import CountsPerSeconds
 from exorad.models.signal import CustomSignal
 from exorad.models.signal import Signal
+from exorad.models.utils import column_value
 from exorad.utils.exolib import binnedPSF
 from exorad.utils.exolib import find_aperture_radius
 from exorad.utils.exolib import paosPSF
@@ -259,7 +260,10 @@ class Spectrometer(Instrument):
             # todo define spatial apertures
             self.debug("Encircle energy solution found")
             EncE_sol = interp1d(
-                self.description["EncESolution"]["data"]["Wavelength"],
+                column_value(
+                    self.description["EncESolution"]["data"]["Wavelength"],
+                    self.table["Wavelength"].unit,
+                ),
                 self.description["EncESolution"]["data"]["EE"],
                 assume_sorted=False,
                 fill_value="extrapolate",
diff --git a/exorad/models/optics/opticalElement.py b/exorad/models/optics/opticalElement.py
index dccbb1e..46c5938 100644
--- a/exorad/models/optics/opticalElement.py
+++ b/exorad/models/optics/opticalElement.py
@@ -3,6 +3,7 @@ from astropy import units as u
 from scipy.interpolate import interp1d
 
 from exorad.log import Logger
+from exorad.models.utils import column_value
 from exorad.models.utils import get_wl_col_name
 
 
@@ -183,7 +184,10 @@ class OpticalElement(Logger):
             )
             # Create an interpolation function for transmission
             tr_func = interp1d(
-                self.description["data"][wl_colname],
+                column_value(
+                    self.description["data"][wl_colname],
+                    getattr(self.wl, "unit", u.um),
+                ),
                 self.description["data"][colname],
                 assume_sorted=False,
                 fill_value=0.0,
@@ -268,7 +272,10 @@ class OpticalElement(Logger):
 
             # Create an interpolation function for emissivity
             em_func = interp1d(
-                self.description["data"][wl_colname],
+                column_value(
+                    self.description["data"][wl_colname],
+                    getattr(self.wl, "unit", u.um),
+                ),
                 self.description["data"][em_colname],
                 assume_sorted=False,
                 fill_value=0.0,
diff --git a/exorad/models/signal.py b/exorad/models/signal.py
index a5a7706..08a2c2b 100644
--- a/exorad/models/signal.py
+++ b/exorad/models/signal.py
@@ -116,6 +116,9 @@ class Signal(Logger):
 
             else:
                 return quantity
+        elif getattr(quantity, "unit", None) is not None:
+            # table columns
+            return self.check_quantities(u.Quantity(quantity), units)
         else:
             # if units == '':
             #     self.debug('assumed dimensionless quantity as input'.format(units))
diff --git a/exorad/models/utils.py b/exorad/models/utils.py
index 74cbd15..47edcd0 100644
--- a/exorad/models/utils.py
+++ b/exorad/models/utils.py
@@ -1,3 +1,7 @@
+import astropy.units as u
+import numpy as np
+
+
 def get_wl_col_name(data, description=None):
     wl_colname = None
     if description is not None and "wl_col_name" in description:
@@ -6,6 +10,26 @@ def get_wl_col_name(data, description=None):
         for wl_key in ["Wavelength", "wavelength"]:
             if wl_key in data.keys():
                 wl_colname = wl_key
-    if wl_key is None:
+    if wl_colname is None:
         raise KeyError("Wavelength column not found in transmission data file")
     return wl_colname
+
+
+def column_value(column, unit):
+    """
+    It returns the values of a table column in the indicated units.
+    If the column has no units, it assumes that the data are already reported with the indicated units.
+
+    Parameters
+    ----------
+    column: Column or quantity
+    unit: units or string
+
+    Returns
+    -------
+    array
+    """
+    column_unit = getattr(column, "unit", None)
+    if column_unit is None:
+        return np.asarray(column)
+    return (np.asarray(column) * u.Unit(column_unit)).to(unit).value
-- 
2.43.0


From f9276cd70d5cd4fda42c196a2f1c33f3d7a91eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:52 +0000
Subject: [PATCH 15/74] fix: rebin does not depend on the order of the samples
 and keeps the samples bracketing the new grid

---
 exorad/utils/exolib.py | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/exorad/utils/exolib.py b/exorad/utils/exolib.py
index 0d0c66d..c4fefff 100644
--- a/exorad/utils/exolib.py
+++ b/exorad/utils/exolib.py
@@ -41,15 +41,16 @@ def rebin(x, xp, fp):
         )
         raise ValueError
 
-    idx = np.where(np.logical_and(xp > 0.9 * x.min(), xp < 1.1 * x.max()))[0]
-    xp = xp[idx]
-    fp = fp[idx]
-
     if not hasattr(fp, "unit"):
         logger.debug("No units found for fp. Forced to None")
-        fp *= u.Unit()
+        fp = fp * u.dimensionless_unscaled
     funits = fp.unit
 
+    # the input samples can be in any order
+    idx = np.argsort(xp, kind="stable")
+    xp = xp[idx]
+    fp = fp[idx]
+
     # remove NaNs
     id = np.where(np.isnan(xp))[0]
     if id.size > 0:
@@ -63,20 +64,29 @@ def rebin(x, xp, fp):
         x = np.delete(x, id)
 
     # remove duplicates
-    while np.diff(xp).min() == 0:
+    while xp.size > 1 and np.diff(xp).min() == 0:
         logger.debug("duplicate found in input x array: removing it")
         id = np.argmin(np.diff(xp))
         xp = np.delete(xp, id)
         fp = np.delete(fp, id)
 
-    while np.diff(x).min() == 0:
+    while x.size > 1 and np.diff(x).min() == 0:
         logger.debug("duplicate found in new x array: removing it")
         id = np.argmin(np.diff(x))
         x = np.delete(x, id)
 
-    if np.diff(xp).max() < np.diff(x).min():
+    # the choice depends on the samples around the new grid only
+    idx = np.where(np.logical_and(xp > 0.9 * x.min(), xp < 1.1 * x.max()))[0]
+
+    if (
+        idx.size > 1
+        and x.size > 1
+        and np.diff(xp[idx]).max() < np.diff(x).min()
+    ):
         # Binning!
         logger.debug("binning")
+        xp = xp[idx]
+        fp = fp[idx]
         bin_x = 0.5 * (x[1:] + x[:-1])
         x0 = x[0] - (bin_x[0] - x[0]) / 2.0
         x1 = x[-1] + (x[-1] - bin_x[-1]) / 2.0
-- 
2.43.0


From fbafed94414d3000e4112e011ec159b5d50bee78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:06 +0000
Subject: [PATCH 16/74] fix: a slit is applied to foregrounds also when no
 emitting element precedes it

---
 exorad/models/optics/opticalPath.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/exorad/models/optics/opticalPath.py b/exorad/models/optics/opticalPath.py
index d1610d7..6940060 100644
--- a/exorad/models/optics/opticalPath.py
+++ b/exorad/models/optics/opticalPath.py
@@ -258,6 +258,8 @@ class OpticalPath(Logger):
         for i, k in enumerate(opt_list):
             el = opt_el[k]
             self.debug(f"Propagating {el.name}")
+            if el.type == "slit":
+                self.slit_width = el.description["width"]["value"]
             out_radiance = InstRadiance(wl_grid=wl, data=np.zeros(wl.size))
             out_radiance.position = el.position
             out_radiance.angle = el.angle
@@ -275,7 +277,6 @@ class OpticalPath(Logger):
                 out_radiance.data *= opt_el[other_el].transmission
                 if opt_el[other_el].type == "slit":
                     out_radiance.slit = True
-                    self.slit_width = opt_el[other_el].description["width"]["value"]
             # Store the radiance data
             self.radiance_dict[el.name] = copy.deepcopy(out_radiance)
             self.radiance_table[el.name] = copy.deepcopy(out_radiance.data)
-- 
2.43.0


From bef7361cf821f69b8f9e48ae865ca5baa83827f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:06 +0000
Subject: [PATCH 17/74] fix: slits narrower than a pixel

---
 exorad/utils/diffuse_light_propagation.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/exorad/utils/diffuse_light_propagation.py b/exorad/utils/diffuse_light_propagation.py
index fd6cda0..1af9861 100644
--- a/exorad/utils/diffuse_light_propagation.py
+++ b/exorad/utils/diffuse_light_propagation.py
@@ -80,12 +80,11 @@ def convolve_with_slit(
     radiance.data *= aomega
     logger.debug("sed : {}".format(radiance.data))
     logger.debug("convolving with slit")
-    slit_kernel = np.ones(
-        int(
-            slit_width
-            / ch_description["detector"]["delta_pix"]["value"].to(u.um)
-        )
+    slit_pixels = float(
+        (slit_width / ch_description["detector"]["delta_pix"]["value"]).to("")
     )
+    # number of whole pixels in the slit, at least one
+    slit_kernel = np.ones(max(1, int(round(slit_pixels, 6))))
     signal_tmp = (
         np.convolve(radiance.data * dwl_pic, slit_kernel, "same")
     ).to(u.count / u.s)
-- 
2.43.0


From 9d18fd92e3e1902de280e8fa416e22ed38badc45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:57 +0000
Subject: [PATCH 18/74] fix: custom noise given as a function of wavelength

---
 exorad/models/noise.py       | 87 +++++++++++++++++++-----------------
 exorad/tasks/noiseHandler.py | 17 ++++---
 2 files changed, 53 insertions(+), 51 deletions(-)

diff --git a/exorad/models/noise.py b/exorad/models/noise.py
index c8ec210..ab93d6b 100644
--- a/exorad/models/noise.py
+++ b/exorad/models/noise.py
@@ -176,58 +176,61 @@ def photon_noise_variance(table, out):
 
 
 def add_custom_noise(custom, wl, out):
-    if "data" in custom:
-        col_name = [
-            col for col in custom["data"].keys() if "Wavelength" not in col
-        ]
-        custom_noise = Signal(
-            custom["data"]["Wavelength"], custom["data"][col_name]
-        )
-        custom_noise.spectral_rebin(wl)
-        out["{}_noise".format(col_name)] = custom_noise.data
-        logger.debug(
-            "{} added as custom noise :{}".format(col_name, custom_noise.data)
-        )
-        out["total_noise"] = np.sqrt(
-            out["total_noise"] * out["total_noise"]
-            + custom_noise.data * custom_noise.data
-        )
+    """
+    Adds in quadrature the custom noise to the total noise and populates the output table with it
 
-    if isinstance(custom, OrderedDict):
-        for contrib in custom:
-            custom_noise = (
-                custom[contrib]["value"]
-                * 1e-6
-                * np.ones(wl.size)
-                * u.hr**0.5
-            )
-            out[
-                "{}_noise".format(custom[contrib]["name"]["value"])
-            ] = custom_noise
+    Parameters
+    -----------
+    custom: dict
+        custom noise description, or dictionary of custom noise descriptions
+    wl: Quantity
+        wavelength grid of the channel
+    out: QTable
+        output table
+
+    Returns
+    --------
+    QTable
+        output table populated
+    """
+    # a description has its own value, a dictionary of descriptions does not
+    contribs = [custom] if "value" in custom else custom.values()
+    for contrib in contribs:
+        for name, custom_noise in _custom_noise(contrib, wl).items():
+            out["{}_noise".format(name)] = custom_noise
             logger.debug(
-                "{} added as custom noise :{}".format(
-                    custom[contrib]["name"]["value"], custom_noise
-                )
+                "{} added as custom noise :{}".format(name, custom_noise)
             )
             out["total_noise"] = np.sqrt(
                 out["total_noise"] * out["total_noise"]
                 + custom_noise * custom_noise
             )
-    else:
-        custom_noise = custom["value"] * 1e-6 * np.ones(wl.size) * u.hr**0.5
-        out["{}_noise".format(custom["name"]["value"])] = custom_noise
-        logger.debug(
-            "{} added as custom noise :{}".format(
-                custom["name"]["value"], custom_noise
-            )
-        )
-        out["total_noise"] = np.sqrt(
-            out["total_noise"] * out["total_noise"]
-            + custom_noise * custom_noise
-        )
     return out
 
 
+def _custom_noise(custom, wl):
+    """
+    Returns the custom noises listed in a custom noise description, sampled at the channel wavelengths.
+    The constant noise is in ppm, the tabulated noise is in hr^(1/2)
+    """
+    if "data" not in custom:
+        return {
+            custom["name"]["value"]: custom["value"]
+            * 1e-6
+            * np.ones(wl.size)
+            * u.hr**0.5
+        }
+    data = custom["data"]
+    wl_col = [col for col in data.keys() if "Wavelength" in col][0]
+    noises = OrderedDict()
+    for col in data.keys():
+        if col != wl_col:
+            noise = Noise(data[wl_col], data[col])
+            noise.spectral_rebin(wl.to(noise.wl_grid.unit))
+            noises[col] = noise.data
+    return noises
+
+
 class Noise(CustomSignal):
     """
     It's a Signal class with data having units of [hr^1/2]
diff --git a/exorad/tasks/noiseHandler.py b/exorad/tasks/noiseHandler.py
index 8b7e220..1c631d6 100644
--- a/exorad/tasks/noiseHandler.py
+++ b/exorad/tasks/noiseHandler.py
@@ -91,16 +91,15 @@ class EstimateNoiseInChannel(Task):
         )
 
         wl = target.table["Wavelength"][target.table["chName"] == name]
-        if payload:
-            try:
-                out = noise.add_custom_noise(
-                    payload["common"]["customNoise"], wl, out
-                )
-            except KeyError:
-                self.debug("no custom noise found in common section")
-        try:
+        if payload and "customNoise" in payload.get("common", {}):
+            out = noise.add_custom_noise(
+                payload["common"]["customNoise"], wl, out
+            )
+        else:
+            self.debug("no custom noise found in common section")
+        if "customNoise" in channel:
             out = noise.add_custom_noise(channel["customNoise"], wl, out)
-        except KeyError:
+        else:
             self.debug("no custom noise found in channel section")
 
         self.debug("total noise : {}".format(out["total_noise"]))
-- 
2.43.0


From 653a3f4a72826651aabff8f4374f8fc50c974b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:57 +0000
Subject: [PATCH 19/74] fix: repeating the noise estimate gives the same noise

---
 exorad/models/noise.py        | 15 +++++++++++++--
 exorad/tasks/targetHandler.py |  5 ++++-
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/exorad/models/noise.py b/exorad/models/noise.py
index ab93d6b..e4e3456 100644
--- a/exorad/models/noise.py
+++ b/exorad/models/noise.py
@@ -109,6 +109,17 @@ def multiaccum(channel, t_frame):
     return read_gain, shot_gain
 
 
+def signal_columns(table):
+    """
+    Given a target table, returns the names of the columns containing the collected signals
+    """
+    return [
+        key
+        for key in table.keys()
+        if key.endswith("signal") or key == "star_signal_inAperture"
+    ]
+
+
 def photon_noise(table, channel, shot_gain, out):
     """
     Given the channel and channel descriptions, populates the output table with photon noises
@@ -131,7 +142,7 @@ def photon_noise(table, channel, shot_gain, out):
     """
     name = channel["value"]
 
-    signals = [key for key in table.keys() if "signal" in key]
+    signals = signal_columns(table)
     for key in signals:
         noise_key = "{}_noise".format(key)
         out[noise_key] = (
@@ -165,7 +176,7 @@ def photon_noise_variance(table, out):
         sum of photon variances
     """
     '''
-    signals = [key for key in table.keys() if "signal" in key]
+    signals = signal_columns(table)
     _photon_noise_variance = (
         np.zeros(out["frameTime"].size) * (u.count / u.s) ** 2 * u.hr
     )
diff --git a/exorad/tasks/targetHandler.py b/exorad/tasks/targetHandler.py
index 1664d01..65fe9a4 100644
--- a/exorad/tasks/targetHandler.py
+++ b/exorad/tasks/targetHandler.py
@@ -175,7 +175,10 @@ class EstimateMaxSignal(Task):
         self.info("estimating max signal in pixel")
         target = self.get_task_param("target")
         table = target.table
-        signals = [key for key in table.keys() if "Max" in key]
+        # the total from a previous estimate is not a contribution
+        signals = [
+            key for key in table.keys() if key.endswith("_MaxSignal_inPixel")
+        ]
         max_signal = np.zeros(table["Wavelength"].size) * u.count / u.s
         for key in signals:
             max_signal += table[key]
-- 
2.43.0


From 2def230413a3e85bf5f25dc0dd709a4213ac89e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:08 +0000
Subject: [PATCH 20/74] fix: payload files with empty elements

---
 exorad/tasks/loadOptions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exorad/tasks/loadOptions.py b/exorad/tasks/loadOptions.py
index 36d71a8..7292eb0 100644
--- a/exorad/tasks/loadOptions.py
+++ b/exorad/tasks/loadOptions.py
@@ -76,7 +76,7 @@ class LoadOptions(Task):
             for key in list(ch.attrib.keys()):
                 retval[key] = ch.attrib[key]
 
-            value = compactString(ch.text)
+            value = compactString(ch.text or "")
             if (value is not None) and (value != ""):
                 try:
                     value = int(value)
-- 
2.43.0


From 7ff5402e668f90726699fa78eaffa69af6d48e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:08 +0000
Subject: [PATCH 21/74] fix: keep the repeated payload elements sharing the
 same numerical value

---
 exorad/tasks/loadOptions.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/exorad/tasks/loadOptions.py b/exorad/tasks/loadOptions.py
index 7292eb0..b0bd4f7 100644
--- a/exorad/tasks/loadOptions.py
+++ b/exorad/tasks/loadOptions.py
@@ -115,14 +115,13 @@ class LoadOptions(Task):
             if ch.tag in root_dict:
                 # if an other instance of same tag exists, transform into a dict
                 attr = root_dict[ch.tag]
-                if isinstance(attr, OrderedDict):
-                    attr[value] = retval
-                else:
-                    if not isinstance(attr, str):
-                        dtmp = OrderedDict(
-                            [(attr["value"], attr), (value, retval)]
-                        )
-                        root_dict[ch.tag] = dtmp
+                if not isinstance(attr, OrderedDict):
+                    attr = OrderedDict([(attr.get("value", ""), attr)])
+                    root_dict[ch.tag] = attr
+                if not isinstance(value, str) and value in attr:
+                    # a number is not a name: do not replace the element with the same value
+                    value = "{} {}".format(value, len(attr))
+                attr[value] = retval
             else:
                 # othewise, set new attr
                 root_dict[ch.tag] = retval
-- 
2.43.0


From 9c38cae88eeceaa9627357e60e50cc47125c4014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:58 +0000
Subject: [PATCH 22/74] fix: ConfigPath of a payload file does not leak into
 the next one

---
 exorad/tasks/loadOptions.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/exorad/tasks/loadOptions.py b/exorad/tasks/loadOptions.py
index b0bd4f7..b06bc8e 100644
--- a/exorad/tasks/loadOptions.py
+++ b/exorad/tasks/loadOptions.py
@@ -46,6 +46,8 @@ class LoadOptions(Task):
     def execute(self):
         self._filename = self.get_task_param("filename")
         self._config_path = self.get_task_param("config_path")
+        # forget the path set by the previous file
+        self.configPath = self._config_path
         self.__check_format__()
         root = self.__get_root__()
         self._dict = self.__parser__(root)
@@ -100,10 +102,8 @@ class LoadOptions(Task):
                         value = value.replace(
                             "__ConfigPath__", self.configPath
                         )
-                if ch.tag == "ConfigPath":
+                if ch.tag == "ConfigPath" and not self._config_path:
                     self.configPath = value
-                if self._config_path:
-                    self.configPath = self._config_path
                 if ch.tag == "working_R":
                     PassVal.working_R = value
                     print(PassVal.working_R)
-- 
2.43.0


From 26849fe513ee5760b8283fd2b095adc827039875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:58 +0000
Subject: [PATCH 23/74] fix: data dictionaries in hdf5 files

---
 exorad/tasks/loadOptions.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/exorad/tasks/loadOptions.py b/exorad/tasks/loadOptions.py
index b06bc8e..5d10ab8 100644
--- a/exorad/tasks/loadOptions.py
+++ b/exorad/tasks/loadOptions.py
@@ -206,9 +206,12 @@ class LoadOptions(Task):
     def __read_datadict__(self, datadict):
         ext = os.path.splitext(datadict)[1]
         if ext in [".h5", ".hdf5"]:
+            import h5py
+
             from exorad.output.hdf5 import load
 
-            data = load(datadict)
+            with h5py.File(os.path.expanduser(datadict), "r") as f:
+                data = load(f)
             return data
         elif ext == ".pickle":
             import pickle
-- 
2.43.0


From 2b6d74640ca16ed23393ca8fa50ddd0bf9d522b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:58 +0000
Subject: [PATCH 24/74] fix: the working resolution is the one of the payload
 in use

---
 exorad/models/instruments/instrument.py |  1 +
 exorad/tasks/loadOptions.py             |  5 ++---
 exorad/tasks/targetHandler.py           |  4 ++++
 exorad/utils/passVal.py                 | 13 ++++++++++++-
 4 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/exorad/models/instruments/instrument.py b/exorad/models/instruments/instrument.py
index 170c60c..6503ed8 100644
--- a/exorad/models/instruments/instrument.py
+++ b/exorad/models/instruments/instrument.py
@@ -95,6 +95,7 @@ class Instrument(Logger):
             # you cannot load the description and run it again because it's not an ordered dictionary anymore
             raise ValueError("You cannot build a loaded instrument")
         else:
+            PassVal.set_from_payload(self.payload)
             self.builder()
             self.build_optical_path()
 
diff --git a/exorad/tasks/loadOptions.py b/exorad/tasks/loadOptions.py
index 5d10ab8..3b9a5f0 100644
--- a/exorad/tasks/loadOptions.py
+++ b/exorad/tasks/loadOptions.py
@@ -52,6 +52,8 @@ class LoadOptions(Task):
         root = self.__get_root__()
         self._dict = self.__parser__(root)
         # self.debug('loaded options: {}'.format(self._dict))
+        if "common" in self._dict:
+            PassVal.set_from_payload(self._dict)
         self.set_output(self._dict)
 
     configPath = None
@@ -104,9 +106,6 @@ class LoadOptions(Task):
                         )
                 if ch.tag == "ConfigPath" and not self._config_path:
                     self.configPath = value
-                if ch.tag == "working_R":
-                    PassVal.working_R = value
-                    print(PassVal.working_R)
                 # if isinstance(value, str):
                 #     retval = value
                 # else:
diff --git a/exorad/tasks/targetHandler.py b/exorad/tasks/targetHandler.py
index 65fe9a4..a506b62 100644
--- a/exorad/tasks/targetHandler.py
+++ b/exorad/tasks/targetHandler.py
@@ -9,6 +9,7 @@ from .task import Task
 from exorad.__version__ import __version__
 from exorad.log import disableLogging
 from exorad.log import enableLogging
+from exorad.utils.passVal import PassVal
 
 
 class LoadTargetList(Task):
@@ -245,6 +246,9 @@ class ObserveTarget(Task):
         propagateForegroundLight = PropagateForegroundLight()
         estimateNoise = EstimateNoise()
 
+        # the working resolution is the one of this payload
+        PassVal.set_from_payload(payload)
+
         # forget the foregrounds left by a previous observation of the target
         for attr in ["foreground", "skyTransmission"]:
             if hasattr(target, attr):
diff --git a/exorad/utils/passVal.py b/exorad/utils/passVal.py
index 50278e3..8332e34 100644
--- a/exorad/utils/passVal.py
+++ b/exorad/utils/passVal.py
@@ -27,7 +27,8 @@ class PassValInit(metaclass=SingletonMeta):
     Class used to propagate values through the code.
     """
 
-    _working_R = 6000
+    _default_working_R = 6000
+    _working_R = _default_working_R
 
     @property
     def working_R(self):
@@ -37,5 +38,15 @@ class PassValInit(metaclass=SingletonMeta):
     def working_R(self, val):
         self._working_R = val
 
+    def set_from_payload(self, payload):
+        """
+        It sets the values listed in the payload description, and the defaults for the others.
+        """
+        common = payload.get("common", {}) if payload else {}
+        if "working_R" in common:
+            self.working_R = common["working_R"]["value"]
+        else:
+            self.working_R = self._default_working_R
+
 
 PassVal = PassValInit()
-- 
2.43.0


From db69cff68aa9397fb83b7f993226e4077094901a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:08 +0000
Subject: [PATCH 25/74] fix: observations with a payload loaded from the hdf5
 output equal those with the payload it was built from

---
 exorad/models/instruments/instrument.py   | 20 +++++++++++++++-----
 exorad/output/hdf5/hdf5.py                |  8 ++++++--
 exorad/output/hdf5/util.py                | 22 ++++++++++++++++------
 exorad/tasks/foregroundHandler.py         |  3 ++-
 exorad/tasks/instrumentHandler.py         |  7 +++++--
 exorad/utils/diffuse_light_propagation.py | 12 ++++++++----
 6 files changed, 52 insertions(+), 20 deletions(-)

diff --git a/exorad/models/instruments/instrument.py b/exorad/models/instruments/instrument.py
index 6503ed8..0249935 100644
--- a/exorad/models/instruments/instrument.py
+++ b/exorad/models/instruments/instrument.py
@@ -65,7 +65,13 @@ class Instrument(Logger):
         it loads the instrument parameters already processed from a file
         """
         self.table = table
-        self.built_instr = built_instr
+        # quantities are stored as value and unit
+        self.built_instr = {
+            key: val["value"]
+            if isinstance(val, dict) and set(val) == {"value", "unit"}
+            else val
+            for key, val in built_instr.items()
+        }
         self.loaded = True
         self.info("{} loaded".format(self.name))
 
@@ -365,15 +371,19 @@ class Instrument(Logger):
         #                         self.built_instr['transmission_data']['data'], left=0.0, right=0.0)
         # wave_window = np.ones(self.table['Wavelength'])
         qe = Signal(
-            self.built_instr["qe_data"]["wl_grid"]["value"]
-            * u.Unit(self.built_instr["qe_data"]["wl_grid"]["unit"]),
+            u.Quantity(
+                self.built_instr["qe_data"]["wl_grid"]["value"],
+                self.built_instr["qe_data"]["wl_grid"]["unit"],
+            ),
             self.built_instr["qe_data"]["data"]["value"],
         )
         qe.spectral_rebin(wl)
 
         transmission = Signal(
-            self.built_instr["transmission_data"]["wl_grid"]["value"]
-            * u.Unit(self.built_instr["transmission_data"]["wl_grid"]["unit"]),
+            u.Quantity(
+                self.built_instr["transmission_data"]["wl_grid"]["value"],
+                self.built_instr["transmission_data"]["wl_grid"]["unit"],
+            ),
             self.built_instr["transmission_data"]["data"]["value"],
         )
         transmission.spectral_rebin(wl)
diff --git a/exorad/output/hdf5/hdf5.py b/exorad/output/hdf5/hdf5.py
index 1f8c49f..fcde16c 100644
--- a/exorad/output/hdf5/hdf5.py
+++ b/exorad/output/hdf5/hdf5.py
@@ -121,7 +121,9 @@ class HDF5OutputGroup(OutputGroup):
         entry = None
         if self._entry:
             try:
-                entry = self._entry.create_group(str(group_name))
+                entry = self._entry.create_group(
+                    str(group_name), track_order=True
+                )
             except ValueError:
                 entry = self._entry[str(group_name)]
         return HDF5OutputGroup(entry)
@@ -232,7 +234,9 @@ class HDF5Output(Output):
         entry = None
         if self.fd:
             try:
-                entry = self.fd.create_group(str(group_name))
+                entry = self.fd.create_group(
+                    str(group_name), track_order=True
+                )
             except ValueError:
                 entry = self.fd[str(group_name)]
         return HDF5OutputGroup(entry)
diff --git a/exorad/output/hdf5/util.py b/exorad/output/hdf5/util.py
index 3cdc912..164142f 100644
--- a/exorad/output/hdf5/util.py
+++ b/exorad/output/hdf5/util.py
@@ -33,7 +33,10 @@ def recursively_read_dict_contents(input_dict):
     #     time = input['time_grid']['value'] * u.Unit(input['time_grid']['unit'])
     #     input = signal[str(input['data']['unit'])](wl, data, time)
     if all(elem in new_keys for elem in ["value", "unit"]):
-        input_dict["value"] = input_dict["value"] * u.Unit(input_dict["unit"])
+        unit = input_dict["unit"]
+        if unit == "dimensionless":
+            unit = ""
+        input_dict["value"] = input_dict["value"] * u.Unit(unit)
 
     if any(".__table_column_meta__" in elem for elem in new_keys):
         table_keys = [
@@ -67,6 +70,11 @@ def hdf5_group_to_dict(h5_group):
         if isinstance(item, h5py.Dataset):
             # Convert dataset to numpy array and store
             result[key] = item[()]  # This reads the dataset into a numpy array
+            # strings and booleans are returned as they were stored
+            if isinstance(result[key], bytes):
+                result[key] = result[key].decode("utf-8")
+            elif isinstance(result[key], np.bool_):
+                result[key] = bool(result[key])
         elif isinstance(item, h5py.Group):
             # Recurse into subgroups
             result[key] = hdf5_group_to_dict(item)
@@ -84,12 +92,14 @@ def load_table(input_table, k):
         for attr in ("description", "format", "unit", "meta"):
             if attr in header_cols[col.name]:
                 setattr(col, attr, header_cols[col.name][attr])
+    table_meta = header.get("meta", {})
+    if "__serialized_columns__" in table_meta:
+        table.meta["__serialized_columns__"] = table_meta.pop(
+            "__serialized_columns__"
+        )
     table = serialize._construct_mixins_from_columns(table)
-    try:
-        header["meta"].pop("__serialized_columns__")
-        table.meta = header["meta"]
-    except KeyError:
-        pass
+    table.meta.update(table_meta)
+    table.convert_bytestring_to_unicode()
     return table
 
 
diff --git a/exorad/tasks/foregroundHandler.py b/exorad/tasks/foregroundHandler.py
index 49a12d1..25f9092 100644
--- a/exorad/tasks/foregroundHandler.py
+++ b/exorad/tasks/foregroundHandler.py
@@ -155,7 +155,8 @@ class EstimateForegrounds(Task):
         estimateZodi = EstimateZodi()
         estimateForeground = EstimateForeground()
 
-        if isinstance(foregrounds, OrderedDict):
+        # a foreground description has its own value, a list of foregrounds does not
+        if "value" not in foregrounds:
             for foreground in foregrounds:
                 if foreground == "zodiacal":
                     target = estimateZodi(
diff --git a/exorad/tasks/instrumentHandler.py b/exorad/tasks/instrumentHandler.py
index 6a440ce..43c12ff 100644
--- a/exorad/tasks/instrumentHandler.py
+++ b/exorad/tasks/instrumentHandler.py
@@ -1,6 +1,7 @@
 from collections import OrderedDict
 
 from astropy.io.misc.hdf5 import read_table_hdf5
+from astropy.table import QTable
 
 from .task import Task
 from exorad.models.instruments import Photometer
@@ -188,14 +189,16 @@ class LoadPayload(Task):
             ch_dir = channels_dir[ch]
             description = load(ch_dir["description"])
             instrument = instruments[
-                description["channelClass"]["value"].lower().decode("utf-8")
+                description["channelClass"]["value"].lower()
             ]
             channels[ch] = instrument(
                 name=ch,
                 description=description,
                 payload=payload,
             )
-            table = read_table_hdf5(ch_dir, path=ch)
+            table = QTable(
+                read_table_hdf5(ch_dir, path=ch, character_as_bytes=False)
+            )
             built_instr = load(ch_dir["built_instr"])
             channels[ch].load(table, built_instr)
         self.debug("channels loaded: {}".format(channels))
diff --git a/exorad/utils/diffuse_light_propagation.py b/exorad/utils/diffuse_light_propagation.py
index 1af9861..f55d12f 100644
--- a/exorad/utils/diffuse_light_propagation.py
+++ b/exorad/utils/diffuse_light_propagation.py
@@ -28,15 +28,19 @@ def prepare(ch_table, ch_built_instr, description):
         * description["detector"]["delta_pix"]["value"]
     ).to(u.m**2)
     qe = Signal(
-        ch_built_instr["qe_data"]["wl_grid"]["value"]
-        * u.Unit(ch_built_instr["qe_data"]["wl_grid"]["unit"]),
+        u.Quantity(
+            ch_built_instr["qe_data"]["wl_grid"]["value"],
+            ch_built_instr["qe_data"]["wl_grid"]["unit"],
+        ),
         ch_built_instr["qe_data"]["data"]["value"],
     )
     logger.debug("wl qe : {}".format(qe.wl_grid))
 
     transmission = Signal(
-        ch_built_instr["transmission_data"]["wl_grid"]["value"]
-        * u.Unit(ch_built_instr["transmission_data"]["wl_grid"]["unit"]),
+        u.Quantity(
+            ch_built_instr["transmission_data"]["wl_grid"]["value"],
+            ch_built_instr["transmission_data"]["wl_grid"]["unit"],
+        ),
         ch_built_instr["transmission_data"]["data"]["value"],
     )
 
-- 
2.43.0


From c736be046ac5cd04f68ac8c9dba32c2a1a8fd777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:20 +0000
Subject: [PATCH 26/74] fix: string arrays in the hdf5 output are not truncated

---
 exorad/output/hdf5/hdf5.py | 6 ++++--
 exorad/output/hdf5/util.py | 2 ++
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/exorad/output/hdf5/hdf5.py b/exorad/output/hdf5/hdf5.py
index fcde16c..abf2f56 100644
--- a/exorad/output/hdf5/hdf5.py
+++ b/exorad/output/hdf5/hdf5.py
@@ -49,6 +49,7 @@ OF THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 import datetime
 
 import h5py
+import numpy as np
 from astropy.table import meta
 
 from exorad import __author__
@@ -129,9 +130,10 @@ class HDF5OutputGroup(OutputGroup):
         return HDF5OutputGroup(entry)
 
     def write_string_array(self, string_name, string_array, metadata=None):
-        asciiList = [n.encode("ascii", "ignore") for n in string_array]
+        # no character is dropped, and the strings are never truncated
+        encoded = [[str(n).encode("utf-8")] for n in string_array]
         ds = self._entry.create_dataset(
-            str(string_name), (len(asciiList), 1), "S64", asciiList
+            str(string_name), data=np.array(encoded, dtype="S")
         )
 
         if metadata:
diff --git a/exorad/output/hdf5/util.py b/exorad/output/hdf5/util.py
index 164142f..9054eb4 100644
--- a/exorad/output/hdf5/util.py
+++ b/exorad/output/hdf5/util.py
@@ -75,6 +75,8 @@ def hdf5_group_to_dict(h5_group):
                 result[key] = result[key].decode("utf-8")
             elif isinstance(result[key], np.bool_):
                 result[key] = bool(result[key])
+            elif getattr(result[key], "dtype", np.dtype("O")).kind == "S":
+                result[key] = np.char.decode(result[key], "utf-8")
         elif isinstance(item, h5py.Group):
             # Recurse into subgroups
             result[key] = hdf5_group_to_dict(item)
-- 
2.43.0


From 371f2064eb3b02dd5d3233dc17d945c3e9cd421d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:02 +0000
Subject: [PATCH 27/74] fix: store the program version in the output file

---
 exorad/exorad.py           | 4 ++--
 exorad/output/hdf5/hdf5.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/exorad/exorad.py b/exorad/exorad.py
index 9c27b0d..e128fb5 100644
--- a/exorad/exorad.py
+++ b/exorad/exorad.py
@@ -5,8 +5,8 @@ import shutil
 
 import matplotlib.pyplot as plt
 
-import exorad.__version__ as version
 import exorad.tasks as tasks
+from exorad.__version__ import __version__ as version
 from exorad.log import addLogFile
 from exorad.log import setLogLevel
 from exorad.output.hdf5 import HDF5Output
@@ -50,7 +50,7 @@ def standard_pipeline(
     from exorad.utils.ascii_art import ascii_art
 
     logger.info(ascii_art)
-    logger.info("code version {}".format(version.__version__))
+    logger.info("code version {}".format(version))
 
     if debug:
         setLogLevel(logging.DEBUG)
diff --git a/exorad/output/hdf5/hdf5.py b/exorad/output/hdf5/hdf5.py
index abf2f56..96504ff 100644
--- a/exorad/output/hdf5/hdf5.py
+++ b/exorad/output/hdf5/hdf5.py
@@ -59,7 +59,7 @@ from exorad import __license__
 from exorad import __pkg_name__
 from exorad import __title__
 from exorad import __url__
-from exorad import __version__
+from exorad.__version__ import __version__
 from exorad.output.hdf5.util import hdf5_group_to_dict
 from exorad.output.hdf5.util import recursively_read_dict_contents
 from exorad.output.output import Output
-- 
2.43.0


From 198074755e2104fbbf5d240b8a162fd5899e03ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:02 +0000
Subject: [PATCH 28/74] fix: import from a git worktree or submodule

---
 exorad/__init__.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/exorad/__init__.py b/exorad/__init__.py
index 33efa29..431372a 100644
--- a/exorad/__init__.py
+++ b/exorad/__init__.py
@@ -21,14 +21,15 @@ if __base_dir__ is not None and os.path.exists(
     os.path.join(__base_dir__, ".git")
 ):
     git_folder = os.path.join(__base_dir__, ".git")
-    with open(os.path.join(git_folder, "HEAD")) as fp:
-        ref = fp.read().strip()
-    ref_dir = ref[5:]
-    __branch__ = ref[16:]
+    # .git is a file in worktrees and submodules
     try:
+        with open(os.path.join(git_folder, "HEAD")) as fp:
+            ref = fp.read().strip()
+        ref_dir = ref[5:]
+        __branch__ = ref[16:]
         with open(os.path.join(git_folder, ref_dir)) as fp:
             __commit__ = fp.read().strip()
-    except FileNotFoundError:
+    except OSError:
         __commit__ = None
 
 __title__ = "ExoRad2"
-- 
2.43.0


From 1736e3513899e77d9a6726926dfb66ad327c2823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:02 +0000
Subject: [PATCH 29/74] fix: look for new versions in the repository url

---
 exorad/__init__.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/exorad/__init__.py b/exorad/__init__.py
index 431372a..c53f083 100644
--- a/exorad/__init__.py
+++ b/exorad/__init__.py
@@ -4,7 +4,11 @@ from datetime import date
 
 # load package info
 __pkg_name__ = metadata.metadata("exorad")["Name"]
-__url__ = metadata.metadata("exorad")["Project-URL"]
+# each project url is reported as "label, url"
+__url__ = dict(
+    project_url.split(", ", 1)
+    for project_url in metadata.metadata("exorad").get_all("Project-URL") or []
+).get("Repository", "https://github.com/ExObsSim/ExoRad2-public")
 __author__ = metadata.metadata("exorad")["Author"]
 __license__ = metadata.metadata("exorad")["license"]
 __summary__ = metadata.metadata("exorad")["Summary"]
-- 
2.43.0


From 0b266fe83e32145e191514fad4c3d821b7ef610f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:02 +0000
Subject: [PATCH 30/74] fix: the version check never stops the code

---
 exorad/utils/version_control.py | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/exorad/utils/version_control.py b/exorad/utils/version_control.py
index 1a45584..0d48ef0 100644
--- a/exorad/utils/version_control.py
+++ b/exorad/utils/version_control.py
@@ -19,8 +19,19 @@ class VersionControl(Logger):
         super().__init__()
 
         self.current_version = current_version
+        self.status_code = False
         if self._check_internet():
-            self.content = self.get_content(package_url)
+            try:
+                self.content = self.get_content(package_url)
+            except (
+                requests.RequestException,
+                ValueError,
+                KeyError,
+                TypeError,
+            ) as ex:
+                # no network failure or bad answer can stop the code
+                self.debug("online version not available: {}".format(ex))
+                self.content = None
             if self.content:
                 message, new_ver = self.get_message()
 
@@ -47,12 +58,12 @@ class VersionControl(Logger):
             )
         )
         self.debug("package url: {}".format(url))
-        req = requests.get(url)
+        req = requests.get(url, timeout=3)
         if req.status_code == requests.codes.ok:
             self.status_code = True
             req = req.json()
             content = base64.b64decode(req["content"])
-            content = content.decode("ascii")
+            content = content.decode("utf-8")
             content = content.splitlines()
         else:
             self.status_code = False
@@ -91,10 +102,9 @@ class VersionControl(Logger):
         solution from https://stackoverflow.com/a/33117579
         """
         try:
-            socket.setdefaulttimeout(timeout)
-            socket.socket(socket.AF_INET, socket.SOCK_STREAM).connect(
-                (host, port)
-            )
+            with socket.socket(socket.AF_INET, socket.SOCK_STREAM) as sock:
+                sock.settimeout(timeout)
+                sock.connect((host, port))
             return True
         except OSError as ex:
             print(ex)
-- 
2.43.0


From 3e6dc3a5391f490d3f5024e79a27cc24573326bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:02 +0000
Subject: [PATCH 31/74] fix: the changelog of the new versions ends at the
 entry of the current one only

---
 exorad/utils/version_control.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/exorad/utils/version_control.py b/exorad/utils/version_control.py
index 0d48ef0..18686d5 100644
--- a/exorad/utils/version_control.py
+++ b/exorad/utils/version_control.py
@@ -86,7 +86,10 @@ class VersionControl(Logger):
                     message += line + "\n"
                     new_ver = line[line.find("[") + 1 : line.find("]")]
                     for line_ in self.content[i + 1 :]:
-                        if self.current_version in line_:
+                        if (
+                            "## [" in line_
+                            and "[{}]".format(self.current_version) in line_
+                        ):
                             break
                         elif line_ != "":
                             message += line_ + "\n"
-- 
2.43.0


From 1eee6f020d9cb2f13ef6989b4ed7d7a72c50138f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:02 +0000
Subject: [PATCH 32/74] fix: enableLogging restores the level set by the user

---
 exorad/log/__init__.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/exorad/log/__init__.py b/exorad/log/__init__.py
index a378fa5..53f17b4 100644
--- a/exorad/log/__init__.py
+++ b/exorad/log/__init__.py
@@ -59,14 +59,17 @@ def setLogLevel(level):
 
     root_logger.handlers[0].setLevel(level)
     #    root_logger.setLevel(level)
-    last_log = level
+    last_log = root_logger.handlers[0].level
 
 
 def disableLogging():
     # import logging
     # from .logger import root_logger
     # root_logger.setLevel(logging.ERROR)
-    setLogLevel(logging.ERROR)
+    from .logger import root_logger
+
+    # the level to restore is not changed
+    root_logger.handlers[0].setLevel(max(logging.ERROR, last_log))
 
 
 def enableLogging():
@@ -77,7 +80,7 @@ def enableLogging():
     #
     # # if last_log is None:
     # #     last_log = logging.INFO
-    setLogLevel(logging.INFO)
+    setLogLevel(last_log)
 
 
 def addLogFile(fname="exorad.log"):
-- 
2.43.0


From d83687cb8e70db1e876102f40bfba8101cb8fb95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:56 +0000
Subject: [PATCH 33/74] fix: efficiency plot of a payload loaded from the hdf5
 output

---
 exorad/utils/plotter.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/exorad/utils/plotter.py b/exorad/utils/plotter.py
index 85ae564..8e13b5d 100644
--- a/exorad/utils/plotter.py
+++ b/exorad/utils/plotter.py
@@ -126,8 +126,10 @@ class Plotter(Logger):
                             "{}_data".format(key)
                         ]
                         sig = Signal(
-                            wl_grid=data["wl_grid"]["value"]
-                            * u.Unit(data["wl_grid"]["unit"]),
+                            wl_grid=u.Quantity(
+                                data["wl_grid"]["value"],
+                                data["wl_grid"]["unit"],
+                            ),
                             data=data["data"]["value"],
                         )
                         ax.plot(
-- 
2.43.0


From a6783f24c085d42062b310e838cf77e4d95c498e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:57 +0000
Subject: [PATCH 34/74] fix: exorad-plot accepts the documented target ranges

---
 exorad/utils/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exorad/utils/util.py b/exorad/utils/util.py
index 55453d2..95e3296 100644
--- a/exorad/utils/util.py
+++ b/exorad/utils/util.py
@@ -109,7 +109,7 @@ def parse_range(inp, avail_values):
         start = None
         end = None
         try:
-            s = a.split("-")
+            s = a.replace(":", "-").split("-")
             start = int(s[0])
             end = int(s[1])
             end += 1
-- 
2.43.0


From 6de4de9276b11d967beef1f507d76d16e87e131b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:57 +0000
Subject: [PATCH 35/74] fix: the pipeline never deletes its input files, nor
 the old output if an input is missing

---
 exorad/exorad.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/exorad/exorad.py b/exorad/exorad.py
index e128fb5..d5bb02a 100644
--- a/exorad/exorad.py
+++ b/exorad/exorad.py
@@ -60,6 +60,24 @@ def standard_pipeline(
         addLogFile()
 
     if output is not None:
+        for input_file in [options, target_list]:
+            if not isinstance(input_file, str):
+                continue
+            if not os.path.isfile(input_file):
+                logger.error("file not found: {}".format(input_file))
+                raise FileNotFoundError(
+                    "file not found: {}".format(input_file)
+                )
+            if os.path.exists(output) and os.path.samefile(
+                input_file, output
+            ):
+                logger.error("the output would replace an input file")
+                raise ValueError(
+                    "the output would replace the input file {}".format(
+                        input_file
+                    )
+                )
+
         if replace:
             if os.path.exists(output):
                 os.remove(output)
-- 
2.43.0


From a122ca34de2fe9eea2711e830a0f628d4192253e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:09 +0000
Subject: [PATCH 36/74] fix: run the pipeline with a target table

---
 exorad/exorad.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/exorad/exorad.py b/exorad/exorad.py
index d5bb02a..ae30360 100644
--- a/exorad/exorad.py
+++ b/exorad/exorad.py
@@ -87,14 +87,13 @@ def standard_pipeline(
             os.makedirs(out_dir)
             logger.info("output directory created")
         logger.info("output directory set as {}".format(out_dir))
-        try:
-            shutil.copy(options, out_dir)
-        except shutil.SameFileError:
-            pass
-        try:
-            shutil.copy(target_list, out_dir)
-        except shutil.SameFileError:
-            pass
+        for input_file in [options, target_list]:
+            if not isinstance(input_file, str):
+                continue
+            try:
+                shutil.copy(input_file, out_dir)
+            except shutil.SameFileError:
+                pass
     else:
         out_dir = None
 
-- 
2.43.0


From e7498362cc9640d2181dc8a8d3a398fcdd311229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:09 +0000
Subject: [PATCH 37/74] fix: list the channels of a payload with a single
 channel

---
 exorad/tasks/instrumentHandler.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/exorad/tasks/instrumentHandler.py b/exorad/tasks/instrumentHandler.py
index 43c12ff..8acba79 100644
--- a/exorad/tasks/instrumentHandler.py
+++ b/exorad/tasks/instrumentHandler.py
@@ -361,9 +361,13 @@ class GetChannelList(Task):
 
     def __get_channel_list__(self):
         channel_lst = []
-        for channel in self._opt["channel"].keys():
+        channels = self._opt["channel"]
+        if "channelClass" in channels:
+            # payload with a single channel
+            channels = {channels["value"]: channels}
+        for channel in channels.keys():
             if (
-                self._opt["channel"][channel]["channelClass"]["value"].lower()
+                channels[channel]["channelClass"]["value"].lower()
                 == self._channel_type.lower()
             ):
                 channel_lst.append(channel)
-- 
2.43.0


From e6bc03d5de5ee2007c3e62d38475582732f006f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:25 +0000
Subject: [PATCH 38/74] fix: aperture radius for encircled energies close to
 zero or to one

---
 exorad/utils/exolib.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/exorad/utils/exolib.py b/exorad/utils/exolib.py
index c4fefff..2e7d8bb 100644
--- a/exorad/utils/exolib.py
+++ b/exorad/utils/exolib.py
@@ -507,8 +507,13 @@ def find_aperture_radius(ima, eec, Fnum_x, Fnum_y, wavelength):
     float
     """
     last_enc, i = 0, 0
-    rs, enc = [], []
-    while last_enc < (eec + 0.02):
+    # no energy in a null aperture
+    rs, enc = [0], [0]
+    # radius of an aperture containing the full image
+    r_max = np.hypot(*ima.shape) / u.Quantity(
+        min(Fnum_x, Fnum_y) * wavelength
+    ).value.min()
+    while last_enc < (eec + 0.02) and i < r_max:
         i += 1
         rs += [i]
         enc += [encircled_energy(i, ima, Fnum_x, Fnum_y, wavelength)]
-- 
2.43.0


From 0b136dd40bb65b8c4c9ecbe697191b55f8964bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:59 +0000
Subject: [PATCH 39/74] fix: search a target in lists without planets

---
 exorad/models/targetlist.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/exorad/models/targetlist.py b/exorad/models/targetlist.py
index 666c2ca..3f7a0ac 100644
--- a/exorad/models/targetlist.py
+++ b/exorad/models/targetlist.py
@@ -94,9 +94,10 @@ class BaseTargetList(Logger):
         returnList = []
 
         for target in self.target:
-            if re.search(
-                searchName, compactString(str(target.star.name))
-            ) or re.search(searchName, compactString(str(target.planet.name))):
+            names = [target.star.name]
+            if getattr(target, "planet", None) is not None:
+                names.append(target.planet.name)
+            if any(searchName in compactString(str(n)) for n in names):
                 returnList.append(target)
 
         return returnList
-- 
2.43.0


From f4f82dc0508de68662259476ffc48ab3c2b919a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:59 +0000
Subject: [PATCH 40/74] fix: comma as decimal separator in the MRS target lists

---
 exorad/models/targetlist.py | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/exorad/models/targetlist.py b/exorad/models/targetlist.py
index 3f7a0ac..7eca300 100644
--- a/exorad/models/targetlist.py
+++ b/exorad/models/targetlist.py
@@ -268,19 +268,17 @@ class CSVTargetListMRS(BaseTargetList):
                 )
             else:
                 units.append(None)
+        keys = self.star_keys()
         dat = []
         for i in range(len(self.tmpTab[star_k])):
             val = list(self.tmpTab[star_k][i])
             for n in range(len(val)):
-                if isinstance(val[n], str):
-                    if (
-                        "," in val[n]
-                    ):  # for some reason, comma are used instead of dots sometimes
-                        val[n] = val[n].replace(",", ".")
+                if isinstance(val[n], str) and keys[n] != "name":
+                    # for some reason, comma are used instead of dots sometimes
                     try:
-                        float(val[n])
+                        val[n] = float(val[n].replace(",", "."))
                     except ValueError:
-                        val[n]
+                        pass
                 if units[n] is not None:
                     val[n] = val[n] * units[n]
             dat.append([str(x) if isinstance(x, np.str_) else x for x in val])
@@ -317,19 +315,17 @@ class CSVTargetListMRS(BaseTargetList):
                 )
             else:
                 units.append(None)
+        keys = self.planet_keys()
         dat = []
         for i in range(len(self.tmpTab[planet_k])):
             val = list(self.tmpTab[planet_k][i])
             for n in range(len(val)):
-                if isinstance(val[n], str):
-                    if (
-                        "," in val[n]
-                    ):  # for some reason, comma are used instead of dots sometimes
-                        val[n] = val[n].replace(",", ".")
+                if isinstance(val[n], str) and keys[n] != "name":
+                    # for some reason, comma are used instead of dots sometimes
                     try:
-                        float(val[n])
+                        val[n] = float(val[n].replace(",", "."))
                     except ValueError:
-                        val[n]
+                        pass
                 if units[n] is not None:
                     val[n] = val[n] * units[n]
             dat.append([str(x) if isinstance(x, np.str_) else x for x in val])
-- 
2.43.0


From 56c5a8c6d364db5b28f762d66d2034640f0d2c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:16 +0000
Subject: [PATCH 41/74] fix: a parameter missing in the target list stopped the
 run when the output was written

---
 exorad/models/targetlist.py | 11 ++++++++---
 exorad/tasks/loadSource.py  | 17 +++++++++++------
 2 files changed, 19 insertions(+), 9 deletions(-)

diff --git a/exorad/models/targetlist.py b/exorad/models/targetlist.py
index 7eca300..0fbe51c 100644
--- a/exorad/models/targetlist.py
+++ b/exorad/models/targetlist.py
@@ -59,11 +59,11 @@ class BaseTargetList(Logger):
                 target.planet = Target()
                 target.star = Target()
 
-                planet_dict = dict(zip(planet_keys, planet))
+                planet_dict = self._available(planet_keys, planet)
 
                 target.planet.__dict__.update(planet_dict)
 
-                star_dict = dict(zip(star_keys, star))
+                star_dict = self._available(star_keys, star)
 
                 target.star.__dict__.update(star_dict)
                 target.name = target.planet.name
@@ -76,7 +76,7 @@ class BaseTargetList(Logger):
                 target.star = Target()
                 target.id = i
 
-                star_dict = dict(zip(star_keys, star))
+                star_dict = self._available(star_keys, star)
 
                 target.star.__dict__.update(star_dict)
                 target.name = target.star.name
@@ -84,6 +84,11 @@ class BaseTargetList(Logger):
                 target_list.append(target)
         return target_list
 
+    @staticmethod
+    def _available(keys, values):
+        # parameters missing in the list are not set
+        return {k: v for k, v in zip(keys, values) if v is not np.ma.masked}
+
     @property
     def target(self):
         return self._targets
diff --git a/exorad/tasks/loadSource.py b/exorad/tasks/loadSource.py
index 6ed6fb4..a3b9fc0 100644
--- a/exorad/tasks/loadSource.py
+++ b/exorad/tasks/loadSource.py
@@ -75,7 +75,7 @@ class LoadSource(Task):
         if source["value"].lower() == "custom":
             # if custom source, only R and D are needed for the solid angle
             for attr in ["D", "R"]:
-                if not hasattr(target.star.__getattribute__(attr), "value"):
+                if not hasattr(getattr(target.star, attr, None), "value"):
                     self.error("target information incomplete")
                     raise AttributeError("target information incomplete")
             star = CustomSed(
@@ -88,7 +88,7 @@ class LoadSource(Task):
         else:
             # check if star information are complete
             for attr in ["D", "Teff", "M", "R"]:
-                if not hasattr(target.star.__getattribute__(attr), "value"):
+                if not hasattr(getattr(target.star, attr, None), "value"):
                     self.error("target information incomplete")
                     raise AttributeError("target information incomplete")
 
@@ -184,10 +184,15 @@ class LoadSource(Task):
         metadata = {}
 
         metadata["starName"] = star.name
-        metadata["starM"] = star.M
-        metadata["starTeff"] = star.Teff
-        metadata["starR"] = star.R
-        metadata["starDistance"] = star.D
+        # parameters that are not needed by the source can be missing
+        for key, attr in [
+            ("starM", "M"),
+            ("starTeff", "Teff"),
+            ("starR", "R"),
+            ("starDistance", "D"),
+        ]:
+            if hasattr(star, attr):
+                metadata[key] = getattr(star, attr)
         metadata["starL"] = star.luminosity
         metadata["starModel"] = star.model
         if hasattr(star, "magk"):
-- 
2.43.0


From aa991ddc880b75cc5c52d5318f696006dc69621e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:55 +0000
Subject: [PATCH 42/74] fix: tables stored with a dot in their name were not
 read back

---
 exorad/output/hdf5/util.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/exorad/output/hdf5/util.py b/exorad/output/hdf5/util.py
index 9054eb4..be433a9 100644
--- a/exorad/output/hdf5/util.py
+++ b/exorad/output/hdf5/util.py
@@ -42,7 +42,9 @@ def recursively_read_dict_contents(input_dict):
         table_keys = [
             elem for elem in new_keys if ".__table_column_meta__" in elem
         ]
-        table_keys = (elem.split(".")[0] for elem in table_keys)
+        table_keys = (
+            elem[: -len(".__table_column_meta__")] for elem in table_keys
+        )
         for k in table_keys:
             table = load_table(input_dict, k)
             input_dict[k] = table
-- 
2.43.0


From cdc087569300cc98acc09f60744c902731b6a090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:58 +0000
Subject: [PATCH 43/74] fix: the unit of a value without a unit beside it was
 lost in the output file

---
 exorad/output/hdf5/util.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/exorad/output/hdf5/util.py b/exorad/output/hdf5/util.py
index be433a9..f1dd17a 100644
--- a/exorad/output/hdf5/util.py
+++ b/exorad/output/hdf5/util.py
@@ -126,6 +126,9 @@ def recursively_save_dict_contents_to_output(output, dic):
             store_thing(output, key, item)
         except TypeError:
             raise ValueError("Cannot write %s type" % type(item))
+    if isinstance(dic.get("value"), u.Quantity) and "unit" not in dic:
+        # the unit of a value is stored beside it
+        output.write_string("unit", str(dic["value"].unit))
     return
 
 
-- 
2.43.0


From 26bb6e9cdbaa42fbe5e942839be99c82126d2ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:41 +0000
Subject: [PATCH 44/74] fix: repeated elements without text overwrote each
 other

---
 exorad/tasks/loadOptions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/exorad/tasks/loadOptions.py b/exorad/tasks/loadOptions.py
index 3b9a5f0..4941b57 100644
--- a/exorad/tasks/loadOptions.py
+++ b/exorad/tasks/loadOptions.py
@@ -117,8 +117,8 @@ class LoadOptions(Task):
                 if not isinstance(attr, OrderedDict):
                     attr = OrderedDict([(attr.get("value", ""), attr)])
                     root_dict[ch.tag] = attr
-                if not isinstance(value, str) and value in attr:
-                    # a number is not a name: do not replace the element with the same value
+                if (not isinstance(value, str) or value == "") and value in attr:
+                    # a number or no text is not a name: do not replace the element with the same value
                     value = "{} {}".format(value, len(attr))
                 attr[value] = retval
             else:
-- 
2.43.0


From 0eb58fd7111f7092ece5a0ac76fd0941f64f7392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:41 +0000
Subject: [PATCH 45/74] fix: a data dictionary could not be read without
 configuration path

---
 exorad/tasks/loadOptions.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/exorad/tasks/loadOptions.py b/exorad/tasks/loadOptions.py
index 4941b57..a416c8c 100644
--- a/exorad/tasks/loadOptions.py
+++ b/exorad/tasks/loadOptions.py
@@ -150,9 +150,8 @@ class LoadOptions(Task):
         if "datadict" in root_dict:
             attrValue = root_dict["datadict"]
             datafile = attrValue
-            datafile = datafile["value"].replace(
-                "__ConfigPath__", self.configPath
-            )
+            # the configuration path is already replaced in the value
+            datafile = datafile["value"]
             try:
                 data = self.__read_datadict__(datafile)
                 root_dict["data"] = data
@@ -162,9 +161,8 @@ class LoadOptions(Task):
         if "config_dict" in root_dict:
             attrValue = root_dict["config_dict"]
             datafile = attrValue
-            datafile = datafile["value"].replace(
-                "__ConfigPath__", self.configPath
-            )
+            # the configuration path is already replaced in the value
+            datafile = datafile["value"]
             try:
                 data = self.__read_datadict__(datafile)
                 root_dict = data
-- 
2.43.0


From 46bcce1050a3046e694aef80a250b896176f6443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:54 +0000
Subject: [PATCH 46/74] fix: resampling on a grid with duplicated points left
 values and wavelengths of different sizes

---
 exorad/models/signal.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/exorad/models/signal.py b/exorad/models/signal.py
index 08a2c2b..da76efa 100644
--- a/exorad/models/signal.py
+++ b/exorad/models/signal.py
@@ -157,10 +157,10 @@ class Signal(Logger):
         """
         rebins the signal to the new wavelength grid
         """
-        self.data = rebin(new_wl_grid, self.wl_grid, self.data)[1]
+        # the new grid is used without its duplicated or undefined points
+        self.wl_grid, self.data = rebin(new_wl_grid, self.wl_grid, self.data)
         idx = np.where(np.isnan(self.data))
         self.data[idx] = 0.0
-        self.wl_grid = new_wl_grid
 
     def temporal_rebin(self, new_time_grid):
         """
-- 
2.43.0


From 0cc06efbc88cf06db84642172f0f4b49009cbd9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:11 +0000
Subject: [PATCH 47/74] fix: a target list with a missing name could not be
 loaded

---
 exorad/models/targetlist.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/exorad/models/targetlist.py b/exorad/models/targetlist.py
index 0fbe51c..f8ed266 100644
--- a/exorad/models/targetlist.py
+++ b/exorad/models/targetlist.py
@@ -21,6 +21,8 @@ class BaseTargetList(Logger):
     Target list base class
     """
 
+    missing_name = "--"
+
     def __init__(self):
         self.set_log_name()
 
@@ -60,13 +62,17 @@ class BaseTargetList(Logger):
                 target.star = Target()
 
                 planet_dict = self._available(planet_keys, planet)
-
+                target.planet.name = self.missing_name
                 target.planet.__dict__.update(planet_dict)
 
                 star_dict = self._available(star_keys, star)
-
+                target.star.name = self.missing_name
                 target.star.__dict__.update(star_dict)
-                target.name = target.planet.name
+                target.name = (
+                    target.planet.name
+                    if "name" in planet_dict
+                    else target.star.name
+                )
                 target.id = i
 
                 target_list.append(target)
@@ -77,7 +83,7 @@ class BaseTargetList(Logger):
                 target.id = i
 
                 star_dict = self._available(star_keys, star)
-
+                target.star.name = self.missing_name
                 target.star.__dict__.update(star_dict)
                 target.name = target.star.name
 
-- 
2.43.0


From 42b9181458ba24632444a3f4f043f30bff2e6215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:11 +0000
Subject: [PATCH 48/74] fix: a spreadsheet with an empty cell could not be read
 as a target list

---
 exorad/models/targetlist.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/exorad/models/targetlist.py b/exorad/models/targetlist.py
index f8ed266..d09f18f 100644
--- a/exorad/models/targetlist.py
+++ b/exorad/models/targetlist.py
@@ -147,7 +147,11 @@ class XLXSTargetList(BaseTargetList):
             else:
                 dim = 1
 
-            obj[key] = Sheet.col_values(col)[self.data_row0 :] * dim
+            # parameters missing in the list are empty cells
+            obj[key] = [
+                np.ma.masked if value == "" else value * dim
+                for value in Sheet.col_values(col)[self.data_row0 :]
+            ]
 
         return obj
 
-- 
2.43.0


From 162bed5dbc291ed035180ac60a385a103dabccf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:08 +0000
Subject: [PATCH 49/74] fix: the last sample of a stellar model was dropped

---
 exorad/models/source.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exorad/models/source.py b/exorad/models/source.py
index f8b2427..38af24c 100755
--- a/exorad/models/source.py
+++ b/exorad/models/source.py
@@ -218,7 +218,7 @@ class Star(Logger):
             raise OSError("unsupported PHOENIX format")
 
         # remove duplicates
-        idx = np.nonzero(np.diff(wl))
+        idx = np.append(np.diff(wl.value) != 0, True)
         wl = wl[idx]
         sed = sed[idx]
         # Normalise SED to observed SED
-- 
2.43.0


From 1b24d6cf10c22ebc150ba59dea2b0215febf6715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:52 +0000
Subject: [PATCH 50/74] fix: columns missing from a stacked table were filled
 with undefined values

---
 exorad/utils/util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/exorad/utils/util.py b/exorad/utils/util.py
index 95e3296..b1b757c 100644
--- a/exorad/utils/util.py
+++ b/exorad/utils/util.py
@@ -87,11 +87,11 @@ def vstack_tables(table_list):
             col_name1 = [col for col in table.keys() if col not in tab.keys()]
             if col_name1:
                 for c in col_name1:
-                    tab[c] = np.zeros(len(tab)) * table[c][0]
+                    tab[c] = np.zeros(len(tab)) * (table[c].unit or 1)
             col_name2 = [col for col in tab.keys() if col not in table.keys()]
             if col_name2:
                 for c in col_name2:
-                    table[c] = np.zeros(len(table)) * tab[c][0]
+                    table[c] = np.zeros(len(table)) * (tab[c].unit or 1)
             table = vstack([table, tab], join_type="outer")
     return table
 
-- 
2.43.0


From 6ec2c7619b0c57f137104ea3192c36368aa0a001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:42 +0000
Subject: [PATCH 51/74] fix: the copy of an input could take the place of the
 output file

---
 exorad/exorad.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/exorad/exorad.py b/exorad/exorad.py
index ae30360..cb5938a 100644
--- a/exorad/exorad.py
+++ b/exorad/exorad.py
@@ -90,6 +90,9 @@ def standard_pipeline(
         for input_file in [options, target_list]:
             if not isinstance(input_file, str):
                 continue
+            if os.path.basename(input_file) == os.path.basename(output):
+                # the copy would take the place of the output
+                continue
             try:
                 shutil.copy(input_file, out_dir)
             except shutil.SameFileError:
-- 
2.43.0


From dba39834032477e6c47ac89ab81e375bf7c820dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:31 +0000
Subject: [PATCH 52/74] fix: a target with a single coordinate could not be
 observed with zodiacal light

---
 exorad/tasks/foregroundHandler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exorad/tasks/foregroundHandler.py b/exorad/tasks/foregroundHandler.py
index 25f9092..0262615 100644
--- a/exorad/tasks/foregroundHandler.py
+++ b/exorad/tasks/foregroundHandler.py
@@ -48,7 +48,7 @@ class EstimateZodi(Task):
             * u.um
         )
 
-        if "ra" in target.star.__dict__.keys():
+        if {"ra", "dec"} <= target.star.__dict__.keys():
             zodi = ZodiacalFrg(
                 wl=wl,
                 description=zodi_dict,
-- 
2.43.0


From 4e39b02810a41587ebd55d62a6fdb9a08b15a4d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:31 +0000
Subject: [PATCH 53/74] fix: a zodiacal map file without a table made the
 observation fail

---
 exorad/models/foregrounds/zodiacalForeground.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exorad/models/foregrounds/zodiacalForeground.py b/exorad/models/foregrounds/zodiacalForeground.py
index cd46354..20ba3ed 100644
--- a/exorad/models/foregrounds/zodiacalForeground.py
+++ b/exorad/models/foregrounds/zodiacalForeground.py
@@ -130,6 +130,6 @@ class ZodiacalFrg(Logger):
             self.debug(zodi_table[idx])
             return zodi_table["zodi_coeff"][idx]
 
-        except OSError:
+        except (OSError, ValueError):
             self.error("Zodi map file not found")
             raise OSError("Zodi map file not found")
-- 
2.43.0


From 6bfb1b6d7580f09dc132c5bb30dcf9e3ae405cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:36 +0000
Subject: [PATCH 54/74] fix: a range with three ends was accepted as a
 selection of targets

---
 exorad/utils/util.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/exorad/utils/util.py b/exorad/utils/util.py
index b1b757c..3bdba20 100644
--- a/exorad/utils/util.py
+++ b/exorad/utils/util.py
@@ -110,6 +110,8 @@ def parse_range(inp, avail_values):
         end = None
         try:
             s = a.replace(":", "-").split("-")
+            if len(s) > 2:
+                raise ValueError
             start = int(s[0])
             end = int(s[1])
             end += 1
-- 
2.43.0


From bc7fdd56fdefc5d145abc6b700978773a4dcf86d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:34 +0000
Subject: [PATCH 55/74] fix: observing a target showed again the messages
 silenced by the user

---
 exorad/tasks/targetHandler.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/exorad/tasks/targetHandler.py b/exorad/tasks/targetHandler.py
index a506b62..9c484ac 100644
--- a/exorad/tasks/targetHandler.py
+++ b/exorad/tasks/targetHandler.py
@@ -8,7 +8,6 @@ from ..models.targetlist import XLXSTargetList
 from .task import Task
 from exorad.__version__ import __version__
 from exorad.log import disableLogging
-from exorad.log import enableLogging
 from exorad.utils.passVal import PassVal
 
 
@@ -294,6 +293,9 @@ def pipeline_to_dict(
     observeTarget = ObserveTarget()
 
     root_logger.info("observing {}".format(target.name))
+    # messages already silenced by the user stay so afterwards
+    screen = root_logger.handlers[0]
+    level = screen.level
     if not debug:
         disableLogging()
     try:
@@ -303,7 +305,7 @@ def pipeline_to_dict(
             channels=channels,
             wl_range=wl_range,
         )
-        enableLogging()
+        screen.setLevel(level)
         outputDict = deepcopy(target)
 
         if plot:
@@ -320,7 +322,7 @@ def pipeline_to_dict(
             plt.close()
         return target.name, outputDict
     except:
-        enableLogging()
+        screen.setLevel(level)
         root_logger.warning(
             "target {} skipped. Please check for previous error messages".format(
                 target.name
-- 
2.43.0


From 7b4ffb7334166653336b0874448837208fe5f75c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:26 +0000
Subject: [PATCH 56/74] fix: a masked value in a table of targets stopped the
 whole run

---
 exorad/models/targetlist.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/exorad/models/targetlist.py b/exorad/models/targetlist.py
index d09f18f..663ac2f 100644
--- a/exorad/models/targetlist.py
+++ b/exorad/models/targetlist.py
@@ -480,7 +480,7 @@ class QTableTargetList(BaseTargetList):
         star_k = [k for k in self.tmpTab.keys() if "star" in k]
         dat = []
         for i in range(len(self.tmpTab[star_k])):
-            val = list(self.tmpTab[star_k][i])
+            val = [self._unmasked(v) for v in self.tmpTab[star_k][i]]
             self._check_quantities(val)
             dat.append([str(x) if isinstance(x, np.str_) else x for x in val])
         return dat
@@ -493,14 +493,21 @@ class QTableTargetList(BaseTargetList):
         star_k = [k for k in self.tmpTab.keys() if "planet" in k]
         dat = []
         for i in range(len(self.tmpTab[star_k])):
-            val = list(self.tmpTab[star_k][i])
+            val = [self._unmasked(v) for v in self.tmpTab[star_k][i]]
             self._check_quantities(val)
             dat.append([str(x) if isinstance(x, np.str_) else x for x in val])
         return dat
 
+    @staticmethod
+    def _unmasked(value):
+        # values missing in the table are masked
+        if np.any(getattr(value, "mask", False)):
+            return np.ma.masked
+        return getattr(value, "unmasked", value)
+
     def _check_quantities(self, val):
         for v in val:
-            if not isinstance(v, np.str_):
+            if v is not np.ma.masked and not isinstance(v, np.str_):
                 if not hasattr(v, "unit"):
                     self.error(
                         "Wrong target list format: Quantities are required"
-- 
2.43.0


From 0d6995550d03029e0b1c6a5606e4683ca583fbff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:11 +0000
Subject: [PATCH 57/74] fix: plotting the efficiency of a loaded payload
 changed its transmission

---
 exorad/utils/plotter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/exorad/utils/plotter.py b/exorad/utils/plotter.py
index 8e13b5d..f909ef4 100644
--- a/exorad/utils/plotter.py
+++ b/exorad/utils/plotter.py
@@ -144,7 +144,8 @@ class Plotter(Logger):
                             pce = sig
                         else:
                             sig.spectral_rebin(pce.wl_grid)
-                            pce.data *= sig.data
+                            # the data of the channel are left alone
+                            pce.data = pce.data * sig.data
                     ax.plot(
                         pce.wl_grid,
                         pce.data,
-- 
2.43.0


From f228dd7bb216fe142881a8816d9f5b6815c0ab25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:47 +0000
Subject: [PATCH 58/74] fix: a directory of images given without the trailing
 slash was not read

---
 exorad/utils/exolib.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/exorad/utils/exolib.py b/exorad/utils/exolib.py
index 2e7d8bb..9c5dbd5 100644
--- a/exorad/utils/exolib.py
+++ b/exorad/utils/exolib.py
@@ -232,7 +232,7 @@ def binnedPSF(
                     F_x, F_y, wl, delta_pix, hdr
                 )
         elif os.path.isdir(filename):
-            filenames = np.sort(glob.glob(filename + "*.fits"))
+            filenames = np.sort(glob.glob(os.path.join(filename, "*.fits")))
             psf_wl = []
             for file in filenames:
                 with fits.open(os.path.expanduser(file)) as hdu:
@@ -298,7 +298,7 @@ def pixel_based_psf(wl, delta_pix, filename):
             extent = load_pixel_psf_size(delta_pix, hdr)
 
     elif os.path.isdir(filename):
-        filenames = np.sort(glob.glob(filename + "*.fits"))
+        filenames = np.sort(glob.glob(os.path.join(filename, "*.fits")))
         psf_wl = []
         for file in filenames:
             with fits.open(os.path.expanduser(file)) as hdu:
-- 
2.43.0


From ec74d3e18577c1fac5ca69635af34b646d837145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:13 +0000
Subject: [PATCH 59/74] fix: the radius of an encircled energy aperture
 depended on the sampling of the image

---
 exorad/models/instruments/photometer.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/exorad/models/instruments/photometer.py b/exorad/models/instruments/photometer.py
index 9853376..8ee8b85 100644
--- a/exorad/models/instruments/photometer.py
+++ b/exorad/models/instruments/photometer.py
@@ -76,14 +76,14 @@ class Photometer(Instrument):
         self._add_data_to_built("pixelRF", pixel_rf)
         self._add_data_to_built("extent", extent)
 
-        window_size_px = self._windows_size(prf, psf_format)
+        window_size_px = self._windows_size(prf, psf_format, extent)
         self.debug("window size : {}".format(window_size_px))
         self._add_data_to_built("window_size_px", window_size_px)
         self.table["WindowSize"] = window_size_px
 
         self._add_data_to_built("table", self.table)
 
-    def _windows_size(self, prf, psf_format):
+    def _windows_size(self, prf, psf_format, extent):
         """estimates the windows size starting from the PSF"""
         if "radius" in self.description["aperture"].keys():
             aper_radius = self.description["aperture"]["radius"]["value"]
@@ -109,11 +109,14 @@ class Photometer(Instrument):
                 )
                 window_size_px = [np.pi * aper_radius**2 * u.Unit("")]
             else:
+                # the radius is in units of F-number times wavelength
+                sample_x = (extent[1] - extent[0]) / prf.shape[1]
+                sample_y = (extent[3] - extent[2]) / prf.shape[0]
                 aper_radius = find_aperture_radius(
                     prf,
                     self.description["aperture"]["EnE"]["value"],
-                    self.description["Fnum_x"]["value"],
-                    self.description["Fnum_y"]["value"],
+                    self.description["Fnum_x"]["value"] / sample_x,
+                    self.description["Fnum_y"]["value"] / sample_y,
                     self.table["Wavelength"],
                 )
                 window_size_px = (
-- 
2.43.0


From 37d228cb543b2301cfede37cf85f4d3ca526c370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:33 +0000
Subject: [PATCH 60/74] fix: a home directory in the path of a pickled
 dictionary was not expanded

---
 exorad/tasks/loadOptions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exorad/tasks/loadOptions.py b/exorad/tasks/loadOptions.py
index a416c8c..ee1fcce 100644
--- a/exorad/tasks/loadOptions.py
+++ b/exorad/tasks/loadOptions.py
@@ -213,7 +213,7 @@ class LoadOptions(Task):
         elif ext == ".pickle":
             import pickle
 
-            f = open(datadict, "rb")
+            f = open(os.path.expanduser(datadict), "rb")
             data = pickle.load(f)
             f.close()
             return data
-- 
2.43.0


From fe9be61908ebeb6c16a2a28f4d3ab7677b94ec89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:47 +0000
Subject: [PATCH 61/74] fix: an element of a channel replaced the common
 element with the same name

---
 exorad/models/optics/opticalPath.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/exorad/models/optics/opticalPath.py b/exorad/models/optics/opticalPath.py
index 6940060..9fa0913 100644
--- a/exorad/models/optics/opticalPath.py
+++ b/exorad/models/optics/opticalPath.py
@@ -213,9 +213,15 @@ class OpticalPath(Logger):
             Dictionary of optical elements to prepend.
         """
         # Prepend the new optical elements to the existing ones
-        self.optical_element_dict = OrderedDict(
-            list(optical_element_dict.items()) + list(self.optical_element_dict.items())
-        )
+        elements = OrderedDict(optical_element_dict)
+        for name, el in self.optical_element_dict.items():
+            # do not replace an element that has the same name
+            key, n = name, 2
+            while key in elements:
+                key = f"{name} {n}"
+                n += 1
+            elements[key] = el
+        self.optical_element_dict = elements
 
     def _prepare_elements(self):
         """
@@ -278,8 +284,8 @@ class OpticalPath(Logger):
                 if opt_el[other_el].type == "slit":
                     out_radiance.slit = True
             # Store the radiance data
-            self.radiance_dict[el.name] = copy.deepcopy(out_radiance)
-            self.radiance_table[el.name] = copy.deepcopy(out_radiance.data)
+            self.radiance_dict[k] = copy.deepcopy(out_radiance)
+            self.radiance_table[k] = copy.deepcopy(out_radiance.data)
             self.debug(f"Final radiance: {out_radiance.data}")
         return self.radiance_dict
 
-- 
2.43.0


From 4f0ad081a094e3e00007e5898b76df07b3c06508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:09 +0000
Subject: [PATCH 62/74] fix: no spectral bin beyond a band that ends on a bin
 edge

The number of bins is the ceiling of a ratio of logarithms, which exceeds an
integer by a rounding error when wl_max is an edge of the bins (e.g. 1.0-1.44
micron with R=5): one more bin was added outside of the band. It holds no
pixel, so that no target could be observed with the channel.
---
 exorad/models/instruments/spectrometer.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/exorad/models/instruments/spectrometer.py b/exorad/models/instruments/spectrometer.py
index a9685d9..fffa0bb 100644
--- a/exorad/models/instruments/spectrometer.py
+++ b/exorad/models/instruments/spectrometer.py
@@ -54,9 +54,14 @@ class Spectrometer(Instrument):
             else:
                 number_of_spectral_bins = (
                     np.ceil(
-                        np.log(wl_max / wl_min)
-                        / np.log(
-                            1.0 + 1.0 / self.description["targetR"]["value"]
+                        # rounded not to add a bin when the last edge is wl_max
+                        np.round(
+                            np.log(wl_max / wl_min)
+                            / np.log(
+                                1.0
+                                + 1.0 / self.description["targetR"]["value"]
+                            ),
+                            9,
                         )
                     )
                     + 1
-- 
2.43.0


From 9dc63042c598b07d59225c6c76473f03c6c12985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:51 +0000
Subject: [PATCH 63/74] fix: a read was lost when the reads fill the frame time
 exactly

The number of reads is the floor of frame time times read frequency, which may
be below an integer by a rounding error: 0.29 s at 100 Hz gave 28 reads, 290 ms
at 100 Hz 29.
---
 exorad/models/noise.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/exorad/models/noise.py b/exorad/models/noise.py
index e4e3456..9a5f127 100644
--- a/exorad/models/noise.py
+++ b/exorad/models/noise.py
@@ -69,9 +69,13 @@ def multiaccum(channel, t_frame):
     float
         shot noise gain
     """
+    # rounded not to lose a read when they fill the frame time exactly
     nRead = np.floor(
-        u.Quantity(t_frame * channel["detector"]["freqNDR"]["value"]).to(
-            u.dimensionless_unscaled
+        np.round(
+            u.Quantity(t_frame * channel["detector"]["freqNDR"]["value"]).to(
+                u.dimensionless_unscaled
+            ),
+            9,
         )
     )
 
-- 
2.43.0


From 1e21783575fc92238d706a6e17a7d5b0fff83082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:09 +0000
Subject: [PATCH 64/74] fix: names that look like numbers were changed when a
 list was read

---
 exorad/models/targetlist.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/exorad/models/targetlist.py b/exorad/models/targetlist.py
index 663ac2f..b63fea9 100644
--- a/exorad/models/targetlist.py
+++ b/exorad/models/targetlist.py
@@ -16,6 +16,13 @@ compactString = lambda string: string.replace(" ", "").replace("-", "").lower()
 stripUnitString = lambda string: string.replace("[", "").replace("]", "")
 
 
+# names are text, also if all of them look like numbers
+name_converters = {
+    "[sS]tar [nN]ame": [ascii.convert_numpy(str)],
+    "[pP]lanet [nN]ame": [ascii.convert_numpy(str)],
+}
+
+
 class BaseTargetList(Logger):
     """
     Target list base class
@@ -191,7 +198,9 @@ class CSVTargetList(BaseTargetList):
         super().__init__()
 
     def read_data(self):
-        self.tmpTab = ascii.read(self.filename, format="csv")
+        self.tmpTab = ascii.read(
+            self.filename, format="csv", converters=name_converters
+        )
 
     def star_keys(self):
         s_col = [k for k in self.tmpTab.keys() if "star" in k]
@@ -250,7 +259,9 @@ class CSVTargetListMRS(BaseTargetList):
         super().__init__()
 
     def read_data(self):
-        self.tmpTab = ascii.read(self.filename, format="csv")
+        self.tmpTab = ascii.read(
+            self.filename, format="csv", converters=name_converters
+        )
 
     def star_keys(self):
         s_col = [k for k in self.tmpTab.keys() if "star" in k.lower()]
-- 
2.43.0


From 4327edc6c7151f30d3ec52f2a1d81585a93629ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:00 +0000
Subject: [PATCH 65/74] fix: tabulated resolving powers in narrow bins were
 rounded, or never ended

---
 exorad/models/instruments/spectrometer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exorad/models/instruments/spectrometer.py b/exorad/models/instruments/spectrometer.py
index fffa0bb..c7834c8 100644
--- a/exorad/models/instruments/spectrometer.py
+++ b/exorad/models/instruments/spectrometer.py
@@ -83,7 +83,7 @@ class Spectrometer(Instrument):
             while w2 < wl_max.value:
                 w1 = w2
                 res = get_res(w1)
-                w2 = np.round((w1 + w1 / res), 4)
+                w2 = w1 + w1 / res
                 wl_bin = np.append(wl_bin, w2)
             if (
                 wl_max.value - wl_bin[-2]
-- 
2.43.0


From 7bd0dee6770f6bd0f07210b2fb207b7a5d4652eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:00 +0000
Subject: [PATCH 66/74] fix: a tabulated resolving power that gives a single
 bin was refused

---
 exorad/models/instruments/spectrometer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/exorad/models/instruments/spectrometer.py b/exorad/models/instruments/spectrometer.py
index c7834c8..5ce94a8 100644
--- a/exorad/models/instruments/spectrometer.py
+++ b/exorad/models/instruments/spectrometer.py
@@ -86,7 +86,8 @@ class Spectrometer(Instrument):
                 w2 = w1 + w1 / res
                 wl_bin = np.append(wl_bin, w2)
             if (
-                wl_max.value - wl_bin[-2]
+                wl_bin.size > 2
+                and wl_max.value - wl_bin[-2]
                 < (wl_bin[-2] - wl_bin[-3]) / 2.0
             ):  # remove small bin at end of channel
                 wl_bin[-2] = wl_max.value
-- 
2.43.0


From 969b21917c475ce0eb4ed794f656845c0ccced25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:27 +0000
Subject: [PATCH 67/74] fix: wavelengths on the edges of bands and bins were in
 or out by a rounding error

---
 exorad/models/instruments/instrument.py   | 36 ++++++++------------
 exorad/models/instruments/photometer.py   | 11 +------
 exorad/models/instruments/spectrometer.py | 17 +++-------
 exorad/models/optics/opticalElement.py    |  6 ++--
 exorad/models/utils.py                    | 40 +++++++++++++++++++++++
 exorad/utils/diffuse_light_propagation.py |  3 +-
 6 files changed, 66 insertions(+), 47 deletions(-)

diff --git a/exorad/models/instruments/instrument.py b/exorad/models/instruments/instrument.py
index 0249935..3db7247 100644
--- a/exorad/models/instruments/instrument.py
+++ b/exorad/models/instruments/instrument.py
@@ -11,6 +11,8 @@ from exorad.log.logger import Logger
 from exorad.models.optics.opticalPath import OpticalPath
 from exorad.models.signal import Signal
 from exorad.models.utils import get_wl_col_name
+from exorad.models.utils import is_above
+from exorad.models.utils import is_below
 from exorad.utils.diffuse_light_propagation import convolve_with_slit
 from exorad.utils.diffuse_light_propagation import integrate_light
 from exorad.utils.diffuse_light_propagation import prepare
@@ -268,6 +270,15 @@ class Instrument(Logger):
             return False
         return bool(optics["ForceChannelWlEdge"]["value"])
 
+    def _out_of_band(self, wl):
+        """
+        it tells which wavelengths are out of the channel band. The edges belong to the band.
+        """
+        return np.logical_or(
+            is_below(wl, self.description["wl_min"]["value"].to(wl.unit)),
+            is_above(wl, self.description["wl_max"]["value"].to(wl.unit)),
+        )
+
     def _get_transmission(self, wl_grid, tr_data=None):
         tr_func = interp1d(
             wl_grid,
@@ -289,27 +300,8 @@ class Instrument(Logger):
 
         if self._force_channel_wl_edge():
             self.debug("force channel wl edge enabled")
-            idx = np.logical_or(
-                self.table["Wavelength"]
-                < self.description["wl_min"]["value"].to(
-                    self.table["Wavelength"].unit
-                ),
-                self.table["Wavelength"]
-                > self.description["wl_max"]["value"].to(
-                    self.table["Wavelength"].unit
-                ),
-            )
-            transmission[idx] = 0.0
-            idx = np.logical_or(
-                transmission_data.wl_grid
-                < self.description["wl_min"]["value"].to(
-                    self.table["Wavelength"].unit
-                ),
-                transmission_data.wl_grid
-                > self.description["wl_max"]["value"].to(
-                    self.table["Wavelength"].unit
-                ),
-            )
+            transmission[self._out_of_band(self.table["Wavelength"])] = 0.0
+            idx = self._out_of_band(transmission_data.wl_grid)
             transmission_data.data[idx] = 0.0
 
         self.debug("transmission in channel : {}".format(transmission))
@@ -408,7 +400,7 @@ class Instrument(Logger):
             self.table["LeftBinEdge"], self.table["RightBinEdge"]
         ):
             mask = np.logical_and(
-                signal.wl_grid >= wld, signal.wl_grid < wlu
+                ~is_below(signal.wl_grid, wld), is_below(signal.wl_grid, wlu)
             ).astype(float)
             window_function.append(mask)
         window_function = np.array(window_function)
diff --git a/exorad/models/instruments/photometer.py b/exorad/models/instruments/photometer.py
index 8ee8b85..95f7e3a 100644
--- a/exorad/models/instruments/photometer.py
+++ b/exorad/models/instruments/photometer.py
@@ -139,16 +139,7 @@ class Photometer(Instrument):
 
         if self._force_channel_wl_edge():
             self.debug("force channel wl edge enabled")
-            idx = np.logical_or(
-                wl
-                < self.description["wl_min"]["value"].to(
-                    self.table["Wavelength"].unit
-                ),
-                wl
-                > self.description["wl_max"]["value"].to(
-                    self.table["Wavelength"].unit
-                ),
-            )
+            idx = self._out_of_band(wl)
             transmission[idx] = wave_window[idx] = 0.0
 
         star_flux = np.trapz(
diff --git a/exorad/models/instruments/spectrometer.py b/exorad/models/instruments/spectrometer.py
index 5ce94a8..e68cf25 100644
--- a/exorad/models/instruments/spectrometer.py
+++ b/exorad/models/instruments/spectrometer.py
@@ -12,6 +12,8 @@ from exorad.models.signal import CountsPerSeconds
 from exorad.models.signal import CustomSignal
 from exorad.models.signal import Signal
 from exorad.models.utils import column_value
+from exorad.models.utils import is_above
+from exorad.models.utils import is_below
 from exorad.utils.exolib import binnedPSF
 from exorad.utils.exolib import find_aperture_radius
 from exorad.utils.exolib import paosPSF
@@ -349,16 +351,7 @@ class Spectrometer(Instrument):
         )
         if self._force_channel_wl_edge():
             self.debug("force channel wl edge enabled")
-            idx = np.logical_or(
-                wl
-                < self.description["wl_min"]["value"].to(
-                    self.table["Wavelength"].unit
-                ),
-                wl
-                > self.description["wl_max"]["value"].to(
-                    self.table["Wavelength"].unit
-                ),
-            )
+            idx = self._out_of_band(wl)
             transmission[idx] = wave_window[idx] = 0.0
 
         signal_density = CustomSignal(
@@ -428,8 +421,8 @@ class Spectrometer(Instrument):
         ):
             idx = np.where(
                 np.logical_and(
-                    star_signal_inPixel.wl_grid > wld,
-                    star_signal_inPixel.wl_grid < wlu,
+                    is_above(star_signal_inPixel.wl_grid, wld),
+                    is_below(star_signal_inPixel.wl_grid, wlu),
                 )
             )[0]
             starSignal_inPixel_max[k] = np.max(star_signal_inPixel.data[idx])
diff --git a/exorad/models/optics/opticalElement.py b/exorad/models/optics/opticalElement.py
index 46c5938..285b53c 100644
--- a/exorad/models/optics/opticalElement.py
+++ b/exorad/models/optics/opticalElement.py
@@ -5,6 +5,8 @@ from scipy.interpolate import interp1d
 from exorad.log import Logger
 from exorad.models.utils import column_value
 from exorad.models.utils import get_wl_col_name
+from exorad.models.utils import is_above
+from exorad.models.utils import is_below
 
 
 class OpticalElement(Logger):
@@ -217,13 +219,13 @@ class OpticalElement(Logger):
             if "wl_min" in self.description:
                 wl_min = self.description["wl_min"]["value"].to(self.wl.unit)
                 self.debug(f"Transmission lower boundary at {wl_min}")
-                idx = np.where(self.wl < wl_min)
+                idx = np.where(is_below(self.wl, wl_min))
                 transmission[idx] = 0.0
             # Apply wavelength upper bound if specified
             if "wl_max" in self.description:
                 wl_max = self.description["wl_max"]["value"].to(self.wl.unit)
                 self.debug(f"Transmission upper boundary at {wl_max}")
-                idx = np.where(self.wl > wl_max)
+                idx = np.where(is_above(self.wl, wl_max))
                 transmission[idx] = 0.0
         else:
             # Default transmission is 1 (no attenuation)
diff --git a/exorad/models/utils.py b/exorad/models/utils.py
index 47edcd0..aa07afc 100644
--- a/exorad/models/utils.py
+++ b/exorad/models/utils.py
@@ -33,3 +33,43 @@ def column_value(column, unit):
     if column_unit is None:
         return np.asarray(column)
     return (np.asarray(column) * u.Unit(column_unit)).to(unit).value
+
+
+# relative distance from an edge under which a wavelength is on the edge
+edge_tolerance = 1e-9
+
+
+def is_below(wl, edge):
+    """
+    It tells which wavelengths are below the edge and not on it, within the rounding errors.
+
+    Parameters
+    ----------
+    wl: quantity
+        wavelength grid
+    edge: quantity
+        wavelength of the edge
+
+    Returns
+    -------
+    array
+    """
+    return wl < edge * (1 - edge_tolerance)
+
+
+def is_above(wl, edge):
+    """
+    It tells which wavelengths are above the edge and not on it, within the rounding errors.
+
+    Parameters
+    ----------
+    wl: quantity
+        wavelength grid
+    edge: quantity
+        wavelength of the edge
+
+    Returns
+    -------
+    array
+    """
+    return wl > edge * (1 + edge_tolerance)
diff --git a/exorad/utils/diffuse_light_propagation.py b/exorad/utils/diffuse_light_propagation.py
index f55d12f..75521ef 100644
--- a/exorad/utils/diffuse_light_propagation.py
+++ b/exorad/utils/diffuse_light_propagation.py
@@ -6,6 +6,7 @@ import numpy as np
 from scipy.interpolate import interp1d
 
 from exorad.models.signal import Signal
+from exorad.models.utils import is_above
 from exorad.utils.exolib import OmegaPix
 
 logger = logging.getLogger("exorad.diffuse light")
@@ -94,7 +95,7 @@ def convolve_with_slit(
     ).to(u.count / u.s)
     logger.debug("signal_tmp: {}".format(signal_tmp))
     idx = [
-        np.logical_and(wl_pix > wlow, wl_pix <= whigh)
+        np.logical_and(is_above(wl_pix, wlow), ~is_above(wl_pix, whigh))
         for wlow, whigh in zip(
             ch_table["LeftBinEdge"], ch_table["RightBinEdge"]
         )
-- 
2.43.0


From e21cf8d564692de1f8395555a445404249692e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:27 +0000
Subject: [PATCH 68/74] fix: one pixel more by a rounding error in a band with
 a whole number of pixels

---
 exorad/models/instruments/spectrometer.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/exorad/models/instruments/spectrometer.py b/exorad/models/instruments/spectrometer.py
index e68cf25..9d08263 100644
--- a/exorad/models/instruments/spectrometer.py
+++ b/exorad/models/instruments/spectrometer.py
@@ -176,10 +176,11 @@ class Spectrometer(Instrument):
         )
 
         # coordinates of detector  pixel centres
-        coord_pix_center = (
-            np.arange(first_pixel.value, last_pixel.value, delta.value)
-            * delta.unit
+        # rounding errors do not add a pixel to a band with a whole number of them
+        number_of_pixels = np.ceil(
+            np.round((last_pixel - first_pixel).value / delta.value, 6)
         )
+        coord_pix_center = first_pixel + np.arange(number_of_pixels) * delta
         coord_pix_center = np.flip(coord_pix_center)
         self.debug("pix_center: {}".format(coord_pix_center))
         self._add_data_to_built("pix_center", coord_pix_center)
-- 
2.43.0


From f671472907badbb96004c1fedbf4b0bb7e345fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:06 +0000
Subject: [PATCH 69/74] fix: the end samples of data files were lost by a
 rounding error

---
 exorad/models/foregrounds/skyForegrounds.py |  9 ++++++--
 exorad/models/instruments/instrument.py     |  5 +++--
 exorad/models/instruments/spectrometer.py   |  3 ++-
 exorad/models/optics/opticalElement.py      |  5 +++--
 exorad/models/utils.py                      | 25 +++++++++++++++++++++
 exorad/utils/diffuse_light_propagation.py   |  3 ++-
 exorad/utils/exolib.py                      |  4 +++-
 7 files changed, 45 insertions(+), 9 deletions(-)

diff --git a/exorad/models/foregrounds/skyForegrounds.py b/exorad/models/foregrounds/skyForegrounds.py
index 087899a..50a6b10 100644
--- a/exorad/models/foregrounds/skyForegrounds.py
+++ b/exorad/models/foregrounds/skyForegrounds.py
@@ -2,6 +2,7 @@ from scipy.interpolate import interp1d
 
 from exorad.log import Logger
 from exorad.models.signal import Radiance
+from exorad.models.utils import snap_to_range
 
 
 class SkyFilter(Radiance):
@@ -36,7 +37,9 @@ class SkyForeground(Logger):
             bounds_error=False,
         )
         skyFilter = SkyFilter(
-            self.wl, em_func(self.wl) * skyFilter_data["Radiance"].unit
+            self.wl,
+            em_func(snap_to_range(self.wl, em_func.x))
+            * skyFilter_data["Radiance"].unit,
         )
         self.debug("radiance : {}".format(skyFilter.data))
 
@@ -47,7 +50,9 @@ class SkyForeground(Logger):
             fill_value=1.0,
             bounds_error=False,
         )
-        skyFilter.transmission = tr_func(self.wl)
+        skyFilter.transmission = tr_func(
+            snap_to_range(self.wl, tr_func.x)
+        )
         self.debug("transmission : {}".format(skyFilter.transmission))
 
         return skyFilter
diff --git a/exorad/models/instruments/instrument.py b/exorad/models/instruments/instrument.py
index 3db7247..4335445 100644
--- a/exorad/models/instruments/instrument.py
+++ b/exorad/models/instruments/instrument.py
@@ -13,6 +13,7 @@ from exorad.models.signal import Signal
 from exorad.models.utils import get_wl_col_name
 from exorad.models.utils import is_above
 from exorad.models.utils import is_below
+from exorad.models.utils import snap_to_range
 from exorad.utils.diffuse_light_propagation import convolve_with_slit
 from exorad.utils.diffuse_light_propagation import integrate_light
 from exorad.utils.diffuse_light_propagation import prepare
@@ -293,7 +294,7 @@ class Instrument(Logger):
 
         transmission = self._bin_signal(
             self.table["Wavelength"],
-            tr_func(self.table["Wavelength"]),
+            tr_func(snap_to_range(self.table["Wavelength"], tr_func.x)),
             self.table["LeftBinEdge"],
             self.table["RightBinEdge"],
         )
@@ -349,7 +350,7 @@ class Instrument(Logger):
         )
         qe = self._bin_signal(
             self.table["Wavelength"],
-            qe_func(self.table["Wavelength"]),
+            qe_func(snap_to_range(self.table["Wavelength"], qe_func.x)),
             self.table["LeftBinEdge"],
             self.table["RightBinEdge"],
         )
diff --git a/exorad/models/instruments/spectrometer.py b/exorad/models/instruments/spectrometer.py
index 9d08263..a26868a 100644
--- a/exorad/models/instruments/spectrometer.py
+++ b/exorad/models/instruments/spectrometer.py
@@ -14,6 +14,7 @@ from exorad.models.signal import Signal
 from exorad.models.utils import column_value
 from exorad.models.utils import is_above
 from exorad.models.utils import is_below
+from exorad.models.utils import snap_to_range
 from exorad.utils.exolib import binnedPSF
 from exorad.utils.exolib import find_aperture_radius
 from exorad.utils.exolib import paosPSF
@@ -84,7 +85,7 @@ class Spectrometer(Instrument):
             wl_bin = np.array([w1])
             while w2 < wl_max.value:
                 w1 = w2
-                res = get_res(w1)
+                res = get_res(snap_to_range(w1, get_res.x))
                 w2 = w1 + w1 / res
                 wl_bin = np.append(wl_bin, w2)
             if (
diff --git a/exorad/models/optics/opticalElement.py b/exorad/models/optics/opticalElement.py
index 285b53c..0685711 100644
--- a/exorad/models/optics/opticalElement.py
+++ b/exorad/models/optics/opticalElement.py
@@ -7,6 +7,7 @@ from exorad.models.utils import column_value
 from exorad.models.utils import get_wl_col_name
 from exorad.models.utils import is_above
 from exorad.models.utils import is_below
+from exorad.models.utils import snap_to_range
 
 
 class OpticalElement(Logger):
@@ -196,7 +197,7 @@ class OpticalElement(Logger):
                 bounds_error=False,
             )
             # Evaluate the transmission over the wavelength grid
-            transmission = tr_func(self.wl)
+            transmission = tr_func(snap_to_range(self.wl, tr_func.x))
         elif "transmission" in self.description and "reflectivity" in self.description:
             if "use" in self.description:
                 key = self.description["use"]["value"]
@@ -284,7 +285,7 @@ class OpticalElement(Logger):
                 bounds_error=False,
             )
             # Evaluate the emissivity over the wavelength grid
-            emissivity = em_func(self.wl)
+            emissivity = em_func(snap_to_range(self.wl, em_func.x))
         elif "emissivity" in self.description:
             # Apply a constant emissivity value
             emissivity = np.ones(self.wl.size) * self.description["emissivity"]["value"]
diff --git a/exorad/models/utils.py b/exorad/models/utils.py
index aa07afc..d16f347 100644
--- a/exorad/models/utils.py
+++ b/exorad/models/utils.py
@@ -73,3 +73,28 @@ def is_above(wl, edge):
     array
     """
     return wl > edge * (1 + edge_tolerance)
+
+
+def snap_to_range(wl, samples):
+    """
+    It moves the wavelengths that are out of the sampled range by a rounding error onto its ends,
+    such that an interpolation over the samples does not lose them.
+    The wavelengths and the samples are in the same units.
+
+    Parameters
+    ----------
+    wl: array
+        wavelength grid
+    samples: array
+        sampled wavelengths
+
+    Returns
+    -------
+    array
+        wavelength grid, without units
+    """
+    wl = np.array(wl, dtype=float)
+    samples = np.asarray(samples)
+    first, last = samples.min(), samples.max()
+    wl = np.where((wl < first) & ~is_below(wl, first), first, wl)
+    return np.where((wl > last) & ~is_above(wl, last), last, wl)
diff --git a/exorad/utils/diffuse_light_propagation.py b/exorad/utils/diffuse_light_propagation.py
index 75521ef..546568a 100644
--- a/exorad/utils/diffuse_light_propagation.py
+++ b/exorad/utils/diffuse_light_propagation.py
@@ -7,6 +7,7 @@ from scipy.interpolate import interp1d
 
 from exorad.models.signal import Signal
 from exorad.models.utils import is_above
+from exorad.models.utils import snap_to_range
 from exorad.utils.exolib import OmegaPix
 
 logger = logging.getLogger("exorad.diffuse light")
@@ -77,7 +78,7 @@ def convolve_with_slit(
     aomega = (
         omega_pix
         * A
-        * qe_func(wl_pix)
+        * qe_func(snap_to_range(wl_pix, qe_func.x))
         * (wl_pix / const.c / const.h).to(1.0 / u.W / u.s)
         * u.count
     )
diff --git a/exorad/utils/exolib.py b/exorad/utils/exolib.py
index 9c5dbd5..814ecfd 100644
--- a/exorad/utils/exolib.py
+++ b/exorad/utils/exolib.py
@@ -13,6 +13,8 @@ from scipy.interpolate import interp1d
 from scipy.special import j1
 from scipy.stats import binned_statistic
 
+from exorad.models.utils import snap_to_range
+
 logger = logging.getLogger("exorad.exolib")
 
 
@@ -116,7 +118,7 @@ def rebin(x, xp, fp):
             bounds_error=False,
             kind="linear",
         )
-        new_f = func(x)
+        new_f = func(snap_to_range(x, func.x))
 
         if not hasattr(new_f, "unit"):
             logger.debug("output units force to inputs fp")
-- 
2.43.0


From e190b4a699463d0831983b04b54f4fa1ba1bd847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:17:25 +0000
Subject: [PATCH 70/74] fix: the zodiacal map position was not the nearest one
 near the poles

---
 exorad/models/foregrounds/zodiacalForeground.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/exorad/models/foregrounds/zodiacalForeground.py b/exorad/models/foregrounds/zodiacalForeground.py
index 20ba3ed..080f349 100644
--- a/exorad/models/foregrounds/zodiacalForeground.py
+++ b/exorad/models/foregrounds/zodiacalForeground.py
@@ -1,5 +1,4 @@
 import astropy.units as u
-from astropy.coordinates import Angle
 
 from exorad.log import Logger
 from exorad.models.signal import Radiance
@@ -119,12 +118,15 @@ class ZodiacalFrg(Logger):
         try:
             zodi_table = read_table_hdf5(zodi_map_file)
             self.debug(zodi_table)
-            delta_ra = Angle(
-                zodi_table["ra_icrs"] * u.deg - ra_input
-            ).wrap_at(180 * u.deg)
-            distance = delta_ra**2 + (
-                zodi_table["dec_icrs"] * u.deg - dec_input
-            ) ** 2
+            zodi_ra = zodi_table["ra_icrs"] * u.deg
+            zodi_dec = zodi_table["dec_icrs"] * u.deg
+            # haversine of the angular distance
+            distance = (
+                np.sin((zodi_dec - dec_input) / 2) ** 2
+                + np.cos(zodi_dec)
+                * np.cos(dec_input)
+                * np.sin((zodi_ra - ra_input) / 2) ** 2
+            )
             idx = np.argmin(distance)
             self.debug("selected line {}".format(idx))
             self.debug(zodi_table[idx])
-- 
2.43.0


From 7c34681c3e5a7c7575dc5b687958140fdcf2e384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:19:20 +0000
Subject: [PATCH 71/74] fix: the sign of the metallicity in the names of the
 stellar models was lost, and a + made every star a black body

---
 exorad/models/source.py | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/exorad/models/source.py b/exorad/models/source.py
index 38af24c..acb1aa2 100755
--- a/exorad/models/source.py
+++ b/exorad/models/source.py
@@ -1,5 +1,6 @@
 import glob
 import os
+import re
 import warnings
 
 import numpy as np
@@ -113,15 +114,20 @@ class Star(Logger):
         sed_name = self.__get_sed_list(path)
         sed_name_cleaned = [os.path.basename(k) for k in sed_name]
 
-        sed_T_list = np.array(
-            [float(name.split("-")[0][3:]) for name in sed_name_cleaned]
-        )
-        sed_Logg_list = np.array(
-            [float(name.split("-")[1]) for name in sed_name_cleaned]
-        )
-        sed_Z_list = np.array(
-            [float(name.split("-")[2][:3]) for name in sed_name_cleaned]
-        )
+        # lte<T/100>-<log g><[M/H] with sign>, as lte050.0-4.5+0.5a+0.0
+        number = r"\d+(?:\.\d+)?"
+        parameters = [
+            re.match(
+                "lte({0})([+-]{0})([+-]{0})".format(number), name
+            )
+            for name in sed_name_cleaned
+        ]
+        if None in parameters:
+            raise ValueError
+        sed_T_list = np.array([float(par[1]) for par in parameters])
+        # the sign before the gravity is the opposite of that of log g
+        sed_Logg_list = np.array([-float(par[2]) for par in parameters])
+        sed_Z_list = np.array([float(par[3]) for par in parameters])
 
         temp_to_find = star_temperature.value / 100
         # if 'HiRes' not in sed_name_cleaned[0]:
-- 
2.43.0


From f80059aa6e6f92b27df29c09e13396e7b0013c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:24:12 +0000
Subject: [PATCH 72/74] fix: lists of quantities or tables lost their units in
 the output file, and lists of different sizes were refused

---
 exorad/output/hdf5/util.py | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/exorad/output/hdf5/util.py b/exorad/output/hdf5/util.py
index f1dd17a..0f46ce2 100644
--- a/exorad/output/hdf5/util.py
+++ b/exorad/output/hdf5/util.py
@@ -132,6 +132,24 @@ def recursively_save_dict_contents_to_output(output, dic):
     return
 
 
+def has_units(items):
+    return any(
+        isinstance(item, (u.Quantity, Table))
+        or (isinstance(item, (list, tuple)) and has_units(item))
+        for item in items
+    )
+
+
+def list_to_array(items):
+    """raises TypeError if the items do not fit in an array as they are"""
+    if has_units(items):
+        raise TypeError("the units do not fit in an array")
+    try:
+        return np.array(items)
+    except ValueError:
+        raise TypeError("items of different sizes do not fit in an array")
+
+
 def store_thing(output, key, item):
     if isinstance(item, u.Quantity):
         output.write_quantity(key, item)
@@ -171,7 +189,7 @@ def store_thing(output, key, item):
             output.write_string_array(key, item)
         else:
             try:
-                output.write_array(key, np.array(item))
+                output.write_array(key, list_to_array(item))
 
             except TypeError:
                 for idx, val in enumerate(item):
-- 
2.43.0


From d7c21c3a7699d66c62768ce6e75aa775db57d817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:26:43 +0000
Subject: [PATCH 73/74] fix: the units of transmission and emissivity columns
 were ignored

---
 exorad/models/foregrounds/skyForegrounds.py | 3 ++-
 exorad/models/optics/opticalElement.py      | 4 ++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/exorad/models/foregrounds/skyForegrounds.py b/exorad/models/foregrounds/skyForegrounds.py
index 50a6b10..009566f 100644
--- a/exorad/models/foregrounds/skyForegrounds.py
+++ b/exorad/models/foregrounds/skyForegrounds.py
@@ -2,6 +2,7 @@ from scipy.interpolate import interp1d
 
 from exorad.log import Logger
 from exorad.models.signal import Radiance
+from exorad.models.utils import column_value
 from exorad.models.utils import snap_to_range
 
 
@@ -45,7 +46,7 @@ class SkyForeground(Logger):
 
         tr_func = interp1d(
             skyFilter_data["Wavelength"].to(self.wl.unit),
-            skyFilter_data["Transmission"],
+            column_value(skyFilter_data["Transmission"], ""),
             assume_sorted=False,
             fill_value=1.0,
             bounds_error=False,
diff --git a/exorad/models/optics/opticalElement.py b/exorad/models/optics/opticalElement.py
index 0685711..85f0e97 100644
--- a/exorad/models/optics/opticalElement.py
+++ b/exorad/models/optics/opticalElement.py
@@ -191,7 +191,7 @@ class OpticalElement(Logger):
                     self.description["data"][wl_colname],
                     getattr(self.wl, "unit", u.um),
                 ),
-                self.description["data"][colname],
+                column_value(self.description["data"][colname], ""),
                 assume_sorted=False,
                 fill_value=0.0,
                 bounds_error=False,
@@ -279,7 +279,7 @@ class OpticalElement(Logger):
                     self.description["data"][wl_colname],
                     getattr(self.wl, "unit", u.um),
                 ),
-                self.description["data"][em_colname],
+                column_value(self.description["data"][em_colname], ""),
                 assume_sorted=False,
                 fill_value=0.0,
                 bounds_error=False,
-- 
2.43.0


From 22e8a657ec51291ac903fba4848c300a15e9277b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:18:22 +0000
Subject: [PATCH 74/74] fix: rows and columns of a FITS image were exchanged in
 its sampling and extent

---
 exorad/utils/exolib.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/exorad/utils/exolib.py b/exorad/utils/exolib.py
index 814ecfd..cdad6d6 100644
--- a/exorad/utils/exolib.py
+++ b/exorad/utils/exolib.py
@@ -203,12 +203,13 @@ def planck(wl, T):
 
 
 def load_standard_psf(F_x, F_y, wl, delta_pix, hdr):
-    k_x = delta_pix / (F_x * wl * hdr["CDELT2"])
-    k_y = delta_pix / (F_y * wl * hdr["CDELT1"])
-    xmin = -(hdr["CRPIX2"] - 1) * F_x * wl * hdr["CDELT2"]
-    xmax = (hdr["NAXIS2"] - (hdr["CRPIX2"] - 1)) * F_x * wl * hdr["CDELT2"]
-    ymin = -(hdr["CRPIX1"] - 1) * F_y * wl * hdr["CDELT1"]
-    ymax = (hdr["NAXIS1"] - (hdr["CRPIX1"] - 1)) * F_y * wl * hdr["CDELT1"]
+    # the first axis of the file is x, the columns of the image
+    k_x = delta_pix / (F_x * wl * hdr["CDELT1"])
+    k_y = delta_pix / (F_y * wl * hdr["CDELT2"])
+    xmin = -(hdr["CRPIX1"] - 1) * F_x * wl * hdr["CDELT1"]
+    xmax = (hdr["NAXIS1"] - (hdr["CRPIX1"] - 1)) * F_x * wl * hdr["CDELT1"]
+    ymin = -(hdr["CRPIX2"] - 1) * F_y * wl * hdr["CDELT2"]
+    ymax = (hdr["NAXIS2"] - (hdr["CRPIX2"] - 1)) * F_y * wl * hdr["CDELT2"]
     extent = (xmin, xmax, ymin, ymax)
     return k_x, k_y, extent
 
@@ -284,10 +285,10 @@ def binnedPSF(
 
 
 def load_pixel_psf_size(delta_pix, hdr):
-    xmin = [-hdr["NAXIS2"] / 2.0 * delta_pix.value] * u.micron
-    xmax = [hdr["NAXIS2"] / 2.0 * delta_pix.value] * u.micron
-    ymin = [-hdr["NAXIS1"] / 2.0 * delta_pix.value] * u.micron
-    ymax = [hdr["NAXIS1"] / 2.0 * delta_pix.value] * u.micron
+    xmin = [-hdr["NAXIS1"] / 2.0 * delta_pix.value] * u.micron
+    xmax = [hdr["NAXIS1"] / 2.0 * delta_pix.value] * u.micron
+    ymin = [-hdr["NAXIS2"] / 2.0 * delta_pix.value] * u.micron
+    ymax = [hdr["NAXIS2"] / 2.0 * delta_pix.value] * u.micron
     extent = (xmin, xmax, ymin, ymax)
     return extent
 
-- 
2.43.0

