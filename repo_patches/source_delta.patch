From 260c4c4a8447d2c58de9801471b107c49d57bb7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:06 +0000
Subject: [PATCH 01/55] fix: do not extend the shared list of triggered-event
 columns

write_triggered_events appended MinTime/MaxTime to the module-level column
list, so every later call in the process wrote them (repeatedly), whether or
not event time windows had been asked for.
---
 quakemigrate/io/triggered_events.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quakemigrate/io/triggered_events.py b/quakemigrate/io/triggered_events.py
index 059c5c5..1436ec1 100644
--- a/quakemigrate/io/triggered_events.py
+++ b/quakemigrate/io/triggered_events.py
@@ -125,7 +125,7 @@ def write_triggered_events(run, events, starttime, write_event_time_windows):
     fpath = run.path / "trigger" / run.subname / "events"
     fpath.mkdir(exist_ok=True, parents=True)
 
-    output_cols = OUTPUT_COLS
+    output_cols = list(OUTPUT_COLS)
     if write_event_time_windows:
         output_cols.extend(["MinTime", "MaxTime"])
 
-- 
2.43.0


From c68dfe311e8e1002b489860d8bf14c685c78a7f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:44 +0000
Subject: [PATCH 02/55] fix: keep events in the last sample of a day when
 triggering to midnight

The end of a batch was moved back by a whole sample, so an event whose peak
fell between the last whole sample interval and midnight (sampling not aligned
with midnight) belonged to neither day and was lost.
---
 quakemigrate/signal/trigger.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/quakemigrate/signal/trigger.py b/quakemigrate/signal/trigger.py
index 9b9c199..996ab99 100755
--- a/quakemigrate/signal/trigger.py
+++ b/quakemigrate/signal/trigger.py
@@ -340,11 +340,12 @@ class Trigger:
             self.run, batchstart, batchend, self.pad, self.lut.unit_conversion_factor
         )
 
-        # Check if the batch extends to midnight; if so, reduce 'batchend' by one sample
-        # to ensure consistent treatment of multi-day runs (midnight = next day, so not
-        # included).
+        # Check if the batch extends to midnight; if so, reduce 'batchend' by the
+        # smallest possible amount to ensure consistent treatment of multi-day runs
+        # (midnight = next day, so not included; but the last sample of the day is,
+        # wherever the sampling falls relative to midnight).
         if batchend.time == time(0, 0):
-            batchend -= stats.delta
+            batchend -= 1e-6
 
         if self.smooth_coa:
             data = self._smooth_coa(data, stats.sampling_rate)
-- 
2.43.0


From 04032623f3a063ffaf17bc511054553e17bcb3a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:44 +0000
Subject: [PATCH 03/55] fix: do not leave a stale triggered-event file behind

When no sample exceeded the threshold nothing was written, so the event file of
an earlier trigger call for the same day stayed and was read by locate.
---
 quakemigrate/io/__init__.py         |  6 +++++-
 quakemigrate/io/triggered_events.py | 19 +++++++++++++++++++
 quakemigrate/signal/trigger.py      |  8 +++++++-
 3 files changed, 31 insertions(+), 2 deletions(-)

diff --git a/quakemigrate/io/__init__.py b/quakemigrate/io/__init__.py
index 2893351..126eff7 100755
--- a/quakemigrate/io/__init__.py
+++ b/quakemigrate/io/__init__.py
@@ -45,4 +45,8 @@ from .coalescence import (
     read_coalescence,  # NOQA
 )
 from .scanmseed import ScanmSEED, read_scanmseed  # NOQA
-from .triggered_events import read_triggered_events, write_triggered_events  # NOQA
+from .triggered_events import (  # NOQA
+    read_triggered_events,
+    remove_triggered_events,
+    write_triggered_events,
+)
diff --git a/quakemigrate/io/triggered_events.py b/quakemigrate/io/triggered_events.py
index 1436ec1..28b57d0 100644
--- a/quakemigrate/io/triggered_events.py
+++ b/quakemigrate/io/triggered_events.py
@@ -136,3 +136,22 @@ def write_triggered_events(run, events, starttime, write_event_time_windows):
     fstem = f"{run.name}_{starttime.year}_{starttime.julday:03d}"
     file = (fpath / f"{fstem}_TriggeredEvents").with_suffix(".csv")
     events.to_csv(file, index=False)
+
+
+def remove_triggered_events(run, starttime):
+    """
+    Remove the triggered event file left by a previous run of trigger, if there is one.
+
+    Parameters
+    ----------
+    run : :class:`~quakemigrate.io.core.Run` object
+        Light class encapsulating i/o path information for a given run.
+    starttime : `obspy.UTCDateTime` object
+        Timestamp from which events would have been triggered.
+
+    """
+
+    fpath = run.path / "trigger" / run.subname / "events"
+    fstem = f"{run.name}_{starttime.year}_{starttime.julday:03d}"
+    file = (fpath / f"{fstem}_TriggeredEvents").with_suffix(".csv")
+    file.unlink(missing_ok=True)
diff --git a/quakemigrate/signal/trigger.py b/quakemigrate/signal/trigger.py
index 996ab99..7f33a0e 100755
--- a/quakemigrate/signal/trigger.py
+++ b/quakemigrate/signal/trigger.py
@@ -18,7 +18,12 @@ from obspy import UTCDateTime
 import pandas as pd
 from scipy.ndimage import gaussian_filter1d
 
-from quakemigrate.io import Run, read_scanmseed, write_triggered_events
+from quakemigrate.io import (
+    Run,
+    read_scanmseed,
+    remove_triggered_events,
+    write_triggered_events,
+)
 from quakemigrate.plot import trigger_summary
 import quakemigrate.util as util
 
@@ -362,6 +367,7 @@ class Trigger:
             )
             events = candidate_events
             discarded = candidate_events
+            remove_triggered_events(self.run, batchstart)
         else:
             refined_events = self._refine_candidates(candidate_events)
             logging.debug(refined_events)
-- 
2.43.0


From ff5a162ead3c4f0be03af4a552f787de526ef128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:34 +0000
Subject: [PATCH 04/55] fix: scan the last sample before midnight whatever the
 timestep

---
 quakemigrate/signal/scan.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/quakemigrate/signal/scan.py b/quakemigrate/signal/scan.py
index e41bbea..4f52298 100755
--- a/quakemigrate/signal/scan.py
+++ b/quakemigrate/signal/scan.py
@@ -318,11 +318,12 @@ class QuakeScan:
         starttime, endtime = UTCDateTime(starttime), UTCDateTime(endtime)
         if starttime > endtime:
             raise util.TimeSpanException
-        # Shift endtime one sample earlier if it is at midnight (not necessary for
+        # Shift endtime half a sample earlier if it is at midnight (not necessary for
         # typical combinations of starttimes and timesteps, but here to cover edge
-        # cases)
+        # cases). A whole sample would lose the last sample of the day if the
+        # timesteps end there.
         if endtime.time == time(0, 0):
-            endtime -= 1 / self.scan_rate
+            endtime -= 0.5 / self.scan_rate
 
         # Number of steps to break run duration into
         n_steps = int(np.ceil((endtime - starttime) / self.timestep))
-- 
2.43.0


From e3003be1fa58a326f72bf5915a50a98e12cfcf4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:57 +0000
Subject: [PATCH 05/55] fix: move the corners of a decimated grid to the nodes
 that are kept

---
 quakemigrate/lut/lut.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/quakemigrate/lut/lut.py b/quakemigrate/lut/lut.py
index 310cc96..630a263 100644
--- a/quakemigrate/lut/lut.py
+++ b/quakemigrate/lut/lut.py
@@ -127,8 +127,11 @@ class Grid3D:
         else:
             grid = copy.deepcopy(self)
 
+        # The first node kept is offset by c1 nodes from the first of the original grid
+        grid.ll_corner = self.ll_corner + c1 * self.node_spacing
         grid.node_count = new_node_count
         grid.node_spacing = self.node_spacing * df
+        grid.ur_corner = grid.ll_corner + (grid.node_count - 1) * grid.node_spacing
 
         for station, map_ in grid.traveltimes.items():
             for phase, ttimes in map_.items():
-- 
2.43.0


From 33a62072ac330e5c639b57e5899e00b8b346a205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:07 +0000
Subject: [PATCH 06/55] fix: keep the station data of a lookup table loaded
 through LUT(lut_file=...)

---
 quakemigrate/lut/lut.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quakemigrate/lut/lut.py b/quakemigrate/lut/lut.py
index 630a263..817a90c 100644
--- a/quakemigrate/lut/lut.py
+++ b/quakemigrate/lut/lut.py
@@ -456,6 +456,8 @@ class LUT(Grid3D):
     def __init__(self, fraction_tt=0.1, lut_file=None, **grid_spec):
         """Instantiate the LUT object."""
 
+        self.station_data = pd.DataFrame()
+
         if grid_spec:
             super().__init__(**grid_spec)
             self.fraction_tt = fraction_tt
@@ -468,8 +470,6 @@ class LUT(Grid3D):
             if lut_file is not None:
                 self.load(lut_file)
 
-        self.station_data = pd.DataFrame()
-
     def __str__(self):
         """Return short summary string of the lookup table object."""
 
-- 
2.43.0


From 7e9235fe1f8cc9acc127149a38dc09b868ab3fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:07 +0000
Subject: [PATCH 07/55] fix: add lookup tables without altering them or
 replacing existing stations

---
 quakemigrate/lut/lut.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/quakemigrate/lut/lut.py b/quakemigrate/lut/lut.py
index 817a90c..edabe54 100644
--- a/quakemigrate/lut/lut.py
+++ b/quakemigrate/lut/lut.py
@@ -883,8 +883,19 @@ class LUT(Grid3D):
             return self
         else:
             if self == other:
-                self.traveltimes.update(other.traveltimes)
-                return self
+                combined = copy.deepcopy(self)
+                new = [s for s in other.traveltimes if s not in self.traveltimes]
+                for station in new:
+                    combined.traveltimes[station] = copy.deepcopy(
+                        other.traveltimes[station]
+                    )
+                if len(new) > 0 and not other.station_data.empty:
+                    new_data = other.station_data["Name"].isin(new)
+                    combined.station_data = pd.concat(
+                        [self.station_data, other.station_data[new_data]],
+                        ignore_index=True,
+                    )
+                return combined
             else:
                 print("Grid definitions do not match - cannot combine.")
 
-- 
2.43.0


From 458c5c5fd54df007af9f920fb1da3b13b5162b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:33 +0000
Subject: [PATCH 08/55] fix: give a lookup table read from NonLinLoc grids
 their node count

---
 quakemigrate/lut/create_lut.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/quakemigrate/lut/create_lut.py b/quakemigrate/lut/create_lut.py
index 5c1b3b4..8838e1e 100644
--- a/quakemigrate/lut/create_lut.py
+++ b/quakemigrate/lut/create_lut.py
@@ -98,6 +98,9 @@ def read_nlloc(
                     coord_proj=cproj,
                     fraction_tt=fraction_tt,
                 )
+                # Rounding in the projection of the corners can add a node; the tables
+                # have the number of nodes in the header
+                lut.node_count = node_count
             else:
                 _, _, traveltimes = _read_nlloc(file)
 
-- 
2.43.0


From 06612fed8f7004429eaecdcdb0ebff40602b5305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:33 +0000
Subject: [PATCH 09/55] fix: use the origin of NonLinLoc transverse Mercator
 grids

---
 quakemigrate/lut/create_lut.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quakemigrate/lut/create_lut.py b/quakemigrate/lut/create_lut.py
index 8838e1e..dd85b4d 100644
--- a/quakemigrate/lut/create_lut.py
+++ b/quakemigrate/lut/create_lut.py
@@ -701,7 +701,7 @@ def _read_nlloc(fname, ignore_proj=False):
             orig_lat = float(line[5])
             orig_lon = float(line[7])
 
-            gproj = Proj(proj="tmerc", lon=orig_lon, lat=orig_lat, units="km")
+            gproj = Proj(proj="tmerc", lon_0=orig_lon, lat_0=orig_lat, units="km")
 
         transform = [gproj, cproj, line[1]]
 
-- 
2.43.0


From 0bda174343bb47025fe0bb7415d8a56302b38c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:26 +0000
Subject: [PATCH 10/55] fix: refuse to locate with only one of starttime and
 endtime

---
 quakemigrate/signal/scan.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/quakemigrate/signal/scan.py b/quakemigrate/signal/scan.py
index 4f52298..99ef66c 100755
--- a/quakemigrate/signal/scan.py
+++ b/quakemigrate/signal/scan.py
@@ -374,14 +374,14 @@ class QuakeScan:
         self.run.stage = "locate"
         self.run.logger(self.log)
 
-        if not (starttime is None and endtime is None):
-            starttime, endtime = UTCDateTime(starttime), UTCDateTime(endtime)
-            if starttime > endtime:
-                raise util.TimeSpanException
         if trigger_file is None and starttime is None and endtime is None:
             raise RuntimeError("Must supply an input argument.")
         if (starttime is None) ^ (endtime is None):
             raise RuntimeError("Must supply a starttime AND an endtime.")
+        if starttime is not None:
+            starttime, endtime = UTCDateTime(starttime), UTCDateTime(endtime)
+            if starttime > endtime:
+                raise util.TimeSpanException
 
         logging.info(util.log_spacer)
         logging.info("\tLOCATE - Determining event location and uncertainty")
-- 
2.43.0


From 74c1ef124ac2e311cbf6b46baf0f34fb3dea9068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:26 +0000
Subject: [PATCH 11/55] fix: count the samples of the located window by
 rounding

---
 quakemigrate/io/event.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quakemigrate/io/event.py b/quakemigrate/io/event.py
index 2d44e0b..85a4360 100644
--- a/quakemigrate/io/event.py
+++ b/quakemigrate/io/event.py
@@ -411,7 +411,7 @@ class Event:
         # Utilise the .times() method of `obspy.Trace` objects
         tr = Trace(
             header={
-                "npts": 4 * self.marginal_window * sampling_rate + 1,
+                "npts": int(round(4 * self.marginal_window * sampling_rate)) + 1,
                 "sampling_rate": sampling_rate,
                 "starttime": self.trigger_time - 2 * self.marginal_window,
             }
-- 
2.43.0


From 6176f3f9a48a0a05c4f8f62ea7bf2f5783424fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:26 +0000
Subject: [PATCH 12/55] fix: trim the coalescence map to the same samples as
 the coalescence data

---
 quakemigrate/io/event.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quakemigrate/io/event.py b/quakemigrate/io/event.py
index 85a4360..fbb0dc8 100644
--- a/quakemigrate/io/event.py
+++ b/quakemigrate/io/event.py
@@ -431,7 +431,7 @@ class Event:
             (self.coa_data["DT"] >= window_start) & (self.coa_data["DT"] <= window_end)
         ]
         self.map4d = self.map4d[
-            :, :, :, self.coa_data.index[0] : self.coa_data.index[-1]
+            :, :, :, self.coa_data.index[0] : self.coa_data.index[-1] + 1
         ]
         self.coa_data.reset_index(drop=True, inplace=True)
 
-- 
2.43.0


From 22ce5cc5990a35e691ea154e44075015a7cb6718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:51 +0000
Subject: [PATCH 13/55] fix: Archive: leave out other stations' data matched by
 a file name pattern

---
 quakemigrate/io/data.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/quakemigrate/io/data.py b/quakemigrate/io/data.py
index 7774784..96cb69a 100755
--- a/quakemigrate/io/data.py
+++ b/quakemigrate/io/data.py
@@ -296,6 +296,12 @@ class Archive:
                     logging.info(f"File not compatible with ObsPy - {file}")
                     continue
 
+            # The file name patterns of some archive formats also match files from other
+            # stations (e.g. 'AB*' matches station 'ABC') - keep only those requested
+            if not self.read_all_stations:
+                requested = set(self.stations)
+                st = Stream([tr for tr in st if tr.stats.station in requested])
+
             # Merge waveforms channel-by-channel with no-clobber merge
             st = util.merge_stream(st)
 
-- 
2.43.0


From ad757a4cd4ff7b28a9ddf263b0ddd336c24b865e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:06 +0000
Subject: [PATCH 14/55] fix: full timespan check: floating point error made
 complete traces a sample short

---
 quakemigrate/io/data.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/quakemigrate/io/data.py b/quakemigrate/io/data.py
index 96cb69a..2a9330d 100755
--- a/quakemigrate/io/data.py
+++ b/quakemigrate/io/data.py
@@ -610,7 +610,8 @@ class WaveformData:
                 # rate as provided. To check that as well, use
                 # `check_sampling_rate=True` and specify a sampling rate.
                 if full_timespan:
-                    n_samples = timespan * st_id[0].stats.sampling_rate + 1
+                    # Rounded, so floating point error can't add to a whole number
+                    n_samples = round(timespan * st_id[0].stats.sampling_rate, 6) + 1
                     if len(st_id) > 1:
                         continue
                     elif st_id[0].stats.npts < n_samples:
-- 
2.43.0


From a8e8606820a591f4da87bf34fb73cbd8e3ca91f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:06 +0000
Subject: [PATCH 15/55] fix: decimate onto the sample grid shared by all traces

---
 quakemigrate/util.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/quakemigrate/util.py b/quakemigrate/util.py
index d4fd81c..49dd099 100644
--- a/quakemigrate/util.py
+++ b/quakemigrate/util.py
@@ -448,7 +448,7 @@ def resample(stream, sampling_rate, resample, upfactor, starttime, endtime):
         if sampling_rate != trace_sampling_rate:
             if (trace_sampling_rate % sampling_rate) == 0:
                 stream.remove(trace)
-                trace = decimate(trace, sampling_rate)
+                trace = decimate(trace, sampling_rate, starttime)
                 stream += trace
             elif resample and upfactor is not None:
                 # Check the upsampled sampling rate can be decimated to sr
@@ -457,7 +457,7 @@ def resample(stream, sampling_rate, resample, upfactor, starttime, endtime):
                 stream.remove(trace)
                 trace = upsample(trace, upfactor, starttime, endtime)
                 if trace_sampling_rate != sampling_rate:
-                    trace = decimate(trace, sampling_rate)
+                    trace = decimate(trace, sampling_rate, starttime)
                 stream += trace
             else:
                 logging.info(
@@ -476,7 +476,7 @@ def resample(stream, sampling_rate, resample, upfactor, starttime, endtime):
     return stream
 
 
-def decimate(trace, sampling_rate):
+def decimate(trace, sampling_rate, starttime=None):
     """
     Decimate a trace to achieve the desired sampling rate, sr.
 
@@ -489,6 +489,9 @@ def decimate(trace, sampling_rate):
         Trace to be decimated.
     sampling_rate : int
         Output sampling rate.
+    starttime : `obspy.UTCDateTime` object, optional
+        If given, retain the samples which are an integer number of output samples from
+        this time, rather than counting from the first sample of the trace.
 
     Returns:
     --------
@@ -509,11 +512,12 @@ def decimate(trace, sampling_rate):
     trace.filter(
         "lowpass", freq=float(sampling_rate) / 2.000001, corners=2, zerophase=True
     )
-    trace.decimate(
-        factor=int(trace.stats.sampling_rate / sampling_rate),
-        strict_length=False,
-        no_filter=True,
-    )
+    factor = int(trace.stats.sampling_rate / sampling_rate)
+    if starttime is not None:
+        # Skip to the first sample which lies on the output sample grid
+        offset = round((starttime - trace.stats.starttime) * trace.stats.sampling_rate)
+        trace.trim(trace.stats.starttime + (offset % factor) * trace.stats.delta)
+    trace.decimate(factor=factor, strict_length=False, no_filter=True)
 
     return trace
 
-- 
2.43.0


From 5f18629fd1072e7a31f0b4e1fdd9fe2f70322386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:06 +0000
Subject: [PATCH 16/55] fix: reading a single off-sample sample with
 interpolate=True raised IndexError

---
 quakemigrate/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quakemigrate/util.py b/quakemigrate/util.py
index 49dd099..85d2485 100644
--- a/quakemigrate/util.py
+++ b/quakemigrate/util.py
@@ -362,7 +362,7 @@ def shift_to_sample(stream, interpolate=False):
                 round(delta / 1e6 * tr.stats.sampling_rate) / tr.stats.sampling_rate
                 - delta / 1e6
             )
-            if not interpolate:
+            if not interpolate or tr.stats.npts == 1:  # can't interpolate one sample
                 logging.info(
                     f"Trace\n\t{tr}\nhas off-sample data. Applying "
                     f"{time_shift:+f} s shift to timing."
-- 
2.43.0


From 0fbc821bd220fe7e48d858393ac0b1c3013f9993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:18 +0000
Subject: [PATCH 17/55] fix: flatlines of a non-zero value were not recognised,
 and gave an onset of numerical noise

---
 quakemigrate/signal/onsets/stalta.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/quakemigrate/signal/onsets/stalta.py b/quakemigrate/signal/onsets/stalta.py
index 4cb9812..09b95d6 100644
--- a/quakemigrate/signal/onsets/stalta.py
+++ b/quakemigrate/signal/onsets/stalta.py
@@ -187,6 +187,14 @@ def pre_process(stream, sampling_rate, resample, upfactor, filter_, starttime, e
 
     logging.debug(stream.__str__(extended=True))
     logging.debug(f"Resample={resample}, Upfactor={upfactor}")
+    # Zero any flatlines. Otherwise, the tiny numerical noise that remains after the
+    # mean/trend is removed from a constant value would conceal them from the data
+    # availability check.
+    stream = stream.copy()
+    for tr in stream:
+        if tr and tr.data.max() == tr.data.min():
+            tr.data = np.zeros_like(tr.data)
+
     # Resample the data here
     resampled_stream = util.resample(
         stream, sampling_rate, resample, upfactor, starttime, endtime
-- 
2.43.0


From b7bbd274a612d609abbb3f0dd13a1f4c2b4d1122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:28 +0000
Subject: [PATCH 18/55] fix: STA/LTA transforms: no division by a zero LTA, no
 access beyond short signals

---
 quakemigrate/core/src/onsetlib.c | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/quakemigrate/core/src/onsetlib.c b/quakemigrate/core/src/onsetlib.c
index fe14a1d..a9c568a 100644
--- a/quakemigrate/core/src/onsetlib.c
+++ b/quakemigrate/core/src/onsetlib.c
@@ -40,6 +40,11 @@ overlapping_sta_lta(const double * signal,
   const double frac = (double) head -> nlta / (double) head -> nsta;
   double buf, sta = 0., lta;
 
+  // Signal is too short for the window
+  if (head -> n < head -> nlta) {
+    return;
+  }
+
   for (i = 0; i < head -> nsta; ++i) {
     sta += signal[i];
   }
@@ -49,12 +54,12 @@ overlapping_sta_lta(const double * signal,
     lta += buf;
     sta += buf - signal[i - head -> nsta];
   }
-  onset[head -> nlta - 1] = sta / lta * frac;
+  onset[head -> nlta - 1] = lta > 0. ? sta / lta * frac : 1.;
   for (i = head -> nlta; i < head -> n; ++i) {
     buf = signal[i];
     sta += buf - signal[i - head -> nsta];
     lta += buf - signal[i - head -> nlta];
-    onset[i] = sta / lta * frac;
+    onset[i] = lta > 0. ? sta / lta * frac : 1.;
   }
 }
 
@@ -84,6 +89,11 @@ centred_sta_lta(const double * signal,
   const double frac = (double) head -> nlta / (double) head -> nsta;
   double sta = 0., lta = 0.;
 
+  // Signal is too short for the windows
+  if (head -> n < head -> nlta + head -> nsta) {
+    return;
+  }
+
   // Calculate initial LTA
   for (i = 0; i < head -> nlta; ++i) {
     lta += signal[i];
@@ -95,7 +105,7 @@ centred_sta_lta(const double * signal,
   }
 
   // Set first value, and loop over rest of signal
-  onset[head -> nlta - 1] = sta / lta * frac;
+  onset[head -> nlta - 1] = lta > 0. ? sta / lta * frac : 1.;
   for (i = head -> nlta; i < head -> n - head -> nsta; ++i) {
     sta += signal[i + head -> nsta] - signal[i];
     lta += signal[i] - signal[i - head -> nlta];
@@ -136,7 +146,7 @@ recursive_sta_lta(const double * signal,
     buf = signal[i];
     sta = csta * buf + (1 - csta) * sta;
     lta = clta * buf + (1 - clta) * lta;
-    onset[i] = sta / lta;
+    onset[i] = lta > 0. ? sta / lta : 1.;
   }
 
   // Null first nlta to remove transient signal from "recursive" measure
-- 
2.43.0


From 49857112cce8edc8f1b5ee286d726204aa6637d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:47 +0000
Subject: [PATCH 19/55] fix: report no pick when there are too few samples for
 the Gaussian fit

---
 quakemigrate/signal/pickers/gaussian.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/quakemigrate/signal/pickers/gaussian.py b/quakemigrate/signal/pickers/gaussian.py
index 2fa8c89..9239f92 100644
--- a/quakemigrate/signal/pickers/gaussian.py
+++ b/quakemigrate/signal/pickers/gaussian.py
@@ -448,6 +448,7 @@ class GaussianPicker(PhasePicker):
                 "\t\t    Failed curve_fit - too few input data?"
                 f"{e}\n\t\t    Continuing..."
             )
+            return self._pick_failure(pick_threshold)
 
         # Unpack results:
         #  popt = [height, mean (seconds), sigma (seconds)]
-- 
2.43.0


From 968d074158c2b0eb7e0152a1edfd60ed33b49e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:47 +0000
Subject: [PATCH 20/55] fix: allow onset peaks that begin at the first sample
 of the data

---
 quakemigrate/signal/pickers/gaussian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quakemigrate/signal/pickers/gaussian.py b/quakemigrate/signal/pickers/gaussian.py
index 9239f92..491c662 100644
--- a/quakemigrate/signal/pickers/gaussian.py
+++ b/quakemigrate/signal/pickers/gaussian.py
@@ -413,7 +413,7 @@ class GaussianPicker(PhasePicker):
             # fitting more stable, and guarantees at least 3 samples --> avoids an
             # under-constrained optimisation (3 fitting params).
             padded_peak_idxs = [peak_idxs[0] - 1, peak_idxs[1] + 1]
-            padded_peak_idxs = [window[0] + p for p in padded_peak_idxs]
+            padded_peak_idxs = [max(window[0] + p, 0) for p in padded_peak_idxs]
             logging.debug(
                 f"\t\t    padded_peak_idxmin: {padded_peak_idxs[0]},"
                 f" padded_peak_idxmax: {padded_peak_idxs[1]}"
-- 
2.43.0


From cd85db0c726037e86b32ae4b5035ee26dbbaa43c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:47 +0000
Subject: [PATCH 21/55] fix: no pick, rather than an error, if there is no
 noise to set a percentile threshold

---
 quakemigrate/signal/pickers/gaussian.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/quakemigrate/signal/pickers/gaussian.py b/quakemigrate/signal/pickers/gaussian.py
index 491c662..e87e7bc 100644
--- a/quakemigrate/signal/pickers/gaussian.py
+++ b/quakemigrate/signal/pickers/gaussian.py
@@ -345,7 +345,9 @@ class GaussianPicker(PhasePicker):
         # pad windows)
         onset_noise = onset_noise[onset_noise > 1]
 
-        if method == "percentile":
+        if not onset_noise.size:
+            pick_threshold = np.nan
+        elif method == "percentile":
             pick_threshold = np.percentile(
                 onset_noise, self.percentile_pick_threshold * 100
             )
-- 
2.43.0


From 5518458e32521f160e93ed1a4111990f7cf062cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:53 +0000
Subject: [PATCH 22/55] fix: separate neighbouring pick windows in order of
 arrival, not of the list of phases

---
 quakemigrate/signal/pickers/gaussian.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/quakemigrate/signal/pickers/gaussian.py b/quakemigrate/signal/pickers/gaussian.py
index e87e7bc..82cbbb3 100644
--- a/quakemigrate/signal/pickers/gaussian.py
+++ b/quakemigrate/signal/pickers/gaussian.py
@@ -180,9 +180,8 @@ class GaussianPicker(PhasePicker):
                 )
                 n_samples = len(onset)
 
-            self._distinguish_windows(
-                pick_windows[station], list(onsets.keys()), n_samples
-            )
+            arrival_order = sorted(onsets, key=lambda p: pick_windows[station][p][1])
+            self._distinguish_windows(pick_windows[station], arrival_order, n_samples)
 
             for phase, onset in onsets.items():
                 # Find threshold from 'noise' part of onset
-- 
2.43.0


From ab504fae2d6b0b57397d667f9c805e158c0969e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:31 +0000
Subject: [PATCH 23/55] Revert the too-few-samples guard: the case cannot occur

---
 quakemigrate/signal/pickers/gaussian.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/quakemigrate/signal/pickers/gaussian.py b/quakemigrate/signal/pickers/gaussian.py
index 82cbbb3..91fefe6 100644
--- a/quakemigrate/signal/pickers/gaussian.py
+++ b/quakemigrate/signal/pickers/gaussian.py
@@ -449,7 +449,6 @@ class GaussianPicker(PhasePicker):
                 "\t\t    Failed curve_fit - too few input data?"
                 f"{e}\n\t\t    Continuing..."
             )
-            return self._pick_failure(pick_threshold)
 
         # Unpack results:
         #  popt = [height, mean (seconds), sigma (seconds)]
-- 
2.43.0


From 8817ba9e16f221b02f0a42391bb0d59862b6dfa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:55 +0000
Subject: [PATCH 24/55] fix: do not erase recorded distances of zero when
 calculating magnitudes

---
 quakemigrate/signal/local_mag/magnitude.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quakemigrate/signal/local_mag/magnitude.py b/quakemigrate/signal/local_mag/magnitude.py
index c2cd2b6..78e29f7 100644
--- a/quakemigrate/signal/local_mag/magnitude.py
+++ b/quakemigrate/signal/local_mag/magnitude.py
@@ -245,7 +245,7 @@ class Magnitude:
         if self.use_hyp_dist:
             dist = np.sqrt(edist.values**2 + zdist.values**2)
         else:
-            dist = edist.values
+            dist = edist.values.copy()
         dist[dist == 0.0] = np.nan
 
         # Calculate magnitudes and associated errors
@@ -777,7 +777,7 @@ class Magnitude:
         if self.use_hyp_dist:
             dist = np.sqrt(edist.values**2 + zdist.values**2)
         else:
-            dist = edist.values
+            dist = edist.values.copy()
 
         # Apply distance filter
         if self.dist_filter:
-- 
2.43.0


From 4d0b0c95b078531b010c5217a189b6330e80bfa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:55 +0000
Subject: [PATCH 25/55] fix: leave the magnitudes table given to mean_magnitude
 as it was

---
 quakemigrate/signal/local_mag/magnitude.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/quakemigrate/signal/local_mag/magnitude.py b/quakemigrate/signal/local_mag/magnitude.py
index 78e29f7..590eafc 100644
--- a/quakemigrate/signal/local_mag/magnitude.py
+++ b/quakemigrate/signal/local_mag/magnitude.py
@@ -373,6 +373,9 @@ class Magnitude:
 
         """
 
+        # Work on a copy
+        magnitudes = magnitudes.copy()
+
         # Get station corrections
         corrs = [
             self.station_corrections[t] if t in self.station_corrections.keys() else 0.0
-- 
2.43.0


From 634aec8ce405642a0e954978795f54703d65470b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:55 +0000
Subject: [PATCH 26/55] fix: do not use observations without a magnitude in the
 event magnitude

---
 quakemigrate/signal/local_mag/magnitude.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/quakemigrate/signal/local_mag/magnitude.py b/quakemigrate/signal/local_mag/magnitude.py
index 590eafc..94588b8 100644
--- a/quakemigrate/signal/local_mag/magnitude.py
+++ b/quakemigrate/signal/local_mag/magnitude.py
@@ -803,6 +803,7 @@ class Magnitude:
             magnitudes.loc[~magnitudes["is_picked"], "Used"] = False
         if self.noise_filter != 0.0:
             magnitudes.loc[~magnitudes["Noise_Filter"], "Used"] = False
+        magnitudes.loc[magnitudes["ML"].isnull(), "Used"] = False
 
         return magnitudes
 
-- 
2.43.0


From ce7cf541148aa1bce280fc247fc20da3fbaedfda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:55 +0000
Subject: [PATCH 27/55] fix: weight squared deviations by the weights, not by
 their squares

---
 quakemigrate/signal/local_mag/magnitude.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quakemigrate/signal/local_mag/magnitude.py b/quakemigrate/signal/local_mag/magnitude.py
index 94588b8..1d48c1b 100644
--- a/quakemigrate/signal/local_mag/magnitude.py
+++ b/quakemigrate/signal/local_mag/magnitude.py
@@ -420,7 +420,7 @@ class Magnitude:
         # single estimate, then take the uncertainty from that value.
         if len(mags) > 1:
             mean_mag_err = np.sqrt(
-                np.sum(((mags - mean_mag) * weights) ** 2) / np.sum(weights)
+                np.sum((mags - mean_mag) ** 2 * weights) / np.sum(weights)
             )
         else:
             mean_mag_err = used_mags["ML_Err"].values[0]
-- 
2.43.0


From 807998dea0899f45e452c670e907fb416c1c3bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:55 +0000
Subject: [PATCH 28/55] fix: leave out of r-squared the observations not
 expected above the noise

---
 quakemigrate/signal/local_mag/magnitude.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quakemigrate/signal/local_mag/magnitude.py b/quakemigrate/signal/local_mag/magnitude.py
index 1d48c1b..6c4c451 100644
--- a/quakemigrate/signal/local_mag/magnitude.py
+++ b/quakemigrate/signal/local_mag/magnitude.py
@@ -892,7 +892,7 @@ class Magnitude:
                 # If predicted amp is more than 5x larger than noise amp, keep
                 # this observation for mag_r2 calculation
                 if predicted_amp / noise_amp < 5:
-                    magnitudes.drop(labels=mag.name)
+                    magnitudes = magnitudes.drop(labels=mag.name)
 
         # Calculate amplitudes -- including station corrections!
         amps = (
-- 
2.43.0


From 4a52c15257eb0e4d6d4a45bcafc591ceabdcc0e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:48 +0000
Subject: [PATCH 29/55] fix: exclude stations by their station code, not by any
 field of the trace ID

---
 quakemigrate/signal/local_mag/magnitude.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quakemigrate/signal/local_mag/magnitude.py b/quakemigrate/signal/local_mag/magnitude.py
index 6c4c451..fdabdcb 100644
--- a/quakemigrate/signal/local_mag/magnitude.py
+++ b/quakemigrate/signal/local_mag/magnitude.py
@@ -771,7 +771,7 @@ class Magnitude:
             magnitudes["Station_Filter"] = True
             for stn in list(self.station_filter):
                 magnitudes.loc[
-                    magnitudes.index.str.contains(f".{stn}.", regex=False),
+                    magnitudes.index.str.split(".").str[1] == stn,
                     "Station_Filter",
                 ] = False
 
-- 
2.43.0


From dab888d2eadab09fa9da45e8ea089b1dd3755918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:03 +0000
Subject: [PATCH 30/55] fix: amplitudes: take traveltimes by station position,
 not table label

The modelled arrival times of a station were looked up by the index label of
its row in the station table, which failed (or took those of another station)
for tables whose index is not 0..n-1.
---
 quakemigrate/signal/local_mag/amplitude.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quakemigrate/signal/local_mag/amplitude.py b/quakemigrate/signal/local_mag/amplitude.py
index b74947a..1245b16 100644
--- a/quakemigrate/signal/local_mag/amplitude.py
+++ b/quakemigrate/signal/local_mag/amplitude.py
@@ -279,7 +279,7 @@ class Amplitude:
         logging.debug(f"{tr_start}, {tr_end}, {event.otime}")
 
         # Loop through stations in LUT, calculating amplitude info
-        for i, station_data in lut.station_data.iterrows():
+        for i, (_, station_data) in enumerate(lut.station_data.iterrows()):
             station = station_data["Name"]
 
             epi_dist, z_dist = self._get_distances(
-- 
2.43.0


From 4097731c8854d9427758daf81561a6903a72527f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:13 +0000
Subject: [PATCH 31/55] fix: amplitudes: no measurement where the filter gain
 vanishes

A peak and trough one sample apart give the Nyquist frequency, where the gain of
a bandpass filter is zero. For some filters it comes out as 1e-33 rather than
exactly 0, which passed the check and blew the amplitude up by as much.
---
 quakemigrate/signal/local_mag/amplitude.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quakemigrate/signal/local_mag/amplitude.py b/quakemigrate/signal/local_mag/amplitude.py
index 1245b16..1cd368e 100644
--- a/quakemigrate/signal/local_mag/amplitude.py
+++ b/quakemigrate/signal/local_mag/amplitude.py
@@ -796,7 +796,7 @@ class Amplitude:
                     filter_sos, worN=[approx_freq], fs=tr.stats.sampling_rate
                 )
                 filter_gain = np.abs(filter_gain[0])
-                if not filter_gain:
+                if np.isclose(filter_gain, 0.0):
                     logging.info(
                         "\t    Warning: Invalid frequency ("
                         f"{approx_freq:.5g} Hz) for {phase}_amp "
-- 
2.43.0


From 28f22d2b0a6e59bb909447d695ee1de70c3bc70e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:26 +0000
Subject: [PATCH 32/55] fix: cut waveforms are made from the raw data of the
 event every time

The raw waveforms were trimmed in place, so a later request could only get what was
left; and without cuts the waveforms corrected earlier for anything else - other units,
amplitude windows - were written instead.
---
 quakemigrate/io/cut_waveforms.py | 35 +++++++++++---------------------
 1 file changed, 12 insertions(+), 23 deletions(-)

diff --git a/quakemigrate/io/cut_waveforms.py b/quakemigrate/io/cut_waveforms.py
index 072321d..a6ede5e 100644
--- a/quakemigrate/io/cut_waveforms.py
+++ b/quakemigrate/io/cut_waveforms.py
@@ -89,7 +89,8 @@ def write_cut_waveforms(
     fpath.mkdir(exist_ok=True, parents=True)
     fstem = f"{event.uid}"
 
-    st = event.data.raw_waveforms
+    # Work on a copy - the raw waveforms may be needed again
+    st = event.data.raw_waveforms.copy()
 
     # "if pre_cut" catches both 0. and None
     if pre_cut:
@@ -104,29 +105,17 @@ def write_cut_waveforms(
         if not bool(tr):
             st.remove(tr)
 
+    # NOTE: the real / Wood-Anderson waveforms stored with the event can't be re-used
+    # here, because they may have different units, or only span the time windows used
+    # to measure amplitudes.
     if waveform_type == "real" or waveform_type == "wa":
-        if (
-            waveform_type == "real"
-            and isinstance(event.data.real_waveforms, Stream)
-            and not pre_cut
-            and not post_cut
-        ):
-            st = event.data.real_waveforms
-        elif (
-            waveform_type == "wa"
-            and isinstance(event.data.wa_waveforms, Stream)
-            and not pre_cut
-            and not post_cut
-        ):
-            st = event.data.wa_waveforms
-        else:
-            try:
-                st = get_waveforms(st, event, waveform_type, units)
-            except AttributeError as e:
-                raise AttributeError(
-                    "To output real or Wood-Anderson cut waveforms you must supply an "
-                    "instrument response inventory."
-                ) from e
+        try:
+            st = get_waveforms(st, event, waveform_type, units)
+        except AttributeError as e:
+            raise AttributeError(
+                "To output real or Wood-Anderson cut waveforms you must supply an "
+                "instrument response inventory."
+            ) from e
 
     if bool(st):
         write_waveforms(st, fpath, fstem, file_format)
-- 
2.43.0


From 396327a9375d8c6847e61439b12bbe26b8ae38df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:14 +0000
Subject: [PATCH 33/55] fix: QuakeScan takes pre_cut and post_cut as keyword
 arguments, as documented

They were ignored, so the waveforms were written uncut.
---
 quakemigrate/signal/scan.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quakemigrate/signal/scan.py b/quakemigrate/signal/scan.py
index 99ef66c..0ea2c12 100755
--- a/quakemigrate/signal/scan.py
+++ b/quakemigrate/signal/scan.py
@@ -275,8 +275,8 @@ class QuakeScan:
         self.write_coalescence = kwargs.get("write_coalescence", False)
 
         # +++ TO BE REMOVED TO ARCHIVE CLASS +++
-        self.pre_cut = None
-        self.post_cut = None
+        self.pre_cut = kwargs.get("pre_cut")
+        self.post_cut = kwargs.get("post_cut")
         # +++ TO BE REMOVED TO ARCHIVE CLASS +++
 
     def __str__(self):
-- 
2.43.0


From ebbe58d11e042f154117e23a66e9a2605344f4d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:15 +0000
Subject: [PATCH 34/55] fix: pads follow the lookup table of the scan, whatever
 the onset object was used for

An onset object shared with a scan of a smaller lookup table kept that table's post-pad:
the windows read were too short for the traveltimes of the first.
---
 quakemigrate/signal/scan.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/quakemigrate/signal/scan.py b/quakemigrate/signal/scan.py
index 0ea2c12..8ceed49 100755
--- a/quakemigrate/signal/scan.py
+++ b/quakemigrate/signal/scan.py
@@ -423,6 +423,8 @@ class QuakeScan:
             self.run, self.continuous_scanmseed_write, self.scan_rate
         )
 
+        # The onset object may have been used with another lookup table since
+        self.onset.post_pad = self.lut.max_traveltime
         self.pre_pad, self.post_pad = self.onset.pad(self.timestep)
         availability_cols = np.array(
             [
@@ -492,6 +494,8 @@ class QuakeScan:
         triggered_events = read_triggered_events(self.run, **kwargs)
         n_events = len(triggered_events.index)
 
+        # The onset object may have been used with another lookup table since
+        self.onset.post_pad = self.lut.max_traveltime
         self.pre_pad, self.post_pad = self.onset.pad(4 * self.marginal_window)
 
         for i, triggered_event in triggered_events.iterrows():
-- 
2.43.0


From 7bd5f584cc74f9262dc4cdd16bc82961d94a0745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:40 +0000
Subject: [PATCH 35/55] fix: the log file of a stage gets its own messages

Handlers were only attached the first time: the messages of every later stage or run in
the same process went to the first one's log file and their own stayed empty. Trigger set
up its log when constructed, so a Trigger used after another was made logged to that one's.
---
 quakemigrate/signal/trigger.py |  5 ++++-
 quakemigrate/util.py           | 22 +++++++++++++++-------
 2 files changed, 19 insertions(+), 8 deletions(-)

diff --git a/quakemigrate/signal/trigger.py b/quakemigrate/signal/trigger.py
index 7f33a0e..31f4a76 100755
--- a/quakemigrate/signal/trigger.py
+++ b/quakemigrate/signal/trigger.py
@@ -212,7 +212,7 @@ class Trigger:
             "trigger",
             loglevel=kwargs.get("loglevel", "info"),
         )
-        self.run.logger(kwargs.get("log", False))
+        self.log = kwargs.get("log", False)
 
         # --- Grab Trigger parameters or set defaults ---
         self.threshold_method = kwargs.get("threshold_method", "static")
@@ -300,6 +300,9 @@ class Trigger:
 
         """
 
+        # Configure logging
+        self.run.logger(self.log)
+
         starttime, endtime = UTCDateTime(starttime), UTCDateTime(endtime)
         if starttime > endtime:
             raise util.TimeSpanException
diff --git a/quakemigrate/util.py b/quakemigrate/util.py
index 85d2485..74735f7 100644
--- a/quakemigrate/util.py
+++ b/quakemigrate/util.py
@@ -135,18 +135,26 @@ def logger(logstem, log, loglevel="info"):
 
     level = logging.DEBUG if loglevel == "debug" else logging.INFO
 
+    # Detach the log of any previous stage or run - otherwise it would also get the
+    # messages of this one, whose log file would stay empty
+    root = logging.getLogger()
+    for handler in [h for h in root.handlers if getattr(h, "quakemigrate", False)]:
+        root.removeHandler(handler)
+        handler.close()
+
+    # Leave the output to stdout to any other handlers there are
+    handlers = [] if root.handlers else [logging.StreamHandler(sys.stdout)]
     if log:
         now = datetime.now().strftime("%Y-%m-%d_%H-%M-%S")
         logfile = logstem.parent / f"{logstem.name}_{now}"
         logfile.parent.mkdir(exist_ok=True, parents=True)
-        handlers = [
-            logging.FileHandler(str(logfile.with_suffix(".log"))),
-            logging.StreamHandler(sys.stdout),
-        ]
-    else:
-        handlers = [logging.StreamHandler(sys.stdout)]
+        handlers.append(logging.FileHandler(str(logfile.with_suffix(".log"))))
 
-    logging.basicConfig(level=level, format="%(message)s", handlers=handlers)
+    for handler in handlers:
+        handler.quakemigrate = True
+        handler.setFormatter(logging.Formatter("%(message)s"))
+        root.addHandler(handler)
+    root.setLevel(level)
 
 
 def time2sample(time, sampling_rate):
-- 
2.43.0


From 86eed6533ad5224ac1d6b33fa19bb1cc4cbb9cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:16 +0000
Subject: [PATCH 36/55] fix: runs and archives whose path has '[', '*' or '?'
 in it can be read

obspy takes such a path for a pattern: trigger failed for a run whose own detect output
was there, as did reading an archive below such a directory.
---
 quakemigrate/io/data.py      | 4 +++-
 quakemigrate/io/scanmseed.py | 9 ++++++++-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/quakemigrate/io/data.py b/quakemigrate/io/data.py
index 2a9330d..d61f972 100755
--- a/quakemigrate/io/data.py
+++ b/quakemigrate/io/data.py
@@ -10,6 +10,7 @@ Module for processing waveform files stored in a data archive.
 
 """
 
+import glob
 from itertools import chain
 import logging
 import pathlib
@@ -286,8 +287,9 @@ class Archive:
                 try:
                     read_start = starttime - pre_pad
                     read_end = endtime + post_pad
+                    # `read` would take "[", "*" and "?" in the path for a pattern
                     st += read(
-                        file,
+                        glob.escape(file),
                         starttime=read_start,
                         endtime=read_end,
                         nearest_sample=True,
diff --git a/quakemigrate/io/scanmseed.py b/quakemigrate/io/scanmseed.py
index 59937b8..cf5bbce 100644
--- a/quakemigrate/io/scanmseed.py
+++ b/quakemigrate/io/scanmseed.py
@@ -10,6 +10,7 @@ Module to handle input/output of .scanmseed files.
 
 """
 
+import glob
 import logging
 
 import numpy as np
@@ -288,8 +289,14 @@ def read_scanmseed(run, starttime, endtime, pad, ucf):
         fstem = f"{now.year}_{now.julday:03d}"
         file = (fpath / fstem).with_suffix(".scanmseed")
         try:
+            if not file.is_file():
+                raise FileNotFoundError
+            # `read` would take "[", "*" and "?" in the path for a pattern
             scanmseed += read(
-                str(file), starttime=readstart, endtime=readend, format="MSEED"
+                glob.escape(str(file)),
+                starttime=readstart,
+                endtime=readend,
+                format="MSEED",
             )
         except FileNotFoundError:
             logging.info(f"\n\t    No .scanmseed file found for day {fstem}!")
-- 
2.43.0


From fe93d185d5f0b419cb3da26ad1d2089b6da9839b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:22 +0000
Subject: [PATCH 37/55] fix: runs without located events, magnitudes or with
 numeric station codes can be exported

---
 quakemigrate/export/to_obspy.py | 45 +++++++++++++++------------------
 1 file changed, 21 insertions(+), 24 deletions(-)

diff --git a/quakemigrate/export/to_obspy.py b/quakemigrate/export/to_obspy.py
index af8b301..4ff865e 100644
--- a/quakemigrate/export/to_obspy.py
+++ b/quakemigrate/export/to_obspy.py
@@ -11,7 +11,6 @@ Catalog.
 
 """
 
-from itertools import chain
 import pathlib
 
 import pandas as pd
@@ -68,20 +67,13 @@ def read_quakemigrate(run_dir, units, run_subname="", local_mag_ph="S"):
 
     """
 
-    locate_dir = pathlib.Path(run_dir) / "locate" / run_subname
+    # The character "." is replaced in run sub-names; see quakemigrate.io.core.Run
+    locate_dir = pathlib.Path(run_dir) / "locate" / run_subname.replace(".", "_")
     events_dir = locate_dir / "events"
 
-    if events_dir.is_dir():
-        try:
-            event_files = events_dir.glob("*.event")
-            first = next(event_files)
-            event_files = chain([first], event_files)
-        except StopIteration:
-            pass
-
     cat = Catalog()
 
-    for eventf in event_files:
+    for eventf in sorted(events_dir.glob("*.event")):
         event = _read_single_event(eventf, locate_dir, units, local_mag_ph)
         if event is None:
             continue
@@ -215,7 +207,10 @@ def _read_single_event(event_file, locate_dir, units, local_mag_ph):
     # --- Handle picks file ---
     pick_file = locate_dir / "picks" / event_uid
     if pick_file.with_suffix(".picks").is_file():
-        picks = pd.read_csv(pick_file.with_suffix(".picks"))
+        # Station codes may look like numbers or missing values
+        picks = pd.read_csv(
+            pick_file.with_suffix(".picks"), converters={"Station": str}
+        )
     else:
         return None
 
@@ -306,17 +301,19 @@ def _read_single_event(event_file, locate_dir, units, local_mag_ph):
 
                 event.amplitudes.append(amp)
 
-        mag = Magnitude()
-        mag.extra = AttribDict()
-        mag.mag = event_info["ML"]
-        mag.mag_errors.uncertainty = event_info["ML_Err"]
-        mag.magnitude_type = "ML"
-        # mag.origin_id = ?
-        mag.station_count = i
-        mag.evaluation_mode = "automatic"
-        mag.extra.r2 = {"value": event_info["ML_r2"], "namespace": ns}
-
-        event.magnitudes = [mag]
-        event.preferred_magnitude_id = mag.resource_id
+        # The magnitude is NaN if no suitable amplitude measurements were made
+        if not pd.isna(event_info["ML"]):
+            mag = Magnitude()
+            mag.extra = AttribDict()
+            mag.mag = event_info["ML"]
+            mag.mag_errors.uncertainty = event_info["ML_Err"]
+            mag.magnitude_type = "ML"
+            # mag.origin_id = ?
+            mag.station_count = i
+            mag.evaluation_mode = "automatic"
+            mag.extra.r2 = {"value": event_info["ML_r2"], "namespace": ns}
+
+            event.magnitudes = [mag]
+            event.preferred_magnitude_id = mag.resource_id
 
     return event
-- 
2.43.0


From d35353f87cb0d7c8dccc8b0d9fa7b0ec1f05db5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:22 +0000
Subject: [PATCH 38/55] fix: snuffler files have leading zeros of microseconds
 and each station's own network

---
 quakemigrate/export/to_snuffler.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/quakemigrate/export/to_snuffler.py b/quakemigrate/export/to_snuffler.py
index c578a6d..017af18 100644
--- a/quakemigrate/export/to_snuffler.py
+++ b/quakemigrate/export/to_snuffler.py
@@ -37,14 +37,15 @@ def snuffler_stations(stations, output_path, filename, network_code=None):
 
     with output.open(mode="w") as f:
         for i, station in stations.iterrows():
-            if network_code is None:
+            network = network_code
+            if network is None:
                 try:
-                    network_code = station["Network"]
+                    network = station["Network"]
                 except KeyError:
-                    network_code = ""
+                    network = ""
 
             line = line_template.format(
-                nw=network_code,
+                nw=network,
                 stat=station["Name"],
                 lat=station["Latitude"],
                 lon=station["Longitude"],
@@ -98,7 +99,7 @@ def snuffler_markers(event, output_path, filename=None):
         hr=str(origin.time.hour).zfill(2),
         min=str(origin.time.minute).zfill(2),
         sec=str(origin.time.second).zfill(2),
-        msec=origin.time.microsecond,
+        msec=str(origin.time.microsecond).zfill(6),
         eventid=str(event.resource_id),
     )
 
@@ -118,7 +119,7 @@ def snuffler_markers(event, output_path, filename=None):
                 hr=str(pick.time.hour).zfill(2),
                 min=str(pick.time.minute).zfill(2),
                 sec=str(pick.time.second).zfill(2),
-                msec=pick.time.microsecond,
+                msec=str(pick.time.microsecond).zfill(6),
                 nw=pick.waveform_id.network_code,
                 stat=pick.waveform_id.station_code,
                 comp=comp,
-- 
2.43.0


From 8f9044a129ee692382c3fb6dab361c2653ff5379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:22 +0000
Subject: [PATCH 39/55] fix: SAC export copes with missing data, relates picks
 to each trace, and has elevations in metres

---
 quakemigrate/export/to_mfast.py | 45 ++++++++++++++++++---------------
 1 file changed, 25 insertions(+), 20 deletions(-)

diff --git a/quakemigrate/export/to_mfast.py b/quakemigrate/export/to_mfast.py
index ee45c67..e5cd00b 100644
--- a/quakemigrate/export/to_mfast.py
+++ b/quakemigrate/export/to_mfast.py
@@ -11,6 +11,7 @@ headers correctly populated for MFAST.
 
 """
 
+import glob
 import pathlib
 
 from obspy import read
@@ -43,13 +44,13 @@ def sac_mfast(event, stations, output_path, units, filename=None):
     """
 
     # Read in the mSEED file containing
-    stream = read(event.extra.cut_waveforms_file.value)
+    stream = read(glob.escape(event.extra.cut_waveforms_file.value))
 
     # Set distance conversion factor (from units of QM LUT projection units).
     if units == "km":
-        factor = 1
-    elif units == "m":
         factor = 1e3
+    elif units == "m":
+        factor = 1
     else:
         raise AttributeError(f"units must be 'km' or 'm'; not {units}")
 
@@ -75,7 +76,7 @@ def sac_mfast(event, stations, output_path, units, filename=None):
         station_header = AttribDict()
         station_header.stla = station.Latitude
         station_header.stlo = station.Longitude
-        station_header.stel = station.Elevation / factor  # convert to m
+        station_header.stel = station.Elevation * factor  # convert to m
 
         # Calculate the distance and azimuth between event and station
         dist, az, _ = gps2dist_azimuth(
@@ -95,37 +96,41 @@ def sac_mfast(event, stations, output_path, units, filename=None):
             # If no phase picks for this station, continue
             continue
 
-        reference = st[0].stats.starttime
-        origin_time = origin.time - reference
-        p_pick = s_pick = 0
+        p_pick = s_pick = None
         for pick in picks:
             if pick.phase_hint == "P":
-                p_pick = pick.time - reference
+                p_pick = pick.time
             elif pick.phase_hint == "S":
-                s_pick = pick.time - reference
+                s_pick = pick.time
 
-        if s_pick == 0:
+        if s_pick is None:
             continue
 
         # Set pick error (think about good bounds?)
         kt5 = 1
 
-        pick_header = AttribDict()
-        pick_header.t0 = s_pick
-        pick_header.kt5 = str(kt5)
-        pick_header.kt0 = str(kt5)
-        pick_header.o = origin_time
-        if p_pick != 0:
-            pick_header.a = p_pick
-
         for comp in ["Z", "N", "E"]:
-            tr = st.select(channel=f"*{comp}")[0]
+            traces = st.select(channel=f"*{comp}")
+            if not traces:
+                # If there is no data for this component, continue
+                continue
+            tr = traces[0]
+
+            # Times are relative to the start of each trace
+            reference = tr.stats.starttime
+            pick_header = AttribDict()
+            pick_header.t0 = s_pick - reference
+            pick_header.kt5 = str(kt5)
+            pick_header.kt0 = str(kt5)
+            pick_header.o = origin.time - reference
+            if p_pick is not None:
+                pick_header.a = p_pick - reference
 
             # Write out to SAC file, then read in again to fill header
             name = filename.format(station.Name, comp.lower())
             name = str(output_path / name)
             tr.write(name, format="SAC")
-            tr = read(name)[0]
+            tr = read(glob.escape(name))[0]
 
             sac_header = AttribDict()
             sac_header.cmpaz = str(cmpaz[comp])
-- 
2.43.0


From 513213544b7371dcc6cd40f1d524d944e632a3c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:22 +0000
Subject: [PATCH 40/55] fix: trigger refuses a marginal window too long for the
 event interval, whatever their order

---
 quakemigrate/signal/trigger.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/quakemigrate/signal/trigger.py b/quakemigrate/signal/trigger.py
index 31f4a76..0d21919 100755
--- a/quakemigrate/signal/trigger.py
+++ b/quakemigrate/signal/trigger.py
@@ -223,9 +223,10 @@ class Trigger:
         self.median_multiplier = kwargs.get("median_multiplier", 1.2)
 
         self.marginal_window = kwargs.get("marginal_window", 2.0)
-        self.min_event_interval = kwargs.get("min_event_interval", 4.0)
         if kwargs.get("minimum_repeat"):
             self.minimum_repeat = kwargs.get("minimum_repeat")
+        else:
+            self.min_event_interval = kwargs.get("min_event_interval", 4.0)
         self.normalise_coalescence = kwargs.get("normalise_coalescence", False)
         self.pad = kwargs.get("pad", 120.0)
         self.smooth_coa = kwargs.get("smooth_coa", False)
@@ -300,6 +301,10 @@ class Trigger:
 
         """
 
+        # The marginal window may have been changed after the minimum event interval
+        if self.min_event_interval < 2 * self.marginal_window:
+            raise ValueError("\tMinimum event interval must be >= 2 * marginal window.")
+
         # Configure logging
         self.run.logger(self.log)
 
-- 
2.43.0


From 428dc846b63a58b061f9e20b1e2290c1f032c6a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:22 +0000
Subject: [PATCH 41/55] fix: the scan rate is the sampling rate of the onset
 object, also once it is changed

---
 quakemigrate/signal/scan.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/quakemigrate/signal/scan.py b/quakemigrate/signal/scan.py
index 8ceed49..074ae1a 100755
--- a/quakemigrate/signal/scan.py
+++ b/quakemigrate/signal/scan.py
@@ -1084,15 +1084,12 @@ class QuakeScan:
     # --- Deprecation/Future handling ---
     @property
     def scan_rate(self):
-        """Get scan_rate"""
-        return self._scan_rate
+        """Get scan_rate - currently always that of the onset function."""
+        return self.onset.sampling_rate
 
     @scan_rate.setter
     def scan_rate(self, value):
-        if value is None:
-            return
-        elif value == self.onset.sampling_rate:
-            self._scan_rate = value
+        if value is None or value == self.onset.sampling_rate:
             return
         print(
             "Warning: Parameter not yet user-configurable. Currently\n"
-- 
2.43.0


From 274b16e2e2ec1ae0134efabe5a7e7fcd67dfd512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:22 +0000
Subject: [PATCH 42/55] fix: onset_centred reads as the boolean it is set with

---
 quakemigrate/signal/onsets/stalta.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quakemigrate/signal/onsets/stalta.py b/quakemigrate/signal/onsets/stalta.py
index 09b95d6..70c4048 100644
--- a/quakemigrate/signal/onsets/stalta.py
+++ b/quakemigrate/signal/onsets/stalta.py
@@ -646,7 +646,7 @@ class STALTAOnset(Onset):
     @property
     def onset_centred(self):
         """Handle deprecated onset_centred kwarg / attribute"""
-        return self.position
+        return self.position == "centred"
 
     @onset_centred.setter
     def onset_centred(self, value):
-- 
2.43.0


From 24e25ef8e6fc4511da6a6f1e74cd4d9c67f572ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:22 +0000
Subject: [PATCH 43/55] fix: the threshold method of a picker can be changed

---
 quakemigrate/signal/pickers/gaussian.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/quakemigrate/signal/pickers/gaussian.py b/quakemigrate/signal/pickers/gaussian.py
index 91fefe6..5d4027c 100644
--- a/quakemigrate/signal/pickers/gaussian.py
+++ b/quakemigrate/signal/pickers/gaussian.py
@@ -74,14 +74,10 @@ class GaussianPicker(PhasePicker):
 
         # --- Get pick method and threshold ---
         self.threshold_method = kwargs.get("threshold_method", "MAD")
-        if self.threshold_method == "percentile":
-            self.percentile_pick_threshold = kwargs.get(
-                "percentile_pick_threshold", 1.0
-            )
-        elif self.threshold_method == "MAD":
-            self.mad_pick_threshold = kwargs.get("mad_pick_threshold", 8.0)
-        else:
+        if self.threshold_method not in ["percentile", "MAD"]:
             raise util.InvalidPickThresholdMethodException
+        self.percentile_pick_threshold = kwargs.get("percentile_pick_threshold", 1.0)
+        self.mad_pick_threshold = kwargs.get("mad_pick_threshold", 8.0)
         # Handle deprecated `pick_threshold`
         if kwargs.get("pick_threshold"):
             self.pick_threshold = kwargs["pick_threshold"]
-- 
2.43.0


From 1ccca8983dce70ef6ecc3b7a80624c5564c84f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:22 +0000
Subject: [PATCH 44/55] fix: a bandpass filter without frequencies is refused

---
 quakemigrate/signal/local_mag/amplitude.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quakemigrate/signal/local_mag/amplitude.py b/quakemigrate/signal/local_mag/amplitude.py
index 1cd368e..8273f44 100644
--- a/quakemigrate/signal/local_mag/amplitude.py
+++ b/quakemigrate/signal/local_mag/amplitude.py
@@ -117,8 +117,8 @@ class Amplitude:
         self.bandpass_filter = amplitude_params.get("bandpass_filter", False)
         if self.bandpass_filter:
             try:
-                self.bandpass_lowcut = amplitude_params.get("bandpass_lowcut")
-                self.bandpass_highcut = amplitude_params.get("bandpass_highcut")
+                self.bandpass_lowcut = amplitude_params["bandpass_lowcut"]
+                self.bandpass_highcut = amplitude_params["bandpass_highcut"]
             except KeyError as e:
                 raise AttributeError(f"Bandpass filter frequencies not specified! {e}")
         self.filter_corners = amplitude_params.get("filter_corners", 4)
-- 
2.43.0


From b828b875587012c45a6763ad98022e71148741e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:22 +0000
Subject: [PATCH 45/55] fix: station files without any one of the required
 columns are refused

---
 quakemigrate/io/core.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/quakemigrate/io/core.py b/quakemigrate/io/core.py
index 99f1463..99cc1d7 100644
--- a/quakemigrate/io/core.py
+++ b/quakemigrate/io/core.py
@@ -89,8 +89,9 @@ def read_stations(station_file, **kwargs):
 
     stn_data = pd.read_csv(station_file, **kwargs)
 
-    if ("Latitude" or "Longitude" or "Elevation" or "Name") not in stn_data.columns:
-        raise util.StationFileHeaderException
+    for column in ["Latitude", "Longitude", "Elevation", "Name"]:
+        if column not in stn_data.columns:
+            raise util.StationFileHeaderException
 
     stn_data["Elevation"] = stn_data["Elevation"].apply(lambda x: -1 * x)
 
-- 
2.43.0


From c87eae5a6c5e38ff94fe5a99c107ee53f53e2139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:53 +0000
Subject: [PATCH 46/55] fix: pads are whole samples at any sampling rate

---
 quakemigrate/util.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/quakemigrate/util.py b/quakemigrate/util.py
index 74735f7..8ab161e 100644
--- a/quakemigrate/util.py
+++ b/quakemigrate/util.py
@@ -274,7 +274,10 @@ def trim2sample(time, sampling_rate):
 
     """
 
-    return int(np.ceil(time * sampling_rate) / sampling_rate * 1000) / 1000
+    # Floating point error must not add a sample to a time that is whole samples already
+    n_samples = np.ceil(round(time * sampling_rate, 6))
+
+    return float(n_samples / sampling_rate)
 
 
 def wa_response(convert="DIS2DIS", obspy_def=True):
-- 
2.43.0


From 475b386cf1b075ba60f1d97503098b1c5e658df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:17 +0000
Subject: [PATCH 47/55] fix: complete traces with sampling intervals that
 aren't whole microseconds are available

---
 quakemigrate/io/data.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/quakemigrate/io/data.py b/quakemigrate/io/data.py
index d61f972..3c65896 100755
--- a/quakemigrate/io/data.py
+++ b/quakemigrate/io/data.py
@@ -612,8 +612,9 @@ class WaveformData:
                 # rate as provided. To check that as well, use
                 # `check_sampling_rate=True` and specify a sampling rate.
                 if full_timespan:
-                    # Rounded, so floating point error can't add to a whole number
-                    n_samples = round(timespan * st_id[0].stats.sampling_rate, 6) + 1
+                    # Rounded, so neither floating point error nor times being rounded to
+                    # the microsecond can add to a whole number
+                    n_samples = round(timespan * st_id[0].stats.sampling_rate, 2) + 1
                     if len(st_id) > 1:
                         continue
                     elif st_id[0].stats.npts < n_samples:
-- 
2.43.0


From 6b9eba10560f8396a78f0fab2ed9582044f4caeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:12 +0000
Subject: [PATCH 48/55] fix: interpolate NonLinLoc sections at the place within
 the cell that was looked up

---
 quakemigrate/lut/create_lut.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quakemigrate/lut/create_lut.py b/quakemigrate/lut/create_lut.py
index dd85b4d..35e6547 100644
--- a/quakemigrate/lut/create_lut.py
+++ b/quakemigrate/lut/create_lut.py
@@ -749,7 +749,7 @@ def _bilinear_interpolate(xz, xz_origin, xz_dimensions, traveltimes):
     i, k = np.floor((xz - xz_origin) / xz_dimensions).astype(int).T
 
     # Get fractional distance along each axis
-    x_d, z_d = (np.remainder(xz, xz_dimensions) / xz_dimensions).T
+    x_d, z_d = ((xz - xz_origin) / xz_dimensions - np.c_[i, k]).T
 
     # Get 4 data points of surrounding square
     c00 = traveltimes[i, k]
-- 
2.43.0


From 3e07f43aac420a9355d5748f74beb308b493e324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:12 +0000
Subject: [PATCH 49/55] fix: leave other files in the model directory when
 tidying up after NonLinLoc

---
 quakemigrate/lut/create_lut.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/quakemigrate/lut/create_lut.py b/quakemigrate/lut/create_lut.py
index 35e6547..ae150b8 100644
--- a/quakemigrate/lut/create_lut.py
+++ b/quakemigrate/lut/create_lut.py
@@ -520,20 +520,20 @@ def _compute_1d_nlloc(lut, phase, vmodel, **kwargs):
         if not retain_nll_grids:
             for file in (cwd / "time").glob(f"layer.{phase}.{station}.time*"):
                 file.unlink()
-            for file in (cwd / "time").glob(f"layer.{phase}.mod.*"):
+            for file in (cwd / "model").glob(f"layer.{phase}.mod.*"):
                 file.unlink()
 
     if not retain_nll_grids:
-        rmtree(cwd / "model")
-        # Check time directory is empty before removing (might have saved grids from
-        # previous runs)
-        if not os.listdir(cwd / "time"):
-            rmtree(cwd / "time")
-        else:
-            logging.info(
-                "Warning: time directory not empty; does it contain traveltime grids "
-                "from a previous run?\nNot removed."
-            )
+        # Check directories are empty before removing (might have saved grids from
+        # previous runs, or other files)
+        for subdir in ["model", "time"]:
+            if not os.listdir(cwd / subdir):
+                rmtree(cwd / subdir)
+            else:
+                logging.info(
+                    f"Warning: {subdir} directory not empty; does it contain grids "
+                    "from a previous run?\nNot removed."
+                )
 
 
 def _write_control_file(
-- 
2.43.0


From a8e5565ff661c220187bcb653d352b318cd958be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:14 +0000
Subject: [PATCH 50/55] fix: take the layers of a velocity model for NonLinLoc
 in their order, not by their index labels

---
 quakemigrate/lut/create_lut.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/quakemigrate/lut/create_lut.py b/quakemigrate/lut/create_lut.py
index ae150b8..249992f 100644
--- a/quakemigrate/lut/create_lut.py
+++ b/quakemigrate/lut/create_lut.py
@@ -458,7 +458,8 @@ def _compute_1d_nlloc(lut, phase, vmodel, **kwargs):
     grid_xyz = [g / km_cf for g in lut.grid_xyz]
     stations_xyz = lut.stations_xyz / km_cf
     ll, *_, ur = lut.grid_corners / km_cf
-    vmodel = vmodel / km_cf
+    # Layers are looked up in their order, whatever their labels
+    vmodel = (vmodel / km_cf).reset_index(drop=True)
 
     # Make folders in which to run NonLinLoc
     cwd = pathlib.Path.cwd()
-- 
2.43.0


From 1e65ac8354b406b85d65acca9f1dce9e4d38e602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:38:25 +0000
Subject: [PATCH 51/55] fix: figures of an onset whose channel maps name only
 the phases it uses

locate stopped with KeyError when the map had no entry for the other phase.
---
 quakemigrate/util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quakemigrate/util.py b/quakemigrate/util.py
index 8ab161e..bcc7433 100644
--- a/quakemigrate/util.py
+++ b/quakemigrate/util.py
@@ -720,8 +720,8 @@ def get_phase_component_strings(channel_maps):
 
     """
 
-    p_comps = list(channel_maps["P"].strip("*").strip("[").strip("]"))[::2]
-    s_comps = list(channel_maps["S"].strip("*").strip("[").strip("]"))[::2]
+    p_comps = list(channel_maps.get("P", "").strip("*").strip("[").strip("]"))[::2]
+    s_comps = list(channel_maps.get("S", "").strip("*").strip("[").strip("]"))[::2]
     p_str, s_str_1, s_str_2 = "", "", ""
     for p_comp in p_comps:
         p_str += f"{p_comp},"
-- 
2.43.0


From 748bdb5a89eb760a8dbb8e3a301f4a8f3e6fe092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:43:45 +0000
Subject: [PATCH 52/55] fix: pick plots of an onset with phases S, P showed
 each phase in the other's panel

---
 quakemigrate/plot/phase_picks.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/quakemigrate/plot/phase_picks.py b/quakemigrate/plot/phase_picks.py
index 62ed745..b2ed01c 100644
--- a/quakemigrate/plot/phase_picks.py
+++ b/quakemigrate/plot/phase_picks.py
@@ -99,6 +99,11 @@ def pick_summary(
     times = waveforms[0].times(type="utcdatetime")
     dtimes = [x.datetime for x in times]
 
+    # Panels are laid out with P on the left and S on the right
+    ttimes = [ttime for _, ttime in sorted(zip(onsets, ttimes))]
+    onsets = dict(sorted(onsets.items()))
+    picks = picks.sort_values("Phase", ignore_index=True)
+
     phases = [phase for phase, _ in onsets.items()]
     onsets = [onset for _, onset in onsets.items()]
 
-- 
2.43.0


From 8ce12d640bfd4aee6808c259d8d5fe3214b59bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:50:55 +0000
Subject: [PATCH 53/55] fix: give the Gaussian location uncertainties to the
 axes they belong to

The uncertainties along the principal axes of the fit were reported as those
along x, y and z in whatever order the eigenvalues came.
---
 quakemigrate/signal/scan.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/quakemigrate/signal/scan.py b/quakemigrate/signal/scan.py
index 074ae1a..7cf03e5 100755
--- a/quakemigrate/signal/scan.py
+++ b/quakemigrate/signal/scan.py
@@ -936,7 +936,8 @@ class QuakeScan:
         location = [[gau_3d[0][0], gau_3d[0][1], gau_3d[0][2]]]
         location = self.lut.index2coord(location)[0]
 
-        uncertainty = sgm * self.lut.node_spacing
+        # Uncertainties along x, y and z, from those along the principal axes
+        uncertainty = np.sqrt(np.matmul(vec**2, sgm**2)) * self.lut.node_spacing
 
         return location, uncertainty
 
-- 
2.43.0


From 679d5d1d4ab7af0669e2dd0235392e0a682c51ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:12:58 +0000
Subject: [PATCH 54/55] fix: coalescence after a gap in the detect output is
 read, the gap as zeros

---
 quakemigrate/io/scanmseed.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/quakemigrate/io/scanmseed.py b/quakemigrate/io/scanmseed.py
index cf5bbce..cfacbb8 100644
--- a/quakemigrate/io/scanmseed.py
+++ b/quakemigrate/io/scanmseed.py
@@ -306,6 +306,9 @@ def read_scanmseed(run, starttime, endtime, pad, ucf):
         raise util.NoScanMseedDataException
 
     scanmseed.merge(method=-1)
+    # Fill any gap with zeros, as detect() does where there are no data; otherwise
+    # everything after the gap would be lost
+    scanmseed.merge(method=1, fill_value=0)
     stats = scanmseed.select(station="COA")[0].stats
 
     data = pd.DataFrame()
-- 
2.43.0


From 6d1e3b13653de0da55f1975d24ffa5b0da5d822c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:45:37 +0000
Subject: [PATCH 55/55] fix: coalescence at another rate in the padding does
 not hide the requested period

---
 quakemigrate/io/scanmseed.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/quakemigrate/io/scanmseed.py b/quakemigrate/io/scanmseed.py
index cfacbb8..0c30c12 100644
--- a/quakemigrate/io/scanmseed.py
+++ b/quakemigrate/io/scanmseed.py
@@ -305,6 +305,13 @@ def read_scanmseed(run, starttime, endtime, pad, ucf):
     if not bool(scanmseed):
         raise util.NoScanMseedDataException
 
+    # Coalescence sampled at another rate, in the padding, can't be joined to that of
+    # the requested period
+    stats = max(
+        (tr.stats for tr in scanmseed),
+        key=lambda s: min(s.endtime, endtime) - max(s.starttime, starttime),
+    )
+    scanmseed = scanmseed.select(sampling_rate=stats.sampling_rate)
     scanmseed.merge(method=-1)
     # Fill any gap with zeros, as detect() does where there are no data; otherwise
     # everything after the gap would be lost
-- 
2.43.0

