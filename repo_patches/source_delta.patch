From 0aece8b652d8e33f20564c3e7242029e647a9461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:39 +0000
Subject: [PATCH 01/30] fix: scale the receiver's own y coordinate for positive
 SU/SEGY scalars

---
 swprocess/sensor1c.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/swprocess/sensor1c.py b/swprocess/sensor1c.py
index 7b61624..386c871 100644
--- a/swprocess/sensor1c.py
+++ b/swprocess/sensor1c.py
@@ -210,7 +210,7 @@ class Sensor1C(ActiveTimeSeries):
         x = round(x, -np.sign(scaleco) * int(np.log10(abs(scaleco))))
 
         int_y = cls._safely_get_header(header, "group_coordinate_y", 0, int)
-        y = int_y / abs(scaleco) if scaleco < 0 else int_x * scaleco
+        y = int_y / abs(scaleco) if scaleco < 0 else int_y * scaleco
         y = round(y, -np.sign(scaleco) * int(np.log10(abs(scaleco))))
 
         return cls.from_trace(trace,
@@ -260,7 +260,7 @@ class Sensor1C(ActiveTimeSeries):
         x = round(x, -np.sign(scaleco) * int(np.log10(abs(scaleco))))
 
         int_y = cls._safely_get_header(header, "group_coordinate_y", 0, int)
-        y = int_y / abs(scaleco) if scaleco < 0 else int_x * scaleco
+        y = int_y / abs(scaleco) if scaleco < 0 else int_y * scaleco
         y = round(y, -np.sign(scaleco) * int(np.log10(abs(scaleco))))
 
         return cls.from_trace(trace,
-- 
2.43.0


From 6141c157da4c97fe546312b97742c97dc713b0ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:39 +0000
Subject: [PATCH 02/30] fix: write the number of stacks the SU reader expects

---
 swprocess/array1d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/swprocess/array1d.py b/swprocess/array1d.py
index 7491c1f..8ad9232 100644
--- a/swprocess/array1d.py
+++ b/swprocess/array1d.py
@@ -775,7 +775,7 @@ class Array1D():
             trace.stats.su.trace_header.source_coordinate_y = rint(
                 self.source._y*1000)
             trace.stats.su.trace_header.number_of_horizontally_stacked_traces_yielding_this_trace = rint(
-                sensor.nstacks-1)
+                sensor.nstacks)
             trace.stats.su.trace_header.delay_recording_time = rint(
                 sensor.delay*1000)
             trace.stats.su.trace_header.group_coordinate_x = rint(
-- 
2.43.0


From 19e0d457dc156f2faa7ebb6605aa6fdb45a51887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:39 +0000
Subject: [PATCH 03/30] fix: examine every sensor when trimming offsets,
 whichever end the source is on

---
 swprocess/array1d.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/swprocess/array1d.py b/swprocess/array1d.py
index 8ad9232..2a37787 100644
--- a/swprocess/array1d.py
+++ b/swprocess/array1d.py
@@ -208,9 +208,6 @@ class Array1D():
             if (offset > min_offset) and (offset < max_offset):
                 sensors.append(sensor)
 
-            if (offset > max_offset):
-                break
-
         if len(sensors) == 0:
             msg = "Removing all sensors at offsets between "
             msg += f"{min_offset} and {max_offset}, results in no sensors."
-- 
2.43.0


From 9e6ab9e961b5998bb14ae1dfad8175e46ef2cded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:39 +0000
Subject: [PATCH 04/30] fix: convert mute times to samples for records trimmed
 to start after the trigger

---
 swprocess/array1d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/swprocess/array1d.py b/swprocess/array1d.py
index 2a37787..8c799e1 100644
--- a/swprocess/array1d.py
+++ b/swprocess/array1d.py
@@ -560,7 +560,7 @@ class Array1D():
         position = np.array(self.position())
         dt = self[0].dt
         delay = self[0].delay
-        ndelay = abs(delay/dt)
+        ndelay = -delay/dt
         nsamples = self[0].nsamples
 
         # Define starting index for each trace.
-- 
2.43.0


From a30c0e7b41bb1ec9d93d6a47cb0258f6f2629c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:39 +0000
Subject: [PATCH 05/30] fix: map the SEG2 source's y coordinate as the
 receivers' is mapped

---
 swprocess/array1d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/swprocess/array1d.py b/swprocess/array1d.py
index 8c799e1..be99ac7 100644
--- a/swprocess/array1d.py
+++ b/swprocess/array1d.py
@@ -664,7 +664,7 @@ class Array1D():
         if _format == "SEG2":
             def parse_source(stats):
                 x = float(stats.seg2.SOURCE_LOCATION)
-                return Source(x=map_x(x), y=0, z=0)
+                return Source(x=map_x(x), y=map_y(0), z=0)
 
         elif _format == "SU":
             def parse_source(stats):
-- 
2.43.0


From c9aa3a6bcf1edf413f5981161637b5996cc37447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:39 +0000
Subject: [PATCH 06/30] fix: treat an unset SEGY coordinate scalar as one for
 the source as well

---
 swprocess/array1d.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/swprocess/array1d.py b/swprocess/array1d.py
index be99ac7..bd985b7 100644
--- a/swprocess/array1d.py
+++ b/swprocess/array1d.py
@@ -702,6 +702,10 @@ class Array1D():
 
                 scaleco = int(
                     stats.segy.trace_header["scalar_to_be_applied_to_all_coordinates"])
+                if scaleco == 0:
+                    msg = "Resetting scale to be applied to all coordinates from zero to one."
+                    warnings.warn(msg)
+                    scaleco = 1
 
                 int_x = int(stats.segy.trace_header["source_coordinate_x"])
                 x = int_x / abs(scaleco) if scaleco < 0 else int_x * scaleco
-- 
2.43.0


From 8eef80499b5426f9e7edaccd2294fa9818e8540d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:39 +0000
Subject: [PATCH 07/30] fix: read every stacked file like the first and pair
 its channels by position

---
 swprocess/array1d.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/swprocess/array1d.py b/swprocess/array1d.py
index bd985b7..831daa2 100644
--- a/swprocess/array1d.py
+++ b/swprocess/array1d.py
@@ -725,13 +725,18 @@ class Array1D():
             for fname in fnames[1:]:
                 with warnings.catch_warnings():
                     warnings.simplefilter("ignore")
-                    stream = obspy.read(str(fname))
+                    stream = obspy.read(str(fname), **obspy_read_kwargs)
                 nsource = parse_source(stream[0].stats)
                 if nsource != source:
                     msg = f"fname = {fname} has an incompatible source."
                     raise ValueError(msg)
-                for sensor, trace in zip(obj.sensors, stream.traces):
-                    new_sensor = Sensor1C.from_trace(trace)
+                new_sensors = [Sensor1C.from_trace(trace, map_x=map_x, map_y=map_y)
+                               for trace in stream.traces]
+                new = cls(new_sensors, nsource)
+                if new.nchannels != obj.nchannels:
+                    msg = f"fname = {fname} has an incompatible number of channels."
+                    raise ValueError(msg)
+                for sensor, new_sensor in zip(obj.sensors, new.sensors):
                     sensor.stack_append(new_sensor)
 
         return obj
-- 
2.43.0


From 4d63777a60f502cb0cf1336289ec863840ab0828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:39 +0000
Subject: [PATCH 08/30] fix: average integer-valued source recordings

---
 swprocess/array1d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/swprocess/array1d.py b/swprocess/array1d.py
index 831daa2..67c38e0 100644
--- a/swprocess/array1d.py
+++ b/swprocess/array1d.py
@@ -834,7 +834,7 @@ class Array1DwSource(Array1D):
         # TODO (jpv): Badly assume fnames_src is a properly formatted list.
         trace = obspy.read(str(fnames_src[0]))[src_channel]
         dt = trace.meta.delta
-        amp = trace.data
+        amp = np.array(trace.data, dtype=float)
         for fname in fnames_src[1:]:
             trace = obspy.read(str(fname))[src_channel]
             amp += trace.data
-- 
2.43.0


From a596e986c4029478a7f82307456348bbb9f119d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:39 +0000
Subject: [PATCH 09/30] fix: keep the frequency-step multiple when copying a
 zero-padded record

---
 swprocess/activetimeseries.py | 10 ++++++----
 swprocess/sensor1c.py         | 12 ++++++++----
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/swprocess/activetimeseries.py b/swprocess/activetimeseries.py
index 0502f72..4ab4dc8 100644
--- a/swprocess/activetimeseries.py
+++ b/swprocess/activetimeseries.py
@@ -150,10 +150,12 @@ class ActiveTimeSeries(TimeSeries):
 
     @classmethod
     def from_activetimeseries(cls, activetimeseries):
-        return cls(activetimeseries.amplitude,
-                   activetimeseries.dt,
-                   nstacks=activetimeseries.nstacks,
-                   delay=activetimeseries.delay)
+        obj = cls(activetimeseries.amplitude,
+                  activetimeseries.dt,
+                  nstacks=activetimeseries.nstacks,
+                  delay=activetimeseries.delay)
+        obj._multiple = activetimeseries.multiple
+        return obj
 
     @classmethod
     def from_trace_seg2(cls, trace):
diff --git a/swprocess/sensor1c.py b/swprocess/sensor1c.py
index 386c871..ad2ba06 100644
--- a/swprocess/sensor1c.py
+++ b/swprocess/sensor1c.py
@@ -61,13 +61,17 @@ class Sensor1C(ActiveTimeSeries):
         kwarg_map = {"nstacks": int, "delay": float}
         kwargs = {key: opr(getattr(sensor1c, key))
                   for key, opr in kwarg_map.items()}
-        return cls(*args, **kwargs)
+        obj = cls(*args, **kwargs)
+        obj._multiple = sensor1c.multiple
+        return obj
 
     @classmethod
     def from_activetimeseries(cls, activetimeseries, x, y, z):
-        return cls(activetimeseries.amplitude, activetimeseries.dt, x, y, z,
-                   nstacks=activetimeseries.nstacks,
-                   delay=activetimeseries.delay)
+        obj = cls(activetimeseries.amplitude, activetimeseries.dt, x, y, z,
+                  nstacks=activetimeseries.nstacks,
+                  delay=activetimeseries.delay)
+        obj._multiple = activetimeseries.multiple
+        return obj
 
     @classmethod
     def from_trace(cls, trace,
-- 
2.43.0


From bd4b7eb737bb38b25e7450c4708f732945596198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:39 +0000
Subject: [PATCH 10/30] fix: label signal-to-noise ratios with the spectrum's
 own frequency step

---
 swprocess/snr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/swprocess/snr.py b/swprocess/snr.py
index e0033ee..6cc4af9 100644
--- a/swprocess/snr.py
+++ b/swprocess/snr.py
@@ -42,7 +42,7 @@ class SignaltoNoiseRatio():
 
         # Frequency vector
         sensor = noise[0]
-        frqs = np.arange(sensor.nsamples) * sensor.df
+        frqs = np.arange(sensor.nsamples) * sensor._df
         Empty = WavefieldTransformRegistry.create_class("empty")
         keep_ids = Empty._frequency_keep_ids(frqs, fmin, fmax, sensor.multiple)
         frequencies = frqs[keep_ids]
-- 
2.43.0


From e37d35c0e0aa80677337a105693c8cf49305b821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:39 +0000
Subject: [PATCH 11/30] fix: leave the caller's settings unchanged when running
 the fk transform

---
 swprocess/wavefieldtransforms.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/swprocess/wavefieldtransforms.py b/swprocess/wavefieldtransforms.py
index 6bda2cd..c8accbf 100644
--- a/swprocess/wavefieldtransforms.py
+++ b/swprocess/wavefieldtransforms.py
@@ -717,7 +717,9 @@ class FK(FDBF):
 
     @classmethod
     def from_array(cls, array, settings):
-        settings["fdbf-specific"]["weighting"] = "none"
-        settings["fdbf-specific"]["steering"] = "plane"
+        settings = {**settings,
+                    "fdbf-specific": {**settings.get("fdbf-specific", {}),
+                                      "weighting": "none",
+                                      "steering": "plane"}}
 
         return super().from_array(array, settings)
-- 
2.43.0


From 105fc1b0bb96ef8dcace36ddc42efd6a8eb78197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:39 +0000
Subject: [PATCH 12/30] fix: pick peaks by the magnitude of complex-valued
 power

---
 swprocess/wavefieldtransforms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/swprocess/wavefieldtransforms.py b/swprocess/wavefieldtransforms.py
index c8accbf..c12dc4f 100644
--- a/swprocess/wavefieldtransforms.py
+++ b/swprocess/wavefieldtransforms.py
@@ -132,7 +132,7 @@ class AbstractWavefieldTransform(ABC):
 
         """
         if by == "frequency-maximum":
-            return self.velocities[np.argmax(self.power, axis=0)]
+            return self.velocities[np.argmax(np.abs(self.power), axis=0)]
         else:
             msg = f"find_peak_power by {by} not recognized, see docs for options."
             raise NotImplementedError(msg)
-- 
2.43.0


From 79bad36d84e84576366d61f6dfd377d671894244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:39 +0000
Subject: [PATCH 13/30] fix: rasterize the dispersion image with current
 matplotlib

---
 swprocess/wavefieldtransforms.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/swprocess/wavefieldtransforms.py b/swprocess/wavefieldtransforms.py
index c12dc4f..e44d457 100644
--- a/swprocess/wavefieldtransforms.py
+++ b/swprocess/wavefieldtransforms.py
@@ -224,8 +224,7 @@ class AbstractWavefieldTransform(ABC):
                           np.linspace(0, np.max(self.power), 21),
                           cmap=mpl.colormaps[cmap])
         if rasterize:
-            for pathcoll in img.collections:
-                pathcoll.set_rasterized(True)
+            img.set_rasterized(True)
 
         # Plot colorbar for image.
         if cax is None:
-- 
2.43.0


From 4e52c0f6d2286e1304ad5d223e940982effcaaa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:39 +0000
Subject: [PATCH 14/30] fix: leave the caller's dict unchanged when creating
 peaks from it

---
 swprocess/peaks.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/swprocess/peaks.py b/swprocess/peaks.py
index 6a8f845..87be3fc 100644
--- a/swprocess/peaks.py
+++ b/swprocess/peaks.py
@@ -599,11 +599,8 @@ class Peaks():
             Initialized `Peaks` instance.
 
         """
-        valid = data_dict.get("valid")
-        try:
-            del data_dict["valid"]
-        except KeyError:
-            pass
+        data_dict = dict(data_dict)
+        valid = data_dict.pop("valid", None)
 
         obj = cls(identifier=identifier, **data_dict)
 
-- 
2.43.0


From 8afb9bace11cc1b3e5b5542d740107c0021ac498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:39 +0000
Subject: [PATCH 15/30] fix: do not broadcast when testing peaks for equality

---
 swprocess/peaks.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/swprocess/peaks.py b/swprocess/peaks.py
index 87be3fc..d223652 100644
--- a/swprocess/peaks.py
+++ b/swprocess/peaks.py
@@ -668,6 +668,8 @@ class Peaks():
                 return False
             else:
                 try:
+                    if np.shape(myattr) != np.shape(urattr):
+                        return False
                     if not np.allclose(myattr, urattr, equal_nan=True):
                         return False
                 except ValueError:
-- 
2.43.0


From c212a083d1ef39ba7e4866431d24984e8d1b05cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:39 +0000
Subject: [PATCH 16/30] fix: apply the configured mute window to every record

---
 swprocess/maswworkflows.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/swprocess/maswworkflows.py b/swprocess/maswworkflows.py
index 8b4adc3..262560b 100644
--- a/swprocess/maswworkflows.py
+++ b/swprocess/maswworkflows.py
@@ -86,7 +86,8 @@ class AbstractMaswWorkflow(ABC):
         if mute["apply"]:
             if self.signal_start is None and self.signal_end is None:
                 if mute["method"] == "interactive":
-                    self.signal_start, self.signal_end = self.array.interactive_mute()
+                    kwargs = {"window_kwargs": mute["window_kwargs"]} if mute.get("window_kwargs") else {}
+                    self.signal_start, self.signal_end = self.array.interactive_mute(**kwargs)
                 # TODO (jpv): Implement predefined times for muting.
                 else:
                     msg = f"mute type {mute['method']} is unknown, use 'interactive'."
@@ -94,7 +95,7 @@ class AbstractMaswWorkflow(ABC):
             else:
                 self.array.mute(signal_start=self.signal_start,
                                 signal_end=self.signal_end,
-                                window_kwargs=mute.get("window kwargs"),
+                                window_kwargs=mute.get("window_kwargs") or None,
                                 )
 
     def select_signal(self):
-- 
2.43.0


From 06805395bf76de5e3c72b249b75bdf4aaa44a790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:39 +0000
Subject: [PATCH 17/30] fix: accept a single file name in the frequency-domain
 workflow

---
 swprocess/maswworkflows.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/swprocess/maswworkflows.py b/swprocess/maswworkflows.py
index 262560b..e76bddd 100644
--- a/swprocess/maswworkflows.py
+++ b/swprocess/maswworkflows.py
@@ -260,6 +260,8 @@ class FrequencyDomainMaswWorkflow(AbstractMaswWorkflow):
     """Stack in the frequency-domain."""
 
     def run(self):
+        if isinstance(self.fnames, str):
+            self.fnames = [self.fnames]
         example_array = Array1D.from_files(self.fnames[0],
                                            map_x=self.map_x,
                                            map_y=self.map_y)
-- 
2.43.0


From 3d873339f09a9d22b5c008618658cd7c34467601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:39 +0000
Subject: [PATCH 18/30] fix: identify the wave type of each .max file on its
 own

---
 swprocess/peakssuite.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/swprocess/peakssuite.py b/swprocess/peakssuite.py
index 3967d70..1736ab8 100644
--- a/swprocess/peakssuite.py
+++ b/swprocess/peakssuite.py
@@ -842,15 +842,16 @@ class PeaksSuite():
 
             regex = get_wavetype()
             wavetype_from_file = regex.search(peak_data).groups()[0]
+            file_wavetype = wavetype
             if wavetype == "rayleigh" and wavetype_from_file == "Vertical":
-                wavetype = "vertical"
+                file_wavetype = "vertical"
 
             regex = get_nmaxima()
             nmaxima = int(regex.search(peak_data).groups()[0])
             nmaxima = max(1, nmaxima)
             nmaxima = min(100, nmaxima)
 
-            regex = get_peak_from_max(wavetype=wavetype)
+            regex = get_peak_from_max(wavetype=file_wavetype)
             frequencies = []
             for match in regex.finditer(peak_data):
                 _, f, *_ = match.groups()
@@ -859,7 +860,7 @@ class PeaksSuite():
                 else:
                     frequencies.append(f)
 
-            regex = get_peak_from_max(wavetype=wavetype)
+            regex = get_peak_from_max(wavetype=file_wavetype)
             found_times = []
             for found in regex.finditer(peak_data):
                 start_time = found.groups()[0]
@@ -867,7 +868,7 @@ class PeaksSuite():
                     continue
                 found_times.append(start_time)
                 peak = Peaks._parse_peaks(peak_data,
-                                          wavetype=wavetype,
+                                          wavetype=file_wavetype,
                                           start_time=start_time,
                                           frequencies=frequencies,
                                           nmaxima=nmaxima)
-- 
2.43.0


From 3e96b9943fd740a9fe14b006f439d38749452922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:39 +0000
Subject: [PATCH 19/30] fix: group the alternatives of the noise column when
 finding the wave type

---
 swprocess/regex.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/swprocess/regex.py b/swprocess/regex.py
index a76b9cb..5c5aee9 100644
--- a/swprocess/regex.py
+++ b/swprocess/regex.py
@@ -52,7 +52,7 @@ def get_geopsy_version():
 
 def get_wavetype():
     space = r"(\S+)"
-    pattern = f"{DEFAULT_TIME} {DEFAULT_FREQUENCY} {space} {NUMBER} {NUMBER} {NUMBER} {NUMBER}|-?inf|nan {NUMBER} 1"
+    pattern = f"{DEFAULT_TIME} {DEFAULT_FREQUENCY} {space} {NUMBER} {NUMBER} {NUMBER} (?:{NUMBER}|-?inf|nan) {NUMBER} 1"
     return re.compile(pattern)
 
 def get_process_type():
-- 
2.43.0


From 8dabfbd9184730f8b2dabca27afc47339f0566a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:39 +0000
Subject: [PATCH 20/30] fix: match the times and frequencies of a .max file
 literally

---
 swprocess/peaks.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/swprocess/peaks.py b/swprocess/peaks.py
index d223652..c042cb9 100644
--- a/swprocess/peaks.py
+++ b/swprocess/peaks.py
@@ -17,6 +17,7 @@
 """Peaks class definition."""
 
 import json
+import re
 import warnings
 import logging
 
@@ -164,7 +165,7 @@ class Peaks():
             start_time, *_ = regex.search(peak_data).groups()
 
         if frequencies is None:
-            regex = get_peak_from_max(time=start_time, wavetype=wavetype)
+            regex = get_peak_from_max(time=re.escape(start_time), wavetype=wavetype)
             frequencies = []
             for match in regex.finditer(peak_data):
                 _, f, *_ = match.groups()
@@ -188,7 +189,8 @@ class Peaks():
         pwrs = np.full_like(frqs, fill_value=np.nan, dtype=float)
 
         for col, frequency in enumerate(frequencies):
-            getpeak = get_peak_from_max(time=start_time, frequency=frequency,
+            getpeak = get_peak_from_max(time=re.escape(start_time),
+                                        frequency=re.escape(frequency),
                                         wavetype=wavetype)
 
             for row, match in enumerate(getpeak.finditer(peak_data)):
@@ -202,7 +204,7 @@ class Peaks():
                 pwrs[row, col] = float(_pwr)
 
         # Include for "belt and suspenders".
-        getall = get_all(time=start_time, wavetype=wavetype)
+        getall = get_all(time=re.escape(start_time), wavetype=wavetype)
         count = len(getall.findall(peak_data))
         if np.sum(~np.isnan(frqs)) != count:  # pragma: no cover
             msg = f"Missing {count - len(frqs)} dispersion peaks."
-- 
2.43.0


From a96f2ef70432a0671423cdbd0e80f3f9102a4ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:39 +0000
Subject: [PATCH 21/30] fix: make Statistics constructible, also from a
 PeaksSuite

---
 swprocess/stats.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/swprocess/stats.py b/swprocess/stats.py
index 7c6e935..08a003a 100644
--- a/swprocess/stats.py
+++ b/swprocess/stats.py
@@ -30,13 +30,13 @@ class Statistics():
         self.xx = np.array(xx, dtype=float)
         self.mean = np.array(mean, dtype=float)
         self.stddev = np.array(stddev, dtype=float)
-        self.corr = np.array(corr, dytpe=float)
+        self.corr = np.array(corr, dtype=float)
 
     @classmethod
     def from_peakssuite(cls, peakssuite, xx, xtype="wavelength",
                         ytype="velocity"):
         xx, array = peakssuite.to_array(xtype, ytype, xx)
-        cls.from_array(xx, array)
+        return cls.from_data_matrix(xx, array)
 
     @classmethod
     def from_data_matrix(cls, xx, data_matrix, drop_kwargs=None,
-- 
2.43.0


From 9556f00a1319fb62d17d5398168750c2c1423b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:28 +0000
Subject: [PATCH 22/30] fix: do not let a time match the tail of another
 window's time

---
 swprocess/regex.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/swprocess/regex.py b/swprocess/regex.py
index 5c5aee9..5a445b6 100644
--- a/swprocess/regex.py
+++ b/swprocess/regex.py
@@ -44,7 +44,7 @@ def get_peak_from_max(time=DEFAULT_TIME, frequency=DEFAULT_FREQUENCY, wavetype="
     """
     # abs_time frequency polarization slowness azimuth ellipticity noise power valid
     wavetype = validate_wavetypes(wavetype)
-    pattern = f"({time}) ({frequency}) {wavetype} ({NUMBER}) ({NUMBER}) ({NUMBER}) ({NUMBER}|-?inf|nan) ({NUMBER}) 1"
+    pattern = rf"(?<!\S)({time}) ({frequency}) {wavetype} ({NUMBER}) ({NUMBER}) ({NUMBER}) ({NUMBER}|-?inf|nan) ({NUMBER}) 1"
     return re.compile(pattern)
 
 def get_geopsy_version():
@@ -79,10 +79,10 @@ def get_all(wavetype=r"rayleigh", time=r"(\d+\.?\d*)"):
 
     """
     if wavetype is None:
-        pattern = f"{time} .* 1"
+        pattern = rf"(?<!\S){time} .* 1"
     else:
         wavetype = validate_wavetypes(wavetype)
-        pattern = f"{time} .* {wavetype} .* 1"
+        pattern = rf"(?<!\S){time} .* {wavetype} .* 1"
     return re.compile(pattern)
 
 def validate_wavetypes(wavetype):
-- 
2.43.0


From 369f01534fb2a579c668bc58547bd9e739e122b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:36 +0000
Subject: [PATCH 23/30] fix: allow copying records trimmed to start after the
 trigger

---
 swprocess/activetimeseries.py |  5 +++--
 swprocess/sensor1c.py         | 12 ++++++------
 2 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/swprocess/activetimeseries.py b/swprocess/activetimeseries.py
index 4ab4dc8..acbdf4e 100644
--- a/swprocess/activetimeseries.py
+++ b/swprocess/activetimeseries.py
@@ -152,8 +152,9 @@ class ActiveTimeSeries(TimeSeries):
     def from_activetimeseries(cls, activetimeseries):
         obj = cls(activetimeseries.amplitude,
                   activetimeseries.dt,
-                  nstacks=activetimeseries.nstacks,
-                  delay=activetimeseries.delay)
+                  nstacks=activetimeseries.nstacks)
+        # Records trimmed to start after the trigger have a positive delay.
+        obj._delay = activetimeseries.delay
         obj._multiple = activetimeseries.multiple
         return obj
 
diff --git a/swprocess/sensor1c.py b/swprocess/sensor1c.py
index ad2ba06..877fdf6 100644
--- a/swprocess/sensor1c.py
+++ b/swprocess/sensor1c.py
@@ -58,18 +58,18 @@ class Sensor1C(ActiveTimeSeries):
                    "x": float, "y": float, "z": float}
         args = [opr(getattr(sensor1c, arg)) for arg, opr in arg_map.items()]
 
-        kwarg_map = {"nstacks": int, "delay": float}
-        kwargs = {key: opr(getattr(sensor1c, key))
-                  for key, opr in kwarg_map.items()}
-        obj = cls(*args, **kwargs)
+        obj = cls(*args, nstacks=int(sensor1c.nstacks))
+        # Records trimmed to start after the trigger have a positive delay.
+        obj._delay = float(sensor1c.delay)
         obj._multiple = sensor1c.multiple
         return obj
 
     @classmethod
     def from_activetimeseries(cls, activetimeseries, x, y, z):
         obj = cls(activetimeseries.amplitude, activetimeseries.dt, x, y, z,
-                  nstacks=activetimeseries.nstacks,
-                  delay=activetimeseries.delay)
+                  nstacks=activetimeseries.nstacks)
+        # Records trimmed to start after the trigger have a positive delay.
+        obj._delay = activetimeseries.delay
         obj._multiple = activetimeseries.multiple
         return obj
 
-- 
2.43.0


From 89395593c4467ae7d2ecf044b3a4f20356609b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:18 +0000
Subject: [PATCH 24/30] fix: honour an explicitly given trace format while
 decoding the header

---
 swprocess/sensor1c.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/swprocess/sensor1c.py b/swprocess/sensor1c.py
index 877fdf6..092f9f7 100644
--- a/swprocess/sensor1c.py
+++ b/swprocess/sensor1c.py
@@ -169,6 +169,7 @@ class Sensor1C(ActiveTimeSeries):
 
         return cls.from_trace(trace,
                               read_header=False,
+                              format="SEG2",
                               nstacks=cls._safely_get_header(header, "STACK", 1, int),
                               delay=cls._safely_get_header(header, "DELAY", 0., float),
                               x=map_x(cls._safely_get_header(header, "RECEIVER_LOCATION", 0., float)),
@@ -219,6 +220,7 @@ class Sensor1C(ActiveTimeSeries):
 
         return cls.from_trace(trace,
                               read_header=False,
+                              format="SU",
                               nstacks=nstacks,
                               delay=cls._safely_get_header(header, "delay_recording_time", 0, int)/1000,
                               x=map_x(x),
@@ -269,6 +271,7 @@ class Sensor1C(ActiveTimeSeries):
 
         return cls.from_trace(trace,
                               read_header=False,
+                              format="SEGY",
                               nstacks=nstacks,
                               delay=cls._safely_get_header(header, "delay_recording_time", 0, int)/1000,
                               x=map_x(x),
-- 
2.43.0


From a2830a36b2d58e791dd1f658283172b79fe33fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:51 +0000
Subject: [PATCH 25/30] fix: leave the padding multiple as it was when zero_pad
 refuses a frequency step

---
 swprocess/activetimeseries.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/swprocess/activetimeseries.py b/swprocess/activetimeseries.py
index acbdf4e..c872458 100644
--- a/swprocess/activetimeseries.py
+++ b/swprocess/activetimeseries.py
@@ -258,9 +258,9 @@ class ActiveTimeSeries(TimeSeries):
         """
         df = float(df)
         logger.info(f"zero_pad(df={df})")
-        self._multiple = 1
         if df <= 0:
             raise ValueError(f"df must be positive, currently {df}.")
+        self._multiple = 1
 
         new_nsamples_float = 1/(df*self.dt)
         new_nsamples = int(round(new_nsamples_float))
-- 
2.43.0


From 8241c65a663aa52185983952b0a1ba1bd3efadac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:39 +0000
Subject: [PATCH 26/30] fix: signal-to-noise ratio padded the arrays of its
 caller

---
 swprocess/snr.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/swprocess/snr.py b/swprocess/snr.py
index 6cc4af9..e5d0ed3 100644
--- a/swprocess/snr.py
+++ b/swprocess/snr.py
@@ -18,6 +18,7 @@
 
 import numpy as np
 
+from .array1d import Array1D
 from .register import WavefieldTransformRegistry
 
 
@@ -30,8 +31,10 @@ class SignaltoNoiseRatio():
     @classmethod
     def from_array1ds(cls, signal, noise, fmin=3, fmax=75,
                       pad_snr=False, df_snr=None):
-        # Pad
+        # Pad copies, so the arrays provided are left unchanged.
         if pad_snr:
+            noise = Array1D.from_array1d(noise)
+            signal = Array1D.from_array1d(signal)
             noise.zero_pad(df_snr)
             signal.zero_pad(df_snr)
 
-- 
2.43.0


From 38f04e05ee41006c08866a46611bbb269da30540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:19:21 +0000
Subject: [PATCH 27/30] fix: leave the image unchanged when the normalization
 is not recognized

---
 swprocess/wavefieldtransforms.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/swprocess/wavefieldtransforms.py b/swprocess/wavefieldtransforms.py
index e44d457..e5744e7 100644
--- a/swprocess/wavefieldtransforms.py
+++ b/swprocess/wavefieldtransforms.py
@@ -96,10 +96,7 @@ class AbstractWavefieldTransform(ABC):
             Update the internal state of power.
 
         """
-        # Return power to unnormalized state.
-        self.power *= self._to_abs
-
-        # Normalize power
+        # Select normalization.
         register = {"none": (np.abs,
                              lambda x: 1.),
                     "absolute-maximum": (lambda x: np.abs(x)/np.max(np.abs(x)),
@@ -108,6 +105,11 @@ class AbstractWavefieldTransform(ABC):
                                           lambda x: np.max(np.abs(x), axis=0))
                     }
         to_norm, to_abs = register[by]
+
+        # Return power to unnormalized state.
+        self.power *= self._to_abs
+
+        # Normalize power
         self.power, self._to_abs = (to_norm(self.power), to_abs(self.power))
 
     def find_peak_power(self, by="frequency-maximum", **kwargs):
-- 
2.43.0


From ead4c416d167b0ae2c7ee2d4763ae6674808f906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:07:17 +0000
Subject: [PATCH 28/30] fix: correlation matrix of statistics has a row and a
 column per position

---
 swprocess/stats.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/swprocess/stats.py b/swprocess/stats.py
index 08a003a..03bcf36 100644
--- a/swprocess/stats.py
+++ b/swprocess/stats.py
@@ -107,11 +107,11 @@ class Statistics():
             raise ValueError(msg)
 
         # Calculate correlation coefficients.
-        corr = np.empty_like(data_matrix)
+        corr = np.full((data_matrix.shape[1],)*2, np.nan)
         # nan_mask = np.isnan(data_matrix)
         for region in regions:
             ((s_row, s_col), (e_row, e_col)) = region
-            corr[s_row:e_row, s_col:e_col] = np.corrcoef(data_matrix[s_row:e_row, s_col:e_col],
+            corr[s_col:e_col, s_col:e_col] = np.corrcoef(data_matrix[s_row:e_row, s_col:e_col],
                                                          rowvar=False)
 
         # Fill remaining correlation coefficients.
-- 
2.43.0


From b3111c30d2ce089f59ae753bea07d28f57c2d684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:07:17 +0000
Subject: [PATCH 29/30] fix: fill the missing correlations rather than those at
 missing positions

---
 swprocess/stats.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/swprocess/stats.py b/swprocess/stats.py
index 03bcf36..7a1a1eb 100644
--- a/swprocess/stats.py
+++ b/swprocess/stats.py
@@ -368,8 +368,8 @@ class Statistics():
             return y0*np.power(decay_factor, x)
 
         def filler(xs, ys, function):
-            invalid_ids = np.flatnonzero(np.isnan(xs))
-            valid_ids = np.flatnonzero(~np.isnan(xs))
+            invalid_ids = np.flatnonzero(np.isnan(ys))
+            valid_ids = np.flatnonzero(~np.isnan(ys))
 
             # Fit functional form to valid entries.
             popt, _ = curve_fit(f=function,
-- 
2.43.0


From d53e38767ada3c3a412e623828173216bc21625d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:43:53 +0000
Subject: [PATCH 30/30] fix: dense regions end with the last column

---
 swprocess/stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/swprocess/stats.py b/swprocess/stats.py
index 7a1a1eb..4dd639d 100644
--- a/swprocess/stats.py
+++ b/swprocess/stats.py
@@ -290,7 +290,7 @@ class Statistics():
             else:  # pragma: no cover
                 raise ValueError("Iteration stopped without breaking.")
 
-            if c_row+1 == nrows and c_col+1 == ncols:
+            if c_col+1 == ncols:
                 break
             else:
                 s_col = int(c_col)+1
-- 
2.43.0

