From 09e4b4cddc720cf31dbe27d55fc99f48db8bcc9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:23 +0000
Subject: [PATCH 01/33] fix: zero_pad leaves the object untouched when it
 rejects df

---
 swprocess/activetimeseries.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/swprocess/activetimeseries.py b/swprocess/activetimeseries.py
index 0502f72..964fcba 100644
--- a/swprocess/activetimeseries.py
+++ b/swprocess/activetimeseries.py
@@ -255,9 +255,9 @@ class ActiveTimeSeries(TimeSeries):
         """
         df = float(df)
         logger.info(f"zero_pad(df={df})")
-        self._multiple = 1
         if df <= 0:
             raise ValueError(f"df must be positive, currently {df}.")
+        self._multiple = 1
 
         new_nsamples_float = 1/(df*self.dt)
         new_nsamples = int(round(new_nsamples_float))
-- 
2.43.0


From 2e6ba824d6deebb47afcd3ed914d7271e636462a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:23 +0000
Subject: [PATCH 02/33] fix: copies of trimmed or padded time series keep delay
 and multiple

---
 swprocess/activetimeseries.py | 19 +++++++++++++++----
 swprocess/sensor1c.py         | 14 +++++++-------
 2 files changed, 22 insertions(+), 11 deletions(-)

diff --git a/swprocess/activetimeseries.py b/swprocess/activetimeseries.py
index 964fcba..57c558d 100644
--- a/swprocess/activetimeseries.py
+++ b/swprocess/activetimeseries.py
@@ -150,10 +150,21 @@ class ActiveTimeSeries(TimeSeries):
 
     @classmethod
     def from_activetimeseries(cls, activetimeseries):
-        return cls(activetimeseries.amplitude,
-                   activetimeseries.dt,
-                   nstacks=activetimeseries.nstacks,
-                   delay=activetimeseries.delay)
+        obj = cls(activetimeseries.amplitude,
+                  activetimeseries.dt,
+                  nstacks=activetimeseries.nstacks)
+        obj._copy_state(activetimeseries)
+        return obj
+
+    def _copy_state(self, other):
+        """Copy state from `other` that `__init__` does not accept.
+
+        Trimming can make `delay` positive and zero padding sets
+        `multiple`, neither of which can be passed to `__init__`.
+
+        """
+        self._delay = float(other.delay)
+        self._multiple = int(other.multiple)
 
     @classmethod
     def from_trace_seg2(cls, trace):
diff --git a/swprocess/sensor1c.py b/swprocess/sensor1c.py
index 7b61624..70a8838 100644
--- a/swprocess/sensor1c.py
+++ b/swprocess/sensor1c.py
@@ -58,16 +58,16 @@ class Sensor1C(ActiveTimeSeries):
                    "x": float, "y": float, "z": float}
         args = [opr(getattr(sensor1c, arg)) for arg, opr in arg_map.items()]
 
-        kwarg_map = {"nstacks": int, "delay": float}
-        kwargs = {key: opr(getattr(sensor1c, key))
-                  for key, opr in kwarg_map.items()}
-        return cls(*args, **kwargs)
+        obj = cls(*args, nstacks=int(sensor1c.nstacks))
+        obj._copy_state(sensor1c)
+        return obj
 
     @classmethod
     def from_activetimeseries(cls, activetimeseries, x, y, z):
-        return cls(activetimeseries.amplitude, activetimeseries.dt, x, y, z,
-                   nstacks=activetimeseries.nstacks,
-                   delay=activetimeseries.delay)
+        obj = cls(activetimeseries.amplitude, activetimeseries.dt, x, y, z,
+                  nstacks=activetimeseries.nstacks)
+        obj._copy_state(activetimeseries)
+        return obj
 
     @classmethod
     def from_trace(cls, trace,
-- 
2.43.0


From d0f5f8aa3f55ed169f8fca16313c765961b01ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:23 +0000
Subject: [PATCH 03/33] fix: scale the y group coordinate rather than x for
 positive scalars

---
 swprocess/sensor1c.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/swprocess/sensor1c.py b/swprocess/sensor1c.py
index 70a8838..e8d5689 100644
--- a/swprocess/sensor1c.py
+++ b/swprocess/sensor1c.py
@@ -210,7 +210,7 @@ class Sensor1C(ActiveTimeSeries):
         x = round(x, -np.sign(scaleco) * int(np.log10(abs(scaleco))))
 
         int_y = cls._safely_get_header(header, "group_coordinate_y", 0, int)
-        y = int_y / abs(scaleco) if scaleco < 0 else int_x * scaleco
+        y = int_y / abs(scaleco) if scaleco < 0 else int_y * scaleco
         y = round(y, -np.sign(scaleco) * int(np.log10(abs(scaleco))))
 
         return cls.from_trace(trace,
@@ -260,7 +260,7 @@ class Sensor1C(ActiveTimeSeries):
         x = round(x, -np.sign(scaleco) * int(np.log10(abs(scaleco))))
 
         int_y = cls._safely_get_header(header, "group_coordinate_y", 0, int)
-        y = int_y / abs(scaleco) if scaleco < 0 else int_x * scaleco
+        y = int_y / abs(scaleco) if scaleco < 0 else int_y * scaleco
         y = round(y, -np.sign(scaleco) * int(np.log10(abs(scaleco))))
 
         return cls.from_trace(trace,
-- 
2.43.0


From 2d05f611ce950a427b2fb0eb3ec0288ece91a411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:23 +0000
Subject: [PATCH 04/33] fix: accept SEGY files whose coordinate scalar is unset
 (zero)

---
 swprocess/array1d.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/swprocess/array1d.py b/swprocess/array1d.py
index 7491c1f..a159c82 100644
--- a/swprocess/array1d.py
+++ b/swprocess/array1d.py
@@ -705,6 +705,10 @@ class Array1D():
 
                 scaleco = int(
                     stats.segy.trace_header["scalar_to_be_applied_to_all_coordinates"])
+                if scaleco == 0:
+                    msg = "Resetting scale to be applied to all coordinates from zero to one."
+                    warnings.warn(msg)
+                    scaleco = 1
 
                 int_x = int(stats.segy.trace_header["source_coordinate_x"])
                 x = int_x / abs(scaleco) if scaleco < 0 else int_x * scaleco
-- 
2.43.0


From 46424b3e6bb15de19e40c08d4e2d8917f75a8b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:23 +0000
Subject: [PATCH 05/33] fix: to_file writes the number of stacks, not one less

---
 swprocess/array1d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/swprocess/array1d.py b/swprocess/array1d.py
index a159c82..f979b58 100644
--- a/swprocess/array1d.py
+++ b/swprocess/array1d.py
@@ -779,7 +779,7 @@ class Array1D():
             trace.stats.su.trace_header.source_coordinate_y = rint(
                 self.source._y*1000)
             trace.stats.su.trace_header.number_of_horizontally_stacked_traces_yielding_this_trace = rint(
-                sensor.nstacks-1)
+                sensor.nstacks)
             trace.stats.su.trace_header.delay_recording_time = rint(
                 sensor.delay*1000)
             trace.stats.su.trace_header.group_coordinate_x = rint(
-- 
2.43.0


From 6a110d29807131c1b7ccd08b4ce92703483c6b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:23 +0000
Subject: [PATCH 06/33] fix: trim_offsets no longer stops at the first far
 sensor

---
 swprocess/array1d.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/swprocess/array1d.py b/swprocess/array1d.py
index f979b58..95be0c4 100644
--- a/swprocess/array1d.py
+++ b/swprocess/array1d.py
@@ -208,9 +208,6 @@ class Array1D():
             if (offset > min_offset) and (offset < max_offset):
                 sensors.append(sensor)
 
-            if (offset > max_offset):
-                break
-
         if len(sensors) == 0:
             msg = "Removing all sensors at offsets between "
             msg += f"{min_offset} and {max_offset}, results in no sensors."
-- 
2.43.0


From fd8277dfde86fb5dcb5a00059092a537a78a022d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:23 +0000
Subject: [PATCH 07/33] fix: mute accounts for the sign of the delay

---
 swprocess/array1d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/swprocess/array1d.py b/swprocess/array1d.py
index 95be0c4..67734bf 100644
--- a/swprocess/array1d.py
+++ b/swprocess/array1d.py
@@ -560,7 +560,7 @@ class Array1D():
         position = np.array(self.position())
         dt = self[0].dt
         delay = self[0].delay
-        ndelay = abs(delay/dt)
+        ndelay = -delay/dt
         nsamples = self[0].nsamples
 
         # Define starting index for each trace.
-- 
2.43.0


From bf126b9448a6dccaa3acaea94d7499782abc3763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:21 +0000
Subject: [PATCH 08/33] fix: mute accepts lines that leave the record

---
 swprocess/array1d.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/swprocess/array1d.py b/swprocess/array1d.py
index 67734bf..77dc098 100644
--- a/swprocess/array1d.py
+++ b/swprocess/array1d.py
@@ -585,6 +585,10 @@ class Array1D():
         if window_kwargs is None:
             window_kwargs = dict(alpha=0.2)
 
+        # Lines may leave the record or cross, keep the window inside it.
+        start_indices = np.clip(start_indices, 0, nsamples)
+        stop_indices = np.clip(stop_indices, start_indices, nsamples)
+
         # TODO (jpv): Windowing can be pushed down into Sensor object.
         # Perform windowing.
         window = np.zeros(nsamples)
-- 
2.43.0


From b40d5d159aa19da01ec3e2f0ec37e7ea4e1a83ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:21 +0000
Subject: [PATCH 09/33] fix: from_files stacks additional files by position and
 with the coordinate maps

---
 swprocess/array1d.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/swprocess/array1d.py b/swprocess/array1d.py
index 77dc098..5f6a7e5 100644
--- a/swprocess/array1d.py
+++ b/swprocess/array1d.py
@@ -729,13 +729,18 @@ class Array1D():
             for fname in fnames[1:]:
                 with warnings.catch_warnings():
                     warnings.simplefilter("ignore")
-                    stream = obspy.read(str(fname))
+                    stream = obspy.read(str(fname), **obspy_read_kwargs)
                 nsource = parse_source(stream[0].stats)
                 if nsource != source:
                     msg = f"fname = {fname} has an incompatible source."
                     raise ValueError(msg)
-                for sensor, trace in zip(obj.sensors, stream.traces):
-                    new_sensor = Sensor1C.from_trace(trace)
+                new_sensors = [Sensor1C.from_trace(trace, map_x=map_x, map_y=map_y)
+                               for trace in stream.traces]
+                nobj = cls(new_sensors, nsource)
+                if nobj.nchannels != obj.nchannels:
+                    msg = f"fname = {fname} has an incompatible number of sensors."
+                    raise ValueError(msg)
+                for sensor, new_sensor in zip(obj.sensors, nobj.sensors):
                     sensor.stack_append(new_sensor)
 
         return obj
-- 
2.43.0


From 4a7826cb3918d3fbfc58ff58ca572ff45b86a6be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:21 +0000
Subject: [PATCH 10/33] fix: FK transform does not modify the caller's settings

---
 swprocess/wavefieldtransforms.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/swprocess/wavefieldtransforms.py b/swprocess/wavefieldtransforms.py
index 6bda2cd..1a5fc44 100644
--- a/swprocess/wavefieldtransforms.py
+++ b/swprocess/wavefieldtransforms.py
@@ -717,7 +717,10 @@ class FK(FDBF):
 
     @classmethod
     def from_array(cls, array, settings):
-        settings["fdbf-specific"]["weighting"] = "none"
-        settings["fdbf-specific"]["steering"] = "plane"
+        # Do not change the settings of the caller.
+        settings = {**settings,
+                    "fdbf-specific": {**settings.get("fdbf-specific", {}),
+                                      "weighting": "none",
+                                      "steering": "plane"}}
 
         return super().from_array(array, settings)
-- 
2.43.0


From 510a308156cffb321e462e3c5c54b062c8df2345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:21 +0000
Subject: [PATCH 11/33] fix: find_peak_power compares magnitudes of complex
 power

---
 swprocess/wavefieldtransforms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/swprocess/wavefieldtransforms.py b/swprocess/wavefieldtransforms.py
index 1a5fc44..88ba2e8 100644
--- a/swprocess/wavefieldtransforms.py
+++ b/swprocess/wavefieldtransforms.py
@@ -132,7 +132,7 @@ class AbstractWavefieldTransform(ABC):
 
         """
         if by == "frequency-maximum":
-            return self.velocities[np.argmax(self.power, axis=0)]
+            return self.velocities[np.argmax(np.abs(self.power), axis=0)]
         else:
             msg = f"find_peak_power by {by} not recognized, see docs for options."
             raise NotImplementedError(msg)
-- 
2.43.0


From 12c2d6c99d17a57eedd226025e01a4641da135db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:21 +0000
Subject: [PATCH 12/33] fix: signal-to-noise ratio frequencies use the
 frequency step of the spectrum

---
 swprocess/snr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/swprocess/snr.py b/swprocess/snr.py
index e0033ee..6cc4af9 100644
--- a/swprocess/snr.py
+++ b/swprocess/snr.py
@@ -42,7 +42,7 @@ class SignaltoNoiseRatio():
 
         # Frequency vector
         sensor = noise[0]
-        frqs = np.arange(sensor.nsamples) * sensor.df
+        frqs = np.arange(sensor.nsamples) * sensor._df
         Empty = WavefieldTransformRegistry.create_class("empty")
         keep_ids = Empty._frequency_keep_ids(frqs, fmin, fmax, sensor.multiple)
         frequencies = frqs[keep_ids]
-- 
2.43.0


From 0bf9f664b371e59ab0540844fd2a9c3187daefb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:21 +0000
Subject: [PATCH 13/33] fix: mute of MASW workflows applies the window_kwargs
 setting

---
 swprocess/maswworkflows.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/swprocess/maswworkflows.py b/swprocess/maswworkflows.py
index 8b4adc3..c94c49b 100644
--- a/swprocess/maswworkflows.py
+++ b/swprocess/maswworkflows.py
@@ -84,9 +84,12 @@ class AbstractMaswWorkflow(ABC):
         """Mute record in the time domain."""
         mute = self.settings["pre-processing"]["mute"]
         if mute["apply"]:
+            # Empty window_kwargs select the default window.
+            window_kwargs = mute.get("window_kwargs")
+            kwargs = {"window_kwargs": window_kwargs} if window_kwargs else {}
             if self.signal_start is None and self.signal_end is None:
                 if mute["method"] == "interactive":
-                    self.signal_start, self.signal_end = self.array.interactive_mute()
+                    self.signal_start, self.signal_end = self.array.interactive_mute(**kwargs)
                 # TODO (jpv): Implement predefined times for muting.
                 else:
                     msg = f"mute type {mute['method']} is unknown, use 'interactive'."
@@ -94,8 +97,7 @@ class AbstractMaswWorkflow(ABC):
             else:
                 self.array.mute(signal_start=self.signal_start,
                                 signal_end=self.signal_end,
-                                window_kwargs=mute.get("window kwargs"),
-                                )
+                                **kwargs)
 
     def select_signal(self):
         """Select a portion of the record as signal."""
-- 
2.43.0


From c3ab0326d35855f05ea90d520371032d714a4c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:21 +0000
Subject: [PATCH 14/33] fix: frequency-domain workflow accepts a single file
 name

---
 swprocess/maswworkflows.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/swprocess/maswworkflows.py b/swprocess/maswworkflows.py
index c94c49b..505eaf4 100644
--- a/swprocess/maswworkflows.py
+++ b/swprocess/maswworkflows.py
@@ -261,6 +261,8 @@ class FrequencyDomainMaswWorkflow(AbstractMaswWorkflow):
     """Stack in the frequency-domain."""
 
     def run(self):
+        if isinstance(self.fnames, str):
+            self.fnames = [self.fnames]
         example_array = Array1D.from_files(self.fnames[0],
                                            map_x=self.map_x,
                                            map_y=self.map_y)
-- 
2.43.0


From 9821ac006f552a7777723be55b065f81da5a7ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:21 +0000
Subject: [PATCH 15/33] fix: Peaks.from_dict does not modify the caller's
 dictionary

---
 swprocess/peaks.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/swprocess/peaks.py b/swprocess/peaks.py
index 6a8f845..da435f0 100644
--- a/swprocess/peaks.py
+++ b/swprocess/peaks.py
@@ -599,11 +599,9 @@ class Peaks():
             Initialized `Peaks` instance.
 
         """
-        valid = data_dict.get("valid")
-        try:
-            del data_dict["valid"]
-        except KeyError:
-            pass
+        # Do not change the dictionary of the caller.
+        data_dict = dict(data_dict)
+        valid = data_dict.pop("valid", None)
 
         obj = cls(identifier=identifier, **data_dict)
 
-- 
2.43.0


From 5ede5df7e58d0c5da29a7d7b4e6c830641e3e27e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:21 +0000
Subject: [PATCH 16/33] fix: Peaks with different numbers of peaks are not
 equal

---
 swprocess/peaks.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/swprocess/peaks.py b/swprocess/peaks.py
index da435f0..f623073 100644
--- a/swprocess/peaks.py
+++ b/swprocess/peaks.py
@@ -668,10 +668,9 @@ class Peaks():
             except AttributeError:
                 return False
             else:
-                try:
-                    if not np.allclose(myattr, urattr, equal_nan=True):
-                        return False
-                except ValueError:
+                if np.shape(myattr) != np.shape(urattr):
+                    return False
+                if not np.allclose(myattr, urattr, equal_nan=True):
                     return False
 
         return True
-- 
2.43.0


From 2855bf706f87f1bcc29d7aa9dc027f866268b463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:21 +0000
Subject: [PATCH 17/33] fix: the wave type of one .max file does not carry over
 to the next

---
 swprocess/peakssuite.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/swprocess/peakssuite.py b/swprocess/peakssuite.py
index 3967d70..764ca1b 100644
--- a/swprocess/peakssuite.py
+++ b/swprocess/peakssuite.py
@@ -843,14 +843,16 @@ class PeaksSuite():
             regex = get_wavetype()
             wavetype_from_file = regex.search(peak_data).groups()[0]
             if wavetype == "rayleigh" and wavetype_from_file == "Vertical":
-                wavetype = "vertical"
+                file_wavetype = "vertical"
+            else:
+                file_wavetype = wavetype
 
             regex = get_nmaxima()
             nmaxima = int(regex.search(peak_data).groups()[0])
             nmaxima = max(1, nmaxima)
             nmaxima = min(100, nmaxima)
 
-            regex = get_peak_from_max(wavetype=wavetype)
+            regex = get_peak_from_max(wavetype=file_wavetype)
             frequencies = []
             for match in regex.finditer(peak_data):
                 _, f, *_ = match.groups()
@@ -859,7 +861,7 @@ class PeaksSuite():
                 else:
                     frequencies.append(f)
 
-            regex = get_peak_from_max(wavetype=wavetype)
+            regex = get_peak_from_max(wavetype=file_wavetype)
             found_times = []
             for found in regex.finditer(peak_data):
                 start_time = found.groups()[0]
@@ -867,7 +869,7 @@ class PeaksSuite():
                     continue
                 found_times.append(start_time)
                 peak = Peaks._parse_peaks(peak_data,
-                                          wavetype=wavetype,
+                                          wavetype=file_wavetype,
                                           start_time=start_time,
                                           frequencies=frequencies,
                                           nmaxima=nmaxima)
-- 
2.43.0


From 8000e1b6196167bcddcafc07ce72177dfece7351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:28 +0000
Subject: [PATCH 18/33] fix: accept SEG2 files whose stack count is unset
 (zero)

---
 swprocess/sensor1c.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/swprocess/sensor1c.py b/swprocess/sensor1c.py
index e8d5689..958c517 100644
--- a/swprocess/sensor1c.py
+++ b/swprocess/sensor1c.py
@@ -163,9 +163,15 @@ class Sensor1C(ActiveTimeSeries):
         """
         header = trace.stats.seg2
 
+        nstacks = cls._safely_get_header(header, "STACK", 1, int)
+        if nstacks == 0:
+            msg = "Resetting nstacks from zero to one."
+            warnings.warn(msg)
+            nstacks = 1
+
         return cls.from_trace(trace,
                               read_header=False,
-                              nstacks=cls._safely_get_header(header, "STACK", 1, int),
+                              nstacks=nstacks,
                               delay=cls._safely_get_header(header, "DELAY", 0., float),
                               x=map_x(cls._safely_get_header(header, "RECEIVER_LOCATION", 0., float)),
                               y=map_y(0),
-- 
2.43.0


From 5e5d2a9a65b5611b86e1eacd0fbda02e44e5b698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:52 +0000
Subject: [PATCH 19/33] fix: map the y coordinate of the source of SEG2 files
 as that of the sensors

---
 swprocess/array1d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/swprocess/array1d.py b/swprocess/array1d.py
index 5f6a7e5..0dd48f4 100644
--- a/swprocess/array1d.py
+++ b/swprocess/array1d.py
@@ -668,7 +668,7 @@ class Array1D():
         if _format == "SEG2":
             def parse_source(stats):
                 x = float(stats.seg2.SOURCE_LOCATION)
-                return Source(x=map_x(x), y=0, z=0)
+                return Source(x=map_x(x), y=map_y(0), z=0)
 
         elif _format == "SU":
             def parse_source(stats):
-- 
2.43.0


From d4eb6e15cb95aaf091166e9571693fd6f5b36ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:38 +0000
Subject: [PATCH 20/33] fix: beamforming fills the image with scalars (arrays
 are refused by current numpy)

---
 swprocess/wavefieldtransforms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/swprocess/wavefieldtransforms.py b/swprocess/wavefieldtransforms.py
index 88ba2e8..8f211aa 100644
--- a/swprocess/wavefieldtransforms.py
+++ b/swprocess/wavefieldtransforms.py
@@ -651,7 +651,7 @@ class FDBF(AbstractWavefieldTransform):
                 steer[:, 0] = create_steering(kx)[:]
                 _power = np.dot(np.dot(np.transpose(np.conjugate(steer)),
                                        weighted_sscm), steer)
-                power[j, i] = _power
+                power[j, i] = _power[0, 0]
 
         return (frequencies, power)
 
-- 
2.43.0


From 8c3691e721fcb852407744323c0cd7e6e8ba9e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:41 +0000
Subject: [PATCH 21/33] fix: cylindrical steering is defined at zero offset and
 zero frequency

---
 swprocess/wavefieldtransforms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/swprocess/wavefieldtransforms.py b/swprocess/wavefieldtransforms.py
index 8f211aa..59ac29c 100644
--- a/swprocess/wavefieldtransforms.py
+++ b/swprocess/wavefieldtransforms.py
@@ -636,7 +636,7 @@ class FDBF(AbstractWavefieldTransform):
         steering = fdbf_specific.get("steering")
         if steering == "cylindrical":
             def create_steering(kx):
-                return np.exp(-1j * np.angle(special.j0(kx) + 1j*special.y0(kx)))
+                return np.exp(-1j * np.arctan2(special.y0(kx), special.j0(kx)))
         else:
             def create_steering(kx):
                 return np.exp(-1j * kx)
-- 
2.43.0


From 75de433063107dfddd30a504b5510a853479c4c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:22 +0000
Subject: [PATCH 22/33] fix: slant-stack no longer reads past the record when
 the largest moveout is a whole number of samples

---
 swprocess/wavefieldtransforms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/swprocess/wavefieldtransforms.py b/swprocess/wavefieldtransforms.py
index 59ac29c..beaa6cc 100644
--- a/swprocess/wavefieldtransforms.py
+++ b/swprocess/wavefieldtransforms.py
@@ -466,7 +466,7 @@ class SlantStack(AbstractWavefieldTransform):
         diff = diff.reshape((len(diff), 1))
         dt = array.sensors[0].dt
         npts = tmatrix.shape[1]
-        ntaus = npts - int(np.max(position)*np.max(1/velocities)/dt) - 1
+        ntaus = npts - int(np.max(position/dt)/np.min(velocities)) - 1
         slant_stack = np.empty((len(velocities), ntaus))
         rows = np.tile(np.arange(nchannels).reshape(nchannels, 1), (1, ntaus))
         cols = np.tile(np.arange(ntaus).reshape(1, ntaus), (nchannels, 1))
-- 
2.43.0


From 3a2baa97ad893a547db236da01da1cf2a8edb79a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:35 +0000
Subject: [PATCH 23/33] fix: an unknown normalization leaves the image
 untouched

---
 swprocess/wavefieldtransforms.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/swprocess/wavefieldtransforms.py b/swprocess/wavefieldtransforms.py
index beaa6cc..e494297 100644
--- a/swprocess/wavefieldtransforms.py
+++ b/swprocess/wavefieldtransforms.py
@@ -96,9 +96,6 @@ class AbstractWavefieldTransform(ABC):
             Update the internal state of power.
 
         """
-        # Return power to unnormalized state.
-        self.power *= self._to_abs
-
         # Normalize power
         register = {"none": (np.abs,
                              lambda x: 1.),
@@ -108,7 +105,11 @@ class AbstractWavefieldTransform(ABC):
                                           lambda x: np.max(np.abs(x), axis=0))
                     }
         to_norm, to_abs = register[by]
-        self.power, self._to_abs = (to_norm(self.power), to_abs(self.power))
+
+        # Return power to unnormalized state.
+        power = self.power * self._to_abs
+
+        self.power, self._to_abs = (to_norm(power), to_abs(power))
 
     def find_peak_power(self, by="frequency-maximum", **kwargs):
         """Find maximum `WavefieldTransform` power.
-- 
2.43.0


From 5aa9d4d50ed7d85ae43cb303a4bfa943859adcc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:40 +0000
Subject: [PATCH 24/33] fix: average source signals of any sample type

---
 swprocess/array1d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/swprocess/array1d.py b/swprocess/array1d.py
index 0dd48f4..487e863 100644
--- a/swprocess/array1d.py
+++ b/swprocess/array1d.py
@@ -838,7 +838,7 @@ class Array1DwSource(Array1D):
         # TODO (jpv): Badly assume fnames_src is a properly formatted list.
         trace = obspy.read(str(fnames_src[0]))[src_channel]
         dt = trace.meta.delta
-        amp = trace.data
+        amp = np.array(trace.data, dtype=float)
         for fname in fnames_src[1:]:
             trace = obspy.read(str(fname))[src_channel]
             amp += trace.data
-- 
2.43.0


From 2d0585ea480ad16e6200a40b6578e3538808291b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:40 +0000
Subject: [PATCH 25/33] fix: the correlation window does not wrap around for
 short source records

---
 swprocess/array1d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/swprocess/array1d.py b/swprocess/array1d.py
index 487e863..d42609b 100644
--- a/swprocess/array1d.py
+++ b/swprocess/array1d.py
@@ -875,7 +875,7 @@ class Array1DwSource(Array1D):
         # start correlation at/near zero lag position.
         src_amp = self.source.amplitude
         idx_zero = self.source.nsamples
-        idx_min, idx_max = idx_zero+idx_dx_tmin, idx_zero+idx_dx_tmax
+        idx_min, idx_max = max(0, idx_zero+idx_dx_tmin), idx_zero+idx_dx_tmax
 
         sensors = []
         for sensor in self.sensors:
-- 
2.43.0


From 8600e23e1ecf0e360aed2c04b423069279cf3e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:43 +0000
Subject: [PATCH 26/33] fix: .max times and frequencies are matched whole and
 literally, and invalid rows are not counted

---
 swprocess/peaks.py |  8 +++++---
 swprocess/regex.py | 14 +++++++-------
 2 files changed, 12 insertions(+), 10 deletions(-)

diff --git a/swprocess/peaks.py b/swprocess/peaks.py
index f623073..d4247f8 100644
--- a/swprocess/peaks.py
+++ b/swprocess/peaks.py
@@ -17,6 +17,7 @@
 """Peaks class definition."""
 
 import json
+import re
 import warnings
 import logging
 
@@ -164,7 +165,7 @@ class Peaks():
             start_time, *_ = regex.search(peak_data).groups()
 
         if frequencies is None:
-            regex = get_peak_from_max(time=start_time, wavetype=wavetype)
+            regex = get_peak_from_max(time=re.escape(start_time), wavetype=wavetype)
             frequencies = []
             for match in regex.finditer(peak_data):
                 _, f, *_ = match.groups()
@@ -188,7 +189,8 @@ class Peaks():
         pwrs = np.full_like(frqs, fill_value=np.nan, dtype=float)
 
         for col, frequency in enumerate(frequencies):
-            getpeak = get_peak_from_max(time=start_time, frequency=frequency,
+            getpeak = get_peak_from_max(time=re.escape(start_time),
+                                        frequency=re.escape(frequency),
                                         wavetype=wavetype)
 
             for row, match in enumerate(getpeak.finditer(peak_data)):
@@ -202,7 +204,7 @@ class Peaks():
                 pwrs[row, col] = float(_pwr)
 
         # Include for "belt and suspenders".
-        getall = get_all(time=start_time, wavetype=wavetype)
+        getall = get_all(time=re.escape(start_time), wavetype=wavetype)
         count = len(getall.findall(peak_data))
         if np.sum(~np.isnan(frqs)) != count:  # pragma: no cover
             msg = f"Missing {count - len(frqs)} dispersion peaks."
diff --git a/swprocess/regex.py b/swprocess/regex.py
index a76b9cb..b6e2252 100644
--- a/swprocess/regex.py
+++ b/swprocess/regex.py
@@ -21,8 +21,8 @@ import re
 __all__ = ["get_peak_from_max", "get_nmaxima",  "get_all", "get_spac_ratio", "get_spac_ring"]
 
 DEFAULT_TIME = r"\d+\.?\d*"
-DEFAULT_FREQUENCY = r"-?\d+.?\d*[eE]?[+-]?\d*"
-NUMBER = r"-?\d+.?\d*[eE]?[+-]?\d*"
+DEFAULT_FREQUENCY = r"-?\d+\.?\d*[eE]?[+-]?\d*"
+NUMBER = r"-?\d+\.?\d*[eE]?[+-]?\d*"
 
 
 def get_peak_from_max(time=DEFAULT_TIME, frequency=DEFAULT_FREQUENCY, wavetype="rayleigh"):
@@ -44,7 +44,7 @@ def get_peak_from_max(time=DEFAULT_TIME, frequency=DEFAULT_FREQUENCY, wavetype="
     """
     # abs_time frequency polarization slowness azimuth ellipticity noise power valid
     wavetype = validate_wavetypes(wavetype)
-    pattern = f"({time}) ({frequency}) {wavetype} ({NUMBER}) ({NUMBER}) ({NUMBER}) ({NUMBER}|-?inf|nan) ({NUMBER}) 1"
+    pattern = rf"(?<!\S)({time}) ({frequency}) {wavetype} ({NUMBER}) ({NUMBER}) ({NUMBER}) ({NUMBER}|-?inf|nan) ({NUMBER}) 1(?!\S)"
     return re.compile(pattern)
 
 def get_geopsy_version():
@@ -52,7 +52,7 @@ def get_geopsy_version():
 
 def get_wavetype():
     space = r"(\S+)"
-    pattern = f"{DEFAULT_TIME} {DEFAULT_FREQUENCY} {space} {NUMBER} {NUMBER} {NUMBER} {NUMBER}|-?inf|nan {NUMBER} 1"
+    pattern = rf"(?<!\S){DEFAULT_TIME} {DEFAULT_FREQUENCY} {space} {NUMBER} {NUMBER} {NUMBER} (?:{NUMBER}|-?inf|nan) {NUMBER} [01](?!\S)"
     return re.compile(pattern)
 
 def get_process_type():
@@ -79,11 +79,11 @@ def get_all(wavetype=r"rayleigh", time=r"(\d+\.?\d*)"):
 
     """
     if wavetype is None:
-        pattern = f"{time} .* 1"
+        pattern = rf"(?<!\S){time} .* 1(?=\s*$)"
     else:
         wavetype = validate_wavetypes(wavetype)
-        pattern = f"{time} .* {wavetype} .* 1"
-    return re.compile(pattern)
+        pattern = rf"(?<!\S){time} .* {wavetype} .* 1(?=\s*$)"
+    return re.compile(pattern, re.MULTILINE)
 
 def validate_wavetypes(wavetype):
     if wavetype in ("rayleigh", "love", "vertical", "radial", "transverse"):
-- 
2.43.0


From 9cb68770e7924f30e755d3467671ec208b99a598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:38 +0000
Subject: [PATCH 27/33] fix: locations without any observation are dropped from
 the statistics

---
 swprocess/peakssuite.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/swprocess/peakssuite.py b/swprocess/peakssuite.py
index 764ca1b..3e2b648 100644
--- a/swprocess/peakssuite.py
+++ b/swprocess/peakssuite.py
@@ -715,15 +715,12 @@ class PeaksSuite():
     @staticmethod
     def _drop_indices(data_matrix, drop_if_fewer_percent, drop_if_fewer_count):
         """Iterate by row, return rejection indices."""
-        if data_matrix.size == 0:
-            return np.array([], dtype=int)
-
         drop_indices = []
         for index, row in enumerate(data_matrix):
             n_nan = np.sum(np.isnan(row))
             n_tot = len(row)
             n_num = n_tot - n_nan
-            p_num = n_num/n_tot
+            p_num = n_num/n_tot if n_tot > 0 else 0
             if n_num < drop_if_fewer_count or p_num < drop_if_fewer_percent:
                 drop_indices.append(index)
         return np.array(drop_indices, dtype=int)
-- 
2.43.0


From 298b8a96215e5eda29be5e182c50e67f6c3ac4c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:38 +0000
Subject: [PATCH 28/33] fix: frequency-wavenumber resolution limits have one
 ordinate per frequency

---
 swprocess/peakssuite.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/swprocess/peakssuite.py b/swprocess/peakssuite.py
index 3e2b648..1a14053 100644
--- a/swprocess/peakssuite.py
+++ b/swprocess/peakssuite.py
@@ -131,7 +131,7 @@ class PeaksSuite():
                 if ytype == "velocity":
                     y1, y2 = [xs*limit for limit in limits]
                 elif ytype == "wavenumber":
-                    y1, y2 = [np.ones_like(ys)*2*np.pi /
+                    y1, y2 = [np.ones_like(xs)*2*np.pi /
                               limit for limit in limits]
                 elif ytype == "slowness":
                     y1, y2 = [1/(xs*limit) for limit in limits]
@@ -141,7 +141,7 @@ class PeaksSuite():
                 if ytype == "velocity":
                     y1, y2 = [xs*np.pi*2/limit for limit in limits]
                 elif ytype == "wavenumber":
-                    y1, y2 = [np.ones_like(ys)*limit for limit in limits]
+                    y1, y2 = [np.ones_like(xs)*limit for limit in limits]
                 elif ytype == "slowness":
                     y1, y2 = [limit/(2*np.pi*xs) for limit in limits]
                 else:
-- 
2.43.0


From 54021833f48788928c78c6f7d247571468f55775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:04 +0000
Subject: [PATCH 29/33] fix: Statistics can be instantiated (misspelt dtype)

---
 swprocess/stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/swprocess/stats.py b/swprocess/stats.py
index 7c6e935..90b847d 100644
--- a/swprocess/stats.py
+++ b/swprocess/stats.py
@@ -30,7 +30,7 @@ class Statistics():
         self.xx = np.array(xx, dtype=float)
         self.mean = np.array(mean, dtype=float)
         self.stddev = np.array(stddev, dtype=float)
-        self.corr = np.array(corr, dytpe=float)
+        self.corr = np.array(corr, dtype=float)
 
     @classmethod
     def from_peakssuite(cls, peakssuite, xx, xtype="wavelength",
-- 
2.43.0


From 2fad3af46a13f5a942a343fa80be86af64262149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:04 +0000
Subject: [PATCH 30/33] fix: the search for dense regions ends at the last
 column

---
 swprocess/stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/swprocess/stats.py b/swprocess/stats.py
index 90b847d..a6b3770 100644
--- a/swprocess/stats.py
+++ b/swprocess/stats.py
@@ -290,7 +290,7 @@ class Statistics():
             else:  # pragma: no cover
                 raise ValueError("Iteration stopped without breaking.")
 
-            if c_row+1 == nrows and c_col+1 == ncols:
+            if c_col+1 == ncols:
                 break
             else:
                 s_col = int(c_col)+1
-- 
2.43.0


From 223ae13b1c8845bf5f1a55fbefe672538b1331e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:14 +0000
Subject: [PATCH 31/33] fix: rasterized image plots with matplotlib releases
 without ContourSet.collections

---
 swprocess/wavefieldtransforms.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/swprocess/wavefieldtransforms.py b/swprocess/wavefieldtransforms.py
index e494297..852281b 100644
--- a/swprocess/wavefieldtransforms.py
+++ b/swprocess/wavefieldtransforms.py
@@ -225,7 +225,8 @@ class AbstractWavefieldTransform(ABC):
                           np.linspace(0, np.max(self.power), 21),
                           cmap=mpl.colormaps[cmap])
         if rasterize:
-            for pathcoll in img.collections:
+            # Contour sets are a single artist in recent matplotlib.
+            for pathcoll in getattr(img, "collections", [img]):
                 pathcoll.set_rasterized(True)
 
         # Plot colorbar for image.
-- 
2.43.0


From cfb2a73d18ccc82b0a43fc7aca79be8171cfab64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:32:46 +0000
Subject: [PATCH 32/33] fix: interactive mute in a waterfall with positions
 relative to the first sensor

---
 swprocess/array1d.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/swprocess/array1d.py b/swprocess/array1d.py
index d42609b..04d1c5d 100644
--- a/swprocess/array1d.py
+++ b/swprocess/array1d.py
@@ -501,12 +501,17 @@ class Array1D():
         waterfall_kwargs = {**default_waterfall_kwargs, **waterfall_kwargs}
         _, ax = self.waterfall(**waterfall_kwargs)
 
+        # If positions are drawn relative to the first sensor, shift back.
+        shift = 0
+        if waterfall_kwargs.get("position_normalization", False):
+            shift = min(self.position())
+
         # Parse x, y to distance, time
         def parse(xs, ys, time_ax=waterfall_kwargs["time_ax"]):
             if time_ax == "y":
-                return ((xs[0], ys[0]), (xs[1], ys[1]))
+                return ((xs[0]+shift, ys[0]), (xs[1]+shift, ys[1]))
             else:
-                return ((ys[0], xs[0]), (ys[1], xs[1]))
+                return ((ys[0]+shift, xs[0]), (ys[1]+shift, xs[1]))
 
         # Define the start of the signal.
         if (mute_location == "before") or (mute_location == "both"):
-- 
2.43.0


From b6d5d806baf45b87d4d923d937994793a77df1c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:32:46 +0000
Subject: [PATCH 33/33] fix: interactive mute and manual picking on a given
 axes

---
 swprocess/array1d.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/swprocess/array1d.py b/swprocess/array1d.py
index 04d1c5d..9f6c60c 100644
--- a/swprocess/array1d.py
+++ b/swprocess/array1d.py
@@ -454,7 +454,11 @@ class Array1D():
         if waterfall_kwargs is None:
             waterfall_kwargs = {}
 
-        _, ax = self.waterfall(**waterfall_kwargs)
+        ax = waterfall_kwargs.get("ax")
+        if ax is None:
+            _, ax = self.waterfall(**waterfall_kwargs)
+        else:
+            self.waterfall(**waterfall_kwargs)
 
         pairs = self._ginput_session(ax, npts=np.inf)
 
@@ -499,7 +503,11 @@ class Array1D():
         if waterfall_kwargs is None:
             waterfall_kwargs = {}
         waterfall_kwargs = {**default_waterfall_kwargs, **waterfall_kwargs}
-        _, ax = self.waterfall(**waterfall_kwargs)
+        ax = waterfall_kwargs.get("ax")
+        if ax is None:
+            _, ax = self.waterfall(**waterfall_kwargs)
+        else:
+            self.waterfall(**waterfall_kwargs)
 
         # If positions are drawn relative to the first sensor, shift back.
         shift = 0
-- 
2.43.0

