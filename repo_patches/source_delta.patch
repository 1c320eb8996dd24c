From aeb08892d580e87012c11615cbde41a2d2c3f82b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:32 +0000
Subject: [PATCH 01/19] fix: zero_pad with a non-positive df leaves the record
 unchanged

---
 swprocess/activetimeseries.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/swprocess/activetimeseries.py b/swprocess/activetimeseries.py
index 0502f72..964fcba 100644
--- a/swprocess/activetimeseries.py
+++ b/swprocess/activetimeseries.py
@@ -255,9 +255,9 @@ class ActiveTimeSeries(TimeSeries):
         """
         df = float(df)
         logger.info(f"zero_pad(df={df})")
-        self._multiple = 1
         if df <= 0:
             raise ValueError(f"df must be positive, currently {df}.")
+        self._multiple = 1
 
         new_nsamples_float = 1/(df*self.dt)
         new_nsamples = int(round(new_nsamples_float))
-- 
2.43.0


From cbb60cb139f33dde2d246010765af06be079d93a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:04 +0000
Subject: [PATCH 02/19] fix: copies of trimmed or padded records keep delay and
 frequency step

---
 swprocess/activetimeseries.py | 14 ++++++++++----
 swprocess/sensor1c.py         | 14 +++++++-------
 2 files changed, 17 insertions(+), 11 deletions(-)

diff --git a/swprocess/activetimeseries.py b/swprocess/activetimeseries.py
index 964fcba..6e10f17 100644
--- a/swprocess/activetimeseries.py
+++ b/swprocess/activetimeseries.py
@@ -150,10 +150,16 @@ class ActiveTimeSeries(TimeSeries):
 
     @classmethod
     def from_activetimeseries(cls, activetimeseries):
-        return cls(activetimeseries.amplitude,
-                   activetimeseries.dt,
-                   nstacks=activetimeseries.nstacks,
-                   delay=activetimeseries.delay)
+        obj = cls(activetimeseries.amplitude,
+                  activetimeseries.dt,
+                  nstacks=activetimeseries.nstacks)
+        obj._copy_state(activetimeseries)
+        return obj
+
+    def _copy_state(self, other):
+        """Copy what trimming and padding may have changed in `other`."""
+        self._delay = other._delay
+        self._multiple = other._multiple
 
     @classmethod
     def from_trace_seg2(cls, trace):
diff --git a/swprocess/sensor1c.py b/swprocess/sensor1c.py
index 7b61624..70a8838 100644
--- a/swprocess/sensor1c.py
+++ b/swprocess/sensor1c.py
@@ -58,16 +58,16 @@ class Sensor1C(ActiveTimeSeries):
                    "x": float, "y": float, "z": float}
         args = [opr(getattr(sensor1c, arg)) for arg, opr in arg_map.items()]
 
-        kwarg_map = {"nstacks": int, "delay": float}
-        kwargs = {key: opr(getattr(sensor1c, key))
-                  for key, opr in kwarg_map.items()}
-        return cls(*args, **kwargs)
+        obj = cls(*args, nstacks=int(sensor1c.nstacks))
+        obj._copy_state(sensor1c)
+        return obj
 
     @classmethod
     def from_activetimeseries(cls, activetimeseries, x, y, z):
-        return cls(activetimeseries.amplitude, activetimeseries.dt, x, y, z,
-                   nstacks=activetimeseries.nstacks,
-                   delay=activetimeseries.delay)
+        obj = cls(activetimeseries.amplitude, activetimeseries.dt, x, y, z,
+                  nstacks=activetimeseries.nstacks)
+        obj._copy_state(activetimeseries)
+        return obj
 
     @classmethod
     def from_trace(cls, trace,
-- 
2.43.0


From fb2ecd6562073a278b544983de9d42cd8da6cb33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:22 +0000
Subject: [PATCH 03/19] fix: traces of a source at the last sensor are ordered
 near to far

---
 swprocess/array1d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/swprocess/array1d.py b/swprocess/array1d.py
index 7491c1f..f75bc05 100644
--- a/swprocess/array1d.py
+++ b/swprocess/array1d.py
@@ -237,7 +237,7 @@ class Array1D():
 
     @property
     def _flip_required(self):
-        return True if self.source.x > self.position(normalize=False)[-1] else False
+        return True if self.source.x >= self.position(normalize=False)[-1] else False
 
     def waterfall(self, ax=None, time_ax="y", amplitude_detrend=True,
                   amplitude_normalization="each", amplitude_scale=None,
-- 
2.43.0


From 42ee57f2fbc110933f235d60fbd18d02e8f73a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:23 +0000
Subject: [PATCH 04/19] fix: trim_offsets keeps in-range sensors beyond an
 out-of-range one

---
 swprocess/array1d.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/swprocess/array1d.py b/swprocess/array1d.py
index f75bc05..011dc0a 100644
--- a/swprocess/array1d.py
+++ b/swprocess/array1d.py
@@ -208,9 +208,6 @@ class Array1D():
             if (offset > min_offset) and (offset < max_offset):
                 sensors.append(sensor)
 
-            if (offset > max_offset):
-                break
-
         if len(sensors) == 0:
             msg = "Removing all sensors at offsets between "
             msg += f"{min_offset} and {max_offset}, results in no sensors."
-- 
2.43.0


From e63b2bc738672df282d489119f5376e21987f2cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:50 +0000
Subject: [PATCH 05/19] fix: receiver y is decoded from its own header when the
 scalar is positive

---
 swprocess/sensor1c.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/swprocess/sensor1c.py b/swprocess/sensor1c.py
index 70a8838..e8d5689 100644
--- a/swprocess/sensor1c.py
+++ b/swprocess/sensor1c.py
@@ -210,7 +210,7 @@ class Sensor1C(ActiveTimeSeries):
         x = round(x, -np.sign(scaleco) * int(np.log10(abs(scaleco))))
 
         int_y = cls._safely_get_header(header, "group_coordinate_y", 0, int)
-        y = int_y / abs(scaleco) if scaleco < 0 else int_x * scaleco
+        y = int_y / abs(scaleco) if scaleco < 0 else int_y * scaleco
         y = round(y, -np.sign(scaleco) * int(np.log10(abs(scaleco))))
 
         return cls.from_trace(trace,
@@ -260,7 +260,7 @@ class Sensor1C(ActiveTimeSeries):
         x = round(x, -np.sign(scaleco) * int(np.log10(abs(scaleco))))
 
         int_y = cls._safely_get_header(header, "group_coordinate_y", 0, int)
-        y = int_y / abs(scaleco) if scaleco < 0 else int_x * scaleco
+        y = int_y / abs(scaleco) if scaleco < 0 else int_y * scaleco
         y = round(y, -np.sign(scaleco) * int(np.log10(abs(scaleco))))
 
         return cls.from_trace(trace,
-- 
2.43.0


From fdcc1dac8f7d7d8adbaddf1b3414402dc6195b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:57 +0000
Subject: [PATCH 06/19] fix: SEG-Y files with a coordinate scalar of zero can
 be read

---
 swprocess/array1d.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/swprocess/array1d.py b/swprocess/array1d.py
index 011dc0a..5287d2f 100644
--- a/swprocess/array1d.py
+++ b/swprocess/array1d.py
@@ -702,6 +702,10 @@ class Array1D():
 
                 scaleco = int(
                     stats.segy.trace_header["scalar_to_be_applied_to_all_coordinates"])
+                if scaleco == 0:
+                    msg = "Resetting scale to be applied to all coordinates from zero to one."
+                    warnings.warn(msg)
+                    scaleco = 1
 
                 int_x = int(stats.segy.trace_header["source_coordinate_x"])
                 x = int_x / abs(scaleco) if scaleco < 0 else int_x * scaleco
-- 
2.43.0


From c6bd1e33b34dcd732c1686c1941e7514d7276f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:05 +0000
Subject: [PATCH 07/19] fix: stacked files use the same maps, options and trace
 pairing as the first

---
 swprocess/array1d.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/swprocess/array1d.py b/swprocess/array1d.py
index 5287d2f..bcddc3f 100644
--- a/swprocess/array1d.py
+++ b/swprocess/array1d.py
@@ -725,13 +725,17 @@ class Array1D():
             for fname in fnames[1:]:
                 with warnings.catch_warnings():
                     warnings.simplefilter("ignore")
-                    stream = obspy.read(str(fname))
+                    stream = obspy.read(str(fname), **obspy_read_kwargs)
                 nsource = parse_source(stream[0].stats)
                 if nsource != source:
                     msg = f"fname = {fname} has an incompatible source."
                     raise ValueError(msg)
-                for sensor, trace in zip(obj.sensors, stream.traces):
-                    new_sensor = Sensor1C.from_trace(trace)
+                nobj = cls([Sensor1C.from_trace(trace, map_x=map_x, map_y=map_y)
+                            for trace in stream.traces], nsource)
+                if nobj.nchannels != obj.nchannels:
+                    msg = f"fname = {fname} has an incompatible number of traces."
+                    raise ValueError(msg)
+                for sensor, new_sensor in zip(obj.sensors, nobj.sensors):
                     sensor.stack_append(new_sensor)
 
         return obj
-- 
2.43.0


From 927275c127e2d96ac7cb339671c4f47fe2351706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:26 +0000
Subject: [PATCH 08/19] fix: to_file writes the stack count it reads back

---
 swprocess/array1d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/swprocess/array1d.py b/swprocess/array1d.py
index bcddc3f..731fb2e 100644
--- a/swprocess/array1d.py
+++ b/swprocess/array1d.py
@@ -780,7 +780,7 @@ class Array1D():
             trace.stats.su.trace_header.source_coordinate_y = rint(
                 self.source._y*1000)
             trace.stats.su.trace_header.number_of_horizontally_stacked_traces_yielding_this_trace = rint(
-                sensor.nstacks-1)
+                sensor.nstacks)
             trace.stats.su.trace_header.delay_recording_time = rint(
                 sensor.delay*1000)
             trace.stats.su.trace_header.group_coordinate_x = rint(
-- 
2.43.0


From c60a8dc42fa23ba12a2750679d309470b0a949a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:41 +0000
Subject: [PATCH 09/19] fix: beamformer stores its 1x1 product as a scalar

---
 swprocess/wavefieldtransforms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/swprocess/wavefieldtransforms.py b/swprocess/wavefieldtransforms.py
index 6bda2cd..23e94df 100644
--- a/swprocess/wavefieldtransforms.py
+++ b/swprocess/wavefieldtransforms.py
@@ -651,7 +651,7 @@ class FDBF(AbstractWavefieldTransform):
                 steer[:, 0] = create_steering(kx)[:]
                 _power = np.dot(np.dot(np.transpose(np.conjugate(steer)),
                                        weighted_sscm), steer)
-                power[j, i] = _power
+                power[j, i] = _power[0, 0]
 
         return (frequencies, power)
 
-- 
2.43.0


From 53f745aed33410e477ad91497f2385d0546105ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:48 +0000
Subject: [PATCH 10/19] fix: fk leaves the caller's settings unchanged

---
 swprocess/wavefieldtransforms.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/swprocess/wavefieldtransforms.py b/swprocess/wavefieldtransforms.py
index 23e94df..4507371 100644
--- a/swprocess/wavefieldtransforms.py
+++ b/swprocess/wavefieldtransforms.py
@@ -717,7 +717,8 @@ class FK(FDBF):
 
     @classmethod
     def from_array(cls, array, settings):
-        settings["fdbf-specific"]["weighting"] = "none"
-        settings["fdbf-specific"]["steering"] = "plane"
+        settings = {**settings, "fdbf-specific": {**settings.get("fdbf-specific", {}),
+                                                  "weighting": "none",
+                                                  "steering": "plane"}}
 
         return super().from_array(array, settings)
-- 
2.43.0


From 0e822ff8c7fc61f025a57b7d427a6850668cfdc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:57 +0000
Subject: [PATCH 11/19] fix: signal-to-noise frequencies are those of the
 padded record's bins

---
 swprocess/snr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/swprocess/snr.py b/swprocess/snr.py
index e0033ee..6cc4af9 100644
--- a/swprocess/snr.py
+++ b/swprocess/snr.py
@@ -42,7 +42,7 @@ class SignaltoNoiseRatio():
 
         # Frequency vector
         sensor = noise[0]
-        frqs = np.arange(sensor.nsamples) * sensor.df
+        frqs = np.arange(sensor.nsamples) * sensor._df
         Empty = WavefieldTransformRegistry.create_class("empty")
         keep_ids = Empty._frequency_keep_ids(frqs, fmin, fmax, sensor.multiple)
         frequencies = frqs[keep_ids]
-- 
2.43.0


From da15f3ef2f2e1c6fbb2da7249403f4a3fbd9fd15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:12 +0000
Subject: [PATCH 12/19] fix: slant stack counts intercepts with the moveout it
 samples

---
 swprocess/wavefieldtransforms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/swprocess/wavefieldtransforms.py b/swprocess/wavefieldtransforms.py
index 4507371..b20c1e3 100644
--- a/swprocess/wavefieldtransforms.py
+++ b/swprocess/wavefieldtransforms.py
@@ -466,7 +466,7 @@ class SlantStack(AbstractWavefieldTransform):
         diff = diff.reshape((len(diff), 1))
         dt = array.sensors[0].dt
         npts = tmatrix.shape[1]
-        ntaus = npts - int(np.max(position)*np.max(1/velocities)/dt) - 1
+        ntaus = npts - int(np.max(np.max(position) / dt / velocities)) - 1
         slant_stack = np.empty((len(velocities), ntaus))
         rows = np.tile(np.arange(nchannels).reshape(nchannels, 1), (1, ntaus))
         cols = np.tile(np.arange(ntaus).reshape(1, ntaus), (nchannels, 1))
-- 
2.43.0


From e568ede3b955cf04287fd92319c03d009acc2045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:45 +0000
Subject: [PATCH 13/19] fix: from_dict leaves the caller's dictionary unchanged

---
 swprocess/peaks.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/swprocess/peaks.py b/swprocess/peaks.py
index 6a8f845..87be3fc 100644
--- a/swprocess/peaks.py
+++ b/swprocess/peaks.py
@@ -599,11 +599,8 @@ class Peaks():
             Initialized `Peaks` instance.
 
         """
-        valid = data_dict.get("valid")
-        try:
-            del data_dict["valid"]
-        except KeyError:
-            pass
+        data_dict = dict(data_dict)
+        valid = data_dict.pop("valid", None)
 
         obj = cls(identifier=identifier, **data_dict)
 
-- 
2.43.0


From 71e9682e2d54bb73be431d2f8d87a7b3f5ee58e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:53 +0000
Subject: [PATCH 14/19] fix: peak sets of different size never compare equal

---
 swprocess/peaks.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/swprocess/peaks.py b/swprocess/peaks.py
index 87be3fc..58ef533 100644
--- a/swprocess/peaks.py
+++ b/swprocess/peaks.py
@@ -667,10 +667,9 @@ class Peaks():
             except AttributeError:
                 return False
             else:
-                try:
-                    if not np.allclose(myattr, urattr, equal_nan=True):
-                        return False
-                except ValueError:
+                if myattr.shape != urattr.shape:
+                    return False
+                if not np.allclose(myattr, urattr, equal_nan=True):
                     return False
 
         return True
-- 
2.43.0


From 973f84fb21c95767057db8a0ee24902eec6f2b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:01 +0000
Subject: [PATCH 15/19] fix: wave type found in one max file does not carry
 over to the next

---
 swprocess/peakssuite.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/swprocess/peakssuite.py b/swprocess/peakssuite.py
index 3967d70..1736ab8 100644
--- a/swprocess/peakssuite.py
+++ b/swprocess/peakssuite.py
@@ -842,15 +842,16 @@ class PeaksSuite():
 
             regex = get_wavetype()
             wavetype_from_file = regex.search(peak_data).groups()[0]
+            file_wavetype = wavetype
             if wavetype == "rayleigh" and wavetype_from_file == "Vertical":
-                wavetype = "vertical"
+                file_wavetype = "vertical"
 
             regex = get_nmaxima()
             nmaxima = int(regex.search(peak_data).groups()[0])
             nmaxima = max(1, nmaxima)
             nmaxima = min(100, nmaxima)
 
-            regex = get_peak_from_max(wavetype=wavetype)
+            regex = get_peak_from_max(wavetype=file_wavetype)
             frequencies = []
             for match in regex.finditer(peak_data):
                 _, f, *_ = match.groups()
@@ -859,7 +860,7 @@ class PeaksSuite():
                 else:
                     frequencies.append(f)
 
-            regex = get_peak_from_max(wavetype=wavetype)
+            regex = get_peak_from_max(wavetype=file_wavetype)
             found_times = []
             for found in regex.finditer(peak_data):
                 start_time = found.groups()[0]
@@ -867,7 +868,7 @@ class PeaksSuite():
                     continue
                 found_times.append(start_time)
                 peak = Peaks._parse_peaks(peak_data,
-                                          wavetype=wavetype,
+                                          wavetype=file_wavetype,
                                           start_time=start_time,
                                           frequencies=frequencies,
                                           nmaxima=nmaxima)
-- 
2.43.0


From 2543a839ca2a32c632b2f1a2a35d3c06aa9306e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:20 +0000
Subject: [PATCH 16/19] fix: max-file lines are matched whole, by exact time,
 frequency and flag

---
 swprocess/peaks.py |  9 ++++++---
 swprocess/regex.py | 12 ++++++------
 2 files changed, 12 insertions(+), 9 deletions(-)

diff --git a/swprocess/peaks.py b/swprocess/peaks.py
index 58ef533..310d2ed 100644
--- a/swprocess/peaks.py
+++ b/swprocess/peaks.py
@@ -17,6 +17,7 @@
 """Peaks class definition."""
 
 import json
+import re
 import warnings
 import logging
 
@@ -164,7 +165,8 @@ class Peaks():
             start_time, *_ = regex.search(peak_data).groups()
 
         if frequencies is None:
-            regex = get_peak_from_max(time=start_time, wavetype=wavetype)
+            regex = get_peak_from_max(time=re.escape(start_time),
+                                      wavetype=wavetype)
             frequencies = []
             for match in regex.finditer(peak_data):
                 _, f, *_ = match.groups()
@@ -188,7 +190,8 @@ class Peaks():
         pwrs = np.full_like(frqs, fill_value=np.nan, dtype=float)
 
         for col, frequency in enumerate(frequencies):
-            getpeak = get_peak_from_max(time=start_time, frequency=frequency,
+            getpeak = get_peak_from_max(time=re.escape(start_time),
+                                        frequency=re.escape(frequency),
                                         wavetype=wavetype)
 
             for row, match in enumerate(getpeak.finditer(peak_data)):
@@ -202,7 +205,7 @@ class Peaks():
                 pwrs[row, col] = float(_pwr)
 
         # Include for "belt and suspenders".
-        getall = get_all(time=start_time, wavetype=wavetype)
+        getall = get_all(time=re.escape(start_time), wavetype=wavetype)
         count = len(getall.findall(peak_data))
         if np.sum(~np.isnan(frqs)) != count:  # pragma: no cover
             msg = f"Missing {count - len(frqs)} dispersion peaks."
diff --git a/swprocess/regex.py b/swprocess/regex.py
index a76b9cb..629bdaf 100644
--- a/swprocess/regex.py
+++ b/swprocess/regex.py
@@ -21,8 +21,8 @@ import re
 __all__ = ["get_peak_from_max", "get_nmaxima",  "get_all", "get_spac_ratio", "get_spac_ring"]
 
 DEFAULT_TIME = r"\d+\.?\d*"
-DEFAULT_FREQUENCY = r"-?\d+.?\d*[eE]?[+-]?\d*"
-NUMBER = r"-?\d+.?\d*[eE]?[+-]?\d*"
+NUMBER = r"-?\d+\.?\d*(?:[eE][+-]?\d+)?"
+DEFAULT_FREQUENCY = NUMBER
 
 
 def get_peak_from_max(time=DEFAULT_TIME, frequency=DEFAULT_FREQUENCY, wavetype="rayleigh"):
@@ -44,7 +44,7 @@ def get_peak_from_max(time=DEFAULT_TIME, frequency=DEFAULT_FREQUENCY, wavetype="
     """
     # abs_time frequency polarization slowness azimuth ellipticity noise power valid
     wavetype = validate_wavetypes(wavetype)
-    pattern = f"({time}) ({frequency}) {wavetype} ({NUMBER}) ({NUMBER}) ({NUMBER}) ({NUMBER}|-?inf|nan) ({NUMBER}) 1"
+    pattern = rf"(?<!\S)({time}) ({frequency}) {wavetype} ({NUMBER}) ({NUMBER}) ({NUMBER}) ({NUMBER}|-?inf|nan) ({NUMBER}) 1(?!\S)"
     return re.compile(pattern)
 
 def get_geopsy_version():
@@ -52,7 +52,7 @@ def get_geopsy_version():
 
 def get_wavetype():
     space = r"(\S+)"
-    pattern = f"{DEFAULT_TIME} {DEFAULT_FREQUENCY} {space} {NUMBER} {NUMBER} {NUMBER} {NUMBER}|-?inf|nan {NUMBER} 1"
+    pattern = rf"(?<!\S){DEFAULT_TIME} {DEFAULT_FREQUENCY} {space} {NUMBER} {NUMBER} {NUMBER} (?:{NUMBER}|-?inf|nan) {NUMBER} 1(?!\S)"
     return re.compile(pattern)
 
 def get_process_type():
@@ -79,10 +79,10 @@ def get_all(wavetype=r"rayleigh", time=r"(\d+\.?\d*)"):
 
     """
     if wavetype is None:
-        pattern = f"{time} .* 1"
+        pattern = rf"(?m)(?<!\S){time} .* 1[ \t]*$"
     else:
         wavetype = validate_wavetypes(wavetype)
-        pattern = f"{time} .* {wavetype} .* 1"
+        pattern = rf"(?m)(?<!\S){time} .* {wavetype} .* 1[ \t]*$"
     return re.compile(pattern)
 
 def validate_wavetypes(wavetype):
-- 
2.43.0


From f16a224243fc501b4c9c50149d42c45544a12d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:26 +0000
Subject: [PATCH 17/19] fix: mute applies the window options of the settings

---
 swprocess/maswworkflows.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/swprocess/maswworkflows.py b/swprocess/maswworkflows.py
index 8b4adc3..f5b16be 100644
--- a/swprocess/maswworkflows.py
+++ b/swprocess/maswworkflows.py
@@ -84,9 +84,12 @@ class AbstractMaswWorkflow(ABC):
         """Mute record in the time domain."""
         mute = self.settings["pre-processing"]["mute"]
         if mute["apply"]:
+            kwargs = {}
+            if mute.get("window_kwargs"):
+                kwargs["window_kwargs"] = mute["window_kwargs"]
             if self.signal_start is None and self.signal_end is None:
                 if mute["method"] == "interactive":
-                    self.signal_start, self.signal_end = self.array.interactive_mute()
+                    self.signal_start, self.signal_end = self.array.interactive_mute(**kwargs)
                 # TODO (jpv): Implement predefined times for muting.
                 else:
                     msg = f"mute type {mute['method']} is unknown, use 'interactive'."
@@ -94,8 +97,7 @@ class AbstractMaswWorkflow(ABC):
             else:
                 self.array.mute(signal_start=self.signal_start,
                                 signal_end=self.signal_end,
-                                window_kwargs=mute.get("window kwargs"),
-                                )
+                                **kwargs)
 
     def select_signal(self):
         """Select a portion of the record as signal."""
-- 
2.43.0


From 6113c6b08d3987788a77a0734181a018f493b49f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:32 +0000
Subject: [PATCH 18/19] fix: frequency-domain workflow accepts a single file
 name

---
 swprocess/maswworkflows.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/swprocess/maswworkflows.py b/swprocess/maswworkflows.py
index f5b16be..8acf55e 100644
--- a/swprocess/maswworkflows.py
+++ b/swprocess/maswworkflows.py
@@ -261,6 +261,9 @@ class FrequencyDomainMaswWorkflow(AbstractMaswWorkflow):
     """Stack in the frequency-domain."""
 
     def run(self):
+        if isinstance(self.fnames, str):
+            self.fnames = [self.fnames]
+
         example_array = Array1D.from_files(self.fnames[0],
                                            map_x=self.map_x,
                                            map_y=self.map_y)
-- 
2.43.0


From c11dceefef510a1ec7aa82dbff88c86c1a23f271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:42 +0000
Subject: [PATCH 19/19] fix: peaks of complex power are picked by magnitude

---
 swprocess/wavefieldtransforms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/swprocess/wavefieldtransforms.py b/swprocess/wavefieldtransforms.py
index b20c1e3..185181e 100644
--- a/swprocess/wavefieldtransforms.py
+++ b/swprocess/wavefieldtransforms.py
@@ -132,7 +132,7 @@ class AbstractWavefieldTransform(ABC):
 
         """
         if by == "frequency-maximum":
-            return self.velocities[np.argmax(self.power, axis=0)]
+            return self.velocities[np.argmax(np.abs(self.power), axis=0)]
         else:
             msg = f"find_peak_power by {by} not recognized, see docs for options."
             raise NotImplementedError(msg)
-- 
2.43.0

