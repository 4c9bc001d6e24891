From cac91f507159aff543a88701a639e023fb7937a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:13 +0000
Subject: [PATCH 001/124] fix: sweep_n returns N points even when the last one
 suffers from rounding

---
 spicelib/utils/sweep_iterators.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/spicelib/utils/sweep_iterators.py b/spicelib/utils/sweep_iterators.py
index 496b7a6..fa5edc3 100644
--- a/spicelib/utils/sweep_iterators.py
+++ b/spicelib/utils/sweep_iterators.py
@@ -97,7 +97,9 @@ def sweep_n(start: int | float, stop: int | float, N: int) -> Iterable[float]:
         >>> list(sweep_n(15, -15, 13))
         [15, 12.5, 10.0, 7.5, 5.0, 2.5, 0.0, -2.5, -5.0, -7.5, -10.0, -12.5, -15.0]
         """
-    return sweep(start, stop, (stop-start)/(N-1))
+    step = (stop-start)/(N-1)
+    # stopping half a step after the last point, so that rounding errors don't exclude it
+    return sweep(start, stop + step/2, step)
 
 
 class sweep_log(BaseIterator):
-- 
2.43.0


From 4d602a02485cacff783b4061510107e39734a3f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:50 +0000
Subject: [PATCH 002/124] fix: TraceRead.get_len returns the length of the
 requested step

---
 spicelib/raw/raw_classes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spicelib/raw/raw_classes.py b/spicelib/raw/raw_classes.py
index e070da0..e757e44 100644
--- a/spicelib/raw/raw_classes.py
+++ b/spicelib/raw/raw_classes.py
@@ -312,7 +312,7 @@ class TraceRead(DataSet):
         :param step: Optional parameter the step index.
         :return: The number of data points
         """
-        return self.axis.step_offset(step + 1)
+        return self.axis.step_offset(step + 1) - self.axis.step_offset(step)
 
     def __len__(self):
         """
-- 
2.43.0


From df7cad9e3f2af0e9a02645fc2b7b0186768edf27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:53 +0000
Subject: [PATCH 003/124] fix: looking up a position past the end of the axis
 raises IndexError

---
 spicelib/raw/raw_classes.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/spicelib/raw/raw_classes.py b/spicelib/raw/raw_classes.py
index e757e44..6169a2a 100644
--- a/spicelib/raw/raw_classes.py
+++ b/spicelib/raw/raw_classes.py
@@ -206,6 +206,7 @@ class Axis(DataSet):
                     raise IndexError("Time position is lower than t0")
                 frac = (t - timex[i - 1]) / (timex[i] - timex[i - 1])
                 return i - 1 + frac
+        raise IndexError("Time position is higher than the last point")
 
     def get_len(self, step: int = 0) -> int:
         """
-- 
2.43.0


From 537bf1d885a1c0c6508a3b7aa38b25f1f90930c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:56 +0000
Subject: [PATCH 004/124] fix: a stepped axis with more steps than expected
 raises SpiceReadException

---
 spicelib/raw/raw_classes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spicelib/raw/raw_classes.py b/spicelib/raw/raw_classes.py
index 6169a2a..34d1f02 100644
--- a/spicelib/raw/raw_classes.py
+++ b/spicelib/raw/raw_classes.py
@@ -104,7 +104,8 @@ class Axis(DataSet):
         k = 1
         while i < len(self.data):
             if self.data[i] == self.data[0]:
-                self.step_offsets[k] = i
+                if k < len(self.step_offsets):
+                    self.step_offsets[k] = i
                 k += 1
             i += 1
 
-- 
2.43.0


From c11cd9268656ca1ac7766f8fa396b90af04bcaf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:52 +0000
Subject: [PATCH 005/124] fix: positions can be looked up on a frequency axis
 that is stored as complex

---
 spicelib/raw/raw_classes.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/spicelib/raw/raw_classes.py b/spicelib/raw/raw_classes.py
index 34d1f02..9902337 100644
--- a/spicelib/raw/raw_classes.py
+++ b/spicelib/raw/raw_classes.py
@@ -197,7 +197,9 @@ class Axis(DataSet):
         if self.name == 'time':
             timex = self.get_time_axis(step)
         else:
-            timex = self.get_wave(step)
+            # the frequency axis can be stored as complex
+            timex = np.real(self.get_wave(step))
+            t = np.real(t)
         for i, x in enumerate(timex):
             if x == t:
                 return i
-- 
2.43.0


From 9ce9282732489cf0d43b723a91b1f64a270b8fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:55 +0000
Subject: [PATCH 006/124] fix: reading the axis again no longer replaces it by
 an ordinary trace

---
 spicelib/raw/plot_data.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/spicelib/raw/plot_data.py b/spicelib/raw/plot_data.py
index df53880..b9e25ee 100644
--- a/spicelib/raw/plot_data.py
+++ b/spicelib/raw/plot_data.py
@@ -612,6 +612,7 @@ class PlotData(PlotInterface):
                     # In Fast Accces mode, the data is already stored contiguously per trace
 
                     previous_data_size = 0
+                    axis_was_read = self._has_axis and self._axis is not None
                     start_index = 0
                     # Always read the axis first, if it exists and was not read before
                     if self._has_axis and self._trace_info and (self._axis is None):
@@ -635,9 +636,11 @@ class PlotData(PlotInterface):
                         if self._steps is not None:
                             self._axis.set_steps(self._steps)
 
-                    for trace_info in self._trace_info[start_index:]:
+                    for i, trace_info in enumerate(self._trace_info[start_index:], start_index):
                         data_size = np.dtype(trace_info.dtype).itemsize * self._nPoints
-                        if trace_info.name in list_of_traces:
+                        if i == 0 and axis_was_read:
+                            pass  # The axis is not read again, so that it remains an Axis
+                        elif trace_info.name in list_of_traces:
                             # read this trace
                             raw_file.seek(self._fpos_data + previous_data_size)  # Move to the beginning of the data section
                             raw_data = self._read_bytes_from_file(raw_file, data_size)
@@ -655,6 +658,7 @@ class PlotData(PlotInterface):
                     if self._verbose:
                         _logger.debug(f"{self._raw_filename} Binary RAW file with Normal access")
 
+                    axis_was_read = self._has_axis and self._axis is not None
                     # create the numpy num_type for the structured array
                     read_dtypes = []
                     for i, trace_info in enumerate(self._trace_info):
@@ -688,6 +692,8 @@ class PlotData(PlotInterface):
                             # Set the steps if they exist
                             if self._steps is not None:
                                 self._axis.set_steps(self._steps)
+                        elif i == 0 and axis_was_read:
+                            pass  # The axis is not read again, so that it remains an Axis
                         elif trace_info.name in list_of_traces:
                             trace_data = data[trace_info.name]
                             num_type = inv_dtype_map[trace_info.dtype]
-- 
2.43.0


From 3124865b1ada90b084f3eeee8be5aa1f0a9a0c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:58 +0000
Subject: [PATCH 007/124] fix: get_axis and get_len read the axis when no trace
 was read before

---
 spicelib/raw/plot_data.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/spicelib/raw/plot_data.py b/spicelib/raw/plot_data.py
index b9e25ee..ce53f62 100644
--- a/spicelib/raw/plot_data.py
+++ b/spicelib/raw/plot_data.py
@@ -791,7 +791,7 @@ class PlotData(PlotInterface):
         :raises RuntimeError: if the RAW file does not have an axis.
         :return: Array with the X axis
         """
-        if self._axis:
+        if self._has_axis:
             axis = self.get_trace(0)
             assert isinstance(axis, Axis), "This RAW file does not have an axis."
             return axis.get_wave(step)
@@ -805,6 +805,8 @@ class PlotData(PlotInterface):
         :param step: the step index, defaults to 0
         :return: The number of data points
         """
+        if self._has_axis and self._axis is None:
+            self.get_trace(0)  # the axis was not read yet
         if self._axis is None:
             # If there is no axis, the length is the number of points
             return self._nPoints
-- 
2.43.0


From dfc38e73a980caea446a25746c9370c6d365b9b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:34 +0000
Subject: [PATCH 008/124] fix: stepped RAW files without step information in a
 log, and stepped ASCII files, can be read

---
 spicelib/raw/plot_data.py | 31 ++++++++++++++++++++++---------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/spicelib/raw/plot_data.py b/spicelib/raw/plot_data.py
index ce53f62..3601455 100644
--- a/spicelib/raw/plot_data.py
+++ b/spicelib/raw/plot_data.py
@@ -319,15 +319,15 @@ class PlotData(PlotInterface):
                 self._load_step_information(raw_filename)
             except SpiceReadException as err:
                 _logger.warning(f"Plot nr. {self._plot_nr}: {str(err)}\nError in auto-detecting steps in '{raw_filename}'")
+                self._steps = None
                 if self._has_axis:
-                    number_of_steps = 0
-                    if self._axis is not None:
-                        for v in self._axis.data:
-                            if v == self._axis.data[0]:
-                                number_of_steps += 1
+                    if self._raw_type == 'binary:':
+                        self.read_trace_data([])  # reads the axis, as it is needed to find the steps
+                        self._set_steps_from_axis()
+                    else:
+                        self._steps = []  # will be set once the axis data is read
                 else:
-                    number_of_steps = self._nPoints
-                self._steps = [{'run': i + 1} for i in range(number_of_steps)]
+                    self._steps = [{'run': i + 1} for i in range(self._nPoints)]
 
         if self._verbose:
             _logger.info(f"Plot nr. {self._plot_nr}: Plot read successfully.")
@@ -342,6 +342,15 @@ class PlotData(PlotInterface):
                 _logger.debug(f"Plot nr. {self._plot_nr}: ASCII RAW File")
             self._read_ascii_vector(raw_file)
 
+    def _set_steps_from_axis(self):
+        """Numbers the steps by the number of times that the axis returns to its first value."""
+        number_of_steps = 0
+        for v in self._axis.data:
+            if v == self._axis.data[0]:
+                number_of_steps += 1
+        self._steps = [{'run': i + 1} for i in range(number_of_steps)]
+        self._axis.set_steps(self._steps)
+
     def _read_ascii_vector(self, raw_file):
         # Create the traces read vector
         for trace_info in self._trace_info:
@@ -356,8 +365,6 @@ class PlotData(PlotInterface):
                 # This is the axis trace
                 self._axis = Axis(trace_info.name, trace_info.var_type, self._nPoints,
                                   inv_dtype_map[trace_info.dtype], trace_data)
-                if self._steps is not None:
-                    self._axis.set_steps(self._steps)
                 self._read_traces[trace_info.name] = self._axis
             else:
                 # Create trace object
@@ -396,6 +403,12 @@ class PlotData(PlotInterface):
                 else:
                     self._read_traces[var.name].data[point] = float(value)
                 var_index += 1
+        # Set the steps if they exist, now that the axis data is known
+        if self._axis is not None and self._steps is not None:
+            if len(self._steps) == 0:
+                self._set_steps_from_axis()
+            else:
+                self._axis.set_steps(self._steps)
         # Remaining empty lines if exist are ignored
         while True:
             cursor = raw_file.tell()
-- 
2.43.0


From e3c7599823c8a8da8a1401894e15f0b9361b3259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:37 +0000
Subject: [PATCH 009/124] fix: export adds the axis even when it was not read
 before, and leaves the caller's list alone

---
 spicelib/raw/plot_data.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/spicelib/raw/plot_data.py b/spicelib/raw/plot_data.py
index 3601455..a749ab4 100644
--- a/spicelib/raw/plot_data.py
+++ b/spicelib/raw/plot_data.py
@@ -959,8 +959,9 @@ class PlotData(PlotInterface):
         if columns is None:
             columns = self.get_trace_names()  # if no columns are given, use all traces
         else:
-            if self._axis and self._axis.name not in columns:  # If axis is not in the list, add it
-                columns.insert(0, self._axis.name)
+            columns = list(columns)  # the list of the caller is not changed
+            if self._has_axis and self._trace_info[0].name not in columns:  # If axis is not in the list, add it
+                columns.insert(0, self._trace_info[0].name)
 
         if isinstance(step, list):
             steps_to_read = step  # If a list of steps is given, use it
-- 
2.43.0


From f46fc432a5c5d261a6d7fa226c56bb97fdd3586e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:40 +0000
Subject: [PATCH 010/124] fix: exporting stepped data without an axis gives one
 row per step

---
 spicelib/raw/plot_data.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/spicelib/raw/plot_data.py b/spicelib/raw/plot_data.py
index a749ab4..fbf6136 100644
--- a/spicelib/raw/plot_data.py
+++ b/spicelib/raw/plot_data.py
@@ -981,10 +981,13 @@ class PlotData(PlotInterface):
         self.read_trace_data(columns)
         for step in steps_to_read:
             for col in columns:
+                wave = self.get_wave(col, step)
+                if self._steps is not None and not self._has_axis:
+                    wave = wave[step:step + 1]  # Without an axis, there is one point per step
                 if col not in data:
-                    data[col] = self.get_wave(col, step)
+                    data[col] = wave
                 else:
-                    data[col] = np.concatenate((data[col], self.get_wave(col, step)))
+                    data[col] = np.concatenate((data[col], wave))
             if self._steps is not None and step < len(self._steps):
                 for col in step_columns:
                     if col not in data:
-- 
2.43.0


From 8db0bb9dfe3063abba165081bc323738f8eabbae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:47 +0000
Subject: [PATCH 011/124] fix: characters of several bytes in the header of a
 RAW file are decoded

---
 spicelib/raw/plot_data.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/spicelib/raw/plot_data.py b/spicelib/raw/plot_data.py
index fbf6136..aed0b91 100644
--- a/spicelib/raw/plot_data.py
+++ b/spicelib/raw/plot_data.py
@@ -161,24 +161,25 @@ class PlotData(PlotInterface):
 
         # Read the header section of the RAW file
 
-        line = ""
+        line = b""
+        new_line = '\n'.encode(self._encoding)
         while True:
-            ch = raw_file.read(sz_enc).decode(encoding=self._encoding, errors='replace')
+            ch = raw_file.read(sz_enc)
             if len(ch) == 0:
                 # End of file reached
                 if self._verbose:
                     _logger.warning(f"Plot nr. {self._plot_nr}: End of file reached while reading the header.")
                 # will raise an exception later
                 break
-            if ch == '\n':
+            if ch == new_line:
                 # read one line. must remove the \r
                 # if self._encoding == 'utf_8':  # no idea why utf_16_le would not need that, but this 'if' was here
-                line = line.rstrip('\r')
+                line = line.decode(encoding=self._encoding, errors='replace').rstrip('\r')
                 self.header.append(line)
                 if line.lower() in ('binary:', 'values:'):
                     self._raw_type = line.lower()
                     break
-                line = ""
+                line = b""
             else:
                 line += ch
         self._fpos_data = raw_file.tell()  # File position of the data section, used to skip the header when reading the data.
-- 
2.43.0


From da5ff9279b77627789c78b8902c4d3b499c3ed3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:04 +0000
Subject: [PATCH 012/124] fix: reading all traces reads those of each plot, not
 those of the first one

---
 spicelib/raw/raw_read.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spicelib/raw/raw_read.py b/spicelib/raw/raw_read.py
index 20f837b..f8ac2c1 100644
--- a/spicelib/raw/raw_read.py
+++ b/spicelib/raw/raw_read.py
@@ -319,7 +319,8 @@ class RawRead(PlotInterface):
             # if traces_to_read is '*', read all traces
             if isinstance(traces_to_read, str):
                 if traces_to_read == '*':
-                    traces_to_read = self.get_trace_names()  # * means all traces
+                    plot.read_trace_data(plot.get_trace_names())  # * means all traces
+                    continue
                 else:
                     traces_to_read = [name.strip() for name in traces_to_read.split(',')]
             elif not isinstance(traces_to_read, (list, tuple)):
-- 
2.43.0


From 0511db530dc93ff8b0a4071b4cbbe057990b7d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:06 +0000
Subject: [PATCH 013/124] fix: a frequency trace can start an AC RAW file
 without giving the plot name

---
 spicelib/raw/raw_write.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spicelib/raw/raw_write.py b/spicelib/raw/raw_write.py
index 3b14e7a..a8fe784 100644
--- a/spicelib/raw/raw_write.py
+++ b/spicelib/raw/raw_write.py
@@ -118,7 +118,7 @@ class RawWrite:
                 self.plot_name = self.plot_name or 'Transient Analysis'
                 flag_numtype = 'real'
             elif trace.whattype == 'frequency':
-                if (trace.numerical_type != 'complex' and self.flag_numtype != 'complex') or 'Noise' in self.plot_name:
+                if (trace.numerical_type != 'complex' and self.flag_numtype != 'complex') or 'Noise' in (self.plot_name or ''):
                     self.plot_name = self.plot_name or 'Noise Spectral Density - (V/Hz½ or A/Hz½)'
                     flag_numtype = 'real'
                 else:
-- 
2.43.0


From e721aaf4a64ae7bd51aa3aadb32bb5f7300e7ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:58 +0000
Subject: [PATCH 014/124] fix: RAW files are written with the sample types and
 the layout their header announces

---
 spicelib/raw/raw_write.py | 31 +++++++++++++++++--------------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/spicelib/raw/raw_write.py b/spicelib/raw/raw_write.py
index a8fe784..f5399e0 100644
--- a/spicelib/raw/raw_write.py
+++ b/spicelib/raw/raw_write.py
@@ -28,7 +28,7 @@ from time import strftime
 
 from .raw_read import RawRead
 from .raw_classes import DataSet
-from numpy import array, float32, zeros
+from numpy import array, complex128, float32, float64, zeros
 
 
 class Trace(DataSet):
@@ -103,6 +103,15 @@ class RawWrite:
             flags.append('fastaccess')
         return ' '.join(flags)
 
+    def _storage_type(self, index: int):
+        """Numpy type of the samples of the trace with this index, as given by the flags and the plot name."""
+        if 'complex' in self.flag_numtype.lower() or (self.plot_name or '').lower() == 'ac analysis':
+            return complex128
+        elif index == 0 or 'double' in self.flag_numtype.lower():
+            return float64
+        else:
+            return float32
+
     def add_trace(self, trace: Trace):
         """
         Adds a trace to the RAW file. The trace needs to have the same size as trace 0 ('time', 'frequency', etc..)
@@ -165,15 +174,15 @@ class RawWrite:
             f.write(f"\t{i}\t{trace.name}\t{trace.whattype}\n".encode(self.encoding))
         total_bytes = 0
         f.write("Binary:\n".encode(self.encoding))
-        if self.flag_fastaccess and self.flag_numtype != 'complex':  # Don't know why, but complex RAW files aren't
-            # converted to FastAccess
-            for trace in self._traces:
-                f.write(trace.data.tobytes())
+        # The samples are stored in the types that the header announces
+        all_data = [trace.data.astype(self._storage_type(i), copy=False) for i, trace in enumerate(self._traces)]
+        if self.flag_fastaccess:
+            for data in all_data:
+                total_bytes += f.write(data.tobytes())
         else:
-            fmts = {trace: tobytes_for_trace(trace) for trace in self._traces}
             for i in range(len(self._traces[0])):
-                for trace in self._traces:
-                    total_bytes += f.write(fmts[trace](trace.data[i]))
+                for data in all_data:
+                    total_bytes += f.write(data[i].tobytes())
         f.close()
 
     @staticmethod
@@ -369,9 +378,3 @@ class RawWrite:
     def __getitem__(self, item):
         """Helper function to access traces by using the [ ] operator."""
         return self.get_trace(item)
-
-
-def tobytes_for_trace(trace: Trace):
-    def tobytes(value):
-        return value.tobytes()
-    return tobytes
-- 
2.43.0


From ee9609128bd7a80c1425ff169af6b92a42462411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:42 +0000
Subject: [PATCH 015/124] fix: aligned traces keep their step, their source is
 left alone, and existing traces follow the new axis

---
 spicelib/raw/raw_classes.py |  3 ++-
 spicelib/raw/raw_write.py   | 32 ++++++++++++++++++--------------
 2 files changed, 20 insertions(+), 15 deletions(-)

diff --git a/spicelib/raw/raw_classes.py b/spicelib/raw/raw_classes.py
index 9902337..41120e9 100644
--- a/spicelib/raw/raw_classes.py
+++ b/spicelib/raw/raw_classes.py
@@ -175,7 +175,8 @@ class Axis(DataSet):
         :param step: step index, defaults to 0
         :returns: Value of the data point
         """
-        return self.data[n + self.step_offset(step)]
+        point = self.data[n + self.step_offset(step)]
+        return np.abs(point) if self.name == 'time' else point
 
     def __getitem__(self, item) -> float | complex:
         """This is only here for compatibility with previous code. """
diff --git a/spicelib/raw/raw_write.py b/spicelib/raw/raw_write.py
index f5399e0..ecd2f92 100644
--- a/spicelib/raw/raw_write.py
+++ b/spicelib/raw/raw_write.py
@@ -28,7 +28,7 @@ from time import strftime
 
 from .raw_read import RawRead
 from .raw_classes import DataSet
-from numpy import array, complex128, float32, float64, zeros
+from numpy import array, array_equal, complex128, float32, float64, real, zeros
 
 
 class Trace(DataSet):
@@ -284,8 +284,9 @@ class RawWrite:
             if self._new_axis:
                 my_axis = self._new_axis
             else:
-                my_axis = self._traces[0].get_wave()
-            other_axis = other.get_axis(from_step)
+                my_axis = real(self._traces[0].get_wave())
+            other_axis = real(other.get_axis(from_step))
+            descending = len(my_axis) > 1 and my_axis[-1] < my_axis[0]
             new_axis = []
             if minimum_timestep > 0.0:
                 raise NotImplementedError
@@ -295,12 +296,14 @@ class RawWrite:
 
                 while e < len(my_axis)-1 and i < len(other_axis)-1:
                     error = other_axis[i] - my_axis[e]
+                    if descending:
+                        error = -error
                     if abs(error) < admissible_error:
                         new_axis.append(my_axis[e])
                         i += 1
                         e += 1
                     elif error < 0:
-                        # Other axis is smaller
+                        # Other axis comes first
                         new_axis.append(other_axis[i])
                         i += 1
                     else:
@@ -312,8 +315,7 @@ class RawWrite:
                 for trace_name in trace_filter:
                     imported_trace = other.get_trace(trace_name)
                     new_name = self._rename_netlabel(trace_name, **kwargs)
-                    imported_trace.name = new_name
-                    self._imported_data.append(imported_trace)
+                    self._imported_data.append((new_name, imported_trace, imported_trace.get_wave(from_step), other_axis))
         else:
             assert len(self._traces[0]) == len(other.get_axis(from_step)), \
                 "The two instances should have the same size. To avoid this use force_axis_alignment=True option"
@@ -326,12 +328,16 @@ class RawWrite:
     @staticmethod
     def _interpolate(trace_data, trace_axis, new_axis: array):
         new_data = zeros(len(new_axis), dtype=trace_data.dtype)
-        new_data[0] = trace_data[0]
+        last = len(trace_axis) - 1
+        if last == 0:
+            new_data[:] = trace_data[0]
+            return new_data
 
+        descending = trace_axis[last] < trace_axis[0]
         slope = (trace_data[1] - trace_data[0])/(trace_axis[1] - trace_axis[0])
         i = 1
         for j, t in enumerate(new_axis):
-            while trace_axis[i] < t:
+            while i < last and (trace_axis[i] > t if descending else trace_axis[i] < t):
                 i += 1
                 slope = (trace_data[i] - trace_data[i-1])/(trace_axis[i] - trace_axis[i-1])
             new_data[j] = trace_data[i-1] + slope * (t - trace_axis[i-1])
@@ -340,15 +346,13 @@ class RawWrite:
     def _consolidate(self):
         if self._new_axis and self._imported_data:
             new_axis = self._new_axis
-            axis_length = len(new_axis)
             old_axis = self._traces[0]
-            if axis_length != len(old_axis):
-                my_axis = old_axis.data
+            my_axis = real(old_axis.data)
+            if not array_equal(new_axis, my_axis):
                 for trace in self._traces[1:]:
                     trace.data = self._interpolate(trace.data, my_axis, new_axis)
-            for imported_trace in self._imported_data:
-                new_trace = Trace(imported_trace.name,
-                                  self._interpolate(imported_trace.get_wave(), imported_trace.axis.get_wave(), new_axis),
+            for new_name, imported_trace, data, axis in self._imported_data:
+                new_trace = Trace(new_name, self._interpolate(data, axis, new_axis),
                                   imported_trace.whattype, imported_trace.numerical_type)
                 self._traces.append(new_trace)
             self._traces[0] = Trace(old_axis.name, new_axis,
-- 
2.43.0


From d2d88425396da3fb87134ab24baf7eafb6779e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:48 +0000
Subject: [PATCH 016/124] fix: ASCII RAW files in UTF-16 can be read

---
 spicelib/raw/plot_data.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/spicelib/raw/plot_data.py b/spicelib/raw/plot_data.py
index aed0b91..ce0cc9c 100644
--- a/spicelib/raw/plot_data.py
+++ b/spicelib/raw/plot_data.py
@@ -378,7 +378,10 @@ class PlotData(PlotInterface):
         for point in range(self._nPoints):
             var_index = 0
             while var_index < len(self._trace_info):
-                line = raw_file.readline().decode(encoding=self._encoding, errors='ignore')
+                line_bytes = raw_file.readline()
+                if self._encoding == 'utf_16_le':
+                    line_bytes += raw_file.read(1)  # the second byte of the newline character
+                line = line_bytes.decode(encoding=self._encoding, errors='ignore')
                 if len(line) == 0:
                     raise SpiceReadException(
                         f"Invalid RAW file. Plot nr. {self._plot_nr}: Invalid data: end of file encountered too early")
-- 
2.43.0


From df1d5f588f06ec0122164a1575f82c0327660a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:44 +0000
Subject: [PATCH 017/124] fix: the aliases Freq and Omega of QSPICE AC files
 can be read and exported

---
 spicelib/raw/plot_data.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spicelib/raw/plot_data.py b/spicelib/raw/plot_data.py
index ce0cc9c..5196bca 100644
--- a/spicelib/raw/plot_data.py
+++ b/spicelib/raw/plot_data.py
@@ -203,7 +203,7 @@ class PlotData(PlotInterface):
                     self._spice_params[k.strip()] = v.strip()
                 elif line.startswith('.alias'):
                     # This is a parameter line which format as the following pattern ".alias I(R2) (0.0001mho*V(n01,out))"
-                    _, alias, formula = line.split(' ', 3)
+                    _, alias, formula = line.split(' ', 2)
                     self._aliases[alias.strip()] = formula.strip()
             else:
                 # This is the typical RAW style parameter format <param>: <value>
@@ -588,7 +588,7 @@ class PlotData(PlotInterface):
         elif alias.startswith('V('):
             whattype = 'voltage'
         else:
-            raise NotImplementedError(f'Unrecognized alias type for alias : "{alias}"')
+            whattype = 'param'  # ex: "Freq" and "Omega" on AC simulations
         trace = TraceRead(alias, whattype, self._nPoints, self._axis, 'double')
         local_vars = {'pi': 3.1415926536, 'e': 2.7182818285}  # This is the dictionary that will be used to compute the alias
         local_vars.update({name: scan_eng(value) for name, value in self._spice_params.items()})
-- 
2.43.0


From 58b37e0601c20ccf3aa829b4031efca7f3574597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:18 +0000
Subject: [PATCH 018/124] fix: an ASCII RAW file with several plots no longer
 hangs the reader

---
 spicelib/raw/plot_data.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/spicelib/raw/plot_data.py b/spicelib/raw/plot_data.py
index 5196bca..7248e0e 100644
--- a/spicelib/raw/plot_data.py
+++ b/spicelib/raw/plot_data.py
@@ -416,10 +416,11 @@ class PlotData(PlotInterface):
         # Remaining empty lines if exist are ignored
         while True:
             cursor = raw_file.tell()
-            line = raw_file.readline().strip()
-            if len(line) != 0:
+            line = raw_file.readline()
+            if len(line) == 0:
+                break  # end of the file
+            if len(line.strip()) != 0:
                 raw_file.seek(cursor)  # go back to the beginning of the line
-            else:
                 break
         if self._verbose:
             _logger.debug(f"Plot nr {self._plot_nr}: ASCII data read successfully.")
-- 
2.43.0


From 659e8f2ad8f39245cb81230a801304ba4cee309d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:39 +0000
Subject: [PATCH 019/124] fix: arguments for pandas.DataFrame no longer select
 the exported steps

---
 spicelib/raw/plot_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spicelib/raw/plot_data.py b/spicelib/raw/plot_data.py
index 7248e0e..165d142 100644
--- a/spicelib/raw/plot_data.py
+++ b/spicelib/raw/plot_data.py
@@ -1018,7 +1018,7 @@ class PlotData(PlotInterface):
         except ImportError:
             raise ImportError("The 'pandas' module is required to use this function.\n"
                               "Use 'pip install pandas' to install it.")
-        data = self.export(columns=columns, step=step, **kwargs)
+        data = self.export(columns=columns, step=step)  # the kwargs are for pandas, they don't select steps
         return pd.DataFrame(data, **kwargs)
 
     def to_csv(self, filename: str | Path, columns: list[str] | None = None, step: int | list[int] = -1,
-- 
2.43.0


From 67e0b312960c3c62eec7fc910d7f6b74346276d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:42 +0000
Subject: [PATCH 020/124] fix: column names that contain the separator are
 quoted in the CSV file

---
 spicelib/raw/plot_data.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/spicelib/raw/plot_data.py b/spicelib/raw/plot_data.py
index 165d142..ba026f6 100644
--- a/spicelib/raw/plot_data.py
+++ b/spicelib/raw/plot_data.py
@@ -1048,7 +1048,9 @@ class PlotData(PlotInterface):
             # Export to CSV using python built-in functions
             data = self.export(columns=columns, step=step)
             with open(filename, 'w') as f:
-                f.write(separator.join(data.keys()) + '\n')
+                # names such as V(a,b) are quoted when they contain the separator
+                f.write(separator.join('"' + col.replace('"', '""') + '"' if separator in col or '"' in col else col
+                                       for col in data.keys()) + '\n')
                 firstcolumn = list(data.keys())[0]
                 for i in range(len(data[firstcolumn])):
                     f.write(separator.join([str(data[col][i]) for col in data.keys()]) + '\n')
-- 
2.43.0


From 06c93d58f414b735f3c01803c00201f8699556b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:45 +0000
Subject: [PATCH 021/124] fix: raw_convert exports the traces that were
 requested

---
 spicelib/scripts/raw_convert.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/spicelib/scripts/raw_convert.py b/spicelib/scripts/raw_convert.py
index 66e8121..1c401f5 100644
--- a/spicelib/scripts/raw_convert.py
+++ b/spicelib/scripts/raw_convert.py
@@ -108,11 +108,12 @@ def main():
         print("Reading traces: ", found_traces)
 
     else:
+        found_traces = None  # all of them
         raw_data = RawRead(rawfile, traces, dialect=options.dialect, verbose=options.verbose)
 
     # Output the file
     if options.output is None:
-        data = raw_data.export()
+        data = raw_data.export(columns=found_traces)
 
         text = options.separator.join(data.keys()) + '\n'
         data_size = len(data[data.__iter__().__next__()])
@@ -127,11 +128,11 @@ def main():
     else:
         if options.output.endswith(".csv"):
             print("Writing CSV file...", end="")
-            raw_data.to_csv(options.output, separator=options.separator, index=False)
+            raw_data.to_csv(options.output, columns=found_traces, separator=options.separator, index=False)
             print("Done")
         elif options.output.endswith(".xlsx"):
             print("Writing Excel file...", end="")
-            raw_data.to_excel(options.output, index=False)
+            raw_data.to_excel(options.output, columns=found_traces, index=False)
             print("Done")
         else:
             print("Error: Unknown output format. Valid formats are '.csv' and '.xlsx'")
-- 
2.43.0


From 47af069353042544c8130726c848b8531a41b441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:19 +0000
Subject: [PATCH 022/124] fix: the suffix meg means 1e6 in any letter case

---
 spicelib/utils/float_unit.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/spicelib/utils/float_unit.py b/spicelib/utils/float_unit.py
index e2deee9..41801a6 100644
--- a/spicelib/utils/float_unit.py
+++ b/spicelib/utils/float_unit.py
@@ -63,12 +63,12 @@ def parse_value(value, accept_invalid):
                 i += 1
 
             if i < l:  # Still has characters to consume
-                if value[i] in _MULT:
+                if value[i:].upper().startswith('MEG'):  # to support Spice like qualifier 'MEG', in any case
+                    multiplier = 1E+6
+                    i += 3
+                elif value[i] in _MULT:
                     multiplier = _MULT[value[i]]
-                    if value[i:].upper().startswith('MEG'):  # to support Spice like qualifier 'MEG'
-                        i += 3
-                    else:
-                        i += 1
+                    i += 1
                 elif value[i].upper() == 'R':  # This supports the format 4R7
                     i += 1
                     unit = 'Ω'
-- 
2.43.0


From 87686a29967fb5d40cde23ca59290becd53aadf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:55 +0000
Subject: [PATCH 023/124] fix: names such as j, inf or nan are not numbers

---
 spicelib/editor/primitives.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/spicelib/editor/primitives.py b/spicelib/editor/primitives.py
index d37a4ea..d1cd156 100644
--- a/spicelib/editor/primitives.py
+++ b/spicelib/editor/primitives.py
@@ -14,6 +14,8 @@ def try_value(token: str) -> ValueType:
     try:
         value = to_float(token, accept_invalid=False)
     except ValueError as err:
+        if not any(c.isdigit() for c in token):
+            return token  # 'j', 'inf' or 'nan' are names
         try:
             return complex(token)
         except ValueError:
-- 
2.43.0


From 5413c5d2e668b5273a8100e8478919ed10f54c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:27 +0000
Subject: [PATCH 024/124] fix: a parameter that is added and then updated is
 one entry in the list of updates, and updates_on R1 leaves R10 out

---
 spicelib/editor/updates.py | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/spicelib/editor/updates.py b/spicelib/editor/updates.py
index 4e0688c..9186624 100644
--- a/spicelib/editor/updates.py
+++ b/spicelib/editor/updates.py
@@ -29,6 +29,21 @@ class UpdateType(enum.Enum):
     CloneSubcircuit = enum.auto()
 
 
+# Setting a parameter is the same update whether or not the parameter existed before.
+_ITEM_UPDATES = (
+    (UpdateType.UpdateParameter, UpdateType.AddParameter),
+    (UpdateType.UpdateComponentParameter, UpdateType.AddComponentParameter),
+)
+
+
+def _same_item(one: UpdateType, other: UpdateType) -> bool:
+    """Whether two update types of the same name are updates of the same item"""
+    for item_updates in _ITEM_UPDATES:
+        if one in item_updates and other in item_updates:
+            return True
+    return one == other
+
+
 @dataclasses.dataclass
 class Update:
     """An object containing an update element."""
@@ -102,7 +117,7 @@ class Updates:
         for update in self.netlist_updates:
             if (update.name == name and
                     (name != "INSTRUCTION" or value == update.value) and  # if instruction then it should match
-                    (update.updates == updates or updates == UpdateType.InvalidUpdate)):
+                    (_same_item(update.updates, updates) or updates == UpdateType.InvalidUpdate)):
                 break
         else:
             update = Update(name, value, updates)
@@ -127,4 +142,6 @@ class Updates:
         return None
 
     def updates_on(self, name: str) -> list[Update]:
-        return [update for update in self.netlist_updates if update.name.startswith(name)]
+        """Get the updates done to an item, to its parameters, or, if it is a sub-circuit, inside it."""
+        return [update for update in self.netlist_updates
+                if update.name == name or update.name.startswith(f"{name}:")]
-- 
2.43.0


From e638954820b55d86952439377f4a56f572ca0c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:41 +0000
Subject: [PATCH 025/124] fix: the list of updates ignores the case of names,
 as the netlist does

---
 spicelib/editor/updates.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/spicelib/editor/updates.py b/spicelib/editor/updates.py
index 9186624..aecf4a0 100644
--- a/spicelib/editor/updates.py
+++ b/spicelib/editor/updates.py
@@ -44,6 +44,11 @@ def _same_item(one: UpdateType, other: UpdateType) -> bool:
     return one == other
 
 
+def _same_name(one: str, other: str) -> bool:
+    """Names of components and parameters are case-insensitive in SPICE"""
+    return one.upper() == other.upper()
+
+
 @dataclasses.dataclass
 class Update:
     """An object containing an update element."""
@@ -99,7 +104,7 @@ class Updates:
         elif isinstance(item, str):
             # Try to get it by name
             for update in self.netlist_updates:
-                if update.name == item:
+                if _same_name(update.name, item):
                     return update
             raise IndexError(f"The item {item} doesn't exit.")
         else:
@@ -115,7 +120,7 @@ class Updates:
     def add_update(self, name: str, value: UpdateValueType, updates: UpdateType):
         """Add an update to the list"""
         for update in self.netlist_updates:
-            if (update.name == name and
+            if (_same_name(update.name, name) and
                     (name != "INSTRUCTION" or value == update.value) and  # if instruction then it should match
                     (_same_item(update.updates, updates) or updates == UpdateType.InvalidUpdate)):
                 break
@@ -130,18 +135,18 @@ class Updates:
     def value(self, reference) -> UpdateValueType:
         "Get the value update done to a component. Returns None if there wasn't any update."
         for update in self.netlist_updates:
-            if update.updates == UpdateType.UpdateComponentValue and update.name == reference:
+            if update.updates == UpdateType.UpdateComponentValue and _same_name(update.name, reference):
                 return update.value
         return None
 
     def parameter(self, name) -> UpdateValueType:
         "Get the update done to a parameter. Returns None if there wasn't any update."
         for update in self.netlist_updates:
-            if update.updates in (UpdateType.UpdateParameter, UpdateType.AddParameter) and name == update.name:
+            if update.updates in (UpdateType.UpdateParameter, UpdateType.AddParameter) and _same_name(name, update.name):
                 return update.value
         return None
 
     def updates_on(self, name: str) -> list[Update]:
         """Get the updates done to an item, to its parameters, or, if it is a sub-circuit, inside it."""
         return [update for update in self.netlist_updates
-                if update.name == name or update.name.startswith(f"{name}:")]
+                if _same_name(update.name, name) or update.name.upper().startswith(f"{name.upper()}:")]
-- 
2.43.0


From e46fe23ff8ecc8763acce1536ded764d920a1226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:31 +0000
Subject: [PATCH 026/124] fix: ports follow the labels they belong to when a
 schematic is reset, copied or scaled

---
 spicelib/editor/base_schematic.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/spicelib/editor/base_schematic.py b/spicelib/editor/base_schematic.py
index d856984..02fae2e 100644
--- a/spicelib/editor/base_schematic.py
+++ b/spicelib/editor/base_schematic.py
@@ -299,6 +299,7 @@ class BaseSchematic(BaseEditor):
         self.wires.clear()
         self.labels.clear()
         self.directives.clear()
+        self.ports.clear()
         self.lines.clear()
         self.shapes.clear()
         self.canvas_updated = False
@@ -309,7 +310,8 @@ class BaseSchematic(BaseEditor):
         from copy import deepcopy
         self.components = deepcopy(editor.components)
         self.wires = deepcopy(editor.wires)
-        self.labels = deepcopy(editor.labels)
+        # A port refers to the label it belongs to, so they are copied together
+        self.labels, self.ports = deepcopy((editor.labels, editor.ports))
         self.directives = deepcopy(editor.directives)
         self.lines = deepcopy(editor.lines)
         self.shapes = deepcopy(editor.shapes)
@@ -356,6 +358,9 @@ class BaseSchematic(BaseEditor):
         :param position: The new position of the component
         :param rotation: The new rotation of the component
         """
+        sub_circuit, ref = self._get_parent(reference)
+        if sub_circuit != self:  # The component is in a subcircuit
+            return sub_circuit.set_component_position(ref, position, rotation)
         comp = self.get_component(reference)
         comp.position = position
         comp.rotation = rotation
@@ -397,6 +402,8 @@ class BaseSchematic(BaseEditor):
             directive.coord.X = round_fun(directive.coord.X * scale_x + offset_x)
             directive.coord.Y = round_fun(directive.coord.Y * scale_y + offset_y)
         for port in self.ports:
+            if any(port.text is label for label in self.labels):
+                continue  # The text of the port is a label, so it was already scaled
             port.text.coord.X = round_fun(port.text.coord.X * scale_x + offset_x)
             port.text.coord.Y = round_fun(port.text.coord.Y * scale_y + offset_y)
         for line in self.lines:
-- 
2.43.0


From 9d8cb4128ab21435c83d48984d3b1b2a82e0f7f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:49 +0000
Subject: [PATCH 027/124] fix: IOPIN lines, vertical text and line widths of a
 schematic are written back

---
 spicelib/editor/asc_editor.py    | 15 ++++++++-------
 spicelib/editor/ltspice_utils.py |  2 +-
 2 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/spicelib/editor/asc_editor.py b/spicelib/editor/asc_editor.py
index 8514f08..cc080c4 100644
--- a/spicelib/editor/asc_editor.py
+++ b/spicelib/editor/asc_editor.py
@@ -264,6 +264,9 @@ class AscEditor(BaseSchematic, BaseSubCircuit):
                 asc.write(f"WIRE {wire.V1.X} {wire.V1.Y} {wire.V2.X} {wire.V2.Y}" + END_LINE_TERM)
             for flag in self.labels:
                 asc.write(f"FLAG {flag.coord.X} {flag.coord.Y} {flag.text}" + END_LINE_TERM)
+                for port in self.ports:
+                    if port.text is flag:
+                        asc.write(f"IOPIN {flag.coord.X} {flag.coord.Y} {port.direction}" + END_LINE_TERM)
             for component in self.components.values():
                 symbol = component.symbol
                 posX = component.position.X
@@ -299,11 +302,11 @@ class AscEditor(BaseSchematic, BaseSubCircuit):
                 asc.write(f"TEXT {posX} {posY} {alignment} {size} {directive_type}{directive.text}" + END_LINE_TERM)
             for line in self.lines:
                 line_style = f' {line.style.pattern}' if line.style.pattern != "" else ""
-                asc.write(f"LINE Normal {line.V1.X} {line.V1.Y} {line.V2.X} {line.V2.Y}{line_style}" + END_LINE_TERM)
+                asc.write(f"LINE {line.style.width or 'Normal'} {line.V1.X} {line.V1.Y} {line.V2.X} {line.V2.Y}{line_style}" + END_LINE_TERM)
             for shape in self.shapes:
                 line_style = f' {shape.line_style.pattern}' if shape.line_style.pattern != "" else ""
                 points = " ".join([f"{point.X} {point.Y}" for point in shape.points])
-                asc.write(f"{shape.name} Normal {points}{line_style}" + END_LINE_TERM)
+                asc.write(f"{shape.name} {shape.line_style.width or 'Normal'} {points}{line_style}" + END_LINE_TERM)
 
         finally:
             if not isinstance(run_netlist_file, io.StringIO):
@@ -422,11 +425,13 @@ class AscEditor(BaseSchematic, BaseSubCircuit):
                     y2 = int(line_elements[5])
                     if line.startswith("LINE"):
                         line = Line(Point(x1, y1), Point(x2, y2))
+                        line.style.width = line_elements[1]
                         if len(line_elements) == 7:
                             line.style.pattern = line_elements[6]
                         self.lines.append(line)
                     if line_elements[0] in ("RECTANGLE", "CIRCLE"):
                         shape = Shape(line_elements[0], [Point(x1, y1), Point(x2, y2)])
+                        shape.line_style.width = line_elements[1]
                         if len(line_elements) == 7:
                             shape.line_style.pattern = line_elements[6]
                         self.shapes.append(shape)
@@ -439,6 +444,7 @@ class AscEditor(BaseSchematic, BaseSubCircuit):
                     assert len(line_elements) in (10, 11), "Syntax Error, line badly formatted"
                     points = [Point(int(line_elements[i]), int(line_elements[i + 1])) for i in range(2, 9, 2)]
                     arc = Shape("ARC", points)
+                    arc.line_style.width = line_elements[1]
                     if len(line_elements) == 11:
                         arc.line_style.pattern = line_elements[10]
                     self.shapes.append(arc)
@@ -527,11 +533,6 @@ class AscEditor(BaseSchematic, BaseSubCircuit):
         component = self.get_component(reference)
         return component.position, component.rotation
 
-    def set_component_position(self, reference: str, position: Point, rotation: ERotation) -> None:
-        component = self.get_component(reference)
-        component.position = position
-        component.rotation = rotation
-
     def _get_param_named(self, param_name):
         param_name_uppercase = param_name.upper()
         search_expression = re.compile(PARAM_REGEX(r"\w+"), re.IGNORECASE)
diff --git a/spicelib/editor/ltspice_utils.py b/spicelib/editor/ltspice_utils.py
index 1bbf178..a1f67b7 100644
--- a/spicelib/editor/ltspice_utils.py
+++ b/spicelib/editor/ltspice_utils.py
@@ -27,7 +27,7 @@ __copyright__ = "Copyright 2024, Fribourg Switzerland"
 
 # Regular expressions
 TEXT_REGEX = re.compile(
-    r"TEXT (-?\d+)\s+(-?\d+)\s+V?(Left|Right|Top|Bottom|Center|Invisible)\s(\d+)\s*(?P<type>[!;])(?P<text>.*)",
+    r"TEXT (-?\d+)\s+(-?\d+)\s+(V?(?:Left|Right|Top|Bottom|Center|Invisible))\s(\d+)\s*(?P<type>[!;])(?P<text>.*)",
     re.IGNORECASE
 )
 
-- 
2.43.0


From f1a9e9620c506a2d64a38219bbda347a9abe8782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:12 +0000
Subject: [PATCH 028/124] fix: setting or removing a schematic component
 parameter leaves the other settings of its line as they were written

---
 spicelib/editor/asc_editor.py | 87 +++++++++++++++++------------------
 1 file changed, 43 insertions(+), 44 deletions(-)

diff --git a/spicelib/editor/asc_editor.py b/spicelib/editor/asc_editor.py
index cc080c4..dd08239 100644
--- a/spicelib/editor/asc_editor.py
+++ b/spicelib/editor/asc_editor.py
@@ -155,53 +155,46 @@ class AscComponent(SchematicComponent):
                 value_str = value.strip()
             else:
                 value_str = format_eng(value)
-            params = self.get_parameters(as_dicts=True)
-            if key in params:
-                # I only have the LTSPICE_PARAMETERS as keys here, so when I match, I can overwrite
-                # I do not support delete here, as some of the keys are mandatory
-                self.attributes[key] = value_str
-                _logger.info(f"Component {self.reference} updated with parameter {key}:{value}")
-                update_type = UpdateType.UpdateComponentParameter
+            if key in LTSPICE_PARAMETERS:
+                # one of the attributes of the component
+                if value_str is not None:
+                    self.attributes[key] = value_str
+                    update_type = UpdateType.UpdateComponentParameter
+                elif key != "Value" and key in self.attributes:
+                    del self.attributes[key]
+                    update_type = UpdateType.DeleteComponentParameter
+                else:
+                    # the Value is mandatory, and what isn't there can't be removed
+                    _logger.warning(f"Component {self.reference} parameter {key} can't be removed")
+                    continue
             else:
-                foundme = False
-                # not found: look in the second level dicts
+                # one of the settings that are written on the SpiceLine or on the SpiceLine2
+                # Only its own text is changed, so that the rest of the line stays as it was written
+                regex = re.compile(r'(?<![^\s,])%s\s*=\s*(\{[^}]*\}|"[^"]*"|[^\s,=]+)' % re.escape(key))
                 for param_key in LTSPICE_PARAMETERS_REDUCED:
-                    if param_key in params:
-                        if key in params[param_key]:
-                            # found in the dict
-                            # update the dict
-                            if value_str is None:
-                                # remove if empty
-                                params[param_key].pop(key)
-                                update_type = UpdateType.DeleteComponentParameter
-                            else:
-                                params[param_key][key] = value_str
-                                update_type = UpdateType.UpdateComponentParameter
-                            # and make the line out of the dict
-                            self.attributes[param_key] = ' '.join([f'{p_key}={p_value}' for p_key, p_value in params[param_key].items()])
-                            _logger.info(f"Component {self.reference} updated with parameter {key}:{value_str}")
-                            foundme = True
-                if not foundme:
-                    if value_str is not None:
-                        # don't add if there's nothing to add
-                        if key in LTSPICE_PARAMETERS:
-                            # known parameter, set the value
-                            self.attributes[key] = value_str
-                            _logger.info(f"Component {self.reference} updated with parameter {key}:{value_str}")
-                            update_type = UpdateType.UpdateComponentParameter
+                    line = self.attributes.get(param_key, '')
+                    match = regex.search(line)
+                    if match is None:
+                        continue
+                    if value_str is None:
+                        line = line[:match.start()].rstrip() + line[match.end():]
+                        if line.strip():
+                            self.attributes[param_key] = line.strip()
                         else:
-                            # nothing found, and not a known parameter, put it in SpiceLine
-                            param_key = LTSPICE_PARAMETERS_REDUCED[0]
-                            if param_key in params:
-                                # if SpiceLine exists: add to the dict
-                                params[param_key][key] = value_str
-                                # and make the line out of the dict
-                                self.attributes[param_key] = ' '.join([f'{p_key}={p_value}' for p_key, p_value in params[param_key].items()])
-                            else:
-                                # if SpiceLine does not exist: create the line
-                                self.attributes[param_key] = f'{key}={value_str}'
-                            update_type = UpdateType.AddComponentParameter
-                            _logger.info(f"Component {self.reference} added parameter {key}:{value_str}")
+                            del self.attributes[param_key]
+                        update_type = UpdateType.DeleteComponentParameter
+                    else:
+                        self.attributes[param_key] = line[:match.start(1)] + value_str + line[match.end(1):]
+                        update_type = UpdateType.UpdateComponentParameter
+                    break
+                else:
+                    if value_str is None:
+                        continue  # nothing to remove
+                    # nothing found, and not a known parameter, put it in SpiceLine
+                    param_key = LTSPICE_PARAMETERS_REDUCED[0]
+                    self.attributes[param_key] = f"{self.attributes.get(param_key, '')} {key}={value_str}".strip()
+                    update_type = UpdateType.AddComponentParameter
+            _logger.info(f"Component {self.reference} updated with parameter {key}:{value_str}")
             parent.end_update(f"{self.reference}:{key}", value_str, update_type)
 
 
@@ -618,8 +611,14 @@ class AscEditor(BaseSchematic, BaseSubCircuit):
             return component.set_value(value)
 
     def set_element_model(self, element: str, model: str) -> None:
+        sub_circuit, ref = self._get_parent(element)
+        if sub_circuit != self:  # The component is in a subcircuit
+            return sub_circuit.set_element_model(ref, model)
         component = self.get_component(element)
+        if self.begin_update() == UpdatePermission.Deny:
+            raise PermissionError(f"Update of Component {element} Model {model} denied")
         component.symbol = model
+        self.end_update(component.reference, model, UpdateType.UpdateComponentValue)
         _logger.info(f"Component {element} updated to {model}")
 
     def get_component_value(self, element: str) -> str:
-- 
2.43.0


From a5d06efa418201daf055d9ea1bc10c0bb542a29b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:23 +0000
Subject: [PATCH 029/124] fix: a parameter written on both lines of a schematic
 component is updated on both

---
 spicelib/editor/asc_editor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spicelib/editor/asc_editor.py b/spicelib/editor/asc_editor.py
index dd08239..0d4470d 100644
--- a/spicelib/editor/asc_editor.py
+++ b/spicelib/editor/asc_editor.py
@@ -171,6 +171,7 @@ class AscComponent(SchematicComponent):
                 # one of the settings that are written on the SpiceLine or on the SpiceLine2
                 # Only its own text is changed, so that the rest of the line stays as it was written
                 regex = re.compile(r'(?<![^\s,])%s\s*=\s*(\{[^}]*\}|"[^"]*"|[^\s,=]+)' % re.escape(key))
+                update_type = None
                 for param_key in LTSPICE_PARAMETERS_REDUCED:
                     line = self.attributes.get(param_key, '')
                     match = regex.search(line)
@@ -186,8 +187,7 @@ class AscComponent(SchematicComponent):
                     else:
                         self.attributes[param_key] = line[:match.start(1)] + value_str + line[match.end(1):]
                         update_type = UpdateType.UpdateComponentParameter
-                    break
-                else:
+                if update_type is None:
                     if value_str is None:
                         continue  # nothing to remove
                     # nothing found, and not a known parameter, put it in SpiceLine
-- 
2.43.0


From cb5bb425101b66b248de8f3385a329da3fd4f268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:27 +0000
Subject: [PATCH 030/124] fix: a symbol found for one schematic isn't used for
 a schematic of another directory

---
 spicelib/editor/asc_editor.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/spicelib/editor/asc_editor.py b/spicelib/editor/asc_editor.py
index 0d4470d..e105967 100644
--- a/spicelib/editor/asc_editor.py
+++ b/spicelib/editor/asc_editor.py
@@ -728,8 +728,10 @@ class AscEditor(BaseSchematic, BaseSubCircuit):
         return file_found
 
     def _asy_file_find(self, filename) -> str | None:
-        if filename in self.symbol_cache:
-            return self.symbol_cache[filename]
+        # The directory of the schematic is searched first, so what was found for one isn't valid for another
+        key = (str(self.circuit_file.parent), filename)
+        if key in self.symbol_cache:
+            return self.symbol_cache[key]
         _logger.info(f"Searching for symbol {filename}...")
         # create list of directories to search, based on the simulator_lib_paths. Just add "/sym" to the path
         my_lib_paths = [os.path.join(x, "sym") for x in self.simulator_lib_paths]
@@ -741,7 +743,7 @@ class AscEditor(BaseSchematic, BaseSubCircuit):
                                                *self.custom_lib_paths
                                                )
         if file_found is not None:
-            self.symbol_cache[filename] = file_found
+            self.symbol_cache[key] = file_found
         return file_found
 
     def add_instruction(self, instruction: str) -> None:
-- 
2.43.0


From 31139a0b83952711ed2326ab032404491e7a8a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:09 +0000
Subject: [PATCH 031/124] fix: attributes and parameters set on a schematic
 component are saved with the schematic

---
 spicelib/editor/asc_editor.py | 14 ++++++++++++++
 spicelib/editor/primitives.py |  2 +-
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/spicelib/editor/asc_editor.py b/spicelib/editor/asc_editor.py
index e105967..94b0c80 100644
--- a/spicelib/editor/asc_editor.py
+++ b/spicelib/editor/asc_editor.py
@@ -118,6 +118,9 @@ class AscComponent(SchematicComponent):
         return parameters
 
 
+    def set_parameter(self, key: str, value: float | str):
+        self.set_parameters(**{key: value})
+
     def set_parameters(self, **kwargs) -> None:
         """
         Sets the parameters of a component that are related with Spice operation.
@@ -621,6 +624,17 @@ class AscEditor(BaseSchematic, BaseSubCircuit):
         self.end_update(component.reference, model, UpdateType.UpdateComponentValue)
         _logger.info(f"Component {element} updated to {model}")
 
+    def set_component_attribute(self, reference: str, attribute: str, value: str) -> None:
+        # docstring inherited from BaseSubCircuit
+        sub_circuit, ref = self._get_parent(reference)
+        if sub_circuit != self:  # The component is in a subcircuit
+            return sub_circuit.set_component_attribute(ref, attribute, value)
+        component = self.get_component(reference)
+        if self.begin_update() == UpdatePermission.Deny:
+            raise PermissionError(f"Update of Component {reference} Attribute {attribute} denied")
+        component.attributes[attribute] = value
+        self.end_update(f"{component.reference}:{attribute}", value, UpdateType.UpdateComponentParameter)
+
     def get_component_value(self, element: str) -> str:
         component = self.get_component(element)
         value_str = component.get_value_str()
diff --git a/spicelib/editor/primitives.py b/spicelib/editor/primitives.py
index d1cd156..08157fd 100644
--- a/spicelib/editor/primitives.py
+++ b/spicelib/editor/primitives.py
@@ -213,7 +213,7 @@ class Component(Primitive):
         if key in VALUE_IDs:
             if isinstance(value, str):
                 value = to_float(value, accept_invalid=True)
-            self.attributes['value'] = value
+            self.set_value(value)
         else:
             self.set_parameter(key, value)
 
-- 
2.43.0


From bf048a15a3a99cea2e055f689566a1ae6da6f867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:26 +0000
Subject: [PATCH 032/124] fix: a schematic component parameter with a list of
 values is replaced as a whole

---
 spicelib/editor/asc_editor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spicelib/editor/asc_editor.py b/spicelib/editor/asc_editor.py
index 94b0c80..0e3b440 100644
--- a/spicelib/editor/asc_editor.py
+++ b/spicelib/editor/asc_editor.py
@@ -173,7 +173,7 @@ class AscComponent(SchematicComponent):
             else:
                 # one of the settings that are written on the SpiceLine or on the SpiceLine2
                 # Only its own text is changed, so that the rest of the line stays as it was written
-                regex = re.compile(r'(?<![^\s,])%s\s*=\s*(\{[^}]*\}|"[^"]*"|[^\s,=]+)' % re.escape(key))
+                regex = re.compile(r'(?<![^\s,])%s\s*=\s*(\{[^}]*\}|"[^"]*"|[^\s,=]+(?:,[^\s,=]+(?![^\s,=]*\s*=))*)' % re.escape(key))
                 update_type = None
                 for param_key in LTSPICE_PARAMETERS_REDUCED:
                     line = self.attributes.get(param_key, '')
-- 
2.43.0


From 00d0273b3774fad3952ca757c6f61a177f00defe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:30 +0000
Subject: [PATCH 033/124] fix: QSCH texts with a colon, or with quotes inside
 of a token, are parsed as one token

---
 spicelib/editor/qsch_editor.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/spicelib/editor/qsch_editor.py b/spicelib/editor/qsch_editor.py
index f5e4c8f..84d804d 100644
--- a/spicelib/editor/qsch_editor.py
+++ b/spicelib/editor/qsch_editor.py
@@ -177,7 +177,7 @@ def decap(s: str) -> str:
 
 def smart_split(s):
     """Splits a string into chunks based on spaces. What is inside "" is not divided."""
-    return re.findall(r'[^"\s]+|"[^"]*"', s)
+    return re.findall(r'(?:[^"\s]|"[^"]*")+', s)
 
 
 class QschReadingError(IOError):
@@ -211,9 +211,11 @@ class QschTag:
         i0 = i
         while i < len(stream):
             if stream[i] == '«':
+                self.tokens.extend(smart_split(stream[i0:i]))
                 child, i = QschTag.parse(stream, i)
-                i0 = i + 1
+                i0 = i
                 self.items.append(child)
+                continue
             elif stream[i] == '"':
                 # get all characters until the next " sign
                 i += 1
@@ -231,11 +233,11 @@ class QschTag:
         else:
             raise OSError("Missing » when reading file")
         line = stream[i0:i]
-        # Now dividing the
-        if ': ' in line:
-            name, text = line.split(': ')
-            self.tokens.append(name + ":")
-            self.tokens.append(text)
+        # Now dividing the line. A label is followed by a free text that goes until the end of the tag
+        label = re.match(r'([^"():]*): ', line)
+        if label:
+            self.tokens.append(label.group(1) + ":")
+            self.tokens.append(line[label.end():])
         else:
             self.tokens.extend(smart_split(line))
         return self, stop
@@ -310,7 +312,7 @@ class QschTag:
         if isinstance(value, int):
             value_str = str(value)
         elif isinstance(value, str):
-            if value.startswith('0x'):
+            if value.startswith('0x') and not self.tokens[index].startswith('"'):
                 value_str = value
             else:
                 value_str = f'"{value}"'
-- 
2.43.0


From dfae424a1fd5edc153da4cb97e469157787044dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:33 +0000
Subject: [PATCH 034/124] fix: the position of a QSCH component is set with any
 rotation, mirrored or not, and is saved

---
 spicelib/editor/qsch_editor.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/spicelib/editor/qsch_editor.py b/spicelib/editor/qsch_editor.py
index 84d804d..3ca02a6 100644
--- a/spicelib/editor/qsch_editor.py
+++ b/spicelib/editor/qsch_editor.py
@@ -546,11 +546,9 @@ class QschComponent(SchematicComponent):
             pass
         else:
             raise ValueError("Invalid position object")
-        if isinstance(rotation, ERotation):
-            rot = rotation.value / 45
-        elif isinstance(rotation, int):
+        if isinstance(rotation, int):  # The ERotation is also an int
             rot = (rotation % 360) // 45
-            if mirror:
+            if mirror or (isinstance(rotation, ERotation) and rotation >= ERotation.M0):
                 rot += 8
         else:
             raise ValueError("Invalid rotation parameter")
@@ -558,7 +556,8 @@ class QschComponent(SchematicComponent):
         comp_tag.set_attr(QSCH_COMPONENT_POS, (position.X, position.Y))
         comp_tag.set_attr(QSCH_COMPONENT_ROTATION, rot)
         self.position = position
-        self.rotation = rotation if isinstance(rotation, ERotation) else ERotation(rotation)
+        self.rotation = ERotation(rot * 45)
+        self.parent.canvas_updated = True # pyright: ignore[reportOptionalMemberAccess]
 
 
 class QschEditor(BaseSchematic, BaseSubCircuit):
-- 
2.43.0


From 6e3002a56868d38780a0d1387e8109ac01d21888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:36 +0000
Subject: [PATCH 035/124] fix: removed components and added instructions of a
 QSCH file are recorded, and empty texts are skipped

---
 spicelib/editor/asc_editor.py  |  3 +--
 spicelib/editor/qsch_editor.py | 35 ++++++++++++++++++----------------
 2 files changed, 20 insertions(+), 18 deletions(-)

diff --git a/spicelib/editor/asc_editor.py b/spicelib/editor/asc_editor.py
index 0e3b440..7a5cb3c 100644
--- a/spicelib/editor/asc_editor.py
+++ b/spicelib/editor/asc_editor.py
@@ -773,8 +773,7 @@ class AscEditor(BaseSchematic, BaseSubCircuit):
                     i += 1
                     continue  # this is a comment
                 directive_text = directive.text.strip()
-                directive_command = directive_text.split()[0].upper()
-                if directive_command in UNIQUE_SIMULATION_DOT_INSTRUCTIONS:
+                if directive_text and directive_text.split()[0].upper() in UNIQUE_SIMULATION_DOT_INSTRUCTIONS:
                     self.begin_update()
                     self.directives[i].text = instruction
                     _logger.info(f"Instruction {directive_text} updated to {instruction}")
diff --git a/spicelib/editor/qsch_editor.py b/spicelib/editor/qsch_editor.py
index 3ca02a6..169f291 100644
--- a/spicelib/editor/qsch_editor.py
+++ b/spicelib/editor/qsch_editor.py
@@ -772,7 +772,7 @@ class QschEditor(BaseSchematic, BaseSubCircuit):
         text_tags = self.schematic.get_items('text')
         for text_tag in text_tags:
             lines: str = text_tag.get_attr(QSCH_TEXT_STR_ATTR) # pyright: ignore[reportAssignmentType]
-            lines = lines.lstrip(QSCH_TEXT_INSTR_QUALIFIER)
+            lines = lines.removeprefix(QSCH_TEXT_INSTR_QUALIFIER)
             for line in lines.split('\\n'):
                 if text_tag.get_attr(QSCH_TEXT_COMMENT) != 1:  # Comments are not written to the netlist
                     netlist_file.write(line.strip() + '\n')
@@ -1004,7 +1004,7 @@ class QschEditor(BaseSchematic, BaseSubCircuit):
                 type_text = TextTypeEnum.COMMENT
             elif text.startswith(QSCH_TEXT_INSTR_QUALIFIER):
                 type_text = TextTypeEnum.DIRECTIVE
-                text = text.lstrip(QSCH_TEXT_INSTR_QUALIFIER)  # Eliminates the qualifer from the text.
+                text = text.removeprefix(QSCH_TEXT_INSTR_QUALIFIER)  # Eliminates the qualifer from the text.
             else:
                 type_text = TextTypeEnum.NULL
 
@@ -1041,7 +1041,7 @@ class QschEditor(BaseSchematic, BaseSubCircuit):
             if tag.get_attr(QSCH_TEXT_COMMENT) == 1:  # if it is a comment, we ignore it
                 continue
             line: str = tag.get_attr(QSCH_TEXT_STR_ATTR) # pyright: ignore[reportAssignmentType]
-            line = line.lstrip(QSCH_TEXT_INSTR_QUALIFIER)
+            line = line.removeprefix(QSCH_TEXT_INSTR_QUALIFIER)
             if line.upper().startswith('.PARAM'):
                 for match in param_regex.finditer(line):
                     if match.group("name").upper() == param_name_upped:
@@ -1058,7 +1058,7 @@ class QschEditor(BaseSchematic, BaseSubCircuit):
             if tag.get_attr(QSCH_TEXT_COMMENT) == 1:  # if it is a comment, we ignore it
                 continue
             line: str = tag.get_attr(QSCH_TEXT_STR_ATTR) # pyright: ignore[reportAssignmentType]
-            line = line.lstrip(QSCH_TEXT_INSTR_QUALIFIER)
+            line = line.removeprefix(QSCH_TEXT_INSTR_QUALIFIER)
             if line.upper().startswith('.PARAM'):
                 matches = param_regex.finditer(line)
                 for match in matches:
@@ -1113,8 +1113,9 @@ class QschEditor(BaseSchematic, BaseSubCircuit):
             _logger.debug(f"Parameter {param} found in QSCH file, updating it")
             text: str = tag.get_attr(QSCH_TEXT_STR_ATTR) # pyright: ignore[reportAssignmentType]
             start, stop = match.span("value")
-            start += len(QSCH_TEXT_INSTR_QUALIFIER)
-            stop += len(QSCH_TEXT_INSTR_QUALIFIER)
+            if text.startswith(QSCH_TEXT_INSTR_QUALIFIER):  # The match was done without it
+                start += len(QSCH_TEXT_INSTR_QUALIFIER)
+                stop += len(QSCH_TEXT_INSTR_QUALIFIER)
             text = text[:start] + value_str + text[stop:]
             tag.set_attr(QSCH_TEXT_STR_ATTR, text)
             _logger.info(f"Parameter {param} updated to {value_str}")
@@ -1212,9 +1213,12 @@ class QschEditor(BaseSchematic, BaseSubCircuit):
         permission = self.begin_update()
         if permission == UpdatePermission.Deny:
             raise PermissionError(f"Permission denied for removing component {designator}")
-        component = self.get_component(designator)
-        comp_tag: QschTag = component.attributes['tag']
-        self.schematic.items.remove(comp_tag) # pyright: ignore[reportOptionalMemberAccess]
+        sub_circuit, ref = self._get_parent(designator)
+        if sub_circuit != self:  # The component is in a subcircuit
+            return sub_circuit.remove_component(ref)
+        component: QschComponent = self.get_component(designator) # pyright: ignore[reportAssignmentType]
+        self.schematic.items.remove(component.tag) # pyright: ignore[reportOptionalMemberAccess]
+        del self.components[ref]
         self.end_update(designator, None, UpdateType.DeleteComponent)
 
     def _get_text_space(self):
@@ -1262,9 +1266,8 @@ class QschEditor(BaseSchematic, BaseSubCircuit):
                 if text_tag.get_attr(QSCH_TEXT_COMMENT) == 1:  # if it is a comment, we ignore it
                     continue
                 text: str = text_tag.get_attr(QSCH_TEXT_STR_ATTR) # pyright: ignore[reportAssignmentType]
-                text = text.lstrip(QSCH_TEXT_INSTR_QUALIFIER)
-                command = text.split()[0].upper()
-                if command in UNIQUE_SIMULATION_DOT_INSTRUCTIONS:
+                text = text.removeprefix(QSCH_TEXT_INSTR_QUALIFIER)
+                if text.strip() and text.split()[0].upper() in UNIQUE_SIMULATION_DOT_INSTRUCTIONS:
                     text_tag.set_attr(QSCH_TEXT_STR_ATTR, QSCH_TEXT_INSTR_QUALIFIER + instruction)
                     self.end_update("INSTRUCTION", text, UpdateType.DeleteInstruction)
                     self.end_update("INSTRUCTION" ,instruction, UpdateType.AddInstruction)
@@ -1272,12 +1275,11 @@ class QschEditor(BaseSchematic, BaseSubCircuit):
 
         elif command.startswith('.PARAM'):
             raise RuntimeError('The .PARAM instruction should be added using the "set_parameter" method')
-        else:
-            self.end_update("INSTRUCTION", instruction, UpdateType.AddInstruction)
         # If we get here, then the instruction was not found, so we need to add it
         x, y = self._get_text_space()
         tag, _ = QschTag.parse(f'«text ({x},{y}) 1 0 0 0x1000000 -1 -1 "{QSCH_TEXT_INSTR_QUALIFIER}{instruction}"»')
         self.schematic.items.append(tag) # pyright: ignore[reportOptionalMemberAccess]
+        self.end_update("INSTRUCTION", instruction, UpdateType.AddInstruction)
 
     def remove_instruction(self, instruction: str) -> bool:
         # docstring inherited from BaseEditor
@@ -1290,8 +1292,9 @@ class QschEditor(BaseSchematic, BaseSubCircuit):
             text: str = text_tag.get_attr(QSCH_TEXT_STR_ATTR) # pyright: ignore[reportAssignmentType]
             if instruction in text:
                 self.schematic.items.remove(text_tag) # pyright: ignore[reportOptionalMemberAccess]
-                self.end_update("INSTRUCTION", instruction, UpdateType.DeleteInstruction)
-                _logger.info(f'Instruction "{instruction}" removed')
+                text = text.removeprefix(QSCH_TEXT_INSTR_QUALIFIER)
+                self.end_update("INSTRUCTION", text, UpdateType.DeleteInstruction)
+                _logger.info(f'Instruction "{text}" removed')
                 return True  # Job done, can exit this method
 
         msg = f'Instruction "{instruction}" not found'
-- 
2.43.0


From c344b7accdb04e5d03f41efc6b6355cbb45b9e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:45 +0000
Subject: [PATCH 036/124] fix: parameter values that are names, expressions or
 texts are found, and so are parameters whose name starts with an E

---
 spicelib/editor/base_editor.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/spicelib/editor/base_editor.py b/spicelib/editor/base_editor.py
index 3a0afec..cb4a67f 100644
--- a/spicelib/editor/base_editor.py
+++ b/spicelib/editor/base_editor.py
@@ -37,7 +37,17 @@ SUBCKT_DIVIDER: Final[str] = ':'  #: This controls the sub-circuit divider when
 # Ex: Editor.set_component_value('XU1:R1', '1k')
 
 def PARAM_REGEX(pname):
-    return r"(?P<name>" + pname + r")\s*[= ]\s*(?P<value>(?P<cb>\{)?(?(cb)[^\}]*\}|(?P<st>\")?(?(st)[^\"]*\"|[\d\.\+\-Ee]+[a-zA-Z%]*)))"
+    group = r"""\{[^}]*\}|"[^"]*"|'[^']*'"""
+    call = r"\([^()]*\)"
+    for _ in range(4):  # levels of parenthesis
+        call = r"\((?:[^()]|" + call + r")*\)"
+    # What is assigned can be a number, an {expression}, a "text", a name, or operations between all those.
+    item = r"""(?:""" + group + r"|" + call + r"""|,(?=[^\s,;=])(?!\w+\s*=)|[^\s,;={}"'()])+"""
+    assigned = item + r"(?:\s+[-+*/]\s*" + item + r"|(?<=[-+*/])\s+" + item + r")*"
+    # Without the equal sign, the value is either a number, an {expression} or a "text"
+    spaced = r"""(?:""" + group + r"""|[-+]?\.?\d[^\s,;={}"'()]*)(?=[\s,;)]|$)(?!\s*=)"""
+    return (r"(?<![\w.])(?P<name>" + pname + r")(?:\s*(?P<eq>=)\s*|\s+)"
+            r"(?P<value>(?(eq)" + assigned + r"|" + spaced + r"))")
 
 
 class BaseEditor(ABC):
-- 
2.43.0


From b4324b5466c65a23ebf136fde5a77bf5152c094d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:29 +0000
Subject: [PATCH 037/124] fix: comments are not parameters, a parameter value
 ends with its line, and removing a parameter removes only that one

---
 spicelib/editor/asc_editor.py       | 11 ++++------
 spicelib/editor/base_editor.py      | 26 +++++++++++++++++++----
 spicelib/editor/qsch_editor.py      | 14 +++++--------
 spicelib/editor/spice_subcircuit.py | 32 ++++++++++++++++++++---------
 4 files changed, 53 insertions(+), 30 deletions(-)

diff --git a/spicelib/editor/asc_editor.py b/spicelib/editor/asc_editor.py
index 7a5cb3c..07b62e8 100644
--- a/spicelib/editor/asc_editor.py
+++ b/spicelib/editor/asc_editor.py
@@ -35,7 +35,7 @@ from ..simulators.ltspice_simulator import LTspice
 from ..utils.file_search import search_file_in_containers
 from .primitives import format_eng
 from .editor_errors import ComponentNotFoundError, ParameterNotFoundError, ValueNotFoundError
-from .base_editor import PARAM_REGEX, ValueType
+from .base_editor import find_parameters, ValueType
 from .base_schematic import (BaseSchematic, Point, Line, Shape, Text, SchematicComponent, ERotation, TextTypeEnum, Port)
 from .asy_reader import AsyReader
 
@@ -98,7 +98,6 @@ class AscComponent(SchematicComponent):
                  NotImplementedError - for not supported operations
         """
         parameters = OrderedDict()
-        search_regex = re.compile(PARAM_REGEX(r'\w+'), re.IGNORECASE)
         for key, value in self.attributes.items():
             if key in LTSPICE_PARAMETERS:
                 parameters[key] = value
@@ -106,7 +105,7 @@ class AscComponent(SchematicComponent):
                     # if we have a structured attribute, return the full dict of it
                     # this is compatible with set_component_parameters
                     sub_parameters = {}
-                    matches = search_regex.finditer(value)
+                    matches = find_parameters(value)
                     # This might contain one or more parameters
                     for match in matches:
                         sub_parameters[match.group("name")] = try_convert_value(match.group("value"))
@@ -531,12 +530,11 @@ class AscEditor(BaseSchematic, BaseSubCircuit):
 
     def _get_param_named(self, param_name):
         param_name_uppercase = param_name.upper()
-        search_expression = re.compile(PARAM_REGEX(r"\w+"), re.IGNORECASE)
         for directive in self.directives:
             if directive.type == TextTypeEnum.COMMENT:
                 continue  # this is a comment, skip it            
             if directive.text.upper().startswith(".PARAM"):
-                matches = search_expression.finditer(directive.text)
+                matches = find_parameters(directive.text)
                 for match in matches:
                     if match.group("name").upper() == param_name_uppercase:
                         return match, directive
@@ -545,12 +543,11 @@ class AscEditor(BaseSchematic, BaseSubCircuit):
     def get_all_parameter_names(self) -> list[str]:
         # docstring inherited from BaseEditor
         param_names = []
-        search_expression = re.compile(PARAM_REGEX(r"\w+"), re.IGNORECASE)
         for directive in self.directives:
             if directive.type == TextTypeEnum.COMMENT:
                 continue  # this is a comment, skip it
             if directive.text.upper().startswith(".PARAM"):
-                matches = search_expression.finditer(directive.text)
+                matches = find_parameters(directive.text)
                 for match in matches:            
                     param_name = match.group('name')
                     param_names.append(param_name.upper())
diff --git a/spicelib/editor/base_editor.py b/spicelib/editor/base_editor.py
index cb4a67f..004a53f 100644
--- a/spicelib/editor/base_editor.py
+++ b/spicelib/editor/base_editor.py
@@ -23,6 +23,7 @@ from abc import abstractmethod, ABC
 from pathlib import Path
 import logging
 import os
+import re
 import io
 from typing import TypeAlias, Final
 
@@ -42,14 +43,31 @@ def PARAM_REGEX(pname):
     for _ in range(4):  # levels of parenthesis
         call = r"\((?:[^()]|" + call + r")*\)"
     # What is assigned can be a number, an {expression}, a "text", a name, or operations between all those.
-    item = r"""(?:""" + group + r"|" + call + r"""|,(?=[^\s,;=])(?!\w+\s*=)|[^\s,;={}"'()])+"""
-    assigned = item + r"(?:\s+[-+*/]\s*" + item + r"|(?<=[-+*/])\s+" + item + r")*"
+    # Both newlines and the \n of the schematics end it.
+    item = r"""(?:""" + group + r"|" + call + r"""|,(?=[^\s,;=])(?!\w+\s*=)|(?!\\n)[^\s,;={}"'()])+"""
+    assigned = item + r"(?:[ \t]+[-+*/][ \t]*" + item + r"|(?<=[-+*/])[ \t]+" + item + r")*"
     # Without the equal sign, the value is either a number, an {expression} or a "text"
-    spaced = r"""(?:""" + group + r"""|[-+]?\.?\d[^\s,;={}"'()]*)(?=[\s,;)]|$)(?!\s*=)"""
-    return (r"(?<![\w.])(?P<name>" + pname + r")(?:\s*(?P<eq>=)\s*|\s+)"
+    spaced = r"""(?:""" + group + r"""|[-+]?\.?\d(?:(?!\\n)[^\s,;={}"'()])*)(?=[\s,;)]|\\n|$)(?!\s*=)"""
+    return (r"(?:(?<![\w.\\])|(?<=\\n))(?P<name>" + pname + r")(?:\s*(?P<eq>=)\s*|\s+)"
             r"(?P<value>(?(eq)" + assigned + r"|" + spaced + r"))")
 
 
+def find_parameters(text: str):
+    """
+    Finds the parameters defined in a text, ignoring the comments that it may have.
+
+    :param text: Text of a directive or of a component
+    :return: Iterator on the matches. Each one has the groups "name" and "value".
+    """
+    end = 0  # End of the last parameter found
+    for match in re.finditer(PARAM_REGEX(r"\w+"), text, flags=re.IGNORECASE):
+        before = re.split(r"[\r\n]|\\n", text[end:match.start()])[-1]  # What is before it, on the same line
+        if ';' in before or before.lstrip().startswith('*'):
+            continue  # This is inside a comment
+        end = match.end()
+        yield match
+
+
 class BaseEditor(ABC):
     """
     This defines the primitives (protocol) to be used for both SpiceEditor and AscEditor
diff --git a/spicelib/editor/qsch_editor.py b/spicelib/editor/qsch_editor.py
index 169f291..c7d9b58 100644
--- a/spicelib/editor/qsch_editor.py
+++ b/spicelib/editor/qsch_editor.py
@@ -27,7 +27,7 @@ import logging
 from .base_subcircuit import BaseSubCircuit
 from .primitives import format_eng
 from .editor_errors import ComponentNotFoundError, ParameterNotFoundError, ValueNotFoundError
-from .base_editor import PARAM_REGEX, ValueType
+from .base_editor import find_parameters, ValueType
 from .spice_utils import UNIQUE_SIMULATION_DOT_INSTRUCTIONS
 from .base_schematic import (BaseSchematic, SchematicComponent, Point, ERotation, Line, Text, TextTypeEnum,
                              LineStyle, Shape)
@@ -428,10 +428,9 @@ class QschComponent(SchematicComponent):
         """
         texts = self.symbol_tag.get_items('text')
         parameters = OrderedDict()
-        param_regex = re.compile(PARAM_REGEX(r'\w+'), re.IGNORECASE)
         for i in range(2, len(texts)):
             text : str = texts[i].get_attr(QSCH_TEXT_STR_ATTR) # pyright: ignore[reportAssignmentType]
-            matches = param_regex.finditer(text)
+            matches = find_parameters(text)
             for match in matches:
                 parameters[match.group('name')] = match.group('value')
             else:
@@ -477,11 +476,10 @@ class QschComponent(SchematicComponent):
                     parent.end_update(reference, value_str, UpdateType.UpdateComponentParameter)
             else:
                 found = False
-                search_expression = re.compile(PARAM_REGEX(r"\w+"), re.IGNORECASE)
                 for text in texts[QSCH_SYMBOL_TEXT_VALUE:]:
                     text_value: str = text.get_attr(QSCH_TEXT_STR_ATTR) # pyright: ignore[reportAssignmentType]
 
-                    for match in search_expression.finditer(text_value):
+                    for match in find_parameters(text_value):
                         if match.group("name") == key:
                             if value is None:
                                 # Remove the entire parameter definition from the text
@@ -1034,7 +1032,6 @@ class QschEditor(BaseSchematic, BaseSubCircuit):
         self.update_permission = UpdatePermission.Inform
 
     def _get_param_named(self, param_name):
-        param_regex = re.compile(PARAM_REGEX(r"\w+"), re.IGNORECASE)
         param_name_upped = param_name.upper()
         text_tags = self.schematic.get_items('text')  # pyright: ignore[reportOptionalMemberAccess] # Connection to directives and comments
         for tag in text_tags:
@@ -1043,7 +1040,7 @@ class QschEditor(BaseSchematic, BaseSubCircuit):
             line: str = tag.get_attr(QSCH_TEXT_STR_ATTR) # pyright: ignore[reportAssignmentType]
             line = line.removeprefix(QSCH_TEXT_INSTR_QUALIFIER)
             if line.upper().startswith('.PARAM'):
-                for match in param_regex.finditer(line):
+                for match in find_parameters(line):
                     if match.group("name").upper() == param_name_upped:
                         return tag, match
         else:
@@ -1052,7 +1049,6 @@ class QschEditor(BaseSchematic, BaseSubCircuit):
     def get_all_parameter_names(self) -> list[str]:
         # docstring inherited from BaseEditor
         param_names = []
-        param_regex = re.compile(PARAM_REGEX(r"\w+"), re.IGNORECASE)
         text_tags = self.schematic.get_items('text') # pyright: ignore[reportOptionalMemberAccess] # Connection to directives and comments
         for tag in text_tags:
             if tag.get_attr(QSCH_TEXT_COMMENT) == 1:  # if it is a comment, we ignore it
@@ -1060,7 +1056,7 @@ class QschEditor(BaseSchematic, BaseSubCircuit):
             line: str = tag.get_attr(QSCH_TEXT_STR_ATTR) # pyright: ignore[reportAssignmentType]
             line = line.removeprefix(QSCH_TEXT_INSTR_QUALIFIER)
             if line.upper().startswith('.PARAM'):
-                matches = param_regex.finditer(line)
+                matches = find_parameters(line)
                 for match in matches:
                     param_name = match.group('name')
                     param_names.append(param_name.upper())
diff --git a/spicelib/editor/spice_subcircuit.py b/spicelib/editor/spice_subcircuit.py
index def7fc9..4a7c0ff 100644
--- a/spicelib/editor/spice_subcircuit.py
+++ b/spicelib/editor/spice_subcircuit.py
@@ -32,7 +32,7 @@ from .updates import UpdateType, UpdatePermission
 from .base_subcircuit import BaseSubCircuit
 from .spice_components import SpiceComponent, component_replace_regexs, _insert_section
 from .spice_subcircuit_instance import SpiceCircuitInstance
-from .base_editor import SUBCKT_DIVIDER, PARAM_REGEX, BaseEditor
+from .base_editor import SUBCKT_DIVIDER, find_parameters, BaseEditor
 
 from ..utils.detect_encoding import detect_encoding, EncodingDetectError
 from ..utils.file_search import search_file_in_containers
@@ -249,7 +249,6 @@ class SpiceCircuit(BaseSubCircuit):
         Internal function. Do not use. Returns a line starting with command and matching the search with the regular
         expression
         """
-        search_expression = re.compile(PARAM_REGEX(r"\w+"), re.IGNORECASE)
         param_name_upped = param_name.upper()
         line_no = 0
         while line_no < len(self.netlist):
@@ -272,7 +271,7 @@ class SpiceCircuit(BaseSubCircuit):
                 line: str = line.obj
             cmd = get_line_command(line) # pyright: ignore[reportArgumentType]
             if cmd == '.PARAM':
-                matches = search_expression.finditer(line)
+                matches = find_parameters(line)
                 for match in matches:
                     if match.group("name").upper() == param_name_upped:
                         return line_no, match, self.netlist
@@ -282,18 +281,20 @@ class SpiceCircuit(BaseSubCircuit):
     def get_all_parameter_names(self) -> list[str]:
         # docstring inherited from BaseEditor
         param_names = []
-        search_expression = re.compile(PARAM_REGEX(r"\w+"), re.IGNORECASE)
         for line in self.netlist:
             if isinstance(line, IncludeFile):  # same for include files
                 if line.editor and isinstance(line.editor, SpiceCircuit):
                     sub_circuit: SpiceCircuit = line.editor
                     if sub_circuit:
                         param_names.extend(sub_circuit.get_all_parameter_names())
+                continue
+            elif isinstance(line, SpiceCircuit):  # the parameters of a sub-circuit are its own
+                continue
             elif isinstance(line, Primitive):
                 line: str = line.obj # pyright: ignore[reportAssignmentType]
             cmd = get_line_command(line)
             if cmd == '.PARAM':
-                matches = search_expression.finditer(line)
+                matches = find_parameters(line)
                 for match in matches:
                     param_name = match.group('name')
                     param_names.append(param_name.upper())
@@ -569,6 +570,14 @@ class SpiceCircuit(BaseSubCircuit):
             raise ValueError("Editor is read-only")
         self.get_component(reference).set_parameters(**kwargs)
 
+    def _end_of_circuit(self) -> int:
+        """Internal function. Do not use. Returns the position where new statements are to be inserted."""
+        for line_no, line in enumerate(self.netlist):
+            if isinstance(line, Primitive) and not isinstance(line, (SpiceComponent, SpiceCircuitInstance)):
+                if get_line_command(line) in ('.BACKANNO', '.END', '.ENDS'):
+                    return line_no
+        return len(self.netlist)
+
     def get_parameter(self, param: str) -> str:
         """
         Returns the value of a parameter retrieved from the netlist.
@@ -624,9 +633,10 @@ class SpiceCircuit(BaseSubCircuit):
             if value is None:
                 # Remove the parameter from the netlist
                 if isinstance(netlist[param_line], Primitive):
-                    netlist[param_line]._obj = re.sub(PARAM_REGEX(param), '', netlist[param_line].obj, flags=re.IGNORECASE)
+                    start, stop = match.span()
+                    netlist[param_line]._obj = netlist[param_line].obj[:start] + netlist[param_line].obj[stop:]
                     # if no other parameters are left, remove the line from the netlist
-                    all_params = re.findall(PARAM_REGEX(r"\w+"), netlist[param_line].obj, flags=re.IGNORECASE)
+                    all_params = list(find_parameters(netlist[param_line].obj))
                     if len(all_params) == 0:  # If the line is empty or only has .PARAM, remove it from the netlist
                         netlist[param_line] = '* SpiceEditor removed empty .PARAM line' + END_LINE_TERM
                 if permission == UpdatePermission.Inform:
@@ -638,10 +648,10 @@ class SpiceCircuit(BaseSubCircuit):
                                                                f"{value_str}") + END_LINE_TERM
                 if permission == UpdatePermission.Inform:
                     self.end_update(param, value_str, UpdateType.UpdateParameter)
-        else:
+        elif value is not None:
             # Was not found
             # the last two lines are typically (.backano and .end)
-            insert_line = len(self.netlist) - 2
+            insert_line = self._end_of_circuit()
             term = Primitive(netlist=self, obj=f'.PARAM {param}={value_str}  ; Batch instruction' + END_LINE_TERM)
             self.netlist.insert(insert_line, term)
             if permission == UpdatePermission.Inform:
@@ -845,11 +855,13 @@ class SpiceCircuit(BaseSubCircuit):
             cmd = get_line_command(instruction)
         if cmd == ".CONTROL":
             # If it is a control instruction, then it should be added as a ControlEditor
-            c = ControlEditor(self, instruction)
+            c = ControlEditor(netlist=self, obj=instruction)
             return c
         elif cmd.startswith(".INC"):
             # An include file
             return IncludeFile(netlist=self, obj=instruction)
+        elif cmd == 'X':
+            return SpiceCircuitInstance(netlist=self, obj=instruction)
         elif cmd in VALID_PREFIXES:
             # If it is a component, then it should be added as a SpiceComponent
             return SpiceComponent(netlist=self, obj=instruction)
-- 
2.43.0


From 3e993b6f51a3d4ff80e4d8cf74fa64c1c8ffac49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:32 +0000
Subject: [PATCH 038/124] fix: instructions land before the end of the circuit
 and only one analysis remains

---
 spicelib/editor/spice_file.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/spicelib/editor/spice_file.py b/spicelib/editor/spice_file.py
index ae56de0..a7df95d 100644
--- a/spicelib/editor/spice_file.py
+++ b/spicelib/editor/spice_file.py
@@ -49,15 +49,20 @@ class SpiceFile(BaseEditor, SpiceCircuit):
         if _is_unique_instruction(cmd):
             # Before adding new instruction, delete previously set unique instructions
             i = 0
+            replaced = False
             while i < len(self.netlist):
                 line = self.netlist[i]
                 if isinstance(line, Primitive) and _is_unique_instruction(line.obj):
+                    if replaced:  # Only one can remain
+                        del self.netlist[i]
+                        continue
                     self.netlist[i] = Primitive(netlist=self, obj=instruction)
                     if permission == UpdatePermission.Inform:
                         self.end_update("INSTRUCTION", instruction.strip(), UpdateType.UpdateInstruction)
-                    return
-                else:
-                    i += 1
+                    replaced = True
+                i += 1
+            if replaced:
+                return
         elif cmd == '.PARAM':
             raise RuntimeError('The .PARAM instruction should be added using the "set_parameter" method')
 
@@ -69,13 +74,8 @@ class SpiceFile(BaseEditor, SpiceCircuit):
         # TODO: if adding a .MODEL or .SUBCKT it should verify if it already exists and update it.
 
         # Insert at the end
-        line = len(self.netlist) - 1
-        # If there is .backanno, then it will be added just before that statement
-        for nr, linecontent in enumerate(self.netlist):
-            if isinstance(linecontent, Primitive): # only Primitive can have .backanno
-                if linecontent.obj.lower().startswith('.backanno'): # pyright: ignore[reportOptionalMemberAccess]
-                    line = nr
-                    break
+        # If there is .backanno or .end, then it will be added just before that statement
+        line = self._end_of_circuit()
 
         primitive = self.class_for_instruction(instruction, cmd)
         self.netlist.insert(line, primitive)
-- 
2.43.0


From 23678d626ae526517a1ba1e889044b6f5f844d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:47 +0000
Subject: [PATCH 039/124] fix: a text of a schematic can have several
 directives, and only one analysis remains

---
 spicelib/editor/asc_editor.py  | 77 +++++++++++++++++++++-------------
 spicelib/editor/base_editor.py | 13 ++++++
 spicelib/editor/qsch_editor.py | 66 +++++++++++++++++++----------
 3 files changed, 106 insertions(+), 50 deletions(-)

diff --git a/spicelib/editor/asc_editor.py b/spicelib/editor/asc_editor.py
index 07b62e8..46e177d 100644
--- a/spicelib/editor/asc_editor.py
+++ b/spicelib/editor/asc_editor.py
@@ -35,7 +35,7 @@ from ..simulators.ltspice_simulator import LTspice
 from ..utils.file_search import search_file_in_containers
 from .primitives import format_eng
 from .editor_errors import ComponentNotFoundError, ParameterNotFoundError, ValueNotFoundError
-from .base_editor import find_parameters, ValueType
+from .base_editor import find_parameters, find_param_directives, split_directives, ValueType
 from .base_schematic import (BaseSchematic, Point, Line, Shape, Text, SchematicComponent, ERotation, TextTypeEnum, Port)
 from .asy_reader import AsyReader
 
@@ -533,11 +533,9 @@ class AscEditor(BaseSchematic, BaseSubCircuit):
         for directive in self.directives:
             if directive.type == TextTypeEnum.COMMENT:
                 continue  # this is a comment, skip it            
-            if directive.text.upper().startswith(".PARAM"):
-                matches = find_parameters(directive.text)
-                for match in matches:
-                    if match.group("name").upper() == param_name_uppercase:
-                        return match, directive
+            for match in find_param_directives(directive.text):
+                if match.group("name").upper() == param_name_uppercase:
+                    return match, directive
         return None, None
     
     def get_all_parameter_names(self) -> list[str]:
@@ -546,11 +544,9 @@ class AscEditor(BaseSchematic, BaseSubCircuit):
         for directive in self.directives:
             if directive.type == TextTypeEnum.COMMENT:
                 continue  # this is a comment, skip it
-            if directive.text.upper().startswith(".PARAM"):
-                matches = find_parameters(directive.text)
-                for match in matches:            
-                    param_name = match.group('name')
-                    param_names.append(param_name.upper())
+            for match in find_param_directives(directive.text):
+                param_name = match.group('name')
+                param_names.append(param_name.upper())
         return sorted(param_names)
     
     def get_parameter(self, param: str) -> str:
@@ -763,21 +759,32 @@ class AscEditor(BaseSchematic, BaseSubCircuit):
         set_command = instruction.split()[0].upper()
         if set_command in UNIQUE_SIMULATION_DOT_INSTRUCTIONS:
             # Before adding new instruction, if it is a unique instruction, we just replace it
+            replaced = False
             i = 0
             while i < len(self.directives):
                 directive = self.directives[i]
                 if directive.type == TextTypeEnum.COMMENT:
                     i += 1
                     continue  # this is a comment
-                directive_text = directive.text.strip()
-                if directive_text and directive_text.split()[0].upper() in UNIQUE_SIMULATION_DOT_INSTRUCTIONS:
-                    self.begin_update()
-                    self.directives[i].text = instruction
-                    _logger.info(f"Instruction {directive_text} updated to {instruction}")
-                    self.end_update("INSTRUCTION", directive_text, UpdateType.DeleteInstruction)
-                    self.end_update("INSTRUCTION", instruction, UpdateType.AddInstruction)
-                    return  # Job done, can exit this method
-                i += 1
+                lines = []  # A text can have several directives
+                for line in split_directives(directive.text):
+                    if line.strip() and line.split()[0].upper() in UNIQUE_SIMULATION_DOT_INSTRUCTIONS:
+                        self.begin_update()
+                        self.end_update("INSTRUCTION", line.strip(), UpdateType.DeleteInstruction)
+                        if replaced:  # Only one can remain
+                            continue
+                        _logger.info(f"Instruction {line.strip()} updated to {instruction}")
+                        self.end_update("INSTRUCTION", instruction, UpdateType.AddInstruction)
+                        line = instruction
+                        replaced = True
+                    lines.append(line)
+                if lines:
+                    directive.text = r"\n".join(lines)
+                    i += 1
+                else:
+                    del self.directives[i]
+            if replaced:
+                return  # Job done, can exit this method
         elif set_command.startswith('.PARAM'):
             raise RuntimeError('The .PARAM instruction should be added using the "set_parameter" method')
         self.begin_update()
@@ -798,7 +805,14 @@ class AscEditor(BaseSchematic, BaseSubCircuit):
             if instruction in self.directives[i].text:
                 self.begin_update()
                 text = self.directives[i].text
-                del self.directives[i]
+                lines = split_directives(text)
+                line = next((line for line in lines if instruction in line), text)
+                if line in lines and len(lines) > 1:  # The other directives of the text remain
+                    lines.remove(line)
+                    self.directives[i].text = r"\n".join(lines)
+                    text = line
+                else:
+                    del self.directives[i]
                 _logger.info(f"Instruction {text} removed")
                 self.end_update("INSTRUCTION", text, UpdateType.DeleteInstruction)
                 return True  # Job done, can exit this method
@@ -816,15 +830,20 @@ class AscEditor(BaseSchematic, BaseSubCircuit):
             if self.directives[i].type == TextTypeEnum.COMMENT:
                 i += 1
                 continue  # this is a comment            
-            instruction = self.directives[i].text
-            if regex.match(instruction) is not None:
-                self.begin_update()
-                instr_removed = True
-                del self.directives[i]
-                self.end_update("INSTRUCTION", instruction, UpdateType.DeleteInstruction)
-                _logger.info(f"Instruction {instruction} removed")
-            else:
+            lines = []
+            for instruction in split_directives(self.directives[i].text):
+                if regex.match(instruction) is not None:
+                    self.begin_update()
+                    instr_removed = True
+                    self.end_update("INSTRUCTION", instruction, UpdateType.DeleteInstruction)
+                    _logger.info(f"Instruction {instruction} removed")
+                else:
+                    lines.append(instruction)
+            if lines:
+                self.directives[i].text = r"\n".join(lines)
                 i += 1
+            else:
+                del self.directives[i]
         if instr_removed:
             self.canvas_updated = True
             return True
diff --git a/spicelib/editor/base_editor.py b/spicelib/editor/base_editor.py
index 004a53f..b8e523d 100644
--- a/spicelib/editor/base_editor.py
+++ b/spicelib/editor/base_editor.py
@@ -68,6 +68,19 @@ def find_parameters(text: str):
         yield match
 
 
+def split_directives(text: str) -> list[str]:
+    """Splits a text of a schematic into its directives. The schematics write the end of the lines as a literal \\n"""
+    return re.split(r"\\n(?!\s*\+)", text)
+
+
+def find_param_directives(text: str):
+    """Finds the parameters defined on the .PARAM directives of a text of a schematic, the same way as
+    `find_parameters()`"""
+    for match in find_parameters(text):
+        if split_directives(text[:match.start()])[-1].lstrip().upper().startswith('.PARAM'):
+            yield match
+
+
 class BaseEditor(ABC):
     """
     This defines the primitives (protocol) to be used for both SpiceEditor and AscEditor
diff --git a/spicelib/editor/qsch_editor.py b/spicelib/editor/qsch_editor.py
index c7d9b58..384a56e 100644
--- a/spicelib/editor/qsch_editor.py
+++ b/spicelib/editor/qsch_editor.py
@@ -27,7 +27,7 @@ import logging
 from .base_subcircuit import BaseSubCircuit
 from .primitives import format_eng
 from .editor_errors import ComponentNotFoundError, ParameterNotFoundError, ValueNotFoundError
-from .base_editor import find_parameters, ValueType
+from .base_editor import find_parameters, find_param_directives, split_directives, ValueType
 from .spice_utils import UNIQUE_SIMULATION_DOT_INSTRUCTIONS
 from .base_schematic import (BaseSchematic, SchematicComponent, Point, ERotation, Line, Text, TextTypeEnum,
                              LineStyle, Shape)
@@ -1039,10 +1039,9 @@ class QschEditor(BaseSchematic, BaseSubCircuit):
                 continue
             line: str = tag.get_attr(QSCH_TEXT_STR_ATTR) # pyright: ignore[reportAssignmentType]
             line = line.removeprefix(QSCH_TEXT_INSTR_QUALIFIER)
-            if line.upper().startswith('.PARAM'):
-                for match in find_parameters(line):
-                    if match.group("name").upper() == param_name_upped:
-                        return tag, match
+            for match in find_param_directives(line):
+                if match.group("name").upper() == param_name_upped:
+                    return tag, match
         else:
             return None, None
         
@@ -1055,11 +1054,9 @@ class QschEditor(BaseSchematic, BaseSubCircuit):
                 continue
             line: str = tag.get_attr(QSCH_TEXT_STR_ATTR) # pyright: ignore[reportAssignmentType]
             line = line.removeprefix(QSCH_TEXT_INSTR_QUALIFIER)
-            if line.upper().startswith('.PARAM'):
-                matches = find_parameters(line)
-                for match in matches:
-                    param_name = match.group('name')
-                    param_names.append(param_name.upper())
+            for match in find_param_directives(line):
+                param_name = match.group('name')
+                param_names.append(param_name.upper())
         return sorted(param_names)
 
     def _qsch_file_find(self, filename: str, work_dir: str | None = None) -> str | None:
@@ -1258,16 +1255,30 @@ class QschEditor(BaseSchematic, BaseSubCircuit):
 
         if command in UNIQUE_SIMULATION_DOT_INSTRUCTIONS:
             # Before adding new instruction, if it is a unique instruction, we just replace it
+            replaced = False
             for text_tag in self.schematic.get_items('text'): # pyright: ignore[reportOptionalMemberAccess]
                 if text_tag.get_attr(QSCH_TEXT_COMMENT) == 1:  # if it is a comment, we ignore it
                     continue
                 text: str = text_tag.get_attr(QSCH_TEXT_STR_ATTR) # pyright: ignore[reportAssignmentType]
                 text = text.removeprefix(QSCH_TEXT_INSTR_QUALIFIER)
-                if text.strip() and text.split()[0].upper() in UNIQUE_SIMULATION_DOT_INSTRUCTIONS:
-                    text_tag.set_attr(QSCH_TEXT_STR_ATTR, QSCH_TEXT_INSTR_QUALIFIER + instruction)
-                    self.end_update("INSTRUCTION", text, UpdateType.DeleteInstruction)
-                    self.end_update("INSTRUCTION" ,instruction, UpdateType.AddInstruction)
-                    return  # Job done, can exit this method
+                lines = []  # A text can have several directives
+                updated = False
+                for line in split_directives(text):
+                    if line.strip() and line.split()[0].upper() in UNIQUE_SIMULATION_DOT_INSTRUCTIONS:
+                        updated = True
+                        self.end_update("INSTRUCTION", line, UpdateType.DeleteInstruction)
+                        if replaced:  # Only one can remain
+                            continue
+                        self.end_update("INSTRUCTION", instruction, UpdateType.AddInstruction)
+                        line = instruction
+                        replaced = True
+                    lines.append(line)
+                if updated and lines:
+                    text_tag.set_attr(QSCH_TEXT_STR_ATTR, QSCH_TEXT_INSTR_QUALIFIER + r"\n".join(lines))
+                elif updated:
+                    self.schematic.items.remove(text_tag) # pyright: ignore[reportOptionalMemberAccess]
+            if replaced:
+                return  # Job done, can exit this method
 
         elif command.startswith('.PARAM'):
             raise RuntimeError('The .PARAM instruction should be added using the "set_parameter" method')
@@ -1287,8 +1298,15 @@ class QschEditor(BaseSchematic, BaseSubCircuit):
                 continue
             text: str = text_tag.get_attr(QSCH_TEXT_STR_ATTR) # pyright: ignore[reportAssignmentType]
             if instruction in text:
-                self.schematic.items.remove(text_tag) # pyright: ignore[reportOptionalMemberAccess]
                 text = text.removeprefix(QSCH_TEXT_INSTR_QUALIFIER)
+                lines = split_directives(text)
+                line = next((line for line in lines if instruction in line), text)
+                if line in lines and len(lines) > 1:  # The other directives of the text remain
+                    lines.remove(line)
+                    text_tag.set_attr(QSCH_TEXT_STR_ATTR, QSCH_TEXT_INSTR_QUALIFIER + r"\n".join(lines))
+                    text = line
+                else:
+                    self.schematic.items.remove(text_tag) # pyright: ignore[reportOptionalMemberAccess]
                 self.end_update("INSTRUCTION", text, UpdateType.DeleteInstruction)
                 _logger.info(f'Instruction "{text}" removed')
                 return True  # Job done, can exit this method
@@ -1308,12 +1326,18 @@ class QschEditor(BaseSchematic, BaseSubCircuit):
             if text_tag.get_attr(QSCH_TEXT_COMMENT) == 1:  # if it is a comment, we ignore it
                 continue
             text: str = text_tag.get_attr(QSCH_TEXT_STR_ATTR) # pyright: ignore[reportAssignmentType]
-            text = text.lstrip(QSCH_TEXT_INSTR_QUALIFIER)
-            if regex.match(text):
+            text = text.removeprefix(QSCH_TEXT_INSTR_QUALIFIER)
+            lines = split_directives(text)
+            for line in lines[:]:
+                if regex.match(line):
+                    lines.remove(line)
+                    self.end_update("INSTRUCTION", line, UpdateType.DeleteInstruction)
+                    _logger.info(f'Instruction "{line}" removed')
+                    instr_removed = True
+            if not lines:
                 self.schematic.items.remove(text_tag) # pyright: ignore[reportOptionalMemberAccess]
-                self.end_update("INSTRUCTION" ,text, UpdateType.DeleteInstruction)
-                _logger.info(f'Instruction "{text}" removed')
-                instr_removed = True
+            elif lines != split_directives(text):
+                text_tag.set_attr(QSCH_TEXT_STR_ATTR, QSCH_TEXT_INSTR_QUALIFIER + r"\n".join(lines))
         if instr_removed:
             return True
         else:
-- 
2.43.0


From febfa9e7cc314a7638708765beb362553f0fc4fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:23 +0000
Subject: [PATCH 040/124] fix: the texts of a QSCH component can be set by
 their number, and removing a parameter keeps the value text

---
 spicelib/editor/qsch_editor.py | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/spicelib/editor/qsch_editor.py b/spicelib/editor/qsch_editor.py
index 384a56e..998b86e 100644
--- a/spicelib/editor/qsch_editor.py
+++ b/spicelib/editor/qsch_editor.py
@@ -438,8 +438,8 @@ class QschComponent(SchematicComponent):
 
         return parameters
 
-    def set_parameter(self, key: str, value: float | str):
-        self.set_parameters(**{key: value})
+    def set_parameter(self, key: str | int, value: float | str):
+        self._set_parameters({key: value})
 
     def set_parameters(self, **kwargs) -> None:
         """
@@ -447,14 +447,17 @@ class QschComponent(SchematicComponent):
         where the parameter was found. If the key is a string, it represents the parameter name. If the parameter name
         already exists, it will be replaced. If not found, it will be added as a new text line.
         """
+        self._set_parameters(kwargs)
+
+    def _set_parameters(self, parameters: dict) -> None:
         parent : QschEditor = self.parent # pyright: ignore[reportAssignmentType]
         permission = parent.begin_update()
         if permission == UpdatePermission.Deny:
             raise PermissionError("Editor is read-only")
         symbol = self.symbol_tag
-        texts = symbol.get_items('text')
 
-        for key, value in kwargs.items():
+        for key, value in parameters.items():
+            texts = symbol.get_items('text')
             if isinstance(value, str) or value is None:
                 value_str = value
             else:
@@ -463,17 +466,23 @@ class QschComponent(SchematicComponent):
                 if key < 2 or key > len(texts):
                     raise ValueError(f"Invalid line number {key} for component {self.reference}")
                 if key == len(texts):
+                    if value is None:
+                        continue  # Nothing to remove
                     x, y = 0, 0  # TODO: Find a way to get the position of the last text
                     tag, _ = QschTag.parse(
-                        f'«text ({x},{y}) 1 7 0 0x1000000 -1 -1 "{value}"»'
+                        f'«text ({x},{y}) 1 7 0 0x1000000 -1 -1 "{value_str}"»'
                     )
                     symbol.items.append(tag)
-
+                    update = UpdateType.AddComponentParameter
+                elif value is None:
+                    symbol.items.remove(texts[key])
+                    update = UpdateType.DeleteComponentParameter
                 else:
                     texts[key].set_attr(QSCH_TEXT_STR_ATTR, value_str)
+                    update = UpdateType.UpdateComponentParameter
                 if permission == UpdatePermission.Inform:
                     reference : str = self.reference # pyright: ignore[reportAssignmentType]
-                    parent.end_update(reference, value_str, UpdateType.UpdateComponentParameter)
+                    parent.end_update(f'{reference}:{key}', value_str, update)
             else:
                 found = False
                 for text in texts[QSCH_SYMBOL_TEXT_VALUE:]:
@@ -484,7 +493,7 @@ class QschComponent(SchematicComponent):
                             if value is None:
                                 # Remove the entire parameter definition from the text
                                 start, stop = match.span()
-                                if stop - start == len(text_value):
+                                if stop - start == len(text_value) and text is not texts[QSCH_SYMBOL_TEXT_VALUE]:
                                     # The whole tag needs to be deleted
                                     symbol.items.remove(text)
                                 else:
@@ -497,6 +506,8 @@ class QschComponent(SchematicComponent):
                                 text_value = text_value[:start] + value_str + text_value[stop:]
                                 text.set_attr(QSCH_TEXT_STR_ATTR, text_value)
                                 update = UpdateType.UpdateComponentParameter
+                            if text is texts[QSCH_SYMBOL_TEXT_VALUE]:
+                                self.attributes['value'] = text_value
                             if permission == UpdatePermission.Inform:
                                 reference : str = self.reference # pyright: ignore[reportAssignmentType]
                                 parent.end_update(f'{reference}:{key}', value_str, update)
-- 
2.43.0


From 4ca89b4d61aa2f9a08ed52ceafefffa466e48b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:44 +0000
Subject: [PATCH 041/124] fix: the parameters written after the value of a QSCH
 component are read where they are set

---
 spicelib/editor/qsch_editor.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/spicelib/editor/qsch_editor.py b/spicelib/editor/qsch_editor.py
index 998b86e..21afa32 100644
--- a/spicelib/editor/qsch_editor.py
+++ b/spicelib/editor/qsch_editor.py
@@ -428,6 +428,10 @@ class QschComponent(SchematicComponent):
         """
         texts = self.symbol_tag.get_items('text')
         parameters = OrderedDict()
+        value : str = texts[QSCH_SYMBOL_TEXT_VALUE].get_attr(QSCH_TEXT_STR_ATTR) # pyright: ignore[reportAssignmentType]
+        for match in find_parameters(str(value)):
+            if match.group('eq'):  # The value can also be followed by parameters
+                parameters[match.group('name')] = match.group('value')
         for i in range(2, len(texts)):
             text : str = texts[i].get_attr(QSCH_TEXT_STR_ATTR) # pyright: ignore[reportAssignmentType]
             matches = find_parameters(text)
-- 
2.43.0


From 55097b9a69b85ae10fa5d7f717f5bcfeb8a70b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:54 +0000
Subject: [PATCH 042/124] fix: the title of a netlist made from nothing ends
 with a new line

---
 spicelib/editor/spice_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spicelib/editor/spice_file.py b/spicelib/editor/spice_file.py
index a7df95d..7bdd211 100644
--- a/spicelib/editor/spice_file.py
+++ b/spicelib/editor/spice_file.py
@@ -175,7 +175,7 @@ class SpiceFile(BaseEditor, SpiceCircuit):
         self.update_permission = UpdatePermission.Initializing
         finished = True
         if kwargs.get('create_blank', False):
-            self._add_lines(['* netlist generated from spicelib'])
+            self._add_lines(['* netlist generated from spicelib' + END_LINE_TERM])
         elif self.circuit_file.exists():
             with open(self.circuit_file, encoding=self.encoding, errors='replace') as f:
                 lines = separate_lines(f)  # pyright: ignore[reportArgumentType] # Creates an iterator object to consume the file
-- 
2.43.0


From 4a0466b9e2f0df41ae652cce1a3c8ef4a920b1cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:02 +0000
Subject: [PATCH 043/124] fix: the name of a circuit that contains sub-circuits
 can be read

---
 spicelib/editor/spice_subcircuit.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/spicelib/editor/spice_subcircuit.py b/spicelib/editor/spice_subcircuit.py
index 4a7c0ff..c859457 100644
--- a/spicelib/editor/spice_subcircuit.py
+++ b/spicelib/editor/spice_subcircuit.py
@@ -396,9 +396,11 @@ class SpiceCircuit(BaseSubCircuit):
         """
         if len(self.netlist):
             for line in self.netlist:
+                if isinstance(line, SpiceCircuit):
+                    continue  # the circuits this one contains have their own names
                 if isinstance(line, Primitive):
                     line: str = line.obj # pyright: ignore[reportAssignmentType]
-                m = subckt_regex.search(line)
+                m = subckt_regex.search(line) if isinstance(line, str) else None
                 if m:
                     return m.group('name')
         if self.editor and self.editor.circuit_file:
-- 
2.43.0


From bbfffd9e70006cfc7ece2bf7076cdcac68ff51c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:55 +0000
Subject: [PATCH 044/124] fix: a formula value ends at its closing brace, not
 at the last one of the line

---
 spicelib/editor/spice_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spicelib/editor/spice_utils.py b/spicelib/editor/spice_utils.py
index 6c94b72..5ec99ad 100644
--- a/spicelib/editor/spice_utils.py
+++ b/spicelib/editor/spice_utils.py
@@ -151,7 +151,7 @@ def VALUE_RGX(prefix: str, number_regex_suffix: str) -> str:
         my_prefix = "(" + prefix + "\\s?=\\s?)?"
     return "\\s+" + my_prefix + "(?P<value>(?P<number>[-+]?[0-9]*\\.?[0-9]+([eE][-+]?[0-9]+)?" + \
         number_regex_suffix + ")?(?P<formula1>\")?(?P<formula2>')?(?P<formula3>{)?" + \
-        "(?(number)|(?(formula1).*\"|(?(formula2).*'|(?(formula3).*}|\\S*)))))"
+        "(?(number)|(?(formula1).*?\"|(?(formula2).*?'|(?(formula3).*?}|\\S*)))))"
 
 
 REPLACE_REGEXS : Dict[str, str] = {
-- 
2.43.0


From 7d4b31ff42fd39fb6cf76338afadbc6c301d1011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:58 +0000
Subject: [PATCH 045/124] fix: edits of a netlist component replace only what
 was set, whatever its letter case, spacing and position

---
 spicelib/editor/spice_components.py | 322 ++++++++++++++--------------
 spicelib/editor/spice_subcircuit.py |   4 +-
 2 files changed, 161 insertions(+), 165 deletions(-)

diff --git a/spicelib/editor/spice_components.py b/spicelib/editor/spice_components.py
index fb12595..2340e02 100644
--- a/spicelib/editor/spice_components.py
+++ b/spicelib/editor/spice_components.py
@@ -78,59 +78,110 @@ for prefix, pattern in REPLACE_REGEXS.items():
 # continuations and comments correctly when parsing and writing back to the netlist.
 
 
-def tokenize_params(params_str: str) -> list[str]:
-    """Split by spaces and special operators (= and ,) but keep the operators as part of the tokens
-    Everything insider {} or "" or '' will be considered as part of the same token, so that parameters like
-    "key={value with spaces and commas}" are correctly parsed as a single token."""
+def _tokenize_params(params_str: str) -> list[tuple[str, int, int]]:
+    """Internal function. Returns the tokens of tokenize_params() together with their start and end positions."""
     in_quotes = None  # To keep track of which quote we are in, if any
-    in_func_decl = False  # Inside {}
+    depth = 0  # Inside {} or ()
     tokens = []
-    current_token = ""
-
-    for char in params_str:
-        # Use structural pattern matching for clearer branching and guards
-        match char:
-            case '"' | "'":
-                if in_quotes is None:
-                    in_quotes = char
-                elif in_quotes == char:
-                    in_quotes = None
-                current_token += char
-            case '{':
-                in_func_decl = True
-                current_token += char
-            case '}':
-                in_func_decl = False
-                current_token += char
-            case c if c in (',', '=') and in_quotes is None and not in_func_decl:
-                if current_token:
-                    tokens.append(current_token.strip())
-                    tokens.append(c)
-                    current_token = ""
-            case c if c.isspace() and in_quotes is None and not in_func_decl:
-                if current_token:
-                    tokens.append(current_token.strip())
-                    current_token = ""
-            case _:
-                current_token += char
-
-    if current_token:
-        tokens.append(current_token.strip())
+    start = None  # Where the current token starts
+
+    for i, char in enumerate(params_str):
+        if in_quotes is None and depth == 0 and (char in ',=' or char.isspace()):
+            if start is not None:
+                tokens.append((params_str[start:i], start, i))
+                start = None
+            if char in ',=':
+                tokens.append((char, i, i + 1))
+            continue
+        if start is None:
+            start = i
+        if char in '"\'':
+            if in_quotes is None:
+                in_quotes = char
+            elif in_quotes == char:
+                in_quotes = None
+        elif in_quotes is None:
+            if char in '{(':
+                depth += 1
+            elif char in '})':
+                depth = max(depth - 1, 0)
+
+    if start is not None:
+        tokens.append((params_str[start:].rstrip(), start, len(params_str.rstrip())))
     return tokens
 
 
+def tokenize_params(params_str: str) -> list[str]:
+    """Split by spaces and special operators (= and ,) but keep the operators as part of the tokens
+    Everything insider {} or () or "" or '' will be considered as part of the same token, so that parameters like
+    "key={value with spaces and commas}" are correctly parsed as a single token."""
+    return [token for token, _, _ in _tokenize_params(params_str)]
+
+
 def undress_designator(designator: str) -> str:
     """Removes any odd characters from the designator, such as §, which is sometimes used in the netlist but not always present. This is needed to compare the designator with the reference of the component, which does not contain these odd characters."""
     if len(designator) > 2 and designator[1] == '§':
         return designator[0] + designator[2:]
     return designator.upper()
 
+def _scan_params(params_str: str) -> list[list]:
+    """
+    Internal function. Finds the parameters in a string.
+
+    :return: list of [key, value, start, end, value_start], where start and end delimit the text of the parameter, and
+        value_start is where its value starts. It is None on the keywords, which have no value.
+    """
+    found: list[list] = []
+    tokens = _tokenize_params(params_str)
+    i = 0
+    while i < len(tokens):
+        token, start, stop = tokens[i]
+        following = tokens[i + 1][0] if i + 1 < len(tokens) else None
+        if token == '=':
+            raise ValueError(f"Unexpected '=' without a key before it in parameters string: {params_str}")
+        elif token == ',':
+            if not found or found[-1][4] is None:
+                raise ValueError(f"Unexpected ',' without a value after it in parameters string: {params_str}")
+            if following not in (None, ',', '='):  # another value of the list
+                if not isinstance(found[-1][1], list):
+                    found[-1][1] = [found[-1][1]]
+                found[-1][1].append(try_value(following))
+                found[-1][3] = tokens[i + 1][2]
+                i += 1
+        elif following == '=':
+            if i + 2 < len(tokens):
+                text, value_start, stop = tokens[i + 2]
+                if text in ('=', ','):
+                    raise ValueError(f"Unexpected '{text}' without a value before it in parameters string: {params_str}")
+                found.append([token, try_value(text), start, stop, value_start])
+            i += 2
+        else:
+            is_number = isinstance(try_value(token), float | int)
+            if is_number:
+                if found and found[-1][4] is not None:
+                    # we consider it as a list of values for the last key
+                    found[-1][1] = f"{found[-1][1]} {token}"
+                    found[-1][3] = stop
+                # Otherwise it doesn't belong to any parameter. Example: the area of a diode
+            elif token in VERILOG_TYPES:
+                pass  # it qualifies the key that follows
+            elif following is not None and isinstance(try_value(following), float | int) and \
+                    (i + 2 >= len(tokens) or tokens[i + 2][0] != '='):
+                found.append([token, try_value(following), start, tokens[i + 1][2], tokens[i + 1][1]])
+                i += 1
+            else:
+                found.append([token, True, start, stop, None])  # a keyword, such as noiseless or off
+        i += 1
+    return found
+
+
 def _parse_params(params_str: str) -> dict:
     """
     Parses the parameters string and returns a dictionary with the parameters.
     The parameters, which can be in the form of "key=value", but the value
     can contain spaces and commas, such as "key=value1, value2". Also handle type qualifiers such
     as "type key=value" where the types are the verilog defined types as defined in VERILOG_TYPES.
+    Keywords that are not followed by an '=' are considered as parameters with the value True.
 
     :param params_str: input
     :type params_str: str
@@ -139,64 +190,19 @@ def _parse_params(params_str: str) -> dict:
     :rtype: dict
     """
     params = OrderedDict()
+    for key, value, *_ in _scan_params(params_str):
+        params[key] = value
+    return params
 
-    # Now we have a list of tokens, we can parse them into key-value pairs
-    tokens = tokenize_params(params_str)
-    if not tokens:
-        return params  # empty parameters because there were no tokens
 
-    key = None # current key being parsed, we expect the next token to be its value
-    last_key = None  # last key parsed, we expect the next token to be a comma if we are parsing a list of values for the same key
-    # var_type = None # if the current token is a type qualifier, we store it here and apply it to the next key we find
-    is_list = False  #
+def _param_text(key: str, value) -> str:
+    """Internal function. The text of a parameter in the netlist"""
+    if value is True and key not in SPICE_KEYWORDS:
+        return key  # a word without value, such as the off of a diode
+    if isinstance(value, (list, tuple)):
+        value = ','.join(str(v) for v in value)
+    return f"{key}={value}"
 
-    for token in tokens:
-        if token == '=':
-            if key is None:
-                raise ValueError(f"Unexpected '=' without a key before it in parameters string: {params_str}")
-            continue
-        elif token == ',':
-            if last_key and last_key in params:
-                is_list = True
-            else:
-                raise ValueError(f"Unexpected ',' without a value after it in parameters string: {params_str}")
-        else:
-            value = try_value(token)
-            if is_list:
-                if last_key is None:
-                    raise ValueError(f"Unexpected value '{token}' without a key in parameters string: {params_str}")
-                # already assured that the
-                if isinstance(params[last_key], list):
-                    params[last_key].append(value)
-                else:
-                    params[last_key] = [params[last_key], value]
-                is_list = False
-            elif key is None:
-                if token in SPICE_KEYWORDS:
-                    # if the token is a keyword, we consider it as a key with value True
-                    params[token] = True
-                elif token in VERILOG_TYPES:
-                    # if the token is a verilog type, we consider it as a type qualifier for the next key
-                    var_type = token
-                elif isinstance(value, float | int) and last_key in params:
-                    # if the token can be converted to a value, we consider it as a list of values for the last key
-                    if isinstance(params[last_key], str):
-                        params[last_key] += f" {token}"
-                    else:
-                        params[last_key] = f"{params[last_key]} {token}"
-                else:
-                    key = token
-            else:
-                # if var_type:
-                #    # if there is a type qualifier, we prepend it to the key
-                #    params[key] = (value, var_type)
-                #    var_type = None
-                # else:
-                params[key] = value
-                last_key = key
-                key = None
-
-    return params
 
 def _insert_section(line: str, start: int, end: int, section: str) -> str:
     """
@@ -238,6 +244,10 @@ class SpiceComponent(Component):
     #         return self._netlist.parent_reference() + self.reference
     #     return self.reference
 
+    def _line_without_breaks(self) -> str:
+        """Internal function. The text of the component in one line"""
+        return re.sub(r'[\n\r]+\s*', ' ', self._obj.lstrip())
+
     def reset_attributes(self):
         """Update attributes of a component at a specific line in the netlist
 
@@ -250,14 +260,14 @@ class SpiceComponent(Component):
         """
         if self._obj is None:
             return
-        prefix = self._obj[0]
+        new_line = self._line_without_breaks()
+        prefix = new_line[:1].upper()
         regex = component_replace_regexs.get(prefix, None)
         if regex is None:
             error_msg = f"Component must start with one of these letters: {','.join(REPLACE_REGEXS.keys())}\n" \
                         f"Got {self._obj}"
             _logger.error(error_msg)
             raise NotImplementedError(error_msg)
-        new_line = re.sub(r'[\n\r]+\s*', ' ', self._obj) # cleans up line breaks and extra spaces and tabs
         match = regex.match(new_line)
         if match is None or match.span() == (0, 0):
             raise UnrecognizedSyntaxError(self._obj, regex.pattern)
@@ -288,29 +298,31 @@ class SpiceComponent(Component):
         :return: Number of characters written
         :rtype: int
         """
-        # Reconstruct the line from the attributes. This will not preserve the original formatting, by reparsing
-        # again the line updating the parameters.
-        prefix = self.reference[0]
+        # Reconstruct the line from the attributes. This preserves the original formatting, by parsing the line again and
+        # replacing only the texts that are different.
+        try:
+            self.attributes
+        except (UnrecognizedSyntaxError, NotImplementedError, ValueError):
+            # It isn't understood, and therefore it didn't change
+            stream.write(self._obj)
+            return len(self._obj)
+        new_line = self._line_without_breaks()
+        prefix = new_line[:1].upper()
         regex = component_replace_regexs.get(prefix, None)
         if regex is None:
             error_msg = f"Component must start with one of these letters: {','.join(REPLACE_REGEXS.keys())}\n" \
                         f"Got {self._obj}"
             _logger.error(error_msg)
             raise NotImplementedError(error_msg)
-        match = regex.match(self._obj)
+        match = regex.match(new_line)
         if match is None:
             raise UnrecognizedSyntaxError(self._obj, regex.pattern)
         info = match.groupdict()
-        if self._obj is not None:
-            new_line: str = self._obj[:]  # make a copy
-        else:
-            new_line = ''
-        new_line = re.sub(r'[\n\r]+\s*', ' ', new_line)
-        offset = 0
-        update_done = False
+        end = max(match.end(attr) for attr in info)  # From here on there are only comments
+        edits = []  # list of (start, stop, text) to be replaced
         for attr in info:
             start, stop = match.span(attr)
-            if start == -1 and stop == -1 and attr not in self._attributes:
+            if start == -1 and attr not in self._attributes:
                 continue  # this attribute is not present in the line, skip it
             if attr == 'designator':
                 old_ref = undress_designator(info[attr])
@@ -319,70 +331,54 @@ class SpiceComponent(Component):
                         new_ref = self.reference[0] + '§' + self.reference[1:]
                     else:
                         new_ref = self.reference
-                    new_line = _insert_section(new_line, start + offset, stop + offset, new_ref)
-                    offset += len(new_ref) - len(old_ref)
-                    update_done = True
+                    edits.append((start, stop, new_ref))
             elif attr == 'nodes':
-                old_nodes_str = info[attr]
                 new_nodes_str = ' ' + self.port_names(' ')
-                if old_nodes_str != new_nodes_str:
-                    new_line = _insert_section(new_line, start + offset, stop + offset, new_nodes_str)
-                    offset += len(new_nodes_str) - len(old_nodes_str)
-                    update_done = True
+                if info[attr] != new_nodes_str:
+                    edits.append((start, stop, new_nodes_str))
             elif attr == 'params':
                 old_params_str = info[attr] or ""  # in case of no params, make it empty string
-                old_params = _parse_params(old_params_str)
-                # Now compare the old params with the new params, if they are different, we need to update the line
-                differences = False
-                for key in self.params:
-                    if key not in old_params:
-                        differences = True
-                        break
-                    if self.params[key] != old_params[key]:
-                        differences = True
-                        break
-                else:
-                    for key in old_params:
-                        if key not in self.params:
-                            differences = True
-                            break
-                if differences:
-                    new_params = []
-                    for key, value in self.params.items():
-                        if isinstance(value, list):
-                            value_str = ','.join(str(v) for v in value)
-                        else:
-                            value_str = str(value)
-                        new_params.append(f"{key}={value_str}")
-                    new_params_str = ' '.join(new_params)
-                    if start == -1 and stop == -1:
-                        # params were not present in the original line, we need to add them at the end, or just before the comment if there is one
-                        comment_index = new_line.find(';')
-                        if comment_index != -1:
-                            new_line = new_line[:comment_index].rstrip() + ' ' + new_params_str + ' ' + new_line[comment_index:]
-                        else:
-                            new_line += ' ' + new_params_str
-                    else:
-                        new_line = _insert_section(new_line, start + offset, stop + offset, new_params_str)
-                    offset += len(new_params_str) - len(old_params_str)
-                    update_done = True
-            else:
-                if hasattr(self, attr):
-                    old_attr_value = info[attr]
-                    new_attr_value = self._attributes[attr]
-                    if isinstance(new_attr_value, (float, int)):
-                        new_attr_value = format_eng(new_attr_value)
-                    if old_attr_value != new_attr_value:
-                        new_line = _insert_section(new_line, start + offset, stop + offset, new_attr_value)
-                        offset += len(new_attr_value) - len(old_attr_value)
-                        update_done = True
-                else:
-                    pass  # attribute not present, do nothing
-        if not update_done:
+                if start == -1:
+                    start = end
+                old_params = _scan_params(old_params_str)
+                new_params = {key: value for key, value in self.params.items() if value is not None and value is not False}
+                if new_params != {key: value for key, value, *_ in old_params}:
+                    # The parameters are written in the same order, together with the words that aren't parameters
+                    texts = []
+                    position = 0
+                    for key, _, first, last, _ in old_params:
+                        texts.append(old_params_str[position:first].strip())
+                        position = last
+                        if key in new_params:
+                            texts.append(_param_text(key, new_params.pop(key)))
+                    texts.append(old_params_str[position:].strip())
+                    texts.extend(_param_text(key, value) for key, value in new_params.items())
+                    new_params_str = ' '.join(text for text in texts if text)
+                    if new_params_str and start > 0 and not new_line[start - 1].isspace():
+                        new_params_str = ' ' + new_params_str
+                    edits.append((start, start + len(old_params_str.rstrip()), new_params_str))
+            elif attr in self._attributes:
+                old_attr_value = info[attr]
+                new_attr_value = self._attributes[attr]
+                if isinstance(new_attr_value, (float, int)):
+                    new_attr_value = format_eng(new_attr_value)
+                if old_attr_value is None or old_attr_value.strip() != new_attr_value.strip():
+                    if start == -1:
+                        start = stop = match.end('nodes')
+                    new_attr_value = new_attr_value.strip()
+                    if start > 0 and not new_line[start - 1].isspace():
+                        new_attr_value = ' ' + new_attr_value
+                    if stop < len(new_line) and not new_line[stop].isspace():
+                        new_attr_value += ' '
+                    edits.append((start, stop, new_attr_value))
+        if edits:
+            # from the end to the beginning, so that the positions remain valid. In the same place, the last is written first
+            for start, stop, text in sorted(reversed(edits), key=lambda edit: edit[0], reverse=True):
+                new_line = new_line[:start] + text + new_line[stop:]
+            new_line = new_line.rstrip() + END_LINE_TERM
+        else:
             # nothing changed, write original line
             new_line = self.obj or ""
-        else:
-            new_line += END_LINE_TERM
         stream.write(new_line)
         return len(new_line)
 
diff --git a/spicelib/editor/spice_subcircuit.py b/spicelib/editor/spice_subcircuit.py
index c859457..8fb7823 100644
--- a/spicelib/editor/spice_subcircuit.py
+++ b/spicelib/editor/spice_subcircuit.py
@@ -70,7 +70,7 @@ def get_line_command(line: str | Primitive) -> str:
     elif isinstance(line, IncludeFile):
         return ".INCLUDE"
     elif isinstance(line, (SpiceComponent, SpiceCircuitInstance)):
-        return line.obj[0] # pyright: ignore[reportOptionalSubscript]
+        return line.obj.lstrip()[0].upper() # pyright: ignore[reportOptionalMemberAccess]
     elif isinstance(line, Primitive):
         return get_line_command(line.obj) # pyright: ignore[reportArgumentType]
     else:
@@ -840,7 +840,7 @@ class SpiceCircuit(BaseSubCircuit):
                 prefix = get_line_command(line)
                 if prefix in component_replace_regexs:
                     regex = component_replace_regexs[prefix]
-                    match = regex.match(line.obj) # pyright: ignore[reportAssignmentType]
+                    match = regex.match(line.obj.strip()) # pyright: ignore[reportOptionalMemberAccess]
                     if match:
                         nodes = match.group('nodes').split()  # This separates by all space characters including \t
                         for node in nodes:
-- 
2.43.0


From d8f739b1767e672e6129dd2e8472023329f0878f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:20 +0000
Subject: [PATCH 046/124] fix: iterating, adding components to a netlist and
 setting their value together with parameters

---
 spicelib/editor/spice_components.py |  3 +++
 spicelib/editor/spice_subcircuit.py | 28 ++++++++++++----------------
 2 files changed, 15 insertions(+), 16 deletions(-)

diff --git a/spicelib/editor/spice_components.py b/spicelib/editor/spice_components.py
index 2340e02..3789343 100644
--- a/spicelib/editor/spice_components.py
+++ b/spicelib/editor/spice_components.py
@@ -440,6 +440,9 @@ class SpiceComponent(Component):
 
     def set_parameter(self, key: str, value):
         """Informs the netlist that a parameter of the component has changed"""
+        if key in ('value', 'Value') and value is not None and key not in self.params:
+            self.set_value(value)  # The value of the component, given together with its parameters
+            return
         perm = SpiceComponent.begin_update(self)
         if perm == UpdatePermission.Deny:
             raise PermissionError("Updates are currently not allowed")
diff --git a/spicelib/editor/spice_subcircuit.py b/spicelib/editor/spice_subcircuit.py
index 8fb7823..da12530 100644
--- a/spicelib/editor/spice_subcircuit.py
+++ b/spicelib/editor/spice_subcircuit.py
@@ -521,17 +521,11 @@ class SpiceCircuit(BaseSubCircuit):
         for component in circuit:
             print(component)
         """
-        for line_no, line in enumerate(self.netlist):
-            if isinstance(line, SpiceCircuit):
-                yield from line
-            elif isinstance(line, ControlEditor):
-                continue  # no components here, just control commands
-            elif isinstance(line, IncludeFile):
+        for line in self.netlist:
+            if isinstance(line, (SpiceCircuit, IncludeFile)):
                 yield from line
-            else:
-                cmd = get_line_command(line)
-                if cmd in VALID_PREFIXES:
-                    yield SpiceComponent(self, line_no)
+            elif isinstance(line, SpiceComponent):
+                yield line
 
     def get_component_attribute(self, reference: str, attribute: str) -> str | None:
         """
@@ -790,21 +784,23 @@ class SpiceCircuit(BaseSubCircuit):
         permission = self.begin_update()
         if permission == UpdatePermission.Deny:
             raise ValueError("Editor is read-only")
+        existing = [line for line in self.netlist if isinstance(line, SpiceComponent) and
+                    line.reference.upper() == component.reference.upper()]
         if 'insert_before' in kwargs:
             comp = self.get_component(kwargs['insert_before'])
             line_no = self.netlist.index(comp)
         elif 'insert_after' in kwargs:
             comp = self.get_component(kwargs['insert_after'])
             line_no = self.netlist.index(comp) + 1
+        elif existing:
+            line_no = self.netlist.index(existing[0])  # takes its place
         else:
-            # Insert before backanno instruction
-            try:
-                line_no = self.netlist.index(
-                    '.backanno\n')  # TODO: Improve this. END of line termination could be differnt
-            except ValueError:
-                line_no = len(self.netlist) - 2
+            line_no = self._end_of_circuit()
 
         self.netlist.insert(line_no, component)
+        for line in existing:
+            if line is not component:
+                self.netlist.remove(line)
         if permission == UpdatePermission.Inform:
             self.end_update(component.reference, component.value_str, UpdateType.AddComponent)
 
-- 
2.43.0


From 75985de87023f10ccd2a47cb956d9580e2c9c5e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:19 +0000
Subject: [PATCH 047/124] fix: a logarithmic sweep whose limits are the same
 has one item

---
 spicelib/utils/sweep_iterators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spicelib/utils/sweep_iterators.py b/spicelib/utils/sweep_iterators.py
index fa5edc3..9677233 100644
--- a/spicelib/utils/sweep_iterators.py
+++ b/spicelib/utils/sweep_iterators.py
@@ -135,8 +135,8 @@ class sweep_log(BaseIterator):
     def __next__(self):
         val = self.val  # Store previous value
         self.val *= self.step  # Calculate the next item
-        if (self.start < self.stop and val <= self.stop) or \
-           (self.start > self.stop and val >= self.stop):
+        if (self.step > 1 and val <= self.stop) or \
+           (self.step < 1 and val >= self.stop):
             return val
         else:
             self.finished = True
-- 
2.43.0


From 469be9a67d263475ebe5a863d42e6d074c33b606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:19 +0000
Subject: [PATCH 048/124] fix: SimStepper accepts one-shot iterators, announces
 empty sweeps and exports tables of several sweeps

---
 spicelib/sim/sim_stepping.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/spicelib/sim/sim_stepping.py b/spicelib/sim/sim_stepping.py
index 4662917..87ef30c 100644
--- a/spicelib/sim/sim_stepping.py
+++ b/spicelib/sim/sim_stepping.py
@@ -38,7 +38,8 @@ class StepInfo:
     def __init__(self, what: str, elem: str, iterable: Iterable):
         self.what = what
         self.elem = elem
-        self.iter = iterable
+        # Iterators can only be used once, or by one dimension at a time, so their values are stored.
+        self.iter = list(iterable) if iter(iterable) is iterable else iterable
 
     def __len__(self):
         return len(list(self.iter))
@@ -156,9 +157,8 @@ class SimStepper(AnyRunner):
         total = 1
         for step in self.iter_list:
             l = len(step)
-            if l:
-                total *= l
-            else:
+            total *= l
+            if l == 0:
                 _logger.debug(f"'{step}' is empty.")
         return total
 
@@ -252,8 +252,10 @@ class SimStepper(AnyRunner):
         rows = [runno for runno in self.sim_info]
         rows.sort()
 
-        # Extract column names from the first dictionary
-        fieldnames = ['runno'] + list(self.sim_info[rows[0]].keys())
+        # Extract column names from the dictionaries, as the simulations may have been done with different sweeps
+        fieldnames = ['runno']
+        for runno in rows:
+            fieldnames.extend(name for name in self.sim_info[runno] if name not in fieldnames)
 
         # Open a CSV file for writing
         with open(export_filename, 'w', newline='') as csvfile:
-- 
2.43.0


From a78962edf6bffda4e3d70339c48e35dcc057c6ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:58 +0000
Subject: [PATCH 049/124] fix: instances of subcircuits named in another letter
 case, with other characters or in quoted libraries

---
 spicelib/editor/primitives.py                | 5 ++++-
 spicelib/editor/spice_subcircuit.py          | 9 +++++----
 spicelib/editor/spice_subcircuit_instance.py | 4 ++--
 spicelib/editor/spice_utils.py               | 6 +++---
 4 files changed, 14 insertions(+), 10 deletions(-)

diff --git a/spicelib/editor/primitives.py b/spicelib/editor/primitives.py
index 08157fd..ee093f6 100644
--- a/spicelib/editor/primitives.py
+++ b/spicelib/editor/primitives.py
@@ -312,7 +312,10 @@ class Component(Primitive):
         newone = type(self)()
         newone._netlist = new_parent or self._netlist
         newone._obj = copy.deepcopy(self._obj)
-        newone._attributes = copy.deepcopy(self._attributes)
+        # The ports are created again, as the nets know the components they connect
+        newone._attributes = {name: copy.deepcopy(value) for name, value in self._attributes.items() if name != 'ports'}
+        if 'ports' in self._attributes:
+            newone._set_ports(self.port_list())
         newone._reference = self._reference
         return newone
 
diff --git a/spicelib/editor/spice_subcircuit.py b/spicelib/editor/spice_subcircuit.py
index da12530..64c2664 100644
--- a/spicelib/editor/spice_subcircuit.py
+++ b/spicelib/editor/spice_subcircuit.py
@@ -325,7 +325,7 @@ class SpiceCircuit(BaseSubCircuit):
         """
         for line in self.netlist:
             if isinstance(line, SpiceCircuit):
-                if line.name() == name:
+                if line.name().upper() == name.upper():
                     return line
             elif isinstance(line, IncludeFile):
                 # Searches inside the Include File
@@ -423,13 +423,14 @@ class SpiceCircuit(BaseSubCircuit):
                 line = self.netlist[line_no]
                 if isinstance(line, Primitive):
                     line: str = line.obj # pyright: ignore[reportAssignmentType]
-                m = subckt_regex.search(line)
+                # The circuits this one contains have their own names
+                m = subckt_regex.search(line) if isinstance(line, str) else None
                 if m:
                     # Replacing the name in the SUBCKT Clause
                     start = m.start('name')
                     end = m.end('name')
                     # print(f"Replacing '{line[start:end]}' with '{new_name}'")
-                    self.netlist[line_no] = _insert_section(line, start, end, new_name) + END_LINE_TERM
+                    self.netlist[line_no] = Primitive(netlist=self, obj=_insert_section(line, start, end, new_name) + END_LINE_TERM)
                     break
                 line_no += 1
             else:
@@ -967,7 +968,7 @@ class SpiceCircuit(BaseSubCircuit):
         :meta private:
         """
         # 0. Setup things
-        reg_subckt = re.compile(SUBCKT_CLAUSE_FIND + subckt_name, re.IGNORECASE)
+        reg_subckt = re.compile(SUBCKT_CLAUSE_FIND + re.escape(subckt_name) + r"(?=[\s(]|$)", re.IGNORECASE)
         # 1. Find Encoding
         try:
             encoding = detect_encoding(library, r"[\* a-zA-Z]")
diff --git a/spicelib/editor/spice_subcircuit_instance.py b/spicelib/editor/spice_subcircuit_instance.py
index bc79aaa..610cb21 100644
--- a/spicelib/editor/spice_subcircuit_instance.py
+++ b/spicelib/editor/spice_subcircuit_instance.py
@@ -44,7 +44,7 @@ class SpiceCircuitInstance(SpiceComponent, BaseSubCircuitInstance):
         """Resets the sub-circuit instance to its original state."""
         super().reset_attributes()
         # The instruction below might fail if the sub-circuit was not parsed in the parent netlist.
-        self._subcircuit = self._netlist.get_subcircuit_named(self.value)  # In case it isn't given, get it from the parent
+        self._subcircuit = self._netlist.get_subcircuit_named(self.value_str)  # In case it isn't given, get it from the parent
 
     @property
     def subcircuit(self):
@@ -52,7 +52,7 @@ class SpiceCircuitInstance(SpiceComponent, BaseSubCircuitInstance):
         saved if there is an update made to it."""
         if self._subcircuit is None:
             # Try to get it from the parent netlist
-            self._subcircuit = self._netlist.get_subcircuit_named(self.value) # pyright: ignore[reportOptionalMemberAccess]
+            self._subcircuit = self._netlist.get_subcircuit_named(self.value_str) # pyright: ignore[reportOptionalMemberAccess]
             if self._subcircuit is None:
                 raise AssertionError(f"Couldn't find the subcircuit named \"{self.value}\"")
             self.shadow_subcircuit = None
diff --git a/spicelib/editor/spice_utils.py b/spicelib/editor/spice_utils.py
index 5ec99ad..4b65735 100644
--- a/spicelib/editor/spice_utils.py
+++ b/spicelib/editor/spice_utils.py
@@ -53,10 +53,10 @@ SPICE_DOT_INSTRUCTIONS = (
     '.WAVE',  # Write Selected Nodes to a .Wav File
 
 )
-SUBCKT_CLAUSE_FIND = r"^.SUBCKT\s+"
-subckt_regex = re.compile(r"^.SUBCKT\s+(?P<name>[\w\.]+)", re.IGNORECASE)
+SUBCKT_CLAUSE_FIND = r"^\s*\.SUBCKT\s+"
+subckt_regex = re.compile(r"^\s*\.SUBCKT\s+(?P<name>[^\s(]+)", re.IGNORECASE)
 lib_inc_regex = re.compile(
-    r"^\.(LIB|INC(LUDE)?)\s+(?P<filename>.+?)\s*(?:[;*].*)?$",
+    r"^\.(LIB|INC(LUDE)?)\s+(?P<quote>[\"']?)(?P<filename>.+?)(?P=quote)\s*(?:[;*].*)?$",
     re.IGNORECASE
 )
 
-- 
2.43.0


From c4c7ce1344eb28ba0c5a55c6133089ef0d78843c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:58 +0000
Subject: [PATCH 050/124] fix: the copy of a subcircuit takes a name that no
 other has

---
 spicelib/editor/spice_subcircuit_instance.py | 23 +++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/spicelib/editor/spice_subcircuit_instance.py b/spicelib/editor/spice_subcircuit_instance.py
index 610cb21..2db655c 100644
--- a/spicelib/editor/spice_subcircuit_instance.py
+++ b/spicelib/editor/spice_subcircuit_instance.py
@@ -58,10 +58,31 @@ class SpiceCircuitInstance(SpiceComponent, BaseSubCircuitInstance):
             self.shadow_subcircuit = None
         if self.shadow_subcircuit is None:
             # In all cases it creates a new copy of the subcircuit, it is only writen to the netlist if it was modified.
-            new_name = self.value_str + '_' + self.reference
+            name = new_name = self.value_str + '_' + self.reference
+            names_in_use = self._subcircuit_names_in_use()
+            i = 1
+            while new_name.upper() in names_in_use:
+                i += 1
+                new_name = f"{name}_{i}"
             self.shadow_subcircuit = self._subcircuit.clone(self, new_name=new_name)
         return self.shadow_subcircuit
 
+    def _subcircuit_names_in_use(self) -> set[str]:
+        """Internal function. The names, in upper case, that a copy of the sub-circuit can't have."""
+        names = set()
+        circuit = self._netlist
+        while circuit is not None:
+            for line in getattr(circuit, 'netlist', ()):
+                if isinstance(line, SpiceCircuitInstance):
+                    if line.shadow_subcircuit is not None:
+                        names.add(line.shadow_subcircuit.name().upper())
+                elif isinstance(line, BaseSubCircuit):
+                    names.add(line.name().upper())
+                elif getattr(line, 'editor', None) is not None:  # A file that is included
+                    names.update(name.upper() for name in line.editor.get_subcircuit_names())
+            circuit = circuit.parent
+        return names
+
     def get_subcircuit_named(self, name: str) -> BaseSubCircuit | None:
         """Returns the sub-circuit instance with the given name. This is used to get the sub-circuit instance of a sub-circuit instance."""
         if self.parent:
-- 
2.43.0


From 6bb2c3fe4f0c2480aa37770ec7d25daa88371ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:29 +0000
Subject: [PATCH 051/124] fix: a component line whose last parameter is removed
 no longer announces parameters

---
 spicelib/editor/spice_components.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/spicelib/editor/spice_components.py b/spicelib/editor/spice_components.py
index 3789343..595d188 100644
--- a/spicelib/editor/spice_components.py
+++ b/spicelib/editor/spice_components.py
@@ -356,7 +356,10 @@ class SpiceComponent(Component):
                     new_params_str = ' '.join(text for text in texts if text)
                     if new_params_str and start > 0 and not new_line[start - 1].isspace():
                         new_params_str = ' ' + new_params_str
-                    edits.append((start, start + len(old_params_str.rstrip()), new_params_str))
+                    stop = start + len(old_params_str.rstrip())
+                    if not new_params_str:  # nothing remains to be announced
+                        start = re.search(r'(\bparams:\s*)?$', new_line[:start], re.IGNORECASE).start()
+                    edits.append((start, stop, new_params_str))
             elif attr in self._attributes:
                 old_attr_value = info[attr]
                 new_attr_value = self._attributes[attr]
-- 
2.43.0


From 3213e6961ebdc327fb427b7a9329403be9e4de07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:31 +0000
Subject: [PATCH 052/124] fix: files included in a subcircuit are known to its
 instances, and libraries may start with a definition

---
 spicelib/editor/spice_subcircuit.py | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/spicelib/editor/spice_subcircuit.py b/spicelib/editor/spice_subcircuit.py
index 64c2664..1a251dd 100644
--- a/spicelib/editor/spice_subcircuit.py
+++ b/spicelib/editor/spice_subcircuit.py
@@ -333,9 +333,11 @@ class SpiceCircuit(BaseSubCircuit):
                     sub_ckt = line.editor.get_subcircuit_named(name)
                     if sub_ckt:
                         return sub_ckt
-        if self.parent is not None:
+        # If it is not found in the current circuit, it may be in the included libraries
+        sub_ckt = self._find_subckt_in_own_libs(name)
+        if sub_ckt is None and self.parent is not None:
             return self.parent.get_subcircuit_named(name)
-        return self.find_subckt_in_included_libs(name)  # If it is not found in the current circuit, it may be in the included libraries
+        return sub_ckt
 
     def get_subcircuit(self, instance_name: str) -> 'SpiceCircuit':
         """
@@ -378,7 +380,7 @@ class SpiceCircuit(BaseSubCircuit):
             elif isinstance(primitive, SpiceComponent):
                 clone.netlist.append(primitive.clone(clone))
             elif isinstance(primitive, Primitive):
-                clone.netlist.append(Primitive(netlist=clone, obj=primitive.obj))
+                clone.netlist.append(type(primitive)(netlist=clone, obj=primitive.obj))
             else:
                 clone.netlist.append(primitive)
         clone.netlist.append("***** ENDS SpiceEditor ****" + END_LINE_TERM)
@@ -971,7 +973,7 @@ class SpiceCircuit(BaseSubCircuit):
         reg_subckt = re.compile(SUBCKT_CLAUSE_FIND + re.escape(subckt_name) + r"(?=[\s(]|$)", re.IGNORECASE)
         # 1. Find Encoding
         try:
-            encoding = detect_encoding(library, r"[\* a-zA-Z]")
+            encoding = detect_encoding(library, r"[\*\s.;$a-zA-Z]")
         except EncodingDetectError:
             return None
         #  2. scan the file
@@ -1018,6 +1020,17 @@ class SpiceCircuit(BaseSubCircuit):
         :rtype: SpiceCircuit
         :meta private:
         """
+        circuit = self
+        while circuit is not None:
+            if isinstance(circuit, SpiceCircuit):
+                sub_circuit = circuit._find_subckt_in_own_libs(subcircuit_name)
+                if sub_circuit:
+                    return sub_circuit
+            circuit = circuit.parent  # try searching on parent netlists
+        return None
+
+    def _find_subckt_in_own_libs(self, subcircuit_name: str) -> 'SpiceCircuit | None':
+        """Internal function. Do not use. Finds the subcircuit in the libraries that this circuit includes."""
         for line in self.netlist:
             if isinstance(line, SpiceCircuit):  # If it is a sub-circuit it will simply ignore it.
                 continue
@@ -1035,12 +1048,7 @@ class SpiceCircuit(BaseSubCircuit):
                         # Success we can go out
                         # by the way, this circuit will have been marked as readonly
                         return sub_circuit
-        if self.parent is not None:
-            # try searching on parent netlists
-            parent: SpiceCircuit = self.parent # pyright: ignore[reportAssignmentType]
-            return parent.find_subckt_in_included_libs(subcircuit_name)
-        else:
-            return None
+        return None
 
     def modified_subcircuits(self) -> list['SpiceCircuit']:
         """
-- 
2.43.0


From 42b2373f041958b14a4dbe8092f8b717472db0fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:54 +0000
Subject: [PATCH 053/124] fix: LTspice -ini is one argument, -normal is
 accepted as documented

---
 spicelib/simulators/ltspice_simulator.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/spicelib/simulators/ltspice_simulator.py b/spicelib/simulators/ltspice_simulator.py
index 2fcaecc..ae4d809 100644
--- a/spicelib/simulators/ltspice_simulator.py
+++ b/spicelib/simulators/ltspice_simulator.py
@@ -155,13 +155,14 @@ class LTspice(Simulator):
         '-FixUpSymbolFonts'   : ['-FixUpSymbolFonts'],
         # Convert the font size field of very old user - authored symbols to the modern default.
         # See Changelog.txt for application hints.
-        '-ini'                : ['- ini', '<path>'],  # Specify an .ini file to use other than %APPDATA%\LTspice.ini
+        '-ini'                : ['-ini', '<path>'],  # Specify an .ini file to use other than %APPDATA%\LTspice.ini
         '-I'                  : ['-I<path>'],  # Specify a path to insert in the symbol and file search paths.
         # Must be the last specified option.
         # No space between "-I" and < path > is allowed.
         '-max'                : ['-max'],  # Synonym for -big
         '-netlist'            : ['-netlist'],  # Batch conversion of a schematic to a netlist.
         '-norm'               : ['-norm'],  # Set solver to Normal.
+        '-normal'             : ['-norm'],  # Documented name of the above
         '-PCBnetlist': ['-PCBnetlist'],  # Batch conversion of a schematic to a PCB format netlist.
         # 'run'              : ['-Run', '-b', '{path}'],  # Start simulating the schematic opened on the command line without
         # pressing the Run button.
@@ -196,7 +197,7 @@ class LTspice(Simulator):
         * `-I<path>`: Specify a path to insert in the symbol and file search paths. Must be the last specified option.
         * `-netlist`: Batch conversion of a schematic to a netlist.
         * `-normal`: Set solver to Normal.
-        * `-PCBnetlistBatch`: Conversion of a schematic to a PCB format netlist.
+        * `-PCBnetlist`: Batch conversion of a schematic to a PCB format netlist.
         * `-SOI`: Allow MOSFET's to have up to 7 nodes even in subcircuit expansion.
         * `-sync`: Update component libraries
             
-- 
2.43.0


From 3e31a6e43e5fd90f6076e872e561b8ae272170f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:58 +0000
Subject: [PATCH 054/124] fix: Xyce switches -nox, -linsolv, -o,
 -local_variation and -param are passed on, and the option table is not handed
 out

---
 spicelib/simulators/xyce_simulator.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/spicelib/simulators/xyce_simulator.py b/spicelib/simulators/xyce_simulator.py
index a77b48b..daeeb1b 100644
--- a/spicelib/simulators/xyce_simulator.py
+++ b/spicelib/simulators/xyce_simulator.py
@@ -92,13 +92,15 @@ class XyceSimulator(Simulator):
         # set option for redefined .params as ignore (use last), usefirst, warn or error
         '-subckt_multiplier': ['-subckt_multiplier', '<truefalse_option>'],
         # set option to true(default) or false to apply implicit subcircuit multipliers
+        '-local_variation'  : ['-local_variation', '<truefalse_option>'],
+        # set option to true(default) or false to enable local variation in UQ analysis
         '-delim'            : ['-delim', '<delim_option>'],  # <TAB|COMMA|string>   set the output file field delimiter
         '-o'                : ['-o', '<basename>'],  # <basename> for the output file(s)
         # '-l'                : ['-l', '<path>'],  # place the log output into <path>, "cout" to log to stdout
         '-per-processor'    : ['-per-processor'],  # create log file for each processor, add .<n>.<r> to log path
         '-remeasure'        : ['-remeasure', '<path>'],
         # [existing Xyce output file] recompute .measure() results with existing data
-        '-nox'              : ['-nox', 'onoff_option'],  # <on|off>               NOX nonlinear solver usage
+        '-nox'              : ['-nox', '<onoff_option>'],  # <on|off>               NOX nonlinear solver usage
         '-linsolv'          : ['-linsolv', '<solver>'],  # <solver>           force usage of specific linear solver
         '-maxord'           : ['-maxord', '<int_option>'],  # <1..5>              maximum time integration order
         '-max-warnings'     : ['-max-warnings', '<int_option>'],  # <#>           maximum number of warning messages
@@ -179,11 +181,11 @@ class XyceSimulator(Simulator):
             switch_list = cls.xyce_args[switch]
             if len(switch_list) == 2:
                 param_token = switch_list[1]
-                if param_token == '<path>':
+                if param_token in ('<path>', '<basename>', '<solver>'):
                     ret = [switch_list[0], parameter]
                 elif param_token == '<param_options>':
-                    # Check for [device [level [<inst|mod>]]] syntax ??
-                    ret = [switch_list[0], parameter]  # TODO: this will probably not work, need to separate the parameters
+                    # [device [level [<inst|mod>]]], every word is an argument
+                    ret = [switch_list[0]] + parameter.split()
                 elif param_token == '<hsext_options>':
                     ret = [switch_list[0], parameter]
                 elif param_token == '<redef_param_option>':
@@ -209,7 +211,7 @@ class XyceSimulator(Simulator):
                 else:
                     _logger.warning(f"Invalid parameter {parameter} for switch '{switch}'")
             else:
-                ret = switch_list
+                ret = list(switch_list)  # the table is not handed out
         else:
             raise ValueError(f"Invalid Switch '{switch}'")
         return ret
-- 
2.43.0


From b282073ef7eaabab286f8d952cb94f305548bae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:00 +0000
Subject: [PATCH 055/124] fix: NGspice switches filled in by spicelib are
 ignored in their long form, -D takes a bare variable, and the option table is
 not handed out

---
 spicelib/simulators/ngspice_simulator.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/spicelib/simulators/ngspice_simulator.py b/spicelib/simulators/ngspice_simulator.py
index e193787..5dee4a5 100644
--- a/spicelib/simulators/ngspice_simulator.py
+++ b/spicelib/simulators/ngspice_simulator.py
@@ -102,7 +102,7 @@ class NGspiceSimulator(Simulator):
     }
     """:meta private:"""
     
-    _default_run_switches = ['-b', '-o', '-r', '-a']
+    _default_run_switches = ['-b', '-o', '-r', '-a', '--batch', '--output', '--rawfile', '--autorun']
     _compatibility_mode = 'kiltpsa'
 
     @classmethod
@@ -130,7 +130,7 @@ class NGspiceSimulator(Simulator):
         :return: the correct formatting for the switch
         """
         ret = []  # This is an empty switch
-        parameter = parameter.strip()
+        parameter = parameter.strip() if parameter is not None else ''
 
         # format check
         if switch is None:
@@ -147,18 +147,18 @@ class NGspiceSimulator(Simulator):
             return []        
         
         if switch in cls.ngspice_args:
-            if cls.set_compatibility_mode and (switch == '-D' or switch == '--define') and parameter.lower().startswith("ngbehavior"):
+            if (switch == '-D' or switch == '--define') and parameter.lower().startswith("ngbehavior"):
                 _logger.info(f"Switch {switch} {parameter} is already in the default switches, use 'set_compatibility_mode' instead")
                 return ret                
             switch_list = cls.ngspice_args[switch]
             if len(switch_list) == 2:
                 param_token = switch_list[1]
-                if param_token == '<FILE>' or param_token == '<TERM>' or (param_token == 'var_value' and '=' in parameter):
+                if param_token == '<FILE>' or param_token == '<TERM>' or (param_token == 'var_value' and parameter):
                     ret = [switch_list[0], parameter]
                 else:
                     _logger.warning(f"Invalid parameter {parameter} for switch '{switch}'")
             else:
-                ret = switch_list
+                ret = list(switch_list)  # the table is not handed out
         else:
             raise ValueError(f"Invalid Switch '{switch}'")
         return ret
-- 
2.43.0


From 1440e27e8f6372e872121e63f862d1d89eb89ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:03 +0000
Subject: [PATCH 056/124] fix: a command line switch without path adds one
 argument, and runs keep their own switches

---
 spicelib/sim/sim_runner.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/spicelib/sim/sim_runner.py b/spicelib/sim/sim_runner.py
index ac882cf..efeefe2 100644
--- a/spicelib/sim/sim_runner.py
+++ b/spicelib/sim/sim_runner.py
@@ -412,7 +412,7 @@ class SimRunner(AnyRunner):
         :returns: Nothing
         """
         self.cmdline_switches.append(switch)
-        if path is not None:
+        if path:
             self.cmdline_switches.append(path)
 
     def _on_output_folder(self, afile):
@@ -564,7 +564,7 @@ class SimRunner(AnyRunner):
 
         t0 = clock()  # Store the time for timeout calculation
         while clock() - t0 < timeout + 1:  # Give one second slack in relation to the task timeout
-            cmdline_switches = switches or self.cmdline_switches  # If switches are passed, they override the ones
+            cmdline_switches = switches or self.cmdline_switches.copy()  # If switches are passed, they override the ones
             # inside the class.
 
             if (wait_resource is False) or (self.active_threads() < self.parallel_sims):
@@ -609,7 +609,7 @@ class SimRunner(AnyRunner):
             switches = []
         run_netlist_file = self._prepare_sim(netlist, run_filename)
 
-        cmdline_switches = switches or self.cmdline_switches  # If switches are passed, they override the ones inside
+        cmdline_switches = switches or self.cmdline_switches.copy()  # If switches are passed, they override the ones inside
         # the class.
 
         if timeout is None:
-- 
2.43.0


From c38dc9f35d23902275f05edc2630eee0165caac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:21 +0000
Subject: [PATCH 057/124] fix: NGspice ngbehavior is only refused while a
 compatibility mode is set

---
 spicelib/simulators/ngspice_simulator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spicelib/simulators/ngspice_simulator.py b/spicelib/simulators/ngspice_simulator.py
index 5dee4a5..d127abd 100644
--- a/spicelib/simulators/ngspice_simulator.py
+++ b/spicelib/simulators/ngspice_simulator.py
@@ -147,7 +147,7 @@ class NGspiceSimulator(Simulator):
             return []        
         
         if switch in cls.ngspice_args:
-            if (switch == '-D' or switch == '--define') and parameter.lower().startswith("ngbehavior"):
+            if cls._compatibility_mode and (switch == '-D' or switch == '--define') and parameter.lower().startswith("ngbehavior"):
                 _logger.info(f"Switch {switch} {parameter} is already in the default switches, use 'set_compatibility_mode' instead")
                 return ret                
             switch_list = cls.ngspice_args[switch]
-- 
2.43.0


From fd99476923ace03178c77a6b3f27708e27fe23ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:35 +0000
Subject: [PATCH 058/124] fix: LTSPICEFOLDER is kept when the executable has
 its default name

---
 spicelib/simulators/ltspice_simulator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spicelib/simulators/ltspice_simulator.py b/spicelib/simulators/ltspice_simulator.py
index ae4d809..e3e4aaf 100644
--- a/spicelib/simulators/ltspice_simulator.py
+++ b/spicelib/simulators/ltspice_simulator.py
@@ -70,7 +70,7 @@ class LTspice(Simulator):
             spice_exe = [wine_executable, os.path.join(spice_folder, spice_executable)]
             process_name = spice_executable
         elif spice_folder:
-            spice_exe = [wine_executable, os.path.join(spice_folder, "/XVIIx64.exe")]
+            spice_exe = [wine_executable, os.path.join(spice_folder, "XVIIx64.exe")]
             process_name = "XVIIx64.exe"
         elif spice_executable:
             default_folder = os.path.expanduser(
-- 
2.43.0


From 512b9704bbd5b67cb351137f3b36374c1b4d8ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:31 +0000
Subject: [PATCH 059/124] fix: an oblique line touches the points it goes
 through whatever its slope

---
 spicelib/editor/base_schematic.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/spicelib/editor/base_schematic.py b/spicelib/editor/base_schematic.py
index 02fae2e..75390ae 100644
--- a/spicelib/editor/base_schematic.py
+++ b/spicelib/editor/base_schematic.py
@@ -178,14 +178,9 @@ class Line:
                     return True
         else:
             # The time saving tricks are over, the line is oblique, so, we have to do the math
-            # The line is defined by the equation y = m*x + b
-            # where m is the slope and b is the y intercept
-            m = (self.V2.Y - self.V1.Y) / (self.V2.X - self.V1.X)
-            b = self.V1.Y - m * self.V1.X
-            # Now we can calculate the Y value for the given X
-            y = m * point.X + b
-            # If the Y value is the same as the point Y, then the line passes through the point
-            if y == point.Y:
+            # The line is defined by the equation (y - y1) / (x - x1) = (y2 - y1) / (x2 - x1)
+            # which is evaluated without divisions, so that integer coordinates are compared exactly
+            if (point.Y - self.V1.Y) * (self.V2.X - self.V1.X) == (self.V2.Y - self.V1.Y) * (point.X - self.V1.X):
                 # Now we have to check if the point is within the line segment
                 if min(self.V1.X, self.V2.X) <= point.X <= max(self.V1.X, self.V2.X):
                     return True
-- 
2.43.0


From 32e32d27d377fc2fe5d59e689bc6a83446224453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:35 +0000
Subject: [PATCH 060/124] fix: the sum of two rotations is a rotation and keeps
 the mirroring

---
 spicelib/editor/base_schematic.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/spicelib/editor/base_schematic.py b/spicelib/editor/base_schematic.py
index 75390ae..8693d6a 100644
--- a/spicelib/editor/base_schematic.py
+++ b/spicelib/editor/base_schematic.py
@@ -113,7 +113,9 @@ class ERotation(enum.IntEnum):
     #     return ERotation((((self.value + 180) % 360) + 360) % 720)
 
     def __add__(self, rotation: 'ERotation'):
-        return (self.value + rotation.value) % 360
+        # The sum of two rotations is a rotation, mirrored if exactly one of them is mirrored
+        mirror = 360 if (self.value >= 360) != (rotation.value >= 360) else 0
+        return ERotation((self.value + rotation.value) % 360 + mirror)
 
 
 class HorAlign(enum.Enum):
-- 
2.43.0


From 9be6fe7cd613d0b19a82c235e96df1b43e6afa61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:38 +0000
Subject: [PATCH 061/124] fix: a text that is given an alignment is visible
 again

---
 spicelib/editor/ltspice_utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/spicelib/editor/ltspice_utils.py b/spicelib/editor/ltspice_utils.py
index a1f67b7..cea84fa 100644
--- a/spicelib/editor/ltspice_utils.py
+++ b/spicelib/editor/ltspice_utils.py
@@ -70,6 +70,7 @@ def asc_text_align_set(text: Text, alignment: str):
     # Default
     text.textAlignment = HorAlign.CENTER
     text.verticalAlignment = VerAlign.CENTER
+    text.visible = True
     alignment = alignment.lower()
     if alignment == 'left' or alignment == 'vleft':
         text.textAlignment = HorAlign.LEFT
-- 
2.43.0


From 771ea3583e80f75675d12a30f5733d59735a08a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:33 +0000
Subject: [PATCH 062/124] fix: a runner without timeout can start simulations

---
 spicelib/sim/sim_runner.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spicelib/sim/sim_runner.py b/spicelib/sim/sim_runner.py
index efeefe2..f991d83 100644
--- a/spicelib/sim/sim_runner.py
+++ b/spicelib/sim/sim_runner.py
@@ -563,7 +563,7 @@ class SimRunner(AnyRunner):
             timeout = self.timeout
 
         t0 = clock()  # Store the time for timeout calculation
-        while clock() - t0 < timeout + 1:  # Give one second slack in relation to the task timeout
+        while timeout is None or clock() - t0 < timeout + 1:  # Give one second slack in relation to the task timeout
             cmdline_switches = switches or self.cmdline_switches.copy()  # If switches are passed, they override the ones
             # inside the class.
 
@@ -629,7 +629,7 @@ class SimRunner(AnyRunner):
             t.edits = netlist.netlist_updates  # Copy is made in this assignment
         t.start()
         sleep(0.01)  # Give slack for the thread to start
-        t.join(timeout + 1)  # Give one second slack in relation to the task timeout
+        t.join(None if timeout is None else timeout + 1)  # Give one second slack in relation to the task timeout
         self.completed_tasks.append(t)
         if t.retcode == 0:
             self._okSim += 1
-- 
2.43.0


From 1711adb33d35fbf8cf680c768a405a65488eb8f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:36 +0000
Subject: [PATCH 063/124] fix: a simulation keeps the callback arguments it was
 started with

---
 spicelib/sim/sim_runner.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spicelib/sim/sim_runner.py b/spicelib/sim/sim_runner.py
index f991d83..fc82f69 100644
--- a/spicelib/sim/sim_runner.py
+++ b/spicelib/sim/sim_runner.py
@@ -504,7 +504,7 @@ class SimRunner(AnyRunner):
                 # Convert into a dictionary
                 return {param: callback_args[pos - 2] for pos, param in enumerate(args) if pos > 1}
             else:
-                return callback_args
+                return dict(callback_args)  # The simulation keeps its own arguments
 
     def run(self, netlist: str | Path | BaseEditor, *,
             wait_resource: bool = True,
-- 
2.43.0


From be6d74ad8a55e52acec5c8764a286991001ab3a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:39 +0000
Subject: [PATCH 064/124] fix: callbacks without a name (partial functions,
 callable objects) are called

---
 spicelib/sim/run_task.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spicelib/sim/run_task.py b/spicelib/sim/run_task.py
index 5998ed3..66d35d1 100644
--- a/spicelib/sim/run_task.py
+++ b/spicelib/sim/run_task.py
@@ -163,7 +163,7 @@ class RunTask(threading.Thread):
                 callback_print = ', '.join([f"{key}={value}" for key, value in self.callback_args.items()])
             else:
                 callback_print = ''
-            self.print_info(_logger.info, f"Simulation Finished. Calling...{self.callback.__name__}(rawfile, logfile{callback_print})")
+            self.print_info(_logger.info, f"Simulation Finished. Calling...{getattr(self.callback, '__name__', self.callback)}(rawfile, logfile{callback_print})")
             try:
                 if self.callback_args is not None:
                     return_or_process = self.callback(self.raw_file, self.log_file, **self.callback_args)
-- 
2.43.0


From 4f5b5c903950e6659a8fe14bf657a06ed66236f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:41 +0000
Subject: [PATCH 065/124] fix: waiting for a simulation that returned -1 ends

---
 spicelib/sim/run_task.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spicelib/sim/run_task.py b/spicelib/sim/run_task.py
index 66d35d1..aff70f2 100644
--- a/spicelib/sim/run_task.py
+++ b/spicelib/sim/run_task.py
@@ -213,6 +213,6 @@ class RunTask(threading.Thread):
         
         :returns: Tuple with the path to the raw file and the path to the log file. See get_results() for more details.
         """
-        while self.is_alive() or self.start_time is None or self.retcode == -1:
+        while self.is_alive() or self.start_time is None:
             sleep(0.1)
         return self.get_results()
-- 
2.43.0


From 491441bf764ffb44774fe214ac98566052b38a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:44 +0000
Subject: [PATCH 066/124] fix: a callback process that fails does not block its
 simulation for ever

---
 spicelib/sim/run_task.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/spicelib/sim/run_task.py b/spicelib/sim/run_task.py
index aff70f2..ee287f7 100644
--- a/spicelib/sim/run_task.py
+++ b/spicelib/sim/run_task.py
@@ -30,6 +30,7 @@ import traceback
 from collections.abc import Callable
 from copy import copy
 from pathlib import Path
+from queue import Empty
 from time import sleep
 from typing import Any
 
@@ -176,7 +177,16 @@ class RunTask(threading.Thread):
                 if isinstance(return_or_process, ProcessCallback):
                     proc = return_or_process
                     proc.start()
-                    self.callback_return = proc.queue.get()
+                    while True:
+                        alive = proc.is_alive()
+                        try:
+                            self.callback_return = proc.queue.get(timeout=0.2)
+                        except Empty:
+                            if alive:
+                                continue
+                            # The callback process ended without leaving its result
+                            self.print_info(_logger.error, f"Callback process ended with code {proc.exitcode}")
+                        break
                     proc.join()
                 else:
                     self.callback_return = return_or_process
-- 
2.43.0


From 6e5e8f8baba3c695fd7d9d55c3869283a55f2f4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:08 +0000
Subject: [PATCH 067/124] fix: iterating a runner gives the files of the runs
 done with run_now

---
 spicelib/sim/sim_runner.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/spicelib/sim/sim_runner.py b/spicelib/sim/sim_runner.py
index fc82f69..835d051 100644
--- a/spicelib/sim/sim_runner.py
+++ b/spicelib/sim/sim_runner.py
@@ -615,13 +615,9 @@ class SimRunner(AnyRunner):
         if timeout is None:
             timeout = self.timeout
 
-        def dummy_callback(raw, log):
-            """Dummy call back that does nothing"""
-            return None
-
         t = RunTask(
             simulator=self.simulator, runno=self._runno, netlist_file=run_netlist_file,
-            callback=dummy_callback, callback_args=None,
+            callback=None, callback_args=None,
             switches=cmdline_switches, timeout=timeout, verbose=self.verbose,
             cwd=self.cwd, callback_on_error=False, exe_log=exe_log
         )
-- 
2.43.0


From a1f966cad0f06ccfc9268f7090670af6828d0b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:18 +0000
Subject: [PATCH 068/124] fix: log data given with its steps knows how many
 there are

---
 spicelib/log/logfile_data.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/spicelib/log/logfile_data.py b/spicelib/log/logfile_data.py
index c8f561a..0f873f8 100644
--- a/spicelib/log/logfile_data.py
+++ b/spicelib/log/logfile_data.py
@@ -153,7 +153,8 @@ class LogfileData:
         if step_set is None:
             self.stepset = {}
         else:
-            self.stepset = step_set.copy()  # A copy is done since the dictionary is a mutable object.
+            # A copy is done since the dictionary and its lists are mutable objects.
+            self.stepset = {name: list(values) for name, values in step_set.items()}
             # Changes in step_set would be propagated to object on the call
 
         if dataset is None:
@@ -161,7 +162,7 @@ class LogfileData:
         else:
             self.dataset = dataset.copy()  # A copy is done since the dictionary is a mutable object.
 
-        self.step_count = len(self.stepset)
+        self.step_count = len(next(iter(self.stepset.values()), ()))  # all step variables have one value per step
         self.measure_count = len(self.dataset)
 
     def __getitem__(self, key):
-- 
2.43.0


From 5e9e47f1a1694139a32b522bd34b439f08ca31af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:20 +0000
Subject: [PATCH 069/124] fix: measurement names are found whatever their
 letter case

---
 spicelib/log/logfile_data.py | 30 ++++++++++++++----------------
 1 file changed, 14 insertions(+), 16 deletions(-)

diff --git a/spicelib/log/logfile_data.py b/spicelib/log/logfile_data.py
index 0f873f8..8d63adb 100644
--- a/spicelib/log/logfile_data.py
+++ b/spicelib/log/logfile_data.py
@@ -174,11 +174,10 @@ class LogfileData:
         """
         if isinstance(key, slice):
             raise NotImplementedError("Slicing in not allowed in this class")
-        key = key.lower()
-        if key in self.stepset:
-            return self.stepset[key]
-        if key in self.dataset:
-            return self.dataset[key]  # This will raise an Index Error if not found here.
+        for data in (self.stepset, self.dataset):
+            for name in data:
+                if name.lower() == key.lower():
+                    return data[name]
         raise IndexError("'%s' is not a valid step variable or measurement name" % key)
 
     def has_steps(self):
@@ -197,13 +196,7 @@ class LogfileData:
         :param value:
         :return: List of positions that respect the condition of equality with parameter value
         """
-        param = param.lower()
-        if param in self.stepset:
-            condition_set = self.stepset[param]
-        elif param in self.dataset:
-            condition_set = self.dataset[param]
-        else:
-            raise IndexError("'%s' is not a valid step variable or measurement name" % param)
+        condition_set = self[param]
         # tries to convert the value to integer or float, for consistency with data loading implementation
         v = try_convert_value(value)
         # returns the positions where there is match
@@ -287,13 +280,18 @@ class LogfileData:
         :param steps: step number, or list of step numbers.
         :return: measurement or list of measurements.
         """
-        measure = measure.lower()
+        for name in self.dataset:
+            if name.lower() == measure.lower():
+                values = self.dataset[name]
+                break
+        else:
+            raise IndexError("Measurement \"%s\" not found" % measure)
         if steps is None:
-            return self.dataset[measure]  # Returns everything
+            return values  # Returns everything
         elif isinstance(steps, int):
-            return self.dataset[measure][steps]
+            return values[steps]
         else:  # Assuming it is an iterable
-            return [self.dataset[measure][step] for step in steps]
+            return [values[step] for step in steps]
 
     def max_measure_value(self, measure: str, steps: None | int | Iterable = None) \
             -> float | int | str:
-- 
2.43.0


From 624f5a418ca1617a376a2a189e4fd0060d88b62d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:24 +0000
Subject: [PATCH 070/124] fix: selecting without conditions returns all steps

---
 spicelib/log/logfile_data.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/spicelib/log/logfile_data.py b/spicelib/log/logfile_data.py
index 8d63adb..b816006 100644
--- a/spicelib/log/logfile_data.py
+++ b/spicelib/log/logfile_data.py
@@ -219,6 +219,9 @@ class LogfileData:
             else:
                 # makes the intersection between the lists
                 current_set = [v for v in current_set if v in condition_set]
+        if current_set is None:  # without conditions, all the steps are returned
+            data = self.stepset or self.dataset
+            current_set = list(range(len(next(iter(data.values()), ()))))
         return current_set
 
     def get_step_vars(self) -> list[str]:
-- 
2.43.0


From cc2a998d542027075bd659d6965615b6e8b0659e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:26 +0000
Subject: [PATCH 071/124] fix: minimum, maximum and average accept one step
 number

---
 spicelib/log/logfile_data.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/spicelib/log/logfile_data.py b/spicelib/log/logfile_data.py
index b816006..15b64bd 100644
--- a/spicelib/log/logfile_data.py
+++ b/spicelib/log/logfile_data.py
@@ -308,7 +308,7 @@ class LogfileData:
         :return: maximum value of the measurement
         :rtype: float or int
         """
-        return max(self.get_measure_values_at_steps(measure, steps))
+        return max(self.get_measure_values_at_steps(measure, [steps] if isinstance(steps, int) else steps))
 
     def min_measure_value(self, measure: str, steps: None | int | Iterable = None) \
             -> float | int | str:
@@ -322,7 +322,7 @@ class LogfileData:
         :return: minimum value of the measurement
         :rtype: float or int
         """
-        return min(self.get_measure_values_at_steps(measure, steps))
+        return min(self.get_measure_values_at_steps(measure, [steps] if isinstance(steps, int) else steps))
 
     def avg_measure_value(self, measure: str, steps: None | int | Iterable = None) \
             -> float | int | str | LTComplex:
@@ -336,7 +336,7 @@ class LogfileData:
         :return: average value of the measurement
         :rtype: float or int
         """
-        values = self.get_measure_values_at_steps(measure, steps)
+        values = self.get_measure_values_at_steps(measure, [steps] if isinstance(steps, int) else steps)
         return sum(values) / len(values)
 
     def obtain_amplitude_and_phase_from_complex_values(self):
-- 
2.43.0


From ab7cbafb726cc74c3ec7680ab677fdd7d6bc24a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:30 +0000
Subject: [PATCH 072/124] fix: log export keeps header columns and the
 requested separators

---
 spicelib/log/logfile_data.py | 8 ++++----
 spicelib/log/ltsteps.py      | 5 +++--
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/spicelib/log/logfile_data.py b/spicelib/log/logfile_data.py
index 15b64bd..0de9d21 100644
--- a/spicelib/log/logfile_data.py
+++ b/spicelib/log/logfile_data.py
@@ -401,7 +401,7 @@ class LogfileData:
                 if len(values) != data_size:
                     raise Exception("Data size mismatch. Not all measurements have the same length.")
 
-            if isinstance(values[0], list) and len(values[0]) > 1:
+            if len(values) > 0 and isinstance(values[0], list) and len(values[0]) > 1:
                 for n in range(len(values[0])):
                     fout.write(value_separator + "%s_%d" % (title, n))
                     columns_per_line += 1
@@ -417,7 +417,7 @@ class LogfileData:
                     logging.error(f"Data size mismatch. Not all measurements have the same length."
                                   f" Expected {data_size}. \"{title}\" has {len(values)}")
 
-            if isinstance(values[0], list) and len(values[0]) > 1:
+            if len(values) > 0 and isinstance(values[0], list) and len(values[0]) > 1:
                 for n in range(len(values[0])):
                     fout.write(value_separator + "%s_%d" % (title, n))
                     columns_per_line += 1
@@ -425,7 +425,7 @@ class LogfileData:
                 fout.write(value_separator + title)
                 columns_per_line += 1
 
-        fout.write('\n')  # Finished to write the headers
+        fout.write(line_terminator)  # Finished to write the headers
 
         if data_size is None:
             data_size = 0  # Skips writing data in the loop below
@@ -461,7 +461,7 @@ class LogfileData:
             if columns_writen != columns_per_line:
                 logging.error(f"Line with wrong number of values."
                               f" Expected:{columns_per_line} Index {index+1} has {columns_writen}")
-            fout.write('\n')
+            fout.write(line_terminator)
 
         fout.close()
 
diff --git a/spicelib/log/ltsteps.py b/spicelib/log/ltsteps.py
index d0c3e37..13d8a44 100644
--- a/spicelib/log/ltsteps.py
+++ b/spicelib/log/ltsteps.py
@@ -463,9 +463,10 @@ class LTSpiceLogReader(LogfileData):
             _logger.debug("%d measurements" % len(self.dataset))
             _logger.info("Identified %d steps, read %d measurements" % (self.step_count, self.measure_count))
 
-    def export_data(self, export_file: str, encoding=None, append_with_line_prefix=None):
+    def export_data(self, export_file: str, encoding=None, append_with_line_prefix=None,
+                    value_separator: str = '\t', line_terminator: str = '\n'):
         """Aside from exporting the data, it also exports fourier data if it exists"""
-        super().export_data(export_file, encoding, append_with_line_prefix)
+        super().export_data(export_file, encoding, append_with_line_prefix, value_separator, line_terminator)
 
         fourier_export_file = os.path.splitext(export_file)[0] + "_fourier.txt"
         if self.fourier:
-- 
2.43.0


From 0e8b76c1d54d3c6bf398310be90c70c82b082bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:15 +0000
Subject: [PATCH 073/124] fix: harmonic distortions are read in any notation,
 harmonics columns match their header

---
 spicelib/log/ltsteps.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/spicelib/log/ltsteps.py b/spicelib/log/ltsteps.py
index 13d8a44..ca58d38 100644
--- a/spicelib/log/ltsteps.py
+++ b/spicelib/log/ltsteps.py
@@ -351,10 +351,10 @@ class LTSpiceLogReader(LogfileData):
                         line = fin.readline().strip('\r\n')
                         if line.startswith("Total Harmonic"):
                             # Find THD
-                            thd = float(re.search(r"\d+.\d+", line).group())
+                            thd = float(re.search(r"\d+(\.\d*)?(e[+-]?\d+)?", line, re.IGNORECASE).group())
                         elif line.startswith("Partial Harmonic"):
                             # Find PHD
-                            phd = float(re.search(r"\d+.\d+", line).group())
+                            phd = float(re.search(r"\d+(\.\d*)?(e[+-]?\d+)?", line, re.IGNORECASE).group())
                         elif line == "":
                             # End of the table
                             break
@@ -506,7 +506,8 @@ class LTSpiceLogReader(LogfileData):
                                        f"{analysis.phd}\t"
                                        f"{analysis.thd}\n")
                 fout.write("\n\nHarmonic Analysis\n")
-                fout.write("\t".join(self.stepset.keys()) + "\t")
+                if self.step_count > 0:
+                    fout.write("\t".join(self.stepset.keys()) + "\t")
                 fout.write("Signal\tN-Periods\tHarmonic\tFrequency\tFourier\tNormalized\tPhase\tNormalized\n")
                 for signal in self.fourier:
                     for analysis in self.fourier[signal]:
-- 
2.43.0


From 8b5cf3cfb240052adb05bae7e5f2ccd8a00a0aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:18 +0000
Subject: [PATCH 074/124] fix: LTspice exports without steps and with any step
 value are read

---
 spicelib/log/ltsteps.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/spicelib/log/ltsteps.py b/spicelib/log/ltsteps.py
index ca58d38..076479b 100644
--- a/spicelib/log/ltsteps.py
+++ b/spicelib/log/ltsteps.py
@@ -180,34 +180,31 @@ class LTSpiceExport:
         fin = open(export_filename, encoding=self.encoding)
         file_header = fin.readline()
 
-        self.headers = file_header.split('\t')
+        self.headers = file_header.rstrip('\r\n').split('\t')
         # Set to read header
         go_header = True
 
         curr_dic = {}
-        self.dataset = {}
+        self.dataset = {key.lower(): [] for key in self.headers}
 
-        regx = re.compile(r"Step Information: ([\w=\d\. -]+) +\(Run: (\d*)/\d*\)\n")
+        regx = re.compile(r"Step Information: (.+?) +\((?:Run|Step): (\d*)/\d*\)\n")
         for line in fin:
             if line.startswith("Step Information:"):
                 match = regx.match(line)
                 if match:
                     step, run_no = match.groups()
-                    curr_dic['runno'] = run_no
+                    curr_dic['runno'] = try_convert_value(run_no)
                     for param in step.split():
-                        key, value = param.split('=')
+                        key, value = param.split('=', 1)
                         curr_dic[key] = try_convert_value(value)
 
                     if go_header:
                         go_header = False  # This is executed only once
-                        for key in self.headers:
-                            self.dataset[key.lower()] = []  # Initializes an empty list
-
                         for key in curr_dic:
                             self.dataset[key.lower()] = []  # Initializes an empty list
 
             else:
-                values = line.split('\t')
+                values = line.rstrip('\r\n').split('\t')
 
                 for key in curr_dic:
                     self.dataset[key.lower()].append(curr_dic[key])
-- 
2.43.0


From c7102a0ef246b33190a3fda124fe92da6ac61d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:21 +0000
Subject: [PATCH 075/124] fix: reformatting an export keeps its header and its
 steps

---
 spicelib/log/ltsteps.py     | 7 ++++++-
 spicelib/scripts/ltsteps.py | 2 +-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/spicelib/log/ltsteps.py b/spicelib/log/ltsteps.py
index 076479b..7e3c325 100644
--- a/spicelib/log/ltsteps.py
+++ b/spicelib/log/ltsteps.py
@@ -126,7 +126,7 @@ def reformat_LTSpice_export(export_file: str, tabular_file: str):
     go_header = True
     run_no = 0  # Just to avoid warning, this is later overridden by the step information
     param_values = ""  # Just to avoid warning, this is later overridden by the step information
-    regx = re.compile(r"Step Information: ([\w=\d\. \-]+) +\((?:Run|Step): (\d*)/\d*\)\n")
+    regx = re.compile(r"Step Information: (.+?) +\((?:Run|Step): (\d*)/\d*\)\n")
     for line in fin:
         if line.startswith("Step Information:"):
             match = regx.match(line)
@@ -146,6 +146,11 @@ def reformat_LTSpice_export(export_file: str, tabular_file: str):
                     fout.write(msg)
                     _logger.debug(msg)
                     go_header = False
+        elif go_header and run_no == 0:  # There are no steps, the table is kept as it is
+            fout.write(headers + line)
+            go_header = False
+        elif run_no == 0:
+            fout.write(line)
         else:
             fout.write(f"{run_no}\t{param_values}\t{line}")
 
diff --git a/spicelib/scripts/ltsteps.py b/spicelib/scripts/ltsteps.py
index 7b633e9..33e8d1e 100644
--- a/spicelib/scripts/ltsteps.py
+++ b/spicelib/scripts/ltsteps.py
@@ -146,7 +146,7 @@ def main():
             data.split_complex_values_on_datasets()
             data.export_data(fname_out)
         elif filename.endswith(".mout"):
-            log_file = filename[:len('mout')] + 'log'
+            log_file = filename[:-len('mout')] + 'log'
             if os.path.exists(log_file):
                 steps = LTSpiceLogReader(log_file, read_measures=False)
                 data = LTSpiceLogReader(filename, step_set=steps.stepset)
-- 
2.43.0


From 7ba037b6e3333bbb20f0a4aa95b40cef301467af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:25 +0000
Subject: [PATCH 076/124] fix: blank lines in a QSPICE measurement file are
 skipped

---
 spicelib/log/qspice_log_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spicelib/log/qspice_log_reader.py b/spicelib/log/qspice_log_reader.py
index 5319055..d898549 100644
--- a/spicelib/log/qspice_log_reader.py
+++ b/spicelib/log/qspice_log_reader.py
@@ -166,7 +166,7 @@ class QspiceLogReader(LogfileData):
                     meas_expr = match.group(3)
                     _logger.debug(f"Found measure {meas_name} of type {sim_type} with expression {meas_expr}")
                 else:
-                    if meas_name:
+                    if meas_name and line.strip():
                         values = split_line_into_values(line)
                         if headers is None:
                             if self.has_steps():
-- 
2.43.0


From 97b8e67f2417a39f92a8764542de85489a53858b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:28 +0000
Subject: [PATCH 077/124] fix: operating point lines with trailing blanks are
 read

---
 spicelib/log/semi_dev_op_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spicelib/log/semi_dev_op_reader.py b/spicelib/log/semi_dev_op_reader.py
index 518cd5a..d4ef0a9 100644
--- a/spicelib/log/semi_dev_op_reader.py
+++ b/spicelib/log/semi_dev_op_reader.py
@@ -106,7 +106,7 @@ def opLogReader(filename: str) -> dict:
                 where = match.group(1)
                 dataset[where.lower()] = {}  # Creates a dictionary for each component type
             else:
-                cols = re.split(r'\s+', line.rstrip('\r\n'))
+                cols = re.split(r'\s+', line.rstrip())
                 if len(cols) > 1 and (cols[0].endswith(":") or cols[0] == 'Gmb'):  # The last 'or condition solves an
                     # LTSpice bug where the Gmb parameter is not suffixed by :  - Thanks to Amitkumar for finding this.
                     if cols[0] == "Name:":
-- 
2.43.0


From f7fa70c734664d3d54fffec3e4d18aa1b0760059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:32 +0000
Subject: [PATCH 078/124] fix: adding logs keeps the logs apart and counts
 their steps

---
 spicelib/sim/tookit/sim_analysis.py         |  2 +-
 spicelib/sim/tookit/tolerance_deviations.py | 10 ++++++----
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/spicelib/sim/tookit/sim_analysis.py b/spicelib/sim/tookit/sim_analysis.py
index 55bc58e..d76edb0 100644
--- a/spicelib/sim/tookit/sim_analysis.py
+++ b/spicelib/sim/tookit/sim_analysis.py
@@ -193,7 +193,7 @@ class SimAnalysis:
 
         for param in log_data.stepset:
             if param not in self.log_data.stepset:
-                self.log_data.stepset[param] = log_data.stepset[param]
+                self.log_data.stepset[param] = log_data.stepset[param][:]
             else:
                 self.log_data.stepset[param].extend(log_data.stepset[param])
         for param in log_data.dataset:
diff --git a/spicelib/sim/tookit/tolerance_deviations.py b/spicelib/sim/tookit/tolerance_deviations.py
index 5286c79..7d8d36a 100644
--- a/spicelib/sim/tookit/tolerance_deviations.py
+++ b/spicelib/sim/tookit/tolerance_deviations.py
@@ -233,12 +233,14 @@ class ToleranceDeviations(SimAnalysis, ABC):
             return None
 
         log_results = self.read_logfile(run_task)
+        if log_results is None:
+            return None
         if len(log_results.stepset) == 0:
             if 'run' in log_results.dataset and len(log_results.dataset['run']) > 0:
                 if isinstance(log_results.dataset['run'][0], LTComplex):
                     log_results.stepset = {'run': [round(val.real) for val in log_results.dataset['run']]}
                 else:
-                    log_results.stepset = {'run': log_results.dataset['run']}
+                    log_results.stepset = {'run': log_results.dataset['run'][:]}
             else:
                 # auto assign a step starting from 0 and incrementing by 1
                 # will use the size of the first element found in the dataset
@@ -246,7 +248,7 @@ class ToleranceDeviations(SimAnalysis, ABC):
                 run_start = self.log_data.stepset['run'][-1] + 1 if len(self.log_data.stepset) > 0 else 0
                 log_results.stepset = {'run': list(range(run_start, run_start + len(any_meas)))}
 
-            log_results.step_count = len(log_results.stepset)
+            log_results.step_count = len(log_results.stepset['run'])
 
         self.add_log_data(log_results)
         return log_results
@@ -267,13 +269,13 @@ class ToleranceDeviations(SimAnalysis, ABC):
                 if isinstance(self.log_data.dataset['runm'][0], LTComplex):
                     self.log_data.stepset = {'run': [round(val.real) for val in self.log_data.dataset['runm']]}
                 else:
-                    self.log_data.stepset = {'run': self.log_data.dataset['runm']}
+                    self.log_data.stepset = {'run': self.log_data.dataset['runm'][:]}
             else:
                 # auto assign a step starting from 0 and incrementing by 1
                 # will use the size of the first element found in the dataset
                 any_meas = next(iter(self.log_data.dataset.values()))
                 self.log_data.stepset = {'run': list(range(len(any_meas)))}
-            self.log_data.step_count = len(self.log_data.stepset)
+            self.log_data.step_count = len(self.log_data.stepset['run'])
 
         self.simulation_results['log_data'] = self.log_data
         return self.log_data
-- 
2.43.0


From 32699555245529fa8e3933f886b0ad4e23543793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:34 +0000
Subject: [PATCH 079/124] fix: a text that only starts like a complex number
 stays text

---
 spicelib/log/logfile_data.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spicelib/log/logfile_data.py b/spicelib/log/logfile_data.py
index 0de9d21..df135e8 100644
--- a/spicelib/log/logfile_data.py
+++ b/spicelib/log/logfile_data.py
@@ -26,7 +26,7 @@ class LTComplex(complex):
     complex_match = re.compile(r"\((?P<mag>.*?)(?P<dB>dB)?,(?P<ph>.*?)(?P<degrees>°)?\)")
 
     def __new__(self, strvalue):
-        match = self.complex_match.match(strvalue)
+        match = self.complex_match.fullmatch(strvalue.strip())
         if match:
             mag = float(match.group('mag'))
             ph = float(match.group('ph'))
@@ -67,7 +67,7 @@ class LTComplex(complex):
     @property
     def unit(self):
         _unit = None
-        match = self.complex_match.match(self.strvalue)
+        match = self.complex_match.fullmatch(self.strvalue.strip())
         if match:
             _unit = match.group('dB')
         return _unit
-- 
2.43.0


From d1b9146c81e889d1f294330329d8b48dd723c739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:38 +0000
Subject: [PATCH 080/124] fix: no empty value after a group

---
 spicelib/log/logfile_data.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/spicelib/log/logfile_data.py b/spicelib/log/logfile_data.py
index df135e8..34f36d2 100644
--- a/spicelib/log/logfile_data.py
+++ b/spicelib/log/logfile_data.py
@@ -110,6 +110,7 @@ def split_line_into_values(line: str) -> list[int | float | str]:
     parenthesis = []
     i = 0
     value_start = 0
+    group_end = None
     values = []
     for i, c in enumerate(line):
         if c == '(':  # By checking the parenthesis first, we can support nested parenthesis
@@ -125,6 +126,7 @@ def split_line_into_values(line: str) -> list[int | float | str]:
                     value_list = split_line_into_values(line[value_start+1:i])  # Excludes the parenthesis
                     values.append(value_list)
                     value_start = i + 1
+                    group_end = i + 1
         elif c in (' ', '\t', '\r', '\n'):
             if value_start < i:
                 values.append(try_convert_value(line[value_start:i]))
@@ -132,7 +134,7 @@ def split_line_into_values(line: str) -> list[int | float | str]:
         elif c in (',', ';'):
             if value_start < i:
                 values.append(try_convert_value(line[value_start:i]))
-            else:
+            elif group_end != i:  # the separator that follows a group ends it
                 values.append(None)
             value_start = i + 1
     if value_start < i + 1:
-- 
2.43.0


From c19671a6d63f41a3f8ba4a3ae2d7714185eaa22f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:09 +0000
Subject: [PATCH 081/124] fix: measurement files that start with a measurement
 are read

---
 spicelib/log/ltsteps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spicelib/log/ltsteps.py b/spicelib/log/ltsteps.py
index 7e3c325..66bc7b9 100644
--- a/spicelib/log/ltsteps.py
+++ b/spicelib/log/ltsteps.py
@@ -298,7 +298,7 @@ class LTSpiceLogReader(LogfileData):
         self.logname = log_filename
         self.fourier = {}
         if encoding is None:
-            self.encoding = detect_encoding(log_filename, r"^((.*\n)?Circuit:|([\s\S]*)--- Expanded Netlist ---)")
+            self.encoding = detect_encoding(log_filename, r"^((.*\n)?Circuit:|\s*Measurement:|([\s\S]*)--- Expanded Netlist ---)")
         else:
             self.encoding = encoding
 
-- 
2.43.0


From 3dbe0e652e59b8b1148f1f0cb010cbac6313713d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:11 +0000
Subject: [PATCH 082/124] fix: a text in an 8-bit code page is not read as
 UTF-16

---
 spicelib/utils/detect_encoding.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/spicelib/utils/detect_encoding.py b/spicelib/utils/detect_encoding.py
index e0cdcd3..556b193 100644
--- a/spicelib/utils/detect_encoding.py
+++ b/spicelib/utils/detect_encoding.py
@@ -23,6 +23,7 @@ International Support functions
 Not using other known unicode detection libraries because we don't need something so complicated. LTSpice only supports
 for the time being a reduced set of encodings.
 """
+import codecs
 import re
 from pathlib import Path
 
@@ -46,7 +47,13 @@ def detect_encoding(file_path: str | Path, expected_pattern: str = '', re_flags:
     :return: detected encoding
 
     """
+    with open(file_path, 'rb') as f:
+        start = f.read(2)
+    # without a byte order mark, the text is only taken as UTF-16 when its second byte is null
+    maybe_utf_16 = start in (codecs.BOM_UTF16_LE, codecs.BOM_UTF16_BE) or start[1:2] == b'\x00'
     for encoding in ('utf-8', 'utf-16', 'utf_16_le', 'windows-1252', 'cp1252', 'cp1250', 'shift_jis'):
+        if encoding in ('utf-16', 'utf_16_le') and not maybe_utf_16:
+            continue
         try:
             with open(file_path, encoding=encoding) as f:
                 lines = f.read()
@@ -66,7 +73,7 @@ def detect_encoding(file_path: str | Path, expected_pattern: str = '', re_flags:
                     # File did not have the expected string
                     # Try again with a different encoding (This is unlikely to resolve the issue)
                     continue
-            if encoding == 'utf-8' and lines[1] == '\x00':
+            if encoding == 'utf-8' and lines[1:2] == '\x00':
                 continue
             return encoding
     else:
-- 
2.43.0


From 90ebef378c7768e83679168d28d6b2d56c248790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:21 +0000
Subject: [PATCH 083/124] fix: a client is told once about a job whose data it
 has not fetched yet

---
 spicelib/client_server/sim_client.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/spicelib/client_server/sim_client.py b/spicelib/client_server/sim_client.py
index 80f2c89..95e6481 100644
--- a/spicelib/client_server/sim_client.py
+++ b/spicelib/client_server/sim_client.py
@@ -218,6 +218,8 @@ class SimClient:
         while len(self.started_jobs) > 0:
             # server side method signature: def status(self, session_id: str) -> list[int]
             status: list[int] = self.server.status(self.session_id)  # type: ignore
+            # Finished jobs stay in the status until their data is transferred. Only the first notice counts.
+            status = [runno for runno in status if runno in self.started_jobs]
             if len(status) > 0:
                 runno = status.pop(0)
                 self.stored_jobs[runno] = self.started_jobs.pop(runno)  # Job is taken out of the started jobs list and
-- 
2.43.0


From 2439fb0ba5ad8799b97e4445968d37ded6f4bf23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:23 +0000
Subject: [PATCH 084/124] fix: a client does not wait for a job that was not
 started

---
 spicelib/client_server/sim_client.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/spicelib/client_server/sim_client.py b/spicelib/client_server/sim_client.py
index 95e6481..1888be4 100644
--- a/spicelib/client_server/sim_client.py
+++ b/spicelib/client_server/sim_client.py
@@ -181,8 +181,9 @@ class SimClient:
 
             # server side method signature: def run(self, session_id: str, circuit_name: str, zip_data: Binary) -> int
             run_id = int(self.server.run(self.session_id, circuit_name, zip_data))  # type: ignore
-            job_info = JobInformation(run_number=run_id, file_dir=circuit_path.parent)
-            self.started_jobs[run_id] = job_info
+            if run_id != -1:  # The server has started the simulation
+                job_info = JobInformation(run_number=run_id, file_dir=circuit_path.parent)
+                self.started_jobs[run_id] = job_info
             return run_id
         else:
             _logger.error(f"Client: Circuit {circuit} doesn't exit")
-- 
2.43.0


From 577fd9085b0b440f6a7643408edaee89eae1136b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:27 +0000
Subject: [PATCH 085/124] fix: a run without files is not offered for ever

---
 spicelib/client_server/sim_server.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spicelib/client_server/sim_server.py b/spicelib/client_server/sim_server.py
index 6e58ad6..ac277a4 100644
--- a/spicelib/client_server/sim_server.py
+++ b/spicelib/client_server/sim_server.py
@@ -156,7 +156,8 @@ class SimServer:
                     zip_file = task_info['zipfile']
                     if not zip_file:
                         _logger.error(f"Server: get_files({session_id}, {runno}) no zip file found. Probably crashed.")
-                        continue
+                        self.simulation_manager.erase_files_of_runno(runno)
+                        break
                     zip = zip_file.open('rb')
                     # Read the zip file from the buffer and send it to the server
                     zip_data = zip.read()
-- 
2.43.0


From 854d7808370554084d0bb4b18754df80cd653e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:31 +0000
Subject: [PATCH 086/124] fix: the server thread can be joined

---
 spicelib/client_server/srv_sim_runner.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/spicelib/client_server/srv_sim_runner.py b/spicelib/client_server/srv_sim_runner.py
index b25748f..75dfcd2 100644
--- a/spicelib/client_server/srv_sim_runner.py
+++ b/spicelib/client_server/srv_sim_runner.py
@@ -73,7 +73,7 @@ class ServerSimRunner(threading.Thread):
         self.runner = SimRunner(simulator=simulator, parallel_sims=parallel_sims, timeout=timeout,
                                 verbose=verbose, output_folder=output_folder)
         self.completed_tasks: list[dict[str, Any]] = []  # This is a list of dictionaries with the information of the completed tasks
-        self._stop = False
+        self._stop_requested = False  # Not _stop, which is a method of the Thread class
 
     def run(self) -> None:
         """
@@ -105,7 +105,7 @@ class ServerSimRunner(threading.Thread):
                 _logger.debug(len(self.completed_tasks))
 
             time.sleep(0.2)
-            if self._stop is True:
+            if self._stop_requested is True:
                 break
         self.runner.wait_completion()
         self.runner.cleanup_files()  # Delete things that have been left behind
@@ -158,7 +158,7 @@ class ServerSimRunner(threading.Thread):
 
     def stop(self):
         _logger.info("stopping...ServerSimRunner")
-        self._stop = True
+        self._stop_requested = True
 
     def running(self):
-        return self._stop is False
+        return self._stop_requested is False
-- 
2.43.0


From 293f16c54cd12fdb0afe290fb61653de414bef9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:34 +0000
Subject: [PATCH 087/124] fix: a client can stop the server

---
 spicelib/client_server/sim_server.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/spicelib/client_server/sim_server.py b/spicelib/client_server/sim_server.py
index ac277a4..d6b6fa5 100644
--- a/spicelib/client_server/sim_server.py
+++ b/spicelib/client_server/sim_server.py
@@ -195,7 +195,11 @@ class SimServer:
         """
         _logger.debug("Server: stopping...ServerInterface")
         self.simulation_manager.stop()
-        self.server.shutdown()
+        if threading.current_thread() is self.server_thread:
+            # Called by a client. The server can only finish after this request is answered.
+            threading.Thread(target=self.server.shutdown, name="ShutdownThread").start()
+        else:
+            self.server.shutdown()
         _logger.info("Server: stopped...ServerInterface")
         return True  # Needs to return always something. None is not supported
 
-- 
2.43.0


From 7516ba94d75ae0154e8e6cfc97cca7f955b82d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:37 +0000
Subject: [PATCH 088/124] fix: the files of collected runs are deleted when the
 server stops

---
 spicelib/client_server/srv_sim_runner.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/spicelib/client_server/srv_sim_runner.py b/spicelib/client_server/srv_sim_runner.py
index 75dfcd2..ff7b173 100644
--- a/spicelib/client_server/srv_sim_runner.py
+++ b/spicelib/client_server/srv_sim_runner.py
@@ -109,6 +109,7 @@ class ServerSimRunner(threading.Thread):
                 break
         self.runner.wait_completion()
         self.runner.cleanup_files()  # Delete things that have been left behind
+        self.cleanup_completed()
 
     def add_simulation(self, netlist: str | Path | BaseEditor, *, timeout: float | None = None) -> int:
         """
-- 
2.43.0


From f663a3f84543ba66d51afe153b35a20e3f5c2f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:12 +0000
Subject: [PATCH 089/124] fix: a simulation that starts while it is looked at
 is not taken for a finished one

---
 spicelib/sim/run_task.py   | 4 ++--
 spicelib/sim/sim_runner.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/spicelib/sim/run_task.py b/spicelib/sim/run_task.py
index ee287f7..e0abccf 100644
--- a/spicelib/sim/run_task.py
+++ b/spicelib/sim/run_task.py
@@ -209,7 +209,7 @@ class RunTask(threading.Thread):
 
         :returns: Tuple with the path to the raw file and the path to the log file
         """
-        if self.is_alive() or self.start_time is None:  # running or not yet started
+        if self.start_time is None or self.is_alive():  # not yet started or running
             return None
 
         if self.callback:
@@ -223,6 +223,6 @@ class RunTask(threading.Thread):
         
         :returns: Tuple with the path to the raw file and the path to the log file. See get_results() for more details.
         """
-        while self.is_alive() or self.start_time is None:
+        while self.start_time is None or self.is_alive():
             sleep(0.1)
         return self.get_results()
diff --git a/spicelib/sim/sim_runner.py b/spicelib/sim/sim_runner.py
index 835d051..314af72 100644
--- a/spicelib/sim/sim_runner.py
+++ b/spicelib/sim/sim_runner.py
@@ -650,7 +650,7 @@ class SimRunner(AnyRunner):
         """
         i = 0
         while i < len(self.active_tasks):
-            if self.active_tasks[i].is_alive() or self.active_tasks[i].start_time is None:  # running or not yet started
+            if self.active_tasks[i].start_time is None or self.active_tasks[i].is_alive():  # not yet started or running
                 i += 1
             else:
                 if self.active_tasks[i].retcode == 0:
-- 
2.43.0


From c25a70fe55c295e22ea01ab94a87480b7407adb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:42 +0000
Subject: [PATCH 090/124] fix: tasks are updated by one thread at a time

---
 spicelib/sim/sim_runner.py | 38 +++++++++++++++++++++-----------------
 1 file changed, 21 insertions(+), 17 deletions(-)

diff --git a/spicelib/sim/sim_runner.py b/spicelib/sim/sim_runner.py
index 314af72..594269c 100644
--- a/spicelib/sim/sim_runner.py
+++ b/spicelib/sim/sim_runner.py
@@ -104,6 +104,7 @@ __all__ = ['SimRunner', 'SimRunnerTimeoutError', 'AnyRunner', 'ProcessCallback',
 import inspect  # Library used to get the arguments of the callback function
 import logging
 import shutil
+import threading
 import time
 from pathlib import Path
 from time import sleep, thread_time as clock
@@ -316,6 +317,7 @@ class SimRunner(AnyRunner):
         self.parallel_sims = parallel_sims
         self.active_tasks: list[RunTask] = []
         self.completed_tasks: list[RunTask] = []
+        self._update_lock = threading.Lock()  # The tasks and their counters can be updated from several threads
 
         self._runno = 0  # number of total runs
         self._failSim = 0  # number of failed simulations
@@ -626,12 +628,13 @@ class SimRunner(AnyRunner):
         t.start()
         sleep(0.01)  # Give slack for the thread to start
         t.join(None if timeout is None else timeout + 1)  # Give one second slack in relation to the task timeout
-        self.completed_tasks.append(t)
-        if t.retcode == 0:
-            self._okSim += 1
-        else:
-            # simulation failed
-            self._failSim += 1
+        with self._update_lock:
+            self.completed_tasks.append(t)
+            if t.retcode == 0:
+                self._okSim += 1
+            else:
+                # simulation failed
+                self._failSim += 1
         return t.raw_file, t.log_file  # Returns the raw and log file
 
     def active_threads(self):
@@ -648,18 +651,19 @@ class SimRunner(AnyRunner):
         :returns: Nothing
         :meta private:
         """
-        i = 0
-        while i < len(self.active_tasks):
-            if self.active_tasks[i].start_time is None or self.active_tasks[i].is_alive():  # not yet started or running
-                i += 1
-            else:
-                if self.active_tasks[i].retcode == 0:
-                    self._okSim += 1
+        with self._update_lock:
+            i = 0
+            while i < len(self.active_tasks):
+                if self.active_tasks[i].start_time is None or self.active_tasks[i].is_alive():  # not yet started or running
+                    i += 1
                 else:
-                    # simulation failed
-                    self._failSim += 1
-                task = self.active_tasks.pop(i)
-                self.completed_tasks.append(task)
+                    if self.active_tasks[i].retcode == 0:
+                        self._okSim += 1
+                    else:
+                        # simulation failed
+                        self._failSim += 1
+                    task = self.active_tasks.pop(i)
+                    self.completed_tasks.append(task)
 
     def kill_all_ltspice(self):
         """
-- 
2.43.0


From 32b0f47c3ff72a2f9bb2173a82132ff66c3d1d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:17 +0000
Subject: [PATCH 091/124] fix: a tolerance testbench is built on the
 instructions received and stays in the netlist

---
 spicelib/sim/tookit/montecarlo.py                 |  3 ++-
 spicelib/sim/tookit/quick_sensitivity_analysis.py |  3 ++-
 spicelib/sim/tookit/sim_analysis.py               | 10 ++++------
 spicelib/sim/tookit/tolerance_deviations.py       |  7 +++++++
 spicelib/sim/tookit/worst_case.py                 |  3 ++-
 5 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/spicelib/sim/tookit/montecarlo.py b/spicelib/sim/tookit/montecarlo.py
index 3abaa2e..f9762d7 100644
--- a/spicelib/sim/tookit/montecarlo.py
+++ b/spicelib/sim/tookit/montecarlo.py
@@ -68,6 +68,7 @@ class Montecarlo(ToleranceDeviations):
         min_max_norm_func = False
         tol_uni_func = False
         tol_norm_func = False
+        self._start_testbench()
         self.elements_analysed.clear()
         for ref in self.get_components('*'):
             val, dev = self.get_component_value_deviation_type(ref)  # get there present value
@@ -90,7 +91,7 @@ class Montecarlo(ToleranceDeviations):
                     val, (dev.max_val + dev.min_val) / 2, (dev.max_val - dev.min_val) / 6)
 
             if new_val != val:  # Only update the value if it has changed
-                self.set_component_value(ref, new_val)  # update the value
+                self.editor.set_component_value(ref, new_val)  # update the value
                 self.elements_analysed.append(ref)
 
         for param in self.parameter_deviations:
diff --git a/spicelib/sim/tookit/quick_sensitivity_analysis.py b/spicelib/sim/tookit/quick_sensitivity_analysis.py
index 1c266d8..fb8c5e7 100644
--- a/spicelib/sim/tookit/quick_sensitivity_analysis.py
+++ b/spicelib/sim/tookit/quick_sensitivity_analysis.py
@@ -34,6 +34,7 @@ class QuickSensitivityAnalysis(ToleranceDeviations):
     def prepare_testbench(self, **kwargs):
         """Prepares the simulation by setting the tolerances for each component"""
         no = 0
+        self._start_testbench()
         self.elements_analysed.clear()
         use_min = kwargs.get('use_min', False)
         for comp in self.get_components('*'):
@@ -46,7 +47,7 @@ class QuickSensitivityAnalysis(ToleranceDeviations):
                 new_val = "{sammx(%s,%g,%d)}" % (val, used_value, no)
 
             if new_val != val:
-                self.set_component_value(comp, new_val)
+                self.editor.set_component_value(comp, new_val)
                 self.elements_analysed.append(comp)
                 no += 1
 
diff --git a/spicelib/sim/tookit/sim_analysis.py b/spicelib/sim/tookit/sim_analysis.py
index d76edb0..dc0d08f 100644
--- a/spicelib/sim/tookit/sim_analysis.py
+++ b/spicelib/sim/tookit/sim_analysis.py
@@ -55,7 +55,7 @@ class SimAnalysis:
         self.simulations = []
         self.last_run_number = 0
         self.received_instructions = []
-        self.instructions_added = False
+        self.instructions_played = 0  # how many of the received instructions the netlist has
         self.log_data = LogfileData()
 
     def clear_simulation_data(self):
@@ -111,7 +111,7 @@ class SimAnalysis:
         user. This is useful for the case where the user wants to run multiple simulations with different parameters
         without having to add the instructions again."""
         self.editor.reset_netlist()
-        self.instructions_added = False
+        self.instructions_played = 0
 
     def set_component_value(self, ref: str, new_value: str):
         self.received_instructions.append(('set_component_value', ref, new_value))
@@ -132,9 +132,7 @@ class SimAnalysis:
         self.received_instructions.append(('remove_Xinstruction', search_pattern))
 
     def play_instructions(self):
-        if self.instructions_added:
-            return  # Nothing to do
-        for instruction in self.received_instructions:
+        for instruction in self.received_instructions[self.instructions_played:]:
             if instruction[0] == 'set_component_value':
                 self.editor.set_component_value(instruction[1], instruction[2])
             elif instruction[0] == 'set_element_model':
@@ -149,7 +147,7 @@ class SimAnalysis:
                 self.editor.remove_Xinstruction(instruction[1])
             else:
                 raise ValueError("Unknown instruction")
-        self.instructions_added = True
+            self.instructions_played += 1
 
     def save_netlist(self, filename: str):
         self.play_instructions()
diff --git a/spicelib/sim/tookit/tolerance_deviations.py b/spicelib/sim/tookit/tolerance_deviations.py
index 7d8d36a..1cbbe99 100644
--- a/spicelib/sim/tookit/tolerance_deviations.py
+++ b/spicelib/sim/tookit/tolerance_deviations.py
@@ -164,6 +164,13 @@ class ToleranceDeviations(SimAnalysis, ABC):
         super()._reset_netlist()
         self.testbench_prepared = False
 
+    def _start_testbench(self):
+        """Gives the netlist on which a testbench is prepared: it has the instructions received from the user, and
+        nothing of a testbench that was prepared before."""
+        if self.testbench_prepared:
+            self._reset_netlist()
+        self.play_instructions()
+
     @abstractmethod
     def prepare_testbench(self, **kwargs):
         ...
diff --git a/spicelib/sim/tookit/worst_case.py b/spicelib/sim/tookit/worst_case.py
index a11bcb3..5b149c3 100644
--- a/spicelib/sim/tookit/worst_case.py
+++ b/spicelib/sim/tookit/worst_case.py
@@ -61,13 +61,14 @@ class WorstCaseAnalysis(ToleranceDeviations):
             new_val = "{wc1(%s,%g,%g,%d)}" % (val, dev.min_val, dev.max_val, index)  # calculate expression for new value
 
         if new_val != val:
-            self.set_component_value(ref, new_val)  # update the value
+            self.editor.set_component_value(ref, new_val)  # update the value
             self.elements_analysed.append(ref)
         return True
 
     def prepare_testbench(self, **kwargs):
         """Prepares the simulation by setting the tolerances for the components"""
         index = 0
+        self._start_testbench()
         self.elements_analysed.clear()
         for ref in self.device_deviations:
             if self._set_component_deviation(ref, index):
-- 
2.43.0


From df99620ad949bd7431ff6048c5525ff067d9bd52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:22 +0000
Subject: [PATCH 092/124] fix: an analysis takes the nominal values after the
 instructions received

---
 spicelib/sim/tookit/fast_worst_case.py            | 4 ++--
 spicelib/sim/tookit/quick_sensitivity_analysis.py | 4 ++--
 spicelib/sim/tookit/worst_case.py                 | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/spicelib/sim/tookit/fast_worst_case.py b/spicelib/sim/tookit/fast_worst_case.py
index a540a0b..9c2f65c 100644
--- a/spicelib/sim/tookit/fast_worst_case.py
+++ b/spicelib/sim/tookit/fast_worst_case.py
@@ -94,6 +94,8 @@ class FastWorstCaseAnalysis(WorstCaseAnalysis):
         assert measure is not None, "The measure argument must be defined"
 
         self.clear_simulation_data()
+        self._reset_netlist()  # reset the netlist
+        self.play_instructions()  # play the instructions
         self.elements_analysed.clear()
         worst_case_elements = {}
 
@@ -169,8 +171,6 @@ class FastWorstCaseAnalysis(WorstCaseAnalysis):
 
         _logger.info("Worst Case Analysis: %d elements to be analysed", len(self.elements_analysed))
 
-        self._reset_netlist()  # reset the netlist
-        self.play_instructions()  # play the instructions
         # Simulate the nominal case
         self.run(wait_resource=True,
                  callback=callback, callback_args=callback_args,
diff --git a/spicelib/sim/tookit/quick_sensitivity_analysis.py b/spicelib/sim/tookit/quick_sensitivity_analysis.py
index fb8c5e7..ddb1335 100644
--- a/spicelib/sim/tookit/quick_sensitivity_analysis.py
+++ b/spicelib/sim/tookit/quick_sensitivity_analysis.py
@@ -101,6 +101,8 @@ class QuickSensitivityAnalysis(ToleranceDeviations):
                      exe_log: bool | None = True,
                      ):
         self.clear_simulation_data()
+        self._reset_netlist()  # reset the netlist
+        self.play_instructions()  # play the instructions
         self.elements_analysed.clear()
         # Calculate the number of runs
 
@@ -133,8 +135,6 @@ class QuickSensitivityAnalysis(ToleranceDeviations):
                             "Consider limiting the number of components with deviation")
             return
 
-        self._reset_netlist()  # reset the netlist
-        self.play_instructions()  # play the instructions
         # Add the run number to the measurements by using a parameter
         self.editor.set_parameter('run', -1)  # in case the step is commented.
         self.editor.add_instruction(".meas runm PARAM {run}")
diff --git a/spicelib/sim/tookit/worst_case.py b/spicelib/sim/tookit/worst_case.py
index 5b149c3..1d4b298 100644
--- a/spicelib/sim/tookit/worst_case.py
+++ b/spicelib/sim/tookit/worst_case.py
@@ -110,6 +110,8 @@ class WorstCaseAnalysis(ToleranceDeviations):
         It will update component values and parameters according to their deviation type and call the simulation.
         The advantage of this method is that it doesn't require adding random functions to the netlist."""
         self.clear_simulation_data()
+        self._reset_netlist()  # reset the netlist
+        self.play_instructions()  # play the instructions
         self.elements_analysed.clear()
         worst_case_elements = {}
 
@@ -146,8 +148,6 @@ class WorstCaseAnalysis(ToleranceDeviations):
                             "Consider limiting the number of components with deviation")
             return
 
-        self._reset_netlist()  # reset the netlist
-        self.play_instructions()  # play the instructions
         self.editor.set_parameter('run', -1)  # This is aligned with the testbench preparation
         self.editor.add_instruction(".meas runm PARAM {run}")
         # Simulate the nominal case
-- 
2.43.0


From 8dc3a31214386836887259e972ff57ca5a26a6fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:25 +0000
Subject: [PATCH 093/124] fix: Montecarlo tolerances of 10, 1e-10 or 0 keep
 their digits

---
 spicelib/sim/tookit/montecarlo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spicelib/sim/tookit/montecarlo.py b/spicelib/sim/tookit/montecarlo.py
index f9762d7..118ba3f 100644
--- a/spicelib/sim/tookit/montecarlo.py
+++ b/spicelib/sim/tookit/montecarlo.py
@@ -74,7 +74,7 @@ class Montecarlo(ToleranceDeviations):
             val, dev = self.get_component_value_deviation_type(ref)  # get there present value
             new_val = val
             if dev.typ == DeviationType.tolerance:
-                tolstr = ('%g' % dev.tolerance).rstrip('0').rstrip('.')
+                tolstr = '%g' % dev.tolerance
                 if dev.distribution == 'uniform':
                     new_val = "{utol(%s,%s)}" % (val, tolstr)  # calculate expression for new value
                     tol_uni_func = True
-- 
2.43.0


From bc339dcbd5e53782611efe6b505de8ef484374ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:28 +0000
Subject: [PATCH 094/124] fix: Montecarlo limits with a normal distribution
 have their function and spread

---
 spicelib/sim/tookit/montecarlo.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/spicelib/sim/tookit/montecarlo.py b/spicelib/sim/tookit/montecarlo.py
index 118ba3f..6001618 100644
--- a/spicelib/sim/tookit/montecarlo.py
+++ b/spicelib/sim/tookit/montecarlo.py
@@ -89,6 +89,7 @@ class Montecarlo(ToleranceDeviations):
                 elif dev.distribution == 'normal':
                     new_val = "{nrng(%s,%g,%g)}" % (
                     val, (dev.max_val + dev.min_val) / 2, (dev.max_val - dev.min_val) / 6)
+                    min_max_norm_func = True
 
             if new_val != val:  # Only update the value if it has changed
                 self.editor.set_component_value(ref, new_val)  # update the value
@@ -102,7 +103,7 @@ class Montecarlo(ToleranceDeviations):
                     new_val = "{utol(%s,%g)}" % (val, dev.tolerance)
                     tol_uni_func = True
                 elif dev.distribution == 'normal':
-                    new_val = "{ntol(%g,%g)}" % (val, dev.tolerance)
+                    new_val = "{ntol(%s,%g)}" % (val, dev.tolerance)
                     tol_norm_func = True
             elif dev.typ == DeviationType.minmax:
                 if dev.distribution == 'uniform':
@@ -127,7 +128,7 @@ class Montecarlo(ToleranceDeviations):
                 self.editor.add_instruction(".func urng(nom,mean,df2) if(run<0, nom, mean+flat(df2))")
 
             if min_max_norm_func:
-                self.editor.add_instruction(".func nrng(nom,mean,df6) if(run<0, nom, mean*(1+gauss(df6)))")
+                self.editor.add_instruction(".func nrng(nom,mean,df6) if(run<0, nom, mean+gauss(df6))")
         elif self.runner.simulator.__name__ == 'Qspice':
             # if gauss function is needed
             #  => This is finally not needed because Qspice has a built-in gauss function (non-documented)
@@ -141,10 +142,10 @@ class Montecarlo(ToleranceDeviations):
                 self.editor.add_instruction(".func ntol(nom,tol) {if(run<0, nom, nom*(1+gauss(tol/3)))}")
 
             if min_max_uni_func:
-                self.editor.add_instruction(".func urng(nom,mean,df2) if(run<0, nom, mean+(df2*(2*random()-1))")
+                self.editor.add_instruction(".func urng(nom,mean,df2) if(run<0, nom, mean+df2*(2*random()-1))")
 
             if min_max_norm_func:
-                self.editor.add_instruction(".func nrng(nom,mean,df6) if(run<0, nom, mean*(1+gauss(df6)))")
+                self.editor.add_instruction(".func nrng(nom,mean,df6) if(run<0, nom, mean+gauss(df6))")
         else:
             _logger.warning("Simulator not supported for this method")
             raise NotImplementedError("Simulator not supported for this method")
-- 
2.43.0


From eb63842734c901d5896d285dd3b8a99c04290f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:33 +0000
Subject: [PATCH 095/124] fix: a testbench that ran with a callback can be read

---
 spicelib/sim/tookit/tolerance_deviations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spicelib/sim/tookit/tolerance_deviations.py b/spicelib/sim/tookit/tolerance_deviations.py
index 1cbbe99..720b5f5 100644
--- a/spicelib/sim/tookit/tolerance_deviations.py
+++ b/spicelib/sim/tookit/tolerance_deviations.py
@@ -228,9 +228,9 @@ class ToleranceDeviations(SimAnalysis, ABC):
             self.simulations.append(sim)
             self.editor.remove_instruction(run_stepping)
         self.runner.wait_completion()
+        self.testbench_executed = True
         if callback is not None:
             return (sim.get_results() if sim is not None else None for sim in self.simulations)
-        self.testbench_executed = True
         return None
 
     def add_log(self, run_task: RunTask) -> LogfileData | None:
-- 
2.43.0


From 114f3843447afea3ec406c38c5f9add97a66ed0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:36 +0000
Subject: [PATCH 096/124] fix: fast worst case starts over when an assumption
 is wrong

---
 spicelib/sim/tookit/fast_worst_case.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spicelib/sim/tookit/fast_worst_case.py b/spicelib/sim/tookit/fast_worst_case.py
index 9c2f65c..615749f 100644
--- a/spicelib/sim/tookit/fast_worst_case.py
+++ b/spicelib/sim/tookit/fast_worst_case.py
@@ -239,7 +239,7 @@ class FastWorstCaseAnalysis(WorstCaseAnalysis):
                 max_setting[ref] = not max_setting[ref]
                 max_value = new_value
                 # Need to restart the cycle
-                iterator = iterator(self.elements_analysed)
+                iterator = iter(self.elements_analysed)
 
             # setting it back to the maximum value
             if max_setting[ref]:
-- 
2.43.0


From 969ac2393e24f3193dcbfd19278466c5a61eb3e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:39 +0000
Subject: [PATCH 097/124] fix: fast worst case keeps the instructions received

---
 spicelib/sim/tookit/fast_worst_case.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spicelib/sim/tookit/fast_worst_case.py b/spicelib/sim/tookit/fast_worst_case.py
index 615749f..1499299 100644
--- a/spicelib/sim/tookit/fast_worst_case.py
+++ b/spicelib/sim/tookit/fast_worst_case.py
@@ -307,7 +307,7 @@ class FastWorstCaseAnalysis(WorstCaseAnalysis):
 
         self.clear_simulation_data()
         self.cleanup_files()
-        self.reset_netlist()
+        self._reset_netlist()
         self.play_instructions()
 
         return nominal, min_value, max_comp_values, max_value, min_comp_values
-- 
2.43.0


From fa3b177d8ae2d8430f507a6ba345e0fe18f427cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:42 +0000
Subject: [PATCH 098/124] fix: a configured measurement is part of every run

---
 spicelib/sim/tookit/sim_analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spicelib/sim/tookit/sim_analysis.py b/spicelib/sim/tookit/sim_analysis.py
index dc0d08f..6b273e0 100644
--- a/spicelib/sim/tookit/sim_analysis.py
+++ b/spicelib/sim/tookit/sim_analysis.py
@@ -215,4 +215,4 @@ class SimAnalysis:
 
     def configure_measurement(self, meas_name: str, meas_expression: str, meas_type: str = 'tran'):
         """Configures a measurement to be done in the simulation"""
-        self.editor.add_instruction(f".meas {meas_type} {meas_name} {meas_expression}")
+        self.add_instruction(f".meas {meas_type} {meas_name} {meas_expression}")
-- 
2.43.0


From 687864317fccb086829d221205384b6f7ad48634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:56 +0000
Subject: [PATCH 099/124] fix: the parts of a testbench run do not overwrite
 each other's files

---
 spicelib/sim/tookit/tolerance_deviations.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/spicelib/sim/tookit/tolerance_deviations.py b/spicelib/sim/tookit/tolerance_deviations.py
index 720b5f5..918c6f6 100644
--- a/spicelib/sim/tookit/tolerance_deviations.py
+++ b/spicelib/sim/tookit/tolerance_deviations.py
@@ -18,6 +18,7 @@
 # -------------------------------------------------------------------------------
 from abc import abstractmethod, ABC
 from dataclasses import dataclass
+from pathlib import Path
 
 from ..run_task import RunTask
 from ...editor.base_editor import BaseEditor
@@ -222,9 +223,16 @@ class ToleranceDeviations(SimAnalysis, ABC):
 
             run_stepping = f".step param run {sim_no} {last_no} 1"
             self.editor.add_instruction(run_stepping)
+            if run_filename is not None and runs_per_sim < total_number_of_runs:
+                # every part of the simulation has its own netlist and output files
+                file_name = Path(run_filename)
+                part_no = (sim_no + 1) // runs_per_sim + 1
+                sim_filename = str(file_name.with_name(f"{file_name.stem}_{part_no}{file_name.suffix}"))
+            else:
+                sim_filename = run_filename
             sim = self.runner.run(self.editor, wait_resource=wait_resource, callback=callback,
                                   callback_args=callback_args, switches=switches, timeout=timeout,
-                                  run_filename=run_filename, exe_log=exe_log)
+                                  run_filename=sim_filename, exe_log=exe_log)
             self.simulations.append(sim)
             self.editor.remove_instruction(run_stepping)
         self.runner.wait_completion()
-- 
2.43.0


From 838945a7a5e789186fbbb95261982caa98c0961f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:28 +0000
Subject: [PATCH 100/124] fix: a tolerance is found by its component whatever
 the letter case

---
 spicelib/sim/tookit/tolerance_deviations.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/spicelib/sim/tookit/tolerance_deviations.py b/spicelib/sim/tookit/tolerance_deviations.py
index 918c6f6..51bf023 100644
--- a/spicelib/sim/tookit/tolerance_deviations.py
+++ b/spicelib/sim/tookit/tolerance_deviations.py
@@ -99,6 +99,15 @@ class ToleranceDeviations(SimAnalysis, ABC):
         self.simulation_results.clear()
         self.analysis_executed = False
 
+    def _editor_reference(self, ref: str) -> str:
+        """The reference as the editor lists it. SPICE doesn't tell upper from lower case."""
+        components = self.editor.get_components()
+        if ref not in components:
+            for component in components:
+                if component.upper() == ref.upper():
+                    return component
+        return ref
+
     def set_tolerance(self, ref: str, new_tolerance: float, distribution: str = 'uniform'):
         """
         Sets the tolerance for a given component. If only the prefix is given, the tolerance is set for all.
@@ -107,6 +116,7 @@ class ToleranceDeviations(SimAnalysis, ABC):
         if ref in self.devices_with_deviation_allowed:  # Only the prefix is given
             self.default_tolerance[ref] = ComponentDeviation.from_tolerance(new_tolerance, distribution)
         else:
+            ref = self._editor_reference(ref)
             if ref in self.editor.get_components(ref[0]):
                 self.device_deviations[ref] = ComponentDeviation.from_tolerance(new_tolerance, distribution)
 
@@ -124,7 +134,7 @@ class ToleranceDeviations(SimAnalysis, ABC):
         Sets the deviation for a given component. This establishes a min and max value for the component.
         Optionally a distribution can be specified. The valid distributions are: uniform or normal (gaussian).
         """
-        self.device_deviations[ref] = ComponentDeviation.from_min_max(min_val, max_val, distribution)
+        self.device_deviations[self._editor_reference(ref)] = ComponentDeviation.from_min_max(min_val, max_val, distribution)
 
     def get_components(self, prefix: str):
         if prefix == '*':
-- 
2.43.0


From 6b0321dfe528ef500fb41397f9ecb686a2e04024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:14 +0000
Subject: [PATCH 101/124] fix: the nominal value in a tolerance formula has no
 unit

---
 spicelib/sim/tookit/tolerance_deviations.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spicelib/sim/tookit/tolerance_deviations.py b/spicelib/sim/tookit/tolerance_deviations.py
index 51bf023..5263fcc 100644
--- a/spicelib/sim/tookit/tolerance_deviations.py
+++ b/spicelib/sim/tookit/tolerance_deviations.py
@@ -149,7 +149,8 @@ class ToleranceDeviations(SimAnalysis, ABC):
             return value, ComponentDeviation.none()
         # The value needs to be able to be computed, otherwise it can't be used
         try:
-            value = to_float(value, accept_invalid=False).clean()  # clean the original representation
+            # without the original representation, nor the unit, which has no meaning in a formula
+            value = to_float(float(to_float(value, accept_invalid=False)))
         except ValueError:
             return value, ComponentDeviation.none()
         if ref in self.device_deviations:
-- 
2.43.0


From 77824e52bb41895592a9da3db2da9e93323ea245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:23 +0000
Subject: [PATCH 102/124] fix: an analysis leaves the netlist with its nominal
 values

---
 spicelib/sim/tookit/montecarlo.py                 | 4 ++++
 spicelib/sim/tookit/quick_sensitivity_analysis.py | 3 +++
 spicelib/sim/tookit/worst_case.py                 | 3 +++
 3 files changed, 10 insertions(+)

diff --git a/spicelib/sim/tookit/montecarlo.py b/spicelib/sim/tookit/montecarlo.py
index 6001618..4972eef 100644
--- a/spicelib/sim/tookit/montecarlo.py
+++ b/spicelib/sim/tookit/montecarlo.py
@@ -217,6 +217,10 @@ class Montecarlo(ToleranceDeviations):
                           switches=switches, timeout=timeout, exe_log=exe_log)
 
         self.runner.wait_completion()
+        # the netlist doesn't keep the values of the last run
+        self._reset_netlist()
+        self.play_instructions()
+
         if callback is not None:
             callback_rets = []
             for rt in self.simulations:
diff --git a/spicelib/sim/tookit/quick_sensitivity_analysis.py b/spicelib/sim/tookit/quick_sensitivity_analysis.py
index ddb1335..fe5a903 100644
--- a/spicelib/sim/tookit/quick_sensitivity_analysis.py
+++ b/spicelib/sim/tookit/quick_sensitivity_analysis.py
@@ -176,6 +176,9 @@ class QuickSensitivityAnalysis(ToleranceDeviations):
                      switches=switches, timeout=timeout, exe_log=exe_log)
             last_bit_setting = bit_setting
         self.runner.wait_completion()
+        # the netlist doesn't keep the values of the last run
+        self._reset_netlist()
+        self.play_instructions()
 
         if callback is not None:
             callback_rets = []
diff --git a/spicelib/sim/tookit/worst_case.py b/spicelib/sim/tookit/worst_case.py
index 1d4b298..1b31c14 100644
--- a/spicelib/sim/tookit/worst_case.py
+++ b/spicelib/sim/tookit/worst_case.py
@@ -188,6 +188,9 @@ class WorstCaseAnalysis(ToleranceDeviations):
                      switches=switches, timeout=timeout, exe_log=exe_log)
             last_run = run
         self.runner.wait_completion()
+        # the netlist doesn't keep the values of the last run
+        self._reset_netlist()
+        self.play_instructions()
 
         if callback is not None:
             callback_rets = []
-- 
2.43.0


From b1006dea082ba81ad1938b814a83f28c6289b813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:07 +0000
Subject: [PATCH 103/124] fix: a byte order mark of UTF-8 is not part of the
 text

---
 spicelib/utils/detect_encoding.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/spicelib/utils/detect_encoding.py b/spicelib/utils/detect_encoding.py
index 556b193..b943097 100644
--- a/spicelib/utils/detect_encoding.py
+++ b/spicelib/utils/detect_encoding.py
@@ -48,12 +48,14 @@ def detect_encoding(file_path: str | Path, expected_pattern: str = '', re_flags:
 
     """
     with open(file_path, 'rb') as f:
-        start = f.read(2)
+        start = f.read(3)
     # without a byte order mark, the text is only taken as UTF-16 when its second byte is null
-    maybe_utf_16 = start in (codecs.BOM_UTF16_LE, codecs.BOM_UTF16_BE) or start[1:2] == b'\x00'
-    for encoding in ('utf-8', 'utf-16', 'utf_16_le', 'windows-1252', 'cp1252', 'cp1250', 'shift_jis'):
+    maybe_utf_16 = start[:2] in (codecs.BOM_UTF16_LE, codecs.BOM_UTF16_BE) or start[1:2] == b'\x00'
+    for encoding in ('utf-8-sig', 'utf-8', 'utf-16', 'utf_16_le', 'windows-1252', 'cp1252', 'cp1250', 'shift_jis'):
         if encoding in ('utf-16', 'utf_16_le') and not maybe_utf_16:
             continue
+        if encoding == 'utf-8-sig' and start != codecs.BOM_UTF8:
+            continue  # the byte order mark isn't part of the text
         try:
             with open(file_path, encoding=encoding) as f:
                 lines = f.read()
-- 
2.43.0


From e12d1a06c86f11aa1265de08f0c5992e4296dca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:36 +0000
Subject: [PATCH 104/124] fix: the words of continued lines are separate words,
 and lines can continue inside braces

---
 spicelib/editor/spice_components.py | 2 +-
 spicelib/editor/spice_subcircuit.py | 6 ++++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/spicelib/editor/spice_components.py b/spicelib/editor/spice_components.py
index 595d188..48d0516 100644
--- a/spicelib/editor/spice_components.py
+++ b/spicelib/editor/spice_components.py
@@ -246,7 +246,7 @@ class SpiceComponent(Component):
 
     def _line_without_breaks(self) -> str:
         """Internal function. The text of the component in one line"""
-        return re.sub(r'[\n\r]+\s*', ' ', self._obj.lstrip())
+        return re.sub(r'[\n\r]+\+?\s*', ' ', self._obj.lstrip())
 
     def reset_attributes(self):
         """Update attributes of a component at a specific line in the netlist
diff --git a/spicelib/editor/spice_subcircuit.py b/spicelib/editor/spice_subcircuit.py
index 1a251dd..1878d87 100644
--- a/spicelib/editor/spice_subcircuit.py
+++ b/spicelib/editor/spice_subcircuit.py
@@ -128,8 +128,10 @@ def separate_lines(stream: io.StringIO) -> Generator[str, None, None]:
             # if inside a quotes, ignore the line break and continue, otherwise treat it as a line separator
             if not (braces_stack or in_quotes):
                 next_char = stream.read(1)
-                if next_char == '+':
-                    next_char = None  # line continuation, ignore the newline and the '+'
+                if next_char == '+':  # line continuation, ignore the newline and the '+'
+                    next_char = stream.read(1)
+                    if not next_char.isspace() and not current_line[-1:].isspace():
+                        current_line += ' '  # the words of two lines are separate words
                 elif next_char == '\n' and char=='\r' or next_char == '\r' and char=='\n':
                     # This is a Windows style line break, we need to consume the next character as well
                     # Next iteration will trigger the end of line, so we just ignore it here
-- 
2.43.0


From ea389d32f310535e3d07d283b6615be7c6e873f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:27 +0000
Subject: [PATCH 105/124] fix: the comment at the end of a component line isn't
 part of its value

---
 spicelib/editor/spice_utils.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/spicelib/editor/spice_utils.py b/spicelib/editor/spice_utils.py
index 4b65735..b7661bc 100644
--- a/spicelib/editor/spice_utils.py
+++ b/spicelib/editor/spice_utils.py
@@ -114,14 +114,14 @@ END_LINE_TERM = '\n'  #: This controls the end of line terminator used
 # NUMBER_RGX = FLOAT_RGX + r"(Meg|[kmuµnpfgt])?[a-zA-Z]*"
 
 # Optional comment at end of line. Will consume trailing spaces and is to be used on all lines.
-COMMENT_RGX = r"(?:\s+;.*)?\\?\s*$"
+COMMENT_RGX = r"(?:\s*;.*)?\\?\s*$"
 
 # Potential model name, probably needs expanding. Will require a leading space
 MODEL_OR_VALUE_RGX = r"\s+(?P<value>[\w\.\-\{\}]+)"
 
 # the rest of the line. Cannot be used with PARAM.
 # Includes the comment regex and will expect to finish the line.
-ANY_VALUE_RGX = r"\s+(?P<value>.*)" + COMMENT_RGX
+ANY_VALUE_RGX = r"\s+(?P<value>.*?)" + COMMENT_RGX
 
 # maybe a value. Will require a leading space
 MAYBE_VALUE_RGX = r"\s+(?P<value>.*?)"
@@ -151,13 +151,13 @@ def VALUE_RGX(prefix: str, number_regex_suffix: str) -> str:
         my_prefix = "(" + prefix + "\\s?=\\s?)?"
     return "\\s+" + my_prefix + "(?P<value>(?P<number>[-+]?[0-9]*\\.?[0-9]+([eE][-+]?[0-9]+)?" + \
         number_regex_suffix + ")?(?P<formula1>\")?(?P<formula2>')?(?P<formula3>{)?" + \
-        "(?(number)|(?(formula1).*?\"|(?(formula2).*?'|(?(formula3).*?}|\\S*)))))"
+        "(?(number)|(?(formula1).*?\"|(?(formula2).*?'|(?(formula3).*?}|[^\\s;]*)))))"
 
 
 REPLACE_REGEXS : Dict[str, str] = {
-    'A': PREFIX_AND_NODES_RGX("A", 8, 8) + r"\s+(?P<value>.*)",  # LTspice Only : Special Functions, Parameter substitution not supported
+    'A': PREFIX_AND_NODES_RGX("A", 8, 8) + ANY_VALUE_RGX,  # LTspice Only : Special Functions, Parameter substitution not supported
     # Bxxx n001 n002 [VIRP]=<expression> [ic=<value>] ...
-    'B': PREFIX_AND_NODES_RGX("B", 2) + r"\s+(?P<value>[VIBR]\s*=(?:>=|<=|[^=])+)" + PARAM_RGX,  # Behavioral source
+    'B': PREFIX_AND_NODES_RGX("B", 2) + r"\s+(?P<value>[VIBR]\s*=(?:>=|<=|[^=;])+)" + PARAM_RGX,  # Behavioral source
     # Cxxx n1 n2 <capacitance> [ic=<value>] ...
     # Cxxx n+ n- <value> <mname> <m=val> <scale=val> <temp=val> ...
     # Cxxx n1 n2 C=<capacitance> [ic=<value>] ...
-- 
2.43.0


From a27e95d1b3dd4bf4ca56fce2604492b49cd7596d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:01 +0000
Subject: [PATCH 106/124] fix: references with a mark after the prefix are
 upper case like the others

---
 spicelib/editor/spice_components.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spicelib/editor/spice_components.py b/spicelib/editor/spice_components.py
index 48d0516..6edbda8 100644
--- a/spicelib/editor/spice_components.py
+++ b/spicelib/editor/spice_components.py
@@ -121,7 +121,7 @@ def tokenize_params(params_str: str) -> list[str]:
 def undress_designator(designator: str) -> str:
     """Removes any odd characters from the designator, such as §, which is sometimes used in the netlist but not always present. This is needed to compare the designator with the reference of the component, which does not contain these odd characters."""
     if len(designator) > 2 and designator[1] == '§':
-        return designator[0] + designator[2:]
+        designator = designator[0] + designator[2:]
     return designator.upper()
 
 def _scan_params(params_str: str) -> list[list]:
-- 
2.43.0


From 6e76ec67d38179bd01c20957879a69e132aa6789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:07 +0000
Subject: [PATCH 107/124] fix: the timeout of wait_completion is reset when a
 simulation is completed

---
 spicelib/sim/sim_runner.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/spicelib/sim/sim_runner.py b/spicelib/sim/sim_runner.py
index 594269c..c82b059 100644
--- a/spicelib/sim/sim_runner.py
+++ b/spicelib/sim/sim_runner.py
@@ -721,9 +721,14 @@ class SimRunner(AnyRunner):
             stop_time = None
         while len(self.active_tasks) > 0:
             sleep(1)
+            completed = len(self.completed_tasks)
             self.update_completed()
+            if len(self.active_tasks) == 0:
+                break
             if timeout is None:
                 stop_time = self._maximum_stop_time()
+            elif len(self.completed_tasks) > completed:
+                stop_time = time.time() + timeout  # A simulation was completed, the timeout is reset
             if stop_time is not None:  # This can happen if timeout was set as none everywhere
                 if time.time() > stop_time:
                     if abort_all_on_timeout:
-- 
2.43.0


From 0db54a9a79563c6c3eca7344f92c94050b90f00f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:48 +0000
Subject: [PATCH 108/124] fix: worst-case sensitivities of a measurement that
 doesn't change are 0, not a division by zero

---
 spicelib/sim/tookit/worst_case.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spicelib/sim/tookit/worst_case.py b/spicelib/sim/tookit/worst_case.py
index 1b31c14..6295708 100644
--- a/spicelib/sim/tookit/worst_case.py
+++ b/spicelib/sim/tookit/worst_case.py
@@ -266,12 +266,12 @@ class WorstCaseAnalysis(ToleranceDeviations):
                 # Returns a dictionary with all the references sensitivity
                 answer = {}
                 for ref, (sens, sigma) in sensitivities.items():
-                    answer[ref] = sens / total * 100, sigma / total * 100
+                    answer[ref] = (sens / total * 100, sigma / total * 100) if total != 0 else (0.0, 0.0)
                 return answer
             else:
                 # Calculates the sensitivity for the given component
                 sens, sigma = sensitivities[ref]
-                return sens /total * 100, sigma / total * 100
+                return (sens / total * 100, sigma / total * 100) if total != 0 else (0.0, 0.0)
         else:
             _logger.warning("The analysis was not executed. Please run the run_analysis(...) or run_testbench(...)"
                             " before calling this method")
-- 
2.43.0


From 23e39709731210ec0e039138b1261b9cdd53b4f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:10 +0000
Subject: [PATCH 109/124] fix: reset_tolerances clears the tolerances of
 prefixes and the testbench prepared with them

---
 spicelib/sim/tookit/tolerance_deviations.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/spicelib/sim/tookit/tolerance_deviations.py b/spicelib/sim/tookit/tolerance_deviations.py
index 5263fcc..2ebf6b5 100644
--- a/spicelib/sim/tookit/tolerance_deviations.py
+++ b/spicelib/sim/tookit/tolerance_deviations.py
@@ -88,9 +88,11 @@ class ToleranceDeviations(SimAnalysis, ABC):
         """
         Clears all the settings for the simulation
         """
+        self.default_tolerance = {prefix: ComponentDeviation.none() for prefix in self.devices_with_deviation_allowed}
         self.device_deviations.clear()
         self.parameter_deviations.clear()
-        self.testbench_prepared = False
+        if self.testbench_prepared:
+            self._reset_netlist()  # nothing of the testbench is left on the netlist
         self.last_run_number = 0
 
     def clear_simulation_data(self):
-- 
2.43.0


From 33f8acf04353eb0b945af34404e80121af7a2c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:13 +0000
Subject: [PATCH 110/124] fix: schematics with an empty attribute can be read

---
 spicelib/editor/asc_editor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spicelib/editor/asc_editor.py b/spicelib/editor/asc_editor.py
index 46e177d..385fb31 100644
--- a/spicelib/editor/asc_editor.py
+++ b/spicelib/editor/asc_editor.py
@@ -354,8 +354,8 @@ class AscEditor(BaseSchematic, BaseSubCircuit):
                 elif line.startswith("SYMATTR"):
                     assert component is not None, "Syntax Error: SYMATTR clause without SYMBOL"
                     component+=line
-                    tag, ref, text = line.split(maxsplit=2)
-                    text = text.strip()  # Gets rid of the \n terminator
+                    tag, ref, *text = line.split(maxsplit=2)
+                    text = text[0].strip() if text else ''  # Gets rid of the \n terminator
                     if ref == "InstName":
                         component.reference = text
                         symbol = self._get_symbol(component.symbol) # pyright: ignore[reportArgumentType]
-- 
2.43.0


From 15230ff84c56f7f44d9e034e551306ac5cc21563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:43 +0000
Subject: [PATCH 111/124] fix: the net of an unconnected pin of a QSPICE
 schematic isn't given a name that a label has

---
 spicelib/editor/qsch_editor.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/spicelib/editor/qsch_editor.py b/spicelib/editor/qsch_editor.py
index 21afa32..e7d1af1 100644
--- a/spicelib/editor/qsch_editor.py
+++ b/spicelib/editor/qsch_editor.py
@@ -927,6 +927,9 @@ class QschEditor(BaseSchematic, BaseSubCircuit):
             # rotation = net.get_attr(QSCH_NET_ROTATION)
             net_name: str = net.get_attr(QSCH_NET_STR_ATTR) # pyright: ignore[reportAssignmentType]
             self.labels.append(Text(Point(x, y), net_name, type=TextTypeEnum.LABEL))
+            # A label can also be of the format N##
+            if re.fullmatch(r'N\d+', net_name, re.IGNORECASE):
+                highest_net_number = max(highest_net_number, int(net_name[1:]))
 
         for wire in self.schematic.get_items('wire'):
             # process wires
@@ -934,7 +937,7 @@ class QschEditor(BaseSchematic, BaseSubCircuit):
             x2, y2 = wire.get_attr(QSCH_WIRE_POS2) # pyright: ignore[reportGeneralTypeIssues]
             netname: str = wire.get_attr(QSCH_WIRE_NET)  # pyright: ignore[reportAssignmentType]
             # Check if the net is of the format N##, if it is get the net number
-            if netname.startswith('N'):
+            if netname.startswith(('N', 'n')):
                 try:
                     net_no = int(netname[1:])
                     if net_no > highest_net_number:
-- 
2.43.0


From 746f8debfe938518d59599ff766789b706aa4b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:14 +0000
Subject: [PATCH 112/124] fix: raw_convert quotes trace names that contain the
 separator

---
 spicelib/scripts/raw_convert.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/spicelib/scripts/raw_convert.py b/spicelib/scripts/raw_convert.py
index 1c401f5..6334c09 100644
--- a/spicelib/scripts/raw_convert.py
+++ b/spicelib/scripts/raw_convert.py
@@ -115,7 +115,9 @@ def main():
     if options.output is None:
         data = raw_data.export(columns=found_traces)
 
-        text = options.separator.join(data.keys()) + '\n'
+        # names such as V(a,b) are quoted when they contain the separator
+        text = options.separator.join('"' + col.replace('"', '""') + '"' if options.separator in col or '"' in col
+                                      else col for col in data.keys()) + '\n'
         data_size = len(data[data.__iter__().__next__()])
         for i in range(data_size):
             text += options.separator.join([str(data[col][i]) for col in data.keys()]) + '\n'
-- 
2.43.0


From dc5eba0f671c9d012e9b76c2fd837937d12ed853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:53 +0000
Subject: [PATCH 113/124] fix: the parameters of a subcircuit are read and set
 by key through its instance

---
 spicelib/editor/spice_subcircuit_instance.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spicelib/editor/spice_subcircuit_instance.py b/spicelib/editor/spice_subcircuit_instance.py
index 2db655c..4d9e95f 100644
--- a/spicelib/editor/spice_subcircuit_instance.py
+++ b/spicelib/editor/spice_subcircuit_instance.py
@@ -145,7 +145,7 @@ class SpiceCircuitInstance(SpiceComponent, BaseSubCircuitInstance):
         elif item in self.get_components():
             return self.get_component(item) # pyright: ignore[reportReturnType]
         elif item in self.get_all_parameter_names():
-            return self.get_parameter(item)
+            return self.subcircuit.get_parameter(item)
         else:
             raise KeyError(f'Key "{item}" not found as component or parameter in subcircuit "{self.value}".')
 
@@ -159,7 +159,7 @@ class SpiceCircuitInstance(SpiceComponent, BaseSubCircuitInstance):
         if key in self.subcircuit.get_components():
             self.set_component_value(key, value)
         elif key in self.subcircuit.get_all_parameter_names():
-            self.set_parameter(key, value)
+            self.subcircuit.set_parameter(key, value)
         else:
             raise KeyError(f'Key "{key}" not found as component or parameter in subcircuit "{self.reference}".')
 
-- 
2.43.0


From 838197e517466feb0113f86177899b1b88eb7c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:23 +0000
Subject: [PATCH 114/124] fix: a trace is found by its exact name even if
 another one that differs only in case was read before

---
 spicelib/raw/plot_data.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/spicelib/raw/plot_data.py b/spicelib/raw/plot_data.py
index ba026f6..4abfa25 100644
--- a/spicelib/raw/plot_data.py
+++ b/spicelib/raw/plot_data.py
@@ -738,10 +738,11 @@ class PlotData(PlotInterface):
                 return self._read_traces[trace_ref]
             # not found directly, see if it's a case-insensitive match
             trace_ref_lower = trace_ref.casefold()
-            for trace_name in self._read_traces:
-                if trace_ref_lower == trace_name.casefold():  # The trace names are case-insensitive
-                    # assert isinstance(trace, DataSet)
-                    return self._read_traces[trace_name]
+            if trace_ref not in self.raw_params['Variables']:  # otherwise it's that one, even if it was not read yet
+                for trace_name in self._read_traces:
+                    if trace_ref_lower == trace_name.casefold():  # The trace names are case-insensitive
+                        # assert isinstance(trace, DataSet)
+                        return self._read_traces[trace_name]
             # not found as a read trace, see if needs to be read from file
             try:
                 index = self.raw_params['Variables'].index(trace_ref)
-- 
2.43.0


From dfa7dfa68a1e6a6a176b9b895d37276f0cdd7f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:42:34 +0000
Subject: [PATCH 115/124] fix: LTspice schematic: removing a component of a
 block is recorded by the block, under its own name, and a denied edit is
 refused

---
 spicelib/editor/asc_editor.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/spicelib/editor/asc_editor.py b/spicelib/editor/asc_editor.py
index 385fb31..7eef2e5 100644
--- a/spicelib/editor/asc_editor.py
+++ b/spicelib/editor/asc_editor.py
@@ -675,10 +675,16 @@ class AscEditor(BaseSchematic, BaseSubCircuit):
         return [k for k in self.components.keys() if k[0] in prefixes]
 
     def remove_component(self, designator: str):
-        self.begin_update()
+        # docstring inherited from BaseEditor
+        permission = self.begin_update()
+        if permission == UpdatePermission.Deny:
+            raise PermissionError(f"Permission denied for removing component {designator}")
         sub_circuit, ref = self._get_parent(designator)
-        del sub_circuit.components[ref]
-        sub_circuit.end_update(designator, "", UpdateType.DeleteComponent)
+        if sub_circuit != self:  # The component is in a subcircuit
+            return sub_circuit.remove_component(ref)
+        self.get_component(designator)  # raises ComponentNotFoundError when there isn't one
+        del self.components[ref]
+        self.end_update(designator, "", UpdateType.DeleteComponent)
 
     def _get_text_space(self):
         """
-- 
2.43.0


From 60dce3c45495451a328b39d35d84d5f7f8ff6048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:53:28 +0000
Subject: [PATCH 116/124] fix: RAW reader: the steps of a QSPICE log are those
 that the log reader finds, also with blanks around them

---
 spicelib/raw/plot_data.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/spicelib/raw/plot_data.py b/spicelib/raw/plot_data.py
index 4abfa25..562da36 100644
--- a/spicelib/raw/plot_data.py
+++ b/spicelib/raw/plot_data.py
@@ -885,7 +885,7 @@ class PlotData(PlotInterface):
             except UnicodeError:
                 raise SpiceReadException("Unable to parse log file '%s'" % logfile)
 
-            step_regex = re.compile(r"^(\d+) of \d+ steps:\s+\.step (.*)$")
+            step_regex = re.compile(r"^\s*(\d+) of \d+ steps:\s+\.step (.*)$")
 
             for line in log:
                 match = step_regex.match(line)
@@ -897,6 +897,8 @@ class PlotData(PlotInterface):
 
                     tokens = stepset.strip('\r\n').split(' ')
                     for tok in tokens:
+                        if '=' not in tok:
+                            continue
                         key, value = tok.split("=")
                         # Try to convert to int or float
                         step_dict[key] = try_convert_value(value)
-- 
2.43.0


From e1cd85e0d93ed98143dbcce053b8cf257f2d92ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:53:51 +0000
Subject: [PATCH 117/124] fix: RAW reader: the value of a step is read whole
 when its line is the last one of the log and has no newline

---
 spicelib/raw/plot_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spicelib/raw/plot_data.py b/spicelib/raw/plot_data.py
index 562da36..4ce13ed 100644
--- a/spicelib/raw/plot_data.py
+++ b/spicelib/raw/plot_data.py
@@ -861,7 +861,7 @@ class PlotData(PlotInterface):
             for line in log:
                 if line.startswith(".step"):
                     step_dict = {}
-                    for tok in line[6:-1].split(' '):
+                    for tok in line[6:].strip('\r\n').split(' '):
                         if '=' not in tok:
                             continue
                         key, value = tok.split('=')
-- 
2.43.0


From 0bc3ecd3680d60d8a2255cd54e04d1b0a3bbb037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:18:50 +0000
Subject: [PATCH 118/124] fix: SPICE: edits of a component that was made on its
 own are recorded by the circuit that it is added to

---
 spicelib/editor/spice_subcircuit.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/spicelib/editor/spice_subcircuit.py b/spicelib/editor/spice_subcircuit.py
index 1878d87..7e8988d 100644
--- a/spicelib/editor/spice_subcircuit.py
+++ b/spicelib/editor/spice_subcircuit.py
@@ -802,6 +802,7 @@ class SpiceCircuit(BaseSubCircuit):
         else:
             line_no = self._end_of_circuit()
 
+        component._netlist = self
         self.netlist.insert(line_no, component)
         for line in existing:
             if line is not component:
-- 
2.43.0


From a548ea43428c177a99e05aaa9035926305da1ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:19:00 +0000
Subject: [PATCH 119/124] fix: SPICE: a component made from its parts has a
 text, so its circuit can be searched and edited

---
 spicelib/editor/spice_components.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/spicelib/editor/spice_components.py b/spicelib/editor/spice_components.py
index 6edbda8..4f60f50 100644
--- a/spicelib/editor/spice_components.py
+++ b/spicelib/editor/spice_components.py
@@ -244,6 +244,15 @@ class SpiceComponent(Component):
     #         return self._netlist.parent_reference() + self.reference
     #     return self.reference
 
+    @property
+    def obj(self):
+        """The text of the component. For those that are made from their parts, it is written from them."""
+        if self._obj:
+            return self._obj
+        stream = io.StringIO()
+        self.write_lines(stream)
+        return stream.getvalue()
+
     def _line_without_breaks(self) -> str:
         """Internal function. The text of the component in one line"""
         return re.sub(r'[\n\r]+\+?\s*', ' ', self._obj.lstrip())
@@ -391,7 +400,7 @@ class SpiceComponent(Component):
         :return: number of characters written
         :rtype: int
         """
-        if self._obj != "":
+        if self._obj:
             # try to rewrite the line preserving formatting
             return self.rewrite_lines(stream)
 
-- 
2.43.0


From fb3e58cf6a3df877faab3ba69c2ae0d79ca98feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:23:22 +0000
Subject: [PATCH 120/124] fix: SPICE: the nodes of a component that is written
 in more than one line are nodes of its circuit

---
 spicelib/editor/spice_subcircuit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spicelib/editor/spice_subcircuit.py b/spicelib/editor/spice_subcircuit.py
index 7e8988d..76d4cdc 100644
--- a/spicelib/editor/spice_subcircuit.py
+++ b/spicelib/editor/spice_subcircuit.py
@@ -842,7 +842,7 @@ class SpiceCircuit(BaseSubCircuit):
                 prefix = get_line_command(line)
                 if prefix in component_replace_regexs:
                     regex = component_replace_regexs[prefix]
-                    match = regex.match(line.obj.strip()) # pyright: ignore[reportOptionalMemberAccess]
+                    match = regex.match(re.sub(r'[\n\r]+\+?\s*', ' ', line.obj.strip())) # pyright: ignore[reportOptionalMemberAccess]
                     if match:
                         nodes = match.group('nodes').split()  # This separates by all space characters including \t
                         for node in nodes:
-- 
2.43.0


From f194d94b69c11573190c8bcb24dbce4275924365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:34:21 +0000
Subject: [PATCH 121/124] fix: an expression that starts with a number, as 2*x,
 is not a number

---
 spicelib/utils/float_unit.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/spicelib/utils/float_unit.py b/spicelib/utils/float_unit.py
index 41801a6..4cdf079 100644
--- a/spicelib/utils/float_unit.py
+++ b/spicelib/utils/float_unit.py
@@ -73,6 +73,9 @@ def parse_value(value, accept_invalid):
                     i += 1
                     unit = 'Ω'
 
+                elif value[i].isdigit():
+                    raise ValueError("There is more than one number")
+
                 # This part is done to support numbers with the format 1k7 or 1R8
                 j = i
                 while i < l and (value[i] in "0123456789"):
@@ -84,6 +87,8 @@ def parse_value(value, accept_invalid):
             i += 1
         if i < l:
             unit = value[i:]
+            if not (unit[0].isalpha() or unit[0] in '%°') or any(c in unit for c in "*+-()[]{}=,;:|&<>?!\"'"):
+                raise ValueError(f"Not a unit: {unit}")
 
         if suffix_number:
             value = float(value[:k] + "." + suffix_number) * multiplier
-- 
2.43.0


From 30fadc42978e276854deb1ad724768b3cc4e4505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:35:22 +0000
Subject: [PATCH 122/124] fix: RAW: an alias is computed also when a parameter
 that it does not use is an expression

---
 spicelib/raw/plot_data.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/spicelib/raw/plot_data.py b/spicelib/raw/plot_data.py
index 4ce13ed..d820ef7 100644
--- a/spicelib/raw/plot_data.py
+++ b/spicelib/raw/plot_data.py
@@ -592,7 +592,11 @@ class PlotData(PlotInterface):
             whattype = 'param'  # ex: "Freq" and "Omega" on AC simulations
         trace = TraceRead(alias, whattype, self._nPoints, self._axis, 'double')
         local_vars = {'pi': 3.1415926536, 'e': 2.7182818285}  # This is the dictionary that will be used to compute the alias
-        local_vars.update({name: scan_eng(value) for name, value in self._spice_params.items()})
+        for name, value in self._spice_params.items():
+            try:
+                local_vars[name] = scan_eng(value)
+            except ValueError:
+                pass  # It isn't a number. Only the formulas that use it fail
         self.read_trace_data(used_vars)
         local_vars.update({namify(name): self._read_traces[name].data for name in used_vars})
         try:
-- 
2.43.0


From ae0d95233d1e8d65d0b22a916b88fbef96fdde97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:56:31 +0000
Subject: [PATCH 123/124] fix: only .END, .ENDS and .ENDC end a circuit, not
 .ENDIF or .ENDMACHINE

---
 spicelib/editor/spice_subcircuit.py | 6 +++---
 spicelib/editor/spice_utils.py      | 2 ++
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/spicelib/editor/spice_subcircuit.py b/spicelib/editor/spice_subcircuit.py
index 76d4cdc..e03aaa5 100644
--- a/spicelib/editor/spice_subcircuit.py
+++ b/spicelib/editor/spice_subcircuit.py
@@ -26,7 +26,7 @@ import logging
 from ..utils.float_unit import format_eng
 from .editor_errors import *
 from .spice_utils import subckt_regex, SUBCKT_CLAUSE_FIND, \
-    lib_inc_regex, END_LINE_TERM, REPLACE_REGEXS, VALID_PREFIXES, UNIQUE_SIMULATION_DOT_INSTRUCTIONS
+    lib_inc_regex, end_regex, END_LINE_TERM, REPLACE_REGEXS, VALID_PREFIXES, UNIQUE_SIMULATION_DOT_INSTRUCTIONS
 from .primitives import ValueType, Primitive, try_value
 from .updates import UpdateType, UpdatePermission
 from .base_subcircuit import BaseSubCircuit
@@ -216,7 +216,7 @@ class SpiceCircuit(BaseSubCircuit):
             else:
                 primitive = Primitive(netlist=self, obj=line)
                 self.netlist.append(primitive)
-                if cmd.startswith('.END'):  # True for either .END, .ENDS and .ENDC primitives
+                if end_regex.match(cmd):  # True for either .END, .ENDS and .ENDC primitives
                     self.update_permission = UpdatePermission.Inform
                     return True  # If a sub-circuit is ended correctly, returns True
         return False  # If a sub-circuit ends abruptly, returns False
@@ -238,7 +238,7 @@ class SpiceCircuit(BaseSubCircuit):
             elif isinstance(primitive, Primitive):
                 line: str = primitive.obj # pyright: ignore[reportAssignmentType]
                 # Writes the modified sub-circuits at the end just before the .END clause
-                if line.upper().startswith(".END"):
+                if end_regex.match(line):
                     # write here the modified sub-circuits
                     for sub in self.modified_subcircuits():
                         sub.write_lines(stream)
diff --git a/spicelib/editor/spice_utils.py b/spicelib/editor/spice_utils.py
index b7661bc..ee9f8c9 100644
--- a/spicelib/editor/spice_utils.py
+++ b/spicelib/editor/spice_utils.py
@@ -55,6 +55,8 @@ SPICE_DOT_INSTRUCTIONS = (
 )
 SUBCKT_CLAUSE_FIND = r"^\s*\.SUBCKT\s+"
 subckt_regex = re.compile(r"^\s*\.SUBCKT\s+(?P<name>[^\s(]+)", re.IGNORECASE)
+# The end of a netlist, a sub-circuit or a control section. Not that of a .IF (.ENDIF), of a .MACHINE (.ENDMACHINE), etc...
+end_regex = re.compile(r"^\s*\.END[SC]?\b", re.IGNORECASE)
 lib_inc_regex = re.compile(
     r"^\.(LIB|INC(LUDE)?)\s+(?P<quote>[\"']?)(?P<filename>.+?)(?P=quote)\s*(?:[;*].*)?$",
     re.IGNORECASE
-- 
2.43.0


From 4f73dacee2beae3e5642907c57d220c6d18cbb6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:56:34 +0000
Subject: [PATCH 124/124] fix: recognise an include or library line that is
 indented

---
 spicelib/editor/spice_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spicelib/editor/spice_utils.py b/spicelib/editor/spice_utils.py
index ee9f8c9..fcb5d45 100644
--- a/spicelib/editor/spice_utils.py
+++ b/spicelib/editor/spice_utils.py
@@ -58,7 +58,7 @@ subckt_regex = re.compile(r"^\s*\.SUBCKT\s+(?P<name>[^\s(]+)", re.IGNORECASE)
 # The end of a netlist, a sub-circuit or a control section. Not that of a .IF (.ENDIF), of a .MACHINE (.ENDMACHINE), etc...
 end_regex = re.compile(r"^\s*\.END[SC]?\b", re.IGNORECASE)
 lib_inc_regex = re.compile(
-    r"^\.(LIB|INC(LUDE)?)\s+(?P<quote>[\"']?)(?P<filename>.+?)(?P=quote)\s*(?:[;*].*)?$",
+    r"^\s*\.(LIB|INC(LUDE)?)\s+(?P<quote>[\"']?)(?P<filename>.+?)(?P=quote)\s*(?:[;*].*)?$",
     re.IGNORECASE
 )
 
-- 
2.43.0

