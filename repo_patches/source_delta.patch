From 26c313f4fff7389440ab2be1d519b8875b1e9004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:40:16 +0000
Subject: [PATCH 01/12] fix: allow unnamed controls to be exported to CSV

The name is optional, but the CSV export raised KeyError when it was not set.
---
 qctrlopencontrols/driven_controls/driven_control.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qctrlopencontrols/driven_controls/driven_control.py b/qctrlopencontrols/driven_controls/driven_control.py
index 7c7ee02..f87bb30 100644
--- a/qctrlopencontrols/driven_controls/driven_control.py
+++ b/qctrlopencontrols/driven_controls/driven_control.py
@@ -390,7 +390,7 @@ class DrivenControl:
 
         control_info = self._qctrl_expanded_export_content(coordinates=coordinates)
         if file_type == FileType.CSV.value:
-            _ = control_info.pop("name")
+            _ = control_info.pop("name", None)
             control_info["maximum_rabi_rate"] = [
                 self.maximum_rabi_rate
             ] * self.number_of_segments
-- 
2.43.0


From 6ffaffbd1317a7056a1443f73b31c7d8122dc606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:40:16 +0000
Subject: [PATCH 02/12] fix: export zero amplitudes for controls without Rabi
 drive

Normalizing by a maximum Rabi rate of zero produced NaN in the exported data.
---
 .../driven_controls/driven_control.py         | 23 +++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/qctrlopencontrols/driven_controls/driven_control.py b/qctrlopencontrols/driven_controls/driven_control.py
index f87bb30..a120463 100644
--- a/qctrlopencontrols/driven_controls/driven_control.py
+++ b/qctrlopencontrols/driven_controls/driven_control.py
@@ -330,6 +330,19 @@ class DrivenControl:
 
         return np.sum(self.durations)
 
+    @property
+    def _rabi_rate_normalizer(self) -> float:
+        """
+        Returns the value by which to divide Rabi rates in order to make them dimensionless.
+
+        Returns
+        -------
+        float
+            The maximum Rabi rate of the control, or 1 if the Rabi rate is zero on all segments.
+        """
+
+        return self.maximum_rabi_rate if self.maximum_rabi_rate != 0 else 1.0
+
     def _qctrl_expanded_export_content(self, coordinates: str) -> Dict:
         """
         Prepare the content to be saved in Q-CTRL expanded format.
@@ -357,13 +370,15 @@ class DrivenControl:
 
         if coordinates == Coordinate.CARTESIAN.value:
             control_info["amplitude_x"] = list(
-                self.amplitude_x / self.maximum_rabi_rate
+                self.amplitude_x / self._rabi_rate_normalizer
             )
             control_info["amplitude_y"] = list(
-                self.amplitude_y / self.maximum_rabi_rate
+                self.amplitude_y / self._rabi_rate_normalizer
             )
         else:
-            control_info["rabi_rates"] = list(self.rabi_rates / self.maximum_rabi_rate)
+            control_info["rabi_rates"] = list(
+                self.rabi_rates / self._rabi_rate_normalizer
+            )
             control_info["azimuthal_angles"] = list(self.azimuthal_angles)
 
         return control_info
@@ -538,7 +553,7 @@ class DrivenControl:
         )
 
         if dimensionless_rabi_rate:
-            normalizer = self.maximum_rabi_rate
+            normalizer = self._rabi_rate_normalizer
         else:
             normalizer = 1
 
-- 
2.43.0


From 9c510b2bc18f19dcb786e0998e2c80055cc45f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:40:16 +0000
Subject: [PATCH 03/12] fix: print negative detunings when the maximum detuning
 is zero

All detunings were printed as zero if the largest of them was zero.
---
 qctrlopencontrols/driven_controls/driven_control.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/qctrlopencontrols/driven_controls/driven_control.py b/qctrlopencontrols/driven_controls/driven_control.py
index a120463..04ff2a5 100644
--- a/qctrlopencontrols/driven_controls/driven_control.py
+++ b/qctrlopencontrols/driven_controls/driven_control.py
@@ -608,11 +608,15 @@ class DrivenControl:
             [str(azimuthal_angle / np.pi) for azimuthal_angle in self.azimuthal_angles]
         )
 
+        # if the maximum detuning is zero the remaining detunings can still be negative, in which
+        # case they are scaled by the largest magnitude
+        detuning_scale = self.maximum_detuning
+        if detuning_scale == 0:
+            detuning_scale = np.amax(np.abs(self.detunings))
+
         pretty_detuning = ",".join(
             [
-                str(detuning / self.maximum_detuning)
-                if self.maximum_detuning != 0
-                else "0"
+                str(detuning / detuning_scale) if detuning_scale != 0 else "0"
                 for detuning in self.detunings
             ]
         )
@@ -628,7 +632,7 @@ class DrivenControl:
             "Azimuthal Angles = [{}] x pi".format(pretty_azimuthal_angles)
         )
         driven_control.append(
-            "Detunings = [{}] x {}".format(pretty_detuning, self.maximum_detuning)
+            "Detunings = [{}] x {}".format(pretty_detuning, detuning_scale)
         )
         driven_control.append(
             "Durations = [{}] x {}".format(pretty_durations, self.duration)
-- 
2.43.0


From 3b6bee5f9e77ea01ca85cf85cb009494466fd637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:40:16 +0000
Subject: [PATCH 04/12] fix: reject pulses with both Rabi and negative detuning
 rotations

The validation only considered positive detuning rotations, so the conversion silently
dropped a negative one.
---
 .../dynamic_decoupling_sequences/dynamic_decoupling_sequence.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qctrlopencontrols/dynamic_decoupling_sequences/dynamic_decoupling_sequence.py b/qctrlopencontrols/dynamic_decoupling_sequences/dynamic_decoupling_sequence.py
index 8dff4c4..7dd237f 100644
--- a/qctrlopencontrols/dynamic_decoupling_sequences/dynamic_decoupling_sequence.py
+++ b/qctrlopencontrols/dynamic_decoupling_sequences/dynamic_decoupling_sequence.py
@@ -529,6 +529,6 @@ def _check_valid_operation(
     """
 
     rabi_rotation_index = set(np.where(rabi_rotations > 0.0)[0])
-    detuning_rotation_index = set(np.where(detuning_rotations > 0.0)[0])
+    detuning_rotation_index = set(np.where(detuning_rotations != 0.0)[0])
 
     return not rabi_rotation_index.intersection(detuning_rotation_index)
-- 
2.43.0


From d7d90fe089ead55d69c59c6a695e89b7484a47d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:40:16 +0000
Subject: [PATCH 05/12] fix: make the conversion of sequences independent of
 the time scale

Absolute tolerances of 1e-8 s accepted overlapping pulses and replaced whole sequences
by free evolution when their durations were of the order of nanoseconds.
---
 .../dynamic_decoupling_sequence.py                | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/qctrlopencontrols/dynamic_decoupling_sequences/dynamic_decoupling_sequence.py b/qctrlopencontrols/dynamic_decoupling_sequences/dynamic_decoupling_sequence.py
index 7dd237f..935d5cc 100644
--- a/qctrlopencontrols/dynamic_decoupling_sequences/dynamic_decoupling_sequence.py
+++ b/qctrlopencontrols/dynamic_decoupling_sequences/dynamic_decoupling_sequence.py
@@ -440,11 +440,14 @@ def convert_dds_to_driven_control(
 
     # check if the minimum_segment_duration is respected in the gaps between the pulses
     # as minimum_segment_duration >= 0, this also excludes overlaps
+    # the tolerance is relative to the sequence duration, so that it does not depend on the units
     gap_durations = pulse_start_ends[1:, 0] - pulse_start_ends[:-1, 1]
     if not np.all(
         np.logical_or(
             np.greater(gap_durations, minimum_segment_duration),
-            np.isclose(gap_durations, minimum_segment_duration),
+            np.isclose(
+                gap_durations, minimum_segment_duration, atol=1e-8 * sequence_duration
+            ),
         )
     ):
         raise ArgumentsValueError(
@@ -464,16 +467,6 @@ def convert_dds_to_driven_control(
             },
         )
 
-    if np.allclose(pulse_start_ends, 0.0):
-        # the original sequence should be a free evolution
-        return DrivenControl(
-            rabi_rates=[0.0],
-            azimuthal_angles=[0.0],
-            detunings=[0.0],
-            durations=[sequence_duration],
-            name=name,
-        )
-
     control_rabi_rates = np.zeros((operations.shape[1] * 2,))
     control_azimuthal_angles = np.zeros((operations.shape[1] * 2,))
     control_detunings = np.zeros((operations.shape[1] * 2,))
-- 
2.43.0


From 7919a577050085366b7ad38de4eda25402d57728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:40:16 +0000
Subject: [PATCH 06/12] fix: correct XY-concatenated sequences of order three
 and above

Pulses at the end of the nested sequences were assumed to exist for every order, so free
evolution periods were overwritten and pulses were placed at wrong times.
---
 .../predefined.py                             | 37 +++++++------------
 1 file changed, 14 insertions(+), 23 deletions(-)

diff --git a/qctrlopencontrols/dynamic_decoupling_sequences/predefined.py b/qctrlopencontrols/dynamic_decoupling_sequences/predefined.py
index 8167239..9c9dd25 100644
--- a/qctrlopencontrols/dynamic_decoupling_sequences/predefined.py
+++ b/qctrlopencontrols/dynamic_decoupling_sequences/predefined.py
@@ -1232,26 +1232,17 @@ def _concatenation_xy(concatenation_sequence) -> np.ndarray:
 
     if concatenation_sequence == 1:
         return np.array([1, -1, 1, -2, 1, -1, 1, -2])
-    cumulations = np.concatenate(
-        (_concatenation_xy(concatenation_sequence - 1), np.array([-1])), axis=0
-    )
-    cumulations = cumulations[0:-1]
-    cumulations[-1] = -3
-    cumulations = np.concatenate(
-        (cumulations, _concatenation_xy(concatenation_sequence - 1), np.array([-2])),
-        axis=0,
-    )
-    cumulations = cumulations[0:-2]
-    cumulations = np.concatenate(
-        (cumulations, _concatenation_xy(concatenation_sequence - 1), np.array([-1])),
-        axis=0,
-    )
-    cumulations = cumulations[0:-1]
-    cumulations[-1] = -3
-    cumulations = np.concatenate(
-        (cumulations, _concatenation_xy(concatenation_sequence - 1), np.array([-2])),
-        axis=0,
-    )
-    if cumulations[-1] == -2 and cumulations[-2] == -2:
-        cumulations = cumulations[0:-2]
-    return cumulations
+
+    previous = _concatenation_xy(concatenation_sequence - 1)
+    cumulations = []
+    for pulse in [-1, -2, -1, -2]:
+        if previous[-1] == 1:
+            # previous sequence ends in a free evolution
+            cumulations.extend([previous, [pulse]])
+        elif previous[-1] == pulse:
+            # two equal pulses at the same time cancel each other
+            cumulations.append(previous[:-1])
+        else:
+            # two different pulses at the same time are equivalent to the third one
+            cumulations.extend([previous[:-1], [-6 - previous[-1] - pulse]])
+    return np.concatenate(cumulations)
-- 
2.43.0


From 815cad89051af0fac9da88843a2a3f4f20619585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:40:58 +0000
Subject: [PATCH 07/12] fix: keep offsets of XY-concatenated sequences within
 the duration

Accumulating the rounded unit spacing placed the last pulse slightly after the end of the
sequence for many durations, which was then rejected as an invalid offset.
---
 .../dynamic_decoupling_sequences/predefined.py           | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/qctrlopencontrols/dynamic_decoupling_sequences/predefined.py b/qctrlopencontrols/dynamic_decoupling_sequences/predefined.py
index 9c9dd25..1004e4f 100644
--- a/qctrlopencontrols/dynamic_decoupling_sequences/predefined.py
+++ b/qctrlopencontrols/dynamic_decoupling_sequences/predefined.py
@@ -1020,8 +1020,7 @@ def new_xy_concatenated_sequence(
     rabi_operations = rabi_operations[rabi_operations != -3]
     rabi_positions = np.zeros(rabi_operations.shape)
     rabi_positions[rabi_operations != -1] = 1
-    rabi_positions = rabi_positions * unit_spacing
-    rabi_positions = np.cumsum(rabi_positions)
+    rabi_positions = np.cumsum(rabi_positions) * unit_spacing
 
     values, counts = np.unique(rabi_positions, return_counts=True)
     rabi_offsets = [value for value, count in zip(values, counts) if count % 2 == 0]
@@ -1030,8 +1029,7 @@ def new_xy_concatenated_sequence(
     azimuthal_operations = azimuthal_operations[azimuthal_operations != -3]
     azimuthal_positions = np.zeros(azimuthal_operations.shape)
     azimuthal_positions[azimuthal_operations != -2] = 1
-    azimuthal_positions = azimuthal_positions * unit_spacing
-    azimuthal_positions = np.cumsum(azimuthal_positions)
+    azimuthal_positions = np.cumsum(azimuthal_positions) * unit_spacing
 
     values, counts = np.unique(azimuthal_positions, return_counts=True)
     azimuthal_offsets = [
@@ -1042,8 +1040,7 @@ def new_xy_concatenated_sequence(
     detuning_operations = detuning_operations[detuning_operations != -1]
     detuning_positions = np.zeros(detuning_operations.shape)
     detuning_positions[detuning_operations != -3] = 1
-    detuning_positions = detuning_positions * unit_spacing
-    detuning_positions = np.cumsum(detuning_positions)
+    detuning_positions = np.cumsum(detuning_positions) * unit_spacing
 
     values, counts = np.unique(detuning_positions, return_counts=True)
     detuning_offsets = [value for value, count in zip(values, counts) if count % 2 == 0]
-- 
2.43.0


From f50db93683f87938759931257f19ad362f609bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:40:58 +0000
Subject: [PATCH 08/12] fix: respect the minimum segment duration in modulated
 Gaussian controls

Rounding the number of segments up made every segment shorter than the requested minimum
unless the total duration was a multiple of it.
---
 qctrlopencontrols/driven_controls/predefined.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/qctrlopencontrols/driven_controls/predefined.py b/qctrlopencontrols/driven_controls/predefined.py
index 525344b..6196429 100644
--- a/qctrlopencontrols/driven_controls/predefined.py
+++ b/qctrlopencontrols/driven_controls/predefined.py
@@ -1041,7 +1041,9 @@ def new_modulated_gaussian_control(
     )
 
     # work out exact segment duration
-    segment_count = int(np.ceil(duration / minimum_segment_duration))
+    # (the small offset prevents rounding errors from removing a segment when the total duration
+    # is a multiple of the minimum segment duration)
+    segment_count = int(np.floor(duration / minimum_segment_duration + 1e-9))
     segment_duration = duration / segment_count
     segment_start_times = np.arange(segment_count) * segment_duration
     segment_midpoints = segment_start_times + segment_duration / 2
@@ -1065,10 +1067,11 @@ def new_modulated_gaussian_control(
 
         # maximum segment value
         pulse_segments_maximum = np.max(modulated_gaussian_segments)
-        # normalize to maximum Rabi rate
-        modulated_gaussian_segments = (
-            maximum_rabi_rate * modulated_gaussian_segments / pulse_segments_maximum
-        )
+        # normalize to maximum Rabi rate (unless there is only the central segment, which is zero)
+        if pulse_segments_maximum > 0:
+            modulated_gaussian_segments = (
+                maximum_rabi_rate * modulated_gaussian_segments / pulse_segments_maximum
+            )
     else:
         # for the zero-frequency pulse, we need to produce the largest possible full rotation (i.e.
         # multiple of 2pi) while respecting the maximum Rabi rate. Note that if the maximum Rabi
-- 
2.43.0


From 3a2d06f109e43990ef7bd3c947fabb41025949cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:40:58 +0000
Subject: [PATCH 09/12] fix: keep modulated Gaussian controls antisymmetric
 about their center

Rounding errors in the segment times broke the antisymmetry. If the modulation vanished at
all midpoints, they were amplified to a nonzero net rotation above the maximum Rabi rate.
---
 qctrlopencontrols/driven_controls/predefined.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/qctrlopencontrols/driven_controls/predefined.py b/qctrlopencontrols/driven_controls/predefined.py
index 6196429..c2db2d7 100644
--- a/qctrlopencontrols/driven_controls/predefined.py
+++ b/qctrlopencontrols/driven_controls/predefined.py
@@ -1026,9 +1026,6 @@ def new_modulated_gaussian_control(
     # default spread of the gaussian shaped pulse as a fraction of its duration
     _pulse_width = 0.1
 
-    # default mean of the gaussian shaped pulse as a fraction of its duration
-    _pulse_mean = 0.5
-
     min_required_upper_bound = np.sqrt(2 * np.pi) / (_pulse_width * duration)
     check_arguments(
         maximum_rabi_rate >= min_required_upper_bound,
@@ -1045,14 +1042,15 @@ def new_modulated_gaussian_control(
     # is a multiple of the minimum segment duration)
     segment_count = int(np.floor(duration / minimum_segment_duration + 1e-9))
     segment_duration = duration / segment_count
-    segment_start_times = np.arange(segment_count) * segment_duration
-    segment_midpoints = segment_start_times + segment_duration / 2
+    # midpoints of the segments with respect to the center of the pulse
+    segment_midpoints = (
+        np.arange(segment_count) - (segment_count - 1) / 2
+    ) * segment_duration
 
     # prepare a base gaussian shaped pulse
-    gaussian_mean = _pulse_mean * duration
     gaussian_width = _pulse_width * duration
     base_gaussian_segments = np.exp(
-        -0.5 * ((segment_midpoints - gaussian_mean) / gaussian_width) ** 2
+        -0.5 * (segment_midpoints / gaussian_width) ** 2
     )
 
     if modulation_frequency != 0:
@@ -1060,7 +1058,7 @@ def new_modulated_gaussian_control(
         # which ensures the pulses are antisymmetric about the center of the pulse and thus effect
         # a net zero rotation.
         modulation_signals = np.sin(
-            2.0 * np.pi * modulation_frequency * (segment_midpoints - duration / 2)
+            2.0 * np.pi * modulation_frequency * segment_midpoints
         )
         # modulate the base gaussian
         modulated_gaussian_segments = base_gaussian_segments * modulation_signals
-- 
2.43.0


From 51545f39065d3acc79b9635aebd4a76125f0df33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:25:55 +0000
Subject: [PATCH 10/12] fix: use the builtin float type instead of the
 deprecated np.float alias

Every construction of a control or sequence emitted a DeprecationWarning.
The alias no longer exists in newer numpy versions, where construction failed.
---
 qctrlopencontrols/driven_controls/driven_control.py         | 2 +-
 .../dynamic_decoupling_sequence.py                          | 6 +++---
 .../dynamic_decoupling_sequences/predefined.py              | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/qctrlopencontrols/driven_controls/driven_control.py b/qctrlopencontrols/driven_controls/driven_control.py
index 04ff2a5..cdc0547 100644
--- a/qctrlopencontrols/driven_controls/driven_control.py
+++ b/qctrlopencontrols/driven_controls/driven_control.py
@@ -102,7 +102,7 @@ class DrivenControl:
 
         self.name = name
 
-        durations = np.asarray(durations, dtype=np.float)
+        durations = np.asarray(durations, dtype=float)
 
         # check if all the durations are greater than zero
         check_arguments(
diff --git a/qctrlopencontrols/dynamic_decoupling_sequences/dynamic_decoupling_sequence.py b/qctrlopencontrols/dynamic_decoupling_sequences/dynamic_decoupling_sequence.py
index 935d5cc..5e12162 100644
--- a/qctrlopencontrols/dynamic_decoupling_sequences/dynamic_decoupling_sequence.py
+++ b/qctrlopencontrols/dynamic_decoupling_sequences/dynamic_decoupling_sequence.py
@@ -117,9 +117,9 @@ class DynamicDecouplingSequence:
 
         self.duration = duration
         self.offsets = offsets
-        self.rabi_rotations = np.asarray(rabi_rotations, dtype=np.float)
-        self.azimuthal_angles = np.asarray(azimuthal_angles, dtype=np.float)
-        self.detuning_rotations = np.asarray(detuning_rotations, dtype=np.float)
+        self.rabi_rotations = np.asarray(rabi_rotations, dtype=float)
+        self.azimuthal_angles = np.asarray(azimuthal_angles, dtype=float)
+        self.detuning_rotations = np.asarray(detuning_rotations, dtype=float)
         self.name = name
 
     def export(self) -> Dict:
diff --git a/qctrlopencontrols/dynamic_decoupling_sequences/predefined.py b/qctrlopencontrols/dynamic_decoupling_sequences/predefined.py
index 1004e4f..20861e7 100644
--- a/qctrlopencontrols/dynamic_decoupling_sequences/predefined.py
+++ b/qctrlopencontrols/dynamic_decoupling_sequences/predefined.py
@@ -680,7 +680,7 @@ def new_walsh_sequence(duration, paley_order, pre_post_rotation=False, name=None
     for i in range(samples - 1):
         if walsh_array[i] != walsh_array[i + 1]:
             walsh_relative_offsets.append((i + 1) * (1.0 / samples))
-    walsh_relative_offsets = np.array(walsh_relative_offsets, dtype=np.float)
+    walsh_relative_offsets = np.array(walsh_relative_offsets, dtype=float)
 
     offsets = duration * walsh_relative_offsets
     rabi_rotations = np.full(offsets.shape, np.pi)
-- 
2.43.0


From bd123d069d2d91b532a0809a36ea322788b503a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:25:55 +0000
Subject: [PATCH 11/12] fix: allow argument errors to be copied and pickled

ArgumentsValueError takes more arguments than it passes on to Exception,
so copying or unpickling one raised a TypeError.
---
 qctrlopencontrols/exceptions.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/qctrlopencontrols/exceptions.py b/qctrlopencontrols/exceptions.py
index 7fdd3c1..1e94e16 100644
--- a/qctrlopencontrols/exceptions.py
+++ b/qctrlopencontrols/exceptions.py
@@ -54,3 +54,8 @@ class ArgumentsValueError(QctrlError):
             for key in self.extras:
                 self.message += "\n" + str(key) + "=" + repr(self.extras[key])
         super().__init__(self.message)
+
+    def __reduce__(self):
+        # recreate the error from its parts rather than from its message, so that it can be copied
+        # and passed between processes
+        return type(self), (self.description, self.arguments, self.extras)
-- 
2.43.0


From 4e4679db0247f9f67874edcc91ec93696d7b5ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:57:00 +0000
Subject: [PATCH 12/12] fix: use the builtin complex type instead of the
 deprecated np.complex alias

Importing the constants issued a deprecation warning and fails with numpy 1.24
and later, which removed the alias.
---
 qctrlopencontrols/constants.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/qctrlopencontrols/constants.py b/qctrlopencontrols/constants.py
index 2bcfe80..28f1cc4 100644
--- a/qctrlopencontrols/constants.py
+++ b/qctrlopencontrols/constants.py
@@ -18,11 +18,11 @@ Defines commonly used constants.
 
 import numpy as np
 
-SIGMA_X = np.array([[0.0, 1.0], [1.0, 0.0]], dtype=np.complex)
-SIGMA_Y = np.array([[0.0, -1.0j], [1.0j, 0.0]], dtype=np.complex)
-SIGMA_Z = np.array([[1.0, 0.0], [0.0, -1.0]], dtype=np.complex)
-SIGMA_M = np.array([[0.0, 1.0], [0.0, 0.0]], dtype=np.complex)
-SIGMA_P = np.array([[0.0, 0.0], [1.0, 0.0]], dtype=np.complex)
+SIGMA_X = np.array([[0.0, 1.0], [1.0, 0.0]], dtype=complex)
+SIGMA_Y = np.array([[0.0, -1.0j], [1.0j, 0.0]], dtype=complex)
+SIGMA_Z = np.array([[1.0, 0.0], [0.0, -1.0]], dtype=complex)
+SIGMA_M = np.array([[0.0, 1.0], [0.0, 0.0]], dtype=complex)
+SIGMA_P = np.array([[0.0, 0.0], [1.0, 0.0]], dtype=complex)
 
 # Matplotlib format of data for plotting
 MATPLOTLIB = "matplotlib"
-- 
2.43.0

