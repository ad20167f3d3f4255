From 2a378a1f5be1af960e16a874755b9c44090f1880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:50 +0000
Subject: [PATCH 01/40] fix: SortedDict keeps its key order when built from
 data and when keys are popped

---
 neural_graph_composer/midi/sorted_dict.py | 34 ++++++++++++++++++++++-
 1 file changed, 33 insertions(+), 1 deletion(-)

diff --git a/neural_graph_composer/midi/sorted_dict.py b/neural_graph_composer/midi/sorted_dict.py
index c6abd3d..a7c23c3 100644
--- a/neural_graph_composer/midi/sorted_dict.py
+++ b/neural_graph_composer/midi/sorted_dict.py
@@ -31,8 +31,8 @@ class SortedDict(collections.OrderedDict):
     """
 
     def __init__(self, *args, **kwargs):
+        self._keys = []
         super().__init__(*args, **kwargs)
-        self._keys = sorted(super().keys())
 
     def __setitem__(self, key, value):
         """Set the value of a key.
@@ -62,6 +62,38 @@ class SortedDict(collections.OrderedDict):
         super().__delitem__(key)
         self._keys.remove(key)
 
+    def pop(self, key, *default):
+        """Remove a key and return its value, or default if the key is missing.
+        :param key: The key to remove
+        :return: the value of the removed key
+        """
+        if key in self:
+            value = self[key]
+            del self[key]
+            return value
+        if default:
+            return default[0]
+        raise KeyError(key)
+
+    def popitem(self, last=True):
+        """Remove and return the (key, value) pair with the largest key,
+        or with the smallest key if last is False.
+        :param last: remove the last (largest) key
+        :return: removed (key, value)
+        """
+        if not self._keys:
+            raise KeyError('dictionary is empty')
+        key = self._keys[-1 if last else 0]
+        return key, self.pop(key)
+
+    def clear(self):
+        """Remove all keys."""
+        super().clear()
+        self._keys.clear()
+
+    def __reduce__(self):
+        return type(self), (list(self.items()),)
+
     def keys(self):
         """Return an iterator over the keys sorted in ascending order.
         :return: A sorted iterator over the keys
-- 
2.43.0


From ed1be8d84f3d3cb0f0b40d3f617153ca8c731f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:50 +0000
Subject: [PATCH 02/40] fix: SortedIntervalDict deletes a key from the
 dictionary it stores

---
 neural_graph_composer/midi/sorted_interval_dict.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/neural_graph_composer/midi/sorted_interval_dict.py b/neural_graph_composer/midi/sorted_interval_dict.py
index df88e6c..5573228 100644
--- a/neural_graph_composer/midi/sorted_interval_dict.py
+++ b/neural_graph_composer/midi/sorted_interval_dict.py
@@ -42,11 +42,7 @@ class SortedIntervalDict(collections.abc.MutableMapping):
         :return:
         """
         if isinstance(key, Interval):
-            for i, (k, v) in enumerate(self._items):
-                if k == key:
-                    del self._items[i]
-                    return
-            raise KeyError(key)
+            del self._dict[key]
         elif isinstance(key, slice):
             for k in list(self.keys())[key]:
                 del self[k]
-- 
2.43.0


From 2cdea0a9d982ce5eb0b700ab71f8f0a2d0bfb5f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:50 +0000
Subject: [PATCH 03/40] fix: a slice of a sequence holds the clipped copies of
 the notes

---
 neural_graph_composer/midi/midi_sequence.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_graph_composer/midi/midi_sequence.py b/neural_graph_composer/midi/midi_sequence.py
index d4b067f..8d32c57 100644
--- a/neural_graph_composer/midi/midi_sequence.py
+++ b/neural_graph_composer/midi/midi_sequence.py
@@ -579,7 +579,7 @@ class MidiNoteSequence(MidiEvents, MidiQuantization):
 
             new_note = copy.deepcopy(note)
             new_note.end_time = min(note.end_time, end)
-            new_midi_seq.add_note(note)
+            new_midi_seq.add_note(new_note)
 
         # update total time based on
         new_midi_seq.total_time = min(self.total_time, end)
-- 
2.43.0


From 1a5b1f3253dafcc6888347bc8e741fab48d68d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:50 +0000
Subject: [PATCH 04/40] fix: the total time of a cut covers every note that is
 kept

---
 neural_graph_composer/midi/midi_sequence.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_graph_composer/midi/midi_sequence.py b/neural_graph_composer/midi/midi_sequence.py
index 8d32c57..d1c9f8e 100644
--- a/neural_graph_composer/midi/midi_sequence.py
+++ b/neural_graph_composer/midi/midi_sequence.py
@@ -782,7 +782,7 @@ class MidiNoteSequence(MidiEvents, MidiQuantization):
         """
         truncated_notes = self.notes[:cut_size]
         truncated_seq = MidiNoteSequence(instrument=self.instrument, notes=truncated_notes)
-        truncated_seq.total_time = min(self.total_time, truncated_notes[-1].end_time)
+        truncated_seq.total_time = max([n.end_time for n in truncated_notes], default=0.0)
         return truncated_seq
 
     def to_midi_file(self, file_path: str, callback=save_midi_callback) -> None:
-- 
2.43.0


From 08b896fbe592a0612799fa667ebf7cb6afc61bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:50 +0000
Subject: [PATCH 05/40] fix: a clone of a sequence keeps its drum events

---
 neural_graph_composer/midi/midi_sequence.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/neural_graph_composer/midi/midi_sequence.py b/neural_graph_composer/midi/midi_sequence.py
index d1c9f8e..0d14e38 100644
--- a/neural_graph_composer/midi/midi_sequence.py
+++ b/neural_graph_composer/midi/midi_sequence.py
@@ -667,6 +667,7 @@ class MidiNoteSequence(MidiEvents, MidiQuantization):
         """Return a clone of this object """
         cloned = MidiNoteSequence()
         cloned._notes = copy.deepcopy(self._notes)
+        cloned._drum_events = copy.deepcopy(self._drum_events)
         cloned.control_changes = copy.deepcopy(self.control_changes)
         cloned.pitch_bends = copy.deepcopy(self.pitch_bends)
         cloned.total_time = self.total_time
-- 
2.43.0


From a094e7e307c4afa800502f99186acc0cf159b775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:50 +0000
Subject: [PATCH 06/40] fix: quantizing a sequence counts the steps of the
 quantized notes

---
 neural_graph_composer/midi/midi_sequence.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neural_graph_composer/midi/midi_sequence.py b/neural_graph_composer/midi/midi_sequence.py
index 0d14e38..c8a2f8a 100644
--- a/neural_graph_composer/midi/midi_sequence.py
+++ b/neural_graph_composer/midi/midi_sequence.py
@@ -614,8 +614,8 @@ class MidiNoteSequence(MidiEvents, MidiQuantization):
             quantized_note = note.quantize(sps=sps, amount=amount)
             new_notes.append(quantized_note)
             # update total_quantized_steps
-            if note.quantized_end_step > self.__total_quantized_steps:
-                self.__total_quantized_steps = note.quantized_end_step
+            if quantized_note.quantized_end_step > self.__total_quantized_steps:
+                self.__total_quantized_steps = quantized_note.quantized_end_step
 
         new_control_changes = []
         #  quantize control changes and text annotations.
-- 
2.43.0


From de8775d4b1135b095837003b19f4b6c85860f948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:50 +0000
Subject: [PATCH 07/40] fix: a control change can be quantized

---
 .../midi/midi_control_change.py                 | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/neural_graph_composer/midi/midi_control_change.py b/neural_graph_composer/midi/midi_control_change.py
index d909fb6..f55a653 100644
--- a/neural_graph_composer/midi/midi_control_change.py
+++ b/neural_graph_composer/midi/midi_control_change.py
@@ -338,19 +338,14 @@ class MidiControlChange(MidiBaseControlChange):
         :param amount:  quantization amount.
         :return:
         """
-        self.quantized_start_step = self.quantize_to_nearest_step(
-            self.cc_time, sps, amount=amount)
-        self.quantized_end_step = self.quantize_to_nearest_step(
-            self.cc_time, sps, amount=amount)
-
-        self.quantized_start_step = max(self.quantized_start_step, 0)
-        assert (self.quantized_start_step >= 0)
-        assert (self.quantized_end_step >= 0)
-
-        if self.quantized_end_step == self.quantized_start_step:
-            self.quantized_end_step += 1
+        step = max(self.quantize_to_nearest_step(
+            self.cc_time, sps, amount=amount), 0)
 
+        # a control change lasts one step on the grid.
         self.quantized_step = sps
+        self._quantized_start_step = step
+        self._quantized_end_step = step + 1
+        self._is_quantized = True
 
     def quantize(self, sps: int = 4, amount: float = 0.5, min_step: Optional[int] = None):
         """Returns a new quantized control change with the specified
-- 
2.43.0


From ce4787300ef32eafadabf6366496f4777c468747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:50 +0000
Subject: [PATCH 08/40] fix: a copy of a control change keeps its drum flag and
 step size

---
 neural_graph_composer/midi/midi_control_change.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/neural_graph_composer/midi/midi_control_change.py b/neural_graph_composer/midi/midi_control_change.py
index f55a653..299e222 100644
--- a/neural_graph_composer/midi/midi_control_change.py
+++ b/neural_graph_composer/midi/midi_control_change.py
@@ -386,6 +386,8 @@ class MidiControlChange(MidiBaseControlChange):
             if cc_time is not None else self.cc_time,
             program=self.program,
             instrument=self.instrument,
+            is_drum=self.is_drum,
+            quantized_step=self.quantized_step,
             quantized_start_step=quantized_start_step
             if quantized_start_step is not None else self.quantized_start_step,
             quantized_end_step=quantized_end_step
-- 
2.43.0


From b43fc9a5a6bf2cce49bd833e085fd816fea85363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:50 +0000
Subject: [PATCH 09/40] fix: a note can be read from a document without the
 optional fields

---
 neural_graph_composer/midi/midi_note.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/neural_graph_composer/midi/midi_note.py b/neural_graph_composer/midi/midi_note.py
index 24fd7ac..d2dbccb 100644
--- a/neural_graph_composer/midi/midi_note.py
+++ b/neural_graph_composer/midi/midi_note.py
@@ -795,11 +795,11 @@ class MidiNote(MidiEvent):
             program=json_dict["program"],
             instrument=json_dict["instrument"],
             velocity=json_dict["velocity"],
-            quantized_start_step=json_dict.get("quantized_start_step"),
-            quantized_end_step=json_dict.get("quantized_end_step"),
-            voice=json_dict.get("voice"),
-            numerator=json_dict.get("numerator"),
-            denominator=json_dict.get("denominator"),
+            quantized_start_step=json_dict.get("quantized_start_step", -1),
+            quantized_end_step=json_dict.get("quantized_end_step", -1),
+            voice=json_dict.get("voice", 0),
+            numerator=json_dict.get("numerator", 4),
+            denominator=json_dict.get("denominator", 4),
             is_drum=json_dict.get("is_drum", False)
         )
 
-- 
2.43.0


From f6c37e59b6065c87bc73e0abe332af5f44dec2c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:50 +0000
Subject: [PATCH 10/40] fix: the frequency of a named pitch is relative to A4

---
 neural_graph_composer/midi/midi_note.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_graph_composer/midi/midi_note.py b/neural_graph_composer/midi/midi_note.py
index d2dbccb..daecdce 100644
--- a/neural_graph_composer/midi/midi_note.py
+++ b/neural_graph_composer/midi/midi_note.py
@@ -752,7 +752,7 @@ class MidiNote(MidiEvent):
         >>> MusicNote.pitch_to_freq('F#', 5)
         739.988845423269
         """
-        semitones_above_a4 = (octave - 4) * SEMITONES_PER_OCTAVE + PITCH_FREQUENCIES[pitch]
+        semitones_above_a4 = (octave - 4) * SEMITONES_PER_OCTAVE + PITCH_FREQUENCIES[pitch] - PITCH_FREQUENCIES['A']
         return MidiNote.note_to_freq(REFERENCE_NOTE + semitones_above_a4)
 
     @staticmethod
-- 
2.43.0


From b4e6c7f702e6a125f239da9796e782199fe8964b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:50 +0000
Subject: [PATCH 11/40] fix: a signature lookup returns the last signature at
 or before the given time

---
 neural_graph_composer/midi/midi_sequences.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/neural_graph_composer/midi/midi_sequences.py b/neural_graph_composer/midi/midi_sequences.py
index a8e9029..7a5da0d 100644
--- a/neural_graph_composer/midi/midi_sequences.py
+++ b/neural_graph_composer/midi/midi_sequences.py
@@ -581,7 +581,9 @@ class MidiNoteSequences:
         if self.time_signatures is None or len(self.time_signatures) == 0:
             return 4, 4
 
-        i = bisect_right(self.time_signatures, MidiTimeSignature(midi_time=start_time)) - 1
+        i = bisect_right(self.time_signatures, start_time, key=lambda s: s.midi_time) - 1
+        if i < 0:
+            return 4, 4
         return self.time_signatures[i].numerator, self.time_signatures[i].denominator
 
     @cache
@@ -598,7 +600,9 @@ class MidiNoteSequences:
         if self.tempo_signature is None or len(self.tempo_signatures) == 0:
             return DEFAULT_PPQ, DEFAULT_QPM
 
-        i = bisect_right(self.tempo_signatures, MidiTempoSignature(midi_time=start_time)) - 1
+        i = bisect_right(self.tempo_signatures, start_time, key=lambda s: s.midi_time) - 1
+        if i < 0:
+            return DEFAULT_QPM, DEFAULT_PPQ
         return int(self.tempo_signatures[i].qpm), self.tempo_signatures[i].resolution
 
     @cache
@@ -609,7 +613,9 @@ class MidiNoteSequences:
         """
         if self.key_signatures is None or len(self.key_signatures) == 0:
             return 0, 0
-        i = bisect_right(self.key_signatures, MidiKeySignature(midi_time=start_time)) - 1
+        i = bisect_right(self.key_signatures, start_time, key=lambda s: s.midi_time) - 1
+        if i < 0:
+            return 0, 0
         return self.key_signatures[i].mode, self.key_signatures[i].midi_key
 
     @property
-- 
2.43.0


From 1666a9505a57d95a08da6448fa2d6df4c880aafc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:50 +0000
Subject: [PATCH 12/40] fix: the initial tempo follows the tempo signatures
 added later

---
 neural_graph_composer/midi/midi_sequences.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/neural_graph_composer/midi/midi_sequences.py b/neural_graph_composer/midi/midi_sequences.py
index 7a5da0d..4e43373 100644
--- a/neural_graph_composer/midi/midi_sequences.py
+++ b/neural_graph_composer/midi/midi_sequences.py
@@ -413,6 +413,7 @@ class MidiNoteSequences:
             bisect.insort_left(self.tempo_signatures, v, key=lambda k: k)
 
         self.tempo_signature.cache_clear()
+        self.initial_tempo.cache_clear()
 
     def slice_time_signatures(
             self,
-- 
2.43.0


From f764633de86ffd2bac7ab9d45f3e568458df5397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:50 +0000
Subject: [PATCH 13/40] fix: simultaneous signatures keep the order in which
 they were added

---
 neural_graph_composer/midi/midi_sequences.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/neural_graph_composer/midi/midi_sequences.py b/neural_graph_composer/midi/midi_sequences.py
index 4e43373..11a76f6 100644
--- a/neural_graph_composer/midi/midi_sequences.py
+++ b/neural_graph_composer/midi/midi_sequences.py
@@ -352,7 +352,7 @@ class MidiNoteSequences:
         if self.is_debug:
             logging.debug(f"adding time signature {v}")
 
-        v.seq = self.time_signatures[-1].seq + 1
+        v.seq = max((s.seq for s in self.time_signatures), default=-1) + 1
 
         # replace default
         if len(self.time_signatures) >= 1 and self.is_close_to_zero(
@@ -374,7 +374,7 @@ class MidiNoteSequences:
         if self.is_debug:
             logging.debug(f"adding key signature {v}")
 
-        v.seq = self.key_signatures[-1].seq + 1
+        v.seq = max((s.seq for s in self.key_signatures), default=-1) + 1
 
         # replace default
         if len(self.key_signatures) >= 1 and self.is_close_to_zero(
@@ -404,7 +404,7 @@ class MidiNoteSequences:
         if self.is_debug:
             logging.debug(f"adding tempo a signature {v}")
 
-        v.seq = self.tempo_signatures[-1].seq + 1
+        v.seq = max((s.seq for s in self.tempo_signatures), default=-1) + 1
 
         if len(self.tempo_signatures) >= 1 and self.is_close_to_zero(
                 self.tempo_signatures[0].midi_time, v.midi_time):
-- 
2.43.0


From d6e23a6a596b636ddf141ed122621f2c1640ee94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:50 +0000
Subject: [PATCH 14/40] fix: tempo signatures are enumerated in order and up to
 the given bound

---
 neural_graph_composer/midi/midi_sequences.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/neural_graph_composer/midi/midi_sequences.py b/neural_graph_composer/midi/midi_sequences.py
index 11a76f6..654e9b7 100644
--- a/neural_graph_composer/midi/midi_sequences.py
+++ b/neural_graph_composer/midi/midi_sequences.py
@@ -476,10 +476,10 @@ class MidiNoteSequences:
         if sort_first:
             _tempo_signatures = sorted(self.tempo_signatures, key=lambda x: x.midi_time)
         else:
-            _tempo_signature = self.tempo_signature
+            _tempo_signatures = self.tempo_signatures
 
-        for sig in self.tempo_signatures:
-            if sig == self.initial_tempo or upper_bound and sig.midi_time > upper_bound:
+        for sig in _tempo_signatures:
+            if upper_bound is not None and sig.midi_time > upper_bound:
                 continue
             yield sig
 
-- 
2.43.0


From d7267f96627c74d6289d879719e6a862df69d334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:50 +0000
Subject: [PATCH 15/40] fix: a collection of sequences is quantized only if
 every sequence is

---
 neural_graph_composer/midi/midi_sequences.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_graph_composer/midi/midi_sequences.py b/neural_graph_composer/midi/midi_sequences.py
index 654e9b7..12caf26 100644
--- a/neural_graph_composer/midi/midi_sequences.py
+++ b/neural_graph_composer/midi/midi_sequences.py
@@ -487,7 +487,7 @@ class MidiNoteSequences:
         """Return true if all midi sequence for each instrument quantized
         :return:
         """
-        return all(n.is_quantized for n in self.__midi_seqs.values())
+        return all(n.is_quantized() for n in self.__midi_seqs.values())
 
     def get_all_sequence_events(self) -> List[MidiEvent]:
         """Return a list of all events in the sequence.
-- 
2.43.0


From 8f26e5b620d3f8c857a99bd92a32d43ad91c3a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:50 +0000
Subject: [PATCH 16/40] fix: indexing or assigning a track never replaces
 another track

---
 neural_graph_composer/midi/midi_sequences.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/neural_graph_composer/midi/midi_sequences.py b/neural_graph_composer/midi/midi_sequences.py
index 12caf26..bffc68a 100644
--- a/neural_graph_composer/midi/midi_sequences.py
+++ b/neural_graph_composer/midi/midi_sequences.py
@@ -211,7 +211,7 @@ class MidiNoteSequences:
             self._instrument_to_idx = {}
 
         if track_idx not in self._track_to_idx:
-            internal_idx = len(self.__midi_seqs)
+            internal_idx = track_idx
             instrument = MidiInstrumentInfo(
                 instrument=track_idx,
                 name=f"Instrument {0}",
@@ -250,6 +250,7 @@ class MidiNoteSequences:
             self.__midi_seqs[track_idx] = MidiNoteSequence.from_notes(notes=value)
         else:
             raise TypeError("value must be a MidiNoteSequence or a list of MidiNotes")
+        self._track_to_idx[track_idx] = track_idx
 
     def __len__(self) -> int:
         """Return len of midi_seq.
-- 
2.43.0


From 86267f1b1c9c2d51cc1aa89bc51685cbfb636447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:50 +0000
Subject: [PATCH 17/40] fix: a sequence can be written to a file, with the
 program of each track

---
 neural_graph_composer/midi_reader.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/neural_graph_composer/midi_reader.py b/neural_graph_composer/midi_reader.py
index b471d36..edb63fe 100644
--- a/neural_graph_composer/midi_reader.py
+++ b/neural_graph_composer/midi_reader.py
@@ -329,7 +329,7 @@ class MidiReader(MidiBaseReader):
         :rtype CustomPrettyMIDI
         """
         ticks_per_quarter = sequence.resolution or DEFAULT_PPQ
-        max_event_time = sequence.truncate(to_end)
+        max_event_time = sequence.truncate()
         initial_seq_tempo = sequence.initial_tempo()
 
         logging.debug(f"{initial_seq_tempo} {ticks_per_quarter} {max_event_time}")
@@ -387,7 +387,8 @@ class MidiReader(MidiBaseReader):
 
             # create instrument
             instrument = pretty_midi.Instrument(
-                sequence[k].program, sequence[k].instrument.is_drum
+                sequence[k].instrument.instrument_num, sequence[k].instrument.is_drum,
+                name=sequence[k].instrument.name
             )
             instrument.notes = notes
             instrument.pitch_bends = pitch_bends
-- 
2.43.0


From 50ad7cdcd59fd54f852dd5beff9b87e7e291ad0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:24 +0000
Subject: [PATCH 18/40] fix: later tempo changes are written at their own time

---
 neural_graph_composer/midi_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_graph_composer/midi_reader.py b/neural_graph_composer/midi_reader.py
index edb63fe..d385618 100644
--- a/neural_graph_composer/midi_reader.py
+++ b/neural_graph_composer/midi_reader.py
@@ -363,7 +363,7 @@ class MidiReader(MidiBaseReader):
             print(f"Setting scale {type(seq_tempo.midi_time)}")
             tick = pm.time_to_tick(seq_tempo.midi_time)
             pm.update_scale((tick, tick_scale))
-            pm.update_tick_time([0])
+            pm._update_tick_to_time(tick)
 
         inst_infos = {}
         for i, inst_info in enumerate(sequence.instruments):
-- 
2.43.0


From 90400027688aee300f569aca9623dc88a1acdd97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:24 +0000
Subject: [PATCH 19/40] fix: reading a file keeps every note, pitch bend and
 control change

---
 neural_graph_composer/midi_reader.py | 28 ++++++++--------------------
 1 file changed, 8 insertions(+), 20 deletions(-)

diff --git a/neural_graph_composer/midi_reader.py b/neural_graph_composer/midi_reader.py
index d385618..2620e04 100644
--- a/neural_graph_composer/midi_reader.py
+++ b/neural_graph_composer/midi_reader.py
@@ -156,23 +156,13 @@ class MidiReader(MidiBaseReader):
                     warnings.warn(f"{instrument}, note duration start and end "
                                   f"time is very close {n.start} {n.end}")
                     continue
-                # update total time
-                if not midi_seq.total_time or n.end >= midi_seq[seq_id].total_time:
-                    # update entire total for all music instruments
-                    if n.end >= midi_seq.total_time:
-                        midi_seq.total_time = n.end
-                    # update for particular instrument total time
+                # update entire total for all music instruments
+                if n.end >= midi_seq.total_time:
+                    midi_seq.total_time = n.end
+                # update for particular instrument total time
+                if n.end >= midi_seq[seq_id].total_time:
                     midi_seq[seq_id].total_time = n.end
-                    yield instrument, i, n, seq_id
-                else:
-                    logging.debug(
-                        f"Skipping instrument {instrument}: "
-                        f"note {n} end time after instrument time {midi_seq.total_time}")
-                    logging.warning(
-                        "instrument {} note pitch {} interval {}-{} vel {} "
-                        "skipped".format(instrument, n.pitch, n.start, n.end, n.velocity))
-                    logging.warning(
-                        "seq total time {}".format(midi_seq.total_time))
+                yield instrument, i, n, seq_id
 
     @staticmethod
     def read_instrument_pitch_bends(
@@ -190,8 +180,7 @@ class MidiReader(MidiBaseReader):
             seq_id = midi_seq.create_track(i, instrument.program, instrument.name, instrument.is_drum)
             # for each instrument iterate over all node and get time
             for n in instrument.pitch_bends:
-                if not midi_seq.total_time or n.time >= midi_seq.total_time:
-                    yield instrument, i, n, seq_id
+                yield instrument, i, n, seq_id
 
     @staticmethod
     def read_instrument_control_changes(
@@ -208,8 +197,7 @@ class MidiReader(MidiBaseReader):
         for i, instrument in enumerate(midi_data.instruments):
             seq_id = midi_seq.create_track(i, instrument.program, instrument.name, instrument.is_drum)
             for cv in instrument.control_changes:
-                if not midi_seq.total_time or cv.time >= midi_seq.total_time:
-                    yield instrument, i, cv, seq_id
+                yield instrument, i, cv, seq_id
 
     @staticmethod
     def mido_to_pretty_midi(mido_file: mido.MidiFile) -> CustomPrettyMIDI:
-- 
2.43.0


From d246a3b4771e62d88b792516fbd75b9841e8c760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:24 +0000
Subject: [PATCH 20/40] fix: node features of a graph are stacked into one
 tensor

---
 neural_graph_composer/midi_graph_builder.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neural_graph_composer/midi_graph_builder.py b/neural_graph_composer/midi_graph_builder.py
index 581c173..0266e8f 100644
--- a/neural_graph_composer/midi_graph_builder.py
+++ b/neural_graph_composer/midi_graph_builder.py
@@ -282,8 +282,8 @@ class MidiGraphBuilder:
                 if key not in group_node_attrs:
                     continue
                 try:
-                    if isinstance(value, (tuple, list)) and all(isinstance(v, (Tensor, np.ndarray)) for v in value):
-                        data[key] = value
+                    if isinstance(value, (tuple, list)) and all(isinstance(v, np.ndarray) for v in value):
+                        data[key] = torch.from_numpy(np.stack(value))
                     elif isinstance(value, np.ndarray):
                         data[key] = torch.from_numpy(value)
                     elif isinstance(value, (tuple, list)) and all(isinstance(v, Tensor) for v in value):
-- 
2.43.0


From eb3153f0692bea6221b62a76bd497d29f63074b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:24 +0000
Subject: [PATCH 21/40] fix: every graph that was built is emitted

---
 neural_graph_composer/midi_graph_builder.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/neural_graph_composer/midi_graph_builder.py b/neural_graph_composer/midi_graph_builder.py
index 0266e8f..474198f 100644
--- a/neural_graph_composer/midi_graph_builder.py
+++ b/neural_graph_composer/midi_graph_builder.py
@@ -1129,7 +1129,11 @@ class MidiGraphBuilder:
             for node_hash in self._hash_to_notes:
                 assert node_hash in self.hash_to_index
 
-        for g in self._pyg_data or []:
+        # graphs are released from memory as they are emitted
+        while self._pyg_data:
+            g = self._pyg_data.pop(0)
+            if self._sub_graphs:
+                self._sub_graphs.pop(0)
             node_hash = [self._hash_to_index[node_hash] for node_hash in g.node_hash]
             target_indices = [self._hash_to_index[hash_val] for hash_val in g.node_hash]
 
@@ -1159,8 +1163,3 @@ class MidiGraphBuilder:
 
             yield g
             del g
-
-            del self._pyg_data[:]
-            del self._sub_graphs[:]
-            self._pyg_data = []
-            self._sub_graphs = []
-- 
2.43.0


From 9a6d0752691bfef2418218300496079f385386e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:24 +0000
Subject: [PATCH 22/40] fix: note groups are linked in the order in which they
 are played

---
 neural_graph_composer/midi_graph_builder.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/neural_graph_composer/midi_graph_builder.py b/neural_graph_composer/midi_graph_builder.py
index 474198f..148eeec 100644
--- a/neural_graph_composer/midi_graph_builder.py
+++ b/neural_graph_composer/midi_graph_builder.py
@@ -956,8 +956,9 @@ class MidiGraphBuilder:
             else:
                 return g
 
+        # keys are hashes of the start times, so order groups by their first note.
         sorted_keys = list(data.keys())
-        sorted_keys.sort()
+        sorted_keys.sort(key=lambda k: min(n.start_time for n in data[k]))
         if not sorted_keys:
             if g is None:
                 return nx.DiGraph()
-- 
2.43.0


From 00174d2a02257e2ee4313b348231282719a10a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:24 +0000
Subject: [PATCH 23/40] fix: velocities are scaled when all are zero or none is
 given

---
 neural_graph_composer/midi_graph_builder.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/neural_graph_composer/midi_graph_builder.py b/neural_graph_composer/midi_graph_builder.py
index 148eeec..2150e5a 100644
--- a/neural_graph_composer/midi_graph_builder.py
+++ b/neural_graph_composer/midi_graph_builder.py
@@ -616,6 +616,9 @@ class MidiGraphBuilder:
         """
         velocities = np.array(velocities)
 
+        if len(velocities) == 0:
+            return []
+
         if len(velocities) == 1:
             rescaled_velocity = np.clip(
                 np.round(velocities * (target_max_velocity - target_min_velocity) / 127 + target_min_velocity),
@@ -654,6 +657,10 @@ class MidiGraphBuilder:
         :return: list of rescaled velocity values
         """
         velocities = np.array(velocities)
+        # nothing to scale
+        if not velocities.any():
+            return velocities.astype(int).tolist()
+
         # the average velocity
         avg_velocity = np.mean(velocities)
         # the ratio between each note's velocity and the average velocity
-- 
2.43.0


From 7bde2b46eb8cb2215a851662228a5835b6036982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:24 +0000
Subject: [PATCH 24/40] fix: a minor interval in a chord is not read as a major
 one

---
 neural_graph_composer/midi/midi_scales.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_graph_composer/midi/midi_scales.py b/neural_graph_composer/midi/midi_scales.py
index 8f11539..92fac87 100644
--- a/neural_graph_composer/midi/midi_scales.py
+++ b/neural_graph_composer/midi/midi_scales.py
@@ -615,7 +615,7 @@ class MusicTheory:
         for i, interval in enumerate(interval_chord):
             # if caller pass string we convert to Enum
             if isinstance(interval, str):
-                interval = Interval[interval.upper()]
+                interval = Interval[interval]
             interval_pitch = MusicTheory.intervals[interval]
             chord_pitch = (root + interval_pitch) % 12
             _chord_pitches.append(chord_pitch)
-- 
2.43.0


From ec000a2b3fb4aa9f01cfc8342b70cbe681d26c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:24 +0000
Subject: [PATCH 25/40] fix: the notes of a scale can be listed from a pitch
 number or a lower case name

---
 neural_graph_composer/midi/midi_scales.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/neural_graph_composer/midi/midi_scales.py b/neural_graph_composer/midi/midi_scales.py
index 92fac87..64503c6 100644
--- a/neural_graph_composer/midi/midi_scales.py
+++ b/neural_graph_composer/midi/midi_scales.py
@@ -702,10 +702,12 @@ class MusicTheory:
         if isinstance(root, str):
             if root.upper() not in MusicTheory.pitch_names.values():
                 raise ValueError(f"Invalid note name: {root}")
+            root_idx = MusicTheory.note_names.index(root.upper())
         elif not (0 <= root <= 11):
             raise ValueError("root pitch parameter should be within the range [0, 11]")
+        else:
+            root_idx = root
 
-        root_idx = MusicTheory.note_names.index(root)
         intervals = MusicTheory.intervals_from_scale(scale)
         sorted_intervals = sorted(intervals, key=lambda x: MusicTheory.intervals[x])
 
-- 
2.43.0


From 01b826ad1fdfd9b8877969ba9d061721d19fc796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:48 +0000
Subject: [PATCH 26/40] fix: the end of a sequence is not remembered across
 edits

---
 neural_graph_composer/midi/midi_sequence.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/neural_graph_composer/midi/midi_sequence.py b/neural_graph_composer/midi/midi_sequence.py
index c8a2f8a..c8f2cee 100644
--- a/neural_graph_composer/midi/midi_sequence.py
+++ b/neural_graph_composer/midi/midi_sequence.py
@@ -650,7 +650,6 @@ class MidiNoteSequence(MidiEvents, MidiQuantization):
             if seq_tempo.midi_time == 0:
                 return seq_tempo.midi_time
 
-    @cache
     def truncate_to_last_event(self, offset: float) -> Optional[float]:
         """Truncates the sequence so that all notes end before
         `total_time + offset`.
-- 
2.43.0


From df1c2fbea12cf3daf8140f97b03cac6669cd4d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:08 +0000
Subject: [PATCH 27/40] fix: dropping nodes renumbers the remaining links

---
 neural_graph_composer/transforms.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/neural_graph_composer/transforms.py b/neural_graph_composer/transforms.py
index 09d1feb..304eb48 100644
--- a/neural_graph_composer/transforms.py
+++ b/neural_graph_composer/transforms.py
@@ -129,10 +129,15 @@ class RandomNodeDrop(T.BaseTransform):
         mask_row = mask[row]
         mask_col = mask[col]
         mask_all = mask_row & mask_col
+
+        # nodes are renumbered to their position in keep_idx
+        new_idx = torch.full((num_nodes,), -1, dtype=torch.long)
+        new_idx[keep_idx] = torch.arange(keep_idx.numel())
+        edge_index = new_idx[edge_index[:, mask_all]]
         if edge_attr is not None:
-            return edge_index[:, mask_all], edge_attr[mask_all]
+            return edge_index, edge_attr[mask_all]
         else:
-            return edge_index[:, mask_all]
+            return edge_index, None
 
     def __repr__(self):
         """
-- 
2.43.0


From d3bc72b9ce2c4597cc436ac33f36abbc035bd420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:08 +0000
Subject: [PATCH 28/40] fix: the combined data set holds the combined graphs

---
 neural_graph_composer/midi_dataset.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/neural_graph_composer/midi_dataset.py b/neural_graph_composer/midi_dataset.py
index 0b48cf9..66ebad8 100644
--- a/neural_graph_composer/midi_dataset.py
+++ b/neural_graph_composer/midi_dataset.py
@@ -589,6 +589,7 @@ class MidiDataset(InMemoryDataset):
             'index_to_hash': _index_to_hash,
         }
 
+        _data, _slices = self.collate(self.__data_list)
         print(f"Saving {self.processed_dir} data.pt")
         torch.save((_data, _slices, additional_data),
                    osp.join(
-- 
2.43.0


From e4d58a8aac962873b19a2c8927e0c7bef5f4ed9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:39 +0000
Subject: [PATCH 29/40] fix: the lowest pitch bend is accepted

---
 neural_graph_composer/midi/midi_pitch_bend.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/neural_graph_composer/midi/midi_pitch_bend.py b/neural_graph_composer/midi/midi_pitch_bend.py
index f66428f..c16f8d9 100644
--- a/neural_graph_composer/midi/midi_pitch_bend.py
+++ b/neural_graph_composer/midi/midi_pitch_bend.py
@@ -23,14 +23,14 @@ class MidiPitchBend(MidiEvent):
         and bounded to particular instrument , track.
 
         MIDI Pitch Bend event. Is drum if event in drum channel
-        :param amount is amount of pitch bend. Based on MIDI it values between -8191 and 8191
+        :param amount is amount of pitch bend. Based on MIDI it values between -8192 and 8191
         :param program: midi program , default 0
         :param instrument:  midi instrument default 0
         :param midi_time: time of event.  time of event
         :param is_drum: default False
         """
-        if not (-8191 <= amount <= 8191):
-            raise ValueError("amount must be between -8191 and 8191")
+        if not (-8192 <= amount <= 8191):
+            raise ValueError("amount must be between -8192 and 8191")
         self.amount: int = amount
 
         if not (0 <= program <= 127):
@@ -58,7 +58,7 @@ class MidiPitchBend(MidiEvent):
         else:
             self.__midi_time: Optional[Union[float, np.ndarray]] = None
 
-        self.__amount: int = min(max(-8191, amount), 8191)
+        self.__amount: int = min(max(-8192, amount), 8191)
         self.__program: int = min(max(0, program), 255)
         self.__instrument: int = min(max(0, instrument), 255)
         self.__midi_time: Union[float, np.ndarray] = np.clip(midi_time, 0, np.inf) if midi_time is not None else 0.0
-- 
2.43.0


From c730df3dd750580e9f9ba5f61b28fe9e85a3b54c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:00 +0000
Subject: [PATCH 30/40] fix: the graph transforms can be instantiated and
 applied

---
 neural_graph_composer/transforms.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/neural_graph_composer/transforms.py b/neural_graph_composer/transforms.py
index 304eb48..06127ac 100644
--- a/neural_graph_composer/transforms.py
+++ b/neural_graph_composer/transforms.py
@@ -26,7 +26,7 @@ from torch_geometric.transforms import BaseTransform
 class AddDegreeTransform(BaseTransform):
     """Add degree to x.
     """
-    def __call__(self, data):
+    def forward(self, data):
         x = data.x.reshape(data.num_nodes, -1)
         degree = torch_geometric.utils.degree(data.edge_index[0], num_nodes=data.num_nodes)
         degree = degree.reshape(-1, 1)
@@ -49,7 +49,7 @@ class GraphIDTransform(BaseTransform):
         self.num_classes = dataset.num_classes
         print(f"Creating Graph ID transform Node proper {self.num_classes}")
 
-    def __call__(self, data):
+    def forward(self, data):
         """Transform add graph id.
 
         It requires dataset to have public method that it can access.
@@ -83,7 +83,7 @@ class RandomNodeDrop(T.BaseTransform):
         print(f"Creating Random Node proper with p {p}")
         self.p = p
 
-    def __call__(self, data: Data) -> Data:
+    def forward(self, data: Data) -> Data:
         """
 
         :param data:
@@ -153,7 +153,7 @@ class RandomEdgeDrop(T.BaseTransform):
         """
         self.p = p
 
-    def __call__(self, data):
+    def forward(self, data):
         """
         :param data:
         :return:
-- 
2.43.0


From 12d93b7ccc77cd0f7a032eae1b904a95389e9126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:11 +0000
Subject: [PATCH 31/40] fix: links of a graph without link labels can be
 dropped

---
 neural_graph_composer/transforms.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/neural_graph_composer/transforms.py b/neural_graph_composer/transforms.py
index 06127ac..ec8c1b6 100644
--- a/neural_graph_composer/transforms.py
+++ b/neural_graph_composer/transforms.py
@@ -168,7 +168,9 @@ class RandomEdgeDrop(T.BaseTransform):
 
         pos_edge_mask = None
         neg_edge_mask = None
-        if data.pos_edge_label is not None and data.neg_edge_label is not None:
+        pos_edge_label = getattr(data, 'pos_edge_label', None)
+        neg_edge_label = getattr(data, 'neg_edge_label', None)
+        if pos_edge_label is not None and neg_edge_label is not None:
             pos_edge_mask = data.pos_edge_label_index[:, mask]
             neg_edge_mask = data.neg_edge_label_index[:, mask]
 
@@ -177,8 +179,8 @@ class RandomEdgeDrop(T.BaseTransform):
             edge_index=edge_index,
             edge_attr=edge_attr,
             y=data.y,
-            pos_edge_label=data.pos_edge_label,
-            neg_edge_label=data.neg_edge_label,
+            pos_edge_label=pos_edge_label,
+            neg_edge_label=neg_edge_label,
             train_mask=data.train_mask,
             val_mask=data.val_mask,
             test_mask=data.test_mask,
-- 
2.43.0


From 16353edfdfa833bbe94433bc8b0794ef90350d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:54 +0000
Subject: [PATCH 32/40] fix: a file given as bytes can be read

---
 neural_graph_composer/custom_pretty_midi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_graph_composer/custom_pretty_midi.py b/neural_graph_composer/custom_pretty_midi.py
index 086da07..d0181ba 100644
--- a/neural_graph_composer/custom_pretty_midi.py
+++ b/neural_graph_composer/custom_pretty_midi.py
@@ -45,7 +45,7 @@ class CustomPrettyMIDI(pretty_midi.PrettyMIDI):
         """
         # Mustafa TODO push to github to main PrettyMIDI
         self.drum_channel = drum_channel
-        super().__init__(midi_file, resolution, initial_tempo)
+        super().__init__(None, resolution, initial_tempo)
         self.is_debug = is_debug
 
         if midi_file is not None:
-- 
2.43.0


From adb76d465a811ddb2bb4c4218d702e3171a57b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:36 +0000
Subject: [PATCH 33/40] fix: a collection with a single onset can be written

---
 neural_graph_composer/midi_reader.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/neural_graph_composer/midi_reader.py b/neural_graph_composer/midi_reader.py
index 2620e04..1b5e660 100644
--- a/neural_graph_composer/midi_reader.py
+++ b/neural_graph_composer/midi_reader.py
@@ -391,7 +391,6 @@ class MidiReader(MidiBaseReader):
             pm.adjust_times(original_times, new_times)
 
         logging.debug(f"pretty midi time: {pm.get_end_time()} "
-                      f"estimate_tempo: {pm.estimate_tempo()} "
                       f"resolution: {pm.resolution}")
         return pm
 
-- 
2.43.0


From aed496c2d7c528ae4c0f97357d970b35e6eefc01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:01 +0000
Subject: [PATCH 34/40] fix: set_sequence assigns a track like indexing does

---
 neural_graph_composer/midi/midi_sequences.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/neural_graph_composer/midi/midi_sequences.py b/neural_graph_composer/midi/midi_sequences.py
index bffc68a..599672b 100644
--- a/neural_graph_composer/midi/midi_sequences.py
+++ b/neural_graph_composer/midi/midi_sequences.py
@@ -780,9 +780,4 @@ class MidiNoteSequences:
 
     def set_sequence(self, track_idx: int, sequence: Union[List[MidiNote], MidiNoteSequence]) -> None:
         """Set the MidiNoteSequence for the given track index."""
-        if not isinstance(sequence, MidiNoteSequence):
-            sequence = MidiNoteSequence(resolution=self.resolution, is_debug=self.is_debug)
-            sequence.midi_notes = sequence.midi_notes + sequence
-
-        self.__midi_seqs[track_idx] = sequence
-
+        self[track_idx] = sequence
-- 
2.43.0


From 951772b23a537f5bb2deac1db717ec788f1bf3ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:23 +0000
Subject: [PATCH 35/40] fix: a tempo added after ticks were mapped takes effect
 on them

---
 neural_graph_composer/custom_pretty_midi.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/neural_graph_composer/custom_pretty_midi.py b/neural_graph_composer/custom_pretty_midi.py
index d0181ba..2f28a76 100644
--- a/neural_graph_composer/custom_pretty_midi.py
+++ b/neural_graph_composer/custom_pretty_midi.py
@@ -138,6 +138,8 @@ class CustomPrettyMIDI(pretty_midi.PrettyMIDI):
 
     def update_scale(self, new_scale):
         self._tick_scales.append(new_scale)
+        # ticks after the change that are already mapped have other times now
+        self._update_tick_to_time(len(self.tick_times) - 1)
 
     def _load_tempo_changes(self, midi_data: MidiFile):
         """Populates ``self._tick_scales`` with tuples of
-- 
2.43.0


From f2bcd25d8d76612c8910b1883147a137f764ea6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:56 +0000
Subject: [PATCH 36/40] fix: the sanity check of emitted graphs reads labels as
 numbers

---
 neural_graph_composer/midi_graph_builder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_graph_composer/midi_graph_builder.py b/neural_graph_composer/midi_graph_builder.py
index 2150e5a..a183254 100644
--- a/neural_graph_composer/midi_graph_builder.py
+++ b/neural_graph_composer/midi_graph_builder.py
@@ -1150,7 +1150,7 @@ class MidiGraphBuilder:
 
             # reverse sanity-check
             if is_sanity_check:
-                original_labels = [self._index_to_hash[label.item()] for label in g.label]
+                original_labels = [self._index_to_hash[label] for label in g.label]
                 original_target_indices = [self._index_to_hash[index] for index in target_indices]
                 original_y_values = [self._index_to_hash[y.item()] for y in g.y]
                 original_notes = [self._hash_to_notes[h] for h in original_labels]
-- 
2.43.0


From 6cbce6d30ec452be18e25887573a4302a44d0fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:37:34 +0000
Subject: [PATCH 37/40] fix: extract cuts notes at the window and keeps the
 total time

Every extracted note was cut to the total time of a part that starts at
zero, so each extraction raised; the total time added start to end.
---
 neural_graph_composer/midi/midi_sequence.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/neural_graph_composer/midi/midi_sequence.py b/neural_graph_composer/midi/midi_sequence.py
index c8f2cee..55228a0 100644
--- a/neural_graph_composer/midi/midi_sequence.py
+++ b/neural_graph_composer/midi/midi_sequence.py
@@ -544,9 +544,7 @@ class MidiNoteSequence(MidiEvents, MidiQuantization):
             sub_seq.notes.append(copy.deepcopy(note))
             sub_seq.notes[-1].start_time -= split_times[sbs]
             sub_seq.notes[-1].end_time = min(note.end_time, split_times[sbs + 1]) - split_times[sbs]
-            sub_seq.notes[-1].end_time = min(sub_seq.notes[-1].end_time,
-                                             sub_seq.total_time + sub_seq.notes[-1].start_time)
-            sub_seq.total_time = sub_seq.notes[-1].end_time + sub_seq.notes[-1].start_time
+            sub_seq.total_time = max(sub_seq.total_time, sub_seq.notes[-1].end_time)
 
         return sub_sequences
 
-- 
2.43.0


From 754809a820db54e685ede9ea2a0de2bd463c47dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:37:34 +0000
Subject: [PATCH 38/40] fix: split extracts by each split time once

It called a method that does not exist, and a split time was added once
for each note before it (and not at all without one).
---
 neural_graph_composer/midi/midi_sequence.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/neural_graph_composer/midi/midi_sequence.py b/neural_graph_composer/midi/midi_sequence.py
index 55228a0..553bdae 100644
--- a/neural_graph_composer/midi/midi_sequence.py
+++ b/neural_graph_composer/midi/midi_sequence.py
@@ -459,10 +459,10 @@ class MidiNoteSequence(MidiEvents, MidiQuantization):
                 if note.end_time > split_point:
                     notes_in_span.append(note)
 
-                # append split point to intervals if it's not on a boundary
-                # or if there are no notes in the current span
-                if not (skip_boundary and notes_in_span):
-                    intervals.append(split_point)
+            # append split point to intervals if it's not on a boundary
+            # or if there are no notes in the current span
+            if not (skip_boundary and notes_in_span):
+                intervals.append(split_point)
 
         return intervals
 
@@ -495,7 +495,7 @@ class MidiNoteSequence(MidiEvents, MidiQuantization):
         if len(intervals) <= 1:
             return []
 
-        return MidiNoteSequence.extract_notes(intervals)
+        return self.extract(intervals)
 
     def shift_times(self, offset: float) -> None:
         """In place shifts the start and end times by offset
-- 
2.43.0


From 699d3ef11e2ee9269d464e0bc90e8c80148b8ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:37:34 +0000
Subject: [PATCH 39/40] fix: the sum of sequences compares instrument numbers

The number of each note was compared with the instrument information of
the sequence, so the sum of sequences with notes was always refused.
---
 neural_graph_composer/midi/midi_sequence.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neural_graph_composer/midi/midi_sequence.py b/neural_graph_composer/midi/midi_sequence.py
index 553bdae..2487325 100644
--- a/neural_graph_composer/midi/midi_sequence.py
+++ b/neural_graph_composer/midi/midi_sequence.py
@@ -215,8 +215,8 @@ class MidiNoteSequence(MidiEvents, MidiQuantization):
             raise ValueError("Instrument must be the same for both MidiNoteSequences.")
 
         # all notes in both sequences have the same instrument
-        if any(note.instrument != self.instrument for note in self.notes) \
-                or any(note.instrument != other.instrument for note in other.notes):
+        if any(note.instrument != self.instrument.instrument_num for note in self.notes) \
+                or any(note.instrument != other.instrument.instrument_num for note in other.notes):
             raise ValueError("All notes in both sequences must have the same instrument")
 
         midi_seq = MidiNoteSequence(instrument=self.instrument)
-- 
2.43.0


From 42d6ec62ddb1ed0b0f6dd42549acb7a2d319ad35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:37:34 +0000
Subject: [PATCH 40/40] fix: appending no notes leaves the total time

append and extend of an empty list added nothing and then raised.
---
 neural_graph_composer/midi/midi_sequence.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neural_graph_composer/midi/midi_sequence.py b/neural_graph_composer/midi/midi_sequence.py
index 2487325..5d09a53 100644
--- a/neural_graph_composer/midi/midi_sequence.py
+++ b/neural_graph_composer/midi/midi_sequence.py
@@ -324,7 +324,7 @@ class MidiNoteSequence(MidiEvents, MidiQuantization):
             self.total_time = max(self.total_time, note.end_time)
         elif isinstance(note, list):
             self.notes.extend(note)
-            max_end_time = max(note, key=lambda n: n.end_time).end_time
+            max_end_time = max((n.end_time for n in note), default=self.total_time)
             self.total_time = max(self.total_time, max_end_time)
         else:
             raise TypeError("note must be a MidiNote object or a list of MidiNote objects")
@@ -339,7 +339,7 @@ class MidiNoteSequence(MidiEvents, MidiQuantization):
             self.total_time = max(self.total_time, notes.end_time)
         elif isinstance(notes, list):
             self.notes.extend(notes)
-            max_end_time = max(notes, key=lambda n: n.end_time).end_time
+            max_end_time = max((n.end_time for n in notes), default=self.total_time)
             self.total_time = max(self.total_time, max_end_time)
         else:
             raise TypeError("notes must be a MidiNote object or a list of MidiNote objects")
-- 
2.43.0

