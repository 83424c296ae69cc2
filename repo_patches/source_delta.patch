From fea1b51fcec96cfaf104acc391e2c31bb089736a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:30 +0000
Subject: [PATCH 01/69] fix: from_midi_networkx stacks node tensors instead of
 calling .dim() on a list

---
 neural_graph_composer/midi_graph_builder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_graph_composer/midi_graph_builder.py b/neural_graph_composer/midi_graph_builder.py
index 581c173..e71cb3a 100644
--- a/neural_graph_composer/midi_graph_builder.py
+++ b/neural_graph_composer/midi_graph_builder.py
@@ -283,7 +283,7 @@ class MidiGraphBuilder:
                     continue
                 try:
                     if isinstance(value, (tuple, list)) and all(isinstance(v, (Tensor, np.ndarray)) for v in value):
-                        data[key] = value
+                        data[key] = torch.stack([torch.as_tensor(v) for v in value], dim=0)
                     elif isinstance(value, np.ndarray):
                         data[key] = torch.from_numpy(value)
                     elif isinstance(value, (tuple, list)) and all(isinstance(v, Tensor) for v in value):
-- 
2.43.0


From fae1abbd189d465f3b46a82171ee0efc5e8324cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:58 +0000
Subject: [PATCH 02/69] fix: group chords by time, not by hash of time, so
 transitions follow play order

---
 neural_graph_composer/midi_graph_builder.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/neural_graph_composer/midi_graph_builder.py b/neural_graph_composer/midi_graph_builder.py
index e71cb3a..0167f6a 100644
--- a/neural_graph_composer/midi_graph_builder.py
+++ b/neural_graph_composer/midi_graph_builder.py
@@ -734,7 +734,8 @@ class MidiGraphBuilder:
 
             assert adjusted_time_hash >= 0, "n.start_time must be non-negative"
 
-            time_hash = hash(adjusted_time_hash)
+            # key by the time itself: build_sequence sorts these keys into play order
+            time_hash = adjusted_time_hash
             if time_hash not in data:
                 data[time_hash] = []
 
-- 
2.43.0


From dc385d2797b7cf88be7f29bbc607233c7f878e46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:26 +0000
Subject: [PATCH 03/69] fix: graphs() emits every built graph exactly once;
 sanity check reads integer labels

---
 neural_graph_composer/midi_graph_builder.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/neural_graph_composer/midi_graph_builder.py b/neural_graph_composer/midi_graph_builder.py
index 0167f6a..b21b2ba 100644
--- a/neural_graph_composer/midi_graph_builder.py
+++ b/neural_graph_composer/midi_graph_builder.py
@@ -1130,7 +1130,12 @@ class MidiGraphBuilder:
             for node_hash in self._hash_to_notes:
                 assert node_hash in self.hash_to_index
 
-        for g in self._pyg_data or []:
+        # a graph leaves the internal list before it is emitted, hence all graphs are
+        # emitted exactly once, even if a consumer stops after the first.
+        while self._pyg_data:
+            g = self._pyg_data.pop(0)
+            if self._sub_graphs:
+                self._sub_graphs.pop(0)
             node_hash = [self._hash_to_index[node_hash] for node_hash in g.node_hash]
             target_indices = [self._hash_to_index[hash_val] for hash_val in g.node_hash]
 
@@ -1139,7 +1144,7 @@ class MidiGraphBuilder:
 
             # reverse sanity-check
             if is_sanity_check:
-                original_labels = [self._index_to_hash[label.item()] for label in g.label]
+                original_labels = [self._index_to_hash[label] for label in g.label]
                 original_target_indices = [self._index_to_hash[index] for index in target_indices]
                 original_y_values = [self._index_to_hash[y.item()] for y in g.y]
                 original_notes = [self._hash_to_notes[h] for h in original_labels]
@@ -1161,7 +1166,3 @@ class MidiGraphBuilder:
             yield g
             del g
 
-            del self._pyg_data[:]
-            del self._sub_graphs[:]
-            self._pyg_data = []
-            self._sub_graphs = []
-- 
2.43.0


From 5139b1c23b0692edba0521acc1dff44472bee09b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:41 +0000
Subject: [PATCH 04/69] fix: MidiDataset no longer rewrites the caller's
 midi_files list

---
 neural_graph_composer/midi_dataset.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/neural_graph_composer/midi_dataset.py b/neural_graph_composer/midi_dataset.py
index 0b48cf9..e4441a9 100644
--- a/neural_graph_composer/midi_dataset.py
+++ b/neural_graph_composer/midi_dataset.py
@@ -205,7 +205,8 @@ class MidiDataset(InMemoryDataset):
         # list offline files.
         self.files = []
         if midi_files is not None:
-            self.files = midi_files
+            # download() rewrites this list, the caller's list must not change.
+            self.files = list(midi_files)
             self._offline = True
 
         self._remove_label = remove_label
-- 
2.43.0


From a883223e1d35c579d58bb0780e57c6c03940ecc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:41 +0000
Subject: [PATCH 05/69] fix: data_*.pt holds the merged graphs, not a second
 copy of the per instrument graphs

---
 neural_graph_composer/midi_dataset.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/neural_graph_composer/midi_dataset.py b/neural_graph_composer/midi_dataset.py
index e4441a9..9f0c8e5 100644
--- a/neural_graph_composer/midi_dataset.py
+++ b/neural_graph_composer/midi_dataset.py
@@ -579,6 +579,7 @@ class MidiDataset(InMemoryDataset):
         # self._graph_builder = None
 
         self._mask_entire_graph()
+        _data, _slices = self.collate(self.__data_list)
         _hash_to_notes = self.graph_builder.hash_to_notes
         _notes_to_hash = self.graph_builder.notes_to_hash
         _hash_to_index = self.graph_builder.hash_to_index
-- 
2.43.0


From 9b5fea665c5422a73514d2d652811e16a9fab496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:41 +0000
Subject: [PATCH 06/69] fix: MidiDataset skips files that have no graph instead
 of raising StopIteration or ValueError

---
 neural_graph_composer/midi_dataset.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/neural_graph_composer/midi_dataset.py b/neural_graph_composer/midi_dataset.py
index 9f0c8e5..abadf8c 100644
--- a/neural_graph_composer/midi_dataset.py
+++ b/neural_graph_composer/midi_dataset.py
@@ -477,6 +477,9 @@ class MidiDataset(InMemoryDataset):
                     is_include_velocity=self.include_velocity,
                     is_per_instrument=True
                 )
+                # a file with no harmonic content (only drums) has no graph
+                if not self._graph_builder.pyg_data:
+                    continue
 
                 # graph_builder output iterator, is_sanity_check if we want to do sanity
                 # check during this phase.
@@ -630,6 +633,9 @@ class MidiDataset(InMemoryDataset):
                     is_include_velocity=self.include_velocity,
                     is_per_instrument=False
                 )
+                # a file with no harmonic content (only drums) has no graph
+                if not self._graph_builder.pyg_data:
+                    continue
                 graphs = self._graph_builder.graphs()
                 if not graphs:
                     raise ValueError("No sub graphs found in graph builder.")
-- 
2.43.0


From 1a9d835882097cbed602ea67d352735177ed314c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:00 +0000
Subject: [PATCH 07/69] fix: MidiPitchBend accepts the full 14 bit range, -8192
 included

---
 neural_graph_composer/midi/midi_pitch_bend.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/neural_graph_composer/midi/midi_pitch_bend.py b/neural_graph_composer/midi/midi_pitch_bend.py
index f66428f..c16f8d9 100644
--- a/neural_graph_composer/midi/midi_pitch_bend.py
+++ b/neural_graph_composer/midi/midi_pitch_bend.py
@@ -23,14 +23,14 @@ class MidiPitchBend(MidiEvent):
         and bounded to particular instrument , track.
 
         MIDI Pitch Bend event. Is drum if event in drum channel
-        :param amount is amount of pitch bend. Based on MIDI it values between -8191 and 8191
+        :param amount is amount of pitch bend. Based on MIDI it values between -8192 and 8191
         :param program: midi program , default 0
         :param instrument:  midi instrument default 0
         :param midi_time: time of event.  time of event
         :param is_drum: default False
         """
-        if not (-8191 <= amount <= 8191):
-            raise ValueError("amount must be between -8191 and 8191")
+        if not (-8192 <= amount <= 8191):
+            raise ValueError("amount must be between -8192 and 8191")
         self.amount: int = amount
 
         if not (0 <= program <= 127):
@@ -58,7 +58,7 @@ class MidiPitchBend(MidiEvent):
         else:
             self.__midi_time: Optional[Union[float, np.ndarray]] = None
 
-        self.__amount: int = min(max(-8191, amount), 8191)
+        self.__amount: int = min(max(-8192, amount), 8191)
         self.__program: int = min(max(0, program), 255)
         self.__instrument: int = min(max(0, instrument), 255)
         self.__midi_time: Union[float, np.ndarray] = np.clip(midi_time, 0, np.inf) if midi_time is not None else 0.0
-- 
2.43.0


From 4c02803d81253f468f031cfdbebad87c04133975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:00 +0000
Subject: [PATCH 08/69] fix: reader keeps every control change and pitch bend,
 not only those after the last note

---
 neural_graph_composer/midi_reader.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/neural_graph_composer/midi_reader.py b/neural_graph_composer/midi_reader.py
index b471d36..c4d7fa7 100644
--- a/neural_graph_composer/midi_reader.py
+++ b/neural_graph_composer/midi_reader.py
@@ -190,8 +190,7 @@ class MidiReader(MidiBaseReader):
             seq_id = midi_seq.create_track(i, instrument.program, instrument.name, instrument.is_drum)
             # for each instrument iterate over all node and get time
             for n in instrument.pitch_bends:
-                if not midi_seq.total_time or n.time >= midi_seq.total_time:
-                    yield instrument, i, n, seq_id
+                yield instrument, i, n, seq_id
 
     @staticmethod
     def read_instrument_control_changes(
@@ -208,8 +207,7 @@ class MidiReader(MidiBaseReader):
         for i, instrument in enumerate(midi_data.instruments):
             seq_id = midi_seq.create_track(i, instrument.program, instrument.name, instrument.is_drum)
             for cv in instrument.control_changes:
-                if not midi_seq.total_time or cv.time >= midi_seq.total_time:
-                    yield instrument, i, cv, seq_id
+                yield instrument, i, cv, seq_id
 
     @staticmethod
     def mido_to_pretty_midi(mido_file: mido.MidiFile) -> CustomPrettyMIDI:
-- 
2.43.0


From cf4cb1e1bd54a654e188dfbff193da7fd09dc6e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:44 +0000
Subject: [PATCH 09/69] fix: signature lookups return the entry placed exactly
 at the queried time, and the default before the first

---
 neural_graph_composer/midi/midi_sequences.py | 23 ++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/neural_graph_composer/midi/midi_sequences.py b/neural_graph_composer/midi/midi_sequences.py
index a8e9029..ad7635f 100644
--- a/neural_graph_composer/midi/midi_sequences.py
+++ b/neural_graph_composer/midi/midi_sequences.py
@@ -33,7 +33,7 @@ import numpy as np
 from .abstract_midi_reader import MidiBaseReader
 from .midi_abstract_event import MidiEvent
 from .midi_instruments import MidiInstrumentInfo
-from .midi_key_signature import MidiKeySignature
+from .midi_key_signature import MidiKeySignature, KeySignatureType
 from .midi_note import MidiNote
 from .midi_sequence import MidiNoteSequence
 from .midi_spec import DEFAULT_PPQ, DEFAULT_QPM
@@ -581,7 +581,12 @@ class MidiNoteSequences:
         if self.time_signatures is None or len(self.time_signatures) == 0:
             return 4, 4
 
-        i = bisect_right(self.time_signatures, MidiTimeSignature(midi_time=start_time)) - 1
+        # a signature placed exactly at start_time is already in force
+        query = MidiTimeSignature(midi_time=start_time)
+        query.seq = float('inf')
+        i = bisect_right(self.time_signatures, query) - 1
+        if i < 0:
+            return 4, 4
         return self.time_signatures[i].numerator, self.time_signatures[i].denominator
 
     @cache
@@ -598,7 +603,12 @@ class MidiNoteSequences:
         if self.tempo_signature is None or len(self.tempo_signatures) == 0:
             return DEFAULT_PPQ, DEFAULT_QPM
 
-        i = bisect_right(self.tempo_signatures, MidiTempoSignature(midi_time=start_time)) - 1
+        # a signature placed exactly at start_time is already in force
+        query = MidiTempoSignature(midi_time=start_time)
+        query.seq = float('inf')
+        i = bisect_right(self.tempo_signatures, query) - 1
+        if i < 0:
+            return DEFAULT_QPM, DEFAULT_PPQ
         return int(self.tempo_signatures[i].qpm), self.tempo_signatures[i].resolution
 
     @cache
@@ -609,7 +619,12 @@ class MidiNoteSequences:
         """
         if self.key_signatures is None or len(self.key_signatures) == 0:
             return 0, 0
-        i = bisect_right(self.key_signatures, MidiKeySignature(midi_time=start_time)) - 1
+        # a signature placed exactly at start_time is already in force
+        query = MidiKeySignature(midi_time=start_time)
+        query.seq = float('inf')
+        i = bisect_right(self.key_signatures, query) - 1
+        if i < 0:
+            return KeySignatureType.MAJOR, 0
         return self.key_signatures[i].mode, self.key_signatures[i].midi_key
 
     @property
-- 
2.43.0


From 6adcc29f13e62399f2d8ba89369474077db7d56c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:44 +0000
Subject: [PATCH 10/69] fix: MidiNoteSequences.initial_tempo follows added
 tempo signatures (was cached forever)

---
 neural_graph_composer/midi/midi_sequences.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/neural_graph_composer/midi/midi_sequences.py b/neural_graph_composer/midi/midi_sequences.py
index ad7635f..99e8e98 100644
--- a/neural_graph_composer/midi/midi_sequences.py
+++ b/neural_graph_composer/midi/midi_sequences.py
@@ -306,7 +306,6 @@ class MidiNoteSequences:
                            self.__midi_tracks.values())) if self.__midi_tracks is not None else 0
         return 0
 
-    @cache
     def initial_tempo(self):
         """Return the initial tempo of the MIDI sequence, defined as the tempo
         signature with the earliest MIDI time. If there are no tempo signatures
-- 
2.43.0


From 6ed7f5511e9a55c5a883185117a2d9068a1901cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:43 +0000
Subject: [PATCH 11/69] fix: MidiNoteSequence.slice returns clipped copies, not
 the caller's own notes

---
 neural_graph_composer/midi/midi_sequence.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_graph_composer/midi/midi_sequence.py b/neural_graph_composer/midi/midi_sequence.py
index d4b067f..8d32c57 100644
--- a/neural_graph_composer/midi/midi_sequence.py
+++ b/neural_graph_composer/midi/midi_sequence.py
@@ -579,7 +579,7 @@ class MidiNoteSequence(MidiEvents, MidiQuantization):
 
             new_note = copy.deepcopy(note)
             new_note.end_time = min(note.end_time, end)
-            new_midi_seq.add_note(note)
+            new_midi_seq.add_note(new_note)
 
         # update total time based on
         new_midi_seq.total_time = min(self.total_time, end)
-- 
2.43.0


From 2d8cd7a4e662e55f30fe33868c21b0b27a457edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:43 +0000
Subject: [PATCH 12/69] fix: MidiNoteSequence.clone keeps drum events and the
 program

---
 neural_graph_composer/midi/midi_sequence.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/neural_graph_composer/midi/midi_sequence.py b/neural_graph_composer/midi/midi_sequence.py
index 8d32c57..34cdfd7 100644
--- a/neural_graph_composer/midi/midi_sequence.py
+++ b/neural_graph_composer/midi/midi_sequence.py
@@ -667,6 +667,8 @@ class MidiNoteSequence(MidiEvents, MidiQuantization):
         """Return a clone of this object """
         cloned = MidiNoteSequence()
         cloned._notes = copy.deepcopy(self._notes)
+        cloned._drum_events = copy.deepcopy(self._drum_events)
+        cloned.program = self.program
         cloned.control_changes = copy.deepcopy(self.control_changes)
         cloned.pitch_bends = copy.deepcopy(self.pitch_bends)
         cloned.total_time = self.total_time
-- 
2.43.0


From 247819d722e1d6055a8b12cc71b8b34fec5f180c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:43 +0000
Subject: [PATCH 13/69] fix: truncate_to_last_event follows added notes (was
 cached forever)

---
 neural_graph_composer/midi/midi_sequence.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/neural_graph_composer/midi/midi_sequence.py b/neural_graph_composer/midi/midi_sequence.py
index 34cdfd7..6e30f01 100644
--- a/neural_graph_composer/midi/midi_sequence.py
+++ b/neural_graph_composer/midi/midi_sequence.py
@@ -650,7 +650,6 @@ class MidiNoteSequence(MidiEvents, MidiQuantization):
             if seq_tempo.midi_time == 0:
                 return seq_tempo.midi_time
 
-    @cache
     def truncate_to_last_event(self, offset: float) -> Optional[float]:
         """Truncates the sequence so that all notes end before
         `total_time + offset`.
-- 
2.43.0


From 45f1a5e2afb5b8b368fd986159f530708ac8e8f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:43 +0000
Subject: [PATCH 14/69] fix: total_quantized_steps counts the steps of the
 quantized notes

---
 neural_graph_composer/midi/midi_sequence.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neural_graph_composer/midi/midi_sequence.py b/neural_graph_composer/midi/midi_sequence.py
index 6e30f01..59a2ce6 100644
--- a/neural_graph_composer/midi/midi_sequence.py
+++ b/neural_graph_composer/midi/midi_sequence.py
@@ -614,8 +614,8 @@ class MidiNoteSequence(MidiEvents, MidiQuantization):
             quantized_note = note.quantize(sps=sps, amount=amount)
             new_notes.append(quantized_note)
             # update total_quantized_steps
-            if note.quantized_end_step > self.__total_quantized_steps:
-                self.__total_quantized_steps = note.quantized_end_step
+            if quantized_note.quantized_end_step > self.__total_quantized_steps:
+                self.__total_quantized_steps = quantized_note.quantized_end_step
 
         new_control_changes = []
         #  quantize control changes and text annotations.
-- 
2.43.0


From dff99e309b5c179aae671f1b1dd403c9bb2e1865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:43 +0000
Subject: [PATCH 15/69] fix: MidiNoteSequence addition compares instrument
 numbers, it raised for any note

---
 neural_graph_composer/midi/midi_sequence.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neural_graph_composer/midi/midi_sequence.py b/neural_graph_composer/midi/midi_sequence.py
index 59a2ce6..f93f694 100644
--- a/neural_graph_composer/midi/midi_sequence.py
+++ b/neural_graph_composer/midi/midi_sequence.py
@@ -215,8 +215,8 @@ class MidiNoteSequence(MidiEvents, MidiQuantization):
             raise ValueError("Instrument must be the same for both MidiNoteSequences.")
 
         # all notes in both sequences have the same instrument
-        if any(note.instrument != self.instrument for note in self.notes) \
-                or any(note.instrument != other.instrument for note in other.notes):
+        if any(note.instrument != self.instrument.instrument_num for note in self.notes) \
+                or any(note.instrument != other.instrument.instrument_num for note in other.notes):
             raise ValueError("All notes in both sequences must have the same instrument")
 
         midi_seq = MidiNoteSequence(instrument=self.instrument)
-- 
2.43.0


From fa9bec1b44935f21f48cab5d98e1f59a3690b155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:43 +0000
Subject: [PATCH 16/69] fix: cut() total time covers the longest kept note, an
 empty cut does not raise

---
 neural_graph_composer/midi/midi_sequence.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_graph_composer/midi/midi_sequence.py b/neural_graph_composer/midi/midi_sequence.py
index f93f694..32f1ca2 100644
--- a/neural_graph_composer/midi/midi_sequence.py
+++ b/neural_graph_composer/midi/midi_sequence.py
@@ -783,7 +783,7 @@ class MidiNoteSequence(MidiEvents, MidiQuantization):
         """
         truncated_notes = self.notes[:cut_size]
         truncated_seq = MidiNoteSequence(instrument=self.instrument, notes=truncated_notes)
-        truncated_seq.total_time = min(self.total_time, truncated_notes[-1].end_time)
+        truncated_seq.total_time = min(self.total_time, max([n.end_time for n in truncated_notes], default=0.0))
         return truncated_seq
 
     def to_midi_file(self, file_path: str, callback=save_midi_callback) -> None:
-- 
2.43.0


From 49e1a2182d0b1070f090ccc3811546b14c7a08ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:43 +0000
Subject: [PATCH 17/69] fix: MidiNoteSequences.is_quantized calls is_quantized
 of each track

---
 neural_graph_composer/midi/midi_sequences.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_graph_composer/midi/midi_sequences.py b/neural_graph_composer/midi/midi_sequences.py
index 99e8e98..efd4559 100644
--- a/neural_graph_composer/midi/midi_sequences.py
+++ b/neural_graph_composer/midi/midi_sequences.py
@@ -485,7 +485,7 @@ class MidiNoteSequences:
         """Return true if all midi sequence for each instrument quantized
         :return:
         """
-        return all(n.is_quantized for n in self.__midi_seqs.values())
+        return all(n.is_quantized() for n in self.__midi_seqs.values())
 
     def get_all_sequence_events(self) -> List[MidiEvent]:
         """Return a list of all events in the sequence.
-- 
2.43.0


From 9fe3930d4f8de4eb9e29560c316b71d979edffa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:43 +0000
Subject: [PATCH 18/69] fix: pitch setter updates pitch_name

---
 neural_graph_composer/midi/midi_note.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/neural_graph_composer/midi/midi_note.py b/neural_graph_composer/midi/midi_note.py
index 24fd7ac..3c41a45 100644
--- a/neural_graph_composer/midi/midi_note.py
+++ b/neural_graph_composer/midi/midi_note.py
@@ -586,6 +586,7 @@ class MidiNote(MidiEvent):
     def pitch(self, value):
         assert 0 <= value <= 127, f"Pitch value {value} is outside valid MIDI range (0-127)"
         self._pitch = value
+        self.pitch_name = librosa.midi_to_note(value)
 
     @property
     def program(self):
-- 
2.43.0


From 4ada4d22d596176014d8c7dd9e147b7d36d4b489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:43 +0000
Subject: [PATCH 19/69] fix: MidiControlChange.quantize no longer raises for
 every event

---
 .../midi/midi_control_change.py               | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/neural_graph_composer/midi/midi_control_change.py b/neural_graph_composer/midi/midi_control_change.py
index d909fb6..b0dfa40 100644
--- a/neural_graph_composer/midi/midi_control_change.py
+++ b/neural_graph_composer/midi/midi_control_change.py
@@ -338,19 +338,12 @@ class MidiControlChange(MidiBaseControlChange):
         :param amount:  quantization amount.
         :return:
         """
-        self.quantized_start_step = self.quantize_to_nearest_step(
-            self.cc_time, sps, amount=amount)
-        self.quantized_end_step = self.quantize_to_nearest_step(
-            self.cc_time, sps, amount=amount)
-
-        self.quantized_start_step = max(self.quantized_start_step, 0)
-        assert (self.quantized_start_step >= 0)
-        assert (self.quantized_end_step >= 0)
-
-        if self.quantized_end_step == self.quantized_start_step:
-            self.quantized_end_step += 1
-
-        self.quantized_step = sps
+        # a control change has no duration, it takes a single step.
+        self._quantized_start_step = max(self.quantize_to_nearest_step(
+            self.cc_time, sps, amount=amount), 0)
+        self._quantized_end_step = self._quantized_start_step + 1
+        self._is_quantized = True
+        self._quantized_step = min(max(1, sps), 32)
 
     def quantize(self, sps: int = 4, amount: float = 0.5, min_step: Optional[int] = None):
         """Returns a new quantized control change with the specified
-- 
2.43.0


From dea38f851ac068e2a13ad2580746921b178f8311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:43 +0000
Subject: [PATCH 20/69] fix: MidiControlChange.make_copy keeps is_drum and
 quantized_step

---
 neural_graph_composer/midi/midi_control_change.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/neural_graph_composer/midi/midi_control_change.py b/neural_graph_composer/midi/midi_control_change.py
index b0dfa40..cf5f1e0 100644
--- a/neural_graph_composer/midi/midi_control_change.py
+++ b/neural_graph_composer/midi/midi_control_change.py
@@ -384,6 +384,8 @@ class MidiControlChange(MidiBaseControlChange):
             if cc_time is not None else self.cc_time,
             program=self.program,
             instrument=self.instrument,
+            is_drum=self.is_drum,
+            quantized_step=self.quantized_step,
             quantized_start_step=quantized_start_step
             if quantized_start_step is not None else self.quantized_start_step,
             quantized_end_step=quantized_end_step
-- 
2.43.0


From 8647124869c04ab30269bdf52737f0a9f8442705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:14 +0000
Subject: [PATCH 21/69] fix: SortedDict accepts initial items and stays in sync
 on pop, popitem and clear

---
 neural_graph_composer/midi/sorted_dict.py | 32 ++++++++++++++++++++++-
 1 file changed, 31 insertions(+), 1 deletion(-)

diff --git a/neural_graph_composer/midi/sorted_dict.py b/neural_graph_composer/midi/sorted_dict.py
index c6abd3d..3b735bb 100644
--- a/neural_graph_composer/midi/sorted_dict.py
+++ b/neural_graph_composer/midi/sorted_dict.py
@@ -31,8 +31,9 @@ class SortedDict(collections.OrderedDict):
     """
 
     def __init__(self, *args, **kwargs):
+        # OrderedDict inserts the initial items via __setitem__
+        self._keys = []
         super().__init__(*args, **kwargs)
-        self._keys = sorted(super().keys())
 
     def __setitem__(self, key, value):
         """Set the value of a key.
@@ -62,6 +63,35 @@ class SortedDict(collections.OrderedDict):
         super().__delitem__(key)
         self._keys.remove(key)
 
+    def pop(self, key, *default):
+        """Remove a key and return its value, or default if key is not present.
+        :param key: The key to remove
+        :param default: value to return if key is not in the dictionary.
+        :return: the value
+        """
+        if key not in self and default:
+            return default[0]
+        value = self[key]
+        del self[key]
+        return value
+
+    def popitem(self, last=True):
+        """Remove and return (key, value) pair of the largest key, or the smallest.
+        :param last: the largest key if True, otherwise the smallest.
+        :return: (key, value)
+        """
+        if not self._keys:
+            raise KeyError('dictionary is empty')
+        key = self._keys[-1 if last else 0]
+        return key, self.pop(key)
+
+    def clear(self):
+        """Remove all keys.
+        :return:
+        """
+        super().clear()
+        self._keys.clear()
+
     def keys(self):
         """Return an iterator over the keys sorted in ascending order.
         :return: A sorted iterator over the keys
-- 
2.43.0


From 256abc68357fb6c0a7efb44b8fd74d8c81c6ca81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:14 +0000
Subject: [PATCH 22/69] fix: SortedIntervalDict deletion used an attribute that
 does not exist

---
 neural_graph_composer/midi/sorted_interval_dict.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/neural_graph_composer/midi/sorted_interval_dict.py b/neural_graph_composer/midi/sorted_interval_dict.py
index df88e6c..5573228 100644
--- a/neural_graph_composer/midi/sorted_interval_dict.py
+++ b/neural_graph_composer/midi/sorted_interval_dict.py
@@ -42,11 +42,7 @@ class SortedIntervalDict(collections.abc.MutableMapping):
         :return:
         """
         if isinstance(key, Interval):
-            for i, (k, v) in enumerate(self._items):
-                if k == key:
-                    del self._items[i]
-                    return
-            raise KeyError(key)
+            del self._dict[key]
         elif isinstance(key, slice):
             for k in list(self.keys())[key]:
                 del self[k]
-- 
2.43.0


From 1a53f36486454bd65ae677ef76c883a8f89cc37a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:43 +0000
Subject: [PATCH 23/69] fix: MidiReader.read accepts bytes, the parent class
 consumed the stream first

---
 neural_graph_composer/custom_pretty_midi.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/neural_graph_composer/custom_pretty_midi.py b/neural_graph_composer/custom_pretty_midi.py
index 086da07..5d0d09f 100644
--- a/neural_graph_composer/custom_pretty_midi.py
+++ b/neural_graph_composer/custom_pretty_midi.py
@@ -45,7 +45,8 @@ class CustomPrettyMIDI(pretty_midi.PrettyMIDI):
         """
         # Mustafa TODO push to github to main PrettyMIDI
         self.drum_channel = drum_channel
-        super().__init__(midi_file, resolution, initial_tempo)
+        # the parent must not consume midi_file, from_file() reads it
+        super().__init__(None, resolution, initial_tempo)
         self.is_debug = is_debug
 
         if midi_file is not None:
-- 
2.43.0


From 49262b53bffd4b71ec90b668c9a6e5eb4c38e78e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:43 +0000
Subject: [PATCH 24/69] fix: tempo changes are written at their own time, also
 after the first change

---
 neural_graph_composer/midi_reader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/neural_graph_composer/midi_reader.py b/neural_graph_composer/midi_reader.py
index c4d7fa7..030122e 100644
--- a/neural_graph_composer/midi_reader.py
+++ b/neural_graph_composer/midi_reader.py
@@ -361,7 +361,8 @@ class MidiReader(MidiBaseReader):
             print(f"Setting scale {type(seq_tempo.midi_time)}")
             tick = pm.time_to_tick(seq_tempo.midi_time)
             pm.update_scale((tick, tick_scale))
-            pm.update_tick_time([0])
+            # each tempo change is located on the map of all changes before it
+            pm._update_tick_to_time(tick)
 
         inst_infos = {}
         for i, inst_info in enumerate(sequence.instruments):
-- 
2.43.0


From 4238458ae45e39b4e38ce66b931945e7084cd42e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:43 +0000
Subject: [PATCH 25/69] fix: sequences without two close onsets can be written,
 a debug message raised

---
 neural_graph_composer/midi_reader.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/neural_graph_composer/midi_reader.py b/neural_graph_composer/midi_reader.py
index 030122e..a5ebb24 100644
--- a/neural_graph_composer/midi_reader.py
+++ b/neural_graph_composer/midi_reader.py
@@ -401,7 +401,6 @@ class MidiReader(MidiBaseReader):
             pm.adjust_times(original_times, new_times)
 
         logging.debug(f"pretty midi time: {pm.get_end_time()} "
-                      f"estimate_tempo: {pm.estimate_tempo()} "
                       f"resolution: {pm.resolution}")
         return pm
 
-- 
2.43.0


From f8e7f7c7e4d57804d41598f5f7dbb72dc686200a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:43 +0000
Subject: [PATCH 26/69] fix: write keeps the program and the name of each
 instrument

---
 neural_graph_composer/midi_reader.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/neural_graph_composer/midi_reader.py b/neural_graph_composer/midi_reader.py
index a5ebb24..d613a50 100644
--- a/neural_graph_composer/midi_reader.py
+++ b/neural_graph_composer/midi_reader.py
@@ -385,8 +385,11 @@ class MidiReader(MidiBaseReader):
                 if max_event_time and cc.cc_time < max_event_time]
 
             # create instrument
+            inst_info = sequence[k].instrument
             instrument = pretty_midi.Instrument(
-                sequence[k].program, sequence[k].instrument.is_drum
+                inst_info.instrument_num, inst_info.is_drum,
+                # MIDI text is latin1
+                (inst_info.name or '').encode('latin1', 'replace').decode('latin1')
             )
             instrument.notes = notes
             instrument.pitch_bends = pitch_bends
-- 
2.43.0


From 6284cae8df3129e87462a16256ba4f698bdefe48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:43 +0000
Subject: [PATCH 27/69] fix: RandomNodeDrop renumbers edges and node hashes of
 the kept nodes

---
 neural_graph_composer/transforms.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/neural_graph_composer/transforms.py b/neural_graph_composer/transforms.py
index 09d1feb..c201613 100644
--- a/neural_graph_composer/transforms.py
+++ b/neural_graph_composer/transforms.py
@@ -104,6 +104,8 @@ class RandomNodeDrop(T.BaseTransform):
         data.val_mask = data.val_mask[remain_idx]
         data.test_mask = data.test_mask[remain_idx]
         data.num_nodes = data.x.shape[0]
+        if isinstance(data.to_dict().get('node_hash'), list):
+            data.node_hash = [data.node_hash[i] for i in remain_idx.tolist()]
 
         # print(f"called return data {data}")
         return data
@@ -129,10 +131,14 @@ class RandomNodeDrop(T.BaseTransform):
         mask_row = mask[row]
         mask_col = mask[col]
         mask_all = mask_row & mask_col
+        # kept nodes are renumbered 0..n-1 in the order of keep_idx
+        new_idx = torch.full((num_nodes,), -1, dtype=torch.long)
+        new_idx[keep_idx] = torch.arange(len(keep_idx))
+        edge_index = new_idx[edge_index[:, mask_all]]
         if edge_attr is not None:
-            return edge_index[:, mask_all], edge_attr[mask_all]
+            return edge_index, edge_attr[mask_all]
         else:
-            return edge_index[:, mask_all]
+            return edge_index, None
 
     def __repr__(self):
         """
-- 
2.43.0


From 39a2e4c3ec3b3d2a9e2679fccd34fb0669d0a482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:43 +0000
Subject: [PATCH 28/69] fix: RandomEdgeDrop works on graphs without link
 prediction labels

---
 neural_graph_composer/transforms.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/neural_graph_composer/transforms.py b/neural_graph_composer/transforms.py
index c201613..89b344e 100644
--- a/neural_graph_composer/transforms.py
+++ b/neural_graph_composer/transforms.py
@@ -169,7 +169,9 @@ class RandomEdgeDrop(T.BaseTransform):
 
         pos_edge_mask = None
         neg_edge_mask = None
-        if data.pos_edge_label is not None and data.neg_edge_label is not None:
+        pos_edge_label = getattr(data, 'pos_edge_label', None)
+        neg_edge_label = getattr(data, 'neg_edge_label', None)
+        if pos_edge_label is not None and neg_edge_label is not None:
             pos_edge_mask = data.pos_edge_label_index[:, mask]
             neg_edge_mask = data.neg_edge_label_index[:, mask]
 
@@ -178,8 +180,8 @@ class RandomEdgeDrop(T.BaseTransform):
             edge_index=edge_index,
             edge_attr=edge_attr,
             y=data.y,
-            pos_edge_label=data.pos_edge_label,
-            neg_edge_label=data.neg_edge_label,
+            pos_edge_label=pos_edge_label,
+            neg_edge_label=neg_edge_label,
             train_mask=data.train_mask,
             val_mask=data.val_mask,
             test_mask=data.test_mask,
-- 
2.43.0


From 6b430f4885a09bfa2f3e8c0f16d0067f076852dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:49 +0000
Subject: [PATCH 29/69] fix: write() without to_end raised TypeError for every
 score

---
 neural_graph_composer/midi_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_graph_composer/midi_reader.py b/neural_graph_composer/midi_reader.py
index d613a50..45437a8 100644
--- a/neural_graph_composer/midi_reader.py
+++ b/neural_graph_composer/midi_reader.py
@@ -327,7 +327,7 @@ class MidiReader(MidiBaseReader):
         :rtype CustomPrettyMIDI
         """
         ticks_per_quarter = sequence.resolution or DEFAULT_PPQ
-        max_event_time = sequence.truncate(to_end)
+        max_event_time = sequence.truncate(0.0 if to_end is None else to_end)
         initial_seq_tempo = sequence.initial_tempo()
 
         logging.debug(f"{initial_seq_tempo} {ticks_per_quarter} {max_event_time}")
-- 
2.43.0


From 9fe4a612d0e25917dfa6b79177af38be85744fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:26 +0000
Subject: [PATCH 30/69] fix: adjust_times could look one tick past its time
 table

---
 neural_graph_composer/custom_pretty_midi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_graph_composer/custom_pretty_midi.py b/neural_graph_composer/custom_pretty_midi.py
index 5d0d09f..4a15b0e 100644
--- a/neural_graph_composer/custom_pretty_midi.py
+++ b/neural_graph_composer/custom_pretty_midi.py
@@ -1201,7 +1201,7 @@ class CustomPrettyMIDI(pretty_midi.PrettyMIDI):
         # scales below the rounding errors accumulate and result in a bad,
         # wandering mapping.  This may not be the optimal way of doing this,
         # but it does the right thing.
-        self._update_tick_to_time(self.time_to_tick(original_times[-1]))
+        self._update_tick_to_time(self.time_to_tick(original_times[-1]) + 1)
         original_times = [self.tick_times[self.time_to_tick(time)]
                           for time in original_times]
         # Use spacing between timing to change tempo changes
-- 
2.43.0


From c80966357f4eb7aaed3ecedb83d373b86cf0f852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:50 +0000
Subject: [PATCH 31/69] fix: pitch_to_freq took C instead of A as the reference
 pitch

---
 neural_graph_composer/midi/midi_note.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/neural_graph_composer/midi/midi_note.py b/neural_graph_composer/midi/midi_note.py
index 3c41a45..6ece9ef 100644
--- a/neural_graph_composer/midi/midi_note.py
+++ b/neural_graph_composer/midi/midi_note.py
@@ -753,7 +753,8 @@ class MidiNote(MidiEvent):
         >>> MusicNote.pitch_to_freq('F#', 5)
         739.988845423269
         """
-        semitones_above_a4 = (octave - 4) * SEMITONES_PER_OCTAVE + PITCH_FREQUENCIES[pitch]
+        semitones_above_a4 = (octave - 4) * SEMITONES_PER_OCTAVE \
+            + PITCH_FREQUENCIES[pitch] - PITCH_FREQUENCIES['A']
         return MidiNote.note_to_freq(REFERENCE_NOTE + semitones_above_a4)
 
     @staticmethod
-- 
2.43.0


From 1cc999643f181eae9f32591bd2352c59f46d6e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:50 +0000
Subject: [PATCH 32/69] fix: MidiNote.from_json accepts dictionaries without
 the optional fields

---
 neural_graph_composer/midi/midi_note.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/neural_graph_composer/midi/midi_note.py b/neural_graph_composer/midi/midi_note.py
index 6ece9ef..aff0703 100644
--- a/neural_graph_composer/midi/midi_note.py
+++ b/neural_graph_composer/midi/midi_note.py
@@ -797,11 +797,11 @@ class MidiNote(MidiEvent):
             program=json_dict["program"],
             instrument=json_dict["instrument"],
             velocity=json_dict["velocity"],
-            quantized_start_step=json_dict.get("quantized_start_step"),
-            quantized_end_step=json_dict.get("quantized_end_step"),
-            voice=json_dict.get("voice"),
-            numerator=json_dict.get("numerator"),
-            denominator=json_dict.get("denominator"),
+            quantized_start_step=json_dict.get("quantized_start_step", -1),
+            quantized_end_step=json_dict.get("quantized_end_step", -1),
+            voice=json_dict.get("voice", 0),
+            numerator=json_dict.get("numerator", 4),
+            denominator=json_dict.get("denominator", 4),
             is_drum=json_dict.get("is_drum", False)
         )
 
-- 
2.43.0


From 4dd7c2f56ef93025caa6833b3cb5ae12159d98a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:43 +0000
Subject: [PATCH 33/69] fix: slice_tempo_signature honours an upper bound of
 0.0

---
 neural_graph_composer/midi/midi_sequences.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_graph_composer/midi/midi_sequences.py b/neural_graph_composer/midi/midi_sequences.py
index efd4559..4dc9ce7 100644
--- a/neural_graph_composer/midi/midi_sequences.py
+++ b/neural_graph_composer/midi/midi_sequences.py
@@ -477,7 +477,7 @@ class MidiNoteSequences:
             _tempo_signature = self.tempo_signature
 
         for sig in self.tempo_signatures:
-            if sig == self.initial_tempo or upper_bound and sig.midi_time > upper_bound:
+            if sig == self.initial_tempo or upper_bound is not None and sig.midi_time > upper_bound:
                 continue
             yield sig
 
-- 
2.43.0


From a47f770670bf190fc276c9a10478c3fbfad44c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:32 +0000
Subject: [PATCH 34/69] fix: indexing a missing track no longer replaces
 another track

---
 neural_graph_composer/midi/midi_sequences.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_graph_composer/midi/midi_sequences.py b/neural_graph_composer/midi/midi_sequences.py
index 4dc9ce7..cf83da2 100644
--- a/neural_graph_composer/midi/midi_sequences.py
+++ b/neural_graph_composer/midi/midi_sequences.py
@@ -211,7 +211,7 @@ class MidiNoteSequences:
             self._instrument_to_idx = {}
 
         if track_idx not in self._track_to_idx:
-            internal_idx = len(self.__midi_seqs)
+            internal_idx = track_idx
             instrument = MidiInstrumentInfo(
                 instrument=track_idx,
                 name=f"Instrument {0}",
-- 
2.43.0


From c5e302b196862382b9343b53c04b51957a0d02cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:39 +0000
Subject: [PATCH 35/69] fix: a track assigned by index or set_sequence is found
 again

---
 neural_graph_composer/midi/midi_sequences.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/neural_graph_composer/midi/midi_sequences.py b/neural_graph_composer/midi/midi_sequences.py
index cf83da2..7df6a5d 100644
--- a/neural_graph_composer/midi/midi_sequences.py
+++ b/neural_graph_composer/midi/midi_sequences.py
@@ -250,6 +250,7 @@ class MidiNoteSequences:
             self.__midi_seqs[track_idx] = MidiNoteSequence.from_notes(notes=value)
         else:
             raise TypeError("value must be a MidiNoteSequence or a list of MidiNotes")
+        self._track_to_idx[track_idx] = track_idx
 
     def __len__(self) -> int:
         """Return len of midi_seq.
@@ -787,8 +788,9 @@ class MidiNoteSequences:
     def set_sequence(self, track_idx: int, sequence: Union[List[MidiNote], MidiNoteSequence]) -> None:
         """Set the MidiNoteSequence for the given track index."""
         if not isinstance(sequence, MidiNoteSequence):
-            sequence = MidiNoteSequence(resolution=self.resolution, is_debug=self.is_debug)
-            sequence.midi_notes = sequence.midi_notes + sequence
+            sequence = MidiNoteSequence(
+                notes=sequence, resolution=self.resolution, is_debug=self.is_debug)
 
         self.__midi_seqs[track_idx] = sequence
+        self._track_to_idx[track_idx] = track_idx
 
-- 
2.43.0


From dea32f5f03aca18ce120decb90d3cc6f3c726605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:54 +0000
Subject: [PATCH 36/69] fix: from_midi_networkx groups all node attributes when
 asked for 'all'

---
 neural_graph_composer/midi_graph_builder.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/neural_graph_composer/midi_graph_builder.py b/neural_graph_composer/midi_graph_builder.py
index b21b2ba..d150827 100644
--- a/neural_graph_composer/midi_graph_builder.py
+++ b/neural_graph_composer/midi_graph_builder.py
@@ -276,6 +276,9 @@ class MidiGraphBuilder:
                 key = f'edge_{key}' if key in node_attrs else key
                 data[str(key)].append(value)
 
+        if group_node_attrs == 'all':
+            group_node_attrs = list(node_attrs)
+
         # node attr
         if group_node_attrs is not None:
             for key, value in data.items():
-- 
2.43.0


From f53e25491e7eb7d13ca1634f8e9e97503ce2ffbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:09 +0000
Subject: [PATCH 37/69] fix: a copied or pickled SortedDict no longer shares or
 doubles its keys

---
 neural_graph_composer/midi/sorted_dict.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/neural_graph_composer/midi/sorted_dict.py b/neural_graph_composer/midi/sorted_dict.py
index 3b735bb..2fa2dc0 100644
--- a/neural_graph_composer/midi/sorted_dict.py
+++ b/neural_graph_composer/midi/sorted_dict.py
@@ -116,6 +116,10 @@ class SortedDict(collections.OrderedDict):
         """
         return reversed(self._keys)
 
+    def __reduce__(self):
+        """Copies and pickles are rebuilt from the items, the list of keys is not shared."""
+        return type(self), (self.items(),)
+
     #
     # def __getitem__(self, item):
     #     """Get the value for a key or an interval of keys in the dictionary.
-- 
2.43.0


From d1841f8ba999a5a01138022a2fa9a475c739eb34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:09 +0000
Subject: [PATCH 38/69] fix: SortedDict equality does not depend on the order
 of insertion

---
 neural_graph_composer/midi/sorted_dict.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/neural_graph_composer/midi/sorted_dict.py b/neural_graph_composer/midi/sorted_dict.py
index 2fa2dc0..dead466 100644
--- a/neural_graph_composer/midi/sorted_dict.py
+++ b/neural_graph_composer/midi/sorted_dict.py
@@ -116,6 +116,13 @@ class SortedDict(collections.OrderedDict):
         """
         return reversed(self._keys)
 
+    def __eq__(self, other):
+        """The keys are always sorted, so the order of insertion does not matter."""
+        return dict.__eq__(self, other)
+
+    def __ne__(self, other):
+        return dict.__ne__(self, other)
+
     def __reduce__(self):
         """Copies and pickles are rebuilt from the items, the list of keys is not shared."""
         return type(self), (self.items(),)
-- 
2.43.0


From 61de564f25c88a36956015ca8d04c9694090bf48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:09 +0000
Subject: [PATCH 39/69] fix: Interval can be copied and pickled

---
 neural_graph_composer/midi/Interval.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/neural_graph_composer/midi/Interval.py b/neural_graph_composer/midi/Interval.py
index ba3c300..cc5eeee 100644
--- a/neural_graph_composer/midi/Interval.py
+++ b/neural_graph_composer/midi/Interval.py
@@ -24,6 +24,10 @@ class Interval:
     #     self.start = start
     #     self.end = end
 
+    def __reduce__(self):
+        # slots of a frozen class can not be restored by the default protocol
+        return Interval, (self.start, self.end)
+
     def __repr__(self):
         return f"[{self.start}, {self.end}]"
 
-- 
2.43.0


From cdd69a9e6adea4491ed0c0ce99ca91ccf17a98bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:00 +0000
Subject: [PATCH 40/69] fix: control events of a channel that changes its
 program are kept once

The events before the first note of a channel were shared by all
instruments the channel plays, so each appeared on every one of them.
---
 neural_graph_composer/custom_pretty_midi.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/neural_graph_composer/custom_pretty_midi.py b/neural_graph_composer/custom_pretty_midi.py
index 4a15b0e..c8181e2 100644
--- a/neural_graph_composer/custom_pretty_midi.py
+++ b/neural_graph_composer/custom_pretty_midi.py
@@ -384,8 +384,9 @@ class CustomPrettyMIDI(pretty_midi.PrettyMIDI):
                 _instrument = Instrument(_program, is_drum, track_name_map[track_idx])
                 # If any events appeared for this instrument before now,
                 # include them in the new instrument
+                # (and in no other)
                 if (_channel, _track) in stragglers:
-                    straggler = stragglers[(_channel, _track)]
+                    straggler = stragglers.pop((_channel, _track))
                     _instrument.control_changes = straggler.control_changes
                     _instrument.pitch_bends = straggler.pitch_bends
                 # Add the instrument to the instrument map
@@ -461,6 +462,14 @@ class CustomPrettyMIDI(pretty_midi.PrettyMIDI):
                 # if self.is_debug:
                 #     print("Unmatched even", event)
 
+        # Events after a program change that no note followed stay with
+        # the instrument the channel played last
+        last_instrument = {(c, t): i for (_, c, t), i in instrument_map.items()}
+        for key, straggler in stragglers.items():
+            if key in last_instrument:
+                last_instrument[key].control_changes.extend(straggler.control_changes)
+                last_instrument[key].pitch_bends.extend(straggler.pitch_bends)
+
         # Initialize list of instruments from instrument_map
         self.instruments = [i for i in instrument_map.values()]
 
-- 
2.43.0


From 6603b4877c5372cf0b8b3b3f6316805bb094e16b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:15 +0000
Subject: [PATCH 41/69] fix: two equal notes struck at once are both kept

Only the first of several notes of one key that start at the same tick was
closed by the next note.
---
 neural_graph_composer/custom_pretty_midi.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/neural_graph_composer/custom_pretty_midi.py b/neural_graph_composer/custom_pretty_midi.py
index c8181e2..058b6d0 100644
--- a/neural_graph_composer/custom_pretty_midi.py
+++ b/neural_graph_composer/custom_pretty_midi.py
@@ -272,16 +272,17 @@ class CustomPrettyMIDI(pretty_midi.PrettyMIDI):
         notes_to_remove = []
 
         for k, v in last_note_on.items():
-            start_tick, velocity = v[0]
+            start_tick, _ = v[0]
             _channel, _note = k
             if end_tick > start_tick or end_of_seq:
                 # start we know, end is current note on event
                 start_time = self.tick_times[start_tick]
                 end_time = self.tick_times[end_tick]
-                note = Note(velocity, _note, start_time, end_time)
                 program = current_instrument[_channel]
                 ints = __get_instrument(program, _channel, track_idx, 1)
-                ints.notes.append(note)
+                # all notes of a key that are open start at the same tick
+                for _, velocity in v:
+                    ints.notes.append(Note(velocity, _note, start_time, end_time))
                 # we close a note we remove it.
                 notes_to_remove.append(k)
 
-- 
2.43.0


From f45a4ad7d793792c190d0426328d4bf26887471f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:10 +0000
Subject: [PATCH 42/69] fix: a write that was not allowed to overwrite refuses
 an existing file

do_overwrite given as None or 0 counted as permission.
---
 neural_graph_composer/midi_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_graph_composer/midi_reader.py b/neural_graph_composer/midi_reader.py
index 45437a8..6e074fb 100644
--- a/neural_graph_composer/midi_reader.py
+++ b/neural_graph_composer/midi_reader.py
@@ -431,7 +431,7 @@ class MidiReader(MidiBaseReader):
         if not isinstance(filename, str) or not filename:
             raise ValueError("The provided filename is invalid. It should be a non-empty string.")
 
-        if do_overwrite is False and os.path.exists(filename):
+        if not do_overwrite and os.path.exists(filename):
             raise FileExistsError(
                 f"A file with the name '{filename}' "
                 f"already exists. Aborting to avoid overwriting.")
-- 
2.43.0


From 681e4f0011e21505f32a2742215cbb6a5d68f659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:20 +0000
Subject: [PATCH 43/69] fix: dataset files that share a name are all used

Relative files of the same name from different folders were copied over
one another, so the last one was read several times.
---
 neural_graph_composer/midi_dataset.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/neural_graph_composer/midi_dataset.py b/neural_graph_composer/midi_dataset.py
index abadf8c..52590e3 100644
--- a/neural_graph_composer/midi_dataset.py
+++ b/neural_graph_composer/midi_dataset.py
@@ -431,8 +431,12 @@ class MidiDataset(InMemoryDataset):
                 if not p.exists():
                     raise RuntimeError(f"File not found: {raw_file}")
                 if p.is_file():
-                    dst_path = os.path.join(self.raw_dir, p.name)
-                    self.files[i] = p.name
+                    name = p.name
+                    # files from different folders may share a name
+                    while name in self.files[:i]:
+                        name = f"{i}_{name}"
+                    dst_path = os.path.join(self.raw_dir, name)
+                    self.files[i] = name
                     src_path = os.path.abspath(str(p))
                     logging.debug(f"Downloading {src_path} to {dst_path}")
                     try:
-- 
2.43.0


From f295d40a7410312477d259b29d87cad752e8a735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:26 +0000
Subject: [PATCH 44/69] fix: minor intervals given by name were taken for major
 ones

---
 neural_graph_composer/midi/midi_scales.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_graph_composer/midi/midi_scales.py b/neural_graph_composer/midi/midi_scales.py
index 8f11539..e06b308 100644
--- a/neural_graph_composer/midi/midi_scales.py
+++ b/neural_graph_composer/midi/midi_scales.py
@@ -615,7 +615,7 @@ class MusicTheory:
         for i, interval in enumerate(interval_chord):
             # if caller pass string we convert to Enum
             if isinstance(interval, str):
-                interval = Interval[interval.upper()]
+                interval = Interval[interval if interval in Interval.__members__ else interval.upper()]
             interval_pitch = MusicTheory.intervals[interval]
             chord_pitch = (root + interval_pitch) % 12
             _chord_pitches.append(chord_pitch)
-- 
2.43.0


From 158eda9be030b5d65b7b04bd4b9ca3ac4fadedb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:26 +0000
Subject: [PATCH 45/69] fix: notes_from_scale refused the pitch numbers and
 lower case names it documents

---
 neural_graph_composer/midi/midi_scales.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/neural_graph_composer/midi/midi_scales.py b/neural_graph_composer/midi/midi_scales.py
index e06b308..2182f81 100644
--- a/neural_graph_composer/midi/midi_scales.py
+++ b/neural_graph_composer/midi/midi_scales.py
@@ -702,10 +702,11 @@ class MusicTheory:
         if isinstance(root, str):
             if root.upper() not in MusicTheory.pitch_names.values():
                 raise ValueError(f"Invalid note name: {root}")
+            root = MusicTheory.pitch_to_note_name[root.upper()]
         elif not (0 <= root <= 11):
             raise ValueError("root pitch parameter should be within the range [0, 11]")
 
-        root_idx = MusicTheory.note_names.index(root)
+        root_idx = root
         intervals = MusicTheory.intervals_from_scale(scale)
         sorted_intervals = sorted(intervals, key=lambda x: MusicTheory.intervals[x])
 
-- 
2.43.0


From dfc9d01de2f999e288e25ab3cb3daaadce581d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:26 +0000
Subject: [PATCH 46/69] fix: triads of dorian, phrygian, mixolydian and locrian
 scales were named after other chords

---
 neural_graph_composer/midi/midi_scales.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/neural_graph_composer/midi/midi_scales.py b/neural_graph_composer/midi/midi_scales.py
index 2182f81..b4f7444 100644
--- a/neural_graph_composer/midi/midi_scales.py
+++ b/neural_graph_composer/midi/midi_scales.py
@@ -349,12 +349,12 @@ class MusicTheory:
     chords = {
         ScaleType.MAJOR: ["M", "m", "m", "M", "M", "m", "dim"],
         ScaleType.MINOR: ["m", "dim", "M", "m", "m", "M", "M"],
-        ScaleType.DORIAN: ["M", "m", "m", "M", "M", "dim", "m"],
-        ScaleType.PHRYGIAN: ["m", "M", "dim", "m", "m", "M", "M"],
+        ScaleType.DORIAN: ["m", "m", "M", "M", "m", "dim", "M"],
+        ScaleType.PHRYGIAN: ["m", "M", "M", "m", "dim", "M", "m"],
         ScaleType.LYDIAN: ["M", "M", "m", "dim", "M", "m", "m"],
-        ScaleType.MIXOLYDIAN: ["M", "m", "dim", "m", "M", "m", "M"],
+        ScaleType.MIXOLYDIAN: ["M", "m", "dim", "M", "m", "m", "M"],
         ScaleType.AEOLIAN: ["m", "dim", "M", "m", "m", "M", "M"],
-        ScaleType.LOCRIAN: ["dim", "M", "m", "m", "dim", "M", "m"],
+        ScaleType.LOCRIAN: ["dim", "M", "m", "m", "M", "M", "m"],
         ScaleType.HARMONIC_MINOR: ["m", "dim", "aug", "m", "M", "M", "dim"],
         ScaleType.MELODIC_MINOR: ["m", "m", "aug", "M", "M", "dim", "dim"]
     }
-- 
2.43.0


From 71427231c71c2df2c4287fd1f991acdc4b7aa07e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:26 +0000
Subject: [PATCH 47/69] fix: the augmented seventh had the intervals of the
 major seventh

---
 neural_graph_composer/midi/midi_scales.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neural_graph_composer/midi/midi_scales.py b/neural_graph_composer/midi/midi_scales.py
index b4f7444..a6f2cbb 100644
--- a/neural_graph_composer/midi/midi_scales.py
+++ b/neural_graph_composer/midi/midi_scales.py
@@ -90,7 +90,7 @@ class ChordIntervals(Enum):
     MinorSeven = [3, 4, 3]
     HalfDiminishedSeven = [3, 3, 4]
     DiminishedSeven = [3, 3, 3]
-    AugmentedSeven = [4, 3, 4]
+    AugmentedSeven = [4, 4, 2]
     Sixth = [4, 3, 2]
     MinorSixth = [3, 4, 2]
     Ninth = [4, 3, 3, 4]
@@ -451,7 +451,7 @@ class MusicTheory:
         "m7": [3, 4, 3],
         "m7b5": [3, 3, 4],
         "dim7": [3, 3, 3],
-        "aug7": [4, 3, 4],
+        "aug7": [4, 4, 2],
         "6": [4, 3, 2],
         "m6": [3, 4, 2],
         "9": [4, 3, 3, 4],
-- 
2.43.0


From 53072319948c56a22727b6741ee99d9ddf87d9a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:26 +0000
Subject: [PATCH 48/69] fix: the diminished seventh had ten semitones

---
 neural_graph_composer/midi/midi_scales.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_graph_composer/midi/midi_scales.py b/neural_graph_composer/midi/midi_scales.py
index a6f2cbb..916f42e 100644
--- a/neural_graph_composer/midi/midi_scales.py
+++ b/neural_graph_composer/midi/midi_scales.py
@@ -194,7 +194,7 @@ class Interval(Enum):
     A4 = 6
     # d5 diminished fifth
     d5 = 6
-    d7 = 10
+    d7 = 9
 
     def bases(self):
         """the base intervals that make up the compound interval.
-- 
2.43.0


From 7d471124ca66034dcc198e11d9c923fc28addca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:34 +0000
Subject: [PATCH 49/69] fix: get_chord_intervals handed out its own table

---
 neural_graph_composer/midi/midi_scales.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_graph_composer/midi/midi_scales.py b/neural_graph_composer/midi/midi_scales.py
index 916f42e..901b06e 100644
--- a/neural_graph_composer/midi/midi_scales.py
+++ b/neural_graph_composer/midi/midi_scales.py
@@ -635,7 +635,7 @@ class MusicTheory:
         :param chord_type: A string representing the chord name, e.g., "m7b5"
         :return: A list of interval values for the specified chord [3, 3, 4]
         """
-        return MusicTheory.chord_intervals[chord_type]
+        return list(MusicTheory.chord_intervals[chord_type])
 
     @staticmethod
     def get_chord_name(interval_list: List[int]) -> Optional[str]:
-- 
2.43.0


From 8ac695d17e32ab8b11e7c87e6414b4fe910b0a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:27 +0000
Subject: [PATCH 50/69] fix: two controllers with one number were neither equal
 nor different

---
 neural_graph_composer/midi/midi_control_change.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_graph_composer/midi/midi_control_change.py b/neural_graph_composer/midi/midi_control_change.py
index cf5f1e0..769ff9c 100644
--- a/neural_graph_composer/midi/midi_control_change.py
+++ b/neural_graph_composer/midi/midi_control_change.py
@@ -52,7 +52,7 @@ class MidiBaseControlChange:
         return self.cc_number < other.cc_number
 
     def __ne__(self, other):
-        return self.cc_number != other.cc_number
+        return not self == other
 
     def __repr__(self) -> str:
         return f"MidiBaseControlChange(cc_number={self.cc_number}, description='{self.description}', " \
-- 
2.43.0


From c4842ef65251076d654c68be05b7ad7b6f99ffa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:29 +0000
Subject: [PATCH 51/69] fix: transforms could not be created with the current
 torch_geometric interface

---
 neural_graph_composer/transforms.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/neural_graph_composer/transforms.py b/neural_graph_composer/transforms.py
index 89b344e..26f846a 100644
--- a/neural_graph_composer/transforms.py
+++ b/neural_graph_composer/transforms.py
@@ -26,7 +26,7 @@ from torch_geometric.transforms import BaseTransform
 class AddDegreeTransform(BaseTransform):
     """Add degree to x.
     """
-    def __call__(self, data):
+    def forward(self, data):
         x = data.x.reshape(data.num_nodes, -1)
         degree = torch_geometric.utils.degree(data.edge_index[0], num_nodes=data.num_nodes)
         degree = degree.reshape(-1, 1)
@@ -49,7 +49,7 @@ class GraphIDTransform(BaseTransform):
         self.num_classes = dataset.num_classes
         print(f"Creating Graph ID transform Node proper {self.num_classes}")
 
-    def __call__(self, data):
+    def forward(self, data):
         """Transform add graph id.
 
         It requires dataset to have public method that it can access.
@@ -83,7 +83,7 @@ class RandomNodeDrop(T.BaseTransform):
         print(f"Creating Random Node proper with p {p}")
         self.p = p
 
-    def __call__(self, data: Data) -> Data:
+    def forward(self, data: Data) -> Data:
         """
 
         :param data:
@@ -154,7 +154,7 @@ class RandomEdgeDrop(T.BaseTransform):
         """
         self.p = p
 
-    def __call__(self, data):
+    def forward(self, data):
         """
         :param data:
         :return:
-- 
2.43.0


From 5807e76fd15c071d50a73776cb286031049b5c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:40 +0000
Subject: [PATCH 52/69] fix: tempi read from a file were serialized one
 microsecond short

---
 neural_graph_composer/custom_pretty_midi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_graph_composer/custom_pretty_midi.py b/neural_graph_composer/custom_pretty_midi.py
index 058b6d0..55730dd 100644
--- a/neural_graph_composer/custom_pretty_midi.py
+++ b/neural_graph_composer/custom_pretty_midi.py
@@ -1357,7 +1357,7 @@ class CustomPrettyMIDI(pretty_midi.PrettyMIDI):
         for (tick, tick_scale) in self._tick_scales:
             timing_track.append(mido.MetaMessage(
                 'set_tempo', time=tick,
-                tempo=int(6e7 / (60. / (tick_scale * self.resolution)))))
+                tempo=int(round(6e7 / (60. / (tick_scale * self.resolution))))))
 
         # Add in each time signature
         for ts in self.time_signature_changes:
-- 
2.43.0


From 39733db9b9672edbbcda0ea0b88e73e057a28a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:47 +0000
Subject: [PATCH 53/69] fix: a track whose name is not latin1 text could not be
 saved to a file

---
 neural_graph_composer/midi/callbacks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_graph_composer/midi/callbacks.py b/neural_graph_composer/midi/callbacks.py
index dcec2c1..44e0b81 100644
--- a/neural_graph_composer/midi/callbacks.py
+++ b/neural_graph_composer/midi/callbacks.py
@@ -41,7 +41,7 @@ def save_midi_callback(file_path: str,
     pm_instrument = pretty_midi.Instrument(
         program=instrument.instrument_num,
         is_drum=instrument.is_drum,
-        name=instrument.name)
+        name=(instrument.name or '').encode('latin1', 'replace').decode('latin1'))
 
     pm_notes = [pretty_midi.Note(
         velocity=note.velocity,
-- 
2.43.0


From 775c9110a3b6452fb336b7d2e198ca3d9bd3b6aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:55 +0000
Subject: [PATCH 54/69] fix: an instrument without transitions made the pitch
 class transition matrix NaN

---
 neural_graph_composer/custom_pretty_midi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_graph_composer/custom_pretty_midi.py b/neural_graph_composer/custom_pretty_midi.py
index 55730dd..7d77419 100644
--- a/neural_graph_composer/custom_pretty_midi.py
+++ b/neural_graph_composer/custom_pretty_midi.py
@@ -908,7 +908,7 @@ class CustomPrettyMIDI(pretty_midi.PrettyMIDI):
         """
         # Sum up all matrices from all instruments defaulting zeros matrix
         pc_trans_mat = sum(
-            [i.get_pitch_class_transition_matrix(normalize, time_thresh)
+            [np.nan_to_num(i.get_pitch_class_transition_matrix(normalize, time_thresh))
              for i in self.instruments], np.zeros((12, 12)))
 
         # Normalize accordingly
-- 
2.43.0


From 363125bfcf94bca7a94f03dfffa63d664be4f07c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:59 +0000
Subject: [PATCH 55/69] fix: tempo estimates counted every interval to the
 shortest cluster

---
 neural_graph_composer/custom_pretty_midi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_graph_composer/custom_pretty_midi.py b/neural_graph_composer/custom_pretty_midi.py
index 7d77419..dbcfe3f 100644
--- a/neural_graph_composer/custom_pretty_midi.py
+++ b/neural_graph_composer/custom_pretty_midi.py
@@ -545,7 +545,7 @@ class CustomPrettyMIDI(pretty_midi.PrettyMIDI):
         for interval in ioi:
             # If this ioi falls within a cluster (threshold is 25ms)
             if (np.abs(clusters - interval) < .025).any():
-                k = np.argmin(clusters - interval)
+                k = np.argmin(np.abs(clusters - interval))
                 # Update cluster mean
                 clusters[k] = (cluster_counts[k] * clusters[k] +
                                interval) / (cluster_counts[k] + 1)
-- 
2.43.0


From f9a87478521813929198fdf1dca9c28a532106df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:19 +0000
Subject: [PATCH 56/69] fix: the sound of an object with nothing to hear was
 not a number

---
 neural_graph_composer/custom_pretty_midi.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/neural_graph_composer/custom_pretty_midi.py b/neural_graph_composer/custom_pretty_midi.py
index dbcfe3f..f34cc06 100644
--- a/neural_graph_composer/custom_pretty_midi.py
+++ b/neural_graph_composer/custom_pretty_midi.py
@@ -971,8 +971,10 @@ class CustomPrettyMIDI(pretty_midi.PrettyMIDI):
         # Sum all waveforms in
         for waveform in waveforms:
             synthesized[:waveform.shape[0]] += waveform
-        # Normalize
-        synthesized /= np.abs(synthesized).max()
+        # Normalize, unless there is nothing to hear
+        peak = np.abs(synthesized).max()
+        if peak > 0:
+            synthesized /= peak
         return synthesized
 
     def fluidsynth(self, fs=44100, sf2_path=None):
-- 
2.43.0


From b65cb9199d096d6c49c1404d68ed5d041fa60a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:56 +0000
Subject: [PATCH 57/69] fix: the first beat could not be estimated for some
 onsets in the first milliseconds

---
 neural_graph_composer/custom_pretty_midi.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/neural_graph_composer/custom_pretty_midi.py b/neural_graph_composer/custom_pretty_midi.py
index f34cc06..da9b368 100644
--- a/neural_graph_composer/custom_pretty_midi.py
+++ b/neural_graph_composer/custom_pretty_midi.py
@@ -736,9 +736,8 @@ class CustomPrettyMIDI(pretty_midi.PrettyMIDI):
             beat_signal = np.zeros(int(fs * (self.get_end_time() + 1)))
             for beat in np.append(0, beats):
                 if beat - tolerance < 0:
-                    beat_window = np.ones(
-                        int(fs * 2 * tolerance + (beat - tolerance) * fs))
-                    beat_signal[:int((beat + tolerance) * fs)] = beat_window
+                    beat_end = int((beat + tolerance) * fs)
+                    beat_signal[:beat_end] = np.ones(beat_end)
                 else:
                     beat_start = int((beat - tolerance) * fs)
                     beat_end = beat_start + int(fs * tolerance * 2)
-- 
2.43.0


From faeb676e57a576034c414c18515ff5e0172b4b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:27 +0000
Subject: [PATCH 58/69] fix: validation metrics were saved as test metrics

---
 ngc_shared.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ngc_shared.py b/ngc_shared.py
index 31c1de0..11df6c9 100644
--- a/ngc_shared.py
+++ b/ngc_shared.py
@@ -297,10 +297,10 @@ class Experiments:
 
         if self.save_metrics and self.metrics_rate and self.current_epoch % self.metrics_rate == 0:
             metrics = {
-                'test_accs': self.val_accs,
-                'tet_f1s': self.val_f1s,
-                'test_precisions': self.val_precisions,
-                'test_recalls': self.val_recalls,
+                'test_accs': self.test_accs,
+                'test_f1s': self.test_f1s,
+                'test_precisions': self.test_precisions,
+                'test_recalls': self.test_recalls,
                 'test_aucs': self.test_aucs,
                 'test_aps': self.test_aps,
             }
-- 
2.43.0


From a39fe7d94122e90180152e3e88973eaf33edd552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:27 +0000
Subject: [PATCH 59/69] fix: validation metrics were saved as train metrics

---
 ngc_shared.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/ngc_shared.py b/ngc_shared.py
index 11df6c9..90265dc 100644
--- a/ngc_shared.py
+++ b/ngc_shared.py
@@ -344,10 +344,11 @@ class Experiments:
                 if not os.path.exists(self.metrics_dir):
                     os.makedirs(self.metrics_dir)
             metrics = {
-                'test_accs': self.val_accs,
-                'tet_f1s': self.val_f1s,
-                'test_precisions': self.val_precisions,
-                'test_recalls': self.val_recalls
+                'train_losses': self.train_losses,
+                'train_accs': self.train_accs,
+                'train_f1s': self.train_f1s,
+                'train_precisions': self.train_precisions,
+                'train_recalls': self.train_recalls
             }
             filename = os.path.join(self.metrics_dir, f"{self.model_type}_train_metrics.pt")
             torch.save(metrics, filename)
-- 
2.43.0


From 7bfb8dfece87b250da1f07ad0bce9276cee9c464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:27 +0000
Subject: [PATCH 60/69] fix: validation metrics could not be saved before any
 other metrics

---
 ngc_shared.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ngc_shared.py b/ngc_shared.py
index 90265dc..49463c5 100644
--- a/ngc_shared.py
+++ b/ngc_shared.py
@@ -373,6 +373,9 @@ class Experiments:
                 'val_precisions': self.val_precisions,
                 'val_recalls': self.val_recalls
             }
+            if self.metrics_dir:
+                if not os.path.exists(self.metrics_dir):
+                    os.makedirs(self.metrics_dir)
             filename = os.path.join(self.metrics_dir, f"{self.model_type}_validation_metrics.pt")
             torch.save(metrics, filename)
 
-- 
2.43.0


From bc4235bdf8a918e4ac625db8804fdd6717882b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:27 +0000
Subject: [PATCH 61/69] fix: saved metrics were never loaded with a checkpoint

---
 ngc_shared.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/ngc_shared.py b/ngc_shared.py
index 49463c5..3bf4628 100644
--- a/ngc_shared.py
+++ b/ngc_shared.py
@@ -225,7 +225,8 @@ class Experiments:
             return
 
         checkpoint_files = glob.glob(os.path.join(checkpoint_dir, "*.pt"))
-        metrics_files = sorted(glob.glob(os.path.join(self.metrics_dir, f"{model_type}*.pt")))
+        metrics_files = [os.path.basename(f) for f in
+                         glob.glob(os.path.join(self.metrics_dir, f"{model_type}*.pt"))]
         if not checkpoint_files:
             print("No checkpoints found.")
             return
@@ -242,11 +243,11 @@ class Experiments:
         if self.save_metrics and f"{model_type}_train_metrics.pt" in metrics_files:
             train_metrics = torch.load(os.path.join(self.metrics_dir, f"{model_type}_train_metrics.pt"))
             print(f"Loaded test metric from {train_metrics}.")
-            self.train_losses = train_metrics["train_losses"]
-            self.train_accs = train_metrics["train_accs"]
-            self.train_f1s = train_metrics["train_f1s"]
-            self.train_precisions = train_metrics["train_precisions"]
-            self.train_recalls = train_metrics["train_recalls"]
+            self.train_losses = train_metrics.get("train_losses", [])
+            self.train_accs = train_metrics.get("train_accs", [])
+            self.train_f1s = train_metrics.get("train_f1s", [])
+            self.train_precisions = train_metrics.get("train_precisions", [])
+            self.train_recalls = train_metrics.get("train_recalls", [])
         if self.save_metrics and f"{model_type}_validation_metrics.pt" in metrics_files:
             val_metrics = torch.load(os.path.join(self.metrics_dir, f"{model_type}_validation_metrics.pt"))
             print(f"Loaded test metric from {val_metrics}.")
@@ -258,9 +259,11 @@ class Experiments:
             test_metrics = torch.load(os.path.join(self.metrics_dir, f"{model_type}_test_metrics.pt"))
             print(f"Loaded test metric from {test_metrics}.")
             self.test_accs = test_metrics["test_accs"]
-            self.test_f1s = test_metrics["test_f1s"]
+            self.test_f1s = test_metrics.get("test_f1s", [])
             self.test_precisions = test_metrics["test_precisions"]
             self.test_recalls = test_metrics["test_recalls"]
+            self.test_aucs = test_metrics["test_aucs"]
+            self.test_aps = test_metrics["test_aps"]
 
         print(f"Loaded checkpoint from {checkpoint_path}.")
 
-- 
2.43.0


From 5a418b349ea5acdb4424b52ed977eaff43f0675e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:27 +0000
Subject: [PATCH 62/69] fix: edges still named the old nodes after nodes were
 removed

---
 ngc_shared.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/ngc_shared.py b/ngc_shared.py
index 3bf4628..c4bfc24 100644
--- a/ngc_shared.py
+++ b/ngc_shared.py
@@ -409,9 +409,7 @@ class Experiments:
         nodes_to_remove = np.random.choice(data.num_nodes, num_nodes_to_remove, replace=False)
         mask = torch.ones(data.num_nodes, dtype=torch.bool)
         mask[nodes_to_remove] = False
-        data.x = data.x[mask]
-        data.edge_index = data.edge_index[:, mask[data.edge_index[0]] & mask[data.edge_index[1]]]
-        return data
+        return data.update(data.subgraph(mask))
 
     def dataset_split_mask(self, split_mask_ration=0.8):
         """Compute split mask
-- 
2.43.0


From 947b9bc4101af4a524833ce0ee57c61246a32854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:27 +0000
Subject: [PATCH 63/69] fix: test metrics were also drawn at the validation
 epochs

---
 ngc_shared.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/ngc_shared.py b/ngc_shared.py
index c4bfc24..2c8c0dd 100644
--- a/ngc_shared.py
+++ b/ngc_shared.py
@@ -145,10 +145,6 @@ class Experiments:
                 plt.plot(val_epochs, self.val_precisions, label="val_precision")
             if self.val_recalls:
                 plt.plot(val_epochs, self.val_recalls, label="val_recall")
-            if self.test_aucs:
-                plt.plot(val_epochs, self.test_aucs, label="test_auc")
-            if self.test_aps:
-                plt.plot(val_epochs, self.test_aps, label="test_ap")
 
         if self.test_accs and self.test_f1s and self.test_precisions and self.test_recalls:
             test_epochs = range(self.test_update_freq,
-- 
2.43.0


From 8ceb3017421fe79994af0da180aaabc5d544af8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:47 +0000
Subject: [PATCH 64/69] fix: one-hot features had no class for pitch 127

---
 neural_graph_composer/midi_graph_builder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_graph_composer/midi_graph_builder.py b/neural_graph_composer/midi_graph_builder.py
index d150827..39d6245 100644
--- a/neural_graph_composer/midi_graph_builder.py
+++ b/neural_graph_composer/midi_graph_builder.py
@@ -1047,7 +1047,7 @@ class MidiGraphBuilder:
                     pitch_sub_group,
                     velocity_set=velocity,
                     feature_vec_size=feature_vec_size,
-                    num_classes=127,
+                    num_classes=128,
                     velocity_num_buckets=velocity_num_buckets
                 )
 
-- 
2.43.0


From 617e78ecf90b2cb557b3f0ff097d0500e8abd532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:51 +0000
Subject: [PATCH 65/69] fix: signatures added at one time out of order were
 listed in reverse

---
 neural_graph_composer/midi/midi_sequences.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/neural_graph_composer/midi/midi_sequences.py b/neural_graph_composer/midi/midi_sequences.py
index 7df6a5d..0b58099 100644
--- a/neural_graph_composer/midi/midi_sequences.py
+++ b/neural_graph_composer/midi/midi_sequences.py
@@ -359,7 +359,7 @@ class MidiNoteSequences:
                 self.time_signatures[0].midi_time, v.midi_time):
             self.time_signatures[0] = v
         else:
-            bisect.insort_left(self.time_signatures, v, key=lambda k: k)
+            bisect.insort_right(self.time_signatures, v, key=lambda k: k)
 
         self.time_signature.cache_clear()
 
@@ -385,7 +385,7 @@ class MidiNoteSequences:
             if self.time_signatures and v.midi_time > self.time_signatures[-1].midi_time:
                 self._last_key_midi_seq_num += 1
 
-            bisect.insort_left(self.key_signatures, v, key=lambda k: k)
+            bisect.insort_right(self.key_signatures, v, key=lambda k: k)
 
             # bisect.insort_left(
             #     bisect.insort_left(self.time_signatures, v, key=lambda k: k)
@@ -410,7 +410,7 @@ class MidiNoteSequences:
                 self.tempo_signatures[0].midi_time, v.midi_time):
             self.tempo_signatures[0] = v
         else:
-            bisect.insort_left(self.tempo_signatures, v, key=lambda k: k)
+            bisect.insort_right(self.tempo_signatures, v, key=lambda k: k)
 
         self.tempo_signature.cache_clear()
 
-- 
2.43.0


From 6eaa9cb8caaec9dab6fa671ab762d9baf69ad392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:55 +0000
Subject: [PATCH 66/69] fix: find checkpoints of models whose name or directory
 has glob characters

---
 ngc_shared.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ngc_shared.py b/ngc_shared.py
index 2c8c0dd..6940720 100644
--- a/ngc_shared.py
+++ b/ngc_shared.py
@@ -220,9 +220,9 @@ class Experiments:
             print(f"Checkpoint directory {checkpoint_dir} does not exist.")
             return
 
-        checkpoint_files = glob.glob(os.path.join(checkpoint_dir, "*.pt"))
+        checkpoint_files = glob.glob(os.path.join(glob.escape(checkpoint_dir), "*.pt"))
         metrics_files = [os.path.basename(f) for f in
-                         glob.glob(os.path.join(self.metrics_dir, f"{model_type}*.pt"))]
+                         glob.glob(os.path.join(glob.escape(self.metrics_dir), f"{glob.escape(model_type)}*.pt"))]
         if not checkpoint_files:
             print("No checkpoints found.")
             return
-- 
2.43.0


From 56dc9b858837529feed92637e23196e21d65f96b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:12:13 +0000
Subject: [PATCH 67/69] fix: a signature could not be added to a score given an
 empty list of them

---
 neural_graph_composer/midi/midi_sequences.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/neural_graph_composer/midi/midi_sequences.py b/neural_graph_composer/midi/midi_sequences.py
index 0b58099..9f68241 100644
--- a/neural_graph_composer/midi/midi_sequences.py
+++ b/neural_graph_composer/midi/midi_sequences.py
@@ -352,7 +352,7 @@ class MidiNoteSequences:
         if self.is_debug:
             logging.debug(f"adding time signature {v}")
 
-        v.seq = self.time_signatures[-1].seq + 1
+        v.seq = self.time_signatures[-1].seq + 1 if self.time_signatures else 0
 
         # replace default
         if len(self.time_signatures) >= 1 and self.is_close_to_zero(
@@ -374,7 +374,7 @@ class MidiNoteSequences:
         if self.is_debug:
             logging.debug(f"adding key signature {v}")
 
-        v.seq = self.key_signatures[-1].seq + 1
+        v.seq = self.key_signatures[-1].seq + 1 if self.key_signatures else 0
 
         # replace default
         if len(self.key_signatures) >= 1 and self.is_close_to_zero(
@@ -404,7 +404,7 @@ class MidiNoteSequences:
         if self.is_debug:
             logging.debug(f"adding tempo a signature {v}")
 
-        v.seq = self.tempo_signatures[-1].seq + 1
+        v.seq = self.tempo_signatures[-1].seq + 1 if self.tempo_signatures else 0
 
         if len(self.tempo_signatures) >= 1 and self.is_close_to_zero(
                 self.tempo_signatures[0].midi_time, v.midi_time):
-- 
2.43.0


From aeb6a7797f74f4a2666757154497deb17829bd70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:36:31 +0000
Subject: [PATCH 68/69] fix: compute_statistics of a dataset always failed,
 labels are a list or not kept

---
 neural_graph_composer/midi_dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_graph_composer/midi_dataset.py b/neural_graph_composer/midi_dataset.py
index 52590e3..c43e4f2 100644
--- a/neural_graph_composer/midi_dataset.py
+++ b/neural_graph_composer/midi_dataset.py
@@ -395,7 +395,7 @@ class MidiDataset(InMemoryDataset):
         for data in self:
             num_nodes += data.num_nodes
             num_edges += data.num_edges
-            num_labels += torch.unique(data.label).size(0)
+            num_labels += torch.unique(data.y).size(0)
 
         return {
             "num_nodes": num_nodes,
-- 
2.43.0


From 6ed853b5d83e2a1f236726f0d1578af9e769b060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:09:16 +0000
Subject: [PATCH 69/69] fix: bar lines followed the last meter where it starts
 at the end of the piece

A meter after the last beat was not found among the beats and took the place
of the one before it.
---
 neural_graph_composer/custom_pretty_midi.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/neural_graph_composer/custom_pretty_midi.py b/neural_graph_composer/custom_pretty_midi.py
index da9b368..b270154 100644
--- a/neural_graph_composer/custom_pretty_midi.py
+++ b/neural_graph_composer/custom_pretty_midi.py
@@ -770,6 +770,11 @@ class CustomPrettyMIDI(pretty_midi.PrettyMIDI):
         if not time_signatures or time_signatures[0].time > start_time:
             time_signatures.insert(0, TimeSignature(4, 4, start_time))
 
+        # A meter after the last beat has no bars and ends those of no other
+        if beats.size > 0:
+            time_signatures = [ts for ts in time_signatures
+                               if ts.time <= beats[-1] or np.isclose(ts.time, beats[-1])]
+
         def index(array, value, default):
             """ Returns the first index of a value in an array, or `default` if
             the value doesn't appear in the array."""
-- 
2.43.0

