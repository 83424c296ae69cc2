"""Source of properties.jsonl and of the checks in MANIFEST.json (run tools/gen.py)."""
P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe, technique, note, state=()):
    assert len(title) <= 80, (id, len(title))
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {"files": files,
                    "mechanism": [{"name": a, "where": b} for a, b in mechanism],
                    "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
                    "observe_at": observe, "hook_needed": None},
        "_technique": technique, "_note": note})


R = "neural_graph_composer/midi_reader.py"
CPM = "neural_graph_composer/custom_pretty_midi.py"
NOTE = "neural_graph_composer/midi/midi_note.py"
SEQ = "neural_graph_composer/midi/midi_sequence.py"
SEQS = "neural_graph_composer/midi/midi_sequences.py"
TS = "neural_graph_composer/midi/midi_time_signature.py"
KS = "neural_graph_composer/midi/midi_key_signature.py"
CC = "neural_graph_composer/midi/midi_control_change.py"
PB = "neural_graph_composer/midi/midi_pitch_bend.py"
INST = "neural_graph_composer/midi/midi_instruments.py"
GB = "neural_graph_composer/midi_graph_builder.py"
DS = "neural_graph_composer/midi_dataset.py"
TR = "neural_graph_composer/transforms.py"
SC = "neural_graph_composer/midi/midi_scales.py"
SD = "neural_graph_composer/midi/sorted_dict.py"
SI = "neural_graph_composer/midi/sorted_interval_dict.py"
IV = "neural_graph_composer/midi/Interval.py"
UT = "neural_graph_composer/midi/midi_utils.py"
UTILS = "neural_graph_composer/utils.py"
QZ = "neural_graph_composer/midi/midi_quantizer.py"

T = "runtime monitoring: "
TRUST = ("Assurance is that of the executions seen (counted in the evidence). Trusted: the oracle in ngcmon (written "
         "independently of the repository), CPython, and the third-party libraries the code calls. ")

prop("C01", "Reading a MIDI file yields exactly its notes",
     "Reading a standard MIDI file returns one track per file track, channel and program that sounds, and each track holds exactly one "
     "note per note-on of that channel: pitch, velocity, onset, program, drum flag and track name as in the file, and no other notes. "
     "A note ends at the first event on its file track after its onset tick that is its own note-off or another note-on, or at the "
     "end of the track; total times equal the end of the last note.",
     ["inputs"], "every well-formed format 0 or 1 file: any resolution, tracks, channels, textures, running status, either note-off "
     "spelling, missing or orphan note-offs, program changes between notes, drums",
     "The tests read a handful of fixed files and mostly check counts; the property ranges over all event orders, ticks and channels.",
     [R, CPM, SEQ, SEQS], [("event loop pairing note-ons with closers", CPM + ":_load_instruments"),
                           ("conversion of tracks", R + ":MidiReader.read")],
     ["the score returned by the reader"],
     T + "differential trace oracle over generated files",
     TRUST + "Generated files avoid two onsets of one pitch on one channel at one tick and program changes under a sounding note.",
     [("instruments", "open notes keyed by channel and pitch", CPM)])

prop("C02", "Every time in a read score follows the file's tempo map",
     "The time of every note, signature, tempo entry and controller event returned by the reader is the exact integral of the file's tempo "
     "map up to its tick at the file's resolution. The returned tempo list is that map (120 quarters per minute where the file says "
     "nothing, repeats of the value in force left out), and a tempo lookup at the time of a change gives the new tempo.",
     ["inputs"], "every tempo map (none, changes at tick 0, many changes, extreme values) and every resolution",
     "Tests use files with one tempo; accumulated tick-to-time error and off-by-one in segment selection show only with several changes.",
     [R, CPM, SEQS, TS], [("tick scale list", CPM + ":_load_tempo_changes"), ("cumulative tick to time table", CPM + ":_update_tick_to_time")],
     ["times in the score returned by the reader", "tempo lookups on the score"],
     T + "differential oracle with an exact rational clock",
     TRUST + "Tempo events stand on the first track, as the format demands. Times compared within 2e-9 s.")

prop("C03", "Meter and key of a score are those of the file, everywhere",
     "The time and key signature lists of a read score are the file's, in time order, with 4/4 and C major in force from time 0 unless the "
     "file says otherwise there. Every note carries the meter in force at its onset tick (a change at that very tick counts), and looking "
     "up meter or key at the time of a change gives the new one.",
     ["inputs"], "every list of time and key signature changes, under every tempo map, with changes between, on and after notes",
     "Tests check signature lists of two files; notes under a later meter and changes on an onset are never looked at.",
     [R, CPM, SEQS, TS, KS], [("signature insertion", SEQS + ":add_time_signature"), ("meter of a note", R)],
     ["signature lists of the score", "meter of each note", "signature lookups"],
     T + "differential trace oracle over generated files",
     TRUST + "Signature events stand on the first track.")

prop("C04", "Control changes and pitch bends survive reading, each exactly once",
     "Every control change and pitch bend of a channel that sounds appears exactly once on that channel's track with its number, value and "
     "time, wherever it stands relative to the notes (where a channel plays several programs: on the track of the program in force, or, if "
     "that has not sounded yet, the channel's next new one, or its last). None appears on another track, and each carries its track's "
     "program, number and drum flag. Events of one moment keep the order of the file.",
     ["inputs"], "every placement of control changes and bends before, between, at and after notes on any channel",
     "Tests hold no file with bends and count control changes of one file only.",
     [R, CPM, CC, PB], [("straggler events kept until the channel has an instrument", CPM + ":_load_instruments"),
                        ("conversion of events", R)],
     ["control changes and bends of each track of the returned score"],
     T + "conservation monitor over generated files",
     TRUST)

prop("C05", "Reading does not depend on source form, history or other reads",
     "One file read as a path, as bytes, as a parsed file object or through the convenience entry point gives equal scores, however often "
     "and in whatever order it is read among other files. Reading changes neither the file, nor the parsed object handed in, nor earlier "
     "results, leaves no temporary file behind, and anything that is no MIDI source is refused with a ValueError.",
     ["inputs", "histories"], "every file and every sequence of reads over the four source forms",
     "Tests read each file once in one form.",
     [R, CPM], [("source dispatch", R + ":MidiReader.read"), ("delta to absolute tick conversion", CPM)],
     ["states of the returned scores", "file bytes", "parsed object", "temporary directory"],
     T + "state-equality monitor over random read histories", TRUST)

prop("C06", "Damaged MIDI input is refused or read as a well-formed score",
     "Reading arbitrary damaged bytes ends in an exception or in a well-formed score: tracks numbered from 0, every note with MIDI pitch and "
     "velocity and an end after its start and within the total times, signatures in time order and legal, controller values in range. "
     "Reading from a damaged file through the convenience entry point fails with ValueError in exactly the cases the plain read fails, "
     "and a later read of a good file is unaffected.",
     ["inputs", "histories"], "every corruption of a MIDI byte stream (flips, cuts, insertions, wrong lengths, hostile header and meta values)",
     "Tests read no damaged file.",
     [R, CPM], [("validation in the reader", R), ("value checks of events", NOTE)],
     ["exceptions", "invariants of returned scores"],
     T + "mutation stress with an invariant monitor and resource watchdog",
     TRUST + "Memory is limited to 2 GB above the start size, CPU to 60 s per case.")

prop("C07", "Writing a score and reading it back gives the same score",
     "A score written to a MIDI file and read back has the same resolution and, in the same order, the same sounding tracks with program, drum "
     "flag and (non-empty, Latin-1) name, the same notes with pitch, velocity, onset and end, and, up to the end of the last note, the same "
     "control changes, pitch bends, time and key signatures and tempo changes. Times agree within half a tick plus the rounding of tempo "
     "to whole microseconds. Writing does not change the score.",
     ["inputs"], "every score read from a file or built through the interface: any tempo map, meters, keys, tracks sharing or not sharing a "
     "program, drums, controller events",
     "Tests write few scores and compare counts; tempo maps with several changes are never written.",
     [R, SEQS, SEQ, TS, KS], [("conversion of a score to the writer's object", R + ":MidiReader.write"), ("tempo changes", R)],
     ["the score before and after writing", "the score read from the written file"],
     T + "round-trip conservation monitor",
     TRUST + "Track without notes and events after the last note are not claimed; notes of a track end by its next onset, as after reading. "
     "The reader is watched by C01-C04 on its own.")

prop("C08", "A refused write changes nothing, a permitted write only its file",
     "Writing without permission to overwrite never changes an existing file and raises FileExistsError. A score that is no score or holds no "
     "notes, an empty or non-text file name, a negative, reversed or non-numeric time window raise ValueError and leave every file as it "
     "was. A successful write creates or replaces the named file only, writes the same bytes for the same score each time, and no write, "
     "refused or not, changes a score.",
     ["inputs", "histories"], "every sequence of valid and invalid writes of several scores to new and existing names",
     "Tests try single refusals and do not look at the directory or the score afterwards.",
     [R, SEQS], [("argument checks before the file is opened", R + ":MidiReader.write")],
     ["exceptions", "bytes of every file of the directory", "state of the scores"],
     T + "directory and state monitor over random write histories",
     TRUST + "The content written for a time window is not claimed.")

prop("C09", "A track is the outcome of its edit history",
     "After any history of edits a track, melodic or drum, holds exactly the notes the edits say, in order: appends, extensions and adds go "
     "to the end, insertion and merging keep time order, cutting keeps the first n, shifting and stretching change all times alike; length, "
     "indexing, iteration and total time follow. Cut, truncation, slice and sum are new tracks with the matching notes. Controller events and "
     "instrument stay, and notes, types and tracks that do not fit are refused without effect.",
     ["histories"], "every history of edits on melodic and drum tracks, empty ones included",
     "Tests apply one operation to one small melodic track.",
     [SEQ, NOTE], [("note list of the track", SEQ + ":MidiNoteSequence.notes"), ("merging", SEQ + ":MidiNoteSequence.merge"),
                   ("slicing", SEQ + ":MidiNoteSequence.slice")],
     ["notes, order, length, total time and events after each edit"],
     T + "model-based history checker",
     TRUST + "Notes agree with their track in instrument and drum flag; sorted insertion is used on sorted tracks.",
     [("total_time", "end of the last note known to the track", SEQ)])

prop("C10", "Derived copies of tracks, notes and events are independent",
     "Cloning, slicing, truncating, quantizing or copying a track, note or control change leaves the source exactly as it was, and the copy "
     "holds all that the operation promises (a clone: every field, drum notes and program included; a copy of an event: every field but those "
     "asked to change). Later edits of a copy never change the source, and edits of the source never change the copy.",
     ["histories"], "every pool of tracks grown by deriving and editing members in any order, melodic or drum",
     "Tests compare one copy with its source and never edit one of them afterwards.",
     [SEQ, NOTE, CC], [("clone", SEQ + ":MidiNoteSequence.clone"), ("slice", SEQ + ":MidiNoteSequence.slice"),
                       ("copy of a control change", CC + ":MidiControlChange.make_copy")],
     ["all fields of every member of the pool after each step"],
     T + "aliasing monitor: full-state snapshots of all pool members after each step",
     TRUST + "The first notes given by cut, and the sum of two tracks, share note objects with their sources by design.")

prop("C11", "A note is always a legal MIDI note and keeps what it was given",
     "However built or changed through its setters, a note has pitch and velocity in 0..127, an end after its start, and a name that is the "
     "name of its pitch. Out-of-range pitch, velocity, program and instrument of the constructor are clamped with a warning, all other "
     "illegal arguments and setter values are refused and leave the note unchanged, and legal ones are kept exactly. Frequency, "
     "duration and beat duration follow from the fields.",
     ["inputs", "histories"], "every constructor argument and every sequence of setter calls, legal or not",
     "Tests set one field of one note at a time.",
     [NOTE], [("clamping and checks", NOTE + ":MidiNote.__init__"), ("setters", NOTE)],
     ["all fields of the note after every call"],
     T + "invariant monitor with a field model", TRUST,
     [("pitch", "MIDI number, named by pitch_name", NOTE)])

prop("C12", "Notes compare, order, overlap and travel through JSON consistently",
     "Two notes are equal exactly when all their fields agree, the order of notes is by start, then end, then pitch, and sorting any list of "
     "notes follows it. Two notes overlap, in either direction of asking, exactly when some instant belongs to both. A note decoded from "
     "JSON, alone, inside a document or with optional fields left out, has the fields of the text and the defaults for the rest.",
     ["inputs"], "all sets of notes with ties in any combination of fields",
     "Tests compare a few hand-written pairs; symmetry, transitivity and single-field differences need all combinations.",
     [NOTE], [("equality", NOTE + ":MidiNote.__eq__"), ("order", NOTE + ":MidiNote.__lt__"), ("overlap", NOTE + ":MidiNote.overlaps"),
              ("decoder", NOTE)],
     ["results of comparisons, sorting, overlaps and decoding"],
     T + "relational monitor over all pairs and triples", TRUST)

prop("C13", "Quantization puts every event on the grid and changes nothing else",
     "Quantizing a note, control change, track or score at any steps per second gives each event the grid step of its time, rounded as asked, "
     "and a note takes at least one step and never ends before it should. Pitch, velocity, instrument, meter and count of events stay, a "
     "quantized note or control change is a new object, and the total steps and total time of a track follow its notes. A note, a track and a "
     "score report being quantized exactly when all their notes are.",
     ["inputs"], "every score, grid and rounding amount",
     "Tests quantize a few notes on one grid.",
     [QZ, NOTE, CC, SEQ, SEQS], [("nearest step", QZ), ("note", NOTE + ":MidiNote.quantize"), ("track", SEQ + ":MidiNoteSequence.quantize")],
     ["steps, times and fields of every event"],
     T + "differential oracle for the grid arithmetic",
     TRUST + "Events that were not quantized before; positions within 1e-9 of a rounding boundary may go either way.")

prop("C14", "Signature lookups follow the list of changes at every moment",
     "Time, key and tempo signatures of a score are listed in time order whatever the order they were added in, and a lookup at any time gives "
     "the last entry at or before that time (of entries at one time the one added last), an entry placed exactly there included, or the default before the first. A listing up to a bound "
     "holds exactly the entries up to it. Answers follow later additions, initial tempo included, and asking changes nothing, "
     "in this or any other score.",
     ["histories"], "every history of additions and lookups on several scores",
     "Tests add a signature or two and look up one time, never again after the next addition.",
     [SEQS, TS, KS], [("lookups", SEQS), ("insertion", SEQS + ":add_time_signature"), ("initial tempo", SEQS + ":initial_tempo")],
     ["answers of lookups and listings"],
     T + "model-based history checker", TRUST + "Times from 0 on, apart by a millisecond or equal.",
     [("time_signatures, key_signatures, tempo_signatures", "entries in time order", SEQS)])

prop("C15", "A score holds each track once and finds it by its number",
     "After any history of creating, fetching, indexing, assigning and filling tracks, a score holds exactly the tracks and notes the history "
     "says, listed in order of track number, and each is found by its number; fetching or indexing an existing track returns that very track "
     "and a missing one is made empty without touching others. Counts, lengths, instruments and the time-ordered list of all events agree "
     "with that. Calls with bad numbers, names or types are refused without effect.",
     ["histories"], "every history of calls on several scores alive at once",
     "Tests call one accessor on a fresh score.",
     [SEQS], [("track lookup", SEQS + ":MidiNoteSequences.get_track"), ("creation", SEQS + ":MidiNoteSequences.create_track"),
              ("assignment", SEQS + ":MidiNoteSequences.__setitem__")],
     ["tracks, counts, instruments and events after each call"],
     T + "model-based history checker", TRUST, [("midi_seqs", "tracks by number", SEQS)])

prop("C16", "The nodes of a graph are exactly the chords of the track",
     "Building a track into a graph makes one node for each distinct set of pitches that sounds together, found in time order with the "
     "documented tolerance (drums, silent notes and, if asked, single notes left out; chords larger than the features split into parts of full "
     "size), and no other nodes. The node is the hash of its pitches, its features are those pitches padded with zeros, with the rescaled "
     "greatest velocity per pitch in a second row if asked, and its label names its notes. An empty track gives an empty graph, "
     "and building leaves the track as it was.",
     ["inputs"], "every track, feature size, velocity and filter setting",
     "Tests build a few small tracks and count nodes.",
     [GB], [("grouping", GB + ":MidiGraphBuilder.compute_data"), ("nodes", GB + ":MidiGraphBuilder.build_sequence"),
            ("features", GB + ":MidiGraphBuilder.create_tensor")],
     ["nodes and node attributes of the returned graph", "the track"],
     T + "differential oracle for chord grouping and node features",
     TRUST + "Onsets within 1e-6 of a rounding boundary of the grouping are set aside when they disagree.")

prop("C17", "The edges of a graph count the transitions between chords as played",
     "A graph has one edge between two chords that follow each other, directed as they first did, and its weight counts how often they follow "
     "each other in either direction; the first chord points to itself with one more. Merging tracks keeps every transition of every track, "
     "never a pair of opposite edges, and adds one transition at the first chord of each further track. Neighbour, connection and edge "
     "queries by pitches, notes or hash answer from these edges.",
     ["inputs"], "every sequence of chords of one or several tracks, repeats, returns and shared chords included",
     "Tests check few edges of tiny tracks; repeated, reversed and merged transitions interact.",
     [GB], [("transitions", GB + ":MidiGraphBuilder.build_sequence"), ("merging", GB + ":MidiGraphBuilder.build"),
            ("queries", GB + ":MidiGraphBuilder.is_connected")],
     ["edges, weights and node order of the graph", "answers of the queries"],
     T + "differential oracle (replay of the play order) and conservation of transition counts for merged graphs",
     TRUST + "Chords fit the feature size. Which chord a merged track is joined to is not claimed.")

prop("C18", "Each built graph is emitted exactly once, complete and in order",
     "After builds of scores per track or merged, the builder emits one graph for each melodic track with two or more notes that holds a chord "
     "(one per score when merged), in order, each exactly once, however consumption is split, repeated or interleaved. An emitted graph holds "
     "feature row, hash, target index and label of each chord at the same position, and each transition with its weight once. Building "
     "leaves the score as it was; asking before anything was built and bad arguments are refused.",
     ["histories"], "every sequence of builds and of partial, repeated and interleaved consumption",
     "Tests consume all graphs of one build once.",
     [GB], [("emission", GB + ":MidiGraphBuilder.graphs"), ("per track and merged build", GB + ":MidiGraphBuilder.build"),
            ("conversion", GB + ":MidiGraphBuilder.from_midi_networkx")],
     ["emitted graphs", "pyg_data and sub_graphs"],
     T + "exactly-once and order monitor over emission histories",
     TRUST + "Chords fit the feature size. Transitions of merged graphs are judged by C17.",
     [("_pyg_data, _sub_graphs", "graphs waiting to be emitted", GB)])

prop("C19", "Chord indices are a stable numbering 1..n in order of first play",
     "Over all builds of one builder, the known chords carry the indices 1 to n in the order they first played; hash, notes and index map to "
     "each other both ways, and an index once given never changes. The mappings handed out are copies, so changing them changes nothing. "
     "The targets of emitted graphs lead through these mappings to the pitches of the node, and all this is the same in every process.",
     ["histories", "configurations"], "every sequence of builds on one builder and every hash seed of the process",
     "Tests look at the mappings after one build of one file in one process.",
     [GB], [("assignment of indices", GB + ":MidiGraphBuilder.build_sequence"), ("read-only mappings", GB + ":MidiGraphBuilder.hash_to_index")],
     ["mappings after each build", "targets of emitted graphs", "the same builds in other processes"],
     T + "bijection monitor over build histories, differential run in processes with other hash seeds",
     TRUST + "The order among parts of a chord larger than the features is not claimed.",
     [("_hash_to_index", "index of a chord", GB)])

prop("C20", "Converting a network keeps every node, edge and attribute in place",
     "Converting any network with uniform attributes gives one feature row per node in node order, made of the grouped attributes in the order "
     "asked for, and each edge exactly once (both ways when undirected) next to its own grouped edge attributes. Attributes not grouped stay "
     "as lists in the same order, shared names are kept apart, and the network is not changed. A network with uneven node or edge "
     "attributes is refused with ValueError.",
     ["inputs"], "every directed, undirected or multi network with scalar, list, array, tensor or text attributes and every grouping",
     "Tests convert a few networks with one attribute.",
     [GB], [("conversion", GB + ":MidiGraphBuilder.from_midi_networkx")],
     ["the returned data object", "the network"],
     T + "differential oracle over random networks",
     TRUST + "Networks with at least one edge.")

prop("C21", "Every node of a dataset graph is in exactly one of the split masks",
     "With splitting on, each graph of a dataset, per track or merged, carries boolean train, validation and test masks over its nodes that are "
     "disjoint and cover all nodes: int(train_ratio*n) train nodes, int(val_ratio*n) validation nodes, the rest test. The split is drawn at "
     "random for each graph, and the masks saved are the masks loaded. With splitting off there are no masks, and ratios outside 0..1 or "
     "summing to more than 1 are refused before anything is written.",
     ["inputs"], "every dataset and all ratios, 0, 1 and sums of 1 included",
     "Tests check one dataset with the default ratios.",
     [DS], [("masks per track", DS + ":MidiDataset._mask_per_instrument"), ("masks of merged graphs", DS + ":MidiDataset._mask_entire_graph")],
     ["masks of every graph", "graphs handed to the pre-transform"],
     T + "partition monitor over generated datasets", TRUST)

prop("C22", "A dataset holds exactly the graphs of its files, built, saved or reloaded",
     "A dataset over a list of MIDI files holds, in file and track order, exactly the graphs the builder gives for them (one per melodic track, or "
     "one per file when merged), less those the filter drops, after the pre-transform, and mappings that lead each target to its hash and "
     "pitches. Reloading it, in the same or another process, from another directory or after an interrupted build, gives the same graphs, "
     "masks and mappings or fails, never other data. Its statistics count all its graphs. Files without a chord add nothing, a missing file is refused, and the given list "
     "and the MIDI files stay as they were.",
     ["inputs", "histories", "crash_points"], "every list of files, configuration, history of constructions on a folder, and point of "
     "interruption while saving",
     "Tests build one dataset of fixed files and look at counts; reloads, second configurations, filters and interruptions are not tried.",
     [DS], [("build and save", DS + ":MidiDataset.process"), ("load", DS + ":MidiDataset.load_processed"), ("copy of files", DS + ":MidiDataset.download")],
     ["every graph and mapping of each constructed dataset", "given arguments", "files"],
     T + "differential monitor against the builder over construction histories with injected save failures",
     TRUST + "The builder and reader are watched by C01-C20. A folder is used with one setting per file name of saved data.")

prop("C23", "A sorted dictionary is a dictionary whose keys are always in order",
     "After any history of assignments, deletions, pops, updates, unions, copies and pickling, a sorted dictionary holds exactly the keys and values a "
     "plain dictionary would, and keys, values, items and iteration in both directions follow ascending key order. Copies are independent, "
     "equality is that of the contents, and missing keys are refused without effect.",
     ["histories"], "every history of mapping operations on several dictionaries",
     "Tests insert and delete a few keys.",
     [SD], [("insertion", SD + ":SortedDict.__setitem__"), ("deletion", SD + ":SortedDict.__delitem__")],
     ["keys, values, items, iteration, lookups and equality after every step"],
     T + "model-based history checker", TRUST + "The list handed out by keys() is not changed by callers.",
     [("_keys", "keys in ascending order", SD)])

prop("C24", "Intervals and the interval dictionary obey closed-interval arithmetic",
     "Closed intervals contain their ends, overlap exactly when they share a point, intersect and unite accordingly, and compare and hash by start and "
     "end. An interval dictionary keeps its items in that order through any history; lookups by a range give an independent dictionary of "
     "exactly the items that overlap it, deletion takes an interval or a slice of positions. Other keys and missing intervals are refused "
     "without effect, and copies and pickles equal their source.",
     ["inputs", "histories"], "all sets of intervals with ties and every history of mapping operations",
     "Tests use a few intervals without ties.",
     [IV, SI, SD], [("interval", IV), ("range lookup", SI + ":SortedIntervalDict.__getitem__"), ("deletion", SI + ":SortedIntervalDict.__delitem__")],
     ["results of every operation", "items after every step"],
     T + "model-based history checker and relational monitor", TRUST)

prop("C26", "Scales, chords, intervals and frequencies follow twelve-tone arithmetic",
     "For every scale and root (given as number, name or lower-case name) the notes, intervals and triads with their kinds are those of the scale's pitch "
     "classes; chord pitches from any list or set of intervals, named chords, chord steps and their names, the tables of chords, sums, parts "
     "and inverses of intervals, octave reduction, pitch names and frequencies follow the same arithmetic (A4 = 440 Hz). Roots, scales, chords and intervals that do not "
     "exist are refused, and answers stay right whatever callers do with returned lists.",
     ["inputs", "histories"], "every root, scale, chord, interval list and pitch, asked in any order",
     "Tests ask for a few scales, roots and chords; wrong table rows stay unseen.",
     [SC, NOTE], [("scales and triads", SC + ":MusicTheory.triads_from_scale_tuple"), ("chord pitches", SC + ":MusicTheory.chord_pitch_from_interval"),
                  ("chord steps", SC + ":MusicTheory.get_chord_intervals"), ("frequencies", NOTE + ":MidiNote.note_to_freq")],
     ["answers of the functions"],
     T + "differential monitor against pitch-class arithmetic", TRUST + "The optional package attr is replaced by a stand-in where missing. The "
     "entries of chords_types for elevenths and plain thirteenths and of chord_mapping for 13, maj9 and m9 are not covered.",
     [("scales", "table of scales", SC), ("chord_intervals", "steps of each chord", SC)])

prop("C27", "Graph transforms keep every remaining node and edge as it was",
     "Dropping nodes at random keeps the stated share, each with its own features, target, masks and hash, in order, and exactly the edges among them, "
     "leading to the same nodes with their attributes. Dropping edges leaves the nodes alone, keeps edges in order with their attributes, and "
     "drops the stated share (none at 0, all at 1). The degree transform appends each node's outgoing edge count and leaves the rest "
     "alone. Chains compose, and transforms used on access to a dataset do not change it.",
     ["inputs", "histories"], "all graphs with loops, double edges, isolated nodes, with or without edge attributes, every probability and chain",
     "Tests hardly touch the transforms; the property ranges over graphs and random choices.",
     [TR, DS], [("node drop", TR + ":RandomNodeDrop"), ("edge drop", TR + ":RandomEdgeDrop"), ("degrees", TR + ":AddDegreeTransform")],
     ["graph before and after each transform"],
     T + "conservation monitor tracing tagged nodes and edges through transforms",
     TRUST + "Shares of dropped edges are judged within seven standard deviations.")

prop("C28", "Control changes, bends, instruments and signatures are sound values",
     "Every control change, pitch bend, instrument, tempo, meter and key keeps the values it was given; values outside the MIDI ranges are clamped (control "
     "changes) or refused without effect (all others), by constructors and setters alike. Two of them are equal exactly when all their "
     "fields are, copies and pickles are equal, equal instruments hash alike, timed ones sort by time, ties by sequence number, and "
     "derived tempo quantities agree with the tempo.",
     ["inputs"], "all values in, at and outside the ranges, and all pairs of events",
     "Tests construct a few valid events and compare some of them.",
     [CC, PB, INST, TS, KS], [("control change", CC + ":MidiControlChange"), ("pitch bend", PB + ":MidiPitchBend"),
                              ("instrument", INST + ":MidiInstrumentInfo"), ("tempo", TS + ":MidiTempoSignature")],
     ["fields, comparisons, hashes and refusals"],
     T + "relational monitor over near-duplicate values", TRUST)

prop("C29", "Ticks, seconds, beats and bars of a MIDI object agree, also after a move",
     "For every MIDI object, converting a tick to seconds gives the exact integral of the tempo map, inside and beyond the known range, and converting back "
     "gives the tick; any time converts to its nearest tick, absurd ticks are refused. Beats and bar lines are those of the meters and "
     "tempi, from any bar on. Moving events onto new times carries notes, controls, keys, lyrics, meters and the tick clock along by "
     "linear interpolation and drops exactly what lies outside.",
     ["inputs"], "all tempo maps, resolutions, ticks, times, meters changing on bar lines, and monotone maps of times",
     "Tests touch tick conversion for one file and never beats or moved times.",
     [CPM], [("tick table", CPM + ":_update_tick_to_time"), ("time to tick", CPM + ":time_to_tick"), ("beats", CPM + ":get_beats"),
             ("bars", CPM + ":get_downbeats"), ("moves", CPM + ":adjust_times")],
     ["returned ticks, times, beats and bar lines", "all events after a move"],
     T + "differential monitor with exact rational arithmetic", TRUST + "Times within a microsecond of the end of the piece may count either way.",
     [("tick_times", "seconds of each tick", CPM), ("_tick_scales", "tempo map", CPM)])

prop("C25", "MIDI objects turned into files, and tracks saved, keep every event",
     "Serializing a MIDI object gives a sound MIDI file: its resolution, one clock track with each tempo (unchanged if it was read from a file), meter "
     "(4/4 if none at the start), key and lyric, and a track for each instrument with its name, program and every note, controller and bend, each "
     "at the tick nearest to its time; drums and only drums on the drum channel, a key's end before it is struck again, and the object is "
     "left as it was. Saving one track writes its program, name, drum flag and every note at the tempo and resolution asked for; refused saves "
     "leave no file.",
     ["inputs"], "all objects read from files or built event by event, any number of instruments, tempo maps, names and repeated notes; all tracks saved",
     "Tests serialize one file and compare counts.",
     [CPM, SEQ, "neural_graph_composer/midi/callbacks.py"],
     [("serialization", CPM + ":serialize"), ("saving a track", SEQ + ":to_midi_file"), ("default save", "neural_graph_composer/midi/callbacks.py:save_midi_callback")],
     ["every message of the returned file", "every message of the saved file"],
     T + "differential monitor over all messages of the file", TRUST + "mido, used to read saved files, is trusted.",
     [("_tick_scales", "tempo map", CPM)])

prop("C30", "Onsets, piano rolls, chroma, pitch classes and tempo estimates count every note",
     "For every MIDI object, onsets, end time, piano roll, chroma, pitch class histogram and transition matrix are exactly those of its notes, drums "
     "left out where they have no pitch, normalized ones sum to one or are all zero; tempo estimates are the clusters of the intervals between onsets with "
     "their shares, likeliest first; the first beat is the onset whose beats gather the most velocity; the sound is silent where nothing "
     "sounds and peaks at one. Asking changes nothing; removing invalid notes removes exactly those.",
     ["inputs"], "all objects read from files or built note by note, sampling rates, thresholds and interval patterns",
     "No test looks at any of these.",
     [CPM], [("piano roll", CPM + ":get_piano_roll"), ("chroma", CPM + ":get_chroma"), ("transitions", CPM + ":get_pitch_class_transition_matrix"),
             ("tempo estimate", CPM + ":estimate_tempi"), ("first beat", CPM + ":estimate_beat_start"), ("sound", CPM + ":synthesize")],
     ["returned arrays"],
     T + "differential monitor recomputing each array note by note", TRUST + "Sustain pedals and bends in piano rolls are not judged.")

SH = "ngc_shared.py"

prop("C31", "Training can stop and go on: checkpoints and metrics come back as saved",
     "Reported train, validation and test metrics are kept in order and saved at the epochs of the saving rate; each metrics file holds the metrics it is "
     "named after. Loading restores the model and optimizer of the latest epoch of that model only, whatever order they were saved in, the next epoch to "
     "run, and the metrics as last saved; without a checkpoint nothing changes. A split puts every item in exactly one part at the ratio, removing nodes keeps "
     "exactly the edges between the nodes left and renumbers them, and plots draw each metric once at its epochs.",
     ["histories", "inputs"], "all histories of reports, saves of several models, restarts, splits, removals and plots; all saving rates and epoch numbers",
     "No test covers the trainer.",
     [SH], [("checkpoint loading", SH + ":Experiments.load_checkpoint"), ("metrics", SH + ":Experiments.update_metrics"),
            ("test metrics", SH + ":Experiments.update_test_metric"), ("splits", SH + ":Experiments.split"), ("removal", SH + ":Experiments.remove_nodes_and_edges")],
     ["files written", "model, optimizer and metrics after a load", "returned graph", "curves drawn"],
     T + "history monitor: recorded reports and saves against the restored state", TRUST + "scikit-learn, used for one plot only, is replaced by a stand-in.",
     [("train_losses and the other lists", "metrics reported so far", SH)])

prop("C32", "Velocities, tolerance, onset groups and numbering of the graph builder are exact",
     "Rescaled velocities keep their order and fill exactly the range asked for, equal ones become its lowest; relative scaling multiplies each velocity and "
     "stays within 0 to 127. The tolerance of a track is the given percentile of the gaps between successive onsets, zero for drums and fewer than two gaps. "
     "Grouping by onset puts every sounding melodic note in exactly one group, notes struck together in one, groups in play order, onsets farther apart "
     "than the tolerance in different ones, and reports the largest size; filtering leaves out only groups of one note. One-hot rows hold a single one at their "
     "index, and the hash mapper numbers hashes both ways in order of first arrival, also over merges. Nothing given to them changes.",
     ["inputs", "histories"], "all velocity lists and ranges, tracks, tolerances and percentiles, index lists, histories of additions and merges",
     "No test calls these helpers except indirectly through whole builds.",
     [GB, DS, UTILS], [("velocities", GB + ":rescale_velocities"), ("tolerance", GB + ":compute_tolerance"), ("groups", GB + ":compute_data"),
                  ("numbering", DS + ":NodeHashIndexMapper"), ("rows", UTILS + ":np_onehot")],
     ["returned values", "arguments after the call"],
     T + "differential monitor with a plain recomputation and list models", TRUST)
