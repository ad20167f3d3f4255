import json
MID='neural_graph_composer/midi/'
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if observe: a["observe_at"]=[observe]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
NOTE=MID+'midi_note.py'; SEQ=MID+'midi_sequence.py'; SEQS=MID+'midi_sequences.py'; TS=MID+'midi_time_signature.py'
KEY=MID+'midi_key_signature.py'; CC=MID+'midi_control_change.py'; PB=MID+'midi_pitch_bend.py'; INS=MID+'midi_instruments.py'
SD=MID+'sorted_dict.py'; SID=MID+'sorted_interval_dict.py'; IV=MID+'Interval.py'; SC=MID+'midi_scales.py'
GB='neural_graph_composer/midi_graph_builder.py'; RD='neural_graph_composer/midi_reader.py'; CP='neural_graph_composer/custom_pretty_midi.py'
DS='neural_graph_composer/midi_dataset.py'; TR='neural_graph_composer/transforms.py'; UT='neural_graph_composer/utils.py'
p('N01','A note always has a valid pitch, velocity, program, instrument and length',
 'However a note is created (from its values, from a note name, from a document, or as a copy), its pitch, velocity and instrument number lie in 0..127 and its program in 0..255: a value outside its range becomes the nearest bound and a value inside it is kept unchanged. A note whose end is not after its start, whose meter numerator is not a positive integer or whose meter denominator is not a positive power of two is refused. Setting the pitch or the program of an existing note outside its range is refused and leaves the note as it was.',
 ['inputs'],'all integer pitches, velocities, programs, instruments, meters and all real start and end times','tests construct a handful of in-range notes and one or two out-of-range ones; the clamp must hold for every integer and on every construction path',
 [NOTE],[('constructor clamps and refuses','MidiNote.__init__'),('named construction','MidiNote.from_name'),('document construction','MidiNote.from_json, MidiNoteJSONDecoder'),('setters','MidiNote.pitch, MidiNote.program')],'public attributes of the note')
p('N02','Editing the times of a note keeps it non-empty and changes nothing else',
 'Setting the start or the end of a note either refuses and changes nothing, or sets exactly that time and leaves a non-negative time with the start before the end; it is refused exactly when the new time is negative or would make the note empty. Shifting a note adds the offset to both times, stretching multiplies both times by the factor, and its duration is always end minus start. Setting a quantized step to a negative value is refused and changes nothing, any other value is stored.',
 ['inputs'],'all notes, all real new times, offsets and factors','tests set one or two values; the guard must hold for every order of bounds including equal times and zero',
 [NOTE],[('time setters','MidiNote.start_time, MidiNote.end_time'),('shift and stretch','MidiNote.shift_time, MidiNote.stretch'),('step setters','MidiNote.quantized_start_step, MidiNote.quantized_end_step')])
p('N03','A copy of a note carries every attribute and quantizing a copy spares the note',
 'A copy of a note equals the note in pitch, times, program, instrument, velocity, quantized steps, voice, meter and drum flag, except for quantized steps the caller overrides. Quantizing a note to a new note leaves the original unchanged, and the new note keeps pitch, velocity, program, instrument, voice, meter and drum flag. A note read from a document has every value of the document, with steps -1, voice 0, meter 4/4 and no drum flag when those are absent.',
 ['inputs'],'all valid notes, all overrides including 0','tests compare a few attributes of a few notes; a forgotten or swapped attribute shows only for notes whose other attributes differ',
 [NOTE],[('copy','MidiNote.make_copy'),('quantized copy','MidiNote.quantize'),('document','MidiNote.from_json, MidiNoteJSONDecoder.object_hook')])
p('N04','Quantization puts a note on the step grid and never empties it',
 'Quantizing a not yet quantized note with 0 <= start < end by a positive whole number of steps per second and an amount a in (0, 1] gives start step max(0, floor(start*sps + 1 - a)) and end step ceil(end*sps + 1 - a). The start step is below the end step, the note counts as quantized, and its times still satisfy 0 <= start < end. A non-positive steps-per-second or amount is refused.',
 ['inputs'],'all notes with 0 <= start < end, all positive integer resolutions, all amounts in (0,1]','tests quantize a few notes at sps 1, 2, 4; rounding and the two time-assignment branches depend on where start and end fall on the grid',
 [NOTE],[('nearest step','MidiNote.quantize_to_nearest_step'),('in-place quantization','MidiNote.quantize_in_place')])
p('N05','Note equality, order and overlap are coherent relations',
 'Two notes are equal exactly when all their attributes are (times within 1e-9), and equality is reflexive and symmetric. The strict order compares start, then end, then pitch, taking times within one microsecond as equal; it is never true both ways, nor of a note and itself. Two notes overlap exactly when each starts before the other ends, and overlap is symmetric.',
 ['inputs'],'all pairs of notes with start < end','tests probe a few pairs; the relations must hold for every relative position of two notes, including shared boundaries',
 [NOTE],[('equality','MidiNote.__eq__'),('order','MidiNote.__lt__'),('overlap','MidiNote.overlaps')])
p('S01','The total time of a sequence follows its notes through every edit',
 'After assigning the notes, inserting a note, merging, stretching or cutting in place, the total time of a sequence is the latest end of its notes, 0 if it has none; after appending, extending or adding notes it is the larger of the previous total time and the latest end added; after a time shift it has moved by the offset, but not below 0. Building a sequence from a list of notes sets it likewise. The end time reported relative to the last event is always the latest end of the current notes plus the given offset.',
 ['histories','inputs'],'all sequences of edits on a sequence of notes of any length','tests perform single edits on two or three notes; stale or partial totals appear after combinations of edits and for notes not in end order',
 [SEQ],[('total time','MidiNoteSequence.total_time'),('edits','MidiNoteSequence.append/extend/add_note/insert/merge/cut_in_place/stretch/shift_times/notes'),('last event','MidiNoteSequence.truncate_to_last_event')])
p('S02','Inserting and merging keep every note and keep the notes in order',
 'Inserting a note in a sequence whose notes are in order gives the same notes plus that one, in order. Merging two sequences of the same instrument and resolution gives exactly the notes of both, each as often as it occurred, in order, and leaves the merged-in sequence unchanged. Merging with a sequence of another instrument or resolution, or with notes that belong to another instrument, is refused and leaves both sequences unchanged. The sum of two sequences of the same instrument holds the notes of the first and then those of the second, its total time is its latest end, another instrument or foreign notes are refused, and neither sequence is changed.',
 ['inputs','histories'],'all sequences of any length whose start and end times are pairwise equal or more than one microsecond apart','tests merge two short sequences; loss, duplication or disorder depends on ties and on interleaving',
 [SEQ],[('insert','MidiNoteSequence.insert'),('merge','MidiNoteSequence.merge'),('instrument check','MidiNoteSequence.validate_instrument'),('sum','MidiNoteSequence.__add__')])
p('S03','Windows of a sequence hold exactly the notes of the window',
 'A slice over [start, end) holds a copy of exactly the notes that start inside it, in order, each cut to end no later than the end of the window, and its total time is the smaller of the total time and the end of the window. Truncation at a time holds copies of exactly the notes that end by then; a cut holds the first notes up to the given count. None of them changes the notes of the sequence they are taken from.',
 ['inputs'],'all sequences, all windows and counts','tests slice one or two fixed windows; boundary notes and notes crossing the window edge decide',
 [SEQ],[('slice','MidiNoteSequence.slice'),('truncate','MidiNoteSequence.truncate'),('cut','MidiNoteSequence.cut, cut_in_place')])
p('S04','Shifting and stretching a sequence move each of its notes exactly once',
 'Shifting a not yet quantized sequence by an offset adds the offset to the start and end of every note, once per note, and stretching by a factor multiplies them; number, order, pitch, velocity and all other attributes of the notes are unchanged. Shifting a fully quantized sequence is refused and changes nothing.',
 ['inputs'],'all sequences of distinct note objects of any length, all real offsets and factors','tests shift a fixed short sequence; a skipped first or last note or a note moved twice needs other lengths',
 [SEQ],[('shift','MidiNoteSequence.shift_times'),('stretch','MidiNoteSequence.stretch'),('quantized','MidiNoteSequence.is_quantized')])
p('S05','Quantizing a sequence quantizes every note and control change',
 'After quantizing a sequence every note is quantized as it would be alone, in the same order, every control change is quantized as it would be alone, and the sequence reports itself quantized. The reported total number of steps is the largest end step of its notes (or the previous total when that is larger), and the note objects held before are unchanged. A sequence counts as quantized exactly when all of its notes do.',
 ['inputs'],'all sequences of notes with 0 <= start < end, positive integer resolutions up to 32, amounts in (0,1]','tests quantize fixed examples; the totals and the control changes are not checked at all',
 [SEQ,NOTE,CC],[('quantize','MidiNoteSequence.quantize'),('is quantized','MidiNoteSequence.is_quantized'),('total steps','MidiNoteSequence.total_quantized_steps')])
p('S06','A clone of a sequence is complete and independent',
 'A clone holds equal copies of the notes, drum events, control changes and pitch bends of the sequence, in order, with the same instrument, resolution, total time, ticks per quarter and step counts; an empty clone has the same settings and no events. Later changes of the events of either sequence never show in the other.',
 ['inputs','histories'],'all sequences, drum and non-drum, all later edits','tests clone one sequence of notes; shared lists or forgotten event kinds show only after later edits or for drum tracks',
 [SEQ],[('clone','MidiNoteSequence.clone'),('empty clone','MidiNoteSequence.clone_empty')])
p('S07','Extracting and splitting put every note into the part in which it starts',
 'Extracting a sequence, not all of whose notes are quantized, by ascending times t0..tk gives k new sequences: the i-th holds a copy of exactly the notes that start in [ti, ti+1), in order of their start, moved back by ti and cut to end no later than the window does; its total time is its latest end, 0 if it has no notes. Fewer than two times, times that descend, and a time other than the last that is not before the total time are refused, and so is a sequence whose notes are all quantized. Splitting by a list of times before the total time, or by a window length, extracts by 0, those times in ascending order (for a length: its multiples before the total time) and the total time if it comes after them; on request the times over which a note is sounding are left out. Neither changes the sequence.',
 ['inputs'],'all sequences with 0 <= start < end, all lists of times, all window lengths > 0, with times and lengths of exact arithmetic','no test extracts or splits a sequence (every call used to raise); which part a note belongs to depends on ties with the times',
 [SEQ],[('extract','MidiNoteSequence.extract'),('split','MidiNoteSequence.split'),('times','MidiNoteSequence.compute_intervals')])
p('T01','Signature time lines stay ordered and keep arrival order among equals',
 'After adding time, key or tempo signatures in any order, each time line is in order of time and contains every signature added, except that a signature within one microsecond of the first entry replaces that entry. Signatures added at the same later time appear in the order in which they were added.',
 ['histories'],'all finite histories of additions whose times are pairwise equal or more than one microsecond apart','tests add two or three signatures; order, loss and ties depend on the whole history',
 [SEQS,TS,KEY],[('add','MidiNoteSequences.add_time_signatures/add_key_signatures/add_tempo_signature'),('order','MidiTimeSignature.__lt__, MidiKeySignature.__lt__, MidiTempoSignature.__lt__')])
p('T02','A signature lookup returns the last signature at or before the given time',
 'For a time t >= 0 the time, key and tempo lookups return the meter, mode and key, and quarter notes per minute and resolution of the last signature at or before t in an ordered time line; before the first meter or without any it is 4/4, and without a key at or before t it is (0, 0). The answers always reflect the signatures added so far, however often and at whatever times lookups were made before. The initial tempo is the tempo at time 0 if there is one, otherwise the first tempo.',
 ['histories','inputs'],'all time lines, all non-negative times, all interleavings of additions and lookups','tests look up a few times once; remembered answers go stale only when additions and lookups alternate',
 [SEQS],[('lookups','MidiNoteSequences.time_signature/key_signature/tempo_signature'),('remembered answers','functools.cache and cache_clear'),('initial tempo','MidiNoteSequences.initial_tempo')])
p('T03','Bounded enumeration yields exactly the signatures up to the bound, in order',
 'Enumerating time, key or tempo signatures up to a bound yields, in order of time, each signature of the time line whose time is at most the bound exactly once and no other; without a bound it yields all of them. The enumeration does not change the time line.',
 ['inputs'],'all time lines and bounds, bounds equal to a signature time included','tests enumerate short fixed lists',
 [SEQS],[('enumeration','MidiNoteSequences.slice_time_signatures/slice_key_signatures/slice_tempo_signature')])
p('T04','Tempo and meter arithmetic agree with each other',
 'A tempo of q quarter notes per minute at resolution r has 60/q seconds per quarter note and 60/(q*r) seconds per tick; its beats per minute are q/4, and setting the beats per minute changes q to match; m microseconds per quarter note are 60000000/m quarter notes per minute. A tempo that is not positive, a resolution that is not positive, a meter whose parts are not positive integers or whose denominator is not a power of two, and a mode other than major (0) or minor (1) are refused.',
 ['inputs'],'all positive tempi, resolutions and meters','tests check one or two tempi',
 [TS,KEY],[('tempo','MidiTempoSignature.seconds_per_tick/seconds_per_quarter/bpm/tempo_to_qpm'),('meter','MidiTimeSignature.__init__'),('mode','MidiKeySignature.major_or_minor')])
p('R01','Creating, fetching and assigning tracks never disturbs another track',
 'Creating, fetching, indexing and assigning tracks behave as one map from track numbers to sequences: a track number that is present keeps its sequence until it is assigned, a new one gets a new empty sequence with the given instrument, and creating a present track again returns it unchanged. No operation on one track number replaces, removes or alters the sequence of another. Track numbers outside 0..127 are refused when indexing, assigning and fetching, and programs outside 0..127 when creating, without any change.',
 ['histories'],'all finite histories of create, fetch, index and assign','tests make one or two calls; clobbering needs particular orders of calls and numbers',
 [SEQS],[('registry','MidiNoteSequences.create_track/get_track/__getitem__/__setitem__'),('index map','_track_to_idx')])
p('R02','A collection built from sequences keeps every note under its instrument',
 'A collection built from a list of sequences has one track per instrument number, holding exactly the notes of all sequences of that instrument (of equal instrument and resolution), in order when they were merged. The number of tracks and of distinct instruments are reported accordingly, and a later use of a track number continues that track. Arguments of a wrong kind are refused.',
 ['inputs'],'all lists of sequences of any length and instruments','tests use two sequences',
 [SEQS,SEQ],[('constructor','MidiNoteSequences.__init__, _add_midi_note_sequence'),('merge','MidiNoteSequence.merge'),('counts','num_track, num_instruments, __len__')])
p('R03','Collection-wide views agree with the tracks',
 'The list of all events of a collection holds exactly the notes of all tracks, each once, in order of start time. The collection counts as quantized exactly when every track does; iteration, instruments and lengths list the tracks in increasing track number.',
 ['inputs'],'all collections of any number of tracks and notes','tests view collections of one or two tracks',
 [SEQS],[('events','MidiNoteSequences.get_all_sequence_events'),('quantized','MidiNoteSequences.is_quantized'),('iteration','__iter__, instruments, instrument_midi_seq_len')])
p('D01','The sorted dictionary is a map whose keys are always in increasing order',
 'Through every history of setting, deleting, popping, updating, clearing, copying and pickling, the sorted dictionary contains exactly the keys and values a plain dictionary would, and iteration, keys, values, items and reversed order list them by increasing (decreasing) key, each once. Popping the last or first item removes the largest or smallest key. A missing key raises a key error and changes nothing.',
 ['histories'],'all finite histories of operations over comparable keys','tests set and delete a few keys; the separate key list and the dictionary drift apart only after particular histories',
 [SD],[('dictionary','SortedDict')])
p('D02','The interval dictionary is a map whose slices are exactly the overlapping keys',
 'The sorted interval dictionary maps each interval to the last value set for it, lists the intervals in increasing order, and counts and deletes them as a plain map does. Slicing by bounds gives a new dictionary with exactly the entries whose interval overlaps the bounds, an absent bound being unbounded; deleting a slice of positions removes exactly those entries. Keys of any other kind are refused.',
 ['histories','inputs'],'all histories over intervals, all bounds','tests use three intervals and one slice',
 [SID,SD,IV],[('dictionary','SortedIntervalDict')])
p('D03','Interval relations are those of closed intervals',
 'A point is in an interval exactly when it is between its ends, inclusively; two intervals overlap exactly when they share a point; their intersection contains exactly the shared points, and is absent when there are none; their union is the smallest interval covering both. Equality and hash agree, and the order is a strict total order by start, then end.',
 ['inputs'],'all pairs and triples of intervals with start <= end','tests check a few fixed intervals; touching, nested and equal intervals are the cases that matter',
 [IV],[('interval','Interval.overlaps/intersection/union/__contains__/__lt__/__le__/__eq__/__hash__')])
p('C01','Control changes stay in range, copy completely and quantize to one step',
 'A control change has number, value, program and instrument in 0..255, a non-negative time and a step size in 1..32: out-of-range values become the nearest bound, others are kept. A copy equals it except for overridden time or steps, and quantizing to a new one leaves the original unchanged. Quantizing at a resolution of 1 to 32 steps per second with an amount in (0,1] puts it on the whole step floor(time*sps + 1 - amount), one step long; control changes are ordered by time, ties by sequence number.',
 ['inputs'],'all integer fields, all real times','tests construct a few; quantization of control changes is not tested',
 [CC],[('construction','MidiControlChange.__init__'),('copy','make_copy'),('quantize','quantize, quantize_in_place'),('order','__lt__, __eq__')])
p('P01','Pitch bends outside the valid ranges are refused',
 'A pitch bend has an amount in -8192..8191, a program and an instrument in 0..127 and a non-negative time, at construction and after setting program, instrument or time; any other value is refused, and a refused change leaves the pitch bend as it was. Accepted values are stored unchanged, and start and end of the event are its time. Two pitch bends are equal exactly when amount, program, instrument, time and drum flag are.',
 ['inputs'],'all integers and all real times','no test exercises pitch bends beyond construction',
 [PB],[('pitch bend','MidiPitchBend')])
p('I01','Instrument descriptions are valid, comparable and survive a round trip',
 'An instrument number lies in 0..255, anything else is refused, as are names that are not text and drum flags that are not Boolean. Two descriptions are equal exactly when number, name and drum flag are, equal ones have equal hashes, and order is by number. Converting to a dictionary and back gives an equal description; an unnamed instrument gets the family name of its number, or a fixed name when there is none.',
 ['inputs'],'all integers, names and flags','tests check a few values',
 [INS],[('instrument','MidiInstrumentInfo')])
p('G01','Grouping notes in time loses no audible note, keeps simultaneous ones together',
 'Grouping the notes of a sequence puts every note that is neither silent nor a drum note into exactly one group, and no other note into any; notes with the same start are in the same group, and notes of one group start within the tolerance plus a hundredth of a second of each other. The reported longest group is the largest group size before single-note groups are left out, and leaving them out removes exactly the groups of one note.',
 ['inputs'],'all sequences of notes with non-negative starts, all tolerances in [0,1], fixed or computed','tests group a few notes at one tolerance; rounding to the grid and group membership depend on all start times together',
 [GB],[('grouping','MidiGraphBuilder.compute_data'),('tolerance','MidiGraphBuilder.compute_tolerance')])
p('G02','Each step from one chord to the next adds exactly one to one link',
 'The graph of a sequence has one node per distinct set of pitches played together, and playing the groups in order of time adds exactly 1.0 to the weight of one link per group: a self link for the first, and for each later group the link between it and the previous one, reusing the link in the opposite direction if there is one and creating a link from the earlier to the later otherwise. So the weights add up to the number of groups and nothing else links nodes. Groups larger than the feature size are played as consecutive disjoint parts of at most that size.',
 ['inputs'],'all sequences of notes of any length, all tolerances and feature sizes','tests build graphs of a few chords; weights depend on revisits, direction reversals and repeated chords over the whole piece',
 [GB],[('transitions','MidiGraphBuilder.build_sequence')])
p('G03','Node numbers are a one-to-one numbering and every graph built is emitted',
 'Across all graphs a builder has built, each distinct set of pitches has exactly one number, the numbers are 1 to the count of sets, and the tables from sets to hashes to numbers and back are inverse to each other. Emitting the graphs yields each graph built exactly once, in the order built, with labels and targets that are the numbers of its nodes in node order. Later builds never change a number given before.',
 ['histories'],'all histories of builds and emissions on one builder','tests check one build; renumbering or a lost graph appears over several builds',
 [GB],[('tables','_notes_to_hash, _hash_to_notes, _hash_to_index, _index_to_hash'),('emission','MidiGraphBuilder.graphs')])
p('G04','Node features list the pitches of the node, padded with zeros',
 'The feature vector of a node lists the pitches of its set, each once, followed by zeros up to the requested size, and never more pitches than the size. With velocities there is a second row of the same size holding the velocities of those pitches in the same positions, followed by zeros; in one-hot form there is one row per pitch with a single one at that pitch.',
 ['inputs'],'all pitch sets, velocities and feature sizes','tests look at one or two tensors; padding, truncation and alignment depend on the sizes',
 [GB],[('features','MidiGraphBuilder.create_tensor'),('velocities','MidiGraphBuilder.build_sequence')])
p('G05','A build covers every melodic track, one graph each or one for all',
 'Building per instrument gives one graph for each track that is not a drum track and has more than one note (and at least one audible note), in track order, equal to the graph of that track alone. Building combined gives one graph containing the nodes and links of all those tracks, the first chord of a track being linked to the last node present. Drum tracks and single-note tracks contribute nothing.',
 ['inputs'],'all collections of tracks of any number and size','tests build one or two tracks',
 [GB],[('build','MidiGraphBuilder.build')])
p('G06','Graph data for learning mirrors the graph it is made from',
 'Converting a graph to learning data keeps the number of nodes and links: link i joins the nodes at the positions of its ends in node order and carries its weight, and row j of the features is the feature vector of node j. An undirected graph yields each link in both directions. Graphs whose nodes or links do not all have the same attributes are refused.',
 ['inputs'],'all graphs with numeric weights and features of equal size','tests convert a few tiny graphs',
 [GB],[('conversion','MidiGraphBuilder.from_midi_networkx')])
p('G07','Graph queries by notes agree with the links of the graph',
 'For a graph built from notes, asking whether two chords are connected, for the link between two chords and for the neighbours of a chord (given as pitches or as notes) answers exactly as the links of the graph do. Merging nodes of an undirected graph gives one new node linked, with the same link data, to exactly the outside neighbours of the merged nodes, and removes these.',
 ['inputs'],'all built graphs and all chord arguments','tests query a few edges',
 [GB],[('queries','MidiGraphBuilder.neighbors/is_connected/get_edge_connected'),('merge','MidiGraphBuilder.merge_nodes')])
p('V01','Rescaled velocities stay in range, keep their order and reach both ends',
 'Rescaling velocities in 0..127 returns as many whole numbers, within the target range, in the same relative order, the smallest becoming the target minimum and the largest the target maximum when they differ; a single velocity v becomes the rounded value of v scaled linearly from 0..127 to the target range, and no velocities give none. Scaling by a non-negative factor multiplies each velocity, limited to 0..127 and cut to a whole number.',
 ['inputs'],'all lists of velocities of any length, all target ranges inside 0..127','tests rescale one or two lists; equal, zero and extreme values decide',
 [GB],[('rescale','MidiGraphBuilder.rescale_velocities'),('scale','MidiGraphBuilder.scale_relative_velocities')])
p('M01','Scales and chords contain exactly the intervals of their definition',
 'The notes of a scale on any root, given as pitch class or name in either case, are the root shifted by the intervals of the scale, in increasing order starting at the root. The pitches of a chord made of intervals up to an octave are the root shifted by each interval modulo twelve, in order, whether the intervals are given by name or as values. A chord looked up by its semitone steps is one whose steps are exactly those, and an unknown step list has no chord; unknown roots, scales and argument kinds are refused.',
 ['inputs'],'all roots, scales, chord types and interval lists','tests check C and D only; all twelve roots and all scales must agree',
 [SC],[('scale','MusicTheory.notes_from_scale, intervals_from_scale'),('chord','MusicTheory.chord_pitch_from_interval'),('names','MusicTheory.get_chord_name, get_chord_name_from_intervals')])
p('M02','Interval and pitch arithmetic is consistent',
 'Splitting a non-negative interval into its size within the octave and its octave and composing them again gives the interval, in both directions, with sizes 0..11; negative parts and sizes above 11 are refused. The name of a pitch is the name of its pitch class followed by its octave number. The frequency of a note doubles every twelve semitones and is 440 for A4, also when given by name and octave.',
 ['inputs'],'all integers','tests check a few values',
 [SC,NOTE],[('compound intervals','MusicTheory.compound_interval_to_base/base_to_compound_interval'),('pitch names','MusicTheory.pitch_to_note'),('frequency','MidiNote.note_to_freq, MidiNote.pitch_to_freq')])
p('X01','Training, validation and test masks partition the nodes of every graph',
 'In a processed data set every graph has three masks over its nodes such that each node is in exactly one of them, with the training and validation masks holding the whole part of their ratio of the nodes and the test mask the rest.',
 ['inputs'],'all graphs, all ratios with sum at most 1','no test processes a data set; the sizes depend on rounding for each node count and ratio',
 [DS],[('masks','MidiDataset._mask_per_instrument, _mask_entire_graph')])
p('X02','The hash index numbers hashes consecutively and consistently',
 'The index mapper gives each new hash the next whole number from 0, keeps the number of a known hash, and its two directions are inverse; merging another mapper adds exactly its unknown hashes, in its order, and keeps all numbers given before.',
 ['histories'],'all histories of additions and merges','not tested at all',
 [DS],[('mapper','NodeHashIndexMapper')])
p('X03','Graph transforms keep the data well formed',
 'Dropping random nodes keeps the features, targets and masks of exactly the kept nodes, in order, and exactly the links among kept nodes with their weights, renumbered to the kept nodes; dropping random links keeps nodes unchanged and a subset of the links each with its own weight. Adding degrees appends to the features of each node the number of links that start at it and changes nothing else.',
 ['inputs'],'all graphs, drop ratios in [0,1] and random choices','no test runs the transforms',
 [TR],[('node drop','RandomNodeDrop'),('link drop','RandomEdgeDrop'),('degree','AddDegreeTransform')])
p('F01','Reading a file keeps every event and maps key, meter and tempo faithfully',
 'Reading a MIDI file gives one track per instrument of the file, in file order, holding every note that is not of zero length with its pitch, velocity, start, end, drum flag, program and the meter in force, and every pitch bend and control change of that instrument with its value and time. Key signatures keep their time, key (number modulo 12) and mode (major below 12, minor from 12), meters their parts and time, and tempi their time and rate; without an entry at time 0 each of the three starts with the default (C major, 4/4, 120). The total time is the latest note end.',
 ['inputs'],'all decoded files: any number of instruments, events and signatures','tests read two sample files and check counts',
 [RD],[('reader','MidiReader.read and read_* helpers')])
p('F02','Writing never overwrites unasked and what is written reads back the same',
 'Writing to an existing file without permission is refused and leaves the file unchanged; an argument that is not a collection, an empty name, negative bounds or bounds in the wrong order are refused before any file is touched. A written collection in which notes of equal pitch do not overlap within a track reads back with the same tracks: instrument programs and drum flags, every note with its pitch, velocity, start and end (a note still sounding when a later one of its track starts ends there), every pitch bend and control change before the last note end, and the same meters, keys and tempo changes up to it, all times within one tick.',
 ['inputs'],'all collections with valid events, all tempo maps, all file states','tests write one file; tempo maps, several tracks and refused writes are not covered',
 [RD,CP],[('write','MidiReader.write, MidiReader.to_pretty_midi')])
p('Q01','Ticks and seconds convert consistently under every tempo map',
 'For every tempo map the time of tick 0 is 0, each further tick lasts 60/(tempo*resolution) seconds at the tempo in force at that tick, so tick times strictly increase; converting the time of a tick back gives that tick. The listed tempo changes are the ones of the map, at the times of their ticks.',
 ['inputs'],'all resolutions and tempo maps in increasing tick order','tests use files with one tempo',
 [CP],[('conversion','CustomPrettyMIDI.tick_to_time/time_to_tick/_update_tick_to_time/update_scale/get_tempo_changes')])
p('X04','A processed data set holds every graph of every file',
 'A data set made per instrument holds one graph for each melodic track of each file, in file and track order; a combined one holds one graph per file. Each has the nodes, features, links and weights that the graph builder gives for the file, targets that name the note sets of its nodes, and complete, mutually inverse tables of note sets, hashes and numbers. Graphs refused by the filter are left out, others are transformed once, and opening the data set again gives the same graphs.',
 ['inputs','histories'],'all lists of decodable files with at least one melodic track, both kinds of data set, all filters and transforms','no test processes a data set',
 [DS,GB],[('processing','MidiDataset.process, _mask_per_instrument, _mask_entire_graph'),('loading','MidiDataset.load_processed')])
if __name__=='__main__':
    with open(__import__('os').path.join(__import__('os').path.dirname(__import__('os').path.dirname(__import__('os').path.abspath(__file__))),'properties.jsonl'),'w') as f:
        for x in P: f.write(json.dumps(x)+'\n')
    print(len(P))
