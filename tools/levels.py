import json
import os; p=os.path.join(os.path.dirname(os.path.abspath(__file__)),"levels.json")
lv={"*":{"level":"exploration","technique":"executable contracts run on the real code (bounded)","note":"bounded: contracts executed on generated inputs; no obligation of this property is proved"}}
T="contract-based deductive verification of the real source (pyvc: symbolic execution of the functions extracted on every run, z3/cvc5); the same contracts executed on the real code as a cross-check"
A="Assumes real arithmetic for floats, mathematical integers, the library contracts listed in the evidence. "
def P(ids,note): 
    for i in ids.split(): lv[i]=dict(level="proof",technique=T,note=note+" "+A)
P("N01 N02 N03 N04 N05","Every obligation of the note contracts is discharged for all field values.")
P("C01 P01","Every obligation is discharged for all field values.")
P("I01 T04 D03","Every obligation is discharged for all contents, of any size.")
P("M02","Every obligation is discharged for all intervals and pitches.")
P("M01","Scales, names, lookups and chord pitches discharged for every root, scale, step list and list of intervals of any length (chord pitches also unrolled up to two intervals with named roots and frozen sets, labelled bounded); the refusals for a few texts and kinds (labelled bounded).")
P("S01 S02 S03 S04 S05 S06","Every obligation is discharged for sequences of any length. Times of two events are taken to be equal or more than a microsecond apart; at the level of the sequence, quantization is of notes not quantized before.")
P("S07","Extraction discharged for any number of notes but at most three windows, splitting for up to two notes and two inner times (both labelled bounded); the refusals for any number of notes.")
P("T01 T02 T03","Every obligation is discharged for time lines of any length; in T02 the line after an addition is the one T01's contract describes.")
P("D01","Get, set, delete, iteration, order and len discharged for dictionaries of any size; building, update and copy set every entry once, for any number of entries (setting by its contract; also unrolled for up to two, labelled bounded).")
P("X02","Additions, lookups and merging discharged for mappers of any size (merging: by the invariant of its loop over the hashes of the other); the end-to-end state after merging and the constructor with other mappers also unrolled for up to two hashes (labelled bounded).")
P("R01","Every operation discharged for registries of any size and any track numbers.")
P("R02","The step of the construction and its loop (every given sequence once) discharged for any number of sequences; the constructor end to end only with up to three sequences (labelled bounded).")
P("R03","Counts and lookups discharged for registries of any size; the list of all events for any number of tracks by the invariant of its loop (and also unrolled up to three tracks, labelled bounded).")
P("D02","Operations, views, slices, deleting of positions and construction discharged for dictionaries of any size (setting and deleting one entry by contract; steps of slices and the end-to-end state also for up to three entries, labelled bounded).")
P("V01","Every operation discharged for any number of velocities.")
P("Q01","Tempo maps of any number of tempi and all ticks discharged; that times increase over many ticks follows by induction (a meta-argument) from the discharged step.")
P("G01","Grouping discharged for sequences of any number of notes, by a loop invariant over the groups; tolerance read off the code.")
P("G02","Numbering discharged for builders with any content and recordings of any number of groups, by a loop invariant over the groups of build_sequence.")
P("G03","Edges, weights and node tables of build_sequence discharged for recordings of any number of groups (loop invariants over groups and windows), the graphs handed out (graphs()) for builders with any content and any number of graphs.")
P("G04","The velocities recorded by build_sequence discharged for recordings of any number of groups; the tensors (create_tensor) for any pitches, velocities, sizes and buckets.")
P("G05","The build discharged for collections of any number of tracks, by a loop invariant over the tracks; playing a track and making learning data by their contracts (G02, G03, G06).")
P("G06","Discharged for graphs of any number of nodes and links, by loop invariants over both; nodes and links that differ in their attributes do so in an attribute more, less or other.")
P("X03","Discharged for graphs of any number of nodes and links and every outcome of the random choices.")
P("X01","Masks discharged for data sets of any number of files and graphs and any ratios, through the constructor; reading and building files by contract.")
P("X04","Processing, filtering, transforming and the tables discharged for data sets of any number of files and graphs; storing and loading by the contract of the library; reading and building files by contract.")
P("G07","Queries and merging discharged for graphs of any number of nodes and links and merges of any number of nodes; the merged nodes are different and links between the same nodes have the same attributes.")
P("F01","From the decoded tracks of events to the collection discharged for any number of tracks, events and instruments: tempi, keys, meters, the notes, bends and control changes of each instrument, the tracks of the collection; parsing of bytes and summing of time steps (from_file, the library) only executed (labelled bounded). Notes are of equal ends or longer than two billionths of their end.")
lv["F02"]=dict(level="exploration",technique="contract-based deductive verification of the refusals and of the conversion (pyvc: symbolic execution of the extracted functions, z3/cvc5); the round trip through the library by executable contracts (bounded)",note="The refusals of write and the conversion to the library's objects are discharged for any arguments and collections; that what the library writes reads back the same is bounded: executed on generated collections. "+A)
json.dump(lv,open(p,"w"),indent=1)
