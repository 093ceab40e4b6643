"""What each property's check runs."""

def C(variant, *sources, **kw):
    return dict(kind="c", variant=variant, sources=list(sources), **kw)

def P(script, variant="py", **kw):
    return dict(kind="py", variant=variant, script=script, **kw)

CHECKS = {}

CHECKS["R01"] = dict(
    level="model_checking",
    parts=[C("asan", "triples.c", args=["--depth=3"], thorough_args=["--depth=4"]),
           C("asan-builtin", "triples.c", args=["--depth=3"], thorough_args=["--depth=4"])],
    bounds={"quick": "all 256 model states x all ops and 1000 query patterns; all histories of <=3 ops (both back ends)",
            "thorough": "all 256 model states x all ops and 1000 query patterns; all histories of <=4 ops (both back ends)"},
    assumptions=["alphabet of 8 quadruples and 1000 query patterns covers the match rules"],
)

def MC(*parts, **kw):
    return dict(dict(level="model_checking", parts=list(parts), assumptions=[]), **kw)

CHECKS["T01"] = MC(C("asan", "types.c", args=["--part=1"]),
    bounds=dict(quick="all type/size pairs; every prefix, deletion, substitution and insertion (26-letter alphabet) of every type name; all offsets < 48"))
CHECKS["T02"] = MC(C("asan", "types.c", args=["--part=2"]),
    bounds=dict(quick="~350 values over all printable types x 3 flag sets x 2 widths x every buffer size up to 70 x leading blanks"))
CHECKS["T03"] = MC(C("asan", "types.c", args=["--part=3"]),
    bounds=dict(quick="~350 source values x 20 destination types, exact-size guarded destinations"))
CHECKS["A02"] = MC(C("asan", "types.c", args=["--part=4"]),
    bounds=dict(quick="ranks 0-3, extents 0-3, all axis orders and paddings of source and destination, 7 type pairs",
                thorough="as quick with extents 0-4 and all axis orders for every type pair"))

CHECKS["S01"] = MC(C("asan", "roundtrip.c", args=["--part=1"]),
    bounds=dict(quick="23 property types x every alphabet value (scalar) and every shape of rank 1-3 with extents 0-3; 11 layouts x string/file/url (diagonal), read by no id/uuid/id, in place and in a separate process",
                thorough="as quick with the full product of values, layouts, media and ids"))
CHECKS["S02"] = MC(C("asan", "roundtrip.c", args=["--part=2"]),
    bounds=dict(quick="HDF5 and BSON x 23 property types x every alphabet value x 5 ids, and every shape of rank 1-3 with extents 0-3",
                thorough="as quick with every value offset for every shape"))
CHECKS["S03"] = MC(C("asan", "roundtrip.c", args=["--part=3"]),
    bounds=dict(quick="0-2 dimensions x 0-3 properties x 14 types x 9 shape expressions x 10 texts x 18 layouts/formats (every 4th layout for >1 property)",
                thorough="as quick with every layout"))

U = lambda part, **b: MC(C("asan", "utils.c", args=["--part=%d" % part]), bounds=b)
CHECKS["X01"] = U(1, quick="all sequences of <=5 tokens over 20 tokens (<=4 with other spacing), literal forms, chains to 200, every error buffer size",
                  thorough="all sequences of <=6 tokens over 20 tokens")
CHECKS["X02"] = U(2, quick="all patterns of <=5 characters over 10 x all strings of <=3 over 5; every byte in 11 pattern forms x every byte",
                  thorough="all patterns of <=6 x strings of <=4")
CHECKS["X03"] = U(3, quick="all strings of <=4 symbols over 12, all 1-2 byte strings, 3-4 bytes over classes; every buffer size; 8 quoting styles",
                  thorough="strings of <=5 symbols")
CHECKS["X04"] = U(4, quick="product of url component alphabets; all option strings of <=3 assignments; all strings of <=5 characters over 12 after 6 prefixes",
                  thorough="option strings of <=4, url strings of <=6")
CHECKS["X05"] = U(5, quick="all code points 0-10FFFF; all byte sequences <=6 over 19 class representatives; all \\u escapes of the BMP, every 7th pair beyond",
                  thorough="all surrogate pairs")
CHECKS["X09"] = U(9, quick="all lengths 0-300 x 6 digests x all two-way splits, three-way for short inputs", thorough="lengths to 600, all three-way splits below 300")
CHECKS["X11"] = U(11, quick="all pairs of ~700 versions; all strings of <=6 over 7 characters after 6 prefixes", thorough="strings of <=7")

ST = lambda part, **b: MC(C("asan", "stores.c", args=["--part=%d" % part]), bounds=b)
CHECKS["X06"] = ST(6, quick="all map histories of 5 set/remove operations over 6 keys (two with equal hashes); growth to 140 keys; all session histories of 4 over 24 operations, with and without re-entrant free functions",
                   thorough="map histories of 6, session histories of 5")
CHECKS["X07"] = ST(7, quick="all histories of 3 over 35 operations on 4 keys; stores of 0-80 keys saved and reloaded", thorough="histories of 4")
CHECKS["X10"] = ST(10, quick="all path histories of 3 over 54 operations, string list histories of 3 over 48; lookups over all ordered choices of <=3 of 5 directories x 6 patterns; all path strings of <=6 characters",
                   thorough="histories of 4, path strings of <=7")

CHECKS["E01"] = MC(C("asan", "errs.c"),
    bounds=dict(quick="all single blocks (13 try x 10 x 7 catch x 6 other x 4 else x 4 finally bodies x fall-through) x 5 override modes; 30 outer x 210 inner nested blocks x 5 modes; three levels of nesting; abort modes (process-ending programs sampled every 7th-211th); 30x30x3 message lengths; sequences of <=4 reports; 7 levels x 3 warning modes; all error codes",
                thorough="as quick with every process-ending program"))

CHECKS["X08"] = MC(C("asan", "gen.c"), 
    bounds=dict(quick="case conversion of all strings of <=5 over 7 letters x 10 modes x bounded/whole x appended; all template sequences of 3 over 37 tokens; conditionals: 27 conditions x 6 bodies x <=2 elif (27 each) x else, nested 5 x 5 x 8 forms; all strings of <=5 over 11 characters x 8 surroundings; 22 x 22 x 4 buffer piece lengths; listings over 3 x 4 x 5 x 3 x 23 metadata; generated C headers of 1-4 x 23 types x 7 name lengths compiled and compared with instance layout",
                thorough="template sequences of 4, strings of <=6"))

CHECKS["A01"] = MC(C("asan", "arrays.c"),
    bounds=dict(quick="rank 1: extents 0-5, all limits from beyond one end to beyond the other or absent, steps -4..4, each followed by every second slice; rank 2: extents 0-4 squared, 36 step pairs, all limits, then transposed and sliced again; ranks 0-4 (extents 0-3): all sequences of 3 (rank 4: 2) of 10 slices per dimension or transpose; reshape, copy, comparison and printing of each",
                thorough="rank 1 extents to 7, sequences of 4"))

CHECKS["I03"] = MC(C("asan", "resize.c"), bounds=dict(quick="13 element types x 12 shape expressions x 2 starting sizes, 1-3 properties per entity: every 2-step history over 57 operations (all resizes of both dimensions to -1..3, single resizes, assignments by name, index and array, 15 refused calls), plus every assign-containing 3-step history on a stride", thorough="the same with 6 starting sizes and every third 3-step history"))

CHECKS["I02"] = MC(C("asan", "life.c", args=["--depth=5"], thorough_args=["--depth=7"]), bounds=dict(quick="all states of the reference model reachable by at most 5 operations (4 instances of 2 metadata, reference properties, an instance store, a JSON file; at most 2 handles each), x all 100 operations", thorough="at most 7 operations"))
CHECKS["I04"] = MC(C("asan", "trans.c", args=["--depth=4"], thorough_args=["--depth=5"]), bounds=dict(quick="all histories of at most 4 operations over 19 (edits, resize, snapshot, freeze, get, push, pull, change of an ancestor in memory, set parent, continuing from a copy or from a JSON or BSON copy) on a transaction of up to 6 snapshots with a JSON storage", thorough="the same with at most 5 operations"))
CHECKS["I05"] = MC(C("asan", "hash.c"), bounds=dict(quick="every element set to every value of 23 types in 11 shapes up to rank 3, with swaps, copies, JSON/BSON/HDF5 copies; all pairs of values in two-element arrays; all dimensions 0-4 x 0-4; parents; 9000 metadata; 256 collections in 3 orders; all hash sizes", thorough="the same with copies of every mutation"))
CHECKS["R02"] = MC(C("asan", "collect.c", args=["--depth=2"], thorough_args=["--depth=3"]), bounds=dict(quick="every one of 26 operations in every reachable state of 3 labels x 3 instances (one a collection) x 4 other relations, whether or not loaded from file, with and without own references; all histories of 2 operations; members missing when read", thorough="the same by way of copy, file, url and text; all histories of 3 operations"))
CHECKS["S04"] = MC(C("asan", "storage.c", args=["--part=1", "--saves=2"], thorough_args=["--saves=3"]), C("asan", "storage.c", args=["--part=2", "--saves=2"], thorough_args=["--saves=3"]), bounds=dict(quick="every session (12 JSON / 6 HDF5 open modes x every sequence of <=2 saves of 4 instances) from every reachable file state; after each: load, list, iterate by every key, file bytes of read-only sessions", thorough="sessions of <=3 saves"))
CHECKS["S05"] = MC(C("asan", "iofault.c"), bounds=dict(quick="24 ways of saving and 13 ways of loading x 3 stream buffer sizes x every single fault: each open (4 errno values), each read, the close, and running out of space after every number of bytes, with and without a failing close", thorough="the same"))
CHECKS["I01"] = MC(C("asan", "ident.c", thorough_args=["--len=5", "--long=700", "--slen=8", "--random=200000"]), bounds=dict(quick="ids: all strings of <=4 characters over 11; every one-character change of uuids under 12 prefixes and 7 endings; lengths up to 340; 252 ids x 252 ids as identity of one instance; metadata uris: all strings of <=7 characters over 5; both settings of namespacedID", thorough="ids of <=5 characters, lengths up to 700, uris of <=8 characters"))
CHECKS["S06"] = MC(C("asan", "malform.c", thorough_args=["--pairs=1"]), bounds=dict(quick="every prefix, every byte removed, doubled or replaced (22 values), every token removed, doubled, wrapped or replaced by each of 25 values, of 8 JSON documents; every prefix, byte and 4-byte value of 4 BSON documents; urls and option strings with every inserted and one further replaced character; through every entry point", thorough="also every pair of tokens replaced by each of 12 x 12 values in 3 documents"))
CHECKS["M01"] = MC(C("asan", "mapping.c"), bounds=dict(quick="4 metadata: all sets of <=2 mappings (0-2 inputs, self-referring ones too, 3 costs) x 6 sets of available inputs; all sets of 3 (0-2 inputs, 2 costs); all sets of 4 mappings from one input; 5 metadata: all sets of 4 of equal cost; each mapping also with each step failing in 3 ways; casting through 5 functions", thorough="all sets of 3 from 3 input sets, of 5 from one input with 2 costs, of 6 with equal costs; 5 metadata: sets of 5, sets of 4 with 2 costs"))

CHECKS["B01"] = MC(P("props.py", "pyasan"), bounds=dict(quick="21 property types x all shapes of rank 0-3 (extents 0-3, rank 3: 0-2): every alphabet value over every previous value through 5 ways of assigning and 7 of reading; lists, tuples, sequences, object and native arrays of 12 dtypes in 6 memory layouts; every wrong shape; every unrepresentable value at every position; own reversed and transposed views; frozen instances", thorough="the same with rank 3 extents 0-3"))
CHECKS["B02"] = MC(P("reps.py", "pyasan"), bounds=dict(quick="21 property types x 7 shapes of rank 0-3 x with/without URI x every alphabet value in rotation: asjson (all combinations of 7 options for the first rotation, a third of them otherwise), asdict and JStore.get_dict (all options) through from_dict, from_json and JStore, JStore get and +=, JSON and YAML bytes and files, BSON, pickle protocols and copy; the original is gone before loading; 350 metadata (all types x shapes, texts, counts, names) x 190 representations", thorough="the same with all option combinations for every rotation and 11 shapes"))
CHECKS["B03"] = MC(P("handles.py", "pyasan"), bounds=dict(quick="all histories of taking, using, modifying through and dropping 30 kinds of Python handles on two data instances, their metadata, a collection, a JSON store and a file storage: depth 4 from nothing, depth 3 from a collection with linked instances, depth 3 when only the collection is held (with refused requests in between); values, existence and exact reference counts after every operation; dropping the rest in every rotation and its reverse", thorough="depths 5, 4 and 4"))
CHECKS["B04"] = MC(P("helpers.py", "pyasan"), bounds=dict(quick="query strings from dicts of up to 2 keys over 13 texts and 11 JSON values; DataModel over 11x11 shapes x dimension sets; tables of 2 data models with up to 2 of 5 property descriptions in 3 column orders x 3 bracket styles x list/CSV dialects/Excel; RDF in 4 formats over 9 values x 4 shapes x sizes x 4 ways of identification; dataclass/pydantic/dict/JSON schemas; pydantic models over types, lists, nesting; dimension inference over 36 shape pairs x sizes; all reference graphs on 3 instances x collections; classes extended by factories; 10x10 unit pairs x 4 magnitudes x ways of assigning", thorough="options dicts of 3 keys, RDF in 8 formats, all Excel tables"))
CHECKS["B05"] = MC(P("plugs.py", "pyasan"), bounds=dict(quick="yaml, bson and pyrdf files in 11 layouts: all meaningful histories of up to 3 (2 for further layouts) of saving, overwriting, deleting by uuid/uri, flushing, verifying, reopening in modes r/a/w on two data instances and a metadata, everything loaded by uuid and uri and listed with 7 patterns in the session, after reopening and after appending; a plugin with every combination of up to two misbehaving methods (absent, raising, wrong results: 35 faults) and all flags through all operations; blob contents, templates, tables through pandas, bytes", thorough="histories of depth 4"))
CHECKS["B06"] = MC(P("protos.py", "pyasan"), bounds=dict(quick="all directories of up to 5 files with 36 filter pairs and 7 compressions, unpacked over all states of 3 target files; all orders of adding up to 3 entries to archives; file connections in 6 address forms, 4 initial states, 6 modes: all histories of up to 3 of 13 operations (2 or 1 for other forms); http and zip connections against a server on the loopback interface: all histories of up to 2 operations incl. the server failing; plugins with all combinations of up to two absent, raising or narrow methods; instances through 5 drivers, 9 ways of saving, 7 of loading and 3 ways of identifying", thorough="file histories of depth 4, http of depth 3"))
CHECKS["B07"] = MC(P("maps.py", "pyasan"), bounds=dict(quick="all sets of one or two and half of the sets of three of 12 mapping plugins (0-2 inputs, costs 1-40 or default) over four metadata x up to 5 sets of inputs x every target; every plugin with each of 21 faults alone and with each of 4 others in both orders", thorough="all sets of three, all input sets"))
