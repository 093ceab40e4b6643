# ---------------------------------------------------------------- storages
prop("S01", "Data written to JSON comes back identical",
     """An instance of any valid metadata that is written as JSON - to a file or to a string, in any of
     the supported layouts - and read back in a fresh process has the same identity, metadata, dimension values
     and property values (every type, rank and extent, including empty arrays, special characters and extreme numbers).
     Reading never yields an instance different from the one written: it either reproduces it or reports an error.""",
     ["inputs", "configurations"],
     "all property types x ranks 0-3 x extents 0-3 x value alphabets at the type's limits x output layouts",
     "Tests round-trip a handful of fixed entities; the guarantee is over every type/shape/value combination.",
     ["src/dlite-json.c", "src/dlite-type.c", "src/dlite-entity.c", "storages/json/dlite-json-storage.c"],
     [("print and scan of instances", "src/dlite-json.c"), ("value print/scan", "src/dlite-type.c")],
     observe=["dlite_json_sprint/sscan", "dlite_storage_load/save"])

prop("S02", "Data written to HDF5 or BSON comes back identical",
     """An instance saved to an HDF5 file or serialised to BSON and read back has the same identity, metadata,
     dimension values and property values for every property type, rank and extent the format supports.
     A type the format cannot represent is refused with an error, never stored altered.""",
     ["inputs", "configurations"],
     "all property types x ranks 0-3 x extents 0-3 x value alphabets",
     "Tests use one hand-written entity per format.",
     ["storages/hdf5/dh5lite.c", "src/dlite-bson.c", "src/utils/bson.c", "src/dlite-entity.c"],
     [("hdf5 data model", "storages/hdf5/dh5lite.c"), ("bson", "src/dlite-bson.c")],
     observe=["dlite_instance_save/load", "dlite_bson_from_instance/dlite_bson_load_instance"])

prop("S03", "Metadata survives serialisation unchanged",
     """Any valid metadata (any number of dimensions and properties, any property type, shape expression, unit,
     description, including quotes, control and non-ASCII characters) printed as JSON or saved to a storage and read back
     is equal to the original: same uri, description, dimensions and properties in the same order.""",
     ["inputs", "configurations"],
     "all small metadata structures: 0-2 dimensions x 0-3 properties x all types x shapes x description/unit alphabets x layouts",
     "Tests print a few fixed entities and compare prefixes.",
     ["src/dlite-json.c", "src/dlite-entity.c", "src/dlite-type.c"],
     [("metadata printing and parsing", "src/dlite-json.c")],
     observe=["dlite_json_sprint", "dlite_json_sscan", "dlite_meta_load"])

prop("S04", "A storage holds exactly what was saved to it",
     """For every history of opening, saving, overwriting, closing and reopening JSON and HDF5 storages in their supported modes,
     the storage contains exactly the instances a simple map from uuid to last saved value would contain, and listing, iterating and loading agree with it.
     A storage opened read-only is never modified, loading never changes what is stored, mode 'w' discards and modes 'a'/append keep earlier content, and an operation that a mode does not support fails with an error and changes nothing.""",
     ["histories"],
     "all sequences of sessions (every open mode x up to 2 saves, thorough 3) from every reachable file state, over 4 instances (data, single-instance, metadata)",
     "Tests exercise a few fixed sequences.",
     ["src/dlite-storage.c", "storages/json/dlite-json-storage.c", "src/utils/jstore.c", "storages/hdf5/dh5lite.c"],
     [("open modes", "storages/json/dlite-json-storage.c"), ("dh5_datamodel", "storages/hdf5/dh5lite.c")],
     observe=["dlite_storage_open/close", "dlite_storage_iter_*", "dlite_storage_uuids"])

prop("S05", "A failed write is reported, never silently lost",
     """If any read, write, open or flush of the underlying file fails while an instance is saved to or loaded from a JSON file,
     the caller gets an error indication; a success status means the complete data is in the file.""",
     ["fault_sequences"],
     "every single failing libc I/O call (and every short-write point) of a save/load history",
     "Tests never inject I/O failures.",
     ["src/dlite-json.c", "src/utils/jstore.c", "storages/json/dlite-json-storage.c", "src/dlite-storage.c"],
     [("json writing", "src/utils/jstore.c"), ("json storage close", "storages/json/dlite-json-storage.c")],
     observe=["dlite_storage_close", "dlite_instance_save_url"])

prop("S06", "Malformed input gives a clean error",
     """Any truncation or single-point corruption of valid serialised data (JSON, BSON, url, option strings) is either accepted as valid data
     or rejected with an error; it never crashes, hangs or reads outside the input.""",
     ["inputs"],
     "every truncation point and every single-token/byte substitution from an alphabet of a set of seed documents",
     "Tests feed a few hand-made invalid inputs.",
     ["src/dlite-json.c", "src/dlite-bson.c", "src/utils/bson.c", "src/utils/jsmnx.c", "src/dlite-entity.c"],
     [("tokeniser", "src/utils/jsmnx.c"), ("bson parser", "src/utils/bson.c")],
     observe=["dlite_json_sscan", "dlite_bson_load_instance"])

# ---------------------------------------------------------------- identity, instances
prop("I01", "Identity of data is deterministic",
     """The uuid of an instance is a function of its id only: a valid uuid maps to itself (case-insensitively), any other id maps to one
     fixed version-5 uuid, no id gives a fresh random version-4 uuid, and trailing '#' or '/' differences are normalised the same way everywhere.
     Uri and (name, version, namespace) convert to each other without loss.""",
     ["inputs"], "all strings up to a bound over the alphabet of uuid/uri characters plus structured mutations of uuids",
     "Tests check two or three ids.",
     ["src/dlite-misc.c", "src/utils/uuid4.c", "src/utils/uuid.c", "src/utils/sha1.c"],
     [("uuid derivation", "src/dlite-misc.c")], observe=["dlite_get_uuid", "dlite_join_meta_uri", "dlite_split_meta_uri"])

prop("I02", "Instances live exactly as long as they are referenced",
     """Over every history of creating, looking up, loading, copying, referencing and releasing instances and metadata, an instance is alive and unchanged
     while a caller holds a reference, lookups by id or uuid return that same instance, it is freed exactly once when the last reference is released, and nothing leaks.""",
     ["histories"], "all histories up to a bound over create/get/has/copy/incref/decref on 2 metadata and 3 instances incl. reference properties",
     "Tests run straight-line lifetimes.",
     ["src/dlite-entity.c", "src/dlite-store.c", "src/dlite-storage.c"],
     [("in-memory instance store and refcount", "src/dlite-entity.c")],
     observe=["dlite_instance_get", "dlite_instance_decref"])

prop("I03", "Array properties always match their dimensions",
     """After any sequence of dimension changes and property updates each property's array has the extents its shape expressions give for the current dimension values,
     elements that remain in range keep their values as long as only the first extent of the property changes (others invalidate a multi-dimensional array, as documented), new elements are zero/empty, and out-of-range or unknown names and indices are refused without changing the instance.""",
     ["histories", "inputs"], "all sequences of resize/set up to a bound x types x shape expressions",
     "Tests resize once or twice.",
     ["src/dlite-entity.c", "src/utils/infixcalc.c"],
     [("dimension update", "src/dlite-entity.c")], observe=["dlite_instance_set_dimension_sizes", "dlite_instance_get_property"])

prop("I04", "Transactions give an immutable, verifiable history",
     """For every history of edits, snapshots, commits, pulls and look-ups, a snapshot keeps the value it had when taken, a frozen instance cannot be changed,
     the n-th ancestor is the n-th most recent snapshot, and verification succeeds exactly when no instance in the chain was altered.""",
     ["histories"], "all histories up to a bound of set/snapshot/freeze/push/pull/get/verify/tamper",
     "Tests run one fixed chain.",
     ["src/dlite-entity.c"], [("transactions", "src/dlite-entity.c")],
     observe=["dlite_instance_snapshot", "dlite_instance_get_snapshot", "dlite_instance_verify_transaction"])

prop("I05", "Content hash identifies content",
     """Two instances have the same hash if and only if they have the same metadata, dimensions, parent and property values;
     changing any single element of any property changes the hash, while reading, saving, loading or copying does not.""",
     ["inputs"], "all single-element mutations over all types and shapes within the bound, and all pairs of small instances",
     "Tests compare one hash.",
     ["src/dlite-entity.c", "src/dlite-type.c", "src/utils/sha3.c"], [("hash", "src/dlite-entity.c")],
     observe=["dlite_instance_get_hash"])

# ---------------------------------------------------------------- types, arrays
prop("T01", "Type names and types correspond one to one",
     """Every supported type and size has one canonical name that parses back to that type and size; every accepted name is documented, and anything else is rejected.""",
     ["inputs"], "all (type,size) pairs and all strings that are a prefix, extension or one-character mutation of a type name",
     "Tests sample names.", ["src/dlite-type.c"], [("type name tables", "src/dlite-type.c")],
     observe=["dlite_type_set_typename", "dlite_type_set_dtype_and_size"])

prop("T02", "Printing then scanning a value is the identity",
     """For every type and every value, scanning the printed text of the value gives the same value and consumes exactly the printed text, with and without quoting;
     printing into a buffer of any size never writes beyond it and reports the full length needed.""",
     ["inputs"], "all types x value alphabets x quoting flags x every buffer size",
     "Tests print a few values.", ["src/dlite-type.c", "src/utils/strutils.c"], [("value print/scan", "src/dlite-type.c")],
     observe=["dlite_type_print", "dlite_type_scan"])

prop("T03", "Type conversion preserves the value or fails",
     """Converting a value between any two types gives the same value whenever the destination type can represent it (up to the precision of the destination);
     conversions without meaning, such as a negative number to an unsigned type or text that is not a number to a number, fail with an error.
     The source is never altered and no memory outside the destination is touched.""",
     ["inputs"], "all ordered pairs of types x value alphabets at the limits of both",
     "Tests convert a few pairs.", ["src/dlite-type-cast.c"], [("cast functions", "src/dlite-type-cast.c")],
     observe=["dlite_type_copy_cast"])

prop("A01", "Array views address exactly the right elements",
     """Indexing, slicing, transposing, reshaping-compare and iterating an array view visits exactly the elements that the same operation on a nested list would give,
     for any rank, extent, stride, step and negative index (slice limits beyond the ends are clamped, as for lists); a zero step and a reshape to another number of elements are refused.""",
     ["inputs"], "all shapes of rank 1-3 with extents 0-4 x all start/stop/step in a range incl. negative, composed up to depth 2",
     "Tests use one 2-D array.", ["src/dlite-arrays.c"], [("array views", "src/dlite-arrays.c")],
     observe=["dlite_array_slice", "dlite_array_iter_next"])

prop("A02", "Bulk copy and cast handle every memory layout",
     """Copying or casting an n-dimensional array between any two memory layouts (C order, Fortran order, transposed, padded) transfers every element to the matching index
     and touches no other memory.""",
     ["inputs"], "all shapes rank 0-3, extents 1-3 x all stride permutations and padding of source and destination x element types",
     "Tests use a couple of layouts.", ["src/dlite-type.c"], [("strided copy", "src/dlite-type.c")],
     observe=["dlite_type_ndcast"])

# ---------------------------------------------------------------- relations
prop("R01", "A triplestore is a set of triples under every history",
     """After any history of adding, removing, querying, iterating and clearing, the store reports exactly the set of distinct (subject, predicate, object, datatype) quadruples that a mathematical set would hold:
     duplicates are stored once, every query pattern returns exactly the matching triples once each, and removal takes out exactly the matching triples.""",
     ["histories"], "all operation histories up to a bound over 6 quadruples and 22 query patterns, for both back ends",
     "Tests use a fixed insert/remove script.",
     ["src/triplestore.c", "src/triplestore-builtin.c", "src/triplestore-redland.c", "src/triple.c"],
     [("triple matching and storage", "src/triplestore-redland.c"), ("builtin store", "src/triplestore-builtin.c")],
     observe=["triplestore_add", "triplestore_find", "triplestore_remove", "triplestore_value"])

prop("R02", "A collection is a labelled set of instances and relations",
     """After any history of adding, removing, relating, iterating, copying, saving and loading, a collection contains exactly the labelled instances and relations a simple model (dictionary plus set) would:
     a label refers to one instance, removing a label removes what adding it created and nothing else, and instances stay alive while they are members.""",
     ["histories"], "all operation histories up to a bound over 3 labels, 3 instances and 3 relations",
     "Tests use one fixed script.", ["src/dlite-collection.c"], [("collection", "src/dlite-collection.c")],
     observe=["dlite_collection_add", "dlite_collection_get", "dlite_collection_next"])

prop("M01", "Instance mapping finds the cheapest valid mapping",
     """Given any set of registered mappings with costs and any set of available inputs, mapping succeeds exactly when the target can be reached, uses a chain with minimal total cost,
     applies each step to instances of the metadata it declares, and releases everything it used.""",
     ["configurations"], "all mapping graphs with up to 4 metadata and up to 4 mappings with 1-2 inputs, costs from a small set",
     "Tests use one graph.", ["src/dlite-mapping.c", "src/dlite-mapping-plugins.c"], [("mapping search", "src/dlite-mapping.c")],
     observe=["dlite_mapping", "dlite_mapping_create_base"])

# ---------------------------------------------------------------- utilities
prop("X01", "Shape expressions are evaluated as integer arithmetic",
     """Evaluating any well-formed expression of integers, dimension names, the binary operators | & = ! < > + - * / % ^ and parentheses gives the value C integer arithmetic gives, with
     precedence increasing in the order | & = ! (< >) (+ -) (* / %) ^ and all operators left-associative, as long as no intermediate value overflows;
     ill-formed expressions, unknown names and division by zero are reported as errors.""",
     ["inputs"], "all expressions up to a token bound over the operator alphabet", "Tests evaluate a dozen expressions.",
     ["src/utils/infixcalc.c"], [("shunting-yard evaluator", "src/utils/infixcalc.c")], observe=["infixcalc"])

prop("X02", "Glob patterns match exactly what the rules say",
     """A pattern matches a string exactly when the documented rules for * ? [a-z] [^a-z] and backslash escapes say so, for every byte value.""",
     ["inputs"], "all patterns x all strings up to a length bound over a small alphabet", "Tests try a few pairs.",
     ["src/utils/globmatch.c"], [("matcher", "src/utils/globmatch.c")], observe=["globmatch"])

prop("X03", "Quoting and encoding can always be undone",
     """For every string, quoting then unquoting, uri- or percent-encoding then decoding and hex-encoding then decoding gives back the string; writing into a buffer of any size stays inside it, is terminated,
     and reports the length needed.""",
     ["inputs"], "all strings up to a bound over an alphabet of special characters x buffer sizes x quote styles",
     "Tests quote a few strings.", ["src/utils/strutils.c", "src/utils/uri_encode.c", "src/utils/urlsplit.c"],
     [("quoting", "src/utils/strutils.c"), ("uri encoding", "src/utils/uri_encode.c")], observe=["strquote", "uri_encode", "strhex_encode"])

prop("X04", "Storage urls and option strings split losslessly",
     """Splitting a url into driver, location, options and fragment and joining the parts gives an equivalent url; the components of an RFC 3986 url make up exactly that url and only the stated
     number of bytes is looked at; parsing an option string assigns each known option its given (last) value or default, rejecting unknown options in strict mode and options without value.""",
     ["inputs"], "all urls composed of component alphabets incl. empty and Windows-like parts; all option strings up to a bound",
     "Tests parse a few.", ["src/dlite-misc.c", "src/utils/urlsplit.c"], [("url", "src/dlite-misc.c")],
     observe=["dlite_join_url", "dlite_split_url", "dlite_option_parse"])

prop("X05", "Text encoding conversions are exact",
     """Every Unicode code point converts to its UTF-8 encoding and back unchanged, a byte sequence with a wrong lead byte or a missing continuation byte is rejected, and every JSON escape sequence decodes to the character it denotes.""",
     ["inputs"], "all code points; all byte sequences up to 4 bytes from class representatives", "Tests try a few characters.",
     ["src/utils/unicode.c", "src/utils/jsmnx.c", "src/utils/strutils.c"], [("unicode", "src/utils/unicode.c"), ("escapes", "src/utils/strutils.c")], observe=["dlite_json_sscan"])

prop("X06", "Maps and session state behave as dictionaries",
     """After any history of setting, getting, removing and iterating, the string map and the session state container hold exactly the entries a dictionary would, and every registered state is freed exactly once.""",
     ["histories"], "all histories up to a bound over keys chosen to collide", "Tests use fixed scripts.",
     ["src/utils/map.c", "src/utils/session.c"], [("hash map", "src/utils/map.c"), ("session", "src/utils/session.c")],
     observe=["map_set", "session_add_state"])

prop("X07", "The JSON store keeps every labelled value",
     """After any history of adding, replacing, removing, updating, saving and reloading, a JSON store holds exactly the labelled values a dictionary would, in valid JSON.""",
     ["histories"], "all histories up to a bound over 3 keys and value shapes", "Tests use a fixed script.",
     ["src/utils/jstore.c", "src/utils/jsmnx.c"], [("jstore", "src/utils/jstore.c")], observe=["jstore_add", "jstore_to_string"])

prop("X08", "Templates expand to exactly the substituted text",
     """Expanding a template gives the template's literal text with every variable replaced by its value and every loop body repeated once per item, in order; malformed templates give an error,
     and the code generator emits every dimension and property of the metadata exactly once.""",
     ["inputs"], "all templates up to a bound over literal/variable/loop tokens; all small metadata", "Tests expand a few templates.",
     ["src/utils/tgen.c", "src/dlite-codegen.c"], [("template engine", "src/utils/tgen.c")], observe=["tgen", "dlite_codegen"])

prop("X09", "Digests do not depend on how data is fed in",
     """SHA-1, SHA-3 and MD5 of any byte string equal the standard digest, however the input is split into updates.""",
     ["inputs"], "all lengths 0..300 x all two-way splits, against an independent implementation", "Tests check standard vectors only.",
     ["src/utils/sha1.c", "src/utils/sha3.c", "src/utils/md5.c"], [("digests", "src/utils/sha3.c")], observe=["sha3_Update"])

prop("X10", "Search paths and string lists are ordered lists",
     """After any history of inserting, appending, extending, removing, popping and iterating, a search path (where a path already present is moved, not duplicated) and a string list hold exactly what an
     ordinary list would, in order, with negative indices counting from the end; a file lookup returns the matching files of each directory in that order, unaffected by changes to the paths during iteration;
     joining, splitting and converting paths (between Unix and Windows style, also into buffers of limited size) give the components they should.""",
     ["histories"], "all histories up to a bound over 3 directories and index positions incl. negative", "Tests use a fixed script.",
     ["src/utils/fileutils.c", "src/utils/strutils.c"], [("FUPaths", "src/utils/fileutils.c"), ("strlst", "src/utils/strutils.c")], observe=["fu_paths_insert", "fu_iter"])

prop("X11", "Semantic versions are recognised and ordered correctly",
     """A string is accepted as a version exactly when it is a valid semantic version 2.0.0, and comparing two versions gives the order the standard prescribes
     (numeric parts numerically, pre-release identifiers one by one, build metadata ignored).""",
     ["inputs"], "all pairs of ~700 versions built from number, pre-release and build alphabets; all strings up to a bound over the version alphabet",
     "Tests compare a dozen pairs.", ["src/utils/strutils.c"], [("version comparison", "src/utils/strutils.c")], observe=["strcmp_semver", "strchk_semver"])

prop("E01", "Errors are reported once, to the right handler",
     """For every nesting of try/catch/else/finally blocks and raised errors, the handler that runs, the error value and message seen and what propagates are what structured exception handling prescribes,
     and the error state is restored afterwards.""",
     ["programs"], "all programs of nested blocks up to depth 3 over raise/catch/reraise/else/finally", "Tests use a few programs.",
     ["src/utils/err.c", "src/dlite-errors.c"], [("err frames", "src/utils/err.c")], observe=["err_geteval", "err_getmsg"])

# ---------------------------------------------------------------- Python API
prop("B01", "Python property access is faithful",
     """Through the Python interface, reading a property after assigning it gives the assigned value for every type, shape and accepted Python representation, and an assignment that cannot be represented raises
     an exception and leaves the instance unchanged.""",
     ["inputs"], "all property types x ranks x Python value alphabets (scalars, lists, arrays of various layouts, wrong shapes and types)",
     "Tests assign a few values.", ["bindings/python/dlite-entity-python.i", "bindings/python/dlite-python.i"], [("numpy conversion", "bindings/python/dlite-python.i")],
     observe=["Instance.__getattr__", "Instance.__setattr__"])

prop("B02", "Python representations of an instance are equivalent",
     """Dictionary, JSON, BSON, pickle and copy representations of an instance made through the Python interface recreate an instance with the same metadata, dimensions, property values and (except for copies) identity,
     for every type, shape and option.""",
     ["inputs", "configurations"], "all property types x ranks x extents x representation options", "Tests try fixed entities.",
     ["bindings/python/dlite-entity-python.i", "bindings/python/dlite-entity.i"], [("asdict/asjson", "bindings/python/dlite-entity-python.i")],
     observe=["Instance.asdict", "Instance.asjson", "Instance.from_dict"])

prop("B03", "Objects stay valid however Python drops references",
     """Over every history of creating, aliasing, deleting and collecting Python objects for instances, properties, arrays and collections, live objects keep their values and dropped ones are released.""",
     ["histories"], "all histories up to a bound over instance/array/collection handles", "Tests hold few references.",
     ["bindings/python/dlite-entity.i", "bindings/python/dlite-collection.i"], [("reference handling", "bindings/python/dlite-entity.i")],
     observe=["dlite.get_instance", "Collection.get"])

prop("B04", "Python helpers reproduce what they are given",
     """Option dicts survive the query string encoding; data models built with DataModel or read from tables (lists, CSV, Excel) are the described ones, with unknown or unused dimensions refused; instances and metadata written to RDF read back the same; dataclass, pydantic, dict and JSON schemas give the metadata they describe and pydantic models the described instances; dimensions are inferred exactly when the values determine them; the referred instances are the reachable ones; objects extended by the factories and their instances mirror each other; quantities are stored in the unit of the property.""",
     ["inputs"], "all inputs built from small alphabets of texts, types, shapes, units, columns and reference graphs", "Tests use one fixed example of each; the encodings, inferences and conversions have to be right for every input.",
     ["bindings/python/table.py", "bindings/python/datamodel.py", "bindings/python/rdf.py", "bindings/python/options.py", "bindings/python/utils.py", "bindings/python/factory.py", "bindings/python/quantity.py"],
     [("python helpers", "bindings/python")], observe=["Options", "DataModel", "DMTable", "to_rdf/from_rdf", "to_metadata", "pydantic_to_instance", "infer_dimensions", "get_referred_instances", "classfactory", "Instance.q"])
prop("B05", "Storage plugins written in Python obey the storage contract",
     """A file written through the yaml, bson or RDF plugin is a map from instance to the value saved last: whatever sequence of saves, overwrites, deletes, flushes and reopening in read, append or write mode, loading by uuid or uri returns the saved value or is refused when there is none, listings with or without pattern give exactly the matching instances, read-only storages refuse changes and write mode starts empty.  Plugins with missing, raising or misbehaving methods give errors that reach the caller, leave everything else working, and no plugin object, instance or reference is lost.  Blob, template and table plugins reproduce their content.""",
     ["histories", "faults"], "all histories up to depth 3 over the storage operations; all combinations of up to two faults in plugin methods", "Tests save once to a fresh file and load; overwriting, appending, reopening and failing plugins are histories and faults no test enumerates.",
     ["storages/python/dlite-plugins-python.c", "storages/python/python-storage-plugins", "src/pyembed/dlite-python-storage.c", "bindings/python/dlite-storage-python.i"],
     [("python storages", "storages/python")], observe=["Storage", "Storage.save/load/delete/get_uuids/instances", "Instance.save", "to_bytes/from_bytes"])
prop("B06", "Protocol plugins and archives transport bytes unchanged",
     """Bytes saved through a protocol connection are the bytes loaded from it, for every history of saving, loading, deleting, listing, reopening in any mode and failing peers, through files, directories, http and zip archives; what a mode or plugin does not allow is refused and changes nothing, a closed connection is unusable, and no failure is silent.  Packing a directory and unpacking the archive reproduces exactly the files selected by the include and exclude expressions, never touches anything outside the target and keeps existing files unless overwriting is asked for.  Instances saved with any driver through any protocol, call signature or url form load back equal, by uuid, uri or without id.""",
     ["histories", "input"], "all histories up to depth 3 of a connection, all small directory trees times filters, all plugin fault pairs, all combinations of drivers and call forms", "The tests transfer one file and one directory in the default way; modes, refusals, filters, identifiers and failing servers are combinations they do not reach.",
     ["bindings/python/protocol.py", "bindings/python/python-protocol-plugins", "bindings/python/dlite-entity-python.i"],
     [("protocols", "bindings/python")], observe=["Protocol", "load_path", "save_path", "archive_*", "Instance.load", "Instance.save", "Instance.from_url"])
prop("B07", "Mappings written in Python obey the mapping contract",
     """Mapping instances to another metadata through plugins written in Python gives what the cheapest combination of the available plugins computes (cost 25 unless given), each plugin receiving exactly the instances it declares in that order, an input of the wanted metadata being returned itself.  A plugin that raises or returns something else than an instance of its output metadata makes the mapping fail with an error, a malformed plugin is never used, and whatever happens inputs are unchanged and no instance or reference is left behind.""",
     ["input", "faults"], "all sets of up to two of 12 plugins over four metadata, all inputs and targets; all plugins with each of 21 faults", "The tests use one pair of well-formed plugins; competing costs, chains, missing costs and misbehaving plugins are combinations they do not reach.",
     ["src/pyembed/dlite-python-mapping.c", "src/pyembed/dlite-pyembed.c", "src/dlite-mapping-plugins.c", "src/dlite-mapping.c"],
     [("mapping", "src/pyembed")], observe=["dlite.mapping", "DLiteMappingBase"])
