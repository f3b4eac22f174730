PROPS = []
NA = {}

ORACLE = "Every execution explored agreed with the independent model; says nothing about inputs outside the generators. "


def P(id, title, statement, over, text, why, files, mech, observe, tech, note):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                      mech=mech, observe=observe, tech=tech, note=ORACLE + note))


P("B01", "A document encodes to valid BSON and decodes to the same document",
  "Whatever public constructor a document was built with, every way of encoding it yields the same bytes: exactly the BSON of its elements, in order, with exact lengths. Every way of decoding those bytes, from memory or from a stream in pieces of any size, consumes exactly that document and yields the same keys, types and values, and encoding again gives the same bytes.",
  ["inputs", "programs"], "all documents over the 21 element types (sizes, depths, values, keys), all constructors, all encoding and decoding entry points, all ways a stream splits the bytes",
  "The tests encode a few dozen hand-written documents, mostly with one element; which combinations of sizes, nesting, constructors and paths work is a matter of all inputs.",
  ["document.go", "element.go", "value.go", "array.go", "constructor.go", "x_constructor.go", "reader.go", "elements/elements.go"],
  [("element encoders", "element.go:writeByteSlice"), ("size computation", "element.go, value.go: Validate and valueSize"), ("stream decoding", "reader.go:readDocumentBytes")],
  ["MarshalBSON, WriteTo, WriteDocument, MarshalElement", "ReadDocument, UnmarshalBSON, ReadFrom, Reader"],
  "runtime monitoring: differential oracle (independent BSON model) on every encoding and decoding", "The model is written from the BSON specification and shares no code with birch.")
P("B02", "Hostile bytes never crash the reader or make it hang or hoard memory",
  "For any byte sequence, reading, validating, traversing, looking up, converting and re-encoding it through the public API returns a result or an error: no panic, no endless loop, and no allocation out of proportion to the bytes actually supplied. A declared length is never trusted beyond the data, whether the data is in memory or arrives from a stream.",
  ["inputs"], "all byte sequences: random, valid documents damaged at any byte, every truncation, every value of every length field",
  "The tests feed a handful of malformed documents to single functions; a missing bound shows only for particular lengths at particular offsets.",
  ["reader.go", "value.go", "element.go", "document.go", "x_core.go", "iterator.go"],
  [("length checks", "value.go:validate, x_core.go"), ("stream length bound", "reader.go:readDocumentBytes")],
  ["every entry point that takes bytes; whatever they accept is traversed completely"],
  "runtime monitoring: fault-injected inputs under panic, progress and allocation monitors", "Nesting beyond what fits the goroutine stack is out of scope.")
P("B03", "Bytes are accepted as BSON exactly when they are well-formed",
  "Validation and decoding accept a byte sequence if and only if it begins with a well-formed BSON document of the declared length: correct lengths, terminators, type bytes, booleans, nested documents and binary subtypes, at every level. All entry points agree, and the position or length they report is that of the document.",
  ["inputs"], "all byte sequences, valid and invalid, down to single damaged bytes and every length value",
  "The tests check acceptance and rejection on a few samples per type; agreement on all inputs needs an independent judge.",
  ["reader.go", "value.go", "element.go", "document.go", "array.go"],
  [("recursive validation", "value.go:Validate, element.go:Validate, reader.go:Validate")],
  ["Reader.Validate, Element.Validate, Value.Validate, ReadDocument, UnmarshalBSON, ReadFrom, Iterator"],
  "runtime monitoring: verdict-by-verdict comparison with an independent BSON decoder", "Trailing bytes after the document are permitted to the entry points that read a prefix, as the code documents.")
P("B04", "Each accessor gives the exact value of its type and refuses the others",
  "Reading a value returns exactly what was stored (for dates, to the millisecond) for the accessors of its type. For a value of any other type, the accessors that report success report failure, and the others panic rather than reinterpret the bytes.",
  ["inputs"], "all values of all types, all accessors, values built and values decoded",
  "The tests try each accessor on one or two values; wrong widths, offsets or conversions show for particular values only.",
  ["value.go", "element.go"], [("accessors", "value.go: Double, Int32, Time, Binary, ... and their OK forms")],
  ["all accessors of Value"], "runtime monitoring: full accessor-by-type matrix against the model", "Dates are compared as instants.")
P("B05", "A document behaves as an ordered list of elements through any history",
  "Through any sequence of appending, prepending, setting, deleting, extending, sorting, resetting, replacing values, editing nested documents and decoding, a document's contents, order, length, lookups, map view and encoding are those of the ordered list that the same operations produce. Shallow copies share elements and nothing else.",
  ["histories"], "all sequences of operations on groups of documents that share elements",
  "The tests call each operation once on a fresh document; stale caches and lost or misplaced elements need sequences.",
  ["document.go", "x_document.go", "unmarshal.go", "element.go", "value.go"],
  [("element slice and map cache", "document.go, unmarshal.go:refreshCache")], ["everything observable after every operation"],
  "runtime monitoring: online model checker of operation histories", "The model has the documented shallow sharing.")
P("B06", "An array behaves as a list of values through any history",
  "Through any sequence of appending, prepending, setting, deleting, extending, resetting and editing nested values, an array's length, values, order and bounds errors are those of the list the same operations produce. It always encodes with the keys 0, 1, 2, ... in order, whatever keys its values had before.",
  ["histories"], "all sequences of array operations, all lengths (including where the keys gain a digit)",
  "The tests use arrays of a few values; index keys, and their widths, go wrong at particular lengths and after particular edits.",
  ["array.go", "x_array.go"], [("index keys", "array.go: MarshalBSON and Validate")], ["everything observable after every operation"],
  "runtime monitoring: online model checker of operation histories", "")
P("B07", "Lookups find exactly the element at the key, index or path",
  "Looking up a key, an index or a path of keys, through documents and arrays (whose keys are their indexes in decimal), in a document or in its encoded form, returns the first element there, and reports that there is none otherwise. The in-memory and the encoded form agree for every path.",
  ["inputs"], "all documents and all paths, existing and not, with repeated, empty and numeric keys",
  "The tests look up a few fixed paths in fixed documents.",
  ["document.go", "x_document.go", "reader.go", "array.go", "value.go"],
  [("recursive search", "document.go:Search, RecursiveLookup; reader.go:RecursiveLookup")], ["Lookup, LookupErr, LookupElement, Search, RecursiveLookup, ElementAt, KeyAt..."],
  "runtime monitoring: differential oracle over every path of generated documents", "")
P("B08", "Results and inputs are not changed behind their owner's back",
  "What an operation returned (encodings, JSON, strings, exported values, maps) stays the same while other operations run, in any goroutine, and overwriting it changes no document. No operation writes to the bytes or values given as input, and what is documented to be a copy is unaffected by later changes to the original.",
  ["histories", "schedules"], "all sequences of operations interleaved with kept results, across goroutines",
  "The tests look at a result at once and drop it; aliasing shows only when it is kept while something else runs.",
  ["document.go", "element.go", "value.go", "array.go", "constructor.go", "global.go"],
  [("buffers owned by the result", "document.go:MarshalBSON, element.go")], ["kept results re-compared after later operations; checksums of inputs"],
  "runtime monitoring: kept-result and input checksums, with the race detector for the parallel part", "Documents decoded from a slice may refer to it; that aliasing is documented.")
P("B09", "Equality of values and elements means the same type and contents",
  "Two values, elements, documents or arrays compare equal exactly when they have the same type and the same contents (and key, for elements), however they were built. Comparison is reflexive and symmetric and changes neither side.",
  ["inputs"], "all pairs: equal ones built differently, and pairs that differ in one bit, type, key or nesting level",
  "The tests compare a few hand-picked pairs.",
  ["document.go", "element.go", "value.go", "array.go", "x_value.go"], [("comparison of encodings", "x_value.go:checkEqualVal")], ["Equal of Document, Element, Value, Array"],
  "runtime monitoring: comparison verdicts against the model's encodings", "")
P("B10", "Documents can be read by many goroutines at once",
  "Goroutines that encode, validate, look up, iterate and read the values of the same document, or of documents that share elements, at the same time neither race nor get another result than alone.",
  ["schedules", "inputs"], "all interleavings of readers over all documents",
  "The tests are single-threaded.",
  ["document.go", "element.go", "value.go", "reader.go", "iterator.go"], [("reads don't write", "element.go, value.go")], ["results of concurrent readers; Go race detector"],
  "runtime monitoring: Go race detector, plus comparison of every concurrent result", "The lazily built views (maps, mutable views, JSON of still-encoded documents) are excluded. The race detector reports only races that the executions exhibit.")
P("B11", "Object identifiers are unique, dated, and parse exactly",
  "Identifiers generated by a process, in any number of goroutines, are all different and carry the time of their creation. The hexadecimal and JSON forms convert both ways without loss, and text that isn't exactly 24 hexadecimal digits is refused with an error.",
  ["schedules", "inputs"], "all concurrent generations; all texts",
  "The tests generate a few identifiers in one goroutine and parse a few strings.",
  ["types/objectid.go"], [("atomic counter", "types/objectid.go:NewObjectID")], ["generated identifiers, parsing results"],
  "runtime monitoring: conservation check over concurrently generated identifiers, race detector, differential parser", "")
P("B12", "128-bit decimals convert exactly to and from text",
  "The text of any finite decimal denotes exactly its value and parses back to the same sign, digits and exponent. A text is parsed to exactly the value it denotes or refused; whatever has at most 34 digits (with some on both sides of any point) and an exponent in range is accepted, so are values that fit once zeroes are dropped or added at the end (with at most 34 digits before a point, and an exponent of at most 4), and nothing that isn't a number is.",
  ["inputs"], "all significands and exponents, all texts",
  "The repository has no test of it beyond single samples.",
  ["types/decimal.go"], [("128-bit division and multiplication", "types/decimal.go:divmod, muladd")], ["String, ParseDecimal128"],
  "runtime monitoring: differential oracle in arbitrary precision arithmetic", "Significands of 35 digits or more, which the format forbids, are out of scope.")
P("B13", "Low-level encoders write exactly the value, inside the buffer",
  "Encoding a value, with or without its key, at an offset of a buffer writes exactly the BSON bytes there and reports their number. If the buffer is too short it reports that, and in every case no byte outside the buffer's part for the value changes.",
  ["inputs"], "all values, keys, offsets and buffer lengths",
  "The repository's tests never call these encoders with short buffers or offsets.",
  ["elements/elements.go"], [("bounds checks", "elements/elements.go")], ["every Encode and Element function"],
  "runtime monitoring: guarded buffers compared byte by byte with the model", "")
P("B14", "Go values keep their value when converted to documents and back",
  "Converting a Go value (numbers, strings, times, maps, slices, nested, or a type that marshals itself) by any constructor that takes it gives an element of the fitting type with the same value, to the millisecond for times; what cannot be represented becomes null or an error, never another value. Exporting a document to Go maps, slices and values, or unmarshaling it into them, gives every key its exact value.",
  ["inputs"], "all trees of convertible Go values, all documents",
  "The tests convert one small value per type.",
  ["constructor.go", "x_constructor.go", "unmarshal.go", "x_document.go", "x_array.go", "value.go", "document.go"],
  [("type switches", "constructor.go:Interface, x_constructor.go"), ("export", "value.go:Interface, x_document.go:ExportMap")], ["all Interface, Map*, Slice*, Marshaler constructors; ExportMap, Interface, Unmarshal"],
  "runtime monitoring: differential oracle on both directions of the conversion", "")
P("J01", "Documents survive the conversion to JSON and back",
  "Writing a document, an array or a value as JSON and reading that text back gives the same keys, in the same order, with the same types and values, at every level of nesting; integers keep their value, dates their milliseconds, doubles every bit.",
  ["inputs"], "all documents of valid UTF-8 strings over all types",
  "The tests round trip a few small documents and compare lengths or strings.",
  ["x_json_marshal.go", "x_json_unmarshal.go", "jsonx/marhsal.go", "jsonx/unmarshal.go", "jsonx/write.go"],
  [("extended JSON", "x_json_marshal.go:toJSON, x_json_unmarshal.go:convertJSONElements")], ["MarshalJSON, UnmarshalJSON, JSONX"],
  "runtime monitoring: round trip against the model, value by value", "Integers may change between 32 and 64 bits (they are plain JSON numbers); nested documents that begin with a reserved key are ambiguous in the format and excluded.")
P("J02", "JSON output is well-formed and says what the document holds",
  "The JSON of any document, array or value is valid JSON with the same keys in the same order, strings escaped correctly, and every value in the form extended JSON has for its type. Writing it changes nothing, and writing it twice gives the same text.",
  ["inputs"], "all documents of valid UTF-8 strings over all types",
  "The tests compare a few outputs with fixed strings.",
  ["x_json_marshal.go", "jsonx/marhsal.go", "jsonx/write.go"], [("string escaping", "jsonx/write.go:writeJSONString")], ["MarshalJSON"],
  "runtime monitoring: independent strict JSON parser on every output", "")
P("J03", "JSON is read exactly: every valid text, no invalid one",
  "Any JSON text, however it is spelled (whitespace, escapes, number forms, repeated keys), is read to exactly the values and order it denotes; an object with the reserved keys of an extended JSON type, in any order, is the value it stands for, and one that begins with them but has other keys, lacks one, or has contents of another kind, is refused. Text that isn't JSON, or is of another kind than what is being read, gives an error, and no text causes a panic or a document that encodes to invalid BSON.",
  ["inputs"], "all texts: valid in every spelling, damaged ones, objects with reserved keys",
  "The tests parse a few fixed texts.",
  ["jsonx/unmarshal.go", "jsonx/internal/gjson.go", "x_json_unmarshal.go"], [("validation and parsing", "jsonx/internal/gjson.go")], ["UnmarshalJSON of every type, Bytes and Reader constructors"],
  "runtime monitoring: acceptance and values compared with an independent strict JSON parser", "Strings that aren't Unicode have no determined value.")
P("J04", "JSON trees built in memory hold and write what was put in",
  "A JSON document or array built from any constructors gives back its elements by iteration, index and typed access, only through the accessors of their type, and writes JSON with exactly those keys and values in order, and converts to the BSON document of exactly those. A copy has the same contents, and appending to one does not change the other.",
  ["inputs", "programs"], "all trees and constructors",
  "The package has no tests of its own beyond the parser's.",
  ["jsonx/juniper.go", "jsonx/constructor.go", "jsonx/marhsal.go"], [("value wrappers", "jsonx/juniper.go")], ["jsonx API"],
  "runtime monitoring: model of the tree compared with every accessor and with the parsed output", "")
P("F01", "Every sample collected is read back exactly",
  "A stream of samples of one shape given to any compressed collector (base, batch, dynamic, streaming, buffered, synchronized, sampling, or the collecting writer), in any input form and even if the caller reuses the input afterwards, comes back from the reader in order with every boolean, number, date and timestamp exact, in chunks of the configured size, each dated with the time its collection began. The output is standard FTDC: other readers and writers of the format interoperate.",
  ["inputs"], "all sample shapes and values (extreme values, runs of zeroes, special doubles), all collectors, sizes and numbers of samples",
  "The tests use a few generated shapes, and compare mostly counts and hashes.",
  ["x/ftdc/collector_better.go", "x/ftdc/collector_batch.go", "x/ftdc/collector_streaming.go", "x/ftdc/writer.go", "x/ftdc/bson_extract.go", "x/ftdc/bson_restore.go", "x/ftdc/read.go", "x/ftdc/util.go"],
  [("delta and run-length encoding", "x/ftdc/collector_better.go:getPayload, x/ftdc/read.go:readChunks"), ("value extraction", "x/ftdc/bson_extract.go, x/ftdc/bson_metric.go, x/ftdc/bson_restore.go")],
  ["Collector.Add, Resolve, FlushCollector, NewWriterCollector, ReadStructuredMetrics, ReadChunks"],
  "runtime monitoring: conservation of samples, with an independent FTDC reader and writer as oracle", "")
P("F03", "Schema changes are followed or refused, never mixed up",
  "The dynamic collectors follow any change of the shape of samples (fields renamed, reordered, retyped, added, removed, nested differently) with a new chunk, and everything is read back exactly. The collectors of one schema refuse a sample with another number or other types of metrics with an error, and the samples before and after are unharmed.",
  ["inputs", "histories"], "all pairs of related shapes, at every position relative to the chunk limits",
  "The tests change between two or three unrelated shapes.",
  ["x/ftdc/bson_hash.go", "x/ftdc/collector_dynamic.go", "x/ftdc/collector_streaming.go", "x/ftdc/collector_better.go"],
  [("schema hash", "x/ftdc/bson_hash.go:metricKeyHash"), ("schema comparison", "x/ftdc/collector_better.go:Add")],
  ["samples and chunk sizes read back; errors of Add"],
  "runtime monitoring: conservation of samples over generated families of related schemas", "Collectors of one schema compare metrics by number and type, not by name, as documented.")
P("F04", "Collectors behave as their model through any history",
  "Through any sequence of adding good and bad samples, setting and unsetting metadata, asking for counts, resolving, resetting and flushing, every collector's results, counts and output are those of its documented behaviour: errors change nothing, Resolve can be repeated and its result stays as it was, Reset forgets, a flush writes everything once, metadata accompanies the chunks it was set for. A sampling collector takes a sample exactly when its interval has passed.",
  ["histories"], "all sequences of operations on all collectors and wrappers",
  "The tests run the same short script of operations on each collector.",
  ["x/ftdc/collector_better.go", "x/ftdc/collector_batch.go", "x/ftdc/collector_dynamic.go", "x/ftdc/collector_streaming.go", "x/ftdc/collector_buffered.go", "x/ftdc/collector_sync.go", "x/ftdc/collector_sample.go", "x/ftdc/read.go"],
  [("collector state", "x/ftdc/collector_*.go"), ("flush", "x/ftdc/collector_streaming.go:FlushCollector")],
  ["results of every operation; contents of every output"],
  "runtime monitoring: online model checker of operation histories", "")
P("F05", "Failing writes lose and repeat no acknowledged sample",
  "When the underlying writer of a streaming collector or collecting writer fails or writes short at any point, the operation reports an error, the samples are kept, and after the writer recovers, every sample that was acknowledged is written exactly once, in order. Closing reports a failed flush or close.",
  ["faults", "histories"], "all positions and kinds of write faults, over all histories of adds, retries and flushes",
  "No test has a failing writer beyond one that always fails.",
  ["x/ftdc/collector_streaming.go", "x/ftdc/writer.go"],
  [("flush and reset", "x/ftdc/collector_streaming.go:FlushCollector, Add")],
  ["completed writes; errors of Add, FlushCollector and Close"],
  "runtime monitoring: fault injection with an exactly-once checker over the completed writes", "Bytes of a failed write are discarded by the output's owner.")
P("F06", "Damaged or cut FTDC streams are reported, with the good part intact",
  "Reading a stream that is cut, damaged in its compressed data, inconsistent, or whose source fails yields exactly the samples of the chunks before the damage and then an error from Close, through every reader; a cut between documents is simply the end. No input makes a reader panic or hang, and abandoning an iteration leaves nothing running.",
  ["inputs", "faults"], "all cuts, all damage of the data, all source errors, all hostile contents",
  "The tests read intact files, and a few constant corruptions.",
  ["x/ftdc/read.go", "x/ftdc/iterator.go", "x/ftdc/iterator_chunk.go", "x/ftdc/bson_metric.go", "x/ftdc/bson_restore.go"],
  [("checks of the payload", "x/ftdc/read.go:readChunks"), ("error collection", "x/ftdc/iterator_chunk.go:ReadChunks")],
  ["documents and errors of ReadChunks, ReadMetrics, ReadStructuredMetrics, ReadMatrix, ReadSeries"],
  "runtime monitoring: fault injection into streams, compared with the undamaged prefix; goroutine leak monitor", "Damage of the field that says what a document is can't be told from another document.")
P("F07", "Uncompressed collectors write every document as it was given",
  "Through any sequence of operations, the uncompressed collectors (BSON or JSON, plain, streaming, dynamic) output the metadata and then the given documents, all their fields included, in order and once, one after the other or one per line; more than the limit or another number of fields is refused or starts a new batch, as each collector documents.",
  ["histories"], "all sequences of operations on the six uncompressed collectors",
  "The tests check sizes and counts of uniform documents.",
  ["x/ftdc/collector_uncompressed.go", "x/ftdc/collector_streaming.go"],
  [("output", "x/ftdc/collector_uncompressed.go:Resolve")], ["bytes of every output, counts, errors"],
  "runtime monitoring: online model checker of operation histories, byte by byte", "The JSON of a single document is decided by J01 and J02.")
P("F08", "Concurrent collection loses, repeats and mixes no sample",
  "Goroutines that add to one synchronized or buffered collector, while others resolve, flush, set metadata, ask for counts or cancel the context, do not race: every acknowledged sample is output exactly once, samples of one goroutine stay in order, what is resolved meanwhile is a consistent snapshot, and errors behind the buffer are reported by the next Resolve or flush.",
  ["schedules"], "all interleavings of adders, observers, flushes and cancellation",
  "The tests add from a few goroutines and look at counts.",
  ["x/ftdc/collector_sync.go", "x/ftdc/collector_buffered.go", "x/ftdc/collector_streaming.go"],
  [("locks and pipe", "x/ftdc/collector_sync.go, x/ftdc/collector_buffered.go")], ["output compared with the acknowledged samples; Go race detector"],
  "runtime monitoring: Go race detector, injected delays, exactly-once and per-goroutine order checker", "")
P("F09", "All views of an FTDC stream agree with the samples",
  "The chunk, metric, flattened, structured, matrix and series views of a stream have exactly the samples' values, with the full path of every metric as its key and the right counts and metadata; iterating again gives the same, and changing a document that a view gave changes no other.",
  ["inputs"], "all sample shapes (nested documents and arrays, repeated keys), all views",
  "The tests compare counts of the views on a few files.",
  ["x/ftdc/iterator.go", "x/ftdc/iterator_chunk.go", "x/ftdc/ftdc.go", "x/ftdc/bson_matrix.go", "x/ftdc/bson_metric.go", "x/ftdc/bson_restore.go"],
  [("views", "x/ftdc/iterator_chunk.go, x/ftdc/ftdc.go:exportMatrix, export")], ["every view's documents; Metric.Key, Values, ParentPath; Chunk.Size, Len, Metadata"],
  "runtime monitoring: differential oracle over every view", "Flattened timestamps are two integers; the series need a registered marshaler and distinct keys.")
P("F11", "CSV export and import keep every value",
  "The CSV written for a stream has a header with every metric's key and one row per sample with exactly its values, in a new file for every change of the number of fields when dumping; converting CSV to FTDC keeps every integer and floating point value exactly, following header changes. Failing sources and outputs are reported.",
  ["inputs", "faults"], "all numeric streams, all keys that need quoting, all CSV texts of numbers and other fields, faults at any position",
  "The tests compare row counts.",
  ["x/ftdc/csv.go"], [("formatting and parsing", "x/ftdc/csv.go:getRecord, ConvertFromCSV")], ["WriteCSV, DumpCSV, ConvertFromCSV"],
  "runtime monitoring: output parsed by an independent CSV reader and compared; fault injection", "Going back to the first number of fields is refused, as the tests require; dates are in the years 1 to 9999.")
P("E01", "Performance events marshal to exactly their values, and back",
  "Performance, histogram and custom events marshal to documents with exactly their fields, types, order and values (times to the millisecond), also when collected as samples; a performance event restored from its document, in any field order, is the same, and a field of the wrong type is refused. Custom events keep all points, sorted stably by name, and refuse unsupported values. Adding events sums counters and timers and takes the rest from the newer.",
  ["inputs"], "all events of all values",
  "The tests compare a few fields of one event.",
  ["x/ftdc/events/performance.go", "x/ftdc/events/histogram.go", "x/ftdc/events/custom.go"],
  [("documents", "x/ftdc/events/performance.go:MarshalDocument, UnmarshalDocument, Add; x/ftdc/events/custom.go:Add, MarshalDocument")],
  ["MarshalDocument, MarshalBSON, UnmarshalDocument, UnmarshalBSON, Add, collected samples"],
  "runtime monitoring: differential oracle (independent BSON model) on every event", "")
P("E02", "Event collectors record the running sums, when they should",
  "Every sample of the basic, sampling, random and interval event collectors is the sum of all events so far, with the newest timestamp, ID and gauges, and the passthrough's is the event; samples are recorded for every event, every n-th, once per interval, or at the given rate. Callers' events are never changed or kept, nothing but events is added, errors are passed on, through wrappers too, and don't disturb the sums, flushing loses no event, and the synchronized collector is safe for concurrent use.",
  ["histories", "schedules"], "all sequences of events and other operations on all event collectors, all interleavings with the synchronized one",
  "The tests add a few identical events and count samples.",
  ["x/ftdc/events/collector.go"], [("summing and sampling", "x/ftdc/events/collector.go:AddEvent")],
  ["the samples that reach the underlying collector; errors; Go race detector"],
  "runtime monitoring: online model checker of operation histories, timing monitor, race detector", "A random collector's rate is judged statistically, with bounds that no run of the right code misses.")
P("E03", "Recorders persist what the iterations recorded, exactly and on time",
  "Through any sequence of iterations, ended tests and resets, every persisted point of the raw, grouped, single and histogram recorders has exactly the totals recorded since the last end of test or reset, and the points of the interval recorders sum up to them; gauges are the last ones set, measured times cover the iterations, every point has a timestamp of its own or the one that was set. Points are persisted on each iteration, on the interval, or at the end of the test, as each recorder documents; EndTest persists the rest and reports all errors since. Wrappers change nothing.",
  ["histories"], "all sequences of recorder operations on all recorders and wrappers",
  "The tests run ten equal iterations on each recorder.",
  ["x/ftdc/events/recorder_performance_raw.go", "x/ftdc/events/recorder_performance_grouped.go", "x/ftdc/events/recorder_performance_single.go", "x/ftdc/events/recorder_performance_interval.go", "x/ftdc/events/recorder_histogram.go", "x/ftdc/events/recorder_histogram_grouped.go", "x/ftdc/events/recorder_histogram_single.go", "x/ftdc/events/recorder_histogram_interval.go", "x/ftdc/events/recorder_wrapper_sync.go", "x/ftdc/events/recorder_wrapper_stdlib.go"],
  [("point state", "x/ftdc/events/recorder_*.go: EndIteration, EndTest, Reset")],
  ["points as they reach the collector; errors of EndTest; calls of the timer"],
  "runtime monitoring: online model checker of operation histories, with sound bounds for measured times", "Data is recorded within iterations or before an EndIteration.")
P("E04", "Recorders for concurrent use lose nothing, and stop when told",
  "Goroutines that share a synchronized or interval recorder don't race, and the totals persisted are exactly what all of them recorded, whenever the background ticks fall. An interval recorder persists in the background from the first iteration on, in every test; nothing is added after EndTest or Reset, and its goroutine ends with the test or the context.",
  ["schedules"], "all interleavings of recording goroutines, ticks, EndTest, Reset and cancellation",
  "The tests use recorders from one goroutine.",
  ["x/ftdc/events/recorder_wrapper_sync.go", "x/ftdc/events/recorder_performance_interval.go", "x/ftdc/events/recorder_histogram_interval.go"],
  [("locks and the background worker", "x/ftdc/events/recorder_*_interval.go:worker, BeginIteration, reset")],
  ["points as they reach the collector; running goroutines; Go race detector"],
  "runtime monitoring: Go race detector, conservation of totals, liveness and goroutine leak monitors", "")
P("H01", "Histograms are restored exactly, and damaged ones refused",
  "A histogram of any range and precision, with any values, comes back the same from its BSON, document and JSON form, and goes on recording as the original. A snapshot with wrong types, counts, range or precision is refused with an error, without a panic and without changing the receiver.",
  ["inputs"], "all histograms, all damaged snapshots",
  "No test covers the package.",
  ["x/ftdc/hdrhist/snapshot.go"], [("restoring", "x/ftdc/hdrhist/snapshot.go:UnmarshalDocument, restore")],
  ["MarshalDocument, MarshalBSON, MarshalJSON and their inverses"],
  "runtime monitoring: differential oracle on every snapshot; fault-injected snapshots under a panic monitor", "")
P("M01", "Wire messages serialize to exactly their protocol, and parse back",
  "A message of any type serializes to exactly the bytes the MongoDB wire protocol gives it, with the right total size in its header; serializing again gives the same. Reading any well-formed message, from this package or another implementation, keeps its request and response IDs, flags, cursor, names, sections, checksum and every document, gives the same bytes when serialized, and the model, scope and op code that fit it. Queries on a $ collection become the command they stand for. Inserts and OP_MSG messages keep the documents they were made of, whatever happens to those later.",
  ["inputs"], "all messages of the ten types, with all numbers, names, flags and documents",
  "The tests construct one message of a few types and look at a field or two.",
  ["x/mrpc/mongowire/message.go", "x/mrpc/mongowire/header.go", "x/mrpc/mongowire/wire_message.go", "x/mrpc/mongowire/wire_command.go", "x/mrpc/mongowire/wire_query.go", "x/mrpc/mongowire/wire_reply.go", "x/mrpc/mongowire/wireutil.go"],
  [("encoders and parsers", "x/mrpc/mongowire/wire_*.go: Serialize, parse*"), ("models", "x/mrpc/mongowire/message.go:GetModel")],
  ["Serialize, Header, Scope, HasResponse, GetModel, ReadMessage, MessageHeader.Parse"],
  "runtime monitoring: differential oracle (independent wire protocol encoder) on every message", "HasResponse of an OP_MSG isn't judged.")
P("M02", "Messages are framed exactly on any stream",
  "However a stream splits its bytes, reading a message consumes exactly that message, and messages are read one by one, as they were sent. The end between messages is io.EOF; an end within one, a source's error and an impossible size are other errors. Sending writes the whole message once, or reports the writer's error. A cancelled context stops reading and sending at once, even while they are blocked.",
  ["inputs", "faults", "schedules"], "all streams of messages, all ways of splitting and cutting them, all faults of readers and writers, cancellation at any point",
  "The tests read single messages from a buffer.",
  ["x/mrpc/mongowire/sock.go"], [("framing", "x/mrpc/mongowire/sock.go: ReadMessage, SendMessage, runWithContext")],
  ["messages, errors, bytes consumed and bytes written"],
  "runtime monitoring: fault injection into readers and writers, with exact consumption and liveness monitors; race detector", "")
P("M03", "Hostile messages are refused without harm",
  "A message is accepted exactly when its body is well-formed for its type: numbers and strings complete, documents valid BSON, sections within the message. Anything else is refused with an error; whatever is accepted can be used completely. No bytes make it panic, and it allocates in proportion to what arrives, not to what a length announces.",
  ["inputs"], "all byte sequences as message bodies, all announced lengths",
  "The tests have a few messages that are too short.",
  ["x/mrpc/mongowire/wire_message.go", "x/mrpc/mongowire/wire_command.go", "x/mrpc/mongowire/wire_kill_cursors.go", "x/mrpc/mongowire/sock.go"],
  [("bounds", "x/mrpc/mongowire/wire_*.go: parse*")], ["ReadMessage, MessageHeader.Parse; everything a message gives"],
  "runtime monitoring: fault-injected messages under panic and allocation monitors; verdicts compared with an independent parser", "Bytes after the last field of messages of fixed fields aren't judged.")
P("M04", "Operations are registered once, under valid scopes, and found",
  "A scope is valid exactly when it has the command or namespace its op type needs and nothing it can't have. The registry takes one handler per valid scope, and refuses invalid scopes, repeated ones and nil handlers; lookups give the handler of the exact scope, or else the one without a context, also under concurrent use. Namespaces split at the first dot, and are commands when the collection begins with $.",
  ["inputs", "histories", "schedules"], "all scopes and namespaces, all sequences of registrations and lookups",
  "The tests register a few scopes one after another.",
  ["x/mrpc/registry.go", "x/mrpc/mongowire/scope.go", "x/mrpc/mongowire/namespace.go"],
  [("validation", "x/mrpc/mongowire/scope.go:Validate"), ("lookup", "x/mrpc/registry.go: Add, Get")], ["Validate, Add, Get, Namespace functions"],
  "runtime monitoring: online model checker of operation histories; race detector", "")
P("M05", "A service gives every request to its handler, once",
  "Every request on every connection, however many there are, however large, and however long other handlers take, is given to the handler of its scope exactly once, whole and unchanged, with the service's context and a writer to its connection. A request without a handler, a malformed one and a handler's panic close their connection and are reported to the error handlers, and concern no other connection. A connection that can't be accepted for now is reported, and served when it can. Cancelling the context ends the service, its connections and its goroutines; an address that is taken is an error.",
  ["schedules", "faults"], "all interleavings of connections, requests, handlers, failures and cancellation",
  "No test starts a service.",
  ["x/mrpc/service.go", "x/mrpc/registry.go", "x/mrpc/mongowire/sock.go"],
  [("dispatch", "x/mrpc/service.go: Run, dispatchRequest, handleRequest")], ["what handlers are given; replies; closed connections; reported errors; goroutines"],
  "runtime monitoring: real clients on the loopback network, exactly-once and leak monitors, Go race detector", "TLS is not used.")
P("S01", "The shell service answers its commands in the request's protocol",
  "Documents become requests and responses of the asked protocol and come back the same, also over the wire; messages that have no such document are refused. Error responses keep their status and text through their document, and give the error they stand for; fields of a wrong type are refused. Each of the shell's commands is answered, in either protocol, with the message it stands for, and failing writers are reported.",
  ["inputs"], "all documents, error texts and messages; all commands in all protocols",
  "No test covers the package.",
  ["x/mrpc/shell/io.go", "x/mrpc/shell/util.go", "x/mrpc/shell/service.go"],
  [("conversions", "x/mrpc/shell/util.go"), ("commands", "x/mrpc/shell/service.go")], ["the exported functions; bytes of every response"],
  "runtime monitoring: differential oracle on every message", "")
P("L01", "A list document behaves as an ordered list of elements",
  "Through any sequence of appending, prepending, setting and deleting, a list document has the elements of the list the same operations produce, in order, forwards and backwards, with the right length and encoded size; deleting gives the first element of the key, empty values are left out when asked, and nil elements are refused.",
  ["histories"], "all sequences of operations on list documents",
  "No test covers the package.",
  ["x/blist/blist.go"], [("operations", "x/blist/blist.go")], ["the elements, length and size after every operation"],
  "runtime monitoring: online model checker of operation histories", "")
P("K01", "JSON streams are collected completely, in order, or it is an error",
  "Collecting newline-separated JSON documents, from a reader or a file, records every document once, in order, in the sequence of files prefix.0, prefix.1 and so on, which are made at the flush interval and can each be read alone. A malformed line, a source's error or panic, a line that is too long, output that can't be written, and a cancelled context give errors, and what was written until then is the first documents. Following a file also collects everything written to it before and after, however the writes split its lines. No goroutine or open file is left behind.",
  ["inputs", "faults", "schedules"], "all streams of documents, all options, all faults of sources and outputs, cancellation at any point, all ways of writing a followed file",
  "The tests collect two files of a hundred documents, look at the metrics of three documents, and follow one file without looking at what is collected.",
  ["x/ftdc/metrics/json.go", "x/ftdc/collector_dynamic.go", "x/ftdc/collector_batch.go"],
  [("sources", "x/ftdc/metrics/json.go: getSource, follow"), ("flushing", "x/ftdc/metrics/json.go: CollectJSONStream")],
  ["the error; the decoded output files; goroutines and open files left"],
  "runtime monitoring: exactly-once and order oracle on the decoded output, fault injection, leak monitors; race detector", "Blank lines are not judged.")
P("K02", "Runtime collections record every sample once",
  "Until its context is cancelled, a runtime collection takes samples and records each once, with consecutive IDs from 0, in the files prefix.0, prefix.1 and so on, nothing being lost between files or at the end. A sample has the parts that aren't skipped and, under its name, in order of the names, what each custom collector gave for it, called once, whether they run in sequence or in parallel. A panic of a parallel collector, output that can't be written, and invalid options are errors, each reported.",
  ["inputs", "schedules", "faults"], "all options, sets of collectors, intervals and moments of cancellation",
  "The tests run two collections and count the fields of their samples; none has a custom collector.",
  ["x/ftdc/metrics/metrics.go", "x/ftdc/metrics/runtime.go", "x/ftdc/collector_streaming.go"],
  [("sampling", "x/ftdc/metrics/metrics.go:generate"), ("flushing", "x/ftdc/metrics/metrics.go:CollectRuntime"), ("options", "x/ftdc/metrics/metrics.go:Validate")],
  ["the error; the decoded output files; the calls of the custom collectors; open files left"],
  "runtime monitoring: exactly-once and order oracle on the decoded output; race detector", "")
P("K03", "Metrics documents have exactly what was measured",
  "The documents of Go runtime, process, system and aggregated metrics have exactly the fields of their structures, each under its own name, whatever the numbers. The counters of the Go runtime are its own: totals never decrease, counts since the last collection neither lose nor repeat an event, also when collected concurrently. Process metrics describe the processes asked for, each once, with their parents and commands.",
  ["inputs", "histories", "schedules"], "all numbers, names and sets of devices; all sequences of collections",
  "The tests count the fields of one document, and look for duplicate processes.",
  ["x/ftdc/metrics/golang_info.go", "x/ftdc/metrics/process_info.go", "x/ftdc/metrics/system_info.go", "x/ftdc/metrics/birch_builders.go", "x/ftdc/metrics/runtime.go", "x/ftdc/metrics/platform_linux.go"],
  [("documents", "x/ftdc/metrics: MarshalDocument"), ("counters", "x/ftdc/metrics/golang_info.go: update, build")],
  ["every field of every document; runtime.MemStats around collections; /proc of this process and its child"],
  "runtime monitoring: differential oracle (an independent table of fields) and conservation monitor of counters; race detector", "Linux only.")
