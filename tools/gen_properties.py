#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept here in readable form)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
            "mechanism": [{"name": a, "where": b} for a, b in mech],
            "observe_at": list(observe),
            "hook_needed": hook,
        },
    })

p("C01", "Binary round trip preserves every value",
  "Decoding the binary encoding of any value gives back the same content: the same kind and number or string type, the same payload bit for bit, and the same elements in the same order or under the same keys (nil elements and holes of a list read back as null). "
  "This holds for every encoding entry point (whole buffer, writer, per-value binary marshalling) combined with every decoding entry point (buffer with or without copying, reader), and decoding consumes exactly the bytes that were produced.",
  ["inputs"], "every value: any leaf payload, any string/blob/extension length, any container shape, size and nesting, any container flavour",
  "The tests round-trip about 60 fixed values, none longer than 10 elements or nested deeper than 2; every size class of the wire format and every payload boundary is a separate case.",
  ["msgpack.go", "unpack.go", "number.go", "string.go", "unknown.go", "utils.go"],
  [("header writers and parsers", "msgpack.go"), ("recursive parse", "unpack.go"), ("per-type Pack methods", "number.go, string.go, immutablelist.go, sparselist.go, immutablemap.go, sortedmap.go")],
  observe=["Pack", "Write", "MarshalBinary", "Unpack", "Read", "accessors of the decoded value"])

p("C02", "The encoding is exactly canonical MessagePack",
  "The bytes produced for any value are the MessagePack encoding of its content with the shortest possible header for every integer, length and count: doubles as 64-bit floats, text as str, blobs as bin, dense lists as arrays, index-keyed lists as maps with ascending integer keys, maps with ascending string keys, nil elements as nil, big integers and decimals as extension types 1 and 2, other extensions under their own type and data. "
  "Direct use of the packer gives the same bytes for the same calls.",
  ["inputs"], "every value and every sequence of packer calls, over all header size classes and their boundaries",
  "The tests pin a few dozen hex strings; no list, map, string, blob or extension in them reaches a 16- or 32-bit header.",
  ["msgpack.go", "pack.go", "number.go", "string.go", "unknown.go"],
  [("header writers", "msgpack.go WriteLong/WriteStrHeader/WriteBinHeader/WriteExtHeader/WriteArrayHeader/WriteMapHeader"), ("packer", "msgpack.go messagePacker")],
  observe=["Pack", "Hex", "MarshalBinary", "MessagePacker calls into a writer"])

p("C03", "Same content always serializes to the same bytes and hash",
  "Two values with the same content serialize to the same bytes and the same hash, no matter in which order their entries were added, replaced, removed or re-added, whether they were built one by one or in bulk, from which container flavour (immutable or mutable) or by decoding, and how often they are serialized. "
  "Values with different content serialize to different bytes.",
  ["histories", "inputs"], "every pair of construction histories leading to the same content; every pair of values with different content",
  "README promises deterministic serialization for hashing; the tests serialize each container after a single construction order.",
  ["immutablemap.go", "sortedmap.go", "sparselist.go", "immutablelist.go", "solidlist.go", "utils.go"],
  [("sorted insertion", "immutablemap.go, sortedmap.go, sparselist.go insertAt/replaceAt/append"), ("sorting constructors", "ImmutableMapOf, SortedMapOf, ImmutableMap, SortedMap, SparseList"), ("Hash", "utils.go")],
  observe=["Pack", "Hash", "Hex", "MarshalBinary"])

p("C04", "Every byte string decodes to its MessagePack value or to an error",
  "Decoding any byte string returns either the value MessagePack assigns to its first item or an error, and never panics, hangs or returns something else; input that ends before the item is complete, and malformed big-integer or decimal payloads, are always errors. "
  "A non-empty map whose keys are all integers decodes to an index-keyed list ordered by key, a map with text keys (integers among them becoming their decimal text) to a string-keyed map ordered by key, entries with equal keys keeping their order, maps with any other keys either to some map or to an error, and unknown extensions keep their type and data.",
  ["inputs"], "every byte string (the meaning of an empty big-integer payload is left open), in particular every non-canonical but valid encoding, every truncation and every mixed-key map",
  "The tests only decode what the library itself encoded; no malformed, truncated, non-canonical or foreign input is decoded anywhere.",
  ["unpack.go", "msgpack.go", "number.go"],
  [("format dispatch", "unpack.go doParse"), ("map/list classification", "unpack.go doParseMap"), ("header parsing", "msgpack.go messageParser, nextFormat")],
  observe=["Unpack", "Read", "Parse"])

p("C05", "Decoding resources are bounded by the input actually supplied",
  "The memory a decoder allocates is bounded by a constant factor of the number of bytes actually supplied, whatever counts and lengths the input declares. "
  "Input nested too deeply for the stack is refused with an error instead of crashing the process.",
  ["inputs"], "every input, in particular every declared count/length up to 2^32-1 with little or no data behind it, at every position and nesting level, for buffer, reader and struct decoding",
  "No test decodes a header whose declared size exceeds the data, nor anything nested deeper than 2.",
  ["unpack.go", "msgpack.go", "struct.go"],
  [("list and map allocation", "unpack.go doParseList/doParseMap"), ("reader payload allocation", "msgpack.go messageIOUnpacker.Read"), ("struct array allocation", "struct.go ParseStruct")],
  observe=["Unpack", "Read", "ReadStream", "UnpackStruct", "allocation statistics"])

p("C06", "Reading does not depend on how the reader delivers bytes",
  "Reading values from a reader gives the same values and the same end as decoding the concatenated bytes, however the reader splits them: any short reads, empty reads, data returned together with end of file, and readers with or without single-byte reads. "
  "Reading never takes bytes beyond the values it returned.",
  ["inputs", "fault_sequences"], "every byte sequence of values and every segmentation of it into read results",
  "The only streaming test reads from an in-memory buffer that always answers every read in full.",
  ["msgpack.go", "utils.go"],
  [("token reader", "msgpack.go messageIOUnpacker.Next/Read"), ("stream loop", "utils.go ReadStream, Read")],
  observe=["Read", "ReadStream", "MessageReader with Parse"])

p("C07", "Stream truncation and read errors are reported, nothing is invented",
  "When the input of a stream ends or fails at any byte, exactly the values completely contained in the bytes before that point are delivered, in order, then the output channel is closed and an error is returned. "
  "The error is end-of-file only if the input ended cleanly between two values; an end inside a value is reported as unexpected, and a failure of the underlying reader is reported as that failure.",
  ["fault_sequences", "inputs"], "every stream of values, every cut position and every position of a read failure (with or without data), for every kind of reader",
  "No test cuts a stream or injects a read error.",
  ["msgpack.go", "unpack.go", "utils.go"],
  [("end of input classification", "msgpack.go messageIOUnpacker.Next/Read, messageBufUnpacker.Next"), ("nested parsing", "unpack.go doParseList/doParseMap"), ("stream loop", "utils.go ReadStream")],
  observe=["Read", "ReadStream", "Unpack"])

p("C08", "Write failures are reported and stop the output",
  "If the underlying writer fails at any point while a value or a stream of values is written, the writing call returns that failure, and nothing is passed to the writer after the failing call. "
  "What had been written before is a prefix of the correct encoding.",
  ["fault_sequences", "inputs"], "every value or sequence of values and every position at which the writer starts to fail, including partial writes and failures that later clear",
  "No test writes to a failing writer.",
  ["msgpack.go", "utils.go"],
  [("sticky error", "msgpack.go messagePacker.err"), ("stream loop", "utils.go WriteStream, Write")],
  state=[("packer error", "first write failure, sticky", "msgpack.go messagePacker")],
  observe=["Write", "WriteStream", "Packer.Error"])

p("C09", "Immutable values never change",
  "No sequence of library operations, applied to an immutable list, an immutable map, or a sparse list while fast appends are disabled, to values derived from it, or to the views, copies and conversions obtained from it, ever changes what that instance or any other earlier instance contains or serializes to. "
  "Slices passed as arguments to operations are not modified either. In-place updates of index-keyed lists, which are explicit mutations, are the only exception, and a slice handed to a constructor belongs to the new value.",
  ["histories"], "every instance, every tree of operations growing from it (several results derived from the same instance), every size including those where slices have spare capacity",
  "Tests apply one linear sequence and look only at the latest result, so sharing between an instance and its derived versions is invisible.",
  ["immutablelist.go", "immutablemap.go", "sparselist.go", "mapentry.go", "listitem.go"],
  [("copy on write", "immutablelist.go and immutablemap.go append/putAt/insertAt/removeAt/insertSliceAt/appendSlice/removeSliceAt"), ("fast append switch", "sparselist.go, api.go AllowFastAppends")],
  state=[("backing arrays", "shared between derived versions", "immutablelist.go, immutablemap.go, sparselist.go")],
  observe=["all accessors and the encoding of every earlier instance"])

p("C10", "Dense lists behave as sequences under every operation history",
  "Immutable and mutable dense lists both behave as a plain sequence: append adds at the end, put replaces or extends leaving nil holes, insert shifts right (appending when beyond the end), insert-all inserts a run, remove deletes one position, and negative or absent positions change nothing. "
  "After every history, length, element access, values, items, entries, selection and serialization all agree with that sequence.",
  ["histories"], "every sequence of operations with any positions and values, each applied to the latest version, from every starting list and every way to construct it",
  "Tests run one or two short sequences; the special cases for first, last, middle and out-of-range positions and in-place slices are mostly never executed.",
  ["immutablelist.go", "solidlist.go", "factory.go"],
  [("position case analysis", "immutablelist.go, solidlist.go insertAt/removeAt/putAt/insertSliceAt"), ("in-place slice reuse", "solidlist.go append")],
  observe=["GetAt", "Len", "Values", "Items", "Entries", "Select", "Pack"])

p("C11", "Maps behave as sorted string-keyed multimaps under every history",
  "Immutable and mutable maps both behave as a multimap sorted by key: put replaces the first entry of the key or adds one, insert adds one before the existing ones, insert-all adds a run before them, remove deletes the first, delete-all deletes every one, and absent keys change nothing. "
  "After every history, length, lookup, selection, keys, values, entries, hash map and serialization all agree with that multimap.",
  ["histories"], "every sequence of operations over any keys (empty, prefixes of each other, any bytes) and values, each applied to the latest version, from every starting map and every way to construct it",
  "Tests run one put/insert/remove sequence over four keys; insert-all, delete-all and select are never called.",
  ["immutablemap.go", "sortedmap.go", "factory.go"],
  [("binary search", "immutablemap.go, sortedmap.go"), ("position case analysis", "insertAt/removeAt/insertSliceAt/removeSliceAt")],
  observe=["Get", "Len", "Select", "Keys", "Values", "Entries", "HashMap", "Pack"])

p("C12", "Sparse lists behave as sorted integer-keyed multimaps",
  "A sparse list behaves as a multimap sorted by integer index, with the same put, insert, insert-all, remove, delete-all and select meaning as a map, append adding at the highest index plus one (at zero if the list is empty), and length being the highest index plus one (zero if there is no non-negative index). "
  "This holds with fast appends enabled or disabled, and all views of the list agree with that multimap after every history.",
  ["histories", "configurations"], "every sequence of operations over any indexes (negative, duplicate, far apart), each applied to the latest version, both settings of the fast-append switch, every starting list",
  "Tests run one put and one insert sequence with fast appends enabled; in-place removal and insertion in the middle are not reached.",
  ["sparselist.go", "listitem.go", "api.go"],
  [("binary search on index", "sparselist.go"), ("fast append paths", "sparselist.go append/insertAt/removeAt/removeSliceAt/appendSlice/insertSliceAt")],
  observe=["GetAt", "Len", "Select", "Values", "Items", "Entries", "Pack"])

p("C13", "In-place update and copies affect exactly their target",
  "Updating a mutable container in place calls the updater once with the current value of the first matching entry, stores its result (nil as null) there and in no other entry of that container, and reports success; with no such entry, or on an immutable or decoded container, it reports failure, calls nothing and changes nothing. "
  "An explicit copy of a map is independent of its source: an immutable copy never changes, and a mutable copy can be updated without either one affecting the other.",
  ["histories"], "every container, every position or key including absent and duplicate ones, every interleaving of updates on a map and its copies",
  "No test calls an update operation or a copy constructor.",
  ["mapentry.go", "listitem.go", "sortedmap.go", "immutablemap.go", "solidlist.go", "sparselist.go"],
  [("mutable and immutable entries", "mapentry.go, listitem.go"), ("copy constructors", "ImmutableMapCopyOf, SortedMapCopyOf")],
  observe=["Update", "UpdateAt", "contents of all live containers"])

p("C14", "Typed getters are total and coerce consistently",
  "Asking any container for a boolean, number, string, list or map at any position or key never fails: an element of the requested kind is returned as it is, an absent, null or nil element gives false, zero, the empty string, an empty list or an empty map, and another scalar asked for as boolean, number or string is converted through its text form. "
  "A map read as a list gives its values in key order, a list read as a map gives its elements under their decimal index (equal indexes in their order), and other mismatches asked for as list or map give the empty container; all container flavours agree.",
  ["inputs"], "every container flavour, every element kind including nested containers, holes and nil, every position or key (nested containers asked for as a scalar only have to succeed and agree between flavours)",
  "Tests call typed getters only on present elements of the right kind.",
  ["immutablelist.go", "solidlist.go", "sparselist.go", "immutablemap.go", "sortedmap.go", "bool.go", "number.go", "string.go"],
  [("getter coercions", "Get*At in immutablelist.go/solidlist.go/sparselist.go, Get* in immutablemap.go/sortedmap.go"), ("text parsing", "ParseBoolean, ParseNumber, ParseString")],
  observe=["GetBoolAt..GetMapAt", "GetBool..GetMap"])

p("C15", "Equality is total, symmetric and means equal content",
  "Comparing any two values never panics and gives the same answer in both directions, nil counting as null; any value not containing NaN equals itself, its decoded encoding and any other value with the same content. "
  "Values of different kinds differ, text and blobs compare by bytes, numbers compare exactly by numeric value across types (a double equals a number whose nearest double is less than 0.00001 away, NaN and unequal infinities equal nothing), dense lists and lists compared with them element by element, sparse lists and maps by their full sequence of entries.",
  ["inputs"], "every pair of values across all kinds, number types, string types and container flavours, including holes, duplicates, infinities and huge magnitudes (numbers right at the tolerance only have to compare the same in both directions)",
  "Tests compare a value with its own decoding only; no cross-type, cross-flavour, reversed or unequal pair is compared.",
  ["number.go", "string.go", "utils.go", "immutablelist.go", "solidlist.go", "sparselist.go", "immutablemap.go", "sortedmap.go"],
  [("Equal methods", "number.go, string.go, bool.go, null.go, unknown.go, all containers"), ("nil-friendly Equal", "utils.go")],
  observe=["Equal in both directions"])

p("C16", "Number arithmetic and conversions are exact and total",
  "Adding or subtracting any two numbers never panics, leaves both operands unchanged and returns a number of the left operand's type: wrap-around 64-bit for longs, IEEE for doubles with NaN propagating, exact for big integers and decimals, the right operand being converted to the left type first (fraction dropped for integers, NaN and infinities counting as zero for big integers and decimals). "
  "Conversions between number types are exact whenever the target type can represent the value, a double standing for its shortest decimal text when it becomes a decimal.",
  ["inputs"], "every pair of numbers of the four types, including boundaries of int64 and float64, NaN, infinities, negative zero and decimals with positive and negative exponents of moderate size (a conversion the target type cannot represent only has to return)",
  "Tests add 3 and 2, 3.3 and 2.2, and NaN; no mixed-type operation and no boundary is computed.",
  ["number.go"],
  [("Add/Subtract", "number.go"), ("Long/Double/BigInt/Decimal conversions", "number.go")],
  observe=["Add", "Subtract", "Long", "Double", "BigInt", "Decimal", "Type"])

p("C17", "Text forms parse back to the same scalar and parsing is total",
  "Parsing the text form of any boolean, number, text or blob gives back the same scalar: numbers keep their numeric value, big integers and longs also their type, blobs their bytes (text that itself starts with the blob prefix excepted). "
  "Parsing any string as a number never panics: decimal integers in the 64-bit range and hexadecimal integers of any size give exactly that integer, decimal fractions and larger decimal integers the nearest double, hexadecimal decimals that decimal, empty text and null zero, and other text that is no number NaN.",
  ["inputs"], "every scalar, and every string offered to the parsers (extra spellings a general number parser accepts, such as digit separators, hexadecimal floats or the names of infinities, only have to return)",
  "Tests parse about 20 well-formed literals.",
  ["number.go", "string.go", "bool.go", "null.go"],
  [("ParseNumber, parseHexNumber, parseExp", "number.go"), ("formatBigInt, formatDecimal, formatExp", "number.go"), ("ParseString", "string.go")],
  observe=["String", "ParseNumber", "ParseString", "ParseBoolean", "ParseNull"])

p("C18", "JSON output is always valid and carries the content",
  "The JSON form of any value is valid JSON whose parsed content matches the value: lists as arrays, maps and sparse lists as objects with their keys in order, text as strings with the same characters (invalid UTF-8 replaced), longs and finite doubles as numbers with the same numeric value, NaN, infinities, null and nil as null, big integers, decimals, blobs and extensions as strings holding their text form. "
  "Printing, marshalling and embedding in another JSON document all give the same content.",
  ["inputs"], "every value: any characters in text and keys, any double, any nesting",
  "Tests print a dozen values with plain ASCII letters; keys are never escaped in them and no control character, infinity or invalid UTF-8 occurs.",
  ["string.go", "number.go", "immutablemap.go", "sortedmap.go", "sparselist.go", "immutablelist.go", "solidlist.go", "unknown.go"],
  [("PrintJSON/MarshalJSON", "all value types")],
  observe=["Jsonify", "MarshalJSON", "encoding/json.Marshal of a struct or slice holding the value"])

p("C19", "Struct mapping round-trips every field",
  "Packing a pointer to any tagged struct and unpacking the bytes into a fresh struct of the same type restores every field that was set: scalars, lists, maps, generic values, nested structs (including self-referential types), slices and fixed arrays of them, and repeated slices with all their elements in order; unset fields stay unset (an empty repeated slice counts as unset). "
  "The bytes are one map from tag number to value in ascending tag order, independent of field declaration order, and also decode as a generic value.",
  ["inputs", "programs"], "every struct type built from the supported field kinds (interfaces of the library or pointers to tagged structs), every subset of set fields, every element count, every tag numbering",
  "Struct tests check one fully populated flat struct; the repeated and array tests only check that no error is returned.",
  ["struct.go"],
  [("schema reflection and cache", "struct.go reflectSchema"), ("packing", "struct.go doReflectPackStruct"), ("unpacking", "struct.go ParseStruct")],
  state=[("schema cache", "process-wide, keyed by type", "struct.go schemaCache")],
  observe=["PackStruct", "UnpackStruct", "Unpack of the same bytes"])

p("C20", "Struct decoding rejects what does not fit and never panics",
  "Unpacking any bytes into any tagged struct, with UnpackStruct or, one struct after the other, with ParseStruct from any unpacker, never panics: bytes whose tags, kinds or element kinds do not match the struct type, or that are truncated, give an error, and whenever it succeeds the struct holds exactly what the bytes say for each tag. "
  "Unsupported targets (not a pointer to a struct, missing, malformed or duplicate tags, unsupported field types) give an error when packing or unpacking.",
  ["inputs", "programs"], "every byte string and every target type (a tag given twice for a field that is not repeated, targets already holding data, and bytes after the struct are left open)",
  "No test unpacks malformed, truncated or mismatching bytes into a struct, and no unsupported struct type is tried.",
  ["struct.go", "unpack.go"],
  [("ParseStruct, setFieldValue", "struct.go"), ("doReflectSchema validation", "struct.go")],
  observe=["UnpackStruct", "PackStruct"])

p("C21", "Sealed values open only intact and only with the right keys",
  "A sealed value opened with the matching keys gives back the same value; sealing the same value twice gives different ciphertexts. "
  "Any altered, truncated, extended or empty ciphertext, and any other key pair, gives an error and no value, never a panic.",
  ["inputs", "fault_sequences"], "every value, every single-bit alteration, every truncation and extension, every pairing of keys",
  "No test seals or opens anything.",
  ["utils.go"],
  [("Seal, Unseal", "utils.go")],
  observe=["Seal", "Unseal"])

p("C22", "Returned and decoded data never alias buffers reused elsewhere",
  "A value decoded with copying, or from a reader or stream, is independent of the input buffer and of anything decoded later: overwriting the buffer or reading on never changes it. Without copying only blobs and extensions may share the buffer. "
  "Bytes returned by any encoding call belong to the caller: overwriting them changes no value and no later encoding, and blobs created with copying are independent of the given bytes.",
  ["histories", "inputs"], "every value kind at every position of the input, every later overwrite or further read, every encoding call",
  "Tests never overwrite a buffer after decoding or an encoding after receiving it, and compare each decoded value immediately.",
  ["msgpack.go", "unpack.go", "string.go", "unknown.go", "bool.go", "null.go"],
  [("copy flag", "msgpack.go messageBufUnpacker.Read"), ("reader scratch buffer", "msgpack.go messageIOUnpacker.buf"), ("constant encodings", "msgpack.go mpNilBin/mpTrueBin/mpFalseBin")],
  state=[("reader scratch buffer", "overwritten by each token", "msgpack.go messageIOUnpacker.buf")],
  observe=["decoded values after the buffer was overwritten", "encodings after earlier results were overwritten"])

p("C23", "Concurrent use of shared values gives the sequential results",
  "When several goroutines use shared immutable or decoded values (reading, converting, serializing, comparing, deriving new values that stay their own) and independent packers, parsers, streams, struct packing and unpacking at the same time, every call returns what it would return alone, and there is no data race, deadlock or panic. "
  "This includes the first concurrent use of a struct type and of anything built lazily.",
  ["schedules"], "every interleaving of two or three goroutines' calls on shared values",
  "README promises values good for multi-threading; no test shares a value between goroutines.",
  ["immutablelist.go", "immutablemap.go", "sparselist.go", "msgpack.go", "struct.go", "number.go", "string.go", "utils.go"],
  [("immutability", "all value types"), ("schema cache", "struct.go schemaCache (sync.Map)"), ("per-call packers and parsers", "msgpack.go, utils.go")],
  state=[("schema cache", "shared by all goroutines", "struct.go schemaCache")],
  observe=["results of all calls", "race detector"],
  hook="none in /repo: scheduling points are inserted into a build-time overlay copy")

p("C24", "Sequences of values keep their boundaries",
  "Writing any sequence of values through one packer, through repeated writes or through a stream, and reading them back one at a time from a buffer, a reader or a stream, gives exactly the same sequence: every value once, in order, none split or merged, followed by end of file. "
  "The bytes are the concatenation of the single encodings.",
  ["histories", "inputs"], "every sequence of values and every combination of writing and reading path",
  "The stream test sends ten copies of one string from buffer to buffer.",
  ["utils.go", "msgpack.go", "unpack.go"],
  [("WriteStream, ReadStream, Write, Read", "utils.go"), ("packer and unpacker position", "msgpack.go")],
  state=[("unpacker offset", "position after the last complete token", "msgpack.go messageBufUnpacker.off")],
  observe=["Parse on a shared unpacker", "ReadStream channel", "written bytes"])

p("C25", "Tokens packed are the tokens unpacked, and nothing else parses",
  "Whatever sequence of calls is made on a packer, each unpacker delivers exactly those items as tokens in order: the format names the kind, the header is the whole header, the parser function for that kind returns the packed scalar or length (with the tag and data of a short extension), and Read returns the payload, in one piece or several; then EOF. A count or length of 2^32 and more, which MessagePack cannot represent, is an error of the packer that stays, and writes nothing. "
  "For any bytes and any delivery by the reader, both unpackers deliver the tokens MessagePack assigns, EOF only at the end of the input and UnexpectedEOF inside a header, and a payload longer than the input is io.ErrUnexpectedEOF. "
  "A parser function given a header of another kind, or an integer that does not fit int64, reports an error through Error and yields no value, and the error stays.",
  ["inputs", "histories"], "every first byte, header content and cut, every parser function, every sequence of packer calls",
  "The tests use packers, unpackers and parsers only together with whole values, and never give a parser a header of another kind.",
  ["msgpack.go", "pack.go"],
  [("token table", "msgpack.go nextFormat, mpCodeFormat, mpCodeSize"), ("parser functions", "msgpack.go messageParser"), ("unpackers", "msgpack.go messageBufUnpacker, messageIOUnpacker")],
  state=[("unpacker position", "after the last delivered token or payload", "msgpack.go messageBufUnpacker.off"), ("parser error", "first wrong header", "msgpack.go messageParser.err")],
  observe=["Unpacker.Next", "Unpacker.Read", "Parser.Parse*", "Parser.Error"])

p("C26", "Kind, class, type and native object describe the content",
  "Every value, however it was constructed, decoded or returned by an operation, reports the kind of its content, its own dynamic type as class, implements exactly the one interface of its kind, reports the number or string type it was made with, and its native object (nil, bool, int64, float64, *big.Int, decimal, string, bytes, or the values, items or entries of a container) and lengths carry the same content. "
  "Constructors of the same kind agree: Str, Utf8 and Stringf, copied and uncopied raw strings, constants and empty containers, nil arguments counting as empty.",
  ["inputs"], "every kind of value, constructor, decoder and operation",
  "The tests check kinds of a few literals; struct mapping, coercion and equality all rely on kind and class agreeing with the dynamic type.",
  ["bool.go", "null.go", "number.go", "string.go", "unknown.go", "immutablelist.go", "immutablemap.go", "solidlist.go", "sortedmap.go", "sparselist.go", "factory.go", "api.go"],
  [("Kind, Class, Object, Type, Len", "each value type"), ("constructors", "factory.go and each value type")],
  observe=["Kind", "Class", "Object", "Type", "Len", "Native"])

p("C27", "Other implementations of the interfaces work like the library's own",
  "The interfaces are open. A value packed into any implementation of Packer makes exactly one call for each scalar and for each container header, those whose encodings are its encoding; Parse over any implementation of Unpacker and Parser that delivers the tokens of an input gives the value of that input, and an error one of them reports is returned. "
  "Booleans, numbers, strings, extensions, lists and maps, and the items and entries of containers, of other types that behave like a library value are accepted wherever one is (as elements, operands, arguments, sources of copies, targets of updates) and give the same bytes, hash, JSON, text, equality, sums, typed reads and views as the library value would (null excepted, which has one form).",
  ["inputs"], "every value with any of its nodes replaced by a foreign one, every packer, unpacker and parser implementation, every failing call of a foreign parser or unpacker",
  "The tests contain no implementation of any of the interfaces.",
  ["api.go", "pack.go", "unpack.go", "utils.go", "number.go", "string.go", "immutablelist.go", "immutablemap.go", "solidlist.go", "sortedmap.go", "sparselist.go"],
  [("Pack(Packer)", "each value type"), ("doParse", "unpack.go"), ("dispatch on Kind and interface", "number.go equalNumbers, Add, Subtract; containers' typed getters and Equal")],
  observe=["Value.Pack", "Parse", "Pack", "Hash", "Jsonify", "Equal", "typed getters", "Add, Subtract"])

p("C28", "Streams move in lockstep with their sources",
  "Nothing is held back. As soon as the bytes of a value have arrived, ReadStream, Read and Parse over a MessageReader deliver it without needing a further byte or the end of the input, however the bytes are divided; as soon as a value was sent to WriteStream, or Write or a packer call returned, all its bytes are with the writer without another value, call or close. "
  "So two parties can converse over pipes, each waiting for the other's answer before it goes on, for any length of time.",
  ["histories", "schedules"], "every sequence of values, every division of its bytes into arrivals, every reader and writer, every dialogue",
  "The stream test closes the channel and has all bytes before it looks at anything.",
  ["utils.go", "msgpack.go", "unpack.go"],
  [("WriteStream, ReadStream, Write, Read", "utils.go"), ("unbuffered packer and unpacker", "msgpack.go messagePacker, messageIOUnpacker")],
  state=[("bytes requested from the reader", "never beyond the current value before it is delivered", "msgpack.go messageIOUnpacker")],
  observe=["values delivered at the time the reader is asked for more", "bytes written at the time a value was sent"])

p("C29", "Settings take effect at once and everywhere, and nowhere else",
  "The exported settings (AllowFastAppends, PrecisionLevel, Base64Prefix, UnknownPrefix, DecimalExpDelim with DecimalExpDelimStr) are honoured with the value they have at the time of a call, however often they changed before. "
  "Text and JSON of raw strings, extensions and decimals carry the current prefixes and delimiter, alone and inside containers, and what was printed is parsed back, also by typed reads, under the same settings; numbers one of which is a double are equal exactly when they differ by less than PrecisionLevel, alone or inside containers, items and entries; AllowFastAppends changes no result, and an operation made while it is off changes no list obtained before. "
  "No setting affects encodings, hashes or what is decoded.",
  ["inputs", "configurations", "histories"], "every value under every setting and every change from one setting to another between calls on the same value",
  "No test changes a setting.",
  ["api.go", "number.go", "string.go", "unknown.go", "sparselist.go"],
  [("prefixes", "string.go Base64Prefix, unknown.go UnknownPrefix"), ("numbers", "number.go PrecisionLevel, DecimalExpDelim, DecimalExpDelimStr"), ("appends", "api.go AllowFastAppends, sparselist.go")],
  state=[("exported settings", "process-wide, may change between calls", "package variables")],
  observe=["String", "JSON", "ParseNumber, ParseString", "typed getters", "Equal", "Pack, Hash, Unpack", "sparse list operations"])

p("C30", "Code of the user called by the library may panic or use the library itself",
  "The library calls code of its user: values, lists, maps, items and entries of other types, updaters, packers, unpackers, parsers, readers and writers. At whatever call such code panics (with any value), meets a run-time error or ends its goroutine, exactly that reaches the caller of the library: it is not swallowed, replaced or turned into an error, and the call does not hang. "
  "Nothing is damaged by it: every value, and a container or item whose update was given up, is what it was; what was written until then is a prefix of what is written without it; a stream being read is closed; and later calls, in any goroutine, give what they always give. "
  "Called back, such code may use the library in turn, with the same values or others: the calls inside and the call outside each give what they give alone.",
  ["inputs", "fault_sequences", "histories"], "every call of user code as the place of every kind of end, and as the place of every other operation",
  "Tests use no code of the user that fails in this way.",
  ["utils.go", "solidlist.go", "sortedmap.go", "sparselist.go", "listitem.go", "mapentry.go", "struct.go", "pack.go", "unpack.go"],
  [("coding", "utils.go Pack Write Hash Seal Parse ReadStream WriteStream"), ("updates", "listitem.go, mapentry.go Update; solidlist.go UpdateAt"), ("structs", "struct.go PackStruct")],
  state=[("state of a call", "buffers, locks and partial results alive while user code runs", "local variables")],
  observe=["panic values", "results of later calls", "bytes written so far", "closing of streams"])

p("C31", "Work grows with the size of what is worked on",
  "Finding a key in a map or an index in a sparse list (Get, typed getters, Select, Update in place, and their At forms, Len) looks at a number of entries that grows with the logarithm of the length (plus the results), however the keys are spread or repeated. "
  "Encoding, decoding, printing, hashing, sealing, packing structs, listing entries, items, keys and values, copying and converting between containers, and adding or removing an element call each element a bounded number of times; comparing and sorting take at most a logarithmic factor (for sorting, its square) more, in whatever order entries are given. "
  "Memory allocated by any of these, by parsing texts as numbers, booleans or strings, and by streams is in proportion to the size of value, text or input, and so is the time; n elements added one after another at the end of mutable lists, sparse lists with fast appends and mutable maps take work in proportion to n (for maps and sparse lists times its logarithm). Nesting does not multiply work.",
  ["inputs", "histories"], "every operation on containers of every kind, at every small size and sizes up to hundreds of thousands, for regular spreads of keys and orders of entries",
  "Tests use containers of a few elements and do not count calls or memory.",
  ["sortedmap.go", "immutablemap.go", "sparselist.go", "solidlist.go", "immutablelist.go", "utils.go", "unpack.go", "msgpack.go", "struct.go", "number.go", "string.go"],
  [("lookups", "sort.Search in sortedmap.go, immutablemap.go, sparselist.go"), ("sorting", "sort.Stable in SortedMap, ImmutableMap, SparseList"), ("coding", "utils.go, unpack.go, msgpack.go"), ("equality", "Equal of all containers")],
  state=[("size", "elements, bytes of input, digits", "arguments")],
  observe=["calls of entries, items and values of the user", "bytes allocated", "processor time at one large size"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
