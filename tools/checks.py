"""What each check runs. A stage is a build mode, a time and options."""


def dbg(secs, **k):
    return dict(mode="dbg", secs=secs, **k)


def rel(secs, **k):
    return dict(mode="rel", secs=secs, **k)


def asan(secs, **k):
    return dict(mode="asan", secs=secs, **k)


def tsan(secs, **k):
    return dict(mode="tsan", secs=secs, **k)


def miri(secs, **k):
    return dict(mode="miri", secs=secs, **k)


def s390x(secs, **k):
    """Big endian."""
    return dict(mode="miri-s390x", secs=secs, **k)


def i686(secs, **k):
    """32 bits."""
    return dict(mode="miri-i686", secs=secs, **k)


CHECKS = {
    "F01": dict(
        bin="f01", feature="fmt",
        quick=[dbg(12)], thorough=[dbg(240), rel(240), dbg(120, feature="lean,simd"), s390x(150), i686(100)],
        rule="a random value of a supported type (boundary-biased integers, strings, nested collections, derived types) is encoded and decoded by every format, mode and option combination, alone and followed by other bytes; the monitor compares values and the number of bytes consumed. Distinct: hash of the encoded bytes per group.",
        must_see=["round trips", "dynamic value round trips"],
    ),
    "F04": dict(
        bin="f04", feature="fmt",
        quick=[dbg(9), dbg(6, feature="lean,simd")], thorough=[dbg(200), rel(200), dbg(100, feature="lean,simd"), s390x(120), i686(100)],
        rule="for every pair of integer types a boundary-biased number is encoded as one and read as the other in descriptive, JSON and the dynamic value; JSON number texts in many equal notations and raw continuation bytes are read as every type; floats are read as integers. The monitor compares with exact integer and decimal arithmetic. Distinct: hash of the encoded bytes per group.",
        must_see=["representable: same number", "out of range: refused", "texts: same number", "texts: refused", "continuations compared with the reference", "floats read as integers"],
    ),
    "F12": dict(
        bin="f12", feature="fmt",
        quick=[dbg(10)], thorough=[dbg(200), rel(200), s390x(150)],
        rule="random data-model trees and typed values (derived structs and enums, collections, library types) are encoded in storage, wire, descriptive and packed under every option combination; the monitor compares the bytes with a reference writer of the documented layout, written independently of the library, and reads the reference bytes back. Distinct: hash of the encoded bytes per group.",
        must_see=["nodes compared with the layout", "typed values compared with the layout", "reference bytes decoded", "lengths refused by a fixed width"],
    ),
    "F13": dict(
        bin="f13", feature="fmt",
        quick=[dbg(10)], thorough=[dbg(200), rel(200)],
        rule="random trees are encoded between sentinels and read back by decoders driven by a random plan that stops early, skips keys, values, elements and map entries, asks for the rest of a map, lets the data say what it is (`decode_any`), clones decoders and reads the copy first, or tries alternatives of untagged, tagged and adjacently tagged enums; the monitor compares everything that was read and everything that follows. Distinct: hash of the tree and the plan.",
        must_see=["surroundings read back", "containers left early", "keys, values and elements skipped", "values visited", "lengths announced", "maps whose rest was read", "alternatives decoded", "tagged alternatives decoded", "copies read before the original"],
    ),
    "F02": dict(
        bin="f02", feature="fmt",
        quick=[dbg(11)], thorough=[dbg(200), rel(200)],
        rule="values of structs and enums are written as maps with fields moved, defaulted fields left out, required fields removed and unknown fields and variants of arbitrary shape inserted anywhere, or by an older or newer derived version of the type; the monitor compares what the derived type decodes to with the value the edits imply, and everything after it. Distinct: hash of the encoded bytes per group.",
        must_see=["edited encodings decoded", "fields left out took their default", "fields moved", "unknown fields and variants ignored", "missing required fields refused", "values read across versions", "unknown fields refused by storage"],
    ),
    "F03": dict(
        bin="f03", feature="ser",
        quick=[dbg(10)], thorough=[dbg(200), rel(200)],
        rule="random trees and typed values are written in descriptive and JSON and read into the dynamic value; the monitor compares the value node by node with the tree (or with serde_json's reading of the same text), rewrites it, compares bytes, and decodes the original from the value and from the rewritten data. Distinct: hash of the encoded bytes per group.",
        must_see=["nodes compared with serde_json", "nodes of dynamic values compared", "rewritten values byte for byte", "trees decoded from a value", "trees read from a rewritten value", "typed values decoded from the value"],
    ),
    "F05": dict(
        bin="f05", feature="fmt",
        quick=[dbg(9), asan(8), dbg(6, feature="lean,simd")], thorough=[dbg(240), rel(120), asan(240), miri(200), dbg(100, feature="lean,simd"), s390x(150), i686(120)],
        rule="random bytes, JSON token soup, truncations and mutations (bit flips, huge lengths, splices, invalid UTF-8 and escapes) of valid encodings are decoded as every supported type in every format from every kind of reader, skipped, and read into the dynamic value, and the readers are called directly with lengths up to usize::MAX against a model, in a checked build and under AddressSanitizer (thorough: also optimised and under Miri). The monitors catch panics and overflow, sanitizer reports, hangs, memory peaks against the input length, unread input that is not a suffix, and inspect every decoded string, bool, char and non-zero number. Distinct: hash of the input per group.",
        must_see=["hostile inputs decoded to valid values", "hostile inputs refused", "inputs cut short", "inputs mutated", "inputs of random bytes", "packed inputs checked for validity", "string inputs checked for validity", "direct reads that fit", "direct reads refused"],
    ),
    "Z06": dict(
        bin="z06", feature="zc",
        quick=[dbg(10)], thorough=[dbg(200), rel(200)],
        rule="perfect-hash maps and sets are built from collections of distinct keys of many types (integers of every width, references, strings, byte slices, derived keys) in both byte orders and every reference width, then asked bound and unbound, before and after the buffer moved, for every inserted key and as many others; the monitor compares with an ordinary map. Distinct: hash of the buffer per group.",
        must_see=["present keys found", "absent keys reported absent", "maps and sets built"],
    ),
    "Z07": dict(
        bin="z07", feature="zc",
        quick=[dbg(10)], thorough=[dbg(200), rel(200)],
        rule="swiss-table maps and sets are built from collections of distinct keys of many types in both byte orders and every reference width, then asked bound and unbound, before and after the buffer moved, for every inserted key and as many others; the monitor compares with an ordinary map, including lengths. Distinct: hash of the buffer per group.",
        must_see=["present keys found", "absent keys reported absent", "maps and sets built"],
    ),
    "Z08": dict(
        bin="z08", feature="zc",
        quick=[dbg(10)], thorough=[dbg(200), rel(200), s390x(150)],
        rule="tries of several flavours, byte orders and widths are built from key collections with heavily shared prefixes inserted in random order (keys stored alone or inside longer strings, repeated, empty, binary, UTF-8); every key, every short prefix of every key and random strings are looked up and used as prefixes of every iterator, growing or of bounded depth, before and after the buffer moved; the monitor compares with a sorted multimap. Distinct: hash of the buffer per group.",
        must_see=["inserted keys: their values", "other keys: nothing", "prefix queries compared", "bounded iterations compared", "whole tries iterated"],
    ),
    "A01": dict(
        bin="a01", feature="fmt",
        quick=[dbg(9), asan(5)], thorough=[dbg(200), rel(120), asan(120), miri(200), s390x(100)],
        rule="random sequences of empty and single-value allocations, growth (including absurd sizes), merging with the neighbour, frees and returning everything, over twelve element types (sizes 0 to 300, alignments 1 to 128), in fixed buffers of every element type, size and offset, with the system, default and disabled allocators. After every step the monitor checks every live allocation: alignment, place inside the buffer, claimed memory disjoint from all others, contents equal to the model; guards around the buffer; and that an emptied buffer can be used again. Distinct: hash of the operation trace per group.",
        must_see=["allocations grown", "allocations moved", "allocations merged in place", "allocations freed", "refused for lack of memory", "single values allocated", "surroundings of buffers intact", "whole buffer used again", "allocators filled with as many regions as they have"],
    ),
    "A02": dict(
        bin="a02", feature="fmt",
        quick=[dbg(8), asan(6)], thorough=[dbg(200), rel(120), asan(120), miri(200)],
        rule="random sequences of operations (push, pop, reserve, clear, extend, merge, swap, parts, conversion from and to the standard collections, comparison, formatting, writing) on allocator-backed vectors, strings and boxes next to their standard counterparts, over elements which count their births and deaths (small, boxed, over-aligned, without a size) and plain elements, in system, default, fixed-buffer and disabled allocators, with destructors that panic, requests that cannot be met, and collections of such elements whose decoding fails or panics midway. After every step the monitor compares contents and the number of live elements. Distinct: hash of the operation trace per group.",
        must_see=["elements pushed", "growth refused", "vectors cleared", "destructors panicked", "converted to the standard vector", "contents compared", "elements dropped exactly once", "strings compared", "boxes compared", "collections decoded", "collections given up midway", "vectors appended", "invalid UTF-8 refused", "adopted from the standard vector", "adopted from the standard string"],
    ),
    "A03": dict(
        bin="a03", feature="fmt",
        quick=[dbg(10)], thorough=[dbg(240), rel(120), asan(120)],
        rule="typed values, random trees, dynamic values and strings, vectors and enums living in the allocator are encoded and decoded (also from damaged input) with contexts of every kind, first with all requests granted, then with each single request refused, once or from there on, then with no allocator at all, and in fixed buffers from nothing to 40000 bytes. The monitor compares every outcome with the one without limits, counts allocations returned, uses the same context and the same buffer again, and watches the memory around fixed buffers. Distinct: hash of the encoded bytes per group.",
        must_see=["requests refused: reported", "requests refused without effect", "contexts used again", "done without an allocator", "fixed buffers exhausted", "fixed buffers large enough"],
    ),
    "F06": dict(
        bin="f06", feature="fmt",
        quick=[dbg(9)], thorough=[dbg(200), rel(120), asan(120)],
        rule="a value of a random type is encoded into a growable vector, slices of every size around its length, fixed arrays, writers which accept a few bytes at a time or fail at a random point, strings and buffers over system, default, fixed-buffer and failing allocators, through every entry point and kind of context; the monitor compares bytes, reported lengths and the memory around and behind what was written. Distinct: hash of the encoded bytes per group.",
        must_see=["vectors compared", "slices compared", "slices too small refused", "fixed arrays compared", "fixed arrays too small refused", "writers compared", "failing writers reported", "allocators compared", "strings compared", "fixed arrays used by hand"],
    ),
    "A04": dict(
        bin="a04", feature="fmt,zc",
        quick=[dbg(5, threads=3), tsan(10, threads=3)], thorough=[dbg(100, threads=3), tsan(240, threads=3), miri(240)],
        rule="up to five threads that start together encode and decode the same data in every format with contexts of their own, read the same dynamic values, vectors, readers, buffers, maps and tries, and values are made in one thread, changed in another and dropped in a third, in a checked build and under ThreadSanitizer (thorough: also under Miri, whose race detector covers every access). The monitor compares every result with the one obtained alone. A table of some eighty types states whether sending or sharing them can be sound, and what the type system lets through is compared with it. Distinct: hash of the data per group and each type.",
        must_see=["claims checked", "claims made", "threads run together", "operations compared", "values moved between threads", "buffers moved between threads"],
    ),
    "F07": dict(
        bin="f07", feature="ser",
        quick=[dbg(12), dbg(8, feature="serl,simd")], thorough=[dbg(240), rel(200), dbg(150, feature="serl,simd")],
        rule="trees, typed values and floats of every bit pattern are written as JSON and judged by a strict RFC 8259 parser and serde_json, including what each part says; documents in any notation (escapes, whitespace, number forms, duplicate keys, halfway cases) are read as dynamic values, floats, structs, maps and tuples or skipped; and mutated texts are read as some twenty types, where whatever is accepted has to be valid and mean what was returned. Distinct: hash of the text per group.",
        must_see=["documents written", "nodes written", "floats written", "documents understood", "documents skipped", "floats read", "texts refused", "texts accepted", "references confirmed by serde_json"],
    ),
    "F10": dict(
        bin="f10", feature="ser",
        quick=[dbg(12)], thorough=[dbg(240), rel(200)],
        rule="derived serde types of every kind and attribute and random trees whose hand-written implementations make every call of the serde data model are written and read through the bridge in nine format configurations, in the dynamic value, alone and between fields of musli types; the reader asks for types, for whatever there is, ignores parts or leaves early. The monitor compares values, where reading ends, what serde_json makes of the JSON and the other way around, and that failures of the implementations and of the format surface with their message. Distinct: hash of the encoded bytes per group.",
        must_see=["values returned equal", "values within musli types", "nodes read", "nodes read as they describe themselves", "parts ignored", "texts read by serde_json", "texts equal in meaning", "texts of serde_json read", "failures surfaced", "input cut short", "borrowed strings returned"],
    ),
    "F08": dict(
        bin="f08", feature="fmt",
        quick=[dbg(12)], thorough=[dbg(200), rel(150), asan(150), miri(200, only="storage/native/|packed/|atomic/storage/native"), s390x(150, only="storage/native/|packed/|atomic/storage/native")],
        rule="values of packed types of many layouts (padded, reordered, over-aligned, nested, generic, with bool, char, non-zero, float, array, boxed and unit fields) and of every scalar are encoded alone, in slices, vectors, arrays, options and other containers, beside a hand-written twin coded element by element through scalars which are never copied bitwise; the monitor compares bytes, values by object representation, and for spoilt and random bytes the verdict, the value and the bytes consumed, under native fixed options and every kind of option which must not take the fast path. Distinct: hash of the bytes per group.",
        must_see=["encodings compared with the twin", "values decoded both ways", "hostile inputs accepted by both", "hostile inputs refused by both", "vectors of several chunks", "atomics decoded"],
    ),
    "F09": dict(
        bin="f09", feature="fmt",
        quick=[dbg(11)], thorough=[dbg(200), rel(200)],
        rule="values, spoilt encodings and random bytes are decoded from a slice, a string, by advancing a mutable slice or string, through nested and limited readers and as a stream of values back to back; the monitor compares values or failures, the bytes left, that borrowed strings and bytes lie inside the input and that a string stays valid UTF-8 and a suffix of the input. Distinct: hash of the input per group.",
        must_see=["ways compared", "inputs decoded every way", "inputs refused every way", "values read from a stream", "borrowed data found in the input", "escaped strings copied"],
    ),
    "Z01": dict(
        bin="z01", feature="zc",
        quick=[dbg(10), asan(6)], thorough=[dbg(200), rel(150), asan(120), miri(200), s390x(150)],
        rule="values of ninety types (primitives, non-zero, arrays, derived structs with every representation, packed, over-aligned, nested, generic and ignored fields, enums with every kind of tag) built with garbage in their padding are stored alone, in rows and into reserved space of growing and fixed buffers, in both byte orders and several widths; the monitor compares the whole buffer with an independent account of the layout (zeroed padding) after every step, loads everything back (aligned, unaligned, by element), and reads values from their bytes. Distinct: hash of the buffer per group.",
        must_see=["values stored", "rows stored", "spaces filled in", "buffers compared with the layout", "slices compared with the layout", "values loaded", "padding initialised", "strings loaded", "values read from bytes", "values assigned in place"],
    ),
    "Z02": dict(
        bin="z02", feature="zc",
        quick=[dbg(11), asan(6)], thorough=[dbg(200), rel(150), asan(150), miri(200), s390x(150)],
        rule="arbitrary and damaged bytes at arbitrary addresses are loaded as every modelled type, row and string by arbitrary references, and used as maps, sets, tries, sorted rows and swapped places; the monitor decides with an independent validity predicate which loads must succeed or fail, that nothing outside the buffer is answered, that iteration and lookup agree, and that nothing panics; addresses and validity are also watched by the address sanitizer and Miri. Distinct: hash of the bytes per group.",
        must_see=["valid: loaded", "invalid, out of bounds or unaligned: refused", "valid: loaded unaligned", "invalid or out of bounds: refused unaligned", "valid rows: loaded", "other rows: refused", "hostile maps: lookups which answered", "hostile maps: lookups which failed", "hostile tries: lookups and steps which answered", "hostile tries: lookups and steps which failed", "cyclic tries iterated", "elements of hostile rows", "searches in bounds", "byte accesses", "owned copies"],
    ),
    "Z03": dict(
        bin="z03", feature="zc",
        quick=[dbg(10)], thorough=[dbg(200), rel(150), asan(120), miri(150), s390x(150)],
        rule="every modelled type is wrapped, swapped and stored in both explicit byte orders; references of every width and order are built, read, compared, coerced and sliced; and whole structures (nested references, maps, sets, tries) are built in one order and its opposite from the same input. The monitor compares values, compares bytes word by word with the swapped image computed from the layout, and compares lookups. Distinct: hash of the bytes per group.",
        must_see=["types asked", "values in an explicit order", "references", "references refused", "references with a length", "references with a length refused", "structures in both orders", "words compared with their swapped image", "maps and sets in both orders", "tries in both orders", "tries of packed slices in both orders"],
    ),
    "Z04": dict(
        bin="z04", feature="zc",
        quick=[dbg(11), asan(7)], thorough=[dbg(200), rel(150), asan(200), miri(240), s390x(120)],
        rule="random sequences of every operation of growing buffers and of buffers in fixed memory (storing values, rows, strings and reserved space of a hundred types with alignments up to 1024, appending, writing, filling, reserving sensible and absurd amounts, asking for alignments and offsets, aligning, clearing, truncating, cloning, copying, changing byte order and width, assigning and swapping in place) run next to a byte model; after every step the monitor compares bytes, length, capacity and requested alignment, and at random points loads every reference handed out so far. Memory around fixed buffers is watched, all memory by the address sanitizer and Miri. Distinct: hash of the final contents per group.",
        must_see=["values stored", "rows stored", "space reserved", "space filled", "strings stored", "bytes appended", "bytes written", "absurd amounts refused", "operations refused for lack of room", "offsets refused by the width", "aligned in place", "clones used", "loaded from an aligned copy", "references loaded", "places swapped", "assigned in place"],
    ),
    "Z05": dict(
        bin="z05", feature="zc",
        quick=[dbg(11)], thorough=[dbg(200), rel(150), asan(150), miri(200), s390x(150)],
        rule="rows of ninety types are stored and every accessor of plain and packed slices in several widths and both orders (get, unchecked get, splitting, loading, iteration from both ends, construction from other slices, being stored themselves) is compared with the ordinary slice, also after swapping, reversing, rotating and assigning through references; arrays as slices, every supported coercion, binary searches, comparison, hashing and ordering of references, visiting, byte ranges and trees of references are compared with their ordinary counterparts. Distinct: hash of the buffer per group.",
        must_see=["slices compared", "slices stored and loaded", "slices refused by the width", "iterated from both ends", "places swapped", "assigned in place", "arrays as slices", "coerced", "coercions which overflow", "values coerced", "values coerced to slices", "strings coerced", "searches compared", "searches through references compared", "references compared", "visits compared", "nodes compared"],
    ),
    "F11": dict(
        bin="f11", feature="fmt",
        quick=[dbg(12)], thorough=[dbg(200), rel(150)],
        rule="random nested values hold leaves which fail on demand while encoding or decoding; the monitor compares the path, message and position the context reports for every leaf with the path an independent printer gives, the outcome and the report of one context with another for valid, cut and damaged data, with refusing allocators, in maps whose keys are repeated, and after any history of earlier operations. Distinct: hash of the expected path or of the bytes read.",
        must_see=["failures located", "outcomes compared", "truncations located", "paths cut short", "errors without room", "failures reported as new", "failures behind repeated keys located", "refused values located", "values of another type read alike", "paths cut short where alternatives are tried"],
    ),
    "F14": dict(bin="f14", feature="ser", quick=[dbg(14), dbg(12, bin="f14w")], thorough=[dbg(200), rel(150), dbg(120, bin="f14w")], rule="A case is one value of a derived type in 11 formats and modes (or one JSON document and its mutations in both musli and serde). Distinct: encodings and documents, by hash.", must_see=["values encoded as documented", "values decoded", "values with fields moved", "absent fields with a default", "absent fields refused", "unknown fields skipped", "other shapes of a value", "other shapes refused", "values in one of several modes", "values which are the same JSON as with serde", "round trips in a buffered position", "JSON texts which both read", "JSON texts which both refuse"]),
    "F15": dict(bin="f15", feature="lean", quick=[dbg(20), dbg(10, feature="fmt")], thorough=[dbg(200), rel(150), dbg(150, feature="fmt"), s390x(150), i686(100)], rule="A case is one shape of data, often one which nearly matches the type it is read as, in one of four ways (descriptive, JSON, and by way of a dynamic value from either). What the type has to make of it is computed from the shape. Distinct: encodings, by hash.", must_see=["descriptive values of a matching kind read", "descriptive values of another kind refused", "dynamic values of a matching kind read", "dynamic values of another kind refused", "JSON values of a matching kind read", "JSON values of another kind refused", "dynamic JSON values of a matching kind read", "dynamic JSON values of another kind refused"]),
}
