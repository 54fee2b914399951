#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=hook)))
M='crates/musli/src/'; C='crates/musli-core/src/'; D='crates/musli-macros/src/'; Z='crates/musli-zerocopy/src/'; ZD='crates/musli-zerocopy-macros/src/'

p('F01','Encoding then decoding returns the same value in every format',
 'For every value of every supported type (primitives, strings, bytes, standard collections, smart pointers, derived structs and enums) decoding what a format encoded with the same options yields an equal value and consumes exactly the bytes that encoding produced, leaving any bytes that follow untouched. This holds for storage, wire, descriptive, JSON, packed and the dynamic value, for every combination of integer, length, float and byte-order options, and for both the binary and the text mode.',
 ['inputs','configurations'],'all values of all supported types x all formats x all option combinations x modes',
 'The round-trip suites cover a handful of literal values per type at default options; the option product, boundary integers, nested shapes and trailing-input behaviour are not enumerated.',
 [M+'storage/',M+'wire/',M+'descriptive/',M+'json/',M+'packed/',M+'value/',M+'int/',C+'impls/',D],
 [('integer/length encodings',M+'int/mod.rs'),('std impls',C+'impls/alloc.rs'),('derive expansion',D+'de.rs, en.rs')],
 ['Encoding::to_vec/from_slice/decode of every format module'])
p('F02','Formats tolerate reordered, missing and unknown fields as documented',
 'A struct or enum variant encoded under one version of a model decodes under another version exactly as the format table promises: fields may be reordered everywhere but packed, absent defaulted or optional fields take their default, and wire, descriptive and JSON ignore unknown fields of any shape. Known fields always keep the value that was encoded, whatever unknown content stands before, between or after them, and content after the struct still decodes correctly.',
 ['inputs','programs'],'all pairs of model versions (permutations, added and removed fields, nested) x all contents of the unknown fields',
 'Tests use a few fixed pairs of types with small unknown fields; the shapes and nesting of skipped content, their lengths and positions are unbounded.',
 [M+'storage/de.rs',M+'wire/de.rs',M+'wire/tag.rs',M+'descriptive/de.rs',M+'json/parser/parser.rs',M+'json/de/object_decoder.rs',D+'de.rs'],
 [('skipping',M+'wire/de.rs skip_any; '+M+'descriptive/de.rs skip_any; '+M+'json/parser/parser.rs skip_value'),('field dispatch',D+'de.rs')],
 ['from_slice of the newer/older model'])
p('F03','Self-descriptive data keeps its structure through the dynamic value',
 'Data encoded in a self-descriptive format (descriptive, JSON) can be read into the dynamic value without a model, and that value carries every element, key, string, byte, number and variant that was encoded, in order. Re-encoding the dynamic value in the same format, or decoding the original type from it, gives back the original value.',
 ['inputs'],'all values of all supported types and all dynamic values',
 'Only a few literals are routed through the dynamic value; arbitrary nesting, variants within maps within options and every number kind are not.',
 [M+'value/',M+'descriptive/de.rs',M+'json/parser/parser.rs'],
 [('dynamic decode',M+'value/value.rs'),('decode_any',M+'descriptive/de.rs, '+M+'json/de/mod.rs'),('value encoder/decoder',M+'value/en.rs, '+M+'value/de.rs')],
 ['value::encode/decode, from_slice::<Value>, to_vec(&Value)'])
p('F04','Reading a number as another type gives the same number or an error',
 'When a self-descriptive format (descriptive, JSON) or the dynamic value decodes a number as a different integer type, the result equals the encoded number if the target type can represent it, and is an error otherwise; it is never a different number. In the formats whose integers are variable-length, decoding an integer too large for the requested width is an error rather than a truncated value.',
 ['inputs','configurations'],'all integers x all pairs of integer types x all integer encodings',
 'A few literal coercions are asserted; the boundary cases of every type pair, every sign and every encoding option are not.',
 [M+'descriptive/de.rs',M+'descriptive/integer_encoding.rs',M+'int/continuation.rs',M+'int/mod.rs',M+'json/parser/integer.rs',M+'value/de.rs',M+'wire/int.rs'],
 [('continuation decoding',M+'int/continuation.rs'),('typed integers',M+'descriptive/integer_encoding.rs'),('JSON integers',M+'json/parser/integer.rs')],
 ['from_slice of a differently typed integer'])
p('F05','Decoding arbitrary bytes never panics, over-reads or over-allocates',
 'For any byte string whatsoever, decoding any supported type in any format either returns a value or an error: it does not panic, overflow arithmetic, crash, read outside the input, produce an invalid value (such as a non-UTF-8 string) or allocate memory out of proportion to the input. The same holds for every truncation and mutation of valid data, in builds with and without debug assertions.',
 ['inputs','configurations'],'all byte strings x all formats x all target types x debug/release builds',
 'The random-bytes test runs a fixed seed, only checks for absence of crash, with random bytes that almost never get past the first tag; mutations of valid data are not explored.',
 [M+'storage/de.rs',M+'wire/de.rs',M+'descriptive/de.rs',M+'json/',M+'reader.rs',C+'impls/',C+'internal/size_hint.rs',C+'de/'],
 [('bounded reads',M+'reader.rs'),('cautious pre-allocation',C+'internal/size_hint.rs'),('UTF-8 validation',M+'str.rs')],
 ['decode of hostile bytes under ASan/Miri and an allocation monitor'])
p('F06','Every output sink and allocator receives the same bytes, within bounds',
 'Encoding a value yields the same bytes whichever sink is used: growable vector, byte slice, fixed-size array, I/O writer or string, and whichever allocator backs the context; the reported length is the number of bytes written. A sink that is too small or a writer that fails yields an error, and no byte outside the given destination or beyond the reported length is modified.',
 ['inputs','fault_sequences','configurations'],'all values x all formats x all sinks x all destination sizes and writer failures',
 'Tests use vectors nearly everywhere; each destination size around the exact length and partial-write faults are not tried.',
 [M+'writer.rs',M+'fixed.rs',M+'wrap.rs',M+'macros/',M+'storage/en.rs',M+'json/en/'],
 [('writers',M+'writer.rs, '+M+'fixed.rs, '+M+'wrap.rs'),('generated entry points',M+'macros/internal.rs')],
 ['to_vec, to_slice, to_fixed_bytes, to_writer, to_buffer, encode'])
p('F07','JSON output is valid JSON and JSON input is understood as RFC 8259 says',
 'Every JSON document produced is valid JSON with the expected meaning according to an independent parser. Every valid JSON document is understood with the meaning an independent parser gives it, including escapes, surrogate pairs, whitespace, exponents and correctly rounded floating point numbers, and malformed strings, literals, numbers and structure are rejected when the affected part is decoded.',
 ['inputs'],'all values to encode and all JSON documents to decode',
 'String and number tests use a few literals; escapes, chunk boundaries, rounding corner cases and malformed documents are unbounded.',
 [M+'json/',M+'dec2flt/'],
 [('string scanner',M+'json/parser/string.rs'),('numbers',M+'json/parser/integer.rs, '+M+'dec2flt/'),('string escaping',M+'json/en/mod.rs')],
 ['json::to_string / json::from_str against serde_json'])
p('F08','Bitwise fast paths are indistinguishable from field-by-field coding',
 'A packed type eligible for bitwise copying encodes to the same bytes and decodes to the same value as an equivalent type that is coded field by field, in slices, vectors, arrays and alone, for every option combination. Types with padding, with invalid bit patterns or under non-native byte order never expose uninitialised memory or produce an invalid value.',
 ['inputs','configurations','programs'],'all packed layouts x all values x all option combinations',
 'Tests assert whether the fast path is enabled and a few values; equality with the slow path for every layout, option and container is not checked and undefined behaviour is invisible to them.',
 [M+'storage/en.rs',M+'storage/de.rs',M+'options.rs',C+'impls/',D+'en.rs',D+'de.rs',C+'internal/'],
 [('IS_BITWISE_ENCODE/DECODE',C+'impls/mod.rs, '+D+'en.rs'),('is_native_fixed',M+'options.rs'),('slice fast path',M+'storage/en.rs encode_slice, '+M+'storage/de.rs decode_slice')],
 ['storage/packed encodings under Miri'])
p('F09','Every way of supplying input decodes identically and stops at the same byte',
 'Decoding the same bytes from a slice, from a string or by advancing a mutable slice gives the same value or the same kind of failure, and the advancing form leaves exactly the bytes following the value. Values encoded back to back into one buffer are read back one after another, and borrowed strings and bytes refer to the input unchanged.',
 ['inputs'],'all byte strings and concatenations of values x all formats x all input kinds',
 'Tests nearly always decode from a whole slice; concatenated streams, the mutable-slice parser and agreement on malformed input are not tested.',
 [M+'json/parser/mut_slice_parser.rs',M+'json/parser/slice_parser.rs',M+'reader.rs',M+'macros/internal.rs'],
 [('parsers',M+'json/parser/'),('readers',M+'reader.rs')],
 ['decode(&[u8]), decode(&mut &[u8]), from_slice, from_str'])
p('F10','Serde types survive the serde bridge in every format',
 'A value of a serde type encoded through the serde bridge decodes through the bridge to an equal value in every format that describes its data, and the JSON it produces has the same meaning as the serde JSON library gives it. Failures in the serde implementation surface as errors of the format.',
 ['inputs'],'all values of serde-derived types (every data-model kind and enum representation) x formats',
 'One or two small structs are tested; enum representations, maps, options, bytes and number widths are not swept.',
 [M+'serde/'],
 [('serializer bridge',M+'serde/ser.rs'),('deserializer bridge',M+'serde/de.rs')],
 ['musli::serde::encode/decode through each format'])
p('F11','Diagnostics locate the failure and never change the outcome',
 'Turning on tracing, error capture or type information never changes whether or to what value a decode succeeds. When decoding fails at a field, index, key or variant the trace names exactly the path to it and the byte position it reports is that of the failing value, and a context that is reused after any earlier failure or success reports as if it were new. Whatever it handed out (errors, iterators, reports) stays readable and unchanged for as long as it is held, and every captured error is dropped exactly once.',
 ['inputs','histories'],'all failing positions in all nested values x sequences of operations on one context x allocation failures in the trace',
 'A few literal error messages are asserted; arbitrary nesting, reuse after failure and a failing allocator are not.',
 [M+'context/',C+'context.rs',D+'de.rs',C+'impls/'],
 [('path tracking',M+'context/trace.rs'),('enter/leave calls',D+'de.rs, '+C+'impls/alloc.rs')],
 ['context report()/errors() after decode_with'])
p('F12','Encoded bytes follow the documented stable layout',
 'The bytes produced by the storage, wire, descriptive and packed formats for a value are exactly those of the documented layout (continuation or fixed integers, zig-zag signs, length prefixes, tags and kinds) for every option combination, so that data written by one build is readable by another. Encoding is deterministic: equal values give equal bytes.',
 ['inputs','configurations'],'all values and dynamic shapes x all option combinations',
 'A change made consistently to encoder and decoder passes every round-trip test; only a few literal byte strings are asserted.',
 [M+'int/',M+'storage/en.rs',M+'wire/',M+'descriptive/',M+'options.rs'],
 [('continuation',M+'int/continuation.rs'),('zig-zag',M+'int/zigzag.rs'),('tags',M+'wire/tag.rs, '+M+'descriptive/tag.rs')],
 ['to_vec compared with an independent reference encoder'])
p('F13','A decoder left unfinished leaves its surroundings readable',
 'A hand-written decoder may stop early in a sequence or map, skip keys, values or elements, or read a subset of them in the formats that support skipping, and everything that follows in the enclosing value is decoded as if the rest had been read. A decoder which lets the data say what it is is told what was encoded, and lengths which are announced are true. Attempting a decode that fails and falling back to another alternative (untagged and tagged enums, buffered decoding) behaves as if the failed attempt had not happened.',
 ['inputs','histories'],'all shapes x all points at which a nested decoder stops or skips x all alternatives tried',
 'Derived decoders always run to the end, so tests rarely leave anything unread.',
 [M+'wire/de.rs',M+'descriptive/de.rs',M+'json/de/',M+'value/de.rs',C+'de/'],
 [('skip on drop/finish',M+'wire/de.rs, '+M+'descriptive/de.rs, '+M+'json/de/sequence_decoder.rs'),('try_clone/decode_buffer',C+'de/decoder.rs')],
 ['custom Decode implementations'])
p('F14','Derive attributes produce the documented representation',
 'Types using the derive attributes (renaming, name styles, typed names, transparent, packed, skip, default, skip-encoding-if, patterns, tagged, adjacently tagged and untagged enums, default variants, bytes, modes) have the representation the documentation gives, as judged by an equivalent independent serialization library for JSON and by an equivalent hand-written shape for binary formats. Decoding honours the same attributes, including defaults for absent fields and rejection of missing required ones.',
 ['inputs','programs'],'all attribute combinations on structs and enums x all values x modes',
 'Each attribute is tested in isolation with one value; combinations and the exact shape for arbitrary values are not.',
 [D,'crates/musli/help/derives.md'],
 [('expansion',D+'de.rs, en.rs, internals/'),('renaming',D+'internals/name.rs')],
 ['JSON text and binary bytes of derived types'])
p('F15','Self-describing data is never read as something of another kind',
 'Descriptive, JSON and dynamic data says of what kind each of its elements is. Reading it as a type yields the value which data of that kind denotes for the type (numbers by their value, sequences element by element in order, maps entry by entry with the last of repeated keys, fields and variants by their names) or, if some needed part is of a kind, range or length the type has no meaning for, an error, wherever the part is nested. Data whose kinds match the type is always accepted.',
 ['inputs','programs'],'all shapes of data x all types to read them as',
 'Tests read back what they wrote with the same or a deliberately compatible type; the pairs of data and types which differ, and how they nest, are unbounded.',
 [M+'descriptive/de.rs',M+'descriptive/tag.rs',M+'descriptive/integer_encoding.rs',M+'json/de/',M+'json/parser/',M+'value/de.rs',C+'impls/',D+'de.rs'],
 [('tags of kinds',M+'descriptive/tag.rs'),('JSON tokens',M+'json/parser/token.rs, '+M+'json/de/mod.rs'),('values',M+'value/de.rs')],
 ['from_slice and value::decode as a type unlike the data'])
p('A01','Allocators hand out disjoint, aligned memory that keeps its contents',
 'Under any sequence of allocations, growth, shrinking and frees, in any order and of any size and alignment, every live allocation from the fixed-buffer and system allocators is aligned, lies within its memory, overlaps no other live allocation and keeps the bytes written to it. When memory runs out the caller gets a failure and all live allocations stay intact, and memory returned to an otherwise empty fixed buffer can be allocated again.',
 ['histories','inputs'],'all sequences of allocate, grow, shrink and free operations x buffer sizes x layouts',
 'A handful of scripted sequences are tested; the interaction of the free list, merging and header growth is only reached by longer histories.',
 [M+'alloc/slice.rs',C+'alloc/system.rs',C+'alloc/mod.rs'],
 [('region headers, free list and merging',M+'alloc/slice.rs'),('system allocator',C+'alloc/system.rs')],
 ['Slice/System allocators through their public vector, box and raw allocation API'])
p('A02','Allocator-backed vectors, strings and boxes behave like the standard ones',
 'Under any sequence of operations the allocator-aware vector, string and box hold the same contents as their standard counterparts, whichever allocator backs them, including zero-sized and over-aligned elements. Every element is dropped exactly once, also when an element destructor or an operation panics or an allocation fails, and failed growth leaves contents unchanged.',
 ['histories','fault_sequences'],'all operation sequences x element types x allocators x allocation failures and panicking destructors',
 'Tests push and pop a few items; drop counts, failure paths and aliasing are not observed.',
 [C+'alloc/vec.rs',C+'alloc/string.rs',C+'alloc/boxed.rs',M+'fixed.rs',C+'internal/'],
 [('vector',C+'alloc/vec.rs'),('box',C+'alloc/boxed.rs'),('string',C+'alloc/string.rs')],
 ['musli::alloc::{Vec,String,Box} under Miri and drop counters'])
p('A03','Running out of memory is an error, never corruption',
 'Whenever any single allocation made while encoding or decoding fails, or a fixed buffer of any size is exhausted, the operation returns an error or the same result as with unlimited memory; it never panics, never yields a different value and leaves the context and allocator usable. An operation that needs no allocation succeeds with no allocator at all.',
 ['fault_sequences','inputs'],'all allocation failure points x all buffer sizes x all values x formats',
 'Tests run with ample memory; the failure of the n-th allocation is never injected.',
 [M+'alloc/',M+'context/',C+'alloc/',M+'json/',M+'writer.rs'],
 [('fallible allocation',C+'alloc/allocator.rs'),('error capture',M+'context/')],
 ['*_with on contexts over a counting, failing allocator'])
p('A04','Values that may cross threads never race',
 'Any value of this library that the type system allows to be sent to or shared with another thread can be used there without a data race, and concurrent encoding and decoding in different threads gives each thread exactly the result it would get alone. Types built on single-threaded allocators or borrowed cells do not claim to be sendable.',
 ['schedules','programs'],'all interleavings of threads using shareable values',
 'Only one small modelled concurrency test exists; no race detector watches the rest.',
 [C+'alloc/boxed.rs',C+'alloc/vec.rs',M+'alloc/slice.rs',M+'context/',Z+'buf/'],
 [('unsafe Send/Sync impls',C+'alloc/boxed.rs, '+C+'alloc/vec.rs, '+Z)],
 ['Send/Sync capability probes, Miri data-race detector'])
p('Z01','Zero-copy storing then loading returns the value, with clean padding',
 'Storing any value of a zero-copy type and loading it back, at any suitable offset and among other values, returns an equal value, and the stored bytes follow the declared layout (field offsets, size, alignment, byte order) with all padding initialised. Storing never changes bytes outside the value being stored.',
 ['inputs','programs'],'all zero-copy types (primitives, tuples of fields, packed(N), enums, generics, ignored fields) x values x offsets',
 'Tests store a few literal structs; padding bytes, packed(N) variants and neighbouring bytes are not observed.',
 [Z+'traits.rs',Z+'buf/padder.rs',Z+'buf/store_buf.rs',ZD+'zero_copy/'],
 [('padder',Z+'buf/padder.rs'),('derive layout',ZD+'zero_copy/mod.rs')],
 ['OwnedBuf::store/load, to_bytes; Miri for uninitialised reads'])
p('Z02','Safe zero-copy access to any buffer gives a valid value or an error',
 'Using only safe functions on a buffer with arbitrary bytes, arbitrary alignment and arbitrary stored references never panics, crashes, reads or writes out of bounds, or yields an invalid value (bool, char, non-zero, enum, UTF-8 string): the worst outcome is an error. A value obtained by validation occupies exactly the bytes that were validated, whatever the address of the buffer.',
 ['inputs','programs'],'all byte buffers x alignments x references x target types',
 'Tests corrupt a few bytes in specific spots; arbitrary offsets, sizes and addresses are not explored and out-of-bounds access is not detected.',
 [Z+'buf/',Z+'pointer/',Z+'traits.rs',Z+'phf/',Z+'swiss/',Z+'trie/',ZD],
 [('validation cursor',Z+'buf/validator.rs'),('bounds checks',Z+'buf/buf.rs'),('loads',Z+'buf/load.rs, '+Z+'buf/bind.rs')],
 ['Buf::load*, bind, swap, slice and map accessors under ASan and Miri'])
p('Z03','Zero-copy data is portable across byte order and reference width',
 'A structure written for an explicit byte order and reference width reads back the same on this machine through types of that order, its bytes are exactly the byte-swapped image of the opposite order, and converting a value between orders is lossless and an involution. References, slices, strings, maps and tries of either byte order and every reference width point to the same data.',
 ['inputs','configurations'],'all values x byte orders x reference widths x data structures',
 'Tests cover a couple of struct and map cases on native order; coercions and containers in the foreign order are not swept.',
 [Z+'endian/',Z+'pointer/',Z+'traits.rs',Z+'phf/',Z+'swiss/',Z+'trie/'],
 [('byte order types',Z+'endian/'),('reference encoding',Z+'pointer/ref.rs, '+Z+'pointer/size.rs, '+Z+'slice/packed.rs')],
 ['store/load with Little/Big and u8..usize widths'])
p('Z04','An owned buffer keeps earlier data and references valid as it grows',
 'Under any sequence of stores, uninitialised reservations, extensions, alignment requests, clears, clones and reserves, an owned buffer contains exactly the bytes a simple model predicts, every reference returned keeps loading the value stored, and the buffer is always aligned as requested. No operation, including those on empty buffers and with extreme sizes or alignments, corrupts memory.',
 ['histories'],'all operation sequences x alignments x sizes',
 'Tests perform short scripted sequences; reallocation, realignment and emptiness in combination are not.',
 [Z+'buf/owned_buf.rs',Z+'buf/slice_mut.rs',Z+'buf/store_buf.rs'],
 [('growth and realignment',Z+'buf/owned_buf.rs')],
 ['OwnedBuf/SliceMut API against a byte model, under ASan and Miri'])
p('Z05','Zero-copy references and slices behave like the data they point to',
 'Indexing, splitting, iterating, getting, swapping, casting and mutating through references to values, slices, arrays and strings gives the same results as the same operation on an ordinary slice of the stored values, and out-of-range requests are reported as absent or as errors. Reference identity and metadata (offset, length) survive being stored in and loaded from a buffer.',
 ['inputs','histories'],'all slices, indexes and operation sequences x reference kinds (plain, packed) x widths',
 'Tests use two or three literals per accessor.',
 [Z+'pointer/',Z+'slice/',Z+'buf/buf.rs',Z+'lossy_str.rs'],
 [('references',Z+'pointer/ref.rs'),('slices',Z+'slice/'),('swap',Z+'buf/buf.rs')],
 ['Ref/Packed/slice API against std slices'])
p('Z06','Perfect-hash maps and sets answer exactly like a hash map',
 'A perfect-hash map or set built from any collection with distinct keys reports presence, value and length exactly like an ordinary hash map, for keys that were inserted and keys that were not, through bound and unbound access, for every key type, byte order and reference width. Construction terminates for every such collection, including empty ones.',
 ['inputs','configurations'],'all key/value collections x probes x key types x widths',
 'Tests hold three to a few literal keys and probe those keys.',
 [Z+'phf/',Z+'sip.rs'],
 [('construction',Z+'phf/generator.rs'),('lookup',Z+'phf/map.rs, '+Z+'phf/set.rs')],
 ['phf::store_map/store_set and lookups'])
p('Z07','Swiss-table maps and sets answer exactly like a hash map',
 'A swiss-table map or set built from any collection with distinct keys reports presence, value and length exactly like an ordinary hash map, for keys that were inserted and keys that were not, through bound and unbound access, for every key type, byte order and reference width.',
 ['inputs','configurations'],'all key/value collections and sizes x probes x key types',
 'Tests hold three to a few literal keys; table sizes around growth points and absent keys are not swept.',
 [Z+'swiss/',Z+'sip.rs'],
 [('construction',Z+'swiss/constructor.rs, '+Z+'swiss/factory.rs'),('probing',Z+'swiss/raw/, '+Z+'swiss/map.rs')],
 ['swiss::store_map/store_set and lookups'])
p('Z08','Tries answer prefix queries exactly like a sorted multimap',
 'A trie built from any set of key/value pairs, inserted in any order, returns for every key exactly the values inserted under it and nothing for other keys, and its iterators yield every entry exactly once with the right key. Prefix iteration yields exactly the entries whose key starts with the prefix.',
 ['inputs','histories'],'all sets of strings x insertion orders x queries',
 'Tests insert a few words in one order and query words that exist.',
 [Z+'trie/'],
 [('insertion with node splitting',Z+'trie/mod.rs'),('lookup and walk',Z+'trie/walk.rs, '+Z+'trie/mod.rs'),('bounded stacks',Z+'stack/')],
 ['trie::store and TrieRef queries'])
with open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w') as f:
    for q in P: f.write(json.dumps(q,ensure_ascii=False)+'\n')
print(len(P))
