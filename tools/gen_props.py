import json
G='Go/sereal/'
def P(id,title,st,over,text,why,files,mech,observe,state=None):
    return dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=[G+f if '/' not in f else f for f in files],mechanism=[dict(name=a,where=b) for a,b in mech],
        state=[dict(name=a,meaning=b,where=c) for a,b,c in (state or [])],observe_at=observe,hook_needed=None))
L=[
P("C01","Decoding arbitrary bytes is safe",
 "For every byte string, decoding it (body or header, into an interface or any typed target, with any decoder flags), decompressing it or sniffing it returns a value or an error: it never panics, never crashes the process (stack overflow, out of memory, out-of-bounds access), never loops forever. The memory it allocates is bounded by a constant multiple of the input size plus what compressed data can really expand to and what COPY tags really repeat, whatever lengths and counts the document declares.",
 ["inputs","configurations"],"every byte string, target type, decoder flag combination and entry point",
 "Tests decode a few hand-written corrupt documents; crashes need a specific declared length, nesting depth, truncation point or framing varint.",
 ["decode.go","zlib.go","zlib_purego.go","snappy.go","zstd.go","sereal.go"][:5],
 [("length, offset and depth checks of the decoder","decode.go: decode, decodeViaReflection, decodeStringish, varintdecode, expectItems"),("framing checks of the decompressors","zlib.go, snappy.go, zstd.go: decompress"),("panic recovery","decode.go: UnmarshalHeaderBody")],
 ["return value and error of Unmarshal, UnmarshalHeader, UnmarshalHeaderBody, DecompressDocument, LooksLikeSereal","heap allocation counters","process exit status, sanitizer reports"]),
P("C02","Untyped round trip preserves every encodable value",
 "Decoding into an interface{} what an encoder produced yields the value that was encoded, for every encodable Go value and every encoder configuration (protocol version 1, 2 or 3, PerlCompat, dedup on or off, any compressor valid for the version, threshold and size hint), up to the documented mapping: integers keep their value (int, or uint above the int range), floats their bits and width, strings and byte slices their bytes and kind, booleans, nil, arrays/slices their elements in order, maps and structs (exported or tagged fields, `sereal:\"-\"` left out) their exact set of keys and values, pointers what they point to. Values that cannot be represented, such as maps with non-string keys, channels or functions, give an error, never a document with other content.",
 ["inputs","configurations"],"every encodable value and encoder configuration",
 "The tests round-trip a few dozen values with few configurations; size boundaries of tags, varints and COPY offsets, key dedup across large documents, and named types are not reached.",
 ["encode.go","decode.go","tagscache.go","const.go"],[("tag selection and length encoding","encode.go: encode, encodeInt, encodeString, encodeBytes, varint"),("dedup of hash keys and class names","encode.go: strTable")],["Marshal output decoded by Unmarshal, compared with the input as graphs"]),
P("C03","Typed round trip restores the same Go value",
 "Encoding a value of a Go type built from booleans, integers, floats, strings, byte slices, named versions of these, slices, arrays, maps with string or named-string keys, structs (with or without `sereal` tags, embedded structs, pointers to structs) and interface{} fields, and decoding into a zero value of the same type, restores an equal value; fields tagged \"-\" and unexported fields keep their zero value. Nil and empty slices and maps are interchangeable.",
 ["inputs","programs","configurations"],"every such type and value, every encoder configuration",
 "Tests use a handful of struct types; the combination of types, sizes and tags is unbounded.",
 ["encode.go","decode.go","tagscache.go"],[("reflection decoder","decode.go: decodeViaReflection, decodeHashViaReflection, decodeArrayViaReflection, setInt, setBinary"),("struct tags","tagscache.go: Get")],["Unmarshal target compared with the encoded value"]),
P("C04","Shared pointers and cycles survive a round trip",
 "When pointers to structs in the encoded value are equal, the pointers in the decoded value of the same type are equal, and when they are different they stay different, including cycles of any length and self references, in struct fields, slices and maps; pointers to different values that merely share an address or backing memory (a struct and its first field, slices or strings of different length, zero-size values) are never confused. Encoding such cyclic values terminates.",
 ["inputs","configurations"],"every pointer graph and encoder configuration",
 "Tests have a few small cyclic structures; the offset bookkeeping depends on the order and the sizes of everything before it.",
 ["encode.go","decode.go"],[("pointer table","encode.go: encodePointer, ptrTable"),("tracked offsets","decode.go: tracked, decodeREFP_ALIAS")],["pointer identities of the decoded graph"]),
P("C05","Encoder output is well-formed Sereal and means what was encoded",
 "Every document an encoder returns without error is well-formed according to sereal_spec.pod (magic, version, type, header, exactly one body item and nothing after it, hash keys and class names are strings or COPY of strings, every COPY, REFP and OBJECTV offset hits the start of a suitable earlier item, REFP targets have the track bit set, compressed framing is exact) and a reader that follows the specification alone obtains the encoded value and reference structure from it. With PerlCompat every nested array or hash is behind a reference tag.",
 ["inputs","configurations"],"every encodable value and encoder configuration",
 "Round-trip tests use the same package for both directions, so matching mistakes cancel out; only a second reader of the format shows them.",
 ["encode.go","snappy.go","zlib.go","const.go","sereal_spec.pod".replace('','')],[("header and tags","encode.go: MarshalWithHeader, encode")],["bytes returned by Marshal, read by an independent strict parser"]),
P("C06","The decoder reads every well-formed document as the specification says",
 "For every well-formed document of protocol version 1 to 4 that uses the supported tags (in any legal form: PAD bytes, track bits, non-minimal varints, short or long forms of strings, arrays and hashes, COPY, ALIAS, REFP, WEAKEN, OBJECT(V), OBJECT(V)_FREEZE, REGEXP, offsets relative to the header in version 1 and to the body later, any of the compressions, any user header), decoding into an interface{} gives the value and the sharing of arrays and hashes the specification assigns to it: plain Go values by default, pointers and Perl* wrapper values with PerlCompat.",
 ["inputs","configurations"],"every well-formed document, with and without PerlCompat and DisableReferentialIntegrity",
 "The corpus covers what the Perl encoder emits for a fixed list of values, not the other legal forms, orders and offsets.",
 ["decode.go","const.go","perl.go","snappy.go","zlib.go","zstd.go"],[("tag dispatch","decode.go: decode"),("tracking","decode.go: tracked, decodeREFP_ALIAS")],["decoded value compared as a graph with an independent evaluation of the document"]),
P("C07","Malformed and truncated documents are rejected",
 "Decoding returns an error for every proper prefix of a well-formed document's body, and for documents whose structure is broken: reserved or unsupported tags, a COPY inside a COPY, offsets of COPY, REFP, ALIAS or OBJECTV that do not point before the tag that has them, offsets of REFP or ALIAS at which no tracked item starts, hash keys and class names that are not strings, varints of more than ten bytes, frozen objects that are not a reference to an array of one byte string, bad compressed data.",
 ["inputs"],"every well-formed document and every such defect at every position",
 "Tests list about a dozen corrupt inputs.",
 ["decode.go","errors.go","zlib.go","snappy.go"],[("structural checks","decode.go: decode, decodeStringish, varintdecode, decodeREFP_ALIAS")],["error returned by Unmarshal"]),
P("C08","Only documents with a valid header are accepted",
 "A document is decoded, decompressed or merged only if its magic string matches its protocol version (\"=srl\" for 1 and 2, \"=\\xF3rl\" from 3 on), the version is 1 to 4, and the document type exists for that version (raw; snappy in version 1 only; incremental snappy; zlib from version 3; zstd from version 4); everything else gives an error, with a distinct one for UTF-8 encoded documents. LooksLikeSereal is true for every document the decoder accepts and false whenever magic and version do not fit together.",
 ["inputs"],"all combinations of magic string, version and type, at every length",
 "Tests check single examples of wrong headers.",
 ["decode.go","merge.go","errors.go","const.go"],[("header checks","decode.go: readHeader, checkHeader, documentDecompressor")],["errors of Unmarshal, UnmarshalHeader, DecompressDocument, Merger.Append; result of LooksLikeSereal"]),
P("C09","User header and body are independent",
 "For every header value and body value and protocol version 2 or 3, with any compression, UnmarshalHeader gives back the header, Unmarshal the body and UnmarshalHeaderBody both, each equal to what decoding them alone would give; a document without header leaves the header variable untouched. The header is readable without decompressing the body, and reading it does not depend on the body's content.",
 ["inputs","configurations"],"every pair of header and body value, all encoder configurations with headers",
 "One test uses one small header; repeated keys and references inside headers and large headers are not covered.",
 ["encode.go","decode.go"],[("header suffix","encode.go: MarshalWithHeader; decode.go: UnmarshalHeaderBody")],["values decoded from header and body"]),
P("C10","Compression is transparent",
 "Whatever the compressor, level and threshold, a compressed document decodes to the same value as the uncompressed one, and DecompressDocument returns exactly the uncompressed document: same version and user header, type raw, body byte for byte, for every destination buffer (nil, shorter, longer, with or without capacity) and without touching the input; an uncompressed document is returned unchanged. Bodies shorter than the threshold are left raw, others are compressed, and threshold zero compresses always.",
 ["inputs","configurations"],"every document, compressor, level, threshold and destination buffer",
 "Tests compress a few fixed bodies; incompressible, empty, tiny and huge bodies and reused buffers are not covered.",
 ["snappy.go","zlib.go","zlib_purego.go","zstd.go","zstd_cgo.go","decode.go","encode.go"],[("framing","snappy.go, zlib.go, zstd.go"),("buffer reuse","decode.go: DecompressDocument, hasSameBuffer")],["bytes of DecompressDocument, decoded values, document type"]),
P("C11","A merged document is the ordered concatenation of its inputs",
 "The document that Finish returns is well-formed and its top-level array holds exactly the items of the appended documents in order (with KeepFlat the elements of their top-level arrays), each with the value, string types, classes and internal references it had in its own document, whatever TopLevelElement, DedupeStrings, compression, protocol versions and compressions of the inputs. Append returns the number of elements it added.",
 ["inputs","histories","configurations"],"every sequence of well-formed documents and every merger configuration",
 "Two tests merge two tiny documents; offset rewriting, dedup tables and class tables depend on the whole history.",
 ["merge.go"],[("offset translation","merge.go: buildTrackTable, mergeItems"),("dedup tables","merge.go: strTable, objTable")],["bytes returned by Finish, read by an independent parser and by the decoder; counts returned by Append"]),
P("C12","A failed Append leaves no trace and bad input never crashes the merger",
 "Append returns an error, without panicking, for truncated, corrupt or unsupported documents, and after any mix of failed and successful Appends Finish returns the same content as if the failed ones had never been attempted. For arbitrary bytes Append and Finish return normally.",
 ["inputs","histories","fault_sequences"],"every byte string, and every history of good and bad Appends",
 "No test makes Append fail.",
 ["merge.go"],[("rollback","merge.go: Append"),("consistency checks","merge.go: buildTrackTable, mergeItems")],["errors and counts of Append, document of Finish"]),
P("C13","Custom binary marshalling is exact",
 "A value whose type implements encoding.BinaryMarshaler is encoded as a frozen object carrying exactly the bytes MarshalBinary returned and its class name, and decoding hands exactly those bytes to UnmarshalBinary of the target type, or of the type registered for the class when decoding into an interface, or returns them in a PerlFreeze when there is none, wherever the value stands (top level, fields, elements, map values, behind pointers) and however often the class repeats. Errors of MarshalBinary and UnmarshalBinary are returned to the caller; DisableFREEZE encodes the plain structure instead.",
 ["inputs","configurations"],"every payload, position and configuration",
 "Tests use time.Time and two toy types with short payloads.",
 ["encode.go","decode.go","perl.go"],[("freeze","encode.go: encodeViaReflection"),("thaw","decode.go: decodeObjectFreezeViaReflection, findUnmarshaler, RegisterName")],["bytes seen by UnmarshalBinary, classes, errors"]),
P("C14","Encoders and decoders carry nothing over between calls",
 "Any sequence of calls on one Encoder or one Decoder, failing ones included, gives for each call the same result as the same call on a new one with the same settings, also when different struct types have the same name.",
 ["histories","inputs"],"every sequence of calls",
 "Tests reuse an instance for a few similar values.",
 ["encode.go","decode.go","tagscache.go"],[("per-call state","encode.go: marshalState; decode.go: tracked, copyDepth"),("type cache","tagscache.go")],["results of each call"]),
P("C15","Concurrent use of the package is race-free",
 "Marshal, Unmarshal, LooksLikeSereal and DecompressDocument may be called from any number of goroutines at once, and separate Encoder, Decoder and Merger instances may be used concurrently, also with compression and on shared input values and buffers: there is no data race and every call returns what it would return alone.",
 ["schedules","inputs"],"every interleaving of calls from several goroutines",
 "No test runs two goroutines.",
 ["encode.go","decode.go","tagscache.go","zlib_purego.go","merge.go"],[("no shared mutable state","encode.go: Marshal; decode.go: Unmarshal"),("pools of zlib writers","zlib_purego.go")],["race detector reports, results of each call"]),
P("C16","The recursion limit of the encoder is exact",
 "With MaxRecursionDepth N > 0, encoding fails with ErrMaxRecursionLimit exactly when arrays, slices, maps, structs and pointers are nested N or more levels deep, for header and body alike; otherwise it succeeds with the same result as without a limit. Cyclic values that the encoder cannot represent by references fail this way instead of crashing.",
 ["inputs","configurations"],"every nesting of the container kinds and every limit",
 "The tests try two limits on two shapes.",
 ["encode.go"],[("remaining depth","encode.go: remainingRecursion, encodeArray, encodeMap, encodeStruct, encodePointer, encodeIntfArray, encodeStrMap")],["error of Marshal"]),
P("C17","Inputs are not modified and results do not alias them",
 "Encoding does not modify the value, decoding, merging and decompressing do not modify the input buffer; decoded values, decompressed and merged documents share no memory with the input buffer, with results of other calls or with what the instance that produced them still uses, so overwriting an input buffer or using the instance again leaves earlier results unchanged. (DecompressDocument may place its result in the destination buffer it was given, and a finished Merger keeps returning the same document.)",
 ["inputs","histories"],"every value, document and later use of buffers and instances",
 "Tests never write to a buffer after using it.",
 ["decode.go","encode.go","merge.go","snappy.go"],[("copies","decode.go: decodeBinary, setBinary, decodeRegexp, DecompressDocument")],["input buffers and earlier results before and after"]),
P("C18","Go and Perl implementations understand each other",
 "A document the Go encoder writes is decoded by the Perl decoder of this repository to the same structure, and a document the Perl encoder writes, in any protocol version up to 4 and with any of its compression and dedup options, is decoded by Go to the same structure: same numbers, strings, keys, order, classes and sharing of arrays and hashes.",
 ["inputs","configurations"],"every structure both languages can represent, all encoder options",
 "The cross-check decodes one corpus of fixed values with one set of options per run.",
 ["encode.go","decode.go","Perl/Encoder/srl_encoder.c","Perl/Decoder/srl_decoder.c"],[("common format","sereal_spec.pod")],["canonical dumps of the decoded structures in both languages"]),
P("C19","Decoding with PerlCompat and encoding again preserves Perl data",
 "Decoding any well-formed document with PerlCompat and encoding the result with PerlCompat gives a document with the same meaning: references, shared and cyclic arrays and hashes, blessed objects and their classes, weak references, regular expressions, undef and canonical undef, string types and numbers. Aliases and sharing of plain scalars are excepted.",
 ["inputs"],"every such document",
 "The cross-check runs a fixed corpus, and skips 216 of its cases.",
 ["encode.go","decode.go","perl.go"],[("Perl types","perl.go, encode.go: encode, decode.go: decode")],["meaning of the document before and after, by an independent parser"]),
P("C20","Numbers from JSON never lose precision",
 "A json.Number whose text is an integer is encoded so that decoding gives exactly that integer if it fits in 64 signed bits, and its exact text otherwise; other numeric texts give the nearest float64 (or are kept as they are if their digits start with an integer beyond 64 signed bits), and texts that are not numbers, or too large for a float64, are kept as they are. This holds wherever the number stands, and it is never an error.",
 ["inputs"],"every json.Number text",
 "The tests try fewer than ten numbers.",
 ["encode.go"],[("number conversion","encode.go: encodeJsonNumber")],["decoded value"]),
P("C21","Typed and untyped decoding agree",
 "Decoding a document into a struct, slice, array, map or scalar of a matching type gives the same data as decoding it into an interface{}: each hash key goes to the field with that tag or name (or that name with its first letter in lower case) and no other, keys without a field are skipped without disturbing what follows, fields without a key keep their value, elements beyond a fixed array's length are skipped, integers keep their value if they fit, whatever legal tags and forms the document uses. A value that does not fit the type gives an error, never a panic.",
 ["inputs","programs"],"every well-formed document and every target type",
 "Tests decode a few documents into a few structs.",
 ["decode.go","tagscache.go"],[("reflection decoder","decode.go: decodeViaReflection")],["fields of the target compared with the untyped result"]),
P("C22","Perl decoder: arbitrary bytes are safe",
 "For every byte string and every entry point of Sereal::Decoder (decode, decode_into a variable of any kind, decode_with_header and the header functions, the with_offset variants, incremental decoding, looks_like_sereal), with any of its options, the call returns or throws: no memory error, undefined behaviour, crash or endless recursion. What it returns consists of live scalars of the kinds Perl data has, each with the reference count it should have; undef, true and false are left as they were; neither decoding nor failing to decode leaks memory, except for cycles the document itself describes; and the decoder object then decodes other documents correctly.",
 ["inputs","configurations","histories"],"every byte string, entry point, set of options and kind of target variable",
 "The Perl tests decode a fixed list of corrupt documents and never look at reference counts, leaks or reads outside the buffer.",
 ["Perl/Decoder/srl_decoder.c","Perl/Decoder/Decoder.xs","Perl/shared/srl_reader_varint.h","Perl/shared/srl_reader_decompress.h"],[("bounds checks","srl_decoder.c: srl_read_single_value, srl_read_varint_uv_offset"),("ownership while decoding","srl_decoder.c: srl_read_object, srl_read_frozen_object, srl_read_refp, srl_read_alias, srl_clear_decoder")],["sanitizer reports, process status, walk over the decoded scalars and their reference counts, number of live scalars and heap bytes, result of a later decode"]),
P("C23","Perl decoder: documents mean what the specification says",
 "For every well-formed document of versions 1 to 4 (any legal mixture of tags, padding, track bits, string and number forms, REFP, ALIAS, COPY, WEAKEN, OBJECT and OBJECT_FREEZE, any document type, with or without user header) whose arrays and hashes stand behind references, every entry point of Sereal::Decoder yields exactly the Perl data it describes: values, classes, string flags, weak references, and which scalars, arrays and hashes are one and the same; THAW is called with the thawed arguments and its result stands wherever the object is referred to. Decoding again, also with the same object and after the result was changed or freed, gives the same. Nothing decoded holds a wrong reference count, the input is unchanged, and no memory is lost when it is freed.",
 ["inputs","configurations","histories"],"every well-formed document, entry point and decoder history",
 "The Perl tests decode what the Perl encoder writes and a few hand-written documents; they never see ALIAS, COPY, REFP and WEAKEN combined, nor forms that only other encoders write, nor reference counts.",
 ["Perl/Decoder/srl_decoder.c","Perl/Decoder/Decoder.xs","sereal_spec.pod"],[("meaning of the tags","srl_decoder.c: srl_read_single_value and the srl_read_* functions"),("identity","srl_track_sv, srl_fetch_item, srl_read_refp, srl_read_alias, srl_read_copy"),("end of document","srl_finalize_structure: blessing, thawing, weak references")],["scalar by scalar dump with addresses, weak and string flags, classes; audit of reference counts; live scalars after freeing; result of repeated decodes"]),
P("C24","Perl encoder: every value comes back as what it was",
 "Whatever value a Perl program holds (numbers, strings with any mixture of flags and of characters, undef, booleans, references to anything, shared and cyclic, weak references, aliases, blessed things, objects with FREEZE, regexps, code and globs where an option allows them, arrays with holes, restricted hashes, hashes being iterated), every entry point of Sereal::Encoder, with any options, writes a document that follows the specification, has the version and the compression asked for, and is read by Sereal::Decoder of this tree as the same value: same strings, numbers, classes, sharing of what is shared, weak references weak; where an option says that something is left out or replaced, exactly that. The value is unchanged, encoding again with the same encoder gives the same value, also after an error or while it is busy, errors come only where the documentation says so, and no memory is lost.",
 ["inputs","configurations","histories"],"every Perl value, set of options, entry point and history of the encoder",
 "The Perl tests encode a list of simple values with a few sets of options and compare with is_deeply, which sees neither sharing nor weak references nor aliases nor flags.",
 ["Perl/Encoder/srl_encoder.c","Perl/Encoder/Encoder.xs","Perl/shared/srl_buffer.h","Perl/shared/srl_compress.h","Perl/shared/ptable.h","sereal_spec.pod"],[("what is written for a scalar","srl_encoder.c: srl_dump_sv, srl_dump_svpv, srl_dump_ivuv, srl_dump_nv"),("sharing and weak references","srl_encoder.c: ref_seenhash, weak_seenhash, srl_fixup_weakrefs"),("FREEZE","srl_encoder.c: srl_get_frozen_object, freezeobj_svhash"),("nested use","srl_encoder.c: srl_prepare_encoder, srl_build_encoder_struct_alike")],["strict parser over the bytes; scalar by scalar dump before and after, with identities; reference-count audit; live scalars and bytes"]),
P("C25","Perl decoder: options, limits and streams of documents do what they say",
 "For every well-formed document and set of options of Sereal::Decoder: refuse_snappy, refuse_zlib, refuse_zstd, refuse_objects, max_num_array_entries, max_num_hash_entries, max_string_length, max_uncompressed_size, max_recursion_depth (10000 unless given) and validate_utf8 refuse, with a message that says so, exactly the documents that have what they forbid, and change nothing of what the others decode to; after a refusal the same decoder decodes other documents correctly. set_readonly and set_readonly_scalars make exactly what they name read-only; alias_smallint and alias_varint_under share exactly the small integers they name; no_bless_objects and no_thaw_objects leave out classes and THAW. Documents that follow one another in a string or file are decoded one after another, at offsets, incrementally (each taken away from the string, which stays as it is when a document is incomplete) or with decode_from_file; bytes_consumed is the length of the document, and a document whose end is missing is an error. looks_like_sereal names the version of every document and denies everything else.",
 ["inputs","configurations","histories"],"every well-formed document or sequence of them, and set of options",
 "The Perl tests try each option with one or two documents, mostly arrays of plain values, and one history.",
 ["Perl/Decoder/srl_decoder.c","Perl/Decoder/Decoder.xs","Perl/Decoder/lib/Sereal/Decoder.pm","Perl/shared/srl_reader_decompress.h"],[("limits","srl_decoder.c: srl_check_string, srl_read_array, srl_read_hash, the recursion depth, srl_read_header"),("offsets and streams","srl_decoder.c: srl_decode_into_internal, bytes_consumed; Decoder.pm: decode_from_file"),("read-only and shared scalars","srl_decoder.c: srl_read_varint_into, flags_readonly; Decoder.xs")],["whether and why decoding fails; scalar by scalar dump; what is left of the input; bytes_consumed"]),
]
for p in L:
    p["anchors"]["files"]=[f.replace("Go/sereal/sereal_spec.pod","sereal_spec.pod").replace("Go/sereal/sereal.go","Go/sereal/decode.go") for f in p["anchors"]["files"]]
    assert len(p["title"])<=80,p["title"]
    import re
open('/verif/properties.jsonl','w').write("".join(json.dumps(p)+"\n" for p in L))
