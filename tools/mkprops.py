#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long strings stay readable)."""
import json
P=[]
def prop(id,title,statement,over,text,why,files,mechanism,state=None,observe=None,hook=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mechanism]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    a["observe_at"]=observe or ["proto.Marshal","proto.Unmarshal","proto.Size"]
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

prop("C01","Unmarshal(Marshal(m)) gives back m",
 "For every message value of every supported message type, marshalling it and unmarshalling the bytes into a fresh message succeeds and gives back an equal message: every scalar bit for bit, every repeated element in order, every map entry, every nested message, to any depth and for any combination and order of fields and field numbers. "
 "Supported fields are bool, all integer encodings (plain, zigzag, fixed, signed fixed), float, double, string, bytes and messages, each as a plain, optional (option wrapper or pointer), repeated or map field (a nil message pointer inside a repeated or map field has no encoding and is excluded; empty and nil repeated and map fields count as equal).",
 ["inputs","programs"],"all message types built from the supported field shapes, all values of them",
 "The tests round-trip about fifteen hand-written values of a dozen types; maps only with equal key and value types, no repeated fixed or zigzag fields, no pointer scalars, no field number above 14. The encoding of one field depends on what precedes it in the type, so no list of samples covers the product of types and values.",
 ["proto/walker.go","proto/map.go","proto/slice.go","proto/normal_codec.go","proto/required_codec.go","proto/option_codec.go","proto/struct.go"],
 [("codec chosen per field type and tag","proto/walker.go structInfo/codec/required"),("map entry codec built from a synthetic entry struct","proto/map.go"),("element codec reused for repeated fields","proto/slice.go")])

prop("C02","Marshal emits exactly the protobuf wire encoding",
 "For every message value, the marshalled bytes are the protobuf encoding of that message: fields in declaration order, each with its own number and wire type, minimal-length varints, little-endian fixed values, exact length prefixes, one record per repeated element or map entry with the key as field 1 and the value as field 2, and nothing for absent fields, zero-valued plain fields, or empty repeated and map fields. "
 "Any standard protobuf decoder therefore reads back the same values, and marshalling the same message again gives the same bytes except for the order of entries within a map.",
 ["inputs","programs"],"all message types built from the supported field shapes, all values of them",
 "No test compares bytes with the wire format or with another implementation; they only round-trip, so an encoder and decoder that agree on a wrong format pass.",
 ["proto/encode.go","proto/size.go","proto/map.go","proto/slice.go","proto/normal_codec.go","proto/required_codec.go","proto/option_codec.go","proto/walker.go"],
 [("varint and fixed appenders","proto/encode.go"),("tag precomputed as number<<3|wiretype","proto/walker.go"),("map entries length-prefixed from computed sizes","proto/map.go")],observe=["proto.Marshal"])

prop("C03","Size is exactly the marshalled length",
 "For every message value, Size reports exactly the number of bytes that Marshal produces for it, at every nesting depth and whatever the field numbers and the lengths of strings, bytes and nested messages are. Neither call changes the message.",
 ["inputs","programs"],"all message types built from the supported field shapes, all values of them, in particular every value at which a varint or length prefix grows by a byte",
 "Tests check the size of about fifteen values, none of them at a varint or length-prefix boundary other than one.",
 ["proto/size.go","proto/normal_codec.go","proto/required_codec.go","proto/option_codec.go","proto/map.go","proto/slice.go","proto/struct.go","proto/walker.go"],
 [("size functions mirror the encode functions","proto/normal_codec.go, proto/required_codec.go"),("varint size approximation by bit length","proto/size.go sizeOfVarint"),("nested size prefix","proto/walker.go structCodec")],observe=["proto.Size","proto.Marshal"])

prop("C04","Unmarshal is total: any bytes give a result or an error, never a crash",
 "For every byte string and every message type, unmarshalling returns, either without or with an error: it never panics, never loops, never reads outside the input, never writes outside the fields of the message, and never allocates memory out of proportion to the length of the input. This holds for truncated, corrupted and hostile input, including lengths and varints up to 64 bits and deep nesting.",
 ["inputs"],"all byte strings (any content, any length) times all supported message types",
 "The only negative tests are the strict prefixes of one 20-byte message; fuzz targets only feed well-formed messages and run with an empty corpus.",
 ["proto/struct.go","proto/decode.go","proto/normal_codec.go","proto/map.go","proto/slice.go","proto/walker.go"],
 [("length checks before slicing","proto/struct.go decode"),("varint decoder bounds and overflow check","proto/decode.go decodeVarint"),("slice growth before element decode","proto/slice.go")],observe=["proto.Unmarshal"])

prop("C05","Unmarshal assigns what the wire format says, and rejects malformed input",
 "For every well-formed encoding of a message, whether or not Marshal would have produced it (fields in any order, fields repeated, over-long varints in tags, lengths and values, booleans of any non-zero value, integers wider than the field, repeated scalars in packed form, partial or empty map entries), unmarshalling into a fresh message succeeds and yields the values protobuf defines: last value wins for scalars, repeated elements are appended in order, nested messages are merged, map entries replace by key. "
 "Input that is not well-formed (truncated or overflowing varints, lengths past the end, a known field with another wire type, wire types other than varint, fixed32, fixed64 and length-delimited) is rejected with an error. Bytes belonging to one field never influence another field.",
 ["inputs"],"all byte strings times all supported message types",
 "Tests only decode what Marshal produced; no over-long varint, no reordered or duplicated field, no multi-byte boolean and no wrong wire type is ever fed in.",
 ["proto/struct.go","proto/decode.go","proto/normal_codec.go","proto/map.go","proto/slice.go","proto/walker.go"],
 [("field loop: tag, bounded data section, codec","proto/struct.go decode"),("varint decoder","proto/decode.go"),("scalar decoders","proto/normal_codec.go")],observe=["proto.Unmarshal"])

prop("C06","Unknown fields are skipped without effect",
 "Inserting any well-formed field whose number the message type does not declare (wire types varint, fixed32, fixed64 or length-delimited, any payload) at any field boundary, at top level, inside nested messages or inside map entries, does not change the result of unmarshalling. Consequently a message written with a newer type that has more fields is read by the older type as its projection to the known fields, while an unknown field that is truncated or has any other wire type is an error.",
 ["inputs","programs"],"all valid encodings, all insertion points, all unknown fields; all pairs of a type and a subset of its fields",
 "No test decodes a single unknown field.",
 ["proto/struct.go"],[("skip branch for fields not in the index","proto/struct.go decode")],observe=["proto.Unmarshal"])

prop("C07","Unmarshalling into a used message merges, and depends only on visible state",
 "Unmarshalling into a message that already holds data merges by the protobuf rules: scalars named in the input are overwritten and all other fields kept, repeated elements are appended after the existing ones, nested messages are merged field by field, map entries are added or replaced. The result depends only on the input and on what is visible in the message before the call, never on leftovers such as elements beyond the length of a re-sliced repeated field or remains of an earlier failed decode; so decoding two encodings one after the other equals decoding their concatenation.",
 ["histories","inputs"],"all sequences of successful and failed unmarshals into one message, interleaved with the user truncating, clearing or setting its fields",
 "Every test decodes once into a zero message.",
 ["proto/slice.go","proto/walker.go","proto/map.go","proto/normal_codec.go","proto/option_codec.go"],
 [("append into spare capacity, grow when full","proto/slice.go sliceDecodeFuncOf"),("allocate nested message only when nil","proto/walker.go structCodec"),("map created when nil, assigned in place","proto/map.go")],
 state=[("repeated field backing array","elements between length and capacity keep old contents","proto/slice.go"),("nested pointer","existing object is reused","proto/walker.go")],observe=["proto.Unmarshal"])

prop("C08","Results do not depend on which types were used before, or how",
 "What Size, Marshal and Unmarshal do for a message type depends only on that type: not on which other message types were used earlier in the process, in which order or through which of the three calls, not on which other fields or nested types appear before a field in the same type, and not on an earlier call having panicked on an unsupported type. In particular a type that contains an unsupported field (directly or through nested types) always panics and is never silently half-encoded.",
 ["histories","programs"],"all sequences of first uses of message types that share field types, nested types or recursive references",
 "Codecs are built lazily and cached in process-wide tables; tests run in one fixed order and use each shared element type with one encoding only.",
 ["proto/walker.go","proto/slice.go","proto/proto.go","proto/map.go"],
 [("per-walk cache by Go type","proto/walker.go walker.codecs/infos"),("process-wide caches","proto/proto.go structInfoCache/codecCache, proto/slice.go sliceMap")],
 state=[("struct info cache","type -> field table","proto/proto.go"),("message codec cache","pointer type -> codec","proto/proto.go"),("slice codec cache","element codec -> repeated codec","proto/slice.go")])

prop("C09","Concurrent first use of message types is safe",
 "When several goroutines use message types for the first time at the same time, in any interleaving, including types that refer to each other recursively or share nested types, every call returns exactly what it would return when run alone; no goroutine ever sees a type whose preparation by another goroutine is unfinished.",
 ["schedules"],"all interleavings of concurrent first uses of the same, overlapping or mutually recursive message types",
 "No test uses more than one goroutine, and each type is prepared once per process, so even a stress test sees the first-use window once.",
 ["proto/proto.go","proto/walker.go","proto/slice.go","proto/map.go"],
 [("publication of finished struct infos and codecs","proto/proto.go cachedStructInfoOf, proto/walker.go structInfo/structCodec"),("load-or-store into concurrent maps","proto/proto.go, proto/slice.go")],
 state=[("struct info cache","must only hold complete infos","proto/proto.go"),("message codec cache","must only hold complete codecs","proto/proto.go")],
 hook="none in /repo: statement-level scheduling points are woven into a build overlay of the current sources")

prop("C10","Concurrent calls do not interfere",
 "Once types are in use, any number of goroutines may concurrently marshal or size messages (the same message included, as long as nobody modifies it) and unmarshal from shared input bytes into distinct messages; in every interleaving each call returns what it would return alone, and none of them modifies the shared message or input.",
 ["schedules"],"all interleavings of concurrent Marshal, Size and Unmarshal calls (successful and failing) on types already in use",
 "No test runs two calls concurrently; the pooled map-entry scratch object is shared process-wide.",
 ["proto/map.go","proto/proto.go","proto/struct.go","proto/slice.go","internal/runtime_reflect/map.go"],
 [("per-map-type pool of entry scratch structs, cleared before reuse","proto/map.go mapDecodeFuncOf"),("no other mutable shared state on the hot path","proto/struct.go, proto/normal_codec.go")],
 state=[("map entry pool","scratch struct must be owned by one decode at a time","proto/map.go")],
 hook="none in /repo: statement-level scheduling points are woven into a build overlay of the current sources")

prop("C11","Messages, input and output never share memory",
 "A decoded message never shares memory with the input bytes, with another decoded message, or between two of its own fields, elements or map entries; marshalled bytes never share memory with the message or with the result of another Marshal call. Marshal and Size leave the message untouched and Unmarshal leaves the input untouched (spare capacity included), so modifying any one of them later never changes another.",
 ["inputs","histories"],"all message types and values, all sequences of marshal, unmarshal and modification of the results",
 "Tests never modify a buffer or a message after a call and never look at two results at once.",
 ["proto/normal_codec.go","proto/map.go","proto/slice.go","proto/proto.go"],
 [("bytes and strings are copied out of the input","proto/normal_codec.go decodeBytes/decodeString"),("fresh output buffer per Marshal","proto/proto.go Marshal"),("map scratch cleared after each entry","proto/map.go")])

prop("C12","Presence of optional fields is preserved exactly",
 "For every message with optional fields (option wrapper, pointer to scalar, nullable bytes, pointer to message), a field that is set, even to its zero or empty value, is written and is set with the same value after a round trip, and a field that is not set is not written and stays unset; this holds for every combination of set, set-to-zero and unset fields. What an option reports about itself (set or not, its value, its value or a default) is what was put into it. A plain (implicit-presence) field is written exactly when it is not the zero value, negative zero counting as non-zero.",
 ["inputs"],"all 3^n combinations of absent, present-with-zero and present-with-value over all optional field kinds of a message",
 "Tests cover all-absent, all-zero and all-set for one message with option wrappers, and only a nil pointer scalar.",
 ["proto/option.go","proto/option_codec.go","proto/walker.go","proto/normal_codec.go"],
 [("option codecs write whenever set","proto/option_codec.go"),("pointer codecs","proto/walker.go pointer"),("non-nil bytes are written","proto/normal_codec.go bytesCodec")])

prop("C13","Truncated or corrupt input is reported, with the right cause and field",
 "For every encoded message cut at any position: if the cut is not between two complete top-level fields, unmarshalling fails with an error matching io.ErrUnexpectedEOF, and otherwise it succeeds with exactly the fields before the cut. A failure inside a field is reported as a field error carrying the number and wire type of the innermost failing field inside one wrapper per enclosing message, whose text gives them and its cause and that unwraps to its cause (unexpected EOF for missing bytes, unknown wire type for wire types that cannot be skipped).",
 ["inputs"],"all encoded messages times all cut positions, and all single-fault corruptions of tags and lengths",
 "One test cuts one 20-byte message; no test looks at the field number or wire type of an error, or at truncated unknown fields, fixed fields, maps or repeated fields.",
 ["proto/error.go","proto/struct.go","proto/decode.go"],
 [("field error wrapping","proto/error.go fieldError"),("EOF detection per wire type","proto/struct.go decode"),("varint EOF and overflow","proto/decode.go")],observe=["proto.Unmarshal","errors.Is/errors.As on its result"])

prop("C14","Misuse of the API is reported as the documented error",
 "Unmarshalling non-empty input into anything but a non-nil pointer to a struct returns the invalid-argument error carrying the type of the argument (nil included), and marshalling anything but a pointer to a struct returns an error; the text of either names that type and tells what is wrong with the argument (nil, not a pointer, a pointer to something else, a nil pointer). Neither panics, and neither writes anything. A nil pointer to a message marshals to an empty, successful result of size zero, and after any such misuse all later correct calls behave as if it had not happened.",
 ["inputs","histories"],"all kinds of argument values (nil, non-pointer, nil pointer, pointer to non-struct, pointer to pointer) times all calls, in all orders with correct calls",
 "No test passes a wrong argument.",
 ["proto/proto.go","proto/error.go"],[("argument inspection","proto/proto.go Unmarshal/Marshal"),("InvalidUnmarshalError","proto/error.go")])

prop("C15","Generated code compiles and speaks the schema's wire format",
 "For every schema accepted by the protobuf compiler front end whose Go names do not collide under the naming rules of protoc-gen-go, the code generated by the plugin compiles, and its message types exchange data correctly with any other implementation of the same schema: whatever a standard implementation encodes is decoded to the same field values, and whatever is encoded from the generated types is decoded by a standard implementation to the same field values, for proto2 and proto3 and for every field kind, label, map, nested, recursive or imported type.",
 ["programs","inputs"],"all schemas (syntax, label, kind, nesting, imports, enums, oneofs) and all message values of them",
 "The generator and plugin have no tests at all; one generated file is checked in and exercised.",
 ["internal/generator/main.go","internal/generator/init.go","cmd/protoc-gen-golite/main.go","proto/struct.go","proto/walker.go"],
 [("Go type per field","internal/generator/main.go fieldGoType"),("struct tag per field","internal/generator/main.go fieldProtobufTagValue"),("tag parser and codec selection in the runtime","proto/struct.go parseStructTag, proto/walker.go")],
 observe=["protoc-gen-golite stdin/stdout","go build of its output","proto.Marshal/Unmarshal on the generated types"])

prop("C16","Decoded and encoded data survive garbage collection at any point",
 "A garbage collection (including stack moves and reuse of freed memory) at any moment during or after Size, Marshal or Unmarshal never changes a result: everything reachable from a decoded message, its strings, bytes, elements, nested messages, map keys and values, stays valid for as long as the message is reachable.",
 ["fault_sequences","inputs"],"all points of a call at which a collection can run, for all message shapes that allocate",
 "Whether a collection falls into a critical window in a test run is chance; the code moves pointers through untyped memory, typed allocation by raw type pointer and runtime internals, where a mistake is invisible until a collection hits it.",
 ["internal/runtime_reflect/map.go","internal/runtime_reflect/slice.go","proto/slice.go","proto/map.go","proto/walker.go","proto/normal_codec.go"],
 [("typed allocation and typed copies through runtime internals","internal/runtime_reflect"),("slice growth","proto/slice.go growSlice"),("map scratch and assignment","proto/map.go mapDecodeFuncOf")],
 hook="none in /repo: collection points are woven into a build overlay of the current sources")

prop("C17","Generator output is deterministic, independent and complete",
 "For a given schema file and options the generated text is always the same, whatever other files are in the same request and in whatever order they are listed, and exactly one output file is produced for each file requested. Every message, enum and enum value of the file, nested ones included, is present in its output with exactly the schema's names and numbers, and every exported symbol that a publicly imported file itself defines is forwarded.",
 ["programs","configurations"],"all schema files and all ways of combining and ordering them in plugin requests",
 "The plugin is never run by a test.",
 ["internal/generator/main.go","internal/generator/init.go","cmd/protoc-gen-golite/main.go"],
 [("file walk in flattened order","internal/generator/init.go newFileInfo"),("per-file generation","internal/generator/main.go GenerateFile"),("public import forwarding","internal/generator/main.go genImport")],observe=["protoc-gen-golite stdin/stdout"])

prop("C18","No cross-talk between calls on different messages",
 "The result of a call on one message never depends on the data of earlier calls on other messages of the same or another type: after any sequence of successful and failed Marshal, Size and Unmarshal calls, decoding an input into a fresh message gives the same result, and leaves the earlier messages as they were. In particular a map entry that omits its key or its value is read with the default for the omitted part, whatever entries, complete, partial or malformed, were decoded before it.",
 ["histories","inputs"],"all sequences of calls on separate messages, with complete, partial, duplicated and malformed map entries, repeated elements and nested messages",
 "Scratch objects are recycled between calls; tests decode at most one map value per process and never a partial or malformed entry.",
 ["proto/map.go","proto/slice.go","proto/struct.go"],
 [("entry scratch reset to zero before it goes back to the pool","proto/map.go mapDecodeFuncOf"),("fresh backing arrays on growth","proto/slice.go growSlice")],
 state=[("map entry pool","recycled scratch must not carry data","proto/map.go")])

prop("C19","Same behaviour on every supported Go toolchain",
 "The runtime relies on internals of the Go runtime (map iteration and assignment, typed allocation and copying, interface layout); on every supported Go release, whatever its map implementation, maps, repeated fields and nested messages of any size encode, decode and round-trip correctly and identically.",
 ["configurations","inputs"],"all installed Go toolchains (1.23 to 1.27, both map implementations, 64 and 32 bit) times all map and repeated-field shapes and sizes",
 "Tests run on one toolchain, with maps of at most four entries, far below the sizes at which bucket growth, overflow buckets or table splitting start.",
 ["internal/runtime_reflect/map.go","internal/runtime_reflect/slice.go","proto/map.go","proto/slice.go"],
 [("linknamed runtime functions and a copied iterator layout","internal/runtime_reflect/map.go"),("manual slice header","internal/runtime_reflect/slice.go")])

prop("C20","Oneof accessors report exactly what is set",
 "For every generated message type with a oneof, in every state of the message (the oneof unset, or any one member set to any value, zero values included) and on a nil message, the accessor of the oneof returns exactly the wrapper that is set and nil otherwise; the accessor of a member returns the value set if that member is the one set, and the default of its type (for an enum the first value declared) otherwise; accessors never panic, never change the message and do not depend on the other fields or oneofs; and a wrapper can be assigned to the oneof it belongs to and to no other.",
 ["programs","inputs"],"all schemas with oneofs (members of every type, several oneofs, imported and nested enums and messages) and all states of their oneofs",
 "The generator has no tests; the checked-in generated file has no oneof.",
 ["internal/generator/main.go"],
 [("accessors of oneofs and their members","internal/generator/main.go genMessageGetterMethods"),("default of a member","internal/generator/main.go fieldDefaultValue"),("wrapper types and the interface of the oneof","internal/generator/main.go genMessageOneofWrapperTypes")],
 observe=["accessors of the generated types","go build of the output of protoc-gen-golite"])

prop("C21","Generated declarations have the form the schema determines",
 "For every schema, each message becomes a struct that cannot be compared with ==, with one exported field per field of the schema, in the schema's order and under its Go name, and one per oneof where its first member stands; the Go type of a field is the one its kind and label determine (scalars with presence wrapped in an option, bytes as a slice, messages as pointers, repeated fields as slices, map fields as maps, enums as int32), and each member of a oneof becomes a wrapper struct with one field. Nothing else is exported from the package by the file, and the file is marked as generated. "
 "The comment of each message, enum, enum value, field and oneof, and the one-line comment after a field or enum value, stands at its own declaration and at no other; and exactly the declarations that the schema deprecates (and the accessors of deprecated oneof members) have a paragraph that starts with 'Deprecated: '.",
 ["programs"],"all schemas, with every combination of comments and deprecation marks on every kind of declaration",
 "The generator has no tests; the one checked-in generated file has no comments, deprecated declarations or oneofs.",
 ["internal/generator/main.go","internal/generator/init.go"],
 [("Go type per field","internal/generator/main.go fieldGoType"),("comparability marker per message","internal/generator/main.go genMessageFields"),("comments and deprecation notices","internal/generator/main.go appendDeprecationSuffix, trailingComment")],
 observe=["protoc-gen-golite stdin/stdout, its output parsed and type-checked"])

with open('/verif/properties.jsonl','w') as f:
    for p in P: f.write(json.dumps(p)+'\n')
