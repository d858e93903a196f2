#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the list is maintained here, one entry per property)."""
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe or [],hook_needed=hook)))
D="prost-reflect/src/descriptor/"; Y="prost-reflect/src/dynamic/"
p("C01","Global pool registrations by concurrent threads are atomic and never lost",
 "Threads that concurrently add descriptors to the process-wide pool, take copies of it, or use types that register themselves in it on first use see one linear history: an add that returned success is visible in every copy taken afterwards, an add that failed leaves no trace, and no copy shows part of an add. No such thread deadlocks, and a failed add or a panic raised by the caller's own input buffer does not make the pool unusable for others.",
 ["schedules","histories","fault_sequences"],
 "every interleaving of any number of threads calling the global add/decode/copy operations and descriptor() of self-registering types, including adds that fail and buffers that panic",
 "The unit tests are single threaded and share one process-wide pool they only ever extend; no test interleaves two registrations, takes a copy during one, or fails one.",
 [D+"global.rs","prost-reflect-derive/src/lib.rs",D+"build/mod.rs","prost-reflect/src/reflect/wkt.rs"],
 [("mutex around the process-wide pool, copied on read",D+"global.rs"),("Once-guarded registration in derived descriptor()","prost-reflect-derive/src/lib.rs")],
 [dict(name="INSTANCE",meaning="the process-wide pool",where=D+"global.rs")],["DescriptorPool::global","decode_global_file_descriptor_set","add_global_file_descriptor_proto"],
 "lock/unlock/first-use points of the process-wide pool must be visible to the simulator's scheduler")
p("C02","Copies and descriptors taken earlier never change",
 "A copy of a descriptor pool, and every descriptor and message obtained through it, keeps answering exactly as when it was taken, whatever is later added (successfully or not) to the pool it was copied from or to any other copy, by any thread. Adding to a copy never changes the original.",
 ["histories","schedules"],
 "every history of copying, adding (valid and invalid) and dropping pools, descriptors and messages, and every interleaving of threads doing so",
 "Tests build a pool once and read it; none keeps a copy or descriptor across a later add and compares all answers.",
 [D+"mod.rs",D+"build/mod.rs",D+"api.rs"],
 [("copy-on-write of the shared pool contents",D+"build/mod.rs")],None,["all DescriptorPool/…Descriptor accessors, DynamicMessage decode/encode"])
p("C03","A failed add leaves the pool as if it had never been attempted",
 "Adding files of which at least one is invalid (undecodable bytes, unknown syntax, missing import, duplicate name, field number, JSON name or enum value, unresolvable or unimported type, number outside the allowed ranges, bad default, bad oneof or import index, bad option) fails with an error and leaves every answer of the pool exactly as before. Later adds then succeed or fail, and the pool answers, exactly as if the failed add had never happened.",
 ["histories","fault_sequences"],
 "every history of valid and invalid adds, with the defect at any position of any file of any batch, including adds whose failed part extends messages already in the pool",
 "One unit test rolls back one file with one defect and looks up a handful of names.",
 [D+"build/mod.rs",D+"build/names.rs",D+"build/resolve.rs",D+"build/options.rs"],
 [("rollback of every table to its length before the add",D+"build/mod.rs")],None,["DescriptorPool::add_* / decode_* and all accessors afterwards"])
p("C04","The pool converges whatever the order, batching or duplication of delivery",
 "Delivering the same set of valid files one by one in any dependency-respecting order, or in batches of any shape and internal order, as structures or as encoded bytes, with files delivered again or refused because an import has not arrived yet and retried, ends in pools that give the same answers. Those answers are what the files declare: every definition under its full name, with resolved types across direct and chained public imports, cardinalities, presence, defaults, JSON names, oneofs, extensions and services.",
 ["histories","fault_sequences","inputs"],
 "every valid set of files and every delivery history (order, batches, duplicates, premature delivery and retry, encoded or structured)",
 "Tests load each fixture in one fixed order as one set.",
 [D+"build/mod.rs",D+"build/names.rs",D+"build/resolve.rs",D+"api.rs",D+"mod.rs"],
 [("three-pass build over a batch, files already present skipped by name",D+"build/mod.rs"),("name resolution through transitive public imports",D+"build/resolve.rs")],None,["all descriptor accessors"])
p("C05","Damaged descriptors are refused or give a usable pool, never a crash",
 "Feeding a pool descriptor bytes or structures that were truncated, bit-flipped, spliced or had arbitrary fields altered, dropped or duplicated always returns, with an error or with success, and never panics, overflows the stack or loops. After success every descriptor can be enumerated and used to create, decode, encode and print messages without a panic.",
 ["fault_sequences","inputs"],
 "every corruption of an encoded or structured file descriptor set and every later use of the resulting pool",
 "Tests feed a dozen hand-written invalid files, each expected to give one specific error.",
 [D+"build/names.rs",D+"build/resolve.rs",D+"build/options.rs",D+"build/visit.rs",D+"error.rs",D+"api.rs"],
 [("validation passes collecting errors before anything is used",D+"build/resolve.rs")],None,["DescriptorPool::decode*, add_*; accessors and messages afterwards"])
p("C06","A pool survives being written out and reloaded, options included",
 "Encoding a pool or one of its files and decoding the result, through sinks and sources that split the bytes arbitrarily, gives a pool with the same answers, including every standard and custom (extension) option on every kind of element, whether those options arrived already interpreted or as uninterpreted source options. A sink without room gets an error rather than a short dump, and a truncated dump is refused or yields only files that were stored.",
 ["crash_points","fault_sequences","inputs"],
 "every pool, every split of the sink and source, every capacity limit and every truncation point",
 "Tests round-trip two fixtures through one contiguous vector.",
 [D+"api.rs",D+"types.rs",D+"build/options.rs"],
 [("raw descriptor messages that keep option bytes",D+"types.rs"),("options decoded against the pool's own extensions",D+"api.rs"),("interpretation of source options",D+"build/options.rs")],None,["DescriptorPool::encode/decode, FileDescriptor::encode, options()"])
p("C07","Relays with older or different schemas pass messages on without loss",
 "A binary message that passes through any chain of nodes, each decoding and re-encoding it with its own version of the schema (fields, extensions, enum values or whole types missing, different packing), reaches a node that knows the full schema with every field value intact. Fields a node does not know are kept at every nesting level, and are reported as unknown fields with their number, wire type and content.",
 ["histories","configurations","fault_sequences"],
 "every message, every chain of wire-compatible schema versions, and delivery with loss, duplication and fragmentation",
 "Tests decode and re-encode one message with a handful of unknown fields once.",
 [Y+"unknown.rs",Y+"message.rs",Y+"fields.rs"],
 [("unknown fields stored next to known ones and re-encoded",Y+"fields.rs")],None,["DynamicMessage::decode/encode, unknown_fields()"])
p("C08","Buffer layout never changes what is decoded or encoded",
 "Decoding a message gives the same result whether its bytes arrive in one contiguous buffer or split into chunks at arbitrary places, and encoding into a sink made of arbitrary chunks produces exactly as many bytes as the declared encoded length and an equivalent message. If the sink has less room than that, encoding reports an error and writes nothing.",
 ["inputs","fault_sequences"],
 "every message, every chunking of source and sink, every capacity limit",
 "All tests use one contiguous slice or a growing vector.",
 [Y+"message.rs",Y+"unknown.rs"],
 [("length computation mirrored by the encoder",Y+"message.rs")],None,["Message::encode, encode_length_delimited, encoded_len, decode, merge"])
p("C09","Merging a message delivered in pieces follows protobuf merge rules",
 "Merging any sequence of encoded pieces into a message gives the value protobuf defines for their concatenation: last scalar wins, sub-messages merge, lists append (packed, unpacked and mixed), map entries replace by key with missing parts defaulted, and setting one oneof member clears the others. It does not matter how the stream is cut into pieces at field boundaries, how non-canonically fields are ordered, repeated or encoded, or whether pieces arrive twice.",
 ["inputs","histories","fault_sequences"],
 "every sequence of valid encodings (duplicated, reordered and non-canonical fields included) and every way of cutting it into merge calls",
 "Tests merge at most two hand-written messages.",
 [Y+"message.rs",Y+"fields.rs",Y+"unknown.rs"],
 [("merge_field per kind and cardinality",Y+"message.rs")],None,["DynamicMessage::merge/decode"])
p("C10","Damaged binary input gives an error or a valid message, never a crash",
 "Decoding or merging bytes that were truncated, flipped, spliced or invented always returns an error or a message whose every field holds a value of its declared type; it never panics or loops, and malformed input (cut inside a field, wrong wire type for a length, invalid UTF-8 in a string, unterminated group, bad varint) is refused. A message that survived an accepted decode re-encodes and decodes to an equal message, and one whose merge failed can still be read, cleared and reused.",
 ["inputs","crash_points","fault_sequences"],
 "every damaged encoding of every message type and every truncation point, with and without a previous content",
 "Property tests cover arbitrary bytes for one fixed message type compared with the generated code.",
 [Y+"message.rs",Y+"unknown.rs",Y+"fields.rs"],
 [("wire-type checks in merge_value and unknown decoding",Y+"message.rs")],None,["DynamicMessage::decode/merge"])
p("C11","Messages relayed as JSON arrive unchanged",
 "A message written as JSON with any combination of the writing options and read back, through readers and writers that deliver short pieces and are interrupted, equals the original in every field JSON can express; the text follows the proto3 JSON mapping (64-bit integers as strings, base64 bytes, enum names, map keys as strings, well-known type forms, defaults as the options demand). Reading accepts every spelling the mapping allows (either field name, numbers or strings, any member order including '@type', base64 variants, escapes) with the same result.",
 ["inputs","configurations","fault_sequences"],
 "every message, every option combination, every allowed re-spelling and member order, every I/O chunking",
 "Tests cover fixed examples, and property tests round-trip one fixture with default options from a string.",
 [Y+"serde/ser/mod.rs",Y+"serde/ser/wkt.rs",Y+"serde/de/mod.rs",Y+"serde/de/kind.rs",Y+"serde/de/wkt.rs",Y+"serde/case.rs"],
 [("Serialize/DeserializeSeed per kind and well-known type",Y+"serde/")],None,["serialize_with_options, deserialize_with_options"])
p("C12","A failing writer or serializer always surfaces and never corrupts",
 "If the destination of a JSON or other serde serialization fails at any point, serialization returns an error, and what was written before is exactly the beginning of what a healthy destination would have received. Serializing never changes the message, never succeeds after a refused step, and the same message serializes completely to a healthy destination afterwards.",
 ["crash_points","fault_sequences"],
 "every message and option set, a failure injected at every possible serializer call or written byte",
 "No test uses a destination that fails.",
 [Y+"serde/ser/mod.rs",Y+"serde/ser/wkt.rs"],
 [("error propagation through nested serializers",Y+"serde/ser/mod.rs")],None,["Serialize for DynamicMessage"])
p("C13","Damaged or interrupted JSON is refused cleanly",
 "Reading JSON whose source fails or ends early, or whose text was truncated, altered, or holds values of the wrong type, out of range, or two members of one oneof, returns an error and never panics, and a read error from the source is reported. Unknown members are refused or ignored (together with unknown enum names) exactly as the reading options say, and whatever is accepted is a valid message that re-encodes and decodes to itself.",
 ["crash_points","fault_sequences","inputs"],
 "every truncation point, read failure point and mutation of every JSON document, under every option",
 "Tests list a few dozen malformed documents and their messages.",
 [Y+"serde/de/mod.rs",Y+"serde/de/kind.rs",Y+"serde/de/wkt.rs"],
 [("visitors reject wrong shapes and ranges",Y+"serde/de/kind.rs")],None,["deserialize, deserialize_with_options"])
p("C14","Messages relayed in text format arrive unchanged",
 "A message printed in protobuf text format with any formatting options that keep known fields and parsed back equals the original in every known field, including extensions, groups, maps, expanded Any values, arbitrary bytes and extreme numbers. Text re-spelled within the grammar (whitespace, comments, separators, quotes and escapes, list and aggregate forms, split strings, number bases) parses to the same message, and pieces merged one after another give the merged message.",
 ["inputs","configurations","histories"],
 "every message, every formatting option combination, every re-spelling the grammar allows, every cut into merged pieces",
 "Property tests round-trip one fixture with two option sets; fixed examples cover the grammar.",
 [Y+"text_format/format.rs",Y+"text_format/parse/mod.rs",Y+"text_format/parse/lex.rs",Y+"text_format/mod.rs"],
 [("writer and parser of the text format",Y+"text_format/")],None,["to_text_format_with_options, parse_text_format, merge_text_format, Display"])
p("C15","Text formatting and parsing survive failing sinks and damaged text",
 "If the sink of a formatted message fails at any point, formatting returns an error and what was written is a prefix of the full text. Text that was truncated or altered at any point parses to a valid message or to an error that points into the input, and never panics.",
 ["crash_points","fault_sequences","inputs"],
 "every message and formatting option, a sink failure at every write, every truncation and mutation of the text",
 "No test uses a failing sink; a few malformed texts are listed.",
 [Y+"text_format/format.rs",Y+"text_format/parse/mod.rs",Y+"text_format/parse/lex.rs",Y+"text_format/parse/error.rs"],
 [("error propagation in the writer; spans in parse errors",Y+"text_format/")],None,["Display, parse_text_format, merge_text_format"])
p("C16","Results do not depend on hash randomisation",
 "Repeating the same operations under different per-process hash seeds gives the same answers: the same files accepted, the same error messages, the same descriptors in the same order, equal messages decoded, and encodings, JSON and text that are equal up to the order of map entries. In particular the same bytes are produced for messages without map fields and for dumped pools.",
 ["configurations","histories"],
 "every workload and every pair of hash seeds",
 "Each test run uses one random hash seed per thread and compares nothing across seeds.",
 [D+"mod.rs",D+"build/names.rs",D+"build/resolve.rs",Y+"fields.rs",Y+"message.rs"],
 [("ordered containers wherever order is observable",D+"mod.rs")],None,["all outputs"])
p("C17","A message behaves as a typed record across any operation history and restart",
 "After any sequence of setting, getting, mutating in place, clearing, taking, merging and copying fields and extensions of a message, by descriptor, number, name or JSON name, every accessor agrees with a simple record: last value set, default when absent, at most one member per oneof, presence as the schema declares, refused values leave the message unchanged. Saving the message to bytes and restoring it at any point of the history does not change any answer.",
 ["histories","crash_points","inputs"],
 "every operation sequence on every message type, with save-and-restart at any point",
 "Tests check single operations on fixed messages.",
 [Y+"mod.rs",Y+"fields.rs",Y+"message.rs"],
 [("field set keyed by number with oneof clearing and presence rules",Y+"fields.rs")],None,["DynamicMessage field and extension accessors"])
p("C18","Typed and dynamic nodes exchange messages without loss",
 "A message converted between a generated type and the dynamic type, in either direction and any number of times, through nodes that hold it typed or dynamic, keeps every field value, and the descriptor a generated type reports is the one carrying its name. Converting into a target whose type cannot represent the bytes returns an error instead of panicking or yielding a wrong value.",
 ["histories","inputs","fault_sequences"],
 "every message of every well-known and derived type and every alternation of typed, dynamic, JSON and text hops",
 "Tests transcode a handful of fixed values.",
 [Y+"mod.rs","prost-reflect/src/reflect/mod.rs","prost-reflect/src/reflect/wkt.rs","prost-reflect-derive/src/lib.rs"],
 [("transcoding through the binary form",Y+"mod.rs"),("descriptor() of well-known and derived types","prost-reflect/src/reflect/wkt.rs")],None,["transcode_to, transcode_from, transcode_to_dynamic, descriptor()"])
p("C19","Code generation reports tool and file faults and never half-succeeds",
 "When the protobuf compiler cannot be run, fails, or leaves a missing, truncated or garbage descriptor file, or the output cannot be written, the build helper returns an error and does not panic. When it returns success, every message of the compiled files carries the reflection derive with its own full name and the configured pool expression, and the stored descriptor file loads into a pool with exactly those files.",
 ["fault_sequences","crash_points","configurations"],
 "every set of proto files and builder settings, with each fault at each step of the build",
 "One unit test runs one file with no fault.",
 ["prost-reflect-build/src/lib.rs"],
 [("compile, read back, decode, annotate, generate","prost-reflect-build/src/lib.rs")],None,["Builder::compile_protos*, configure"])
p("C20","The derive macro rejects misuse and generates a correct descriptor lookup",
 "Deriving reflection on a struct without the required attributes, or with unknown ones, is a compile error that names the problem, and a valid derive generates a lookup of exactly the named message.",
 ["programs"],"every annotated type definition",
 "trybuild tests cover seven sources.",
 ["prost-reflect-derive/src/lib.rs"],[("attribute parsing and token generation","prost-reflect-derive/src/lib.rs")])
p("C21","Sizes and costs stay proportionate to the input",
 "Decoding, parsing and formatting use time and memory proportionate to their input, so that a small hostile input cannot exhaust the process.",
 ["inputs"],"every input",
 "No test measures cost.",
 [Y+"message.rs",Y+"serde/de/kind.rs",Y+"text_format/parse/mod.rs"],[("streaming decode",Y+"message.rs")])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
import sys
try:
    import jsonschema
    s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for x in P: jsonschema.validate(x,s)
    print("valid",len(P))
except ImportError: print(len(P),"no jsonschema")
for x in P:
    assert x["statement"].count(". ")<=2, x["id"]
