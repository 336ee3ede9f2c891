#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the statements stay readable and diffable)."""
import json, os
H = "include/persistence/"
def P(id, title, statement, over, text, why, files, mech, observe=None):
    assert len(title) <= 80, (id, len(title))
    return dict(id=id, title=title, statement=statement,
                quantifier=dict(over=over, text=text), why_tests_cant=why,
                anchors=dict(files=[H + f for f in files],
                             mechanism=[dict(name=n, where=H + w) for n, w in mech],
                             observe_at=observe or [], hook_needed=None))
props = [
P("C01", "A JSON value of the wrong kind is always rejected",
  "Reading a C++ value from a JSON document succeeds only if the JSON value has the kind (null, boolean, number, string, array, object) that the C++ type is represented by, and a value of the right kind is never refused because of its kind. "
  "The contents of a JSON value are never interpreted as a kind the value was not first found to have, whatever the document contains.",
  ["inputs"], "every JSON value of every kind, for every supported C++ type, in both error-reporting styles, in the document-based and the streaming reader",
  "tests feed a handful of wrong-kind documents per type; the guarantee is about every kind at every point of every type",
  ["deserialize_check.hpp", "deserialize_fundamental.hpp", "deserialize_enum.hpp", "deserialize_pointer.hpp", "deserialize_bytes.hpp", "deserialize_date.hpp", "deserialize_datetime.hpp", "deserialize_string.hpp", "parse_base.hpp", "parse_fundamental.hpp"],
  [("type check before each typed access", "deserialize_check.hpp"), ("reject-by-default token handler", "parse_base.hpp")],
  ["bool/throw result of deserialize and parse"]),
P("C02", "An integer is read exactly or rejected",
  "For every integer type, reading a JSON integer stores exactly that integer when it is representable in the type and fails otherwise; no value is wrapped, truncated or sign-converted, and no representable integer is refused, no matter which internal number class the JSON library reports it in. "
  "A number with a fraction or exponent is never read into an integer.",
  ["inputs"], "every 64-bit integer literal, every fundamental integer type and integer-valued enumeration, stand-alone or as an array, set or fixed-size-array element, in the streaming and document-based readers",
  "tests sample a few boundary values for a few types; the guarantee covers the full 64-bit range for each (type, number class) pair",
  ["deserialize_fundamental.hpp", "deserialize_enum.hpp", "parse_fundamental.hpp", "parse_vector.hpp", "parse_set.hpp", "parse_array.hpp", "parse_enum.hpp", "detail/numeric_traits.hpp"],
  [("narrowing range check", "deserialize_fundamental.hpp"), ("is_assignable", "detail/numeric_traits.hpp")],
  ["value stored and result of deserialize and parse"]),
P("C03", "Non-finite and out-of-range floating-point values never pass",
  "A NaN or infinite floating-point value is never emitted: writing or serializing it fails. "
  "Reading a JSON number whose magnitude exceeds the range of the floating-point target fails and leaves no infinity in the target; every other JSON number is accepted by the document-based reader.",
  ["inputs"], "every float and double bit pattern on output, every JSON number on input",
  "tests try single NaN/infinity and overflow values; the guarantee is for all values and all places a floating-point number is emitted or accepted",
  ["write_fundamental.hpp", "serialize_fundamental.hpp", "deserialize_fundamental.hpp", "parse_fundamental.hpp", "detail/numeric_traits.hpp"],
  [("finiteness test before emitting", "write_fundamental.hpp"), ("range test before narrowing", "detail/numeric_traits.hpp")]),
P("C04", "A failed part makes the whole read fail (document reader)",
  "When any element, member, alternative-less variant or pointee of a composite value cannot be read from a JSON document, reading the composite fails too: the result-returning style reports failure and the throwing style throws. "
  "A composite is reported as read only if every one of its parts was read successfully, regardless of the position of the failing part or of what follows it.",
  ["inputs"], "every document and every position of the first failing part, for every composite type",
  "tests place a failure in one position of a few types, mostly in throwing style; the guarantee concerns every position and both styles",
  ["deserialize_object.hpp", "deserialize_vector.hpp", "deserialize_set.hpp", "deserialize_array.hpp", "deserialize_map.hpp", "deserialize_tuple.hpp", "deserialize_pointer.hpp", "deserialize_variant.hpp"],
  [("result accumulation over members", "deserialize_object.hpp"), ("early return on element failure", "deserialize_vector.hpp")]),
P("C05", "A part that cannot be written makes the whole output fail",
  "When any element, member, alternative or pointee of a value cannot be represented in JSON, producing the enclosing value fails in both output modes (a null pointer cannot be represented unless it is an optional member); success is reported only if every part was emitted. "
  "No part is silently dropped from output that is reported as successful.",
  ["inputs"], "every value of every supported composite type, every position of the unrepresentable part, both output modes",
  "tests hardly exercise failing output at all; the guarantee covers every position in every composite type",
  ["write_object.hpp", "serialize_object.hpp", "write_vector.hpp", "serialize_vector.hpp", "write_map.hpp", "serialize_map.hpp", "write_tuple.hpp", "serialize_tuple.hpp", "write_pointer.hpp", "serialize_pointer.hpp", "write_array.hpp", "serialize_array.hpp", "write_set.hpp", "serialize_set.hpp"],
  [("member result flag", "serialize_object.hpp")]),
P("C06", "Result-style calls never throw read errors; value-style calls always do",
  "Entry points that take a source and a target report every failure to read or write as a false result and never throw the library's read errors; entry points that return a value never return one after a failure but throw an error of the library. "
  "A document or text with a syntax error (in a text up to its first NUL character) is never reported as success by either style.",
  ["inputs"], "every input text and document, for every supported type, through every public entry point",
  "tests check a few failing inputs per style; the guarantee is for every failure path of every type in both styles",
  ["deserialize.hpp", "parse.hpp", "write.hpp", "serialize.hpp", "deserialize_check.hpp", "deserialize_pointer.hpp", "utility.hpp"],
  [("Exception template parameter", "deserialize.hpp"), ("result to exception conversion", "parse.hpp")]),
P("C07", "Streaming reader: each value consumes exactly its own tokens",
  "In the streaming reader, whatever handles a value takes over at the first token of that value and hands control back exactly once, after its last token, so that the next token always reaches whoever encloses it. "
  "Every token either is handled or fails the parse; no handler is used after it has been discarded.",
  ["inputs", "histories"], "every sequence of JSON tokens for every supported type and every nesting of types",
  "tests parse a few nestings; whether control is handed back is a property of every handler on every token sequence",
  ["parse_base.hpp", "parse_fundamental.hpp", "parse_string.hpp", "parse_bytes.hpp", "parse_date.hpp", "parse_datetime.hpp", "parse_enum.hpp", "parse_vector.hpp", "parse_set.hpp", "parse_array.hpp", "parse_map.hpp", "parse_object.hpp", "parse_pointer.hpp", "detail/parse_event.hpp"],
  [("emplace/replace/pop on the handler stack", "parse_base.hpp"), ("token dispatch", "detail/parse_event.hpp")]),
P("C08", "Containers are read completely, in order, from a clean slate",
  "Reading a sequence, set, dictionary, fixed-size array or tuple visits every JSON element or member exactly once in document order, stores each into its own position, and a target that already had contents keeps none of them. "
  "A fixed-size array or tuple is accepted only with exactly its number of elements.",
  ["inputs", "histories"], "every JSON array/object length and every prior content of the target, in both readers",
  "tests use fresh targets and a few lengths; completeness and clearing concern every length and every prior state",
  ["deserialize_vector.hpp", "deserialize_set.hpp", "deserialize_map.hpp", "deserialize_array.hpp", "deserialize_tuple.hpp", "parse_vector.hpp", "parse_set.hpp", "parse_array.hpp", "parse_map.hpp"],
  [("iteration Begin..End with per-element insert", "deserialize_vector.hpp"), ("element count check", "deserialize_check.hpp")]),
P("C09", "Successful output is one complete well-formed JSON value",
  "Whenever writing succeeds, exactly one complete JSON value was emitted: every opened array and object is closed, every object value follows its own key, and each element of a container or member of a class is emitted exactly once in iteration order.",
  ["inputs"], "every value of every supported type and both output modes",
  "tests compare a few outputs with expected strings; balance and completeness must hold for all lengths and on all paths",
  ["write_vector.hpp", "write_set.hpp", "write_array.hpp", "write_map.hpp", "write_tuple.hpp", "write_object.hpp", "write_pointer.hpp", "write_variant.hpp", "serialize_vector.hpp", "serialize_map.hpp", "serialize_object.hpp", "serialize_tuple.hpp", "serialize_pointer.hpp", "serialize_set.hpp", "serialize_array.hpp"],
  [("paired Start/End calls", "write_vector.hpp"), ("PushBack/AddMember after element", "serialize_vector.hpp")]),
P("C10", "Writing text directly and via a document give the same JSON",
  "For every value of every supported type, the directly written JSON text and the text of the serialized JSON document denote the same JSON: same kind, same numeric value, same string contents, same structure, and one succeeds if and only if the other does.",
  ["inputs"], "every value of every supported type",
  "tests compare both modes for a few values; agreement must hold for all values",
  ["write_fundamental.hpp", "serialize_fundamental.hpp", "write_string.hpp", "serialize_string.hpp", "write_enum.hpp", "serialize_enum.hpp", "write_bytes.hpp", "serialize_bytes.hpp", "write_datetime.hpp", "serialize_datetime.hpp", "write_date.hpp", "serialize_date.hpp", "write_map.hpp", "serialize_map.hpp", "write_variant.hpp", "serialize_variant.hpp"],
  [("parallel writer and serializer specialisations", "write_fundamental.hpp")]),
P("C11", "Reported locations are the JSON Pointer of the value concerned",
  "The location carried by a read error and the path used in a back-reference identify exactly the JSON value concerned: one segment per nesting level from the root, the member key or zero-based element index at each level, no level missing, duplicated or shifted, with keys escaped as JSON Pointer requires. (The root itself is reported as a single slash.)",
  ["inputs"], "every document, nesting depth, element position and key text",
  "tests check the path of a few errors at small indices; the guarantee is for every position in every composite type",
  ["detail/path.hpp", "detail/segment.hpp", "detail/output_context.hpp", "detail/deserialize_context.hpp", "deserialize_vector.hpp", "deserialize_set.hpp", "deserialize_array.hpp", "deserialize_map.hpp", "deserialize_tuple.hpp", "deserialize_object.hpp", "write_set.hpp", "serialize_set.hpp", "write_object.hpp", "write_map.hpp"],
  [("per-level context with parent link and segment", "detail/deserialize_context.hpp"), ("Path::str", "detail/path.hpp")]),
P("C12", "Shared objects are written once and restored as the same object",
  "On output a shared object is emitted in full at its first occurrence and as a back-reference to that occurrence afterwards; when a document is read, a back-reference yields the very object read at the referenced place. "
  "A back-reference that is malformed, dangling, forward, or refers to an object of a different type is rejected and never produces a pointer.",
  ["inputs", "histories"], "every object graph without cycles on output; every document with back-references on input",
  "tests round-trip one or two small graphs; rejection of bad references is untested and is about every possible document",
  ["deserialize_pointer.hpp", "write_pointer.hpp", "serialize_pointer.hpp", "detail/references.hpp", "detail/output_context.hpp", "detail/deserialize_context.hpp"],
  [("reference table put/get", "detail/references.hpp"), ("$ref resolution", "deserialize_pointer.hpp")]),
P("C13", "Base64 transfers every byte sequence exactly",
  "Encoding maps each byte sequence to its canonical padded Base64 text and decoding maps that text back to the same bytes; text that is not valid Base64 is rejected. "
  "Neither direction reads or writes outside its input and output, for any length.",
  ["inputs"], "every byte sequence of every length and every candidate text",
  "tests encode a few short strings; lengths, bit patterns and invalid texts are unbounded",
  ["base64.hpp", "write_bytes.hpp", "serialize_bytes.hpp", "parse_bytes.hpp", "deserialize_bytes.hpp"],
  [("bit regrouping and alphabet tables", "base64.hpp")]),
P("C14", "Only real dates and times are accepted, and fields are not mixed up",
  "A date or date-time text is accepted only if it has the documented fixed layout with digits and separators in place and denotes an existing calendar day (leap-year rule included) and a valid time of day; each field of the text goes to and comes from the corresponding field of the value. "
  "Writing emits the same fixed layout that reading accepts.",
  ["inputs"], "every text of every length and every calendar field combination",
  "tests parse a few dates; acceptance must be right for every year, month, day, hour, minute, second and every malformed text",
  ["datetime.hpp", "write_date.hpp", "serialize_date.hpp", "parse_date.hpp", "deserialize_date.hpp", "write_datetime.hpp", "serialize_datetime.hpp", "parse_datetime.hpp", "deserialize_datetime.hpp"],
  [("fixed-offset field parsing and validity checks", "datetime.hpp")]),
P("C15", "Concurrent independent calls do not interfere",
  "Calls from different threads on different data never share mutable state inside the library: no call writes to storage that outlives it other than its own target, and none depends on process-wide mutable state such as the C locale-independent static buffers of the C library.",
  ["schedules"], "every interleaving of any number of library calls on distinct data",
  "tests are single-threaded; races show up only in rare interleavings",
  ["datetime.hpp", "parse_object.hpp", "enum_utility.hpp", "schema.hpp", "detail/perfect_hash.hpp", "number.hpp"],
  [("state kept in per-call contexts", "parse_base.hpp")]),
P("C16", "Results never point into memory that the caller may release",
  "Values read from JSON own all their data: nothing in them refers to the source text or document. "
  "Documents produced from C++ values or text stay valid after that source value or text is gone, except for member names, string literals (character arrays) and types that are by definition views onto caller-owned storage.",
  ["inputs", "histories"], "every supported type, every input, every order of destroying source and result",
  "tests keep the source alive while they inspect the result",
  ["serialize_string.hpp", "serialize_map.hpp", "serialize_pointer.hpp", "serialize_bytes.hpp", "serialize_datetime.hpp", "serialize_date.hpp", "serialize_enum.hpp", "serialize_object.hpp", "utility.hpp", "deserialize.hpp", "parse_string.hpp", "deserialize_string.hpp"],
  [("copying SetString/AddMember with the document allocator", "serialize_string.hpp")]),
P("C17", "Strings and keys keep their full length and every character",
  "A string value, dictionary key or member name is transferred with its exact length: characters after an embedded NUL are neither dropped on output nor ignored on input, and two keys that differ only after a NUL are different keys.",
  ["inputs"], "every string content including embedded NUL characters, as value, element, dictionary key, enumeration name or byte string, in all four modes",
  "tests use plain text strings; the guarantee is for every content and length",
  ["write_string.hpp", "serialize_string.hpp", "write_map.hpp", "serialize_map.hpp", "deserialize_string.hpp", "deserialize_map.hpp", "parse_string.hpp", "parse_map.hpp", "deserialize_enum.hpp", "parse_enum.hpp", "enum_utility.hpp"],
  [("pointer and length passed together", "write_string.hpp")]),
P("C18", "Unsupported uses fail to compile with the library's own message",
  "A type the library does not support in a mode is rejected when the program is compiled, by the library's explanatory assertion and not at run time: unknown types in every reading and writing mode, raw pointers and string views on input, variants in the streaming reader, mutable-qualified value requests. "
  "Every documented supported type compiles in every documented mode and language version.",
  ["programs", "configurations"], "every program using a documented-supported or documented-unsupported (type, mode) pair, in C++17 and C++20, with and without Boost description",
  "tests only contain programs that compile",
  ["parse_base.hpp", "deserialize_base.hpp", "serialize_base.hpp", "write_base.hpp", "parse_pointer.hpp", "deserialize_pointer.hpp", "schema.hpp", "parse.hpp", "deserialize.hpp"],
  [("static_assert in primary templates", "deserialize_base.hpp")]),
P("C19", "Every header stands alone and can be included in many source files",
  "Each public header compiles as the only include of a source file, in C++17 and C++20, with and without Boost; and no header defines anything that would collide when included in several source files of one program.",
  ["programs", "configurations"], "every choice of headers included by every set of translation units",
  "tests always include the same broad set of headers",
  ["persistence.hpp", "parse_all.hpp", "write_all.hpp", "serialize_all.hpp", "deserialize_all.hpp", "schema.hpp", "base64.hpp", "datetime.hpp"],
  [("includes at the top of each header; templates and inline definitions", "persistence.hpp")]),
P("C20", "The generated schema describes what the library writes and accepts",
  "The JSON Schema generated for a type states the JSON kind the library uses for it, for integers exactly the range of the type, for classes exactly the member names the library reads and writes with precisely the non-optional, non-default ones required, and for fixed-size arrays exactly their length.",
  ["inputs", "programs"], "every supported type and every class description",
  "tests compare the schema of a few types with expected text",
  ["schema.hpp", "schema_utility.hpp", "object_members.hpp"],
  [("schema specialisation per type", "schema.hpp")]),
P("C21", "Each member name maps to its own member and to nothing else",
  "Each class member is written under its own name from its own field and read from its own name into its own field, by full-length comparison of the name; in the streaming reader a name that is not a member name is rejected, whatever it hashes to.",
  ["inputs", "programs"], "every key text including near-collisions and the empty key, every class with any number of members",
  "tests use a few classes and correct names; the lookup must be right for every key",
  ["parse_object.hpp", "deserialize_object.hpp", "write_object.hpp", "serialize_object.hpp", "detail/perfect_hash.hpp", "detail/bitset.hpp", "object_reflection.hpp", "object_members.hpp"],
  [("name comparison after hash lookup", "parse_object.hpp"), ("PerfectHash", "detail/perfect_hash.hpp")]),
P("C22", "Enumerations map to their declared names or numbers both ways",
  "An enumerator with declared names is written as exactly its name and only an exact declared name is read back, as the enumerator it belongs to; an enumeration without names is written and read as its underlying integer. An undeclared name or undeclared enumerator value fails.",
  ["inputs"], "every string and every underlying value, every enumeration kind, all four modes",
  "tests use a few names; rejection must hold for every other string and value",
  ["enum.hpp", "enum_utility.hpp", "write_enum.hpp", "serialize_enum.hpp", "parse_enum.hpp", "deserialize_enum.hpp"],
  [("enum_traits / described enumerators lookup", "enum_utility.hpp")]),
P("C23", "A variant takes the first alternative that fits and writes the one it holds",
  "Reading a variant tries the alternatives in declaration order, takes the first that reads the JSON value completely, and fails when none does; a rejected alternative leaves no trace in the variant. "
  "Writing a variant emits exactly the alternative it holds.",
  ["inputs"], "every JSON value and every list of alternatives",
  "tests use one variant type with a few values",
  ["deserialize_variant.hpp", "write_variant.hpp", "serialize_variant.hpp"],
  [("fold over alternatives", "deserialize_variant.hpp")]),
P("C24", "Required, optional and defaulted members behave as declared",
  "Reading an object from a document fails if a required member is missing, sets an optional member to empty if it is missing, and leaves a defaulted member at its default if it is missing; a member that is present is always read. "
  "On output an empty optional member is omitted and every other member is emitted.",
  ["inputs"], "every subset of members present in the JSON object and every engagement of optional members",
  "tests try a few subsets of members for one class",
  ["deserialize_object.hpp", "write_object.hpp", "serialize_object.hpp", "parse_object.hpp"],
  [("member descriptor kinds variable / optional / variable_default", "object.hpp")]),
P("C25", "The streaming reader's handler storage stays within bounds",
  "However deeply the JSON text nests, the streaming reader never writes outside its fixed working storage and destroys each of its handlers exactly once, also when constructing one throws; nesting beyond capacity ends in an error, not in corruption.",
  ["inputs", "fault_sequences"], "every nesting depth and every mix of handler sizes",
  "tests nest a few levels; capacity effects need hundreds",
  ["detail/polymorphic_stack.hpp", "parse_base.hpp"],
  [("capacity test before construction", "detail/polymorphic_stack.hpp")]),
P("C26", "Reading back what was written yields an equal value",
  "For every value of every supported type, reading the produced JSON gives an equal value (exactly for integers, strings, dates, enumerations and containers; to the last bit for double).",
  ["inputs"], "every value of every supported type",
  "tests round-trip a few values",
  ["write.hpp", "parse.hpp", "serialize.hpp", "deserialize.hpp"], [("matching codecs per type", "write_all.hpp")]),
P("C27", "Resource use is proportional to the input",
  "Reading or writing terminates and uses memory and stack proportional to the size and nesting of the JSON, for every input.",
  ["inputs"], "every input size and nesting depth",
  "tests use small inputs",
  ["deserialize.hpp", "serialize.hpp"], [("single pass over the document", "deserialize.hpp")]),
]
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in props:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
for p in props:
    for x in p["anchors"]["files"]:
        assert os.path.exists("/repo/" + x), x
print(len(props))
