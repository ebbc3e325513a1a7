#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one JSON object per line)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": None}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

B = "bsn1/src/"; S = "bsn1_serde/src/"; M = "bsn1_serde_macros/src/"

p("C01", "Identifier octets are accepted exactly when they are well formed",
  "Parsing identifier octets (borrowed, mutably borrowed or from a reader) succeeds exactly when the input starts with one octet whose low five bits are not 11111, or with such a 11111 octet followed by a base-128 number that has no leading zero group, needs the long form, and is terminated; the result is exactly those octets. "
  "An input that ends too early is reported as unterminated, a number that starts with a zero group or fits the short form as redundant.",
  ["inputs"], "every byte string, of every length, through every identifier parser",
  "The tests enumerate one and two octet identifiers and a handful of long ones; acceptance over all strings and all three entry points is a statement about every path of the octet loop.",
  [B+"identifier_ref.rs", B+"identifier.rs", B+"misc.rs"],
  [("parse_id", B+"identifier_ref.rs"), ("read_u8", B+"misc.rs")],
  ["IdRef::parse", "IdRef::parse_mut", "Id::parse"])

p("C02", "Length octets are accepted exactly when they are minimal and representable",
  "Parsing length octets yields the short-form value for a first octet below 0x80, the indefinite length for 0x80, and the big-endian value for the long form; the long form is refused when it has a leading zero octet or the short form would do (redundant), when it needs more octets than the machine word has (overflow), and when the input ends early (unterminated). "
  "No other input is refused and no octet after the length octets is consumed.",
  ["inputs"], "every byte string offered as length octets, through every entry point that reads a length",
  "Tests check selected lengths; that no 3..8 octet form is mis-decoded, wrongly refused or over-read quantifies over every octet sequence.",
  [B+"length.rs", B+"misc.rs"],
  [("parse_length", B+"length.rs"), ("parse_length_unchecked", B+"length.rs")],
  ["Length::parse", "BerRef::length", "DerRef::length"])

p("C03", "Slice parsers take exactly one TLV or leave the input untouched",
  "Parsing a BER, DER or identifier from a byte slice, shared or mutable, either returns exactly the leading octets of that slice that form one well-formed element and advances the slice past them, or returns an error and leaves the caller's slice exactly as it was. "
  "DER never accepts the indefinite length; BER accepts it only when every nesting level is closed by its end-of-contents octets; contents shorter than announced are refused as unterminated.",
  ["inputs"], "every byte slice and every nesting of definite and indefinite lengths",
  "Only a few malformed inputs are tested and none of them looks at the slice after a failure; the claim is about all inputs and all error exits.",
  [B+"ber_ref.rs", B+"der_ref.rs", B+"identifier_ref.rs"],
  [("BerRef::do_parse depth counting", B+"ber_ref.rs"), ("DerRef::do_parse", B+"der_ref.rs"), ("commit of the advanced slice", B+"ber_ref.rs")],
  ["BerRef::parse", "BerRef::parse_mut", "DerRef::parse", "DerRef::parse_mut", "IdRef::parse", "IdRef::parse_mut"])

p("C04", "Reading from a stream gives what parsing the same bytes from a slice gives",
  "For every byte sequence, reading a BER, DER, identifier or length from a reader accepts it exactly when the slice parser does and returns the same octets, however the reader splits the bytes over its calls; it never consumes an octet past the element. "
  "An error of the reader other than end of input is returned to the caller, and a stream that ends early is an error, never a shorter value.",
  ["inputs", "schedules", "fault_sequences"], "every byte sequence, every split of it into short reads, and an I/O error at any call",
  "Tests read from in-memory slices that always deliver everything at once; short reads, errors at the n-th call and over-reading are schedules they never produce.",
  [B+"ber.rs", B+"der.rs", B+"identifier.rs", B+"length.rs", B+"misc.rs"],
  [("Der::parse", B+"der.rs"), ("Ber::do_parse", B+"ber.rs"), ("read_u8", B+"misc.rs")],
  ["Ber::parse", "Der::parse", "Id::parse", "Length::parse", "read_ber", "read_der"])

p("C05", "Untrusted input can not panic, overflow or abort a decoder",
  "No byte string and no reader makes a safe decoding function of the library (identifier, length, BER, DER, contents accessors, and deserialization of the built-in types) panic, overflow an arithmetic operation, nest its calls as deeply as the input nests, or request memory that the announced length alone dictates; malformed input always comes back as an error value.",
  ["inputs", "fault_sequences"], "every byte string, including lengths near the machine word limit, and every reader behaviour",
  "A panic needs one particular input; tests cannot try every length prefix, and announced lengths near the word limit are not tried at all.",
  [B+"ber.rs", B+"der.rs", B+"ber_ref.rs", B+"der_ref.rs", B+"contents_ref.rs", B+"length.rs", B+"identifier_ref.rs", B+"buffer/little_endian/mod.rs", S+"de/mod.rs"],
  [("bounds checks before slicing", B+"der_ref.rs"), ("size check before the unchecked copy", B+"contents_ref.rs"), ("reserve", B+"buffer/little_endian/mod.rs")],
  ["every public parse/read/from function"])

p("C06", "Identifiers are built, edited and read back consistently",
  "An identifier built from a class, primitive/constructed flag and tag number is the shortest legal encoding, is accepted by the parser, and reports exactly that class, flag and number; the provided constants are the standard universal identifiers. "
  "Changing the class, the flag or the number of an existing identifier changes that component only and leaves an equally minimal identifier; a number too large for the result type is reported as overflow, never wrapped.",
  ["inputs", "histories"], "all 4 classes x 2 flags x every tag number up to 2^128-1, and every sequence of edits",
  "Tests sample tag numbers around a few boundaries; the number of octets changes at 19 boundaries and edits combine a long and a short form in both directions.",
  [B+"identifier.rs", B+"identifier_ref.rs", B+"id_tags.rs"],
  [("Id::new", B+"identifier.rs"), ("Id::set_number", B+"identifier.rs"), ("IdRef::number", B+"identifier_ref.rs")],
  ["Id::new", "Id::set_number", "IdRef::set_class", "IdRef::set_pc", "IdRef::class", "IdRef::pc", "IdRef::number", "IdRef::len"])

p("C07", "Length octets written are minimal and agree with their announced size",
  "For every length value the written octets are the shortest definite form (or the single octet 0x80 for indefinite), decode back to the same value, and their count is what the size query announces.",
  ["inputs"], "every machine-word value and the indefinite length",
  "Tests sample a few values per octet count; 2^64 values decide.",
  [B+"length.rs", B+"length_buffer.rs"],
  [("Length::to_bytes", B+"length.rs"), ("Length::len", B+"length.rs"), ("LengthBuffer capacity", B+"length_buffer.rs")],
  ["Length::to_bytes", "Length::len", "Length::definite", "Length::is_definite", "Length::is_indefinite"])

p("C08", "INTEGER contents are minimal, exact and range checked for every width",
  "Every value of every integer type is encoded as its shortest two's complement big-endian octets, and decoding contents as any integer type returns the exact value when it fits. "
  "Decoding refuses empty contents (unterminated), non-minimal contents (redundant) and values outside the target type (overflow) instead of truncating, wrapping or changing sign.",
  ["inputs"], "every value of the 12 integer types, and every contents string decoded as each of the 12 types",
  "Tests go through all 8/16-bit values but only samples of the wider types, and decode few out-of-range or over-long contents per target type.",
  [B+"contents.rs", B+"contents_ref.rs"],
  [("Contents::from_positive/from_negative", B+"contents.rs"), ("ContentsRef::to_integer", B+"contents_ref.rs"), ("ContentsRef::to_integer_unchecked", B+"contents_ref.rs")],
  ["Contents::from", "ContentsRef::to_integer", "ContentsRef::to_integer_unchecked"])

p("C09", "BOOLEAN, string and raw contents convert exactly and strictly",
  "A boolean is written as the single octet 0x00 or 0xff; BER decoding takes exactly one octet and maps zero to false and anything else to true, DER decoding additionally refuses every octet but 0x00 and 0xff, and both refuse empty contents as unterminated and longer contents as extra octets. "
  "Strings, byte slices, vectors and borrowed contents become contents that are byte for byte the source.",
  ["inputs"], "every contents string and every source value",
  "Contents lengths and all 256 octet values per decoder are only sampled, and copies are only compared for short inputs that stay in the inline storage.",
  [B+"contents.rs", B+"contents_ref.rs"],
  [("to_bool_ber / to_bool_der", B+"contents_ref.rs"), ("From impls", B+"contents.rs")],
  ["ContentsRef::to_bool_ber", "ContentsRef::to_bool_der", "Contents::from", "<&ContentsRef>::from"])

p("C10", "Every constructed element is identifier, minimal length, contents",
  "Every constructor of a BER or DER element (from identifier and contents, from an iterator of parts, from a bool, integer, string or byte slice) yields exactly the identifier octets of the requested or standard type, the minimal definite length octets and the contents octets, and BER constructors yield the same octets as their DER counterparts; the indefinite constructors write the indefinite length octet instead. "
  "Taking such an element apart returns that identifier, that length and those contents.",
  ["inputs"], "every identifier, contents of every length (inline and heap storage, 1..9 length octets) and every source type",
  "Tests use short contents; the length octets grow with the contents and storage switches at 23 octets, so the combinations reached are a thin slice.",
  [B+"der.rs", B+"ber.rs", B+"der_ref.rs", B+"ber_ref.rs"],
  [("Der::with_id_length", B+"der.rs"), ("Der::from_id_iterator", B+"der.rs"), ("disassemble", B+"der_ref.rs"), ("parse_id_unchecked", B+"identifier_ref.rs")],
  ["Der::new", "Ber::new", "Der::from_id_iterator", "Ber::from_id_iterator", "Der::from", "Ber::from", "disassemble", "id", "length", "contents"])

p("C11", "Editing an element keeps it well formed and changes only what was asked",
  "After any sequence of push, extend and truncate the element is again identifier, minimal length octets, contents, where the contents are the old contents with the given octets appended, or cut to the given length (unchanged when already shorter), and the identifier is unchanged; an indefinite-length BER keeps its indefinite length octet. "
  "Writing through the mutable views of identifier and contents changes exactly those octets.",
  ["inputs", "histories"], "every element, every argument, every history of edits, across all length-octet and storage boundaries",
  "Each edit may grow or shrink the length octets and move the contents; tests cross few of the boundaries and few edit sequences.",
  [B+"der.rs", B+"ber.rs", B+"der_ref.rs", B+"ber_ref.rs"],
  [("Der::extend_from_slice", B+"der.rs"), ("Der::truncate", B+"der.rs"), ("Ber::extend_from_slice", B+"ber.rs"), ("Ber::truncate", B+"ber.rs"), ("disassemble_mut", B+"der_ref.rs")],
  ["push", "extend_from_slice", "truncate", "mut_id", "mut_contents", "disassemble_mut"])

p("C12", "No safe call sequence makes the octet storage touch foreign memory",
  "Whatever sequence of safe operations is applied to the library's owned types, every octet read or written lies inside the live allocation (or inline storage) that owns it, no octet is read before it was written, allocations are released exactly once with the size they were made with, and conversions from and into vectors neither leak, copy wrongly nor free twice. "
  "Contents survive every growth from inline to heap storage and every reallocation, and clones are independent.",
  ["histories", "inputs"], "every history of create, grow, write, truncate, clone, convert and drop, at every length and capacity",
  "A store one past the end or a free with the wrong size usually passes a test; the sizes where storage switches are few and the histories unbounded.",
  [B+"buffer/mod.rs", B+"buffer/little_endian/mod.rs", B+"length_buffer.rs", B+"der.rs", B+"ber.rs", B+"identifier.rs", B+"contents.rs"],
  [("Buffer::reserve", B+"buffer/little_endian/mod.rs"), ("Buffer::set_len", B+"buffer/little_endian/mod.rs"), ("Drop", B+"buffer/little_endian/mod.rs"), ("from_vec / into_vec", B+"buffer/little_endian/mod.rs")],
  ["all safe methods of the owned types"],
  [("len_", "length and inline/heap flag", B+"buffer/little_endian/mod.rs"), ("cap_", "heap capacity", B+"buffer/little_endian/mod.rs"), ("data_", "heap pointer", B+"buffer/little_endian/mod.rs")])

p("C13", "Serialized output is identifier, exact length, contents - and sizes never lie",
  "Serializing any value, to memory or to a writer, emits the value's identifier octets, the minimal length octets of exactly the number of contents octets that follow, and those contents; both ways emit the same octets, whether or not the value announces its sizes. "
  "For every built-in type the announced identifier and contents sizes, when present, equal the number of octets written, and a container announces no size when any part announces none.",
  ["inputs", "programs"], "every value of every built-in type, every user implementation of the serialization trait, nested to any depth",
  "Tests use types that announce sizes; a wrong or invented size corrupts only some values of some types and only through some enclosing container.",
  [S+"lib.rs", S+"ser/mod.rs", S+"octet_string.rs"],
  [("to_der / write_der", S+"lib.rs"), ("der_len / der_contents_len", S+"ser/mod.rs"), ("Serialize impls", S+"ser/mod.rs")],
  ["to_der", "to_ber", "write_der", "write_ber", "Serialize::id_len", "Serialize::der_contents_len"])

p("C14", "What the library serializes it deserializes to the same value",
  "For every built-in type the deserializer accepts the identifier the serializer writes and rebuilds the same value from the octets it wrote: booleans, integers, strings, octet strings, sequences in order, sets and maps with every entry, and key-value pairs with key and value not exchanged. "
  "The identifiers are those documented: INTEGER, BOOLEAN, UTF8String, OCTET STRING, SEQUENCE for lists, ordered sets and ordered maps and for each pair, SET for hash sets and hash maps.",
  ["inputs", "programs"], "every value of every built-in type at every nesting",
  "Round trips are tested for samples of each type; agreement of two independent tables and element loops for every type combination is not.",
  [S+"ser/mod.rs", S+"de/mod.rs", S+"octet_string.rs", S+"lib.rs"],
  [("Serialize impls", S+"ser/mod.rs"), ("Deserialize impls", S+"de/mod.rs"), ("DeserializeHelper", S+"de/mod.rs")],
  ["to_der", "from_der", "from_ber", "parse_der", "parse_ber"])

p("C15", "Deserialization accepts the right type only and consumes all of it",
  "Deserializing a built-in type refuses an element whose identifier is not that type's (the constructed string forms are accepted in BER only), and refuses extra or missing octets in its contents and in every key-value pair; an error in any element is returned, never skipped. "
  "Decoding as DER applies the DER rules to every nested element.",
  ["inputs"], "every element offered to every built-in type, through the borrowed, slice and reader entry points",
  "Tests offer each type its own encoding; wrong identifiers, trailing octets and failures in the n-th nested element are combinations they do not reach.",
  [S+"de/mod.rs", S+"octet_string.rs", S+"lib.rs"],
  [("Deserialize impls", S+"de/mod.rs"), ("DeserializeHelper", S+"de/mod.rs")],
  ["from_ber", "from_der", "parse_ber", "parse_der", "read_ber", "read_der"])

p("C16", "Indefinite lengths are honoured by containers and refused by primitives",
  "When decoding BER, a container, a key-value pair or a derived structure with indefinite length is decoded from exactly the octets before its closing end-of-contents, which must be there; a primitive type with indefinite length is refused with the indefinite-length error. "
  "With definite length nothing is stripped.",
  ["inputs", "programs"], "every type, every mix of definite and indefinite lengths at every nesting depth",
  "Tests decode a few containers with indefinite length; the matrix of types by length form by depth is not covered.",
  [S+"de/mod.rs", S+"octet_string.rs", M+"data_container.rs"],
  [("exclude_eoc", S+"de/mod.rs"), ("length checks of primitive impls", S+"de/mod.rs"), ("from_ber_contents", M+"data_container.rs")],
  ["from_ber", "parse_ber", "read_ber", "Deserialize::from_ber"])

p("C17", "A failing writer, reader or element aborts with its own error",
  "When a writer, a reader, or a nested value fails during serialization or deserialization, the call stops, nothing further is written or read, and the error is returned (possibly with context); it is never swallowed, replaced by success or by a shorter output. "
  "A writer that accepts only part of the octets per call still receives all of them.",
  ["fault_sequences", "programs"], "an error at any write, read or nested call of any serialization, and any partial-write behaviour",
  "Tests write to memory, which never fails or writes partially.",
  [S+"lib.rs", S+"ser/mod.rs", S+"de/mod.rs", S+"octet_string.rs", M+"data_container.rs"],
  [("write_all and ? on every call", S+"ser/mod.rs"), ("map_err(context)?", S+"de/mod.rs")],
  ["write_der", "write_ber", "to_der", "read_ber", "read_der", "Serialize impls", "Deserialize impls"])

p("C18", "Derived structs and variants encode their fields in order and decode them back",
  "A type with derived serialization is written as its identifier (SEQUENCE unless the attributes say otherwise) and its fields, in declaration order, leaving out exactly the fields marked as skipped for serialization, converted as the attributes say; derived deserialization reads the same fields in the same order, fills skipped fields from their default, and refuses extra or missing octets. "
  "Sizes announced by a derived type equal what it writes, and transparent types are encoded exactly as their one field.",
  ["programs", "inputs"], "every struct or variant shape and every attribute combination",
  "The macros are tested on small types with one attribute at a time; the property is about every program that uses them.",
  [M+"data_container.rs", M+"ser/mod.rs", M+"de/mod.rs", M+"attribute.rs", M+"generics.rs"],
  [("write_der_contents / der_contents_len / from_*_contents", M+"data_container.rs"), ("Attribute::id", M+"attribute.rs")],
  ["derive(Serialize)", "derive(Deserialize)"])

p("C19", "Derived identifiers follow the attributes and select the variant",
  "The identifier of a derived struct or variant is the named universal type with class, primitive/constructed flag and tag number overridden by the attributes, in its minimal encoding, and the same identifier is written, announced and expected when decoding. "
  "Decoding an enum picks the variant whose identifier matches, and refuses any other identifier as unmatched.",
  ["programs", "inputs"], "every combination of id, class, flag and tag number attributes, and every offered identifier",
  "Tests use few attribute combinations and hardly any non-matching identifier; long tag numbers are not tested.",
  [M+"attribute.rs", M+"data_container.rs", M+"de/mod.rs", M+"ser/mod.rs"],
  [("Attribute::id", M+"attribute.rs"), ("variant match arms", M+"de/mod.rs")],
  ["derive(Serialize)", "derive(Deserialize)"])

p("C20", "Contradictory or misplaced attributes are compile errors",
  "The derive macros refuse, at compile time, every attribute that is unknown, repeated, out of range, malformed, in a place where it has no meaning, or in conflict with another attribute on the same item, and a transparent type without exactly one active field; every documented combination compiles.",
  ["programs"], "every combination of the attribute's arguments on structs, enums, variants and fields",
  "The existing tests only contain programs that must compile; nothing checks what must not.",
  [M+"attribute.rs", M+"ser/mod.rs", M+"de/mod.rs", M+"data_container.rs"],
  [("sanitize_as_*", M+"attribute.rs"), ("exclusivity tables", M+"attribute.rs"), ("transparent field count", M+"data_container.rs")],
  ["derive(Serialize)", "derive(Deserialize)"])

p("C21", "Safe code can not forge, outlive or alias an element",
  "Safe user code cannot turn unvalidated octets into an element or identifier, cannot obtain mutable access to octets it holds only a shared reference to, cannot keep a borrowed view longer than the octets it views, and cannot reach the length octets mutably; every function that skips validation is marked unsafe. "
  "All owned and borrowed types can be sent and shared between threads.",
  ["programs"], "every safe program using the public API",
  "Tests can only contain programs that compile; what must not compile, and what a signature permits, is outside their reach.",
  [B+"ber.rs", B+"der.rs", B+"ber_ref.rs", B+"der_ref.rs", B+"identifier.rs", B+"identifier_ref.rs", B+"contents_ref.rs", B+"lib.rs"],
  [("unsafe constructors", B+"der_ref.rs"), ("lifetimes of parse", B+"ber_ref.rs"), ("Send/Sync impls", B+"buffer/little_endian/mod.rs")],
  ["public signatures"])

p("C22", "Equality, ordering and hashing depend on the octets only",
  "Owned and borrowed forms of every type compare equal exactly when their octets are equal, order as their octets order, and equal values hash equally, whichever of the two forms is on either side and wherever the octets are stored. "
  "Lengths compare as numbers, and the indefinite length is neither equal to nor ordered against anything.",
  ["inputs", "histories"], "every pair of values, in every storage state",
  "Consistency of Eq, Ord, Hash and Borrow is a relation between impls over all pairs of values.",
  [B+"buffer/mod.rs", B+"buffer/little_endian/mod.rs", B+"identifier.rs", B+"identifier_ref.rs", B+"contents.rs", B+"contents_ref.rs", B+"ber.rs", B+"ber_ref.rs", B+"der.rs", B+"der_ref.rs", B+"length.rs"],
  [("comparison impls", B+"buffer/mod.rs")],
  ["PartialEq", "PartialOrd", "Ord", "Hash", "Borrow"])

p("C23", "Errors keep their identity through context and conversion",
  "Adding context to an error any number of times, or converting it to and from the general error type, keeps the original error reachable as the root cause with its kind unchanged; two errors compare equal exactly when they are the same plain kind, and I/O and wrapped errors never compare equal.",
  ["histories", "inputs"], "every error kind and every sequence of wrapping steps",
  "Tests look at one kind and one level of context.",
  [B+"lib.rs"],
  [("Error::context / into_anyhow / root_cause", B+"lib.rs"), ("PartialEq", B+"lib.rs")],
  ["Error::context", "Error::into_anyhow", "Error::root_cause", "Error::eq"])

p("C24", "Owned, borrowed and converted forms hold the same octets",
  "Going from a borrowed to an owned identifier, contents, BER or DER element and back, between DER and BER, into a vector, or to a clone, keeps every octet; a view of an owner, shared or mutable, is of the owner's very octets, and a clone shares none of them. "
  "An octet string gives back exactly the octets, text or vector it was made of, compares and orders by its octets however it holds them, and becomes text exactly when its octets are well-formed UTF-8.",
  ["inputs", "histories"], "every value of every size, in every storage state, through every conversion",
  "Tests convert a few short values; the storage switches at a size, views must alias and clones must not, which values alone do not show.",
  [B+"identifier.rs", B+"identifier_ref.rs", B+"contents.rs", B+"contents_ref.rs", B+"ber.rs", B+"ber_ref.rs", B+"der.rs", B+"der_ref.rs", B+"buffer/little_endian/mod.rs", S+"octet_string.rs"],
  [("From/AsRef/AsMut/Deref/Borrow/ToOwned impls", B+"der.rs"), ("Clone and vector conversions", B+"buffer/little_endian/mod.rs"), ("OctetString conversions", S+"octet_string.rs")],
  ["From", "AsRef", "AsMut", "Deref", "DerefMut", "Borrow", "ToOwned", "Clone", "into_vec", "OctetString"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
