#!/usr/bin/env python3
"""Writes properties.jsonl."""
import json, pathlib

RT = "crates/mabo/src/"
P = []


def p(id, title, statement, over, text, why, files, mech, observe=None, hook=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe or [], hook_needed=hook)))


p("P01", "Variable-width integers round-trip exactly",
  "For every 16, 32, 64 and 128 bit integer, signed or unsigned, decoding the bytes produced by encoding it yields "
  "the same integer and reports exactly the number of bytes that were produced. This holds no matter which bytes follow.",
  ["inputs"], "every value of every width, and every content behind the encoded value",
  "The unit tests try minimum, one and maximum per width; the branches depend on the bit length of the value.",
  [RT + "varint.rs"], [("varint encode/decode", RT + "varint.rs"), ("zigzag mapping", RT + "varint.rs")],
  ["mabo::varint encode/decode functions"])
p("P02", "Integers take the documented shortest wire form",
  "Every 16 to 128 bit integer is written as little-endian groups of seven bits of its value (signed ones mapped to "
  "0,-1,1,-2,... first), with the top bit set on all groups but the last and without a superfluous trailing group. "
  "Reading accepts every such sequence and yields the number it denotes, so independent implementations agree on the bytes.",
  ["inputs"], "every value of every width",
  "A symmetric mistake in writer and reader passes every round-trip test; no test pins the bytes except a few samples.",
  [RT + "varint.rs", "book/src/reference/wire-format.md"],
  [("7 bit groups and continuation bit", RT + "varint.rs"), ("zigzag mapping", RT + "varint.rs")],
  ["encoded bytes"])
p("P03", "The predicted size equals the encoded length",
  "For every value of every built-in type (scalars, strings, byte arrays, vectors, maps, sets, arrays, options, "
  "non-zero wrappers, tuples, smart pointers, field headers, and any nesting of them) the size computed "
  "up front equals the number of bytes encoding then writes.",
  ["inputs"], "every value of every built-in type at any nesting depth and any length",
  "The tests never compare sizes of collections; the prefix length changes only at 128, 16384, ... bytes of content.",
  [RT + "buf/size.rs", RT + "buf/encode.rs", RT + "varint.rs"],
  [("size functions", RT + "buf/size.rs"), ("length prefix of containers computed from element sizes", RT + "buf/encode.rs")],
  ["mabo::buf::Size", "mabo::buf::Encode"])
p("P04", "Scalars, strings and byte arrays round-trip and leave the rest alone",
  "Encoding any boolean, integer, float, string or byte array and decoding the result yields an identical value "
  "(floats bit for bit, also NaN payloads), consuming exactly the bytes written and leaving everything behind them "
  "untouched for the next read. Invalid UTF-8 in a string is refused.",
  ["inputs"], "every value, and any data before and behind it in the buffer",
  "Tests cover single samples per type; float bit patterns, empty and long contents and following data are not covered.",
  [RT + "buf/encode.rs", RT + "buf/decode.rs"],
  [("encode functions", RT + "buf/encode.rs"), ("decode functions", RT + "buf/decode.rs")],
  ["bytes written", "remaining input"])
p("P05", "Containers round-trip at any length and nesting",
  "Encoding any vector, hash map, hash set, option or fixed-size array, of any length and with elements of any type "
  "including further containers, and decoding the result yields an equal value and consumes exactly the bytes written. "
  "Their content is preceded by its length in bytes, options by a single 0 or 1 byte.",
  ["inputs"], "every container value: any length, any element type, any nesting",
  "Tests use one- or two-element samples; prefix widths change at 128 bytes of content, nesting compounds.",
  [RT + "buf/encode.rs", RT + "buf/decode.rs"],
  [("length prefix and element loop", RT + "buf/encode.rs"), ("limited sub-reader and loop until exhausted", RT + "buf/decode.rs")],
  ["bytes written", "decoded value", "remaining input"])
p("P06", "Decoding arbitrary bytes ends in a value or an error",
  "Decoding any byte sequence as any built-in type terminates and returns a value or an error: it never panics, never "
  "overflows, never loops forever and never consumes more than what is there. Cutting the encoding of a value short at any point "
  "is reported as an error instead of yielding a value.",
  ["inputs"], "every byte sequence, including hostile length prefixes, for every built-in type and nesting",
  "Robustness against arbitrary input is a universally quantified claim; the tests decode only well-formed samples.",
  [RT + "buf/decode.rs", RT + "varint.rs"],
  [("remaining-size check before each read", RT + "buf/decode.rs"), ("width-limited integer loop", RT + "varint.rs"),
   ("progress check of element loops", RT + "buf/decode.rs")],
  ["result of decoding"])
p("P07", "Non-zero types never hold and never accept zero or emptiness",
  "A non-zero integer, string, byte array, vector, map or set can't be constructed from, or decoded to, a zero or empty value: "
  "such input is refused with the zero error. Any other value is accepted, encodes like the plain type, and "
  "decodes to exactly what the plain type would decode to.",
  ["inputs"], "every encoded value of every non-zero type",
  "Tests try one zero and one non-zero sample per type.",
  [RT + "lib.rs", RT + "buf/decode.rs"],
  [("checked constructors", RT + "lib.rs"), ("zero checks in the decoders", RT + "buf/decode.rs")],
  ["result of decoding", "constructors"])
p("P08", "Field and variant headers are unambiguous",
  "Every field number up to 2^29-1 combined with every wire marker, and every variant number, is written as a header "
  "that reads back as the same number and marker, with the marker in the low three bits; two different fields never share a header, and no field with a non-zero number "
  "reads as the end of its struct. Headers with an unknown marker are refused.",
  ["inputs"], "every field number, marker and variant number, and every raw header",
  "Tests use small consecutive numbers only; the header's width and the shift only show with large ones.",
  [RT + "lib.rs", RT + "buf/encode.rs", RT + "buf/decode.rs", RT + "buf/size.rs"],
  [("header packing", RT + "lib.rs"), ("field writers", RT + "buf/encode.rs")],
  ["headers on the wire"])
p("P09", "Skipping an unknown field consumes exactly its value",
  "For a field whose number the reader does not know, skipping it by its wire marker consumes exactly the bytes of the encoded value, for "
  "every value of every type carrying that marker, and leaves what follows intact. If the value is incomplete, skipping fails.",
  ["inputs"], "every marker, every value, and any following data",
  "Only one evolution sample exists in the tests; multi-byte integers, long payloads and truncation are not covered.",
  [RT + "buf/decode.rs"], [("skip by marker", RT + "buf/decode.rs")], ["remaining input after skipping"])
p("P10", "Decoding does not depend on how the input is segmented",
  "Decoding the same bytes from one contiguous buffer or from a buffer made of any number of separate segments gives the same result and "
  "consumes the same number of bytes, for every type.",
  ["inputs", "configurations"], "every input, every way to split it into segments",
  "All tests decode from a single slice.",
  [RT + "buf/decode.rs"], [("use of the buffer interface", RT + "buf/decode.rs")], ["result of decoding", "consumed bytes"])
p("P11", "Arrays tolerate a changed length across schema versions",
  "An array written with at least as many elements as the reader's array type expects decodes to the first elements, with all surplus ones skipped "
  "so that following data is read correctly. An array written with fewer elements is refused with an error, without "
  "reading into the data that follows.",
  ["inputs"], "every pair of array lengths, every element value, any following data",
  "No test decodes an array with another length than it was written with.",
  [RT + "buf/decode.rs"], [("element loop and skipping of the remainder", RT + "buf/decode.rs")],
  ["result of decoding", "remaining input"])
p("P12", "Generated Rust code round-trips every schema type",
  "For every schema the compiler accepts, the Rust code generated from it encodes any value of the defined structs and enums in the wire form that the "
  "schema determines (field numbers, markers and variant numbers), and the generated decoder returns an equal value and consumes exactly the bytes "
  "written. Fields, variants and tuple elements of all "
  "built-in, nested, generic and user-defined types are covered.",
  ["programs", "inputs"], "every schema (all combinations of definitions and field types), every value of its types",
  "Generated code is only compared to snapshots and run on a few samples; a wrong template is copied to the snapshot unnoticed.",
  ["crates/mabo-build/src/encode.rs", "crates/mabo-build/src/decode.rs", "crates/mabo-build/src/definition.rs"],
  [("per-type expression templates", "crates/mabo-build/src/encode.rs"), ("per-type expression templates", "crates/mabo-build/src/decode.rs")],
  ["generated code's encode and decode"])
p("P13", "Generated Rust code predicts its encoded size",
  "For every schema the compiler accepts and every value of its structs and enums, the size that the generated code predicts "
  "equals the number of bytes the generated encoder writes.",
  ["programs", "inputs"], "every schema, every value",
  "Generated size code is only compared to snapshots, never to what is written.",
  ["crates/mabo-build/src/size.rs", "crates/mabo-build/src/encode.rs"],
  [("per-type size expressions", "crates/mabo-build/src/size.rs")], ["generated code's size and encode"])
p("P14", "Generated decoders tolerate schema evolution",
  "Data written with a newer or older version of a struct or enum stays readable: unknown fields are skipped wherever they stand, "
  "fields may come in any order, and absent optional fields read as absent. A missing required field is reported by its number and name, an unknown variant by "
  "its number; neither is silently defaulted.",
  ["programs", "inputs", "histories"], "every pair of compatible schema versions and every value",
  "One sample of an added field is tested; positions, orders, markers and missing fields are not.",
  ["crates/mabo-build/src/decode.rs", "crates/mabo-build/src/encode.rs", RT + "buf/decode.rs"],
  [("field loop until the end marker", "crates/mabo-build/src/decode.rs"), ("wire marker per field type", "crates/mabo-build/src/encode.rs")],
  ["result of decoding other versions' data"])
p("P15", "Generated decoders never panic or run away on arbitrary data",
  "Decoding any byte sequence with the code generated for a schema returns a value or an error: it does not panic, does not read beyond the data and terminates. "
  "An encoding that is cut short at any point is an error.",
  ["programs", "inputs"], "every schema, every byte sequence",
  "Tests decode well-formed samples only.",
  ["crates/mabo-build/src/decode.rs", RT + "buf/decode.rs"],
  [("generated field loop", "crates/mabo-build/src/decode.rs")], ["result of decoding"])
p("P16", "Accepted schemas have unambiguous field and variant numbers",
  "A schema is accepted only if within every struct, enum and enum variant all explicit and derived numbers are distinct "
  "and every field number lies between 1 and 2^29-1 (a field header packs the number next to a 3-bit marker, and 0 ends the fields); "
  "every other schema is not refused for its numbers. Items without an explicit number get the same number everywhere: one more than the number of the item before them, the first one 1.",
  ["programs"], "every sequence of explicit and omitted numbers in every kind of definition, up to the largest 32-bit number",
  "A handful of invalid schemas are snapshot-tested; the interplay of explicit, omitted and out of order numbers is not.",
  ["crates/mabo-compiler/src/validate/ids.rs", "crates/mabo-compiler/src/lib.rs", "crates/mabo-compiler/src/simplify.rs"],
  [("number generator", "crates/mabo-compiler/src/lib.rs"), ("duplicate check", "crates/mabo-compiler/src/validate/ids.rs"),
   ("same generator when lowering", "crates/mabo-compiler/src/simplify.rs")],
  ["result of validation", "numbers in the lowered schema"])
p("P17", "Accepted schemas have unambiguous names",
  "A schema is accepted only if no two definitions of a module, no two fields of a struct or variant, no two "
  "variants of an enum and no two type parameters of a struct, enum or alias share a name; a schema free of such clashes is not refused for its names. "
  "This holds at every level of module nesting.",
  ["programs"], "every arrangement of names in definitions, at every nesting level",
  "Only single examples of each clash are snapshot-tested.",
  ["crates/mabo-compiler/src/validate/names.rs", "crates/mabo-compiler/src/validate/generics.rs"],
  [("name checks", "crates/mabo-compiler/src/validate/names.rs")], ["result of validation"])
p("P18", "Type parameters are all used, wherever the use is nested",
  "A definition (struct, enum or type alias) is refused for an unused type parameter exactly if the parameter occurs in none of its types, no "
  "matter how deeply the occurrence is nested in collections, options, tuples, arrays, non-zero wrappers or arguments of other types.",
  ["programs"], "every definition with type parameters, every nesting of uses",
  "Tests cover one unused parameter; the traversal of nested types is not covered.",
  ["crates/mabo-compiler/src/validate/generics.rs"], [("traversal of field types", "crates/mabo-compiler/src/validate/generics.rs")],
  ["result of validation"])
p("P19", "Tuples have two to twelve elements, at any depth",
  "A schema is refused for a tuple's size exactly if it contains a tuple with fewer than two or more than twelve elements, "
  "in a field of any definition kind or a type alias and at any nesting depth within other types.",
  ["programs"], "every type expression in every position",
  "Tests cover one tuple at the top level of a field.",
  ["crates/mabo-compiler/src/validate/tuples.rs"], [("traversal of types", "crates/mabo-compiler/src/validate/tuples.rs")],
  ["result of validation"])
p("P20", "Every type reference of an accepted schema resolves to a definition",
  "A set of schemas is accepted exactly if every reference to a user-defined type, at any nesting depth in fields and type aliases, "
  "names an existing type definition of its own module path, or one reachable through an import at the top of its schema, with the right number of type arguments, or a type parameter "
  "in scope. No valid reference is refused.",
  ["programs"], "every set of schemas, module nesting, imports and references",
  "A few examples of local, imported and remote references are tested.",
  ["crates/mabo-compiler/src/resolve/mod.rs"], [("symbol tables and reference checks", "crates/mabo-compiler/src/resolve/mod.rs")],
  ["result of resolution"])
p("P21", "Lowering a schema for code generation preserves it",
  "The simplified schema that code generators consume contains the same definitions, fields and variants in the same order, with the same names, "
  "numbers and types, as the parsed schema; nothing is dropped, merged or retyped.",
  ["programs"], "every schema",
  "One JSON schema dump is snapshot-tested.",
  ["crates/mabo-compiler/src/simplify.rs"], [("structural lowering", "crates/mabo-compiler/src/simplify.rs")],
  ["simplified schema"])
p("P22", "Printing a parsed schema and parsing it again gives the same schema",
  "The textual form of any parsed schema parses back to an equal schema.",
  ["programs"], "every schema",
  "Snapshots of single definitions only.",
  ["crates/mabo-parser/src/lib.rs"], [("Display implementations", "crates/mabo-parser/src/lib.rs")], ["printed schema"])
p("P23", "Generated Go code is wire-compatible with generated Rust code",
  "For every schema, the generated Go package writes the same bytes as the generated Rust code and reads what it writes.",
  ["programs", "inputs"], "every schema, every value",
  "Go output is only compared to snapshots.",
  ["crates/mabo-go/src/encode.rs", "crates/mabo-go/src/decode.rs"], [("Go templates", "crates/mabo-go/src/encode.rs")], ["encoded bytes"])
p("P24", "Wire size bounds enclose every encoding",
  "For every type, nested to any depth, the minimum and maximum wire sizes that mabo-meta reports (as far as it reports them) enclose the number of "
  "bytes that any value of the type takes on the wire, as an element of a container or as the value of a field, an absent option included; "
  "computing them never panics.",
  ["programs", "inputs"], "every type, every value",
  "The bounds are not tested against encodings.",
  ["crates/mabo-meta/src/lib.rs"], [("size bounds per type", "crates/mabo-meta/src/lib.rs")], ["reported bounds"])
p("P25", "Suggested next numbers are free",
  "The next number that mabo-meta reports for an enum or for the fields of a struct or variant (shown by the language server and in the documentation) is one more than the largest "
  "number in use, or 1 if there is none; hence it is unused and a schema that uses it stays valid (for fields it is at most 2^29-1). "
  "If there is no such number none is reported, and nothing overflows or panics.",
  ["programs"], "every list of numbers in use, in any order, up to the largest possible ones",
  "The suggestion is not tested.",
  ["crates/mabo-meta/src/lib.rs"], [("next free number", "crates/mabo-meta/src/lib.rs")], ["suggested number"])

path = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
path.write_text("".join(json.dumps(x) + "\n" for x in P))
