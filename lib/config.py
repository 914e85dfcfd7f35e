"""What decides each property."""

KANI_TRUST = [
    "rustc, Kani's translation of MIR to goto programs, and CBMC with its SAT back end",
    "the bytes crate and the Rust core library as shipped (compiled and verified along with the code)",
]
KANI = "Kani contracts (pre/postconditions, full-domain symbolic inputs) on the real crate"
KANI_NOTE = ("Every obligation is discharged by Kani/CBMC on the compiled real code for all inputs of the function; loops are "
             "bounded by the operand width with unwinding assertions on, so nothing is cut off.")
MIXED_NOTE = ("Integer and header functions: discharged by Kani/CBMC on the compiled real code for all inputs. Functions on "
              "collections: contracts executed on sampled inputs only (labelled, not counted as proved).")


def _p(explanation, note=MIXED_NOTE, level="proof", technique=KANI, **kw):
    d = dict(crates=["contracts"], level=level, technique=technique, level_note=note, trusted=KANI_TRUST,
             explanation=explanation)
    d.update(kw)
    return d


SAMPLED_NOTE = "Contracts executed on enumerated and sampled inputs of the real code only; not counted as proved."
SAMPLED = "contracts on the real functions, executed on enumerated and sampled inputs (bounded stand-in for the deductive proof)"


def _c(explanation, **kw):
    return _p(explanation, **{**dict(crates=["compiler"], level="exploration", technique=SAMPLED, level_note=SAMPLED_NOTE, trusted=[]), **kw})


# Keys of lib/verus.py. `own`: a failed obligation breaks the property; `uses`: what the property is also built on (only failed
# safety obligations there are violations of it, the rest belongs to the properties that own the contract).
_INT = r"(u16|u32|u64|u128|i16|i32|i64|i128)"
_FIX = r"(bool|u8|i8|f32|f64)"
_BLK = r"(string|bytes_std|bytes_bytes)"
_BLK_T = r"(String|Box<str>|Box<\[u8\]>)"
_CON = r"(vec|hash_map|hash_set|option|array)"
_CON_T = r"(Vec<T>|HashMap<K,V>|HashSet<T>|Option<T>|\[T;N\]|&'_\[T\]|std::rc::Rc<T>|std::sync::Arc<T>|std::borrow::Cow<'_,T>)"
_ALL_T = f"({_INT}|{_FIX}|{_BLK_T}|{_CON_T}|NonZero<T>)"
_DEC = r"fn buf::decode::decode_"
_ENC = r"fn buf::encode::encode_"
_ERR = r"impl ::core::convert::From<.*> for Error"
_LAW_FIX = r"law impl(<.*> | )(Local|Round) for (bool|u8|i8|f32|f64|String|Box<str>|Box<\[u8\]>)"
_LAW_CON = r"law impl<.*> (Local|Round) for .*"
_LAWS = [r"law (Local|Round|some_bytes|block_rt|block_local|string_rt)"]
_TRAITS = r"trait (Size|Encode|Decode)"

VERUS = {
    "P01": dict(own=[_ENC + _INT, _DEC + _INT, f"impl (Encode|Decode|Size) for {_INT}", _ERR], uses=_LAWS + [_TRAITS]),
    "P03": dict(own=[r"fn buf::size::size_.*", r"impl Size for .*", r"law same_length"],
                uses=[_ENC + ".*", r"impl Encode for .*", r"fn NonZero<T>::.*", _TRAITS]),
    "P04": dict(own=[_ENC + f"({_INT}|{_FIX}|{_BLK})", _DEC + f"({_INT}|{_FIX}|{_BLK})",
                     f"impl (Encode|Decode) for ({_INT}|{_FIX}|{_BLK_T})", _ERR, _LAW_FIX], uses=_LAWS + [_TRAITS]),
    "P05": dict(own=[_ENC + f"({_CON}|tuple)", _DEC + _CON, f"impl (Encode|Decode) for {_CON_T}", _LAW_CON,
                     r"law (elements|models_front|items_rt|map_items_rt|set_items_rt|concat_add|first_items_rt|nothing_left)"],
                uses=_LAWS + [_TRAITS, _DEC + f"({_INT}|{_FIX}|{_BLK})"]),
    "P06": dict(own=[_DEC + ".*", r"impl Decode for .*", r"law cut_short", _ERR, r"fn FieldEncoding::from_u32", r"fn FieldId::from_u32"],
                uses=_LAWS + [_LAW_FIX, _LAW_CON, _TRAITS, r"fn NonZero<.*>::.*"]),
    "P07": dict(own=[r"fn NonZero<.*>::.*", _DEC + "non_zero_.*", r"impl (Encode|Size) for NonZero<T>", r"law (non_zero_.*|elements_take_room)"],
                uses=[_DEC + f"({_INT}|{_FIX}|{_BLK}|{_CON})", _LAW_CON, _LAW_FIX] + _LAWS),
    "P08": dict(own=[r"fn (FieldId|FieldEncoding|VariantId)::.*", _DEC + "(id|variant_id)", _ENC + "(id|variant_id|field|field_option)",
                     r"law header_.*"], uses=[_DEC + "u32", _ENC + "u32"]),
    "P09": dict(own=[_DEC + "skip", r"law skip_.*"], uses=[r"fn FieldEncoding::from_u32", _DEC + "u64"]),
    "P10": dict(own=[_DEC + f"({_INT}|{_FIX}|{_BLK}|skip|id|variant_id)", r"law only_bytes"],
                uses=[_DEC + ".*", r"impl Decode for .*", _TRAITS]),
    "P11": dict(own=[_DEC + "array", _ENC + "array", r"impl (Encode|Decode) for \[T;N\]", r"law (resized|concat_add|first_items_rt|nothing_left)"],
                uses=[_DEC + "u64"] + _LAWS),
}
# Clauses of the contracts of validate::{definition,schema} by property.
_VAL = r"fn validate::(definition|schema)"
_AST = [r"fn mabo_parser::.*", r"impl mabo_parser::.*", r"impl validate::From<.*", r"fn IdGenerator::.*"]
_SPEC = r"spec (smaller|prefix|names_step|names_mono)"
VERUS.update({
    "P16": dict(own=[r"fn IdGenerator::.*", r"fn validate::ids::.*", (_VAL, "numbers_ok|DuplicateId"),
                     (r"fn simplify::simplify_(fields|variant|enum)", r"nums|next_id|_numbers"), r"law (derived_numbers|.*_numbers)"],
                uses=_AST + [_SPEC, r"fn simplify::(simplify_struct|simplify_module|definitions?|schema)"]),
    "P17": dict(own=[r"fn validate::names::.*", r"fn validate::generics::validate_duplicate_generics", (_VAL, r"[^_]names_ok|parameter_names_ok|DuplicateName|Duplicate\("),
                     (r"fn validate::generics::validate_(struct|enum|alias)_generics", "no_duplicates"), r"law (decimal_.*|digit|distinct_field_names)"],
                uses=_AST + [_SPEC]),
    "P18": dict(own=[r"fn validate::generics::(visit_externals|validate_field_generics)", (r"fn validate::generics::validate_(struct|enum|alias)_generics", "uses_all"),
                     (_VAL, r"parameters_used|Unused")], uses=_AST + [_SPEC, r"fn validate::generics::.*"]),
    "P19": dict(own=[r"fn validate::tuples::.*", (_VAL, "tuples_ok|TupleSize"), r"law tuples_stay"], uses=_AST + [_SPEC, r"fn simplify::simplify_type"]),
    "P20": dict(own=[r"fn resolve::.*", r"law (own_name|every_reference|acceptance|accepted_together)"],
                uses=_AST + [_SPEC, r"impl resolve::.*", r"spec (?!.*::).*", r"law (named_upto|clash)"]),
    "P21": dict(own=[r"fn simplify::.*", r"fn IdGenerator::next"], uses=_AST + [_SPEC]),
})
for _k in ("P16", "P17", "P18", "P19", "P20", "P21"):
    VERUS[_k]["unit"] = "compiler"
VERUS["P24"] = dict(unit="meta", own=[r"fn mabo_meta::(?!next_).*", r"type mabo_meta::.*", r"law (?!one_more).*"], uses=[r"spec .*"])
VERUS["P25"] = dict(unit="meta", own=[r"fn mabo_meta::next_.*", r"law one_more"], uses=[r"spec .*"])
_GEN = r"\w+::[\w:]+"
_THEORY = r"law (?!.*::).*"
_GENERATED = {
    "P12": dict(own=[f"impl (Encode|Decode) for {_GEN}", r"law \w+::.*(_round|_upto_\d+|_reads_\w+)", r"law [\w:]+::round \w+"],
                uses=[_THEORY, r"law \w+::.*(_local|local \w+)", f"impl Size for {_GEN}"]),
    "P13": dict(own=[f"impl Size for {_GEN}"], uses=[f"impl Encode for {_GEN}", r"law (sizes|pair_sizes|header_len|end_len|same_length|f32_len|f64_len)"]),
    "P14": dict(own=[f"impl (Encode|Decode) for {_GEN}", r"law \w+::.*(_passes|_skips_\w+|_reads_\w+)"],
                uses=[_THEORY, r"law \w+::.*(_local|local \w+)"]),
    "P15": dict(own=[r"law \w+::.*(_local|local \w+)"], uses=[_THEORY, f"impl Decode for {_GEN}", r"law [\w:]+::round \w+"]),
}
for _k, _d in _GENERATED.items():
    VERUS[_k] = {**_d, "unit": "generated"}
BIG = r"(u128|i128)"
VTECH = "Verus contracts on the functions extracted mechanically from the real source on every run; integer kernel: Kani contracts on the compiled crate"
VNOTE = ("Every function is verified against its contract for all inputs, lengths and element types; the integer kernel is "
         "discharged by Kani for its whole domain. What is assumed of the bytes crate and std is listed as trusted base in the evidence.")


def _v(pid, explanation, **kw):
    return _p(explanation, VNOTE, technique=VTECH, verus=VERUS[pid], **kw)


VGTECH = ("Verus contracts, derived from the schema by an independent reader, on the code that the real generator writes for it on every run "
          "(the runtime's contracts are assumed there and discharged by P01 to P11)")
VGNOTE = ("Each generated struct and enum of the schemas in codegen/schemas/std is verified for all values and all bytes on any buffer; the schemas are a "
          "fixed corpus that covers every built-in type in every position, so nothing is claimed of other schemas. The generated code is also executed on "
          "sampled values, which is not counted as proved.")


def _vg(pid, explanation, **kw):
    return _p(explanation, VGNOTE, technique=VGTECH, verus=VERUS[pid], **{**dict(crates=["codegen"], level="translation_validation", trusted=[], search_ms=25000), **kw})


VCTECH = "Verus contracts on the compiler's functions, extracted mechanically from the real source on every run (iterator chains written out)"
VCNOTE = ("Every function is verified against its contract for all syntax trees. The contracts are also executed through the real parser on "
          "sampled schemas, which is not counted as proved.")


def _vc(pid, explanation, **kw):
    return _p(explanation, VCNOTE, technique=VCTECH, verus=VERUS[pid], **{**dict(crates=["compiler"], trusted=[]), **kw})


PROPERTIES = {
    "P01": _v("P01", "Round trip, exact consumption and independence of trailing data for each of the eight variable-width types, all values: "
              "the kernel by Kani on slices, the buffer functions and trait impls by Verus on any buffer."),
    "P02": _p("Encoder output against an independent specification of the wire form, and the decoder on every group sequence.", KANI_NOTE),
    "P03": _v("P03", "Every size function and impl against the length of the bytes its encoder is proved to write.", thorough_only=[BIG + "__traits"]),
    "P04": _v("P04", "Decoders against a parser of the wire form, encoders against the bytes it specifies, and round trip lemmas over both.",
              thorough_only=[BIG + "__"]),
    "P05": _v("P05", "Container codecs against the wire form, parametric in the element codec; round trip by induction over the content."),
    "P06": _v("P06", "Absence of panics, overflow and non-termination in every decoder on any buffer; the error of every cut encoding as a lemma."),
    "P07": _v("P07", "Constructors and decoders of non-zero types against those of the plain types.", thorough_only=[BIG + "__"]),
    "P08": _v("P08", "Header packing, unpacking and injectivity for every number and marker; every raw header."),
    "P09": _v("P09", "The skip function against the wire form, and lemmas that it ends where a value ends.", thorough_only=[BIG + "__", "length_prefixed"]),
    "P10": _v("P10", "Every decoder's result is a function of the bytes in the buffer, whatever its segmentation.",
              thorough_only=[r"three_segments", BIG + "__two_segments", "skip__two_segments"]),
    "P11": _v("P11", "The array decoder against the wire form with surplus or missing elements."),
    "P12": _vg("P12", "Encoders and decoders that the real generator writes, against the wire form that an independent reader of the schema derives; "
               "round trip lemma of each definition.", owns_generator=True),
    "P13": _vg("P13", "Generated size functions against the length of what the generated encoders are proved to write."),
    "P14": _vg("P14", "Generated decoders against the message semantics of the schema: any order, unknown numbers passed over, missing numbers reported; "
               "lemmas that each field is read wherever it stands and passed over by a reader that does not know it."),
    "P15": _vg("P15", "Absence of panics, overflow and non-termination in generated decoders on any buffer; locality lemmas, from which cut data is an error."),
    "P16": _vc("P16", "The number validators against the numbers a definition denotes, the lowering against the same numbers, for every syntax tree."),
    "P17": _vc("P17", "The name validators against the absence of equal names, at every level, for every syntax tree."),
    "P18": _vc("P18", "The traversal and the parameter validators against 'occurs in the type', for every syntax tree."),
    "P19": _vc("P19", "The traversal and the tuple validators against 'every tuple fits', for every syntax tree."),
    "P20": _vc("P20", assumptions=["every import of a schema has at least one path segment (the parser produces no others)"], explanation="Symbol tables, local, imported and remote lookups, and the whole resolution against 'every reference leads to a type with as many "
               "parameters', for every set of syntax trees."),
    "P21": _vc("P21", "Every lowering function against the relation 'same definition', for every syntax tree."),
    "P24": _vc("P24", "The reported bounds against the lengths that the wire form allows, for every type, nested to any depth, and every value.", crates=["wire"],
               level_note="Every function is verified against its contract for all types. The bounds as printed are also compared with the encodings of sampled values, which is not counted as proved."),
    "P25": _vc("P25", "The suggested number against the numbers in use, for every list of fields or variants.", crates=["wire"]),
}

NOT_APPLICABLE = {
    "P22": "The parser is built from winnow combinators (closures and trait objects of a dependency over generic streams) and the printer from fmt::Display "
           "with nested formatters: neither can be brought within the reach of Verus or Kani, and relating the two needs both under contract. Only sampling would be left.",
    "P23": "The property is about generated Go source. No deductive verifier for Go is available here, and contracts on the Rust code that writes it "
           "say nothing about the meaning of the text that it writes.",
}
