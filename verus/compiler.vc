@impl mabo_parser::punctuated::Iterator for ValuesIter
@as Walk
@rename next=step
@items
    type El = &'a T;
    open spec fn rest(&self) -> Seq<&'a T> {
        Seq::new(self.items.rest().len() + (if self.last.x is Some { 1nat } else { 0nat }),
            |i: int| if i < self.items.rest().len() { &self.items.rest()[i].0 } else { self.last.x->0 })
    }
    proof fn short(&self) { few(self.items.s); }
@tail
    proof { assert(self.rest() =~= old(self).rest().skip(1) || old(self).rest().len() == 0); }

@fn mabo_parser::punctuated::Punctuated::values
@ensures res.rest() == refs(self.s()), res.items.rest() == refs(self.values@), res.last.x is Some

@fn mabo_parser::punctuated::Punctuated::len
@ensures res == self.s().len()
@start proof { few_vec(&self.values); }

@impl mabo_parser::punctuated::ExactSizeIterator for ValuesIter
@as inherent
@ensures self.last.x is Some ==> res == self.rest().len()
@start proof { few(self.items.s); }

@fn mabo_parser::Name::get
@ensures res == self.value

@fn mabo_parser::Id::get
@ensures res == self.value

@impl mabo_parser::From<(u32,Range<usize>)> for Id
@ensures res.value == v__.0

@impl mabo_parser::From<Span> for Range
@ensures true

@fn IdGenerator::new
@ensures res.next_id == 1

@fn IdGenerator::next
@ensures res == (match id { Some(i) => i.value, None => old(self).next_id }), final(self).next_id == after(res)

@fn IdGenerator::next_with_span
@requires fallback.requires(())
@ensures res.value == (match id { Some(i) => i.value, None => old(self).next_id }), final(self).next_id == after(res.value)

@fn validate::ids::validate_struct_ids
@ensures res is Ok <==> field_numbers_ok($0.fields)

@fn validate::ids::validate_field_id_range
@ensures res is Ok <==> 0 < $0.value < 0x2000_0000

@fn validate::ids::validate_field_id_ranges
@ensures res is Ok <==> in_range(field_numbers(*$0))
@role gen = let mut $ = IdGenerator :: new
@start let ghost nums = field_numbers(*$0);
@loop0
    #gen.next_id == next_number(explicit_named(named.s()), at0__),
    in_range(nums.take(at0__))
@step0 proof { assert(id_of(named.s()[at0__ - 1].id) == explicit_named(named.s())[at0__ - 1]); assert(nums.take(at0__)[at0__ - 1] == nums[at0__ - 1]); assert(nums.take(at0__).drop_last() =~= nums.take(at0__ - 1)); }
@after0 proof { assert(nums.take(at0__) =~= nums); }
@loop1
    #gen.next_id == next_number(explicit_unnamed(unnamed.s()), at1__),
    in_range(nums.take(at1__))
@step1 proof { assert(id_of(unnamed.s()[at1__ - 1].id) == explicit_unnamed(unnamed.s())[at1__ - 1]); assert(nums.take(at1__)[at1__ - 1] == nums[at1__ - 1]); assert(nums.take(at1__).drop_last() =~= nums.take(at1__ - 1)); }
@after1 proof { assert(nums.take(at1__) =~= nums); }

@fn validate::ids::validate_field_ids
@ensures res is Ok <==> field_numbers_ok(*$0)
@role visited = let mut $ = FxHashMap :: new__
@role gen = let mut $ = IdGenerator :: new
@start let ghost nums = field_numbers(*$0);
@loop0
    #gen.next_id == next_number(explicit_named(named.s()), at0__),
    res0__ is None ==> #visited.m().dom() =~= nums.take(at0__).to_set() && nums.take(at0__).no_duplicates(),
    res0__ is Some ==> !nums.no_duplicates()
@step0 proof { prefix(nums, at0__); assert(id_of(named.s()[at0__ - 1].id) == explicit_named(named.s())[at0__ - 1]); }
@after0 proof { if res0__ is None { assert(nums.take(at0__) =~= nums); } }
@loop1
    #gen.next_id == next_number(explicit_unnamed(unnamed.s()), at1__),
    res1__ is None ==> #visited.m().dom() =~= nums.take(at1__).to_set() && nums.take(at1__).no_duplicates(),
    positions_below(#visited.m(), at1__),
    res1__ is Some ==> !nums.no_duplicates()
@step1 proof { prefix(nums, at1__); assert(id_of(unnamed.s()[at1__ - 1].id) == explicit_unnamed(unnamed.s())[at1__ - 1]); }
@after1 proof { if res1__ is None { assert(nums.take(at1__) =~= nums); } }

@fn validate::ids::validate_enum_ids
@ensures res is Ok <==> enum_numbers_ok(*$0)
@role visited = let mut $ = FxHashMap :: new__
@role gen = let mut $ = IdGenerator :: new
@start let ghost nums = variant_numbers(*$0); let ghost vars = $0.variants.s();
@loop0
    #gen.next_id == next_number(explicit_variants(vars), at0__),
    res0__ is None ==> #visited.m().dom() =~= nums.take(at0__).to_set() && nums.take(at0__).no_duplicates()
        && forall|i: int| #![trigger vars[i]] 0 <= i < at0__ ==> field_numbers_ok(vars[i].fields),
    res0__ is Some ==> !enum_numbers_ok(*$0)
@step0 proof { prefix(nums, at0__); assert(id_of(vars[at0__ - 1].id) == explicit_variants(vars)[at0__ - 1]); }
@after0 proof { if res0__ is None { assert(nums.take(at0__) =~= nums); } }

@impl mabo_parser::From<Range<usize>> for Span
@ensures true

@fn validate::names::validate_struct_names
@ensures res is Ok <==> field_names($0.fields).no_duplicates()

@fn validate::names::validate_field_names
@ensures res is Ok <==> field_names(*$0).no_duplicates()
@role visited = let mut $ = FxHashMap :: new__
@start let ghost names = field_names(*$0);
@loop0
    res0__ is None ==> #visited.m().dom() =~= names.take(at0__).to_set() && names.take(at0__).no_duplicates(),
    res0__ is Some ==> !names.no_duplicates()
@step0 proof { prefix(names, at0__); assert(named.s()[at0__ - 1].name.value@ == names[at0__ - 1]); }
@after0 proof { if res0__ is None { assert(names.take(at0__) =~= names); } }

@fn validate::names::validate_enum_names
@ensures res is Ok <==> enum_names_ok(*$0)
@role visited = let mut $ = FxHashMap :: new__
@start let ghost vars = $0.variants.s(); let ghost names = variant_names(vars);
@loop0
    res0__ is None ==> #visited.m().dom() =~= names.take(at0__).to_set() && names.take(at0__).no_duplicates()
        && forall|i: int| #![trigger vars[i]] 0 <= i < at0__ ==> field_names(vars[i].fields).no_duplicates(),
    res0__ is Some ==> !enum_names_ok(*$0)
@step0 proof { prefix(names, at0__); assert(vars[at0__ - 1].name.value@ == names[at0__ - 1]); }
@after0 proof { if res0__ is None { assert(names.take(at0__) =~= names); } }

@fn validate::names::validate_names_in_module
@ensures res is Ok <==> module_names_ok($0@)
@role visited = let mut $ = FxHashMap :: new__
@start let ghost defs = $0@;
@loop0
    res0__ is None ==> #visited.m().dom() =~= names_upto(defs, at0__).to_set() && names_upto(defs, at0__).no_duplicates(),
    res0__ is Some ==> !module_names_ok(defs)
@step0 proof { names_step(defs, at0__); names_mono(defs, at0__, defs.len() as int); }

@fn validate::generics::validate_duplicate_generics
@ensures res is Ok <==> generic_names($0.types.s()).no_duplicates()
@role visited = let mut $ = FxHashMap :: new__
@start let ghost names = generic_names($0.types.s());
@loop0
    res0__ is None ==> #visited.m().dom() =~= names.take(at0__).to_set() && names.take(at0__).no_duplicates(),
    res0__ is Some ==> !names.no_duplicates()
@step0 proof { prefix(names, at0__); assert($0.types.s()[at0__ - 1].value@ == names[at0__ - 1]); }
@after0 proof { if res0__ is None { assert(names.take(at0__) =~= names); } }

@fn validate::generics::visit_externals
@visit unvisited: &mut FxHashMap<&str, Span> ;; &ExternalType<'_> ;; ()
@closure_ensures forall|k: Seq<char>| #![trigger final(unvisited).m().dom().contains(k)]
    final(unvisited).m().dom().contains(k) <==> old(unvisited).m().dom().contains(k) && !is_parameter(*arg0__, k)
@ensures forall|k: Seq<char>| #![trigger final(cap_unvisited).m().dom().contains(k)] #![trigger uses(*$0, k)]
    final(cap_unvisited).m().dom().contains(k) <==> old(cap_unvisited).m().dom().contains(k) && !uses(*$0, k)
@decreases *$0
@start broadcast use smaller; let ghost before = cap_unvisited.m();
@loop0
    forall|k: Seq<char>| #![trigger cap_unvisited.m().dom().contains(k)] cap_unvisited.m().dom().contains(k) <==>
        before.dom().contains(k) && !(exists|i: int| #![trigger types.s()[i]] 0 <= i < at0__ && uses(types.s()[i], k))
@loop1
    forall|k: Seq<char>| #![trigger cap_unvisited.m().dom().contains(k)] cap_unvisited.m().dom().contains(k) <==>
        before.dom().contains(k) && !is_parameter(*ty, k) && !(exists|i: int| #![trigger generics.s()[i]] 0 <= i < at1__ && uses(generics.s()[i], k))

@fn validate::generics::validate_field_generics
@ensures forall|k: Seq<char>| #![trigger final($1).m().dom().contains(k)] #![trigger fields_use(*$0, k)]
    final($1).m().dom().contains(k) <==> old($1).m().dom().contains(k) && !fields_use(*$0, k)
@start let ghost before = $1.m();
@loop0
    forall|k: Seq<char>| #![trigger $1.m().dom().contains(k)] $1.m().dom().contains(k) <==>
        before.dom().contains(k) && !(exists|i: int| #![trigger named.s()[i]] 0 <= i < at0__ && uses(named.s()[i].ty, k))
@loop1
    forall|k: Seq<char>| #![trigger $1.m().dom().contains(k)] $1.m().dom().contains(k) <==>
        before.dom().contains(k) && !(exists|i: int| #![trigger unnamed.s()[i]] 0 <= i < at1__ && uses(unnamed.s()[i].ty, k))

@fn validate::generics::validate_struct_generics
@ensures
    res is Ok ==> parameters($0.generics).no_duplicates(),
    res is Ok ==> struct_uses_all(*$0),
    res matches Err(InvalidGenericType::Duplicate(_)) ==> !parameters($0.generics).no_duplicates(),
    res matches Err(InvalidGenericType::Unused(_)) ==> !struct_uses_all(*$0)
@start let ghost names = parameters($0.generics);
@loop0
    forall|k: Seq<char>| #![trigger out0__.m().dom().contains(k)] out0__.m().dom().contains(k) <==>
        (exists|i: int| #![trigger generics.types.s()[i]] 0 <= i < at0__ && generics.types.s()[i].value@ == k)
@after0 proof {
    assert forall|k: Seq<char>| #![trigger out0__.m().dom().contains(k)] #![trigger names.contains(k)] out0__.m().dom().contains(k) <==> names.contains(k) by {
        if names.contains(k) { let i = choose|i: int| 0 <= i < names.len() && names[i] == k; assert(generics.types.s()[i].value@ == k); }
        if out0__.m().dom().contains(k) { let i = choose|i: int| #![trigger generics.types.s()[i]] 0 <= i < generics.types.s().len() && generics.types.s()[i].value@ == k; assert(names[i] == k); }
    }
}

@fn validate::generics::validate_enum_generics
@ensures
    res is Ok ==> parameters($0.generics).no_duplicates(),
    res is Ok ==> enum_uses_all(*$0),
    res matches Err(InvalidGenericType::Duplicate(_)) ==> !parameters($0.generics).no_duplicates(),
    res matches Err(InvalidGenericType::Unused(_)) ==> !enum_uses_all(*$0)
@role unvisited = let mut $ = ( {
@start let ghost names = parameters($0.generics);
@loop0
    forall|k: Seq<char>| #![trigger out0__.m().dom().contains(k)] out0__.m().dom().contains(k) <==>
        (exists|i: int| #![trigger generics.types.s()[i]] 0 <= i < at0__ && generics.types.s()[i].value@ == k)
@after0 proof {
    assert forall|k: Seq<char>| #![trigger out0__.m().dom().contains(k)] #![trigger names.contains(k)] out0__.m().dom().contains(k) <==> names.contains(k) by {
        if names.contains(k) { let i = choose|i: int| 0 <= i < names.len() && names[i] == k; assert(generics.types.s()[i].value@ == k); }
        if out0__.m().dom().contains(k) { let i = choose|i: int| #![trigger generics.types.s()[i]] 0 <= i < generics.types.s().len() && generics.types.s()[i].value@ == k; assert(names[i] == k); }
    }
}
@before1 let ghost before = #unvisited.m();
@loop1
    forall|k: Seq<char>| #![trigger #unvisited.m().dom().contains(k)] #unvisited.m().dom().contains(k) <==>
        before.dom().contains(k) && !(exists|i: int| #![trigger $0.variants.s()[i]] 0 <= i < at1__ && fields_use($0.variants.s()[i].fields, k))
@after1 proof {
    assert forall|k: Seq<char>| #![trigger enum_uses(*$0, k)] #![trigger #unvisited.m().dom().contains(k)]
        #unvisited.m().dom().contains(k) <==> before.dom().contains(k) && !enum_uses(*$0, k) by {}
}

@fn validate::generics::validate_alias_generics
@ensures
    res is Ok ==> parameters($0.generics).no_duplicates(),
    res is Ok ==> alias_uses_all(*$0),
    res matches Err(InvalidGenericType::Duplicate(_)) ==> !parameters($0.generics).no_duplicates(),
    res matches Err(InvalidGenericType::Unused(_)) ==> !alias_uses_all(*$0)
@start let ghost names = parameters($0.generics);
@loop0
    forall|k: Seq<char>| #![trigger out0__.m().dom().contains(k)] out0__.m().dom().contains(k) <==>
        (exists|i: int| #![trigger generics.types.s()[i]] 0 <= i < at0__ && generics.types.s()[i].value@ == k)
@after0 proof {
    assert forall|k: Seq<char>| #![trigger out0__.m().dom().contains(k)] #![trigger names.contains(k)] out0__.m().dom().contains(k) <==> names.contains(k) by {
        if names.contains(k) { let i = choose|i: int| 0 <= i < names.len() && names[i] == k; assert(generics.types.s()[i].value@ == k); }
        if out0__.m().dom().contains(k) { let i = choose|i: int| #![trigger generics.types.s()[i]] 0 <= i < generics.types.s().len() && generics.types.s()[i].value@ == k; assert(names[i] == k); }
    }
}

@fn validate::tuples::visit_tuples
@visit value: &Type<'_> ;; ValuesIter<'_, Type<'_>> ;; Result<(), TupleSize>
@subst E=TupleSize
@closure_requires arg0__.last.x is Some
@closure_ensures res is Ok <==> 2 <= arg0__.rest().len() <= 12
@ensures res is Ok <==> tuples_fit(*$0)
@decreases *$0
@start broadcast use smaller;
@loop0
    res0__ is Ok <==> forall|i: int| #![trigger types.s()[i]] 0 <= i < at0__ ==> tuples_fit(types.s()[i])
@loop1
    res1__ is Ok <==> forall|i: int| #![trigger generics.s()[i]] 0 <= i < at1__ ==> tuples_fit(generics.s()[i])

@fn validate::tuples::validate_tuple_size
@ensures res is Ok <==> tuples_fit(*$0)

@fn validate::tuples::validate_field_tuples
@ensures res is Ok <==> field_tuples_fit(*$0)
@loop0
    res0__ is Ok <==> forall|i: int| #![trigger named.s()[i]] 0 <= i < at0__ ==> tuples_fit(named.s()[i].ty)
@loop1
    res1__ is Ok <==> forall|i: int| #![trigger unnamed.s()[i]] 0 <= i < at1__ ==> tuples_fit(unnamed.s()[i].ty)

@fn validate::tuples::validate_struct_tuples
@ensures res is Ok <==> field_tuples_fit($0.fields)

@fn validate::tuples::validate_enum_tuples
@ensures res is Ok <==> enum_tuples_fit(*$0)
@loop0
    res0__ is Ok <==> forall|i: int| #![trigger $0.variants.s()[i]] 0 <= i < at0__ ==> field_tuples_fit($0.variants.s()[i].fields)

@fn validate::tuples::validate_alias_tuples
@ensures res is Ok <==> tuples_fit($0.target)

@fn validate::tuples::validate_const_tuples
@ensures res is Ok <==> tuples_fit($0.ty)

@impl validate::From<DuplicateFieldId> for Error
@ensures res is DuplicateId

@impl validate::From<DuplicateFieldName> for Error
@ensures res is DuplicateName

@fn validate::definition
@ensures
    res is Ok ==> numbers_ok(*$0),
    res is Ok ==> names_ok(*$0),
    res is Ok ==> parameter_names_ok(*$0),
    res is Ok ==> parameters_used(*$0),
    res is Ok ==> tuples_ok(*$0),
    res matches Err(Error::DuplicateId(_)) ==> !numbers_ok(*$0),
    res matches Err(Error::DuplicateName(_)) ==> !names_ok(*$0),
    res matches Err(Error::InvalidGeneric(InvalidGenericType::Duplicate(_))) ==> !parameter_names_ok(*$0),
    res matches Err(Error::InvalidGeneric(InvalidGenericType::Unused(_))) ==> !parameters_used(*$0),
    res matches Err(Error::TupleSize(_)) ==> !tuples_ok(*$0)
@decreases *$0
@loop0
    res0__ is Ok ==> forall|i: int| #![trigger m.definitions@[i]] 0 <= i < at0__ ==> numbers_ok(m.definitions@[i]),
    res0__ is Ok ==> forall|i: int| #![trigger m.definitions@[i]] 0 <= i < at0__ ==> names_ok(m.definitions@[i]),
    res0__ is Ok ==> forall|i: int| #![trigger m.definitions@[i]] 0 <= i < at0__ ==> parameter_names_ok(m.definitions@[i]),
    res0__ is Ok ==> forall|i: int| #![trigger m.definitions@[i]] 0 <= i < at0__ ==> parameters_used(m.definitions@[i]),
    res0__ is Ok ==> forall|i: int| #![trigger m.definitions@[i]] 0 <= i < at0__ ==> tuples_ok(m.definitions@[i]),
    res0__ matches Err(Error::DuplicateId(_)) ==> !numbers_ok(*$0),
    res0__ matches Err(Error::DuplicateName(_)) ==> !names_ok(*$0),
    res0__ matches Err(Error::InvalidGeneric(InvalidGenericType::Duplicate(_))) ==> !parameter_names_ok(*$0),
    res0__ matches Err(Error::InvalidGeneric(InvalidGenericType::Unused(_))) ==> !parameters_used(*$0),
    res0__ matches Err(Error::TupleSize(_)) ==> !tuples_ok(*$0)

@fn validate::schema
@ensures
    res is Ok ==> all_ok(schema_definitions(*$0), |d: Definition| numbers_ok(d)),
    res is Ok ==> module_names_ok(schema_definitions(*$0)) && all_ok(schema_definitions(*$0), |d: Definition| names_ok(d)),
    res is Ok ==> all_ok(schema_definitions(*$0), |d: Definition| parameter_names_ok(d)),
    res is Ok ==> all_ok(schema_definitions(*$0), |d: Definition| parameters_used(d)),
    res is Ok ==> all_ok(schema_definitions(*$0), |d: Definition| tuples_ok(d)),
    res matches Err(Error::DuplicateId(_)) ==> !all_ok(schema_definitions(*$0), |d: Definition| numbers_ok(d)),
    res matches Err(Error::DuplicateName(_)) ==> !(module_names_ok(schema_definitions(*$0)) && all_ok(schema_definitions(*$0), |d: Definition| names_ok(d))),
    res matches Err(Error::InvalidGeneric(InvalidGenericType::Duplicate(_))) ==> !all_ok(schema_definitions(*$0), |d: Definition| parameter_names_ok(d)),
    res matches Err(Error::InvalidGeneric(InvalidGenericType::Unused(_))) ==> !all_ok(schema_definitions(*$0), |d: Definition| parameters_used(d)),
    res matches Err(Error::TupleSize(_)) ==> !all_ok(schema_definitions(*$0), |d: Definition| tuples_ok(d))
@start let ghost defs = schema_definitions(*$0);
@loop0
    res0__ is Ok ==> forall|i: int| #![trigger defs[i]] 0 <= i < at0__ ==> numbers_ok(defs[i]),
    res0__ is Ok ==> forall|i: int| #![trigger defs[i]] 0 <= i < at0__ ==> names_ok(defs[i]),
    res0__ is Ok ==> forall|i: int| #![trigger defs[i]] 0 <= i < at0__ ==> parameter_names_ok(defs[i]),
    res0__ is Ok ==> forall|i: int| #![trigger defs[i]] 0 <= i < at0__ ==> parameters_used(defs[i]),
    res0__ is Ok ==> forall|i: int| #![trigger defs[i]] 0 <= i < at0__ ==> tuples_ok(defs[i]),
    res0__ matches Err(Error::DuplicateId(_)) ==> exists|i: int| #![trigger defs[i]] 0 <= i < defs.len() && !numbers_ok(defs[i]),
    res0__ matches Err(Error::DuplicateName(_)) ==> exists|i: int| #![trigger defs[i]] 0 <= i < defs.len() && !names_ok(defs[i]),
    res0__ matches Err(Error::InvalidGeneric(InvalidGenericType::Duplicate(_))) ==> exists|i: int| #![trigger defs[i]] 0 <= i < defs.len() && !parameter_names_ok(defs[i]),
    res0__ matches Err(Error::InvalidGeneric(InvalidGenericType::Unused(_))) ==> exists|i: int| #![trigger defs[i]] 0 <= i < defs.len() && !parameters_used(defs[i]),
    res0__ matches Err(Error::TupleSize(_)) ==> exists|i: int| #![trigger defs[i]] 0 <= i < defs.len() && !tuples_ok(defs[i])

@fn simplify::comment
@ensures res@ == comment_lines(*$0)
@loop0 out0__@ == comment_lines(*$0).take(at0__)
@loopend0 proof { one_more(comment_lines(*$0), at0__); }
@after0 proof { everything(comment_lines(*$0)); }

@fn simplify::generics
@ensures res@ == (match $0 { Some(g) => plain_names(g.types.s()), None => Seq::empty() })
@loop0 out0__@ == plain_names(g.types.s()).take(at0__)
@loopend0 proof { one_more(plain_names(g.types.s()), at0__); }
@after0 proof { everything(plain_names(g.types.s())); }

@fn simplify::simplify_type
@ensures same_type(*$0, res)
@decreases *$0
@start broadcast use smaller;
@loop0 out0__@.len() == at0__, forall|i: int| #![trigger types.s()[i]] 0 <= i < at0__ ==> same_type(types.s()[i], out0__@[i])
@loop1 out1__@ == path_names(ty.path@).take(at1__)
@loopend1 proof { one_more(path_names(ty.path@), at1__); }
@after1 proof { everything(path_names(ty.path@)); }
@loop2 out2__@.len() == at2__, forall|i: int| #![trigger g.s()[i]] 0 <= i < at2__ ==> same_type(g.s()[i], out2__@[i])

@fn simplify::simplify_fields
@ensures same_fields(*$0, res),
    field_ids(res.fields@) =~= field_numbers(*$0)
@role gen = let mut $ = IdGenerator :: new
@start let ghost nums = field_numbers(*$0);
@loop0
    #gen.next_id == next_number(explicit_named(named.s()), at0__),
    out0__@.len() == at0__,
    all_named(named.s(), at0__, out0__@),
    field_ids(out0__@) =~= nums.take(at0__)
@step0 proof { assert(id_of(named.s()[at0__ - 1].id) == explicit_named(named.s())[at0__ - 1]); }
@after0 proof { assert forall|i: int| #![trigger out0__@[i]] 0 <= i < at0__ implies out0__@[i].id == nums[i] by { assert(field_ids(out0__@)[i] == nums.take(at0__)[i]); } }
@loop1
    #gen.next_id == next_number(explicit_unnamed(unnamed.s()), at1__),
    out1__@.len() == at1__,
    all_unnamed(unnamed.s(), at1__, out1__@),
    field_ids(out1__@) =~= nums.take(at1__)
@step1 proof { assert(id_of(unnamed.s()[at1__ - 1].id) == explicit_unnamed(unnamed.s())[at1__ - 1]); }
@after1 proof { assert forall|i: int| #![trigger out1__@[i]] 0 <= i < at1__ implies out1__@[i].id == nums[i] by { assert(field_ids(out1__@)[i] == nums.take(at1__)[i]); } }

@fn simplify::simplify_struct
@ensures same_struct(*$0, res)

@fn simplify::simplify_variant
@ensures same_variant(*$0, res.id, res),
    res.id == (match $0.id { Some(i) => i.value, None => old($1).next_id }), final($1).next_id == after(res.id)

@fn simplify::simplify_enum
@ensures same_enum(*$0, res),
    variant_ids(res.variants@) =~= variant_numbers(*$0)
@role gen = let mut $ = IdGenerator :: new
@start let ghost vars = $0.variants.s(); let ghost nums = variant_numbers(*$0);
@loop0
    #gen.next_id == next_number(explicit_variants(vars), at0__),
    out0__@.len() == at0__,
    all_variants(vars, at0__, out0__@),
    variant_ids(out0__@) =~= nums.take(at0__)
@step0 proof { assert(id_of(vars[at0__ - 1].id) == explicit_variants(vars)[at0__ - 1]); }
@after0 proof { assert forall|i: int| #![trigger out0__@[i]] 0 <= i < at0__ implies out0__@[i].id == nums[i] by { assert(variant_ids(out0__@)[i] == nums.take(at0__)[i]); } }

@fn simplify::simplify_alias
@ensures same_alias(*$0, res)

@fn simplify::simplify_literal
@ensures same_literal(*$0, res)

@fn simplify::simplify_const
@ensures same_const(*$0, res)

@fn simplify::simplify_import
@ensures same_import(*$0, res)
@loop0 out0__@ == plain_names($0.segments@).take(at0__)
@loopend0 proof { one_more(plain_names($0.segments@), at0__); }
@after0 proof { everything(plain_names($0.segments@)); }

@fn simplify::definitions
@ensures same_definitions($0@, res@)
@decreases $0@, 1nat
@loop0 out0__@.len() == at0__, forall|i: int| #![trigger $0@[i]] 0 <= i < at0__ ==> same_definition($0@[i], out0__@[i])

@fn simplify::simplify_module
@ensures same_definition(crate::mabo_parser::Definition::Module(*$0), simplify::Definition::Module(res))
@decreases *$0, 0nat

@fn simplify::definition
@ensures same_definition(*$0, res)
@decreases *$0, 0nat

@fn simplify::schema
@rename schema__
@ensures same_definitions($0.definitions@, res.definitions@), res.comment@ == comment_lines($0.comment)

@fn resolve::Module::path_to_string

@fn resolve::DeclarationKind::as_str

@fn resolve::Module::resolve_local
@requires built(*$0)
@ensures res is Ok <==> local_ok($0.definitions@, *$1)
@start let ghost g_defs = $0.definitions@; let ghost g_path = path_of(*$1);
@loop0
    res0__ is None ==> built(*acc0__) && walk_down(g_defs, g_path, at0__) == Some(acc0__.definitions@),
    res0__ is Some ==> walk_down(g_defs, g_path, g_path.len() as int) is None
@step0 proof { assert(g_path[at0__ - 1] == x0__.0.value@); if walk_down(g_defs, g_path, at0__) is None { lost_way(g_defs, g_path, at0__, g_path.len() as int); } }
@loop1
    res1__ is None ==> listed(all1__, at1__, $1.name.value@) is None,
    res1__ matches Some(d) ==> listed(all1__, all1__.len() as int, $1.name.value@) == Some(kind_of(*d))
@step1 proof { if listed(all1__, at1__, $1.name.value@) is Some { listed_mono(all1__, at1__, all1__.len() as int, $1.name.value@); } }

@fn resolve::Module::resolve_import
@requires built(*$0)
@ensures
    res is Ok <==> import_from($0.name@, $0.definitions@, *$1) is Some,
    res matches Ok(r) ==> sound(r) && Some(target_of(r)) == import_from($0.name@, $0.definitions@, *$1)
@start let ghost g_defs = $0.definitions@; let ghost g_path = beyond(segments_of(*$1));
@loop0
    n10__ == (if at0__ >= 1 { 0int } else { 1 }),
    res0__ is None ==> built(*acc0__) && walk_down(g_defs, g_path, at0__ - 1) == Some(acc0__.definitions@)
        && acc0__.name@ == (if at0__ <= 1 { $0.name@ } else { g_path[at0__ - 2] }),
    res0__ is Some ==> walk_down(g_defs, g_path, g_path.len() as int) is None
@step0 proof { if at0__ > 1 { assert(g_path[at0__ - 2] == x0__.value@); if walk_down(g_defs, g_path, at0__ - 1) is None { lost_way(g_defs, g_path, at0__ - 1, g_path.len() as int); } } }
@loop1
    res1__ is None ==> listed(all1__, at1__, element.value@) is None,
    res1__ matches Some(d) ==> listed(all1__, all1__.len() as int, element.value@) == Some(kind_of(*d)) && d.name.value@ == element.value@
@step1 proof { if listed(all1__, at1__, element.value@) is Some { listed_mono(all1__, at1__, all1__.len() as int, element.value@); } }

@fn resolve::Module::resolve_remote
@requires built(*$0)
@ensures res is Ok <==> leads($0.definitions@, beyond(path_of(*$1)), *$1)
@start let ghost g_defs = $0.definitions@; let ghost g_path = beyond(path_of(*$1));
@loop0
    n10__ == (if at0__ >= 1 { 0int } else { 1 }),
    res0__ is None ==> built(*acc0__) && walk_down(g_defs, g_path, at0__ - 1) == Some(acc0__.definitions@),
    res0__ is Some ==> walk_down(g_defs, g_path, g_path.len() as int) is None
@step0 proof { if at0__ > 1 { assert(g_path[at0__ - 2] == x0__.0.value@); if walk_down(g_defs, g_path, at0__ - 1) is None { lost_way(g_defs, g_path, at0__ - 1, g_path.len() as int); } } }
@loop1
    res1__ is None ==> listed(all1__, at1__, $1.name.value@) is None,
    res1__ matches Some(d) ==> listed(all1__, all1__.len() as int, $1.name.value@) == Some(kind_of(*d))
@step1 proof { if listed(all1__, at1__, $1.name.value@) is Some { listed_mono(all1__, at1__, all1__.len() as int, $1.name.value@); } }

@fn resolve::visit_module_tree
@ensures built(res), res.definitions@ == $3@, res.name == $0
@decreases $3@
@role m = let mut $ = Module {
@start broadcast use listed_push; let ghost g_defs = $3@;
@before0 proof { assert(refs(#m.types@) =~= Seq::empty()); }
@loop0
    #m.definitions@ == g_defs, #m.name == $0,
    tables(#m, at0__),
    forall|name: Seq<char>| #![trigger #m.modules.m().dom().contains(name)] #m.modules.m().dom().contains(name) ==>
            child(#m, at0__, name) && built(#m.modules.m()[name])
@step0 proof { assert(decreases_to!(g_defs => g_defs[at0__ - 1])); }

@fn resolve::resolve_types
@ensures built(res), res.definitions@ == $1.definitions@, res.name == $0

@fn resolve::is_generic
@ensures res == in_scope(names_of($1), *$0)
@loop0
    res0__ ==> names_of($1).contains($0.name.value@),
    !res0__ ==> !names_of($1).take(at0__).contains($0.name.value@)
@step0 proof { one_more(names_of($1), at0__); assert(names_of($1)[at0__ - 1] == x0__.value@); }
@after0 proof { everything(names_of($1)); }

@fn resolve::visit_externals
@visit missing: &mut Vec<LocallyMissingType<'a>> / generics: Option<&Generics<'_>> / module: &Module<'_> ;; &'a ExternalType<'_> ;; ()
@closure_requires built(*module)
@closure_ensures forall|e: ExternalType| #![trigger has(final(missing)@, e)]
    has(final(missing)@, e) <==> has(old(missing)@, e) || e == *arg0__ && open_in(e, names_of(generics), module.definitions@)
@closure_start broadcast use has_push;
@requires built(*cap_module)
@ensures forall|e: ExternalType| #![trigger has(final(cap_missing)@, e)] #![trigger mentions(*$0, e)]
    has(final(cap_missing)@, e) <==> has(old(cap_missing)@, e) || mentions(*$0, e) && open_in(e, names_of(cap_generics), cap_module.definitions@)
@decreases *$0
@start broadcast use smaller; let ghost before = cap_missing@;
@loop0
    forall|e: ExternalType| #![trigger has(cap_missing@, e)] has(cap_missing@, e) <==> has(before, e) ||
        (exists|i: int| #![trigger types.s()[i]] 0 <= i < at0__ && mentions(types.s()[i], e)) && open_in(e, names_of(cap_generics), cap_module.definitions@)
@loop1
    forall|e: ExternalType| #![trigger has(cap_missing@, e)] has(cap_missing@, e) <==> has(before, e) ||
        (e == *ty || exists|i: int| #![trigger generics.s()[i]] 0 <= i < at1__ && mentions(generics.s()[i], e)) && open_in(e, names_of(cap_generics), cap_module.definitions@)

@fn resolve::resolve
@requires built(*$3)
@ensures forall|e: ExternalType| #![trigger has(final($0)@, e)] #![trigger mentions(*$1, e)]
    has(final($0)@, e) <==> has(old($0)@, e) || mentions(*$1, e) && open_in(e, names_of($2), $3.definitions@)

@fn resolve::resolve_fields
@requires built(*$3)
@ensures forall|e: ExternalType| #![trigger has(final($0)@, e)] #![trigger fields_mention(*$1, e)]
    has(final($0)@, e) <==> has(old($0)@, e) || fields_mention(*$1, e) && open_in(e, names_of($2), $3.definitions@)
@start let ghost before = $0@;
@loop0
    forall|e: ExternalType| #![trigger has($0@, e)] has($0@, e) <==> has(before, e) ||
        (exists|i: int| #![trigger named.s()[i]] 0 <= i < at0__ && mentions(named.s()[i].ty, e)) && open_in(e, names_of($2), $3.definitions@)
@loop1
    forall|e: ExternalType| #![trigger has($0@, e)] has($0@, e) <==> has(before, e) ||
        (exists|i: int| #![trigger unnamed.s()[i]] 0 <= i < at1__ && mentions(unnamed.s()[i].ty, e)) && open_in(e, names_of($2), $3.definitions@)

@fn resolve::resolve_module_types
@requires built(*$0)
@ensures forall|e: ExternalType| #![trigger has(final($1)@, e)] #![trigger open_tree($0.definitions@, e)]
    has(final($1)@, e) <==> has(old($1)@, e) || open_tree($0.definitions@, e)
@decreases $0.definitions@
@start let ghost before = $1@; let ghost g_defs = $0.definitions@; let ghost g_mod = *$0;
@loop0
    forall|e: ExternalType| #![trigger has($1@, e)] has($1@, e) <==> has(before, e) || open_upto(g_defs, at0__, e)
@before1 let ghost before1 = $1@;
@loop1
    forall|e: ExternalType| #![trigger has($1@, e)] has($1@, e) <==> has(before1, e) ||
        enum_open(*all0__[at0__ - 1], at1__, g_defs, e)
@before2 let ghost before2 = $1@;
@loop2
    forall|e: ExternalType| #![trigger has($1@, e)] has($1@, e) <==> has(before2, e) || open_values(all2__, at2__, e)
@step2 proof { values_built(g_mod, all2__, at2__ - 1); }
@after2 proof { assert forall|e: ExternalType| #![trigger open_tree(g_defs, e)] open_tree(g_defs, e) == (open_upto(g_defs, g_defs.len() as int, e) || open_values(all2__, all2__.len() as int, e)) by { open_split(g_mod, all2__, e); } }

@fn resolve::resolve_module_imports
@requires built(*$0), all_built($1@), rooted($0.definitions@)
@ensures
    res is Ok <==> imports_ok(world_of($1@), $0.definitions@),
    res matches Ok(r) ==> targets_of(r@) == targets(world_of($1@), $0.definitions@) && forall|i: int| #![trigger r@[i]] 0 <= i < r@.len() ==> sound(r@[i])
@start let ghost g_w = world_of($1@); let ghost g_i = imports_of($0.definitions@); let ghost g_t = targets(g_w, $0.definitions@);
@loop0
    all0__ =~= refs(refs(g_i)),
    res0__ is None ==> out0__@.len() == at0__ && targets_of(out0__@) =~= g_t.take(at0__)
        && (forall|i: int| #![trigger g_i[i]] 0 <= i < at0__ ==> import_target(g_w, g_i[i]) is Some)
        && (forall|i: int| #![trigger out0__@[i]] 0 <= i < out0__@.len() ==> sound(out0__@[i])),
    res0__ is Some ==> !imports_ok(g_w, $0.definitions@)
@step0 proof { assert(g_i[at0__ - 1].segments@.len() > 0); }
@after0 proof { if res0__ is None { assert(g_t.take(at0__) =~= g_t); } }
@loop1
    res1__ is None ==> root_upto(g_w, at1__, root.value@) is None,
    res1__ is Some ==> found_root($1@, root.value@, res1__)
@step1 proof { if root_upto(g_w, at1__, root.value@) is Some { root_mono(g_w, at1__, g_w.len() as int, root.value@); } }

@fn resolve::resolve_type_remotely
@requires forall|i: int| #![trigger $1@[i]] 0 <= i < $1@.len() ==> sound($1@[i])
@ensures res is Ok <==> remote_ok(targets_of($1@), *$0.external)
@start let ghost g_t = targets_of($1@); let ghost g_n = $0.external.name.value@; let ghost g_p = path_of(*$0.external);
@loop0
    res0__ is None ==> module_upto(g_t, at0__, g_p[0]) is None,
    res0__ is Some ==> found_module(g_t, g_p[0], res0__)
@step0 proof { assert(g_t[at0__ - 1] == target_of($1@[at0__ - 1])); if module_upto(g_t, at0__, g_p[0]) is Some { module_mono(g_t, at0__, g_t.len() as int, g_p[0]); } }
@loop1
    res1__ is None ==> type_upto(g_t, at1__, g_n) is None,
    res1__ is Some ==> found_type(g_t, g_n, res1__)
@step1 proof { assert(g_t[at1__ - 1] == target_of($1@[at1__ - 1])); if type_upto(g_t, at1__, g_n) is Some { type_mono(g_t, at1__, g_t.len() as int, g_n); } }

@fn resolve::schemas
@requires forall|i: int| #![trigger $0@[i]] 0 <= i < $0@.len() ==> rooted($0@[i].1.definitions@)
@ensures res is Ok <==> forall|i: int| #![trigger $0@[i]] 0 <= i < $0@.len() ==> schema_resolves(schemas_world($0@), $0@[i].1.definitions@)
@start let ghost g_w = schemas_world($0@);
@loop0
    out0__@.len() == at0__, all_built(out0__@), world_of(out0__@) =~= g_w.take(at0__)
@after0 proof { assert(g_w.take(at0__) =~= g_w); }
@loop1
    world_of(modules@) == g_w,
    forall|i: int| #![trigger $0@[i]] 0 <= i < at1__ ==> schema_resolves(g_w, $0@[i].1.definitions@)
@step1 let ghost g_d = $0@[at1__ - 1].1.definitions@; proof { assert(modules@[at1__ - 1].1.definitions@ == g_d) by { assert(world_of(modules@)[at1__ - 1] == g_w[at1__ - 1]); } }
@loop2
    imports_ok(g_w, g_d),
    forall|i: int| #![trigger all2__[i]] 0 <= i < at2__ ==> remote_ok(targets(g_w, g_d), *all2__[i].external)
@step2 proof { let e = *all2__[at2__ - 1].external; assert(has(all2__, e)); assert(open_tree(g_d, e)); }
@after2 proof { assert(schema_resolves(g_w, g_d)); }
