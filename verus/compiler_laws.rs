// ------------------------------------------------------------------------ the properties, over the contracts
/// An item without a number of its own gets the one after the item before it, the first one 1.
pub proof fn derived_numbers(explicit: Seq<Option<u32>>, i: int)
    requires 0 <= i < explicit.len()
    ensures
        explicit[i] is Some ==> numbers(explicit)[i] == explicit[i]->0,
        explicit[i] is None && i == 0 ==> numbers(explicit)[i] == 1,
        explicit[i] is None && i > 0 && numbers(explicit)[i - 1] < u32::MAX ==> numbers(explicit)[i] == numbers(explicit)[i - 1] + 1,
{
}
/// What code generators see: all numbers distinct within each struct, enum and variant.
pub open spec fn lowered_numbers_ok(x: simplify::Definition) -> bool decreases x {
    match x {
        simplify::Definition::Module(m) => forall|i: int| #![trigger m.definitions@[i]] 0 <= i < m.definitions@.len() ==> lowered_numbers_ok(m.definitions@[i]),
        simplify::Definition::Struct(s) => field_ids(s.fields.fields@).no_duplicates(),
        simplify::Definition::Enum(e) => variant_ids(e.variants@).no_duplicates()
            && forall|i: int| #![trigger e.variants@[i]] 0 <= i < e.variants@.len() ==> field_ids(e.variants@[i].fields.fields@).no_duplicates(),
        _ => true,
    }
}
pub proof fn same_field_numbers(f: Fields, x: simplify::Fields)
    requires same_fields(f, x)
    ensures field_ids(x.fields@) =~= field_numbers(f)
{
    match f {
        Fields::Named(_, n) => { assert forall|i: int| 0 <= i < n.s().len() implies field_ids(x.fields@)[i] == field_numbers(f)[i] by { let _ = n.s()[i]; } }
        Fields::Unnamed(_, n) => { assert forall|i: int| 0 <= i < n.s().len() implies field_ids(x.fields@)[i] == field_numbers(f)[i] by { let _ = n.s()[i]; } }
        Fields::Unit => {}
    }
}
pub proof fn distinct_numbers(d: Definition, x: simplify::Definition)
    requires numbers_ok(d), same_definition(d, x)
    ensures lowered_numbers_ok(x)
    decreases d
{
    match (d, x) {
        (Definition::Module(m), simplify::Definition::Module(y)) => {
            assert forall|i: int| #![trigger y.definitions@[i]] 0 <= i < y.definitions@.len() implies lowered_numbers_ok(y.definitions@[i]) by {
                assert(decreases_to!(m.definitions => m.definitions@[i]));
                distinct_numbers(m.definitions@[i], y.definitions@[i]);
            }
        }
        (Definition::Struct(s), simplify::Definition::Struct(y)) => { same_field_numbers(s.fields, y.fields); }
        (Definition::Enum(e), simplify::Definition::Enum(y)) => {
            assert(variant_ids(y.variants@) =~= variant_numbers(e)) by {
                assert forall|i: int| 0 <= i < e.variants.s().len() implies variant_ids(y.variants@)[i] == variant_numbers(e)[i] by { let _ = e.variants.s()[i]; }
            }
            assert forall|i: int| #![trigger y.variants@[i]] 0 <= i < y.variants@.len() implies field_ids(y.variants@[i].fields.fields@).no_duplicates() by {
                same_field_numbers(e.variants.s()[i].fields, y.variants@[i].fields);
            }
        }
        _ => {}
    }
}
pub open spec fn lowered_names(f: Seq<simplify::Field>) -> Seq<Seq<char>> { Seq::new(f.len(), |i: int| f[i].name@) }
pub open spec fn lowered_variant_names(f: Seq<simplify::Variant>) -> Seq<Seq<char>> { Seq::new(f.len(), |i: int| f[i].name@) }
pub open spec fn lowered_tuples_fit(t: simplify::Type) -> bool decreases t {
    match t {
        simplify::Type::Vec(x) => lowered_tuples_fit(*x),
        simplify::Type::HashSet(x) => lowered_tuples_fit(*x),
        simplify::Type::Option(x) => lowered_tuples_fit(*x),
        simplify::Type::NonZero(x) => lowered_tuples_fit(*x),
        simplify::Type::Array(x, _) => lowered_tuples_fit(*x),
        simplify::Type::HashMap(x) => lowered_tuples_fit(x.0) && lowered_tuples_fit(x.1),
        simplify::Type::Tuple(x) => 2 <= x@.len() <= 12 && forall|i: int| #![trigger x@[i]] 0 <= i < x@.len() ==> lowered_tuples_fit(x@[i]),
        simplify::Type::External(e) => forall|i: int| #![trigger e.generics@[i]] 0 <= i < e.generics@.len() ==> lowered_tuples_fit(e.generics@[i]),
        _ => true,
    }
}
/// Decimal digits of different numbers differ, so the names of unnamed fields do.
pub proof fn decimal_injective(a: nat, b: nat)
    requires decimal(a) == decimal(b)
    ensures a == b
    decreases a
{
    if a < 10 && b < 10 { assert(decimal(a)[0] == digit_char(a)); assert(decimal(b)[0] == digit_char(b)); digit(a, b); }
    else if a < 10 { decimal_some(b / 10); assert(decimal(a).len() == decimal(b).len()); }
    else if b < 10 { decimal_some(a / 10); assert(decimal(a).len() == decimal(b).len()); }
    else {
        assert(decimal(a).drop_last() =~= decimal(a / 10));
        assert(decimal(b).drop_last() =~= decimal(b / 10));
        decimal_injective(a / 10, b / 10);
        assert(decimal(a).last() == digit_char(a % 10)); assert(decimal(b).last() == digit_char(b % 10));
        digit(a % 10, b % 10);
    }
}
pub proof fn digit(a: nat, b: nat)
    requires a < 10, b < 10, digit_char(a) == digit_char(b)
    ensures a == b
{
    assert(digit_char(a) as u32 == a + 48);
    assert(digit_char(b) as u32 == b + 48);
}
pub proof fn decimal_some(n: nat) ensures decimal(n).len() >= 1 decreases n { if n >= 10 { decimal_some(n / 10); } }
pub proof fn distinct_field_names(f: Fields, x: simplify::Fields)
    requires field_names(f).no_duplicates(), same_fields(f, x)
    ensures lowered_names(x.fields@).no_duplicates()
{
    let l = lowered_names(x.fields@);
    match f {
        Fields::Named(_, n) => {
            assert forall|i: int, j: int| 0 <= i < l.len() && 0 <= j < l.len() && i != j implies l[i] != l[j] by {
                let a = n.s()[i]; let b = n.s()[j];
                assert(field_names(f)[i] == l[i] && field_names(f)[j] == l[j]);
            }
        }
        Fields::Unnamed(_, n) => {
            assert forall|i: int, j: int| 0 <= i < l.len() && 0 <= j < l.len() && i != j implies l[i] != l[j] by {
                let a = n.s()[i]; let b = n.s()[j];
                if l[i] == l[j] {
                    assert(l[i].skip("n"@.len() as int) =~= decimal(i as nat));
                    assert(l[j].skip("n"@.len() as int) =~= decimal(j as nat));
                    decimal_injective(i as nat, j as nat);
                }
            }
        }
        Fields::Unit => {}
    }
}
pub proof fn tuples_stay(t: Type, x: simplify::Type)
    requires tuples_fit(t), same_type(t, x)
    ensures lowered_tuples_fit(x)
    decreases t
{
    match (t.value, x) {
        (DataType::Vec { ty, .. }, simplify::Type::Vec(y)) => tuples_stay(*ty, *y),
        (DataType::HashSet { ty, .. }, simplify::Type::HashSet(y)) => tuples_stay(*ty, *y),
        (DataType::Option { ty, .. }, simplify::Type::Option(y)) => tuples_stay(*ty, *y),
        (DataType::NonZero { ty, .. }, simplify::Type::NonZero(y)) => tuples_stay(*ty, *y),
        (DataType::Array { ty, .. }, simplify::Type::Array(y, _)) => tuples_stay(*ty, *y),
        (DataType::HashMap { key, value, .. }, simplify::Type::HashMap(y)) => { tuples_stay(*key, y.0); tuples_stay(*value, y.1); }
        (DataType::Tuple { types, .. }, simplify::Type::Tuple(y)) => {
            assert forall|i: int| #![trigger y@[i]] 0 <= i < y@.len() implies lowered_tuples_fit(y@[i]) by {
                smaller(types, i);
                tuples_stay(types.s()[i], y@[i]);
            }
        }
        (DataType::External(e), simplify::Type::External(y)) => {
            if let Some(g) = e.generics {
                assert forall|i: int| #![trigger y.generics@[i]] 0 <= i < y.generics@.len() implies lowered_tuples_fit(y.generics@[i]) by {
                    smaller(g, i);
                    tuples_stay(g.s()[i], y.generics@[i]);
                }
            }
        }
        _ => {}
    }
}
pub proof fn named_upto(d: Seq<Definition>, i: int, n: int)
    requires 0 <= i < n <= d.len(), definition_name(d[i]) is Some
    ensures names_upto(d, n).contains(definition_name(d[i])->0)
    decreases n
{
    let a = names_upto(d, n - 1); let x = definition_name(d[i])->0;
    if i < n - 1 { named_upto(d, i, n - 1); let k = choose|k: int| 0 <= k < a.len() && a[k] == x; assert(names_upto(d, n)[k] == x); }
    else { assert(names_upto(d, n)[a.len() as int] == x); }
}
pub proof fn clash(d: Seq<Definition>, i: int, j: int, n: int)
    requires 0 <= i < j < n <= d.len(), definition_name(d[i]) is Some, definition_name(d[i]) == definition_name(d[j])
    ensures !names_upto(d, n).no_duplicates()
    decreases n
{
    let a = names_upto(d, n - 1); let b = names_upto(d, n);
    if j < n - 1 {
        clash(d, i, j, n - 1);
        if b.no_duplicates() { assert forall|k: int, l: int| 0 <= k < a.len() && 0 <= l < a.len() && k != l implies a[k] != a[l] by { assert(b[k] == a[k] && b[l] == a[l]); } }
    } else {
        named_upto(d, i, n - 1);
        let k = choose|k: int| 0 <= k < a.len() && a[k] == definition_name(d[i])->0;
        assert(b[k] == b[a.len() as int]);
    }
}
/// With distinct names, every submodule is the one that its name leads to.
pub proof fn own_name(d: Seq<Definition>, i: int, n: int)
    requires module_names_ok(d), 0 <= i < n <= d.len(), d[i] is Module
    ensures mod_upto(d, n, d[i]->Module_0.name.value@) == Some(i)
    decreases n
{
    let j = n - 1;
    if i < j {
        if d[j] is Module && d[j]->Module_0.name.value@ == d[i]->Module_0.name.value@ {
            clash(d, i, j, d.len() as int);
        }
        own_name(d, i, n - 1);
    }
}
/// It is a parameter where it stands, or names a definition of its module or below.
pub open spec fn found_locally(x: Definition, d: Seq<Definition>, e: ExternalType) -> bool decreases x {
    match x {
        Definition::Struct(s) => fields_mention(s.fields, e) ==> !open_in(e, parameters(s.generics), d),
        Definition::Enum(n) => variants_mention(n.variants.s(), n.variants.s().len() as int, e) ==> !open_in(e, parameters(n.generics), d),
        Definition::TypeAlias(a) => mentions(a.target, e) ==> !open_in(e, parameters(a.generics), d),
        Definition::Module(m) => forall|i: int| #![trigger m.definitions@[i]] 0 <= i < m.definitions@.len() ==> found_locally(m.definitions@[i], m.definitions@, e),
        _ => true,
    }
}
pub open spec fn all_names_ok(d: Seq<Definition>) -> bool { module_names_ok(d) && forall|i: int| #![trigger d[i]] 0 <= i < d.len() ==> names_ok(d[i]) }
pub proof fn every_reference(d: Seq<Definition>, e: ExternalType)
    requires all_names_ok(d)
    ensures open_tree(d, e) <==> exists|i: int| #![trigger d[i]] 0 <= i < d.len() && !found_locally(d[i], d, e)
    decreases d
{
    assert forall|i: int| #![trigger d[i]] 0 <= i < d.len() implies open_below(d, i, e) == !found_locally(d[i], d, e) by {
        assert(decreases_to!(d => d[i]));
        match d[i] {
            Definition::Module(m) => {
                own_name(d, i, d.len() as int);
                assert(decreases_to!(d[i] => m)); assert(decreases_to!(m => m.definitions)); assert(decreases_to!(m.definitions => m.definitions@));
                every_reference(m.definitions@, e);
                if open_tree(m.definitions@, e) {
                    let j = choose|j: int| #![trigger m.definitions@[j]] 0 <= j < m.definitions@.len() && !found_locally(m.definitions@[j], m.definitions@, e);
                    assert(!found_locally(d[i], d, e));
                }
            }
            _ => {}
        }
    }
    if open_tree(d, e) { let i = choose|i: int| #![trigger d[i]] 0 <= i < d.len() && open_below(d, i, e); assert(!found_locally(d[i], d, e)); }
    if exists|i: int| #![trigger d[i]] 0 <= i < d.len() && !found_locally(d[i], d, e) {
        let i = choose|i: int| #![trigger d[i]] 0 <= i < d.len() && !found_locally(d[i], d, e); assert(open_below(d, i, e));
    }
}
/// Accepted schemas with distinct names: what is not found in scope or in its own module is what an import leads to. And conversely.
pub open spec fn resolves(w: World, d: Seq<Definition>) -> bool {
    imports_ok(w, d) && forall|e: ExternalType| #![trigger remote_ok(targets(w, d), e)]
        (forall|i: int| #![trigger d[i]] 0 <= i < d.len() ==> found_locally(d[i], d, e)) || remote_ok(targets(w, d), e)
}
pub proof fn acceptance(w: World, d: Seq<Definition>)
    requires all_names_ok(d)
    ensures schema_resolves(w, d) <==> resolves(w, d)
{
    assert forall|e: ExternalType| #![trigger open_tree(d, e)] #![trigger remote_ok(targets(w, d), e)]
        open_tree(d, e) <==> !(forall|i: int| #![trigger d[i]] 0 <= i < d.len() ==> found_locally(d[i], d, e)) by { every_reference(d, e); }
}
fn validated_numbers(s: &Schema) {
    if validate::schema(s).is_ok() {
        let low = simplify::schema__(s);
        proof {
            let d = s.definitions@;
            assert forall|i: int| #![trigger low.definitions@[i]] 0 <= i < low.definitions@.len() implies lowered_numbers_ok(low.definitions@[i]) by {
                assert(numbers_ok(d[i]));
                distinct_numbers(d[i], low.definitions@[i]);
            }
        }
        assert(forall|i: int| #![trigger low.definitions@[i]] 0 <= i < low.definitions@.len() ==> lowered_numbers_ok(low.definitions@[i]));
    }
}
fn accepted_together(s: &[(&str, &Schema)])
    requires forall|i: int| #![trigger s@[i]] 0 <= i < s@.len() ==> rooted(s@[i].1.definitions@) && all_names_ok(s@[i].1.definitions@)
{
    let accepted = resolve::schemas(s).is_ok();
    proof { assert forall|i: int| #![trigger s@[i]] 0 <= i < s@.len() implies (schema_resolves(schemas_world(s@), s@[i].1.definitions@) <==> resolves(schemas_world(s@), s@[i].1.definitions@)) by {
        acceptance(schemas_world(s@), s@[i].1.definitions@); } }
    assert(accepted <==> forall|i: int| #![trigger s@[i]] 0 <= i < s@.len() ==> resolves(schemas_world(s@), s@[i].1.definitions@));
}
fn canary_1__(s: &Schema) {
    let v = validate::schema(s);
    let low = simplify::schema__(s);
    if v.is_ok() { assert(false); }
}
fn canary_2__(s: &Schema) {
    let v = validate::schema(s);
    if v.is_err() { assert(false); }
}
proof fn canary_3__(t: Type, x: simplify::Type)
    requires same_type(t, x), tuples_fit(t), uses(t, "T"@)
{
    broadcast use smaller;
    assert(false);
}
