// The meaning of a schema, stated on its syntax tree.

// ---------------------------------------------------------------------------------- punctuated lists
impl<T, P> Punctuated<T, P> {
    /// The elements in order.
    pub open spec fn s(&self) -> Seq<T> {
        Seq::new((self.values@.len() + 1) as nat, |i: int| if i < self.values@.len() { self.values@[i].0 } else { self.last.0 })
    }
}
pub broadcast proof fn smaller<T, P>(p: Punctuated<T, P>, i: int)
    requires 0 <= i < p.s().len()
    ensures #[trigger] (decreases_to!(p => p.s()[i]))
{
    if i < p.values@.len() {
        assert(decreases_to!(p => p.values));
        assert(decreases_to!(p.values => p.values@));
        assert(decreases_to!(p.values@ => p.values@[i]));
        assert(decreases_to!(p.values@[i] => p.values@[i].0));
        assert(decreases_to!(p => p.values@[i].0));
    } else {
        assert(decreases_to!(p => p.last));
        assert(decreases_to!(p => p.last.0));
    }
}

// ---------------------------------------------------------------------------------- numbers
pub open spec fn after(n: u32) -> u32 { if n == u32::MAX { n } else { (n + 1) as u32 } }
/// The number an item without an explicit one gets at position i.
pub open spec fn next_number(explicit: Seq<Option<u32>>, i: int) -> u32 decreases i {
    if i <= 0 { 1 } else { after(number(explicit, i - 1)) }
}
pub open spec fn number(explicit: Seq<Option<u32>>, i: int) -> u32 decreases i + 1 via number_dec {
    match explicit[i] { Some(n) => n, None => if i <= 0 { 1 } else { after(number(explicit, i - 1)) } }
}
#[via_fn]
proof fn number_dec(explicit: Seq<Option<u32>>, i: int) { }
pub open spec fn numbers(explicit: Seq<Option<u32>>) -> Seq<u32> { Seq::new(explicit.len(), |i: int| number(explicit, i)) }
pub open spec fn id_of(id: Option<Id>) -> Option<u32> { match id { Some(i) => Some(i.value), None => None } }
pub open spec fn explicit_named(f: Seq<NamedField>) -> Seq<Option<u32>> { Seq::new(f.len(), |i: int| id_of(f[i].id)) }
pub open spec fn explicit_unnamed(f: Seq<UnnamedField>) -> Seq<Option<u32>> { Seq::new(f.len(), |i: int| id_of(f[i].id)) }
pub open spec fn explicit_variants(f: Seq<Variant>) -> Seq<Option<u32>> { Seq::new(f.len(), |i: int| id_of(f[i].id)) }
pub open spec fn field_numbers(f: Fields) -> Seq<u32> {
    match f {
        Fields::Named(_, n) => numbers(explicit_named(n.s())),
        Fields::Unnamed(_, n) => numbers(explicit_unnamed(n.s())),
        Fields::Unit => Seq::empty(),
    }
}
/// Numbers of fields are distinct, and all of them fit into a header next to the marker, zero being the end of all fields.
pub open spec fn field_numbers_ok(f: Fields) -> bool { field_numbers(f).no_duplicates() && in_range(field_numbers(f)) }
pub open spec fn in_range(n: Seq<u32>) -> bool { forall|i: int| #![trigger n[i]] 0 <= i < n.len() ==> 0 < n[i] < 0x2000_0000 }
pub open spec fn variant_numbers(e: Enum) -> Seq<u32> { numbers(explicit_variants(e.variants.s())) }
pub open spec fn enum_numbers_ok(e: Enum) -> bool {
    &&& variant_numbers(e).no_duplicates()
    &&& forall|i: int| #![trigger e.variants.s()[i]] 0 <= i < e.variants.s().len() ==> field_numbers_ok(e.variants.s()[i].fields)
}
/// One more element of a sequence that is walked over.
pub proof fn prefix<A>(s: Seq<A>, n: int)
    requires 0 < n <= s.len()
    ensures
        s.take(n).to_set() == s.take(n - 1).to_set().insert(s[n - 1]),
        s.take(n).no_duplicates() <==> s.take(n - 1).no_duplicates() && !s.take(n - 1).to_set().contains(s[n - 1]),
        s.no_duplicates() ==> s.take(n).no_duplicates(),
{
    let a = s.take(n - 1);
    assert(s.take(n) =~= a.push(s[n - 1]));
    assert(s.take(n).to_set() =~= a.to_set().insert(s[n - 1])) by {
        assert forall|x: A| s.take(n).to_set().contains(x) == a.to_set().insert(s[n - 1]).contains(x) by {
            if a.contains(x) { let i = choose|i: int| 0 <= i < a.len() && a[i] == x; assert(s.take(n)[i] == x); }
            if s.take(n).contains(x) { let i = choose|i: int| 0 <= i < n && s.take(n)[i] == x; if i < n - 1 { assert(a[i] == x); } }
            assert(s.take(n)[n - 1] == s[n - 1]);
        }
    }
    if s.take(n).no_duplicates() {
        assert forall|i: int, j: int| 0 <= i < a.len() && 0 <= j < a.len() && i != j implies a[i] != a[j] by {
            assert(s.take(n)[i] == a[i]); assert(s.take(n)[j] == a[j]);
        }
        if a.to_set().contains(s[n - 1]) {
            let i = choose|i: int| 0 <= i < a.len() && a[i] == s[n - 1];
            assert(s.take(n)[i] == s.take(n)[n - 1]);
        }
    }
    if a.no_duplicates() && !a.to_set().contains(s[n - 1]) {
        assert forall|i: int, j: int| 0 <= i < n && 0 <= j < n && i != j implies s.take(n)[i] != s.take(n)[j] by {
            if i < n - 1 { assert(a.contains(a[i])); }
            if j < n - 1 { assert(a.contains(a[j])); }
        }
    }
}

// ---------------------------------------------------------------------------------- names
pub open spec fn named_names(f: Seq<NamedField>) -> Seq<Seq<char>> { Seq::new(f.len(), |i: int| f[i].name.value@) }
pub open spec fn variant_names(f: Seq<Variant>) -> Seq<Seq<char>> { Seq::new(f.len(), |i: int| f[i].name.value@) }
pub open spec fn generic_names(f: Seq<Name>) -> Seq<Seq<char>> { Seq::new(f.len(), |i: int| f[i].value@) }
pub open spec fn field_names(f: Fields) -> Seq<Seq<char>> {
    match f { Fields::Named(_, n) => named_names(n.s()), _ => Seq::empty() }
}
pub open spec fn enum_names_ok(e: Enum) -> bool {
    &&& variant_names(e.variants.s()).no_duplicates()
    &&& forall|i: int| #![trigger e.variants.s()[i]] 0 <= i < e.variants.s().len() ==> field_names(e.variants.s()[i].fields).no_duplicates()
}
/// The name a definition has in its module; an import of no path at all has none.
pub open spec fn definition_name(d: Definition) -> Option<Seq<char>> {
    match d {
        Definition::Module(m) => Some(m.name.value@),
        Definition::Struct(s) => Some(s.name.value@),
        Definition::Enum(e) => Some(e.name.value@),
        Definition::TypeAlias(a) => Some(a.name.value@),
        Definition::Const(c) => Some(c.name.value@),
        Definition::Import(i) => match i.element {
            Some((_, n)) => Some(n.value@),
            None => if i.segments@.len() > 0 { Some(i.segments@.last().value@) } else { None },
        },
    }
}
pub open spec fn names_upto(d: Seq<Definition>, n: int) -> Seq<Seq<char>> decreases n {
    if n <= 0 { Seq::empty() } else {
        match definition_name(d[n - 1]) { Some(x) => names_upto(d, n - 1).push(x), None => names_upto(d, n - 1) }
    }
}
pub open spec fn module_names_ok(d: Seq<Definition>) -> bool { names_upto(d, d.len() as int).no_duplicates() }
pub proof fn names_step(d: Seq<Definition>, n: int)
    requires 0 < n <= d.len()
    ensures match definition_name(d[n - 1]) {
        Some(x) => names_upto(d, n).to_set() == names_upto(d, n - 1).to_set().insert(x)
            && (names_upto(d, n).no_duplicates() <==> names_upto(d, n - 1).no_duplicates() && !names_upto(d, n - 1).to_set().contains(x)),
        None => names_upto(d, n) == names_upto(d, n - 1),
    }
{
    if let Some(x) = definition_name(d[n - 1]) {
        let s = names_upto(d, n);
        assert(s.take(s.len() - 1) =~= names_upto(d, n - 1));
        assert(s.take(s.len() as int) =~= s);
        prefix(s, s.len() as int);
    }
}
pub proof fn names_mono(d: Seq<Definition>, n: int, m: int)
    requires 0 <= n <= m <= d.len()
    ensures names_upto(d, m).no_duplicates() ==> names_upto(d, n).no_duplicates()
    decreases m - n
{
    if n < m { names_step(d, m); names_mono(d, n, m - 1); }
}

// ---------------------------------------------------------------------------------- type parameters
pub open spec fn is_parameter(e: ExternalType, name: Seq<char>) -> bool {
    e.path@.len() == 0 && e.generics is None && e.name.value@ == name
}
/// Whether a type mentions the parameter, at any depth.
pub open spec fn uses(t: Type, name: Seq<char>) -> bool decreases t via uses_dec {
    match t.value {
        DataType::Vec { ty, .. } => uses(*ty, name),
        DataType::HashSet { ty, .. } => uses(*ty, name),
        DataType::Option { ty, .. } => uses(*ty, name),
        DataType::NonZero { ty, .. } => uses(*ty, name),
        DataType::Array { ty, .. } => uses(*ty, name),
        DataType::HashMap { key, value, .. } => uses(*key, name) || uses(*value, name),
        DataType::Tuple { types, .. } => exists|i: int| #![trigger types.s()[i]] 0 <= i < types.s().len() && uses(types.s()[i], name),
        DataType::External(e) => is_parameter(e, name) || match e.generics {
            Some(g) => exists|i: int| #![trigger g.s()[i]] 0 <= i < g.s().len() && uses(g.s()[i], name),
            None => false,
        },
        _ => false,
    }
}
#[via_fn]
proof fn uses_dec(t: Type, name: Seq<char>) {
    match t.value {
        DataType::Tuple { types, .. } => {
            assert forall|i: int| 0 <= i < types.s().len() implies decreases_to!(t => #[trigger] types.s()[i]) by { smaller(types, i); }
        }
        DataType::External(e) => {
            if let Some(g) = e.generics {
                assert forall|i: int| 0 <= i < g.s().len() implies decreases_to!(t => #[trigger] g.s()[i]) by { smaller(g, i); }
            }
        }
        _ => {}
    }
}
pub open spec fn fields_use(f: Fields, name: Seq<char>) -> bool {
    match f {
        Fields::Named(_, n) => exists|i: int| #![trigger n.s()[i]] 0 <= i < n.s().len() && uses(n.s()[i].ty, name),
        Fields::Unnamed(_, n) => exists|i: int| #![trigger n.s()[i]] 0 <= i < n.s().len() && uses(n.s()[i].ty, name),
        Fields::Unit => false,
    }
}
pub open spec fn enum_uses(e: Enum, name: Seq<char>) -> bool {
    exists|i: int| #![trigger e.variants.s()[i]] 0 <= i < e.variants.s().len() && fields_use(e.variants.s()[i].fields, name)
}
pub open spec fn parameters(g: Option<Generics>) -> Seq<Seq<char>> {
    match g { Some(g) => generic_names(g.types.s()), None => Seq::empty() }
}
pub open spec fn struct_uses_all(s: Struct) -> bool { forall|n: Seq<char>| parameters(s.generics).contains(n) ==> #[trigger] fields_use(s.fields, n) }
pub open spec fn enum_uses_all(s: Enum) -> bool { forall|n: Seq<char>| parameters(s.generics).contains(n) ==> #[trigger] enum_uses(s, n) }
pub open spec fn alias_uses_all(s: TypeAlias) -> bool { forall|n: Seq<char>| parameters(s.generics).contains(n) ==> #[trigger] uses(s.target, n) }

// ---------------------------------------------------------------------------------- tuples
/// Every tuple in the type, at any depth, has 2 to 12 elements.
pub open spec fn tuples_fit(t: Type) -> bool decreases t via tuples_dec {
    match t.value {
        DataType::Vec { ty, .. } => tuples_fit(*ty),
        DataType::HashSet { ty, .. } => tuples_fit(*ty),
        DataType::Option { ty, .. } => tuples_fit(*ty),
        DataType::NonZero { ty, .. } => tuples_fit(*ty),
        DataType::Array { ty, .. } => tuples_fit(*ty),
        DataType::HashMap { key, value, .. } => tuples_fit(*key) && tuples_fit(*value),
        DataType::Tuple { types, .. } => 2 <= types.s().len() <= 12
            && forall|i: int| #![trigger types.s()[i]] 0 <= i < types.s().len() ==> tuples_fit(types.s()[i]),
        DataType::External(e) => match e.generics {
            Some(g) => forall|i: int| #![trigger g.s()[i]] 0 <= i < g.s().len() ==> tuples_fit(g.s()[i]),
            None => true,
        },
        _ => true,
    }
}
#[via_fn]
proof fn tuples_dec(t: Type) {
    match t.value {
        DataType::Tuple { types, .. } => {
            assert forall|i: int| 0 <= i < types.s().len() implies decreases_to!(t => #[trigger] types.s()[i]) by { smaller(types, i); }
        }
        DataType::External(e) => {
            if let Some(g) = e.generics {
                assert forall|i: int| 0 <= i < g.s().len() implies decreases_to!(t => #[trigger] g.s()[i]) by { smaller(g, i); }
            }
        }
        _ => {}
    }
}
pub open spec fn field_tuples_fit(f: Fields) -> bool {
    match f {
        Fields::Named(_, n) => forall|i: int| #![trigger n.s()[i]] 0 <= i < n.s().len() ==> tuples_fit(n.s()[i].ty),
        Fields::Unnamed(_, n) => forall|i: int| #![trigger n.s()[i]] 0 <= i < n.s().len() ==> tuples_fit(n.s()[i].ty),
        Fields::Unit => true,
    }
}
pub open spec fn enum_tuples_fit(e: Enum) -> bool {
    forall|i: int| #![trigger e.variants.s()[i]] 0 <= i < e.variants.s().len() ==> field_tuples_fit(e.variants.s()[i].fields)
}

// ---------------------------------------------------------------------------------- definitions, through all modules
pub open spec fn numbers_ok(d: Definition) -> bool decreases d {
    match d {
        Definition::Module(m) => forall|i: int| #![trigger m.definitions@[i]] 0 <= i < m.definitions@.len() ==> numbers_ok(m.definitions@[i]),
        Definition::Struct(s) => field_numbers_ok(s.fields),
        Definition::Enum(e) => enum_numbers_ok(e),
        _ => true,
    }
}
pub open spec fn names_ok(d: Definition) -> bool decreases d {
    match d {
        Definition::Module(m) => module_names_ok(m.definitions@)
            && forall|i: int| #![trigger m.definitions@[i]] 0 <= i < m.definitions@.len() ==> names_ok(m.definitions@[i]),
        Definition::Struct(s) => field_names(s.fields).no_duplicates(),
        Definition::Enum(e) => enum_names_ok(e),
        _ => true,
    }
}
/// No two type parameters share a name.
pub open spec fn parameter_names_ok(d: Definition) -> bool decreases d {
    match d {
        Definition::Module(m) => forall|i: int| #![trigger m.definitions@[i]] 0 <= i < m.definitions@.len() ==> parameter_names_ok(m.definitions@[i]),
        Definition::Struct(s) => parameters(s.generics).no_duplicates(),
        Definition::Enum(e) => parameters(e.generics).no_duplicates(),
        Definition::TypeAlias(a) => parameters(a.generics).no_duplicates(),
        _ => true,
    }
}
pub open spec fn parameters_used(d: Definition) -> bool decreases d {
    match d {
        Definition::Module(m) => forall|i: int| #![trigger m.definitions@[i]] 0 <= i < m.definitions@.len() ==> parameters_used(m.definitions@[i]),
        Definition::Struct(s) => struct_uses_all(s),
        Definition::Enum(e) => enum_uses_all(e),
        Definition::TypeAlias(a) => alias_uses_all(a),
        _ => true,
    }
}
pub open spec fn tuples_ok(d: Definition) -> bool decreases d {
    match d {
        Definition::Module(m) => forall|i: int| #![trigger m.definitions@[i]] 0 <= i < m.definitions@.len() ==> tuples_ok(m.definitions@[i]),
        Definition::Struct(s) => field_tuples_fit(s.fields),
        Definition::Enum(e) => enum_tuples_fit(e),
        Definition::TypeAlias(a) => tuples_fit(a.target),
        Definition::Const(c) => tuples_fit(c.ty),
        Definition::Import(_) => true,
    }
}
pub open spec fn schema_definitions<'a>(s: Schema<'a>) -> Seq<Definition<'a>> { s.definitions@ }
pub open spec fn all_ok(d: Seq<Definition>, ok: spec_fn(Definition) -> bool) -> bool {
    forall|i: int| #![trigger d[i]] 0 <= i < d.len() ==> ok(d[i])
}
pub open spec fn positions_below<S>(m: Map<u32, (usize, S)>, n: int) -> bool { forall|k: u32| #![trigger m[k]] m.dom().contains(k) ==> m[k].0 < n }

// ---------------------------------------------------------------------------------- the lowered schema
pub open spec fn comment_lines<'a>(c: Comment<'a>) -> Seq<&'a str> { Seq::new(c.0@.len(), |i: int| c.0@[i].value) }
pub open spec fn plain_names<'a>(f: Seq<Name<'a>>) -> Seq<&'a str> { Seq::new(f.len(), |i: int| f[i].value) }
pub open spec fn parameter_list<'a>(g: Option<Generics<'a>>) -> Seq<&'a str> {
    match g { Some(g) => plain_names(g.types.s()), None => Seq::empty() }
}
pub open spec fn path_names<'a>(p: Seq<(Name<'a>, token::DoubleColon)>) -> Seq<&'a str> { Seq::new(p.len(), |i: int| p[i].0.value) }
/// The same type, piece by piece.
pub open spec fn same_type(t: Type, s: simplify::Type) -> bool decreases t via same_type_dec {
    match t.value {
        DataType::Bool => s is Bool,
        DataType::U8 => s is U8,
        DataType::U16 => s is U16,
        DataType::U32 => s is U32,
        DataType::U64 => s is U64,
        DataType::U128 => s is U128,
        DataType::I8 => s is I8,
        DataType::I16 => s is I16,
        DataType::I32 => s is I32,
        DataType::I64 => s is I64,
        DataType::I128 => s is I128,
        DataType::F32 => s is F32,
        DataType::F64 => s is F64,
        DataType::String => s is String,
        DataType::StringRef => s is StringRef,
        DataType::Bytes => s is Bytes,
        DataType::BytesRef => s is BytesRef,
        DataType::BoxString => s is BoxString,
        DataType::BoxBytes => s is BoxBytes,
        DataType::Vec { ty, .. } => s matches simplify::Type::Vec(x) && same_type(*ty, *x),
        DataType::HashSet { ty, .. } => s matches simplify::Type::HashSet(x) && same_type(*ty, *x),
        DataType::Option { ty, .. } => s matches simplify::Type::Option(x) && same_type(*ty, *x),
        DataType::NonZero { ty, .. } => s matches simplify::Type::NonZero(x) && same_type(*ty, *x),
        DataType::HashMap { key, value, .. } => s matches simplify::Type::HashMap(x) && same_type(*key, x.0) && same_type(*value, x.1),
        DataType::Array { ty, size, .. } => s matches simplify::Type::Array(x, n) && same_type(*ty, *x) && n == size,
        DataType::Tuple { types, .. } => s matches simplify::Type::Tuple(x) && x@.len() == types.s().len()
            && forall|i: int| #![trigger types.s()[i]] 0 <= i < types.s().len() ==> same_type(types.s()[i], x@[i]),
        DataType::External(e) => s matches simplify::Type::External(x) && x.path@ == path_names(e.path@) && x.name == e.name.value
            && match e.generics {
                Some(g) => x.generics@.len() == g.s().len()
                    && forall|i: int| #![trigger g.s()[i]] 0 <= i < g.s().len() ==> same_type(g.s()[i], x.generics@[i]),
                None => x.generics@.len() == 0,
            },
    }
}
#[via_fn]
proof fn same_type_dec(t: Type, s: simplify::Type) {
    match t.value {
        DataType::Tuple { types, .. } => {
            assert forall|i: int| 0 <= i < types.s().len() implies decreases_to!(t => #[trigger] types.s()[i]) by { smaller(types, i); }
        }
        DataType::External(e) => {
            if let Some(g) = e.generics {
                assert forall|i: int| 0 <= i < g.s().len() implies decreases_to!(t => #[trigger] g.s()[i]) by { smaller(g, i); }
            }
        }
        _ => {}
    }
}
pub open spec fn same_named(f: NamedField, n: u32, x: simplify::Field) -> bool {
    x.name@ == f.name.value@ && x.id == n && same_type(f.ty, x.ty) && x.comment@ == comment_lines(f.comment)
}
/// The i-th field of a tuple struct is called n<i>.
pub open spec fn same_unnamed(f: UnnamedField, i: int, n: u32, x: simplify::Field) -> bool {
    x.name@ == "n"@ + decimal(i as nat) && x.id == n && same_type(f.ty, x.ty) && x.comment@.len() == 0
}
pub open spec fn same_fields(f: Fields, x: simplify::Fields) -> bool {
    match f {
        Fields::Named(_, n) => x.kind is Named && x.fields@.len() == n.s().len()
            && forall|i: int| #![trigger n.s()[i]] 0 <= i < n.s().len() ==> same_named(n.s()[i], field_numbers(f)[i], x.fields@[i]),
        Fields::Unnamed(_, n) => x.kind is Unnamed && x.fields@.len() == n.s().len()
            && forall|i: int| #![trigger n.s()[i]] 0 <= i < n.s().len() ==> same_unnamed(n.s()[i], i, field_numbers(f)[i], x.fields@[i]),
        Fields::Unit => x.kind is Unit && x.fields@.len() == 0,
    }
}
pub open spec fn same_struct(d: Struct, x: simplify::Struct) -> bool {
    x.name == d.name.value && x.comment@ == comment_lines(d.comment) && x.generics@ == parameter_list(d.generics) && same_fields(d.fields, x.fields)
}
pub open spec fn same_variant(d: Variant, n: u32, x: simplify::Variant) -> bool {
    x.name == d.name.value && x.comment@ == comment_lines(d.comment) && x.id == n && same_fields(d.fields, x.fields)
}
pub open spec fn same_enum(d: Enum, x: simplify::Enum) -> bool {
    x.name == d.name.value && x.comment@ == comment_lines(d.comment) && x.generics@ == parameter_list(d.generics)
        && x.variants@.len() == d.variants.s().len()
        && forall|i: int| #![trigger d.variants.s()[i]] 0 <= i < d.variants.s().len() ==> same_variant(d.variants.s()[i], variant_numbers(d)[i], x.variants@[i])
}
pub open spec fn same_alias(d: TypeAlias, x: simplify::TypeAlias) -> bool {
    x.name == d.name.value && x.comment@ == comment_lines(d.comment) && x.generics@ == parameter_list(d.generics) && same_type(d.target, x.target)
}
pub open spec fn same_literal(l: Literal, x: simplify::Literal) -> bool {
    match l.value {
        LiteralValue::Bool(b) => x == simplify::Literal::Bool(b),
        LiteralValue::Int(i) => x == simplify::Literal::Int(i),
        LiteralValue::Float(f) => x == simplify::Literal::Float(f),
        LiteralValue::String(s) => x matches simplify::Literal::String(y) && y@ == s@,
        LiteralValue::Bytes(s) => x matches simplify::Literal::Bytes(y) && y@ == s@,
    }
}
pub open spec fn same_const(d: Const, x: simplify::Const) -> bool {
    x.name == d.name.value && x.comment@ == comment_lines(d.comment) && same_type(d.ty, x.ty) && same_literal(d.value, x.value)
}
pub open spec fn same_import(d: Import, x: simplify::Import) -> bool {
    x.segments@ == plain_names(d.segments@) && match d.element {
        Some((_, n)) => x.element matches Some(e) && e@ == n.value@,
        None => x.element is None,
    }
}
pub open spec fn same_definition(d: Definition, x: simplify::Definition) -> bool decreases d {
    match d {
        Definition::Module(m) => x matches simplify::Definition::Module(y) && y.name == m.name.value && y.comment@ == comment_lines(m.comment)
            && y.definitions@.len() == m.definitions@.len()
            && forall|i: int| #![trigger m.definitions@[i]] 0 <= i < m.definitions@.len() ==> same_definition(m.definitions@[i], y.definitions@[i]),
        Definition::Struct(s) => x matches simplify::Definition::Struct(y) && same_struct(s, y),
        Definition::Enum(s) => x matches simplify::Definition::Enum(y) && same_enum(s, y),
        Definition::TypeAlias(s) => x matches simplify::Definition::TypeAlias(y) && same_alias(s, y),
        Definition::Const(s) => x matches simplify::Definition::Const(y) && same_const(s, y),
        Definition::Import(s) => x matches simplify::Definition::Import(y) && same_import(s, y),
    }
}
pub open spec fn same_definitions(d: Seq<Definition>, x: Seq<simplify::Definition>) -> bool {
    d.len() == x.len() && forall|i: int| #![trigger d[i]] 0 <= i < d.len() ==> same_definition(d[i], x[i])
}
pub open spec fn field_ids(f: Seq<simplify::Field>) -> Seq<u32> { Seq::new(f.len(), |i: int| f[i].id) }
pub open spec fn variant_ids(f: Seq<simplify::Variant>) -> Seq<u32> { Seq::new(f.len(), |i: int| f[i].id) }
pub open spec fn all_named(f: Seq<NamedField>, n: int, x: Seq<simplify::Field>) -> bool {
    forall|i: int| #![trigger f[i]] #![trigger x[i]] 0 <= i < n ==> same_named(f[i], x[i].id, x[i])
}
pub open spec fn all_unnamed(f: Seq<UnnamedField>, n: int, x: Seq<simplify::Field>) -> bool {
    forall|i: int| #![trigger f[i]] #![trigger x[i]] 0 <= i < n ==> same_unnamed(f[i], i, x[i].id, x[i])
}
pub open spec fn all_variants(f: Seq<Variant>, n: int, x: Seq<simplify::Variant>) -> bool {
    forall|i: int| #![trigger f[i]] #![trigger x[i]] 0 <= i < n ==> same_variant(f[i], x[i].id, x[i])
}
pub proof fn one_more<A>(s: Seq<A>, n: int) requires 0 < n <= s.len() ensures s.take(n) == s.take(n - 1).push(s[n - 1]) { assert(s.take(n) =~= s.take(n - 1).push(s[n - 1])); }
pub proof fn everything<A>(s: Seq<A>) ensures s.take(s.len() as int) == s { assert(s.take(s.len() as int) =~= s); }

// ---------------------------------------------------------------------------------- references
/// What can stand behind a name: a type with so many parameters, or something that is not a type of its own.
pub enum Kind { Type(nat), Alias, Const }
pub open spec fn arity(g: Option<Generics>) -> nat { match g { Some(g) => g.types.s().len(), None => 0 } }
pub open spec fn declared(d: Definition) -> Option<(Seq<char>, Kind)> {
    match d {
        Definition::Struct(s) => Some((s.name.value@, Kind::Type(arity(s.generics)))),
        Definition::Enum(e) => Some((e.name.value@, Kind::Type(arity(e.generics)))),
        Definition::TypeAlias(a) => Some((a.name.value@, Kind::Alias)),
        Definition::Const(c) => Some((c.name.value@, Kind::Const)),
        _ => None,
    }
}
/// The first definition of the name among the first n.
pub open spec fn decl_upto(d: Seq<Definition>, n: int, name: Seq<char>) -> Option<Kind> decreases n {
    if n <= 0 { None } else {
        match decl_upto(d, n - 1, name) {
            Some(k) => Some(k),
            None => match declared(d[n - 1]) { Some((x, k)) => if x == name { Some(k) } else { None }, None => None },
        }
    }
}
pub open spec fn decl(d: Seq<Definition>, name: Seq<char>) -> Option<Kind> { decl_upto(d, d.len() as int, name) }
/// The last submodule of the name among the first n definitions.
pub open spec fn mod_upto(d: Seq<Definition>, n: int, name: Seq<char>) -> Option<int> decreases n {
    if n <= 0 { None } else if d[n - 1] is Module && d[n - 1]->Module_0.name.value@ == name { Some(n - 1) } else { mod_upto(d, n - 1, name) }
}
pub open spec fn inner<'a>(d: Definition<'a>) -> Seq<Definition<'a>> { d->Module_0.definitions@ }
pub open spec fn submodule<'a>(d: Seq<Definition<'a>>, name: Seq<char>) -> Option<Seq<Definition<'a>>> {
    match mod_upto(d, d.len() as int, name) { Some(i) => Some(inner(d[i])), None => None }
}
/// The definitions of the module at the end of a path's first n parts.
pub open spec fn walk_down<'a>(d: Seq<Definition<'a>>, path: Seq<Seq<char>>, n: int) -> Option<Seq<Definition<'a>>> decreases n {
    if n <= 0 { Some(d) } else {
        match walk_down(d, path, n - 1) { Some(x) => submodule(x, path[n - 1]), None => None }
    }
}
pub open spec fn path_of(e: ExternalType) -> Seq<Seq<char>> { Seq::new(e.path@.len(), |i: int| e.path@[i].0.value@) }
pub open spec fn arguments(e: ExternalType) -> nat { match e.generics { Some(g) => g.s().len(), None => 0 } }
/// The path leads, from a module, to a type with as many parameters as the reference has arguments.
pub open spec fn leads(d: Seq<Definition>, path: Seq<Seq<char>>, e: ExternalType) -> bool {
    match walk_down(d, path, path.len() as int) { Some(x) => decl(x, e.name.value@) == Some(Kind::Type(arguments(e))), None => false }
}
pub open spec fn local_ok(d: Seq<Definition>, e: ExternalType) -> bool { leads(d, path_of(e), e) }
/// The rest of a path whose first part is already resolved.
pub open spec fn beyond(p: Seq<Seq<char>>) -> Seq<Seq<char>> { if p.len() == 0 { p } else { p.skip(1) } }

// imports
pub open spec fn imports_upto<'a>(d: Seq<Definition<'a>>, n: int) -> Seq<Import<'a>> decreases n {
    if n <= 0 { Seq::empty() } else {
        match d[n - 1] { Definition::Import(i) => imports_upto(d, n - 1).push(i), _ => imports_upto(d, n - 1) }
    }
}
pub open spec fn imports_of<'a>(d: Seq<Definition<'a>>) -> Seq<Import<'a>> { imports_upto(d, d.len() as int) }
pub open spec fn segments_of(i: Import) -> Seq<Seq<char>> { Seq::new(i.segments@.len(), |k: int| i.segments@[k].value@) }
/// What an import brings into scope.
pub enum Target<'a> { Module(Seq<char>, Seq<Definition<'a>>), Type(Seq<char>, nat) }
/// An import of something of the schema whose name and definitions are given.
pub open spec fn import_from<'a>(name: Seq<char>, d: Seq<Definition<'a>>, i: Import) -> Option<Target<'a>> {
    let p = beyond(segments_of(i));
    match walk_down(d, p, p.len() as int) {
        Some(x) => match i.element {
            Some((_, n)) => match decl(x, n.value@) { Some(Kind::Type(k)) => Some(Target::Type(n.value@, k)), _ => None },
            None => Some(Target::Module(if p.len() == 0 { name } else { p.last() }, x)),
        },
        None => None,
    }
}
/// All schemas by their names.
pub type World<'a> = Seq<(Seq<char>, Seq<Definition<'a>>)>;
pub open spec fn root_upto(w: World, n: int, name: Seq<char>) -> Option<int> decreases n {
    if n <= 0 { None } else {
        match root_upto(w, n - 1, name) { Some(i) => Some(i), None => if w[n - 1].0 == name { Some(n - 1) } else { None } }
    }
}
pub open spec fn import_target<'a>(w: World<'a>, i: Import) -> Option<Target<'a>> {
    match root_upto(w, w.len() as int, segments_of(i)[0]) { Some(k) => import_from(w[k].0, w[k].1, i), None => None }
}
pub open spec fn imports_ok(w: World, d: Seq<Definition>) -> bool {
    forall|k: int| #![trigger imports_of(d)[k]] 0 <= k < imports_of(d).len() ==> import_target(w, imports_of(d)[k]) is Some
}
pub open spec fn targets<'a>(w: World<'a>, d: Seq<Definition>) -> Seq<Target<'a>> {
    Seq::new(imports_of(d).len(), |k: int| import_target(w, imports_of(d)[k])->0)
}
pub open spec fn type_upto(t: Seq<Target>, n: int, name: Seq<char>) -> Option<nat> decreases n {
    if n <= 0 { None } else {
        match type_upto(t, n - 1, name) {
            Some(k) => Some(k),
            None => match t[n - 1] { Target::Type(x, k) => if x == name { Some(k) } else { None }, _ => None },
        }
    }
}
pub open spec fn module_upto<'a>(t: Seq<Target<'a>>, n: int, name: Seq<char>) -> Option<Seq<Definition<'a>>> decreases n {
    if n <= 0 { None } else {
        match module_upto(t, n - 1, name) {
            Some(k) => Some(k),
            None => match t[n - 1] { Target::Module(x, d) => if x == name { Some(d) } else { None }, _ => None },
        }
    }
}
/// A reference that its own schema does not satisfy is by what is imported.
pub open spec fn remote_ok(t: Seq<Target>, e: ExternalType) -> bool {
    if e.path@.len() == 0 { type_upto(t, t.len() as int, e.name.value@) == Some(arguments(e)) } else {
        match module_upto(t, t.len() as int, path_of(e)[0]) { Some(d) => leads(d, beyond(path_of(e)), e), None => false }
    }
}

// which references there are
pub open spec fn mentions(t: Type, e: ExternalType) -> bool decreases t via mentions_dec {
    match t.value {
        DataType::Vec { ty, .. } => mentions(*ty, e),
        DataType::HashSet { ty, .. } => mentions(*ty, e),
        DataType::Option { ty, .. } => mentions(*ty, e),
        DataType::NonZero { ty, .. } => mentions(*ty, e),
        DataType::Array { ty, .. } => mentions(*ty, e),
        DataType::HashMap { key, value, .. } => mentions(*key, e) || mentions(*value, e),
        DataType::Tuple { types, .. } => exists|i: int| #![trigger types.s()[i]] 0 <= i < types.s().len() && mentions(types.s()[i], e),
        DataType::External(x) => x == e || match x.generics {
            Some(g) => exists|i: int| #![trigger g.s()[i]] 0 <= i < g.s().len() && mentions(g.s()[i], e),
            None => false,
        },
        _ => false,
    }
}
#[via_fn]
proof fn mentions_dec(t: Type, e: ExternalType) {
    match t.value {
        DataType::Tuple { types, .. } => {
            assert forall|i: int| 0 <= i < types.s().len() implies decreases_to!(t => #[trigger] types.s()[i]) by { smaller(types, i); }
        }
        DataType::External(e) => {
            if let Some(g) = e.generics {
                assert forall|i: int| 0 <= i < g.s().len() implies decreases_to!(t => #[trigger] g.s()[i]) by { smaller(g, i); }
            }
        }
        _ => {}
    }
}
pub open spec fn fields_mention(f: Fields, e: ExternalType) -> bool {
    match f {
        Fields::Named(_, n) => exists|i: int| #![trigger n.s()[i]] 0 <= i < n.s().len() && mentions(n.s()[i].ty, e),
        Fields::Unnamed(_, n) => exists|i: int| #![trigger n.s()[i]] 0 <= i < n.s().len() && mentions(n.s()[i].ty, e),
        Fields::Unit => false,
    }
}
pub open spec fn variants_mention(v: Seq<Variant>, n: int, e: ExternalType) -> bool {
    exists|i: int| #![trigger v[i]] 0 <= i < n && fields_mention(v[i].fields, e)
}
pub open spec fn names_of(g: Option<&Generics>) -> Seq<Seq<char>> { match g { Some(g) => generic_names(g.types.s()), None => Seq::empty() } }
pub open spec fn in_scope(p: Seq<Seq<char>>, e: ExternalType) -> bool { e.path@.len() == 0 && e.generics is None && p.contains(e.name.value@) }
/// Neither a type parameter nor found in the module.
pub open spec fn open_in(e: ExternalType, p: Seq<Seq<char>>, d: Seq<Definition>) -> bool { !in_scope(p, e) && !local_ok(d, e) }
/// A definition of the module with definitions `d` has the reference in it, and it is found neither in scope nor in the module.
pub open spec fn open_here(x: Definition, d: Seq<Definition>, e: ExternalType) -> bool {
    match x {
        Definition::Struct(s) => fields_mention(s.fields, e) && open_in(e, parameters(s.generics), d),
        Definition::Enum(n) => variants_mention(n.variants.s(), n.variants.s().len() as int, e) && open_in(e, parameters(n.generics), d),
        Definition::TypeAlias(a) => mentions(a.target, e) && open_in(e, parameters(a.generics), d),
        _ => false,
    }
}
/// The same, in the i-th definition or anywhere below.
pub open spec fn open_below(d: Seq<Definition>, i: int, e: ExternalType) -> bool decreases d, 0nat via open_dec {
    0 <= i < d.len() && match d[i] {
        Definition::Module(m) => mod_upto(d, d.len() as int, m.name.value@) == Some(i) && open_tree(m.definitions@, e),
        _ => open_here(d[i], d, e),
    }
}
#[via_fn]
proof fn open_dec(d: Seq<Definition>, i: int, e: ExternalType) { if 0 <= i < d.len() { assert(decreases_to!(d => d[i])); } }
pub open spec fn open_tree(d: Seq<Definition>, e: ExternalType) -> bool decreases d, 1nat {
    exists|i: int| #![trigger d[i]] 0 <= i < d.len() && open_below(d, i, e)
}
pub open spec fn schema_resolves(w: World, d: Seq<Definition>) -> bool {
    imports_ok(w, d) && forall|e: ExternalType| #![trigger open_tree(d, e)] open_tree(d, e) ==> remote_ok(targets(w, d), e)
}
/// Every import has a schema to start from (the parser does not produce others).
pub open spec fn rooted(d: Seq<Definition>) -> bool {
    forall|k: int| #![trigger imports_of(d)[k]] 0 <= k < imports_of(d).len() ==> imports_of(d)[k].segments@.len() > 0
}

// the symbol tables of the resolver
pub open spec fn kind_of(d: resolve::Declaration) -> Kind {
    match d.kind {
        resolve::DeclarationKind::Struct { generics } => Kind::Type(generics as nat),
        resolve::DeclarationKind::Enum { generics } => Kind::Type(generics as nat),
        resolve::DeclarationKind::Alias => Kind::Alias,
        resolve::DeclarationKind::Const => Kind::Const,
    }
}
pub open spec fn listed(t: Seq<&resolve::Declaration>, n: int, name: Seq<char>) -> Option<Kind> decreases n {
    if n <= 0 { None } else {
        match listed(t, n - 1, name) { Some(k) => Some(k), None => if t[n - 1].name.value@ == name { Some(kind_of(*t[n - 1])) } else { None } }
    }
}
pub proof fn listed_prefix(a: Seq<&resolve::Declaration>, b: Seq<&resolve::Declaration>, n: int, name: Seq<char>)
    requires 0 <= n <= a.len(), n <= b.len(), forall|i: int| #![trigger a[i]] 0 <= i < n ==> a[i] == b[i]
    ensures listed(a, n, name) == listed(b, n, name)
    decreases n
{
    if n > 0 { listed_prefix(a, b, n - 1, name); assert(a[n - 1] == b[n - 1]); }
}
pub broadcast proof fn listed_push(a: Seq<resolve::Declaration>, x: resolve::Declaration, name: Seq<char>)
    ensures #[trigger] listed(refs(a.push(x)), a.len() + 1int, name) == match listed(refs(a), a.len() as int, name) {
        Some(k) => Some(k), None => if x.name.value@ == name { Some(kind_of(x)) } else { None } }
{
    listed_prefix(refs(a.push(x)), refs(a), a.len() as int, name);
    assert(refs(a.push(x))[a.len() as int] == &x);
}
pub proof fn listed_mono(a: Seq<&resolve::Declaration>, n: int, m: int, name: Seq<char>)
    requires 0 <= n <= m, listed(a, n, name) is Some
    ensures listed(a, m, name) == listed(a, n, name)
    decreases m - n
{ if n < m { listed_mono(a, n, m - 1, name); } }
pub proof fn root_mono(w: World, n: int, m: int, name: Seq<char>)
    requires 0 <= n <= m, root_upto(w, n, name) is Some
    ensures root_upto(w, m, name) == root_upto(w, n, name)
    decreases m - n
{ if n < m { root_mono(w, n, m - 1, name); } }
pub proof fn type_mono(t: Seq<Target>, n: int, m: int, name: Seq<char>)
    requires 0 <= n <= m, type_upto(t, n, name) is Some
    ensures type_upto(t, m, name) == type_upto(t, n, name)
    decreases m - n
{ if n < m { type_mono(t, n, m - 1, name); } }
pub proof fn module_mono(t: Seq<Target>, n: int, m: int, name: Seq<char>)
    requires 0 <= n <= m, module_upto(t, n, name) is Some
    ensures module_upto(t, m, name) == module_upto(t, n, name)
    decreases m - n
{ if n < m { module_mono(t, n, m - 1, name); } }
/// A part that does not exist ends the walk.
pub proof fn lost_way(d: Seq<Definition>, path: Seq<Seq<char>>, n: int, m: int)
    requires 0 <= n <= m, walk_down(d, path, n) is None
    ensures walk_down(d, path, m) is None
    decreases m - n
{ if n < m { lost_way(d, path, n, m - 1); } }
pub proof fn mod_upto_is(d: Seq<Definition>, n: int, name: Seq<char>)
    requires 0 <= n <= d.len(), mod_upto(d, n, name) is Some
    ensures ({ let i = mod_upto(d, n, name)->0; 0 <= i < n && d[i] is Module && d[i]->Module_0.name.value@ == name })
    decreases n
{ if !(d[n - 1] is Module && d[n - 1]->Module_0.name.value@ == name) { mod_upto_is(d, n - 1, name); } }
/// The entry of a submodule stands for the definition it was made from.
pub open spec fn child(m: resolve::Module, n: int, name: Seq<char>) -> bool {
    let d = m.definitions@;
    let c = m.modules.m()[name];
    mod_upto(d, n, name) matches Some(i) && 0 <= i < d.len() && d[i] is Module && c.definitions@ == inner(d[i]) && c.name@ == name
}
/// The tables hold what the first n definitions say.
pub open spec fn tables(m: resolve::Module, n: int) -> bool {
    let d = m.definitions@;
    &&& forall|name: Seq<char>| #![trigger decl_upto(d, n, name)] #![trigger listed(refs(m.types@), m.types@.len() as int, name)]
            listed(refs(m.types@), m.types@.len() as int, name) == decl_upto(d, n, name)
    &&& m.imports@ =~= refs(imports_upto(d, n))
    &&& forall|name: Seq<char>| #![trigger m.modules.m().dom().contains(name)] #![trigger mod_upto(d, n, name)]
            m.modules.m().dom().contains(name) <==> mod_upto(d, n, name) is Some
}
pub open spec fn built(m: resolve::Module) -> bool decreases m.definitions@ via built_dec {
    &&& tables(m, m.definitions@.len() as int)
    &&& forall|name: Seq<char>| #![trigger m.modules.m().dom().contains(name)] m.modules.m().dom().contains(name) ==>
            child(m, m.definitions@.len() as int, name) && built(m.modules.m()[name])
}
#[via_fn]
proof fn built_dec(m: resolve::Module) {
    let d = m.definitions@;
    assert forall|i: int| 0 <= i < d.len() && d[i] is Module implies decreases_to!(d => inner(#[trigger] d[i])) by { assert(decreases_to!(d => d[i])); }
}
pub open spec fn has(v: Seq<resolve::LocallyMissingType>, e: ExternalType) -> bool { exists|i: int| #![trigger v[i]] 0 <= i < v.len() && *v[i].external == e }
pub open spec fn target_of<'a>(r: resolve::ResolvedImport<'a>) -> Target<'a> {
    match r {
        resolve::ResolvedImport::Module(m) => Target::Module(m.name@, m.definitions@),
        resolve::ResolvedImport::Type { name, generics, .. } => Target::Type(name.value@, generics as nat),
    }
}
pub open spec fn sound(r: resolve::ResolvedImport) -> bool { r matches resolve::ResolvedImport::Module(m) ==> built(*m) }
pub open spec fn targets_of<'a>(r: Seq<resolve::ResolvedImport<'a>>) -> Seq<Target<'a>> { Seq::new(r.len(), |i: int| target_of(r[i])) }
pub open spec fn world_of<'a>(s: Seq<(&str, resolve::Module<'a>)>) -> World<'a> { Seq::new(s.len(), |i: int| (s[i].0@, s[i].1.definitions@)) }
pub open spec fn all_built(s: Seq<(&str, resolve::Module)>) -> bool {
    forall|i: int| #![trigger s[i]] 0 <= i < s.len() ==> built(s[i].1) && s[i].1.name@ == s[i].0@
}
pub open spec fn schemas_world<'a>(s: Seq<(&str, &Schema<'a>)>) -> World<'a> { Seq::new(s.len(), |i: int| (s[i].0@, s[i].1.definitions@)) }
impl<'a> Clone__ for Name<'a> { #[verifier::external_body] fn clone__(&self) -> (res: Name<'a>) { unimplemented!() } }
pub broadcast proof fn has_push(v: Seq<resolve::LocallyMissingType>, x: resolve::LocallyMissingType, e: ExternalType)
    ensures #[trigger] has(v.push(x), e) <==> has(v, e) || *x.external == e
{
    if has(v, e) { let i = choose|i: int| #![trigger v[i]] 0 <= i < v.len() && *v[i].external == e; assert(v.push(x)[i] == v[i]); }
    if *x.external == e { assert(v.push(x)[v.len() as int] == x); }
    if has(v.push(x), e) { let i = choose|i: int| #![trigger v.push(x)[i]] 0 <= i < v.push(x).len() && *v.push(x)[i].external == e; if i < v.len() { assert(v[i] == v.push(x)[i]); } }
}
/// Open references of the first n definitions, submodules aside.
pub open spec fn open_upto(d: Seq<Definition>, n: int, e: ExternalType) -> bool { exists|i: int| #![trigger d[i]] 0 <= i < n && open_here(d[i], d, e) }
/// Open references of the first n of these modules.
pub open spec fn open_values(m: Seq<&resolve::Module>, n: int, e: ExternalType) -> bool { exists|i: int| #![trigger m[i]] 0 <= i < n && open_tree(m[i].definitions@, e) }
pub open spec fn values_of(m: resolve::Module, v: Seq<&resolve::Module>) -> bool {
    &&& forall|i: int| #![trigger v[i]] 0 <= i < v.len() ==> exists|k: Seq<char>| #![trigger m.modules.m()[k]] m.modules.m().dom().contains(k) && m.modules.m()[k] == *v[i]
    &&& forall|k: Seq<char>| #![trigger m.modules.m()[k]] m.modules.m().dom().contains(k) ==> exists|i: int| #![trigger v[i]] 0 <= i < v.len() && m.modules.m()[k] == *v[i]
}
pub proof fn values_built(m: resolve::Module, v: Seq<&resolve::Module>, i: int)
    requires built(m), values_of(m, v), 0 <= i < v.len()
    ensures built(*v[i]), decreases_to!(m.definitions@ => v[i].definitions@)
{
    let k = choose|k: Seq<char>| #![trigger m.modules.m()[k]] m.modules.m().dom().contains(k) && m.modules.m()[k] == *v[i];
    assert(child(m, m.definitions@.len() as int, k));
    let j = mod_upto(m.definitions@, m.definitions@.len() as int, k)->0;
    assert(decreases_to!(m.definitions@ => m.definitions@[j]));
}
pub proof fn open_split(m: resolve::Module, v: Seq<&resolve::Module>, e: ExternalType)
    requires built(m), values_of(m, v)
    ensures open_tree(m.definitions@, e) == (open_upto(m.definitions@, m.definitions@.len() as int, e) || open_values(v, v.len() as int, e))
{
    let d = m.definitions@;
    let n = d.len() as int;
    if open_tree(d, e) {
        let i = choose|i: int| #![trigger d[i]] 0 <= i < d.len() && open_below(d, i, e);
        match d[i] {
            Definition::Module(x) => {
                let k = x.name.value@;
                assert(m.modules.m().dom().contains(k));
                assert(child(m, n, k));
                let j = choose|j: int| #![trigger v[j]] 0 <= j < v.len() && m.modules.m()[k] == *v[j];
                assert(open_tree(v[j].definitions@, e));
            }
            _ => { assert(open_here(d[i], d, e)); }
        }
    }
    if open_upto(d, n, e) {
        let i = choose|i: int| #![trigger d[i]] 0 <= i < n && open_here(d[i], d, e);
        assert(open_below(d, i, e));
    }
    if open_values(v, v.len() as int, e) {
        let j = choose|j: int| #![trigger v[j]] 0 <= j < v.len() && open_tree(v[j].definitions@, e);
        let k = choose|k: Seq<char>| #![trigger m.modules.m()[k]] m.modules.m().dom().contains(k) && m.modules.m()[k] == *v[j];
        assert(child(m, n, k));
        let i = mod_upto(d, n, k)->0;
        mod_upto_is(d, n, k);
        assert(open_below(d, i, e));
    }
}
pub open spec fn enum_open(x: Definition, n: int, d: Seq<Definition>, e: ExternalType) -> bool {
    x is Enum && variants_mention(x->Enum_0.variants.s(), n, e) && open_in(e, parameters(x->Enum_0.generics), d)
}

pub open spec fn found_root(s: Seq<(&str, resolve::Module)>, name: Seq<char>, r: Option<&resolve::Module>) -> bool {
    r matches Some(m) && root_upto(world_of(s), s.len() as int, name) matches Some(k) && 0 <= k < s.len() && *m == s[k].1
}
pub open spec fn found_module(t: Seq<Target>, name: Seq<char>, r: Option<&&resolve::Module>) -> bool {
    r matches Some(m) && built(**m) && module_upto(t, t.len() as int, name) == Some(m.definitions@)
}
pub open spec fn found_type<A, B>(t: Seq<Target>, name: Seq<char>, r: Option<(A, B, usize)>) -> bool {
    r matches Some(m) && type_upto(t, t.len() as int, name) == Some(m.2 as nat)
}
