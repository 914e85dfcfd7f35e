//! P16 to P21: acceptance and lowering of schemas, run on the real parser and compiler with
//! generated schema texts and compared with the statements in `oracle.rs`.
use mabo_compiler::{resolve_schemas, simplify_schema, validate::{Error, InvalidGenericType}, validate_schema};
use mabo_parser::Schema;

use crate::{
    model::{self, Def, Fields, Gen, Shape},
    nd::{assume, below, note_value},
    oracle,
};

fn shape() -> Shape {
    Shape {
        clash: false, numbers: 1, tuples: false, unused: false, off: 0, refs: vec![], imports: vec![], defs: 3, depth: 2,
        other: vec![(vec![], "Other".into(), 1), (vec!["x".into()], "Pair".into(), 2)],
    }
}

/// A schema with the given peculiarities, possibly along with some of the others.
fn schema_text(mut s: Shape) -> String {
    s.refs = s.other.clone();
    if below(3) == 0 {
        s.numbers = [1, 2][below(2)];
        s.clash |= below(4) == 0;
        s.tuples |= below(4) == 0;
        s.unused |= below(4) == 0;
    }
    s.defs = 1 + below(4);
    let mut g = Gen::new(s);
    let defs = g.defs(2);
    model::text(&defs)
}

fn with<R>(text: &str, f: impl FnOnce(&Schema<'_>, Vec<Def>) -> R) -> R {
    note_value("schema", &text);
    let Ok(schema) = Schema::parse(text, None) else {
        assume(false);
        unreachable!()
    };
    let defs = model::parsed(&schema.definitions);
    f(&schema, defs)
}

fn check(text: &str, fine: fn(&[Def]) -> bool, class: fn(&Error) -> bool, what: &str) {
    with(text, |schema, defs| {
        let res = validate_schema(schema);
        if fine(&defs) {
            if let Err(e) = &res {
                assert!(!class(e), "{what}: refused without reason: {e:?}");
            }
        } else {
            assert!(res.is_err(), "{what}: accepted");
            // Nothing else is wrong: it is refused for this reason.
            let others = [oracle::numbers_fine, oracle::names_fine, oracle::params_used, oracle::tuples_fine]
                .into_iter().filter(|f| !f(&defs)).count();
            if others == 1 {
                assert!(class(&res.unwrap_err()), "{what}: refused for another reason");
            }
        }
    });
}

// ---- P16 ----

fn ids(e: &Error) -> bool {
    matches!(e, Error::DuplicateId(_))
}

fn p16__validate_schema__numbers__sampled() {
    check(&schema_text(Shape { numbers: 2, ..shape() }), oracle::numbers_fine, ids, "numbers");
}

/// Every sequence of up to five omitted or explicit numbers up to six, in every place.
fn sequences(mut f: impl FnMut(&[Option<u32>])) {
    for len in 1..=5u32 {
        for k in 0..7u32.pow(len) {
            let v = (0..len).map(|i| (k / 7u32.pow(i) % 7).checked_sub(1)).collect::<Vec<_>>();
            f(&v);
        }
    }
    // The same at the limits of the numbers.
    let limits = [None, Some(1), Some((1 << 29) - 2), Some((1 << 29) - 1), Some(1 << 29), Some((1 << 30) + 1), Some(u32::MAX - 1), Some(u32::MAX)];
    for len in 1..=4u32 {
        for k in 0..8usize.pow(len) {
            f(&(0..len).map(|i| limits[k / 8usize.pow(i) % 8]).collect::<Vec<_>>());
        }
    }
}

fn place(kind: usize, v: &[Option<u32>]) -> String {
    let n = |i: usize| v[i].map_or(String::new(), |n| format!(" @{n}"));
    let list = |item: &dyn Fn(usize) -> String| (0..v.len()).map(item).collect::<Vec<_>>().join(", ");
    match kind {
        0 => format!("struct A {{ {} }}", list(&|i| format!("f{i}: u8{}", n(i)))),
        1 => format!("struct A({})", list(&|i| format!("u8{}", n(i)))),
        2 => format!("enum A {{ {} }}", list(&|i| format!("V{i}{}", n(i)))),
        3 => format!("enum A {{ X, Y({}) }}", list(&|i| format!("u8{}", n(i)))),
        4 => format!("mod m {{ enum A {{ X {{ {} }} }} }}", list(&|i| format!("f{i}: u8{}", n(i)))),
        _ => format!("enum A {{ {} }}", list(&|i| format!("V{i}(u8){}", n(i)))),
    }
}

fn enumerated(kind: usize) {
    sequences(|v| {
        let text = place(kind, v);
        let schema = Schema::parse(&text, None).expect("valid syntax");
        let defs = model::parsed(&schema.definitions);
        let fine = oracle::numbers_fine(&defs);
        match validate_schema(&schema) {
            Ok(()) => {
                assert!(fine, "accepted in spite of equal or impossible numbers: {text}");
                let low = simplify_schema(&schema);
                assert!(model::lowered(&low.definitions) == oracle::numbered(&defs), "numbers after lowering: {text}");
            }
            Err(e) => assert!(!fine, "refused: {text}: {e:?}"),
        }
    });
}

fn p16__numbers__named_fields__once() { enumerated(0) }
fn p16__numbers__unnamed_fields__once() { enumerated(1) }
fn p16__numbers__variants__once() { enumerated(2) }
fn p16__numbers__variant_unnamed_fields__once() { enumerated(3) }
fn p16__numbers__variant_named_fields__once() { enumerated(4) }
fn p16__numbers__variants_with_fields__once() { enumerated(5) }

/// What is accepted keeps its numbers in the lowered form.
fn p16__simplify_schema__numbers__sampled() {
    with(&schema_text(Shape { numbers: 2, ..shape() }), |schema, defs| {
        assume(validate_schema(schema).is_ok());
        let low = model::lowered(&simplify_schema(schema).definitions);
        fn all_numbers(defs: &[Def]) -> Vec<Vec<Option<u32>>> {
            oracle::all(defs).into_iter().flat_map(|d| match d {
                Def::Struct(_, _, _, f) => vec![oracle::numbers_of(f)],
                Def::Enum(_, _, _, vs) => {
                    let mut v = vec![vs.iter().map(|v| v.number).collect()];
                    v.extend(vs.iter().map(|v| oracle::numbers_of(&v.fields)));
                    v
                }
                _ => vec![],
            }).collect()
        }
        assert_eq!(all_numbers(&low), all_numbers(&oracle::numbered(&defs)), "numbers after lowering");
    });
}

// ---- P17 ----

fn names(e: &Error) -> bool {
    matches!(e, Error::DuplicateName(_) | Error::InvalidGeneric(InvalidGenericType::Duplicate(_)))
}

fn p17__validate_schema__names__sampled() {
    check(&schema_text(Shape { clash: true, ..shape() }), oracle::names_fine, names, "names");
}

/// A schema without clashes, into which a single one is put.
fn p17__validate_schema__single_clash__sampled() {
    let mut s = shape();
    s.refs = s.other.clone();
    s.defs = 3;
    let mut defs = Gen::new(s).defs(2);
    fn clash(defs: &mut Vec<Def>) {
        if defs.is_empty() {
            return;
        }
        let i = below(defs.len());
        let other = defs[below(defs.len())].name().to_owned();
        let dup = |v: &mut Vec<String>| if v.len() > 1 {
            let (a, b) = (below(v.len()), below(v.len()));
            v[a] = v[b].clone();
        };
        let names = |f: &mut Fields| if let Fields::Named(v) = f {
            let (a, b) = (below(v.len()), below(v.len()));
            v[a].1 = v[b].1.clone();
        };
        let rename = below(3) == 0;
        match &mut defs[i] {
            Def::Mod(_, n, inner) => if rename { *n = other } else { clash(inner) },
            Def::Struct(_, n, g, f) => match below(2) {
                _ if rename => *n = other,
                0 => dup(g),
                _ => names(f),
            },
            Def::Enum(_, n, g, vs) => match below(3) {
                _ if rename => *n = other,
                0 => dup(g),
                1 => {
                    let (a, b) = (below(vs.len()), below(vs.len()));
                    vs[a].name = vs[b].name.clone();
                }
                _ => {
                    let a = below(vs.len());
                    names(&mut vs[a].fields);
                }
            },
            Def::Alias(_, n, g, _) => if rename { *n = other } else { dup(g) },
            Def::Const(_, n, ..) => *n = other,
            Def::Import(segs, el) => match el {
                Some(el) => *el = other,
                None => *segs.last_mut().unwrap() = other,
            },
        }
    }
    clash(&mut defs);
    check(&model::text(&defs), oracle::names_fine, names, "names");
}

// ---- P18 ----

fn unused(e: &Error) -> bool {
    matches!(e, Error::InvalidGeneric(InvalidGenericType::Unused(_)))
}

fn p18__validate_schema__parameters__sampled() {
    check(&schema_text(Shape { unused: true, ..shape() }), oracle::params_used, unused, "type parameters");
}

// ---- P19 ----

fn tuples(e: &Error) -> bool {
    matches!(e, Error::TupleSize(_))
}

fn p19__validate_schema__tuples__sampled() {
    check(&schema_text(Shape { tuples: true, ..shape() }), oracle::tuples_fine, tuples, "tuples");
}

/// A tuple of each size, within each pair of other types, in each place.
fn p19__tuples__nested__once() {
    let wrap = |k: usize, t: String| match k {
        0 => t,
        1 => format!("vec<{t}>"),
        2 => format!("hash_map<{t}, u8>"),
        3 => format!("hash_map<u8, {t}>"),
        4 => format!("hash_set<{t}>"),
        5 => format!("option<{t}>"),
        6 => format!("non_zero<{t}>"),
        7 => format!("[{t}; 3]"),
        8 => format!("({t}, u8)"),
        9 => format!("(u8, {t})"),
        10 => format!("a::Gen<{t}>"),
        _ => format!("Gen<u8, {t}>"),
    };
    for n in 1..=15 {
        for a in 0..12 {
            for b in 0..12 {
                for at in 0..8 {
                    let t = wrap(a, wrap(b, format!("({})", vec!["u8"; n].join(", "))));
                    let text = match at {
                        0 => format!("struct S {{ a: u8, b: {t} }}"),
                        1 => format!("struct S(u8, {t})"),
                        2 => format!("enum S {{ A, B(u8, {t}) }}"),
                        3 => format!("enum S {{ A, B {{ a: u8, b: {t} }}, C }}"),
                        4 => format!("type S = {t};"),
                        5 => format!("const S: {t} = 1;"),
                        6 => format!("mod a {{ mod b {{ struct S {{ b: {t} }} }} }}"),
                        _ => format!("mod a {{ type S = {t}; }}"),
                    };
                    let schema = Schema::parse(&text, None).expect("valid syntax");
                    match validate_schema(&schema) {
                        Ok(()) => assert!((2..=12).contains(&n), "accepted: {text}"),
                        Err(e) => assert!(!(2..=12).contains(&n) && tuples(&e), "refused: {text}: {e:?}"),
                    }
                }
            }
        }
    }
}

/// A use of a parameter within each pair of other types, in each place.
fn p18__parameters__nested__once() {
    let wrap = |k: usize, t: String| match k {
        0 => t,
        1 => format!("vec<{t}>"),
        2 => format!("hash_map<{t}, u8>"),
        3 => format!("hash_map<u8, {t}>"),
        4 => format!("hash_set<{t}>"),
        5 => format!("option<{t}>"),
        6 => format!("non_zero<{t}>"),
        7 => format!("[{t}; 3]"),
        8 => format!("({t}, u8)"),
        9 => format!("(u8, {t})"),
        10 => format!("a::Gen<{t}>"),
        _ => format!("Gen<u8, {t}>"),
    };
    for p in ["T", "U", "a::T", "T<u8>", "a::T<T>"] {
        for a in 0..12 {
            for b in 0..12 {
                for at in 0..6 {
                    let t = wrap(a, wrap(b, p.to_owned()));
                    let used = p == "T" || p == "a::T<T>";
                    let text = match at {
                        0 => format!("struct S<T> {{ a: u8, b: {t} }}"),
                        1 => format!("struct S<T>(u8, {t})"),
                        2 => format!("enum S<T> {{ A, B(u8, {t}) }}"),
                        3 => format!("enum S<T> {{ A, B {{ a: u8, b: {t} }}, C }}"),
                        4 => format!("type S<T> = {t};"),
                        _ => format!("mod a {{ mod b {{ struct S<T> {{ b: {t} }} }} }}"),
                    };
                    let schema = Schema::parse(&text, None).expect("valid syntax");
                    match validate_schema(&schema) {
                        Ok(()) => assert!(used, "accepted: {text}"),
                        Err(e) => assert!(!used && unused(&e), "refused: {text}: {e:?}"),
                    }
                }
            }
        }
    }
}

// ---- P20 ----

/// (path, name, parameters) of all structs and enums below.
fn definitions(defs: &[Def], path: &[String], out: &mut Vec<(Vec<String>, String, usize)>) {
    for d in defs {
        match d {
            Def::Struct(_, n, g, _) | Def::Enum(_, n, g, _) => out.push((path.to_vec(), n.clone(), g.len())),
            Def::Mod(_, n, inner) => definitions(inner, &[path, std::slice::from_ref(n)].concat(), out),
            _ => {}
        }
    }
}

fn modules(defs: &[Def], path: &[String], out: &mut Vec<Vec<String>>) {
    out.push(path.to_vec());
    for d in defs {
        if let Def::Mod(_, n, inner) = d {
            modules(inner, &[path, std::slice::from_ref(n)].concat(), out);
        }
    }
}

fn fill(defs: &mut [Def], imported: &[(Vec<String>, String, usize)], off: usize) {
    let mut refs = vec![];
    definitions(defs, &[], &mut refs);
    refs.extend_from_slice(imported);
    let mut g = Gen::new(Shape { off, refs, ..shape() });
    let mut fields = |f: &mut Fields, params: &[String]| match f {
        Fields::Named(v) => v.iter_mut().for_each(|f| f.2 = g.ty(2, params)),
        Fields::Unnamed(v) => v.iter_mut().for_each(|f| f.0 = g.ty(2, params)),
        Fields::Unit => {}
    };
    for d in &mut *defs {
        match d {
            Def::Struct(_, _, p, f) => fields(f, p),
            Def::Enum(_, _, p, vs) => vs.iter_mut().for_each(|v| fields(&mut v.fields, p)),
            Def::Alias(_, _, p, ty) => {
                let mut f = Fields::Unnamed(vec![(ty.clone(), None)]);
                fields(&mut f, p);
                if let Fields::Unnamed(mut v) = f { *ty = v.remove(0).0 }
            }
            _ => {}
        }
    }
    for d in defs {
        if let Def::Mod(_, _, inner) = d {
            fill(inner, imported, off);
        }
    }
}

fn p20__resolve_schemas__references__sampled() {
    let n = 1 + below(3);
    let off = [0, 0, 40, 16][below(4)];
    let mut all = (0..n).map(|i| {
        // Names of modules and definitions are alike in all schemas.
        let mut g = Gen::new(Shape { clash: true, defs: 4, depth: 0, ..shape() });
        let mut defs = g.defs(2);
        fn clean(defs: &mut Vec<Def>) {
            let mut seen = std::collections::HashSet::new();
            defs.retain(|d| !matches!(d, Def::Import(..)) && seen.insert(d.name().to_owned()));
            for d in defs {
                match d {
                    Def::Mod(_, _, inner) => clean(inner),
                    Def::Struct(_, _, g, _) | Def::Enum(_, _, g, _) | Def::Alias(_, _, g, _) => g.dedup(),
                    _ => {}
                }
            }
        }
        clean(&mut defs);
        (["one", "two", "a"][i].to_owned(), defs)
    }).collect::<Vec<_>>();
    let before = all.clone();
    for (_, defs) in &mut all {
        let mut imports = vec![];
        for _ in 0..below(4) {
            let (name, other) = &before[below(n)];
            if below(2) == 0 {
                let mut m = vec![];
                modules(other, &[], &mut m);
                let path = m[below(m.len())].clone();
                imports.push(([vec![name.clone()], path].concat(), None));
            } else {
                let mut d = vec![];
                definitions(other, &[], &mut d);
                if !d.is_empty() {
                    let (path, n, _) = d[below(d.len())].clone();
                    imports.push(([vec![name.clone()], path].concat(), Some(n)));
                }
            }
            if off > 0 && below(off) == 0 && let Some((path, el)) = imports.last_mut() {
                match below(3) {
                    0 => path.push("b".to_owned()),
                    1 => path[0] = "missing".to_owned(),
                    _ => *el = Some("A".to_owned()),
                }
            }
        }
        let imports = imports.into_iter().map(|(s, e)| Def::Import(s, e)).collect::<Vec<_>>();
        let mut imported = vec![];
        for i in imports {
            if defs.iter().any(|d| d.name() == i.name()) {
                continue;
            }
            let Def::Import(segs, el) = &i else { unreachable!() };
            if let Some((_, other)) = before.iter().find(|s| s.0 == segs[0]) {
                let mut d = vec![];
                definitions(other, &[], &mut d);
                for (path, name, n) in d {
                    let Some(rest) = path.strip_prefix(&segs[1..]) else { continue };
                    match el {
                        Some(e) if *e == name && rest.is_empty() => imported.push((vec![], name, n)),
                        None => imported.push(([&segs[segs.len() - 1..], rest].concat(), name, n)),
                        _ => {}
                    }
                }
            }
            let at = below(defs.len() + 1);
            defs.insert(at, i);
        }
        fill(defs, &imported, off);
    }
    if below(40) == 0 {
        // Many others in front.
        let fields = || model::Fields::Unnamed(vec![(model::Ty::Basic("u8"), None)]);
        let others = (0..[10, 21, 40, 300][below(4)]).map(|i| (format!("x{i}"), vec![Def::Struct(vec![], "Y".to_owned(), vec![], fields())]));
        all = others.chain(all).collect();
    }
    let texts = all.iter().map(|(n, d)| (n.clone(), model::text(d))).collect::<Vec<_>>();
    note_value("schemas", &texts);
    let Ok(parsed) = texts.iter().map(|(n, t)| Schema::parse(t, None).map(|s| (&n[..], s))).collect::<Result<Vec<_>, _>>() else {
        assume(false);
        unreachable!()
    };
    let read = parsed.iter().map(|(n, s)| ((*n).to_owned(), model::parsed(&s.definitions))).collect::<Vec<_>>();
    let res = resolve_schemas(&parsed.iter().map(|(n, s)| (*n, s)).collect::<Vec<_>>());
    match res {
        Ok(()) => assert!(oracle::references_fine(&read), "accepted in spite of a reference that does not resolve"),
        Err(e) => assert!(!oracle::references_fine(&read), "refused: {e:?}"),
    }
}

/// A local and an imported reference within each pair of other types, in each place.
fn p20__references__nested__once() {
    let wrap = |k: usize, t: String| match k {
        0 => t,
        1 => format!("vec<{t}>"),
        2 => format!("hash_map<{t}, u8>"),
        3 => format!("hash_map<u8, {t}>"),
        4 => format!("hash_set<{t}>"),
        5 => format!("option<{t}>"),
        6 => format!("non_zero<{t}>"),
        7 => format!("[{t}; 3]"),
        8 => format!("({t}, u8)"),
        9 => format!("(u8, {t})"),
        10 => format!("Gen<{t}, u8>"),
        _ => format!("Gen<u8, {t}>"),
    };
    let other = "struct X mod m { struct Y<T>(T) mod n { enum Z { A } } type Alias = u8; }";
    let other = Schema::parse(other, None).unwrap();
    for (t, fine) in [
        ("L", true), ("K", false), ("L<u8>", false), ("in1::L", false), ("in1::M", true), ("in1::in2::N<u8>", true), ("in1::in2::N", false),
        ("in2::N<u8>", false), ("X", true), ("X<u8>", false), ("Y", false), ("Y<u8>", false), ("m::Y<u8>", true), ("m::Y", false), ("m::n::Z", true),
        ("n::Z", false), ("m::n::Y<u8>", false), ("m::m::Y<u8>", false), ("other::X", false), ("m::Alias", false), ("m::X", false), ("Gen<u8, u8>", true), ("Al", false),
        ("CO", false),
    ] {
        for a in 0..12 {
            for b in 0..12 {
                for at in 0..5 {
                    let t = wrap(a, wrap(b, t.to_owned()));
                    let place = match at {
                        0 => format!("struct S {{ a: u8, b: {t} }}"),
                        1 => format!("struct S(u8, {t})"),
                        2 => format!("enum S {{ A, B(u8, {t}) }}"),
                        3 => format!("enum S {{ A, B {{ a: u8, b: {t} }}, C }}"),
                        _ => format!("type S = {t};"),
                    };
                    let text = format!("use other::m; use other::X; struct L struct Gen<A, B>(A, B) {place} type Al = u8; const CO: u8 = 1; mod in1 {{ struct M mod in2 {{ struct N<T>(T) }} }}");
                    let schema = Schema::parse(&text, None).expect("valid syntax");
                    match resolve_schemas(&[("this", &schema), ("other", &other)]) {
                        Ok(()) => assert!(fine, "accepted: {text}"),
                        Err(e) => assert!(!fine, "refused: {text}: {e:?}"),
                    }
                }
            }
        }
    }
}

// ---- P21 ----

fn p21__simplify_schema__same__sampled() {
    let mut s = shape();
    s.clash = below(3) == 0;
    s.tuples = below(3) == 0;
    s.depth = 3;
    with(&schema_text(s), |schema, defs| {
        let all = oracle::all(&defs);
        // Numbers that cannot be derived are refused (P16).
        assume(all.len() < 1000 && numbers_in_range(&all));
        let low = simplify_schema(schema);
        assert!(std::ptr::eq(low.source, schema), "source");
        let got = model::lowered(&low.definitions);
        let want = oracle::numbered(&defs);
        if got != want {
            let i = got.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
            panic!("lowered to {:?} instead of {:?}", got.get(i), want.get(i));
        }
    });
}

fn numbers_in_range(all: &[&Def]) -> bool {
    all.iter().all(|d| match d {
        Def::Struct(_, _, _, f) => oracle::derived(&oracle::numbers_of(f)).is_some(),
        Def::Enum(_, _, _, vs) => {
            oracle::derived(&vs.iter().map(|v| v.number).collect::<Vec<_>>()).is_some()
                && vs.iter().all(|v| oracle::derived(&oracle::numbers_of(&v.fields)).is_some())
        }
        _ => true,
    })
}

// ---- Long lists: what is wrong or needed is at every position ----

fn series(n: usize, sep: &str, item: impl Fn(usize) -> String) -> String {
    (0..n).map(item).collect::<Vec<_>>().join(sep)
}

fn verdict(text: &str, want: Option<fn(&Error) -> bool>) {
    let schema = Schema::parse(text, None).expect("valid syntax");
    match (validate_schema(&schema), want) {
        (Ok(()), None) => {}
        (Ok(()), Some(_)) => panic!("accepted: {text}"),
        (Err(e), None) => panic!("refused: {e:?}: {text}"),
        (Err(e), Some(class)) => assert!(class(&e), "refused for another reason: {e:?}: {text}"),
    }
}

const LEN: usize = 70;

/// Both places of a pair within a long list.
fn pairs(mut f: impl FnMut(usize, usize)) {
    for j in 0..LEN {
        for i in 0..=j {
            f(i, j);
        }
    }
}

/// Two equal numbers among many, the second one explicit, the first one derived or explicit.
fn p16__numbers__long__once() {
    for kind in 0..6 {
        for explicit in [false, true] {
            pairs(|i, j| {
                let number = |k: usize| match k {
                    _ if i == j => (explicit && k % 2 == 0).then_some(k as u32 + 1),
                    _ if k == j => Some(i as u32 + 1),
                    // What follows goes on behind all others.
                    _ if k == j + 1 => Some(LEN as u32 + 1),
                    _ => explicit.then_some(if k > j { (LEN + k) as u32 } else { k as u32 + 1 }),
                };
                verdict(&place(kind, &(0..LEN).map(number).collect::<Vec<_>>()), (i != j).then_some(ids));
            });
        }
    }
}

/// Two equal names among many.
fn p17__names__long__once() {
    pairs(|i, j| {
        let k = |k: usize| if k == j { i } else { k };
        let want = (i != j).then_some(names as fn(&Error) -> bool);
        let params = series(LEN, ", ", |n| format!("T{}", k(n)));
        let using = series(LEN, ", ", |n| format!("T{n}"));
        for text in [
            format!("struct A {{ {} }}", series(LEN, ", ", |n| format!("f{}: u8", k(n)))),
            format!("enum A {{ {} }}", series(LEN, ", ", |n| format!("V{}", k(n)))),
            format!("mod a {{ enum A {{ X, Y {{ {} }} }} }}", series(LEN, ", ", |n| format!("f{}: u8", k(n)))),
            format!("struct A<{params}>({using})"),
            format!("enum A<{params}> {{ X({using}) }}"),
            format!("type A<{params}> = Gen<{using}>;"),
            series(LEN, " ", |n| match n % 3 {
                0 => format!("struct D{}(u8)", k(n)),
                1 => format!("enum D{} {{ X }}", k(n)),
                _ => format!("type D{} = u8;", k(n)),
            }),
            format!("mod a {{ mod b {{ {} }} }}", series(LEN, " ", |n| format!("mod d{} {{}}", k(n)))),
            series(LEN, " ", |n| format!("const C{}: u8 = 1;", k(n))),
            series(LEN, " ", |n| if n == j { format!("type E{i} = u8;") } else { format!("use other::E{n};") }),
        ] {
            verdict(&text, want);
        }
    });
}

/// A parameter without use among many, and a single use in each place.
fn p18__parameters__long__once() {
    for k in 0..=LEN {
        let want = (k < LEN).then_some(unused as fn(&Error) -> bool);
        let params = series(LEN, ", ", |n| format!("T{n}"));
        let ty = |n: usize| if n == k { "u8".to_owned() } else { format!("T{n}") };
        for text in [
            format!("struct A<{params}> {{ {} }}", series(LEN, ", ", |n| format!("f{n}: {}", ty(n)))),
            format!("struct A<{params}>({})", series(LEN, ", ", ty)),
            format!("enum A<{params}> {{ {} }}", series(LEN, ", ", |n| format!("V{n}({})", ty(n)))),
            format!("enum A<{params}> {{ X, Y {{ {} }} }}", series(LEN, ", ", |n| format!("f{n}: {}", ty(n)))),
            format!("type A<{params}> = Gen<{}>;", series(LEN, ", ", ty)),
            format!("{} mod a {{ struct A<{params}>({}) }}", series(k, " ", |n| format!("struct B{n}(u8)")), series(LEN, ", ", ty)),
        ] {
            verdict(&text, want);
        }
        let ty = |n: usize| if n == k { "T" } else { "u8" };
        let want = (k == LEN).then_some(unused as fn(&Error) -> bool);
        for text in [
            format!("struct A<T> {{ {} }}", series(LEN, ", ", |n| format!("f{n}: {}", ty(n)))),
            format!("enum A<T> {{ {} }}", series(LEN, ", ", |n| format!("V{n}({})", ty(n)))),
            format!("enum A<T> {{ X({}) }}", series(LEN, ", ", |n| ty(n).to_owned())),
            format!("type A<T> = Gen<{}>;", series(LEN, ", ", |n| ty(n).to_owned())),
        ] {
            verdict(&text, want);
        }
    }
}

/// A tuple that is too short or too long at each place of long lists.
fn p19__tuples__long__once() {
    let bad = ["(u8)".to_owned(), format!("({})", series(13, ", ", |_| "u8".to_owned())), format!("({})", series(LEN, ", ", |_| "u8".to_owned()))];
    for bad in bad {
        for k in 0..=LEN {
            let want = (k < LEN).then_some(tuples as fn(&Error) -> bool);
            let ty = |n: usize| if n == k { &bad[..] } else { "(u8, u8)" };
            for text in [
                format!("struct A {{ {} }}", series(LEN, ", ", |n| format!("f{n}: {}", ty(n)))),
                format!("struct A({})", series(LEN, ", ", |n| ty(n).to_owned())),
                format!("enum A {{ {} }}", series(LEN, ", ", |n| format!("V{n}({})", ty(n)))),
                format!("enum A {{ X, Y {{ {} }} }}", series(LEN, ", ", |n| format!("f{n}: {}", ty(n)))),
                format!("type A = Gen<{}>;", series(LEN, ", ", |n| ty(n).to_owned())),
                series(LEN, " ", |n| format!("const C{n}: {} = 1;", ty(n))),
                format!("mod a {{ {} }}", series(LEN, " ", |n| format!("type C{n} = {};", ty(n)))),
                series(LEN, " ", |n| format!("mod m{n} {{ struct A({}) }}", ty(n))),
            ] {
                verdict(&text, want);
            }
        }
        for k in 0..=12 {
            let text = format!("struct A(({}))", series(12, ", ", |n| if n == k { bad.clone() } else { "u8".to_owned() }));
            verdict(&text, (k < 12).then_some(tuples));
        }
    }
}

fn resolution(schemas: &[(&str, &str)], want: bool) {
    let parsed = schemas.iter().map(|(n, t)| (*n, Schema::parse(t, None).expect("valid syntax"))).collect::<Vec<_>>();
    match resolve_schemas(&parsed.iter().map(|(n, s)| (*n, s)).collect::<Vec<_>>()) {
        Ok(()) => assert!(want, "accepted: {schemas:?}"),
        Err(e) => assert!(!want, "refused: {e:?}: {schemas:?}"),
    }
}

/// A reference without definition at each place of long lists, and references to each of many definitions.
fn p20__references__long__once() {
    for k in 0..=LEN {
        let ty = |n: usize| if n == k { "K" } else { "L" };
        for text in [
            format!("struct A {{ {} }}", series(LEN, ", ", |n| format!("f{n}: {}", ty(n)))),
            format!("enum A {{ {} }}", series(LEN, ", ", |n| format!("V{n}({})", ty(n)))),
            format!("enum A {{ X, Y {{ {} }} }}", series(LEN, ", ", |n| format!("f{n}: {}", ty(n)))),
            format!("struct G<{}>(u8) type A = G<{}>;", series(LEN, ", ", |n| format!("T{n}")), series(LEN, ", ", |n| ty(n).to_owned())),
            format!("struct A(({}))", series(LEN, ", ", |n| ty(n).to_owned())),
            series(LEN, " ", |n| format!("type C{n} = {};", ty(n))),
            series(LEN, " ", |n| format!("mod m{n} {{ struct L(u8) struct A({}) }}", ty(n))),
        ] {
            resolution(&[("this", &format!("struct L(u8) {text}"))], k == LEN);
        }
        let last = k.saturating_sub(1);
        let params = series(k.max(1), ", ", |n| format!("T{n}"));
        for (r, want) in [(last, true), (k.max(1), false)] {
            resolution(&[("this", &format!("struct A<{params}>(T{r})"))], want);
            resolution(&[("this", &format!("enum A<{params}> {{ X {{ f: T{r} }} }}"))], want);
            resolution(&[("this", &format!("type A<{params}> = vec<T{r}>;"))], want);
        }
        let args = |n: usize| series(n, ", ", |_| "u8".to_owned());
        resolution(&[("this", &format!("struct G<{params}>(u8) struct A(G<{}>)", args(k.max(1))))], true);
        resolution(&[("this", &format!("struct G<{params}>(u8) struct A(G<{}>)", args(k.max(1) + 1)))], false);
        let many = series(LEN, " ", |n| format!("struct D{n}(u8) mod m{n} {{ struct E{n}(u8) }}"));
        let want = k < LEN;
        resolution(&[("this", &format!("{many} struct A(D{k})"))], want);
        resolution(&[("this", &format!("{many} struct A(m{k}::E{k})"))], want);
        resolution(&[("this", &format!("mod x {{ {many} struct A(vec<D{k}>) }}"))], want);
        resolution(&[("this", &format!("use other::D{k}; struct A(D{k})")), ("other", &many)], want);
        resolution(&[("this", &format!("use other::m{k}; struct A(m{k}::E{k})")), ("other", &many)], want);
        resolution(&[("this", &format!("use other::m{k}::E{k}; struct A(E{k})")), ("other", &many)], want);
        let uses = series(LEN, " ", |n| format!("use other::D{n};"));
        resolution(&[("this", &format!("{uses} struct A(D{k})")), ("other", &many)], want);
        let uses = series(LEN, " ", |n| if n == k { "use other::K;".to_owned() } else { format!("use other::m{n};") });
        resolution(&[("this", &format!("{uses} struct A(u8)")), ("other", &many)], !want);
        let owned = (0..LEN).map(|n| (format!("o{n}"), format!("struct D{n}(u8)"))).collect::<Vec<_>>();
        let this = format!("use o{k}::D{k}; struct A(D{k})");
        let mut all = owned.iter().map(|(n, t)| (&n[..], &t[..])).collect::<Vec<_>>();
        all.insert(k / 2, ("this", &this));
        resolution(&all, want);
        // Modules within modules.
        let path = series(k, "::", |n| format!("m{n}"));
        let open = series(k, " ", |n| format!("mod m{n} {{"));
        let sep = if k == 0 { "" } else { "::" };
        if k <= 12 {
            resolution(&[("this", &format!("{open} struct E(u8) {} struct A({path}{sep}E)", "}".repeat(k)))], true);
            resolution(&[("this", &format!("{open} struct E(u8) {} struct A({path}{sep}F)", "}".repeat(k)))], false);
            resolution(&[("this", &format!("use other::{path}{sep}E; struct A(E)")), ("other", &format!("{open} struct E(u8) {}", "}".repeat(k)))], true);
        }
    }
}

/// Long lists of everything, of each length.
fn p21__simplify_schema__long__once() {
    for n in 1..=LEN {
        let params = series(n, ", ", |n| format!("T{n}"));
        let fields = series(n, ", ", |n| format!("/// c{n}\n f{n}: [vec<T{n}>; {n}] @{}", n * 3 + 1));
        let text = format!(
            "{} {} struct A<{params}> {{ {fields} }} struct B<{params}>({}) enum C<{params}> {{ {}, X {{ {fields} }} }} type D<{params}> = Gen<{}>; type E = ({}); {} {} {} mod m {{ {} }}",
            series(n, " ", |n| format!("use other::x{n};")) + &format!(" use {};", series(n, "::", |n| format!("m{n}"))),
            series(n, "\n", |n| format!("/// comment {n}")) + "\n",
            series(n, ", ", |n| format!("hash_map<T{n}, u8> @{}", n * 2 + 2)),
            series(n, ", ", |n| format!("V{n}(T{n}) @{}", n * 5 + 1)),
            series(n, ", ", |n| format!("option<T{n}>")),
            series(n, ", ", |n| format!("o{n}::p{n}::Q{n}<u8>")),
            series(n, " ", |n| format!("const I{n}: u32 = {n};")),
            format!("const S: string = \"{}\";", series(n, "", |n| format!("{n},"))),
            format!("const Y: bytes = [{}];", series(n, ", ", |n| n.to_string())),
            series(n, " ", |n| format!("mod n{n} {{ struct F(u8) }}")),
        );
        let schema = Schema::parse(&text, None).unwrap_or_else(|e| panic!("valid syntax: {e:?}: {text}"));
        let low = simplify_schema(&schema);
        let (got, want) = (model::lowered(&low.definitions), oracle::numbered(&model::parsed(&schema.definitions)));
        assert!(got.len() == want.len(), "definitions of {text}");
        for (a, b) in got.iter().zip(&want) {
            assert!(a == b, "lowered to {a:?} instead of {b:?}");
        }
    }
}

pub fn list() -> Vec<(&'static str, fn())> {
    macro_rules! all { ($($f:ident)+) => { vec![$((stringify!($f), $f as fn())),+] } }
    all!(
        p16__validate_schema__numbers__sampled p16__simplify_schema__numbers__sampled
        p16__numbers__named_fields__once p16__numbers__unnamed_fields__once p16__numbers__variants__once
        p16__numbers__variant_unnamed_fields__once p16__numbers__variant_named_fields__once
        p16__numbers__variants_with_fields__once
        p17__validate_schema__names__sampled p17__validate_schema__single_clash__sampled
        p18__validate_schema__parameters__sampled p18__parameters__nested__once
        p19__validate_schema__tuples__sampled p19__tuples__nested__once
        p20__resolve_schemas__references__sampled p20__references__nested__once
        p21__simplify_schema__same__sampled p21__simplify_schema__long__once
        p16__numbers__long__once p17__names__long__once p18__parameters__long__once p19__tuples__long__once p20__references__long__once
    )
}
