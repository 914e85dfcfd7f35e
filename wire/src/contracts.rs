//! P24: the bounds that mabo-meta reports, against the bytes that the runtime writes for values of random types.
use std::collections::{HashMap, HashSet};

use mabo::buf;
use mabo_compiler::simplify::{ExternalType, Type as Real};

use crate::nd::{any, below, note_value};

#[derive(Clone, Debug)]
enum Type {
    Bool, U8, U16, U32, U64, U128, I8, I16, I32, I64, I128, F32, F64, String, StringRef, Bytes, BytesRef, BoxString, BoxBytes,
    Vec(Box<Type>), HashMap(Box<(Type, Type)>), HashSet(Box<Type>), Option(Box<Type>), NonZero(Box<Type>), Tuple(Box<[Type]>), Array(Box<Type>, u32), User,
}

impl Type {
    fn real(&self) -> Real<'static> {
        let all = |t: &Type| Box::new(t.real());
        match self {
            Type::Bool => Real::Bool, Type::U8 => Real::U8, Type::U16 => Real::U16, Type::U32 => Real::U32, Type::U64 => Real::U64, Type::U128 => Real::U128,
            Type::I8 => Real::I8, Type::I16 => Real::I16, Type::I32 => Real::I32, Type::I64 => Real::I64, Type::I128 => Real::I128,
            Type::F32 => Real::F32, Type::F64 => Real::F64, Type::String => Real::String, Type::StringRef => Real::StringRef,
            Type::Bytes => Real::Bytes, Type::BytesRef => Real::BytesRef, Type::BoxString => Real::BoxString, Type::BoxBytes => Real::BoxBytes,
            Type::Vec(t) => Real::Vec(all(t)),
            Type::HashMap(kv) => Real::HashMap(Box::new((kv.0.real(), kv.1.real()))),
            Type::HashSet(t) => Real::HashSet(all(t)),
            Type::Option(t) => Real::Option(all(t)),
            Type::NonZero(t) => Real::NonZero(all(t)),
            Type::Tuple(t) => Real::Tuple(t.iter().map(Type::real).collect()),
            Type::Array(t, n) => Real::Array(all(t), *n),
            Type::User => Real::External(ExternalType { path: Box::default(), name: "User", generics: Default::default() }),
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
enum V {
    Bool(bool), U8(u8), U16(u16), U32(u32), U64(u64), U128(u128),
    I8(i8), I16(i16), I32(i32), I64(i64), I128(i128), F32(u32), F64(u64),
    Text(String), Bytes(Vec<u8>), Vec(Vec<V>), Set(Vec<V>), Map(Vec<(V, V)>),
    Opt(Option<Box<V>>), Tuple(Vec<V>), Array(Vec<V>), User(Vec<u8>),
}

/// As an element of a container.
fn put(w: &mut Vec<u8>, v: &V) {
    match v {
        V::Bool(x) => buf::encode_bool(w, *x),
        V::U8(x) => buf::encode_u8(w, *x),
        V::U16(x) => buf::encode_u16(w, *x),
        V::U32(x) => buf::encode_u32(w, *x),
        V::U64(x) => buf::encode_u64(w, *x),
        V::U128(x) => buf::encode_u128(w, *x),
        V::I8(x) => buf::encode_i8(w, *x),
        V::I16(x) => buf::encode_i16(w, *x),
        V::I32(x) => buf::encode_i32(w, *x),
        V::I64(x) => buf::encode_i64(w, *x),
        V::I128(x) => buf::encode_i128(w, *x),
        V::F32(x) => buf::encode_f32(w, f32::from_bits(*x)),
        V::F64(x) => buf::encode_f64(w, f64::from_bits(*x)),
        V::Text(x) => buf::encode_string(w, x),
        V::Bytes(x) => buf::encode_bytes_std(w, x),
        V::Vec(x) => buf::encode_vec(w, x, len, put),
        V::Set(x) => buf::encode_hash_set(w, &x.iter().cloned().collect::<HashSet<_>>(), len, put),
        V::Map(x) => buf::encode_hash_map(w, &x.iter().cloned().collect::<HashMap<_, _>>(), len, len, put, put),
        V::Opt(x) => buf::encode_option(w, x, |w, x| put(w, x)),
        V::Tuple(x) => x.iter().for_each(|x| put(w, x)),
        V::Array(x) => array(w, x),
        V::User(x) => w.extend_from_slice(x),
    }
}

const COUNTS: [usize; 12] = [0, 1, 2, 3, 4, 6, 12, 16, 26, 32, 127, 130];

fn array(w: &mut Vec<u8>, x: &[V]) {
    macro_rules! sizes {
        ($($n:literal)*) => { match x.len() {
            $($n => { let a: &[V; $n] = x.try_into().unwrap(); buf::encode_array(w, a, len, put) })*
            _ => unreachable!(),
        } };
    }
    sizes!(0 1 2 3 4 6 12 16 26 32 127 130 70000);
}

fn len(v: &V) -> usize {
    let mut w = vec![];
    put(&mut w, v);
    w.len()
}

fn word() -> u64 {
    let x = any::<u64>();
    match below(4) {
        0 => 0,
        1 => u64::MAX,
        2 => x >> below(64),
        _ => x,
    }
}

/// A type of at most this depth, a maker of values of it.
fn ty(depth: usize) -> Type {
    let simple = below(24);
    match if depth == 0 { simple } else { below(36) } {
        0 => Type::Bool, 1 => Type::U8, 2 => Type::U16, 3 => Type::U32, 4 => Type::U64, 5 => Type::U128,
        6 => Type::I8, 7 => Type::I16, 8 => Type::I32, 9 => Type::I64, 10 => Type::I128,
        11 => Type::F32, 12 => Type::F64, 13 => Type::String, 14 => Type::StringRef, 15 => Type::Bytes, 16 => Type::BytesRef,
        17 => Type::BoxString, 18 => Type::BoxBytes,
        19 => Type::NonZero(Box::new([Type::U8, Type::U16, Type::U32, Type::U64, Type::I8, Type::I128, Type::String, Type::Bytes].into_iter().nth(below(8)).unwrap())),
        20 => Type::User,
        21..=23 => Type::U16,
        24 | 25 => Type::Vec(Box::new(ty(depth - 1))),
        26 => Type::HashSet(Box::new(ty(depth - 1))),
        27 => Type::HashMap(Box::new((ty(depth - 1), ty(depth - 1)))),
        28 | 29 => Type::Option(Box::new(ty(depth - 1))),
        30 => Type::NonZero(Box::new(Type::Vec(Box::new(ty(depth - 1))))),
        31 | 32 => Type::Tuple((0..2 + below(4)).map(|_| ty(depth - 1)).collect()),
        _ => Type::Array(Box::new(ty(depth - 1)), COUNTS[below(COUNTS.len())] as u32),
    }
}

fn many(depth: usize) -> usize {
    if depth == 0 { [0, 1, 2, 200][below(4)] } else { below(4) }
}

fn value(t: &Type, extreme: usize) -> V {
    let x = match extreme { 1 => 0, 2 => u64::MAX, _ => word() };
    let wide = u128::from(x) << 64 | u128::from(x);
    let bytes = match extreme { 1 => 0, 2 => 300, _ => many(0) };
    match t {
        Type::Bool => V::Bool(x & 1 == 1),
        Type::U8 => V::U8(x as u8),
        Type::U16 => V::U16(x as u16),
        Type::U32 => V::U32(x as u32),
        Type::U64 => V::U64(x),
        Type::U128 => V::U128(wide),
        Type::I8 => V::I8(x as i8),
        Type::I16 => V::I16(if extreme == 2 { i16::MIN } else { x as i16 }),
        Type::I32 => V::I32(if extreme == 2 { i32::MIN } else { x as i32 }),
        Type::I64 => V::I64(if extreme == 2 { i64::MIN } else { x as i64 }),
        Type::I128 => V::I128(if extreme == 2 { i128::MIN } else { wide as i128 }),
        Type::F32 => V::F32(x as u32),
        Type::F64 => V::F64(x),
        Type::String | Type::StringRef | Type::BoxString => V::Text("x".repeat(bytes)),
        Type::Bytes | Type::BytesRef | Type::BoxBytes => V::Bytes(vec![7; bytes]),
        Type::Vec(t) => V::Vec((0..if extreme == 1 { 0 } else { many(1) }).map(|_| value(t, extreme)).collect()),
        Type::HashSet(t) => V::Set((0..if extreme == 1 { 0 } else { many(1) }).map(|_| value(t, extreme)).collect()),
        Type::HashMap(kv) => V::Map((0..if extreme == 1 { 0 } else { many(1) }).map(|_| (value(&kv.0, extreme), value(&kv.1, extreme))).collect()),
        Type::Option(t) => V::Opt((extreme == 2 || extreme == 0 && below(2) == 1).then(|| Box::new(value(t, extreme)))),
        Type::NonZero(t) => match value(t, extreme) {
            V::U8(0) => V::U8(1), V::U16(0) => V::U16(1), V::U32(0) => V::U32(1), V::U64(0) => V::U64(1),
            V::I8(0) => V::I8(1), V::I128(0) => V::I128(1), v => v,
        },
        Type::Tuple(ts) => V::Tuple(ts.iter().map(|t| value(t, extreme)).collect()),
        Type::User => V::User(vec![9; bytes]),
        Type::Array(t, n) => V::Array((0..*n).map(|_| value(t, extreme)).collect()),
        
    }
}

/// The printed bounds of a type.
fn bounds(t: &Type) -> (usize, Option<usize>) {
    let mut s = String::new();
    let Some(size) = mabo_meta::wire_size(&t.real()) else { return (0, None) };
    size.print(&mut s, 0);
    let range = s.lines().next().unwrap().split('`').nth(1).expect("bounds are printed");
    match range.split_once("..") {
        None => { let n = range.parse().unwrap(); (n, Some(n)) }
        Some((a, "")) => (a.parse().unwrap(), None),
        Some((a, b)) => (a.parse().unwrap(), Some(b.parse().unwrap())),
    }
}

fn holds(t: &Type, n: usize) {
    let (min, max) = bounds(t);
    assert!(min <= n, "{n} bytes, reported are at least {min}");
    assert!(max.is_none_or(|max| n <= max), "{n} bytes, reported are at most {max:?}");
}

fn p24__wire_size__sampled() {
    let t = ty(3);
    let v = value(&t, below(3));
    note_value("type", &format!("{t:?}"));
    note_value("value", &format!("{v:?}"));
    holds(&t, len(&v));
}

fn p24__wire_size__simple__once() {
    for t in [Type::Bool, Type::U8, Type::U16, Type::U32, Type::U64, Type::U128, Type::I8, Type::I16, Type::I32, Type::I64, Type::I128,
        Type::F32, Type::F64, Type::String, Type::StringRef, Type::Bytes, Type::BytesRef, Type::BoxString, Type::BoxBytes, Type::User]
    {
        let one = || Box::new(t.clone());
        for t in [t.clone(), Type::Array(one(), 130), Type::Array(one(), 70000), Type::Tuple([t.clone(), Type::U8].into()), Type::Tuple([t.clone(), t.clone()].into()),
            Type::Option(one()), Type::Option(Box::new(Type::Option(one()))), Type::Vec(one()), Type::HashSet(one()), Type::NonZero(one()), Type::Array(Box::new(Type::Option(one())), 32)]
        {
            for extreme in [1, 2] {
                holds(&t, len(&value(&t, extreme)));
            }
        }
    }
}

/// Types whose bounds are beyond every number are reported all the same.
fn p24__wire_size__huge__once() {
    for inner in [Type::U8, Type::U128, Type::F64] {
        let mut t = inner;
        for _ in 0..3 {
            t = Type::Array(Box::new(t), u32::MAX);
            bounds(&t);
            bounds(&Type::Option(Box::new(t.clone())));
            bounds(&Type::Tuple(vec![t.clone(), t.clone()].into()));
        }
    }
}

/// An absent option field is not written at all, and the value of a present one without a marker.
fn p24__option_field__sampled() {
    let t = ty(2);
    let v = value(&t, below(3));
    note_value("type", &format!("{t:?}"));
    let opt = Type::Option(Box::new(t));
    holds(&opt, 0);
    holds(&opt, len(&v));
}

/// A tuple that is the type of a field has its length in front.
fn kf24__tuple_field__once() {
    let mut w = vec![];
    let x = [u32::MAX; 3];
    buf::encode_tuple(&mut w, || 15, |w| x.iter().for_each(|x| buf::encode_u32(w, *x)));
    holds(&Type::Tuple([Type::U32, Type::U32, Type::U32].into()), w.len());
}

// ---- P25 ----

fn used() -> Vec<u32> {
    let n = [0, 1, 2, 3, 4, 5, 20, 300][below(8)];
    let base = match below(5) {
        0 => u32::MAX - n,
        1 => (1 << 29) - 1 - below(4) as u32,
        2 => any::<u32>(),
        _ => 1,
    };
    // Distinct, in any order, with gaps.
    let mut v = (0..n).map(|i| base.wrapping_add(i * [1, 1, 3][below(3)])).collect::<Vec<_>>();
    if n > 0 && below(3) == 0 { v[below(n as usize)] = [0, 1, u32::MAX, (1 << 29) - 1, (1 << 29) - 2, 1 << 29][below(6)] }
    for i in 0..v.len() {
        v.swap(i, below(n as usize));
    }
    v
}

/// What has to be suggested.
fn next(used: &[u32], last: u32) -> Option<u32> {
    let n = used.iter().max().map_or(1, |m| u64::from(*m) + 1);
    (n <= u64::from(last)).then_some(n as u32)
}

fn simple<R>(text: &str, f: impl FnOnce(&mabo_compiler::simplify::Schema<'_>) -> R) -> R {
    note_value("schema", &text);
    let schema = mabo_parser::Schema::parse(text, None).expect("valid syntax");
    f(&mabo_compiler::simplify_schema(&schema))
}

fn p25__next_variant_id__sampled() {
    let v = used();
    let items = v.iter().enumerate().map(|(i, n)| format!("V{i} @{n}")).collect::<Vec<_>>().join(", ");
    if v.is_empty() {
        return assert_eq!(mabo_meta::next_variant_id(&[]), Some(1), "first variant");
    }
    simple(&format!("enum A {{ {items} }}"), |s| {
        let mabo_compiler::simplify::Definition::Enum(e) = &s.definitions[0] else { unreachable!() };
        assert_eq!(mabo_meta::next_variant_id(&e.variants), next(&v, u32::MAX), "next variant");
    });
}

fn p25__next_field_id__sampled() {
    use mabo_compiler::simplify::Definition;
    let v = used();
    let named = v.iter().enumerate().map(|(i, n)| format!("f{i}: u8 @{n}")).collect::<Vec<_>>().join(", ");
    let unnamed = v.iter().map(|n| format!("u8 @{n}")).collect::<Vec<_>>().join(", ");
    if v.is_empty() {
        return simple("struct A struct B(u8)", |s| {
            let Definition::Struct(a) = &s.definitions[0] else { unreachable!() };
            assert_eq!(mabo_meta::next_field_id(&a.fields), None, "there are no fields");
            // Fields that are named or unnamed, but none is there (anymore).
            use mabo_compiler::simplify::{FieldKind, Fields};
            for kind in [FieldKind::Named, FieldKind::Unnamed] {
                let fields = Fields { source: a.fields.source, fields: [].into(), kind };
                assert_eq!(mabo_meta::next_field_id(&fields), Some(1), "first field");
            }
        });
    }
    let want = next(&v, (1 << 29) - 1);
    let text = format!("struct A {{ {named} }} struct B({unnamed}) enum C {{ A {{ {named} }}, B({unnamed}), C }}");
    simple(&text, |s| {
        for d in &s.definitions {
            match d {
                Definition::Struct(s) => assert_eq!(mabo_meta::next_field_id(&s.fields), want, "next field of {}", s.name),
                Definition::Enum(e) => {
                    assert_eq!(mabo_meta::next_field_id(&e.variants[0].fields), want, "next field of a variant");
                    assert_eq!(mabo_meta::next_field_id(&e.variants[1].fields), want, "next field of a variant");
                    assert_eq!(mabo_meta::next_field_id(&e.variants[2].fields), None, "there are no fields");
                }
                _ => unreachable!(),
            }
        }
    });
}

pub fn list() -> Vec<(&'static str, fn())> {
    vec![
        ("p24__wire_size__sampled", p24__wire_size__sampled),
        ("p24__wire_size__simple__once", p24__wire_size__simple__once),
        ("p24__wire_size__huge__once", p24__wire_size__huge__once),
        ("p24__option_field__sampled", p24__option_field__sampled),
        ("p25__next_variant_id__sampled", p25__next_variant_id__sampled),
        ("p25__next_field_id__sampled", p25__next_field_id__sampled),
        ("kf24__tuple_field__once", kf24__tuple_field__once),
    ]
}
