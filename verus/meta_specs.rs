/// Bytes of a varint.
pub open spec fn varint_len(n: nat) -> nat decreases n { if n < 128 { 1 } else { 1 + varint_len(n / 128) } }

pub open spec fn sum(s: Seq<nat>) -> nat decreases s.len() { if s.len() == 0 { 0 } else { sum(s.drop_last()) + s.last() } }

/// A block of m bytes with its length in front.
pub open spec fn block(n: nat, m: nat) -> bool { n == varint_len(m) + m }

/// n bytes encode some value of the type, where it is an element of a container (or of a tuple).
pub open spec fn length(t: Type, n: nat) -> bool decreases t via length_dec {
    match t {
        Type::Bool | Type::U8 | Type::I8 => n == 1,
        Type::U16 | Type::I16 => 1 <= n <= 3,
        Type::U32 | Type::I32 => 1 <= n <= 5,
        Type::U64 | Type::I64 => 1 <= n <= 10,
        Type::U128 | Type::I128 => 1 <= n <= 19,
        Type::F32 => n == 4,
        Type::F64 => n == 8,
        Type::String | Type::StringRef | Type::Bytes | Type::BytesRef | Type::BoxString | Type::BoxBytes => exists|m: nat| block(n, m),
        Type::Vec(x) | Type::HashSet(x) => exists|s: Seq<nat>| #![trigger sum(s)] block(n, sum(s)) && (forall|i: int| #![trigger s[i]] 0 <= i < s.len() ==> length(*x, s[i])),
        Type::HashMap(kv) => exists|k: Seq<nat>, v: Seq<nat>| #![trigger sum(k), sum(v)] k.len() == v.len() && block(n, sum(k) + sum(v))
            && (forall|i: int| #![trigger k[i]] 0 <= i < k.len() ==> length(kv.0, k[i])) && (forall|i: int| #![trigger v[i]] 0 <= i < v.len() ==> length(kv.1, v[i])),
        // The marker of an option inside of a container, or nothing at all where it is a field.
        Type::Option(x) => n == 0 || n == 1 || n >= 1 && length(*x, (n - 1) as nat) || length(*x, n),
        Type::NonZero(x) => match *x {
            Type::String | Type::StringRef | Type::Bytes | Type::BytesRef | Type::BoxString | Type::BoxBytes => exists|m: nat| m > 0 && block(n, m),
            _ => length(*x, n),
        },
        Type::Tuple(types) => exists|s: Seq<nat>| #![trigger sum(s)] n == sum(s) && s.len() == types@.len() && (forall|i: int| #![trigger s[i]] 0 <= i < s.len() ==> length(types@[i], s[i])),
        Type::Array(x, count) => exists|s: Seq<nat>| #![trigger sum(s)] block(n, sum(s)) && s.len() == count && (forall|i: int| #![trigger s[i]] 0 <= i < s.len() ==> length(*x, s[i])),
        Type::External(_) => true,
    }
}
#[via_fn]
proof fn length_dec(t: Type, n: nat) {
    match t {
        Type::Tuple(types) => { assert forall|i: int| 0 <= i < types@.len() implies decreases_to!(t => #[trigger] types@[i]) by { part(types, i); } }
        _ => { }
    }
}
pub broadcast proof fn part(types: Box<[Type<'_>]>, i: int)
    requires 0 <= i < types@.len()
    ensures #[trigger] (decreases_to!(types => types@[i]))
{
    assert(decreases_to!(types => types@));
    assert(decreases_to!(types@ => types@[i]));
}

/// The bounds enclose every length.
pub open spec fn encloses(w: WireSize, t: Type) -> bool {
    forall|n: nat| #![trigger length(t, n)] length(t, n) ==> w.min <= n && (w.max matches Some(m) ==> n <= m)
}
pub open spec fn fits(w: Option<WireSize>, t: Type) -> bool { w matches Some(w) ==> encloses(w, t) }
pub open spec fn low(w: Option<WireSize>) -> nat { match w { Some(w) => w.min as nat, None => 0 } }
pub open spec fn high(w: Option<WireSize>) -> nat { match w { Some(w) => match w.max { Some(m) => m as nat, None => 0 }, None => 0 } }
pub open spec fn ends(w: Option<WireSize>) -> bool { w is Some && w->0.max is Some }
/// Sums over the first k members of a tuple.
pub open spec fn lows(s: Seq<&(CowStr<'static>, Option<WireSize>)>, k: int) -> nat decreases k { if k <= 0 { 0 } else { lows(s, k - 1) + low(s[k - 1].1) } }
pub open spec fn highs(s: Seq<&(CowStr<'static>, Option<WireSize>)>, k: int) -> nat decreases k { if k <= 0 { 0 } else { highs(s, k - 1) + high(s[k - 1].1) } }
/// Types without type arguments come first.
pub open spec fn rank(t: Type) -> int {
    match t { Type::Vec(_) | Type::HashSet(_) | Type::HashMap(_) | Type::Option(_) | Type::NonZero(_) | Type::Array(..) | Type::Tuple(_) | Type::External(_) => 1, _ => 0 }
}

/// Numbers in use.
pub open spec fn ids_of_variants(v: Seq<Variant>) -> Seq<u32> { Seq::new(v.len(), |i: int| v[i].id) }
pub open spec fn ids_of_fields(v: Seq<Field>) -> Seq<u32> { Seq::new(v.len(), |i: int| v[i].id) }
/// The number after the largest one in use, which is unused itself, as long as there is one up to `last`.
pub open spec fn next_number(res: Option<u32>, used: Seq<u32>, last: u32) -> bool {
    match res {
        Some(n) => 0 < n <= last && (forall|i: int| #![trigger used[i]] 0 <= i < used.len() ==> used[i] < n)
            && (n == 1 || exists|i: int| #![trigger used[i]] 0 <= i < used.len() && used[i] == n - 1),
        None => exists|i: int| #![trigger used[i]] 0 <= i < used.len() && used[i] >= last,
    }
}
pub open spec fn largest(m: Option<u32>, s: Seq<u32>) -> bool {
    match m { Some(m) => s.contains(m) && forall|i: int| #![trigger s[i]] 0 <= i < s.len() ==> s[i] <= m, None => s.len() == 0 }
}
