// ------------------------------------------------------------------------------------ iteration
/// What a std iterator is here: the elements it has left, in order.
pub trait Walk: Sized {
    type El;
    spec fn rest(&self) -> Seq<Self::El>;
    proof fn short(&self) ensures self.rest().len() <= usize::MAX;
    fn step(&mut self) -> (res: Option<Self::El>)
        ensures
            old(self).rest().len() == 0 ==> res is None && final(self).rest() == old(self).rest(),
            old(self).rest().len() > 0 ==> res == Some(old(self).rest()[0]) && final(self).rest() == old(self).rest().skip(1);
}

/// None, with the type of the elements.
pub fn none_of__<W: Walk>(w: &W) -> (res: Option<W::El>) ensures res is None { None }

pub open spec fn refs<'a, T>(s: Seq<T>) -> Seq<&'a T> { Seq::new(s.len(), |i: int| &s[i]) }

/// std::slice::Iter
pub struct SliceIter<'a, T> { pub s: &'a [T], pub at: usize }
impl<'a, T> SliceIter<'a, T> {
    pub open spec fn ok(&self) -> bool { self.at <= self.s@.len() }
    pub fn next(&mut self) -> (res: Option<&'a T>)
        ensures
            old(self).rest().len() == 0 ==> res is None && final(self).rest() == old(self).rest(),
            old(self).rest().len() > 0 ==> res == Some(old(self).rest()[0]) && final(self).rest() == old(self).rest().skip(1),
    { self.step() }
    pub fn len(&self) -> (res: usize) ensures res == self.rest().len()
    { if self.at < self.s.len() { self.s.len() - self.at } else { 0 } }
}
impl<'a, T> Walk for SliceIter<'a, T> {
    type El = &'a T;
    open spec fn rest(&self) -> Seq<&'a T> { refs(if self.at <= self.s@.len() { self.s@.skip(self.at as int) } else { Seq::empty() }) }
    proof fn short(&self) { few(self.s); }
    fn step(&mut self) -> (res: Option<&'a T>) {
        if self.at < self.s.len() {
            let r = &self.s[self.at];
            self.at = self.at + 1;
            assert(self.rest() =~= old(self).rest().skip(1));
            Some(r)
        } else { None }
    }
}
/// Slices of sized elements hold at most isize::MAX bytes.
#[verifier::external_body]
pub proof fn few<T>(s: &[T]) ensures s@.len() < usize::MAX { }
#[verifier::external_body]
pub proof fn few_vec<T>(s: &Vec<T>) ensures s@.len() < usize::MAX { }

/// std::iter::Once
pub struct OnceIter<T> { pub x: Option<T> }
impl<T> OnceIter<T> {
    pub fn new__(x: T) -> (res: Self) ensures res.x == Some(x) { OnceIter { x: Some(x) } }
    pub fn next(&mut self) -> (res: Option<T>) ensures res == old(self).x, final(self).x is None { self.x.take() }
}

/// `.iter()` of vectors and slices.
pub trait IterSrc__ {
    type E;
    spec fn elems(&self) -> Seq<Self::E>;
    fn iter__(&self) -> (res: SliceIter<'_, Self::E>) ensures res.rest() == refs(self.elems());
    fn iter(&self) -> (res: SliceIter<'_, Self::E>) ensures res.rest() == refs(self.elems());
    fn last__(&self) -> (res: Option<&Self::E>)
        ensures self.elems().len() == 0 ==> res is None, self.elems().len() > 0 ==> res == Some(&self.elems().last());
    fn first__(&self) -> (res: Option<&Self::E>)
        ensures self.elems().len() == 0 ==> res is None, self.elems().len() > 0 ==> res == Some(&self.elems()[0]);
}
impl<T> IterSrc__ for [T] {
    type E = T;
    open spec fn elems(&self) -> Seq<T> { self@ }
    fn iter__(&self) -> (res: SliceIter<'_, T>) { let r = SliceIter { s: self, at: 0 }; assert(r.rest() =~= refs(self@)); r }
    fn iter(&self) -> (res: SliceIter<'_, T>) { self.iter__() }
    fn last__(&self) -> (res: Option<&T>) { if self.len() > 0 { Some(&self[self.len() - 1]) } else { None } }
    fn first__(&self) -> (res: Option<&T>) { if self.len() > 0 { Some(&self[0]) } else { None } }
}
impl<T> IterSrc__ for Vec<T> {
    type E = T;
    open spec fn elems(&self) -> Seq<T> { self@ }
    fn iter__(&self) -> (res: SliceIter<'_, T>) { self.as_slice().iter__() }
    fn iter(&self) -> (res: SliceIter<'_, T>) { self.iter__() }
    fn last__(&self) -> (res: Option<&T>) { if self.len() > 0 { Some(&self[self.len() - 1]) } else { None } }
    fn first__(&self) -> (res: Option<&T>) { if self.len() > 0 { Some(&self[0]) } else { None } }
}
/// `for x in E`
pub trait IntoWalk: Sized {
    type W: Walk;
    spec fn walked(self) -> Seq<<Self::W as Walk>::El>;
    fn into_walk__(self) -> (res: Self::W) ensures res.rest() == self.walked();
}
impl<'a, T> IntoWalk for &'a [T] {
    type W = SliceIter<'a, T>;
    open spec fn walked(self) -> Seq<&'a T> { refs(self@) }
    fn into_walk__(self) -> (res: SliceIter<'a, T>) { self.iter__() }
}
impl<'a, T> IntoWalk for &'a Vec<T> {
    type W = SliceIter<'a, T>;
    open spec fn walked(self) -> Seq<&'a T> { refs(self@) }
    fn into_walk__(self) -> (res: SliceIter<'a, T>) { self.iter__() }
}
/// `.collect()` of the collected elements.
pub trait Gather__<C> { spec fn gathers(self, res: C) -> bool; fn gather__(self) -> (res: C) ensures self.gathers(res); }
impl<T> Gather__<Vec<T>> for Vec<T> { open spec fn gathers(self, res: Vec<T>) -> bool { res == self } fn gather__(self) -> (res: Vec<T>) { self } }
impl<T> Gather__<Box<[T]>> for Vec<T> {
    open spec fn gathers(self, res: Box<[T]>) -> bool { res@ == self@ }
    #[verifier::external_body]
    fn gather__(self) -> (res: Box<[T]>) { self.into_boxed_slice() }
}
#[verifier::external_body]
pub fn empty_box__<T>() -> (res: Box<[T]>) ensures res@.len() == 0 { Box::default() }

// ------------------------------------------------------------------------------------ maps
pub trait Key { type KV; spec fn kv(self) -> Self::KV; }
impl Key for u32 { type KV = u32; open spec fn kv(self) -> u32 { self } }
impl<'a> Key for &'a str { type KV = Seq<char>; open spec fn kv(self) -> Seq<char> { self@ } }
/// rustc_hash::FxHashMap: a map from what the keys compare by.
#[verifier::external_body]
#[verifier::accept_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct FxHashMap<K, V> { map: std::collections::HashMap<K, V> }
impl<K: Key, V> FxHashMap<K, V> {
    pub uninterp spec fn m(&self) -> Map<K::KV, V>;
    #[verifier::external_body]
    pub fn new__() -> (res: Self) ensures res.m() == Map::<K::KV, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (res: Option<V>)
        ensures final(self).m() == old(self).m().insert(k.kv(), v),
            res == if old(self).m().dom().contains(k.kv()) { Some(old(self).m()[k.kv()]) } else { None },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn remove<Q: Key<KV = K::KV>>(&mut self, k: Q) -> (res: Option<V>)
        ensures final(self).m() == old(self).m().remove(k.kv()),
            res == if old(self).m().dom().contains(k.kv()) { Some(old(self).m()[k.kv()]) } else { None },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get<Q: Key<KV = K::KV>>(&self, k: Q) -> (res: Option<&V>)
        ensures res == if self.m().dom().contains(k.kv()) { Some(&self.m()[k.kv()]) } else { None },
    { unimplemented!() }
    /// `.into_iter().next()`
    #[verifier::external_body]
    pub fn any_entry__(self) -> (res: Option<(K, V)>)
        ensures res is None ==> forall|k: K::KV| !self.m().dom().contains(k),
            res matches Some((k, v)) ==> self.m().dom().contains(k.kv()) && self.m()[k.kv()] == v,
    { unimplemented!() }
}

// ------------------------------------------------------------------------------------ conversions
/// `.into()`
pub trait Into__<T>: Sized { spec fn to__(self, res: T) -> bool; fn into__(self) -> (res: T) ensures self.to__(res); }
impl<T> Into__<T> for T { open spec fn to__(self, res: T) -> bool { res == self } fn into__(self) -> (res: T) { self } }
impl<T> Into__<Box<T>> for T { open spec fn to__(self, res: Box<T>) -> bool { *res == self } fn into__(self) -> (res: Box<T>) { Box::new(self) } }
impl Into__<Box<str>> for String {
    open spec fn to__(self, res: Box<str>) -> bool { res@ == self@ }
    #[verifier::external_body] fn into__(self) -> (res: Box<str>) { self.into() }
}
impl<'a> Into__<Box<str>> for &'a str {
    open spec fn to__(self, res: Box<str>) -> bool { res@ == self@ }
    #[verifier::external_body] fn into__(self) -> (res: Box<str>) { self.into() }
}
impl Into__<Box<[u8]>> for Vec<u8> {
    open spec fn to__(self, res: Box<[u8]>) -> bool { res@ == self@ }
    #[verifier::external_body] fn into__(self) -> (res: Box<[u8]>) { self.into() }
}
/// Integers into wider ones.
impl Into__<u16> for u8 { open spec fn to__(self, res: u16) -> bool { res == self } fn into__(self) -> (res: u16) { self as u16 } }
impl Into__<u32> for u8 { open spec fn to__(self, res: u32) -> bool { res == self } fn into__(self) -> (res: u32) { self as u32 } }
impl Into__<u64> for u8 { open spec fn to__(self, res: u64) -> bool { res == self } fn into__(self) -> (res: u64) { self as u64 } }
impl Into__<u128> for u8 { open spec fn to__(self, res: u128) -> bool { res == self } fn into__(self) -> (res: u128) { self as u128 } }
impl Into__<i16> for u8 { open spec fn to__(self, res: i16) -> bool { res == self } fn into__(self) -> (res: i16) { self as i16 } }
impl Into__<i32> for u8 { open spec fn to__(self, res: i32) -> bool { res == self } fn into__(self) -> (res: i32) { self as i32 } }
impl Into__<i64> for u8 { open spec fn to__(self, res: i64) -> bool { res == self } fn into__(self) -> (res: i64) { self as i64 } }
impl Into__<i128> for u8 { open spec fn to__(self, res: i128) -> bool { res == self } fn into__(self) -> (res: i128) { self as i128 } }
impl Into__<u32> for u16 { open spec fn to__(self, res: u32) -> bool { res == self } fn into__(self) -> (res: u32) { self as u32 } }
impl Into__<u64> for u16 { open spec fn to__(self, res: u64) -> bool { res == self } fn into__(self) -> (res: u64) { self as u64 } }
impl Into__<u128> for u16 { open spec fn to__(self, res: u128) -> bool { res == self } fn into__(self) -> (res: u128) { self as u128 } }
impl Into__<i32> for u16 { open spec fn to__(self, res: i32) -> bool { res == self } fn into__(self) -> (res: i32) { self as i32 } }
impl Into__<i64> for u16 { open spec fn to__(self, res: i64) -> bool { res == self } fn into__(self) -> (res: i64) { self as i64 } }
impl Into__<i128> for u16 { open spec fn to__(self, res: i128) -> bool { res == self } fn into__(self) -> (res: i128) { self as i128 } }
impl Into__<u64> for u32 { open spec fn to__(self, res: u64) -> bool { res == self } fn into__(self) -> (res: u64) { self as u64 } }
impl Into__<u128> for u32 { open spec fn to__(self, res: u128) -> bool { res == self } fn into__(self) -> (res: u128) { self as u128 } }
impl Into__<i64> for u32 { open spec fn to__(self, res: i64) -> bool { res == self } fn into__(self) -> (res: i64) { self as i64 } }
impl Into__<i128> for u32 { open spec fn to__(self, res: i128) -> bool { res == self } fn into__(self) -> (res: i128) { self as i128 } }
impl Into__<u128> for u64 { open spec fn to__(self, res: u128) -> bool { res == self } fn into__(self) -> (res: u128) { self as u128 } }
impl Into__<i128> for u64 { open spec fn to__(self, res: i128) -> bool { res == self } fn into__(self) -> (res: i128) { self as i128 } }
impl Into__<i16> for i8 { open spec fn to__(self, res: i16) -> bool { res == self } fn into__(self) -> (res: i16) { self as i16 } }
impl Into__<i32> for i8 { open spec fn to__(self, res: i32) -> bool { res == self } fn into__(self) -> (res: i32) { self as i32 } }
impl Into__<i64> for i8 { open spec fn to__(self, res: i64) -> bool { res == self } fn into__(self) -> (res: i64) { self as i64 } }
impl Into__<i128> for i8 { open spec fn to__(self, res: i128) -> bool { res == self } fn into__(self) -> (res: i128) { self as i128 } }
impl Into__<i32> for i16 { open spec fn to__(self, res: i32) -> bool { res == self } fn into__(self) -> (res: i32) { self as i32 } }
impl Into__<i64> for i16 { open spec fn to__(self, res: i64) -> bool { res == self } fn into__(self) -> (res: i64) { self as i64 } }
impl Into__<i128> for i16 { open spec fn to__(self, res: i128) -> bool { res == self } fn into__(self) -> (res: i128) { self as i128 } }
impl Into__<i64> for i32 { open spec fn to__(self, res: i64) -> bool { res == self } fn into__(self) -> (res: i64) { self as i64 } }
impl Into__<i128> for i32 { open spec fn to__(self, res: i128) -> bool { res == self } fn into__(self) -> (res: i128) { self as i128 } }
impl Into__<i128> for i64 { open spec fn to__(self, res: i128) -> bool { res == self } fn into__(self) -> (res: i128) { self as i128 } }
/// Cow<'a, str>
#[verifier::external_body]
pub struct CowStr<'a> { c: std::borrow::Cow<'a, str> }
impl<'a> View for CowStr<'a> { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
impl<'a> Into__<CowStr<'a>> for &'a str {
    open spec fn to__(self, res: CowStr<'a>) -> bool { res@ == self@ }
    #[verifier::external_body] fn into__(self) -> (res: CowStr<'a>) { CowStr { c: self.into() } }
}
impl<'a> Into__<CowStr<'a>> for String {
    open spec fn to__(self, res: CowStr<'a>) -> bool { res@ == self@ }
    #[verifier::external_body] fn into__(self) -> (res: CowStr<'a>) { CowStr { c: self.into() } }
}
pub trait ToOwned__ { fn to_owned__(&self) -> (res: String); }
impl ToOwned__ for str { #[verifier::external_body] fn to_owned__(&self) -> (res: String) { self.to_owned() } }
pub trait Clone__: Sized { fn clone__(&self) -> (res: Self) ensures res == *self; }
impl Clone__ for String { #[verifier::external_body] fn clone__(&self) -> (res: String) { self.clone() } }
impl Clone__ for Vec<u8> { #[verifier::external_body] fn clone__(&self) -> (res: Vec<u8>) { self.clone() } }
/// Decimal digits of a number.
pub open spec fn digit_char(n: nat) -> char { ((n + 48) as u8) as char }
pub open spec fn decimal(n: nat) -> Seq<char> decreases n {
    if n < 10 { seq![digit_char(n)] } else { decimal(n / 10).push(digit_char(n % 10)) }
}
/// format!("prefix{n}")
#[verifier::external_body]
pub fn format_usize__(prefix: &str, n: usize) -> (res: String) ensures res@ == prefix@ + decimal(n as nat) { unimplemented!() }
#[verifier::external_body]
pub fn any_string__() -> (res: String) { unimplemented!() }
#[verifier::external_type_specification] #[verifier::external_body]
pub struct ExPathBuf(std::path::PathBuf);
/// The values of a map, in some order.
#[verifier::external_body]
#[verifier::accept_recursive_types(V)]
pub struct MapValues<'a, V> { v: &'a V }
impl<'a, V> Walk for MapValues<'a, V> {
    type El = &'a V;
    uninterp spec fn rest(&self) -> Seq<&'a V>;
    #[verifier::external_body] proof fn short(&self) { }
    #[verifier::external_body] fn step(&mut self) -> (res: Option<&'a V>) { unimplemented!() }
}
impl<K: Key, V> FxHashMap<K, V> {
    #[verifier::external_body]
    pub fn values(&self) -> (res: MapValues<'_, V>)
        ensures
            forall|i: int| #![trigger res.rest()[i]] 0 <= i < res.rest().len() ==> exists|k: K::KV| #![trigger self.m()[k]] self.m().dom().contains(k) && self.m()[k] == *res.rest()[i],
            forall|k: K::KV| #![trigger self.m()[k]] self.m().dom().contains(k) ==> exists|i: int| #![trigger res.rest()[i]] 0 <= i < res.rest().len() && self.m()[k] == *res.rest()[i],
    { unimplemented!() }
}
/// `for x in vec`
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct VecWalk<T> { v: std::vec::IntoIter<T> }
impl<T> Walk for VecWalk<T> {
    type El = T;
    uninterp spec fn rest(&self) -> Seq<T>;
    #[verifier::external_body] proof fn short(&self) { }
    #[verifier::external_body] fn step(&mut self) -> (res: Option<T>) { self.v.next() }
}
impl<T> IntoWalk for Vec<T> {
    type W = VecWalk<T>;
    open spec fn walked(self) -> Seq<T> { self@ }
    #[verifier::external_body] fn into_walk__(self) -> (res: VecWalk<T>) { VecWalk { v: self.into_iter() } }
}
/// Text of error messages: not specified.
#[verifier::external_body]
pub struct NamedSource__ { s: String }
#[verifier::external_body]
pub fn any_source__() -> (res: NamedSource__) { unimplemented!() }
pub trait Join__ { fn join__(&self, sep: &str) -> (res: String); }
impl<'a> Join__ for Vec<&'a str> { #[verifier::external_body] fn join__(&self, sep: &str) -> (res: String) { self.join(sep) } }
pub trait Extend__<X> { fn extend__(&mut self, x: X); }
impl<'a, 'b> Extend__<&'b [&'a str]> for Vec<&'a str> { #[verifier::external_body] fn extend__(&mut self, x: &'b [&'a str]) { self.extend(x) } }
// ------------------------------------------------------------------------------------ numbers
#[verifier::external_body]
pub fn vec_of__<T, const N: usize>(a: [T; N]) -> (res: Vec<T>) ensures res@ == a@ { Vec::from(a) }
pub trait ToString__ { fn to_string__(&self) -> (res: String); }
impl ToString__ for usize { #[verifier::external_body] fn to_string__(&self) -> (res: String) { self.to_string() } }
/// Binary digits of a number; 0 has none.
pub open spec fn digits2(n: nat) -> nat decreases n { if n == 0 { 0 } else { 1 + digits2(n / 2) } }
pub trait Bits__: Sized {
    spec fn num(self) -> nat;
    spec fn width() -> nat;
    fn leading_zeros__(self) -> (res: u32) ensures res == Self::width() - digits2(self.num()), res <= Self::width();
    fn div_ceil__(self, d: Self) -> (res: Self) requires d.num() > 0 ensures res.num() == (self.num() + d.num() - 1) as nat / d.num();
    fn max__(self, x: Self) -> (res: Self) ensures res == if self.num() > x.num() { self } else { x };
    fn min__(self, x: Self) -> (res: Self) ensures res == if self.num() < x.num() { self } else { x };
}
impl Bits__ for usize {
    open spec fn num(self) -> nat { self as nat }
    open spec fn width() -> nat { 64 }
    #[verifier::external_body] fn leading_zeros__(self) -> (res: u32) { self.leading_zeros() }
    #[verifier::external_body] fn div_ceil__(self, d: usize) -> (res: usize) { self.div_ceil(d) }
    fn max__(self, x: usize) -> (res: usize) { if self > x { self } else { x } }
    fn min__(self, x: usize) -> (res: usize) { if self < x { self } else { x } }
}
impl Bits__ for u64 {
    open spec fn num(self) -> nat { self as nat }
    open spec fn width() -> nat { 64 }
    #[verifier::external_body] fn leading_zeros__(self) -> (res: u32) { self.leading_zeros() }
    #[verifier::external_body] fn div_ceil__(self, d: u64) -> (res: u64) { self.div_ceil(d) }
    fn max__(self, x: u64) -> (res: u64) { if self > x { self } else { x } }
    fn min__(self, x: u64) -> (res: u64) { if self < x { self } else { x } }
}
impl Bits__ for u32 {
    open spec fn num(self) -> nat { self as nat }
    open spec fn width() -> nat { 32 }
    #[verifier::external_body] fn leading_zeros__(self) -> (res: u32) { self.leading_zeros() }
    #[verifier::external_body] fn div_ceil__(self, d: u32) -> (res: u32) { self.div_ceil(d) }
    fn max__(self, x: u32) -> (res: u32) { if self > x { self } else { x } }
    fn min__(self, x: u32) -> (res: u32) { if self < x { self } else { x } }
}
