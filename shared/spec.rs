//! Independent specification of the wire format, written from `book/src/reference/wire-format.md`,
//! and buffers to read from.
use std::{
    borrow::Cow,
    collections::{HashMap, HashSet},
    hash::Hash,
    rc::Rc,
    sync::Arc,
};

use mabo::{Buf, Bytes, NonZero};

use crate::nd::{Arb, any, below, bytes, up_to};

pub fn leb(mut v: u128, out: &mut Vec<u8>) {
    loop {
        let g = (v % 128) as u8;
        v /= 128;
        if v == 0 {
            out.push(g);
            return;
        }
        out.push(g + 128);
    }
}

pub fn prefixed(content: Vec<u8>, out: &mut Vec<u8>) {
    leb(content.len() as u128, out);
    out.extend(content);
}

/// The bytes of a value; containers in their own iteration order.
pub trait Spec {
    fn spec(&self, out: &mut Vec<u8>);

    fn bytes(&self) -> Vec<u8> {
        let mut out = Vec::new();
        self.spec(&mut out);
        out
    }
}

/// Equality that compares floats bit for bit.
pub trait Same {
    fn same(&self, other: &Self) -> bool;
}

macro_rules! eq { ($($t:ty)+) => { $(impl Same for $t { fn same(&self, o: &Self) -> bool { self == o } })+ } }
eq!(bool u8 i8 u16 i16 u32 i32 u64 i64 u128 i128 String Box<str> Box<[u8]>);
impl Same for f32 { fn same(&self, o: &Self) -> bool { self.to_bits() == o.to_bits() } }
impl Same for f64 { fn same(&self, o: &Self) -> bool { self.to_bits() == o.to_bits() } }

macro_rules! unsigned { ($($t:ty)+) => { $(impl Spec for $t { fn spec(&self, out: &mut Vec<u8>) { leb(*self as u128, out) } })+ } }
unsigned!(u16 u32 u64 u128);
macro_rules! signed { ($($t:ty)+) => { $(impl Spec for $t { fn spec(&self, out: &mut Vec<u8>) {
    leb(if *self >= 0 { *self as u128 * 2 } else { !*self as u128 * 2 + 1 }, out)
} })+ } }
signed!(i16 i32 i64);
impl Spec for i128 {
    fn spec(&self, out: &mut Vec<u8>) {
        leb(if *self >= 0 { (*self as u128) << 1 } else { (!*self as u128) << 1 | 1 }, out)
    }
}
impl Spec for bool { fn spec(&self, out: &mut Vec<u8>) { out.push(if *self { 1 } else { 0 }) } }
impl Spec for u8 { fn spec(&self, out: &mut Vec<u8>) { out.push(*self) } }
impl Spec for i8 { fn spec(&self, out: &mut Vec<u8>) { out.push(*self as u8) } }
impl Spec for f32 { fn spec(&self, out: &mut Vec<u8>) { out.extend(self.to_bits().to_be_bytes()) } }
impl Spec for f64 { fn spec(&self, out: &mut Vec<u8>) { out.extend(self.to_bits().to_be_bytes()) } }
impl Spec for String { fn spec(&self, out: &mut Vec<u8>) { prefixed(self.as_bytes().to_vec(), out) } }
impl Spec for Box<str> { fn spec(&self, out: &mut Vec<u8>) { prefixed(self.as_bytes().to_vec(), out) } }
impl Spec for Box<[u8]> { fn spec(&self, out: &mut Vec<u8>) { prefixed(self.to_vec(), out) } }

fn all<'a, T: Spec + 'a>(it: impl IntoIterator<Item = &'a T>, out: &mut Vec<u8>) {
    let mut c = Vec::new();
    for v in it { v.spec(&mut c); }
    prefixed(c, out);
}
impl<T: Spec> Spec for Vec<T> { fn spec(&self, out: &mut Vec<u8>) { all(self, out) } }
impl<T: Spec> Spec for &[T] { fn spec(&self, out: &mut Vec<u8>) { all(*self, out) } }
impl<T: Spec, const N: usize> Spec for [T; N] { fn spec(&self, out: &mut Vec<u8>) { all(self, out) } }
impl<T: Spec> Spec for HashSet<T> { fn spec(&self, out: &mut Vec<u8>) { all(self, out) } }
impl<K: Spec, V: Spec> Spec for HashMap<K, V> {
    fn spec(&self, out: &mut Vec<u8>) {
        let mut c = Vec::new();
        for (k, v) in self { k.spec(&mut c); v.spec(&mut c); }
        prefixed(c, out);
    }
}
impl<T: Spec> Spec for Option<T> {
    fn spec(&self, out: &mut Vec<u8>) {
        match self { None => out.push(0), Some(v) => { out.push(1); v.spec(out); } }
    }
}
impl<T: Spec> Spec for NonZero<T> { fn spec(&self, out: &mut Vec<u8>) { self.get().spec(out) } }
impl<T: Spec + Clone> Spec for Cow<'_, T> { fn spec(&self, out: &mut Vec<u8>) { T::spec(self, out) } }
impl<T: Spec> Spec for Rc<T> { fn spec(&self, out: &mut Vec<u8>) { T::spec(self, out) } }
impl<T: Spec> Spec for Arc<T> { fn spec(&self, out: &mut Vec<u8>) { T::spec(self, out) } }

impl<T: Same> Same for Vec<T> { fn same(&self, o: &Self) -> bool { self.len() == o.len() && self.iter().zip(o).all(|(a, b)| a.same(b)) } }
impl<T: Same, const N: usize> Same for [T; N] { fn same(&self, o: &Self) -> bool { self.iter().zip(o).all(|(a, b)| a.same(b)) } }
impl<T: Same> Same for Option<T> { fn same(&self, o: &Self) -> bool {
    match (self, o) { (None, None) => true, (Some(a), Some(b)) => a.same(b), _ => false }
} }
impl<T: Eq + Hash> Same for HashSet<T> { fn same(&self, o: &Self) -> bool { self == o } }
impl<K: Eq + Hash, V: Same> Same for HashMap<K, V> { fn same(&self, o: &Self) -> bool {
    self.len() == o.len() && self.iter().all(|(k, v)| o.get(k).is_some_and(|w| v.same(w)))
} }
impl<T: Same + Clone> Same for Cow<'_, T> { fn same(&self, o: &Self) -> bool { T::same(self, o) } }
impl<T: Same> Same for Rc<T> { fn same(&self, o: &Self) -> bool { T::same(self, o) } }
impl<T: Same> Same for Arc<T> { fn same(&self, o: &Self) -> bool { T::same(self, o) } }

/// A buffer made of separate segments. Like `bytes::buf::Chain`, but of any number of segments.
pub struct Segments<'a> {
    pub parts: Vec<&'a [u8]>,
    left: usize,
}

impl<'a> Segments<'a> {
    pub fn new(data: &'a [u8], cuts: &[usize]) -> Self {
        let mut parts = Vec::new();
        let mut from = 0;
        for &c in cuts {
            let c = c.clamp(from, data.len());
            if c > from { parts.push(&data[from..c]); }
            from = c;
        }
        if from < data.len() { parts.push(&data[from..]); }
        parts.reverse();
        Self { parts, left: data.len() }
    }
}

impl Buf for Segments<'_> {
    fn remaining(&self) -> usize { self.left }
    fn chunk(&self) -> &[u8] { self.parts.last().copied().unwrap_or_default() }
    fn advance(&mut self, mut n: usize) {
        self.left = self.left.checked_sub(n).expect("advance within the remaining data");
        while n > 0 {
            let p = self.parts.last_mut().expect("advance within the remaining data");
            if n < p.len() { *p = &p[n..]; return; }
            n -= p.len();
            self.parts.pop();
        }
    }
}

pub fn trailing() -> Vec<u8> {
    let n = below(4);
    (0..n).map(|_| any::<u8>()).collect()
}

pub fn kind(e: &mabo::buf::Error) -> u8 {
    match e {
        mabo::buf::Error::InsufficientData => 0,
        mabo::buf::Error::DecodeInt(_) => 1,
        mabo::buf::Error::NonUtf8(_) => 2,
        mabo::buf::Error::MissingField { .. } => 3,
        mabo::buf::Error::UnknownVariant(_) => 4,
        mabo::buf::Error::UnknownEncoding(_) => 5,
        mabo::buf::Error::Zero => 6,
    }
}

/// Bytes that are close to a well-formed encoding, or arbitrary.
pub fn hostile(mut data: Vec<u8>) -> Vec<u8> {
    match below(6) {
        0 => data = bytes(),
        1 => {
            // another length prefix, possibly a huge one
            let at = data.iter().position(|b| b & 0x80 == 0).map_or(0, |i| i + 1);
            let mut d = Vec::new();
            let len: u64 = any();
            leb(u128::from(len), &mut d);
            d.extend(&data[at.min(data.len())..]);
            data = d;
        }
        2 => {
            let n = up_to(data.len());
            data.truncate(n);
        }
        k => {
            for _ in 0..k - 2 {
                if data.is_empty() { break; }
                let i = up_to(data.len() - 1);
                match below(3) {
                    0 => data[i] = any(),
                    1 => data.insert(i, any()),
                    _ => { data.remove(i); }
                }
            }
        }
    }
    data
}


// Types that occur in generated code.
macro_rules! non_zero_ints { ($($t:ty: $n:ident)+) => { $(
    impl Spec for std::num::$n { fn spec(&self, out: &mut Vec<u8>) { self.get().spec(out) } }
    impl Same for std::num::$n { fn same(&self, o: &Self) -> bool { self == o } }
    impl Arb for std::num::$n { fn arb() -> Self { Self::new(any::<$t>()).unwrap_or(Self::MAX) } }
)+ } }
non_zero_ints!(u8: NonZeroU8 i8: NonZeroI8 u16: NonZeroU16 i16: NonZeroI16 u32: NonZeroU32 i32: NonZeroI32
    u64: NonZeroU64 i64: NonZeroI64 u128: NonZeroU128 i128: NonZeroI128);

impl<T: Same> Same for NonZero<T> { fn same(&self, o: &Self) -> bool { self.get().same(o.get()) } }
impl Arb for NonZero<String> { fn arb() -> Self { Self::new(any()).unwrap_or_else(|| Self::new("y".into()).unwrap()) } }
impl Arb for NonZero<Bytes> { fn arb() -> Self { Self::new(any()).unwrap_or_else(|| Self::new(vec![any::<u8>()].into()).unwrap()) } }
impl<T: Arb> Arb for NonZero<Vec<T>> { fn arb() -> Self { Self::new(any()).unwrap_or_else(|| Self::new(vec![any()]).unwrap()) } }
impl<T: Arb + Eq + Hash> Arb for NonZero<HashSet<T>> { fn arb() -> Self { Self::new(any()).unwrap_or_else(|| Self::new([any()].into()).unwrap()) } }
impl<K: Arb + Eq + Hash, V: Arb> Arb for NonZero<HashMap<K, V>> { fn arb() -> Self { Self::new(any()).unwrap_or_else(|| Self::new([(any(), any())].into()).unwrap()) } }
impl Arb for Bytes { fn arb() -> Self { bytes().into() } }
impl Spec for Bytes { fn spec(&self, out: &mut Vec<u8>) { prefixed(self.to_vec(), out) } }
impl Same for Bytes { fn same(&self, o: &Self) -> bool { self == o } }

macro_rules! tuples { ($(($($t:ident $i:tt)+))+) => { $(
    impl<$($t: Spec),+> Spec for ($($t,)+) { fn spec(&self, out: &mut Vec<u8>) { $(self.$i.spec(out);)+ } }
    impl<$($t: Same),+> Same for ($($t,)+) { fn same(&self, o: &Self) -> bool { true $(&& self.$i.same(&o.$i))+ } }
)+ } }
tuples!((A 0 B 1)
    (A 0 B 1 C 2)
    (A 0 B 1 C 2 D 3)
    (A 0 B 1 C 2 D 3 E 4)
    (A 0 B 1 C 2 D 3 E 4 F 5)
    (A 0 B 1 C 2 D 3 E 4 F 5 G 6)
    (A 0 B 1 C 2 D 3 E 4 F 5 G 6 H 7)
    (A 0 B 1 C 2 D 3 E 4 F 5 G 6 H 7 I 8)
    (A 0 B 1 C 2 D 3 E 4 F 5 G 6 H 7 I 8 J 9)
    (A 0 B 1 C 2 D 3 E 4 F 5 G 6 H 7 I 8 J 9 K 10)
    (A 0 B 1 C 2 D 3 E 4 F 5 G 6 H 7 I 8 J 9 K 10 L 11));
