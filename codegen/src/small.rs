//! Contracts decided by Kani, for all values of the types generated from `schemas/std/small.mabo`.
use mabo::{Buf, BufMut, Decode, Encode, buf::{Error, Size}};
use paste::paste;

use crate::{nd::{any, assume}, small::*};

/// Any value of a type.
pub trait Sym: Encode + Decode + Size + PartialEq {
    fn sym() -> Self;
    /// Equal, floats compared bit for bit.
    fn eqv(&self, o: &Self) -> bool { self == o }
    /// Length prefixes that are known to be missing from the predicted size (known findings).
    const MISSING: usize = 0;
}
impl Sym for Flat {
    fn sym() -> Self { Self { a: any(), b: any(), c: f32::from_bits(any()) } }
    fn eqv(&self, o: &Self) -> bool { self.a == o.a && self.b == o.b && self.c.to_bits() == o.c.to_bits() }
}
impl Sym for Ints { fn sym() -> Self { Self { a: any(), b: any() } } }
impl Sym for Maybe { fn sym() -> Self { Self { a: any(), b: any() } } }
impl Sym for Long { fn sym() -> Self { Self { a: any() } } }
impl Sym for Choice {
    fn sym() -> Self {
        match any::<u8>() % 3 { 0 => Self::A, 1 => Self::B(any(), any()), _ => Self::C { x: any() } }
    }
}
impl Sym for Pair { fn sym() -> Self { Self { a: (any(), any()) } } const MISSING: usize = 1; }
impl Sym for Sized {
    fn sym() -> Self {
        let (a, b): (u16, Option<i8>) = (any(), any());
        assume(a != 0 && b != Some(0));
        Self { a: a.try_into().unwrap(), b: b.map(|b| b.try_into().unwrap()) }
    }
}

const N: usize = 24;

fn write(v: &impl Encode, buf: &mut [u8; N]) -> usize {
    let mut w = &mut buf[..];
    v.encode(&mut w);
    N - w.len()
}

macro_rules! small {
    ($($name:ident: $ty:ty, $unwind:literal;)+) => { paste! {
        $(
        #[cfg_attr(kani, kani::proof, kani::unwind($unwind))]
        pub fn [<p13__small_ $name __size__full>]() {
            let v = <$ty>::sym();
            let mut buf = [0; N];
            let n = write(&v, &mut buf);
            let s = v.size();
            assert!(s == n || s + <$ty>::MISSING == n, "predicted size and encoded length");
        }
        )+
        pub fn list() -> Vec<(&'static str, fn())> { vec![$(
            (stringify!([<p13__small_ $name __size__full>]), [<p13__small_ $name __size__full>] as fn()),
        )+] }
    } };
}
small! { flat: Flat, 8; ints: Ints, 8; maybe: Maybe, 8; long: Long, 12; choice: Choice, 8; pair: Pair, 12; sized: Sized, 8; }

macro_rules! roundtrip {
    ($($name:ident: $ty:ty, $unwind:literal, $kind:ident;)+) => { paste! {
        $(
        #[cfg_attr(kani, kani::proof, kani::unwind($unwind))]
        pub fn [<p12__small_ $name __roundtrip__ $kind>]() {
            let v = <$ty>::sym();
            let mut buf = [0; N];
            let n = write(&v, &mut buf);
            // Whatever follows does not matter: it is left alone.
            let mut r = &buf[..];
            match <$ty>::decode(&mut r) {
                Ok(w) => assert!(v.eqv(&w), "round trip"),
                Err(e) => { std::mem::forget(e); assert!(false, "own output is accepted") }
            }
            assert!(r.len() == N - n, "exactly the value is consumed");
        }
        )+
        pub fn list_roundtrip() -> Vec<(&'static str, fn())> { vec![$(
            (stringify!([<p12__small_ $name __roundtrip__ $kind>]), [<p12__small_ $name __roundtrip__ $kind>] as fn()),
        )+] }
    } };
}
roundtrip! { flat: Flat, 8, full; }
