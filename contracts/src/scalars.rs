//! P03/P04/P06: fixed-width values, complete for every value (floats compared by bit pattern).
use crate::nd::{any, up_to};
use mabo::buf;
use paste::paste;

macro_rules! fixed {
    ($($name:ident $raw:ident $width:literal |$r:ident| $v:expr, |$a:ident| $bits:expr, $be:expr;)+) => { paste! { $(
        #[cfg_attr(kani, kani::proof)] #[cfg_attr(kani, kani::unwind(20))]
        pub fn [<p04__ $name __roundtrip__full>]() {
            let $r: $raw = any();
            let v = $v;
            let mut data: [u8; $width + 2] = any();
            let (t0, t1) = (data[$width], data[$width + 1]);
            let mut w = &mut data[..];
            buf::[<encode_ $name>](&mut w, v);
            assert!(w.len() == 2, "fixed width");
            assert!(data[$width] == t0 && data[$width + 1] == t1, "nothing written behind the value");
            let want = $be;
            let mut i = 0;
            while i < $width { assert!(data[i] == want[i], "big endian layout"); i += 1; }
            let mut s = &data[..];
            match buf::[<decode_ $name>](&mut s) {
                Ok($a) => assert!($bits == $r, "bit exact round trip"),
                Err(_) => panic!("own output rejected"),
            }
            assert!(s.len() == 2, "consumes exactly what was written");
        }

        #[cfg_attr(kani, kani::proof)] #[cfg_attr(kani, kani::unwind(20))]
        pub fn [<p03__ $name __size__full>]() {
            let $r: $raw = any();
            let v = $v;
            assert!(buf::[<size_ $name>](v) == $width, "size");
            assert!(buf::Size::size(&v) == $width, "size through the trait");
        }

        #[cfg_attr(kani, kani::proof)] #[cfg_attr(kani, kani::unwind(20))]
        pub fn [<p06__ $name __total__full>]() {
            let data: [u8; $width + 1] = any();
            let len = up_to($width + 1);
            let mut s = &data[..len];
            match buf::[<decode_ $name>](&mut s) {
                Ok(_) => assert!(len >= $width && s.len() == len - $width, "consumes its width"),
                Err(_) => assert!(len < $width, "only truncated input is an error"),
            }
        }
    )+
        pub fn list_fixed() -> Vec<(&'static str, fn())> { vec![$((stringify!([<p04__ $name __roundtrip__full>]), [<p04__ $name __roundtrip__full>] as fn()), (stringify!([<p03__ $name __size__full>]), [<p03__ $name __size__full>] as fn()), (stringify!([<p06__ $name __total__full>]), [<p06__ $name __total__full>] as fn()),)+] }
    } };
}

fixed! {
    bool bool 1 |r| r, |a| a, [r as u8];
    u8 u8 1 |r| r, |a| a, [r];
    i8 i8 1 |r| r, |a| a, [r as u8];
    f32 u32 4 |r| f32::from_bits(r), |a| a.to_bits(), r.to_be_bytes();
    f64 u64 8 |r| f64::from_bits(r), |a| a.to_bits(), r.to_be_bytes();
}

// Encode/Decode trait impls forward to the functions above without altering the bytes.
macro_rules! traits {
    ($($name:ident $ty:ident $max:literal;)+) => { paste! { $(
        #[cfg_attr(kani, kani::proof)] #[cfg_attr(kani, kani::unwind(22))]
        pub fn [<p04__ $name __traits__full>]() {
            let v: $ty = any();
            let mut a = [0u8; $max];
            let mut wa = &mut a[..];
            buf::Encode::encode(&v, &mut wa);
            let n = $max - wa.len();
            let mut r = &a[..n];
            match <$ty as buf::Decode>::decode(&mut r) {
                Ok(u) => assert!(u == v && r.len() == 0, "round trip through the traits"),
                Err(_) => panic!("own output rejected"),
            }
        }
        #[cfg_attr(kani, kani::proof)] #[cfg_attr(kani, kani::unwind(22))]
        pub fn [<p03__ $name __traits__full>]() {
            let v: $ty = any();
            let mut a = [0u8; $max];
            let mut wa = &mut a[..];
            buf::Encode::encode(&v, &mut wa);
            assert!(buf::Size::size(&v) == $max - wa.len(), "size through the trait");
        }
    )+
        pub fn list_traits() -> Vec<(&'static str, fn())> { vec![$((stringify!([<p04__ $name __traits__full>]), [<p04__ $name __traits__full>] as fn()), (stringify!([<p03__ $name __traits__full>]), [<p03__ $name __traits__full>] as fn()),)+] }
    } };
}

traits! {
    bool bool 1; u8 u8 1; i8 i8 1;
    u16 u16 3; u32 u32 5; u64 u64 10; u128 u128 19;
    i16 i16 3; i32 i32 5; i64 i64 10; i128 i128 19;
}

pub fn list() -> Vec<(&'static str, fn())> {
    let mut v = Vec::new();
    v.extend(list_fixed());
    v.extend(list_traits());
    v
}
