//! P01/P02/P03: variable-width integers, complete for every value of every width.
use crate::nd::{any, up_to};
use mabo::{buf, varint as vi};
use paste::paste;

/// Independent specification of the wire form: little endian base-128 groups, shortest form.
macro_rules! assert_canonical {
    ($bytes:expr, $n:expr, $z:expr, $ty:ty) => {{
        let (bytes, n, z): (&[u8], usize, $ty) = ($bytes, $n, $z);
        assert!(n >= 1 && n <= bytes.len(), "length in range");
        let mut i = 0;
        let mut rest = z;
        while i < n {
            let last = i + 1 == n;
            let want = (rest & 0x7f) as u8 | if last { 0 } else { 0x80 };
            assert!(bytes[i] == want, "byte is the next 7 bit group with its continuation marker");
            rest >>= 7;
            assert!(last == (rest == 0), "shortest form");
            i += 1;
        }
    }};
}

/// Independent zigzag specification: 0,-1,1,-2,.. => 0,1,2,3,..
macro_rules! zz {
    ($v:expr, $s:ty, $u:ty) => {{
        let v: $s = $v;
        if v >= 0 { (v as $u) * 2 } else { (!v as $u) * 2 + 1 }
    }};
}

macro_rules! varint {
    ($($name:ident $ty:ident $un:ident $max:literal $unwind:literal |$v:ident| $z:expr;)+) => { paste! { $(
        // decode(encode(v)) == v, consuming exactly what was written.
        #[cfg_attr(kani, kani::proof)] #[cfg_attr(kani, kani::unwind($unwind))]
        pub fn [<p01__ $name __roundtrip__full>]() {
            let v: $ty = any();
            let (bytes, n) = vi::[<encode_ $name>](v);
            assert!(n >= 1 && n <= bytes.len(), "length in range");
            match vi::[<decode_ $name>](&bytes[..n]) {
                Ok((w, m)) => assert!(w == v && m == n, "round trip"),
                Err(_) => panic!("own output rejected"),
            }
        }

        // Bytes that follow the integer are neither consumed nor able to change the value.
        #[cfg_attr(kani, kani::proof)] #[cfg_attr(kani, kani::unwind($unwind))]
        pub fn [<p01__ $name __trailing__full>]() {
            let v: $ty = any();
            let (bytes, n) = vi::[<encode_ $name>](v);
            let mut data: [u8; $max + 1] = any();
            let mut i = 0;
            while i < $max { if i < n { data[i] = bytes[i]; } i += 1; }
            match vi::[<decode_ $name>](&data) {
                Ok((w, m)) => assert!(w == v && m == n, "round trip with trailing data"),
                Err(_) => panic!("own output rejected"),
            }
        }

        // The documented wire form, byte for byte.
        #[cfg_attr(kani, kani::proof)] #[cfg_attr(kani, kani::unwind($unwind))]
        pub fn [<p02__ $name __canonical__full>]() {
            let $v: $ty = any();
            let (bytes, n) = vi::[<encode_ $name>]($v);
            assert!(bytes.len() == $max, "worst case buffer");
            assert_canonical!(&bytes, n, $z, $un);
        }

        // Every terminated group sequence within the width decodes to the number it denotes.
        #[cfg_attr(kani, kani::proof)] #[cfg_attr(kani, kani::unwind($unwind))]
        pub fn [<p02__ $name __decode_value__full>]() {
            let $v: $ty = any();
            let z: $un = $z;
            // write the specification form by hand
            let mut data = [0u8; $max];
            let mut rest = z;
            let mut n = 0;
            while n < $max {
                data[n] = (rest & 0x7f) as u8;
                rest >>= 7;
                if rest == 0 { n += 1; break; }
                data[n] |= 0x80;
                n += 1;
            }
            match vi::[<decode_ $name>](&data[..n]) {
                Ok((w, m)) => assert!(w == $v && m == n, "specification form decodes"),
                Err(_) => panic!("specification form rejected"),
            }
        }

        // Every input, overlong group sequences included: the value of the groups up to the first without the top bit, modulo 2^bits.
        #[cfg_attr(kani, kani::proof)] #[cfg_attr(kani, kani::unwind($unwind))]
        pub fn [<p02__ $name __decode_any__full>]() {
            let data: [u8; $max + 1] = any();
            let len = up_to($max + 1);
            let mut end = 0;
            let mut z: $un = 0;
            while end < len && end < $max && data[end] & 0x80 != 0 {
                z |= ((data[end] & 0x7f) as $un) << (7 * end);
                end += 1;
            }
            let terminated = end < len && end < $max;
            if terminated { z |= (data[end] as $un) << (7 * end); }
            match vi::[<decode_ $name>](&data[..len]) {
                Ok((w, n)) => {
                    assert!(terminated && n == end + 1, "consumes up to the end marker");
                    let $v = w;
                    assert!($z == z, "value of the groups");
                }
                Err(_) => assert!(!terminated, "terminated input is accepted"),
            }
        }

        // The size function predicts the encoder, both for the slice and the buffer interface.
        #[cfg_attr(kani, kani::proof)] #[cfg_attr(kani, kani::unwind($unwind))]
        pub fn [<p03__ $name __size__full>]() {
            let v: $ty = any();
            let (_, n) = vi::[<encode_ $name>](v);
            assert!(vi::[<size_ $name>](v) == n, "varint size");
            assert!(buf::[<size_ $name>](v) == n, "buffer size");
            let mut data = [0u8; $max];
            let mut w = &mut data[..];
            buf::[<encode_ $name>](&mut w, v);
            assert!($max - w.len() == n, "buffer encoder writes the same amount");
        }

        // The buffer interface writes and reads the same bytes as the slice interface.
        #[cfg_attr(kani, kani::proof)] #[cfg_attr(kani, kani::unwind($unwind))]
        pub fn [<p04__ $name __buffer_roundtrip__full>]() {
            let v: $ty = any();
            let mut data: [u8; $max + 2] = any();
            let last = data[$max + 1];
            let mut w = &mut data[..$max + 1];
            buf::[<encode_ $name>](&mut w, v);
            let n = $max + 1 - w.len();
            let mut r = &data[..];
            match buf::[<decode_ $name>](&mut r) {
                Ok(u) => assert!(u == v, "round trip"),
                Err(_) => panic!("own output rejected"),
            }
            assert!(r.len() == $max + 2 - n, "consumes exactly what was written");
            assert!(data[$max + 1] == last, "nothing written behind the value");
        }

        // Arbitrary input: a value or an error, never a panic, never more than available;
        // an input without end marker is an error, one with end marker in range is not.
        #[cfg_attr(kani, kani::proof)] #[cfg_attr(kani, kani::unwind($unwind))]
        pub fn [<p06__ $name __total__full>]() {
            let data: [u8; $max + 1] = any();
            let len = up_to($max + 1);
            let mut end = 0;
            while end < len && end < $max && data[end] & 0x80 != 0 { end += 1; }
            let terminated = end < len && end < $max;
            match vi::[<decode_ $name>](&data[..len]) {
                Ok((_, n)) => assert!(terminated && n == end + 1, "consumes up to the end marker"),
                Err(_) => assert!(!terminated, "terminated input is accepted"),
            }
            let mut r = &data[..len];
            match buf::[<decode_ $name>](&mut r) {
                Ok(_) => assert!(terminated && r.len() == len - end - 1, "consumes up to the end marker"),
                Err(_) => assert!(!terminated, "terminated input is accepted"),
            }
        }
    )+
        pub fn list_varint() -> Vec<(&'static str, fn())> { vec![$((stringify!([<p01__ $name __roundtrip__full>]), [<p01__ $name __roundtrip__full>] as fn()), (stringify!([<p01__ $name __trailing__full>]), [<p01__ $name __trailing__full>] as fn()), (stringify!([<p02__ $name __canonical__full>]), [<p02__ $name __canonical__full>] as fn()), (stringify!([<p02__ $name __decode_value__full>]), [<p02__ $name __decode_value__full>] as fn()), (stringify!([<p02__ $name __decode_any__full>]), [<p02__ $name __decode_any__full>] as fn()), (stringify!([<p03__ $name __size__full>]), [<p03__ $name __size__full>] as fn()), (stringify!([<p04__ $name __buffer_roundtrip__full>]), [<p04__ $name __buffer_roundtrip__full>] as fn()), (stringify!([<p06__ $name __total__full>]), [<p06__ $name __total__full>] as fn()),)+] }
    } };
}

varint! {
    u16 u16 u16 3 6 |v| v;
    u32 u32 u32 5 8 |v| v;
    u64 u64 u64 10 13 |v| v;
    u128 u128 u128 19 22 |v| v;
    i16 i16 u16 3 6 |v| zz!(v, i16, u16);
    i32 i32 u32 5 8 |v| zz!(v, i32, u32);
    i64 i64 u64 10 13 |v| zz!(v, i64, u64);
    i128 i128 u128 19 22 |v| zz!(v, i128, u128);
}

pub fn list() -> Vec<(&'static str, fn())> {
    let mut v = Vec::new();
    v.extend(list_varint());
    v
}
