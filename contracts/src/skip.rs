//! P09: skipping an unknown field consumes exactly its value.
use crate::nd::{any, up_to};
use mabo::{FieldEncoding, buf};
use paste::paste;

macro_rules! skip_int {
    ($($name:ident $max:literal $unwind:literal;)+) => { paste! { $(
        #[cfg_attr(kani, kani::proof)] #[cfg_attr(kani, kani::unwind($unwind))]
        pub fn [<p09__skip_ $name __exact__full>]() {
            let v: $name = any();
            let mut data: [u8; $max + 1] = any();
            let mut w = &mut data[..$max];
            buf::[<encode_ $name>](&mut w, v);
            let n = $max - w.len();
            let mut r = &data[..];
            assert!(buf::decode_skip(&mut r, FieldEncoding::Varint).is_ok(), "skips");
            assert!(r.len() == $max + 1 - n, "exactly the value");
            let mut r = &data[..n - 1];
            assert!(buf::decode_skip(&mut r, FieldEncoding::Varint).is_err(), "truncated value is an error");
        }
    )+
        pub fn list_skip_int() -> Vec<(&'static str, fn())> { vec![$((stringify!([<p09__skip_ $name __exact__full>]), [<p09__skip_ $name __exact__full>] as fn()),)+] }
    } };
}
skip_int! { u16 3 6; u32 5 8; u64 10 13; u128 19 22; i16 3 6; i32 5 8; i64 10 13; i128 19 22; }

macro_rules! skip_fixed {
    ($($name:ident $enc:ident $width:literal;)+) => { paste! { $(
        #[cfg_attr(kani, kani::proof)] #[cfg_attr(kani, kani::unwind(12))]
        pub fn [<p09__skip_ $name __exact__full>]() {
            let data: [u8; $width + 2] = any();
            let len = up_to($width + 2);
            let mut r = &data[..len];
            let ok = buf::decode_skip(&mut r, FieldEncoding::$enc).is_ok();
            assert!(ok == (len >= $width), "truncated value is an error");
            if ok { assert!(r.len() == len - $width, "exactly the width"); }
        }
    )+
        pub fn list_skip_fixed() -> Vec<(&'static str, fn())> { vec![$((stringify!([<p09__skip_ $name __exact__full>]), [<p09__skip_ $name __exact__full>] as fn()),)+] }
    } };
}
skip_fixed! { fixed1 Fixed1 1; fixed4 Fixed4 4; fixed8 Fixed8 8; }

// Length delimited: every length prefix, payloads up to the stated bound.
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(14))]
pub fn p09__skip_length_prefixed__exact__bounded() {
    let data: [u8; 16] = any();
    let len = up_to(16);
    let mut probe = &data[..len];
    let prefix = buf::decode_u64(&mut probe);
    let mut r = &data[..len];
    let res = buf::decode_skip(&mut r, FieldEncoding::LengthPrefixed);
    match prefix {
        Ok(n) if n <= probe.len() as u64 => {
            assert!(res.is_ok(), "skips");
            assert!(r.len() as u64 == probe.len() as u64 - n, "prefix and payload");
        }
        _ => assert!(res.is_err(), "truncated value is an error"),
    }
}

// Arbitrary bytes, every marker: terminates with a result, never reads more than available.
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(14))]
pub fn p06__skip__total__bounded() {
    let data: [u8; 12] = any();
    let len = up_to(12);
    let raw: u32 = any();
    if let Some(e) = FieldEncoding::from_u32(raw) {
        let mut r = &data[..len];
        let _ = buf::decode_skip(&mut r, e);
        assert!(r.len() <= len, "never more than available");
    }
}

pub fn list() -> Vec<(&'static str, fn())> {
    let mut v: Vec<(&'static str, fn())> = vec![
        ("p09__skip_length_prefixed__exact__bounded", p09__skip_length_prefixed__exact__bounded),
        ("p06__skip__total__bounded", p06__skip__total__bounded),
    ];
    v.extend(list_skip_int());
    v.extend(list_skip_fixed());
    v
}
