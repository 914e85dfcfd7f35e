//! P10: the result does not depend on how the input is split into segments.
use crate::nd::{any, up_to};
use mabo::{Buf, FieldEncoding, buf};
use paste::paste;

// Any bytes, any split point (including empty segments).
macro_rules! two_segments {
    ($($name:ident $max:literal $unwind:literal |$x:ident| $bits:expr;)+) => { paste! { $(
        #[cfg_attr(kani, kani::proof)] #[cfg_attr(kani, kani::unwind($unwind))]
        pub fn [<p10__ $name __two_segments__full>]() {
            let data: [u8; $max + 1] = any();
            let len = up_to($max + 1);
            let i = up_to(len);
            let mut whole = &data[..len];
            let mut split = (&data[..i]).chain(&data[i..len]);
            match (buf::[<decode_ $name>](&mut whole), buf::[<decode_ $name>](&mut split)) {
                (Ok(a), Ok(b)) => {
                    let a = { let $x = a; $bits };
                    let b = { let $x = b; $bits };
                    assert!(a == b, "same value");
                    assert!(whole.len() == split.remaining(), "same consumption");
                }
                (Err(_), Err(_)) => {}
                _ => panic!("result depends on the segments"),
            }
        }
    )+
        pub fn list_two_segments() -> Vec<(&'static str, fn())> { vec![$((stringify!([<p10__ $name __two_segments__full>]), [<p10__ $name __two_segments__full>] as fn()),)+] }
    } };
}
two_segments! { u64 10 15 |x| x; i64 10 15 |x| x; u128 19 24 |x| x; i128 19 24 |x| x; }

// Any bytes, any two split points (so up to three segments, including empty ones).
macro_rules! segments {
    ($($name:ident $max:literal $unwind:literal |$x:ident| $bits:expr;)+) => { paste! { $(
        #[cfg_attr(kani, kani::proof)] #[cfg_attr(kani, kani::unwind($unwind))]
        pub fn [<p10__ $name __three_segments__full>]() {
            let data: [u8; $max + 1] = any();
            let len = up_to($max + 1);
            let j = up_to(len);
            let i = up_to(j);
            let mut whole = &data[..len];
            let mut split = (&data[..i]).chain(&data[i..j]).chain(&data[j..len]);
            match (buf::[<decode_ $name>](&mut whole), buf::[<decode_ $name>](&mut split)) {
                (Ok(a), Ok(b)) => {
                    let a = { let $x = a; $bits };
                    let b = { let $x = b; $bits };
                    assert!(a == b, "same value");
                    assert!(whole.len() == split.remaining(), "same consumption");
                }
                (Err(_), Err(_)) => {}
                _ => panic!("result depends on the segments"),
            }
        }
    )+
        pub fn list_segments() -> Vec<(&'static str, fn())> { vec![$((stringify!([<p10__ $name __three_segments__full>]), [<p10__ $name __three_segments__full>] as fn()),)+] }
    } };
}
segments! {
    bool 1 8 |x| x; u8 1 8 |x| x; i8 1 8 |x| x;
    f32 4 8 |x| x.to_bits(); f64 8 12 |x| x.to_bits();
    u16 3 8 |x| x; u32 5 10 |x| x; u64 10 15 |x| x;
    i16 3 8 |x| x; i32 5 10 |x| x; i64 10 15 |x| x;
    u128 19 24 |x| x; i128 19 24 |x| x;
    id 5 10 |x| x.into_u32(); variant_id 5 10 |x| x.value;
}

#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(14))]
pub fn p10__skip__two_segments__bounded() {
    let data: [u8; 10] = any();
    let len = up_to(10);
    let i = up_to(len);
    let raw: u32 = any();
    if let Some(e) = FieldEncoding::from_u32(raw) {
        let mut whole = &data[..len];
        let mut split = (&data[..i]).chain(&data[i..len]);
        let (a, b) = (buf::decode_skip(&mut whole, e).is_ok(), buf::decode_skip(&mut split, e).is_ok());
        assert!(a == b, "same result");
        if a { assert!(whole.len() == split.remaining(), "same consumption"); }
    }
}

pub fn list() -> Vec<(&'static str, fn())> {
    let mut v: Vec<(&'static str, fn())> = vec![
        ("p10__skip__two_segments__bounded", p10__skip__two_segments__bounded),
    ];
    v.extend(list_two_segments());
    v.extend(list_segments());
    v
}
