//! P07: non-zero integers, complete for every encoded value.
use crate::nd::{any, up_to};
use mabo::buf;
use paste::paste;

macro_rules! nonzero {
    ($($name:ident $max:literal $unwind:literal;)+) => { paste! { $(
        #[cfg_attr(kani, kani::proof)] #[cfg_attr(kani, kani::unwind($unwind))]
        pub fn [<p07__non_zero_ $name __guard__full>]() {
            let v: $name = any();
            let mut data = [0u8; $max];
            let mut w = &mut data[..];
            buf::[<encode_ $name>](&mut w, v);
            let n = $max - w.len();
            let mut r = &data[..n];
            match buf::[<decode_non_zero_ $name>](&mut r) {
                Ok(x) => assert!(v != 0 && x.get() == v && r.len() == 0, "the encoded value"),
                Err(buf::Error::Zero) => assert!(v == 0, "only zero is refused"),
                Err(_) => panic!("wrong error"),
            }
        }

        #[cfg_attr(kani, kani::proof)] #[cfg_attr(kani, kani::unwind($unwind))]
        pub fn [<p07__non_zero_ $name __agrees__full>]() {
            // On any input: same as the plain decoder, except that zero is refused.
            let data: [u8; $max] = any();
            let len = up_to($max);
            let mut a = &data[..len];
            let mut b = &data[..len];
            match (buf::[<decode_ $name>](&mut a), buf::[<decode_non_zero_ $name>](&mut b)) {
                (Ok(x), Ok(y)) => assert!(x == y.get() && a.len() == b.len(), "same value"),
                (Ok(x), Err(buf::Error::Zero)) => assert!(x == 0, "only zero is refused"),
                (Err(_), Err(e)) => assert!(!matches!(e, buf::Error::Zero), "malformed input is no zero"),
                _ => panic!("disagrees with the plain decoder"),
            }
        }
    )+
        pub fn list_nonzero() -> Vec<(&'static str, fn())> { vec![$((stringify!([<p07__non_zero_ $name __guard__full>]), [<p07__non_zero_ $name __guard__full>] as fn()), (stringify!([<p07__non_zero_ $name __agrees__full>]), [<p07__non_zero_ $name __agrees__full>] as fn()),)+] }
    } };
}
nonzero! { u8 1 4; i8 1 4; u16 3 6; u32 5 8; u64 10 13; u128 19 22; i16 3 6; i32 5 8; i64 10 13; i128 19 22; }

pub fn list() -> Vec<(&'static str, fn())> {
    let mut v = Vec::new();
    v.extend(list_nonzero());
    v
}
