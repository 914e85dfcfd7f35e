//! Symbolic inputs of the contracts.
//!
//! Under Kani these are the verifier's own symbolic values. In a native build the same contract
//! functions are executed with concrete values instead: either the bytes of a verifier
//! counterexample (replay), or a seeded, boundary biased search for a failing input.
#![allow(dead_code)]

#[cfg(kani)]
pub use kani::{any, assume};

#[cfg(not(kani))]
pub use native::*;

/// Any number up to and including `max`.
pub fn up_to(max: usize) -> usize {
    #[cfg(not(kani))]
    let n = native::limited(max);
    #[cfg(kani)]
    let n: usize = any();
    assume(n <= max);
    n
}

#[cfg(not(kani))]
mod native {
    use std::cell::RefCell;
    use std::panic;

    pub struct Rejected;

    #[derive(Default)]
    struct State {
        replay: Option<Vec<u8>>,
        pos: usize,
        rng: u64,
        used: Vec<u8>,
        notes: Vec<String>,
    }
    thread_local!(static STATE: RefCell<State> = RefCell::default());

    pub fn rnd() -> u64 {
        STATE.with(|s| {
            let s = &mut *s.borrow_mut();
            s.rng = s.rng.wrapping_add(0x9e37_79b9_7f4a_7c15);
            let mut z = s.rng;
            z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
            z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
            z ^ (z >> 31)
        })
    }

    /// A number below `n`; recorded, so that it is part of the replayable input.
    pub fn below(n: usize) -> usize {
        let raw = word(4, |_| rnd() as u128 % n as u128);
        raw as usize % n
    }

    pub fn limited(max: usize) -> usize {
        word(8, |_| rnd() as u128 % (max as u128 + 1)) as usize
    }

    fn word(width: usize, make: impl Fn(usize) -> u128) -> u128 {
        let replayed = STATE.with(|s| {
            let s = &mut *s.borrow_mut();
            let r = s.replay.as_ref()?;
            let mut v = 0u128;
            for i in 0..width {
                v |= u128::from(r.get(s.pos + i).copied().unwrap_or(0)) << (8 * i);
            }
            s.pos += width;
            Some(v)
        });
        let v = replayed.unwrap_or_else(|| make(width));
        STATE.with(|s| s.borrow_mut().used.extend_from_slice(&v.to_le_bytes()[..width]));
        v
    }

    /// Boundary biased integer: powers of two and of 128 and their neighbours are likely.
    fn int(width: usize) -> u128 {
        let bits = 8 * width as u32;
        let full = || u128::from(rnd()) << 64 | u128::from(rnd());
        let v = match rnd() % 8 {
            0 => u128::from(rnd() % 4),
            1 => 0u128.wrapping_sub(u128::from(rnd() % 4) + 1),
            2 | 3 => (1u128 << (rnd() as u32 % bits)).wrapping_add(u128::from(rnd() % 5)).wrapping_sub(2),
            4 => (!0u128 << (rnd() as u32 % bits)).wrapping_add(u128::from(rnd() % 5)).wrapping_sub(2),
            5 => u128::from(rnd() % 300),
            6 => full() & ((1u128 << (rnd() as u32 % bits)) - 1),
            _ => full(),
        };
        if bits == 128 { v } else { v & ((1u128 << bits) - 1) }
    }

    pub trait Arb: Sized {
        fn arb() -> Self;
    }

    pub fn any<T: Arb>() -> T {
        T::arb()
    }

    pub fn assume(cond: bool) {
        if !cond {
            panic::panic_any(Rejected);
        }
    }

    /// Describe the (concrete) case, for the replay file and the evidence samples.
    pub fn note(text: String) {
        STATE.with(|s| s.borrow_mut().notes.push(text));
    }

    macro_rules! ints { ($($t:ty)+) => { $(impl Arb for $t {
        fn arb() -> Self { word(std::mem::size_of::<$t>(), int) as $t }
    })+ } }
    ints!(u16 u32 u64 u128 usize i8 i16 i32 i64 i128);

    impl Arb for u8 {
        fn arb() -> Self {
            word(1, |_| match rnd() % 6 {
                0 => u128::from(rnd() % 12),
                1 => 0x80 | u128::from(rnd() % 4),
                2 => [0, 1, 0x7f, 0x80, 0x81, 0xff, 0xfe][rnd() as usize % 7],
                _ => u128::from(rnd() & 0xff),
            }) as u8
        }
    }
    impl Arb for bool {
        fn arb() -> Self { word(1, |_| u128::from(rnd() & 1)) & 1 == 1 }
    }
    impl<T: Arb> Arb for Option<T> {
        fn arb() -> Self { bool::arb().then(T::arb) }
    }
    impl<T: Arb, const N: usize> Arb for [T; N] {
        fn arb() -> Self { std::array::from_fn(|_| T::arb()) }
    }

    /// Container length: small ones, and ones around the points where a length prefix grows.
    pub fn length(big: bool) -> usize {
        let pick = word(4, |_| {
            let r = rnd();
            u128::from(match r % 64 {
                0..=39 => r >> 32 & 3,
                40..=55 => (r >> 32) % 14,
                56..=61 => 124 + (r >> 32) % 9,
                62 => (r >> 32) % 300,
                _ if big && r >> 60 == 0 => 16_380 + (r >> 32) % 8,
                // Rarely, as these take long: beyond 16 bits, and where the prefix grows to four bytes.
                _ if r >> 54 == 1 << 6 && DEPTH.with(|d| d.get()) < 2 => [4_000, 16_380, 65_533, 70_000][(r >> 40) as usize % 4] + (r >> 32) % 8,
                _ if big && r >> 53 == 1 << 8 && DEPTH.with(|d| d.get()) == 0 => [1 << 20, (1 << 21) - 4][(r >> 40) as usize % 2] + (r >> 32) % 8,
                _ => 60 + (r >> 32) % 10,
            })
        }) as usize;
        pick.min(2_100_000)
    }

    impl Arb for f32 {
        fn arb() -> Self { f32::from_bits(u32::arb()) }
    }
    impl Arb for f64 {
        fn arb() -> Self { f64::from_bits(u64::arb()) }
    }
    impl Arb for char {
        fn arb() -> Self {
            let i = below(8);
            let c = ['a', '\0', '"', '\u{7f}', '\u{80}', '\u{7ff}', '\u{ffff}', '\u{10ffff}'][i];
            if below(4) == 0 { char::from_u32(u32::arb()).unwrap_or(c) } else { c }
        }
    }
    impl Arb for String {
        fn arb() -> Self {
            let n = length(true);
            if n > 40 {
                // One character that differs, anywhere.
                let mut s = "x".repeat(n);
                if below(2) == 0 {
                    let at = below(n);
                    s.replace_range(at..=at, &char::arb().to_string());
                }
                return s;
            }
            (0..n).map(|_| char::arb()).collect()
        }
    }
    impl Arb for Box<str> {
        fn arb() -> Self { String::arb().into() }
    }
    pub fn bytes() -> Vec<u8> {
        let n = length(true);
        if n > 40 {
            let (b, step) = (u8::arb(), u8::arb());
            return (0..n).map(|i| b.wrapping_add((i as u8).wrapping_mul(step))).collect();
        }
        (0..n).map(|_| u8::arb()).collect()
    }
    impl Arb for Box<[u8]> {
        fn arb() -> Self { bytes().into() }
    }
    thread_local!(static DEPTH: std::cell::Cell<u32> = const { std::cell::Cell::new(0) });
    pub fn items<T: Arb, C: FromIterator<T>>() -> C {
        let d = DEPTH.with(|d| d.replace(d.get() + 1));
        let n = if d == 0 { length(false) } else if d == 1 { length(false) % 70 } else { below(4) };
        let c = (0..n).map(|_| T::arb()).collect();
        DEPTH.with(|x| x.set(d));
        c
    }
    impl<T: Arb> Arb for Vec<T> {
        fn arb() -> Self { items() }
    }
    impl<K: Arb + Eq + std::hash::Hash, V: Arb> Arb for std::collections::HashMap<K, V> {
        fn arb() -> Self { items() }
    }
    impl<T: Arb + Eq + std::hash::Hash> Arb for std::collections::HashSet<T> {
        fn arb() -> Self { items() }
    }
    impl<T: Arb> Arb for std::rc::Rc<T> {
        fn arb() -> Self { T::arb().into() }
    }
    impl<T: Arb> Arb for std::sync::Arc<T> {
        fn arb() -> Self { T::arb().into() }
    }
    impl<T: Arb> Arb for Box<T> {
        fn arb() -> Self { T::arb().into() }
    }
    impl<T: Arb + Clone> Arb for std::borrow::Cow<'_, T> {
        fn arb() -> Self { std::borrow::Cow::Owned(T::arb()) }
    }
    impl Arb for () {
        fn arb() -> Self {}
    }
    macro_rules! tuples { ($(($($t:ident)+))+) => { $(impl<$($t: Arb),+> Arb for ($($t,)+) {
        fn arb() -> Self { ($($t::arb(),)+) }
    })+ } }
    tuples!((A B)
        (A B C)
        (A B C D)
        (A B C D E)
        (A B C D E F)
        (A B C D E F G)
        (A B C D E F G H)
        (A B C D E F G H I)
        (A B C D E F G H I J)
        (A B C D E F G H I J K)
        (A B C D E F G H I J K L));

    /// Note the case, cut to a readable length.
    pub fn note_value(what: &str, v: &dyn std::fmt::Debug) {
        STATE.with(|s| {
            let s = &mut *s.borrow_mut();
            if s.notes.len() < 8 {
                let mut t = format!("{what} = {v:?}");
                if t.len() > 300 {
                    t = t.chars().take(300).collect::<String>() + "...";
                }
                s.notes.push(t);
            }
        });
    }

    pub enum Outcome {
        Pass,
        Rejected,
        Fail(String),
    }

    /// Run one contract once. Returns the outcome, the input bytes and the notes.
    pub fn run(f: fn(), seed: u64, replay: Option<Vec<u8>>) -> (Outcome, Vec<u8>, Vec<String>) {
        STATE.with(|s| *s.borrow_mut() = State { replay, rng: seed, ..State::default() });
        DEPTH.with(|d| d.set(0));
        let res = panic::catch_unwind(f);
        let (used, notes) = STATE.with(|s| {
            let s = &mut *s.borrow_mut();
            (std::mem::take(&mut s.used), std::mem::take(&mut s.notes))
        });
        let out = match res {
            Ok(()) => Outcome::Pass,
            Err(e) if e.is::<Rejected>() => Outcome::Rejected,
            Err(e) => Outcome::Fail(if let Some(s) = e.downcast_ref::<&str>() {
                (*s).to_owned()
            } else if let Some(s) = e.downcast_ref::<String>() {
                s.clone()
            } else {
                "panic".to_owned()
            }),
        };
        (out, used, notes)
    }
}
