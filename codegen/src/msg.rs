//! Contracts that generated types have to fulfil.
use std::fmt::Debug;

use mabo::{Decode, Encode, buf::{Error, Size}};

use crate::{nd::{Arb, any, below, bytes, note_value, up_to}, spec::{Same, Spec, Segments, hostile, leb, prefixed, trailing}};

/// One field of a struct or variant, and its encoded content if it is present.
pub struct Part {
    pub id: u32,
    pub name: Option<&'static str>,
    /// Wire marker, as far as the field can be skipped by it.
    pub marker: Option<u32>,
    pub optional: bool,
    pub tuple: bool,
    pub bytes: Option<Vec<u8>>,
}

pub trait Msg {
    const VARIANTS: &'static [u32];
    fn parts(&self) -> Vec<Part>;
    fn variant(&self) -> Option<u32>;
    fn unit(&self) -> bool;
    /// Make the optional field absent.
    fn clear(&mut self, id: u32);
}

pub trait Full: Msg + Encode + Decode + Size + Spec + Same + Arb + Debug + Clone + PartialEq {}
impl<T: Msg + Encode + Decode + Size + Spec + Same + Arb + Debug + Clone + PartialEq> Full for T {}

pub fn short(v: &impl Spec) -> Vec<u8> { v.bytes() }
pub fn long(v: &impl Spec) -> Vec<u8> {
    let mut out = Vec::new();
    prefixed(v.bytes(), &mut out);
    out
}

fn field(id: u32, marker: u32, content: &[u8], out: &mut Vec<u8>) {
    leb(u128::from(id) * 8 + u128::from(marker), out);
    out.extend(content);
}

/// Documented form of a struct or enum.
pub fn write(v: &impl Msg, out: &mut Vec<u8>) {
    if let Some(id) = v.variant() { leb(id.into(), out) }
    if v.unit() { return }
    for p in v.parts() {
        if let Some(b) = p.bytes { field(p.id, p.marker.unwrap_or(1), &b, out) }
    }
    out.push(0);
}

fn encoded(v: &impl Encode) -> Vec<u8> {
    let mut w = Vec::new();
    v.encode(&mut w);
    w
}

pub fn roundtrip<T: Full>() {
    let v: T = any();
    note_value("value", &v);
    let mut data = encoded(&v);
    assert_eq!(data, v.bytes(), "documented wire form");
    let rest = trailing();
    data.extend(&rest);
    let mut r = &data[..];
    match T::decode(&mut r) {
        Ok(w) => {
            note_value("decoded", &w);
            assert!(v.same(&w), "round trip");
        }
        Err(e) => panic!("own output refused: {e}"),
    }
    assert_eq!(r, rest, "exactly the value is consumed");
    let mut r = Segments::new(&data, &[up_to(data.len())]);
    let w = T::decode(&mut r).expect("own output from two segments");
    assert!(v.same(&w), "round trip");
}

/// `tuples`: fields that are tuples are known to miss their length prefix (see known findings).
pub fn size<T: Full>(tuples: bool) {
    let v: T = any();
    note_value("value", &v);
    let n = encoded(&v).len();
    let mut missing = 0;
    if tuples {
        for p in v.parts() {
            if let (true, Some(b)) = (p.tuple, &p.bytes) {
                missing += b.iter().position(|b| b & 0x80 == 0).unwrap() + 1;
            }
        }
    }
    let s = v.size();
    assert!(s == n || s + missing == n, "predicted size {s} and encoded length {n}");
}

fn unknown_field(known: &[u32], out: &mut Vec<u8>) {
    let mut id = match below(4) { 0 => 1 + below(40) as u32, 1 => 536_870_911 - below(5) as u32, _ => (any::<u32>() >> 3).max(1) };
    while known.contains(&id) { id = id % 536_870_911 + 1 }
    let mut content = Vec::new();
    let marker = below(5) as u32;
    match marker {
        0 => leb(any(), &mut content),
        1 => prefixed(bytes(), &mut content),
        2 => content.push(any()),
        3 => content.extend(any::<[u8; 4]>()),
        _ => content.extend(any::<[u8; 8]>()),
    }
    field(id, marker, &content, out);
}

pub fn evolution<T: Full>() {
    let mut v: T = any();
    note_value("value", &v);
    let rest = trailing();
    // Another version's enum may have variants this one lacks.
    if v.variant().is_some() && below(6) == 0 {
        let mut id: u32 = if below(2) == 0 { below(20) as u32 } else { any() };
        while T::VARIANTS.contains(&id) { id = id.wrapping_add(1) }
        let mut data = Vec::new();
        leb(id.into(), &mut data);
        data.extend(&encoded(&v)[1..]);
        match T::decode(&mut &data[..]) {
            Err(Error::UnknownVariant(n)) => assert_eq!(n, id, "number of the unknown variant"),
            Err(e) => panic!("unknown variant {id}: {e}"),
            Ok(_) => panic!("unknown variant {id} accepted"),
        }
        return;
    }
    let mut parts = v.parts();
    let known = parts.iter().map(|p| p.id).collect::<Vec<_>>();
    let mut missing = None;
    if !parts.is_empty() {
        let i = up_to(parts.len() - 1);
        match below(3) {
            0 if parts[i].optional => {
                parts[i].bytes = None;
                v.clear(parts[i].id);
            }
            1 if !parts[i].optional => {
                missing = Some((parts[i].id, parts[i].name));
                parts[i].bytes = None;
            }
            _ => {}
        }
    }
    note_value("without", &missing);
    // Any order, with fields of other versions in between.
    let mut data = Vec::new();
    if let Some(id) = v.variant() { leb(id.into(), &mut data) }
    if !v.unit() {
        let shuffle = below(3) > 0;
        let extra = below(3) > 0;
        while !parts.is_empty() {
            if extra { for _ in 0..below(3) { unknown_field(&known, &mut data) } }
            let p = parts.remove(if shuffle { up_to(parts.len() - 1) } else { 0 });
            if let Some(b) = p.bytes { field(p.id, p.marker.unwrap_or(1), &b, &mut data) }
        }
        if extra { for _ in 0..below(3) { unknown_field(&known, &mut data) } }
        data.push(0);
    }
    note_value("bytes", &data);
    data.extend(&rest);
    let mut r = &data[..];
    match (T::decode(&mut r), missing) {
        (Ok(w), None) => {
            note_value("decoded", &w);
            assert!(v.same(&w), "same value");
            assert_eq!(r, rest, "exactly the value is consumed");
        }
        (Err(Error::MissingField { id, name }), Some(m)) => assert_eq!((id, name), m, "number and name of the missing field"),
        (Err(e), None) => panic!("refused: {e}"),
        (Err(e), Some(_)) => panic!("a missing field has to be reported as such: {e}"),
        (Ok(_), Some(_)) => panic!("a missing required field is defaulted"),
    }
}

/// A version that knows none of the fields reads over all of them.
pub fn skipped<T: Full>() {
    let v: T = any();
    note_value("value", &v);
    let mut data = encoded(&v);
    if let Some(id) = v.variant() {
        let mut head = Vec::new();
        leb(id.into(), &mut head);
        assert!(data.starts_with(&head), "variant header");
        data.drain(..head.len());
    }
    if v.unit() { return assert!(data.is_empty(), "nothing else is written") }
    // Fields that are known not to be skippable (see known findings).
    if v.parts().iter().any(|p| p.marker.is_none() && p.bytes.is_some()) { return }
    let rest = trailing();
    data.extend(&rest);
    let mut r = &data[..];
    let known = |id| v.parts().iter().any(|p| p.id == id);
    if let Err(e) = if !known(536_870_911) {
        crate::basics::Nothing::decode(&mut r).map(|_| ())
    } else if !known(536_870_910) {
        crate::basics::SingleNone::decode(&mut r).map(|_| ())
    } else if !known(123_456_789) {
        crate::ids::Skipper::decode(&mut r).map(|_| ())
    } else {
        return;
    } {
        panic!("unknown fields are not skipped: {e}");
    }
    assert_eq!(r, rest, "exactly the value is consumed");
}

pub fn total<T: Full>() {
    let v: T = any();
    let data = hostile(encoded(&v));
    note_value("bytes", &&data[..data.len().min(60)]);
    let mut r = &data[..];
    if let Ok(v) = T::decode(&mut r) { note_value("decoded", &v) }
    assert!(data.ends_with(r), "the rest is the end of the input");
}

pub fn truncated<T: Full>() {
    let v: T = any();
    let data = encoded(&v);
    if data.is_empty() { return }
    let cut = if data.len() < 40 { up_to(data.len() - 1) } else { data.len() - 1 - below(20) };
    note_value("value", &v);
    note_value("cut", &cut);
    assert!(T::decode(&mut &data[..cut]).is_err(), "a truncated encoding is an error");
}

macro_rules! contracts {
    ($($name:ident: $ty:ty, $tuple:literal;)+) => { ::paste::paste! {
        $(
        pub fn [<p12__ $name __roundtrip__sampled>]() { crate::msg::roundtrip::<$ty>() }
        pub fn [<p13__ $name __size__sampled>]() { crate::msg::size::<$ty>($tuple) }
        pub fn [<p14__ $name __evolution__sampled>]() { crate::msg::evolution::<$ty>() }
        pub fn [<p14__ $name __skipped__sampled>]() { crate::msg::skipped::<$ty>() }
        pub fn [<p15__ $name __total__sampled>]() { crate::msg::total::<$ty>() }
        pub fn [<p15__ $name __truncated__sampled>]() { crate::msg::truncated::<$ty>() }
        )+
        pub fn list() -> Vec<(&'static str, fn())> { vec![$(
            (stringify!([<p12__ $name __roundtrip__sampled>]), [<p12__ $name __roundtrip__sampled>] as fn()),
            (stringify!([<p13__ $name __size__sampled>]), [<p13__ $name __size__sampled>] as fn()),
            (stringify!([<p14__ $name __evolution__sampled>]), [<p14__ $name __evolution__sampled>] as fn()),
            (stringify!([<p14__ $name __skipped__sampled>]), [<p14__ $name __skipped__sampled>] as fn()),
            (stringify!([<p15__ $name __total__sampled>]), [<p15__ $name __total__sampled>] as fn()),
            (stringify!([<p15__ $name __truncated__sampled>]), [<p15__ $name __truncated__sampled>] as fn()),
        )+] }
    } };
}
pub(crate) use contracts;
