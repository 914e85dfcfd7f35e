//! P08: field and variant headers, complete for every identifier.
use crate::nd::{any, up_to};
use mabo::{FieldEncoding, FieldId, VariantId, buf};

fn encoding(k: u8) -> FieldEncoding {
    match k {
        0 => FieldEncoding::Varint,
        1 => FieldEncoding::LengthPrefixed,
        2 => FieldEncoding::Fixed1,
        3 => FieldEncoding::Fixed4,
        _ => FieldEncoding::Fixed8,
    }
}

fn any_encoding() -> (u8, FieldEncoding) {
    let k = up_to(4) as u8;
    (k, encoding(k))
}

fn any_id() -> u32 {
    // every number that fits in front of the marker
    any::<u32>() >> 3
}

#[cfg_attr(kani, kani::proof)]
pub fn p08__field_id__raw_roundtrip__full() {
    let (k, e) = any_encoding();
    let v = any_id();
    let raw = FieldId::new(v, e).into_u32();
    assert!(raw == v * 8 + k as u32, "number in the upper 29 bits, marker in the lower 3");
    match FieldId::from_u32(raw) {
        Some(id) => assert!(id.value == v && id.encoding == e, "round trip"),
        None => panic!("own output rejected"),
    }
}

#[cfg_attr(kani, kani::proof)]
pub fn p08__field_id__raw_total__full() {
    let raw: u32 = any();
    match FieldId::from_u32(raw) {
        Some(id) => {
            assert!(raw % 8 < 5, "unknown marker accepted");
            assert!(id.value == raw / 8 && id.encoding == encoding((raw % 8) as u8), "field and marker");
            assert!(id.into_u32() == raw, "inverse");
        }
        None => assert!(raw % 8 >= 5, "known marker rejected"),
    }
    match FieldEncoding::from_u32(raw) {
        Some(e) => assert!(raw % 8 < 5 && e == encoding((raw % 8) as u8), "marker"),
        None => assert!(raw % 8 >= 5, "known marker rejected"),
    }
}

#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(8))]
pub fn p08__encode_id__roundtrip__full() {
    let (_, e) = any_encoding();
    let v = any_id();
    let mut data: [u8; 6] = any();
    let mut w = &mut data[..5];
    buf::encode_id(&mut w, FieldId::new(v, e));
    let n = 5 - w.len();
    let mut r = &data[..];
    match buf::decode_id(&mut r) {
        Ok(id) => assert!(id.value == v && id.encoding == e, "round trip"),
        Err(_) => panic!("own output rejected"),
    }
    assert!(r.len() == 6 - n, "consumes exactly the header");
    assert!(buf::size_field_id(v) == n, "size of the header");
}

#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(8))]
pub fn p08__encode_id__distinct__full() {
    // The end marker can't be confused with a field, and two fields never share a header.
    let (ka, ea) = any_encoding();
    let (kb, eb) = any_encoding();
    let (va, vb) = (any_id(), any_id());
    let (a, b) = (FieldId::new(va, ea).into_u32(), FieldId::new(vb, eb).into_u32());
    assert!((a == b) == (va == vb && ka == kb), "injective");
    assert!(va == 0 || FieldId::from_u32(a).unwrap().value != buf::END_MARKER, "no field looks like the end");
}

#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(8))]
pub fn p08__decode_id__unknown__full() {
    // A header with an unknown marker is an error that names it, never a guess.
    let raw: u32 = any();
    let mut data = [0u8; 5];
    let mut w = &mut data[..];
    buf::encode_u32(&mut w, raw);
    let mut r = &data[..];
    match buf::decode_id(&mut r) {
        Ok(id) => assert!(raw % 8 < 5 && id.into_u32() == raw, "known marker"),
        Err(buf::Error::UnknownEncoding(id)) => assert!(raw % 8 >= 5 && id == raw, "names the header"),
        Err(_) => panic!("wrong error"),
    }
}

#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(8))]
pub fn p08__variant_id__roundtrip__full() {
    let v: u32 = any();
    let mut data: [u8; 6] = any();
    let mut w = &mut data[..5];
    buf::encode_variant_id(&mut w, VariantId::new(v));
    let n = 5 - w.len();
    let mut r = &data[..];
    match buf::decode_variant_id(&mut r) {
        Ok(id) => assert!(id.value == v, "round trip"),
        Err(_) => panic!("own output rejected"),
    }
    assert!(r.len() == 6 - n, "consumes exactly the header");
    assert!(buf::size_variant_id(v) == n, "size of the header");
}

// Field wrappers: header followed by the value; nothing at all for an absent optional field.
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(8))]
pub fn p08__field__layout__full() {
    let (_, e) = any_encoding();
    let v = any_id();
    let x: u8 = any();
    let mut data = [0u8; 6];
    let mut w = &mut data[..];
    buf::encode_field(&mut w, FieldId::new(v, e), |w| buf::encode_u8(w, x));
    let n = 6 - w.len();
    assert!(buf::size_field(v, || buf::size_u8(x)) == n, "size");
    let mut r = &data[..n];
    let id = buf::decode_id(&mut r);
    assert!(matches!(id, Ok(id) if id.value == v && id.encoding == e), "header first");
    assert!(matches!(buf::decode_u8(&mut r), Ok(y) if y == x) && r.len() == 0, "then the value");
}

#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(8))]
pub fn p08__field_option__layout__full() {
    let (_, e) = any_encoding();
    let v = any_id();
    let x: Option<u8> = any();
    let mut data = [0u8; 6];
    let mut w = &mut data[..];
    buf::encode_field_option(&mut w, FieldId::new(v, e), &x, |w, x| buf::encode_u8(w, *x));
    let n = 6 - w.len();
    assert!(buf::size_field_option(v, x.as_ref(), |x| buf::size_u8(*x)) == n, "size");
    match x {
        None => assert!(n == 0, "absent fields take no space"),
        Some(x) => {
            let mut r = &data[..n];
            let id = buf::decode_id(&mut r);
            assert!(matches!(id, Ok(id) if id.value == v && id.encoding == e), "header first");
            assert!(matches!(buf::decode_u8(&mut r), Ok(y) if y == x) && r.len() == 0, "then the value");
        }
    }
}

pub fn list() -> Vec<(&'static str, fn())> {
    let v: Vec<(&'static str, fn())> = vec![
        ("p08__field_id__raw_roundtrip__full", p08__field_id__raw_roundtrip__full),
        ("p08__field_id__raw_total__full", p08__field_id__raw_total__full),
        ("p08__encode_id__roundtrip__full", p08__encode_id__roundtrip__full),
        ("p08__encode_id__distinct__full", p08__encode_id__distinct__full),
        ("p08__decode_id__unknown__full", p08__decode_id__unknown__full),
        ("p08__variant_id__roundtrip__full", p08__variant_id__roundtrip__full),
        ("p08__field__layout__full", p08__field__layout__full),
        ("p08__field_option__layout__full", p08__field_option__layout__full),
    ];
    v
}
