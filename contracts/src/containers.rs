//! P03 to P07, P09 to P11 on strings, byte arrays and containers. The unbounded statements are
//! proved in Verus; the contracts here run natively on the real crate (search for failing inputs).
#![cfg(not(kani))]
use std::{
    borrow::Cow,
    collections::{HashMap, HashSet},
    fmt::Debug,
    rc::Rc,
    sync::Arc,
};

use mabo::{Buf, Bytes, Decode, Encode, FieldEncoding, NonZero, buf::{self, Size}};
use paste::paste;

use crate::{nd::{Arb, any, below, bytes, note_value, up_to}, spec::{Same, Segments, Spec, hostile, kind, trailing}};

pub trait Val: Encode + Decode + Size + Spec + Same + Arb + Debug {}
impl<T: Encode + Decode + Size + Spec + Same + Arb + Debug> Val for T {}

pub fn encoded<T: Val>(v: &T) -> Vec<u8> {
    let mut w = Vec::new();
    v.encode(&mut w);
    w
}

pub fn size<T: Val>() {
    let v: T = any();
    note_value("value", &v);
    assert_eq!(v.size(), encoded(&v).len(), "predicted size and encoded length");
}

pub fn roundtrip<T: Val>() {
    let v: T = any();
    note_value("value", &v);
    let mut data = trailing();
    let before = data.clone();
    v.encode(&mut data);
    assert!(data.starts_with(&before), "data in front is untouched");
    let mut data = data.split_off(before.len());
    assert_eq!(data, v.bytes(), "documented wire form");
    let n = data.len();
    let rest = trailing();
    data.extend(&rest);
    let mut r = &data[..];
    match T::decode(&mut r) {
        Ok(w) => {
            note_value("decoded", &w);
            assert!(v.same(&w), "round trip");
            assert!(w.bytes().len() == n, "round trip");
        }
        Err(e) => panic!("own output refused: {e}"),
    }
    assert_eq!(r, rest, "exactly the value is consumed");
}

pub fn truncated<T: Val>() {
    let v: T = any();
    let data = encoded(&v);
    let cut = if data.len() < 40 { up_to(data.len() - 1) } else { data.len() - 1 - below(20) };
    note_value("value", &v);
    note_value("cut", &cut);
    let mut r = &data[..cut];
    assert!(T::decode(&mut r).is_err(), "a truncated encoding is an error");
}

pub fn total<T: Val>() {
    let v: T = any();
    let data = hostile(encoded(&v));
    note_value("bytes", &&data[..data.len().min(60)]);
    let mut r = &data[..];
    if let Ok(v) = T::decode(&mut r) {
        note_value("decoded", &v);
    }
    assert!(data.ends_with(r), "the rest is the end of the input");
}

pub fn segments<T: Val>() {
    let v: T = any();
    let mut data = encoded(&v);
    if below(3) == 0 { data = hostile(data) }
    data.extend(trailing());
    let all = below(4) == 0 && data.len() < 20_000;
    let mut cuts = if all { (0..data.len()).collect() } else { (0..below(6)).map(|_| up_to(data.len())).collect::<Vec<_>>() };
    cuts.sort_unstable();
    note_value("bytes", &&data[..data.len().min(60)]);
    note_value("cuts", &&cuts[..cuts.len().min(60)]);
    let mut whole = &data[..];
    let mut split = Segments::new(&data, &cuts);
    match (T::decode(&mut whole), T::decode(&mut split)) {
        (Ok(a), Ok(b)) => {
            assert!(a.same(&b), "same value");
            assert_eq!(whole.len(), split.remaining(), "same consumption");
        }
        (Err(a), Err(b)) => assert_eq!(kind(&a), kind(&b), "same error"),
        (a, b) => panic!("result depends on the segments: {} vs. {}", a.is_ok(), b.is_ok()),
    }
}

fn skip<T: Val>(marker: FieldEncoding) {
    let v: T = any();
    note_value("value", &v);
    let mut data = encoded(&v);
    let n = data.len();
    let rest = trailing();
    data.extend(&rest);
    let mut r = &data[..];
    assert!(buf::decode_skip(&mut r, marker).is_ok(), "skips");
    assert_eq!(r, rest, "exactly the value is skipped");
    let cuts = [up_to(data.len())];
    let mut r = Segments::new(&data, &cuts);
    assert!(buf::decode_skip(&mut r, marker).is_ok(), "skips");
    assert_eq!(r.remaining(), rest.len(), "exactly the value is skipped");
    let mut r = &data[..up_to(n - 1)];
    assert!(buf::decode_skip(&mut r, marker).is_err(), "an incomplete value is an error");
}

macro_rules! per_type {
    ($list:ident $($prop:ident $contract:ident $f:expr => { $($name:ident: $ty:ty,)+ })+) => { paste! {
        $($( pub fn [<$prop __ $name __ $contract __sampled>]() { let f: fn() = { type T = $ty; $f }; f() } )+)+
        pub fn $list() -> Vec<(&'static str, fn())> {
            vec![$($( (stringify!([<$prop __ $name __ $contract __sampled>]), [<$prop __ $name __ $contract __sampled>] as fn()), )+)+]
        }
    } };
}

macro_rules! for_types {
    ($list:ident $types:tt $($prop:ident $contract:ident $f:expr;)+) => {
        per_type!($list $($prop $contract $f => $types)+);
    };
}

pub type Deep = Vec<Option<HashMap<u16, Vec<[Option<String>; 2]>>>>;

for_types!(list_scalars {
    bool: bool, u8: u8, i8: i8, u16: u16, i16: i16, u32: u32, i32: i32, u64: u64, i64: i64, u128: u128, i128: i128,
    f32: f32, f64: f64, string: String, box_str: Box<str>, box_bytes: Box<[u8]>, rc: Rc<String>, arc: Arc<i64>,
    cow: Cow<'static, u64>, cow_float: Cow<'static, f64>, rc_bytes: Rc<Box<[u8]>>,
}
    p03 size size::<T>;
    p04 roundtrip roundtrip::<T>;
    p06 truncated truncated::<T>;
    p06 total total::<T>;
    p10 segments segments::<T>;
);

for_types!(list_containers {
    vec_u8: Vec<u8>, vec_bool: Vec<bool>, vec_u32: Vec<u32>, vec_i128: Vec<i128>, vec_f32: Vec<f32>, vec_string: Vec<String>, vec_vec: Vec<Vec<u16>>,
    vec_option: Vec<Option<i64>>, vec_array: Vec<[u16; 3]>, vec_bytes: Vec<Box<[u8]>>, vec_map: Vec<HashMap<u8, i16>>,
    map_int: HashMap<u32, i64>, map_string: HashMap<String, Vec<u32>>, map_map: HashMap<u16, HashMap<u8, String>>, map_float: HashMap<i8, f64>,
    map_option: HashMap<bool, Option<u32>>, set_int: HashSet<i32>, set_string: HashSet<String>, set_option: HashSet<Option<u16>>,
    set_vec: HashSet<Vec<u16>>,
    option_u8: Option<u8>, option_u64: Option<u64>, option_string: Option<String>, option_option: Option<Option<u16>>, option_vec: Option<Vec<u32>>,
    array_0: [u32; 0], array_1: [String; 1], array_3: [i64; 3], array_40: [u32; 40], array_130: [u8; 130], array_array: [[u16; 2]; 3],
    array_option: [Option<u8>; 4], array_vec: [Vec<u8>; 2], array_f64: [f64; 17], rc_vec: Rc<Vec<String>>, arc_option: Arc<Option<i16>>, deep: Deep,
}
    p03 size size::<T>;
    p05 roundtrip roundtrip::<T>;
    p06 truncated truncated::<T>;
    p06 total total::<T>;
    p10 segments segments::<T>;
);

for_types!(list_skip {
    string: String, box_str: Box<str>, bytes: Box<[u8]>, vec_u8: Vec<u8>, vec_u32: Vec<u32>, vec_string: Vec<String>, map: HashMap<u32, String>,
    set: HashSet<i64>, array: [u32; 5], array_40: [u32; 40], array_0: [u8; 0], deep: Deep,
}
    p09 skip_prefixed { fn f() { skip::<T>(FieldEncoding::LengthPrefixed) } f };
);
for_types!(list_skip_int {
    u16: u16, u32: u32, u64: u64, u128: u128, i16: i16, i32: i32, i64: i64, i128: i128,
}
    p09 skip_int { fn f() { skip::<T>(FieldEncoding::Varint) } f };
);
for_types!(list_skip_1 { bool: bool, u8: u8, i8: i8, } p09 skip_fixed { fn f() { skip::<T>(FieldEncoding::Fixed1) } f };);
for_types!(list_skip_4 { f32: f32, } p09 skip_fixed { fn f() { skip::<T>(FieldEncoding::Fixed4) } f };);
for_types!(list_skip_8 { f64: f64, } p09 skip_fixed { fn f() { skip::<T>(FieldEncoding::Fixed8) } f };);

// Byte arrays as `Bytes`, strings and slices through the free functions.
pub fn p04__bytes_functions__roundtrip__sampled() {
    let v = bytes();
    note_value("value", &v);
    let b = Bytes::from(v.clone());
    let mut w = Vec::new();
    buf::encode_bytes_bytes(&mut w, &b);
    let mut x = Vec::new();
    buf::encode_bytes_std(&mut x, &v);
    assert_eq!(w, x, "both representations write the same bytes");
    assert_eq!(w, v.clone().into_boxed_slice().bytes(), "documented wire form");
    let n = w.len();
    let rest = trailing();
    w.extend(&rest);
    let mut r = &w[..];
    assert_eq!(buf::decode_bytes_bytes(&mut r).expect("own output"), b, "round trip");
    assert_eq!(r, rest, "exactly the value is consumed");
    let mut r = &w[..];
    assert_eq!(buf::decode_bytes_std(&mut r).expect("own output"), v, "round trip");
    assert_eq!(r, rest, "exactly the value is consumed");
    let mut r = Bytes::from(w[..n].to_vec());
    assert_eq!(buf::decode_bytes_bytes(&mut r).expect("own output"), b, "round trip from shared bytes");
}

pub fn p03__bytes_functions__size__sampled() {
    let v = bytes();
    let mut w = Vec::new();
    buf::encode_bytes_std(&mut w, &v);
    assert_eq!(buf::size_bytes_std(&v), w.len(), "size");
    assert_eq!(buf::size_bytes_bytes(&Bytes::from(v)), w.len(), "size");
    let s: String = any();
    let mut w = Vec::new();
    buf::encode_string(&mut w, &s);
    assert_eq!(buf::size_string(&s), w.len(), "size");
    let items: Vec<u32> = any();
    let mut w = Vec::new();
    Encode::encode(&&items[..], &mut w);
    assert_eq!(Size::size(&&items[..]), w.len(), "size of a slice");
    assert_eq!(w, items.bytes(), "slices are written like vectors");
    // fields
    let id: u32 = any::<u32>() >> 3;
    let o: Option<u64> = any();
    let mut w = Vec::new();
    buf::encode_field(&mut w, mabo::FieldId::new(id, FieldEncoding::LengthPrefixed), |w| buf::encode_string(w, &s));
    assert_eq!(buf::size_field(id, || buf::size_string(&s)), w.len(), "size of a field");
    let mut w = Vec::new();
    buf::encode_field_option(&mut w, mabo::FieldId::new(id, FieldEncoding::Varint), &o, |w, v| buf::encode_u64(w, *v));
    assert_eq!(buf::size_field_option(id, o.as_ref(), |v| buf::size_u64(*v)), w.len(), "size of an optional field");
}

pub fn p06__bytes_functions__total__sampled() {
    let v = bytes();
    let mut w = Vec::new();
    buf::encode_bytes_std(&mut w, &v);
    let data = hostile(w);
    note_value("bytes", &&data[..data.len().min(60)]);
    let mut a = &data[..];
    let mut b = &data[..];
    match (buf::decode_bytes_std(&mut a), buf::decode_bytes_bytes(&mut b)) {
        (Ok(x), Ok(y)) => assert!(x == y && a == b && data.ends_with(a), "same value"),
        (Err(_), Err(_)) => {}
        _ => panic!("representations disagree"),
    }
}

pub fn p04__string__utf8__sampled() {
    let s: String = any();
    let mut raw = s.into_bytes();
    if !raw.is_empty() && below(2) == 0 {
        let i = up_to(raw.len() - 1);
        raw[i] = any();
    }
    note_value("content", &raw);
    let mut w = Vec::new();
    buf::encode_bytes_std(&mut w, &raw);
    let mut r = &w[..];
    match (String::from_utf8(raw), buf::decode_string(&mut r)) {
        (Ok(a), Ok(b)) => assert!(a == b && r.is_empty(), "same string"),
        (Err(_), Err(buf::Error::NonUtf8(_))) => {}
        (a, b) => panic!("valid: {}, accepted: {}", a.is_ok(), b.is_ok()),
    }
    let mut r = &w[..];
    let again = Box::<str>::decode(&mut r).is_ok();
    assert_eq!(again, String::decode(&mut &w[..]).is_ok(), "owned and boxed strings agree");
}

/// Counts what is written and keeps the start of it, so that data beyond 4 GiB can be "written".
struct Sink {
    head: Vec<u8>,
    len: u64,
    scratch: [u8; 64],
}
unsafe impl mabo::BufMut for Sink {
    fn remaining_mut(&self) -> usize {
        usize::MAX
    }
    unsafe fn advance_mut(&mut self, cnt: usize) {
        self.head.extend_from_slice(&self.scratch[..cnt]);
        self.len += cnt as u64;
    }
    fn chunk_mut(&mut self) -> &mut bytes::buf::UninitSlice {
        bytes::buf::UninitSlice::new(&mut self.scratch)
    }
    fn put_slice(&mut self, src: &[u8]) {
        if self.head.len() < 32 {
            self.head.extend_from_slice(&src[..src.len().min(32)]);
        }
        self.len += src.len() as u64;
    }
    fn put<T: Buf>(&mut self, mut src: T) {
        while src.has_remaining() {
            let n = src.chunk().len();
            self.put_slice(src.chunk());
            src.advance(n);
        }
    }
}

/// Write what is larger than a 32-bit number: the predicted size is exact and the length in front correct.
pub fn p03__huge__size__once() {
    fn check(what: &str, size: usize, prefix: bool, write: impl FnOnce(&mut Sink)) {
        let mut s = Sink { head: Vec::new(), len: 0, scratch: [0; 64] };
        write(&mut s);
        assert_eq!(size as u64, s.len, "{what}: predicted size and encoded length");
        if prefix {
            let mut h = &s.head[..];
            let content = mabo::buf::decode_u64(&mut h).expect("a length");
            assert_eq!(content + mabo::buf::size_u64(content) as u64, s.len, "{what}: the length in front");
        }
    }
    const PIECE: usize = 1 << 28;
    let piece = vec![0u8; PIECE]; // zero pages, never touched
    let one = &piece[..];
    let size = |v: &&[u8]| buf::size_bytes_std(v);
    let mut vec = vec![one; 17];
    check("vector", buf::size_vec(&vec, size), true, |w| buf::encode_vec(w, &vec, size, |w, v| buf::encode_bytes_std(w, v)));
    vec.push(&one[..1]);
    let array: [&[u8]; 18] = vec.clone().try_into().unwrap();
    check("array", buf::size_array(&array, size), true, |w| buf::encode_array(w, &array, size, |w, v| buf::encode_bytes_std(w, v)));
    let keys: HashSet<u8> = (0..18).collect();
    let key = |k: &u8| size(&vec[*k as usize]);
    check("set", buf::size_hash_set(&keys, key), true, |w| buf::encode_hash_set(w, &keys, key, |w, k| buf::encode_bytes_std(w, vec[*k as usize])));
    let map: HashMap<u8, u8> = (0..18).map(|k| (k, k)).collect();
    let small = |k: &u8| buf::size_u8(*k);
    check("map values", buf::size_hash_map(&map, small, key), true, |w| {
        buf::encode_hash_map(w, &map, small, key, |w, k| buf::encode_u8(w, *k), |w, k| buf::encode_bytes_std(w, vec[*k as usize]))
    });
    check("map keys", buf::size_hash_map(&map, key, small), true, |w| {
        buf::encode_hash_map(w, &map, key, small, |w, k| buf::encode_bytes_std(w, vec[*k as usize]), |w, k| buf::encode_u8(w, *k))
    });
    let all = || array.iter().map(size).sum::<usize>();
    check("tuple", { let n = all(); buf::size_u64(n as u64) + n }, true, |w| buf::encode_tuple(w, all, |w| array.iter().for_each(|v| buf::encode_bytes_std(w, v))));
    drop(piece);
    let long = vec![0u8; (1 << 32) + 5];
    check("bytes", buf::size_bytes_std(&long), true, |w| buf::encode_bytes_std(w, &long));
    // SAFETY: zeros are valid text.
    let text = unsafe { String::from_utf8_unchecked(long) };
    check("string", buf::size_string(&text), true, |w| buf::encode_string(w, &text));
    let long = Bytes::from(text.into_bytes());
    check("shared bytes", buf::size_bytes_bytes(&long), true, |w| buf::encode_bytes_bytes(w, &long));
}

/// A length, that many zeros and one more byte, without holding them in memory.
struct Zeros {
    head: Vec<u8>,
    zeros: usize,
    last: bool,
}
impl Zeros {
    fn new(zeros: usize) -> Self {
        let mut head = Vec::new();
        buf::encode_u64(&mut head, zeros as u64);
        head.reverse();
        Self { head, zeros, last: true }
    }
}
static PAGE: [u8; 1 << 16] = [0; 1 << 16];
impl Buf for Zeros {
    fn remaining(&self) -> usize {
        self.head.len() + self.zeros + usize::from(self.last)
    }
    fn chunk(&self) -> &[u8] {
        match (self.head.last(), self.zeros) {
            (Some(b), _) => std::slice::from_ref(b),
            (None, 0) if self.last => &[0x77],
            (None, n) => &PAGE[..n.min(PAGE.len())],
        }
    }
    fn advance(&mut self, cnt: usize) {
        assert!(cnt <= self.remaining(), "advance beyond the end");
        let mut cnt = cnt;
        while cnt > 0 && self.head.pop().is_some() {
            cnt -= 1;
        }
        let n = cnt.min(self.zeros);
        self.zeros -= n;
        if cnt > n {
            self.last = false;
        }
    }
}

/// Read containers of more than 4 GiB: all of their content is consumed and nothing else.
pub fn p05__huge__decode__once() {
    const LEN: usize = (1 << 32) + 7;
    fn piece<R: Buf>(r: &mut R) -> buf::Result<usize> {
        let n = r.remaining().min(1 << 28);
        r.advance(n);
        Ok(r.remaining())
    }
    fn check(what: &str, decode: impl Fn(&mut Zeros) -> buf::Result<usize>) {
        let mut r = Zeros::new(LEN);
        assert_eq!(decode(&mut r).expect("readable"), 17, "{what}: number of elements");
        assert_eq!(r.remaining(), 1, "{what}: rest of the data");
        let mut r = Zeros::new(LEN);
        r.last = false;
        r.zeros -= 1;
        assert!(decode(&mut r).is_err(), "{what}: data cut short");
    }
    check("vector", |r: &mut Zeros| Ok(buf::decode_vec(r, |r| piece(r))?.len()));
    check("set", |r| Ok(buf::decode_hash_set(r, |r| piece(r))?.len()));
    check("map", |r| Ok(buf::decode_hash_map(r, |r| piece(r), |_| Ok(()))?.len()));
    check("non-zero vector", |r| Ok(buf::decode_non_zero_vec(r, |r| piece(r))?.get().len()));
    check("non-zero set", |r| Ok(buf::decode_non_zero_hash_set(r, |r| piece(r))?.get().len()));
    check("non-zero map", |r| Ok(buf::decode_non_zero_hash_map(r, |r| piece(r), |_| Ok(()))?.get().len()));
    check("array", |r| Ok(buf::decode_array::<17, _, _, _>(r, |r| piece(r))?.len()));
}

/// Skip a field and the surplus of an array of more than 4 GiB.
pub fn p09__huge__skip__once() {
    for len in [u32::MAX as usize, 1 << 32, (1 << 32) + 7, 1 << 40] {
        let mut r = Zeros::new(len);
        buf::decode_skip(&mut r, FieldEncoding::LengthPrefixed).expect("skipped");
        assert_eq!(r.remaining(), 1, "rest of the data");
        let mut r = Zeros::new(len);
        r.last = false;
        r.zeros -= 1;
        assert!(buf::decode_skip(&mut r, FieldEncoding::LengthPrefixed).is_err(), "data cut short");
    }
}
pub fn p11__huge__surplus__once() {
    for len in [u32::MAX as usize, 1 << 32, (1 << 32) + 7, 1 << 40] {
        let mut r = Zeros::new(len);
        assert_eq!(buf::decode_array::<3, _, _, _>(&mut r, |r| buf::decode_u8(r)).expect("readable"), [0; 3]);
        assert_eq!(r.remaining(), 1, "rest of the data");
    }
}

pub fn p05__tuple__layout__sampled() {
    let (a, b): (u32, String) = any();
    let mut w = Vec::new();
    buf::encode_tuple(&mut w, || buf::size_u32(a) + buf::size_string(&b), |w| {
        buf::encode_u32(w, a);
        buf::encode_string(w, &b);
    });
    let mut content = a.bytes();
    b.spec(&mut content);
    let mut want = Vec::new();
    crate::spec::prefixed(content, &mut want);
    assert_eq!(w, want, "length prefix and elements");
}

// P06: elements that take no space must not make decoding run forever.
pub fn p06__zero_width__total__sampled() {
    let data = hostile(bytes());
    note_value("bytes", &&data[..data.len().min(60)]);
    let mut r = &data[..];
    let _ = buf::decode_vec(&mut r, |_| Ok(()));
    let mut r = &data[..];
    let _ = buf::decode_hash_set(&mut r, |_| Ok(()));
    let mut r = &data[..];
    let _ = buf::decode_hash_map(&mut r, |_| Ok(()), |_| Ok(()));
    let mut r = &data[..];
    let _ = buf::decode_array::<3, _, _, _>(&mut r, |_| Ok(()));
    let mut r = &data[..];
    let _ = buf::decode_non_zero_vec(&mut r, |_| Ok(()));
    let mut r = &data[..];
    let _ = buf::decode_non_zero_hash_set(&mut r, |_| Ok(()));
    let mut r = &data[..];
    let _ = buf::decode_non_zero_hash_map(&mut r, |_| Ok(()), |_| Ok(()));
    assert!(data.ends_with(r), "the rest is the end of the input");
}

// P07
fn agrees<T: PartialEq + Debug, N: Debug>(data: &[u8], empty: impl Fn(&T) -> bool, plain: impl Fn(&mut &[u8]) -> buf::Result<T>,
    non_zero: impl Fn(&mut &[u8]) -> buf::Result<N>, get: impl Fn(N) -> T) {
    let (mut a, mut b) = (data, data);
    match (plain(&mut a), non_zero(&mut b)) {
        (Ok(x), Ok(y)) => {
            note_value("plain", &x);
            let y = get(y);
            note_value("non-zero", &y);
            assert!(!empty(&x), "an empty value is refused");
            assert!(!empty(&y), "never holds an empty value");
            assert!(x == y, "same value");
            assert_eq!(a, b, "same consumption");
        }
        (Ok(x), Err(e)) => assert!(empty(&x) && matches!(e, buf::Error::Zero), "only empty values are refused, with the zero error: {e}"),
        (Err(a), Err(b)) => assert_eq!(kind(&a), kind(&b), "same error"),
        (a, b) => panic!("plain: {}, non-zero: {}", a.is_ok(), b.is_ok()),
    }
}

macro_rules! non_zero {
    ($($name:ident: $ty:ty, |$r:ident| $plain:expr, $nz:expr;)+) => { paste! {
        $(
        pub fn [<p07__ $name __agrees__sampled>]() {
            let v: $ty = any();
            note_value("value", &v);
            let mut data = encoded(&v);
            match below(4) {
                0 => data = hostile(data),
                1 => data = trailing(),
                _ => {}
            }
            data.extend(trailing());
            agrees(&data, |v: &$ty| v.is_empty(), |$r| $plain, |$r| $nz, |v| v.into_inner());
        }
        pub fn [<p07__ $name __constructor__sampled>]() {
            let v: $ty = if below(3) == 0 { Default::default() } else { any() };
            let made = NonZero::<$ty>::new(v.clone());
            assert_eq!(made.is_some(), !v.is_empty(), "exactly the non-empty values");
            if let Some(m) = made {
                assert!(m.get() == &v && *m == v, "holds the value");
                let mut w = Vec::new();
                Encode::encode(&m, &mut w);
                assert_eq!(w, encoded(&v), "encodes like the plain type");
                assert_eq!(Size::size(&m), w.len(), "size");
                assert!(m.into_inner() == v, "holds the value");
            }
        }
        pub fn [<p03__non_zero_ $name __size__sampled>]() {
            let v: $ty = any();
            if let Some(m) = NonZero::<$ty>::new(v) {
                let mut w = Vec::new();
                Encode::encode(&m, &mut w);
                assert_eq!(Size::size(&m), w.len(), "size");
            }
        }
        )+
        pub fn list_non_zero() -> Vec<(&'static str, fn())> { vec![$(
            (stringify!([<p07__ $name __agrees__sampled>]), [<p07__ $name __agrees__sampled>] as fn()),
            (stringify!([<p07__ $name __constructor__sampled>]), [<p07__ $name __constructor__sampled>] as fn()),
            (stringify!([<p03__non_zero_ $name __size__sampled>]), [<p03__non_zero_ $name __size__sampled>] as fn()),
        )+] }
    } };
}
non_zero! {
    string: String, |r| buf::decode_string(r), buf::decode_non_zero_string(r);
    vec_u8: Vec<u8>, |r| buf::decode_vec(r, |r| buf::decode_u8(r)), buf::decode_non_zero_vec(r, |r| buf::decode_u8(r));
    vec_string: Vec<String>, |r| buf::decode_vec(r, |r| buf::decode_string(r)), buf::decode_non_zero_vec(r, |r| buf::decode_string(r));
    vec_vec: Vec<Vec<u32>>, |r| Vec::decode(r), buf::decode_non_zero_vec(r, |r| Vec::decode(r));
    map: HashMap<u32, String>, |r| HashMap::decode(r), buf::decode_non_zero_hash_map(r, |r| buf::decode_u32(r), |r| buf::decode_string(r));
    map_vec: HashMap<String, Vec<i16>>, |r| HashMap::decode(r), buf::decode_non_zero_hash_map(r, |r| buf::decode_string(r), |r| Vec::decode(r));
    set: HashSet<i64>, |r| HashSet::decode(r), buf::decode_non_zero_hash_set(r, |r| buf::decode_i64(r));
    set_string: HashSet<String>, |r| HashSet::decode(r), buf::decode_non_zero_hash_set(r, |r| buf::decode_string(r));
}

pub fn p07__bytes__agrees__sampled() {
    let v = bytes();
    let mut data = Vec::new();
    buf::encode_bytes_std(&mut data, &v);
    if below(3) == 0 { data = hostile(data) }
    data.extend(trailing());
    note_value("bytes", &&data[..data.len().min(60)]);
    agrees(&data, |v: &Vec<u8>| v.is_empty(), |r| buf::decode_bytes_std(r), |r| buf::decode_non_zero_bytes_std(r), |v| v.into_inner());
    agrees(&data, |v: &Bytes| v.is_empty(), |r| buf::decode_bytes_bytes(r), |r| buf::decode_non_zero_bytes_bytes(r), |v| v.into_inner());
    let made = NonZero::<Bytes>::new(Bytes::from(v.clone()));
    assert_eq!(made.is_some(), !v.is_empty(), "exactly the non-empty values");
    if let Some(m) = made { assert!(&m.get()[..] == &v[..] && m.into_inner() == v, "holds the value"); }
}

// P11
fn resized<T: Val, const N: usize, const M: usize>() {
    let v: [T; N] = any();
    note_value("written", &v);
    let mut data = encoded(&v);
    let rest = if below(2) == 0 { trailing() } else { encoded(&any::<T>()) };
    data.extend(&rest);
    let mut r = &data[..];
    let res = <[T; M]>::decode(&mut r);
    note_value("read", &res.as_ref().ok());
    match res {
        Ok(w) => {
            assert!(N >= M, "too few elements are refused");
            assert!(w.iter().zip(&v).all(|(a, b)| a.same(b)), "the first elements");
            assert_eq!(r, rest, "all surplus elements are skipped");
        }
        Err(_) => assert!(N < M, "enough elements are accepted"),
    }
    let cut = up_to(data.len());
    let mut r = Segments::new(&data, &[cut]);
    match <[T; M]>::decode(&mut r) {
        Ok(_) => assert!(N >= M && r.remaining() == rest.len(), "the same from segments"),
        Err(_) => assert!(N < M, "enough elements are accepted"),
    }
}

macro_rules! resized {
    ($($name:ident: $ty:ty;)+) => { paste! {
        $(pub fn [<p11__ $name __resized__sampled>]() {
            match below(15) {
                0 => resized::<$ty, 0, 0>(), 1 => resized::<$ty, 0, 1>(), 2 => resized::<$ty, 1, 0>(), 3 => resized::<$ty, 1, 1>(),
                4 => resized::<$ty, 1, 2>(), 5 => resized::<$ty, 2, 1>(), 6 => resized::<$ty, 3, 2>(), 7 => resized::<$ty, 2, 3>(),
                8 => resized::<$ty, 5, 2>(), 9 => resized::<$ty, 2, 5>(), 10 => resized::<$ty, 6, 0>(), 11 => resized::<$ty, 12, 9>(),
                12 => resized::<$ty, 40, 3>(), 13 => resized::<$ty, 3, 40>(), _ => resized::<$ty, 70, 69>(),
            }
        })+
        pub fn list_resized() -> Vec<(&'static str, fn())> { vec![$(
            (stringify!([<p11__ $name __resized__sampled>]), [<p11__ $name __resized__sampled>] as fn()),
        )+] }
    } };
}
resized! { u8: u8; u32: u32; i128: i128; f64: f64; string: String; option: Option<u16>; vec: Vec<u16>; array: [u16; 2]; bool: bool; map: HashMap<u8, u8>; }

// Known finding: elements that take no space leave no trace in the encoding.
pub fn kf05__zero_width_elements__once() {
    let mut w = Vec::new();
    buf::encode_vec(&mut w, &[(), (), ()], |()| 0, |_, ()| {});
    let v = buf::decode_vec(&mut &w[..], |_| Ok(())).expect("readable");
    assert_eq!(v.len(), 3, "round trip");
}
pub fn kf07__zero_width_elements__once() {
    let mut w = Vec::new();
    buf::encode_vec(&mut w, &[(), (), ()], |()| 0, |_, ()| {});
    assert!(buf::decode_non_zero_vec(&mut &w[..], |_| Ok(())).is_ok(), "a non-empty vector is accepted");
}

pub fn list() -> Vec<(&'static str, fn())> {
    let mut v: Vec<(&'static str, fn())> = vec![
        ("p04__bytes_functions__roundtrip__sampled", p04__bytes_functions__roundtrip__sampled),
        ("p03__bytes_functions__size__sampled", p03__bytes_functions__size__sampled),
        ("p06__bytes_functions__total__sampled", p06__bytes_functions__total__sampled),
        ("p04__string__utf8__sampled", p04__string__utf8__sampled),
        ("p03__huge__size__once", p03__huge__size__once),
        ("p05__huge__size__once", p03__huge__size__once),
        ("p05__huge__decode__once", p05__huge__decode__once),
        ("p09__huge__skip__once", p09__huge__skip__once),
        ("p11__huge__surplus__once", p11__huge__surplus__once),
        ("p05__tuple__layout__sampled", p05__tuple__layout__sampled),
        ("p06__zero_width__total__sampled", p06__zero_width__total__sampled),
        ("p07__bytes__agrees__sampled", p07__bytes__agrees__sampled),
        ("kf05__zero_width_elements__once", kf05__zero_width_elements__once),
        ("kf07__zero_width_elements__once", kf07__zero_width_elements__once),
    ];
    for l in [list_scalars(), list_containers(), list_skip(), list_skip_int(), list_skip_1(), list_skip_4(), list_skip_8(), list_non_zero(), list_resized()] {
        v.extend(l);
    }
    v
}
