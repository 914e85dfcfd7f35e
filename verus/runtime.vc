Contracts on the functions of crates/mabo/src. See lib/extract.py for the format.

@raw over ints
impl Model for $T { type M = $T; open spec fn m(&self) -> $T { *self } }

pub open spec fn enc_$T(v: $T) -> Seq<u8> { groups($num(v as int)) }

pub open spec fn parse_$T(s: Seq<u8>) -> Out<$T> {
    let w = word(s, $MAX);
    if w == 0 { Out::Err(Kind::Int) } else { Out::Val($val(number(s.take(w as int)) % $POW) as $T, w as int) }
}

/// Contract of the integer kernel, discharged by Kani on the compiled code (contracts/src/varint.rs).
pub mod varint_$T {
    use super::*;
    #[verifier::external_body]
    pub fn encode_$T(value: $T) -> (res: ([u8; $MAX], usize))
        ensures 1 <= res.1 <= $MAX, res.0@.take(res.1 as int) == enc_$T(value)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn decode_$T(buf: &[u8]) -> (res: core::result::Result<($T, usize), DecodeIntError>)
        ensures match res {
            Ok((v, n)) => parse_$T(buf@) == Out::Val(v, n as int),
            Err(_) => parse_$T(buf@) == Out::<$T>::Err(Kind::Int),
        }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn size_$T(value: $T) -> (res: usize)
        ensures res == enc_$T(value).len()
    { unimplemented!() }
}

pub broadcast proof fn enc_len_$T(v: $T)
    ensures 1 <= (#[trigger] enc_$T(v)).len() <= $MAX
{
    assert(vstd::arithmetic::power::pow(128, $MAX) >= $POW) by (compute);
    groups_len($num(v as int), $MAX);
}

pub proof fn rt_$T(v: $T, t: Seq<u8>)
    ensures parse_$T(enc_$T(v) + t) == Out::Val(v, enc_$T(v).len() as int), 1 <= enc_$T(v).len() <= $MAX
{
    let n = $num(v as int);
    enc_len_$T(v);
    groups_word(n, t, $MAX);
    groups_number(n);
    assert((enc_$T(v) + t).take(enc_$T(v).len() as int) =~= enc_$T(v));
    vstd::arithmetic::div_mod::lemma_small_mod(n, $POW);
}

pub proof fn local_$T(s: Seq<u8>, t: Seq<u8>)
    requires parse_$T(s) is Val, t.len() >= parse_$T(s)->Val_1, t.take(parse_$T(s)->Val_1) == s.take(parse_$T(s)->Val_1)
    ensures parse_$T(t) == parse_$T(s)
{
    broadcast use {word_means, word_unique};
    let w = word(s, $MAX);
    assert forall|i: int| 0 <= i < w implies s[i] == t[i] by { assert(s.take(w as int)[i] == t.take(w as int)[i]); }
    assert(word_is(t, $MAX, w));
}

@fn buf::decode::decode_$T over ints
@ensures R__::adv(*old(r), *final(r)), agrees(parse_$T((*old(r)).view()), (*old(r)).view(), res, (*final(r)).view())
@role len = let mut $ = 0 ;
@role buf = let mut $ = [ 0
@start
broadcast use words;
proof { laws::<R__>(); top_bits(); }
let ghost s0 = r.view();
@loop 0
invariant_except_break
    #len <= $MAX, #len <= s0.len(), R__::adv(*old(r), *r), r.view() == s0.skip(#len as int),
    forall|i: int| 0 <= i < #len ==> #[trigger] s0[i] >= 128 && #buf@[i] == s0[i],
ensures
    #len <= $MAX, #len <= s0.len(), R__::adv(*old(r), *r), r.view() == s0.skip(#len as int),
    forall|i: int| 0 <= i < #len ==> #[trigger] s0[i] == #buf@[i],
    #len > 0 && word_is(s0, $MAX, #len as nat) || word_is(s0, $MAX, 0),
decreases $MAX - #len
@after 0
assert(#buf@.take(#len as int) =~= s0.take(#len as int));

@raw
pub open spec fn unsigned(v: int) -> nat { v as nat }
pub open spec fn plain(n: nat) -> int { n as int }
pub mod varint {
    pub use super::{varint_u16::*, varint_u32::*, varint_u64::*, varint_u128::*, varint_i16::*, varint_i32::*, varint_i64::*, varint_i128::*, DecodeIntError};
}
#[verifier::external_body]
pub fn slice_to__<'a>(b: &'a [u8], n: usize) -> (r: &'a [u8])
    requires n <= b@.len()
    ensures r@ == b@.take(n as int)
{ &b[..n] }

pub open spec fn kind(e: Error) -> Kind {
    match e {
        Error::InsufficientData => Kind::Data,
        Error::DecodeInt(_) => Kind::Int,
        Error::NonUtf8(_) => Kind::Utf8,
        Error::MissingField { id, name } => Kind::Missing(id, match name { Some(n) => Some(n@), None => None }),
        Error::UnknownVariant(v) => Kind::Variant(v),
        Error::UnknownEncoding(v) => Kind::Encoding(v),
        Error::Zero => Kind::Zero,
    }
}

@impl ::core::convert::From<varint::DecodeIntError> for Error
@ensures res == Error::DecodeInt($0)

@impl ::core::convert::From<std::string::FromUtf8Error> for Error
@ensures res == Error::NonUtf8($0)

@raw
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExFromUtf8Error(std::string::FromUtf8Error);
impl vstd::std_specs::convert::FromSpecImpl<DecodeIntError> for Error {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: DecodeIntError) -> Self { Error::DecodeInt(v) }
}
impl vstd::std_specs::convert::FromSpecImpl<FromUtf8Error> for Error {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: FromUtf8Error) -> Self { Error::NonUtf8(v) }
}

@raw over ints
#[verifier::external_body]
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub struct $NZ { _p: u8 }
impl $NZ {
    pub uninterp spec fn val(&self) -> $T;
    #[verifier::external_body]
    pub fn new(x: $T) -> (r: Option<$NZ>) ensures r is Some == (x != 0), r is Some ==> r->0.val() == x { unimplemented!() }
    #[verifier::external_body]
    pub fn get(self) -> (r: $T) ensures r == self.val() { unimplemented!() }
}
impl Model for $NZ { type M = $T; open spec fn m(&self) -> $T { self.val() } }

@raw over bytes
#[verifier::external_body]
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub struct $NZ { _p: u8 }
impl $NZ {
    pub uninterp spec fn val(&self) -> $T;
    #[verifier::external_body]
    pub fn new(x: $T) -> (r: Option<$NZ>) ensures r is Some == (x != 0), r is Some ==> r->0.val() == x { unimplemented!() }
    #[verifier::external_body]
    pub fn get(self) -> (r: $T) ensures r == self.val() { unimplemented!() }
}
impl Model for $NZ { type M = $T; open spec fn m(&self) -> $T { self.val() } }

@fn buf::decode::decode_$T over fixed
@ensures R__::adv(*old(r), *final(r)), agrees(parse_$T((*old(r)).view()), (*old(r)).view(), res, (*final(r)).view())
@start
proof { laws::<R__>(); }

@fn buf::decode::decode_non_zero_$T over allints
@ensures R__::adv(*old(r), *final(r)),
    agrees(match parse_$T((*old(r)).view()) { Out::Val(v, n) => if v == 0 { Out::Err(Kind::Zero) } else { Out::Val(v, n) }, Out::Err(k) => Out::Err(k) },
        (*old(r)).view(), res, (*final(r)).view())
@start
proof { laws::<R__>(); }
@closure 0 ;; -> (e: Error) ensures e == Error::Zero

@fn buf::decode::decode_bytes_std
@ensures R__::adv(*old(r), *final(r)), agrees(block((*old(r)).view()), (*old(r)).view(), res, (*final(r)).view())
@start
proof { laws::<R__>(); }
broadcast use {models_u8, blocks};
let ghost s0 = r.view();

@fn buf::decode::decode_bytes_bytes
@ensures R__::adv(*old(r), *final(r)), agrees(block((*old(r)).view()), (*old(r)).view(), res, (*final(r)).view())
@start
proof { laws::<R__>(); }
broadcast use blocks;

@fn buf::decode::decode_string
@ensures R__::adv(*old(r), *final(r)), agrees(parse_string((*old(r)).view()), (*old(r)).view(), res, (*final(r)).view())
@start
proof { laws::<R__>(); }
broadcast use models_u8;

@fn buf::decode::decode_vec
@bounds T: Model
@requires frame::<Take<&mut R>, T, D>(decode)
@ensures R::adv(*old(r), *final(r)),
    forall|p: spec_fn(Seq<u8>) -> Out<T::M>| implements::<Take<&mut R>, T, D>(decode, p)
        ==> agrees(#[trigger] parse_vec(p, (*old(r)).view()), (*old(r)).view(), res, (*final(r)).view())
@role acc = let mut $ = Vec :: new ( )
@start
proof { laws::<R>(); laws::<Take<&mut R>>(); }
broadcast use {models_push, blocks};
let ghost s0 = r.view();
@before 0
let ghost r0 = r;
proof { assert(block(s0) is Val); assert(r0.view() =~= block(s0)->Val_0); assert(models(#acc@) =~= seq![]); }
@loop 0
invariant Take::<&mut R>::adv(r0, r),
    forall|p: spec_fn(Seq<u8>) -> Out<T::M>| #[trigger] implements::<Take<&mut R>, T, D>(decode, p)
        ==> items(p, r0.view(), seq![]) == items(p, r.view(), models(#acc@)),
decreases r.view().len()

@fn buf::decode::decode_hash_map
@bounds K: Model, V: Model
@requires frame::<Take<&mut R>, K, DK>(decode_key), frame::<Take<&mut R>, V, DV>(decode_value)
@ensures R::adv(*old(r), *final(r)),
    forall|p: spec_fn(Seq<u8>) -> Out<K::M>, q: spec_fn(Seq<u8>) -> Out<V::M>|
        implements::<Take<&mut R>, K, DK>(decode_key, p) && implements::<Take<&mut R>, V, DV>(decode_value, q)
        ==> agrees(#[trigger] parse_map(p, q, (*old(r)).view()), (*old(r)).view(), res, (*final(r)).view())
@role acc = let mut $ = HashMap :: new ( )
@start
proof { laws::<R>(); laws::<Take<&mut R>>(); }
broadcast use blocks;
let ghost s0 = r.view();
@before 0
let ghost r0 = r;
proof { assert(block(s0) is Val); assert(r0.view() =~= block(s0)->Val_0); }
@loop 0
invariant Take::<&mut R>::adv(r0, r),
    forall|p: spec_fn(Seq<u8>) -> Out<K::M>, q: spec_fn(Seq<u8>) -> Out<V::M>|
        #[trigger] implements::<Take<&mut R>, K, DK>(decode_key, p) && #[trigger] implements::<Take<&mut R>, V, DV>(decode_value, q)
        ==> map_items(p, q, r0.view(), Map::empty()) == map_items(p, q, r.view(), #acc.m()),
decreases r.view().len()

@fn buf::decode::decode_hash_set
@bounds T: Model
@requires frame::<Take<&mut R>, T, D>(decode)
@ensures R::adv(*old(r), *final(r)),
    forall|p: spec_fn(Seq<u8>) -> Out<T::M>| implements::<Take<&mut R>, T, D>(decode, p)
        ==> agrees(#[trigger] parse_set(p, (*old(r)).view()), (*old(r)).view(), res, (*final(r)).view())
@role acc = let mut $ = HashSet :: new ( )
@start
proof { laws::<R>(); laws::<Take<&mut R>>(); }
broadcast use blocks;
let ghost s0 = r.view();
@before 0
let ghost r0 = r;
proof { assert(block(s0) is Val); assert(r0.view() =~= block(s0)->Val_0); }
@loop 0
invariant Take::<&mut R>::adv(r0, r),
    forall|p: spec_fn(Seq<u8>) -> Out<T::M>| #[trigger] implements::<Take<&mut R>, T, D>(decode, p)
        ==> set_items(p, r0.view(), Set::empty()) == set_items(p, r.view(), #acc.m()),
decreases r.view().len()

@fn buf::decode::decode_option
@bounds T: Model
@requires frame::<R, T, D>(decode)
@ensures R::adv(*old(r), *final(r)),
    forall|p: spec_fn(Seq<u8>) -> Out<T::M>| implements::<R, T, D>(decode, p)
        ==> agrees(#[trigger] parse_option(p, (*old(r)).view()), (*old(r)).view(), res, (*final(r)).view())
@start
proof { laws::<R>(); }
broadcast use blocks;

@fn buf::decode::decode_array
@bounds T: Model
@requires frame::<Take<&mut R>, T, D>(decode)
@ensures R::adv(*old(r), *final(r)),
    forall|p: spec_fn(Seq<u8>) -> Out<T::M>| implements::<Take<&mut R>, T, D>(decode, p)
        ==> agrees(#[trigger] parse_array(p, N as nat, (*old(r)).view()), (*old(r)).view(), res, (*final(r)).view())
@role acc = let mut $ = Vec :: new ( )
@start
proof { laws::<R>(); laws::<Take<&mut R>>(); }
broadcast use {models_push, models_len, blocks};
let ghost s0 = r.view();
@before 0
let ghost r0 = r;
proof { assert(block(s0) is Val); assert(r0.view() =~= block(s0)->Val_0); assert(models(#acc@) =~= seq![]); }
@loop 0
invariant Take::<&mut R>::adv(r0, r), #acc@.len() <= N,
    forall|p: spec_fn(Seq<u8>) -> Out<T::M>| #[trigger] implements::<Take<&mut R>, T, D>(decode, p)
        ==> first_items(p, r0.view(), N as nat, seq![]) == first_items(p, r.view(), N as nat, models(#acc@)),
decreases N - #acc@.len()

@fn NonZero<T>::get
@ensures *res == self.0

@fn NonZero<T>::into_inner
@ensures res == self.0

@fn NonZero<String>::new
@ensures match res { Some(x) => x.0 == $0 && $0@.len() > 0, None => $0@.len() == 0 }

@fn NonZero<Vec<T>>::new
@ensures match res { Some(x) => x.0 == $0 && $0@.len() > 0, None => $0@.len() == 0 }

@fn NonZero<Bytes>::new
@ensures match res { Some(x) => x.0 == $0 && $0.view().len() > 0, None => $0.view().len() == 0 }

@fn NonZero<HashMap<K,V>>::new
@implbounds K: Model, V: Model
@ensures match res { Some(x) => x.0 == $0 && !vacant($0.m()), None => vacant($0.m()) }

@fn NonZero<HashSet<T>>::new
@implbounds T: Model
@ensures match res { Some(x) => x.0 == $0 && !vacant_set($0.m()), None => vacant_set($0.m()) }

@fn buf::decode::decode_non_zero_bytes_std
@ensures R__::adv(*old(r), *final(r)), agrees(non_zero((*old(r)).view(), block((*old(r)).view())), (*old(r)).view(), res, (*final(r)).view()),
    res matches Ok(x) ==> x.0@.len() > 0
@start
proof { laws::<R__>(); }
broadcast use {models_u8, blocks};

@fn buf::decode::decode_non_zero_bytes_bytes
@ensures R__::adv(*old(r), *final(r)), agrees(non_zero((*old(r)).view(), block((*old(r)).view())), (*old(r)).view(), res, (*final(r)).view()),
    res matches Ok(x) ==> x.0.view().len() > 0
@start
proof { laws::<R__>(); }
broadcast use blocks;

@fn buf::decode::decode_non_zero_string
@ensures R__::adv(*old(r), *final(r)), agrees(non_zero((*old(r)).view(), parse_string((*old(r)).view())), (*old(r)).view(), res, (*final(r)).view()),
    res matches Ok(x) ==> x.0@.len() > 0
@start
proof { laws::<R__>(); }
broadcast use {models_u8, utf8_nonempty};
@closure 0 String ;; -> (z: NonZeroString) requires $0@.len() > 0 ensures z.0 == $0

@fn buf::decode::decode_non_zero_vec
@bounds T: Model
@requires frame::<Take<&mut R>, T, D>(decode)
@ensures R::adv(*old(r), *final(r)), res matches Ok(x) ==> x.0@.len() > 0,
    forall|p: spec_fn(Seq<u8>) -> Out<T::M>| implements::<Take<&mut R>, T, D>(decode, p)
        ==> agrees(non_zero((*old(r)).view(), #[trigger] parse_vec(p, (*old(r)).view())), (*old(r)).view(), res, (*final(r)).view())
@role acc = let mut $ = Vec :: new ( )
@start
proof { laws::<R>(); laws::<Take<&mut R>>(); }
broadcast use {models_push, blocks};
let ghost s0 = r.view();
@before 0
let ghost r0 = r;
proof { assert(block(s0) is Val); assert(r0.view() =~= block(s0)->Val_0); assert(models(#acc@) =~= seq![]); }
@loop 0
invariant Take::<&mut R>::adv(r0, r), #acc@.len() > 0 || r.view() == r0.view(),
    forall|p: spec_fn(Seq<u8>) -> Out<T::M>| #[trigger] implements::<Take<&mut R>, T, D>(decode, p)
        ==> items(p, r0.view(), seq![]) == items(p, r.view(), models(#acc@)),
decreases r.view().len()

@fn buf::decode::decode_non_zero_hash_map
@attr #[verifier::rlimit(80)]
@bounds K: Model, V: Model
@requires frame::<Take<&mut R>, K, DK>(decode_key), frame::<Take<&mut R>, V, DV>(decode_value)
@ensures R::adv(*old(r), *final(r)), res matches Ok(x) ==> !vacant(x.0.m()),
    forall|p: spec_fn(Seq<u8>) -> Out<K::M>, q: spec_fn(Seq<u8>) -> Out<V::M>|
        implements::<Take<&mut R>, K, DK>(decode_key, p) && implements::<Take<&mut R>, V, DV>(decode_value, q)
        ==> agrees(non_zero((*old(r)).view(), #[trigger] parse_map(p, q, (*old(r)).view())), (*old(r)).view(), res, (*final(r)).view())
@role acc = let mut $ = HashMap :: new ( )
@start
proof { laws::<R>(); laws::<Take<&mut R>>(); }
broadcast use blocks;
let ghost s0 = r.view();
@before 0
let ghost r0 = r;
proof { assert(block(s0) is Val); assert(r0.view() =~= block(s0)->Val_0); }
@loop 0
invariant Take::<&mut R>::adv(r0, r), !vacant(#acc.m()) || r.view() == r0.view(),
    forall|p: spec_fn(Seq<u8>) -> Out<K::M>, q: spec_fn(Seq<u8>) -> Out<V::M>|
        #[trigger] implements::<Take<&mut R>, K, DK>(decode_key, p) && #[trigger] implements::<Take<&mut R>, V, DV>(decode_value, q)
        ==> map_items(p, q, r0.view(), Map::empty()) == map_items(p, q, r.view(), #acc.m()),
decreases r.view().len()

@fn buf::decode::decode_non_zero_hash_set
@bounds T: Model
@requires frame::<Take<&mut R>, T, D>(decode)
@ensures R::adv(*old(r), *final(r)), res matches Ok(x) ==> !vacant_set(x.0.m()),
    forall|p: spec_fn(Seq<u8>) -> Out<T::M>| implements::<Take<&mut R>, T, D>(decode, p)
        ==> agrees(non_zero((*old(r)).view(), #[trigger] parse_set(p, (*old(r)).view())), (*old(r)).view(), res, (*final(r)).view())
@role acc = let mut $ = HashSet :: new ( )
@start
proof { laws::<R>(); laws::<Take<&mut R>>(); }
broadcast use blocks;
let ghost s0 = r.view();
@before 0
let ghost r0 = r;
proof { assert(block(s0) is Val); assert(r0.view() =~= block(s0)->Val_0); }
@loop 0
invariant Take::<&mut R>::adv(r0, r), !vacant_set(#acc.m()) || r.view() == r0.view(),
    forall|p: spec_fn(Seq<u8>) -> Out<T::M>| #[trigger] implements::<Take<&mut R>, T, D>(decode, p)
        ==> set_items(p, r0.view(), Set::empty()) == set_items(p, r.view(), #acc.m()),
decreases r.view().len()

@raw
pub proof fn marker_bits(v: u32)
    ensures v & 7 == v % 8, 7 & v == v % 8, v >> 3 == v / 8, v & !7u32 == v - v % 8, (v & !7u32) >> 3 == v / 8, (v >> 3) & 0x1fff_ffff == v / 8
{
    assert(v & 7 == v % 8 && 7 & v == v % 8 && v >> 3 == v / 8 && v & !7u32 == v - v % 8 && (v & !7u32) >> 3 == v / 8 && (v >> 3) & 0x1fff_ffff == v / 8) by (bit_vector);
}
pub proof fn packed_bits(v: u32, e: u32)
    requires e < 8, v < 0x2000_0000
    ensures (v << 3) | e == v * 8 + e, e | (v << 3) == v * 8 + e, (v << 3) ^ e == v * 8 + e, e ^ (v << 3) == v * 8 + e, v << 3 == v * 8,
        (v * 8) as u32 | e == v * 8 + e, e | (v * 8) as u32 == v * 8 + e
{
    assert((v << 3) | e == v * 8 + e && e | (v << 3) == v * 8 + e && (v << 3) ^ e == v * 8 + e && e ^ (v << 3) == v * 8 + e && v << 3 == v * 8)
        by (bit_vector) requires e < 8, v < 0x2000_0000;
}

@fn FieldEncoding::from_u32
@ensures res == encoding_of($0)
@start
proof { marker_bits(value); }

@fn FieldId::from_u32
@ensures res == field_of($0)
@start
proof { marker_bits(value); }

@fn FieldId::new
@ensures res == (FieldId { value: $0, encoding: $1 })

@fn FieldId::into_u32
@ensures self.value < 0x2000_0000 ==> res == self.value * 8 + marker(self.encoding)
@start
proof { if self.value < 0x2000_0000 { packed_bits(self.value, marker(self.encoding)); } }

@fn VariantId::new
@ensures res == (VariantId { value: $0 })

@fn buf::decode::decode_id
@ensures R__::adv(*old(r), *final(r)), agrees(parse_id((*old(r)).view()), (*old(r)).view(), res, (*final(r)).view())
@start
proof { laws::<R__>(); }
@closure 0 u32 ;; -> (z: Result<FieldId>) ensures z == (match field_of($0) { Some(f) => Ok(f), None => Err(Error::UnknownEncoding($0)) })

@fn buf::decode::decode_variant_id
@ensures R__::adv(*old(r), *final(r)), agrees(parse_variant_id((*old(r)).view()), (*old(r)).view(), res, (*final(r)).view())
@start
proof { laws::<R__>(); }

@fn buf::decode::decode_skip
@ensures R__::adv(*old(r), *final(r)), agrees(parse_skip(encoding, (*old(r)).view()), (*old(r)).view(), res, (*final(r)).view())
@start
proof { laws::<R__>(); top_bits(); }
broadcast use {words, blocks};
let ghost s0 = r.view();
@loop 0
invariant R__::adv(*old(r), *r), r.view().len() <= s0.len(),
    forall|i: int| 0 <= i < s0.len() - r.view().len() ==> #[trigger] s0[i] >= 128,
decreases r.view().len()
@loopstart 0
proof { if r.view().len() == 0 { assert(word_is(s0, s0.len(), 0)); } else if r.view()[0] < 128 { assert(word_is(s0, s0.len(), (s0.len() - r.view().len() + 1) as nat)); } }

@fn buf::encode::encode_bool
@ensures (*final(w)).view() == (*old(w)).view() + enc_bool($1)

@fn buf::encode::encode_u8
@ensures (*final(w)).view() == (*old(w)).view() + enc_u8($1)

@fn buf::encode::encode_i8
@ensures (*final(w)).view() == (*old(w)).view() + enc_i8($1)

@fn buf::encode::encode_f32
@ensures (*final(w)).view() == (*old(w)).view() + enc_f32($1)

@fn buf::encode::encode_f64
@ensures (*final(w)).view() == (*old(w)).view() + enc_f64($1)

@fn buf::encode::encode_$T over ints
@ensures (*final(w)).view() == (*old(w)).view() + enc_$T($1)

@fn buf::encode::encode_bytes_std
@ensures (*final(w)).view() == (*old(w)).view() + enc_bytes($1@)

@fn buf::encode::encode_bytes_bytes
@ensures (*final(w)).view() == (*old(w)).view() + enc_bytes($1.view())

@fn buf::encode::encode_string
@ensures (*final(w)).view() == (*old(w)).view() + enc_bytes(encode_utf8($1@))

@fn buf::encode::encode_vec
@requires measurable(size, (&*vec).each()), accepts_all(encode, (&*vec).each())
@ensures forall|e: spec_fn(&T) -> Seq<u8>| #[trigger] writes_all(encode, (&*vec).each(), e) ==> exists|ls: Seq<usize>|
    #[trigger] measured(size, (&*vec).each(), ls) && (*final(w)).view() == (*old(w)).view() + enc_u64(total(ls) as u64) + concat((&*vec).each(), e)
@start
let ghost xs = vec.each();
broadcast use concat_take;
@before 0
let ghost w1 = w.view();
@loop 0
invariant at0__ <= xs.len(),
    forall|e: spec_fn(&T) -> Seq<u8>| #[trigger] writes_all(encode, xs, e) ==> w.view() == w1 + concat(xs.take(at0__ as int), e),
decreases xs.len() - at0__
@after 0
assert(xs.take(at0__ as int) =~= xs);

@fn buf::encode::encode_hash_set
@requires measurable(size, (&*set).each()), accepts_all(encode, (&*set).each())
@ensures forall|e: spec_fn(&T) -> Seq<u8>| #[trigger] writes_all(encode, (&*set).each(), e) ==> exists|ls: Seq<usize>|
    #[trigger] measured(size, (&*set).each(), ls) && (*final(w)).view() == (*old(w)).view() + enc_u64(total(ls) as u64) + concat((&*set).each(), e)
@start
let ghost xs = set.each();
broadcast use concat_take;
@before 0
let ghost w1 = w.view();
@loop 0
invariant at0__ <= xs.len(),
    forall|e: spec_fn(&T) -> Seq<u8>| #[trigger] writes_all(encode, xs, e) ==> w.view() == w1 + concat(xs.take(at0__ as int), e),
decreases xs.len() - at0__
@after 0
assert(xs.take(at0__ as int) =~= xs);

@fn buf::encode::encode_array
@requires measurable(size, (&*array).each()), accepts_all(encode, (&*array).each())
@ensures forall|e: spec_fn(&T) -> Seq<u8>| #[trigger] writes_all(encode, (&*array).each(), e) ==> exists|ls: Seq<usize>|
    #[trigger] measured(size, (&*array).each(), ls) && (*final(w)).view() == (*old(w)).view() + enc_u64(total(ls) as u64) + concat((&*array).each(), e)
@start
let ghost xs = array.each();
broadcast use concat_take;
@before 0
let ghost w1 = w.view();
@loop 0
invariant at0__ <= xs.len(),
    forall|e: spec_fn(&T) -> Seq<u8>| #[trigger] writes_all(encode, xs, e) ==> w.view() == w1 + concat(xs.take(at0__ as int), e),
decreases xs.len() - at0__
@after 0
assert(xs.take(at0__ as int) =~= xs);

@fn buf::encode::encode_hash_map
@bounds SK: Copy, SV: Copy
@requires small_pairs(size_key, size_value, (&*map).each()), accepts_all(encode_key, firsts((&*map).each())), accepts_all(encode_value, seconds((&*map).each()))
@ensures forall|ek: spec_fn(&K) -> Seq<u8>, ev: spec_fn(&V) -> Seq<u8>| #[trigger] writes_all(encode_key, firsts((&*map).each()), ek)
        && #[trigger] writes_all(encode_value, seconds((&*map).each()), ev) ==> exists|la: Seq<usize>, lb: Seq<usize>|
    #[trigger] measured(size_key, firsts((&*map).each()), la) && #[trigger] measured(size_value, seconds((&*map).each()), lb)
    && (*final(w)).view() == (*old(w)).view() + enc_u64((total(la) + total(lb)) as u64) + concat((&*map).each(), pair_encoder(ek, ev))
@start
let ghost xs = map.each();
broadcast use concat_take;
@closure 0 (&K, &V) ;; -> (n: usize) requires size_key.requires(($0.0,)), size_value.requires(($0.1,)),
    forall|a: usize, b: usize| #[trigger] size_key.ensures(($0.0,), a) && #[trigger] size_value.ensures(($0.1,), b) ==> a + b <= usize::MAX
    ensures exists|a: usize, b: usize| #[trigger] size_key.ensures(($0.0,), a) && #[trigger] size_value.ensures(($0.1,), b) && n == a + b
@sum
proof { measurable_pairs(sum_f__, size_key, size_value, xs); }
@before 0
let ghost w1 = w.view();
@loop 0
invariant at0__ <= xs.len(),
    forall|ek: spec_fn(&K) -> Seq<u8>, ev: spec_fn(&V) -> Seq<u8>| #[trigger] writes_all(encode_key, firsts(xs), ek) && #[trigger] writes_all(encode_value, seconds(xs), ev)
        ==> w.view() == w1 + concat(xs.take(at0__ as int), pair_encoder(ek, ev)),
decreases xs.len() - at0__
@loopstart 0
assert(firsts(xs)[at0__ as int] == xs[at0__ as int].0 && seconds(xs)[at0__ as int] == xs[at0__ as int].1);
@after 0
assert(xs.take(at0__ as int) =~= xs);

@fn buf::encode::encode_option
@requires option matches Some(x) ==> forall|t: &mut W| #[trigger] encode.requires((t, x))
@ensures match option {
    Some(x) => forall|e: Seq<u8>| #[trigger] writes_of(encode, x, e) ==> (*final(w)).view() =~= (*old(w)).view() + seq![1u8] + e,
    None => (*final(w)).view() == (*old(w)).view() + seq![0u8],
}

@fn buf::encode::encode_tuple
@requires size.requires(()), forall|t: &mut W| #[trigger] encode.requires((t,))
@ensures forall|e: Seq<u8>| #[trigger] writes(encode, e) ==>
    exists|n: usize| #[trigger] size.ensures((), n) && (*final(w)).view() == (*old(w)).view() + enc_u64(n as u64) + e

@fn buf::encode::encode_id
@ensures $1.value < 0x2000_0000 ==> (*final(w)).view() == (*old(w)).view() + enc_id($1)

@fn buf::encode::encode_variant_id
@ensures (*final(w)).view() == (*old(w)).view() + enc_u32($1.value)

@fn buf::encode::encode_field
@requires forall|t: &mut W| #[trigger] encode.requires((t,))
@ensures $1.value < 0x2000_0000 ==> forall|e: Seq<u8>| #[trigger] writes(encode, e) ==>
    (*final(w)).view() == (*old(w)).view() + enc_id($1) + e

@fn buf::encode::encode_field_option
@requires option matches Some(x) ==> forall|t: &mut W| #[trigger] encode.requires((t, x))
@ensures $1.value < 0x2000_0000 ==> match option {
    Some(x) => forall|e: Seq<u8>| #[trigger] writes_of(encode, x, e) ==>
        (*final(w)).view() == (*old(w)).view() + enc_id($1) + e,
    None => (*final(w)).view() == (*old(w)).view(),
}

@fn buf::size::size_$T over fixed
@ensures res == $WIDTH

@fn buf::size::size_$T over ints
@ensures res == enc_$T($0).len()

@fn buf::size::size_bytes_std
@requires enc_bytes($0@).len() <= usize::MAX
@ensures res == enc_bytes($0@).len()

@fn buf::size::size_bytes_bytes
@requires enc_bytes($0.view()).len() <= usize::MAX
@ensures res == enc_bytes($0.view()).len()

@fn buf::size::size_string
@requires enc_bytes(encode_utf8($0@)).len() <= usize::MAX
@ensures res == enc_bytes(encode_utf8($0@)).len()

@fn buf::size::size_vec
@requires room(size, (&*vec).each())
@ensures exists|ls: Seq<usize>| #[trigger] measured(size, (&*vec).each(), ls) && res == enc_u64(total(ls) as u64).len() + total(ls)
@start
broadcast use enc_len_u64;

@fn buf::size::size_hash_set
@requires room(size, (&*set).each())
@ensures exists|ls: Seq<usize>| #[trigger] measured(size, (&*set).each(), ls) && res == enc_u64(total(ls) as u64).len() + total(ls)
@start
broadcast use enc_len_u64;

@fn buf::size::size_array
@requires room(size, (&*array).each())
@ensures exists|ls: Seq<usize>| #[trigger] measured(size, (&*array).each(), ls) && res == enc_u64(total(ls) as u64).len() + total(ls)
@start
broadcast use enc_len_u64;

@fn buf::size::size_hash_map
@bounds SK: Copy, SV: Copy
@requires small_pairs(size_key, size_value, (&*map).each()), room_pairs(size_key, size_value, (&*map).each())
@ensures exists|la: Seq<usize>, lb: Seq<usize>| #[trigger] measured(size_key, firsts((&*map).each()), la) && #[trigger] measured(size_value, seconds((&*map).each()), lb)
    && res == enc_u64((total(la) + total(lb)) as u64).len() + total(la) + total(lb)
@start
let ghost xs = map.each();
broadcast use enc_len_u64;
@closure 0 (&K, &V) ;; -> (n: usize) requires size_key.requires(($0.0,)), size_value.requires(($0.1,)),
    forall|a: usize, b: usize| #[trigger] size_key.ensures(($0.0,), a) && #[trigger] size_value.ensures(($0.1,), b) ==> a + b <= usize::MAX
    ensures exists|a: usize, b: usize| #[trigger] size_key.ensures(($0.0,), a) && #[trigger] size_value.ensures(($0.1,), b) && n == a + b
@sum
proof { measurable_pairs(sum_f__, size_key, size_value, xs); }

@fn buf::size::size_option
@requires option matches Some(x) ==> size.requires((x,)) && forall|n: usize| #[trigger] size.ensures((x,), n) ==> n < usize::MAX
@ensures match option { Some(x) => exists|n: usize| #[trigger] size.ensures((x,), n) && res == n + 1, None => res == 1 }

@fn buf::size::size_field_id
@ensures res == enc_u32($0 << 3).len(), res <= 5, $0 < 0x2000_0000 ==> forall|e: FieldEncoding| res == (#[trigger] enc_id(FieldId { value: $0, encoding: e })).len()
@start
broadcast use enc_len_u32;
proof { if id < 0x2000_0000 { header_len(id); } }

@fn buf::size::size_variant_id
@ensures res == enc_u32($0).len()

@fn buf::size::size_field
@requires size.requires(()), forall|n: usize| #[trigger] size.ensures((), n) ==> n + enc_u32($0 << 3).len() <= usize::MAX
@ensures $0 < 0x2000_0000 ==> exists|n: usize| #[trigger] size.ensures((), n) && forall|e: FieldEncoding| res == n + (#[trigger] enc_id(FieldId { value: $0, encoding: e })).len()

@fn buf::size::size_field_option
@requires option matches Some(x) ==> size.requires((x,)) && forall|n: usize| #[trigger] size.ensures((x,), n) ==> n + enc_u32($0 << 3).len() <= usize::MAX
@ensures $0 < 0x2000_0000 ==> match option {
    Some(x) => exists|n: usize| #[trigger] size.ensures((x,), n) && forall|e: FieldEncoding| res == n + (#[trigger] enc_id(FieldId { value: $0, encoding: e })).len(),
    None => res == 0,
}
@closure 0 &T ;; -> (r: usize) requires size.requires(($0,)), forall|n: usize| #[trigger] size.ensures(($0,), n) ==> n + enc_u32(id << 3).len() <= usize::MAX
    ensures id < 0x2000_0000 ==> exists|n: usize| #[trigger] size.ensures(($0,), n) && forall|e: FieldEncoding| r == n + (#[trigger] enc_id(FieldId { value: id, encoding: e })).len()

@trait Size
@supers Model
@items
spec fn enc(&self) -> Seq<u8>;
@requires self.enc().len() <= usize::MAX
@ensures res == self.enc().len()

@trait Encode
@requires self.enc().len() <= usize::MAX
@ensures (*final(w)).view() == (*old(w)).view() + self.enc()

@trait Decode
@supers Model
@items
spec fn parse(s: Seq<u8>) -> Out<Self::M>;
@ensures R__::adv(*old(r), *final(r)), agrees(Self::parse((*old(r)).view()), (*old(r)).view(), res, (*final(r)).view())

@raw
pub open spec fn enc_ref<'a, T: Size>() -> spec_fn(&'a T) -> Seq<u8> { |x: &'a T| x.enc() }
pub open spec fn parser<T: Decode>() -> spec_fn(Seq<u8>) -> Out<T::M> { |s: Seq<u8>| T::parse(s) }

pub open spec fn sized_as<'a, T: Size + 'a, F: Fn(&'a T) -> usize>(f: F) -> bool {
    &&& forall|x: &'a T| x.enc().len() <= usize::MAX ==> #[trigger] f.requires((x,))
    &&& forall|x: &'a T, n: usize| #[trigger] f.ensures((x,), n) ==> n == x.enc().len()
}
/// What measuring the elements with their own `size` gives.
pub proof fn sizes<'a, T: Size + 'a, F: Fn(&'a T) -> usize>(f: F, xs: Seq<&'a T>)
    requires sized_as(f), enc_bytes(concat(xs, enc_ref::<T>())).len() <= usize::MAX
    ensures measurable(f, xs), room(f, xs), forall|ls: Seq<usize>| #[trigger] measured(f, xs, ls) ==> total(ls) == concat(xs, enc_ref::<T>()).len(),
        forall|i: int| 0 <= i < xs.len() ==> (#[trigger] xs[i]).enc().len() <= usize::MAX
{
    let e = enc_ref::<'a, T>();
    assert forall|i: int| 0 <= i < xs.len() implies (#[trigger] xs[i]).enc().len() <= usize::MAX by { concat_part(xs, e, i); assert(e(xs[i]) == xs[i].enc()); }
    assert forall|i: int| 0 <= i < xs.len() implies f.requires((#[trigger] xs[i],)) by { concat_part(xs, e, i); assert(e(xs[i]) == xs[i].enc()); }
    assert forall|k: int, ls: Seq<usize>| 0 <= k <= xs.len() && #[trigger] measured(f, xs.take(k), ls) implies total(ls) <= concat(xs, e).len() by {
        assert forall|i: int| 0 <= i < k implies #[trigger] ls[i] == e(xs.take(k)[i]).len() by { assert(f.ensures((xs.take(k)[i],), ls[i])); }
        total_concat(xs.take(k), e, ls);
        concat_mono(xs, e, k);
    }
    assert forall|ls: Seq<usize>| #[trigger] measured(f, xs, ls) implies total(ls) == concat(xs, e).len() by {
        assert forall|i: int| 0 <= i < xs.len() implies #[trigger] ls[i] == e(xs[i]).len() by { assert(f.ensures((xs[i],), ls[i])); }
        total_concat(xs, e, ls);
    }
}
pub proof fn concat_mono<X>(xs: Seq<X>, e: spec_fn(X) -> Seq<u8>, k: int)
    requires 0 <= k <= xs.len()
    ensures concat(xs.take(k), e).len() <= concat(xs, e).len()
    decreases xs.len() - k
{
    if k < xs.len() { concat_take(xs, k, e); concat_mono(xs, e, k + 1); } else { assert(xs.take(k) =~= xs); }
}

@impl Size for $T over fixed
@items
open spec fn enc(&self) -> Seq<u8> { enc_$T(*self) }
@start
proof { float_bytes_len(); }

@impl Size for $T over ints
@items
open spec fn enc(&self) -> Seq<u8> { enc_$T(*self) }

@impl Size for String
@items
open spec fn enc(&self) -> Seq<u8> { enc_bytes(encode_utf8(self@)) }

@impl Size for Box<str>
@items
open spec fn enc(&self) -> Seq<u8> { enc_bytes(encode_utf8(self@)) }

@impl Size for Box<[u8]>
@items
open spec fn enc(&self) -> Seq<u8> { enc_bytes(self@) }

@impl Size for Vec<T>
@items
open spec fn enc(&self) -> Seq<u8> { enc_bytes(concat(refs(self@), enc_ref::<T>())) }
@start
proof { sizes::<T, _>(T::size, refs(self@)); }

@impl Encode for $T over fixed
@impl Encode for $T over ints
@impl Encode for String
@impl Encode for Box<str>
@impl Encode for Box<[u8]>
@impl Encode for Vec<T>
@start
proof { sizes::<T, _>(T::size, refs(self@)); }
@closure 0 &mut W__ / &T ;; requires $1.enc().len() <= usize::MAX ensures (*final($0)).view() == (*old($0)).view() + $1.enc()

@hint 0
proof { assert(writes_all(closure0__, refs(self@), enc_ref::<T>())); }

@impl Decode for $T over fixed
@items
open spec fn parse(s: Seq<u8>) -> Out<Self::M> { parse_$T(s) }
@impl Decode for $T over ints
@items
open spec fn parse(s: Seq<u8>) -> Out<Self::M> { parse_$T(s) }
@impl Decode for String
@items
open spec fn parse(s: Seq<u8>) -> Out<Self::M> { parse_string(s) }
@impl Decode for Box<str>
@items
open spec fn parse(s: Seq<u8>) -> Out<Self::M> { parse_string(s) }
@impl Decode for Box<[u8]>
@items
open spec fn parse(s: Seq<u8>) -> Out<Self::M> { block(s) }
@impl Decode for Vec<T>
@items
open spec fn parse(s: Seq<u8>) -> Out<Self::M> { parse_vec(parser::<T>(), s) }
@closure 0 &mut Take<&mut R__> ;; -> (z: Result<T>) ensures Take::<&mut R__>::adv(*old($0), *final($0)), agrees(T::parse((*old($0)).view()), (*old($0)).view(), z, (*final($0)).view())

@raw
pub open spec fn enc_pair<'a, K: Size, V: Size>() -> spec_fn((&'a K, &'a V)) -> Seq<u8> { pair_encoder(enc_ref::<K>(), enc_ref::<V>()) }

/// What measuring keys and values with their own `size` gives.
pub proof fn pair_sizes<'a, K: Size + 'a, V: Size + 'a, SK: Fn(&'a K) -> usize, SV: Fn(&'a V) -> usize>(sk: SK, sv: SV, xs: Seq<(&'a K, &'a V)>)
    requires sized_as(sk), sized_as(sv), enc_bytes(concat(xs, enc_pair::<K, V>())).len() <= usize::MAX
    ensures small_pairs(sk, sv, xs), room_pairs(sk, sv, xs),
        forall|la: Seq<usize>, lb: Seq<usize>| #[trigger] measured(sk, firsts(xs), la) && #[trigger] measured(sv, seconds(xs), lb)
            ==> total(la) + total(lb) == concat(xs, enc_pair::<K, V>()).len(),
        forall|i: int| 0 <= i < xs.len() ==> (#[trigger] xs[i]).0.enc().len() <= usize::MAX && xs[i].1.enc().len() <= usize::MAX
{
    let e = enc_pair::<'a, K, V>();
    assert forall|i: int| 0 <= i < xs.len() implies (#[trigger] xs[i]).0.enc().len() + xs[i].1.enc().len() <= usize::MAX by {
        concat_part(xs, e, i);
        assert(e(xs[i]) == xs[i].0.enc() + xs[i].1.enc());
    }
    assert forall|k: int, la: Seq<usize>, lb: Seq<usize>| 0 <= k <= xs.len() && #[trigger] measured(sk, firsts(xs.take(k)), la)
        && #[trigger] measured(sv, seconds(xs.take(k)), lb) implies total(la) + total(lb) == concat(xs.take(k), e).len() && total(la) + total(lb) <= concat(xs, e).len() by {
        pair_totals(sk, sv, xs.take(k), la, lb);
        concat_mono(xs, e, k);
    }
    assert forall|la: Seq<usize>, lb: Seq<usize>| #[trigger] measured(sk, firsts(xs), la) && #[trigger] measured(sv, seconds(xs), lb)
            implies total(la) + total(lb) == concat(xs, e).len() by {
        pair_totals(sk, sv, xs, la, lb);
    }
}
pub proof fn pair_totals<'a, K: Size + 'a, V: Size + 'a, SK: Fn(&'a K) -> usize, SV: Fn(&'a V) -> usize>(sk: SK, sv: SV, xs: Seq<(&'a K, &'a V)>, la: Seq<usize>, lb: Seq<usize>)
    requires sized_as(sk), sized_as(sv), measured(sk, firsts(xs), la), measured(sv, seconds(xs), lb)
    ensures total(la) + total(lb) == concat(xs, enc_pair::<K, V>()).len()
    decreases xs.len()
{
    let n = xs.len() - 1;
    if xs.len() > 0 {
        assert forall|i: int| 0 <= i < n implies sk.ensures((#[trigger] firsts(xs.drop_last())[i],), la.drop_last()[i]) by { assert(sk.ensures((firsts(xs)[i],), la[i])); }
        assert forall|i: int| 0 <= i < n implies sv.ensures((#[trigger] seconds(xs.drop_last())[i],), lb.drop_last()[i]) by { assert(sv.ensures((seconds(xs)[i],), lb[i])); }
        pair_totals(sk, sv, xs.drop_last(), la.drop_last(), lb.drop_last());
        assert(sk.ensures((firsts(xs)[n],), la[n]));
        assert(sv.ensures((seconds(xs)[n],), lb[n]));
        assert(enc_pair::<'a, K, V>()(xs[n]) == xs[n].0.enc() + xs[n].1.enc());
    }
}

@impl Size for &'_[T]
@items
open spec fn enc(&self) -> Seq<u8> { enc_bytes(concat(refs(self@), enc_ref::<T>())) }
@start
proof { sizes::<T, _>(T::size, refs(self@)); }

@impl Size for HashMap<K,V>
@items
open spec fn enc(&self) -> Seq<u8> { enc_bytes(concat(pair_refs(self.entries()), enc_pair::<K, V>())) }
@start
proof { pair_sizes::<K, V, _, _>(K::size, V::size, pair_refs(self.entries())); }

@impl Size for HashSet<T>
@items
open spec fn enc(&self) -> Seq<u8> { enc_bytes(concat(refs(self.entries()), enc_ref::<T>())) }
@start
proof { sizes::<T, _>(T::size, refs(self.entries())); }

@impl Size for Option<T>
@items
open spec fn enc(&self) -> Seq<u8> { match self { Some(x) => seq![1u8] + x.enc(), None => seq![0u8] } }

@impl Size for [T;N]
@items
open spec fn enc(&self) -> Seq<u8> { enc_bytes(concat(refs(self@), enc_ref::<T>())) }
@start
proof { sizes::<T, _>(T::size, refs(self@)); }

@impl Size for NonZero<T>
@items
open spec fn enc(&self) -> Seq<u8> { self.0.enc() }

@impl Size for std::rc::Rc<T>
@items
open spec fn enc(&self) -> Seq<u8> { (**self).enc() }

@impl Size for std::borrow::Cow<'_,T>
@items
open spec fn enc(&self) -> Seq<u8> { self.the().enc() }

@impl Size for std::sync::Arc<T>
@items
open spec fn enc(&self) -> Seq<u8> { (**self).enc() }

@impl Encode for &'_[T]
@start
proof { sizes::<T, _>(T::size, refs(self@)); }
@closure 0 &mut W__ / &T ;; requires $1.enc().len() <= usize::MAX ensures (*final($0)).view() == (*old($0)).view() + $1.enc()
@hint 0
proof { assert(writes_all(closure0__, refs(self@), enc_ref::<T>())); }

@impl Encode for HashMap<K,V>
@start
proof { pair_sizes::<K, V, _, _>(K::size, V::size, pair_refs(self.entries())); }
let ghost xs__ = pair_refs(self.entries());
@closure 0 &mut W__ / &K ;; requires $1.enc().len() <= usize::MAX ensures (*final($0)).view() == (*old($0)).view() + $1.enc()
@closure 1 &mut W__ / &V ;; requires $1.enc().len() <= usize::MAX ensures (*final($0)).view() == (*old($0)).view() + $1.enc()
@hint 0
proof { assert(writes_all(closure0__, firsts(xs__), enc_ref::<K>())); }
@hint 1
proof { assert(writes_all(closure1__, seconds(xs__), enc_ref::<V>())); }

@impl Encode for HashSet<T>
@start
proof { sizes::<T, _>(T::size, refs(self.entries())); }
@closure 0 &mut W__ / &T ;; requires $1.enc().len() <= usize::MAX ensures (*final($0)).view() == (*old($0)).view() + $1.enc()
@hint 0
proof { assert(writes_all(closure0__, refs(self.entries()), enc_ref::<T>())); }

@impl Encode for Option<T>
@closure 0 &mut W__ / &T ;; requires $1.enc().len() <= usize::MAX ensures (*final($0)).view() == (*old($0)).view() + $1.enc()
@hint 0
proof { if let Some(x) = self { assert(writes_of(closure0__, x, x.enc())); } }

@impl Encode for [T;N]
@start
proof { sizes::<T, _>(T::size, refs(self@)); }
@closure 0 &mut W__ / &T ;; requires $1.enc().len() <= usize::MAX ensures (*final($0)).view() == (*old($0)).view() + $1.enc()
@hint 0
proof { assert(writes_all(closure0__, refs(self@), enc_ref::<T>())); }

@impl Encode for NonZero<T>
@impl Encode for std::rc::Rc<T>
@impl Encode for std::sync::Arc<T>
@impl Encode for std::borrow::Cow<'_,T>

@impl Decode for HashMap<K,V>
@items
open spec fn parse(s: Seq<u8>) -> Out<Self::M> { parse_map(parser::<K>(), parser::<V>(), s) }
@closure 0 &mut Take<&mut R__> ;; -> (z: Result<K>) ensures Take::<&mut R__>::adv(*old($0), *final($0)), agrees(K::parse((*old($0)).view()), (*old($0)).view(), z, (*final($0)).view())
@closure 1 &mut Take<&mut R__> ;; -> (z: Result<V>) ensures Take::<&mut R__>::adv(*old($0), *final($0)), agrees(V::parse((*old($0)).view()), (*old($0)).view(), z, (*final($0)).view())
@impl Decode for HashSet<T>
@items
open spec fn parse(s: Seq<u8>) -> Out<Self::M> { parse_set(parser::<T>(), s) }
@closure 0 &mut Take<&mut R__> ;; -> (z: Result<T>) ensures Take::<&mut R__>::adv(*old($0), *final($0)), agrees(T::parse((*old($0)).view()), (*old($0)).view(), z, (*final($0)).view())
@impl Decode for Option<T>
@items
open spec fn parse(s: Seq<u8>) -> Out<Self::M> { parse_option(parser::<T>(), s) }
@impl Decode for [T;N]
@items
open spec fn parse(s: Seq<u8>) -> Out<Self::M> { parse_array(parser::<T>(), N as nat, s) }
@closure 0 &mut Take<&mut R__> ;; -> (z: Result<T>) ensures Take::<&mut R__>::adv(*old($0), *final($0)), agrees(T::parse((*old($0)).view()), (*old($0)).view(), z, (*final($0)).view())
@impl Decode for std::rc::Rc<T>
@items
open spec fn parse(s: Seq<u8>) -> Out<Self::M> { T::parse(s) }
@impl Decode for std::borrow::Cow<'_,T>
@items
open spec fn parse(s: Seq<u8>) -> Out<Self::M> { T::parse(s) }
@impl Decode for std::sync::Arc<T>
@items
open spec fn parse(s: Seq<u8>) -> Out<Self::M> { T::parse(s) }

@raw over ints
impl Local for $T {
    proof fn local(s: Seq<u8>, t: Seq<u8>) { local_$T(s, t); }
    proof fn bounds(s: Seq<u8>) { broadcast use word_len; }
}
impl Round for $T { proof fn rt(&self, t: Seq<u8>) { rt_$T(*self, t); } }
