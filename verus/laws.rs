// Laws: what the contracts on encoders and decoders mean together. Each property listed in properties.jsonl that these decide is
// a lemma over the specifications that the functions of /repo are verified against.

/// Only the bytes that are consumed matter, and at least one is.
pub trait Local: Decode {
    proof fn local(s: Seq<u8>, t: Seq<u8>)
        requires Self::parse(s) is Val, t.len() >= Self::parse(s)->Val_1, t.take(Self::parse(s)->Val_1) == s.take(Self::parse(s)->Val_1)
        ensures Self::parse(t) == Self::parse(s);
    proof fn bounds(s: Seq<u8>)
        requires Self::parse(s) is Val
        ensures 1 <= Self::parse(s)->Val_1 <= s.len();
}
/// Decoding what was encoded, whatever follows.
pub trait Round: Local + Encode {
    proof fn rt(&self, t: Seq<u8>)
        requires self.enc().len() <= usize::MAX
        ensures Self::parse(self.enc() + t) == Out::Val(self.m(), self.enc().len() as int);
}

pub proof fn some_bytes<T: Round>(x: T)
    requires x.enc().len() <= usize::MAX
    ensures x.enc().len() >= 1
{
    x.rt(seq![]);
    let s = x.enc() + seq![];
    T::bounds(s);
}

/// P06: an encoding that is cut short is refused.
pub proof fn cut_short<T: Round>(x: T, k: int)
    requires x.enc().len() <= usize::MAX, 0 <= k < x.enc().len()
    ensures T::parse(x.enc().take(k)) is Err
{
    let s = x.enc().take(k);
    if T::parse(s) is Val {
        let t = x.enc() + seq![];
        T::bounds(s);
        assert(t.take(T::parse(s)->Val_1) =~= s.take(T::parse(s)->Val_1));
        T::local(s, t);
        x.rt(seq![]);
    }
}

/// P10: the result and the number of bytes consumed depend on the bytes only (`agrees` is what every decoder is verified against).
pub proof fn only_bytes<T: Model>(o: Out<T::M>, s: Seq<u8>, a: Result<T>, rest_a: Seq<u8>, b: Result<T>, rest_b: Seq<u8>)
    requires agrees(o, s, a, rest_a), agrees(o, s, b, rest_b)
    ensures match (a, b) { (Ok(x), Ok(y)) => x.m() == y.m() && rest_a == rest_b, (Err(e), Err(f)) => kind(e) == kind(f), _ => false }
{}

/// P03: what `size` returns is what `encode` writes.
pub proof fn same_length<T: Encode>(x: T, n: usize, before: Seq<u8>, after: Seq<u8>)
    requires n == x.enc().len(), after == before + x.enc()
    ensures after.len() - before.len() == n
{}

pub proof fn block_rt(c: Seq<u8>, t: Seq<u8>)
    requires enc_bytes(c).len() <= usize::MAX
    ensures block(enc_bytes(c) + t) == Out::Val(c, enc_bytes(c).len() as int), enc_bytes(c).len() >= 1,
        parse_u64(enc_bytes(c) + t) == Out::Val(c.len() as u64, enc_bytes(c).len() - c.len())
{
    rt_u64(c.len() as u64, c + t);
    assert(enc_bytes(c) + t =~= enc_u64(c.len() as u64) + (c + t));
    let s = enc_bytes(c) + t;
    let n = enc_u64(c.len() as u64).len() as int;
    assert(s.subrange(n, n + c.len()) =~= c);
}

pub proof fn block_local(s: Seq<u8>, t: Seq<u8>)
    requires block(s) is Val, t.len() >= block(s)->Val_1, t.take(block(s)->Val_1) == s.take(block(s)->Val_1)
    ensures block(t) == block(s), 1 <= block(s)->Val_1 <= s.len()
{
    broadcast use words;
    let n = parse_u64(s)->Val_1;
    let l = parse_u64(s)->Val_0 as int;
    assert(n <= block(s)->Val_1);
    assert(t.take(block(s)->Val_1).take(n) =~= t.take(n));
    assert(s.take(block(s)->Val_1).take(n) =~= s.take(n));
    local_u64(s, t);
    assert(t.take(n + l).subrange(n, n + l) =~= t.subrange(n, n + l));
    assert(s.take(n + l).subrange(n, n + l) =~= s.subrange(n, n + l));
}

impl Local for bool { proof fn local(s: Seq<u8>, t: Seq<u8>) { if s.len() >= 1 { assert(s.take(1)[0] == t.take(1)[0]); } }
    proof fn bounds(s: Seq<u8>) {  }
}
impl Round for bool { proof fn rt(&self, t: Seq<u8>) {} }
impl Local for u8 { proof fn local(s: Seq<u8>, t: Seq<u8>) { if s.len() >= 1 { assert(s.take(1)[0] == t.take(1)[0]); } }
    proof fn bounds(s: Seq<u8>) {  }
}
impl Round for u8 { proof fn rt(&self, t: Seq<u8>) {} }
impl Local for i8 { proof fn local(s: Seq<u8>, t: Seq<u8>) { if s.len() >= 1 { assert(s.take(1)[0] == t.take(1)[0]); } }
    proof fn bounds(s: Seq<u8>) {  }
}
impl Round for i8 {
    proof fn rt(&self, t: Seq<u8>) {
        let x = *self;
        assert((x as u8) as i8 == x) by (bit_vector);
    }
}
impl Local for f32 { proof fn local(s: Seq<u8>, t: Seq<u8>) {}
    proof fn bounds(s: Seq<u8>) {  }
}
impl Round for f32 {
    proof fn rt(&self, t: Seq<u8>) { float_bytes_len(); assert((self.enc() + t).take(4) =~= self.enc()); }
}
impl Local for f64 { proof fn local(s: Seq<u8>, t: Seq<u8>) {}
    proof fn bounds(s: Seq<u8>) {  }
}
impl Round for f64 {
    proof fn rt(&self, t: Seq<u8>) { float_bytes_len(); assert((self.enc() + t).take(8) =~= self.enc()); }
}

pub proof fn string_rt(x: Seq<char>, t: Seq<u8>)
    requires enc_bytes(encode_utf8(x)).len() <= usize::MAX
    ensures parse_string(enc_bytes(encode_utf8(x)) + t) == Out::Val(x, enc_bytes(encode_utf8(x)).len() as int)
{
    block_rt(encode_utf8(x), t);
    encode_utf8_valid_utf8(x);
    encode_utf8_decode_utf8(x);
}
impl Local for String { proof fn local(s: Seq<u8>, t: Seq<u8>) { block_local(s, t); }
    proof fn bounds(s: Seq<u8>) { broadcast use blocks;  }
}
impl Round for String { proof fn rt(&self, t: Seq<u8>) { string_rt(self@, t); } }
impl Local for Box<str> { proof fn local(s: Seq<u8>, t: Seq<u8>) { block_local(s, t); }
    proof fn bounds(s: Seq<u8>) { broadcast use blocks;  }
}
impl Round for Box<str> { proof fn rt(&self, t: Seq<u8>) { string_rt(self@, t); } }
impl Local for Box<[u8]> { proof fn local(s: Seq<u8>, t: Seq<u8>) { block_local(s, t); }
    proof fn bounds(s: Seq<u8>) { broadcast use blocks;  }
}
impl Round for Box<[u8]> { proof fn rt(&self, t: Seq<u8>) { broadcast use models_u8; block_rt(self@, t); } }

// Sequences.

pub proof fn elements<T: Round>(xs: Seq<T>, t: Seq<u8>)
    requires xs.len() > 0, concat(refs(xs), enc_ref::<T>()).len() <= usize::MAX
    ensures
        concat(refs(xs), enc_ref::<T>()) == xs[0].enc() + concat(refs(xs.skip(1)), enc_ref::<T>()),
        xs[0].enc().len() >= 1,
        T::parse(concat(refs(xs), enc_ref::<T>()) + t) == Out::Val(xs[0].m(), xs[0].enc().len() as int),
        (concat(refs(xs), enc_ref::<T>()) + t).skip(xs[0].enc().len() as int) == concat(refs(xs.skip(1)), enc_ref::<T>()) + t,
{
    let e = enc_ref::<T>();
    concat_front(refs(xs), e);
    assert(refs(xs).skip(1) =~= refs(xs.skip(1)));
    let rest = concat(refs(xs.skip(1)), e);
    assert(concat(refs(xs), e) + t =~= xs[0].enc() + (rest + t));
    xs[0].rt(rest + t);
    some_bytes(xs[0]);
    assert((concat(refs(xs), e) + t).skip(xs[0].enc().len() as int) =~= rest + t);
}

pub proof fn models_front<T: Model>(xs: Seq<T>, acc: Seq<T::M>)
    requires xs.len() > 0
    ensures acc.push(xs[0].m()) + models(xs.skip(1)) == acc + models(xs)
{
    models_add(seq![xs[0]], xs.skip(1));
    assert(seq![xs[0]] + xs.skip(1) =~= xs);
    assert(seq![xs[0]].drop_last() =~= seq![]);
    models_push(seq![], xs[0]);
    assert(seq![].push(xs[0]) =~= seq![xs[0]]);
    assert(models(Seq::<T>::empty()) =~= seq![]);
    assert(models(seq![xs[0]]) =~= seq![xs[0].m()]);
    assert(acc.push(xs[0].m()) + models(xs.skip(1)) =~= acc + models(xs));
}

pub proof fn items_rt<T: Round>(xs: Seq<T>, acc: Seq<T::M>)
    requires concat(refs(xs), enc_ref::<T>()).len() <= usize::MAX
    ensures items(parser::<T>(), concat(refs(xs), enc_ref::<T>()), acc) == Out::Val(acc + models(xs), 0)
    decreases xs.len()
{
    if xs.len() == 0 {
        assert(acc + models(xs) =~= acc);
    } else {
        elements(xs, seq![]);
        let s = concat(refs(xs), enc_ref::<T>());
        let r = concat(refs(xs.skip(1)), enc_ref::<T>());
        assert(s + seq![] =~= s);
        assert(r + seq![] =~= r);
        items_rt(xs.skip(1), acc.push(xs[0].m()));
        models_front(xs, acc);
    }
}

impl<T: Round> Local for Vec<T> { proof fn local(s: Seq<u8>, t: Seq<u8>) { block_local(s, t); }
    proof fn bounds(s: Seq<u8>) { broadcast use blocks;  }
}
impl<T: Round> Round for Vec<T> {
    proof fn rt(&self, t: Seq<u8>) {
        let c = concat(refs(self@), enc_ref::<T>());
        block_rt(c, t);
        items_rt(self@, seq![]);
        assert(seq![] + models(self@) =~= models(self@));
    }
}

// Maps and sets.

pub proof fn map_items_rt<K: Round, V: Round>(es: Seq<(K, V)>, acc: Map<K::M, V::M>)
    requires concat(pair_refs(es), enc_pair::<K, V>()).len() <= usize::MAX
    ensures map_items(parser::<K>(), parser::<V>(), concat(pair_refs(es), enc_pair::<K, V>()), acc) == Out::Val(to_map(pair_models(es), acc), 0)
    decreases es.len()
{
    let e = enc_pair::<K, V>();
    if es.len() > 0 {
        concat_front(pair_refs(es), e);
        assert(pair_refs(es).skip(1) =~= pair_refs(es.skip(1)));
        let rest = concat(pair_refs(es.skip(1)), e);
        let s = concat(pair_refs(es), e);
        let k = es[0].0;
        let v = es[0].1;
        assert(e((&k, &v)) == k.enc() + v.enc());
        assert(s =~= k.enc() + (v.enc() + rest));
        k.rt(v.enc() + rest);
        v.rt(rest);
        some_bytes(k);
        some_bytes(v);
        assert(s.skip(k.enc().len() as int) =~= v.enc() + rest);
        assert(s.skip((k.enc().len() + v.enc().len()) as int) =~= rest);
        map_items_rt(es.skip(1), acc.insert(k.m(), v.m()));
        assert(pair_models(es).skip(1) =~= pair_models(es.skip(1)));
        assert(parse_pair(parser::<K>(), parser::<V>(), s) == Out::Val((k.m(), v.m()), (k.enc().len() + v.enc().len()) as int));
    }
}
impl<K: Round + Hash + Eq, V: Round> Local for HashMap<K, V> { proof fn local(s: Seq<u8>, t: Seq<u8>) { block_local(s, t); }
    proof fn bounds(s: Seq<u8>) { broadcast use blocks;  }
}
impl<K: Round + Hash + Eq, V: Round> Round for HashMap<K, V> {
    proof fn rt(&self, t: Seq<u8>) {
        block_rt(concat(pair_refs(self.entries()), enc_pair::<K, V>()), t);
        map_items_rt(self.entries(), Map::empty());
        map_entries(*self);
    }
}

pub proof fn set_items_rt<T: Round>(xs: Seq<T>, acc: Set<T::M>)
    requires concat(refs(xs), enc_ref::<T>()).len() <= usize::MAX
    ensures set_items(parser::<T>(), concat(refs(xs), enc_ref::<T>()), acc) == Out::Val(to_set(models(xs), acc), 0)
    decreases xs.len()
{
    broadcast use models_len;
    if xs.len() > 0 {
        elements(xs, seq![]);
        let s = concat(refs(xs), enc_ref::<T>());
        let r = concat(refs(xs.skip(1)), enc_ref::<T>());
        assert(s + seq![] =~= s);
        assert(r + seq![] =~= r);
        set_items_rt(xs.skip(1), acc.insert(xs[0].m()));
        models_index(xs);
        models_index(xs.skip(1));
        assert(models(xs).skip(1) =~= models(xs.skip(1)));
    }
}
impl<T: Round + Hash + Eq> Local for HashSet<T> { proof fn local(s: Seq<u8>, t: Seq<u8>) { block_local(s, t); }
    proof fn bounds(s: Seq<u8>) { broadcast use blocks;  }
}
impl<T: Round + Hash + Eq> Round for HashSet<T> {
    proof fn rt(&self, t: Seq<u8>) {
        block_rt(concat(refs(self.entries()), enc_ref::<T>()), t);
        set_items_rt(self.entries(), Set::empty());
        set_entries(*self);
    }
}

// Options, arrays, pointers.

impl<T: Local> Local for Option<T> {
    proof fn bounds(s: Seq<u8>) { if s[0] == 1 { T::bounds(s.skip(1)); } }
    proof fn local(s: Seq<u8>, t: Seq<u8>) {
        let n = Self::parse(s)->Val_1;
        if s[0] == 1 {
            let k = T::parse(s.skip(1))->Val_1;
            T::bounds(s.skip(1));
            assert(s.take(n)[0] == t.take(n)[0]);
            assert(t.skip(1).take(k) =~= t.take(n).skip(1));
            assert(s.skip(1).take(k) =~= s.take(n).skip(1));
            T::local(s.skip(1), t.skip(1));
        } else {
            assert(s.take(n)[0] == t.take(n)[0]);
        }
    }
}
impl<T: Round> Round for Option<T> {
    proof fn rt(&self, t: Seq<u8>) {
        if let Some(x) = self {
            x.rt(t);
            assert((self.enc() + t).skip(1) =~= x.enc() + t);
        }
    }
}

pub proof fn first_items_rt<T: Round>(xs: Seq<T>, rest: Seq<u8>, n: nat, acc: Seq<T::M>)
    requires acc.len() + xs.len() <= n, concat(refs(xs), enc_ref::<T>()).len() <= usize::MAX
    ensures first_items(parser::<T>(), concat(refs(xs), enc_ref::<T>()) + rest, n, acc) == first_items(parser::<T>(), rest, n, acc + models(xs))
    decreases xs.len()
{
    if xs.len() == 0 {
        assert(acc + models(xs) =~= acc);
        assert(concat(refs(xs), enc_ref::<T>()) + rest =~= rest);
    } else {
        elements(xs, rest);
        first_items_rt(xs.skip(1), rest, n, acc.push(xs[0].m()));
        models_front(xs, acc);
    }
}
pub proof fn concat_add<X>(xs: Seq<X>, ys: Seq<X>, e: spec_fn(X) -> Seq<u8>)
    ensures concat(xs + ys, e) == concat(xs, e) + concat(ys, e)
    decreases ys.len()
{
    if ys.len() == 0 {
        assert(xs + ys =~= xs);
        assert(concat(xs, e) + concat(ys, e) =~= concat(xs, e));
    } else {
        concat_add(xs, ys.drop_last(), e);
        assert((xs + ys).drop_last() =~= xs + ys.drop_last());
        assert(concat(xs + ys, e) =~= concat(xs, e) + concat(ys, e));
    }
}

/// P11: reading an array of `xs` as one of `n` elements.
pub proof fn resized<T: Round>(xs: Seq<T>, n: nat, t: Seq<u8>)
    requires enc_bytes(concat(refs(xs), enc_ref::<T>())).len() <= usize::MAX
    ensures ({
        let s = enc_bytes(concat(refs(xs), enc_ref::<T>()));
        if xs.len() >= n { parse_array(parser::<T>(), n, s + t) == Out::Val(models(xs).take(n as int), s.len() as int) }
        else { parse_array(parser::<T>(), n, s + t) is Err }
    })
{
    let e = enc_ref::<T>();
    let c = concat(refs(xs), e);
    block_rt(c, t);
    models_index(xs);
    if xs.len() >= n {
        let a = xs.take(n as int);
        let b = xs.skip(n as int);
        assert(refs(xs) =~= refs(a) + refs(b));
        concat_add(refs(a), refs(b), e);
        first_items_rt(a, concat(refs(b), e), n, seq![]);
        models_index(a);
        assert(seq![] + models(a) =~= models(xs).take(n as int));
    } else {
        first_items_rt(xs, seq![], n, seq![]);
        assert(c + seq![] =~= c);
        assert(seq![] + models(xs) =~= models(xs));
        nothing_left::<T>();
    }
}
pub proof fn nothing_left<T: Local>()
    ensures T::parse(seq![]) is Err
{
    let s: Seq<u8> = seq![];
    if T::parse(s) is Val {
        let n = T::parse(s)->Val_1;
        T::bounds(s);
    }
}

impl<const N: usize, T: Round + Debug> Local for [T; N] { proof fn local(s: Seq<u8>, t: Seq<u8>) { block_local(s, t); }
    proof fn bounds(s: Seq<u8>) { broadcast use blocks;  }
}
impl<const N: usize, T: Round + Debug> Round for [T; N] {
    proof fn rt(&self, t: Seq<u8>) {
        resized(self@, N as nat, t);
        models_index(self@);
        assert(models(self@).take(N as int) =~= models(self@));
    }
}
impl<T: Local> Local for std::rc::Rc<T> { proof fn local(s: Seq<u8>, t: Seq<u8>) { T::local(s, t); }
    proof fn bounds(s: Seq<u8>) { T::bounds(s); }
}
impl<T: Round> Round for std::rc::Rc<T> { proof fn rt(&self, t: Seq<u8>) { (**self).rt(t); } }
impl<T: Copy + Local> Local for Cow<'_, T> { proof fn local(s: Seq<u8>, t: Seq<u8>) { T::local(s, t); }
    proof fn bounds(s: Seq<u8>) { T::bounds(s); }
}
impl<T: Copy + Round> Round for Cow<'_, T> { proof fn rt(&self, t: Seq<u8>) { self.the().rt(t); } }
impl<T: Local> Local for std::sync::Arc<T> { proof fn local(s: Seq<u8>, t: Seq<u8>) { T::local(s, t); }
    proof fn bounds(s: Seq<u8>) { T::bounds(s); }
}
impl<T: Round> Round for std::sync::Arc<T> { proof fn rt(&self, t: Seq<u8>) { (**self).rt(t); } }

// P07: non-zero containers.

/// Content that is not empty is decoded like the plain type, empty content is refused.
pub proof fn non_zero_like_plain<M>(c: Seq<u8>, t: Seq<u8>, plain: Out<M>)
    requires enc_bytes(c).len() <= usize::MAX
    ensures non_zero(enc_bytes(c) + t, plain) == (if c.len() == 0 { Out::Err(Kind::Zero) } else { plain })
{
    block_rt(c, t);
}
pub proof fn elements_take_room<T: Round>(xs: Seq<T>)
    requires concat(refs(xs), enc_ref::<T>()).len() <= usize::MAX
    ensures concat(refs(xs), enc_ref::<T>()).len() >= xs.len()
    decreases xs.len()
{
    if xs.len() > 0 { elements(xs, seq![]); elements_take_room(xs.skip(1)); }
}
pub proof fn non_zero_vec<T: Round>(x: NonZero<Vec<T>>, t: Seq<u8>)
    requires x.0@.len() > 0, x.enc().len() <= usize::MAX
    ensures non_zero(x.enc() + t, Vec::<T>::parse(x.enc() + t)) == Out::Val(x.m(), x.enc().len() as int)
{
    x.0.rt(t);
    elements_take_room(x.0@);
    non_zero_like_plain(concat(refs(x.0@), enc_ref::<T>()), t, Vec::<T>::parse(x.enc() + t));
}
pub proof fn non_zero_set<T: Round + Hash + Eq>(x: NonZero<HashSet<T>>, t: Seq<u8>)
    requires !vacant_set(x.0.m()), x.enc().len() <= usize::MAX
    ensures non_zero(x.enc() + t, HashSet::<T>::parse(x.enc() + t)) == Out::Val(x.m(), x.enc().len() as int)
{
    x.0.rt(t);
    set_entries(x.0);
    let es = x.0.entries();
    if es.len() == 0 { reveal(vacant_set); assert(models(es) =~= seq![]); }
    elements_take_room(es);
    non_zero_like_plain(concat(refs(es), enc_ref::<T>()), t, HashSet::<T>::parse(x.enc() + t));
}
pub proof fn non_zero_map<K: Round + Hash + Eq, V: Round>(x: NonZero<HashMap<K, V>>, t: Seq<u8>)
    requires !vacant(x.0.m()), x.enc().len() <= usize::MAX
    ensures non_zero(x.enc() + t, HashMap::<K, V>::parse(x.enc() + t)) == Out::Val(x.m(), x.enc().len() as int)
{
    x.0.rt(t);
    map_entries(x.0);
    let es = x.0.entries();
    if es.len() == 0 { reveal(vacant); assert(pair_models(es) =~= seq![]); }
    let e = enc_pair::<K, V>();
    assert(es.len() > 0 ==> concat(pair_refs(es), e).len() >= 1) by {
        if es.len() > 0 { concat_part(pair_refs(es), e, 0); assert(e(pair_refs(es)[0]) == es[0].0.enc() + es[0].1.enc()); some_bytes(es[0].0); }
    }
    non_zero_like_plain(concat(pair_refs(es), e), t, HashMap::<K, V>::parse(x.enc() + t));
}
pub proof fn non_zero_string(x: NonZeroString, t: Seq<u8>)
    requires x.0@.len() > 0, x.enc().len() <= usize::MAX
    ensures non_zero(x.enc() + t, String::parse(x.enc() + t)) == Out::Val(x.m(), x.enc().len() as int)
{
    broadcast use utf8_nonempty;
    x.0.rt(t);
    encode_utf8_valid_utf8(x.0@);
    encode_utf8_decode_utf8(x.0@);
    non_zero_like_plain(encode_utf8(x.0@), t, String::parse(x.enc() + t));
}

// P08: headers.

pub proof fn header_rt(id: FieldId, t: Seq<u8>)
    requires id.value < 0x2000_0000
    ensures parse_id(enc_id(id) + t) == Out::Val(id, enc_id(id).len() as int)
{
    let v = (id.value * 8 + marker(id.encoding)) as u32;
    rt_u32(v, t);
    assert(v % 8 == marker(id.encoding) && v / 8 == id.value);
}
pub proof fn header_injective(a: FieldId, b: FieldId)
    requires a.value < 0x2000_0000, b.value < 0x2000_0000, enc_id(a) == enc_id(b)
    ensures a == b
{
    header_rt(a, seq![]);
    header_rt(b, seq![]);
}
pub proof fn header_not_end(a: FieldId)
    requires 0 < a.value < 0x2000_0000
    ensures enc_id(a) != seq![0u8]
{
    header_rt(a, seq![]);
    let z = FieldId { value: 0, encoding: FieldEncoding::Varint };
    header_rt(z, seq![]);
    assert(enc_id(z) =~= seq![0u8]);
}

// P09: skipping.

pub proof fn skip_varint(n: nat, t: Seq<u8>)
    ensures parse_skip(FieldEncoding::Varint, groups(n) + t) == Out::Val((), groups(n).len() as int)
{
    groups_nonempty(n);
    groups_word(n, t, (groups(n) + t).len());
}
pub proof fn skip_varint_cut(n: nat, k: int)
    requires 0 <= k < groups(n).len()
    ensures parse_skip(FieldEncoding::Varint, groups(n).take(k)) is Err
{
    broadcast use words;
    let s = groups(n);
    groups_word(n, seq![], s.len());
    assert(s + seq![] =~= s);
    let w = word(s.take(k), k as nat);
    if w != 0 {
        assert(word_is(s.take(k), k as nat, w));
        assert(s[w - 1] == s.take(k)[w - 1]);
        word_means(s, s.len());
    }
}
pub proof fn skip_block(c: Seq<u8>, t: Seq<u8>)
    requires enc_bytes(c).len() <= usize::MAX
    ensures parse_skip(FieldEncoding::LengthPrefixed, enc_bytes(c) + t) == Out::Val((), enc_bytes(c).len() as int)
{
    block_rt(c, t);
}
pub proof fn skip_block_cut(c: Seq<u8>, k: int)
    requires enc_bytes(c).len() <= usize::MAX, 0 <= k < enc_bytes(c).len()
    ensures parse_skip(FieldEncoding::LengthPrefixed, enc_bytes(c).take(k)) is Err
{
    broadcast use blocks;
    let s = enc_bytes(c).take(k);
    if block(s) is Val {
        let t = enc_bytes(c) + seq![];
        let n = block(s)->Val_1;
        assert(t.take(n) =~= s.take(n));
        block_local(s, t);
        block_rt(c, seq![]);
    }
}
pub proof fn skip_fixed(x1: u8, x2: f32, x3: f64, t: Seq<u8>)
    ensures
        parse_skip(FieldEncoding::Fixed1, enc_u8(x1) + t) == Out::Val((), enc_u8(x1).len() as int),
        parse_skip(FieldEncoding::Fixed4, enc_f32(x2) + t) == Out::Val((), enc_f32(x2).len() as int),
        parse_skip(FieldEncoding::Fixed8, enc_f64(x3) + t) == Out::Val((), enc_f64(x3).len() as int),
        forall|e: FieldEncoding, s: Seq<u8>| (match e { FieldEncoding::Fixed1 => s.len() < 1, FieldEncoding::Fixed4 => s.len() < 4, FieldEncoding::Fixed8 => s.len() < 8, _ => false })
            ==> #[trigger] parse_skip(e, s) is Err
{
    float_bytes_len();
}
