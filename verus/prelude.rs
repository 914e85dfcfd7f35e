// Models of the dependencies, specifications of the wire format, and lemmas. Nothing here is a copy of /repo's code.

global size_of usize == 8;

// ---------------------------------------------------------------------------------------------------------------
// Errors. The enum itself is taken from the source.

/// What an error says, without the payload of foreign error types.
pub enum Kind { Data, Int, Utf8, Zero, Missing(u32, Option<Seq<char>>), Variant(u32), Encoding(u32) }

/// Outcome of decoding from some bytes: a value (its model) and the number of bytes consumed, or an error.
#[verifier::ext_equal]
pub enum Out<M> { Val(M, int), Err(Kind) }


/// The mathematical value that a Rust value stands for (equality of models is what `==` decides in Rust).
pub trait Model { type M; spec fn m(&self) -> Self::M; }

pub open spec fn models<T: Model>(xs: Seq<T>) -> Seq<T::M> decreases xs.len() {
    if xs.len() == 0 { seq![] } else { models(xs.drop_last()).push(xs.last().m()) }
}

pub broadcast proof fn models_push<T: Model>(xs: Seq<T>, x: T)
    ensures #[trigger] models(xs.push(x)) == models(xs).push(x.m())
{
    assert(xs.push(x).drop_last() =~= xs);
}

pub proof fn models_index<T: Model>(xs: Seq<T>)
    ensures models(xs).len() == xs.len(), forall|i: int| 0 <= i < xs.len() ==> #[trigger] models(xs)[i] == xs[i].m()
    decreases xs.len()
{
    if xs.len() > 0 { models_index(xs.drop_last()); }
}

pub broadcast proof fn models_len<T: Model>(xs: Seq<T>)
    ensures #[trigger] models(xs).len() == xs.len()
{
    models_index(xs);
}

pub proof fn models_add<T: Model>(xs: Seq<T>, ys: Seq<T>)
    ensures models(xs + ys) == models(xs) + models(ys)
    decreases ys.len()
{
    if ys.len() == 0 {
        assert(xs + ys =~= xs);
        assert(models(xs) + models(ys) =~= models(xs));
    } else {
        models_add(xs, ys.drop_last());
        assert((xs + ys).drop_last() =~= xs + ys.drop_last());
        assert(models(xs + ys) =~= models(xs) + models(ys));
    }
}

// ---------------------------------------------------------------------------------------------------------------
// Integers on the wire.

/// Little-endian groups of seven bits, all but the last one with the top bit set.
pub open spec fn groups(v: nat) -> Seq<u8> decreases v {
    if v < 128 { seq![v as u8] } else { seq![(v % 128 + 128) as u8] + groups(v / 128) }
}

/// The number that groups denote.
pub open spec fn number(s: Seq<u8>) -> nat decreases s.len() {
    if s.len() == 0 { 0 } else { (s[0] as nat % 128) + 128 * number(s.skip(1)) }
}

/// Length of the integer at the start of `s`: up to the first byte without the top bit, 0 if there is none among the first `max`.
pub open spec fn word(s: Seq<u8>, max: nat) -> nat decreases max {
    if max == 0 || s.len() == 0 { 0 } else if s[0] < 128 { 1 } else {
        let w = word(s.skip(1), (max - 1) as nat);
        if w == 0 { 0 } else { w + 1 }
    }
}

pub open spec fn word_is(s: Seq<u8>, max: nat, w: nat) -> bool {
    if w == 0 { forall|i: int| 0 <= i < s.len() && i < max ==> #[trigger] s[i] >= 128 } else {
        w <= max && w <= s.len() && s[w - 1] < 128 && forall|i: int| 0 <= i < w - 1 ==> #[trigger] s[i] >= 128
    }
}

pub broadcast proof fn word_means(s: Seq<u8>, max: nat)
    ensures word_is(s, max, #[trigger] word(s, max))
    decreases max
{
    if max == 0 || s.len() == 0 {} else if s[0] < 128 {} else {
        word_means(s.skip(1), (max - 1) as nat);
        let w = word(s.skip(1), (max - 1) as nat);
        assert forall|i: int| 0 < i < s.len() implies #[trigger] s[i] == s.skip(1)[i - 1] by {}
    }
}

pub broadcast proof fn word_unique(s: Seq<u8>, max: nat, w: nat)
    requires #[trigger] word_is(s, max, w)
    ensures w == word(s, max)
{
    word_means(s, max);
    let v = word(s, max);
    if v != w {
        if v == 0 { assert(s[w - 1] >= 128); } else if w == 0 { assert(s[v - 1] >= 128); }
        else if v < w { assert(s[v - 1] >= 128); } else { assert(s[w - 1] >= 128); }
    }
}

pub broadcast proof fn word_len(s: Seq<u8>, max: nat)
    ensures #[trigger] word(s, max) <= s.len(), word(s, max) <= max
{
    word_means(s, max);
}

/// Looking at a part of the data only.
pub broadcast proof fn word_take(s: Seq<u8>, k: int, max: nat)
    requires 0 <= k <= s.len()
    ensures
        k >= max || k == s.len() || word(s.take(k), max) != 0 ==> #[trigger] word(s.take(k), max) == word(s, max),
        word(s, max) <= k ==> word(s.take(k), max) == word(s, max),
{
    word_means(s.take(k), max);
    word_means(s, max);
    let w = word(s.take(k), max);
    let v = word(s, max);
    assert forall|i: int| 0 <= i < k implies s.take(k)[i] == s[i] by {}
    if k >= max || k == s.len() || w != 0 {
        assert forall|i: int| w == 0 && 0 <= i < s.len() && i < max implies #[trigger] s[i] >= 128 by { assert(s.take(k)[i] == s[i]); }
        if w > 0 {
            assert forall|i: int| 0 <= i < w - 1 implies #[trigger] s[i] >= 128 by { assert(s.take(k)[i] == s[i]); }
        }
        assert(word_is(s, max, w));
        word_unique(s, max, w);
    }
    if v <= k && v > 0 {
        assert(word_is(s.take(k), max, v));
        word_unique(s.take(k), max, v);
    } else if v == 0 {
        assert forall|i: int| 0 <= i < k && i < max implies #[trigger] s.take(k)[i] >= 128 by { assert(s[i] >= 128); }
        assert(word_is(s.take(k), max, 0));
        word_unique(s.take(k), max, 0);
    }
}

pub broadcast proof fn take_take(s: Seq<u8>, k: int, w: int)
    requires 0 <= w <= k <= s.len()
    ensures #[trigger] s.take(k).take(w) == s.take(w)
{
    assert(s.take(k).take(w) =~= s.take(w));
}

pub broadcast group words { word_means, word_unique, word_len, word_take, take_take }

pub proof fn groups_len(v: nat, k: nat)
    requires v < vstd::arithmetic::power::pow(128, k), k >= 1
    ensures 1 <= groups(v).len() <= k
    decreases k
{
    reveal(vstd::arithmetic::power::pow);
    if v >= 128 {
        if k == 1 { assert(vstd::arithmetic::power::pow(128, 1) == 128) by { reveal_with_fuel(vstd::arithmetic::power::pow, 3); } }
        assert(v / 128 < vstd::arithmetic::power::pow(128, (k - 1) as nat)) by (nonlinear_arith)
            requires v < 128 * vstd::arithmetic::power::pow(128, (k - 1) as nat);
        groups_len(v / 128, (k - 1) as nat);
    }
}

pub broadcast proof fn groups_nonempty(v: nat)
    ensures #[trigger] groups(v).len() >= 1
    decreases v
{
    if v >= 128 { groups_nonempty(v / 128); }
}

pub proof fn groups_word(v: nat, t: Seq<u8>, max: nat)
    requires groups(v).len() <= max
    ensures word(groups(v) + t, max) == groups(v).len()
    decreases v
{
    if v >= 128 {
        groups_nonempty(v / 128);
        groups_word(v / 128, t, (max - 1) as nat);
        assert((groups(v) + t).skip(1) =~= groups(v / 128) + t);
        assert((groups(v) + t)[0] == (v % 128 + 128) as u8);
    } else {
        assert((groups(v) + t)[0] == v as u8);
    }
}

pub proof fn groups_number(v: nat)
    ensures number(groups(v)) == v
    decreases v
{
    if v >= 128 {
        groups_number(v / 128);
        assert(groups(v).skip(1) =~= groups(v / 128));
        assert(groups(v)[0] as nat % 128 == v % 128);
    } else {
        assert(groups(v).skip(1) =~= seq![]);
        assert(number(groups(v).skip(1)) == 0);
    }
}

pub open spec fn zig(v: int) -> nat { if v >= 0 { (2 * v) as nat } else { (-2 * v - 1) as nat } }
pub open spec fn zag(n: nat) -> int { if n % 2 == 0 { n as int / 2 } else { -((n as int + 1) / 2) } }

pub proof fn top_bit(b: u8)
    ensures (b & 0x80 == 0) == (b < 128)
{
    assert((b & 0x80 == 0) == (b < 128)) by (bit_vector);
}

pub proof fn top_bits()
    ensures forall|b: u8| #![trigger b & 0x80] (b & 0x80 == 0) == (b < 128)
{
    assert forall|b: u8| #![trigger b & 0x80] (b & 0x80 == 0) == (b < 128) by { top_bit(b); }
}

// ---------------------------------------------------------------------------------------------------------------
// Buffers: the `bytes` crate.

/// Model of `bytes::Bytes`.
#[verifier::external_body]
pub struct Bytes { _p: u8 }
impl Bytes { pub uninterp spec fn view(&self) -> Seq<u8>; }

pub uninterp spec fn f32_bytes(x: f32) -> Seq<u8>;
pub uninterp spec fn f64_bytes(x: f64) -> Seq<u8>;

/// Model of `bytes::Buf`: `view` is the unread data, `adv(a, b)` holds if `b` results from reading from `a` only.
pub trait Buf: Sized {
    spec fn view(&self) -> Seq<u8>;
    #[verifier::prophetic] spec fn adv(a: Self, b: Self) -> bool;
    proof fn adv_view(a: Self, b: Self)
        requires Self::adv(a, b)
        ensures b.view().len() <= a.view().len(), b.view() == a.view().skip(a.view().len() - b.view().len());
    proof fn adv_refl(a: Self) ensures Self::adv(a, a);
    proof fn adv_trans(a: Self, b: Self, c: Self) requires Self::adv(a, b), Self::adv(b, c) ensures Self::adv(a, c);
    fn remaining(&self) -> (r: usize) ensures r == self.view().len();
    fn has_remaining(&self) -> (r: bool) ensures r == (self.view().len() > 0);
    fn chunk(&self) -> (c: &[u8])
        ensures c@.len() <= self.view().len(), c@ == self.view().take(c@.len() as int), self.view().len() > 0 ==> c@.len() > 0;
    fn get_u8(&mut self) -> (r: u8)
        requires (*old(self)).view().len() >= 1
        ensures Self::adv(*old(self), *final(self)), (*final(self)).view().len() == (*old(self)).view().len() - 1,
            r == (*old(self)).view()[0];
    fn get_i8(&mut self) -> (r: i8)
        requires (*old(self)).view().len() >= 1
        ensures Self::adv(*old(self), *final(self)), (*final(self)).view().len() == (*old(self)).view().len() - 1,
            r == (*old(self)).view()[0] as i8;
    fn get_f32(&mut self) -> (r: f32)
        requires (*old(self)).view().len() >= 4
        ensures Self::adv(*old(self), *final(self)), (*final(self)).view().len() == (*old(self)).view().len() - 4,
            f32_bytes(r) == (*old(self)).view().take(4);
    fn get_f64(&mut self) -> (r: f64)
        requires (*old(self)).view().len() >= 8
        ensures Self::adv(*old(self), *final(self)), (*final(self)).view().len() == (*old(self)).view().len() - 8,
            f64_bytes(r) == (*old(self)).view().take(8);
    fn advance(&mut self, n: usize)
        requires n <= (*old(self)).view().len()
        ensures Self::adv(*old(self), *final(self)), (*final(self)).view().len() == (*old(self)).view().len() - n;
    fn copy_to_bytes(&mut self, n: usize) -> (r: Bytes)
        requires n <= (*old(self)).view().len()
        ensures Self::adv(*old(self), *final(self)), (*final(self)).view().len() == (*old(self)).view().len() - n,
            r.view() == (*old(self)).view().take(n as int);
    fn take(self, limit: usize) -> (t: Take<Self>) ensures t.inner == self, t.limit == limit;
}

pub proof fn laws<B: Buf>()
    ensures
        forall|a: B| #[trigger] B::adv(a, a),
        forall|a: B, b: B| #[trigger] B::adv(a, b) ==> b.view().len() <= a.view().len() && b.view() == a.view().skip(a.view().len() - b.view().len()),
        forall|a: B, b: B, c: B| #[trigger] B::adv(a, b) && #[trigger] B::adv(b, c) ==> B::adv(a, c),
{
    assert forall|a: B| #[trigger] B::adv(a, a) by { B::adv_refl(a); }
    assert forall|a: B, b: B| #[trigger] B::adv(a, b) implies b.view().len() <= a.view().len() && b.view() == a.view().skip(a.view().len() - b.view().len()) by { B::adv_view(a, b); }
    assert forall|a: B, b: B, c: B| #[trigger] B::adv(a, b) && #[trigger] B::adv(b, c) implies B::adv(a, c) by { B::adv_trans(a, b, c); }
}

/// Model of `bytes::buf::Take`.
pub struct Take<B> { pub inner: B, pub limit: usize }

impl<B: Buf> Buf for &mut B {
    open spec fn view(&self) -> Seq<u8> { (**self).view() }
    #[verifier::prophetic] open spec fn adv(a: Self, b: Self) -> bool { B::adv(*a, *b) && *final(a) == *final(b) }
    proof fn adv_view(a: Self, b: Self) { B::adv_view(*a, *b); }
    proof fn adv_refl(a: Self) { B::adv_refl(*a); }
    proof fn adv_trans(a: Self, b: Self, c: Self) { B::adv_trans(*a, *b, *c); }
    fn remaining(&self) -> (r: usize) { (**self).remaining() }
    fn has_remaining(&self) -> (r: bool) { (**self).has_remaining() }
    fn chunk(&self) -> (c: &[u8]) { (**self).chunk() }
    fn get_u8(&mut self) -> (r: u8) { (**self).get_u8() }
    fn get_i8(&mut self) -> (r: i8) { (**self).get_i8() }
    fn get_f32(&mut self) -> (r: f32) { (**self).get_f32() }
    fn get_f64(&mut self) -> (r: f64) { (**self).get_f64() }
    fn advance(&mut self, n: usize) { (**self).advance(n) }
    fn copy_to_bytes(&mut self, n: usize) -> (r: Bytes) { (**self).copy_to_bytes(n) }
    #[verifier::external_body]
    fn take(self, limit: usize) -> Take<Self> { Take { inner: self, limit } }
}

impl<B: Buf> Buf for Take<B> {
    open spec fn view(&self) -> Seq<u8> {
        if self.limit <= self.inner.view().len() { self.inner.view().take(self.limit as int) } else { self.inner.view() }
    }
    #[verifier::prophetic] open spec fn adv(a: Self, b: Self) -> bool {
        B::adv(a.inner, b.inner) && b.limit == a.limit - (a.inner.view().len() - b.inner.view().len())
    }
    proof fn adv_view(a: Self, b: Self) {
        B::adv_view(a.inner, b.inner);
        assert(b.view() =~= a.view().skip(a.view().len() - b.view().len()));
    }
    proof fn adv_refl(a: Self) { B::adv_refl(a.inner); }
    proof fn adv_trans(a: Self, b: Self, c: Self) { B::adv_trans(a.inner, b.inner, c.inner); }
    fn remaining(&self) -> (r: usize) { let x = self.inner.remaining(); if x < self.limit { x } else { self.limit } }
    fn has_remaining(&self) -> (r: bool) { self.remaining() > 0 }
    #[verifier::external_body]
    fn chunk(&self) -> (c: &[u8]) { unimplemented!() }
    fn get_u8(&mut self) -> (r: u8) { self.limit = self.limit - 1; self.inner.get_u8() }
    fn get_i8(&mut self) -> (r: i8) { self.limit = self.limit - 1; self.inner.get_i8() }
    fn get_f32(&mut self) -> (r: f32) { broadcast use take_take; self.limit = self.limit - 4; self.inner.get_f32() }
    fn get_f64(&mut self) -> (r: f64) { broadcast use take_take; self.limit = self.limit - 8; self.inner.get_f64() }
    fn advance(&mut self, n: usize) { self.inner.advance(n); self.limit = self.limit - n; }
    fn copy_to_bytes(&mut self, n: usize) -> (r: Bytes) {
        broadcast use take_take;
        self.limit = self.limit - n;
        self.inner.copy_to_bytes(n)
    }
    #[verifier::external_body]
    fn take(self, limit: usize) -> Take<Self> { Take { inner: self, limit } }
}

/// Model of `bytes::BufMut` with enough room (running out of room panics).
pub trait BufMut: Sized {
    spec fn view(&self) -> Seq<u8>;
    fn put_u8(&mut self, x: u8) ensures (*final(self)).view() == (*old(self)).view().push(x);
    fn put_i8(&mut self, x: i8) ensures (*final(self)).view() == (*old(self)).view().push(x as u8);
    fn put_f32(&mut self, x: f32) ensures (*final(self)).view() == (*old(self)).view() + f32_bytes(x);
    fn put_f64(&mut self, x: f64) ensures (*final(self)).view() == (*old(self)).view() + f64_bytes(x);
    fn put(&mut self, src: &[u8]) ensures (*final(self)).view() == (*old(self)).view() + src@;
}

#[verifier::external_body]
pub proof fn float_bytes_len()
    ensures forall|x: f32| (#[trigger] f32_bytes(x)).len() == 4, forall|x: f64| (#[trigger] f64_bytes(x)).len() == 8
{ unimplemented!() }

// ---------------------------------------------------------------------------------------------------------------
// What decoding means.

/// The result `res` and the remaining data `rest` are what the outcome `o` of decoding `s` says.
pub open spec fn agrees<T: Model>(o: Out<T::M>, s: Seq<u8>, res: Result<T>, rest: Seq<u8>) -> bool {
    match res {
        Ok(x) => o matches Out::Val(m, n) && x.m() == m && 0 <= n <= s.len() && rest == s.skip(n),
        Err(e) => o == Out::<T::M>::Err(kind(e)),
    }
}

#[verifier::prophetic]
pub open spec fn frame<R: Buf, T, D: Fn(&mut R) -> Result<T>>(d: D) -> bool {
    &&& forall|t: &mut R| d.requires((t,))
    &&& forall|t: &mut R, res: Result<T>| #[trigger] d.ensures((t,), res) ==> R::adv(*t, *final(t))
}

/// The closure `d` decodes what the specification `p` says.
#[verifier::prophetic]
pub open spec fn implements<R: Buf, T: Model, D: Fn(&mut R) -> Result<T>>(d: D, p: spec_fn(Seq<u8>) -> Out<T::M>) -> bool {
    forall|t: &mut R, res: Result<T>| #[trigger] d.ensures((t,), res) ==> agrees(p((*t).view()), (*t).view(), res, (*final(t)).view())
}

// ---------------------------------------------------------------------------------------------------------------
// What encoding means.

pub open spec fn total(ls: Seq<usize>) -> nat decreases ls.len() {
    if ls.len() == 0 { 0 } else { total(ls.drop_last()) + ls.last() as nat }
}
/// The encodings of the elements one after the other.
pub open spec fn concat<X>(xs: Seq<X>, e: spec_fn(X) -> Seq<u8>) -> Seq<u8> decreases xs.len() {
    if xs.len() == 0 { seq![] } else { concat(xs.drop_last(), e) + e(xs.last()) }
}
/// `ls` are lengths that `f` may give for the elements.
pub open spec fn measured<X, F: Fn(X) -> usize>(f: F, xs: Seq<X>, ls: Seq<usize>) -> bool {
    ls.len() == xs.len() && forall|i: int| 0 <= i < xs.len() ==> f.ensures((#[trigger] xs[i],), ls[i])
}
pub open spec fn measurable<X, F: Fn(X) -> usize>(f: F, xs: Seq<X>) -> bool {
    &&& forall|i: int| 0 <= i < xs.len() ==> f.requires((#[trigger] xs[i],))
    &&& forall|k: int, ls: Seq<usize>| 0 <= k <= xs.len() && #[trigger] measured(f, xs.take(k), ls) ==> total(ls) <= usize::MAX
}
pub broadcast proof fn concat_take<X>(xs: Seq<X>, i: int, e: spec_fn(X) -> Seq<u8>)
    requires 0 <= i < xs.len()
    ensures #[trigger] concat(xs.take(i + 1), e) == concat(xs.take(i), e) + e(xs[i])
{
    assert(xs.take(i + 1).drop_last() =~= xs.take(i));
}
pub proof fn concat_front<X>(xs: Seq<X>, e: spec_fn(X) -> Seq<u8>)
    requires xs.len() > 0
    ensures concat(xs, e) == e(xs[0]) + concat(xs.skip(1), e)
    decreases xs.len()
{
    if xs.len() == 1 {
        assert(xs.drop_last() =~= seq![]);
        assert(concat(xs.drop_last(), e) =~= seq![]);
        assert(xs.skip(1) =~= seq![]);
        assert(concat(xs, e) =~= e(xs[0]) + concat(xs.skip(1), e));
    } else {
        concat_front(xs.drop_last(), e);
        assert(xs.skip(1).drop_last() =~= xs.drop_last().skip(1));
        assert(concat(xs, e) =~= e(xs[0]) + concat(xs.skip(1), e));
    }
}
pub proof fn total_take(ls: Seq<usize>, i: int)
    requires 0 <= i < ls.len()
    ensures total(ls.take(i + 1)) == total(ls.take(i)) + ls[i]
{
    assert(ls.take(i + 1).drop_last() =~= ls.take(i));
}
pub proof fn total_mono(ls: Seq<usize>, i: int)
    requires 0 <= i <= ls.len()
    ensures total(ls.take(i)) <= total(ls)
    decreases ls.len() - i
{
    if i < ls.len() { total_take(ls, i); total_mono(ls, i + 1); } else { assert(ls.take(i) =~= ls); }
}
/// Lengths of the encodings add up.
pub proof fn total_concat<X>(xs: Seq<X>, e: spec_fn(X) -> Seq<u8>, ls: Seq<usize>)
    requires ls.len() == xs.len(), forall|i: int| 0 <= i < xs.len() ==> #[trigger] ls[i] == e(xs[i]).len()
    ensures total(ls) == concat(xs, e).len()
    decreases xs.len()
{
    if xs.len() > 0 {
        assert forall|i: int| 0 <= i < xs.len() - 1 implies #[trigger] ls.drop_last()[i] == e(xs.drop_last()[i]).len() by { assert(ls[i] == e(xs[i]).len()); }
        total_concat(xs.drop_last(), e, ls.drop_last());
    }
}
pub proof fn concat_part<X>(xs: Seq<X>, e: spec_fn(X) -> Seq<u8>, i: int)
    requires 0 <= i < xs.len()
    ensures e(xs[i]).len() <= concat(xs, e).len()
    decreases xs.len()
{
    if i < xs.len() - 1 { concat_part(xs.drop_last(), e, i); }
}

/// `f` appends the encoding of each of the elements.
#[verifier::prophetic]
pub open spec fn writes_all<W: BufMut, X, F: Fn(&mut W, X)>(f: F, xs: Seq<X>, e: spec_fn(X) -> Seq<u8>) -> bool {
    forall|i: int, t: &mut W| 0 <= i < xs.len() && #[trigger] f.ensures((t, xs[i]), ()) ==> (*final(t)).view() == (*t).view() + e(xs[i])
}

#[verifier::prophetic]
pub open spec fn writes<W: BufMut, F: Fn(&mut W)>(f: F, e: Seq<u8>) -> bool {
    forall|t: &mut W| #[trigger] f.ensures((t,), ()) ==> (*final(t)).view() == (*t).view() + e
}
#[verifier::prophetic]
pub open spec fn writes_of<W: BufMut, X, F: Fn(&mut W, X)>(f: F, x: X, e: Seq<u8>) -> bool {
    forall|t: &mut W| #[trigger] f.ensures((t, x), ()) ==> (*final(t)).view() == (*t).view() + e
}
/// `f` may be called for each of the elements.
pub open spec fn accepts_all<W, X, F: Fn(&mut W, X)>(f: F, xs: Seq<X>) -> bool {
    forall|i: int, t: &mut W| 0 <= i < xs.len() ==> #[trigger] f.requires((t, xs[i]))
}
pub open spec fn firsts<K, V>(xs: Seq<(K, V)>) -> Seq<K> { Seq::new(xs.len(), |i: int| xs[i].0) }
pub open spec fn seconds<K, V>(xs: Seq<(K, V)>) -> Seq<V> { Seq::new(xs.len(), |i: int| xs[i].1) }
/// `f` gives the sum of what `sk` and `sv` give.
pub open spec fn adds<K, V, F: Fn((K, V)) -> usize, SK: Fn(K) -> usize, SV: Fn(V) -> usize>(f: F, sk: SK, sv: SV) -> bool {
    forall|x: (K, V), r: usize| #[trigger] f.ensures((x,), r) ==>
        exists|a: usize, b: usize| #[trigger] sk.ensures((x.0,), a) && #[trigger] sv.ensures((x.1,), b) && r == a + b
}
pub open spec fn small_pairs<K, V, SK: Fn(K) -> usize, SV: Fn(V) -> usize>(sk: SK, sv: SV, xs: Seq<(K, V)>) -> bool {
    &&& forall|i: int| 0 <= i < xs.len() ==> sk.requires((#[trigger] xs[i].0,)) && sv.requires((xs[i].1,))
    &&& forall|i: int, a: usize, b: usize| 0 <= i < xs.len() && #[trigger] sk.ensures((xs[i].0,), a) && #[trigger] sv.ensures((xs[i].1,), b) ==> a + b <= usize::MAX
    &&& forall|k: int, la: Seq<usize>, lb: Seq<usize>| 0 <= k <= xs.len() && #[trigger] measured(sk, firsts(xs.take(k)), la)
            && #[trigger] measured(sv, seconds(xs.take(k)), lb) ==> total(la) + total(lb) <= usize::MAX
}
pub proof fn split_lengths<K, V, F: Fn((K, V)) -> usize, SK: Fn(K) -> usize, SV: Fn(V) -> usize>(f: F, sk: SK, sv: SV, xs: Seq<(K, V)>, ls: Seq<usize>) -> (r: (Seq<usize>, Seq<usize>))
    requires adds(f, sk, sv), measured(f, xs, ls)
    ensures measured(sk, firsts(xs), r.0), measured(sv, seconds(xs), r.1), total(ls) == total(r.0) + total(r.1)
    decreases xs.len()
{
    if xs.len() == 0 { (seq![], seq![]) } else {
        let n = xs.len() - 1;
        assert forall|i: int| 0 <= i < n implies f.ensures((#[trigger] xs.drop_last()[i],), ls.drop_last()[i]) by { assert(f.ensures((xs[i],), ls[i])); }
        let (la, lb) = split_lengths(f, sk, sv, xs.drop_last(), ls.drop_last());
        assert(f.ensures((xs[n],), ls[n]));
        let (a, b) = choose|a: usize, b: usize| #[trigger] sk.ensures((xs[n].0,), a) && #[trigger] sv.ensures((xs[n].1,), b) && ls[n] == a + b;
        assert forall|i: int| 0 <= i < xs.len() implies sk.ensures((#[trigger] firsts(xs)[i],), la.push(a)[i]) by {
            if i < n { assert(sk.ensures((firsts(xs.drop_last())[i],), la[i])); }
        }
        assert forall|i: int| 0 <= i < xs.len() implies sv.ensures((#[trigger] seconds(xs)[i],), lb.push(b)[i]) by {
            if i < n { assert(sv.ensures((seconds(xs.drop_last())[i],), lb[i])); }
        }
        assert(la.push(a).drop_last() =~= la);
        assert(lb.push(b).drop_last() =~= lb);
        (la.push(a), lb.push(b))
    }
}
pub proof fn measurable_pairs<K, V, F: Fn((K, V)) -> usize, SK: Fn(K) -> usize, SV: Fn(V) -> usize>(f: F, sk: SK, sv: SV, xs: Seq<(K, V)>)
    requires adds(f, sk, sv), small_pairs(sk, sv, xs), forall|i: int| 0 <= i < xs.len() ==> f.requires((#[trigger] xs[i],))
    ensures measurable(f, xs),
        forall|ls: Seq<usize>| #[trigger] measured(f, xs, ls) ==> exists|la: Seq<usize>, lb: Seq<usize>| #[trigger] measured(sk, firsts(xs), la)
            && #[trigger] measured(sv, seconds(xs), lb) && total(ls) == total(la) + total(lb)
{
    assert forall|k: int, ls: Seq<usize>| 0 <= k <= xs.len() && #[trigger] measured(f, xs.take(k), ls) implies total(ls) <= usize::MAX by {
        let (la, lb) = split_lengths(f, sk, sv, xs.take(k), ls);
    }
    assert forall|ls: Seq<usize>| #[trigger] measured(f, xs, ls) implies exists|la: Seq<usize>, lb: Seq<usize>| #[trigger] measured(sk, firsts(xs), la)
            && #[trigger] measured(sv, seconds(xs), lb) && total(ls) == total(la) + total(lb) by {
        let (la, lb) = split_lengths(f, sk, sv, xs, ls);
    }
}
pub open spec fn pair_encoder<K, V>(ek: spec_fn(K) -> Seq<u8>, ev: spec_fn(V) -> Seq<u8>) -> spec_fn((K, V)) -> Seq<u8> {
    |x: (K, V)| ek(x.0) + ev(x.1)
}

/// The lengths that `f` gives leave room for a length prefix.
pub open spec fn room<X, F: Fn(X) -> usize>(f: F, xs: Seq<X>) -> bool {
    &&& measurable(f, xs)
    &&& forall|ls: Seq<usize>| #[trigger] measured(f, xs, ls) ==> total(ls) + enc_u64(total(ls) as u64).len() <= usize::MAX
}
pub open spec fn room_pairs<K, V, SK: Fn(K) -> usize, SV: Fn(V) -> usize>(sk: SK, sv: SV, xs: Seq<(K, V)>) -> bool {
    forall|la: Seq<usize>, lb: Seq<usize>| #[trigger] measured(sk, firsts(xs), la) && #[trigger] measured(sv, seconds(xs), lb) ==> total(la) + total(lb) + enc_u64((total(la) + total(lb)) as u64).len() <= usize::MAX
}

pub open spec fn refs<'a, T>(xs: Seq<T>) -> Seq<&'a T> { Seq::new(xs.len(), |i: int| &xs[i]) }
pub open spec fn pair_refs<'a, K, V>(xs: Seq<(K, V)>) -> Seq<(&'a K, &'a V)> { Seq::new(xs.len(), |i: int| (&xs[i].0, &xs[i].1)) }

/// Collections whose elements are visited in order.
pub trait Each: Sized {
    type Item;
    spec fn each(self) -> Seq<Self::Item>;
    fn each_len(&self) -> (r: usize) ensures r == self.each().len();
    fn each_at(&self, i: usize) -> (r: Self::Item) requires i < self.each().len() ensures r == self.each()[i as int];
}
impl<'a, T> Each for &'a [T] {
    type Item = &'a T;
    open spec fn each(self) -> Seq<&'a T> { refs(self@) }
    fn each_len(&self) -> usize { self.len() }
    fn each_at(&self, i: usize) -> &'a T { &self[i] }
}
impl<'a, T, const N: usize> Each for &'a [T; N] {
    type Item = &'a T;
    open spec fn each(self) -> Seq<&'a T> { refs(self@) }
    #[verifier::external_body]
    fn each_len(&self) -> usize { N }
    fn each_at(&self, i: usize) -> &'a T { &self[i] }
}
impl<'a, K, V> Each for &'a HashMap<K, V> {
    type Item = (&'a K, &'a V);
    open spec fn each(self) -> Seq<(&'a K, &'a V)> { pair_refs(self.entries()) }
    #[verifier::external_body]
    fn each_len(&self) -> usize { unimplemented!() }
    #[verifier::external_body]
    fn each_at(&self, i: usize) -> (&'a K, &'a V) { unimplemented!() }
}
impl<'a, T> Each for &'a HashSet<T> {
    type Item = &'a T;
    open spec fn each(self) -> Seq<&'a T> { refs(self.entries()) }
    #[verifier::external_body]
    fn each_len(&self) -> usize { unimplemented!() }
    #[verifier::external_body]
    fn each_at(&self, i: usize) -> &'a T { unimplemented!() }
}
/// Stands for `xs.iter().map(f).sum::<usize>()`.
pub fn sum_map__<X: Each, F: Fn(X::Item) -> usize>(xs: X, f: F) -> (r: usize)
    requires measurable(f, xs.each())
    ensures exists|ls: Seq<usize>| #[trigger] measured(f, xs.each(), ls) && total(ls) == r
{
    let n = xs.each_len();
    let mut i = 0;
    let mut sum: usize = 0;
    let ghost mut ls: Seq<usize> = seq![];
    #[verifier::loop_isolation(false)]
    while i < n
        invariant i <= n, ls.len() == i, total(ls) == sum, forall|k: int| 0 <= k < i ==> f.ensures((xs.each()[k],), #[trigger] ls[k])
        decreases n - i
    {
        let x = xs.each_at(i);
        let l = f(x);
        proof { assert(measured(f, xs.each().take(i + 1), ls.push(l))); assert(ls.push(l).drop_last() =~= ls); }
        sum = sum + l;
        proof { ls = ls.push(l); }
        i = i + 1;
    }
    proof { assert(measured(f, xs.each(), ls)); }
    sum
}

// ---------------------------------------------------------------------------------------------------------------

/// Content of a length prefixed block, and the number of bytes with the prefix.
pub open spec fn block(s: Seq<u8>) -> Out<Seq<u8>> {
    match parse_u64(s) {
        Out::Err(k) => Out::Err(k),
        Out::Val(len, n) => if len as int > s.len() - n { Out::Err(Kind::Data) } else { Out::Val(s.subrange(n, n + len as int), n + len as int) },
    }
}

pub broadcast proof fn block_val(s: Seq<u8>)
    ensures #[trigger] block(s) is Val ==> 0 < block(s)->Val_1 <= s.len() && block(s)->Val_0.len() <= s.len()
{
    broadcast use words;
}
pub broadcast proof fn skip_take(s: Seq<u8>, n: int, len: int)
    requires 0 <= n, 0 <= len, n + len <= s.len()
    ensures #[trigger] s.skip(n).take(len) == s.subrange(n, n + len)
{
    assert(s.skip(n).take(len) =~= s.subrange(n, n + len));
}
pub broadcast proof fn skip_skip(s: Seq<u8>, n: int, len: int)
    requires 0 <= n, 0 <= len, n + len <= s.len()
    ensures #[trigger] s.skip(n).skip(len) == s.skip(n + len)
{
    assert(s.skip(n).skip(len) =~= s.skip(n + len));
}
pub broadcast group blocks { block_val, skip_take, skip_skip }

pub open spec fn items<M>(p: spec_fn(Seq<u8>) -> Out<M>, s: Seq<u8>, acc: Seq<M>) -> Out<Seq<M>> decreases s.len() {
    if s.len() == 0 { Out::Val(acc, 0) } else {
        match p(s) {
            Out::Err(k) => Out::Err(k),
            Out::Val(m, n) => if n <= 0 || n > s.len() { Out::Err(Kind::Data) } else { items(p, s.skip(n), acc.push(m)) },
        }
    }
}

pub open spec fn parse_vec<M>(p: spec_fn(Seq<u8>) -> Out<M>, s: Seq<u8>) -> Out<Seq<M>> {
    match block(s) {
        Out::Err(k) => Out::Err(k),
        Out::Val(c, n) => match items(p, c, seq![]) { Out::Err(k) => Out::Err(k), Out::Val(ms, _) => Out::Val(ms, n) },
    }
}

// ---------------------------------------------------------------------------------------------------------------
// Values and their models.

impl Model for bool { type M = bool; open spec fn m(&self) -> bool { *self } }
impl Model for u8 { type M = u8; open spec fn m(&self) -> u8 { *self } }
impl Model for i8 { type M = i8; open spec fn m(&self) -> i8 { *self } }
impl Model for f32 { type M = Seq<u8>; open spec fn m(&self) -> Seq<u8> { f32_bytes(*self) } }
impl Model for f64 { type M = Seq<u8>; open spec fn m(&self) -> Seq<u8> { f64_bytes(*self) } }
impl Model for str { type M = Seq<char>; open spec fn m(&self) -> Seq<char> { self@ } }
impl Model for String { type M = Seq<char>; open spec fn m(&self) -> Seq<char> { self@ } }
impl Model for Bytes { type M = Seq<u8>; open spec fn m(&self) -> Seq<u8> { self.view() } }
impl<T: Model> Model for [T] { type M = Seq<T::M>; open spec fn m(&self) -> Seq<T::M> { models(self@) } }
impl<T: Model> Model for Vec<T> { type M = Seq<T::M>; open spec fn m(&self) -> Seq<T::M> { models(self@) } }
impl<T: Model, const N: usize> Model for [T; N] { type M = Seq<T::M>; open spec fn m(&self) -> Seq<T::M> { models(self@) } }
impl<T: Model> Model for Option<T> {
    type M = Option<T::M>;
    open spec fn m(&self) -> Option<T::M> { match self { Some(x) => Some(x.m()), None => None } }
}
impl<T: Model + ?Sized> Model for Box<T> { type M = T::M; open spec fn m(&self) -> T::M { (**self).m() } }
impl<T: Model> Model for std::rc::Rc<T> { type M = T::M; open spec fn m(&self) -> T::M { (**self).m() } }
impl<T: Model> Model for std::sync::Arc<T> { type M = T::M; open spec fn m(&self) -> T::M { (**self).m() } }
impl<T: Model + ?Sized> Model for &T { type M = T::M; open spec fn m(&self) -> T::M { (**self).m() } }
impl<T: Model> Model for NonZero<T> { type M = T::M; open spec fn m(&self) -> T::M { self.0.m() } }
impl<T: Model> Model for Cow<'_, T> { type M = T::M; open spec fn m(&self) -> T::M { self.the().m() } }
impl Model for () { type M = (); open spec fn m(&self) -> () { () } }

pub broadcast proof fn models_u8(xs: Seq<u8>)
    ensures #[trigger] models(xs) == xs
    decreases xs.len()
{
    if xs.len() > 0 {
        models_u8(xs.drop_last());
        assert(models(xs) =~= xs);
    } else {
        assert(models(xs) =~= xs);
    }
}

impl Bytes {
    #[verifier::external_body]
    pub fn to_vec(&self) -> (r: Vec<u8>) ensures r@ == self.view() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self.view().len() == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self.view().len() { unimplemented!() }
}
impl std::ops::Deref for Bytes {
    type Target = [u8];
    #[verifier::external_body]
    fn deref(&self) -> (r: &[u8]) ensures r@ == self.view() { unimplemented!() }
}

/// `std::borrow::Cow` of types that are their own owned form.
pub enum Cow<'a, T> { Borrowed(&'a T), Owned(T) }
impl<'a, T> Cow<'a, T> {
    pub open spec fn the(&self) -> T { match self { Cow::Borrowed(x) => **x, Cow::Owned(x) => *x } }
}
impl<'a, T> std::ops::Deref for Cow<'a, T> {
    type Target = T;
    fn deref(&self) -> (r: &T) ensures *r == self.the() { match self { Cow::Borrowed(x) => *x, Cow::Owned(x) => x } }
}
pub fn cow_owned__<'a, T>(x: T) -> (r: Cow<'a, T>) ensures r == Cow::<'a, T>::Owned(x) { Cow::Owned(x) }

/// Model of `std::collections::HashMap`: a finite map of the models, and its entries in iteration order.
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct HashMap<K, V> { _p: core::marker::PhantomData<(K, V)> }
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct HashSet<T> { _p: core::marker::PhantomData<T> }

pub open spec fn to_map<K, V>(es: Seq<(K, V)>, acc: Map<K, V>) -> Map<K, V> decreases es.len() {
    if es.len() == 0 { acc } else { to_map(es.skip(1), acc.insert(es[0].0, es[0].1)) }
}
pub open spec fn to_set<T>(es: Seq<T>, acc: Set<T>) -> Set<T> decreases es.len() {
    if es.len() == 0 { acc } else { to_set(es.skip(1), acc.insert(es[0])) }
}
pub open spec fn pair_models<K: Model, V: Model>(es: Seq<(K, V)>) -> Seq<(K::M, V::M)> {
    Seq::new(es.len(), |i: int| (es[i].0.m(), es[i].1.m()))
}

impl<K, V> HashMap<K, V> { pub uninterp spec fn entries(&self) -> Seq<(K, V)>; }
impl<T> HashSet<T> { pub uninterp spec fn entries(&self) -> Seq<T>; }
impl<K: Model, V: Model> HashMap<K, V> { pub uninterp spec fn model(&self) -> Map<K::M, V::M>; }
impl<T: Model> HashSet<T> { pub uninterp spec fn model(&self) -> Set<T::M>; }
impl<K: Model, V: Model> Model for HashMap<K, V> {
    type M = Map<K::M, V::M>;
    open spec fn m(&self) -> Map<K::M, V::M> { self.model() }
}
impl<T: Model> Model for HashSet<T> {
    type M = Set<T::M>;
    open spec fn m(&self) -> Set<T::M> { self.model() }
}
/// Iterating visits the elements of the collection.
#[verifier::external_body]
pub proof fn map_entries<K: Model, V: Model>(x: HashMap<K, V>)
    ensures x.m() == to_map(pair_models(x.entries()), Map::empty())
{ unimplemented!() }
#[verifier::external_body]
pub proof fn set_entries<T: Model>(x: HashSet<T>)
    ensures x.m() == to_set(models(x.entries()), Set::empty())
{ unimplemented!() }
impl<K: Model, V: Model> HashMap<K, V> {
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r.m() == Map::<K::M, V::M>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> Option<V> ensures final(self).m() == old(self).m().insert(k.m(), v.m()), !vacant(final(self).m()) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == vacant(self.m()) { unimplemented!() }
}
impl<T: Model> HashSet<T> {
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r.m() == Set::<T::M>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, x: T) -> bool ensures final(self).m() == old(self).m().insert(x.m()), !vacant_set(final(self).m()) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == vacant_set(self.m()) { unimplemented!() }
}

#[verifier::opaque]
pub open spec fn vacant<K, V>(m: Map<K, V>) -> bool { m == Map::<K, V>::empty() }
#[verifier::opaque]
pub open spec fn vacant_set<T>(m: Set<T>) -> bool { m == Set::<T>::empty() }

/// The text of no bytes, and only that, is empty.
pub broadcast proof fn utf8_nonempty(s: Seq<u8>)
    requires valid_utf8(s)
    ensures (#[trigger] decode_utf8(s)).len() == 0 <==> s.len() == 0
{
    reveal_with_fuel(decode_utf8, 2);
}

// Helpers that stand for std calls without a specification.

pub assume_specification<T, E, U, F: FnOnce(T) -> core::result::Result<U, E>>[core::result::Result::<T, E>::and_then](
    r: core::result::Result<T, E>, f: F) -> (res: core::result::Result<U, E>)
    requires r is Ok ==> f.requires((r->Ok_0,)),
    ensures match r { Ok(x) => f.ensures((x,), res), Err(e) => res == Err::<U, E>(e) };
pub assume_specification<T, U, F: FnOnce(T) -> U>[Option::<T>::map_or](r: Option<T>, d: U, f: F) -> (res: U)
    requires r is Some ==> f.requires((r->0,)),
    ensures match r { Some(x) => f.ensures((x,), res), None => res == d };
pub assume_specification<T>[bool::then_some](b: bool, x: T) -> (res: Option<T>)
    ensures res == (if b { Some(x) } else { None });
pub assume_specification[<u8 as core::convert::From<bool>>::from](b: bool) -> (r: u8) ensures r == (if b { 1u8 } else { 0u8 });
pub assume_specification[String::from_utf8](v: Vec<u8>) -> (r: core::result::Result<String, FromUtf8Error>)
    ensures match r { Ok(s) => valid_utf8(v@) && s@ == decode_utf8(v@), Err(_) => !valid_utf8(v@) };

pub fn some__<T>(x: T) -> (r: Option<T>) ensures r == Some(x) { Some(x) }
pub fn utf8_error__(e: FromUtf8Error) -> (r: Error) ensures r == Error::NonUtf8(e) { Error::from(e) }
#[verifier::external_body]
pub fn into_boxed_str__(s: String) -> (r: Box<str>) ensures r@ == s@ { s.into_boxed_str() }
#[verifier::external_body]
pub fn into_boxed_slice__<T>(s: Vec<T>) -> (r: Box<[T]>) ensures r@ == s@ { s.into_boxed_slice() }
#[verifier::external_body]
pub fn into_array__<T, const N: usize>(s: Vec<T>) -> (r: [T; N]) requires s@.len() == N ensures r@ == s@ { unimplemented!() }

// ---------------------------------------------------------------------------------------------------------------
// The wire format of the other types.

pub open spec fn parse_bool(s: Seq<u8>) -> Out<bool> { if s.len() < 1 { Out::Err(Kind::Data) } else { Out::Val(s[0] != 0, 1) } }
pub open spec fn parse_u8(s: Seq<u8>) -> Out<u8> { if s.len() < 1 { Out::Err(Kind::Data) } else { Out::Val(s[0], 1) } }
pub open spec fn parse_i8(s: Seq<u8>) -> Out<i8> { if s.len() < 1 { Out::Err(Kind::Data) } else { Out::Val(s[0] as i8, 1) } }
pub open spec fn parse_f32(s: Seq<u8>) -> Out<Seq<u8>> { if s.len() < 4 { Out::Err(Kind::Data) } else { Out::Val(s.take(4), 4) } }
pub open spec fn parse_f64(s: Seq<u8>) -> Out<Seq<u8>> { if s.len() < 8 { Out::Err(Kind::Data) } else { Out::Val(s.take(8), 8) } }

pub open spec fn parse_string(s: Seq<u8>) -> Out<Seq<char>> {
    match block(s) {
        Out::Err(k) => Out::Err(k),
        Out::Val(c, n) => if valid_utf8(c) { Out::Val(decode_utf8(c), n) } else { Out::Err(Kind::Utf8) },
    }
}

/// One after the other.
pub open spec fn parse_pair<K, V>(p: spec_fn(Seq<u8>) -> Out<K>, q: spec_fn(Seq<u8>) -> Out<V>, s: Seq<u8>) -> Out<(K, V)> {
    match p(s) {
        Out::Err(k) => Out::Err(k),
        Out::Val(k, n) => match q(s.skip(n)) { Out::Err(k) => Out::Err(k), Out::Val(v, l) => Out::Val((k, v), n + l) },
    }
}
pub open spec fn map_items<K, V>(p: spec_fn(Seq<u8>) -> Out<K>, q: spec_fn(Seq<u8>) -> Out<V>, s: Seq<u8>, acc: Map<K, V>) -> Out<Map<K, V>>
    decreases s.len()
{
    if s.len() == 0 { Out::Val(acc, 0) } else {
        match parse_pair(p, q, s) {
            Out::Err(k) => Out::Err(k),
            Out::Val(kv, n) => if n <= 0 || n > s.len() { Out::Err(Kind::Data) } else { map_items(p, q, s.skip(n), acc.insert(kv.0, kv.1)) },
        }
    }
}
pub open spec fn parse_map<K, V>(p: spec_fn(Seq<u8>) -> Out<K>, q: spec_fn(Seq<u8>) -> Out<V>, s: Seq<u8>) -> Out<Map<K, V>> {
    match block(s) {
        Out::Err(k) => Out::Err(k),
        Out::Val(c, n) => match map_items(p, q, c, Map::empty()) { Out::Err(k) => Out::Err(k), Out::Val(m, _) => Out::Val(m, n) },
    }
}
pub open spec fn set_items<T>(p: spec_fn(Seq<u8>) -> Out<T>, s: Seq<u8>, acc: Set<T>) -> Out<Set<T>> decreases s.len() {
    if s.len() == 0 { Out::Val(acc, 0) } else {
        match p(s) {
            Out::Err(k) => Out::Err(k),
            Out::Val(x, n) => if n <= 0 || n > s.len() { Out::Err(Kind::Data) } else { set_items(p, s.skip(n), acc.insert(x)) },
        }
    }
}
pub open spec fn parse_set<T>(p: spec_fn(Seq<u8>) -> Out<T>, s: Seq<u8>) -> Out<Set<T>> {
    match block(s) {
        Out::Err(k) => Out::Err(k),
        Out::Val(c, n) => match set_items(p, c, Set::empty()) { Out::Err(k) => Out::Err(k), Out::Val(m, _) => Out::Val(m, n) },
    }
}
pub open spec fn parse_option<M>(p: spec_fn(Seq<u8>) -> Out<M>, s: Seq<u8>) -> Out<Option<M>> {
    if s.len() < 1 { Out::Err(Kind::Data) } else if s[0] == 1 {
        match p(s.skip(1)) { Out::Err(k) => Out::Err(k), Out::Val(m, n) => Out::Val(Some(m), n + 1) }
    } else { Out::Val(None, 1) }
}
/// The first elements of `s`, until there are `n`; whatever follows is ignored.
pub open spec fn first_items<M>(p: spec_fn(Seq<u8>) -> Out<M>, s: Seq<u8>, n: nat, acc: Seq<M>) -> Out<Seq<M>> decreases n - acc.len() {
    if acc.len() >= n { Out::Val(acc, 0) } else {
        match p(s) {
            Out::Err(k) => Out::Err(k),
            Out::Val(m, l) => if l < 0 || l > s.len() { Out::Err(Kind::Data) } else { first_items(p, s.skip(l), n, acc.push(m)) },
        }
    }
}
pub open spec fn parse_array<M>(p: spec_fn(Seq<u8>) -> Out<M>, n: nat, s: Seq<u8>) -> Out<Seq<M>> {
    match block(s) {
        Out::Err(k) => Out::Err(k),
        Out::Val(c, l) => match first_items(p, c, n, seq![]) { Out::Err(k) => Out::Err(k), Out::Val(ms, _) => Out::Val(ms, l) },
    }
}
/// A non-zero container is refused if its length is zero, otherwise it is the plain container.
pub open spec fn non_zero<M>(s: Seq<u8>, plain: Out<M>) -> Out<M> {
    match parse_u64(s) {
        Out::Val(len, _) => if len == 0 { Out::Err(Kind::Zero) } else { plain },
        Out::Err(k) => Out::Err(k),
    }
}

pub open spec fn encoding_of(v: u32) -> Option<FieldEncoding> {
    if v % 8 == 0 { Some(FieldEncoding::Varint) } else if v % 8 == 1 { Some(FieldEncoding::LengthPrefixed) }
    else if v % 8 == 2 { Some(FieldEncoding::Fixed1) } else if v % 8 == 3 { Some(FieldEncoding::Fixed4) }
    else if v % 8 == 4 { Some(FieldEncoding::Fixed8) } else { None }
}
pub open spec fn marker(e: FieldEncoding) -> u32 {
    match e { FieldEncoding::Varint => 0, FieldEncoding::LengthPrefixed => 1, FieldEncoding::Fixed1 => 2, FieldEncoding::Fixed4 => 3, FieldEncoding::Fixed8 => 4 }
}
pub open spec fn field_of(v: u32) -> Option<FieldId> {
    match encoding_of(v) { Some(e) => Some(FieldId { value: v / 8, encoding: e }), None => None }
}
impl Model for FieldId { type M = FieldId; open spec fn m(&self) -> FieldId { *self } }
impl Model for VariantId { type M = VariantId; open spec fn m(&self) -> VariantId { *self } }
pub open spec fn parse_id(s: Seq<u8>) -> Out<FieldId> {
    match parse_u32(s) {
        Out::Err(k) => Out::Err(k),
        Out::Val(v, n) => match field_of(v) { Some(f) => Out::Val(f, n), None => Out::Err(Kind::Encoding(v)) },
    }
}
pub open spec fn parse_variant_id(s: Seq<u8>) -> Out<VariantId> {
    match parse_u32(s) { Out::Err(k) => Out::Err(k), Out::Val(v, n) => Out::Val(VariantId { value: v }, n) }
}
/// What a field takes on the wire, going by its marker.
pub open spec fn parse_skip(e: FieldEncoding, s: Seq<u8>) -> Out<()> {
    match e {
        FieldEncoding::Varint => if word(s, s.len()) == 0 { Out::Err(Kind::Data) } else { Out::Val((), word(s, s.len()) as int) },
        FieldEncoding::LengthPrefixed => match block(s) { Out::Err(k) => Out::Err(k), Out::Val(_, n) => Out::Val((), n) },
        FieldEncoding::Fixed1 => if s.len() < 1 { Out::Err(Kind::Data) } else { Out::Val((), 1) },
        FieldEncoding::Fixed4 => if s.len() < 4 { Out::Err(Kind::Data) } else { Out::Val((), 4) },
        FieldEncoding::Fixed8 => if s.len() < 8 { Out::Err(Kind::Data) } else { Out::Val((), 8) },
    }
}

// ---------------------------------------------------------------------------------------------------------------
// Encodings.

pub open spec fn enc_bool(v: bool) -> Seq<u8> { seq![if v { 1u8 } else { 0u8 }] }
pub open spec fn enc_u8(v: u8) -> Seq<u8> { seq![v] }
pub open spec fn enc_i8(v: i8) -> Seq<u8> { seq![v as u8] }
pub open spec fn enc_f32(v: f32) -> Seq<u8> { f32_bytes(v) }
pub open spec fn enc_f64(v: f64) -> Seq<u8> { f64_bytes(v) }
/// Content with its length in front.
pub open spec fn enc_bytes(s: Seq<u8>) -> Seq<u8> { enc_u64(s.len() as u64) + s }
pub open spec fn enc_id(id: FieldId) -> Seq<u8> { enc_u32((id.value * 8 + marker(id.encoding)) as u32) }
pub proof fn groups_same(a: nat, b: nat)
    requires a / 128 == b / 128, a < 128 <==> b < 128
    ensures groups(a).len() == groups(b).len()
{}
pub proof fn low_bits(id: nat, m: nat)
    requires m < 8
    ensures (id * 8 + m) / 128 == (id * 8) / 128, id * 8 + m < 128 <==> id * 8 < 128
{}
/// The marker does not change the length of a header.
pub proof fn header_len(id: u32)
    requires id < 0x2000_0000
    ensures forall|e: FieldEncoding| (#[trigger] enc_id(FieldId { value: id, encoding: e })).len() == enc_u32(id << 3).len(), enc_u32(id << 3).len() <= 5
{
    assert(id << 3 == id * 8) by (bit_vector) requires id < 0x2000_0000;
    enc_len_u32(id << 3);
    assert forall|e: FieldEncoding| (#[trigger] enc_id(FieldId { value: id, encoding: e })).len() == enc_u32(id << 3).len() by {
        low_bits(id as nat, marker(e) as nat);
        groups_same((id * 8 + marker(e)) as nat, (id * 8) as nat);
    }
}
