// Theory of messages: what generated code writes and reads, independent of how it does it.

/// `o`, with `n` bytes in front of it.
pub open spec fn later<S>(n: int, o: Out<S>) -> Out<S> {
    match o { Out::Val(x, m) => Out::Val(x, n + m), Out::Err(k) => Out::Err(k) }
}
/// Fields up to the end marker. `step` says what a field does to the state.
pub open spec fn message<S>(step: spec_fn(FieldId, Seq<u8>, S) -> Out<S>, s: Seq<u8>, st: S) -> Out<S> decreases s.len() {
    match parse_id(s) {
        Out::Err(k) => Out::Err(k),
        Out::Val(id, n) => if id.value == 0 { Out::Val(st, n) } else {
            match step(id, s.skip(n), st) {
                Out::Err(k) => Out::Err(k),
                Out::Val(next, l) => if n <= 0 || l < 0 || n + l > s.len() { Out::Err(Kind::Data) } else { later(n + l, message(step, s.skip(n + l), next)) },
            }
        },
    }
}
/// One turn of a reading loop: `s` is left of `from`, in the state `st`.
pub proof fn turn<S>(step: spec_fn(FieldId, Seq<u8>, S) -> Out<S>, from: Seq<u8>, init: S, k: int, s: Seq<u8>, st: S)
    requires message(step, from, init) == later(k, message(step, s, st))
    ensures match parse_id(s) {
        Out::Err(e) => message(step, from, init) == Out::<S>::Err(e),
        Out::Val(id, n) => 1 <= n <= s.len() && (if id.value == 0 { message(step, from, init) == Out::Val(st, k + n) } else {
            match step(id, s.skip(n), st) {
                Out::Err(e) => message(step, from, init) == Out::<S>::Err(e),
                Out::Val(next, l) => 0 <= l <= s.len() - n ==> message(step, from, init) == later(k + n + l, message(step, s.skip(n).skip(l), next)),
            }
        }),
    }
{
    broadcast use {words, skip_skip};
}
/// The bytes `p` are whole fields that lead from one state to another, whatever follows.
pub open spec fn runs<S>(step: spec_fn(FieldId, Seq<u8>, S) -> Out<S>, p: Seq<u8>, a: S, b: S) -> bool {
    forall|t: Seq<u8>| #[trigger] message(step, p + t, a) == later(p.len() as int, message(step, t, b))
}
pub proof fn runs_none<S>(step: spec_fn(FieldId, Seq<u8>, S) -> Out<S>, a: S)
    ensures runs(step, seq![], a, a)
{
    assert forall|t: Seq<u8>| #[trigger] message(step, seq![] + t, a) == later(0, message(step, t, a)) by { assert(seq![] + t =~= t); }
}
pub proof fn runs_then<S>(step: spec_fn(FieldId, Seq<u8>, S) -> Out<S>, p: Seq<u8>, q: Seq<u8>, a: S, b: S, c: S)
    requires runs(step, p, a, b), runs(step, q, b, c)
    ensures runs(step, p + q, a, c)
{
    assert forall|t: Seq<u8>| #[trigger] message(step, (p + q) + t, a) == later((p + q).len() as int, message(step, t, c)) by {
        assert((p + q) + t =~= p + (q + t));
        assert(message(step, p + (q + t), a) == later(p.len() as int, message(step, q + t, b)));
        assert(message(step, q + t, b) == later(q.len() as int, message(step, t, c)));
    }
}
/// A field is its header and what `step` reads.
pub proof fn runs_field<S>(step: spec_fn(FieldId, Seq<u8>, S) -> Out<S>, id: FieldId, e: Seq<u8>, a: S, b: S)
    requires 0 < id.value < 0x2000_0000, forall|t: Seq<u8>| #[trigger] step(id, e + t, a) == Out::<S>::Val(b, e.len() as int)
    ensures runs(step, enc_id(id) + e, a, b)
{
    let h = enc_id(id);
    assert forall|t: Seq<u8>| #[trigger] message(step, (h + e) + t, a) == later((h + e).len() as int, message(step, t, b)) by {
        header_rt(id, e + t);
        let s = (h + e) + t;
        assert(s =~= h + (e + t));
        assert(s.skip(h.len() as int) =~= e + t);
        assert(s.skip((h.len() + e.len()) as int) =~= t);
        assert(step(id, e + t, a) == Out::<S>::Val(b, e.len() as int));
        broadcast use words;
    }
}
pub proof fn runs_end<S>(step: spec_fn(FieldId, Seq<u8>, S) -> Out<S>, a: S, t: Seq<u8>)
    ensures message(step, enc_u32(0) + t, a) == Out::Val(a, 1), enc_u32(0).len() == 1
{
    let z = FieldId { value: 0, encoding: FieldEncoding::Varint };
    header_rt(z, t);
    assert(enc_id(z) == enc_u32(0));
    assert(enc_u32(0) =~= seq![0u8]);
}
/// P14: any sequence of fields, known or not, in any order: each does what it does on its own.
pub open spec fn all_parts(ps: Seq<Seq<u8>>) -> Seq<u8> decreases ps.len() {
    if ps.len() == 0 { seq![] } else { all_parts(ps.drop_last()) + ps.last() }
}
pub open spec fn all_updates<S>(fs: Seq<spec_fn(S) -> S>, a: S) -> S decreases fs.len() {
    if fs.len() == 0 { a } else { fs.last()(all_updates(fs.drop_last(), a)) }
}
pub proof fn any_order<S>(step: spec_fn(FieldId, Seq<u8>, S) -> Out<S>, ps: Seq<Seq<u8>>, fs: Seq<spec_fn(S) -> S>, a: S)
    requires ps.len() == fs.len(), forall|i: int, x: S| 0 <= i < ps.len() ==> runs(step, #[trigger] ps[i], x, #[trigger] fs[i](x))
    ensures runs(step, all_parts(ps), a, all_updates(fs, a))
    decreases ps.len()
{
    if ps.len() == 0 { runs_none(step, a); } else {
        let n = ps.len() - 1;
        let ps1 = ps.drop_last();
        let fs1 = fs.drop_last();
        assert forall|i: int, x: S| 0 <= i < ps1.len() implies runs(step, #[trigger] ps1[i], x, #[trigger] fs1[i](x)) by { assert(ps[i] == ps1[i]); assert(fs[i] == fs1[i]); assert(runs(step, ps[i], x, fs[i](x))); }
        any_order(step, ps1, fs1, a);
        let mid = all_updates(fs1, a);
        assert(runs(step, ps[n], mid, fs[n](mid)));
        runs_then(step, all_parts(ps1), ps[n], a, mid, fs[n](mid));
    }
}
/// P14: a field of an unknown number is passed over if its value ends where its marker says.
pub proof fn runs_unknown<S>(step: spec_fn(FieldId, Seq<u8>, S) -> Out<S>, id: FieldId, e: Seq<u8>, a: S)
    requires 0 < id.value < 0x2000_0000, forall|s: Seq<u8>| #[trigger] step(id, s, a) == passed(parse_skip(id.encoding, s), a), skippable(id.encoding, e)
    ensures runs(step, enc_id(id) + e, a, a)
{
    assert forall|t: Seq<u8>| #[trigger] step(id, e + t, a) == Out::<S>::Val(a, e.len() as int) by { assert(parse_skip(id.encoding, e + t) == Out::Val((), e.len() as int)); }
    runs_field(step, id, e, a, a);
}
pub open spec fn passed<S>(o: Out<()>, a: S) -> Out<S> { match o { Out::Val(_, n) => Out::Val(a, n), Out::Err(k) => Out::Err(k) } }
pub open spec fn skippable(m: FieldEncoding, e: Seq<u8>) -> bool {
    forall|t: Seq<u8>| #[trigger] parse_skip(m, e + t) == Out::Val((), e.len() as int)
}

/// Two looks at data that agree on what is consumed.
pub open spec fn same_part(s: Seq<u8>, t: Seq<u8>, n: int) -> bool { 0 <= n <= s.len() && n <= t.len() && t.take(n) == s.take(n) }
pub proof fn same_part_skip(s: Seq<u8>, t: Seq<u8>, n: int, m: int)
    requires same_part(s, t, m), 0 <= n <= m
    ensures same_part(s, t, n), same_part(s.skip(n), t.skip(n), m - n)
{
    assert(t.take(m).take(n) =~= t.take(n));
    assert(s.take(m).take(n) =~= s.take(n));
    assert(t.take(m).skip(n) =~= t.skip(n).take(m - n));
    assert(s.take(m).skip(n) =~= s.skip(n).take(m - n));
}
pub open spec fn local_step<S>(step: spec_fn(FieldId, Seq<u8>, S) -> Out<S>) -> bool {
    &&& forall|id: FieldId, s: Seq<u8>, a: S| (#[trigger] step(id, s, a)) is Val ==> 0 <= step(id, s, a)->Val_1 <= s.len()
    &&& forall|id: FieldId, s: Seq<u8>, t: Seq<u8>, a: S| step(id, s, a) is Val && #[trigger] same_part(s, t, step(id, s, a)->Val_1) ==> step(id, t, a) == step(id, s, a)
}
pub proof fn message_local<S>(step: spec_fn(FieldId, Seq<u8>, S) -> Out<S>, s: Seq<u8>, t: Seq<u8>, a: S)
    requires local_step(step), message(step, s, a) is Val, same_part(s, t, message(step, s, a)->Val_1)
    ensures message(step, t, a) == message(step, s, a)
    decreases s.len()
{
    message_bounds(step, s, a);
    let m = message(step, s, a)->Val_1;
    let id = parse_id(s)->Val_0;
    let n = parse_id(s)->Val_1;
    broadcast use words;
    if id.value == 0 {
        same_part_skip(s, t, n, m);
        local_u32(s, t);
    } else {
        let l = step(id, s.skip(n), a)->Val_1;
        let b = step(id, s.skip(n), a)->Val_0;
        message_bounds(step, s.skip(n + l), b);
        same_part_skip(s, t, n, m);
        local_u32(s, t);
        same_part_skip(s.skip(n), t.skip(n), l, m - n);
        assert(step(id, t.skip(n), a) == step(id, s.skip(n), a));
        assert(s.skip(n).skip(l) =~= s.skip(n + l));
        assert(t.skip(n).skip(l) =~= t.skip(n + l));
        message_local(step, s.skip(n + l), t.skip(n + l), b);
    }
}
pub proof fn message_bounds<S>(step: spec_fn(FieldId, Seq<u8>, S) -> Out<S>, s: Seq<u8>, a: S)
    requires local_step(step), message(step, s, a) is Val
    ensures 1 <= message(step, s, a)->Val_1 <= s.len()
    decreases s.len()
{
    broadcast use words;
    let id = parse_id(s)->Val_0;
    let n = parse_id(s)->Val_1;
    if id.value != 0 {
        let l = step(id, s.skip(n), a)->Val_1;
        message_bounds(step, s.skip(n + l), step(id, s.skip(n), a)->Val_0);
    }
}
pub proof fn skip_local(m: FieldEncoding, s: Seq<u8>, t: Seq<u8>)
    requires parse_skip(m, s) is Val, same_part(s, t, parse_skip(m, s)->Val_1)
    ensures parse_skip(m, t) == parse_skip(m, s)
{
    match m {
        FieldEncoding::Varint => {
            let w = word(s, s.len());
            word_means(s, s.len());
            assert forall|i: int| 0 <= i < w implies s[i] == t[i] by { assert(s.take(w as int)[i] == t.take(w as int)[i]); }
            assert(word_is(t, t.len(), w));
            word_unique(t, t.len(), w);
        },
        FieldEncoding::LengthPrefixed => { block_local(s, t); },
        _ => {},
    }
}
pub broadcast proof fn skip_bounds(m: FieldEncoding, s: Seq<u8>)
    ensures (#[trigger] parse_skip(m, s)) is Val ==> 0 <= parse_skip(m, s)->Val_1 <= s.len()
{
    broadcast use {words, blocks};
}
pub proof fn skip_varint_of(n: nat) ensures skippable(FieldEncoding::Varint, groups(n)) {
    assert forall|t: Seq<u8>| #[trigger] parse_skip(FieldEncoding::Varint, groups(n) + t) == Out::Val((), groups(n).len() as int) by { skip_varint(n, t); }
}
pub proof fn skip_block_of(c: Seq<u8>)
    requires enc_bytes(c).len() <= usize::MAX
    ensures skippable(FieldEncoding::LengthPrefixed, enc_bytes(c))
{
    assert forall|t: Seq<u8>| #[trigger] parse_skip(FieldEncoding::LengthPrefixed, enc_bytes(c) + t) == Out::Val((), enc_bytes(c).len() as int) by { skip_block(c, t); }
}

// ---------------------------------------------------------------------------------------------------------------
// Parts of a message.

pub open spec fn header(n: u32, m: FieldEncoding) -> FieldId { FieldId { value: n, encoding: m } }
pub open spec fn part<T: Size>(n: u32, m: FieldEncoding, x: T) -> Seq<u8> { enc_id(header(n, m)) + x.enc() }
pub open spec fn part_opt<T: Size>(n: u32, m: FieldEncoding, x: Option<T>) -> Seq<u8> { match x { Some(v) => part(n, m, v), None => seq![] } }
pub open spec fn part_long<T: Size>(n: u32, m: FieldEncoding, x: T) -> Seq<u8> { enc_id(header(n, m)) + enc_bytes(x.enc()) }
pub open spec fn part_long_opt<T: Size>(n: u32, m: FieldEncoding, x: Option<T>) -> Seq<u8> { match x { Some(v) => part_long(n, m, v), None => seq![] } }

/// A value with its length in front, which is not looked at.
pub open spec fn parse_long<T: Decode>(s: Seq<u8>) -> Out<T::M> {
    match parse_u64(s) { Out::Err(k) => Out::Err(k), Out::Val(_, n) => later(n, T::parse(s.skip(n))) }
}
pub proof fn long_rt<T: Round>(x: T, t: Seq<u8>)
    requires enc_bytes(x.enc()).len() <= usize::MAX
    ensures parse_long::<T>(enc_bytes(x.enc()) + t) == Out::Val(x.m(), enc_bytes(x.enc()).len() as int)
{
    let l = enc_u64(x.enc().len() as u64);
    let s = enc_bytes(x.enc()) + t;
    assert(s =~= l + (x.enc() + t));
    rt_u64(x.enc().len() as u64, x.enc() + t);
    assert(s.skip(l.len() as int) =~= x.enc() + t);
    x.rt(t);
}
pub proof fn long_local<T: Local>(s: Seq<u8>, t: Seq<u8>)
    requires parse_long::<T>(s) is Val, same_part(s, t, parse_long::<T>(s)->Val_1)
    ensures parse_long::<T>(t) == parse_long::<T>(s)
{
    broadcast use words;
    let n = parse_u64(s)->Val_1;
    let m = parse_long::<T>(s)->Val_1;
    T::bounds(s.skip(n));
    same_part_skip(s, t, n, m);
    local_u64(s, t);
    T::local(s.skip(n), t.skip(n));
}
pub proof fn long_bounds<T: Local>(s: Seq<u8>)
    requires parse_long::<T>(s) is Val
    ensures 1 <= parse_long::<T>(s)->Val_1 <= s.len()
{
    broadcast use words;
    let n = parse_u64(s)->Val_1;
    T::bounds(s.skip(n));
}
/// What reading a part does to the state.
pub proof fn runs_part<S, T: Round>(step: spec_fn(FieldId, Seq<u8>, S) -> Out<S>, id: FieldId, x: T, a: S, b: S)
    requires 0 < id.value < 0x2000_0000, x.enc().len() <= usize::MAX,
        forall|s: Seq<u8>| T::parse(s) is Val && T::parse(s)->Val_0 == x.m() ==> #[trigger] step(id, s, a) == Out::<S>::Val(b, T::parse(s)->Val_1)
    ensures runs(step, part(id.value, id.encoding, x), a, b)
{
    assert forall|t: Seq<u8>| #[trigger] step(id, x.enc() + t, a) == Out::<S>::Val(b, x.enc().len() as int) by { x.rt(t); }
    runs_field(step, id, x.enc(), a, b);
}
pub proof fn runs_part_long<S, T: Round>(step: spec_fn(FieldId, Seq<u8>, S) -> Out<S>, id: FieldId, x: T, a: S, b: S)
    requires 0 < id.value < 0x2000_0000, enc_bytes(x.enc()).len() <= usize::MAX,
        forall|s: Seq<u8>| parse_long::<T>(s) is Val && parse_long::<T>(s)->Val_0 == x.m() ==> #[trigger] step(id, s, a) == Out::<S>::Val(b, parse_long::<T>(s)->Val_1)
    ensures runs(step, part_long(id.value, id.encoding, x), a, b)
{
    let e = enc_bytes(x.enc());
    assert forall|t: Seq<u8>| #[trigger] step(id, e + t, a) == Out::<S>::Val(b, e.len() as int) by { long_rt(x, t); }
    runs_field(step, id, e, a, b);
}

// ---------------------------------------------------------------------------------------------------------------
// Wire form of the types that have no codec trait of their own: elements of containers are written by the generated code.
// The executable functions are never called, they only make the traits whole.

/// One after the other.
pub open spec fn join<A, B>(o: Out<A>, s: Seq<u8>, p: spec_fn(Seq<u8>) -> Out<B>) -> Out<(A, B)> {
    match o { Out::Err(k) => Out::Err(k), Out::Val(a, n) => match p(s.skip(n)) { Out::Err(k) => Out::Err(k), Out::Val(b, l) => Out::Val((a, b), n + l) } }
}

/// Sums associate, so that what is written piece by piece is compared in one order.
pub broadcast proof fn add_assoc(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>)
    ensures #[trigger] (a + (b + c)) == (a + b) + c
{
    assert(a + (b + c) =~= (a + b) + c);
}
pub broadcast proof fn add_none(a: Seq<u8>)
    ensures #[trigger] (a + Seq::<u8>::empty()) == a
{
    assert(a + Seq::<u8>::empty() =~= a);
}
pub broadcast proof fn later_later<S>(a: int, b: int, o: Out<S>)
    ensures #[trigger] later(a, later(b, o)) == later(a + b, o)
{}
/// An element of a tuple is read from where it stands.
pub proof fn element<T: Round>(x: T, s: Seq<u8>, p: int, rest: Seq<u8>)
    requires 0 <= p <= s.len(), s.skip(p) == x.enc() + rest, s.len() <= usize::MAX || x.enc().len() <= usize::MAX
    ensures T::parse(s.skip(p)) == Out::Val(x.m(), x.enc().len() as int), s.skip(p + x.enc().len()) == rest, p + x.enc().len() <= s.len()
{
    assert(s.skip(p).len() == x.enc().len() + rest.len());
    x.rt(rest);
    assert(s.skip(p + x.enc().len()) =~= s.skip(p).skip(x.enc().len() as int));
    assert((x.enc() + rest).skip(x.enc().len() as int) =~= rest);
}
/// Bytes are a sequence of one byte elements.
pub broadcast proof fn bytes_concat(xs: Seq<u8>)
    ensures #[trigger] concat(refs(xs), enc_ref::<u8>()) == xs
    decreases xs.len()
{
    let e = enc_ref::<u8>();
    if xs.len() == 0 { assert(concat(refs(xs), e) =~= xs); } else {
        bytes_concat(xs.drop_last());
        assert(refs(xs).drop_last() =~= refs(xs.drop_last()));
        assert(*refs(xs).last() == xs.last());
        assert(e(refs(xs).last()) == seq![xs.last()]);
        assert(concat(refs(xs), e) =~= xs);
    }
}
pub proof fn end_len()
    ensures enc_u32(0).len() == 1
{
    assert(enc_u32(0) =~= seq![0u8]);
}
pub proof fn bytes_items(s: Seq<u8>, acc: Seq<u8>)
    ensures items(parser::<u8>(), s, acc) == Out::Val(acc + s, 0)
    decreases s.len()
{
    if s.len() == 0 { assert(acc + s =~= acc); } else {
        bytes_items(s.skip(1), acc.push(s[0]));
        assert(acc.push(s[0]) + s.skip(1) =~= acc + s);
    }
}
pub broadcast proof fn bytes_parse(s: Seq<u8>)
    ensures #[trigger] parse_vec(parser::<u8>(), s) == block(s)
{
    if block(s) is Val {
        bytes_items(block(s)->Val_0, seq![]);
        assert(seq![] + block(s)->Val_0 =~= block(s)->Val_0);
    }
}
pub broadcast proof fn f32_len(x: f32)
    ensures (#[trigger] f32_bytes(x)).len() == 4
{
    float_bytes_len();
}
pub broadcast proof fn f64_len(x: f64)
    ensures (#[trigger] f64_bytes(x)).len() == 8
{
    float_bytes_len();
}
pub broadcast group glue { bytes_concat, bytes_parse, models_u8, f32_len, f64_len }

/// A variant's content behind its number.
pub proof fn tagged(v: u32, e: Seq<u8>, t: Seq<u8>)
    ensures parse_u32((enc_u32(v) + e) + t) == Out::Val(v, enc_u32(v).len() as int), ((enc_u32(v) + e) + t).skip(enc_u32(v).len() as int) == e + t
{
    rt_u32(v, e + t);
    add_assoc(enc_u32(v), e, t);
    assert((enc_u32(v) + (e + t)).skip(enc_u32(v).len() as int) =~= e + t);
}

pub proof fn non_zero_local<T: Local>(s: Seq<u8>, t: Seq<u8>)
    requires non_zero(s, T::parse(s)) is Val, same_part(s, t, T::parse(s)->Val_1), parse_u64(s) is Val, parse_u64(s)->Val_1 <= T::parse(s)->Val_1
    ensures non_zero(t, T::parse(t)) == non_zero(s, T::parse(s))
{
    broadcast use words;
    T::local(s, t);
    same_part_skip(s, t, parse_u64(s)->Val_1, T::parse(s)->Val_1);
    local_u64(s, t);
}
pub type NonZeroVec<T> = NonZero<Vec<T>>;
pub type NonZeroHashMap<K, V> = NonZero<HashMap<K, V>>;
pub type NonZeroHashSet<T> = NonZero<HashSet<T>>;
