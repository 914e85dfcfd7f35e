pub proof fn varint_mono(a: nat, b: nat)
    requires a <= b
    ensures varint_len(a) <= varint_len(b), varint_len(a) >= 1
    decreases b
{
    if a >= 128 { assert(a / 128 <= b / 128) by (nonlinear_arith) requires a <= b; varint_mono(a / 128, b / 128); }
    else if b >= 128 { varint_mono(0, b / 128); }
}
pub proof fn varint_digits(n: nat)
    ensures varint_len(n) == (if digits2(n) == 0 { 1 } else { (digits2(n) + 6) / 7 }), n > 0 ==> digits2(n) > 0
    decreases n
{
    reveal_with_fuel(digits2, 9);
    if n >= 128 {
        varint_digits(n / 128);
        assert(n / 128 > 0);
        assert(n / 2 / 2 / 2 / 2 / 2 / 2 / 2 == n / 128);
        assert(digits2(n) == 7 + digits2(n / 128));
    }
}
pub proof fn few_digits(n: nat)
    requires n <= usize::MAX
    ensures digits2(n) <= 64, varint_len(n) <= 10
{
    assert(pow2(64) == 0x1_0000_0000_0000_0000) by { reveal_with_fuel(pow2, 65); }
    digits_below(n, 64);
    varint_digits(n);
}
pub open spec fn pow2(k: nat) -> nat decreases k { if k == 0 { 1 } else { 2 * pow2((k - 1) as nat) } }
pub proof fn digits_below(n: nat, k: nat)
    requires n < pow2(k)
    ensures digits2(n) <= k
    decreases k
{
    if n > 0 { assert(k > 0); digits_below(n / 2, (k - 1) as nat); }
}
pub broadcast proof fn block_some(n: nat, m: nat)
    ensures #[trigger] block(n, m) ==> n >= 1 + m
{
    varint_mono(m, m);
}
pub broadcast proof fn longer(a: nat, b: nat)
    ensures a <= b ==> #[trigger] varint_len(a) <= #[trigger] varint_len(b)
{
    if a <= b { varint_mono(a, b); }
}
pub broadcast proof fn option_of(x: Box<Type<'_>>, n: nat)
    ensures #[trigger] length(Type::Option(x), n) ==> n <= 1 || length(*x, (n - 1) as nat) || length(*x, n)
{ }
pub broadcast proof fn non_zero_of(x: Box<Type<'_>>, n: nat)
    ensures #[trigger] length(Type::NonZero(x), n) ==> length(*x, n)
{ }
/// Elements that keep to the bounds.
pub broadcast proof fn elements(w: WireSize, t: Type<'_>, s: Seq<nat>)
    requires #[trigger] encloses(w, t), forall|i: int| #![trigger s[i]] 0 <= i < s.len() ==> length(t, s[i])
    ensures w.min * s.len() <= #[trigger] sum(s), w.max matches Some(m) ==> sum(s) <= m * s.len()
    decreases s.len()
{
    if s.len() > 0 {
        let r = s.drop_last();
        assert forall|i: int| #![trigger r[i]] 0 <= i < r.len() implies length(t, r[i]) by { assert(r[i] == s[i]); }
        elements(w, t, r);
        assert(length(t, s[s.len() - 1]));
        assert(w.min * s.len() == w.min * r.len() + w.min) by (nonlinear_arith) requires s.len() == r.len() + 1;
        if w.max is Some {
            let m = w.max->0;
            assert(m * s.len() == m * r.len() + m) by (nonlinear_arith) requires s.len() == r.len() + 1;
        }
    }
}
/// Members of a tuple that keep to their bounds.
pub proof fn members(s: Seq<nat>, w: Seq<&(CowStr<'static>, Option<WireSize>)>, types: Seq<Type<'_>>)
    requires s.len() <= w.len(), s.len() <= types.len(),
        forall|i: int| #![trigger s[i]] 0 <= i < s.len() ==> length(types[i], s[i]),
        forall|i: int| #![trigger w[i]] 0 <= i < s.len() ==> fits(w[i].1, types[i]),
    ensures lows(w, s.len() as int) <= sum(s), (forall|i: int| #![trigger w[i]] 0 <= i < s.len() ==> ends(w[i].1)) ==> sum(s) <= highs(w, s.len() as int)
    decreases s.len()
{
    if s.len() > 0 {
        let r = s.drop_last();
        assert forall|i: int| #![trigger r[i]] 0 <= i < r.len() implies length(types[i], r[i]) by { assert(r[i] == s[i]); }
        members(r, w, types);
        let k = s.len() - 1;
        assert(length(types[k], s[k]));
        assert(fits(w[k].1, types[k]));
    }
}
pub proof fn tuples(r: WireSize, types: Seq<Type<'_>>)
    requires r.inner@.len() == types.len(),
        forall|i: int| #![trigger r.inner@[i]] 0 <= i < types.len() ==> fits(r.inner@[i].1, types[i]),
        r.min <= lows(refs(r.inner@), types.len() as int),
        r.max matches Some(m) ==> m >= highs(refs(r.inner@), types.len() as int) && forall|i: int| #![trigger refs(r.inner@)[i]] 0 <= i < types.len() ==> ends(refs(r.inner@)[i].1),
    ensures forall|b: Box<[Type]>| b@ == types ==> encloses(r, Type::Tuple(b))
{
    let w = refs(r.inner@);
    assert forall|b: Box<[Type]>, n: nat| #![trigger length(Type::Tuple(b), n)] b@ == types && length(Type::Tuple(b), n) implies r.min <= n && (r.max matches Some(m) ==> n <= m) by {
        let s = choose|s: Seq<nat>| #![trigger sum(s)] n == sum(s) && s.len() == types.len() && (forall|i: int| #![trigger s[i]] 0 <= i < s.len() ==> length(types[i], s[i]));
        assert forall|i: int| #![trigger w[i]] 0 <= i < s.len() implies fits(w[i].1, types[i]) by { assert(w[i] == r.inner@[i]); }
        members(s, w, types);
        if r.max is Some {
            assert forall|i: int| #![trigger w[i]] 0 <= i < s.len() implies ends(w[i].1) by { }
        }
    }
}
pub proof fn canary_1() ensures false { }
pub proof fn canary_2(t: Type<'_>, n: nat) requires length(t, n) ensures n >= 1 { }
pub proof fn canary_3(w: WireSize, t: Type<'_>) requires encloses(w, t) ensures w.max is Some { }

/// The next element of a sequence that is walked over.
pub proof fn one_more(s: Seq<u32>, n: int)
    requires 0 < n <= s.len()
    ensures s.take(n) == s.take(n - 1).push(s[n - 1]),
        forall|x: u32| #![trigger s.take(n).contains(x)] s.take(n - 1).contains(x) || x == s[n - 1] ==> s.take(n).contains(x),
{
    assert(s.take(n) =~= s.take(n - 1).push(s[n - 1]));
    assert forall|x: u32| #![trigger s.take(n).contains(x)] s.take(n - 1).contains(x) || x == s[n - 1] implies s.take(n).contains(x) by {
        if x == s[n - 1] { assert(s.take(n)[n - 1] == x); } else {
            let i = choose|i: int| #![trigger s.take(n - 1)[i]] 0 <= i < n - 1 && s.take(n - 1)[i] == x;
            assert(s.take(n)[i] == x);
        }
    }
}
