@fn mabo_meta::next_variant_id
@ensures next_number(res, ids_of_variants($0@), u32::MAX)
@loop0 largest(acc0__, ids_of_variants($0@).take(at0__))
@step0 proof { crate::laws::one_more(ids_of_variants($0@), at0__); }
@after0 proof { assert(ids_of_variants($0@).take(at0__) =~= ids_of_variants($0@)); }

@fn mabo_meta::next_field_id
@ensures if $0.kind is Unit { res is None } else { next_number(res, ids_of_fields($0.fields@), 0x1fff_ffff) }
@loop0 largest(acc0__, ids_of_fields($0.fields@).take(at0__))
@step0 proof { crate::laws::one_more(ids_of_fields($0.fields@), at0__); }
@after0 proof { assert(ids_of_fields($0.fields@).take(at0__) =~= ids_of_fields($0.fields@)); }

@fn mabo_meta::WireSize::fixed
@ensures res.min == $1, res.max == Some($1)

@fn mabo_meta::WireSize::range
@ensures res.min == $1, res.max == Some($2)

@fn mabo_meta::WireSize::min
@ensures res.min == $1, res.max is None

@fn mabo_meta::varint_size
@ensures res == varint_len($0 as nat), res <= 10
@start proof { crate::laws::varint_digits($0 as nat); crate::laws::few_digits($0 as nat); }

@fn mabo_meta::wire_size
@ensures fits(res, *$0)
@decreases rank(*$0), *$0, 0int
@start broadcast use crate::laws::block_some, crate::laws::option_of, crate::laws::non_zero_of;

@fn mabo_meta::wire_size_array
@ensures encloses(res, Type::Array(Box::new(*$0), $1))
@decreases 1int, *$0, 1int
@start broadcast use crate::laws::block_some, crate::laws::longer, crate::laws::elements;

@fn mabo_meta::wire_size_tuple
@ensures forall|b: Box<[Type]>| b@ == $0@ ==> encloses(res, Type::Tuple(b))
@decreases 1int, $0@, 1int
@type0 Vec<(CowStr<'static>, Option<WireSize>)>
@loop0 out0__@.len() == at0__, forall|i: int| #![trigger out0__@[i]] 0 <= i < at0__ ==> fits(out0__@[i].1, types@[i])
@loop1 acc1__ <= lows(all1__, at1__)
@loop2 acc2__ matches Some(m) ==> m == highs(all2__, at2__) && forall|i: int| #![trigger all2__[i]] 0 <= i < at2__ ==> ends(all2__[i].1)
@tail proof { crate::laws::tuples(r__, $0@); }
