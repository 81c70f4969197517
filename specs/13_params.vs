#module params
#ghost
pub open spec fn mk(o: ORAMParameters, t: TFHEParameters) -> ServerParams { ServerParams { oram: o, tfhe: t } }
// one configuration per pair of one group, in order
pub open spec fn row_of(o: ORAMParameters, ts: Seq<TFHEParameters>) -> Seq<ServerParams> { Seq::new(ts.len(), |k: int| mk(o, ts[k])) }
pub open spec fn group(os: Seq<ORAMParameters>, ts: Seq<TFHEParameters>, m: nat) -> Seq<ServerParams>
    decreases m
{ if m == 0 { Seq::empty() } else { group(os, ts, (m - 1) as nat) + row_of(os[m - 1], ts) } }
pub open spec fn groups(l: Seq<(Vec<ORAMParameters>, Vec<TFHEParameters>)>, m: nat) -> Seq<ServerParams>
    decreases m
{ if m == 0 { Seq::empty() } else { groups(l, (m - 1) as nat) + group(l[m - 1].0@, l[m - 1].1@, l[m - 1].0@.len()) } }
// parameters every part of the system can work with, with room to encrypt a feature
pub open spec fn workable(p: &TFHEParameters) -> bool {
    &&& 2048 <= p.polynomial_size <= 0x8000_0000 && exists|k: nat| #[trigger] pow2(k) == p.polynomial_size && p.base_log * p.level_count + k <= 64
    &&& p.base_log >= 1 && p.key_switch_base_log >= 1 && p.negs_base_log >= 1 && 0 < p.base_log * p.level_count < 64 && 0 < p.key_switch_base_log * p.key_switch_level_count < 64 && 0 < p.negs_base_log * p.negs_level_count < 64
    &&& 2 <= p.plaintext_modulus && is_pow2(p.plaintext_modulus as nat)
}
#keep TFHEParameters.Default
#fn TFHEParameters.Default::default
#sig
ensures workable(&r),
#at ret
proof { lemma2_to64(); assert(pow2(8) == 256 && pow2(11) == 2048); assert(1u64 << 8 == 256) by (bit_vector); }
#fn ServerParams::from_input_params_list
#sig
ensures r@ == groups(input.list@, input.list@.len()),
#loop 0
invariant __n0 == input.list@.len(), __g__v0 == input.list@, out@ == groups(input.list@, __k0 as nat),
#loop 1
invariant __n1 == x.0@.len(), x == input.list@[__j0 as int], out@ == __o + group(x.0@, x.1@, __k1 as nat),
#at loop1.before
let ghost __o = out@;
assert(__o + group(x.0@, x.1@, 0) =~= __o);
#loop 2
invariant __n2 == x.1@.len(), x == input.list@[__j0 as int], *x_oram == x.0@[__j1 as int], out@ == __o + group(x.0@, x.1@, __j1 as nat) + row_of(*x_oram, x.1@).take(__k2 as int),
#at loop2.before
assert(out@ =~= __o + group(x.0@, x.1@, __j1 as nat) + row_of(*x_oram, x.1@).take(0));
#at loop2.end
assert(row_of(*x_oram, x.1@).take(__k2 as int) =~= row_of(*x_oram, x.1@).take(__j2 as int).push(mk(*x_oram, x.1@[__j2 as int])));
assert(out@ =~= __o + group(x.0@, x.1@, __j1 as nat) + row_of(*x_oram, x.1@).take(__k2 as int));
#at loop2.after
assert(row_of(*x_oram, x.1@).take(__n2 as int) =~= row_of(*x_oram, x.1@));
assert(out@ =~= __o + group(x.0@, x.1@, (__j1 + 1) as nat));
