#module utils
#ghost
broadcast use crate::shim::bits;
use crate::ring::*;
pub use crate::rt::{lemma_odd_div, lemma_ev_inj};
pub open spec fn is_log2(x: int, r: int) -> bool { 0 <= r && pow2(r as nat) <= x < pow2((r + 1) as nat) }
pub proof fn lemma_log2_pow2(x: int, r: int, k: nat)
    requires is_log2(x, r), x == pow2(k),
    ensures r == k,
{
    if r < k { if r + 1 < k { lemma_pow2_strictly_increases((r + 1) as nat, k); } }
    if r > k { lemma_pow2_strictly_increases(k, r as nat); }
}
pub proof fn lemma_neg_mul(c: u64)
    ensures (u64::MAX * c) % 0x1_0000_0000_0000_0000 == wneg(c),
{
    assert((0xffff_ffff_ffff_ffff * c) % 0x1_0000_0000_0000_0000 == (-(c as int)) % 0x1_0000_0000_0000_0000) by (nonlinear_arith);
}
// the first 64 coefficients, as a number
pub open spec fn bits64(s: Seq<u64>) -> bool { forall|i: int| 0 <= i < 64 && i < s.len() ==> #[trigger] s[i] == 0 || s[i] == 1 }
pub open spec fn lossy(s: Seq<u64>, m: nat) -> int decreases m { if m == 0 { 0 } else { lossy(s, (m - 1) as nat) + s[m - 1] * pow2((m - 1) as nat) } }
#skip parse_csv
#fn mul_const
#sig
ensures final(poly).sv() == pscale(old(poly).sv(), c), final(poly).fut() == old(poly).fut(),
#loop 0
invariant __n0 == old(poly).sv().len(), poly.sv().len() == __n0, poly.fut() == old(poly).fut(),
  forall|i: int| 0 <= i < __k0 ==> poly.sv()[i] == wmul(old(poly).sv()[i], c),
  forall|i: int| __k0 <= i < __n0 ==> poly.sv()[i] == old(poly).sv()[i],
#at loop0.after
assert(poly.sv() =~= pscale(old(poly).sv(), c));
#fn log2
#sig
requires input > 0,
ensures r < 64, is_log2(input as int, r as int),

#fn eval_x_k
#sig
requires k % 2 == 1, is_pow2(poly.sv().len()), poly.sv().len() * k <= usize::MAX,
ensures is_pev(r.sv(), poly.sv(), k as int),
#fn eval_x_k_in_memory
#sig
requires k % 2 == 1, is_pow2(poly.sv().len()), poly.sv().len() * k <= usize::MAX, old(out).sv().len() == poly.sv().len(),
ensures is_pev(final(out).sv(), poly.sv(), k as int),
#at start
proof { lemma_is_pow2_pos(poly.sv().len()); }
#at loop0.before
let ghost __nn = poly.sv().len() as int;
proof {
    assert((0 * k) % __nn == 0 && (0 * k) / __nn == 0) by (nonlinear_arith) requires __nn > 0;
    assert(ev_pos(__nn, k as int, 0) == 0);
}
#loop 0
invariant out.sv().len() == __nn, __n0 + 1 == __nn || (__n0 == 0 && __nn == 0), __nn == poly.sv().len(),
  forall|i: int| 0 <= i <= __k0 && i < __nn ==> out.sv()[#[trigger] ev_pos(__nn, k as int, i)] == ev_sgn(__nn, k as int, i, poly.sv()[i]),
#at loop0.begin
proof {
    let j = __j0 + 1;
    assert(0 <= j * k <= __nn * k) by (nonlinear_arith) requires 0 <= j < __nn, k >= 0;
    assert(0 <= (j * k) % __nn < __nn && 0 <= (j * k) / __nn) by (nonlinear_arith) requires __nn > 0, j * k >= 0;
    assert(ev_pos(__nn, k as int, j) == (j * k) % __nn);
    lemma_neg_mul(poly.sv()[j]);
    assert forall|i: int| 0 <= i < j implies #[trigger] ev_pos(__nn, k as int, i) != ev_pos(__nn, k as int, j) && 0 <= ev_pos(__nn, k as int, i) < __nn by { lemma_ev_inj(__nn, k as int, i, j); }
}

#fn transpose
#opt lty0=crate::shim::It<T>
#opt lty1=Vec<T>
#sig
requires v@.len() > 0, forall|i: int| 0 <= i < v@.len() ==> #[trigger] v@[i]@.len() == v@[0]@.len(),
ensures r@.len() == v@[0]@.len(),
  forall|j: int, i: int| 0 <= j < r@.len() && 0 <= i < v@.len() ==> #[trigger] r@[j]@[i] == v@[i]@[j],
  forall|j: int| 0 <= j < r@.len() ==> #[trigger] r@[j]@.len() == v@.len(),
#loop 0
invariant __n0 == v@.len(), __g__v0 == v@,
  forall|i: int| 0 <= i < __k0 ==> (#[trigger] __c0@[i]).left() == v@[i]@,
#loop 1
invariant iters@.len() == v@.len(), __n1 == v@[0]@.len(),
  forall|i: int| 0 <= i < v@.len() ==> (#[trigger] iters@[i]).left() == v@[i]@.skip(__k1 as int),
  forall|j: int, i: int| 0 <= j < __k1 && 0 <= i < v@.len() ==> #[trigger] __c1@[j]@[i] == v@[i]@[j],
  forall|j: int| 0 <= j < __k1 ==> #[trigger] __c1@[j]@.len() == v@.len(),
#at loop1.before
assert forall|i: int| 0 <= i < v@.len() implies (#[trigger] iters@[i]).left() == v@[i]@.skip(0) by { assert(v@[i]@.skip(0) =~= v@[i]@); }
#loop 2
invariant iters@.len() == v@.len(), __n2 == v@.len(),
  forall|i: int| 0 <= i < __k2 ==> (#[trigger] iters@[i]).left() == v@[i]@.skip(__j1 + 1),
  forall|i: int| __k2 <= i < v@.len() ==> (#[trigger] iters@[i]).left() == v@[i]@.skip(__j1 as int),
  forall|i: int| 0 <= i < __k2 ==> __c2@[i] == v@[i]@[__j1 as int],
#at loop2.begin
assert(v@[__j2 as int]@.skip(__j1 as int).skip(1) =~= v@[__j2 as int]@.skip(__j1 + 1));
assert(v@[__j2 as int]@.skip(__j1 as int).len() > 0) by { assert(v@[__j2 as int]@.len() == v@[0]@.len()); }
#fn pt_to_lossy_u64
#panic !bits64(pt.sv())
#sig
ensures bits64(pt.sv()), r == lossy(pt.sv(), if pt.sv().len() < 64 { pt.sv().len() } else { 64 }),
#loop 0
invariant __n0 == if pt.sv().len() < 64 { pt.sv().len() } else { 64 },
  forall|i: int| 0 <= i < __k0 ==> pt.sv()[i] == 0 || pt.sv()[i] == 1,
  out == lossy(pt.sv(), __k0 as nat), out < pow2(__k0 as nat),
#at start
broadcast use lemma_shl1;
proof { lemma_pow2_64(); }
#at loop0.begin
proof {
    lemma_pow2_unfold((__j0 + 1) as nat);
    if __j0 < 63 { lemma_pow2_strictly_increases((__j0 + 1) as nat, 64); }
    let p = pow2(__j0 as nat) as int;
    assert(0 * p == 0 && 1 * p == p);
}
