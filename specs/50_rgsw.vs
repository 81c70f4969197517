#module rgsw
#ghost
broadcast use crate::shim::bits;
use crate::shim_f64::*;
use crate::rlwe::{noise_log, lemma_join, lemma_split};
use crate::rt::*;
// sum over the levels of the noise of the bottom rows
pub open spec fn noise_sum(g: Seq<u64>, s: Seq<u64>, n: nat, b: int, m: nat) -> f64 decreases m {
    if m == 0 { 0f64 } else { f_add(noise_sum(g, s, n, b, (m - 1) as nat), noise_log(phase(row(g, n, 2 * (m - 1) + 1), s), pscale(pconst(n, 1), gad(b, m as int)))) }
}
use crate::ring::*;
use crate::cc::*;
use crate::ccf::*;
impl RGSWCiphertext {
    pub open spec fn sv(&self) -> Seq<u64> { self.0.sv() }
    pub open spec fn n(&self) -> nat { self.0.poly_size.0 as nat }
    pub open spec fn l(&self) -> nat { self.0.levels.0 as nat }
    pub open spec fn b(&self) -> int { self.0.base_log.0 as int }
    pub open spec fn wf(&self) -> bool { self.0.wf() && 2 * self.0.poly_size.0 <= usize::MAX }
}
pub proof fn lemma_rows(g: Seq<u64>, n: nat, l: nat, k: int)
    requires g.len() == 2 * l * (2 * n), 0 <= k < 2 * l, n > 0,
    ensures (k + 1) * (2 * n) <= g.len(), 0 <= k * (2 * n), row(g, n, k).len() == 2 * n, g.len() / (2 * n) == 2 * l, (k + 1) * (2 * n) == k * (2 * n) + 2 * n,
{
    assert((k + 1) * (2 * n) == k * (2 * n) + 2 * n) by (nonlinear_arith);
    assert((k + 1) * (2 * n) <= (2 * l) * (2 * n)) by (nonlinear_arith) requires k + 1 <= 2 * l, n >= 0;
    assert(0 <= k * (2 * n)) by (nonlinear_arith) requires 0 <= k, n >= 0;
    assert(g.len() == (2 * l) * (2 * n));
    assert(((2 * l) * (2 * n)) / (2 * n) == 2 * l) by (nonlinear_arith) requires n > 0;
}
#fn RGSWCiphertext::allocate
#sig
requires poly_size.0 > 0, 2 * poly_size.0 <= usize::MAX,
ensures r.wf(), r.n() == poly_size.0, r.0.poly_size == poly_size, r.0.base_log == decomp_base_log, r.0.levels == decomp_level, r.sv() == pzero(2 * r.l() * (2 * r.n())),
#at ret
assert(__r.sv() =~= pzero(2 * __r.l() * (2 * __r.n())));
#fn RGSWCiphertext::polynomial_size
#sig
ensures r == self.0.poly_size,
#fn RGSWCiphertext::decomposition_level_count
#sig
ensures r == self.0.levels,
#fn RGSWCiphertext::decomposition_base_log
#sig
ensures r == self.0.base_log,
#fn RGSWCiphertext::ciphertext_count
#sig
requires self.wf(),
ensures r.0 == 2 * self.l(),
#at start
proof { if self.l() > 0 { lemma_rows(self.sv(), self.n(), self.l(), 0); } else { assert(self.sv().len() == 0) by (nonlinear_arith) requires self.sv().len() == 2 * self.l() * (2 * self.n()), self.l() == 0; } }
#fn RGSWCiphertext::update_with_add
#sig
requires old(self).wf(), other.wf(), other.n() == old(self).n(), other.l() == old(self).l(),
ensures final(self).wf(), final(self).0.poly_size == old(self).0.poly_size, final(self).0.base_log == old(self).0.base_log, final(self).0.levels == old(self).0.levels,
    final(self).sv() == padd(old(self).sv(), other.sv()),
#fn RGSWCiphertext::external_product_with_buf_glwe
#sig
requires self.wf(), old(out).wf(), d.wf(), old(out).n() == self.n(), d.n() == self.n(), old(buf).n() == self.n(), 0 < self.b() * self.l() < 64,
ensures final(out).sv() == padd(old(out).sv(), ep(self.sv(), self.n(), self.b(), self.l(), d.sv())), final(out).poly_size == old(out).poly_size, final(out).wf(),
    final(out).fut() == old(out).fut(), final(buf).n() == old(buf).n(),
#at start
proof {
    let (n, l) = (self.n() as int, self.l() as int);
    assert(0 <= (n / 2) * l <= n * l && ((n / 2) * l) * 2 <= n * l && n * l * 2 * 2 == 2 * l * (2 * n)) by (nonlinear_arith) requires 0 <= n, 0 <= l;
    assert(0 <= n * l) by (nonlinear_arith) requires 0 <= n, 0 <= l;
}
#fn RGSWCiphertext::external_product_with_buf
#sig
requires self.wf(), old(out).wf(), d.wf(), old(out).n() == self.n(), d.n() == self.n(), old(buf).n() == self.n(), 0 < self.b() * self.l() < 64,
ensures final(out).sv() == padd(old(out).sv(), ep(self.sv(), self.n(), self.b(), self.l(), d.sv())), final(out).n() == old(out).n(), final(out).wf(),
    final(buf).n() == old(buf).n(),
#fn RGSWCiphertext::external_product
#sig
requires self.wf(), old(out).wf(), d.wf(), old(out).n() == self.n(), d.n() == self.n(), fft_size(self.n()), 0 < self.b() * self.l() < 64,
ensures final(out).sv() == padd(old(out).sv(), ep(self.sv(), self.n(), self.b(), self.l(), d.sv())), final(out).n() == old(out).n(), final(out).wf(),
#fn RGSWCiphertext::cmux
#sig
requires self.wf(), old(out).wf(), ct0.wf(), ct1.wf(), old(out).n() == self.n(), ct0.n() == self.n(), ct1.n() == self.n(), fft_size(self.n()), 0 < self.b() * self.l() < 64,
ensures final(out).sv() == padd(ct0.sv(), ep(self.sv(), self.n(), self.b(), self.l(), psub(ct1.sv(), ct0.sv()))), final(out).n() == old(out).n(), final(out).wf(),
#fn RGSWCiphertext::cmux_with_buf
#sig
requires self.wf(), old(out).wf(), ct0.wf(), ct1.wf(), old(out).n() == self.n(), ct0.n() == self.n(), ct1.n() == self.n(), old(buf).n() == self.n(), 0 < self.b() * self.l() < 64,
ensures final(out).sv() == padd(ct0.sv(), ep(self.sv(), self.n(), self.b(), self.l(), psub(ct1.sv(), ct0.sv()))), final(out).n() == old(out).n(), final(out).wf(),
    final(buf).n() == old(buf).n(),
#fn RGSWCiphertext::get_last_row
#sig
requires self.wf(), self.l() > 0, 2 * self.l() <= usize::MAX,
ensures r.wf(), r.n() == self.n(), r.sv() == row(self.sv(), self.n(), 2 * self.l() - 1),
#fn RGSWCiphertext::get_nth_row
#sig
requires self.wf(), n < 2 * self.l(),
ensures r.wf(), r.n() == self.n(), r.sv() == row(self.sv(), self.n(), n as int),
#at start
proof { lemma_rows(self.sv(), self.n(), self.l(), n as int); }
#fn RGSWCiphertext::from_keyswitch_key
#sig
requires ksk.wf(), ksk.b() > 0, ksk.b() * ksk.l() <= 64,
ensures r.wf(), r.n() == ksk.n(), r.l() == ksk.l(), r.b() == ksk.b(), is_ksg(r.sv(), ksk.n(), ksk.rows(), ksk.b()),
#at start
broadcast use lemma_shl1;
let ghost (__n, __l, __b, __ks) = (ksk.n(), ksk.l(), ksk.b(), ksk.rows());
proof { assert(__b * __l >= __l) by (nonlinear_arith) requires __b >= 1, __l >= 0; }
#at after:let:ks#0
let ghost __z = rgsw.sv();
proof { l_rows_zero(__z, __n, 2 * __l); if __l > 0 { lemma_rows(__z, __n, __l, 0); } else { assert(__z.len() == 0) by (nonlinear_arith) requires __z.len() == 2 * __l * (2 * __n), __l == 0; } }
#loop 0
invariant __n0 == 2 * __l, rgsw.wf(), rgsw.n() == __n, rgsw.l() == __l, rgsw.b() == __b, rgsw.sv().len() == 2 * __l * (2 * __n),
  forall|k: int| 0 <= k < __k0 ==> #[trigger] row(rgsw.sv(), __n, k) == ksg_row(__ks, __n, __b, k),
  forall|k: int| __k0 <= k < __n0 ==> #[trigger] row(rgsw.sv(), __n, k) == pzero(2 * __n),
#at loop0.begin
let ghost __o = rgsw.sv();
proof {
    crate::rl::l_rowlen(__o, __n, 2 * __l, __j0 as int); assert(ks@[__j0 as int / 2].wf());
    let lv = __j0 as int / 2;
    assert(__b * (lv + 1) <= __b * __l) by (nonlinear_arith) requires lv + 1 <= __l, __b >= 0;
    assert(__b * (lv + 1) >= 1) by (nonlinear_arith) requires lv >= 0, __b >= 1;
    lemma_join(__ks[lv], __n); lemma_join(pzero(2 * __n), __n);
}
#at loop0.end
proof {
    let f = ksg_row(__ks, __n, __b, __j0 as int);
    assert(rgsw.sv() =~= crate::rl::rowset(__o, __n, __j0 as int, f));
    assert forall|k: int| 0 <= k < __n0 implies #[trigger] row(rgsw.sv(), __n, k) == if k == __j0 { f } else { row(__o, __n, k) } by { crate::rl::l_rowset(__o, __n, 2 * __l, __j0 as int, f, k); }
}
#fn RGSWCiphertext::keyswitch_ciphertext
#sig
requires self.wf(), old(after).wf(), before.wf(), old(after).n() == self.n(), before.n() == self.n(), fft_size(self.n()), 0 < self.b() * self.l() < 64,
ensures final(after).sv() == padd(old(after).sv(), ep(self.sv(), self.n(), self.b(), self.l(), before.sv())), final(after).n() == old(after).n(), final(after).wf(),
#fn RGSWCiphertext::keyswitch_ciphertext_with_buf
#sig
requires self.wf(), old(after).wf(), before.wf(), old(after).n() == self.n(), before.n() == self.n(), old(buf).n() == self.n(), 0 < self.b() * self.l() < 64,
ensures final(after).sv() == padd(old(after).sv(), ep(self.sv(), self.n(), self.b(), self.l(), before.sv())), final(after).n() == old(after).n(), final(after).wf(), final(buf).n() == old(buf).n(),
#fn compute_noise_rgsw1
#sig
requires sk.wf(), ct.wf(), ct.n() == sk.n(), ctx.n() == sk.n(), ctx.level_count.0 <= ct.l(), 2 * ct.l() <= usize::MAX, ctx.base_log.0 > 0, ctx.base_log.0 * ctx.level_count.0 <= 64,
ensures r == f_div(noise_sum(ct.sv(), sk.sv(), ct.n(), ctx.base_log.0 as int, ctx.level_count.0 as nat), f_of(ctx.level_count.0 as int)),
#at start
broadcast use lemma_shl1;
#loop 0
invariant __n0 == ctx.level_count.0, total_noise == noise_sum(ct.sv(), sk.sv(), ct.n(), ctx.base_log.0 as int, __k0 as nat),
#at loop0.begin
assert(ctx.base_log.0 * (__j0 + 1) <= ctx.base_log.0 * __n0) by (nonlinear_arith) requires __j0 + 1 <= __n0, ctx.base_log.0 >= 0;
assert(ctx.base_log.0 * (__j0 + 1) >= 1) by (nonlinear_arith) requires ctx.base_log.0 >= 1, __j0 >= 0;
