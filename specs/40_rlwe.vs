#module rlwe
#ghost
broadcast use crate::shim::bits;
use crate::shim_f64::*;
use crate::rt::*;
use crate::utils::is_log2;
use crate::ring::*;
use crate::cc::*;
use crate::ccf::{ep, fft_size, is_fft, is_ifft, is_zfft, Slot, smul, sadd, CSlice, CMutSlice};
use crate::rl::*;
use vstd::std_specs::iter::IteratorSpec;
impl RLWECiphertext {
    pub open spec fn sv(&self) -> Seq<u64> { self.0.sv() }
    pub open spec fn n(&self) -> nat { self.0.poly_size.0 as nat }
    pub open spec fn wf(&self) -> bool { self.0.wf() && 2 * self.0.poly_size.0 <= usize::MAX }
    pub open spec fn mask(&self) -> Seq<u64> { mask_of(self.sv(), self.n()) }
    pub open spec fn body(&self) -> Seq<u64> { body_of(self.sv(), self.n()) }
    pub open spec fn ph(&self, sk: &RLWESecretKey) -> Seq<u64> { phase(self.sv(), sk.sv()) }
}
impl RLWESecretKey {
    pub open spec fn sv(&self) -> Seq<u64> { self.0.sv() }
    pub open spec fn n(&self) -> nat { self.0.poly_size.0 as nat }
    // the shape; wf: a binary key, as encryption and decryption need it
    pub open spec fn swf(&self) -> bool { self.0.wf() }
    pub open spec fn wf(&self) -> bool { self.swf() && is_bin(self.sv()) }
}
pub proof fn lemma_split(c: Seq<u64>, m: Seq<u64>, b: Seq<u64>, n: nat)
    requires m.len() == n, b.len() == n, c == m + b,
    ensures mask_of(c, n) == m, body_of(c, n) == b, c.len() == 2 * n,
{ assert(mask_of(c, n) =~= m); assert(body_of(c, n) =~= b); }
pub proof fn lemma_join(c: Seq<u64>, n: nat)
    requires c.len() == 2 * n,
    ensures mask_of(c, n) + body_of(c, n) == c, mask_of(c, n).len() == n, body_of(c, n).len() == n,
{ assert(mask_of(c, n) + body_of(c, n) =~= c); }
// 1 - X^{n-d} - ... - X^{n-1}: times X^m it has constant coefficient [m <= d] (0 <= m < n)
pub open spec fn leq_poly(n: nat, d: int) -> Seq<u64> { Seq::new(n, |i: int| if i == 0 { 1u64 } else if i >= n - d { u64::MAX } else { 0u64 }) }
pub open spec fn eq_poly(n: nat, d: int) -> Seq<u64> { Seq::new(n, |i: int| if d == 0 { if i == 0 { 1u64 } else { 0u64 } } else if i == n - d { u64::MAX } else { 0u64 }) }
// (-a, q/2 - b)
pub open spec fn notct(c: Seq<u64>, n: nat) -> Seq<u64> { Seq::new(c.len(), |i: int| if i == n { wadd(wneg(c[i]), 0x8000_0000_0000_0000) } else { wneg(c[i]) }) }

// the rows of a list of ciphertexts
pub open spec fn rows(v: Seq<RLWECiphertext>) -> Seq<Seq<u64>> { Seq::new(v.len(), |i: int| v[i].sv()) }
pub open spec fn all_wf(v: Seq<RLWECiphertext>, n: nat) -> bool { forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).wf() && v[i].n() == n }
impl RLWEKeyswitchKey {
    pub open spec fn n(&self) -> nat { self.polynomial_size.0 as nat }
    pub open spec fn l(&self) -> nat { self.decomp_level_count.0 as nat }
    pub open spec fn b(&self) -> int { self.decomp_base_log.0 as int }
    pub open spec fn rows(&self) -> Seq<Seq<u64>> { rows(self.ksks@) }
    pub open spec fn wf(&self) -> bool { 0 < self.n() && 2 * self.n() <= usize::MAX && self.ksks@.len() == self.l() && all_wf(self.ksks@, self.n()) }
    pub open spec fn is_key(&self, before: Seq<u64>, after: Seq<u64>, e: int) -> bool { is_ksk(self.rows(), before, after, self.b(), e) }
}

// ---- Fourier domain
pub open spec fn fpoly(c: Seq<crate::ccf::c64>) -> Seq<u64> { c[0].slot()->Torus_0 }
// the slots carry p (an untouched accumulator carries nothing, which stands for zero)
pub open spec fn is_fz(c: Seq<crate::ccf::c64>, p: Seq<u64>) -> bool { is_fft(c, p) || (is_zfft(c, p.len()) && p == pzero(p.len())) }
pub open spec fn is_fct(c: FourierRLWECiphertext, v: Seq<u64>, n: nat) -> bool { v.len() == 2 * n && is_fft(c.mask.data@, mask_of(v, n)) && is_fft(c.body.data@, body_of(v, n)) }
impl FourierRLWECiphertext {
    pub open spec fn shape(&self, n: nat) -> bool { self.mask.data@.len() == n / 2 && self.body.data@.len() == n / 2 }
    pub open spec fn val(&self) -> Seq<u64> { fpoly(self.mask.data@) + fpoly(self.body.data@) }
}
pub proof fn lemma_fct(c: FourierRLWECiphertext, v: Seq<u64>, n: nat)
    requires is_fct(c, v, n), n >= 2,
    ensures c.val() == v, c.shape(n),
{ lemma_join(v, n); assert(c.mask.data@[0].slot() == Slot::Torus(mask_of(v, n))); assert(c.body.data@[0].slot() == Slot::Torus(body_of(v, n))); }
pub open spec fn frows(v: Seq<FourierRLWECiphertext>) -> Seq<Seq<u64>> { Seq::new(v.len(), |i: int| v[i].val()) }
impl FourierRLWEKeyswitchKey {
    pub open spec fn n(&self) -> nat { self.polynomial_size.0 as nat }
    pub open spec fn l(&self) -> nat { self.decomp_level_count.0 as nat }
    pub open spec fn b(&self) -> int { self.decomp_base_log.0 as int }
    pub open spec fn rows(&self) -> Seq<Seq<u64>> { frows(self.ksks@) }
    pub open spec fn wf(&self) -> bool { 0 < self.n() && 2 * self.n() <= usize::MAX && self.ksks@.len() == self.l() && forall|i: int| 0 <= i < self.ksks@.len() ==> is_fct(#[trigger] self.ksks@[i], self.ksks@[i].val(), self.n()) }
}
// one product added in the Fourier domain
pub proof fn lemma_facc(o: Seq<crate::ccf::c64>, f1: Seq<crate::ccf::c64>, f2: Seq<crate::ccf::c64>, r: Seq<crate::ccf::c64>, a: Seq<u64>, p: Seq<u64>, q: Seq<u64>)
    requires a.len() == p.len(), is_fz(o, a), is_fft(f1, p), is_ifft(f2, q), p.len() == q.len(), r.len() == o.len(),
        forall|i: int| 0 <= i < o.len() ==> (#[trigger] r[i]).slot() == sadd(o[i].slot(), smul(f1[i].slot(), f2[i].slot())),
    ensures is_fft(r, padd(a, pmul(p, q))),
{
    l_zero_unit(pmul(p, q));
    assert forall|i: int| 0 <= i < r.len() implies (#[trigger] r[i]).slot() == Slot::Torus(padd(a, pmul(p, q))) by { let (x, y, z) = (o[i], f1[i], f2[i]); }
}
pub proof fn lemma_facc2(o: Seq<crate::ccf::c64>, f1: Seq<crate::ccf::c64>, f2: Seq<crate::ccf::c64>, f3: Seq<crate::ccf::c64>, f4: Seq<crate::ccf::c64>, r: Seq<crate::ccf::c64>, a: Seq<u64>, p: Seq<u64>, q: Seq<u64>, p2: Seq<u64>, q2: Seq<u64>)
    requires a.len() == p.len(), is_fz(o, a), is_fft(f1, p), is_ifft(f2, q), p.len() == q.len(), is_fft(f3, p2), is_ifft(f4, q2), p2.len() == p.len(), q2.len() == p.len(), r.len() == o.len(),
        forall|i: int| 0 <= i < o.len() ==> (#[trigger] r[i]).slot() == sadd(o[i].slot(), sadd(smul(f1[i].slot(), f2[i].slot()), smul(f3[i].slot(), f4[i].slot()))),
    ensures is_fft(r, padd(padd(a, pmul(p, q)), pmul(p2, q2))),
{
    let s = padd(pmul(p, q), pmul(p2, q2));
    l_zero_unit(s); l_padd_ac(a, pmul(p, q), pmul(p2, q2));
    assert forall|i: int| 0 <= i < r.len() implies (#[trigger] r[i]).slot() == Slot::Torus(padd(a, s)) by { let (x, y, z, y2, z2) = (o[i], f1[i], f2[i], f3[i], f4[i]); }
}
// adding the product with the negated digit is one step of key switching
pub proof fn lemma_fks(o: Seq<u64>, r: Seq<u64>, n: nat, dg: Seq<u64>)
    requires o.len() == 2 * n, r.len() == 2 * n, dg.len() == n,
    ensures padd(mask_of(o, n), pmul(mask_of(r, n), pneg(dg))) == mask_of(psub(o, gmul(r, n, dg)), n), padd(body_of(o, n), pmul(body_of(r, n), pneg(dg))) == body_of(psub(o, gmul(r, n, dg)), n),
{
    lemma_join(o, n); lemma_join(r, n);
    l_mul_neg_r(mask_of(r, n), dg); l_mul_neg_r(body_of(r, n), dg);
    l_sub(mask_of(o, n), pmul(mask_of(r, n), dg)); l_sub(body_of(o, n), pmul(body_of(r, n), dg));
    assert(mask_of(psub(o, gmul(r, n, dg)), n) =~= psub(mask_of(o, n), pmul(mask_of(r, n), dg)));
    assert(body_of(psub(o, gmul(r, n, dg)), n) =~= psub(body_of(o, n), pmul(body_of(r, n), dg)));
}
pub open spec fn frowmap(m: Map<usize, FourierRLWEKeyswitchKey>) -> Map<usize, Seq<Seq<u64>>> { Map::new(m.dom(), |k: usize| m[k].rows()) }
pub open spec fn ftmap_wf(m: Map<usize, FourierRLWEKeyswitchKey>, n: nat, l: nat, b: int) -> bool {
    forall|i: int| #![trigger trace_k(n as int, i)] 1 <= i && pow2(i as nat) <= n ==> {
        let k = trace_k(n as int, i) as usize;
        m.contains_key(k) && m[k].wf() && m[k].n() == n && m[k].l() == l && m[k].b() == b && m[k].subs_k == k
    }
}
pub open spec fn fmap_l(m: Map<usize, FourierRLWEKeyswitchKey>, n: nat) -> nat { m[(n + 1) as usize].l() }
pub open spec fn fmap_b(m: Map<usize, FourierRLWEKeyswitchKey>, n: nat) -> int { m[(n + 1) as usize].b() }
pub open spec fn ftraced(m: Map<usize, FourierRLWEKeyswitchKey>, n: nat, cs: Seq<Seq<u64>>) -> Seq<Seq<u64>> { Seq::new(cs.len(), |i: int| trace_acc(frowmap(m), n, fmap_b(m, n), cs[i], lg(n))) }
pub open spec fn is_ftkey(h: FourierRLWEKeyswitchKey, k: int, n: nat, l: nat, b: int, s: Seq<u64>, e: int) -> bool { h.wf() && h.n() == n && h.l() == l && h.b() == b && h.subs_k == k && is_ksk(h.rows(), pev(s, k), s, b, e) }
// log2 of the largest magnitude of a difference
pub open spec fn noise_log(p: Seq<u64>, q: Seq<u64>) -> f64 { f_log2(f_of(linf(psub(p, q)))) }
// ---- substitution keys by exponent
pub open spec fn rowmap(m: Map<usize, RLWEKeyswitchKey>) -> Map<usize, Seq<Seq<u64>>> { Map::new(m.dom(), |k: usize| m[k].rows()) }
// a key for every exponent the trace uses, all with one decomposition
pub open spec fn tmap_wf(m: Map<usize, RLWEKeyswitchKey>, n: nat, l: nat, b: int) -> bool {
    forall|i: int| #![trigger trace_k(n as int, i)] 1 <= i && pow2(i as nat) <= n ==> {
        let k = trace_k(n as int, i) as usize;
        m.contains_key(k) && m[k].wf() && m[k].n() == n && m[k].l() == l && m[k].b() == b && m[k].subs_k == k
    }
}
pub open spec fn map_l(m: Map<usize, RLWEKeyswitchKey>, n: nat) -> nat { m[(n + 1) as usize].l() }
pub open spec fn map_b(m: Map<usize, RLWEKeyswitchKey>, n: nat) -> int { m[(n + 1) as usize].b() }
pub open spec fn lg(n: nat) -> nat { choose|k: nat| n == pow2(k) }
pub proof fn lemma_lg(n: nat, r: int)
    requires is_pow2(n), crate::utils::is_log2(n as int, r),
    ensures r == lg(n), n == pow2(lg(n)),
{ crate::utils::lemma_log2_pow2(n as int, r, lg(n)); }
pub open spec fn is_tkey(h: RLWEKeyswitchKey, k: int, n: nat, l: nat, b: int, s: Seq<u64>, e: int) -> bool { h.wf() && h.n() == n && h.l() == l && h.b() == b && h.subs_k == k && is_ksk(h.rows(), pev(s, k), s, b, e) }
// each ciphertext traced
pub open spec fn traced(m: Map<usize, RLWEKeyswitchKey>, n: nat, cs: Seq<Seq<u64>>) -> Seq<Seq<u64>> { Seq::new(cs.len(), |i: int| trace_acc(rowmap(m), n, map_b(m, n), cs[i], lg(n))) }
// the constant coefficient of each ciphertext packed back into a ring ciphertext
pub open spec fn packed(gs: Seq<Seq<u64>>, n: nat, l: nat, b: int, cs: Seq<Seq<u64>>) -> Seq<Seq<u64>> { Seq::new(cs.len(), |i: int| conv_out(gs, n, l, b, sample_extract(cs[i], n, 0))) }
// the constant coefficient of what c encrypts is v, up to e
pub open spec fn enc_scaled(c: Seq<u64>, s: Seq<u64>, v: u64, e: int) -> bool { cd(phase(c, s)[0], v) <= e }
pub proof fn lemma_bit_shl(bit: u64, k: usize)
    requires k < 64, bit <= 1,
    ensures bit << k == wrap(bit * pow2(k as nat)),
{
    lemma_shl1(k); lemma_pow2_64(); if k < 63 { lemma_pow2_strictly_increases(k as nat, 63); }
    let p = pow2(k as nat) as int;
    assert(0 * p == 0 && 1 * p == p);
    if bit == 0 { let z = k as u64; assert(bit << k == 0) by (bit_vector) requires bit == 0; } else { assert(bit == 1); }
    lemma_small_mod((bit * p) as nat, 0x1_0000_0000_0000_0000);
}
#fn RLWECiphertext::allocate
#sig
requires poly_size.0 > 0, 2 * poly_size.0 <= usize::MAX,
ensures r.wf(), r.n() == poly_size.0, r.sv() == pzero(2 * r.n()),
#at start
proof { lemma_mul_mod(2, poly_size.0 as int); }
#at ret
assert(__r.sv() =~= pzero(2 * __r.n()));
#fn RLWECiphertext::polynomial_size
#sig
ensures r == self.0.poly_size,
#fn RLWECiphertext::get_body
#sig
requires self.wf(),
ensures r.sv() == self.body(),
#fn RLWECiphertext::get_mask
#sig
requires self.wf(),
ensures r.sv() == self.mask(), r.poly_size == self.0.poly_size,
#fn RLWECiphertext::get_mut_mask
#sig
requires old(self).wf(),
ensures r.sv() == old(self).mask(), r.poly_size == old(self).0.poly_size, r.fut().len() == old(self).n(),
  final(self).0.poly_size == old(self).0.poly_size, final(self).sv() == r.fut() + old(self).body(),
#fn RLWECiphertext::get_mut_body
#sig
requires old(self).wf(),
ensures r.sv() == old(self).body(), r.fut().len() == old(self).n(),
  final(self).0.poly_size == old(self).0.poly_size, final(self).sv() == old(self).mask() + r.fut(),
#fn RLWECiphertext::clear
#sig
requires old(self).wf(),
ensures final(self).wf(), final(self).0.poly_size == old(self).0.poly_size, final(self).sv() == pzero(2 * old(self).n()),
#at ret
assert(self.sv() =~= pzero(2 * old(self).n()));
#fn RLWECiphertext::fill_with_copy
#sig
requires old(self).wf(), other.wf(), other.n() == old(self).n(),
ensures final(self).wf(), final(self).0.poly_size == old(self).0.poly_size, final(self).sv() == other.sv(),
#fn RLWECiphertext::fill_with_tensor
#sig
requires old(self).wf(), t.sv().len() == 2 * old(self).n(),
ensures final(self).wf(), final(self).0.poly_size == old(self).0.poly_size, final(self).sv() == t.sv(),
#fn RLWECiphertext::update_mask_with_add
#sig
requires old(self).wf(), other.sv().len() == old(self).n(),
ensures final(self).wf(), final(self).0.poly_size == old(self).0.poly_size, final(self).sv() == padd(old(self).mask(), other.sv()) + old(self).body(),
#fn RLWECiphertext::update_mask_with_sub
#sig
requires old(self).wf(), other.sv().len() == old(self).n(),
ensures final(self).wf(), final(self).0.poly_size == old(self).0.poly_size, final(self).sv() == psub(old(self).mask(), other.sv()) + old(self).body(),
#fn RLWECiphertext::update_mask_with_mul
#sig
requires old(self).wf(), other.sv().len() == old(self).n(),
ensures final(self).wf(), final(self).0.poly_size == old(self).0.poly_size, final(self).sv() == pmul(old(self).mask(), other.sv()) + old(self).body(),
#fn RLWECiphertext::update_mask_with_mul_with_buf
#sig
requires old(self).wf(), other.sv().len() == old(self).n(), fft_size(old(self).n()),
ensures final(self).wf(), final(self).0.poly_size == old(self).0.poly_size, final(self).sv() == pmul(old(self).mask(), other.sv()) + old(self).body(),
#fn RLWECiphertext::update_body_with_add
#sig
requires old(self).wf(), other.sv().len() == old(self).n(),
ensures final(self).wf(), final(self).0.poly_size == old(self).0.poly_size, final(self).sv() == old(self).mask() + padd(old(self).body(), other.sv()),
#fn RLWECiphertext::update_body_with_sub
#sig
requires old(self).wf(), other.sv().len() == old(self).n(),
ensures final(self).wf(), final(self).0.poly_size == old(self).0.poly_size, final(self).sv() == old(self).mask() + psub(old(self).body(), other.sv()),
#fn RLWECiphertext::update_body_with_mul
#sig
requires old(self).wf(), other.sv().len() == old(self).n(),
ensures final(self).wf(), final(self).0.poly_size == old(self).0.poly_size, final(self).sv() == old(self).mask() + pmul(old(self).body(), other.sv()),
#fn RLWECiphertext::update_body_with_mul_with_buf
#sig
requires old(self).wf(), other.sv().len() == old(self).n(), fft_size(old(self).n()),
ensures final(self).wf(), final(self).0.poly_size == old(self).0.poly_size, final(self).sv() == old(self).mask() + pmul(old(self).body(), other.sv()),
#fn RLWECiphertext::update_with_add
#sig
requires old(self).wf(), other.wf(), old(self).n() == other.n(),
ensures final(self).wf(), final(self).0.poly_size == old(self).0.poly_size, final(self).sv() == padd(old(self).sv(), other.sv()),
#at ret
assert(self.sv() =~= padd(old(self).sv(), other.sv()));
#fn RLWECiphertext::update_with_sub
#sig
requires old(self).wf(), other.wf(), old(self).n() == other.n(),
ensures final(self).wf(), final(self).0.poly_size == old(self).0.poly_size, final(self).sv() == psub(old(self).sv(), other.sv()),
#at ret
assert(self.sv() =~= psub(old(self).sv(), other.sv()));
#fn RLWECiphertext::update_with_monomial_div
#sig
requires old(self).wf(), m.0 < old(self).n(),
ensures final(self).wf(), final(self).0.poly_size == old(self).0.poly_size,
  final(self).sv() == pdivmono(old(self).mask(), m.0 as int) + pdivmono(old(self).body(), m.0 as int),
#fn RLWECiphertext::trace1
#sig
requires self.wf(), fft_size(self.n()), self.n() <= 0x8000_0000, tmap_wf(ksk_map@, self.n(), map_l(ksk_map@, self.n()), map_b(ksk_map@, self.n())), 0 < map_b(ksk_map@, self.n()) * map_l(ksk_map@, self.n()) < 64,
ensures r.wf(), r.n() == self.n(), r.sv() == trace_acc(rowmap(ksk_map@), self.n(), map_b(ksk_map@, self.n()), self.sv(), lg(self.n())),
#at loop0.before
let ghost (__l, __b) = (map_l(ksk_map@, self.n()), map_b(ksk_map@, self.n()));
#loop 0
invariant is_log2(n as int, __n0 as int), out.wf(), out.n() == n, buf.wf(), buf.n() == n,
  out.sv() == trace_acc(rowmap(ksk_map@), self.n(), __b, self.sv(), __k0 as nat),
#at loop0.begin
let ghost __o = out.sv();
proof {
    let m = (__j0 + 1) as nat; lemma_lg(n as nat, __n0 as int);
    assert(__n0 < 64) by { lemma_pow2_64(); if __n0 >= 63 { if __n0 > 63 { lemma_pow2_strictly_increases(63, __n0 as nat); } } }
    if m < __n0 { lemma_pow2_strictly_increases(m, __n0 as nat); }
    l_trace_k(n as int, m as int);
    lemma_shl1u(__j0 as usize); lemma_pow2_pos(__j0 as nat);
    let k = trace_k(n as int, m as int);
    assert(n * k <= usize::MAX) by (nonlinear_arith) requires n <= 0x8000_0000, k <= n + 1, k >= 0;
}
#at after:subs#0
proof {
    let kk = ksk.subs_k as int;
    let c = choose|c: Seq<u64>| #[trigger] is_pev_ct(c, __o, self.n(), kk) && buf.sv() == ks_out(ksk.rows(), self.n(), __b, c);
    l_gpev(c, __o, self.n(), kk);
}
#at loop0.after
proof { lemma_lg(n as nat, __n0 as int); }
#fn RLWECiphertext::trace1_fourier
#sig
requires self.wf(), old(out).wf(), old(out).n() == self.n(), fft_size(self.n()), self.n() <= 0x8000_0000, ftmap_wf(ksk_map@, self.n(), fmap_l(ksk_map@, self.n()), fmap_b(ksk_map@, self.n())), 0 < fmap_b(ksk_map@, self.n()) * fmap_l(ksk_map@, self.n()) < 64,
ensures final(out).wf(), final(out).n() == self.n(), final(out).sv() == trace_acc(frowmap(ksk_map@), self.n(), fmap_b(ksk_map@, self.n()), self.sv(), lg(self.n())),
#at loop0.before
let ghost (__l, __b) = (fmap_l(ksk_map@, self.n()), fmap_b(ksk_map@, self.n()));
#loop 0
invariant is_log2(n as int, __n0 as int), out.wf(), out.n() == n, buf_fourier.shape(n as nat),
  out.sv() == trace_acc(frowmap(ksk_map@), self.n(), __b, self.sv(), __k0 as nat),
#at loop0.begin
let ghost __o = out.sv();
proof {
    let m = (__j0 + 1) as nat; lemma_lg(n as nat, __n0 as int);
    assert(__n0 < 64) by { lemma_pow2_64(); if __n0 >= 63 { if __n0 > 63 { lemma_pow2_strictly_increases(63, __n0 as nat); } } }
    if m < __n0 { lemma_pow2_strictly_increases(m, __n0 as nat); }
    l_trace_k(n as int, m as int);
    lemma_shl1u(__j0 as usize); lemma_pow2_pos(__j0 as nat);
    let k = trace_k(n as int, m as int);
    assert(n * k <= usize::MAX) by (nonlinear_arith) requires n <= 0x8000_0000, k <= n + 1, k >= 0;
}
#at after:subs#0
let ghost __v = buf_fourier.val();
proof {
    let kk = ksk.subs_k as int;
    let c = choose|c: Seq<u64>| #[trigger] is_pev_ct(c, __o, self.n(), kk) && __v == ks_out(ksk.rows(), self.n(), __b, c);
    l_gpev(c, __o, self.n(), kk);
    l_ks_len(ksk.rows(), self.n(), __b, c, ksk.rows().len());
    lemma_join(__v, self.n()); lemma_join(__o, self.n());
}
#at loop0.end
proof { assert(mask_of(padd(__o, __v), self.n()) =~= padd(mask_of(__o, self.n()), mask_of(__v, self.n()))); assert(out.sv() =~= padd(__o, __v)); }
#at loop0.after
proof { lemma_lg(n as nat, __n0 as int); }
#fn RLWECiphertext::less_eq_than
#sig
requires old(self).wf(), fft_size(old(self).n()), d < old(self).n(),
ensures final(self).wf(), final(self).0.poly_size == old(self).0.poly_size,
  final(self).sv() == pmul(old(self).mask(), leq_poly(old(self).n(), d as int)) + pmul(old(self).body(), leq_poly(old(self).n(), d as int)),
#loop 0
invariant t@.len() == n, __n0 == d, __sk0 == n - d,
  forall|i: int| 0 <= i < n ==> t@[i] == if i == 0 { 1u64 } else if n - d <= i < __sk0 + __k0 { u64::MAX } else { 0u64 },
#at after:let:t_poly#0
assert(t_poly.sv() =~= leq_poly(n as nat, d as int));
let ghost (__m, __b) = (self.mask(), self.body());
proof { lemma_split(self.mask() + pmul(__b, t_poly.sv()), __m, pmul(__b, t_poly.sv()), n as nat); }
#fn RLWECiphertext::eq_to
#sig
requires old(self).wf(), fft_size(old(self).n()), d < old(self).n(),
ensures final(self).wf(), final(self).0.poly_size == old(self).0.poly_size,
  final(self).sv() == pmul(old(self).mask(), eq_poly(old(self).n(), d as int)) + pmul(old(self).body(), eq_poly(old(self).n(), d as int)),
#at after:let:t_poly#0
assert(t_poly.sv() =~= eq_poly(n as nat, d as int));
let ghost (__m, __b) = (self.mask(), self.body());
proof { lemma_split(self.mask() + pmul(__b, t_poly.sv()), __m, pmul(__b, t_poly.sv()), n as nat); }
#fn RLWECiphertext::not_in_place
#sig
requires old(self).wf(),
ensures final(self).wf(), final(self).0.poly_size == old(self).0.poly_size, final(self).sv() == notct(old(self).sv(), old(self).n()),
#at start
assert(1u64 << 63u32 == 0x8000_0000_0000_0000u64) by (bit_vector);
#loop 0
invariant self.wf(), self.0.poly_size == old(self).0.poly_size, __n0 == 2 * old(self).n(),
  forall|i: int| 0 <= i < __k0 ==> self.sv()[i] == wneg(old(self).sv()[i]),
  forall|i: int| __k0 <= i < __n0 ==> self.sv()[i] == old(self).sv()[i],
#at loop0.begin
let ghost __p = self.sv();
#at loop0.end
assert(self.sv() =~= __p.update(__j0 as int, wneg(__p[__j0 as int])));
#at ret
assert(self.sv() =~= notct(old(self).sv(), old(self).n()));
#fn RLWECiphertext::not
#sig
requires self.wf(),
ensures r.wf(), r.0.poly_size == self.0.poly_size, r.sv() == notct(self.sv(), self.n()),
#at start
assert(1u64 << 63u32 == 0x8000_0000_0000_0000u64) by (bit_vector);
#at ret
assert(__r.sv() =~= notct(self.sv(), self.n()));
#fn RLWESecretKey::generate_binary
#sig
requires poly_size.0 > 0, 2 * poly_size.0 <= usize::MAX,
ensures r.wf(), r.n() == poly_size.0, is_bin(r.sv()), final(generator).root() == old(generator).root(),
#fn RLWESecretKey::zero
#sig
requires poly_size.0 > 0, 2 * poly_size.0 <= usize::MAX,
ensures r.wf(), r.n() == poly_size.0, r.sv() == pzero(r.n()),
#at start
proof { lemma_fundamental_div_mod_converse(poly_size.0 as int, poly_size.0 as int, 1, 0); }
#at ret
assert(__r.sv() =~= pzero(__r.n()));
#fn RLWESecretKey::fill_with_tensor
#sig
requires old(self).swf(), t.sv().len() == old(self).n(),
ensures final(self).swf(), final(self).n() == old(self).n(), final(self).sv() == t.sv(),
#fn RLWESecretKey::encode_encrypt_rlwe
#sig
requires self.wf(), old(encrypted).wf(), old(encrypted).n() == self.n(), pt.sv().len() == self.n(), old(ctx).wf(),
ensures final(encrypted).wf(), final(encrypted).n() == old(encrypted).n(), fresh(final(encrypted).sv(), self.sv(), old(ctx).encryption_generator.root(), old(ctx).encryption_generator.ctr()),
    forall|i: int| 0 <= i < pt.sv().len() ==> (#[trigger] pt.sv()[i]) < old(ctx).codec.t(),
    near(final(encrypted).ph(self), old(ctx).codec.penc(pt.sv()), old(ctx).std.nb() as int),
    final(ctx).same(old(ctx)), final(ctx).secret_generator == old(ctx).secret_generator, final(ctx).random_generator == old(ctx).random_generator,
    final(ctx).encryption_generator.root() == old(ctx).encryption_generator.root(), final(ctx).encryption_generator.ctr() == old(ctx).encryption_generator.ctr() + 1,
#at start
let ghost __c0 = *ctx;
#fn RLWESecretKey::ternary_encrypt_rlwe
#sig
requires self.wf(), old(encrypted).wf(), old(encrypted).n() == self.n(), pt.sv().len() == self.n(),
ensures final(encrypted).wf(), final(encrypted).n() == old(encrypted).n(), fresh(final(encrypted).sv(), self.sv(), old(ctx).encryption_generator.root(), old(ctx).encryption_generator.ctr()), crate::codec::all_tern(pt.sv()),
    near(final(encrypted).ph(self), crate::codec::ptern_enc(pt.sv()), old(ctx).std.nb() as int),
    final(ctx).same(old(ctx)), final(ctx).secret_generator == old(ctx).secret_generator, final(ctx).random_generator == old(ctx).random_generator,
    final(ctx).encryption_generator.root() == old(ctx).encryption_generator.root(), final(ctx).encryption_generator.ctr() == old(ctx).encryption_generator.ctr() + 1,
#fn RLWESecretKey::encrypt_rlwe
#sig
requires self.wf(), old(encrypted).wf(), old(encrypted).n() == self.n(), pt.sv().len() == self.n(),
ensures final(encrypted).wf(), final(encrypted).n() == old(encrypted).n(), near(final(encrypted).ph(self), pt.sv(), noise_parameter.nb() as int),
    fresh(final(encrypted).sv(), self.sv(), old(generator).root(), old(generator).ctr()),
    final(generator).root() == old(generator).root(), final(generator).ctr() == old(generator).ctr() + 1,
#fn RLWESecretKey::encrypt_constant_rlwe
#sig
requires self.wf(), old(encrypted).wf(), old(encrypted).n() == self.n(), old(ctx).n() == self.n(),
ensures final(encrypted).wf(), final(encrypted).n() == old(encrypted).n(), fresh(final(encrypted).sv(), self.sv(), old(ctx).encryption_generator.root(), old(ctx).encryption_generator.ctr()),
    near(final(encrypted).ph(self), pconst(self.n(), pt.0), old(ctx).std.nb() as int),
    final(ctx).same(old(ctx)), final(ctx).secret_generator == old(ctx).secret_generator, final(ctx).random_generator == old(ctx).random_generator,
    final(ctx).encryption_generator.root() == old(ctx).encryption_generator.root(), final(ctx).encryption_generator.ctr() == old(ctx).encryption_generator.ctr() + 1,
#at before:encrypt_glwe#0
assert(encoded.sv() =~= pconst(self.n(), pt.0));
#fn RLWESecretKey::decrypt_rlwe
#sig
requires self.wf(), encrypted.wf(), encrypted.n() == self.n(), old(pt).sv().len() == self.n(),
ensures final(pt).sv() == encrypted.ph(self),
#fn RLWESecretKey::decrypt_decode_rlwe
#sig
requires self.wf(), encrypted.wf(), encrypted.n() == self.n(), old(pt).sv().len() == self.n(), ctx.wf(),
ensures final(pt).sv() == ctx.codec.pdec(encrypted.ph(self)),
#fn RLWESecretKey::ternary_decrypt_rlwe
#sig
requires self.wf(), encrypted.wf(), encrypted.n() == self.n(), old(pt).sv().len() == self.n(),
ensures final(pt).sv() == crate::codec::ptern_dec(encrypted.ph(self)),
#fn RLWESecretKey::encrypt_constant_rgsw
#sig
requires self.wf(), old(out).wf(), old(out).n() == self.n(), old(out).b() > 0, old(out).b() * old(out).l() <= 64,
ensures final(out).wf(), final(out).0.poly_size == old(out).0.poly_size, final(out).0.base_log == old(out).0.base_log, final(out).0.levels == old(out).0.levels,
    is_rgsw(final(out).sv(), self.n(), final(out).l(), final(out).b(), self.sv(), pconst(self.n(), pt.0), old(ctx).std.nb() as int),
    final(out).l() > 0 ==> fresh(final(out).sv(), self.sv(), old(ctx).encryption_generator.root(), old(ctx).encryption_generator.ctr()),
    final(ctx).same(old(ctx)), final(ctx).secret_generator == old(ctx).secret_generator, final(ctx).random_generator == old(ctx).random_generator,
    final(ctx).encryption_generator.root() == old(ctx).encryption_generator.root(), final(ctx).encryption_generator.ctr() == old(ctx).encryption_generator.ctr() + 1,
#fn RLWESecretKey::encrypt_rgsw
#sig
requires self.wf(), old(out).wf(), old(out).n() == self.n(), old(out).b() > 0, old(out).b() * old(out).l() <= 64, encoded.sv().len() == self.n(), old(ctx).n() == self.n(),
ensures final(out).wf(), final(out).0.poly_size == old(out).0.poly_size, final(out).0.base_log == old(out).0.base_log, final(out).0.levels == old(out).0.levels,
    is_rgsw(final(out).sv(), self.n(), final(out).l(), final(out).b(), self.sv(), encoded.sv(), old(ctx).std.nb() as int),
    final(ctx).same(old(ctx)), final(ctx).secret_generator == old(ctx).secret_generator, final(ctx).random_generator == old(ctx).random_generator,
    final(ctx).encryption_generator.root() == old(ctx).encryption_generator.root(), final(ctx).encryption_generator.ctr() == old(ctx).encryption_generator.ctr() + 1,
#at loop0.before
let ghost __g = out.sv();
proof { if out.l() > 0 { crate::rgsw::lemma_rows(__g, self.n(), out.l(), 0); } else { assert(__g.len() == 0) by (nonlinear_arith) requires __g.len() == 2 * out.l() * (2 * out.n()), out.l() == 0; } }
#loop 0
invariant __n0 == 2 * out.l(), out.wf(), out.0.poly_size == old(out).0.poly_size, out.0.base_log == old(out).0.base_log, out.0.levels == old(out).0.levels,
  out.sv().len() == __g.len(), base_log == out.b(), buf.sv().len() == self.n(),
  is_rgsw(__g, self.n(), out.l(), out.b(), self.sv(), pconst(self.n(), 0), old(ctx).std.nb() as int),
  forall|k: int| 0 <= k < __k0 ==> #[trigger] row(out.sv(), self.n(), k) == crate::rl::rgsw_shift(row(__g, self.n(), k), self.n(), k, encoded.sv(), base_log as int),
  forall|k: int| __k0 <= k < __n0 ==> #[trigger] row(out.sv(), self.n(), k) == row(__g, self.n(), k),
#at loop0.begin
let ghost __o = out.sv();
proof {
    crate::rl::l_rowlen(__o, self.n(), 2 * out.l(), __j0 as int);
    assert(base_log * (__j0 / 2 + 1) <= base_log * out.l()) by (nonlinear_arith) requires __j0 / 2 + 1 <= out.l(), base_log >= 0;
    assert(base_log * (__j0 / 2 + 1) >= 1) by (nonlinear_arith) requires base_log >= 1;
}
#at after:let:shift#0
broadcast use lemma_shl1;
#at loop0.end
proof {
    let f = crate::rl::rgsw_shift(row(__g, self.n(), __j0 as int), self.n(), __j0 as int, encoded.sv(), base_log as int);
    assert(out.sv() =~= crate::rl::rowset(__o, self.n(), __j0 as int, f));
    assert forall|k: int| 0 <= k < __n0 implies #[trigger] row(out.sv(), self.n(), k) == if k == __j0 { f } else { row(__o, self.n(), k) } by {
        crate::rl::l_rowset(__o, self.n(), 2 * out.l(), __j0 as int, f, k);
    }
}
#at loop0.after
proof { crate::rl::l_rgsw_plain(__g, out.sv(), self.n(), out.l(), out.b(), self.sv(), encoded.sv(), old(ctx).std.nb() as int); }
#fn RLWESecretKey::encrypt_constant_rgsw_vec
#opt lty0=RGSWCiphertext
#sig
requires self.wf(), old(ctx).n() == self.n(), old(ctx).wf(), old(ctx).base_log.0 > 0, old(ctx).level_count.0 > 0, old(ctx).base_log.0 * old(ctx).level_count.0 <= 64,
ensures r@.len() == v@.len(),
    forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).wf() && r@[i].0.poly_size == old(ctx).poly_size && r@[i].0.base_log == old(ctx).base_log && r@[i].0.levels == old(ctx).level_count
        && is_rgsw(r@[i].sv(), self.n(), r@[i].l(), r@[i].b(), self.sv(), pconst(self.n(), v@[i].0), old(ctx).std.nb() as int)
        && fresh(r@[i].sv(), self.sv(), old(ctx).encryption_generator.root(), old(ctx).encryption_generator.ctr() + i as nat),
    final(ctx).same(old(ctx)), final(ctx).secret_generator == old(ctx).secret_generator, final(ctx).random_generator == old(ctx).random_generator,
    final(ctx).encryption_generator.root() == old(ctx).encryption_generator.root(), final(ctx).encryption_generator.ctr() == old(ctx).encryption_generator.ctr() + v@.len(),
#loop 0
invariant __n0 == v@.len(), ctx.same(old(ctx)), ctx.secret_generator == old(ctx).secret_generator, ctx.random_generator == old(ctx).random_generator,
  ctx.encryption_generator.root() == old(ctx).encryption_generator.root(), ctx.encryption_generator.ctr() == old(ctx).encryption_generator.ctr() + __k0,
  forall|i: int| 0 <= i < __k0 ==> (#[trigger] __c0@[i]).wf() && __c0@[i].0.poly_size == old(ctx).poly_size && __c0@[i].0.base_log == old(ctx).base_log && __c0@[i].0.levels == old(ctx).level_count
        && is_rgsw(__c0@[i].sv(), self.n(), __c0@[i].l(), __c0@[i].b(), self.sv(), pconst(self.n(), v@[i].0), old(ctx).std.nb() as int)
        && fresh(__c0@[i].sv(), self.sv(), old(ctx).encryption_generator.root(), old(ctx).encryption_generator.ctr() + i as nat),
#fn RLWESecretKey::polynomial_size
#sig
ensures r == self.0.poly_size,
#fn RLWESecretKey::neg_gsw
#sig
requires self.wf(), is_bin(self.sv()), old(ctx).n() == self.n(), old(ctx).negs_base_log.0 > 0, old(ctx).negs_base_log.0 * old(ctx).negs_level_count.0 <= 64,
ensures r.wf(), r.0.poly_size == old(ctx).poly_size, r.0.base_log == old(ctx).negs_base_log, r.0.levels == old(ctx).negs_level_count,
    is_rgsw(r.sv(), self.n(), r.l(), r.b(), self.sv(), pneg(self.sv()), old(ctx).std.nb() as int),
    final(ctx).same(old(ctx)), final(ctx).secret_generator == old(ctx).secret_generator, final(ctx).random_generator == old(ctx).random_generator,
    final(ctx).encryption_generator.root() == old(ctx).encryption_generator.root(), final(ctx).encryption_generator.ctr() == old(ctx).encryption_generator.ctr() + 1,
#loop 0
invariant __n0 == self.n(), pt.sv().len() == __n0,
  forall|i: int| 0 <= i < __k0 ==> pt.sv()[i] == wneg(self.sv()[i]),
#at loop0.begin
assert(self.sv()[__j0 as int] == 0 || self.sv()[__j0 as int] == 1);
#at loop0.after
assert(pt.sv() =~= pneg(self.sv()));
#fn RLWEKeyswitchKey::allocate
#sig
requires polynomial_size.0 > 0, 2 * polynomial_size.0 <= usize::MAX,
ensures r.wf(), r.decomp_base_log == decomp_base_log, r.decomp_level_count == decomp_level_count, r.polynomial_size == polynomial_size, r.subs_k == 0,
#fn RLWEKeyswitchKey::decomposition_base_log
#sig
ensures r == self.decomp_base_log,
#fn RLWEKeyswitchKey::decomposition_level_count
#sig
ensures r == self.decomp_level_count,
#fn RLWEKeyswitchKey::polynomial_size
#sig
ensures r == self.polynomial_size,
#fn RLWEKeyswitchKey::fill_with_subs_keyswitch_key
#sig
requires old(self).wf(), old(before_key).swf(), after_key.wf(), old(before_key).n() == old(self).n(), after_key.n() == old(self).n(), old(self).b() > 0, old(self).b() * old(self).l() <= 64,
    k % 2 == 1, is_pow2(old(self).n()), old(self).n() * k <= usize::MAX,
ensures final(self).wf(), final(self).decomp_base_log == old(self).decomp_base_log, final(self).decomp_level_count == old(self).decomp_level_count, final(self).polynomial_size == old(self).polynomial_size,
    final(self).subs_k == k, final(before_key).swf(), final(before_key).n() == old(self).n(), is_pev(final(before_key).sv(), after_key.sv(), k as int),
    final(self).is_key(final(before_key).sv(), after_key.sv(), noise_parameters.nb() as int),
    final(generator).root() == old(generator).root(), final(generator).ctr() == old(generator).ctr() + old(self).l(),
#fn RLWEKeyswitchKey::fill_with_keyswitch_key
#sig
requires old(self).wf(), before_key.swf(), after_key.wf(), before_key.n() == old(self).n(), after_key.n() == old(self).n(), old(self).b() > 0, old(self).b() * old(self).l() <= 64,
ensures final(self).wf(), final(self).decomp_base_log == old(self).decomp_base_log, final(self).decomp_level_count == old(self).decomp_level_count, final(self).polynomial_size == old(self).polynomial_size,
    final(self).subs_k == 0, final(self).is_key(before_key.sv(), after_key.sv(), noise_parameters.nb() as int),
    final(generator).root() == old(generator).root(), final(generator).ctr() == old(generator).ctr() + old(self).l(),
#at start
broadcast use lemma_shl1;
#loop 0
invariant __n0 == old(self).l(), self.decomp_base_log == old(self).decomp_base_log, self.decomp_level_count == old(self).decomp_level_count, self.polynomial_size == old(self).polynomial_size,
  self.wf(), buf.sv().len() == self.n(), decomp_base_log == self.b(), generator.root() == old(generator).root(), generator.ctr() == old(generator).ctr() + __k0,
  forall|j: int| 0 <= j < __k0 ==> near(phase((#[trigger] self.ksks@[j]).sv(), after_key.sv()), pscale(before_key.sv(), gad(self.b(), j + 1)), noise_parameters.nb() as int),
#at loop0.begin
assert(decomp_base_log * (__j0 + 1) <= decomp_base_log * __n0) by (nonlinear_arith) requires __j0 + 1 <= __n0, decomp_base_log >= 0;
assert(decomp_base_log * (__j0 + 1) >= 1) by (nonlinear_arith) requires decomp_base_log >= 1, __j0 >= 0;
#fn RLWEKeyswitchKey::into_fourier
#opt lty0=FourierRLWECiphertext
#sig
requires self.wf(), fft_size(self.n()),
ensures r.wf(), r.rows() =~= self.rows(), r.decomp_base_log == self.decomp_base_log, r.decomp_level_count == self.decomp_level_count, r.polynomial_size == self.polynomial_size, r.subs_k == self.subs_k,
#loop 0
invariant __n0 == self.ksks@.len(), forall|i: int| 0 <= i < __k0 ==> #[trigger] is_fct(__c0@[i], self.ksks@[i].sv(), self.n()),
#at loop0.begin
proof { assert(self.ksks@[__j0 as int].wf()); lemma_join(self.ksks@[__j0 as int].sv(), self.n()); }
#at ret
proof {
    assert forall|i: int| 0 <= i < self.ksks@.len() implies (#[trigger] __r.ksks@[i]).val() == self.ksks@[i].sv() && is_fct(__r.ksks@[i], __r.ksks@[i].val(), self.n()) by {
        assert(self.ksks@[i].wf()); assert(is_fct(__r.ksks@[i], self.ksks@[i].sv(), self.n())); lemma_fct(__r.ksks@[i], self.ksks@[i].sv(), self.n());
    }
}
#fn RLWEKeyswitchKey::keyswitch_ciphertext
#sig
requires self.wf(), old(after).wf(), before.wf(), old(after).n() == self.n(), before.n() == self.n(), fft_size(self.n()), 0 < self.b() * self.l() < 64,
ensures final(after).wf(), final(after).n() == old(after).n(), final(after).sv() == ks_out(self.rows(), self.n(), self.b(), before.sv()),
#at loop0.before
let ghost __d = before.sv();
proof {
    assert(self.b() * self.l() == self.decomp_base_log.0 * self.decomp_level_count.0);
    assert(padd(body_of(pzero(2 * self.n()), self.n()), before.body()) =~= before.body());
    assert(mask_of(pzero(2 * self.n()), self.n()) =~= pzero(self.n()));
    lemma_join(__d, self.n());
}
assert(after.sv() =~= ks_acc(self.rows(), self.n(), self.b(), __d, 0));
#loop 0
invariant __n0 == self.l(), after.wf(), after.n() == self.n(), poly_mask.sv().len() == self.n(), poly_body.sv().len() == self.n(),
  decomposed_mask.at(self.b(), self.l() as int, pclosest(self.b(), self.l() as int, mask_of(__d, self.n())), self.l() - __k0),
  after.sv() == ks_acc(self.rows(), self.n(), self.b(), __d, __k0 as nat),
#at loop0.begin
let ghost __o = after.sv();
proof { let z = self.l() - 1 - __j0; assert(self.rows()[z] == self.ksks@[z].sv()); assert(self.ksks@[z].wf()); lemma_join(__o, self.n()); lemma_join(self.ksks@[z].sv(), self.n()); }
#at loop0.end
proof {
    let r = self.rows()[self.l() - __k0];
    let dg = pdigit(self.b(), self.l() as int, mask_of(__d, self.n()), self.l() - __k0 + 1);
    assert(dg =~= pdigit0(self.b(), self.l() as int, pclosest(self.b(), self.l() as int, mask_of(__d, self.n())), self.l() - __k0 + 1));
    let (x, y) = (pmul(mask_of(r, self.n()), dg), pmul(body_of(r, self.n()), dg));
    l_zero_unit(x); l_zero_unit(y);
    assert(poly_mask.sv() =~= x);
    assert(poly_body.sv() =~= y);
    assert(after.sv() =~= psub(__o, gmul(r, self.n(), dg)));
}
#fn RLWEKeyswitchKey::subs
#sig
requires self.wf(), old(after).wf(), before.wf(), old(after).n() == self.n(), before.n() == self.n(), fft_size(self.n()), 0 < self.b() * self.l() < 64,
    self.subs_k % 2 == 1, self.n() * self.subs_k <= usize::MAX,
ensures final(after).wf(), final(after).n() == old(after).n(), is_subs_out(final(after).sv(), self.rows(), self.n(), self.b(), self.subs_k as int, before.sv()),
#at after:fill_with_copy#1
proof { lemma_split(c.sv(), c_mask_k.sv(), before.body(), self.n()); }
#at ret
assert(is_pev_ct(c.sv(), before.sv(), self.n(), k as int)) by { lemma_split(c.sv(), c_mask_k.sv(), c_body_k.sv(), self.n()); }
#fn RLWEKeyswitchKey::get_keyswitch_key
#sig
ensures *r == self.ksks,
#fn RLWEKeyswitchKey::get_subs_k
#sig
ensures r == self.subs_k,
#fn FourierRLWECiphertext::new
#sig
ensures r.shape(poly_size as nat), is_zfft(r.mask.data@, poly_size as nat), is_zfft(r.body.data@, poly_size as nat),
#fn FourierRLWECiphertext::backward_as_torus
#sig
requires old(self).body.data@.len() >= 4, is_pow2(2 * old(self).body.data@.len()), 4 * old(self).body.data@.len() <= usize::MAX, old(self).mask.data@.len() == old(self).body.data@.len(),
ensures r.wf(), r.n() == 2 * old(self).body.data@.len(), *final(self) == *old(self),
    forall|v: Seq<u64>| v.len() == 2 * r.n() && #[trigger] is_fct(*old(self), v, r.n()) ==> r.sv() == v,
#at ret
proof {
    let n = __r.n(); let z = pzero(2 * n);
    assert(mask_of(z, n) =~= pzero(n)); assert(body_of(z, n) =~= pzero(n));
    assert forall|v: Seq<u64>| v.len() == 2 * n && #[trigger] is_fct(*old(self), v, n) implies __r.sv() == v by { lemma_join(v, n); l_zero_unit(mask_of(v, n)); l_zero_unit(body_of(v, n)); lemma_join(__r.sv(), n); }
}
#fn FourierRLWEKeyswitchKey::keyswitch_ciphertext
#opt ty:terms=Vec<Polynomial<Vec<Scalar>>>
#sig
requires self.wf(), old(after).shape(self.n()), before.wf(), before.n() == self.n(), fft_size(self.n()), 0 < self.b() * self.l() < 64,
ensures final(after).shape(self.n()), is_fct(*final(after), ks_out(self.rows(), self.n(), self.b(), before.sv()), self.n()), final(after).val() == ks_out(self.rows(), self.n(), self.b(), before.sv()),
#at start
let ghost (__n, __l, __b, __d, __rows) = (self.n(), self.l(), self.b(), before.sv(), self.rows());
let ghost __af = after.body.data@;
proof { assert(__b * __l == self.decomp_base_log.0 * self.decomp_level_count.0); assert(0 * __b == 0 && 0 * __l == 0); assert(__l > 0) by (nonlinear_arith) requires __b * __l > 0, __b >= 0, __l >= 0; lemma_join(__d, __n); }
#loop 0
invariant __n0 == __n / 2, after.mask.data@.len() == __n0, after.body.data@ == __af, forall|i: int| 0 <= i < __k0 ==> (#[trigger] after.mask.data@[i]).slot() == Slot::Zero,
#loop 1
invariant __n1 == __n / 2, is_zfft(after.mask.data@, __n), after.body.data@.len() == __n1, is_fft(second_fourier.data@, body_of(__d, __n)), forall|i: int| 0 <= i < __k1 ==> (#[trigger] after.body.data@[i]).slot() == Slot::Torus(body_of(__d, __n)),
#at loop1.after
proof { assert(is_fft(after.body.data@, body_of(__d, __n))); assert(mask_of(ks_acc(__rows, __n, __b, __d, 0), __n) =~= pzero(__n)); assert(body_of(ks_acc(__rows, __n, __b, __d, 0), __n) =~= body_of(__d, __n)); }
#loop 2
invariant __n2 == __l, decomposed_mask.at(__b as int, __l as int, pclosest(__b, __l as int, mask_of(__d, __n)), __l - __k2),
  terms@.len() == __k2, forall|i: int| 0 <= i < __k2 ==> (#[trigger] terms@[i]).sv() == pneg(pdigit(__b, __l as int, mask_of(__d, __n), __l - i)),
#loop 3
invariant __n3 == __n, __k2 == __j2 + 1, forall|i: int| 0 <= i < __k3 ==> #[trigger] __c3@[i] == wneg(term.tensor.sv()[i]),
#at loop2.end
proof { let i = __j2 as int; assert(terms@[i].sv() =~= pneg(pdigit(__b, __l as int, mask_of(__d, __n), __l - i))) by { assert(pdigit(__b, __l as int, mask_of(__d, __n), __l - i) =~= pdigit0(__b, __l as int, pclosest(__b, __l as int, mask_of(__d, __n)), __l - i)); } }
#at loop4.before
let ghost mut __m: nat = 0;
#loop 4
invariant __m <= __l, terms@.len() == __l, after.shape(__n), first_fourier.data@.len() == __n / 2, second_fourier.data@.len() == __n / 2,
  ksk_iter.obeys_prophetic_iter_laws(), terms_iter.obeys_prophetic_iter_laws(),
  ksk_iter.remaining().len() == __l - __m, terms_iter.remaining().len() == __l - __m,
  forall|i: int| 0 <= i < __l - __m ==> *#[trigger] ksk_iter.remaining()[i] == self.ksks@[__l - 1 - __m - i],
  forall|i: int| 0 <= i < __l - __m ==> *#[trigger] terms_iter.remaining()[i] == terms@[__m + i],
  forall|i: int| 0 <= i < __l ==> (#[trigger] terms@[i]).sv() == pneg(pdigit(__b, __l as int, mask_of(__d, __n), __l - i)),
  is_fz(after.mask.data@, mask_of(ks_acc(__rows, __n, __b, __d, __m), __n)), __m > 0 ==> is_fft(after.mask.data@, mask_of(ks_acc(__rows, __n, __b, __d, __m), __n)), is_fft(after.body.data@, body_of(ks_acc(__rows, __n, __b, __d, __m), __n)),
decreases __l - __m,
#at before:forward_as_integer#0
let ghost (__om, __ob) = (after.mask.data@, after.body.data@);
let ghost (__d1, __d2) = (pdigit(__b, __l as int, mask_of(__d, __n), __l - __m), pdigit(__b, __l as int, mask_of(__d, __n), __l - __m - 1));
let ghost (__i1, __i2) = (__l - 1 - __m, __l - 2 - __m);
#at after:pre_fourier_update_with_two_multiply_accumulate#1
proof {
    let (r1, r2) = (__rows[__i1], __rows[__i2]);
    let (a0, a1, a2) = (ks_acc(__rows, __n, __b, __d, __m), ks_acc(__rows, __n, __b, __d, __m + 1), ks_acc(__rows, __n, __b, __d, __m + 2));
    assert(is_fct(self.ksks@[__i1], self.ksks@[__i1].val(), __n) && is_fct(self.ksks@[__i2], self.ksks@[__i2].val(), __n));
    l_ks_len(__rows, __n, __b, __d, __m); l_ks_len(__rows, __n, __b, __d, __m + 1);
    lemma_fks(a0, r1, __n, __d1); lemma_fks(a1, r2, __n, __d2);
    assert(a1 == psub(a0, gmul(r1, __n, __d1))); assert(a2 == psub(a1, gmul(r2, __n, __d2)));
    lemma_facc2(__om, first.mask.data@, first_fourier.data@, second.mask.data@, second_fourier.data@, after.mask.data@, mask_of(a0, __n), mask_of(r1, __n), pneg(__d1), mask_of(r2, __n), pneg(__d2));
    lemma_facc2(__ob, first.body.data@, first_fourier.data@, second.body.data@, second_fourier.data@, after.body.data@, body_of(a0, __n), body_of(r1, __n), pneg(__d1), body_of(r2, __n), pneg(__d2));
    __m = __m + 2;
}
#at before:forward_as_integer#2
let ghost (__om, __ob) = (after.mask.data@, after.body.data@);
let ghost __d1 = pdigit(__b, __l as int, mask_of(__d, __n), __l - __m);
let ghost __i1 = __l - 1 - __m;
#at after:pre_fourier_update_with_multiply_accumulate#1
proof {
    let r1 = __rows[__i1];
    let (a0, a1) = (ks_acc(__rows, __n, __b, __d, __m), ks_acc(__rows, __n, __b, __d, __m + 1));
    assert(is_fct(self.ksks@[__i1], self.ksks@[__i1].val(), __n));
    l_ks_len(__rows, __n, __b, __d, __m);
    lemma_fks(a0, r1, __n, __d1);
    assert(a1 == psub(a0, gmul(r1, __n, __d1)));
    lemma_facc(__om, first.mask.data@, first_fourier.data@, after.mask.data@, mask_of(a0, __n), mask_of(r1, __n), pneg(__d1));
    lemma_facc(__ob, first.body.data@, first_fourier.data@, after.body.data@, body_of(a0, __n), body_of(r1, __n), pneg(__d1));
    __m = __m + 1;
}
#at ret
proof { let v = ks_acc(__rows, __n, __b, __d, __l); l_ks_len(__rows, __n, __b, __d, __l); assert(is_fct(*after, v, __n)); lemma_fct(*after, v, __n); }
#fn FourierRLWEKeyswitchKey::subs
#sig
requires self.wf(), old(after).shape(self.n()), before.wf(), before.n() == self.n(), fft_size(self.n()), 0 < self.b() * self.l() < 64,
    self.subs_k % 2 == 1, self.n() * self.subs_k <= usize::MAX,
ensures final(after).shape(self.n()), is_fct(*final(after), final(after).val(), self.n()), is_subs_out(final(after).val(), self.rows(), self.n(), self.b(), self.subs_k as int, before.sv()),
#at after:fill_with_copy#1
proof { lemma_split(c.sv(), c_mask_k.sv(), before.body(), self.n()); }
#at ret
assert(is_pev_ct(c.sv(), before.sv(), self.n(), k as int)) by { lemma_split(c.sv(), c_mask_k.sv(), c_body_k.sv(), self.n()); }
#fn FourierRLWEKeyswitchKey::get_subs_k
#sig
ensures r == self.subs_k,
#fn gen_all_subs_ksk
#sig
requires after_key.wf(), old(ctx).wf(), is_pow2(old(ctx).n()), old(ctx).n() <= 0x8000_0000, after_key.n() == old(ctx).n(), old(ctx).ks_base_log.0 > 0, old(ctx).ks_base_log.0 * old(ctx).ks_level_count.0 <= 64,
ensures tmap_wf(r@, old(ctx).n(), old(ctx).ks_level_count.0 as nat, old(ctx).ks_base_log.0 as int),
    is_tksk(rowmap(r@), after_key.sv(), old(ctx).ks_level_count.0 as nat, old(ctx).ks_base_log.0 as int, old(ctx).std.nb() as int),
    final(ctx).same(old(ctx)), final(ctx).secret_generator == old(ctx).secret_generator, final(ctx).random_generator == old(ctx).random_generator,
    final(ctx).encryption_generator.root() == old(ctx).encryption_generator.root(), final(ctx).encryption_generator.ctr() == old(ctx).encryption_generator.ctr() + lg(old(ctx).n()) * old(ctx).ks_level_count.0,
#at loop0.before
let ghost (__n, __l, __b, __s, __e) = (ctx.n(), ctx.ks_level_count.0 as nat, ctx.ks_base_log.0 as int, after_key.sv(), ctx.std.nb() as int);
proof { assert(0 * __l == 0); lemma_lg(__n, __n0 as int); }
#loop 0
invariant is_log2(__n as int, __n0 as int), __n0 == lg(__n), ctx.same(old(ctx)), ctx.secret_generator == old(ctx).secret_generator, ctx.random_generator == old(ctx).random_generator,
  ctx.encryption_generator.root() == old(ctx).encryption_generator.root(), ctx.encryption_generator.ctr() == old(ctx).encryption_generator.ctr() + __k0 * __l,
  dummy_sk.swf(), dummy_sk.n() == __n,
  forall|i: int| #![trigger trace_k(__n as int, i)] 1 <= i <= __k0 ==> hm@.contains_key(trace_k(__n as int, i) as usize) && is_tkey(hm@[trace_k(__n as int, i) as usize], trace_k(__n as int, i), __n, __l, __b, __s, __e),
#at loop0.begin
let ghost __hm = hm@;
proof {
    let m = (__j0 + 1) as nat; lemma_lg(__n, __n0 as int);
    assert(__n0 < 64) by { lemma_pow2_64(); if __n0 >= 63 { if __n0 > 63 { lemma_pow2_strictly_increases(63, __n0 as nat); } } }
    if m < __n0 { lemma_pow2_strictly_increases(m, __n0 as nat); }
    l_trace_k(__n as int, m as int);
    lemma_shl1u(__j0 as usize); lemma_pow2_pos(__j0 as nat);
    let k = trace_k(__n as int, m as int);
    assert(__n * k <= usize::MAX) by (nonlinear_arith) requires __n <= 0x8000_0000, k <= __n + 1, k >= 0;
    assert((__j0 + 1) * __l == __j0 * __l + __l) by (nonlinear_arith);
}
#at before:insert#0
proof { l_pev_uniq(dummy_sk.sv(), __s, k as int); }
#at loop0.end
proof {
    assert forall|i: int| #![trigger trace_k(__n as int, i)] 1 <= i <= __k0 implies hm@.contains_key(trace_k(__n as int, i) as usize) && is_tkey(hm@[trace_k(__n as int, i) as usize], trace_k(__n as int, i), __n, __l, __b, __s, __e) by {
        let q = trace_k(__n as int, i) as usize;
        if pow2(i as nat) <= __n { l_trace_k(__n as int, i); }
        lemma_pow2_pos((i - 1) as nat);
        if i < __k0 { assert(__hm.contains_key(q)); }
    }
}
#at loop0.after
proof {
    assert forall|i: int| #![trigger trace_k(__n as int, i)] 1 <= i && pow2(i as nat) <= __n implies i <= __n0 by { if i > __n0 { lemma_pow2_strictly_increases(__n0 as nat, i as nat); } }
    assert forall|i: int| #![trigger trace_k(__n as int, i)] 1 <= i && pow2(i as nat) <= __n implies trace_k(__n as int, i) <= usize::MAX && 0 <= trace_k(__n as int, i) by { l_trace_k(__n as int, i); }
}
#fn gen_all_subs_ksk_fourier
#sig
requires after_key.wf(), old(ctx).wf(), fft_size(old(ctx).n()), old(ctx).n() <= 0x8000_0000, after_key.n() == old(ctx).n(), old(ctx).ks_base_log.0 > 0, old(ctx).ks_base_log.0 * old(ctx).ks_level_count.0 <= 64,
ensures ftmap_wf(r@, old(ctx).n(), old(ctx).ks_level_count.0 as nat, old(ctx).ks_base_log.0 as int),
    is_tksk(frowmap(r@), after_key.sv(), old(ctx).ks_level_count.0 as nat, old(ctx).ks_base_log.0 as int, old(ctx).std.nb() as int),
    final(ctx).same(old(ctx)), final(ctx).secret_generator == old(ctx).secret_generator, final(ctx).random_generator == old(ctx).random_generator,
    final(ctx).encryption_generator.root() == old(ctx).encryption_generator.root(), final(ctx).encryption_generator.ctr() == old(ctx).encryption_generator.ctr() + lg(old(ctx).n()) * old(ctx).ks_level_count.0,
#at loop0.before
let ghost (__n, __l, __b, __s, __e) = (ctx.n(), ctx.ks_level_count.0 as nat, ctx.ks_base_log.0 as int, after_key.sv(), ctx.std.nb() as int);
proof { assert(0 * __l == 0); lemma_lg(__n, __n0 as int); }
#loop 0
invariant is_log2(__n as int, __n0 as int), __n0 == lg(__n), ctx.same(old(ctx)), ctx.secret_generator == old(ctx).secret_generator, ctx.random_generator == old(ctx).random_generator,
  ctx.encryption_generator.root() == old(ctx).encryption_generator.root(), ctx.encryption_generator.ctr() == old(ctx).encryption_generator.ctr() + __k0 * __l,
  dummy_sk.swf(), dummy_sk.n() == __n,
  forall|i: int| #![trigger trace_k(__n as int, i)] 1 <= i <= __k0 ==> hm@.contains_key(trace_k(__n as int, i) as usize) && is_ftkey(hm@[trace_k(__n as int, i) as usize], trace_k(__n as int, i), __n, __l, __b, __s, __e),
#at loop0.begin
let ghost __hm = hm@;
proof {
    let m = (__j0 + 1) as nat; lemma_lg(__n, __n0 as int);
    assert(__n0 < 64) by { lemma_pow2_64(); if __n0 >= 63 { if __n0 > 63 { lemma_pow2_strictly_increases(63, __n0 as nat); } } }
    if m < __n0 { lemma_pow2_strictly_increases(m, __n0 as nat); }
    l_trace_k(__n as int, m as int);
    lemma_shl1u(__j0 as usize); lemma_pow2_pos(__j0 as nat);
    let k = trace_k(__n as int, m as int);
    assert(__n * k <= usize::MAX) by (nonlinear_arith) requires __n <= 0x8000_0000, k <= __n + 1, k >= 0;
    assert((__j0 + 1) * __l == __j0 * __l + __l) by (nonlinear_arith);
}
#at before:insert#0
proof { l_pev_uniq(dummy_sk.sv(), __s, k as int); }
#at loop0.end
proof {
    assert forall|i: int| #![trigger trace_k(__n as int, i)] 1 <= i <= __k0 implies hm@.contains_key(trace_k(__n as int, i) as usize) && is_ftkey(hm@[trace_k(__n as int, i) as usize], trace_k(__n as int, i), __n, __l, __b, __s, __e) by {
        let q = trace_k(__n as int, i) as usize;
        if pow2(i as nat) <= __n { l_trace_k(__n as int, i); }
        lemma_pow2_pos((i - 1) as nat);
        if i < __k0 { assert(__hm.contains_key(q)); }
    }
}
#at loop0.after
proof {
    assert forall|i: int| #![trigger trace_k(__n as int, i)] 1 <= i && pow2(i as nat) <= __n implies i <= __n0 by { if i > __n0 { lemma_pow2_strictly_increases(__n0 as nat, i as nat); } }
    assert forall|i: int| #![trigger trace_k(__n as int, i)] 1 <= i && pow2(i as nat) <= __n implies trace_k(__n as int, i) <= usize::MAX && 0 <= trace_k(__n as int, i) by { l_trace_k(__n as int, i); }
}
#fn expand
#opt lty0=RLWECiphertext
#sig
requires cs@.len() >= ctx.level_count.0, cs@.len() > 0, all_wf(cs@, ctx.n()), ctx.wf(), fft_size(ctx.n()), ctx.n() <= 0x8000_0000,
    tmap_wf(ksk_map@, ctx.n(), map_l(ksk_map@, ctx.n()), map_b(ksk_map@, ctx.n())), 0 < map_b(ksk_map@, ctx.n()) * map_l(ksk_map@, ctx.n()) < 64,
    neg_s.wf(), neg_s.n() == ctx.n(), 0 < neg_s.b() * neg_s.l() < 64,
ensures r.wf(), r.0.poly_size == ctx.poly_size, r.0.base_log == ctx.base_log, r.0.levels == ctx.level_count,
    is_expanded(r.sv(), ctx.n(), r.l(), traced(ksk_map@, ctx.n(), rows(cs@)), neg_s.sv(), neg_s.b(), neg_s.l()),
#loop 0
invariant __n0 == cs@.len(), buf.n() == ctx.n(), forall|i: int| 0 <= i < __k0 ==> (#[trigger] __c0@[i]).wf() && __c0@[i].n() == ctx.n() && __c0@[i].sv() == traced(ksk_map@, ctx.n(), rows(cs@))[i],
#at loop1.before
let ghost (__n, __l, __nb, __nl, __t) = (ctx.n(), ctx.level_count.0 as nat, neg_s.b(), neg_s.l(), traced(ksk_map@, ctx.n(), rows(cs@)));
let ghost __z = out.sv();
proof { l_rows_zero(__z, __n, 2 * __l); if __l > 0 { crate::rgsw::lemma_rows(__z, __n, __l, 0); } else { assert(__z.len() == 0) by (nonlinear_arith) requires __z.len() == 2 * __l * (2 * __n), __l == 0; } }
#loop 1
invariant __n1 == 2 * __l, out.wf(), out.0.poly_size == ctx.poly_size, out.0.base_log == ctx.base_log, out.0.levels == ctx.level_count, out.sv().len() == 2 * __l * (2 * __n), buf.n() == ctx.n(),
  forall|k: int| 0 <= k < __k1 ==> #[trigger] row(out.sv(), __n, k) == asm_row(neg_s.sv(), __n, __nb, __nl, __t, k),
  forall|k: int| __k1 <= k < __n1 ==> #[trigger] row(out.sv(), __n, k) == pzero(2 * __n),
#at loop1.begin
let ghost __o = out.sv();
proof { crate::rl::l_rowlen(__o, __n, 2 * __l, __j1 as int); assert(cs_prime@[__j1 as int / 2].wf()); l_ep_len(neg_s.sv(), __n, __nb, __nl, __t[__j1 as int / 2], __nl); l_zero_unit(ep(neg_s.sv(), __n, __nb, __nl, __t[__j1 as int / 2])); }
#at loop1.end
proof {
    let f = asm_row(neg_s.sv(), __n, __nb, __nl, __t, __j1 as int);
    assert(out.sv() =~= crate::rl::rowset(__o, __n, __j1 as int, f));
    assert forall|k: int| 0 <= k < __n1 implies #[trigger] row(out.sv(), __n, k) == if k == __j1 { f } else { row(__o, __n, k) } by { crate::rl::l_rowset(__o, __n, 2 * __l, __j1 as int, f, k); }
}
#at loop1.after
proof { l_assembled(out.sv(), __n, __l, __t, neg_s.sv(), __nb, __nl); }
#fn expand_fourier
#sig
requires cs@.len() >= ctx.level_count.0, cs@.len() > 0, all_wf(cs@, ctx.n()), ctx.wf(), fft_size(ctx.n()), ctx.n() <= 0x8000_0000,
    ftmap_wf(ksk_map@, ctx.n(), fmap_l(ksk_map@, ctx.n()), fmap_b(ksk_map@, ctx.n())), 0 < fmap_b(ksk_map@, ctx.n()) * fmap_l(ksk_map@, ctx.n()) < 64,
    neg_s.wf(), neg_s.n() == ctx.n(), 0 < neg_s.b() * neg_s.l() < 64,
ensures r.wf(), r.0.poly_size == ctx.poly_size, r.0.base_log == ctx.base_log, r.0.levels == ctx.level_count,
    is_expanded(r.sv(), ctx.n(), r.l(), ftraced(ksk_map@, ctx.n(), rows(cs@)), neg_s.sv(), neg_s.b(), neg_s.l()),
#at loop0.before
let ghost (__n, __l, __nb, __nl, __t) = (ctx.n(), ctx.level_count.0 as nat, neg_s.b(), neg_s.l(), ftraced(ksk_map@, ctx.n(), rows(cs@)));
let ghost __z = out.sv();
proof { l_rows_zero(__z, __n, 2 * __l); if __l > 0 { crate::rgsw::lemma_rows(__z, __n, __l, 0); } else { assert(__z.len() == 0) by (nonlinear_arith) requires __z.len() == 2 * __l * (2 * __n), __l == 0; } }
#loop 0
invariant __n0 == 2 * __l, out.wf(), out.0.poly_size == ctx.poly_size, out.0.base_log == ctx.base_log, out.0.levels == ctx.level_count, out.sv().len() == 2 * __l * (2 * __n), buf.n() == ctx.n(), c_prime.wf(), c_prime.n() == ctx.n(), __k0 % 2 == 1 ==> c_prime.sv() == __t[__k0 as int / 2],
  forall|k: int| 0 <= k < __k0 ==> #[trigger] row(out.sv(), __n, k) == asm_row(neg_s.sv(), __n, __nb, __nl, __t, k),
  forall|k: int| __k0 <= k < __n0 ==> #[trigger] row(out.sv(), __n, k) == pzero(2 * __n),
#at loop0.begin
let ghost __o = out.sv();
proof { crate::rl::l_rowlen(__o, __n, 2 * __l, __j0 as int); assert(cs@[__j0 as int / 2].wf()); }
#at after:trace1_fourier#0
proof { l_ep_len(neg_s.sv(), __n, __nb, __nl, __t[__j0 as int / 2], __nl); l_zero_unit(ep(neg_s.sv(), __n, __nb, __nl, __t[__j0 as int / 2])); }
#at loop0.end
proof {
    let f = asm_row(neg_s.sv(), __n, __nb, __nl, __t, __j0 as int);
    assert(out.sv() =~= crate::rl::rowset(__o, __n, __j0 as int, f));
    assert forall|k: int| 0 <= k < __n0 implies #[trigger] row(out.sv(), __n, k) == if k == __j0 { f } else { row(__o, __n, k) } by { crate::rl::l_rowset(__o, __n, 2 * __l, __j0 as int, f, k); }
}
#at loop0.after
proof { l_assembled(out.sv(), __n, __l, __t, neg_s.sv(), __nb, __nl); }
#fn expand_slow
#opt lty0=RLWECiphertext
#panic ctx.poly_size.0 != ksks.inner@.len() || cs@.len() != ctx.level_count.0
#sig
requires all_wf(cs@, ctx.n()), ctx.wf(), cs@.len() > 0, fft_size(ctx.n()), ctx.poly_size.0 < usize::MAX,
    ksks.inner@.len() == ctx.n() ==> ksks.wf(ctx.n(), ctx.ks_level_count.0 as nat, ctx.ks_base_log.0 as int), 0 < ctx.ks_base_log.0 * ctx.ks_level_count.0 < 64,
    neg_s.wf(), neg_s.n() == ctx.n(), 0 < neg_s.b() * neg_s.l() < 64,
ensures r.wf(), r.0.poly_size == ctx.poly_size, r.0.base_log == ctx.base_log, r.0.levels == ctx.level_count,
    is_expanded(r.sv(), ctx.n(), r.l(), packed(ksks.rows(), ctx.n(), ctx.ks_level_count.0 as nat, ctx.ks_base_log.0 as int, rows(cs@)), neg_s.sv(), neg_s.b(), neg_s.l()),
#loop 0
invariant __n0 == cs@.len(), forall|i: int| 0 <= i < __k0 ==> (#[trigger] __c0@[i]).wf() && __c0@[i].n() == ctx.n() && __c0@[i].sv() == packed(ksks.rows(), ctx.n(), ctx.ks_level_count.0 as nat, ctx.ks_base_log.0 as int, rows(cs@))[i],
#at ret
assert(rows(rlwe_cts@) =~= packed(ksks.rows(), ctx.n(), ctx.ks_level_count.0 as nat, ctx.ks_base_log.0 as int, rows(cs@)));
#fn decomposed_rlwe_to_rgsw
#sig
requires cs@.len() >= ctx.level_count.0, all_wf(cs@, ctx.n()), ctx.wf(), old(buf).n() == ctx.n(),
    neg_s.wf(), neg_s.n() == ctx.n(), 0 < neg_s.b() * neg_s.l() < 64,
ensures r.wf(), r.0.poly_size == ctx.poly_size, r.0.base_log == ctx.base_log, r.0.levels == ctx.level_count, final(buf).n() == old(buf).n(),
    is_expanded(r.sv(), ctx.n(), r.l(), rows(cs@), neg_s.sv(), neg_s.b(), neg_s.l()),
#at loop0.before
let ghost (__n, __l, __nb, __nl, __t) = (ctx.n(), ctx.level_count.0 as nat, neg_s.b(), neg_s.l(), rows(cs@));
let ghost __z = out.sv();
proof { l_rows_zero(__z, __n, 2 * __l); if __l > 0 { crate::rgsw::lemma_rows(__z, __n, __l, 0); } else { assert(__z.len() == 0) by (nonlinear_arith) requires __z.len() == 2 * __l * (2 * __n), __l == 0; } }
#loop 0
invariant __n0 == 2 * __l, out.wf(), out.0.poly_size == ctx.poly_size, out.0.base_log == ctx.base_log, out.0.levels == ctx.level_count, out.sv().len() == 2 * __l * (2 * __n), buf.n() == ctx.n(),
  forall|k: int| 0 <= k < __k0 ==> #[trigger] row(out.sv(), __n, k) == asm_row(neg_s.sv(), __n, __nb, __nl, __t, k),
  forall|k: int| __k0 <= k < __n0 ==> #[trigger] row(out.sv(), __n, k) == pzero(2 * __n),
#at loop0.begin
let ghost __o = out.sv();
proof { crate::rl::l_rowlen(__o, __n, 2 * __l, __j0 as int); assert(cs@[__j0 as int / 2].wf()); l_ep_len(neg_s.sv(), __n, __nb, __nl, __t[__j0 as int / 2], __nl); l_zero_unit(ep(neg_s.sv(), __n, __nb, __nl, __t[__j0 as int / 2])); }
#at loop0.end
proof {
    let f = asm_row(neg_s.sv(), __n, __nb, __nl, __t, __j0 as int);
    assert(out.sv() =~= crate::rl::rowset(__o, __n, __j0 as int, f));
    assert forall|k: int| 0 <= k < __n0 implies #[trigger] row(out.sv(), __n, k) == if k == __j0 { f } else { row(__o, __n, k) } by { crate::rl::l_rowset(__o, __n, 2 * __l, __j0 as int, f, k); }
}
#at loop0.after
proof { l_assembled(out.sv(), __n, __l, __t, neg_s.sv(), __nb, __nl); }
#fn fourier_update_with_mul
#opt c64
#sig
requires fft_size(old(p1).sv().len()), p2.sv().len() == old(p1).sv().len(),
ensures final(p1).sv() == pmul(old(p1).sv(), p2.sv()), final(p1).fut() == old(p1).fut(),
#at loop0.before
let ghost (__a, __b) = (p1.sv(), p2.sv());
#loop 0
invariant __n0 == fp1.data@.len(), __n0 == fp2.data@.len(), is_ifft(fp2.data@, __b), fp1.data@.len() == __a.len() / 2,
  forall|i: int| 0 <= i < __k0 ==> (#[trigger] fp1.data@[i]).slot() == Slot::Torus(pmul(__a, __b)),
  forall|i: int| __k0 <= i < __n0 ==> (#[trigger] fp1.data@[i]).slot() == Slot::Torus(__a),
#at loop0.after
assert(is_fft(fp1.data@, pmul(__a, __b)));
#fn fourier_update_with_mul_acc
#opt c64
#sig
requires fft_size(old(out).sv().len()), p1.sv().len() == old(out).sv().len(), p2.sv().len() == old(out).sv().len(),
ensures final(out).sv() == padd(old(out).sv(), pmul(p1.sv(), p2.sv())), final(out).fut() == old(out).fut(),
#at loop0.before
let ghost (__a, __b) = (p1.sv(), p2.sv());
#loop 0
invariant __n0 == fp1.data@.len(), __n0 == fp2.data@.len(), is_ifft(fp2.data@, __b), fp1.data@.len() == __a.len() / 2,
  forall|i: int| 0 <= i < __k0 ==> (#[trigger] fp1.data@[i]).slot() == Slot::Torus(pmul(__a, __b)),
  forall|i: int| __k0 <= i < __n0 ==> (#[trigger] fp1.data@[i]).slot() == Slot::Torus(__a),
#at loop0.after
assert(is_fft(fp1.data@, pmul(__a, __b)));
#fn pre_fourier_update_with_multiply_accumulate
#opt c64
#sig
requires fp1.data@.len() == old(out).cv().len(), fp2.data@.len() == old(out).cv().len(),
ensures final(out).cv().len() == old(out).cv().len(), final(out).cfut() == old(out).cfut(),
    forall|i: int| 0 <= i < old(out).cv().len() ==> (#[trigger] final(out).cv()[i]).slot() == sadd(old(out).cv()[i].slot(), smul(fp1.data@[i].slot(), fp2.data@[i].slot())),
#at start
let ghost __o = out.data@;
#loop 0
invariant __n0 == __o.len(), out.data@.len() == __n0, out.cfut() == old(out).cfut(), __g__v0 == fp1.data@, __g__v1 == fp2.data@,
  forall|i: int| 0 <= i < __k0 ==> (#[trigger] out.data@[i]).slot() == sadd(__o[i].slot(), smul(fp1.data@[i].slot(), fp2.data@[i].slot())),
  forall|i: int| __k0 <= i < __n0 ==> #[trigger] out.data@[i] == __o[i],
#fn pre_fourier_update_with_two_multiply_accumulate
#opt c64
#sig
requires fp1.data@.len() == old(out).cv().len(), fp2.data@.len() == old(out).cv().len(), fp3.data@.len() == old(out).cv().len(), fp4.data@.len() == old(out).cv().len(),
ensures final(out).cv().len() == old(out).cv().len(), final(out).cfut() == old(out).cfut(),
    forall|i: int| 0 <= i < old(out).cv().len() ==> (#[trigger] final(out).cv()[i]).slot() == sadd(old(out).cv()[i].slot(), sadd(smul(fp1.data@[i].slot(), fp2.data@[i].slot()), smul(fp3.data@[i].slot(), fp4.data@[i].slot()))),
#at start
let ghost __o = out.data@;
#loop 0
invariant __n0 == __o.len(), out.data@.len() == __n0, out.cfut() == old(out).cfut(), __g__v0 == fp1.data@, __g__v1 == fp2.data@, __g__v2 == fp3.data@, __g__v3 == fp4.data@,
  forall|i: int| 0 <= i < __k0 ==> (#[trigger] out.data@[i]).slot() == sadd(__o[i].slot(), sadd(smul(fp1.data@[i].slot(), fp2.data@[i].slot()), smul(fp3.data@[i].slot(), fp4.data@[i].slot()))),
  forall|i: int| __k0 <= i < __n0 ==> #[trigger] out.data@[i] == __o[i],
#fn naive_update_with_mul_acc
#sig
requires p1.sv().len() == old(out).sv().len(), p2.sv().len() == old(out).sv().len(), 0 < old(out).sv().len(), 2 * old(out).sv().len() <= usize::MAX,
ensures final(out).sv() == padd(old(out).sv(), pmul(p1.sv(), p2.sv())), final(out).fut() == old(out).fut(),
#fn naive_update_with_mul
#sig
requires p2.sv().len() == old(p1).sv().len(), 0 < old(p1).sv().len(), 2 * old(p1).sv().len() <= usize::MAX,
ensures final(p1).sv() == pmul(old(p1).sv(), p2.sv()), final(p1).fut() == old(p1).fut(),
#fn make_decomposed_rlwe_ct
#opt lty0=RLWECiphertext
#panic bit > 1 || (old(ctx).level_count.0 > 0 && old(ctx).base_log.0 * old(ctx).level_count.0 + lg(old(ctx).n()) > 64)
#sig
requires sk.wf(), old(ctx).wf(), sk.n() == old(ctx).n(), is_pow2(old(ctx).n()), old(ctx).base_log.0 > 0, old(ctx).base_log.0 * old(ctx).level_count.0 <= 64,
ensures r@.len() == old(ctx).level_count.0, all_wf(r@, sk.n()), bit <= 1,
    forall|i: int| 0 <= i < r@.len() ==> enc_scaled((#[trigger] r@[i]).sv(), sk.sv(), wrap(bit * pow2((64 - old(ctx).base_log.0 * (i + 1) - lg(old(ctx).n())) as nat)), old(ctx).std.nb() as int)
        && fresh(r@[i].sv(), sk.sv(), old(ctx).encryption_generator.root(), old(ctx).encryption_generator.ctr() + i as nat),
    final(ctx).same(old(ctx)), final(ctx).secret_generator == old(ctx).secret_generator,
    final(ctx).encryption_generator.root() == old(ctx).encryption_generator.root(), final(ctx).encryption_generator.ctr() == old(ctx).encryption_generator.ctr() + old(ctx).level_count.0,
#at loop0.before
proof { lemma_lg(ctx.n(), logn as int); }
#loop 0
invariant __n0 == old(ctx).level_count.0, ctx.same(old(ctx)), ctx.secret_generator == old(ctx).secret_generator, logn == lg(old(ctx).n()),
  ctx.encryption_generator.root() == old(ctx).encryption_generator.root(), ctx.encryption_generator.ctr() == old(ctx).encryption_generator.ctr() + __k0,
  forall|i: int| 0 <= i < __k0 ==> (#[trigger] __c0@[i]).wf() && __c0@[i].n() == sk.n() && enc_scaled(__c0@[i].sv(), sk.sv(), wrap(bit * pow2((64 - old(ctx).base_log.0 * (i + 1) - logn) as nat)), old(ctx).std.nb() as int)
        && fresh(__c0@[i].sv(), sk.sv(), old(ctx).encryption_generator.root(), old(ctx).encryption_generator.ctr() + i as nat),
#at loop0.begin
broadcast use lemma_shl1;
proof {
    let b = ctx.base_log.0;
    assert(b * (__j0 + 1) <= b * __n0) by (nonlinear_arith) requires __j0 + 1 <= __n0, b >= 0;
    assert(b * (__j0 + 1) >= 1) by (nonlinear_arith) requires b >= 1, __j0 >= 0;
}
#at before:allocate#0
proof { lemma_bit_shl(bit, shift); }
#at after:encrypt_rlwe#0
proof { assert(near(phase(ct.sv(), sk.sv()), ptxt.sv(), ctx.std.nb() as int)); assert(ptxt.sv()[0] == wrap(bit * pow2(shift as nat))); }
#fn make_decomposed_rlwe_ct2
#opt lty0=RLWECiphertext
#panic bit > 1
#sig
requires sk.wf(), old(ctx).wf(), sk.n() == old(ctx).n(), old(ctx).base_log.0 > 0, old(ctx).base_log.0 * old(ctx).level_count.0 <= 64,
ensures r@.len() == old(ctx).level_count.0, all_wf(r@, sk.n()), bit <= 1,
    forall|i: int| 0 <= i < r@.len() ==> enc_scaled((#[trigger] r@[i]).sv(), sk.sv(), wrap(bit * pow2((64 - old(ctx).base_log.0 * (i + 1)) as nat)), old(ctx).std.nb() as int)
        && fresh(r@[i].sv(), sk.sv(), old(ctx).encryption_generator.root(), old(ctx).encryption_generator.ctr() + i as nat),
    final(ctx).same(old(ctx)), final(ctx).secret_generator == old(ctx).secret_generator,
    final(ctx).encryption_generator.root() == old(ctx).encryption_generator.root(), final(ctx).encryption_generator.ctr() == old(ctx).encryption_generator.ctr() + old(ctx).level_count.0,
#loop 0
invariant __n0 == old(ctx).level_count.0, ctx.same(old(ctx)), ctx.secret_generator == old(ctx).secret_generator,
  ctx.encryption_generator.root() == old(ctx).encryption_generator.root(), ctx.encryption_generator.ctr() == old(ctx).encryption_generator.ctr() + __k0,
  forall|i: int| 0 <= i < __k0 ==> (#[trigger] __c0@[i]).wf() && __c0@[i].n() == sk.n() && enc_scaled(__c0@[i].sv(), sk.sv(), wrap(bit * pow2((64 - old(ctx).base_log.0 * (i + 1)) as nat)), old(ctx).std.nb() as int)
        && fresh(__c0@[i].sv(), sk.sv(), old(ctx).encryption_generator.root(), old(ctx).encryption_generator.ctr() + i as nat),
#at loop0.begin
proof {
    let b = ctx.base_log.0;
    assert(b * (__j0 + 1) <= b * __n0) by (nonlinear_arith) requires __j0 + 1 <= __n0, b >= 0;
    assert(b * (__j0 + 1) >= 1) by (nonlinear_arith) requires b >= 1, __j0 >= 0;
}
#at before:allocate#0
proof { lemma_bit_shl(bit, shift); }
#at after:encrypt_rlwe#0
proof { assert(near(phase(ct.sv(), sk.sv()), ptxt.sv(), ctx.std.nb() as int)); assert(ptxt.sv()[0] == wrap(bit * pow2(shift as nat))); }
#fn compute_noise
#sig
requires sk.wf(), ct.wf(), ct.n() == sk.n(), encoded_ptxt.sv().len() == sk.n(),
ensures r == noise_log(ct.ph(sk), encoded_ptxt.sv()),
#at loop0.before
let ghost __d = pt.sv();
#loop 0
invariant __n0 == sk.n(), pt.sv() == __d, __d.len() == __n0, max_e == maxc(__d, __k0 as nat),
#at loop0.begin
proof { l_linf(__d, __k0 as nat, 0); }
#fn compute_noise_ternary
#sig
requires sk.wf(), ct.wf(), ct.n() == sk.n(), ptxt.sv().len() == sk.n(),
ensures r == noise_log(ct.ph(sk), crate::codec::ptern_enc(ptxt.sv())), crate::codec::all_tern(ptxt.sv()),
#fn compute_noise_encoded
#sig
requires sk.wf(), ct.wf(), ct.n() == sk.n(), ptxt.sv().len() == sk.n(), codec.wf(),
ensures r == noise_log(ct.ph(sk), codec.penc(ptxt.sv())), forall|i: int| 0 <= i < ptxt.sv().len() ==> (#[trigger] ptxt.sv()[i]) < codec.t(),
