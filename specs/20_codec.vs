#module codec
#ghost
use crate::ring::*;
use crate::cc::closest;
use crate::utils::{is_log2, lemma_log2_pow2};

impl Codec {
    // plaintext modulus 2^k, scaling factor 2^(64-k)
    pub closed spec fn logt(&self) -> nat { self.decomposer.base_log as nat }
    pub open spec fn t(&self) -> int { pow2(self.logt()) as int }
    pub open spec fn dl(&self) -> int { pow2((64 - self.logt()) as nat) as int }
    pub closed spec fn wf(&self) -> bool {
        &&& 1 <= self.logt() <= 63
        &&& self.decomposer.level_count == 1
        &&& self.delta == self.dl()
    }
    pub open spec fn enc(&self, m: u64) -> u64 { wrap(m * self.dl()) }
    pub open spec fn dec(&self, x: u64) -> u64 { wrap(((x + self.dl() / 2) / self.dl()) % self.t()) }
    pub open spec fn penc(&self, m: Seq<u64>) -> Seq<u64> { Seq::new(m.len(), |i: int| self.enc(m[i])) }
    pub open spec fn pdec(&self, x: Seq<u64>) -> Seq<u64> { Seq::new(x.len(), |i: int| self.dec(x[i])) }

    // facts about the two powers
    pub proof fn lemma_params(&self)
        requires self.wf(),
        ensures self.t() * self.dl() == 0x1_0000_0000_0000_0000, 2 <= self.t() <= 0x8000_0000_0000_0000,
            2 <= self.dl() <= 0x8000_0000_0000_0000, self.dl() % 2 == 0, 1 <= self.logt() <= 63,
    {
        lemma_pow2_64();
        lemma_pow2_adds(self.logt(), (64 - self.logt()) as nat);
        lemma_pow2_unfold(self.logt());
        lemma_pow2_unfold((64 - self.logt()) as nat);
        lemma_pow2_pos((self.logt() - 1) as nat);
        lemma_pow2_pos((63 - self.logt()) as nat);
        if self.logt() < 63 { lemma_pow2_strictly_increases(self.logt(), 63); }
        if 64 - self.logt() < 63 { lemma_pow2_strictly_increases((64 - self.logt()) as nat, 63); }
        let a = pow2((63 - self.logt()) as nat) as int;
        assert((2 * a) % 2 == 0) by (nonlinear_arith);
    }
    pub proof fn lemma_enc(&self, x: u64)
        requires self.wf(), x < self.t(),
        ensures 0 <= x * self.dl() <= 0x1_0000_0000_0000_0000 - self.dl(), self.enc(x) == x * self.dl(),
    {
        self.lemma_params();
        let (t, d) = (self.t(), self.dl());
        assert(0 <= x * d <= t * d - d) by (nonlinear_arith) requires 0 <= x < t, d > 0;
    }
    pub proof fn lemma_dec(&self, x: u64)
        requires self.wf(),
        ensures closest(self.logt() as int, 1, x) as int / self.dl() == self.dec(x), self.dec(x) < self.t(),
    {
        self.lemma_params();
        let (t, d) = (self.t(), self.dl());
        let q = (x + d / 2) / d;
        assert(self.logt() * 1 == self.logt()) by (nonlinear_arith);
        assert(closest(self.logt() as int, 1, x) == wrap(q * d));
        assert(0 <= q <= t) by (nonlinear_arith) requires q == (x + d / 2) / d, 0 <= x < t * d, d > 1, t > 0, d % 2 == 0;
        if q == t {
            assert(q * d == t * d);
            assert(q % t == 0) by (nonlinear_arith) requires q == t, t > 0;
            assert(0int / d == 0) by (nonlinear_arith) requires d > 0;
        } else {
            assert(0 <= q * d < t * d) by (nonlinear_arith) requires 0 <= q < t, d > 0;
            assert((q * d) / d == q) by (nonlinear_arith) requires d > 0, q >= 0;
            assert(q % t == q) by (nonlinear_arith) requires 0 <= q < t;
        }
    }
    // C09: decoding an encoded value perturbed by less than half the scaling factor gives the value back
    pub proof fn lemma_roundtrip(&self, m: u64, e: int)
        requires self.wf(), m < self.t(), -(self.dl() / 2) <= e < self.dl() / 2,
        ensures self.dec(wrap(self.enc(m) + e)) == m,
    {
        self.lemma_params();
        self.lemma_enc(m);
        let (t, d) = (self.t(), self.dl());
        let h = d / 2;
        assert(d == 2 * h);
        let v = m * d + e;
        if v < 0 {
            assert(m == 0) by (nonlinear_arith) requires m * d + e < 0, e >= -h, d == 2 * h, h >= 1, m >= 0;
            assert(wrap(v) == v + t * d);
            let x = v + t * d;
            assert(m * d == 0) by (nonlinear_arith) requires m == 0;
            assert((x + h) / d == t) by (nonlinear_arith) requires x == e + t * d, -h <= e < 0, d == 2 * h, h >= 1;
            assert(t % t == 0) by (nonlinear_arith) requires t > 0;
        } else {
            assert(v < t * d) by (nonlinear_arith) requires v == m * d + e, m <= t - 1, e < h, d == 2 * h, h >= 1;
            assert(wrap(v) == v);
            assert((v + h) / d == m) by (nonlinear_arith) requires v == m * d + e, -h <= e < h, d == 2 * h, h >= 1;
            assert((m as int) % t == m) by (nonlinear_arith) requires 0 <= m < t;
        }
    }
}
pub open spec fn THIRD() -> u64 { 6148914691236516864 }
pub open spec fn SIXTH() -> u64 { 3074457345618258432 }
pub open spec fn tern_enc(x: u64) -> u64 { if x == 0 { 0 } else if x == 1 { THIRD() } else { wrap(2 * THIRD()) } }
pub open spec fn is_tern(x: u64) -> bool { x == 0 || x == 1 || x == u64::MAX }
// the nearest of 0, q/3, 2q/3
pub open spec fn tern_dec(x: u64) -> u64 {
    if SIXTH() < x && x <= 0x7fff_ffff_ffff_ffff { 1 } else if 0x7fff_ffff_ffff_ffff < x && x <= 0x7fff_ffff_ffff_ffff + 2 * SIXTH() { u64::MAX } else { 0 }
}
pub open spec fn ptern_enc(m: Seq<u64>) -> Seq<u64> { Seq::new(m.len(), |i: int| tern_enc(m[i])) }
pub open spec fn ptern_dec(m: Seq<u64>) -> Seq<u64> { Seq::new(m.len(), |i: int| tern_dec(m[i])) }
pub open spec fn all_tern(m: Seq<u64>) -> bool { forall|i: int| 0 <= i < m.len() ==> #[trigger] is_tern(m[i]) }
// C10
pub proof fn lemma_tern_roundtrip(m: u64, e: int)
    requires is_tern(m), -0x2aaa_aaaa_aaaa_a800 < e < 0x2aaa_aaaa_aaaa_a800,
    ensures tern_dec(wrap(tern_enc(m) + e)) == m,
{}

// C13: decrypting undoes encrypting whenever the noise is below half the scaling factor (below a sixth of the modulus for the ternary encoding)
pub proof fn lemma_near_int(x: u64, y: u64) -> (t: int)
    ensures x == wrap(y + t), -cd(x, y) <= t <= cd(x, y), t == cd(x, y) || t == -cd(x, y),
{
    let d = (x as int - y as int) % 0x1_0000_0000_0000_0000;
    if d <= 0x8000_0000_0000_0000 { d } else { d - 0x1_0000_0000_0000_0000 }
}
pub proof fn lemma_decrypt(c: &Codec, x: u64, m: u64)
    requires c.wf(), m < c.t(), cd(x, c.enc(m)) < c.dl() / 2,
    ensures c.dec(x) == m,
{ let t = lemma_near_int(x, c.enc(m)); c.lemma_roundtrip(m, t); }
pub proof fn lemma_poly_decrypt(c: &Codec, p: Seq<u64>, m: Seq<u64>, e: int)
    requires c.wf(), near(p, c.penc(m), e), e < c.dl() / 2, forall|i: int| 0 <= i < m.len() ==> (#[trigger] m[i]) < c.t(),
    ensures c.pdec(p) == m,
{
    assert(c.pdec(p) =~= m) by { assert forall|i: int| 0 <= i < m.len() implies c.dec(p[i]) == m[i] by { assert(cd(p[i], c.penc(m)[i]) <= e); lemma_decrypt(c, p[i], m[i]); } }
}
pub proof fn lemma_poly_tern_decrypt(p: Seq<u64>, m: Seq<u64>, e: int)
    requires near(p, ptern_enc(m), e), e < 0x2aaa_aaaa_aaaa_a800, all_tern(m),
    ensures ptern_dec(p) == m,
{
    assert(ptern_dec(p) =~= m) by { assert forall|i: int| 0 <= i < m.len() implies tern_dec(p[i]) == m[i] by { assert(cd(p[i], ptern_enc(m)[i]) <= e); assert(is_tern(m[i])); let t = lemma_near_int(p[i], tern_enc(m[i])); lemma_tern_roundtrip(m[i], t); } }
}

#fn Codec::new
#panic !is_pow2(t as nat)
#sig
requires is_pow2(t as nat) ==> 2 <= t,
ensures is_pow2(t as nat), r.wf(), r.t() == t,
#at start
broadcast use lemma_shl1;
#at after:log2#0
proof {
    let k = choose|k: nat| t as nat == pow2(k);
    lemma_log2_pow2(t as int, logt as int, k);
    lemma_pow2_64();
}
#fn Codec::largest_error
#sig
requires self.wf(),
ensures r == self.dl() / 2,
#fn Codec::pt_modulus_bits
#sig
requires self.wf(),
ensures r == self.logt(),
#fn Codec::pt_modulus
#sig
requires self.wf(),
ensures r == self.t(),
#at start
broadcast use lemma_shl1;
#fn Codec::encode
#panic *old(x) >= self.t()
#sig
requires self.wf(),
ensures *old(x) < self.t(), *final(x) == self.enc(*old(x)),
#at start
proof { if *x < self.t() { self.lemma_enc(*x); } }
#fn Codec::decode
#sig
requires self.wf(),
ensures *final(x) == self.dec(*old(x)),
#at start
proof { self.lemma_dec(*x); self.lemma_params(); }
#fn Codec::ternary_encode
#panic !is_tern(*old(x))
#sig
ensures is_tern(*old(x)), *final(x) == tern_enc(*old(x)),
#fn Codec::ternary_decode
#sig
ensures *final(x) == tern_dec(*old(x)),
#fn Codec::poly_encode
#sig
requires self.wf(),
ensures final(xs).sv() == self.penc(old(xs).sv()), final(xs).fut() == old(xs).fut(),
  forall|i: int| 0 <= i < old(xs).sv().len() ==> (#[trigger] old(xs).sv()[i]) < self.t(),
#loop 0
invariant self.wf(), forall|i: int| 0 <= i < __k0 ==> (#[trigger] old(xs).sv()[i]) < self.t(), __n0 == old(xs).sv().len(), xs.sv().len() == __n0, xs.fut() == old(xs).fut(),
  forall|i: int| 0 <= i < __k0 ==> xs.sv()[i] == self.enc(old(xs).sv()[i]),
  forall|i: int| __k0 <= i < __n0 ==> xs.sv()[i] == old(xs).sv()[i],
#at loop0.after
assert(xs.sv() =~= self.penc(old(xs).sv()));
#fn Codec::poly_decode
#sig
requires self.wf(),
ensures final(xs).sv() == self.pdec(old(xs).sv()), final(xs).fut() == old(xs).fut(),
#loop 0
invariant self.wf(), __n0 == old(xs).sv().len(), xs.sv().len() == __n0, xs.fut() == old(xs).fut(),
  forall|i: int| 0 <= i < __k0 ==> xs.sv()[i] == self.dec(old(xs).sv()[i]),
  forall|i: int| __k0 <= i < __n0 ==> xs.sv()[i] == old(xs).sv()[i],
#at loop0.after
assert(xs.sv() =~= self.pdec(old(xs).sv()));
#fn Codec::poly_ternary_encode
#sig
ensures final(xs).sv() == ptern_enc(old(xs).sv()), final(xs).fut() == old(xs).fut(), all_tern(old(xs).sv()),
#loop 0
invariant __n0 == old(xs).sv().len(), xs.sv().len() == __n0, xs.fut() == old(xs).fut(),
  forall|i: int| 0 <= i < __k0 ==> #[trigger] is_tern(old(xs).sv()[i]),
  forall|i: int| 0 <= i < __k0 ==> xs.sv()[i] == tern_enc(old(xs).sv()[i]),
  forall|i: int| __k0 <= i < __n0 ==> xs.sv()[i] == old(xs).sv()[i],
#at loop0.after
assert(xs.sv() =~= ptern_enc(old(xs).sv()));
#fn Codec::poly_ternary_decode
#sig
ensures final(xs).sv() == ptern_dec(old(xs).sv()), final(xs).fut() == old(xs).fut(),
#loop 0
invariant __n0 == old(xs).sv().len(), xs.sv().len() == __n0, xs.fut() == old(xs).fut(),
  forall|i: int| 0 <= i < __k0 ==> xs.sv()[i] == tern_dec(old(xs).sv()[i]),
  forall|i: int| __k0 <= i < __n0 ==> xs.sv()[i] == old(xs).sv()[i],
#at loop0.after
assert(xs.sv() =~= ptern_dec(old(xs).sv()));
