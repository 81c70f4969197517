#module lwe
#ghost
broadcast use crate::shim::bits;
use crate::ring::*;
use crate::cc::*;
use crate::rl::*;
impl LWECiphertext {
    pub open spec fn sv(&self) -> Seq<u64> { self.0.sv() }
    pub open spec fn wf(&self) -> bool { self.sv().len() >= 2 && self.sv().len() <= usize::MAX }
    pub open spec fn n(&self) -> nat { (self.sv().len() - 1) as nat }
}
impl LWESecretKey {
    pub open spec fn sv(&self) -> Seq<u64> { self.0.sv() }
    pub open spec fn wf(&self) -> bool { is_bin(self.sv()) }
}
impl LWEtoRLWEKeyswitchKey {
    pub open spec fn rows(&self) -> Seq<Seq<u64>> { Seq::new(self.inner@.len(), |i: int| self.inner@[i].sv()) }
    pub open spec fn wf(&self, n: nat, l: nat, b: int) -> bool {
        self.inner@.len() == n && forall|i: int| 0 <= i < n ==> (#[trigger] self.inner@[i]).wf() && self.inner@[i].n() == n && self.inner@[i].l() == l && self.inner@[i].b() == b
    }
}
use crate::rlwe::{lemma_join, lemma_split};
// level k of g: its four polynomials, the second row of it
pub proof fn lemma_row2(g: Seq<u64>, n: nat, l: nat, k: int)
    requires g.len() == 2 * l * (2 * n), 0 <= k < l,
    ensures 0 <= k * (4 * n), (k + 1) * (4 * n) == k * (4 * n) + 4 * n, (k + 1) * (4 * n) <= g.len(), row(g, n, 2 * k + 1).len() == 2 * n,
        g.subrange(k * (4 * n), (k + 1) * (4 * n)).subrange(1 * (2 * n as int), 2 * (2 * n as int)) == row(g, n, 2 * k + 1),
{
    assert(2 * l * (2 * n) == (2 * l) * (2 * n));
    l_rowlen(g, n, 2 * l, 2 * k + 1); l_rowlen(g, n, 2 * l, 2 * k);
    assert(k * (4 * n) == (2 * k) * (2 * n)) by (nonlinear_arith);
    assert((k + 1) * (4 * n) == (2 * k + 2) * (2 * n)) by (nonlinear_arith);
    assert((2 * k + 2) * (2 * n) == (2 * k + 1) * (2 * n) + 2 * n) by (nonlinear_arith);
    assert((2 * k + 1) * (2 * n) == (2 * k) * (2 * n) + 2 * n) by (nonlinear_arith);
    assert(g.subrange(k * (4 * n), (k + 1) * (4 * n)).subrange(1 * (2 * n as int), 2 * (2 * n as int)) =~= row(g, n, 2 * k + 1));
}
#fn LWESecretKey::generate_binary
#sig
ensures r.sv().len() == lwe_dimension.0, is_bin(r.sv()), final(generator).root() == old(generator).root(),
#fn LWECiphertext::allocate
#sig
ensures r.sv() == pzero(size.0 as nat),
#at ret
assert(__r.sv() =~= pzero(size.0 as nat));
#fn LWECiphertext::as_tensor
#sig
ensures r.sv() == self.sv(),
#fn LWECiphertext::clear
#sig
ensures final(self).sv() == pzero(old(self).sv().len()),
#at ret
assert(self.sv() =~= pzero(old(self).sv().len()));
#fn LWECiphertext::fill_with_const_sample_extract
#sig
requires c.wf(), old(self).sv().len() == c.n() + 1,
ensures final(self).sv() == sample_extract(c.sv(), c.n(), 0),
#fn LWECiphertext::fill_with_sample_extract
#sig
requires c.wf(), old(self).sv().len() == c.n() + 1, n_th.0 < c.n(),
ensures final(self).sv() == sample_extract(c.sv(), c.n(), n_th.0 as int),
#fn LWECiphertext::fill_with_tensor
#sig
requires t.sv().len() == old(self).sv().len(),
ensures final(self).sv() == t.sv(),
#fn LWECiphertext::get_body
#sig
requires self.sv().len() > 0,
ensures r.0 == self.sv().last(),
#fn LWECiphertext::get_mask
#sig
requires self.sv().len() > 0,
ensures r.sv() == self.sv().drop_last(),
#fn LWECiphertext::get_mut_body
#sig
requires old(self).sv().len() > 0,
ensures r.0 == old(self).sv().last(), final(self).sv() == old(self).sv().drop_last().push(final(r).0),
#fn LWECiphertext::get_mut_mask
#sig
requires old(self).sv().len() > 0,
ensures r.sv() == old(self).sv().drop_last(), r.fut().len() == r.sv().len(), final(self).sv() == r.fut().push(old(self).sv().last()),
#fn LWECiphertext::lwe_size
#sig
ensures r.0 == self.sv().len(),
#fn LWESecretKey::decode_decrypt_lwe
#sig
requires self.wf(), encrypted.sv().len() == self.sv().len() + 1, ctx.codec.wf(),
ensures final(pt).0 == ctx.codec.dec(lwe_phase(encrypted.sv(), self.sv())),
#fn LWESecretKey::decrypt_lwe
#sig
requires self.wf(), ct.sv().len() == self.sv().len() + 1,
ensures final(output).0 == lwe_phase(ct.sv(), self.sv()),
#fn LWESecretKey::encode_encrypt_lwe
#sig
requires self.wf(), old(output).sv().len() == self.sv().len() + 1, old(ctx).codec.wf(),
ensures final(output).sv().len() == old(output).sv().len(), pt.0 < old(ctx).codec.t(),
    cd(lwe_phase(final(output).sv(), self.sv()), old(ctx).codec.enc(pt.0)) <= old(ctx).std.nb(),
    fresh(final(output).sv(), self.sv(), old(ctx).encryption_generator.root(), old(ctx).encryption_generator.ctr()),
    final(ctx).same(old(ctx)), final(ctx).secret_generator == old(ctx).secret_generator, final(ctx).random_generator == old(ctx).random_generator,
    final(ctx).encryption_generator.root() == old(ctx).encryption_generator.root(), final(ctx).encryption_generator.ctr() == old(ctx).encryption_generator.ctr() + 1,
#fn LWESecretKey::encrypt_lwe
#sig
requires self.wf(), old(output).sv().len() == self.sv().len() + 1,
ensures final(output).sv().len() == old(output).sv().len(), cd(lwe_phase(final(output).sv(), self.sv()), pt.0) <= noise_parameters.nb(),
    fresh(final(output).sv(), self.sv(), old(generator).root(), old(generator).ctr()),
    final(generator).root() == old(generator).root(), final(generator).ctr() == old(generator).ctr() + 1,
#fn LWESecretKey::key_size
#sig
ensures r.0 == self.sv().len(),
#fn LWESecretKey::to_rlwe_sk
#sig
requires self.wf(), self.sv().len() > 0, 2 * self.sv().len() <= usize::MAX,
ensures r.wf(), r.sv() == self.sv(), r.n() == self.sv().len(),
#fn LWEtoRLWEKeyswitchKey::allocate
#sig
requires ctx.wf(),
ensures r.wf(ctx.n(), ctx.level_count.0 as nat, ctx.base_log.0 as int),
#fn LWEtoRLWEKeyswitchKey::fill_with_keyswitching_key
#panic old(ctx).poly_size.0 != sk.sv().len()
#sig
requires sk.wf(), old(ctx).wf(), old(ctx).ks_base_log.0 > 0, old(ctx).ks_base_log.0 * old(ctx).ks_level_count.0 <= 64,
ensures final(self).wf(old(ctx).n(), old(ctx).ks_level_count.0 as nat, old(ctx).ks_base_log.0 as int), sk.sv().len() == old(ctx).n(),
    is_lksk(final(self).rows(), sk.sv(), old(ctx).ks_level_count.0 as nat, old(ctx).ks_base_log.0 as int, old(ctx).std.nb() as int),
    final(ctx).same(old(ctx)), final(ctx).secret_generator == old(ctx).secret_generator, final(ctx).random_generator == old(ctx).random_generator,
    final(ctx).encryption_generator.root() == old(ctx).encryption_generator.root(), final(ctx).encryption_generator.ctr() == old(ctx).encryption_generator.ctr() + sk.sv().len(),
#loop 0
invariant __n0 == sk.sv().len(), ctx.same(old(ctx)), ctx.secret_generator == old(ctx).secret_generator, ctx.random_generator == old(ctx).random_generator,
  ctx.encryption_generator.root() == old(ctx).encryption_generator.root(), ctx.encryption_generator.ctr() == old(ctx).encryption_generator.ctr() + __k0,
  self.inner@.len() == __k0,
  forall|i: int| 0 <= i < __k0 ==> (#[trigger] self.inner@[i]).wf() && self.inner@[i].n() == sk.sv().len() && self.inner@[i].l() == old(ctx).ks_level_count.0 && self.inner@[i].b() == old(ctx).ks_base_log.0
     && is_rgsw(self.inner@[i].sv(), sk.sv().len(), self.inner@[i].l(), self.inner@[i].b(), sk.sv(), pconst(sk.sv().len(), sk.sv()[i]), old(ctx).std.nb() as int),
#fn conv_lwe_to_rlwe
#sig
requires ctx.wf(), ksks.wf(ctx.n(), ctx.ks_level_count.0 as nat, ctx.ks_base_log.0 as int), lwe.sv().len() == ctx.n() + 1, 0 < ctx.ks_base_log.0 * ctx.ks_level_count.0 < 64,
ensures r.wf(), r.n() == ctx.n(), r.sv() == conv_out(ksks.rows(), ctx.n(), ctx.ks_level_count.0 as nat, ctx.ks_base_log.0 as int, lwe.sv()),
#loop 0
invariant __n0 == ctx.n(), out.wf(), out.n() == ctx.n(), out.sv() == conv_acc(ksks.rows(), ctx.n(), ctx.ks_level_count.0 as nat, ctx.ks_base_log.0 as int, lwe.sv(), __k0 as nat),
#at loop0.begin
let ghost __o = out.sv();
let ghost (__n, __l, __b) = (ctx.n(), ctx.ks_level_count.0 as nat, ctx.ks_base_log.0 as int);
let ghost __g = ksks.inner@[__j0 as int].sv();
#at loop1.before
proof { assert(__l >= 1) by { if __l == 0 { assert(__b * 0 == 0); } } lemma_row2(__g, __n, __l, 0); }
#loop 1
invariant __n1 == __l, out.wf(), out.n() == __n, *a == lwe.sv()[__j0 as int], *ksk == ksks.inner@[__j0 as int], ksk.wf(), ksk.sv() == __g,
  __it0.at(__b as int, __l as int, closest, __l - __k1),
  out.sv() == conv_in(__o, __g, __n, __l, __b, lwe.sv()[__j0 as int], __k1 as nat),
#at loop1.begin
let ghost __p = out.sv();
let ghost __q = (__l - 1 - __j1) as int;
proof { lemma_row2(__g, __n, __l, __q); lemma_join(__p, __n); }
#at before:mul_const#0
let ghost __r = ct.sv();
assert(__r =~= row(__g, __n, 2 * __q + 1));
proof { lemma_join(__r, __n); }
let ghost __dg = digit(__b, __l as int, closest, __q + 1);
proof { lemma_split(pscale(mask_of(__r, __n), __dg) + body_of(__r, __n), pscale(mask_of(__r, __n), __dg), body_of(__r, __n), __n); }
#at loop1.end
assert(ct.sv() =~= pscale(__r, __dg));
assert(out.sv() =~= psub(__p, pscale(__r, __dg)));
#at after:let:b_poly#0
assert(b_poly.sv() =~= pconst(ctx.n(), lwe.sv()[ctx.n() as int]));
