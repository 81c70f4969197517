// The decomposition of concrete-core 1.0.2, verified from its source (monomorphic in u64, see extract/src/mono.rs)
#prelude
verus! {
pub mod dec {
use vstd::prelude::*;
use crate::shim::*;
use crate::ring::*;
use crate::cc::*;
// s, the word y without its low bits, after m steps
pub open spec fn top(b: int, l: int, y: u64) -> int { (y as int) / (pow2((64 - b * l) as nat) as int) }
pub proof fn l_mask(b: usize)
    requires 1 <= b < 64,
    ensures pow2(b as nat) == 2 * pow2((b - 1) as nat), (1u64 << b) == pow2(b as nat), pow2(b as nat) <= 0x8000_0000_0000_0000int,
        pow2((b - 1) as nat) >= 1,
{
    lemma_shl1(b); lemma_pow2_unfold(b as nat); lemma_pow2_64(); lemma_pow2_pos((b - 1) as nat);
    if b < 63 { lemma_pow2_strictly_increases(b as nat, 63); }
}
pub proof fn l_bl(b: int, l: int)
    requires b >= 0, l >= 0, 0 < b * l < 64,
    ensures 1 <= b < 64, 1 <= l < 64,
{
    assert(1 <= b < 64 && 1 <= l < 64) by (nonlinear_arith) requires b >= 0, l >= 0, 0 < b * l < 64;
}
pub proof fn l_shr(x: u64, b: usize)
    requires b < 64,
    ensures (x >> b) == (x as int) / (pow2(b as nat) as int),
{
    vstd::bits::lemma_u64_shr_is_div(x, b as u64);
    assert((x >> b) == (x >> (b as u64)));
}
pub proof fn l_and(x: u64, b: usize, mask: u64)
    requires 1 <= b < 64, mask == pow2(b as nat) - 1,
    ensures (x & mask) == (x as int) % (pow2(b as nat) as int),
{
    vstd::bits::lemma_u64_low_bits_mask_is_mod(x, b as nat);
    l_mask(b);
    assert(vstd::bits::low_bits_mask(b as nat) == mask);
    assert((pow2(b as nat) as u64) as int == pow2(b as nat));
    assert((x & mask) == x % (pow2(b as nat) as u64));
}
pub proof fn l_bit(x: u64, k: usize, h: u64)
    requires k < 63, h == pow2(k as nat),
    ensures ((x & h) != 0) == (((x as int) / (h as int)) % 2 == 1),
{
    lemma_shl1(k);
    vstd::bits::lemma_u64_shr_is_div(x, k as u64);
    let z = k as u64;
    let y = x >> z;
    assert(((x & (1u64 << z)) != 0) == ((x >> z) % 2 == 1)) by (bit_vector) requires z < 64;
    assert((1u64 << k) == (1u64 << z));
}
pub proof fn l_shl(c: u64, b: usize)
    requires b < 64, c <= 1,
    ensures (c << b) == c * pow2(b as nat),
{
    lemma_shl1(b);
    if c == 0 { let z = b as u64; assert((0u64 << z) == 0) by (bit_vector); assert((0u64 << b) == (0u64 << z)); }
}
pub proof fn l_closest(b: int, l: int, x: u64)
    requires 0 < b * l < 64,
    ensures ({
        let m = (64 - b * l) as usize;
        let h = (m - 1) as usize;
        let msb = (x & (1u64 << h)) >> h;
        let q = x >> m;
        let r = closest(b, l, x);
        msb <= 1 && q + msb <= 0xffff_ffff_ffff_ffff && ((((q + msb) as u64)) << m) == r && closest(b, l, r) == r
    }),
{
    let m = (64 - b * l) as usize;
    let h = (m - 1) as usize;
    let z = h as u64;
    lemma_pow2_64();
    lemma_shl1(h); lemma_pow2_unfold(m as nat); lemma_pow2_pos(h as nat);
    let hh = pow2(h as nat) as int;
    let k = pow2(m as nat) as int;
    l_shr(x, m);
    l_shr(x, h);
    let msb = (x & (1u64 << h)) >> h;
    assert(msb == (x >> h) % 2) by {
        assert((x & (1u64 << z)) >> z == (x >> z) % 2) by (bit_vector) requires z < 64;
        assert((1u64 << h) == (1u64 << z) && (x >> h) == (x >> z) && ((x & (1u64 << z)) >> h) == ((x & (1u64 << z)) >> z));
    }
    let q = (x >> m) as int;
    let a = (x as int) / hh;
    lemma_fundamental_div_mod(x as int, hh);
    assert(k == 2 * hh);
    // x = hh a + r0, a = 2 q + msb
    let r0 = (x as int) % hh;
    assert(0 <= r0 < hh) by { vstd::arithmetic::div_mod::lemma_mod_bound(x as int, hh); }
    assert(q == a / 2) by {
        lemma_fundamental_div_mod(a, 2);
            assert(x as int == (a / 2) * k + ((a % 2) * hh + r0)) by (nonlinear_arith) requires x as int == hh * a + r0, a == 2 * (a / 2) + a % 2, k == 2 * hh;
            assert(0 <= (a % 2) * hh + r0 < k) by (nonlinear_arith) requires 0 <= r0 < hh, a % 2 == 0 || a % 2 == 1, k == 2 * hh;
        lemma_fundamental_div_mod_converse(x as int, k, a / 2, (a % 2) * hh + r0);
    }
    assert(msb as int == a % 2);
    let v = q + msb as int;
    assert((x as int + k / 2) / k == v) by {
        // x + hh = hh (a + 1) + r0
        let e = a % 2;
        lemma_fundamental_div_mod(a, 2);
            assert(x as int + hh == v * k + ((1 - e) * hh + r0)) by (nonlinear_arith) requires x as int == hh * a + r0, a == 2 * q + e, v == q + e, k == 2 * hh;
            assert(0 <= (1 - e) * hh + r0 < k) by (nonlinear_arith) requires 0 <= r0 < hh, e == 0 || e == 1, k == 2 * hh;
        lemma_fundamental_div_mod_converse(x as int + hh, k, v, (1 - e) * hh + r0);
    }
    // v 2^m, in 64 bits
    let n = (64 - m) as usize;
    let nn = pow2(n as nat) as int;
    lemma_pow2_adds(m as nat, n as nat);
    assert(k * nn == 0x1_0000_0000_0000_0000);
    lemma_pow2_pos(n as nat);
    lemma_fundamental_div_mod(x as int, k);
    assert(q * k <= x as int) by (nonlinear_arith) requires x as int == k * q + (x as int) % k, (x as int) % k >= 0;
    assert(q < nn) by (nonlinear_arith) requires q * k <= x as int, x < k * nn, k > 0;
    let r = closest(b, l, x);
    assert(r == wrap(v * k));
    if v < nn {
        assert(0 <= v * k < 0x1_0000_0000_0000_0000) by (nonlinear_arith) requires 0 <= v < nn, k * nn == 0x1_0000_0000_0000_0000, k > 0;
        lemma_small_mod((v * k) as nat, 0x1_0000_0000_0000_0000);
        vstd::bits::lemma_u64_shl_is_mul(v as u64, m as u64);
        assert(((v as u64) << m) == ((v as u64) << (m as u64)));
        assert(r == v * k);
        assert((r as int + hh) / k == v) by { lemma_fundamental_div_mod_converse(r as int + hh, k, v, hh); }
    } else {
        assert(v == nn);
        lemma_shl1(n);
        assert(nn * k == k * nn) by (nonlinear_arith);
        assert(v * k == 0x1_0000_0000_0000_0000);
        let (w, y) = (n as u64, m as u64);
        assert(((1u64 << w) << y) == 0) by (bit_vector) requires w + y == 64, 0 < y < 64, 0 < w < 64;
        assert((1u64 << n) == (1u64 << w) && ((v as u64) << m) == ((v as u64) << y));
        assert((hh) / k == 0) by { lemma_fundamental_div_mod_converse(hh, k, 0, hh); }
    }
}
pub proof fn l_carry(res: u64, st: u64, b: usize, h: u64)
    requires 1 <= b < 64, h == 1u64 << ((b - 1) as u64), res < 2 * h, h <= 0x4000_0000_0000_0000,
    ensures
        ({ let c = ((wsub(res, 1) | st) & res) >> ((b - 1) as u64);
           c == (if res > h || (res == h && (st & h) != 0) { 1u64 } else { 0u64 }) }),
{
    let w = wsub(res, 1);
    let k = (b - 1) as u64;
    assert(w == (if res == 0 { 0xffff_ffff_ffff_ffffu64 } else { (res - 1) as u64 }));
    assert(((w | st) & res) >> k == (if res > h || (res == h && (st & h) != 0) { 1u64 } else { 0u64 })) by (bit_vector)
        requires k < 63, h == 1u64 << k, res < 2 * h, h <= 0x4000_0000_0000_0000u64, w == (if res == 0 { 0xffff_ffff_ffff_ffffu64 } else { (res - 1) as u64 });
}
}
}
#end
#module dep_tensor
#from src/commons/math/tensor/tensor.rs
#drop struct:Tensor
#ghost
use crate::dec::*;
#fn Tensor::allocate
ensures r.sv() == Seq::new(size as nat, |i: int| value),
#fn Tensor::from_container
ensures r.0 == cont,
#fn Tensor::into_container
ensures r == self.0,
#fn Tensor::as_container
ensures *r == self.0,
#fn Tensor::as_mut_container
ensures *r == old(self).0, final(self).0 == *final(r),
#fn Tensor::len
ensures r == self.sv().len(),
#fn Tensor::first
requires 0 < self.sv().len(),
ensures *r == self.sv()[0],
#fn Tensor::first_mut
requires 0 < old(self).sv().len(),
ensures *r == old(self).sv()[0], final(self).sv() == old(self).sv().update(0, *final(r)), final(self).fut() == old(self).fut(),
#fn Tensor::get_sub
requires 0 <= index.lo(self.sv().len()) <= index.hi(self.sv().len()) <= self.sv().len(),
ensures r.sv() == self.sv().subrange(index.lo(self.sv().len()), index.hi(self.sv().len())),
#fn Tensor::get_sub_mut
requires 0 <= index.lo(old(self).sv().len()) <= index.hi(old(self).sv().len()) <= old(self).sv().len(),
ensures r.sv() == old(self).sv().subrange(index.lo(old(self).sv().len()), index.hi(old(self).sv().len())), r.fut().len() == r.sv().len(), final(self).fut() == old(self).fut(),
  final(self).sv() == old(self).sv().subrange(0, index.lo(old(self).sv().len())) + r.fut() + old(self).sv().subrange(index.hi(old(self).sv().len()), old(self).sv().len() as int),
#fn Tensor::get_element
requires index < self.sv().len(),
ensures *r == self.sv()[index as int],
#fn Tensor::get_element_mut
requires index < old(self).sv().len(),
ensures *r == old(self).sv()[index as int], final(self).sv() == old(self).sv().update(index as int, *final(r)), final(self).fut() == old(self).fut(),
#fn Tensor::fill_with_copy
requires other.sv().len() == old(self).sv().len(),
ensures final(self).sv() == other.sv(), final(self).fut() == old(self).fut(),
#fn Tensor::fill_with_element
ensures final(self).sv() == Seq::new(old(self).sv().len(), |i: int| element), final(self).fut() == old(self).fut(),
#at start
let ghost __s = self.sv();
let ghost __f = self.fut();
#loop 0
invariant self.sv().len() == __s.len(), __n0 == __s.len(), self.fut() == __f, forall|i: int| 0 <= i < __k0 ==> self.sv()[i] == element,
#at loop0.after
proof { assert(self.sv() =~= Seq::new(__s.len(), |i: int| element)); }
#fn Tensor::update_with_wrapping_add
requires other.sv().len() == old(self).sv().len(),
ensures final(self).sv() == padd(old(self).sv(), other.sv()), final(self).fut() == old(self).fut(),
#at start
let ghost __s = self.sv();
let ghost __f = self.fut();
#loop 0
invariant self.sv().len() == __s.len(), __n0 == __s.len(), other.sv().len() == __s.len(), self.fut() == __f, forall|i: int| __k0 <= i < __s.len() ==> self.sv()[i] == __s[i],
  forall|i: int| 0 <= i < __k0 ==> self.sv()[i] == padd(__s, other.sv())[i],
#at loop0.after
proof { assert(self.sv() =~= padd(__s, other.sv())); }
#fn Tensor::update_with_wrapping_sub
requires other.sv().len() == old(self).sv().len(),
ensures final(self).sv() == psub(old(self).sv(), other.sv()), final(self).fut() == old(self).fut(),
#at start
let ghost __s = self.sv();
let ghost __f = self.fut();
#loop 0
invariant self.sv().len() == __s.len(), __n0 == __s.len(), other.sv().len() == __s.len(), self.fut() == __f, forall|i: int| __k0 <= i < __s.len() ==> self.sv()[i] == __s[i],
  forall|i: int| 0 <= i < __k0 ==> self.sv()[i] == psub(__s, other.sv())[i],
#at loop0.after
proof { assert(self.sv() =~= psub(__s, other.sv())); }
#fn Tensor::update_with_wrapping_scalar_mul
ensures final(self).sv() == pscale(old(self).sv(), *element), final(self).fut() == old(self).fut(),
#at start
let ghost __s = self.sv();
let ghost __f = self.fut();
#loop 0
invariant self.sv().len() == __s.len(), __n0 == __s.len(), self.fut() == __f, forall|i: int| __k0 <= i < __s.len() ==> self.sv()[i] == __s[i],
  forall|i: int| 0 <= i < __k0 ==> self.sv()[i] == pscale(__s, *element)[i],
#at loop0.after
proof { assert(self.sv() =~= pscale(__s, *element)); }
#fn Tensor::update_with_wrapping_neg
ensures final(self).sv() == pneg(old(self).sv()), final(self).fut() == old(self).fut(),
#at start
let ghost __s = self.sv();
let ghost __f = self.fut();
#loop 0
invariant self.sv().len() == __s.len(), __n0 == __s.len(), self.fut() == __f, forall|i: int| __k0 <= i < __s.len() ==> self.sv()[i] == __s[i],
  forall|i: int| 0 <= i < __k0 ==> self.sv()[i] == pneg(__s)[i],
#at loop0.after
proof { assert(self.sv() =~= pneg(__s)); }
#fn Tensor::reverse
ensures final(self).sv() == Seq::new(old(self).sv().len(), |i: int| old(self).sv()[old(self).sv().len() - 1 - i]), final(self).fut() == old(self).fut(),
#fn Tensor::rotate_left
requires n <= old(self).sv().len(),
ensures final(self).sv() == old(self).sv().subrange(n as int, old(self).sv().len() as int) + old(self).sv().subrange(0, n as int), final(self).fut() == old(self).fut(),
#module dep_term
#from src/commons/math/decomposition/term.rs
#fn DecompositionTerm::new
ensures r.value == value,
#fn DecompositionTerm::value
ensures r == self.value,
#fn DecompositionTermTensor::new
ensures r.tensor == tensor,
#fn DecompositionTermTensor::as_tensor
ensures *r == self.tensor,
#module dep_iter
#from src/commons/math/decomposition/iter.rs
#ghost
use crate::dec::*;
use crate::dep_term::*;
impl TensorSignedDecompositionIter<u64> {
    // about to give the digits of level next of y
    pub open spec fn at(&self, b: int, l: int, y: Seq<u64>, next: int) -> bool {
        &&& self.base_log == b && self.level_count == l && self.current_level == next && 0 < b * l < 64 && 0 <= next <= l && 1 <= b < 64
        &&& self.mod_b_mask == pow2(b as nat) - 1
        &&& self.states@.len() == y.len() && self.outputs@.len() == y.len()
        &&& forall|i: int| 0 <= i < y.len() ==> #[trigger] self.states@[i] == sd_state(b, top(b, l, y[i]), (l - next) as nat)
    }
}
impl SignedDecompositionIter<u64> {
    pub open spec fn at(&self, b: int, l: int, y: u64, next: int) -> bool {
        &&& self.base_log == b && self.level_count == l && self.current_level == next && 0 < b * l < 64 && 0 <= next <= l && 1 <= b < 64
        &&& self.mod_b_mask == pow2(b as nat) - 1
        &&& self.state == sd_state(b, top(b, l, y), (l - next) as nat)
    }
}
impl SignedDecompositionIter<u64> {
    // what a for loop over the iterator does
    pub fn it_len(&self) -> (r: usize) ensures r == self.current_level { self.current_level }
    pub fn it_next(&mut self, k: usize) -> (r: DecompositionTerm<u64>)
        requires old(self).mod_b_mask == pow2(old(self).base_log as nat) - 1, 1 <= old(self).base_log < 64, old(self).current_level > 0,
        ensures forall|b: int, l: int, y: u64, next: int| #[trigger] old(self).at(b, l, y, next) && next > 0 ==> final(self).at(b, l, y, next - 1) && r.value == digit(b, l, y, next),
    { match self.next() { Some(t) => t, None => vpanic() } }
}
#fn decompose_one_level
requires 1 <= base_log < 64, mod_b_mask == pow2(base_log as nat) - 1,
ensures r == wrap(sd_dig(base_log as int, *old(state) as int)), *final(state) == sd_next(base_log as int, *old(state) as int),
#at start
let ghost (__s, __b) = (*state, base_log);
proof {
    let h = 1u64 << ((__b - 1) as u64);
    l_mask(__b); l_shr(__s, __b); l_and(__s, __b, mod_b_mask);
    lemma_shl1((__b - 1) as usize);
    lemma_pow2_64(); lemma2_to64();
    let res = __s & mod_b_mask;
    let st = __s >> __b;
    l_carry(res, st, __b, h);
    l_bit(st, (__b - 1) as usize, h);
    assert(st as int <= 0x7fff_ffff_ffff_ffff) by (nonlinear_arith) requires st == (__s as int) / (pow2(__b as nat) as int), pow2(__b as nat) >= 2, __s < 0x1_0000_0000_0000_0000;
}
#at ret
proof {
    let res = __s & mod_b_mask;
    let c = sd_carry(__b as int, __s as int) as u64;
    l_shl(c, __b);
}
#fn TensorSignedDecompositionIter::new
requires 0 < base_log.0 * level.0 < 64, 
ensures r.at(base_log.0 as int, level.0 as int, input.sv(), level.0 as int),
#at start
let ghost (__x, __b, __l) = (input.sv(), base_log.0, level.0);
proof { l_bl(__b as int, __l as int); l_mask(__b); }
#loop 0
invariant __n0 == __x.len(), input.sv() == __x, 0 < __b * __l < 64, base_log.0 == __b, level.0 == __l, forall|i: int| 0 <= i < __k0 ==> #[trigger] __c0@[i] == sd_state(__b as int, top(__b as int, __l as int, __x[i]), 0),
#at loop0.end
proof { l_shr(__x[__j0 as int], (64 - __b * __l) as usize); }
#fn TensorSignedDecompositionIter::next_term
requires old(self).mod_b_mask == pow2(old(self).base_log as nat) - 1, 1 <= old(self).base_log < 64, old(self).outputs@.len() == old(self).states@.len(),
ensures
  old(self).current_level == 0 ==> r is None,
  old(self).current_level > 0 ==> r is Some,
  forall|b: int, l: int, y: Seq<u64>, next: int| #[trigger] old(self).at(b, l, y, next) && next > 0 ==> final(self).at(b, l, y, next - 1) && r->Some_0.tensor.sv() == pdigit0(b, l, y, next),
#at start
let ghost (__s, __b, __m, __n) = (self.states@, self.base_log, self.mod_b_mask, self.current_level);
#loop 0
invariant __n0 == __s.len(), self.states@.len() == __s.len(), self.outputs@.len() == __s.len(), self.base_log == __b, self.mod_b_mask == __m, __m == pow2(__b as nat) - 1, 1 <= __b < 64,
  self.current_level == __n, self.level_count == old(self).level_count,
  forall|i: int| __k0 <= i < __s.len() ==> #[trigger] self.states@[i] == __s[i],
  forall|i: int| 0 <= i < __k0 ==> #[trigger] self.states@[i] == sd_next(__b as int, __s[i] as int),
  forall|i: int| 0 <= i < __k0 ==> #[trigger] self.outputs@[i] == wrap(sd_dig(__b as int, __s[i] as int)),
#at ret
proof {
    assert forall|b: int, l: int, y: Seq<u64>, next: int| #[trigger] old(self).at(b, l, y, next) && next > 0 implies self.at(b, l, y, next - 1) && __r->Some_0.tensor.sv() == pdigit0(b, l, y, next) by {
        assert forall|i: int| 0 <= i < y.len() implies #[trigger] self.states@[i] == sd_state(b, top(b, l, y[i]), (l - (next - 1)) as nat) by { assert(__s[i] == sd_state(b, top(b, l, y[i]), (l - next) as nat)); }
        assert forall|i: int| 0 <= i < y.len() implies #[trigger] self.outputs@[i] == digit(b, l, y[i], next) by { assert(__s[i] == sd_state(b, top(b, l, y[i]), (l - next) as nat)); }
        assert(__r->Some_0.tensor.sv() =~= pdigit0(b, l, y, next));
    }
}
#fn SignedDecompositionIter::new
requires 0 < base_log.0 * level.0 < 64, 
ensures r.at(base_log.0 as int, level.0 as int, input, level.0 as int),
#at start
proof { l_bl(base_log.0 as int, level.0 as int); l_mask(base_log.0); l_shr(input, (64 - base_log.0 * level.0) as usize); }
#fn SignedDecompositionIter::next
requires old(self).mod_b_mask == pow2(old(self).base_log as nat) - 1, 1 <= old(self).base_log < 64,
ensures
  old(self).current_level == 0 ==> r is None,
  old(self).current_level > 0 ==> r is Some,
  forall|b: int, l: int, y: u64, next: int| #[trigger] old(self).at(b, l, y, next) && next > 0 ==> final(self).at(b, l, y, next - 1) && r->Some_0.value == digit(b, l, y, next),
#module dep_decomposer
#from src/commons/math/decomposition/decomposer.rs
#ghost
use crate::dec::*;
use crate::dep_iter::*;
#fn SignedDecomposer::new
requires 64 > base_log.0 * level_count.0,
ensures r.base_log == base_log.0, r.level_count == level_count.0,
#fn SignedDecomposer::base_log
ensures r.0 == self.base_log,
#fn SignedDecomposer::level_count
ensures r.0 == self.level_count,
#fn SignedDecomposer::closest_representable
requires 0 < self.base_log * self.level_count < 64,
ensures r == closest(self.base_log as int, self.level_count as int, input), closest(self.base_log as int, self.level_count as int, r) == r,
#at start
let ghost (__b, __l) = (self.base_log as int, self.level_count as int);
proof { l_closest(__b, __l, input); assert(__b * __l == __l * __b) by (nonlinear_arith); }
#fn SignedDecomposer::fill_tensor_with_closest_representable
requires 0 < self.base_log * self.level_count < 64, old(output).sv().len() == input.sv().len(),
ensures final(output).sv() == pclosest(self.base_log as int, self.level_count as int, input.sv()), final(output).fut() == old(output).fut(),
  pclosest(self.base_log as int, self.level_count as int, final(output).sv()) == final(output).sv(),
#loop 0
invariant __n0 == input.sv().len(), output.sv().len() == __n0, output.fut() == old(output).fut(), 0 < self.base_log * self.level_count < 64,
  forall|i: int| 0 <= i < __k0 ==> #[trigger] output.sv()[i] == closest(self.base_log as int, self.level_count as int, input.sv()[i]),
  forall|i: int| 0 <= i < __k0 ==> closest(self.base_log as int, self.level_count as int, #[trigger] output.sv()[i]) == output.sv()[i],
#at loop0.after
proof { assert(output.sv() =~= pclosest(self.base_log as int, self.level_count as int, input.sv())); assert(pclosest(self.base_log as int, self.level_count as int, output.sv()) =~= output.sv()); }
#fn SignedDecomposer::decompose
requires 0 < self.base_log * self.level_count < 64,
ensures r.at(self.base_log as int, self.level_count as int, closest(self.base_log as int, self.level_count as int, input), self.level_count as int),
#fn SignedDecomposer::decompose_tensor
requires 0 < self.base_log * self.level_count < 64,
ensures r.at(self.base_log as int, self.level_count as int, pclosest(self.base_log as int, self.level_count as int, input.sv()), self.level_count as int),
#module dep_poly
#from src/commons/math/polynomial/polynomial.rs
#drop struct:Polynomial
#ghost
use crate::dec::*;
//
#fn Polynomial::allocate
ensures r.sv() == Seq::new(coef_count.0 as nat, |i: int| value),
#fn Polynomial::from_container
ensures r.tensor.0 == cont,
#fn Polynomial::polynomial_size
ensures r.0 == self.sv().len(),
#fn Polynomial::as_view
ensures r.sv() == self.sv(),
#fn Polynomial::as_mut_view
ensures r.sv() == old(self).sv(), final(self).sv() == r.fut(), r.fut().len() == r.sv().len(), final(self).fut() == old(self).fut(),
#ghost
// the coefficient of X^k after the terms a_0..a_{i-1} and, of a_i, the products with b_0..b_{m-1}
pub open spec fn part(a: Seq<u64>, b: Seq<u64>, k: int, i: int, m: int) -> u64 {
    wrap(pmulc(a, b, k, i as nat) + if pidx(b.len() as int, k - i) < m { a[i] * bcoef(b, k - i) } else { 0 })
}
pub open spec fn pidx(n: int, j: int) -> int { if j >= 0 { j } else { j + n } }
pub proof fn l_part(a: Seq<u64>, b: Seq<u64>, k: int, i: int, j: int, t: int, o: u64)
    requires a.len() == b.len(), 0 <= k < a.len(), 0 <= i < a.len(), 0 <= j < a.len(), t == i + j, o == part(a, b, k, i, j),
    ensures t < a.len() ==> part(a, b, k, i, j + 1) == if k == t { wadd(o, wmul(a[i], b[j])) } else { o },
        t >= a.len() ==> t % (a.len() as int) == t - a.len() && part(a, b, k, i, j + 1) == if k == t - a.len() { wsub(o, wmul(a[i], b[j])) } else { o },
{
    let n = a.len() as int;
    let p = pmulc(a, b, k, i as nat);
    let (x, y) = (a[i] as int, b[j] as int);
    if t >= n { lemma_fundamental_div_mod_converse(t, n, 1, t - n); }
    if pidx(n, k - i) == j {
        assert(x * (-y) == -(x * y)) by (nonlinear_arith);
        l_wrap2(p, x * y);
    }
}
pub proof fn l_wrap2(p: int, q: int)
    ensures wadd(wrap(p), wrap(q)) == wrap(p + q), wsub(wrap(p), wrap(q)) == wrap(p - q),
{
    vstd::arithmetic::div_mod::lemma_add_mod_noop(p, q, 0x1_0000_0000_0000_0000);
    vstd::arithmetic::div_mod::lemma_sub_mod_noop(p, q, 0x1_0000_0000_0000_0000);
}
pub proof fn l_assoc(z: u64, p: u64, q: u64)
    ensures wadd(wadd(z, p), q) == wadd(z, wadd(p, q)), wsub(wadd(z, p), q) == wadd(z, wsub(p, q)),
        wsub(wsub(z, p), q) == wsub(z, wadd(p, q)), wadd(wsub(z, p), q) == wsub(z, wsub(p, q)),
{
    let (x, y, w) = (z as int, p as int, q as int);
    l_wrap1(z); l_wrap1(p); l_wrap1(q);
    l_wrap2(x + y, w); l_wrap2(x, y + w); l_wrap2(x, y - w); l_wrap2(x - y, w);
}
pub proof fn l_wrap1(z: u64)
    ensures wrap(z as int) == z,
{
    lemma_small_mod(z as nat, 0x1_0000_0000_0000_0000);
}
// z with the first i terms of a times b, and the first m products of term i, added (or subtracted)
pub open spec fn pm(sg: bool, z: u64, p: u64) -> u64 { if sg { wadd(z, p) } else { wsub(z, p) } }
#[verifier::opaque]
pub open spec fn upto(sg: bool, c: Seq<u64>, z: Seq<u64>, a: Seq<u64>, b: Seq<u64>, i: int, m: int) -> bool {
    &&& c.len() == a.len() && z.len() == a.len() && b.len() == a.len()
    &&& forall|k: int| 0 <= k < a.len() ==> #[trigger] c[k] == pm(sg, z[k], part(a, b, k, i, m))
}
pub proof fn l_upto_len(sg: bool, c: Seq<u64>, z: Seq<u64>, a: Seq<u64>, b: Seq<u64>, i: int, m: int)
    requires upto(sg, c, z, a, b, i, m),
    ensures c.len() == a.len(),
{ reveal(upto); }
pub proof fn l_upto_0(sg: bool, z: Seq<u64>, a: Seq<u64>, b: Seq<u64>)
    requires z.len() == a.len(), b.len() == a.len(),
    ensures upto(sg, z, z, a, b, 0, 0),
{
    reveal(upto);
    assert forall|k: int| 0 <= k < a.len() implies #[trigger] z[k] == pm(sg, z[k], part(a, b, k, 0, 0)) by { l_wrap1(z[k]); assert(part(a, b, k, 0, 0) == 0); }
}
pub proof fn l_upto_step(sg: bool, c: Seq<u64>, d: Seq<u64>, z: Seq<u64>, a: Seq<u64>, b: Seq<u64>, i: int, j: int)
    requires upto(sg, c, z, a, b, i, j), 0 <= i < a.len(), 0 <= j < a.len(),
        ({ let n = a.len() as int; let t = i + j; let q = wmul(a[i], b[j]);
           if t < n { d == c.update(t, pm(sg, c[t], q)) } else { d == c.update(t % n, pm(!sg, c[t % n], q)) } }),
    ensures upto(sg, d, z, a, b, i, j + 1),
{
    reveal(upto);
    let n = a.len() as int;
    let t = i + j;
    let q = wmul(a[i], b[j]);
    if t >= n { lemma_fundamental_div_mod_converse(t, n, 1, t - n); }
    assert forall|k: int| 0 <= k < n implies #[trigger] d[k] == pm(sg, z[k], part(a, b, k, i, j + 1)) by {
        let o = part(a, b, k, i, j);
        assert(c[k] == pm(sg, z[k], o));
        l_part(a, b, k, i, j, t, o);
        l_assoc(z[k], o, q);
    }
}
pub proof fn l_upto_row(sg: bool, c: Seq<u64>, z: Seq<u64>, a: Seq<u64>, b: Seq<u64>, i: int)
    requires upto(sg, c, z, a, b, i, a.len() as int), 0 <= i < a.len(),
    ensures i + 1 < a.len() ==> upto(sg, c, z, a, b, i + 1, 0),
        i + 1 == a.len() ==> c == (if sg { padd(z, pmul(a, b)) } else { psub(z, pmul(a, b)) }),
{
    reveal(upto);
    let n = a.len() as int;
    assert forall|k: int| 0 <= k < n implies #[trigger] c[k] == pm(sg, z[k], wrap(pmulc(a, b, k, (i + 1) as nat))) by { assert(part(a, b, k, i, n) == wrap(pmulc(a, b, k, (i + 1) as nat))); }
    if i + 1 < n {
        assert forall|k: int| 0 <= k < n implies #[trigger] c[k] == pm(sg, z[k], part(a, b, k, i + 1, 0)) by { assert(part(a, b, k, i + 1, 0) == wrap(pmulc(a, b, k, (i + 1) as nat))); }
    } else if sg {
        assert(c =~= padd(z, pmul(a, b)));
    } else {
        assert(c =~= psub(z, pmul(a, b)));
    }
}
#fn Polynomial::update_with_wrapping_add
requires other.sv().len() == old(self).sv().len(),
ensures final(self).sv() == padd(old(self).sv(), other.sv()), final(self).fut() == old(self).fut(),
#fn Polynomial::update_with_wrapping_sub
requires other.sv().len() == old(self).sv().len(),
ensures final(self).sv() == psub(old(self).sv(), other.sv()), final(self).fut() == old(self).fut(),
#fn Polynomial::update_with_wrapping_unit_monomial_div
requires monomial_degree.0 < old(self).sv().len(),
ensures final(self).sv() == pdivmono(old(self).sv(), monomial_degree.0 as int), final(self).fut() == old(self).fut(),
#at start
let ghost (__a, __f) = (self.sv(), self.fut());
let ghost __d = monomial_degree.0 as int;
let ghost __n = __a.len() as int;
proof { assert(__d / __n == 0 && __d % __n == __d) by { lemma_fundamental_div_mod_converse(__d, __n, 0, __d); } }
#loop 0
invariant false,
#at loop1.before
let ghost __b = self.sv();
assert(__b == __a.subrange(__d, __n) + __a.subrange(0, __d));
#loop 1
invariant __n1 == __d, self.sv().len() == __n, self.fut() == __f, __b.len() == __n,
  forall|i: int| 0 <= i < __n ==> #[trigger] self.sv()[i] == if i >= __n - __k1 { wneg(__b[i]) } else { __b[i] },
#at loop1.after
assert(self.sv() =~= pdivmono(__a, __d));
#fn Polynomial::fill_with_wrapping_mul
requires lhs.sv().len() == old(self).sv().len(), rhs.sv().len() == old(self).sv().len(), 0 < old(self).sv().len(), 2 * old(self).sv().len() <= usize::MAX,
ensures final(self).sv() == pmul(lhs.sv(), rhs.sv()), final(self).fut() == old(self).fut(),
#at start
let ghost (__a, __b, __f) = (lhs.sv(), rhs.sv(), self.fut());
let ghost __n = __a.len() as int;
#loop 0
invariant __n0 == __n, self.sv().len() == __n, self.fut() == __f, forall|i: int| 0 <= i < __k0 ==> #[trigger] self.sv()[i] == 0,
#loop 1
invariant __n1 == __n, self.sv().len() == __n, self.fut() == __f, degree == __n - 1, lhs.sv() == __a, rhs.sv() == __b, __b.len() == __n, 2 * __n <= usize::MAX,
  forall|k: int| 0 <= k < __n ==> #[trigger] self.sv()[k] == wrap(pmulc(__a, __b, k, __k1 as nat)),
#loop 2
invariant __n2 == __n, self.sv().len() == __n, self.fut() == __f, __k1 == __j1 + 1, lhsi.d == __j1, lhsi.c == __a[__j1 as int],
  forall|k: int| 0 <= k < __n ==> #[trigger] self.sv()[k] == part(__a, __b, k, __j1 as int, __k2 as int),
#at loop2.begin
let ghost __o = self.sv();
#at loop2.end
proof {
    assert forall|k: int| 0 <= k < __n implies #[trigger] self.sv()[k] == part(__a, __b, k, __j1 as int, __k2 as int) by {
        assert(__o[k] == part(__a, __b, k, __j1 as int, __j2 as int));
        l_part(__a, __b, k, __j1 as int, __j2 as int, target_degree as int, __o[k]);
    }
}
#at loop2.before
proof { assert forall|k: int| 0 <= k < __n implies #[trigger] self.sv()[k] == part(__a, __b, k, __j1 as int, 0) by { } }
#at loop2.after
proof { assert forall|k: int| 0 <= k < __n implies #[trigger] self.sv()[k] == wrap(pmulc(__a, __b, k, __k1 as nat)) by { assert(self.sv()[k] == part(__a, __b, k, __j1 as int, __n)); } }
#at loop1.after
assert(self.sv() =~= pmul(__a, __b));
#fn Polynomial::update_with_wrapping_add_mul
requires polynomial.sv().len() == old(self).sv().len(), bin_polynomial.sv().len() == old(self).sv().len(), is_bin(bin_polynomial.sv()), 0 < old(self).sv().len(), 2 * old(self).sv().len() <= usize::MAX,
ensures final(self).sv() == padd(old(self).sv(), pmul(polynomial.sv(), bin_polynomial.sv())), final(self).fut() == old(self).fut(),
#at start
let ghost (__a, __b, __f, __z) = (polynomial.sv(), bin_polynomial.sv(), self.fut(), self.sv());
let ghost __n = __a.len() as int;
proof { l_upto_0(true, __z, __a, __b); }
#loop 0
invariant __n0 == __n, self.fut() == __f, degree == __n - 1, polynomial.sv() == __a, bin_polynomial.sv() == __b, is_bin(__b), __z.len() == __n, __b.len() == __n, 2 * __n <= usize::MAX,
  __n == __a.len(), __k0 < __n ==> upto(true, self.sv(), __z, __a, __b, __k0 as int, 0), __k0 == __n ==> self.sv() == padd(__z, pmul(__a, __b)),
#loop 1
invariant __n1 == __n, __n == __a.len(), degree == __n - 1, self.fut() == __f, __k0 == __j0 + 1, lhsi.d == __j0, lhsi.c == __a[__j0 as int],
  upto(true, self.sv(), __z, __a, __b, __j0 as int, __k1 as int),
#at loop1.begin
let ghost __o = self.sv();
proof {
    assert(__b[__j1 as int] == 0 || __b[__j1 as int] == 1); let (x, y) = (lhsi.c as int, __b[__j1 as int] as int); assert(x * y == 0 || x * y == x) by (nonlinear_arith) requires y == 0 || y == 1;
    l_upto_len(true, __o, __z, __a, __b, __j0 as int, __j1 as int);
    lemma_small_mod((x * y) as nat, 0x1_0000_0000_0000_0000);
}
#at loop1.end
proof { l_upto_step(true, __o, self.sv(), __z, __a, __b, __j0 as int, __j1 as int); }
#at loop1.after
proof { l_upto_row(true, self.sv(), __z, __a, __b, __j0 as int); }
#fn Polynomial::update_with_wrapping_add_multisum
requires coef_list.sv().len() == old(self).sv().len(), bin_list.sv().len() == old(self).sv().len(), coef_list.poly_size.0 == old(self).sv().len(), bin_list.poly_size.0 == old(self).sv().len(),
  is_bin(bin_list.sv()), 0 < old(self).sv().len(), 2 * old(self).sv().len() <= usize::MAX,
ensures final(self).sv() == padd(old(self).sv(), pmul(coef_list.sv(), bin_list.sv())), final(self).fut() == old(self).fut(),
#at start
let ghost __z = self.sv();
proof { lemma_fundamental_div_mod_converse(__z.len() as int, __z.len() as int, 1, 0); }
#loop 0
invariant __n0 == 1, self.fut() == old(self).fut(), self.sv().len() == __z.len(), __k0 == 0 ==> self.sv() == __z,
  __k0 == 1 ==> self.sv() == padd(__z, pmul(coef_list.sv(), bin_list.sv())),
#fn Polynomial::update_with_wrapping_sub_mul
requires polynomial.sv().len() == old(self).sv().len(), bin_polynomial.sv().len() == old(self).sv().len(), is_bin(bin_polynomial.sv()), 0 < old(self).sv().len(), 2 * old(self).sv().len() <= usize::MAX,
ensures final(self).sv() == psub(old(self).sv(), pmul(polynomial.sv(), bin_polynomial.sv())), final(self).fut() == old(self).fut(),
#at start
let ghost (__a, __b, __f, __z) = (polynomial.sv(), bin_polynomial.sv(), self.fut(), self.sv());
let ghost __n = __a.len() as int;
proof { l_upto_0(false, __z, __a, __b); }
#loop 0
invariant __n0 == __n, self.fut() == __f, degree == __n - 1, polynomial.sv() == __a, bin_polynomial.sv() == __b, is_bin(__b), __z.len() == __n, __b.len() == __n, 2 * __n <= usize::MAX,
  __n == __a.len(), __k0 < __n ==> upto(false, self.sv(), __z, __a, __b, __k0 as int, 0), __k0 == __n ==> self.sv() == psub(__z, pmul(__a, __b)),
#loop 1
invariant __n1 == __n, __n == __a.len(), degree == __n - 1, self.fut() == __f, __k0 == __j0 + 1, lhsi.d == __j0, lhsi.c == __a[__j0 as int],
  upto(false, self.sv(), __z, __a, __b, __j0 as int, __k1 as int),
#at loop1.begin
let ghost __o = self.sv();
proof {
    assert(__b[__j1 as int] == 0 || __b[__j1 as int] == 1); let (x, y) = (lhsi.c as int, __b[__j1 as int] as int); assert(x * y == 0 || x * y == x) by (nonlinear_arith) requires y == 0 || y == 1;
    l_upto_len(false, __o, __z, __a, __b, __j0 as int, __j1 as int);
    lemma_small_mod((x * y) as nat, 0x1_0000_0000_0000_0000);
}
#at loop1.end
proof { l_upto_step(false, __o, self.sv(), __z, __a, __b, __j0 as int, __j1 as int); }
#at loop1.after
proof { l_upto_row(false, self.sv(), __z, __a, __b, __j0 as int); }
#fn Polynomial::update_with_wrapping_sub_multisum
requires coef_list.sv().len() == old(self).sv().len(), bin_list.sv().len() == old(self).sv().len(), coef_list.poly_size.0 == old(self).sv().len(), bin_list.poly_size.0 == old(self).sv().len(),
  is_bin(bin_list.sv()), 0 < old(self).sv().len(), 2 * old(self).sv().len() <= usize::MAX,
ensures final(self).sv() == psub(old(self).sv(), pmul(coef_list.sv(), bin_list.sv())), final(self).fut() == old(self).fut(),
#at start
let ghost __z = self.sv();
proof { lemma_fundamental_div_mod_converse(__z.len() as int, __z.len() as int, 1, 0); }
#loop 0
invariant __n0 == 1, self.fut() == old(self).fut(), self.sv().len() == __z.len(), __k0 == 0 ==> self.sv() == __z,
  __k0 == 1 ==> self.sv() == psub(__z, pmul(coef_list.sv(), bin_list.sv())),
// Encryption and decryption. Panacea uses GLWE dimension 1 only, so that is what the contracts ask for.
#module dep_glwe_body
#from src/commons/crypto/glwe/body.rs
#drop struct:GlweBody
#ghost
use crate::dec::*;
#fn GlweBody::as_polynomial
ensures r.sv() == self.sv(),
#fn GlweBody::as_mut_polynomial
ensures r.sv() == old(self).sv(), final(self).sv() == r.fut(), r.fut().len() == r.sv().len(), final(self).fut() == old(self).fut(),
#module dep_glwe_mask
#from src/commons/crypto/glwe/mask.rs
#drop struct:GlweMask
#drop struct:GlweMaskElement
#ghost
use crate::dec::*;
#fn GlweMask::as_polynomial_list
requires self.poly_size.0 > 0, self.sv().len() == self.poly_size.0,
ensures r.sv() == self.sv(), r.poly_size == self.poly_size,
#at start
proof { lemma_fundamental_div_mod_converse(self.sv().len() as int, self.poly_size.0 as int, 1, 0); }
#fn GlweMask::as_mut_polynomial_list
requires old(self).poly_size.0 > 0, old(self).sv().len() == old(self).poly_size.0,
ensures r.sv() == old(self).sv(), r.poly_size == old(self).poly_size, final(self).sv() == r.fut(), r.fut().len() == r.sv().len(), final(self).fut() == old(self).fut(), final(self).poly_size == old(self).poly_size,
#at start
proof { lemma_fundamental_div_mod_converse(self.sv().len() as int, self.poly_size.0 as int, 1, 0); }
#module dep_poly_list
#from src/commons/math/polynomial/list.rs
#drop struct:PolynomialList
#ghost
use crate::dec::*;
#fn PolynomialList::from_container
requires poly_size.0 > 0, cont.sv().len() % (poly_size.0 as nat) == 0,
ensures r.tensor.0 == cont, r.poly_size == poly_size,
#fn PolynomialList::polynomial_count
requires self.poly_size.0 > 0,
ensures r.0 == self.sv().len() / (self.poly_size.0 as nat),
#fn PolynomialList::get_polynomial
requires self.poly_size.0 > 0, (n + 1) * self.poly_size.0 <= self.sv().len(),
ensures r.sv() == self.sv().subrange(n * self.poly_size.0, (n + 1) * self.poly_size.0),
    n == 0 && self.sv().len() == self.poly_size.0 ==> r.sv() == self.sv(),
#at start
proof { let (a, b) = (n as int, self.poly_size.0 as int); assert((a + 1) * b == a * b + b && a * b >= 0 && a + 1 <= (a + 1) * b) by (nonlinear_arith) requires a >= 0, b > 0; }
let __len = self.as_slice().len();
proof { assert(self.sv().subrange(0, self.sv().len() as int) =~= self.sv()); }
#fn PolynomialList::get_mut_polynomial
requires old(self).poly_size.0 > 0, (n + 1) * old(self).poly_size.0 <= old(self).sv().len(),
ensures r.sv() == old(self).sv().subrange(n * old(self).poly_size.0, (n + 1) * old(self).poly_size.0),
    final(self).sv() == old(self).sv().subrange(0, n * old(self).poly_size.0) + r.fut() + old(self).sv().subrange((n + 1) * old(self).poly_size.0, old(self).sv().len() as int),
    r.fut().len() == r.sv().len(),
    n == 0 && old(self).sv().len() == old(self).poly_size.0 ==> r.sv() == old(self).sv() && final(self).sv() == r.fut(),
    final(self).fut() == old(self).fut(), final(self).poly_size == old(self).poly_size,
#at start
proof { let (a, b) = (n as int, self.poly_size.0 as int); assert((a + 1) * b == a * b + b && a * b >= 0 && a + 1 <= (a + 1) * b) by (nonlinear_arith) requires a >= 0, b > 0; }
let __len = self.as_slice().len();
proof { assert(self.sv().subrange(0, self.sv().len() as int) =~= self.sv()); }
proof {
    let s = self.sv(); let e = s.len() as int;
    if n == 0 && e == self.poly_size.0 {
        assert(n * self.poly_size.0 == 0 && (n + 1) * self.poly_size.0 == e) by (nonlinear_arith) requires n == 0, e == self.poly_size.0;
        assert forall|f: Seq<u64>| #[trigger] (s.subrange(0, 0) + f + s.subrange(e, e)) == f by { assert(s.subrange(0, 0) + f + s.subrange(e, e) =~= f); }
    }
}
#module dep_plain
#from src/commons/crypto/encoding/plaintext.rs
#drop struct:Plaintext
#drop struct:PlaintextList
#ghost
use crate::dec::*;
#fn PlaintextList::allocate
ensures r.sv() == Seq::new(count.0 as nat, |i: int| value),
#fn PlaintextList::from_container
ensures r.tensor.0 == cont,
#fn PlaintextList::from_tensor
ensures r.tensor == tensor,
#fn PlaintextList::count
ensures r.0 == self.sv().len(),
#fn PlaintextList::as_polynomial
ensures r.sv() == self.sv(),
#fn PlaintextList::as_mut_polynomial
ensures r.sv() == old(self).sv(), final(self).sv() == r.fut(), r.fut().len() == r.sv().len(), final(self).fut() == old(self).fut(),
#module dep_glwe_key
#from src/commons/crypto/secret/glwe.rs
#drop struct:GlweSecretKey
#fn GlweSecretKey::generate_binary
requires dimension.0 == 1,
ensures r.sv().len() == poly_size.0, r.poly_size == poly_size, is_bin(r.sv()), final(generator).root() == old(generator).root(),
#fn GlweSecretKey::binary_from_container
requires poly_size.0 > 0, cont.sv().len() % (poly_size.0 as nat) == 0,
ensures r.tensor.0 == cont, r.poly_size == poly_size,
#fn GlweSecretKey::key_size
requires self.wf(),
ensures r.0 == 1,
#at start
proof { lemma_fundamental_div_mod_converse(self.sv().len() as int, self.poly_size.0 as int, 1, 0); }
#fn GlweSecretKey::polynomial_size
ensures r == self.poly_size,
#fn GlweSecretKey::as_polynomial_list
requires self.wf(),
ensures r.sv() == self.sv(), r.poly_size == self.poly_size,
#at start
proof { lemma_fundamental_div_mod_converse(self.sv().len() as int, self.poly_size.0 as int, 1, 0); }
#fn GlweSecretKey::fill_glwe_mask_and_body_for_encryption
requires self.wf(), is_bin(self.sv()), output_body.sv().len() == self.sv().len(), output_mask.sv().len() == self.sv().len(), output_mask.poly_size == self.poly_size, encoded.sv().len() == self.sv().len(),
ensures drawn(old(generator).root(), old(generator).ctr(), output_mask.fut()), output_mask.fut().len() == self.sv().len(), output_body.fut().len() == self.sv().len(),
  near(psub(output_body.fut(), pmul(output_mask.fut(), self.sv())), encoded.sv(), noise_parameters.nb() as int),
  final(generator).root() == old(generator).root(), final(generator).ctr() == old(generator).ctr() + 1,
#fn GlweSecretKey::encrypt_glwe
requires self.wf(), is_bin(self.sv()), old(encrypted).wf(), old(encrypted).poly_size == self.poly_size, encoded.sv().len() == self.sv().len(),
ensures final(encrypted).wf(), final(encrypted).poly_size == old(encrypted).poly_size, final(encrypted).fut() == old(encrypted).fut(),
  near(phase(final(encrypted).sv(), self.sv()), encoded.sv(), noise_parameter.nb() as int), fresh(final(encrypted).sv(), self.sv(), old(generator).root(), old(generator).ctr()),
  final(generator).root() == old(generator).root(), final(generator).ctr() == old(generator).ctr() + 1,
#at before:fill_glwe_mask_and_body_for_encryption#0
let ghost (__b, __m) = (body.fut(), masks.fut());
#at ret
proof {
    reveal(fresh);
    assert(encrypted.sv().subrange(0, self.sv().len() as int) =~= __m);
    assert(body_of(encrypted.sv(), self.sv().len()) =~= __b);
}
#fn GlweSecretKey::decrypt_glwe
requires self.wf(), is_bin(self.sv()), encrypted.wf(), encrypted.poly_size == self.poly_size, old(encoded).sv().len() == self.sv().len(),
ensures final(encoded).sv() == phase(encrypted.sv(), self.sv()), final(encoded).fut() == old(encoded).fut(),
#loop 0
invariant __n0 == self.sv().len(), __n0 == encoded.sv().len(), __n0 == body.sv().len(), encoded.fut() == old(encoded).fut(), forall|i: int| 0 <= i < __k0 ==> encoded.sv()[i] == body.sv()[i],
#at loop0.after
proof { assert(encoded.sv() =~= body.sv()); }
// The rows of a gadget encryption of a constant
#ghost
// what a level's two rows encrypt
pub proof fn l_factor(s: Seq<u64>, pt: u64, g: u64, f: u64)
    requires f == wmul(wneg(pt), g),
    ensures pscale(s, f) == pneg(pmul(pscale(pconst(s.len(), pt), g), s)), pconst(s.len(), wneg(f)) == pscale(pconst(s.len(), pt), g),
{
    let c = wmul(pt, g);
    let (x, y) = (pt as int, g as int);
    crate::rt::l_wmul_wrap(-x, g);
    assert(f == wrap(-x * y));
    assert(-x * y == -(x * y)) by (nonlinear_arith);
    w_neg(x * y);
    w_neg(-(x * y));
    assert(f == wneg(c) && wneg(f) == c);
    crate::rl::l_const_const(s.len(), pt, g);
    crate::rl::l_mul_const_l(s, c);
    assert forall|i: int| 0 <= i < s.len() implies #[trigger] wmul(s[i], f) == wneg(wmul(s[i], c)) by {
        let a = s[i] as int;
        crate::rt::l_wmul_wrap(-(x * y), s[i]); crate::rt::l_wmul_wrap(x * y, s[i]);
        assert(s[i] * f == f * s[i]) by (nonlinear_arith); assert(s[i] * c == c * s[i]) by (nonlinear_arith);
        assert(-(x * y) * a == -((x * y) * a)) by (nonlinear_arith);
        w_neg((x * y) * a);
    }
    assert(pscale(s, f) =~= pneg(pscale(s, c)));
}
pub proof fn w_neg(x: int) ensures wneg(wrap(x)) == wrap(-x)
{
    vstd::arithmetic::div_mod::lemma_sub_mod_noop_right(0, x, 0x1_0000_0000_0000_0000);
}
// rows of a ciphertext with its k-th level replaced
pub proof fn l_level(a: Seq<u64>, m: Seq<u64>, o: Seq<u64>, n: nat, l: nat, k: int)
    requires a.len() == 2 * l * (2 * n), 0 <= k < l, m.len() == 4 * n, o == a.subrange(0, k * (4 * n)) + m + a.subrange((k + 1) * (4 * n), a.len() as int),
    ensures o.len() == a.len(), row(o, n, 2 * k) == m.subrange(0, 2 * n as int), row(o, n, 2 * k + 1) == m.subrange(2 * n as int, 4 * n as int),
        row(o, n, 0) == if k == 0 { m.subrange(0, 2 * n as int) } else { row(a, n, 0) },
        forall|j: int| 0 <= j < k ==> #[trigger] row(o, n, 2 * j) == row(a, n, 2 * j), forall|j: int| 0 <= j < k ==> #[trigger] row(o, n, 2 * j + 1) == row(a, n, 2 * j + 1),
{
    assert(2 * l * (2 * n) == l * (4 * n) && 0 <= k * (4 * n) && (k + 1) * (4 * n) <= l * (4 * n) && (k + 1) * (4 * n) == k * (4 * n) + 4 * n
        && 2 * k * (2 * n) == k * (4 * n) && (2 * k + 1) * (2 * n) == k * (4 * n) + 2 * n && (2 * k + 2) * (2 * n) == k * (4 * n) + 4 * n) by (nonlinear_arith) requires 0 <= k < l;
    assert(row(o, n, 2 * k) =~= m.subrange(0, 2 * n as int));
    assert(row(o, n, 2 * k + 1) =~= m.subrange(2 * n as int, 4 * n as int));
    if k > 0 { l_part(a, m, o, n, 0, k); }
    assert forall|j: int| 0 <= j < k implies #[trigger] row(o, n, 2 * j) == row(a, n, 2 * j) by { l_part(a, m, o, n, 2 * j, k); }
    assert forall|j: int| 0 <= j < k implies #[trigger] row(o, n, 2 * j + 1) == row(a, n, 2 * j + 1) by { l_part(a, m, o, n, 2 * j + 1, k); }
}
pub proof fn l_part(a: Seq<u64>, m: Seq<u64>, o: Seq<u64>, n: nat, i: int, k: int)
    requires 0 <= i < 2 * k, k * (4 * n) <= a.len(), o.len() == a.len(), forall|t: int| 0 <= t < k * (4 * n) ==> o[t] == a[t],
    ensures row(o, n, i) == row(a, n, i),
{
    assert(0 <= i * (2 * n) && i * (2 * n) <= (i + 1) * (2 * n) && (i + 1) * (2 * n) <= k * (4 * n)) by (nonlinear_arith) requires 0 <= i < 2 * k;
    assert(row(o, n, i) =~= row(a, n, i));
}
#fn GlweSecretKey::encrypt_constant_ggsw_row
requires self.wf(), is_bin(self.sv()), old(row_as_glwe).wf(), old(row_as_glwe).poly_size == self.poly_size, sk_poly_list.sv() == self.sv(), sk_poly_list.poly_size == self.poly_size, __p0.0 <= __p0.1, __p0.1 == 1,
ensures final(row_as_glwe).wf(), final(row_as_glwe).poly_size == self.poly_size, final(row_as_glwe).fut() == old(row_as_glwe).fut(), final(row_as_glwe).sv().len() == old(row_as_glwe).sv().len(),
  near(phase(final(row_as_glwe).sv(), self.sv()), if __p0.0 == 0 { pscale(self.sv(), *factor) } else { pconst(self.sv().len(), wneg(*factor)) }, noise_parameters.nb() as int),
  fresh(final(row_as_glwe).sv(), self.sv(), old(generator).root(), old(generator).ctr()),
#at before:encrypt_glwe#1
proof { lemma_small_mod(wneg(*factor) as nat, 0x1_0000_0000_0000_0000); assert(encoded.sv() =~= pconst(self.sv().len(), wneg(*factor))); }
#fn GlweSecretKey::encrypt_constant_ggsw
requires self.wf(), is_bin(self.sv()), old(encrypted).wf(), old(encrypted).poly_size == self.poly_size, old(encrypted).base_log.0 > 0, old(encrypted).base_log.0 * old(encrypted).levels.0 <= 64,
ensures final(encrypted).wf(), final(encrypted).poly_size == old(encrypted).poly_size, final(encrypted).base_log == old(encrypted).base_log, final(encrypted).levels == old(encrypted).levels,
    is_rgsw(final(encrypted).sv(), self.sv().len(), final(encrypted).levels.0 as nat, final(encrypted).base_log.0 as int, self.sv(), pconst(self.sv().len(), encoded.0), noise_parameters.nb() as int),
    final(encrypted).levels.0 > 0 ==> fresh(final(encrypted).sv(), self.sv(), old(generator).root(), old(generator).ctr()),
    final(generator).root() == old(generator).root(), final(generator).ctr() == old(generator).ctr() + 1,
#at start
let ghost (__n, __b, __l, __s, __e, __pt) = (self.sv().len(), encrypted.base_log.0 as int, encrypted.levels.0 as nat, self.sv(), noise_parameters.nb() as int, encoded.0);
let ghost (__root, __ctr) = (generator.root(), generator.ctr());
#loop 0
invariant __n0 == __l, encrypted.wf(), encrypted.poly_size == self.poly_size, encrypted.base_log.0 == __b, encrypted.levels.0 == __l, encrypted.base_log == old(encrypted).base_log,
  forall|i: int| 0 <= i < __l ==> (#[trigger] __g__v0[i]).root() == __root && __g__v0[i].ctr() == __ctr,
  __g__v0.len() == __l,
  forall|k: int| 0 <= k < __k0 ==> near(phase(#[trigger] row(encrypted.sv(), __n, 2 * k), __s), top_row(pconst(__n, __pt), __s, __b, k + 1), __e),
  forall|k: int| 0 <= k < __k0 ==> near(phase(#[trigger] row(encrypted.sv(), __n, 2 * k + 1), __s), pscale(pconst(__n, __pt), gad(__b, k + 1)), __e),
  __k0 > 0 ==> fresh(row(encrypted.sv(), __n, 0), __s, __root, __ctr),
#at loop0.begin
let ghost __e0 = encrypted.sv();
#at before:wrapping_neg#0
let ghost (__mf, __f) = (matrix.fut(), wmul(wneg(__pt), gad(__b, __j0 + 1)));
proof {
    assert(1 <= __b * (__j0 + 1) <= __b * __l) by (nonlinear_arith) requires __b > 0, 0 <= __j0 < __l;
    lemma_shl1((64 - __b * (__j0 + 1)) as usize);
    l_factor(__s, __pt, gad(__b, __j0 + 1), __f);
}
#loop 1
invariant __n1 == 2, matrix.poly_size == self.poly_size, matrix.fut() == __mf, matrix.sv().len() == 4 * __n, factor == __f, last_row_index == 1,
  sk_poly_list.sv() == self.sv(), sk_poly_list.poly_size == self.poly_size,
  __g__v1.len() == 2, forall|i: int| 0 <= i < 2 ==> (#[trigger] __g__v1[i]).root() == __root && __g__v1[i].ctr() == __ctr,
  __k1 >= 1 ==> near(phase(matrix.sv().subrange(0, 2 * __n as int), __s), pscale(__s, __f), __e) && fresh(matrix.sv().subrange(0, 2 * __n as int), __s, __root, __ctr),
  __k1 == 2 ==> near(phase(matrix.sv().subrange(2 * __n as int, 4 * __n as int), __s), pconst(__n, wneg(__f)), __e),
#at loop1.begin
let ghost __m0 = matrix.sv();
#at before:encrypt_constant_ggsw_row#0
let ghost __rf = row.fut();
#at loop1.end
proof {
    if __j1 == 0 { assert(matrix.sv().subrange(0, 2 * __n as int) =~= __rf); }
    else { assert(matrix.sv().subrange(0, 2 * __n as int) =~= __m0.subrange(0, 2 * __n as int)); assert(matrix.sv().subrange(2 * __n as int, 4 * __n as int) =~= __rf); }
}
#at loop0.end
proof { l_level(__e0, __mf, encrypted.sv(), __n, __l, __j0 as int); }
#at ret
proof {
    reveal(fresh);
    if __l > 0 {
        assert(2 * __l * (2 * __n) >= 2 * __n) by (nonlinear_arith) requires __l > 0, __n >= 0;
        assert(0 * (2 * __n) == 0 && (0 + 1) * (2 * __n) == 2 * __n);
        assert(row(encrypted.sv(), __n, 0).subrange(0, __n as int) =~= encrypted.sv().subrange(0, __n as int)); }
}
#module dep_glwe_ct
#from src/commons/crypto/glwe/ciphertext.rs
#drop struct:GlweCiphertext
#drop struct:GlweMask
#drop struct:GlweBody
#ghost
use crate::dec::*;
//
#fn GlweCiphertext::allocate
requires poly_size.0 * size.0 <= usize::MAX,
ensures r.sv() == Seq::new((poly_size.0 * size.0) as nat, |i: int| value), r.poly_size == poly_size,
#fn GlweCiphertext::from_container
ensures r.tensor.0 == cont, r.poly_size == poly_size,
#fn GlweCiphertext::polynomial_size
ensures r == self.poly_size,
#fn GlweCiphertext::as_view
ensures r.sv() == self.sv(), r.poly_size == self.poly_size,
#fn GlweCiphertext::as_mut_view
ensures r.sv() == old(self).sv(), r.poly_size == old(self).poly_size, final(self).sv() == r.fut(), r.fut().len() == old(self).sv().len(),
    final(self).poly_size == old(self).poly_size, final(self).fut() == old(self).fut(),
#fn GlweCiphertext::size
requires self.wf(),
ensures r.0 == 2,
#at start
proof { lemma_fundamental_div_mod_converse(self.sv().len() as int, self.poly_size.0 as int, 2, 0); }
#fn GlweCiphertext::mask_size
requires self.wf(),
ensures r.0 == 1,
#fn GlweCiphertext::get_body
requires self.wf(),
ensures r.sv() == body_of(self.sv(), self.n()),
#fn GlweCiphertext::get_mask
requires self.wf(),
ensures r.sv() == mask_of(self.sv(), self.n()), r.poly_size == self.poly_size,
#fn GlweCiphertext::get_body_and_mask
requires self.wf(),
ensures r.0.sv() == body_of(self.sv(), self.n()), r.1.sv() == mask_of(self.sv(), self.n()), r.1.poly_size == self.poly_size,
#fn GlweCiphertext::get_mut_body
requires old(self).wf(),
ensures r.sv() == body_of(old(self).sv(), old(self).n()), r.fut().len() == old(self).n(),
    final(self).sv() == mask_of(old(self).sv(), old(self).n()) + r.fut(),
    final(self).poly_size == old(self).poly_size, final(self).fut() == old(self).fut(),
#fn GlweCiphertext::get_mut_mask
requires old(self).wf(),
ensures r.sv() == mask_of(old(self).sv(), old(self).n()), r.poly_size == old(self).poly_size, r.fut().len() == old(self).n(),
    final(self).sv() == r.fut() + body_of(old(self).sv(), old(self).n()),
    final(self).poly_size == old(self).poly_size, final(self).fut() == old(self).fut(),
#fn GlweCiphertext::get_mut_body_and_mask
requires old(self).wf(),
ensures r.0.sv() == body_of(old(self).sv(), old(self).n()), r.1.sv() == mask_of(old(self).sv(), old(self).n()), r.1.poly_size == old(self).poly_size,
    r.0.fut().len() == old(self).n(), r.1.fut().len() == old(self).n(), final(self).sv() == r.1.fut() + r.0.fut(),
    final(self).poly_size == old(self).poly_size, final(self).fut() == old(self).fut(),
#ghost
// reversed, the first n - k - 1 negated, rotated by as many
pub proof fn l_extract(m: Seq<u64>, r: Seq<u64>, g: Seq<u64>, o: Seq<u64>, k: int)
    requires 0 <= k < m.len(), r == Seq::new(m.len(), |i: int| m[m.len() - 1 - i]),
        g == r.subrange(0, 0) + pneg(r.subrange(0, m.len() - k - 1)) + r.subrange(m.len() - k - 1, m.len() as int),
        o == g.subrange(m.len() - k - 1, m.len() as int) + g.subrange(0, m.len() - k - 1),
    ensures o == Seq::new(m.len(), |i: int| wrap(bcoef(m, k - i))),
{
    assert forall|i: int| 0 <= i < m.len() implies #[trigger] o[i] == wrap(bcoef(m, k - i)) by {
        if i <= k { crate::dep_poly::l_wrap1(m[k - i]); }
    }
    assert(o =~= Seq::new(m.len(), |i: int| wrap(bcoef(m, k - i))));
}
#fn GlweCiphertext::fill_lwe_with_sample_extraction
requires self.wf(), old(lwe).sv().len() == self.n() + 1, n_th.0 < self.n(),
ensures final(lwe).sv() == sample_extract(self.sv(), self.n(), n_th.0 as int), final(lwe).fut() == old(lwe).fut(),
#at start
let ghost __m = mask_of(self.sv(), self.n());
proof { lemma_fundamental_div_mod_converse(self.n() as int, self.n() as int, 1, 0); }
#loop 0
invariant __n0 == 1, lwe_mask.fut() == __f, lwe_mask.sv().len() == self.n(), opposite_count == self.n() - n_th.0 - 1, __k0 == 0 ==> lwe_mask.sv() == __m,
  __k0 == 1 ==> lwe_mask.sv() == Seq::new(self.n(), |i: int| wrap(bcoef(__m, n_th.0 - i))),
#at before:fill_with_copy#0
let ghost __f = lwe_mask.fut();
#at before:reverse#0
let ghost __o = lwe_mask_poly.sv();
proof { assert(__o =~= __m); }
#at after:reverse#0
let ghost __r = lwe_mask_poly.sv();
#at before:rotate_left#0
let ghost __g1 = lwe_mask_poly.sv();
#at after:rotate_left#0
proof { l_extract(__m, __r, __g1, lwe_mask_poly.sv(), n_th.0 as int); }
#at ret
proof { assert(lwe.sv() =~= sample_extract(self.sv(), self.n(), n_th.0 as int)); }
#module dep_lwe_ct
#from src/commons/crypto/lwe/ciphertext.rs
#drop struct:LweCiphertext
#drop struct:LweMask
#drop struct:LweBody
#ghost
use crate::dec::*;
//
#fn LweCiphertext::allocate
ensures r.sv() == Seq::new(size.0 as nat, |i: int| value),
#fn LweCiphertext::lwe_size
ensures r.0 == self.sv().len(),
#fn LweCiphertext::fill_with_glwe_sample_extraction
requires glwe.wf(), old(self).sv().len() == glwe.n() + 1, n_th.0 < glwe.n(),
ensures final(self).sv() == sample_extract(glwe.sv(), glwe.n(), n_th.0 as int), final(self).fut() == old(self).fut(),
#fn LweMask::compute_multisum
requires self.sv().len() == key.sv().len(), is_bin(key.sv()),
ensures r == wrap(dot(self.sv(), key.sv(), key.sv().len())),
#loop 0
invariant __n0 == self.sv().len(), __n0 == key.sv().len(), is_bin(key.sv()), ac == wrap(dot(self.sv(), key.sv(), __k0 as nat)),
#at loop0.begin
proof {
    let (x, y) = (self.sv()[__j0 as int] as int, key.sv()[__j0 as int] as int);
    assert(y == 0 || y == 1); assert(0 <= x * y <= x) by (nonlinear_arith) requires y == 0 || y == 1, x >= 0;
    crate::dep_poly::l_wrap2(dot(self.sv(), key.sv(), __j0 as nat), x * y);
    crate::dep_poly::l_wrap1((x * y) as u64);
    assert(dot(self.sv(), key.sv(), (__j0 + 1) as nat) == dot(self.sv(), key.sv(), __j0 as nat) + x * y);
}
#module dep_lwe_key
#from src/commons/crypto/secret/lwe.rs
#drop struct:LweSecretKey
#fn LweSecretKey::generate_binary
ensures r.sv().len() == size.0, is_bin(r.sv()), final(generator).root() == old(generator).root(),
#fn LweSecretKey::key_size
ensures r.0 == self.sv().len(),
#ghost
use crate::dec::*;
pub proof fn l_dot(a: Seq<u64>, b: Seq<u64>, s: Seq<u64>, m: nat)
    requires m <= a.len(), m <= b.len(), m <= s.len(), forall|i: int| 0 <= i < m ==> a[i] == b[i],
    ensures dot(a, s, m) == dot(b, s, m),
    decreases m,
{ if m > 0 { l_dot(a, b, s, (m - 1) as nat); } }
// the phase of a ciphertext from its mask and body
pub proof fn l_phase(ct: Seq<u64>, a: Seq<u64>, b: u64, s: Seq<u64>)
    requires ct == a.push(b), a.len() == s.len(),
    ensures lwe_phase(ct, s) == wsub(b, wrap(dot(a, s, s.len()))), ct.subrange(0, s.len() as int) == a,
{
    l_dot(ct, a, s, s.len());
    crate::dep_poly::l_wrap2(b as int, dot(a, s, s.len()));
    crate::dep_poly::l_wrap1(b);
    assert(ct.subrange(0, s.len() as int) =~= a);
}
#fn LweSecretKey::fill_lwe_mask_and_body_for_encryption
requires is_bin(self.sv()), old(output_mask).sv().len() == self.sv().len(),
ensures drawn(old(generator).root(), old(generator).ctr(), final(output_mask).sv()), final(output_mask).sv().len() == self.sv().len(), final(output_mask).fut() == old(output_mask).fut(),
  cd(wsub(final(output_body).0, wrap(dot(final(output_mask).sv(), self.sv(), self.sv().len()))), encoded.0) <= noise_parameters.nb(),
  final(generator).root() == old(generator).root(), final(generator).ctr() == old(generator).ctr() + 1,
#fn LweSecretKey::encrypt_lwe
requires is_bin(self.sv()), old(output).sv().len() == self.sv().len() + 1,
ensures final(output).sv().len() == old(output).sv().len(), final(output).fut() == old(output).fut(),
  cd(lwe_phase(final(output).sv(), self.sv()), encoded.0) <= noise_parameters.nb(), fresh(final(output).sv(), self.sv(), old(generator).root(), old(generator).ctr()),
  final(generator).root() == old(generator).root(), final(generator).ctr() == old(generator).ctr() + 1,
#at ret
proof { reveal(fresh); l_phase(output.sv(), output_mask.sv(), output_body.0, self.sv()); }
#fn LweSecretKey::decrypt_lwe
requires is_bin(self.sv()), cipher.sv().len() == self.sv().len() + 1,
ensures final(output).0 == lwe_phase(cipher.sv(), self.sv()),
#at ret
proof { assert(cipher.sv() =~= masks.sv().push(body.0)); l_phase(cipher.sv(), masks.sv(), body.0, self.sv()); }
