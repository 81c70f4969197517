#prelude
verus! {
// ---------------------------------------------------------------- concrete-fft / concrete-core FFT back end (assumed, idealised as exact)
// A Fourier-domain polynomial is a vector of n/2 slots; each slot is modelled by the polynomial it is a value of
// (with its kind: torus or integer), so slotwise sums and products stand for sums and products in the ring.
pub mod ccf {
use vstd::prelude::*;
use crate::shim::*;
use crate::ring::*;
use crate::cc::*;
pub use crate::rl::gmul;
pub enum Slot { Zero, Torus(Seq<u64>), Integer(Seq<u64>), Mixed }
#[allow(non_camel_case_types)]
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct c64 { x: u64 }
impl c64 { pub uninterp spec fn slot(&self) -> Slot; }
pub open spec fn smul(a: Slot, b: Slot) -> Slot {
    match (a, b) {
        (Slot::Zero, _) => Slot::Zero, (_, Slot::Zero) => Slot::Zero,
        (Slot::Torus(p), Slot::Integer(q)) => Slot::Torus(pmul(p, q)), (Slot::Integer(q), Slot::Torus(p)) => Slot::Torus(pmul(p, q)),
        _ => Slot::Mixed,
    }
}
pub open spec fn sadd(a: Slot, b: Slot) -> Slot {
    match (a, b) {
        (Slot::Zero, x) => x, (x, Slot::Zero) => x,
        (Slot::Torus(p), Slot::Torus(q)) => Slot::Torus(padd(p, q)),
        _ => Slot::Mixed,
    }
}
#[verifier::external_body]
pub fn cmul(a: c64, b: c64) -> (r: c64) ensures r.slot() == smul(a.slot(), b.slot()) { unimplemented!() }
#[verifier::external_body]
pub fn cadd(a: c64, b: c64) -> (r: c64) ensures r.slot() == sadd(a.slot(), b.slot()) { unimplemented!() }
#[verifier::external_body]
pub fn czero() -> (r: c64) ensures r.slot() == Slot::Zero { unimplemented!() }

impl c64 { #[verifier::external_body] pub fn default() -> (r: c64) ensures r.slot() == Slot::Zero { unimplemented!() } }
pub trait CSlice { spec fn cv(&self) -> Seq<c64>; }
pub trait CMutSlice: CSlice { #[verifier::prophetic] spec fn cfut(&self) -> Seq<c64>; }
impl CSlice for Vec<c64> { open spec fn cv(&self) -> Seq<c64> { self@ } }
impl<'a> CSlice for &'a [c64] { open spec fn cv(&self) -> Seq<c64> { self@ } }
impl<'a> CSlice for &'a mut [c64] { open spec fn cv(&self) -> Seq<c64> { self@ } }
impl CMutSlice for Vec<c64> { #[verifier::prophetic] open spec fn cfut(&self) -> Seq<c64> { Seq::empty() } }
impl<'a> CMutSlice for &'a mut [c64] { #[verifier::prophetic] open spec fn cfut(&self) -> Seq<c64> { final(*self)@ } }
pub struct FourierPolynomial<C> { pub data: C }
impl<C: CSlice> CSlice for FourierPolynomial<C> { open spec fn cv(&self) -> Seq<c64> { self.data.cv() } }
impl<C: CMutSlice> CMutSlice for FourierPolynomial<C> { #[verifier::prophetic] open spec fn cfut(&self) -> Seq<c64> { self.data.cfut() } }
// all slots carry the torus polynomial p
pub open spec fn is_fft(c: Seq<c64>, p: Seq<u64>) -> bool { c.len() == p.len() / 2 && forall|i: int| 0 <= i < c.len() ==> (#[trigger] c[i]).slot() == Slot::Torus(p) }
pub open spec fn is_ifft(c: Seq<c64>, p: Seq<u64>) -> bool { c.len() == p.len() / 2 && forall|i: int| 0 <= i < c.len() ==> (#[trigger] c[i]).slot() == Slot::Integer(p) }
pub open spec fn is_zfft(c: Seq<c64>, n: nat) -> bool { c.len() == n / 2 && forall|i: int| 0 <= i < c.len() ==> (#[trigger] c[i]).slot() == Slot::Zero }
impl<C: CSlice> FourierPolynomial<C> {
    #[verifier::external_body]
    pub fn as_view(&self) -> (r: FourierPolynomial<&[c64]>) ensures r.data@ == self.cv() { unimplemented!() }
}
impl FourierPolynomial<Vec<c64>> {
    #[verifier::external_body]
    pub fn as_mut_view(&mut self) -> (r: FourierPolynomial<&mut [c64]>)
        ensures r.cv() == old(self).cv(), final(self).cv() == r.cfut(), r.cfut().len() == r.cv().len(),
    { unimplemented!() }
}
impl Clone for FourierPolynomial<Vec<c64>> {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
impl<'a> FourierPolynomial<&'a mut [c64]> {
    pub fn into_uninit(self) -> (r: Self) ensures r == self { self }
}
pub open spec fn fft_size(n: nat) -> bool { is_pow2(n) && n >= 8 }
pub struct Fft { pub n: Ghost<nat> }
#[derive(Clone, Copy)] pub struct FftView { pub n: Ghost<nat> }
pub struct StackReq {}
impl StackReq { pub fn and(self, o: StackReq) -> StackReq { StackReq {} } }
impl Fft {
    pub fn new(n: PolynomialSize) -> (r: Self) requires fft_size(n.0 as nat) ensures r.n@ == n.0 { Fft { n: Ghost(n.0 as nat) } }
    pub fn as_view(&self) -> (r: FftView) ensures r.n == self.n { FftView { n: self.n } }
}
impl FftView {
    pub fn forward_scratch(&self) -> (r: Option<StackReq>) ensures r is Some { Some(StackReq {}) }
    pub fn backward_scratch(&self) -> (r: Option<StackReq>) ensures r is Some { Some(StackReq {}) }
    #[verifier::external_body]
    pub fn forward_as_torus<C: AsRefSlice<Element = u64>>(&self, f: FourierPolynomial<&mut [c64]>, p: Polynomial<C>, s: crate::dyn_stack::DynStack)
        requires p.sv().len() == self.n@, f.cv().len() == self.n@ / 2,
        ensures is_fft(f.cfut(), p.sv()),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn forward_as_integer<C: AsRefSlice<Element = u64>>(&self, f: FourierPolynomial<&mut [c64]>, p: Polynomial<C>, s: crate::dyn_stack::DynStack)
        requires p.sv().len() == self.n@, f.cv().len() == self.n@ / 2,
        ensures is_ifft(f.cfut(), p.sv()),
    { unimplemented!() }
    // overwrites p
    #[verifier::external_body]
    pub fn backward_as_torus(&self, p: Polynomial<&mut [u64]>, f: FourierPolynomial<&[c64]>, s: crate::dyn_stack::DynStack)
        requires p.sv().len() == self.n@, f.cv().len() == self.n@ / 2,
        ensures p.fut().len() == p.sv().len(), forall|q: Seq<u64>| q.len() == self.n@ && #[trigger] is_fft(f.cv(), q) ==> p.fut() == q,
            is_zfft(f.cv(), self.n@) ==> p.fut() == pzero(self.n@),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn add_backward_as_torus(&self, p: Polynomial<&mut [u64]>, f: FourierPolynomial<&[c64]>, s: crate::dyn_stack::DynStack)
        requires p.sv().len() == self.n@, f.cv().len() == self.n@ / 2,
        ensures p.fut().len() == p.sv().len(), forall|q: Seq<u64>| q.len() == self.n@ && #[trigger] is_fft(f.cv(), q) ==> p.fut() == padd(p.sv(), q),
            is_zfft(f.cv(), self.n@) ==> p.fut() == p.sv(),
    { unimplemented!() }
}

// ---- external product
// sum over the first m levels of digit(mask) x top row + digit(body) x bottom row
pub open spec fn ep_sum(g: Seq<u64>, n: nat, b: int, l: int, d: Seq<u64>, m: nat) -> Seq<u64>
    decreases m
{
    if m == 0 { pzero(2 * n) } else {
        padd(ep_sum(g, n, b, l, d, (m - 1) as nat),
            padd(gmul(row(g, n, 2 * (m - 1)), n, pdigit(b, l, mask_of(d, n), m as int)), gmul(row(g, n, 2 * (m - 1) + 1), n, pdigit(b, l, body_of(d, n), m as int))))
    }
}
pub open spec fn ep(g: Seq<u64>, n: nat, b: int, l: nat, d: Seq<u64>) -> Seq<u64> { ep_sum(g, n, b, l as int, d, l) }
pub struct FourierGgswCiphertext<C> { pub g: Ghost<Seq<u64>>, pub poly_size: PolynomialSize, pub base_log: DecompositionBaseLog, pub levels: DecompositionLevelCount, pub c: C }
impl FourierGgswCiphertext<Vec<c64>> {
    pub fn new(c: Vec<c64>, n: PolynomialSize, s: GlweSize, b: DecompositionBaseLog, l: DecompositionLevelCount) -> (r: Self)
        requires c@.len() == (n.0 / 2) * l.0 * s.0 * s.0, s.0 == 2,
        ensures r.poly_size == n, r.base_log == b, r.levels == l,
    { FourierGgswCiphertext { g: Ghost(Seq::empty()), poly_size: n, base_log: b, levels: l, c } }
    pub fn as_mut_view(&mut self) -> (r: &mut Self) ensures *r == *old(self), *final(self) == *final(r) { self }
    pub fn as_view(&self) -> (r: &Self) ensures r == self { self }
    #[verifier::external_body]
    pub fn fill_with_forward_fourier(&mut self, g: StandardGgswCiphertext<&[u64]>, f: FftView, s: crate::dyn_stack::DynStack)
        requires g.wf(), g.poly_size == old(self).poly_size, g.base_log == old(self).base_log, g.levels == old(self).levels, f.n@ == g.poly_size.0,
        ensures final(self).g@ == g.sv(), final(self).poly_size == old(self).poly_size, final(self).base_log == old(self).base_log, final(self).levels == old(self).levels,
    { unimplemented!() }
}
#[verifier::external_body]
pub fn external_product(out: GlweCiphertext<&mut [u64]>, g: &FourierGgswCiphertext<Vec<c64>>, d: GlweCiphertext<&[u64]>, f: FftView, s: crate::dyn_stack::DynStack)
    requires out.wf(), d.wf(), out.poly_size == g.poly_size, d.poly_size == g.poly_size, f.n@ == g.poly_size.0, 0 < g.base_log.0 * g.levels.0 < 64,
    ensures out.fut() == padd(out.sv(), ep(g.g@, g.poly_size.0 as nat, g.base_log.0 as int, g.levels.0 as nat, d.sv())),
{ unimplemented!() }
pub fn external_product_scratch<T>(s: GlweSize, n: PolynomialSize, f: FftView) -> (r: Option<StackReq>) ensures r is Some { Some(StackReq {}) }
}
pub mod dyn_stack {
use vstd::prelude::*;
// scratch memory: no contract (its size is assumed sufficient)
pub struct GlobalMemBuffer {}
impl GlobalMemBuffer { pub fn new(r: crate::ccf::StackReq) -> Self { GlobalMemBuffer {} } }
pub struct DynStack {}
impl DynStack {
    pub fn new(m: &mut GlobalMemBuffer) -> Self { DynStack {} }
    pub fn rb_mut(&mut self) -> DynStack { DynStack {} }
}
pub fn rb(s: &mut DynStack) -> DynStack { DynStack {} }
pub trait ReborrowMut {}
}
// bits of machine words, least significant first (a BitVec is extracted as a Vec<bool>)
pub mod bitvec { pub mod prelude {
use vstd::prelude::*;
use crate::shim::*;
pub struct Lsb0 {}
pub open spec fn nbit(x: int, j: int) -> bool { (x / pow2(j as nat) as int) % 2 == 1 }
pub open spec fn bits_of(x: int) -> Seq<bool> { Seq::new(64, |j: int| nbit(x, j)) }
pub open spec fn bsum(s: Seq<bool>, m: nat) -> int decreases m { if m == 0 { 0 } else { bsum(s, (m - 1) as nat) + if s[m - 1] { pow2((m - 1) as nat) as int } else { 0 } } }
pub trait BitView { spec fn bint(&self) -> int; fn view_bits<O>(&self) -> (r: Vec<bool>) ensures r@ == bits_of(self.bint()); }
impl BitView for usize { open spec fn bint(&self) -> int { *self as int } #[verifier::external_body] fn view_bits<O>(&self) -> (r: Vec<bool>) { (0..64).map(|j| (self >> j) & 1 == 1).collect() } }
impl BitView for u64 { open spec fn bint(&self) -> int { *self as int } #[verifier::external_body] fn view_bits<O>(&self) -> (r: Vec<bool>) { (0..64).map(|j| (self >> j) & 1 == 1).collect() } }
pub trait ToBitVec { fn to_bitvec(&self) -> (r: Vec<bool>) ensures r@ == self.tbs(); spec fn tbs(&self) -> Seq<bool>; }
impl ToBitVec for [bool] { open spec fn tbs(&self) -> Seq<bool> { self@ } #[verifier::external_body] fn to_bitvec(&self) -> (r: Vec<bool>) { self.to_vec() } }
pub trait FromBits: Sized { spec fn fval(&self) -> int; }
impl FromBits for u64 { open spec fn fval(&self) -> int { *self as int } }
impl FromBits for usize { open spec fn fval(&self) -> int { *self as int } }
pub trait BitField { spec fn bfs(&self) -> Seq<bool>; fn load<T: FromBits>(&self) -> (r: T) requires 0 < self.bfs().len() <= 64 ensures r.fval() == bsum(self.bfs(), self.bfs().len()); }
impl BitField for Vec<bool> { open spec fn bfs(&self) -> Seq<bool> { self@ } #[verifier::external_body] fn load<T: FromBits>(&self) -> (r: T) { unimplemented!() } }
} }
pub mod rayon {
    use vstd::prelude::*;
    pub mod prelude { }
    // how many threads a pool of rayon can have, at most; a thread's index within its pool is below that (assumed)
    pub uninterp spec fn maxt() -> nat;
    #[verifier::external_body]
    pub fn max_num_threads() -> (r: usize) ensures r == maxt(), r >= 1 { unimplemented!() }
    #[verifier::external_body]
    pub fn current_thread_index() -> (r: Option<usize>) ensures match r { Some(i) => i < maxt(), None => true } { unimplemented!() }
}
} // verus!
#end
