#prelude
verus! {
// ---------------------------------------------------------------- the part of concrete-core 1.0.2 that Panacea calls
// Bodies marked external_body are assumed contracts on the dependency; the others are verified accessors.
pub mod cc {
use vstd::prelude::*;
use crate::shim::*;
use crate::ring::*;

pub struct PolynomialSize(pub usize);
impl Clone for PolynomialSize { fn clone(&self) -> (r: Self) ensures r == *self { PolynomialSize(self.0) } }
impl Copy for PolynomialSize {}
impl vstd::std_specs::cmp::PartialEqSpecImpl for PolynomialSize { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &PolynomialSize) -> bool { *self == *o } }
impl PartialEq for PolynomialSize { fn eq(&self, o: &PolynomialSize) -> (r: bool) { self.0 == o.0 } }
impl Eq for PolynomialSize {}
pub struct PolynomialCount(pub usize);
impl Clone for PolynomialCount { fn clone(&self) -> (r: Self) ensures r == *self { PolynomialCount(self.0) } }
impl Copy for PolynomialCount {}
impl vstd::std_specs::cmp::PartialEqSpecImpl for PolynomialCount { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &PolynomialCount) -> bool { *self == *o } }
impl PartialEq for PolynomialCount { fn eq(&self, o: &PolynomialCount) -> (r: bool) { self.0 == o.0 } }
impl Eq for PolynomialCount {}
pub struct GlweSize(pub usize);
impl GlweSize { pub fn to_glwe_dimension(&self) -> (r: GlweDimension) requires self.0 > 0 ensures r.0 == self.0 - 1 { GlweDimension(self.0 - 1) } }
impl GlweDimension { pub fn to_glwe_size(&self) -> (r: GlweSize) requires self.0 < usize::MAX ensures r.0 == self.0 + 1 { GlweSize(self.0 + 1) } }
impl Clone for GlweSize { fn clone(&self) -> (r: Self) ensures r == *self { GlweSize(self.0) } }
impl Copy for GlweSize {}
impl vstd::std_specs::cmp::PartialEqSpecImpl for GlweSize { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &GlweSize) -> bool { *self == *o } }
impl PartialEq for GlweSize { fn eq(&self, o: &GlweSize) -> (r: bool) { self.0 == o.0 } }
impl Eq for GlweSize {}
pub struct GlweDimension(pub usize);
impl Clone for GlweDimension { fn clone(&self) -> (r: Self) ensures r == *self { GlweDimension(self.0) } }
impl Copy for GlweDimension {}
impl vstd::std_specs::cmp::PartialEqSpecImpl for GlweDimension { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &GlweDimension) -> bool { *self == *o } }
impl PartialEq for GlweDimension { fn eq(&self, o: &GlweDimension) -> (r: bool) { self.0 == o.0 } }
impl Eq for GlweDimension {}
pub struct LweSize(pub usize);
impl Clone for LweSize { fn clone(&self) -> (r: Self) ensures r == *self { LweSize(self.0) } }
impl Copy for LweSize {}
impl vstd::std_specs::cmp::PartialEqSpecImpl for LweSize { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &LweSize) -> bool { *self == *o } }
impl PartialEq for LweSize { fn eq(&self, o: &LweSize) -> (r: bool) { self.0 == o.0 } }
impl Eq for LweSize {}
pub struct LweDimension(pub usize);
impl Clone for LweDimension { fn clone(&self) -> (r: Self) ensures r == *self { LweDimension(self.0) } }
impl Copy for LweDimension {}
impl vstd::std_specs::cmp::PartialEqSpecImpl for LweDimension { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &LweDimension) -> bool { *self == *o } }
impl PartialEq for LweDimension { fn eq(&self, o: &LweDimension) -> (r: bool) { self.0 == o.0 } }
impl Eq for LweDimension {}
pub struct PlaintextCount(pub usize);
impl Clone for PlaintextCount { fn clone(&self) -> (r: Self) ensures r == *self { PlaintextCount(self.0) } }
impl Copy for PlaintextCount {}
impl vstd::std_specs::cmp::PartialEqSpecImpl for PlaintextCount { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &PlaintextCount) -> bool { *self == *o } }
impl PartialEq for PlaintextCount { fn eq(&self, o: &PlaintextCount) -> (r: bool) { self.0 == o.0 } }
impl Eq for PlaintextCount {}
pub struct CiphertextCount(pub usize);
impl Clone for CiphertextCount { fn clone(&self) -> (r: Self) ensures r == *self { CiphertextCount(self.0) } }
impl Copy for CiphertextCount {}
impl vstd::std_specs::cmp::PartialEqSpecImpl for CiphertextCount { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &CiphertextCount) -> bool { *self == *o } }
impl PartialEq for CiphertextCount { fn eq(&self, o: &CiphertextCount) -> (r: bool) { self.0 == o.0 } }
impl Eq for CiphertextCount {}
pub struct DecompositionBaseLog(pub usize);
impl Clone for DecompositionBaseLog { fn clone(&self) -> (r: Self) ensures r == *self { DecompositionBaseLog(self.0) } }
impl Copy for DecompositionBaseLog {}
impl vstd::std_specs::cmp::PartialEqSpecImpl for DecompositionBaseLog { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &DecompositionBaseLog) -> bool { *self == *o } }
impl PartialEq for DecompositionBaseLog { fn eq(&self, o: &DecompositionBaseLog) -> (r: bool) { self.0 == o.0 } }
impl Eq for DecompositionBaseLog {}
pub struct DecompositionLevelCount(pub usize);
impl Clone for DecompositionLevelCount { fn clone(&self) -> (r: Self) ensures r == *self { DecompositionLevelCount(self.0) } }
impl Copy for DecompositionLevelCount {}
impl vstd::std_specs::cmp::PartialEqSpecImpl for DecompositionLevelCount { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &DecompositionLevelCount) -> bool { *self == *o } }
impl PartialEq for DecompositionLevelCount { fn eq(&self, o: &DecompositionLevelCount) -> (r: bool) { self.0 == o.0 } }
impl Eq for DecompositionLevelCount {}
pub struct MonomialDegree(pub usize);
impl Clone for MonomialDegree { fn clone(&self) -> (r: Self) ensures r == *self { MonomialDegree(self.0) } }
impl Copy for MonomialDegree {}
impl vstd::std_specs::cmp::PartialEqSpecImpl for MonomialDegree { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &MonomialDegree) -> bool { *self == *o } }
impl PartialEq for MonomialDegree { fn eq(&self, o: &MonomialDegree) -> (r: bool) { self.0 == o.0 } }
impl Eq for MonomialDegree {}
pub struct BinaryKeyKind {}
pub trait AsRefTensor {}
pub trait AsMutTensor {}

// the container of a tensor: a vector, a slice, a mutable slice
pub trait AsRefSlice { type Element; spec fn sv(&self) -> Seq<u64>; fn as_slice(&self) -> (r: &[u64]) ensures r@ == self.sv(); }
// fut: what the container refers to when the borrow ends; form: the part that no write changes
pub trait AsMutSlice: AsRefSlice {
    #[verifier::prophetic] spec fn fut(&self) -> Seq<u64>;
    spec fn form(&self) -> nat;
    fn as_mut_slice(&mut self) -> (r: &mut [u64])
        ensures r@ == old(self).sv(), final(r)@.len() == r@.len(), final(self).sv() == final(r)@, final(self).fut() == old(self).fut(), final(self).form() == old(self).form();
}
impl AsRefSlice for Vec<u64> { type Element = u64; open spec fn sv(&self) -> Seq<u64> { self@ } fn as_slice(&self) -> (r: &[u64]) { self.as_slice() } }
impl<'a> AsRefSlice for &'a [u64] { type Element = u64; open spec fn sv(&self) -> Seq<u64> { self@ } fn as_slice(&self) -> (r: &[u64]) { self } }
impl<'a> AsRefSlice for &'a mut [u64] { type Element = u64; open spec fn sv(&self) -> Seq<u64> { self@ } fn as_slice(&self) -> (r: &[u64]) { self } }
impl AsMutSlice for Vec<u64> {
    #[verifier::prophetic] open spec fn fut(&self) -> Seq<u64> { Seq::empty() }
    open spec fn form(&self) -> nat { 0 }
    fn as_mut_slice(&mut self) -> (r: &mut [u64]) { let n = self.len(); &mut self.as_mut_slice()[0..n] }
}
impl<'a> AsMutSlice for &'a mut [u64] {
    #[verifier::prophetic] open spec fn fut(&self) -> Seq<u64> { final(*self)@ }
    open spec fn form(&self) -> nat { 0 }
    fn as_mut_slice(&mut self) -> (r: &mut [u64]) { let n = self.len(); &mut self[0..n] }
}
// slice::split_at_mut, with the lengths the parts keep
pub fn split_at_mut(s: &mut [u64], n: usize) -> (r: (&mut [u64], &mut [u64]))
    requires n <= old(s)@.len(),
    ensures r.0@ == old(s)@.subrange(0, n as int), r.1@ == old(s)@.subrange(n as int, old(s)@.len() as int),
        final(r.0)@.len() == r.0@.len(), final(r.1)@.len() == r.1@.len(), final(s)@ == final(r.0)@ + final(r.1)@,
{ let (a, b) = s.split_at_mut(n); let l = b.len(); (&mut a[0..n], &mut b[0..l]) }
// ranges that a slice is indexed with
pub trait SliceIndex: Sized {
    spec fn lo(&self, n: nat) -> int;
    spec fn hi(&self, n: nat) -> int;
    fn index(self, s: &[u64]) -> (r: &[u64])
        requires 0 <= self.lo(s@.len()) <= self.hi(s@.len()) <= s@.len(), ensures r@ == s@.subrange(self.lo(s@.len()), self.hi(s@.len()));
    fn index_mut(self, s: &mut [u64]) -> (r: &mut [u64])
        requires 0 <= self.lo(old(s)@.len()) <= self.hi(old(s)@.len()) <= old(s)@.len(),
        ensures r@ == old(s)@.subrange(self.lo(old(s)@.len()), self.hi(old(s)@.len())), final(r)@.len() == r@.len(),
            final(s)@ == old(s)@.subrange(0, self.lo(old(s)@.len())) + final(r)@ + old(s)@.subrange(self.hi(old(s)@.len()), old(s)@.len() as int);
}
impl SliceIndex for core::ops::Range<usize> {
    open spec fn lo(&self, n: nat) -> int { self.start as int }
    open spec fn hi(&self, n: nat) -> int { self.end as int }
    fn index(self, s: &[u64]) -> (r: &[u64]) { &s[self.start..self.end] }
    fn index_mut(self, s: &mut [u64]) -> (r: &mut [u64]) { &mut s[self.start..self.end] }
}
impl SliceIndex for core::ops::RangeFrom<usize> {
    open spec fn lo(&self, n: nat) -> int { self.start as int }
    open spec fn hi(&self, n: nat) -> int { n as int }
    fn index(self, s: &[u64]) -> (r: &[u64]) { &s[self.start..] }
    fn index_mut(self, s: &mut [u64]) -> (r: &mut [u64]) { let n = s.len(); &mut s[self.start..n] }
}
impl SliceIndex for core::ops::RangeTo<usize> {
    open spec fn lo(&self, n: nat) -> int { 0 }
    open spec fn hi(&self, n: nat) -> int { self.end as int }
    fn index(self, s: &[u64]) -> (r: &[u64]) { &s[..self.end] }
    fn index_mut(self, s: &mut [u64]) -> (r: &mut [u64]) { &mut s[0..self.end] }
}

pub proof fn l_chunk(k: int, n: int) requires k >= 0, n >= 0 ensures (k + 1) * n == k * n + n, k * n >= 0
{ assert((k + 1) * n == k * n + n && k * n >= 0) by (nonlinear_arith) requires k >= 0, n >= 0; }
pub proof fn l_level(len: int, l: int, n: int, k: int) requires len == 2 * l * (2 * n), 0 <= k < l, n > 0
    ensures (k + 1) * (4 * n) <= len, (k + 1) * (4 * n) == k * (4 * n) + 4 * n, k * (4 * n) >= 0
{ l_chunk(k, 4 * n); assert(len == l * (4 * n)) by (nonlinear_arith) requires len == 2 * l * (2 * n); assert((k + 1) * (4 * n) <= l * (4 * n)) by (nonlinear_arith) requires k + 1 <= l, n > 0; }
// ---------------------------------------------------------------- Tensor: its methods are verified from source (dep_tensor);
// here the trait impls and the element access that iterators over a tensor are rewritten into
pub struct Tensor<C>(pub C);
impl<C: AsRefSlice<Element = u64>> AsRefSlice for Tensor<C> { type Element = u64; open spec fn sv(&self) -> Seq<u64> { self.0.sv() } fn as_slice(&self) -> (r: &[u64]) { self.0.as_slice() } }
impl<C: AsMutSlice<Element = u64>> AsMutSlice for Tensor<C> {
    #[verifier::prophetic] open spec fn fut(&self) -> Seq<u64> { self.0.fut() }
    open spec fn form(&self) -> nat { self.0.form() }
    fn as_mut_slice(&mut self) -> (r: &mut [u64]) { self.0.as_mut_slice() }
}
impl Clone for Tensor<Vec<u64>> {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
impl<C> Tensor<C> where Tensor<C>: AsRefSlice<Element = u64> {
    pub fn iter_len(&self) -> (r: usize) ensures r == self.sv().len() { self.as_slice().len() }
    pub fn iter_at(&self, k: usize) -> (r: &u64) requires k < self.sv().len() ensures *r == self.sv()[k as int] { &self.as_slice()[k] }
}
impl<C> Tensor<C> {
    pub fn as_tensor(&self) -> (r: &Self) ensures r == self { self }
    pub fn as_mut_tensor(&mut self) -> (r: &mut Self) ensures *r == *old(self), *final(self) == *final(r) { self }
}
impl<C> Tensor<C> where Tensor<C>: AsMutSlice<Element = u64> {
    pub fn iter_mut_len(&self) -> (r: usize) ensures r == self.sv().len() { self.as_slice().len() }
    pub fn iter_mut_at(&mut self, k: usize) -> (r: &mut u64)
        requires k < old(self).sv().len(),
        ensures *r == old(self).sv()[k as int],
            final(self).sv() == old(self).sv().update(k as int, *final(r)),
            final(self).fut() == old(self).fut(),
    { &mut self.as_mut_slice()[k] }
    pub fn subtensor_iter_mut_len(&self, n: usize) -> (r: usize) requires n > 0, self.sv().len() % (n as nat) == 0 ensures r == self.sv().len() / (n as nat) { self.as_slice().len() / n }
    pub fn subtensor_iter_mut_at(&mut self, n: usize, k: usize) -> (r: Tensor<&mut [u64]>)
        requires (k + 1) * n <= old(self).sv().len(),
        ensures r.sv() == old(self).sv().subrange(k * n, (k + 1) * n), r.fut().len() == n, final(self).fut() == old(self).fut(),
            final(self).sv() == old(self).sv().subrange(0, k * n) + r.fut() + old(self).sv().subrange((k + 1) * n, old(self).sv().len() as int),
    {
        proof { assert((k + 1) * n == k * n + n) by (nonlinear_arith); assert(k * n >= 0) by (nonlinear_arith) requires k >= 0, n >= 0; }
        let len = self.as_slice().len();
        let a = k * n;
        Tensor(&mut self.as_mut_slice()[a..a + n])
    }
}

// ---------------------------------------------------------------- Polynomial
pub struct Polynomial<C> { pub tensor: Tensor<C> }
impl<C: AsRefSlice<Element = u64>> AsRefSlice for Polynomial<C> { type Element = u64; open spec fn sv(&self) -> Seq<u64> { self.tensor.sv() } fn as_slice(&self) -> (r: &[u64]) { self.tensor.as_slice() } }
impl<C: AsMutSlice<Element = u64>> AsMutSlice for Polynomial<C> { #[verifier::prophetic] open spec fn fut(&self) -> Seq<u64> { self.tensor.fut() } open spec fn form(&self) -> nat { 0 } fn as_mut_slice(&mut self) -> (r: &mut [u64]) { self.tensor.as_mut_slice() } }
impl Clone for Polynomial<Vec<u64>> {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
impl<C: AsRefSlice<Element = u64>> Polynomial<C> {
    pub fn as_tensor(&self) -> (r: &Tensor<C>) ensures *r == self.tensor { &self.tensor }
}
impl<C: AsMutSlice<Element = u64>> Polynomial<C> {
    pub fn as_mut_tensor(&mut self) -> (r: &mut Tensor<C>)
        ensures *r == old(self).tensor, final(self).tensor == *final(r),
    { &mut self.tensor }
    pub fn coefficient_iter_mut_len(&self) -> (r: usize) ensures r == self.sv().len() { self.tensor.len() }
    pub fn coefficient_iter_mut_at(&mut self, k: usize) -> (r: &mut u64)
        requires k < old(self).sv().len(),
        ensures *r == old(self).sv()[k as int],
            final(self).sv() == old(self).sv().update(k as int, *final(r)),
            final(self).fut() == old(self).fut(),
    { self.tensor.iter_mut_at(k) }
    pub fn get_mut_monomial(&mut self, d: MonomialDegree) -> (r: MonomialMut<'_>)
        requires d.0 < old(self).sv().len(),
        ensures *r.c == old(self).sv()[d.0 as int],
            final(self).sv() == old(self).sv().update(d.0 as int, *final(r.c)),
            final(self).fut() == old(self).fut(),
    { MonomialMut { c: self.tensor.iter_mut_at(d.0) } }
}
impl<'a> Polynomial<&'a mut [u64]> {
    pub fn into_uninit(self) -> (r: Self) ensures r == self { self }
}
pub struct Monomial { pub d: usize, pub c: u64 }
impl Monomial {
    pub fn degree(&self) -> (r: MonomialDegree) ensures r.0 == self.d { MonomialDegree(self.d) }
    pub fn get_coefficient(&self) -> (r: &u64) ensures *r == self.c { &self.c }
}
impl<C: AsRefSlice<Element = u64>> Polynomial<C> {
    pub fn monomial_iter_len(&self) -> (r: usize) ensures r == self.sv().len() { self.tensor.len() }
    pub fn get_monomial(&self, k: MonomialDegree) -> (r: Monomial) requires k.0 < self.sv().len() ensures r.d == k.0, r.c == self.sv()[k.0 as int] { Monomial { d: k.0, c: *self.tensor.iter_at(k.0) } }
    pub fn monomial_iter_at(&self, k: usize) -> (r: Monomial) requires k < self.sv().len() ensures r.d == k, r.c == self.sv()[k as int] { Monomial { d: k, c: *self.tensor.iter_at(k) } }
}
pub struct MonomialMut<'a> { pub c: &'a mut u64 }
impl<'a> MonomialMut<'a> {
    pub fn get_mut_coefficient(self) -> (r: &'a mut u64) ensures *r == *old(self.c), *final(self.c) == *final(r) { self.c }
    pub fn set_coefficient(self, x: u64) ensures *final(self.c) == x { *self.c = x; }
}

// ---------------------------------------------------------------- plaintexts
#[derive(Clone, Copy)]
pub struct Plaintext<T>(pub T);
pub struct PlaintextList<C> { pub tensor: Tensor<C> }
impl<C: AsRefSlice<Element = u64>> AsRefSlice for PlaintextList<C> { type Element = u64; open spec fn sv(&self) -> Seq<u64> { self.tensor.sv() } fn as_slice(&self) -> (r: &[u64]) { self.tensor.as_slice() } }
impl<C: AsMutSlice<Element = u64>> AsMutSlice for PlaintextList<C> { #[verifier::prophetic] open spec fn fut(&self) -> Seq<u64> { self.tensor.fut() } open spec fn form(&self) -> nat { 0 } fn as_mut_slice(&mut self) -> (r: &mut [u64]) { self.tensor.as_mut_slice() } }
impl<C: AsMutSlice<Element = u64>> PlaintextList<C> {
    pub fn as_mut_tensor(&mut self) -> (r: &mut Tensor<C>)
        ensures *r == old(self).tensor, final(self).tensor == *final(r),
    { &mut self.tensor }
}
impl Clone for PlaintextList<Vec<u64>> {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
impl<C: AsRefSlice<Element = u64>> PlaintextList<C> {
    pub fn as_tensor(&self) -> (r: &Tensor<C>) ensures *r == self.tensor { &self.tensor }
    pub fn plaintext_iter_len(&self) -> (r: usize) ensures r == self.sv().len() { self.tensor.len() }
    pub fn plaintext_iter_at(&self, k: usize) -> (r: Plaintext<u64>) requires k < self.sv().len() ensures r.0 == self.sv()[k as int] { Plaintext(*self.tensor.iter_at(k)) }
}

// ---------------------------------------------------------------- GLWE
pub struct GlweCiphertext<C> { pub tensor: Tensor<C>, pub poly_size: PolynomialSize }
pub struct GlweBody<C> { pub tensor: Tensor<C> }
pub struct GlweMask<C> { pub tensor: Tensor<C>, pub poly_size: PolynomialSize }
pub struct PolynomialList<C> { pub tensor: Tensor<C>, pub poly_size: PolynomialSize }
impl<C: AsRefSlice<Element = u64>> AsRefSlice for GlweCiphertext<C> { type Element = u64; open spec fn sv(&self) -> Seq<u64> { self.tensor.sv() } fn as_slice(&self) -> (r: &[u64]) { self.tensor.as_slice() } }
impl<C: AsMutSlice<Element = u64>> AsMutSlice for GlweCiphertext<C> { #[verifier::prophetic] open spec fn fut(&self) -> Seq<u64> { self.tensor.fut() } open spec fn form(&self) -> nat { self.poly_size.0 as nat } fn as_mut_slice(&mut self) -> (r: &mut [u64]) { self.tensor.as_mut_slice() } }
impl<C: AsRefSlice<Element = u64>> AsRefSlice for GlweBody<C> { type Element = u64; open spec fn sv(&self) -> Seq<u64> { self.tensor.sv() } fn as_slice(&self) -> (r: &[u64]) { self.tensor.as_slice() } }
impl<C: AsMutSlice<Element = u64>> AsMutSlice for GlweBody<C> { #[verifier::prophetic] open spec fn fut(&self) -> Seq<u64> { self.tensor.fut() } open spec fn form(&self) -> nat { 0 } fn as_mut_slice(&mut self) -> (r: &mut [u64]) { self.tensor.as_mut_slice() } }
impl<C: AsRefSlice<Element = u64>> AsRefSlice for GlweMask<C> { type Element = u64; open spec fn sv(&self) -> Seq<u64> { self.tensor.sv() } fn as_slice(&self) -> (r: &[u64]) { self.tensor.as_slice() } }
impl<C: AsMutSlice<Element = u64>> AsMutSlice for GlweMask<C> { #[verifier::prophetic] open spec fn fut(&self) -> Seq<u64> { self.tensor.fut() } open spec fn form(&self) -> nat { self.poly_size.0 as nat } fn as_mut_slice(&mut self) -> (r: &mut [u64]) { self.tensor.as_mut_slice() } }
impl<C: AsRefSlice<Element = u64>> AsRefSlice for PolynomialList<C> { type Element = u64; open spec fn sv(&self) -> Seq<u64> { self.tensor.sv() } fn as_slice(&self) -> (r: &[u64]) { self.tensor.as_slice() } }
impl<C: AsMutSlice<Element = u64>> AsMutSlice for PolynomialList<C> { #[verifier::prophetic] open spec fn fut(&self) -> Seq<u64> { self.tensor.fut() } open spec fn form(&self) -> nat { self.poly_size.0 as nat } fn as_mut_slice(&mut self) -> (r: &mut [u64]) { self.tensor.as_mut_slice() } }
impl Clone for GlweCiphertext<Vec<u64>> {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
impl<C: AsRefSlice<Element = u64>> GlweCiphertext<C> {
    // GLWE dimension 1 everywhere in Panacea
    pub open spec fn wf(&self) -> bool { self.sv().len() == 2 * self.poly_size.0 && self.poly_size.0 > 0 }
    pub open spec fn n(&self) -> nat { self.poly_size.0 as nat }
    pub fn as_tensor(&self) -> (r: &Tensor<C>) ensures *r == self.tensor { &self.tensor }
}
impl<C: AsMutSlice<Element = u64>> GlweCiphertext<C> {
    pub fn as_mut_tensor(&mut self) -> (r: &mut Tensor<C>)
        ensures *r == old(self).tensor, final(self).tensor == *final(r), final(self).poly_size == old(self).poly_size,
    { &mut self.tensor }
}
impl<C: AsRefSlice<Element = u64>> GlweBody<C> {
    pub fn as_tensor(&self) -> (r: &Tensor<C>) ensures *r == self.tensor { &self.tensor }
}
impl<C: AsMutSlice<Element = u64>> GlweBody<C> {
    pub fn as_mut_tensor(&mut self) -> (r: &mut Tensor<C>)
        ensures *r == old(self).tensor, final(self).tensor == *final(r),
    { &mut self.tensor }
}
impl<C: AsRefSlice<Element = u64>> GlweMask<C> {
    pub fn as_tensor(&self) -> (r: &Tensor<C>) ensures *r == self.tensor { &self.tensor }
}
impl<C: AsMutSlice<Element = u64>> GlweMask<C> {
    pub fn as_mut_tensor(&mut self) -> (r: &mut Tensor<C>)
        ensures *r == old(self).tensor, final(self).tensor == *final(r), final(self).poly_size == old(self).poly_size,
    { &mut self.tensor }
}
impl<C: AsMutSlice<Element = u64>> PolynomialList<C> {
    pub fn as_mut_tensor(&mut self) -> (r: &mut Tensor<C>)
        ensures *r == old(self).tensor, final(self).tensor == *final(r), final(self).poly_size == old(self).poly_size,
    { &mut self.tensor }
}
impl<C: AsRefSlice<Element = u64>> PolynomialList<C> {
    pub fn as_tensor(&self) -> (r: &Tensor<C>) ensures *r == self.tensor { &self.tensor }
    pub fn polynomial_iter_len(&self) -> (r: usize) requires self.poly_size.0 > 0 ensures r == self.sv().len() / (self.poly_size.0 as nat) { self.tensor.len() / self.poly_size.0 }
    pub fn polynomial_iter_at(&self, i: usize) -> (r: Polynomial<&[u64]>)
        requires (i + 1) * self.poly_size.0 <= self.sv().len(),
        ensures r.sv() == self.sv().subrange(i * self.poly_size.0, (i + 1) * self.poly_size.0),
            i == 0 && self.sv().len() == self.poly_size.0 ==> r.sv() == self.sv(),
    {
        proof { l_chunk(i as int, self.poly_size.0 as int); assert(self.sv().subrange(0, self.sv().len() as int) =~= self.sv()); }
        let l = self.as_slice().len();
        let a = i * self.poly_size.0;
        Polynomial { tensor: Tensor(&self.as_slice()[a..a + self.poly_size.0]) }
    }
}

// ---------------------------------------------------------------- GGSW
pub struct StandardGgswCiphertext<C> { pub tensor: Tensor<C>, pub poly_size: PolynomialSize, pub base_log: DecompositionBaseLog, pub levels: DecompositionLevelCount }
pub struct GlweList<C> { pub tensor: Tensor<C>, pub poly_size: PolynomialSize }
pub struct GgswLevelMatrix<C> { pub tensor: Tensor<C>, pub poly_size: PolynomialSize, pub level: usize }
pub struct GgswLevelRow<C> { pub tensor: Tensor<C>, pub poly_size: PolynomialSize }
impl<C: AsRefSlice<Element = u64>> AsRefSlice for StandardGgswCiphertext<C> { type Element = u64; open spec fn sv(&self) -> Seq<u64> { self.tensor.sv() } fn as_slice(&self) -> (r: &[u64]) { self.tensor.as_slice() } }
impl<C: AsRefSlice<Element = u64>> AsRefSlice for GlweList<C> { type Element = u64; open spec fn sv(&self) -> Seq<u64> { self.tensor.sv() } fn as_slice(&self) -> (r: &[u64]) { self.tensor.as_slice() } }
impl<C: AsMutSlice<Element = u64>> AsMutSlice for GlweList<C> { #[verifier::prophetic] open spec fn fut(&self) -> Seq<u64> { self.tensor.fut() } open spec fn form(&self) -> nat { self.poly_size.0 as nat } fn as_mut_slice(&mut self) -> (r: &mut [u64]) { self.tensor.as_mut_slice() } }
impl<C: AsRefSlice<Element = u64>> AsRefSlice for GgswLevelMatrix<C> { type Element = u64; open spec fn sv(&self) -> Seq<u64> { self.tensor.sv() } fn as_slice(&self) -> (r: &[u64]) { self.tensor.as_slice() } }
impl<C: AsMutSlice<Element = u64>> AsMutSlice for GgswLevelMatrix<C> { #[verifier::prophetic] open spec fn fut(&self) -> Seq<u64> { self.tensor.fut() } open spec fn form(&self) -> nat { self.poly_size.0 as nat } fn as_mut_slice(&mut self) -> (r: &mut [u64]) { self.tensor.as_mut_slice() } }
impl<C: AsMutSlice<Element = u64>> AsMutSlice for GgswLevelRow<C> { #[verifier::prophetic] open spec fn fut(&self) -> Seq<u64> { self.tensor.fut() } open spec fn form(&self) -> nat { self.poly_size.0 as nat } fn as_mut_slice(&mut self) -> (r: &mut [u64]) { self.tensor.as_mut_slice() } }
impl<C: AsMutSlice<Element = u64>> AsMutSlice for StandardGgswCiphertext<C> { #[verifier::prophetic] open spec fn fut(&self) -> Seq<u64> { self.tensor.fut() } open spec fn form(&self) -> nat { self.poly_size.0 as nat } fn as_mut_slice(&mut self) -> (r: &mut [u64]) { self.tensor.as_mut_slice() } }
impl<C: AsRefSlice<Element = u64>> AsRefSlice for GgswLevelRow<C> { type Element = u64; open spec fn sv(&self) -> Seq<u64> { self.tensor.sv() } fn as_slice(&self) -> (r: &[u64]) { self.tensor.as_slice() } }
impl StandardGgswCiphertext<Vec<u64>> {
    #[verifier::external_body]
    pub fn allocate(x: u64, n: PolynomialSize, s: GlweSize, l: DecompositionLevelCount, b: DecompositionBaseLog) -> (r: Self)
        requires s.0 == 2, n.0 > 0,
        ensures r.sv() == Seq::new(2 * (l.0 as nat) * (2 * n.0 as nat), |i: int| x), r.sv().len() <= usize::MAX, r.poly_size == n, r.base_log == b, r.levels == l,
    { unimplemented!() }
    pub fn as_mut_tensor(&mut self) -> (r: &mut Tensor<Vec<u64>>)
        ensures *r == old(self).tensor, final(self).tensor == *final(r), final(self).poly_size == old(self).poly_size,
            final(self).base_log == old(self).base_log, final(self).levels == old(self).levels,
    { &mut self.tensor }
    pub fn as_mut_glwe_list(&mut self) -> (r: GlweList<&mut [u64]>)
        ensures r.sv() == old(self).sv(), r.poly_size == old(self).poly_size, final(self).sv() == r.fut(), r.fut().len() == r.sv().len(),
            final(self).poly_size == old(self).poly_size, final(self).base_log == old(self).base_log, final(self).levels == old(self).levels,
    { let n = self.poly_size; GlweList { tensor: Tensor(self.tensor.as_mut_slice()), poly_size: n } }
}
impl Clone for StandardGgswCiphertext<Vec<u64>> {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
impl<C: AsRefSlice<Element = u64>> StandardGgswCiphertext<C> {
    pub open spec fn wf(&self) -> bool { self.sv().len() == 2 * (self.levels.0 as nat) * (2 * self.poly_size.0 as nat) && self.poly_size.0 > 0 && self.sv().len() <= usize::MAX }
    pub open spec fn n(&self) -> nat { self.poly_size.0 as nat }
    pub fn glwe_size(&self) -> (r: GlweSize) ensures r.0 == 2 { GlweSize(2) }
    pub fn polynomial_size(&self) -> (r: PolynomialSize) ensures r == self.poly_size { self.poly_size }
    pub fn decomposition_base_log(&self) -> (r: DecompositionBaseLog) ensures r == self.base_log { self.base_log }
    pub fn decomposition_level_count(&self) -> (r: DecompositionLevelCount) ensures r == self.levels { self.levels }
    pub fn as_tensor(&self) -> (r: &Tensor<C>) ensures *r == self.tensor { &self.tensor }
    pub fn as_glwe_list(&self) -> (r: GlweList<&[u64]>) ensures r.sv() == self.sv(), r.poly_size == self.poly_size { GlweList { tensor: Tensor(self.as_slice()), poly_size: self.poly_size } }
    pub fn as_view(&self) -> (r: StandardGgswCiphertext<&[u64]>)
        ensures r.sv() == self.sv(), r.poly_size == self.poly_size, r.base_log == self.base_log, r.levels == self.levels,
    { StandardGgswCiphertext { tensor: Tensor(self.as_slice()), poly_size: self.poly_size, base_log: self.base_log, levels: self.levels } }
    pub fn level_matrix_iter_len(&self) -> (r: usize) requires self.wf() ensures r == self.levels.0 { self.levels.0 }
    pub fn level_matrix_iter_at(&self, k: usize) -> (r: GgswLevelMatrix<&[u64]>)
        requires self.wf(), k < self.levels.0,
        ensures r.sv() == self.sv().subrange(k * (4 * self.poly_size.0), (k + 1) * (4 * self.poly_size.0)), r.poly_size == self.poly_size,
    {
        proof { l_level(self.sv().len() as int, self.levels.0 as int, self.poly_size.0 as int, k as int); }
        let l = self.as_slice().len();
        let w = 4 * self.poly_size.0;
        let a = k * w;
        GgswLevelMatrix { tensor: Tensor(&self.as_slice()[a..a + w]), poly_size: self.poly_size, level: k + 1 }
    }
}
impl<'a> GgswLevelMatrix<&'a [u64]> {
    pub fn row_iter_len(&self) -> (r: usize) ensures r == 2 { 2 }
    pub fn row_iter_at(&self, k: usize) -> (r: GgswLevelRow<&'a [u64]>)
        requires k < 2, self.sv().len() == 4 * self.poly_size.0,
        ensures r.sv() == self.sv().subrange(k * (2 * self.poly_size.0), (k + 1) * (2 * self.poly_size.0)), r.poly_size == self.poly_size,
    {
        proof { l_chunk(k as int, 2 * self.poly_size.0 as int); assert((k + 1) * (2 * self.poly_size.0) <= 4 * self.poly_size.0) by (nonlinear_arith) requires k < 2, self.poly_size.0 >= 0; }
        let l = self.as_slice().len();
        let w = 2 * self.poly_size.0;
        let a = k * w;
        GgswLevelRow { tensor: Tensor(&self.tensor.0[a..a + w]), poly_size: self.poly_size }
    }
}
impl<C: AsMutSlice<Element = u64>> StandardGgswCiphertext<C> {
    pub fn level_matrix_iter_mut_len(&self) -> (r: usize) requires self.wf() ensures r == self.levels.0 { self.levels.0 }
    pub fn level_matrix_iter_mut_at(&mut self, k: usize) -> (r: GgswLevelMatrix<&mut [u64]>)
        requires old(self).wf(), k < old(self).levels.0,
        ensures r.sv() == old(self).sv().subrange(k * (4 * old(self).poly_size.0), (k + 1) * (4 * old(self).poly_size.0)), r.sv().len() == 4 * old(self).poly_size.0,
            r.poly_size == old(self).poly_size, r.level == k + 1, r.fut().len() == r.sv().len(),
            final(self).sv() == old(self).sv().subrange(0, k * (4 * old(self).poly_size.0)) + r.fut() + old(self).sv().subrange((k + 1) * (4 * old(self).poly_size.0), old(self).sv().len() as int),
            final(self).poly_size == old(self).poly_size, final(self).base_log == old(self).base_log, final(self).levels == old(self).levels, final(self).fut() == old(self).fut(),
    {
        proof { l_level(self.sv().len() as int, self.levels.0 as int, self.poly_size.0 as int, k as int); }
        let l = self.as_slice().len();
        let w = 4 * self.poly_size.0;
        let a = k * w;
        let n = self.poly_size;
        GgswLevelMatrix { tensor: Tensor(&mut self.tensor.as_mut_slice()[a..a + w]), poly_size: n, level: k + 1 }
    }
}
impl<C> GgswLevelMatrix<C> {
    pub fn decomposition_level(&self) -> (r: DecompositionLevel) ensures r.0 == self.level { DecompositionLevel(self.level) }
    pub fn glwe_size(&self) -> (r: GlweSize) ensures r.0 == 2 { GlweSize(2) }
}
impl<'a> GgswLevelMatrix<&'a mut [u64]> {
    pub fn row_iter_mut_len(&self) -> (r: usize) ensures r == 2 { 2 }
    pub fn row_iter_mut_at(&mut self, k: usize) -> (r: GgswLevelRow<&mut [u64]>)
        requires k < 2, old(self).sv().len() == 4 * old(self).poly_size.0,
        ensures r.sv() == old(self).sv().subrange(k * (2 * old(self).poly_size.0), (k + 1) * (2 * old(self).poly_size.0)), r.poly_size == old(self).poly_size,
            r.fut().len() == 2 * old(self).poly_size.0,
            final(self).sv() == old(self).sv().subrange(0, k * (2 * old(self).poly_size.0)) + r.fut() + old(self).sv().subrange((k + 1) * (2 * old(self).poly_size.0), old(self).sv().len() as int),
            final(self).poly_size == old(self).poly_size, final(self).level == old(self).level, final(self).fut() == old(self).fut(),
    {
        proof { l_chunk(k as int, 2 * self.poly_size.0 as int); assert((k + 1) * (2 * self.poly_size.0) <= 4 * self.poly_size.0) by (nonlinear_arith) requires k < 2, self.poly_size.0 >= 0; }
        let l = self.as_slice().len();
        let w = 2 * self.poly_size.0;
        let a = k * w;
        let n = self.poly_size;
        GgswLevelRow { tensor: Tensor(&mut self.tensor.as_mut_slice()[a..a + w]), poly_size: n }
    }
}
impl<C> GgswLevelRow<C> {
    pub fn into_glwe(self) -> (r: GlweCiphertext<C>) ensures r.tensor == self.tensor, r.poly_size == self.poly_size
    { GlweCiphertext { tensor: self.tensor, poly_size: self.poly_size } }
}
impl<'a> GlweList<&'a [u64]> {
    pub fn ciphertext_count(&self) -> (r: CiphertextCount) requires self.poly_size.0 > 0, 2 * self.poly_size.0 <= usize::MAX ensures r.0 == self.sv().len() / (2 * self.poly_size.0 as nat) { CiphertextCount(self.tensor.len() / (2 * self.poly_size.0)) }
    pub fn ciphertext_iter_len(&self) -> (r: usize) requires self.poly_size.0 > 0, 2 * self.poly_size.0 <= usize::MAX ensures r == self.sv().len() / (2 * self.poly_size.0 as nat) { self.tensor.len() / (2 * self.poly_size.0) }
    pub fn ciphertext_iter_at(&self, k: usize) -> (r: GlweCiphertext<&'a [u64]>)
        requires (k + 1) * (2 * self.poly_size.0) <= self.sv().len(),
        ensures r.sv() == row(self.sv(), self.poly_size.0 as nat, k as int), r.poly_size == self.poly_size,
    {
        proof { l_chunk(k as int, 2 * self.poly_size.0 as int); }
        let l = self.as_slice().len();
        proof { assert(2 * self.poly_size.0 <= (k + 1) * (2 * self.poly_size.0)) by (nonlinear_arith) requires k >= 0, self.poly_size.0 >= 0; }
        let w = 2 * self.poly_size.0;
        let a = k * w;
        GlweCiphertext { tensor: Tensor(&self.tensor.0[a..a + w]), poly_size: self.poly_size }
    }
}
impl<'a> GlweList<&'a mut [u64]> {
    pub fn ciphertext_iter_mut_len(self) -> (r: usize) requires self.poly_size.0 > 0, 2 * self.poly_size.0 <= usize::MAX
        ensures r == self.sv().len() / (2 * self.poly_size.0 as nat), self.fut() == self.sv(),
    { self.tensor.len() / (2 * self.poly_size.0) }
    pub fn ciphertext_iter_mut_at(self, k: usize) -> (r: GlweCiphertext<&'a mut [u64]>)
        requires (k + 1) * (2 * self.poly_size.0) <= self.sv().len(),
        ensures r.sv() == row(self.sv(), self.poly_size.0 as nat, k as int), r.poly_size == self.poly_size,
            r.fut().len() == 2 * self.poly_size.0,
            self.fut() == self.sv().subrange(0, k * (2 * self.poly_size.0)) + r.fut() + self.sv().subrange((k + 1) * (2 * self.poly_size.0), self.sv().len() as int),
    {
        proof { l_chunk(k as int, 2 * self.poly_size.0 as int); }
        let l = self.as_slice().len();
        proof { assert(2 * self.poly_size.0 <= (k + 1) * (2 * self.poly_size.0)) by (nonlinear_arith) requires k >= 0, self.poly_size.0 >= 0; }
        let w = 2 * self.poly_size.0;
        let a = k * w;
        let n = self.poly_size;
        let s: &'a mut [u64] = self.tensor.0;
        GlweCiphertext { tensor: Tensor(&mut s[a..a + w]), poly_size: n }
    }
}

// ---------------------------------------------------------------- LWE
pub struct LweCiphertext<C> { pub tensor: Tensor<C> }
#[derive(Clone, Copy)] pub struct LweBody<T>(pub T);
pub struct LweMask<C> { pub tensor: Tensor<C> }
impl<C: AsRefSlice<Element = u64>> AsRefSlice for LweCiphertext<C> { type Element = u64; open spec fn sv(&self) -> Seq<u64> { self.tensor.sv() } fn as_slice(&self) -> (r: &[u64]) { self.tensor.as_slice() } }
impl<C: AsMutSlice<Element = u64>> AsMutSlice for LweCiphertext<C> { #[verifier::prophetic] open spec fn fut(&self) -> Seq<u64> { self.tensor.fut() } open spec fn form(&self) -> nat { 0 } fn as_mut_slice(&mut self) -> (r: &mut [u64]) { self.tensor.as_mut_slice() } }
impl<C: AsRefSlice<Element = u64>> AsRefSlice for LweMask<C> { type Element = u64; open spec fn sv(&self) -> Seq<u64> { self.tensor.sv() } fn as_slice(&self) -> (r: &[u64]) { self.tensor.as_slice() } }
impl<C: AsMutSlice<Element = u64>> AsMutSlice for LweMask<C> { #[verifier::prophetic] open spec fn fut(&self) -> Seq<u64> { self.tensor.fut() } open spec fn form(&self) -> nat { 0 } fn as_mut_slice(&mut self) -> (r: &mut [u64]) { self.tensor.as_mut_slice() } }
// <a, s>
pub open spec fn dot(a: Seq<u64>, s: Seq<u64>, m: nat) -> int decreases m { if m == 0 { 0 } else { dot(a, s, (m - 1) as nat) + a[m - 1] * s[m - 1] } }
pub open spec fn lwe_phase(ct: Seq<u64>, s: Seq<u64>) -> u64 { wrap(ct[s.len() as int] - dot(ct, s, s.len())) }
// what extracting coefficient k of an RLWE ciphertext means, as a function of the ciphertext only
pub open spec fn sample_extract(g: Seq<u64>, n: nat, k: int) -> Seq<u64> {
    Seq::new(n + 1, |i: int| if i == n { g[n + k] } else { wrap(bcoef(mask_of(g, n), k - i)) })
}
impl<C: AsRefSlice<Element = u64>> LweCiphertext<C> {
    pub fn as_tensor(&self) -> (r: &Tensor<C>) ensures *r == self.tensor { &self.tensor }
    #[verifier::external_body]
    pub fn get_body(&self) -> (r: &LweBody<u64>) requires self.sv().len() > 0 ensures r.0 == self.sv().last() { unimplemented!() }
    #[verifier::external_body]
    pub fn get_mask(&self) -> (r: LweMask<&[u64]>) requires self.sv().len() > 0 ensures r.sv() == self.sv().drop_last() { unimplemented!() }
    #[verifier::external_body]
    pub fn get_body_and_mask(&self) -> (r: (&LweBody<u64>, LweMask<&[u64]>)) requires self.sv().len() > 0
        ensures r.0.0 == self.sv().last(), r.1.sv() == self.sv().drop_last(),
    { unimplemented!() }
}
impl<C: AsMutSlice<Element = u64>> LweCiphertext<C> {
    pub fn as_mut_tensor(&mut self) -> (r: &mut Tensor<C>) ensures *r == old(self).tensor, final(self).tensor == *final(r) { &mut self.tensor }
    #[verifier::external_body]
    pub fn get_mut_mask(&mut self) -> (r: LweMask<&mut [u64]>) requires old(self).sv().len() > 0
        ensures r.sv() == old(self).sv().drop_last(), final(self).sv() == r.fut().push(old(self).sv().last()), r.fut().len() == r.sv().len(), final(self).fut() == old(self).fut(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get_mut_body(&mut self) -> (r: &mut LweBody<u64>) requires old(self).sv().len() > 0
        ensures r.0 == old(self).sv().last(), final(self).sv() == old(self).sv().drop_last().push(final(r).0), final(self).fut() == old(self).fut(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get_mut_body_and_mask(&mut self) -> (r: (&mut LweBody<u64>, LweMask<&mut [u64]>)) requires old(self).sv().len() > 0
        ensures r.0.0 == old(self).sv().last(), r.1.sv() == old(self).sv().drop_last(), r.1.fut().len() == r.1.sv().len(),
            final(self).sv() == r.1.fut().push(final(r.0).0), final(self).fut() == old(self).fut(),
    { unimplemented!() }
}
impl Clone for LweCiphertext<Vec<u64>> {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
impl<C: AsMutSlice<Element = u64>> LweMask<C> {
    pub fn as_mut_tensor(&mut self) -> (r: &mut Tensor<C>) ensures *r == old(self).tensor, final(self).tensor == *final(r) { &mut self.tensor }
}
impl<C: AsRefSlice<Element = u64>> LweMask<C> {
    pub fn as_tensor(&self) -> (r: &Tensor<C>) ensures *r == self.tensor { &self.tensor }
}

// ---------------------------------------------------------------- secret keys, encryption (assumed)
// nb: the noise bound attributed to a fresh encryption (tail of the sampled distribution, assumed)
pub trait DispersionParameter: Copy { spec fn nb(&self) -> nat; }
#[derive(Clone, Copy)] pub struct LogStandardDev(pub f64);
pub uninterp spec fn noise_bound(log_std: f64) -> nat;
impl DispersionParameter for LogStandardDev { open spec fn nb(&self) -> nat { noise_bound(self.0) } }
impl LogStandardDev {
    pub fn from_log_standard_dev(x: f64) -> (r: Self) ensures r.0 == x { LogStandardDev(x) }
    pub fn get_log_standard_dev(&self) -> (r: f64) ensures r == self.0 { self.0 }
}
pub trait KeyKind {}
impl KeyKind for BinaryKeyKind {}
pub struct GlweSecretKey<K, C> { pub tensor: Tensor<C>, pub poly_size: PolynomialSize, pub kind: PhantomData<K> }
pub struct LweSecretKey<K, C> { pub tensor: Tensor<C>, pub kind: PhantomData<K> }
impl<K, C: AsRefSlice<Element = u64>> GlweSecretKey<K, C> {
    pub open spec fn sv(&self) -> Seq<u64> { self.tensor.sv() }
    pub open spec fn wf(&self) -> bool { self.sv().len() == self.poly_size.0 && self.poly_size.0 > 0 && 2 * self.poly_size.0 <= usize::MAX }
    pub fn as_tensor(&self) -> (r: &Tensor<C>) ensures *r == self.tensor { &self.tensor }
}
impl<K> GlweSecretKey<K, Vec<u64>> {
    pub fn as_mut_tensor(&mut self) -> (r: &mut Tensor<Vec<u64>>)
        ensures *r == old(self).tensor, final(self).tensor == *final(r), final(self).poly_size == old(self).poly_size, final(self).kind == old(self).kind,
    { &mut self.tensor }
}
impl<K> Clone for GlweSecretKey<K, Vec<u64>> {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
impl<K, C: AsRefSlice<Element = u64>> LweSecretKey<K, C> {
    pub open spec fn sv(&self) -> Seq<u64> { self.tensor.sv() }
    pub fn as_tensor(&self) -> (r: &Tensor<C>) ensures *r == self.tensor { &self.tensor }
}
impl<K> Clone for LweSecretKey<K, Vec<u64>> {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}

// ---------------------------------------------------------------- random generators and seeds
#[derive(Clone, Copy)] pub struct Seed(pub u128);
pub struct SoftwareRandomGenerator {}
pub trait ByteRandomGenerator {}
impl ByteRandomGenerator for SoftwareRandomGenerator {}
#[verifier::external_body] #[verifier::reject_recursive_types(G)] pub struct RandomGenerator<G> { g: G }
#[verifier::external_body] #[verifier::reject_recursive_types(G)] pub struct SecretRandomGenerator<G> { g: G }
#[verifier::external_body] #[verifier::reject_recursive_types(G)] pub struct EncryptionRandomGenerator<G> { g: G }
// yields: the root a further seed of this seeder may stem from
pub trait Seeder { spec fn yields(&self, root: u128) -> bool; }
#[verifier::external_body] pub struct UnixSeeder { x: u64 }
impl Seeder for UnixSeeder { open spec fn yields(&self, root: u128) -> bool { entropic(root) && !self.drawn().contains(root) } }
impl UnixSeeder {
    pub uninterp spec fn drawn(&self) -> Set<u128>;
    #[verifier::external_body]
    pub fn is_available() -> bool { unimplemented!() }
    // a UnixSeeder mixes /dev/random into every seed
    #[verifier::external_body]
    pub fn new(secret: u128) -> (r: Self) { unimplemented!() }
    #[verifier::external_body]
    pub fn seed(&mut self) -> (r: Seed) ensures old(self).yields(r.0), final(self).drawn() == old(self).drawn().insert(r.0) { unimplemented!() }
}
#[verifier::external_body] #[verifier::reject_recursive_types(G)] pub struct DeterministicSeeder<G> { g: G }
impl<G> Seeder for DeterministicSeeder<G> { open spec fn yields(&self, root: u128) -> bool { root == self.root() } }
impl<G> DeterministicSeeder<G> {
    pub uninterp spec fn root(&self) -> u128;
    #[verifier::external_body]
    pub fn new(s: Seed) -> (r: Self) ensures r.root() == s.0 { unimplemented!() }
}
impl<G> SecretRandomGenerator<G> {
    #[verifier::external_body]
    pub fn random_binary_tensor(&mut self, n: usize) -> (r: Tensor<Vec<u64>>)
        ensures r.sv().len() == n, is_bin(r.sv()), final(self).root() == old(self).root(),
    { unimplemented!() }
    pub uninterp spec fn root(&self) -> u128;
    #[verifier::external_body]
    pub fn new(s: Seed) -> (r: Self) ensures r.root() == s.0 { unimplemented!() }
}
impl<G> EncryptionRandomGenerator<G> {
    pub uninterp spec fn root(&self) -> u128;
    pub uninterp spec fn noise_root(&self) -> u128;
    // encryptions made so far
    pub uninterp spec fn ctr(&self) -> nat;
    #[verifier::external_body]
    pub fn new<S: Seeder>(s: Seed, sd: &mut S) -> (r: Self) ensures r.root() == s.0, old(sd).yields(r.noise_root()) { unimplemented!() }
    #[verifier::external_body]
    pub fn fill_tensor_with_random_mask<T: AsMutSlice>(&mut self, t: &mut T)
        ensures final(t).sv().len() == old(t).sv().len(), final(t).fut() == old(t).fut(), final(t).form() == old(t).form(),
            drawn(old(self).root(), old(self).ctr(), final(t).sv()), final(self).root() == old(self).root(), final(self).ctr() == old(self).ctr() + 1,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn fill_tensor_with_random_noise<T: AsMutSlice>(&mut self, t: &mut T, d: impl DispersionParameter)
        ensures final(t).sv().len() == old(t).sv().len(), final(t).fut() == old(t).fut(), final(t).form() == old(t).form(),
            near(final(t).sv(), pzero(old(t).sv().len()), d.nb() as int), final(self).root() == old(self).root(), final(self).ctr() == old(self).ctr(),
    { unimplemented!() }
    // the parts of a GGSW encryption belong to the same encryption operation
    #[verifier::external_body]
    pub fn fork_ggsw_to_ggsw_levels<T>(&mut self, l: DecompositionLevelCount, s: GlweSize, n: PolynomialSize) -> (r: Result<Vec<EncryptionRandomGenerator<G>>, ForkError>)
        ensures r is Ok, r.unwrap()@.len() == l.0, forall|i: int| 0 <= i < l.0 ==> (#[trigger] r.unwrap()@[i]).root() == old(self).root() && r.unwrap()@[i].ctr() == old(self).ctr(),
            final(self).root() == old(self).root(), final(self).ctr() == old(self).ctr() + 1,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn fork_ggsw_level_to_glwe<T>(&mut self, s: GlweSize, n: PolynomialSize) -> (r: Result<Vec<EncryptionRandomGenerator<G>>, ForkError>)
        ensures r is Ok, r.unwrap()@.len() == s.0, forall|i: int| 0 <= i < s.0 ==> (#[trigger] r.unwrap()@[i]).root() == old(self).root() && r.unwrap()@[i].ctr() == old(self).ctr(),
            final(self).root() == old(self).root(), final(self).ctr() == old(self).ctr() + 1,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn random_noise(&mut self, d: impl DispersionParameter) -> (r: u64)
        ensures cd(r, 0) <= d.nb(), final(self).root() == old(self).root(), final(self).ctr() == old(self).ctr(),
    { unimplemented!() }
}
impl<G> RandomGenerator<G> {
    pub uninterp spec fn root(&self) -> u128;
    #[verifier::external_body]
    pub fn new(s: Seed) -> (r: Self) ensures r.root() == s.0 { unimplemented!() }
    #[verifier::external_body]
    pub fn random_uniform_binary(&mut self) -> (r: u64) ensures r == 0 || r == 1, final(self).root() == old(self).root() { unimplemented!() }
    #[verifier::external_body]
    pub fn fill_tensor_with_random_uniform_binary(&mut self, t: &mut Tensor<Vec<u64>>)
        ensures final(t).sv().len() == old(t).sv().len(), is_bin(final(t).sv()), final(self).root() == old(self).root(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn fill_tensor_with_random_uniform_n_lsb(&mut self, t: &mut Tensor<Vec<u64>>, n: usize)
        requires n <= 64,
        ensures final(t).sv().len() == old(t).sv().len(), final(self).root() == old(self).root(),
            forall|i: int| 0 <= i < final(t).sv().len() ==> #[trigger] final(t).sv()[i] < pow2(n as nat),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn fill_tensor_with_random_uniform_ternary(&mut self, t: &mut Tensor<Vec<u64>>)
        ensures final(t).sv().len() == old(t).sv().len(), final(self).root() == old(self).root(),
            forall|i: int| 0 <= i < final(t).sv().len() ==> (#[trigger] final(t).sv()[i] == 0 || final(t).sv()[i] == 1 || final(t).sv()[i] == u64::MAX),
    { unimplemented!() }
}

// ---------------------------------------------------------------- signed decomposition
pub open spec fn closest(b: int, l: int, x: u64) -> u64 {
    let k = pow2((64 - b * l) as nat);
    wrap((((x as int) + (k as int) / 2) / (k as int)) * (k as int))
}
// one step of the signed decomposition in base 2^b of a state s: the digit, and the state left
pub open spec fn sd_carry(b: int, s: int) -> int {
    let bb = pow2(b as nat) as int;
    if s % bb > bb / 2 || (s % bb == bb / 2 && ((s / bb) / (bb / 2)) % 2 == 1) { 1 } else { 0 }
}
pub open spec fn sd_dig(b: int, s: int) -> int { s % (pow2(b as nat) as int) - sd_carry(b, s) * pow2(b as nat) }
pub open spec fn sd_next(b: int, s: int) -> int { s / (pow2(b as nat) as int) + sd_carry(b, s) }
pub open spec fn sd_state(b: int, s: int, j: nat) -> int decreases j { if j == 0 { s } else { sd_next(b, sd_state(b, s, (j - 1) as nat)) } }
// the signed digit of level `level` (1 = most significant) of y; the least significant one is made first
pub open spec fn digit(b: int, l: int, y: u64, level: int) -> u64 { wrap(sd_dig(b, sd_state(b, (y as int) / (pow2((64 - b * l) as nat) as int), (l - level) as nat))) }
// the same for any x, which is rounded first
pub open spec fn pdigit(b: int, l: int, x: Seq<u64>, level: int) -> Seq<u64> { Seq::new(x.len(), |i: int| digit(b, l, closest(b, l, x[i]), level)) }
pub open spec fn pdigit0(b: int, l: int, y: Seq<u64>, level: int) -> Seq<u64> { Seq::new(y.len(), |i: int| digit(b, l, y[i], level)) }
pub open spec fn pclosest(b: int, l: int, x: Seq<u64>) -> Seq<u64> { Seq::new(x.len(), |i: int| closest(b, l, x[i])) }
#[derive(Debug)] pub struct ForkError {}
pub struct DecompositionLevel(pub usize);
pub use core::marker::PhantomData;
}

pub mod concrete_core {
    pub mod prelude { pub use crate::cc::*; }
    pub mod specification { pub mod dispersion { pub use crate::cc::*; } }
    pub mod commons {
        pub mod math {
            pub mod tensor { pub use crate::cc::*; }
            pub mod polynomial { pub use crate::cc::*; }
            pub mod decomposition { pub use crate::cc::*; pub use crate::dep_term::*; pub use crate::dep_iter::*; pub use crate::dep_decomposer::*; }
            pub mod random { pub use crate::cc::*; }
        }
        pub mod crypto {
            pub mod encoding { pub use crate::cc::*; }
            pub mod glwe { pub use crate::cc::*; }
            pub mod lwe { pub use crate::cc::*; }
            pub mod ggsw { pub use crate::cc::*; }
            pub mod secret { pub use crate::cc::*; pub mod generators { pub use crate::cc::*; } }
        }
    }
    pub mod backends { pub mod fft { pub mod private {
        pub use crate::ccf::*;
        pub mod math { pub mod fft { pub use crate::ccf::*; } pub mod polynomial { pub use crate::ccf::*; } }
        pub mod crypto { pub mod ggsw { pub use crate::ccf::*; } }
    } } }
}
pub mod concrete_csprng {
    pub mod generators { pub use crate::cc::*; }
    pub mod seeders { pub use crate::cc::*; }
}
} // verus!
#end
