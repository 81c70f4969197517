#prelude
#![allow(unused_imports, dead_code, unused_variables, unused_mut, unused_parens, non_snake_case, unused_assignments, unused_braces, unreachable_code, unused_must_use, path_statements, unused_doc_comments, noop_method_call, suspicious_double_ref_op)]
use vstd::prelude::*;

verus! {
global size_of usize == 8;

pub mod shim {
use vstd::prelude::*;

// A panic that the contract forbids.
#[verifier::external_body]
pub fn vpanic() -> !
    requires false,
{ panic!() }

// A panic that the contract allows (its condition has been asserted just before).
#[verifier::external_body]
pub fn diverge() -> !
    ensures false,
{ panic!() }

// choices of the scheduler: nothing is known about them
#[verifier::external_body]
pub fn nondet() -> bool { true }
#[verifier::external_body]
pub fn pick() -> usize { 0 }

pub fn min_usize(a: usize, b: usize) -> (r: usize)
    ensures r == if a < b { a } else { b }, r <= a, r <= b,
{ if a < b { a } else { b } }

pub fn max_usize(a: usize, b: usize) -> (r: usize)
    ensures r == if a > b { a } else { b }, r >= a, r >= b,
{ if a > b { a } else { b } }

// vec![x; n]   (assumes x.clone() == x)
#[verifier::external_body]
pub fn vec_from_elem<T: Clone>(x: T, n: usize) -> (r: Vec<T>)
    ensures r@.len() == n, forall|i: int| 0 <= i < n ==> #[trigger] r@[i] == x,
{ vec![x; n] }

// &x[a..b]
pub trait SubSlice { type E; spec fn sseq(&self) -> Seq<Self::E>; fn sub_(&self, a: usize, b: usize) -> (r: &[Self::E]) requires a <= b <= self.sseq().len() ensures r@ == self.sseq().subrange(a as int, b as int); fn slen_(&self) -> (r: usize) ensures r == self.sseq().len(); }
impl<T> SubSlice for Vec<T> { type E = T; open spec fn sseq(&self) -> Seq<T> { self@ }
    fn sub_(&self, a: usize, b: usize) -> (r: &[T]) { vstd::slice::slice_subrange(self.as_slice(), a, b) }
    fn slen_(&self) -> (r: usize) { self.len() } }
impl<T> SubSlice for &[T] { type E = T; open spec fn sseq(&self) -> Seq<T> { self@ }
    fn sub_(&self, a: usize, b: usize) -> (r: &[T]) { vstd::slice::slice_subrange(*self, a, b) }
    fn slen_(&self) -> (r: usize) { self.len() } }
impl<T> SubSlice for &Vec<T> { type E = T; open spec fn sseq(&self) -> Seq<T> { self@ }
    fn sub_(&self, a: usize, b: usize) -> (r: &[T]) { vstd::slice::slice_subrange(self.as_slice(), a, b) }
    fn slen_(&self) -> (r: usize) { self.len() } }
pub fn sub<S: SubSlice>(x: &S, a: usize, b: usize) -> (r: &[S::E]) requires a <= b <= x.sseq().len() ensures r@ == x.sseq().subrange(a as int, b as int) { x.sub_(a, b) }
pub fn sub_from<S: SubSlice>(x: &S, a: usize) -> (r: &[S::E]) requires a <= x.sseq().len() ensures r@ == x.sseq().skip(a as int)
{ let b = x.slen_(); proof { assert(x.sseq().subrange(a as int, b as int) =~= x.sseq().skip(a as int)); } x.sub_(a, b) }
// Vec::extend with a vector
pub trait ExtendVec<T> { spec fn eseq(&self) -> Seq<T>; fn extend_vec(&mut self, o: Vec<T>) ensures final(self).eseq() == old(self).eseq() + o@; }
impl<T> ExtendVec<T> for Vec<T> { open spec fn eseq(&self) -> Seq<T> { self@ }
    fn extend_vec(&mut self, o: Vec<T>) { let mut o = o; self.append(&mut o); } }

// a Vec::into_iter() that the code advances by hand
pub struct It<T> { pub v: Vec<T> }
impl<T> It<T> {
    pub open spec fn left(&self) -> Seq<T> { self.v@ }
    pub fn of(v: Vec<T>) -> (r: It<T>) ensures r.left() == v@ { It { v } }
    pub fn next(&mut self) -> (r: Option<T>)
        ensures old(self).left().len() == 0 ==> r is None && final(self).left() == old(self).left(),
            old(self).left().len() > 0 ==> r == Some(old(self).left()[0]) && final(self).left() == old(self).left().skip(1),
    { if self.v.len() == 0 { None } else { Some(take_first(&mut self.v)) } }
}
// one step of into_iter
pub trait TakeFirst {
    type Elem;
    type Item;
    spec fn tseq(&self) -> Seq<Self::Elem>;
    spec fn item_is(i: Self::Item, e: Self::Elem) -> bool;
    fn take_first(&mut self) -> (r: Self::Item)
        requires old(self).tseq().len() > 0,
        ensures Self::item_is(r, old(self).tseq()[0]), final(self).tseq() == old(self).tseq().skip(1);
}
impl<T> TakeFirst for Vec<T> {
    type Elem = T;
    type Item = T;
    open spec fn tseq(&self) -> Seq<T> { self@ }
    open spec fn item_is(i: T, e: T) -> bool { i == e }
    #[verifier::external_body]
    fn take_first(&mut self) -> (r: T) { self.remove(0) }
}
impl<'a, T> TakeFirst for &'a [T] {
    type Elem = T;
    type Item = &'a T;
    open spec fn tseq(&self) -> Seq<T> { self@ }
    open spec fn item_is(i: &'a T, e: T) -> bool { *i == e }
    fn take_first(&mut self) -> (r: &'a T) {
        let s: &'a [T] = *self;
        *self = vstd::slice::slice_subrange(s, 1, s.len());
        &s[0]
    }
}
pub fn take_first<S: TakeFirst>(v: &mut S) -> (r: S::Item)
    requires old(v).tseq().len() > 0,
    ensures S::item_is(r, old(v).tseq()[0]), final(v).tseq() == old(v).tseq().skip(1),
{ v.take_first() }

pub use vstd::arithmetic::power2::{pow2, lemma_pow2, lemma_pow2_adds, lemma_pow2_pos, lemma_pow2_strictly_increases, lemma2_to64, lemma2_to64_rest, lemma_pow2_unfold};

pub use vstd::bits::{lemma_u64_pow2_no_overflow, lemma_u64_shl_is_mul};
pub broadcast proof fn lemma_shl1(k: usize)
    requires k < 64,
    ensures #[trigger] (1u64 << k) == pow2(k as nat),
{
    lemma_u64_pow2_no_overflow(k as nat);
    lemma_u64_shl_is_mul(1, k as u64);
    assert((1u64 << k) == (1u64 << (k as u64)));
}
pub proof fn lemma_shl1u(k: usize)
    requires k < 64,
    ensures (1usize << k) == pow2(k as nat),
{
    lemma_shl1(k);
    let z = k as u64;
    assert((1usize << k) as u64 == 1u64 << z) by (bit_vector) requires z == k as u64, k < 64;
}
// index arithmetic written with bit operations means the same as with division and remainder
pub broadcast proof fn bits_shr(x: usize, k: usize)
    requires k < 64,
    ensures (#[trigger] (x >> k)) as int == x as int / pow2(k as nat) as int, (x >> k) <= x,
{
    let (y, z) = (x as u64, k as u64);
    vstd::bits::lemma_u64_shr_is_div(y, z);
    assert((x >> k) as u64 == y >> z) by (bit_vector) requires y == x as u64, z == k as u64, k < 64;
    assert((x >> k) <= x) by (bit_vector);
}
pub broadcast proof fn bits_shr1(x: usize) ensures (#[trigger] (x >> 1)) == x / 2
{ assert((x >> 1) == x / 2) by (bit_vector); }
pub broadcast proof fn bits_and1(x: usize) ensures (#[trigger] (x & 1)) == x % 2
{ assert((x & 1) == x % 2) by (bit_vector); }
pub broadcast proof fn bits_shl1(x: usize)
    requires x < 0x8000_0000_0000_0000,
    ensures (#[trigger] (x << 1)) == 2 * x,
{ assert((x << 1) == 2 * x) by (bit_vector) requires x < 0x8000_0000_0000_0000; }
pub broadcast group bits { bits_shr, bits_shr1, bits_and1, bits_shl1 }
pub proof fn lemma_pow2_64() ensures pow2(64) == 0x1_0000_0000_0000_0000int, pow2(63) == 0x8000_0000_0000_0000int, pow2(0) == 1, pow2(1) == 2
{ lemma2_to64(); lemma2_to64_rest(); }

pub use vstd::arithmetic::div_mod::{lemma_mod_multiples_basic, lemma_fundamental_div_mod, lemma_fundamental_div_mod_converse, lemma_small_mod};
pub proof fn lemma_mul_mod(a: int, m: int) requires m > 0 ensures (m * a) % m == 0, (a * m) % m == 0
{ lemma_mod_multiples_basic(a, m); assert(m * a == a * m) by (nonlinear_arith); }
pub proof fn lemma_is_pow2_pos(n: nat) requires is_pow2(n) ensures n > 0
{ let k = choose|k: nat| n == pow2(k); lemma_pow2_pos(k); }
pub open spec fn is_pow2(x: nat) -> bool { exists|k: nat| x == pow2(k) }

pub assume_specification [u64::is_power_of_two] (x: u64) -> (r: bool)
    ensures r == is_pow2(x as nat);
pub assume_specification [usize::is_power_of_two] (x: usize) -> (r: bool)
    ensures r == is_pow2(x as nat);
pub assume_specification<T: Clone + core::marker::Destruct> [<[T]>::clone_from_slice] (dst: &mut [T], src: &[T])
    requires old(dst)@.len() == src@.len(),
    ensures final(dst)@ == src@;

pub assume_specification<T> [<[T]>::reverse] (s: &mut [T])
    ensures final(s)@ == old(s)@.reverse();
pub assume_specification<T> [<[T]>::rotate_left] (s: &mut [T], k: usize)
    requires k <= old(s)@.len(),
    ensures final(s)@ == old(s)@.subrange(k as int, old(s)@.len() as int) + old(s)@.subrange(0, k as int);
pub assume_specification<T: Clone> [<[T]>::to_vec] (s: &[T]) -> (r: Vec<T>)
    ensures r@.len() == s@.len(), forall|i: int| 0 <= i < s@.len() ==> cloned(#[trigger] s@[i], r@[i]);
pub assume_specification [u64::wrapping_neg] (x: u64) -> (r: u64)
    ensures r as int == (-(x as int)) % 0x1_0000_0000_0000_0000;
pub assume_specification [usize::leading_zeros] (x: usize) -> (r: u32)
    ensures r <= 64, r == 64 <==> x == 0,
        x > 0 ==> pow2((63 - r) as nat) <= x && (x as int) < pow2((64 - r) as nat);

// std, by value-level contracts
pub open spec fn M64() -> int { 0x1_0000_0000_0000_0000 }
}

pub mod shim_std {
    pub mod fs { pub struct File {} }
    pub mod cmp { pub use crate::shim::max_usize as max; }
    pub mod fmt { pub trait Display {} pub struct Formatter {} }
    pub mod time {
        use vstd::prelude::*;
        pub struct Duration {}
        pub struct Instant {}
        impl Instant {
            #[verifier::external_body] pub fn now() -> Instant { unimplemented!() }
            #[verifier::external_body] pub fn elapsed(&self) -> Duration { unimplemented!() }
        }
    }
    pub mod sync { pub struct Arc {} pub struct Mutex {} pub struct RwLock {} }
    pub mod collections { pub use crate::shim_map::HashMap; pub mod hash_map { pub use crate::shim_map::Entry; } }
}
} // verus!
#end
