#prelude
verus! {
pub mod shim_rand {
use vstd::prelude::*;
use crate::shim::*;
#[verifier::external_body] pub struct ThreadRng { x: u64 }
#[verifier::external_body]
pub fn thread_rng() -> ThreadRng { unimplemented!() }
// every drawn seed comes from the operating system's entropy
pub trait Rng { }
impl ThreadRng {
    // w: the seeds drawn so far
    #[verifier::external_body]
    pub fn gen_u128(&mut self, w: &mut Ghost<Set<u128>>) -> (r: u128)
        ensures crate::ring::entropic(r), !old(w)@.contains(r), final(w)@ == old(w)@.insert(r),
    { unimplemented!() }
}
// f lists 0..n in some order
pub open spec fn is_perm(f: Seq<int>, n: int) -> bool {
    &&& f.len() == n
    &&& forall|i: int| 0 <= i < n ==> 0 <= #[trigger] f[i] < n
    &&& forall|i: int, j: int| 0 <= i < j < n ==> f[i] != f[j]
    &&& forall|k: int| 0 <= k < n ==> #[trigger] f.contains(k)
}
pub open spec fn permuted<T>(a: Seq<T>, f: Seq<int>, b: Seq<T>) -> bool {
    is_perm(f, a.len() as int) && b.len() == a.len() && forall|i: int| 0 <= i < a.len() ==> #[trigger] b[i] == a[f[i]]
}
// assumed: shuffling permutes the elements
pub trait SliceRandom<T> { fn shuffle(&mut self, rng: &mut ThreadRng); }
impl<T> SliceRandom<T> for Vec<T> {
    #[verifier::external_body]
    fn shuffle(&mut self, rng: &mut ThreadRng)
        ensures exists|f: Seq<int>| #[trigger] permuted(old(self)@, f, final(self)@),
    { unimplemented!() }
}
}
pub mod rand {
    pub use crate::shim_rand::*;
    pub mod seq { pub use crate::shim_rand::*; }
}
pub mod shim_f64 {
use vstd::prelude::*;
// f64 arithmetic, uninterpreted: the contracts only say which operations are applied to which values
pub uninterp spec fn f_of(x: int) -> f64;
pub uninterp spec fn f_log2(x: f64) -> f64;
pub uninterp spec fn f_add(x: f64, y: f64) -> f64;
pub uninterp spec fn f_sub(x: f64, y: f64) -> f64;
pub uninterp spec fn f_mul(x: f64, y: f64) -> f64;
pub uninterp spec fn f_div(x: f64, y: f64) -> f64;
pub trait ToF: Sized { spec fn v(&self) -> int; fn tof(self) -> (r: f64) ensures r == f_of(self.v()); }
impl ToF for u64 { open spec fn v(&self) -> int { *self as int } #[verifier::external_body] fn tof(self) -> f64 { self as f64 } }
impl ToF for usize { open spec fn v(&self) -> int { *self as int } #[verifier::external_body] fn tof(self) -> f64 { self as f64 } }
impl ToF for i64 { open spec fn v(&self) -> int { *self as int } #[verifier::external_body] fn tof(self) -> f64 { self as f64 } }
#[verifier::external_body] pub fn fadd(x: f64, y: f64) -> (r: f64) ensures r == f_add(x, y) { x + y }
#[verifier::external_body] pub fn fsub(x: f64, y: f64) -> (r: f64) ensures r == f_sub(x, y) { x - y }
#[verifier::external_body] pub fn fmul(x: f64, y: f64) -> (r: f64) ensures r == f_mul(x, y) { x * y }
#[verifier::external_body] pub fn fdiv(x: f64, y: f64) -> (r: f64) ensures r == f_div(x, y) { x / y }
pub assume_specification [f64::log2] (x: f64) -> (r: f64) ensures r == f_log2(x);
// two's complement
#[verifier::external_body]
pub fn to_i64(x: u64) -> (r: i64) ensures r as int == if x < 0x8000_0000_0000_0000 { x as int } else { x - 0x1_0000_0000_0000_0000 } { x as i64 }
pub assume_specification [i64::unsigned_abs] (x: i64) -> (r: u64) ensures r as int == if x < 0 { -(x as int) } else { x as int };
}
pub mod shim_map {
use vstd::prelude::*;
// std::collections::HashMap, by its map of keys to values (assumed)
#[verifier::external_body] #[verifier::reject_recursive_types(K)] #[verifier::reject_recursive_types(V)]
pub struct HashMap<K, V> { k: Vec<K>, v: Vec<V> }
impl<K, V> View for HashMap<K, V> { type V = Map<K, V>; uninterp spec fn view(&self) -> Map<K, V>; }
#[verifier::reject_recursive_types(K)] #[verifier::reject_recursive_types(V)] pub struct VacantEntry<'a, K, V> { pub m: &'a mut HashMap<K, V>, pub k: K }
#[verifier::reject_recursive_types(K)] pub struct OccupiedEntry<K> { pub k: K }
#[verifier::reject_recursive_types(K)] #[verifier::reject_recursive_types(V)] pub enum Entry<'a, K, V> { Vacant(VacantEntry<'a, K, V>), Occupied(OccupiedEntry<K>) }
impl<'a, K, V> VacantEntry<'a, K, V> {
    #[verifier::external_body]
    pub fn insert(self, v: V) ensures final(self.m)@ == old(self.m)@.insert(self.k, v), final(self.m)@.dom().finite() == old(self.m)@.dom().finite() { unimplemented!() }
}
impl<K, V> HashMap<K, V> {
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Map::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.insert(k, v), r == if old(self)@.contains_key(k) { Some(old(self)@[k]) } else { None },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, k: &K) -> (r: Option<&V>)
        ensures match r { Some(v) => self@.contains_key(*k) && *v == self@[*k], None => !self@.contains_key(*k) },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key(&self, k: &K) -> (r: bool) ensures r == self@.contains_key(*k) { unimplemented!() }
    #[verifier::external_body]
    pub fn entry(&mut self, k: K) -> (r: Entry<'_, K, V>)
        ensures match r {
            Entry::Vacant(e) => !old(self)@.contains_key(k) && e.k == k && *e.m == *old(self) && *final(self) == *final(e.m),
            Entry::Occupied(e) => old(self)@.contains_key(k) && *final(self) == *old(self),
        },
    { unimplemented!() }
}
}
} // verus!
#end
