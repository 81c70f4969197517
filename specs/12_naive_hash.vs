#module naive_hash
#ghost
broadcast use crate::shim::bits;
use crate::shim_rand::permuted;
// v is among the first `upto` requested items
#[verifier::opaque]
pub open spec fn item_in(is: Seq<usize>, upto: int, v: usize) -> bool { exists|k: int| 0 <= k < upto && #[trigger] is[k] == v }
// some row carries item v
#[verifier::opaque]
pub open spec fn row_of(m: Map<usize, (usize, usize)>, v: usize) -> bool { exists|r: usize| #[trigger] m.contains_key(r) && m[r].1 == v }
impl NaiveHash {
    // every position 0..h*d exactly once
    pub open spec fn wf(&self) -> bool {
        let n = (self.h_count * self.input_domain) as int;
        &&& self.h_count > 0 && n <= usize::MAX
        &&& self.tables@.len() == n
        &&& forall|i: int| 0 <= i < n ==> #[trigger] self.tables@[i] < n
        &&& forall|i: int, j: int| 0 <= i < j < n ==> self.tables@[i] != self.tables@[j]
        &&& forall|p: usize| p < n ==> #[trigger] self.tables@.contains(p)
    }
    pub open spec fn slot(&self, h: int, x: int) -> int { self.h_count * x + h }
    pub open spec fn pos(&self, h: int, x: int) -> int { self.tables@[self.slot(h, x)] as int }
    pub open spec fn ok(&self, h: int, x: int) -> bool { 0 <= h < self.h_count && 0 <= x < self.input_domain }
    pub proof fn lemma_slot(&self, h: int, x: int)
        requires self.ok(h, x),
        ensures 0 <= self.slot(h, x) < self.h_count * self.input_domain,
    {
        assert(0 <= self.h_count * x + h < self.h_count * self.input_domain) by (nonlinear_arith)
            requires 0 <= h < self.h_count, 0 <= x <= self.input_domain - 1;
    }
    // C05: distinct pairs have distinct positions, and every position is taken
    pub proof fn lemma_distinct(&self, h: int, x: int, h2: int, x2: int)
        requires self.wf(), self.ok(h, x), self.ok(h2, x2), h != h2 || x != x2,
        ensures self.pos(h, x) != self.pos(h2, x2), 0 <= self.pos(h, x) < self.h_count * self.input_domain,
    {
        self.lemma_slot(h, x);
        self.lemma_slot(h2, x2);
        let m = self.h_count as int;
        if x < x2 { assert(m * x + h < m * x2 + h2) by (nonlinear_arith) requires x + 1 <= x2, 0 <= h < m, 0 <= h2 < m; }
        if x > x2 { assert(m * x + h > m * x2 + h2) by (nonlinear_arith) requires x >= x2 + 1, 0 <= h < m, 0 <= h2 < m; }
        assert(self.slot(h, x) != self.slot(h2, x2));
    }
    pub proof fn lemma_onto(&self, p: usize) -> (r: (int, int))
        requires self.wf(), p < self.h_count * self.input_domain,
        ensures self.ok(r.0, r.1), self.pos(r.0, r.1) == p,
    {
        assert(self.tables@.contains(p));
        let i = choose|i: int| 0 <= i < self.tables@.len() && self.tables@[i] == p;
        let m = self.h_count as int;
        let (h, x) = (i % m, i / m);
        lemma_fundamental_div_mod(i, m);
        assert(0 <= x < self.input_domain) by (nonlinear_arith) requires i == m * x + h, 0 <= h < m, 0 <= i < m * self.input_domain;
        (h, x)
    }
    // (row, (column, item)) is one of the item's hash positions
    pub open spec fn at_slot(&self, r: int, c: int, i: int, d: int) -> bool {
        exists|h: int| 0 <= h < self.h_count && #[trigger] self.pos(h, i) == r * d + c
    }
    pub open spec fn placed(&self, m: Map<usize, (usize, usize)>, is: Seq<usize>, d: int, upto: int) -> bool {
        &&& m.dom().finite() && m.len() == upto
        &&& forall|r: usize| #[trigger] m.contains_key(r) ==> m[r].0 < d && self.at_slot(r as int, m[r].0 as int, m[r].1 as int, d)
        &&& forall|r: usize| #[trigger] m.contains_key(r) ==> item_in(is, upto, m[r].1)
        &&& forall|k: int| 0 <= k < upto ==> row_of(m, #[trigger] is[k])
        &&& forall|r: usize, q: usize| #[trigger] m.contains_key(r) && #[trigger] m.contains_key(q) && r != q ==> m[r].1 != m[q].1
    }
    pub proof fn lemma_place(&self, m: Map<usize, (usize, usize)>, is: Seq<usize>, d: int, j: int, h: int, r: usize, c: usize)
        requires self.placed(m, is, d, j), 0 <= j < is.len(), !m.contains_key(r), 0 <= h < self.h_count, self.pos(h, is[j] as int) == r * d + c, c < d,
            forall|a: int, b: int| 0 <= a < b < is.len() ==> is[a] != is[b],
        ensures self.placed(m.insert(r, (c, is[j])), is, d, j + 1),
    {
        let n = m.insert(r, (c, is[j]));
        assert forall|q: usize| #[trigger] n.contains_key(q) implies n[q].0 < d && self.at_slot(q as int, n[q].0 as int, n[q].1 as int, d) by {
            if q != r { assert(m.contains_key(q)); }
        }
        assert forall|q: usize| #[trigger] n.contains_key(q) implies item_in(is, j + 1, n[q].1) by {
            reveal(item_in);
            if q == r { assert(is[j] == n[q].1); } else {
                assert(m.contains_key(q));
                let k = choose|k: int| 0 <= k < j && #[trigger] is[k] == m[q].1;
                assert(is[k] == n[q].1);
            }
        }
        assert forall|k: int| 0 <= k < j + 1 implies row_of(n, #[trigger] is[k]) by {
            reveal(row_of);
            if k == j { assert(n.contains_key(r)); } else {
                let q = choose|q: usize| #[trigger] m.contains_key(q) && m[q].1 == is[k];
                assert(n.contains_key(q));
            }
        }
        assert forall|a: usize, b: usize| #[trigger] n.contains_key(a) && #[trigger] n.contains_key(b) && a != b implies n[a].1 != n[b].1 by {
            if a != r { assert(m.contains_key(a)); self.lemma_fresh(m, is, d, j, a); }
            if b != r { assert(m.contains_key(b)); self.lemma_fresh(m, is, d, j, b); }
        }
    }
    pub proof fn lemma_fresh(&self, m: Map<usize, (usize, usize)>, is: Seq<usize>, d: int, j: int, q: usize)
        requires self.placed(m, is, d, j), 0 <= j < is.len(), m.contains_key(q), forall|a: int, b: int| 0 <= a < b < is.len() ==> is[a] != is[b],
        ensures m[q].1 != is[j],
    {
        reveal(item_in);
        let k = choose|k: int| 0 <= k < j && #[trigger] is[k] == m[q].1;
        assert(is[k] != is[j]);
    }
    // no row of item i is free
    pub open spec fn stuck(&self, m: Map<usize, (usize, usize)>, i: int, d: int) -> bool {
        forall|h: int| 0 <= h < self.h_count ==> m.contains_key((#[trigger] self.pos(h, i) / d) as usize)
    }
}
#fn NaiveHash::new
#sig
requires h_count > 0, h_count * input_domain <= usize::MAX,
ensures r.wf(), r.h_count == h_count, r.input_domain == input_domain,
#loop 0
invariant forall|i: int| 0 <= i < __k0 ==> __c0@[i] == i,
#at after:shuffle#0
proof {
    let n = (h_count * input_domain) as int;
    let f = choose|f: Seq<int>| #[trigger] permuted(__sh, f, tables@);
    assert forall|p: usize| p < n implies #[trigger] tables@.contains(p) by {
        assert(f.contains(p as int));
        let i = choose|i: int| 0 <= i < f.len() && f[i] == p as int;
        assert(tables@[i] == p);
    }
    assert forall|i: int, j: int| 0 <= i < j < n implies tables@[i] != tables@[j] by { assert(f[i] != f[j]); }
}
#at before:shuffle#0
let ghost __sh = tables@;
#fn NaiveHash::checked_hash
#sig
requires self.wf(),
ensures r == if self.ok(h as int, x as int) { Some(self.pos(h as int, x as int) as usize) } else { None },
#fn NaiveHash::hash
#sig
requires self.wf(), self.ok(h as int, x as int),
ensures r == self.pos(h as int, x as int), r < self.h_count * self.input_domain,
#at start
proof { self.lemma_slot(h as int, x as int); assert(self.h_count * x >= 0) by (nonlinear_arith); }
#fn NaiveHash::hash0
#sig
requires self.wf(), self.ok(0, x as int),
ensures r == self.pos(0, x as int),
#fn NaiveHash::hash1
#sig
requires self.wf(), self.ok(1, x as int),
ensures r == self.pos(1, x as int),
#fn NaiveHash::hash2
#sig
requires self.wf(), self.ok(2, x as int),
ensures r == self.pos(2, x as int),
#fn NaiveHash::input_domain
#sig
ensures r == self.input_domain,
#fn NaiveHash::h_count
#sig
ensures r == self.h_count,
#fn NaiveHash::output_domain
#sig
requires self.wf(),
ensures r == self.h_count * self.input_domain,
#at start
proof { assert(self.h_count * self.input_domain == self.input_domain * self.h_count) by (nonlinear_arith); }
#fn NaiveHash::hash_to_tuple
#sig
requires self.wf(), self.ok(h as int, x as int), d > 0,
ensures r.0 * d + r.1 == self.pos(h as int, x as int), r.1 < d, r.0 == self.pos(h as int, x as int) / (d as int), r.0 < self.h_count * self.input_domain,
#at after:let:tmp#0
proof {
    lemma_fundamental_div_mod(tmp as int, d as int);
    let q = tmp / d;
    assert(q * d == d * q) by (nonlinear_arith);
    assert(q <= tmp) by (nonlinear_arith) requires tmp == d * q + tmp % d, d >= 1, tmp % d >= 0, q >= 0;
}
#fn NaiveHash::hash_to_mapping
#panic self.stuck(out@, *i as int, d as int)
#sig
requires self.wf(), d > 0,
  forall|k: int| 0 <= k < is@.len() ==> #[trigger] is@[k] < self.input_domain,
  forall|j: int, k: int| 0 <= j < k < is@.len() ==> is@[j] != is@[k],
ensures self.placed(r@, is@, d as int, is@.len() as int),
#loop 0
invariant self.wf(), d > 0, __n0 == is@.len(), self.placed(out@, is@, d as int, __k0 as int),
  forall|k: int| 0 <= k < is@.len() ==> #[trigger] is@[k] < self.input_domain,
  forall|j: int, k: int| 0 <= j < k < is@.len() ==> is@[j] != is@[k],
#at loop1.before
let ghost __o = out@;
#loop 1
invariant self.wf(), d > 0, *i == is@[__j0 as int], __n1 == self.h_count, __j0 < is@.len(),
  out@ == __o, __k1 < __n1, forall|h: int| 0 <= h < __k1 ==> __o.contains_key((#[trigger] self.pos(h, *i as int) / (d as int)) as usize),
#at before:insert#0
proof { self.lemma_place(__o, is@, d as int, __j0 as int, h as int, r, c); }
