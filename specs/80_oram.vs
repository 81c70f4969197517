#module oram
#ghost
broadcast use crate::shim::bits;
use crate::ring::*;
use crate::cc::*;
use crate::ccf::*;
use crate::rl::*;
use crate::rlwe::{lg, lemma_lg, rows, all_wf, lemma_join, lemma_split};
use crate::rt::*;
use crate::decision_tree::{bits_wf, grows, demuxed, theorem_demux, lemma_trivial, lemma_demux_len, lemma_log2_le};
use crate::utils::*;
use crate::rayon::maxt;
use crate::bitvec::prelude::nbit;
use crate::codec::lemma_poly_decrypt;
impl FftBufferPool {
    pub open spec fn ok(&self, n: nat) -> bool { self.pool@.len() >= maxt() && self.pool@.len() >= 1 && forall|k: int| 0 <= k < self.pool@.len() ==> (#[trigger] self.pool@[k]).n() == n }
}
impl Context {
    // a context the server can work with
    pub open spec fn swf(&self) -> bool { self.wf() && 0 < self.base_log.0 * self.level_count.0 < 64 }
    pub open spec fn b(&self) -> int { self.base_log.0 as int }
    pub open spec fn l(&self) -> nat { self.level_count.0 as nat }
}
impl EncOP { pub open spec fn sv(&self) -> Seq<u64> { self.0.sv() } }
pub open spec fn gswf(g: RGSWCiphertext, c: &Context) -> bool { g.wf() && g.0.poly_size == c.poly_size && g.0.base_log == c.base_log && g.0.levels == c.level_count }
impl ClientQuery {
    // the shape of every query to a database of 2^k columns
    pub open spec fn shaped(&self, c: &Context, k: nat) -> bool {
        &&& self.a@.len() == k && forall|j: int| 0 <= j < k ==> gswf(#[trigger] self.a@[j], c)
        &&& gswf(self.op.0, c)
        &&& self.data.wf() && self.data.n() == c.n()
    }
}
pub open spec fn dwf(data: Seq<RLWECiphertext>, q: &ClientQuery, c: &Context) -> bool {
    all_wf(data, c.n()) && q.a@.len() > 0 && data.len() == pow2(q.a@.len()) && q.shaped(c, q.a@.len())
}
pub open spec fn nwf(neg: &RGSWCiphertext, c: &Context) -> bool { neg.wf() && neg.n() == c.n() && 0 < neg.b() * neg.l() < 64 }
// ---- what one access computes
pub open spec fn gad_ct(n: nat, b: int, level: int) -> Seq<u64> { pzero(n) + pconst(n, gad(b, level)) }
// what the demultiplexer sends to slot j, one row per level
pub open spec fn sel_rows(gs: Seq<Seq<u64>>, n: nat, b: int, l: nat, j: int) -> Seq<Seq<u64>> { Seq::new(l, |k: int| demuxed(gs, n, b, l, 0, gad_ct(n, b, k + 1))[j]) }
pub open spec fn is_sel(g: Seq<u64>, gs: Seq<Seq<u64>>, n: nat, b: int, l: nat, neg: &RGSWCiphertext, j: int) -> bool { is_expanded(g, n, l, sel_rows(gs, n, b, l, j), neg.sv(), neg.b(), neg.l()) }
#[verifier::opaque]
pub open spec fn all_sel(ls: Seq<RGSWCiphertext>, q: &ClientQuery, neg: &RGSWCiphertext, c: &Context) -> bool {
    &&& ls.len() == pow2(q.a@.len())
    &&& forall|j: int| 0 <= j < ls.len() ==> gswf(#[trigger] ls[j], c) && is_sel(ls[j].sv(), grows(q.a@), c.n(), c.b(), c.l(), neg, j)
}
// the selectors' products with the data, summed
pub open spec fn resp(ls: Seq<Seq<u64>>, data: Seq<Seq<u64>>, n: nat, b: int, l: nat, m: nat) -> Seq<u64> decreases m {
    if m == 0 { pzero(2 * n) } else { padd(resp(ls, data, n, b, l, (m - 1) as nat), ep(ls[m - 1], n, b, l, data[m - 1])) }
}
pub open spec fn rwv(op: Seq<u64>, n: nat, b: int, l: nat, d: Seq<u64>, w: Seq<u64>) -> Seq<u64> { padd(d, ep(op, n, b, l, psub(w, d))) }
pub open spec fn upd(g: Seq<u64>, op: Seq<u64>, n: nat, b: int, l: nat, d: Seq<u64>, w: Seq<u64>) -> Seq<u64> { padd(d, ep(g, n, b, l, psub(rwv(op, n, b, l, d, w), d))) }
pub open spec fn updated(old: Seq<RLWECiphertext>, new: Seq<RLWECiphertext>, ls: Seq<RGSWCiphertext>, q: &ClientQuery, c: &Context) -> bool {
    &&& new.len() == old.len() && all_wf(new, c.n())
    &&& forall|j: int| 0 <= j < new.len() ==> (#[trigger] new[j]).sv() == upd(ls[j].sv(), q.op.sv(), c.n(), c.b(), c.l(), old[j].sv(), q.data.sv())
}
#[verifier::opaque]
pub open spec fn answered(y: RLWECiphertext, data: Seq<RLWECiphertext>, ls: Seq<RGSWCiphertext>, c: &Context) -> bool {
    y.wf() && y.n() == c.n() && y.sv() == resp(grows(ls), rows(data), c.n(), c.b(), c.l(), data.len())
}
impl Server {
    pub open spec fn ok(&self) -> bool {
        &&& self.ctx.swf() && fft_size(self.ctx.n()) && nwf(&self.neg_s, &self.ctx) && self.data@.len() > 0
        &&& forall|r: int| 0 <= r < self.data@.len() ==> all_wf((#[trigger] self.data@[r])@, self.ctx.n()) && self.data@[r]@.len() == self.data@[0]@.len()
    }
    // everything but the data
    pub open spec fn same(&self, o: &Server) -> bool { self.ctx == o.ctx && self.neg_s == o.neg_s && self.data@.len() == o.data@.len() }
    pub open spec fn at(&self, p: (usize, usize)) -> Seq<u64> { self.data@[p.0 as int]@[p.1 as int].sv() }
}
pub open spec fn accessed(old: Seq<RLWECiphertext>, new: Seq<RLWECiphertext>, q: &ClientQuery, y: RLWECiphertext, ls: Seq<RGSWCiphertext>, neg: &RGSWCiphertext, c: &Context) -> bool {
    all_sel(ls, q, neg, c) && answered(y, old, ls, c) && updated(old, new, ls, q, c)
}
// ---- several accesses at once: the selectors, and the selected new values, summed over the queries
pub open spec fn lsv(ls: Seq<Vec<RGSWCiphertext>>, k: int, j: int) -> Seq<u64> { ls[k]@[j].sv() }
pub open spec fn sum_l(ls: Seq<Vec<RGSWCiphertext>>, n: nat, l: nat, j: int, m: nat) -> Seq<u64> decreases m {
    if m == 0 { pzero(2 * l * (2 * n)) } else { padd(sum_l(ls, n, l, j, (m - 1) as nat), lsv(ls, m - 1, j)) }
}
#[verifier::opaque]
pub open spec fn sel_val(ls: Seq<Vec<RGSWCiphertext>>, qs: Seq<ClientQuery>, n: nat, b: int, l: nat, k: int, j: int, d: Seq<u64>) -> Seq<u64> {
    ep(lsv(ls, k, j), n, b, l, rwv(qs[k].op.sv(), n, b, l, d, qs[k].data.sv()))
}
pub open spec fn sum_t(ls: Seq<Vec<RGSWCiphertext>>, qs: Seq<ClientQuery>, n: nat, b: int, l: nat, j: int, d: Seq<u64>, m: nat) -> Seq<u64> decreases m {
    if m == 0 { pzero(2 * n) } else { padd(sum_t(ls, qs, n, b, l, j, d, (m - 1) as nat), sel_val(ls, qs, n, b, l, m - 1, j, d)) }
}
// ---- rayon's reduce: the parts in order, combined in any bracketing and with any number of units
pub open spec fn psum(ps: Seq<Seq<u64>>, m: nat) -> Seq<u64> decreases ps.len() { if ps.len() == 0 { pzero(m) } else { padd(psum(ps.drop_last(), m), ps.last()) } }
pub open spec fn plens(ps: Seq<Seq<u64>>, m: nat) -> bool { forall|i: int| 0 <= i < ps.len() ==> (#[trigger] ps[i]).len() == m }
pub proof fn lemma_psum_len(ps: Seq<Seq<u64>>, m: nat) requires plens(ps, m) ensures psum(ps, m).len() == m decreases ps.len()
{ if ps.len() > 0 { assert(plens(ps.drop_last(), m)); lemma_psum_len(ps.drop_last(), m); } }
pub proof fn lemma_psum_insert(ps: Seq<Seq<u64>>, i: int, z: Seq<u64>, m: nat)
    requires plens(ps, m), z.len() == m, 0 <= i <= ps.len(),
    ensures psum(ps.insert(i, z), m) == padd(psum(ps, m), z), plens(ps.insert(i, z), m),
    decreases ps.len()
{
    let q = ps.insert(i, z);
    lemma_psum_len(ps, m);
    assert forall|k: int| 0 <= k < q.len() implies (#[trigger] q[k]).len() == m by { if k < i { assert(q[k] == ps[k]); } else if k > i { assert(q[k] == ps[k - 1]); } }
    if i == ps.len() {
        assert(q.drop_last() =~= ps); assert(q.last() == z);
    } else {
        let d = ps.drop_last();
        assert(plens(d, m)); lemma_psum_len(d, m);
        assert(q.drop_last() =~= d.insert(i, z)); assert(q.last() == ps.last());
        lemma_psum_insert(d, i, z, m);
        l_padd_ac(psum(d, m), z, ps.last());
    }
}
pub proof fn lemma_psum_unit(ps: Seq<Seq<u64>>, i: int, m: nat)
    requires plens(ps, m), 0 <= i <= ps.len(),
    ensures psum(ps.insert(i, pzero(m)), m) == psum(ps, m),
{ lemma_psum_insert(ps, i, pzero(m), m); lemma_psum_len(ps, m); lemma_add_zero(psum(ps, m)); }
pub proof fn lemma_psum_merge(ps: Seq<Seq<u64>>, i: int, m: nat)
    requires plens(ps, m), 0 <= i < ps.len() - 1,
    ensures psum(ps.remove(i).remove(i).insert(i, padd(ps[i], ps[i + 1])), m) == psum(ps, m),
{
    let (p1, p2) = (ps.remove(i), ps.remove(i).remove(i));
    assert(p1[i] == ps[i + 1]);
    assert forall|k: int| 0 <= k < p1.len() implies (#[trigger] p1[k]).len() == m by { if k < i { assert(p1[k] == ps[k]); } else { assert(p1[k] == ps[k + 1]); } }
    assert forall|k: int| 0 <= k < p2.len() implies (#[trigger] p2[k]).len() == m by { if k < i { assert(p2[k] == p1[k]); } else { assert(p2[k] == p1[k + 1]); } }
    assert(p1.insert(i, ps[i]) =~= ps); assert(p2.insert(i, p1[i]) =~= p1);
    lemma_psum_insert(p2, i, p1[i], m); lemma_psum_insert(p1, i, ps[i], m); lemma_psum_insert(p2, i, padd(ps[i], ps[i + 1]), m);
    lemma_psum_len(p2, m);
    l_padd_ac(psum(p2, m), ps[i + 1], ps[i]); l_padd_ac(ps[i + 1], ps[i], ps[i]);
}
pub proof fn lemma_psum_one(ps: Seq<Seq<u64>>, m: nat) requires ps.len() == 1, plens(ps, m) ensures psum(ps, m) == ps[0]
{ assert(psum(ps.drop_last(), m) == pzero(m)); l_padd_ac(ps[0], pzero(m), pzero(m)); lemma_add_zero(ps[0]); }
pub proof fn lemma_add_zero(a: Seq<u64>) ensures padd(a, pzero(a.len())) == a { assert(padd(a, pzero(a.len())) =~= a); }
// one step of the reduction of vectors, column by column
pub open spec fn tcol(p: Seq<Vec<RLWECiphertext>>, j: int) -> Seq<Seq<u64>> { Seq::new(p.len(), |i: int| p[i]@[j].sv()) }
pub open spec fn lcol(p: Seq<Vec<RGSWCiphertext>>, j: int) -> Seq<Seq<u64>> { Seq::new(p.len(), |i: int| p[i]@[j].sv()) }
pub open spec fn tparts(p: Seq<Vec<RLWECiphertext>>, cols: nat, n: nat) -> bool { forall|i: int| 0 <= i < p.len() ==> (#[trigger] p[i])@.len() == cols && all_wf(p[i]@, n) }
pub open spec fn lparts(p: Seq<Vec<RGSWCiphertext>>, cols: nat, c: &Context) -> bool { forall|i: int| 0 <= i < p.len() ==> (#[trigger] p[i])@.len() == cols && forall|j: int| 0 <= j < cols ==> gswf(#[trigger] p[i]@[j], c) }
#[verifier::opaque]
pub open spec fn ttotal(p: Seq<Vec<RLWECiphertext>>, cols: nat, n: nat, t: Seq<Seq<u64>>) -> bool { tparts(p, cols, n) && t.len() == cols && forall|j: int| 0 <= j < cols ==> psum(#[trigger] tcol(p, j), 2 * n) == t[j] }
#[verifier::opaque]
pub open spec fn ltotal(p: Seq<Vec<RGSWCiphertext>>, cols: nat, c: &Context, t: Seq<Seq<u64>>) -> bool { lparts(p, cols, c) && t.len() == cols && forall|j: int| 0 <= j < cols ==> psum(#[trigger] lcol(p, j), 2 * c.l() * (2 * c.n())) == t[j] }
pub proof fn lemma_ttotal_merge(p: Seq<Vec<RLWECiphertext>>, i: int, v: Vec<RLWECiphertext>, cols: nat, n: nat, t: Seq<Seq<u64>>)
    requires ttotal(p, cols, n, t), 0 <= i < p.len() - 1, v@.len() == cols, all_wf(v@, n), forall|j: int| 0 <= j < cols ==> (#[trigger] v@[j]).sv() == padd(p[i]@[j].sv(), p[i + 1]@[j].sv()),
    ensures ttotal(p.remove(i).remove(i).insert(i, v), cols, n, t),
{
    reveal(ttotal);
    let q = p.remove(i).remove(i).insert(i, v);
    assert forall|k: int| 0 <= k < q.len() implies (#[trigger] q[k]) == if k < i { p[k] } else if k == i { v } else { p[k + 1] } by {}
    assert(tparts(q, cols, n));
    assert forall|j: int| 0 <= j < cols implies psum(#[trigger] tcol(q, j), 2 * n) == t[j] by {
        let o = tcol(p, j);
        assert forall|k: int| 0 <= k < o.len() implies (#[trigger] o[k]).len() == 2 * n by { assert(p[k]@[j].wf() && p[k]@[j].n() == n); }
        lemma_psum_merge(o, i, 2 * n);
        assert(tcol(q, j) =~= o.remove(i).remove(i).insert(i, padd(o[i], o[i + 1])));
    }
}
pub proof fn lemma_ttotal_unit(p: Seq<Vec<RLWECiphertext>>, i: int, v: Vec<RLWECiphertext>, cols: nat, n: nat, t: Seq<Seq<u64>>)
    requires ttotal(p, cols, n, t), 0 <= i <= p.len(), v@.len() == cols, all_wf(v@, n), forall|j: int| 0 <= j < cols ==> (#[trigger] v@[j]).sv() == pzero(2 * n),
    ensures ttotal(p.insert(i, v), cols, n, t),
{
    reveal(ttotal);
    let q = p.insert(i, v);
    assert forall|k: int| 0 <= k < q.len() implies (#[trigger] q[k]) == if k < i { p[k] } else if k == i { v } else { p[k - 1] } by {}
    assert(tparts(q, cols, n));
    assert forall|j: int| 0 <= j < cols implies psum(#[trigger] tcol(q, j), 2 * n) == t[j] by {
        let o = tcol(p, j);
        assert forall|k: int| 0 <= k < o.len() implies (#[trigger] o[k]).len() == 2 * n by { assert(p[k]@[j].wf() && p[k]@[j].n() == n); }
        lemma_psum_unit(o, i, 2 * n);
        assert(tcol(q, j) =~= o.insert(i, pzero(2 * n)));
    }
}
pub proof fn lemma_ttotal_done(p: Seq<Vec<RLWECiphertext>>, cols: nat, n: nat, t: Seq<Seq<u64>>)
    requires ttotal(p, cols, n, t), p.len() == 1,
    ensures tparts(p, cols, n), forall|j: int| 0 <= j < cols ==> (#[trigger] p[0]@[j]).sv() == t[j],
{
    reveal(ttotal);
    assert forall|j: int| 0 <= j < cols implies (#[trigger] p[0]@[j]).sv() == t[j] by {
        let o = tcol(p, j); let k = 0int;
        assert(p[k]@[j].wf() && p[k]@[j].n() == n);
        assert(o[0].len() == 2 * n);
        lemma_psum_one(o, 2 * n);
    }
}
pub proof fn lemma_ltotal_merge(p: Seq<Vec<RGSWCiphertext>>, i: int, v: Vec<RGSWCiphertext>, cols: nat, c: &Context, t: Seq<Seq<u64>>)
    requires ltotal(p, cols, c, t), 0 <= i < p.len() - 1, v@.len() == cols, forall|j: int| 0 <= j < cols ==> gswf(#[trigger] v@[j], c), forall|j: int| 0 <= j < cols ==> (#[trigger] v@[j]).sv() == padd(p[i]@[j].sv(), p[i + 1]@[j].sv()),
    ensures ltotal(p.remove(i).remove(i).insert(i, v), cols, c, t),
{
    reveal(ltotal);
    let q = p.remove(i).remove(i).insert(i, v);
    assert forall|k: int| 0 <= k < q.len() implies (#[trigger] q[k]) == if k < i { p[k] } else if k == i { v } else { p[k + 1] } by {}
    assert(lparts(q, cols, c));
    assert forall|j: int| 0 <= j < cols implies psum(#[trigger] lcol(q, j), 2 * c.l() * (2 * c.n())) == t[j] by {
        let o = lcol(p, j);
        assert forall|k: int| 0 <= k < o.len() implies (#[trigger] o[k]).len() == 2 * c.l() * (2 * c.n()) by { assert(gswf(p[k]@[j], c)); }
        lemma_psum_merge(o, i, 2 * c.l() * (2 * c.n()));
        assert(lcol(q, j) =~= o.remove(i).remove(i).insert(i, padd(o[i], o[i + 1])));
    }
}
pub proof fn lemma_ltotal_unit(p: Seq<Vec<RGSWCiphertext>>, i: int, v: Vec<RGSWCiphertext>, cols: nat, c: &Context, t: Seq<Seq<u64>>)
    requires ltotal(p, cols, c, t), 0 <= i <= p.len(), v@.len() == cols, forall|j: int| 0 <= j < cols ==> gswf(#[trigger] v@[j], c), forall|j: int| 0 <= j < cols ==> (#[trigger] v@[j]).sv() == pzero(2 * c.l() * (2 * c.n())),
    ensures ltotal(p.insert(i, v), cols, c, t),
{
    reveal(ltotal);
    let q = p.insert(i, v);
    assert forall|k: int| 0 <= k < q.len() implies (#[trigger] q[k]) == if k < i { p[k] } else if k == i { v } else { p[k - 1] } by {}
    assert(lparts(q, cols, c));
    assert forall|j: int| 0 <= j < cols implies psum(#[trigger] lcol(q, j), 2 * c.l() * (2 * c.n())) == t[j] by {
        let o = lcol(p, j);
        assert forall|k: int| 0 <= k < o.len() implies (#[trigger] o[k]).len() == 2 * c.l() * (2 * c.n()) by { assert(gswf(p[k]@[j], c)); }
        lemma_psum_unit(o, i, 2 * c.l() * (2 * c.n()));
        assert(lcol(q, j) =~= o.insert(i, pzero(2 * c.l() * (2 * c.n()))));
    }
}
pub proof fn lemma_ltotal_done(p: Seq<Vec<RGSWCiphertext>>, cols: nat, c: &Context, t: Seq<Seq<u64>>)
    requires ltotal(p, cols, c, t), p.len() == 1,
    ensures lparts(p, cols, c), forall|j: int| 0 <= j < cols ==> (#[trigger] p[0]@[j]).sv() == t[j],
{
    reveal(ltotal);
    assert forall|j: int| 0 <= j < cols implies (#[trigger] p[0]@[j]).sv() == t[j] by {
        let o = lcol(p, j); let k = 0int;
        assert(gswf(p[k]@[j], c));
        assert(o[0].len() == 2 * c.l() * (2 * c.n()));
        lemma_psum_one(o, 2 * c.l() * (2 * c.n()));
    }
}
pub proof fn lemma_tsum(p: Seq<Vec<RLWECiphertext>>, ls: Seq<Vec<RGSWCiphertext>>, qs: Seq<ClientQuery>, n: nat, b: int, l: nat, j: int, d: Seq<u64>, k: nat)
    requires k <= p.len(), forall|i: int| 0 <= i < k ==> (#[trigger] p[i])@[j].sv() == sel_val(ls, qs, n, b, l, i, j, d),
    ensures psum(tcol(p, j).take(k as int), 2 * n) == sum_t(ls, qs, n, b, l, j, d, k),
    decreases k
{
    if k > 0 { lemma_tsum(p, ls, qs, n, b, l, j, d, (k - 1) as nat); assert(tcol(p, j).take(k as int).drop_last() =~= tcol(p, j).take(k - 1)); assert(tcol(p, j).take(k as int).last() == p[k - 1]@[j].sv()); }
}
pub proof fn lemma_lsum(ls: Seq<Vec<RGSWCiphertext>>, n: nat, l: nat, j: int, k: nat)
    requires k <= ls.len(),
    ensures psum(lcol(ls, j).take(k as int), 2 * l * (2 * n)) == sum_l(ls, n, l, j, k),
    decreases k
{
    if k > 0 { lemma_lsum(ls, n, l, j, (k - 1) as nat); assert(lcol(ls, j).take(k as int).drop_last() =~= lcol(ls, j).take(k - 1)); assert(lcol(ls, j).take(k as int).last() == lsv(ls, k - 1, j)); }
}
pub proof fn lemma_rsum(ps: Seq<RLWECiphertext>, ls: Seq<Seq<u64>>, data: Seq<Seq<u64>>, n: nat, b: int, l: nat, k: nat)
    requires k <= ps.len(), forall|j: int| 0 <= j < k ==> (#[trigger] ps[j]).sv() == ep(ls[j], n, b, l, data[j]),
    ensures psum(rows(ps).take(k as int), 2 * n) == resp(ls, data, n, b, l, k),
    decreases k
{
    if k > 0 { lemma_rsum(ps, ls, data, n, b, l, (k - 1) as nat); assert(rows(ps).take(k as int).drop_last() =~= rows(ps).take(k - 1)); assert(rows(ps).take(k as int).last() == ps[k - 1].sv()); }
}
pub open spec fn all_sels(ls: Seq<Vec<RGSWCiphertext>>, qs: Seq<ClientQuery>, neg: &RGSWCiphertext, c: &Context) -> bool {
    ls.len() == qs.len() && forall|k: int| 0 <= k < ls.len() ==> all_sel((#[trigger] ls[k])@, &qs[k], neg, c)
}
pub open spec fn multi(old: Seq<RLWECiphertext>, new: Seq<RLWECiphertext>, qs: Seq<ClientQuery>, ys: Seq<RLWECiphertext>, ls: Seq<Vec<RGSWCiphertext>>, neg: &RGSWCiphertext, c: &Context) -> bool {
    &&& all_sels(ls, qs, neg, c) && ys.len() == qs.len()
    &&& forall|k: int| 0 <= k < ys.len() ==> answered(#[trigger] ys[k], old, ls[k]@, c)
    &&& new.len() == old.len() && all_wf(new, c.n())
    &&& forall|j: int| 0 <= j < new.len() ==> (#[trigger] new[j]).sv() == upd_sum(ls, qs, c, j, old[j].sv())
}
#[verifier::opaque]
pub open spec fn upd_sum(ls: Seq<Vec<RGSWCiphertext>>, qs: Seq<ClientQuery>, c: &Context, j: int, d: Seq<u64>) -> Seq<u64> {
    padd(d, ep(sum_l(ls, c.n(), c.l(), j, qs.len()), c.n(), c.b(), c.l(), psub(sum_t(ls, qs, c.n(), c.b(), c.l(), j, d, qs.len()), d)))
}
// ---- consistency correction of the copies of one item
pub open spec fn ep2(f: Seq<RGSWCiphertext>, ls: Seq<Vec<RGSWCiphertext>>, c: &Context, p: (usize, usize), d: Seq<u64>) -> Seq<u64> {
    ep(lsv(ls, p.0 as int, p.1 as int), c.n(), c.b(), c.l(), ep(f[p.0 as int].sv(), c.n(), c.b(), c.l(), d))
}
// d minus the written parts of the first m copies
pub open spec fn cc_first(f: Seq<RGSWCiphertext>, ls: Seq<Vec<RGSWCiphertext>>, c: &Context, ps: Seq<(usize, usize)>, d: Seq<u64>, m: nat) -> Seq<u64> decreases m {
    if m == 0 { d } else { psub(cc_first(f, ls, c, ps, d, (m - 1) as nat), ep2(f, ls, c, ps[m - 1], d)) }
}
pub open spec fn dat(data: Seq<Vec<RLWECiphertext>>, p: (usize, usize)) -> Seq<u64> { data[p.0 as int]@[p.1 as int].sv() }
// the written parts of copies 0..m+1, each of its own data
pub open spec fn cc_second(f: Seq<RGSWCiphertext>, ls: Seq<Vec<RGSWCiphertext>>, c: &Context, ps: Seq<(usize, usize)>, data: Seq<Vec<RLWECiphertext>>, m: nat) -> Seq<u64> decreases m {
    if m == 0 { ep2(f, ls, c, ps[0], dat(data, ps[0])) } else { padd(cc_second(f, ls, c, ps, data, (m - 1) as nat), ep2(f, ls, c, ps[m as int], dat(data, ps[m as int]))) }
}
pub open spec fn corrected(f: Seq<RGSWCiphertext>, ls: Seq<Vec<RGSWCiphertext>>, c: &Context, ps: Seq<(usize, usize)>, data: Seq<Vec<RLWECiphertext>>) -> Seq<u64> {
    padd(cc_second(f, ls, c, ps, data, (ps.len() - 1) as nat), cc_first(f, ls, c, ps, dat(data, ps[0]), ps.len()))
}
pub open spec fn grid_wf(ls: Seq<Vec<RGSWCiphertext>>, rows: nat, cols: nat, c: &Context) -> bool {
    ls.len() == rows && forall|r: int| 0 <= r < rows ==> (#[trigger] ls[r])@.len() == cols && forall|j: int| 0 <= j < cols ==> gswf(#[trigger] ls[r]@[j], c)
}
pub open spec fn table_wf(data: Seq<Vec<RLWECiphertext>>, rows: nat, cols: nat, c: &Context) -> bool {
    data.len() == rows && forall|r: int| 0 <= r < rows ==> (#[trigger] data[r])@.len() == cols && all_wf(data[r]@, c.n())
}
// ---- one access per row, then the copies of every item corrected
// where copy h of item i is
pub open spec fn hpos(hash: &NaiveHash, cols: int, h: int, i: int) -> (usize, usize) { ((hash.pos(h, i) / cols) as usize, (hash.pos(h, i) % cols) as usize) }
pub open spec fn ipos(hash: &NaiveHash, cols: int, i: int) -> Seq<(usize, usize)> { Seq::new(hash.h_count as nat, |h: int| hpos(hash, cols, h, i)) }
pub open spec fn flags(qs: Seq<ClientQuery>) -> Seq<RGSWCiphertext> { Seq::new(qs.len(), |k: int| qs[k].op.0) }
// the common value of all copies of item i
pub open spec fn settled(qs: Seq<ClientQuery>, ls: Seq<Vec<RGSWCiphertext>>, c: &Context, hash: &NaiveHash, cols: int, i: int, mid: Seq<Vec<RLWECiphertext>>) -> Seq<u64> {
    corrected(flags(qs), ls, c, ipos(hash, cols, i), mid)
}
// the first i0 items, and h0 copies of the next one, are corrected; the others are as in mid
#[verifier::opaque]
pub open spec fn settling(data: Seq<Vec<RLWECiphertext>>, qs: Seq<ClientQuery>, ls: Seq<Vec<RGSWCiphertext>>, c: &Context, hash: &NaiveHash, cols: int, mid: Seq<Vec<RLWECiphertext>>, i0: int, h0: int) -> bool {
    forall|i: int, h: int| hash.ok(h, i) ==> #[trigger] dat(data, hpos(hash, cols, h, i)) == if i < i0 || (i == i0 && h < h0) { settled(qs, ls, c, hash, cols, i, mid) } else { dat(mid, hpos(hash, cols, h, i)) }
}
pub open spec fn batched(old: Seq<Vec<RLWECiphertext>>, new: Seq<Vec<RLWECiphertext>>, qs: Seq<ClientQuery>, ys: Seq<RLWECiphertext>, ls: Seq<Vec<RGSWCiphertext>>, mid: Seq<Vec<RLWECiphertext>>, neg: &RGSWCiphertext, hash: &NaiveHash, c: &Context) -> bool {
    &&& all_sels(ls, qs, neg, c) && ys.len() == qs.len() && qs.len() == old.len()
    &&& forall|k: int| 0 <= k < ys.len() ==> answered(#[trigger] ys[k], old[k]@, ls[k]@, c)
    &&& mid.len() == old.len() && new.len() == old.len() && forall|k: int| 0 <= k < mid.len() ==> updated(old[k]@, (#[trigger] mid[k])@, ls[k]@, &qs[k], c)
    &&& settling(new, qs, ls, c, hash, old[0]@.len() as int, mid, hash.input_domain as int, 0)
}
pub proof fn lemma_hpos(hash: &NaiveHash, rows: int, cols: int, h: int, i: int)
    requires hash.wf(), hash.ok(h, i), rows * cols == hash.h_count * hash.input_domain, cols > 0, rows <= usize::MAX, cols <= usize::MAX,
    ensures hpos(hash, cols, h, i).0 < rows, hpos(hash, cols, h, i).1 < cols, hpos(hash, cols, h, i).0 * cols + hpos(hash, cols, h, i).1 == hash.pos(h, i),
{
    hash.lemma_slot(h, i);
    let p = hash.pos(h, i);
    lemma_fundamental_div_mod(p, cols);
    let (q, r) = (p / cols, p % cols);
    assert(0 <= r < cols);
    assert(0 <= q < rows) by (nonlinear_arith) requires p == cols * q + r, 0 <= r < cols, 0 <= p < rows * cols, cols > 0;
    assert(q * cols == cols * q) by (nonlinear_arith);
}
pub proof fn lemma_cc_same(f: Seq<RGSWCiphertext>, ls: Seq<Vec<RGSWCiphertext>>, c: &Context, ps: Seq<(usize, usize)>, d1: Seq<Vec<RLWECiphertext>>, d2: Seq<Vec<RLWECiphertext>>, m: nat)
    requires m < ps.len(), forall|h: int| 0 <= h < ps.len() ==> dat(d1, #[trigger] ps[h]) == dat(d2, ps[h]),
    ensures cc_second(f, ls, c, ps, d1, m) == cc_second(f, ls, c, ps, d2, m),
    decreases m,
{ assert(dat(d1, ps[0]) == dat(d2, ps[0])); if m > 0 { assert(dat(d1, ps[m as int]) == dat(d2, ps[m as int])); lemma_cc_same(f, ls, c, ps, d1, d2, (m - 1) as nat); } }
// correcting an item nobody touched since the update gives the common value
pub proof fn lemma_settle(data: Seq<Vec<RLWECiphertext>>, qs: Seq<ClientQuery>, ls: Seq<Vec<RGSWCiphertext>>, c: &Context, hash: &NaiveHash, cols: int, mid: Seq<Vec<RLWECiphertext>>, i: int)
    requires settling(data, qs, ls, c, hash, cols, mid, i, 0), 0 <= i < hash.input_domain, hash.h_count > 0,
    ensures corrected(flags(qs), ls, c, ipos(hash, cols, i), data) == settled(qs, ls, c, hash, cols, i, mid),
{
    reveal(settling);
    let ps = ipos(hash, cols, i);
    assert forall|h: int| 0 <= h < ps.len() implies dat(data, #[trigger] ps[h]) == dat(mid, ps[h]) by { assert(hash.ok(h, i)); assert(ps[h] == hpos(hash, cols, h, i)); assert(dat(data, hpos(hash, cols, h, i)) == dat(mid, hpos(hash, cols, h, i))); }
    assert(dat(data, ps[0]) == dat(mid, ps[0]));
    lemma_cc_same(flags(qs), ls, c, ps, data, mid, (ps.len() - 1) as nat);
}
pub proof fn lemma_settle_step(d1: Seq<Vec<RLWECiphertext>>, d2: Seq<Vec<RLWECiphertext>>, qs: Seq<ClientQuery>, ls: Seq<Vec<RGSWCiphertext>>, c: &Context, hash: &NaiveHash, rows: int, cols: int, mid: Seq<Vec<RLWECiphertext>>, i: int, h: int)
    requires settling(d1, qs, ls, c, hash, cols, mid, i, h), hash.wf(), hash.ok(h, i), rows * cols == hash.h_count * hash.input_domain, cols > 0, rows <= usize::MAX, cols <= usize::MAX,
        table_wf(d1, rows as nat, cols as nat, c), table_wf(d2, rows as nat, cols as nat, c), dat(d2, hpos(hash, cols, h, i)) == settled(qs, ls, c, hash, cols, i, mid),
        forall|r: int, k: int| 0 <= r < rows && 0 <= k < cols && !(r == hpos(hash, cols, h, i).0 && k == hpos(hash, cols, h, i).1) ==> #[trigger] d2[r]@[k] == d1[r]@[k],
    ensures settling(d2, qs, ls, c, hash, cols, mid, i, h + 1),
{
    reveal(settling);
    let p = hpos(hash, cols, h, i);
    assert forall|j: int, g: int| hash.ok(g, j) implies #[trigger] dat(d2, hpos(hash, cols, g, j)) == if j < i || (j == i && g < h + 1) { settled(qs, ls, c, hash, cols, j, mid) } else { dat(mid, hpos(hash, cols, g, j)) } by {
        let q = hpos(hash, cols, g, j);
        lemma_hpos(hash, rows, cols, g, j);
        lemma_hpos(hash, rows, cols, h, i);
        assert(dat(d1, q) == if j < i || (j == i && g < h) { settled(qs, ls, c, hash, cols, j, mid) } else { dat(mid, q) });
        if g != h || j != i { hash.lemma_distinct(g, j, h, i); assert(!(p.0 == q.0 && p.1 == q.1)); assert(d2[q.0 as int]@[q.1 as int] == d1[q.0 as int]@[q.1 as int]); }
    }
}
// which item a cell of the table belongs to
pub open spec fn owner(hash: &NaiveHash, cols: int, r: int, e: int) -> int { (choose|x: (int, int)| hash.ok(x.0, x.1) && #[trigger] hash.pos(x.0, x.1) == r * cols + e).1 }
pub proof fn lemma_owner(hash: &NaiveHash, rows: int, cols: int, h: int, i: int)
    requires hash.wf(), hash.ok(h, i), rows * cols == hash.h_count * hash.input_domain, cols > 0, rows <= usize::MAX, cols <= usize::MAX,
    ensures owner(hash, cols, hpos(hash, cols, h, i).0 as int, hpos(hash, cols, h, i).1 as int) == i,
{
    lemma_hpos(hash, rows, cols, h, i);
    let (r, e) = (hpos(hash, cols, h, i).0 as int, hpos(hash, cols, h, i).1 as int);
    let y = (h, i);
    assert(hash.ok(y.0, y.1) && hash.pos(y.0, y.1) == r * cols + e);
    let x = choose|x: (int, int)| hash.ok(x.0, x.1) && #[trigger] hash.pos(x.0, x.1) == r * cols + e;
    if x.1 != i { hash.lemma_distinct(x.0, x.1, h, i); }
}
pub proof fn lemma_settle_next(d: Seq<Vec<RLWECiphertext>>, qs: Seq<ClientQuery>, ls: Seq<Vec<RGSWCiphertext>>, c: &Context, hash: &NaiveHash, cols: int, mid: Seq<Vec<RLWECiphertext>>, i: int)
    requires settling(d, qs, ls, c, hash, cols, mid, i, hash.h_count as int), ensures settling(d, qs, ls, c, hash, cols, mid, i + 1, 0),
{
    reveal(settling);
    assert forall|j: int, g: int| hash.ok(g, j) implies #[trigger] dat(d, hpos(hash, cols, g, j)) == if j < i + 1 { settled(qs, ls, c, hash, cols, j, mid) } else { dat(mid, hpos(hash, cols, g, j)) } by {
        assert(dat(d, hpos(hash, cols, g, j)) == if j < i || (j == i && g < hash.h_count) { settled(qs, ls, c, hash, cols, j, mid) } else { dat(mid, hpos(hash, cols, g, j)) });
    }
}
// ---- the client
// the context the parameters describe
pub open spec fn from_params(c: &Context, p: &TFHEParameters) -> bool {
    &&& c.wf() && c.std.0 == p.standard_deviation && c.poly_size.0 == p.polynomial_size && c.base_log.0 == p.base_log && c.level_count.0 == p.level_count
    &&& c.ks_base_log.0 == p.key_switch_base_log && c.ks_level_count.0 == p.key_switch_level_count
    &&& c.negs_base_log.0 == p.negs_base_log && c.negs_level_count.0 == p.negs_level_count && c.codec.t() == p.plaintext_modulus
}
impl Client {
    pub open spec fn ok(&self) -> bool { self.ctx.swf() && self.sk.wf() && self.sk.n() == self.ctx.n() && is_bin(self.sk.sv()) }
    // everything but the random generators, and the key material they are seeded with
    pub open spec fn same(&self, o: &Client) -> bool { self.sk == o.sk && self.rows == o.rows && self.cols == o.cols && self.ctx.same(&o.ctx) && self.root() == o.root() }
    pub open spec fn root(&self) -> u128 { self.ctx.encryption_generator.root() }
    pub open spec fn ctr(&self) -> nat { self.ctx.encryption_generator.ctr() }
}
pub open spec fn nb(c: &Context) -> int { c.std.nb() as int }
// ct encrypts the message m, with an error of at most e
pub open spec fn keeps(ct: Seq<u64>, m: Seq<u64>, s: Seq<u64>, c: &Context, e: int) -> bool {
    m.len() == c.n() && (forall|i: int| 0 <= i < m.len() ==> (#[trigger] m[i]) < c.codec.t()) && near(phase(ct, s), c.codec.penc(m), e)
}
pub open spec fn holds(ct: Seq<u64>, m: Seq<u64>, s: Seq<u64>, c: &Context) -> bool { keeps(ct, m, s, c, nb(c)) }
pub open spec fn is_op(op: EncOP, w: bool, sk: &RLWESecretKey, c: &Context) -> bool { is_rgsw(op.sv(), c.n(), c.l(), c.b(), sk.sv(), pconst(c.n(), if w { 1 } else { 0 }), nb(c)) }
// a query to column i, for writing or reading
pub open spec fn asks(q: &ClientQuery, i: int, w: bool, sk: &RLWESecretKey, c: &Context, cols: usize) -> bool {
    &&& q.shaped(c, lg(cols as nat)) && is_op(q.op, w, sk, c)
    &&& forall|j: int| 0 <= j < q.a@.len() ==> is_rgsw((#[trigger] q.a@[j]).sv(), c.n(), c.l(), c.b(), sk.sv(), pconst(c.n(), if nbit(i, q.a@.len() - 1 - j) { 0 } else { 1 }), nb(c))
}
pub open spec fn asks_row(q: ClientQuery, r: int, m: Map<usize, (usize, usize)>, w: bool, sk: &RLWESecretKey, c: &Context, cols: usize) -> bool {
    asks(&q, if m.contains_key(r as usize) { m[r as usize].0 as int } else { 0 }, w && m.contains_key(r as usize), sk, c, cols)
}
pub open spec fn asks_rows(qs: Seq<ClientQuery>, m: Map<usize, (usize, usize)>, w: bool, sk: &RLWESecretKey, c: &Context, cols: usize) -> bool {
    forall|r: int| 0 <= r < qs.len() ==> asks_row(#[trigger] qs[r], r, m, w, sk, c, cols)
}
// encryptions per query
pub open spec fn qlen(cols: usize) -> int { lg(cols as nat) as int + 2 }
// every component is an encryption of its own, number k .. k + len of this key's encryptions
#[verifier::opaque]
pub open spec fn fresh_query(q: &ClientQuery, s: Seq<u64>, root: u128, k: int, len: int) -> bool {
    exists|ka: int, ko: int, kd: int| #[trigger] fresh_at(q, s, root, k, ka, ko, kd, len)
}
pub open spec fn fresh_at(q: &ClientQuery, s: Seq<u64>, root: u128, k: int, ka: int, ko: int, kd: int, len: int) -> bool {
    &&& k >= 0 && 0 <= ka <= len - q.a@.len() && 0 <= ko < len && 0 <= kd < len && ko != kd && !(ka <= ko < ka + q.a@.len()) && !(ka <= kd < ka + q.a@.len())
    &&& forall|j: int| 0 <= j < q.a@.len() ==> fresh((#[trigger] q.a@[j]).sv(), s, root, (k + ka + j) as nat)
    &&& fresh(q.op.sv(), s, root, (k + ko) as nat) && fresh(q.data.sv(), s, root, (k + kd) as nat)
}
pub open spec fn fresh_rows(qs: Seq<ClientQuery>, s: Seq<u64>, root: u128, k: int, len: int) -> bool {
    forall|r: int| 0 <= r < qs.len() ==> fresh_query(&#[trigger] qs[r], s, root, k + r * len, len)
}
// whatever the order in which the components are encrypted
pub open spec fn fresh_orders(q: &ClientQuery, s: Seq<u64>, root: u128, k: int, g: int) -> bool {
    ||| fresh_at(q, s, root, k, 0, g, g + 1, g + 2) ||| fresh_at(q, s, root, k, 0, g + 1, g, g + 2)
    ||| fresh_at(q, s, root, k, 1, 0, g + 1, g + 2) ||| fresh_at(q, s, root, k, 1, g + 1, 0, g + 2)
    ||| fresh_at(q, s, root, k, 2, 0, 1, g + 2) ||| fresh_at(q, s, root, k, 2, 1, 0, g + 2)
}
pub proof fn lemma_fresh_query(q: &ClientQuery, s: Seq<u64>, root: u128, k: int, g: int)
    requires fresh_orders(q, s, root, k, g), ensures fresh_query(q, s, root, k, g + 2),
{ reveal(fresh_query); }
pub proof fn lemma_pow2_nz(n: nat) requires is_pow2(n) ensures n > 0 { lemma_is_pow2_pos(n); }
// ---- the initial database: m[i] at every hash position of i
pub open spec fn psv(p: Seq<PlaintextList<Vec<Scalar>>>) -> Seq<Seq<u64>> { Seq::new(p.len(), |i: int| p[i].sv()) }
pub open spec fn shelf(db: Seq<Vec<RLWECiphertext>>, hash: &NaiveHash, cols: int, m: Seq<Seq<u64>>, s: Seq<u64>, c: &Context, e: int) -> bool {
    forall|i: int, h: int| hash.ok(h, i) ==> keeps(#[trigger] dat(db, hpos(hash, cols, h, i)), m[i], s, c, e)
}
pub open spec fn stocked(db: Seq<Vec<RLWECiphertext>>, hash: &NaiveHash, cols: int, m: Seq<Seq<u64>>, s: Seq<u64>, c: &Context) -> bool { shelf(db, hash, cols, m, s, c, nb(c)) }
// so far: the first copy of every item of m, the first i0 items entirely, and h0 copies of the next one
#[verifier::opaque]
pub open spec fn stocking(db: Seq<Vec<RLWECiphertext>>, hash: &NaiveHash, cols: int, m: Seq<Seq<u64>>, s: Seq<u64>, c: &Context, i0: int, h0: int) -> bool {
    forall|i: int, h: int| hash.ok(h, i) && i < m.len() && (h == 0 || i < i0 || (i == i0 && h < h0)) ==> holds(#[trigger] dat(db, hpos(hash, cols, h, i)), m[i], s, c)
}
pub proof fn lemma_stock_none(hash: &NaiveHash, cols: int, s: Seq<u64>, c: &Context)
    ensures forall|db: Seq<Vec<RLWECiphertext>>, m: Seq<Seq<u64>>| m.len() == 0 ==> #[trigger] stocking(db, hash, cols, m, s, c, 0, 0),
{ reveal(stocking); }
pub proof fn lemma_stock_at(d: Seq<Vec<RLWECiphertext>>, hash: &NaiveHash, cols: int, m: Seq<Seq<u64>>, s: Seq<u64>, c: &Context, i0: int, h0: int, h: int, i: int)
    requires stocking(d, hash, cols, m, s, c, i0, h0), hash.ok(h, i), i < m.len(), h == 0 || i < i0 || (i == i0 && h < h0),
    ensures holds(dat(d, hpos(hash, cols, h, i)), m[i], s, c),
{ reveal(stocking); }
pub proof fn lemma_stock_first(d: Seq<Vec<RLWECiphertext>>, hash: &NaiveHash, cols: int, m: Seq<Seq<u64>>, s: Seq<u64>, c: &Context, i0: int)
    requires stocking(d, hash, cols, m, s, c, i0, 0), ensures stocking(d, hash, cols, m, s, c, i0, 1),
{ reveal(stocking); }
pub proof fn lemma_stock_next(d: Seq<Vec<RLWECiphertext>>, hash: &NaiveHash, cols: int, m: Seq<Seq<u64>>, s: Seq<u64>, c: &Context, i0: int)
    requires stocking(d, hash, cols, m, s, c, i0, hash.h_count as int), ensures stocking(d, hash, cols, m, s, c, i0 + 1, 0),
{ reveal(stocking); }
pub proof fn lemma_stocked(d: Seq<Vec<RLWECiphertext>>, hash: &NaiveHash, cols: int, m: Seq<Seq<u64>>, s: Seq<u64>, c: &Context)
    requires stocking(d, hash, cols, m, s, c, hash.input_domain as int, 0), m.len() == hash.input_domain, ensures stocked(d, hash, cols, m, s, c),
{ reveal(stocking); }
// copy h of item i has been stored, and nothing else changed
pub proof fn lemma_stock(d1: Seq<Vec<RLWECiphertext>>, d2: Seq<Vec<RLWECiphertext>>, hash: &NaiveHash, rows: int, cols: int, m1: Seq<Seq<u64>>, m2: Seq<Seq<u64>>, s: Seq<u64>, c: &Context, i0: int, h0: int, h: int, i: int)
    requires stocking(d1, hash, cols, m1, s, c, i0, h0), hash.wf(), hash.ok(h, i), rows * cols == hash.h_count * hash.input_domain, cols > 0, rows <= usize::MAX, cols <= usize::MAX,
        table_wf(d1, rows as nat, cols as nat, c), table_wf(d2, rows as nat, cols as nat, c), i < m2.len(), holds(dat(d2, hpos(hash, cols, h, i)), m2[i], s, c),
        forall|r: int, k: int| 0 <= r < rows && 0 <= k < cols && !(r == hpos(hash, cols, h, i).0 && k == hpos(hash, cols, h, i).1) ==> #[trigger] d2[r]@[k] == d1[r]@[k],
        (m2 == m1 && i == i0 && h == h0) || (m2.len() == m1.len() + 1 && i == m1.len() && h == 0 && i0 == 0 && h0 == 0 && forall|k: int| 0 <= k < m1.len() ==> m1[k] == #[trigger] m2[k]),
    ensures stocking(d2, hash, cols, m2, s, c, i0, if h == 0 { h0 } else { h0 + 1 }),
{
    reveal(stocking);
    let p = hpos(hash, cols, h, i);
    let hh = if h == 0 { h0 } else { h0 + 1 };
    assert forall|j: int, g: int| hash.ok(g, j) && j < m2.len() && (g == 0 || j < i0 || (j == i0 && g < hh)) implies holds(#[trigger] dat(d2, hpos(hash, cols, g, j)), m2[j], s, c) by {
        if g != h || j != i {
            let q = hpos(hash, cols, g, j);
            lemma_hpos(hash, rows, cols, g, j);
            lemma_hpos(hash, rows, cols, h, i);
            hash.lemma_distinct(g, j, h, i);
            assert(!(p.0 == q.0 && p.1 == q.1));
            assert(d2[q.0 as int]@[q.1 as int] == d1[q.0 as int]@[q.1 as int]);
            assert(holds(dat(d1, q), m1[j], s, c));
        }
    }
}
pub proof fn lemma_pow2_small(k: nat) requires pow2(k) <= usize::MAX ensures k < 64
{ lemma2_to64(); lemma2_to64_rest(); if k >= 64 { if k > 64 { lemma_pow2_strictly_increases(64, k); } } }
pub proof fn lemma_level(b: int, l: int, level: int)
    requires 0 < b * l < 64, b >= 0, l >= 0, 1 <= level <= l,
    ensures 1 <= b * level <= b * l, b >= 1,
{
    assert(b >= 1) by (nonlinear_arith) requires 0 < b * l, b >= 0;
    assert(1 <= b * level <= b * l) by (nonlinear_arith) requires b >= 1, 1 <= level <= l;
}
pub proof fn lemma_slot(res: Seq<Vec<RLWECiphertext>>, t: Seq<Vec<RLWECiphertext>>, gs: Seq<Seq<u64>>, n: nat, b: int, l: nat, j: int)
    requires res.len() == l, l > 0, 0 <= j < t.len(), t.len() == res[0]@.len(), t[j]@.len() == res.len(), forall|i: int| 0 <= i < res.len() ==> #[trigger] t[j]@[i] == res[i]@[j],
        forall|k: int| 0 <= k < l ==> (#[trigger] res[k])@.len() == t.len() && all_wf(res[k]@, n) && rows(res[k]@) == demuxed(gs, n, b, l, 0, gad_ct(n, b, k + 1)),
    ensures rows(t[j]@) == sel_rows(gs, n, b, l, j), all_wf(t[j]@, n),
{
    assert forall|i: int| 0 <= i < l implies (#[trigger] t[j]@[i]).wf() && t[j]@[i].n() == n && t[j]@[i].sv() == demuxed(gs, n, b, l, 0, gad_ct(n, b, i + 1))[j] by {
        assert(t[j]@[i] == res[i]@[j]); assert(all_wf(res[i]@, n)); assert(rows(res[i]@)[j] == res[i]@[j].sv());
    }
    assert(rows(t[j]@) =~= sel_rows(gs, n, b, l, j));
}
pub proof fn lemma_ep0(g: Seq<u64>, n: nat, b: int, l: nat, d: Seq<u64>)
    requires g.len() == 2 * l * (2 * n), d.len() == 2 * n,
    ensures ep(g, n, b, l, d).len() == 2 * n, padd(pzero(2 * n), ep(g, n, b, l, d)) == ep(g, n, b, l, d),
{ l_ep_len(g, n, b, l, d, l); l_zero_unit(ep(g, n, b, l, d)); }
pub proof fn lemma_resp_same(ls: Seq<Seq<u64>>, ms: Seq<Seq<u64>>, data: Seq<Seq<u64>>, n: nat, b: int, l: nat, m: nat)
    requires m <= ls.len(), m <= ms.len(), forall|j: int| 0 <= j < m ==> #[trigger] ls[j] == ms[j],
    ensures resp(ls, data, n, b, l, m) == resp(ms, data, n, b, l, m),
    decreases m,
{ if m > 0 { lemma_resp_same(ls, ms, data, n, b, l, (m - 1) as nat); } }
pub proof fn lemma_all_sel(ls: Seq<RGSWCiphertext>, q: &ClientQuery, neg: &RGSWCiphertext, c: &Context)
    requires all_sel(ls, q, neg, c),
    ensures ls.len() == pow2(q.a@.len()), forall|j: int| 0 <= j < ls.len() ==> gswf(#[trigger] ls[j], c) && is_sel(ls[j].sv(), grows(q.a@), c.n(), c.b(), c.l(), neg, j),
{ reveal(all_sel); }
#fn FftBufferPool::new
#opt lty0=FftBuffer
#sig
requires fft_size(ctx.n()),
ensures r.pool@.len() == max_size, forall|k: int| 0 <= k < r.pool@.len() ==> (#[trigger] r.pool@[k]).n() == ctx.n(),
#loop 0
invariant forall|k: int| 0 <= k < __k0 ==> (#[trigger] __c0@[k]).n() == ctx.n(),
#fn ClientQuery::into_rw_flag
#sig
ensures r == self.op.0,
#fn Client::new
#sig
requires 2 <= params.plaintext_modulus, is_pow2(params.plaintext_modulus as nat), 0 < params.polynomial_size, 2 * params.polynomial_size <= usize::MAX,
ensures r.rows == rows, r.cols == cols, from_params(&r.ctx, &params), r.sk.wf(), r.sk.n() == r.ctx.n(), is_bin(r.sk.sv()),
#fn Client::gen_neg_sk
#sig
requires old(self).ok(), old(self).ctx.negs_base_log.0 > 0, old(self).ctx.negs_base_log.0 * old(self).ctx.negs_level_count.0 <= 64,
ensures final(self).ok(), final(self).same(old(self)), final(self).ctr() == old(self).ctr() + 1,
    r.wf(), r.n() == old(self).ctx.n(), r.b() == old(self).ctx.negs_base_log.0, r.l() == old(self).ctx.negs_level_count.0, is_rgsw(r.sv(), old(self).ctx.n(), r.l(), r.b(), old(self).sk.sv(), pneg(old(self).sk.sv()), old(self).ctx.std.nb() as int),
#fn Client::gen_dummy_database
#opt lty0=PlaintextList<Vec<Scalar>>
#opt lty1=PlaintextList<Vec<Scalar>>
#sig
requires old(self).ok(), hash.wf(), old(self).rows * old(self).cols == hash.h_count * hash.input_domain, hash.input_domain > 0,
ensures final(self).ok(), final(self).same(old(self)), r.0@.len() == hash.input_domain, table_wf(r.1@, old(self).rows as nat, old(self).cols as nat, &old(self).ctx),
    stocked(r.1@, hash, old(self).cols as int, psv(r.0@), old(self).sk.sv(), &old(self).ctx),
#at start
let ghost (__rows, __cols, __n, __s, __c) = (self.rows as int, self.cols as int, self.ctx.n(), self.sk.sv(), self.ctx);
proof {
    assert(hash.h_count * hash.input_domain == hash.input_domain * hash.h_count) by (nonlinear_arith);
    lemma_fundamental_div_mod_converse(hash.h_count * hash.input_domain, hash.h_count as int, hash.input_domain as int, 0);
    assert(__cols > 0 && __rows > 0) by (nonlinear_arith) requires __rows * __cols == hash.h_count * hash.input_domain, hash.h_count > 0, hash.input_domain > 0, __rows >= 0, __cols >= 0;
    lemma_stock_none(hash, __cols, __s, &__c);
}
#loop 0
invariant __n0 == unique_count, unique_count <= item_count, item_count == hash.input_domain, self.ok(), self.same(old(self)), table_wf(db@, __rows as nat, __cols as nat, &__c),
  stocking(db@, hash, __cols, psv(__c0@), __s, &__c, 0, 0),
#at loop0.begin
let ghost __d = db@;
let ghost __p = psv(__c0@);
proof { lemma_hpos(hash, __rows, __cols, 0, __j0 as int); }
assert(__d[hpos(hash, __cols, 0, __j0 as int).0 as int]@.len() == __cols);
#at loop0.item
proof { lemma_stock(__d, db@, hash, __rows, __cols, __p, psv(__c0@.push(__x0)), __s, &__c, 0, 0, 0, __j0 as int); }
#loop 1
invariant __n1 == item_count - unique_count, __n1 > 0 ==> unique_count == 128, table_wf(db@, __rows as nat, __cols as nat, &__c), pts@.len() == unique_count,
  stocking(db@, hash, __cols, psv(pts@ + __c1@), __s, &__c, 0, 0),
#at loop1.begin
let ghost __d = db@;
let ghost __p = psv(pts@ + __c1@);
proof {
    lemma_hpos(hash, __rows, __cols, 0, unique_count + __j1);
    lemma_hpos(hash, __rows, __cols, 0, (unique_count + __j1) % 128);
    lemma_stock_at(__d, hash, __cols, __p, __s, &__c, 0, 0, 0, (unique_count + __j1) % 128);
}
#at loop1.item
assert(pts@ + __c1@.push(__x1) =~= (pts@ + __c1@).push(__x1));
proof { lemma_stock(__d, db@, hash, __rows, __cols, __p, psv(pts@ + __c1@.push(__x1)), __s, &__c, 0, 0, 0, unique_count + __j1); }
#at before:append#0
let ghost __all = pts@ + rest@;
#at after:append#0
assert(pts@ == __all);
#loop 2
invariant __n2 == item_count, table_wf(db@, __rows as nat, __cols as nat, &__c), pts@.len() == item_count, stocking(db@, hash, __cols, psv(pts@), __s, &__c, __k2 as int, 0),
#loop 3
invariant h_count == hash.h_count, __n3 == h_count - 1, i == __j2, table_wf(db@, __rows as nat, __cols as nat, &__c), stocking(db@, hash, __cols, psv(pts@), __s, &__c, __j2 as int, __k3 + 1),
#at loop3.before
proof { lemma_stock_first(db@, hash, __cols, psv(pts@), __s, &__c, __j2 as int); }
#at loop3.begin
let ghost __d = db@;
proof {
    lemma_hpos(hash, __rows, __cols, 0, i as int);
    lemma_hpos(hash, __rows, __cols, 1 + __j3, i as int);
    lemma_stock_at(__d, hash, __cols, psv(pts@), __s, &__c, i as int, 1 + __j3, 0, i as int);
}
#at loop3.end
proof { lemma_stock(__d, db@, hash, __rows, __cols, psv(pts@), psv(pts@), __s, &__c, i as int, 1 + __j3, 1 + __j3, i as int); }
#at loop3.after
proof { lemma_stock_next(db@, hash, __cols, psv(pts@), __s, &__c, __j2 as int); }
#at ret
proof { lemma_stocked(db@, hash, __cols, psv(pts@), __s, &__c); }
#fn Client::gen_enc_op
#sig
requires old(self).ok(),
ensures final(self).ok(), final(self).same(old(self)), final(self).ctr() == old(self).ctr() + 1,
    gswf(r.0, &old(self).ctx), is_op(r, *op is WRITE, &old(self).sk, &old(self).ctx), fresh(r.sv(), old(self).sk.sv(), old(self).root(), old(self).ctr()),
#at start
proof { crate::dec::l_bl(self.ctx.base_log.0 as int, self.ctx.level_count.0 as int); }
#fn Client::enc_data_rlwe
#sig
requires old(self).ok(), alpha.sv().len() == old(self).ctx.n(),
ensures final(self).ok(), final(self).same(old(self)), final(self).ctr() == old(self).ctr() + 1,
    r.wf(), r.n() == old(self).ctx.n(), holds(r.sv(), alpha.sv(), old(self).sk.sv(), &old(self).ctx), fresh(r.sv(), old(self).sk.sv(), old(self).root(), old(self).ctr()),
#fn Client::make_read_query
#sig
requires old(self).ok(), is_pow2(old(self).cols as nat),
ensures final(self).ok(), final(self).same(old(self)), final(self).ctr() == old(self).ctr() + qlen(old(self).cols),
    asks(&r, i as int, false, &old(self).sk, &old(self).ctx, old(self).cols), fresh_query(&r, old(self).sk.sv(), old(self).root(), old(self).ctr() as int, qlen(old(self).cols)),
#at start
proof { crate::dec::l_bl(self.ctx.base_log.0 as int, self.ctx.level_count.0 as int); }
#at ret
proof { lemma_fresh_query(&__r, self.sk.sv(), self.root(), old(self).ctr() as int, lg(self.cols as nat) as int); }
#fn Client::make_write_query
#sig
requires old(self).ok(), is_pow2(old(self).cols as nat), alpha.sv().len() == old(self).ctx.n(),
ensures final(self).ok(), final(self).same(old(self)), final(self).ctr() == old(self).ctr() + qlen(old(self).cols),
    asks(&r, i as int, true, &old(self).sk, &old(self).ctx, old(self).cols), holds(r.data.sv(), alpha.sv(), old(self).sk.sv(), &old(self).ctx),
    fresh_query(&r, old(self).sk.sv(), old(self).root(), old(self).ctr() as int, qlen(old(self).cols)),
#at start
proof { crate::dec::l_bl(self.ctx.base_log.0 as int, self.ctx.level_count.0 as int); }
#at ret
proof { lemma_fresh_query(&__r, self.sk.sv(), self.root(), old(self).ctr() as int, lg(self.cols as nat) as int); }
#fn Client::gen_read_query_one
#sig
requires old(self).ok(), is_pow2(old(self).cols as nat), hash.wf(), i < hash.input_domain, old(self).rows >= 1,
ensures final(self).ok(), final(self).same(old(self)),
    exists|m: Map<usize, (usize, usize)>| #[trigger] hash.placed(m, seq![i], old(self).cols as int, 1) && asks_row(r, 0, m, false, &old(self).sk, &old(self).ctx, old(self).cols),
    fresh_query(&r, old(self).sk.sv(), old(self).root(), old(self).ctr() as int, qlen(old(self).cols)),
#at start
assert forall|sq: Seq<usize>| #[trigger] sq.len() == 1 && sq[0] == i implies sq == seq![i] by { assert(sq =~= seq![i]); }
#fn Client::gen_read_query_batch
#opt lty0=ClientQuery
#sig
requires old(self).ok(), is_pow2(old(self).cols as nat), hash.wf(),
  forall|k: int| 0 <= k < indices@.len() ==> #[trigger] indices@[k] < hash.input_domain,
  forall|j: int, k: int| 0 <= j < k < indices@.len() ==> indices@[j] != indices@[k],
ensures final(self).ok(), final(self).same(old(self)), final(self).ctr() == old(self).ctr() + old(self).rows * qlen(old(self).cols), r@.len() == old(self).rows,
    exists|m: Map<usize, (usize, usize)>| #[trigger] hash.placed(m, indices@, old(self).cols as int, indices@.len() as int) && asks_rows(r@, m, false, &old(self).sk, &old(self).ctx, old(self).cols),
    fresh_rows(r@, old(self).sk.sv(), old(self).root(), old(self).ctr() as int, qlen(old(self).cols)),
#at start
proof { lemma_pow2_nz(self.cols as nat); }
#at after:let:mapping#0
let ghost __m = mapping@;
let ghost __q = qlen(self.cols);
assert(hash.placed(__m, indices@, self.cols as int, indices@.len() as int));
#loop 0
invariant __n0 == self.rows, self.ok(), self.same(old(self)), self.ctr() == old(self).ctr() + __k0 * __q,
  forall|k: int| 0 <= k < __k0 ==> asks_row(#[trigger] __c0@[k], k, __m, false, &self.sk, &self.ctx, self.cols),
  forall|k: int| 0 <= k < __k0 ==> fresh_query(&#[trigger] __c0@[k], self.sk.sv(), self.root(), old(self).ctr() + k * __q, __q),
#at loop0.begin
proof { assert((__j0 + 1) * __q == __j0 * __q + __q) by (nonlinear_arith); }
#at ret
assert(asks_rows(__r@, __m, false, &self.sk, &self.ctx, self.cols));
#fn Client::gen_write_query_one
#sig
requires old(self).ok(), is_pow2(old(self).cols as nat), hash.wf(), i < hash.input_domain, old(self).rows >= 1, alpha.sv().len() == old(self).ctx.n(),
ensures final(self).ok(), final(self).same(old(self)),
    exists|m: Map<usize, (usize, usize)>| #[trigger] hash.placed(m, seq![i], old(self).cols as int, 1) && asks_row(r, 0, m, true, &old(self).sk, &old(self).ctx, old(self).cols)
        && (m.contains_key(0) ==> holds(r.data.sv(), alpha.sv(), old(self).sk.sv(), &old(self).ctx)),
    fresh_query(&r, old(self).sk.sv(), old(self).root(), old(self).ctr() as int, qlen(old(self).cols)),
#at start
assert forall|sq: Seq<usize>| #[trigger] sq.len() == 1 && sq[0] == i implies sq == seq![i] by { assert(sq =~= seq![i]); }
#fn Client::gen_write_query_batch
#opt lty0=ClientQuery
#sig
requires old(self).ok(), is_pow2(old(self).cols as nat), hash.wf(), alpha.sv().len() == old(self).ctx.n(),
  forall|k: int| 0 <= k < indices@.len() ==> #[trigger] indices@[k] < hash.input_domain,
  forall|j: int, k: int| 0 <= j < k < indices@.len() ==> indices@[j] != indices@[k],
ensures final(self).ok(), final(self).same(old(self)), final(self).ctr() == old(self).ctr() + old(self).rows * qlen(old(self).cols), r@.len() == old(self).rows,
    exists|m: Map<usize, (usize, usize)>| #[trigger] hash.placed(m, indices@, old(self).cols as int, indices@.len() as int) && asks_rows(r@, m, true, &old(self).sk, &old(self).ctx, old(self).cols)
        && (forall|k: int| 0 <= k < r@.len() && m.contains_key(k as usize) ==> holds((#[trigger] r@[k]).data.sv(), alpha.sv(), old(self).sk.sv(), &old(self).ctx)),
    fresh_rows(r@, old(self).sk.sv(), old(self).root(), old(self).ctr() as int, qlen(old(self).cols)),
#at start
proof { lemma_pow2_nz(self.cols as nat); }
#at after:let:mapping#0
let ghost __m = mapping@;
let ghost __q = qlen(self.cols);
assert(hash.placed(__m, indices@, self.cols as int, indices@.len() as int));
#loop 0
invariant __n0 == self.rows, self.ok(), self.same(old(self)), self.ctr() == old(self).ctr() + __k0 * __q,
  forall|k: int| 0 <= k < __k0 ==> asks_row(#[trigger] __c0@[k], k, __m, true, &self.sk, &self.ctx, self.cols),
  forall|k: int| 0 <= k < __k0 && __m.contains_key(k as usize) ==> holds((#[trigger] __c0@[k]).data.sv(), alpha.sv(), self.sk.sv(), &self.ctx),
  forall|k: int| 0 <= k < __k0 ==> fresh_query(&#[trigger] __c0@[k], self.sk.sv(), self.root(), old(self).ctr() + k * __q, __q),
#at loop0.begin
proof { assert((__j0 + 1) * __q == __j0 * __q + __q) by (nonlinear_arith); }
#at ret
assert(asks_rows(__r@, __m, true, &self.sk, &self.ctx, self.cols));
#fn rw
#sig
requires op.0.wf(), a.wf(), b.wf(), ctx.wf(), a.n() == ctx.n(), b.n() == ctx.n(), op.0.n() == ctx.n(), old(buf).n() == ctx.n(), 0 < op.0.b() * op.0.l() < 64,
ensures r.wf(), r.n() == ctx.n(), r.sv() == rwv(op.sv(), ctx.n(), op.0.b(), op.0.l(), b.sv(), a.sv()), final(buf).n() == old(buf).n(),
#fn process_one_mt
#opt lty1=Vec<RLWECiphertext>
#opt lty3=RLWECiphertext
#sig
requires ctx.swf(), buf.ok(ctx.n()), dwf(data@, query, ctx), nwf(neg_s, ctx),
ensures all_sel(r.1@, query, neg_s, ctx), answered(r.0, data@, r.1@, ctx),
#at start
let ghost (__n, __b, __l, __a) = (ctx.n(), ctx.b(), ctx.l(), grows(query.a@));
proof { reveal(all_sel); reveal(answered); }
proof { lemma_pow2_small(query.a@.len()); lemma_pow2_pos(query.a@.len()); }
#loop 0
invariant forall|k: int| 0 <= k < __k0 ==> __c0@[k] == k + 1, __n0 == ctx.level_count.0,
#loop 1
invariant __n1 == __l, levels@.len() == __l, forall|k: int| 0 <= k < __l ==> levels@[k] == k + 1,
  forall|k: int| 0 <= k < __k1 ==> (#[trigger] __c1@[k])@.len() == pow2(query.a@.len()) && all_wf(__c1@[k]@, __n) && rows(__c1@[k]@) == demuxed(__a, __n, __b, __l, 0, gad_ct(__n, __b, k + 1)),
#at loop1.begin
broadcast use lemma_shl1;
proof { lemma_level(__b, __l as int, __j1 + 1); }
#at after:let:c#0
proof { lemma_join(pzero(2 * __n), __n); }
#at before:demux_with#0
proof { assert(c.sv() =~= gad_ct(__n, __b, __j1 + 1)); }
#at before:transpose#0
let ghost __dr = demux_res@;
#at after:let:decomposed_l#0
assert forall|j: int| 0 <= j < data@.len() implies rows((#[trigger] decomposed_l@[j])@) == sel_rows(__a, __n, __b, __l, j) && all_wf(decomposed_l@[j]@, __n) by { lemma_slot(__dr, decomposed_l@, __a, __n, __b, __l, j); }
#loop 2
invariant forall|k: int| 0 <= k < __k2 ==> __c2@[k] == k, __n2 == cols,
#loop 3
invariant __n3 == cols, indices@.len() == cols, forall|k: int| 0 <= k < cols ==> indices@[k] == k,
  forall|j: int| 0 <= j < __k3 ==> gswf(#[trigger] __d3@[j], ctx) && is_sel(__d3@[j].sv(), __a, __n, __b, __l, neg_s, j),
  all_wf(__c3@, __n), forall|j: int| 0 <= j < __k3 ==> (#[trigger] __c3@[j]).sv() == ep(__d3@[j].sv(), __n, __b, __l, data@[j].sv()),
#at loop3.end
proof { lemma_ep0(__d3@[__j3 as int].sv(), __n, __b, __l, data@[__j3 as int].sv()); }
#at loop4.before
proof { lemma_rsum(__p4@, grows(ls@), rows(data@), __n, __b, __l, cols as nat); assert(rows(__p4@).take(cols as int) =~= rows(__p4@)); }
#loop 4
invariant all_wf(__p4@, __n), psum(rows(__p4@), 2 * __n) == resp(grows(ls@), rows(data@), __n, __b, __l, cols as nat),
#at loop4.begin
let ghost __q = __p4@;
proof { assert(plens(rows(__q), 2 * __n)); if __i4 < __q.len() - 1 { lemma_psum_merge(rows(__q), __i4 as int, 2 * __n); } if __i4 <= __q.len() { lemma_psum_unit(rows(__q), __i4 as int, 2 * __n); } }
#at loop4.end
proof {
    if __q.len() >= 2 && __i4 < __q.len() - 1 && __pick4 {
        assert(rows(__p4@) =~= rows(__q).remove(__i4 as int).remove(__i4 as int).insert(__i4 as int, padd(rows(__q)[__i4 as int], rows(__q)[__i4 + 1])));
        assert forall|k: int| 0 <= k < __p4@.len() implies (#[trigger] __p4@[k]).wf() && __p4@[k].n() == __n by { if k < __i4 { assert(__p4@[k] == __q[k]); } else if k > __i4 { assert(__p4@[k] == __q[k + 1]); } }
    } else if __i4 <= __q.len() && __q.len() < usize::MAX {
        assert(rows(__p4@) =~= rows(__q).insert(__i4 as int, pzero(2 * __n)));
        assert forall|k: int| 0 <= k < __p4@.len() implies (#[trigger] __p4@[k]).wf() && __p4@[k].n() == __n by { if k < __i4 { assert(__p4@[k] == __q[k]); } else if k > __i4 { assert(__p4@[k] == __q[k - 1]); } }
    }
}
#at loop4.after
proof { lemma_psum_one(rows(__p4@), 2 * __n); }
#fn process_one_st
#sig
requires ctx.swf(), buf.ok(ctx.n()), dwf(data@, query, ctx), nwf(neg_s, ctx),
ensures all_sel(r.1@, query, neg_s, ctx), answered(r.0, data@, r.1@, ctx),
#at start
let ghost (__n, __b, __l, __a) = (ctx.n(), ctx.b(), ctx.l(), grows(query.a@));
proof { reveal(all_sel); reveal(answered); }
proof { lemma_pow2_small(query.a@.len()); lemma_pow2_pos(query.a@.len()); }
#loop 0
invariant __n0 == __l, demux_res@.len() == __k0,
  forall|k: int| 0 <= k < __k0 ==> (#[trigger] demux_res@[k])@.len() == pow2(query.a@.len()) && all_wf(demux_res@[k]@, __n) && rows(demux_res@[k]@) == demuxed(__a, __n, __b, __l, 0, gad_ct(__n, __b, k + 1)),
#at loop0.begin
broadcast use lemma_shl1;
proof { lemma_level(__b, __l as int, __j0 + 1); }
#at after:let:c#0
proof { lemma_join(pzero(2 * __n), __n); }
#at before:demux_with#0
proof { assert(c.sv() =~= gad_ct(__n, __b, __j0 + 1)); }
#at before:transpose#0
let ghost __dr = demux_res@;
#at after:let:decomposed_l#0
assert forall|j: int| 0 <= j < data@.len() implies rows((#[trigger] decomposed_l@[j])@) == sel_rows(__a, __n, __b, __l, j) && all_wf(decomposed_l@[j]@, __n) by { lemma_slot(__dr, decomposed_l@, __a, __n, __b, __l, j); }
#loop 1
invariant __n1 == cols, ls@.len() == cols, y.wf(), y.n() == __n, forall|j: int| 0 <= j < cols ==> gswf(#[trigger] ls@[j], ctx),
  forall|j: int| 0 <= j < __k1 ==> is_sel((#[trigger] ls@[j]).sv(), __a, __n, __b, __l, neg_s, j),
  y.sv() == resp(grows(ls@), rows(data@), __n, __b, __l, __k1 as nat),
#at loop1.begin
let ghost __o = ls@;
#at loop1.end
proof { lemma_resp_same(grows(__o), grows(ls@), rows(data@), __n, __b, __l, __j1 as nat); }
#fn update_db_mt
#lockmut data
#sig
requires ctx.swf(), buf.ok(ctx.n()), dwf(old(data)@, query, ctx), ls@.len() == old(data)@.len(), forall|j: int| 0 <= j < ls@.len() ==> gswf(#[trigger] ls@[j], ctx),
ensures updated(old(data)@, final(data)@, ls@, query, ctx),
#loop 0
invariant __n0 == ls@.len(), __n0 == data@.len(), __g__v0 == ls@, all_wf(data@, ctx.n()), data@.len() == old(data)@.len(),
  forall|j: int| 0 <= j < __k0 ==> (#[trigger] data@[j]).sv() == upd(ls@[j].sv(), query.op.sv(), ctx.n(), ctx.b(), ctx.l(), old(data)@[j].sv(), query.data.sv()),
  forall|j: int| __k0 <= j < __n0 ==> #[trigger] data@[j] == old(data)@[j],
#at loop0.own
__e
#fn update_db_st
#lockmut data
#sig
requires ctx.swf(), buf.ok(ctx.n()), dwf(old(data)@, query, ctx), ls@.len() == old(data)@.len(), forall|j: int| 0 <= j < ls@.len() ==> gswf(#[trigger] ls@[j], ctx),
ensures updated(old(data)@, final(data)@, ls@, query, ctx),
#loop 0
invariant __n0 == ls@.len(), __n0 == data@.len(), all_wf(data@, ctx.n()), data@.len() == old(data)@.len(),
  forall|j: int| 0 <= j < __k0 ==> (#[trigger] data@[j]).sv() == upd(ls@[j].sv(), query.op.sv(), ctx.n(), ctx.b(), ctx.l(), old(data)@[j].sv(), query.data.sv()),
  forall|j: int| __k0 <= j < __n0 ==> #[trigger] data@[j] == old(data)@[j],
#fn Server::new
#sig
requires 2 <= params.plaintext_modulus, is_pow2(params.plaintext_modulus as nat), 0 < params.polynomial_size, 2 * params.polynomial_size <= usize::MAX,
ensures r.data@ == data@, r.neg_s == neg_s, from_params(&r.ctx, &params),
#loop 0
invariant __n0 == data@.len(), __g__v0 == data@, forall|k: int| 0 <= k < __k0 ==> __c0@[k] == data@[k],
#at ret
assert(__r.data@ =~= data@);
#fn Server::rows
#sig
ensures r == self.data@.len(),
#fn Server::cols
#sig
requires self.data@.len() > 0,
ensures r == self.data@[0]@.len(),
#fn Server::process_one
#sig
requires old(self).ok(), dwf(old(self).data@[0]@, &query, &old(self).ctx),
ensures final(self).ok(), final(self).same(old(self)), exists|ls: Seq<RGSWCiphertext>| #[trigger] accessed(old(self).data@[0]@, final(self).data@[0]@, &query, r.0, ls, &old(self).neg_s, &old(self).ctx),
    forall|k: int| 1 <= k < old(self).data@.len() ==> #[trigger] final(self).data@[k] == old(self).data@[k],
#at before:update_db_mt#0
let ghost __ls = ls@;
proof { lemma_all_sel(__ls, &query, &self.neg_s, &self.ctx); }
#at ret
assert(accessed(old(self).data@[0]@, self.data@[0]@, &query, __r.0, __ls, &old(self).neg_s, &old(self).ctx));
assert forall|k: int| 0 <= k < self.data@.len() implies all_wf((#[trigger] self.data@[k])@, self.ctx.n()) && self.data@[k]@.len() == self.data@[0]@.len() by {
    assert(all_wf(old(self).data@[k]@, self.ctx.n()) && old(self).data@[k]@.len() == old(self).data@[0]@.len());
    if k != 0 { assert(self.data@[k] == old(self).data@[k]); }
}
assert(self.ok() && self.same(old(self)));
#fn Server::process_multi
#opt lty0=RLWECiphertext
#opt dty0=Vec<RGSWCiphertext>
#sig
requires old(self).ok(), forall|k: int| 0 <= k < queries@.len() ==> dwf(old(self).data@[0]@, #[trigger] &queries@[k], &old(self).ctx),
ensures final(self).ok(), final(self).same(old(self)), exists|ls: Seq<Vec<RGSWCiphertext>>| #[trigger] multi(old(self).data@[0]@, final(self).data@[0]@, queries@, r.0@, ls, &old(self).neg_s, &old(self).ctx),
    forall|k: int| 1 <= k < old(self).data@.len() ==> #[trigger] final(self).data@[k] == old(self).data@[k],
#at start
let ghost (__n, __b, __l, __qs, __dat, __cols) = (self.ctx.n(), self.ctx.b(), self.ctx.l(), queries@, self.data@[0]@, self.data@[0]@.len());
#loop 0
invariant __n0 == __qs.len(),
  forall|k: int| 0 <= k < __k0 ==> all_sel((#[trigger] __d0@[k])@, &__qs[k], &self.neg_s, &self.ctx),
  forall|k: int| 0 <= k < __k0 ==> answered(#[trigger] __c0@[k], __dat, __d0@[k]@, &self.ctx),
#at loop0.begin
assert(dwf(__dat, &__qs[__j0 as int], &self.ctx));
#at after:elapsed#0
let ghost __ls = ls@;
assert(all_sels(__ls, __qs, &self.neg_s, &self.ctx));
assert forall|k: int| 0 <= k < __qs.len() implies (#[trigger] __ls[k])@.len() == __cols by { assert(all_sel(__ls[k]@, &__qs[k], &self.neg_s, &self.ctx)); lemma_all_sel(__ls[k]@, &__qs[k], &self.neg_s, &self.ctx); assert(dwf(__dat, &__qs[k], &self.ctx)); }
assert forall|k: int, j: int| 0 <= k < __qs.len() && 0 <= j < __cols implies gswf(#[trigger] __ls[k]@[j], &self.ctx) by { assert(all_sel(__ls[k]@, &__qs[k], &self.neg_s, &self.ctx)); lemma_all_sel(__ls[k]@, &__qs[k], &self.neg_s, &self.ctx); assert(dwf(__dat, &__qs[k], &self.ctx)); }
#at loop1.before
let ghost __tt = Seq::new(__cols, |j: int| sum_t(__ls, __qs, __n, __b, __l, j, __dat[j].sv(), __qs.len()));
proof {
    reveal(ttotal);
    assert forall|j: int| 0 <= j < __cols implies psum(#[trigger] tcol(__p1@, j), 2 * __n) == __tt[j] by { lemma_tsum(__p1@, __ls, __qs, __n, __b, __l, j, __dat[j].sv(), __qs.len()); assert(tcol(__p1@, j).take(__qs.len() as int) =~= tcol(__p1@, j)); }
}
#loop 1
invariant ttotal(__p1@, __cols, __n, __tt),
#at loop1.begin
let ghost __q1 = __p1@;
proof { reveal(ttotal); }
#at loop1.end
proof {
    if __q1.len() >= 2 && __i1 < __q1.len() - 1 && __pick1 { lemma_ttotal_merge(__q1, __i1 as int, __p1@[__i1 as int], __cols, __n, __tt); assert(__p1@ =~= __q1.remove(__i1 as int).remove(__i1 as int).insert(__i1 as int, __p1@[__i1 as int])); }
    else if __i1 <= __q1.len() && __q1.len() < usize::MAX { lemma_ttotal_unit(__q1, __i1 as int, __p1@[__i1 as int], __cols, __n, __tt); assert(__p1@ =~= __q1.insert(__i1 as int, __p1@[__i1 as int])); }
}
#at loop1.after
proof { lemma_ttotal_done(__p1@, __cols, __n, __tt); }
#loop 2
invariant __n2 == __qs.len(), __g__v0 == __qs, tparts(__c2@, __cols, __n),
  forall|k: int, j: int| 0 <= k < __k2 && 0 <= j < __cols ==> (#[trigger] __c2@[k]@[j]).sv() == sel_val(__ls, __qs, __n, __b, __l, k, j, __dat[j].sv()),
#at loop2.begin
let ghost __q = __qs[__j2 as int];
assert(dwf(__dat, &__q, &self.ctx));
#loop 3
invariant __n3 == __cols, out@.len() == __cols, all_wf(out@, __n), query == __q, *l == __ls[__j2 as int],
  forall|j: int| 0 <= j < __k3 ==> (#[trigger] out@[j]).sv() == sel_val(__ls, __qs, __n, __b, __l, __j2 as int, j, __dat[j].sv()),
  forall|j: int| __k3 <= j < __cols ==> (#[trigger] out@[j]).sv() == pzero(2 * __n),
#at loop3.begin
assert(gswf(l@[__j3 as int], &self.ctx));
proof { reveal(sel_val); let g = __q.op.sv(); let d = __dat[__j3 as int].sv(); lemma_ep0(g, __n, __b, __l, psub(__q.data.sv(), d)); lemma_ep0(l@[__j3 as int].sv(), __n, __b, __l, rwv(g, __n, __b, __l, d, __q.data.sv())); }
#loop 4
invariant __n4 == __cols, xs@.len() == __cols, all_wf(xs@, __n), all_wf(ys@, __n), ys@.len() == __cols,
  forall|j: int| 0 <= j < __k4 ==> (#[trigger] xs@[j]).sv() == padd(__q1[__i1 as int]@[j].sv(), ys@[j].sv()),
  forall|j: int| __k4 <= j < __cols ==> #[trigger] xs@[j] == __q1[__i1 as int]@[j],
#at loop5.before
let ghost __tl = Seq::new(__cols, |j: int| sum_l(__ls, __n, __l, j, __qs.len()));
proof {
    reveal(ltotal);
    assert forall|j: int| 0 <= j < __cols implies psum(#[trigger] lcol(__p5@, j), 2 * __l * (2 * __n)) == __tl[j] by { lemma_lsum(__ls, __n, __l, j, __qs.len()); assert(lcol(__ls, j).take(__qs.len() as int) =~= lcol(__ls, j)); }
}
#loop 5
invariant ltotal(__p5@, __cols, &self.ctx, __tl),
#at loop5.begin
let ghost __q5 = __p5@;
proof { reveal(ltotal); }
#at loop5.end
proof {
    if __q5.len() >= 2 && __i5 < __q5.len() - 1 && __pick5 { lemma_ltotal_merge(__q5, __i5 as int, __p5@[__i5 as int], __cols, &self.ctx, __tl); assert(__p5@ =~= __q5.remove(__i5 as int).remove(__i5 as int).insert(__i5 as int, __p5@[__i5 as int])); }
    else if __i5 <= __q5.len() && __q5.len() < usize::MAX { lemma_ltotal_unit(__q5, __i5 as int, __p5@[__i5 as int], __cols, &self.ctx, __tl); assert(__p5@ =~= __q5.insert(__i5 as int, __p5@[__i5 as int])); }
}
#at loop5.after
proof { lemma_ltotal_done(__p5@, __cols, &self.ctx, __tl); }
#loop 6
invariant __n6 == __cols, xs@.len() == __cols, ys@.len() == __cols, forall|j: int| 0 <= j < __cols ==> gswf(#[trigger] xs@[j], &self.ctx), forall|j: int| 0 <= j < __cols ==> gswf(#[trigger] ys@[j], &self.ctx),
  forall|j: int| 0 <= j < __k6 ==> (#[trigger] xs@[j]).sv() == padd(__q5[__i5 as int]@[j].sv(), ys@[j].sv()),
  forall|j: int| __k6 <= j < __cols ==> #[trigger] xs@[j] == __q5[__i5 as int]@[j],
#loop 7
invariant __n7 == __cols, self.ctx == old(self).ctx, self.neg_s == old(self).neg_s, self.data@.len() == old(self).data@.len(),
  forall|k: int| 1 <= k < self.data@.len() ==> #[trigger] self.data@[k] == old(self).data@[k],
  self.data@[0]@.len() == __cols, all_wf(self.data@[0]@, __n),
  forall|j: int| 0 <= j < __k7 ==> (#[trigger] self.data@[0]@[j]).sv() == upd_sum(__ls, __qs, &self.ctx, j, __dat[j].sv()),
  forall|j: int| __k7 <= j < __cols ==> #[trigger] self.data@[0]@[j] == __dat[j],
#at loop7.own
if __r == 0 { __e } else { -1 }
#at loop7.begin
proof { reveal(upd_sum); }
#at ret
assert(multi(__dat, self.data@[0]@, __qs, __r.0@, __ls, &old(self).neg_s, &old(self).ctx));
assert forall|k: int| 0 <= k < self.data@.len() implies all_wf((#[trigger] self.data@[k])@, self.ctx.n()) && self.data@[k]@.len() == self.data@[0]@.len() by {
    assert(all_wf(old(self).data@[k]@, self.ctx.n()) && old(self).data@[k]@.len() == old(self).data@[0]@.len());
    if k != 0 { assert(self.data@[k] == old(self).data@[k]); }
}
assert(self.ok() && self.same(old(self)));
#fn Server::process_batch
#opt lty0=RLWECiphertext
#opt dty0=Vec<RGSWCiphertext>
#opt lty2=RGSWCiphertext
#opt lty4=(usize, usize)
#panic queries@.len() != self.data@.len()
#sig
requires old(self).ok(), forall|k: int| 0 <= k < queries@.len() && k < old(self).data@.len() ==> dwf(old(self).data@[k]@, #[trigger] &queries@[k], &old(self).ctx),
    hash.wf(), old(self).data@.len() * old(self).data@[0]@.len() == hash.h_count * hash.input_domain,
ensures final(self).ok(), final(self).same(old(self)), final(self).data@[0]@.len() == old(self).data@[0]@.len(), exists|ls: Seq<Vec<RGSWCiphertext>>, mid: Seq<Vec<RLWECiphertext>>| #[trigger] batched(old(self).data@, final(self).data@, queries@, r.0@, ls, mid, &old(self).neg_s, hash, &old(self).ctx),
#at start
let ghost (__n, __b, __l, __qs, __dat, __rows, __cols) = (self.ctx.n(), self.ctx.b(), self.ctx.l(), queries@, self.data@, self.data@.len(), self.data@[0]@.len());
let ghost __ctx = self.ctx;
let ghost __neg = self.neg_s;
assert(all_wf(__dat[0]@, __n));
#at after:let:start#0
assert(dwf(__dat[0]@, &__qs[0], &self.ctx));
proof { lemma_pow2_pos(__qs[0].a@.len()); }
#loop 0
invariant __n0 == __rows, __qs.len() == __rows,
  forall|k: int| 0 <= k < __k0 ==> all_sel((#[trigger] __d0@[k])@, &__qs[k], &__neg, &__ctx),
  forall|k: int| 0 <= k < __k0 ==> answered(#[trigger] __c0@[k], __dat[k]@, __d0@[k]@, &__ctx),
#at loop0.begin
assert(dwf(__dat[__j0 as int]@, &__qs[__j0 as int], &self.ctx));
#at after:let:dur#0
let ghost __ls = ls@;
assert(all_sels(__ls, __qs, &__neg, &__ctx));
assert forall|k: int| 0 <= k < __rows implies (#[trigger] __ls[k])@.len() == __cols by { assert(all_sel(__ls[k]@, &__qs[k], &__neg, &__ctx)); lemma_all_sel(__ls[k]@, &__qs[k], &__neg, &__ctx); assert(dwf(__dat[k]@, &__qs[k], &__ctx)); assert(__dat[k]@.len() == __cols); }
assert forall|k: int, j: int| 0 <= k < __rows && 0 <= j < __cols implies gswf(#[trigger] __ls[k]@[j], &__ctx) by { assert(all_sel(__ls[k]@, &__qs[k], &__neg, &__ctx)); lemma_all_sel(__ls[k]@, &__qs[k], &__neg, &__ctx); }
assert(grid_wf(__ls, __rows, __cols, &__ctx));
#loop 1
invariant __n1 == __rows, self.ctx == __ctx, self.neg_s == __neg, self.data@.len() == __rows, ls@ == __ls,
  forall|k: int| 0 <= k < __k1 ==> updated(__dat[k]@, (#[trigger] self.data@[k])@, __ls[k]@, &__qs[k], &__ctx),
  forall|k: int| __k1 <= k < __rows ==> #[trigger] self.data@[k] == __dat[k],
#at loop1.ownrow
__r
#at loop1.begin
assert(dwf(__dat[__j1 as int]@, &__qs[__j1 as int], &__ctx));
assert(__ls[__j1 as int]@.len() == __cols && __dat[__j1 as int]@.len() == __cols);
#at before:let:rw_flags#0
let ghost __mid = self.data@;
assert(table_wf(__mid, __rows, __cols, &__ctx)) by { assert forall|r: int| 0 <= r < __rows implies (#[trigger] __mid[r])@.len() == __cols && all_wf(__mid[r]@, __n) by { assert(updated(__dat[r]@, __mid[r]@, __ls[r]@, &__qs[r], &__ctx)); assert(__dat[r]@.len() == __cols); } }
#loop 2
invariant __n2 == __rows, __g__v0 == __qs, forall|k: int| 0 <= k < __k2 ==> __c2@[k] == __qs[k].op.0,
#at after:let:rw_flags#0
assert(rw_flags@ =~= flags(__qs));
assert forall|k: int| 0 <= k < __rows implies gswf(#[trigger] rw_flags@[k], &__ctx) by { assert(dwf(__dat[k]@, &__qs[k], &__ctx)); }
assert(__rows * __cols <= usize::MAX);
#at after:let:item_count#0
proof {
    assert(hash.h_count * hash.input_domain == hash.input_domain * hash.h_count) by (nonlinear_arith);
    lemma_fundamental_div_mod_converse(hash.h_count * hash.input_domain, hash.h_count as int, hash.input_domain as int, 0);
    assert(item_count == hash.input_domain);
    reveal(settling);
    assert(settling(self.data@, __qs, __ls, &__ctx, hash, __cols as int, __mid, 0, 0));
}
#loop 3
invariant __n3 == hash.input_domain, self.ctx == __ctx, self.neg_s == __neg, table_wf(self.data@, __rows, __cols, &__ctx), settling(self.data@, __qs, __ls, &__ctx, hash, __cols as int, __mid, __k3 as int, 0),
#loop 4
invariant __n4 == hash.h_count, forall|h: int| 0 <= h < __k4 ==> #[trigger] __c4@[h] == hpos(hash, __cols as int, h, __j3 as int),
#at loop3.own
owner(hash, __cols as int, __r, __e)
#at before:correct_consistency#0
assert forall|k: int| 0 <= k < positions@.len() implies owner(hash, __cols as int, (#[trigger] positions@[k]).0 as int, positions@[k].1 as int) == __j3 as int by { lemma_owner(hash, __rows as int, __cols as int, k, i as int); }
#at loop4.begin
proof { lemma_hpos(hash, __rows as int, __cols as int, __j4 as int, __j3 as int); }
#at after:let:positions#0
assert(positions@ =~= ipos(hash, __cols as int, i as int));
assert forall|k: int| 0 <= k < positions@.len() implies (#[trigger] positions@[k]).0 < __rows && positions@[k].1 < __cols by { lemma_hpos(hash, __rows as int, __cols as int, k, i as int); }
#at after:let:new_data#0
proof { lemma_settle(self.data@, __qs, __ls, &__ctx, hash, __cols as int, __mid, i as int); }
let ghost __nd = new_data.sv();
#loop 5
invariant __n5 == hash.h_count, __g__v1 == ipos(hash, __cols as int, i as int), self.ctx == __ctx, self.neg_s == __neg, table_wf(self.data@, __rows, __cols, &__ctx), new_data.sv() == __nd, new_data.wf(), new_data.n() == __n,
  settling(self.data@, __qs, __ls, &__ctx, hash, __cols as int, __mid, i as int, __k5 as int),
#at loop5.begin
let ghost __d1 = self.data@;
proof { lemma_hpos(hash, __rows as int, __cols as int, __j5 as int, i as int); lemma_owner(hash, __rows as int, __cols as int, __j5 as int, i as int); }
#at loop5.end
proof { lemma_settle_step(__d1, self.data@, __qs, __ls, &__ctx, hash, __rows as int, __cols as int, __mid, i as int, __j5 as int); }
#at loop5.after
proof { lemma_settle_next(self.data@, __qs, __ls, &__ctx, hash, __cols as int, __mid, i as int); }
#at ret
assert(batched(__dat, self.data@, __qs, __r.0@, __ls, __mid, &__neg, hash, &__ctx));
assert forall|k: int| 0 <= k < self.data@.len() implies all_wf((#[trigger] self.data@[k])@, self.ctx.n()) && self.data@[k]@.len() == self.data@[0]@.len() by { assert(self.data@[0]@.len() == __cols); }
assert(self.data@[0]@.len() == __cols);
assert(self.ok() && self.same(old(self)));
#fn Server::decrypt_db
#panic exists|k: int, j: int| 0 <= k < self.data@.len() && 0 <= j < self.data@[k]@.len() && !bits64(#[trigger] self.ctx.codec.pdec(self.data@[k]@[j].ph(sk)))
#sig
requires self.ok(), sk.wf(), sk.n() == self.ctx.n(),
ensures r@.len() == self.data@.len(), forall|k: int| 0 <= k < r@.len() ==> (#[trigger] r@[k])@.len() == self.data@[k]@.len(),
    forall|k: int, j: int| 0 <= k < r@.len() && 0 <= j < self.data@[k]@.len() ==> #[trigger] r@[k]@[j] == lossy(self.ctx.codec.pdec(self.data@[k]@[j].ph(sk)), if sk.n() < 64 { sk.n() } else { 64 }),
#opt lty0=Vec<u64>
#loop 0
invariant __n0 == self.data@.len(), forall|k: int| 0 <= k < __k0 ==> (#[trigger] __c0@[k])@.len() == self.data@[k]@.len(),
  forall|k: int, j: int| 0 <= k < __k0 && 0 <= j < self.data@[k]@.len() ==> #[trigger] __c0@[k]@[j] == lossy(self.ctx.codec.pdec(self.data@[k]@[j].ph(sk)), if sk.n() < 64 { sk.n() } else { 64 }),
#loop 1
invariant __n1 == self.data@[__j0 as int]@.len(), all_wf(self.data@[__j0 as int]@, self.ctx.n()),
  forall|j: int| 0 <= j < __k1 ==> #[trigger] __c1@[j] == lossy(self.ctx.codec.pdec(self.data@[__j0 as int]@[j].ph(sk)), if sk.n() < 64 { sk.n() } else { 64 }),
#fn setup_random_oram
#panic rows * cols != hash.input_domain * hash.h_count
#sig
requires 2 <= params.plaintext_modulus, is_pow2(params.plaintext_modulus as nat), fft_size(params.polynomial_size as nat), 0 < params.polynomial_size, 2 * params.polynomial_size <= usize::MAX,
    0 < params.base_log * params.level_count < 64, 0 < params.negs_base_log * params.negs_level_count < 64,
    hash.wf(), hash.input_domain > 0, rows * cols <= usize::MAX,
ensures r.0.ok(), r.1.ok(), r.0.rows == rows, r.0.cols == cols, from_params(&r.0.ctx, &params), from_params(&r.1.ctx, &params), r.1.data@.len() == rows, r.1.data@[0]@.len() == cols, rows * cols == hash.input_domain * hash.h_count,
    is_rgsw(r.1.neg_s.sv(), r.0.ctx.n(), r.1.neg_s.l(), r.1.neg_s.b(), r.0.sk.sv(), pneg(r.0.sk.sv()), nb(&r.0.ctx)), r.1.neg_s.b() == params.negs_base_log, r.1.neg_s.l() == params.negs_level_count,
    r.2@.len() == hash.input_domain, table_wf(r.1.data@, rows as nat, cols as nat, &r.0.ctx), stocked(r.1.data@, hash, cols as int, psv(r.2@), r.0.sk.sv(), &r.0.ctx),
#at start
proof { assert(hash.h_count * hash.input_domain == hash.input_domain * hash.h_count) by (nonlinear_arith); }
#at after:new#0
proof {
    assert(params.negs_base_log > 0) by (nonlinear_arith) requires 0 < params.negs_base_log * params.negs_level_count;
}
#at ret
assert(rows > 0) by (nonlinear_arith) requires rows * cols == hash.h_count * hash.input_domain, hash.h_count > 0, hash.input_domain > 0;
assert(__r.1.data@[0]@.len() == cols);
assert(from_params(&__r.1.ctx, &params));
assert(__r.1.ctx.swf());
assert(fft_size(__r.1.ctx.n()));
assert(nwf(&__r.1.neg_s, &__r.1.ctx));
assert(__r.1.ok());
assert(__r.0.ok());
#fn correct_consistency
#opt lty0=RLWECiphertext
#at own
positions@.contains((__r as usize, __e as usize))
#sig
requires ctx.swf(), buf.ok(ctx.n()), positions@.len() > 0, table_wf(data@, data@.len(), data@[0]@.len(), ctx), grid_wf(ls@, data@.len(), data@[0]@.len(), ctx),
    rw_flags@.len() == data@.len(), forall|k: int| 0 <= k < rw_flags@.len() ==> gswf(#[trigger] rw_flags@[k], ctx),
    forall|k: int| 0 <= k < positions@.len() ==> (#[trigger] positions@[k]).0 < data@.len() && positions@[k].1 < data@[0]@.len(),
ensures r.wf(), r.n() == ctx.n(), r.sv() == corrected(rw_flags@, ls@, ctx, positions@, data@),
#at start
let ghost (__n, __b, __l, __p0) = (ctx.n(), ctx.b(), ctx.l(), positions@[0]);
let ghost __d0 = dat(data@, __p0);
assert(all_wf(data@[__p0.0 as int]@, __n));
#loop 0
invariant __n0 == positions@.len(), all_wf(__c0@, __n), forall|k: int| 0 <= k < __k0 ==> (#[trigger] __c0@[k]).sv() == ep2(rw_flags@, ls@, ctx, positions@[k], __d0),
#at loop0.begin
let ghost __p = positions@[__j0 as int];
assert(gswf(rw_flags@[__p.0 as int], ctx) && ls@[__p.0 as int]@.len() == data@[0]@.len() && gswf(ls@[__p.0 as int]@[__p.1 as int], ctx));
proof { lemma_ep0(rw_flags@[__p.0 as int].sv(), __n, __b, __l, __d0); lemma_ep0(lsv(ls@, __p.0 as int, __p.1 as int), __n, __b, __l, ep(rw_flags@[__p.0 as int].sv(), __n, __b, __l, __d0)); }
#loop 1
invariant __n1 == positions@.len(), first_term.wf(), first_term.n() == __n, first_term.sv() == cc_first(rw_flags@, ls@, ctx, positions@, __d0, __k1 as nat),
#loop 2
invariant __n2 == positions@.len() - 1, second_term.wf(), second_term.n() == __n, second_term.sv() == cc_second(rw_flags@, ls@, ctx, positions@, data@, __k2 as nat),
#at loop2.begin
let ghost __p = positions@[__j2 as int + 1];
let ghost __d = dat(data@, __p);
assert(gswf(rw_flags@[__p.0 as int], ctx) && ls@[__p.0 as int]@.len() == data@[0]@.len() && gswf(ls@[__p.0 as int]@[__p.1 as int], ctx) && all_wf(data@[__p.0 as int]@, __n));
proof { lemma_ep0(rw_flags@[__p.0 as int].sv(), __n, __b, __l, __d); lemma_ep0(lsv(ls@, __p.0 as int, __p.1 as int), __n, __b, __l, ep(rw_flags@[__p.0 as int].sv(), __n, __b, __l, __d)); }
#ghost
// ================ what the contracts mean for decryptions
// error of an external product with an encrypted bit
pub open spec fn cbound(s: Seq<u64>, b: int, l: nat, e: int) -> int {
    let (x, y) = (ep_bound(s, pconst(s.len(), 0), l, b, e), ep_bound(s, pconst(s.len(), 1), l, b, e));
    if x <= 0 && y <= 0 { 0 } else if x <= y { y } else { x }
}
// error of the selectors of a query of k bits
pub open spec fn sel_err(s: Seq<u64>, c: &Context, neg: &RGSWCiphertext, k: nat) -> int { expand_bound(s, neg.b(), neg.l(), nb(c), k * cbound(s, c.b(), c.l(), nb(c))) }
pub open spec fn op_err(s: Seq<u64>, c: &Context) -> int { cbound(s, c.b(), c.l(), nb(c)) }
pub open spec fn slot_err(s: Seq<u64>, c: &Context, neg: &RGSWCiphertext, k: nat) -> int { cbound(s, c.b(), c.l(), sel_err(s, c, neg, k)) }
pub open spec fn one_hot(ls: Seq<Seq<u64>>, s: Seq<u64>, b: int, l: nat, i: int, e: int) -> bool {
    e >= 0 && forall|j: int| 0 <= j < ls.len() ==> is_rgsw(#[trigger] ls[j], s.len(), l, b, s, pconst(s.len(), if j == i { 1 } else { 0 }), e)
}
// the server's key for -s
pub open spec fn neg_ok(neg: &RGSWCiphertext, s: Seq<u64>, c: &Context) -> bool { nwf(neg, c) && is_rgsw(neg.sv(), s.len(), neg.l(), neg.b(), s, pneg(s), nb(c)) }
pub proof fn lemma_bit(n: nat, p: Seq<u64>)
    requires p.len() == n, ensures pmul(pconst(n, 1), p) == p, pmul(pconst(n, 0), p) == pzero(n), pconst(n, 0) == pzero(n), padd(p, pzero(n)) == p, padd(pzero(n), p) == p, psub(p, pzero(n)) == p, psub(p, p) == pzero(n),
{ l_mul_one_l(p); l_mul_zero_l(p); l_scale_zero(n, 0); l_zero_unit(p); assert(psub(p, p) =~= pzero(n)); }
pub proof fn lemma_demux_lens(gs: Seq<Seq<u64>>, n: nat, b: int, l: nat, level: int, d: Seq<u64>)
    requires 0 <= level <= gs.len(), d.len() == 2 * n, forall|j: int| 0 <= j < gs.len() ==> (#[trigger] gs[j]).len() == 2 * l * (2 * n),
    ensures forall|j: int| 0 <= j < demuxed(gs, n, b, l, level, d).len() ==> (#[trigger] demuxed(gs, n, b, l, level, d)[j]).len() == 2 * n,
    decreases gs.len() - level,
{
    if level < gs.len() {
        let left = ep(gs[level], n, b, l, d);
        l_ep_len(gs[level], n, b, l, d, l);
        lemma_demux_lens(gs, n, b, l, level + 1, left);
        lemma_demux_lens(gs, n, b, l, level + 1, psub(d, left));
        let (x, y) = (demuxed(gs, n, b, l, level + 1, left), demuxed(gs, n, b, l, level + 1, psub(d, left)));
        assert forall|j: int| 0 <= j < (x + y).len() implies (#[trigger] (x + y)[j]).len() == 2 * n by { if j < x.len() { assert((x + y)[j] == x[j]); } else { assert((x + y)[j] == y[j - x.len()]); } }
    }
}
pub proof fn l_ep_bound_pos(s: Seq<u64>, m: Seq<u64>, l: nat, b: int, e: int)
    requires e >= 0, ensures ep_bound(s, m, l, b, e) >= 0,
{
    l_l1_pos(m, m.len()); l_l1_pos(s, s.len());
    let (x, p, f) = (gerr(s.len(), b, e), pow2((b - 1) as nat) as int, pow2((63 - b * l) as nat) as int);
    let n = s.len() as int;
    assert(n * p >= 0) by (nonlinear_arith) requires n >= 0, p >= 0;
    assert((n * p) * e >= 0) by (nonlinear_arith) requires n * p >= 0, e >= 0;
    assert(l * (2 * x) >= 0) by (nonlinear_arith) requires l >= 0, x >= 0;
    assert(l1(s) * f >= 0) by (nonlinear_arith) requires l1(s) >= 0, f >= 0;
    assert(l1(m) * (f + l1(s) * f) >= 0) by (nonlinear_arith) requires l1(m) >= 0, f + l1(s) * f >= 0;
}
pub proof fn lemma_expand_pos(s: Seq<u64>, nb: int, nl: nat, e: int, er: int)
    requires e >= 0, er >= 0, ensures expand_bound(s, nb, nl, e, er) >= er,
{
    l_ep_bound_pos(s, pneg(s), nl, nb, e);
    l_l1_pos(pneg(s), pneg(s).len());
    assert(l1(pneg(s)) * er >= 0) by (nonlinear_arith) requires l1(pneg(s)) >= 0, er >= 0;
}
// the selectors of a query: an encrypted one for the addressed slot, encrypted zeros for the others
pub proof fn theorem_selectors(ls: Seq<RGSWCiphertext>, q: &ClientQuery, i: int, w: bool, sk: &RLWESecretKey, neg: &RGSWCiphertext, c: &Context, cols: usize)
    requires all_sel(ls, q, neg, c), asks(q, i, w, sk, c, cols), q.a@.len() > 0, 0 <= i < pow2(q.a@.len()), sk.sv().len() == c.n(), c.swf(), neg_ok(neg, sk.sv(), c),
    ensures one_hot(grows(ls), sk.sv(), c.b(), c.l(), i, sel_err(sk.sv(), c, neg, q.a@.len())), ls.len() == pow2(q.a@.len()),
{
    lemma_all_sel(ls, q, neg, c);
    let (s, n, b, l, k, e, gs) = (sk.sv(), c.n(), c.b(), c.l(), q.a@.len(), nb(c), grows(q.a@));
    let bb = cbound(s, b, l, e);
    let er = k * bb;
    assert(er >= 0) by (nonlinear_arith) requires k >= 0, bb >= 0, er == k * bb;
    assert(b >= 1) by (nonlinear_arith) requires 0 < b * l, b >= 0, l >= 0;
    assert(neg.b() >= 1) by (nonlinear_arith) requires 0 < neg.b() * neg.l(), neg.b() >= 0, neg.l() >= 0;
    lemma_expand_pos(s, neg.b(), neg.l(), e, er);
    assert forall|j: int| 0 <= j < gs.len() implies (#[trigger] gs[j]).len() == 2 * l * (2 * n) by { assert(gs[j] == q.a@[j].sv()); assert(is_rgsw(q.a@[j].sv(), n, l, b, s, pconst(n, if nbit(i, q.a@.len() - 1 - j) { 0 } else { 1 }), e)); }
    assert forall|j: int| 0 <= j < ls.len() implies is_rgsw(#[trigger] grows(ls)[j], n, l, b, s, pconst(n, if j == i { 1 } else { 0 }), sel_err(s, c, neg, k)) by {
        let bit: u64 = if j == i { 1 } else { 0 };
        let rs = sel_rows(gs, n, b, l, j);
        assert(gswf(ls[j], c) && is_sel(ls[j].sv(), gs, n, b, l, neg, j));
        assert forall|t: int| 0 <= t < l implies (#[trigger] rs[t]).len() == 2 * n && near(phase(rs[t], s), pconst(n, wmul(bit, gad(b, t + 1))), er) by {
            let v = gad(b, t + 1);
            let d = gad_ct(n, b, t + 1);
            lemma_trivial(s, v);
            lemma_demux_lens(gs, n, b, l, 0, d);
            lemma_demux_len(gs, n, b, l, 0, d);
            n_refl(pconst(n, v), 0);
            theorem_demux(q.a@, s, i, b, l, e, d, pconst(n, v), 0, bb);
            assert(rs[t] == demuxed(gs, n, b, l, 0, d)[j]);
            assert(near(phase(demuxed(gs, n, b, l, 0, d)[j], s), if j == i { pconst(n, v) } else { pzero(n) }, 0 + k * bb));
            assert(wmul(1, v) == v && wmul(0, v) == 0) by { lemma_wmul01(v); }
            lemma_bit(n, pzero(n));
        }
        l_expand(ls[j].sv(), s, l, b, rs, bit, er, neg.sv(), neg.b(), neg.l(), e);
    }
}
pub proof fn lemma_wmul01(v: u64) ensures wmul(1, v) == v, wmul(0, v) == 0 { assert(1 * v == v && 0 * v == 0); }
// ---- the response
pub proof fn lemma_ep_bit(g: Seq<u64>, s: Seq<u64>, hot: bool, b: int, l: nat, d: Seq<u64>, e: int)
    requires is_rgsw(g, s.len(), l, b, s, pconst(s.len(), if hot { 1 } else { 0 }), e), d.len() == 2 * s.len(), e >= 0, b >= 1, 0 < b * l < 64,
    ensures ep(g, s.len(), b, l, d).len() == 2 * s.len(), near(phase(ep(g, s.len(), b, l, d), s), if hot { phase(d, s) } else { pzero(s.len()) }, cbound(s, b, l, e)),
{
    let m = pconst(s.len(), if hot { 1 } else { 0 });
    l_ep(g, s, m, b, l, d, e);
    lemma_bit(s.len(), phase(d, s));
    n_weak(phase(ep(g, s.len(), b, l, d), s), pmul(m, phase(d, s)), ep_bound(s, m, l, b, e), cbound(s, b, l, e));
}
pub proof fn lemma_cmux_bit(g: Seq<u64>, s: Seq<u64>, hot: bool, b: int, l: nat, c0: Seq<u64>, c1: Seq<u64>, e: int)
    requires is_rgsw(g, s.len(), l, b, s, pconst(s.len(), if hot { 1 } else { 0 }), e), c0.len() == 2 * s.len(), c1.len() == 2 * s.len(), e >= 0, b >= 1, 0 < b * l < 64,
    ensures padd(c0, ep(g, s.len(), b, l, psub(c1, c0))).len() == 2 * s.len(), near(phase(padd(c0, ep(g, s.len(), b, l, psub(c1, c0))), s), phase(if hot { c1 } else { c0 }, s), cbound(s, b, l, e)),
{
    let bit: u64 = if hot { 1 } else { 0 };
    l_cmux(g, s, bit, b, l, c0, c1, e);
    n_weak(phase(padd(c0, ep(g, s.len(), b, l, psub(c1, c0))), s), phase(if bit == 0 { c0 } else { c1 }, s), ep_bound(s, pconst(s.len(), bit), l, b, e), cbound(s, b, l, e));
}
pub proof fn lemma_resp(ls: Seq<Seq<u64>>, data: Seq<Seq<u64>>, s: Seq<u64>, b: int, l: nat, i: int, e: int, m: nat)
    requires one_hot(ls, s, b, l, i, e), m <= ls.len(), m <= data.len(), forall|j: int| 0 <= j < data.len() ==> (#[trigger] data[j]).len() == 2 * s.len(), 0 <= i < data.len(), b >= 1, 0 < b * l < 64,
    ensures resp(ls, data, s.len(), b, l, m).len() == 2 * s.len(), near(phase(resp(ls, data, s.len(), b, l, m), s), if i < m { phase(data[i], s) } else { pzero(s.len()) }, m * cbound(s, b, l, e)),
    decreases m,
{
    let (n, cb) = (s.len(), cbound(s, b, l, e));
    if m == 0 { l_phase_zero(s); n_refl(pzero(n), 0); assert(0 * cb == 0); } else {
        let j = m - 1;
        lemma_resp(ls, data, s, b, l, i, e, j as nat);
        let (r, x) = (resp(ls, data, n, b, l, j as nat), ep(ls[j], n, b, l, data[j]));
        lemma_ep_bit(ls[j], s, j == i, b, l, data[j], e);
        l_phase_add(r, x, s);
        n_add(phase(r, s), if i < j { phase(data[i], s) } else { pzero(n) }, phase(x, s), if j == i { phase(data[j], s) } else { pzero(n) }, j * cb, cb);
        lemma_bit(n, phase(data[i], s)); lemma_bit(n, pzero(n));
        assert(j * cb + cb == m * cb) by (nonlinear_arith) requires j == m - 1;
    }
}
// one slot after the access
pub proof fn lemma_upd(g: Seq<u64>, op: Seq<u64>, s: Seq<u64>, hot: bool, w: bool, b: int, l: nat, d: Seq<u64>, x: Seq<u64>, e: int, f: int)
    requires is_rgsw(g, s.len(), l, b, s, pconst(s.len(), if hot { 1 } else { 0 }), f), is_rgsw(op, s.len(), l, b, s, pconst(s.len(), if w { 1 } else { 0 }), e),
        d.len() == 2 * s.len(), x.len() == 2 * s.len(), e >= 0, f >= 0, b >= 1, 0 < b * l < 64,
    ensures rwv(op, s.len(), b, l, d, x).len() == 2 * s.len(), near(phase(rwv(op, s.len(), b, l, d, x), s), phase(if w { x } else { d }, s), cbound(s, b, l, e)),
        near(phase(upd(g, op, s.len(), b, l, d, x), s), phase(if hot && w { x } else { d }, s), cbound(s, b, l, e) + cbound(s, b, l, f)),
{
    let r = rwv(op, s.len(), b, l, d, x);
    lemma_cmux_bit(op, s, w, b, l, d, x, e);
    lemma_cmux_bit(g, s, hot, b, l, d, r, f);
    let u = upd(g, op, s.len(), b, l, d, x);
    if hot { n_trans(phase(u, s), phase(r, s), phase(if w { x } else { d }, s), cbound(s, b, l, f), cbound(s, b, l, e)); }
    else { n_weak(phase(u, s), phase(d, s), cbound(s, b, l, f), cbound(s, b, l, e) + cbound(s, b, l, f)); }
}
// C01: the response is the addressed item; only the addressed slot changes, and only by a write, to the data of the query
pub open spec fn read_err(s: Seq<u64>, c: &Context, neg: &RGSWCiphertext, k: nat) -> int { pow2(k) * slot_err(s, c, neg, k) }
pub open spec fn write_err(s: Seq<u64>, c: &Context, neg: &RGSWCiphertext, k: nat) -> int { op_err(s, c) + slot_err(s, c, neg, k) }
pub open spec fn key_ok(sk: &RLWESecretKey, neg: &RGSWCiphertext, c: &Context) -> bool { sk.sv().len() == c.n() && c.swf() && neg_ok(neg, sk.sv(), c) }
pub proof fn theorem_response(old: Seq<RLWECiphertext>, y: RLWECiphertext, q: &ClientQuery, ls: Seq<RGSWCiphertext>, i: int, w: bool, sk: &RLWESecretKey, neg: &RGSWCiphertext, c: &Context, cols: usize)
    requires all_sel(ls, q, neg, c), answered(y, old, ls, c), dwf(old, q, c), asks(q, i, w, sk, c, cols), 0 <= i < old.len(), key_ok(sk, neg, c),
    ensures near(y.ph(sk), old[i].ph(sk), read_err(sk.sv(), c, neg, q.a@.len())),
{
    let (s, b, l) = (sk.sv(), c.b(), c.l());
    reveal(answered);
    theorem_selectors(ls, q, i, w, sk, neg, c, cols);
    assert(b >= 1) by (nonlinear_arith) requires 0 < b * l, b >= 0, l >= 0;
    assert forall|j: int| 0 <= j < rows(old).len() implies (#[trigger] rows(old)[j]).len() == 2 * s.len() by { assert(old[j].wf() && old[j].n() == c.n()); }
    lemma_resp(grows(ls), rows(old), s, b, l, i, sel_err(s, c, neg, q.a@.len()), old.len());
}
pub proof fn theorem_update(old: Seq<RLWECiphertext>, new: Seq<RLWECiphertext>, q: &ClientQuery, ls: Seq<RGSWCiphertext>, i: int, w: bool, sk: &RLWESecretKey, neg: &RGSWCiphertext, c: &Context, cols: usize, j: int)
    requires all_sel(ls, q, neg, c), updated(old, new, ls, q, c), dwf(old, q, c), asks(q, i, w, sk, c, cols), 0 <= i < old.len(), key_ok(sk, neg, c), 0 <= j < new.len(),
    ensures near(new[j].ph(sk), if w && j == i { q.data.ph(sk) } else { old[j].ph(sk) }, write_err(sk.sv(), c, neg, q.a@.len())),
{
    let (s, b, l) = (sk.sv(), c.b(), c.l());
    theorem_selectors(ls, q, i, w, sk, neg, c, cols);
    assert(b >= 1) by (nonlinear_arith) requires 0 < b * l, b >= 0, l >= 0;
    assert(old[j].wf() && old[j].n() == c.n());
    assert(grows(ls)[j] == ls[j].sv());
    lemma_upd(ls[j].sv(), q.op.sv(), s, j == i, w, b, l, old[j].sv(), q.data.sv(), nb(c), sel_err(s, c, neg, q.a@.len()));
}
// ---- messages
// the database holds the items m, each with an error of at most e
pub open spec fn stores(data: Seq<RLWECiphertext>, m: Seq<Seq<u64>>, sk: &RLWESecretKey, c: &Context, e: int) -> bool {
    data.len() == m.len() && forall|j: int| 0 <= j < m.len() ==> keeps((#[trigger] data[j]).sv(), m[j], sk.sv(), c, e)
}
pub open spec fn decrypts(ct: RLWECiphertext, sk: &RLWESecretKey, c: &Context, m: Seq<u64>) -> bool { c.codec.pdec(ct.ph(sk)) == m }
pub struct Access { pub i: int, pub w: bool, pub x: Seq<u64> }
// what an array would do
pub open spec fn play(m: Seq<Seq<u64>>, a: Access) -> Seq<Seq<u64>> { if a.w { m.update(a.i, a.x) } else { m } }
pub open spec fn plays(m: Seq<Seq<u64>>, h: Seq<Access>, k: nat) -> Seq<Seq<u64>> decreases k { if k == 0 { m } else { play(plays(m, h, (k - 1) as nat), h[k - 1]) } }
pub open spec fn asked(q: &ClientQuery, a: Access, sk: &RLWESecretKey, c: &Context, cols: usize) -> bool { asks(q, a.i, a.w, sk, c, cols) && (a.w ==> holds(q.data.sv(), a.x, sk.sv(), c)) }
pub open spec fn imax(a: int, b: int) -> int { if a >= b { a } else { b } }
pub proof fn theorem_step(old: Seq<RLWECiphertext>, new: Seq<RLWECiphertext>, q: &ClientQuery, y: RLWECiphertext, ls: Seq<RGSWCiphertext>, m: Seq<Seq<u64>>, a: Access, sk: &RLWESecretKey, neg: &RGSWCiphertext, c: &Context, cols: usize, e: int)
    requires accessed(old, new, q, y, ls, neg, c), dwf(old, q, c), asked(q, a, sk, c, cols), 0 <= a.i < old.len(), key_ok(sk, neg, c), stores(old, m, sk, c, e),
    ensures keeps(y.sv(), m[a.i], sk.sv(), c, e + read_err(sk.sv(), c, neg, q.a@.len())), stores(new, play(m, a), sk, c, imax(e, nb(c)) + write_err(sk.sv(), c, neg, q.a@.len())),
{
    let s = sk.sv(); let k = q.a@.len(); let t = write_err(s, c, neg, k);
    theorem_response(old, y, q, ls, a.i, a.w, sk, neg, c, cols);
    assert(keeps(old[a.i].sv(), m[a.i], s, c, e));
    n_trans(y.ph(sk), old[a.i].ph(sk), c.codec.penc(m[a.i]), read_err(s, c, neg, k), e);
    let m2 = play(m, a);
    assert forall|j: int| 0 <= j < m2.len() implies keeps((#[trigger] new[j]).sv(), m2[j], s, c, imax(e, nb(c)) + t) by {
        theorem_update(old, new, q, ls, a.i, a.w, sk, neg, c, cols, j);
        assert(keeps(old[j].sv(), m[j], s, c, e));
        if a.w && j == a.i {
            n_trans(new[j].ph(sk), q.data.ph(sk), c.codec.penc(a.x), t, nb(c)); n_weak(new[j].ph(sk), c.codec.penc(a.x), t + nb(c), imax(e, nb(c)) + t);
        } else {
            n_trans(new[j].ph(sk), old[j].ph(sk), c.codec.penc(m[j]), t, e); n_weak(new[j].ph(sk), c.codec.penc(m[j]), t + e, imax(e, nb(c)) + t);
        }
    }
}
// a run of the server: the database before and after every access
pub open spec fn run(ds: Seq<Seq<RLWECiphertext>>, qs: Seq<ClientQuery>, ys: Seq<RLWECiphertext>, lss: Seq<Seq<RGSWCiphertext>>, h: Seq<Access>, sk: &RLWESecretKey, neg: &RGSWCiphertext, c: &Context, cols: usize) -> bool {
    &&& ds.len() == h.len() + 1 && qs.len() == h.len() && ys.len() == h.len() && lss.len() == h.len() && is_pow2(cols as nat) && cols >= 2
    &&& forall|k: int| 0 <= k < ds.len() ==> (#[trigger] ds[k]).len() == cols && all_wf(ds[k], c.n())
    &&& forall|k: int| 0 <= k < h.len() ==> 0 <= h[k].i < cols && accessed(ds[k], ds[(k + 1) as int], &#[trigger] qs[k], ys[k], lss[k], neg, c) && asked(&qs[k], h[k], sk, c, cols)
}
// C01: any history of accesses is that of an array, for as long as the errors stay below half a step of the encoding
pub proof fn theorem_history(ds: Seq<Seq<RLWECiphertext>>, qs: Seq<ClientQuery>, ys: Seq<RLWECiphertext>, lss: Seq<Seq<RGSWCiphertext>>, h: Seq<Access>, m: Seq<Seq<u64>>, sk: &RLWESecretKey, neg: &RGSWCiphertext, c: &Context, cols: usize, e: int, k: nat)
    requires run(ds, qs, ys, lss, h, sk, neg, c, cols), key_ok(sk, neg, c), stores(ds[0], m, sk, c, e), e >= nb(c), k <= h.len(),
    ensures stores(ds[k as int], plays(m, h, k), sk, c, e + k * write_err(sk.sv(), c, neg, lg(cols as nat))),
        e + k * write_err(sk.sv(), c, neg, lg(cols as nat)) < c.codec.dl() / 2 ==> forall|j: int| 0 <= j < cols ==> decrypts(#[trigger] ds[k as int][j], sk, c, plays(m, h, k)[j]),
        k < h.len() && e + k * write_err(sk.sv(), c, neg, lg(cols as nat)) + read_err(sk.sv(), c, neg, lg(cols as nat)) < c.codec.dl() / 2 ==> decrypts(ys[k as int], sk, c, plays(m, h, k)[h[k as int].i]),
    decreases k,
{
    let s = sk.sv(); let t = write_err(s, c, neg, lg(cols as nat)); let r = read_err(s, c, neg, lg(cols as nat));
    lemma_cols(cols as nat);
    lemma_write_pos(s, c, neg, lg(cols as nat));
    if k == 0 { assert(0 * t == 0); } else {
        let p = (k - 1) as nat;
        theorem_history(ds, qs, ys, lss, h, m, sk, neg, c, cols, e, p);
        assert(ds[p as int].len() == cols && all_wf(ds[p as int], c.n()));
        assert(accessed(ds[p as int], ds[(p + 1) as int], &qs[p as int], ys[p as int], lss[p as int], neg, c) && asked(&qs[p as int], h[p as int], sk, c, cols));
        assert(p * t >= 0) by (nonlinear_arith) requires p >= 0, t >= 0;
        theorem_step(ds[p as int], ds[(p + 1) as int], &qs[p as int], ys[p as int], lss[p as int], plays(m, h, p), h[p as int], sk, neg, c, cols, e + p * t);
        assert(e + p * t + t == e + k * t) by (nonlinear_arith) requires p == k - 1;
    }
    let mk = plays(m, h, k); let ek = e + k * t;
    assert(ds[k as int].len() == cols);
    if ek < c.codec.dl() / 2 {
        assert forall|j: int| 0 <= j < cols implies decrypts(#[trigger] ds[k as int][j], sk, c, mk[j]) by { assert(keeps(ds[k as int][j].sv(), mk[j], s, c, ek)); lemma_poly_decrypt(&c.codec, ds[k as int][j].ph(sk), mk[j], ek); }
    }
    if k < h.len() && ek + r < c.codec.dl() / 2 {
        assert(all_wf(ds[k as int], c.n()));
        assert(accessed(ds[k as int], ds[(k + 1) as int], &qs[k as int], ys[k as int], lss[k as int], neg, c) && asked(&qs[k as int], h[k as int], sk, c, cols));
        theorem_step(ds[k as int], ds[(k + 1) as int], &qs[k as int], ys[k as int], lss[k as int], mk, h[k as int], sk, neg, c, cols, ek);
        lemma_poly_decrypt(&c.codec, ys[k as int].ph(sk), mk[h[k as int].i], ek + r);
    }
}
pub proof fn lemma_write_pos(s: Seq<u64>, c: &Context, neg: &RGSWCiphertext, k: nat) ensures write_err(s, c, neg, k) >= 0, slot_err(s, c, neg, k) >= 0, op_err(s, c) >= 0 {}
pub proof fn lemma_cols(n: nat) requires is_pow2(n), 2 <= n <= usize::MAX, ensures pow2(lg(n)) == n, lg(n) > 0 { lemma_log2_le(n); lemma2_to64(); }
// ---- several queries in one round (C02)
// the query on slot j among the first m, or -1
pub open spec fn hit(idx: Seq<int>, j: int, m: nat) -> int decreases m { if m == 0 { -1 } else if idx[m - 1] == j { m - 1 } else { hit(idx, j, (m - 1) as nat) } }
pub open spec fn distinct(idx: Seq<int>) -> bool { forall|a: int, b: int| 0 <= a < b < idx.len() ==> idx[a] != idx[b] }
pub proof fn lemma_hit(idx: Seq<int>, j: int, m: nat)
    requires m <= idx.len(), ensures -1 <= hit(idx, j, m) < m, hit(idx, j, m) >= 0 ==> idx[hit(idx, j, m)] == j, hit(idx, j, m) < 0 ==> forall|k: int| 0 <= k < m ==> #[trigger] idx[k] != j,
    decreases m,
{ if m > 0 { lemma_hit(idx, j, (m - 1) as nat); } }
pub proof fn lemma_hit_at(idx: Seq<int>, k: int, m: nat)
    requires distinct(idx), 0 <= k < m <= idx.len(), ensures hit(idx, idx[k], m) == k,
{ lemma_hit(idx, idx[k], m); let h = hit(idx, idx[k], m); if h < k { assert(idx[h] != idx[k]); } else if h > k { assert(idx[k] != idx[h]); } }
pub proof fn lemma_rgsw_zero(n: nat, l: nat, b: int, s: Seq<u64>)
    requires s.len() == n, ensures is_rgsw(pzero(2 * l * (2 * n)), n, l, b, s, pconst(n, 0), 0),
{
    let g = pzero(2 * l * (2 * n));
    let z = pconst(n, 0);
    lemma_bit(n, pzero(n));
    assert forall|v: u64| #[trigger] pscale(z, v) == pzero(n) by { assert forall|i: int| 0 <= i < n implies pscale(z, v)[i] == 0 by { assert(wmul(0, v) == 0) by { lemma_wmul01(v); } } assert(pscale(z, v) =~= pzero(n)); }
    l_mul_zero_l(s); l_zero_unit(pzero(n)); l_phase_zero(s); n_refl(pzero(n), 0);
    assert forall|k: int| 0 <= k < 2 * l implies #[trigger] row(g, n, k) == pzero(2 * n) by {
        assert(0 <= k * (2 * n) && (k + 1) * (2 * n) <= 2 * l * (2 * n) && (k + 1) * (2 * n) == k * (2 * n) + 2 * n) by (nonlinear_arith) requires 0 <= k < 2 * l, n >= 0;
        assert(row(g, n, k) =~= pzero(2 * n));
    }
    assert forall|k: int| 0 <= k < l implies near(phase(#[trigger] row(g, n, 2 * k), s), top_row(z, s, b, k + 1), 0) by { assert(row(g, n, 2 * k) == pzero(2 * n)); assert(pscale(z, gad(b, k + 1)) == pzero(n)); }
    assert forall|k: int| 0 <= k < l implies near(phase(#[trigger] row(g, n, 2 * k + 1), s), pscale(z, gad(b, k + 1)), 0) by { assert(row(g, n, 2 * k + 1) == pzero(2 * n)); assert(pscale(z, gad(b, k + 1)) == pzero(n)); }
}
pub open spec fn bit(x: bool) -> u64 { if x { 1 } else { 0 } }
// the selectors of slot j, summed over the first m queries, encrypt whether one of them addresses it
pub proof fn lemma_sum_l(ls: Seq<Vec<RGSWCiphertext>>, idx: Seq<int>, s: Seq<u64>, b: int, l: nat, j: int, e: int, m: nat)
    requires m <= idx.len(), idx.len() == ls.len(), distinct(idx), e >= 0,
        forall|k: int| 0 <= k < idx.len() ==> is_rgsw(#[trigger] lsv(ls, k, j), s.len(), l, b, s, pconst(s.len(), bit(idx[k] == j)), e),
    ensures is_rgsw(sum_l(ls, s.len(), l, j, m), s.len(), l, b, s, pconst(s.len(), bit(hit(idx, j, m) >= 0)), m * e),
    decreases m,
{
    let n = s.len();
    if m == 0 { lemma_rgsw_zero(n, l, b, s); assert(0 * e == 0); } else {
        let p = (m - 1) as nat;
        lemma_sum_l(ls, idx, s, b, l, j, e, p);
        let (x, y) = (bit(hit(idx, j, p) >= 0), bit(idx[p as int] == j));
        assert(is_rgsw(lsv(ls, p as int, j), n, l, b, s, pconst(n, y), e));
        l_rgsw_add(sum_l(ls, n, l, j, p), lsv(ls, p as int, j), n, l, b, s, pconst(n, x), pconst(n, y), p * e, e);
        assert(p * e + e == m * e) by (nonlinear_arith) requires p == m - 1;
        lemma_hit(idx, j, p);
        if idx[p as int] == j && hit(idx, j, p) >= 0 { assert(idx[hit(idx, j, p)] != idx[p as int]); }
        lemma_bit(n, pconst(n, x)); lemma_bit(n, pconst(n, y));
    }
}
// the value a query with operation op and data x leaves in a slot holding d
pub open spec fn after(q: &ClientQuery, w: bool, d: Seq<u64>) -> Seq<u64> { if w { q.data.sv() } else { d } }
pub open spec fn qok(q: &ClientQuery, w: bool, s: Seq<u64>, b: int, l: nat, e: int) -> bool { is_rgsw(q.op.sv(), s.len(), l, b, s, pconst(s.len(), bit(w)), e) && q.data.sv().len() == 2 * s.len() }
pub proof fn lemma_sum_t(ls: Seq<Vec<RGSWCiphertext>>, qs: Seq<ClientQuery>, idx: Seq<int>, w: Seq<bool>, s: Seq<u64>, b: int, l: nat, j: int, d: Seq<u64>, e: int, f: int, m: nat)
    requires m <= idx.len(), idx.len() == ls.len(), idx.len() == qs.len(), idx.len() == w.len(), distinct(idx), e >= 0, f >= 0, b >= 1, 0 < b * l < 64, d.len() == 2 * s.len(),
        forall|k: int| 0 <= k < idx.len() ==> is_rgsw(#[trigger] lsv(ls, k, j), s.len(), l, b, s, pconst(s.len(), bit(idx[k] == j)), f),
        forall|k: int| 0 <= k < qs.len() ==> qok(&#[trigger] qs[k], w[k], s, b, l, e),
    ensures sum_t(ls, qs, s.len(), b, l, j, d, m).len() == 2 * s.len(),
        near(phase(sum_t(ls, qs, s.len(), b, l, j, d, m), s), if hit(idx, j, m) >= 0 { phase(after(&qs[hit(idx, j, m)], w[hit(idx, j, m)], d), s) } else { pzero(s.len()) }, m * (cbound(s, b, l, e) + cbound(s, b, l, f))),
    decreases m,
{
    reveal(sel_val);
    let n = s.len(); let t = cbound(s, b, l, e) + cbound(s, b, l, f);
    if m == 0 { l_phase_zero(s); n_refl(pzero(n), 0); assert(0 * t == 0); } else {
        let p = (m - 1) as nat;
        lemma_sum_t(ls, qs, idx, w, s, b, l, j, d, e, f, p);
        lemma_hit(idx, j, p);
        let q = &qs[p as int];
        let hot = idx[p as int] == j;
        assert(qok(&qs[p as int], w[p as int], s, b, l, e));
        assert(is_rgsw(lsv(ls, p as int, j), n, l, b, s, pconst(n, bit(hot)), f));
        let r = rwv(q.op.sv(), n, b, l, d, q.data.sv());
        lemma_cmux_bit(q.op.sv(), s, w[p as int], b, l, d, q.data.sv(), e);
        lemma_ep_bit(lsv(ls, p as int, j), s, hot, b, l, r, f);
        let x = sel_val(ls, qs, n, b, l, p as int, j, d);
        let v = after(q, w[p as int], d);
        assert(x == ep(lsv(ls, p as int, j), n, b, l, r));
        if hot { n_trans(phase(x, s), phase(r, s), phase(v, s), cbound(s, b, l, f), cbound(s, b, l, e)); }
        else { n_weak(phase(x, s), pzero(n), cbound(s, b, l, f), t); }
        let y = sum_t(ls, qs, n, b, l, j, d, p);
        let hp = hit(idx, j, p);
        let yv = if hp >= 0 { phase(after(&qs[hp], w[hp], d), s) } else { pzero(n) };
        let xv = if hot { phase(v, s) } else { pzero(n) };
        l_phase_add(y, x, s);
        n_add(phase(y, s), yv, phase(x, s), xv, p * t, t);
        assert(p * t + t == m * t) by (nonlinear_arith) requires p == m - 1;
        if hot && hp >= 0 { assert(idx[hp] != idx[p as int]); }
        if hp >= 0 { assert(qok(&qs[hp], w[hp], s, b, l, e)); }
        lemma_bit(n, yv); lemma_bit(n, xv);
    }
}
pub open spec fn multi_err(s: Seq<u64>, c: &Context, neg: &RGSWCiphertext, k: nat, m: nat) -> int { cbound(s, c.b(), c.l(), m * sel_err(s, c, neg, k)) + m * write_err(s, c, neg, k) }
// query k is to column idx[k], and writes if w[k]
pub open spec fn asks_all(qs: Seq<ClientQuery>, idx: Seq<int>, w: Seq<bool>, sk: &RLWESecretKey, c: &Context, cols: usize) -> bool {
    &&& idx.len() == qs.len() && w.len() == qs.len()
    &&& forall|k: int| 0 <= k < qs.len() ==> 0 <= idx[k] < cols && asks(&#[trigger] qs[k], idx[k], w[k], sk, c, cols)
}
pub proof fn lemma_sels(ls: Seq<Vec<RGSWCiphertext>>, qs: Seq<ClientQuery>, idx: Seq<int>, w: Seq<bool>, sk: &RLWESecretKey, neg: &RGSWCiphertext, c: &Context, cols: usize, j: int)
    requires all_sels(ls, qs, neg, c), asks_all(qs, idx, w, sk, c, cols), is_pow2(cols as nat), cols >= 2, key_ok(sk, neg, c), 0 <= j < cols,
    ensures forall|k: int| 0 <= k < idx.len() ==> is_rgsw(#[trigger] lsv(ls, k, j), sk.sv().len(), c.l(), c.b(), sk.sv(), pconst(sk.sv().len(), bit(idx[k] == j)), sel_err(sk.sv(), c, neg, lg(cols as nat))),
        forall|k: int| 0 <= k < qs.len() ==> qok(&#[trigger] qs[k], w[k], sk.sv(), c.b(), c.l(), nb(c)), sel_err(sk.sv(), c, neg, lg(cols as nat)) >= 0, c.b() >= 1,
{
    let s = sk.sv();
    lemma_cols(cols as nat);
    let (b, l) = (c.b(), c.l());
    assert(b >= 1) by (nonlinear_arith) requires 0 < b * l, b >= 0, l >= 0;
    assert(neg.b() >= 1) by (nonlinear_arith) requires 0 < neg.b() * neg.l(), neg.b() >= 0, neg.l() >= 0;
    let (k0, bb) = (lg(cols as nat), cbound(s, b, l, nb(c)));
    assert(k0 * bb >= 0) by (nonlinear_arith) requires k0 >= 0, bb >= 0;
    lemma_expand_pos(s, neg.b(), neg.l(), nb(c), k0 * bb);
    assert forall|k: int| 0 <= k < idx.len() implies is_rgsw(#[trigger] lsv(ls, k, j), s.len(), c.l(), c.b(), s, pconst(s.len(), bit(idx[k] == j)), sel_err(s, c, neg, lg(cols as nat))) by {
        assert(asks(&qs[k], idx[k], w[k], sk, c, cols));
        assert(all_sel(ls[k]@, &qs[k], neg, c));
        theorem_selectors(ls[k]@, &qs[k], idx[k], w[k], sk, neg, c, cols);
        assert(grows(ls[k]@)[j] == lsv(ls, k, j));
    }
    assert forall|k: int| 0 <= k < qs.len() implies qok(&#[trigger] qs[k], w[k], s, c.b(), c.l(), nb(c)) by { assert(asks(&qs[k], idx[k], w[k], sk, c, cols)); }
}
pub proof fn theorem_multi(old: Seq<RLWECiphertext>, new: Seq<RLWECiphertext>, qs: Seq<ClientQuery>, ys: Seq<RLWECiphertext>, ls: Seq<Vec<RGSWCiphertext>>, idx: Seq<int>, w: Seq<bool>, sk: &RLWESecretKey, neg: &RGSWCiphertext, c: &Context, cols: usize, j: int)
    requires multi(old, new, qs, ys, ls, neg, c), asks_all(qs, idx, w, sk, c, cols), distinct(idx), is_pow2(cols as nat), cols >= 2, key_ok(sk, neg, c), old.len() == cols, all_wf(old, c.n()), 0 <= j < cols,
    ensures near(new[j].ph(sk), phase(if hit(idx, j, qs.len()) >= 0 { after(&qs[hit(idx, j, qs.len())], w[hit(idx, j, qs.len())], old[j].sv()) } else { old[j].sv() }, sk.sv()), multi_err(sk.sv(), c, neg, lg(cols as nat), qs.len())),
{
    let (s, b, l, m, k0) = (sk.sv(), c.b(), c.l(), qs.len(), lg(cols as nat));
    let n = s.len();
    let f = sel_err(s, c, neg, k0);
    let d = old[j].sv();
    assert(old[j].wf() && old[j].n() == c.n());
    lemma_sels(ls, qs, idx, w, sk, neg, c, cols, j);
    lemma_sum_l(ls, idx, s, b, l, j, f, m);
    lemma_sum_t(ls, qs, idx, w, s, b, l, j, d, nb(c), f, m);
    reveal(upd_sum);
    let h = hit(idx, j, m);
    let (g, t) = (sum_l(ls, n, l, j, m), sum_t(ls, qs, n, b, l, j, d, m));
    assert(m * f >= 0) by (nonlinear_arith) requires m >= 0, f >= 0;
    lemma_cmux_bit(g, s, h >= 0, b, l, d, t, m * f);
    lemma_write_pos(s, c, neg, k0);
    let te = m * write_err(s, c, neg, k0);
    assert(te >= 0) by (nonlinear_arith) requires m >= 0, write_err(s, c, neg, k0) >= 0, te == m * write_err(s, c, neg, k0);
    let u = new[j].sv();
    assert(u == upd_sum(ls, qs, c, j, d));
    lemma_hit(idx, j, m);
    if h >= 0 { n_trans(phase(u, s), phase(t, s), phase(after(&qs[h], w[h], d), s), cbound(s, b, l, m * f), te); }
    else { n_weak(phase(u, s), phase(d, s), cbound(s, b, l, m * f), multi_err(s, c, neg, k0, m)); }
}
pub open spec fn idxs(h: Seq<Access>) -> Seq<int> { Seq::new(h.len(), |k: int| h[k].i) }
pub open spec fn ops(h: Seq<Access>) -> Seq<bool> { Seq::new(h.len(), |k: int| h[k].w) }
// what simultaneous accesses to an array would do
pub open spec fn together(m: Seq<Seq<u64>>, h: Seq<Access>) -> Seq<Seq<u64>> { Seq::new(m.len(), |j: int| { let k = hit(idxs(h), j, h.len()); if k >= 0 && h[k].w { h[k].x } else { m[j] } }) }
pub open spec fn asked_all(qs: Seq<ClientQuery>, h: Seq<Access>, sk: &RLWESecretKey, c: &Context, cols: usize) -> bool {
    h.len() == qs.len() && distinct(idxs(h)) && forall|k: int| 0 <= k < qs.len() ==> 0 <= h[k].i < cols && asked(&#[trigger] qs[k], h[k], sk, c, cols)
}
// C02: a round of queries to distinct positions acts as simultaneous accesses
pub proof fn theorem_round(old: Seq<RLWECiphertext>, new: Seq<RLWECiphertext>, qs: Seq<ClientQuery>, ys: Seq<RLWECiphertext>, ls: Seq<Vec<RGSWCiphertext>>, h: Seq<Access>, m: Seq<Seq<u64>>, sk: &RLWESecretKey, neg: &RGSWCiphertext, c: &Context, cols: usize, e: int)
    requires multi(old, new, qs, ys, ls, neg, c), asked_all(qs, h, sk, c, cols), is_pow2(cols as nat), cols >= 2, key_ok(sk, neg, c), old.len() == cols, all_wf(old, c.n()), stores(old, m, sk, c, e),
    ensures stores(new, together(m, h), sk, c, imax(e, nb(c)) + multi_err(sk.sv(), c, neg, lg(cols as nat), qs.len())),
        imax(e, nb(c)) + multi_err(sk.sv(), c, neg, lg(cols as nat), qs.len()) < c.codec.dl() / 2 ==> forall|j: int| 0 <= j < cols ==> decrypts(#[trigger] new[j], sk, c, together(m, h)[j]),
        forall|k: int| 0 <= k < qs.len() ==> keeps((#[trigger] ys[k]).sv(), m[h[k].i], sk.sv(), c, e + read_err(sk.sv(), c, neg, lg(cols as nat))),
        e + read_err(sk.sv(), c, neg, lg(cols as nat)) < c.codec.dl() / 2 ==> forall|k: int| 0 <= k < qs.len() ==> decrypts(#[trigger] ys[k], sk, c, m[h[k].i]),
{
    let (s, idx, w, k0, nq) = (sk.sv(), idxs(h), ops(h), lg(cols as nat), qs.len());
    let t = multi_err(s, c, neg, k0, nq);
    lemma_cols(cols as nat);
    assert forall|k: int| 0 <= k < qs.len() implies 0 <= idx[k] < cols && asks(&#[trigger] qs[k], idx[k], w[k], sk, c, cols) by { assert(asked(&qs[k], h[k], sk, c, cols)); }
    let er = e + read_err(s, c, neg, k0);
    assert forall|k: int| 0 <= k < qs.len() implies keeps((#[trigger] ys[k]).sv(), m[h[k].i], s, c, er) by {
        assert(asks(&qs[k], idx[k], w[k], sk, c, cols));
        assert(all_sel(ls[k]@, &qs[k], neg, c));
        theorem_response(old, ys[k], &qs[k], ls[k]@, idx[k], w[k], sk, neg, c, cols);
        assert(keeps(old[h[k].i].sv(), m[h[k].i], s, c, e));
        n_trans(ys[k].ph(sk), old[h[k].i].ph(sk), c.codec.penc(m[h[k].i]), read_err(s, c, neg, k0), e);
    }
    if er < c.codec.dl() / 2 { assert forall|k: int| 0 <= k < qs.len() implies decrypts(#[trigger] ys[k], sk, c, m[h[k].i]) by { assert(keeps(ys[k].sv(), m[h[k].i], s, c, er)); lemma_poly_decrypt(&c.codec, ys[k].ph(sk), m[h[k].i], er); } }
    let m2 = together(m, h);
    let en = imax(e, nb(c)) + t;
    assert forall|j: int| 0 <= j < m2.len() implies keeps((#[trigger] new[j]).sv(), m2[j], s, c, en) by {
        theorem_multi(old, new, qs, ys, ls, idx, w, sk, neg, c, cols, j);
        assert(keeps(old[j].sv(), m[j], s, c, e));
        lemma_hit(idx, j, nq);
        let k = hit(idx, j, nq);
        if k >= 0 && w[k] {
            assert(asked(&qs[k], h[k], sk, c, cols));
            n_trans(new[j].ph(sk), qs[k].data.ph(sk), c.codec.penc(m2[j]), t, nb(c)); n_weak(new[j].ph(sk), c.codec.penc(m2[j]), t + nb(c), en);
        } else {
            n_trans(new[j].ph(sk), old[j].ph(sk), c.codec.penc(m2[j]), t, e); n_weak(new[j].ph(sk), c.codec.penc(m2[j]), t + e, en);
        }
    }
    if en < c.codec.dl() / 2 { assert forall|j: int| 0 <= j < cols implies decrypts(#[trigger] new[j], sk, c, m2[j]) by { assert(keeps(new[j].sv(), m2[j], s, c, en)); lemma_poly_decrypt(&c.codec, new[j].ph(sk), m2[j], en); } }
}
// nobody addresses a position: unchanged; a write: its data
pub proof fn theorem_together(m: Seq<Seq<u64>>, h: Seq<Access>, j: int)
    requires distinct(idxs(h)), 0 <= j < m.len(),
    ensures (forall|k: int| 0 <= k < h.len() ==> !((#[trigger] h[k]).i == j && h[k].w)) ==> together(m, h)[j] == m[j],
        forall|k: int| 0 <= k < h.len() && (#[trigger] h[k]).i == j && h[k].w ==> together(m, h)[j] == h[k].x,
{
    lemma_hit(idxs(h), j, h.len());
    assert forall|k: int| 0 <= k < h.len() && (#[trigger] h[k]).i == j && h[k].w implies together(m, h)[j] == h[k].x by { lemma_hit_at(idxs(h), k, h.len()); assert(idxs(h)[k] == j); }
}
// ---- one query per row, then the copies of every item settled (C03)
// copy h of item i is addressed by a write
pub open spec fn wrote(hash: &NaiveHash, cols: int, idx: Seq<int>, w: Seq<bool>, i: int, h: int) -> bool { let p = hpos(hash, cols, h, i); w[p.0 as int] && idx[p.0 as int] == p.1 }
// no item is written at two of its positions
pub open spec fn lone(hash: &NaiveHash, cols: int, idx: Seq<int>, w: Seq<bool>) -> bool {
    forall|i: int, h: int, g: int| hash.ok(h, i) && hash.ok(g, i) && #[trigger] wrote(hash, cols, idx, w, i, h) && #[trigger] wrote(hash, cols, idx, w, i, g) ==> h == g
}
// the written copy among the first m, or -1
pub open spec fn which(hash: &NaiveHash, cols: int, idx: Seq<int>, w: Seq<bool>, i: int, m: nat) -> int decreases m {
    if m == 0 { -1 } else if wrote(hash, cols, idx, w, i, m - 1) { m - 1 } else { which(hash, cols, idx, w, i, (m - 1) as nat) }
}
pub proof fn lemma_which(hash: &NaiveHash, cols: int, idx: Seq<int>, w: Seq<bool>, i: int, m: nat)
    ensures -1 <= which(hash, cols, idx, w, i, m) < m, which(hash, cols, idx, w, i, m) >= 0 ==> wrote(hash, cols, idx, w, i, which(hash, cols, idx, w, i, m)),
        which(hash, cols, idx, w, i, m) < 0 ==> forall|h: int| 0 <= h < m ==> !#[trigger] wrote(hash, cols, idx, w, i, h),
    decreases m,
{ if m > 0 { lemma_which(hash, cols, idx, w, i, (m - 1) as nat); } }
// position p's selector and operation flag are right
pub open spec fn pok(qs: Seq<ClientQuery>, ls: Seq<Vec<RGSWCiphertext>>, idx: Seq<int>, w: Seq<bool>, s: Seq<u64>, b: int, l: nat, e: int, f: int, p: (usize, usize)) -> bool {
    &&& p.0 < qs.len() && is_rgsw(qs[p.0 as int].op.sv(), s.len(), l, b, s, pconst(s.len(), bit(w[p.0 as int])), e)
    &&& is_rgsw(lsv(ls, p.0 as int, p.1 as int), s.len(), l, b, s, pconst(s.len(), bit(idx[p.0 as int] == p.1)), f)
}
pub proof fn lemma_ep2(qs: Seq<ClientQuery>, ls: Seq<Vec<RGSWCiphertext>>, idx: Seq<int>, w: Seq<bool>, s: Seq<u64>, c: &Context, e: int, f: int, p: (usize, usize), d: Seq<u64>)
    requires pok(qs, ls, idx, w, s, c.b(), c.l(), e, f, p), d.len() == 2 * s.len(), c.n() == s.len(), e >= 0, f >= 0, c.b() >= 1, 0 < c.b() * c.l() < 64,
    ensures ep2(flags(qs), ls, c, p, d).len() == 2 * s.len(), near(phase(ep2(flags(qs), ls, c, p, d), s), if w[p.0 as int] && idx[p.0 as int] == p.1 { phase(d, s) } else { pzero(s.len()) }, cbound(s, c.b(), c.l(), e) + cbound(s, c.b(), c.l(), f)),
{
    let (n, b, l, r) = (s.len(), c.b(), c.l(), p.0 as int);
    let (w1, hot) = (w[r], idx[r] == p.1);
    let op = qs[r].op.sv();
    assert(flags(qs)[r].sv() == op);
    let x = ep(op, n, b, l, d);
    let g = lsv(ls, r, p.1 as int);
    lemma_ep_bit(op, s, w1, b, l, d, e);
    lemma_ep_bit(g, s, hot, b, l, x, f);
    let y = ep(g, n, b, l, x);
    let t = cbound(s, b, l, e) + cbound(s, b, l, f);
    if hot { n_trans(phase(y, s), phase(x, s), if w1 { phase(d, s) } else { pzero(n) }, cbound(s, b, l, f), cbound(s, b, l, e)); }
    else { n_weak(phase(y, s), pzero(n), cbound(s, b, l, f), t); }
}
// every copy of item i is at a good position
pub open spec fn all_pok(hash: &NaiveHash, cols: int, qs: Seq<ClientQuery>, ls: Seq<Vec<RGSWCiphertext>>, idx: Seq<int>, w: Seq<bool>, s: Seq<u64>, c: &Context, e: int, f: int, i: int) -> bool {
    &&& 0 <= i < hash.input_domain && c.n() == s.len() && e >= 0 && f >= 0 && c.b() >= 1 && 0 < c.b() * c.l() < 64
    &&& forall|h: int| 0 <= h < hash.h_count ==> pok(qs, ls, idx, w, s, c.b(), c.l(), e, f, #[trigger] hpos(hash, cols, h, i))
}
pub proof fn lemma_cc_first(hash: &NaiveHash, cols: int, qs: Seq<ClientQuery>, ls: Seq<Vec<RGSWCiphertext>>, idx: Seq<int>, w: Seq<bool>, s: Seq<u64>, c: &Context, e: int, f: int, i: int, d: Seq<u64>, m: nat)
    requires all_pok(hash, cols, qs, ls, idx, w, s, c, e, f, i), lone(hash, cols, idx, w), m <= hash.h_count, d.len() == 2 * s.len(),
    ensures cc_first(flags(qs), ls, c, ipos(hash, cols, i), d, m).len() == 2 * s.len(),
        near(phase(cc_first(flags(qs), ls, c, ipos(hash, cols, i), d, m), s), if which(hash, cols, idx, w, i, m) >= 0 { pzero(s.len()) } else { phase(d, s) }, m * (cbound(s, c.b(), c.l(), e) + cbound(s, c.b(), c.l(), f))),
    decreases m,
{
    let t = cbound(s, c.b(), c.l(), e) + cbound(s, c.b(), c.l(), f);
    if m == 0 { n_refl(phase(d, s), 0); assert(0 * t == 0); } else {
        let k = m - 1; let p = hpos(hash, cols, k, i);
        lemma_cc_first(hash, cols, qs, ls, idx, w, s, c, e, f, i, d, k as nat);
        lemma_which(hash, cols, idx, w, i, k as nat);
        let u = which(hash, cols, idx, w, i, k as nat);
        assert(ipos(hash, cols, i)[k] == p);
        assert(pok(qs, ls, idx, w, s, c.b(), c.l(), e, f, hpos(hash, cols, k, i)));
        lemma_ep2(qs, ls, idx, w, s, c, e, f, p, d);
        let (x, y) = (cc_first(flags(qs), ls, c, ipos(hash, cols, i), d, k as nat), ep2(flags(qs), ls, c, p, d));
        let (xv, yv) = (if u >= 0 { pzero(s.len()) } else { phase(d, s) }, if wrote(hash, cols, idx, w, i, k) { phase(d, s) } else { pzero(s.len()) });
        l_phase_sub(x, y, s);
        n_sub(phase(x, s), xv, phase(y, s), yv, k * t, t);
        assert(k * t + t == m * t) by (nonlinear_arith) requires k == m - 1;
        lemma_bit(s.len(), phase(d, s)); lemma_bit(s.len(), pzero(s.len()));
        if u >= 0 && wrote(hash, cols, idx, w, i, k) { assert(hash.ok(u, i) && hash.ok(k, i)); assert(wrote(hash, cols, idx, w, i, u)); }
    }
}
pub proof fn lemma_cc_second(hash: &NaiveHash, cols: int, qs: Seq<ClientQuery>, ls: Seq<Vec<RGSWCiphertext>>, idx: Seq<int>, w: Seq<bool>, s: Seq<u64>, c: &Context, e: int, f: int, i: int, mid: Seq<Vec<RLWECiphertext>>, m: nat)
    requires all_pok(hash, cols, qs, ls, idx, w, s, c, e, f, i), lone(hash, cols, idx, w), m < hash.h_count, forall|h: int| 0 <= h < hash.h_count ==> (#[trigger] dat(mid, hpos(hash, cols, h, i))).len() == 2 * s.len(),
    ensures cc_second(flags(qs), ls, c, ipos(hash, cols, i), mid, m).len() == 2 * s.len(),
        near(phase(cc_second(flags(qs), ls, c, ipos(hash, cols, i), mid, m), s), if which(hash, cols, idx, w, i, m + 1) >= 0 { phase(dat(mid, hpos(hash, cols, which(hash, cols, idx, w, i, m + 1), i)), s) } else { pzero(s.len()) }, (m + 1) * (cbound(s, c.b(), c.l(), e) + cbound(s, c.b(), c.l(), f))),
    decreases m,
{
    let t = cbound(s, c.b(), c.l(), e) + cbound(s, c.b(), c.l(), f);
    let p = hpos(hash, cols, m as int, i);
    let d = dat(mid, p);
    assert(dat(mid, hpos(hash, cols, m as int, i)).len() == 2 * s.len());
    assert(ipos(hash, cols, i)[m as int] == p);
    assert(pok(qs, ls, idx, w, s, c.b(), c.l(), e, f, hpos(hash, cols, m as int, i)));
    lemma_ep2(qs, ls, idx, w, s, c, e, f, p, d);
    if m == 0 { assert(which(hash, cols, idx, w, i, 0) == -1); assert(1 * t == t); } else {
        lemma_cc_second(hash, cols, qs, ls, idx, w, s, c, e, f, i, mid, (m - 1) as nat);
        lemma_which(hash, cols, idx, w, i, m);
        let u = which(hash, cols, idx, w, i, m);
        let (x, y) = (cc_second(flags(qs), ls, c, ipos(hash, cols, i), mid, (m - 1) as nat), ep2(flags(qs), ls, c, p, d));
        let (xv, yv) = (if u >= 0 { phase(dat(mid, hpos(hash, cols, u, i)), s) } else { pzero(s.len()) }, if wrote(hash, cols, idx, w, i, m as int) { phase(d, s) } else { pzero(s.len()) });
        l_phase_add(x, y, s);
        n_add(phase(x, s), xv, phase(y, s), yv, m * t, t);
        assert(m * t + t == (m + 1) * t) by (nonlinear_arith);
        lemma_bit(s.len(), xv); lemma_bit(s.len(), yv);
        if u >= 0 && wrote(hash, cols, idx, w, i, m as int) { assert(hash.ok(u, i) && hash.ok(m as int, i)); assert(wrote(hash, cols, idx, w, i, u)); }
    }
}
// the common value: the written copy if there is one, else the first
pub proof fn lemma_settled(hash: &NaiveHash, cols: int, qs: Seq<ClientQuery>, ls: Seq<Vec<RGSWCiphertext>>, idx: Seq<int>, w: Seq<bool>, s: Seq<u64>, c: &Context, e: int, f: int, i: int, mid: Seq<Vec<RLWECiphertext>>)
    requires all_pok(hash, cols, qs, ls, idx, w, s, c, e, f, i), lone(hash, cols, idx, w), hash.h_count > 0, forall|h: int| 0 <= h < hash.h_count ==> (#[trigger] dat(mid, hpos(hash, cols, h, i))).len() == 2 * s.len(),
    ensures near(phase(settled(qs, ls, c, hash, cols, i, mid), s), phase(dat(mid, hpos(hash, cols, if which(hash, cols, idx, w, i, hash.h_count as nat) >= 0 { which(hash, cols, idx, w, i, hash.h_count as nat) } else { 0 }, i)), s), 2 * hash.h_count * (cbound(s, c.b(), c.l(), e) + cbound(s, c.b(), c.l(), f))),
{
    let t = cbound(s, c.b(), c.l(), e) + cbound(s, c.b(), c.l(), f);
    let hn = hash.h_count as nat;
    let ps = ipos(hash, cols, i);
    let d = dat(mid, hpos(hash, cols, 0, i));
    assert(d.len() == 2 * s.len());
    assert(ps[0] == hpos(hash, cols, 0, i) && ps.len() == hn);
    lemma_cc_first(hash, cols, qs, ls, idx, w, s, c, e, f, i, d, hn);
    lemma_cc_second(hash, cols, qs, ls, idx, w, s, c, e, f, i, mid, (hn - 1) as nat);
    lemma_which(hash, cols, idx, w, i, hn);
    let u = which(hash, cols, idx, w, i, hn);
    let (x, y) = (cc_second(flags(qs), ls, c, ps, mid, (hn - 1) as nat), cc_first(flags(qs), ls, c, ps, d, hn));
    let (xv, yv) = (if u >= 0 { phase(dat(mid, hpos(hash, cols, u, i)), s) } else { pzero(s.len()) }, if u >= 0 { pzero(s.len()) } else { phase(d, s) });
    l_phase_add(x, y, s);
    n_add(phase(x, s), xv, phase(y, s), yv, hn * t, hn * t);
    assert(hn * t + hn * t == 2 * hn * t) by (nonlinear_arith);
    lemma_bit(s.len(), xv); lemma_bit(s.len(), yv);
}
// what the items are after the round: xs[r] is the data of row r's query
pub open spec fn rewritten(hash: &NaiveHash, cols: int, idx: Seq<int>, w: Seq<bool>, xs: Seq<Seq<u64>>, m: Seq<Seq<u64>>) -> Seq<Seq<u64>> {
    Seq::new(m.len(), |i: int| { let u = which(hash, cols, idx, w, i, hash.h_count as nat); if u >= 0 { xs[hpos(hash, cols, u, i).0 as int] } else { m[i] } })
}
pub open spec fn batch_err(s: Seq<u64>, c: &Context, neg: &RGSWCiphertext, k: nat, hn: int) -> int { write_err(s, c, neg, k) + 2 * hn * write_err(s, c, neg, k) }
pub open spec fn held(qs: Seq<ClientQuery>, w: Seq<bool>, xs: Seq<Seq<u64>>, sk: &RLWESecretKey, c: &Context) -> bool { xs.len() == qs.len() && forall|r: int| 0 <= r < qs.len() && w[r] ==> holds((#[trigger] qs[r]).data.sv(), xs[r], sk.sv(), c) }
pub proof fn lemma_mid(old: Seq<Vec<RLWECiphertext>>, mid: Seq<Vec<RLWECiphertext>>, qs: Seq<ClientQuery>, ls: Seq<Vec<RGSWCiphertext>>, idx: Seq<int>, w: Seq<bool>, xs: Seq<Seq<u64>>, v: Seq<u64>, p: (usize, usize), sk: &RLWESecretKey, neg: &RGSWCiphertext, c: &Context, cols: usize, e: int)
    requires all_sels(ls, qs, neg, c), asks_all(qs, idx, w, sk, c, cols), held(qs, w, xs, sk, c), is_pow2(cols as nat), cols >= 2, key_ok(sk, neg, c), table_wf(old, qs.len(), cols as nat, c), p.0 < qs.len(), p.1 < cols,
        mid.len() == old.len(), updated(old[p.0 as int]@, mid[p.0 as int]@, ls[p.0 as int]@, &qs[p.0 as int], c), keeps(dat(old, p), v, sk.sv(), c, e),
    ensures dat(mid, p).len() == 2 * sk.sv().len(), keeps(dat(mid, p), if w[p.0 as int] && idx[p.0 as int] == p.1 { xs[p.0 as int] } else { v }, sk.sv(), c, imax(e, nb(c)) + write_err(sk.sv(), c, neg, lg(cols as nat))),
{
    let (r, s, k0) = (p.0 as int, sk.sv(), lg(cols as nat));
    let t = write_err(s, c, neg, k0);
    lemma_cols(cols as nat);
    assert(asks(&qs[r], idx[r], w[r], sk, c, cols));
    assert(all_sel(ls[r]@, &qs[r], neg, c));
    assert(old[r]@.len() == cols && all_wf(old[r]@, c.n()));
    theorem_update(old[r]@, mid[r]@, &qs[r], ls[r]@, idx[r], w[r], sk, neg, c, cols, p.1 as int);
    let ph = mid[r]@[p.1 as int].ph(sk);
    assert(mid[r]@[p.1 as int].wf() && mid[r]@[p.1 as int].n() == c.n());
    if w[r] && idx[r] == p.1 { n_trans(ph, qs[r].data.ph(sk), c.codec.penc(xs[r]), t, nb(c)); n_weak(ph, c.codec.penc(xs[r]), t + nb(c), imax(e, nb(c)) + t); }
    else { n_trans(ph, old[r]@[p.1 as int].ph(sk), c.codec.penc(v), t, e); n_weak(ph, c.codec.penc(v), t + e, imax(e, nb(c)) + t); }
}
// C03: every copy of a written item holds its data, every copy of any other item is as before
pub proof fn theorem_batch(old: Seq<Vec<RLWECiphertext>>, new: Seq<Vec<RLWECiphertext>>, qs: Seq<ClientQuery>, ys: Seq<RLWECiphertext>, ls: Seq<Vec<RGSWCiphertext>>, mid: Seq<Vec<RLWECiphertext>>, hash: &NaiveHash, idx: Seq<int>, w: Seq<bool>, xs: Seq<Seq<u64>>, m: Seq<Seq<u64>>, sk: &RLWESecretKey, neg: &RGSWCiphertext, c: &Context, cols: usize, e: int)
    requires batched(old, new, qs, ys, ls, mid, neg, hash, c), asks_all(qs, idx, w, sk, c, cols), held(qs, w, xs, sk, c), lone(hash, cols as int, idx, w), is_pow2(cols as nat), cols >= 2, key_ok(sk, neg, c),
        table_wf(old, qs.len(), cols as nat, c), hash.wf(), qs.len() <= usize::MAX, qs.len() * cols == hash.h_count * hash.input_domain, m.len() == hash.input_domain, old.len() > 0, shelf(old, hash, cols as int, m, sk.sv(), c, e),
    ensures shelf(new, hash, cols as int, rewritten(hash, cols as int, idx, w, xs, m), sk.sv(), c, imax(e, nb(c)) + batch_err(sk.sv(), c, neg, lg(cols as nat), hash.h_count as int)),
        forall|i: int, h: int| hash.ok(h, i) && idx[hpos(hash, cols as int, h, i).0 as int] == hpos(hash, cols as int, h, i).1 ==> keeps(ys[(#[trigger] hpos(hash, cols as int, h, i)).0 as int].sv(), m[i], sk.sv(), c, e + read_err(sk.sv(), c, neg, lg(cols as nat))),
{
    let (s, k0, cl) = (sk.sv(), lg(cols as nat), cols as int);
    let f = sel_err(s, c, neg, k0);
    let t = write_err(s, c, neg, k0);
    let m2 = rewritten(hash, cl, idx, w, xs, m);
    let rows = qs.len() as int;
    lemma_cols(cols as nat);
    assert(old[0]@.len() == cols);
    reveal(settling);
    assert forall|i: int, h: int| hash.ok(h, i) implies keeps(#[trigger] dat(new, hpos(hash, cl, h, i)), m2[i], s, c, imax(e, nb(c)) + batch_err(s, c, neg, k0, hash.h_count as int)) by {
        assert(dat(new, hpos(hash, cl, h, i)) == settled(qs, ls, c, hash, cl, i, mid));
        lemma_sels(ls, qs, idx, w, sk, neg, c, cols, 0);
        assert forall|g: int| 0 <= g < hash.h_count implies pok(qs, ls, idx, w, s, c.b(), c.l(), nb(c), f, #[trigger] hpos(hash, cl, g, i)) && dat(mid, hpos(hash, cl, g, i)).len() == 2 * s.len()
            && keeps(dat(mid, hpos(hash, cl, g, i)), if wrote(hash, cl, idx, w, i, g) { xs[hpos(hash, cl, g, i).0 as int] } else { m[i] }, s, c, imax(e, nb(c)) + t) by {
            let p = hpos(hash, cl, g, i);
            assert(hash.ok(g, i));
            lemma_hpos(hash, rows, cl, g, i);
            lemma_sels(ls, qs, idx, w, sk, neg, c, cols, p.1 as int);
            assert(qok(&qs[p.0 as int], w[p.0 as int], s, c.b(), c.l(), nb(c)));
            assert(is_rgsw(lsv(ls, p.0 as int, p.1 as int), s.len(), c.l(), c.b(), s, pconst(s.len(), bit(idx[p.0 as int] == p.1)), f));
            assert(updated(old[p.0 as int]@, mid[p.0 as int]@, ls[p.0 as int]@, &qs[p.0 as int], c));
            assert(keeps(dat(old, hpos(hash, cl, g, i)), m[i], s, c, e));
            lemma_mid(old, mid, qs, ls, idx, w, xs, m[i], p, sk, neg, c, cols, e);
        }
        assert(all_pok(hash, cl, qs, ls, idx, w, s, c, nb(c), f, i));
        lemma_settled(hash, cl, qs, ls, idx, w, s, c, nb(c), f, i, mid);
        lemma_which(hash, cl, idx, w, i, hash.h_count as nat);
        let u = which(hash, cl, idx, w, i, hash.h_count as nat);
        let g = if u >= 0 { u } else { 0 };
        assert(keeps(dat(mid, hpos(hash, cl, g, i)), m2[i], s, c, imax(e, nb(c)) + t));
        n_trans(phase(dat(new, hpos(hash, cl, h, i)), s), phase(dat(mid, hpos(hash, cl, g, i)), s), c.codec.penc(m2[i]), 2 * hash.h_count * t, imax(e, nb(c)) + t);
        assert(imax(e, nb(c)) + batch_err(s, c, neg, k0, hash.h_count as int) == 2 * hash.h_count * t + (imax(e, nb(c)) + t));
    }
    assert forall|i: int, h: int| hash.ok(h, i) && idx[hpos(hash, cl, h, i).0 as int] == hpos(hash, cl, h, i).1 implies keeps(ys[(#[trigger] hpos(hash, cl, h, i)).0 as int].sv(), m[i], s, c, e + read_err(s, c, neg, k0)) by {
        let p = hpos(hash, cl, h, i);
        let r = p.0 as int;
        lemma_hpos(hash, rows, cl, h, i);
        assert(asks(&qs[r], idx[r], w[r], sk, c, cols));
        assert(all_sel(ls[r]@, &qs[r], neg, c));
        assert(answered(ys[r], old[r]@, ls[r]@, c));
        assert(old[r]@.len() == cols && all_wf(old[r]@, c.n()));
        theorem_response(old[r]@, ys[r], &qs[r], ls[r]@, idx[r], w[r], sk, neg, c, cols);
        assert(keeps(dat(old, hpos(hash, cl, h, i)), m[i], s, c, e));
        n_trans(ys[r].ph(sk), old[r]@[p.1 as int].ph(sk), c.codec.penc(m[i]), read_err(s, c, neg, k0), e);
    }
}
// every table entry is a copy of one item, so every row's answer is covered
pub proof fn lemma_covered(hash: &NaiveHash, rows: int, cols: int, r: int, j: int) -> (x: (int, int))
    requires hash.wf(), rows * cols == hash.h_count * hash.input_domain, 0 <= r < rows, 0 <= j < cols, rows <= usize::MAX, cols <= usize::MAX,
    ensures hash.ok(x.0, x.1), hpos(hash, cols, x.0, x.1).0 == r, hpos(hash, cols, x.0, x.1).1 == j,
{
    let p = r * cols + j;
    assert(0 <= p < rows * cols) by (nonlinear_arith) requires 0 <= r < rows, 0 <= j < cols, p == r * cols + j;
    let x = hash.lemma_onto(p as usize);
    lemma_hpos_is(hash, cols, x.0, x.1, r, j);
    x
}
pub proof fn lemma_hpos_is(hash: &NaiveHash, cols: int, h: int, i: int, r: int, j: int)
    requires hash.pos(h, i) == r * cols + j, 0 <= j < cols, 0 <= r <= usize::MAX, cols <= usize::MAX, ensures hpos(hash, cols, h, i).0 == r, hpos(hash, cols, h, i).1 == j,
{ lemma_fundamental_div_mod_converse(hash.pos(h, i), cols, r, j); }
// the queries the client makes for a set of items: row r's index, and whether it writes
pub open spec fn row_idx(m: Map<usize, (usize, usize)>, rows: nat) -> Seq<int> { Seq::new(rows, |r: int| if m.contains_key(r as usize) { m[r as usize].0 as int } else { 0 }) }
pub open spec fn row_ops(m: Map<usize, (usize, usize)>, rows: nat, w: bool) -> Seq<bool> { Seq::new(rows, |r: int| w && m.contains_key(r as usize)) }
pub proof fn lemma_wrote(hash: &NaiveHash, m: Map<usize, (usize, usize)>, is: Seq<usize>, rows: nat, cols: int, w: bool, i: int, h: int)
    requires hash.wf(), hash.placed(m, is, cols, is.len() as int), hash.ok(h, i), rows * cols == hash.h_count * hash.input_domain, cols > 0, rows <= usize::MAX, cols <= usize::MAX,
        wrote(hash, cols, row_idx(m, rows), row_ops(m, rows, w), i, h), forall|k: int| 0 <= k < is.len() ==> #[trigger] is[k] < hash.input_domain,
    ensures w, m.contains_key(hpos(hash, cols, h, i).0), m[hpos(hash, cols, h, i).0].1 == i, m[hpos(hash, cols, h, i).0].0 == hpos(hash, cols, h, i).1, is.contains(i as usize),
{
    let p = hpos(hash, cols, h, i);
    lemma_hpos(hash, rows as int, cols, h, i);
    assert(m.contains_key(p.0));
    let it = m[p.0].1 as int;
    let g = choose|g: int| 0 <= g < hash.h_count && #[trigger] hash.pos(g, it) == p.0 * cols + m[p.0].0;
    reveal(crate::naive_hash::item_in);
    let k = choose|k: int| 0 <= k < is.len() && #[trigger] is[k] == m[p.0].1;
    assert(is.contains(m[p.0].1));
    assert(hash.pos(h, i) == p.0 * cols + p.1);
    assert(hash.pos(g, it) == hash.pos(h, i));
    assert(0 <= it < hash.input_domain);
    if g != h || it != i { hash.lemma_distinct(g, it, h, i); }
}
pub proof fn lemma_batch_queries(hash: &NaiveHash, m: Map<usize, (usize, usize)>, is: Seq<usize>, rows: nat, cols: int, w: bool)
    requires hash.wf(), hash.placed(m, is, cols, is.len() as int), rows * cols == hash.h_count * hash.input_domain, cols > 0, rows <= usize::MAX, cols <= usize::MAX, forall|k: int| 0 <= k < is.len() ==> #[trigger] is[k] < hash.input_domain,
    ensures lone(hash, cols, row_idx(m, rows), row_ops(m, rows, w)),
        forall|i: int| 0 <= i < hash.input_domain ==> (#[trigger] which(hash, cols, row_idx(m, rows), row_ops(m, rows, w), i, hash.h_count as nat) >= 0 <==> w && is.contains(i as usize)),
{
    let (idx, ww) = (row_idx(m, rows), row_ops(m, rows, w));
    assert forall|i: int, h: int, g: int| hash.ok(h, i) && hash.ok(g, i) && #[trigger] wrote(hash, cols, idx, ww, i, h) && #[trigger] wrote(hash, cols, idx, ww, i, g) implies h == g by {
        lemma_wrote(hash, m, is, rows, cols, w, i, h); lemma_wrote(hash, m, is, rows, cols, w, i, g);
        let (p, q) = (hpos(hash, cols, h, i), hpos(hash, cols, g, i));
        assert(p.0 == q.0); assert(p.1 == q.1);
        lemma_hpos(hash, rows as int, cols, h, i); lemma_hpos(hash, rows as int, cols, g, i);
        if h != g { hash.lemma_distinct(h, i, g, i); }
    }
    assert forall|i: int| 0 <= i < hash.input_domain implies (#[trigger] which(hash, cols, idx, ww, i, hash.h_count as nat) >= 0 <==> w && is.contains(i as usize)) by {
        let u = which(hash, cols, idx, ww, i, hash.h_count as nat);
        lemma_which(hash, cols, idx, ww, i, hash.h_count as nat);
        if u >= 0 { lemma_wrote(hash, m, is, rows, cols, w, i, u); }
        if w && is.contains(i as usize) {
            let k = choose|k: int| 0 <= k < is.len() && is[k] == i as usize;
            assert(crate::naive_hash::row_of(m, is[k]));
            reveal(crate::naive_hash::row_of);
            let r = choose|r: usize| #[trigger] m.contains_key(r) && m[r].1 == is[k];
            assert(hash.at_slot(r as int, m[r].0 as int, m[r].1 as int, cols));
            let h = choose|h: int| 0 <= h < hash.h_count && #[trigger] hash.pos(h, i) == r * cols + m[r].0;
            assert(hash.ok(h, i));
            lemma_hpos_is(hash, cols, h, i, r as int, m[r].0 as int);
            lemma_hpos(hash, rows as int, cols, h, i);
            assert(wrote(hash, cols, idx, ww, i, h));
        }
    }
}
// what a batch of reads or writes of the items `is` does to the items m
pub open spec fn after_batch(m: Seq<Seq<u64>>, is: Seq<usize>, w: bool, x: Seq<u64>) -> Seq<Seq<u64>> { Seq::new(m.len(), |i: int| if w && is.contains(i as usize) { x } else { m[i] }) }
// C03, for the queries the client makes: the requested items are answered, exactly the written ones change, in every position
pub proof fn theorem_items(old: Seq<Vec<RLWECiphertext>>, new: Seq<Vec<RLWECiphertext>>, qs: Seq<ClientQuery>, ys: Seq<RLWECiphertext>, ls: Seq<Vec<RGSWCiphertext>>, mid: Seq<Vec<RLWECiphertext>>, hash: &NaiveHash, mp: Map<usize, (usize, usize)>, is: Seq<usize>, w: bool, x: Seq<u64>, m: Seq<Seq<u64>>, sk: &RLWESecretKey, neg: &RGSWCiphertext, c: &Context, cols: usize, e: int)
    requires batched(old, new, qs, ys, ls, mid, neg, hash, c), asks_rows(qs, mp, w, sk, c, cols), hash.placed(mp, is, cols as int, is.len() as int), w ==> forall|k: int| 0 <= k < qs.len() && mp.contains_key(k as usize) ==> holds((#[trigger] qs[k]).data.sv(), x, sk.sv(), c),
        forall|k: int| 0 <= k < is.len() ==> #[trigger] is[k] < hash.input_domain, is_pow2(cols as nat), cols >= 2, key_ok(sk, neg, c),
        table_wf(old, qs.len(), cols as nat, c), hash.wf(), qs.len() <= usize::MAX, qs.len() * cols == hash.h_count * hash.input_domain, m.len() == hash.input_domain, old.len() > 0, shelf(old, hash, cols as int, m, sk.sv(), c, e),
    ensures shelf(new, hash, cols as int, after_batch(m, is, w, x), sk.sv(), c, imax(e, nb(c)) + batch_err(sk.sv(), c, neg, lg(cols as nat), hash.h_count as int)),
        // the answer of the row that carries item i is item i
        forall|r: usize| #[trigger] mp.contains_key(r) ==> r < qs.len() && keeps(ys[r as int].sv(), m[mp[r].1 as int], sk.sv(), c, e + read_err(sk.sv(), c, neg, lg(cols as nat))),
        forall|k: int| 0 <= k < is.len() ==> crate::naive_hash::row_of(mp, #[trigger] is[k]),
{
    let (rows, cl) = (qs.len(), cols as int);
    let (idx, ww, xs) = (row_idx(mp, rows), row_ops(mp, rows, w), Seq::new(rows, |r: int| x));
    lemma_cols(cols as nat);
    assert forall|k: int| 0 <= k < rows implies 0 <= idx[k] < cols && asks(&#[trigger] qs[k], idx[k], ww[k], sk, c, cols) by { assert(asks_row(qs[k], k, mp, w, sk, c, cols)); if mp.contains_key(k as usize) { assert(mp[k as usize].0 < cols); } }
    assert(asks_all(qs, idx, ww, sk, c, cols));
    assert(held(qs, ww, xs, sk, c));
    lemma_batch_queries(hash, mp, is, rows, cl, w);
    theorem_batch(old, new, qs, ys, ls, mid, hash, idx, ww, xs, m, sk, neg, c, cols, e);
    let (m2, m3) = (rewritten(hash, cl, idx, ww, xs, m), after_batch(m, is, w, x));
    assert forall|i: int| 0 <= i < m.len() implies m2[i] == m3[i] by {
        lemma_which(hash, cl, idx, ww, i, hash.h_count as nat);
        let u = which(hash, cl, idx, ww, i, hash.h_count as nat);
        assert(u >= 0 <==> w && is.contains(i as usize));
        if u >= 0 { lemma_hpos(hash, rows as int, cl, u, i); }
    }
    assert(m2 =~= m3);
    assert forall|r: usize| #[trigger] mp.contains_key(r) implies r < rows && keeps(ys[r as int].sv(), m[mp[r].1 as int], sk.sv(), c, e + read_err(sk.sv(), c, neg, lg(cols as nat))) by {
        let i = mp[r].1 as int;
        let h = choose|h: int| 0 <= h < hash.h_count && #[trigger] hash.pos(h, i) == r * cl + mp[r].0;
        reveal(crate::naive_hash::item_in);
        let k = choose|k: int| 0 <= k < is.len() && #[trigger] is[k] == mp[r].1;
        assert(hash.ok(h, i));
        lemma_hpos_is(hash, cl, h, i, r as int, mp[r].0 as int);
        lemma_hpos(hash, rows as int, cl, h, i);
        assert(idx[r as int] == mp[r].0);
        assert(idx[hpos(hash, cl, h, i).0 as int] == hpos(hash, cl, h, i).1);
    }
}
// a shelf whose error is below half a step decrypts to its items
pub proof fn theorem_shelf(db: Seq<Vec<RLWECiphertext>>, hash: &NaiveHash, cols: int, m: Seq<Seq<u64>>, s: Seq<u64>, c: &Context, e: int)
    requires shelf(db, hash, cols, m, s, c, e), c.wf(), s.len() == c.n(), e < c.codec.dl() / 2,
    ensures forall|i: int, h: int| hash.ok(h, i) ==> c.codec.pdec(phase(#[trigger] dat(db, hpos(hash, cols, h, i)), s)) == m[i],
{
    assert forall|i: int, h: int| hash.ok(h, i) implies c.codec.pdec(phase(#[trigger] dat(db, hpos(hash, cols, h, i)), s)) == m[i] by {
        assert(keeps(dat(db, hpos(hash, cols, h, i)), m[i], s, c, e));
        lemma_poly_decrypt(&c.codec, phase(dat(db, hpos(hash, cols, h, i)), s), m[i], e);
    }
}
// ---- client and server work with the same parameters
pub proof fn lemma_same_params(c: &Context, d: &Context, p: &TFHEParameters)
    requires from_params(c, p), from_params(d, p),
    ensures c.n() == d.n(), c.b() == d.b(), c.l() == d.l(), nb(c) == nb(d), c.codec.t() == d.codec.t(), c.codec.dl() == d.codec.dl(),
        forall|m: Seq<u64>| #[trigger] c.codec.penc(m) == d.codec.penc(m), forall|m: Seq<u64>| #[trigger] c.codec.pdec(m) == d.codec.pdec(m),
        forall|q: &ClientQuery, i: int, w: bool, sk: &RLWESecretKey, cols: usize| #[trigger] asks(q, i, w, sk, c, cols) ==> asks(q, i, w, sk, d, cols),
{
    let (x, y) = (c.codec.logt(), d.codec.logt());
    if x < y { lemma_pow2_strictly_increases(x, y); } else if y < x { lemma_pow2_strictly_increases(y, x); }
    assert(c.std == d.std && c.poly_size == d.poly_size && c.base_log == d.base_log && c.level_count == d.level_count);
    assert forall|m: Seq<u64>| #[trigger] c.codec.penc(m) == d.codec.penc(m) by { assert(c.codec.penc(m) =~= d.codec.penc(m)); }
    assert forall|m: Seq<u64>| #[trigger] c.codec.pdec(m) == d.codec.pdec(m) by { assert(c.codec.pdec(m) =~= d.codec.pdec(m)); }
    assert forall|q: &ClientQuery, i: int, w: bool, sk: &RLWESecretKey, cols: usize| #[trigger] asks(q, i, w, sk, c, cols) implies asks(q, i, w, sk, d, cols) by {
        assert forall|j: int| 0 <= j < lg(cols as nat) implies gswf(#[trigger] q.a@[j], d) by { assert(gswf(q.a@[j], c)); }
    }
}
// a table of one row: the query made for item i is to its position, where the item is
pub proof fn lemma_one_row(hash: &NaiveHash, m: Map<usize, (usize, usize)>, i: usize, cols: int) -> (h: int)
    requires hash.wf(), hash.placed(m, seq![i], cols, 1), cols == hash.h_count * hash.input_domain, cols > 0, cols <= usize::MAX, i < hash.input_domain,
    ensures hash.ok(h, i as int), m.contains_key(0), m[0].1 == i, m[0].0 == hash.pos(h, i as int), hpos(hash, cols, h, i as int).0 == 0, hpos(hash, cols, h, i as int).1 == m[0].0,
{
    reveal(crate::naive_hash::row_of);
    assert(crate::naive_hash::row_of(m, seq![i][0]));
    let r = choose|r: usize| #[trigger] m.contains_key(r) && m[r].1 == i;
    let h = choose|h: int| 0 <= h < hash.h_count && #[trigger] hash.pos(h, i as int) == r * cols + m[r].0;
    hash.lemma_slot(h, i as int);
    if r != 0 { assert(r * cols >= cols) by (nonlinear_arith) requires r >= 1, cols > 0; }
    assert(hash.pos(h, i as int) < cols) by { assert(hash.tables@[hash.slot(h, i as int)] < hash.h_count * hash.input_domain); }
    assert(r == 0);
    assert(r * cols == 0) by (nonlinear_arith) requires r == 0;
    lemma_hpos_is(hash, cols, h, i as int, 0, m[0].0 as int);
    h
}
// ---- queries (C07)
// the sizes of all parts of a query
pub open spec fn shape(q: &ClientQuery) -> (nat, Seq<nat>, nat, nat) { (q.a@.len(), Seq::new(q.a@.len(), |j: int| q.a@[j].sv().len()), q.op.sv().len(), q.data.sv().len()) }
pub proof fn theorem_shape(q: &ClientQuery, r: &ClientQuery, i: int, j: int, w: bool, v: bool, sk: &RLWESecretKey, c: &Context, cols: usize)
    requires asks(q, i, w, sk, c, cols), asks(r, j, v, sk, c, cols),
    ensures shape(q) == shape(r), shape(q).0 == lg(cols as nat),
{
    assert forall|k: int| 0 <= k < lg(cols as nat) implies (#[trigger] q.a@[k]).sv().len() == r.a@[k].sv().len() by { assert(gswf(q.a@[k], c) && gswf(r.a@[k], c)); }
    assert(shape(q).1 =~= shape(r).1);
}
// no two parts of the queries of a batch are the same encryption; nor are parts of queries made later
pub open spec fn part(q: &ClientQuery, j: int) -> Seq<u64> { if j < q.a@.len() { q.a@[j].sv() } else if j == q.a@.len() { q.op.sv() } else { q.data.sv() } }
pub open spec fn numbered(q: &ClientQuery, s: Seq<u64>, root: u128, f: Seq<nat>, k: int, len: int) -> bool {
    &&& f.len() == q.a@.len() + 2 && (forall|j: int| 0 <= j < f.len() ==> fresh(part(q, j), s, root, #[trigger] f[j]))
    &&& (forall|j: int| 0 <= j < f.len() ==> k <= #[trigger] f[j] < k + len) && (forall|i: int, j: int| 0 <= i < j < f.len() ==> f[i] != f[j])
}
pub proof fn lemma_numbered(q: &ClientQuery, s: Seq<u64>, root: u128, k: int, len: int) -> (f: Seq<nat>)
    requires fresh_query(q, s, root, k, len), ensures numbered(q, s, root, f, k, len),
{
    reveal(fresh_query);
    let (ka, ko, kd) = choose|ka: int, ko: int, kd: int| #[trigger] fresh_at(q, s, root, k, ka, ko, kd, len);
    let n = q.a@.len();
    let f = Seq::new(n + 2, |j: int| if j < n { (k + ka + j) as nat } else if j == n { (k + ko) as nat } else { (k + kd) as nat });
    assert forall|j: int| 0 <= j < f.len() implies fresh(part(q, j), s, root, #[trigger] f[j]) by { if j < n { assert(fresh(q.a@[j].sv(), s, root, (k + ka + j) as nat)); } }
    f
}
pub proof fn theorem_fresh(qs: Seq<ClientQuery>, s: Seq<u64>, root: u128, k: int, len: int, r: int, t: int) -> (o: (Seq<nat>, Seq<nat>))
    requires fresh_rows(qs, s, root, k, len), 0 <= r < t < qs.len(),
    ensures numbered(&qs[r], s, root, o.0, k + r * len, len), numbered(&qs[t], s, root, o.1, k + t * len, len), forall|i: int, j: int| 0 <= i < o.0.len() && 0 <= j < o.1.len() ==> #[trigger] o.0[i] != #[trigger] o.1[j],
{
    assert(fresh_query(&qs[r], s, root, k + r * len, len) && fresh_query(&qs[t], s, root, k + t * len, len));
    let f = lemma_numbered(&qs[r], s, root, k + r * len, len);
    let g = lemma_numbered(&qs[t], s, root, k + t * len, len);
    assert(len >= 0) by { assert(f[0] < k + r * len + len); }
    assert(k + r * len + len <= k + t * len) by (nonlinear_arith) requires r + 1 <= t, len >= 0;
    (f, g)
}
// ---- the initial database decrypts to its items in every position (C08)
pub proof fn theorem_stocked(db: Seq<Vec<RLWECiphertext>>, hash: &NaiveHash, cols: int, m: Seq<Seq<u64>>, s: Seq<u64>, c: &Context)
    requires stocked(db, hash, cols, m, s, c), c.wf(), s.len() == c.n(), nb(c) < c.codec.dl() / 2,
    ensures forall|i: int, h: int| hash.ok(h, i) ==> c.codec.pdec(phase(#[trigger] dat(db, hpos(hash, cols, h, i)), s)) == m[i],
{ theorem_shelf(db, hash, cols, m, s, c, nb(c)); }
// ---- the contracts compose: set up a database, write a batch of items, read a batch, as a user would (never run; only its proof matters)
#[verifier::spinoff_prover]
fn write_then_read(rows: usize, cols: usize, hash: &NaiveHash, params: TFHEParameters, is: &[usize], js: &[usize], alpha: &PlaintextList<Vec<Scalar>>)
    requires 2 <= params.plaintext_modulus, is_pow2(params.plaintext_modulus as nat), fft_size(params.polynomial_size as nat), 0 < params.polynomial_size, 2 * params.polynomial_size <= usize::MAX,
        0 < params.base_log * params.level_count < 64, 0 < params.negs_base_log * params.negs_level_count < 64,
        hash.wf(), hash.input_domain > 0, rows * cols == hash.input_domain * hash.h_count, rows * cols <= usize::MAX, is_pow2(cols as nat), cols >= 2,
        forall|k: int| 0 <= k < is@.len() ==> #[trigger] is@[k] < hash.input_domain, forall|j: int, k: int| 0 <= j < k < is@.len() ==> is@[j] != is@[k],
        forall|k: int| 0 <= k < js@.len() ==> #[trigger] js@[k] < hash.input_domain, forall|j: int, k: int| 0 <= j < k < js@.len() ==> js@[j] != js@[k],
        alpha.sv().len() == params.polynomial_size,
{
    let ghost prm = params;
    let (mut client, mut server, pts) = setup_random_oram(rows, cols, hash, params);
    let ghost (m0, s, c) = (psv(pts@), client.sk.sv(), server.ctx);
    let ghost neg = server.neg_s;
    assert(hash.input_domain * hash.h_count == hash.h_count * hash.input_domain) by (nonlinear_arith);
    proof { lemma_same_params(&client.ctx, &c, &prm); lemma_cols(cols as nat); }
    assert(key_ok(&client.sk, &neg, &c));
    assert(shelf(server.data@, hash, cols as int, m0, s, &c, nb(&c))) by {
        assert forall|i: int, h: int| hash.ok(h, i) implies keeps(#[trigger] dat(server.data@, hpos(hash, cols as int, h, i)), m0[i], s, &c, nb(&c)) by { assert(keeps(dat(server.data@, hpos(hash, cols as int, h, i)), m0[i], s, &client.ctx, nb(&client.ctx))); }
    }
    let ghost d0 = server.data@;
    let ghost client0 = client;
    let qs = client.gen_write_query_batch(is, alpha, hash);
    proof { lemma_same_params(&client.ctx, &c, &prm); }
    let ghost mp = choose|m: Map<usize, (usize, usize)>| #[trigger] hash.placed(m, is@, cols as int, is@.len() as int) && asks_rows(qs@, m, true, &client0.sk, &client0.ctx, cols)
        && (forall|k: int| 0 <= k < qs@.len() && m.contains_key(k as usize) ==> holds((#[trigger] qs@[k]).data.sv(), alpha.sv(), client0.sk.sv(), &client0.ctx));
    assert forall|k: int| 0 <= k < qs@.len() implies asks_row(#[trigger] qs@[k], k, mp, true, &client0.sk, &c, cols) && dwf(server.data@[k]@, &qs@[k], &c) by {
        assert(asks_row(qs@[k], k, mp, true, &client0.sk, &client0.ctx, cols));
        assert(server.data@[k]@.len() == cols && all_wf(server.data@[k]@, c.n()));
    }
    let ghost qv = qs@;
    let (ys, t) = server.process_batch(qs, hash);
    let ghost e1 = nb(&c) + batch_err(s, &c, &neg, lg(cols as nat), hash.h_count as int);
    let ghost m1 = after_batch(m0, is@, true, alpha.sv());
    proof {
        let (ls, mid) = choose|ls: Seq<Vec<RGSWCiphertext>>, mid: Seq<Vec<RLWECiphertext>>| #[trigger] batched(d0, server.data@, qv, ys@, ls, mid, &neg, hash, &c);
        assert(table_wf(d0, rows as nat, cols as nat, &c));
        assert(asks_rows(qv, mp, true, &client.sk, &c, cols));
        theorem_items(d0, server.data@, qv, ys@, ls, mid, hash, mp, is@, true, alpha.sv(), m0, &client.sk, &neg, &c, cols, nb(&c));
        // every copy of every item, after the round
        assert(shelf(server.data@, hash, cols as int, m1, s, &c, e1));
        if e1 < c.codec.dl() / 2 { theorem_shelf(server.data@, hash, cols as int, m1, s, &c, e1); }
    }
    let ghost d1 = server.data@;
    let ghost client1 = client;
    let rs = client.gen_read_query_batch(js, hash);
    proof { lemma_same_params(&client.ctx, &c, &prm); }
    let ghost mq = choose|m: Map<usize, (usize, usize)>| #[trigger] hash.placed(m, js@, cols as int, js@.len() as int) && asks_rows(rs@, m, false, &client1.sk, &client1.ctx, cols);
    assert forall|k: int| 0 <= k < rs@.len() implies asks_row(#[trigger] rs@[k], k, mq, false, &client1.sk, &c, cols) && dwf(server.data@[k]@, &rs@[k], &c) by {
        assert(asks_row(rs@[k], k, mq, false, &client1.sk, &client1.ctx, cols));
        assert(server.data@[k]@.len() == server.data@[0]@.len() && all_wf(server.data@[k]@, c.n()));
        assert(server.data@[0]@.len() == cols);
    }
    let ghost rv = rs@;
    let (zs, u) = server.process_batch(rs, hash);
    proof {
        let (ls, mid) = choose|ls: Seq<Vec<RGSWCiphertext>>, mid: Seq<Vec<RLWECiphertext>>| #[trigger] batched(d1, server.data@, rv, zs@, ls, mid, &neg, hash, &c);
        assert(asks_rows(rv, mq, false, &client.sk, &c, cols));
        assert(d1[0]@.len() == cols);
        assert forall|r: int| 0 <= r < rows implies (#[trigger] d1[r])@.len() == cols && all_wf(d1[r]@, c.n()) by { assert(d1[r]@.len() == d1[0]@.len()); }
        theorem_items(d1, server.data@, rv, zs@, ls, mid, hash, mq, js@, false, alpha.sv(), m1, &client.sk, &neg, &c, cols, e1);
        // every requested item is answered with its current value
        assert forall|r: usize| mq.contains_key(r) && e1 + read_err(s, &c, &neg, lg(cols as nat)) < c.codec.dl() / 2 implies #[trigger] decrypts(zs@[r as int], &client.sk, &c, m1[mq[r].1 as int]) by {
            assert(keeps(zs@[r as int].sv(), m1[mq[r].1 as int], s, &c, e1 + read_err(s, &c, &neg, lg(cols as nat))));
            lemma_poly_decrypt(&c.codec, zs@[r as int].ph(&client.sk), m1[mq[r].1 as int], e1 + read_err(s, &c, &neg, lg(cols as nat)));
        }
    }
}
