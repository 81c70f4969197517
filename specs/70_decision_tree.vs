#module decision_tree
#ghost
broadcast use crate::shim::bits;
// ---- plaintext trees: what they denote
pub open spec fn is_leaf_or_none(o: Option<Node>) -> bool { match o { Some(Node::Internal(_)) => false, _ => true } }
// every node tests <= and a feature of the vector
pub open spec fn evalable(n: Node, m: int) -> bool decreases n {
    match n {
        Node::Leaf(_) => true,
        Node::Internal(b) => b.op is LEQ && b.feature < m
            && (match b.left { Some(l) => evalable(l, m), None => true }) && (match b.right { Some(r) => evalable(r, m), None => true }),
    }
}
// the label of the leaf reached; a missing subtree gives 0
pub open spec fn label(n: Node, f: Seq<usize>) -> int decreases n {
    match n {
        Node::Leaf(x) => x as int,
        Node::Internal(b) => if f[b.feature as int] <= b.threshold {
            match b.left { Some(l) => label(l, f), None => 0 }
        } else {
            match b.right { Some(r) => label(r, f), None => 0 }
        },
    }
}
pub open spec fn olabel(o: Option<Node>, f: Seq<usize>) -> int { match o { Some(n) => label(n, f), None => 0 } }
pub proof fn lemma_label(n: Node, f: Seq<usize>) ensures 0 <= label(n, f) <= usize::MAX decreases n {
    match n {
        Node::Leaf(_) => {},
        Node::Internal(b) => {
            match b.left { Some(l) => lemma_label(l, f), None => {} }
            match b.right { Some(r) => lemma_label(r, f), None => {} }
        },
    }
}
pub open spec fn n_leaf(n: Node) -> int decreases n {
    match n {
        Node::Leaf(_) => 1,
        Node::Internal(b) => (match b.left { Some(l) => n_leaf(l), None => 0 }) + (match b.right { Some(r) => n_leaf(r), None => 0 }),
    }
}
pub open spec fn n_int(n: Node) -> int decreases n {
    match n {
        Node::Leaf(_) => 0,
        Node::Internal(b) => 1 + (match b.left { Some(l) => n_int(l), None => 0 }) + (match b.right { Some(r) => n_int(r), None => 0 }),
    }
}
pub open spec fn maxi(a: int, b: int) -> int { if a > b { a } else { b } }
pub open spec fn depth(n: Node) -> int decreases n {
    match n {
        Node::Leaf(_) => 0,
        Node::Internal(b) => 1 + maxi(match b.left { Some(l) => depth(l), None => 0 }, match b.right { Some(r) => depth(r), None => 0 }),
    }
}
pub open spec fn max_feat(n: Node) -> int decreases n {
    match n {
        Node::Leaf(_) => 0,
        Node::Internal(b) => maxi(b.feature as int, maxi(match b.left { Some(l) => max_feat(l), None => 0 }, match b.right { Some(r) => max_feat(r), None => 0 })),
    }
}
pub proof fn lemma_counts(n: Node) ensures 0 <= n_int(n), 0 <= n_leaf(n) <= n_int(n) + 1, 0 <= depth(n) <= n_int(n), 0 <= max_feat(n) <= usize::MAX decreases n {
    match n {
        Node::Leaf(_) => {},
        Node::Internal(b) => {
            match b.left { Some(l) => lemma_counts(l), None => {} }
            match b.right { Some(r) => lemma_counts(r), None => {} }
        },
    }
}
pub proof fn lemma_kids(n: Node)
    ensures 0 <= n_int(n), 0 <= n_leaf(n) <= n_int(n) + 1, 0 <= depth(n) <= n_int(n),
        match n { Node::Internal(b) => n_int(n) == 1 + on_int(b.left) + on_int(b.right) && on_int(b.left) >= 0 && on_int(b.right) >= 0
            && (match b.left { Some(l) => 0 <= n_leaf(l) <= n_int(l) + 1 && 0 <= depth(l) <= n_int(l), None => true })
            && (match b.right { Some(l) => 0 <= n_leaf(l) <= n_int(l) + 1 && 0 <= depth(l) <= n_int(l), None => true })
            && preorder(n) == seq![bare(*b)] + opreorder(b.left) + opreorder(b.right), _ => preorder(n).len() == 0 },
{
    lemma_counts(n);
    match n {
        Node::Leaf(_) => {},
        Node::Internal(b) => {
            match b.left { Some(l) => lemma_counts(l), None => {} }
            match b.right { Some(r) => lemma_counts(r), None => {} }
        },
    }
}
// the labels of the leaves, left to right
pub open spec fn leaves(n: Node) -> Seq<usize> decreases n {
    match n {
        Node::Leaf(x) => seq![x],
        Node::Internal(b) => (match b.left { Some(l) => leaves(l), None => Seq::empty() }) + (match b.right { Some(r) => leaves(r), None => Seq::empty() }),
    }
}
pub proof fn lemma_leaves(n: Node) ensures leaves(n).len() == n_leaf(n) decreases n {
    match n {
        Node::Leaf(_) => {},
        Node::Internal(b) => {
            match b.left { Some(l) => lemma_leaves(l), None => {} }
            match b.right { Some(r) => lemma_leaves(r), None => {} }
        },
    }
}
// an internal node without its subtrees
pub open spec fn bare(b: Internal) -> Internal { Internal { left: Some(Node::Leaf(0)), right: Some(Node::Leaf(0)), ..b } }
// the internal nodes in depth-first, left to right order
pub open spec fn preorder(n: Node) -> Seq<Internal> decreases n {
    match n {
        Node::Leaf(_) => Seq::empty(),
        Node::Internal(b) => seq![bare(*b)] + (match b.left { Some(l) => preorder(l), None => Seq::empty() }) + (match b.right { Some(r) => preorder(r), None => Seq::empty() }),
    }
}
pub open spec fn opreorder(o: Option<Node>) -> Seq<Internal> { match o { Some(n) => preorder(n), None => Seq::empty() } }
pub proof fn lemma_preorder(n: Node) ensures preorder(n).len() == n_int(n) decreases n {
    match n {
        Node::Leaf(_) => {},
        Node::Internal(b) => {
            match b.left { Some(l) => lemma_preorder(l), None => {} }
            match b.right { Some(r) => lemma_preorder(r), None => {} }
        },
    }
}
// the same tree with the internal nodes numbered from i
pub open spec fn numbered(n: Node, i: int) -> Node decreases n {
    match n {
        Node::Leaf(x) => Node::Leaf(x),
        Node::Internal(b) => {
            let (l, k) = match b.left { Some(l) => (Some(numbered(l, i + 1)), n_int(l)), None => (None, 0) };
            let r = match b.right { Some(r) => Some(numbered(r, i + 1 + k)), None => None };
            Node::Internal(Box::new(Internal { index: i as usize, left: l, right: r, ..*b }))
        },
    }
}
pub open spec fn onumbered(o: Option<Node>, i: int) -> Option<Node> { match o { Some(n) => Some(numbered(n, i)), None => None } }
pub open spec fn on_int(o: Option<Node>) -> int { match o { Some(n) => n_int(n), None => 0 } }
// numbering gives the k-th node in depth-first order the index i + k
pub proof fn lemma_numbered(n: Node, i: int)
    requires 0 <= i, i + n_int(n) <= usize::MAX,
    ensures n_int(numbered(n, i)) == n_int(n), preorder(numbered(n, i)).len() == n_int(n),
        forall|k: int| 0 <= k < n_int(n) ==> (#[trigger] preorder(numbered(n, i))[k]).index == i + k,
        forall|k: int| 0 <= k < n_int(n) ==> #[trigger] preorder(numbered(n, i))[k] == (Internal { index: (i + k) as usize, ..preorder(n)[k] }),
    decreases n
{
    lemma_preorder(n);
    lemma_preorder(numbered(n, i));
    lemma_counts(n);
    match n {
        Node::Leaf(_) => {},
        Node::Internal(b) => {
            let kl = on_int(b.left);
            match b.left { Some(l) => { lemma_counts(l); lemma_preorder(l); }, None => {} }
            match b.right { Some(r) => { lemma_counts(r); lemma_preorder(r); }, None => {} }
            match b.left { Some(l) => { lemma_numbered(l, i + 1); }, None => {} }
            match b.right { Some(r) => { lemma_numbered(r, i + 1 + kl); }, None => {} }
            let p = preorder(numbered(n, i));
            let q = preorder(n);
            let pl = opreorder(onumbered(b.left, i + 1));
            let pr = opreorder(onumbered(b.right, i + 1 + kl));
            assert(p =~= seq![bare(Internal { index: i as usize, ..*b })] + pl + pr);
            assert(q =~= seq![bare(*b)] + opreorder(b.left) + opreorder(b.right));
            assert forall|k: int| 0 <= k < n_int(n) implies #[trigger] p[k] == (Internal { index: (i + k) as usize, ..q[k] }) by {
                if k == 0 {} else if k <= kl { assert(p[k] == pl[k - 1]); assert(q[k] == opreorder(b.left)[k - 1]); }
                else { assert(p[k] == pr[k - 1 - kl]); assert(q[k] == opreorder(b.right)[k - 1 - kl]); }
            }
        },
    }
}
// the complete tree of depth d; its first leaf is 1 (unless a leaf was labelled already), the others 0
pub open spec fn full(d: nat, done: bool) -> Node decreases d {
    if d == 0 { Node::Leaf(if done { 0 } else { 1 }) }
    else { Node::Internal(Box::new(Internal { threshold: 0, feature: 0, index: 0, op: Op::LEQ, left: Some(full((d - 1) as nat, done)), right: Some(full((d - 1) as nat, true)) })) }
}
pub proof fn lemma_full(d: nat, done: bool)
    ensures n_leaf(full(d, done)) == pow2(d), n_int(full(d, done)) == pow2(d) - 1, depth(full(d, done)) == d, max_feat(full(d, done)) == 0,
        leaves(full(d, done)).len() == pow2(d),
        leaves(full(d, done))[0] == if done { 0 } else { 1int },
        forall|k: int| 1 <= k < pow2(d) ==> #[trigger] leaves(full(d, done))[k] == 0,
    decreases d
{
    lemma_pow2_pos(d);
    lemma_pow2_64();
    lemma_leaves(full(d, done));
    if d > 0 {
        let e = (d - 1) as nat;
        lemma_full(e, done); lemma_full(e, true); lemma_pow2_unfold(d); lemma_pow2_pos(e);
        let a = leaves(full(e, done)); let b = leaves(full(e, true));
        assert(leaves(full(d, done)) =~= a + b);
        assert forall|k: int| 1 <= k < pow2(d) implies #[trigger] (a + b)[k] == 0 by {
            if k >= pow2(e) { assert((a + b)[k] == b[k - pow2(e)]); }
        }
    }
}
// truncation: without the subtrees that have no non-zero leaf
pub open spec fn nonzero(n: Node) -> bool decreases n {
    match n {
        Node::Leaf(x) => x != 0,
        Node::Internal(b) => (match b.left { Some(l) => nonzero(l), None => false }) || (match b.right { Some(r) => nonzero(r), None => false }),
    }
}
pub open spec fn ononzero(o: Option<Node>) -> bool { match o { Some(n) => nonzero(n), None => false } }
pub open spec fn trunc(o: Option<Node>) -> Option<Node> decreases o {
    match o {
        None => None,
        Some(Node::Leaf(x)) => if x == 0 { None } else { o },
        Some(Node::Internal(b)) => if !nonzero(Node::Internal(b)) { None } else {
            Some(Node::Internal(Box::new(Internal { left: trunc(b.left), right: trunc(b.right), ..*b })))
        },
    }
}
// no subtree is left that has only zero leaves
pub open spec fn pruned(n: Node) -> bool decreases n {
    nonzero(n) && match n { Node::Leaf(_) => true, Node::Internal(b) => (match b.left { Some(l) => pruned(l), None => true }) && (match b.right { Some(r) => pruned(r), None => true }) }
}
pub proof fn lemma_trunc(o: Option<Node>, f: Seq<usize>)
    ensures trunc(o) is Some <==> ononzero(o), olabel(trunc(o), f) == olabel(o, f),
        match trunc(o) { Some(n) => pruned(n), None => true },
    decreases o
{
    match o {
        None => {},
        Some(Node::Leaf(_)) => {},
        Some(Node::Internal(b)) => {
            lemma_trunc(b.left, f); lemma_trunc(b.right, f);
            assert(nonzero(Node::Internal(b)) == (ononzero(b.left) || ononzero(b.right)));
        },
    }
}
pub proof fn lemma_otrunc(o: Option<Node>)
    ensures match o { Some(Node::Internal(b)) => (trunc(b.left) is Some <==> ononzero(b.left)) && (trunc(b.right) is Some <==> ononzero(b.right)), _ => true },
{
    match o { Some(Node::Internal(b)) => { lemma_trunc(b.left, Seq::empty()); lemma_trunc(b.right, Seq::empty()); }, _ => {} }
}
#keep Node.Default
#keep Node.Clone
#fn Node.Default::default
#ret r
#sig
ensures r == full(1, false),
#fn Node.Clone::clone
#opt optclone:left,right
#ret r
#sig
ensures r == *self,
#fn Node::inner_value
#ret r
#sig
ensures self is Internal, Node::Internal(Box::new(r)) == self,
#panic self is Leaf
#fn Node::new_with_depth
#ret r
#sig
ensures r == full(d as nat, false),
#fn gen_full_tree
#ret r
#sig
ensures r == full(d as nat, *old(processed_one_leaf)), *final(processed_one_leaf),
decreases d
#fn Node::fix_index
#ret r
#sig
requires n_int(*old(self)) <= usize::MAX,
ensures (*old(self)) is Internal, *final(self) == numbered(*old(self), 0), r == n_int(*old(self)) - 1,
    forall|k: int| 0 <= k < n_int(*old(self)) ==> (#[trigger] preorder(*final(self))[k]).index == k,
#panic !((*old(self)) is Internal)
#at start
proof { lemma_numbered(*self, 0); }
#fn fix_index
#ret r
#sig
requires i + n_int(Node::Internal(Box::new(*old(node)))) <= usize::MAX,
ensures Node::Internal(Box::new(*final(node))) == numbered(Node::Internal(Box::new(*old(node))), i as int), r == i + n_int(Node::Internal(Box::new(*old(node)))) - 1,
decreases *old(node)
#at start
proof { reveal_with_fuel(numbered, 3); reveal_with_fuel(n_int, 3); }
proof { lemma_kids(Node::Internal(Box::new(*node))); }
#fn Node::flatten
#ret r
#sig
ensures r@ == preorder(*self), r@.len() == n_int(*self),
#at start
proof { lemma_preorder(*self); }
#fn flatten_tree
#sig
ensures final(out)@ == old(out)@ + preorder(Node::Internal(Box::new(*node))),
decreases *node
#at start
proof { lemma_kids(Node::Internal(Box::new(*node))); }
#at ret
proof {
    let f = bare(*node);
    assert(old(out)@ + (seq![f] + opreorder(node.left) + opreorder(node.right)) =~= old(out)@.push(f) + opreorder(node.left) + opreorder(node.right));
}
#fn Node::eval
#ret r
#sig
requires evalable(*self, features@.len() as int),
ensures r == label(*self, features@),
#at start
proof { lemma_label(*self, features@); }
#fn eval_node
#sig
requires b <= 1, evalable(*node, features@.len() as int), b == 1 ==> *old(out) + label(*node, features@) <= usize::MAX,
ensures *final(out) == *old(out) + if b == 1 { label(*node, features@) } else { 0 },
decreases *node
#at start
proof {
    assert(b * (1 - b) == 0) by (nonlinear_arith) requires b == 0 || b == 1;
    lemma_label(*node, features@);
    match *node { Node::Leaf(x) => { assert(x * b == if b == 1 { x as int } else { 0 }) by (nonlinear_arith) requires b == 0 || b == 1; }, _ => {} }
}
#fn Node::count_leaf
#ret r
#sig
requires n_int(*self) < usize::MAX,
ensures r == n_leaf(*self),
decreases n_int(*self)
#at start
proof { lemma_kids(*self); }
#fn Node::count_internal
#ret r
#sig
requires n_int(*self) <= usize::MAX,
ensures r == n_int(*self),
decreases n_int(*self)
#at start
proof { lemma_kids(*self); }
#fn Node::count_depth
#ret r
#sig
requires n_int(*self) <= usize::MAX,
ensures r == depth(*self),
decreases n_int(*self)
#at start
proof { lemma_kids(*self); }
#fn Node::max_feature_index
#ret r
#sig
ensures r == max_feat(*self),
decreases n_int(*self)
#at start
proof { lemma_kids(*self); }
#fn trunc_tree
#ret r
#sig
ensures r == trunc(*root), forall|f: Seq<usize>| #[trigger] olabel(r, f) == olabel(*root, f), match r { Some(n) => pruned(n), None => !ononzero(*root) },
decreases *root
#at start
proof { assert forall|f: Seq<usize>| #[trigger] olabel(trunc(*root), f) == olabel(*root, f) by { lemma_trunc(*root, f); }
    lemma_trunc(*root, Seq::empty()); lemma_otrunc(*root); }
#ghost
// ---- demultiplexing
use crate::ring::*;
use crate::rl::*;
use crate::rt::*;
use crate::cc::*;
use crate::ccf::{ep, fft_size};
use crate::bitvec::prelude::*;
use crate::rlwe::{lemma_join, lemma_split, rows, all_wf, lg, lemma_lg};
use crate::utils::is_log2;
pub open spec fn grows(v: Seq<RGSWCiphertext>) -> Seq<Seq<u64>> { Seq::new(v.len(), |i: int| v[i].sv()) }
pub open spec fn bits_wf(v: Seq<RGSWCiphertext>, n: nat, b: int, l: nat) -> bool {
    0 < b * l < 64 && forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).wf() && v[i].n() == n && v[i].b() == b && v[i].l() == l
}
// first the half selected by an encrypted one, then the half selected by an encrypted zero
pub open spec fn demuxed(gs: Seq<Seq<u64>>, n: nat, b: int, l: nat, level: int, d: Seq<u64>) -> Seq<Seq<u64>> decreases gs.len() - level {
    if level >= gs.len() { seq![d] } else {
        let left = ep(gs[level], n, b, l, d);
        demuxed(gs, n, b, l, level + 1, left) + demuxed(gs, n, b, l, level + 1, psub(d, left))
    }
}
pub proof fn lemma_demux_len(gs: Seq<Seq<u64>>, n: nat, b: int, l: nat, level: int, d: Seq<u64>)
    requires 0 <= level <= gs.len(),
    ensures demuxed(gs, n, b, l, level, d).len() == pow2((gs.len() - level) as nat),
    decreases gs.len() - level
{
    lemma_pow2_64();
    if level < gs.len() {
        let left = ep(gs[level], n, b, l, d);
        lemma_demux_len(gs, n, b, l, level + 1, left); lemma_demux_len(gs, n, b, l, level + 1, psub(d, left));
        lemma_pow2_unfold((gs.len() - level) as nat);
    }
}
pub proof fn lemma_demux_step(gs: Seq<Seq<u64>>, n: nat, b: int, l: nat, level: int, d: Seq<u64>)
    requires 0 <= level < gs.len(),
    ensures demuxed(gs, n, b, l, level, d) == demuxed(gs, n, b, l, level + 1, ep(gs[level], n, b, l, d)) + demuxed(gs, n, b, l, level + 1, psub(d, ep(gs[level], n, b, l, d))),
        level + 1 == gs.len() ==> demuxed(gs, n, b, l, level, d) == seq![ep(gs[level], n, b, l, d), psub(d, ep(gs[level], n, b, l, d))],
        pow2((gs.len() - level) as nat) == 2 * pow2((gs.len() - level - 1) as nat), pow2(0) == 1,
{
    lemma_pow2_unfold((gs.len() - level) as nat); lemma_pow2_64();
    if level + 1 == gs.len() {
        let (x, y) = (ep(gs[level], n, b, l, d), psub(d, ep(gs[level], n, b, l, d)));
        assert(demuxed(gs, n, b, l, level + 1, x) == seq![x]); assert(demuxed(gs, n, b, l, level + 1, y) == seq![y]);
        assert(seq![x] + seq![y] =~= seq![x, y]);
    }
}
pub proof fn lemma_rows_cat(r: Seq<RLWECiphertext>, x: Seq<u64>, y: Seq<u64>, gs: Seq<Seq<u64>>, n: nat, b: int, l: nat, level: int)
    ensures r.len() == 2 && r[0].sv() == x && r[1].sv() == y ==> rows(r) == seq![x, y],
{ if r.len() == 2 && r[0].sv() == x && r[1].sv() == y { assert(rows(r) =~= seq![x, y]); } }
pub proof fn lemma_rows_add(p: Seq<RLWECiphertext>, q: Seq<RLWECiphertext>) ensures rows(p + q) == rows(p) + rows(q) { assert(rows(p + q) =~= rows(p) + rows(q)); }
pub proof fn lemma_log2_le(n: nat)
    requires is_pow2(n), n <= usize::MAX,
    ensures lg(n) <= 63, n == pow2(lg(n)),
{
    let k = choose|k: nat| n == pow2(k);
    lemma_pow2_64();
    if k > 63 { if k > 64 { lemma_pow2_strictly_increases(64, k); } }
}
#fn demux_rec
#sig
requires level < bits@.len(), ctx.wf(), b.wf(), b.n() == ctx.n(), old(buf).n() == ctx.n(), bits_wf(bits@, ctx.n(), bits@[0].b(), bits@[0].l()),
ensures all_wf(r@, ctx.n()), rows(r@) == demuxed(grows(bits@), ctx.n(), bits@[0].b(), bits@[0].l(), level as int, b.sv()), r@.len() == pow2((bits@.len() - level) as nat), final(buf).n() == old(buf).n(),
decreases bits@.len() - level
#at start
let ghost (__d, __n, __b, __l) = (b.sv(), ctx.n(), bits@[0].b(), bits@[0].l());
let ghost __lf = ep(bits@[level as int].sv(), __n, __b, __l, __d);
proof {
    lemma_demux_len(grows(bits@), __n, __b, __l, level as int, __d); l_ep_len(bits@[level as int].sv(), __n, __b, __l, __d, __l); l_zero_unit(__lf);
    lemma_demux_step(grows(bits@), __n, __b, __l, level as int, __d);
}
#at ret
proof { lemma_rows_cat(__r@, __lf, psub(__d, __lf), grows(bits@), __n, __b, __l, level as int); }
#fn demux_with
#sig
requires bits@.len() > 0, ctx.wf(), b.wf(), b.n() == ctx.n(), old(buf).n() == ctx.n(), bits_wf(bits@, ctx.n(), bits@[0].b(), bits@[0].l()),
ensures all_wf(r@, ctx.n()), rows(r@) == demuxed(grows(bits@), ctx.n(), bits@[0].b(), bits@[0].l(), 0, b.sv()), r@.len() == pow2(bits@.len()), final(buf).n() == old(buf).n(),
#fn demux
#sig
requires bits@.len() > 0, ctx.wf(), old(buf).n() == ctx.n(), bits_wf(bits@, ctx.n(), bits@[0].b(), bits@[0].l()),
ensures all_wf(r@, ctx.n()), rows(r@) == demuxed(grows(bits@), ctx.n(), bits@[0].b(), bits@[0].l(), 0, pzero(ctx.n()) + pconst(ctx.n(), ctx.codec.enc(1))), r@.len() == pow2(bits@.len()), final(buf).n() == old(buf).n(),
#at after:let:c#0
proof { lemma_join(pzero(2 * ctx.n()), ctx.n()); }
#at before:demux_with#0
proof { assert(c.sv() =~= pzero(ctx.n()) + pconst(ctx.n(), ctx.codec.enc(1))); }
#fn bit_decomposed_rgsw
#sig
requires is_pow2(n as nat), sk.wf(), old(ctx).wf(), sk.n() == old(ctx).n(), old(ctx).base_log.0 > 0, old(ctx).level_count.0 > 0, old(ctx).base_log.0 * old(ctx).level_count.0 <= 64,
ensures r@.len() == lg(n as nat), forall|j: int| 0 <= j < r@.len() ==> (#[trigger] r@[j]).wf() && r@[j].0.poly_size == old(ctx).poly_size && r@[j].0.base_log == old(ctx).base_log && r@[j].0.levels == old(ctx).level_count
    && is_rgsw(r@[j].sv(), sk.n(), r@[j].l(), r@[j].b(), sk.sv(), pconst(sk.n(), if nbit(i as int, r@.len() - 1 - j) { 0 } else { 1 }), old(ctx).std.nb() as int)
    && fresh(r@[j].sv(), sk.sv(), old(ctx).encryption_generator.root(), (old(ctx).encryption_generator.ctr() + j) as nat),
    final(ctx).same(old(ctx)), final(ctx).secret_generator == old(ctx).secret_generator, final(ctx).random_generator == old(ctx).random_generator,
    final(ctx).encryption_generator.root() == old(ctx).encryption_generator.root(), final(ctx).encryption_generator.ctr() == old(ctx).encryption_generator.ctr() + r@.len(),
#at start
let ghost __lo = lg(n as nat) as int;
proof { lemma_log2_le(n as nat); lemma_pow2_pos(lg(n as nat)); assert forall|r: int| #[trigger] is_log2(n as int, r) implies r == lg(n as nat) by { lemma_lg(n as nat, r); } }
#loop 0
invariant __n0 == __lo, a@.len() == __lo, i_bits@.len() == __lo, ctx.same(old(ctx)), ctx.wf(), ctx.secret_generator == old(ctx).secret_generator, ctx.random_generator == old(ctx).random_generator,
  ctx.encryption_generator.root() == old(ctx).encryption_generator.root(), ctx.encryption_generator.ctr() == old(ctx).encryption_generator.ctr() + __k0,
  forall|j: int| 0 <= j < __lo ==> (#[trigger] a@[j]).wf() && a@[j].0.poly_size == ctx.poly_size && a@[j].0.base_log == ctx.base_log && a@[j].0.levels == ctx.level_count,
  forall|j: int| 0 <= j < __k0 ==> is_rgsw((#[trigger] a@[j]).sv(), sk.n(), a@[j].l(), a@[j].b(), sk.sv(), pconst(sk.n(), if i_bits@[j] { 0 } else { 1 }), ctx.std.nb() as int)
    && fresh(a@[j].sv(), sk.sv(), ctx.encryption_generator.root(), (old(ctx).encryption_generator.ctr() + j) as nat),
#ghost
// one step: the half selected by an encrypted one, and the rest
pub proof fn lemma_half(g: Seq<u64>, s: Seq<u64>, bit: bool, b: int, l: nat, e: int, d: Seq<u64>, m: Seq<u64>, e0: int, bb: int)
    requires is_rgsw(g, s.len(), l, b, s, pconst(s.len(), if bit { 1 } else { 0 }), e), d.len() == 2 * s.len(), near(phase(d, s), m, e0), e >= 0, b >= 1, 0 < b * l < 64, m.len() == s.len(),
        ep_bound(s, pconst(s.len(), 0), l, b, e) <= bb, ep_bound(s, pconst(s.len(), 1), l, b, e) <= bb, e0 >= 0, bb >= 0,
    ensures ep(g, s.len(), b, l, d).len() == 2 * s.len(), psub(d, ep(g, s.len(), b, l, d)).len() == 2 * s.len(),
        near(phase(ep(g, s.len(), b, l, d), s), if bit { m } else { pzero(s.len()) }, e0 + bb),
        near(phase(psub(d, ep(g, s.len(), b, l, d)), s), if bit { pzero(s.len()) } else { m }, e0 + bb),
{
    let n = s.len(); let lf = ep(g, n, b, l, d);
    l_ep(g, s, pconst(n, if bit { 1 } else { 0 }), b, l, d, e);
    l_phase_sub(d, lf, s);
    let (pd, pl) = (phase(d, s), phase(lf, s));
    l_mul_one_l(pd); l_mul_zero_l(pd); l_scale_zero(n, 0); l_zero_unit(pd);
    n_refl(pd, 0);
    let me = ep_bound(s, pconst(n, if bit { 1 } else { 0 }), l, b, e);
    if bit {
        n_trans(pl, pd, m, me, e0); n_weak(pl, m, me + e0, e0 + bb);
        n_sub(pd, pd, pl, pd, 0, me); l_self_sub(pd);
        n_weak(psub(pd, pl), pzero(n), me, e0 + bb);
    } else {
        n_weak(pl, pzero(n), me, e0 + bb);
        n_sub(pd, m, pl, pzero(n), e0, me); l_zero_unit(m);
        n_weak(psub(pd, pl), m, e0 + me, e0 + bb);
    }
}
pub proof fn l_self_sub(a: Seq<u64>) ensures psub(a, a) == pzero(a.len()) { assert(psub(a, a) =~= pzero(a.len())); }
// the output the payload goes to
pub open spec fn dpos(bv: Seq<bool>, level: int) -> int decreases bv.len() - level {
    if level >= bv.len() { 0 } else { (if bv[level] { 0 } else { pow2((bv.len() - level - 1) as nat) as int }) + dpos(bv, level + 1) }
}
pub proof fn lemma_dpos(bv: Seq<bool>, level: int)
    requires 0 <= level <= bv.len(),
    ensures 0 <= dpos(bv, level) < pow2((bv.len() - level) as nat),
    decreases bv.len() - level
{ lemma_pow2_64(); if level < bv.len() { lemma_dpos(bv, level + 1); lemma_pow2_unfold((bv.len() - level) as nat); } }
// the bits of i, most significant first, lead to i
pub proof fn lemma_dpos_bits(bv: Seq<bool>, level: int, i: int)
    requires 0 <= level <= bv.len(), i >= 0, forall|j: int| 0 <= j < bv.len() ==> #[trigger] bv[j] == !nbit(i, bv.len() - 1 - j),
    ensures dpos(bv, level) == i % (pow2((bv.len() - level) as nat) as int),
    decreases bv.len() - level
{
    lemma_pow2_64();
    if level < bv.len() {
        let k = (bv.len() - level - 1) as nat; let p = pow2(k) as int;
        lemma_pow2_pos(k); lemma_pow2_unfold(k + 1);
        lemma_dpos_bits(bv, level + 1, i);
        assert(bv[level] == !nbit(i, k as int));
        let (q, r) = (i / p, i % p);
        lemma_fundamental_div_mod(i, p); lemma_fundamental_div_mod(q, 2);
        let (q2, r2) = (q / 2, q % 2);
        assert(i == q2 * (2 * p) + (r2 * p + r)) by (nonlinear_arith) requires i == p * q + r, q == 2 * q2 + r2;
        assert(0 <= r2 * p + r < 2 * p) by (nonlinear_arith) requires 0 <= r < p, r2 == 0 || r2 == 1;
        lemma_fundamental_div_mod_converse(i, 2 * p, q2, r2 * p + r);
        assert(nbit(i, k as int) == (r2 == 1));
        assert(r2 * p == if bv[level] { 0 } else { p }) by (nonlinear_arith) requires (r2 == 0 && bv[level]) || (r2 == 1 && !bv[level]);
        assert(dpos(bv, level + 1) == i % p);
        assert(dpos(bv, level) == r2 * p + r);
    } else { lemma_small_mod(0, 1); assert(i % 1 == 0); }
}
pub proof fn lemma_demuxed(gs: Seq<Seq<u64>>, s: Seq<u64>, bv: Seq<bool>, b: int, l: nat, e: int, level: int, d: Seq<u64>, m: Seq<u64>, e0: int, bb: int)
    requires 0 <= level <= gs.len(), bv.len() == gs.len(), d.len() == 2 * s.len(), near(phase(d, s), m, e0), e >= 0, b >= 1, 0 < b * l < 64, m.len() == s.len(), e0 >= 0, bb >= 0,
        ep_bound(s, pconst(s.len(), 0), l, b, e) <= bb, ep_bound(s, pconst(s.len(), 1), l, b, e) <= bb,
        forall|j: int| 0 <= j < gs.len() ==> is_rgsw(#[trigger] gs[j], s.len(), l, b, s, pconst(s.len(), if bv[j] { 1 } else { 0 }), e),
    ensures demuxed(gs, s.len(), b, l, level, d).len() == pow2((gs.len() - level) as nat),
        forall|i: int| 0 <= i < pow2((gs.len() - level) as nat) ==> near(phase(#[trigger] demuxed(gs, s.len(), b, l, level, d)[i], s), if i == dpos(bv, level) { m } else { pzero(s.len()) }, e0 + (gs.len() - level) * bb),
    decreases gs.len() - level
{
    let n = s.len();
    lemma_demux_len(gs, n, b, l, level, d); lemma_pow2_64();
    if level == gs.len() { assert((gs.len() - level) * bb == 0) by (nonlinear_arith) requires gs.len() == level; }
    else {
        let g = gs[level];
        lemma_half(g, s, bv[level], b, l, e, d, m, e0, bb);
        let lf = ep(g, n, b, l, d); let rt = psub(d, lf); let z = pzero(n);
        let (ml, mr) = if bv[level] { (m, z) } else { (z, m) };
        lemma_demuxed(gs, s, bv, b, l, e, level + 1, lf, ml, e0 + bb, bb);
        lemma_demuxed(gs, s, bv, b, l, e, level + 1, rt, mr, e0 + bb, bb);
        let k = (gs.len() - level - 1) as nat; let p = pow2(k) as int;
        lemma_pow2_unfold(k + 1); lemma_dpos(bv, level + 1);
        assert((e0 + bb) + k * bb == e0 + (k + 1) * bb) by (nonlinear_arith);
        let (dl, dr) = (demuxed(gs, n, b, l, level + 1, lf), demuxed(gs, n, b, l, level + 1, rt));
        let dd = demuxed(gs, n, b, l, level, d);
        assert(dd =~= dl + dr);
        assert forall|i: int| 0 <= i < 2 * p implies near(phase(#[trigger] dd[i], s), if i == dpos(bv, level) { m } else { z }, e0 + (k + 1) * bb) by {
            if i < p { assert(dd[i] == dl[i]); } else { assert(dd[i] == dr[i - p]); }
        }
    }
}
// C04: bits encrypted by bit_decomposed_rgsw for an index i below 2^k send the payload to output i and zero to the others
pub proof fn theorem_demux(bits: Seq<RGSWCiphertext>, s: Seq<u64>, i: int, b: int, l: nat, e: int, d: Seq<u64>, m: Seq<u64>, e0: int, bb: int)
    requires bits.len() > 0, 0 <= i < pow2(bits.len()), b >= 1, bits_wf(bits, s.len(), b, l), e >= 0, e0 >= 0, bb >= 0, d.len() == 2 * s.len(), m.len() == s.len(), near(phase(d, s), m, e0),
        forall|j: int| 0 <= j < bits.len() ==> is_rgsw((#[trigger] bits[j]).sv(), s.len(), l, b, s, pconst(s.len(), if nbit(i, bits.len() - 1 - j) { 0 } else { 1 }), e),
        ep_bound(s, pconst(s.len(), 0), l, b, e) <= bb, ep_bound(s, pconst(s.len(), 1), l, b, e) <= bb,
    ensures demuxed(grows(bits), s.len(), b, l, 0, d).len() == pow2(bits.len()),
        forall|j: int| 0 <= j < pow2(bits.len()) ==> near(phase(#[trigger] demuxed(grows(bits), s.len(), b, l, 0, d)[j], s), if j == i { m } else { pzero(s.len()) }, e0 + bits.len() * bb),
{
    let bv = Seq::new(bits.len(), |j: int| !nbit(i, bits.len() - 1 - j));
    let gs = grows(bits);
    assert forall|j: int| 0 <= j < gs.len() implies is_rgsw(#[trigger] gs[j], s.len(), l, b, s, pconst(s.len(), if bv[j] { 1 } else { 0 }), e) by { assert(gs[j] == bits[j].sv()); }
    lemma_demuxed(gs, s, bv, b, l, e, 0, d, m, e0, bb);
    lemma_dpos_bits(bv, 0, i);
    lemma_small_mod(i as nat, pow2(bits.len()));
}
// the trivial encryption of the unit payload decrypts to it without noise
pub proof fn lemma_trivial(s: Seq<u64>, v: u64)
    ensures phase(pzero(s.len()) + pconst(s.len(), v), s) == pconst(s.len(), v),
{
    let n = s.len(); let c = pzero(n) + pconst(n, v);
    lemma_split(c, pzero(n), pconst(n, v), n);
    l_mul_zero_l(s); l_zero_unit(pconst(n, v));
}
#ghost
// ---- encrypted evaluation
use crate::shim::It;
use crate::ring::pmono;
// v as the exponent of the monomial, at the scale of one level
pub open spec fn feat_pt(n: nat, v: int, b: int, level: int) -> Seq<u64> { pmono(n, v, wrap(pow2((64 - b * level - lg(n)) as nat) as int)) }
pub open spec fn is_feature(cts: Seq<RLWECiphertext>, s: Seq<u64>, v: int, b: int, l: nat, e: int) -> bool {
    &&& cts.len() == l && all_wf(cts, s.len())
    &&& forall|j: int| 0 <= j < l ==> near(phase((#[trigger] cts[j]).sv(), s), feat_pt(s.len(), v, b, j + 1), e)
}
#fn encrypt_feature_vector
#opt ty:out=Vec<Vec<RLWECiphertext>>
#opt ty:tmp=Vec<RLWECiphertext>
#sig
requires sk.wf(), old(ctx).wf(), sk.n() == old(ctx).n(), is_pow2(sk.n()), old(ctx).base_log.0 >= 1, old(ctx).base_log.0 * old(ctx).level_count.0 + lg(sk.n()) <= 64,
    forall|i: int| 0 <= i < vs@.len() ==> #[trigger] vs@[i] < sk.n(),
ensures r@.len() == vs@.len(), forall|i: int| 0 <= i < vs@.len() ==> is_feature((#[trigger] r@[i])@, sk.sv(), vs@[i] as int, old(ctx).base_log.0 as int, old(ctx).level_count.0 as nat, old(ctx).std.nb() as int),
    forall|i: int, j: int| 0 <= i < vs@.len() && 0 <= j < old(ctx).level_count.0 ==> fresh((#[trigger] r@[i]@[j]).sv(), sk.sv(), old(ctx).encryption_generator.root(), (old(ctx).encryption_generator.ctr() + i * old(ctx).level_count.0 + j) as nat),
    final(ctx).same(old(ctx)), final(ctx).secret_generator == old(ctx).secret_generator, final(ctx).random_generator == old(ctx).random_generator,
    final(ctx).encryption_generator.root() == old(ctx).encryption_generator.root(), final(ctx).encryption_generator.ctr() == old(ctx).encryption_generator.ctr() + vs@.len() * old(ctx).level_count.0,
#at start
let ghost (__n, __b, __l, __c) = (sk.n(), ctx.base_log.0 as int, ctx.level_count.0 as nat, ctx.encryption_generator.ctr());
proof { lemma_pow2_pos(lg(__n)); assert forall|r: int| #[trigger] is_log2(__n as int, r) implies r == lg(__n) by { lemma_lg(__n, r); }
    lemma_log2_le(__n); }
#loop 0
invariant __n0 == vs@.len(), out@.len() == __k0, ctx.same(old(ctx)), ctx.wf(), pt.sv().len() == __n, logn == lg(__n),
  ctx.secret_generator == old(ctx).secret_generator, ctx.random_generator == old(ctx).random_generator,
  ctx.encryption_generator.root() == old(ctx).encryption_generator.root(), ctx.encryption_generator.ctr() == __c + __k0 * __l,
  forall|i: int| 0 <= i < __k0 ==> is_feature((#[trigger] out@[i])@, sk.sv(), vs@[i] as int, __b, __l, ctx.std.nb() as int),
  forall|i: int, j: int| 0 <= i < __k0 && 0 <= j < __l ==> fresh((#[trigger] out@[i]@[j]).sv(), sk.sv(), old(ctx).encryption_generator.root(), (__c + i * __l + j) as nat),
#loop 1
invariant __n1 == __l, tmp@.len() == __k1, ctx.same(old(ctx)), ctx.wf(), pt.sv().len() == __n, logn == lg(__n), all_wf(tmp@, __n),
  ctx.secret_generator == old(ctx).secret_generator, ctx.random_generator == old(ctx).random_generator,
  ctx.encryption_generator.root() == old(ctx).encryption_generator.root(), ctx.encryption_generator.ctr() == __c + __j0 * __l + __k1,
  forall|j: int| 0 <= j < __k1 ==> near(phase((#[trigger] tmp@[j]).sv(), sk.sv()), feat_pt(__n, *v as int, __b, j + 1), ctx.std.nb() as int)
    && fresh(tmp@[j].sv(), sk.sv(), old(ctx).encryption_generator.root(), (__c + __j0 * __l + j) as nat),
#at loop1.begin
broadcast use lemma_shl1;
proof {
    assert(__b * (__j1 + 1) <= __b * __l) by (nonlinear_arith) requires __j1 + 1 <= __l, __b >= 0;
    assert(__b * (__j1 + 1) >= 1) by (nonlinear_arith) requires __b >= 1, __j1 >= 0;
}
#at before:let:ct#0
proof { assert(pt.sv() =~= feat_pt(__n, *v as int, __b, __j1 + 1)); }
#at loop0.end
proof { assert((__j0 + 1) * __l == __j0 * __l + __l) by (nonlinear_arith); }
#ghost
use crate::rlwe::{leq_poly, eq_poly, ftmap_wf, fmap_l, fmap_b, ftraced, frowmap};
// the encrypted comparison of a feature with a threshold
pub open spec fn compared(cts: Seq<RLWECiphertext>, n: nat, p: Seq<u64>) -> Seq<Seq<u64>> { Seq::new(cts.len(), |k: int| gmul(cts[k].sv(), n, p)) }
// the choice bit of a node
pub open spec fn is_choice(g: RGSWCiphertext, node: Internal, cts: Seq<Vec<RLWECiphertext>>, neg: RGSWCiphertext, km: Map<usize, FourierRLWEKeyswitchKey>, ctx: Context) -> bool {
    &&& g.wf() && g.0.poly_size == ctx.poly_size && g.0.base_log == ctx.base_log && g.0.levels == ctx.level_count
    &&& is_expanded(g.sv(), ctx.n(), g.l(), ftraced(km, ctx.n(), compared(cts[node.feature as int]@, ctx.n(), leq_poly(ctx.n(), node.threshold as int))), neg.sv(), neg.b(), neg.l())
}
#fn compare_expand
#opt lty0=RGSWCiphertext
#opt lty1=RLWECiphertext
#sig
requires ctx.wf(), fft_size(ctx.n()), ctx.n() <= 0x8000_0000, ctx.level_count.0 > 0,
    ftmap_wf(ksk_map@, ctx.n(), fmap_l(ksk_map@, ctx.n()), fmap_b(ksk_map@, ctx.n())), 0 < fmap_b(ksk_map@, ctx.n()) * fmap_l(ksk_map@, ctx.n()) < 64,
    neg_sk_ct.wf(), neg_sk_ct.n() == ctx.n(), 0 < neg_sk_ct.b() * neg_sk_ct.l() < 64,
    forall|i: int| 0 <= i < flat_nodes@.len() ==> (#[trigger] flat_nodes@[i]).op is LEQ && flat_nodes@[i].feature < client_cts@.len() && flat_nodes@[i].threshold < ctx.n(),
    forall|i: int| 0 <= i < client_cts@.len() ==> all_wf((#[trigger] client_cts@[i])@, ctx.n()) && client_cts@[i]@.len() == ctx.level_count.0,
ensures r.left().len() == flat_nodes@.len(),
    forall|i: int| 0 <= i < flat_nodes@.len() ==> is_choice(#[trigger] r.left()[i], flat_nodes@[i], client_cts@, *neg_sk_ct, ksk_map@, *ctx),
#loop 0
invariant __n0 == flat_nodes@.len(), forall|i: int| 0 <= i < __k0 ==> is_choice(#[trigger] __c0@[i], flat_nodes@[i], client_cts@, *neg_sk_ct, ksk_map@, *ctx),
#loop 1
invariant __n1 == ctx.level_count.0, client_cts@[node.feature as int]@.len() == __n1, all_wf(__c1@, ctx.n()),
  forall|k: int| 0 <= k < __k1 ==> (#[trigger] __c1@[k]).sv() == gmul(client_cts@[node.feature as int]@[k].sv(), ctx.n(), leq_poly(ctx.n(), node.threshold as int)),
#at before:expand_fourier#0
assert(rows(cts@) =~= compared(client_cts@[node.feature as int]@, ctx.n(), leq_poly(ctx.n(), node.threshold as int)));
#ghost
// the tree with a choice bit at every internal node, taken in depth-first order; a missing subtree counts as a leaf 0
pub open spec fn built(n: Node, cts: Seq<RGSWCiphertext>) -> EncNode decreases n {
    match n {
        Node::Leaf(x) => EncNode::Leaf(x),
        Node::Internal(b) => EncNode::Internal(Box::new(EncInternal {
            ct: cts[0],
            left: Some(match b.left { Some(l) => built(l, cts.skip(1)), None => EncNode::Leaf(0) }),
            right: Some(match b.right { Some(r) => built(r, cts.skip(1 + on_int(b.left))), None => EncNode::Leaf(0) }),
        })),
    }
}
pub open spec fn obuilt(o: Option<Node>, cts: Seq<RGSWCiphertext>) -> EncNode { match o { Some(n) => built(n, cts), None => EncNode::Leaf(0) } }
pub proof fn lemma_on(o: Option<Node>) ensures on_int(o) >= 0, match o { Some(Node::Internal(l)) => on_int(o) >= 1 && o->0 == Node::Internal(l) && on_int(o) == n_int(Node::Internal(l)), _ => on_int(o) == 0 }
{ match o { Some(n) => { lemma_kids(n); }, None => {} } }
pub proof fn lemma_skip<A>(s: Seq<A>, i: int, j: int) requires 0 <= i, 0 <= j, i + j <= s.len() ensures s.skip(i).skip(j) == s.skip(i + j) { assert(s.skip(i).skip(j) =~= s.skip(i + j)); }
pub proof fn lemma_on_kids(o: Option<Node>) ensures match o { Some(Node::Internal(l)) => on_int(o) == 1 + on_int(l.left) + on_int(l.right) && on_int(l.left) >= 0 && on_int(l.right) >= 0, _ => true }
{ lemma_on(o); match o { Some(Node::Internal(l)) => { lemma_on(l.left); lemma_on(l.right); }, _ => {} } }
pub proof fn lemma_built(n: Internal, e: EncInternal, a: Seq<RGSWCiphertext>)
    requires a.len() >= n_int(Node::Internal(Box::new(n))), e.ct == a[0], e.left == Some(obuilt(n.left, a.skip(1))), e.right == Some(obuilt(n.right, a.skip(1).skip(on_int(n.left)))),
    ensures EncNode::Internal(Box::new(e)) == built(Node::Internal(Box::new(n)), a), n_int(Node::Internal(Box::new(n))) == 1 + on_int(n.left) + on_int(n.right),
{ lemma_on(n.left); lemma_on(n.right); lemma_skip(a, 1, on_int(n.left)); }
#fn new_enc_node
#sig
requires old(rgsw_cts).left().len() >= on_int(clear_node.left) + on_int(clear_node.right), old(enc_node).left == Some(EncNode::Leaf(0)), old(enc_node).right == Some(EncNode::Leaf(0)),
ensures final(enc_node).ct == old(enc_node).ct, final(enc_node).left == Some(obuilt(clear_node.left, old(rgsw_cts).left())),
    final(enc_node).right == Some(obuilt(clear_node.right, old(rgsw_cts).left().skip(on_int(clear_node.left)))),
    final(rgsw_cts).left() == old(rgsw_cts).left().skip(on_int(clear_node.left) + on_int(clear_node.right)),
decreases *clear_node
#at start
let ghost __a = rgsw_cts.left();
let ghost (__il, __ir) = (on_int(clear_node.left), on_int(clear_node.right));
proof { lemma_on(clear_node.left); lemma_on(clear_node.right); reveal_with_fuel(n_int, 2); lemma_skip(__a, 0, 0); assert(__a.skip(0) =~= __a); lemma_skip(__a, __il, __ir);
  lemma_on_kids(clear_node.left); lemma_on_kids(clear_node.right); }
#at after:new_enc_node#0
proof { lemma_built(**left, new_node, __a); lemma_skip(__a, 1, on_int(left.left) + on_int(left.right)); }
#at after:new_enc_node#1
proof { lemma_built(**right, new_node, __a.skip(__il)); lemma_skip(__a.skip(__il), 1, on_int(right.left) + on_int(right.right)); }
#at ret
proof { assert(__a.skip(__il).skip(0) =~= __a.skip(__il)); }
#fn EncNode::new
#sig
requires old(rgsw_cts).left().len() > 0, old(rgsw_cts).left().len() >= n_int(*clear_root),
ensures r == built(*clear_root, old(rgsw_cts).left()), clear_root is Internal, final(rgsw_cts).left() == old(rgsw_cts).left().skip(n_int(*clear_root)),
#panic clear_root is Leaf
#at start
let ghost __a = rgsw_cts.left();
proof { lemma_on_kids(Some(*clear_root)); lemma_on(Some(*clear_root)); }
#at after:new_enc_node#0
proof { let inner = *(clear_root->Internal_0); lemma_built(inner, out, __a); lemma_skip(__a, 1, on_int(inner.left) + on_int(inner.right)); }
#ghost
pub open spec fn enc_max(t: EncNode) -> int decreases t {
    match t {
        EncNode::Leaf(x) => x as int,
        EncNode::Internal(b) => match (b.left, b.right) { (Some(l), Some(r)) => maxi(enc_max(l), enc_max(r)), (Some(l), None) => enc_max(l), (None, Some(r)) => enc_max(r), _ => 0 },
    }
}
pub open spec fn enc_wf(t: EncNode, n: nat) -> bool decreases t {
    match t {
        EncNode::Leaf(_) => true,
        EncNode::Internal(b) => b.ct.wf() && b.ct.n() == n && 0 < b.ct.b() * b.ct.l() < 64 && (match b.left { Some(l) => enc_wf(l, n), None => true }) && (match b.right { Some(r) => enc_wf(r, n), None => true }),
    }
}
// every leaf adds its share of the payload to the outputs at the set bits of its label
pub open spec fn acc(outs: Seq<Seq<u64>>, t: EncNode, n: nat, d: Seq<u64>) -> Seq<Seq<u64>> decreases t {
    match t {
        EncNode::Leaf(x) => Seq::new(outs.len(), |k: int| if k < 64 && nbit(x as int, k) { padd(outs[k], d) } else { outs[k] }),
        EncNode::Internal(b) => {
            let left = ep(b.ct.sv(), n, b.ct.b(), b.ct.l(), d);
            let o1 = match b.left { Some(l) => acc(outs, l, n, left), None => outs };
            match b.right { Some(r) => acc(o1, r, n, psub(d, left)), None => o1 }
        },
    }
}
// the subtrees add to the outputs in any order
pub proof fn lemma_acc_comm(o: Seq<Seq<u64>>, s: EncNode, t: EncNode, n: nat, d: Seq<u64>, e: Seq<u64>)
    ensures acc(acc(o, s, n, d), t, n, e) == acc(acc(o, t, n, e), s, n, d), acc(o, s, n, d).len() == o.len(),
    decreases s, t,
{
    match s {
        EncNode::Leaf(x) => match t {
            EncNode::Leaf(y) => {
                let (a, b) = (acc(acc(o, s, n, d), t, n, e), acc(acc(o, t, n, e), s, n, d));
                assert forall|k: int| 0 <= k < o.len() implies a[k] == b[k] by { assert(a[k] =~= b[k]); }
                assert(a =~= b);
            },
            EncNode::Internal(c) => {
                let w = ep(c.ct.sv(), n, c.ct.b(), c.ct.l(), e);
                let o1 = match c.left { Some(l) => acc(o, l, n, w), None => o };
                if let Some(l) = c.left { lemma_acc_comm(o, s, l, n, d, w); }
                if let Some(r) = c.right { lemma_acc_comm(o1, s, r, n, d, psub(e, w)); }
            },
        },
        EncNode::Internal(c) => {
            let w = ep(c.ct.sv(), n, c.ct.b(), c.ct.l(), d);
            let o1 = match c.left { Some(l) => acc(o, l, n, w), None => o };
            if let Some(l) = c.left { lemma_acc_comm(o, l, t, n, w, e); }
            if let Some(r) = c.right { lemma_acc_comm(o1, r, t, n, psub(d, w), e); }
        },
    }
}
#fn EncNode::max_leaf
#sig
ensures r == enc_max(*self),
decreases *self
#fn eval_enc_node
#sig
requires ctx.wf(), b.wf(), b.n() == ctx.n(), old(buf).n() == ctx.n(), all_wf(old(out)@, ctx.n()), enc_wf(*node, ctx.n()),
ensures all_wf(final(out)@, ctx.n()), rows(final(out)@) == acc(rows(old(out)@), *node, ctx.n(), b.sv()), final(out)@.len() == old(out)@.len(), final(buf).n() == old(buf).n(),
decreases *node
#at start
let ghost (__o, __d) = (rows(out@), b.sv());
proof {
    lemma_bits_len();
    if let EncNode::Internal(c) = node {
        let w = ep(c.ct.sv(), ctx.n(), c.ct.b(), c.ct.l(), __d);
        if c.left is Some && c.right is Some { lemma_acc_comm(__o, c.left->0, c.right->0, ctx.n(), w, psub(__d, w)); }
    }
}
#loop 0
invariant out@.len() == __o.len(), b.sv() == __d, all_wf(out@, ctx.n()), forall|k: int| 0 <= k < out@.len() ==> (#[trigger] out@[k]).sv() == if k < __k0 && nbit(*x as int, k) { padd(__o[k], __d) } else { __o[k] },
#at loop0.after
proof { assert(rows(out@) =~= acc(__o, *node, ctx.n(), __d)); }
#at after:external_product_with_buf#0
proof { let e = ep(node.ct.sv(), ctx.n(), node.ct.b(), node.ct.l(), __d); l_ep_len(node.ct.sv(), ctx.n(), node.ct.b(), node.ct.l(), __d, node.ct.l()); l_zero_unit(e); assert(left.sv() == e); }
#ghost
pub proof fn lemma_bits_len() ensures forall|x: int| (#[trigger] bits_of(x)).len() == 64 {}
#fn EncNode::eval
#sig
requires ctx.wf(), old(buf).n() == ctx.n(), enc_wf(*self, ctx.n()),
ensures all_wf(r@, ctx.n()), r@.len() <= 64, 0 <= enc_max(*self) < pow2(r@.len()), r@.len() > 0 ==> pow2((r@.len() - 1) as nat) <= enc_max(*self), final(buf).n() == old(buf).n(),
    rows(r@) == acc(Seq::new(r@.len(), |k: int| pzero(2 * ctx.n())), *self, ctx.n(), pzero(ctx.n()) + pconst(ctx.n(), ctx.codec.enc(1))),
#at after:let:c#0
proof { lemma_join(pzero(2 * ctx.n()), ctx.n()); }
#at before:eval_enc_node#0
proof { assert(c.sv() =~= pzero(ctx.n()) + pconst(ctx.n(), ctx.codec.enc(1))); assert(rows(out@) =~= Seq::new(out@.len(), |k: int| pzero(2 * ctx.n()))); }
#at start
proof { lemma_pow2_64(); }
#fn decrypt_and_recompose
#sig
requires sk.wf(), ctx.wf(), all_wf(cts@, sk.n()), ctx.n() == sk.n(), cts@.len() <= 64, 
ensures forall|k: int| 0 <= k < cts@.len() ==> #[trigger] ctx.codec.pdec(phase(cts@[k].sv(), sk.sv()))[0] <= 1,
    r == bsum(Seq::new(cts@.len(), |k: int| ctx.codec.pdec(phase(cts@[k].sv(), sk.sv()))[0] == 1), cts@.len()),
#panic exists|k: int| 0 <= k < cts@.len() && #[trigger] ctx.codec.pdec(phase(cts@[k].sv(), sk.sv()))[0] > 1
#loop 0
invariant __n0 == cts@.len(), bv@.len() == __k0, pt.sv().len() == sk.n(),
   forall|k: int| 0 <= k < __k0 ==> bv@[k] == (#[trigger] ctx.codec.pdec(phase(cts@[k].sv(), sk.sv()))[0] == 1) && ctx.codec.pdec(phase(cts@[k].sv(), sk.sv()))[0] <= 1,
#at loop0.after
proof { assert(bv@ =~= Seq::new(cts@.len(), |k: int| ctx.codec.pdec(phase(cts@[k].sv(), sk.sv()))[0] == 1)); }
#ghost
// ---- C19: the encrypted comparison
pub proof fn lemma_mono_sum(n: nat, v: int, c: u64, b: Seq<u64>, k: int, m: nat)
    requires 0 <= v < n, m <= n,
    ensures pmulc(pmono(n, v, c), b, k, m) == if m > v { c * bcoef(b, k - v) } else { 0 },
    decreases m
{
    if m > 0 {
        lemma_mono_sum(n, v, c, b, k, (m - 1) as nat);
        let t = bcoef(b, k - (m - 1));
        assert(0 * t == 0) by (nonlinear_arith);
    }
}
// the constant coefficient tells whether v <= d, or v == d
pub proof fn lemma_compare(n: nat, v: int, c: u64, d: int)
    requires 0 <= v < n, 0 <= d < n,
    ensures pmul(pmono(n, v, c), leq_poly(n, d))[0] == if v <= d { c } else { 0 }, pmul(pmono(n, v, c), eq_poly(n, d))[0] == if v == d { c } else { 0 },
{
    let (p, q) = (leq_poly(n, d), eq_poly(n, d));
    lemma_mono_sum(n, v, c, p, 0, n); lemma_mono_sum(n, v, c, q, 0, n);
    let m = 0x1_0000_0000_0000_0000int;
    assert(c * 0 == 0 && c * 1 == c && c * -(m - 1) == c - m * c) by (nonlinear_arith);
    l_wrap_eq(c - m * c, c as int) ;
    l_wrap(c as int);
    assert(bcoef(p, 0 - v) == if v <= d { if v == 0 { 1int } else { -(m - 1) } } else { 0 });
    assert(bcoef(q, 0 - v) == if v == d { if v == 0 { 1int } else { -(m - 1) } } else { 0 });
}
pub open spec fn ibit(x: bool) -> u64 { if x { 1 } else { 0 } }
pub open spec fn choice_bound(s: Seq<u64>, lk: nat, bk: int, ek: int, nb: int, nl: nat, en: int, e: int) -> int { expand_bound(s, nb, nl, en, trace_bound(s.len(), lk, bk, ek, s.len() * e)) }
// the choice bit of a node whose feature encrypts v, with the threshold d: a gadget encryption of [v <= d] (p: of [v == d])
pub proof fn theorem_compare(cts: Seq<RLWECiphertext>, s: Seq<u64>, v: int, d: int, eq: bool, b: int, l: nat, e: int, g: Seq<u64>, km: Map<usize, FourierRLWEKeyswitchKey>, lk: nat, ek: int, neg: Seq<u64>, nb: int, nl: nat, en: int)
    requires is_feature(cts, s, v, b, l, e), is_pow2(s.len()), s.len() <= 0x8000_0000, 0 <= v < s.len(), 0 <= d < s.len(), e >= 0, ek >= 0, forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == 0 || s[i] == 1,
        is_tksk(frowmap(km), s, lk, fmap_b(km, s.len()), ek), fmap_b(km, s.len()) >= 1, 0 < fmap_b(km, s.len()) * lk < 64,
        b >= 1, b * l + lg(s.len()) <= 64,
        is_expanded(g, s.len(), l, ftraced(km, s.len(), compared(cts, s.len(), if eq { eq_poly(s.len(), d) } else { leq_poly(s.len(), d) })), neg, nb, nl),
        is_rgsw(neg, s.len(), nl, nb, s, pneg(s), en), en >= 0, nb >= 1, 0 < nb * nl < 64,
    ensures is_rgsw(g, s.len(), l, b, s, pconst(s.len(), ibit(if eq { v == d } else { v <= d })), choice_bound(s, lk, fmap_b(km, s.len()), ek, nb, nl, en, e)),
{
    let n = s.len(); let m = lg(n);
    let p = if eq { eq_poly(n, d) } else { leq_poly(n, d) };
    let bit = ibit(if eq { v == d } else { v <= d });
    let cs = compared(cts, n, p); let t = ftraced(km, n, cs);
    lemma_log2_le(n); lemma_pow2_64(); if m >= 63 { if m > 63 { } lemma_pow2_strictly_increases(31, m); lemma2_to64(); } 
    assert forall|i: int| 0 <= i < n implies #[trigger] abs(p[i]) <= 1 by {}
    l_bin_l1(p, n);
    assert forall|k: int| 0 <= k < l implies (#[trigger] cs[k]).len() == 2 * n && cd(phase(cs[k], s)[0], wrap(bit * pow2((64 - b * (k + 1) - m) as nat))) <= n * e by {
        let c = cts[k].sv(); let x = pow2((64 - b * (k + 1) - m) as nat) as int;
        let f = feat_pt(n, v, b, k + 1);
        assert(near(phase(c, s), f, e));
        l_phase_mul(c, s, p);
        n_mul(p, phase(c, s), f, e);
        lemma_compare(n, v, wrap(x), d);
        assert(bit * x == if bit == 1 { x } else { 0 }) by (nonlinear_arith) requires bit == 0 || bit == 1;
        l_wrap(0);
        assert(pmul(f, p)[0] == wrap(bit * x));
        assert(l1(p) * e <= n * e) by (nonlinear_arith) requires l1(p) <= n, e >= 0;
        assert(cd(pmul(phase(c, s), p)[0], pmul(f, p)[0]) <= l1(p) * e);
    }
    assert(n * e >= 0) by (nonlinear_arith) requires n >= 0, e >= 0;
    l_expand_trace(g, s, l, b, frowmap(km), lk, fmap_b(km, n), ek, cs, t, m, bit, n * e, neg, nb, nl, en);
}
// ---- C19: the evaluation
pub open spec fn terr(t: Node, e0: int, bb: int) -> int decreases t {
    match t {
        Node::Leaf(_) => e0,
        Node::Internal(b) => (match b.left { Some(l) => terr(l, e0 + bb, bb), None => 0 }) + (match b.right { Some(r) => terr(r, e0 + bb, bb), None => 0 }),
    }
}
// the choice bit of the k-th internal node
pub open spec fn goes_left(t: Node, f: Seq<usize>, k: int) -> bool { f[preorder(t)[k].feature as int] <= preorder(t)[k].threshold }
pub open spec fn choices(cts: Seq<RGSWCiphertext>, t: Node, f: Seq<usize>, s: Seq<u64>, e: int, bb: int) -> bool {
    cts.len() >= n_int(t) && forall|k: int| 0 <= k < n_int(t) ==> {
        let c = #[trigger] cts[k];
        &&& c.n() == s.len() && c.b() >= 1 && 0 < c.b() * c.l() < 64
        &&& is_rgsw(c.sv(), s.len(), c.l(), c.b(), s, pconst(s.len(), ibit(goes_left(t, f, k))), e)
        &&& ep_bound(s, pconst(s.len(), 0), c.l(), c.b(), e) <= bb && ep_bound(s, pconst(s.len(), 1), c.l(), c.b(), e) <= bb
    }
}
pub open spec fn okterr(o: Option<Node>, e0: int, bb: int) -> int { match o { Some(n) => terr(n, e0, bb), None => 0 } }
pub proof fn lemma_choices(cts: Seq<RGSWCiphertext>, b: Internal, f: Seq<usize>, s: Seq<u64>, e: int, bb: int)
    requires choices(cts, Node::Internal(Box::new(b)), f, s, e, bb),
    ensures match b.left { Some(l) => choices(cts.skip(1), l, f, s, e, bb), None => true }, match b.right { Some(r) => choices(cts.skip(1 + on_int(b.left)), r, f, s, e, bb), None => true },
        cts.len() > 0, goes_left(Node::Internal(Box::new(b)), f, 0) == (f[b.feature as int] <= b.threshold), on_int(b.left) >= 0, n_int(Node::Internal(Box::new(b))) >= 1,
{
    let t = Node::Internal(Box::new(b)); let kl = on_int(b.left);
    lemma_kids(t); lemma_preorder(t);
    let (pl, pr) = (opreorder(b.left), opreorder(b.right));
    match b.left { Some(l) => {
        lemma_preorder(l);
        let c1 = cts.skip(1);
        assert forall|k: int| 0 <= k < n_int(l) implies { let c = #[trigger] c1[k];
            &&& c.n() == s.len() && c.b() >= 1 && 0 < c.b() * c.l() < 64
            &&& is_rgsw(c.sv(), s.len(), c.l(), c.b(), s, pconst(s.len(), ibit(goes_left(l, f, k))), e)
            &&& ep_bound(s, pconst(s.len(), 0), c.l(), c.b(), e) <= bb && ep_bound(s, pconst(s.len(), 1), c.l(), c.b(), e) <= bb } by {
            assert(c1[k] == cts[1 + k]); assert(preorder(t)[1 + k] == pl[k]); assert(goes_left(t, f, 1 + k) == goes_left(l, f, k));
        }
    }, None => {} }
    match b.right { Some(r) => {
        lemma_preorder(r); match b.left { Some(l) => { lemma_preorder(l); }, None => {} }
        let c1 = cts.skip(1 + kl);
        assert forall|k: int| 0 <= k < n_int(r) implies { let c = #[trigger] c1[k];
            &&& c.n() == s.len() && c.b() >= 1 && 0 < c.b() * c.l() < 64
            &&& is_rgsw(c.sv(), s.len(), c.l(), c.b(), s, pconst(s.len(), ibit(goes_left(r, f, k))), e)
            &&& ep_bound(s, pconst(s.len(), 0), c.l(), c.b(), e) <= bb && ep_bound(s, pconst(s.len(), 1), c.l(), c.b(), e) <= bb } by {
            assert(c1[k] == cts[1 + kl + k]); assert(preorder(t)[1 + kl + k] == pr[k]); assert(goes_left(t, f, 1 + kl + k) == goes_left(r, f, k));
        }
    }, None => {} }
    assert(preorder(t)[0] == bare(b));
}
pub open spec fn added(outs: Seq<Seq<u64>>, res: Seq<Seq<u64>>, s: Seq<u64>, x: int, m: Seq<u64>, e: int) -> bool {
    res.len() == outs.len() && forall|k: int| 0 <= k < outs.len() ==> (#[trigger] res[k]).len() == 2 * s.len() && near(phase(res[k], s), padd(phase(outs[k], s), if nbit(x, k) { m } else { pzero(s.len()) }), e)
}
pub proof fn lemma_bit0(k: int) requires k >= 0 ensures !nbit(0, k) { lemma_pow2_pos(k as nat); assert(0int / (pow2(k as nat) as int) == 0) by (nonlinear_arith) requires pow2(k as nat) > 0; }
// the subtree of a side, or nothing
pub proof fn lemma_acc_side(outs: Seq<Seq<u64>>, o: Option<Node>, cts: Seq<RGSWCiphertext>, s: Seq<u64>, f: Seq<usize>, e: int, d: Seq<u64>, m: Seq<u64>, e0: int, bb: int)
    requires match o { Some(t) => choices(cts, t, f, s, e, bb), None => true }, d.len() == 2 * s.len(), m.len() == s.len(), near(phase(d, s), m, e0), e >= 0, e0 >= 0, bb >= 0, outs.len() <= 64,
        forall|k: int| 0 <= k < outs.len() ==> (#[trigger] outs[k]).len() == 2 * s.len(),
    ensures added(outs, acc(outs, obuilt(o, cts), s.len(), d), s, olabel(o, f), m, okterr(o, e0, bb)), okterr(o, e0, bb) >= 0,
    decreases o, 0int
{
    match o {
        Some(t) => { lemma_acc(outs, t, cts, s, f, e, d, m, e0, bb); },
        None => {
            let res = acc(outs, EncNode::Leaf(0), s.len(), d);
            assert forall|k: int| 0 <= k < outs.len() implies (#[trigger] res[k]).len() == 2 * s.len() && near(phase(res[k], s), padd(phase(outs[k], s), if nbit(0, k) { m } else { pzero(s.len()) }), 0) by {
                lemma_bit0(k); l_zero_unit(phase(outs[k], s)); n_refl(phase(outs[k], s), 0);
            }
        },
    }
}
pub proof fn lemma_acc(outs: Seq<Seq<u64>>, t: Node, cts: Seq<RGSWCiphertext>, s: Seq<u64>, f: Seq<usize>, e: int, d: Seq<u64>, m: Seq<u64>, e0: int, bb: int)
    requires choices(cts, t, f, s, e, bb), d.len() == 2 * s.len(), m.len() == s.len(), near(phase(d, s), m, e0), e >= 0, e0 >= 0, bb >= 0, outs.len() <= 64,
        forall|k: int| 0 <= k < outs.len() ==> (#[trigger] outs[k]).len() == 2 * s.len(),
    ensures added(outs, acc(outs, built(t, cts), s.len(), d), s, label(t, f), m, terr(t, e0, bb)), terr(t, e0, bb) >= 0,
    decreases t, 1int
{
    let n = s.len(); let z = pzero(n); let res = acc(outs, built(t, cts), n, d);
    match t {
        Node::Leaf(x) => {
            assert forall|k: int| 0 <= k < outs.len() implies (#[trigger] res[k]).len() == 2 * n && near(phase(res[k], s), padd(phase(outs[k], s), if nbit(x as int, k) { m } else { z }), e0) by {
                let o = phase(outs[k], s);
                n_refl(o, 0); l_zero_unit(o);
                if nbit(x as int, k) { l_phase_add(outs[k], d, s); n_add(o, o, phase(d, s), m, 0, e0); } else { n_refl(o, e0); }
            }
        },
        Node::Internal(b) => {
            lemma_choices(cts, *b, f, s, e, bb);
            let c = cts[0]; let bit = f[b.feature as int] <= b.threshold;
            let kl = on_int(b.left);
            let lf = ep(c.sv(), n, c.b(), c.l(), d); let rt = psub(d, lf);
            lemma_half(c.sv(), s, bit, c.b(), c.l(), e, d, m, e0, bb);
            let (ml, mr) = if bit { (m, z) } else { (z, m) };
            let o1 = acc(outs, obuilt(b.left, cts.skip(1)), n, lf);
            lemma_acc_side(outs, b.left, cts.skip(1), s, f, e, lf, ml, e0 + bb, bb);
            lemma_acc_side(o1, b.right, cts.skip(1 + kl), s, f, e, rt, mr, e0 + bb, bb);
            let (el, er) = (okterr(b.left, e0 + bb, bb), okterr(b.right, e0 + bb, bb));
            assert(res == acc(o1, obuilt(b.right, cts.skip(1 + kl)), n, rt));
            let x = label(t, f);
            assert forall|k: int| 0 <= k < outs.len() implies (#[trigger] res[k]).len() == 2 * n && near(phase(res[k], s), padd(phase(outs[k], s), if nbit(x, k) { m } else { z }), el + er) by {
                let (p0, p1) = (phase(outs[k], s), phase(o1[k], s));
                let a = if nbit(olabel(b.left, f), k) { ml } else { z };
                let w = if nbit(olabel(b.right, f), k) { mr } else { z };
                assert(o1[k].len() == 2 * n);
                n_refl(w, 0);
                n_add(p1, padd(p0, a), w, w, el, 0);
                n_trans(phase(res[k], s), padd(p1, w), padd(padd(p0, a), w), er, el);
                l_zero_unit(padd(p0, a)); l_zero_unit(p0);
            }
        },
    }
}
// no label is above the maximum that sizes the output
pub proof fn lemma_label_max(t: Node, cts: Seq<RGSWCiphertext>, f: Seq<usize>)
    ensures 0 <= label(t, f) <= enc_max(built(t, cts)), enc_max(built(t, cts)) <= usize::MAX,
    decreases t
{
    match t {
        Node::Leaf(_) => {},
        Node::Internal(b) => {
            let kl = on_int(b.left);
            match b.left { Some(l) => lemma_label_max(l, cts.skip(1), f), None => {} }
            match b.right { Some(r) => lemma_label_max(r, cts.skip(1 + kl), f), None => {} }
            let (l, r) = (obuilt(b.left, cts.skip(1)), obuilt(b.right, cts.skip(1 + kl)));
            assert(enc_max(built(t, cts)) == maxi(enc_max(l), enc_max(r)));
        },
    }
}
pub proof fn lemma_bsum(x: int, s: Seq<bool>, m: nat)
    requires x >= 0, m <= s.len(), forall|k: int| 0 <= k < m ==> #[trigger] s[k] == nbit(x, k),
    ensures bsum(s, m) == x % (pow2(m) as int),
    decreases m
{
    lemma_pow2_64();
    if m > 0 {
        let k = (m - 1) as nat; let p = pow2(k) as int;
        lemma_pow2_pos(k); lemma_pow2_unfold(m); lemma_bsum(x, s, k);
        let (q, r) = (x / p, x % p);
        lemma_fundamental_div_mod(x, p); lemma_fundamental_div_mod(q, 2);
        let (q2, r2) = (q / 2, q % 2);
        assert(x == q2 * (2 * p) + (r2 * p + r)) by (nonlinear_arith) requires x == p * q + r, q == 2 * q2 + r2;
        assert(0 <= r2 * p + r < 2 * p) by (nonlinear_arith) requires 0 <= r < p, r2 == 0 || r2 == 1;
        lemma_fundamental_div_mod_converse(x, 2 * p, q2, r2 * p + r);
        assert(s[k as int] == (r2 == 1));
        assert(r2 * p == if r2 == 1 { p } else { 0 }) by (nonlinear_arith) requires r2 == 0 || r2 == 1;
    } else { assert(x % 1 == 0); }
}
// C19: with a choice bit per internal node in depth-first order, the outputs decrypt bit by bit to the label plaintext evaluation returns
pub proof fn theorem_pdte(t: Node, cts: Seq<RGSWCiphertext>, s: Seq<u64>, f: Seq<usize>, e: int, bb: int, c: &crate::codec::Codec, len: nat, outs: Seq<Seq<u64>>)
    requires choices(cts, t, f, s, e, bb), s.len() > 0, e >= 0, bb >= 0, c.wf(), len <= 64, enc_max(built(t, cts)) < pow2(len), terr(t, 0, bb) < c.dl() / 2,
        outs == acc(Seq::new(len, |k: int| pzero(2 * s.len())), built(t, cts), s.len(), pzero(s.len()) + pconst(s.len(), c.enc(1))),
    ensures outs.len() == len, forall|k: int| 0 <= k < len ==> #[trigger] c.pdec(phase(outs[k], s))[0] == ibit(nbit(label(t, f), k)),
        bsum(Seq::new(len, |k: int| c.pdec(phase(outs[k], s))[0] == 1), len) == label(t, f),
{
    let n = s.len(); let d = pzero(n) + pconst(n, c.enc(1)); let m = pconst(n, c.enc(1)); let zs = Seq::new(len, |k: int| pzero(2 * n)); let z = pzero(n);
    lemma_trivial(s, c.enc(1)); n_refl(m, 0); l_phase_zero(s); c.lemma_params();
    lemma_acc(zs, t, cts, s, f, e, d, m, 0, bb);
    let x = label(t, f); let er = terr(t, 0, bb);
    assert forall|k: int| 0 <= k < len implies #[trigger] c.pdec(phase(outs[k], s))[0] == ibit(nbit(x, k)) by {
        let p = phase(outs[k], s); let bit = ibit(nbit(x, k));
        let w = if nbit(x, k) { m } else { z };
        assert(phase(zs[k], s) == z);
        l_zero_unit(w);
        assert(near(p, padd(z, w), er)); assert(padd(z, w) == w);
        assert(0 * c.dl() == 0); l_wrap(0);
        assert(c.enc(0) == 0);
        assert(cd(p[0], w[0]) <= er);
        crate::codec::lemma_decrypt(c, p[0], bit);
    }
    lemma_label_max(t, cts, f);
    lemma_bsum(x, Seq::new(len, |k: int| c.pdec(phase(outs[k], s))[0] == 1), len);
    lemma_small_mod(x as nat, pow2(len));
}
// what compare_expand yields for an encrypted feature vector are the choice bits
pub proof fn theorem_choices(t: Node, cts: Seq<RGSWCiphertext>, cl: Seq<Vec<RLWECiphertext>>, s: Seq<u64>, f: Seq<usize>, e: int, bb: int, ctx: &Context, neg: &RGSWCiphertext, km: Map<usize, FourierRLWEKeyswitchKey>, lk: nat, ek: int, en: int)
    requires cts.len() == n_int(t), ctx.n() == s.len(), is_pow2(s.len()), s.len() <= 0x8000_0000, ctx.base_log.0 >= 1, ctx.base_log.0 * ctx.level_count.0 + lg(s.len()) <= 64, 0 < ctx.base_log.0 * ctx.level_count.0 < 64,
        forall|k: int| 0 <= k < n_int(t) ==> is_choice(#[trigger] cts[k], preorder(t)[k], cl, *neg, km, *ctx),
        forall|k: int| 0 <= k < n_int(t) ==> (#[trigger] preorder(t)[k]).threshold < s.len() && preorder(t)[k].feature < f.len(),
        cl.len() == f.len(), forall|i: int| 0 <= i < f.len() ==> #[trigger] f[i] < s.len() && is_feature(cl[i]@, s, f[i] as int, ctx.base_log.0 as int, ctx.level_count.0 as nat, e),
        e >= 0, ek >= 0, en >= 0, forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == 0 || s[i] == 1,
        is_tksk(frowmap(km), s, lk, fmap_b(km, s.len()), ek), fmap_b(km, s.len()) >= 1, 0 < fmap_b(km, s.len()) * lk < 64,
        is_rgsw(neg.sv(), s.len(), neg.l(), neg.b(), s, pneg(s), en), neg.b() >= 1, 0 < neg.b() * neg.l() < 64,
        ep_bound(s, pconst(s.len(), 0), ctx.level_count.0 as nat, ctx.base_log.0 as int, choice_bound(s, lk, fmap_b(km, s.len()), ek, neg.b(), neg.l(), en, e)) <= bb,
        ep_bound(s, pconst(s.len(), 1), ctx.level_count.0 as nat, ctx.base_log.0 as int, choice_bound(s, lk, fmap_b(km, s.len()), ek, neg.b(), neg.l(), en, e)) <= bb,
    ensures choices(cts, t, f, s, choice_bound(s, lk, fmap_b(km, s.len()), ek, neg.b(), neg.l(), en, e), bb),
{
    let n = s.len(); let (b, l) = (ctx.base_log.0 as int, ctx.level_count.0 as nat); let z = choice_bound(s, lk, fmap_b(km, n), ek, neg.b(), neg.l(), en, e);
    assert forall|k: int| 0 <= k < n_int(t) implies {
        let c = #[trigger] cts[k];
        &&& c.n() == n && c.b() >= 1 && 0 < c.b() * c.l() < 64
        &&& is_rgsw(c.sv(), n, c.l(), c.b(), s, pconst(n, ibit(goes_left(t, f, k))), z)
        &&& ep_bound(s, pconst(n, 0), c.l(), c.b(), z) <= bb && ep_bound(s, pconst(n, 1), c.l(), c.b(), z) <= bb } by {
        let nd = preorder(t)[k]; let ft = nd.feature as int;
        assert(f[ft] < n);
        theorem_compare(cl[ft]@, s, f[ft] as int, nd.threshold as int, false, b, l, e, cts[k].sv(), km, lk, ek, neg.sv(), neg.b(), neg.l(), en);
    }
}
#ghost
// ---- the simulation: what the whole pipeline needs of a model
pub open spec fn fits(t: Node, nf: int, n: int) -> bool { forall|k: int| 0 <= k < n_int(t) ==> (#[trigger] preorder(t)[k]).op is LEQ && preorder(t)[k].feature < nf && preorder(t)[k].threshold < n }
// the noise of the evaluation of this model stays below half a step of the encoding
pub open spec fn room_bb(t: Node, s: Seq<u64>, c: &Context, bb: int) -> bool {
    let z = choice_bound(s, c.ks_level_count.0 as nat, c.ks_base_log.0 as int, c.std.nb() as int, c.negs_base_log.0 as int, c.negs_level_count.0 as nat, c.std.nb() as int, c.std.nb() as int);
    bb >= 0 && ep_bound(s, pconst(s.len(), 0), c.level_count.0 as nat, c.base_log.0 as int, z) <= bb && ep_bound(s, pconst(s.len(), 1), c.level_count.0 as nat, c.base_log.0 as int, z) <= bb && terr(t, 0, bb) < c.codec.dl() / 2
}
pub open spec fn room(t: Node, s: Seq<u64>, c: &Context) -> bool { exists|bb: int| #[trigger] room_bb(t, s, c, bb) }
#[verifier::opaque]
pub open spec fn answers(outs: Seq<RLWECiphertext>, s: Seq<u64>, c: &Context, x: int, ok: bool) -> bool {
    &&& all_wf(outs, s.len()) && outs.len() <= 64
    &&& ok ==> bsum(Seq::new(outs.len(), |k: int| c.codec.pdec(phase(outs[k].sv(), s))[0] == 1), outs.len()) == x
}
// everything the server is given
pub open spec fn sim_ctx(c: &Context) -> bool {
    &&& c.wf() && is_pow2(c.n()) && fft_size(c.n()) && 2048 <= c.n() <= 0x8000_0000 && c.base_log.0 * c.level_count.0 + lg(c.n()) <= 64
    &&& c.level_count.0 >= 1 && c.base_log.0 >= 1 && c.ks_base_log.0 >= 1 && c.negs_base_log.0 >= 1
    &&& 0 < c.base_log.0 * c.level_count.0 < 64 && 0 < c.ks_base_log.0 * c.ks_level_count.0 < 64 && 0 < c.negs_base_log.0 * c.negs_level_count.0 < 64
}
pub open spec fn sim_keys(c: &Context, s: Seq<u64>, neg: &RGSWCiphertext, km: Map<usize, FourierRLWEKeyswitchKey>) -> bool {
    &&& s.len() == c.n() && is_bin(s)
    &&& neg.wf() && neg.n() == c.n() && neg.b() == c.negs_base_log.0 && neg.l() == c.negs_level_count.0 && is_rgsw(neg.sv(), c.n(), neg.l(), neg.b(), s, pneg(s), c.std.nb() as int)
    &&& ftmap_wf(km, c.n(), fmap_l(km, c.n()), fmap_b(km, c.n())) && fmap_l(km, c.n()) == c.ks_level_count.0 && fmap_b(km, c.n()) == c.ks_base_log.0
    &&& is_tksk(frowmap(km), s, c.ks_level_count.0 as nat, c.ks_base_log.0 as int, c.std.nb() as int)
}
pub open spec fn sim_input(c: &Context, s: Seq<u64>, cl: Seq<Vec<RLWECiphertext>>, f: Seq<usize>) -> bool {
    cl.len() == f.len() && forall|i: int| 0 <= i < f.len() ==> #[trigger] f[i] < c.n() && is_feature(cl[i]@, s, f[i] as int, c.base_log.0 as int, c.level_count.0 as nat, c.std.nb() as int)
}
pub proof fn lemma_workable(p: &TFHEParameters, c: &Context)
    requires crate::params::workable(p), c.wf(), c.poly_size.0 == p.polynomial_size, c.base_log.0 == p.base_log, c.level_count.0 == p.level_count, c.ks_base_log.0 == p.key_switch_base_log,
        c.ks_level_count.0 == p.key_switch_level_count, c.negs_base_log.0 == p.negs_base_log, c.negs_level_count.0 == p.negs_level_count,
    ensures sim_ctx(c),
{
    let k = choose|k: nat| #[trigger] pow2(k) == p.polynomial_size && p.base_log * p.level_count + k <= 64;
    let g = lg(c.n());
    assert(c.level_count.0 >= 1) by (nonlinear_arith) requires 0 < c.base_log.0 * c.level_count.0, c.level_count.0 >= 0;
    if g < k { lemma_pow2_strictly_increases(g, k); } else if k < g { lemma_pow2_strictly_increases(k, g); }
}
pub proof fn lemma_enc_wf(t: Node, cts: Seq<RGSWCiphertext>, n: nat)
    requires cts.len() >= n_int(t), forall|k: int| 0 <= k < n_int(t) ==> (#[trigger] cts[k]).wf() && cts[k].n() == n && 0 < cts[k].b() * cts[k].l() < 64,
    ensures enc_wf(built(t, cts), n),
    decreases t
{
    reveal_with_fuel(enc_wf, 2);
    match t {
        Node::Leaf(_) => {},
        Node::Internal(b) => {
            lemma_kids(t); lemma_on_kids(Some(t)); lemma_on(Some(t));
            let kl = on_int(b.left);
            match b.left { Some(l) => {
                let c1 = cts.skip(1);
                assert forall|k: int| 0 <= k < n_int(l) implies (#[trigger] c1[k]).wf() && c1[k].n() == n && 0 < c1[k].b() * c1[k].l() < 64 by { assert(c1[k] == cts[1 + k]); }
                lemma_enc_wf(l, c1, n);
            }, None => {} }
            match b.right { Some(r) => {
                let c1 = cts.skip(1 + kl);
                assert forall|k: int| 0 <= k < n_int(r) implies (#[trigger] c1[k]).wf() && c1[k].n() == n && 0 < c1[k].b() * c1[k].l() < 64 by { assert(c1[k] == cts[1 + kl + k]); }
                lemma_enc_wf(r, c1, n);
            }, None => {} }
        },
    }
}
pub proof fn lemma_sim_wf(t: Node, cts: Seq<RGSWCiphertext>, cl: Seq<Vec<RLWECiphertext>>, c: &Context, neg: &RGSWCiphertext, km: Map<usize, FourierRLWEKeyswitchKey>)
    requires sim_ctx(c), cts.len() == n_int(t), forall|k: int| 0 <= k < n_int(t) ==> is_choice(#[trigger] cts[k], preorder(t)[k], cl, *neg, km, *c),
    ensures enc_wf(built(t, cts), c.n()),
{
    assert forall|k: int| 0 <= k < n_int(t) implies (#[trigger] cts[k]).wf() && cts[k].n() == c.n() && 0 < cts[k].b() * cts[k].l() < 64 by { assert(is_choice(cts[k], preorder(t)[k], cl, *neg, km, *c)); }
    lemma_enc_wf(t, cts, c.n());
}
// C19 from one end to the other: what the server computes for an encrypted feature vector decrypts to the label
pub proof fn theorem_simulated(t: Node, cts: Seq<RGSWCiphertext>, cl: Seq<Vec<RLWECiphertext>>, s: Seq<u64>, f: Seq<usize>, c: &Context, neg: &RGSWCiphertext, km: Map<usize, FourierRLWEKeyswitchKey>, outs: Seq<RLWECiphertext>)
    requires t is Internal, sim_ctx(c), sim_keys(c, s, neg, km), sim_input(c, s, cl, f), fits(t, f.len() as int, c.n() as int), cts.len() == n_int(t),
        forall|k: int| 0 <= k < n_int(t) ==> is_choice(#[trigger] cts[k], preorder(t)[k], cl, *neg, km, *c),
        all_wf(outs, c.n()), outs.len() <= 64, enc_max(built(t, cts)) < pow2(outs.len()),
        rows(outs) == acc(Seq::new(outs.len(), |k: int| pzero(2 * c.n())), built(t, cts), c.n(), pzero(c.n()) + pconst(c.n(), c.codec.enc(1))),
    ensures answers(outs, s, c, label(t, f), room(t, s, c)),
{
    reveal(answers);
    let n = s.len(); let e = c.std.nb() as int;
    if room(t, s, c) {
        let bb = choose|bb: int| #[trigger] room_bb(t, s, c, bb);
        let z = choice_bound(s, c.ks_level_count.0 as nat, c.ks_base_log.0 as int, e, c.negs_base_log.0 as int, c.negs_level_count.0 as nat, e, e);
        lemma_preorder(t);
        theorem_choices(t, cts, cl, s, f, e, bb, c, neg, km, c.ks_level_count.0 as nat, e, e);
        lemma_kids(t); lemma_on(Some(t));
        assert(cts[0].n() == n);
        assert(cts[0].l() >= 1) by (nonlinear_arith) requires 0 < cts[0].b() * cts[0].l(), cts[0].l() >= 0;
        assert(2 * 0 + 1 == 1int);
        assert(near(phase(row(cts[0].sv(), n, 1), s), pscale(pconst(n, ibit(goes_left(t, f, 0))), gad(cts[0].b(), 1)), z));
        assert(cd(phase(row(cts[0].sv(), n, 1), s)[0], pscale(pconst(n, ibit(goes_left(t, f, 0))), gad(cts[0].b(), 1))[0]) <= z);
        assert(z >= 0);
        theorem_pdte(t, cts, s, f, z, bb, &c.codec, outs.len(), rows(outs));
        assert(Seq::new(outs.len(), |k: int| c.codec.pdec(phase(outs[k].sv(), s))[0] == 1) =~= Seq::new(outs.len(), |k: int| c.codec.pdec(phase(rows(outs)[k], s))[0] == 1));
    }
}
#fn SimulationResult::new
#sig
ensures r.input_count == input_count, r.predictions == predictions, r.std == ctx.std, r.poly_size == ctx.poly_size, r.base_log == ctx.base_log, r.level_count == ctx.level_count,
    r.ks_base_log == ctx.ks_base_log, r.ks_level_count == ctx.ks_level_count, r.negs_base_log == ctx.negs_base_log, r.negs_level_count == ctx.negs_level_count,
#drop SimulationResult.Display
#fn simulate
#opt lty0=Vec<Vec<RLWECiphertext>>
#opt lty1=Vec<RLWECiphertext>
#opt lty2=Vec<RLWECiphertext>
#panic !room(*model, sk.sv(), &ctx)
#sig
requires model is Internal,
    forall|i: int| 0 <= i < features@.len() ==> evalable(*model, (#[trigger] features@[i])@.len() as int) && fits(*model, features@[i]@.len() as int, 2048),
    forall|i: int, j: int| 0 <= i < features@.len() && 0 <= j < features@[i]@.len() ==> #[trigger] features@[i]@[j] < 2048,
ensures r.input_count == features@.len(), r.predictions@.len() == features@.len(), forall|i: int| 0 <= i < features@.len() ==> (#[trigger] r.predictions@[i]) == label(*model, features@[i]@),
#at after:let:ctx#0
proof { lemma_workable(&TFHEParameters { standard_deviation: ctx.std.0, polynomial_size: ctx.poly_size.0, base_log: ctx.base_log.0, level_count: ctx.level_count.0, key_switch_base_log: ctx.ks_base_log.0,
    key_switch_level_count: ctx.ks_level_count.0, negs_base_log: ctx.negs_base_log.0, negs_level_count: ctx.negs_level_count.0, plaintext_modulus: ctx.codec.t() as u64, secure_seed: true }, &ctx); }
let ghost __ctx = ctx;
let ghost mut __cts: Seq<RGSWCiphertext> = Seq::empty();
#loop 0
invariant __n0 == features@.len(), ctx.wf(), ctx.same(&__ctx), forall|k: int| 0 <= k < __k0 ==> sim_input(&ctx, sk.sv(), (#[trigger] __c0@[k])@, features@[k]@),
#at loop0.after
proof { assert(sim_ctx(&ctx));
    assert(sk.sv().len() == ctx.n()); assert(is_bin(sk.sv())); assert(neg_sk_ct.b() == ctx.negs_base_log.0); assert(neg_sk_ct.l() == ctx.negs_level_count.0);
    assert(is_rgsw(neg_sk_ct.sv(), ctx.n(), neg_sk_ct.l(), neg_sk_ct.b(), sk.sv(), pneg(sk.sv()), ctx.std.nb() as int));
    lemma2_to64(); let __tk = crate::rt::trace_k(ctx.n() as int, 1); assert(__tk == ctx.n() + 1);
    assert(fmap_l(ksk_map@, ctx.n()) == ctx.ks_level_count.0);
    assert(fmap_b(ksk_map@, ctx.n()) == ctx.ks_base_log.0);
    assert(sim_keys(&ctx, sk.sv(), &neg_sk_ct, ksk_map@)); lemma_preorder(*model); }
#loop 1
invariant __n1 == features@.len(), forall|k: int| 0 <= k < __k1 ==> answers((#[trigger] __c1@[k])@, sk.sv(), &ctx, label(*model, features@[k]@), room(*model, sk.sv(), &ctx)),
#loop 2
invariant __n2 == features@.len(), forall|k: int| 0 <= k < __k2 ==> answers((#[trigger] __c2@[k])@, sk.sv(), &ctx, label(*model, features@[k]@), room(*model, sk.sv(), &ctx)),
#at loop1.begin
proof {
    assert forall|i: int| 0 <= i < client_cts@[__k1 as int]@.len() implies all_wf((#[trigger] client_cts@[__k1 as int]@[i])@, ctx.n()) && client_cts@[__k1 as int]@[i]@.len() == ctx.level_count.0 by { assert(sim_input(&ctx, sk.sv(), client_cts@[__k1 as int]@, features@[__k1 as int]@)); assert(features@[__k1 as int]@[i] < ctx.n()); }
    assert(sim_input(&ctx, sk.sv(), client_cts@[__k1 as int]@, features@[__k1 as int]@)); assert(fits(*model, features@[__k1 as int]@.len() as int, 2048)); }
#at loop2.begin
proof {
    assert forall|i: int| 0 <= i < client_cts@[__k2 as int]@.len() implies all_wf((#[trigger] client_cts@[__k2 as int]@[i])@, ctx.n()) && client_cts@[__k2 as int]@[i]@.len() == ctx.level_count.0 by { assert(sim_input(&ctx, sk.sv(), client_cts@[__k2 as int]@, features@[__k2 as int]@)); assert(features@[__k2 as int]@[i] < ctx.n()); }
    assert(sim_input(&ctx, sk.sv(), client_cts@[__k2 as int]@, features@[__k2 as int]@)); assert(fits(*model, features@[__k2 as int]@.len() as int, 2048)); }
#at after:let:rgsw_cts#0
proof { __cts = rgsw_cts.left(); lemma_sim_wf(*model, __cts, ct@, &ctx, &neg_sk_ct, ksk_map@); lemma_on(Some(*model)); }
#at after:let:rgsw_cts#1
proof { __cts = rgsw_cts.left(); lemma_sim_wf(*model, __cts, ct@, &ctx, &neg_sk_ct, ksk_map@); lemma_on(Some(*model)); }
#at loop1.end
proof { theorem_simulated(*model, __cts, client_cts@[__j1 as int]@, sk.sv(), features@[__j1 as int]@, &ctx, &neg_sk_ct, ksk_map@, __c1@[__j1 as int]@); }
#at loop2.end
proof { theorem_simulated(*model, __cts, client_cts@[__j2 as int]@, sk.sv(), features@[__j2 as int]@, &ctx, &neg_sk_ct, ksk_map@, __c2@[__j2 as int]@); }
#loop 3
invariant __n3 == features@.len(), predictions@.len() == __k3, forall|k: int| 0 <= k < __k3 ==> #[trigger] predictions@[k] == label(*model, features@[k]@),
#at loop3.begin
proof { reveal(answers); assert(answers(output_cts@[__k3 as int]@, sk.sv(), &ctx, label(*model, features@[__k3 as int]@), room(*model, sk.sv(), &ctx))); }
