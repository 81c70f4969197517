#prelude
verus! {
// ---------------------------------------------------------------- the ring Z_{2^64}[X]/(X^n+1)
pub mod ring {
use vstd::prelude::*;
use crate::shim::*;

pub open spec fn wrap(x: int) -> u64 { (x % 0x1_0000_0000_0000_0000) as u64 }
pub open spec fn wadd(a: u64, b: u64) -> u64 { wrap(a + b) }
pub open spec fn wsub(a: u64, b: u64) -> u64 { wrap(a - b) }
pub open spec fn wneg(a: u64) -> u64 { wrap(-(a as int)) }
pub open spec fn wmul(a: u64, b: u64) -> u64 { wrap(a * b) }

pub open spec fn padd(a: Seq<u64>, b: Seq<u64>) -> Seq<u64> { Seq::new(a.len(), |i: int| wadd(a[i], b[i])) }
pub open spec fn psub(a: Seq<u64>, b: Seq<u64>) -> Seq<u64> { Seq::new(a.len(), |i: int| wsub(a[i], b[i])) }
pub open spec fn pneg(a: Seq<u64>) -> Seq<u64> { Seq::new(a.len(), |i: int| wneg(a[i])) }
pub open spec fn pscale(a: Seq<u64>, c: u64) -> Seq<u64> { Seq::new(a.len(), |i: int| wmul(a[i], c)) }
pub open spec fn pzero(n: nat) -> Seq<u64> { Seq::new(n, |i: int| 0u64) }
pub open spec fn pconst(n: nat, c: u64) -> Seq<u64> { Seq::new(n, |i: int| if i == 0 { c } else { 0u64 }) }
pub open spec fn pmono(n: nat, d: int, c: u64) -> Seq<u64> { Seq::new(n, |i: int| if i == d { c } else { 0u64 }) }

// coefficient of X^j of b, for -n <= j < n, where X^n = -1
pub open spec fn bcoef(b: Seq<u64>, j: int) -> int { if j >= 0 { b[j] as int } else { -(b[j + b.len()] as int) } }
// sum_{i < m} a_i * b_{k-i}
pub open spec fn pmulc(a: Seq<u64>, b: Seq<u64>, k: int, m: nat) -> int
    decreases m
{ if m == 0 { 0 } else { pmulc(a, b, k, (m - 1) as nat) + a[m - 1] * bcoef(b, k - (m - 1)) } }
pub open spec fn pmul(a: Seq<u64>, b: Seq<u64>) -> Seq<u64> { Seq::new(a.len(), |k: int| wrap(pmulc(a, b, k, a.len()))) }

// a(X) * X^{-d}
pub open spec fn pdivmono(a: Seq<u64>, d: int) -> Seq<u64> {
    Seq::new(a.len(), |i: int| if i + d < a.len() { a[i + d] } else { wneg(a[i + d - a.len()]) })
}
// what X^{i*k} reduces to
pub open spec fn ev_pos(n: int, k: int, i: int) -> int { (i * k) % n }
pub open spec fn ev_sgn(n: int, k: int, i: int, c: u64) -> u64 { if ((i * k) / n) % 2 == 0 { c } else { wneg(c) } }
// o is a(X^k)
pub open spec fn is_pev(o: Seq<u64>, a: Seq<u64>, k: int) -> bool {
    o.len() == a.len() && forall|i: int| 0 <= i < a.len() ==>
        o[#[trigger] ev_pos(a.len() as int, k, i)] == ev_sgn(a.len() as int, k, i, a[i])
}

// ---- GLWE ciphertexts of dimension 1: mask ++ body
pub open spec fn mask_of(ct: Seq<u64>, n: nat) -> Seq<u64> { ct.subrange(0, n as int) }
pub open spec fn body_of(ct: Seq<u64>, n: nat) -> Seq<u64> { ct.subrange(n as int, 2 * n as int) }
pub open spec fn phase(ct: Seq<u64>, s: Seq<u64>) -> Seq<u64> {
    psub(body_of(ct, s.len()), pmul(mask_of(ct, s.len()), s))
}
pub open spec fn row(g: Seq<u64>, n: nat, k: int) -> Seq<u64> { g.subrange(k * (2 * n), (k + 1) * (2 * n)) }

// ---- equality up to a bounded error in every coefficient, on the circle of length 2^64
pub open spec fn cd(a: u64, b: u64) -> int {
    let d = (a as int - b as int) % 0x1_0000_0000_0000_0000;
    if d <= 0x8000_0000_0000_0000 { d } else { 0x1_0000_0000_0000_0000 - d }
}
pub open spec fn near(p: Seq<u64>, q: Seq<u64>, b: int) -> bool {
    p.len() == q.len() && forall|i: int| #![trigger p[i]] #![trigger q[i]] 0 <= i < p.len() ==> cd(p[i], q[i]) <= b
}
pub open spec fn gad(base: int, level: int) -> u64 { pow2((64 - base * level) as nat) as u64 }

// the rows of a gadget encryption of m under s, each within e of its exact value
pub open spec fn top_row(m: Seq<u64>, s: Seq<u64>, base: int, level: int) -> Seq<u64> { pneg(pmul(pscale(m, gad(base, level)), s)) }
pub open spec fn is_rgsw(g: Seq<u64>, n: nat, l: nat, base: int, s: Seq<u64>, m: Seq<u64>, e: int) -> bool {
    &&& s.len() == n && m.len() == n && g.len() == 2 * l * (2 * n)
    &&& forall|k: int| 0 <= k < l ==> near(phase(#[trigger] row(g, n, 2 * k), s), top_row(m, s, base, k + 1), e)
    &&& forall|k: int| 0 <= k < l ==> near(phase(#[trigger] row(g, n, 2 * k + 1), s), pscale(m, gad(base, k + 1)), e)
}

// mask is the k-th one drawn from the randomness of root (ghost; only the contract of the generator grants it)
pub uninterp spec fn drawn(root: u128, k: nat, mask: Seq<u64>) -> bool;
// ct is the k-th encryption (under s) made with the randomness of root
#[verifier::opaque]
pub open spec fn fresh(ct: Seq<u64>, s: Seq<u64>, root: u128, k: nat) -> bool { drawn(root, k, ct.subrange(0, s.len() as int)) }
pub open spec fn is_bin(s: Seq<u64>) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == 0 || s[i] == 1 }
// the seed carries entropy from the operating system
pub uninterp spec fn entropic(seed: u128) -> bool;
}
} // verus!
#end
