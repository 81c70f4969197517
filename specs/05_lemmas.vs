#prelude
verus! {
// ---------------------------------------------------------------- the algebra of Z_{2^64}[X]/(X^n+1)  (everything here is proved)
pub mod rl {
use vstd::prelude::*;
use vstd::arithmetic::div_mod::*;
use crate::shim::*;
use crate::ring::*;
use crate::cc::{pdigit, pdigit0, closest, digit, pclosest, sd_carry, sd_dig, sd_next, sd_state, dot, lwe_phase, sample_extract};
use crate::ccf::{ep, ep_sum};

pub open spec fn eqm(x: int, y: int) -> bool { x % 0x1_0000_0000_0000_0000 == y % 0x1_0000_0000_0000_0000 }
pub broadcast proof fn l_wrap(x: int) ensures #[trigger] wrap(x) as int == x % 0x1_0000_0000_0000_0000, eqm(wrap(x) as int, x) {}
pub proof fn l_wrap_eq(x: int, y: int) requires eqm(x, y) ensures wrap(x) == wrap(y) {}
pub proof fn l_eq_u(a: u64, b: u64) requires eqm(a as int, b as int) ensures a == b {}
pub proof fn e_mul(a: int, b: int, c: int, d: int) requires eqm(a, b), eqm(c, d) ensures eqm(a * c, b * d)
{
    lemma_mul_mod_noop(a, c, 0x1_0000_0000_0000_0000);
    lemma_mul_mod_noop(b, d, 0x1_0000_0000_0000_0000);
}
pub proof fn e_mul_r(a: int, c: int, d: int) requires eqm(c, d) ensures eqm(a * c, a * d), eqm(c * a, d * a)
{ e_mul(a, a, c, d); e_mul(c, d, a, a); }

// wrap absorbs wraps
pub proof fn w_w(b: int, t: int) ensures wrap(b - wrap(t)) == wrap(b - t), wrap(wrap(t) - b) == wrap(t - b), wrap(wrap(t) + b) == wrap(t + b), wrap(b + wrap(t)) == wrap(b + t), wrap(-(wrap(t) as int)) == wrap(-t)
{
    let m = 0x1_0000_0000_0000_0000int; let q = t / m;
    lemma_fundamental_div_mod(t, m);
    lemma_mod_multiples_vanish(q, b - t, m);
    lemma_mod_multiples_vanish(-q, t - b, m);
    lemma_mod_multiples_vanish(-q, t + b, m);
    lemma_mod_multiples_vanish(q, -t, m);
    assert(b - wrap(t) == m * q + (b - t));
    assert(wrap(t) - b == m * (-q) + (t - b)) by (nonlinear_arith) requires wrap(t) == t - m * q;
    assert(wrap(t) + b == m * (-q) + (t + b)) by (nonlinear_arith) requires wrap(t) == t - m * q;
    assert(-(wrap(t) as int) == m * q + (-t));
}
pub proof fn e_add(a: int, b: int, c: int, d: int) requires eqm(a, b), eqm(c, d) ensures eqm(a + c, b + d)
{ lemma_add_mod_noop(a, c, 0x1_0000_0000_0000_0000); lemma_add_mod_noop(b, d, 0x1_0000_0000_0000_0000); }
pub proof fn e_neg(a: int, b: int) requires eqm(a, b) ensures eqm(-a, -b)
{ w_w(0, a); w_w(0, b); assert(wrap(a) == wrap(b)); assert(wrap(-a) == wrap(-b)); }
pub proof fn w_sum(x: int, p: int, q: int) requires eqm(x, p + q) ensures wrap(x) == wadd(wrap(p), wrap(q)) { w_w(wrap(p) as int, q); w_w(q, p); }
// X * b
pub open spec fn rot(b: Seq<u64>) -> Seq<u64> { Seq::new(b.len(), |i: int| if i == 0 { wneg(b[b.len() - 1]) } else { b[i - 1] }) }
pub open spec fn rotn(b: Seq<u64>, m: nat) -> Seq<u64> decreases m { if m == 0 { b } else { rot(rotn(b, (m - 1) as nat)) } }

pub proof fn l_rotn_len(b: Seq<u64>, m: nat) ensures rotn(b, m).len() == b.len() decreases m { if m > 0 { l_rotn_len(b, (m - 1) as nat); } }

// ---- linearity in the right operand
pub proof fn l_bcoef_add(b: Seq<u64>, c: Seq<u64>, j: int)
    requires b.len() == c.len(), -b.len() <= j < b.len(),
    ensures eqm(bcoef(padd(b, c), j), bcoef(b, j) + bcoef(c, j)),
{}
pub proof fn l_mulc_add_r(a: Seq<u64>, b: Seq<u64>, c: Seq<u64>, k: int, m: nat)
    requires b.len() == c.len(), a.len() == b.len(), m <= a.len(), 0 <= k < a.len(),
    ensures eqm(pmulc(a, padd(b, c), k, m), pmulc(a, b, k, m) + pmulc(a, c, k, m)),
    decreases m,
{
    if m > 0 {
        l_mulc_add_r(a, b, c, k, (m - 1) as nat);
        let j = k - (m - 1);
        l_bcoef_add(b, c, j);
        let x = a[m - 1] as int;
        e_mul_r(x, bcoef(padd(b, c), j), bcoef(b, j) + bcoef(c, j));
        assert(x * (bcoef(b, j) + bcoef(c, j)) == x * bcoef(b, j) + x * bcoef(c, j)) by (nonlinear_arith);
        let (p, q) = (pmulc(a, b, k, (m - 1) as nat), pmulc(a, c, k, (m - 1) as nat));
        e_add(pmulc(a, padd(b, c), k, (m - 1) as nat), p + q, x * bcoef(padd(b, c), j), x * bcoef(b, j) + x * bcoef(c, j));
    }
}
pub proof fn l_mul_add_r(a: Seq<u64>, b: Seq<u64>, c: Seq<u64>)
    requires a.len() == b.len(), b.len() == c.len(),
    ensures pmul(a, padd(b, c)) == padd(pmul(a, b), pmul(a, c)),
{
    assert forall|k: int| 0 <= k < a.len() implies pmul(a, padd(b, c))[k] == padd(pmul(a, b), pmul(a, c))[k] by { l_mulc_add_r(a, b, c, k, a.len()); w_sum(pmulc(a, padd(b, c), k, a.len()), pmulc(a, b, k, a.len()), pmulc(a, c, k, a.len())); }
    assert(pmul(a, padd(b, c)) =~= padd(pmul(a, b), pmul(a, c)));
}
// ---- linearity in the left operand
pub proof fn l_mulc_add_l(a: Seq<u64>, b: Seq<u64>, c: Seq<u64>, k: int, m: nat)
    requires b.len() == c.len(), a.len() == b.len(), m <= a.len(), 0 <= k < a.len(),
    ensures eqm(pmulc(padd(a, b), c, k, m), pmulc(a, c, k, m) + pmulc(b, c, k, m)),
    decreases m,
{
    if m > 0 {
        l_mulc_add_l(a, b, c, k, (m - 1) as nat);
        let y = bcoef(c, k - (m - 1));
        let (p, q) = (a[m - 1] as int, b[m - 1] as int);
        e_mul_r(y, wadd(a[m - 1], b[m - 1]) as int, p + q);
        assert((p + q) * y == p * y + q * y) by (nonlinear_arith);
        let (u, v) = (pmulc(a, c, k, (m - 1) as nat), pmulc(b, c, k, (m - 1) as nat));
        e_add(pmulc(padd(a, b), c, k, (m - 1) as nat), u + v, wadd(a[m - 1], b[m - 1]) * y, p * y + q * y);
    }
}
pub proof fn l_mul_add_l(a: Seq<u64>, b: Seq<u64>, c: Seq<u64>)
    requires a.len() == b.len(), b.len() == c.len(),
    ensures pmul(padd(a, b), c) == padd(pmul(a, c), pmul(b, c)),
{
    assert forall|k: int| 0 <= k < a.len() implies pmul(padd(a, b), c)[k] == padd(pmul(a, c), pmul(b, c))[k] by { l_mulc_add_l(a, b, c, k, a.len()); w_sum(pmulc(padd(a, b), c, k, a.len()), pmulc(a, c, k, a.len()), pmulc(b, c, k, a.len())); }
    assert(pmul(padd(a, b), c) =~= padd(pmul(a, c), pmul(b, c)));
}
// ---- scaling
pub proof fn l_mulc_scale_l(a: Seq<u64>, b: Seq<u64>, c: u64, k: int, m: nat)
    requires a.len() == b.len(), m <= a.len(), 0 <= k < a.len(),
    ensures eqm(pmulc(pscale(a, c), b, k, m), c * pmulc(a, b, k, m)),
    decreases m,
{
    if m > 0 {
        l_mulc_scale_l(a, b, c, k, (m - 1) as nat);
        let (x, y, z, p) = (a[m - 1] as int, bcoef(b, k - (m - 1)), c as int, pmulc(a, b, k, (m - 1) as nat));
        e_mul_r(y, wmul(a[m - 1], c) as int, x * z);
        assert((x * z) * y == z * (x * y)) by (nonlinear_arith);
        e_add(pmulc(pscale(a, c), b, k, (m - 1) as nat), z * p, wmul(a[m - 1], c) * y, z * (x * y));
        assert(z * (p + x * y) == z * p + z * (x * y)) by (nonlinear_arith);
    } else { assert(c * 0 == 0); }
}
pub proof fn l_mul_scale_l(a: Seq<u64>, b: Seq<u64>, c: u64)
    requires a.len() == b.len(),
    ensures pmul(pscale(a, c), b) == pscale(pmul(a, b), c),
{
    assert forall|k: int| 0 <= k < a.len() implies pmul(pscale(a, c), b)[k] == pscale(pmul(a, b), c)[k] by {
        l_mulc_scale_l(a, b, c, k, a.len());
        let p = pmulc(a, b, k, a.len());
        e_mul_r(c as int, wrap(p) as int, p);
        assert(c * wrap(p) == wrap(p) * c) by (nonlinear_arith);
    }
    assert(pmul(pscale(a, c), b) =~= pscale(pmul(a, b), c));
}
// ---- multiplication by X
pub proof fn l_bcoef_rot(b: Seq<u64>, j: int)
    requires -b.len() < j < b.len(),
    ensures eqm(bcoef(rot(b), j), bcoef(b, j - 1)),
{}
pub proof fn l_mulc_rot_r(a: Seq<u64>, b: Seq<u64>, k: int, m: nat)
    requires a.len() == b.len(), m <= a.len(), 0 <= k < a.len(),
    ensures k > 0 ==> eqm(pmulc(a, rot(b), k, m), pmulc(a, b, k - 1, m)),
        k == 0 ==> eqm(pmulc(a, rot(b), 0, m), -pmulc(a, b, a.len() - 1, m)),
    decreases m,
{
    if m > 0 {
        l_mulc_rot_r(a, b, k, (m - 1) as nat);
        let (x, j) = (a[m - 1] as int, k - (m - 1));
        l_bcoef_rot(b, j);
        e_mul_r(x, bcoef(rot(b), j), bcoef(b, j - 1));
        if k == 0 {
            let n = a.len() as int;
            assert(bcoef(b, j - 1) == -bcoef(b, n - 1 - (m - 1)));
            let y = bcoef(b, n - 1 - (m - 1));
            assert(x * (-y) == -(x * y)) by (nonlinear_arith);
            e_add(pmulc(a, rot(b), 0, (m - 1) as nat), -pmulc(a, b, n - 1, (m - 1) as nat), x * bcoef(rot(b), j), -(x * y));
        } else {
            e_add(pmulc(a, rot(b), k, (m - 1) as nat), pmulc(a, b, k - 1, (m - 1) as nat), x * bcoef(rot(b), j), x * bcoef(b, j - 1));
        }
    }
}
pub proof fn l_mul_rot_r(a: Seq<u64>, b: Seq<u64>)
    requires a.len() == b.len(),
    ensures pmul(a, rot(b)) == rot(pmul(a, b)),
{
    assert forall|k: int| 0 <= k < a.len() implies pmul(a, rot(b))[k] == rot(pmul(a, b))[k] by { l_mulc_rot_r(a, b, k, a.len()); let p = pmulc(a, b, a.len() - 1, a.len()); w_w(0, p); if k == 0 { l_wrap_eq(pmulc(a, rot(b), 0, a.len()), -p); } else { l_wrap_eq(pmulc(a, rot(b), k, a.len()), pmulc(a, b, k - 1, a.len())); } }
    assert(pmul(a, rot(b)) =~= rot(pmul(a, b)));
}
// sum over i < m of rot(a)_i b_{k-i}, against the sum for a up to m - 1
pub proof fn l_mulc_rot_l(a: Seq<u64>, b: Seq<u64>, k: int, m: nat)
    requires a.len() == b.len(), 0 < m <= a.len(), 0 <= k < a.len(),
    ensures k > 0 ==> eqm(pmulc(rot(a), b, k, m), pmulc(a, b, k - 1, (m - 1) as nat) - a[a.len() - 1] * b[k]),
        k == 0 ==> eqm(pmulc(rot(a), b, 0, m), -pmulc(a, b, a.len() - 1, (m - 1) as nat) - a[a.len() - 1] * b[0]),
    decreases m,
{
    let n = a.len() as int;
    if m == 1 {
        let (x, y) = (a[n - 1] as int, b[k] as int);
        e_mul_r(y, wneg(a[n - 1]) as int, -x);
        assert((-x) * y == -(x * y)) by (nonlinear_arith);
        assert(pmulc(rot(a), b, k, 0) == 0);
        assert(pmulc(rot(a), b, k, 1) == 0 + rot(a)[0] * bcoef(b, k - 0));
        assert(bcoef(b, k) == y);
    } else {
        l_mulc_rot_l(a, b, k, (m - 1) as nat);
        let x = a[m - 2] as int;
        assert(rot(a)[m - 1] == a[m - 2]);
        if k == 0 {
            let y = bcoef(b, n - 1 - (m - 2));
            assert(bcoef(b, 0 - (m - 1)) == -y);
            assert(x * (-y) == -(x * y)) by (nonlinear_arith);
        }
    }
}
pub proof fn l_mul_rot_l(a: Seq<u64>, b: Seq<u64>)
    requires a.len() == b.len(),
    ensures pmul(rot(a), b) == rot(pmul(a, b)),
{
    let n = a.len() as int;
    assert forall|k: int| 0 <= k < n implies pmul(rot(a), b)[k] == rot(pmul(a, b))[k] by {
        l_mulc_rot_l(a, b, k, a.len());
        let (x, y) = (a[n - 1] as int, b[k] as int);
        if k > 0 {
            assert(bcoef(b, k - 1 - (n - 1)) == -y);
            assert(x * (-y) == -(x * y)) by (nonlinear_arith);
            assert(pmulc(a, b, k - 1, a.len()) == pmulc(a, b, k - 1, (n - 1) as nat) + x * (-y));
            l_wrap_eq(pmulc(rot(a), b, k, a.len()), pmulc(a, b, k - 1, a.len()));
        } else {
            assert(bcoef(b, 0) == y);
            let p = pmulc(a, b, n - 1, a.len());
            assert(p == pmulc(a, b, n - 1, (n - 1) as nat) + x * y);
            w_w(0, p);
            l_wrap_eq(pmulc(rot(a), b, 0, a.len()), -p);
        }
    }
    assert(pmul(rot(a), b) =~= rot(pmul(a, b)));
}
// ---- one
pub proof fn l_mulc_zero_l(b: Seq<u64>, k: int, m: nat) requires m <= b.len(), 0 <= k < b.len() ensures pmulc(pzero(b.len()), b, k, m) == 0 decreases m
{ if m > 0 { l_mulc_zero_l(b, k, (m - 1) as nat); assert(0 * bcoef(b, k - (m - 1)) == 0); } }
pub proof fn l_mul_zero_l(b: Seq<u64>) ensures pmul(pzero(b.len()), b) == pzero(b.len())
{
    assert forall|k: int| 0 <= k < b.len() implies pmul(pzero(b.len()), b)[k] == 0 by { l_mulc_zero_l(b, k, b.len()); }
    assert(pmul(pzero(b.len()), b) =~= pzero(b.len()));
}
pub proof fn l_mulc_one_l(b: Seq<u64>, k: int, m: nat) requires 0 < m <= b.len(), 0 <= k < b.len() ensures pmulc(pconst(b.len(), 1), b, k, m) == b[k] decreases m
{
    if m > 1 { l_mulc_one_l(b, k, (m - 1) as nat); assert(0 * bcoef(b, k - (m - 1)) == 0); }
    else { assert(pmulc(pconst(b.len(), 1), b, k, 0) == 0); assert(pmulc(pconst(b.len(), 1), b, k, 1) == 0 + 1 * bcoef(b, k - 0)); }
}
pub proof fn l_mul_one_l(b: Seq<u64>) ensures pmul(pconst(b.len(), 1), b) == b
{
    assert forall|k: int| 0 <= k < b.len() implies pmul(pconst(b.len(), 1), b)[k] == b[k] by { l_mulc_one_l(b, k, b.len()); }
    assert(pmul(pconst(b.len(), 1), b) =~= b);
}
pub proof fn l_mulc_one_r(a: Seq<u64>, k: int, m: nat) requires m <= a.len(), 0 <= k < a.len() ensures pmulc(a, pconst(a.len(), 1), k, m) == (if k < m { a[k] as int } else { 0 }) decreases m
{
    if m > 0 {
        l_mulc_one_r(a, k, (m - 1) as nat);
        let (x, y) = (a[m - 1] as int, bcoef(pconst(a.len(), 1), k - (m - 1)));
        if k == m - 1 { assert(y == 1); assert(x * 1 == x); } else { assert(y == 0); assert(x * 0 == 0); }
    }
}
pub proof fn l_mul_one_r(a: Seq<u64>) ensures pmul(a, pconst(a.len(), 1)) == a
{
    assert forall|k: int| 0 <= k < a.len() implies pmul(a, pconst(a.len(), 1))[k] == a[k] by { l_mulc_one_r(a, k, a.len()); }
    assert(pmul(a, pconst(a.len(), 1)) =~= a);
}
// ---- powers of X, and every polynomial as a sum of them
pub proof fn l_rot_mono(n: nat, m: nat)
    requires m < n,
    ensures rotn(pconst(n, 1), m) == pmono(n, m as int, 1),
    decreases m,
{
    if m == 0 { assert(rotn(pconst(n, 1), 0) =~= pmono(n, 0, 1)); }
    else { l_rot_mono(n, (m - 1) as nat); assert(rot(pmono(n, m - 1, 1)) =~= pmono(n, m as int, 1)); }
}
pub open spec fn trunc(a: Seq<u64>, m: int) -> Seq<u64> { Seq::new(a.len(), |i: int| if i < m { a[i] } else { 0u64 }) }
pub proof fn w_unit(a: u64) ensures wadd(a, 0) == a, wadd(0, a) == a, wmul(1, a) == a, wmul(0, a) == 0, wmul(a, 1) == a, wmul(a, 0) == 0 {}
pub proof fn l_trunc(a: Seq<u64>, m: nat)
    requires m < a.len(),
    ensures trunc(a, (m + 1) as int) == padd(trunc(a, m as int), pscale(rotn(pconst(a.len(), 1), m), a[m as int])),
        trunc(a, 0) == pzero(a.len()), trunc(a, a.len() as int) == a,
{
    l_rot_mono(a.len(), m);
    let (x, y) = (trunc(a, (m + 1) as int), padd(trunc(a, m as int), pscale(pmono(a.len(), m as int, 1), a[m as int])));
    assert forall|i: int| 0 <= i < a.len() implies x[i] == y[i] by { w_unit(a[i]); w_unit(a[m as int]); }
    assert(x =~= y);
    assert(trunc(a, 0) =~= pzero(a.len()));
    assert(trunc(a, a.len() as int) =~= a);
}
pub proof fn l_mul_rotn_l(a: Seq<u64>, b: Seq<u64>, m: nat)
    requires a.len() == b.len(),
    ensures pmul(rotn(a, m), b) == rotn(pmul(a, b), m),
    decreases m,
{ if m > 0 { l_mul_rotn_l(a, b, (m - 1) as nat); l_rotn_len(a, (m - 1) as nat); l_mul_rot_l(rotn(a, (m - 1) as nat), b); } }
pub proof fn l_mul_rotn_r(a: Seq<u64>, b: Seq<u64>, m: nat)
    requires a.len() == b.len(),
    ensures pmul(a, rotn(b, m)) == rotn(pmul(a, b), m),
    decreases m,
{ if m > 0 { l_mul_rotn_r(a, b, (m - 1) as nat); l_rotn_len(b, (m - 1) as nat); l_mul_rot_r(a, rotn(b, (m - 1) as nat)); } }
pub proof fn l_mulc_scale_r(a: Seq<u64>, b: Seq<u64>, c: u64, k: int, m: nat)
    requires a.len() == b.len(), m <= a.len(), 0 <= k < a.len(),
    ensures eqm(pmulc(a, pscale(b, c), k, m), c * pmulc(a, b, k, m)),
    decreases m,
{
    if m > 0 {
        l_mulc_scale_r(a, b, c, k, (m - 1) as nat);
        let j = k - (m - 1);
        let (x, y, z, p) = (a[m - 1] as int, bcoef(b, j), c as int, pmulc(a, b, k, (m - 1) as nat));
        assert(eqm(bcoef(pscale(b, c), j), y * z)) by {
            if j < 0 { let w = b[j + b.len()] as int; assert((-w) * z == -(w * z)) by (nonlinear_arith); }
        }
        e_mul_r(x, bcoef(pscale(b, c), j), y * z);
        assert(x * (y * z) == z * (x * y)) by (nonlinear_arith);
        e_add(pmulc(a, pscale(b, c), k, (m - 1) as nat), z * p, x * bcoef(pscale(b, c), j), z * (x * y));
        assert(z * (p + x * y) == z * p + z * (x * y)) by (nonlinear_arith);
    } else { assert(c * 0 == 0); }
}
pub proof fn l_mul_scale_r(a: Seq<u64>, b: Seq<u64>, c: u64)
    requires a.len() == b.len(),
    ensures pmul(a, pscale(b, c)) == pscale(pmul(a, b), c),
{
    assert forall|k: int| 0 <= k < a.len() implies pmul(a, pscale(b, c))[k] == pscale(pmul(a, b), c)[k] by {
        l_mulc_scale_r(a, b, c, k, a.len());
        let p = pmulc(a, b, k, a.len());
        e_mul_r(c as int, wrap(p) as int, p);
        assert(c * wrap(p) == wrap(p) * c) by (nonlinear_arith);
    }
    assert(pmul(a, pscale(b, c)) =~= pscale(pmul(a, b), c));
}
// ---- commutativity, associativity
pub proof fn l_mul_comm_t(a: Seq<u64>, b: Seq<u64>, m: nat)
    requires a.len() == b.len(), m <= a.len(),
    ensures pmul(trunc(a, m as int), b) == pmul(b, trunc(a, m as int)),
    decreases m,
{
    if m == 0 {
        assert(trunc(a, 0) =~= pzero(a.len()));
        l_mul_zero_l(b);
        assert(pzero(a.len()) =~= pscale(pzero(a.len()), 0));
        l_mul_scale_r(b, pzero(a.len()), 0);
        assert(pscale(pmul(b, pzero(a.len())), 0) =~= pzero(a.len())) by { assert forall|x: u64| #[trigger] wmul(x, 0) == 0 by { assert(x * 0 == 0); } }
    } else {
        let t = trunc(a, m - 1);
        l_mul_comm_t(a, b, (m - 1) as nat);
        l_trunc(a, (m - 1) as nat);
        let one = pconst(a.len(), 1);
        let x = rotn(one, (m - 1) as nat);
        l_rotn_len(one, (m - 1) as nat);
        let c = a[m - 1];
        l_mul_add_l(t, pscale(x, c), b);
        l_mul_add_r(b, t, pscale(x, c));
        l_mul_scale_l(x, b, c);
        l_mul_scale_r(b, x, c);
        l_mul_rotn_l(one, b, (m - 1) as nat);
        l_mul_rotn_r(b, one, (m - 1) as nat);
        l_mul_one_l(b); l_mul_one_r(b);
    }
}
pub proof fn l_mul_comm(a: Seq<u64>, b: Seq<u64>)
    requires a.len() == b.len(),
    ensures pmul(a, b) == pmul(b, a),
{ l_mul_comm_t(a, b, a.len()); assert(trunc(a, a.len() as int) =~= a); }
pub proof fn l_mul_assoc_t(a: Seq<u64>, b: Seq<u64>, c: Seq<u64>, m: nat)
    requires a.len() == b.len(), b.len() == c.len(), m <= a.len(),
    ensures pmul(pmul(trunc(a, m as int), b), c) == pmul(trunc(a, m as int), pmul(b, c)),
    decreases m,
{
    if m == 0 {
        assert(trunc(a, 0) =~= pzero(a.len()));
        l_mul_zero_l(b); l_mul_zero_l(c); l_mul_zero_l(pmul(b, c));
    } else {
        let t = trunc(a, m - 1);
        l_mul_assoc_t(a, b, c, (m - 1) as nat);
        l_trunc(a, (m - 1) as nat);
        let one = pconst(a.len(), 1);
        let k = (m - 1) as nat;
        let x = rotn(one, k);
        l_rotn_len(one, k);
        let z = a[m - 1];
        let bc = pmul(b, c);
        l_mul_add_l(t, pscale(x, z), b);
        l_mul_add_l(pmul(t, b), pmul(pscale(x, z), b), c);
        l_mul_add_l(t, pscale(x, z), bc);
        l_mul_scale_l(x, b, z);
        l_mul_scale_l(pmul(x, b), c, z);
        l_mul_scale_l(x, bc, z);
        l_mul_rotn_l(one, b, k); l_mul_one_l(b);
        l_rotn_len(b, k);
        l_mul_rotn_l(b, c, k);
        l_mul_rotn_l(one, bc, k); l_mul_one_l(bc);
    }
}
pub proof fn l_mul_assoc(a: Seq<u64>, b: Seq<u64>, c: Seq<u64>)
    requires a.len() == b.len(), b.len() == c.len(),
    ensures pmul(pmul(a, b), c) == pmul(a, pmul(b, c)),
{ l_mul_assoc_t(a, b, c, a.len()); assert(trunc(a, a.len() as int) =~= a); }
// ---- negation and subtraction
pub proof fn l_neg(a: Seq<u64>) ensures pneg(a) == pscale(a, u64::MAX)
{
    assert forall|x: u64| wneg(x) == #[trigger] wmul(x, u64::MAX) by { assert((x * 0xffff_ffff_ffff_ffff) % 0x1_0000_0000_0000_0000 == (-(x as int)) % 0x1_0000_0000_0000_0000) by (nonlinear_arith); }
    assert(pneg(a) =~= pscale(a, u64::MAX)) by { assert forall|i: int| 0 <= i < a.len() implies #[trigger] pneg(a)[i] == pscale(a, u64::MAX)[i] by { assert(wmul(a[i], u64::MAX) == wneg(a[i])); } }
}
pub proof fn l_sub(a: Seq<u64>, b: Seq<u64>) requires a.len() == b.len() ensures psub(a, b) == padd(a, pneg(b))
{ assert(psub(a, b) =~= padd(a, pneg(b))); }
pub proof fn l_mul_neg_l(a: Seq<u64>, b: Seq<u64>) requires a.len() == b.len() ensures pmul(pneg(a), b) == pneg(pmul(a, b))
{ l_neg(a); l_neg(pmul(a, b)); l_mul_scale_l(a, b, u64::MAX); }
pub proof fn l_mul_neg_r(a: Seq<u64>, b: Seq<u64>) requires a.len() == b.len() ensures pmul(a, pneg(b)) == pneg(pmul(a, b))
{ l_neg(b); l_neg(pmul(a, b)); l_mul_scale_r(a, b, u64::MAX); }
pub proof fn l_mul_sub_l(a: Seq<u64>, b: Seq<u64>, c: Seq<u64>) requires a.len() == b.len(), b.len() == c.len() ensures pmul(psub(a, b), c) == psub(pmul(a, c), pmul(b, c))
{ l_sub(a, b); l_mul_add_l(a, pneg(b), c); l_mul_neg_l(b, c); l_sub(pmul(a, c), pmul(b, c)); }
pub proof fn l_mul_sub_r(a: Seq<u64>, b: Seq<u64>, c: Seq<u64>) requires a.len() == b.len(), b.len() == c.len() ensures pmul(a, psub(b, c)) == psub(pmul(a, b), pmul(a, c))
{ l_sub(b, c); l_mul_add_r(a, b, pneg(c)); l_mul_neg_r(a, c); l_sub(pmul(a, b), pmul(a, c)); }
pub proof fn l_mul_zero_r(a: Seq<u64>) ensures pmul(a, pzero(a.len())) == pzero(a.len())
{ l_mul_comm(a, pzero(a.len())); l_mul_zero_l(a); }
// ---- division by a power of X
pub proof fn l_rotn_at(a: Seq<u64>, m: nat, i: int)
    requires m <= a.len(), 0 <= i < a.len(),
    ensures rotn(a, m)[i] == if i >= m { a[i - m] } else { wneg(a[i - m + a.len()]) },
    decreases m,
{
    if m > 0 {
        l_rotn_len(a, (m - 1) as nat);
        if i > 0 { l_rotn_at(a, (m - 1) as nat, i - 1); } else { l_rotn_at(a, (m - 1) as nat, a.len() - 1); }
    }
}
pub proof fn l_divmono(a: Seq<u64>, d: nat)
    requires d < a.len(),
    ensures pdivmono(a, d as int) == pneg(rotn(a, (a.len() - d) as nat)),
{
    let m = (a.len() - d) as nat;
    l_rotn_len(a, m);
    assert forall|i: int| 0 <= i < a.len() implies pdivmono(a, d as int)[i] == pneg(rotn(a, m))[i] by { l_rotn_at(a, m, i); }
    assert(pdivmono(a, d as int) =~= pneg(rotn(a, m)));
}
pub proof fn l_mul_divmono(a: Seq<u64>, b: Seq<u64>, d: nat)
    requires a.len() == b.len(), d < a.len(),
    ensures pmul(pdivmono(a, d as int), b) == pdivmono(pmul(a, b), d as int),
{
    let m = (a.len() - d) as nat;
    l_divmono(a, d); l_divmono(pmul(a, b), d); l_rotn_len(a, m);
    l_mul_neg_l(rotn(a, m), b); l_mul_rotn_l(a, b, m);
}
pub proof fn l_rotn_neg(a: Seq<u64>, m: nat) ensures rotn(pneg(a), m) == pneg(rotn(a, m)) decreases m
{
    if m > 0 { l_rotn_neg(a, (m - 1) as nat); l_rotn_len(a, (m - 1) as nat); assert(rot(pneg(rotn(a, (m - 1) as nat))) =~= pneg(rot(rotn(a, (m - 1) as nat)))); }
}
pub proof fn w_sub4(a: u64, b: u64, c: u64, d: u64) ensures wsub(wsub(a, b), wsub(c, d)) == wsub(wsub(a, c), wsub(b, d))
{ w_w(wsub(a, b) as int, c - d); w_w(c - d, a - b); w_w(wsub(a, c) as int, b - d); w_w(b - d, a - c); assert((a - b) - (c - d) == (a - c) - (b - d)); }
pub proof fn w_addsub4(a: u64, b: u64, c: u64, d: u64) ensures wsub(wadd(a, b), wadd(c, d)) == wadd(wsub(a, c), wsub(b, d))
{ w_w(wadd(a, b) as int, c + d); w_w(c + d, a + b); w_w(wsub(a, c) as int, b - d); w_w(b - d, a - c); assert((a + b) - (c + d) == (a - c) + (b - d)); }
// ---- phases
pub open spec fn gsplit(c: Seq<u64>, n: nat) -> bool { c.len() == 2 * n }
pub proof fn l_phase_add(c: Seq<u64>, d: Seq<u64>, s: Seq<u64>)
    requires c.len() == 2 * s.len(), d.len() == 2 * s.len(),
    ensures phase(padd(c, d), s) == padd(phase(c, s), phase(d, s)),
{
    let n = s.len();
    assert(mask_of(padd(c, d), n) =~= padd(mask_of(c, n), mask_of(d, n)));
    assert(body_of(padd(c, d), n) =~= padd(body_of(c, n), body_of(d, n)));
    l_mul_add_l(mask_of(c, n), mask_of(d, n), s);
    assert forall|i: int| 0 <= i < n implies #[trigger] phase(padd(c, d), s)[i] == padd(phase(c, s), phase(d, s))[i] by {
        w_addsub4(body_of(c, n)[i], body_of(d, n)[i], pmul(mask_of(c, n), s)[i], pmul(mask_of(d, n), s)[i]);
    }
    assert(phase(padd(c, d), s) =~= padd(phase(c, s), phase(d, s)));
}
pub proof fn l_phase_sub(c: Seq<u64>, d: Seq<u64>, s: Seq<u64>)
    requires c.len() == 2 * s.len(), d.len() == 2 * s.len(),
    ensures phase(psub(c, d), s) == psub(phase(c, s), phase(d, s)),
{
    let n = s.len();
    assert(mask_of(psub(c, d), n) =~= psub(mask_of(c, n), mask_of(d, n)));
    assert(body_of(psub(c, d), n) =~= psub(body_of(c, n), body_of(d, n)));
    l_mul_sub_l(mask_of(c, n), mask_of(d, n), s);
    assert forall|i: int| 0 <= i < n implies #[trigger] phase(psub(c, d), s)[i] == psub(phase(c, s), phase(d, s))[i] by {
        w_sub4(body_of(c, n)[i], body_of(d, n)[i], pmul(mask_of(c, n), s)[i], pmul(mask_of(d, n), s)[i]);
    }
    assert(phase(psub(c, d), s) =~= psub(phase(c, s), phase(d, s)));
}
pub proof fn l_phase_zero(s: Seq<u64>)
    ensures phase(pzero(2 * s.len()), s) == pzero(s.len()),
{
    let n = s.len();
    assert(mask_of(pzero(2 * n), n) =~= pzero(n));
    assert(body_of(pzero(2 * n), n) =~= pzero(n));
    l_mul_zero_l(s);
    assert(phase(pzero(2 * n), s) =~= pzero(n));
}
pub proof fn l_cat(m: Seq<u64>, b: Seq<u64>, n: nat)
    requires m.len() == n, b.len() == n,
    ensures mask_of(m + b, n) == m, body_of(m + b, n) == b, (m + b).len() == 2 * n,
{ assert(mask_of(m + b, n) =~= m); assert(body_of(m + b, n) =~= b); }
pub open spec fn gdivmono(c: Seq<u64>, n: nat, d: int) -> Seq<u64> { pdivmono(mask_of(c, n), d) + pdivmono(body_of(c, n), d) }
pub proof fn l_phase_divmono(c: Seq<u64>, s: Seq<u64>, d: nat)
    requires c.len() == 2 * s.len(), d < s.len(),
    ensures phase(gdivmono(c, s.len(), d as int), s) == pdivmono(phase(c, s), d as int),
{
    let n = s.len();
    let (m, b) = (mask_of(c, n), body_of(c, n));
    l_cat(pdivmono(m, d as int), pdivmono(b, d as int), n);
    l_mul_divmono(m, s, d);
    l_sub_divmono(b, pmul(m, s), d as int);
}
pub proof fn w_negsub(a: u64, b: u64) ensures wsub(wneg(a), wneg(b)) == wneg(wsub(a, b))
{ w_w(wneg(a) as int, -(b as int)); w_w(-(b as int), -(a as int)); w_w(0, a - b); assert(-a - (-b) == -(a - b)); }
pub proof fn l_sub_divmono(a: Seq<u64>, b: Seq<u64>, d: int)
    requires a.len() == b.len(), 0 <= d < a.len(),
    ensures psub(pdivmono(a, d), pdivmono(b, d)) == pdivmono(psub(a, b), d),
{
    let (x, y) = (psub(pdivmono(a, d), pdivmono(b, d)), pdivmono(psub(a, b), d));
    assert forall|i: int| 0 <= i < a.len() implies x[i] == y[i] by { if i + d >= a.len() { w_negsub(a[i + d - a.len()], b[i + d - a.len()]); } }
    assert(x =~= y);
}
pub open spec fn gmul(r: Seq<u64>, n: nat, p: Seq<u64>) -> Seq<u64> { pmul(mask_of(r, n), p) + pmul(body_of(r, n), p) }
pub proof fn l_phase_mul(c: Seq<u64>, s: Seq<u64>, p: Seq<u64>)
    requires c.len() == 2 * s.len(), p.len() == s.len(),
    ensures phase(gmul(c, s.len(), p), s) == pmul(phase(c, s), p),
{
    let n = s.len();
    let (m, b) = (mask_of(c, n), body_of(c, n));
    l_cat(pmul(m, p), pmul(b, p), n);
    l_mul_assoc(m, p, s); l_mul_comm(p, s); l_mul_assoc(m, s, p);
    l_mul_sub_l(b, pmul(m, s), p);
}
// ---- sizes of errors
pub open spec fn abs(x: u64) -> int { if x <= 0x8000_0000_0000_0000 { x as int } else { 0x1_0000_0000_0000_0000 - x } }
pub open spec fn iabs(x: int) -> int { if x < 0 { -x } else { x } }
pub open spec fn sg(x: u64) -> int { if x <= 0x8000_0000_0000_0000 { x as int } else { x - 0x1_0000_0000_0000_0000 } }
pub proof fn l_cd_abs(a: u64, b: u64) ensures cd(a, b) == abs(wsub(a, b)), cd(a, b) == cd(b, a), cd(a, b) >= 0, (cd(a, b) == 0 <==> a == b) {}
pub proof fn a_add(x: u64, y: u64) ensures abs(wadd(x, y)) <= abs(x) + abs(y), abs(wsub(x, y)) <= abs(x) + abs(y) {}
pub proof fn l_abs_wrap(t: int) ensures abs(wrap(t)) <= iabs(t)
{
    let m = 0x1_0000_0000_0000_0000int;
    let (q, r) = (t / m, t % m);
    if t >= 0 { if t < m { } } else { }
}
pub proof fn l_abs_mul(a: u64, b: u64) ensures abs(wmul(a, b)) <= abs(a) * abs(b)
{
    let (x, y) = (sg(a), sg(b));
    e_mul(a as int, x, b as int, y);
    assert(wmul(a, b) == wrap(x * y));
    l_abs_wrap(x * y);
    assert(iabs(x * y) == iabs(x) * iabs(y)) by (nonlinear_arith) requires true;
}
pub open spec fn l1c(a: Seq<u64>, m: nat) -> int decreases m { if m == 0 { 0 } else { l1c(a, (m - 1) as nat) + abs(a[m - 1]) } }
pub open spec fn l1(a: Seq<u64>) -> int { l1c(a, a.len()) }
// the largest magnitude
pub open spec fn maxc(a: Seq<u64>, m: nat) -> int decreases m { if m == 0 { 0 } else if abs(a[m - 1]) > maxc(a, (m - 1) as nat) { abs(a[m - 1]) } else { maxc(a, (m - 1) as nat) } }
pub open spec fn linf(a: Seq<u64>) -> int { maxc(a, a.len()) }
pub proof fn l_linf(a: Seq<u64>, m: nat, i: int)
    requires m <= a.len(),
    ensures 0 <= maxc(a, m) <= 0x8000_0000_0000_0000, 0 <= i < m ==> abs(a[i]) <= maxc(a, m), maxc(a, m) == 0 || exists|j: int| 0 <= j < m && abs(#[trigger] a[j]) == maxc(a, m),
    decreases m,
{ if m > 0 { l_linf(a, (m - 1) as nat, i); } }
pub open spec fn small(a: Seq<u64>, b: int) -> bool { forall|i: int| 0 <= i < a.len() ==> abs(#[trigger] a[i]) <= b }
pub proof fn l_l1_small(a: Seq<u64>, b: int, m: nat)
    requires small(a, b), m <= a.len(),
    ensures 0 <= l1c(a, m) <= m * b,
    decreases m,
{ if m > 0 { l_l1_small(a, b, (m - 1) as nat); let x = m - 1; assert(m * b == x * b + b) by (nonlinear_arith) requires x == m - 1; } else { assert(0 * b == 0); } }
pub proof fn l_l1_pos(a: Seq<u64>, m: nat) requires m <= a.len() ensures 0 <= l1c(a, m) decreases m { if m > 0 { l_l1_pos(a, (m - 1) as nat); } }
pub proof fn l_l1_const(n: nat, c: u64, m: nat) requires m <= n, n > 0 ensures l1c(pconst(n, c), m) == (if m == 0 { 0 } else { abs(c) }) decreases m { if m > 0 { l_l1_const(n, c, (m - 1) as nat); } }
// |sum_{i<m} a_i b_{k-i}| <= |a|_1 B
pub proof fn l_mulc_term(p: int, x: u64, y: int, bd: int, l: int)
    requires abs(wrap(y)) <= bd, abs(wrap(p)) <= l * bd,
    ensures abs(wrap(p + x * y)) <= (l + abs(x)) * bd,
{
    let xi = x as int;
    l_abs_mul(x, wrap(y));
    e_mul_r(xi, wrap(y) as int, y);
    assert(wmul(x, wrap(y)) == wrap(xi * y));
    let z = xi * y;
    w_w(p, z); w_w(wrap(z) as int, p);
    assert(wrap(p + z) == wadd(wrap(p), wrap(z)));
    a_add(wrap(p), wrap(z));
    let (u, v) = (abs(x), abs(wrap(y)));
    assert(u * v <= u * bd) by (nonlinear_arith) requires 0 <= u, 0 <= v <= bd;
    assert((l + u) * bd == l * bd + u * bd) by (nonlinear_arith);
}
#[verifier::spinoff_prover]
pub proof fn l_mulc_small(a: Seq<u64>, b: Seq<u64>, bd: int, k: int, m: nat)
    requires a.len() == b.len(), small(b, bd), m <= a.len(), 0 <= k < a.len(),
    ensures abs(wrap(pmulc(a, b, k, m))) <= l1c(a, m) * bd,
    decreases m,
{
    if m > 0 {
        l_mulc_small(a, b, bd, k, (m - 1) as nat);
        let (p, x, y) = (pmulc(a, b, k, (m - 1) as nat), a[m - 1], bcoef(b, k - (m - 1)));
        assert(abs(wrap(y)) <= bd) by { let j = k - (m - 1); if j < 0 { let z = b[j + b.len()]; assert(abs(z) <= bd); } }
        l_mulc_term(p, x, y, bd, l1c(a, (m - 1) as nat));
    } else { assert(0 * bd == 0); }
}
pub proof fn l_mul_small(a: Seq<u64>, b: Seq<u64>, bd: int)
    requires a.len() == b.len(), small(b, bd),
    ensures small(pmul(a, b), l1(a) * bd),
{ assert forall|k: int| 0 <= k < a.len() implies abs(#[trigger] pmul(a, b)[k]) <= l1(a) * bd by { l_mulc_small(a, b, bd, k, a.len()); } }
// ---- near
pub proof fn n_small(p: Seq<u64>, q: Seq<u64>, b: int) requires p.len() == q.len() ensures near(p, q, b) <==> small(psub(p, q), b)
{
    assert forall|i: int| 0 <= i < p.len() implies cd(p[i], q[i]) == abs(#[trigger] psub(p, q)[i]) by { l_cd_abs(p[i], q[i]); }
    if near(p, q, b) { assert forall|i: int| 0 <= i < p.len() implies abs(#[trigger] psub(p, q)[i]) <= b by { assert(cd(p[i], q[i]) <= b); } }
    if small(psub(p, q), b) { assert forall|i: int| 0 <= i < p.len() implies cd(p[i], q[i]) <= b by { assert(abs(psub(p, q)[i]) <= b); } }
}
pub proof fn n_refl(p: Seq<u64>, b: int) requires b >= 0 ensures near(p, p, b) {}
pub proof fn n_sym(p: Seq<u64>, q: Seq<u64>, b: int) requires near(p, q, b) ensures near(q, p, b) {}
pub proof fn n_weak(p: Seq<u64>, q: Seq<u64>, b: int, c: int) requires near(p, q, b), b <= c ensures near(p, q, c) {}
pub proof fn n_trans(p: Seq<u64>, q: Seq<u64>, r: Seq<u64>, b: int, c: int) requires near(p, q, b), near(q, r, c) ensures near(p, r, b + c)
{ assert forall|i: int| 0 <= i < p.len() implies cd(p[i], r[i]) <= b + c by { assert(cd(p[i], q[i]) <= b); assert(cd(q[i], r[i]) <= c); } }
pub proof fn n_add(p: Seq<u64>, q: Seq<u64>, r: Seq<u64>, t: Seq<u64>, b: int, c: int)
    requires near(p, q, b), near(r, t, c), p.len() == r.len(),
    ensures near(padd(p, r), padd(q, t), b + c),
{ assert forall|i: int| 0 <= i < p.len() implies cd(padd(p, r)[i], padd(q, t)[i]) <= b + c by {
    assert(cd(p[i], q[i]) <= b); assert(cd(r[i], t[i]) <= c);
    w_addsub4(p[i], r[i], q[i], t[i]); l_cd_abs(p[i], q[i]); l_cd_abs(r[i], t[i]); l_cd_abs(wadd(p[i], r[i]), wadd(q[i], t[i]));
    a_add(wsub(p[i], q[i]), wsub(r[i], t[i]));
} }
pub proof fn n_sub(p: Seq<u64>, q: Seq<u64>, r: Seq<u64>, t: Seq<u64>, b: int, c: int)
    requires near(p, q, b), near(r, t, c), p.len() == r.len(),
    ensures near(psub(p, r), psub(q, t), b + c),
{ assert forall|i: int| 0 <= i < p.len() implies cd(psub(p, r)[i], psub(q, t)[i]) <= b + c by {
    assert(cd(p[i], q[i]) <= b); assert(cd(r[i], t[i]) <= c);
    w_sub4(p[i], r[i], q[i], t[i]); l_cd_abs(p[i], q[i]); l_cd_abs(r[i], t[i]); l_cd_abs(wsub(p[i], r[i]), wsub(q[i], t[i]));
    a_add(wsub(p[i], q[i]), wsub(r[i], t[i]));
} }
pub proof fn n_neg(p: Seq<u64>, q: Seq<u64>, b: int) requires near(p, q, b) ensures near(pneg(p), pneg(q), b)
{ assert forall|i: int| 0 <= i < p.len() implies cd(pneg(p)[i], pneg(q)[i]) <= b by { assert(cd(p[i], q[i]) <= b); } }
pub proof fn n_mul(m: Seq<u64>, p: Seq<u64>, q: Seq<u64>, b: int)
    requires near(p, q, b), m.len() == p.len(),
    ensures near(pmul(m, p), pmul(m, q), l1(m) * b), near(pmul(p, m), pmul(q, m), l1(m) * b),
{
    n_small(p, q, b);
    l_mul_small(m, psub(p, q), b);
    l_mul_sub_r(m, p, q);
    n_small(pmul(m, p), pmul(m, q), l1(m) * b);
    l_mul_comm(p, m); l_mul_comm(q, m);
}

// ---------------------------------------------------------------- rows of an RGSW ciphertext
pub open spec fn rowset(g: Seq<u64>, n: nat, k: int, f: Seq<u64>) -> Seq<u64> { g.subrange(0, k * (2 * n)) + f + g.subrange((k + 1) * (2 * n), g.len() as int) }
pub proof fn l_rowlen(g: Seq<u64>, n: nat, c: nat, k: int)
    requires g.len() == c * (2 * n), 0 <= k < c,
    ensures 0 <= k * (2 * n), (k + 1) * (2 * n) == k * (2 * n) + 2 * n, (k + 1) * (2 * n) <= g.len(), row(g, n, k).len() == 2 * n,
{
    assert((k + 1) * (2 * n) == k * (2 * n) + 2 * n) by (nonlinear_arith);
    assert((k + 1) * (2 * n) <= c * (2 * n)) by (nonlinear_arith) requires k + 1 <= c, n >= 0;
    assert(0 <= k * (2 * n)) by (nonlinear_arith) requires 0 <= k, n >= 0;
}
pub proof fn l_rowset(g: Seq<u64>, n: nat, c: nat, k: int, f: Seq<u64>, j: int)
    requires g.len() == c * (2 * n), 0 <= k < c, 0 <= j < c, f.len() == 2 * n,
    ensures rowset(g, n, k, f).len() == g.len(), row(rowset(g, n, k, f), n, j) == if j == k { f } else { row(g, n, j) },
{
    l_rowlen(g, n, c, k); l_rowlen(g, n, c, j);
    let h = rowset(g, n, k, f);
    if j < k { assert((j + 1) * (2 * n) <= k * (2 * n)) by (nonlinear_arith) requires j + 1 <= k, n >= 0; assert(row(h, n, j) =~= row(g, n, j)); }
    else if j > k { assert((k + 1) * (2 * n) <= j * (2 * n)) by (nonlinear_arith) requires k + 1 <= j, n >= 0; assert(row(h, n, j) =~= row(g, n, j)); }
    else { assert(row(h, n, j) =~= f); }
}
pub proof fn l_phase_addmask(c: Seq<u64>, s: Seq<u64>, d: Seq<u64>)
    requires c.len() == 2 * s.len(), d.len() == s.len(),
    ensures phase(padd(mask_of(c, s.len()), d) + body_of(c, s.len()), s) == psub(phase(c, s), pmul(d, s)),
{
    let n = s.len(); let (a, b) = (mask_of(c, n), body_of(c, n));
    l_cat(padd(a, d), b, n);
    l_mul_add_l(a, d, s);
    let (x, y) = (pmul(a, s), pmul(d, s));
    assert(phase(padd(a, d) + b, s) =~= psub(phase(c, s), y)) by {
        assert forall|i: int| 0 <= i < n implies wsub(b[i], wadd(x[i], y[i])) == wsub(wsub(b[i], x[i]), y[i]) by { w_subadd(b[i], x[i], y[i]); }
    }
}
pub proof fn w_subadd(b: u64, x: u64, y: u64) ensures wsub(b, wadd(x, y)) == wsub(wsub(b, x), y), wsub(wadd(b, y), x) == wadd(wsub(b, x), y)
{ w_w(b as int, x + y); w_w(y as int, b - x); w_w(x as int, b + y); }
pub proof fn l_phase_addbody(c: Seq<u64>, s: Seq<u64>, d: Seq<u64>)
    requires c.len() == 2 * s.len(), d.len() == s.len(),
    ensures phase(mask_of(c, s.len()) + padd(body_of(c, s.len()), d), s) == padd(phase(c, s), d),
{
    let n = s.len(); let (a, b) = (mask_of(c, n), body_of(c, n));
    l_cat(a, padd(b, d), n);
    let x = pmul(a, s);
    assert(phase(a + padd(b, d), s) =~= padd(phase(c, s), d)) by {
        assert forall|i: int| 0 <= i < n implies wsub(wadd(b[i], d[i]), x[i]) == wadd(wsub(b[i], x[i]), d[i]) by { w_subadd(b[i], x[i], d[i]); }
    }
}
pub proof fn l_scale_zero(n: nat, c: u64) ensures pscale(pconst(n, 0), c) == pzero(n), pconst(n, 0) == pzero(n)
{ assert(pconst(n, 0) =~= pzero(n)); assert(pscale(pconst(n, 0), c) =~= pzero(n)); }
pub proof fn l_zero_unit(a: Seq<u64>) ensures padd(a, pzero(a.len())) == a, padd(pzero(a.len()), a) == a, psub(a, pzero(a.len())) == a, psub(pzero(a.len()), a) == pneg(a), pneg(pzero(a.len())) == pzero(a.len())
{ let n = a.len(); assert(padd(a, pzero(n)) =~= a); assert(padd(pzero(n), a) =~= a); assert(psub(a, pzero(n)) =~= a); assert(psub(pzero(n), a) =~= pneg(a)); assert(pneg(pzero(n)) =~= pzero(n)); }
// what encrypt_rgsw does with an encryption of zero
pub open spec fn rgsw_shift(r: Seq<u64>, n: nat, k: int, m: Seq<u64>, base: int) -> Seq<u64> {
    let d = pscale(m, gad(base, k / 2 + 1));
    if k % 2 == 0 { padd(mask_of(r, n), d) + body_of(r, n) } else { mask_of(r, n) + padd(body_of(r, n), d) }
}
pub proof fn l_rgsw_plain(g0: Seq<u64>, g1: Seq<u64>, n: nat, l: nat, base: int, s: Seq<u64>, m: Seq<u64>, e: int)
    requires is_rgsw(g0, n, l, base, s, pconst(n, 0), e), g1.len() == g0.len(), m.len() == n,
        forall|k: int| 0 <= k < 2 * l ==> #[trigger] row(g1, n, k) == rgsw_shift(row(g0, n, k), n, k, m, base),
    ensures is_rgsw(g1, n, l, base, s, m, e),
{
    assert(2 * l * (2 * n) == (2 * l) * (2 * n));
    assert forall|k: int| 0 <= k < l implies near(phase(#[trigger] row(g1, n, 2 * k), s), top_row(m, s, base, k + 1), e) by {
        l_rowlen(g0, n, 2 * l, 2 * k);
        let d = pscale(m, gad(base, k + 1));
        assert((2 * k) / 2 == k && (2 * k) % 2 == 0);
        l_phase_addmask(row(g0, n, 2 * k), s, d);
        l_scale_zero(n, gad(base, k + 1)); l_mul_zero_l(s); l_zero_unit(s);
        let z = phase(row(g0, n, 2 * k), s);
        assert(near(z, pzero(n), e));
        n_z(z, pzero(n), e);
        n_refl(pmul(d, s), 0);
        n_sub(z, pzero(n), pmul(d, s), pmul(d, s), e, 0);
        l_zero_unit(pmul(d, s));
    }
    assert forall|k: int| 0 <= k < l implies near(phase(#[trigger] row(g1, n, 2 * k + 1), s), pscale(m, gad(base, k + 1)), e) by {
        l_rowlen(g0, n, 2 * l, 2 * k + 1);
        let d = pscale(m, gad(base, k + 1));
        assert((2 * k + 1) / 2 == k && (2 * k + 1) % 2 == 1);
        l_phase_addbody(row(g0, n, 2 * k + 1), s, d);
        l_scale_zero(n, gad(base, k + 1));
        let z = phase(row(g0, n, 2 * k + 1), s);
        assert(near(z, pzero(n), e));
        n_refl(d, 0);
        n_add(z, pzero(n), d, d, e, 0);
        l_zero_unit(d);
    }
}
pub proof fn n_z(p: Seq<u64>, q: Seq<u64>, e: int) requires near(p, q, e) ensures p.len() == q.len() {}

// ---------------------------------------------------------------- key switching
// row j encrypts before * 2^(64 - b(j+1)) under after
pub open spec fn is_ksk(ks: Seq<Seq<u64>>, before: Seq<u64>, after: Seq<u64>, b: int, e: int) -> bool {
    &&& before.len() == after.len()
    &&& forall|j: int| 0 <= j < ks.len() ==> (#[trigger] ks[j]).len() == 2 * after.len() && near(phase(ks[j], after), pscale(before, gad(b, j + 1)), e)
}
pub open spec fn ks_acc(ks: Seq<Seq<u64>>, n: nat, b: int, d: Seq<u64>, m: nat) -> Seq<u64> decreases m {
    if m == 0 { pzero(n) + body_of(d, n) } else { psub(ks_acc(ks, n, b, d, (m - 1) as nat), gmul(ks[ks.len() - m], n, pdigit(b, ks.len() as int, mask_of(d, n), ks.len() - m + 1))) }
}
// what switching d with ks gives
pub open spec fn ks_out(ks: Seq<Seq<u64>>, n: nat, b: int, d: Seq<u64>) -> Seq<u64> { ks_acc(ks, n, b, d, ks.len()) }
pub proof fn l_ks_len(ks: Seq<Seq<u64>>, n: nat, b: int, d: Seq<u64>, m: nat)
    requires m <= ks.len(), d.len() == 2 * n,
    ensures ks_acc(ks, n, b, d, m).len() == 2 * n,
    decreases m
{ if m > 0 { l_ks_len(ks, n, b, d, (m - 1) as nat); } }
// c is d with X replaced by X^k in mask and body
pub open spec fn is_pev_ct(c: Seq<u64>, d: Seq<u64>, n: nat, k: int) -> bool {
    c.len() == 2 * n && d.len() == 2 * n && is_pev(mask_of(c, n), mask_of(d, n), k) && is_pev(body_of(c, n), body_of(d, n), k)
}
pub open spec fn is_subs_out(o: Seq<u64>, ks: Seq<Seq<u64>>, n: nat, b: int, k: int, d: Seq<u64>) -> bool {
    exists|c: Seq<u64>| #[trigger] is_pev_ct(c, d, n, k) && o == ks_out(ks, n, b, c)
}

// ---------------------------------------------------------------- signed digits
pub proof fn l_carry(b: int, s: int)
    requires b >= 1, s >= 0,
    ensures -(pow2((b - 1) as nat) as int) <= sd_dig(b, s) <= pow2((b - 1) as nat), sd_next(b, s) >= 0, sd_dig(b, s) + sd_next(b, s) * pow2(b as nat) == s,
{
    let bb = pow2(b as nat) as int; let h = pow2((b - 1) as nat) as int;
    lemma_pow2_unfold(b as nat); lemma_pow2_pos((b - 1) as nat);
    assert(bb == 2 * h);
    lemma_fundamental_div_mod(s, bb);
    let (q, r, c) = (s / bb, s % bb, sd_carry(b, s));
    assert(q >= 0) by (nonlinear_arith) requires q == s / bb, s >= 0, bb > 0;
    assert(c * bb == if c == 1 { bb } else { 0 });
    assert((q + c) * bb == bb * q + c * bb) by (nonlinear_arith);
}
pub proof fn l_state_pos(b: int, s: int, j: nat) requires b >= 1, s >= 0 ensures sd_state(b, s, j) >= 0 decreases j
{ if j > 0 { l_state_pos(b, s, (j - 1) as nat); l_carry(b, sd_state(b, s, (j - 1) as nat)); } }
pub proof fn l_digit_small(b: int, l: int, y: u64, level: int)
    requires b >= 1, 1 <= level <= l, 0 < b * l < 64,
    ensures abs(digit(b, l, y, level)) <= pow2((b - 1) as nat),
{
    let k = pow2((64 - b * l) as nat) as int; lemma_pow2_pos((64 - b * l) as nat);
    let s = (y as int) / k;
    assert(s >= 0) by (nonlinear_arith) requires s == (y as int) / k, k > 0, y >= 0;
    l_state_pos(b, s, (l - level) as nat);
    let t = sd_state(b, s, (l - level) as nat);
    l_carry(b, t);
    l_abs_wrap(sd_dig(b, t));
}
pub proof fn l_pdigit_small(b: int, l: int, x: Seq<u64>, level: int)
    requires b >= 1, 1 <= level <= l, 0 < b * l < 64,
    ensures small(pdigit(b, l, x, level), pow2((b - 1) as nat) as int),
{ assert forall|i: int| 0 <= i < x.len() implies abs(#[trigger] pdigit(b, l, x, level)[i]) <= pow2((b - 1) as nat) by { l_digit_small(b, l, closest(b, l, x[i]), level); } }
// sum of the m least significant terms
pub open spec fn rec_dn(b: int, l: int, y: u64, m: nat) -> int decreases m { if m == 0 { 0 } else { rec_dn(b, l, y, (m - 1) as nat) + digit(b, l, y, l - m + 1) * gad(b, l - m + 1) } }
pub proof fn l_gad(b: int, l: int, j: int)
    requires b >= 1, 0 <= j < l, 0 < b * l < 64,
    ensures gad(b, l - j) == pow2((64 - b * l) as nat) * pow2((b * j) as nat), 0 <= b * j, b * j < 64, b * (l - j) > 0, 64 - b * (l - j) >= 0, gad(b, l - j) == pow2((64 - b * (l - j)) as nat),
{
    assert(b * (l - j) == b * l - b * j && 0 <= b * j && b * j <= b * l && b * (l - j) >= 1) by (nonlinear_arith) requires b >= 1, 0 <= j < l;
    lemma_pow2_adds((64 - b * l) as nat, (b * j) as nat);
    let e = (64 - b * (l - j)) as nat;
    lemma_pow2_64();
    lemma_pow2_strictly_increases(e, 64);
}
pub proof fn l_rec_dn(b: int, l: int, y: u64, m: nat)
    requires b >= 1, m <= l, 0 < b * l < 64, y as int % (pow2((64 - b * l) as nat) as int) == 0,
    ensures ({ let k = pow2((64 - b * l) as nat) as int; eqm(rec_dn(b, l, y, m) + sd_state(b, (y as int) / k, m) * (k * pow2((b * m) as nat)), y as int) }),
    decreases m,
{
    let k = pow2((64 - b * l) as nat) as int; lemma_pow2_pos((64 - b * l) as nat);
    let s = (y as int) / k;
    lemma_fundamental_div_mod(y as int, k);
    if m == 0 {
        lemma_pow2_64(); assert(b * 0 == 0);
        let one = pow2(0) as int; assert(one == 1); assert(k * one == k) by (nonlinear_arith) requires one == 1;
        assert(s * k == k * s) by (nonlinear_arith);
    } else {
        let j = (m - 1) as nat;
        l_rec_dn(b, l, y, j);
        l_gad(b, l, j as int);
        assert(s >= 0) by (nonlinear_arith) requires s == (y as int) / k, k > 0, y >= 0;
        l_state_pos(b, s, j);
        let t = sd_state(b, s, j);
        l_carry(b, t);
        let (g, d, t2, bb) = (k * pow2((b * j) as nat), sd_dig(b, t), sd_next(b, t), pow2(b as nat) as int);
        lemma_pow2_adds((b * j) as nat, b as nat);
        assert(b * m == b * j + b) by (nonlinear_arith) requires m == j + 1;
        let p = pow2((b * j) as nat) as int;
        assert(k * (p * bb) == g * bb) by (nonlinear_arith) requires g == k * p;
        assert(t2 * (g * bb) == (t2 * bb) * g) by (nonlinear_arith);
        assert((d + t2 * bb) * g == d * g + (t2 * bb) * g) by (nonlinear_arith);
        assert(t * g == d * g + t2 * (g * bb));
        e_mul_r(g, wrap(d) as int, d);
        assert(l - m + 1 == l - j);
        assert(digit(b, l, y, l - m + 1) == wrap(d));
        assert(gad(b, l - m + 1) as int == g);
        let w = wrap(d) as int;
        assert(eqm(w * g, d * g));
    }
}
pub proof fn l_closest(b: int, l: int, x: u64)
    requires b >= 1, l >= 1, 0 < b * l < 64,
    ensures cd(closest(b, l, x), x) <= pow2((63 - b * l) as nat), closest(b, l, x) as int % (pow2((64 - b * l) as nat) as int) == 0,
{
    let k = pow2((64 - b * l) as nat) as int; let h = pow2((63 - b * l) as nat) as int;
    lemma_pow2_unfold((64 - b * l) as nat); lemma_pow2_pos((63 - b * l) as nat);
    lemma_pow2_64();
    if b * l > 1 { lemma_pow2_strictly_increases((63 - b * l) as nat, 62); lemma_pow2_strictly_increases(62, 63); }
    let v = x as int + k / 2; let q = v / k;
    lemma_fundamental_div_mod(v, k);
    assert(k == 2 * h);
    assert(q * k == k * q) by (nonlinear_arith);
    assert(-h <= q * k - x <= h);
    let m = 0x1_0000_0000_0000_0000int;
    assert(m == pow2((b * l) as nat) * k) by { lemma_pow2_adds((b * l) as nat, (64 - b * l) as nat); }
    let z = pow2((b * l) as nat) as int;
    assert((q * k) % (z * k) == (q % z) * k) by { lemma_pow2_pos((b * l) as nat); lemma_truncate_middle(q, z, k); }
    assert(((q % z) * k) % k == 0) by { lemma_mod_multiples_basic(q % z, k); }
    let c = wrap(q * k);
    assert(c as int == (q % z) * k);
    assert(cd(c, x) <= h) by {
        let d = q * k - x;
        assert((c as int - x as int) % m == d % m) by { assert(eqm(c as int, q * k)); }
        if d < 0 { assert(d % m == d + m); } else { assert(d % m == d); }
    }
}
pub proof fn lemma_truncate_middle(q: int, z: int, k: int) requires z > 0, k > 0 ensures (q * k) % (z * k) == (q % z) * k
{
    lemma_fundamental_div_mod(q, z);
    let (a, r) = (q / z, q % z);
    assert(q * k == (z * k) * a + r * k) by (nonlinear_arith) requires q == z * a + r;
    assert(0 <= r * k < z * k) by (nonlinear_arith) requires 0 <= r < z, k > 0;
    lemma_fundamental_div_mod_converse(q * k, z * k, a, r * k);
}
// the digits of a representable value add up to it
pub proof fn l_rec(b: int, l: int, y: u64)
    requires b >= 1, l >= 1, 0 < b * l < 64, y as int % (pow2((64 - b * l) as nat) as int) == 0,
    ensures eqm(rec_dn(b, l, y, l as nat), y as int),
{
    l_rec_dn(b, l, y, l as nat);
    let k = pow2((64 - b * l) as nat) as int;
    lemma_pow2_adds((64 - b * l) as nat, (b * l) as nat); lemma_pow2_64();
    let t = sd_state(b, (y as int) / k, l as nat);
    assert(k * pow2((b * l) as nat) == 0x1_0000_0000_0000_0000);
    assert(t * 0x1_0000_0000_0000_0000 + rec_dn(b, l, y, l as nat) == rec_dn(b, l, y, l as nat) + t * (k * pow2((b * l) as nat)));
    lemma_mod_multiples_vanish(t, rec_dn(b, l, y, l as nat), 0x1_0000_0000_0000_0000);
    assert(0x1_0000_0000_0000_0000 * t == t * 0x1_0000_0000_0000_0000) by (nonlinear_arith);
}
// ---- the same for polynomials: the terms added least significant first (dn), most significant first (up)
pub open spec fn pterm(b: int, l: int, x: Seq<u64>, level: int) -> Seq<u64> { pscale(pdigit(b, l, x, level), gad(b, level)) }
pub open spec fn prec_dn(b: int, l: int, x: Seq<u64>, m: nat) -> Seq<u64> decreases m { if m == 0 { pzero(x.len()) } else { padd(prec_dn(b, l, x, (m - 1) as nat), pterm(b, l, x, l - m + 1)) } }
pub open spec fn prec_up(b: int, l: int, x: Seq<u64>, m: nat) -> Seq<u64> decreases m { if m == 0 { pzero(x.len()) } else { padd(prec_up(b, l, x, (m - 1) as nat), pterm(b, l, x, m as int)) } }
pub proof fn l_prec_len(b: int, l: int, x: Seq<u64>, m: nat) ensures prec_dn(b, l, x, m).len() == x.len(), prec_up(b, l, x, m).len() == x.len() decreases m { if m > 0 { l_prec_len(b, l, x, (m - 1) as nat); } }
pub proof fn l_prec_dn_at(b: int, l: int, x: Seq<u64>, m: nat, i: int)
    requires m <= l, 0 <= i < x.len(),
    ensures prec_dn(b, l, x, m)[i] == wrap(rec_dn(b, l, closest(b, l, x[i]), m)),
    decreases m,
{
    l_prec_len(b, l, x, m);
    if m > 0 {
        l_prec_len(b, l, x, (m - 1) as nat);
        l_prec_dn_at(b, l, x, (m - 1) as nat, i);
        let y = closest(b, l, x[i]);
        let (r, t) = (rec_dn(b, l, y, (m - 1) as nat), digit(b, l, y, l - m + 1) * gad(b, l - m + 1));
        assert(pterm(b, l, x, l - m + 1)[i] == wrap(t));
        w_w(wrap(t) as int, r); w_w(r, t);
        assert(wadd(wrap(r), wrap(t)) == wrap(r + t));
    }
}
pub proof fn l_prec_dn(b: int, l: int, x: Seq<u64>)
    requires b >= 1, l >= 1, 0 < b * l < 64,
    ensures prec_dn(b, l, x, l as nat) == pclosest(b, l, x),
{
    l_prec_len(b, l, x, l as nat);
    assert forall|i: int| 0 <= i < x.len() implies prec_dn(b, l, x, l as nat)[i] == pclosest(b, l, x)[i] by {
        let y = closest(b, l, x[i]);
        l_prec_dn_at(b, l, x, l as nat, i);
        l_closest(b, l, x[i]); l_rec(b, l, y);
        l_wrap_eq(rec_dn(b, l, y, l as nat), y as int);
    }
    assert(prec_dn(b, l, x, l as nat) =~= pclosest(b, l, x));
}
pub proof fn l_padd_ac(a: Seq<u64>, b: Seq<u64>, c: Seq<u64>) requires a.len() == b.len(), b.len() == c.len() ensures padd(a, b) == padd(b, a), padd(padd(a, b), c) == padd(a, padd(b, c)), padd(padd(a, b), c) == padd(padd(a, c), b)
{
    assert(padd(a, b) =~= padd(b, a));
    assert(padd(padd(a, b), c) =~= padd(a, padd(b, c))) by { assert forall|i: int| 0 <= i < a.len() implies wadd(wadd(a[i], b[i]), c[i]) == wadd(a[i], wadd(b[i], c[i])) by { w_add3(a[i], b[i], c[i]); } }
    assert(padd(padd(a, b), c) =~= padd(padd(a, c), b)) by { assert forall|i: int| 0 <= i < a.len() implies wadd(wadd(a[i], b[i]), c[i]) == wadd(wadd(a[i], c[i]), b[i]) by { w_add3(a[i], b[i], c[i]); } }
}
pub proof fn w_add3(a: u64, b: u64, c: u64) ensures wadd(wadd(a, b), c) == wadd(a, wadd(b, c)), wadd(wadd(a, b), c) == wadd(wadd(a, c), b)
{ w_w(c as int, a + b); w_w(a as int, b + c); w_w(b as int, a + c); }
// prec_up with its m-th partial sum completed by the l - m least significant terms
pub proof fn l_prec_meet(b: int, l: int, x: Seq<u64>, m: nat)
    requires m <= l,
    ensures padd(prec_up(b, l, x, m), prec_dn(b, l, x, (l - m) as nat)) == prec_dn(b, l, x, l as nat),
    decreases m,
{
    if m == 0 { l_prec_len(b, l, x, l as nat); l_zero_unit(prec_dn(b, l, x, l as nat)); }
    else {
        let j = (m - 1) as nat;
        l_prec_meet(b, l, x, j);
        l_prec_len(b, l, x, j); l_prec_len(b, l, x, (l - m) as nat);
        let (u, t, d) = (prec_up(b, l, x, j), pterm(b, l, x, m as int), prec_dn(b, l, x, (l - m) as nat));
        assert(l - (l - j) + 1 == m);
        assert(prec_dn(b, l, x, (l - j) as nat) == padd(d, t));
        l_padd_ac(u, t, d); l_padd_ac(u, d, t); l_padd_ac(t, d, u);
        l_padd_ac(d, t, u);
    }
}
pub proof fn l_prec_up(b: int, l: int, x: Seq<u64>)
    requires b >= 1, l >= 1, 0 < b * l < 64,
    ensures prec_up(b, l, x, l as nat) == pclosest(b, l, x),
{ l_prec_meet(b, l, x, l as nat); l_prec_dn(b, l, x); l_prec_len(b, l, x, l as nat); l_zero_unit(prec_up(b, l, x, l as nat)); }
pub proof fn l_pclosest(b: int, l: int, x: Seq<u64>)
    requires b >= 1, l >= 1, 0 < b * l < 64,
    ensures near(pclosest(b, l, x), x, pow2((63 - b * l) as nat) as int),
{ assert forall|i: int| 0 <= i < x.len() implies cd(pclosest(b, l, x)[i], x[i]) <= pow2((63 - b * l) as nat) by { l_closest(b, l, x[i]); } }
// the error one gadget row adds: n digits of at most 2^(b-1), times the row's error
pub open spec fn gerr(n: nat, b: int, e: int) -> int { (n * pow2((b - 1) as nat)) * e }
pub proof fn l_gerr(p: Seq<u64>, q: Seq<u64>, b: int, l: int, x: Seq<u64>, level: int, e: int)
    requires near(p, q, e), p.len() == x.len(), e >= 0, b >= 1, 1 <= level <= l, 0 < b * l < 64,
    ensures near(pmul(p, pdigit(b, l, x, level)), pmul(q, pdigit(b, l, x, level)), gerr(x.len(), b, e)),
{
    let d = pdigit(b, l, x, level);
    l_pdigit_small(b, l, x, level);
    n_mul(d, p, q, e);
    l_l1_small(d, pow2((b - 1) as nat) as int, d.len());
    let h = (x.len() * pow2((b - 1) as nat)) as int;
    assert(l1(d) * e <= h * e) by (nonlinear_arith) requires l1(d) <= h, e >= 0;
}
// ---------------------------------------------------------------- what key switching computes
pub open spec fn ks_bound(before: Seq<u64>, l: nat, b: int, e: int) -> int { l * gerr(before.len(), b, e) + l1(before) * pow2((63 - b * l) as nat) }
pub proof fn l_ks_acc(ks: Seq<Seq<u64>>, before: Seq<u64>, after: Seq<u64>, b: int, d: Seq<u64>, e: int, m: nat)
    requires is_ksk(ks, before, after, b, e), d.len() == 2 * after.len(), m <= ks.len(), e >= 0, b >= 1, 0 < b * ks.len() < 64,
    ensures near(phase(ks_acc(ks, after.len(), b, d, m), after), psub(body_of(d, after.len()), pmul(before, prec_dn(b, ks.len() as int, mask_of(d, after.len()), m))), m * gerr(after.len(), b, e)),
    decreases m,
{
    let n = after.len(); let l = ks.len() as int; let a = mask_of(d, n); let bd = body_of(d, n);
    l_prec_len(b, l, a, m);
    if m == 0 {
        l_cat(pzero(n), bd, n);
        l_mul_zero_l(after); l_mul_zero_r(before); l_zero_unit(bd);
        assert(0 * gerr(n, b, e) == 0);
        n_refl(bd, 0);
    } else {
        let j = (m - 1) as nat; let q = (l - m) as int; let dg = pdigit(b, l, a, q + 1);
        l_ks_acc(ks, before, after, b, d, e, j);
        l_prec_len(b, l, a, j);
        l_ks_len(ks, n, b, d, j);
        let o = ks_acc(ks, n, b, d, j);
        let r = ks[q];
        l_phase_sub(o, gmul(r, n, dg), after);
        l_phase_mul(r, after, dg);
        let g = gad(b, q + 1);
        l_gerr(phase(r, after), pscale(before, g), b, l, a, q + 1, e);
        l_mul_scale_l(before, dg, g); l_mul_scale_r(before, dg, g);
        let t = pterm(b, l, a, q + 1);
        assert(pmul(pscale(before, g), dg) == pmul(before, t));
        let rd = prec_dn(b, l, a, j);
        n_sub(phase(o, after), psub(bd, pmul(before, rd)), pmul(phase(r, after), dg), pmul(before, t), j * gerr(n, b, e), gerr(n, b, e));
        l_mul_add_r(before, rd, t);
        l_subadd(bd, pmul(before, rd), pmul(before, t));
        let ge = gerr(n, b, e);
        assert(m * ge == j * ge + ge) by (nonlinear_arith) requires m == j + 1;
        assert(l - m + 1 == q + 1);
    }
}
pub proof fn l_subadd(b: Seq<u64>, x: Seq<u64>, y: Seq<u64>) requires b.len() == x.len(), x.len() == y.len() ensures psub(b, padd(x, y)) == psub(psub(b, x), y)
{ assert(psub(b, padd(x, y)) =~= psub(psub(b, x), y)) by { assert forall|i: int| 0 <= i < b.len() implies wsub(b[i], wadd(x[i], y[i])) == wsub(wsub(b[i], x[i]), y[i]) by { w_subadd(b[i], x[i], y[i]); } } }
// C15: the result of switching d encrypts under `after` what d encrypts under `before`, up to the noise of the key and the rounding of the decomposition
pub proof fn l_keyswitch(ks: Seq<Seq<u64>>, before: Seq<u64>, after: Seq<u64>, b: int, d: Seq<u64>, e: int)
    requires is_ksk(ks, before, after, b, e), d.len() == 2 * after.len(), e >= 0, b >= 1, 0 < b * ks.len() < 64,
    ensures ks_out(ks, after.len(), b, d).len() == 2 * after.len(), near(phase(ks_out(ks, after.len(), b, d), after), phase(d, before), ks_bound(before, ks.len(), b, e)),
{
    let n = after.len(); let l = ks.len() as int; let a = mask_of(d, n); let bd = body_of(d, n);
    assert(l >= 1) by { if l == 0 { assert(b * 0 == 0); } }
    l_ks_len(ks, n, b, d, ks.len());
    l_ks_acc(ks, before, after, b, d, e, ks.len());
    l_prec_dn(b, l, a); l_pclosest(b, l, a);
    let f = pow2((63 - b * l) as nat) as int;
    n_mul(before, pclosest(b, l, a), a, f);
    l_mul_comm(before, a);
    n_refl(bd, 0);
    n_sub(bd, bd, pmul(before, pclosest(b, l, a)), pmul(a, before), 0, l1(before) * f);
    n_trans(phase(ks_out(ks, n, b, d), after), psub(bd, pmul(before, pclosest(b, l, a))), phase(d, before), l * gerr(n, b, e), l1(before) * f);
}
// ---------------------------------------------------------------- what the external product computes
pub open spec fn ep_bound(s: Seq<u64>, m: Seq<u64>, l: nat, b: int, e: int) -> int {
    l * (2 * gerr(s.len(), b, e)) + l1(m) * (pow2((63 - b * l) as nat) + l1(s) * pow2((63 - b * l) as nat))
}
pub proof fn l_ep_len(g: Seq<u64>, n: nat, b: int, l: nat, d: Seq<u64>, m: nat)
    requires m <= l, d.len() == 2 * n, g.len() == 2 * l * (2 * n),
    ensures ep_sum(g, n, b, l as int, d, m).len() == 2 * n,
    decreases m
{ if m > 0 { l_ep_len(g, n, b, l, d, (m - 1) as nat); } }
// m (yb - s ym)
pub open spec fn epx(m: Seq<u64>, s: Seq<u64>, yb: Seq<u64>, ym: Seq<u64>) -> Seq<u64> { pmul(m, psub(yb, pmul(ym, s))) }
pub proof fn l_epx_add(m: Seq<u64>, s: Seq<u64>, yb: Seq<u64>, ym: Seq<u64>, zb: Seq<u64>, zm: Seq<u64>)
    requires m.len() == s.len(), yb.len() == s.len(), ym.len() == s.len(), zb.len() == s.len(), zm.len() == s.len(),
    ensures epx(m, s, padd(yb, zb), padd(ym, zm)) == padd(epx(m, s, yb, ym), epx(m, s, zb, zm)),
{
    l_mul_add_l(ym, zm, s);
    let (a, b) = (pmul(ym, s), pmul(zm, s));
    assert(psub(padd(yb, zb), padd(a, b)) =~= padd(psub(yb, a), psub(zb, b))) by { assert forall|i: int| 0 <= i < s.len() implies wsub(wadd(yb[i], zb[i]), wadd(a[i], b[i])) == wadd(wsub(yb[i], a[i]), wsub(zb[i], b[i])) by { w_addsub4(yb[i], zb[i], a[i], b[i]); } }
    l_mul_add_r(m, psub(yb, a), psub(zb, b));
}
pub proof fn l_addneg(a: Seq<u64>, b: Seq<u64>) requires a.len() == b.len() ensures padd(pneg(b), a) == psub(a, b)
{ l_sub(a, b); l_padd_ac(a, pneg(b), a); }
// one level: -(m g s) dm + (m g) db = m (db g - s dm g)
pub proof fn l_ep_step(m: Seq<u64>, s: Seq<u64>, g: u64, dm: Seq<u64>, db: Seq<u64>)
    requires m.len() == s.len(), dm.len() == s.len(), db.len() == s.len(),
    ensures padd(pmul(pneg(pmul(pscale(m, g), s)), dm), pmul(pscale(m, g), db)) == epx(m, s, pscale(db, g), pscale(dm, g)),
{
    let mg = pscale(m, g);
    l_mul_neg_l(pmul(mg, s), dm);
    l_mul_assoc(mg, s, dm); l_mul_comm(s, dm);
    // mg (dm s) = m ((dm g) s)
    l_mul_scale_l(m, pmul(dm, s), g); l_mul_scale_r(m, pmul(dm, s), g); l_mul_scale_l(dm, s, g);
    l_mul_scale_l(m, db, g); l_mul_scale_r(m, db, g);
    let (x, y) = (pscale(db, g), pmul(pscale(dm, g), s));
    l_mul_sub_r(m, x, y);
    l_addneg(pmul(m, x), pmul(m, y));
}
// the same rows, with top rows for another key: what a key switching key in this form is
pub open spec fn is_rgsw2(g: Seq<u64>, n: nat, l: nat, base: int, s: Seq<u64>, t: Seq<u64>, m: Seq<u64>, e: int) -> bool {
    &&& s.len() == n && t.len() == n && m.len() == n && g.len() == 2 * l * (2 * n)
    &&& forall|k: int| 0 <= k < l ==> near(phase(#[trigger] row(g, n, 2 * k), s), top_row(m, t, base, k + 1), e)
    &&& forall|k: int| 0 <= k < l ==> near(phase(#[trigger] row(g, n, 2 * k + 1), s), pscale(m, gad(base, k + 1)), e)
}
pub proof fn l_ep_acc2(g: Seq<u64>, s: Seq<u64>, t: Seq<u64>, mm: Seq<u64>, b: int, l: nat, d: Seq<u64>, e: int, m: nat)
    requires is_rgsw2(g, s.len(), l, b, s, t, mm, e), d.len() == 2 * s.len(), m <= l, e >= 0, b >= 1, 0 < b * l < 64,
    ensures near(phase(ep_sum(g, s.len(), b, l as int, d, m), s), epx(mm, t, prec_up(b, l as int, body_of(d, s.len()), m), prec_up(b, l as int, mask_of(d, s.len()), m)), m * (2 * gerr(s.len(), b, e))),
    decreases m,
{
    let n = s.len(); let li = l as int; let (a, bd) = (mask_of(d, n), body_of(d, n));
    l_prec_len(b, li, a, m); l_prec_len(b, li, bd, m);
    if m == 0 {
        l_phase_zero(s); l_mul_zero_l(t); l_zero_unit(pzero(n)); l_mul_zero_r(mm);
        assert(0 * (2 * gerr(n, b, e)) == 0);
        n_refl(pzero(n), 0);
    } else {
        let j = (m - 1) as nat;
        l_ep_acc2(g, s, t, mm, b, l, d, e, j);
        l_prec_len(b, li, a, j); l_prec_len(b, li, bd, j);
        l_ep_len(g, n, b, l, d, j);
        let o = ep_sum(g, n, b, li, d, j);
        assert(2 * l * (2 * n) == (2 * l) * (2 * n));
        let jj = j as int; l_rowlen(g, n, 2 * l, 2 * jj); l_rowlen(g, n, 2 * l, 2 * jj + 1);
        let (r0, r1) = (row(g, n, 2 * jj), row(g, n, 2 * jj + 1));
        let (dm, db) = (pdigit(b, li, a, m as int), pdigit(b, li, bd, m as int));
        let (z0, z1) = (gmul(r0, n, dm), gmul(r1, n, db));
        l_phase_add(o, padd(z0, z1), s); l_phase_add(z0, z1, s);
        l_phase_mul(r0, s, dm); l_phase_mul(r1, s, db);
        let gg = gad(b, m as int);
        l_gerr(phase(r0, s), top_row(mm, t, b, m as int), b, li, a, m as int, e);
        l_gerr(phase(r1, s), pscale(mm, gg), b, li, bd, m as int, e);
        let ge = gerr(n, b, e);
        n_add(phase(z0, s), pmul(top_row(mm, t, b, m as int), dm), phase(z1, s), pmul(pscale(mm, gg), db), ge, ge);
        l_ep_step(mm, t, gg, dm, db);
        let (yb, ym) = (prec_up(b, li, bd, j), prec_up(b, li, a, j));
        n_add(phase(o, s), epx(mm, t, yb, ym), phase(padd(z0, z1), s), epx(mm, t, pscale(db, gg), pscale(dm, gg)), j * (2 * ge), 2 * ge);
        l_epx_add(mm, t, yb, ym, pscale(db, gg), pscale(dm, gg));
        assert(m * (2 * ge) == j * (2 * ge) + 2 * ge) by (nonlinear_arith) requires m == j + 1;
    }
}
// C14: the external product with a gadget encryption of m multiplies the phase by m, up to noise and rounding
pub proof fn l_ep2(g: Seq<u64>, s: Seq<u64>, t: Seq<u64>, mm: Seq<u64>, b: int, l: nat, d: Seq<u64>, e: int)
    requires is_rgsw2(g, s.len(), l, b, s, t, mm, e), d.len() == 2 * s.len(), e >= 0, b >= 1, 0 < b * l < 64,
    ensures ep(g, s.len(), b, l, d).len() == 2 * s.len(), near(phase(ep(g, s.len(), b, l, d), s), pmul(mm, phase(d, t)), ep_bound(t, mm, l, b, e)),
{
    let n = s.len(); let li = l as int; let (a, bd) = (mask_of(d, n), body_of(d, n));
    assert(li >= 1) by { if l == 0 { assert(b * 0 == 0); } }
    l_ep_len(g, n, b, l, d, l);
    l_ep_acc2(g, s, t, mm, b, l, d, e, l);
    l_prec_up(b, li, a); l_pclosest(b, li, a);
    l_prec_up(b, li, bd); l_pclosest(b, li, bd);
    let f = pow2((63 - b * l) as nat) as int;
    let (ca, cb) = (pclosest(b, li, a), pclosest(b, li, bd));
    n_mul(t, ca, a, f);
    n_sub(cb, bd, pmul(ca, t), pmul(a, t), f, l1(t) * f);
    n_mul(mm, psub(cb, pmul(ca, t)), phase(d, t), f + l1(t) * f);
    n_trans(phase(ep(g, n, b, l, d), s), epx(mm, t, cb, ca), pmul(mm, phase(d, t)), l * (2 * gerr(n, b, e)), l1(mm) * (f + l1(t) * f));
}
pub proof fn l_ep(g: Seq<u64>, s: Seq<u64>, mm: Seq<u64>, b: int, l: nat, d: Seq<u64>, e: int)
    requires is_rgsw(g, s.len(), l, b, s, mm, e), d.len() == 2 * s.len(), e >= 0, b >= 1, 0 < b * l < 64,
    ensures ep(g, s.len(), b, l, d).len() == 2 * s.len(), near(phase(ep(g, s.len(), b, l, d), s), pmul(mm, phase(d, s)), ep_bound(s, mm, l, b, e)),
{ l_ep2(g, s, s, mm, b, l, d, e); }
// adding a product to a ciphertext
pub proof fn l_ep_add(o: Seq<u64>, g: Seq<u64>, s: Seq<u64>, mm: Seq<u64>, b: int, l: nat, d: Seq<u64>, e: int)
    requires is_rgsw(g, s.len(), l, b, s, mm, e), d.len() == 2 * s.len(), o.len() == 2 * s.len(), e >= 0, b >= 1, 0 < b * l < 64,
    ensures near(phase(padd(o, ep(g, s.len(), b, l, d)), s), padd(phase(o, s), pmul(mm, phase(d, s))), ep_bound(s, mm, l, b, e)),
{
    l_ep(g, s, mm, b, l, d, e);
    l_phase_add(o, ep(g, s.len(), b, l, d), s);
    n_refl(phase(o, s), 0);
    n_add(phase(o, s), phase(o, s), phase(ep(g, s.len(), b, l, d), s), pmul(mm, phase(d, s)), 0, ep_bound(s, mm, l, b, e));
}
// C14: multiplexing with an encrypted bit
pub proof fn l_cmux(g: Seq<u64>, s: Seq<u64>, bit: u64, b: int, l: nat, c0: Seq<u64>, c1: Seq<u64>, e: int)
    requires is_rgsw(g, s.len(), l, b, s, pconst(s.len(), bit), e), c0.len() == 2 * s.len(), c1.len() == 2 * s.len(), e >= 0, b >= 1, 0 < b * l < 64, bit == 0 || bit == 1,
    ensures near(phase(padd(c0, ep(g, s.len(), b, l, psub(c1, c0))), s), phase(if bit == 0 { c0 } else { c1 }, s), ep_bound(s, pconst(s.len(), bit), l, b, e)),
{
    l_ep_add(c0, g, s, pconst(s.len(), bit), b, l, psub(c1, c0), e);
    l_phase_sub(c1, c0, s);
    let (p0, p1) = (phase(c0, s), phase(c1, s));
    let df = psub(p1, p0);
    if bit == 0 { l_scale_zero(s.len(), 0); l_mul_zero_l(df); l_zero_unit(p0); }
    else {
        l_mul_one_l(df);
        assert(padd(p0, df) =~= p1) by { assert forall|i: int| 0 <= i < s.len() implies wadd(p0[i], wsub(p1[i], p0[i])) == p1[i] by { w_w(p0[i] as int, p1[i] - p0[i]); } }
    }
}
// sums of gadget encryptions
pub proof fn l_top_add(m: Seq<u64>, k: Seq<u64>, s: Seq<u64>, b: int, level: int)
    requires m.len() == s.len(), k.len() == s.len(),
    ensures padd(top_row(m, s, b, level), top_row(k, s, b, level)) == top_row(padd(m, k), s, b, level), padd(pscale(m, gad(b, level)), pscale(k, gad(b, level))) == pscale(padd(m, k), gad(b, level)),
{
    let g = gad(b, level);
    let (x, y, z) = (pscale(m, g), pscale(k, g), pscale(padd(m, k), g));
    assert(padd(x, y) =~= z) by { assert forall|i: int| 0 <= i < m.len() implies wadd(x[i], y[i]) == z[i] by {
        w_w(wmul(m[i], g) as int, k[i] * g); w_w(k[i] * g, m[i] * g);
        let t = m[i] + k[i];
        e_mul_r(g as int, wadd(m[i], k[i]) as int, t);
        assert(t * g == m[i] * g + k[i] * g) by (nonlinear_arith) requires t == m[i] + k[i];
        l_wrap_eq(wadd(m[i], k[i]) * g, t * g);
    } }
    l_mul_add_l(x, y, s);
    let (p, q) = (pmul(x, s), pmul(y, s));
    assert(padd(pneg(p), pneg(q)) =~= pneg(padd(p, q))) by { assert forall|i: int| 0 <= i < s.len() implies wadd(wneg(p[i]), wneg(q[i])) == wneg(wadd(p[i], q[i])) by {
        w_w(wneg(p[i]) as int, -(q[i] as int)); w_w(-(q[i] as int), -(p[i] as int)); w_w(0, p[i] + q[i]); assert(-p[i] - q[i] == -(p[i] + q[i]));
    } }
}
pub proof fn l_row_add(g: Seq<u64>, h: Seq<u64>, n: nat, c: nat, k: int)
    requires g.len() == c * (2 * n), h.len() == g.len(), 0 <= k < c,
    ensures row(padd(g, h), n, k) == padd(row(g, n, k), row(h, n, k)),
{ l_rowlen(g, n, c, k); l_rowlen(h, n, c, k); l_rowlen(padd(g, h), n, c, k); assert(row(padd(g, h), n, k) =~= padd(row(g, n, k), row(h, n, k))); }
pub proof fn l_rgsw_add(g: Seq<u64>, h: Seq<u64>, n: nat, l: nat, b: int, s: Seq<u64>, m: Seq<u64>, k: Seq<u64>, e: int, f: int)
    requires is_rgsw(g, n, l, b, s, m, e), is_rgsw(h, n, l, b, s, k, f),
    ensures is_rgsw(padd(g, h), n, l, b, s, padd(m, k), e + f),
{
    assert(2 * l * (2 * n) == (2 * l) * (2 * n));
    let z = padd(g, h);
    assert forall|j: int| 0 <= j < l implies near(phase(#[trigger] row(z, n, 2 * j), s), top_row(padd(m, k), s, b, j + 1), e + f) by {
        l_row_add(g, h, n, 2 * l, 2 * j); l_rowlen(g, n, 2 * l, 2 * j); l_rowlen(h, n, 2 * l, 2 * j);
        l_phase_add(row(g, n, 2 * j), row(h, n, 2 * j), s);
        n_add(phase(row(g, n, 2 * j), s), top_row(m, s, b, j + 1), phase(row(h, n, 2 * j), s), top_row(k, s, b, j + 1), e, f);
        l_top_add(m, k, s, b, j + 1);
    }
    assert forall|j: int| 0 <= j < l implies near(phase(#[trigger] row(z, n, 2 * j + 1), s), pscale(padd(m, k), gad(b, j + 1)), e + f) by {
        l_row_add(g, h, n, 2 * l, 2 * j + 1); l_rowlen(g, n, 2 * l, 2 * j + 1); l_rowlen(h, n, 2 * l, 2 * j + 1);
        l_phase_add(row(g, n, 2 * j + 1), row(h, n, 2 * j + 1), s);
        n_add(phase(row(g, n, 2 * j + 1), s), pscale(m, gad(b, j + 1)), phase(row(h, n, 2 * j + 1), s), pscale(k, gad(b, j + 1)), e, f);
        l_top_add(m, k, s, b, j + 1);
    }
}
// ---------------------------------------------------------------- LWE
// row i is a gadget encryption of the constant s_i
pub open spec fn is_lksk(gs: Seq<Seq<u64>>, s: Seq<u64>, l: nat, b: int, e: int) -> bool {
    gs.len() == s.len() && forall|i: int| 0 <= i < gs.len() ==> is_rgsw(#[trigger] gs[i], s.len(), l, b, s, pconst(s.len(), s[i]), e)
}
// o minus the m least significant digits of a, each times its row of g
pub open spec fn conv_in(o: Seq<u64>, g: Seq<u64>, n: nat, l: nat, b: int, a: u64, m: nat) -> Seq<u64> decreases m {
    if m == 0 { o } else { psub(conv_in(o, g, n, l, b, a, (m - 1) as nat), pscale(row(g, n, 2 * (l - m) + 1), digit(b, l as int, closest(b, l as int, a), l - m + 1))) }
}
pub open spec fn conv_acc(gs: Seq<Seq<u64>>, n: nat, l: nat, b: int, a: Seq<u64>, i: nat) -> Seq<u64> decreases i {
    if i == 0 { pzero(2 * n) } else { conv_in(conv_acc(gs, n, l, b, a, (i - 1) as nat), gs[i - 1], n, l, b, a[i - 1], l) }
}
pub open spec fn addbody(c: Seq<u64>, n: nat, p: Seq<u64>) -> Seq<u64> { mask_of(c, n) + padd(body_of(c, n), p) }
pub open spec fn conv_out(gs: Seq<Seq<u64>>, n: nat, l: nat, b: int, c: Seq<u64>) -> Seq<u64> { addbody(conv_acc(gs, n, l, b, c, n), n, pconst(n, c[n as int])) }
// scaling by a constant polynomial
pub proof fn l_mulc_const_l(b: Seq<u64>, c: u64, k: int, m: nat) requires 0 < m <= b.len(), 0 <= k < b.len() ensures pmulc(pconst(b.len(), c), b, k, m) == c * b[k] decreases m
{
    if m > 1 { l_mulc_const_l(b, c, k, (m - 1) as nat); assert(0 * bcoef(b, k - (m - 1)) == 0); } else { assert(pmulc(pconst(b.len(), c), b, k, 0) == 0); }
}
pub proof fn l_mul_const_l(b: Seq<u64>, c: u64) ensures pmul(pconst(b.len(), c), b) == pscale(b, c), pmul(b, pconst(b.len(), c)) == pscale(b, c)
{
    assert(pmul(pconst(b.len(), c), b) =~= pscale(b, c)) by { assert forall|k: int| 0 <= k < b.len() implies pmul(pconst(b.len(), c), b)[k] == wmul(b[k], c) by {
        l_mulc_const_l(b, c, k, b.len()); assert(c * b[k] == b[k] * c) by (nonlinear_arith); } }
    l_mul_comm(b, pconst(b.len(), c));
}
pub proof fn l_const_const(n: nat, a: u64, c: u64) ensures pscale(pconst(n, a), c) == pconst(n, wmul(a, c)), padd(pconst(n, a), pconst(n, c)) == pconst(n, wadd(a, c)), psub(pconst(n, a), pconst(n, c)) == pconst(n, wsub(a, c))
{ assert(0 * c == 0); assert(pscale(pconst(n, a), c) =~= pconst(n, wmul(a, c))); assert(padd(pconst(n, a), pconst(n, c)) =~= pconst(n, wadd(a, c))); assert(psub(pconst(n, a), pconst(n, c)) =~= pconst(n, wsub(a, c))); }
pub proof fn l_scale1(x: u64, y: u64, c: u64) ensures wsub(wmul(x, c), wmul(y, c)) == wmul(wsub(x, y), c)
{
    let (a, b, k) = (x as int, y as int, c as int);
    w_w(wrap(a * k) as int, b * k);
    w_w(-(b * k), a * k);
    assert(wsub(wmul(x, c), wmul(y, c)) == wrap(a * k - b * k));
    e_mul_r(k, wrap(a - b) as int, a - b);
    assert((a - b) * k == a * k - b * k) by (nonlinear_arith);
    l_wrap_eq(wrap(a - b) * k, (a - b) * k);
}
pub proof fn l_scale_cd(x: u64, y: u64, c: u64, e: int) requires cd(x, y) <= e ensures cd(wmul(x, c), wmul(y, c)) <= abs(c) * e
{
    l_scale1(x, y, c);
    l_cd_abs(x, y); l_cd_abs(wmul(x, c), wmul(y, c));
    l_abs_mul(wsub(x, y), c);
    let (u, v) = (abs(wsub(x, y)), abs(c));
    assert(u * v <= v * e) by (nonlinear_arith) requires u <= e, v >= 0;
}
#[verifier::spinoff_prover]
pub proof fn n_scale(p: Seq<u64>, q: Seq<u64>, c: u64, e: int) requires near(p, q, e) ensures near(pscale(p, c), pscale(q, c), abs(c) * e)
{
    assert forall|i: int| 0 <= i < p.len() implies cd(pscale(p, c)[i], pscale(q, c)[i]) <= abs(c) * e by {
        assert(cd(p[i], q[i]) <= e);
        l_scale_cd(p[i], q[i], c, e);
        assert(pscale(p, c)[i] == wmul(p[i], c) && pscale(q, c)[i] == wmul(q[i], c));
    }
}
// the digits of zero are zero
pub proof fn l_digit_zero(b: int, l: int, level: int)
    requires b >= 1, 1 <= level <= l, 0 < b * l < 64,
    ensures closest(b, l, 0) == 0, digit(b, l, 0, level) == 0,
{
    l_closest(b, l, 0);
    let k = pow2((64 - b * l) as nat) as int; lemma_pow2_pos((64 - b * l) as nat); lemma_pow2_unfold((64 - b * l) as nat);
    assert((0int + k / 2) / k == 0) by (nonlinear_arith) requires k >= 2;
    assert(0 * k == 0);
    assert(0int / k == 0) by (nonlinear_arith) requires k > 0;
    l_state_zero(b, (l - level) as nat);
}
pub proof fn l_state_zero(b: int, j: nat) requires b >= 1 ensures sd_state(b, 0, j) == 0, sd_carry(b, 0) == 0, sd_dig(b, 0) == 0 decreases j
{
    let bb = pow2(b as nat) as int; lemma_pow2_unfold(b as nat); lemma_pow2_pos((b - 1) as nat);
    assert(bb >= 2);
    lemma_small_mod(0, bb as nat); 
    assert(0int / bb == 0) by (nonlinear_arith) requires bb > 0;
    assert(0 * bb == 0);
    if j > 0 { l_state_zero(b, (j - 1) as nat); }
}
pub proof fn l_pdigit_const(b: int, l: int, n: nat, a: u64, level: int)
    requires b >= 1, 1 <= level <= l, 0 < b * l < 64,
    ensures pdigit(b, l, pconst(n, a), level) == pconst(n, digit(b, l, closest(b, l, a), level)),
{ l_digit_zero(b, l, level); assert(pdigit(b, l, pconst(n, a), level) =~= pconst(n, digit(b, l, closest(b, l, a), level))); }
pub proof fn l_phase_scale(c: Seq<u64>, s: Seq<u64>, k: u64)
    requires c.len() == 2 * s.len(),
    ensures phase(pscale(c, k), s) == pscale(phase(c, s), k),
{
    let n = s.len(); let p = pconst(n, k);
    l_phase_mul(c, s, p);
    l_mul_const_l(mask_of(c, n), k); l_mul_const_l(body_of(c, n), k); l_mul_const_l(phase(c, s), k);
    assert(gmul(c, n, p) =~= pscale(c, k));
}
// one coefficient
pub proof fn l_conv_in(o: Seq<u64>, g: Seq<u64>, s: Seq<u64>, si: u64, l: nat, b: int, a: u64, e: int, m: nat)
    requires is_rgsw(g, s.len(), l, b, s, pconst(s.len(), si), e), o.len() == 2 * s.len(), m <= l, e >= 0, b >= 1, 0 < b * l < 64, s.len() > 0,
    ensures conv_in(o, g, s.len(), l, b, a, m).len() == o.len(),
        near(phase(conv_in(o, g, s.len(), l, b, a, m), s), psub(phase(o, s), pmul(pconst(s.len(), si), prec_dn(b, l as int, pconst(s.len(), a), m))), m * (pow2((b - 1) as nat) * e)),
    decreases m,
{
    let n = s.len(); let li = l as int; let x = pconst(n, a); let c = pconst(n, si);
    l_prec_len(b, li, x, m);
    if m == 0 {
        l_mul_zero_r(c); l_zero_unit(phase(o, s)); assert(0 * (pow2((b - 1) as nat) * e) == 0); n_refl(phase(o, s), 0);
    } else {
        let j = (m - 1) as nat; let q = (l - m) as int;
        l_conv_in(o, g, s, si, l, b, a, e, j);
        l_prec_len(b, li, x, j);
        let p = conv_in(o, g, n, l, b, a, j); let r = row(g, n, 2 * q + 1); let dg = digit(b, li, closest(b, li, a), q + 1);
        assert(2 * l * (2 * n) == (2 * l) * (2 * n)); l_rowlen(g, n, 2 * l, 2 * q + 1);
        l_phase_sub(p, pscale(r, dg), s); l_phase_scale(r, s, dg);
        let gg = gad(b, q + 1);
        n_scale(phase(r, s), pscale(c, gg), dg, e);
        l_digit_small(b, li, closest(b, li, a), q + 1);
        let h = pow2((b - 1) as nat) as int;
        assert(abs(dg) * e <= h * e) by (nonlinear_arith) requires abs(dg) <= h, e >= 0;
        n_weak(pscale(phase(r, s), dg), pscale(pscale(c, gg), dg), abs(dg) * e, h * e);
        l_pdigit_const(b, li, n, a, q + 1);
        let t = pterm(b, li, x, q + 1);
        // c gg dg = c t
        l_mul_const_l(pscale(c, gg), dg);
        let dp = pconst(n, dg);
        l_mul_scale_l(c, dp, gg); l_mul_scale_r(c, dp, gg);
        assert(pscale(pscale(c, gg), dg) == pmul(c, t));
        let rd = prec_dn(b, li, x, j);
        n_sub(phase(p, s), psub(phase(o, s), pmul(c, rd)), pscale(phase(r, s), dg), pmul(c, t), j * (h * e), h * e);
        l_mul_add_r(c, rd, t);
        l_subadd(phase(o, s), pmul(c, rd), pmul(c, t));
        assert(m * (h * e) == j * (h * e) + h * e) by (nonlinear_arith) requires m == j + 1;
        assert(li - m + 1 == q + 1);
    }
}
// what one coefficient costs: l digits times the error of the rows, and the rounding of the coefficient
pub open spec fn conv_bound(s: Seq<u64>, l: nat, b: int, e: int, m: nat) -> int { m * (l * (pow2((b - 1) as nat) * e)) + l1c(s, m) * pow2((63 - b * l) as nat) }
pub proof fn l_conv_dot(a: Seq<u64>, s: Seq<u64>, j: nat)
    requires j < s.len(), j < a.len(),
    ensures wsub(wrap(-dot(a, s, j)), wmul(a[j as int], s[j as int])) == wrap(-dot(a, s, j + 1)),
{
    let (aj, sj) = (a[j as int], s[j as int]);
    let (dj, pr) = (dot(a, s, j), aj * sj); let v = wrap(-dj);
    w_w(v as int, pr); w_w(-pr, -dj);
    assert(wsub(v, wmul(aj, sj)) == wrap(-dj - pr));
    assert(dot(a, s, j + 1) == dj + pr);
}
pub proof fn l_conv_bound(s: Seq<u64>, l: nat, b: int, e: int, i: nat)
    requires 0 < i <= s.len(),
    ensures conv_bound(s, l, b, e, i) == l * (pow2((b - 1) as nat) * e) + (conv_bound(s, l, b, e, (i - 1) as nat) + abs(s[i - 1]) * pow2((63 - b * l) as nat)),
{
    let f = pow2((63 - b * l) as nat) as int; let h = pow2((b - 1) as nat) as int; let j = (i - 1) as nat;
    let y = (l * (h * e)) as int;
    assert(i * y == j * y + y) by (nonlinear_arith) requires i == j + 1;
    let (z0, z1) = (l1c(s, j), abs(s[i - 1]));
    assert((z0 + z1) * f == z0 * f + z1 * f) by (nonlinear_arith);
}
pub proof fn l_conv_acc(gs: Seq<Seq<u64>>, s: Seq<u64>, l: nat, b: int, a: Seq<u64>, e: int, i: nat)
    requires is_lksk(gs, s, l, b, e), a.len() >= s.len(), i <= s.len(), e >= 0, b >= 1, 0 < b * l < 64, s.len() > 0,
    ensures conv_acc(gs, s.len(), l, b, a, i).len() == 2 * s.len(),
        near(phase(conv_acc(gs, s.len(), l, b, a, i), s), pconst(s.len(), wrap(-dot(a, s, i))), conv_bound(s, l, b, e, i)),
    decreases i,
{
    let n = s.len(); let li = l as int; let f = pow2((63 - b * l) as nat) as int; let h = pow2((b - 1) as nat) as int;
    assert(li >= 1) by { if l == 0 { assert(b * 0 == 0); } }
    if i == 0 {
        l_phase_zero(s); assert(pconst(n, 0) =~= pzero(n)); assert(0 * (l * (h * e)) == 0); assert(0 * f == 0); n_refl(pzero(n), 0);
    } else {
        let j = (i - 1) as nat; let (aj, sj) = (a[j as int], s[j as int]);
        l_conv_acc(gs, s, l, b, a, e, j);
        let o = conv_acc(gs, n, l, b, a, j);
        l_conv_in(o, gs[j as int], s, sj, l, b, aj, e, l);
        let x = pconst(n, aj); let c = pconst(n, sj);
        l_prec_dn(b, li, x); l_pclosest(b, li, x);
        n_mul(c, pclosest(b, li, x), x, f);
        l_l1_const(n, sj, n);
        l_mul_const_l(x, sj); l_const_const(n, aj, sj);
        let v = wrap(-dot(a, s, j));
        n_sub(phase(o, s), pconst(n, v), pmul(c, pclosest(b, li, x)), pconst(n, wmul(aj, sj)), conv_bound(s, l, b, e, j), abs(sj) * f);
        // phase(out) ~ phase(o) - c * closest(x)
        n_trans(phase(conv_in(o, gs[j as int], n, l, b, aj, l), s), psub(phase(o, s), pmul(c, pclosest(b, li, x))), psub(pconst(n, v), pconst(n, wmul(aj, sj))), l * (h * e), conv_bound(s, l, b, e, j) + abs(sj) * f);
        l_const_const(n, v, wmul(aj, sj));
        l_conv_dot(a, s, j);
        l_conv_bound(s, l, b, e, i);
    }
}
// C17: packing an LWE ciphertext gives a ciphertext of the constant polynomial, up to noise and rounding
pub proof fn l_conv(gs: Seq<Seq<u64>>, s: Seq<u64>, l: nat, b: int, c: Seq<u64>, e: int)
    requires is_lksk(gs, s, l, b, e), c.len() == s.len() + 1, e >= 0, b >= 1, 0 < b * l < 64, s.len() > 0,
    ensures conv_out(gs, s.len(), l, b, c).len() == 2 * s.len(),
        near(phase(conv_out(gs, s.len(), l, b, c), s), pconst(s.len(), lwe_phase(c, s)), conv_bound(s, l, b, e, s.len())),
{
    let n = s.len(); let o = conv_acc(gs, n, l, b, c, n); let k = pconst(n, c[n as int]);
    l_conv_acc(gs, s, l, b, c, e, n);
    l_phase_addbody(o, s, k);
    n_refl(k, 0);
    let v = wrap(-dot(c, s, n));
    n_add(phase(o, s), pconst(n, v), k, k, conv_bound(s, l, b, e, n), 0);
    l_const_const(n, v, c[n as int]);
    w_w(c[n as int] as int, -dot(c, s, n));
}
// C17: the phase of an extracted coefficient is that coefficient of the phase
pub proof fn l_dot_mulc(g: Seq<u64>, s: Seq<u64>, k: int, m: nat)
    requires g.len() == 2 * s.len(), 0 <= k < s.len(), m <= s.len(),
    ensures eqm(dot(sample_extract(g, s.len(), k), s, m), pmulc(s, mask_of(g, s.len()), k, m)),
    decreases m,
{
    if m > 0 {
        let j = (m - 1) as nat; l_dot_mulc(g, s, k, j);
        let x = sample_extract(g, s.len(), k); let t = bcoef(mask_of(g, s.len()), k - j);
        l_wrap(t);
        assert(x[j as int] == wrap(t));
        e_mul_r(s[j as int] as int, wrap(t) as int, t);
        assert(x[j as int] * s[j as int] == s[j as int] * x[j as int]) by (nonlinear_arith);
        e_add(dot(x, s, j), pmulc(s, mask_of(g, s.len()), k, j), x[j as int] * s[j as int], s[j as int] * t);
    }
}
pub proof fn l_extract(g: Seq<u64>, s: Seq<u64>, k: int)
    requires g.len() == 2 * s.len(), 0 <= k < s.len(),
    ensures lwe_phase(sample_extract(g, s.len(), k), s) == phase(g, s)[k], sample_extract(g, s.len(), k).len() == s.len() + 1,
{
    let n = s.len(); let x = sample_extract(g, n, k); let a = mask_of(g, n);
    l_dot_mulc(g, s, k, n); l_mul_comm(a, s);
    let (d, p) = (dot(x, s, n), pmulc(s, a, k, n)); let bb = g[n + k];
    assert(x[n as int] == bb && body_of(g, n)[k] == bb);
    assert(pmul(a, s)[k] == wrap(p));
    w_w(bb as int, p);
    l_wrap_eq(d, p); w_w(bb as int, d);
}
}
} // verus!
#end
