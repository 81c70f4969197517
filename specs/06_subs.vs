#prelude
verus! {
// ---------------------------------------------------------------- substitution X -> X^k as a ring homomorphism, and what the trace computes (everything here is proved)
pub mod rt {
use vstd::prelude::*;
use vstd::arithmetic::div_mod::*;
use crate::shim::*;
use crate::ring::*;
use crate::ccf::ep;
use crate::cc::sample_extract;
use crate::rl::*;
// X^{ik} mod X^n + 1 for odd k and n a power of two: the exponents are pairwise different
pub proof fn lemma_odd_div(d: int, k: int, m: nat)
    requires k % 2 == 1, 0 <= k, 0 <= d, (d * k) % (pow2(m) as int) == 0,
    ensures d % (pow2(m) as int) == 0,
    decreases m,
{
    lemma_pow2_pos(m);
    if m == 0 { lemma_pow2_64(); } else {
        let p = pow2((m - 1) as nat) as int;
        lemma_pow2_unfold(m);
        lemma_pow2_pos((m - 1) as nat);
        let q = (d * k) / (2 * p);
        assert(d * k == 2 * (p * q)) by (nonlinear_arith) requires q == (d * k) / (2 * p), (d * k) % (2 * p) == 0, p > 0;
        let h = k / 2;
        assert(d * k == 2 * (d * h) + d) by (nonlinear_arith) requires k == 2 * h + 1;
        assert(d % 2 == 0);
        let e = d / 2;
        assert(2 * (e * k) == d * k) by (nonlinear_arith) requires d == 2 * e;
        assert(e * k == p * q);
        lemma_mul_mod(q, p);
        lemma_odd_div(e, k, (m - 1) as nat);
        let f = e / p;
        assert(e == p * f) by (nonlinear_arith) requires f == e / p, e % p == 0, p > 0;
        assert(d == (2 * p) * f) by (nonlinear_arith) requires d == 2 * e, e == p * f;
        lemma_mul_mod(f, 2 * p);
    }
}
pub proof fn lemma_ev_inj(n: int, k: int, i: int, j: int)
    requires is_pow2(n as nat), k % 2 == 1, 0 <= k, 0 <= i < j < n,
    ensures ev_pos(n, k, i) != ev_pos(n, k, j), 0 <= ev_pos(n, k, i) < n, 0 <= ev_pos(n, k, j) < n,
{
    let m = choose|m: nat| n as nat == pow2(m);
    let (a, b) = ((i * k) / n, (j * k) / n);
    lemma_is_pow2_pos(n as nat);
    lemma_fundamental_div_mod(i * k, n);
    lemma_fundamental_div_mod(j * k, n);
    vstd::arithmetic::div_mod::lemma_mod_bound(i * k, n);
    vstd::arithmetic::div_mod::lemma_mod_bound(j * k, n);
    if (i * k) % n == (j * k) % n {
        let d = j - i;
        let (x, y) = (i * k, j * k);
        assert(d * k == y - x) by (nonlinear_arith) requires d == j - i, x == i * k, y == j * k;
        assert(n * b - n * a == n * (b - a)) by (nonlinear_arith);
        lemma_is_pow2_pos(n as nat); lemma_mul_mod(b - a, n);
        lemma_odd_div(d, k, m);
        lemma_small_mod(d as nat, n as nat);
    }
}

// ---- the exponents i k mod n take every value
pub open spec fn oddk(n: int, k: int) -> bool { is_pow2(n as nat) && n > 0 && k % 2 == 1 && 0 <= k }
pub proof fn l_pev_sur(n: int, k: int, j: int)
    requires oddk(n, k), 0 <= j < n,
    ensures exists|i: int| 0 <= i < n && #[trigger] ev_pos(n, k, i) == j,
{
    let f = |i: int| ev_pos(n, k, i);
    let d = vstd::set_lib::set_int_range(0, n);
    vstd::set_lib::lemma_int_range(0, n);
    let im = d.map(f);
    assert forall|i: int| 0 <= i < n implies 0 <= #[trigger] ev_pos(n, k, i) < n by { lemma_mod_bound(i * k, n); }
    assert forall|x: int, y: int| d.contains(x) && d.contains(y) && x != y implies #[trigger] f(x) != #[trigger] f(y) by { if x < y { lemma_ev_inj(n, k, x, y); } else { lemma_ev_inj(n, k, y, x); } }
    vstd::set_lib::lemma_map_size(d, im, f);
    assert(im.subset_of(d));
    vstd::set_lib::lemma_subset_equality(im, d);
    assert(d.contains(j));
    assert(im.contains(j));
}
// a(X^k)
pub open spec fn ev_src(n: int, k: int, j: int) -> int { choose|i: int| 0 <= i < n && #[trigger] ev_pos(n, k, i) == j }
pub open spec fn pev(a: Seq<u64>, k: int) -> Seq<u64> { Seq::new(a.len(), |j: int| ev_sgn(a.len() as int, k, ev_src(a.len() as int, k, j), a[ev_src(a.len() as int, k, j)])) }
pub proof fn l_src(n: int, k: int, i: int)
    requires oddk(n, k), 0 <= i < n,
    ensures 0 <= ev_pos(n, k, i) < n, ev_src(n, k, ev_pos(n, k, i)) == i,
{
    let j = ev_pos(n, k, i); lemma_mod_bound(i * k, n);
    let x = ev_src(n, k, j);
    assert(0 <= x < n && ev_pos(n, k, x) == j);
    if x < i { lemma_ev_inj(n, k, x, i); } else if i < x { lemma_ev_inj(n, k, i, x); }
}
pub proof fn l_src2(n: int, k: int, j: int)
    requires oddk(n, k), 0 <= j < n,
    ensures 0 <= ev_src(n, k, j) < n, ev_pos(n, k, ev_src(n, k, j)) == j,
{ l_pev_sur(n, k, j); }
pub proof fn l_pev(a: Seq<u64>, k: int)
    requires oddk(a.len() as int, k),
    ensures is_pev(pev(a, k), a, k),
{
    let n = a.len() as int;
    assert forall|i: int| 0 <= i < n implies pev(a, k)[#[trigger] ev_pos(n, k, i)] == ev_sgn(n, k, i, a[i]) by { l_src(n, k, i); }
}
pub proof fn l_pev_uniq(o: Seq<u64>, a: Seq<u64>, k: int)
    requires oddk(a.len() as int, k), is_pev(o, a, k),
    ensures o == pev(a, k),
{
    let n = a.len() as int;
    assert(o =~= pev(a, k)) by { assert forall|j: int| 0 <= j < n implies o[j] == pev(a, k)[j] by { l_src2(n, k, j); } }
}
pub proof fn w_negadd(a: u64, b: u64) ensures wneg(wadd(a, b)) == wadd(wneg(a), wneg(b)), wneg(wneg(a)) == a, wneg(wsub(a, b)) == wsub(wneg(a), wneg(b)), cd(wneg(a), wneg(b)) == cd(a, b), wneg(0) == 0
{}
pub proof fn w_negmul(a: u64, c: u64) ensures wneg(wmul(a, c)) == wmul(wneg(a), c)
{ w_w(0, a * c); e_mul_r(c as int, wneg(a) as int, -(a as int)); assert((-(a as int)) * c == -(a * c)) by (nonlinear_arith); l_wrap_eq(wneg(a) * c, -(a * c)); }
pub proof fn l_pev_add(a: Seq<u64>, b: Seq<u64>, k: int)
    requires oddk(a.len() as int, k), a.len() == b.len(),
    ensures pev(padd(a, b), k) == padd(pev(a, k), pev(b, k)), pev(psub(a, b), k) == psub(pev(a, k), pev(b, k)),
{
    let n = a.len() as int;
    assert(pev(padd(a, b), k) =~= padd(pev(a, k), pev(b, k))) by { assert forall|j: int| 0 <= j < n implies pev(padd(a, b), k)[j] == wadd(pev(a, k)[j], pev(b, k)[j]) by { l_src2(n, k, j); let i = ev_src(n, k, j); w_negadd(a[i], b[i]); } }
    assert(pev(psub(a, b), k) =~= psub(pev(a, k), pev(b, k))) by { assert forall|j: int| 0 <= j < n implies pev(psub(a, b), k)[j] == wsub(pev(a, k)[j], pev(b, k)[j]) by { l_src2(n, k, j); let i = ev_src(n, k, j); w_negadd(a[i], b[i]); } }
}
pub proof fn l_pev_scale(a: Seq<u64>, c: u64, k: int)
    requires oddk(a.len() as int, k),
    ensures pev(pscale(a, c), k) == pscale(pev(a, k), c),
{
    let n = a.len() as int;
    assert(pev(pscale(a, c), k) =~= pscale(pev(a, k), c)) by { assert forall|j: int| 0 <= j < n implies pev(pscale(a, c), k)[j] == wmul(pev(a, k)[j], c) by { l_src2(n, k, j); let i = ev_src(n, k, j); w_negmul(a[i], c); } }
}
pub proof fn l_pev_near(a: Seq<u64>, b: Seq<u64>, k: int, e: int)
    requires oddk(a.len() as int, k), near(a, b, e),
    ensures near(pev(a, k), pev(b, k), e),
{
    let n = a.len() as int;
    assert forall|j: int| 0 <= j < n implies cd(pev(a, k)[j], pev(b, k)[j]) <= e by { l_src2(n, k, j); let i = ev_src(n, k, j); w_negadd(a[i], b[i]); assert(cd(a[i], b[i]) <= e); }
}
pub proof fn l_pev_zero(n: nat, k: int) requires oddk(n as int, k) ensures pev(pzero(n), k) == pzero(n)
{ assert(pev(pzero(n), k) =~= pzero(n)) by { assert forall|j: int| 0 <= j < n implies pev(pzero(n), k)[j] == 0 by { l_src2(n as int, k, j); w_negadd(0, 0); } } }
pub proof fn l_pev_const(n: nat, c: u64, k: int) requires oddk(n as int, k) ensures pev(pconst(n, c), k) == pconst(n, c)
{
    assert((0 * k) % (n as int) == 0 && (0 * k) / (n as int) == 0) by (nonlinear_arith) requires n > 0;
    assert(ev_pos(n as int, k, 0) == 0);
    assert(pev(pconst(n, c), k) =~= pconst(n, c)) by { assert forall|j: int| 0 <= j < n implies pev(pconst(n, c), k)[j] == pconst(n, c)[j] by { l_src2(n as int, k, j); l_src(n as int, k, 0); w_negadd(0, 0); } }
}
// ---- multiplication by X
pub open spec fn sgq(q: int, c: u64) -> u64 { if q % 2 == 0 { c } else { wneg(c) } }
pub proof fn l_rotn_fw(a: Seq<u64>, m: nat, i: int)
    requires 0 <= i < a.len(),
    ensures 0 <= (i + m) % (a.len() as int) < a.len(), rotn(a, m)[(i + m) % (a.len() as int)] == sgq((i + m) / (a.len() as int), a[i]),
    decreases m,
{
    let n = a.len() as int;
    lemma_mod_bound(i + m, n);
    if m == 0 { lemma_small_mod(i as nat, n as nat); lemma_fundamental_div_mod(i, n); assert(i / n == 0) by (nonlinear_arith) requires 0 <= i < n; }
    else {
        let j = (m - 1) as nat; let x = rotn(a, j);
        l_rotn_fw(a, j, i); l_rotn_len(a, j);
        let (q, r) = ((i + j) / n, (i + j) % n);
        lemma_fundamental_div_mod(i + j, n);
        if r + 1 == n {
            assert((q + 1) * n == n * q + n) by (nonlinear_arith);
            lemma_fundamental_div_mod_converse(i + m, n, q + 1, 0);
            w_negadd(a[i], 0);
        } else {
            assert(q * n == n * q) by (nonlinear_arith);
            lemma_fundamental_div_mod_converse(i + m, n, q, r + 1);
        }
    }
}
pub proof fn l_add_div(n: int, t: int, k: int)
    requires n > 0,
    ensures (t % n + k) % n == (t + k) % n, t / n + (t % n + k) / n == (t + k) / n,
{
    let (q, r) = (t / n, t % n); let (u, v) = ((r + k) / n, (r + k) % n);
    lemma_fundamental_div_mod(t, n); lemma_fundamental_div_mod(r + k, n); lemma_mod_bound(r + k, n);
    assert((q + u) * n == n * q + n * u) by (nonlinear_arith);
    lemma_fundamental_div_mod_converse(t + k, n, q + u, v);
}
pub proof fn l_pev_rot(b: Seq<u64>, k: int)
    requires oddk(b.len() as int, k),
    ensures pev(rot(b), k) == rotn(pev(b, k), k as nat),
{
    let n = b.len() as int; let y = pev(b, k);
    l_rotn_len(y, k as nat); l_pev(b, k); l_pev(rot(b), k);
    assert(pev(rot(b), k) =~= rotn(y, k as nat)) by { assert forall|j: int| 0 <= j < n implies pev(rot(b), k)[j] == rotn(y, k as nat)[j] by {
        l_src2(n, k, j);
        let i = ev_src(n, k, j);
        let p = if i == 0 { n - 1 } else { i - 1 };
        let t = p * k;
        l_src(n, k, p);
        l_add_div(n, t, k);
        l_rotn_fw(y, k as nat, t % n);
        w_negadd(b[p], 0); 
        assert(ev_pos(n, k, p) == t % n);
        assert(y[t % n] == sgq(t / n, b[p]));
        if i == 0 {
            assert(t + k == n * k) by (nonlinear_arith) requires t == (n - 1) * k;
            assert(n * k == k * n) by (nonlinear_arith);
            lemma_fundamental_div_mod_converse(n * k, n, k, 0);
            assert((0 * k) % n == 0 && (0 * k) / n == 0) by (nonlinear_arith) requires n > 0;
        } else {
            assert(t + k == i * k) by (nonlinear_arith) requires t == (i - 1) * k;
        }
    } }
}
pub proof fn l_rotn_rotn(a: Seq<u64>, x: nat, y: nat) ensures rotn(rotn(a, x), y) == rotn(a, x + y) decreases y
{ if y > 0 { l_rotn_rotn(a, x, (y - 1) as nat); assert((x + y - 1) as nat == x + (y - 1) as nat); } }
pub proof fn l_pev_rotn(b: Seq<u64>, k: int, m: nat)
    requires oddk(b.len() as int, k),
    ensures pev(rotn(b, m), k) == rotn(pev(b, k), m * k as nat),
    decreases m,
{
    if m == 0 { assert(0 * k == 0); } else {
        let j = (m - 1) as nat;
        l_pev_rotn(b, k, j); l_rotn_len(b, j);
        l_pev_rot(rotn(b, j), k);
        l_rotn_rotn(pev(b, k), (j * k) as nat, k as nat);
        assert(m * k == j * k + k) by (nonlinear_arith) requires m == j + 1;
        assert(j * k >= 0) by (nonlinear_arith) requires j >= 0, k >= 0;
    }
}
// substitution is multiplicative
pub proof fn l_pev_mul_t(a: Seq<u64>, b: Seq<u64>, k: int, m: nat)
    requires oddk(a.len() as int, k), a.len() == b.len(), m <= a.len(),
    ensures pev(pmul(trunc(a, m as int), b), k) == pmul(pev(trunc(a, m as int), k), pev(b, k)),
    decreases m,
{
    let n = a.len();
    if m == 0 {
        assert(trunc(a, 0) =~= pzero(n)); l_mul_zero_l(b); l_pev_zero(n, k); l_mul_zero_l(pev(b, k));
    } else {
        let j = (m - 1) as nat; let t = trunc(a, j as int); let one = pconst(n, 1); let x = rotn(one, j); let c = a[j as int];
        l_pev_mul_t(a, b, k, j); l_trunc(a, j); l_rotn_len(one, j);
        l_mul_add_l(t, pscale(x, c), b); l_mul_scale_l(x, b, c); l_mul_rotn_l(one, b, j); l_mul_one_l(b); l_rotn_len(b, j);
        l_pev_add(pmul(t, b), pscale(rotn(b, j), c), k); l_pev_scale(rotn(b, j), c, k); l_pev_rotn(b, k, j);
        l_pev_add(t, pscale(x, c), k); l_pev_scale(x, c, k); l_pev_rotn(one, k, j); l_pev_const(n, 1, k);
        let z = (j * k) as nat; let y = pev(b, k);
        l_rotn_len(one, z);
        l_mul_add_l(pev(t, k), pscale(rotn(one, z), c), y); l_mul_scale_l(rotn(one, z), y, c); l_mul_rotn_l(one, y, z); l_mul_one_l(y);
    }
}
pub proof fn l_pev_mul(a: Seq<u64>, b: Seq<u64>, k: int)
    requires oddk(a.len() as int, k), a.len() == b.len(),
    ensures pev(pmul(a, b), k) == pmul(pev(a, k), pev(b, k)),
{ l_pev_mul_t(a, b, k, a.len()); assert(trunc(a, a.len() as int) =~= a); }
// ---- of a ciphertext
pub open spec fn gpev(c: Seq<u64>, n: nat, k: int) -> Seq<u64> { pev(mask_of(c, n), k) + pev(body_of(c, n), k) }
pub proof fn l_gpev(c: Seq<u64>, d: Seq<u64>, n: nat, k: int)
    requires is_pev_ct(c, d, n, k), oddk(n as int, k),
    ensures c == gpev(d, n, k),
{
    l_pev_uniq(mask_of(c, n), mask_of(d, n), k); l_pev_uniq(body_of(c, n), body_of(d, n), k);
    assert(c =~= gpev(d, n, k));
}
pub proof fn l_phase_pev(c: Seq<u64>, s: Seq<u64>, k: int)
    requires c.len() == 2 * s.len(), oddk(s.len() as int, k),
    ensures gpev(c, s.len(), k).len() == 2 * s.len(), phase(gpev(c, s.len(), k), pev(s, k)) == pev(phase(c, s), k),
{
    let n = s.len(); let (a, b) = (mask_of(c, n), body_of(c, n));
    l_cat(pev(a, k), pev(b, k), n);
    l_pev_mul(a, s, k); l_pev_add(b, pmul(a, s), k);
}
// C15: substituting in a ciphertext substitutes in its message, up to the noise of the key and the rounding
pub open spec fn subs_out(ks: Seq<Seq<u64>>, n: nat, b: int, k: int, d: Seq<u64>) -> Seq<u64> { ks_out(ks, n, b, gpev(d, n, k)) }
pub proof fn l_subs(o: Seq<u64>, ks: Seq<Seq<u64>>, s: Seq<u64>, b: int, k: int, d: Seq<u64>, e: int)
    requires is_subs_out(o, ks, s.len(), b, k, d), oddk(s.len() as int, k), d.len() == 2 * s.len(), is_ksk(ks, pev(s, k), s, b, e), e >= 0, b >= 1, 0 < b * ks.len() < 64,
    ensures o == subs_out(ks, s.len(), b, k, d), o.len() == 2 * s.len(), near(phase(o, s), pev(phase(d, s), k), ks_bound(pev(s, k), ks.len(), b, e)),
{
    let n = s.len();
    let c = choose|c: Seq<u64>| #[trigger] is_pev_ct(c, d, n, k) && o == ks_out(ks, n, b, c);
    l_gpev(c, d, n, k);
    l_keyswitch(ks, pev(s, k), s, b, c, e);
    l_phase_pev(d, s, k);
}
// ---- the trace
pub open spec fn trace_k(n: int, i: int) -> int { n / (pow2((i - 1) as nat) as int) + 1 }
pub open spec fn trace_acc(km: Map<usize, Seq<Seq<u64>>>, n: nat, b: int, c: Seq<u64>, m: nat) -> Seq<u64> decreases m {
    if m == 0 { c } else { let p = trace_acc(km, n, b, c, (m - 1) as nat); let k = trace_k(n as int, m as int); padd(p, subs_out(km[k as usize], n, b, k, p)) }
}
pub open spec fn is_tksk(km: Map<usize, Seq<Seq<u64>>>, s: Seq<u64>, l: nat, b: int, e: int) -> bool {
    forall|i: int| #![trigger trace_k(s.len() as int, i)] 1 <= i && pow2(i as nat) <= s.len() ==> { let k = trace_k(s.len() as int, i); km[k as usize].len() == l && is_ksk(km[k as usize], pev(s, k), s, b, e) }
}
// sum of the conjugates so far
pub open spec fn tr(p: Seq<u64>, m: nat) -> Seq<u64> decreases m { if m == 0 { p } else { padd(tr(p, (m - 1) as nat), pev(tr(p, (m - 1) as nat), trace_k(p.len() as int, m as int))) } }
pub open spec fn ks_max(n: nat, l: nat, b: int, e: int) -> int { l * gerr(n, b, e) + n * pow2((63 - b * l) as nat) }
pub proof fn l_tr_len(p: Seq<u64>, m: nat) ensures tr(p, m).len() == p.len() decreases m { if m > 0 { l_tr_len(p, (m - 1) as nat); } }
pub proof fn l_pow2_div(n: int, i: nat)
    requires is_pow2(n as nat), n > 0, pow2(i) <= n,
    ensures n % (pow2(i) as int) == 0, n == pow2(i) * (n / (pow2(i) as int)), i > 0 ==> (n / (pow2((i - 1) as nat) as int)) == 2 * (n / (pow2(i) as int)),
        n / (pow2(i) as int) >= 1, is_pow2((n / (pow2(i) as int)) as nat),
{
    let x = choose|x: nat| n as nat == pow2(x);
    if x < i { lemma_pow2_strictly_increases(x, i); }
    lemma_pow2_adds(i, (x - i) as nat);
    lemma_pow2_pos(i); lemma_pow2_pos((x - i) as nat);
    let (p, q) = (pow2(i) as int, pow2((x - i) as nat) as int);
    assert(n == q * p) by (nonlinear_arith) requires n == p * q;
    lemma_fundamental_div_mod_converse(n, p, q, 0);
    if i > 0 {
        lemma_pow2_unfold(i); lemma_pow2_pos((i - 1) as nat);
        let h = pow2((i - 1) as nat) as int;
        assert(n == (2 * q) * h) by (nonlinear_arith) requires n == q * p, p == 2 * h;
        lemma_fundamental_div_mod_converse(n, h, 2 * q, 0);
    }
}
pub proof fn l_trace_k(n: int, i: int)
    requires is_pow2(n as nat), 1 <= i, pow2(i as nat) <= n,
    ensures oddk(n, trace_k(n, i)), trace_k(n, i) <= n + 1,
{
    lemma_pow2_pos(i as nat); l_pow2_div(n, i as nat); lemma_pow2_pos((i - 1) as nat); lemma_pow2_pos(i as nat);
    let h = pow2((i - 1) as nat) as int;
    assert(n / h <= n) by (nonlinear_arith) requires n > 0, h >= 1;
}
// multiples of 2^(m-1) keep their place, with a sign; so only multiples of 2^m survive
pub proof fn l_tr(p: Seq<u64>, m: nat)
    requires is_pow2(p.len()), pow2(m) <= p.len(),
    ensures tr(p, m).len() == p.len(), forall|j: int| 0 <= j < p.len() ==> #[trigger] tr(p, m)[j] == (if j % (pow2(m) as int) == 0 { wmul(p[j], wrap(pow2(m) as int)) } else { 0u64 }),
    decreases m,
{
    let n = p.len() as int; lemma_pow2_64(); l_tr_len(p, m);
    if m == 0 { assert forall|j: int| 0 <= j < n implies tr(p, 0)[j] == wmul(p[j], wrap(1)) by { w_unit(p[j]); } }
    else {
        let i = (m - 1) as nat; let k = trace_k(n, m as int); let q = tr(p, i); let (h, d) = (pow2(i) as int, pow2(m) as int);
        lemma_pow2_unfold(m); lemma_pow2_pos(i);
        l_tr(p, i); l_trace_k(n, m as int); l_pev(q, k);
        l_pow2_div(n, m); l_pow2_div(n, i);
        let w = n / h;
        assert(k == w + 1 && n == h * w);
        assert forall|j: int| 0 <= j < n implies #[trigger] tr(p, m)[j] == (if j % d == 0 { wmul(p[j], wrap(d)) } else { 0u64 }) by {
            l_src2(n, k, j);
            let x = ev_src(n, k, j);
            l_mult(n, h, w, j); l_mult(n, h, w, x);
            let c = q[j];
            w_negadd(c, 0);
            if j % h == 0 {
                l_src(n, k, j);
                assert(x == j);
                let u = j / h;
                assert((j % d == 0) == (u % 2 == 0)) by { lemma_fundamental_div_mod(j, h); lemma_fundamental_div_mod(j, d); l_half(j, h, u); }
                assert(pev(q, k)[j] == sgq(u, c));
                w_double(p[j], h, c);
            } else {
                if x % h == 0 { l_src(n, k, x); assert(false); }
                assert(pev(q, k)[j] == 0);
                assert(j % d != 0) by { if j % d == 0 { lemma_fundamental_div_mod(j, d); let v = j / d; assert(j == h * (2 * v)) by (nonlinear_arith) requires j == d * v, d == 2 * h; lemma_mul_mod(2 * v, h); } }
            }
        }
    }
}
pub proof fn l_half(j: int, h: int, u: int)
    requires h > 0, j == h * u, j >= 0,
    ensures (j % (2 * h) == 0) == (u % 2 == 0),
{
    let v = u / 2;
    if u % 2 == 0 { assert(j == (2 * h) * v) by (nonlinear_arith) requires j == h * u, u == 2 * v; lemma_mul_mod(v, 2 * h); }
    else { assert(j == v * (2 * h) + h) by (nonlinear_arith) requires j == h * u, u == 2 * v + 1; lemma_fundamental_div_mod_converse(j, 2 * h, v, h); }
}
pub proof fn l_mult(n: int, h: int, w: int, j: int)
    requires n == h * w, h > 0, w > 0, 0 <= j < n,
    ensures j % h == 0 ==> ev_pos(n, w + 1, j) == j && (j * (w + 1)) / n == j / h,
{
    if j % h == 0 {
        let u = j / h; lemma_fundamental_div_mod(j, h);
        assert(j * (w + 1) == u * n + j) by (nonlinear_arith) requires j == h * u, n == h * w;
        lemma_fundamental_div_mod_converse(j * (w + 1), n, u, j);
    }
}
pub proof fn w_double(x: u64, h: int, c: u64)
    requires c == wmul(x, wrap(h)),
    ensures wadd(c, c) == wmul(x, wrap(2 * h)), wadd(c, wneg(c)) == 0,
{
    l_wrap(h); l_wrap(2 * h);
    e_mul_r(x as int, wrap(h) as int, h); e_mul_r(x as int, wrap(2 * h) as int, 2 * h);
    let t = x * h;
    l_wrap_eq(x * wrap(h), t);
    assert(x * (2 * h) == t + t) by (nonlinear_arith) requires t == x * h;
    l_wrap_eq(x * wrap(2 * h), t + t);
    w_w(wrap(t) as int, t); w_w(t, t);
    w_w(c as int, -(c as int));
}
// the full trace: n times the constant coefficient
pub proof fn l_tr_full(p: Seq<u64>, m: nat)
    requires p.len() == pow2(m), m < 64,
    ensures tr(p, m) == pconst(p.len(), wmul(p[0], p.len() as u64)),
{
    assert(is_pow2(p.len()));
    l_tr(p, m); lemma_pow2_64(); lemma_pow2_pos(m); if m < 63 { lemma_pow2_strictly_increases(m, 63); }
    assert(tr(p, m) =~= pconst(p.len(), wmul(p[0], p.len() as u64))) by { assert forall|j: int| 0 <= j < p.len() implies tr(p, m)[j] == pconst(p.len(), wmul(p[0], p.len() as u64))[j] by { lemma_small_mod(j as nat, p.len()); } }
}
pub proof fn l_bin_l1(s: Seq<u64>, m: nat) requires m <= s.len(), forall|i: int| 0 <= i < s.len() ==> #[trigger] abs(s[i]) <= 1 ensures l1c(s, m) <= m decreases m { if m > 0 { l_bin_l1(s, (m - 1) as nat); } }
pub proof fn l_pev_bin(s: Seq<u64>, k: int)
    requires oddk(s.len() as int, k), forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == 0 || s[i] == 1,
    ensures l1(pev(s, k)) <= s.len(),
{
    assert forall|j: int| 0 <= j < s.len() implies #[trigger] abs(pev(s, k)[j]) <= 1 by { l_src2(s.len() as int, k, j); }
    l_bin_l1(pev(s, k), s.len());
}
pub proof fn l_trace_acc(km: Map<usize, Seq<Seq<u64>>>, s: Seq<u64>, l: nat, b: int, c: Seq<u64>, e: int, m: nat)
    requires is_tksk(km, s, l, b, e), is_pow2(s.len()), pow2(m) <= s.len(), c.len() == 2 * s.len(), e >= 0, b >= 1, 0 < b * l < 64, forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == 0 || s[i] == 1,
    ensures trace_acc(km, s.len(), b, c, m).len() == 2 * s.len(), near(phase(trace_acc(km, s.len(), b, c, m), s), tr(phase(c, s), m), (pow2(m) - 1) * ks_max(s.len(), l, b, e)),
    decreases m,
{
    let n = s.len(); let p = phase(c, s); let kb = ks_max(n, l, b, e);
    lemma_pow2_64();
    if m == 0 { assert(0 * kb == 0); n_refl(p, 0); assert((pow2(0) - 1) * kb == 0); }
    else {
        let i = (m - 1) as nat; lemma_pow2_unfold(m); lemma_pow2_pos(i);
        l_trace_acc(km, s, l, b, c, e, i);
        let o = trace_acc(km, n, b, c, i); let k = trace_k(n as int, m as int); let ks = km[k as usize];
        l_trace_k(n as int, m as int);
        let z = subs_out(ks, n, b, k, o);
        assert(is_subs_out(z, ks, n, b, k, o)) by {
            let d = gpev(o, n, k); l_cat(pev(mask_of(o, n), k), pev(body_of(o, n), k), n); l_pev(mask_of(o, n), k); l_pev(body_of(o, n), k);
            assert(is_pev_ct(d, o, n, k));
        }
        l_subs(z, ks, s, b, k, o, e);
        l_pev_bin(s, k);
        let f = pow2((63 - b * l) as nat) as int;
        assert(l1(pev(s, k)) * f <= n * f) by (nonlinear_arith) requires l1(pev(s, k)) <= n, f >= 0;
        let t = tr(p, i); l_tr_len(p, i); let ei = (pow2(i) - 1) * kb;
        n_weak(phase(z, s), pev(phase(o, s), k), ks_bound(pev(s, k), l, b, e), kb);
        l_pev_near(phase(o, s), t, k, ei);
        n_trans(phase(z, s), pev(phase(o, s), k), pev(t, k), kb, ei);
        l_phase_add(o, z, s);
        n_add(phase(o, s), t, phase(z, s), pev(t, k), ei, kb + ei);
        assert((pow2(m) - 1) * kb == ei + (kb + ei)) by (nonlinear_arith) requires pow2(m) == 2 * pow2(i), ei == (pow2(i) - 1) * kb;
    }
}
// C16: the trace encrypts n times the constant coefficient, and zero elsewhere
pub proof fn l_trace(km: Map<usize, Seq<Seq<u64>>>, s: Seq<u64>, l: nat, b: int, c: Seq<u64>, e: int, m: nat)
    requires is_tksk(km, s, l, b, e), s.len() == pow2(m), m < 64, c.len() == 2 * s.len(), e >= 0, b >= 1, 0 < b * l < 64, forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == 0 || s[i] == 1,
    ensures trace_acc(km, s.len(), b, c, m).len() == 2 * s.len(),
        near(phase(trace_acc(km, s.len(), b, c, m), s), pconst(s.len(), wmul(phase(c, s)[0], s.len() as u64)), (s.len() - 1) * ks_max(s.len(), l, b, e)),
{ assert(is_pow2(s.len())); l_trace_acc(km, s, l, b, c, e, m); l_tr_full(phase(c, s), m); }
pub proof fn l_l1_nonneg(s: Seq<u64>, m: nat) requires m <= s.len() ensures l1c(s, m) >= 0 decreases m { if m > 0 { l_l1_nonneg(s, (m - 1) as nat); } }
// ---- a key switching key in gadget form
// row 2k = -ks[k], row 2k+1 = (0, 2^(64 - b (k+1)))
pub open spec fn ksg_row(ks: Seq<Seq<u64>>, n: nat, b: int, k: int) -> Seq<u64> { if k % 2 == 0 { psub(pzero(2 * n), ks[k / 2]) } else { pzero(n) + pconst(n, gad(b, k / 2 + 1)) } }
pub open spec fn is_ksg(g: Seq<u64>, n: nat, ks: Seq<Seq<u64>>, b: int) -> bool { g.len() == 2 * ks.len() * (2 * n) && forall|k: int| 0 <= k < 2 * ks.len() ==> #[trigger] row(g, n, k) == ksg_row(ks, n, b, k) }
// C15: switching through that form
pub proof fn l_ksg(g: Seq<u64>, ks: Seq<Seq<u64>>, before: Seq<u64>, after: Seq<u64>, b: int, d: Seq<u64>, e: int)
    requires is_ksg(g, after.len(), ks, b), is_ksk(ks, before, after, b, e), d.len() == 2 * after.len(), e >= 0, b >= 1, 0 < b * ks.len() < 64, after.len() > 0,
    ensures ep(g, after.len(), b, ks.len(), d).len() == 2 * after.len(), near(phase(ep(g, after.len(), b, ks.len(), d), after), phase(d, before), ep_bound(before, pconst(after.len(), 1), ks.len(), b, e)),
{
    let n = after.len(); let l = ks.len(); let one = pconst(n, 1);
    assert forall|k: int| 0 <= k < l implies near(phase(#[trigger] row(g, n, 2 * k), after), top_row(one, before, b, k + 1), e) by {
        assert((2 * k) / 2 == k && (2 * k) % 2 == 0);
        let c = ks[k]; let gg = gad(b, k + 1); let z = pzero(2 * n);
        l_const_const(n, 1, gg); w_unit(gg);
        l_mul_const_l(before, gg);
        l_phase_sub(z, c, after); l_phase_zero(after);
        let p = phase(c, after); let q = pscale(before, gg);
        n_refl(pzero(n), 0);
        n_sub(pzero(n), pzero(n), p, q, 0, e);
        assert(psub(pzero(n), q) =~= pneg(q));
    }
    assert forall|k: int| 0 <= k < l implies near(phase(#[trigger] row(g, n, 2 * k + 1), after), pscale(one, gad(b, k + 1)), e) by {
        assert((2 * k + 1) / 2 == k && (2 * k + 1) % 2 == 1);
        let gg = gad(b, k + 1); let p = pconst(n, gg);
        l_const_const(n, 1, gg); w_unit(gg);
        l_cat(pzero(n), p, n); l_mul_zero_l(after);
        assert(psub(p, pzero(n)) =~= p);
        n_refl(p, e);
    }
    l_ep2(g, after, before, one, b, l, d, e);
    l_mul_one_l(phase(d, before));
}
// ---- assembling a gadget encryption from encryptions of the scaled message
pub open spec fn is_expanded(g: Seq<u64>, n: nat, l: nat, rows: Seq<Seq<u64>>, neg: Seq<u64>, nb: int, nl: nat) -> bool {
    &&& g.len() == 2 * l * (2 * n)
    &&& forall|k: int| 0 <= k < l ==> #[trigger] row(g, n, 2 * k) == ep(neg, n, nb, nl, rows[k])
    &&& forall|k: int| 0 <= k < l ==> #[trigger] row(g, n, 2 * k + 1) == rows[k]
}
pub open spec fn expand_bound(s: Seq<u64>, nb: int, nl: nat, e: int, er: int) -> int { er + ep_bound(s, pneg(s), nl, nb, e) + l1(pneg(s)) * er }
pub proof fn l_expand(g: Seq<u64>, s: Seq<u64>, l: nat, b: int, rows: Seq<Seq<u64>>, bit: u64, er: int, neg: Seq<u64>, nb: int, nl: nat, e: int)
    requires is_expanded(g, s.len(), l, rows, neg, nb, nl), is_rgsw(neg, s.len(), nl, nb, s, pneg(s), e), e >= 0, nb >= 1, 0 < nb * nl < 64, er >= 0,
        forall|k: int| 0 <= k < l ==> (#[trigger] rows[k]).len() == 2 * s.len() && near(phase(rows[k], s), pconst(s.len(), wmul(bit, gad(b, k + 1))), er),
    ensures is_rgsw(g, s.len(), l, b, s, pconst(s.len(), bit), expand_bound(s, nb, nl, e, er)),
{
    let n = s.len(); let m = pconst(n, bit); let z = expand_bound(s, nb, nl, e, er); let ms = pneg(s);
    let eb = ep_bound(s, ms, nl, nb, e);
    l_l1_nonneg(ms, n); l_l1_nonneg(s, n);
    lemma_pow2_pos((63 - nb * nl) as nat);
    assert(nl >= 0);
    l_ep_bound_nonneg(s, ms, nl, nb, e);
    assert(l1(ms) * er >= 0) by (nonlinear_arith) requires l1(ms) >= 0, er >= 0;
    assert forall|k: int| 0 <= k < l implies near(phase(#[trigger] row(g, n, 2 * k), s), top_row(m, s, b, k + 1), z) by {
        let gg = gad(b, k + 1); let c = rows[k]; let q = pconst(n, wmul(bit, gg));
        l_const_const(n, bit, gg);
        l_ep(neg, s, ms, nb, nl, c, e);
        n_mul(ms, phase(c, s), q, er);
        n_trans(phase(ep(neg, n, nb, nl, c), s), pmul(ms, phase(c, s)), pmul(ms, q), eb, l1(ms) * er);
        l_mul_neg_l(s, q); l_mul_comm(s, q);
        n_weak(phase(row(g, n, 2 * k), s), top_row(m, s, b, k + 1), eb + l1(ms) * er, z);
    }
    assert forall|k: int| 0 <= k < l implies near(phase(#[trigger] row(g, n, 2 * k + 1), s), pscale(m, gad(b, k + 1)), z) by {
        l_const_const(n, bit, gad(b, k + 1));
        let c = rows[k];
        n_weak(phase(c, s), pscale(m, gad(b, k + 1)), er, z);
    }
}
pub proof fn l_ep_bound_nonneg(s: Seq<u64>, m: Seq<u64>, l: nat, b: int, e: int)
    requires e >= 0,
    ensures ep_bound(s, m, l, b, e) >= 0,
{
    l_l1_nonneg(m, m.len()); l_l1_nonneg(s, s.len());
    let f = pow2((63 - b * l) as nat) as int; let ge = gerr(s.len(), b, e);
    let (n, p) = (s.len() as int, pow2((b - 1) as nat) as int);
    assert(ge >= 0) by { assert(n * p >= 0) by (nonlinear_arith) requires n >= 0, p >= 0; let np = n * p; assert(np * e >= 0) by (nonlinear_arith) requires np >= 0, e >= 0; }
    assert(l * (2 * ge) >= 0) by (nonlinear_arith) requires ge >= 0, l >= 0;
    assert(l1(s) * f >= 0) by (nonlinear_arith) requires l1(s) >= 0, f >= 0;
    assert(l1(m) * (f + l1(s) * f) >= 0) by (nonlinear_arith) requires l1(m) >= 0, f >= 0, l1(s) * f >= 0;
}
pub proof fn l_rows_zero(g: Seq<u64>, n: nat, c: nat)
    requires g == pzero(c * (2 * n)),
    ensures forall|k: int| 0 <= k < c ==> #[trigger] row(g, n, k) == pzero(2 * n),
{ assert forall|k: int| 0 <= k < c implies #[trigger] row(g, n, k) == pzero(2 * n) by { l_rowlen(g, n, c, k); assert(row(g, n, k) =~= pzero(2 * n)); } }
// one more row of the assembly
pub open spec fn asm_row(neg: Seq<u64>, n: nat, nb: int, nl: nat, rows: Seq<Seq<u64>>, k: int) -> Seq<u64> { if k % 2 == 0 { ep(neg, n, nb, nl, rows[k / 2]) } else { rows[k / 2] } }
pub proof fn l_assembled(g: Seq<u64>, n: nat, l: nat, rows: Seq<Seq<u64>>, neg: Seq<u64>, nb: int, nl: nat)
    requires g.len() == 2 * l * (2 * n), forall|k: int| 0 <= k < 2 * l ==> #[trigger] row(g, n, k) == asm_row(neg, n, nb, nl, rows, k),
    ensures is_expanded(g, n, l, rows, neg, nb, nl),
{
    assert forall|k: int| 0 <= k < l implies #[trigger] row(g, n, 2 * k) == ep(neg, n, nb, nl, rows[k]) by { assert((2 * k) / 2 == k && (2 * k) % 2 == 0); }
    assert forall|k: int| 0 <= k < l implies #[trigger] row(g, n, 2 * k + 1) == rows[k] by { assert((2 * k + 1) / 2 == k && (2 * k + 1) % 2 == 1); }
}
// C16: from an encryption of bit 2^(64 - b level - log n) in the constant coefficient to a row
pub proof fn l_scaled_bit(bit: u64, b: int, level: int, logn: int)
    requires bit == 0 || bit == 1, logn >= 0, b * level + logn <= 64, b * level >= 1,
    ensures wmul(wrap(bit * pow2((64 - b * level - logn) as nat)), wrap(pow2(logn as nat) as int)) == wmul(bit, gad(b, level)),
{
    let (x, y) = (pow2((64 - b * level - logn) as nat) as int, pow2(logn as nat) as int);
    lemma_pow2_adds((64 - b * level - logn) as nat, logn as nat);
    lemma_pow2_64(); if b * level > 1 { lemma_pow2_strictly_increases((64 - b * level) as nat, 63); }
    let g = x * y;
    assert((bit * x) * y == bit * g) by (nonlinear_arith) requires g == x * y;
    l_wrap(y); l_wrap(bit * x);
    e_mul(wrap(bit * x) as int, bit * x, wrap(y) as int, y);
    l_wrap_eq(wrap(bit * x) * wrap(y), bit * g);
}
pub proof fn n_const(n: nat, a: u64, c: u64, e: int) requires cd(a, c) <= e, e >= 0 ensures near(pconst(n, a), pconst(n, c), e)
{ assert forall|i: int| 0 <= i < n implies cd(pconst(n, a)[i], pconst(n, c)[i]) <= e by { l_cd_abs(pconst(n, a)[i], pconst(n, c)[i]); } }
pub proof fn l_wmul_wrap(x: int, y: u64) ensures wmul(wrap(x), y) == wrap(x * y)
{ l_wrap(x); e_mul(wrap(x) as int, x, y as int, y as int); l_wrap_eq(wrap(x) * y, x * y); }
pub open spec fn trace_bound(n: nat, l: nat, b: int, ek: int, e: int) -> int { (n - 1) * ks_max(n, l, b, ek) + n * e }
// C16, fast route: encryptions of bit 2^(64 - b k - log n) in the constant coefficient, traced and assembled, are a gadget encryption of bit
pub proof fn l_expand_trace(g: Seq<u64>, s: Seq<u64>, l: nat, b: int, km: Map<usize, Seq<Seq<u64>>>, lk: nat, bk: int, ek: int, cs: Seq<Seq<u64>>, t: Seq<Seq<u64>>, m: nat, bit: u64, e: int, neg: Seq<u64>, nb: int, nl: nat, en: int)
    requires is_tksk(km, s, lk, bk, ek), s.len() == pow2(m), m < 63, ek >= 0, bk >= 1, 0 < bk * lk < 64, forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == 0 || s[i] == 1,
        cs.len() >= l, t.len() == cs.len(), forall|k: int| 0 <= k < cs.len() ==> #[trigger] t[k] == trace_acc(km, s.len(), bk, cs[k], m),
        forall|k: int| 0 <= k < l ==> (#[trigger] cs[k]).len() == 2 * s.len() && cd(phase(cs[k], s)[0], wrap(bit * pow2((64 - b * (k + 1) - m) as nat))) <= e,
        bit == 0 || bit == 1, b >= 1, b * l + m <= 64, e >= 0,
        is_expanded(g, s.len(), l, t, neg, nb, nl), is_rgsw(neg, s.len(), nl, nb, s, pneg(s), en), en >= 0, nb >= 1, 0 < nb * nl < 64,
    ensures is_rgsw(g, s.len(), l, b, s, pconst(s.len(), bit), expand_bound(s, nb, nl, en, trace_bound(s.len(), lk, bk, ek, e))),
{
    let n = s.len(); let er = trace_bound(n, lk, bk, ek, e);
    lemma_pow2_pos(m); lemma_pow2_64(); lemma_pow2_strictly_increases(m, 63);
    let n64 = n as u64; let kb = ks_max(n, lk, bk, ek);
    assert(kb >= 0) by { l_ks_max_nonneg(n, lk, bk, ek); }
    assert((n - 1) * kb >= 0 && n * e >= 0) by (nonlinear_arith) requires n >= 1, kb >= 0, e >= 0;
    assert forall|k: int| 0 <= k < l implies (#[trigger] t[k]).len() == 2 * n && near(phase(t[k], s), pconst(n, wmul(bit, gad(b, k + 1))), er) by {
        let c = cs[k]; let v = wrap(bit * pow2((64 - b * (k + 1) - m) as nat)); let x = phase(c, s)[0];
        l_trace(km, s, lk, bk, c, ek, m);
        n_const(n, x, v, e);
        n_scale(pconst(n, x), pconst(n, v), n64, e);
        l_const_const(n, x, n64); l_const_const(n, v, n64);
        assert(b * (k + 1) <= b * l) by (nonlinear_arith) requires k + 1 <= l, b >= 1;
        assert(b * (k + 1) >= 1) by (nonlinear_arith) requires k + 1 >= 1, b >= 1;
        l_scaled_bit(bit, b, k + 1, m as int);
        lemma_small_mod(n, 0x1_0000_0000_0000_0000);
        assert(wrap(pow2(m) as int) == n64);
        assert(abs(n64) == n);
        n_trans(phase(t[k], s), pconst(n, wmul(x, n64)), pconst(n, wmul(v, n64)), (n - 1) * kb, n * e);
    }
    l_expand(g, s, l, b, t, bit, er, neg, nb, nl, en);
}
pub proof fn l_ks_max_nonneg(n: nat, l: nat, b: int, e: int) requires e >= 0 ensures ks_max(n, l, b, e) >= 0
{
    let p = pow2((b - 1) as nat) as int; let f = pow2((63 - b * l) as nat) as int; let ge = gerr(n, b, e);
    assert(n * p >= 0) by (nonlinear_arith) requires n >= 0, p >= 0; let np = n * p; assert(np * e >= 0) by (nonlinear_arith) requires np >= 0, e >= 0;
    assert(l * ge >= 0) by (nonlinear_arith) requires ge >= 0, l >= 0;
    assert(n * f >= 0) by (nonlinear_arith) requires f >= 0, n >= 0;
}
pub proof fn l_conv_nonneg(s: Seq<u64>, l: nat, b: int, e: int, m: nat) requires e >= 0, m <= s.len() ensures conv_bound(s, l, b, e, m) >= 0
{
    let p = pow2((b - 1) as nat) as int; let f = pow2((63 - b * l) as nat) as int; l_l1_nonneg(s, m); let x = l1c(s, m);
    assert(p * e >= 0) by (nonlinear_arith) requires p >= 0, e >= 0; let pe = p * e;
    assert(l * pe >= 0) by (nonlinear_arith) requires pe >= 0, l >= 0; let lpe = l * pe;
    assert(m * lpe >= 0) by (nonlinear_arith) requires lpe >= 0, m >= 0;
    assert(x * f >= 0) by (nonlinear_arith) requires x >= 0, f >= 0;
}
// C16, slow route: the constant coefficient extracted and packed back
pub proof fn l_expand_slow(g: Seq<u64>, s: Seq<u64>, l: nat, b: int, gs: Seq<Seq<u64>>, lk: nat, bk: int, ek: int, cs: Seq<Seq<u64>>, t: Seq<Seq<u64>>, bit: u64, e: int, neg: Seq<u64>, nb: int, nl: nat, en: int)
    requires is_lksk(gs, s, lk, bk, ek), ek >= 0, bk >= 1, 0 < bk * lk < 64, s.len() > 0,
        cs.len() >= l, t.len() == cs.len(), forall|k: int| 0 <= k < cs.len() ==> #[trigger] t[k] == conv_out(gs, s.len(), lk, bk, sample_extract(cs[k], s.len(), 0)),
        forall|k: int| 0 <= k < l ==> (#[trigger] cs[k]).len() == 2 * s.len() && cd(phase(cs[k], s)[0], wrap(bit * pow2((64 - b * (k + 1)) as nat))) <= e,
        bit == 0 || bit == 1, b >= 1, b * l <= 64, e >= 0,
        is_expanded(g, s.len(), l, t, neg, nb, nl), is_rgsw(neg, s.len(), nl, nb, s, pneg(s), en), en >= 0, nb >= 1, 0 < nb * nl < 64,
    ensures is_rgsw(g, s.len(), l, b, s, pconst(s.len(), bit), expand_bound(s, nb, nl, en, conv_bound(s, lk, bk, ek, s.len()) + e)),
{
    let n = s.len(); let cb = conv_bound(s, lk, bk, ek, n);
    l_conv_nonneg(s, lk, bk, ek, n);
    assert forall|k: int| 0 <= k < l implies (#[trigger] t[k]).len() == 2 * n && near(phase(t[k], s), pconst(n, wmul(bit, gad(b, k + 1))), cb + e) by {
        let c = cs[k]; let v = wrap(bit * pow2((64 - b * (k + 1)) as nat)); let x = phase(c, s)[0];
        l_extract(c, s, 0);
        l_conv(gs, s, lk, bk, sample_extract(c, n, 0), ek);
        n_const(n, x, v, e);
        n_trans(phase(t[k], s), pconst(n, x), pconst(n, v), cb, e);
        assert(b * (k + 1) <= b * l) by (nonlinear_arith) requires k + 1 <= l, b >= 1;
        assert(b * (k + 1) >= 1) by (nonlinear_arith) requires k + 1 >= 1, b >= 1;
        l_scaled_bit(bit, b, k + 1, 0); lemma_pow2_64();
        w_unit(v);
        assert(wrap(pow2(0) as int) == 1u64);
    }
    l_expand(g, s, l, b, t, bit, cb + e, neg, nb, nl, en);
}
}
} // verus!
#end
