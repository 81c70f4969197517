// Helpers over Panacea's public API; the reference arithmetic is written independently of it.
pub use crate::t::*;
pub use concrete_core::commons::crypto::encoding::{Plaintext, PlaintextList};
pub use concrete_core::commons::crypto::secret::generators::{DeterministicSeeder, EncryptionRandomGenerator, SecretRandomGenerator};
pub use concrete_core::commons::math::polynomial::Polynomial;
pub use concrete_core::commons::math::random::RandomGenerator;
pub use concrete_core::commons::math::tensor::{AsMutSlice, AsMutTensor, AsRefSlice, AsRefTensor, Tensor};
pub use concrete_core::prelude::{DecompositionBaseLog, DecompositionLevelCount, LweSize, MonomialDegree, PolynomialSize};
pub use concrete_core::specification::dispersion::LogStandardDev;
pub use concrete_csprng::generators::SoftwareRandomGenerator;
pub use concrete_csprng::seeders::Seed;
pub use panacea::codec::Codec;
pub use panacea::context::Context;
pub use panacea::lwe::*;
pub use panacea::naive_hash::NaiveHash;
pub use panacea::params::*;
pub use panacea::rgsw::*;
pub use panacea::rlwe::*;

pub type V = Vec<u64>;
pub fn par(n: usize, t: u64) -> TFHEParameters {
    TFHEParameters { polynomial_size: n, plaintext_modulus: t, secure_seed: false, ..TFHEParameters::default() }
}
/// Parameters whose roles all have different values.
pub fn par_mixed(n: usize, t: u64) -> TFHEParameters {
    TFHEParameters { standard_deviation: -54.0, polynomial_size: n, base_log: 6, level_count: 7, key_switch_base_log: 4, key_switch_level_count: 12, negs_base_log: 7, negs_level_count: 6, plaintext_modulus: t, secure_seed: false }
}
pub fn par_mixed2(n: usize, t: u64) -> TFHEParameters {
    TFHEParameters { standard_deviation: -55.0, polynomial_size: n, base_log: 4, level_count: 10, key_switch_base_log: 7, key_switch_level_count: 7, negs_base_log: 5, negs_level_count: 9, plaintext_modulus: t, secure_seed: false }
}
/// A context whose generators depend on the run's seed.
pub fn ctx(r: &mut Rng, p: &TFHEParameters) -> Context {
    let mut c = Context::new(p.clone());
    reseed(r, &mut c);
    c
}
pub fn reseed(r: &mut Rng, c: &mut Context) {
    let mut s = || Seed(((r.u() as u128) << 64) | r.u() as u128);
    c.random_generator = RandomGenerator::<SoftwareRandomGenerator>::new(s());
    c.secret_generator = SecretRandomGenerator::<SoftwareRandomGenerator>::new(s());
    c.encryption_generator = EncryptionRandomGenerator::<SoftwareRandomGenerator>::new(s(), &mut DeterministicSeeder::<SoftwareRandomGenerator>::new(s()));
}
pub fn pl(v: &[u64]) -> PlaintextList<V> {
    PlaintextList::from_container(v.to_vec())
}
pub fn plv(p: &PlaintextList<V>) -> V {
    p.as_tensor().as_slice().to_vec()
}
pub fn poly(v: &[u64]) -> Polynomial<V> {
    Polynomial::from_container(v.to_vec())
}
pub fn polyv(p: &Polynomial<V>) -> V {
    p.as_tensor().as_slice().to_vec()
}
pub fn sk_from(s: &[u64]) -> RLWESecretKey {
    let mut k = RLWESecretKey::zero(PolynomialSize(s.len()));
    k.fill_with_tensor(&Tensor::from_container(s.to_vec()));
    k
}
pub fn skc(s: &RLWESecretKey) -> V {
    panacea::rlwe::verif::sk_coeffs(s)
}
pub fn mask(c: &RLWECiphertext) -> V {
    c.get_mask().as_tensor().as_slice().to_vec()
}
pub fn body(c: &RLWECiphertext) -> V {
    c.get_body().as_tensor().as_slice().to_vec()
}
pub fn both(c: &RLWECiphertext) -> (V, V) {
    (mask(c), body(c))
}
pub fn mk(m: &[u64], b: &[u64]) -> RLWECiphertext {
    let mut c = RLWECiphertext::allocate(PolynomialSize(m.len()));
    c.get_mut_mask().as_mut_tensor().as_mut_slice().copy_from_slice(m);
    c.get_mut_body().as_mut_tensor().as_mut_slice().copy_from_slice(b);
    c
}
pub fn rand_ct(r: &mut Rng, n: usize) -> RLWECiphertext {
    let (mut m, mut b) = (r.poly(n), r.poly(n));
    // coefficients at the edges of the ring and of its signed reading
    const EDGE: [u64; 6] = [0, 1 << 63, u64::MAX, 1, (1 << 63) - 1, (1 << 63) + 1];
    match r.below(4) {
        0 => for x in m.iter_mut().chain(b.iter_mut()) { if r.below(3) == 0 { *x = EDGE[r.below(6)]; } },
        1 => { let (k, v) = (r.below(3), EDGE[r.below(6)]); for x in m.iter_mut().filter(|_| k != 1) { *x = v; } for x in b.iter_mut().filter(|_| k != 2) { *x = v; } }
        _ => {}
    }
    mk(&m, &b)
}
// ---- reference ring arithmetic
pub fn add(a: &[u64], b: &[u64]) -> V { a.iter().zip(b).map(|(x, y)| x.wrapping_add(*y)).collect() }
pub fn sub(a: &[u64], b: &[u64]) -> V { a.iter().zip(b).map(|(x, y)| x.wrapping_sub(*y)).collect() }
pub fn neg(a: &[u64]) -> V { a.iter().map(|x| x.wrapping_neg()).collect() }
pub fn scale(a: &[u64], c: u64) -> V { a.iter().map(|x| x.wrapping_mul(c)).collect() }
pub fn mul(a: &[u64], b: &[u64]) -> V {
    let n = a.len();
    let mut o = vec![0u64; n];
    for i in 0..n {
        if a[i] == 0 { continue; }
        for j in 0..n {
            let p = a[i].wrapping_mul(b[j]);
            if i + j < n { o[i + j] = o[i + j].wrapping_add(p) } else { o[i + j - n] = o[i + j - n].wrapping_sub(p) }
        }
    }
    o
}
pub fn mono(n: usize, d: usize, c: u64) -> V { let mut v = vec![0; n]; v[d] = c; v }
pub fn subst(a: &[u64], k: usize) -> V {
    let n = a.len();
    let mut o = vec![0u64; n];
    for i in 0..n {
        let e = (i * k) % (2 * n);
        if e < n { o[e] = o[e].wrapping_add(a[i]) } else { o[e - n] = o[e - n].wrapping_sub(a[i]) }
    }
    o
}
pub fn phase(s: &[u64], c: &RLWECiphertext) -> V { sub(&body(c), &mul(&mask(c), s)) }
pub fn cdist(a: u64, b: u64) -> u64 { let d = a.wrapping_sub(b); d.min(d.wrapping_neg()) }
pub fn maxdist(a: &[u64], b: &[u64]) -> u64 { assert_eq!(a.len(), b.len()); a.iter().zip(b).map(|(x, y)| cdist(*x, *y)).max().unwrap_or(0) }
pub fn enc_of(t: u64, m: &[u64]) -> V { let d = ((1u128 << 64) / t as u128) as u64; m.iter().map(|x| x.wrapping_mul(d)).collect() }
impl T {
    /// phase(c) == want up to 2^logtol
    pub fn near(&mut self, s: &[u64], c: &RLWECiphertext, want: &[u64], logtol: u32, what: &str) {
        let p = phase(s, c);
        self.nearv(&p, want, logtol, what);
    }
    pub fn nearv(&mut self, got: &[u64], want: &[u64], logtol: u32, what: &str) {
        let d = maxdist(got, want);
        if std::env::var("HARNESS_NOISE").is_ok() { eprintln!("noise {:>5.1} tol {} {}", (d as f64).log2(), logtol, what); }
        let i = (0..want.len()).find(|i| cdist(got[*i], want[*i]) >= 1 << logtol).unwrap_or(0);
        self.ok(d < 1 << logtol, || format!("{}: distance 2^{:.1} at coefficient {} (allowed 2^{}): got {}, expected {}", what, (d as f64).log2(), i, logtol, got[i], want[i]));
    }
}
pub fn enc_raw(sk: &RLWESecretKey, m: &[u64], c: &mut Context) -> RLWECiphertext {
    let mut o = RLWECiphertext::allocate(PolynomialSize(m.len()));
    let std = c.std;
    sk.encrypt_rlwe(&mut o, &pl(m), std, &mut c.encryption_generator);
    o
}
pub fn enc_rgsw_const(sk: &RLWESecretKey, b: u64, c: &mut Context) -> RGSWCiphertext {
    let mut g = RGSWCiphertext::allocate(c.poly_size, c.base_log, c.level_count);
    sk.encrypt_constant_rgsw(&mut g, &Plaintext(b), c);
    g
}
/// The two rows of every level have the phases of a gadget encryption of m.
pub fn check_rgsw(t: &mut T, g: &RGSWCiphertext, s: &[u64], m: &[u64], logtol: u32, what: &str) {
    let (b, l) = (g.decomposition_base_log().0, g.decomposition_level_count().0);
    for k in 0..l {
        let f = 1u64 << (64 - b * (k + 1));
        let mg = scale(m, f);
        t.near(s, &g.get_nth_row(2 * k), &neg(&mul(&mg, s)), logtol, &format!("{} (mask row of level {})", what, k + 1));
        t.near(s, &g.get_nth_row(2 * k + 1), &mg, logtol, &format!("{} (body row of level {})", what, k + 1));
    }
}
pub fn all_rows(g: &RGSWCiphertext) -> Vec<(V, V)> {
    (0..g.decomposition_level_count().0 * 2).map(|k| both(&g.get_nth_row(k))).collect()
}
pub fn nodes_log2(n: usize) -> usize { (0..64).find(|k| 1usize << k == n).unwrap() }
