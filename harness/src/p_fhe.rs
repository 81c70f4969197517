use crate::h::*;
use panacea::decision_tree::*;
use std::collections::HashMap;

fn sizes() -> Vec<(&'static str, TFHEParameters)> {
    vec![("small", par(8, 256)), ("mixed", par_mixed(64, 16)), ("mixed2", par_mixed2(16, 4)), ("poly512", par(512, 256)), ("one-level", TFHEParameters { base_log: 16, level_count: 1, ..par(8, 16) }), ("two-levels", TFHEParameters { base_log: 12, level_count: 2, ..par(32, 16) }), ("levels20", TFHEParameters { base_log: 3, level_count: 20, negs_base_log: 2, negs_level_count: 25, ..par(8, 16) }), ("levels13", TFHEParameters { base_log: 4, level_count: 13, negs_base_log: 4, negs_level_count: 14, ..par(32, 16) })]
}
// rounding error of a decomposition of a uniform mask against a binary key, and noise
fn eptol(base: usize, level: usize, n: usize) -> u32 {
    let lg = nodes_log2(n) as u32;
    let round = 64 - (base * level) as u32 + lg;
    let noise = 12 + base as u32 + lg + 5;
    let fft = 12 + base as u32 + lg + 5;
    round.max(noise).max(fft) + 2
}
pub fn c14(t: &mut T) {
    for (nm, p) in sizes() {
        t.sub(&format!("products-{}", nm), |t| {
            let mut r = t.rng.clone();
            let n = p.polynomial_size;
            let tol = eptol(p.base_log, p.level_count, n);
            for rep in 0..t.reps(6, 30) {
                let mut c = ctx(&mut r, &p);
                let sk = c.gen_rlwe_sk();
                let s = skc(&sk);
                let mut buf = c.gen_fft_ctx();
                // messages: constants 0, 1, small, -1; polynomials: monomials, binary, ternary
                let k = [0u64, 1, 1, 3, u64::MAX, 0][rep % 6];
                let g = enc_rgsw_const(&sk, k, &mut c);
                t.case(format!("{} constant {}", nm, k as i64));
                t.eq((g.decomposition_base_log().0, g.decomposition_level_count().0, g.polynomial_size().0, g.ciphertext_count().0), (p.base_log, p.level_count, n, 2 * p.level_count), "shape");
                check_rgsw(t, &g, &s, &mono(n, 0, k), 16, "constant RGSW");
                t.eq(both(&g.get_last_row()), both(&g.get_nth_row(2 * p.level_count - 1)), "last row");
                let m: V = match rep % 4 { 0 => mono(n, r.below(n), 1), 1 => r.bits(n), 2 => r.tern(n), _ => mono(n, n - 1, u64::MAX) };
                let mut h = RGSWCiphertext::allocate(c.poly_size, c.base_log, c.level_count);
                if rep % 2 == 1 { h = enc_rgsw_const(&sk, 1, &mut c); }
                let mp = pl(&m);
                sk.encrypt_rgsw(&mut h, &mp, &mut c);
                t.case(format!("{} polynomial {:?}", nm, m));
                t.eq(plv(&mp), m.clone(), "plaintext afterwards");
                check_rgsw(t, &h, &s, &m, 16, "polynomial RGSW");
                let x = r.poly(n);
                let ct = enc_raw(&sk, &x, &mut c);
                let o0 = if rep % 2 == 0 { RLWECiphertext::allocate(c.poly_size) } else { rand_ct(&mut r, n) };
                let p0 = phase(&s, &o0);
                for (g, m, what) in [(&g, mono(n, 0, k), "constant"), (&h, m.clone(), "polynomial")] {
                    let rows = all_rows(g);
                    let want = add(&p0, &mul(&x, &m));
                    // the noise of the RLWE input is multiplied by m
                    let tl = tol + 2 + (m.iter().filter(|v| **v != 0).count() as f64).log2() as u32;
                    t.case(format!("{} {} external product, message {:?}, input {:?}", nm, what, m, x));
                    let mut o = o0.clone();
                    g.external_product(&mut o, &ct);
                    t.near(&s, &o, &want, tl, "external product");
                    let mut o = o0.clone();
                    g.external_product_with_buf(&mut o, &ct, &mut buf);
                    t.near(&s, &o, &want, tl, "external product with buffer");
                    let mut o = o0.clone();
                    g.keyswitch_ciphertext(&mut o, &ct);
                    t.near(&s, &o, &want, tl, "external product as key switch");
                    t.eq(all_rows(g), rows, "RGSW operand afterwards");
                }
                // mux, over previous content; also between equal and trivial ciphertexts
                for (b, form) in [(0, 0), (1, 0), (0, 1), (1, 1), (0, 2), (1, 2), (0, 3), (1, 3)] {
                    let b: u64 = b;
                    if form > 0 && form % 3 != rep % 3 { continue; }
                    let sel = enc_rgsw_const(&sk, b, &mut c);
                    let (mut x0, mut x1) = (r.poly(n), r.poly(n));
                    let (mut c0, mut c1) = (enc_raw(&sk, &x0, &mut c), enc_raw(&sk, &x1, &mut c));
                    match form { 1 => { x1 = x0.clone(); c1 = c0.clone(); } 2 => { x0 = vec![0; n]; c0 = RLWECiphertext::allocate(c.poly_size); } 3 => { c1 = mk(&vec![0; n], &x1); } _ => {} }
                    if form == 2 && b == 1 { x1 = x0.clone(); c1 = c0.clone(); }
                    let (k0, k1) = (both(&c0), both(&c1));
                    t.case(format!("{} cmux bit {} between {:?} and {:?}", nm, b, x0, x1));
                    let mut o = rand_ct(&mut r, n);
                    sel.cmux(&mut o, &c0, &c1);
                    t.near(&s, &o, if b == 0 { &x0 } else { &x1 }, tol + 2, "cmux");
                    let mut o = rand_ct(&mut r, n);
                    sel.cmux_with_buf(&mut o, &c0, &c1, &mut buf);
                    t.near(&s, &o, if b == 0 { &x0 } else { &x1 }, tol + 2, "cmux with buffer");
                    t.eq((both(&c0), both(&c1)), (k0, k1), "mux inputs afterwards");
                }
                let mut sum = g.clone();
                sum.update_with_add(&h);
                let want: Vec<(V, V)> = all_rows(&g).iter().zip(all_rows(&h)).map(|(a, b)| (add(&a.0, &b.0), add(&a.1, &b.1))).collect();
                t.eq(all_rows(&sum), want, "sum of RGSW ciphertexts");
                let v = sk.encrypt_constant_rgsw_vec(&[Plaintext(1), Plaintext(0), Plaintext(2)], &mut c);
                t.eq(v.len(), 3, "vector length");
                for (g, m) in v.iter().zip([1, 0, 2]) { check_rgsw(t, g, &s, &mono(n, 0, m), 16, "vector entry"); }
                let ns = sk.neg_gsw(&mut c);
                t.case(format!("{} negated key {:?}", nm, s));
                check_rgsw(t, &ns, &s, &neg(&s), 16, "negated key");
                t.eq((ns.decomposition_base_log().0, ns.decomposition_level_count().0), (p.negs_base_log, p.negs_level_count), "negated key shape");
                t.eq(skc(&sk), s.clone(), "key afterwards");
            }
        });
    }
    t.sub("rows-exact", |t| {
        let mut r = t.rng.clone();
        for rep in 0..t.reps(4, 12) { for (n, b, l) in EXACT {
            if b * l == 64 && rep > 1 { continue; }
            let p = quiet(n, b, l);
            let mut c = ctx(&mut r, &p);
            let sk = c.gen_rlwe_sk();
            let s = skc(&sk);
            let k = [1u64, r.u(), 1 << 63, u64::MAX, 0, 3][rep % 6];
            let m: V = match rep % 3 { 0 => r.poly(n), 1 => r.tern(n), _ => mono(n, r.below(n), r.u()) };
            t.case(format!("n={} base=2^{} levels={} constant {} polynomial {:?} key {:?}", n, b, l, k, m, s));
            check_rgsw(t, &enc_rgsw_const(&sk, k, &mut c), &s, &mono(n, 0, k), 0, "noiseless constant RGSW");
            let mut h = RGSWCiphertext::allocate(c.poly_size, c.base_log, c.level_count);
            if rep % 2 == 0 { h = enc_rgsw_const(&sk, 5, &mut c); }
            sk.encrypt_rgsw(&mut h, &pl(&m), &mut c);
            check_rgsw(t, &h, &s, &m, 0, "noiseless polynomial RGSW");
            for (g, m) in sk.encrypt_constant_rgsw_vec(&[Plaintext(k), Plaintext(1), Plaintext(r.u() & 1)], &mut c).iter().zip([Some(k), Some(1), None]) { if let Some(m) = m { check_rgsw(t, g, &s, &mono(n, 0, m), 0, "noiseless vector entry"); } }
            check_rgsw(t, &sk.neg_gsw(&mut c), &s, &neg(&s), 0, "noiseless negated key");
        } }
    });
}
/// gadgets that reach down to the lowest bit, or nearly
const EXACT: [(usize, usize, usize); 12] = [(8, 7, 9), (8, 9, 7), (16, 3, 21), (8, 21, 3), (8, 1, 63), (8, 63, 1), (4, 31, 2), (8, 16, 4), (4, 2, 32), (8, 64, 1), (4, 4, 16), (4, 8, 8)];
/// rounding of the Fourier products only
fn fft_tol(b: usize, n: usize) -> u32 { 12 + b as u32 + nodes_log2(n) as u32 + 5 }
/// Parameters with noise that rounds to nothing and one gadget in every role.
fn quiet(n: usize, b: usize, l: usize) -> TFHEParameters {
    TFHEParameters { standard_deviation: -100.0, polynomial_size: n, base_log: b, level_count: l, key_switch_base_log: b, key_switch_level_count: l, negs_base_log: b, negs_level_count: l, plaintext_modulus: 16, secure_seed: false }
}
pub fn c15(t: &mut T) {
    t.sub("switch-exact", |t| {
        let mut r = t.rng.clone();
        for _ in 0..t.reps(3, 12) { for (n, b, l) in EXACT {
            let p = quiet(n, b, l);
            let mut c = ctx(&mut r, &p);
            let (sa, sb) = (c.gen_rlwe_sk(), c.gen_rlwe_sk());
            let (va, vb) = (skc(&sa), skc(&sb));
            let std = c.std;
            let row = |v: &V, lv: usize| scale(v, 1u64 << (64 - b * lv));
            let mut key = RLWEKeyswitchKey::allocate(DecompositionBaseLog(b), DecompositionLevelCount(l), PolynomialSize(n));
            let k = (2 * r.below(n)) | 1;
            let x = r.poly(n);
            t.case(format!("n={} base=2^{} levels={} k={} message {:?} keys {:?} {:?}", n, b, l, k, x, va, vb));
            let mut dummy = sk_from(&r.bits(n));
            key.fill_with_subs_keyswitch_key(&mut dummy, &sa, k, std, &mut c.encryption_generator);
            for lv in 1..=l { t.near(&va, &key.get_keyswitch_key()[lv - 1], &row(&subst(&va, k), lv), 0, &format!("noiseless substitution key row {}", lv)); }
            let ct = enc_raw(&sa, &x, &mut c);
            if b * l == 63 && b < 32 && n >= 8 {
                let mut o = rand_ct(&mut r, n);
                key.subs(&mut o, &ct);
                t.near(&va, &o, &subst(&x, k), fft_tol(b, n), "noiseless substitution");
            }
            key.fill_with_keyswitch_key(&sa, &sb, std, &mut c.encryption_generator);
            for lv in 1..=l { t.near(&vb, &key.get_keyswitch_key()[lv - 1], &row(&va, lv), 0, &format!("noiseless key row {}", lv)); }
            if b * l == 63 && b < 32 && n >= 8 {
                let mut o = rand_ct(&mut r, n);
                key.keyswitch_ciphertext(&mut o, &ct);
                t.near(&vb, &o, &x, fft_tol(b, n), "noiseless key switch");
            }
        } }
    });
    c15_large(t);
    let cases: Vec<(&str, usize, usize, usize)> = vec![("odd", 16, 5, 11), ("even", 64, 4, 12), ("three", 8, 14, 3), ("two", 8, 16, 2), ("one", 8, 20, 1), ("big", 512, 7, 6), ("four", 32, 10, 4), ("levels20", 8, 3, 20), ("levels25", 8, 2, 25), ("levels15", 16, 4, 15)];
    for (nm, n, b, l) in cases {
        t.sub(&format!("switch-{}", nm), |t| {
            let mut r = t.rng.clone();
            let p = TFHEParameters { key_switch_base_log: b, key_switch_level_count: l, ..par_mixed(n, 16) };
            let tol = eptol(b, l, n);
            for rep in 0..t.reps(4, 20) {
                let mut c = ctx(&mut r, &p);
                let (sa, sb) = (c.gen_rlwe_sk(), c.gen_rlwe_sk());
                let (va, vb) = (skc(&sa), skc(&sb));
                let x = r.poly(n);
                t.case(format!("n={} base=2^{} levels={} message {:?}", n, b, l, x));
                let ct = enc_raw(&sa, &x, &mut c);
                let keep = both(&ct);
                let mut k = RLWEKeyswitchKey::allocate(DecompositionBaseLog(b), DecompositionLevelCount(l), PolynomialSize(n));
                let std = c.std;
                if rep % 2 == 1 { k.fill_with_keyswitch_key(&sb, &sa, std, &mut c.encryption_generator); }
                k.fill_with_keyswitch_key(&sa, &sb, std, &mut c.encryption_generator);
                t.eq((k.decomposition_base_log().0, k.decomposition_level_count().0, k.polynomial_size().0, k.get_keyswitch_key().len()), (b, l, n, l), "key shape");
                for lv in 1..=l { t.near(&vb, &k.get_keyswitch_key()[lv - 1], &scale(&va, 1u64 << (64 - b * lv)), 16, &format!("key row {}", lv)); }
                let mut o = rand_ct(&mut r, n);
                k.keyswitch_ciphertext(&mut o, &ct);
                t.near(&vb, &o, &x, tol, "standard key switch");
                let g = RGSWCiphertext::from_keyswitch_key(&k);
                let mut o = RLWECiphertext::allocate(c.poly_size);
                g.keyswitch_ciphertext(&mut o, &ct);
                t.near(&vb, &o, &x, tol + 1, "key switch by RGSW");
                let mut buf = c.gen_fft_ctx();
                let mut o = RLWECiphertext::allocate(c.poly_size);
                g.keyswitch_ciphertext_with_buf(&mut o, &ct, &mut buf);
                t.near(&vb, &o, &x, tol + 1, "key switch by RGSW with buffer");
                let f = k.into_fourier();
                let mut o = FourierRLWECiphertext::new(n);
                f.keyswitch_ciphertext(&mut o, &ct);
                t.near(&vb, &o.backward_as_torus(), &x, tol + 1, "Fourier key switch");
                let ct2 = enc_raw(&sa, &r.poly(n), &mut c);
                f.keyswitch_ciphertext(&mut o, &ct2);
                f.keyswitch_ciphertext(&mut o, &ct);
                t.near(&vb, &o.backward_as_torus(), &x, tol + 1, "Fourier key switch over previous content");
                t.eq(both(&ct), keep, "input afterwards");
            }
        });
        t.sub(&format!("subs-{}", nm), |t| {
            let mut r = t.rng.clone();
            let p = TFHEParameters { key_switch_base_log: b, key_switch_level_count: l, ..par_mixed(n, 16) };
            let tol = eptol(b, l, n);
            let mut c = ctx(&mut r, &p);
            let sk = c.gen_rlwe_sk();
            let s = skc(&sk);
            let mut ks: Vec<usize> = vec![1, 3, n + 1, n / 2 + 1, 2 * n - 1, n - 1, (2 * r.below(n)) | 1];
            if n <= 16 { ks = (1..2 * n).step_by(2).collect(); }
            for k in ks { if k % 2 == 0 { continue; }
                let x = r.poly(n);
                t.case(format!("n={} base=2^{} levels={} k={} message {:?}", n, b, l, k, x));
                let ct = enc_raw(&sk, &x, &mut c);
                let keep = both(&ct);
                let mut key = RLWEKeyswitchKey::allocate(DecompositionBaseLog(b), DecompositionLevelCount(l), PolynomialSize(n));
                let mut dummy = sk_from(&r.bits(n));
                let std = c.std;
                key.fill_with_subs_keyswitch_key(&mut dummy, &sk, k, std, &mut c.encryption_generator);
                t.eq(key.get_subs_k(), k, "exponent");
                let mut o = rand_ct(&mut r, n);
                key.subs(&mut o, &ct);
                t.near(&s, &o, &subst(&x, k), tol, "substitution");
                let f = key.into_fourier();
                t.eq(f.get_subs_k(), k, "Fourier exponent");
                let mut o = FourierRLWECiphertext::new(n);
                f.subs(&mut o, &ct);
                f.subs(&mut o, &ct);
                t.near(&s, &o.backward_as_torus(), &subst(&x, k), tol + 1, "Fourier substitution");
                t.eq(both(&ct), keep, "input afterwards");
                t.eq(skc(&sk), s.clone(), "key afterwards");
            }
        });
    }
}
// key shapes and switches at the largest polynomial sizes, few levels
fn c15_large(t: &mut T) {
    t.sub("large-sizes", |t| {
        let mut r = t.rng.clone();
        for (n, b, l) in [(2048usize, 8usize, 5usize), (1024, 7, 6), (4096, 10, 4)] {
            let p = TFHEParameters { key_switch_base_log: b, key_switch_level_count: l, ..par(n, 16) };
            let tol = eptol(b, l, n);
            let mut c = ctx(&mut r, &p);
            let sk = c.gen_rlwe_sk();
            let s = skc(&sk);
            t.case(format!("n={} base=2^{} levels={}", n, b, l));
            let km = gen_all_subs_ksk_fourier(&sk, &mut c);
            let x = r.poly(n);
            let ct = enc_raw(&sk, &x, &mut c);
            for i in 0..nodes_log2(n) {
                let k = (n >> i) + 1;
                let key = &km[&k];
                t.eq(key.get_subs_k(), k, "key shape");
                let mut o = FourierRLWECiphertext::new(n);
                key.subs(&mut o, &ct);
                t.near(&s, &o.backward_as_torus(), &subst(&x, k), tol + 1, &format!("Fourier substitution by {}", k));
            }
            for (k, x) in gen_all_subs_ksk(&sk, &mut c) { t.eq((x.decomposition_base_log().0, x.decomposition_level_count().0, x.polynomial_size().0, x.get_subs_k(), x.get_keyswitch_key().len()), (b, l, n, k, l), "key shape"); }
        }
        // key rows down to the lowest bit
        for (n, b, l) in [(8usize, 16usize, 4usize), (16, 8, 8), (4, 4, 16), (8, 2, 32), (8, 21, 3), (4, 1, 64), (4, 32, 2), (4, 64, 1)] {
            let mut c = ctx(&mut r, &par(n, 16));
            let (sa, sb) = (c.gen_rlwe_sk(), c.gen_rlwe_sk());
            t.case(format!("n={} base=2^{} levels={}", n, b, l));
            let mut k = RLWEKeyswitchKey::allocate(DecompositionBaseLog(b), DecompositionLevelCount(l), PolynomialSize(n));
            let std = c.std;
            k.fill_with_keyswitch_key(&sa, &sb, std, &mut c.encryption_generator);
            t.eq(k.get_keyswitch_key().len(), l, "number of key rows");
            for lv in 1..=l { t.near(&skc(&sb), &k.get_keyswitch_key()[lv - 1], &scale(&skc(&sa), 1u64 << (64 - b * lv)), 16, &format!("key row {}", lv)); }
            // with noise that rounds to nothing every row is exact, the lowest one included
            k.fill_with_keyswitch_key(&sa, &sb, LogStandardDev::from_log_standard_dev(-100.0), &mut c.encryption_generator);
            for lv in 1..=l { t.near(&skc(&sb), &k.get_keyswitch_key()[lv - 1], &scale(&skc(&sa), 1u64 << (64 - b * lv)), 0, &format!("noiseless key row {}", lv)); }
        }
    });
}
fn trace_of(x: &[u64]) -> V { mono(x.len(), 0, x[0].wrapping_mul(x.len() as u64)) }
pub fn c16(t: &mut T) {
    t.sub("trace-exact", |t| {
        let mut r = t.rng.clone();
        for _ in 0..t.reps(3, 12) { for (n, b, l) in EXACT {
            let p = quiet(n, b, l);
            let mut c = ctx(&mut r, &p);
            let sk = c.gen_rlwe_sk();
            let s = skc(&sk);
            let km = gen_all_subs_ksk(&sk, &mut c);
            let x = r.poly(n);
            t.case(format!("n={} base=2^{} levels={} message {:?} key {:?}", n, b, l, x, s));
            for i in 0..nodes_log2(n) { let k = (n >> i) + 1; for lv in 1..=l { t.near(&s, &km[&k].get_keyswitch_key()[lv - 1], &scale(&subst(&s, k), 1u64 << (64 - b * lv)), 0, &format!("noiseless row {} of the key for {}", lv, k)); } }
            if b * l == 63 && b < 32 && n >= 8 {
                let ct = enc_raw(&sk, &x, &mut c);
                t.near(&s, &ct.trace1(&km), &trace_of(&x), fft_tol(b, n) + 2 * nodes_log2(n) as u32, "noiseless trace");
            }
            for bit in [0u64, 1] { for (w, f) in [("make_decomposed_rlwe_ct", false), ("make_decomposed_rlwe_ct2", true)] {
                let lgn = nodes_log2(n);
                if b * l + lgn > 64 { continue; }
                let cs = if f { make_decomposed_rlwe_ct2(&sk, bit, &mut c) } else { make_decomposed_rlwe_ct(&sk, bit, &mut c) };
                t.case(format!("n={} base=2^{} levels={} bit {} key {:?}", n, b, l, bit, s));
                t.eq(cs.len(), l, "one ciphertext per level");
                // what the expansion takes from it: the constant coefficient times n (after the trace), or itself
                for (i, ct) in cs.iter().enumerate() { let e = 64 - b * (i + 1); let want = mono(n, 0, bit << if f { e } else { e - lgn }); t.eq(phase(&s, ct)[0], want[0], &format!("{}: constant coefficient of level {}", w, i + 1)); }
            } }
        } }
    });
    t.sub("trace-large", |t| {
        let mut r = t.rng.clone();
        for (n, b, l) in [(512usize, 7usize, 6usize), (1024, 8, 5), (2048, 8, 5), (4096, 10, 4)] {
            let p = TFHEParameters { key_switch_base_log: b, key_switch_level_count: l, ..par(n, 16) };
            let tol = eptol(b, l, n) + nodes_log2(n) as u32 + 2;
            let mut c = ctx(&mut r, &p);
            let sk = c.gen_rlwe_sk();
            let s = skc(&sk);
            let km = gen_all_subs_ksk(&sk, &mut c);
            let kf = gen_all_subs_ksk_fourier(&sk, &mut c);
            for _ in 0..t.reps(1, 2) {
                let x = r.poly(n);
                t.case(format!("n={} base=2^{} levels={} message {:?}", n, b, l, x));
                let ct = enc_raw(&sk, &x, &mut c);
                t.near(&s, &ct.trace1(&km), &trace_of(&x), tol, "trace");
                let mut o = rand_ct(&mut r, n);
                ct.trace1_fourier(&mut o, &kf);
                t.near(&s, &o, &trace_of(&x), tol, "Fourier trace");
            }
        }
    });
    for (nm, p) in [("tiny", par(8, 256)), ("small", par(16, 256)), ("mixed", par_mixed(64, 16)), ("mixed2", par_mixed2(32, 4)), ("odd", TFHEParameters { key_switch_base_log: 5, key_switch_level_count: 9, ..par_mixed(8, 16) }), ("levels", TFHEParameters { base_log: 3, level_count: 13, key_switch_base_log: 3, key_switch_level_count: 17, negs_base_log: 3, negs_level_count: 16, ..par(16, 16) }), ("poly256", par(256, 256))] {
        t.sub(&format!("trace-{}", nm), |t| {
            let mut r = t.rng.clone();
            let n = p.polynomial_size;
            let tol = eptol(p.key_switch_base_log, p.key_switch_level_count, n) + nodes_log2(n) as u32 + 2;
            let mut c = ctx(&mut r, &p);
            let sk = c.gen_rlwe_sk();
            let s = skc(&sk);
            let km = gen_all_subs_ksk(&sk, &mut c);
            let kf = gen_all_subs_ksk_fourier(&sk, &mut c);
            for m in [km.keys().copied().collect::<Vec<_>>(), kf.keys().copied().collect()] { let mut m = m; m.sort(); let mut w: Vec<usize> = (0..nodes_log2(n)).map(|i| (n >> i) + 1).collect(); w.sort(); t.eq(m, w, "exponents of the keys"); }
            for _ in 0..t.reps(4, 20) {
                let x = r.poly(n);
                t.case(format!("{} message {:?}", nm, x));
                let ct = enc_raw(&sk, &x, &mut c);
                let keep = both(&ct);
                t.near(&s, &ct.trace1(&km), &trace_of(&x), tol, "trace");
                let mut o = rand_ct(&mut r, n);
                ct.trace1_fourier(&mut o, &kf);
                t.near(&s, &o, &trace_of(&x), tol, "Fourier trace");
                t.eq(both(&ct), keep, "input afterwards");
            }
        });
        t.sub(&format!("expand-{}", nm), |t| {
            let mut r = t.rng.clone();
            let n = p.polynomial_size;
            let mut c = ctx(&mut r, &p);
            let sk = c.gen_rlwe_sk();
            let s = skc(&sk);
            let km = gen_all_subs_ksk(&sk, &mut c);
            let kf = gen_all_subs_ksk_fourier(&sk, &mut c);
            let ns = sk.neg_gsw(&mut c);
            let lsk = panacea::rlwe::verif::lwe_sk_from(&s);
            let mut lk = LWEtoRLWEKeyswitchKey::allocate(&c);
            lk.fill_with_keyswitching_key(&lsk, &mut c);
            let rt = eptol(p.key_switch_base_log, p.key_switch_level_count, n).max(eptol(p.negs_base_log, p.negs_level_count, n)) + nodes_log2(n) as u32 + 4;
            for rep in 0..t.reps(4, 16) {
                let bit = (rep % 2) as u64;
                let cs = make_decomposed_rlwe_ct(&sk, bit, &mut c);
                t.case(format!("{} bit {} expand", nm, bit));
                t.eq(cs.len(), p.level_count, "one ciphertext per level");
                let z = RLWECiphertext::allocate(c.poly_size);
                let x = r.mods(n, p.plaintext_modulus);
                let y = r.mods(n, p.plaintext_modulus);
                let (c0, c1) = (enc_raw(&sk, &enc_of(p.plaintext_modulus, &x), &mut c), enc_raw(&sk, &enc_of(p.plaintext_modulus, &y), &mut c));
                let mut outs: Vec<(&str, RGSWCiphertext)> = vec![("expand", expand(&cs, &km, &ns, &c)), ("expand_fourier", expand_fourier(&cs, &kf, &ns, &c))];
                let cs2 = make_decomposed_rlwe_ct2(&sk, bit, &mut c);
                t.eq(cs2.len(), p.level_count, "one ciphertext per level");
                if n <= 64 { outs.push(("expand_slow", expand_slow(&cs2, &lk, &ns, &c))); }
                // direct conversion of exact gadget ciphertexts
                let direct: Vec<RLWECiphertext> = (1..=p.level_count).map(|l| enc_raw(&sk, &mono(n, 0, bit << (64 - p.base_log * l)), &mut c)).collect();
                let mut buf = c.gen_fft_ctx();
                outs.push(("decomposed_rlwe_to_rgsw", decomposed_rlwe_to_rgsw(&direct, &ns, &c, &mut buf)));
                for (w, g) in outs {
                    t.case(format!("{} bit {} {}", nm, bit, w));
                    t.eq((g.decomposition_base_log().0, g.decomposition_level_count().0), (p.base_log, p.level_count), "shape");
                    check_rgsw(t, &g, &s, &mono(n, 0, bit), rt, w);
                    let mut o = z.clone();
                    g.cmux(&mut o, &c0, &c1);
                    t.near(&s, &o, &enc_of(p.plaintext_modulus, if bit == 0 { &x } else { &y }), 52, &format!("{}: selection", w));
                }
                t.must_panic("a bit that is neither 0 nor 1", || make_decomposed_rlwe_ct(&sk, 2, &mut c));
            }
        });
    }
}
pub fn c17(t: &mut T) {
    t.sub("extraction", |t| {
        let mut r = t.rng.clone();
        for rep in 0..t.reps(40, 400) {
            let n = [2usize, 4, 8, 16, 64, 8, 256, 4, 16, 1024, 2, 2048, 32, 512, 4096][rep % 15];
            let s = r.bits(n);
            let ct = rand_ct(&mut r, n);
            let ph = phase(&s, &ct);
            t.case(format!("n={} key={:?} ct={:?}", n, s, both(&ct)));
            let ks: Vec<usize> = if n <= 16 { (0..n).collect() } else { vec![0, 1, n / 2, n - 1, r.below(n)] };
            let keep = both(&ct);
            for k in ks {
                let mut l = LWECiphertext::allocate(LweSize(n + 1));
                l.fill_with_tensor(&Tensor::from_container(r.poly(n + 1)));
                l.fill_with_sample_extract(&ct, MonomialDegree(k));
                let f = |l: &LWECiphertext| { let v = l.as_tensor().as_slice().to_vec(); let mut p = v[n]; for i in 0..n { p = p.wrapping_sub(v[i].wrapping_mul(s[i])); } p };
                t.eq(f(&l), ph[k], &format!("phase of extracted coefficient {}", k));
                if k == 0 { let mut l2 = LWECiphertext::allocate(LweSize(n + 1)); l2.fill_with_const_sample_extract(&ct); t.eq(f(&l2), ph[0], "phase of the extracted constant"); t.eq(l2.as_tensor().as_slice(), l.as_tensor().as_slice(), "constant extraction"); }
            }
            t.eq(both(&ct), keep, "input afterwards");
        }
    });
    t.sub("packing-exact", |t| {
        let mut r = t.rng.clone();
        for _ in 0..t.reps(3, 12) { for (n, b, l) in EXACT {
            let p = quiet(n, b, l);
            let mut c = ctx(&mut r, &p);
            let lsk = c.gen_lwe_sk();
            let s = panacea::rlwe::verif::lwe_sk_coeffs(&lsk);
            let mut lk = LWEtoRLWEKeyswitchKey::allocate(&c);
            lk.fill_with_keyswitching_key(&lsk, &mut c);
            t.case(format!("n={} base=2^{} levels={} key {:?}", n, b, l, s));
            for (i, g) in panacea::rlwe::verif::lwe_ksk_inner(&lk).iter().enumerate() { check_rgsw(t, g, &s, &mono(n, 0, s[i]), 0, &format!("noiseless key element {}", i)); }
        } }
    });
    for (nm, p) in [("same", par(16, 256)), ("mixed", par_mixed(16, 16)), ("mixed2", par_mixed2(8, 4)), ("n64", par_mixed(64, 256)), ("ks", TFHEParameters { base_log: 9, level_count: 3, key_switch_base_log: 3, key_switch_level_count: 15, ..par(8, 256) }), ("n128", TFHEParameters { key_switch_base_log: 6, key_switch_level_count: 6, ..par(128, 16) }), ("ks2", TFHEParameters { base_log: 6, level_count: 7, key_switch_base_log: 2, key_switch_level_count: 24, ..par(16, 256) }), ("n1024", TFHEParameters { key_switch_base_log: 10, key_switch_level_count: 3, ..par(1024, 4) })] {
        t.sub(&format!("packing-{}", nm), |t| {
            let mut r = t.rng.clone();
            let n = p.polynomial_size;
            let tol = eptol(p.key_switch_base_log, p.key_switch_level_count, n);
            let mut c = ctx(&mut r, &p);
            let lsk = c.gen_lwe_sk();
            let s = panacea::rlwe::verif::lwe_sk_coeffs(&lsk);
            let rsk = lsk.to_rlwe_sk();
            let mut lk = LWEtoRLWEKeyswitchKey::allocate(&c);
            lk.fill_with_keyswitching_key(&lsk, &mut c);
            for (i, g) in panacea::rlwe::verif::lwe_ksk_inner(&lk).iter().enumerate().step_by(if n > 512 { 341 } else { 1 }) { t.case(format!("{} key element {}", nm, i)); check_rgsw(t, g, &s, &mono(n, 0, s[i]), 16, "key element"); }
            for _ in 0..if n > 512 { 1 } else { t.reps(6, 40) } {
                let m = r.u();
                t.case(format!("{} message {}", nm, m));
                let mut l = LWECiphertext::allocate(c.lwe_size());
                let std = c.std;
                lsk.encrypt_lwe(&mut l, &Plaintext(m), std, &mut c.encryption_generator);
                let keep = l.as_tensor().as_slice().to_vec();
                let o = conv_lwe_to_rlwe(&lk, &l, &c);
                t.near(&s, &o, &mono(n, 0, m), tol, "packed ciphertext");
                t.eq(l.as_tensor().as_slice().to_vec(), keep, "LWE input afterwards");
                // extract any coefficient of an RLWE ciphertext and pack it
                let x = r.poly(n);
                let k = r.below(n);
                t.case(format!("{} coefficient {} of {:?}", nm, k, x));
                let ct = enc_raw(&rsk, &x, &mut c);
                l.fill_with_sample_extract(&ct, MonomialDegree(k));
                t.near(&s, &conv_lwe_to_rlwe(&lk, &l, &c), &mono(n, 0, x[k]), tol, "extracted and packed ciphertext");
            }
        });
    }
}
// ---------------------------------------------------------------- trees
fn show(n: &Option<Node>) -> String {
    match n {
        None => "-".into(),
        Some(Node::Leaf(x)) => format!("{}", x),
        Some(Node::Internal(i)) => format!("[{}:f{}<={}? {} {}]", i.index, i.feature, i.threshold, show(&i.left), show(&i.right)),
    }
}
fn label(r: &mut Rng, labels: usize) -> usize {
    if labels < 1 << 30 { return r.below(labels); }
    match r.below(4) { 0 => [usize::MAX, 1 << 63, usize::MAX - 1, 1 << 32, u32::MAX as usize, 1][r.below(6)], _ => r.below(labels) }
}
fn rand_tree(r: &mut Rng, depth: usize, feats: usize, thr: usize, labels: usize, missing: bool, root: bool) -> Option<Node> {
    if !root && missing && r.below(8) == 0 { return None; }
    if depth == 0 || (!root && r.below(4) == 0) { return Some(Node::Leaf(if r.below(3) == 0 { 0 } else { label(r, labels) })); }
    Some(Node::Internal(Box::new(Internal { threshold: r.below(thr), feature: r.below(feats), index: r.below(100), op: Op::LEQ, left: rand_tree(r, depth - 1, feats, thr, labels, missing, false), right: rand_tree(r, depth - 1, feats, thr, labels, missing, false) })))
}
fn r_eval(n: &Option<Node>, f: &[usize]) -> usize {
    match n { None => 0, Some(Node::Leaf(x)) => *x, Some(Node::Internal(i)) => if f[i.feature] <= i.threshold { r_eval(&i.left, f) } else { r_eval(&i.right, f) } }
}
fn r_list(n: &Option<Node>, o: &mut Vec<(usize, usize, usize)>) {
    if let Some(Node::Internal(i)) = n { o.push((i.threshold, i.feature, i.index)); r_list(&i.left, o); r_list(&i.right, o); }
}
fn r_leaves(n: &Option<Node>) -> usize { match n { None => 0, Some(Node::Leaf(_)) => 1, Some(Node::Internal(i)) => r_leaves(&i.left) + r_leaves(&i.right) } }
fn r_depth(n: &Option<Node>) -> usize { match n { Some(Node::Internal(i)) => 1 + r_depth(&i.left).max(r_depth(&i.right)), _ => 0 } }
fn r_maxf(n: &Option<Node>) -> usize { match n { Some(Node::Internal(i)) => i.feature.max(r_maxf(&i.left)).max(r_maxf(&i.right)), _ => 0 } }
fn r_nonzero(n: &Option<Node>) -> bool { match n { None => false, Some(Node::Leaf(x)) => *x != 0, Some(Node::Internal(i)) => r_nonzero(&i.left) || r_nonzero(&i.right) } }
fn r_trunc(n: &Option<Node>) -> Option<Node> {
    if !r_nonzero(n) { return None; }
    match n { Some(Node::Internal(i)) => Some(Node::Internal(Box::new(Internal { threshold: i.threshold, feature: i.feature, index: i.index, op: i.op, left: r_trunc(&i.left), right: r_trunc(&i.right) }))), _ => n.clone() }
}
fn chain(len: usize, right: bool, last: usize) -> Node {
    let mut n = Node::Leaf(last);
    for k in 0..len { let (l, rr) = if right { (Node::Leaf(k % 3), n) } else { (n, Node::Leaf(k % 3)) }; n = Node::Internal(Box::new(Internal { threshold: k % 5, feature: k % 3, index: 7, op: Op::LEQ, left: Some(l), right: Some(rr) })); }
    n
}
/// the encrypted tree put together by hand, choice bits in preorder
fn built(n: &Node, cts: &mut impl Iterator<Item = RGSWCiphertext>) -> EncNode {
    match n {
        Node::Leaf(x) => EncNode::Leaf(*x),
        Node::Internal(i) => {
            let ct = cts.next().unwrap();
            let left = i.left.as_ref().map(|x| built(x, cts));
            let right = i.right.as_ref().map(|x| built(x, cts));
            EncNode::Internal(Box::new(EncInternal { ct, left, right }))
        }
    }
}
fn largest(n: &Option<Node>) -> usize { match n { None => 0, Some(Node::Leaf(x)) => *x, Some(Node::Internal(i)) => largest(&i.left).max(largest(&i.right)) } }
fn relabel(n: &mut Node, f: &dyn Fn(usize) -> usize) {
    match n { Node::Leaf(x) => *x = f(*x), Node::Internal(i) => { if let Some(l) = &mut i.left { relabel(l, f) } if let Some(r) = &mut i.right { relabel(r, f) } } }
}
pub fn c18(t: &mut T) {
    t.sub("trees", |t| {
        let mut r = t.rng.clone();
        for rep in 0..t.reps(1500, 20000) {
            let root = match rep { 0 => chain(40, true, 5), 1 => chain(40, false, 6), 4 => chain(700, true, 5), 5 => chain(700, false, 6), 6 => chain(65, r.coin(), 3), 2 => Node::new_with_depth(3), 3 => Node::default(), _ => { let (d, m) = (1 + r.below(6), r.coin()); rand_tree(&mut r, d, 4, 6, 9, m, true).unwrap() } };
            let o = Some(root);
            t.case(show(&o));
            let root = o.as_ref().unwrap().clone();
            for _ in 0..8 {
                let f: Vec<usize> = (0..4).map(|_| r.below(7)).collect();
                let got = root.eval(&f);
                t.ok(got == r_eval(&o, &f), || format!("features {:?}: label {} expected {}", f, got, r_eval(&o, &f)));
            }
            let mut l = vec![]; r_list(&o, &mut l);
            t.eq(root.flatten().iter().map(|i| (i.threshold, i.feature, i.index)).collect::<Vec<_>>(), l.clone(), "flattened nodes");
            t.eq((root.count_leaf(), root.count_internal(), root.count_depth(), root.max_feature_index()), (r_leaves(&o), l.len(), r_depth(&o), r_maxf(&o)), "leaves, internal nodes, depth, largest feature");
            t.eq(show(&Some(root.clone())), show(&o), "clone");
            let tr = trunc_tree(&o);
            t.eq(show(&tr), show(&r_trunc(&o)), "truncated tree");
            for _ in 0..4 { let f: Vec<usize> = (0..4).map(|_| r.below(7)).collect(); t.eq(match &tr { None => 0, Some(n) => n.eval(&f) }, r_eval(&o, &f), "label by the truncated tree"); }
            let mut fx = root.clone();
            fx.fix_index();
            let mut l2 = vec![]; r_list(&Some(fx.clone()), &mut l2);
            t.eq(l2.iter().map(|x| x.2).collect::<Vec<_>>(), (0..l.len()).collect(), "indices in depth-first order");
            t.eq(l2.iter().map(|x| (x.0, x.1)).collect::<Vec<_>>(), l.iter().map(|x| (x.0, x.1)).collect::<Vec<_>>(), "fields after indexing");
            t.eq(fx.flatten().iter().map(|x| x.index).collect::<Vec<_>>(), (0..l.len()).collect(), "flattened indices");
            t.eq((fx.count_leaf(), fx.count_depth(), r_leaves(&Some(fx.clone()))), (r_leaves(&o), r_depth(&o), r_leaves(&o)), "shape after indexing");
            let iv = root.clone().inner_value();
            t.eq((iv.threshold, iv.feature, iv.index), l[0], "root fields");
        }
        for rep in 0..t.reps(200, 2000) {
            // wide ranges: many features, thresholds and labels over the whole machine range, deep chains
            let w = [300usize, 1 << 17, 1 << 33, usize::MAX - 1][rep % 4];
            let nf = [3usize, 70, 300][rep % 3];
            let (d, m) = (1 + r.below(9), r.coin());
            let root = if rep % 10 == 9 { chain(60 + r.below(200), r.coin(), r.below(w)) } else { rand_tree(&mut r, d, nf, w, w, m, true).unwrap() };
            let o = Some(root);
            t.case(show(&o));
            let root = o.as_ref().unwrap().clone();
            let mut l = vec![]; r_list(&o, &mut l);
            let tr = trunc_tree(&o);
            t.eq(show(&tr), show(&r_trunc(&o)), "truncated tree");
            for _ in 0..6 {
                let mut f: Vec<usize> = (0..nf).map(|_| r.below(w)).collect();
                for x in &l { match r.below(4) { 0 => f[x.1] = x.0, 1 => f[x.1] = x.0.saturating_add(1), _ => {} } }
                let (got, want) = (root.eval(&f), r_eval(&o, &f));
                t.ok(got == want, || format!("features {:?}: label {} expected {}", f, got, want));
                t.eq(match &tr { None => 0, Some(n) => n.eval(&f) }, want, "label by the truncated tree");
            }
            t.eq(root.flatten().iter().map(|i| (i.threshold, i.feature, i.index)).collect::<Vec<_>>(), l.clone(), "flattened nodes");
            t.eq((root.count_leaf(), root.count_internal(), root.count_depth(), root.max_feature_index()), (r_leaves(&o), l.len(), r_depth(&o), r_maxf(&o)), "leaves, internal nodes, depth, largest feature");
            let mut fx = root.clone();
            fx.fix_index();
            let mut l2 = vec![]; r_list(&Some(fx), &mut l2);
            t.eq(l2, l.iter().enumerate().map(|(i, x)| (x.0, x.1, i)).collect::<Vec<_>>(), "indices in depth-first order");
        }
        t.case("leaves".into());
        let f = Node::Leaf(3);
        t.eq((f.eval(&vec![]), f.count_leaf(), f.count_internal(), f.count_depth(), f.flatten().len(), f.max_feature_index()), (3, 1, 0, 0, 0, 0), "single leaf");
        t.eq((show(&trunc_tree(&None)), show(&trunc_tree(&Some(Node::Leaf(0)))), show(&trunc_tree(&Some(Node::Leaf(4))))), ("-".into(), "-".into(), "4".into()), "truncated leaves");
    });
    t.sub("complete-trees", |t| {
        for d in 0..10usize {
            t.case(format!("depth {}", d));
            let n = Node::new_with_depth(d);
            t.eq((n.count_leaf(), n.count_internal(), n.count_depth()), (1 << d, (1 << d) - 1, d), "counts");
            fn leaves(n: &Node, o: &mut Vec<usize>) { match n { Node::Leaf(x) => o.push(*x), Node::Internal(i) => { leaves(i.left.as_ref().unwrap(), o); leaves(i.right.as_ref().unwrap(), o) } } }
            let mut o = vec![]; leaves(&n, &mut o);
            let mut w = vec![0; 1 << d]; w[0] = 1;
            t.eq(o, w, "labels");
            let mut l = vec![]; r_list(&Some(n), &mut l);
            t.ok(l.iter().all(|x| *x == (0, 0, 0)), || "fields".into());
        }
        t.eq(show(&Some(Node::default())), show(&Some(Node::new_with_depth(1))), "default tree");
    });
}
struct TreeKit { c: Context, sk: RLWESecretKey, s: V, ns: RGSWCiphertext, km: HashMap<usize, FourierRLWEKeyswitchKey> }
fn kit(r: &mut Rng, p: &TFHEParameters) -> TreeKit {
    let mut c = ctx(r, p);
    let sk = c.gen_rlwe_sk();
    let s = skc(&sk);
    let ns = sk.neg_gsw(&mut c);
    let km = gen_all_subs_ksk_fourier(&sk, &mut c);
    TreeKit { c, sk, s, ns, km }
}
pub fn c19(t: &mut T) {
    t.sub("comparison", |t| {
        let mut r = t.rng.clone();
        for n in [8usize, 16, 64, 512, 2048] {
            let p = par(n, 256);
            let mut k = kit(&mut r, &p);
            let edge = [0, 1, n / 2 - 1, n / 2, n - 2, n - 1, r.below(n), r.below(n)];
            let all: Vec<(usize, usize)> = if n <= 64 { (0..n).flat_map(|m| (0..n).map(move |d| (m, d))).collect() } else { edge.iter().flat_map(|m| edge.iter().map(move |d| (*m, *d))).collect() };
            for (m, d) in all {
                if n >= 64 && r.below(t.reps(if n == 64 { 12 } else { 4 }, 2)) != 0 { continue; }
                let dl = 1u64 << 56;
                let ct = enc_raw(&k.sk, &mono(n, m, dl), &mut k.c);
                t.case(format!("n={} value {} threshold {}", n, m, d));
                let mut x = ct.clone();
                x.less_eq_than(d);
                t.nearv(&phase(&k.s, &x)[..1], &[if m <= d { dl } else { 0 }], 40, "less-or-equal bit");
                let mut x = ct.clone();
                x.eq_to(d);
                t.nearv(&phase(&k.s, &x)[..1], &[if m == d { dl } else { 0 }], 40, "equality bit");
            }
            t.must_panic("a threshold beyond the polynomial size", || RLWECiphertext::allocate(PolynomialSize(n)).less_eq_than(n));
            t.must_panic("a value beyond the polynomial size", || RLWECiphertext::allocate(PolynomialSize(n)).eq_to(n));
        }
    });
    t.sub("features", |t| {
        let mut r = t.rng.clone();
        for p in [par(16, 256), par_mixed(64, 16)] {
            let mut k = kit(&mut r, &p);
            let n = p.polynomial_size;
            let v: Vec<usize> = vec![0, n - 1, 1, r.below(n), n / 2];
            t.case(format!("{:?}", v));
            let e = encrypt_feature_vector(&k.sk, &v, &mut k.c);
            t.eq((e.len(), e.iter().all(|x| x.len() == p.level_count)), (v.len(), true), "shape");
            for (x, f) in e.iter().zip(&v) { for (l, ct) in x.iter().enumerate() { t.near(&k.s, ct, &mono(n, *f, 1u64 << (64 - p.base_log * (l + 1) - nodes_log2(n))), 16, "feature ciphertext"); } }
            t.must_panic("a feature beyond the polynomial size", || encrypt_feature_vector(&k.sk, &vec![n], &mut k.c));
            // choice bits
            let nodes: Vec<Internal> = (0..6).map(|_| Internal { threshold: r.below(n), feature: r.below(v.len()), index: 0, op: Op::LEQ, left: None, right: None }).collect();
            let bits: Vec<RGSWCiphertext> = compare_expand(&nodes, &e, &k.ns, &k.km, &k.c).collect();
            t.eq(bits.len(), nodes.len(), "number of choice bits");
            for (b, x) in bits.iter().zip(&nodes) {
                t.case(format!("feature {} threshold {}", v[x.feature], x.threshold));
                check_rgsw(t, b, &k.s, &mono(n, 0, (v[x.feature] <= x.threshold) as u64), 44, "choice bit");
            }
        }
    });
    for (nm, p, reps) in [("n16", par(16, 256), 14usize), ("mixed", par_mixed(64, 16), 6), ("n256", par(256, 256), 2)] {
        t.sub(&format!("trees-{}", nm), |t| {
            let mut r = t.rng.clone();
            let n = p.polynomial_size;
            let mut k = kit(&mut r, &p);
            for rep in 0..t.reps(reps, reps * 8) {
                let lab = [2usize, 5, 16, 300][rep % 4];
                let (d, m) = (1 + r.below(4), rep % 3 == 2);
                let root = match rep { 0 => chain(5, true, 4), 1 => chain(5, false, 3), _ => rand_tree(&mut r, d, 4, n, lab, m, true).unwrap() };
                let o = Some(root.clone());
                let f: Vec<usize> = (0..4).map(|_| if r.below(4) == 0 { [0, n - 1][r.below(2)] } else { r.below(n) }).collect();
                t.case(format!("tree {} features {:?}", show(&o), f));
                let e = encrypt_feature_vector(&k.sk, &f, &mut k.c);
                let flat = root.flatten();
                let enc = { let mut it = compare_expand(&flat, &e, &k.ns, &k.km, &k.c); EncNode::new(&root, &mut it) };
                fn maxl(n: &Option<Node>) -> usize { match n { None => 0, Some(Node::Leaf(x)) => *x, Some(Node::Internal(i)) => maxl(&i.left).max(maxl(&i.right)) } }
                t.eq(enc.max_leaf(), maxl(&o), "largest label");
                let mut buf = k.c.gen_fft_ctx();
                let out = enc.eval(&k.c, &mut buf);
                let want = r_eval(&o, &f);
                t.ok(maxl(&o) >> out.len() == 0, || format!("{} output bits for largest label {}", out.len(), maxl(&o)));
                for (b, ct) in out.iter().enumerate() { t.near(&k.s, ct, &enc_of(p.plaintext_modulus, &mono(n, 0, ((want >> b) & 1) as u64)), 64 - nodes_log2(p.plaintext_modulus as usize) as u32 - 3, &format!("bit {} of label {}", b, want)); }
            }
        });
    }
    t.sub("largest-labels", |t| {
        let mut r = t.rng.clone();
        let mut c = ctx(&mut r, &TFHEParameters { base_log: 16, level_count: 1, ..par(8, 16) });
        let sk = c.gen_rlwe_sk();
        let g = enc_rgsw_const(&sk, 1, &mut c);
        for rep in 0..t.reps(300, 3000) {
            let d = 1 + r.below(4);
            let mut root = rand_tree(&mut r, d, 3, 6, [300, usize::MAX][rep % 2], true, true).unwrap();
            if let Node::Internal(i) = &mut root { match rep % 5 { 0 => i.left = None, 1 => i.right = None, 2 => i.left = Some(Node::Leaf(0)), _ => {} } }
            let o = Some(root.clone());
            t.case(format!("tree {}", show(&o)));
            let mut l = vec![]; r_list(&o, &mut l);
            let mut it = vec![g.clone(); l.len()].into_iter();
            t.eq(EncNode::new(&root, &mut it).max_leaf(), largest(&o), "largest label");
            let mut it = vec![g.clone(); l.len()].into_iter();
            t.eq(built(&root, &mut it).max_leaf(), largest(&o), "largest label of nodes put together directly");
        }
    });
    t.sub("exact-choice-bits", |t| {
        // choice bits encrypted directly: the traversal alone
        let mut r = t.rng.clone();
        let p = par(8, 256);
        let mut c = ctx(&mut r, &p);
        let sk = c.gen_rlwe_sk();
        let s = skc(&sk);
        for rep in 0..t.reps(40, 400) {
            let (d, m) = (1 + r.below(5), r.coin());
            let mut root = rand_tree(&mut r, d, 3, 6, [2, 7, 40, 1000][rep % 4], m, true).unwrap();
            if rep % 8 == 7 { let k = [31, 32, 48, 49, 52, 53, 62, 63][(rep / 8) % 8]; relabel(&mut root, &|x| if x % 3 == 0 { x } else { (1 << k) - 1 + (x % 3) * (x % 2) }); }
            if rep % 16 == 6 { relabel(&mut root, &|_| 0); }
            if rep == 1 { relabel(&mut root, &|_| 1 << 49); }
            let o = Some(root.clone());
            let f: Vec<usize> = (0..3).map(|_| r.below(7)).collect();
            let mut l = vec![]; r_list(&o, &mut l);
            t.case(format!("tree {} features {:?}", show(&o), f));
            let cts: Vec<RGSWCiphertext> = l.iter().map(|x| enc_rgsw_const(&sk, (f[x.1] <= x.0) as u64, &mut c)).collect();
            let mut it = cts.into_iter();
            // children that are missing stay missing when the nodes are put together directly
            let enc = if rep % 3 == 2 { built(&root, &mut it) } else { EncNode::new(&root, &mut it) };
            t.ok(it.next().is_none(), || "choice bits left over".into());
            let mut buf = c.gen_fft_ctx();
            let out = enc.eval(&c, &mut buf);
            let want = r_eval(&o, &f);
            for (b, ct) in out.iter().enumerate() { t.near(&s, ct, &enc_of(256, &mono(8, 0, ((want >> b) & 1) as u64)), 50, &format!("bit {} of label {}", b, want)); }
            t.ok(want.checked_shr(out.len() as u32).unwrap_or(0) == 0, || "too few output bits".into());
            t.ok(largest(&o).checked_shr(out.len() as u32).unwrap_or(0) == 0, || format!("{} output bits for largest label {}", out.len(), largest(&o)));
        }
    });
    t.sub("simulate", |t| {
        let mut r = t.rng.clone();
        for rep in 0..t.reps(3, 6) {
            let root = if rep == 0 { chain(3, true, 6) } else if rep == 1 { let mut n = chain(2, false, 6); relabel(&mut n, &|_| 0); n } else { let n; { n = rand_tree(&mut r, 3, 3, 2048, 9, true, true).unwrap(); n } };
            let f: Vec<Vec<usize>> = (0..2).map(|_| (0..3).map(|_| r.below(2048)).collect()).collect();
            t.case(format!("tree {} features {:?}", show(&Some(root.clone())), f));
            let res = simulate(&root, &f, rep % 2 == 0);
            let o = Some(root);
            t.eq(res.predictions.iter().map(|x| *x as usize).collect::<Vec<_>>(), f.iter().map(|x| r_eval(&o, x)).collect::<Vec<_>>(), "predictions");
            t.eq(res.input_count, 2, "number of inputs");
        }
    });
}
