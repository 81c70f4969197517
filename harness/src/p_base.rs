use crate::h::*;
use panacea::utils::{log2, pt_to_lossy_u64, transpose};

pub fn c09(t: &mut T) {
    t.sub("round-trip", |t| {
        let mut r = t.rng.clone();
        for k in 1..=63u32 {
            let tt = 1u64 << k;
            let c = Codec::new(tt);
            let dl = 1u64 << (64 - k);
            t.case(format!("t=2^{}", k));
            t.eq(c.pt_modulus(), tt, "modulus");
            t.eq(c.pt_modulus_bits(), k as usize, "modulus bits");
            t.eq(c.largest_error(), dl / 2, "largest error");
            let mut ms = vec![0, 1, tt - 1, tt / 2, tt / 2 - 1 + (k == 1) as u64];
            for _ in 0..t.reps(6, 200) { ms.push(r.u() % tt); }
            for m in ms {
                let mut x = m;
                t.case(format!("t=2^{} m={}", k, m));
                c.encode(&mut x);
                t.eq(x, (m as u128 * dl as u128) as u64, "encoding");
                let h = dl / 2;
                let mut es = vec![0u64, 1 % h.max(1), h - 1, h.wrapping_neg(), 1u64.wrapping_sub(h), (h / 2).wrapping_neg()];
                for _ in 0..t.reps(4, 50) { let e = r.u() % h; es.push(if r.coin() { e } else { e.wrapping_neg() }); }
                for e in es {
                    let mut y = x.wrapping_add(e);
                    c.decode(&mut y);
                    t.ok(y == m, || format!("decoding of encoding + {} (as signed {}) gives {}", e, e as i64, y));
                }
            }
        }
    });
    t.sub("polynomials", |t| {
        let mut r = t.rng.clone();
        for rep in 0..t.reps(60, 600) {
            let k = 1 + rep % 63;
            let n = if rep % 40 == 39 { [1024, 4096, 10000, 16384][rep / 40 % 4] } else { [1, 2, 3, 8, 64, 5][rep % 6] };
            let (tt, dl) = (1u64 << k, 1u64 << (64 - k));
            let c = Codec::new(tt);
            let m = r.mods(n, tt);
            t.case(format!("t=2^{} n={} m={:?}", k, n, m));
            let mut p = poly(&m);
            c.poly_encode(&mut p);
            t.eq(polyv(&p), enc_of(tt, &m), "encoded polynomial");
            let e: V = (0..n).map(|_| { let e = r.u() % (dl / 2); if r.coin() { e } else { e.wrapping_neg() } }).collect();
            let mut p = poly(&add(&enc_of(tt, &m), &e));
            c.poly_decode(&mut p);
            t.eq(polyv(&p), m, "decoded polynomial");
        }
    });
    t.sub("rejections", |t| {
        let mut r = t.rng.clone();
        for k in 1..=63u32 {
            let tt = 1u64 << k;
            let c = Codec::new(tt);
            for m in [tt, tt + 1, u64::MAX, tt | (r.u() % tt), u64::MAX - r.u() % tt] {
                t.case(format!("t=2^{} m={}", k, m));
                t.must_panic("a message not below the modulus", || { let mut x = m; c.encode(&mut x); });
                t.must_panic("a polynomial with a message not below the modulus", || { let mut p = poly(&[0, 0, m]); c.poly_encode(&mut p); });
            }
        }
        for m in [0u64, 3, 5, 6, 7, 12, 100, u64::MAX, (1 << 63) + 1, (1 << 40) - 1, 3 << 40, (1 << 63) + (1 << 62)] {
            t.case(format!("modulus {}", m));
            t.must_panic("a modulus that is not a power of two", || Codec::new(m));
        }
    });
}
pub fn c10(t: &mut T) {
    const Q3: u128 = (1u128 << 64) / 3;
    let lim: u64 = ((1u128 << 64) / 6) as u64 - 4096;
    t.sub("round-trip", |t| {
        let mut r = t.rng.clone();
        for (m, k) in [(0u64, 0u128), (1, 1), (u64::MAX, 2)] {
            let mut x = m;
            t.case(format!("m={}", m as i64));
            Codec::ternary_encode(&mut x);
            t.ok(cdist(x, (k * Q3) as u64) < 4096, || format!("{} encoded as {}", m as i64, x));
            let mut es = vec![0, 1, lim, lim.wrapping_neg(), u64::MAX, lim / 2];
            for _ in 0..t.reps(3000, 200000) { let e = r.u() % lim; es.push(if r.coin() { e } else { e.wrapping_neg() }); }
            for e in es {
                let mut y = x.wrapping_add(e);
                t.case(format!("m={} e={}", m as i64, e as i64));
                Codec::ternary_decode(&mut y);
                t.ok(y == m, || format!("decoded as {}", y as i64));
            }
        }
    });
    t.sub("polynomials", |t| {
        let mut r = t.rng.clone();
        for rep in 0..t.reps(60, 600) {
            let n = if rep % 40 == 39 { [1024, 4096, 10000, 16384][rep / 40 % 4] } else { [1, 2, 3, 8, 64, 5][rep % 6] };
            let m: V = r.tern(n);
            t.case(format!("m={:?}", m));
            let mut p = poly(&m);
            Codec::poly_ternary_encode(&mut p);
            let enc = polyv(&p);
            for i in 0..n { t.ok(cdist(enc[i], ((if m[i] == u64::MAX { 2 } else { m[i] as u128 }) * Q3) as u64) < 4096, || format!("coefficient {} encoded as {}", i, enc[i])); }
            let e: V = (0..n).map(|_| { let e = r.u() % lim; if r.coin() { e } else { e.wrapping_neg() } }).collect();
            let mut p = poly(&add(&enc, &e));
            Codec::poly_ternary_decode(&mut p);
            t.eq(polyv(&p), m, "decoded polynomial");
        }
    });
    t.sub("rejections", |t| {
        let mut r = t.rng.clone();
        let mut v = vec![2u64, 3, u64::MAX - 1, 1 << 63, 1 << 32, i64::MAX as u64];
        for _ in 0..50 { v.push(2 + r.u() % (u64::MAX - 3)); }
        for m in v {
            t.case(format!("m={}", m));
            t.must_panic("a value that is not ternary", || { let mut x = m; Codec::ternary_encode(&mut x); });
            t.must_panic("a polynomial with such a value", || { let mut p = poly(&[0, 1, m, 0]); Codec::poly_ternary_encode(&mut p); });
        }
    });
}
pub fn c11(t: &mut T) {
    use panacea::utils::verif::*;
    t.sub("substitution", |t| {
        let mut r = t.rng.clone();
        for lg in 0..=if t.thorough { 9 } else { 8 } {
            let n = 1usize << lg;
            for k in (1..2 * n).step_by(2) {
                let a = r.poly(n);
                let want = subst(&a, k);
                t.case(format!("n={} k={} poly={:?}", n, k, a));
                t.eq(polyv(&eval_x_k(&poly(&a), k)), want.clone(), "result");
                let junk = r.poly(n);
                let mut o = poly(&junk);
                eval_x_k_in_memory(&mut o, &poly(&a), k);
                t.eq(polyv(&o), want, "in-memory result over previous content");
                // few non-zero coefficients, and extreme ones
                let b: Vec<u64> = a.iter().map(|x| match x % 5 { 0 => 0, 1 => 0, 2 => 1, 3 => u64::MAX, _ => 1 << 63 }).collect();
                t.case(format!("n={} k={} poly={:?} previous={:?}", n, k, b, junk));
                let mut o = poly(&junk);
                eval_x_k_in_memory(&mut o, &poly(&b), k);
                t.eq(polyv(&o), subst(&b, k), "in-memory result over previous content");
            }
        }
        for n in [512usize, 1024, 2048] { for k in [3, n + 1, n / 2 + 1, 2 * n - 1, 5] {
            let a = r.poly(n);
            t.case(format!("n={} k={}", n, k));
            t.eq(polyv(&eval_x_k(&poly(&a), k)), subst(&a, k), "result");
        } }
        // exponents beyond 2n
        for _ in 0..t.reps(60, 400) {
            let n = 1usize << r.below(8);
            let k = (2 * r.below(n) + 1).wrapping_add(2 * n * [1, 2, 3, 1 << 16, r.below(1 << 20), 1 << 31, 1 << 40, r.below(1 << 45)][r.below(8)]);
            let a = r.poly(n);
            t.case(format!("n={} k={} poly={:?}", n, k, a));
            t.eq(polyv(&eval_x_k(&poly(&a), k)), subst(&a, k % (2 * n)), "result for a large exponent");
        }
    });
    t.sub("even-exponent", |t| {
        for n in [1usize, 2, 8, 64] { for k in [0usize, 2, 4, n + (n & 1), 2 * n] {
            t.case(format!("n={} k={}", n, k));
            t.must_panic("an even exponent", || eval_x_k(&poly(&vec![1; n]), k));
        } }
    });
}
pub fn c12(t: &mut T) {
    t.sub("whole-ciphertext", |t| {
        let mut r = t.rng.clone();
        for rep in 0..t.reps(150, 1500) {
            let n = if rep % 30 == 29 { [512, 1024, 2048, 4096][rep / 30 % 4] } else { [1usize, 2, 4, 8, 32, 128][rep % 6] };
            let (a, b) = (rand_ct(&mut r, n), rand_ct(&mut r, n));
            let ((am, ab), (bm, bb)) = (both(&a), both(&b));
            t.case(format!("n={} a={:?}/{:?} b={:?}/{:?}", n, am, ab, bm, bb));
            let mut x = a.clone();
            t.eq(both(&x), (am.clone(), ab.clone()), "clone");
            x.update_with_add(&b);
            t.eq(both(&x), (add(&am, &bm), add(&ab, &bb)), "sum");
            let mut x = a.clone();
            x.update_with_sub(&b);
            t.eq(both(&x), (sub(&am, &bm), sub(&ab, &bb)), "difference");
            t.eq(both(&b), (bm.clone(), bb.clone()), "other operand");
            let d = r.below(n);
            let mut x = a.clone();
            x.update_with_monomial_div(MonomialDegree(d));
            let inv = if d == 0 { mono(n, 0, 1) } else { mono(n, n - d, u64::MAX) };
            t.eq(both(&x), (mul(&am, &inv), mul(&ab, &inv)), &format!("division by X^{}", d));
            let want = (neg(&am), add(&neg(&ab), &mono(n, 0, 1 << 63)));
            t.eq(both(&a.not()), want.clone(), "not");
            t.eq(both(&a), (am.clone(), ab.clone()), "operand of not");
            let mut x = a.clone();
            x.not_in_place();
            t.eq(both(&x), want, "not in place");
            let mut x = a.clone();
            x.fill_with_copy(&b);
            t.eq(both(&x), (bm.clone(), bb.clone()), "copy");
            let mut x = a.clone();
            let cc: V = am.iter().rev().chain(bb.iter()).copied().collect();
            x.fill_with_tensor(&Tensor::from_container(cc.clone()));
            t.eq(both(&x), (cc[..n].to_vec(), cc[n..].to_vec()), "fill from tensor");
            x.clear();
            t.eq(both(&x), (vec![0; n], vec![0; n]), "clear");
            t.eq(a.polynomial_size().0, n, "size");
            t.eq(both(&RLWECiphertext::allocate(PolynomialSize(n))), (vec![0; n], vec![0; n]), "allocate");
        }
    });
    t.sub("mask-or-body-only", |t| {
        let mut r = t.rng.clone();
        for rep in 0..t.reps(120, 1200) {
            let n = if rep % 60 == 59 { [512, 1024, 2048][rep / 60 % 3] } else { [1usize, 2, 4, 8, 32, 64][rep % 6] };
            let a = rand_ct(&mut r, n);
            let (am, ab) = both(&a);
            let p = if rep % 7 == 3 { am.clone() } else if rep % 4 == 0 { mono(n, r.below(n), r.u()) } else { r.poly(n) };
            t.case(format!("n={} ct={:?}/{:?} operand={:?}", n, am, ab, p));
            let pv = poly(&p);
            macro_rules! go { ($f:ident, $arg:expr, $want:expr) => { { let mut x = a.clone(); x.$f($arg); t.eq(both(&x), $want, stringify!($f)); t.eq(polyv(&pv), p.clone(), "operand afterwards"); } } }
            go!(update_mask_with_add, &pv, (add(&am, &p), ab.clone()));
            go!(update_mask_with_sub, &pv.as_view(), (sub(&am, &p), ab.clone()));
            go!(update_body_with_add, &pv, (am.clone(), add(&ab, &p)));
            go!(update_body_with_sub, &pv.as_view(), (am.clone(), sub(&ab, &p)));
            let mut q = poly(&p);
            let mut x = a.clone();
            x.update_mask_with_mul(&q.as_mut_view());
            t.eq(both(&x), (mul(&am, &p), ab.clone()), "update_mask_with_mul");
            let mut x = a.clone();
            x.update_body_with_mul(&q.as_mut_view());
            t.eq(both(&x), (am.clone(), mul(&ab, &p)), "update_body_with_mul");
            t.eq(polyv(&q), p.clone(), "operand afterwards");
            let mut x = poly(&am);
            naive_update_with_mul(&mut x, &pv);
            t.eq(polyv(&x), mul(&am, &p), "naive_update_with_mul");
            let mut x = poly(&am);
            naive_update_with_mul_acc(&mut x, &poly(&ab), &pv);
            t.eq(polyv(&x), add(&am, &mul(&ab, &p)), "naive_update_with_mul_acc");
        }
    });
    t.sub("fourier-products", |t| {
        let mut r = t.rng.clone();
        for rep in 0..t.reps(60, 400) {
            let n = if rep % 50 == 49 { 2048 } else { [8usize, 16, 32, 64, 256, 1024][rep % 6] };
            let a = rand_ct(&mut r, n);
            let (am, ab) = both(&a);
            let p: V = match rep % 5 { 3 => vec![[0, 1, u64::MAX, 2, 31][rep / 5 % 5]; n], 0 => mono(n, r.below(n), [1, u64::MAX][r.below(2)]), 1 => r.tern(n), _ => (0..n).map(|_| (r.u() % 63).wrapping_sub(31)).collect() };
            t.case(format!("n={} operand={:?}", n, p));
            let mut x = a.clone();
            x.update_mask_with_mul_with_buf(&poly(&p).as_view());
            t.nearv(&mask(&x), &mul(&am, &p), 36, "mask product");
            t.eq(body(&x), ab.clone(), "body");
            let mut x = a.clone();
            x.update_body_with_mul_with_buf(&poly(&p).as_view());
            t.nearv(&body(&x), &mul(&ab, &p), 36, "body product");
            t.eq(mask(&x), am.clone(), "mask");
            let mut o = poly(&ab);
            panacea::rlwe::verif::fourier_mul_acc(&mut o.as_mut_view(), &poly(&am).as_view(), &poly(&p).as_view());
            t.nearv(&polyv(&o), &add(&ab, &mul(&am, &p)), 36, "accumulated product");
        }
    });
}
pub fn c13(t: &mut T) {
    for (nm, p) in [("default-modulus", par(64, 256)), ("binary", par(8, 2)), ("mixed", par_mixed(256, 16)), ("large-modulus", par(16, 1 << 40)), ("huge-modulus", par(8, 1 << 48)), ("modulus-33", par(32, 1 << 33)), ("full", par(2048, 256)), ("noisy", TFHEParameters { standard_deviation: -20.0, ..par(64, 16) })] {
        t.sub(&format!("rlwe-{}", nm), |t| {
            let mut r = t.rng.clone();
            let n = p.polynomial_size;
            let tt = p.plaintext_modulus;
            // six standard deviations
            let ntol = (64.0 + p.standard_deviation).ceil() as u32 + 3;
            for rep in 0..t.reps(6, 40) {
                let mut c = ctx(&mut r, &p);
                let sk = c.gen_rlwe_sk();
                let s = skc(&sk);
                t.ok(s.len() == n && s.iter().all(|x| *x < 2), || "key is not binary".into());
                let (skp, m) = (sk.clone(), if rep == 0 { vec![tt - 1; n] } else { r.mods(n, tt) });
                t.case(format!("n={} t={} m={:?}", n, tt, m));
                let pt = pl(&m);
                let junk = rand_ct(&mut r, n);
                let mut ct = junk.clone();
                sk.encode_encrypt_rlwe(&mut ct, &pt, &mut c);
                t.eq(plv(&pt), m.clone(), "plaintext argument afterwards");
                t.near(&s, &ct, &enc_of(tt, &m), ntol, "phase of encoded encryption");
                let before = both(&ct);
                let mut o = pl(&r.poly(n));
                sk.decrypt_decode_rlwe(&mut o, &ct, &c);
                t.eq(plv(&o), m.clone(), "decrypted and decoded message");
                t.eq(both(&ct), before, "ciphertext afterwards");
                let mut o2 = pl(&r.poly(n));
                sk.decrypt_rlwe(&mut o2, &ct);
                t.eq(plv(&o2), phase(&s, &ct), "raw decryption");
                let tm: V = r.tern(n);
                t.case(format!("n={} ternary m={:?}", n, tm));
                let tp = pl(&tm);
                let mut ct = junk.clone();
                sk.ternary_encrypt_rlwe(&mut ct, &tp, &mut c);
                t.eq(plv(&tp), tm.clone(), "ternary plaintext argument afterwards");
                let mut o = pl(&r.poly(n));
                sk.ternary_decrypt_rlwe(&mut o, &ct);
                t.eq(plv(&o), tm, "ternary decryption");
                let raw = r.poly(n);
                t.case(format!("n={} raw m={:?}", n, raw));
                let rp = pl(&raw);
                let mut ct = junk.clone();
                let std = c.std;
                sk.encrypt_rlwe(&mut ct, &rp, std, &mut c.encryption_generator);
                t.eq(plv(&rp), raw.clone(), "raw plaintext argument afterwards");
                t.near(&s, &ct, &raw, ntol, "raw encryption");
                let k = [r.u(), 1 << 63, (1 << 63) - 1, u64::MAX, 0, 1][rep % 6];
                t.case(format!("n={} constant {}", n, k));
                let mut ct = junk.clone();
                sk.encrypt_constant_rlwe(&mut ct, &Plaintext(k), &mut c);
                t.near(&s, &ct, &mono(n, 0, k), ntol, "constant encryption");
                t.eq(skc(&skp), skc(&sk), "key afterwards");
                // the noise has the configured magnitude
                if n >= 64 {
                    let z = enc_raw(&sk, &vec![0; n], &mut c);
                    let e: Vec<f64> = phase(&s, &z).iter().map(|x| *x as i64 as f64).collect();
                    let sd = (e.iter().map(|x| x * x).sum::<f64>() / n as f64).sqrt().log2() - 64.0;
                    t.ok((sd - p.standard_deviation).abs() < 1.5, || format!("noise deviation 2^{:.2}, configured 2^{}", sd, p.standard_deviation));
                    let mut ct = junk.clone();
                    sk.encode_encrypt_rlwe(&mut ct, &pl(&vec![0; n]), &mut c);
                    let e: Vec<f64> = phase(&s, &ct).iter().map(|x| *x as i64 as f64).collect();
                    let sd = (e.iter().map(|x| x * x).sum::<f64>() / n as f64).sqrt().log2() - 64.0;
                    t.ok((sd - p.standard_deviation).abs() < 1.5, || format!("noise deviation of encoded encryption 2^{:.2}, configured 2^{}", sd, p.standard_deviation));
                }
            }
        });
    }
    t.sub("large-sizes", |t| {
        let mut r = t.rng.clone();
        for rep in 0..t.reps(4, 12) {
            let n = [1024usize, 2048, 4096, 2048][rep % 4];
            let p = par(n, 256);
            let mut c = ctx(&mut r, &p);
            let lsk = c.gen_lwe_sk();
            let ls = panacea::rlwe::verif::lwe_sk_coeffs(&lsk);
            t.case(format!("n={} LWE key {:?}", n, ls));
            t.eq(skc(&lsk.to_rlwe_sk()), ls.clone(), "RLWE key from LWE key");
            let b = r.bits(n);
            t.case(format!("n={} LWE key {:?}", n, b));
            t.eq(skc(&panacea::rlwe::verif::lwe_sk_from(&b).to_rlwe_sk()), b, "RLWE key from LWE key");
            let mut ct = LWECiphertext::allocate(c.lwe_size());
            let m = r.u() % 256;
            lsk.encode_encrypt_lwe(&mut ct, &Plaintext(m), &mut c);
            let mut o = Plaintext(r.u());
            lsk.decode_decrypt_lwe(&mut o, &ct, &c);
            t.eq(o.0, m, "decoded LWE message");
            let sk = c.gen_rlwe_sk();
            let m = r.mods(n, 256);
            t.case(format!("n={} m={:?}", n, m));
            let mut x = RLWECiphertext::allocate(c.poly_size);
            sk.encode_encrypt_rlwe(&mut x, &pl(&m), &mut c);
            let mut o = pl(&r.poly(n));
            sk.decrypt_decode_rlwe(&mut o, &x, &c);
            t.eq(plv(&o), m, "decrypted and decoded message");
            let m = r.tern(n);
            t.case(format!("n={} ternary m={:?}", n, m));
            sk.ternary_encrypt_rlwe(&mut x, &pl(&m), &mut c);
            sk.ternary_decrypt_rlwe(&mut o, &x);
            t.eq(plv(&o), m, "ternary decryption");
        }
    });
    // noise that rounds to nothing: every phase is exact, for every modulus
    t.sub("noiseless", |t| {
        let mut r = t.rng.clone();
        for rep in 0..t.reps(2, 8) { for bits in 1..=63u32 {
            let n = [2usize, 8, 1, 16, 32, 4, 64][(rep + bits as usize) % 7];
            let tt = 1u64 << bits;
            let p = TFHEParameters { standard_deviation: -100.0, ..par(n, tt) };
            let mut c = ctx(&mut r, &p);
            let (sk, lsk) = (c.gen_rlwe_sk(), c.gen_lwe_sk());
            let (s, ls) = (skc(&sk), panacea::rlwe::verif::lwe_sk_coeffs(&lsk));
            let lph = |ct: &LWECiphertext| { let v = ct.as_tensor().as_slice().to_vec(); (0..n).fold(v[n], |a, i| a.wrapping_sub(v[i].wrapping_mul(ls[i]))) };
            let m = r.mods(n, tt);
            t.case(format!("n={} t=2^{} m={:?} keys {:?} {:?}", n, bits, m, s, ls));
            let mut ct = rand_ct(&mut r, n);
            sk.encode_encrypt_rlwe(&mut ct, &pl(&m), &mut c);
            t.eq(phase(&s, &ct), enc_of(tt, &m), "phase of encoded encryption");
            let mut o = pl(&r.poly(n));
            sk.decrypt_decode_rlwe(&mut o, &ct, &c);
            t.eq(plv(&o), m.clone(), "decrypted and decoded message");
            let mut l = LWECiphertext::allocate(c.lwe_size());
            lsk.encode_encrypt_lwe(&mut l, &Plaintext(m[0]), &mut c);
            t.eq(lph(&l), enc_of(tt, &m[..1])[0], "phase of encoded LWE encryption");
            let mut o = Plaintext(r.u());
            lsk.decode_decrypt_lwe(&mut o, &l, &c);
            t.eq(o.0, m[0], "decoded LWE message");
            let raw = r.poly(n);
            t.case(format!("n={} raw {:?}", n, raw));
            t.eq(phase(&s, &enc_raw(&sk, &raw, &mut c)), raw.clone(), "raw encryption");
            let mut ct = rand_ct(&mut r, n);
            sk.encrypt_constant_rlwe(&mut ct, &Plaintext(raw[n - 1]), &mut c);
            t.eq(phase(&s, &ct), mono(n, 0, raw[n - 1]), "constant encryption");
            let std = c.std;
            lsk.encrypt_lwe(&mut l, &Plaintext(raw[0]), std, &mut c.encryption_generator);
            t.eq(lph(&l), raw[0], "raw LWE encryption");
            let tm = r.tern(n);
            sk.ternary_encrypt_rlwe(&mut ct, &pl(&tm), &mut c);
            let th = u64::MAX / 3;
            let want: V = tm.iter().map(|x| match *x { 0 => 0, 1 => th, _ => th.wrapping_mul(2) }).collect();
            t.near(&s, &ct, &want, 13, "noiseless ternary encryption");
            let mut o = pl(&r.poly(n));
            sk.ternary_decrypt_rlwe(&mut o, &ct);
            t.eq(plv(&o), tm, "ternary decryption");
        } }
    });
    t.sub("lwe", |t| {
        let mut r = t.rng.clone();
        for rep in 0..t.reps(16, 80) {
            let p = [par(64, 256), par_mixed(16, 16), par(8, 2), par(256, 1 << 20), TFHEParameters { standard_deviation: -20.0, ..par(32, 16) }, par(16, 1 << 33), par(512, 1 << 48), par(4, 1 << 40)][rep % 8].clone();
            let (n, tt) = (p.polynomial_size, p.plaintext_modulus);
            let mut c = ctx(&mut r, &p);
            let sk = c.gen_lwe_sk();
            let s = panacea::rlwe::verif::lwe_sk_coeffs(&sk);
            t.case(format!("n={} t={}", n, tt));
            t.ok(s.len() == n && sk.key_size().0 == n && s.iter().all(|x| *x < 2), || "LWE key".into());
            t.eq(skc(&sk.to_rlwe_sk()), s.clone(), "RLWE key from LWE key");
            for m in [0, 1, tt - 1, r.u() % tt, r.u() % tt] {
                t.case(format!("n={} t={} m={}", n, tt, m));
                let pt = Plaintext(m);
                let mut ct = LWECiphertext::allocate(c.lwe_size());
                t.eq(ct.lwe_size().0, n + 1, "LWE size");
                ct.fill_with_tensor(&Tensor::from_container(r.poly(n + 1)));
                sk.encode_encrypt_lwe(&mut ct, &pt, &mut c);
                t.eq(pt.0, m, "plaintext argument afterwards");
                let mut o = Plaintext(r.u());
                sk.decode_decrypt_lwe(&mut o, &ct, &c);
                t.eq(o.0, m, "decoded LWE message");
                let raw = r.u();
                let rp = Plaintext(raw);
                let std = c.std;
                sk.encrypt_lwe(&mut ct, &rp, std, &mut c.encryption_generator);
                let mut o = Plaintext(r.u());
                sk.decrypt_lwe(&mut o, &ct);
                let ntol = (64.0 + p.standard_deviation).ceil() as u32 + 3;
                t.nearv(&[o.0], &[raw], ntol, "raw LWE message");
                let v = ct.as_tensor().as_slice().to_vec();
                let mut ph = v[n];
                for i in 0..n { ph = ph.wrapping_sub(v[i].wrapping_mul(s[i])); }
                t.eq(o.0, ph, "LWE phase");
                t.ok(n < 16 || v[..n].iter().filter(|x| **x == 0).count() < 3, || "LWE mask is trivial".into());
                let tv = r.poly(n + 1);
                ct.fill_with_tensor(&Tensor::from_container(tv.clone()));
                t.eq(ct.as_tensor().as_slice().to_vec(), tv.clone(), "LWE fill");
                t.eq((ct.get_mask().as_tensor().as_slice().to_vec(), ct.get_body().0), (tv[..n].to_vec(), tv[n]), "LWE parts");
                ct.clear();
                t.eq(ct.as_tensor().as_slice().to_vec(), vec![0; n + 1], "LWE clear");
            }
        }
    });
}
pub fn c20(t: &mut T) {
    t.sub("cross-product", |t| {
        let mut r = t.rng.clone();
        for rep in 0..t.reps(60, 500) {
            let groups = if rep == 0 { 0 } else if rep % 20 == 7 { 20 } else { r.below(4) };
            let width = if rep % 20 == 11 { 40 } else { 4 };
            let mut id = 0usize;
            let list: Vec<(Vec<ORAMParameters>, Vec<TFHEParameters>)> = (0..groups).map(|_| {
                let o = (0..r.below(width)).map(|_| { id += 1; match r.below(3) { 0 => ORAMParameters::SingleQuery { item_count: 2 * id, iterations: 7 * id }, 1 => ORAMParameters::MultiQuery { item_count: id, query_count: 3 * id, iterations: 5 * id }, _ => ORAMParameters::Batched { rows: id, cols: 11 * id, iterations: [13 * id, 13 * id, 0, 1, usize::MAX][r.below(5)] } } }).collect();
                let f = (0..r.below(width)).map(|_| { id += 1; TFHEParameters { standard_deviation: -(id as f64), polynomial_size: 1 << (id % 12), base_log: id, level_count: id + 1, key_switch_base_log: id + 2, key_switch_level_count: id + 3, negs_base_log: id + 4, negs_level_count: id + 5, plaintext_modulus: 1 << (id % 60), secure_seed: id % 2 == 0 } }).collect();
                (o, f)
            }).collect();
            let mut want = vec![];
            for (o, f) in &list { for a in o { for b in f { want.push((format!("{:?}", a), format!("{:?}", b))); } } }
            t.case(format!("{:?}", list));
            let got: Vec<(String, String)> = ServerParams::from_input_params_list(InputParamsList { list: list.clone() }).into_iter().map(|x| (format!("{:?}", x.oram), format!("{:?}", x.tfhe))).collect();
            t.eq(got, want, "expanded configurations");
            // JSON round trip of the list
            let js = serde_json::to_string(&InputParamsList { list: list.clone() }).unwrap();
            let back: InputParamsList = serde_json::from_str(&js).unwrap();
            t.eq(format!("{:?}", back.list), format!("{:?}", list), "parameter list read back from JSON");
        }
        let d = ServerParams::default();
        let l = ServerParams::from_input_params_list(InputParamsList::default());
        t.eq(l.len(), 1, "default list");
        t.eq((format!("{:?}", l[0].oram), format!("{:?}", l[0].tfhe)), (format!("{:?}", d.oram), format!("{:?}", d.tfhe)), "default configuration");
    });
    t.sub("large-context", |t| {
        for n in [512usize, 1024, 2048, 4096, 8192, 16384] {
            let p = par(n, 256);
            t.case(format!("n={}", n));
            let mut c = Context::new(p.clone());
            t.eq((c.poly_size.0, c.lwe_dim().0, c.lwe_size().0, c.plaintext_count().0, c.gen_zero_pt().count().0), (n, n, n + 1, n, n), "derived sizes");
            t.eq(plv(&c.gen_demuxed_pt(n - 1)), mono(n, n - 1, 1), "demuxed plaintext");
            t.eq(plv(&c.gen_unit_pt()), mono(n, 0, 1), "unit plaintext");
        }
    });
    t.sub("context", |t| {
        let mut r = t.rng.clone();
        for rep in 0..t.reps(20, 200) {
            let n = 1usize << (1 + r.below(8));
            let p = TFHEParameters { standard_deviation: -(10.0 + rep as f64 / 2.0), polynomial_size: n, base_log: 2 + r.below(3), level_count: 1 + r.below(4), key_switch_base_log: 5 + r.below(3), key_switch_level_count: 5 + r.below(2), negs_base_log: 8, negs_level_count: 3, plaintext_modulus: 1 << (1 + r.below(50)), secure_seed: rep % 2 == 0 };
            t.case(format!("{:?}", p));
            let mut c = Context::new(p.clone());
            t.eq((c.std.get_log_standard_dev_(), c.poly_size.0, c.codec.pt_modulus()), (p.standard_deviation, n, p.plaintext_modulus), "noise, size, modulus");
            t.eq((c.base_log.0, c.level_count.0, c.ks_base_log.0, c.ks_level_count.0, c.negs_base_log.0, c.negs_level_count.0), (p.base_log, p.level_count, p.key_switch_base_log, p.key_switch_level_count, p.negs_base_log, p.negs_level_count), "decomposition parameters");
            t.eq((c.lwe_dim().0, c.lwe_size().0, c.plaintext_count().0), (n, n + 1, n), "derived sizes");
            t.eq(plv(&c.gen_zero_pt()), vec![0; n], "zero plaintext");
            t.eq(plv(&c.gen_unit_pt()), mono(n, 0, 1), "unit plaintext");
            let i = r.below(n);
            t.eq(plv(&c.gen_demuxed_pt(i)), mono(n, i, 1), "demuxed plaintext");
            t.eq((c.gen_scalar_zero_pt().0, c.gen_scalar_unit_pt().0), (0, 1), "scalar plaintexts");
            for _ in 0..4 {
                let b = plv(&c.gen_binary_pt());
                t.ok(b.len() == n && b.iter().all(|x| *x < 2), || format!("binary plaintext {:?}", b));
                let g = plv(&c.gen_pt());
                t.ok(g.len() == n && g.iter().all(|x| *x < p.plaintext_modulus), || format!("plaintext {:?} for modulus {}", g, p.plaintext_modulus));
                let f = plv(&c.gen_ternary_ptxt());
                t.ok(f.len() == n && f.iter().all(|x| *x < 2 || *x == u64::MAX), || format!("ternary plaintext {:?}", f));
                t.ok(c.gen_scalar_binary_pt().0 < 2, || "binary scalar".into());
            }
            if n >= 64 && p.plaintext_modulus >= 16 { let g = plv(&c.gen_pt()); t.ok(g.iter().any(|x| *x >= p.plaintext_modulus / 2), || "plaintexts do not use the whole plaintext space".into()); }
            let sk = c.gen_rlwe_sk();
            t.eq((sk.polynomial_size().0, c.gen_lwe_sk().key_size().0), (n, n), "key sizes");
            let g = sk.neg_gsw(&mut c);
            t.eq((g.decomposition_base_log().0, g.decomposition_level_count().0, g.polynomial_size().0), (p.negs_base_log, p.negs_level_count, n), "negated-key parameters");
            let v = sk.encrypt_constant_rgsw_vec(&[Plaintext(1), Plaintext(0)], &mut c);
            t.eq(v.len(), 2, "vector length");
            for g in &v { t.eq((g.decomposition_base_log().0, g.decomposition_level_count().0, g.polynomial_size().0), (p.base_log, p.level_count, n), "RGSW parameters"); }
            let m = gen_all_subs_ksk(&sk, &mut c);
            t.eq(m.len(), nodes_log2(n), "number of substitution keys");
            for (k, x) in &m { t.eq((x.decomposition_base_log().0, x.decomposition_level_count().0, x.polynomial_size().0, x.get_subs_k(), x.get_keyswitch_key().len()), (p.key_switch_base_log, p.key_switch_level_count, n, *k, p.key_switch_level_count), "substitution key parameters"); }
            if n <= 16 {
                let lsk = c.gen_lwe_sk();
                let mut lk = LWEtoRLWEKeyswitchKey::allocate(&c);
                lk.fill_with_keyswitching_key(&lsk, &mut c);
                let inner = panacea::rlwe::verif::lwe_ksk_inner(&lk);
                t.eq(inner.len(), n, "number of LWE to RLWE keys");
                for g in inner { t.eq((g.decomposition_base_log().0, g.decomposition_level_count().0), (p.key_switch_base_log, p.key_switch_level_count), "LWE to RLWE key parameters"); }
            }
            let d = format!("{}", c);
            t.ok(d.contains(&format!("poly_size={}", n)) && d.contains(&format!("pt_modulus=({})", p.plaintext_modulus)) && d.contains(&format!("default_decomp=({},{})", p.base_log, p.level_count)) && d.contains(&format!("ks_decomp=({},{})", p.key_switch_base_log, p.key_switch_level_count)) && d.contains(&format!("negs_decomp=({},{})", p.negs_base_log, p.negs_level_count)), || format!("description {}", d));
        }
    });
}
trait Lsd { fn get_log_standard_dev_(&self) -> f64; }
impl Lsd for LogStandardDev { fn get_log_standard_dev_(&self) -> f64 { use concrete_core::prelude::DispersionParameter; self.get_log_standard_dev() } }
pub fn c21(t: &mut T) {
    let p = par(64, 256);
    t.sub("secure", |t| {
        let mut r = t.rng.clone();
        let (mut keys, mut lkeys, mut masks, mut noises, mut pts): (Vec<V>, Vec<V>, Vec<V>, Vec<V>, Vec<V>) = Default::default();
        let fixed = sk_from(&r.bits(64));
        let mut ins = Context::new(p.clone());
        for i in 0..t.reps(12, 60) {
            t.case(format!("context {}", i));
            let mut c = if i == 0 { std::mem::replace(&mut ins, Context::new(p.clone())) } else { Context::new(TFHEParameters { secure_seed: true, ..p.clone() }) };
            let k = c.gen_rlwe_sk();
            let z = enc_raw(&fixed, &vec![0; 64], &mut c);
            let ph = phase(&skc(&fixed), &z);
            let lk = panacea::rlwe::verif::lwe_sk_coeffs(&c.gen_lwe_sk());
            t.ok(skc(&k).iter().chain(&lk).all(|x| *x < 2), || "key is not binary".into());
            for (v, x, w) in [(&mut keys, skc(&k), "secret keys"), (&mut lkeys, lk, "LWE keys"), (&mut masks, mask(&z), "encryption masks"), (&mut noises, ph, "encryption noise"), (&mut pts, plv(&c.gen_pt()), "generated plaintexts")] {
                t.ok(!v.contains(&x), || format!("two contexts gave equal {}", w));
                v.push(x);
            }
            // independence of the three generators: reseeding one with another's stream would correlate them
            let (mut a, mut b) = (c.gen_binary_pt(), c.gen_rlwe_sk());
            let mut equal = true;
            for _ in 0..3 { if plv(&a) != skc(&b) { equal = false; } a = c.gen_binary_pt(); b = c.gen_rlwe_sk(); }
            t.ok(!equal, || "the public and the secret generator give the same stream".into());
        }
    });
    t.sub("reproducible", |t| {
        t.case("secure_seed = false twice".into());
        let mk = || { let mut c = Context::new(p.clone()); let k = c.gen_rlwe_sk(); let z = enc_raw(&k, &vec![5; 64], &mut c); let q = c.gen_pt(); (skc(&k), both(&z), plv(&q)) };
        t.eq(mk(), mk(), "runs without secure seeding");
        t.ok(mk().0.iter().all(|x| *x < 2), || "key is not binary".into());
    });
    t.sub("streams-differ", |t| {
        // a secure context: public randomness does not repeat the secret key's stream
        for i in 0..6 {
            t.case(format!("context {}", i));
            let mut c = Context::new(TFHEParameters { secure_seed: true, ..par(256, 256) });
            let k = skc(&c.gen_rlwe_sk());
            let b = plv(&c.gen_binary_pt());
            t.ok(k != b, || "public randomness equals the secret key".into());
        }
    });
}
pub fn c22(t: &mut T) {
    t.sub("rlwe", |t| {
        let mut r = t.rng.clone();
        for rep in 0..t.reps(300, 4000) {
            let n = if rep % 120 == 119 { [256, 512, 1024, 2048, 8192][rep / 120 % 5] } else { [1usize, 2, 4, 8, 64][rep % 5] };
            let s = if rep % 3 == 0 { vec![0; n] } else { r.bits(n) };
            let sk = sk_from(&s);
            let a = r.poly(n);
            let m = r.poly(n);
            // an error vector with a chosen extreme coefficient, of either sign
            let bits = r.below(62);
            let mut e: V = (0..n).map(|_| { let x = r.u() % (1u64 << bits).max(2); if r.coin() { x } else { x.wrapping_neg() } }).collect();
            let big = (1u64 << bits) + r.u() % (1u64 << bits);
            let at = r.below(n);
            e[at] = if r.coin() { big } else { big.wrapping_neg() };
            if rep % 23 == 5 { e[at] = [1u64 << 63, (1 << 63) - 1, (1 << 63) + 1, 1 << 62, r.u()][(rep / 23) % 5]; }
            if rep % 17 == 0 { e = mono(n, at, if rep % 2 == 0 { 1 } else { u64::MAX }); }
            if rep % 19 == 3 { e = vec![0; n]; }
            let want = (e.iter().map(|x| (*x as i64).unsigned_abs()).max().unwrap() as f64).log2();
            let near = |x: f64| x == want || (x - want).abs() < 1e-9;
            t.case(format!("n={} errors={:?} m={:?} s={:?}", n, e.iter().map(|x| *x as i64).collect::<Vec<_>>(), m, s));
            let ct = |m: &[u64]| mk(&a, &add(&add(&mul(&a, &s), m), &e));
            let c1 = ct(&m);
            let got = compute_noise(&sk, &c1, &pl(&m));
            t.ok(near(got), || format!("noise {} expected {}", got, want));
            t.eq(both(&c1), both(&ct(&m)), "ciphertext afterwards");
            let k = 1 + r.below(40);
            let tt = 1u64 << k;
            let c = Codec::new(tt);
            let mm = r.mods(n, tt);
            let pm = pl(&mm);
            let got = compute_noise_encoded(&sk, &ct(&enc_of(tt, &mm)), &pm, &c);
            t.ok(near(got), || format!("encoded noise {} expected {} (t=2^{}, m={:?})", got, want, k, mm));
            t.eq(plv(&pm), mm, "plaintext afterwards");
            let tm: V = r.tern(n);
            let mut tp = poly(&tm);
            Codec::poly_ternary_encode(&mut tp);
            let got = compute_noise_ternary(&sk, &ct(&polyv(&tp)), &pl(&tm));
            t.ok(near(got), || format!("ternary noise {} expected {} (m={:?})", got, want, tm));
        }
        t.case("no noise".into());
        let got = compute_noise(&sk_from(&[1, 0]), &mk(&[0, 0], &[5, 6]), &pl(&[5, 6]));
        t.ok(got == f64::NEG_INFINITY, || format!("noise of an exact ciphertext: {}", got));
    });
    t.sub("rgsw", |t| {
        let mut r = t.rng.clone();
        for rep in 0..t.reps(10, 60) {
            let p = [par(16, 256), par_mixed(64, 16), par_mixed2(32, 4), TFHEParameters { base_log: 9, level_count: 1, ..par(8, 16) }, TFHEParameters { base_log: 3, level_count: 13, ..par(8, 16) }, TFHEParameters { base_log: 2, level_count: 25, ..par(8, 16) }, TFHEParameters { base_log: 12, level_count: 2, ..par(512, 16) }][rep % 7].clone();
            let mut c = ctx(&mut r, &p);
            let sk = c.gen_rlwe_sk();
            let s = skc(&sk);
            let g = enc_rgsw_const(&sk, 1, &mut c);
            t.case(format!("{:?}", p));
            let mut sum = 0f64;
            for k in 0..p.level_count {
                let want = mono(p.polynomial_size, 0, 1u64 << (64 - p.base_log * (k + 1)));
                sum += (maxdist(&phase(&s, &g.get_nth_row(2 * k + 1)), &want) as f64).log2();
            }
            let got = compute_noise_rgsw1(&sk, &g, &c);
            t.ok((got - sum / p.level_count as f64).abs() < 1e-9, || format!("average noise {} expected {}", got, sum / p.level_count as f64));
        }
    });
}
pub fn c23(t: &mut T) {
    t.sub("log2", |t| {
        let mut r = t.rng.clone();
        for k in 0..64usize {
            let b = 1usize << k;
            t.case(format!("k={}", k));
            t.eq(log2(b), k, "log2 of a power");
            t.eq(log2(b | (b - 1)), k, "log2 just below the next power");
            for _ in 0..20 { let x = b | (r.u() as usize & (b - 1)); t.case(format!("x={}", x)); t.eq(log2(x), k, "log2"); }
        }
    });
    t.sub("transpose", |t| {
        let mut r = t.rng.clone();
        for (a, b) in (1..8usize).flat_map(|a| (0..8usize).map(move |b| (a, b))).chain([(1, 70), (70, 1), (33, 40), (40, 33), (129, 3), (20, 70), (70, 20), (12, 130), (300, 2), (2, 300)]) { {
            let v: Vec<V> = (0..a).map(|_| r.poly(b)).collect();
            t.case(format!("{}x{} {:?}", a, b, v));
            let w: Vec<V> = (0..b).map(|j| (0..a).map(|i| v[i][j]).collect()).collect();
            t.eq(transpose(v), w, "transposed table");
        } }
        t.must_panic("an empty table", || transpose(Vec::<Vec<u8>>::new()));
    });
    t.sub("bit-packing", |t| {
        let mut r = t.rng.clone();
        for rep in 0..t.reps(200, 2000) {
            let n = [1usize, 2, 8, 63, 64, 65, 128, 2048][rep % 8];
            let v = match rep / 8 % 4 { 0 => vec![1; n], 1 => mono(n, r.below(n), 1), _ => r.bits(n) };
            t.case(format!("{:?}", v));
            let want = v.iter().take(64).enumerate().fold(0u64, |a, (i, b)| a | b << i);
            t.eq(pt_to_lossy_u64(&pl(&v)), want, "packed number");
            let mut bad = v.clone();
            let at = r.below(n.min(64));
            bad[at] = [2, u64::MAX, 3, r.u() | 2][rep % 4];
            t.case(format!("{:?}", bad));
            t.must_panic("a coefficient that is not binary", || pt_to_lossy_u64(&pl(&bad)));
        }
    });
    t.sub("bit-packing-rejects", |t| {
        // every position, with several values that are not binary, in every plaintext length class
        for n in [1usize, 2, 33, 64, 65, 128] { for at in 0..n.min(64) { for fill in [0u64, 1] {
            for x in [2u64, 3, 4, u64::MAX, 1 << 63, 1 << 32, (1 << 32) + 1, u64::MAX - 1] {
                let mut v = vec![fill; n];
                v[at] = x;
                t.case(format!("n={} others {} position {} value {}", n, fill, at, x));
                t.must_panic("a coefficient that is not binary", || pt_to_lossy_u64(&pl(&v)));
            }
        } } }
    });
    t.sub("scaling", |t| {
        let mut r = t.rng.clone();
        for n in [0usize, 1, 2, 7, 64] { for c in [0, 1, u64::MAX, 1 << 63, r.u()] {
            let v = r.poly(n);
            t.case(format!("{:?} * {}", v, c));
            let mut x = Tensor::from_container(v.clone());
            panacea::utils::verif::mul_const(&mut x, c);
            t.eq(x.as_slice().to_vec(), scale(&v, c), "scaled tensor");
        } }
    });
}
