use crate::h::*;
use panacea::decision_tree::{bit_decomposed_rgsw, demux, demux_with};
use panacea::naive_hash::verif::from_tables;
use panacea::oram::verif::{query_parts, server_data};
use panacea::oram::*;
use std::panic::{catch_unwind, AssertUnwindSafe};

fn tol(n: usize) -> u32 { if n > 512 { 52 } else { 48 } }
fn dec(s: &[u64], t: u64, c: &RLWECiphertext) -> V {
    // nearest multiple of the scaling factor
    let d = ((1u128 << 64) / t as u128) as u64;
    phase(s, c).iter().map(|x| (((*x as u128 + (d / 2) as u128) / d as u128) % t as u128) as u64).collect()
}
struct World { cl: Client, sv: Server, s: V, model: Vec<Vec<V>>, t: u64, n: usize, hash: NaiveHash }
fn ident(h: usize, d: usize) -> NaiveHash { from_tables((0..h * d).collect(), h, d) }
/// A database with explicit contents: model[r][c] is the plaintext stored there.
fn world(r: &mut Rng, p: &TFHEParameters, model: Vec<Vec<V>>, hash: NaiveHash) -> World {
    let mut cl = Client::new(model.len(), model[0].len(), p.clone());
    reseed(r, &mut cl.ctx);
    cl.sk = cl.ctx.gen_rlwe_sk();
    let ns = cl.gen_neg_sk();
    let s = skc(&cl.sk);
    let t = p.plaintext_modulus;
    let mut data = vec![];
    for row in &model {
        let mut o = vec![];
        for v in row { let e = enc_of(t, v); o.push(enc_raw(&cl.sk, &e, &mut cl.ctx)); }
        data.push(o);
    }
    let sv = Server::new(data, ns, p.clone());
    World { cl, sv, s, model, t, n: p.polynomial_size, hash }
}
fn check_db(t: &mut T, w: &World, what: &str) {
    let d = server_data(&w.sv);
    t.eq(d.len(), w.model.len(), "number of rows");
    for (r, row) in d.iter().enumerate() {
        t.eq(row.len(), w.model[r].len(), "number of columns");
        for (c, ct) in row.iter().enumerate() {
            let got = phase(&w.s, ct);
            t.nearv(&got, &enc_of(w.t, &w.model[r][c]), tol(w.n), &format!("{}: stored item at row {} column {}", what, r, c));
        }
    }
}
fn rand_model(r: &mut Rng, rows: usize, cols: usize, n: usize, t: u64) -> Vec<Vec<V>> {
    (0..rows).map(|_| (0..cols).map(|_| r.mods(n, t)).collect()).collect()
}
// the public query functions address item i through the hash table
fn query(w: &mut World, i: usize, wr: Option<&V>) -> ClientQuery {
    match wr { None => w.cl.gen_read_query_one(i, &w.hash), Some(v) => w.cl.gen_write_query_one(i, &pl(v), &w.hash) }
}
fn one(t: &mut T, w: &mut World, i: usize, wr: Option<V>, full: bool) {
    let pos = w.hash.hash0(i);
    t.case(format!("cols={} n={} item {} at slot {} {} db={:?}", w.model[0].len(), w.n, i, pos, match &wr { None => "read".into(), Some(v) => format!("write {:?}", v) }, w.model));
    let q = query(w, i, wr.as_ref());
    let (y, _) = w.sv.process_one(q);
    t.near(&w.s, &y, &enc_of(w.t, &w.model[0][pos]), tol(w.n), "response");
    let mut pt = w.cl.ctx.gen_zero_pt();
    w.cl.sk.decrypt_decode_rlwe(&mut pt, &y, &w.cl.ctx);
    t.eq(plv(&pt), w.model[0][pos].clone(), "decrypted response");
    if let Some(v) = wr { w.model[0][pos] = v; }
    if full { check_db(t, w, "after the access"); }
}
fn levels20() -> TFHEParameters { TFHEParameters { base_log: 3, level_count: 20, key_switch_base_log: 4, key_switch_level_count: 15, negs_base_log: 2, negs_level_count: 25, ..par(8, 256) } }
/// few levels, for wide tables
fn coarse() -> TFHEParameters { TFHEParameters { standard_deviation: -60.0, base_log: 10, level_count: 4, negs_base_log: 9, negs_level_count: 5, ..par(8, 16) } }
pub fn c01(t: &mut T) {
    for (nm, p, cols) in [("cols2", par(8, 256), 2usize), ("cols4", par_mixed(8, 16), 4), ("cols8", par(16, 256), 8), ("levels20", levels20(), 4), ("levels30", TFHEParameters { base_log: 2, level_count: 30, ..levels20() }, 2)] {
        t.sub(&format!("every-slot-{}", nm), |t| {
            let mut r = t.rng.clone();
            let h = NaiveHash::new(1, cols);
            let m = rand_model(&mut r, 1, cols, p.polynomial_size, p.plaintext_modulus);
            let mut w = world(&mut r, &p, m, h);
            check_db(t, &w, "initially");
            let order: Vec<usize> = (0..cols).collect();
            for i in order { one(t, &mut w, i, None, true); let v = r.mods(w.n, w.t); one(t, &mut w, i, Some(v), true); }
            for i in 0..cols { one(t, &mut w, i, None, true); }
        });
    }
    t.sub("histories", |t| {
        let mut r = t.rng.clone();
        for rep in 0..t.reps(2, 8) {
            let cols = [2usize, 8, 4, 16][rep % 4];
            let p = if rep % 2 == 0 { par_mixed2(16, 4) } else { par(8, 256) };
            let m = rand_model(&mut r, 1, cols, p.polynomial_size, p.plaintext_modulus);
            let mut w = world(&mut r, &p, m, ident(1, cols));
            for _ in 0..t.reps(10, 30) {
                let i = r.below(cols);
                let wr = if r.coin() { Some(r.mods(w.n, w.t)) } else { None };
                one(t, &mut w, i, wr, true);
            }
        }
    });
    t.sub("large-polynomial", |t| {
        let mut r = t.rng.clone();
        let p = par(if t.thorough { 2048 } else { 512 }, 256);
        let m = rand_model(&mut r, 1, 4, p.polynomial_size, p.plaintext_modulus);
        let mut w = world(&mut r, &p, m, ident(1, 4));
        for i in [3, 0] { one(t, &mut w, i, None, true); let v = r.mods(w.n, w.t); one(t, &mut w, i, Some(v), true); one(t, &mut w, i, None, true); }
    });
    t.sub("many-slots", |t| {
        let mut r = t.rng.clone();
        let p = par(8, 256);
        let cols = 256;
        let m = rand_model(&mut r, 1, cols, 8, 256);
        let mut w = world(&mut r, &p, m, NaiveHash::new(1, cols));
        for _ in 0..t.reps(6, 40) { let i = r.below(cols); let wr = if r.coin() { Some(r.mods(w.n, w.t)) } else { None }; one(t, &mut w, i, wr, true); }
        one(t, &mut w, cols - 1, None, true); one(t, &mut w, 0, None, true);
    });
    t.sub("very-many-slots", |t| {
        let mut r = t.rng.clone();
        let cols = 2048;
        let m = rand_model(&mut r, 1, cols, 8, 16);
        let mut w = world(&mut r, &coarse(), m, ident(1, cols));
        for i in [cols - 1, 1024, r.below(cols)] { let v = r.mods(w.n, w.t); one(t, &mut w, i, Some(v), true); one(t, &mut w, i, None, true); }
    });
    t.sub("decrypt-db", |t| {
        // binary items: the debugging view of the database lists their first bits
        let mut r = t.rng.clone();
        let p = par(8, 256);
        let m: Vec<Vec<V>> = (0..2).map(|_| (0..4).map(|_| r.bits(8)).collect()).collect();
        let w = world(&mut r, &p, m, ident(1, 8));
        let want: Vec<Vec<u64>> = w.model.iter().map(|row| row.iter().map(|v| v.iter().enumerate().map(|(i, b)| b << i).sum()).collect()).collect();
        t.case(format!("{:?}", w.model));
        let got = w.sv.decrypt_db(&w.cl.sk);
        t.eq(got, want, "decrypted database");
    });
}
pub fn c02(t: &mut T) {
    t.sub("rounds", |t| {
        let mut r = t.rng.clone();
        for rep in 0..t.reps(6, 24) {
            let cols = [4usize, 8, 2, 16][rep % 4];
            let p = [par(8, 256), par_mixed(16, 16), par_mixed2(8, 4), levels20()][rep % 7 % 4].clone();
            let m = rand_model(&mut r, 1, cols, p.polynomial_size, p.plaintext_modulus);
            let mut w = world(&mut r, &p, m, NaiveHash::new(1, cols));
            for _ in 0..t.reps(3, 6) { round(t, &mut r, &mut w, None); }
        }
    });
    t.sub("all-slots-at-once", |t| {
        let mut r = t.rng.clone();
        let p = par(8, 256);
        for k in [1usize, 2, 3, 7, 8] {
            let m = rand_model(&mut r, 1, 8, 8, 256);
            let mut w = world(&mut r, &p, m, ident(1, 8));
            round(t, &mut r, &mut w, Some(k)); round(t, &mut r, &mut w, Some(k));
        }
    });
    for cols in [32usize, 64, 128, 256, 1024] {
        if cols == 256 && !t.thorough { continue; }
        t.sub(&format!("wide-{}", cols), |t| {
            // many slots; the first, the middle and the last one among those addressed
            let mut r = t.rng.clone();
            let p = if cols > 256 { coarse() } else { par(8, 256) };
            let m = rand_model(&mut r, 1, cols, 8, p.plaintext_modulus);
            let mut w = world(&mut r, &p, m, NaiveHash::new(1, cols));
            let at = |w: &World, pos: usize| (0..cols).find(|i| w.hash.hash0(*i) == pos).unwrap();
            let v = vec![at(&w, cols - 1), at(&w, 0), at(&w, cols / 2)];
            round_of(t, &mut r, &mut w, v);
            if cols > 256 { return; }
            let v = vec![at(&w, cols / 2 - 1), at(&w, cols - 1)];
            round_of(t, &mut r, &mut w, v);
            round(t, &mut r, &mut w, Some(if cols == 32 { 20 } else { 4 }));
        });
    }
}
fn round(t: &mut T, r: &mut Rng, w: &mut World, count: Option<usize>) {
    let cols = w.model[0].len();
    let k = count.unwrap_or_else(|| 1 + r.below(cols));
    let items: Vec<usize> = r.perm(cols).into_iter().take(k).collect();
    round_of(t, r, w, items)
}
fn round_of(t: &mut T, r: &mut Rng, w: &mut World, items: Vec<usize>) {
    let (cols, k) = (w.model[0].len(), items.len());
    let wr: Vec<Option<V>> = items.iter().map(|_| if r.coin() { Some(r.mods(w.n, w.t)) } else { None }).collect();
    t.case(format!("cols={} items {:?} writes {:?} db={:?}", cols, items, wr, w.model));
    let qs: Vec<ClientQuery> = items.iter().zip(&wr).map(|(i, v)| query(w, *i, v.as_ref())).collect();
    let (ys, _) = w.sv.process_multi(qs);
    t.eq(ys.len(), k, "number of responses");
    for j in 0..k { let pos = w.hash.hash0(items[j]); t.near(&w.s, &ys[j], &enc_of(w.t, &w.model[0][pos]), tol(w.n), &format!("response {}", j)); }
    for j in 0..k { let pos = w.hash.hash0(items[j]); if let Some(v) = &wr[j] { w.model[0][pos] = v.clone(); } }
    check_db(t, w, "after the round");
}
fn batch_model(r: &mut Rng, h: &NaiveHash, rows: usize, cols: usize, n: usize, t: u64) -> Vec<Vec<V>> {
    let mut m = vec![vec![vec![]; cols]; rows];
    for i in 0..h.input_domain() {
        let v = r.mods(n, t);
        for f in 0..h.h_count() { let p = h.hash(f, i); m[p / cols][p % cols] = v.clone(); }
    }
    m
}
pub fn c03(t: &mut T) {
    for (nm, p, rows, cols, hc) in [("2x4h2", par(8, 256), 2usize, 4usize, 2usize), ("4x2h2", par_mixed(8, 16), 4, 2, 2), ("3x4h3", par_mixed2(8, 4), 3, 4, 3), ("4x4h1", par(8, 256), 4, 4, 1), ("8x4h4", par(8, 256), 8, 4, 4), ("1x8h2", par(8, 256), 1, 8, 2), ("6x2h6", par(8, 256), 6, 2, 6), ("5x4h5", par_mixed(8, 16), 5, 4, 5), ("7x4h7", par(8, 256), 7, 4, 7), ("2x32h2", par(8, 256), 2, 32, 2), ("9x2h9", par(8, 256), 9, 2, 9), ("16x2h2", par(8, 256), 16, 2, 2), ("3x4h2-levels20", levels20(), 3, 4, 2), ("12x2h12", par(8, 256), 12, 2, 12), ("2x512h2", coarse(), 2, 512, 2), ("70x2h1", coarse(), 70, 2, 1)] {
        t.sub(&format!("rounds-{}", nm), |t| {
            let mut r = t.rng.clone();
            for rep in 0..t.reps(if hc > 4 || cols > 8 || rows > 8 { 1 } else { 2 }, if cols > 100 { 1 } else { 6 }) {
                let d = rows * cols / hc;
                let h = if rep == 1 { ident(hc, d) } else { from_tables(r.perm(rows * cols), hc, d) };
                let m = batch_model(&mut r, &h, rows, cols, p.polynomial_size, p.plaintext_modulus);
                let mut w = world(&mut r, &p, m, h);
                for rd in 0..if cols > 100 { 2 } else { t.reps(4, 8) } { batch_round(t, &mut r, &mut w, rd); }
            }
        });
    }
}
fn batch_round(t: &mut T, r: &mut Rng, w: &mut World, rd: usize) {
    let (rows, cols) = (w.model.len(), w.model[0].len());
    let d = w.hash.input_domain();
    // a write batch, a read batch, or a mix of rows of both (for the same set of items)
    let kind = (rd + r.below(2)) % 3;
    for _try in 0..50 {
        let k = 1 + r.below(rows.min(d));
        let items: Vec<usize> = r.perm(d).into_iter().take(k).collect();
        let v = r.mods(w.n, w.t);
        // the client tries the positions of an item in an order of its own, so that any copy can be the one addressed
        let ch = if r.below(4) == 0 { w.hash.clone() } else {
            let hc = w.hash.h_count();
            let flat: Vec<usize> = (0..d).flat_map(|i| r.perm(hc).into_iter().map(|f| w.hash.hash(f, i)).collect::<Vec<_>>()).collect();
            from_tables(flat, hc, d)
        };
        let map = match catch_unwind(AssertUnwindSafe(|| ch.hash_to_mapping(&items, cols))) { Ok(m) => m, Err(_) => continue };
        if map.len() != k { continue; }
        let want: Vec<V> = (0..rows).map(|x| w.model[x][map.get(&x).map(|c| c.0).unwrap_or(0)].clone()).collect();
        let tabs: Vec<Vec<usize>> = (0..d).map(|i| (0..w.hash.h_count()).map(|f| w.hash.hash(f, i)).collect()).collect();
        t.case(format!("rows={} cols={} hash={:?} items {:?} kind {} value {:?} db={:?}", rows, cols, tabs, items, ["read", "write", "mixed"][kind], v, w.model));
        let mut writes: Vec<bool> = vec![kind == 1; rows];
        let qs: Vec<ClientQuery> = match kind {
            0 => w.cl.gen_read_query_batch(&items, &ch),
            1 => w.cl.gen_write_query_batch(&items, &pl(&v), &ch),
            _ => {
                let a = w.cl.gen_read_query_batch(&items, &ch);
                let b = w.cl.gen_write_query_batch(&items, &pl(&v), &ch);
                a.into_iter().zip(b).enumerate().map(|(x, (a, b))| { writes[x] = r.coin(); if writes[x] { b } else { a } }).collect()
            }
        };
        t.eq(qs.len(), rows, "one query per row");
        let (ys, _) = w.sv.process_batch(qs, &w.hash);
        t.eq(ys.len(), rows, "number of responses");
        for x in 0..rows { t.near(&w.s, &ys[x], &enc_of(w.t, &want[x]), tol(w.n), &format!("response of row {}", x)); }
        for (x, (_, i)) in map.iter() {
            if writes[*x] { for f in 0..w.hash.h_count() { let p = w.hash.hash(f, *i); w.model[p / cols][p % cols] = v.clone(); } }
        }
        check_db(t, w, "after the round");
        return;
    }
}
pub fn c04(t: &mut T) {
    for (nm, p, kmax, all) in [("small", par(8, 256), 5usize, true), ("mixed", par_mixed(8, 16), 4, true), ("poly64", par(64, 256), 3, true), ("deep", par(8, 256), 9, false), ("deeper", par(8, 256), 11, false), ("deepest", coarse(), 14, false), ("levels20", levels20(), 3, true)] {
        t.sub(&format!("onehot-{}", nm), |t| {
            let mut r = t.rng.clone();
            let mut c = ctx(&mut r, &p);
            let sk = c.gen_rlwe_sk();
            let s = skc(&sk);
            let mut buf = c.gen_fft_ctx();
            let ks: Vec<usize> = if all { (1..=kmax).collect() } else { vec![kmax] };
            for k in ks {
                let n = 1usize << k;
                let idx: Vec<usize> = if all { (0..n).collect() } else { if k > 12 { vec![n - 1, r.below(n)] } else { vec![0, 1, n / 2, n - 1, r.below(n), r.below(n)] } };
                for i in idx {
                    t.case(format!("n={} index={} poly={}", n, i, p.polynomial_size));
                    let bits = bit_decomposed_rgsw(i, n, &sk, &mut c);
                    t.eq(bits.len(), k, "number of index bits");
                    let m = enc_of(p.plaintext_modulus, &r.mods(p.polynomial_size, p.plaintext_modulus));
                    let b = enc_raw(&sk, &m, &mut c);
                    let o = demux_with(b.clone(), &bits, &c, &mut buf);
                    t.eq(o.len(), n, "number of outputs");
                    let z = vec![0u64; p.polynomial_size];
                    for j in 0..n { t.near(&s, &o[j], if j == i { &m } else { &z }, 42, &format!("slot {}", j)); }
                    let o = demux(&bits, &c, &mut buf);
                    t.eq(o.len(), n, "number of outputs");
                    let u = enc_of(p.plaintext_modulus, &mono(p.polynomial_size, 0, 1));
                    for j in 0..n { t.near(&s, &o[j], if j == i { &u } else { &z }, 42, &format!("unit slot {}", j)); }
                }
            }
        });
    }
}
pub fn c05(t: &mut T) {
    t.sub("tables", |t| {
        let mut r = t.rng.clone();
        for rep in 0..t.reps(60, 400) {
            let h = 1 + rep % 9;
            let d = if rep < 8 { 1 + rep } else if rep == 8 { 70000 } else if rep == 9 { 1 << 16 } else if rep % 12 == 0 { 200 + r.below(400) } else { 1 + r.below(70) };
            t.case(format!("h={} d={}", h, d));
            let nh = NaiveHash::new(h, d);
            t.eq((nh.h_count(), nh.input_domain(), nh.output_domain()), (h, d, h * d), "reported sizes");
            let mut seen = vec![false; h * d];
            for x in 0..d { for f in 0..h {
                let y = nh.hash(f, x);
                t.ok(y < h * d && !seen[y], || format!("position {} of function {} item {} repeated or out of range", y, f, x));
                seen[y] = true;
                t.eq(nh.checked_hash(f, x), Some(y), "checked lookup");
                let alt = match f { 0 => nh.hash0(x), 1 => nh.hash1(x), 2 => nh.hash2(x), _ => y };
                t.eq(alt, y, "hash0/1/2");
                let bound = if r.below(4) == 0 { usize::MAX - 1 } else { h * d + 2 };
                let w = 1 + r.below(bound);
                let (a, b) = nh.hash_to_tuple(f, x, w);
                t.ok(b < w && a as u128 * w as u128 + b as u128 == y as u128, || format!("row {} column {} for position {} width {}", a, b, y, w));
            } }
            for (f, x) in [(h, 0), (h + 1, 0), (0, d), (0, d + 1), (h, d), (h - 1, d), (h, d - 1), (0, usize::MAX), (usize::MAX, 0), (usize::MAX, usize::MAX)] { t.eq(nh.checked_hash(f, x), None, "out-of-range lookup"); }
            t.eq(nh.clone().hash(h - 1, d - 1), nh.hash(h - 1, d - 1), "clone");
        }
    });
    t.sub("shuffled", |t| {
        // with 60 positions the identity and a repeated table have negligible probability
        let (a, b) = (NaiveHash::new(2, 30), NaiveHash::new(2, 30));
        let va: V = (0..60).map(|k| a.hash(k % 2, k / 2) as u64).collect();
        let vb: V = (0..60).map(|k| b.hash(k % 2, k / 2) as u64).collect();
        t.case(format!("{:?} {:?}", va, vb));
        t.ok(va != vb, || "two tables are equal".into());
    });
    t.sub("no-function", |t| { t.case("h=0".into()); t.must_panic("zero hash functions", || NaiveHash::new(0, 4)); });
}
pub fn c06(t: &mut T) {
    t.sub("assignments", |t| {
        let mut r = t.rng.clone();
        for rep in 0..t.reps(4000, 60000) {
            let big = rep % 16 == 1;
            let huge = rep % 400 == 17;
            let h = 1 + r.below(if big { 9 } else { 4 });
            let cols = 1 + r.below(if big { 40 } else { 6 });
            let d = { let mut d = if huge { 300 + r.below(900) } else { 1 + r.below(if big { 60 } else { 12 }) }; while (h * d) % cols != 0 { d += 1; } d };
            let rows = h * d / cols;
            let tab = if rep % 10 == 0 { (0..h * d).collect() } else { r.perm(h * d) };
            let nh = from_tables(tab.clone(), h, d);
            let k = r.below(d.min(rows + 1) + 1);
            let items: Vec<usize> = r.perm(d).into_iter().take(k).collect();
            t.case(format!("h={} d={} cols={} table={:?} items={:?}", h, d, cols, tab, items));
            // an assignment the greedy rule cannot complete must be refused
            let mut taken = std::collections::HashSet::new();
            let mut fits = true;
            for i in &items { match (0..h).map(|f| tab[h * i + f] / cols).find(|x| !taken.contains(x)) { Some(x) => { taken.insert(x); } None => { fits = false; break; } } }
            match catch_unwind(AssertUnwindSafe(|| nh.hash_to_mapping(&items, cols))) {
                Err(_) => t.ok(!fits, || "refused a request whose items all fit".into()),
                Ok(m) => {
                    t.eq(m.len(), items.len(), "number of assigned rows");
                    for i in &items {
                        let mine: Vec<_> = m.iter().filter(|(_, v)| v.1 == *i).collect();
                        t.eq(mine.len(), 1, &format!("rows assigned to item {}", i));
                        let (row, (col, _)) = mine[0];
                        t.ok((0..h).any(|f| tab[h * i + f] == row * cols + col) && *col < cols, || format!("item {} assigned to ({}, {}), which is none of its positions", i, row, col));
                    }
                }
            }
        }
    });
}
fn shape(q: &ClientQuery) -> Vec<usize> {
    let (a, op, d) = query_parts(q);
    let mut v = vec![a.len()];
    for g in a.iter().chain([op]) { v.extend([g.polynomial_size().0, g.decomposition_level_count().0, g.decomposition_base_log().0, g.ciphertext_count().0]); }
    v.push(d.polynomial_size().0);
    v
}
fn comps(q: &ClientQuery) -> Vec<(V, V)> {
    let (a, op, d) = query_parts(q);
    let mut v = vec![];
    for g in a.iter().chain([op]) { v.extend(all_rows(g)); }
    v.push(both(d));
    v
}
pub fn c07(t: &mut T) {
    for (nm, p, rows, cols, hc) in [("single", par(64, 256), 1usize, 8usize, 1usize), ("batch", par_mixed(64, 16), 4, 4, 2), ("plain-rows", par_mixed2(128, 4), 3, 2, 1), ("many-rows", par(64, 16), 70, 2, 1)] {
        t.sub(&format!("queries-{}", nm), |t| {
            let mut r = t.rng.clone();
            let d = rows * cols / hc;
            let h = from_tables(r.perm(rows * cols), hc, d);
            let mut cl = Client::new(rows, cols, p.clone());
            reseed(&mut r, &mut cl.ctx);
            cl.sk = cl.ctx.gen_rlwe_sk();
            let s = skc(&cl.sk);
            let mut seen: std::collections::HashSet<V> = Default::default();
            let mut want: Option<Vec<usize>> = None;
            for rep in 0..t.reps(6, 20) {
                let k = if rep == 0 { 0 } else if rows == 1 { 1 } else { 1 + r.below(rows.min(d)) };
                let items: Vec<usize> = if rep == 1 { vec![0] } else { r.perm(d).into_iter().take(k).collect() };
                let map = match catch_unwind(AssertUnwindSafe(|| h.hash_to_mapping(&items, cols))) { Ok(m) => m, Err(_) => continue };
                if rows > 16 && rep > 2 { break; }
                let v = if rep == 2 { vec![0; p.polynomial_size] } else { r.mods(p.polynomial_size, p.plaintext_modulus) };
                for wr in [false, true] {
                    let (r1, k1) = (rep, items.len());
                    t.case(format!("{} write={} items={:?} round {}", nm, wr, items, r1));
                    let mut qs = if wr { cl.gen_write_query_batch(&items, &pl(&v), &h) } else { cl.gen_read_query_batch(&items, &h) };
                    t.eq(qs.len(), rows, "one query per row");
                    if rows == 1 && k1 == 1 { qs.push(if wr { cl.gen_write_query_one(items[0], &pl(&v), &h) } else { cl.gen_read_query_one(items[0], &h) }); }
                    for (row, q) in qs.iter().enumerate() {
                        let sh = shape(q);
                        if want.is_none() { want = Some(sh.clone()); }
                        t.eq(&sh, want.as_ref().unwrap(), "shape of a query");
                        let (a, op, dt) = query_parts(q);
                        t.eq(a.len(), nodes_log2(cols), "number of index bits");
                        for (m, b) in comps(q) {
                            // a fresh mask is uniform: no trivial or repeated mask, body not equal to its phase
                            t.ok(m.iter().filter(|x| **x == 0).count() <= 1 && m.iter().collect::<std::collections::HashSet<_>>().len() > m.len() / 2, || "a component has a trivial mask".into());
                            t.ok(seen.insert(m.clone()), || "a mask is shared between two components".into());
                            t.ok(b.iter().filter(|x| **x == 0).count() <= 1, || "a component has a trivial body".into());
                        }
                        // contents are encryptions of the right values, with noise
                        let rr = if row < rows { row } else { 0 };
                        let col = map.get(&rr).map(|c| c.0).unwrap_or(0);
                        let isw = wr && map.contains_key(&rr);
                        for (x, g) in a.iter().enumerate() { let bit = (col >> (a.len() - 1 - x)) & 1; check_rgsw(t, g, &s, &mono(p.polynomial_size, 0, 1 - bit as u64), 16, "index bit"); noisy(t, g, &s, 1 - bit as u64); }
                        check_rgsw(t, op, &s, &mono(p.polynomial_size, 0, isw as u64), 16, "operation flag");
                        noisy(t, op, &s, isw as u64);
                        let ph = phase(&s, dt);
                        let got = dec(&s, p.plaintext_modulus, dt);
                        if isw { t.eq(&got, &v, "written data"); }
                        t.ok(maxdist(&ph, &enc_of(p.plaintext_modulus, &got)) < 1 << 16 && ph != enc_of(p.plaintext_modulus, &got), || "data ciphertext carries no noise or too much".into());
                    }
                }
            }
        });
    }
}
// every row of the RGSW ciphertext carries encryption noise
fn noisy(t: &mut T, g: &RGSWCiphertext, s: &[u64], m: u64) {
    let (b, l) = (g.decomposition_base_log().0, g.decomposition_level_count().0);
    for k in 0..2 * l {
        let f = scale(&mono(s.len(), 0, m), 1u64 << (64 - b * (k / 2 + 1)));
        let want = if k % 2 == 0 { neg(&mul(&f, s)) } else { f };
        let e = sub(&phase(s, &g.get_nth_row(k)), &want);
        t.ok(e.iter().filter(|x| **x == 0).count() <= s.len() / 4, || format!("row {} carries no encryption noise", k));
    }
}
pub fn c08(t: &mut T) {
    for (nm, p, rows, cols, hc) in [("2x4h2", par(8, 256), 2usize, 4usize, 2usize), ("1x8h1", par_mixed(8, 16), 1, 8, 1), ("3x4h3", par(8, 256), 3, 4, 3), ("1x512h1", par(8, 256), 1, 512, 1), ("12x64h3", par(8, 256), 12, 64, 3), ("4x128h2", par(8, 4), 4, 128, 2), ("1x128h1", par(8, 4), 1, 128, 1), ("3x86h2", par(8, 4), 3, 86, 2), ("1x2048h1", par(8, 4), 1, 2048, 1), ("80x4h2", par(8, 4), 80, 4, 2), ("6x5h10", par(8, 256), 6, 5, 10), ("257x257h1", par(8, 4), 257, 257, 1)] {
        t.sub(&format!("layout-{}", nm), |t| {
            let mut r = t.rng.clone();
            for _ in 0..t.reps(1, 4) {
                let d = rows * cols / hc;
                let h = NaiveHash::new(hc, d);
                t.case(format!("rows={} cols={} h={} items={}", rows, cols, hc, d));
                let mut cl = Client::new(rows, cols, p.clone());
                reseed(&mut r, &mut cl.ctx);
                cl.sk = cl.ctx.gen_rlwe_sk();
                let s = skc(&cl.sk);
                let (pts, db) = cl.gen_dummy_database(&h);
                t.eq(pts.len(), d, "number of items");
                t.eq((db.len(), db.iter().all(|x| x.len() == cols)), (rows, true), "table size");
                for i in 0..d { for f in 0..hc {
                    let pos = h.hash(f, i);
                    let v = plv(&pts[i]);
                    t.eq(v.len(), p.polynomial_size, "item size");
                    t.ok(v.iter().all(|x| *x < p.plaintext_modulus), || format!("item {} is not a plaintext", i));
                    t.near(&s, &db[pos / cols][pos % cols], &enc_of(p.plaintext_modulus, &v), 20, &format!("entry of item {} under function {}", i, f));
                } }
                if d > 1 && p.polynomial_size >= 8 { t.ok(pts[0] != pts[1], || "items 0 and 1 are equal".into()); }
            }
        });
    }
    t.sub("setup", |t| {
        let h = NaiveHash::new(2, 8);
        let p = par(8, 256);
        t.case("setup_random_oram 4x4 h=2".into());
        let (cl, sv, pts) = setup_random_oram(4, 4, &h, p.clone());
        let s = skc(&cl.sk);
        let db = server_data(&sv);
        t.eq((pts.len(), db.len(), db[0].len(), cl.rows, cl.cols), (8, 4, 4, 4, 4), "sizes");
        for i in 0..8 { for f in 0..2 { let pos = h.hash(f, i); t.near(&s, &db[pos / 4][pos % 4], &enc_of(256, &plv(&pts[i])), 20, "server entry"); } }
        t.must_panic("a geometry that does not match the hash table", || setup_random_oram(4, 8, &h, p.clone()));
    });
}
