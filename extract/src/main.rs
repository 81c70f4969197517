//! Mechanical extractor: /repo/src/*.rs  ->  one Verus crate, annotated from /verif/specs.
//! Every rewriting rule is listed in DESIGN.md ("What the extraction changes").
mod mono;
mod norm;
mod print;
mod spec;

use quote::{quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet};
use syn::*;

pub struct FnInfo {
    pub key: String,
    pub module: String,
    pub self_ty: Option<String>,
    pub item: ImplItemFn, // free functions are converted to this shape
    pub free: bool,
}

fn ty_name(t: &Type) -> String {
    match t {
        Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
        _ => t.to_token_stream().to_string(),
    }
}

fn is_cfg_test(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| {
        a.path().is_ident("cfg") && {
            let s = a.meta.to_token_stream().to_string();
            s.contains("test") || s.contains("panacea_verif")
        }
    })
}

fn has_derive(attrs: &[Attribute], name: &str) -> bool {
    attrs.iter().any(|a| {
        a.path().is_ident("derive") && {
            let s = a.meta.to_token_stream().to_string();
            s.split(|c: char| !c.is_alphanumeric()).any(|w| w == name)
        }
    })
}

fn collect_use(t: &UseTree, prefix: Vec<Ident>, out: &mut Vec<(Vec<Ident>, Option<Ident>, bool)>) {
    match t {
        UseTree::Path(p) => {
            let mut pr = prefix;
            pr.push(p.ident.clone());
            collect_use(&p.tree, pr, out)
        }
        UseTree::Name(n) => {
            let mut pr = prefix;
            if n.ident != "self" {
                pr.push(n.ident.clone());
            }
            out.push((pr, None, false))
        }
        UseTree::Rename(r) => {
            let mut pr = prefix;
            pr.push(r.ident.clone());
            out.push((pr, Some(r.rename.clone()), false))
        }
        UseTree::Glob(_) => out.push((prefix, None, true)),
        UseTree::Group(g) => {
            for i in &g.items {
                collect_use(i, prefix.clone(), out)
            }
        }
    }
}

// the source of concrete-core that cargo builds with (the version of the lock file)
fn find_dep(src: &str) -> String {
    let lock = std::fs::read_to_string(format!("{}/../Cargo.lock", src)).unwrap_or_default();
    let mut ver = "1.0.2".to_string();
    let mut hit = false;
    for l in lock.lines() {
        if hit {
            if let Some(v) = l.strip_prefix("version = ") {
                ver = v.trim_matches('"').to_string();
            }
            hit = false;
        }
        if l == "name = \"concrete-core\"" {
            hit = true;
        }
    }
    let mut homes: Vec<String> = vec![];
    if let Ok(h) = std::env::var("CARGO_HOME") {
        homes.push(h);
    }
    if let Ok(h) = std::env::var("HOME") {
        homes.push(format!("{}/.cargo", h));
    }
    homes.push("/root/.cargo".into());
    for h in homes {
        if let Ok(rd) = std::fs::read_dir(format!("{}/registry/src", h)) {
            for e in rd.flatten() {
                let p = e.path().join(format!("concrete-core-{}", ver));
                if p.is_dir() {
                    return p.to_string_lossy().into_owned();
                }
            }
        }
    }
    String::new()
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let get = |n: &str| -> Option<String> {
        args.iter().position(|a| a == n).map(|i| args[i + 1].clone())
    };
    let src = get("--src").unwrap();
    let specs_dir = get("--specs").unwrap();
    let out_path = get("--out").unwrap();
    let dep = get("--dep").unwrap_or_else(|| find_dep(&src));
    let map_path = get("--map").unwrap();
    let lost: BTreeSet<String> = get("--lost")
        .map(|s| s.split(',').filter(|x| !x.is_empty()).map(|x| x.to_string()).collect())
        .unwrap_or_default();
    let probe: BTreeSet<String> = get("--probe")
        .map(|s| s.split(',').filter(|x| !x.is_empty()).map(|x| x.to_string()).collect())
        .unwrap_or_default();
    let only: Option<BTreeSet<String>> =
        get("--modules").map(|s| s.split(',').map(|x| x.to_string()).collect());

    let db = spec::load(&specs_dir);
    let modules: Vec<String> = db
        .order
        .iter()
        .filter(|m| only.as_ref().map_or(true, |o| o.contains(*m) || db.from.contains_key(*m)))
        .cloned()
        .collect();

    // ---- parse
    let mut files: BTreeMap<String, File> = BTreeMap::new();
    let mut errors: Vec<String> = vec![];
    for m in &modules {
        let p = match db.from.get(m) {
            Some(r) => format!("{}/{}", dep, r),
            None => format!("{}/{}.rs", src, m),
        };
        match std::fs::read_to_string(&p) {
            Ok(s) => match syn::parse_file(&s) {
                Ok(mut f) => {
                    if db.from.contains_key(m) {
                        mono::file(&mut f);
                        f.items.retain(|i| !matches!(i, Item::Use(_) | Item::Macro(_)));
                    }
                    files.insert(m.clone(), f);
                }
                Err(e) => errors.push(format!("parse {}: {}", p, e)),
            },
            Err(e) => errors.push(format!("read {}: {}", p, e)),
        }
    }

    // ---- collect functions
    let mut fns: BTreeMap<String, FnInfo> = BTreeMap::new();
    for (m, f) in &files {
        for it in &f.items {
            match it {
                Item::Fn(x) if !is_cfg_test(&x.attrs) => {
                    let key = format!("{}::{}", m, x.sig.ident);
                    fns.insert(
                        key.clone(),
                        FnInfo {
                            key,
                            module: m.clone(),
                            self_ty: None,
                            free: true,
                            item: ImplItemFn {
                                attrs: vec![],
                                vis: parse_quote!(pub),
                                defaultness: None,
                                sig: x.sig.clone(),
                                block: (*x.block).clone(),
                            },
                        },
                    );
                }
                Item::Impl(im) if !is_cfg_test(&im.attrs) => {
                    let t = ty_name(&im.self_ty);
                    for ii in &im.items {
                        if let ImplItem::Fn(x) = ii {
                            let tr = im.trait_.as_ref().map(|(_, p, _)| {
                                p.segments.last().unwrap().ident.to_string()
                            });
                            let key = match &tr {
                                Some(tr) => format!("{}::{}.{}::{}", m, t, tr, x.sig.ident),
                                None => format!("{}::{}::{}", m, t, x.sig.ident),
                            };
                            fns.insert(
                                key.clone(),
                                FnInfo {
                                    key,
                                    module: m.clone(),
                                    self_ty: Some(t.clone()),
                                    free: false,
                                    item: x.clone(),
                                },
                            );
                        }
                    }
                }
                _ => {}
            }
        }
    }

    // ---- which functions are new (no entry in the spec database): inlined at their call sites
    let mut new_fns: BTreeMap<String, (bool, ImplItemFn, Option<String>)> = BTreeMap::new();
    let mut new_keys: BTreeSet<String> = BTreeSet::new();
    for (k, fi) in &fns {
        if db.from.contains_key(&fi.module) {
            continue; // of a dependency only what is specified is taken
        }
        if !db.fns.contains_key(k) && !db.skip.contains(k) && !k.contains(".") {
            new_keys.insert(k.clone());
            // a method whose name is also that of a known function cannot be told apart at a call site
            let name = fi.item.sig.ident.to_string();
            let clash = !fi.free
                && (db.fns.keys().any(|f| f.rsplit("::").next() == Some(name.as_str()))
                    || db.prelude.contains(&format!("fn {}(", name))
                    || db.prelude.contains(&format!("fn {}<", name)));
            if clash {
                continue;
            }
            new_fns.insert(
                fi.item.sig.ident.to_string(),
                (fi.free, fi.item.clone(), fi.self_ty.clone()),
            );
        }
    }

    // ---- locks: where they are (they are erased, see norm::LockPass)
    let mut locks = norm::Locks::default();
    for f in files.values() {
        for it in &f.items {
            if let Item::Struct(s) = it {
                for fl in &s.fields {
                    if let Some(id) = &fl.ident {
                        if norm::is_lock_ty(&fl.ty) {
                            locks.fields.insert(id.to_string());
                        } else if norm::is_lock_vec(&fl.ty) {
                            locks.vec_fields.insert(id.to_string());
                        }
                    }
                }
            }
        }
    }
    for (k, fi) in &fns {
        if !fi.free || new_keys.contains(k) {
            continue;
        }
        let ps: Vec<Option<bool>> = fi
            .item
            .sig
            .inputs
            .iter()
            .map(|a| match a {
                FnArg::Typed(pt) if norm::is_lock_ty(&pt.ty) => {
                    let n = pt.pat.to_token_stream().to_string();
                    Some(db.fns.get(k).map_or(false, |s| s.lockmut.contains(&n)))
                }
                _ => None,
            })
            .collect();
        if ps.iter().any(|x| x.is_some()) {
            locks.params.insert(fi.item.sig.ident.to_string(), ps);
        }
    }
    for (k, s) in &db.fns {
        if s.anchors.contains_key("own") {
            locks.own_fns.insert(k.rsplit("::").next().unwrap().to_string());
        }
    }
    norm::LOCKS.set(locks).unwrap();

    // struct field types are widened; see DESIGN
    let mut body = String::new();
    let mut map: Vec<String> = vec![];
    let mut missing: Vec<String> = vec![];
    for k in db.fns.keys() {
        let m = k.split("::").next().unwrap();
        if modules.iter().any(|x| x == m) && !fns.contains_key(k) {
            missing.push(k.clone());
        }
    }

    let mut pr = print::Printer::new();
    pr.raw(&db.prelude);
    pr.raw("\nverus! {\n");
    for m in &modules {
        let Some(f) = files.get(m) else { continue };
        pr.raw(&format!("\npub mod {} {{\nuse vstd::prelude::*;\n#[allow(unused_imports)] use crate::shim::*;\n#[allow(unused_imports)] use crate::cc::{{AsRefSlice as _, AsMutSlice as _}};\n", m));
        if db.from.contains_key(m) {
            pr.raw("#[allow(unused_imports)] use crate::ring::*;\n#[allow(unused_imports)] use crate::cc::*;\n");
        }
        let ms = db.modules.get(m).cloned().unwrap_or_default();
        let mut seen_use: BTreeSet<String> = BTreeSet::new();
        for it in &f.items {
            match it {
                Item::Use(u) => {
                    let mut v = vec![];
                    collect_use(&u.tree, vec![], &mut v);
                    for (path, rename, glob) in v {
                        let strs: Vec<String> = path.iter().map(|i| i.to_string()).collect();
                        if strs.is_empty() || db.drop_use.iter().any(|d| strs.join("::").starts_with(d)) {
                            continue;
                        }
                        let root = match strs[0].as_str() {
                            "crate" => strs[1..].to_vec(),
                            "concrete_core" | "concrete_csprng" | "dyn_stack" | "rand" | "bitvec" | "rayon" => strs.clone(),
                            "std" | "core" => {
                                let mut s = strs.clone();
                                s[0] = "shim_std".into();
                                s
                            }
                            _ => continue,
                        };
                        let mut line = format!("use crate::{}", root.join("::"));
                        if glob {
                            line += "::*";
                        }
                        if let Some(r) = rename {
                            line += &format!(" as {}", r);
                        }
                        // modules outside the extraction are not imported
                        if strs[0] == "crate" && !modules.contains(&strs[1]) && strs.len() > 1 {
                            continue;
                        }
                        if seen_use.insert(line.clone()) {
                            pr.raw(&format!("#[allow(unused_imports)] {};\n", line));
                        }
                    }
                }
                Item::Struct(s) => {
                    if is_cfg_test(&s.attrs) || db.drop_items.contains(&format!("{}::struct:{}", m, s.ident)) {
                        continue;
                    }
                    let mut s2 = s.clone();
                    let clone = has_derive(&s.attrs, "Clone");
                    let copy = has_derive(&s.attrs, "Copy");
                    s2.attrs.clear();
                    s2.vis = parse_quote!(pub);
                    for fl in s2.fields.iter_mut() {
                        fl.attrs.clear();
                        fl.vis = parse_quote!(pub);
                        norm::erase_locks_ty(&mut fl.ty);
                    }
                    norm::paths(&mut Item::Struct(s2.clone()));
                    if db.opaque_types.contains(&format!("{}::{}", m, s.ident)) {
                        pr.raw("#[verifier::external_body]\n");
                    }
                    pr.tokens(s2.to_token_stream(), None);
                    emit_derives(&mut pr, &s.ident, &s.generics, clone, copy);
                }
                Item::Enum(s) => {
                    if is_cfg_test(&s.attrs) {
                        continue;
                    }
                    let mut s2 = s.clone();
                    let clone = has_derive(&s.attrs, "Clone");
                    let copy = has_derive(&s.attrs, "Copy");
                    s2.attrs.clear();
                    s2.vis = parse_quote!(pub);
                    for v in s2.variants.iter_mut() {
                        v.attrs.clear();
                        for fl in v.fields.iter_mut() {
                            fl.attrs.clear();
                        }
                    }
                    pr.tokens(s2.to_token_stream(), None);
                    emit_derives(&mut pr, &s.ident, &s.generics, clone, copy);
                }
                Item::Type(t) => {
                    let mut t = t.clone();
                    t.attrs.clear();
                    let mut i = Item::Type(t);
                    norm::paths(&mut i);
                    pr.tokens(i.to_token_stream(), None);
                }
                Item::Const(c) => {
                    let mut i = Item::Const(c.clone());
                    norm::paths(&mut i);
                    pr.tokens(i.to_token_stream(), None);
                }
                Item::Trait(t) => {
                    if db.drop_items.contains(&format!("{}::{}", m, t.ident)) {
                        continue;
                    }
                    let mut t = t.clone();
                    t.attrs.clear();
                    let mut i = Item::Trait(t);
                    norm::paths(&mut i);
                    pr.tokens(i.to_token_stream(), None);
                }
                Item::Fn(x) if !is_cfg_test(&x.attrs) => {
                    let key = format!("{}::{}", m, x.sig.ident);
                    emit_fn(&mut pr, &fns[&key], &db, &new_fns, &new_keys, &lost, &probe, &mut map);
                }
                Item::Impl(im) if !is_cfg_test(&im.attrs) => {
                    let t = ty_name(&im.self_ty);
                    let tr = im
                        .trait_
                        .as_ref()
                        .map(|(_, p, _)| p.segments.last().unwrap().ident.to_string());
                    let ikey = match &tr {
                        Some(tr) => format!("{}::{}.{}", m, t, tr),
                        None => format!("{}::{}", m, t),
                    };
                    if db.drop_items.contains(&ikey) {
                        continue;
                    }
                    if let Some(trn) = &tr {
                        // a trait impl is kept only when asked for
                        if !db.keep_items.contains(&ikey) {
                            let _ = trn;
                            continue;
                        }
                    }
                    // of a dependency, only what is under contract
                    if db.from.contains_key(m)
                        && !im.items.iter().any(
                            |i| matches!(i, ImplItem::Fn(x) if db.fns.contains_key(&format!("{}::{}", ikey, x.sig.ident))),
                        )
                    {
                        continue;
                    }
                    let mut im2 = im.clone();
                    im2.attrs.clear();
                    im2.items.clear();
                    let mut head = Item::Impl(im2);
                    norm::paths(&mut head);
                    let s = head.to_token_stream();
                    // print "impl<..> T {" without the empty body
                    pr.tokens_head(s);
                    pr.raw("{\n");
                    for ii in &im.items {
                        match ii {
                            ImplItem::Fn(x) => {
                                let key = format!("{}::{}", ikey, x.sig.ident);
                                emit_fn(&mut pr, &fns[&key], &db, &new_fns, &new_keys, &lost, &probe, &mut map);
                            }
                            other => pr.tokens(other.to_token_stream(), None),
                        }
                    }
                    if let Some(extra) = db.impl_extra.get(&ikey) {
                        pr.raw(extra);
                    }
                    pr.raw("\n}\n");
                }
                _ => {}
            }
        }
        pr.raw(&format!("\n// ---- ghost text of module {}\n", m));
        let l0 = pr.line();
        pr.raw(&ms);
        map.push(format!("{{\"key\":\"{}::<ghost>\",\"lo\":{},\"hi\":{},\"mode\":\"ghost\",\"loops\":0}}", m, l0, pr.line()));
        pr.raw("\n}\n");
    }
    pr.raw(&db.epilogue);
    pr.raw("\n} // verus!\nfn main() {}\n");
    body.push_str(&pr.out);
    std::fs::write(&out_path, &body).unwrap();
    let q = |v: &Vec<String>| -> String {
        v.iter()
            .map(|s| format!("\"{}\"", s.replace('\\', "\\\\").replace('"', "\\\"").replace('\n', " ")))
            .collect::<Vec<_>>()
            .join(",")
    };
    let newv: Vec<String> = new_keys.iter().cloned().collect();
    std::fs::write(
        &map_path,
        format!(
            "{{\"errors\":[{}],\"missing\":[{}],\"new\":[{}],\"fns\":[\n{}\n]}}",
            q(&errors),
            q(&missing),
            q(&newv),
            map.join(",\n")
        ),
    )
    .unwrap();
    let _ = quote!();
}

fn emit_derives(pr: &mut print::Printer, id: &Ident, g: &Generics, clone: bool, copy: bool) {
    if !clone {
        return;
    }
    let (a, b, c) = g.split_for_impl();
    let a = a.to_token_stream().to_string();
    let b = b.to_token_stream().to_string();
    let c = c.to_token_stream().to_string();
    pr.raw(&format!(
        "impl{a} Clone for {id}{b} {c} {{ #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self {{ unimplemented!() }} }}\n"
    ));
    if copy {
        pr.raw(&format!("impl{a} Copy for {id}{b} {c} {{}}\n"));
    }
}

#[allow(clippy::too_many_arguments)]
fn emit_fn(
    pr: &mut print::Printer,
    fi: &FnInfo,
    db: &spec::Db,
    new_fns: &BTreeMap<String, (bool, ImplItemFn, Option<String>)>,
    new_keys: &BTreeSet<String>,
    lost: &BTreeSet<String>,
    probe: &BTreeSet<String>,
    map: &mut Vec<String>,
) {
    let key = &fi.key;
    if db.skip.contains(key) || (db.from.contains_key(&fi.module) && !db.fns.contains_key(key)) {
        return;
    }
    let is_new = new_keys.contains(key);
    let empty = spec::FnSpec::default();
    let sp = db.fns.get(key).unwrap_or(&empty);
    let is_lost = lost.contains(key);
    let external = is_lost || is_new || sp.external;
    let mut item = fi.item.clone();
    item.attrs.clear();
    let is_trait_impl = key.contains('.');
    item.vis = if is_trait_impl { Visibility::Inherited } else { parse_quote!(pub) };
    item.sig.constness = None;
    let ret_iter = norm::returns_iter(&item.sig);
    let orig = item.sig.clone();
    norm::sig(&mut item.sig, sp);
    let mut nz = norm::Norm::new(key, sp, new_fns, fi.module.clone());
    let mut ok = true;
    let mut why = String::new();
    if !external {
        match nz.run(&mut item, ret_iter, &orig) {
            Ok(()) => {}
            Err(e) => {
                ok = false;
                why = e;
            }
        }
        // every loop / anchor mentioned by the spec must exist
        if ok {
            for a in sp.anchors.keys() {
                if !nz.anchors.contains(a) {
                    ok = false;
                    why = format!("anchor {} not found", a);
                }
            }
            if let Some(n) = sp.nloops {
                if n != nz.nloops {
                    ok = false;
                    why = format!("expected {} loops, found {}", n, nz.nloops);
                }
            }
        }
    }
    let mode = if is_new {
        "new"
    } else if sp.external {
        "assumed"
    } else if is_lost {
        "lost"
    } else if !ok {
        "lost"
    } else {
        "verified"
    };
    let l0 = pr.line();
    for a in &sp.attrs {
        pr.raw(&format!("{}\n", a));
    }
    if external || !ok {
        pr.raw("#[verifier::external_body]\n");
        item.block = parse_quote!({ __v_sig!(); unimplemented!() });
    } else {
        pr.raw("#[verifier::exec_allows_no_decreases_clause]\n#[verifier::loop_isolation(false)]\n");
        item.block.stmts.insert(0, parse_quote!(__v_sig!();));
    }
    let mut sp2 = sp.clone();
    if probe.contains(key) {
        sp2.anchors.entry("start".into()).or_default().push_str("\nproof { assert(false); }\n");
    }
    pr.tokens(item.to_token_stream(), Some(&sp2));
    pr.raw("\n");
    map.push(format!(
        "{{\"key\":\"{}\",\"lo\":{},\"hi\":{},\"mode\":\"{}\",\"loops\":{},\"why\":\"{}\",\"calls_new\":[{}]}}",
        key,
        l0,
        pr.line(),
        mode,
        nz.nloops,
        why.replace('"', "'").replace('\n', " "),
        nz.uninlined.iter().map(|s| format!("\"{}\"", s)).collect::<Vec<_>>().join(",")
    ));
}
