use std::collections::{BTreeMap, BTreeSet};

#[derive(Default, Clone, Debug)]
pub struct FnSpec {
    pub sig: String,
    pub ret: Option<String>,
    pub anchors: BTreeMap<String, String>, // "loop0" (invariants), "loop0.begin", "start", "ret", ...
    pub attrs: Vec<String>,
    pub external: bool,
    pub nloops: Option<usize>,
    pub panic_if: Option<String>,
    pub lockmut: BTreeSet<String>,
    pub opts: BTreeSet<String>,
}

#[derive(Default, Debug)]
pub struct Db {
    pub order: Vec<String>,
    pub prelude: String,
    pub epilogue: String,
    pub modules: BTreeMap<String, String>,
    pub fns: BTreeMap<String, FnSpec>,
    pub skip: BTreeSet<String>,
    pub drop_items: BTreeSet<String>,
    pub keep_items: BTreeSet<String>,
    pub opaque_types: BTreeSet<String>,
    pub drop_use: Vec<String>,
    pub impl_extra: BTreeMap<String, String>,
    pub from: BTreeMap<String, String>, // module -> file of concrete-core
}

/// Files <dir>/NN_<module>.vs. Lines that start with `#` followed by a known word are directives.
pub fn load(dir: &str) -> Db {
    let mut db = Db::default();
    let mut names: Vec<_> = std::fs::read_dir(dir)
        .unwrap()
        .map(|e| e.unwrap().path())
        .filter(|p| p.extension().map_or(false, |e| e == "vs"))
        .collect();
    names.sort();
    for p in names {
        let txt = std::fs::read_to_string(&p).unwrap();
        let mut module = String::new();
        enum T {
            None,
            Prelude,
            Epilogue,
            Ghost,
            Sig,
            Anchor(String),
            ImplExtra(String),
        }
        let mut cur = T::None;
        let mut f: Option<String> = None;
        for line in txt.lines() {
            let t = line.trim_start();
            let mut w = t.splitn(2, char::is_whitespace);
            let d = w.next().unwrap_or("");
            let rest = w.next().unwrap_or("").trim().to_string();
            let known = matches!(
                d,
                "#module" | "#prelude" | "#epilogue" | "#ghost" | "#fn" | "#sig" | "#at" | "#loop" | "#attr"
                    | "#external" | "#loops" | "#panic" | "#skip" | "#drop" | "#keep" | "#ret" | "#opaque"
                    | "#dropuse" | "#lockmut" | "#opt" | "#impl" | "#end" | "#from"
            );
            if !known {
                match &cur {
                    T::None => {}
                    T::Prelude => {
                        db.prelude.push_str(line);
                        db.prelude.push('\n')
                    }
                    T::Epilogue => {
                        db.epilogue.push_str(line);
                        db.epilogue.push('\n')
                    }
                    T::Ghost => {
                        let e = db.modules.entry(module.clone()).or_default();
                        e.push_str(line);
                        e.push('\n')
                    }
                    T::Sig => {
                        let e = &mut db.fns.get_mut(f.as_ref().unwrap()).unwrap().sig;
                        e.push_str(line);
                        e.push('\n')
                    }
                    T::ImplExtra(k) => {
                        let e = db.impl_extra.entry(k.clone()).or_default();
                        e.push_str(line);
                        e.push('\n')
                    }
                    T::Anchor(a) => {
                        let e = db
                            .fns
                            .get_mut(f.as_ref().unwrap())
                            .unwrap()
                            .anchors
                            .entry(a.clone())
                            .or_default();
                        e.push_str(line);
                        e.push('\n')
                    }
                }
                continue;
            }
            let q = |r: &str| format!("{}::{}", module, r);
            match d {
                "#module" => {
                    module = rest.clone();
                    if !db.order.contains(&module) {
                        db.order.push(module.clone());
                    }
                    cur = T::None
                }
                "#from" => {
                    db.from.insert(module.clone(), rest);
                }
                "#prelude" => cur = T::Prelude,
                "#epilogue" => cur = T::Epilogue,
                "#ghost" => cur = T::Ghost,
                "#fn" => {
                    let k = q(&rest);
                    if db.fns.contains_key(&k) {
                        panic!("duplicate #fn {}", k)
                    }
                    db.fns.insert(k.clone(), FnSpec::default());
                    f = Some(k);
                    cur = T::Sig
                }
                "#sig" => cur = T::Sig,
                "#at" => cur = T::Anchor(rest),
                "#loop" => cur = T::Anchor(format!("loop{}", rest)),
                "#end" => cur = T::None,
                "#impl" => cur = T::ImplExtra(q(&rest)),
                "#skip" => {
                    db.skip.insert(q(&rest));
                }
                "#drop" => {
                    db.drop_items.insert(q(&rest));
                }
                "#keep" => {
                    db.keep_items.insert(q(&rest));
                }
                "#opaque" => {
                    db.opaque_types.insert(q(&rest));
                }
                "#dropuse" => db.drop_use.push(rest),
                _ => {
                    let fs = db.fns.get_mut(f.as_ref().unwrap()).unwrap();
                    match d {
                        "#attr" => fs.attrs.push(rest),
                        "#external" => fs.external = true,
                        "#loops" => fs.nloops = Some(rest.parse().unwrap()),
                        "#panic" => fs.panic_if = Some(rest),
                        "#ret" => fs.ret = Some(rest),
                        "#lockmut" => {
                            fs.lockmut.insert(rest);
                        }
                        "#opt" => {
                            fs.opts.insert(rest);
                        }
                        _ => unreachable!(),
                    }
                }
            }
        }
    }
    db
}
