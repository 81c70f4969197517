//! Normalisation of one function body (see DESIGN.md, "What the extraction changes").
use crate::spec::FnSpec;
use proc_macro2::{Span, TokenStream};
use quote::{format_ident, quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use syn::visit::Visit;
use syn::visit_mut::{self, VisitMut};
use syn::*;

// ------------------------------------------------------------------ types and paths

struct EraseLocks;
impl VisitMut for EraseLocks {
    fn visit_type_mut(&mut self, t: &mut Type) {
        loop {
            let mut inner = None;
            if let Type::Path(p) = t {
                let s = p.path.segments.last().unwrap();
                let n = s.ident.to_string();
                if n == "Arc" || n == "RwLock" || n == "Mutex" {
                    if let PathArguments::AngleBracketed(a) = &s.arguments {
                        if let Some(GenericArgument::Type(x)) = a.args.first() {
                            inner = Some(x.clone());
                        }
                    }
                }
            }
            match inner {
                Some(x) => *t = x,
                None => break,
            }
        }
        visit_mut::visit_type_mut(self, t);
    }
}

pub fn erase_locks_ty(t: &mut Type) {
    EraseLocks.visit_type_mut(t)
}

/// a lock, or a reference to one
pub fn is_lock_ty(t: &Type) -> bool {
    match t {
        Type::Path(p) => {
            let n = p.path.segments.last().unwrap().ident.to_string();
            n == "Arc" || n == "RwLock" || n == "Mutex"
        }
        Type::Reference(r) => is_lock_ty(&r.elem),
        _ => false,
    }
}
/// a vector or slice of locks
pub fn is_lock_vec(t: &Type) -> bool {
    match t {
        Type::Path(p) => {
            let s = p.path.segments.last().unwrap();
            s.ident == "Vec"
                && matches!(&s.arguments, PathArguments::AngleBracketed(a)
                    if matches!(a.args.first(), Some(GenericArgument::Type(x)) if is_lock_ty(x)))
        }
        Type::Slice(x) => is_lock_ty(&x.elem),
        Type::Reference(r) => is_lock_vec(&r.elem),
        _ => false,
    }
}
/// where the locks of the program are: struct fields, and parameters of known functions
/// (Some(true): the erased parameter is a mutable reference)
#[derive(Default, Debug)]
pub struct Locks {
    pub fields: BTreeSet<String>,
    pub vec_fields: BTreeSet<String>,
    pub params: BTreeMap<String, Vec<Option<bool>>>,
    /// functions that state which cells of guarded data they touch
    pub own_fns: BTreeSet<String>,
}
pub static LOCKS: std::sync::OnceLock<Locks> = std::sync::OnceLock::new();

struct Paths;
impl VisitMut for Paths {
    fn visit_path_mut(&mut self, p: &mut Path) {
        if p.segments.len() > 1 {
            let r = p.segments[0].ident.to_string();
            match r.as_str() {
                "BitVec" if p.segments.len() == 2 => {
                    p.segments[0] = parse_quote!(Vec::<bool>);
                }
                "IntoIterator" if p.segments.len() == 2 && p.segments[1].ident == "into_iter" => {
                    *p = parse_quote!(crate::shim::It::of);
                }
                "concrete_core" | "concrete_csprng" | "dyn_stack" | "rand" | "bitvec" | "rayon" => {
                    p.leading_colon = None;
                    p.segments.insert(0, parse_quote!(crate));
                }
                "std" | "core" => {
                    p.leading_colon = None;
                    p.segments[0] = parse_quote!(shim_std);
                    p.segments.insert(0, parse_quote!(crate));
                }
                _ => {}
            }
        }
        visit_mut::visit_path_mut(self, p);
    }
    // a bit vector is the vector of its bits
    fn visit_type_mut(&mut self, t: &mut Type) {
        if let Type::Path(p) = t {
            let n = p.path.segments.last().unwrap().ident.to_string();
            if n == "BitVec" {
                *t = parse_quote!(Vec<bool>);
                return;
            }
            if n == "BitSlice" {
                *t = parse_quote!([bool]);
                return;
            }
        }
        visit_mut::visit_type_mut(self, t);
    }
}

pub fn paths(i: &mut Item) {
    Paths.visit_item_mut(i)
}

/// `impl Iterator<Item = X>`: the sequence of what it still yields (laziness is dropped)
struct IterTy(bool);
impl VisitMut for IterTy {
    fn visit_type_mut(&mut self, t: &mut Type) {
        if let Type::ImplTrait(it) = t {
            for b in &it.bounds {
                let TypeParamBound::Trait(tb) = b else { continue };
                let s = tb.path.segments.last().unwrap();
                if s.ident != "Iterator" && s.ident != "IntoIterator" {
                    continue;
                }
                if let PathArguments::AngleBracketed(a) = &s.arguments {
                    for g in &a.args {
                        if let GenericArgument::AssocType(at) = g {
                            if at.ident == "Item" {
                                let x = at.ty.clone();
                                *t = parse_quote!(crate::shim::It<#x>);
                                self.0 = true;
                                return;
                            }
                        }
                    }
                }
            }
        }
        visit_mut::visit_type_mut(self, t);
    }
}
/// does the function return an iterator?
pub fn returns_iter(s: &Signature) -> bool {
    let mut s = s.clone();
    let mut v = IterTy(false);
    if let ReturnType::Type(_, t) = &mut s.output {
        v.visit_type_mut(t);
    }
    v.0
}
pub fn sig(s: &mut Signature, sp: &FnSpec) {
    IterTy(false).visit_signature_mut(s);
    for a in s.inputs.iter_mut() {
        if let FnArg::Typed(pt) = a {
            if is_lock_ty(&pt.ty) {
                erase_locks_ty(&mut pt.ty);
                let mut t = (*pt.ty).clone();
                while let Type::Reference(r) = &t {
                    t = (*r.elem).clone();
                }
                let name = pt.pat.to_token_stream().to_string();
                *pt.ty = if sp.lockmut.contains(&name) { parse_quote!(&mut #t) } else { parse_quote!(&#t) };
            } else if is_lock_vec(&pt.ty) && sp.lockmut.contains(&pt.pat.to_token_stream().to_string()) {
                erase_locks_ty(&mut pt.ty);
                if let Type::Reference(r) = &mut *pt.ty {
                    r.mutability = Some(Default::default());
                }
            } else {
                erase_locks_ty(&mut pt.ty);
            }
        }
    }
    if let ReturnType::Type(_, t) = &mut s.output {
        erase_locks_ty(t);
        let is_never = matches!(**t, Type::Never(_));
        if !is_never {
            let t2 = t.clone();
            **t = Type::Verbatim(quote!(__v_ret!(#t2)));
        }
    }
    Paths.visit_signature_mut(s);
}

// ------------------------------------------------------------------ helpers

fn path_ident(e: &Expr) -> Option<String> {
    if let Expr::Path(p) = e {
        if p.qself.is_none() && p.path.segments.len() == 1 {
            return Some(p.path.segments[0].ident.to_string());
        }
    }
    None
}

fn strip_paren(e: &Expr) -> &Expr {
    match e {
        Expr::Paren(p) => strip_paren(&p.expr),
        Expr::Group(g) => strip_paren(&g.expr),
        _ => e,
    }
}

fn is_place(e: &Expr) -> bool {
    match strip_paren(e) {
        Expr::Path(_) => true,
        Expr::Field(f) => is_place(&f.base),
        Expr::Index(i) => is_place(&i.expr) && is_simple(&i.index),
        Expr::Unary(u) => matches!(u.op, UnOp::Deref(_)) && is_place(&u.expr),
        _ => false,
    }
}

fn is_simple(e: &Expr) -> bool {
    match strip_paren(e) {
        Expr::Path(_) | Expr::Lit(_) => true,
        Expr::Field(f) => is_simple(&f.base),
        Expr::Unary(u) => matches!(u.op, UnOp::Deref(_)) && is_simple(&u.expr),
        Expr::Reference(r) => is_simple(&r.expr),
        Expr::Call(c) => own_mark(e).is_some() && c.args.iter().all(is_simple),
        _ => false,
    }
}
/// `__v_own(write, row, element)` / `__v_ownrow(write, row)`: an index into what a lock guards
fn own_mark(e: &Expr) -> Option<(bool, Expr, Option<Expr>)> {
    if let Expr::Call(c) = e {
        let n = path_ident(&c.func)?;
        if n == "__v_own" || n == "__v_ownrow" {
            let w = c.args[0].to_token_stream().to_string() == "true";
            return Some((w, c.args[1].clone(), if n == "__v_own" { Some(c.args[2].clone()) } else { None }));
        }
    }
    None
}

fn last_method(e: &Expr) -> Option<String> {
    if let Expr::MethodCall(m) = strip_paren(e) {
        return Some(m.method.to_string());
    }
    None
}

fn pexpr(s: &str) -> Expr {
    parse_str(s).unwrap_or_else(|e| panic!("internal parse `{}`: {}", s, e))
}

struct HasEarlyExit(bool);
impl<'a> Visit<'a> for HasEarlyExit {
    fn visit_expr_return(&mut self, _: &'a ExprReturn) {
        self.0 = true
    }
    fn visit_expr_try(&mut self, _: &'a ExprTry) {
        self.0 = true
    }
    fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
}

struct Subst<'a> {
    name: &'a str,
    by: &'a Expr,
    n: usize,
}
impl VisitMut for Subst<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if path_ident(e).as_deref() == Some(self.name) {
            *e = self.by.clone();
            self.n += 1;
            return;
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        // substitute inside comma separated macro arguments
        if let Ok(mut v) = m.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated) {
            let n0 = self.n;
            for e in v.iter_mut() {
                self.visit_expr_mut(e);
            }
            if self.n > n0 {
                m.tokens = v.to_token_stream();
            }
        }
    }
    fn visit_field_value_mut(&mut self, f: &mut FieldValue) {
        if f.colon_token.is_none() {
            if let Member::Named(id) = &f.member {
                if id == self.name {
                    f.colon_token = Some(Default::default());
                }
            }
        }
        visit_mut::visit_field_value_mut(self, f);
    }
}

fn mentions(b: &TokenStream, name: &str) -> usize {
    let mut n = 0;
    for t in b.clone() {
        match t {
            proc_macro2::TokenTree::Ident(i) => {
                if i == name {
                    n += 1
                }
            }
            proc_macro2::TokenTree::Group(g) => n += mentions(&g.stream(), name),
            _ => {}
        }
    }
    n
}

fn closure_parts(c: &ExprClosure) -> (Vec<Pat>, Expr) {
    (c.inputs.iter().cloned().collect(), (*c.body).clone())
}

fn let_pat(p: &Pat, v: Expr) -> Stmt {
    // closure parameter pattern -> let statement
    parse_quote!(let #p = #v;)
}

fn beta(c: &ExprClosure, args: Vec<Expr>) -> Expr {
    let (ps, body) = closure_parts(c);
    let mut st: Vec<Stmt> = vec![];
    for (p, a) in ps.iter().zip(args) {
        st.push(let_pat(p, a));
    }
    // flatten a block body
    match &body {
        Expr::Block(b) if b.attrs.is_empty() && b.label.is_none() => {
            let ss = &b.block.stmts;
            parse_quote!({ #(#st)* #(#ss)* })
        }
        _ => parse_quote!({ #(#st)* #body }),
    }
}

// ------------------------------------------------------------------ the normaliser

pub struct Ix {
    pre: Vec<Stmt>,
    len: Expr,
    inv: Vec<String>,
    elem: Box<dyn Fn(Expr) -> Expr>,
}

pub struct Norm<'a> {
    key: String,
    sp: &'a FnSpec,
    new_fns: &'a BTreeMap<String, (bool, ImplItemFn, Option<String>)>,
    pub anchors: BTreeSet<String>,
    par: BTreeSet<String>,
    par_next: bool,
    pub nloops: usize,
    pub uninlined: BTreeSet<String>,
    lock_own: BTreeSet<String>,
    lock_vecs: BTreeSet<String>,
    ref_vars: BTreeSet<String>,
    tensor_vars: BTreeSet<String>,
    tmp: usize,
    kinds: BTreeMap<&'static str, usize>,
    err: Option<String>,
}

const CHAIN: &[&str] = &[
    "map", "rev", "zip", "skip", "take", "enumerate", "iter", "iter_mut", "into_iter", "par_iter", "into_par_iter",
    "cloned", "copied", "zip_checked",
];
const IXM: &[&str] = &[
    "coefficient_iter_mut", "coefficient_iter", "ciphertext_iter", "ciphertext_iter_mut", "level_matrix_iter",
    "row_iter", "plaintext_iter", "monomial_iter", "polynomial_iter", "subtensor_iter_mut", "level_matrix_iter_mut", "row_iter_mut",
];
const IXRECV: &[&str] = &["as_tensor", "as_mut_tensor", "as_view", "as_mut_view", "as_polynomial", "as_mut_polynomial"];

impl<'a> Norm<'a> {
    pub fn new(
        key: &str,
        sp: &'a FnSpec,
        new_fns: &'a BTreeMap<String, (bool, ImplItemFn, Option<String>)>,
        _module: String,
    ) -> Self {
        Norm {
            key: key.into(),
            sp,
            new_fns,
            anchors: BTreeSet::new(),
            par: BTreeSet::new(),
            par_next: false,
            nloops: 0,
            uninlined: BTreeSet::new(),
            ref_vars: BTreeSet::new(),
            tensor_vars: BTreeSet::new(),
            tmp: 0,
            kinds: BTreeMap::new(),
            lock_own: BTreeSet::new(),
            lock_vecs: BTreeSet::new(),
            err: None,
        }
    }

    /// element type of the vector a loop builds, when the contract gives it (`#opt lty<n>=<type>`)
    fn lty(&self, id: usize) -> Option<Type> {
        self.vty("lty", id)
    }
    /// the same for the second vector of an `unzip` (`#opt dty<n>=<type>`)
    fn vty(&self, k: &str, id: usize) -> Option<Type> {
        let p = format!("{}{}=", k, id);
        self.sp.opts.iter().find_map(|o| o.strip_prefix(&p)).and_then(|t| syn::parse_str(t).ok())
    }
    // names that specifications may mention are numbered per kind
    fn fresh_of(&mut self, kind: &'static str) -> usize {
        let c = self.kinds.entry(kind).or_insert(0);
        *c += 1;
        *c - 1
    }
    fn fresh(&mut self) -> usize {
        self.tmp += 1;
        self.tmp
    }

    pub fn run(&mut self, f: &mut ImplItemFn, ret_iter: bool, orig: &Signature) -> std::result::Result<(), String> {
        for a in &orig.inputs {
            if let FnArg::Typed(pt) = a {
                let n = pt.pat.to_token_stream().to_string();
                if is_lock_ty(&pt.ty) {
                    self.lock_own.insert(n);
                } else if is_lock_vec(&pt.ty) {
                    self.lock_vecs.insert(n);
                }
            }
        }
        if ret_iter {
            if let Some(Stmt::Expr(e, None)) = f.block.stmts.last_mut() {
                let x = e.clone();
                *e = parse_quote!(crate::shim::It::of(#x.collect()));
            }
        }
        for a in &f.sig.inputs {
            if let FnArg::Typed(pt) = a {
                let n = pt.pat.to_token_stream().to_string().replace("mut ", "");
                if let Type::Path(p) = &*pt.ty {
                    if p.path.segments.last().unwrap().ident == "Tensor" {
                        self.tensor_vars.insert(n.clone());
                    }
                }
                if let Type::Reference(r) = &*pt.ty {
                    self.ref_vars.insert(n.clone());
                    if let Type::Path(p) = &*r.elem {
                        if p.path.segments.last().unwrap().ident == "Tensor" {
                            self.tensor_vars.insert(n);
                        }
                    }
                }
            }
        }
        // 1. helper functions the database does not know are inlined
        for _ in 0..6 {
            let mut p = InlineNew { n: self, changed: false };
            p.visit_block_mut(&mut f.block);
            let ch = p.changed;
            if !ch {
                break;
            }
        }
        // 2. macros
        MacroPass { n: self }.visit_block_mut(&mut f.block);
        // 3. locks
        LockPass { own: self.lock_own.clone(), vecs: self.lock_vecs.clone() }.visit_block_mut(&mut f.block);
        // 4. let-bound closures and iterators
        LetInline.visit_block_mut(&mut f.block);
        Beta.visit_block_mut(&mut f.block);
        // 5. misc expression rewrites
        Misc { opt_fields: self.sp.opts.iter().filter_map(|o| o.strip_prefix("optclone:")).flat_map(|o| o.split(',').map(|x| x.to_string()).collect::<Vec<_>>()).collect(), world: self.sp.opts.contains("world"), c64: self.sp.opts.contains("c64"), flt: HashSet::new() }.visit_block_mut(&mut f.block);
        Paths.visit_block_mut(&mut f.block);
        // 6. loops
        let mut lp = LoopPass { n: self };
        lp.visit_block_mut(&mut f.block);
        let mut ml = MarkLoops;
        ml.visit_block_mut(&mut f.block);
        self.anchors.insert("own".into());
        let mut op = OwnPass { sp: self.sp, par: self.par.clone(), lp: LockPass { own: self.lock_own.clone(), vecs: self.lock_vecs.clone() }, stack: vec![], err: None };
        op.visit_block_mut(&mut f.block);
        if let Some(e) = op.err {
            self.err.get_or_insert(e);
        }
        // 7. anchors
        self.place_anchors(f);
        match self.err.take() {
            Some(e) => Err(e),
            None => Ok(()),
        }
    }

    fn place_anchors(&mut self, f: &mut ImplItemFn) {
        let mut want: Vec<(bool, String, usize, String)> = vec![];
        for k in self.sp.anchors.keys() {
            let (after, rest) = if let Some(r) = k.strip_prefix("after:") {
                (true, r)
            } else if let Some(r) = k.strip_prefix("before:") {
                (false, r)
            } else {
                continue;
            };
            let (nm, idx) = match rest.split_once('#') {
                Some((a, b)) => (a.to_string(), b.parse::<usize>().unwrap_or(0)),
                None => (rest.to_string(), 0),
            };
            want.push((after, nm, idx, k.clone()));
        }
        let tys: HashMap<String, Type> = self.sp.opts.iter().filter_map(|o| o.strip_prefix("ty:")).filter_map(|o| o.split_once('=')).filter_map(|(a, b)| syn::parse_str(b).ok().map(|t| (a.to_string(), t))).collect();
        if !tys.is_empty() {
            LetTypes(tys).visit_block_mut(&mut f.block);
        }
        let mut pa = PlaceAnchors { want, counts: HashMap::new(), found: BTreeSet::new() };
        pa.visit_block_mut(&mut f.block);
        self.anchors.extend(pa.found);
        // start / ret
        let at = |s: &str| -> Stmt { parse_quote!(__v_at!(#s);) };
        if self.sp.anchors.contains_key("ret") {
            let has_tail = matches!(f.block.stmts.last(), Some(Stmt::Expr(_, None)));
            let tail_ctl = matches!(
                f.block.stmts.last(),
                Some(Stmt::Expr(Expr::While(_) | Expr::ForLoop(_) | Expr::Loop(_), None))
            );
            if has_tail && !tail_ctl {
                if let Some(Stmt::Expr(e, None)) = f.block.stmts.pop() {
                    f.block.stmts.push(parse_quote!(let __r = #e;));
                    f.block.stmts.push(at("ret"));
                    f.block.stmts.push(Stmt::Expr(parse_quote!(__r), None));
                }
            } else {
                f.block.stmts.push(at("ret"));
            }
        }
        self.anchors.insert("ret".into());
        self.anchors.insert("start".into());
        f.block.stmts.insert(0, at("start"));
    }

    // ---------------------------------------------------------- iterator chains
    fn ix(&mut self, e: &Expr) -> Option<Ix> {
        let e = strip_paren(e);
        match e {
            Expr::Range(r) => {
                let id = self.fresh();
                let (lo, hi) = (r.start.clone()?, r.end.clone()?);
                let mut pre: Vec<Stmt> = vec![];
                let mut bind = |nm: &str, x: &Expr| -> Expr {
                    if is_simple(x) {
                        x.clone()
                    } else {
                        let v = format_ident!("__{}{}", nm, id);
                        pre.push(parse_quote!(let #v = #x;));
                        parse_quote!(#v)
                    }
                };
                let lo = bind("lo", &lo);
                let hi = bind("hi", &hi);
                let len: Expr = match r.limits {
                    RangeLimits::HalfOpen(_) => {
                        if lo.to_token_stream().to_string() == "0" {
                            hi
                        } else {
                            parse_quote!(if #hi > #lo { #hi - #lo } else { 0 })
                        }
                    }
                    RangeLimits::Closed(_) => parse_quote!(if #hi >= #lo { #hi - #lo + 1 } else { 0 }),
                };
                let zero = lo.to_token_stream().to_string() == "0";
                Some(Ix {
                    pre,
                    len,
                    inv: vec![],
                    elem: Box::new(move |k| if zero { k } else { parse_quote!(#lo + #k) }),
                })
            }
            Expr::Reference(r) => {
                let x = (*r.expr).clone();
                let m = r.mutability.is_some();
                // &mut *foo.data , &*foo.data
                let x = match strip_paren(&x) {
                    Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) => (*u.expr).clone(),
                    y => y.clone(),
                };
                self.byref(&x, m)
            }
            Expr::Path(_) | Expr::Field(_) => {
                let n = path_ident(e);
                if let Some(n) = &n {
                    if self.ref_vars.contains(n) {
                        return self.byref(e, false);
                    }
                }
                self.byval(e)
            }
            Expr::Macro(m) if m.mac.path.is_ident("izip") => {
                let v = m.mac.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated).ok()?;
                let mut xs: Vec<Ix> = vec![];
                for a in v.iter() {
                    xs.push(match self.ix(a) {
                        Some(x) => x,
                        None => self.byref(a, false)?,
                    });
                }
                self.zipn(xs)
            }
            Expr::MethodCall(m) => {
                let name = m.method.to_string();
                match name.as_str() {
                    "iter" | "par_iter" => {
                        let r = strip_paren(&m.receiver).clone();
                        self.byref(&r, false)
                    }
                    "iter_mut" => {
                        let r = strip_paren(&m.receiver).clone();
                        self.byref(&r, true)
                    }
                    "into_iter" | "into_par_iter" => {
                        let r = strip_paren(&m.receiver).clone();
                        match &r {
                            Expr::Range(_) | Expr::MethodCall(_) | Expr::Reference(_) => self.ix(&r),
                            _ => {
                                if let Some(n) = path_ident(&r) {
                                    if self.ref_vars.contains(&n) {
                                        return self.byref(&r, false);
                                    }
                                }
                                self.byval(&r)
                            }
                        }
                    }
                    "collect" | "by_ref" => self.ix(&m.receiver),
                    "cloned" | "copied" => {
                        let b = self.ix(&m.receiver)?;
                        let be = b.elem;
                        Some(Ix { pre: b.pre, len: b.len, inv: b.inv, elem: Box::new(move |k| {
                            let e = be(k);
                            match &e {
                                Expr::Reference(r) => (*r.expr).clone(),
                                _ => parse_quote!(*#e),
                            }
                        }) })
                    }
                    "rev" => {
                        let b = self.ix(&m.receiver)?;
                        let id = self.fresh();
                        let l = format_ident!("__len{}", id);
                        let mut pre = b.pre;
                        let bl = b.len;
                        pre.push(parse_quote!(let #l: usize = #bl;));
                        let be = b.elem;
                        let l2 = l.clone();
                        Some(Ix {
                            pre,
                            len: parse_quote!(#l),
                            inv: b.inv,
                            elem: Box::new(move |k| be(parse_quote!((#l2 - 1 - #k)))),
                        })
                    }
                    "skip" => {
                        let b = self.ix(&m.receiver)?;
                        let id = self.fresh();
                        let l = format_ident!("__len{}", id);
                        let s = format_ident!("__sk{}", self.fresh_of("sk"));
                        let a = m.args.first()?.clone();
                        let mut pre = b.pre;
                        let bl = b.len;
                        pre.push(parse_quote!(let #l: usize = #bl;));
                        pre.push(parse_quote!(let #s: usize = #a;));
                        let be = b.elem;
                        let s2 = s.clone();
                        Some(Ix {
                            pre,
                            len: parse_quote!(if #l > #s { #l - #s } else { 0 }),
                            inv: b.inv,
                            elem: Box::new(move |k| be(parse_quote!((#s2 + #k)))),
                        })
                    }
                    "take" => {
                        let b = self.ix(&m.receiver)?;
                        let id = self.fresh();
                        let l = format_ident!("__len{}", id);
                        let s = format_ident!("__tk{}", self.fresh_of("tk"));
                        let a = m.args.first()?.clone();
                        let mut pre = b.pre;
                        let bl = b.len;
                        pre.push(parse_quote!(let #l: usize = #bl;));
                        pre.push(parse_quote!(let #s: usize = #a;));
                        Some(Ix { pre, len: parse_quote!(if #l > #s { #s } else { #l }), inv: b.inv, elem: b.elem })
                    }
                    "enumerate" => {
                        let b = self.ix(&m.receiver)?;
                        let be = b.elem;
                        Some(Ix {
                            pre: b.pre,
                            len: b.len,
                            inv: b.inv,
                            elem: Box::new(move |k| {
                                let e = be(k.clone());
                                parse_quote!((#k, #e))
                            }),
                        })
                    }
                    "zip" | "zip_checked" => {
                        let a = self.ix(&m.receiver)?;
                        let arg = m.args.first()?.clone();
                        let b = self.ix(&arg)?;
                        self.zipn(vec![a, b])
                    }
                    "map" => {
                        let b = self.ix(&m.receiver)?;
                        let f = strip_paren(m.args.first()?).clone();
                        let be = b.elem;
                        match f {
                            Expr::Closure(c) => Some(Ix {
                                pre: b.pre,
                                len: b.len,
                                inv: b.inv,
                                elem: Box::new(move |k| beta(&c, vec![be(k)])),
                            }),
                            other => Some(Ix {
                                pre: b.pre,
                                len: b.len,
                                inv: b.inv,
                                elem: Box::new(move |k| {
                                    let e = be(k);
                                    parse_quote!(#other(#e))
                                }),
                            }),
                        }
                    }
                    x if IXM.contains(&x) => {
                        let r = m.receiver.clone();
                        let len = format_ident!("{}_len", x);
                        let at = format_ident!("{}_at", x);
                        let r2 = r.clone();
                        let a = m.args.clone();
                        Some(Ix {
                            pre: vec![],
                            len: parse_quote!(#r.#len(#a)),
                            inv: vec![],
                            elem: Box::new(move |k| if a.is_empty() { parse_quote!(#r2.#at(#k)) } else { parse_quote!(#r2.#at(#a, #k)) }),
                        })
                    }
                    "decompose" => {
                        // SignedDecompositionIter: stateful
                        let v = format_ident!("__it{}", self.fresh_of("it"));
                        let v2 = v.clone();
                        Some(Ix {
                            pre: vec![parse_quote!(let mut #v = #e;)],
                            len: parse_quote!(#v.it_len()),
                            inv: vec![],
                            elem: Box::new(move |k| parse_quote!(#v2.it_next(#k))),
                        })
                    }
                    _ => None,
                }
            }
            Expr::Call(_) => None,
            _ => None,
        }
    }

    fn byref(&mut self, r: &Expr, mutable: bool) -> Option<Ix> {
        // the slice of a tensor has the elements of the tensor
        if let Expr::MethodCall(m) = strip_paren(r) {
            if (m.method == "as_mut_slice" || m.method == "as_slice")
                && last_method(&m.receiver).map_or(false, |x| x == "as_tensor" || x == "as_mut_tensor")
            {
                let x = (*m.receiver).clone();
                return self.byref(&x, mutable);
            }
        }
        let ixroute = match last_method(r) {
            Some(m) => IXRECV.contains(&m.as_str()),
            None => path_ident(r).map_or(false, |n| self.tensor_vars.contains(&n)),
        };
        if ixroute {
            let mut pre: Vec<Stmt> = vec![];
            let mut rr = strip_paren(r).clone();
            if !mutable {
                // a.f().g().iter(): the temporary a.f() lives as long as the loop
                if let Expr::MethodCall(m) = &mut rr {
                    if let Expr::MethodCall(_) = strip_paren(&m.receiver) {
                        let v = format_ident!("__h{}", self.fresh_of("h"));
                        let inner = (*m.receiver).clone();
                        pre.push(parse_quote!(let #v = #inner;));
                        m.receiver = Box::new(parse_quote!(#v));
                    }
                }
            }
            let x = rr.clone();
            let y = rr.clone();
            return Some(if mutable {
                Ix {
                    pre: vec![],
                    len: parse_quote!(#x.iter_mut_len()),
                    inv: vec![],
                    elem: Box::new(move |k| parse_quote!(#y.iter_mut_at(#k))),
                }
            } else {
                Ix {
                    pre,
                    len: parse_quote!(#x.iter_len()),
                    inv: vec![],
                    elem: Box::new(move |k| parse_quote!(#y.iter_at(#k))),
                }
            });
        }
        let mut pre = vec![];
        // X.as_mut_slice() / as_slice(): plain place underneath
        let mut r = r.clone();
        loop {
            let m = match strip_paren(&r) {
                Expr::MethodCall(m) if (m.method == "as_mut_slice" || m.method == "as_slice") && m.args.is_empty() => {
                    (*m.receiver).clone()
                }
                _ => break,
            };
            r = m;
        }
        let place = if is_place(&r) {
            strip_paren(&r).clone()
        } else {
            let v = format_ident!("__s{}", self.fresh());
            pre.push(parse_quote!(let #v = #r;));
            parse_quote!(#v)
        };
        let p2 = place.clone();
        Some(Ix {
            pre,
            len: parse_quote!(#place.len()),
            inv: vec![],
            elem: Box::new(move |k| if mutable { parse_quote!(&mut #p2[#k]) } else { parse_quote!(&#p2[#k]) }),
        })
    }

    fn byval(&mut self, e: &Expr) -> Option<Ix> {
        let v = format_ident!("__v{}", self.fresh_of("v"));
        let v2 = v.clone();
        Some(Ix {
            pre: vec![parse_quote!(let mut #v = #e;)],
            len: parse_quote!(#v.len()),
            inv: vec![format!("{v}@ == __ENTRY__{v}.skip(__K__ as int)")],
            elem: Box::new(move |_| parse_quote!(crate::shim::take_first(&mut #v2))),
        })
    }

    fn zipn(&mut self, xs: Vec<Ix>) -> Option<Ix> {
        let mut pre = vec![];
        let mut inv = vec![];
        let mut lens: Vec<Ident> = vec![];
        let mut elems: Vec<Box<dyn Fn(Expr) -> Expr>> = vec![];
        for x in xs {
            let l = format_ident!("__zl{}", self.fresh());
            pre.extend(x.pre);
            let xl = x.len;
            pre.push(parse_quote!(let #l: usize = #xl;));
            inv.extend(x.inv);
            lens.push(l);
            elems.push(x.elem);
        }
        let mut len: Expr = {
            let l = &lens[0];
            parse_quote!(#l)
        };
        for l in &lens[1..] {
            len = parse_quote!(crate::shim::min_usize(#len, #l));
        }
        Some(Ix {
            pre,
            len,
            inv,
            elem: Box::new(move |k| {
                let es: Vec<Expr> = elems.iter().map(|f| f(k.clone())).collect();
                parse_quote!((#(#es),*))
            }),
        })
    }
}

// ------------------------------------------------------------------ passes

struct InlineNew<'b, 'a> {
    n: &'b mut Norm<'a>,
    changed: bool,
}

impl InlineNew<'_, '_> {
    fn try_inline(&mut self, name: &str, recv: Option<&Expr>, args: Vec<Expr>) -> Option<Expr> {
        let (_free, item, _) = self.n.new_fns.get(name)?;
        let mut ee = HasEarlyExit(false);
        ee.visit_block(&item.block);
        if ee.0 {
            self.n.uninlined.insert(name.into());
            return None;
        }
        let id = self.n.fresh();
        let gens: BTreeSet<String> = item.sig.generics.type_params().map(|t| t.ident.to_string()).collect();
        let mut st: Vec<Stmt> = vec![];
        let mut body = item.block.clone();
        let mut ai = 0;
        let mut lets: Vec<Stmt> = vec![];
        for a in &item.sig.inputs {
            match a {
                FnArg::Receiver(r) => {
                    let rv = match recv {
                        Some(r) => r.clone(),
                        None => {
                            let x = args.get(ai)?.clone();
                            ai += 1;
                            x
                        }
                    };
                    if is_place(&rv) {
                        Subst { name: "self", by: &rv, n: 0 }.visit_block_mut(&mut body);
                    } else {
                        let v = format_ident!("__self{}", id);
                        let e: Expr = if r.reference.is_some() {
                            if r.mutability.is_some() {
                                parse_quote!(&mut #rv)
                            } else {
                                parse_quote!(&#rv)
                            }
                        } else {
                            rv
                        };
                        st.push(parse_quote!(let #v = #e;));
                        Subst { name: "self", by: &parse_quote!(#v), n: 0 }.visit_block_mut(&mut body);
                    }
                }
                FnArg::Typed(pt) => {
                    let x = args.get(ai)?.clone();
                    let v = format_ident!("__a{}_{}", id, ai);
                    ai += 1;
                    let t = &pt.ty;
                    let ts = t.to_token_stream();
                    let generic = ts.to_string().contains("impl ") || gens.iter().any(|g| mentions(&ts, g) > 0) || is_lock_ty(t);
                    let p = &pt.pat;
                    if is_lock_ty(t) {
                        // lock-erased parameters keep standing for the caller's place
                        let nm = p.to_token_stream().to_string();
                        let pl = strip_ref_clone(&x);
                        Subst { name: &nm, by: &pl, n: 0 }.visit_block_mut(&mut body);
                        continue;
                    }
                    let simple_same = path_ident(&x).map_or(false, |n| p.to_token_stream().to_string() == n);
                    if simple_same {
                        continue;
                    }
                    st.push(parse_quote!(let #v = #x;));
                    if generic || !matches!(**t, Type::Reference(_)) {
                        lets.push(parse_quote!(let #p = #v;));
                    } else {
                        lets.push(parse_quote!(let #p: #t = #v;));
                    }
                    if matches!(**t, Type::Reference(_)) {
                        self.n.ref_vars.insert(p.to_token_stream().to_string());
                    }
                }
            }
        }
        self.changed = true;
        let ss = &body.stmts;
        Some(parse_quote!({ #(#st)* #(#lets)* #(#ss)* }))
    }
}

impl VisitMut for InlineNew<'_, '_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        let rep = match e {
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                    let last = segs.last().unwrap().clone();
                    let okp = segs.len() == 1
                        || segs[0] == "Self"
                        || segs[0] == "crate"
                        || segs[0] == "super"
                        || segs[0] == "self"
                        || (segs.len() == 2
                            && self.n.new_fns.get(&last).map_or(false, |x| x.2.as_deref() == Some(segs[0].as_str())));
                    if okp && self.n.new_fns.contains_key(&last) {
                        self.try_inline(&last, None, c.args.iter().cloned().collect())
                    } else {
                        None
                    }
                } else {
                    None
                }
            }
            Expr::MethodCall(m) => {
                let name = m.method.to_string();
                match self.n.new_fns.get(&name) {
                    Some((false, _, _)) => {
                        let r = (*m.receiver).clone();
                        self.try_inline(&name, Some(&r), m.args.iter().cloned().collect())
                    }
                    _ => None,
                }
            }
            _ => None,
        };
        if let Some(x) = rep {
            *e = x;
        }
    }
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        if let Ok(mut v) = m.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated) {
            let c0 = self.changed;
            self.changed = false;
            for e in v.iter_mut() {
                self.visit_expr_mut(e);
            }
            if self.changed {
                m.tokens = v.to_token_stream();
            }
            self.changed |= c0;
        }
    }
}

struct MacroPass<'b, 'a> {
    n: &'b mut Norm<'a>,
}
impl MacroPass<'_, '_> {
    fn panic_expr(&self) -> TokenStream {
        match &self.n.sp.panic_if {
            Some(c) => {
                let t = format!("proof {{ assert({}); }}", c);
                quote!({ __v_raw!(#t); crate::shim::diverge() })
            }
            None => quote!(crate::shim::vpanic()),
        }
    }
    fn rewrite(&mut self, m: &Macro) -> Option<TokenStream> {
        let name = m.path.segments.last()?.ident.to_string();
        let args = || m.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated);
        let p = self.panic_expr();
        match name.as_str() {
            "panic" | "todo" | "unreachable" | "unimplemented" => Some(p),
            "assert" | "debug_assert" => {
                let a = args().ok()?;
                let c = a.first()?;
                Some(quote!(if !(#c) { #p }))
            }
            "assert_eq" | "debug_assert_eq" => {
                let a = args().ok()?;
                let (x, y) = (a.get(0)?, a.get(1)?);
                Some(quote!(if !(#x == #y) { #p }))
            }
            "assert_ne" | "debug_assert_ne" => {
                let a = args().ok()?;
                let (x, y) = (a.get(0)?, a.get(1)?);
                Some(quote!(if #x == #y { #p }))
            }
            "println" | "print" | "eprintln" | "eprint" | "dbg" => Some(quote!(())),
            "vec" => {
                // vec![x; n]
                let toks: Vec<proc_macro2::TokenTree> = m.tokens.clone().into_iter().collect();
                let pos = toks.iter().position(|t| matches!(t, proc_macro2::TokenTree::Punct(p) if p.as_char() == ';'));
                if let Some(i) = pos {
                    let a: TokenStream = toks[..i].iter().cloned().collect();
                    let b: TokenStream = toks[i + 1..].iter().cloned().collect();
                    return Some(quote!(crate::shim::vec_from_elem(#a, #b)));
                }
                if toks.is_empty() {
                    return Some(quote!(Vec::new()));
                }
                let a = args().ok()?;
                let els: Vec<Expr> = a.iter().cloned().collect();
                let id = self.n.fresh();
                let v = format_ident!("__vl{}", id);
                Some(quote!({ let mut #v = Vec::new(); #(#v.push(#els);)* #v }))
            }
            _ => None,
        }
    }
}
impl VisitMut for MacroPass<'_, '_> {
    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        if let Stmt::Macro(sm) = s {
            if let Some(ts) = self.rewrite(&sm.mac) {
                if let Ok(e) = parse2::<Expr>(ts) {
                    let semi = sm.semi_token;
                    *s = Stmt::Expr(e, semi);
                }
            }
        }
        visit_mut::visit_stmt_mut(self, s);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Macro(m) = e {
            if let Some(ts) = self.rewrite(&m.mac) {
                if let Ok(x) = parse2::<Expr>(ts) {
                    *e = x;
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

struct LockPass {
    own: BTreeSet<String>,
    vecs: BTreeSet<String>,
}
fn strip_ref_clone(e: &Expr) -> Expr {
    match strip_paren(e) {
        Expr::MethodCall(m) if m.method == "clone" && m.args.is_empty() => strip_ref_clone(&m.receiver),
        Expr::Reference(r) => strip_ref_clone(&r.expr),
        Expr::Call(c) if c.args.len() == 1 && c.func.to_token_stream().to_string() == "Arc :: clone" => strip_ref_clone(&c.args[0]),
        x => x.clone(),
    }
}
impl LockPass {
    /// an expression that stands for a lock (a parameter, a field, an element of a vector of locks)
    fn is_lock(&self, e: &Expr) -> bool {
        let l = LOCKS.get().unwrap();
        match strip_paren(e) {
            Expr::Path(_) => path_ident(e).map_or(false, |n| self.own.contains(&n)),
            Expr::Field(f) => matches!(&f.member, Member::Named(n) if l.fields.contains(&n.to_string())),
            Expr::Index(i) => match strip_paren(&i.expr) {
                Expr::Field(f) => matches!(&f.member, Member::Named(n) if l.vec_fields.contains(&n.to_string())),
                x => path_ident(x).map_or(false, |n| self.vecs.contains(&n)),
            },
            _ => false,
        }
    }
    /// `L.read().unwrap()`, `L.write().unwrap()`: the lock and whether it is taken for writing
    fn access(&self, e: &Expr) -> Option<(Expr, bool)> {
        match strip_paren(e) {
            Expr::MethodCall(m) if m.method == "unwrap" || m.method == "expect" => {
                if let Expr::MethodCall(i) = strip_paren(&m.receiver) {
                    if i.args.is_empty() && (i.method == "read" || i.method == "write") {
                        let p = strip_ref_clone(&i.receiver);
                        if self.is_lock(&p) {
                            return Some((p, i.method == "write"));
                        }
                    }
                }
                None
            }
            Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) => self.access(&u.expr),
            Expr::Reference(r) => self.access(&r.expr),
            _ => None,
        }
    }
    /// a place that is an element of a vector of locks, with the row marked
    fn mark_row(p: &Expr, w: bool) -> Expr {
        if let Expr::Index(i) = strip_paren(p) {
            if own_mark(&i.index).is_none() {
                let (b, r) = (&i.expr, &i.index);
                return parse_quote!(#b[__v_ownrow(#w, #r)]);
            }
        }
        p.clone()
    }
    /// the place a `let` gives another name to: a lock, or what a lock guards
    fn alias(&self, e: &Expr) -> Option<Expr> {
        let x = strip_paren(e);
        if let Expr::MethodCall(m) = x {
            if (m.method == "unwrap" || m.method == "expect") && matches!(strip_paren(&m.receiver), Expr::MethodCall(i) if i.args.is_empty() && (i.method == "read" || i.method == "write")) {
                if let Expr::MethodCall(i) = strip_paren(&m.receiver) {
                    let p = strip_ref_clone(&i.receiver);
                    if self.is_lock(&p) {
                        let how = &i.method;
                        return Some(parse_quote!(#p.#how().unwrap()));
                    }
                }
            }
        }
        let p = strip_ref_clone(x);
        if self.is_lock(&p) {
            return Some(p);
        }
        None
    }
}
fn strip_clone(e: &Expr) -> Expr {
    match strip_paren(e) {
        Expr::MethodCall(m) if m.method == "clone" && m.args.is_empty() => strip_clone(&m.receiver),
        x => x.clone(),
    }
}
impl VisitMut for LockPass {
    fn visit_block_mut(&mut self, b: &mut Block) {
        // other names of a lock stand for the lock
        let mut i = 0;
        while i < b.stmts.len() {
            let mut found: Option<(String, Expr)> = None;
            if let Stmt::Local(l) = &b.stmts[i] {
                let pat = match &l.pat {
                    Pat::Type(t) => &*t.pat,
                    p => p,
                };
                if let (Pat::Ident(pi), Some(init)) = (pat, &l.init) {
                    if let Some(p) = self.alias(&init.expr) {
                        found = Some((pi.ident.to_string(), p));
                    }
                }
            }
            if let Some((n, ex)) = found {
                b.stmts.remove(i);
                if path_ident(&ex).map_or(false, |x| x == n) {
                    continue;
                }
                for s in b.stmts[i..].iter_mut() {
                    Subst { name: &n, by: &ex, n: 0 }.visit_stmt_mut(s);
                }
                continue;
            }
            i += 1;
        }
        visit_mut::visit_block_mut(self, b);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // a lock handed to a function: the guarded place
        if let Expr::Call(c) = &mut *e {
            if let Expr::Path(p) = &*c.func {
                let n = p.path.segments.last().unwrap().ident.to_string();
                if let Some(ps) = LOCKS.get().unwrap().params.get(&n) {
                    for (a, k) in c.args.iter_mut().zip(ps) {
                        if let Some(mu) = k {
                            let x = strip_ref_clone(a);
                            if self.is_lock(&x) {
                                let own = path_ident(&x).map_or(false, |n| self.own.contains(&n));
                                let x = Self::mark_row(&x, *mu);
                                *a = match (*mu, own) {
                                    (true, false) => parse_quote!(&mut #x),
                                    (false, false) => parse_quote!(&#x),
                                    (true, true) => parse_quote!(&mut *#x),
                                    (false, true) => parse_quote!(&*#x),
                                };
                            }
                        }
                    }
                }
            }
        }
        // an element of what a lock guards
        if let Expr::Index(i) = &mut *e {
            if let Some((p, w)) = self.access(&i.expr) {
                let row: Expr = match strip_paren(&p) {
                    Expr::Index(pi) => (*pi.index).clone(),
                    _ => parse_quote!(0usize),
                };
                let el = (*i.index).clone();
                *i.expr = p;
                *i.index = parse_quote!(__v_own(#w, #row, #el));
                if let Expr::Index(pi) = &mut *i.expr {
                    self.visit_expr_mut(&mut pi.expr);
                }
                self.visit_expr_mut(&mut i.index);
                return;
            }
        }
        if let Expr::MethodCall(m) = &mut *e {
            if m.method == "len" && m.args.is_empty() {
                if let Some((p, _)) = self.access(&m.receiver) {
                    *m.receiver = p;
                    return;
                }
            }
        }
        if let Some((p, w)) = self.access(e) {
            if let Expr::MethodCall(_) = strip_paren(e) {
                *e = Self::mark_row(&p, w);
                return;
            }
        }
        visit_mut::visit_expr_mut(self, e);
        let mut rep = None;
        if let Expr::MethodCall(m) = &*e {
            if m.method == "unwrap" || m.method == "expect" {
                if let Expr::MethodCall(i) = strip_paren(&m.receiver) {
                    if i.args.is_empty() {
                        if i.method == "read" || i.method == "write" {
                            rep = Some(strip_clone(&i.receiver));
                        } else if i.method == "lock" {
                            let x = strip_clone(&i.receiver);
                            rep = Some(parse_quote!(crate::context::lock_buf(&#x)));
                        }
                    }
                }
            }
        }
        if let Expr::Call(c) = &*e {
            if let Expr::Path(p) = &*c.func {
                let s: Vec<String> = p.path.segments.iter().map(|x| x.ident.to_string()).collect();
                if s.len() == 2 && s[1] == "new" && (s[0] == "Arc" || s[0] == "RwLock" || s[0] == "Mutex") {
                    rep = c.args.first().cloned();
                }
            }
        }
        if let Some(r) = rep {
            *e = r;
        }
    }
}

/// let f = |..| ..;   let it = xs.iter().map(..);   (used later) -> substituted
struct LetInline;
impl VisitMut for LetInline {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut i = 0;
        while i < b.stmts.len() {
            let mut found: Option<(String, Expr)> = None;
            if let Stmt::Local(l) = &b.stmts[i] {
                let pat = match &l.pat {
                    Pat::Type(t) => &*t.pat,
                    p => p,
                };
                if let (Pat::Ident(pi), Some(init)) = (pat, &l.init) {
                    let ex = strip_paren(&init.expr);
                    let ok = match ex {
                        Expr::Closure(_) => true,
                        Expr::MethodCall(m) => {
                            let mn = m.method.to_string();
                            (mn == "map" || mn == "rev" || mn == "zip" || mn == "skip" || mn == "take" || mn == "enumerate" || mn == "decompose")
                                && chain_root(ex)
                                && pi.mutability.is_none()
                        }
                        _ => false,
                    };
                    if ok {
                        found = Some((pi.ident.to_string(), ex.clone()));
                    }
                }
            }
            if let Some((n, ex)) = found {
                let uses: usize = b.stmts[i + 1..].iter().map(|s| mentions(&s.to_token_stream(), &n)).sum();
                let is_cl = matches!(ex, Expr::Closure(_));
                if is_cl || uses == 1 {
                    b.stmts.remove(i);
                    for s in b.stmts[i..].iter_mut() {
                        Subst { name: &n, by: &ex, n: 0 }.visit_stmt_mut(s);
                    }
                    continue;
                }
            }
            i += 1;
        }
        visit_mut::visit_block_mut(self, b);
    }
}
/// the chain bottoms out in an iterator source
fn chain_root(e: &Expr) -> bool {
    match strip_paren(e) {
        Expr::Range(_) => true,
        Expr::MethodCall(m) => {
            let n = m.method.to_string();
            if n == "iter" || n == "par_iter" || n == "into_iter" || n == "into_par_iter" || n == "iter_mut" || n == "decompose" {
                return true;
            }
            if IXM.contains(&n.as_str()) {
                return true;
            }
            if CHAIN.contains(&n.as_str()) {
                return chain_root(&m.receiver);
            }
            false
        }
        Expr::Macro(m) => m.mac.path.is_ident("izip"),
        _ => false,
    }
}

/// x[a..b] -> sub(&x, a, b)
fn subslice(e: &Expr) -> Option<Expr> {
    let Expr::Index(i) = strip_paren(e) else { return None };
    let Expr::Range(r) = strip_paren(&i.index) else { return None };
    if matches!(r.limits, RangeLimits::Closed(_)) {
        return None;
    }
    let x = &i.expr;
    let lo: Expr = r.start.as_ref().map(|b| (**b).clone()).unwrap_or_else(|| parse_quote!(0));
    Some(match &r.end {
        Some(h) => parse_quote!(crate::shim::sub(&#x, #lo, #h)),
        None => parse_quote!(crate::shim::sub_from(&#x, #lo)),
    })
}
struct Beta;
impl VisitMut for Beta {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        let mut rep = None;
        if let Expr::Call(c) = &*e {
            if let Expr::Closure(cl) = strip_paren(&c.func) {
                rep = Some(beta(cl, c.args.iter().cloned().collect()));
            }
        }
        if let Some(r) = rep {
            *e = r;
        }
    }
}

/// Option combinators, size_of, max, constants Verus has no contract for.
struct Misc { opt_fields: BTreeSet<String>, world: bool, c64: bool, flt: HashSet<String> }
impl Misc {
    // an f64 expression, as far as syntax tells
    fn is_flt(&self, e: &Expr) -> bool {
        match strip_paren(e) {
            Expr::Lit(l) => matches!(&l.lit, Lit::Float(_)) || matches!(&l.lit, Lit::Int(i) if i.suffix() == "f64"),
            Expr::Path(p) => p.path.get_ident().map_or(false, |i| self.flt.contains(&i.to_string())),
            Expr::Call(c) => c.func.to_token_stream().to_string().contains("shim_f64 ::"),
            Expr::MethodCall(m) => m.method == "log2",
            _ => false,
        }
    }
}
impl VisitMut for Misc {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        let mut rep: Option<Expr> = None;
        match &*e {
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                let r = &m.receiver;
                match (n.as_str(), m.args.len()) {
                    // a part of a slice
                    _ if matches!(strip_paren(r), Expr::Index(i) if matches!(strip_paren(&i.index), Expr::Range(_))) => {
                        if let Some(x) = subslice(r) {
                            let mut m2 = m.clone();
                            m2.receiver = Box::new(x);
                            rep = Some(Expr::MethodCall(m2));
                        }
                    }
                    ("extend", 1) if !chain_root(&m.args[0]) => {
                        let y = &m.args[0];
                        rep = Some(parse_quote!(#r.extend_vec(#y)));
                    }
                    ("map_or", 2) if is_simple(&m.args[0]) => {
                        if let Expr::Closure(b) = strip_paren(&m.args[1]) {
                            let x = &m.args[0];
                            let p = &b.inputs[0];
                            let y = &b.body;
                            rep = Some(parse_quote!(match #r { None => #x, Some(#p) => #y }));
                        }
                    }
                    // Option::clone, spelled out (Verus rejects the recursion through the Clone trait)
                    ("clone", 0) if matches!(strip_paren(r), Expr::Field(f) if matches!(&f.member, Member::Named(i) if self.opt_fields.contains(&i.to_string()))) => {
                        rep = Some(parse_quote!(match &#r { Some(__u) => Some(__u.clone()), None => None }));
                    }
                    ("unwrap_or", 1) => {
                        let y = &m.args[0];
                        rep = Some(parse_quote!(match #r { Some(__u) => __u, None => #y }));
                    }
                    ("map_or_else", 2) => {
                        if let (Expr::Closure(a), Expr::Closure(b)) = (strip_paren(&m.args[0]), strip_paren(&m.args[1])) {
                            let x = &a.body;
                            let p = &b.inputs[0];
                            let y = &b.body;
                            rep = Some(parse_quote!(match #r { None => #x, Some(#p) => #y }));
                        }
                    }
                    ("max", 1) => {
                        let y = &m.args[0];
                        rep = Some(parse_quote!(crate::shim::max_usize(#r, #y)));
                    }
                    ("min", 1) => {
                        let y = &m.args[0];
                        rep = Some(parse_quote!(crate::shim::min_usize(#r, #y)));
                    }
                    ("rb_mut", 0) => {
                        rep = Some(parse_quote!(crate::dyn_stack::rb(&mut #r)));
                    }
                    ("gen", 0) if self.world => {
                        rep = Some(parse_quote!(#r.gen_u128(&mut __w)));
                    }
                    ("into_boxed_slice", 0) => rep = Some((**r).clone()),
                    ("fill_with", 1) => {
                        let y = &m.args[0];
                        rep = Some(match strip_paren(y) {
                            Expr::Closure(c) if c.inputs.is_empty() => { let b = &c.body; parse_quote!(#r.fill_with_element(#b)) }
                            _ => parse_quote!(#r.fill_with_element(#y())),
                        });
                    }
                    // the n-th element of an indexed iterator
                    ("unwrap", 0) | ("expect", 1) => {
                        if let Expr::MethodCall(i) = strip_paren(r) {
                            if i.method == "nth" && i.args.len() == 1 {
                                let k = &i.args[0];
                                if let Expr::MethodCall(j) = strip_paren(&i.receiver) {
                                    let jn = j.method.to_string();
                                    let at = format_ident!("{}_at", jn);
                                    let rr = &j.receiver;
                                    if IXM.contains(&jn.as_str()) { rep = Some(parse_quote!(#rr.#at(#k))); }
                                    else if jn == "iter" { rep = Some(parse_quote!((&#rr[#k]))); }
                                }
                            }
                        }
                    }
                    _ => {}
                }
            }
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    let l = p.path.segments.last().unwrap();
                    if l.ident == "size_of" {
                        let s = l.arguments.to_token_stream().to_string().replace(' ', "");
                        if s == "::<usize>" || s == "::<u64>" || s == "::<Scalar>" {
                            rep = Some(parse_quote!(8usize));
                        }
                    }
                    if (l.ident == "max" || l.ident == "min") && c.args.len() == 2 {
                        let f = format_ident!("{}_usize", l.ident);
                        let (x, y) = (&c.args[0], &c.args[1]);
                        rep = Some(parse_quote!(crate::shim::#f(#x, #y)));
                    }
                }
            }
            Expr::Path(p) => {
                let s: Vec<String> = p.path.segments.iter().map(|x| x.ident.to_string()).collect();
                let ss = s.join("::");
                if ss == "Scalar::BITS" || ss == "u64::BITS" || ss == "usize::BITS" {
                    rep = Some(parse_quote!(64u32));
                } else if ss == "Scalar::MAX" || ss == "u64::MAX" {
                    rep = Some(parse_quote!(0xffff_ffff_ffff_ffffu64));
                }
            }
            // complex arithmetic
            Expr::Binary(b) if self.c64 => {
                let f = |op: &BinOp| match op {
                    BinOp::Mul(_) | BinOp::MulAssign(_) => Some(format_ident!("cmul")),
                    BinOp::Add(_) | BinOp::AddAssign(_) => Some(format_ident!("cadd")),
                    _ => None,
                };
                let cx = |e: &Expr| match strip_paren(e) {
                    Expr::Unary(u) => matches!(u.op, UnOp::Deref(_)),
                    Expr::Call(c) => { let t = c.func.to_token_stream().to_string(); t.contains("ccf :: c") }
                    _ => false,
                };
                if let Some(op) = f(&b.op) {
                    if cx(&b.left) && cx(&b.right) {
                        let (x, y) = (&b.left, &b.right);
                        rep = Some(match b.op {
                            BinOp::MulAssign(_) | BinOp::AddAssign(_) => parse_quote!(#x = crate::ccf::#op(#x, #y)),
                            _ => parse_quote!(crate::ccf::#op(#x, #y)),
                        });
                    }
                }
            }
            Expr::Binary(b) if self.is_flt(&b.left) || self.is_flt(&b.right) => {
                let op = match &b.op {
                    BinOp::Mul(_) | BinOp::MulAssign(_) => Some("fmul"),
                    BinOp::Add(_) | BinOp::AddAssign(_) => Some("fadd"),
                    BinOp::Sub(_) | BinOp::SubAssign(_) => Some("fsub"),
                    BinOp::Div(_) | BinOp::DivAssign(_) => Some("fdiv"),
                    _ => None,
                };
                if let Some(op) = op {
                    let op = format_ident!("{}", op);
                    let (x, y) = (&b.left, &b.right);
                    rep = Some(match b.op {
                        BinOp::MulAssign(_) | BinOp::AddAssign(_) | BinOp::SubAssign(_) | BinOp::DivAssign(_) => parse_quote!(#x = crate::shim_f64::#op(#x, #y)),
                        _ => parse_quote!(crate::shim_f64::#op(#x, #y)),
                    });
                }
            }
            Expr::Cast(c) => {
                let t = c.ty.to_token_stream().to_string();
                let x = &c.expr;
                if t == "f64" { rep = Some(parse_quote!(crate::shim_f64::ToF::tof(#x))); }
                else if t == "SignedScalar" || t == "i64" { rep = Some(parse_quote!(crate::shim_f64::to_i64(#x))); }
            }
            Expr::Reference(r) if r.mutability.is_none() && matches!(strip_paren(&r.expr), Expr::Index(i) if matches!(strip_paren(&i.index), Expr::Range(_))) => {
                rep = subslice(&r.expr);
            }
            Expr::Reference(r) if r.mutability.is_some() => {
                // &mut x.as_mut_tensor(): the inner call already is a mutable reference
                if let Expr::MethodCall(m) = strip_paren(&r.expr) {
                    if m.method == "as_mut_tensor" && m.args.is_empty() { rep = Some((*r.expr).clone()); }
                }
            }
            Expr::Unsafe(u) => {
                let ss = &u.block.stmts;
                if ss.len() == 1 {
                    if let Stmt::Expr(x, None) = &ss[0] {
                        rep = Some(x.clone());
                    }
                }
            }
            _ => {}
        }
        if let Some(r) = rep {
            *e = r;
        }
    }
    // float constants are folded with the same IEEE double arithmetic rustc uses
    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        if let Stmt::Local(l) = s {
            let mut p = &l.pat;
            let mut ty = false;
            if let Pat::Type(t) = p { ty = t.ty.to_token_stream().to_string() == "f64"; p = &t.pat; }
            if let (Pat::Ident(i), Some(e)) = (p, &l.init) { if ty || self.is_flt(&e.expr) { self.flt.insert(i.ident.to_string()); } }
        }
        if let Stmt::Item(Item::Const(c)) = s {
            if let Some(V::U(v)) = fold(&c.expr) {
                if has_float(&c.expr) {
                    let l = LitInt::new(&format!("{}u64", v), Span::call_site());
                    c.expr = Box::new(parse_quote!(#l));
                }
            }
            // local const -> let (Verus: consts in fn bodies)
            let (i, t, x) = (&c.ident, &c.ty, &c.expr);
            *s = parse_quote!(let #i: #t = #x;);
        }
        visit_mut::visit_stmt_mut(self, s);
    }
}

#[derive(Clone, Copy)]
enum V {
    U(u64),
    F(f64),
}
fn has_float(e: &Expr) -> bool {
    e.to_token_stream().to_string().contains("f64")
}
fn fold(e: &Expr) -> Option<V> {
    match strip_paren(e) {
        Expr::Lit(l) => match &l.lit {
            Lit::Int(i) => i.base10_parse::<u64>().ok().map(V::U),
            Lit::Float(f) => f.base10_parse::<f64>().ok().map(V::F),
            _ => None,
        },
        Expr::Path(p) => {
            let s: Vec<String> = p.path.segments.iter().map(|x| x.ident.to_string()).collect();
            match s.join("::").as_str() {
                "Scalar::MAX" | "u64::MAX" => Some(V::U(u64::MAX)),
                _ => None,
            }
        }
        Expr::Cast(c) => {
            let t = c.ty.to_token_stream().to_string();
            let v = fold(&c.expr)?;
            match (t.as_str(), v) {
                ("f64", V::U(x)) => Some(V::F(x as f64)),
                ("f64", V::F(x)) => Some(V::F(x)),
                ("Scalar" | "u64", V::F(x)) => Some(V::U(x as u64)),
                ("Scalar" | "u64", V::U(x)) => Some(V::U(x)),
                _ => None,
            }
        }
        Expr::Binary(b) => {
            let (x, y) = (fold(&b.left)?, fold(&b.right)?);
            match (x, y, &b.op) {
                (V::F(a), V::F(b), BinOp::Div(_)) => Some(V::F(a / b)),
                (V::F(a), V::F(b), BinOp::Mul(_)) => Some(V::F(a * b)),
                (V::F(a), V::F(b), BinOp::Add(_)) => Some(V::F(a + b)),
                (V::F(a), V::F(b), BinOp::Sub(_)) => Some(V::F(a - b)),
                (V::U(a), V::U(b), BinOp::Add(_)) => a.checked_add(b).map(V::U),
                (V::U(a), V::U(b), BinOp::Sub(_)) => a.checked_sub(b).map(V::U),
                (V::U(a), V::U(b), BinOp::Mul(_)) => a.checked_mul(b).map(V::U),
                (V::U(a), V::U(b), BinOp::Div(_)) => a.checked_div(b).map(V::U),
                _ => None,
            }
        }
        _ => None,
    }
}

struct LoopPass<'b, 'a> {
    n: &'b mut Norm<'a>,
}

impl LoopPass<'_, '_> {
    /// wrap: { pre; let n = len; let mut k = 0; while k < n { inv; let e = elem; k += 1; BODY } POST }
    fn build(&mut self, ix: Ix, extra_pre: Vec<Stmt>, body: impl Fn(Expr) -> Vec<Stmt>, post: Option<Expr>, extra_inv: Vec<String>) -> Expr {
        let id = self.n.nloops;
        self.n.nloops += 1;
        let l = format!("loop{}", id);
        for s in ["", ".begin", ".end", ".after", ".before", ".item", ".own", ".ownrow"] {
            self.n.anchors.insert(format!("{}{}", l, s));
        }
        if std::mem::take(&mut self.n.par_next) {
            self.n.par.insert(l.clone());
        }
        let k = format_ident!("__k{}", id);
        let kk = format_ident!("__j{}", id);
        let n = format_ident!("__n{}", id);
        let pre = ix.pre;
        let len = ix.len;
        let mut inv = vec![format!("{k} <= {n}")];
        let mut ghosts: Vec<Stmt> = vec![];
        for s in &ix.inv {
            // __ENTRY__v : ghost copy of the vector at loop entry
            let mut s = s.replace("__K__", &k.to_string());
            if let Some(p) = s.find("__ENTRY__") {
                let v: String = s[p + 9..].chars().take_while(|c| c.is_alphanumeric() || *c == '_').collect();
                let g = format!("__g{}", v);
                s = s.replace(&format!("__ENTRY__{}", v), &g);
                let t = format!("let ghost {} = {}@;", g, v);
                ghosts.push(parse_quote!(__v_raw!(#t);));
                // length fact for the by-value loop
                inv.push(format!("{}.len() == {}", g, n).replace(&format!("{}.len() == {}", g, n), &format!("{}.len() >= {}", g, n)));
            }
            inv.push(s);
        }
        inv.extend(extra_inv.into_iter().map(|s| s.replace("__K__", &k.to_string()).replace("__N__", &n.to_string())));
        let invs = inv.join(",\n");
        let dec = format!("{n} - {k}");
        let el = (ix.elem)(parse_quote!(#kk));
        let b = body(el);
        let (l_b, l_e, l_a, l_f) = (format!("{l}.begin"), format!("{l}.end"), format!("{l}.after"), format!("{l}.before"));
        let postt = post.map(|p| quote!(#p)).unwrap_or_default();
        parse_quote!({
            #(#pre)*
            let #n: usize = #len;
            let mut #k: usize = 0;
            #(#extra_pre)*
            #(#ghosts)*
            __v_at!(#l_f);
            while #k < #n {
                __v_inv!(#l, #invs, #dec);
                let #kk: usize = #k;
                __v_at!(#l_b);
                #k = #k + 1;
                #(#b)*
                __v_at!(#l_e);
            }
            __v_at!(#l_a);
            #postt
        })
    }
    fn consumer(&mut self, e: &Expr) -> Option<Expr> {
        let Expr::MethodCall(m) = strip_paren(e) else { return None };
        let name = m.method.to_string();
        let save = self.n.tmp;
        let id = self.n.nloops;
        let mut pc = ParChain(false);
        pc.chain(&m.receiver);
        self.n.par_next = pc.0;
        match name.as_str() {
            "collect" => {
                if !chain_root(&m.receiver) {
                    return None;
                }
                let ix = match self.n.ix(&m.receiver) {
                    Some(x) => x,
                    None => {
                        self.n.tmp = save;
                        return None;
                    }
                };
                let c = format_ident!("__c{}", id);
                let x = format_ident!("__x{}", id);
                let tyann: TokenStream = match &m.turbofish {
                    Some(t) => {
                        let a = &t.args;
                        quote!(: #a)
                    }
                    None => match self.n.lty(id) {
                        Some(t) => quote!(: Vec<#t>),
                        None => quote!(),
                    },
                };
                let pre: Stmt = parse_quote!(let mut #c #tyann = Vec::new(););
                let (c2, x2) = (c.clone(), x.clone());
                let it = format!("loop{}.item", id);
                Some(self.build(
                    ix,
                    vec![pre],
                    move |el| vec![parse_quote!(let #x2 = #el;), parse_quote!(__v_at!(#it);), parse_quote!(#c2.push(#x2);)],
                    Some(parse_quote!(#c)),
                    vec![format!("{c}@.len() == __K__")],
                ))
            }
            "extend" if m.args.len() == 1 => {
                if !chain_root(&m.args[0]) {
                    return None;
                }
                let ix = self.n.ix(&m.args[0])?;
                let v = &m.receiver;
                let x = format_ident!("__x{}", id);
                let it = format!("loop{}.item", id);
                Some(self.build(ix, vec![], move |el| vec![parse_quote!(let #x = #el;), parse_quote!(__v_at!(#it);), parse_quote!(#v.push(#x);)], None, vec![]))
            }
            "unzip" => {
                if !chain_root(&m.receiver) {
                    return None;
                }
                let ix = self.n.ix(&m.receiver)?;
                let c = format_ident!("__c{}", id);
                let d = format_ident!("__d{}", id);
                let x = format_ident!("__x{}", id);
                let y = format_ident!("__y{}", id);
                let it = format!("loop{}.item", id);
                let (c2, d2) = (c.clone(), d.clone());
                let ann = |t: Option<Type>| match t {
                    Some(t) => quote!(: Vec<#t>),
                    None => quote!(),
                };
                let (tc, td) = (ann(self.n.vty("lty", id)), ann(self.n.vty("dty", id)));
                Some(self.build(
                    ix,
                    vec![parse_quote!(let mut #c #tc = Vec::new();), parse_quote!(let mut #d #td = Vec::new();)],
                    move |el| {
                        vec![
                            parse_quote!(let (#x, #y) = #el;),
                            parse_quote!(__v_at!(#it);),
                            parse_quote!(#c2.push(#x);),
                            parse_quote!(#d2.push(#y);),
                        ]
                    },
                    Some(parse_quote!((#c, #d))),
                    vec![format!("{c}@.len() == __K__"), format!("{d}@.len() == __K__")],
                ))
            }
            "for_each" => {
                if !chain_root(&m.receiver) {
                    return None;
                }
                let ix = self.n.ix(&m.receiver)?;
                let f = strip_paren(m.args.first()?).clone();
                let Expr::Closure(c) = f else { return None };
                Some(self.build(
                    ix,
                    vec![],
                    move |el| {
                        let p = &c.inputs[0];
                        let b = &c.body;
                        match &**b {
                            Expr::Block(bb) => {
                                let ss = &bb.block.stmts;
                                let lp: Stmt = parse_quote!(let #p = #el;);
                                let mut v = vec![lp];
                                let mut ss: Vec<Stmt> = ss.clone();
                                if let Some(Stmt::Expr(_, semi @ None)) = ss.last_mut() {
                                    *semi = Some(Default::default());
                                }
                                v.extend(ss);
                                v
                            }
                            _ => vec![parse_quote!(let #p = #el;), parse_quote!(#b;)],
                        }
                    },
                    None,
                    vec![],
                ))
            }
            // rayon's reduce: any bracketing of the elements in order, with any number of units in between
            "reduce" if m.args.len() == 2 => {
                if !chain_root(&m.receiver) {
                    return None;
                }
                let Expr::Closure(c0) = strip_paren(&m.args[0]).clone() else { return None };
                if !c0.inputs.is_empty() {
                    return None;
                }
                let Expr::Closure(c) = strip_paren(&m.args[1]).clone() else { return None };
                let init: Expr = (*c0.body).clone();
                self.n.nloops += 1;
                let l = format!("loop{}", id);
                for s in ["", ".begin", ".end", ".after", ".before", ".item", ".unit"] {
                    self.n.anchors.insert(format!("{}{}", l, s));
                }
                let f = |s: &str| format_ident!("__{}{}", s, id);
                let (parts, i, acc, x, y, z, pick) = (f("p"), f("i"), f("acc"), f("x"), f("y"), f("z"), f("pick"));
                let src: Expr = match strip_paren(&m.receiver) {
                    Expr::MethodCall(r) if (r.method == "into_par_iter" || r.method == "into_iter") && matches!(strip_paren(&r.receiver), Expr::Path(_)) => (*r.receiver).clone(),
                    r => parse_quote!(#r.collect()),
                };
                let ann: TokenStream = match self.n.lty(id) {
                    Some(t) => quote!(: Vec<#t>),
                    None => quote!(),
                };
                let b = beta(&c, vec![parse_quote!(#acc), parse_quote!(#x)]);
                let at = |s: &str| format!("{l}.{s}");
                let (a0, a1, a2, a3, a4, a5) = (at("before"), at("begin"), at("unit"), at("item"), at("end"), at("after"));
                Some(parse_quote!({
                    let mut #parts #ann = #src;
                    __v_at!(#a0);
                    while !(#parts.len() == 1 && crate::shim::nondet()) {
                        __v_inv!(#l, "", "");
                        let #i: usize = crate::shim::pick();
                        let #pick: bool = crate::shim::nondet();
                        __v_at!(#a1);
                        if #parts.len() >= 2 && #i < #parts.len() - 1 && #pick {
                            let #acc = #parts.remove(#i);
                            let #x = #parts.remove(#i);
                            __v_at!(#a3);
                            let #y = #b;
                            #parts.insert(#i, #y);
                        } else if #i <= #parts.len() && #parts.len() < usize::MAX {
                            let #z = #init;
                            __v_at!(#a2);
                            #parts.insert(#i, #z);
                        }
                        __v_at!(#a4);
                    }
                    __v_at!(#a5);
                    #parts.remove(0)
                }))
            }
            "fold" if m.args.len() == 2 => {
                if !chain_root(&m.receiver) {
                    return None;
                }
                let ix = self.n.ix(&m.receiver)?;
                let init: Expr = match strip_paren(&m.args[0]) {
                    Expr::Closure(c) if c.inputs.is_empty() => (*c.body).clone(),
                    x => x.clone(),
                };
                let Expr::Closure(c) = strip_paren(&m.args[1]).clone() else { return None };
                let acc = format_ident!("__acc{}", id);
                let x = format_ident!("__x{}", id);
                let acc2 = acc.clone();
                let it = format!("loop{}.item", id);
                Some(self.build(
                    ix,
                    vec![parse_quote!(let mut #acc = #init;)],
                    move |el| {
                        let b = beta(&c, vec![parse_quote!(#acc2), parse_quote!(#x)]);
                        vec![parse_quote!(let #x = #el;), parse_quote!(__v_at!(#it);), parse_quote!(#acc2 = #b;)]
                    },
                    Some(parse_quote!(#acc)),
                    vec![],
                ))
            }
            "sum" => {
                if !chain_root(&m.receiver) {
                    return None;
                }
                let ix = self.n.ix(&m.receiver)?;
                let acc = format_ident!("__acc{}", id);
                let acc2 = acc.clone();
                Some(self.build(
                    ix,
                    vec![parse_quote!(let mut #acc = 0;)],
                    move |el| vec![parse_quote!(#acc2 = #acc2 + #el;)],
                    Some(parse_quote!(#acc)),
                    vec![],
                ))
            }
            "any" | "all" => {
                if !chain_root(&m.receiver) {
                    return None;
                }
                let ix = self.n.ix(&m.receiver)?;
                let Expr::Closure(c) = strip_paren(m.args.first()?).clone() else { return None };
                let acc = format_ident!("__acc{}", id);
                let acc2 = acc.clone();
                let any = name == "any";
                Some(self.build(
                    ix,
                    vec![if any { parse_quote!(let mut #acc = false;) } else { parse_quote!(let mut #acc = true;) }],
                    move |el| {
                        let b = beta(&c, vec![el]);
                        if any {
                            vec![parse_quote!(if #b { #acc2 = true; break; })]
                        } else {
                            vec![parse_quote!(if !#b { #acc2 = false; break; })]
                        }
                    },
                    Some(parse_quote!(#acc)),
                    vec![],
                ))
            }
            _ => None,
        }
    }
}

/// does an iterator chain start with a parallel iterator
struct ParChain(bool);
impl ParChain {
    fn chain(&mut self, e: &Expr) {
        if let Expr::MethodCall(m) = strip_paren(e) {
            if m.method == "par_iter" || m.method == "into_par_iter" || m.method == "par_iter_mut" {
                self.0 = true;
            }
            self.chain(&m.receiver);
            if m.method == "zip" {
                for a in &m.args {
                    self.chain(a);
                }
            }
        }
    }
}

/// Ownership in parallel loops. What a lock guards is a table of cells (row, element). A parallel loop that
/// writes guarded data needs a contract `loopN.own` (or `.ownrow`): an expression over `__r`, `__e` that names
/// the one iteration a cell belongs to. Every access in the loop, reading or writing, must be to a cell of the
/// running iteration; so no two iterations touch the same cell, and the order in which they run cannot matter.
/// `own` of a function: a condition on the cells it may touch.
struct OwnPass<'a> {
    sp: &'a FnSpec,
    par: BTreeSet<String>,
    lp: LockPass,
    stack: Vec<String>,
    err: Option<String>,
}
impl OwnPass<'_> {
    fn anchor(&self, l: &str, s: &str) -> Option<String> {
        self.sp.anchors.get(&format!("{l}.{s}")).cloned()
    }
    /// the obligations on a cell (or, without an element, a whole row)
    fn duties(&mut self, w: bool, el: bool) -> Vec<String> {
        let mut out = vec![];
        for l in self.stack.clone() {
            let j = format!("__j{}", &l[4..]);
            let own = if el { self.anchor(&l, "own") } else { None };
            match own.or_else(|| self.anchor(&l, "ownrow")) {
                Some(t) => out.push(format!("({}) == {j} as int", t.trim())),
                None if w || self.anchor(&l, "own").is_some() => {
                    self.err.get_or_insert(format!("parallel {l}: guarded data without an ownership condition"));
                }
                None => {}
            }
        }
        if let Some(t) = self.sp.anchors.get("own") {
            if el {
                out.push(t.trim().to_string());
            } else {
                self.err.get_or_insert("a whole row of guarded data".into());
            }
        }
        out
    }
    fn whole(&mut self, what: &str) {
        if !self.stack.is_empty() || self.sp.anchors.contains_key("own") {
            self.err.get_or_insert(format!("guarded data used as a whole in a parallel loop: {what}"));
        }
    }
    fn root(&self, e: &Expr) -> bool {
        let l = LOCKS.get().unwrap();
        match e {
            Expr::Path(_) => path_ident(e).map_or(false, |n| self.lp.own.contains(&n) || self.lp.vecs.contains(&n)),
            Expr::Field(f) => path_ident(strip_paren(&f.base)).as_deref() == Some("self") && matches!(&f.member, Member::Named(n) if l.fields.contains(&n.to_string()) || l.vec_fields.contains(&n.to_string())),
            _ => false,
        }
    }
    fn rooted(&self, e: &Expr) -> bool {
        match strip_paren(e) {
            Expr::Index(i) => self.root(strip_paren(&i.expr)),
            x => self.root(x),
        }
    }
}
impl VisitMut for OwnPass<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::While(w) = &*e {
            if let Some(l) = inv_id(&w.body) {
                if self.par.contains(&l) {
                    self.stack.push(l);
                    visit_mut::visit_expr_mut(self, e);
                    self.stack.pop();
                    return;
                }
            }
        }
        if let Expr::Index(i) = &mut *e {
            if let Some((w, r, el)) = own_mark(&i.index) {
                let mut x = el.clone().unwrap_or_else(|| r.clone());
                self.visit_expr_mut(&mut x);
                let ds = self.duties(w, el.is_some());
                if ds.is_empty() {
                    *i.index = x;
                } else {
                    let mut t = format!("proof {{ let __r: int = ({}) as int; ", r.to_token_stream());
                    for d in ds {
                        t += &format!("assert({d}); ");
                    }
                    t += "}";
                    if el.is_some() {
                        t = t.replacen("proof {", "proof { let __e: int = __ix as int;", 1);
                    }
                    *i.index = parse_quote!({ let __ix: usize = #x; __v_raw!(#t); __ix });
                }
                if !self.rooted(&i.expr) {
                    self.visit_expr_mut(&mut i.expr);
                }
                return;
            }
        }
        if let Expr::MethodCall(m) = &*e {
            if m.method == "len" && m.args.is_empty() && self.rooted(&m.receiver) {
                return;
            }
        }
        // handed to a function that states which cells it touches
        if let Expr::Call(c) = &mut *e {
            let callee = if let Expr::Path(p) = &*c.func { p.path.segments.last().map(|x| x.ident.to_string()) } else { None };
            if callee.as_deref() == Some("lock_buf") {
                return;
            }
            if callee.map_or(false, |n| LOCKS.get().unwrap().own_fns.contains(&n)) {
                for a in c.args.iter_mut() {
                    let skip = matches!(&*a, Expr::Reference(r) if r.mutability.is_none() && self.root(strip_paren(&r.expr))) || self.root(strip_paren(a));
                    if !skip {
                        self.visit_expr_mut(a);
                    }
                }
                return;
            }
        }
        if self.root(e) {
            let t = e.to_token_stream().to_string();
            self.whole(&t);
            return;
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

impl VisitMut for LoopPass<'_, '_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        let mut rep: Option<Expr> = None;
        self.n.par_next = false;
        if let Expr::ForLoop(f) = &*e {
            let it = strip_paren(&f.expr).clone();
            let native = false;
            if !native {
                if let Some(ix) = self.n.ix(&it) {
                    let p = (*f.pat).clone();
                    let body = f.body.clone();
                    rep = Some(self.build(
                        ix,
                        vec![],
                        move |el| {
                            let mut v: Vec<Stmt> = vec![parse_quote!(let #p = #el;)];
                            let mut ss = body.stmts.clone();
                            if let Some(Stmt::Expr(_, semi @ None)) = ss.last_mut() {
                                *semi = Some(Default::default());
                            }
                            v.extend(ss);
                            v
                        },
                        None,
                        vec![],
                    ));
                }
            }
        } else if let Expr::MethodCall(_) = &*e {
            rep = self.consumer(e);
        }
        if let Some(r) = rep {
            *e = r;
            visit_mut::visit_expr_mut(self, e);
            return;
        }
        // native loops get an ordinal too
        let native_body: Option<&mut Block> = match e {
            Expr::ForLoop(f) => {
                if matches!(&*f.pat, Pat::Wild(_)) {
                    let id = format_ident!("__w{}", self.n.nloops);
                    *f.pat = parse_quote!(#id);
                }
                Some(&mut f.body)
            }
            Expr::While(w) => Some(&mut w.body),
            Expr::Loop(l) => Some(&mut l.body),
            _ => None,
        };
        if let Some(b) = native_body {
            let marked = matches!(b.stmts.first(), Some(Stmt::Macro(m)) if m.mac.path.is_ident("__v_inv"));
            if !marked {
                let id = self.n.nloops;
                self.n.nloops += 1;
                let l = format!("loop{}", id);
                for s in ["", ".begin", ".end", ".after", ".before"] {
                    self.n.anchors.insert(format!("{}{}", l, s));
                }
                let (l_b, l_e) = (format!("{l}.begin"), format!("{l}.end"));
                if let Some(Stmt::Expr(_, semi @ None)) = b.stmts.last_mut() {
                    *semi = Some(Default::default());
                }
                b.stmts.insert(0, parse_quote!(__v_at!(#l_b);));
                b.stmts.insert(0, parse_quote!(__v_inv!(#l, "", "");));
                b.stmts.push(parse_quote!(__v_at!(#l_e);));
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

/// before/after anchors of native loops (statement level)
struct MarkLoops;
impl VisitMut for MarkLoops {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut out: Vec<Stmt> = vec![];
        for s in b.stmts.drain(..) {
            let lid = match &s {
                Stmt::Expr(Expr::ForLoop(f), _) => Some(inv_id(&f.body)),
                Stmt::Expr(Expr::Loop(f), _) => Some(inv_id(&f.body)),
                Stmt::Expr(Expr::While(f), _) => Some(inv_id(&f.body)),
                _ => None,
            };
            match lid {
                Some(Some(l)) => {
                    let (f, a) = (format!("{l}.before"), format!("{l}.after"));
                    // generated loops carry their own before/after
                    let gen = matches!(out.last(), Some(Stmt::Macro(m)) if m.mac.tokens.to_string().contains(&f));
                    if gen {
                        out.push(s);
                    } else {
                        out.push(parse_quote!(__v_at!(#f);));
                        let s = match s {
                            Stmt::Expr(e, _) => Stmt::Expr(e, Some(Default::default())),
                            x => x,
                        };
                        out.push(s);
                        out.push(parse_quote!(__v_at!(#a);));
                    }
                }
                _ => out.push(s),
            }
        }
        b.stmts = out;
        visit_mut::visit_block_mut(self, b);
    }
}
fn inv_id(b: &Block) -> Option<String> {
    if let Some(Stmt::Macro(m)) = b.stmts.first() {
        if m.mac.path.is_ident("__v_inv") {
            let s = m.mac.tokens.to_string();
            let s = s.trim_start_matches('"');
            return Some(s.split('"').next().unwrap().to_string());
        }
    }
    None
}

/// types for untyped `let`s whose values a contract mentions before inference fixes them (`#opt ty:<var>=<type>`)
struct LetTypes(HashMap<String, Type>);
impl VisitMut for LetTypes {
    fn visit_local_mut(&mut self, l: &mut Local) {
        let t = if let Pat::Ident(p) = &l.pat { self.0.get(&p.ident.to_string()).cloned() } else { None };
        if let (Some(t), true) = (t, l.init.is_some()) {
            let p = l.pat.clone();
            l.pat = Pat::Type(PatType { attrs: vec![], pat: Box::new(p), colon_token: Default::default(), ty: Box::new(t) });
        }
        visit_mut::visit_local_mut(self, l);
    }
}
struct PlaceAnchors {
    want: Vec<(bool, String, usize, String)>,
    counts: HashMap<String, usize>,
    found: BTreeSet<String>,
}
struct Calls(Vec<String>);
impl<'a> Visit<'a> for Calls {
    fn visit_block(&mut self, _: &'a Block) {}
    fn visit_expr_call(&mut self, c: &'a ExprCall) {
        syn::visit::visit_expr_call(self, c);
        if let Expr::Path(p) = &*c.func {
            self.0.push(p.path.segments.last().unwrap().ident.to_string());
        }
    }
    fn visit_expr_method_call(&mut self, m: &'a ExprMethodCall) {
        syn::visit::visit_expr_method_call(self, m);
        self.0.push(m.method.to_string());
    }
}
impl VisitMut for PlaceAnchors {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut out: Vec<Stmt> = vec![];
        let n = b.stmts.len();
        for (i, mut s) in std::mem::take(&mut b.stmts).into_iter().enumerate() {
            let mut c = Calls(vec![]);
            c.visit_stmt(&s);
            let mut pre = vec![];
            let mut post = vec![];
            let mut seen = BTreeSet::new();
            let mut names = c.0;
            if let Stmt::Local(l) = &s {
                if let Pat::Ident(p) = &l.pat {
                    names.push(format!("let:{}", p.ident));
                } else if let Pat::Type(t) = &l.pat {
                    if let Pat::Ident(p) = &*t.pat {
                        names.push(format!("let:{}", p.ident));
                    }
                }
            }
            for nm in names {
                if !seen.insert(nm.clone()) {
                    continue;
                }
                let k = self.counts.entry(nm.clone()).or_insert(0);
                let idx = *k;
                *k += 1;
                for (after, w, wi, key) in &self.want {
                    if *w == nm && *wi == idx {
                        let st: Stmt = parse_quote!(__v_at!(#key););
                        if *after {
                            let tail = i + 1 == n && matches!(s, Stmt::Expr(_, None));
                            if tail {
                                continue;
                            }
                            post.push(st)
                        } else {
                            pre.push(st)
                        }
                        self.found.insert(key.clone());
                    }
                }
            }
            visit_mut::visit_stmt_mut(self, &mut s);
            out.extend(pre);
            out.push(s);
            out.extend(post);
        }
        b.stmts = out;
    }
}

#[allow(dead_code)]
fn unused(k: &str) -> Expr {
    pexpr(k)
}
impl Norm<'_> {
    #[allow(dead_code)]
    fn k(&self) -> &str {
        &self.key
    }
}
