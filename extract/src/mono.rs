//! Modules taken from concrete-core (`#from`): made monomorphic in the coefficient type, mechanically.
//! * a type parameter bounded by UnsignedInteger / UnsignedTorus / Numeric becomes u64 (in impls and functions);
//!   `T::ONE`, `T::ZERO`, `T::BITS`, `<T as Numeric>::BITS` become 1u64, 0u64, 64usize;
//! * structs keep their parameter, without the bound;
//! * a parameter `I: AsRefTensor<..>` (`AsMutTensor`) becomes `Tensor<I>` with `I: AsRefSlice` (`AsMutSlice`);
//!   `Polynomial<C>: AsRefTensor<..>` bounds become `C: AsRefSlice<..>`;
//! * `impl Iterator for X` becomes inherent; `zip!`/`zip_args!` become `izip!`/a tuple;
//! * `t.fill_with_one(s, |p| e)` and `t.fold_with_one(s, i, |a, x, y| e)` become the loops they run;
//! * `update_with_one`, `update_with_element`, `update_with` with a closure likewise; the file's own macro_rules are expanded;
//! * `C: Container` is a slice (`as_ref`, `as_mut` are `as_slice`, `as_mut_slice`); `v[i]` with a generic `SliceIndex` is `i.index(v)`;
//! * a container parameter of an argument taken by value that is written through is `&mut [u64]`; `debug_assert!`/`ck_dim_eq!` become `assert!`.
use quote::ToTokens;
use std::collections::BTreeSet;
use syn::punctuated::Punctuated;
use syn::visit_mut::{self, VisitMut};
use syn::*;

fn bounds(b: &Punctuated<TypeParamBound, Token![+]>) -> Vec<String> {
    b.iter()
        .filter_map(|x| match x {
            TypeParamBound::Trait(t) => Some(t.path.segments.last().unwrap().ident.to_string()),
            _ => None,
        })
        .collect()
}
fn is_num(b: &[String]) -> bool {
    b.iter().any(|x| x == "UnsignedInteger" || x == "UnsignedTorus" || x == "Numeric")
}

// <C as AsRefSlice>::Element, C::Element
fn is_elem(t: &Type) -> bool {
    let Type::Path(p) = t else { return false };
    p.path.segments.len() >= 2 && p.path.segments.last().unwrap().ident == "Element"
}
// E of a bound AsRefSlice<Element = E>
fn elem_params(b: &Punctuated<TypeParamBound, Token![+]>, all: &BTreeSet<String>) -> Vec<String> {
    let mut r = vec![];
    for x in b {
        let TypeParamBound::Trait(t) = x else { continue };
        let PathArguments::AngleBracketed(a) = &t.path.segments.last().unwrap().arguments else { continue };
        for g in &a.args {
            if let GenericArgument::AssocType(at) = g {
                let n = at.ty.to_token_stream().to_string();
                if at.ident == "Element" && all.contains(&n) {
                    r.push(n);
                }
            }
        }
    }
    r
}

struct Sub {
    ids: BTreeSet<String>,    // -> u64
    tensors: BTreeSet<String>, // I -> Tensor<I>
    extra: Vec<WherePredicate>, // put in place after the substitution
}
impl VisitMut for Sub {
    fn visit_type_mut(&mut self, t: &mut Type) {
        if is_elem(t) {
            *t = parse_quote!(u64);
            return;
        }
        if let Type::Path(p) = t {
            if p.qself.is_none() && p.path.segments.len() == 1 {
                let id = p.path.segments[0].ident.clone();
                if self.ids.contains(&id.to_string()) {
                    *t = parse_quote!(u64);
                    return;
                }
                if self.tensors.contains(&id.to_string()) {
                    *t = parse_quote!(Tensor<#id>);
                    return;
                }
            }
        }
        visit_mut::visit_type_mut(self, t)
    }
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        let mut t = m.tokens.to_string();
        for i in &self.ids {
            for (k, v) in [("ONE", "1u64"), ("ZERO", "0u64"), ("BITS", "64usize")] {
                t = t.replace(&format!("{} :: {}", i, k), v);
            }
        }
        m.tokens = t.parse().unwrap();
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Path(p) = e {
            let head = match &p.qself {
                Some(q) => q.ty.to_token_stream().to_string(),
                None => p.path.segments[0].ident.to_string(),
            };
            if self.ids.contains(&head) && (p.qself.is_some() || p.path.segments.len() == 2) {
                match p.path.segments.last().unwrap().ident.to_string().as_str() {
                    "ONE" => *e = parse_quote!(1u64),
                    "ZERO" => *e = parse_quote!(0u64),
                    "BITS" => *e = parse_quote!(64usize),
                    _ => {}
                }
                return;
            }
        }
        visit_mut::visit_expr_mut(self, e)
    }
}

// numeric and tensor parameters of g; g loses the former
fn split(g: &mut Generics, self_ty: Option<&str>) -> Sub {
    let mut s = Sub { ids: BTreeSet::new(), tensors: BTreeSet::new(), extra: vec![] };
    let all: BTreeSet<String> = g.type_params().map(|t| t.ident.to_string()).collect();
    for tp in g.type_params() {
        let b = bounds(&tp.bounds);
        if is_num(&b) {
            s.ids.insert(tp.ident.to_string());
        }
    }
    if let Some(w) = g.where_clause.take() {
        for p in w.predicates {
            let WherePredicate::Type(pt) = p else { continue };
            let mut b = bounds(&pt.bounds);
            let t = pt.bounded_ty.to_token_stream().to_string();
            s.ids.extend(elem_params(&pt.bounds, &all));
            if is_num(&b) {
                s.ids.insert(t);
                continue;
            }
            if let Some(ix) = pt.bounds.iter().find(|x| x.to_token_stream().to_string().starts_with("SliceIndex")) {
                let (_, i) = (ix, quote::format_ident!("{}", t));
                s.extra.push(parse_quote!(#i: SliceIndex));
                continue;
            }
            // a Container is a slice; with AsMut, a mutable one
            if b.iter().any(|x| x == "Container") || b.iter().any(|x| x == "AsMut") {
                b = vec![if b.iter().any(|x| x == "AsMut") { "AsMutSlice".into() } else { "AsRefSlice".into() }];
            }
            // Tensor<C>: AsRefSlice; Self: AsRefSlice
            if !all.contains(&t) && Some(t.as_str()) != self_ty && b.iter().any(|x| x == "AsRefSlice" || x == "AsMutSlice") {
                let ty = &pt.bounded_ty;
                s.extra.push(if b.iter().any(|x| x == "AsMutSlice") {
                    parse_quote!(#ty: AsMutSlice<Element = u64>)
                } else {
                    parse_quote!(#ty: AsRefSlice<Element = u64>)
                });
                continue;
            }
            if (all.contains(&t) || Some(t.as_str()) == self_ty) && b.iter().any(|x| x == "AsRefSlice" || x == "AsMutSlice") {
                let c = quote::format_ident!("{}", t);
                s.extra.push(if b.iter().any(|x| x == "AsMutSlice") {
                    parse_quote!(#c: AsMutSlice<Element = u64>)
                } else {
                    parse_quote!(#c: AsRefSlice<Element = u64>)
                });
                continue;
            }
            let rf = b.iter().any(|x| x == "AsRefTensor");
            let mt = b.iter().any(|x| x == "AsMutTensor");
            if !(rf || mt) {
                continue;
            }
            let inner: Option<Ident> = if all.contains(&t) {
                s.tensors.insert(t.clone());
                Some(quote::format_ident!("{}", t))
            } else if t == "Self" {
                self_ty.map(|x| quote::format_ident!("{}", x))
            } else if let Type::Path(tp) = &pt.bounded_ty {
                match &tp.path.segments.last().unwrap().arguments {
                    PathArguments::AngleBracketed(a) => match a.args.last() {
                        Some(GenericArgument::Type(Type::Path(q))) => q.path.get_ident().cloned(),
                        _ => None,
                    },
                    _ => None,
                }
            } else {
                None
            };
            if let Some(c) = inner {
                s.extra.push(if mt {
                    parse_quote!(#c: AsMutSlice<Element = u64>)
                } else {
                    parse_quote!(#c: AsRefSlice<Element = u64>)
                });
            }
        }
    }
    let ids = s.ids.clone();
    g.params = g
        .params
        .iter()
        .filter(|p| !matches!(p, GenericParam::Type(t) if ids.contains(&t.ident.to_string())))
        .cloned()
        .collect();
    if g.params.is_empty() {
        g.lt_token = None;
        g.gt_token = None;
    }
    s
}

// a container parameter C of an argument `x: Body<C>` taken by value, C: AsMut.., is what such an argument is
// always a view of: &mut [u64]
fn owned(sig: &mut Signature) {
    let mut cs: BTreeSet<String> = BTreeSet::new();
    for a in &sig.inputs {
        let FnArg::Typed(pt) = a else { continue };
        let Type::Path(p) = &*pt.ty else { continue };
        let PathArguments::AngleBracketed(ab) = &p.path.segments.last().unwrap().arguments else { continue };
        if let Some(GenericArgument::Type(Type::Path(q))) = ab.args.last() {
            if let Some(i) = q.path.get_ident() {
                if sig.generics.type_params().any(|t| &t.ident == i) {
                    cs.insert(i.to_string());
                }
            }
        }
    }
    if cs.is_empty() {
        return;
    }
    let g = &mut sig.generics;
    g.params =
        g.params.iter().filter(|p| !matches!(p, GenericParam::Type(t) if cs.contains(&t.ident.to_string()))).cloned().collect();
    if let Some(w) = &mut g.where_clause {
        w.predicates = w
            .predicates
            .iter()
            .filter(|p| {
                let WherePredicate::Type(pt) = p else { return true };
                let t = pt.bounded_ty.to_token_stream().to_string();
                !cs.iter().any(|c| t == *c || t.ends_with(&format!("< {} >", c)))
            })
            .cloned()
            .collect();
    }
    struct In(BTreeSet<String>);
    impl VisitMut for In {
        fn visit_type_mut(&mut self, t: &mut Type) {
            if let Type::Path(p) = t {
                if p.path.get_ident().map_or(false, |i| self.0.contains(&i.to_string())) {
                    *t = parse_quote!(&mut [u64]);
                    return;
                }
            }
            visit_mut::visit_type_mut(self, t)
        }
    }
    let mut v = In(cs);
    for a in sig.inputs.iter_mut() {
        v.visit_fn_arg_mut(a);
    }
}

// (a, b): (A, B) as a parameter -> __pK: (A, B), taken apart first thing
fn tuples(f: &mut ImplItemFn) {
    let mut k = 0usize;
    let mut pre: Vec<Stmt> = vec![];
    for a in f.sig.inputs.iter_mut() {
        let FnArg::Typed(pt) = a else { continue };
        if let Pat::Tuple(p) = (*pt.pat).clone() {
            let v = quote::format_ident!("__p{}", k);
            k += 1;
            pre.push(parse_quote!(let #p = #v;));
            *pt.pat = parse_quote!(#v);
        }
    }
    pre.extend(f.block.stmts.drain(..));
    f.block.stmts = pre;
}

fn put(g: &mut Generics, s: &Sub) {
    let extra = &s.extra;
    if !extra.is_empty() {
        g.where_clause = Some(parse_quote!(where #(#extra),*));
    }
}

#[derive(Default)]
struct Calls {
    ix: BTreeSet<String>, // parameters whose type is a SliceIndex
    tensor: bool,         // self is a tensor
}
// those of a signature
fn indices(sig: &Signature) -> Calls {
    let mut c = Calls::default();
    let Some(w) = &sig.generics.where_clause else { return c };
    for p in &w.predicates {
        let WherePredicate::Type(pt) = p else { continue };
        if pt.bounds.to_token_stream().to_string() != "SliceIndex" {
            continue;
        }
        let t = pt.bounded_ty.to_token_stream().to_string();
        for a in &sig.inputs {
            if let FnArg::Typed(a) = a {
                if a.ty.to_token_stream().to_string() == t {
                    c.ix.insert(a.pat.to_token_stream().to_string());
                }
            }
        }
    }
    c
}
impl VisitMut for Calls {
    fn visit_stmt_mut(&mut self, st: &mut Stmt) {
        if let Stmt::Macro(m) = st {
            let n = m.mac.path.segments.last().unwrap().ident.to_string();
            if n == "debug_assert" {
                let a: Punctuated<Expr, Token![,]> =
                    m.mac.parse_body_with(Punctuated::parse_terminated).unwrap();
                let c = a.first().unwrap();
                *st = parse_quote!(assert!(#c););
            } else if n == "ck_dim_eq" || n == "ck_dim_div" {
                // a => b, c, ..
                struct Ck(Expr, Punctuated<Expr, Token![,]>);
                impl parse::Parse for Ck {
                    fn parse(i: parse::ParseStream) -> Result<Self> {
                        let a = i.parse()?;
                        i.parse::<Token![=>]>()?;
                        Ok(Ck(a, Punctuated::parse_terminated(i)?))
                    }
                }
                let Ck(a, bs) = m.mac.parse_body().unwrap();
                let bs: Vec<Expr> = bs.into_iter().collect();
                let mut c: Expr = parse_quote!(true);
                for (i, b) in bs.iter().enumerate() {
                    let e: Expr = if n == "ck_dim_eq" { parse_quote!(#a == #b) } else { parse_quote!((#a) % (#b) == 0) };
                    c = if i == 0 { e } else { parse_quote!(#c && #e) };
                }
                *st = parse_quote!(assert!(#c););
            }
        }
        visit_mut::visit_stmt_mut(self, st)
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        self.rewrite(e);
        if self.tensor {
            // what a rule put in: self.iter_mut() again
            visit_mut::visit_expr_mut(self, e);
        }
    }
    fn visit_pat_mut(&mut self, p: &mut Pat) {
        visit_mut::visit_pat_mut(self, p);
        if let Pat::Macro(m) = p {
            if m.mac.path.is_ident("zip_args") {
                let a: Punctuated<Ident, Token![,]> =
                    m.mac.parse_body_with(Punctuated::parse_terminated).unwrap();
                let it = a.iter();
                *p = parse_quote!((#(#it),*));
            }
        }
    }
}
impl Calls {
    fn rewrite(&mut self, e: &mut Expr) {
        match e {
            Expr::Macro(m) if m.mac.path.is_ident("zip") => {
                let t = m.mac.tokens.clone();
                *e = parse_quote!(izip!(#t));
            }
            Expr::MethodCall(m) if m.method == "fold_with_one" => {
                if let Some(Expr::Closure(c)) = m.args.iter().nth(2) {
                    let (r, s, i, b) = (&m.receiver, &m.args[0], &m.args[1], &c.body);
                    let (a, x, y) = (&c.inputs[0], &c.inputs[1], &c.inputs[2]);
                    *e = parse_quote!({
                        assert!(#r.len() == #s.len());
                        let mut #a = #i;
                        for (#x, #y) in izip!(#r.iter(), #s.iter()) {
                            #a = #b;
                        }
                        #a
                    });
                }
            }
            Expr::MethodCall(m) if m.method == "update_with_one" => {
                if let Some(Expr::Closure(c)) = m.args.iter().nth(1) {
                    let (r, s, x, y, b) = (&m.receiver, &m.args[0], &c.inputs[0], &c.inputs[1], &c.body);
                    let w: Expr = if self.tensor && r.to_token_stream().to_string() == "self" {
                        parse_quote!(self.as_mut_tensor())
                    } else {
                        (**r).clone()
                    };
                    *e = parse_quote!({
                        assert!(#r.len() == #s.len());
                        for (#x, #y) in izip!(#w.iter_mut(), #s.iter()) {
                            #b;
                        }
                    });
                }
            }
            Expr::MethodCall(m) if m.method == "update_with_element" => {
                if let Some(Expr::Closure(c)) = m.args.iter().nth(1) {
                    let (r, s, x, y, b) = (&m.receiver, &m.args[0], &c.inputs[0], &c.inputs[1], &c.body);
                    *e = parse_quote!({
                        let #y = #s;
                        for #x in #r.iter_mut() {
                            #b;
                        }
                    });
                }
            }
            Expr::MethodCall(m) if m.method == "update_with" => {
                if let Some(Expr::Closure(c)) = m.args.iter().next() {
                    let (r, x, b) = (&m.receiver, &c.inputs[0], &c.body);
                    *e = parse_quote!({
                        for #x in #r.iter_mut() {
                            #b;
                        }
                    });
                }
            }
            // the norm pass knows a tensor by the call it comes from
            Expr::MethodCall(m) if self.tensor && m.method == "iter_mut" && m.receiver.to_token_stream().to_string() == "self" => {
                m.receiver = Box::new(parse_quote!(self.as_mut_tensor()));
            }
            // x.split_at_mut(i): the wrapper that also says the lengths stay
            Expr::MethodCall(m) if m.method == "split_at_mut" && m.args.len() == 1 => {
                let (v, i) = (&m.receiver, &m.args[0]);
                *e = parse_quote!(crate::cc::split_at_mut(#v, #i));
            }
            // AsRef<[T]> and AsMut<[T]> of a container
            Expr::MethodCall(m) if (m.method == "as_ref" || m.method == "as_mut") && m.args.is_empty() => {
                m.method = quote::format_ident!("{}", if m.method == "as_ref" { "as_slice" } else { "as_mut_slice" });
            }
            // x[i], i a parameter of type SliceIndex: i.index(x)
            Expr::Reference(rf) => {
                if let Expr::Index(ix) = &*rf.expr {
                    if let Expr::Path(q) = &*ix.index {
                        if q.path.get_ident().map_or(false, |i| self.ix.contains(&i.to_string())) {
                            let (v, i) = (&ix.expr, &ix.index);
                            *e = if rf.mutability.is_some() { parse_quote!(#i.index_mut(#v)) } else { parse_quote!(#i.index(#v)) };
                        }
                    }
                }
            }
            Expr::MethodCall(m) if m.method == "fill_with_one" => {
                if let Some(Expr::Closure(c)) = m.args.iter().nth(1) {
                    let (r, s, p, b) = (&m.receiver, &m.args[0], &c.inputs[0], &c.body);
                    *e = parse_quote!({
                        assert!(#r.len() == #s.len());
                        for (__o, #p) in izip!(#r.iter_mut(), #s.iter()) {
                            *__o = #b;
                        }
                    });
                }
            }
            _ => {}
        }
    }
}

// macro_rules! m { ($a: ident, .., $($rest:tt)*) => { items } }: the names of $a, the name of $rest, the items
struct Rule(Vec<String>, String, proc_macro2::TokenStream);
fn rule(m: &Macro) -> Option<Rule> {
    use proc_macro2::TokenTree as T;
    let t: Vec<T> = m.tokens.clone().into_iter().collect();
    let (T::Group(pat), T::Group(body)) = (t.first()?, t.get(3)?) else { return None };
    if t.iter().filter(|x| matches!(x, T::Group(_))).count() != 2 {
        return None;
    }
    let (mut names, mut rest) = (vec![], String::new());
    let p: Vec<T> = pat.stream().into_iter().collect();
    for i in 0..p.len() {
        if p[i].to_string() != "$" {
            continue;
        }
        match p.get(i + 1)? {
            T::Ident(n) => names.push(n.to_string()),
            T::Group(g) => rest = g.stream().into_iter().nth(1)?.to_string(),
            _ => return None,
        }
    }
    if rest.is_empty() {
        return None;
    }
    Some(Rule(names, rest, body.stream()))
}
fn expand(r: &Rule, m: &Macro) -> proc_macro2::TokenStream {
    use proc_macro2::{Group, TokenStream, TokenTree as T};
    let mut rest: Vec<T> = m.tokens.clone().into_iter().collect();
    let mut args: Vec<TokenStream> = vec![];
    for _ in &r.0 {
        let k = rest.iter().position(|x| x.to_string() == ",").unwrap_or(rest.len());
        let tail = rest.split_off((k + 1).min(rest.len()));
        rest.truncate(k);
        args.push(rest.into_iter().collect());
        rest = tail;
    }
    let rest: TokenStream = rest.into_iter().collect();
    fn go(t: TokenStream, r: &Rule, args: &[TokenStream], rest: &TokenStream) -> TokenStream {
        let v: Vec<T> = t.into_iter().collect();
        let mut out = TokenStream::new();
        let mut i = 0;
        while i < v.len() {
            if v[i].to_string() == "$" {
                match v.get(i + 1) {
                    Some(T::Ident(n)) => {
                        if let Some(k) = r.0.iter().position(|x| n == x) {
                            out.extend(args[k].clone());
                        }
                        i += 2;
                        continue;
                    }
                    Some(T::Group(_)) => {
                        out.extend(rest.clone());
                        i += 3; // $ ( .. ) *
                        continue;
                    }
                    _ => {}
                }
            }
            match &v[i] {
                T::Group(g) => out.extend([T::Group(Group::new(g.delimiter(), go(g.stream(), r, args, rest)))]),
                x => out.extend([x.clone()]),
            }
            i += 1;
        }
        out
    }
    go(r.2.clone(), r, &args, &rest)
}
// calls in impls of the file's own macro_rules
fn macros(f: &mut File) {
    let mut rules: std::collections::BTreeMap<String, Rule> = Default::default();
    for it in &f.items {
        if let Item::Macro(m) = it {
            if let (Some(n), Some(r)) = (&m.ident, rule(&m.mac)) {
                rules.insert(n.to_string(), r);
            }
        }
    }
    for it in f.items.iter_mut() {
        let Item::Impl(im) = it else { continue };
        let mut items = vec![];
        for ii in im.items.drain(..) {
            if let ImplItem::Macro(m) = &ii {
                let n = m.mac.path.segments.last().unwrap().ident.to_string();
                if let Some(r) = rules.get(&n) {
                    if let Ok(x) = syn::parse2::<ImplItem>(expand(r, &m.mac)) {
                        items.push(x);
                        continue;
                    }
                }
            }
            items.push(ii);
        }
        im.items = items;
    }
}

pub fn file(f: &mut File) {
    macros(f);
    for it in f.items.iter_mut() {
        match it {
            Item::Struct(s) => {
                s.generics.where_clause = None;
                for t in s.generics.type_params_mut() {
                    t.bounds.clear();
                }
            }
            Item::Fn(x) => {
                let mut s = split(&mut x.sig.generics, None);
                s.visit_item_fn_mut(x);
                put(&mut x.sig.generics, &s);
                Calls::default().visit_item_fn_mut(x);
                put(&mut x.sig.generics, &s);
            }
            Item::Impl(im) => {
                let is_tensor = im.self_ty.to_token_stream().to_string().starts_with("Tensor <");
                let cont: Option<String> = im.generics.type_params().last().map(|t| t.ident.to_string());
                let vecs: Vec<String> = im.generics.type_params().map(|t| t.ident.to_string()).collect();
                let st = im.self_ty.to_token_stream().to_string();
                let mut s = split(&mut im.generics, None);
                for v in vecs {
                    if st.contains(&format!("Vec < {} >", v)) {
                        s.ids.insert(v.clone());
                        im.generics.params = im.generics.params.iter().filter(|p| !matches!(p, GenericParam::Type(t) if t.ident == v.as_str())).cloned().collect();
                        im.generics.where_clause = None;
                    }
                }
                if im.generics.params.is_empty() {
                    im.generics.lt_token = None;
                    im.generics.gt_token = None;
                }
                if !s.ids.is_empty() {
                    s.visit_item_impl_mut(im);
                }
                let mut item: Option<Type> = None;
                if im.trait_.as_ref().map_or(false, |(_, p, _)| p.is_ident("Iterator")) {
                    im.trait_ = None;
                    im.items.retain(|i| match i {
                        ImplItem::Type(t) => {
                            item = Some(t.ty.clone());
                            false
                        }
                        _ => true,
                    });
                }
                for ii in im.items.iter_mut() {
                    if let ImplItem::Fn(x) = ii {
                        if let Some(t) = &item {
                            let t = t.clone();
                            struct It(Type);
                            impl VisitMut for It {
                                fn visit_type_mut(&mut self, t: &mut Type) {
                                    if t.to_token_stream().to_string() == "Self :: Item" {
                                        *t = self.0.clone();
                                    }
                                    visit_mut::visit_type_mut(self, t)
                                }
                            }
                            It(t).visit_signature_mut(&mut x.sig);
                        }
                        owned(&mut x.sig);
                        tuples(x);
                        let mut s = split(&mut x.sig.generics, cont.as_deref());
                        s.visit_impl_item_fn_mut(x);
                        put(&mut x.sig.generics, &s);
                        let mut cv = indices(&x.sig);
                        cv.tensor = is_tensor;
                        cv.visit_impl_item_fn_mut(x);
                        put(&mut x.sig.generics, &s);
                    }
                }
            }
            _ => {}
        }
    }
}
