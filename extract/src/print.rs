use crate::spec::FnSpec;
use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};

pub struct Printer {
    pub out: String,
    nl: usize,
}

impl Printer {
    pub fn new() -> Self {
        Printer { out: String::new(), nl: 1 }
    }
    pub fn line(&self) -> usize {
        self.nl
    }
    pub fn raw(&mut self, s: &str) {
        self.nl += s.matches('\n').count();
        self.out.push_str(s);
    }
    pub fn tokens(&mut self, ts: TokenStream, sp: Option<&FnSpec>) {
        self.ts(ts, sp);
        self.raw("\n");
    }
    /// everything but a trailing brace group
    pub fn tokens_head(&mut self, ts: TokenStream) {
        let mut v: Vec<TokenTree> = ts.into_iter().collect();
        if let Some(TokenTree::Group(g)) = v.last() {
            if g.delimiter() == Delimiter::Brace {
                v.pop();
            }
        }
        self.ts(v.into_iter().collect(), None);
    }
    fn marker(tts: &[TokenTree], i: usize) -> Option<(String, TokenStream, usize)> {
        // ident __v_x ! group [;]
        if let TokenTree::Ident(id) = &tts[i] {
            let n = id.to_string();
            if n.starts_with("__v_") {
                if let (Some(TokenTree::Punct(p)), Some(TokenTree::Group(g))) = (tts.get(i + 1), tts.get(i + 2)) {
                    if p.as_char() == '!' {
                        let mut used = 3;
                        if let Some(TokenTree::Punct(p)) = tts.get(i + 3) {
                            if p.as_char() == ';' {
                                used = 4;
                            }
                        }
                        return Some((n, g.stream(), used));
                    }
                }
            }
        }
        None
    }
    fn ts(&mut self, ts: TokenStream, sp: Option<&FnSpec>) {
        let tts: Vec<TokenTree> = ts.into_iter().collect();
        let mut i = 0;
        while i < tts.len() {
            if let Some((n, inner, used)) = Self::marker(&tts, i) {
                match n.as_str() {
                    "__v_ret" => {
                        let name = sp.and_then(|s| s.ret.clone()).unwrap_or_else(|| "r".into());
                        self.raw(&format!("({}: ", name));
                        self.ts(inner, sp);
                        self.raw(") ");
                        i += 3;
                        continue;
                    }
                    "__v_at" => {
                        let k = inner.to_string().trim_matches('"').to_string();
                        if let Some(t) = sp.and_then(|s| s.anchors.get(&k)) {
                            self.raw(&format!("\n{}\n", t));
                        }
                        i += used;
                        continue;
                    }
                    "__v_raw" => {
                        let k = inner.to_string();
                        let lit: syn::LitStr = syn::parse_str(&k).unwrap();
                        self.raw(&format!(" {} ", lit.value()));
                        i += if used == 4 { 4 } else { 3 };
                        continue;
                    }
                    _ => {}
                }
            }
            match &tts[i] {
                TokenTree::Group(g) => match g.delimiter() {
                    Delimiter::Brace => {
                        let v: Vec<TokenTree> = g.stream().into_iter().collect();
                        let mut skip = 0;
                        if !v.is_empty() {
                            if let Some((n, inner, used)) = Self::marker(&v, 0) {
                                if n == "__v_sig" {
                                    if let Some(s) = sp {
                                        self.raw(&format!("\n{}\n", s.sig));
                                    }
                                    skip = used;
                                } else if n == "__v_inv" {
                                    // args: "loopN", "auto invariants", "decreases"
                                    let parts: Vec<String> = split_lits(inner);
                                    let user = sp.and_then(|s| s.anchors.get(&parts[0])).cloned().unwrap_or_default();
                                    let has_dec = user.contains("decreases");
                                    let user_inv = user.trim_start().strip_prefix("invariant").map(|x| x.to_string()).unwrap_or(user.clone());
                                    let mut t = String::from("\n");
                                    let exc: String = user_inv.lines().filter_map(|l| l.trim_start().strip_prefix("except ")).collect::<Vec<_>>().join("\n");
                                    let user_inv: String = user_inv.lines().filter(|l| !l.trim_start().starts_with("except ")).collect::<Vec<_>>().join("\n");
                                    if !exc.is_empty() {
                                        t += &format!("invariant_except_break\n{}\n", exc);
                                    }
                                    if !parts[1].is_empty() || !user_inv.trim().is_empty() {
                                        t += "invariant\n";
                                        t += &parts[1];
                                        if !parts[1].is_empty() {
                                            t += ",\n";
                                        }
                                        t += &user_inv;
                                    }
                                    if !has_dec && !parts[2].is_empty() {
                                        let tt = t.trim_end().to_string();
                                        t = tt;
                                        if !t.is_empty() && !t.ends_with(',') {
                                            t += ",";
                                        }
                                        t += &format!("\ndecreases {}\n", parts[2]);
                                    }
                                    self.raw(&t);
                                    skip = used;
                                }
                            }
                        }
                        self.raw("{\n");
                        self.ts(v[skip..].iter().cloned().collect(), sp);
                        self.raw("\n}\n");
                    }
                    Delimiter::Parenthesis => {
                        self.raw("(");
                        self.ts(g.stream(), sp);
                        self.raw(") ");
                    }
                    Delimiter::Bracket => {
                        self.raw("[");
                        self.ts(g.stream(), sp);
                        self.raw("] ");
                    }
                    Delimiter::None => self.ts(g.stream(), sp),
                },
                TokenTree::Ident(id) => {
                    self.raw(&format!("{} ", id));
                }
                TokenTree::Punct(p) => {
                    let c = p.as_char();
                    self.raw(&c.to_string());
                    if c == ';' {
                        self.raw("\n");
                    } else if c != '\'' && p.spacing() == Spacing::Alone {
                        self.raw(" ");
                    }
                }
                TokenTree::Literal(l) => {
                    self.raw(&format!("{} ", l));
                }
            }
            i += 1;
        }
    }
}

fn split_lits(ts: TokenStream) -> Vec<String> {
    ts.into_iter()
        .filter_map(|t| match t {
            TokenTree::Literal(l) => syn::parse_str::<syn::LitStr>(&l.to_string()).ok().map(|s| s.value()),
            _ => None,
        })
        .collect()
}
