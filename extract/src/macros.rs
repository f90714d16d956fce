//! Expansion of the crate's own `macro_rules!` (fragments expr, literal, ident, tt;
//! an optional or repeated group at the end of a pattern).
use proc_macro2::{Group, TokenStream, TokenTree};
use quote::{quote, ToTokens};
use std::collections::HashMap;
use syn::parse::{ParseStream, Parser};
use syn::visit_mut::{self, VisitMut};
use syn::*;

#[derive(Clone, Default)]
pub struct Macros {
    pub rules: HashMap<String, Vec<(TokenStream, TokenStream)>>,
}

impl Macros {
    pub fn add(&mut self, items: &[Item]) {
        for i in items {
            if let Item::Macro(m) = i {
                if let (Some(n), true) = (&m.ident, m.mac.path.is_ident("macro_rules")) {
                    let t: Vec<TokenTree> = m.mac.tokens.clone().into_iter().collect();
                    let mut v = vec![];
                    let mut k = 0;
                    while k + 3 < t.len() + 0 {
                        // pattern => body ;
                        if let (TokenTree::Group(p), TokenTree::Group(b)) = (&t[k], &t[k + 3]) {
                            v.push((p.stream(), b.stream()));
                        }
                        k += 5;
                    }
                    self.rules.insert(n.to_string(), v);
                }
            }
        }
    }
    fn expand(&self, m: &Macro) -> Option<TokenStream> {
        let n = m.path.segments.last()?.ident.to_string();
        for (p, b) in self.rules.get(&n)? {
            let mut env = HashMap::new();
            if matches(&p.clone().into_iter().collect::<Vec<_>>(), m.tokens.clone(), &mut env) {
                return Some(subst(b.clone(), &env));
            }
        }
        None
    }
    pub fn block(&self, b: &mut Block) {
        let mut v = V(self, 0);
        v.visit_block_mut(b);
    }
}

fn split<T: parse::Parse>(ts: TokenStream) -> Option<(T, TokenStream)> {
    (|i: ParseStream| {
        let e: T = i.parse()?;
        let r: TokenStream = i.parse()?;
        Ok((e, r))
    })
    .parse2(ts)
    .ok()
}

fn matches(p: &[TokenTree], input: TokenStream, env: &mut HashMap<String, TokenStream>) -> bool {
    if p.is_empty() {
        return input.is_empty();
    }
    if let TokenTree::Punct(d) = &p[0] {
        if d.as_char() == '$' {
            match &p[1] {
                TokenTree::Ident(name) => {
                    // $name : frag
                    let TokenTree::Ident(frag) = &p[3] else { return false };
                    let r = match frag.to_string().as_str() {
                        "expr" => split::<Expr>(input).map(|(e, r)| {
                            let simple = matches!(e, Expr::Path(_) | Expr::Lit(_) | Expr::Call(_) | Expr::MethodCall(_) | Expr::Macro(_) | Expr::Field(_) | Expr::Paren(_));
                            (if simple { e.to_token_stream() } else { quote!((#e)) }, r)
                        }),
                        "literal" => split::<Lit>(input).map(|(e, r)| (e.to_token_stream(), r)),
                        "ident" => split::<Ident>(input).map(|(e, r)| (e.to_token_stream(), r)),
                        "tt" => split::<TokenTree>(input).map(|(e, r)| (e.to_token_stream(), r)),
                        _ => None,
                    };
                    return match r {
                        Some((e, r)) => {
                            env.insert(name.to_string(), e);
                            matches(&p[4..], r, env)
                        }
                        None => false,
                    };
                }
                TokenTree::Group(g) => {
                    let inner: Vec<TokenTree> = g.stream().into_iter().collect();
                    let TokenTree::Punct(op) = &p[2] else { return false };
                    // $(,)?  or  $($x:tt)*
                    if op.as_char() == '?' {
                        if input.is_empty() {
                            return matches(&p[3..], input, env);
                        }
                        return inner.len() == 1 && input.to_string().trim() == inner[0].to_string() && matches(&p[3..], TokenStream::new(), env);
                    }
                    if let (Some(TokenTree::Ident(n)), true) = (inner.get(1), inner.len() == 4) {
                        env.insert(n.to_string(), input);
                        return p.len() == 3;
                    }
                    return false;
                }
                _ => return false,
            }
        }
    }
    let mut it = input.into_iter();
    match it.next() {
        Some(t) => t.to_string() == p[0].to_string() && matches(&p[1..], it.collect(), env),
        None => false,
    }
}

fn subst(b: TokenStream, env: &HashMap<String, TokenStream>) -> TokenStream {
    let t: Vec<TokenTree> = b.into_iter().collect();
    let mut out = TokenStream::new();
    let mut i = 0;
    while i < t.len() {
        match &t[i] {
            TokenTree::Punct(d) if d.as_char() == '$' => match t.get(i + 1) {
                Some(TokenTree::Ident(n)) => {
                    match env.get(&n.to_string()) {
                        Some(e) => out.extend(e.clone()),
                        None => out.extend(quote!(#n)), // $crate
                    }
                    i += 2;
                    continue;
                }
                Some(TokenTree::Group(g)) => {
                    out.extend(subst(g.stream(), env));
                    i += 3;
                    continue;
                }
                _ => {}
            },
            TokenTree::Group(g) => out.extend(std::iter::once(TokenTree::Group(Group::new(g.delimiter(), subst(g.stream(), env))))),
            o => out.extend(std::iter::once(o.clone())),
        }
        i += 1;
    }
    out
}

struct V<'a>(&'a Macros, usize);
impl<'a> VisitMut for V<'a> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        for _ in 0..8 {
            let mut changed = false;
            let mut out = vec![];
            for s in std::mem::take(&mut b.stmts) {
                if let Stmt::Macro(m) = &s {
                    if let Some(t) = self.0.expand(&m.mac) {
                        if let Ok(v) = Block::parse_within.parse2(t) {
                            changed = true;
                            out.extend(v);
                            continue;
                        }
                    }
                }
                out.push(s);
            }
            b.stmts = out;
            if !changed {
                break;
            }
        }
        visit_mut::visit_block_mut(self, b);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Macro(m) = e {
            if let Some(t) = self.0.expand(&m.mac) {
                if let Ok(x) = parse2::<Expr>(t.clone()) {
                    *e = x;
                } else if let Ok(v) = Block::parse_within.parse2(t) {
                    *e = parse_quote!({ #(#v)* });
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}
