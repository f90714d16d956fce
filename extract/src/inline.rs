//! Functions which the pinned tree does not have (helpers a change has extracted) are put back in the place of
//! their calls before anything else is done, so that the contracts of the callers decide them.
use proc_macro2::{Group, TokenStream, TokenTree};
use quote::{quote, ToTokens};
use std::collections::{HashMap, HashSet};
use syn::{visit::Visit, visit_mut::VisitMut, *};

#[derive(Clone)]
pub struct Helper {
    sig: Signature,
    block: Block,
}
#[derive(Default, Clone)]
pub struct Helpers {
    map: HashMap<String, Helper>,
}

const COMMON: &[&str] = &[
    "len", "get", "iter", "clone", "new", "next", "push", "pop", "from", "into", "is_empty", "contains", "insert", "remove", "extend", "map",
    "unwrap", "expect", "default", "first", "last", "take", "read", "write", "to_vec", "as_slice", "as_bytes", "fmt", "eq", "hash", "drop", "find",
];

fn is_test(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| a.path().is_ident("test") || a.path().is_ident("cfg") && a.to_token_stream().to_string().contains("test"))
}

impl Helpers {
    pub fn load(repo: &str, known: &HashSet<String>) -> Self {
        let (mut h, twice) = Self::all(repo, known);
        for t in twice {
            h.map.remove(&t);
        }
        h
    }
    fn all(repo: &str, known: &HashSet<String>) -> (Self, HashSet<String>) {
        let mut h = Helpers::default();
        let mut twice = HashSet::new();
        fn walk(d: &std::path::Path, v: &mut Vec<std::path::PathBuf>) {
            for e in std::fs::read_dir(d).into_iter().flatten().flatten() {
                let p = e.path();
                if p.is_dir() {
                    walk(&p, v);
                } else if p.extension().map_or(false, |x| x == "rs") {
                    v.push(p);
                }
            }
        }
        let mut files = vec![];
        walk(&std::path::Path::new(repo).join("src"), &mut files);
        files.sort();
        for f in files {
            let Ok(t) = std::fs::read_to_string(&f) else { continue };
            let Ok(t) = parse_file(&t) else { continue };
            h.items(&t.items, known, &mut twice);
        }
        (h, twice)
    }
    fn items(&mut self, items: &[Item], known: &HashSet<String>, twice: &mut HashSet<String>) {
        for i in items {
            match i {
                Item::Mod(m) if !is_test(&m.attrs) => {
                    if let Some((_, c)) = &m.content {
                        self.items(c, known, twice);
                    }
                }
                Item::Fn(f) if !is_test(&f.attrs) => self.add(&f.sig, &f.block, known, twice),
                Item::Impl(i) if i.trait_.is_none() => {
                    for x in &i.items {
                        if let ImplItem::Fn(f) = x {
                            self.add(&f.sig, &f.block, known, twice);
                        }
                    }
                }
                _ => {}
            }
        }
    }
    fn add(&mut self, sig: &Signature, block: &Block, known: &HashSet<String>, twice: &mut HashSet<String>) {
        let n = sig.ident.to_string();
        if known.contains(&n) {
            return;
        }
        if self.map.insert(n.clone(), Helper { sig: sig.clone(), block: block.clone() }).is_some() {
            twice.insert(n);
        }
    }
    /// all names of functions under `repo`/src
    pub fn names(repo: &str) -> Vec<String> {
        let (h, _) = Helpers::all(repo, &HashSet::new());
        let mut v: Vec<String> = h.map.keys().cloned().collect();
        v.sort();
        v
    }
    pub fn is_empty(&self) -> bool {
        self.map.is_empty()
    }
    pub fn block(&self, b: &mut Block, notes: &mut Vec<String>) {
        if self.is_empty() {
            return;
        }
        let mut used = HashSet::new();
        idents(&b.to_token_stream(), &mut used);
        let mut i = Inl { h: self, stack: vec![], notes, idents: used };
        i.fn_block(b);
    }
}

fn idents(t: &TokenStream, v: &mut HashSet<String>) {
    for x in t.clone() {
        match x {
            TokenTree::Ident(i) => {
                v.insert(i.to_string());
            }
            TokenTree::Group(g) => idents(&g.stream(), v),
            _ => {}
        }
    }
}
/// names bound by patterns
struct Bound(HashSet<String>);
impl<'a> Visit<'a> for Bound {
    fn visit_pat_ident(&mut self, p: &'a PatIdent) {
        self.0.insert(p.ident.to_string());
        visit::visit_pat_ident(self, p);
    }
}
fn bound(b: &Block) -> HashSet<String> {
    let mut v = Bound(HashSet::new());
    v.visit_block(b);
    v.0
}
/// `return` and `?` outside of closures
#[derive(Default)]
struct Exits {
    ret: usize,
    q: usize,
}
impl<'a> Visit<'a> for Exits {
    fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
    fn visit_expr_return(&mut self, r: &'a ExprReturn) {
        self.ret += 1;
        visit::visit_expr_return(self, r);
    }
    fn visit_expr_try(&mut self, t: &'a ExprTry) {
        self.q += 1;
        visit::visit_expr_try(self, t);
    }
    fn visit_macro(&mut self, m: &'a Macro) {
        let s = m.tokens.to_string();
        if s.contains('?') && !s.starts_with('"') || s.contains("return") {
            self.q += 1;
            self.ret += 1;
        }
    }
}
fn exits(b: &Block) -> (usize, usize) {
    let mut e = Exits::default();
    e.visit_block(b);
    (e.ret, e.q)
}
fn diverges(b: &Block) -> bool {
    matches!(b.stmts.last(), Some(Stmt::Expr(Expr::Return(_), _)))
}
/// returns in tail position become values; `if c { .. return a; } rest` becomes `if c { .. a } else { rest }`
fn tidy(b: &mut Block) {
    for i in 0..b.stmts.len() {
        let hit = match &b.stmts[i] {
            Stmt::Expr(Expr::If(x), _) if x.else_branch.is_none() => diverges(&x.then_branch),
            _ => false,
        };
        if hit && i + 1 < b.stmts.len() {
            let rest: Vec<Stmt> = b.stmts.drain(i + 1..).collect();
            if let Some(Stmt::Expr(Expr::If(mut x), _)) = b.stmts.pop() {
                let mut e = Block { brace_token: Default::default(), stmts: rest };
                tidy(&mut e);
                tidy(&mut x.then_branch);
                x.else_branch = Some((Default::default(), Box::new(Expr::Block(ExprBlock { attrs: vec![], label: None, block: e }))));
                b.stmts.push(Stmt::Expr(Expr::If(x), None));
            }
            return;
        }
    }
    let n = b.stmts.len();
    if n > 0 {
        if let Stmt::Expr(Expr::Return(r), _) = &b.stmts[n - 1] {
            let v = r.expr.as_ref().map(|x| (**x).clone()).unwrap_or(parse_quote!(()));
            b.stmts[n - 1] = Stmt::Expr(v, None);
        }
        if let Stmt::Expr(e, None) = &mut b.stmts[n - 1] {
            tidy_expr(e);
        }
    }
}
fn tidy_expr(e: &mut Expr) {
    match e {
        Expr::Return(r) => {
            let v = r.expr.as_ref().map(|x| (**x).clone()).unwrap_or(parse_quote!(()));
            *e = v;
            tidy_expr(e);
        }
        Expr::If(x) if x.else_branch.is_some() => {
            tidy(&mut x.then_branch);
            if let Some((_, y)) = &mut x.else_branch {
                tidy_expr(y);
            }
        }
        Expr::Match(m) => {
            for a in &mut m.arms {
                tidy_expr(&mut a.body);
            }
        }
        Expr::Block(x) => tidy(&mut x.block),
        _ => {}
    }
}
/// the value of a block whose result is followed by `?`
fn opened(b: &mut Block) {
    if let Some(Stmt::Expr(e, None)) = b.stmts.last_mut() {
        opened_expr(e);
    }
}
fn opened_expr(e: &mut Expr) {
    match e {
        Expr::Call(c) if c.args.len() == 1 => {
            let f = c.func.to_token_stream().to_string();
            if f == "Ok" || f == "Some" {
                *e = c.args[0].clone();
            } else if f == "Err" {
                let x = e.clone();
                *e = parse_quote!(return #x);
            } else {
                let x = e.clone();
                *e = parse_quote!(#x?);
            }
        }
        Expr::Path(p) if p.path.is_ident("None") => *e = parse_quote!(return None),
        Expr::If(x) if x.else_branch.is_some() => {
            opened(&mut x.then_branch);
            if let Some((_, y)) = &mut x.else_branch {
                opened_expr(y);
            }
        }
        Expr::Match(m) => {
            for a in &mut m.arms {
                opened_expr(&mut a.body);
            }
        }
        Expr::Block(x) => opened(&mut x.block),
        Expr::Return(_) => {}
        _ => {
            let x = e.clone();
            *e = parse_quote!((#x)?);
        }
    }
}
fn simple(e: &Expr) -> bool {
    match e {
        Expr::Path(p) => p.path.segments.len() == 1,
        Expr::Lit(_) => true,
        Expr::Field(f) => simple(&f.base),
        Expr::Reference(r) => simple(&r.expr) && !matches!(&*r.expr, Expr::Lit(_)),
        Expr::Unary(u) => matches!(u.op, UnOp::Deref(_)) && simple(&u.expr),
        Expr::Paren(p) => simple(&p.expr),
        _ => false,
    }
}
/// replace a name by an expression
struct Subst<'a>(&'a HashMap<String, Expr>);
impl Subst<'_> {
    fn of(&self, e: &Expr) -> Option<Expr> {
        match e {
            Expr::Path(p) if p.qself.is_none() => p.path.get_ident().and_then(|i| self.0.get(&i.to_string())).cloned(),
            _ => None,
        }
    }
    fn tokens(&self, t: TokenStream) -> TokenStream {
        let v: Vec<TokenTree> = t.into_iter().collect();
        let mut out = TokenStream::new();
        for (k, t) in v.iter().enumerate() {
            let dot = k > 0 && matches!(&v[k - 1], TokenTree::Punct(p) if p.as_char() == '.');
            match t {
                TokenTree::Ident(i) if !dot && self.0.contains_key(&i.to_string()) => {
                    let e = &self.0[&i.to_string()];
                    match e {
                        Expr::Path(_) => out.extend(quote!(#e)),
                        _ => out.extend(quote!((#e))),
                    }
                }
                TokenTree::Group(g) => {
                    let s = self.tokens(g.stream());
                    out.extend(std::iter::once(TokenTree::Group(Group::new(g.delimiter(), s))));
                }
                o => out.extend(std::iter::once(o.clone())),
            }
        }
        out
    }
}
impl VisitMut for Subst<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            // (&x).m() is x.m(); *&x is x; (&x).f is x.f
            Expr::MethodCall(m) => {
                if let Some(Expr::Reference(r)) = self.of(&m.receiver) {
                    m.receiver = r.expr;
                } else {
                    self.visit_expr_mut(&mut m.receiver);
                }
                for a in m.args.iter_mut() {
                    self.visit_expr_mut(a);
                }
                return;
            }
            Expr::Field(f) => {
                if let Some(Expr::Reference(r)) = self.of(&f.base) {
                    f.base = r.expr;
                    return;
                }
            }
            Expr::Index(f) => {
                if let Some(Expr::Reference(r)) = self.of(&f.expr) {
                    f.expr = r.expr;
                    self.visit_expr_mut(&mut f.index);
                    return;
                }
            }
            Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) => {
                if let Some(Expr::Reference(r)) = self.of(&u.expr) {
                    *e = *r.expr;
                    return;
                }
            }
            _ => {}
        }
        if let Some(x) = self.of(e) {
            *e = match x {
                Expr::Path(_) | Expr::Lit(_) | Expr::Field(_) => x,
                _ => parse_quote!((#x)),
            };
            return;
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_field_value_mut(&mut self, f: &mut FieldValue) {
        if f.colon_token.is_none() && self.of(&f.expr).is_some() {
            f.colon_token = Some(Default::default());
        }
        visit_mut::visit_field_value_mut(self, f);
    }
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        m.tokens = self.tokens(m.tokens.clone());
    }
}

#[derive(Clone, Copy, PartialEq)]
enum Mode {
    Plain,
    Try,
    Tail,
}
struct Inl<'a> {
    h: &'a Helpers,
    stack: Vec<String>,
    notes: &'a mut Vec<String>,
    idents: HashSet<String>,
}
impl Inl<'_> {
    /// the helper a call goes to, and its arguments (the receiver first)
    fn target(&self, e: &Expr) -> Option<(String, Vec<Expr>)> {
        match e {
            Expr::Paren(p) => self.target(&p.expr),
            Expr::Call(c) => {
                let Expr::Path(p) = &*c.func else { return None };
                let n = p.path.segments.last()?.ident.to_string();
                let h = self.h.map.get(&n)?;
                if p.path.segments.len() > 1 && COMMON.contains(&n.as_str()) || self.stack.contains(&n) {
                    return None;
                }
                (h.sig.inputs.len() == c.args.len()).then(|| (n, c.args.iter().cloned().collect()))
            }
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                let h = self.h.map.get(&n)?;
                if COMMON.contains(&n.as_str()) || self.stack.contains(&n) || !matches!(h.sig.inputs.first(), Some(FnArg::Receiver(_))) {
                    return None;
                }
                let mut a = vec![(*m.receiver).clone()];
                a.extend(m.args.iter().cloned());
                (h.sig.inputs.len() == a.len()).then(|| (n, a))
            }
            _ => None,
        }
    }
    fn body(&mut self, e: &Expr, mode: Mode) -> Option<Block> {
        let (n, args) = self.target(e)?;
        if self.stack.len() > 4 {
            return None;
        }
        let h = self.h.map[&n].clone();
        let mut b = h.block.clone();
        tidy(&mut b);
        if mode == Mode::Try {
            opened(&mut b);
        }
        let (ret, q) = exits(&b);
        match mode {
            Mode::Plain if ret + q > 0 => return None,
            Mode::Try => {
                // a return left in the body has to be an error
                struct R(bool);
                impl<'a> Visit<'a> for R {
                    fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
                    fn visit_expr_return(&mut self, r: &'a ExprReturn) {
                        let t = r.expr.as_ref().map(|x| x.to_token_stream().to_string()).unwrap_or_default();
                        self.0 &= t.starts_with("Err") || t == "None";
                    }
                }
                let mut r = R(true);
                r.visit_block(&b);
                if !r.0 {
                    return None;
                }
            }
            _ => {}
        }
        // calls to other helpers
        self.stack.push(n.clone());
        match mode {
            Mode::Tail => self.fn_block(&mut b),
            _ => self.visit_block_mut(&mut b),
        }
        self.stack.pop();
        // parameters
        let names = bound(&b);
        let mut map = HashMap::new();
        let mut lets: Vec<Stmt> = vec![];
        let mut letnames: HashSet<String> = HashSet::new();
        for (i, a) in h.sig.inputs.iter().zip(args) {
            let mut ai = HashSet::new();
            idents(&a.to_token_stream(), &mut ai);
            if ai.iter().any(|x| letnames.contains(x)) {
                return None;
            }
            match i {
                FnArg::Receiver(_) => {
                    if a.to_token_stream().to_string() != "self" {
                        if !simple(&a) || ai.iter().any(|x| names.contains(x)) {
                            return None;
                        }
                        map.insert("self".to_string(), a);
                    }
                }
                FnArg::Typed(t) => {
                    let Pat::Ident(p) = &*t.pat else { return None };
                    let pn = p.ident.to_string();
                    let same = a.to_token_stream().to_string() == pn;
                    if same && p.mutability.is_none() {
                        continue;
                    }
                    let clash = names.contains(&pn) || ai.iter().any(|x| names.contains(x));
                    if p.mutability.is_none() && simple(&a) && !clash {
                        map.insert(pn, a);
                    } else {
                        let ty = &t.ty;
                        let tt = ty.to_token_stream().to_string();
                        let plain = h.sig.generics.params.is_empty() && !tt.contains("impl ") && !tt.contains("Self");
                        lets.push(if plain { parse_quote!(let #p: #ty = #a;) } else { parse_quote!(let #p = #a;) });
                        letnames.insert(pn);
                    }
                }
            }
        }
        // names of substituted arguments may not be captured by the lets
        for a in map.values() {
            let mut ai = HashSet::new();
            idents(&a.to_token_stream(), &mut ai);
            if ai.iter().any(|x| letnames.contains(x)) {
                return None;
            }
        }
        Subst(&map).visit_block_mut(&mut b);
        lets.append(&mut b.stmts);
        self.notes.push(format!("{n} put in the place of its call"));
        Some(Block { brace_token: Default::default(), stmts: lets })
    }
    fn as_expr(b: Block) -> Expr {
        if b.stmts.len() == 1 {
            if let Stmt::Expr(e, None) = &b.stmts[0] {
                return match e {
                    Expr::Path(_) | Expr::Call(_) | Expr::MethodCall(_) | Expr::Try(_) | Expr::Lit(_) | Expr::If(_) | Expr::Match(_) | Expr::Field(_) => e.clone(),
                    _ => parse_quote!((#e)),
                };
            }
        }
        Expr::Block(ExprBlock { attrs: vec![], label: None, block: b })
    }
    /// a body of a function: its tail is in tail position
    fn fn_block(&mut self, b: &mut Block) {
        let n = b.stmts.len();
        if n > 0 {
            if let Stmt::Expr(e, None) = &mut b.stmts[n - 1] {
                self.tail(e);
            }
        }
        self.visit_block_mut(b);
    }
    fn tail(&mut self, e: &mut Expr) {
        if let Some(b) = self.body(e, Mode::Tail) {
            *e = Self::as_expr(b);
            return;
        }
        match e {
            Expr::If(x) => {
                let n = x.then_branch.stmts.len();
                if n > 0 {
                    if let Stmt::Expr(y, None) = &mut x.then_branch.stmts[n - 1] {
                        self.tail(y);
                    }
                }
                if let Some((_, y)) = &mut x.else_branch {
                    self.tail(y);
                }
            }
            Expr::Match(m) => {
                for a in &mut m.arms {
                    self.tail(&mut a.body);
                }
            }
            Expr::Block(x) => {
                let n = x.block.stmts.len();
                if n > 0 {
                    if let Stmt::Expr(y, None) = &mut x.block.stmts[n - 1] {
                        self.tail(y);
                    }
                }
            }
            Expr::Return(r) => {
                if let Some(y) = &mut r.expr {
                    self.tail(y);
                }
            }
            _ => {}
        }
    }
}
impl VisitMut for Inl<'_> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        visit_mut::visit_block_mut(self, b);
        // statements of a block in the place of a call join the block they are in, unless they bind a name known there
        let mut out: Vec<Stmt> = vec![];
        for s in std::mem::take(&mut b.stmts) {
            let inner = match &s {
                Stmt::Local(l) => l.init.as_ref().filter(|i| i.diverge.is_none()).map(|i| (*i.expr).clone()),
                Stmt::Expr(e, _) => Some(e.clone()),
                _ => None,
            };
            let flat = match &inner {
                Some(Expr::Block(x)) if x.label.is_none() && x.attrs.is_empty() => {
                    matches!(s, Stmt::Local(_)) && bound(&x.block).iter().all(|n| !self.idents.contains(n))
                }
                _ => false,
            };
            if flat {
                if let (Some(Expr::Block(x)), Stmt::Local(mut l)) = (inner, s.clone()) {
                    let mut v = x.block.stmts;
                    if let Some(Stmt::Expr(t, None)) = v.pop() {
                        out.extend(v);
                        l.init.as_mut().unwrap().expr = Box::new(t);
                        out.push(Stmt::Local(l));
                        continue;
                    }
                }
            }
            out.push(s);
        }
        b.stmts = out;
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Try(t) = e {
            let inner = (*t.expr).clone();
            if let Some(b) = self.body(&inner, Mode::Try) {
                *e = Self::as_expr(b);
                return;
            }
        }
        if let Expr::Return(r) = e {
            if let Some(y) = &mut r.expr {
                if self.stack.is_empty() {
                    if let Some(b) = self.body(&y.clone(), Mode::Tail) {
                        *y = Box::new(Self::as_expr(b));
                        return;
                    }
                }
            }
        }
        if let Some(b) = self.body(&e.clone(), Mode::Plain) {
            *e = Self::as_expr(b);
            return;
        }
        visit_mut::visit_expr_mut(self, e);
    }
}
