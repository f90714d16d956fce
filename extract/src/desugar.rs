//! Desugaring of one extracted function body.  Every rewrite is semantics
//! preserving by the definition of the construct and is listed in DESIGN.md.
use quote::{format_ident, quote, ToTokens};
use std::collections::{HashMap, HashSet};
use syn::visit_mut::{self, VisitMut};
use syn::*;

#[derive(Clone, Debug, PartialEq)]
pub enum Kind {
    Int,
    Scalar,
    Ptr,
    Tuple(Vec<Kind>),
    Unknown,
}

#[derive(Default, Clone)]
pub struct Cfg {
    pub scalars: bool,
    pub bitops: bool, // `&` and `|` between values that are not integers are the operator traits' methods
    pub fields: HashMap<String, Kind>,
    pub calls: HashMap<String, Kind>,
    pub fns: HashMap<String, String>, // method name -> free function (receiver first)
    pub optmap: bool,
    pub ranges: bool,
    pub errtypes: HashSet<String>,
    pub unwrap_match: bool,
    pub pointers: bool, // raw pointers, statics behind locks, thread locals
    pub passes: HashMap<String, String>,
}

#[derive(Default, Clone)]
pub struct Overlay {
    pub spec: String,
    pub ret: String,
    pub loops: HashMap<usize, String>,
    pub anchors: Vec<(String, String)>, // anchor, text
    pub nloops: Option<usize>,
    pub kinds: HashMap<String, Kind>,
    pub acctys: HashMap<usize, String>,
}

pub fn norm<T: ToTokens>(t: &T) -> String {
    t.to_token_stream().to_string().chars().filter(|c| !c.is_whitespace()).collect()
}

/// the expression is a `Result` (and not an `Option`)
fn is_result(e: &Expr) -> bool {
    match e {
        Expr::MethodCall(m) => {
            let n = m.method.to_string();
            n == "map_err" || n == "ok_or" || n == "ok_or_else" || n.starts_with("try_") || (n == "map" && is_result(&m.receiver))
        }
        Expr::Call(c) => matches!(&*c.func, Expr::Path(p) if p.path.segments.last().map_or(false, |s| s.ident.to_string().starts_with("try_"))),
        Expr::Paren(p) => is_result(&p.expr),
        _ => false,
    }
}

/// `x.map(f).map_err(g)` is `x.map_err(g).map(f)` (error values are opaque)
fn swap_map_err(e: &mut Expr) {
    if let Expr::Paren(p) = e {
        if matches!(&*p.expr, Expr::MethodCall(m) if m.method == "map_err") {
            *e = (*p.expr).clone();
        }
    }
    if let Expr::MethodCall(m) = e {
        if m.method == "map_err" {
            if let Expr::MethodCall(r) = &*m.receiver {
                if r.method == "map" || r.method == "and_then" {
                    let mut x: Expr = {
                        let mut q = m.clone();
                        q.receiver = r.receiver.clone();
                        Expr::MethodCall(q)
                    };
                    swap_map_err(&mut x);
                    let mut r = r.clone();
                    r.receiver = Box::new(x);
                    *e = Expr::MethodCall(r);
                }
            }
        }
    }
}

pub struct Cx<'a> {
    pub cfg: &'a Cfg,
    pub ov: &'a Overlay,
    pub ghosts: &'a mut Vec<String>,
    pub env: Vec<HashMap<String, Kind>>,
    pub nloop: usize,
    pub used: HashSet<usize>,
    pub seen: HashMap<String, usize>,
    pub skeleton: Vec<String>,
    pub notes: Vec<String>,
    pub locals: Vec<String>,
    pub accs: HashMap<usize, String>, // what the body of a `for` builds up
    tmp: usize,
}

fn pe(s: &str) -> Expr {
    parse_str(s).unwrap_or_else(|e| panic!("{e}: {s}"))
}

struct Step {
    name: String,
    args: Vec<Expr>,
}

impl<'a> Cx<'a> {
    pub fn new(cfg: &'a Cfg, ov: &'a Overlay, ghosts: &'a mut Vec<String>) -> Self {
        Self { cfg, ov, ghosts, env: vec![HashMap::new()], nloop: 0, used: HashSet::new(), seen: HashMap::new(), skeleton: vec![], notes: vec![], locals: vec![], accs: HashMap::new(), tmp: 0 }
    }
    fn ghost(&mut self, text: &str) -> Stmt {
        self.ghosts.push(text.to_string());
        let n = Literal_usize(self.ghosts.len() - 1);
        parse_quote!(__G!(#n);)
    }
    /// ghost statements of an anchor
    pub fn at(&mut self, anchor: &str) -> Vec<Stmt> {
        let mut v = vec![];
        for (i, (a, t)) in self.ov.anchors.clone().iter().enumerate() {
            if a == anchor {
                self.used.insert(i);
                v.push(self.ghost(t));
            }
        }
        v
    }
    /// ghost statements of an anchor that has not been placed yet
    fn at_once(&mut self, anchor: &str) -> Vec<Stmt> {
        if self.ov.anchors.iter().enumerate().any(|(i, (a, _))| a == anchor && self.used.contains(&i)) {
            return vec![];
        }
        self.at(anchor)
    }
    fn inv(&mut self, k: usize) -> Option<Stmt> {
        let t = self.ov.loops.get(&k)?.clone();
        self.ghosts.push(t);
        let n = Literal_usize(self.ghosts.len() - 1);
        Some(parse_quote!(__I!(#n);))
    }
    fn fresh(&mut self, p: &str) -> Ident {
        self.tmp += 1;
        format_ident!("__{}{}", p, self.tmp)
    }
    pub fn bind(&mut self, p: &Pat, k: &Kind) {
        match p {
            Pat::Ident(i) => {
                let n = i.ident.to_string();
                if i.subpat.is_some() || !n.chars().next().unwrap().is_uppercase() {
                    self.locals.push(n.clone());
                }
                self.env.last_mut().unwrap().insert(n, k.clone());
            }
            Pat::Reference(r) => self.bind(&r.pat, k),
            Pat::Paren(r) => self.bind(&r.pat, k),
            Pat::Type(t) => {
                let k2 = self.kind_ty(&t.ty);
                self.bind(&t.pat, if k2 == Kind::Unknown { k } else { &k2 })
            }
            Pat::Tuple(t) => {
                for (i, q) in t.elems.iter().enumerate() {
                    let kk = match k {
                        Kind::Tuple(v) => v.get(i).cloned().unwrap_or(Kind::Unknown),
                        Kind::Unknown => Kind::Unknown,
                        o => o.clone(),
                    };
                    self.bind(q, &kk)
                }
            }
            Pat::TupleStruct(t) => {
                for q in &t.elems {
                    self.bind(q, k)
                }
            }
            Pat::Struct(t) => {
                for q in &t.fields {
                    self.bind(&q.pat, &Kind::Unknown)
                }
            }
            Pat::Slice(t) => {
                for q in &t.elems {
                    self.bind(q, k)
                }
            }
            Pat::Or(o) => {
                for q in &o.cases {
                    self.bind(q, k)
                }
            }
            _ => {}
        }
    }
    pub fn kind_ty(&self, t: &Type) -> Kind {
        let s = norm(t);
        if s == "IPtr" {
            return Kind::Ptr;
        }
        if s.contains("Scalar") {
            return Kind::Scalar;
        }
        let base: String = s.replace('&', "").replace("mut", "");
        match base.as_str() {
            "usize" | "u8" | "u16" | "u32" | "u64" | "i32" | "i64" | "u128" | "i128" | "isize" | "i8" | "i16" => Kind::Int,
            "[u32]" | "Vec<u32>" | "[usize]" | "Vec<usize>" | "[u8]" | "Vec<u8>" | "Vec<i32>" => Kind::Int,
            _ => Kind::Unknown,
        }
    }
    pub fn kind(&mut self, e: &Expr) -> Kind {
        match e {
            Expr::Lit(l) => match &l.lit {
                Lit::Int(_) => Kind::Int,
                _ => Kind::Unknown,
            },
            Expr::Cast(_) => Kind::Int,
            Expr::Paren(p) => self.kind(&p.expr),
            Expr::Group(p) => self.kind(&p.expr),
            Expr::Reference(p) => self.kind(&p.expr),
            Expr::Try(p) => self.kind(&p.expr),
            Expr::Unary(u) => match (&u.op, self.kind(&u.expr)) {
                (UnOp::Deref(_), Kind::Ptr) => Kind::Int,
                (_, k) => k,
            },
            Expr::Index(i) => self.kind(&i.expr),
            Expr::Field(f) => {
                if let Member::Named(n) = &f.member {
                    self.cfg.fields.get(&n.to_string()).cloned().unwrap_or(Kind::Unknown)
                } else if let Member::Unnamed(ix) = &f.member {
                    match self.kind(&f.base) {
                        Kind::Tuple(v) => v.get(ix.index as usize).cloned().unwrap_or(Kind::Unknown),
                        Kind::Scalar => Kind::Scalar,
                        _ => Kind::Unknown,
                    }
                } else {
                    Kind::Unknown
                }
            }
            Expr::Path(p) => {
                if let Some(id) = p.path.get_ident() {
                    let s = id.to_string();
                    for m in self.env.iter().rev() {
                        if let Some(k) = m.get(&s) {
                            return k.clone();
                        }
                    }
                    return Kind::Unknown;
                }
                let last = p.path.segments.last().unwrap().ident.to_string();
                if last == "ZERO" || last == "ONE" {
                    Kind::Scalar
                } else {
                    Kind::Unknown
                }
            }
            Expr::Tuple(t) => Kind::Tuple(t.elems.iter().map(|x| self.kind(x)).collect()),
            Expr::Binary(b) => {
                use BinOp::*;
                match b.op {
                    Add(_) | Sub(_) | Mul(_) | Div(_) | Rem(_) => {
                        let (l, r) = (self.kind(&b.left), self.kind(&b.right));
                        if l == Kind::Scalar || r == Kind::Scalar {
                            Kind::Scalar
                        } else if l == Kind::Int || r == Kind::Int {
                            Kind::Int
                        } else {
                            Kind::Unknown
                        }
                    }
                    _ => Kind::Unknown,
                }
            }
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    let last = p.path.segments.last().unwrap().ident.to_string();
                    if let Some(k) = self.cfg.calls.get(&last) {
                        return k.clone();
                    }
                    if last == "replace" && c.args.len() == 2 {
                        return self.kind(&c.args[1].clone());
                    }
                    if last == "Some" || last == "Ok" {
                        return self.kind(&c.args[0].clone());
                    }
                }
                Kind::Unknown
            }
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                if let Some(k) = self.cfg.calls.get(&n) {
                    return k.clone();
                }
                match n.as_str() {
                    "len" | "count" | "len_bytes" => Kind::Int,
                    "fold" => self.kind(&m.args[0].clone()),
                    "map" => {
                        if let Some(Expr::Closure(c)) = m.args.first() {
                            let rk = self.kind(&m.receiver);
                            self.env.push(HashMap::new());
                            let l = self.locals.len();
                            for p in c.inputs.iter() {
                                self.bind(p, &rk);
                            }
                            self.locals.truncate(l);
                            let k = self.kind(&c.body);
                            self.env.pop();
                            k
                        } else {
                            Kind::Unknown
                        }
                    }
                    "enumerate" => {
                        let k = self.kind(&m.receiver);
                        Kind::Tuple(vec![Kind::Int, k])
                    }
                    "zip" => {
                        let k = self.kind(&m.receiver);
                        let k2 = self.kind(&m.args[0].clone());
                        Kind::Tuple(vec![k, k2])
                    }
                    "get" | "unwrap" | "clone" | "iter" | "iter_mut" | "into_iter" | "reduce" | "unwrap_or" | "last" | "first" | "filter" | "collect" | "copied" | "cloned" | "skip" | "take" | "as_slice" | "unwrap_or_default" | "ok_or_else" | "ok_or" | "min" | "max" | "abs_diff" | "saturating_sub" | "saturating_add" => {
                        self.kind(&m.receiver)
                    }
                    _ => Kind::Unknown,
                }
            }
            Expr::Macro(m) => {
                if m.mac.path.is_ident("vec") {
                    let t = m.mac.tokens.clone();
                    let first = t.clone().into_iter().take_while(|x| !matches!(x, proc_macro2::TokenTree::Punct(p) if p.as_char()==',' || p.as_char()==';')).collect::<proc_macro2::TokenStream>();
                    if let Ok(e) = syn::parse2::<Expr>(first) {
                        return self.kind(&e);
                    }
                }
                Kind::Unknown
            }
            Expr::Block(b) => match b.block.stmts.last() {
                Some(Stmt::Expr(e, None)) => {
                    // bind the locals of the block for the inference only
                    self.env.push(HashMap::new());
                    let l = self.locals.len();
                    for s in &b.block.stmts {
                        if let Stmt::Local(lo) = s {
                            if let Some(i) = &lo.init {
                                let k = self.kind(&i.expr);
                                self.bind(&lo.pat, &k);
                            }
                        }
                    }
                    self.locals.truncate(l);
                    let k = self.kind(e);
                    self.env.pop();
                    k
                }
                _ => Kind::Unknown,
            },
            Expr::Match(m) => {
                for a in &m.arms {
                    let k = self.kind(&a.body);
                    if k != Kind::Unknown {
                        return k;
                    }
                }
                Kind::Unknown
            }
            Expr::If(i) => match i.then_branch.stmts.last() {
                Some(Stmt::Expr(e, None)) => self.kind(e),
                _ => Kind::Unknown,
            },
            _ => Kind::Unknown,
        }
    }

    // ---- iterator chains -------------------------------------------------
    fn chain(e: &Expr) -> Option<(Expr, Vec<Step>)> {
        let mut steps = vec![];
        let mut cur = e.clone();
        loop {
            match cur {
                Expr::MethodCall(m) => {
                    steps.push(Step { name: m.method.to_string(), args: m.args.iter().cloned().collect() });
                    cur = *m.receiver;
                    let n = &steps.last().unwrap().name;
                    if n == "iter" || n == "iter_mut" || n == "into_iter" {
                        steps.reverse();
                        return Some((cur, steps));
                    }
                }
                Expr::Paren(p) if matches!(*p.expr, Expr::Range(_)) => {
                    steps.reverse();
                    let r = (*p.expr).clone();
                    let mut v = vec![Step { name: "range".into(), args: vec![] }];
                    v.append(&mut steps);
                    return Some((r, v));
                }
                Expr::Call(ref c) if norm(&c.func).ends_with("iter::repeat_with") && c.args.len() == 1 => {
                    steps.reverse();
                    let mut v = vec![Step { name: "repeat_with".into(), args: vec![c.args[0].clone()] }];
                    v.append(&mut steps);
                    return Some((cur, v));
                }
                _ => return None,
            }
        }
    }
    const ADAPT: &'static [&'static str] = &["enumerate", "zip", "copied", "cloned", "map", "filter", "filter_map", "skip", "take"];
    const TERM: &'static [&'static str] = &["collect", "collect_result", "fold", "reduce", "any", "all", "find", "position", "for_each"];

    fn splittable(steps: &[Step], need_term: bool) -> bool {
        let n = steps.len();
        for (i, s) in steps.iter().enumerate() {
            if i == 0 {
                continue;
            }
            let last = i + 1 == n;
            if need_term && last {
                return Self::TERM.contains(&s.name.as_str());
            }
            if !Self::ADAPT.contains(&s.name.as_str()) {
                return false;
            }
        }
        !need_term
    }
    fn is_place(e: &Expr) -> bool {
        match e {
            Expr::Path(p) => p.path.get_ident().is_some(),
            Expr::Field(f) => Self::is_place(&f.base),
            Expr::Unary(u) => matches!(u.op, UnOp::Deref(_)) && Self::is_place(&u.expr),
            Expr::Paren(p) => Self::is_place(&p.expr),
            Expr::Index(i) => Self::is_place(&i.expr) && matches!(*i.index, Expr::Lit(_) | Expr::Path(_)),
            Expr::Reference(r) => r.mutability.is_none() && Self::is_place(&r.expr),
            _ => false,
        }
    }
    fn has_flow(e: &Expr) -> bool {
        struct V(bool);
        impl<'ast> syn::visit::Visit<'ast> for V {
            fn visit_expr_return(&mut self, _: &'ast ExprReturn) {
                self.0 = true;
            }
            fn visit_expr_try(&mut self, _: &'ast ExprTry) {
                self.0 = true;
            }
        }
        let mut v = V(false);
        syn::visit::Visit::visit_expr(&mut v, e);
        v.0
    }

    /// in tail position a closure that is called once, last, returns from the function
    pub fn mark_tail(e: &mut Expr) {
        match e {
            Expr::Block(b) => {
                if let Some(Stmt::Expr(x, None)) = b.block.stmts.last_mut() {
                    Self::mark_tail(x);
                }
            }
            Expr::Paren(p) => Self::mark_tail(&mut p.expr),
            Expr::If(i) => {
                if let Some(Stmt::Expr(x, None)) = i.then_branch.stmts.last_mut() {
                    Self::mark_tail(x);
                }
                if let Some((_, x)) = &mut i.else_branch {
                    Self::mark_tail(x);
                }
            }
            Expr::Match(m) => m.arms.iter_mut().for_each(|a| Self::mark_tail(&mut a.body)),
            Expr::Return(r) => {
                if let Some(x) = &mut r.expr {
                    Self::mark_tail(x);
                }
            }
            Expr::MethodCall(m) if ["map_or", "map_or_else", "and_then", "unwrap_or_else"].contains(&m.method.to_string().as_str()) => {
                for a in m.args.iter_mut() {
                    if let Expr::Closure(c) = a {
                        if Self::has_flow(&c.body) {
                            c.attrs.push(parse_quote!(#[tail]));
                            Self::mark_tail(&mut c.body);
                        }
                    }
                }
            }
            _ => {}
        }
    }
    /// the function's body: `return x;` at its end is its value
    pub fn tails(b: &mut Block) {
        if let Some(Stmt::Expr(Expr::Return(r), _)) = b.stmts.last() {
            if let Some(x) = &r.expr {
                let x = (**x).clone();
                b.stmts.pop();
                b.stmts.push(Stmt::Expr(x, None));
            }
        }
        if let Some(Stmt::Expr(x, None)) = b.stmts.last_mut() {
            Self::mark_tail(x);
        }
    }

    /// apply `f` (closure or path) to the given argument expressions
    fn apply(&mut self, f: &Expr, args: Vec<(Expr, Kind)>) -> Option<(Expr, Kind)> {
        match f {
            Expr::Closure(c) => {
                if Self::has_flow(&c.body) {
                    self.notes.push("closure with return or ? in an iterator chain".into());
                    return None;
                }
                self.env.push(HashMap::new());
                let mut b: Vec<Stmt> = vec![];
                for (p, (a, k)) in c.inputs.iter().zip(args.iter()) {
                    self.bind(p, k);
                    b.push(parse_quote!(let #p = #a;));
                }
                let mut body = (*c.body).clone();
                let k = self.kind(&body);
                self.visit_expr_mut(&mut body);
                self.env.pop();
                Some((parse_quote!({ #(#b)* #body }), k))
            }
            Expr::Path(_) => {
                let s = norm(f);
                let a: Vec<&Expr> = args.iter().map(|x| &x.0).collect();
                match s.as_str() {
                    "std::ops::Add::add" | "Add::add" => {
                        let (x, y) = (a[0], a[1]);
                        Some((parse_quote!((#x).op_add(#y)), Kind::Scalar))
                    }
                    "BitOr::bitor" | "std::ops::BitOr::bitor" => {
                        let (x, y) = (a[0], a[1]);
                        Some((parse_quote!((#x).bitor(#y)), Kind::Unknown))
                    }
                    _ => Some((parse_quote!(#f(#(#a),*)), Kind::Unknown)),
                }
            }
            _ => None,
        }
    }

    /// body of a loop over the source; `term` builds the innermost statements from the element
    fn run_chain(&mut self, src: &Expr, steps: &[Step], label: Option<Label>, kind: &str, pre: Vec<Stmt>, post: Option<Expr>, term: &mut dyn FnMut(&mut Self, Expr, Kind) -> Option<Vec<Stmt>>) -> Option<Expr> {
        let k = self.nloop;
        self.nloop += 1;
        self.skeleton.push(kind.to_string());
        let it = format_ident!("__i{}", k);
        let first = &steps[0].name;
        let mut lets: Vec<Stmt> = pre;
        let skind;
        let elem: Expr;
        let cond: Expr;
        let mut srcx = src.clone();
        let mut start: Expr = pe("0");
        let mut filtered = false;
        let mut nadapt = 1;
        if first == "repeat_with" {
            // repeat_with(f).take(n)
            if steps.get(1).map(|s| s.name.as_str()) != Some("take") {
                return None;
            }
            let mut hi = steps[1].args[0].clone();
            self.visit_expr_mut(&mut hi);
            let h = format_ident!("__h{}", k);
            lets.push(parse_quote!(let #h = #hi;));
            cond = parse_quote!(#it < #h);
            let (e, kk) = self.apply(&steps[0].args[0].clone(), vec![])?;
            elem = e;
            skind = kk;
            nadapt = 2;
        } else if first == "range" {
            if let Expr::Range(r) = src {
                let lo = r.start.clone()?;
                let hi = r.end.clone()?;
                let (mut lo, mut hi) = (*lo, *hi);
                self.visit_expr_mut(&mut lo);
                self.visit_expr_mut(&mut hi);
                let h = format_ident!("__h{}", k);
                lets.push(parse_quote!(let #h = #hi;));
                if matches!(r.limits, RangeLimits::Closed(_)) {
                    return None;
                }
                start = lo;
                cond = parse_quote!(#it < #h);
                elem = parse_quote!(#it);
                skind = Kind::Int;
            } else {
                return None;
            }
        } else {
            skind = self.kind(src);
            while let Some(s) = steps.get(nadapt) {
                if s.name == "skip" && nadapt == 1 {
                    let mut a = s.args[0].clone();
                    self.visit_expr_mut(&mut a);
                    start = a;
                    nadapt += 1;
                } else {
                    break;
                }
            }
            self.visit_expr_mut(&mut srcx);
            if !Self::is_place(&srcx) {
                let s = format_ident!("__s{}", k);
                if first == "into_iter" {
                    return None;
                }
                lets.push(parse_quote!(let #s = #srcx;));
                srcx = parse_quote!(#s);
            }
            if let Expr::Reference(r) = &srcx {
                srcx = (*r.expr).clone();
            }
            cond = parse_quote!(#it < #srcx.len());
            elem = if first == "iter_mut" { parse_quote!(&mut #srcx[__cur]) } else { parse_quote!(&#srcx[__cur]) };
            if first == "into_iter" {
                return None;
            }
        }
        let cur = format_ident!("__c{}", k);
        // replace __cur by the fresh index name
        let elem: Expr = {
            struct R(Ident, Ident);
            impl VisitMut for R {
                fn visit_ident_mut(&mut self, i: &mut Ident) {
                    if *i == self.0 {
                        *i = self.1.clone();
                    }
                }
            }
            let mut e = elem;
            R(format_ident!("__cur"), cur.clone()).visit_expr_mut(&mut e);
            R(it.clone(), cur.clone()).visit_expr_mut(&mut e);
            e
        };
        let mut cond = cond;
        let mut body: Vec<Stmt> = vec![];
        body.push(parse_quote!(let #cur = #it;));
        body.push(parse_quote!(#it = #it + 1;));
        let mut el = (elem, skind);
        // adapters: build nested statements
        let mut wrap: Vec<(Vec<Stmt>, Expr, Option<Pat>)> = vec![]; // (stmts so far, condition/opt, pattern)
        let mut acc: Vec<Stmt> = vec![];
        for s in &steps[nadapt..] {
            match s.name.as_str() {
                "enumerate" => {
                    if filtered {
                        return None;
                    }
                    let (e, kk) = el;
                    let idx: Expr = if start == pe("0") { parse_quote!(#cur) } else { parse_quote!((#cur - (#start))) };
                    el = (parse_quote!((#idx, #e)), Kind::Tuple(vec![Kind::Int, kk]));
                }
                "zip" => {
                    if filtered || start != pe("0") {
                        return None;
                    }
                    let mut z = s.args[0].clone();
                    let mut zc = false;
                    loop {
                        match z.clone() {
                            Expr::MethodCall(m) if m.method == "iter" => {
                                z = *m.receiver;
                                break;
                            }
                            Expr::MethodCall(m) if m.method == "copied" || m.method == "cloned" => {
                                zc = true;
                                z = *m.receiver;
                            }
                            _ => break,
                        }
                    }
                    let zk = self.kind(&z);
                    self.visit_expr_mut(&mut z);
                    if !Self::is_place(&z) {
                        let zz = format_ident!("__z{}", k);
                        lets.push(parse_quote!(let #zz = #z;));
                        z = parse_quote!(#zz);
                    }
                    cond = parse_quote!(#cond && #it < #z.len());
                    let (e, kk) = el;
                    let ze: Expr = if zc { parse_quote!(#z[#cur].clone()) } else { parse_quote!(&#z[#cur]) };
                    el = (parse_quote!((#e, #ze)), Kind::Tuple(vec![kk, zk]));
                }
                "copied" => {
                    let (e, kk) = el;
                    el = (parse_quote!(*(#e)), kk);
                }
                "cloned" => {
                    let (e, kk) = el;
                    el = (parse_quote!((#e).clone()), kk);
                }
                "map" => {
                    let r = self.apply(&s.args[0].clone(), vec![el])?;
                    let v = self.fresh("m");
                    let e = r.0;
                    acc.push(parse_quote!(let #v = #e;));
                    el = (parse_quote!(#v), r.1);
                }
                "filter" => {
                    let v = self.fresh("f");
                    let (e, kk) = el;
                    acc.push(parse_quote!(let #v = #e;));
                    let (c, _) = self.apply(&s.args[0].clone(), vec![(parse_quote!(&#v), kk.clone())])?;
                    wrap.push((std::mem::take(&mut acc), c, None));
                    el = (parse_quote!(#v), kk);
                    filtered = true;
                }
                "filter_map" => {
                    let (c, kk) = self.apply(&s.args[0].clone(), vec![el])?;
                    let v = self.fresh("f");
                    wrap.push((std::mem::take(&mut acc), c, Some(parse_quote!(Some(#v)))));
                    el = (parse_quote!(#v), kk);
                    filtered = true;
                }
                _ => return None,
            }
        }
        let mut inner = term(self, el.0, el.1)?;
        acc.append(&mut inner);
        while let Some((pre, c, p)) = wrap.pop() {
            let st: Stmt = match p {
                Some(p) => parse_quote!(if let #p = #c { #(#acc)* }),
                None => parse_quote!(if #c { #(#acc)* }),
            };
            acc = pre;
            acc.push(st);
        }
        let mut head = self.at(&format!("loop {k} head"));
        let mut tail = self.at(&format!("loop {k} tail"));
        let inv = self.inv(k);
        let mut full: Vec<Stmt> = vec![];
        if let Some(i) = inv {
            full.push(i);
        }
        full.append(&mut body);
        full.append(&mut head);
        full.append(&mut acc);
        full.append(&mut tail);
        let bef = self.at(&format!("loop {k} before"));
        let aft = self.at(&format!("loop {k} after"));
        let bef0 = self.at(&format!("loop {k} before0"));
        Some(match post {
            Some(p) => parse_quote!({ #(#bef0)* #(#lets)* let mut #it: usize = #start; #(#bef)* #label while #cond { #(#full)* } #(#aft)* #p }),
            None => parse_quote!({ #(#bef0)* #(#lets)* let mut #it: usize = #start; #(#bef)* #label while #cond { #(#full)* } #(#aft)* }),
        })
    }

    fn term_chain(&mut self, e: &Expr) -> Option<Expr> {
        let (src, mut steps) = Self::chain(e)?;
        if !Self::splittable(&steps, true) {
            return None;
        }
        let last = steps.pop().unwrap();
        let k = self.nloop;
        let acc = format_ident!("__a{}", k);
        let vec0: Stmt = match self.ov.acctys.get(&k) {
            Some(t) => {
                let t: Type = parse_str(t).unwrap_or_else(|e| panic!("{e}: {t}"));
                parse_quote!(let mut #acc: Vec<#t> = Vec::new();)
            }
            None => parse_quote!(let mut #acc = Vec::new();),
        };
        let opt0: Stmt = match self.ov.acctys.get(&k) {
            Some(t) => {
                let t: Type = parse_str(t).unwrap_or_else(|e| panic!("{e}: {t}"));
                parse_quote!(let mut #acc: Option<#t> = None;)
            }
            None => parse_quote!(let mut #acc = None;),
        };
        match last.name.as_str() {
            "collect" => self.run_chain(&src, &steps, None, "collect", vec![vec0], Some(parse_quote!(#acc)), &mut |_, e, _| Some(vec![parse_quote!(#acc.push(#e);)])),
            "collect_result" => {
                let er = format_ident!("__b{}", k);
                self.run_chain(&src, &steps, None, "collect_result", vec![vec0, parse_quote!(let mut #er = None;)], Some(parse_quote!(match #er { Some(__x) => Err(__x), None => Ok(#acc) })), &mut |s, e, _| {
                    let x = s.fresh("x");
                    Some(vec![parse_quote!(match #e { Ok(#x) => { #acc.push(#x); } Err(__x) => { #er = Some(__x); break; } })])
                })
            }
            "fold" => {
                let mut init = last.args[0].clone();
                let ik = self.kind(&init);
                self.visit_expr_mut(&mut init);
                let f = last.args[1].clone();
                self.run_chain(&src, &steps, None, "fold", vec![parse_quote!(let mut #acc = #init;)], Some(parse_quote!(#acc)), &mut |s, e, kk| {
                    let (r, _) = s.apply(&f, vec![(parse_quote!(#acc), ik.clone()), (e, kk)])?;
                    Some(vec![parse_quote!(#acc = #r;)])
                })
            }
            "reduce" => {
                let f = last.args[0].clone();
                self.run_chain(&src, &steps, None, "reduce", vec![opt0], Some(parse_quote!(#acc)), &mut |s, e, kk| {
                    let x = format_ident!("__e{}", k);
                    let p = s.fresh("p");
                    let (r, _) = s.apply(&f, vec![(parse_quote!(#p), kk.clone()), (parse_quote!(#x), kk)])?;
                    Some(vec![parse_quote!(let #x = #e;), parse_quote!(#acc = match #acc { None => Some(#x), Some(#p) => Some(#r) };)])
                })
            }
            "any" | "all" => {
                let f = last.args[0].clone();
                let any = last.name == "any";
                // all(p) is !any(!p)
                let end: Expr = if any { parse_quote!(#acc) } else { parse_quote!(!#acc) };
                self.run_chain(&src, &steps, None, &last.name, vec![parse_quote!(let mut #acc = false;)], Some(end), &mut |s, e, kk| {
                    let (r, _) = s.apply(&f, vec![(e, kk)])?;
                    Some(if any { vec![parse_quote!(if #r { #acc = true; break; })] } else { vec![parse_quote!(if !(#r) { #acc = true; break; })] })
                })
            }
            "find" => {
                let f = last.args[0].clone();
                self.run_chain(&src, &steps, None, "find", vec![opt0], Some(parse_quote!(#acc)), &mut |s, e, kk| {
                    let x = s.fresh("x");
                    let (r, _) = s.apply(&f, vec![(parse_quote!(&#x), kk)])?;
                    Some(vec![parse_quote!(let #x = #e;), parse_quote!(if #r { #acc = Some(#x); break; })])
                })
            }
            "position" => {
                let f = last.args[0].clone();
                let cur = format_ident!("__c{}", k);
                self.run_chain(&src, &steps, None, "position", vec![opt0], Some(parse_quote!(#acc)), &mut |s, e, kk| {
                    let (r, _) = s.apply(&f, vec![(e, kk)])?;
                    Some(vec![parse_quote!(if #r { #acc = Some(#cur); break; })])
                })
            }
            _ => None,
        }
    }

    fn for_loop(&mut self, f: &ExprForLoop) -> Option<Expr> {
        let mut src = (*f.expr).clone();
        if let Expr::Paren(p) = &src {
            src = (*p.expr).clone();
        }
        let (s, steps) = match &src {
            Expr::Range(_) => (src.clone(), vec![Step { name: "range".into(), args: vec![] }]),
            Expr::Reference(r) => (
                (*r.expr).clone(),
                vec![Step { name: if r.mutability.is_some() { "iter_mut" } else { "iter" }.into(), args: vec![] }],
            ),
            Expr::Path(_) => (src.clone(), vec![Step { name: "iter".into(), args: vec![] }]),
            _ => Self::chain(&src)?,
        };
        if !Self::splittable(&steps, false) {
            return None;
        }
        let pat = (*f.pat).clone();
        let body0 = f.body.clone();
        self.run_chain(&s, &steps, f.label.clone(), "for", vec![], None, &mut |c, e, kk| {
            c.env.push(HashMap::new());
            c.bind(&pat, &kk);
            let mut b = body0.clone();
            c.visit_block_mut(&mut b);
            c.env.pop();
            let mut v: Vec<Stmt> = vec![parse_quote!(let #pat = #e;)];
            v.extend(close(b.stmts));
            Some(v)
        })
    }

    fn wrap_loop(&mut self, k: usize, e: Expr) -> Expr {
        let bef = self.at(&format!("loop {k} before"));
        let aft = self.at(&format!("loop {k} after"));
        if bef.is_empty() && aft.is_empty() {
            return e;
        }
        if aft.is_empty() {
            parse_quote!({ #(#bef)* #e })
        } else {
            parse_quote!({ #(#bef)* #e #(#aft)* })
        }
    }

    fn ty_err(&self, p: &Path) -> bool {
        p.segments.len() >= 2 && self.cfg.errtypes.contains(&p.segments[p.segments.len() - 2].ident.to_string())
    }

    fn eval_args(&mut self, args: Vec<Expr>) -> Vec<Stmt> {
        let mut v = vec![];
        for mut a in args {
            if Self::is_string(&a) {
                continue;
            }
            self.visit_expr_mut(&mut a);
            if let Expr::Call(c) = &a {
                if norm(&c.func) == "__fmt" {
                    continue;
                }
            }
            v.push(parse_quote!(let _ = &#a;));
        }
        v
    }
    fn is_string(e: &Expr) -> bool {
        match e {
            Expr::Lit(_) => true,
            Expr::MethodCall(m) => ["to_string", "to_owned", "into", "clone"].contains(&m.method.to_string().as_str()) && (Self::is_string(&m.receiver) || Self::is_place(&m.receiver)),
            Expr::Paren(p) => Self::is_string(&p.expr),
            Expr::Macro(m) if m.mac.path.is_ident("format") => Self::macro_args(&m.mac).map_or(false, |v| v.iter().all(Self::is_string)),
            Expr::Path(_) => true,
            Expr::Reference(r) => Self::is_string(&r.expr),
            Expr::Field(_) => Self::is_place(e),
            Expr::Call(c) => norm(&c.func) == "Some" && c.args.iter().all(Self::is_string),
            _ => false,
        }
    }
    fn macro_args(m: &Macro) -> Option<Vec<Expr>> {
        m.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated).ok().map(|p| p.into_iter().collect())
    }
}

/// a trailing unit expression becomes a statement
fn close(mut v: Vec<Stmt>) -> Vec<Stmt> {
    if let Some(Stmt::Expr(_, semi)) = v.last_mut() {
        if semi.is_none() {
            *semi = Some(Default::default());
        }
    }
    v
}

#[allow(non_snake_case)]
fn Literal_usize(n: usize) -> proc_macro2::Literal {
    proc_macro2::Literal::usize_unsuffixed(n)
}

impl<'a> VisitMut for Cx<'a> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        self.env.push(HashMap::new());
        let stmts = std::mem::take(&mut b.stmts);
        let mut out: Vec<Stmt> = vec![];
        for mut s in stmts {
            // drop attributes on statements
            let text = norm(&s);
            let mut bef = vec![];
            let mut aft = vec![];
            let anchors = self.ov.anchors.clone();
            let mut pats: HashSet<String> = HashSet::new();
            for (i, (a, t)) in anchors.iter().enumerate() {
                for (kw, is_before) in [("before ", true), ("after ", false)] {
                    if let Some(rest) = a.strip_prefix(kw) {
                        let (pat, occ) = match rest.rsplit_once(" #") {
                            Some((p, o)) if o.chars().all(|c| c.is_ascii_digit()) => (p.to_string(), o.parse::<usize>().unwrap()),
                            _ => (rest.to_string(), 0),
                        };
                        let pat: String = pat.chars().filter(|c| !c.is_whitespace()).collect();
                        if text.starts_with(&pat) {
                            pats.insert(pat.clone());
                            let seen = *self.seen.get(&pat).unwrap_or(&0);
                            if seen == occ {
                                self.used.insert(i);
                                let g = self.ghost(t);
                                if is_before {
                                    bef.push(g)
                                } else {
                                    aft.push(g)
                                }
                            }
                        }
                    }
                }
            }
            for p in pats {
                *self.seen.entry(p).or_insert(0) += 1;
            }
            let k0 = self.nloop;
            match &mut s {
                Stmt::Local(l) => {
                    l.attrs.clear();
                    let mut k = Kind::Unknown;
                    if let Some(i) = &mut l.init {
                        k = self.kind(&i.expr.clone());
                        self.visit_expr_mut(&mut i.expr);
                        if let Some((_, d)) = &mut i.diverge {
                            self.visit_expr_mut(d);
                        }
                    }
                    self.bind(&l.pat, &k);
                    self.visit_pat_mut(&mut l.pat);
                }
                Stmt::Macro(m) => {
                    let mac = m.mac.clone();
                    let mut e = Expr::Macro(ExprMacro { attrs: vec![], mac });
                    self.visit_expr_mut(&mut e);
                    s = Stmt::Expr(e, Some(Default::default()));
                }
                Stmt::Item(_) => {}
                Stmt::Expr(e, _) => self.visit_expr_mut(e),
            }
            for k in k0..self.nloop {
                out.append(&mut self.at_once(&format!("loop {k} ante")));
            }
            if let Stmt::Expr(Expr::Assign(_) | Expr::Binary(_) | Expr::MethodCall(_) | Expr::Call(_), semi) = &mut s {
                // an anchor after a trailing unit expression: close it
                if !aft.is_empty() && semi.is_none() {
                    *semi = Some(Default::default());
                }
            }
            out.append(&mut bef);
            out.push(s);
            for k in k0..self.nloop {
                out.append(&mut self.at_once(&format!("loop {k} post")));
            }
            out.append(&mut aft);
        }
        b.stmts = out;
        self.env.pop();
    }

    fn visit_arm_mut(&mut self, a: &mut Arm) {
        self.env.push(HashMap::new());
        self.bind(&a.pat, &Kind::Unknown);
        visit_mut::visit_arm_mut(self, a);
        self.env.pop();
    }

    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // --- loops
        match e {
            Expr::ForLoop(f) => {
                let f = f.clone();
                let k = self.nloop;
                let mut b = Builds::default();
                b.visit_block_mut(&mut f.body.clone());
                b.built.retain(|x| !b.bound.contains(x));
                b.built.sort();
                b.built.dedup();
                if b.built.len() == 1 {
                    self.accs.insert(k, b.built[0].clone());
                }
                if let Some(n) = self.for_loop(&f) {
                    *e = n;
                } else {
                    self.notes.push("for loop over an unsupported iterator".into());
                }
                return;
            }
            Expr::While(w) => {
                let k = self.nloop;
                self.nloop += 1;
                self.skeleton.push("while".into());
                let label = w.label.clone();
                if let Expr::Let(l) = &*w.cond {
                    let pat = (*l.pat).clone();
                    let mut ex = (*l.expr).clone();
                    self.visit_expr_mut(&mut ex);
                    self.env.push(HashMap::new());
                    self.bind(&pat, &Kind::Unknown);
                    let mut body = w.body.clone();
                    self.visit_block_mut(&mut body);
                    self.env.pop();
                    let inv = self.inv(k);
                    let pre = self.at(&format!("loop {k} pre"));
                    let head = self.at(&format!("loop {k} head"));
                    let tail = self.at(&format!("loop {k} tail"));
                    let exit = self.at(&format!("loop {k} exit"));
                    let st = &close(body.stmts.clone());
                    let n: Expr = parse_quote!(#label loop { #inv #(#pre)* if let #pat = #ex { #(#head)* #(#st)* #(#tail)* } else { #(#exit)* break; } });
                    *e = self.wrap_loop(k, n);
                } else {
                    let mut c = (*w.cond).clone();
                    self.visit_expr_mut(&mut c);
                    let mut body = w.body.clone();
                    self.visit_block_mut(&mut body);
                    let inv = self.inv(k);
                    let head = self.at(&format!("loop {k} head"));
                    let tail = self.at(&format!("loop {k} tail"));
                    let st = &close(body.stmts.clone());
                    let n: Expr = parse_quote!(#label while #c { #inv #(#head)* #(#st)* #(#tail)* });
                    *e = self.wrap_loop(k, n);
                }
                return;
            }
            Expr::Loop(w) => {
                let k = self.nloop;
                self.nloop += 1;
                self.skeleton.push("loop".into());
                let label = w.label.clone();
                let mut body = w.body.clone();
                self.visit_block_mut(&mut body);
                let inv = self.inv(k);
                let head = self.at(&format!("loop {k} head"));
                let tail = self.at(&format!("loop {k} tail"));
                let st = &close(body.stmts.clone());
                let n: Expr = parse_quote!(#label loop { #inv #(#head)* #(#st)* #(#tail)* });
                *e = self.wrap_loop(k, n);
                return;
            }
            Expr::MethodCall(_) => {
                if let Some(n) = self.term_chain(&e.clone()) {
                    *e = n;
                    return;
                }
            }
            _ => {}
        }
        // --- raw pointers and statics
        if self.cfg.pointers {
            let mut out: Option<Expr> = None;
            match e {
                Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) && self.kind(&u.expr.clone()) == Kind::Ptr => {
                    let mut x = (*u.expr).clone();
                    self.visit_expr_mut(&mut x);
                    out = Some(parse_quote!(mem.get(#x)));
                }
                Expr::Assign(a) => {
                    if let Expr::Unary(u) = &*a.left {
                        if matches!(u.op, UnOp::Deref(_)) && self.kind(&u.expr.clone()) == Kind::Ptr {
                            let (mut x, mut r) = ((*u.expr).clone(), (*a.right).clone());
                            self.visit_expr_mut(&mut x);
                            self.visit_expr_mut(&mut r);
                            let v = self.fresh("w");
                            out = Some(parse_quote!({ let #v = #r; mem.set(#x, #v) }));
                        }
                    }
                }
                // the locks are never poisoned
                Expr::MethodCall(m) if (m.method == "expect" || m.method == "unwrap") && matches!(&*m.receiver, Expr::MethodCall(l) if (l.method == "read" || l.method == "write") && l.args.is_empty()) => {
                    let mut r = (*m.receiver).clone();
                    self.visit_expr_mut(&mut r);
                    out = Some(r);
                }
                // LocalKey::with, RefCell::borrow_mut
                Expr::MethodCall(m) if m.method == "with" && m.args.len() == 1 && matches!(m.args[0], Expr::Closure(_)) => {
                    if let Expr::Closure(c) = m.args[0].clone() {
                        let mut r = (*m.receiver).clone();
                        self.visit_expr_mut(&mut r);
                        let mut b = (*c.body).clone();
                        self.visit_expr_mut(&mut b);
                        let p = c.inputs[0].clone();
                        out = Some(parse_quote!({ let #p = &mut (#r); #b }));
                    }
                }
                Expr::MethodCall(m) if m.method == "borrow_mut" && m.args.is_empty() => {
                    let mut r = (*m.receiver).clone();
                    self.visit_expr_mut(&mut r);
                    out = Some(r);
                }
                Expr::Call(c) => {
                    if let Expr::Path(p) = &*c.func {
                        let n = p.path.segments.last().unwrap().ident.to_string();
                        if let Some(x) = self.cfg.passes.get(&n).cloned() {
                            let f = c.func.clone();
                            let mut args: Vec<Expr> = c.args.iter().cloned().collect();
                            for a in &mut args {
                                self.visit_expr_mut(a);
                            }
                            for y in x.split(',') {
                                args.push(pe(y));
                            }
                            out = Some(parse_quote!(#f(#(#args),*)));
                        }
                    }
                }
                Expr::Macro(m) => {
                    let n = m.mac.path.segments.last().unwrap().ident.to_string();
                    if n == "eprintln" || n == "println" {
                        let mut args = Self::macro_args(&m.mac).unwrap_or_default();
                        if !args.is_empty() {
                            args.remove(0);
                        }
                        let st = self.eval_args(args);
                        out = Some(parse_quote!({ #(#st)* }));
                    }
                }
                _ => {}
            }
            if let Some(o) = out {
                *e = o;
                return;
            }
        }
        // --- std::cmp::min(a, b) is a.min(b)
        if let Expr::Call(c) = e {
            let f = norm(&c.func).replace(' ', "");
            if c.args.len() == 2 && (f.ends_with("cmp::min") || f.ends_with("cmp::max")) {
                let (a, b) = (c.args[0].clone(), c.args[1].clone());
                *e = if f.ends_with("min") { parse_quote!((#a).min(#b)) } else { parse_quote!((#a).max(#b)) };
            }
        }
        // --- errors
        match e {
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    if self.ty_err(&p.path) {
                        let args: Vec<Expr> = c.args.iter().cloned().collect();
                        let st = self.eval_args(args);
                        *e = if st.is_empty() { parse_quote!(__err()) } else { parse_quote!({ #(#st)* __err() }) };
                        return;
                    }
                }
            }
            Expr::Struct(s) if self.ty_err(&s.path) => {
                let args: Vec<Expr> = s.fields.iter().map(|f| f.expr.clone()).collect();
                let st = self.eval_args(args);
                *e = if st.is_empty() { parse_quote!(__err()) } else { parse_quote!({ #(#st)* __err() }) };
                return;
            }
            Expr::Path(p) if self.ty_err(&p.path) => {
                *e = parse_quote!(__err());
                return;
            }
            Expr::Macro(m) => {
                let name = m.mac.path.segments.last().unwrap().ident.to_string();
                match name.as_str() {
                    "format" => {
                        let mut args = Self::macro_args(&m.mac).unwrap_or_default();
                        if !args.is_empty() {
                            args.remove(0);
                        }
                        let st = self.eval_args(args);
                        *e = if st.is_empty() { parse_quote!(__fmt()) } else { parse_quote!({ #(#st)* __fmt() }) };
                    }
                    "panic" | "unreachable" | "todo" | "unimplemented" => *e = parse_quote!(__panic()),
                    "assert" | "debug_assert" => {
                        let args = Self::macro_args(&m.mac).unwrap_or_default();
                        if let Some(mut a) = args.into_iter().next() {
                            self.visit_expr_mut(&mut a);
                            *e = parse_quote!(if !(#a) { __panic() });
                        }
                    }
                    "vec" => {
                        let t = m.mac.tokens.clone();
                        if let Ok(a) = parse2::<ExprRepeat>(quote!([#t])) {
                            let (mut x, mut n) = (*a.expr, *a.len);
                            self.visit_expr_mut(&mut x);
                            self.visit_expr_mut(&mut n);
                            *e = parse_quote!(vec![#x; #n]);
                        } else if let Some(mut a) = Self::macro_args(&m.mac) {
                            for x in &mut a {
                                self.visit_expr_mut(x);
                            }
                            *e = parse_quote!(vec![#(#a),*]);
                        }
                    }
                    "matches" => {
                        let t = m.mac.tokens.clone();
                        struct MM(Expr, Pat, Option<Expr>);
                        impl parse::Parse for MM {
                            fn parse(i: parse::ParseStream) -> Result<Self> {
                                let a = i.parse()?;
                                i.parse::<Token![,]>()?;
                                let p = Pat::parse_multi_with_leading_vert(i)?;
                                let g = if i.peek(Token![if]) {
                                    i.parse::<Token![if]>()?;
                                    Some(i.parse()?)
                                } else {
                                    None
                                };
                                Ok(MM(a, p, g))
                            }
                        }
                        if let Ok(MM(mut a, p, None)) = parse2::<MM>(t) {
                            self.visit_expr_mut(&mut a);
                            *e = parse_quote!(match #a { #p => true, _ => false });
                        }
                    }
                    _ => {}
                }
                return;
            }
            _ => {}
        }
        if self.cfg.optmap {
            match e {
                Expr::Try(t) => swap_map_err(&mut t.expr),
                _ => swap_map_err(e),
            }
        }
        // --- `?`
        if let Expr::Try(t) = e {
            let mut x = (*t.expr).clone();
            // X.map_err(f)?  : the error value is opaque
            if let Expr::MethodCall(m) = &x {
                if m.method == "map_err" {
                    x = (*m.receiver).clone();
                }
            }
            if let Expr::MethodCall(m) = &x {
                if m.method == "ok_or_else" || m.method == "ok_or" {
                    let mut r = (*m.receiver).clone();
                    let mut pre: Vec<Stmt> = vec![];
                    if m.method == "ok_or" {
                        pre = self.eval_args(m.args.iter().cloned().collect());
                        pre.retain(|s| norm(s) != "let_=&__err();");
                    }
                    self.visit_expr_mut(&mut r);
                    let v = self.fresh("v");
                    *e = parse_quote!(match #r { Some(#v) => #v, None => { #(#pre)* return Err(__err()) } });
                    return;
                }
            }
            self.visit_expr_mut(&mut x);
            let v = self.fresh("v");
            let er = self.fresh("e");
            *e = parse_quote!(match #x { Ok(#v) => #v, Err(#er) => return Err(__conv(#er)) });
            return;
        }
        // --- option combinators
        if let Expr::MethodCall(m) = e {
            let n = m.method.to_string();
            let cl = |i: usize| -> Option<ExprClosure> {
                match m.args.iter().nth(i) {
                    Some(Expr::Closure(c)) if !Self::has_flow(&c.body) || !c.attrs.is_empty() => Some(c.clone()),
                    _ => None,
                }
            };
            let mut out: Option<Expr> = None;
            match n.as_str() {
                "map_or" if m.args.len() == 2 => {
                    if let Some(c) = cl(1) {
                        let mut r = (*m.receiver).clone();
                        let mut d = m.args[0].clone();
                        let rk = self.kind(&r);
                        self.visit_expr_mut(&mut r);
                        self.visit_expr_mut(&mut d);
                        self.env.push(HashMap::new());
                        let p = c.inputs[0].clone();
                        self.bind(&p, &rk);
                        let mut b = (*c.body).clone();
                        self.visit_expr_mut(&mut b);
                        self.env.pop();
                        out = Some(parse_quote!(match #r { None => #d, Some(#p) => #b }));
                    }
                }
                "map_or_else" if m.args.len() == 2 => {
                    if let (Some(c0), Some(c)) = (cl(0), cl(1)) {
                        let mut r = (*m.receiver).clone();
                        let mut d = (*c0.body).clone();
                        let rk = self.kind(&r);
                        self.visit_expr_mut(&mut r);
                        self.visit_expr_mut(&mut d);
                        self.env.push(HashMap::new());
                        let p = c.inputs[0].clone();
                        self.bind(&p, &rk);
                        let mut b = (*c.body).clone();
                        self.visit_expr_mut(&mut b);
                        self.env.pop();
                        out = Some(parse_quote!(match #r { None => #d, Some(#p) => #b }));
                    }
                }
                "unwrap_or_else" if m.args.len() == 1 && self.cfg.optmap => {
                    if let Some(c0) = cl(0) {
                        let mut r = (*m.receiver).clone();
                        let mut d = (*c0.body).clone();
                        self.visit_expr_mut(&mut r);
                        self.visit_expr_mut(&mut d);
                        let v = self.fresh("v");
                        out = Some(parse_quote!(match #r { None => #d, Some(#v) => #v }));
                    }
                }
                "map" if m.args.len() == 1 && self.cfg.optmap => {
                    let res = is_result(&m.receiver);
                    let mut r = (*m.receiver).clone();
                    let rk = self.kind(&r);
                    self.visit_expr_mut(&mut r);
                    let v = self.fresh("v");
                    if let Some((b, _)) = self.apply(&m.args[0].clone(), vec![(parse_quote!(#v), rk)]) {
                        out = Some(if res { parse_quote!(match #r { Err(_) => Err(__err()), Ok(#v) => Ok(#b) }) } else { parse_quote!(match #r { None => None, Some(#v) => Some(#b) }) });
                    }
                }
                "and_then" if m.args.len() == 1 && self.cfg.optmap => {
                    if let Some(c0) = cl(0) {
                        let res = is_result(&m.receiver);
                        let mut r = (*m.receiver).clone();
                        let rk = self.kind(&r);
                        self.visit_expr_mut(&mut r);
                        let p = c0.inputs[0].clone();
                        self.env.push(HashMap::new());
                        self.bind(&p, &rk);
                        let mut b = (*c0.body).clone();
                        self.visit_expr_mut(&mut b);
                        self.env.pop();
                        out = Some(if res { parse_quote!(match #r { Err(_) => Err(__err()), Ok(#p) => #b }) } else { parse_quote!(match #r { None => None, Some(#p) => #b }) });
                    }
                }
                "append" if m.args.len() == 1 && matches!(&m.args[0], Expr::Reference(x) if x.mutability.is_some() && !Self::is_place(&x.expr)) => {
                    let mut r = (*m.receiver).clone();
                    self.visit_expr_mut(&mut r);
                    if let Expr::Reference(x) = &m.args[0] {
                        let mut x = (*x.expr).clone();
                        self.visit_expr_mut(&mut x);
                        let v = self.fresh("t");
                        out = Some(parse_quote!({ let mut #v = #x; #r.append(&mut #v) }));
                    }
                }
                "ok_or" | "ok_or_else" => {
                    let mut r = (*m.receiver).clone();
                    self.visit_expr_mut(&mut r);
                    let v = self.fresh("v");
                    out = Some(parse_quote!(match #r { None => Err(__err()), Some(#v) => Ok(#v) }));
                }
                "map_err" => {
                    let mut r = (*m.receiver).clone();
                    self.visit_expr_mut(&mut r);
                    let v = self.fresh("v");
                    out = Some(parse_quote!(match #r { Err(_) => Err(__err()), Ok(#v) => Ok(#v) }));
                }
                _ => {}
            }
            if let Some(o) = out {
                *e = o;
                return;
            }
        }
        if self.cfg.bitops {
            if let Expr::Binary(b) = e {
                let n = match b.op {
                    BinOp::BitAnd(_) => Some("bitand"),
                    BinOp::BitOr(_) => Some("bitor"),
                    _ => None,
                };
                if let (Some(n), true) = (n, self.kind(&b.left.clone()) != Kind::Int && self.kind(&b.right.clone()) != Kind::Int) {
                    let (mut l, mut r) = ((*b.left).clone(), (*b.right).clone());
                    self.visit_expr_mut(&mut l);
                    self.visit_expr_mut(&mut r);
                    let n = format_ident!("{}", n);
                    *e = parse_quote!((#l).#n(#r));
                    return;
                }
            }
        }
        // --- scalar operators
        if self.cfg.scalars {
            match e {
                Expr::Binary(b) => {
                    use BinOp::*;
                    let (lk, rk) = (self.kind(&b.left.clone()), self.kind(&b.right.clone()));
                    let sc = lk != Kind::Int && rk != Kind::Int && (lk == Kind::Scalar || rk == Kind::Scalar || matches!(*b.right, Expr::Reference(_)));
                    let name = match b.op {
                        Add(_) => Some("op_add"),
                        Sub(_) => Some("op_sub"),
                        Mul(_) => Some("op_mul"),
                        Div(_) => Some("op_div"),
                        Eq(_) | Ne(_) => Some("op_eq"),
                        _ => None,
                    };
                    if let (true, Some(n)) = (sc, name) {
                        let ne = matches!(b.op, Ne(_));
                        let iseq = matches!(b.op, Eq(_) | Ne(_));
                        let (mut l, mut r) = ((*b.left).clone(), (*b.right).clone());
                        self.visit_expr_mut(&mut l);
                        self.visit_expr_mut(&mut r);
                        let n = format_ident!("{}", n);
                        let r: Expr = if iseq { parse_quote!(&(#r)) } else { r };
                        let x: Expr = parse_quote!((#l).#n(#r));
                        *e = if ne { parse_quote!(!(#x)) } else { x };
                        return;
                    }
                }
                Expr::Unary(u) if matches!(u.op, UnOp::Neg(_)) && self.kind(&u.expr.clone()) == Kind::Scalar => {
                    let mut x = (*u.expr).clone();
                    self.visit_expr_mut(&mut x);
                    *e = parse_quote!((#x).op_neg());
                    return;
                }
                Expr::Path(p) if p.path.segments.len() > 1 => {
                    let last = p.path.segments.last().unwrap().ident.to_string();
                    if last == "ZERO" || last == "ONE" {
                        let p = p.clone();
                        *e = parse_quote!(#p());
                        return;
                    }
                }
                _ => {}
            }
        }
        // --- range indexing
        if self.cfg.ranges {
            if let Expr::Index(i) = e {
                if let Expr::Range(r) = &*i.index {
                    let mut base = (*i.expr).clone();
                    let (lo, hi) = (r.start.clone(), r.end.clone());
                    if !matches!(r.limits, RangeLimits::Closed(_)) {
                        self.visit_expr_mut(&mut base);
                        let lo: Expr = match lo {
                            Some(l) => {
                                let mut l = *l;
                                self.visit_expr_mut(&mut l);
                                l
                            }
                            None => pe("0"),
                        };
                        *e = match hi {
                            Some(h) => {
                                let mut h = *h;
                                self.visit_expr_mut(&mut h);
                                parse_quote!((*__sub(&(#base), #lo, #h)))
                            }
                            None => parse_quote!((*__from(&(#base), #lo))),
                        };
                        return;
                    }
                }
            }
        }
        // --- renamed methods
        if let Expr::MethodCall(m) = e {
            if let Some(f) = self.cfg.fns.get(&m.method.to_string()).cloned() {
                let mut r = (*m.receiver).clone();
                self.visit_expr_mut(&mut r);
                let mut args: Vec<Expr> = m.args.iter().cloned().collect();
                for a in &mut args {
                    self.visit_expr_mut(a);
                }
                let (f, r): (&str, Expr) = match (f.strip_prefix("&mut:"), f.strip_prefix('&')) {
                    (Some(x), _) => (x, parse_quote!(&mut (#r))),
                    (_, Some(x)) => (x, parse_quote!(&(#r))),
                    _ => (&f, r),
                };
                let f: Path = parse_str(f).unwrap();
                *e = parse_quote!(#f(#r #(, #args)*));
                return;
            }
        }
        // if-let scrutinee bindings
        if let Expr::If(i) = e {
            if let Expr::Let(l) = &*i.cond {
                let k = self.kind(&l.expr.clone());
                self.env.push(HashMap::new());
                let p = (*l.pat).clone();
                visit_mut::visit_expr_mut(self, &mut i.cond);
                self.bind(&p, &k);
                self.visit_block_mut(&mut i.then_branch);
                self.env.pop();
                if let Some((_, el)) = &mut i.else_branch {
                    self.visit_expr_mut(el);
                }
                return;
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

/// the variables a loop body changes, and those it binds
#[derive(Default)]
struct Builds {
    built: Vec<String>,
    bound: Vec<String>,
}
impl Builds {
    fn place(&mut self, e: &Expr) {
        if let Expr::Path(p) = e {
            if let Some(i) = p.path.get_ident() {
                self.built.push(i.to_string());
            }
        }
    }
}
impl VisitMut for Builds {
    fn visit_pat_ident_mut(&mut self, p: &mut PatIdent) {
        self.bound.push(p.ident.to_string());
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::Assign(a) => self.place(&a.left),
            Expr::Binary(b) if matches!(b.op, BinOp::AddAssign(_) | BinOp::SubAssign(_) | BinOp::MulAssign(_)) => self.place(&b.left),
            Expr::MethodCall(m) if ["push", "append", "extend", "extend_from_slice", "insert"].contains(&m.method.to_string().as_str()) => self.place(&m.receiver),
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
    }
}
