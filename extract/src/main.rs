//! Mechanical extraction of functions from the real source into one Verus file.
mod inline;
mod desugar;
mod macros;
mod print;
use desugar::{norm, Cfg, Cx, Kind, Overlay};
use quote::{format_ident, quote, ToTokens};
use std::collections::{HashMap, HashSet};
use std::fmt::Write as _;
use std::str::FromStr;
use syn::visit_mut::VisitMut;
use syn::*;

fn die(s: &str) -> ! {
    eprintln!("extract: {s}");
    std::process::exit(3)
}

#[derive(Debug, Clone)]
enum Dir {
    Raw(String),
    Type(String, String),
    Impl { file: String, header: String, body: Vec<ImplIt>, extra_generics: Option<String> },
    Free { file: String, f: FnOv },
    Trait { file: String, name: String, header: String, body: Vec<ImplIt> },
}
#[derive(Debug, Clone)]
enum ImplIt {
    Raw(String),
    Fn(FnOv),
    AllTypes,
}
#[derive(Debug, Clone, Default)]
struct FnOv {
    name: String,
    key: String,
    ret: String,
    spec: String,
    loops: HashMap<usize, String>,
    nloops: Option<usize>,
    anchors: Vec<(String, String)>,
    kinds: Vec<(String, String)>,
    locals: Vec<String>,
    attrs: String,
    rewrites: Vec<(String, String)>,
    line: usize,
    newname: String,
    assumed: bool,
    params: String,
    acctys: HashMap<usize, String>,
}

fn kind_of(s: &str) -> Kind {
    match s {
        "Int" => Kind::Int,
        "Scalar" => Kind::Scalar,
        _ => Kind::Unknown,
    }
}

struct Unit {
    cfg: Cfg,
    dirs: Vec<Dir>,
    rewrites: Vec<(String, String)>,
    specrewrites: Vec<(String, String)>,
    assume: bool,
    params: String,
    macrofiles: Vec<String>,
}

fn parse_overlay(path: &str, u: &mut Unit, depth: usize) {
    if depth > 5 {
        die("include depth")
    }
    let text = std::fs::read_to_string(path).unwrap_or_else(|e| die(&format!("{path}: {e}")));
    let dir = std::path::Path::new(path).parent().unwrap().to_path_buf();
    enum Sec {
        None,
        Raw,
        Spec,
        Loop(usize),
        At(String),
        ImplRaw,
    }
    let mut sec = Sec::None;
    let mut buf = String::new();
    let mut cur_impl: Option<Dir> = None;
    let mut cur_fn: Option<FnOv> = None;
    fn flush_sec(sec: &mut Sec, buf: &mut String, cur_fn: &mut Option<FnOv>, cur_impl: &mut Option<Dir>, u: &mut Unit) {
        let t = std::mem::take(buf);
        match std::mem::replace(sec, Sec::None) {
            Sec::None => {}
            Sec::Raw => u.dirs.push(Dir::Raw(t)),
            Sec::ImplRaw => {
                if let Some(Dir::Impl { body, .. } | Dir::Trait { body, .. }) = cur_impl {
                    body.push(ImplIt::Raw(t))
                }
            }
            Sec::Spec => cur_fn.as_mut().unwrap().spec = t,
            Sec::Loop(k) => {
                cur_fn.as_mut().unwrap().loops.insert(k, t);
            }
            Sec::At(a) => cur_fn.as_mut().unwrap().anchors.push((a, t)),
        }
    }
    fn flush_fn(cur_fn: &mut Option<FnOv>, cur_impl: &mut Option<Dir>, u: &mut Unit, file: &str) {
        if let Some(f) = cur_fn.take() {
            match cur_impl {
                Some(Dir::Impl { body, .. } | Dir::Trait { body, .. }) => body.push(ImplIt::Fn(f)),
                _ => u.dirs.push(Dir::Free { file: file.to_string(), f }),
            }
        }
    }
    let mut free_file = String::new();
    for (ln, l) in text.lines().enumerate() {
        if let Some(d) = l.strip_prefix('@') {
            flush_sec(&mut sec, &mut buf, &mut cur_fn, &mut cur_impl, u);
            let (w, rest) = d.split_once(char::is_whitespace).unwrap_or((d, ""));
            let rest = rest.trim();
            match w {
                "#" => {}
                "include" => {
                    flush_fn(&mut cur_fn, &mut cur_impl, u, &free_file);
                    let p = dir.join(rest);
                    if rest.ends_with(".ov") {
                        parse_overlay(p.to_str().unwrap(), u, depth + 1);
                    } else {
                        let t = std::fs::read_to_string(&p).unwrap_or_else(|e| die(&format!("{p:?}: {e}")));
                        u.dirs.push(Dir::Raw(t));
                    }
                }
                "raw" => {
                    flush_fn(&mut cur_fn, &mut cur_impl, u, &free_file);
                    sec = if cur_impl.is_some() { Sec::ImplRaw } else { Sec::Raw };
                }
                "type" => {
                    let (f, n) = rest.split_once(' ').unwrap();
                    u.dirs.push(Dir::Type(f.into(), n.trim().into()));
                }
                "impl" => {
                    let (f, n) = rest.split_once(' ').unwrap();
                    cur_impl = Some(Dir::Impl { file: f.into(), header: n.trim().into(), body: vec![], extra_generics: None });
                }
                "implhead" => {
                    if let Some(Dir::Impl { extra_generics, .. }) = &mut cur_impl {
                        *extra_generics = Some(rest.to_string());
                    }
                }
                "trait" => {
                    let mut it = rest.splitn(3, ' ');
                    let f = it.next().unwrap();
                    let n = it.next().unwrap();
                    let h = it.next().unwrap_or("");
                    cur_impl = Some(Dir::Trait { file: f.into(), name: n.into(), header: h.into(), body: vec![] });
                }
                "types" => {
                    flush_fn(&mut cur_fn, &mut cur_impl, u, &free_file);
                    if let Some(Dir::Impl { body, .. }) = &mut cur_impl {
                        body.push(ImplIt::AllTypes)
                    }
                }
                "endimpl" | "endtrait" => {
                    flush_fn(&mut cur_fn, &mut cur_impl, u, &free_file);
                    u.dirs.push(cur_impl.take().unwrap());
                }
                "fn" | "freefn" => {
                    flush_fn(&mut cur_fn, &mut cur_impl, u, &free_file);
                    let n;
                    if w == "freefn" {
                        let (f, nn) = rest.split_once(' ').unwrap();
                        free_file = f.to_string();
                        n = nn.trim().to_string();
                    } else {
                        n = rest.to_string();
                    }
                    let hdr = match &cur_impl {
                        Some(Dir::Impl { header, .. }) => format!("{header}::"),
                        Some(Dir::Trait { name, .. }) => format!("{name}::"),
                        _ => String::new(),
                    };
                    cur_fn = Some(FnOv { key: format!("{hdr}{n}"), name: n, ret: "res".into(), line: ln + 1, assumed: u.assume, params: u.params.clone(), ..Default::default() });
                }
                "ret" => cur_fn.as_mut().unwrap().ret = rest.into(),
                "attrs" => cur_fn.as_mut().unwrap().attrs = rest.into(),
                // functions that another unit verifies: `on` keeps their contracts only
                "assume" => {
                    flush_fn(&mut cur_fn, &mut cur_impl, u, &free_file);
                    u.assume = rest == "on"
                }
                // parameters added to the functions that follow (state the source reaches through statics and raw pointers)
                "params" => {
                    flush_fn(&mut cur_fn, &mut cur_impl, u, &free_file);
                    u.params = rest.to_string()
                }
                "macros" => u.macrofiles.push(rest.to_string()),
                "pointers" => u.cfg.pointers = true,
                // arguments added to the calls of these functions
                "passes" => {
                    for p in rest.split_whitespace() {
                        let (a, b) = p.split_once('=').unwrap();
                        u.cfg.passes.insert(a.into(), b.into());
                    }
                }
                "assumed" => cur_fn.as_mut().unwrap().assumed = true,
                "as" => cur_fn.as_mut().unwrap().newname = rest.into(),
                "locals" => cur_fn.as_mut().unwrap().locals = rest.split_whitespace().map(|s| s.to_string()).collect(),
                "accty" => {
                    let (k, t) = rest.split_once(' ').unwrap();
                    cur_fn.as_mut().unwrap().acctys.insert(k.parse().unwrap(), t.to_string());
                }
                "loops" => cur_fn.as_mut().unwrap().nloops = Some(rest.parse().unwrap()),
                "kinds" => {
                    for p in rest.split_whitespace() {
                        let (a, b) = p.split_once('=').unwrap();
                        cur_fn.as_mut().unwrap().kinds.push((a.into(), b.into()));
                    }
                }
                "spec" => sec = Sec::Spec,
                "loop" => sec = Sec::Loop(rest.parse().unwrap_or_else(|_| die(&format!("{path}:{} bad loop", ln + 1)))),
                "at" => sec = Sec::At(rest.to_string()),
                "rewrite" | "specrewrite" => {
                    let (a, b) = rest.split_once("=>").map(|(a, b)| (a.trim().to_string(), b.trim().to_string())).unwrap();
                    let (a, b) = (a.trim_matches('`').to_string(), b.trim_matches('`').to_string());
                    match &mut cur_fn {
                        Some(f) => f.rewrites.push((a, b)),
                        None => u.rewrites.push((a, b)),
                    }
                }
                "scalars" => u.cfg.scalars = true,
                "bitops" => u.cfg.bitops = true,
                "optmap" => u.cfg.optmap = true,
                "ranges" => u.cfg.ranges = true,
                "fields" => {
                    for p in rest.split_whitespace() {
                        let (a, b) = p.split_once('=').unwrap();
                        u.cfg.fields.insert(a.into(), kind_of(b));
                    }
                }
                "calls" => {
                    for p in rest.split_whitespace() {
                        let (a, b) = p.split_once('=').unwrap();
                        u.cfg.calls.insert(a.into(), kind_of(b));
                    }
                }
                "methods" => {
                    for p in rest.split_whitespace() {
                        let (a, b) = p.split_once('=').unwrap();
                        u.cfg.fns.insert(a.into(), b.into());
                    }
                }
                "errtypes" => {
                    for p in rest.split_whitespace() {
                        u.cfg.errtypes.insert(p.into());
                    }
                }
                "end" => {
                    flush_fn(&mut cur_fn, &mut cur_impl, u, &free_file);
                }
                o => die(&format!("{path}:{}: unknown directive @{o}", ln + 1)),
            }
        } else {
            buf.push_str(l);
            buf.push('\n');
        }
    }
    flush_sec(&mut sec, &mut buf, &mut cur_fn, &mut cur_impl, u);
    flush_fn(&mut cur_fn, &mut cur_impl, u, &free_file);
}

fn toks(s: &str) -> String {
    proc_macro2::TokenStream::from_str(s).unwrap_or_else(|e| die(&format!("{e}: {s}"))).to_string()
}

struct StripAttrs;
impl VisitMut for StripAttrs {
    fn visit_attributes_mut(&mut self, a: &mut Vec<Attribute>) {
        a.clear();
    }
}

fn is_test(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| a.path().is_ident("cfg") && norm(a).contains("test"))
}

#[derive(Default)]
struct Report {
    fns: Vec<serde_json::Value>,
}

struct Gen {
    files: HashMap<String, File>,
    repo: String,
    unit: Unit,
    out: String,
    rep: Report,
    stubs: HashSet<String>,
    macros: macros::Macros,
    helpers: inline::Helpers,
    locals: HashMap<String, Vec<String>>,
}

impl Gen {
    fn file(&mut self, f: &str) -> &File {
        if !self.files.contains_key(f) {
            // dep:NAME-VERSION/path : source of a dependency, as cargo has it
            let p = match f.strip_prefix("dep:") {
                None => format!("{}/{}", self.repo, f),
                Some(d) => {
                    let home = std::env::var("CARGO_HOME").unwrap_or_else(|_| format!("{}/.cargo", std::env::var("HOME").unwrap_or_else(|_| "/root".into())));
                    let mut found = String::new();
                    for e in std::fs::read_dir(format!("{home}/registry/src")).into_iter().flatten().flatten() {
                        let c = e.path().join(d);
                        if c.is_file() {
                            found = c.to_string_lossy().into_owned();
                        }
                    }
                    found
                }
            };
            let t = std::fs::read_to_string(&p).unwrap_or_else(|_| String::new());
            let parsed = parse_file(&t).unwrap_or_else(|e| die(&format!("{p}: {e}")));
            self.files.insert(f.into(), parsed);
        }
        &self.files[f]
    }
    fn rewrite(&self, s: String, extra: &[(String, String)]) -> String {
        // `int` and `nat` are type names of the verifier
        fn hyg(t: proc_macro2::TokenStream) -> proc_macro2::TokenStream {
            use proc_macro2::{Group, Ident, TokenTree};
            t.into_iter()
                .map(|t| match t {
                    TokenTree::Ident(i) if i == "int" || i == "nat" => TokenTree::Ident(Ident::new(&format!("{i}_"), i.span())),
                    TokenTree::Group(g) => TokenTree::Group(Group::new(g.delimiter(), hyg(g.stream()))),
                    o => o,
                })
                .collect()
        }
        let mut s = match proc_macro2::TokenStream::from_str(&s) {
            Ok(t) => hyg(t).to_string(),
            Err(_) => s,
        };
        for (a, b) in self.unit.rewrites.iter().chain(extra.iter()) {
            let a = toks(a);
            let b = toks(b);
            s = s.replace(&a, &b);
        }
        s
    }
    /// emit one function; sig/attrs come from the source
    fn emit_fn(&mut self, file: &str, key: &str, f: Option<(Signature, Option<Block>)>, fo: &FnOv, is_trait_impl: bool, is_trait: bool) {
        let fullkey = format!("{file}::{key}");
        let Some((sig, block)) = f else {
            self.rep.fns.push(serde_json::json!({"key": fullkey, "status": "missing", "notes": ["function not found in the source"]}));
            return;
        };
        // token level rewrites
        let sigs = self.rewrite(sig.to_token_stream().to_string(), &fo.rewrites);
        let mut sig: Signature = parse_str(&sigs).unwrap_or_else(|e| die(&format!("{key}: {e}: {sigs}")));
        if !fo.params.is_empty() {
            let extra: Signature = parse_str(&format!("fn x({})", fo.params)).unwrap_or_else(|e| die(&format!("{key}: {e}: {}", fo.params)));
            sig.inputs.extend(extra.inputs);
        }
        let src_text = block.to_token_stream().to_string();
        let mut ghosts: Vec<String> = vec![];
        let mut notes: Vec<String> = vec![];
        let mut lost: Vec<String> = vec![];
        let mut ov = Overlay { spec: fo.spec.clone(), ret: fo.ret.clone(), loops: fo.loops.clone(), anchors: fo.anchors.clone(), nloops: fo.nloops, acctys: fo.acctys.clone(), ..Default::default() };
        let cfg = self.unit.cfg.clone();
        let stub = self.stubs.contains(key) || fo.assumed;
        let mut body_txt = String::new();
        let mut skeleton = vec![];
        let mut locals = vec![];
        let mut kinds = fo.kinds.clone();
        let has_body = block.is_some();
        if let Some(block) = &block {
            let mut block = block.clone();
            self.macros.block(&mut block);
            self.helpers.block(&mut block, &mut notes);
            let bs = self.rewrite(block.to_token_stream().to_string(), &fo.rewrites);
            let mut parsed: Block = parse_str(&bs).unwrap_or_else(|e| die(&format!("{key}: {e}: {bs}")));
            // a new local called like a function of the annotations gets another name
            if let Some(b) = self.locals.get(&fullkey) {
                let text: String = ov.loops.iter().map(|x| x.1.as_str()).chain(ov.anchors.iter().map(|x| x.1.as_str())).collect::<Vec<_>>().join(" ");
                let mut l = Locals(vec![]);
                l.visit_block_mut(&mut parsed);
                for n in l.0 {
                    if !b.contains(&n) && calls(&text, &n) {
                        notes.push(format!("local {n} read as {n}__"));
                        RenameLocal(&n, format_ident!("{}__", n)).visit_block_mut(&mut parsed);
                    }
                }
            }
            // pass 1 : collect the locals, rename the overlay positionally when only names changed
            for pass in 0..2 {
                let mut b = parsed.clone();
                StripAttrs.visit_block_mut(&mut b);
                Cx::tails(&mut b);
                ghosts.clear();
                let mut cx = Cx::new(&cfg, &ov, &mut ghosts);
                for inp in &sig.inputs {
                    if let FnArg::Typed(t) = inp {
                        let k = cx.kind_ty(&t.ty);
                        cx.bind(&t.pat, &k);
                    }
                }
                for (n, k) in &kinds {
                    cx.env[0].insert(n.clone(), kind_of(k));
                }
                cx.visit_block_mut(&mut b);
                // function level anchors
                let start = cx.at("start");
                let end = cx.at("end");
                let retg = cx.at("ret");
                let mut st = start;
                let mut stmts = b.stmts;
                let tail = match stmts.last() {
                    Some(Stmt::Expr(_, None)) => stmts.pop(),
                    _ => None,
                };
                st.append(&mut stmts);
                st.extend(end);
                if let Some(Stmt::Expr(e, None)) = tail {
                    if retg.is_empty() {
                        st.push(Stmt::Expr(e, None));
                    } else {
                        st.push(parse_quote!(let __ret = #e;));
                        st.extend(retg);
                        st.push(Stmt::Expr(parse_quote!(__ret), None));
                    }
                }
                locals = cx.locals.clone();
                let base = if fo.locals.is_empty() { self.locals.get(&fullkey) } else { Some(&fo.locals) };
                let mut map = match base {
                    Some(b) if pass == 0 && *b != locals => renamed_locals(b, &locals),
                    _ => HashMap::new(),
                };
                if pass == 0 {
                    // a fold or collect written as a loop: what it builds has a name
                    for (k, v) in &cx.accs {
                        let a = format!("__a{k}");
                        if ov.loops.iter().map(|x| x.1).chain(ov.anchors.iter().map(|x| &x.1)).any(|t| t.contains(&a)) {
                            map.insert(a, v.clone());
                        }
                    }
                }
                if !map.is_empty() {
                    let sorted: std::collections::BTreeMap<_, _> = map.iter().collect();
                    notes.push(format!("locals renamed: {sorted:?}"));
                    for k in kinds.iter_mut() {
                        if let Some(n) = map.get(&k.0) {
                            k.0 = n.clone();
                        }
                    }
                    // (only parameters can occur there)
                    let params: HashMap<String, String> = map.iter().filter(|(a, _)| **a != ov.ret).map(|(a, b)| (a.clone(), b.clone())).collect();
                    ov.spec = rename(&ov.spec, &params);
                    ov.loops = ov.loops.iter().map(|(k, v)| (*k, rename(v, &map))).collect();
                    ov.anchors = ov.anchors.iter().map(|(k, v)| (rename_anchor(k, &map), rename(v, &map))).collect();
                    continue;
                }
                for (i, (a, _)) in ov.anchors.iter().enumerate() {
                    if !cx.used.contains(&i) {
                        lost.push(format!("anchor `{a}` not found"));
                    }
                }
                if let Some(n) = ov.nloops {
                    if n != cx.nloop {
                        lost.push(format!("expected {n} loops, found {}", cx.nloop));
                    }
                }
                skeleton = cx.skeleton.clone();
                notes.extend(cx.notes.clone());
                let ts = quote!(#(#st)*);
                body_txt = print::print(ts, &ghosts);
                break;
            }
        }
        // signature
        for i in sig.inputs.iter_mut() {
            match i {
                FnArg::Typed(t) => t.attrs.clear(),
                FnArg::Receiver(r) => r.attrs.clear(),
            }
        }
        let out_ty = match &sig.output {
            ReturnType::Default => None,
            ReturnType::Type(_, t) => Some(t.to_token_stream().to_string()),
        };
        let name = if fo.newname.is_empty() { sig.ident.to_string() } else { fo.newname.clone() };
        let gen = print::print(sig.generics.clone().into_token_stream(), &[]);
        let inputs = print::print(sig.inputs.to_token_stream(), &[]);
        let wh = sig.generics.where_clause.as_ref().map(|w| print::print(w.to_token_stream(), &[])).unwrap_or_default();
        let vis = if is_trait_impl || is_trait { "" } else { "pub " };
        let lost_any = !lost.is_empty();
        let mut s = String::new();
        let start_line = self.out.lines().count() + 1;
        if (stub || lost_any) && has_body {
            s.push_str("#[verifier::external_body]\n");
        }
        if !fo.attrs.is_empty() && !(stub || lost_any) {
            let _ = writeln!(s, "{}", fo.attrs);
        }
        let ret = out_ty.map(|t| format!(" -> ({}: {})", ov.ret, t)).unwrap_or_default();
        let _ = write!(s, "{vis}fn {name}{gen}({inputs}){ret} {wh}\n{}", ov.spec);
        if !has_body {
            s.push_str(";\n");
        } else if stub || lost_any {
            s.push_str("{ unimplemented!() }\n");
        } else {
            let _ = write!(s, "{{\n{body_txt}\n}}\n");
        }
        let _ = writeln!(self.out, "// FN {fullkey}");
        self.out.push_str(&s);
        let end_line = self.out.lines().count();
        let _ = writeln!(self.out, "// END {fullkey}");
        let status = if !has_body { "declared" } else if fo.assumed { "assumed" } else if self.stubs.contains(key) { "stubbed" } else if lost_any { "lost" } else { "extracted" };
        self.rep.fns.push(serde_json::json!({
            "key": fullkey, "status": status, "name": key, "start": start_line, "end": end_line,
            "loops": skeleton, "locals": locals, "lost": lost, "notes": notes,
            "src_tokens": src_text.len(),
        }));
    }

    fn run(&mut self) {
        let dirs = self.unit.dirs.clone();
        for d in dirs {
            match d {
                Dir::Raw(t) => self.out.push_str(&t),
                Dir::Type(file, name) => {
                    let items = all_items(&self.file(&file).items);
                    let mut found = false;
                    for it in items {
                        match it {
                            Item::Struct(mut s) if s.ident == name => {
                                found = true;
                                StripAttrs.visit_item_struct_mut(&mut s);
                                s.vis = parse_quote!(pub);
                                for f in s.fields.iter_mut() {
                                    f.vis = parse_quote!(pub);
                                }
                                let t = self.rewrite(s.to_token_stream().to_string(), &[]);
                                self.out.push_str(&print::print(proc_macro2::TokenStream::from_str(&t).unwrap(), &[]));
                                self.out.push('\n');
                            }
                            Item::Const(mut s) if s.ident == name => {
                                found = true;
                                s.attrs.clear();
                                s.vis = parse_quote!(pub);
                                let t = self.rewrite(s.to_token_stream().to_string(), &[]);
                                self.out.push_str(&print::print(proc_macro2::TokenStream::from_str(&t).unwrap(), &[]));
                                self.out.push('\n');
                            }
                            Item::Enum(mut s) if s.ident == name => {
                                found = true;
                                StripAttrs.visit_item_enum_mut(&mut s);
                                s.vis = parse_quote!(pub);
                                let t = self.rewrite(s.to_token_stream().to_string(), &[]);
                                self.out.push_str(&print::print(proc_macro2::TokenStream::from_str(&t).unwrap(), &[]));
                                self.out.push('\n');
                            }
                            _ => {}
                        }
                    }
                    if !found {
                        self.rep.fns.push(serde_json::json!({"key": format!("{file}::{name}"), "status": "missing-type"}));
                    }
                }
                Dir::Free { file, f } => {
                    let items = all_items(&self.file(&file).items);
                    let mut r = None;
                    for it in items {
                        if let Item::Fn(i) = it {
                            if i.sig.ident == f.name {
                                r = Some((i.sig.clone(), Some((*i.block).clone())));
                            }
                        }
                    }
                    self.emit_fn(&file, &f.key.clone(), r, &f, false, false);
                }
                Dir::Impl { file, header, body, extra_generics } => {
                    let want: String = header.chars().filter(|c| !c.is_whitespace()).collect();
                    let items = all_items(&self.file(&file).items);
                    let mut impls: Vec<ItemImpl> = vec![];
                    for it in items {
                        if let Item::Impl(i) = it {
                            let h = match &i.trait_ {
                                Some((_, p, _)) => format!("{}for{}", norm(p), norm(&i.self_ty)),
                                None => norm(&i.self_ty),
                            };
                            if h == want {
                                impls.push(i);
                            }
                        }
                    }
                    if impls.is_empty() {
                        for b in &body {
                            if let ImplIt::Fn(f) = b {
                                self.emit_fn(&file, &f.key.clone(), None, f, false, false);
                            }
                        }
                        continue;
                    }
                    // (the first of those that hold most of the functions asked for)
                    let holds = |i: &ItemImpl| {
                        i.items
                            .iter()
                            .filter(|x| {
                                let n = match x {
                                    ImplItem::Fn(m) => m.sig.ident.to_string(),
                                    ImplItem::Const(c) => c.ident.to_string(),
                                    _ => return false,
                                };
                                body.iter().any(|b| matches!(b, ImplIt::Fn(f) if n == f.name))
                            })
                            .count()
                    };
                    let best = impls.iter().map(holds).max().unwrap_or(0);
                    let im = impls.iter().find(|i| holds(i) == best).unwrap().clone();
                    let is_trait = im.trait_.is_some();
                    let (g, _, w) = im.generics.split_for_impl();
                    let self_ty = &im.self_ty;
                    let head = match &im.trait_ {
                        Some((_, p, _)) => quote!(impl #g #p for #self_ty #w),
                        None => quote!(impl #g #self_ty #w),
                    };
                    let head = match &extra_generics {
                        Some(h) => h.clone(),
                        None => print::print(proc_macro2::TokenStream::from_str(&self.rewrite(head.to_string(), &[])).unwrap(), &[]),
                    };
                    let _ = writeln!(self.out, "{head} {{");
                    for b in &body {
                        match b {
                            ImplIt::Raw(t) => self.out.push_str(t),
                            ImplIt::AllTypes => {
                                for ii in im.items.iter() {
                                    match ii {
                                        ImplItem::Type(t) => {
                                            let mut t = t.clone();
                                            t.attrs.clear();
                                            let s = self.rewrite(t.to_token_stream().to_string(), &[]);
                                            let _ = writeln!(self.out, "{s}");
                                        }
                                        _ => {}
                                    }
                                }
                            }
                            ImplIt::Fn(f) => {
                                let mut r = None;
                                for i in &impls {
                                    for ii in &i.items {
                                        match ii {
                                            ImplItem::Fn(m) if m.sig.ident == f.name => r = Some((m.sig.clone(), Some(m.block.clone()))),
                                            // associated constants become functions
                                            ImplItem::Const(c) if c.ident == f.name => {
                                                let (n, t, e) = (&c.ident, &c.ty, &c.expr);
                                                let fi: ItemFn = parse_quote!(fn #n() -> #t { #e });
                                                r = Some((fi.sig.clone(), Some((*fi.block).clone())));
                                            }
                                            _ => {}
                                        }
                                    }
                                }
                                self.emit_fn(&file, &f.key.clone(), r, f, is_trait, false);
                            }
                        }
                    }
                    self.out.push_str("}\n");
                }
                Dir::Trait { file, name, header, body } => {
                    let items = all_items(&self.file(&file).items);
                    let mut tr = None;
                    for it in items {
                        if let Item::Trait(t) = it {
                            if t.ident == name {
                                tr = Some(t);
                            }
                        }
                    }
                    let _ = writeln!(self.out, "{header} {{");
                    for b in &body {
                        match b {
                            ImplIt::Raw(t) => self.out.push_str(t),
                            ImplIt::AllTypes => {}
                            ImplIt::Fn(f) => {
                                let mut r = None;
                                if let Some(t) = &tr {
                                    for ii in &t.items {
                                        match ii {
                                            TraitItem::Fn(m) if m.sig.ident == f.name => r = Some((m.sig.clone(), m.default.clone())),
                                            TraitItem::Const(c) if c.ident == f.name => {
                                                let (n, t) = (&c.ident, &c.ty);
                                                let fi: TraitItemFn = parse_quote!(fn #n() -> #t;);
                                                r = Some((fi.sig.clone(), None));
                                            }
                                            _ => {}
                                        }
                                    }
                                }
                                self.emit_fn(&file, &f.key.clone(), r, f, false, true);
                            }
                        }
                    }
                    self.out.push_str("}\n");
                }
            }
        }
    }
}

fn all_items(items: &[Item]) -> Vec<Item> {
    let mut v = vec![];
    for i in items {
        if let Item::Mod(m) = i {
            if !is_test(&m.attrs) {
                if let Some((_, c)) = &m.content {
                    v.extend(all_items(c));
                }
            }
            continue;
        }
        v.push(i.clone());
    }
    v
}

/// whether the name is used as a function in the text
fn calls(text: &str, name: &str) -> bool {
    let is_id = |c: char| c.is_alphanumeric() || c == '_';
    text.match_indices(name).any(|(i, _)| {
        let rest = &text[i + name.len()..];
        !text[..i].ends_with(|c: char| is_id(c) || c == '.') && (rest.trim_start().starts_with('(') || rest.starts_with("::<"))
    })
}
struct Locals(Vec<String>);
impl VisitMut for Locals {
    fn visit_pat_ident_mut(&mut self, p: &mut syn::PatIdent) {
        self.0.push(p.ident.to_string());
        syn::visit_mut::visit_pat_ident_mut(self, p);
    }
}
struct RenameLocal<'a>(&'a str, proc_macro2::Ident);
impl VisitMut for RenameLocal<'_> {
    fn visit_pat_ident_mut(&mut self, p: &mut syn::PatIdent) {
        if p.ident == self.0 {
            p.ident = self.1.clone();
        }
        syn::visit_mut::visit_pat_ident_mut(self, p);
    }
    fn visit_field_value_mut(&mut self, f: &mut syn::FieldValue) {
        if f.colon_token.is_none() {
            f.colon_token = Some(Default::default());
        }
        syn::visit_mut::visit_field_value_mut(self, f);
    }
    fn visit_field_pat_mut(&mut self, f: &mut syn::FieldPat) {
        if f.colon_token.is_none() {
            f.colon_token = Some(Default::default());
        }
        syn::visit_mut::visit_field_pat_mut(self, f);
    }
    fn visit_expr_call_mut(&mut self, c: &mut syn::ExprCall) {
        // the called name is a function
        if !matches!(&*c.func, Expr::Path(_)) {
            self.visit_expr_mut(&mut c.func);
        }
        for a in c.args.iter_mut() {
            self.visit_expr_mut(a);
        }
    }
    fn visit_expr_path_mut(&mut self, p: &mut syn::ExprPath) {
        if p.qself.is_none() && p.path.is_ident(self.0) {
            p.path = self.1.clone().into();
        }
    }
    fn visit_macro_mut(&mut self, m: &mut syn::Macro) {
        m.tokens = rename_tokens(m.tokens.clone(), self.0, &self.1);
    }
}
fn rename_tokens(t: proc_macro2::TokenStream, a: &str, b: &proc_macro2::Ident) -> proc_macro2::TokenStream {
    use proc_macro2::TokenTree as T;
    let mut after_dot = false;
    t.into_iter()
        .map(|x| {
            let dot = after_dot;
            after_dot = matches!(&x, T::Punct(p) if p.as_char() == '.');
            match x {
                T::Ident(i) if !dot && i == a => T::Ident(b.clone()),
                T::Group(g) => {
                    let mut n = proc_macro2::Group::new(g.delimiter(), rename_tokens(g.stream(), a, b));
                    n.set_span(g.span());
                    T::Group(n)
                }
                x => x,
            }
        })
        .collect()
}
/// the locals of the pinned tree that have another name now: the two lists are aligned on the
/// names they share, and a stretch of vanished names answers one of new names of the same length
fn renamed_locals(a: &[String], b: &[String]) -> HashMap<String, String> {
    let (n, m) = (a.len(), b.len());
    let mut t = vec![vec![0usize; m + 1]; n + 1];
    for i in (0..n).rev() {
        for j in (0..m).rev() {
            t[i][j] = if a[i] == b[j] { t[i + 1][j + 1] + 1 } else { t[i + 1][j].max(t[i][j + 1]) };
        }
    }
    let mut map: HashMap<String, String> = HashMap::new();
    let mut bad: HashSet<String> = HashSet::new();
    let (mut i, mut j) = (0, 0);
    let mut gap: (Vec<&String>, Vec<&String>) = (vec![], vec![]);
    loop {
        let hit = i < n && j < m && a[i] == b[j] && t[i][j] == t[i + 1][j + 1] + 1;
        if hit || (i == n && j == m) {
            if gap.0.len() == gap.1.len() {
                for (x, y) in gap.0.iter().zip(&gap.1) {
                    if a.contains(y) || b.contains(x) || map.get(*x).map_or(false, |z| z != *y) {
                        bad.insert(x.to_string());
                    }
                    map.insert(x.to_string(), y.to_string());
                }
            }
            gap = (vec![], vec![]);
            if !hit {
                break;
            }
            i += 1;
            j += 1;
        } else if i < n && (j == m || t[i + 1][j] >= t[i][j + 1]) {
            gap.0.push(&a[i]);
            i += 1;
        } else {
            gap.1.push(&b[j]);
            j += 1;
        }
    }
    map.retain(|k, _| !bad.contains(k));
    map
}
fn rename(s: &str, map: &HashMap<String, String>) -> String {
    let mut out = String::new();
    let mut id = String::new();
    for c in s.chars().chain(std::iter::once('\0')) {
        if c.is_alphanumeric() || c == '_' {
            id.push(c);
        } else {
            if !id.is_empty() {
                out.push_str(map.get(&id).map(|s| s.as_str()).unwrap_or(&id));
                id.clear();
            }
            if c != '\0' {
                out.push(c);
            }
        }
    }
    out
}
fn rename_anchor(s: &str, map: &HashMap<String, String>) -> String {
    if let Some(r) = s.strip_prefix("before ") {
        format!("before {}", rename(r, map))
    } else if let Some(r) = s.strip_prefix("after ") {
        format!("after {}", rename(r, map))
    } else {
        s.to_string()
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let mut repo = "/repo".to_string();
    let (mut ov, mut out, mut meta) = (String::new(), String::new(), String::new());
    let mut stubs = HashSet::new();
    let mut i = 1;
    while i < a.len() {
        match a[i].as_str() {
            "--repo" => repo = a[i + 1].clone(),
            "--overlay" => ov = a[i + 1].clone(),
            "--out" => out = a[i + 1].clone(),
            "--meta" => meta = a[i + 1].clone(),
            "--names" => {
                for n in inline::Helpers::names(&a[i + 1]) {
                    println!("{n}");
                }
                return;
            }
            "--stub" => {
                stubs.insert(a[i + 1].clone());
            }
            o => die(&format!("bad arg {o}")),
        }
        i += 2;
    }
    let mut unit = Unit { cfg: Cfg::default(), dirs: vec![], rewrites: vec![], specrewrites: vec![], assume: false, params: String::new(), macrofiles: vec![] };
    parse_overlay(&ov, &mut unit, 0);
    let _ = &unit.specrewrites;
    // functions of the pinned tree are never put in the place of their calls, nor those under contract
    let dir = std::path::Path::new(&ov).parent().unwrap().join("known_fns.txt");
    let mut known: HashSet<String> = std::fs::read_to_string(dir).unwrap_or_default().lines().map(|s| s.to_string()).collect();
    for d in &unit.dirs {
        match d {
            Dir::Free { f, .. } => {
                known.insert(f.name.clone());
            }
            Dir::Impl { body, .. } | Dir::Trait { body, .. } => {
                for b in body {
                    if let ImplIt::Fn(f) = b {
                        known.insert(f.name.clone());
                    }
                }
            }
            _ => {}
        }
    }
    // the names of the locals of the pinned tree
    let file = std::path::Path::new(&ov).parent().unwrap().join("known_locals.json");
    let unit_name = std::path::Path::new(&ov).file_stem().unwrap().to_string_lossy().to_string();
    let locals: HashMap<String, HashMap<String, Vec<String>>> =
        std::fs::read_to_string(file).ok().and_then(|s| serde_json::from_str(&s).ok()).unwrap_or_default();
    let locals = locals.get(&unit_name).cloned().unwrap_or_default();
    let helpers = inline::Helpers::load(&repo, &known);
    let mut g = Gen { files: HashMap::new(), repo, unit, out: String::new(), rep: Report::default(), stubs, macros: Default::default(), helpers, locals };
    for f in g.unit.macrofiles.clone() {
        let items = g.file(&f).items.clone();
        g.macros.add(&items);
    }
    g.run();
    std::fs::write(&out, &g.out).unwrap();
    if !meta.is_empty() {
        std::fs::write(&meta, serde_json::to_string_pretty(&serde_json::json!({"functions": g.rep.fns})).unwrap()).unwrap();
    }
}
