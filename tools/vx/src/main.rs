//! vx: extracts functions of /repo's working tree into Verus text, with contracts taken from unit files.
mod mbe;
mod print;
mod source;
mod tx;
mod unit;
use quote::{format_ident, quote, ToTokens};
use source::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use syn::visit_mut::VisitMut;
use syn::*;
use tx::*;
use unit::*;

fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), '\t' => o.push_str("\\t"), c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) }
    }
    o.push('"');
    o
}
fn jlist<'a>(v: impl IntoIterator<Item = &'a String>) -> String { format!("[{}]", v.into_iter().map(|s| jstr(s)).collect::<Vec<_>>().join(",")) }

#[derive(Default)]
struct FnMeta {
    id: String, file: String, line: usize, key: String, unit: String, stub: bool, trusted: bool, degraded: Vec<String>, tentative: bool,
    notes: BTreeSet<String>, helpers: BTreeSet<String>, loops: Vec<String>, dirs: Vec<String>, returns: usize, const_loops: u32, binders: Vec<String>, marks: Vec<String>, renames: Vec<String>,
}

struct Baseline(BTreeMap<String, (Vec<String>, Vec<String>, usize)>, BTreeMap<String, Vec<String>>); // id -> (binders, loops, number of `return`s); id -> directions of its loops
impl Baseline {
    fn load(p: &str) -> Baseline {
        let (mut m, mut dir) = (BTreeMap::new(), BTreeMap::new());
        if let Ok(t) = std::fs::read_to_string(p) {
            for l in t.lines() {
                let f: Vec<&str> = l.split('\t').collect();
                if f.len() == 5 {
                    let sp = |s: &str| s.split(' ').filter(|x| !x.is_empty()).map(String::from).collect::<Vec<_>>();
                    m.insert(f[0].to_string(), (sp(f[1]), sp(f[2]), f[3].parse().unwrap_or(0)));
                    dir.insert(f[0].to_string(), sp(f[4]));
                }
            }
        }
        Baseline(m, dir)
    }
}

/// map from baseline binder names to current ones
fn align(old: &[String], new: &[String]) -> HashMap<String, String> {
    let (n, m) = (old.len(), new.len());
    let mut l = vec![vec![0usize; m + 1]; n + 1];
    for i in (0..n).rev() { for j in (0..m).rev() { l[i][j] = if old[i] == new[j] { l[i + 1][j + 1] + 1 } else { l[i + 1][j].max(l[i][j + 1]) }; } }
    let mut res: HashMap<String, String> = HashMap::new();
    let mut bad: BTreeSet<String> = BTreeSet::new();
    let (mut i, mut j) = (0, 0);
    let (mut go, mut gn): (Vec<String>, Vec<String>) = (vec![], vec![]);
    let mut put = |go: &mut Vec<String>, gn: &mut Vec<String>| {
        if go.len() == gn.len() { for (a, b) in go.iter().zip(gn.iter()) { if let Some(x) = res.get(a) { if x != b { bad.insert(a.clone()); } } res.entry(a.clone()).or_insert(b.clone()); } }
        go.clear(); gn.clear();
    };
    while i < n && j < m {
        if old[i] == new[j] { put(&mut go, &mut gn); i += 1; j += 1; }
        else if l[i + 1][j] >= l[i][j + 1] { go.push(old[i].clone()); i += 1; }
        else { gn.push(new[j].clone()); j += 1; }
    }
    go.extend_from_slice(&old[i..]); gn.extend_from_slice(&new[j..]);
    put(&mut go, &mut gn);
    // a name that still exists keeps its meaning
    res.retain(|k, _| !new.contains(k) || !old.contains(k));
    res
}

/// counts the `return`s of a function body (closures and nested functions excluded), or puts the end-of-body hint before each
struct Returns { n: usize, wrap: Option<(Ident, Type)>, unit: bool }
impl Returns { fn count(b: &mut Block) -> usize { let mut r = Returns { n: 0, wrap: None, unit: false }; r.visit_block_mut(b); r.n } }
impl VisitMut for Returns {
    fn visit_item_mut(&mut self, _: &mut Item) {}
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if matches!(e, Expr::Closure(_)) { return; }
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Return(r) = e {
            self.n += 1;
            if let (Some((n, t)), Some(x)) = (&self.wrap, &r.expr) { *e = parse_quote!({ let #n: #t = #x; vx_mark!("end"); return #n; }); }
            else if self.unit && r.expr.is_none() { *e = parse_quote!({ vx_mark!("end"); return; }); }
        }
    }
}

/// replace whole identifiers in annotation text
fn rename_text(t: &str, m: &HashMap<String, String>) -> String {
    if m.is_empty() { return t.to_string(); }
    let mut out = String::new();
    let mut w = String::new();
    for c in t.chars().chain(std::iter::once('\0')) {
        if c.is_alphanumeric() || c == '_' { w.push(c); continue; }
        if !w.is_empty() { out.push_str(m.get(&w).map(|s| s.as_str()).unwrap_or(&w)); w.clear(); }
        if c != '\0' { out.push(c); }
    }
    out
}

fn loop_text(user: &str, li: &LoopInfo) -> String {
    let mut sec: BTreeMap<&str, String> = BTreeMap::new();
    let mut cur = "invariant";
    for l in user.lines() {
        let t = l.trim();
        let mut rest = t.to_string();
        for kw in ["invariant_except_break", "invariant", "ensures", "decreases"] {
            if t == kw || t.starts_with(&format!("{kw} ")) { cur = kw; rest = t[kw.len()..].trim().to_string(); break; }
        }
        if rest.is_empty() { continue; }
        let e = sec.entry(cur).or_default();
        e.push_str("            ");
        e.push_str(&rest);
        e.push('\n');
    }
    let mut inv = String::new();
    for a in &li.auto { inv.push_str(&format!("            {a},\n")); }
    inv.push_str(sec.get("invariant").map(|s| s.as_str()).unwrap_or(""));
    let mut o = String::new();
    if let Some(s) = sec.get("invariant_except_break") { o.push_str(&format!("        invariant_except_break\n{}{}", s.trim_end(), if s.trim_end().ends_with(',') { "\n" } else { ",\n" })); }
    if !inv.trim().is_empty() { o.push_str("        invariant\n"); o.push_str(inv.trim_end()); if !inv.trim_end().ends_with(',') { o.push(','); } o.push('\n'); }
    if let Some(s) = sec.get("ensures") { o.push_str(&format!("        ensures\n{}{}", s.trim_end(), if s.trim_end().ends_with(',') { "\n" } else { ",\n" })); }
    if let Some(s) = sec.get("decreases") { o.push_str(&format!("        decreases\n{}\n", s.trim_end())); }
    else if let Some(d) = &li.dec { o.push_str(&format!("        decreases {d},\n")); }
    let m: HashMap<String, String> = li.subst.iter().cloned().collect();
    rename_text(&o, &m)
}

struct NormTy;
impl VisitMut for NormTy {
    fn visit_type_mut(&mut self, t: &mut Type) {
        if let Type::Path(p) = t {
            if p.qself.is_none() {
                let s = norm(&p.path);
                if s == "std::ops::RangeInclusive<usize>" { return; }
                if s == "std::fmt::Result" || s == "fmt::Result" || s == "core::fmt::Result" { *t = parse_quote!(VxFmtResult); return; }
                if let Some(l) = p.path.segments.last().cloned() {
                    let first = p.path.segments.first().unwrap().ident.to_string();
                    if p.path.segments.len() > 1 && first != "Self" && first.chars().next().unwrap().is_lowercase() { p.path.segments = std::iter::once(l).collect(); p.path.leading_colon = None; }
                }
            }
        }
        syn::visit_mut::visit_type_mut(self, t);
    }
    fn visit_path_mut(&mut self, p: &mut Path) {
        if p.segments.len() > 1 {
            let first = p.segments.first().unwrap().ident.to_string();
            if first.chars().next().unwrap().is_lowercase() { let l = p.segments.last().unwrap().clone(); p.segments = std::iter::once(l).collect(); p.leading_colon = None; }
        }
        syn::visit_mut::visit_path_mut(self, p);
    }
}
fn fix_generics(g: &mut Generics) {
    for p in g.params.iter_mut() {
        if let GenericParam::Type(t) = p {
            for b in t.bounds.iter_mut() {
                if let TypeParamBound::Trait(tb) = b {
                    let n = norm(&tb.path);
                    if n.starts_with("AsRef<[u8]>") { tb.path = parse_quote!(VxAsRef); }
                    else if n.ends_with("Iterator<Item=u8>") && !n.contains("Into") { tb.path = parse_quote!(VxKeys); }
                    else { NormTy.visit_path_mut(&mut tb.path); }
                }
            }
        }
    }
}
fn nty(t: &Type) -> Type { let mut t = t.clone(); NormTy.visit_type_mut(&mut t); t }
fn txt(t: &impl ToTokens) -> String { print::print(t.to_token_stream(), &|_| String::new()).trim().to_string() }

struct Ctx<'a> {
    k: &'a Krate,
    known: BTreeSet<String>,
    consts: BTreeMap<String, String>,
    base: Baseline,
    vac: bool,
    force_stub: BTreeSet<String>,
    bare: BTreeSet<String>,
    metas: Vec<FnMeta>,
}

fn subst_tokens(t: proc_macro2::TokenStream, spec: &str) -> proc_macro2::TokenStream {
    use proc_macro2::{Group, TokenStream, TokenTree};
    let m: HashMap<String, TokenStream> = spec.split(',').filter_map(|x| x.split_once(':')).map(|(a, b)| (a.to_string(), b.parse().unwrap())).collect();
    fn go(t: TokenStream, m: &HashMap<String, TokenStream>) -> TokenStream {
        t.into_iter().flat_map(|x| -> TokenStream { match x {
            TokenTree::Ident(i) if m.contains_key(&i.to_string()) => m[&i.to_string()].clone(),
            TokenTree::Group(g) => { let mut n = Group::new(g.delimiter(), go(g.stream(), m)); n.set_span(g.span()); TokenTree::from(n).into() }
            x => x.into(),
        } }).collect()
    }
    go(t, &m)
}
/// generic function at one instance: `inst=N:32,H:Sha256` removes the generic parameters and writes the arguments in their place
fn instantiate(mut f: FnDef, spec: &str) -> FnDef {
    use proc_macro2::TokenStream;
    let m: HashMap<String, TokenStream> = spec.split(',').filter_map(|x| x.split_once(':')).map(|(a, b)| (a.to_string(), b.parse().unwrap())).collect();
    let go = |t: TokenStream, _: &HashMap<String, TokenStream>| subst_tokens(t, spec);
    for g in [&mut f.sig.generics, &mut f.impl_generics] {
        g.params = g.params.iter().filter(|p| match p { GenericParam::Type(t) => !m.contains_key(&t.ident.to_string()), GenericParam::Const(t) => !m.contains_key(&t.ident.to_string()), _ => true }).cloned().collect();
        g.where_clause = None;
        if g.params.is_empty() { g.lt_token = None; g.gt_token = None; }
    }
    if let Ok(x) = parse2(go(f.sig.to_token_stream(), &m)) { f.sig = x; }
    if let Some(b) = &f.block { if let Ok(x) = parse2(go(b.to_token_stream(), &m)) { f.block = Some(x); } }
    if let Some(t) = &f.self_ty { if let Ok(x) = parse2(go(t.to_token_stream(), &m)) { f.self_ty = Some(x); } }
    f
}

enum Out { Text(String), Impl { head: String, assoc: String, body: String, gkey: String } }

/// loops over a literal range (or array literal), in pre-order; those chosen by the mask are written out round by round
struct Unroll<'x> { mask: u32, seen: u32, done: u32, env: Vec<(String, i128)>, consts: &'x dyn Fn(&str) -> Option<i128> }
impl<'x> Unroll<'x> {
    fn val(&self, e: &Expr) -> Option<(i128, String)> {
        match e {
            Expr::Lit(ExprLit { lit: Lit::Int(l), .. }) => Some((l.base10_parse().ok()?, l.suffix().to_string())),
            Expr::Paren(p) => self.val(&p.expr),
            Expr::Path(p) => { let n = p.path.segments.last()?.ident.to_string(); if let Some((_, v)) = self.env.iter().rev().find(|x| x.0 == n) { return Some((*v, String::new())); } Some(((self.consts)(&n)?, String::new())) }
            _ => None,
        }
    }
    fn rounds(&self, e: &Expr) -> Option<Vec<Expr>> {
        match e {
            Expr::Paren(p) => self.rounds(&p.expr),
            Expr::MethodCall(m) if m.method == "rev" && m.args.is_empty() => { let mut v = self.rounds(&m.receiver)?; v.reverse(); Some(v) }
            Expr::Range(r) => {
                let ((a, s1), (mut b, s2)) = (self.val(r.start.as_ref()?)?, self.val(r.end.as_ref()?)?);
                if matches!(r.limits, RangeLimits::Closed(_)) { b += 1; }
                if b - a > 16 { return None; }
                let s = if s1.is_empty() { s2 } else { s1 };
                (a..b).map(|i| parse_str::<Expr>(&format!("{i}{s}")).ok()).collect()
            }
            Expr::Array(a) if a.elems.len() <= 16 => Some(a.elems.iter().cloned().collect()),
            Expr::MethodCall(m) if m.method == "into_iter" && m.args.is_empty() && matches!(&*m.receiver, Expr::Array(_)) => self.rounds(&m.receiver),
            Expr::MethodCall(m) if m.method == "enumerate" && m.args.is_empty() => Some(self.rounds(&m.receiver)?.into_iter().enumerate().map(|(k, e)| { let k: Expr = parse_str(&format!("{k}usize")).unwrap(); parse_quote!((#k, #e)) }).collect()),
            _ => None,
        }
    }
    /// array elements that are not literals are evaluated before the first round
    fn hoist(&self, e: &mut Expr, pre: &mut Vec<Stmt>) {
        match e {
            Expr::MethodCall(m) => { self.hoist(&mut m.receiver, pre); for a in m.args.iter_mut() { self.hoist(a, pre); } }
            Expr::Paren(p) => self.hoist(&mut p.expr, pre),
            Expr::Array(a) => for x in a.elems.iter_mut() {
                if !literal(x) {
                    let i = format_ident!("vx_u{}_{}", self.done, pre.len());
                    pre.push(parse_quote!(let #i = #x;));
                    *x = parse_quote!(#i);
                }
            },
            _ => {}
        }
    }
}
fn literal(e: &Expr) -> bool {
    match e {
        Expr::Lit(_) => true,
        Expr::Tuple(t) => t.elems.iter().all(literal),
        Expr::Array(t) => t.elems.iter().all(literal),
        Expr::Paren(p) => literal(&p.expr),
        Expr::Unary(u) => matches!(u.op, UnOp::Neg(_)) && literal(&u.expr),
        _ => false,
    }
}
fn jumps(b: &Block) -> bool {
    struct J(bool);
    impl<'ast> syn::visit::Visit<'ast> for J {
        fn visit_expr_break(&mut self, _: &'ast ExprBreak) { self.0 = true; }
        fn visit_expr_continue(&mut self, _: &'ast ExprContinue) { self.0 = true; }
    }
    let mut j = J(false);
    syn::visit::Visit::visit_block(&mut j, b);
    j.0
}
impl<'x> VisitMut for Unroll<'x> {
    fn visit_item_mut(&mut self, _: &mut Item) {}
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::ForLoop(f) = e {
            // (x, v) in A.iter_mut().zip([..]) and A.iter_mut().enumerate().. with a literal array on the right
            let mut muts: Option<(String, Expr)> = None;
            let (mut pat, mut it, mut body) = ((*f.pat).clone(), (*f.expr).clone(), f.body.clone());
            if let (Expr::MethodCall(z), Pat::Tuple(tp)) = (&*f.expr, &*f.pat) {
                if let (true, 2, Some(Expr::MethodCall(im))) = (z.method == "zip" && z.args.len() == 1, tp.elems.len(), Some(&*z.receiver)) {
                    if let (true, Pat::Ident(x)) = (im.method == "iter_mut" && im.args.is_empty() && tx::is_place(&im.receiver), &tp.elems[0]) {
                        muts = Some((x.ident.to_string(), (*im.receiver).clone()));
                        pat = tp.elems[1].clone();
                        it = z.args[0].clone();
                    }
                }
            }
            if let (Some(_), false, None) = (self.rounds(&it), jumps(&f.body), &f.label) {
                let bit = 1u32 << self.seen.min(31);
                self.seen += 1;
                if self.mask & bit != 0 {
                    self.done += 1;
                    let mut out: Vec<Stmt> = vec![];
                    self.hoist(&mut it, &mut out);
                    let v = self.rounds(&it).unwrap_or_default();
                    let from = self.seen;
                    let mut to = from;
                    for (k, i) in v.into_iter().enumerate() {
                        self.seen = from;
                        let mut b = body.clone();
                        if let Some((x, a)) = &muts { let k: Expr = parse_str(&format!("{k}usize")).unwrap(); tx::Subst { name: x, place: parse_quote!(#a[#k]), mode: tx::Mode::RefMut }.visit_block_mut(&mut b); }
                        let bound = match (&pat, self.val(&i)) { (Pat::Ident(p), Some((v, _))) if p.mutability.is_none() && p.subpat.is_none() => { self.env.push((p.ident.to_string(), v)); true } _ => false };
                        self.visit_block_mut(&mut b);
                        if bound { self.env.pop(); }
                        to = to.max(self.seen);
                        let st = &b.stmts;
                        out.push(if matches!(pat, Pat::Wild(_)) { parse_quote!({ #(#st)* }) } else { parse_quote!({ let #pat = #i; #(#st)* }) });
                    }
                    self.seen = to;
                    *e = parse_quote!({ #(#out)* });
                    return;
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

impl<'a> Ctx<'a> {
    fn gen_fn(&mut self, d: &FnDir) -> Option<Out> {
        let n = self.metas.len();
        let r = self.gen_fn_with(d, 0);
        let broken = |m: &FnMeta| !m.degraded.is_empty() && !m.stub && m.degraded.iter().any(|x| x.starts_with("loop structure") || x.starts_with("loop runs") || x.starts_with("annotation anchor"));
        if !self.metas.get(n).map_or(false, broken) { return r; }
        // loops the invariants were not written for: writing the constant ones out may bring the annotated structure back
        let keep: Vec<FnMeta> = self.metas.drain(n..).collect();
        if keep[0].const_loops == 0 { self.metas.extend(keep); return r; }
        let _ = self.gen_fn_with(d, u32::MAX);
        let m = self.metas.get(n).map_or(0, |m| m.const_loops).min(4);
        self.metas.truncate(n);
        let mut masks: Vec<u32> = (1..(1u32 << m)).collect();
        masks.sort_by_key(|x| std::cmp::Reverse(x.count_ones()));
        for mask in masks {
            let r2 = self.gen_fn_with(d, mask);
            if self.metas.get(n).map_or(false, |m| m.degraded.is_empty()) { return r2; }
            self.metas.truncate(n);
        }
        self.metas.extend(keep);
        r
    }
    fn gen_fn_with(&mut self, d: &FnDir, unroll: u32) -> Option<Out> {
        let id = format!("{}#{}{}", d.file, d.key, if d.opts.contains_key("dup") { format!("@{}", d.opts["as"]) } else { String::new() });
        let Some(f) = self.k.find_fn(&d.file, &d.key).cloned() else {
            self.metas.push(FnMeta { id, file: d.file.clone(), key: d.key.clone(), unit: d.unit.clone(), degraded: vec!["missing: no such function in the current tree".into()], stub: d.stub, ..Default::default() });
            return None;
        };
        let f = if let Some(i) = d.opts.get("inst") { instantiate(f, i) } else { f };
        let mut meta = FnMeta { id: id.clone(), file: f.file.clone(), line: f.line, key: d.key.clone(), unit: d.unit.clone(), stub: d.stub, trusted: d.opts.contains_key("trusted"), ..Default::default() };
        let mut block = f.block.clone().unwrap();
        let mut t = Tx {
            k: self.k, file: f.file.clone(), self_ty: f.self_ty.clone(), known: &self.known, consts: &self.consts, env: HashMap::new(), inits: HashMap::new(), loops: vec![], tmp: 0,
            iters: HashMap::new(), aliases: HashMap::new(), notes: BTreeSet::new(), unsupported: vec![], lets: HashMap::new(), sink: None, opts: d.opts.clone(), helpers: BTreeSet::new(), refvars: BTreeSet::new(),
        };
        if let Some(i) = d.opts.get("inst") { t.note(&format!("extracted with these names replaced: {i}")); }
        if std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| t.inline_pass(&mut block))).is_err() { t.unsupported.push("helper the rewriter cannot inline".into()); }
        {
            let lk = |n: &str| -> Option<i128> { match find(&self.k.consts, &f.file, n) { Some((_, Expr::Lit(ExprLit { lit: Lit::Int(l), .. }))) => l.base10_parse().ok(), _ => None } };
            let mut u = Unroll { mask: unroll, seen: 0, done: 0, env: vec![], consts: &lk };
            u.visit_block_mut(&mut block);
            meta.const_loops = u.seen;
            if u.done > 0 { t.note("loops over a literal range written out round by round"); }
        }
        meta.binders = binders(&f.sig, &block);
        meta.returns = Returns::count(&mut block);
        // ---- parameters
        let mut pre: Vec<Stmt> = vec![];
        let mut params: Vec<String> = vec![];
        let mut extra_gen: Vec<String> = vec![];
        for (n, a) in f.sig.inputs.iter().enumerate() {
            match a {
                FnArg::Receiver(r) => {
                    if r.reference.is_some() { params.push(if r.mutability.is_some() { "&mut self".into() } else { "&self".into() }); }
                    else if r.mutability.is_some() {
                        params.push("self".into());
                        let vs = format_ident!("vx_self");
                        struct R(Ident);
                        impl VisitMut for R { fn visit_ident_mut(&mut self, i: &mut Ident) { if *i == "self" { *i = self.0.clone(); } } }
                        R(vs.clone()).visit_block_mut(&mut block);
                        pre.push(parse_quote!(let mut #vs = self;));
                        if let Some(s) = &f.self_ty { t.env.insert("vx_self".into(), s.clone()); }
                    } else { params.push("self".into()); }
                }
                FnArg::Typed(pt) => {
                    let mut ty = nty(&pt.ty);
                    let ns = norm(&ty);
                    let mut sink = false;
                    if ns.starts_with("implFnMut(u8)") || ns.starts_with("&mutimplFnMut(u8)") { ty = parse_quote!(&mut Vec<u8>); sink = true; }
                    if ns.starts_with("implIntoIterator<Item=&") && ns.ends_with("u8>") { ty = parse_quote!(&[u8]); t.note("impl IntoIterator<Item = &u8> parameter specialised to &[u8]"); }
                    let mut env_ty: Option<Type> = None;
                    if ns.starts_with("implIntoIterator<Item=u8>") { ty = parse_quote!(&[u8]); env_ty = Some(parse_quote!([u8])); t.note("impl IntoIterator<Item = u8> parameter specialised to the bytes it yields"); }
                    if let Some(k) = ns.strip_prefix("implIntoIterator<IntoIter=") {
                        if let (Ok(kt), Pat::Ident(p)) = (parse_str::<Type>(&k[..k.len() - 1]), &*pt.pat) { ty = kt; t.opts.insert(format!("intoiter:{}", p.ident), "1".into()); t.note("impl IntoIterator<IntoIter = K> parameter specialised to K itself"); }
                    }
                    let name = match &*pt.pat {
                        Pat::Ident(p) => {
                            if p.mutability.is_some() && !sink {
                                let i = &p.ident;
                                let g = format_ident!("vx_old_{}", i);
                                pre.push(parse_quote!(let #g: vx_ghost = #i;));
                                pre.push(parse_quote!(let mut #i = #i;));
                            }
                            p.ident.to_string()
                        }
                        pat => {
                            let i = format_ident!("vx_p{}", n);
                            pre.push(parse_quote!(let #pat = #i;));
                            t.note("pattern parameter bound by a let");
                            i.to_string()
                        }
                    };
                    if sink { t.sink = Some(name.clone()); t.note("output callback (FnMut(u8)) modelled as a byte vector that records the calls"); }
                    // generics with AsRef<[u8]>
                    t.env.insert(name.clone(), env_ty.unwrap_or(ty.clone()));
                    params.push(format!("{}: {}", name, txt(&ty)));
                }
            }
        }
        let mut st = pre;
        st.extend(block.stmts.drain(..));
        let mut block = Block { brace_token: Default::default(), stmts: st };
        if d.opts.contains_key("eager") {
            t.note("the returned iterator is drained at once and its items returned as a vector");
            if let Some(Stmt::Expr(e, None)) = block.stmts.last_mut() { let x = e.clone(); *e = parse_quote!(#x.collect::<Vec<u8>>()); }
        }
        // X.map(|p| Ok(E)).collect() as the result of a function that returns a Result
        if ret_ty(&f.sig).map_or(false, |x| ty_name(&x) == "Result") {
            if let Some(Stmt::Expr(Expr::MethodCall(c), None)) = block.stmts.last_mut() {
                if c.method == "collect" && c.args.is_empty() {
                    if let Expr::MethodCall(m) = &mut *c.receiver {
                        if let (true, Some(Expr::Closure(cl))) = (m.method == "map", m.args.first_mut()) {
                            if let Expr::Call(ok) = &*cl.body {
                                if norm(&ok.func) == "Ok" && ok.args.len() == 1 {
                                    cl.body = Box::new(ok.args[0].clone());
                                    let x = c.clone();
                                    block.stmts.pop();
                                    block.stmts.push(Stmt::Expr(parse_quote!(Ok(#x)), None));
                                    t.note("map(|x| Ok(e)).collect() as a function's Result: `?` in e leaves the function, the rest is collected");
                                }
                            }
                        }
                    }
                }
            }
        }
        if std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| t.visit_block_mut(&mut block))).is_err() { t.unsupported.push("statement the rewriter cannot handle".into()); block.stmts.clear(); }
        if d.marks.get("end").map_or(false, |m| !m.trim().is_empty()) {
            // more early exits than the annotated text had: the proof hint for the end of the body is needed at each of them
            if let (ReturnType::Type(_, rt), Some((_, _, n))) = (&f.sig.output, self.base.0.get(&id)) {
                if meta.returns > *n {
                    let rn = format_ident!("{}", d.opts.get("ret").cloned().unwrap_or("r".into()));
                    Returns { n: 0, wrap: Some((rn, nty(rt))), unit: false }.visit_block_mut(&mut block);
                    t.note("`return e` binds e to a name before it returns");
                }
            }
            if let (ReturnType::Default, Some((_, _, n))) = (&f.sig.output, self.base.0.get(&id)) {
                if meta.returns > *n { Returns { n: 0, wrap: None, unit: true }.visit_block_mut(&mut block); }
            }
            if let (ReturnType::Type(_, rt), Some(Stmt::Expr(e, None))) = (&f.sig.output, block.stmts.last().cloned()) {
                let rt = nty(rt);
                let rn = format_ident!("{}", d.opts.get("ret").cloned().unwrap_or("r".into()));
                block.stmts.pop();
                block.stmts.push(parse_quote!(let #rn: #rt = #e;));
                block.stmts.push(parse_quote!(vx_mark!("end");));
                block.stmts.push(Stmt::Expr(parse_quote!(#rn), None));
                t.note("the tail expression is bound to a name before it is returned");
            } else {
                if let Some(Stmt::Expr(_, semi @ None)) = block.stmts.last_mut() { *semi = Some(Default::default()); }
                block.stmts.push(parse_quote!(vx_mark!("end");));
            }
        }
        // ---- alignment with the annotated text
        let mut rn: HashMap<String, String> = HashMap::new();
        let kinds: Vec<String> = t.loops.iter().map(|l| if l.kind == "counted" { "for".into() } else { l.kind.clone() }).collect();
        meta.loops = kinds.clone();
        meta.dirs = t.loops.iter().enumerate().map(|(i, l)| if l.dec.as_ref().is_some_and(|x| x.starts_with(&format!("vx_i{i} - "))) { "down".into() } else { "up".into() }).collect();
        if let Some((bb, bl, _)) = self.base.0.get(&id) {
            if *bl == kinds && self.base.1.get(&id).is_some_and(|d| *d != meta.dirs) { meta.degraded.push("loop runs the other way".into()); }
            rn = align(bb, &meta.binders);
            if *bl != kinds { meta.degraded.push(format!("loop structure changed from {:?} to {:?}", bl, kinds)); }
        }
        for (a, b) in &rn { meta.renames.push(format!("{a}->{b}")); }
        // ---- marks
        let mut used: BTreeSet<String> = BTreeSet::new();
        {
            struct M<'x>(&'x mut BTreeSet<String>);
            impl<'ast, 'x> syn::visit::Visit<'ast> for M<'x> {
                fn visit_macro(&mut self, m: &'ast Macro) { if m.path.is_ident("vx_mark") || m.path.is_ident("vx_inv") { self.0.insert(m.tokens.to_string().trim_matches('"').to_string()); } }
            }
            syn::visit::Visit::visit_block(&mut M(&mut used), &block);
        }
        let mut marks: BTreeMap<String, String> = BTreeMap::new();
        for (mk, tx) in &d.marks {
            let mut key = mk.clone();
            if let Some(r) = mk.strip_prefix("let:") {
                let mut p: Vec<String> = r.split(':').map(String::from).collect();
                if p.len() == 1 { p.push("0".into()); }
                if let Some(n) = rn.get(&p[0]) { p[0] = n.clone(); }
                key = format!("let:{}:{}", p[0], p[1]);
            }
            if key != "start" && key != "end" && key != "impl" && !used.contains(&key) { meta.degraded.push(format!("annotation anchor `{mk}` not found")); }
            let mut tt = rename_text(tx, &rn);
            if key.starts_with("loop:") {
                if let Some(li) = key.split(':').nth(1).and_then(|s| s.parse::<usize>().ok()).and_then(|i| t.loops.get(i)) {
                    let mut m: HashMap<String, String> = li.subst.iter().cloned().collect();
                    let n = key.split(':').nth(1).unwrap_or("");
                    // annotations written for a `for` loop: at the end of its body the loop variable still has the value of this round
                    if key.ends_with(":end") && d.marks.iter().any(|(q, x)| q.starts_with(&format!("loop:{n}")) && x.contains(&format!("vx_i{n}"))) { m.extend(li.subst_end.iter().cloned()); }
                    tt = rename_text(&tt, &m);
                }
            }
            marks.insert(key, tt);
        }
        meta.degraded.extend(t.unsupported.iter().map(|u| format!("outside the extractor's subset: {u}")));
        if self.force_stub.contains(&id) { meta.degraded.push("outside Verus' subset (see log)".into()); }
        // a body the annotations were not written for is tried with the ones that still fit (then without any) before it is given up
        let bare = self.bare.contains(&id);
        let loops_changed = meta.degraded.iter().any(|x| x.starts_with("loop structure"));
        if !d.stub && !meta.trusted && (bare || !meta.degraded.is_empty()) && meta.degraded.iter().all(|x| x.starts_with("loop structure") || x.starts_with("loop runs") || x.starts_with("annotation anchor")) {
            meta.tentative = true;
            marks.retain(|k, _| if loops_changed { !bare && !k.starts_with("loop:") } else { !bare || k.matches(':').count() == 1 && k.starts_with("loop:") });
        }
        let stub = d.stub || meta.trusted || (!meta.degraded.is_empty() && !meta.tentative);
        // ---- signature
        let name = d.opts.get("as").cloned().unwrap_or(f.name.clone());
        let native = d.opts.contains_key("native");
        let mut gens = f.sig.generics.clone();
        fix_generics(&mut gens);
        let mut igens = f.impl_generics.clone();
        fix_generics(&mut igens);
        let _ = &mut extra_gen;
        let mut sig_out = f.sig.output.clone();
        if d.opts.contains_key("eager") { sig_out = parse_quote!(-> Vec<u8>); }
        let ret = match &sig_out { ReturnType::Default => String::new(), ReturnType::Type(_, ty) => { let rname = d.opts.get("ret").cloned().unwrap_or("r".into()); format!(" -> ({}: {})", rname, txt(&nty(ty))) } };
        let wh = gens.where_clause.as_ref().map(|w| format!(" {}", txt(w))).unwrap_or_default();
        let (ig, _, _) = gens.split_for_impl();
        let vis = if native { "" } else { "pub " };
        let ghostfree = |s: String| -> String { s };
        let mut contract = rename_text(&d.contract, &rn);
        if self.vac && !stub { /* contract unchanged: only an assert(false) at the start */ contract = contract.clone(); }
        let mut attrs = String::new();
        if let Some(a) = d.opts.get("attr") { for x in a.split(';') { attrs.push_str(&format!("#[verifier::{}]\n", x)); } }
        let body = if stub {
            attrs = format!("#[verifier::external_body]\n");
            "{\n    unimplemented!()\n}\n".to_string()
        } else {
            let loops = t.loops.clone();
            let opts = t.opts.clone();
            let vac = self.vac;
            let resolve = |m: &str| -> String {
                if let Some(r) = m.strip_prefix("auto:") { let _ = r; return opts.get(m).cloned().unwrap_or_default(); }
                let p: Vec<&str> = m.split(':').collect();
                if p.len() == 2 && p[0] == "loop" { let i: usize = p[1].parse().unwrap(); return loop_text(marks.get(m).map(|s| s.as_str()).unwrap_or(""), &loops[i]); }
                marks.get(m).cloned().unwrap_or_default()
            };
            let inner = print::print(block.stmts.iter().map(|s| quote!(#s)).collect(), &resolve);
            let inner = inner.replace(": vx_ghost", "");
            let inner: String = inner.lines().map(|l| { let l2 = if l.trim_start().starts_with("let vx_old_") { l.replacen("let vx_old_", "let ghost vx_old_", 1) } else { l.to_string() }; format!("    {l2}\n") }).collect();
            let s0 = if vac { "    assert(false); // vacuity probe\n".to_string() } else { String::new() };
            format!("{{\n{}{}{}}}\n", s0, marks.get("start").cloned().unwrap_or_default(), inner)
        };
        meta.notes = t.notes.clone();
        meta.helpers = t.helpers.clone();
        meta.marks = d.marks.keys().cloned().collect();
        let mut ftext = ghostfree(format!("// @vx fn {id}\n{attrs}{vis}fn {name}{}({}){ret}{wh}\n{}{}// @vx end\n", txt(&ig), params.join(", "), contract, body));
        self.metas.push(meta);
        match &f.self_ty {
            None => Some(Out::Text(ftext)),
            Some(ty) => {
                let (ig, _, _) = igens.split_for_impl();
                let iw = igens.where_clause.as_ref().map(|w| format!(" {}", txt(w))).unwrap_or_default();
                let ty = nty(ty);
                if native {
                    let mut tr = f.trait_.clone().unwrap();
                    NormTy.visit_path_mut(&mut tr);
                    let head = format!("impl{} {} for {}{}", txt(&ig), txt(&tr), txt(&ty), iw);
                    let is_iter = norm(&tr).ends_with("Iterator");
                    let head = if is_iter { format!("impl{} VxKeys for {}{}", txt(&ig), txt(&ty), iw) } else { head };
                    let mut ftext = ftext;
                    if is_iter { for a in &f.assoc { ftext = ftext.replace(&format!("Self::{}", a.ident), &txt(&nty(&a.ty))).replace(&format!("Self :: {}", a.ident), &txt(&nty(&a.ty))); } }
                    let assoc: String = if is_iter { String::new() } else { f.assoc.iter().map(|a| format!("    type {} = {};\n", a.ident, txt(&nty(&a.ty)))).collect() };
                    let assoc = format!("{assoc}{}", d.marks.get("impl").cloned().unwrap_or_default());
                    Some(Out::Impl { gkey: head.clone(), head, assoc, body: ftext })
                } else {
                    // free-standing impl on a foreign type (e.g. impl From<..> for Vec<u8>) becomes a free function
                    let tn = ty_name(&ty);
                    let renamed = d.opts.get("inst").map_or(false, |i| i.split(',').filter_map(|x| x.split_once(':')).any(|(_, b)| b == tn));
                    if d.opts.contains_key("free") || !renamed && !self.k.structs.keys().chain(self.k.enums.keys()).any(|(_, n)| *n == tn) {
                        let tt = txt(&ty);
                        for a in &f.assoc { ftext = ftext.replace(&format!("Self :: {}", a.ident), &txt(&nty(&a.ty))).replace(&format!("Self::{}", a.ident), &txt(&nty(&a.ty))); }
                        return Some(Out::Text(ftext.replace("Self", &tt)));
                    }
                    let assoc = String::new();
                    // associated types are not available on inherent impls: replace Self::X
                    let mut ft = ftext;
                    for a in &f.assoc { ft = ft.replace(&format!("Self :: {}", a.ident), &txt(&nty(&a.ty))).replace(&format!("Self::{}", a.ident), &txt(&nty(&a.ty))); }
                    if let Some(t) = self.k.derefs.get(&tn) { let t = txt(&nty(t)); ft = ft.replace("Self :: Target", &t).replace("Self::Target", &t); }
                    Some(Out::Impl { head: format!("impl{} {}{}", txt(&ig), txt(&ty), iw), assoc, body: ft, gkey: String::new() })
                }
            }
        }
    }

    fn gen_const(&mut self, d: &FnDir) -> Option<String> {
        let id = format!("{}#{}", d.file, d.key);
        let mut meta = FnMeta { id: id.clone(), file: d.file.clone(), key: d.key.clone(), unit: d.unit.clone(), stub: d.stub, ..Default::default() };
        let Some((ty, ex)) = find(&self.k.consts, &d.file, &d.key).cloned() else {
            meta.degraded.push("missing: no such constant in the current tree".into());
            self.metas.push(meta);
            return None;
        };
        meta.line = line_of(syn::spanned::Spanned::span(&ex));
        let mut ex = ex;
        let mut t = Tx {
            k: self.k, file: d.file.clone(), self_ty: None, known: &self.known, consts: &self.consts, env: HashMap::new(), inits: HashMap::new(), loops: vec![], tmp: 0,
            iters: HashMap::new(), aliases: HashMap::new(), notes: BTreeSet::new(), unsupported: vec![], lets: HashMap::new(), sink: None, opts: d.opts.clone(), helpers: BTreeSet::new(), refvars: BTreeSet::new(),
        };
        // by-value tables only
        let ty = match nty(&ty) { Type::Reference(r) => { if let Expr::Reference(e) = &ex { ex = (*e.expr).clone(); } (*r.elem).clone() } t => t };
        if std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| t.visit_expr_mut(&mut ex))).is_err() { t.unsupported.push("expression the rewriter cannot handle".into()); }
        let ty = match ty { Type::Slice(s) => { let e = &s.elem; let n = if let Expr::Array(a) = &ex { a.elems.len() } else { 0 }; parse_quote!([#e; #n]) } t => t };
        if let Expr::Array(a) = &mut ex {
            // first element carries the type so that literals need no inference
            let _ = a;
        }
        let name = self.consts.get(&d.key).cloned().unwrap();
        meta.loops = t.loops.iter().map(|l| if l.kind == "counted" { "for".into() } else { l.kind.clone() }).collect();
        if let Some((_, bl, _)) = self.base.0.get(&id) { if *bl != meta.loops && !meta.loops.is_empty() { meta.degraded.push(format!("loop structure changed from {:?} to {:?}", bl, meta.loops)); } }
        meta.degraded.extend(t.unsupported.iter().map(|u| format!("outside the extractor's subset: {u}")));
        if self.force_stub.contains(&id) { meta.degraded.push("outside Verus' subset (see log)".into()); }
        let stub = d.stub || !meta.degraded.is_empty();
        meta.notes = t.notes.clone();
        let mut attrs = String::new();
        if let Some(a) = d.opts.get("attr") { for x in a.split(';') { attrs.push_str(&format!("#[verifier::{}]\n", x)); } }
        let s = if stub { format!("// @vx fn {id}\n#[verifier::external_body]\npub fn {name}() -> (r: {})\n{}{{ unimplemented!() }}\n// @vx end\n", txt(&ty), d.contract) }
        else {
            let vac = if self.vac { "    assert(false); // vacuity probe\n" } else { "" };
            let (loops, marks) = (t.loops.clone(), d.marks.clone());
            let resolve = |m: &str| -> String {
                let p: Vec<&str> = m.split(':').collect();
                if p.len() == 2 && p[0] == "loop" { let i: usize = p[1].parse().unwrap(); return loop_text(marks.get(m).map(|s| s.as_str()).unwrap_or(""), &loops[i]); }
                let tt = marks.get(m).or_else(|| m.strip_suffix(":0").and_then(|m| marks.get(m))).cloned().unwrap_or_default();
                if p[0] == "loop" { let i: usize = p[1].parse().unwrap(); let mm: HashMap<String, String> = loops[i].subst.iter().cloned().collect(); return rename_text(&tt, &mm); }
                tt
            };
            let body = print::print(ex.to_token_stream(), &resolve).trim().to_string();
            format!("// @vx fn {id}\n{attrs}pub fn {name}() -> (r: {})\n{}{{\n{vac}{}    let r: {} = {};\n{}    r\n}}\n// @vx end\n", txt(&ty), d.contract, d.marks.get("start").cloned().unwrap_or_default(), txt(&ty), body, d.marks.get("end").cloned().unwrap_or_default())
        };
        self.metas.push(meta);
        Some(s)
    }
}

fn fields_pub(f: &mut Fields) { for x in f.iter_mut() { x.vis = parse_quote!(pub); x.attrs.clear(); x.ty = nty(&x.ty); } }

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    let get = |n: &str| a.iter().position(|x| x == n).and_then(|i| a.get(i + 1)).cloned();
    let repo = get("--repo").unwrap_or("/repo".into());
    let units = get("--units").unwrap_or("/verif/units".into());
    let unit = get("--unit").expect("--unit");
    let (mut k, errs) = match Krate::load(&repo) { Ok(x) => x, Err(e) => { eprintln!("vx: {e}"); std::process::exit(3) } };
    if a.get(1).map(|s| s.as_str()) == Some("list") { for f in &k.fns { println!("{}\t{}\t{}", f.file, f.line, f.key); } return; }
    let mut dirs = vec![];
    if let Err(e) = load(&units, &unit, false, &mut vec![], &mut dirs) { eprintln!("vx: {e}"); std::process::exit(3); }
    for d in &dirs {
        let f = match d { Dir::Fn(f) | Dir::Const(f) => &f.file, Dir::Trait { file, .. } | Dir::Struct { file, .. } | Dir::Enum { file, .. } => file, _ => continue };
        if f.contains(':') { if let Err(e) = k.load_dep(&repo, f) { eprintln!("vx: {e}"); } }
    }
    let k = k;
    let mut known = BTreeSet::new();
    let mut consts = BTreeMap::new();
    for d in &dirs {
        match d {
            Dir::Fn(f) => { known.insert(f.key.clone()); known.insert(format!("{}#{}", f.file, f.key)); if f.opts.contains_key("eager") { known.insert(format!("eager:{}", f.key.rsplit("::").next().unwrap())); } }
            Dir::Const(f) => {
                if let Some(a) = f.opts.get("alias") { consts.insert(a.clone(), f.opts.get("as").cloned().unwrap_or(format!("c_{}", f.key.replace("::", "_")))); }
                consts.insert(f.key.clone(), f.opts.get("as").cloned().unwrap_or(format!("c_{}", f.key.replace("::", "_")))); }
            _ => {}
        }
    }
    let bare: BTreeSet<String> = get("--bare").unwrap_or_default().split('\n').filter(|s| !s.is_empty()).map(String::from).collect();
    let force: BTreeSet<String> = get("--stub").unwrap_or_default().split('\n').filter(|s| !s.is_empty()).map(String::from).collect();
    let mut c = Ctx { k: &k, known, consts, base: Baseline::load(&get("--baseline").unwrap_or_default()), vac: a.iter().any(|x| x == "--vacuity"), force_stub: force, bare, metas: vec![] };
    let mut out: Vec<Out> = vec![];
    let mut problems: Vec<String> = errs.iter().map(|e| format!("parse error: {e}")).collect();
    for d in &dirs {
        match d {
            Dir::Text(t) => out.push(Out::Text(t.clone())),
            Dir::Struct { file, name, opts } => match find(&k.structs, file, name) {
                Some(s) => {
                    let mut s = s.clone();
                    s.attrs.clear();
                    if let Some(i) = opts.get("inst") { if let Ok(x) = parse2(subst_tokens(s.to_token_stream(), i)) { s = x; } }
                    s.vis = parse_quote!(pub);
                    fields_pub(&mut s.fields);
                    fix_generics(&mut s.generics);
                    let dv = opts.get("derive").map(|d| format!("#[derive({d})]\n")).unwrap_or_default();
                    out.push(Out::Text(format!("// @vx struct {file}#{name}\n{dv}{}\n", txt(&s))));
                }
                None => problems.push(format!("struct {name} not found in {file}")),
            },
            Dir::Enum { file, name, opts } => match find(&k.enums, file, name) {
                Some(s) => {
                    let mut s = s.clone();
                    s.attrs.clear();
                    s.vis = parse_quote!(pub);
                    for v in s.variants.iter_mut() { v.attrs.clear(); for f in v.fields.iter_mut() { f.ty = nty(&f.ty); f.attrs.clear(); } }
                    let dv = opts.get("derive").map(|d| format!("#[derive({d})]\n")).unwrap_or_default();
                    out.push(Out::Text(format!("// @vx enum {file}#{name}\n{dv}{}\n", txt(&s))));
                }
                None => problems.push(format!("enum {name} not found in {file}")),
            },
            Dir::Type { file, name } => match find(&k.types, file, name) {
                Some(s) => { let mut s = s.clone(); s.attrs.clear(); s.vis = parse_quote!(pub); s.ty = Box::new(nty(&s.ty)); out.push(Out::Text(format!("{}\n", txt(&s)))) }
                None => problems.push(format!("type {name} not found in {file}")),
            },
            Dir::Trait { file, name, extra, methods } => match find(&k.traits, file, name) {
                Some(s) => {
                    let mut o = String::new();
                    let (ig, _, wc) = s.generics.split_for_impl();
                    let sup = if s.supertraits.is_empty() { ": Sized".to_string() } else { format!(": {}", txt(&s.supertraits)) };
                    o.push_str(&format!("pub trait {}{}{} {} {{\n{}", name, txt(&ig), sup, wc.map(|w| txt(w)).unwrap_or_default(), extra));
                    for it in &s.items {
                        match it {
                            TraitItem::Fn(f) => {
                                let n = f.sig.ident.to_string();
                                let mut ps = vec![];
                                for a in &f.sig.inputs { match a { FnArg::Receiver(r) => ps.push(txt(r)), FnArg::Typed(t) => { let ns = norm(&t.ty); let ty = if ns.starts_with("implIntoIterator<Item=&") { parse_quote!(&[u8]) } else if ns.starts_with("implFnMut(u8)") { parse_quote!(&mut Vec<u8>) } else { nty(&t.ty) }; let p = match &*t.pat { Pat::Ident(p) => p.ident.to_string(), q => txt(q) }; ps.push(format!("{}: {}", p, txt(&ty))) } } }
                                let ret = match &f.sig.output { ReturnType::Default => String::new(), ReturnType::Type(_, t) => format!(" -> (r: {})", txt(&nty(t))) };
                                if f.default.is_some() && !methods.contains_key(&n) { continue; }
                                let (fg, _, _) = f.sig.generics.split_for_impl();
                                o.push_str(&format!("    fn {}{}({}){}\n{};\n", n, txt(&fg), ps.join(", "), ret, methods.get(&n).map(|s| s.trim_end().to_string()).unwrap_or_default()));
                            }
                            TraitItem::Type(t) => o.push_str(&format!("    {}\n", txt(t))),
                            TraitItem::Const(t) => o.push_str(&format!("    {}\n", txt(t))),
                            _ => {}
                        }
                    }
                    o.push_str("}\n");
                    out.push(Out::Text(o));
                }
                None => problems.push(format!("trait {name} not found in {file}")),
            },
            Dir::Const(f) => if let Some(s) = c.gen_const(f) { out.push(Out::Text(s)) },
            Dir::Fn(f) => if let Some(o) = c.gen_fn(f) { out.push(o) },
        }
    }
    // group native trait impls
    let mut text = String::new();
    let mut done: BTreeSet<String> = BTreeSet::new();
    for i in 0..out.len() {
        match &out[i] {
            Out::Text(t) => { text.push_str(t); text.push('\n'); }
            Out::Impl { head, assoc, body, gkey } => {
                if gkey.is_empty() { text.push_str(&format!("{head} {{\n{assoc}{body}}}\n\n")); continue; }
                if !done.insert(gkey.clone()) { continue; }
                text.push_str(&format!("{head} {{\n{assoc}"));
                for o in &out[i..] { if let Out::Impl { gkey: g, body, .. } = o { if g == gkey { text.push_str(body); } } }
                text.push_str("}\n\n");
            }
        }
    }
    let text = format!("#![allow(unused_imports, unused_mut, unused_variables, dead_code, non_snake_case, non_camel_case_types, non_upper_case_globals, unused_parens, unused_braces, unused_assignments, unused_labels)]\n#![verifier::loop_isolation(false)]\nuse vstd::prelude::*;\nverus! {{\n\n{text}\nfn main() {{}}\n\n}} // verus!\n");
    if let Some(p) = get("--out") { std::fs::write(&p, &text).expect("write"); } else { println!("{text}"); }
    if let Some(p) = get("--meta") {
        let fns: Vec<String> = c.metas.iter().map(|m| format!(
            "{{\"id\":{},\"file\":{},\"line\":{},\"key\":{},\"unit\":{},\"stub\":{},\"trusted\":{},\"degraded\":{},\"tentative\":{},\"notes\":{},\"helpers\":{},\"loops\":{},\"dirs\":{},\"returns\":{},\"binders\":{},\"marks\":{},\"renames\":{}}}",
            jstr(&m.id), jstr(&m.file), m.line, jstr(&m.key), jstr(&m.unit), m.stub, m.trusted, jlist(&m.degraded), m.tentative, jlist(&m.notes), jlist(&m.helpers), jlist(&m.loops), jlist(&m.dirs), m.returns, jlist(&m.binders), jlist(&m.marks), jlist(&m.renames))).collect();
        std::fs::write(&p, format!("{{\"unit\":{},\"problems\":{},\"fns\":[\n{}\n]}}\n", jstr(&unit), jlist(&problems), fns.join(",\n"))).expect("write");
    }
}
