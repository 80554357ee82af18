//! Normalising rewrites from the crate's Rust to the subset Verus reads.  Every rule that fired is recorded in `notes`.
use crate::source::*;
use quote::{format_ident, quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use syn::visit_mut::{self, VisitMut};
use syn::*;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Mode { Ref, RefMut, Val }
#[derive(Clone)]
pub enum Src {
    Range(Expr, Expr, bool),
    Slice(Expr, Option<(Expr, Expr)>, Mode),
    Chunks(Expr, Expr, bool),
    ChunksMut(Expr, Expr),
    Rep(Expr, Expr),
    Enumerate(Box<Src>),
    Rev(Box<Src>),
    Zip(Box<Src>, Box<Src>),
    Skip(Box<Src>, Expr),
    Take(Box<Src>, Expr),
    StepBy(Box<Src>, Expr),
    Map(Box<Src>, Pat, Expr),
}
pub enum Elem { Val(Expr), Place(Expr, Mode), Pair(Box<Elem>, Box<Elem>) }

#[derive(Clone, Default)]
pub struct LoopInfo { pub auto: Vec<String>, pub dec: Option<String>, pub subst: Vec<(String, String)>, pub subst_end: Vec<(String, String)>, pub kind: String }

pub struct Tx<'a> {
    pub k: &'a Krate,
    pub file: String,
    pub self_ty: Option<Type>,
    pub known: &'a BTreeSet<String>,
    pub consts: &'a BTreeMap<String, String>,
    pub env: HashMap<String, Type>,
    pub inits: HashMap<String, Expr>,
    pub loops: Vec<LoopInfo>,
    pub tmp: usize,
    pub iters: HashMap<String, Src>,
    pub aliases: HashMap<String, String>,
    pub notes: BTreeSet<String>,
    pub unsupported: Vec<String>,
    pub lets: HashMap<String, usize>,
    pub sink: Option<String>,
    pub opts: BTreeMap<String, String>,
    pub helpers: BTreeSet<String>,
    pub refvars: BTreeSet<String>,
}

fn path_ident(e: &Expr) -> Option<String> {
    match e {
        Expr::Path(p) if p.qself.is_none() => p.path.get_ident().map(|i| i.to_string()),
        Expr::Paren(p) => path_ident(&p.expr),
        Expr::Group(p) => path_ident(&p.expr),
        _ => None,
    }
}
fn strip(e: &Expr) -> &Expr {
    match e { Expr::Paren(p) => strip(&p.expr), Expr::Group(p) => strip(&p.expr), _ => e }
}
fn deref_ty(t: &Type) -> &Type { match t { Type::Reference(r) => deref_ty(&r.elem), Type::Paren(p) => deref_ty(&p.elem), Type::Group(p) => deref_ty(&p.elem), _ => t } }
fn is_lit(e: &Expr) -> bool { matches!(strip(e), Expr::Lit(_)) }
pub fn is_place(e: &Expr) -> bool {
    match strip(e) {
        Expr::Path(_) => true,
        Expr::Field(f) => is_place(&f.base),
        Expr::Unary(u) => matches!(u.op, UnOp::Deref(_)) && is_place(&u.expr),
        Expr::Index(i) => is_place(&i.expr) && (is_lit(&i.index) || path_ident(&i.index).is_some()),
        _ => false,
    }
}
pub fn elem_ty(t: &Type) -> Option<Type> {
    match deref_ty(t) {
        Type::Array(a) => Some((*a.elem).clone()),
        Type::Slice(a) => Some((*a.elem).clone()),
        Type::Path(p) => {
            let s = p.path.segments.last()?;
            let n = s.ident.to_string();
            if n == "Vec" { gen_arg(s, 0) } else if n == "Block" { Some(parse_quote!(u8)) } else { None }
        }
        _ => None,
    }
}
fn gen_arg(s: &PathSegment, i: usize) -> Option<Type> {
    if let PathArguments::AngleBracketed(a) = &s.arguments {
        let v: Vec<_> = a.args.iter().filter_map(|x| if let GenericArgument::Type(t) = x { Some(t.clone()) } else { None }).collect();
        return v.get(i).cloned();
    }
    None
}
const UINTS: [&str; 6] = ["u8", "u16", "u32", "u64", "u128", "usize"];

// ---------- small AST queries ----------
struct Finder<'b> { f: &'b mut dyn FnMut(&Expr) -> bool, hit: bool }
impl<'ast, 'b> syn::visit::Visit<'ast> for Finder<'b> {
    fn visit_expr(&mut self, e: &'ast Expr) {
        if (self.f)(e) { self.hit = true; }
        syn::visit::visit_expr(self, e);
    }
}
pub fn any_expr(b: &Block, f: &mut dyn FnMut(&Expr) -> bool) -> bool {
    let mut v = Finder { f, hit: false };
    syn::visit::Visit::visit_block(&mut v, b);
    v.hit
}

/// binder names in order of appearance (parameters, lets, patterns, closure parameters)
pub fn binders(sig: &Signature, b: &Block) -> Vec<String> {
    struct B(Vec<String>);
    impl<'ast> syn::visit::Visit<'ast> for B {
        fn visit_pat_ident(&mut self, p: &'ast PatIdent) {
            let s = p.ident.to_string();
            if !s.chars().next().unwrap().is_uppercase() { self.0.push(s); }
            syn::visit::visit_pat_ident(self, p);
        }
    }
    let mut v = B(vec![]);
    for a in &sig.inputs { if let FnArg::Typed(t) = a { syn::visit::Visit::visit_pat(&mut v, &t.pat); } }
    syn::visit::Visit::visit_block(&mut v, b);
    v.0
}

pub struct Subst<'b> { pub name: &'b str, pub place: Expr, pub mode: Mode }
impl<'b> VisitMut for Subst<'b> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Unary(u) = e {
            if matches!(u.op, UnOp::Deref(_)) && path_ident(&u.expr).as_deref() == Some(self.name) { *e = self.place.clone(); return; }
        }
        if let Expr::MethodCall(m) = e {
            if path_ident(&m.receiver).as_deref() == Some(self.name) { m.receiver = Box::new(self.place.clone()); }
        }
        if let Expr::Field(f) = e {
            if path_ident(&f.base).as_deref() == Some(self.name) { f.base = Box::new(self.place.clone()); }
        }
        if let Expr::Index(f) = e {
            if path_ident(&f.expr).as_deref() == Some(self.name) {
                if let (Expr::Index(pl), false) = (self.place.clone(), matches!(strip(&f.index), Expr::Range(_))) {
                    if let Expr::Range(ExprRange { start: Some(lo), .. }) = strip(&pl.index) {
                        let (b, mut j) = (&pl.expr, (*f.index).clone());
                        self.visit_expr_mut(&mut j);
                        *e = parse_quote!(#b[#lo + (#j)]);
                        return;
                    }
                }
                f.expr = Box::new(self.place.clone());
            }
        }
        if path_ident(e).as_deref() == Some(self.name) {
            let p = &self.place;
            *e = match self.mode { Mode::RefMut => parse_quote!((&mut #p)), Mode::Ref => parse_quote!((&#p)), Mode::Val => p.clone() };
            return;
        }
        visit_mut::visit_expr_mut(self, e);
    }
}
struct RenameIdent<'b> { from: &'b str, to: Ident }
impl<'b> VisitMut for RenameIdent<'b> {
    fn visit_ident_mut(&mut self, i: &mut Ident) { if *i == self.from { *i = self.to.clone(); } }
}

impl<'a> Tx<'a> {
    pub fn note(&mut self, s: &str) { self.notes.insert(s.to_string()); }
    fn fresh(&mut self, p: &str) -> Ident { self.tmp += 1; format_ident!("vx_{}{}", p, self.tmp) }

    // ---------- types ----------
    pub fn resolve_self(&self, t: &Type) -> Type {
        if ty_name(t) == "Self" { if let Some(s) = &self.self_ty { return s.clone(); } }
        t.clone()
    }
    pub fn ty_of(&self, e: &Expr) -> Option<Type> {
        match strip(e) {
            Expr::Path(p) => {
                if let Some(i) = p.path.get_ident() {
                    if i == "self" { return self.self_ty.clone(); }
                    if let Some(t) = self.env.get(&i.to_string()) { return Some(t.clone()); }
                    if let Some((t, _)) = find(&self.k.consts, &self.file, &i.to_string()) { return Some(t.clone()); }
                    if self.k.structs.keys().any(|(_, n)| i == n) { return Some(parse_quote!(#i)); }
                }
                None
            }
            Expr::Reference(r) => self.ty_of(&r.expr),
            Expr::Unary(u) => self.ty_of(&u.expr).map(|t| deref_ty(&t).clone()),
            Expr::Cast(c) => Some((*c.ty).clone()),
            Expr::Lit(l) => match &l.lit { Lit::Int(i) if !i.suffix().is_empty() => parse_str(i.suffix()).ok(), _ => None },
            Expr::Field(f) => {
                let bt = self.ty_of(&f.base)?;
                let bt = self.resolve_self(deref_ty(&bt));
                if let Type::Tuple(t) = &bt { if let Member::Unnamed(i) = &f.member { return t.elems.iter().nth(i.index as usize).cloned(); } }
                let st = find(&self.k.structs, &self.file, &ty_name(&bt))?;
                let mut idx = 0;
                for fl in &st.fields {
                    let hit = match (&f.member, &fl.ident) { (Member::Named(a), Some(b)) => a == b, (Member::Unnamed(a), None) => a.index == idx, _ => false };
                    if hit { return Some(fl.ty.clone()); }
                    idx += 1;
                }
                None
            }
            Expr::Index(i) => {
                let bt = self.ty_of(&i.expr)?;
                let mut bt = self.resolve_self(deref_ty(&bt));
                if let Some(t) = self.k.derefs.get(&ty_name(&bt)) { bt = t.clone(); }
                let et = elem_ty(&bt)?;
                if matches!(strip(&i.index), Expr::Range(_)) { Some(parse_quote!([#et])) } else { Some(et) }
            }
            Expr::Binary(b) => if matches!(b.op, BinOp::Eq(_) | BinOp::Lt(_) | BinOp::Le(_) | BinOp::Ne(_) | BinOp::Gt(_) | BinOp::Ge(_) | BinOp::And(_) | BinOp::Or(_)) { Some(parse_quote!(bool)) } else { self.ty_of(&b.left) },
            Expr::Struct(s) => { let p = &s.path; let t: Type = parse_quote!(#p); Some(self.resolve_self(&t)) }
            Expr::Try(t) => { if let Type::Path(p) = self.ty_of(&t.expr)? { let s = p.path.segments.last()?.clone(); if s.ident == "Option" || s.ident == "Result" { return gen_arg(&s, 0); } } None }
            Expr::Repeat(r) => { let t = self.ty_of(&r.expr)?; let n = &r.len; Some(parse_quote!([#t; #n])) }
            Expr::Block(b) => match b.block.stmts.last() { Some(Stmt::Expr(e, None)) => self.ty_of(e), _ => None },
            Expr::If(b) => match b.then_branch.stmts.last() { Some(Stmt::Expr(e, None)) => self.ty_of(e), _ => None },
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                    let last = segs.last()?.clone();
                    if last == "vx_hex_decode" || last == "from_hex" && segs[0] == "Vec" || segs.join("::") == "hex::decode" { return parse_str("Result<Vec<u8>, FromHexError>").ok(); }
                    if segs.len() == 2 && segs[0] == "Vec" && (last == "with_capacity" || last == "new") || last == "vx_with_capacity" || last == "vx_repeat" { return parse_str("Vec<_>").ok(); }
                    if segs.len() == 1 {
                        if last == "vx_chunk" || last == "vx_chunk_short" || last == "vx_remainder" { let t = self.ty_of(&c.args[0])?; let et = elem_ty(&t)?; return Some(parse_quote!(&[#et])); }
                        if self.k.structs.keys().any(|(_, n)| *n == last) { return parse_str(&last).ok(); }
                        let f = self.k.find_fn(&self.file, &last)?;
                        return ret_ty(&f.sig);
                    }
                    let mut owner = segs[segs.len() - 2].clone();
                    if owner == "Self" { owner = ty_name(self.self_ty.as_ref()?); }
                    if let Some(a) = self.aliases.get(&owner) { owner = a.clone(); }
                    let f = self.k.find_fn(&self.file, &format!("{owner}::{last}"))?;
                    let r = ret_ty(&f.sig)?;
                    return Some(if ty_name(&r) == "Self" { parse_str(&owner).ok()? } else { r });
                }
                None
            }
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                let rt = self.ty_of(&m.receiver);
                match n.as_str() {
                    "clone" | "as_slice" | "as_ref" | "as_mut_slice" => return rt.map(|t| deref_ty(&t).clone()),
                    "to_vec" | "to_owned" => { let t = rt?; let et = elem_ty(&t)?; return Some(parse_quote!(Vec<#et>)); }
                    "len" => return Some(parse_quote!(usize)),
                    "unwrap" | "expect" => {
                        if let Type::Path(p) = rt? { let s = p.path.segments.last()?.clone(); if s.ident == "Option" || s.ident == "Result" { return gen_arg(&s, 0); } }
                        return None;
                    }
                    _ => {}
                }
                if n.starts_with("wrapping_") || n.starts_with("rotate_") || n == "swap_bytes" { return rt; }
                let rt = rt?;
                let tn = ty_name(&self.resolve_self(deref_ty(&rt)));
                let f = self.k.find_fn(&self.file, &format!("{tn}::{n}"))?;
                let r = ret_ty(&f.sig)?;
                Some(if ty_name(&r) == "Self" { rt } else { r })
            }
            Expr::Macro(m) if m.mac.path.is_ident("vec") => parse_str("Vec<_>").ok(),
            _ => None,
        }
    }

    // ---------- helper inlining ----------
    pub fn inline_pass(&mut self, b: &mut Block) {
        struct V<'x, 'a> { t: &'x mut Tx<'a>, changed: bool }
        impl<'x, 'a> VisitMut for V<'x, 'a> {
            fn visit_expr_mut(&mut self, e: &mut Expr) {
                visit_mut::visit_expr_mut(self, e);
                if let Some(n) = self.t.try_inline(e) { *e = n; self.changed = true; }
            }
        }
        for _ in 0..4 {
            let mut v = V { t: self, changed: false };
            v.visit_block_mut(b);
            if !v.changed { break; }
        }
    }
    fn try_inline(&mut self, e: &Expr) -> Option<Expr> {
        let k = self.k;
        let (f, recv, args): (&FnDef, Option<Expr>, Vec<Expr>) = match e {
            Expr::Call(c) => {
                let Expr::Path(p) = &*c.func else { return None };
                if p.qself.is_some() { return None; }
                let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                let last = segs.last()?.clone();
                let key = if segs.len() == 1 { last.clone() } else {
                    let mut owner = segs[segs.len() - 2].clone();
                    if owner == "Self" { owner = ty_name(self.self_ty.as_ref()?); }
                    if owner.chars().next()?.is_lowercase() { last.clone() } else { format!("{owner}::{last}") }
                };
                if self.known.contains(&key) || self.known.contains(&format!("{}#{}", self.file, key)) { return None; }
                let f = k.find_fn(&self.file, &key)?;
                if f.sig.inputs.iter().any(|a| matches!(a, FnArg::Receiver(_))) { return None; }
                (f, None, c.args.iter().cloned().collect())
            }
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                let c: Vec<&FnDef> = k.fns.iter().filter(|f| f.name == n && f.trait_.is_none() && f.file == self.file && f.sig.inputs.iter().any(|a| matches!(a, FnArg::Receiver(_)))).collect();
                if c.len() != 1 || self.known.contains(&c[0].key) { return None; }
                // the receiver must be known to have the helper's type
                let rt = self.ty_of(&m.receiver).map(|t| ty_name(&self.resolve_self(deref_ty(&t))));
                if rt.is_none() || rt != c[0].self_ty.as_ref().map(ty_name) { return None; }
                (c[0], Some((*m.receiver).clone()), m.args.iter().cloned().collect())
            }
            _ => return None,
        };
        let body = f.block.clone()?;
        let has_ret = any_expr(&body, &mut |e| matches!(e, Expr::Return(_) | Expr::Try(_)));
        let recursive = any_expr(&body, &mut |e| match e { Expr::Call(c) => norm(&c.func).ends_with(&f.name), Expr::MethodCall(m) => m.method == f.name, _ => false });
        if has_ret || recursive {
            self.unsupported.push(format!("call to {} (no contract, not inlinable)", f.key));
            return None;
        }
        let mut body = body;
        // fresh names for the helper's own binders would also rename annotations' names; only rename on clash with arguments
        let mut pre: Vec<Stmt> = vec![];
        let mut post: Vec<Stmt> = vec![];
        let generic = !f.sig.generics.params.is_empty();
        let mut ai = 0;
        for inp in &f.sig.inputs {
            match inp {
                FnArg::Receiver(r) => {
                    let rc = recv.clone()?;
                    if path_ident(&rc).as_deref() == Some("self") { continue; }
                    let id = self.fresh("self");
                    if r.reference.is_some() {
                        if r.mutability.is_some() { pre.push(parse_quote!(let #id = &mut #rc;)) } else { pre.push(parse_quote!(let #id = &#rc;)) }
                    } else { pre.push(parse_quote!(let #id = #rc;)) }
                    RenameIdent { from: "self", to: id }.visit_block_mut(&mut body);
                }
                FnArg::Typed(t) => {
                    let a = args.get(ai)?.clone();
                    ai += 1;
                    let id = self.fresh("arg");
                    let ty = &t.ty;
                    let pat = &t.pat;
                    let simple = path_ident(&a).is_some() && path_ident(&a) == (if let Pat::Ident(p) = &**pat { if p.mutability.is_none() { Some(p.ident.to_string()) } else { None } } else { None });
                    if simple { continue; }
                    let has_impl = norm(ty).contains("impl");
                    if generic || has_impl { pre.push(parse_quote!(let #id = #a;)); } else { pre.push(parse_quote!(let #id: #ty = #a;)); }
                    post.push(parse_quote!(let #pat = #id;));
                }
            }
        }
        self.note(&format!("inlined helper without a contract of its own: {}", f.key));
        self.helpers.insert(format!("{}::{}", f.file, f.key));
        let st = body.stmts;
        if pre.is_empty() && post.is_empty() && st.len() == 1 {
            if let Stmt::Expr(e, None) = &st[0] { return Some(parse_quote!((#e))); }
        }
        Some(parse_quote!({ #(#pre)* #(#post)* #(#st)* }))
    }

    // ---------- iteration sources ----------
    fn parse_src(&mut self, e: &Expr, pre: &mut Vec<Stmt>) -> Option<Src> {
        match strip(e) {
            Expr::Range(r) => {
                let a = r.start.clone()?;
                let b = r.end.clone()?;
                Some(Src::Range(*a, *b, matches!(r.limits, RangeLimits::Closed(_))))
            }
            Expr::Reference(r) => {
                let m = if r.mutability.is_some() { Mode::RefMut } else { Mode::Ref };
                self.slice_src(&r.expr, m, pre)
            }
            Expr::Path(_) => {
                let id = path_ident(e)?;
                if let Some(s) = self.iters.get(&id) { return Some(s.clone()); }
                let m = match self.env.get(&id) { Some(Type::Reference(r)) => if r.mutability.is_some() { Mode::RefMut } else { Mode::Ref }, _ => Mode::Val };
                Some(Src::Slice(strip(e).clone(), None, m))
            }
            Expr::Array(_) | Expr::Repeat(_) => {
                let id = self.fresh("s");
                pre.push(parse_quote!(let #id = #e;));
                Some(Src::Slice(parse_quote!(#id), None, Mode::Val))
            }
            Expr::Call(c) => {
                let p = norm(&c.func);
                if p.ends_with("repeat_n") && c.args.len() == 2 { return Some(Src::Rep(c.args[0].clone(), c.args[1].clone())); }
                None
            }
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                let a0 = m.args.first().cloned();
                match (n.as_str(), m.args.len()) {
                    ("iter", 0) => self.slice_src(&m.receiver, Mode::Ref, pre),
                    ("iter_mut", 0) => self.slice_src(&m.receiver, Mode::RefMut, pre),
                    ("into_iter", 0) => {
                        if let Some(s) = self.parse_src(&m.receiver, pre) { return Some(s); }
                        None
                    }
                    ("cloned", 0) | ("copied", 0) => match self.parse_src(&m.receiver, pre)? {
                        Src::Slice(b, r, _) => Some(Src::Slice(b, r, Mode::Val)),
                        Src::Rev(s) => match *s { Src::Slice(b, r, _) => Some(Src::Rev(Box::new(Src::Slice(b, r, Mode::Val)))), _ => None },
                        _ => None,
                    },
                    ("enumerate", 0) => Some(Src::Enumerate(Box::new(self.parse_src(&m.receiver, pre)?))),
                    ("rev", 0) => Some(Src::Rev(Box::new(self.parse_src(&m.receiver, pre)?))),
                    ("zip", 1) => { let a = self.parse_src(&m.receiver, pre)?; let b = self.parse_src(&a0?, pre)?; Some(Src::Zip(Box::new(a), Box::new(b))) }
                    ("skip", 1) => Some(Src::Skip(Box::new(self.parse_src(&m.receiver, pre)?), a0?)),
                    ("take", 1) => Some(Src::Take(Box::new(self.parse_src(&m.receiver, pre)?), a0?)),
                    ("step_by", 1) => Some(Src::StepBy(Box::new(self.parse_src(&m.receiver, pre)?), a0?)),
                    ("chunks", 1) | ("chunks_exact", 1) => {
                        let base = self.place_or_tmp(&m.receiver, pre);
                        Some(Src::Chunks(base, a0?, n == "chunks_exact"))
                    }
                    ("chunks_exact_mut", 1) if is_place(&m.receiver) => Some(Src::ChunksMut(strip(&m.receiver).clone(), a0?)),
                    ("map", 1) => {
                        let s = self.parse_src(&m.receiver, pre)?;
                        if let Expr::Closure(c) = strip(&a0?) { if c.inputs.len() == 1 { return Some(Src::Map(Box::new(s), c.inputs[0].clone(), (*c.body).clone())); } }
                        None
                    }
                    ("to_le_bytes", 0) | ("to_be_bytes", 0) | ("vx_to_le_bytes", 0) | ("vx_to_be_bytes", 0) => {
                        let id = self.fresh("s");
                        pre.push(parse_quote!(let #id = #e;));
                        Some(Src::Slice(parse_quote!(#id), None, Mode::Val))
                    }
                    ("as_slice", 0) | ("as_ref", 0) => self.slice_src(&m.receiver, Mode::Ref, pre),
                    ("lines", 0) | ("chars", 0) | ("vx_lines", 0) | ("vx_chars", 0) => {
                        let id = self.fresh("s");
                        let mut r = (*m.receiver).clone();
                        self.visit_expr_mut(&mut r);
                        let f = format_ident!("vx_{}", n.trim_start_matches("vx_"));
                        self.note("str::lines/str::chars collected before the loop");
                        pre.push(parse_quote!(let #id = #r.#f();));
                        Some(Src::Slice(parse_quote!(#id), None, Mode::Val))
                    }
                    _ => None,
                }
            }
            Expr::Field(_) => Some(Src::Slice(strip(e).clone(), None, Mode::Val)),
            _ => None,
        }
    }
    fn place_or_tmp(&mut self, e: &Expr, pre: &mut Vec<Stmt>) -> Expr {
        if is_place(e) { return strip(e).clone(); }
        if let Expr::Reference(r) = strip(e) { return self.place_or_tmp(&r.expr, pre); }
        let id = self.fresh("s");
        if let Expr::Index(_) = strip(e) { pre.push(parse_quote!(let #id = &#e;)); } else { pre.push(parse_quote!(let #id = #e;)); }
        parse_quote!(#id)
    }
    fn slice_src(&mut self, e: &Expr, m: Mode, pre: &mut Vec<Stmt>) -> Option<Src> {
        let e = strip(e);
        if let Expr::Index(i) = e {
            if let Expr::Range(r) = strip(&i.index) {
                let base = if m == Mode::RefMut { (*i.expr).clone() } else { self.place_or_tmp(&i.expr, pre) };
                if is_place(&base) {
                    let lo: Expr = r.start.as_ref().map(|x| (**x).clone()).unwrap_or_else(|| parse_quote!(0usize));
                    let hi: Expr = match &r.end { Some(x) => { let x = &**x; if matches!(r.limits, RangeLimits::Closed(_)) { parse_quote!((#x) + 1) } else { x.clone() } } None => parse_quote!(#base.len()) };
                    let (l, h) = (self.fresh("lo"), self.fresh("hi"));
                    pre.push(parse_quote!(let #l: usize = #lo;));
                    pre.push(parse_quote!(let #h: usize = #hi;));
                    pre.push(parse_quote!(vx_check_range(#base.len(), #l, #h);));
                    return Some(Src::Slice(base, Some((parse_quote!(#l), parse_quote!(#h))), m));
                }
            }
        }
        if is_place(e) { return Some(Src::Slice(e.clone(), None, m)); }
        if m == Mode::RefMut { return None; }
        if let Expr::Reference(r) = e { return self.slice_src(&r.expr, m, pre); }
        if let Expr::MethodCall(mc) = e {
            // receiver is itself an iterator (x.iter().iter() never happens) or a temporary
            if mc.method == "as_slice" || mc.method == "as_ref" { return self.slice_src(&mc.receiver, m, pre); }
        }
        let id = self.fresh("s");
        pre.push(parse_quote!(let #id = #e;));
        Some(Src::Slice(parse_quote!(#id), None, m))
    }
    fn src_len(&self, s: &Src) -> Expr {
        match s {
            Src::Range(a, b, inc) => { let one: Expr = if *inc { parse_quote!(1) } else { parse_quote!(0) }; parse_quote!(vx_range_len(#a, (#b) + #one)) }
            Src::Slice(b, None, _) => parse_quote!(#b.len()),
            Src::Slice(_, Some((l, h)), _) => parse_quote!((#h - #l)),
            Src::Chunks(b, n, true) | Src::ChunksMut(b, n) => parse_quote!((#b.len() / (#n))),
            Src::Chunks(b, n, false) => parse_quote!(vx_div_ceil(#b.len(), #n)),
            Src::Rep(_, n) => parse_quote!((#n)),
            Src::Enumerate(s) | Src::Rev(s) | Src::Map(s, _, _) => self.src_len(s),
            Src::Zip(a, b) => { let (a, b) = (self.src_len(a), self.src_len(b)); parse_quote!(vx_min(#a, #b)) }
            Src::Skip(s, n) => { let l = self.src_len(s); parse_quote!((#l - vx_min(#l, #n))) }
            Src::Take(s, n) => { let l = self.src_len(s); parse_quote!(vx_min(#l, #n)) }
            Src::StepBy(s, n) => { let l = self.src_len(s); parse_quote!(vx_div_ceil(#l, #n)) }
        }
    }
    fn src_elem(&mut self, s: &Src, i: Expr) -> Elem {
        match s {
            Src::Range(a, _, _) => if is_lit(a) && norm(a) == "0" { Elem::Val(i) } else { Elem::Val(parse_quote!((#a) + #i)) },
            Src::Slice(b, None, m) => Elem::Place(parse_quote!(#b[#i]), *m),
            Src::Slice(b, Some((l, _)), m) => Elem::Place(parse_quote!(#b[#l + #i]), *m),
            Src::Chunks(b, n, true) => Elem::Val(parse_quote!(vx_chunk(&#b, #i, #n))),
            Src::Chunks(b, n, false) => Elem::Val(parse_quote!(vx_chunk_short(&#b, #i, #n))),
            Src::ChunksMut(b, n) => Elem::Place(parse_quote!(#b[(#i * (#n))..(#i * (#n) + (#n))]), Mode::RefMut),
            Src::Rep(x, _) => Elem::Val(x.clone()),
            Src::Enumerate(s) => { let e = self.src_elem(s, i.clone()); Elem::Pair(Box::new(Elem::Val(i)), Box::new(e)) }
            Src::Rev(s) => { let l = self.src_len(s); self.src_elem(s, parse_quote!((#l - 1 - #i))) }
            Src::Zip(a, b) => { let x = self.src_elem(a, i.clone()); let y = self.src_elem(b, i); Elem::Pair(Box::new(x), Box::new(y)) }
            Src::Skip(s, n) => self.src_elem(s, parse_quote!(((#n) + #i))),
            Src::Take(s, _) => self.src_elem(s, i),
            Src::StepBy(s, n) => self.src_elem(s, parse_quote!((#i * (#n)))),
            Src::Map(..) => Elem::Val(parse_quote!(vx_unsupported_map())),
        }
    }
    fn elem_expr(&self, e: &Elem) -> Expr {
        match e {
            Elem::Val(x) => x.clone(),
            Elem::Place(p, Mode::Val) => p.clone(),
            Elem::Place(p, Mode::Ref) => parse_quote!(&#p),
            Elem::Place(p, Mode::RefMut) => parse_quote!(&mut #p),
            Elem::Pair(a, b) => { let (a, b) = (self.elem_expr(a), self.elem_expr(b)); parse_quote!((#a, #b)) }
        }
    }
    fn bind(&mut self, pat: &Pat, el: Elem, out: &mut Vec<Stmt>, body: &mut Block) {
        match (pat, el) {
            (Pat::Wild(_), _) => {}
            (Pat::Paren(p), e) => self.bind(&p.pat, e, out, body),
            (Pat::Type(p), e) => self.bind(&p.pat, e, out, body),
            (Pat::Reference(r), Elem::Place(p, Mode::Ref)) => self.bind(&r.pat, Elem::Place(p, Mode::Val), out, body),
            (Pat::Tuple(t), Elem::Pair(a, b)) if t.elems.len() == 2 => {
                self.bind(&t.elems[0], *a, out, body);
                self.bind(&t.elems[1], *b, out, body);
            }
            (Pat::Ident(id), Elem::Place(p, Mode::RefMut)) => {
                self.note("`for x in iter_mut`: *x replaced by the indexed place");
                Subst { name: &id.ident.to_string(), place: p, mode: Mode::RefMut }.visit_block_mut(body);
            }
            (p, e) => {
                let x = self.elem_expr(&e);
                if let (Pat::Ident(id), Some(t)) = (p, self.ty_of(&x)) {
                    if matches!(e, Elem::Place(_, Mode::Ref)) && UINTS.contains(&norm(deref_ty(&t)).as_str()) { self.refvars.insert(id.ident.to_string()); }
                    self.env.insert(id.ident.to_string(), t);
                }
                let e2 = x.clone();
                out.push(Stmt::Local(parse_local(p, &e2)));
            }
        }
    }

    fn new_loop(&mut self, kind: &str) -> usize { self.loops.push(LoopInfo { kind: kind.into(), ..Default::default() }); self.loops.len() - 1 }
    fn mark(&self, s: String) -> Stmt { parse_quote!(vx_mark!(#s);) }
    fn inv(&self, s: String) -> Stmt { parse_quote!(vx_inv!(#s);) }

    fn emit_for(&mut self, pat: &Pat, iter: &Expr, mut body: Block, out: &mut Vec<Stmt>) -> bool {
        let mut pre = vec![];
        let Some(src) = self.parse_src(iter, &mut pre) else { return false };
        self.emit_src_loop(pat, src, pre, &mut body, out);
        true
    }
    fn emit_src_loop(&mut self, pat: &Pat, src: Src, pre: Vec<Stmt>, body: &mut Block, out: &mut Vec<Stmt>) {
        let k = self.new_loop("for");
        let (vi, ve, va, vj) = (format_ident!("vx_i{}", k), format_ident!("vx_e{}", k), format_ident!("vx_a{}", k), format_ident!("vx_j{}", k));
        for s in pre { self.stmt(s, out); }
        let (mk_b, mk_s, mk_e, mk_a) = (self.mark(format!("loop:{k}:before")), self.mark(format!("loop:{k}:start")), self.mark(format!("loop:{k}:end")), self.mark(format!("loop:{k}:after")));
        let inv = self.inv(format!("loop:{k}"));
        let (range, rev) = match &src { Src::Range(..) => (Some(src.clone()), false), Src::Rev(s) => match &**s { Src::Range(..) => (Some((**s).clone()), true), _ => (None, false) }, _ => (None, false) };
        // the order of a range whose element is ignored makes no difference
        let rev = rev && !matches!(pat, Pat::Wild(_));
        self.note("`for` loops rewritten as index `while` loops (iteration order and bounds kept)");
        if let Some(Src::Range(a, b, inc)) = range {
            let mut a = a; let mut b = b;
            self.visit_expr_mut(&mut a);
            self.visit_expr_mut(&mut b);
            let wide = inc && matches!(norm(&b).as_str(), "255u8" | "255_u8" | "u8::MAX");
            let hi: Expr = if wide { parse_quote!(256u16) } else if inc { parse_quote!((#b) + 1) } else { b.clone() };
            let lo: Expr = if wide { parse_quote!((#a) as u16) } else { a.clone() };
            let cur: Expr = if wide { parse_quote!(#vi as u8) } else { parse_quote!(#vi) };
            let mut binds = vec![];
            self.bind(pat, Elem::Val(cur), &mut binds, body);
            if let Pat::Ident(p) = pat { if let Some(t) = self.ty_of(&b).or_else(|| self.ty_of(&a)) { self.env.insert(p.ident.to_string(), t); } }
            self.visit_block_mut(body);
            close(body);
            let st = &body.stmts;
            if !rev {
                let lo_s = if is_lit(&lo) { norm(&lo) } else { va.to_string() };
                if !is_lit(&lo) { out.push(parse_quote!(let #va = #lo;)); out.push(parse_quote!(let mut #vi = #va;)); } else { out.push(parse_quote!(let mut #vi = #lo;)); }
                out.push(parse_quote!(let #ve = #hi;));
                self.loops[k].auto = vec![format!("{lo_s} <= {vi}"), format!("({vi} <= {ve} || {vi} == {lo_s})")];
                self.loops[k].dec = Some(format!("{ve} - {vi}"));
                out.push(mk_b);
                out.push(parse_quote!(while #vi < #ve { #inv #(#binds)* #mk_s #vi = #vi + 1; #(#st)* #mk_e }));
            } else {
                let lo_s = if is_lit(&lo) { norm(&lo) } else { va.to_string() };
                let lo_e: Expr = if is_lit(&lo) { lo.clone() } else { out.push(parse_quote!(let #va = #lo;)); parse_quote!(#va) };
                out.push(parse_quote!(let #ve = #hi;));
                out.push(parse_quote!(let mut #vi = #ve;));
                self.loops[k].auto = vec![format!("{vi} <= {ve}"), format!("({lo_s} <= {vi} || {vi} == {ve})")];
                self.loops[k].dec = Some(format!("{vi} - {lo_s}"));
                out.push(mk_b);
                out.push(parse_quote!(while #vi > #lo_e { #inv #vi = #vi - 1; #(#binds)* #mk_s #(#st)* #mk_e }));
            }
            out.push(mk_a);
            return;
        }
        let mut len = self.src_len(&src);
        self.visit_expr_mut(&mut len);
        let mut binds0 = vec![];
        let el = self.src_elem(&src, parse_quote!(#vj));
        self.bind(pat, el, &mut binds0, body);
        let mut binds = vec![];
        for s in binds0 { self.stmt(s, &mut binds); }
        self.visit_block_mut(body);
        close(body);
        let st = &body.stmts;
        out.push(parse_quote!(let #ve: usize = #len;));
        out.push(parse_quote!(let mut #vi: usize = 0;));
        self.loops[k].auto = vec![format!("{vi} <= {ve}")];
        self.loops[k].dec = Some(format!("{ve} - {vi}"));
        out.push(mk_b);
        out.push(parse_quote!(while #vi < #ve { #inv let #vj: usize = #vi; #(#binds)* #mk_s #vi = #vi + 1; #(#st)* #mk_e }));
        out.push(mk_a);
    }

    fn emit_while(&mut self, mut w: ExprWhile, out: &mut Vec<Stmt>) {
        let k = self.new_loop("while");
        let mut after_first = false;
        // counted form: while i < E { ...; i += 1; }
        if let Expr::Binary(b) = strip(&w.cond) {
            if let (BinOp::Lt(_) | BinOp::Le(_), Some(i)) = (&b.op, path_ident(&b.left)) {
                let is_inc = |s: &Stmt| match s {
                    Stmt::Expr(Expr::Binary(x), _) => matches!(x.op, BinOp::AddAssign(_)) && path_ident(&x.left).as_deref() == Some(&i) && norm(&x.right) == "1",
                    Stmt::Expr(Expr::Assign(x), _) => path_ident(&x.left).as_deref() == Some(&i) && norm(&x.right) == format!("{i}+1"),
                    _ => false,
                };
                // an increment before statements that do not mention the counter: move it behind them
                if let Some(p) = w.body.stmts.iter().position(is_inc) {
                    let jumps = any_expr(&w.body, &mut |e| matches!(e, Expr::Break(_) | Expr::Continue(_) | Expr::Return(_) | Expr::Try(_) | Expr::Macro(_)));
                    let later = w.body.stmts[p + 1..].iter().any(|s| mentions(s.to_token_stream(), &i));
                    if p + 1 < w.body.stmts.len() && !jumps && !later && assigns(&w.body, &i) == 1 {
                        self.notes.insert("a loop counter's increment moved behind the statements after it, which do not mention the counter".to_string());
                        close(&mut w.body);
                        let st = w.body.stmts.remove(p);
                        w.body.stmts.push(st);
                    }
                }
                let last_inc = match w.body.stmts.last() {
                    Some(Stmt::Expr(Expr::Binary(x), _)) => matches!(x.op, BinOp::AddAssign(_)) && path_ident(&x.left).as_deref() == Some(&i) && norm(&x.right) == "1",
                    Some(Stmt::Expr(Expr::Assign(x), _)) => path_ident(&x.left).as_deref() == Some(&i) && norm(&x.right) == format!("{i}+1"),
                    _ => false,
                };
                let n_assign = assigns(&w.body, &i);
                if last_inc && n_assign == 1 {
                    // a bound computed by a pure accessor (its contract fixes the value): name it once before the loop for the annotations
                    let getter = matches!(strip(&b.right), Expr::MethodCall(m) if m.args.is_empty() && (m.method == "bits_used" || m.method == "bits_allocated") && path_ident(&m.receiver).is_some());
                    if getter {
                        let (ve, r) = (format_ident!("vx_e{}", k), (*b.right).clone());
                        let st: Stmt = parse_quote!(let #ve = #r;);
                        self.stmt(st, out);
                    }
                    let r_txt = if getter { format!("vx_e{k}") } else { (*b.right).to_token_stream().to_string() };
                    let e_txt = if matches!(b.op, BinOp::Le(_)) { format!("({r_txt} + 1)") } else { format!("({r_txt})") };
                    let a_txt = self.inits.get(&i).filter(|e| is_lit(e)).map(|e| norm(e));
                    let li = &mut self.loops[k];
                    li.kind = "counted".into();
                    li.subst = vec![(format!("vx_i{k}"), i.clone()), (format!("vx_e{k}"), e_txt.clone())];
                    if let Some(a) = a_txt { li.auto = vec![format!("{a} <= {i}"), format!("({i} <= {e_txt} || {i} == {a})")]; }
                    li.dec = Some(format!("{e_txt} - {i}"));
                    li.subst_end = vec![(i.clone(), format!("({i} - 1)"))];
                }
            }
            // reversed form: while i > LO { i -= 1; ... }
            if let (BinOp::Gt(_), Some(i)) = (&b.op, path_ident(&b.left)) {
                let first_dec = match w.body.stmts.first() {
                    Some(Stmt::Expr(Expr::Binary(x), _)) => matches!(x.op, BinOp::SubAssign(_)) && path_ident(&x.left).as_deref() == Some(&i) && norm(&x.right) == "1",
                    Some(Stmt::Expr(Expr::Assign(x), _)) => path_ident(&x.left).as_deref() == Some(&i) && norm(&x.right) == format!("{i}-1"),
                    _ => false,
                };
                let init = self.inits.get(&i).cloned();
                if let (true, 1, true, Some(init)) = (first_dec, assigns(&w.body, &i), is_lit(&b.right), init) {
                    let li = &mut self.loops[k];
                    let lo = norm(&b.right);
                    let e_txt = format!("({})", init.to_token_stream());
                    li.kind = "counted".into();
                    li.subst = vec![(format!("vx_i{k}"), i.clone()), (format!("vx_e{k}"), e_txt.clone())];
                    li.auto = vec![format!("{i} <= {e_txt}"), format!("({lo} <= {i} || {i} == {e_txt})")];
                    li.dec = Some(format!("{i} - {lo}"));
                    after_first = true;
                }
            }
        }
        let (mk_b, mk_s, mk_e, mk_a) = (self.mark(format!("loop:{k}:before")), self.mark(format!("loop:{k}:start")), self.mark(format!("loop:{k}:end")), self.mark(format!("loop:{k}:after")));
        let inv = self.inv(format!("loop:{k}"));
        // `while let` with reference patterns
        if let Expr::Let(l) = &mut *w.cond {
            let mut d = vec![];
            deref_pat(&mut l.pat, &mut d);
            let mut st: Vec<Stmt> = d.iter().map(|i| parse_quote!(let #i = *#i;)).collect();
            if !d.is_empty() { self.note("reference patterns `&x` replaced by an explicit dereference"); }
            st.extend(w.body.stmts.drain(..));
            w.body.stmts = st;
        }
        let mut c = w.cond;
        self.visit_expr_mut(&mut c);
        let mut body = w.body;
        self.visit_block_mut(&mut body);
        close(&mut body);
        let st = &body.stmts;
        out.push(mk_b);
        if after_first {
            let (h, st) = (&st[..1], &st[1..]);
            out.push(parse_quote!(while #c { #inv #(#h)* #mk_s #(#st)* #mk_e }));
        } else {
            out.push(parse_quote!(while #c { #inv #mk_s #(#st)* #mk_e }));
        }
        out.push(mk_a);
    }
    fn emit_loop(&mut self, w: ExprLoop, out: &mut Vec<Stmt>) {
        let k = self.new_loop("loop");
        let (mk_b, mk_s, mk_e, mk_a) = (self.mark(format!("loop:{k}:before")), self.mark(format!("loop:{k}:start")), self.mark(format!("loop:{k}:end")), self.mark(format!("loop:{k}:after")));
        let inv = self.inv(format!("loop:{k}"));
        let mut body = w.body;
        self.visit_block_mut(&mut body);
        close(&mut body);
        let st = &body.stmts;
        out.push(mk_b);
        out.push(parse_quote!(loop { #inv #mk_s #(#st)* #mk_e }));
        out.push(mk_a);
    }

    // ---------- patterns ----------
    fn pat_needs_expand(p: &Pat) -> bool {
        match p {
            Pat::Slice(_) | Pat::Reference(_) => true,
            Pat::Tuple(t) => t.elems.iter().any(Self::pat_needs_expand),
            Pat::TupleStruct(t) => t.elems.iter().any(Self::pat_needs_expand),
            Pat::Struct(t) => t.fields.iter().any(|f| Self::pat_needs_expand(&f.pat)),
            Pat::Type(t) => Self::pat_needs_expand(&t.pat),
            Pat::Paren(t) => Self::pat_needs_expand(&t.pat),
            _ => false,
        }
    }
    fn expand_let(&mut self, p: &Pat, e: Expr, out: &mut Vec<Stmt>) {
        match p {
            Pat::Type(t) if Self::pat_needs_expand(&t.pat) => self.expand_let(&t.pat, e, out),
            Pat::Paren(t) => self.expand_let(&t.pat, e, out),
            Pat::Reference(r) => self.expand_let(&r.pat, parse_quote!(*#e), out),
            Pat::Slice(s) => {
                if s.elems.iter().any(|p| matches!(p, Pat::Rest(_)) || matches!(p, Pat::Ident(i) if i.subpat.is_some())) { self.unsupported.push("slice pattern with ..".into()); return; }
                self.note("array patterns in `let` replaced by element-wise lets");
                let id = self.fresh("t");
                out.push(parse_quote!(let #id = #e;));
                for (i, q) in s.elems.iter().enumerate() { let i = Index::from(i); self.expand_let(q, parse_quote!(#id[#i]), out); }
            }
            Pat::Tuple(t) if Self::pat_needs_expand(p) => {
                let id = self.fresh("t");
                out.push(parse_quote!(let #id = #e;));
                for (i, q) in t.elems.iter().enumerate() { let i = Index::from(i); self.expand_let(q, parse_quote!(#id.#i), out); }
            }
            Pat::TupleStruct(t) if Self::pat_needs_expand(p) => {
                let id = self.fresh("t");
                out.push(parse_quote!(let #id = #e;));
                for (i, q) in t.elems.iter().enumerate() { let i = Index::from(i); self.expand_let(q, parse_quote!(#id.#i), out); }
            }
            Pat::Wild(_) => out.push(parse_quote!(let _ = #e;)),
            q => out.push(Stmt::Local(parse_local(q, &e))),
        }
    }

    // ---------- statements ----------
    fn stmt(&mut self, s: Stmt, out: &mut Vec<Stmt>) {
        match s {
            Stmt::Item(Item::Const(c)) => {
                let (i, t) = (&c.ident, &c.ty);
                let mut e = (*c.expr).clone();
                self.visit_expr_mut(&mut e);
                self.env.insert(i.to_string(), (**t).clone());
                self.note("`const` items inside functions become `let`s");
                out.push(parse_quote!(let #i: #t = #e;));
            }
            Stmt::Item(Item::Use(u)) => {
                if let UseTree::Rename(r) = &u.tree { self.aliases.insert(r.rename.to_string(), r.ident.to_string()); }
                else if let UseTree::Path(p) = &u.tree { if let UseTree::Rename(r) = &*p.tree { self.aliases.insert(r.rename.to_string(), r.ident.to_string()); } }
            }
            Stmt::Item(i) => out.push(Stmt::Item(i)),
            Stmt::Macro(m) => {
                if m.mac.path.is_ident("vx_mark") || m.mac.path.is_ident("vx_inv") { out.push(Stmt::Macro(m)); return; }
                let mut e = Expr::Macro(ExprMacro { attrs: vec![], mac: m.mac.clone() });
                self.visit_expr_mut(&mut e);
                out.push(Stmt::Expr(e, Some(Default::default())));
            }
            Stmt::Expr(Expr::ForLoop(f), semi) => {
                let mut o = vec![];
                if self.emit_for(&f.pat, &f.expr, f.body.clone(), &mut o) { out.extend(o); }
                else {
                    self.unsupported.push(format!("for loop over `{}`", norm(&f.expr)));
                    self.new_loop("native");
                    let mut e = Expr::ForLoop(f);
                    visit_mut::visit_expr_mut(self, &mut e);
                    out.push(Stmt::Expr(e, semi));
                }
            }
            Stmt::Expr(Expr::While(w), _) => self.emit_while(w, out),
            Stmt::Expr(Expr::Loop(w), _) => self.emit_loop(w, out),
            Stmt::Expr(Expr::MethodCall(m), semi) if m.method == "for_each" && m.args.len() == 1 => {
                if let Expr::Closure(c) = strip(&m.args[0]) {
                    let mut o = vec![];
                    let cb = &c.body;
                    let body: Block = parse_quote!({ #cb; });
                    if c.inputs.len() == 1 && self.emit_for(&c.inputs[0].clone(), &m.receiver, body, &mut o) { out.extend(o); return; }
                }
                let mut e = Expr::MethodCall(m);
                self.visit_expr_mut(&mut e);
                out.push(Stmt::Expr(e, semi));
            }
            Stmt::Expr(Expr::MethodCall(m), _) if m.method == "extend_from_slice" && m.args.len() == 1 && is_place(&m.receiver) => {
                let v = (*m.receiver).clone();
                let mut a = m.args[0].clone();
                self.visit_expr_mut(&mut a);
                self.note("Vec::extend_from_slice(s) -> vx_extend_slice");
                // a reference into the same vector's owner is read before the vector is borrowed, as in the two-phase borrow of the original
                out.push(parse_quote!(vx_extend_slice(&mut #v, #a);));
            }
            Stmt::Expr(Expr::MethodCall(m), semi) if m.method == "extend" && m.args.len() == 1 && is_place(&m.receiver) => {
                // v.extend(iterator)
                let a = m.args[0].clone();
                let v = (*m.receiver).clone();
                if let Expr::Call(c) = strip(&a) {
                    if norm(&c.func).ends_with("repeat_n") && c.args.len() == 2 {
                        let (mut x, mut n) = (c.args[0].clone(), c.args[1].clone());
                        self.visit_expr_mut(&mut x);
                        self.visit_expr_mut(&mut n);
                        self.note("Vec::extend(repeat_n(x, n)) -> vx_extend_repeat");
                        out.push(parse_quote!(vx_extend_repeat(&mut #v, #x, #n);));
                        return;
                    }
                }
                let is_arr = match strip(&a) { Expr::Array(_) => true, Expr::MethodCall(q) => q.method == "into" && q.args.is_empty(), _ => false };
                if is_arr {
                    let mut a = a;
                    self.visit_expr_mut(&mut a);
                    self.note("Vec::extend(array) -> vx_extend_array");
                    out.push(parse_quote!(vx_extend_array(&mut #v, #a);));
                    return;
                }
                let mut pre = vec![];
                let save = (self.tmp, self.loops.len());
                if let Some(src) = self.parse_src(&a, &mut pre) {
                    let (src, pat, val): (Src, Pat, Expr) = match src {
                        Src::Map(s, p, b) => (*s, p, b),
                        s => { let id = self.fresh("x"); let star: Expr = match &s { Src::Slice(_, _, Mode::Ref) => parse_quote!(*#id), _ => parse_quote!(#id) }; (s, parse_pat(&id), star) }
                    };
                    let mut body: Block = parse_quote!({ #v.push(#val); });
                    self.emit_src_loop(&pat, src, pre, &mut body, out);
                    return;
                }
                self.tmp = save.0;
                let mut e = Expr::MethodCall(m);
                self.visit_expr_mut(&mut e);
                out.push(Stmt::Expr(e, semi));
            }
            // destructuring assignment
            Stmt::Expr(Expr::Assign(a), semi) => {
                if let (Expr::Tuple(l), r) = (strip(&a.left), strip(&a.right)) {
                    self.note("destructuring assignment expanded (right side evaluated first)");
                    let mut tmps: Vec<Expr> = vec![];
                    if let Expr::Tuple(rt) = r {
                        for x in &rt.elems { let mut x = x.clone(); self.visit_expr_mut(&mut x); let id = self.fresh("t"); out.push(parse_quote!(let #id = #x;)); tmps.push(parse_quote!(#id)); }
                    } else {
                        let mut x = r.clone();
                        self.visit_expr_mut(&mut x);
                        let id = self.fresh("t");
                        out.push(parse_quote!(let #id = #x;));
                        for i in 0..l.elems.len() { let i = Index::from(i); tmps.push(parse_quote!(#id.#i)); }
                    }
                    for (x, t) in l.elems.iter().zip(tmps) {
                        if matches!(x, Expr::Infer(_)) { continue; }
                        let mut x = x.clone();
                        self.visit_expr_mut(&mut x);
                        out.push(parse_quote!(#x = #t;));
                    }
                    return;
                }
                if let (Expr::Array(l), r) = (strip(&a.left), strip(&a.right)) {
                    let mut x = r.clone();
                    self.visit_expr_mut(&mut x);
                    let id = self.fresh("t");
                    out.push(parse_quote!(let #id = #x;));
                    for (i, q) in l.elems.iter().enumerate() { let i = Index::from(i); out.push(parse_quote!(#q = #id[#i];)); }
                    return;
                }
                // *x.get_mut(i).ok_or(e)? = v
                if let Expr::Unary(u) = strip(&a.left) { if let (UnOp::Deref(_), Expr::Try(t)) = (&u.op, strip(&u.expr)) { if let Expr::MethodCall(m) = strip(&t.expr) { if let Expr::MethodCall(g) = strip(&m.receiver) {
                    if m.method == "ok_or" && m.args.len() == 1 && g.method == "get_mut" && g.args.len() == 1 {
                        let (mut x, mut i, mut er, mut v) = ((*g.receiver).clone(), g.args[0].clone(), m.args[0].clone(), (*a.right).clone());
                        for q in [&mut x, &mut i, &mut er, &mut v] { self.visit_expr_mut(q); }
                        let (iv, vv) = (self.fresh("i"), self.fresh("t"));
                        self.note("*x.get_mut(i).ok_or(e)? = v -> the error when i is out of range, x[i] = v otherwise");
                        out.push(parse_quote!(let #vv = #v;));
                        out.push(parse_quote!(let #iv: usize = #i;));
                        out.push(parse_quote!(if #iv >= #x.len() { return Err(#er); }));
                        out.push(parse_quote!(#x[#iv] = #vv;));
                        return;
                    }
                } } } }
                let mut e = Expr::Assign(a);
                self.visit_expr_mut(&mut e);
                out.push(Stmt::Expr(e, semi));
            }
            Stmt::Local(mut l) => {
                l.attrs.clear();
                let name = match &l.pat { Pat::Ident(p) => Some(p.ident.to_string()), Pat::Type(t) => match &*t.pat { Pat::Ident(p) => Some(p.ident.to_string()), _ => None }, _ => None };
                let isref_init = matches!(l.init.as_ref().map(|i| strip(&i.expr)), Some(Expr::Reference(_)));
                // lazily consumed chunk iterators
                if let (Some(n), Some(init)) = (&name, &l.init) {
                    if let Expr::MethodCall(m) = strip(&init.expr) {
                        let lazy = matches!(m.method.to_string().as_str(), "chunks" | "chunks_exact" | "iter" | "enumerate" | "rev" | "zip" | "iter_mut") && init.diverge.is_none();
                        if lazy {
                            let mut pre = vec![];
                            if let Some(src) = self.parse_src(&init.expr, &mut pre) {
                                for s in pre { self.stmt(s, out); }
                                self.iters.insert(n.clone(), src);
                                self.note("iterator bound by `let` expanded where it is consumed");
                                return;
                            }
                        }
                    }
                    self.iters.remove(n);
                }
                // let x = None: the type is not known before the first assignment
                if let (Pat::Ident(_), Some(init), Some(t)) = (&l.pat, &l.init, self.opts.get("none")) {
                    if norm(&init.expr) == "None" {
                        if let Ok(t) = parse_str::<Type>(t) { let p = l.pat.clone(); l.pat = Pat::Type(PatType { attrs: vec![], pat: Box::new(p), colon_token: Default::default(), ty: Box::new(t) }); }
                    }
                }
                // let x: T = Default::default()
                if let (Pat::Type(t), Some(init)) = (&l.pat, &mut l.init) {
                    if norm(&init.expr) == "Default::default()" {
                        if let Some(n) = block_len(&t.ty) { self.note("Default::default() of a byte array -> [0; N]"); init.expr = Box::new(parse_quote!([0u8; #n])); }
                    }
                }
                // let x = &*TEMP;
                if let (Some(_), Some(init)) = (&name, &mut l.init) {
                    if let Expr::Reference(r) = strip(&init.expr) {
                        if let Expr::Unary(u) = strip(&r.expr) {
                            if matches!(u.op, UnOp::Deref(_)) && matches!(strip(&u.expr), Expr::MethodCall(_)) {
                                let mut x = (*u.expr).clone();
                                self.visit_expr_mut(&mut x);
                                let id = self.fresh("own");
                                out.push(parse_quote!(let #id = #x;));
                                init.expr = Box::new(parse_quote!(#id.as_slice()));
                            }
                        }
                    }
                }
                if let Some(init) = &mut l.init {
                    if let Some((_, els)) = &mut init.diverge {
                        // let [P0, ..] = E else { D }
                        if let Pat::Slice(s) = &l.pat {
                            if s.elems.iter().any(|p| matches!(p, Pat::Rest(_)) || matches!(p, Pat::Ident(i) if i.subpat.is_some())) { self.unsupported.push("slice pattern with ..".into()); return; }
                            self.note("slice pattern in let-else expanded to a length test and one let-else per element");
                            let mut e = (*init.expr).clone();
                            self.visit_expr_mut(&mut e);
                            let mut d = (**els).clone();
                            self.visit_expr_mut(&mut d);
                            let id = self.fresh("s");
                            let n = s.elems.len();
                            out.push(parse_quote!(let #id = #e;));
                            out.push(parse_quote!(if #id.len() != #n #d));
                            for (i, p) in s.elems.iter().enumerate() {
                                let i = Index::from(i);
                                if let Pat::Path(_) = p { out.push(parse_quote!(match &#id[#i] { #p => {} , _ => #d })); continue; }
                                out.push(parse_quote!(let #p = &#id[#i] else #d;));
                            }
                            return;
                        }
                        let mut d = vec![];
                        deref_pat(&mut l.pat, &mut d);
                        let mut e = (*init.expr).clone();
                        self.visit_expr_mut(&mut e);
                        init.expr = Box::new(e);
                        let mut dv = (**els).clone();
                        self.visit_expr_mut(&mut dv);
                        *els = Box::new(dv);
                        out.push(Stmt::Local(l));
                        for i in d { out.push(parse_quote!(let #i = *#i;)); }
                        return;
                    }
                }
                if let Some(init) = &mut l.init {
                    if let Some(n) = &name { self.inits.insert(n.clone(), (*init.expr).clone()); }
                    let ty = match &l.pat { Pat::Type(t) => Some((*t.ty).clone()), _ => self.ty_of(&init.expr) };
                    let mut e = (*init.expr).clone();
                    if let Some(n) = &name {
                        match ty {
                            Some(t) => { let isref = matches!(strip(&e), Expr::Reference(_)) && !matches!(t, Type::Reference(_)); self.env.insert(n.clone(), if isref { parse_quote!(&#t) } else { t }); }
                            None => { self.env.remove(n); }
                        }
                    }
                    self.visit_expr_mut(&mut e);
                    if Self::pat_needs_expand(&l.pat) { let p = l.pat.clone(); let mut o = vec![]; self.expand_let(&p, e, &mut o); out.extend(o); }
                    else { init.expr = Box::new(e); out.push(Stmt::Local(l)); }
                } else { out.push(Stmt::Local(l)); }
                if let Some(n) = name {
                    if !isref_init { self.refvars.remove(&n); }
                    let c = self.lets.entry(n.clone()).or_insert(0);
                    let key = format!("let:{n}:{c}");
                    *c += 1;
                    out.push(self.mark(key));
                }
            }
            Stmt::Expr(mut e, semi) => { self.visit_expr_mut(&mut e); out.push(Stmt::Expr(e, semi)); }
        }
    }
}

fn close(b: &mut Block) { if let Some(Stmt::Expr(_, s)) = b.stmts.last_mut() { if s.is_none() { *s = Some(Default::default()); } } }
fn parse_local(p: &Pat, e: &Expr) -> Local { match parse_quote!(let #p = #e;) { Stmt::Local(l) => l, _ => unreachable!() } }
fn parse_pat(i: &Ident) -> Pat { Pat::Ident(PatIdent { attrs: vec![], by_ref: None, mutability: None, ident: i.clone(), subpat: None }) }
pub fn ret_ty(s: &Signature) -> Option<Type> { match &s.output { ReturnType::Type(_, t) => Some((**t).clone()), _ => None } }
fn block_len(t: &Type) -> Option<Expr> {
    match t {
        Type::Array(a) => Some(a.len.clone()),
        Type::Path(p) => {
            let s = p.path.segments.last()?;
            if s.ident != "Block" { return None; }
            if let PathArguments::AngleBracketed(a) = &s.arguments {
                match a.args.first()? { GenericArgument::Const(e) => Some(e.clone()), GenericArgument::Type(t) => Some(parse_quote!(#t)), _ => None }
            } else { None }
        }
        _ => None,
    }
}
fn deref_pat(p: &mut Pat, out: &mut Vec<Ident>) {
    match p {
        Pat::Reference(r) => if let Pat::Ident(i) = &*r.pat { out.push(i.ident.clone()); let mut i = i.clone(); i.mutability = None; *p = Pat::Ident(i); },
        Pat::TupleStruct(t) => for q in t.elems.iter_mut() { deref_pat(q, out) },
        Pat::Tuple(t) => for q in t.elems.iter_mut() { deref_pat(q, out) },
        Pat::Paren(t) => deref_pat(&mut t.pat, out),
        _ => {}
    }
}

impl<'a> Tx<'a> {
    fn rewrite_macro(&mut self, m: &Macro) -> Option<Expr> {
        let n = m.path.segments.last()?.ident.to_string();
        let panic: Expr = if self.opts.contains_key("maypanic") { parse_quote!(vx_abort()) } else { parse_quote!(vx_panic()) };
        let args = || m.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated).ok();
        Some(match n.as_str() {
            "panic" | "unreachable" | "todo" | "unimplemented" => { self.note("panic!/unreachable! -> obligation that the point is unreachable"); panic }
            "assert" | "debug_assert" => { let a = args()?; let mut c = a[0].clone(); self.visit_expr_mut(&mut c); self.note("assert! -> obligation"); parse_quote!(if !(#c) { #panic }) }
            "assert_eq" | "debug_assert_eq" => { let a = args()?; let (mut x, mut y) = (a[0].clone(), a[1].clone()); self.visit_expr_mut(&mut x); self.visit_expr_mut(&mut y); self.note("assert! -> obligation"); parse_quote!(if !(#x == #y) { #panic }) }
            "assert_ne" | "debug_assert_ne" => { let a = args()?; let (mut x, mut y) = (a[0].clone(), a[1].clone()); self.visit_expr_mut(&mut x); self.visit_expr_mut(&mut y); parse_quote!(if #x == #y { #panic }) }
            "format" => { self.note("error texts dropped (format!, string literals as errors)"); parse_quote!(vx_string()) }
            "write" | "writeln" => {
                let a = args()?;
                let mut it = a.into_iter();
                let mut f = it.next()?;
                self.visit_expr_mut(&mut f);
                let Expr::Lit(ExprLit { lit: Lit::Str(ls), .. }) = it.next().unwrap_or_else(|| parse_quote!("")) else { return None };
                let mut st: Vec<Stmt> = vec![];
                let (fs, mut lit) = (ls.value(), String::new());
                let mut cs = fs.chars().peekable();
                let flush = |lit: &mut String, st: &mut Vec<Stmt>| {
                    let mut first = true;
                    for part in std::mem::take(lit).split('\n') {
                        if !first { st.push(parse_quote!(#f.vx_put_char('\n');)); }
                        first = false;
                        if !part.is_empty() { st.push(parse_quote!(#f.vx_put_str(#part);)); }
                    }
                };
                while let Some(c) = cs.next() {
                    match c {
                        '{' if cs.peek() == Some(&'{') => { cs.next(); lit.push('{'); }
                        '}' if cs.peek() == Some(&'}') => { cs.next(); lit.push('}'); }
                        '{' => {
                            let mut nm = String::new();
                            loop { match cs.next()? { '}' => break, c => nm.push(c) } }
                            flush(&mut lit, &mut st);
                            let mut x: Expr = if nm.is_empty() { it.next()? } else { parse_str(&nm).ok()? };
                            self.visit_expr_mut(&mut x);
                            st.push(parse_quote!(#f.vx_put(&#x);));
                        }
                        c => lit.push(c),
                    }
                }
                if n == "writeln" { lit.push('\n'); }
                flush(&mut lit, &mut st);
                if it.next().is_some() { return None; }
                self.note("write!/writeln! expanded to one call per piece; the formatter is a string buffer, whose writes do not fail");
                parse_quote!(({ #(#st)* vx_fmt_ok() }))
            }
            "vec" => {
                if let Some(a) = args() { let mut v: Vec<Expr> = a.into_iter().collect(); for x in v.iter_mut() { self.visit_expr_mut(x); } return Some(parse_quote!(vec![#(#v),*])); }
                let ts = m.tokens.clone();
                if let Ok(Expr::Repeat(r)) = parse2::<Expr>(quote!([#ts])) { let (mut x, mut l) = ((*r.expr).clone(), (*r.len).clone()); self.visit_expr_mut(&mut x); self.visit_expr_mut(&mut l); self.note("vec![x; n] -> vx_repeat"); return Some(parse_quote!(vx_repeat(#x, #l))); }
                return None;
            }
            "matches" => {
                let ts = m.tokens.clone();
                struct M(Expr, Pat, Option<Expr>);
                impl parse::Parse for M { fn parse(i: parse::ParseStream) -> Result<M> { let e = i.parse()?; i.parse::<Token![,]>()?; let p = Pat::parse_multi_with_leading_vert(i)?; let g = if i.peek(Token![if]) { i.parse::<Token![if]>()?; Some(i.parse()?) } else { None }; let _ = i.parse::<Option<Token![,]>>(); Ok(M(e, p, g)) } }
                let M(e, p, g) = parse2::<M>(ts).ok()?;
                let mut x: Expr = match g { Some(g) => parse_quote!(match #e { #p if #g => true, _ => false }), None => parse_quote!(match #e { #p => true, _ => false }) };
                self.visit_expr_mut(&mut x);
                x
            }
            _ => return None,
        })
    }

    /// rewrites that must see the expression before its children are rewritten
    fn pre(&mut self, e: &Expr) -> Option<Expr> {
        if let Expr::Call(c) = e { if c.args.len() == 1 {
                // <[T; N]>::try_from(slice or vector), the failure handled by the code
                if let Expr::Path(p) = &*c.func {
                    if let (Some(q), Some(l)) = (&p.qself, p.path.segments.last()) {
                        if let (Type::Array(a), true) = (&*q.ty, l.ident == "try_from") {
                            let (t, len) = (&a.elem, &a.len);
                            let mut arg = c.args[0].clone();
                            let isvec = self.ty_of(&arg).map_or(false, |t| ty_name(&t) == "Vec") && !matches!(strip(&arg), Expr::Reference(_));
                            self.visit_expr_mut(&mut arg);
                            if isvec { arg = parse_quote!(&#arg); }
                            self.note("<[T; N]>::try_from(slice) -> vx_try_array");
                            return Some(parse_quote!(vx_try_array::<#t, { #len }>(#arg)));
                        }
                    }
                }
        } }
        match e {
            Expr::Macro(m) => self.rewrite_macro(&m.mac),
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                let r = &m.receiver;
                match (n.as_str(), m.args.len()) {
                    ("unwrap", 0) | ("expect", 1) => {
                        if let Expr::Call(c) = strip(r) {
                            if let Expr::Path(p) = &*c.func {
                                if let (Some(q), Some(l)) = (&p.qself, p.path.segments.last()) {
                                    if let (Type::Array(a), true) = (&*q.ty, l.ident == "try_from") {
                                        let (t, len) = (&a.elem, &a.len);
                                        let arg0 = c.args[0].clone();
                                        let isvec = self.ty_of(&arg0).map_or(false, |t| ty_name(&t) == "Vec") && !matches!(strip(&arg0), Expr::Reference(_));
                                        let mut arg = arg0;
                                        self.visit_expr_mut(&mut arg);
                                        if isvec { arg = parse_quote!(&#arg); }
                                        self.note("<[T; N]>::try_from(slice).unwrap() -> vx_to_array (requires the length to match)");
                                        return Some(parse_quote!(vx_to_array::<#t, { #len }>(#arg)));
                                    }
                                }
                            }
                        }
                        if let Expr::MethodCall(c) = strip(r) {
                            if c.method == "try_into" && c.args.is_empty() {
                                let mut arg = (*c.receiver).clone();
                                let isvec = self.ty_of(&arg).map_or(false, |t| ty_name(&t) == "Vec");
                                self.visit_expr_mut(&mut arg);
                                if isvec { arg = parse_quote!(&#arg); }
                                self.note("slice.try_into().unwrap() -> vx_to_array (requires the length to match)");
                                if matches!(&arg, Expr::Index(i) if matches!(strip(&i.index), Expr::Range(_))) { return Some(parse_quote!(vx_to_array(&#arg))); }
                                return Some(parse_quote!(vx_to_array(#arg)));
                            }
                        }
                        if self.opts.contains_key("maypanic") {
                            let mut recv = (**r).clone();
                            self.visit_expr_mut(&mut recv);
                            self.note("unwrap/expect of a function that may reject by panicking -> vx_unwrap (returns only if there is a value)");
                            return Some(parse_quote!((#recv).vx_unwrap()));
                        }
                        None
                    }
                    ("position", 1) | ("rposition", 1) => {
                        let Expr::Closure(c) = strip(&m.args[0]) else { return None };
                        let mut pre = vec![];
                        let src = self.parse_src(r, &mut pre)?;
                        let Src::Slice(base, None, Mode::Ref) = src else { return None };
                        let mut pat = c.inputs.first()?.clone();
                        if let Pat::Reference(rf) = &pat { pat = (*rf.pat).clone(); }
                        let Pat::Ident(pi) = &pat else { return None };
                        let x = &pi.ident;
                        // closure parameter is the element by value
                        let mut body = (*c.body).clone();
                        DerefOf { name: x.to_string() }.visit_expr_mut(&mut body);
                        let mut btxt = body.to_token_stream().to_string();
                        self.visit_expr_mut(&mut body);
                        let id = self.fresh("p");
                        let inv_name = format!("auto:{}", id);
                        let s_txt = base.to_token_stream().to_string();
                        let (q, rr) = (format_ident!("{}_r", id), format_ident!("{}_n", id));
                        btxt = format!("({{ let {x} = ({s_txt})@[vx_q]; {btxt} }})");
                        let fwd = n == "position";
                        let hi = format!("({s_txt})@.len()");
                        let (range, found) = if fwd { (format!("0 <= vx_q < {id}"), format!("forall|vx_q: int| 0 <= vx_q < {q}->Some_0 ==> !#[trigger] vx_id({btxt}, ({s_txt})@[vx_q])")) }
                            else { (format!("{id} <= vx_q < {hi}"), format!("forall|vx_q: int| {q}->Some_0 < vx_q < {hi} ==> !#[trigger] vx_id({btxt}, ({s_txt})@[vx_q])")) };
                        let _ = found;
                        self.autos_push(&inv_name, format!(
                            "        invariant {rr} == {hi}, {id} <= {rr}, {q} is None ==> (forall|vx_q: int| #![trigger ({s_txt})@[vx_q]] {range} ==> !{btxt}),\n            {q} is Some ==> ({q}->Some_0 < {rr} && ({{ let vx_q = {q}->Some_0 as int; {btxt} }}) && (forall|vx_q: int| #![trigger ({s_txt})@[vx_q]] {} ==> !{btxt}))\n        decreases {}",
                            if fwd { format!("0 <= vx_q < {q}->Some_0") } else { format!("{q}->Some_0 < vx_q < {hi}") },
                            if fwd { format!("{rr} - {id} + (if {q} is None {{ 1int }} else {{ 0 }})") } else { format!("{id} + (if {q} is None {{ 1int }} else {{ 0 }})") }));
                        self.note("iter().position(closure) expanded to the search loop it stands for");
                        let inv = self.inv(inv_name);
                        let mut out = vec![];
                        for s in pre { self.stmt(s, &mut out); }
                        return Some(if fwd {
                            parse_quote!({ #(#out)* let #rr: usize = #base.len(); let mut #id: usize = 0; let mut #q: Option<usize> = None; while #q.is_none() && #id < #rr { #inv let #x = #base[#id]; if #body { #q = Some(#id); } else { #id = #id + 1; } } #q })
                        } else {
                            parse_quote!({ #(#out)* let #rr: usize = #base.len(); let mut #id: usize = #rr; let mut #q: Option<usize> = None; while #q.is_none() && #id > 0 { #inv let #x = #base[#id - 1]; if #body { #q = Some(#id - 1); } else { #id = #id - 1; } } #q })
                        });
                    }
                    ("any", 1) | ("all", 1) => {
                        let Expr::Closure(c) = strip(&m.args[0]) else { return None };
                        let mut c = c.clone();
                        let all = n == "all";
                        if all { let b = &c.body; c.body = parse_quote!(!(#b)); }
                        let q: Expr = parse_quote!(#r.position(#c));
                        let x = self.pre(&q)?;
                        self.note("iter().any/all(closure) expanded to the search loop it stands for");
                        let id = self.fresh("o");
                        Some(if all { parse_quote!(({ let #id: Option<usize> = #x; #id.is_none() })) } else { parse_quote!(({ let #id: Option<usize> = #x; #id.is_some() })) })
                    }
                    ("contains", 1) => {
                        let Expr::Reference(a) = strip(&m.args[0]) else { return None };
                        let a = &a.expr;
                        if let Expr::Range(rg) = strip(r) {
                            let mut x: Expr = match (&rg.start, &rg.end, &rg.limits) {
                                (Some(l), Some(h), RangeLimits::Closed(_)) => parse_quote!(((#l) <= (#a) && (#a) <= (#h))),
                                (Some(l), Some(h), _) => parse_quote!(((#l) <= (#a) && (#a) < (#h))),
                                (Some(l), None, _) => parse_quote!(((#l) <= (#a))),
                                (None, Some(h), RangeLimits::Closed(_)) => parse_quote!(((#a) <= (#h))),
                                (None, Some(h), _) => parse_quote!(((#a) < (#h))),
                                _ => return None,
                            };
                            self.visit_expr_mut(&mut x);
                            self.note("range.contains(&x) -> comparisons");
                            return Some(x);
                        }
                        let t = self.ty_of(r)?;
                        if elem_ty(&t).map_or(true, |t| !UINTS.contains(&ty_name(&t).as_str())) { return None; }
                        let mut x: Expr = parse_quote!(#r.iter().any(|&vx_c| vx_c == #a));
                        self.visit_expr_mut(&mut x);
                        Some(x)
                    }
                    ("map_or", 2) | ("is_none_or", 1) => {
                        let Expr::Closure(c) = strip(m.args.last()?) else { return None };
                        let opt = matches!(strip(r), Expr::MethodCall(x) if matches!(x.method.to_string().as_str(), "get" | "first" | "last" | "pop" | "next" | "copied" | "cloned" | "checked_sub" | "checked_add" | "checked_mul" | "checked_shl" | "checked_shr" | "position" | "rposition")) || self.ty_of(r).map_or(false, |t| ty_name(&t) == "Option") || n == "is_none_or";
                        if !opt { return None; }
                        let mut p = c.inputs.first()?.clone();
                        let mut body = (*c.body).clone();
                        let star = if let Pat::Reference(rf) = &p { p = (*rf.pat).clone(); true } else { false };
                        let mut recv = (**r).clone();
                        let mut d: Expr = if n == "map_or" { m.args[0].clone() } else { parse_quote!(true) };
                        self.visit_expr_mut(&mut recv);
                        self.visit_expr_mut(&mut body);
                        self.visit_expr_mut(&mut d);
                        let src: Expr = if star { parse_quote!(*vx_o) } else { parse_quote!(vx_o) };
                        self.note("Option::map_or(default, closure) expanded to a match");
                        Some(parse_quote!((match #recv { Some(vx_o) => { let #p = #src; #body } None => #d })))
                    }
                    ("into_iter", 0) if path_ident(r).map_or(false, |i| self.opts.contains_key(&format!("intoiter:{i}"))) => Some((**r).clone()),
                    ("collect", 0) if matches!(strip(r), Expr::MethodCall(f) if self.known.contains(&format!("eager:{}", f.method))) => {
                        let Expr::MethodCall(f) = strip(r) else { return None };
                        let mut pre = vec![];
                        let mut args: Vec<Expr> = vec![];
                        for a in &f.args {
                            match self.parse_src(a, &mut pre) {
                                Some(Src::Slice(b, None, Mode::Val)) => { let isref = matches!(self.ty_of(&b), Some(Type::Reference(_))); args.push(if isref { b } else { parse_quote!(&#b) }) }
                                Some(Src::Slice(b, Some((l, h)), Mode::Val)) => args.push(parse_quote!(&#b[#l..#h])),
                                _ => { self.unsupported.push(format!("argument `{}` of an eager call", norm(a))); return None; }
                            }
                        }
                        let mut out = vec![];
                        for s in pre { self.stmt(s, &mut out); }
                        let mut recv = (*f.receiver).clone();
                        let tmp_recv = !is_place(&recv);
                        self.visit_expr_mut(&mut recv);
                        let me = &f.method;
                        self.note("collect() of an eagerly extracted iterator -> the vector itself");
                        Some(if tmp_recv { let id = self.fresh("t"); parse_quote!({ #(#out)* let mut #id = #recv; #id.#me(#(#args),*) }) } else { parse_quote!({ #(#out)* #recv.#me(#(#args),*) }) })
                    }
                    ("collect", 0) => {
                        let mut pre = vec![];
                        let src = self.parse_src(r, &mut pre)?;
                        if let Src::Rep(mut x, mut nn) = src { self.visit_expr_mut(&mut x); self.visit_expr_mut(&mut nn); self.note("repeat_n(x, n).collect() -> vx_repeat"); return Some(parse_quote!(vx_repeat(#x, #nn))); }
                        let k = self.loops.len();
                        let vv = format_ident!("vx_v{}", k);
                        let (src, pat, val): (Src, Pat, Expr) = match src {
                            Src::Map(s, p, b) => (*s, p, b),
                            s => { let id = self.fresh("x"); (s, parse_pat(&id), parse_quote!(#id)) }
                        };
                        let mut body: Block = parse_quote!({ #vv.push(#val); });
                        let mut out = vec![];
                        let tf = m.turbofish.as_ref().and_then(|t| t.args.first().cloned());
                        match tf { Some(t) => out.push(parse_quote!(let mut #vv: #t = Vec::new();)), None => out.push(parse_quote!(let mut #vv = Vec::new();)) }
                        self.emit_src_loop(&pat, src, pre, &mut body, &mut out);
                        self.note("iterator chain + collect() expanded to a push loop");
                        Some(parse_quote!({ #(#out)* #vv }))
                    }
                    ("is_some", 0) | ("is_none", 0) => {
                        if let Expr::MethodCall(f) = strip(r) {
                            if f.method == "filter" && f.args.len() == 1 {
                                if let Expr::Closure(c) = strip(&f.args[0]) {
                                    let mut p = c.inputs.first()?.clone();
                                    let mut body = (*c.body).clone();
                                    // |&a| P on Option<T>: a is the T itself
                                    let by_ref = if let Pat::Reference(rf) = &p { p = (*rf.pat).clone(); false } else { true };
                                    let Pat::Ident(pi) = &p else { return None };
                                    let id = pi.ident.clone();
                                    let mut recv = (*f.receiver).clone();
                                    self.visit_expr_mut(&mut recv);
                                    self.visit_expr_mut(&mut body);
                                    let binding: Stmt = if by_ref { parse_quote!(let #id = &vx_o;) } else { parse_quote!(let #id = vx_o;) };
                                    self.note("Option::filter(closure).is_some() expanded to a match");
                                    return Some(if n == "is_some" { parse_quote!((match #recv { Some(vx_o) => { #binding #body } None => false })) } else { parse_quote!((match #recv { Some(vx_o) => { #binding !(#body) } None => true })) });
                                }
                            }
                        }
                        None
                    }
                    ("is_some_and", 1) => {
                        let Expr::Closure(c) = strip(&m.args[0]) else { return None };
                        let mut p = c.inputs.first()?.clone();
                        let mut body = (*c.body).clone();
                        let star = if let Pat::Reference(rf) = &p { p = (*rf.pat).clone(); true } else { false };
                        let mut recv = (**r).clone();
                        self.visit_expr_mut(&mut recv);
                        self.visit_expr_mut(&mut body);
                        let src: Expr = if star { parse_quote!(*vx_o) } else { parse_quote!(vx_o) };
                        Some(parse_quote!((match #recv { Some(vx_o) => { let #p = #src; #body } None => false })))
                    }
                    ("map_err", 1) => {
                        let mut recv = (**r).clone();
                        self.visit_expr_mut(&mut recv);
                        // a closure that looks at the error
                        if let Expr::Closure(c) = strip(&m.args[0]) {
                            if let (Expr::Match(_), Some(p)) = (strip(&c.body), c.inputs.first()) {
                                let mut b = (*c.body).clone();
                                self.visit_expr_mut(&mut b);
                                self.note("map_err(|e| match ..) -> match");
                                return Some(parse_quote!((match #recv { Ok(vx_o) => Ok(vx_o), Err(#p) => Err(#b) })));
                            }
                        }
                        self.note("map_err(closure building an error text) -> vx_map_err");
                        Some(parse_quote!(vx_map_err(#recv)))
                    }
                    ("ok_or", 1) if matches!(strip(&m.args[0]), Expr::Lit(_)) => None,
                    ("to_string", 0) | ("to_owned", 0) | ("into", 0) if matches!(strip(r), Expr::Lit(ExprLit { lit: Lit::Str(_), .. })) => {
                        self.note("error texts dropped (format!, string literals as errors)");
                        Some(parse_quote!(vx_string()))
                    }
                    ("splice", 2) => {
                        let (rg, it) = (&m.args[0], &m.args[1]);
                        let v = (**r).clone();
                        if let Expr::Range(rg) = strip(rg) {
                            let lo = rg.start.as_ref().map(|x| norm(x)).unwrap_or("0".into());
                            if lo == "0" {
                                let mut hi = (**rg.end.as_ref()?).clone();
                                if norm(&hi) == "0" {
                                    if let Expr::Call(c) = strip(it) { if norm(&c.func).ends_with("repeat_n") {
                                        let (mut x, mut nn) = (c.args[0].clone(), c.args[1].clone());
                                        self.visit_expr_mut(&mut x); self.visit_expr_mut(&mut nn);
                                        self.note("Vec::splice(0..0, repeat_n(x, n)) -> vx_prepend_repeat");
                                        return Some(parse_quote!(vx_prepend_repeat(&mut #v, #x, #nn)));
                                    } }
                                }
                                if let Expr::Array(a) = strip(it) { if a.elems.is_empty() {
                                    self.visit_expr_mut(&mut hi);
                                    self.note("Vec::splice(0..n, []) -> vx_drop_front (requires n <= len)");
                                    return Some(parse_quote!(vx_drop_front(&mut #v, #hi)));
                                } }
                            }
                        }
                        None
                    }
                    ("drain", 1) => {
                        let v = (**r).clone();
                        if let Expr::Range(rg) = strip(&m.args[0]) {
                            let lo = rg.start.as_ref().map(|x| norm(x)).unwrap_or("0".into());
                            if lo == "0" && !matches!(rg.limits, RangeLimits::Closed(_)) {
                                let mut hi = (**rg.end.as_ref()?).clone();
                                self.visit_expr_mut(&mut hi);
                                return Some(parse_quote!(vx_drop_front(&mut #v, #hi)));
                            }
                        }
                        None
                    }
                    ("remainder", 0) => {
                        let id = path_ident(r)?;
                        if let Some(Src::Chunks(b, n, true)) = self.iters.get(&id).cloned() {
                            self.note("ChunksExact::remainder() -> the tail slice");
                            return Some(parse_quote!(vx_remainder(&#b, #n)));
                        }
                        None
                    }
                    _ => None,
                }
            }
            Expr::Call(c) => {
                if let (Some(s), Some(f)) = (&self.sink, path_ident(&c.func)) {
                    if *s == f && c.args.len() == 1 {
                        let mut a = c.args[0].clone();
                        let id = format_ident!("{}", f);
                        self.visit_expr_mut(&mut a);
                        self.note("output callback (FnMut(u8)) modelled as a byte vector that records the calls");
                        return Some(parse_quote!(#id.push(#a)));
                    }
                }
                if let Expr::Path(p) = &*c.func {
                    let last = p.path.segments.last()?.ident.to_string();
                    if last == "from_le_bytes" || last == "from_be_bytes" {
                        let t = match &p.qself { Some(q) => ty_name(&q.ty), None => p.path.segments.iter().rev().nth(1).map(|s| s.ident.to_string()).unwrap_or_default() };
                        if UINTS.contains(&t.as_str()) {
                            let f = format_ident!("vx_{}_{}", t, last);
                            let mut a = c.args[0].clone();
                            self.visit_expr_mut(&mut a);
                            self.note("integer from/to_le/be_bytes -> helpers with the byte-order contract");
                            return Some(parse_quote!(#f(#a)));
                        }
                    }
                    let full = norm(&p.path);
                    if c.args.len() == 2 && (full.ends_with("cmp::min") || full.ends_with("cmp::max") || full == "min" || full == "max") {
                        let (mut a, mut b) = (c.args[0].clone(), c.args[1].clone());
                        if matches!(strip(&a), Expr::Lit(_)) { std::mem::swap(&mut a, &mut b); }
                        self.visit_expr_mut(&mut a); self.visit_expr_mut(&mut b);
                        let me = format_ident!("{}", last);
                        self.note("cmp::min/max(a, b) -> a.min/max(b)");
                        return Some(parse_quote!((#a).#me(#b)));
                    }
                    if full.ends_with("mem::swap") || full == "swap" && c.args.len() == 2 {
                        let (mut a, mut b) = (c.args[0].clone(), c.args[1].clone());
                        self.visit_expr_mut(&mut a); self.visit_expr_mut(&mut b);
                        return Some(parse_quote!(vx_mem_swap(#a, #b)));
                    }
                }
                None
            }
            _ => None,
        }
    }
    fn autos_push(&mut self, name: &str, text: String) { self.opts.insert(name.to_string(), text); }

    fn post(&mut self, e: &mut Expr) {
        match e {
            Expr::Try(t) => {
                if let (Some(l), Expr::Call(c)) = (self.opts.get("tryfrom").cloned(), strip(&t.expr)) {
                    if l.split(',').any(|x| norm(&c.func) == x) {
                        let x = &t.expr;
                        self.note("`e?` written out as match, with the conversion of the error");
                        *e = parse_quote!((match #x { Ok(vx_o) => vx_o, Err(vx_o) => return Err(vx_o.into()) }));
                    }
                }
            }
            Expr::MethodCall(m) => {
                if let Some(rm) = self.opts.get("remap") {
                    for r in rm.split(',') { if let Some((a, b)) = r.split_once(':') { if m.method == a { m.method = format_ident!("{}", b); return; } } }
                }
                let n = m.method.to_string();
                if m.args.is_empty() && (n == "to_be_bytes" || n == "to_le_bytes") {
                    m.method = format_ident!("vx_{}", n);
                    self.note("integer from/to_le/be_bytes -> helpers with the byte-order contract");
                    // untyped literals cannot pick a trait method
                    return;
                }
                if n == "clone_from_slice" { m.method = format_ident!("copy_from_slice"); self.note("clone_from_slice of plain data -> copy_from_slice"); }
                if matches!(n.as_str(), "copy_from_slice" | "clone_from_slice" | "fill" | "swap") {
                    // v[a..] as a place, v: Vec: through as_mut_slice, whose contract Verus knows
                    if let Expr::Index(i) = strip(&m.receiver) {
                        if matches!(strip(&i.index), Expr::Range(_)) && self.ty_of(&i.expr).map_or(false, |t| ty_name(deref_ty(&t)) == "Vec") {
                            let (b, x) = (&i.expr, &i.index);
                            self.note("range place of a Vec -> range place of its as_mut_slice()");
                            m.receiver = parse_quote!(#b.as_mut_slice()[#x]);
                        }
                    }
                }
                if n == "to_owned" || n == "to_vec" {
                    let is_slice = matches!(strip(&m.receiver), Expr::Index(i) if matches!(strip(&i.index), Expr::Range(_)));
                    let is_ref = matches!(strip(&m.receiver), Expr::MethodCall(x) if x.method == "as_ref");
                    let known = self.ty_of(&m.receiver).map_or(false, |t| matches!(deref_ty(&t), Type::Slice(_) | Type::Array(_)));
                    let r = &m.receiver;
                    if is_slice { self.note("[T]::to_owned/to_vec -> vx_to_vec"); *e = parse_quote!(vx_to_vec(&#r)); return; }
                    if is_ref || known || n == "to_vec" { self.note("[T]::to_owned/to_vec -> vx_to_vec"); *e = parse_quote!(vx_to_vec(#r)); return; }
                }
                if n == "capacity" && m.args.is_empty() { let r = &m.receiver; self.note("Vec::capacity -> vx_capacity"); *e = parse_quote!(vx_capacity(&#r)); return; }
                if n == "collect" || n == "map" || n == "fold" || n == "filter" || n == "for_each" || n == "any" || n == "all" { if m.args.iter().any(|a| matches!(strip(a), Expr::Closure(_))) || n == "collect" { self.unsupported.push(format!("iterator chain .{n}(..)")); } }
            }
            Expr::Call(c) => {
                if let Expr::Path(p) = &mut *c.func {
                    let s = norm(&p.path);
                    if (s.starts_with("Vec::") && s.ends_with("::from_hex") || s == "hex::decode") && c.args.len() == 1 { self.note("hex crate: Vec::<u8>::from_hex -> vx_hex_decode (the crate's own code, extracted)"); c.func = parse_quote!(vx_hex_decode); return; }
                    if s == "Vec::with_capacity" { self.note("Vec::with_capacity -> vx_with_capacity (capacity at least the request)"); c.func = parse_quote!(vx_with_capacity); return; }
                }
            }
            Expr::Index(i) => {
                // newtypes with Deref<Target = [u8; 4]>
                if let Some(t) = self.ty_of(&i.expr) {
                    let t = self.resolve_self(deref_ty(&t));
                    if self.k.derefs.contains_key(&ty_name(&t)) {
                        let b = &i.expr;
                        i.expr = parse_quote!(#b.0);
                        self.note("auto-deref of the newtype written out as .0");
                    }
                }
            }
            Expr::Path(p) => {
                if p.qself.is_none() {
                    if let Some(id) = p.path.get_ident() {
                        let s = id.to_string();
                        if self.env.contains_key(&s) && s.chars().any(|c| c.is_lowercase()) { return; }
                        if let Some(f) = self.consts.get(&s) {
                            if !self.env.contains_key(&s) {
                                let f = format_ident!("{}", f);
                                self.note("constant tables -> zero-argument functions with a contract");
                                *e = parse_quote!(#f());
                                return;
                            }
                        }
                        if !self.env.contains_key(&s) && s.chars().next().unwrap().is_uppercase() && s.chars().all(|c| c.is_uppercase() || c == '_' || c.is_numeric()) {
                            if let Some((t, x)) = self.k.consts.get(&(self.file.clone(), s.clone())).cloned() {
                                let mut x = x;
                                self.note(&format!("constant {s} replaced by its defining expression"));
                                self.visit_expr_mut(&mut x);
                                let simple = UINTS.contains(&ty_name(&t).as_str());
                                *e = if simple { parse_quote!(((#x) as #t)) } else { let id = self.fresh("c"); parse_quote!({ let #id: #t = #x; #id }) };
                                return;
                            }
                        }
                    } else if p.path.segments.len() == 2 && p.path.segments[0].ident == "Self" {
                        let key = format!("{}::{}", self.self_ty.as_ref().map(ty_name).unwrap_or_default(), p.path.segments[1].ident);
                        if let Some((t, x)) = self.k.consts.get(&(self.file.clone(), key)).cloned() {
                            let mut x = x;
                            self.visit_expr_mut(&mut x);
                            *e = if UINTS.contains(&ty_name(&t).as_str()) { parse_quote!(((#x) as #t)) } else { parse_quote!((#x)) };
                        }
                    }
                }
            }
            Expr::Reference(r) => {
                if r.mutability.is_some() {
                    if let Expr::Index(i) = strip(&r.expr) {
                        if matches!(strip(&i.index), Expr::Range(_)) && self.ty_of(&i.expr).map_or(false, |t| ty_name(deref_ty(&t)) == "Vec") {
                            let (b, x) = (&i.expr, &i.index);
                            self.note("range place of a Vec -> range place of its as_mut_slice()");
                            *e = parse_quote!(&mut #b.as_mut_slice()[#x]);
                        }
                    }
                }
            }
            Expr::Binary(b) => {
                if !self.refvars.is_empty() && !matches!(b.op, BinOp::Eq(_) | BinOp::Lt(_) | BinOp::Le(_) | BinOp::Ne(_) | BinOp::Gt(_) | BinOp::Ge(_)) {
                    let mut hit = false;
                    for s in [&mut b.left, &mut b.right] {
                        if let Some(i) = path_ident(s) { if self.refvars.contains(&i) { let x = s.clone(); *s = parse_quote!((*#x)); hit = true; } }
                    }
                    if hit { self.notes.insert("operator on a reference to an integer: operand dereferenced".into()); }
                }
                // comparing with a unit variant of core::cmp::Ordering is matching on it
                if matches!(b.op, BinOp::Eq(_) | BinOp::Ne(_)) {
                    let ord = |x: &Expr| matches!(norm(x).replace("core::cmp::", "").replace("std::cmp::", "").replace("cmp::", "").as_str(), "Ordering::Less" | "Ordering::Equal" | "Ordering::Greater");
                    let neg = matches!(b.op, BinOp::Ne(_));
                    let pair = if ord(&b.right) { Some((b.left.clone(), b.right.clone())) } else if ord(&b.left) { Some((b.right.clone(), b.left.clone())) } else { None };
                    if let Some((x, Expr::Path(v))) = pair.map(|(x, v)| (x, *v)) {
                        let p = &v.path;
                        *e = if neg { parse_quote!((match #x { #p => false, _ => true })) } else { parse_quote!((match #x { #p => true, _ => false })) };
                        return;
                    }
                }
                if self.opts.contains_key("traitcmp") {
                    let (l, r) = (&b.left, &b.right);
                    match b.op {
                        BinOp::Lt(_) => *e = parse_quote!(vx_lt(&(#l), &(#r))),
                        BinOp::Le(_) => *e = parse_quote!(vx_le(&(#l), &(#r))),
                        BinOp::Gt(_) => *e = parse_quote!(vx_lt(&(#r), &(#l))),
                        BinOp::Ge(_) => *e = parse_quote!(vx_le(&(#r), &(#l))),
                        _ => {}
                    }
                }
                if self.opts.contains_key("traiteq") {
                    if let Expr::Binary(b) = e {
                        let (l, r) = (&b.left, &b.right);
                        match b.op {
                            BinOp::Eq(_) => *e = parse_quote!(vx_eq(&(#l), &(#r))),
                            BinOp::Ne(_) => *e = parse_quote!((!vx_eq(&(#l), &(#r)))),
                            _ => {}
                        }
                    }
                }
            }
            _ => {}
        }
    }
}

/// number of assignments to variable i in a loop body (a `continue` disqualifies)
fn mentions(t: proc_macro2::TokenStream, i: &str) -> bool {
    t.into_iter().any(|t| match t { proc_macro2::TokenTree::Ident(x) => x == i, proc_macro2::TokenTree::Group(g) => mentions(g.stream(), i), _ => false })
}
fn assigns(body: &Block, i: &str) -> usize {
    let mut n = 0;
    any_expr(body, &mut |e| {
        match e {
            Expr::Assign(a) if path_ident(&a.left).as_deref() == Some(i) => n += 1,
            Expr::Binary(a) if path_ident(&a.left).as_deref() == Some(i) && norm(&a.op).ends_with('=') && norm(&a.op).len() >= 2 && !matches!(a.op, BinOp::Eq(_) | BinOp::Ne(_) | BinOp::Le(_) | BinOp::Ge(_)) => n += 1,
            Expr::Continue(_) => n += 10,
            _ => {}
        }
        false
    });
    n
}

struct DerefOf { name: String }
impl VisitMut for DerefOf {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Unary(u) = e { if matches!(u.op, UnOp::Deref(_)) && path_ident(&u.expr).as_deref() == Some(&self.name) { let i = format_ident!("{}", self.name); *e = parse_quote!(#i); return; } }
        visit_mut::visit_expr_mut(self, e);
    }
}

impl<'a> VisitMut for Tx<'a> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let st = std::mem::take(&mut b.stmts);
        let mut out = vec![];
        for s in st { self.stmt(s, &mut out); }
        b.stmts = out;
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_) => {
                let mut out = vec![];
                let s = Stmt::Expr(e.clone(), None);
                self.stmt(s, &mut out);
                *e = parse_quote!({ #(#out)* });
                return;
            }
            Expr::Block(b) => { let at = std::mem::take(&mut b.attrs); let _ = at; self.visit_block_mut(&mut b.block); return; }
            Expr::Closure(_) => { visit_mut::visit_expr_mut(self, e); return; }
            Expr::If(i) => {
                // `if let Some(&x) = ..`
                if let Expr::Let(l) = &mut *i.cond {
                    let mut d = vec![];
                    deref_pat(&mut l.pat, &mut d);
                    if !d.is_empty() {
                        self.note("reference patterns `&x` replaced by an explicit dereference");
                        let mut st: Vec<Stmt> = d.iter().map(|i| parse_quote!(let #i = *#i;)).collect();
                        st.extend(i.then_branch.stmts.drain(..));
                        i.then_branch.stmts = st;
                    }
                }
            }
            _ => {}
        }
        if let Some(n) = self.pre(e) { *e = n; return; }
        if let Expr::Path(p) = e {
            if let (true, Some(f)) = (p.qself.is_none() && p.path.segments.len() == 2, self.consts.get(&norm(&p.path))) {
                let f = format_ident!("{}", f);
                self.note("constant tables -> zero-argument functions with a contract");
                *e = parse_quote!(#f());
                return;
            }
        }
        visit_mut::visit_expr_mut(self, e);
        self.post(e);
    }
    fn visit_path_mut(&mut self, p: &mut Path) {
        visit_mut::visit_path_mut(self, p);
        // drop module prefixes of the crate
        let first = p.segments.first().map(|s| s.ident.to_string()).unwrap_or_default();
        if matches!(first.as_str(), "std" | "core" | "alloc" | "Self" | "self") { return; }
        let n = p.segments.len();
        let mut drop = 0;
        while drop + 1 < n {
            let s = &p.segments[drop];
            let id = s.ident.to_string();
            if id.chars().next().map_or(false, |c| c.is_lowercase()) && s.arguments.is_empty() && !UINTS.contains(&id.as_str()) && !matches!(id.as_str(), "i8" | "i16" | "i32" | "i64" | "i128" | "isize" | "bool" | "char" | "str") { drop += 1; } else { break; }
        }
        if drop > 0 { p.segments = p.segments.iter().skip(drop).cloned().collect(); p.leading_colon = None; }
        if let Some(a) = p.segments.first().and_then(|s| self.aliases.get(&s.ident.to_string())) { let a = format_ident!("{}", a); p.segments.first_mut().unwrap().ident = a; }
    }
}
