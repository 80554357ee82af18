//! Index of every non-test item of /repo's crate, parsed from the working tree.
use proc_macro2::Span;
use quote::ToTokens;
use std::collections::BTreeMap;
use syn::*;

#[derive(Clone)]
pub struct FnDef {
    pub file: String,
    pub key: String,
    pub name: String,
    pub line: usize,
    pub sig: Signature,
    pub block: Option<Block>,
    pub impl_generics: Generics,
    pub self_ty: Option<Type>,
    pub trait_: Option<Path>,
    pub assoc: Vec<ImplItemType>,
}

#[derive(Default)]
pub struct Krate {
    pub fns: Vec<FnDef>,
    pub structs: BTreeMap<(String, String), ItemStruct>,
    pub enums: BTreeMap<(String, String), ItemEnum>,
    pub types: BTreeMap<(String, String), ItemType>,
    pub consts: BTreeMap<(String, String), (Type, Expr)>,
    pub traits: BTreeMap<(String, String), ItemTrait>,
    pub macros: BTreeMap<String, crate::mbe::Macro>,
    pub loaded: std::collections::BTreeSet<String>,
    pub derefs: BTreeMap<String, Type>, // newtypes with `impl Deref`, by name -> target
}

pub fn norm(t: &impl ToTokens) -> String {
    t.to_token_stream().to_string().chars().filter(|c| !c.is_whitespace()).collect::<String>()
        .replace("crate::", "").replace("super::", "").replace("dyn", "dyn ")
}
pub fn line_of(s: Span) -> usize { s.start().line }

fn is_test(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| {
        let s = norm(&a.meta);
        s == "test" || (s.starts_with("cfg(") && s.contains("test") && !s.contains("not(test"))
            || s.contains("cfg(kani") || s.contains("cfg(fuzzing")
    })
}

/// last path segment without generic arguments
pub fn ty_name(t: &Type) -> String {
    match t {
        Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default(),
        Type::Reference(r) => ty_name(&r.elem),
        Type::Paren(p) => ty_name(&p.elem),
        Type::Group(p) => ty_name(&p.elem),
        _ => norm(t),
    }
}
/// like norm(), but every path reduced to its last segment
fn short(t: &impl ToTokens) -> String {
    let s = norm(t);
    let mut out = String::new();
    let mut word = String::new();
    let cs: Vec<char> = s.chars().collect();
    let mut i = 0;
    while i < cs.len() {
        let c = cs[i];
        if c.is_alphanumeric() || c == '_' {
            word.push(c);
        } else if c == ':' && i + 1 < cs.len() && cs[i + 1] == ':' {
            if i + 2 < cs.len() && cs[i + 2] == '<' { /* turbofish in type: drop */ out.push_str(&word); }
            word.clear();
            i += 1;
        } else {
            out.push_str(&word);
            word.clear();
            out.push(c);
        }
        i += 1;
    }
    out.push_str(&word);
    out
}

impl Krate {
    pub fn load(repo: &str) -> std::result::Result<(Krate, Vec<String>), String> {
        let mut k = Krate::default();
        let mut errs = vec![];
        let mut files = vec![];
        fn walk(d: &std::path::Path, out: &mut Vec<std::path::PathBuf>) {
            if let Ok(rd) = std::fs::read_dir(d) {
                let mut v: Vec<_> = rd.filter_map(|e| e.ok()).map(|e| e.path()).collect();
                v.sort();
                for p in v {
                    if p.is_dir() { walk(&p, out) } else if p.extension().map_or(false, |e| e == "rs") { out.push(p) }
                }
            }
        }
        walk(&std::path::Path::new(repo).join("src"), &mut files);
        for p in files {
            let rel = p.strip_prefix(repo).unwrap().to_string_lossy().to_string();
            let text = std::fs::read_to_string(&p).map_err(|e| e.to_string())?;
            match parse_file(&text) {
                Ok(f) => k.add_items(&rel, &f.items),
                Err(e) => errs.push(format!("{rel}: {e}")),
            }
        }
        let odd: Vec<String> = k.fns.iter().filter(|f| f.name == "deref_mut" && f.block.as_ref().map_or(true, |b| norm(b) != "{&mutself.0}")).filter_map(|f| f.self_ty.as_ref().map(ty_name)).collect();
        for o in odd { k.derefs.remove(&o); }
        Ok((k, errs))
    }

    /// source of a dependency: `CRATE:src/...` names a file of the crate version in Cargo.lock, from cargo's registry
    pub fn load_dep(&mut self, repo: &str, file: &str) -> std::result::Result<(), String> {
        let (c, rel) = file.split_once(':').ok_or("not a dependency")?;
        if self.loaded.contains(file) { return Ok(()); }
        let lock = std::fs::read_to_string(format!("{repo}/Cargo.lock")).map_err(|e| e.to_string())?;
        let ver = lock.split("[[package]]").find(|p| p.lines().any(|l| l.trim() == format!("name = \"{c}\""))).and_then(|p| p.lines().find_map(|l| l.trim().strip_prefix("version = \"").map(|x| x.trim_end_matches('"').to_string()))).ok_or(format!("{c} is not in Cargo.lock"))?;
        let home = std::env::var("CARGO_HOME").unwrap_or_else(|_| format!("{}/.cargo", std::env::var("HOME").unwrap_or("/root".into())));
        for d in std::fs::read_dir(format!("{home}/registry/src")).map_err(|e| e.to_string())?.filter_map(|e| e.ok()) {
            let p = d.path().join(format!("{c}-{ver}")).join(rel);
            if let Ok(text) = std::fs::read_to_string(&p) {
                let f = parse_file(&text).map_err(|e| e.to_string())?;
                self.add_items(file, &f.items);
                self.loaded.insert(file.to_string());
                return Ok(());
            }
        }
        Err(format!("source of {c} {ver} not found in cargo's registry"))
    }

    fn add_items(&mut self, file: &str, items: &[Item]) {
        for it in items {
            if let Item::Macro(m) = it { if let Some(i) = &m.ident { if let Some(x) = crate::mbe::Macro::parse(&m.mac.tokens) { self.macros.insert(i.to_string(), x); } } }
        }
        for it in items {
            match it {
                Item::Macro(m) if m.ident.is_none() && !is_test(&m.attrs) => {
                    let n = m.mac.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default();
                    if let Some(x) = self.macros.get(&n).and_then(|x| x.expand(&m.mac.tokens)) {
                        if let Ok(f) = parse2::<File>(x) { self.add_items(file, &f.items); }
                    }
                }
                Item::Mod(m) if !is_test(&m.attrs) => {
                    if let Some((_, items)) = &m.content { self.add_items(file, items) }
                }
                Item::Fn(f) if !is_test(&f.attrs) => self.fns.push(FnDef {
                    file: file.into(), key: f.sig.ident.to_string(), name: f.sig.ident.to_string(),
                    line: line_of(f.sig.ident.span()), sig: f.sig.clone(), block: Some((*f.block).clone()),
                    impl_generics: Generics::default(), self_ty: None, trait_: None, assoc: vec![],
                }),
                Item::Impl(im) if !is_test(&im.attrs) => {
                    let tyn = ty_name(&im.self_ty);
                    let tr = im.trait_.as_ref().map(|(_, p, _)| p.clone());
                    if let Some(t) = &tr {
                        if t.segments.last().unwrap().ident == "Deref" {
                            // only the plain newtype deref; DerefMut must go to the same field (rustc fixes its type)
                            let plain = im.items.iter().all(|x| match x { ImplItem::Fn(f) => norm(&f.block) == "{&self.0}", _ => true });
                            for x in &im.items {
                                if let (true, ImplItem::Type(t)) = (plain, x) { self.derefs.insert(tyn.clone(), t.ty.clone()); }
                            }
                        }
                    }
                    let assoc: Vec<_> = im.items.iter().filter_map(|x| if let ImplItem::Type(t) = x { Some(t.clone()) } else { None }).collect();
                    for x in &im.items {
                        match x {
                            ImplItem::Fn(f) if !is_test(&f.attrs) => {
                                let key = match &tr {
                                    None => format!("{}::{}", tyn, f.sig.ident),
                                    Some(t) => format!("<{} as {}>::{}", short(&im.self_ty), short(t), f.sig.ident),
                                };
                                self.fns.push(FnDef {
                                    file: file.into(), key, name: f.sig.ident.to_string(), line: line_of(f.sig.ident.span()),
                                    sig: f.sig.clone(), block: Some(f.block.clone()), impl_generics: im.generics.clone(),
                                    self_ty: Some((*im.self_ty).clone()), trait_: tr.clone(), assoc: assoc.clone(),
                                });
                            }
                            ImplItem::Const(c) => { self.consts.insert((file.into(), format!("{}::{}", tyn, c.ident)), (c.ty.clone(), c.expr.clone())); }
                            _ => {}
                        }
                    }
                }
                Item::Struct(s) => { self.structs.insert((file.into(), s.ident.to_string()), s.clone()); }
                Item::Enum(s) => { self.enums.insert((file.into(), s.ident.to_string()), s.clone()); }
                Item::Type(s) => { self.types.insert((file.into(), s.ident.to_string()), s.clone()); }
                Item::Trait(s) => {
                    // dependencies: provided methods, for one implementor (inst=Self:TYPE)
                    if file.contains(':') {
                        for x in &s.items {
                            if let TraitItem::Fn(f) = x { if let Some(b) = &f.default {
                                let key = format!("{}::{}", s.ident, f.sig.ident);
                                let block = self.nested(file, &key, b.clone());
                                self.fns.push(FnDef {
                                    file: file.into(), key, name: f.sig.ident.to_string(), line: line_of(f.sig.ident.span()), sig: f.sig.clone(), block: Some(block),
                                    impl_generics: Generics::default(), self_ty: Some(parse_quote!(Self)), trait_: None, assoc: vec![],
                                });
                            } }
                        }
                    }
                    self.traits.insert((file.into(), s.ident.to_string()), s.clone());
                }
                Item::Const(c) => {
                    if let Some(m) = file.split_once(':').map(|x| x.1.trim_end_matches("/mod.rs").trim_end_matches(".rs").rsplit('/').next().unwrap()) { self.consts.insert((file.into(), format!("{m}::{}", c.ident)), ((*c.ty).clone(), (*c.expr).clone())); }
                    self.consts.insert((file.into(), c.ident.to_string()), ((*c.ty).clone(), (*c.expr).clone())); }
                Item::Static(c) => { self.consts.insert((file.into(), c.ident.to_string()), ((*c.ty).clone(), (*c.expr).clone())); }
                _ => {}
            }
        }
    }

    /// functions declared inside a function body become functions of their own, `OUTER::inner`
    fn nested(&mut self, file: &str, key: &str, mut b: Block) -> Block {
        b.stmts.retain(|s| {
            if let Stmt::Item(Item::Fn(f)) = s {
                self.fns.push(FnDef {
                    file: file.into(), key: format!("{key}::{}", f.sig.ident), name: f.sig.ident.to_string(), line: line_of(f.sig.ident.span()), sig: f.sig.clone(),
                    block: Some((*f.block).clone()), impl_generics: Generics::default(), self_ty: None, trait_: None, assoc: vec![],
                });
                return false;
            }
            true
        });
        b
    }

    pub fn find_fn(&self, file: &str, key: &str) -> Option<&FnDef> {
        let v: Vec<_> = self.fns.iter().filter(|f| f.file == file && f.key == key).collect();
        if v.len() == 1 { return Some(v[0]); }
        if v.len() > 1 { return None; }
        let v: Vec<_> = self.fns.iter().filter(|f| f.key == key).collect();
        if v.len() == 1 { Some(v[0]) } else { None }
    }
}

pub fn find<'a, T>(m: &'a BTreeMap<(String, String), T>, file: &str, name: &str) -> Option<&'a T> {
    if let Some(x) = m.get(&(file.to_string(), name.to_string())) { return Some(x); }
    let v: Vec<_> = m.iter().filter(|((_, n), _)| n == name).collect();
    if v.len() == 1 { Some(v[0].1) } else { None }
}
