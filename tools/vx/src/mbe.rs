//! Expands item-position invocations of `macro_rules!` macros (macros by example), so that functions written by a macro can be extracted.
use proc_macro2::{Delimiter, Group, TokenStream, TokenTree};
use quote::ToTokens;
use std::collections::BTreeMap;
use syn::parse::Parser;
use syn::*;

#[derive(Clone, Debug)]
enum B { One(TokenStream), Many(Vec<BTreeMap<String, B>>) }
type Env = BTreeMap<String, B>;

pub struct Macro { arms: Vec<(TokenStream, TokenStream)> }

fn tts(s: &TokenStream) -> Vec<TokenTree> { s.clone().into_iter().collect() }
fn punct(t: Option<&TokenTree>, c: char) -> bool { matches!(t, Some(TokenTree::Punct(p)) if p.as_char() == c) }

impl Macro {
    pub fn parse(ts: &TokenStream) -> Option<Macro> {
        let v = tts(ts);
        let (mut i, mut arms) = (0, vec![]);
        while i < v.len() {
            let TokenTree::Group(p) = &v[i] else { return None };
            if !punct(v.get(i + 1), '=') || !punct(v.get(i + 2), '>') { return None; }
            let TokenTree::Group(b) = v.get(i + 3)? else { return None };
            arms.push((p.stream(), b.stream()));
            i += 4;
            if punct(v.get(i), ';') { i += 1; }
        }
        Some(Macro { arms })
    }
    pub fn expand(&self, input: &TokenStream) -> Option<TokenStream> {
        for (p, b) in &self.arms {
            let mut env = Env::new();
            if let Some(rest) = matches(&tts(p), &tts(input), &mut env) { if rest.is_empty() { return subst(&tts(b), &env); } }
        }
        None
    }
}

fn frag(kind: &str, input: &[TokenTree]) -> Option<(TokenStream, Vec<TokenTree>)> {
    let ts: TokenStream = input.iter().cloned().collect();
    fn p<T: parse::Parse + ToTokens>(ts: TokenStream) -> Option<(TokenStream, Vec<TokenTree>)> {
        (|i: parse::ParseStream| -> Result<(TokenStream, Vec<TokenTree>)> { let t: T = i.parse()?; let r: TokenStream = i.parse()?; Ok((t.to_token_stream(), r.into_iter().collect())) }).parse2(ts).ok()
    }
    match kind {
        "ident" => p::<Ident>(ts),
        "ty" => p::<Type>(ts),
        "expr" => p::<Expr>(ts).map(|(t, r)| (TokenStream::from(TokenTree::Group(Group::new(Delimiter::Parenthesis, t))), r)),
        "literal" => p::<Lit>(ts),
        "path" => p::<Path>(ts),
        "block" => p::<Block>(ts),
        "lifetime" => p::<Lifetime>(ts),
        "tt" => { let t = input.first()?.clone(); Some((t.into(), input[1..].to_vec())) }
        _ => None,
    }
}

/// matches a prefix of `input`; the rest is returned
fn matches(pat: &[TokenTree], input: &[TokenTree], env: &mut Env) -> Option<Vec<TokenTree>> {
    let mut inp = input.to_vec();
    let mut i = 0;
    while i < pat.len() {
        if punct(pat.get(i), '$') {
            match pat.get(i + 1)? {
                TokenTree::Ident(n) => {
                    let TokenTree::Ident(k) = pat.get(i + 3)? else { return None };
                    let (t, r) = frag(&k.to_string(), &inp)?;
                    env.insert(n.to_string(), B::One(t));
                    inp = r;
                    i += 4;
                    continue;
                }
                TokenTree::Group(g) => {
                    let (mut sep, mut j) = (None, i + 2);
                    if !(punct(pat.get(j), '*') || punct(pat.get(j), '+') || punct(pat.get(j), '?')) { sep = pat.get(j).cloned(); j += 1; }
                    let inner = tts(&g.stream());
                    let mut many = vec![];
                    loop {
                        let mut e = Env::new();
                        if inp.is_empty() { break; }
                        let Some(r) = matches(&inner, &inp, &mut e) else { break };
                        if r.len() == inp.len() { break; }
                        inp = r;
                        many.push(e);
                        if let Some(s) = &sep {
                            if inp.first().map(|t| t.to_string()) == Some(s.to_string()) && inp.len() > 1 { inp.remove(0); } else { break; }
                        }
                    }
                    for n in vars(&inner) { env.insert(n.clone(), B::Many(many.iter().map(|e| e.iter().filter(|(k, _)| **k == n).map(|(k, v)| (k.clone(), v.clone())).collect()).collect())); }
                    i = j + 1;
                    continue;
                }
                _ => return None,
            }
        }
        match (&pat[i], inp.first()?) {
            (TokenTree::Group(a), TokenTree::Group(b)) if a.delimiter() == b.delimiter() => {
                let r = matches(&tts(&a.stream()), &tts(&b.stream()), env)?;
                if !r.is_empty() { return None; }
            }
            (a, b) if a.to_string() == b.to_string() => {}
            _ => return None,
        }
        inp.remove(0);
        i += 1;
    }
    Some(inp)
}
fn vars(pat: &[TokenTree]) -> Vec<String> {
    let mut o = vec![];
    for (i, t) in pat.iter().enumerate() {
        if let TokenTree::Ident(n) = t { if i > 0 && punct(pat.get(i - 1), '$') { o.push(n.to_string()); } }
        if let TokenTree::Group(g) = t { o.extend(vars(&tts(&g.stream()))); }
    }
    o
}

fn subst(body: &[TokenTree], env: &Env) -> Option<TokenStream> {
    let mut out = TokenStream::new();
    let mut i = 0;
    while i < body.len() {
        if punct(body.get(i), '$') {
            match body.get(i + 1)? {
                TokenTree::Ident(n) if n == "crate" => { out.extend([TokenTree::Ident(n.clone())]); i += 2; continue; }
                TokenTree::Ident(n) => {
                    match env.get(&n.to_string())? { B::One(t) => out.extend(t.clone()), B::Many(_) => return None }
                    i += 2;
                    continue;
                }
                TokenTree::Group(g) => {
                    let (mut sep, mut j) = (None, i + 2);
                    if !(punct(body.get(j), '*') || punct(body.get(j), '+') || punct(body.get(j), '?')) { sep = body.get(j).cloned(); j += 1; }
                    let inner = tts(&g.stream());
                    let vs = vars(&inner);
                    let n = vs.iter().filter_map(|v| match env.get(v) { Some(B::Many(m)) => Some(m.len()), _ => None }).max()?;
                    for k in 0..n {
                        let mut e = env.clone();
                        for v in &vs { if let Some(B::Many(m)) = env.get(v) { e.extend(m.get(k)?.clone()); } }
                        if k > 0 { if let Some(s) = &sep { out.extend([s.clone()]); } }
                        out.extend(subst(&inner, &e)?);
                    }
                    i = j + 1;
                    continue;
                }
                _ => return None,
            }
        }
        match &body[i] {
            TokenTree::Group(g) => { let mut h = Group::new(g.delimiter(), subst(&tts(&g.stream()), env)?); h.set_span(g.span()); out.extend([TokenTree::Group(h)]); }
            t => out.extend([t.clone()]),
        }
        i += 1;
    }
    Some(out)
}
