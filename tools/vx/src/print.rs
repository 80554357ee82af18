//! Token printer: one statement per line; replaces vx_mark!/vx_inv! markers by annotation text.
use proc_macro2::*;

pub struct Printer<'a> {
    pub out: String,
    ind: usize,
    bol: bool,
    pub resolve: &'a dyn Fn(&str) -> String,
}

impl<'a> Printer<'a> {
    pub fn new(resolve: &'a dyn Fn(&str) -> String) -> Self { Printer { out: String::new(), ind: 0, bol: true, resolve } }
    fn nl(&mut self) { if !self.bol { self.out.push('\n'); self.bol = true; } }
    fn tok(&mut self, s: &str, space: bool) {
        if self.bol { for _ in 0..self.ind { self.out.push_str("    "); } self.bol = false; }
        else if space { self.out.push(' '); }
        self.out.push_str(s);
    }
    fn raw(&mut self, s: &str) {
        if s.trim().is_empty() { return; }
        self.nl();
        self.out.push_str(s.trim_end());
        self.out.push('\n');
        self.bol = true;
    }
    pub fn stream(&mut self, ts: TokenStream, in_paren: bool) {
        let v: Vec<TokenTree> = ts.into_iter().collect();
        let mut i = 0;
        let mut glue = true; // no space before the next token
        while i < v.len() {
            if let TokenTree::Ident(id) = &v[i] {
                if (id == "vx_mark" || id == "vx_inv") && i + 2 < v.len() {
                    if let TokenTree::Group(g) = &v[i + 2] {
                        let lit = g.stream().to_string();
                        let lit = lit.trim().trim_matches('"').to_string();
                        let t = (self.resolve)(&lit);
                        self.raw(&t);
                        i += 3;
                        if i < v.len() { if let TokenTree::Punct(p) = &v[i] { if p.as_char() == ';' { i += 1; } } }
                        glue = true;
                        continue;
                    }
                }
            }
            match &v[i] {
                TokenTree::Group(g) => {
                    match g.delimiter() {
                        Delimiter::Brace => {
                            // loop invariant marker as the first statement
                            let mut inner: Vec<TokenTree> = g.stream().into_iter().collect();
                            let mut is_inv = false;
                            if inner.len() >= 3 { if let TokenTree::Ident(id) = &inner[0] { is_inv = id == "vx_inv"; } }
                            if is_inv {
                                let lit = if let TokenTree::Group(g) = &inner[2] { g.stream().to_string() } else { String::new() };
                                let t = (self.resolve)(lit.trim().trim_matches('"'));
                                self.raw(&t);
                                let drop = if inner.len() > 3 && matches!(&inner[3], TokenTree::Punct(p) if p.as_char()==';') { 4 } else { 3 };
                                inner.drain(..drop);
                            }
                            self.tok("{", !glue);
                            if inner.is_empty() { self.tok("}", false); glue = false; }
                            else {
                                self.ind += 1; self.nl();
                                self.stream(inner.into_iter().collect(), false);
                                self.ind -= 1; self.nl();
                                self.tok("}", false);
                                glue = false;
                                let next_cont = match v.get(i + 1) {
                                    Some(TokenTree::Punct(p)) => p.as_char() != '*' && p.as_char() != '&' || in_paren,
                                    Some(TokenTree::Ident(id)) => id == "else" || in_paren,
                                    Some(TokenTree::Group(_)) => in_paren,
                                    None => true,
                                    _ => in_paren,
                                };
                                if !next_cont { self.nl(); glue = true; }
                            }
                        }
                        Delimiter::Parenthesis => { self.tok("(", false || !glue && needs_space(v.get(i.wrapping_sub(1)))); self.stream(g.stream(), true); self.tok(")", false); glue = false; }
                        Delimiter::Bracket => { self.tok("[", false || !glue && needs_space(v.get(i.wrapping_sub(1)))); self.stream(g.stream(), true); self.tok("]", false); glue = false; }
                        Delimiter::None => { self.stream(g.stream(), in_paren); glue = false; }
                    }
                }
                TokenTree::Punct(p) => {
                    let c = p.as_char();
                    let sp = !glue && !matches!(c, ';' | ',' | '.');
                    self.tok(&c.to_string(), sp);
                    glue = p.spacing() == Spacing::Joint || c == '.' || c == '\'';
                    if c == ';' && !in_paren { self.nl(); glue = true; }
                    if c == '.' { glue = true; }
                }
                t => { self.tok(&t.to_string(), !glue); glue = false; }
            }
            i += 1;
        }
    }
}
fn needs_space(prev: Option<&TokenTree>) -> bool {
    match prev { Some(TokenTree::Ident(id)) => matches!(id.to_string().as_str(), "if" | "in" | "return" | "match" | "while" | "let" | "mut" | "else"), Some(TokenTree::Group(_)) => false, Some(_) => true, None => false }
}

pub fn print(ts: TokenStream, resolve: &dyn Fn(&str) -> String) -> String {
    let mut p = Printer::new(resolve);
    p.stream(ts, false);
    p.nl();
    p.out
}
