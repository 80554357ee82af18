//! Unit files: Verus text plus `//%` directives that pull in code from /repo.
use std::collections::BTreeMap;

#[derive(Debug, Clone, Default)]
pub struct FnDir {
    pub file: String,
    pub key: String,
    pub opts: BTreeMap<String, String>,
    pub contract: String,
    pub marks: BTreeMap<String, String>, // "start", "end", "loop:0", "loop:0:start", "let:NAME:0"
    pub stub: bool,
    pub unit: String,
}
#[derive(Debug, Clone)]
pub enum Dir {
    Text(String),
    Struct { file: String, name: String, opts: BTreeMap<String, String> },
    Enum { file: String, name: String, opts: BTreeMap<String, String> },
    Type { file: String, name: String },
    Trait { file: String, name: String, extra: String, methods: BTreeMap<String, String> },
    Const(FnDir),
    Fn(FnDir),
}

/// split on spaces, but keep `<...>` / quoted parts together
fn words(s: &str) -> Vec<String> {
    let mut v = vec![];
    let mut cur = String::new();
    let mut q = false;
    let mut depth = 0;
    for c in s.trim().chars() {
        match c {
            '"' => q = !q,
            '<' if !q => { depth += 1; cur.push(c) }
            '>' if !q => { depth -= 1; cur.push(c) }
            ' ' if !q && depth == 0 => { if !cur.is_empty() { v.push(std::mem::take(&mut cur)) } }
            c => cur.push(c),
        }
    }
    if !cur.is_empty() { v.push(cur) }
    v
}
fn opts(ws: &[String]) -> BTreeMap<String, String> {
    ws.iter().map(|w| match w.split_once('=') { Some((a, b)) => (a.to_string(), b.to_string()), None => (w.clone(), "1".into()) }).collect()
}

pub fn load(dir: &str, name: &str, stub: bool, seen: &mut Vec<String>, out: &mut Vec<Dir>) -> Result<(), String> {
    if seen.iter().any(|s| s == name) { return Ok(()); }
    seen.push(name.to_string());
    let path = format!("{dir}/{name}.vu");
    let text = std::fs::read_to_string(&path).map_err(|e| format!("{path}: {e}"))?;
    let mut lines = text.lines().peekable();
    let mut buf = String::new();
    macro_rules! flush { () => { if !buf.trim().is_empty() { out.push(Dir::Text(std::mem::take(&mut buf))); } buf.clear(); } }
    while let Some(l) = lines.next() {
        let t = l.trim_start();
        if !t.starts_with("//%") { buf.push_str(l); buf.push('\n'); continue; }
        let w = words(&t[3..]);
        if w.is_empty() { continue; }
        match w[0].as_str() {
            "use" => {
                flush!();
                let st = stub || w.get(2).map_or(false, |x| x == "stub");
                load(dir, &w[1], st, seen, out)?;
            }
            "struct" => { flush!(); out.push(Dir::Struct { file: w[1].clone(), name: w[2].clone(), opts: opts(&w[3..]) }) }
            "enum" => { flush!(); out.push(Dir::Enum { file: w[1].clone(), name: w[2].clone(), opts: opts(&w[3..]) }) }
            "type" => { flush!(); out.push(Dir::Type { file: w[1].clone(), name: w[2].clone() }) }
            "trait" => {
                flush!();
                let mut extra = String::new();
                let mut methods: BTreeMap<String, String> = BTreeMap::new();
                let mut cur: Option<String> = None;
                for l in lines.by_ref() {
                    let t = l.trim_start();
                    if t.starts_with("//%") {
                        let w2 = words(&t[3..]);
                        if w2[0] == "end" { break; }
                        if w2[0] == "method" { cur = Some(w2[1].clone()); methods.insert(w2[1].clone(), String::new()); continue; }
                        return Err(format!("{path}: bad directive in trait: {l}"));
                    }
                    match &cur { None => { extra.push_str(l); extra.push('\n') } Some(c) => { let e = methods.get_mut(c).unwrap(); e.push_str(l); e.push('\n') } }
                }
                out.push(Dir::Trait { file: w[1].clone(), name: w[2].clone(), extra, methods });
            }
            "fn" | "const" => {
                flush!();
                let mut f = FnDir { file: w[1].clone(), key: w[2].clone(), opts: opts(&w[3..]), stub, unit: name.to_string(), ..Default::default() };
                let mut cur = String::new();
                let mut done = false;
                for l in lines.by_ref() {
                    let t = l.trim_start();
                    if t.starts_with("//%") {
                        let w2 = words(&t[3..]);
                        if w2.is_empty() { continue; }
                        match w2[0].as_str() {
                            "end" if w2.len() == 1 => { done = true; break; }
                            "at" => { cur = w2[1..].join(":"); f.marks.entry(cur.clone()).or_default(); continue; }
                            _ => return Err(format!("{path}: bad directive in fn {}: {l}", f.key)),
                        }
                    }
                    let b = if cur.is_empty() { &mut f.contract } else { f.marks.get_mut(&cur).unwrap() };
                    b.push_str(l);
                    b.push('\n');
                }
                if !done { return Err(format!("{path}: fn {} has no //% end", f.key)); }
                if f.opts.contains_key("stub") { f.stub = true; }
                out.push(if w[0] == "fn" { Dir::Fn(f) } else { Dir::Const(f) });
            }
            x => return Err(format!("{path}: unknown directive {x}")),
        }
    }
    flush!();
    Ok(())
}
