//! probe PROP --seed N --secs S [--deep] [--out FILE] | probe replay FILE
mod data;
mod inputs;
mod oracle;
mod props;
use props::*;
use std::collections::HashSet;
use std::sync::{atomic::*, Arc, Mutex};
use std::time::{Duration, Instant};

fn show(p: &str, c: &Case) -> String { let mut s = format!("{p} {}", c.kind); for f in &c.f { s.push(' '); s.push_str(&if f.is_empty() { "-".into() } else { hex::encode(f) }); } s }
fn short(s: String) -> String { if s.len() > 300 { format!("{}...({} chars)", &s[..300], s.len()) } else { s } }
fn esc(s: &str) -> String { s.chars().flat_map(|c| match c { '"' => vec!['\\', '"'], '\\' => vec!['\\', '\\'], c if (c as u32) < 32 || c as u32 > 126 => format!("\\u{:04x}", (c as u32).min(0xffff)).chars().collect(), c => vec![c] }).collect() }

/// a judge may index beyond a shrunk field: such variants are not cases
fn valid(prop: &str, c: &Case, orig: &Case) -> bool {
    if c.f.len() != orig.f.len() { return false; }
    let same = |i: usize| c.f[i].len() == orig.f[i].len();
    match (prop, c.kind.as_str()) {
        ("C01" | "C02", _) => same(0) && same(1),
        ("C03", _) => !c.f[0].is_empty() && c.f[1].len() == 8 && (1..=1024).contains(&c.f[1].iter().fold(0u64, |a, x| a << 8 | *x as u64)) && same(2),
        ("C04", _) => same(1) && same(2),
        ("C05", "rc4") => !c.f[0].is_empty(),
        ("C05", _) => c.f[0].len() >= c.f[1].len(),
        ("C06", k) => c.f[0] == orig.f[0] && (!k.ends_with("_un") || same(1)),
        ("C07", "real") => same(0) && same(2), ("C07", _) => c.f[0] == orig.f[0] && same(2),
        ("C08" | "C09" | "C10" | "C11", "fill") => same(0) && same(1) && same(2),
        ("C12", "words") => same(0),
        ("C13", "add8" | "shl" | "shr") => same(1), ("C14", "upd") => same(1) && same(2),
        ("C16", _) => c.f[0] == orig.f[0] && c.f[1] == orig.f[1],
        ("C17", "enc") => c.f[2] == orig.f[2], ("C17", "dec") => c.f[2] == orig.f[2], ("C17", _) => same(1) && c.f[2] == orig.f[2] && same(3) && same(4),
        ("C18", "id") => same(0),
        ("C18", _) => c.f[0] == orig.f[0] && same(2),
        ("C20", _) => c.f[0] == orig.f[0],
        ("C21", "enc") => { let l = String::from_utf8_lossy(&c.f[0]).to_string(); !l.contains('\n') }
        _ => true,
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let get = |n: &str| a.iter().position(|x| x == n).and_then(|i| a.get(i + 1)).cloned();
    std::panic::set_hook(Box::new(|_| {}));
    if a[1] == "replay" {
        let t = std::fs::read_to_string(&a[2]).expect("replay file");
        let l = t.lines().find(|l| l.starts_with("case: ")).expect("no case line");
        let w: Vec<&str> = l[6..].split(' ').collect();
        let c = case(w[1], w[2..].iter().map(|x| if *x == "-" { vec![] } else { hex::decode(x).unwrap() }).collect());
        match judge(w[0], &c) { Ok(()) => println!("holds: {}", short(show(w[0], &c))), Err(e) => { println!("fails: {}\n  {e}", short(show(w[0], &c))); std::process::exit(1) } }
        return;
    }
    if a[1] == "oracle" { // oracle HASH HEX, for validation against other implementations
        let m = hex::decode(a.get(3).map(|s| s.as_str()).unwrap_or("")).unwrap();
        println!("{}", hex::encode(match a[2].as_str() { "md2" => oracle::o_md2(&m), "md4" => oracle::o_md4(&m), "md5" => oracle::o_md5(&m), "sha1" => oracle::o_sha1(&m), s => sha2o().hash(s[3..].parse().unwrap(), &m) }));
        return;
    }
    let prop: &'static str = Box::leak(a[1].clone().into_boxed_str());
    let seed: u64 = get("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let secs: f64 = get("--secs").and_then(|s| s.parse().ok()).unwrap_or(5.0);
    let threads: usize = get("--threads").and_then(|s| s.parse().ok()).unwrap_or(8);
    let deep = a.iter().any(|x| x == "--deep");
    let dict: &'static inputs::Dict = Box::leak(Box::new(inputs::Dict::load(&get("--src").unwrap_or("/repo/src".into()))));
    let fixed = Arc::new(fixed(prop, deep));
    let (next, evals, distinct, stop) = (Arc::new(AtomicUsize::new(0)), Arc::new(AtomicUsize::new(0)), Arc::new(AtomicUsize::new(0)), Arc::new(AtomicBool::new(false)));
    let bad: Arc<Mutex<Option<(Case, String)>>> = Arc::new(Mutex::new(None));
    let samples: Arc<Mutex<Vec<String>>> = Arc::new(Mutex::new(vec![]));
    let current: Arc<Vec<Mutex<Option<(Case, Instant)>>>> = Arc::new((0..threads).map(|_| Mutex::new(None)).collect());
    let t0 = Instant::now();
    let mut hs = vec![];
    for th in 0..threads {
        let (fixed, next, evals, distinct, stop, bad, samples, current) = (fixed.clone(), next.clone(), evals.clone(), distinct.clone(), stop.clone(), bad.clone(), samples.clone(), current.clone());
        hs.push(std::thread::Builder::new().stack_size(64 << 20).spawn(move || {
            let mut seen: HashSet<u64> = HashSet::new();
            let mut g = inputs::Gen { r: inputs::Rng::new(seed.wrapping_mul(1000).wrapping_add(th as u64)), d: dict };
            let mut n = 0usize;
            loop {
                if stop.load(Ordering::Relaxed) { break; }
                let i = next.fetch_add(1, Ordering::Relaxed);
                let c = if i < fixed.len() { fixed[i].clone() } else { if t0.elapsed().as_secs_f64() > secs { break; } random(prop, &mut g) };
                *current[th].lock().unwrap() = Some((c.clone(), Instant::now()));
                let r = judge(prop, &c);
                *current[th].lock().unwrap() = None;
                evals.fetch_add(1, Ordering::Relaxed);
                if nontrivial(&c) { use std::hash::*; let mut h = std::collections::hash_map::DefaultHasher::new(); c.hash(&mut h); if seen.len() < 2_000_000 && seen.insert(h.finish()) { distinct.fetch_add(1, Ordering::Relaxed); } }
                n += 1;
                if n % 997 == 7 { let mut s = samples.lock().unwrap(); if s.len() < 6 { s.push(short(show(prop, &c))); } }
                if let Err(e) = r {
                    let (mut c, mut e) = (c, e);
                    let ts = Instant::now();
                    'o: while ts.elapsed() < Duration::from_secs(10) {
                        for d in shrink(&c) { if valid(prop, &d, &c) { if let Err(x) = judge(prop, &d) { if !x.starts_with("probe") { c = d; e = x; continue 'o; } } } if ts.elapsed() > Duration::from_secs(10) { break 'o; } }
                        break;
                    }
                    let mut b = bad.lock().unwrap();
                    if b.is_none() { *b = Some((c, e)); }
                    stop.store(true, Ordering::Relaxed);
                    break;
                }
            }
        }).unwrap());
    }
    // watchdog: a single case must terminate
    loop {
        std::thread::sleep(Duration::from_millis(20));
        if hs.iter().all(|h| h.is_finished()) { break; }
        let mut slow = false;
        for m in current.iter() { let x = m.lock().unwrap().clone(); if let Some((c, t)) = x { if t.elapsed() > Duration::from_secs(120) {
            // only a small input that takes this long is held against the code
            if c.f.iter().map(|x| x.len()).sum::<usize>() > 4096 || c.kind == "fill" || c.f.iter().any(|x| x.len() == 8 && x.iter().fold(0u64, |a, b| a << 8 | *b as u64) > 60000 && x[..4] == [0; 4]) { slow = true; continue; } let mut b = bad.lock().unwrap(); if b.is_none() { *b = Some((c, "did not terminate within 120 s".into())); } } } }
        if slow || bad.lock().unwrap().as_ref().is_some_and(|b| b.1.starts_with("did not terminate")) { break; }
    }
    let b = bad.lock().unwrap().clone();
    let (cs, why) = match &b { Some((c, e)) => (show(prop, c), e.clone()), None => (String::new(), String::new()) };
    if let (Some(_), Some(o)) = (&b, get("--out")) { std::fs::write(&o, format!("case: {cs}\nwhy: {why}\n")).expect("write"); }
    let ss = samples.lock().unwrap().iter().map(|s| format!("\"{}\"", esc(s))).collect::<Vec<_>>().join(",");
    println!("{{\"evaluations\":{},\"distinct_nontrivial\":{},\"fixed\":{},\"dict_ints\":{},\"samples\":[{ss}],\"fail\":{},\"case\":\"{}\",\"why\":\"{}\",\"secs\":{:.2}}}", evals.load(Ordering::Relaxed), distinct.load(Ordering::Relaxed), fixed.len(), dict.ints.len(), b.is_some(), esc(&short(cs)), esc(&short(why)), t0.elapsed().as_secs_f64());
    std::process::exit(if b.is_some() { 1 } else { 0 });
}
