//! Input generation: boundary lengths and contents, words taken from the current source's literals, random fill.
use std::collections::BTreeSet;
pub struct Rng(u64);
impl Rng {
    pub fn new(s: u64) -> Rng { let mut r = Rng(s.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03); for _ in 0..4 { r.next(); } r }
    pub fn next(&mut self) -> u64 { self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15); let mut z = self.0; z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9); z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB); z ^ (z >> 31) }
    pub fn below(&mut self, n: usize) -> usize { if n == 0 { 0 } else { (self.next() % n as u64) as usize } }
    pub fn pick<T: Clone>(&mut self, v: &[T]) -> T { v[self.below(v.len())].clone() }
    pub fn u128(&mut self) -> u128 { (self.next() as u128) << 64 | self.next() as u128 }
}
#[derive(Clone, Default)]
pub struct Dict { pub ints: Vec<u128>, pub strs: Vec<Vec<u8>> }
impl Dict {
    /// every integer and string literal of the crate's current source
    pub fn load(dir: &str) -> Dict {
        fn walk(p: &std::path::Path, o: &mut Vec<std::path::PathBuf>) { if let Ok(r) = std::fs::read_dir(p) { let mut v: Vec<_> = r.flatten().map(|e| e.path()).collect(); v.sort(); for q in v { if q.is_dir() { walk(&q, o) } else if q.extension().is_some_and(|e| e == "rs") { o.push(q) } } } }
        let mut fs = vec![]; walk(std::path::Path::new(dir), &mut fs);
        let (mut ints, mut strs) = (BTreeSet::new(), BTreeSet::new());
        for f in fs {
            let Ok(t) = std::fs::read_to_string(&f) else { continue };
            let t = match t.find("#[cfg(test)]") { Some(i) => &t[..i], None => &t };
            let b = t.as_bytes();
            let mut i = 0;
            while i < b.len() {
                if b[i] == b'/' && i + 1 < b.len() && b[i + 1] == b'/' { while i < b.len() && b[i] != b'\n' { i += 1; } continue; }
                if b[i] == b'"' {
                    let s = i + 1; i += 1;
                    while i < b.len() && b[i] != b'"' { if b[i] == b'\\' { i += 1; } i += 1; }
                    if i <= b.len() && i - s <= 200 && i > s { strs.insert(b[s..i.min(b.len())].to_vec()); }
                    i += 1; continue;
                }
                if b[i] == b'\'' { // a character literal (and not a lifetime)
                    let e = if i + 2 < b.len() && b[i + 1] == b'\\' { (i + 3..b.len().min(i + 14)).find(|&k| b[k] == b'\'') } else { t[i + 1..].chars().next().map(|c| i + 1 + c.len_utf8()).filter(|&k| k < b.len() && b[k] == b'\'') };
                    if let Some(k) = e {
                        let w = &t[i + 1..k];
                        let c = if let Some(h) = w.strip_prefix("\\u{") { u32::from_str_radix(h.trim_end_matches('}'), 16).ok().and_then(char::from_u32) } else if let Some(h) = w.strip_prefix("\\x") { u8::from_str_radix(h, 16).ok().map(|x| x as char) } else if let Some(h) = w.strip_prefix('\\') { h.chars().next().map(|c| match c { 'n' => '\n', 'r' => '\r', 't' => '\t', '0' => '\0', c => c }) } else { w.chars().next() };
                        if let Some(c) = c { ints.insert(c as u128); strs.insert(c.to_string().into_bytes()); }
                        i = k + 1; continue;
                    }
                }
                if b[i].is_ascii_alphabetic() || b[i] == b'_' { while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'_') { i += 1; } continue; }
                if b[i].is_ascii_digit() {
                    let s = i; while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'_') { i += 1; }
                    let mut w: String = t[s..i].chars().filter(|c| *c != '_').collect();
                    for suf in ["usize", "u128", "u64", "u32", "u16", "u8", "i128", "i32"] { if !(w.starts_with("0x") && suf.len() < 3 && false) && w.ends_with(suf) { w.truncate(w.len() - suf.len()); break; } }
                    let v = if let Some(h) = w.strip_prefix("0x") { u128::from_str_radix(h, 16) } else if let Some(h) = w.strip_prefix("0b") { u128::from_str_radix(h, 2) } else { w.parse() };
                    if let Ok(v) = v { ints.insert(v); }
                    continue;
                }
                i += 1;
            }
        }
        Dict { ints: ints.into_iter().collect(), strs: strs.into_iter().collect() }
    }
}
pub struct Gen<'a> { pub r: Rng, pub d: &'a Dict }
impl<'a> Gen<'a> {
    pub fn len(&mut self, max: usize) -> usize {
        let v = match self.r.below(8) {
            0 => self.r.below(20),
            1 => { let b = self.r.pick(&[8usize, 16, 64, 128]); let k = self.r.below(9); (b * k + 3).wrapping_sub(self.r.below(7)) }
            2 => { let b = self.r.pick(&[56usize, 112, 64, 128, 120]); b.wrapping_add(self.r.below(5)).wrapping_sub(2) }
            3 => { let k = self.r.below(17); (1usize << k).wrapping_add(self.r.below(3)).wrapping_sub(1) }
            4 => { let x = self.r.pick(&self.d.ints); if x <= max as u128 + 2 { (x as usize).wrapping_add(self.r.below(3)).wrapping_sub(1) } else { self.r.below(max + 1) } }
            5 => { let x = self.r.pick(&self.d.ints); let y = self.r.pick(&self.d.ints); let p = x.saturating_mul(y); if p <= max as u128 + 2 { (p as usize).wrapping_add(self.r.below(3)).wrapping_sub(1) } else { self.r.below(max + 1) } }
            6 => self.r.below(200),
            _ => self.r.below(max + 1),
        };
        if v > max { v % (max + 1) } else { v }
    }
    pub fn word(&mut self) -> u128 {
        match self.r.below(6) {
            0 | 1 => self.r.pick(&self.d.ints),
            2 => { let k = self.r.below(128); (1u128 << k).wrapping_add(self.r.below(3) as u128).wrapping_sub(1) }
            3 => { let k = self.r.below(129); if k == 0 { 0 } else { self.r.u128() >> (128 - k) } }
            4 => self.r.pick(&[0u128, 1, 2, 0x7f, 0x80, 0xff, 0x100, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff, u64::MAX as u128, u128::MAX, 1 << 127]),
            _ => { let a = self.r.pick(&self.d.ints); a.wrapping_add(self.r.below(5) as u128).wrapping_sub(2) }
        }
    }
    pub fn byte(&mut self) -> u8 { match self.r.below(4) { 0 => self.r.pick(&[0u8, 1, 0x7f, 0x80, 0x81, 0xfe, 0xff]), 1 => self.word() as u8, _ => self.r.next() as u8 } }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mut v: Vec<u8> = match self.r.below(10) {
            0 => vec![0; n], 1 => vec![0xff; n],
            2 => { let b = self.byte(); vec![b; n] }
            3 => (0..n).map(|i| i as u8).collect(),
            4 => { let mut v = vec![self.r.pick(&[0u8, 0xff]); n]; for _ in 0..1 + self.r.below(3) { if n > 0 { let i = self.r.below(n); v[i] = self.byte(); } } v }
            5 => { let k = 1 + self.r.below(8); let p: Vec<u8> = (0..k).map(|_| self.byte()).collect(); (0..n).map(|i| p[i % k]).collect() }
            6 => (0..n).map(|_| self.r.pick(&[0u8, 0xff, 0x80, 1])).collect(),
            _ => (0..n).map(|_| self.r.next() as u8).collect(),
        };
        if n > 0 && self.r.below(3) == 0 {
            for _ in 0..1 + self.r.below(3) {
                let w = self.word(); let sz = self.r.pick(&[1usize, 2, 4, 8, 16]);
                let be = self.r.below(2) == 0; let at = self.r.below(n); let at = if self.r.below(2) == 0 { at / sz * sz } else { at };
                let b: Vec<u8> = if be { w.to_be_bytes()[16 - sz..].to_vec() } else { w.to_le_bytes()[..sz].to_vec() };
                for (i, x) in b.into_iter().enumerate() { if at + i < n { v[at + i] = x; } }
            }
        }
        if n > 0 && self.r.below(12) == 0 && !self.d.strs.is_empty() { let s = self.r.pick(&self.d.strs); let at = self.r.below(n); for (i, x) in s.into_iter().enumerate() { if at + i < n { v[at + i] = x; } } }
        v
    }
    pub fn arr<const K: usize>(&mut self) -> [u8; K] { self.bytes(K).try_into().unwrap() }
    /// big-endian natural, possibly with leading zero bytes
    pub fn nat(&mut self, max: usize) -> Vec<u8> {
        let mut v = match self.r.below(6) {
            0 => { let w = self.word(); let mut b = w.to_be_bytes().to_vec(); let k = self.r.below(17); b.drain(..k); b }
            1 => { let k = self.r.below(max * 8); let mut b = vec![0u8; k / 8 + 1]; b[0] = 1 << (k % 8); if self.r.below(2) == 0 { let l = b.len() - 1; b[l] |= 1; } b }
            2 => { let k = self.r.below(max * 8); let mut b = vec![0xffu8; k / 8 + 1]; b[0] = 0xff >> (7 - k % 8); if self.r.below(2) == 0 { let l = b.len() - 1; b[l] &= 0xfe; } b }
            _ => { let l = self.len(max); self.bytes(l) }
        };
        v.truncate(max);
        if self.r.below(8) == 0 { let k = self.r.below(4); let mut w = vec![0; k]; w.extend(v); v = w; }
        v
    }
}
