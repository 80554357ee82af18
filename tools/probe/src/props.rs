//! One generator and one judge per property.  A judge returns Err(why) when the real code breaks the property on the case.
use crate::data::*;
use crate::inputs::*;
use crate::oracle::*;
use cryptography::aes::*;
use cryptography::big::BigUint;
use cryptography::pad::*;
use cryptography::pem::{asn1::Asn1, PEM};
use cryptography::rsa::*;
use cryptography::sha::*;
use cryptography::*;
use hex::FromHex;
use std::str::FromStr;
use std::sync::OnceLock;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Case { pub kind: String, pub f: Vec<Vec<u8>> }
pub fn case(k: &str, f: Vec<Vec<u8>>) -> Case { Case { kind: k.into(), f } }
fn u(v: u64) -> Vec<u8> { v.to_be_bytes().to_vec() }
fn gu(v: &[u8]) -> u64 { v.iter().fold(0, |a, x| a << 8 | *x as u64) }
type R = Result<(), String>;

/// run the real code; Err = it panicked
pub fn cu<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|e| {
        let m = e.downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| e.downcast_ref::<String>().cloned()).unwrap_or_default();
        format!("panicked: {m}")
    })
}
fn eq<T: PartialEq + std::fmt::Debug>(what: &str, got: T, want: T) -> R { if got == want { Ok(()) } else { let (g, w) = (format!("{got:02x?}"), format!("{want:02x?}")); let cut = |s: String| if s.len() > 400 { format!("{}...", &s[..400]) } else { s }; Err(format!("{what}: got {}, want {}", cut(g), cut(w))) } }
fn must<T>(what: &str, r: Result<T, String>) -> Result<T, String> { r.map_err(|e| format!("{what} {e}")) }

pub fn sha2o() -> &'static Sha2 { static S: OnceLock<Sha2> = OnceLock::new(); S.get_or_init(Sha2::new) }
fn sbox() -> &'static [u8; 256] { static S: OnceLock<[u8; 256]> = OnceLock::new(); S.get_or_init(aes_sbox) }
fn aes_of(key: &[u8]) -> Aes { match key.len() { 16 => Aes::with_128_bit_key(key.try_into().unwrap()), 24 => Aes::with_192_bit_key(key.try_into().unwrap()), _ => Aes::with_256_bit_key(key.try_into().unwrap()) } }
fn aes_words(key: &[u8]) -> Aes {
    let w: Vec<u64> = key.chunks(8).map(|c| u64::from_be_bytes(c.try_into().unwrap())).collect();
    match w.len() { 2 => Key128::from([w[0], w[1]]).into(), 3 => Key192::from([w[0], w[1], w[2]]).into(), _ => Key256::from([w[0], w[1], w[2], w[3]]).into() }
}

// ---------- keys through the import path
fn int(n: &N) -> T { let b = n.to_be(); T::Int(if b.is_empty() || b[0] & 0x80 != 0 { let mut v = vec![0]; v.extend(b); v } else { b }) }
fn algo() -> T { T::Seq(vec![T::Oid(RSA_OID.to_vec()), T::Null]) }
fn spki(n: &N, e: &N) -> Vec<u8> { der(&T::Seq(vec![algo(), T::Bit(der(&T::Seq(vec![int(n), int(e)])), 0)])) }
fn pkcs8(n: &N, d: &N) -> Vec<u8> { let z = N::from_u(1); der(&T::Seq(vec![T::Int(vec![0]), algo(), T::Oct(der(&T::Seq(vec![T::Int(vec![0]), int(n), int(&z), int(d), int(&z), int(&z), int(&z), int(&z), int(&z)])))])) }
fn pubkey(n: &N, e: &N) -> Result<PublicKey, String> { PublicKey::try_from(PEM { label: "PUBLIC KEY".into(), data: spki(n, e) }) }
fn privkey(n: &N, d: &N) -> Result<PrivateKey, String> { PrivateKey::try_from(PEM { label: "PRIVATE KEY".into(), data: pkcs8(n, d) }) }
fn big(n: &N) -> BigUint { BigUint::from_be_bytes(n.to_be()) }
fn canon(what: &str, b: &BigUint, want: &N) -> R {
    eq(what, b.to_be_bytes(), want.to_be())?;
    if *b != big(want) { return Err(format!("{what}: not in canonical form")); }
    Ok(())
}

// ---------- generic block machinery for C07
struct Toy<const K: usize>(u8);
impl<const K: usize> BlockCipher<K> for Toy<K> {
    fn encrypt(&self, p: Block<K>) -> Block<K> { let mut o = [0; K]; for i in 0..K { o[(i + 1) % K] = p[i].wrapping_mul(5).wrapping_add(self.0).wrapping_add(i as u8); } o }
    fn decrypt(&self, c: Block<K>) -> Block<K> { let mut o = [0; K]; for i in 0..K { o[i] = c[(i + 1) % K].wrapping_sub(self.0).wrapping_sub(i as u8).wrapping_mul(205); } o }
}
struct Cbc<const K: usize> { prev: [u8; K], log: std::rc::Rc<std::cell::RefCell<Vec<Vec<u8>>>> }
impl<const K: usize> BlockCipherMode<K> for Cbc<K> {
    fn encrypt_block<C: BlockCipher<K>>(&mut self, c: &C, b: Block<K>) -> Block<K> { self.log.borrow_mut().push(b.to_vec()); let mut x = b; for i in 0..K { x[i] ^= self.prev[i]; } self.prev = c.encrypt(x); self.prev }
    fn decrypt_block<C: BlockCipher<K>>(&mut self, c: &C, b: Block<K>) -> Block<K> { self.log.borrow_mut().push(b.to_vec()); let mut x = c.decrypt(b); for i in 0..K { x[i] ^= self.prev[i]; } self.prev = b; x }
}
#[inline(never)]
fn blocks_case<const K: usize>(m: &[u8], key: u8, iv: &[u8]) -> R {
    let mut iv2 = [0u8; K]; for i in 0..K { iv2[i] = iv.get(i).copied().unwrap_or(i as u8); } let iv = iv2;
    let mut padded = m.to_vec(); let p = K - m.len() % K; padded.extend(std::iter::repeat_n(p as u8, p));
    // CBC with log
    let log = std::rc::Rc::new(std::cell::RefCell::new(vec![]));
    let mut out = vec![];
    must("encrypt", cu(|| BlockEncryption::encrypt(Toy::<K>(key), Cbc::<K> { prev: iv, log: log.clone() }, m, |b| out.push(b))))?;
    eq("blocks fed to the mode", log.borrow().concat(), padded.clone())?;
    let mut want = vec![]; let mut prev = iv;
    for b in padded.chunks(K) { let mut x: [u8; K] = b.try_into().unwrap(); for i in 0..K { x[i] ^= prev[i]; } prev = Toy::<K>(key).encrypt(x); want.extend_from_slice(&prev); }
    eq("ciphertext", &out, &want)?;
    let mut back = vec![];
    log.borrow_mut().clear();
    must("decrypt", cu(|| BlockEncryption::decrypt(Toy::<K>(key), Cbc::<K> { prev: iv, log: log.clone() }, &out, |b| back.push(b))))?;
    eq("round trip", &back[..], m)?;
    eq("blocks fed to decryption", log.borrow().concat(), out.clone())?;
    // codebook
    let mut ecb = vec![];
    must("ecb encrypt", cu(|| BlockEncryption::encrypt(Toy::<K>(key), EcbMode::<K>, m, |b| ecb.push(b))))?;
    let want: Vec<u8> = padded.chunks(K).flat_map(|b| Toy::<K>(key).encrypt(b.try_into().unwrap())).collect();
    eq("ecb ciphertext", &ecb, &want)?;
    let mut back = vec![];
    must("ecb decrypt", cu(|| BlockEncryption::decrypt(Toy::<K>(key), EcbMode::<K>, &ecb, |b| back.push(b))))?;
    eq("ecb round trip", &back[..], m)?;
    // not a whole number of blocks
    if K > 1 {
        for cut in [1, K - 1, K / 2] { if cut % K != 0 {
            let t = &out[..out.len() - cut];
            let mut sink = vec![];
            if cu(|| BlockEncryption::decrypt(Toy::<K>(key), EcbMode::<K>, t, |b| sink.push(b))).is_ok() { return Err(format!("a ciphertext of {} bytes was accepted for block size {K}", t.len())); }
        } }
    }
    Ok(())
}
/// arbitrary ciphertext whose last block decrypts to arbitrary padding
#[inline(never)]
fn blocks_dec<const K: usize>(plain: &[u8], key: u8) -> R {
    let mut p = plain.to_vec(); while p.len() % K != 0 || p.is_empty() { p.push(1); }
    let ct: Vec<u8> = p.chunks(K).flat_map(|b| Toy::<K>(key).encrypt(b.try_into().unwrap())).collect();
    let mut out = vec![];
    let r = cu(|| BlockEncryption::decrypt(Toy::<K>(key), EcbMode::<K>, &ct, |b| out.push(b)));
    let amt = *p.last().unwrap() as usize;
    if amt == 0 || amt > K { if r.is_ok() { return Err(format!("padding byte {amt} accepted")); } return Ok(()); }
    must("decrypt", r)?;
    eq("plaintext", &out[..], &p[..p.len() - amt])
}
fn real_block_case(m: &[u8], which: u8, key: &[u8]) -> R {
    let mut out = vec![]; let mut back = vec![];
    macro_rules! go { ($mk:expr, $k:literal) => {{
        must("encrypt", cu(|| BlockEncryption::encrypt($mk, EcbMode::<$k>, m, |b| out.push(b))))?;
        eq("length", out.len(), m.len() / $k * $k + $k)?;
        must("decrypt", cu(|| BlockEncryption::decrypt($mk, EcbMode::<$k>, &out, |b| back.push(b))))?;
        let c = $mk; let mut p = m.to_vec(); let n = $k - m.len() % $k; p.extend(std::iter::repeat_n(n as u8, n));
        let want: Vec<u8> = p.chunks($k).flat_map(|b| c.encrypt(b.try_into().unwrap())).collect();
        eq("ciphertext", &out, &want)?;
    }} }
    match which % 3 { 0 => go!(aes_of(&key[..16]), 16), 1 => go!(rc2::from_key(&key[..16], 128), 8), _ => go!(rc5::new(&key[..16], 12), 8) }
    eq("round trip", &back[..], m)
}
// thin shims per block size, so that the 255 instances stay small
#[inline(never)]
fn g_pkcs_pad<const K: usize>(part: &[u8]) -> Vec<u8> { PkcsPadding::<K>.pad(part).to_vec() }
#[inline(never)]
fn g_pkcs_un<const K: usize>(blk: &[u8]) -> usize { let mut b = [0u8; K]; b.copy_from_slice(blk); PkcsPadding::<K>.unpad(b) }
#[inline(never)]
fn g_bit_pad<const K: usize>(part: &[u8]) -> Vec<u8> { BitPadding::<K>.pad(part).to_vec() }
#[inline(never)]
fn g_bit_un<const K: usize>(blk: &[u8]) -> (Vec<u8>, usize) { let mut b = [0u8; K]; b.copy_from_slice(blk); let (d, n) = BitPadding::<K>.unpad(b); (d.to_vec(), n) }
fn pkcs_pad(k: usize, p: &[u8]) -> Result<Vec<u8>, String> { cu(|| with_n!(k, g_pkcs_pad, p)) }
fn pkcs_unpad(k: usize, b: &[u8]) -> Result<usize, String> { cu(|| with_n!(k, g_pkcs_un, b)) }
fn bit_pad(k: usize, p: &[u8]) -> Result<Vec<u8>, String> { cu(|| with_n!(k, g_bit_pad, p)) }
fn bit_unpad(k: usize, b: &[u8]) -> Result<(Vec<u8>, usize), String> { cu(|| with_n!(k, g_bit_un, b)) }
fn pkcs_case(k: usize, part: &[u8]) -> R {
    if part.len() >= k { return match pkcs_pad(k, part) { Ok(_) => Err("oversized partial block accepted".into()), Err(_) => Ok(()) }; }
    let b = must("pad", pkcs_pad(k, part))?;
    let mut want = part.to_vec(); want.resize(k, (k - part.len()) as u8);
    eq("pkcs pad", b.clone(), want)?;
    eq("pkcs unpad", must("unpad", pkcs_unpad(k, &b))?, part.len())
}
fn pkcs_un(k: usize, b: &[u8]) -> R {
    let a = b[k - 1] as usize;
    match pkcs_unpad(k, b) {
        Ok(n) => if a == 0 || a > k { Err(format!("malformed block accepted with length {n}")) } else if n >= k { Err(format!("length {n} of a block of {k}")) } else { eq("unpad", n, k - a) },
        Err(_) if (1..=k).contains(&a) && b[k - a..].iter().all(|x| *x as usize == a) => Err("well-formed block rejected".into()),
        Err(_) => Ok(()),
    }
}
fn bit_case(k: usize, part: &[u8]) -> R {
    if part.len() >= k { return match bit_pad(k, part) { Ok(_) => Err("oversized partial block accepted".into()), Err(_) => Ok(()) }; }
    let b = must("pad", bit_pad(k, part))?;
    let mut want = part.to_vec(); want.push(0x80); want.resize(k, 0);
    eq("bit pad", b.clone(), want)?;
    let (d, n) = must("unpad", bit_unpad(k, &b))?;
    eq("bit unpad length", n, part.len())?;
    let mut want = part.to_vec(); want.resize(k, 0);
    eq("bit unpad data", d, want)
}
fn bit_un(k: usize, b: &[u8]) -> R {
    match bit_unpad(k, b) {
        Ok((d, n)) => if !b.contains(&0x80) { Err("block without marker accepted".into()) } else if n >= k { Err(format!("length {n} of a block of {k}")) } else {
            eq("kept data", &d[..n], &b[..n])?; if d[n..].iter().any(|x| *x != 0) { Err("rest not zeroed".into()) } else { Ok(()) } },
        Err(_) => { let t = b.iter().rposition(|x| *x != 0); if t.is_some_and(|t| b[t] == 0x80) { Err("well-formed block rejected".into()) } else { Ok(()) } }
    }
}

fn hashv<const W: usize, const B: usize, X, H>(words: [X; W], bytes: [u8; B]) -> R
where X: Copy + PartialEq + std::fmt::Debug, H: From<[X; W]> + Into<[X; W]> + Into<[u8; B]> + FromHex + Clone + PartialEq + std::fmt::Debug {
    let h = must("from words", cu(|| H::from(words)))?;
    let b: [u8; B] = must("to bytes", cu(|| h.clone().into()))?;
    eq("bytes", b, bytes)?;
    let w: [X; W] = must("to words", cu(|| h.clone().into()))?;
    eq("words", w, words)?;
    for t in [hex::encode(bytes), hex::encode_upper(bytes)] {
        let g = must("from hex", cu(|| H::from_hex(&t).ok()))?;
        if g != Some(h.clone()) { return Err(format!("hex of {B} bytes parsed wrongly")); }
    }
    Ok(())
}
fn hexv<const B: usize, H: Into<[u8; B]> + FromHex>(t: &[u8]) -> R {
    let want: Option<Vec<u8>> = if t.len() == 2 * B && t.iter().all(|c| c.is_ascii_hexdigit()) { Some(t.chunks(2).map(|c| u8::from_str_radix(std::str::from_utf8(c).unwrap(), 16).unwrap()).collect()) } else { None };
    let got = must("from hex", cu(|| H::from_hex(t).ok().map(|h| { let b: [u8; B] = h.into(); b.to_vec() })))?;
    eq("from_hex", got, want)
}
fn to_t(a: &Asn1) -> T { match a { Asn1::Integer(b) => T::Int(b.clone()), Asn1::OctetString(b) => T::Oct(b.clone()), Asn1::BitString(b, n) => T::Bit(b.clone(), *n), Asn1::Null => T::Null, Asn1::ObjectIdentifier(b) => T::Oid(b.clone()), Asn1::Sequence(v) => T::Seq(v.iter().map(to_t).collect()) } }

pub fn judge(prop: &str, c: &Case) -> R {
    let f = &c.f;
    match (prop, c.kind.as_str()) {
        ("C01", "enc") => {
            let b: [u8; 16] = f[1][..].try_into().unwrap();
            let want = AesO::new(&f[0], sbox()).enc(b);
            eq("encrypt", must("encrypt", cu(|| aes_of(&f[0]).encrypt(b)))?, want)?;
            eq("encrypt (key from words)", must("encrypt", cu(|| aes_words(&f[0]).encrypt(b)))?, want)
        }
        ("C02", "inv") => {
            let b: [u8; 16] = f[1][..].try_into().unwrap();
            let a = must("key setup", cu(|| aes_of(&f[0])))?;
            eq("decrypt(encrypt)", must("", cu(|| a.decrypt(a.encrypt(b))))?, b)?;
            eq("encrypt(decrypt)", must("", cu(|| a.encrypt(a.decrypt(b))))?, b)
        }
        ("C03", "rc2") => {
            let bits = gu(&f[1]) as u16; let b: [u8; 8] = f[2][..].try_into().unwrap();
            let r = must("key setup", cu(|| rc2::from_key(&f[0], bits)))?;
            eq("encrypt", must("encrypt", cu(|| r.encrypt(b)))?, rc2_enc(&rc2_key(&f[0], bits), b))?;
            eq("decrypt(encrypt)", must("", cu(|| r.decrypt(r.encrypt(b))))?, b)?;
            eq("encrypt(decrypt)", must("", cu(|| r.encrypt(r.decrypt(b))))?, b)
        }
        ("C04", "rc5") => {
            let r = gu(&f[1]) as u8; let b: [u8; 8] = f[2][..].try_into().unwrap();
            let x = must("key setup", cu(|| rc5::new(&f[0], r)))?;
            eq("encrypt", must("encrypt", cu(|| x.encrypt(b)))?, rc5_enc(&rc5_key(&f[0], r as usize), r as usize, b))?;
            eq("decrypt(encrypt)", must("", cu(|| x.decrypt(x.encrypt(b))))?, b)?;
            eq("encrypt(decrypt)", must("", cu(|| x.encrypt(x.decrypt(b))))?, b)
        }
        ("C05", "rc4") => {
            let (k, m) = (&f[0], &f[1]);
            let ks = o_rc4(k, m.len()); let want = xor(m, &ks);
            eq("encrypt", must("encrypt", cu(|| rc4::new(k).encrypt(m)))?, want.clone())?;
            eq("decrypt", must("decrypt", cu(|| rc4::new(k).decrypt(&want)))?, m.clone())?;
            eq("key stream", must("next", cu(|| rc4::new(k).take(m.len()).collect::<Vec<u8>>()))?, ks)?;
            let mut out = vec![];
            must("pieces", cu(|| { let mut s = StreamCipher::new(rc4::new(k)); let mut i = 0; for n in &f[2] { let e = (i + *n as usize).min(m.len()); out.extend(s.encrypt(m[i..e].iter().cloned())); i = e; } out.extend(s.encrypt(m[i..].to_vec())); }))?;
            eq("in pieces", out, want.clone())?;
            // other splits: single bytes, and growing pieces around powers of two
            let mut cuts: Vec<Vec<usize>> = vec![]; if m.len() <= 3000 { cuts.push(vec![1; m.len()]); }
            if m.len() > 1000 { let mut c = vec![]; let mut n = 1; while n <= m.len() { c.push(n); c.push(n - 1); n *= 2; } cuts.push(c); for w in [255usize, 256, 512, 1024, 4096, 8192] { cuts.push(vec![w; m.len() / w]); } }
            for c in cuts {
                let mut out = vec![];
                must("pieces", cu(|| { let mut s = StreamCipher::new(rc4::new(k)); let mut i = 0; for n in c { let e = (i + n).min(m.len()); out.extend(s.encrypt(m[i..e].iter().cloned())); i = e; } out.extend(s.encrypt(m[i..].to_vec())); }))?;
                eq("in pieces", out, want.clone())?;
            }
            Ok(())
        }
        ("C05", "stream") => {
            let m = &f[1]; let ks = &f[0];
            let got = must("stream", cu(|| { let mut s = StreamCipher::new(ks.clone()); s.encrypt(m.clone()).collect::<Vec<u8>>() }))?;
            eq("stream xor", got, xor(m, ks))
        }
        ("C06", "pkcs") => pkcs_case(gu(&f[0]) as usize, &f[1]),
        ("C06", "bit") => bit_case(gu(&f[0]) as usize, &f[1]),
        ("C06", "pkcs_un") => pkcs_un(gu(&f[0]) as usize, &f[1]),
        ("C06", "bit_un") => bit_un(gu(&f[0]) as usize, &f[1]),
        ("C07", "mode") => match gu(&f[0]) { 1 => blocks_case::<1>(&f[1], f[2][0], &f[3]), 2 => blocks_case::<2>(&f[1], f[2][0], &f[3]), 3 => blocks_case::<3>(&f[1], f[2][0], &f[3]), 4 => blocks_case::<4>(&f[1], f[2][0], &f[3]), 8 => blocks_case::<8>(&f[1], f[2][0], &f[3]), 16 => blocks_case::<16>(&f[1], f[2][0], &f[3]), 17 => blocks_case::<17>(&f[1], f[2][0], &f[3]), 32 => blocks_case::<32>(&f[1], f[2][0], &f[3]), 64 => blocks_case::<64>(&f[1], f[2][0], &f[3]), 128 => blocks_case::<128>(&f[1], f[2][0], &f[3]), _ => blocks_case::<255>(&f[1], f[2][0], &f[3]) },
        ("C07", "dec") => match gu(&f[0]) { 1 => blocks_dec::<1>(&f[1], f[2][0]), 4 => blocks_dec::<4>(&f[1], f[2][0]), 8 => blocks_dec::<8>(&f[1], f[2][0]), 16 => blocks_dec::<16>(&f[1], f[2][0]), _ => blocks_dec::<255>(&f[1], f[2][0]) },
        ("C07", "real") => real_block_case(&f[1], f[0][0], &f[2]),
        ("C08", k) => { let m = msg(k, f); let b: [u8; 20] = must("sha1", cu(|| sha1(&m).into()))?; eq("sha1", b.to_vec(), o_sha1(&m)) }
        ("C09", k) => {
            let m = msg(k, f);
            let b: [u8; 28] = must("sha224", cu(|| sha224(&m).into()))?; eq("sha224", b.to_vec(), sha2o().hash(224, &m))?;
            let b: [u8; 32] = must("sha256", cu(|| sha256(&m).into()))?; eq("sha256", b.to_vec(), sha2o().hash(256, &m))?;
            let b: [u8; 48] = must("sha384", cu(|| sha384(&m).into()))?; eq("sha384", b.to_vec(), sha2o().hash(384, &m))?;
            let b: [u8; 64] = must("sha512", cu(|| sha512(&m).into()))?; eq("sha512", b.to_vec(), sha2o().hash(512, &m))
        }
        ("C10", k) => { let m = msg(k, f); eq("md2", must("md2", cu(|| md2(&m).to_vec()))?, o_md2(&m)) }
        ("C11", k) => { let m = msg(k, f); eq("md4", must("md4", cu(|| md4(&m).to_vec()))?, o_md4(&m))?; eq("md5", must("md5", cu(|| md5(&m).to_vec()))?, o_md5(&m)) }
        ("C12", "words") => {
            let b = &f[0];
            fn w32<const K: usize>(b: &[u8]) -> [u32; K] { std::array::from_fn(|i| u32::from_be_bytes(b[4 * i..4 * i + 4].try_into().unwrap())) }
            fn w64<const K: usize>(b: &[u8]) -> [u64; K] { std::array::from_fn(|i| u64::from_be_bytes(b[8 * i..8 * i + 8].try_into().unwrap())) }
            hashv::<5, 20, u32, Hash160>(w32(b), b[..20].try_into().unwrap())?;
            hashv::<7, 28, u32, Hash224>(w32(b), b[..28].try_into().unwrap())?;
            hashv::<8, 32, u32, Hash256>(w32(b), b[..32].try_into().unwrap())?;
            hashv::<6, 48, u64, Hash384>(w64(b), b[..48].try_into().unwrap())?;
            hashv::<8, 64, u64, Hash512>(w64(b), b[..64].try_into().unwrap())
        }
        ("C12", "hex") => { hexv::<20, Hash160>(&f[0])?; hexv::<28, Hash224>(&f[0])?; hexv::<32, Hash256>(&f[0])?; hexv::<48, Hash384>(&f[0])?; hexv::<64, Hash512>(&f[0]) }
        ("C13", op) => {
            let a = N::from_be(&f[0]); let x = big(&a);
            match op {
                "add" => { let b = N::from_be(&f[1]); let y = big(&b); canon("a + b", &must("+=", cu(|| { let mut x = x; x += &y; x }))?, &a.add(&b)) }
                "add8" => { let k = f[1][0]; canon("a + u8", &must("+= u8", cu(|| { let mut x = x; x += k; x }))?, &a.add(&N::from_u(k as u128))) }
                "sub" => { let b = N::from_be(&f[1]); let (a, b) = if a.lt(&b) { (b, a) } else { (a, b) }; let (x, y) = (big(&a), big(&b)); canon("a - b", &must("-", cu(|| x.clone() - &y))?, &a.sub(&b))?; canon("a -= b", &must("-=", cu(|| { let mut x = x; x -= &y; x }))?, &a.sub(&b)) }
                "rem" => { let b = N::from_be(&f[1]); let y = big(&b); let r = cu(|| { let mut x = x; x %= &y; x }); if b.is_zero() { return if r.is_ok() { Err("remainder by zero accepted".into()) } else { Ok(()) } } canon("a % b", &must("%=", r)?, &a.rem(&b)) }
                "shl" => { let n = gu(&f[1]); canon("a << n", &must("<<=", cu(|| { let mut x = x; x <<= n as u32; x }))?, &a.shl(n)) }
                _ => { let n = gu(&f[1]); canon("a >> n", &must(">>=", cu(|| { let mut x = x; x >>= n as u32; x }))?, &a.shr(n)) }
            }
        }
        ("C14", "conv") => {
            let a = N::from_be(&f[0]);
            let x = must("from_be_bytes", cu(|| BigUint::from_be_bytes(&f[0])))?;
            eq("to_be_bytes", must("to_be_bytes", cu(|| x.to_be_bytes()))?, a.to_be())?;
            let mut le = f[0].clone(); le.reverse();
            if must("from_le_bytes", cu(|| BigUint::from_le_bytes(&le)))? != x { return Err("from_le_bytes differs from from_be_bytes of the reverse".into()); }
            eq("bits_used", must("bits_used", cu(|| x.bits_used()))? as u64, a.bits())?;
            let bits = a.bits(); let step = if bits < 3000 { 1 } else { 37 };
            for i in (0..bits + 18).step_by(step).chain(bits.saturating_sub(20)..bits + 18) { if must("is_set", cu(|| x.is_set(i as u32)))? != a.bit(i) { return Err(format!("is_set({i}) wrong")); } }
            for i in [u32::MAX, u32::MAX - 7, 1 << 31] { if must("is_set", cu(|| x.is_set(i)))? { return Err(format!("is_set({i}) wrong")); } }
            let want = if a.bits() <= 128 { let mut b = [0u8; 16]; let v = a.to_be(); b[16 - v.len()..].copy_from_slice(&v); Some(u128::from_be_bytes(b)) } else { None };
            eq("as_u128", must("as_u128", cu(|| x.as_u128().ok()))?, want)?;
            if let Some(v) = want { if must("from u128", cu(|| BigUint::from(v)))? != x { return Err("BigUint::from(u128) wrong".into()); } }
            Ok(())
        }
        ("C14", "cmp") => { let (a, b) = (N::from_be(&f[0]), N::from_be(&f[1])); let (x, y) = (big(&a), big(&b)); eq("cmp", must("cmp", cu(|| x.cmp(&y)))?, a.cmp(&b))?; eq("partial_cmp", x.partial_cmp(&y), Some(a.cmp(&b)))?; eq("<", x < y, a.lt(&b))?; eq("==", x == y, a == b) }
        ("C14", _) => {
            let a = N::from_be(&f[0]); let w = a.to_be().len() as u64 * 8; if w == 0 { return Ok(()); }
            let i = gu(&f[1]) % w; let set = f[2][0] & 1 == 1;
            let x = must("update", cu(|| { let mut x = big(&a); x.update(i as u32, set); x }))?;
            let mut want = a.to_be(); let l = want.len(); let p = l - 1 - (i / 8) as usize; if set { want[p] |= 1 << (i % 8) } else { want[p] &= !(1 << (i % 8)) }
            eq("updated value", N::from_be(&x.to_be_bytes()), N::from_be(&want))
        }
        ("C15", _) => {
            let (n, e, m) = (N::from_be(&f[0]), N::from_be(&f[1]), N::from_be(&f[2])); if n.bits() < 2 { return Ok(()); }
            let want = m.powmod(&e, &n);
            let k: RsaEncryption = must("key", cu(|| pubkey(&n, &e)))?.map_err(|e| format!("key import failed: {e}"))?.into();
            canon("encrypt", &must("encrypt", cu(|| k.encrypt(big(&m))))?, &want)?;
            let k: RsaEncryption = must("key", cu(|| privkey(&n, &e)))?.map_err(|e| format!("key import failed: {e}"))?.into();
            canon("decrypt", &must("decrypt", cu(|| k.decrypt(big(&m))))?, &want)
        }
        ("C16", _) => {
            let (p, q, e, m) = (N::from_be(&f[0]), N::from_be(&f[1]), N::from_be(&f[2]), N::from_be(&f[3]));
            let one = N::from_u(1); let (p1, q1) = (p.sub(&one), q.sub(&one)); let n = p.mul(&q);
            let l = p1.mul(&q1).divrem(&N::gcd(&p1, &q1)).0;
            if p == q || n.bits() > 127 || N::gcd(&e, &l) != one || e.bits() > 128 { return Ok(()); }
            let (sk, pk) = must("create_keys", cu(|| create_keys(big(&p), big(&q), big(&e))))?;
            if pk != pubkey(&n, &e)? { return Err("public key is not (p*q, e)".into()); }
            // d is any exponent with e*d = 1 mod lcm: it must at least be one of the residues below (p-1)(q-1)
            let d0 = N::inv(&e, &l);
            let mut ok = false; let mut d = d0; let lim = p1.mul(&q1); let mut guard = 0;
            while d.lt(&lim) || guard == 0 { if sk == privkey(&n, &d)? { ok = true; break; } d = d.add(&l); guard += 1; if guard > 64 { break; } }
            let m = m.rem(&n);
            let (ek, dk) = (RsaEncryption::from(pk), RsaEncryption::from(sk));
            let c = must("encrypt", cu(|| ek.encrypt(big(&m))))?;
            canon("decrypt(encrypt(m))", &must("decrypt", cu(|| dk.decrypt(c)))?, &m)?;
            let c = must("encrypt", cu(|| dk.encrypt(big(&m))))?;
            canon("public(private(m))", &must("decrypt", cu(|| ek.decrypt(c)))?, &m)?;
            if !ok && guard <= 64 { return Err("private exponent is not an inverse of e modulo lcm(p-1, q-1) (or the modulus is not p*q)".into()); }
            Ok(())
        }
        ("C17", "enc") => {
            let (label, m, k) = (&f[0], &f[1], gu(&f[2]) as usize);
            let em = must("encode", cu(|| RsaPadding.encode(label, m, k)))?;
            eq("length", em.len(), k)?;
            if em[0] != 0 { return Err("first byte not zero".into()); }
            eq("RFC 8017 content", oaep_open(sha2o(), label, &em, k), Some(m.clone()))?;
            eq("decode(encode)", must("decode", cu(|| RsaPadding.decode(label, &em, k).ok()))?, Some(m.clone()))?;
            if !label.is_empty() { let mut l2 = label.clone(); l2[0] ^= 1; eq("decode with another label", must("decode", cu(|| RsaPadding.decode(&l2, &em, k).ok()))?, None)?; }
            Ok(())
        }
        ("C17", "dec") => { let (label, em, k) = (&f[0], &f[1], gu(&f[2]) as usize); eq("decode", must("decode", cu(|| RsaPadding.decode(label, em, k).ok()))?, oaep_open(sha2o(), label, em, k)) }
        ("C17", _) => { // structured: seal a data block of our own making
            let (label, db, k, seed) = (&f[0], &f[1], gu(&f[2]) as usize, &f[3]);
            let mdb = xor(db, &mgf1(sha2o(), seed, k - 33)); let ms = xor(seed, &mgf1(sha2o(), &mdb, 32));
            let mut em = vec![f[4][0]]; em.extend(ms); em.extend(mdb);
            eq("decode", must("decode", cu(|| RsaPadding.decode(label, &em, k).ok()))?, oaep_open(sha2o(), label, &em, k))
        }
        ("C18", "id") => { // exponents 1 and 1 are inverse for every modulus: the framing, for many moduli
            let n = N::from_be(&f[0]); let m = &f[1]; let k = (n.bits() as usize + 7) / 8; if k < 66 || m.len() > k - 66 { return Ok(()); }
            let one = N::from_u(1);
            let (pk, sk): (RsaEncryption, RsaEncryption) = (pubkey(&n, &one)?.into(), privkey(&n, &one)?.into());
            let c = must("encrypt_message", cu(|| pk.encrypt_message(m, RsaPadding)))?;
            eq("ciphertext length", c.len(), k)?;
            eq("decrypt(encrypt)", must("decrypt_message", cu(|| sk.decrypt_message(&c, RsaPadding)))?, m.clone())
        }
        ("C18", _) => {
            let (nb, n, e, d) = KEYS[gu(&f[0]) as usize % KEYS.len()]; let m = &f[1];
            let (n, e, d) = (N::from_be(&hex::decode(n).unwrap()), N::from_u(e as u128), N::from_be(&hex::decode(d).unwrap()));
            let k = (nb as usize + 7) / 8; if m.len() > k - 66 { return Ok(()); }
            let (pk, sk): (RsaEncryption, RsaEncryption) = (pubkey(&n, &e)?.into(), privkey(&n, &d)?.into());
            let (a, b) = if f[2][0] & 1 == 0 { (&pk, &sk) } else { (&sk, &pk) };
            let c = must("encrypt_message", cu(|| a.encrypt_message(m, RsaPadding)))?;
            eq("ciphertext length", c.len(), k)?;
            eq("decrypt(encrypt)", must("decrypt_message", cu(|| b.decrypt_message(&c, RsaPadding)))?, m.clone())
        }
        ("C19", _) => eq("parse", must("parse", cu(|| Asn1::try_from(&f[0][..]).ok().map(|a| to_t(&a))))?, parse_all(&f[0])),
        ("C20", kind) => {
            let private = kind == "priv"; let label = String::from_utf8_lossy(&f[0]).to_string(); let data = f[1].clone();
            let want = import(&label, &data, private);
            macro_rules! go { ($t:ident, $mk:ident) => {{
                let got = must("import", cu(|| $t::try_from(PEM { label, data }).ok()))?;
                match (got, want) { (None, None) => Ok(()), (Some(_), None) => Err("malformed key accepted".into()), (None, Some(_)) => Err("well-formed key rejected".into()),
                    (Some(k), Some((n, e))) => { if Ok(&k) != $mk(&n, &e).as_ref() { return Err("key differs from the same numbers in canonical encoding".into()); }
                        if n.bits() >= 2 && n.bits() <= 400 && e.bits() <= 200 { let enc = RsaEncryption::from(k); for m in [N::from_u(2), N::from_u(3), n.add(&N::from_u(1)), n.sub(&N::from_u(1))] { canon("use of the imported key", &must("encrypt", cu(|| enc.encrypt(big(&m))))?, &m.powmod(&e, &n))?; } }
                        Ok(()) } }
            }} }
            if private { go!(PrivateKey, privkey) } else { go!(PublicKey, pubkey) }
        }
        ("C21", "enc") => {
            let label = String::from_utf8_lossy(&f[0]).to_string();
            let t = must("to_string", cu(|| PEM { label: label.clone(), data: f[1].clone() }.to_string()))?;
            eq("text", t.clone(), pem_text(&label, &f[1]))?;
            let got = must("from_str", cu(|| PEM::from_str(&t).ok().map(|p| (p.label, p.data))))?;
            eq("decode(encode)", got, Some((label, f[1].clone())))
        }
        ("C21", _) => { let t = String::from_utf8_lossy(&f[0]).to_string(); eq("from_str", must("from_str", cu(|| PEM::from_str(&t).ok().map(|p| (p.label, p.data))))?, pem_parse(&t)) }
        _ => Err(format!("probe: unknown case {prop} {}", c.kind)),
    }
}
/// messages: literal, or (length, fill byte, stride) for big ones
fn msg(k: &str, f: &[Vec<u8>]) -> Vec<u8> { if k == "msg" { f[0].clone() } else { let n = gu(&f[0]) as usize; let (a, s) = (f[1][0], f[2][0]); (0..n).map(|i| a.wrapping_add((i as u8).wrapping_mul(s)) ^ ((i >> 8) as u8).wrapping_mul(s)).collect() } }

const BS: [u64; 11] = [1, 2, 3, 4, 8, 16, 17, 32, 64, 128, 255];
const HPROPS: [&str; 4] = ["C08", "C09", "C10", "C11"];

/// deterministic boundary cases
pub fn fixed(prop: &str, deep: bool) -> Vec<Case> {
    let mut v = vec![];
    match prop {
        "C01" | "C02" => { let k = if prop == "C01" { "enc" } else { "inv" }; for kl in [16usize, 24, 32] { for a in 0..=255u8 { v.push(case(k, vec![vec![a; kl], vec![a.wrapping_mul(7); 16]])); v.push(case(k, vec![(0..kl).map(|i| a.wrapping_add(i as u8)).collect(), vec![0; 16]])); let mut b = vec![0u8; 16]; b[(a % 16) as usize] = a; v.push(case(k, vec![vec![0; kl], b])); } } }
        "C03" => { for t in 1..=128usize { for bits in [1u64, 7, 8, 9, 63, 64, 65, 128, 8 * t as u64, 1016, 1023, 1024] { v.push(case("rc2", vec![(0..t).map(|i| (i * 37 + t) as u8).collect(), u(bits), vec![(t + bits as usize) as u8; 8]])); } } for bits in 1..=1024u64 { for t in [1usize, 16, 33, 128] { v.push(case("rc2", vec![(0..t).map(|i| (i * 11 + 3) as u8).collect(), u(bits), (0..8).map(|i| (i * 29 + bits as usize) as u8).collect()])); } } }
        "C04" => { for t in 0..=255usize { for r in [0u64, 1, 2, 12, 15, 16, 20, 31, 32, 62, 63, 64, 126, 127, 128, 254, 255] { v.push(case("rc5", vec![(0..t).map(|i| (i * 37 + t) as u8).collect(), u(r), (0..8).map(|i| (i * 29 + t + r as usize) as u8).collect()])); } } for r in 0..=255u64 { for t in [0usize, 1, 8, 16, 255] { v.push(case("rc5", vec![vec![0xa5; t], u(r), vec![0xff; 8]])); } } }
        "C05" => { for t in (1..=300usize).chain([511, 512, 513, 1000]) { v.push(case("rc4", vec![(0..t).map(|i| (i * 37 + t) as u8).collect(), (0..300).map(|i| i as u8).collect(), vec![0, 1, 7, 255]])); } v.push(case("rc4", vec![vec![1, 2, 3], vec![0; 70000], vec![255; 255]])); for n in [0usize, 1, 255, 256, 257, 511, 512, 513] { v.push(case("rc4", vec![vec![9; 5], vec![7; n], vec![]])); v.push(case("stream", vec![vec![5; n], vec![9; n]])); } }
        "C06" => for n in 1..=255u64 { for l in 0..=n + 1 { for s in 0..2 { let b: Vec<u8> = (0..l).map(|i| if s == 0 { 0x80 } else { (n - l.min(n)) as u8 ^ (i * 3) as u8 }).collect(); v.push(case("pkcs", vec![u(n), b.clone()])); v.push(case("bit", vec![u(n), b])); } } for a in 0..=255u8 { let mut b = vec![0x80u8; n as usize]; *b.last_mut().unwrap() = a; v.push(case("pkcs_un", vec![u(n), b.clone()])); v.push(case("pkcs_un", vec![u(n), vec![a; n as usize]])); let mut c = vec![1u8; n as usize]; c[(a as u64 % n) as usize] = 0x80; v.push(case("bit_un", vec![u(n), c])); v.push(case("bit_un", vec![u(n), vec![a; n as usize]])); } },
        "C07" => for n in BS { for l in (0..=(3 * n + 2).min(520)).chain([4 * n, 16 * n, 16 * n + 1, 17 * n - 1]) { v.push(case("mode", vec![u(n), (0..l).map(|i| (i * 7 + l) as u8).collect(), vec![l as u8], vec![n as u8; 4]])); v.push(case("mode", vec![u(n), vec![1; l as usize], vec![0], vec![]])); } },
        p if HPROPS.contains(&p) => {
            for n in (0..=600usize).chain((600..5000).step_by(61)).chain([1023, 1024, 1025, 4095, 4096, 8191, 8192, 16384, 65535, 65536, 65537]) { for (a, s) in [(0u8, 0u8), (0xff, 0), (0x80, 0), (3, 1), (7, 11)] { if n > 600 && s == 0 && a != 0xff { continue; } v.push(case("fill", vec![u(n as u64), vec![a], vec![s]])); } }
            for n in [1usize << 18, (1 << 20) + 5, (1 << 21) - 9, (1 << 24) + 63] { v.push(case("fill", vec![u(n as u64), vec![1], vec![3]])); }
            if deep { for n in [(1u64 << 27) + 3, (1 << 28) - 9, 1 << 29, (1 << 29) + 200, (1 << 32) / 8 - 1] { if p != "C10" || n < 1 << 28 { v.push(case("fill", vec![u(n), vec![1], vec![3]])); } } }
        }
        "C12" => { for a in 0..=255u8 { v.push(case("words", vec![vec![a; 64]])); v.push(case("words", vec![(0..64).map(|i| a.wrapping_add(i)).collect()])); } for n in (0..=140usize).chain([256]) { v.push(case("hex", vec![vec![b'a'; n]])); v.push(case("hex", vec![vec![b'9'; n]])); v.push(case("hex", vec![vec![b'F'; n]])); } for l in [40usize, 56, 64, 96, 128] { for p in [0, 1, l / 2, l - 1] { for c in 0..=255u8 { let mut t = vec![b'0'; l]; t[p] = c; v.push(case("hex", vec![t])); } } } }
        "C13" => { let vals: Vec<Vec<u8>> = sample_nats(); for a in &vals { for b in &vals { for op in ["add", "sub", "rem"] { v.push(case(op, vec![a.clone(), b.clone()])); } } for n in (0..=40u64).chain([63, 64, 65, 127, 128, 129, 255, 256, 1000]) { v.push(case("shl", vec![a.clone(), u(n)])); v.push(case("shr", vec![a.clone(), u(n)])); } v.push(case("shr", vec![a.clone(), u(u32::MAX as u64)])); for k in [0u8, 1, 2, 127, 128, 254, 255] { v.push(case("add8", vec![a.clone(), vec![k]])); } } for a in 0..=300u32 { for b in 0..=300u32 { let (x, y) = (a.to_be_bytes().to_vec(), b.to_be_bytes().to_vec()); if (a + b) % 3 == 0 { for op in ["add", "sub", "rem"] { v.push(case(op, vec![x.clone(), y.clone()])); } } } } }
        "C14" => { let vals = sample_nats(); for a in &vals { v.push(case("conv", vec![a.clone()])); for b in &vals { v.push(case("cmp", vec![a.clone(), b.clone()])); } for i in 0..40u64 { for s in 0..2u8 { v.push(case("upd", vec![a.clone(), u(i), vec![s]])); } } } for a in 0..=1100u32 { v.push(case("conv", vec![a.to_be_bytes().to_vec()])); } for z in 0..40usize { let mut b = vec![0u8; z]; b.extend([1, 0, 0]); v.push(case("conv", vec![b.clone()])); b.reverse(); v.push(case("conv", vec![b])); } }
        "C15" => for n in 2..=40u8 { for e in [0u8, 1, 2, 3, 5, 7, 8, 16, 17, 31, 32] { for m in [0u8, 1, 2, 3, 7, n - 1, n, n + 1, 255] { v.push(case("pow", vec![vec![n], vec![e], vec![m]])); } } },
        "C16" => for (i, p) in PRIMES.iter().enumerate().take(20) { for (j, q) in PRIMES.iter().enumerate().take(20) { if i != j { for e in [1u64, 3, 5, 7, 11, 17, 65537] { v.push(case("keys", vec![u(*p as u64), u(*q as u64), u(e), u(i as u64 * 7 + j as u64)])); } } } },
        "C17" => { for k in (66..=140u64).chain([255, 256, 257, 384, 512, 1024, 8300]) { for ml in 0..=(k as usize - 66) { if k > 140 && ml % 17 != 0 && ml + 3 < k as usize - 66 { continue; } if k > 300 && ml > 40 && ml + 3 < k as usize - 66 { continue; } v.push(case("enc", vec![vec![ml as u8; ml % 5], vec![(ml * 3) as u8; ml], u(k)])); v.push(case("enc", vec![vec![], vec![if ml % 2 == 0 { 0 } else { 1 }; ml], u(k)])); } } for k in 0..=140u64 { for l in [0usize, 1, 32, 33, 34, 65, 66, 67, k as usize, k as usize + 1] { v.push(case("dec", vec![vec![], vec![0; l], u(k)])); } } }
        "C18" => { for i in 0..KEYS.len() as u64 { for l in 0..3usize { v.push(case("msg", vec![u(i), vec![7; l], vec![0]])); } v.push(case("msg", vec![u(i), vec![0; (KEYS[i as usize].0 as usize + 7) / 8 - 66], vec![1]])); } for k in 66..=200usize { for top in [1u8, 2, 0x7f, 0x80, 0xff] { let mut n = vec![if k % 2 == 0 { 0 } else { 0xff }; k]; n[0] = top; v.push(case("id", vec![n.clone(), vec![3; k - 66]])); v.push(case("id", vec![n, vec![0; (k - 66) / 2]])); } } }
        "C19" => {
            for a in 0..=255u8 { v.push(case("der", vec![vec![a]])); for b in 0..=255u8 { v.push(case("der", vec![vec![a, b]])); if matches!(a, 2..=6 | 0x30) { for t in 0..20usize { let mut w = vec![a, b]; w.extend((0..t).map(|i| if i == t - 1 { (t % 3) as u8 } else { 0 })); v.push(case("der", vec![w])); } v.push(case("der", vec![{ let mut w = vec![a, b]; w.extend(vec![0xff; 20]); w }])); } } }
            for tag in [2u8, 3, 4, 5, 6, 0x30, 0x31, 0] { for n in [0usize, 1, 2, 126, 127, 128, 129, 254, 255, 256, 257, 65535, 65536] { for long in 0..18usize { for d in -1i32..=1 { if n > 300 && (long > 5 || d != 0) { continue; } let body = n as i32 + d; if body < 0 { continue; } let mut w = vec![tag]; w.extend(der_len(n, long)); if tag == 0x30 { let mut x = vec![]; while x.len() + 2 <= body as usize { x.extend([5, 0]); } x.resize(body as usize, 0); w.extend(x); } else { w.extend((0..body).map(|i| i as u8)); } v.push(case("der", vec![w])); } } } }
            let mut t = T::Null; for i in 0..60 { t = if i % 3 == 0 { T::Seq(vec![T::Int(vec![i]), t.clone(), T::Bit(vec![1], 3)]) } else { T::Seq(vec![t]) }; v.push(case("der", vec![der(&t)])); }
        }
        "C20" => {
            for (_, n, e, d) in KEYS { let (n, e, d) = (N::from_be(&hex::decode(n).unwrap()), N::from_u(*e as u128), N::from_be(&hex::decode(d).unwrap())); v.push(case("pub", vec![b"PUBLIC KEY".to_vec(), spki(&n, &e)])); v.push(case("priv", vec![b"PRIVATE KEY".to_vec(), pkcs8(&n, &d)])); v.push(case("priv", vec![b"PUBLIC KEY".to_vec(), pkcs8(&n, &d)])); v.push(case("pub", vec![b"PRIVATE KEY".to_vec(), spki(&n, &e)])); }
            for l in ["", "PUBLIC KEY", "PRIVATE KEY", "RSA PRIVATE KEY", "private key", "PRIVATE KEY ", "PUBLIC KEYS"] { for k in ["pub", "priv"] { let n = N::from_u(77); v.push(case(k, vec![l.as_bytes().to_vec(), spki(&n, &N::from_u(7))])); v.push(case(k, vec![l.as_bytes().to_vec(), pkcs8(&n, &N::from_u(43))])); } }
            // structured mutations of a small key
            let (n, e) = (N::from_u(3233), N::from_u(17));
            for (k, l, base) in [("pub", "PUBLIC KEY", spki(&n, &e)), ("priv", "PRIVATE KEY", pkcs8(&n, &e))] { for i in 0..base.len() { for x in [0u8, 1, 2, 3, 4, 5, 6, 0x30, 0x80, 0x81, 0xff, base[i] ^ 1, base[i].wrapping_add(1), base[i].wrapping_sub(1)] { let mut w = base.clone(); w[i] = x; v.push(case(k, vec![l.as_bytes().to_vec(), w])); } v.push(case(k, vec![l.as_bytes().to_vec(), base[..i].to_vec()])); } for i in 0..4u8 { let mut w = base.clone(); w.extend(vec![i; 1 + i as usize]); v.push(case(k, vec![l.as_bytes().to_vec(), w])); } }
            for t in key_trees() { v.push(t); }
            for l in [127usize, 128, 129, 255, 256, 257, 512, 1024, 65535, 65536, 70000] { let n = N::from_be(&(0..l).map(|i| (i * 89 + 0x91) as u8 | 1).collect::<Vec<u8>>()); for x in [17u128, 1 << 100] { v.push(case("pub", vec![b"PUBLIC KEY".to_vec(), spki(&n, &N::from_u(x))])); v.push(case("priv", vec![b"PRIVATE KEY".to_vec(), pkcs8(&n, &N::from_u(x))])); v.push(case("priv", vec![b"PRIVATE KEY".to_vec(), pkcs8(&n, &n.sub(&N::from_u(x)))])); } }
        }
        _ => {
            for n in (0..=200usize).chain([383, 384, 385, 1000]) { for l in ["A", "", "RSA PRIVATE KEY", "X-----Y", "-----BEGIN A-----", "END", " A", "A ", "-", "A-", "\t", "\u{feff}a", "lower", "a  b", "A\r", "\u{a0}"] { v.push(case("enc", vec![l.as_bytes().to_vec(), (0..n).map(|i| (i * 31 + n) as u8).collect()])); } }
            let (b, e, d) = ("-----BEGIN A-----\n", "-----END A-----\n", "AAEC\n");
            let parts = ["", b, e, d, "\n", "  ", "x\n", "-----BEGIN B-----\n", "-----END B-----\n", "-----BEGIN A\n", "-----END A\n", "-----BEGIN -----\n", "-----END -----\n", "AA==\n", "AB==\n", "AA=\n", "A A E C\n", "-----BEGIN A----- \r\n", "\t-----END A-----\r\n", "-----begin a-----\n", "-----BEGIN A-----x\n", "=\n", "----\n", "-----\n", "-----END\n"];
            for p in parts { for q in parts { for r in parts { v.push(case("dec", vec![[b, p, q, r].concat().into_bytes()])); v.push(case("dec", vec![[p, b, d, q, e, r].concat().into_bytes()])); v.push(case("dec", vec![[p, q, d, r, e].concat().into_bytes()])); } } }
            for c in (0u8..=255).map(|c| c as char).chain(['\u{feff}', '\u{200b}', '\u{200d}', '\u{2028}', '\u{2029}', '\u{2003}', '\u{202f}', '\u{3000}', '\u{180e}', '\u{1680}', '\u{2060}', '\u{ff0d}', '\u{2010}', '\u{ff21}']) {
                let c = c.to_string(); let c = c.as_str();
                for (i, t) in [[c, "", "", "", "", ""], ["", c, "", "", "", ""], ["", "", c, "", "", ""], ["", "", "", c, "", ""], ["", "", "", "", c, ""], ["", "", "", "", "", c]].iter().enumerate() {
                    let _ = i;
                    v.push(case("dec", vec![[t[0], "-----BEGIN A-----", t[1], "\n", t[2], "AAEC", t[3], "\n", t[4], "-----END A-----", t[5]].concat().into_bytes()]));
                    v.push(case("dec", vec![[t[0], "-----BEGIN ", t[1], "A", t[2], "-----\nAAEC\n-----END ", t[3], "A", t[4], "-----", t[5]].concat().into_bytes()]));
                }
                v.push(case("dec", vec![["-----BEGIN ", c, "A-----\nAAEC\n-----END ", c, "A-----"].concat().into_bytes()]));
                v.push(case("dec", vec![["-----BEGIN A", c, "-----\nAAEC\n-----END A", c, "-----"].concat().into_bytes()]));
                v.push(case("dec", vec![["-----BEGIN A-----\nAA", c, "EC\n-----END A-----"].concat().into_bytes()]));
            }
            for c in 0..=255u8 { v.push(case("dec", vec![[b, "AA", &String::from_utf8_lossy(&[c]), "A\n", e].concat().into_bytes()])); v.push(case("dec", vec![[b, "AAA", &String::from_utf8_lossy(&[c]), "\n", e].concat().into_bytes()])); v.push(case("dec", vec![[&String::from_utf8_lossy(&[c]) as &str, b, d, &String::from_utf8_lossy(&[c]), e].concat().into_bytes()])); }
        }
    }
    big_cases(prop, deep, &mut v);
    v
}
/// sizes at which a narrow counter, length field or index wraps
fn big_cases(prop: &str, deep: bool, v: &mut Vec<Case>) {
    let fill = |n: usize, s: usize| -> Vec<u8> { (0..n).map(|i| (i * s + (i >> 8) * 13 + s) as u8).collect() };
    let sizes: &[usize] = if deep { &[127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 8191, 8192, 8193, 16384, 32767, 32768, 65535, 65536, 65537, 131072, 1 << 18] } else { &[127, 128, 255, 256, 257, 512, 1024, 4096, 8191, 8192, 8193, 65536, 65537] };
    let nats = |n: usize| -> Vec<Vec<u8>> { let mut o = vec![vec![0xff; n], fill(n, 73)]; let mut b = vec![0; n]; b[0] = 1; o.push(b.clone()); b[n - 1] |= 1; o.push(b); let mut b = vec![0xff; n]; b[0] = 0x7f; b[n / 2] = 0; o.push(b); o };
    match prop {
        "C05" => for t in [65535usize, 65536, 65537, 70001] { v.push(case("rc4", vec![fill(t, 7), fill(600, 3), vec![200, 200]])); if deep { v.push(case("rc4", vec![fill(17, 5), fill(t * 16, 3), vec![255; 9]])); } },
        "C07" => for n in [8u64, 16, 255] { for l in [65535usize, 65536, 65537, 256 * n as usize, 256 * n as usize + 1, 65536 * n as usize - 1, 65536 * n as usize] { if deep || l < 300_000 { v.push(case("mode", vec![u(n), fill(l, 7), vec![9], vec![n as u8; 4]])); } } },
        "C13" => for n in sizes { for a in nats(*n) {
            for k in [1u8, 255] { v.push(case("add8", vec![a.clone(), vec![k]])); }
            for b in [vec![1], vec![1; 40], a.clone(), fill(*n, 31), { let mut b = vec![0xff; n / 2]; b.push(1); b }] { v.push(case("add", vec![a.clone(), b.clone()])); v.push(case("sub", vec![a.clone(), b.clone()])); if *n <= 600 || b.len() + 16 > *n && *n <= 9000 { v.push(case("rem", vec![a.clone(), b])); } }
            for k in [1u64, 7, 8, 9, 255, 256, 2047, 2048, 65535, 65536, 65537, 1 << 17, 8 * *n as u64 - 1, 8 * *n as u64] { v.push(case("shl", vec![a.clone(), u(k)])); v.push(case("shr", vec![a.clone(), u(k)])); }
            if deep { for k in [(1u64 << 24) + 1, (1 << 19) - 1, 1 << 20] { v.push(case("shl", vec![a.clone(), u(k)])); } }
        } },
        "C14" => for n in sizes { for z in [1usize, 7, 255, 256, 65535, 65536, 65537] { let mut b = vec![0; z]; b.extend(fill(*n % 1000, 73)); v.push(case("conv", vec![b])); } for a in nats(*n) {
            v.push(case("conv", vec![a.clone()]));
            for i in [0usize, *n / 2, *n - 1] { let mut b = a.clone(); b[i] ^= 0x10; v.push(case("cmp", vec![a.clone(), b.clone()])); v.push(case("cmp", vec![b, a.clone()])); }
            v.push(case("cmp", vec![a.clone(), a[1..].to_vec()])); v.push(case("cmp", vec![a.clone(), a.clone()])); v.push(case("cmp", vec![vec![0xff; *n - 1], a.clone()]));
            for i in [0u64, 7, 8, 255, 256, 2047, 2048, 65535, 65536, 8 * *n as u64 - 9, 8 * *n as u64 - 1] { for s in 0..2u8 { v.push(case("upd", vec![a.clone(), u(i), vec![s]])); } }
        } },
        "C15" => { for b in [63usize, 64, 65, 128, 129, 256, 257, 512, 513, 520, 1024, 1025, 2048, 2049] { if !deep && b > 600 && b != 1025 { continue; } for m in nats(b).into_iter().take(if deep { 5 } else { 2 }) { for n in [vec![2u8], vec![251], fill(5, 91), fill(33, 57)] { for e in [vec![1u8], vec![3]] { v.push(case("pow", vec![n.clone(), e, m.clone()])); } } } } for n in [33usize, 64, 65, 128, 129, 255, 256, 257, 512] { if deep || n <= 129 { for a in nats(n) { let e: Vec<u8> = if n <= 65 { fill(9, 91) } else { vec![1, 0, 1] }; v.push(case("pow", vec![a.clone(), e, fill(n + 3, 57)])); v.push(case("pow", vec![a.clone(), vec![3], a.clone()])); v.push(case("pow", vec![vec![7, 3], { let mut x = a.clone(); x.truncate(140); x }, fill(n, 57)])); } } for n in [31usize, 32, 33, 127, 128, 255, 256, 257, 1023, 1024, 8191, 8192, 8193] { if n > 300 && !deep { continue; } for e in nats(n).into_iter().take(if n > 300 { 1 } else { 5 }) { for m in [vec![2u8], vec![200, 3]] { if n > 8000 && m.len() > 1 { continue; } v.push(case("pow", vec![vec![201], e.clone(), m.clone()])); v.push(case("pow", vec![vec![1, 1], e.clone(), m])); } } } for n in [vec![2u8], vec![35], vec![1, 0, 0, 0, 0, 0, 0, 0, 0], fill(20, 91)] { for e in [vec![], vec![0u8], vec![0, 0], vec![1]] { for k in 0..4u128 { let m = N::from_be(&n).mul(&N::from_u(k)).to_be(); v.push(case("pow", vec![n.clone(), e.clone(), m])); } } } } },
        "C17" => { for (l, m, k) in [(70000usize, 10usize, 200u64), (65536, 0, 66), (3, 60000, 66000), (0, 200, 65536 + 40)] { v.push(case("enc", vec![fill(l, 3), fill(m, 5), u(k)])); } if deep { v.push(case("enc", vec![fill(5, 3), fill(77, 5), u((1 << 21) + 300)])); v.push(case("enc", vec![vec![], fill((1 << 21) + 20, 5), u((1 << 21) + 100)])); } }
        "C18" => for k in [255usize, 256, 257, 300, 512, 513, 1024, 1025, 1030, 2049] { if deep || k <= 300 || k == 1030 { for top in [1u8, 0x80, 0xff] { let mut n = fill(k, 37); n[0] = top; v.push(case("id", vec![n.clone(), fill(k - 66, 3)])); v.push(case("id", vec![n, vec![0; k / 3]])); } } },
        "C19" => { for n in [(1usize << 24) - 1, 1 << 24, (1 << 24) + 1] { if deep { for tag in [2u8, 4] { let mut w = vec![tag]; w.extend(der_len(n, 0)); w.resize(w.len() + n, 7); v.push(case("der", vec![w])); } } } for p in [8usize, 16, 24, 32, 40, 48, 56, 64, 72, 80, 96, 112, 120] { for n in [0usize, 1, 2, 5, 127] { for tag in [2u8, 3, 4, 5, 0x30] { let l = p / 8 + 1; let mut w = vec![tag, 0x80 | l as u8]; w.push(1); for k in (0..l - 1).rev() { w.push(if k < 8 { (n >> (8 * k)) as u8 } else { 0 }); } if tag == 0x30 { w.extend([5u8, 0].iter().cycle().take(n)); } else { w.extend(vec![7; n]); } v.push(case("der", vec![w.clone()])); w.extend(vec![0; 64]); v.push(case("der", vec![w])); } } } let mut t = T::Null; for i in 0..600 { t = T::Seq(vec![t]); if i % 100 == 99 { v.push(case("der", vec![der(&t)])); } } for n in [127usize, 128, 255, 256, 300, 65536] { v.push(case("der", vec![der(&T::Seq(vec![T::Null; n]))])); } }
        "C21" => for n in [1500usize, 3071, 3072, 3073, 4096, 12288, 49151, 49152, 49153, 65535, 65536, 65537, 1 << 20] { if deep || n < 70000 { v.push(case("enc", vec![b"BIG".to_vec(), fill(n, 7)])); } },
        _ => {}
    }
}
/// key structures with elements missing, duplicated, swapped or of the wrong kind
fn key_trees() -> Vec<Case> {
    let mut v = vec![];
    let i = |x: u8| T::Int(vec![x]);
    let alts = [T::Int(vec![0]), T::Int(vec![]), T::Int(vec![0, 0]), T::Int(vec![1]), T::Int(vec![0x7f, 3]), T::Null, T::Oct(vec![0]), T::Bit(vec![0], 0), T::Oid(vec![42]), T::Oid(RSA_OID.to_vec()), T::Seq(vec![]), algo(), T::Seq(vec![T::Oid(RSA_OID.to_vec())]), T::Seq(vec![T::Null, T::Oid(RSA_OID.to_vec())]), T::Seq(vec![T::Oid(RSA_OID.to_vec()), T::Null, T::Null]), T::Seq(vec![T::Oid({ let mut o = RSA_OID.to_vec(); o[8] = 2; o }), T::Null]), T::Seq(vec![T::Oid(RSA_OID[..8].to_vec()), T::Null]), T::Seq(vec![T::Oid({ let mut o = RSA_OID.to_vec(); o.push(1); o }), T::Null]), T::Seq(vec![T::Oid({ let mut o = vec![0]; o.extend(RSA_OID); o }), T::Null]), T::Seq(vec![T::Oid(vec![]), T::Null])];
    let inner: Vec<T> = (0..9).map(|k| if k == 0 { i(0) } else { T::Int(vec![0x21 + 7 * k as u8, k as u8 * 2 + 1]) }).collect();
    let pinner = vec![T::Int(vec![0x0c, 0xa1]), T::Int(vec![0x11])];
    let muts = |t: &[T]| -> Vec<Vec<T>> { let mut o = vec![t.to_vec()]; for k in 0..t.len() { let mut w = t.to_vec(); w.remove(k); o.push(w); let mut w = t.to_vec(); w.insert(k, t[k].clone()); o.push(w); for a in &alts { let mut w = t.to_vec(); w[k] = a.clone(); o.push(w); let mut w = t.to_vec(); w.insert(k, a.clone()); o.push(w); } for l in 0..k { let mut w = t.to_vec(); w.swap(k, l); o.push(w); } } for a in &alts { let mut w = t.to_vec(); w.push(a.clone()); o.push(w); } o };
    let mut put = |p: bool, t: T| v.push(case(if p { "priv" } else { "pub" }, vec![if p { b"PRIVATE KEY".to_vec() } else { b"PUBLIC KEY".to_vec() }, der(&t)]));
    for w in muts(&inner) { put(true, T::Seq(vec![i(0), algo(), T::Oct(der(&T::Seq(w)))])); }
    for w in muts(&pinner) { put(false, T::Seq(vec![algo(), T::Bit(der(&T::Seq(w.clone())), 0)])); put(false, T::Seq(vec![algo(), T::Bit(der(&T::Seq(w)), 1)])); }
    for w in muts(&[i(0), algo(), T::Oct(der(&T::Seq(inner.clone())))]) { put(true, T::Seq(w)); }
    for w in muts(&[algo(), T::Bit(der(&T::Seq(pinner.clone())), 0)]) { put(false, T::Seq(w)); }
    for x in 0..=255u8 { let mut w = inner.clone(); w[0] = i(x); put(true, T::Seq(vec![i(0), algo(), T::Oct(der(&T::Seq(w)))])); put(true, T::Seq(vec![i(x), algo(), T::Oct(der(&T::Seq(inner.clone())))])); put(false, T::Seq(vec![algo(), T::Bit(der(&T::Seq(pinner.clone())), x)])); }
    for z in 0..4usize { for len in [1usize, 16, 17, 32, 33] { let mut n = vec![0u8; z]; n.extend((0..len).map(|k| (k * 17 + 0x91) as u8)); let mut w = inner.clone(); w[1] = T::Int(n.clone()); w[3] = T::Int({ let mut d = vec![0; z]; d.extend([5, 1]); d }); put(true, T::Seq(vec![i(0), algo(), T::Oct(der(&T::Seq(w)))])); put(false, T::Seq(vec![algo(), T::Bit(der(&T::Seq(vec![T::Int(n), T::Int({ let mut d = vec![0; z]; d.extend([1, 0, 1]); d })])), 0)])); } }
    let mut x = der(&T::Seq(inner.clone())); x.push(0); put(true, T::Seq(vec![i(0), algo(), T::Oct(x)]));
    let mut x = der(&T::Seq(pinner.clone())); x.push(5); put(false, T::Seq(vec![algo(), T::Bit(x, 0)]));
    v
}
fn sample_nats() -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = vec![vec![], vec![0], vec![1], vec![2], vec![0x7f], vec![0x80], vec![0xff], vec![0, 0, 5]];
    for k in [1usize, 2, 3, 7, 8, 15, 16, 17, 31, 32, 33] { v.push({ let mut b = vec![1]; b.extend(vec![0; k]); b }); v.push(vec![0xff; k]); v.push({ let mut b = vec![0x80]; b.extend(vec![0; k - 1]); b }); v.push({ let mut b = vec![0xff; k]; b[k - 1] = 0xfe; b }); v.push((0..k).map(|i| (i * 73 + 17) as u8).collect()); v.push({ let mut b = vec![0; k]; b[0] = 1; b[k - 1] |= 1; b }); v.push({ let mut b = vec![0xff; k]; b[k / 2] = 0; b }); }
    v
}
fn rand_tree(g: &mut Gen, depth: usize) -> T {
    let n = g.len(if depth > 2 { 12 } else { 300 });
    match g.r.below(if depth > 5 { 5 } else { 8 }) { 0 => T::Int(g.bytes(n)), 1 => T::Oct(g.bytes(n)), 2 => { let b = g.byte(); T::Bit(g.bytes(n), b) } 3 => T::Null, 4 => T::Oid(g.bytes(n.min(20))), _ => { let k = g.r.below(5); T::Seq((0..k).map(|_| rand_tree(g, depth + 1)).collect()) } }
}
/// encoding with random (also non-minimal) length forms
fn rand_der(g: &mut Gen, t: &T) -> Vec<u8> {
    let d = der(t);
    let body: Vec<u8> = match t { T::Seq(v) => v.iter().flat_map(|x| rand_der(g, x)).collect(), _ => { let h = if d[1] < 128 { 2 } else { 2 + (d[1] & 127) as usize }; d[h..].to_vec() } };
    let long = if g.r.below(4) == 0 { 1 + g.r.below(16) } else { 0 };
    let mut o = vec![d[0]]; o.extend(der_len(body.len(), long)); o.extend(body); o
}
fn mutate(g: &mut Gen, mut b: Vec<u8>) -> Vec<u8> {
    for _ in 0..1 + g.r.below(3) {
        if b.is_empty() { b.push(g.byte()); continue; }
        let i = g.r.below(b.len());
        match g.r.below(6) { 0 => b[i] = g.byte(), 1 => b[i] ^= 1 << g.r.below(8), 2 => { b.remove(i); } 3 => { let x = g.byte(); b.insert(i, x); } 4 => b.truncate(i), _ => { let n = g.r.below(8); let x = g.bytes(n); b.extend(x); } }
    }
    b
}
pub fn random(prop: &str, g: &mut Gen) -> Case {
    match prop {
        "C01" | "C02" => { let k = g.r.pick(&[16usize, 24, 32]); case(if prop == "C01" { "enc" } else { "inv" }, vec![g.bytes(k), g.bytes(16)]) }
        "C03" => { let t = 1 + g.r.below(128); let bits = match g.r.below(3) { 0 => 1 + g.r.below(1024), 1 => 8 * (1 + g.r.below(128)), _ => (g.word() % 1024) as usize + 1 }; case("rc2", vec![g.bytes(t), u(bits as u64), g.bytes(8)]) }
        "C04" => { let t = if g.r.below(2) == 0 { g.r.below(256) } else { g.r.below(40) }; let r = if g.r.below(4) == 0 { g.r.below(256) } else { g.r.below(24) }; case("rc5", vec![g.bytes(t), u(r as u64), g.bytes(8)]) }
        "C05" => if g.r.below(6) == 0 { let n = g.len(2000); case("stream", vec![g.bytes(n), g.bytes(n)]) } else { let t = 1 + g.len(299); let n = if g.r.below(20) == 0 { g.len(70000) } else { g.len(2000) }; let c = g.r.below(6); case("rc4", vec![g.bytes(t), g.bytes(n), g.bytes(c)]) },
        "C06" => { let n = 1 + g.r.below(255); match g.r.below(4) { 0 => { let l = g.r.below(n + 2); case("pkcs", vec![u(n as u64), g.bytes(l)]) } 1 => { let l = g.r.below(n + 2); case("bit", vec![u(n as u64), g.bytes(l)]) } 2 => case("pkcs_un", vec![u(n as u64), g.bytes(n)]), _ => case("bit_un", vec![u(n as u64), g.bytes(n)]) } }
        "C07" => match g.r.below(5) { 0 => { let w = g.byte(); let n = g.len(3000); case("real", vec![vec![w], g.bytes(n), g.bytes(16)]) } 1 => { let n = g.r.pick(&[1u64, 4, 8, 16, 255]); let l = g.len(800); case("dec", vec![u(n), g.bytes(l), g.bytes(1)]) } _ => { let n = g.r.pick(&BS); let l = g.len(if n > 64 { 3000 } else { 1000 }); case("mode", vec![u(n), g.bytes(l), g.bytes(1), g.bytes(n as usize)]) } },
        p if HPROPS.contains(&p) => { let n = if g.r.below(40) == 0 { g.len(70000) } else { g.len(1500) }; case("msg", vec![g.bytes(n)]) }
        "C12" => if g.r.below(2) == 0 { case("words", vec![g.bytes(64)]) } else { let l = g.r.pick(&[20usize, 28, 32, 48, 64, 0, 1, 33]); let b = g.bytes(l); let mut t = if g.r.below(2) == 0 { hex::encode(b) } else { hex::encode_upper(b) }.into_bytes(); for _ in 0..g.r.below(3) { if !t.is_empty() { let i = g.r.below(t.len()); match g.r.below(5) { 0 => t[i] = g.byte(), 1 => { t.remove(i); } 2 => t[i].make_ascii_uppercase(), 3 => t[i].make_ascii_lowercase(), _ => t.insert(i, b'0') } } } case("hex", vec![t]) },
        "C13" => { let max = if g.r.below(10) == 0 { 300 } else { 48 }; let a = g.nat(max); match g.r.below(6) { 0 => { let b = g.nat(max); case("add", vec![a, b]) } 1 => { let b = g.byte(); case("add8", vec![a, vec![b]]) } 2 => { let b = if g.r.below(3) == 0 { let mut b = a.clone(); if !b.is_empty() { let i = g.r.below(b.len()); b[i] = b[i].wrapping_sub(1); } b } else { g.nat(max) }; case("sub", vec![a, b]) } 3 => { let b = g.nat(max.min(64)); case("rem", vec![a, b]) } k => { let n = match g.r.below(4) { 0 => g.r.below(17), 1 => 8 * g.r.below(70), 2 => g.len(4000), _ => g.r.below(500) }; case(if k == 4 { "shl" } else { "shr" }, vec![a, u(n as u64)]) } } }
        "C14" => { let a = g.nat(40); match g.r.below(3) { 0 => case("conv", vec![a]), 1 => { let b = if g.r.below(2) == 0 { let mut b = a.clone(); if !b.is_empty() { let i = g.r.below(b.len()); b[i] ^= 1 << g.r.below(8); } b } else { g.nat(40) }; case("cmp", vec![a, b]) } _ => { let i = g.r.next() >> 32; let s = g.byte(); case("upd", vec![a, u(i), vec![s]]) } } }
        "C15" => { let k = g.r.pick(&[1usize, 2, 4, 8, 9, 16, 17, 24, 33]); let mut n = g.nat(k); if N::from_be(&n).bits() < 2 { n = vec![2 + g.byte() % 200]; } let e = g.nat(if k > 16 { 4 } else { 17 }); let m = g.nat(k + 8); case("pow", vec![n, e, m]) }
        "C16" => { let (p, q) = match g.r.below(4) {
                0 | 1 => { let p = g.r.pick(PRIMES); (p, loop { let q = g.r.pick(PRIMES); if N::from_u(p).mul(&N::from_u(q)).bits() <= 127 { break q; } }) }
                2 => { let a = 3 + g.r.below(60) as u32; let b = 3 + g.r.below(60) as u32; (next_prime(g.r.next() >> (64 - a)), next_prime(g.r.next() >> (64 - b))) }
                // ratios whose continued fraction is long (about the golden ratio) or starts with a huge quotient
                _ => { let p = next_prime(g.r.next() >> (3 + g.r.below(40) as u32)); if g.r.below(3) > 0 { (p, next_prime((p * 11400714819323198485 >> 64) as u64)) } else { let k = 1 + g.r.below(1 << 10) as u128; (p, next_prime((p.saturating_mul(k) & (u64::MAX as u128 >> 2)) as u64)) } }
            }; let e = match g.r.below(4) { 0 => 65537, 1 => g.word(), 2 => (g.r.next() as u128) | 1, _ => g.r.pick(PRIMES) }; let m = g.nat(16); case("keys", vec![p.to_be_bytes().to_vec(), q.to_be_bytes().to_vec(), e.to_be_bytes().to_vec(), m]) }
        "C17" => {
            let mx = if g.r.below(10) == 0 { 1200 } else { 200 }; let k = 66 + g.len(mx); let ll = if g.r.below(2) == 0 { 0 } else { g.len(100) }; let label = g.bytes(ll);
            match g.r.below(4) {
                0 => { let ml = g.r.below(k - 65); case("enc", vec![label, g.bytes(ml), u(k as u64)]) }
                1 => { let l = if g.r.below(3) == 0 { g.len(300) } else { k }; let mut em = g.bytes(l); if !em.is_empty() && g.r.below(2) == 0 { em[0] = 0; } case("dec", vec![label, em, u(k as u64)]) }
                2 => { let ml = g.r.below(k - 65); let m = g.bytes(ml); let seed = g.bytes(32); let em = oaep_seal(sha2o(), &label, &m, k, &seed); let em = mutate(g, em); let k2 = if g.r.below(3) == 0 { em.len() } else { k }; case("dec", vec![label, em, u(k2 as u64)]) }
                _ => { let mut db = if g.r.below(8) == 0 { g.bytes(32) } else { sha2o().hash(256, &label) }; let mut rest = vec![0u8; k - 65]; match g.r.below(4) { 0 => {} 1 => { let i = g.r.below(rest.len()); let x = g.byte(); rest[i] = x; } 2 => { let i = g.r.below(rest.len()); rest[i] = 1; for j in i + 1..rest.len() { rest[j] = g.byte(); } } _ => { rest = g.bytes(k - 65); } } db.extend(rest); let z = if g.r.below(8) == 0 { g.byte() } else { 0 }; let seed = g.bytes(32); case("db", vec![label, db, u(k as u64), seed, vec![z]]) }
            }
        }
        "C18" if g.r.below(8) != 0 => { let kl = 66 + g.len(150); let mut n = g.bytes(kl); if n[0] == 0 { n[0] = g.byte() | 1; } if g.r.below(2) == 0 { n[0] = 1 << g.r.below(8); } let ml = if g.r.below(3) == 0 { kl - 66 } else { g.r.below(kl - 65) }; case("id", vec![n, g.bytes(ml)]) }
        "C18" => { let i = g.r.below(KEYS.len()); let room = (KEYS[i].0 as usize + 7) / 8 - 66; let l = g.r.below(room + 1); let w = u8::from(g.r.below(8) == 0); case("msg", vec![u(i as u64), g.bytes(l), vec![w]]) }
        "C19" => match g.r.below(4) { 0 => { let n = g.len(40); case("der", vec![g.bytes(n)]) } 1 => { let t = rand_tree(g, 0); case("der", vec![rand_der(g, &t)]) } _ => { let t = rand_tree(g, 0); let d = rand_der(g, &t); case("der", vec![mutate(g, d)]) } },
        "C20" => {
            let n = g.nat(36); let e = g.nat(16); let pad = |b: Vec<u8>| T::Int(b);
            let private = g.r.below(2) == 0;
            let inner = if private { let mut w: Vec<T> = vec![T::Int(vec![if g.r.below(6) == 0 { g.byte() } else { 0 }]), pad(n), pad(g.nat(4)), pad(e)]; for _ in 0..5 { w.push(pad(g.nat(6))); } T::Seq(w) } else { T::Seq(vec![pad(n), pad(e)]) };
            let ib = rand_der(g, &inner); let ib = if g.r.below(6) == 0 { mutate(g, ib) } else { ib };
            let t = if private { T::Seq(vec![T::Int(vec![0]), algo(), T::Oct(ib)]) } else { T::Seq(vec![algo(), T::Bit(ib, 0)]) };
            let d = rand_der(g, &t); let d = if g.r.below(4) == 0 { mutate(g, d) } else { d };
            case(if private { "priv" } else { "pub" }, vec![if private { b"PRIVATE KEY".to_vec() } else { b"PUBLIC KEY".to_vec() }, d])
        }
        _ => {
            let n = g.len(400); let data = g.bytes(n);
            let label: String = match g.r.below(4) { 0 => "PRIVATE KEY".into(), 1 => g.r.pick(&["A", "", "A B", "x-----", "-----END Q", "é", "BEGIN", "A-----B"]).to_string(), _ => { let k = g.r.below(12); let s: String = (0..k).map(|_| g.r.pick(&['A', 'Z', '-', ' ', '=', 'é', '1', '\u{2003}', '~', '\t', '\r'])).collect(); s } };
            if g.r.below(3) == 0 { return case("enc", vec![label.into_bytes(), data]); }
            let t = pem_text(&label, &data);
            let mut ls: Vec<String> = t.split('\n').map(|s| s.to_string()).collect();
            for _ in 0..g.r.below(4) {
                let i = g.r.below(ls.len());
                match g.r.below(10) { 8 => { let w = if g.d.strs.is_empty() { String::new() } else { String::from_utf8_lossy(&g.r.pick(&g.d.strs)).to_string() }; let k = g.r.below(ls[i].chars().count() + 1); let k = match g.r.below(3) { 0 => 0, 1 => ls[i].chars().count(), _ => k }; let at = ls[i].char_indices().nth(k).map_or(ls[i].len(), |x| x.0); ls[i].insert_str(at, &w) } 0 => { ls.remove(i); if ls.is_empty() { ls.push(String::new()); } } 1 => { let l = ls[i].clone(); let j = g.r.below(ls.len()); ls.insert(j, l); } 2 => { let w = g.r.pick(&["  \t", " ", "\u{feff}", "\u{a0}", "\u{200b}", "\u{b}", "\0"]); ls[i].insert_str(0, w) } 3 => { let w = g.r.pick(&[" \r", "\r\r", "\u{a0}", "\u{feff}", "\u{2028}", ";", "\0"]); ls[i].push_str(w) } 4 => { let j = g.r.below(ls.len()); ls.swap(i, j); } 5 => { let s = g.r.pick(&["junk", "", "-----BEGIN X-----", "-----END X-----", "-----BEGIN ", "-----END A", "AAAA", "AA==", "Zm8=", "a b"]).to_string(); ls.insert(i, s); } 6 => { let b = mutate(g, ls[i].clone().into_bytes()); ls[i] = String::from_utf8_lossy(&b).to_string(); } 7 => { let s = ls[i].clone(); let cs: Vec<char> = s.chars().collect(); if cs.len() > 1 { let k = 1 + g.r.below(cs.len() - 1); ls[i] = cs[..k].iter().collect(); ls.insert(i + 1, cs[k..].iter().collect()); } } _ => { ls[i] = ls[i].to_lowercase(); } }
            }
            case("dec", vec![ls.join("\n").into_bytes()])
        }
    }
}
fn is_prime(n: u128) -> bool { // Miller-Rabin, exact below 2^64
    let w = [2u128, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37];
    if n < 2 { return false; }
    for a in w { if n % a == 0 { return n == a; } }
    let (d, k) = ((n - 1) >> (n - 1).trailing_zeros(), (n - 1).trailing_zeros());
    'o: for a in w {
        let (mut x, mut b, mut e) = (1u128, a, d);
        while e > 0 { if e & 1 == 1 { x = x * b % n; } b = b * b % n; e >>= 1; }
        if x == 1 || x == n - 1 { continue; }
        for _ in 1..k { x = x * x % n; if x == n - 1 { continue 'o; } }
        return false;
    }
    true
}
fn next_prime(n: u64) -> u128 { let mut n = n.max(2) as u128; while !is_prime(n) { n += 1; } n }
/// a non-trivial case: not all fields empty or constant
pub fn nontrivial(c: &Case) -> bool { c.f.iter().any(|x| x.len() > 1 && x.iter().any(|b| *b != x[0])) }
/// smaller variants, for shrinking
pub fn shrink(c: &Case) -> Vec<Case> {
    let mut v = vec![];
    for (i, x) in c.f.iter().enumerate() {
        let mut put = |y: Vec<u8>| { let mut d = c.clone(); d.f[i] = y; v.push(d); };
        if x.len() > 1 { put(x[..x.len() / 2].to_vec()); put(x[x.len() / 2..].to_vec()); put(x[..x.len() - 1].to_vec()); put(x[1..].to_vec()); }
        if x.iter().any(|b| *b != 0) { put(vec![0; x.len()]); for k in 0..x.len().min(64) { if x[k] != 0 { let mut y = x.clone(); y[k] = 0; put(y); } } }
    }
    v
}
