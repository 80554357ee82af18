//! Independent reference definitions (written from the standards, not from /repo).
#![allow(dead_code)]

// ---------- arbitrary-size naturals, little-endian u32 limbs, no trailing zero limb
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct N(pub Vec<u32>);
impl N {
    pub fn zero() -> N { N(vec![]) }
    pub fn from_u(mut v: u128) -> N { let mut r = vec![]; while v != 0 { r.push(v as u32); v >>= 32; } N(r) }
    fn norm(mut self) -> N { while self.0.last() == Some(&0) { self.0.pop(); } self }
    pub fn from_be(b: &[u8]) -> N {
        let mut r = vec![];
        for c in b.rchunks(4) { let mut v = 0u32; for x in c { v = v << 8 | *x as u32; } r.push(v); }
        N(r).norm()
    }
    pub fn to_be(&self) -> Vec<u8> {
        let mut r: Vec<u8> = self.0.iter().rev().flat_map(|x| x.to_be_bytes()).collect();
        let z = r.iter().position(|x| *x != 0).unwrap_or(r.len());
        r.drain(..z);
        r
    }
    pub fn is_zero(&self) -> bool { self.0.is_empty() }
    pub fn bits(&self) -> u64 { match self.0.last() { None => 0, Some(t) => (self.0.len() as u64 - 1) * 32 + (32 - t.leading_zeros() as u64) } }
    pub fn bit(&self, i: u64) -> bool { let w = (i / 32) as usize; w < self.0.len() && self.0[w] >> (i % 32) & 1 == 1 }
    pub fn cmp(&self, o: &N) -> std::cmp::Ordering {
        if self.0.len() != o.0.len() { return self.0.len().cmp(&o.0.len()); }
        for i in (0..self.0.len()).rev() { if self.0[i] != o.0[i] { return self.0[i].cmp(&o.0[i]); } }
        std::cmp::Ordering::Equal
    }
    pub fn lt(&self, o: &N) -> bool { self.cmp(o) == std::cmp::Ordering::Less }
    pub fn add(&self, o: &N) -> N {
        let mut r = vec![]; let mut c = 0u64;
        for i in 0..self.0.len().max(o.0.len()) { let s = c + *self.0.get(i).unwrap_or(&0) as u64 + *o.0.get(i).unwrap_or(&0) as u64; r.push(s as u32); c = s >> 32; }
        r.push(c as u32);
        N(r).norm()
    }
    pub fn sub(&self, o: &N) -> N {
        let mut r = vec![]; let mut b = 0i64;
        for i in 0..self.0.len() { let mut s = self.0[i] as i64 - *o.0.get(i).unwrap_or(&0) as i64 - b; b = 0; if s < 0 { s += 1 << 32; b = 1; } r.push(s as u32); }
        N(r).norm()
    }
    pub fn mul(&self, o: &N) -> N {
        let mut r = vec![0u32; self.0.len() + o.0.len() + 1];
        for i in 0..self.0.len() { let mut c = 0u64; for j in 0..o.0.len() { let s = self.0[i] as u64 * o.0[j] as u64 + r[i + j] as u64 + c; r[i + j] = s as u32; c = s >> 32; } r[i + o.0.len()] = c as u32; }
        N(r).norm()
    }
    pub fn shl(&self, n: u64) -> N {
        if self.is_zero() { return N::zero(); }
        let (w, b) = ((n / 32) as usize, (n % 32) as u32);
        let mut r = vec![0u32; w]; let mut c = 0u64;
        for x in &self.0 { let s = (*x as u64) << b | c; r.push(s as u32); c = s >> 32; }
        r.push(c as u32);
        N(r).norm()
    }
    pub fn shr(&self, n: u64) -> N {
        let (w, b) = ((n / 32) as usize, (n % 32) as u32);
        let mut r = vec![];
        for i in w..self.0.len() { let hi = *self.0.get(i + 1).unwrap_or(&0) as u64; r.push(((hi << 32 | self.0[i] as u64) >> b) as u32); }
        N(r).norm()
    }
    /// schoolbook long division (Knuth D)
    pub fn divrem(&self, d: &N) -> (N, N) {
        assert!(!d.is_zero());
        if self.lt(d) { return (N::zero(), self.clone()); }
        if d.0.len() == 1 {
            let v = d.0[0] as u64; let mut q = vec![0u32; self.0.len()]; let mut r = 0u64;
            for i in (0..self.0.len()).rev() { let c = r << 32 | self.0[i] as u64; q[i] = (c / v) as u32; r = c % v; }
            return (N(q).norm(), N::from_u(r as u128));
        }
        let s = d.0.last().unwrap().leading_zeros() as u64;
        let v = d.shl(s); let mut u = self.shl(s).0; u.push(0);
        if u.len() < self.0.len() + 1 { u.resize(self.0.len() + 1, 0); }
        let n = v.0.len(); let m = u.len() - n - 1;
        let mut q = vec![0u32; m + 1];
        for j in (0..=m).rev() {
            let num = (u[j + n] as u64) << 32 | u[j + n - 1] as u64;
            let mut qh = num / v.0[n - 1] as u64; let mut rh = num % v.0[n - 1] as u64;
            while qh >> 32 != 0 || qh * v.0[n - 2] as u64 > (rh << 32 | u[j + n - 2] as u64) { qh -= 1; rh += v.0[n - 1] as u64; if rh >> 32 != 0 { break; } }
            let mut b = 0i64; let mut c = 0u64;
            for i in 0..n { let p = qh * v.0[i] as u64 + c; c = p >> 32; let t = u[i + j] as i64 - b - (p & 0xffff_ffff) as i64; u[i + j] = t as u32; b = if t < 0 { 1 } else { 0 }; }
            let t = u[j + n] as i64 - b - c as i64; u[j + n] = t as u32;
            if t < 0 { qh -= 1; let mut c = 0u64; for i in 0..n { let s = u[i + j] as u64 + v.0[i] as u64 + c; u[i + j] = s as u32; c = s >> 32; } u[j + n] = (u[j + n] as u64 + c) as u32; }
            q[j] = qh as u32;
        }
        u.truncate(n);
        (N(q).norm(), N(u).norm().shr(s))
    }
    pub fn rem(&self, d: &N) -> N { self.divrem(d).1 }
    pub fn powmod(&self, e: &N, m: &N) -> N {
        let mut r = N::from_u(1).rem(m); let b = self.rem(m);
        for i in (0..e.bits()).rev() { r = r.mul(&r).rem(m); if e.bit(i) { r = r.mul(&b).rem(m); } }
        r
    }
    pub fn gcd(a: &N, b: &N) -> N { let (mut a, mut b) = (a.clone(), b.clone()); while !b.is_zero() { let t = a.rem(&b); a = b; b = t; } a }
    /// inverse of a modulo m (gcd 1)
    pub fn inv(a: &N, m: &N) -> N {
        // extended Euclid with values kept modulo m
        let (mut r0, mut r1) = (m.clone(), a.rem(m));
        let (mut t0, mut t1) = (N::zero(), N::from_u(1).rem(m));
        while !r1.is_zero() {
            let (q, r) = r0.divrem(&r1);
            let x = q.mul(&t1).rem(m);
            let t = if t0.lt(&x) { t0.add(m).sub(&x) } else { t0.sub(&x) };
            r0 = r1; r1 = r; t0 = t1; t1 = t;
        }
        t0
    }
}

// ---------- AES (FIPS 197), tables computed
fn gmul(a: u8, b: u8) -> u8 { let (mut a, mut b, mut r) = (a as u16, b, 0u16); while b != 0 { if b & 1 == 1 { r ^= a; } a <<= 1; if a & 0x100 != 0 { a ^= 0x11b; } b >>= 1; } r as u8 }
pub fn aes_sbox() -> [u8; 256] {
    let mut s = [0u8; 256];
    for x in 0..256usize {
        let mut inv = 0u8;
        for y in 1..=255u8 { if gmul(x as u8, y) == 1 { inv = y; } }
        let mut o = 0u8;
        for i in 0..8 { let b = (inv >> i) ^ (inv >> ((i + 4) % 8)) ^ (inv >> ((i + 5) % 8)) ^ (inv >> ((i + 6) % 8)) ^ (inv >> ((i + 7) % 8)) ^ (0x63u8 >> i); o |= (b & 1) << i; }
        s[x] = o;
    }
    s
}
pub struct AesO { w: Vec<[u8; 4]>, nr: usize, s: [u8; 256] }
impl AesO {
    pub fn new(key: &[u8], s: &[u8; 256]) -> AesO {
        let nk = key.len() / 4; let nr = nk + 6;
        let mut w: Vec<[u8; 4]> = key.chunks(4).map(|c| c.try_into().unwrap()).collect();
        let mut rc = 1u8;
        for i in nk..4 * (nr + 1) {
            let mut t = w[i - 1];
            if i % nk == 0 { t = [s[t[1] as usize] ^ rc, s[t[2] as usize], s[t[3] as usize], s[t[0] as usize]]; rc = gmul(rc, 2); }
            else if nk > 6 && i % nk == 4 { for b in t.iter_mut() { *b = s[*b as usize]; } }
            let p = w[i - nk];
            w.push([p[0] ^ t[0], p[1] ^ t[1], p[2] ^ t[2], p[3] ^ t[3]]);
        }
        AesO { w, nr, s: *s }
    }
    pub fn enc(&self, b: [u8; 16]) -> [u8; 16] {
        let mut st = b;
        let ark = |st: &mut [u8; 16], r: usize| for c in 0..4 { for i in 0..4 { st[4 * c + i] ^= self.w[4 * r + c][i]; } };
        ark(&mut st, 0);
        for r in 1..=self.nr {
            let mut t = [0u8; 16];
            for c in 0..4 { for i in 0..4 { t[4 * c + i] = self.s[st[4 * ((c + i) % 4) + i] as usize]; } }
            if r < self.nr {
                for c in 0..4 { for i in 0..4 { st[4 * c + i] = gmul(t[4 * c + i], 2) ^ gmul(t[4 * c + (i + 1) % 4], 3) ^ t[4 * c + (i + 2) % 4] ^ t[4 * c + (i + 3) % 4]; } }
            } else { st = t; }
            ark(&mut st, r);
        }
        st
    }
}

// ---------- RC2 (RFC 2268)
const PI: [u8; 256] = [
0xd9,0x78,0xf9,0xc4,0x19,0xdd,0xb5,0xed,0x28,0xe9,0xfd,0x79,0x4a,0xa0,0xd8,0x9d,0xc6,0x7e,0x37,0x83,0x2b,0x76,0x53,0x8e,0x62,0x4c,0x64,0x88,0x44,0x8b,0xfb,0xa2,
0x17,0x9a,0x59,0xf5,0x87,0xb3,0x4f,0x13,0x61,0x45,0x6d,0x8d,0x09,0x81,0x7d,0x32,0xbd,0x8f,0x40,0xeb,0x86,0xb7,0x7b,0x0b,0xf0,0x95,0x21,0x22,0x5c,0x6b,0x4e,0x82,
0x54,0xd6,0x65,0x93,0xce,0x60,0xb2,0x1c,0x73,0x56,0xc0,0x14,0xa7,0x8c,0xf1,0xdc,0x12,0x75,0xca,0x1f,0x3b,0xbe,0xe4,0xd1,0x42,0x3d,0xd4,0x30,0xa3,0x3c,0xb6,0x26,
0x6f,0xbf,0x0e,0xda,0x46,0x69,0x07,0x57,0x27,0xf2,0x1d,0x9b,0xbc,0x94,0x43,0x03,0xf8,0x11,0xc7,0xf6,0x90,0xef,0x3e,0xe7,0x06,0xc3,0xd5,0x2f,0xc8,0x66,0x1e,0xd7,
0x08,0xe8,0xea,0xde,0x80,0x52,0xee,0xf7,0x84,0xaa,0x72,0xac,0x35,0x4d,0x6a,0x2a,0x96,0x1a,0xd2,0x71,0x5a,0x15,0x49,0x74,0x4b,0x9f,0xd0,0x5e,0x04,0x18,0xa4,0xec,
0xc2,0xe0,0x41,0x6e,0x0f,0x51,0xcb,0xcc,0x24,0x91,0xaf,0x50,0xa1,0xf4,0x70,0x39,0x99,0x7c,0x3a,0x85,0x23,0xb8,0xb4,0x7a,0xfc,0x02,0x36,0x5b,0x25,0x55,0x97,0x31,
0x2d,0x5d,0xfa,0x98,0xe3,0x8a,0x92,0xae,0x05,0xdf,0x29,0x10,0x67,0x6c,0xba,0xc9,0xd3,0x00,0xe6,0xcf,0xe1,0x9e,0xa8,0x2c,0x63,0x16,0x01,0x3f,0x58,0xe2,0x89,0xa9,
0x0d,0x38,0x34,0x1b,0xab,0x33,0xff,0xb0,0xbb,0x48,0x0c,0x5f,0xb9,0xb1,0xcd,0x2e,0xc5,0xf3,0xdb,0x47,0xe5,0xa5,0x9c,0x77,0x0a,0xa6,0x20,0x68,0xfe,0x7f,0xc1,0xad];
pub fn rc2_key(key: &[u8], t1: u16) -> [u16; 64] {
    let mut l = [0u8; 128]; let t = key.len(); l[..t].copy_from_slice(key);
    let t8 = (t1 as usize + 7) / 8; let tm = (255u32 % (1u32 << (8 + t1 as i32 - 8 * t8 as i32))) as u8;
    for i in t..128 { l[i] = PI[(l[i - 1] as usize + l[i - t] as usize) % 256]; }
    l[128 - t8] = PI[(l[128 - t8] & tm) as usize];
    for i in (0..128 - t8).rev() { l[i] = PI[(l[i + 1] ^ l[i + t8]) as usize]; }
    std::array::from_fn(|i| l[2 * i] as u16 + 256 * l[2 * i + 1] as u16)
}
pub fn rc2_enc(k: &[u16; 64], b: [u8; 8]) -> [u8; 8] {
    let mut r: [u16; 4] = std::array::from_fn(|i| b[2 * i] as u16 | (b[2 * i + 1] as u16) << 8);
    let mut j = 0;
    let s = [1, 2, 3, 5];
    for round in 0..16 {
        for i in 0..4 {
            let (p1, p2, p3) = (r[(i + 3) % 4], r[(i + 2) % 4], r[(i + 1) % 4]);
            r[i] = r[i].wrapping_add(k[j]).wrapping_add(p1 & p2).wrapping_add(!p1 & p3); j += 1;
            r[i] = r[i].rotate_left(s[i]);
        }
        if round == 4 || round == 10 { for i in 0..4 { r[i] = r[i].wrapping_add(k[(r[(i + 3) % 4] & 63) as usize]); } }
    }
    let mut o = [0u8; 8]; for i in 0..4 { o[2 * i] = r[i] as u8; o[2 * i + 1] = (r[i] >> 8) as u8; } o
}

// ---------- RC5-32/r/b
pub fn rc5_key(key: &[u8], r: usize) -> Vec<u32> {
    let b = key.len(); let c = std::cmp::max(1, (b + 3) / 4); let t = 2 * (r + 1);
    let mut l = vec![0u32; c]; for i in (0..b).rev() { l[i / 4] = (l[i / 4] << 8).wrapping_add(key[i] as u32); }
    let mut s = vec![0xB7E15163u32; t]; for i in 1..t { s[i] = s[i - 1].wrapping_add(0x9E3779B9); }
    let (mut i, mut j, mut a, mut bb) = (0, 0, 0u32, 0u32);
    for _ in 0..3 * t.max(c) {
        s[i] = s[i].wrapping_add(a).wrapping_add(bb).rotate_left(3); a = s[i];
        l[j] = l[j].wrapping_add(a).wrapping_add(bb).rotate_left(a.wrapping_add(bb) % 32); bb = l[j];
        i = (i + 1) % t; j = (j + 1) % c;
    }
    s
}
pub fn rc5_enc(s: &[u32], r: usize, b: [u8; 8]) -> [u8; 8] {
    let mut a = u32::from_le_bytes(b[..4].try_into().unwrap()).wrapping_add(s[0]);
    let mut c = u32::from_le_bytes(b[4..].try_into().unwrap()).wrapping_add(s[1]);
    for i in 1..=r { a = (a ^ c).rotate_left(c % 32).wrapping_add(s[2 * i]); c = (c ^ a).rotate_left(a % 32).wrapping_add(s[2 * i + 1]); }
    let mut o = [0u8; 8]; o[..4].copy_from_slice(&a.to_le_bytes()); o[4..].copy_from_slice(&c.to_le_bytes()); o
}

// ---------- RC4
pub fn o_rc4(key: &[u8], n: usize) -> Vec<u8> {
    let mut s: Vec<u8> = (0..=255).collect(); let mut j = 0usize;
    for i in 0..256 { j = (j + s[i] as usize + key[i % key.len()] as usize) % 256; s.swap(i, j); }
    let (mut i, mut j) = (0usize, 0usize); let mut o = vec![];
    for _ in 0..n { i = (i + 1) % 256; j = (j + s[i] as usize) % 256; s.swap(i, j); o.push(s[(s[i] as usize + s[j] as usize) % 256]); }
    o
}

// ---------- hashes
fn md_pad(m: &[u8], b: usize, len: &[u8]) -> Vec<u8> { let mut v = m.to_vec(); v.push(0x80); while v.len() % b != b - len.len() { v.push(0); } v.extend_from_slice(len); v }
pub fn o_sha1(m: &[u8]) -> Vec<u8> {
    let mut h = [0x67452301u32, 0xefcdab89, 0x98badcfe, 0x10325476, 0xc3d2e1f0];
    for b in md_pad(m, 64, &(8 * m.len() as u64).to_be_bytes()).chunks(64) {
        let mut w: Vec<u32> = b.chunks(4).map(|c| u32::from_be_bytes(c.try_into().unwrap())).collect();
        for t in 16..80 { let x = w[t - 3] ^ w[t - 8] ^ w[t - 14] ^ w[t - 16]; w.push(x.rotate_left(1)); }
        let [mut a, mut bb, mut c, mut d, mut e] = h;
        for t in 0..80 {
            let (f, k) = match t / 20 { 0 => ((bb & c) ^ (!bb & d), 0x5a827999u32), 1 => (bb ^ c ^ d, 0x6ed9eba1), 2 => ((bb & c) ^ (bb & d) ^ (c & d), 0x8f1bbcdc), _ => (bb ^ c ^ d, 0xca62c1d6) };
            let x = a.rotate_left(5).wrapping_add(f).wrapping_add(e).wrapping_add(k).wrapping_add(w[t]);
            e = d; d = c; c = bb.rotate_left(30); bb = a; a = x;
        }
        for (x, y) in h.iter_mut().zip([a, bb, c, d, e]) { *x = x.wrapping_add(y); }
    }
    h.iter().flat_map(|x| x.to_be_bytes()).collect()
}
fn primes(n: usize) -> Vec<u64> { let mut v = vec![]; let mut c = 2u64; while v.len() < n { if v.iter().all(|p| c % p != 0) { v.push(c); } c += 1; } v }
/// fractional part of the k-th root of p, 64 bits
fn frac_root(p: u64, k: u32) -> u64 {
    // floor(p^(1/k) * 2^64) by bisection on naturals
    let target = N::from_u(p as u128).shl(64 * k as u64);
    let (mut lo, mut hi) = (0u128, 1u128 << 72);
    while hi - lo > 1 { let mid = (lo + hi) / 2; let m = N::from_u(mid); let mut q = m.clone(); for _ in 1..k { q = q.mul(&m); } if target.lt(&q) { hi = mid } else { lo = mid } }
    lo as u64
}
pub struct Sha2 { k64: Vec<u64>, h: [Vec<u64>; 4] }
impl Sha2 {
    pub fn new() -> Sha2 {
        let p = primes(80);
        let k64 = p.iter().map(|p| frac_root(*p, 3)).collect();
        let sq: Vec<u64> = p[..16].iter().map(|p| frac_root(*p, 2)).collect();
        Sha2 { k64, h: [sq[8..16].iter().map(|x| x & 0xffff_ffff).collect(), sq[..8].iter().map(|x| x >> 32).collect(), sq[8..16].to_vec(), sq[..8].to_vec()] }
    }
    pub fn hash(&self, bits: usize, m: &[u8]) -> Vec<u8> {
        if bits <= 256 {
            let mut h: Vec<u32> = self.h[if bits == 224 { 0 } else { 1 }].iter().map(|x| *x as u32).collect();
            for b in md_pad(m, 64, &(8 * m.len() as u64).to_be_bytes()).chunks(64) {
                let mut w: Vec<u32> = b.chunks(4).map(|c| u32::from_be_bytes(c.try_into().unwrap())).collect();
                for t in 16..64 { let (x, y) = (w[t - 15], w[t - 2]); let s0 = x.rotate_right(7) ^ x.rotate_right(18) ^ (x >> 3); let s1 = y.rotate_right(17) ^ y.rotate_right(19) ^ (y >> 10); w.push(s1.wrapping_add(w[t - 7]).wrapping_add(s0).wrapping_add(w[t - 16])); }
                let mut v = h.clone();
                for t in 0..64 {
                    let (a, e) = (v[0], v[4]);
                    let t1 = v[7].wrapping_add(e.rotate_right(6) ^ e.rotate_right(11) ^ e.rotate_right(25)).wrapping_add((e & v[5]) ^ (!e & v[6])).wrapping_add((self.k64[t] >> 32) as u32).wrapping_add(w[t]);
                    let t2 = (a.rotate_right(2) ^ a.rotate_right(13) ^ a.rotate_right(22)).wrapping_add((a & v[1]) ^ (a & v[2]) ^ (v[1] & v[2]));
                    v = vec![t1.wrapping_add(t2), v[0], v[1], v[2], v[3].wrapping_add(t1), v[4], v[5], v[6]];
                }
                for i in 0..8 { h[i] = h[i].wrapping_add(v[i]); }
            }
            let mut o: Vec<u8> = h.iter().flat_map(|x| x.to_be_bytes()).collect(); o.truncate(bits / 8); o
        } else {
            let mut h: Vec<u64> = self.h[if bits == 384 { 2 } else { 3 }].clone();
            for b in md_pad(m, 128, &(8 * m.len() as u128).to_be_bytes()).chunks(128) {
                let mut w: Vec<u64> = b.chunks(8).map(|c| u64::from_be_bytes(c.try_into().unwrap())).collect();
                for t in 16..80 { let (x, y) = (w[t - 15], w[t - 2]); let s0 = x.rotate_right(1) ^ x.rotate_right(8) ^ (x >> 7); let s1 = y.rotate_right(19) ^ y.rotate_right(61) ^ (y >> 6); w.push(s1.wrapping_add(w[t - 7]).wrapping_add(s0).wrapping_add(w[t - 16])); }
                let mut v = h.clone();
                for t in 0..80 {
                    let (a, e) = (v[0], v[4]);
                    let t1 = v[7].wrapping_add(e.rotate_right(14) ^ e.rotate_right(18) ^ e.rotate_right(41)).wrapping_add((e & v[5]) ^ (!e & v[6])).wrapping_add(self.k64[t]).wrapping_add(w[t]);
                    let t2 = (a.rotate_right(28) ^ a.rotate_right(34) ^ a.rotate_right(39)).wrapping_add((a & v[1]) ^ (a & v[2]) ^ (v[1] & v[2]));
                    v = vec![t1.wrapping_add(t2), v[0], v[1], v[2], v[3].wrapping_add(t1), v[4], v[5], v[6]];
                }
                for i in 0..8 { h[i] = h[i].wrapping_add(v[i]); }
            }
            let mut o: Vec<u8> = h.iter().flat_map(|x| x.to_be_bytes()).collect(); o.truncate(bits / 8); o
        }
    }
}
pub fn o_md4(m: &[u8]) -> Vec<u8> {
    let mut h = [0x67452301u32, 0xefcdab89, 0x98badcfe, 0x10325476];
    for b in md_pad(m, 64, &(8u64.wrapping_mul(m.len() as u64)).to_le_bytes()).chunks(64) {
        let x: Vec<u32> = b.chunks(4).map(|c| u32::from_le_bytes(c.try_into().unwrap())).collect();
        let mut v = h;
        for t in 0..48 {
            let (b, c, d) = (v[1], v[2], v[3]);
            let i = t % 16;
            let (f, k, s) = match t / 16 {
                0 => ((b & c) | (!b & d), i, [3, 7, 11, 19][t % 4]),
                1 => (((b & c) | (b & d) | (c & d)).wrapping_add(0x5a827999), (i % 4) * 4 + i / 4, [3, 5, 9, 13][t % 4]),
                _ => ((b ^ c ^ d).wrapping_add(0x6ed9eba1), [0, 8, 4, 12, 2, 10, 6, 14, 1, 9, 5, 13, 3, 11, 7, 15][i], [3, 9, 11, 15][t % 4]),
            };
            let n = v[0].wrapping_add(f).wrapping_add(x[k]).rotate_left(s);
            v = [v[3], n, v[1], v[2]];
        }
        for i in 0..4 { h[i] = h[i].wrapping_add(v[i]); }
    }
    h.iter().flat_map(|x| x.to_le_bytes()).collect()
}
pub fn o_md5(m: &[u8]) -> Vec<u8> {
    let mut h = [0x67452301u32, 0xefcdab89, 0x98badcfe, 0x10325476];
    let t: Vec<u32> = (1..=64).map(|i| ((i as f64).sin().abs() * 4294967296.0) as u32).collect();
    for b in md_pad(m, 64, &(8u64.wrapping_mul(m.len() as u64)).to_le_bytes()).chunks(64) {
        let x: Vec<u32> = b.chunks(4).map(|c| u32::from_le_bytes(c.try_into().unwrap())).collect();
        let mut v = h;
        for i in 0..64 {
            let (b, c, d) = (v[1], v[2], v[3]);
            let (f, k, s) = match i / 16 {
                0 => ((b & c) | (!b & d), i, [7, 12, 17, 22][i % 4]),
                1 => ((b & d) | (c & !d), (5 * i + 1) % 16, [5, 9, 14, 20][i % 4]),
                2 => (b ^ c ^ d, (3 * i + 5) % 16, [4, 11, 16, 23][i % 4]),
                _ => (c ^ (b | !d), (7 * i) % 16, [6, 10, 15, 21][i % 4]),
            };
            let n = b.wrapping_add(v[0].wrapping_add(f).wrapping_add(x[k]).wrapping_add(t[i]).rotate_left(s));
            v = [v[3], n, v[1], v[2]];
        }
        for i in 0..4 { h[i] = h[i].wrapping_add(v[i]); }
    }
    h.iter().flat_map(|x| x.to_le_bytes()).collect()
}
const MD2S: [u8; 256] = [41,46,67,201,162,216,124,1,61,54,84,161,236,240,6,19,98,167,5,243,192,199,115,140,152,147,43,217,188,76,130,202,30,155,87,60,253,212,224,22,103,66,111,24,138,23,229,18,190,78,196,214,218,158,222,73,160,251,245,142,187,47,238,122,169,104,121,145,21,178,7,63,148,194,16,137,11,34,95,33,128,127,93,154,90,144,50,39,53,62,204,231,191,247,151,3,255,25,48,179,72,165,181,209,215,94,146,42,172,86,170,198,79,184,56,210,150,164,125,182,118,252,107,226,156,116,4,241,69,157,112,89,100,113,135,32,134,91,207,101,230,45,168,2,27,96,37,173,174,176,185,246,28,70,97,105,52,64,126,15,85,71,163,35,221,81,175,58,195,92,249,206,186,197,234,38,44,83,13,110,133,40,132,9,211,223,205,244,65,129,77,82,106,220,55,200,108,193,171,250,36,225,123,8,12,189,177,74,120,136,149,139,227,99,232,109,233,203,213,254,59,0,29,57,242,239,183,14,102,88,208,228,166,119,114,248,235,117,75,10,49,68,80,180,143,237,31,26,219,153,141,51,159,17,131,20];
pub fn o_md2(m: &[u8]) -> Vec<u8> {
    let mut v = m.to_vec(); let p = 16 - v.len() % 16; v.extend(std::iter::repeat_n(p as u8, p));
    let mut c = [0u8; 16]; let mut l = 0u8;
    for b in v.chunks(16) { for j in 0..16 { c[j] ^= MD2S[(b[j] ^ l) as usize]; l = c[j]; } }
    v.extend_from_slice(&c);
    let mut x = [0u8; 48];
    for b in v.chunks(16) {
        for j in 0..16 { x[16 + j] = b[j]; x[32 + j] = x[16 + j] ^ x[j]; }
        let mut t = 0u8;
        for j in 0..18u8 { for k in 0..48 { x[k] ^= MD2S[t as usize]; t = x[k]; } t = t.wrapping_add(j); }
    }
    x[..16].to_vec()
}

// ---------- OAEP (RFC 8017) with SHA-256
pub fn mgf1(s: &Sha2, seed: &[u8], n: usize) -> Vec<u8> { let mut o = vec![]; let mut c = 0u32; while o.len() < n { let mut v = seed.to_vec(); v.extend_from_slice(&c.to_be_bytes()); o.extend(s.hash(256, &v)); c += 1; } o.truncate(n); o }
pub fn xor(a: &[u8], b: &[u8]) -> Vec<u8> { a.iter().zip(b).map(|(x, y)| x ^ y).collect() }
pub fn oaep_open(s: &Sha2, label: &[u8], em: &[u8], k: usize) -> Option<Vec<u8>> {
    if em.len() != k || k < 66 || em[0] != 0 { return None; }
    let seed = xor(&em[1..33], &mgf1(s, &em[33..], 32));
    let db = xor(&em[33..], &mgf1(s, &seed, k - 33));
    if db[..32] != s.hash(256, label)[..] { return None; }
    let mut i = 32; while i < db.len() && db[i] == 0 { i += 1; }
    if i == db.len() || db[i] != 1 { return None; }
    Some(db[i + 1..].to_vec())
}
pub fn oaep_seal(s: &Sha2, label: &[u8], m: &[u8], k: usize, seed: &[u8]) -> Vec<u8> {
    let mut db = s.hash(256, label); db.extend(vec![0; k - m.len() - 66]); db.push(1); db.extend_from_slice(m);
    let mdb = xor(&db, &mgf1(s, seed, k - 33));
    let ms = xor(seed, &mgf1(s, &mdb, 32));
    let mut o = vec![0]; o.extend(ms); o.extend(mdb); o
}

// ---------- DER subset
#[derive(Clone, Debug, PartialEq)]
pub enum T { Int(Vec<u8>), Oct(Vec<u8>), Bit(Vec<u8>, u8), Null, Oid(Vec<u8>), Seq(Vec<T>) }
pub fn der(t: &T) -> Vec<u8> {
    let (tag, body) = match t {
        T::Int(b) => (2, b.clone()), T::Oct(b) => (4, b.clone()), T::Bit(b, u) => { let mut v = vec![*u]; v.extend_from_slice(b); (3, v) }
        T::Null => (5, vec![]), T::Oid(b) => (6, b.clone()), T::Seq(v) => (0x30, v.iter().flat_map(der).collect()),
    };
    let mut o = vec![tag]; o.extend(der_len(body.len(), 0)); o.extend(body); o
}
/// `long` = number of length bytes to use (0: minimal)
pub fn der_len(n: usize, long: usize) -> Vec<u8> {
    if n < 128 && long == 0 { return vec![n as u8]; }
    let b = N::from_u(n as u128).to_be(); let k = long.max(b.len()).max(1);
    let mut o = vec![0x80 | k as u8]; o.extend(vec![0; k - b.len()]); o.extend(b); o
}
pub fn parse(b: &[u8]) -> Option<(T, usize)> {
    if b.len() < 2 { return None; }
    let (h, len): (usize, u128) = if b[1] < 128 { (2, b[1] as u128) } else {
        let k = (b[1] & 127) as usize;
        if b.len() < 2 + k || k > 16 { return None; }
        (2 + k, b[2..2 + k].iter().fold(0u128, |a, x| a << 8 | *x as u128))
    };
    if len > (b.len() - h) as u128 { return None; }
    let len = len as usize;
    let c = &b[h..h + len];
    let t = match b[0] {
        2 => T::Int(c.to_vec()), 4 => T::Oct(c.to_vec()), 5 => T::Null, 6 => T::Oid(c.to_vec()),
        3 => { if c.is_empty() { return None; } T::Bit(c[1..].to_vec(), c[0]) }
        0x30 => { let mut v = vec![]; let mut i = 0; while i < c.len() { let (t, n) = parse(&c[i..])?; v.push(t); i += n; } T::Seq(v) }
        _ => return None,
    };
    Some((t, h + len))
}
pub fn parse_all(b: &[u8]) -> Option<T> { let (t, n) = parse(b)?; if n == b.len() { Some(t) } else { None } }
pub const RSA_OID: [u8; 9] = [42, 134, 72, 134, 247, 13, 1, 1, 1];
fn is_rsa_algo(t: &T) -> bool { *t == T::Seq(vec![T::Oid(RSA_OID.to_vec()), T::Null]) }
/// (n, exponent)
pub fn import(label: &str, data: &[u8], private: bool) -> Option<(N, N)> {
    if label != if private { "PRIVATE KEY" } else { "PUBLIC KEY" } { return None; }
    let T::Seq(v) = parse_all(data)? else { return None };
    let ints = |v: &[T]| -> Option<Vec<Vec<u8>>> { v.iter().map(|t| if let T::Int(b) = t { Some(b.clone()) } else { None }).collect() };
    if private {
        if v.len() != 3 || v[0] != T::Int(vec![0]) || !is_rsa_algo(&v[1]) { return None; }
        let T::Oct(b) = &v[2] else { return None };
        let T::Seq(w) = parse_all(b)? else { return None };
        let w = ints(&w)?;
        if w.len() != 9 || w[0].len() != 1 { return None; }
        Some((N::from_be(&w[1]), N::from_be(&w[3])))
    } else {
        if v.len() != 2 || !is_rsa_algo(&v[0]) { return None; }
        let T::Bit(b, 0) = &v[1] else { return None };
        let T::Seq(w) = parse_all(b)? else { return None };
        let w = ints(&w)?;
        if w.len() != 2 { return None; }
        Some((N::from_be(&w[0]), N::from_be(&w[1])))
    }
}

// ---------- base64 and PEM
const B64: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
pub fn b64(d: &[u8]) -> String {
    let mut o = String::new();
    for c in d.chunks(3) {
        let v = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for i in 0..4 { o.push(if i <= c.len() { B64[(v >> (18 - 6 * i)) as usize & 63] as char } else { '=' }); }
    }
    o
}
/// canonical padded base64
pub fn unb64(s: &[u8]) -> Option<Vec<u8>> {
    if s.len() % 4 != 0 { return None; }
    let mut o = vec![];
    for (i, c) in s.chunks(4).enumerate() {
        let last = (i + 1) * 4 == s.len();
        let pad = if last { c.iter().rev().take_while(|x| **x == b'=').count() } else { 0 };
        if pad > 2 { return None; }
        let mut v = 0u32;
        for x in &c[..4 - pad] { v = v << 6 | B64.iter().position(|y| y == x)? as u32; }
        v <<= 6 * pad as u32;
        let b = v.to_be_bytes();
        if pad > 0 && b[4 - pad..].iter().any(|x| *x != 0) { return None; }
        o.extend_from_slice(&b[1..4 - pad]);
    }
    Some(o)
}
pub fn pem_text(label: &str, data: &[u8]) -> String {
    let b = b64(data); let mut o = format!("-----BEGIN {label}-----\n");
    let ls: Vec<&[u8]> = b.as_bytes().chunks(64).collect();
    if ls.is_empty() { o.push('\n'); }
    for l in ls { o.push_str(std::str::from_utf8(l).unwrap()); o.push('\n'); }
    o.push_str(&format!("-----END {label}-----")); o
}
pub fn pem_parse(s: &str) -> Option<(String, Vec<u8>)> {
    let (mut b, mut e, mut body): (Option<String>, Option<String>, String) = (None, None, String::new());
    for raw in s.split('\n') {
        let l = raw.trim();
        if l.starts_with("-----BEGIN ") {
            if b.is_some() { return None; }
            let r = &l[11..];
            if !r.ends_with("-----") { return None; }
            b = Some(r[..r.len() - 5].to_string());
        } else if l.starts_with("-----END ") {
            if b.is_none() || e.is_some() { return None; }
            let r = &l[9..];
            if !r.ends_with("-----") { return None; }
            e = Some(r[..r.len() - 5].to_string());
        } else if b.is_some() && e.is_none() { body.push_str(l); }
    }
    if b? != e.clone()? { return None; }
    Some((e?, unb64(body.as_bytes())?))
}
