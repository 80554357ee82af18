//% use prelude
use core::ops::BitXor;
//% type src/lib.rs Block
//% struct src/aes/field.rs AesField
//% struct src/aes/field.rs AesFieldIterator
//% struct src/aes/sbox.rs Sbox
//% struct src/aes/expander.rs Word derive=Clone,Copy
//% struct src/aes/expander.rs AesKeyExpander
//% struct src/aes/cipher.rs State
//% struct src/aes/cipher.rs AddKey
//% struct src/aes/cipher.rs Substitute
//% struct src/aes/cipher.rs ShiftRows
//% struct src/aes/cipher.rs MixColumns
//% struct src/aes/cipher.rs Aes
//% struct src/aes/mod.rs Key128
//% struct src/aes/mod.rs Key192
//% struct src/aes/mod.rs Key256

// ---------- FIPS-197: the field
pub open spec fn xt(n: u8) -> u8 { (n << 1) ^ (if n & 0x80 != 0 { 0x1bu8 } else { 0u8 }) }
pub open spec fn xtn(a: u8, i: nat) -> u8 decreases i { if i == 0 { a } else { xt(xtn(a, (i - 1) as nat)) } }
pub open spec fn gsum(a: u8, b: u8, i: nat) -> u8 decreases i { if i == 0 { 0 } else { gsum(a, b, (i - 1) as nat) ^ (if (b >> ((i - 1) as u8)) & 1 != 0 { xtn(a, (i - 1) as nat) } else { 0u8 }) } }
// a . b in GF(2^8)
pub open spec fn gmul(a: u8, b: u8) -> u8 { gsum(a, b, 8) }
pub open spec fn div3(n: u8) -> u8 {
    let n = n ^ (n << 1);
    let n = n ^ (n << 2);
    let n = n ^ (n << 4);
    n ^ (if n & 0x80 != 0 { 0x09u8 } else { 0u8 })
}
pub open spec fn affine(b: u8) -> u8 { b ^ rotl8(b, 1) ^ rotl8(b, 2) ^ rotl8(b, 3) ^ rotl8(b, 4) ^ 0x63 }
// ---------- FIPS-197 figure 7 and figure 14, and the powers of {03}, their inverses and the logarithm
pub open spec fn t_sbox() -> Seq<u8> { @T@ }
pub open spec fn t_inv() -> Seq<u8> { @TI@ }
pub open spec fn t_g() -> Seq<u8> { @G@ }
pub open spec fn t_q() -> Seq<u8> { @Q@ }
pub open spec fn t_l() -> Seq<u8> { @L@ }
pub open spec fn sb(x: u8) -> u8 { t_sbox()[x as int] }
pub open spec fn isb(x: u8) -> u8 { t_inv()[x as int] }
pub open spec fn gp(k: int) -> u8 { t_g()[k] }
pub open spec fn gq(k: int) -> u8 { t_q()[k] }
pub open spec fn gl(x: u8) -> u8 { t_l()[x as int] }
pub open spec fn fact_a(k: int) -> bool {
    &&& gp(k + 1) == gp(k) ^ xt(gp(k)) && gq(k + 1) == div3(gq(k)) && gp(k) != 0 && (k > 0 ==> gp(k) != 1)
    &&& sb(gp(k)) == affine(gq(k)) && gmul(gp(k), gq(k)) == 1
}
pub open spec fn fact_b(x: int) -> bool { isb(sb(x as u8)) == x as u8 && sb(isb(x as u8)) == x as u8 && (x != 0 ==> gl(x as u8) < 255 && gp(gl(x as u8) as int) == x as u8) }
pub open spec fn all_a(n: nat) -> bool decreases n { n == 0 || (fact_a(n - 1) && all_a((n - 1) as nat)) }
pub open spec fn all_b(n: nat) -> bool decreases n { n == 0 || (fact_b(n - 1) && all_b((n - 1) as nat)) }
pub proof fn lemma_all_a(n: nat, k: int) requires all_a(n), 0 <= k < n ensures fact_a(k) decreases n { hide(fact_a); if k < n - 1 { lemma_all_a((n - 1) as nat, k); } }
pub proof fn lemma_all_b(n: nat, k: int) requires all_b(n), 0 <= k < n ensures fact_b(k) decreases n { hide(fact_b); if k < n - 1 { lemma_all_b((n - 1) as nat, k); } }
pub proof fn lemma_tables()
    ensures all_a(255), all_b(256), gp(0) == 1, gq(0) == 1, gp(255) == 1, sb(0) == 0x63, t_sbox().len() == 256, t_inv().len() == 256, t_g().len() == 256, t_q().len() == 256, t_l().len() == 256
{
    assert(all_a(255)) by (compute_only);
    assert(all_b(256)) by (compute_only);
    assert(gp(0) == 1 && gq(0) == 1 && gp(255) == 1 && sb(0) == 0x63) by (compute_only);
}
// the table is the affine transform of the multiplicative inverse (FIPS-197 5.1.1), and the inverse table inverts it
pub proof fn thm_sbox(x: u8)
    ensures isb(sb(x)) == x, sb(isb(x)) == x, x == 0 ==> sb(x) == affine(0), x != 0 ==> exists|y: u8| gmul(x, y) == 1 && sb(x) == #[trigger] affine(y)
{
    hide(fact_a); hide(sb); hide(isb); hide(t_sbox); hide(t_inv); hide(t_g); hide(t_q); hide(t_l); hide(gmul); hide(all_a); hide(all_b); hide(affine);
    lemma_tables();
    lemma_all_b(256, x as int);
    if x != 0 { lemma_all_a(255, gl(x) as int); reveal(fact_a); assert(gmul(x, gq(gl(x) as int)) == 1 && sb(x) == affine(gq(gl(x) as int))); }
    else { assert(affine(0) == 0x63) by (compute_only); }
}
pub open spec fn sbox_ok(s: Sbox) -> bool { s.forward@ == t_sbox() && s.backward@ == t_inv() }

// ---------- the round transformations on the 16-byte state (byte r + 4c is row r, column c)
pub open spec fn s_xor(a: Seq<u8>, k: Seq<u8>) -> Seq<u8> { Seq::new(a.len(), |i: int| a[i] ^ k[i]) }
pub open spec fn s_sub(a: Seq<u8>) -> Seq<u8> { Seq::new(a.len(), |i: int| sb(a[i])) }
pub open spec fn s_isub(a: Seq<u8>) -> Seq<u8> { Seq::new(a.len(), |i: int| isb(a[i])) }
// row r of the state is rotated left by r columns
pub open spec fn s_shift(a: Seq<u8>) -> Seq<u8> { seq![a[0], a[5], a[10], a[15], a[4], a[9], a[14], a[3], a[8], a[13], a[2], a[7], a[12], a[1], a[6], a[11]] }
pub open spec fn s_ishift(a: Seq<u8>) -> Seq<u8> { seq![a[0], a[13], a[10], a[7], a[4], a[1], a[14], a[11], a[8], a[5], a[2], a[15], a[12], a[9], a[6], a[3]] }
// one byte of a mixed column: {02}p + {03}q + r + s; and of the inverse: {0e}p + {0b}q + {0d}r + {09}s
pub open spec fn mrow(p: u8, q: u8, r: u8, s: u8) -> u8 { gmul(p, 2) ^ gmul(q, 3) ^ r ^ s }
pub open spec fn irow(p: u8, q: u8, r: u8, s: u8) -> u8 { gmul(p, 14) ^ gmul(q, 11) ^ gmul(r, 13) ^ gmul(s, 9) }
pub open spec fn mc(c: Seq<u8>) -> Seq<u8> { seq![mrow(c[0], c[1], c[2], c[3]), mrow(c[1], c[2], c[3], c[0]), mrow(c[2], c[3], c[0], c[1]), mrow(c[3], c[0], c[1], c[2])] }
pub open spec fn imc(c: Seq<u8>) -> Seq<u8> { seq![irow(c[0], c[1], c[2], c[3]), irow(c[1], c[2], c[3], c[0]), irow(c[2], c[3], c[0], c[1]), irow(c[3], c[0], c[1], c[2])] }
pub open spec fn col(a: Seq<u8>, c: int) -> Seq<u8> { a.subrange(4 * c, 4 * c + 4) }
pub open spec fn s_mix(a: Seq<u8>) -> Seq<u8> { mc(col(a, 0)) + mc(col(a, 1)) + mc(col(a, 2)) + mc(col(a, 3)) }
pub open spec fn s_imix(a: Seq<u8>) -> Seq<u8> { imc(col(a, 0)) + imc(col(a, 1)) + imc(col(a, 2)) + imc(col(a, 3)) }
// ---------- the cipher and its inverse
pub open spec fn c_rounds(k: Seq<Seq<u8>>, p: Seq<u8>, n: nat) -> Seq<u8> decreases n {
    if n == 0 { s_xor(p, k[0]) } else { s_xor(s_mix(s_shift(s_sub(c_rounds(k, p, (n - 1) as nat)))), k[n as int]) }
}
pub open spec fn cipher(k: Seq<Seq<u8>>, nr: int, p: Seq<u8>) -> Seq<u8> { s_xor(s_shift(s_sub(c_rounds(k, p, (nr - 1) as nat))), k[nr]) }
// undoes rounds n, .., 1 and the initial key addition
pub open spec fn i_rounds(k: Seq<Seq<u8>>, s: Seq<u8>, n: nat) -> Seq<u8> decreases n {
    if n == 0 { s_xor(s, k[0]) } else { i_rounds(k, s_isub(s_ishift(s_imix(s_xor(s, k[n as int])))), (n - 1) as nat) }
}
pub open spec fn inv_cipher(k: Seq<Seq<u8>>, nr: int, c: Seq<u8>) -> Seq<u8> { i_rounds(k, s_isub(s_ishift(s_xor(c, k[nr]))), (nr - 1) as nat) }
// ---------- key expansion
pub open spec fn kw(key: Seq<u8>, nk: int, i: int) -> Seq<u8> decreases i {
    if i < 0 || nk <= 0 { Seq::empty() } else if i < nk { key.subrange(4 * i, 4 * i + 4) } else {
        let t = kw(key, nk, i - 1);
        let t = if i % nk == 0 { w_xor(w_sub(w_rot(t)), rcon(i / nk)) } else if nk > 6 && i % nk == 4 { w_sub(t) } else { t };
        w_xor(kw(key, nk, i - nk), t)
    }
}
pub open spec fn w_xor(a: Seq<u8>, b: Seq<u8>) -> Seq<u8> { seq![a[0] ^ b[0], a[1] ^ b[1], a[2] ^ b[2], a[3] ^ b[3]] }
pub open spec fn w_sub(a: Seq<u8>) -> Seq<u8> { seq![sb(a[0]), sb(a[1]), sb(a[2]), sb(a[3])] }
pub open spec fn w_rot(a: Seq<u8>) -> Seq<u8> { seq![a[1], a[2], a[3], a[0]] }
pub open spec fn rcon(i: int) -> Seq<u8> { seq![xtn(1, (i - 1) as nat), 0, 0, 0] }
pub open spec fn round_key(key: Seq<u8>, nk: int, k: int) -> Seq<u8> { kw(key, nk, 4 * k) + kw(key, nk, 4 * k + 1) + kw(key, nk, 4 * k + 2) + kw(key, nk, 4 * k + 3) }
pub open spec fn fips_keys(key: Seq<u8>, nk: int) -> Seq<Seq<u8>> { Seq::new((nk + 7) as nat, |k: int| round_key(key, nk, k)) }
pub open spec fn fips_aes(key: Seq<u8>, p: Seq<u8>) -> Seq<u8> { let nk = (key.len() / 4) as int; cipher(fips_keys(key, nk), nk + 6, p) }
pub open spec fn keys_of(a: Aes) -> Seq<Seq<u8>> { Seq::new(a.keys@.len(), |i: int| a.keys@[i]@) }
pub open spec fn aes_wf(a: Aes) -> bool { 1 <= a.rounds < 1000 && a.keys@.len() == a.rounds + 1 }
pub open spec fn aes_for(a: Aes, key: Seq<u8>) -> bool { aes_wf(a) && a.rounds == key.len() / 4 + 6 && keys_of(a) == fips_keys(key, (key.len() / 4) as int) }
pub open spec fn words_be(w: Seq<u64>) -> Seq<u8> { Seq::new(8 * w.len(), |i: int| u64_be(w[i / 8])[i % 8]) }

// ---------- the inverse steps undo the steps
pub open spec fn xt2(n: u8) -> u8 { xt(xt(n)) }
pub open spec fn xt3(n: u8) -> u8 { xt(xt(xt(n))) }
pub proof fn lemma_gmul_small(x: u8)
    ensures gmul(x, 2) == xt(x), gmul(x, 3) == x ^ xt(x), gmul(x, 9) == x ^ xt3(x), gmul(x, 11) == x ^ xt(x) ^ xt3(x), gmul(x, 13) == x ^ xt2(x) ^ xt3(x), gmul(x, 14) == xt(x) ^ xt2(x) ^ xt3(x)
{
    hide(xt);
    reveal_with_fuel(gsum, 9);
    reveal_with_fuel(xtn, 5);
    assert(2u8 >> 0u8 & 1 == 0 && 2u8 >> 1u8 & 1 == 1 && 2u8 >> 2u8 & 1 == 0 && 2u8 >> 3u8 & 1 == 0 && 2u8 >> 4u8 & 1 == 0 && 2u8 >> 5u8 & 1 == 0 && 2u8 >> 6u8 & 1 == 0 && 2u8 >> 7u8 & 1 == 0) by (bit_vector);
    assert(3u8 >> 0u8 & 1 == 1 && 3u8 >> 1u8 & 1 == 1 && 3u8 >> 2u8 & 1 == 0 && 3u8 >> 3u8 & 1 == 0 && 3u8 >> 4u8 & 1 == 0 && 3u8 >> 5u8 & 1 == 0 && 3u8 >> 6u8 & 1 == 0 && 3u8 >> 7u8 & 1 == 0) by (bit_vector);
    assert(9u8 >> 0u8 & 1 == 1 && 9u8 >> 1u8 & 1 == 0 && 9u8 >> 2u8 & 1 == 0 && 9u8 >> 3u8 & 1 == 1 && 9u8 >> 4u8 & 1 == 0 && 9u8 >> 5u8 & 1 == 0 && 9u8 >> 6u8 & 1 == 0 && 9u8 >> 7u8 & 1 == 0) by (bit_vector);
    assert(11u8 >> 0u8 & 1 == 1 && 11u8 >> 1u8 & 1 == 1 && 11u8 >> 2u8 & 1 == 0 && 11u8 >> 3u8 & 1 == 1 && 11u8 >> 4u8 & 1 == 0 && 11u8 >> 5u8 & 1 == 0 && 11u8 >> 6u8 & 1 == 0 && 11u8 >> 7u8 & 1 == 0) by (bit_vector);
    assert(13u8 >> 0u8 & 1 == 1 && 13u8 >> 1u8 & 1 == 0 && 13u8 >> 2u8 & 1 == 1 && 13u8 >> 3u8 & 1 == 1 && 13u8 >> 4u8 & 1 == 0 && 13u8 >> 5u8 & 1 == 0 && 13u8 >> 6u8 & 1 == 0 && 13u8 >> 7u8 & 1 == 0) by (bit_vector);
    assert(14u8 >> 0u8 & 1 == 0 && 14u8 >> 1u8 & 1 == 1 && 14u8 >> 2u8 & 1 == 1 && 14u8 >> 3u8 & 1 == 1 && 14u8 >> 4u8 & 1 == 0 && 14u8 >> 5u8 & 1 == 0 && 14u8 >> 6u8 & 1 == 0 && 14u8 >> 7u8 & 1 == 0) by (bit_vector);
    assert(forall|a: u8| #[trigger] (0u8 ^ a) == a) by (bit_vector);
    assert(forall|a: u8| #[trigger] (a ^ 0u8) == a) by (bit_vector);
}
pub proof fn lemma_xt_lin(a: u8, b: u8) ensures xt(a ^ b) == xt(a) ^ xt(b) {
    assert(((a ^ b) << 1) ^ (if (a ^ b) & 0x80 != 0 { 0x1bu8 } else { 0u8 }) == ((a << 1) ^ (if a & 0x80 != 0 { 0x1bu8 } else { 0u8 })) ^ ((b << 1) ^ (if b & 0x80 != 0 { 0x1bu8 } else { 0u8 }))) by (bit_vector);
}
// mrow and its multiples by x as sums of the multiples of its arguments
pub proof fn lemma_mrow(p: u8, q: u8, r: u8, s: u8)
    ensures ({
        let (p, p1, p2, p3, p4, p5, p6) = (p, xt(p), xt(xt(p)), xt(xt(xt(p))), xt(xt(xt(xt(p)))), xt(xt(xt(xt(xt(p))))), xt(xt(xt(xt(xt(xt(p)))))));
        let (q, q1, q2, q3, q4, q5, q6) = (q, xt(q), xt(xt(q)), xt(xt(xt(q))), xt(xt(xt(xt(q)))), xt(xt(xt(xt(xt(q))))), xt(xt(xt(xt(xt(xt(q)))))));
        let (r, r1, r2, r3, r4, r5, r6) = (r, xt(r), xt(xt(r)), xt(xt(xt(r))), xt(xt(xt(xt(r)))), xt(xt(xt(xt(xt(r))))), xt(xt(xt(xt(xt(xt(r)))))));
        let (s, s1, s2, s3, s4, s5, s6) = (s, xt(s), xt(xt(s)), xt(xt(xt(s))), xt(xt(xt(xt(s)))), xt(xt(xt(xt(xt(s))))), xt(xt(xt(xt(xt(xt(s)))))));
        let m = mrow(p, q, r, s);
        &&& m == p1 ^ q ^ q1 ^ r ^ s
        &&& xt(m) == p2 ^ q1 ^ q2 ^ r1 ^ s1
        &&& xt(xt(m)) == p3 ^ q2 ^ q3 ^ r2 ^ s2
        &&& xt(xt(xt(m))) == p4 ^ q3 ^ q4 ^ r3 ^ s3
    })
{
    hide(xt); hide(gmul);
    lemma_gmul_small(p);
    lemma_gmul_small(q);
    lemma_gmul_small(r);
    lemma_gmul_small(s);
    assert(forall|a: u8, b: u8, c: u8| #[trigger] (a ^ (b ^ c)) == (a ^ b) ^ c) by (bit_vector);
    lemma_xt_lin(xt(p), q);
    lemma_xt_lin(xt(p) ^ q, xt(q));
    lemma_xt_lin(xt(p) ^ q ^ xt(q), r);
    lemma_xt_lin(xt(p) ^ q ^ xt(q) ^ r, s);
    lemma_xt_lin(xt(xt(p)), xt(q));
    lemma_xt_lin(xt(xt(p)) ^ xt(q), xt(xt(q)));
    lemma_xt_lin(xt(xt(p)) ^ xt(q) ^ xt(xt(q)), xt(r));
    lemma_xt_lin(xt(xt(p)) ^ xt(q) ^ xt(xt(q)) ^ xt(r), xt(s));
    lemma_xt_lin(xt(xt(xt(p))), xt(xt(q)));
    lemma_xt_lin(xt(xt(xt(p))) ^ xt(xt(q)), xt(xt(xt(q))));
    lemma_xt_lin(xt(xt(xt(p))) ^ xt(xt(q)) ^ xt(xt(xt(q))), xt(xt(r)));
    lemma_xt_lin(xt(xt(xt(p))) ^ xt(xt(q)) ^ xt(xt(xt(q))) ^ xt(xt(r)), xt(xt(s)));
}
// irow and its multiples by x as sums of the multiples of its arguments
pub proof fn lemma_irow(p: u8, q: u8, r: u8, s: u8)
    ensures ({
        let (p, p1, p2, p3, p4, p5, p6) = (p, xt(p), xt(xt(p)), xt(xt(xt(p))), xt(xt(xt(xt(p)))), xt(xt(xt(xt(xt(p))))), xt(xt(xt(xt(xt(xt(p)))))));
        let (q, q1, q2, q3, q4, q5, q6) = (q, xt(q), xt(xt(q)), xt(xt(xt(q))), xt(xt(xt(xt(q)))), xt(xt(xt(xt(xt(q))))), xt(xt(xt(xt(xt(xt(q)))))));
        let (r, r1, r2, r3, r4, r5, r6) = (r, xt(r), xt(xt(r)), xt(xt(xt(r))), xt(xt(xt(xt(r)))), xt(xt(xt(xt(xt(r))))), xt(xt(xt(xt(xt(xt(r)))))));
        let (s, s1, s2, s3, s4, s5, s6) = (s, xt(s), xt(xt(s)), xt(xt(xt(s))), xt(xt(xt(xt(s)))), xt(xt(xt(xt(xt(s))))), xt(xt(xt(xt(xt(xt(s)))))));
        let m = irow(p, q, r, s);
        &&& m == p1 ^ p2 ^ p3 ^ q ^ q1 ^ q3 ^ r ^ r2 ^ r3 ^ s ^ s3
        &&& xt(m) == p2 ^ p3 ^ p4 ^ q1 ^ q2 ^ q4 ^ r1 ^ r3 ^ r4 ^ s1 ^ s4
    })
{
    hide(xt); hide(gmul);
    lemma_gmul_small(p);
    lemma_gmul_small(q);
    lemma_gmul_small(r);
    lemma_gmul_small(s);
    assert(forall|a: u8, b: u8, c: u8| #[trigger] (a ^ (b ^ c)) == (a ^ b) ^ c) by (bit_vector);
    lemma_xt_lin(xt(p), xt(xt(p)));
    lemma_xt_lin(xt(p) ^ xt(xt(p)), xt(xt(xt(p))));
    lemma_xt_lin(xt(p) ^ xt(xt(p)) ^ xt(xt(xt(p))), q);
    lemma_xt_lin(xt(p) ^ xt(xt(p)) ^ xt(xt(xt(p))) ^ q, xt(q));
    lemma_xt_lin(xt(p) ^ xt(xt(p)) ^ xt(xt(xt(p))) ^ q ^ xt(q), xt(xt(xt(q))));
    lemma_xt_lin(xt(p) ^ xt(xt(p)) ^ xt(xt(xt(p))) ^ q ^ xt(q) ^ xt(xt(xt(q))), r);
    lemma_xt_lin(xt(p) ^ xt(xt(p)) ^ xt(xt(xt(p))) ^ q ^ xt(q) ^ xt(xt(xt(q))) ^ r, xt(xt(r)));
    lemma_xt_lin(xt(p) ^ xt(xt(p)) ^ xt(xt(xt(p))) ^ q ^ xt(q) ^ xt(xt(xt(q))) ^ r ^ xt(xt(r)), xt(xt(xt(r))));
    lemma_xt_lin(xt(p) ^ xt(xt(p)) ^ xt(xt(xt(p))) ^ q ^ xt(q) ^ xt(xt(xt(q))) ^ r ^ xt(xt(r)) ^ xt(xt(xt(r))), s);
    lemma_xt_lin(xt(p) ^ xt(xt(p)) ^ xt(xt(xt(p))) ^ q ^ xt(q) ^ xt(xt(xt(q))) ^ r ^ xt(xt(r)) ^ xt(xt(xt(r))) ^ s, xt(xt(xt(s))));
}
pub proof fn lemma_unmix(p: u8, q: u8, r: u8, s: u8)
    ensures irow(mrow(p, q, r, s), mrow(q, r, s, p), mrow(r, s, p, q), mrow(s, p, q, r)) == p
{
    hide(xt); hide(gmul); hide(mrow); hide(irow);
    lemma_mrow(p, q, r, s);
    lemma_mrow(q, r, s, p);
    lemma_mrow(r, s, p, q);
    lemma_mrow(s, p, q, r);
    let m0 = mrow(p, q, r, s);
    let m1 = mrow(q, r, s, p);
    let m2 = mrow(r, s, p, q);
    let m3 = mrow(s, p, q, r);
    lemma_irow(m0, m1, m2, m3);
    let p1 = xt(p);
    let p2 = xt(xt(p));
    let p3 = xt(xt(xt(p)));
    let p4 = xt(xt(xt(xt(p))));
    let q1 = xt(q);
    let q2 = xt(xt(q));
    let q3 = xt(xt(xt(q)));
    let q4 = xt(xt(xt(xt(q))));
    let r1 = xt(r);
    let r2 = xt(xt(r));
    let r3 = xt(xt(xt(r)));
    let r4 = xt(xt(xt(xt(r))));
    let s1 = xt(s);
    let s2 = xt(xt(s));
    let s3 = xt(xt(xt(s)));
    let s4 = xt(xt(xt(xt(s))));
    let m0x1 = xt(m0);
    let m0x2 = xt(xt(m0));
    let m0x3 = xt(xt(xt(m0)));
    let m1x1 = xt(m1);
    let m1x2 = xt(xt(m1));
    let m1x3 = xt(xt(xt(m1)));
    let m2x1 = xt(m2);
    let m2x2 = xt(xt(m2));
    let m2x3 = xt(xt(xt(m2)));
    let m3x1 = xt(m3);
    let m3x2 = xt(xt(m3));
    let m3x3 = xt(xt(xt(m3)));
    assert(m0x1 ^ m0x2 ^ m0x3 ^ m1 ^ m1x1 ^ m1x3 ^ m2 ^ m2x2 ^ m2x3 ^ m3 ^ m3x3 == p) by (bit_vector) requires m0 == p1 ^ q ^ q1 ^ r ^ s, m0x1 == p2 ^ q1 ^ q2 ^ r1 ^ s1, m0x2 == p3 ^ q2 ^ q3 ^ r2 ^ s2, m0x3 == p4 ^ q3 ^ q4 ^ r3 ^ s3, m1 == q1 ^ r ^ r1 ^ s ^ p, m1x1 == q2 ^ r1 ^ r2 ^ s1 ^ p1, m1x2 == q3 ^ r2 ^ r3 ^ s2 ^ p2, m1x3 == q4 ^ r3 ^ r4 ^ s3 ^ p3, m2 == r1 ^ s ^ s1 ^ p ^ q, m2x1 == r2 ^ s1 ^ s2 ^ p1 ^ q1, m2x2 == r3 ^ s2 ^ s3 ^ p2 ^ q2, m2x3 == r4 ^ s3 ^ s4 ^ p3 ^ q3, m3 == s1 ^ p ^ p1 ^ q ^ r, m3x1 == s2 ^ p1 ^ p2 ^ q1 ^ r1, m3x2 == s3 ^ p2 ^ p3 ^ q2 ^ r2, m3x3 == s4 ^ p3 ^ p4 ^ q3 ^ r3;
}
pub proof fn lemma_remix(p: u8, q: u8, r: u8, s: u8)
    ensures mrow(irow(p, q, r, s), irow(q, r, s, p), irow(r, s, p, q), irow(s, p, q, r)) == p
{
    hide(xt); hide(gmul); hide(mrow); hide(irow);
    lemma_irow(p, q, r, s);
    lemma_irow(q, r, s, p);
    lemma_irow(r, s, p, q);
    lemma_irow(s, p, q, r);
    let m0 = irow(p, q, r, s);
    let m1 = irow(q, r, s, p);
    let m2 = irow(r, s, p, q);
    let m3 = irow(s, p, q, r);
    lemma_mrow(m0, m1, m2, m3);
    let p1 = xt(p);
    let p2 = xt(xt(p));
    let p3 = xt(xt(xt(p)));
    let p4 = xt(xt(xt(xt(p))));
    let q1 = xt(q);
    let q2 = xt(xt(q));
    let q3 = xt(xt(xt(q)));
    let q4 = xt(xt(xt(xt(q))));
    let r1 = xt(r);
    let r2 = xt(xt(r));
    let r3 = xt(xt(xt(r)));
    let r4 = xt(xt(xt(xt(r))));
    let s1 = xt(s);
    let s2 = xt(xt(s));
    let s3 = xt(xt(xt(s)));
    let s4 = xt(xt(xt(xt(s))));
    let m0x1 = xt(m0);
    let m1x1 = xt(m1);
    let m2x1 = xt(m2);
    let m3x1 = xt(m3);
    assert(m0x1 ^ m1 ^ m1x1 ^ m2 ^ m3 == p) by (bit_vector) requires m0 == p1 ^ p2 ^ p3 ^ q ^ q1 ^ q3 ^ r ^ r2 ^ r3 ^ s ^ s3, m0x1 == p2 ^ p3 ^ p4 ^ q1 ^ q2 ^ q4 ^ r1 ^ r3 ^ r4 ^ s1 ^ s4, m1 == q1 ^ q2 ^ q3 ^ r ^ r1 ^ r3 ^ s ^ s2 ^ s3 ^ p ^ p3, m1x1 == q2 ^ q3 ^ q4 ^ r1 ^ r2 ^ r4 ^ s1 ^ s3 ^ s4 ^ p1 ^ p4, m2 == r1 ^ r2 ^ r3 ^ s ^ s1 ^ s3 ^ p ^ p2 ^ p3 ^ q ^ q3, m2x1 == r2 ^ r3 ^ r4 ^ s1 ^ s2 ^ s4 ^ p1 ^ p3 ^ p4 ^ q1 ^ q4, m3 == s1 ^ s2 ^ s3 ^ p ^ p1 ^ p3 ^ q ^ q2 ^ q3 ^ r ^ r3, m3x1 == s2 ^ s3 ^ s4 ^ p1 ^ p2 ^ p4 ^ q1 ^ q3 ^ q4 ^ r1 ^ r4;
}
pub proof fn lemma_mc(c: Seq<u8>) requires c.len() == 4 ensures imc(mc(c)) == c, mc(imc(c)) == c
{
    hide(mrow); hide(irow);
    lemma_unmix(c[0], c[1], c[2], c[3]); lemma_unmix(c[1], c[2], c[3], c[0]); lemma_unmix(c[2], c[3], c[0], c[1]); lemma_unmix(c[3], c[0], c[1], c[2]);
    lemma_remix(c[0], c[1], c[2], c[3]); lemma_remix(c[1], c[2], c[3], c[0]); lemma_remix(c[2], c[3], c[0], c[1]); lemma_remix(c[3], c[0], c[1], c[2]);
    assert(imc(mc(c)) =~= c);
    assert(mc(imc(c)) =~= c);
}
pub proof fn lemma_cols(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>, d: Seq<u8>)
    requires a.len() == 4, b.len() == 4, c.len() == 4, d.len() == 4
    ensures col(a + b + c + d, 0) == a, col(a + b + c + d, 1) == b, col(a + b + c + d, 2) == c, col(a + b + c + d, 3) == d
{ assert(col(a + b + c + d, 0) =~= a); assert(col(a + b + c + d, 1) =~= b); assert(col(a + b + c + d, 2) =~= c); assert(col(a + b + c + d, 3) =~= d); }
pub proof fn lemma_smix(a: Seq<u8>) requires a.len() == 16 ensures s_imix(s_mix(a)) == a, s_mix(s_imix(a)) == a, s_mix(a).len() == 16, s_imix(a).len() == 16
{
    hide(mrow); hide(irow);
    let (p, q, r, s) = (col(a, 0), col(a, 1), col(a, 2), col(a, 3));
    lemma_mc(p); lemma_mc(q); lemma_mc(r); lemma_mc(s);
    lemma_cols(mc(p), mc(q), mc(r), mc(s));
    lemma_cols(imc(p), imc(q), imc(r), imc(s));
    assert(p + q + r + s =~= a);
}
pub proof fn lemma_sshift(a: Seq<u8>) requires a.len() == 16 ensures s_ishift(s_shift(a)) == a, s_shift(s_ishift(a)) == a
{ assert(s_ishift(s_shift(a)) =~= a); assert(s_shift(s_ishift(a)) =~= a); }
pub proof fn lemma_ssub(a: Seq<u8>) ensures s_isub(s_sub(a)) == a, s_sub(s_isub(a)) == a
{
    hide(sb); hide(isb);
    assert forall|i: int| 0 <= i < a.len() implies isb(sb(a[i])) == a[i] && sb(isb(a[i])) == a[i] by { thm_sbox(a[i]); }
    assert(s_isub(s_sub(a)) =~= a); assert(s_sub(s_isub(a)) =~= a);
}
pub proof fn lemma_sxor(a: Seq<u8>, k: Seq<u8>) ensures s_xor(s_xor(a, k), k) == a
{ assert(forall|x: u8, y: u8| #[trigger] (x ^ y) ^ y == x) by (bit_vector); assert(s_xor(s_xor(a, k), k) =~= a); }
pub proof fn lemma_rounds(k: Seq<Seq<u8>>, p: Seq<u8>, n: nat)
    requires p.len() == 16
    ensures i_rounds(k, c_rounds(k, p, n), n) == p, c_rounds(k, i_rounds(k, p, n), n) == p, c_rounds(k, p, n).len() == 16, i_rounds(k, p, n).len() == 16
    decreases n
{
    hide(sb); hide(isb); hide(mc); hide(imc); hide(s_mix); hide(s_imix); hide(s_shift); hide(s_ishift); hide(s_sub); hide(s_isub); hide(s_xor); hide(c_rounds); hide(i_rounds);
    lemma_len(p, k[n as int]); lemma_c_step(k, p, n); lemma_i_step(k, p, n);
    if n == 0 { lemma_len(p, k[0]); lemma_i_step(k, c_rounds(k, p, 0), 0); lemma_c_step(k, i_rounds(k, p, 0), 0); lemma_sxor(p, k[0]); } else {
        let m = (n - 1) as nat;
        lemma_rounds(k, p, m);
        let c = c_rounds(k, p, m);
        let (c1, c2) = (s_sub(c), s_shift(s_sub(c)));
        lemma_len(c, k[n as int]); lemma_len(c1, k[n as int]); lemma_len(c2, k[n as int]); lemma_len(s_mix(c2), k[n as int]);
        lemma_sxor(s_mix(c2), k[n as int]); lemma_smix(c2); lemma_sshift(c1); lemma_ssub(c);
        let d = s_xor(p, k[n as int]);
        let (d1, d2) = (s_imix(d), s_ishift(s_imix(d)));
        lemma_len(d, k[n as int]); lemma_len(d1, k[n as int]); lemma_len(d2, k[n as int]);
        lemma_rounds(k, s_isub(d2), m);
        lemma_sxor(p, k[n as int]); lemma_smix(d); lemma_sshift(d1); lemma_ssub(d2);
        lemma_i_step(k, c_rounds(k, p, n), n); lemma_c_step(k, i_rounds(k, p, n), n);
        assert(i_rounds(k, c_rounds(k, p, n), n) == i_rounds(k, c, m));
        assert(i_rounds(k, p, n) == i_rounds(k, s_isub(d2), m));
    }
}
pub proof fn lemma_len(a: Seq<u8>, k: Seq<u8>)
    requires a.len() == 16
    ensures s_xor(a, k).len() == 16, s_sub(a).len() == 16, s_isub(a).len() == 16, s_shift(a).len() == 16, s_ishift(a).len() == 16, s_mix(a).len() == 16, s_imix(a).len() == 16
{ hide(s_mix); hide(s_imix); hide(sb); hide(isb); lemma_smix(a); }
// decryption inverts encryption and conversely, for every schedule of round keys
pub proof fn thm_aes_inverse(k: Seq<Seq<u8>>, nr: int, p: Seq<u8>)
    requires p.len() == 16, nr >= 1
    ensures inv_cipher(k, nr, cipher(k, nr, p)) == p, cipher(k, nr, inv_cipher(k, nr, p)) == p
{
    hide(s_mix); hide(s_imix); hide(s_shift); hide(s_ishift); hide(s_sub); hide(s_isub); hide(s_xor); hide(c_rounds); hide(i_rounds);
    let n = (nr - 1) as nat;
    let c = c_rounds(k, p, n);
    lemma_rounds(k, p, n);
    lemma_len(c, k[nr]); lemma_len(s_sub(c), k[nr]); lemma_len(s_shift(s_sub(c)), k[nr]);
    lemma_sxor(s_shift(s_sub(c)), k[nr]); lemma_sshift(s_sub(c)); lemma_ssub(c);
    let d = s_xor(p, k[nr]);
    lemma_len(p, k[nr]); lemma_len(d, k[nr]); lemma_len(s_ishift(d), k[nr]);
    lemma_rounds(k, s_isub(s_ishift(d)), n);
    lemma_sxor(p, k[nr]); lemma_sshift(d); lemma_ssub(s_ishift(d));
}
pub proof fn lemma_kw_step(key: Seq<u8>, nk: int, i: int)
    requires 0 <= i, nk > 0
    ensures i < nk ==> kw(key, nk, i) == key.subrange(4 * i, 4 * i + 4),
        i >= nk ==> kw(key, nk, i) == ({
            let t = kw(key, nk, i - 1);
            let t = if i % nk == 0 { w_xor(w_sub(w_rot(t)), rcon(i / nk)) } else if nk > 6 && i % nk == 4 { w_sub(t) } else { t };
            w_xor(kw(key, nk, i - nk), t)
        }),
        i >= nk && i % nk == 0 ==> kw(key, nk, i) == w_xor(w_xor(kw(key, nk, i - nk), w_sub(w_rot(kw(key, nk, i - 1)))), rcon(i / nk)),
        i >= nk ==> 1 <= i / nk
{
    hide(sb);
    assert(forall|a: u8, b: u8, c: u8| #[trigger] (a ^ (b ^ c)) == (a ^ b) ^ c) by (bit_vector);
    if i >= nk { vstd::arithmetic::div_mod::lemma_div_is_ordered(nk, i, nk); vstd::arithmetic::div_mod::lemma_div_by_self(nk); }
}
pub proof fn lemma_kw_len(key: Seq<u8>, nk: int, i: int)
    requires 0 <= i, nk > 0, key.len() == 4 * nk
    ensures kw(key, nk, i).len() == 4
{ }
pub proof fn lemma_divlt(i: int, n: int) requires 0 <= i < 11 * n, n > 0 ensures 0 <= i / n < 11 { assert(0 <= i / n < 11) by (nonlinear_arith) requires 0 <= i < 11 * n, n > 0; }
pub proof fn lemma_mix_column(c: Seq<u8>)
    requires c.len() == 4
    ensures gmul(c[0], 2) == xt(c[0]), gmul(c[1], 2) == xt(c[1]), gmul(c[2], 2) == xt(c[2]), gmul(c[3], 2) == xt(c[3]),
        gmul(c[0], 3) == c[0] ^ xt(c[0]), gmul(c[1], 3) == c[1] ^ xt(c[1]), gmul(c[2], 3) == c[2] ^ xt(c[2]), gmul(c[3], 3) == c[3] ^ xt(c[3])
{ lemma_gmul_small(c[0]); lemma_gmul_small(c[1]); lemma_gmul_small(c[2]); lemma_gmul_small(c[3]); }
pub proof fn lemma_joincols(a: Seq<u8>) requires a.len() == 16 ensures a == col(a, 0) + col(a, 1) + col(a, 2) + col(a, 3) { assert(a =~= col(a, 0) + col(a, 1) + col(a, 2) + col(a, 3)); }
pub proof fn lemma_c_step(k: Seq<Seq<u8>>, p: Seq<u8>, n: nat)
    ensures c_rounds(k, p, 0) == s_xor(p, k[0]), n > 0 ==> c_rounds(k, p, n) == s_xor(s_mix(s_shift(s_sub(c_rounds(k, p, (n - 1) as nat)))), k[n as int])
{ hide(s_xor); hide(s_sub); hide(s_shift); hide(s_mix); }
pub proof fn lemma_i_step(k: Seq<Seq<u8>>, s: Seq<u8>, n: nat)
    ensures i_rounds(k, s, 0) == s_xor(s, k[0]), n > 0 ==> i_rounds(k, s, n) == i_rounds(k, s_isub(s_ishift(s_imix(s_xor(s, k[n as int])))), (n - 1) as nat)
{ hide(s_xor); hide(s_isub); hide(s_ishift); hide(s_imix); }
// every order and grouping of an exclusive or of four
pub proof fn lemma_xor4(p: u8, q: u8, r: u8, s: u8)
    ensures (p ^ q) ^ (r ^ s) == p ^ q ^ r ^ s, (p ^ q) ^ (s ^ r) == p ^ q ^ r ^ s, (p ^ r) ^ (q ^ s) == p ^ q ^ r ^ s, (p ^ r) ^ (s ^ q) == p ^ q ^ r ^ s, (p ^ s) ^ (q ^ r) == p ^ q ^ r ^ s, (p ^ s) ^ (r ^ q) == p ^ q ^ r ^ s, (q ^ p) ^ (r ^ s) == p ^ q ^ r ^ s, (q ^ p) ^ (s ^ r) == p ^ q ^ r ^ s, (q ^ r) ^ (p ^ s) == p ^ q ^ r ^ s, (q ^ r) ^ (s ^ p) == p ^ q ^ r ^ s, (q ^ s) ^ (p ^ r) == p ^ q ^ r ^ s, (q ^ s) ^ (r ^ p) == p ^ q ^ r ^ s, (r ^ p) ^ (q ^ s) == p ^ q ^ r ^ s, (r ^ p) ^ (s ^ q) == p ^ q ^ r ^ s, (r ^ q) ^ (p ^ s) == p ^ q ^ r ^ s, (r ^ q) ^ (s ^ p) == p ^ q ^ r ^ s, (r ^ s) ^ (p ^ q) == p ^ q ^ r ^ s, (r ^ s) ^ (q ^ p) == p ^ q ^ r ^ s, (s ^ p) ^ (q ^ r) == p ^ q ^ r ^ s, (s ^ p) ^ (r ^ q) == p ^ q ^ r ^ s, (s ^ q) ^ (p ^ r) == p ^ q ^ r ^ s, (s ^ q) ^ (r ^ p) == p ^ q ^ r ^ s, (s ^ r) ^ (p ^ q) == p ^ q ^ r ^ s, (s ^ r) ^ (q ^ p) == p ^ q ^ r ^ s, p ^ q ^ s ^ r == p ^ q ^ r ^ s, p ^ r ^ q ^ s == p ^ q ^ r ^ s, p ^ r ^ s ^ q == p ^ q ^ r ^ s, p ^ s ^ q ^ r == p ^ q ^ r ^ s, p ^ s ^ r ^ q == p ^ q ^ r ^ s, q ^ p ^ r ^ s == p ^ q ^ r ^ s, q ^ p ^ s ^ r == p ^ q ^ r ^ s, q ^ r ^ p ^ s == p ^ q ^ r ^ s, q ^ r ^ s ^ p == p ^ q ^ r ^ s, q ^ s ^ p ^ r == p ^ q ^ r ^ s, q ^ s ^ r ^ p == p ^ q ^ r ^ s, r ^ p ^ q ^ s == p ^ q ^ r ^ s, r ^ p ^ s ^ q == p ^ q ^ r ^ s, r ^ q ^ p ^ s == p ^ q ^ r ^ s, r ^ q ^ s ^ p == p ^ q ^ r ^ s, r ^ s ^ p ^ q == p ^ q ^ r ^ s, r ^ s ^ q ^ p == p ^ q ^ r ^ s, s ^ p ^ q ^ r == p ^ q ^ r ^ s, s ^ p ^ r ^ q == p ^ q ^ r ^ s, s ^ q ^ p ^ r == p ^ q ^ r ^ s, s ^ q ^ r ^ p == p ^ q ^ r ^ s, s ^ r ^ p ^ q == p ^ q ^ r ^ s, s ^ r ^ q ^ p == p ^ q ^ r ^ s
{ assert((p ^ q) ^ (r ^ s) == p ^ q ^ r ^ s) by (bit_vector); assert((p ^ q) ^ (s ^ r) == p ^ q ^ r ^ s) by (bit_vector); assert((p ^ r) ^ (q ^ s) == p ^ q ^ r ^ s) by (bit_vector); assert((p ^ r) ^ (s ^ q) == p ^ q ^ r ^ s) by (bit_vector); assert((p ^ s) ^ (q ^ r) == p ^ q ^ r ^ s) by (bit_vector); assert((p ^ s) ^ (r ^ q) == p ^ q ^ r ^ s) by (bit_vector); assert((q ^ p) ^ (r ^ s) == p ^ q ^ r ^ s) by (bit_vector); assert((q ^ p) ^ (s ^ r) == p ^ q ^ r ^ s) by (bit_vector); assert((q ^ r) ^ (p ^ s) == p ^ q ^ r ^ s) by (bit_vector); assert((q ^ r) ^ (s ^ p) == p ^ q ^ r ^ s) by (bit_vector); assert((q ^ s) ^ (p ^ r) == p ^ q ^ r ^ s) by (bit_vector); assert((q ^ s) ^ (r ^ p) == p ^ q ^ r ^ s) by (bit_vector); assert((r ^ p) ^ (q ^ s) == p ^ q ^ r ^ s) by (bit_vector); assert((r ^ p) ^ (s ^ q) == p ^ q ^ r ^ s) by (bit_vector); assert((r ^ q) ^ (p ^ s) == p ^ q ^ r ^ s) by (bit_vector); assert((r ^ q) ^ (s ^ p) == p ^ q ^ r ^ s) by (bit_vector); assert((r ^ s) ^ (p ^ q) == p ^ q ^ r ^ s) by (bit_vector); assert((r ^ s) ^ (q ^ p) == p ^ q ^ r ^ s) by (bit_vector); assert((s ^ p) ^ (q ^ r) == p ^ q ^ r ^ s) by (bit_vector); assert((s ^ p) ^ (r ^ q) == p ^ q ^ r ^ s) by (bit_vector); assert((s ^ q) ^ (p ^ r) == p ^ q ^ r ^ s) by (bit_vector); assert((s ^ q) ^ (r ^ p) == p ^ q ^ r ^ s) by (bit_vector); assert((s ^ r) ^ (p ^ q) == p ^ q ^ r ^ s) by (bit_vector); assert((s ^ r) ^ (q ^ p) == p ^ q ^ r ^ s) by (bit_vector); assert(p ^ q ^ s ^ r == p ^ q ^ r ^ s) by (bit_vector); assert(p ^ r ^ q ^ s == p ^ q ^ r ^ s) by (bit_vector); assert(p ^ r ^ s ^ q == p ^ q ^ r ^ s) by (bit_vector); assert(p ^ s ^ q ^ r == p ^ q ^ r ^ s) by (bit_vector); assert(p ^ s ^ r ^ q == p ^ q ^ r ^ s) by (bit_vector); assert(q ^ p ^ r ^ s == p ^ q ^ r ^ s) by (bit_vector); assert(q ^ p ^ s ^ r == p ^ q ^ r ^ s) by (bit_vector); assert(q ^ r ^ p ^ s == p ^ q ^ r ^ s) by (bit_vector); assert(q ^ r ^ s ^ p == p ^ q ^ r ^ s) by (bit_vector); assert(q ^ s ^ p ^ r == p ^ q ^ r ^ s) by (bit_vector); assert(q ^ s ^ r ^ p == p ^ q ^ r ^ s) by (bit_vector); assert(r ^ p ^ q ^ s == p ^ q ^ r ^ s) by (bit_vector); assert(r ^ p ^ s ^ q == p ^ q ^ r ^ s) by (bit_vector); assert(r ^ q ^ p ^ s == p ^ q ^ r ^ s) by (bit_vector); assert(r ^ q ^ s ^ p == p ^ q ^ r ^ s) by (bit_vector); assert(r ^ s ^ p ^ q == p ^ q ^ r ^ s) by (bit_vector); assert(r ^ s ^ q ^ p == p ^ q ^ r ^ s) by (bit_vector); assert(s ^ p ^ q ^ r == p ^ q ^ r ^ s) by (bit_vector); assert(s ^ p ^ r ^ q == p ^ q ^ r ^ s) by (bit_vector); assert(s ^ q ^ p ^ r == p ^ q ^ r ^ s) by (bit_vector); assert(s ^ q ^ r ^ p == p ^ q ^ r ^ s) by (bit_vector); assert(s ^ r ^ p ^ q == p ^ q ^ r ^ s) by (bit_vector); assert(s ^ r ^ q ^ p == p ^ q ^ r ^ s) by (bit_vector); }
//% fn src/aes/field.rs AesField::mul2
    ensures r == xt(n)
//% end
//% fn src/aes/field.rs AesField::mul3
    ensures r == n ^ xt(n)
//% at start
    proof { let k = if n & 0x80 != 0 { 0x1bu8 } else { 0u8 }; let m = n << 1; assert(n ^ m ^ k == n ^ (m ^ k)) by (bit_vector); }
//% end
//% fn src/aes/field.rs AesField::div3
    ensures r == div3(n)
//% end
//% fn src/aes/field.rs AesField::mul
    ensures r == gmul(a, b)
//% at loop 0
    a == xtn(vx_old_a, vx_i0 as nat), b == vx_old_b >> (vx_i0 as u8), r == gsum(vx_old_a, vx_old_b, vx_i0 as nat),
//% at loop 0 start
    let ghost (a0, b0, r0, k) = (a, b, r, vx_i0 as u8);
    proof {
        let b = vx_old_b;
        assert(b >> k >> 1u8 == b >> add(k, 1)) by (bit_vector) requires k < 8;
        assert(r0 ^ 0u8 == r0) by (bit_vector);
        assert((a0 << 1) ^ 0u8 == a0 << 1) by (bit_vector);
    }
//% at start
    proof { assert(b >> 0u8 == b) by (bit_vector); }
//% end
//% fn src/aes/field.rs AesFieldIterator::start
    ensures r.p == 1, r.q == 1
//% end
//% fn src/aes/field.rs AesFieldIterator::step
    ensures self.p == 0 ==> r is None,
        self.p != 0 ==> r == Some(((self.p, self.q), (if self.p ^ xt(self.p) == 1 { 0 } else { self.p ^ xt(self.p) }, div3(self.q))))
//% end
//% fn src/aes/sbox.rs transform_affine
    ensures r == affine(b)
//% end
//% fn src/aes/sbox.rs calculate_sbox
    ensures sbox_ok(r)
//% at start
    hide(xt); hide(div3); hide(affine); hide(t_sbox); hide(t_inv); hide(t_g); hide(t_q); hide(t_l); hide(gmul); hide(all_a); hide(all_b);
    let ghost mut k: int = 0;
    proof { lemma_tables(); assert forall|j: int| 0 <= j < 255 implies #[trigger] gp(j) != 0 by { lemma_all_a(255, j); } }
//% at loop 0
    0 <= k <= 255, it.q == gq(k), k < 255 ==> it.p == gp(k), k == 255 ==> it.p == 0,
    sbox@[0] == 0x63, inverse@[0x63] == 0,
    forall|j: int| 0 <= j < k ==> sbox@[gp(j) as int] == sb(#[trigger] gp(j)),
    forall|j: int| 0 <= j < k ==> inverse@[sb(#[trigger] gp(j)) as int] == gp(j),
    forall|j: int| 0 <= j < 255 ==> #[trigger] gp(j) != 0,
    decreases 255 - k
//% at loop 0 start
    proof { lemma_all_a(255, k); lemma_all_b(256, gp(k) as int); lemma_all_b(256, 0); assert forall|j: int| 0 <= j < k implies isb(sb(#[trigger] gp(j))) == gp(j) by { lemma_all_b(256, gp(j) as int); } if k < 254 { lemma_all_a(255, k + 1); } }
//% at loop 0 end
    proof { k = k + 1; }
//% at loop 0 after
    proof { assert(k == 255); }
//% at end
    proof {
        assert forall|x: int| 0 <= x < 256 implies r.forward@[x] == t_sbox()[x] by { lemma_all_b(256, x); if x != 0 { assert(gp(gl(x as u8) as int) == x as u8); } }
        assert forall|x: int| 0 <= x < 256 implies r.backward@[x] == t_inv()[x] by { lemma_all_b(256, x); let y = isb(x as u8); lemma_all_b(256, y as int); if y != 0 { assert(gp(gl(y) as int) == y); } }
        assert(r.forward@ =~= t_sbox());
        assert(r.backward@ =~= t_inv());
    }
//% end
//% const src/aes/sbox.rs SBOX
    ensures sbox_ok(r)
//% end

impl BitXorSpecImpl<Word> for Word {
    open spec fn obeys_bitxor_spec() -> bool { false }
    open spec fn bitxor_req(self, rhs: Word) -> bool { true }
    open spec fn bitxor_spec(self, rhs: Word) -> Word { self }
}
//% fn src/aes/expander.rs "<Word as BitXor>::bitxor" native
    ensures r.0@ == w_xor(self.0@, rhs.0@)
//% at end
    proof { assert(r.0@ =~= w_xor(self.0@, rhs.0@)); }
//% end
//% fn src/aes/expander.rs AesKeyExpander::calculate_round_constants
    ensures forall|i: int| 1 <= i < L ==> #[trigger] r@[i] == xtn(1, (i - 1) as nat)
//% at loop 0
    1 <= i, i <= L || i == 1, n == xtn(1, (i - 1) as nat),
    forall|q: int| 1 <= q < i ==> #[trigger] result@[q] == xtn(1, (q - 1) as nat),
//% end
pub open spec fn expander_ok(e: AesKeyExpander) -> bool { sbox_ok(e.sbox) && forall|i: int| 1 <= i < 11 ==> #[trigger] e.rcon@[i].0@ == rcon(i) }
//% fn src/aes/expander.rs AesKeyExpander::new
    ensures expander_ok(r)
//% at loop 0
    forall|q: int| 1 <= q < vx_i0 ==> #[trigger] rcon@[q].0@ == crate::rcon(q),
//% at loop 0 end
    proof { if vx_i0 > 1 { assert(rcon@[vx_i0 - 1].0@ =~= crate::rcon(vx_i0 - 1)); } }
//% end
//% fn src/aes/expander.rs AesKeyExpander::rotate_word
    ensures r.0@ == w_rot(w.0@)
//% at end
    proof { assert(r.0@ =~= w_rot(w.0@)); }
//% end
//% fn src/aes/expander.rs AesKeyExpander::substitute_word
    requires expander_ok(*self)
    ensures r.0@ == w_sub(w.0@)
//% at start
    hide(t_sbox);
//% at end
    proof { assert(r.0@ =~= w_sub(w.0@)); }
//% end
pub open spec fn wd(x: Word) -> Seq<u8> { x.0@ }
pub open spec fn flat(key: Seq<Word>) -> Seq<u8> { Seq::new(4 * key.len(), |i: int| key[i / 4].0@[i % 4]) }
//% fn src/aes/expander.rs AesKeyExpander::expand_key_using_words
    requires expander_ok(*self), 1 <= N <= 64, num_keys <= 1000, 4 * num_keys <= 11 * N
    ensures r@.len() == 4 * num_keys, forall|i: int| 0 <= i < 4 * num_keys ==> wd(#[trigger] r@[i]) == kw(flat(key@), N as int, i)
//% at loop 0
    expander_ok(*self), 1 <= N <= 64, num_keys <= 1000, 4 * num_keys <= 11 * N, vx_e0 == 4 * num_keys,
    w@.len() == vx_i0,
    forall|q: int| 0 <= q < vx_i0 ==> wd(#[trigger] w@[q]) == kw(flat(key@), N as int, q),
//% at loop 0 start
    proof { lemma_kw_step(flat(key@), N as int, vx_i0 as int); lemma_divlt(i as int, N as int); if i < N { assert(key@[i as int].0@ =~= flat(key@).subrange(4 * i, 4 * i + 4)); } else { assert(wd(w@[i - N]) == kw(flat(key@), N as int, i - N)); assert(wd(w@[i - 1]) == kw(flat(key@), N as int, i - 1)); } }
//% at loop 0 end
    proof { assert(wd(w@[vx_i0 - 1]) == kw(flat(key@), N as int, vx_i0 - 1)); }
//% at start
    hide(kw); hide(t_sbox);
//% end
//% fn src/aes/expander.rs AesKeyExpander::expand_key
    requires expander_ok(*self), K == 4 * W, 1 <= W <= 64, num_keys <= 1000, 4 * num_keys <= 11 * W
    ensures r@.len() == num_keys, forall|k: int| 0 <= k < num_keys ==> #[trigger] r@[k]@ == round_key(key@, W as int, k)
//% at loop 0
    vx_e0 == W, K == 4 * W, vx_v0@.len() == vx_i0,
    forall|q: int| 0 <= q < vx_i0 ==> wd(#[trigger] vx_v0@[q]) == key@.subrange(4 * q, 4 * q + 4),
//% at loop 0 end
    proof { assert(wd(vx_v0@[vx_i0 - 1]) =~= key@.subrange(4 * (vx_i0 - 1), 4 * (vx_i0 - 1) + 4)); }
//% at let key_array
    proof {
        assert forall|i: int| 0 <= i < 4 * W implies flat(key_array@)[i] == key@[i] by { assert(wd(key_words@[i / 4]) == key@.subrange(4 * (i / 4), 4 * (i / 4) + 4)); }
        assert(flat(key_array@) =~= key@);
    }
//% at loop 1
    vx_e1 == num_keys, key@.len() == 4 * W, W > 0, result@.len() == 4 * num_keys, expanded_keys@.len() == vx_i1,
    forall|i: int| 0 <= i < 4 * num_keys ==> wd(#[trigger] result@[i]) == kw(key@, W as int, i),
    forall|k: int| 0 <= k < vx_i1 ==> #[trigger] expanded_keys@[k]@ == round_key(key@, W as int, k),
//% at loop 2
    words@.len() == 4,
    forall|q: int| 0 <= q < 4 * vx_i2 ==> block@[q] == words@[q / 4].0@[q % 4],
//% at loop 3
    words@.len() == 4, wi < 4,
    forall|q: int| 0 <= q < 4 * (wi as int) + (vx_i3 as int) ==> block@[q] == words@[q / 4].0@[q % 4],
//% at loop 2 after
    proof {
        let k = vx_i1 - 1;
        assert forall|z: int| 0 <= z < 4 implies words@[z].0@ == kw(key@, W as int, 4 * k + z) by { assert(words@[z] == result@[4 * k + z]); assert(wd(result@[4 * k + z]) == kw(key@, W as int, 4 * k + z)); }
        lemma_kw_len(key@, W as int, 4 * k); lemma_kw_len(key@, W as int, 4 * k + 1); lemma_kw_len(key@, W as int, 4 * k + 2); lemma_kw_len(key@, W as int, 4 * k + 3);
        assert(block@ =~= round_key(key@, W as int, k));
    }
//% at start
    hide(kw); hide(t_sbox);
//% end
//% trait src/aes/cipher.rs AesStep
    spec fn fwd(&self, s: Seq<u8>) -> Seq<u8>;
    spec fn bwd(&self, s: Seq<u8>) -> Seq<u8>;
//% method forward
        ensures final(state).0@ == self.fwd(old(state).0@)
//% method backward
        ensures final(state).0@ == self.bwd(old(state).0@)
//% end
//% fn src/aes/cipher.rs "<AddKey as AesStep>::forward" native
//% at impl
    open spec fn fwd(&self, s: Seq<u8>) -> Seq<u8> { s_xor(s, self.key@) }
    open spec fn bwd(&self, s: Seq<u8>) -> Seq<u8> { s_xor(s, self.key@) }
//% at loop 0
    vx_e0 == 16,
    forall|q: int| 0 <= q < vx_i0 ==> state.0@[q] == old(state).0@[q] ^ self.key@[q],
    forall|q: int| vx_i0 <= q < 16 ==> state.0@[q] == old(state).0@[q],
//% at end
    proof { assert(state.0@ =~= s_xor(old(state).0@, self.key@)); }
//% end
//% fn src/aes/cipher.rs "<AddKey as AesStep>::backward" native
//% end
//% fn src/aes/cipher.rs "<Substitute as AesStep>::forward" native
//% at impl
    open spec fn fwd(&self, s: Seq<u8>) -> Seq<u8> { s_sub(s) }
    open spec fn bwd(&self, s: Seq<u8>) -> Seq<u8> { s_isub(s) }
//% at loop 0
    vx_e0 == 16, t_sbox().len() == 256,
    forall|q: int| 0 <= q < vx_i0 ==> state.0@[q] == sb(old(state).0@[q]),
    forall|q: int| vx_i0 <= q < 16 ==> state.0@[q] == old(state).0@[q],
//% at start
    hide(t_sbox); hide(t_inv);
    proof { lemma_tables(); }
//% at end
    proof { assert(state.0@ =~= s_sub(old(state).0@)); }
//% end
//% fn src/aes/cipher.rs "<Substitute as AesStep>::backward" native
//% at loop 0
    vx_e0 == 16, t_inv().len() == 256,
    forall|q: int| 0 <= q < vx_i0 ==> state.0@[q] == isb(old(state).0@[q]),
    forall|q: int| vx_i0 <= q < 16 ==> state.0@[q] == old(state).0@[q],
//% at start
    hide(t_sbox); hide(t_inv);
    proof { lemma_tables(); }
//% at end
    proof { assert(state.0@ =~= s_isub(old(state).0@)); }
//% end
pub open spec fn rot_row(s: Seq<u8>, row: int) -> Seq<u8> { s.update(row, s[row + 4]).update(row + 4, s[row + 8]).update(row + 8, s[row + 12]).update(row + 12, s[row]) }
//% fn src/aes/cipher.rs State::shift_row_one_step
    requires row < 4
    ensures final(self).0@ == rot_row(old(self).0@, row as int)
//% at loop 0
    row < 4,
    forall|q: int| 0 <= q < 16 && !(q % 4 == row && q / 4 < vx_i0) ==> self.0@[q] == old(self).0@[q],
    forall|q: int| 0 <= q < vx_i0 ==> #[trigger] self.0@[row + 4 * q] == old(self).0@[row + 4 * q + 4],
//% at end
    proof { assert(self.0@[row as int + 4 * 0] == old(self).0@[row + 4] && self.0@[row as int + 4 * 1] == old(self).0@[row + 8] && self.0@[row as int + 4 * 2] == old(self).0@[row + 12]); assert(self.0@ =~= rot_row(old(self).0@, row as int)); }
//% end
//% fn src/aes/cipher.rs "<ShiftRows as AesStep>::forward" native
//% at impl
    open spec fn fwd(&self, s: Seq<u8>) -> Seq<u8> { s_shift(s) }
    open spec fn bwd(&self, s: Seq<u8>) -> Seq<u8> { s_ishift(s) }
//% at end
    proof { assert(state.0@ =~= s_shift(old(state).0@)); }
//% end
//% fn src/aes/cipher.rs "<ShiftRows as AesStep>::backward" native
//% at end
    proof { assert(state.0@ =~= s_ishift(old(state).0@)); }
//% end
//% fn src/aes/cipher.rs mix_column
    requires old(col)@.len() == 4
    ensures final(col)@ == mc(old(col)@)
//% at start
    hide(gmul); hide(xt);
    proof {
        lemma_mix_column(col@);
        let c = col@;
        lemma_xor4(gmul(c[0], 2), gmul(c[1], 3), c[2], c[3]); lemma_xor4(gmul(c[1], 2), gmul(c[2], 3), c[3], c[0]);
        lemma_xor4(gmul(c[2], 2), gmul(c[3], 3), c[0], c[1]); lemma_xor4(gmul(c[3], 2), gmul(c[0], 3), c[1], c[2]);
    }
//% at end
    proof { assert(col@ =~= mc(old(col)@)); }
//% end
//% fn src/aes/cipher.rs unmix_column
    requires old(col)@.len() == 4
    ensures final(col)@ == imc(old(col)@)
//% at start
    hide(gmul); hide(xt);
    proof {
        let c = col@;
        lemma_xor4(gmul(c[0], 14), gmul(c[1], 11), gmul(c[2], 13), gmul(c[3], 9)); lemma_xor4(gmul(c[1], 14), gmul(c[2], 11), gmul(c[3], 13), gmul(c[0], 9));
        lemma_xor4(gmul(c[2], 14), gmul(c[3], 11), gmul(c[0], 13), gmul(c[1], 9)); lemma_xor4(gmul(c[3], 14), gmul(c[0], 11), gmul(c[1], 13), gmul(c[2], 9));
    }
//% at end
    proof { assert(col@ =~= imc(old(col)@)); }
//% end
//% fn src/aes/cipher.rs "<MixColumns as AesStep>::forward" native
//% at impl
    open spec fn fwd(&self, s: Seq<u8>) -> Seq<u8> { s_mix(s) }
    open spec fn bwd(&self, s: Seq<u8>) -> Seq<u8> { s_imix(s) }
//% at loop 0
    forall|q: int| 0 <= q < vx_i0 ==> #[trigger] col(state.0@, q) == mc(col(old(state).0@, q)),
    forall|q: int| vx_i0 <= q < 4 ==> #[trigger] col(state.0@, q) == col(old(state).0@, q),
//% at loop 0 start
    let ghost s0 = state.0@;
//% at loop 0 end
    proof {
        assert forall|q: int| 0 <= q < 4 && q != vx_i0 - 1 implies #[trigger] col(state.0@, q) == col(s0, q) by { assert(col(state.0@, q) =~= col(s0, q)); }
        assert(col(state.0@, vx_i0 - 1) =~= mc(col(s0, vx_i0 - 1)));
    }
//% at start
    hide(mrow);
//% at end
    proof { lemma_joincols(state.0@); assert(state.0@ =~= s_mix(old(state).0@)); }
//% end
//% fn src/aes/cipher.rs "<MixColumns as AesStep>::backward" native
//% at loop 0
    forall|q: int| 0 <= q < vx_i0 ==> #[trigger] col(state.0@, q) == imc(col(old(state).0@, q)),
    forall|q: int| vx_i0 <= q < 4 ==> #[trigger] col(state.0@, q) == col(old(state).0@, q),
//% at loop 0 start
    let ghost s0 = state.0@;
//% at loop 0 end
    proof {
        assert forall|q: int| 0 <= q < 4 && q != vx_i0 - 1 implies #[trigger] col(state.0@, q) == col(s0, q) by { assert(col(state.0@, q) =~= col(s0, q)); }
        assert(col(state.0@, vx_i0 - 1) =~= imc(col(s0, vx_i0 - 1)));
    }
//% at start
    hide(irow);
//% at end
    proof { lemma_joincols(state.0@); assert(state.0@ =~= s_imix(old(state).0@)); }
//% end
//% fn src/aes/cipher.rs Aes::with_128_bit_key
    ensures aes_for(r, key@)
//% at start
    hide(round_key);
//% at end
    proof { assert(keys_of(r) =~= fips_keys(key@, 4)); }
//% end
//% fn src/aes/cipher.rs Aes::with_192_bit_key
    ensures aes_for(r, key@)
//% at start
    hide(round_key);
//% at end
    proof { assert(keys_of(r) =~= fips_keys(key@, 6)); }
//% end
//% fn src/aes/cipher.rs Aes::with_256_bit_key
    ensures aes_for(r, key@)
//% at start
    hide(round_key);
//% at end
    proof { assert(keys_of(r) =~= fips_keys(key@, 8)); }
//% end
//% fn src/aes/cipher.rs "<Aes as BlockCipher<16>>::encrypt"
    requires aes_wf(*self)
    ensures r@ == cipher(keys_of(*self), self.rounds as int, plaintext@), inv_cipher(keys_of(*self), self.rounds as int, r@) == plaintext@,
        forall|key: Seq<u8>| aes_for(*self, key) ==> r@ == #[trigger] fips_aes(key, plaintext@)
//% at start
    hide(s_xor); hide(s_sub); hide(s_shift); hide(s_mix); hide(c_rounds); hide(fips_keys);
    proof { thm_aes_inverse(keys_of(*self), self.rounds as int, plaintext@); lemma_c_step(keys_of(*self), plaintext@, 0); }
//% at loop 0
    aes_wf(*self), vx_e0 == self.rounds,
    state.0@ == c_rounds(keys_of(*self), plaintext@, (vx_i0 - 1) as nat),
//% at loop 0 start
    proof { lemma_c_step(keys_of(*self), plaintext@, vx_i0 as nat); }
//% end
//% fn src/aes/cipher.rs "<Aes as BlockCipher<16>>::decrypt"
    requires aes_wf(*self)
    ensures r@ == inv_cipher(keys_of(*self), self.rounds as int, ciphertext@), cipher(keys_of(*self), self.rounds as int, r@) == ciphertext@
//% at start
    hide(s_xor); hide(s_isub); hide(s_ishift); hide(s_imix); hide(i_rounds);
    proof { thm_aes_inverse(keys_of(*self), self.rounds as int, ciphertext@); }
//% at loop 0
    aes_wf(*self), vx_e0 == self.rounds,
    i_rounds(keys_of(*self), state.0@, (vx_i0 - 1) as nat) == inv_cipher(keys_of(*self), self.rounds as int, ciphertext@),
//% at loop 0 start
    proof { lemma_i_step(keys_of(*self), state.0@, vx_i0 as nat); }
//% at loop 0 after
    proof { lemma_i_step(keys_of(*self), state.0@, 0); }
//% end
//% fn src/aes/mod.rs copy_u64s
    requires N == 8 * V
    ensures r@ == words_be(values@)
//% at loop 0
    N == 8 * V, vx_e0 == V,
    forall|q: int| 0 <= q < 8 * vx_i0 ==> key@[q] == u64_be(values@[q / 8])[q % 8],
//% at end
    proof { assert(r@ =~= words_be(values@)); }
//% end
//% fn src/aes/mod.rs "<Key128 as From<[u64;2]>>::from" as=from_words
    ensures r.0@ == words_be(values@)
//% end
//% fn src/aes/mod.rs "<Key192 as From<[u64;3]>>::from" as=from_words
    ensures r.0@ == words_be(values@)
//% end
//% fn src/aes/mod.rs "<Key256 as From<[u64;4]>>::from" as=from_words
    ensures r.0@ == words_be(values@)
//% end
//% fn src/aes/mod.rs "<Aes as From<Key128>>::from" as=from_key128
    ensures aes_for(r, key.0@)
//% end
//% fn src/aes/mod.rs "<Aes as From<Key192>>::from" as=from_key192
    ensures aes_for(r, key.0@)
//% end
//% fn src/aes/mod.rs "<Aes as From<Key256>>::from" as=from_key256
    ensures aes_for(r, key.0@)
//% end
