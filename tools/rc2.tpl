//% use prelude
//% type src/lib.rs Block
//% struct src/rc/rc2.rs RC2
pub assume_specification[u16::div_ceil](a: u16, b: u16) -> (r: u16)
    requires b > 0
    ensures r == (a as int + b as int - 1) / b as int;
pub assume_specification[u16::wrapping_neg](a: u16) -> (r: u16)
    ensures r == sub16(0, a);

// ---------- RFC 2268
pub open spec fn pit() -> Seq<u8> { seq![@TABLE@] }
pub open spec fn pi_sub(x: u8) -> u8 { pit()[x as int] }
// the first n bytes of L after the forward expansion of the key
pub open spec fn rc2_fwd(key: Seq<u8>, n: nat) -> Seq<u8> decreases n {
    if n <= key.len() { key.subrange(0, n as int) } else { let p = rc2_fwd(key, (n - 1) as nat); p.push(pi_sub(add8(p[n - 2], p[n - 1 - key.len()]))) }
}
pub open spec fn rc2_t8(t1: int) -> int { (t1 + 7) / 8 }
// TM = 255 mod 2^(8 + T1 - 8*T8)
pub open spec fn rc2_tm(t1: int) -> u8 { (255nat % vstd::arithmetic::power2::pow2((8 + t1 - 8 * rc2_t8(t1)) as nat)) as u8 }
// L after the masking step and k steps of the backward pass
pub open spec fn rc2_back(key: Seq<u8>, t1: int, k: nat) -> Seq<u8> decreases k {
    let t8 = rc2_t8(t1);
    if k == 0 { let l = rc2_fwd(key, 128); l.update(128 - t8, pi_sub(l[128 - t8] & rc2_tm(t1))) }
    else { let l = rc2_back(key, t1, (k - 1) as nat); let i = 128 - t8 - k; l.update(i, pi_sub(l[i + 1] ^ l[i + t8])) }
}
pub open spec fn rc2_key(key: Seq<u8>, t1: int) -> Seq<u16> {
    let l = rc2_back(key, t1, (128 - rc2_t8(t1)) as nat);
    Seq::new(64, |i: int| le16(seq![l[2 * i], l[2 * i + 1]]))
}
pub open spec fn rc2_s(i: int) -> u32 { if i == 0 { 1 } else if i == 1 { 2 } else if i == 2 { 3 } else { 5 } }
pub open spec fn rc2_mix1(d: Seq<u16>, i: int, k: u16) -> Seq<u16> {
    d.update(i, rotl16(add16(add16(add16(d[i], k), d[(i + 3) % 4] & d[(i + 2) % 4]), !d[(i + 3) % 4] & d[(i + 1) % 4]), rc2_s(i)))
}
pub open spec fn rc2_rmix1(d: Seq<u16>, i: int, k: u16) -> Seq<u16> {
    d.update(i, sub16(sub16(sub16(rotr16(d[i], rc2_s(i)), k), d[(i + 3) % 4] & d[(i + 2) % 4]), !d[(i + 3) % 4] & d[(i + 1) % 4]))
}
pub open spec fn rc2_mash1(key: Seq<u16>, d: Seq<u16>, i: int) -> Seq<u16> { d.update(i, add16(d[i], key[(d[(i + 3) % 4] & 63) as int])) }
pub open spec fn rc2_rmash1(key: Seq<u16>, d: Seq<u16>, i: int) -> Seq<u16> { d.update(i, sub16(d[i], key[(d[(i + 3) % 4] & 63) as int])) }
// the first n words of a mixing round with the key words from j on
pub open spec fn rc2_mix(key: Seq<u16>, j: int, d: Seq<u16>, n: nat) -> Seq<u16> decreases n { if n == 0 { d } else { rc2_mix1(rc2_mix(key, j, d, (n - 1) as nat), n - 1, key[j + n - 1]) } }
pub open spec fn rc2_mash(key: Seq<u16>, d: Seq<u16>, n: nat) -> Seq<u16> decreases n { if n == 0 { d } else { rc2_mash1(key, rc2_mash(key, d, (n - 1) as nat), n - 1) } }
// words n-1, .., 0 of the reverse rounds
pub open spec fn rc2_rmix(key: Seq<u16>, j: int, d: Seq<u16>, n: nat) -> Seq<u16> decreases n { if n == 0 { d } else { rc2_rmix(key, j, rc2_rmix1(d, n - 1, key[j + n - 1]), (n - 1) as nat) } }
pub open spec fn rc2_rmash(key: Seq<u16>, d: Seq<u16>, n: nat) -> Seq<u16> decreases n { if n == 0 { d } else { rc2_rmash(key, rc2_rmash1(key, d, n - 1), (n - 1) as nat) } }
// five mixing rounds, a mashing round, six mixing rounds, a mashing round, five mixing rounds
pub open spec fn rc2_round(key: Seq<u16>, d: Seq<u16>, n: int) -> Seq<u16> { let m = rc2_mix(key, 4 * n, d, 4); if n == 4 || n == 10 { rc2_mash(key, m, 4) } else { m } }
pub open spec fn rc2_unround(key: Seq<u16>, d: Seq<u16>, n: int) -> Seq<u16> { rc2_rmix(key, 4 * n, if n == 4 || n == 10 { rc2_rmash(key, d, 4) } else { d }, 4) }
pub open spec fn rc2_enc(key: Seq<u16>, d: Seq<u16>, n: nat) -> Seq<u16> decreases n { if n == 0 { d } else { rc2_round(key, rc2_enc(key, d, (n - 1) as nat), n - 1) } }
pub open spec fn rc2_dec(key: Seq<u16>, d: Seq<u16>, n: nat) -> Seq<u16> decreases n { if n == 0 { d } else { rc2_dec(key, rc2_unround(key, d, n - 1), (n - 1) as nat) } }
pub open spec fn rc2_load(p: Seq<u8>) -> Seq<u16> { Seq::new(4, |i: int| le16(seq![p[2 * i], p[2 * i + 1]])) }
pub open spec fn rc2_store(d: Seq<u16>) -> Seq<u8> { Seq::new(8, |i: int| u16_le(d[i / 2])[i % 2]) }
pub open spec fn rc2_block(k: RC2, p: Seq<u8>) -> Seq<u8> { rc2_store(rc2_enc(k.key@, rc2_load(p), 16)) }
pub open spec fn rc2_unblock(k: RC2, p: Seq<u8>) -> Seq<u8> { rc2_store(rc2_dec(k.key@, rc2_load(p), 16)) }

// ---------- lemmas
pub proof fn lemma_addsub16(a: u16, b: u16) ensures sub16(add16(a, b), b) == a, add16(sub16(a, b), b) == a {}
pub proof fn lemma_rot16(x: u16, n: u32) requires n < 16 ensures rotr16(rotl16(x, n), n) == x, rotl16(rotr16(x, n), n) == x {
    let k = (n & 15) as u16;
    assert((n & 15) < 16) by (bit_vector);
    if k != 0 {
        let m = (16 - k) as u16;
        assert(((x << k | x >> m) >> k | (x << k | x >> m) << m) == x) by (bit_vector) requires 0 < k < 16, m == 16 - k;
        assert(((x >> k | x << m) << k | (x >> k | x << m) >> m) == x) by (bit_vector) requires 0 < k < 16, m == 16 - k;
    }
}
pub proof fn lemma_mix1(d: Seq<u16>, i: int, k: u16)
    requires d.len() == 4, 0 <= i < 4
    ensures rc2_rmix1(rc2_mix1(d, i, k), i, k) == d, rc2_mix1(rc2_rmix1(d, i, k), i, k) == d, rc2_mix1(d, i, k).len() == 4, rc2_rmix1(d, i, k).len() == 4
{
    let (a, b) = (d[(i + 3) % 4] & d[(i + 2) % 4], !d[(i + 3) % 4] & d[(i + 1) % 4]);
    let x = add16(add16(add16(d[i], k), a), b);
    lemma_rot16(x, rc2_s(i));
    assert(rc2_rmix1(rc2_mix1(d, i, k), i, k) =~= d);
    let y = sub16(sub16(sub16(rotr16(d[i], rc2_s(i)), k), a), b);
    lemma_rot16(d[i], rc2_s(i));
    assert(add16(add16(add16(y, k), a), b) == rotr16(d[i], rc2_s(i)));
    assert(rc2_mix1(rc2_rmix1(d, i, k), i, k) =~= d);
}
pub proof fn lemma_mash1(key: Seq<u16>, d: Seq<u16>, i: int)
    requires d.len() == 4, 0 <= i < 4
    ensures rc2_rmash1(key, rc2_mash1(key, d, i), i) == d, rc2_mash1(key, rc2_rmash1(key, d, i), i) == d, rc2_mash1(key, d, i).len() == 4, rc2_rmash1(key, d, i).len() == 4
{
    assert(rc2_rmash1(key, rc2_mash1(key, d, i), i) =~= d);
    assert(rc2_mash1(key, rc2_rmash1(key, d, i), i) =~= d);
}
pub proof fn lemma_mix(key: Seq<u16>, j: int, d: Seq<u16>, n: nat)
    requires d.len() == 4, n <= 4
    ensures rc2_rmix(key, j, rc2_mix(key, j, d, n), n) == d, rc2_mix(key, j, rc2_rmix(key, j, d, n), n) == d, rc2_mix(key, j, d, n).len() == 4, rc2_rmix(key, j, d, n).len() == 4
    decreases n
{
    if n > 0 {
        lemma_mix(key, j, d, (n - 1) as nat);
        lemma_mix1(rc2_mix(key, j, d, (n - 1) as nat), n - 1, key[j + n - 1]);
        lemma_mix1(d, n - 1, key[j + n - 1]);
        lemma_mix(key, j, rc2_rmix1(d, n - 1, key[j + n - 1]), (n - 1) as nat);
    }
}
pub proof fn lemma_mash(key: Seq<u16>, d: Seq<u16>, n: nat)
    requires d.len() == 4, n <= 4
    ensures rc2_rmash(key, rc2_mash(key, d, n), n) == d, rc2_mash(key, rc2_rmash(key, d, n), n) == d, rc2_mash(key, d, n).len() == 4, rc2_rmash(key, d, n).len() == 4
    decreases n
{
    if n > 0 {
        lemma_mash(key, d, (n - 1) as nat);
        lemma_mash1(key, rc2_mash(key, d, (n - 1) as nat), n - 1);
        lemma_mash1(key, d, n - 1);
        lemma_mash(key, rc2_rmash1(key, d, n - 1), (n - 1) as nat);
    }
}
pub proof fn lemma_round(key: Seq<u16>, d: Seq<u16>, n: int)
    requires d.len() == 4
    ensures rc2_unround(key, rc2_round(key, d, n), n) == d, rc2_round(key, rc2_unround(key, d, n), n) == d, rc2_round(key, d, n).len() == 4, rc2_unround(key, d, n).len() == 4
{
    hide(rc2_mix); hide(rc2_rmix); hide(rc2_mash); hide(rc2_rmash);
    lemma_mix(key, 4 * n, d, 4);
    lemma_mash(key, rc2_mix(key, 4 * n, d, 4), 4);
    lemma_mash(key, d, 4);
    lemma_mix(key, 4 * n, rc2_rmash(key, d, 4), 4);
}
pub proof fn lemma_enc(key: Seq<u16>, d: Seq<u16>, n: nat)
    requires d.len() == 4
    ensures rc2_dec(key, rc2_enc(key, d, n), n) == d, rc2_enc(key, rc2_dec(key, d, n), n) == d, rc2_enc(key, d, n).len() == 4, rc2_dec(key, d, n).len() == 4
    decreases n
{
    hide(rc2_round); hide(rc2_unround);
    if n > 0 {
        lemma_enc(key, d, (n - 1) as nat);
        lemma_round(key, rc2_enc(key, d, (n - 1) as nat), n - 1);
        lemma_round(key, d, n - 1);
        lemma_enc(key, rc2_unround(key, d, n - 1), (n - 1) as nat);
    }
}
pub proof fn lemma_le16(x: u16) ensures le16(u16_le(x)) == x {
    let (a, b) = ((x & 0xff) as u8, ((x >> 8) & 0xff) as u8);
    assert((a as u16) | (b as u16) << 8 == x) by (bit_vector) requires a == (x & 0xff) as u8, b == ((x >> 8) & 0xff) as u8;
}
pub proof fn lemma_le16b(a: u8, b: u8) ensures u16_le(le16(seq![a, b])) == seq![a, b] {
    let x = le16(seq![a, b]);
    assert(a == (x & 0xff) as u8 && b == ((x >> 8) & 0xff) as u8) by (bit_vector) requires x == (a as u16) | (b as u16) << 8;
    assert(u16_le(x) =~= seq![a, b]);
}
pub proof fn lemma_ls(d: Seq<u16>, p: Seq<u8>) requires d.len() == 4, p.len() == 8 ensures rc2_load(rc2_store(d)) == d, rc2_store(rc2_load(p)) == p
{
    assert forall|i: int| 0 <= i < 4 implies rc2_load(rc2_store(d))[i] == d[i] by {
        lemma_le16(d[i]);
        assert((2 * i) / 2 == i && (2 * i) % 2 == 0 && (2 * i + 1) / 2 == i && (2 * i + 1) % 2 == 1);
        assert(seq![rc2_store(d)[2 * i], rc2_store(d)[2 * i + 1]] =~= u16_le(d[i]));
    }
    assert(rc2_load(rc2_store(d)) =~= d);
    assert forall|i: int| 0 <= i < 8 implies rc2_store(rc2_load(p))[i] == p[i] by {
        let q = i / 2;
        lemma_le16b(p[2 * q], p[2 * q + 1]);
        assert(i == 2 * q || i == 2 * q + 1);
    }
    assert(rc2_store(rc2_load(p)) =~= p);
}
pub proof fn thm_rc2_inverse(k: RC2, p: Seq<u8>)
    requires p.len() == 8
    ensures rc2_unblock(k, rc2_block(k, p)) == p, rc2_block(k, rc2_unblock(k, p)) == p
{
    hide(rc2_enc); hide(rc2_dec);
    let d = rc2_load(p);
    lemma_enc(k.key@, d, 16);
    lemma_ls(rc2_enc(k.key@, d, 16), p);
    lemma_ls(rc2_dec(k.key@, d, 16), p);
}
pub proof fn lemma_tm(t1: u16)
    requires 1 <= t1 <= 1024
    ensures (0xffu8 >> ((sub16(0, t1) & 7) as u8)) == rc2_tm(t1 as int), (sub16(0, t1) & 7) < 8,
        forall|x: u16| x == 8 * rc2_t8(t1 as int) - t1 ==> #[trigger] (0xffu8 >> x) == rc2_tm(t1 as int)
{
    let m = sub16(0, t1);
    let t8 = ((t1 + 7) / 8) as u16;
    let (w, z) = (m as u32, t1 as u32);
    assert(w == 0x10000u32 - z);
    let t8w = t8 as u32;
    assert(t8w == (z + 7) / 8);
    assert((w & 7) == 8 * t8w - z && (w & 7) < 8) by (bit_vector) requires t8w == ((z + 7) as u32) / 8u32, 1 <= z <= 1024, w == sub(0x10000u32, z);
    assert((m & 7) as u32 == w & 7) by (bit_vector) requires w == m as u32;
    let k = (m & 7) as u8;
    assert(k == 8 * t8 - t1);
    let e = (8 + t1 - 8 * rc2_t8(t1 as int)) as nat;
    assert(e == 8 - k);
    vstd::arithmetic::power2::lemma2_to64();
    assert(0xffu8 >> 0u8 == 255 && 0xffu8 >> 1u8 == 127 && 0xffu8 >> 2u8 == 63 && 0xffu8 >> 3u8 == 31 && 0xffu8 >> 4u8 == 15 && 0xffu8 >> 5u8 == 7 && 0xffu8 >> 6u8 == 3 && 0xffu8 >> 7u8 == 1) by (bit_vector);
    assert(255nat % 256 == 255 && 255nat % 128 == 127 && 255nat % 64 == 63 && 255nat % 32 == 31 && 255nat % 16 == 15 && 255nat % 8 == 7 && 255nat % 4 == 3 && 255nat % 2 == 1);
    if k == 0 { assert(e == 8); } else if k == 1 { assert(e == 7); } else if k == 2 { assert(e == 6); } else if k == 3 { assert(e == 5); } else if k == 4 { assert(e == 4); } else if k == 5 { assert(e == 3); } else if k == 6 { assert(e == 2); } else { assert(k == 7 && e == 1); }
    assert((0xffu8 >> k) == rc2_tm(t1 as int));
    assert((sub16(0, t1) & 7) as u8 == k);
    assert forall|x: u16| x == 8 * rc2_t8(t1 as int) - t1 implies #[trigger] (0xffu8 >> x) == rc2_tm(t1 as int) by {
        assert(x == k as u16);
        assert((0xffu8 >> x) == (0xffu8 >> k)) by (bit_vector) requires x == k as u16, k < 8;
    }
}
pub open spec fn rc2_rowv(i: int) -> nat { @ROWV@ }
pub proof fn lemma_row(i: int)
    requires 0 <= i < 16
    ensures be_bytes(rc2_rowv(i), 16) == pit().subrange(16 * i, 16 * i + 16)
{
@ROWS@}
pub proof fn lemma_fwd(key: Seq<u8>, n: nat, q: nat)
    requires 0 < key.len() <= n, q <= n
    ensures rc2_fwd(key, n).len() == n, rc2_fwd(key, n).subrange(0, q as int) == rc2_fwd(key, q)
    decreases n
{
    if n > key.len() {
        if q < n { lemma_fwd(key, (n - 1) as nat, q); assert(rc2_fwd(key, n).subrange(0, q as int) =~= rc2_fwd(key, (n - 1) as nat).subrange(0, q as int)); }
        else { lemma_fwd(key, (n - 1) as nat, (n - 1) as nat); assert(rc2_fwd(key, n).subrange(0, n as int) =~= rc2_fwd(key, n)); }
    } else { assert(rc2_fwd(key, n).subrange(0, q as int) =~= rc2_fwd(key, q)); }
}

pub proof fn lemma_fwd0(key: Seq<u8>) ensures rc2_fwd(key, key.len()) == key.subrange(0, key.len() as int) {}
pub proof fn lemma_fwd_step(key: Seq<u8>, n: nat)
    requires key.len() < n
    ensures rc2_fwd(key, n) == ({ let p = rc2_fwd(key, (n - 1) as nat); p.push(pi_sub(add8(p[n - 2], p[n - 1 - key.len()]))) })
{ hide(pi_sub); }
pub proof fn lemma_back_step(key: Seq<u8>, t1: int, k: nat)
    requires k > 0
    ensures rc2_back(key, t1, k) == ({ let t8 = rc2_t8(t1); let l = rc2_back(key, t1, (k - 1) as nat); let i = 128 - t8 - k; l.update(i, pi_sub(l[i + 1] ^ l[i + t8])) })
{ hide(pi_sub); }
pub proof fn lemma_and63(x: u16) ensures (x & 63) < 64 { assert((x & 63) < 64) by (bit_vector); }
pub proof fn lemma_enc_step(key: Seq<u16>, d: Seq<u16>, n: nat) ensures rc2_enc(key, d, n + 1) == rc2_round(key, rc2_enc(key, d, n), n as int), rc2_enc(key, d, 0) == d {}
pub proof fn lemma_dec_step(key: Seq<u16>, d: Seq<u16>, n: nat) ensures n > 0 ==> rc2_dec(key, d, n) == rc2_dec(key, rc2_unround(key, d, n - 1), (n - 1) as nat), rc2_dec(key, d, 0) == d {}
pub proof fn lemma_mix_shift(key: Seq<u16>, j: int, d: Seq<u16>, n: nat)
    requires 0 <= j, j + n <= key.len()
    ensures rc2_mix(key.subrange(j, key.len() as int), 0, d, n) == rc2_mix(key, j, d, n)
    decreases n
{ if n > 0 { lemma_mix_shift(key, j, d, (n - 1) as nat); } }
pub proof fn lemma_rmix_shift(key: Seq<u16>, j: int, d: Seq<u16>, n: nat)
    requires 0 <= j, j + n <= key.len()
    ensures rc2_rmix(key.subrange(j, key.len() as int), 0, d, n) == rc2_rmix(key, j, d, n)
    decreases n
{ if n > 0 { lemma_rmix_shift(key, j, rc2_rmix1(d, n - 1, key[j + n - 1]), (n - 1) as nat); } }
//% const src/rc/rc2.rs PITABLE
    ensures r@ == pit()
//% at loop 0
    forall|q: int| 0 <= q < 16 * vx_i0 ==> arr@[q] == pit()[q],
//% at let row
    proof {
        lemma_row(i as int);
        assert(rows@[i as int] as nat == rc2_rowv(i as int)) by { reveal(rc2_rowv); }
        assert forall|q: int| 0 <= q < 16 implies row@[q] == pit()[16 * i + q] by { assert(row@[q] == pit().subrange(16 * i, 16 * i + 16)[q]); }
    }
//% at loop 1
    i < 16, forall|q: int| 0 <= q < 16 ==> row@[q] == pit()[16 * i + q],
    forall|q: int| 0 <= q < 16 * i + vx_i1 ==> arr@[q] == pit()[q],
//% at start
    hide(pit);
    hide(be_bytes);
    hide(rc2_rowv);
    proof { assert(pit().len() == 256) by { reveal(pit); } }
//% at end
    proof { assert(pit().len() == 256) by { reveal(pit); } assert(r@ =~= pit()); }
//% end

//% fn src/rc/rc2.rs RC2::expand_key ret=res
    requires 1 <= key@.len() <= 128, 1 <= num_bits <= 1024
    ensures res@ == rc2_key(key@, num_bits as int)
//% at start
    hide(pit); hide(rc2_fwd); hide(rc2_back);
    proof { assert(pit().len() == 256) by { reveal(pit); } lemma_tm(num_bits); }
//% at loop 0
    t == key@.len(), 1 <= t <= 128,
    l@.subrange(0, vx_i0 as int) == rc2_fwd(key@, vx_i0 as nat),
//% at loop 0 before
    proof { assert(l@.subrange(0, t as int) =~= key@.subrange(0, t as int)); lemma_fwd0(key@); }
//% at loop 0 start
    let ghost l0 = l@;
//% at loop 0 end
    proof {
        let n = vx_i0 as nat;
        lemma_fwd_step(key@, n);
        let p = rc2_fwd(key@, (n - 1) as nat);
        assert(p[n - 2] == l0[n - 2] && p[n - 1 - t] == l0[n - 1 - t]);
        assert(l@.subrange(0, n as int) =~= rc2_fwd(key@, n));
    }
//% at loop 1
    1 <= t8 <= 128, t8 == rc2_t8(num_bits as int),
    l@ == rc2_back(key@, num_bits as int, (128 - t8 - vx_i1) as nat),
//% at loop 1 before
    proof { assert(l@ =~= rc2_back(key@, num_bits as int, 0)) by { reveal(rc2_back); } }
//% at loop 1 start
    let ghost l1 = l@;
//% at loop 1 end
    proof { lemma_back_step(key@, num_bits as int, (128 - t8 - vx_i1) as nat); assert(l@ =~= rc2_back(key@, num_bits as int, (128 - t8 - vx_i1) as nat)); }
//% at loop 2
    forall|q: int| 0 <= q < vx_i2 ==> k@[q] == le16(seq![l@[2 * q], l@[2 * q + 1]]),
//% at end
    proof { assert(res@ =~= rc2_key(key@, num_bits as int)); }
//% end

//% fn src/rc/rc2.rs RC2::from_key
    requires 1 <= key@.len() <= 128, 1 <= num_bits <= 1024
    ensures r.key@ == rc2_key(key@, num_bits as int)
//% end
//% fn src/rc/rc2.rs RC2::mix
    requires keys@.len() >= 4
    ensures final(data)@ == rc2_mix(keys@, 0, old(data)@, 4)
//% at loop 0
    keys@.len() >= 4,
    data@ == rc2_mix(keys@, 0, old(data)@, vx_i0 as nat),
//% at loop 0 end
    proof { assert(data@ =~= rc2_mix(keys@, 0, old(data)@, vx_i0 as nat)); }
//% end
//% fn src/rc/rc2.rs RC2::rmix
    requires keys@.len() >= 4
    ensures final(data)@ == rc2_rmix(keys@, 0, old(data)@, 4)
//% at loop 0
    keys@.len() >= 4,
    rc2_rmix(keys@, 0, data@, (4 - vx_i0) as nat) == rc2_rmix(keys@, 0, old(data)@, 4),
//% at loop 0 start
    let ghost d0 = data@;
//% at loop 0 end
    proof { assert(data@ =~= rc2_rmix1(d0, 4 - vx_i0, keys@[4 - vx_i0])); }
//% end
//% fn src/rc/rc2.rs RC2::mash
    ensures final(data)@ == rc2_mash(self.key@, old(data)@, 4)
//% at loop 0
    data@ == rc2_mash(self.key@, old(data)@, vx_i0 as nat),
//% at loop 0 start
    proof { assert forall|x: u16| #[trigger] (x & 63) < 64 by { lemma_and63(x); } }
//% at loop 0 end
    proof { assert(data@ =~= rc2_mash(self.key@, old(data)@, vx_i0 as nat)); }
//% end
//% fn src/rc/rc2.rs RC2::rmash
    ensures final(data)@ == rc2_rmash(self.key@, old(data)@, 4)
//% at loop 0
    rc2_rmash(self.key@, data@, vx_i0 as nat) == rc2_rmash(self.key@, old(data)@, 4),
//% at loop 0 start
    let ghost d0 = data@;
    proof { assert forall|x: u16| #[trigger] (x & 63) < 64 by { lemma_and63(x); } }
//% at loop 0 end
    proof { assert(data@ =~= rc2_rmash1(self.key@, d0, vx_i0 as int)); }
//% end
//% fn src/rc/rc2.rs RC2::encrypt_block
    ensures r@ == rc2_enc(self.key@, data@, 16)
//% at start
    hide(rc2_mix); hide(rc2_mash); hide(rc2_enc);
    proof { lemma_enc_step(self.key@, data@, 0); }
//% at loop 0
    data@ == rc2_enc(self.key@, vx_old_data@, vx_i0 as nat),
//% at loop 0 start
    let ghost d0 = data@;
    proof { lemma_enc_step(self.key@, vx_old_data@, vx_i0 as nat); lemma_mix_shift(self.key@, 4 * i as int, d0, 4); }
//% end
//% fn src/rc/rc2.rs RC2::decrypt_block
    ensures r@ == rc2_dec(self.key@, data@, 16)
//% at start
    hide(rc2_rmix); hide(rc2_rmash); hide(rc2_dec);
//% at loop 0
    rc2_dec(self.key@, data@, vx_i0 as nat) == rc2_dec(self.key@, vx_old_data@, 16),
//% at loop 0 start
    let ghost d0 = data@;
    proof { lemma_dec_step(self.key@, d0, (vx_i0 + 1) as nat); lemma_rmix_shift(self.key@, 4 * i as int, if i == 4 || i == 10 { rc2_rmash(self.key@, d0, 4) } else { d0 }, 4); }
//% at end
    proof { lemma_dec_step(self.key@, r@, 0); }
//% end
//% fn src/rc/rc2.rs "<RC2 as BlockCipher<8>>::encrypt"
    ensures r@ == rc2_block(*self, plaintext@), rc2_unblock(*self, r@) == plaintext@
//% at start
    hide(rc2_enc);
    proof { thm_rc2_inverse(*self, plaintext@); }
//% at loop 0
    forall|q: int| 0 <= q < vx_i0 ==> data@[q] == le16(seq![plaintext@[2 * q], plaintext@[2 * q + 1]]),
//% at let res
    proof { assert(data@ =~= rc2_load(plaintext@)); }
//% at loop 1
    forall|q: int| 0 <= q < 2 * vx_i1 ==> ciphertext@[q] == u16_le(res@[q / 2])[q % 2],
//% at end
    proof { assert(r@ =~= rc2_store(res@)); }
//% end
//% fn src/rc/rc2.rs "<RC2 as BlockCipher<8>>::decrypt"
    ensures r@ == rc2_unblock(*self, ciphertext@), rc2_block(*self, r@) == ciphertext@
//% at start
    hide(rc2_dec);
    proof { thm_rc2_inverse(*self, ciphertext@); }
//% at loop 0
    forall|q: int| 0 <= q < vx_i0 ==> data@[q] == le16(seq![ciphertext@[2 * q], ciphertext@[2 * q + 1]]),
//% at let res
    proof { assert(data@ =~= rc2_load(ciphertext@)); }
//% at loop 1
    forall|q: int| 0 <= q < 2 * vx_i1 ==> plaintext@[q] == u16_le(res@[q / 2])[q % 2],
//% at end
    proof { assert(r@ =~= rc2_store(res@)); }
//% end
