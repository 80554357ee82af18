#!/usr/bin/env python3
"""Writes units/gcd.vu: contracts and proof of the gcd crate's binary algorithm, for the integer types the crate may be used with."""
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
o = '''//% use prelude
//% use bigmath
//% use rsamath
// The gcd crate (version of Cargo.lock, source from cargo's registry): the binary algorithm returns the greatest common divisor.
pub open spec fn cd(d: int, a: int, b: int) -> bool { dv(d, a) && dv(d, b) }
pub open spec fn same_cd(a: int, b: int, c: int, e: int) -> bool { forall|d: int| #![trigger cd(d, a, b)] #![trigger cd(d, c, e)] cd(d, a, b) <==> cd(d, c, e) }
pub proof fn lemma_odd_div(d: int, a: int) requires dv(d, a), a % 2 == 1 ensures d % 2 == 1
{
    lemma_dv_intro(d, a); let k = a / d;
    if d % 2 == 0 { let h = d / 2; assert(a == 2 * (h * k)) by (nonlinear_arith) requires a == d * k, d == 2 * h; }
}
pub proof fn lemma_gcd_half(d: int, w: int) requires dv(d, 2 * w), d % 2 == 1 ensures dv(d, w)
{
    lemma_dv_intro(d, 2 * w); let k = (2 * w) / d;
    if k % 2 == 1 { let (i, j) = (d / 2, k / 2); assert(2 * w == 2 * (2 * (i * j) + i + j) + 1) by (nonlinear_arith) requires 2 * w == d * k, d == 2 * i + 1, k == 2 * j + 1; }
    let j = k / 2;
    assert(w == d * j) by (nonlinear_arith) requires 2 * w == d * k, k == 2 * j;
    lemma_dv_mul(d, j);
}
pub proof fn lemma_halves(d: int, w: int, n: nat) requires dv(d, w * vstd::arithmetic::power2::pow2(n) as int), d % 2 == 1 ensures dv(d, w) decreases n
{
    if n == 0 { vstd::arithmetic::power2::lemma2_to64(); assert(w * 1 == w); }
    else {
        vstd::arithmetic::power2::lemma_pow2_unfold(n);
        let p = vstd::arithmetic::power2::pow2((n - 1) as nat) as int;
        assert(w * (2 * p) == 2 * (w * p)) by (nonlinear_arith);
        lemma_gcd_half(d, w * p); lemma_halves(d, w, (n - 1) as nat);
    }
}
// removing factors of two of one number does not change the common divisors with an odd one
pub proof fn lemma_cd_halves(a: int, w: int, n: nat, b: int) requires a == w * vstd::arithmetic::power2::pow2(n) as int, b % 2 == 1 ensures same_cd(a, b, w, b), same_cd(b, a, b, w)
{
    let p = vstd::arithmetic::power2::pow2(n) as int;
    assert forall|d: int| dv(d, b) implies (dv(d, a) <==> dv(d, w)) by {
        lemma_odd_div(d, b);
        if dv(d, a) { lemma_halves(d, w, n); }
        if dv(d, w) { lemma_dv_lin(d, w, w, p); lemma_mul_is_commutative(p, w); }
    }
}
pub proof fn lemma_cd_sub(a: int, b: int) ensures same_cd(a, b, a, b - a), same_cd(a, b, b, a)
{
    assert forall|d: int| dv(d, a) implies (dv(d, b) <==> dv(d, b - a)) by {
        if dv(d, b) { lemma_dv_lin(d, b, a, 1); }
        if dv(d, b - a) { lemma_dv_lin(d, b - a, a, 1); }
    }
}
pub proof fn lemma_cd_mod(a: int, b: int) requires b > 0 ensures same_cd(a, b, b, a % b)
{
    lemma_fundamental_div_mod(a, b);
    let q = a / b;
    lemma_mul_is_commutative(q, b);
    assert forall|d: int| dv(d, b) implies (dv(d, a) <==> dv(d, a % b)) by {
        if dv(d, a) { lemma_dv_lin(d, a, b, q); }
        if dv(d, a % b) { lemma_dv_lin(d, a % b, b, q); }
    }
}
pub proof fn lemma_gcd_zero(a: int, b: int, u: int) requires u > 0, same_cd(a, b, u, 0) ensures is_gcd(u, a, b)
{
    lemma_mod_self_0(u); lemma_small_mod(0, u as nat);
    assert(cd(u, u, 0)); assert(cd(u, a, b));
    assert forall|d: int| #[trigger] dv(d, a) && dv(d, b) implies dv(d, u) by { assert(cd(d, a, b)); assert(cd(d, u, 0)); }
}
pub proof fn lemma_gcd_scale(g: int, a: int, b: int, p: int) requires is_gcd(g, a, b), a > 0, b > 0, p > 0 ensures is_gcd(g * p, a * p, b * p), g * p <= a * p
{
    let (h, x, y) = lemma_bezout(a, b);
    lemma_dv_intro(g, a); lemma_dv_intro(g, b);
    let (k, l) = (a / g, b / g);
    assert(h == g * (k * x + l * y)) by (nonlinear_arith) requires h == a * x + b * y, a == g * k, b == g * l;
    lemma_dv_mul(g, k * x + l * y);
    lemma_dv_le(g, h); lemma_dv_le(h, g);
    assert(g * p > 0 && a * p == (g * p) * k && b * p == (g * p) * l && g * p <= a * p) by (nonlinear_arith) requires g > 0, p > 0, a == g * k, b == g * l, a > 0;
    lemma_dv_mul(g * p, k); lemma_dv_mul(g * p, l);
    assert forall|d: int| #[trigger] dv(d, a * p) && dv(d, b * p) implies dv(d, g * p) by {
        lemma_dv_lin(d, a * p, a * p, x); lemma_dv_lin(d, x * (a * p), b * p, y);
        assert(g * p == x * (a * p) + y * (b * p)) by (nonlinear_arith) requires g == a * x + b * y;
    }
}
//% trait gcd:src/lib.rs Gcd
    spec fn vx_gcd_spec(self, other: Self, r: Self) -> bool;
//% method gcd
    ensures self.vx_gcd_spec(other, r)
//% method gcd_binary
    ensures self.vx_gcd_spec(other, r)
//% method gcd_euclid
    ensures self.vx_gcd_spec(other, r)
//% end
'''
T = '''
pub proof fn lemma_tz_TY(x: TY, r: u32) requires r < BITS, ((x >> r) << r) == x ensures x as int == (x >> r) as int * vstd::arithmetic::power2::pow2(r as nat) as int decreases r
{
    vstd::arithmetic::power2::lemma2_to64();
    if r == 0 { assert(x >> 0u32 == x) by (bit_vector); }
    else {
        let s = (r - 1) as u32;
        assert(((x >> s) << s) == x && (x >> s) & 1TY == 0 && (x >> s) / 2 == x >> r && ((x >> s) & 1TY == (x >> s) % 2)) by (bit_vector) requires ((x >> r) << r) == x, r < BITS, r > 0, s == (r - 1) as u32;
        lemma_tz_TY(x, s);
        vstd::arithmetic::power2::lemma_pow2_unfold(r as nat);
        let (h, p) = ((x >> r) as int, vstd::arithmetic::power2::pow2(s as nat) as int);
        assert((x >> s) as int == 2 * h);
        assert((2 * h) * p == h * (2 * p)) by (nonlinear_arith);
    }
}
pub proof fn lemma_shl_TY(y: TY, r: u32) requires r < BITS, (y as int * vstd::arithmetic::power2::pow2(r as nat) as int) < MODULUS ensures (y << r) as int == y as int * vstd::arithmetic::power2::pow2(r as nat) as int decreases r
{
    vstd::arithmetic::power2::lemma2_to64();
    if r == 0 { assert(y << 0u32 == y) by (bit_vector); assert(y as int * 1 == y); }
    else {
        let s = (r - 1) as u32;
        vstd::arithmetic::power2::lemma_pow2_unfold(r as nat); vstd::arithmetic::power2::lemma_pow2_pos(s as nat);
        let (h, p) = (y as int, vstd::arithmetic::power2::pow2(s as nat) as int);
        assert(h * (2 * p) == 2 * (h * p)) by (nonlinear_arith);
        assert(h * p >= 0) by (nonlinear_arith) requires h >= 0, p >= 0;
        lemma_shl_TY(y, s);
        let z = y << s;
        assert(y << r == z << 1u32) by (bit_vector) requires z == y << s, s == (r - 1) as u32, 0 < r < BITS;
        assert(z << 1u32 == add(z, z)) by (bit_vector) requires z < HALF;
        assert(y << r == add(z, z) && add(z, z) == z + z);
        assert((y << r) as int == 2 * (h * p));
    }
}
// after x >>= x.trailing_zeros()
pub proof fn lemma_strip_TY(x: TY, r: u32) requires r < BITS, ((x >> r) & 1TY) == 1, ((x >> r) << r) == x
    ensures (x >> r) > 0, (x >> r) as int % 2 == 1, forall|b: int| #![trigger same_cd(x as int, b, (x >> r) as int, b)] b % 2 == 1 ==> same_cd(x as int, b, (x >> r) as int, b), forall|b: int| #![trigger same_cd(b, x as int, b, (x >> r) as int)] b % 2 == 1 ==> same_cd(b, x as int, b, (x >> r) as int), x % 2 == 1 ==> x >> r == x
{
    let y = x >> r;
    assert(y > 0 && y % 2 == 1) by (bit_vector) requires y & 1TY == 1;
    lemma_tz_TY(x, r);
    assert forall|b: int| b % 2 == 1 implies same_cd(x as int, b, (x >> r) as int, b) && same_cd(b, x as int, b, (x >> r) as int) by { lemma_cd_halves(x as int, y as int, r as nat, b); }
    if x % 2 == 1 { assert(x >> r == x) by (bit_vector) requires x % 2 == 1, ((x >> r) << r) == x, r < BITS; }
}
pub proof fn lemma_tz_or_TY(u: TY, v: TY, s: u32) requires s < BITS, (((u | v) >> s) & 1TY) == 1, (((u | v) >> s) << s) == (u | v)
    ensures ((u >> s) << s) == u, ((v >> s) << s) == v, (u >> s) % 2 == 1 || (v >> s) % 2 == 1, u > 0 ==> (u >> s) > 0, v > 0 ==> (v >> s) > 0
{
    assert(((u >> s) << s) == u && ((v >> s) << s) == v && ((u >> s) % 2 == 1 || (v >> s) % 2 == 1) && (u > 0 ==> (u >> s) > 0) && (v > 0 ==> (v >> s) > 0)) by (bit_vector) requires s < BITS, (((u | v) >> s) & 1TY) == 1, (((u | v) >> s) << s) == (u | v);
}
//% fn gcd:src/lib.rs binary_TY attr=loop_isolation(true)
    ensures u > 0 || v > 0 ==> is_gcd(r as int, u as int, v as int)
//% at start
    let ghost (u0, v0) = (u, v);
    proof {
        TZALL
        assert((u == 0 || v == 0) ==> (u | v == u || u | v == v)) by (bit_vector);
        if u > 0 { lemma_gcd_zero(u as int, 0, u as int); } if v > 0 { assert(same_cd(0, v as int, v as int, 0)); lemma_gcd_zero(0, v as int, v as int); }
    }
//% at let shift
    let ghost (u1, v1) = (u >> shift, v >> shift);
    proof {
        assert(u | v != 0) by (bit_vector) requires u != 0;
        lemma_tz_or_TY(u, v, shift); lemma_tz_TY(u, shift); lemma_tz_TY(v, shift);
        assert forall|x: TY, r: u32| #![trigger x >> r] r < BITS && ((x >> r) & 1TY) == 1 && ((x >> r) << r) == x implies (x >> r) > 0 && (x >> r) as int % 2 == 1
            && (v1 % 2 == 1 ==> same_cd(x as int, v1 as int, (x >> r) as int, v1 as int)) && (x % 2 == 1 ==> x >> r == x) by { lemma_strip_TY(x, r); assert(v1 as int % 2 == 1 ==> same_cd(x as int, v1 as int, (x >> r) as int, v1 as int)); }
    }
//% at loop 0
    shift < BITS,
    invariant_except_break u > 0, v > 0, u as int % 2 == 1, same_cd(u1 as int, v1 as int, u as int, v as int)
    ensures v == 0, u > 0, same_cd(u1 as int, v1 as int, u as int, 0)
    decreases u as int + v as int
//% at loop 0 start
    let ghost (vx_u, vx_v) = (u, v);
    proof {
        TZALL
        assert forall|r: u32| #![trigger vx_v >> r] r < BITS && ((vx_v >> r) & 1TY) == 1 && ((vx_v >> r) << r) == vx_v implies (vx_v >> r) > 0 && (vx_v >> r) as int % 2 == 1 && (vx_v >> r) <= vx_v
            && same_cd(u1 as int, v1 as int, vx_u as int, (vx_v >> r) - vx_u) && same_cd(u1 as int, v1 as int, (vx_v >> r) as int, vx_u - (vx_v >> r)) by {
            let y = vx_v >> r;
            lemma_strip_TY(vx_v, r); assert(vx_v >> r <= vx_v) by (bit_vector);
            assert(same_cd(vx_u as int, vx_v as int, vx_u as int, y as int));
            lemma_cd_sub(vx_u as int, y as int); lemma_cd_sub(y as int, vx_u as int);
        }
    }
//% at end
    proof {
        lemma_gcd_zero(u1 as int, v1 as int, u as int);
        vstd::arithmetic::power2::lemma_pow2_pos(shift as nat);
        lemma_gcd_scale(u as int, u1 as int, v1 as int, vstd::arithmetic::power2::pow2(shift as nat) as int);
        lemma_shl_TY(u, shift);
    }
//% end
//% fn gcd:src/lib.rs euclid_TY
    ensures a > 0 || b > 0 ==> is_gcd(r as int, a as int, b as int)
//% at start
    let ghost (a0, b0) = (a as int, b as int);
    proof { lemma_cd_sub(a0, b0); }
//% at loop 0
    a >= b, a0 > 0 || b0 > 0 ==> a > 0, same_cd(a0, b0, a as int, b as int)
    decreases b
//% at loop 0 start
    proof { lemma_cd_mod(a as int, b as int); }
//% at end
    proof { if a > 0 { lemma_gcd_zero(a0, b0, a as int); } }
//% end
//% fn gcd:src/lib.rs "<TY as Gcd>::gcd" native
//% at impl
    open spec fn vx_gcd_spec(self, other: TY, r: TY) -> bool { self > 0 || other > 0 ==> is_gcd(r as int, self as int, other as int) }
//% end
//% fn gcd:src/lib.rs "<TY as Gcd>::gcd_binary" native
//% end
//% fn gcd:src/lib.rs "<TY as Gcd>::gcd_euclid" native
//% end
'''
for t, w in (('u128', 128), ('u64', 64)):
    if w == 64: o += '''
pub proof fn lemma_tzall_u64() ensures forall|x: u64| #![trigger vstd::std_specs::bits::u64_trailing_zeros(x)] x != 0 ==> ({ let r = vstd::std_specs::bits::u64_trailing_zeros(x) as u32; r < 64 && ((x >> r) & 1u64) == 1 && ((x >> r) << r) == x })
{
    assert forall|x: u64| x != 0 implies ({ let r = #[trigger] vstd::std_specs::bits::u64_trailing_zeros(x) as u32; r < 64 && ((x >> r) & 1u64) == 1 && ((x >> r) << r) == x }) by {
        vstd::std_specs::bits::axiom_u64_trailing_zeros(x);
        let r = vstd::std_specs::bits::u64_trailing_zeros(x) as u32;
        let s = (64 - r) as u64; let q = r as u64;
        assert((x >> r) & 1u64 == 1) by (bit_vector) requires (x >> q) & 1 != 0, q == r as u64, r < 64;
        assert((x >> r) << r == x) by (bit_vector) requires x << s == 0 || r == 0, s == (64 - r) as u64, r < 64;
    }
}
'''
    o += T.replace('        TZALL\n', '        lemma_tzall_u64();\n' if w == 64 else '').replace('MODULUS', '0x1' + '0' * (w // 4)).replace('HALF', '0x8' + '0' * (w // 4 - 1)).replace('BITS', str(w)).replace('TY', t)
open(f'{V}/units/gcd.vu', 'w').write(o)
