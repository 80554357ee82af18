#!/usr/bin/env python3
"""Generates units/sha2.vu: FIPS 180-4 constants from first principles, and the two parallel word sizes."""
def primes(n):
    r=[];k=2
    while len(r)<n:
        if all(k%p for p in r): r.append(k)
        k+=1
    return r
def iroot(n,k):
    lo,hi=0,1
    while hi**k<=n: hi*=2
    while lo<hi-1:
        m=(lo+hi)//2
        if m**k<=n: lo=m
        else: hi=m
    return lo
def frac(p,k,bits):
    return iroot(p<<(k*bits),k) & ((1<<bits)-1)
P=primes(80)
def seq(v,t,w):
    return 'seq!['+', '.join(('0x%0*x'%(w,x))+(t if i==0 else '') for i,x in enumerate(v))+']'
K32=seq([frac(p,3,32) for p in P[:64]],'u32',8)
K64=seq([frac(p,3,64) for p in P],'u64',16)
H256=seq([frac(p,2,32) for p in P[:8]],'u32',8)
H512=seq([frac(p,2,64) for p in P[:8]],'u64',16)
H384=seq([frac(p,2,64) for p in P[8:16]],'u64',16)
H224=seq([frac(p,2,64)&0xffffffff for p in P[8:16]],'u32',8)
def body(n,ty,R,bw,rot):
    add='add'+ty[1:]; rr='rotr'+ty[1:]
    return f'''
pub open spec fn ch{ty[1:]}(x: {ty}, y: {ty}, z: {ty}) -> {ty} {{ (x & y) ^ (!x & z) }}
pub open spec fn maj{ty[1:]}(x: {ty}, y: {ty}, z: {ty}) -> {ty} {{ (x & y) ^ (x & z) ^ (y & z) }}
pub open spec fn {n}_S0(x: {ty}) -> {ty} {{ {rr}(x, {rot[0]}) ^ {rr}(x, {rot[1]}) ^ {rr}(x, {rot[2]}) }}
pub open spec fn {n}_S1(x: {ty}) -> {ty} {{ {rr}(x, {rot[3]}) ^ {rr}(x, {rot[4]}) ^ {rr}(x, {rot[5]}) }}
pub open spec fn {n}_s0(x: {ty}) -> {ty} {{ {rr}(x, {rot[6]}) ^ {rr}(x, {rot[7]}) ^ (x >> {rot[8]}) }}
pub open spec fn {n}_s1(x: {ty}) -> {ty} {{ {rr}(x, {rot[9]}) ^ {rr}(x, {rot[10]}) ^ (x >> {rot[11]}) }}
pub open spec fn {n}_w(b: Seq<u8>, t: int) -> {ty} decreases t {{
    if t < 16 {{ be{ty[1:]}(b.subrange({bw} * t, {bw} * t + {bw})) }}
    else {{ {add}({add}({add}({n}_w(b, t - 16), {n}_s0({n}_w(b, t - 15))), {n}_w(b, t - 7)), {n}_s1({n}_w(b, t - 2))) }}
}}
pub open spec fn {n}_round(s: Seq<{ty}>, k: {ty}, w: {ty}) -> Seq<{ty}> {{
    let t1 = {add}({add}({add}({add}(s[7], {n}_S1(s[4])), ch{ty[1:]}(s[4], s[5], s[6])), k), w);
    let t2 = {add}({n}_S0(s[0]), maj{ty[1:]}(s[0], s[1], s[2]));
    seq![{add}(t1, t2), s[0], s[1], s[2], {add}(s[3], t1), s[4], s[5], s[6]]
}}
pub open spec fn {n}_rounds(s: Seq<{ty}>, b: Seq<u8>, t: nat) -> Seq<{ty}> decreases t {{
    if t == 0 {{ s }} else {{ {n}_round({n}_rounds(s, b, (t - 1) as nat), {n}_k()[t - 1], {n}_w(b, t - 1)) }}
}}
pub open spec fn {n}_compress(h: Seq<{ty}>, b: Seq<u8>) -> Seq<{ty}> {{
    let s = {n}_rounds(h, b, {R});
    seq![{', '.join(f'{add}(h[{i}], s[{i}])' for i in range(8))}]
}}
pub open spec fn {n}_fn() -> spec_fn(Seq<{ty}>, Seq<u8>) -> Seq<{ty}> {{ |h: Seq<{ty}>, b: Seq<u8>| {n}_compress(h, b) }}
pub proof fn lemma_{n}_step(h: Seq<{ty}>, b: Seq<u8>, t: nat) ensures {n}_rounds(h, b, t + 1) == {n}_round({n}_rounds(h, b, t), {n}_k()[t as int], {n}_w(b, t as int)), {n}_rounds(h, b, 0) == h {{ }}
pub proof fn lemma_chmaj{ty[1:]}(x: {ty}, y: {ty}, z: {ty})
    ensures ch{ty[1:]}(x, y, z) == ((x & y) | (!x & z)), maj{ty[1:]}(x, y, z) == ((x & y) | (x & z) | (y & z)),
        ch{ty[1:]}(x, y, z) == z ^ (x & (y ^ z)), maj{ty[1:]}(x, y, z) == (x & y) | (z & (x | y)), maj{ty[1:]}(x, y, z) == (x & (y | z)) | (y & z)
{{
    assert((x & y) ^ (!x & z) == (x & y) | (!x & z)) by (bit_vector);
    assert((x & y) ^ (!x & z) == z ^ (x & (y ^ z))) by (bit_vector);
    assert((x & y) ^ (x & z) ^ (y & z) == (x & y) | (x & z) | (y & z)) by (bit_vector);
    assert((x & y) ^ (x & z) ^ (y & z) == (x & y) | (z & (x | y))) by (bit_vector);
    assert((x & y) ^ (x & z) ^ (y & z) == (x & (y | z)) | (y & z)) by (bit_vector);
}}
'''
def proc(fn,n,ty,R,bw):
    return f'''
//% fn src/sha/sha2.rs {fn}
    ensures final(hash)@ == {n}_compress(old(hash)@, chunk@)
//% at start
    hide({n}_k);
//% at loop 0
    vx_e0 == 16,
    forall|q: int| 0 <= q < vx_i0 ==> w@[q] == {n}_w(chunk@, q),
//% at loop 0 start
    proof {{
        let vx_q = vx_i0 as int;
        assert forall|s: Seq<u8>| s.len() == {bw} && {" && ".join(f"s[{j}] == chunk@[{bw} * vx_q + {j}]" for j in range(bw))} implies #[trigger] be{bw*8}(s) == {n}_w(chunk@, vx_q) by {{
            assert(s =~= chunk@.subrange({bw} * vx_q, {bw} * vx_q + {bw}));
        }}
    }}
//% at loop 1
    vx_e1 == {R},
    forall|q: int| 0 <= q < vx_i1 ==> w@[q] == {n}_w(chunk@, q),
//% at loop 2 before
    let ghost h0 = hash@;
    assert(seq![a, b, c, d, e, f, g, h] =~= h0);
    proof {{ lemma_{n}_step(h0, chunk@, 0); }}
//% at loop 2
    vx_e2 == {R}, hash@ == h0,
    seq![a, b, c, d, e, f, g, h] == {n}_rounds(h0, chunk@, vx_i2 as nat),
//% at loop 2 start
    let ghost s00 = seq![a, b, c, d, e, f, g, h];
    proof {{ lemma_chmaj{ty[1:]}(e, f, g); lemma_chmaj{ty[1:]}(a, b, c); lemma_{n}_step(h0, chunk@, vx_i2 as nat); assert(w@[vx_i2 as int] == {n}_w(chunk@, vx_i2 as int)); }}
//% at loop 2 end
    assert(seq![a, b, c, d, e, f, g, h] =~= {n}_round(s00, {n}_k()[vx_i2 - 1], w@[vx_i2 - 1]));
//% at loop 2 after
    proof {{ let s = seq![a, b, c, d, e, f, g, h]; assert(s[0] == a && s[1] == b && s[2] == c && s[3] == d && s[4] == e && s[5] == f && s[6] == g && s[7] == h); }}
//% at end
    assert(hash@ =~= {n}_compress(h0, chunk@));
//% end
'''
def top(fn,n,trunc,B,lenspec,lenexpr,outw):
    fin = f".subrange(0, {trunc})" if trunc else ""
    return f'''
pub open spec fn {fn}_spec(m: Seq<u8>) -> Seq<u8> {{ {outw}(md_iter({n}_fn(), {fn}_init(), md_padded(m, {B}, {lenspec}), {B}){fin}) }}
//% fn src/sha/sha2.rs {fn}
    requires message@.len() < 0x2000_0000_0000_0000
    ensures r.0@ == {fn}_spec(message@)
//% at start
    hide({n}_k); hide({fn}_init); hide({n}_compress);
//% at loop 0
    vx_e0 == message@.len() / {B},
    hash@ == md_fold({n}_fn(), {fn}_init(), message@, {B}, vx_i0 as nat),
//% at loop 0 start
    assert(chunk@ =~= blk(message@, vx_i0 as int, {B}));
//% at loop 0 after
    proof {{ lemma_bytes_len((message@.len() * 8) as nat, 16); lemma_md_iter({n}_fn(), {fn}_init(), message@, {lenexpr}, remaining_bytes@, (last_chunk, extra_chunk)); }}
//% end
'''
L64="u64_be(((8 * m.len()) % 0x1_0000_0000_0000_0000) as u64)"; L64e="u64_be((message@.len() * 8) as u64)"
L128="be_bytes(8 * m.len(), 16)"; L128e="be_bytes((message@.len() * 8) as nat, 16)"
out=f'''//% use mdcommon
//% use shapad stub
//% use hashval stub
// ---------- FIPS 180-4, SHA-2.  Tables generated from the fractional parts of the square and cube
// roots of the primes (tools/gen_sha2.py), not copied from the code under test.
pub open spec fn sha256_k() -> Seq<u32> {{ {K32} }}
pub open spec fn sha512_k() -> Seq<u64> {{ {K64} }}
pub open spec fn sha224_init() -> Seq<u32> {{ {H224} }}
pub open spec fn sha256_init() -> Seq<u32> {{ {H256} }}
pub open spec fn sha384_init() -> Seq<u64> {{ {H384} }}
pub open spec fn sha512_init() -> Seq<u64> {{ {H512} }}
'''
for nm,sp in [('ROUND_CONSTANTS','sha256_k'),('ROUND_CONSTANTS_BIG','sha512_k'),('INITIAL_HASH_224','sha224_init'),('INITIAL_HASH_256','sha256_init'),('INITIAL_HASH_384','sha384_init'),('INITIAL_HASH_512','sha512_init')]:
    out+=f'''//% const src/sha/sha2.rs {nm}
    ensures r@ == {sp}()
//% at end
    assert(r@ =~= {sp}());
//% end
'''
out+=body('sha256','u32',64,4,(2,13,22,6,11,25,7,18,3,17,19,10))
out+=body('sha512','u64',80,8,(28,34,39,14,18,41,1,8,7,19,61,6))
out+='''
//% fn src/sha/sha2.rs sha2_padding
    requires src@.len() < 64, message_length < 0x2000_0000_0000_0000
    ensures is_tail(src@, u64_be((message_length * 8) as u64), r)
//% end
//% fn src/sha/sha2.rs sha2_padding_big
    requires src@.len() < 128, message_length < 0x2000_0000_0000_0000
    ensures is_tail(src@, be_bytes((message_length * 8) as nat, 16), r)
//% at start
    let ghost lenb = be_bytes((message_length * 8) as nat, 16);
    assert(message_length < 0x2000_0000_0000_0000 ==> message_length << 3i32 == mul(message_length, 8)) by (bit_vector);
    proof { lemma_bytes_len((message_length * 8) as nat, 16); }
//% at end
    proof {
        if src@.len() < 112 {
            assert(r.0@ =~= src@ + seq![0x80u8] + zeros((128 - 16 - src@.len() - 1) as nat) + lenb);
        } else {
            assert(r.0@ =~= src@ + seq![0x80u8] + zeros((128 - 1 - src@.len()) as nat));
            assert(r.1->Some_0@ =~= zeros(112) + lenb);
        }
    }
//% end
'''
out+=proc('process_chunk','sha256','u32',64,4)
out+=proc('process_big_chunk','sha512','u64',80,8)
out+=top('sha224','sha256',7,64,L64,L64e,'words_be32')
out+=top('sha256','sha256',0,64,L64,L64e,'words_be32')
out+=top('sha384','sha512',6,128,L128,L128e,'words_be64')
out+=top('sha512','sha512',0,128,L128,L128e,'words_be64')
import os
open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','units','sha2.vu'),'w').write(out)
