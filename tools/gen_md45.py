#!/usr/bin/env python3
"""units/md4.vu and units/md5.vu.  The MD5 table is computed from the sine function, not copied from the code."""
from decimal import Decimal as D, getcontext
getcontext().prec = 60
def pi():
    # Machin
    def atan_inv(n):
        x=D(1)/n; t=x; s=x; k=1
        while abs(t)>D(10)**-58:
            t=-t/(n*n); k+=2; s+=t/k
        return s
    return 4*(4*atan_inv(5)-atan_inv(239))
def sin(x):
    p=pi(); x=x%(2*p); t=x; s=x; k=1
    while abs(t)>D(10)**-58:
        t=-t*x*x/((k+1)*(k+2)); k+=2; s+=t
    return s
T=[int(abs(sin(D(i)))*2**32) for i in range(1,65)]
def ifchain(v):
    return ' else '.join(f'if j == {i} {{ {x} }}' for i,x in enumerate(v[:-1]))+f' else {{ {v[-1]} }}'
R3=[int(f'{j:04b}'[::-1],2) for j in range(16)]
md4=dict(file='src/md/md4.rs',n='md4',ref='RFC 1320',rounds=48,defs=f'''
pub open spec fn md4_k(i: int) -> int {{ let j = i % 16; if i < 16 {{ j }} else if i < 32 {{ 4 * (j % 4) + j / 4 }} else {{ {ifchain(R3)} }} }}
pub open spec fn md4_s(i: int) -> u32 {{ let j = i % 4; if i < 16 {{ if j == 0 {{ 3 }} else if j == 1 {{ 7 }} else if j == 2 {{ 11 }} else {{ 19 }} }} else if i < 32 {{ if j == 0 {{ 3 }} else if j == 1 {{ 5 }} else if j == 2 {{ 9 }} else {{ 13 }} }} else {{ if j == 0 {{ 3 }} else if j == 1 {{ 9 }} else if j == 2 {{ 11 }} else {{ 15 }} }} }}
pub open spec fn md4_f(x: u32, y: u32, z: u32) -> u32 {{ (x & y) | (!x & z) }}
pub open spec fn md4_g(x: u32, y: u32, z: u32) -> u32 {{ (x & y) | (x & z) | (y & z) }}
pub open spec fn md4_h(x: u32, y: u32, z: u32) -> u32 {{ x ^ y ^ z }}
pub open spec fn md4_op(r: int, a: u32, b: u32, c: u32, d: u32, x: u32, s: u32) -> u32 {{
    if r == 0 {{ rotl32(add32(add32(a, md4_f(b, c, d)), x), s) }} else if r == 1 {{ rotl32(add32(add32(add32(a, md4_g(b, c, d)), x), 0x5a827999), s) }} else {{ rotl32(add32(add32(add32(a, md4_h(b, c, d)), x), 0x6ed9eba1), s) }}
}}
pub open spec fn md4_step(st: (u32, u32, u32, u32), x: Seq<u32>, i: int) -> (u32, u32, u32, u32) {{
    (st.3, md4_op(i / 16, st.0, st.1, st.2, st.3, x[md4_k(i)], md4_s(i)), st.1, st.2)
}}''')
md5=dict(file='src/md/md5.rs',n='md5',ref='RFC 1321',rounds=64,defs=f'''
pub open spec fn md5_t() -> Seq<u32> {{ seq![{', '.join(hex(t)+('u32' if i==0 else '') for i,t in enumerate(T))}] }}
pub open spec fn md5_k(i: int) -> int {{ let j = i % 16; if i < 16 {{ j }} else if i < 32 {{ (5 * j + 1) % 16 }} else if i < 48 {{ (3 * j + 5) % 16 }} else {{ (7 * j) % 16 }} }}
pub open spec fn md5_s(i: int) -> u32 {{ let j = i % 4; if i < 16 {{ if j == 0 {{ 7 }} else if j == 1 {{ 12 }} else if j == 2 {{ 17 }} else {{ 22 }} }} else if i < 32 {{ if j == 0 {{ 5 }} else if j == 1 {{ 9 }} else if j == 2 {{ 14 }} else {{ 20 }} }} else if i < 48 {{ if j == 0 {{ 4 }} else if j == 1 {{ 11 }} else if j == 2 {{ 16 }} else {{ 23 }} }} else {{ if j == 0 {{ 6 }} else if j == 1 {{ 10 }} else if j == 2 {{ 15 }} else {{ 21 }} }} }}
pub open spec fn md5_f(x: u32, y: u32, z: u32) -> u32 {{ (x & y) | (!x & z) }}
pub open spec fn md5_g(x: u32, y: u32, z: u32) -> u32 {{ (x & z) | (y & !z) }}
pub open spec fn md5_h(x: u32, y: u32, z: u32) -> u32 {{ x ^ y ^ z }}
pub open spec fn md5_i(x: u32, y: u32, z: u32) -> u32 {{ y ^ (x | !z) }}
pub open spec fn md5_op(r: int, a: u32, b: u32, c: u32, d: u32, x: u32, s: u32, t: u32) -> u32 {{
    let g = if r == 0 {{ md5_f(b, c, d) }} else if r == 1 {{ md5_g(b, c, d) }} else if r == 2 {{ md5_h(b, c, d) }} else {{ md5_i(b, c, d) }};
    add32(rotl32(add32(add32(add32(a, g), x), t), s), b)
}}
pub open spec fn md5_step(st: (u32, u32, u32, u32), x: Seq<u32>, i: int) -> (u32, u32, u32, u32) {{
    (st.3, md5_op(i / 16, st.0, st.1, st.2, st.3, x[md5_k(i)], md5_s(i), md5_t()[i]), st.1, st.2)
}}''')
COMMON='''//% use mdcore
//% struct FILE Hasher
//% struct FILE Block
pub assume_specification[u32::swap_bytes](x: u32) -> (r: u32)
    ensures r == ((x & 0xff) << 24) | ((x & 0xff00) << 8) | ((x >> 8) & 0xff00) | (x >> 24);
// ---------- REF
DEFS
pub open spec fn N_rounds(st: (u32, u32, u32, u32), x: Seq<u32>, n: nat) -> (u32, u32, u32, u32) decreases n {
    if n == 0 { st } else { N_step(N_rounds(st, x, (n - 1) as nat), x, n - 1) }
}
pub open spec fn N_words(b: Seq<u8>) -> Seq<u32> { Seq::new(16, |i: int| le32(b.subrange(4 * i, 4 * i + 4))) }
pub open spec fn N_compress(h: (u32, u32, u32, u32), b: Seq<u8>) -> (u32, u32, u32, u32) {
    let s = N_rounds(h, N_words(b), ROUNDS);
    (add32(h.0, s.0), add32(h.1, s.1), add32(h.2, s.2), add32(h.3, s.3))
}
pub open spec fn N_init() -> (u32, u32, u32, u32) { (le32(seq![0x01u8, 0x23, 0x45, 0x67]), le32(seq![0x89u8, 0xab, 0xcd, 0xef]), le32(seq![0xfeu8, 0xdc, 0xba, 0x98]), le32(seq![0x76u8, 0x54, 0x32, 0x10])) }
pub open spec fn N_fn() -> spec_fn((u32, u32, u32, u32), Seq<u8>) -> (u32, u32, u32, u32) { |h: (u32, u32, u32, u32), b: Seq<u8>| N_compress(h, b) }
pub open spec fn N_spec(m: Seq<u8>) -> Seq<u8> {
    let h = md_iter(N_fn(), N_init(), md_padded(m, 64, u64_le(((8 * m.len()) % 0x1_0000_0000_0000_0000) as u64)), 64);
    u32_le(h.0) + u32_le(h.1) + u32_le(h.2) + u32_le(h.3)
}
pub open spec fn N_st(h: Hasher) -> (u32, u32, u32, u32) { (h.a, h.b, h.c, h.d) }
// the hasher has consumed exactly the bytes m
pub open spec fn N_ok(h: Hasher, m: Seq<u8>) -> bool {
    &&& h.bytes_consumed == m.len()
    &&& h.unprocessed_bytes@ == m.subrange(64 * (m.len() / 64) as int, m.len() as int)
    &&& N_st(h) == md_fold(N_fn(), N_init(), m, 64, m.len() / 64)
}
pub proof fn lemma_N_fold_step(m: Seq<u8>, n: nat)
    ensures md_fold(N_fn(), N_init(), m, 64, n + 1) == N_compress(md_fold(N_fn(), N_init(), m, 64, n), blk(m, n as int, 64))
{ }
pub proof fn lemma_N_push(h: Hasher, h2: Hasher, m: Seq<u8>, byte: u8)
    requires N_ok(h, m), h2.bytes_consumed == h.bytes_consumed + 1,
        h.unprocessed_bytes@.len() < 63 ==> h2.unprocessed_bytes@ == h.unprocessed_bytes@.push(byte) && N_st(h2) == N_st(h),
        h.unprocessed_bytes@.len() == 63 ==> h2.unprocessed_bytes@.len() == 0 && N_st(h2) == N_compress(N_st(h), h.unprocessed_bytes@.push(byte)),
    ensures N_ok(h2, m.push(byte))
{
    hide(N_compress);
    let m2 = m.push(byte);
    let n = m.len() / 64;
    lemma_md_fold_ext(N_fn(), N_init(), m, m2, 64, n);
    if h.unprocessed_bytes@.len() < 63 {
        assert(m2.len() / 64 == n);
        assert(h2.unprocessed_bytes@ =~= m2.subrange(64 * (m2.len() / 64) as int, m2.len() as int));
    } else {
        assert(m2.len() / 64 == n + 1);
        assert(blk(m2, n as int, 64) =~= h.unprocessed_bytes@.push(byte));
        lemma_N_fold_step(m2, n);
        assert(h2.unprocessed_bytes@ =~= m2.subrange(64 * (m2.len() / 64) as int, m2.len() as int));
    }
}
pub proof fn lemma_N_pad(m: Seq<u8>)
    ensures
        m.len() % 64 < 56 ==> pad_zeros(m.len(), 64, 8) == 55 - m.len() % 64,
        m.len() % 64 >= 56 ==> pad_zeros(m.len(), 64, 8) == 64 + 55 - m.len() % 64,
        md_padded(m, 64, u64_le((8 * m.len()) as u64)).len() % 64 == 0
{ }

pub proof fn lemma_N_final(h: Hasher, h2: Hasher, m: Seq<u8>, z: nat)
    requires N_ok(h, m), m.len() < 0x2000_0000_0000_0000, z == pad_zeros(m.len(), 64, 8), N_ok(h2, m + seq![0x80u8] + zeros(z) + u64_le((8 * m.len()) as u64))
    ensures N_spec(m) == u32_le(h2.a) + u32_le(h2.b) + u32_le(h2.c) + u32_le(h2.d)
{
    lemma_N_pad(m);
    assert(m + seq![0x80u8] + zeros(z) + u64_le((8 * m.len()) as u64) =~= md_padded(m, 64, u64_le((8 * m.len()) as u64)));
}
pub proof fn lemma_N_len(h: Hasher, m: Seq<u8>) requires N_ok(h, m) ensures h.bytes_consumed == m.len() { }
//% fn FILE Hasher::new
    ensures N_ok(r, Seq::empty()), r.bytes_consumed == 0, r.unprocessed_bytes@.len() == 0
//% at end
    proof {
        assert(((0x01234567u32 & 0xff) << 24) | ((0x01234567u32 & 0xff00) << 8) | ((0x01234567u32 >> 8) & 0xff00) | (0x01234567u32 >> 24) == 0x67452301u32) by (bit_vector);
        assert(((0x89abcdefu32 & 0xff) << 24) | ((0x89abcdefu32 & 0xff00) << 8) | ((0x89abcdefu32 >> 8) & 0xff00) | (0x89abcdefu32 >> 24) == 0xefcdab89u32) by (bit_vector);
        assert(((0xfedcba98u32 & 0xff) << 24) | ((0xfedcba98u32 & 0xff00) << 8) | ((0xfedcba98u32 >> 8) & 0xff00) | (0xfedcba98u32 >> 24) == 0x98badcfeu32) by (bit_vector);
        assert(((0x76543210u32 & 0xff) << 24) | ((0x76543210u32 & 0xff00) << 8) | ((0x76543210u32 >> 8) & 0xff00) | (0x76543210u32 >> 24) == 0x10325476u32) by (bit_vector);
        assert((0x01u8 as u32) | (0x23u8 as u32) << 8 | (0x45u8 as u32) << 16 | (0x67u8 as u32) << 24 == 0x67452301u32) by (bit_vector);
        assert((0x89u8 as u32) | (0xabu8 as u32) << 8 | (0xcdu8 as u32) << 16 | (0xefu8 as u32) << 24 == 0xefcdab89u32) by (bit_vector);
        assert((0xfeu8 as u32) | (0xdcu8 as u32) << 8 | (0xbau8 as u32) << 16 | (0x98u8 as u32) << 24 == 0x98badcfeu32) by (bit_vector);
        assert((0x76u8 as u32) | (0x54u8 as u32) << 8 | (0x32u8 as u32) << 16 | (0x10u8 as u32) << 24 == 0x10325476u32) by (bit_vector);
        assert(r.unprocessed_bytes@ =~= Seq::<u8>::empty().subrange(0, 0));
    }
//% end

//% fn FILE Hasher::consume
    requires old(self).unprocessed_bytes@.len() < 64, old(self).bytes_consumed < usize::MAX
    ensures final(self).unprocessed_bytes@.len() < 64, final(self).bytes_consumed == old(self).bytes_consumed + 1,
        forall|m: Seq<u8>| #[trigger] N_ok(*old(self), m) ==> N_ok(*final(self), m.push(byte))
//% at start
    hide(N_compress);
    let ghost h0 = *self;
//% at end
    proof { assert forall|m: Seq<u8>| #[trigger] N_ok(h0, m) implies N_ok(*self, m.push(byte)) by { lemma_N_push(h0, *self, m, byte); } }
//% end

//% fn FILE Hasher::process_block
    requires old(self).unprocessed_bytes@.len() == 64
    ensures final(self).unprocessed_bytes@.len() == 0, final(self).bytes_consumed == old(self).bytes_consumed,
        N_st(*final(self)) == N_compress(N_st(*old(self)), old(self).unprocessed_bytes@)
//% at start
    hide(N_rounds);
//% end

//% fn FILE Hasher::finish
    requires self.unprocessed_bytes@.len() < 64, self.unprocessed_bytes@.len() == self.bytes_consumed % 64, self.bytes_consumed < 0x2000_0000_0000_0000
    ensures forall|m: Seq<u8>| #[trigger] N_ok(self, m) ==> r@ == N_spec(m)
//% at start
    hide(N_ok); hide(N_spec); hide(u64_le); hide(u32_le);
//% at loop 0
    num_pad_bytes >= 1, vx_e0 == num_pad_bytes - 1, num_pad_bytes <= 64,
    bits_consumed == self.bytes_consumed * 8,
    vx_self.unprocessed_bytes@.len() < 64, vx_self.bytes_consumed == self.bytes_consumed + 1 + vx_i0,
    forall|m: Seq<u8>| #[trigger] N_ok(self, m) ==> N_ok(vx_self, m + seq![0x80u8] + zeros(vx_i0 as nat)),
//% at loop 0 before
    proof { assert forall|m: Seq<u8>| #[trigger] N_ok(self, m) implies N_ok(vx_self, m + seq![0x80u8] + zeros(0)) by { assert(m.push(0x80u8) =~= m + seq![0x80u8] + zeros(0)); } }
//% at loop 0 start
    let ghost h1 = vx_self;
//% at loop 0 end
    proof { assert forall|m: Seq<u8>| #[trigger] N_ok(self, m) implies N_ok(vx_self, m + seq![0x80u8] + zeros(vx_i0 as nat)) by {
        let p = m + seq![0x80u8] + zeros((vx_i0 - 1) as nat);
        assert(N_ok(h1, p));
        assert(p.push(0u8) =~= m + seq![0x80u8] + zeros(vx_i0 as nat));
    } }
//% at loop 1 before
    let ghost lb = u64_le(bits_consumed);
    proof { assert forall|m: Seq<u8>| #[trigger] N_ok(self, m) implies N_ok(vx_self, m + seq![0x80u8] + zeros((num_pad_bytes - 1) as nat) + lb.subrange(0, 0)) by {
        assert(m + seq![0x80u8] + zeros((num_pad_bytes - 1) as nat) + lb.subrange(0, 0) =~= m + seq![0x80u8] + zeros((num_pad_bytes - 1) as nat));
    } }
//% at loop 1
    num_pad_bytes >= 1, num_pad_bytes <= 64, vx_e1 == 8, lb == u64_le(bits_consumed), lb.len() == 8,
    bits_consumed == self.bytes_consumed * 8,
    vx_self.unprocessed_bytes@.len() < 64, vx_self.bytes_consumed == self.bytes_consumed + num_pad_bytes + vx_i1,
    forall|m: Seq<u8>| #[trigger] N_ok(self, m) ==> N_ok(vx_self, m + seq![0x80u8] + zeros((num_pad_bytes - 1) as nat) + lb.subrange(0, vx_i1 as int)),
//% at loop 1 start
    let ghost h1 = vx_self;
//% at loop 1 end
    proof { assert forall|m: Seq<u8>| #[trigger] N_ok(self, m) implies N_ok(vx_self, m + seq![0x80u8] + zeros((num_pad_bytes - 1) as nat) + lb.subrange(0, vx_i1 as int)) by {
        let p = m + seq![0x80u8] + zeros((num_pad_bytes - 1) as nat) + lb.subrange(0, vx_i1 - 1);
        assert(N_ok(h1, p));
        assert(p.push(lb[vx_i1 - 1]) =~= m + seq![0x80u8] + zeros((num_pad_bytes - 1) as nat) + lb.subrange(0, vx_i1 as int));
    } }
//% at end
    assert(r@ =~= u32_le(vx_self.a) + u32_le(vx_self.b) + u32_le(vx_self.c) + u32_le(vx_self.d));
    proof { assert forall|m: Seq<u8>| #[trigger] N_ok(self, m) implies r@ == N_spec(m) by {
        lemma_N_len(self, m);
        lemma_N_pad(m);
        assert(lb.subrange(0, 8) =~= lb);
        lemma_N_final(self, vx_self, m, (num_pad_bytes - 1) as nat);
    } }
//% end

//% fn FILE hash
    requires data@.len() < 0x2000_0000_0000_0000
    ensures r@ == N_spec(data@)
//% at loop 0
    vx_e0 == data@.len(),
    hasher.unprocessed_bytes@.len() < 64, hasher.bytes_consumed == vx_i0,
    N_ok(hasher, data@.subrange(0, vx_i0 as int)),
//% at loop 0 before
    assert(data@.subrange(0, 0) =~= Seq::<u8>::empty());
//% at loop 0 end
    assert(data@.subrange(0, vx_i0 - 1).push(data@[vx_i0 - 1]) =~= data@.subrange(0, vx_i0 as int));
//% at loop 0 after
    assert(data@.subrange(0, data@.len() as int) =~= data@);
//% end

//% fn FILE Block::from_slice
    requires chunk@.len() == 64
    ensures r.x@ == N_words(chunk@)
//% at loop 0
    vx_e0 == 16,
    forall|q: int| 0 <= q < vx_i0 ==> x@[q] == N_words(chunk@)[q],
//% at end
    assert(r.x@ =~= N_words(chunk@));
//% end

'''
def emit(c,extra):
    t=COMMON.replace('DEFS',c['defs']).replace('REF',c['ref']).replace('ROUNDS',str(c['rounds'])).replace('FILE',c['file'])
    import re
    t=re.sub(r'\b(lemma_)?N_',lambda m:(m.group(1) or '')+c['n']+'_',t)
    open(f"/verif/units/{c['n']}.vu",'w').write(t+extra)
x4=''
for f,r in (('f',0),('g',1),('h',2)):
    x4+=f'''//% fn src/md/md4.rs {f}
    ensures r == md4_{f}(x, y, z)
//% at start
    proof {{ lemma_md4_fns(x, y, z); }}
//% end
//% fn src/md/md4.rs Block::{f}{f}
    requires i < 16
    ensures r == md4_op({r}, a, b, c, d, self.x@[i as int], s)
//% end
'''
x4='''pub proof fn lemma_md4_fns(x: u32, y: u32, z: u32)
    ensures (x & y) ^ (!x & z) == md4_f(x, y, z), z ^ (x & (y ^ z)) == md4_f(x, y, z),
        (x & y) ^ (x & z) ^ (y & z) == md4_g(x, y, z), (x & y) | (z & (x | y)) == md4_g(x, y, z), (x & (y | z)) | (y & z) == md4_g(x, y, z)
{
    assert((x & y) ^ (!x & z) == (x & y) | (!x & z)) by (bit_vector);
    assert(z ^ (x & (y ^ z)) == (x & y) | (!x & z)) by (bit_vector);
    assert((x & y) ^ (x & z) ^ (y & z) == (x & y) | (x & z) | (y & z)) by (bit_vector);
    assert((x & y) | (z & (x | y)) == (x & y) | (x & z) | (y & z)) by (bit_vector);
    assert((x & (y | z)) | (y & z) == (x & y) | (x & z) | (y & z)) by (bit_vector);
}
'''+x4+'''//% fn src/md/md4.rs Block::process
    ensures r == md4_rounds((a, b, c, d), self.x@, 48)
//% at start
    hide(md4_op);
    reveal_with_fuel(md4_rounds, 49);
//% end
'''
emit(md4,x4)
x5='''pub proof fn lemma_md5_fns(x: u32, y: u32, z: u32)
    ensures (x & y) ^ (!x & z) == md5_f(x, y, z), z ^ (x & (y ^ z)) == md5_f(x, y, z),
        (x & z) ^ (y & !z) == md5_g(x, y, z), y ^ (z & (x ^ y)) == md5_g(x, y, z)
{
    assert((x & y) ^ (!x & z) == (x & y) | (!x & z)) by (bit_vector);
    assert(z ^ (x & (y ^ z)) == (x & y) | (!x & z)) by (bit_vector);
    assert((x & z) ^ (y & !z) == (x & z) | (y & !z)) by (bit_vector);
    assert(y ^ (z & (x ^ y)) == (x & z) | (y & !z)) by (bit_vector);
}
//% const src/md/md5.rs T
    ensures r@ == md5_t()
//% at end
    assert(r@ =~= md5_t());
//% end
'''
for f,g,r in (('f','f',0),('g','g',1),('h','h',2),('_i','i',3)):
    x5+=f'''//% fn src/md/md5.rs {f}
    ensures r == md5_{g}(x, y, z)
//% at start
    proof {{ lemma_md5_fns(x, y, z); }}
//% end
//% fn src/md/md5.rs Block::{g}{g}
    requires vx_p5.0 < 16, 1 <= vx_p5.2 <= 64
    ensures r == md5_op({r}, a, b, c, d, self.x@[vx_p5.0 as int], vx_p5.1, md5_t()[vx_p5.2 - 1])
//% at start
    hide(md5_t);
//% end
'''

x5+='''pub open spec fn md5_row(row: Seq<(usize, u32, usize)>, n: int) -> bool {
    forall|j: int| 0 <= j < 4 ==> (#[trigger] row[j]).0 == md5_k(n + j) && row[j].1 == md5_s(n + j) && row[j].2 == n + j + 1
}
//% fn src/md/md5.rs Block::process
    ensures r == md5_rounds((a, b, c, d), self.x@, 64)
//% at start
    hide(md5_op); hide(md5_t);
    reveal_with_fuel(md5_rounds, 5);
'''
for r in range(4):
    x5+=f'''//% at loop {r}
    vx_e{r} == 4,
    (a, b, c, d) == md5_rounds((vx_old_a, vx_old_b, vx_old_c, vx_old_d), self.x@, ({16*r} + 4 * vx_i{r}) as nat),
//% at loop {r} start
    proof {{ assert(vx_i{r} == 0 || vx_i{r} == 1 || vx_i{r} == 2 || vx_i{r} == 3); assert(md5_row(rows@, {16*r} + 4 * vx_i{r})); }}
'''
x5+='//% end\n'
emit(md5,x5)
