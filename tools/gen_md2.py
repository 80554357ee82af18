#!/usr/bin/env python3
"""units/md2.vu.  The S table is derived from the digits of pi (the shuffle RFC 1319 refers to), not copied from the code."""
def pi_digits(n):
    one=10**(n+20)
    def at(x):
        t=one//x; s=t; k=1; sg=-1
        while t:
            t//=x*x; k+=2; s+=sg*(t//k); sg=-sg
        return s
    return [int(c) for c in str(4*(4*at(5)-at(239)))[:n]]
dig=iter(pi_digits(2000))
def rnd(n):
    while True:
        x=next(dig); y=10
        if n>10: x=x*10+next(dig); y=100
        if n>100: x=x*10+next(dig); y=1000
        if x<n*(y//n): return x%n
S=list(range(256))
for i in range(2,257):
    j=rnd(i); S[j],S[i-1]=S[i-1],S[j]
assert sorted(S)==list(range(256)) and S[:4]==[41,46,67,201]
open('/verif/units/md2.vu','w').write('''//% use mdcore
//% struct src/md/md2.rs Hasher
// ---------- RFC 1319 (with erratum: the checksum XORs into C[j])
pub open spec fn md2_s() -> Seq<u8> { seq!['''+', '.join(f'{v}'+('u8' if i==0 else '') for i,v in enumerate(S))+'''] }
pub open spec fn md2_sub(x: u8) -> u8 { md2_s()[x as int] }
// the checksum after the first n bytes of a block
pub open spec fn md2_ck(c: Seq<u8>, l: u8, b: Seq<u8>, n: nat) -> (Seq<u8>, u8) decreases n {
    if n == 0 { (c, l) } else { let (c1, l1) = md2_ck(c, l, b, (n - 1) as nat); let v = c1[n - 1] ^ md2_sub(b[n - 1] ^ l1); (c1.update(n - 1, v), v) }
}
// one pass over the first n of the 48 bytes
pub open spec fn md2_pass(x: Seq<u8>, t: u8, n: nat) -> (Seq<u8>, u8) decreases n {
    if n == 0 { (x, t) } else { let (x1, t1) = md2_pass(x, t, (n - 1) as nat); let v = x1[n - 1] ^ md2_sub(t1); (x1.update(n - 1, v), v) }
}
pub open spec fn md2_rounds(x: Seq<u8>, n: nat) -> (Seq<u8>, u8) decreases n {
    if n == 0 { (x, 0) } else { let (x1, t1) = md2_rounds(x, (n - 1) as nat); let (x2, t2) = md2_pass(x1, t1, 48); (x2, add8(t2, (n - 1) as u8)) }
}
pub open spec fn md2_load(x: Seq<u8>, b: Seq<u8>) -> Seq<u8> { Seq::new(48, |i: int| if i < 16 { x[i] } else if i < 32 { b[i - 16] } else { b[i - 32] ^ x[i - 32] }) }
pub open spec fn md2_xf() -> spec_fn(Seq<u8>, Seq<u8>) -> Seq<u8> { |x: Seq<u8>, b: Seq<u8>| md2_rounds(md2_load(x, b), 18).0 }
pub open spec fn md2_cf() -> spec_fn((Seq<u8>, u8), Seq<u8>) -> (Seq<u8>, u8) { |c: (Seq<u8>, u8), b: Seq<u8>| md2_ck(c.0, c.1, b, 16) }
pub open spec fn md2_c0() -> (Seq<u8>, u8) { (zeros(16), 0) }
pub open spec fn md2_padded(m: Seq<u8>) -> Seq<u8> { let p = (16 - m.len() % 16) as nat; m + Seq::new(p, |i: int| p as u8) }
pub open spec fn md2_spec(m: Seq<u8>) -> Seq<u8> {
    let p = md2_padded(m);
    let c = md_iter(md2_cf(), md2_c0(), p, 16).0;
    md_iter(md2_xf(), zeros(48), p + c, 16).subrange(0, 16)
}
pub open spec fn md2_ok(h: Hasher, m: Seq<u8>) -> bool {
    &&& h.chunk@ == m.subrange(16 * (m.len() / 16) as int, m.len() as int)
    &&& (h.checksum@, h.l) == md_fold(md2_cf(), md2_c0(), m, 16, m.len() / 16)
    &&& h.x@ == md_fold(md2_xf(), zeros(48), m, 16, m.len() / 16)
}
pub proof fn lemma_md2_xstep(m: Seq<u8>, n: nat)
    ensures md_fold(md2_xf(), zeros(48), m, 16, n + 1) == md2_rounds(md2_load(md_fold(md2_xf(), zeros(48), m, 16, n), blk(m, n as int, 16)), 18).0
{ hide(md2_rounds); }
pub proof fn lemma_md2_cstep(m: Seq<u8>, n: nat)
    ensures ({ let c = md_fold(md2_cf(), md2_c0(), m, 16, n); md_fold(md2_cf(), md2_c0(), m, 16, n + 1) == md2_ck(c.0, c.1, blk(m, n as int, 16), 16) })
{ hide(md2_ck); }
// the block k = m.len()/16 of m2 is full and is what was processed
pub proof fn lemma_md2_block(h: Hasher, h2: Hasher, m: Seq<u8>, m2: Seq<u8>, k: nat, b: Seq<u8>)
    requires 16 * k <= m.len(), m2.len() == 16 * k + 16, forall|i: int| 0 <= i < 16 * k ==> m[i] == m2[i], b == blk(m2, k as int, 16), h2.chunk@.len() == 0,
        (h.checksum@, h.l) == md_fold(md2_cf(), md2_c0(), m, 16, k), h.x@ == md_fold(md2_xf(), zeros(48), m, 16, k),
        (h2.checksum@, h2.l) == md2_ck(h.checksum@, h.l, b, 16), h2.x@ == md2_rounds(md2_load(h.x@, b), 18).0
    ensures md2_ok(h2, m2)
{
    hide(md2_rounds); hide(md2_ck); hide(md2_load);
    lemma_md_fold_ext(md2_xf(), zeros(48), m, m2, 16, k);
    lemma_md_fold_ext(md2_cf(), md2_c0(), m, m2, 16, k);
    lemma_md2_xstep(m2, k);
    lemma_md2_cstep(m2, k);
    assert(m2.len() / 16 == k + 1);
    assert(h2.chunk@ =~= m2.subrange(16 * (m2.len() / 16) as int, m2.len() as int));
}
pub proof fn lemma_md2_push(h: Hasher, h2: Hasher, m: Seq<u8>, byte: u8)
    requires md2_ok(h, m),
        h.chunk@.len() < 15 ==> h2.chunk@ == h.chunk@.push(byte) && h2.checksum == h.checksum && h2.l == h.l && h2.x == h.x,
        h.chunk@.len() == 15 ==> h2.chunk@.len() == 0 && (h2.checksum@, h2.l) == md2_ck(h.checksum@, h.l, h.chunk@.push(byte), 16) && h2.x@ == md2_rounds(md2_load(h.x@, h.chunk@.push(byte)), 18).0
    ensures md2_ok(h2, m.push(byte))
{
    hide(md2_rounds); hide(md2_ck); hide(md2_load);
    let m2 = m.push(byte);
    let n = m.len() / 16;
    if h.chunk@.len() < 15 {
        assert(m2.len() / 16 == n);
        lemma_md_fold_ext(md2_xf(), zeros(48), m, m2, 16, n);
        lemma_md_fold_ext(md2_cf(), md2_c0(), m, m2, 16, n);
        assert(h2.chunk@ =~= m2.subrange(16 * (m2.len() / 16) as int, m2.len() as int));
    } else {
        assert(blk(m2, n as int, 16) =~= h.chunk@.push(byte));
        lemma_md2_block(h, h2, m, m2, n, h.chunk@.push(byte));
    }
}
pub proof fn lemma_md2_ck_len(c: Seq<u8>, l: u8, b: Seq<u8>, n: nat) ensures md2_ck(c, l, b, n).0.len() == c.len() decreases n { if n > 0 { lemma_md2_ck_len(c, l, b, (n - 1) as nat); } }
// the padding block b, then the checksum block
pub proof fn lemma_md2_final(h: Hasher, m: Seq<u8>, b: Seq<u8>)
    requires md2_ok(h, m), b == h.chunk@ + Seq::new((16 - h.chunk@.len()) as nat, |i: int| (16 - h.chunk@.len()) as u8)
    ensures ({
        let c1 = md2_ck(h.checksum@, h.l, b, 16).0;
        let x1 = md2_rounds(md2_load(h.x@, b), 18).0;
        md2_spec(m) == md2_rounds(md2_load(x1, c1), 18).0.subrange(0, 16)
    })
{
    hide(md2_rounds); hide(md2_ck); hide(md2_load);
    let n = m.len() / 16;
    let p = md2_padded(m);
    let c1 = md2_ck(h.checksum@, h.l, b, 16).0;
    lemma_md2_ck_len(h.checksum@, h.l, b, 16);
    assert(blk(p, n as int, 16) =~= b);
    assert(p.len() / 16 == n + 1);
    lemma_md_fold_ext(md2_xf(), zeros(48), m, p, 16, n);
    lemma_md_fold_ext(md2_cf(), md2_c0(), m, p, 16, n);
    lemma_md2_xstep(p, n);
    lemma_md2_cstep(p, n);
    let q = p + c1;
    assert(blk(q, (n + 1) as int, 16) =~= c1);
    assert(q.len() / 16 == n + 2);
    lemma_md_fold_ext(md2_xf(), zeros(48), p, q, 16, n + 1);
    lemma_md2_xstep(q, n + 1);
}
pub proof fn lemma_md2_len(h: Hasher, m: Seq<u8>) requires md2_ok(h, m) ensures h.chunk@.len() == m.len() % 16, h.chunk@.len() < 16 { }

//% const src/md/md2.rs S
    ensures r@ == md2_s()
//% at end
    assert(r@ =~= md2_s());
//% end

//% fn src/md/md2.rs Hasher::new
    ensures r.chunk@.len() == 0, md2_ok(r, Seq::empty())
//% at end
    assert(r.chunk@ =~= Seq::<u8>::empty().subrange(0, 0));
    assert(r.x@ =~= zeros(48));
    assert(r.checksum@ =~= zeros(16));
//% end

//% fn src/md/md2.rs Hasher::consume
    requires old(self).chunk@.len() < 16
    ensures final(self).chunk@.len() < 16,
        forall|m: Seq<u8>| #[trigger] md2_ok(*old(self), m) ==> md2_ok(*final(self), m.push(byte))
//% at start
    hide(md2_rounds); hide(md2_ck); hide(md2_load); hide(md2_ok);
    let ghost h0 = *self;
//% at end
    proof { assert forall|m: Seq<u8>| #[trigger] md2_ok(h0, m) implies md2_ok(*self, m.push(byte)) by { lemma_md2_len(h0, m); lemma_md2_push(h0, *self, m, byte); } }
//% end

//% fn src/md/md2.rs Hasher::process_chunk
    requires old(self).chunk@.len() == 16
    ensures final(self).chunk@ == Seq::<u8>::empty(),
        (final(self).checksum@, final(self).l) == md2_ck(old(self).checksum@, old(self).l, old(self).chunk@, 16),
        final(self).x@ == md2_rounds(md2_load(old(self).x@, old(self).chunk@), 18).0
//% at start
    hide(md2_s);
    let ghost h0 = *self;
    let ghost b0 = self.chunk@;
//% at loop 0
    vx_e0 == 16, self.chunk@.len() == 0, chunk@ == b0, self.x == h0.x,
    (self.checksum@, self.l) == md2_ck(h0.checksum@, h0.l, b0, vx_i0 as nat),
//% at loop 0 before
    assert(chunk@ =~= b0);
//% at loop 0 start
    let ghost v0 = *self;
//% at loop 0 end
    assert(self.checksum@ =~= md2_ck(h0.checksum@, h0.l, b0, vx_i0 as nat).0);
//% at loop 1
    vx_e1 == 16, self.chunk@.len() == 0, chunk@ == b0,
    (self.checksum@, self.l) == md2_ck(h0.checksum@, h0.l, b0, 16),
    forall|q: int| 0 <= q < 16 ==> self.x@[q] == h0.x@[q],
    forall|q: int| 16 <= q < 16 + vx_i1 ==> self.x@[q] == b0[q - 16],
    forall|q: int| 32 <= q < 32 + vx_i1 ==> self.x@[q] == b0[q - 32] ^ h0.x@[q - 32],
//% at loop 2 before
    let ghost x1 = md2_load(h0.x@, b0);
    assert(self.x@ =~= x1);
    assert(self.x@ == md2_rounds(x1, 0).0);
//% at loop 2
    vx_e2 == 18, self.chunk@.len() == 0,
    (self.checksum@, self.l) == md2_ck(h0.checksum@, h0.l, b0, 16),
    (self.x@, t) == md2_rounds(x1, vx_i2 as nat),
//% at loop 2 start
    let ghost x2 = self.x@;
    let ghost t2 = t;
//% at loop 3
    vx_e3 == 48, self.chunk@.len() == 0, 1 <= vx_i2 <= 18, vx_e2 == 18, j == vx_i2 - 1,
    (x2, t2) == md2_rounds(x1, (vx_i2 - 1) as nat),
    (self.checksum@, self.l) == md2_ck(h0.checksum@, h0.l, b0, 16),
    (self.x@, t) == md2_pass(x2, t2, vx_i3 as nat),
//% at loop 3 end
    assert(self.x@ =~= md2_pass(x2, t2, vx_i3 as nat).0);
//% at end
    assert(self.chunk@ =~= Seq::<u8>::empty());
//% end

//% fn src/md/md2.rs Hasher::finish
    requires self.chunk@.len() < 16
    ensures forall|m: Seq<u8>| #[trigger] md2_ok(self, m) ==> r@ == md2_spec(m)
//% at start
    hide(md2_rounds); hide(md2_ck); hide(md2_load); hide(md2_ok); hide(md2_spec);
//% at loop 0
    vx_e0 == 16 - self.chunk@.len(), pad == 16 - self.chunk@.len(), self.chunk@.len() < 16,
    vx_self.checksum == self.checksum, vx_self.l == self.l, vx_self.x == self.x,
    vx_self.chunk@ == self.chunk@ + Seq::new(vx_i0 as nat, |i: int| pad),
//% at loop 0 before
    assert(vx_self.chunk@ =~= self.chunk@ + Seq::new(0, |i: int| pad));
//% at loop 0 end
    assert(vx_self.chunk@ =~= self.chunk@ + Seq::new(vx_i0 as nat, |i: int| pad));
//% at loop 0 after
    let ghost b = vx_self.chunk@;
    assert(b =~= self.chunk@ + Seq::new((16 - self.chunk@.len()) as nat, |i: int| (16 - self.chunk@.len()) as u8));
//% at end
    assert(r@ =~= vx_self.x@.subrange(0, 16));
    proof { let c1 = md2_ck(self.checksum@, self.l, b, 16).0; assert(Seq::<u8>::empty() + c1 =~= c1); }
    proof { assert forall|m: Seq<u8>| #[trigger] md2_ok(self, m) implies r@ == md2_spec(m) by { lemma_md2_len(self, m); lemma_md2_final(self, m, b); } }
//% end

//% fn src/md/md2.rs hash
    ensures r@ == md2_spec(data@)
//% at start
    hide(md2_ok); hide(md2_spec);
//% at loop 0
    vx_e0 == data@.len(), hasher.chunk@.len() < 16,
    md2_ok(hasher, data@.subrange(0, vx_i0 as int)),
//% at loop 0 before
    assert(data@.subrange(0, 0) =~= Seq::<u8>::empty());
//% at loop 0 end
    assert(data@.subrange(0, vx_i0 - 1).push(data@[vx_i0 - 1]) =~= data@.subrange(0, vx_i0 as int));
//% at loop 0 after
    assert(data@.subrange(0, data@.len() as int) =~= data@);
//% end
''')
