#!/usr/bin/env python3
"""units/aes.vu: FIPS-197.  Tables are derived here from the definition of the field, independently of the crate."""
def xt(a): return ((a<<1)^(0x11b if a&0x80 else 0))&0xff
def gm(a,b):
    r=0
    while b:
        if b&1: r^=a
        a=xt(a); b>>=1
    return r
inv=[0]+[next(y for y in range(1,256) if gm(x,y)==1) for x in range(1,256)]
rl=lambda b,n:((b<<n)|(b>>(8-n)))&0xff
T=[b^rl(b,1)^rl(b,2)^rl(b,3)^rl(b,4)^0x63 for b in inv]
TI=[T.index(y) for y in range(256)]
G=[1]
for _ in range(255): G.append(gm(G[-1],3))
Q=[1]
for _ in range(255): Q.append(gm(Q[-1],inv[3]))
L=[0]*256
for k in range(255): L[G[k]]=k
assert T[:4]==[0x63,0x7c,0x77,0x7b] and G[255]==1 and len(set(G[:255]))==255
seq=lambda t:'seq!['+', '.join((f'{v}u8' if i==0 else str(v)) for i,v in enumerate(t))+']'
s=open('/verif/tools/aes.tpl').read()
for n,t in [('T',T),('TI',TI),('G',G),('Q',Q),('L',L)]: s=s.replace(f'@{n}@',seq(t))
open('/verif/units/aes.vu','w').write(s)
