#!/usr/bin/env python3
# One-off: the jump constants of spec/algo/RandomStreams.tla advance the state by 2^128 and 2^192 steps.
M=(1<<64)-1
def step(s):
    a,b,c,d=s; t=(b<<17)&M; c^=a; d^=b; b^=c; a^=d; c^=t; d=((d<<45)|(d>>19))&M
    return a,b,c,d
def pack(s): return s[0]|s[1]<<64|s[2]<<128|s[3]<<192
def unpack(v): return tuple((v>>(64*i))&M for i in range(4))
cols=[pack(step(unpack(1<<i))) for i in range(256)]
def app(m,v):
    r=0
    while v: l=v&-v; r^=m[l.bit_length()-1]; v^=l
    return r
def power(k):
    m=cols
    for _ in range(k): m=[app(m,c) for c in m]
    return m
J=[0x180ec6d33cfd0aba,0xd5a61266f0c9392c,0xa9582618e03fc9aa,0x39abdc4529b1661c]
L=[0x76e15d3efefdcbbf,0xc5004e441c522fb3,0x77710069854ee241,0x39109bb02acbe635]
def jump(poly,v):
    acc=0
    for w in poly:
        for b in range(64):
            if w>>b&1: acc^=v
            v=app(cols,v)
    return acc
for name,p,k in (("jump",J,128),("long jump",L,192)):
    m=power(k); print(name, all(jump(p,1<<i)==m[i] for i in range(256)))
