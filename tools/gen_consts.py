#!/usr/bin/env python3
"""Regenerates irv/src/consts.rs: the constants of the reference specifications, derived from their published
definitions (prime roots, sine, pi, the Tiger S-box generator, the Whirlpool mini-boxes, ...), not from /repo."""
import math,sys
from fractions import Fraction
def isqrt(n): return math.isqrt(n)
def icbrt(n):
    x=1<<((n.bit_length()+2)//3+1)
    while True:
        y=(2*x+n//(x*x))//3
        if y>=x: return x
        x=y
def primes(k):
    r=[];n=2
    while len(r)<k:
        if all(n%p for p in r): r.append(n)
        n+=1
    return r
P=primes(80)
def fsqrt(p,b): return isqrt(p<<(2*b))&((1<<b)-1)
def fcbrt(p,b): return icbrt(p<<(3*b))&((1<<b)-1)
out=[]
def arr(n,t,v): out.append("pub const %s: [%s; %d] = [%s];"%(n,t,len(v),",".join("0x%x"%x for x in v)))
K256=[fcbrt(p,32) for p in P[:64]]; K512=[fcbrt(p,64) for p in P]
IV256=[fsqrt(p,32) for p in P[:8]]; IV512=[fsqrt(p,64) for p in P[:8]]
IV384=[fsqrt(p,64) for p in P[8:16]]
IV224=[x&0xffffffff for x in IV384]
M64=(1<<64)-1
def rr(x,n): return ((x>>n)|(x<<(64-n)))&M64
def sha512(iv,msg):
    l=len(msg); msg=msg+b'\x80'; msg+=b'\0'*((112-len(msg))%128)+(l*8).to_bytes(16,'big')
    h=list(iv)
    for o in range(0,len(msg),128):
        w=[int.from_bytes(msg[o+8*i:o+8*i+8],'big') for i in range(16)]
        for i in range(16,80):
            s0=rr(w[i-15],1)^rr(w[i-15],8)^(w[i-15]>>7); s1=rr(w[i-2],19)^rr(w[i-2],61)^(w[i-2]>>6)
            w.append((w[i-16]+s0+w[i-7]+s1)&M64)
        a,b,c,d,e,f,g,hh=h
        for i in range(80):
            S1=rr(e,14)^rr(e,18)^rr(e,41); ch=(e&f)^(~e&g&M64)
            t1=(hh+S1+ch+K512[i]+w[i])&M64
            S0=rr(a,28)^rr(a,34)^rr(a,39); mj=(a&b)^(a&c)^(b&c)
            t2=(S0+mj)&M64
            hh,g,f,e,d,c,b,a=g,f,e,(d+t1)&M64,c,b,a,(t1+t2)&M64
        h=[(x+y)&M64 for x,y in zip(h,(a,b,c,d,e,f,g,hh))]
    return h
x=[v^0xa5a5a5a5a5a5a5a5 for v in IV512]
IV512_224=sha512(x,b"SHA-512/224"); IV512_256=sha512(x,b"SHA-512/256")
for n,t,v in [("SHA_K32","u32",K256),("SHA_K64","u64",K512),("IV256","u32",IV256),("IV224","u32",IV224),("IV512","u64",IV512),("IV384","u64",IV384),("IV512_224","u64",IV512_224),("IV512_256","u64",IV512_256)]: arr(n,t,v)
# MD5 sine table (exact: high precision rational sine)
def sin_frac(i):
    # Taylor with big rationals, argument i (radians) reduced implicitly by many terms
    x=Fraction(i); t=x; s=Fraction(0); k=1
    SC=1<<256
    X=i*SC; T=X; S=0; k=1
    while T:
        S+=T
        T=-T*i*i//((k+1)*(k+2)) if True else 0
        k+=2
        if abs(T)<=1: break
    return abs(S)*(1<<32)//SC
arr("MD5_T","u32",[sin_frac(i+1) for i in range(64)])
# pi digits for MD2's table: Fisher-Yates from the decimal digits of pi (RFC 1319)
def pidigits():
    q,r,t,k,n,l=1,0,1,1,3,3
    while True:
        if 4*q+r-t<n*t:
            yield n
            q,r,n=10*q,10*(r-n*t),(10*(3*q+r))//t-10*n
        else:
            q,r,t,k,n,l=q*k,(2*q+r)*l,t*l,k+1,(q*(7*k)+2+(r*l))//(t*l),l+2
g=pidigits()
def rand(n):
    # published derivation of the MD2 S-box ("Crypto StackExchange: How is the MD2 hash function S-table constructed from Pi?")
    while True:
        x=next(g);y=10
        if n>10: x=x*10+next(g);y=100
        if n>100: x=x*10+next(g);y=1000
        if x<n*(y//n): return x%n
S=list(range(256))
for i in range(2,257):
    j=rand(i); S[j],S[i-1]=S[i-1],S[j]
arr("MD2_S","u8",S)
# pi fraction in hexadecimal (Blake-224/256/384/512 constants)
def pi_hex_words(nw,b):
    # pi*2^(nw*b+64) by Machin
    prec=nw*b+64
    one=1<<prec
    def atan_inv(x):
        s=0;t=one//x;n=1;x2=x*x;sg=1
        while t: s+=sg*(t//n); t//=x2; n+=2; sg=-sg
        return s
    pi=4*(4*atan_inv(5)-atan_inv(239))
    fr=pi-3*one
    return [(fr>>(prec-b*(i+1)))&((1<<b)-1) for i in range(nw)]
arr("BLAKE_C32","u32",pi_hex_words(16,32)); arr("BLAKE_C64","u64",pi_hex_words(16,64))
SIG=[[0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15],[14,10,4,8,9,15,13,6,1,12,0,2,11,7,5,3],[11,8,12,0,5,2,15,13,10,14,3,6,7,1,9,4],[7,9,3,1,13,12,11,14,2,6,5,10,4,0,15,8],[9,0,5,7,2,4,10,15,14,1,11,12,6,8,3,13],[2,12,6,10,0,11,8,3,4,13,7,5,15,14,1,9],[12,5,1,15,14,13,4,10,0,7,6,3,9,2,8,11],[13,11,7,14,12,1,3,9,5,0,15,4,8,6,2,10],[6,15,14,9,11,3,0,8,12,2,13,7,1,4,10,5],[10,2,8,4,7,6,1,5,15,11,9,14,3,12,13,0]]
out.append("pub const BLAKE_SIGMA: [[usize; 16]; 10] = [%s];"%",".join("[%s]"%",".join(map(str,r)) for r in SIG))
# Keccak round constants by LFSR; rotation offsets by the rho walk
def rc(t):
    if t%255==0: return 1
    R=[1,0,0,0,0,0,0,0]
    for _ in range(t%255):
        R=[0]+R; R[0]^=R[8];R[4]^=R[8];R[5]^=R[8];R[6]^=R[8];R=R[:8]
    return R[0]
RC=[]
for ir in range(24):
    v=0
    for j in range(7):
        if rc(j+7*ir): v|=1<<((1<<j)-1)
    RC.append(v)
arr("KECCAK_RC","u64",RC)
rho=[[0]*5 for _ in range(5)]; x,y=1,0
for t in range(24):
    rho[x][y]=((t+1)*(t+2)//2)%64; x,y=y,(2*x+3*y)%5
out.append("pub const KECCAK_RHO: [[u32; 5]; 5] = [%s]; // [x][y]"%",".join("[%s]"%",".join(map(str,r)) for r in rho))
# Tiger S-boxes (gen.c by Anderson and Biham)
def tiger_sboxes():
    M=M64
    def compress(st,block,T):
        a,b,c=st
        xs=[int.from_bytes(block[8*i:8*i+8],'little') for i in range(8)]
        sa,sb,sc=a,b,c
        def rnd(a,b,c,x,mul):
            c^=x
            by=[(c>>(8*i))&255 for i in range(8)]
            a=(a-(T[0][by[0]]^T[1][by[2]]^T[2][by[4]]^T[3][by[6]]))&M
            b=(b+(T[3][by[1]]^T[2][by[3]]^T[1][by[5]]^T[0][by[7]]))&M
            b=(b*mul)&M
            return a,b,c
        def pas(a,b,c,mul):
            for i,x in enumerate(xs):
                if i%3==0: a,b,c=rnd(a,b,c,x,mul)
                elif i%3==1: b,c,a=rnd(b,c,a,x,mul)
                else: c,a,b=rnd(c,a,b,x,mul)
            return a,b,c
        def ks():
            x=xs
            x[0]=(x[0]-(x[7]^0xA5A5A5A5A5A5A5A5))&M; x[1]^=x[0]; x[2]=(x[2]+x[1])&M
            x[3]=(x[3]-(x[2]^(((~x[1])&M)<<19&M)))&M; x[4]^=x[3]; x[5]=(x[5]+x[4])&M
            x[6]=(x[6]-(x[5]^(((~x[4])&M)>>23)))&M; x[7]^=x[6]; x[0]=(x[0]+x[7])&M
            x[1]=(x[1]-(x[0]^(((~x[7])&M)<<19&M)))&M; x[2]^=x[1]; x[3]=(x[3]+x[2])&M
            x[4]=(x[4]-(x[3]^(((~x[2])&M)>>23)))&M; x[5]^=x[4]; x[6]=(x[6]+x[5])&M
            x[7]=(x[7]-(x[6]^0x0123456789ABCDEF))&M
        a,b,c=pas(a,b,c,5); ks(); c,a,b=pas(c,a,b,7) ; ks(); b,c,a=pas(b,c,a,9)
        return [a^sa,(b-sb)&M,(c+sc)&M]
    return compress
comp=tiger_sboxes()
def gen_tiger():
    st=[0x0123456789ABCDEF,0xFEDCBA9876543210,0xF096A5B4C3B2E187]
    s=b"Tiger - A Fast New Hash Function, by Ross Anderson and Eli Biham"
    assert len(s)==64
    # one flat byte-addressed table of 1024 8-byte entries
    T=[[ (i&255)*0x0101010101010101 for i in range(256)] for _ in range(4)]
    abc=2
    for cnt in range(5):
        for i in range(256):
            for sb in range(4):
                abc+=1
                if abc==3:
                    abc=0
                    st=comp(st,s,T)
                for col in range(8):
                    j=(st[abc]>>(8*col))&255
                    sh=8*col
                    m=255<<sh
                    x,y=T[sb][i]&m, T[sb][j]&m
                    # entries i and j of this S-box swap their byte `col`
                    T[sb][i]=(T[sb][i]&~m)|y if i!=j else T[sb][i]
                    if i!=j: T[sb][j]=(T[sb][j]&~m)|x
    return T
T=gen_tiger()
for i in range(4): arr("TIGER_T%d"%(i+1),"u64",T[i])
# Whirlpool S-box from the mini-boxes
E=[0x1,0xB,0x9,0xC,0xD,0x6,0xF,0x3,0xE,0x8,0x7,0x4,0xA,0x2,0x5,0x0]
R=[0x7,0xC,0xB,0xD,0xE,0x4,0x9,0xF,0x6,0x3,0x8,0xA,0x2,0x5,0x1,0x0]
Ei=[E.index(i) for i in range(16)]
Sx=[]
for x in range(256):
    u=E[x>>4]; l=Ei[x&15]; r=R[u^l]
    Sx.append((E[u^r]<<4)|Ei[l^r])
arr("WHIRLPOOL_S","u8",Sx)
open(sys.argv[1] if len(sys.argv)>1 else "/verif/irv/src/consts.rs","w").write("// generated by tools/gen_consts.py\n"+"\n".join(out)+"\n")
