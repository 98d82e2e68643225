# Derives the constants of FIPS 180-4 / FIPS 202 from their definitions (not from the implementation).
def primes(n):
    r=[];k=2
    while len(r)<n:
        if all(k%p for p in r): r.append(k)
        k+=1
    return r
def iroot(x,k):
    lo,hi=0,1<<((x.bit_length()//k)+2)
    while lo<hi:
        m=(lo+hi+1)//2
        if m**k<=x: lo=m
        else: hi=m-1
    return lo
def frac(p,k,bits): return iroot(p<<(k*bits),k)&((1<<bits)-1)
P=primes(80)
def arr(name,t,v,fmt):
    return "static constexpr %s %s[%d] = {%s};\n"%(t,name,len(v),", ".join(fmt%x for x in v))
o="// generated by gen_constants.py\n#pragma once\n#include <cstdint>\nnamespace refc {\n"
o+=arr("K32","uint32_t",[frac(p,3,32) for p in P[:64]],"0x%08xu")
o+=arr("K64","uint64_t",[frac(p,3,64) for p in P],"0x%016xull")
o+=arr("IV256","uint32_t",[frac(p,2,32) for p in P[:8]],"0x%08xu")
o+=arr("IV512","uint64_t",[frac(p,2,64) for p in P[:8]],"0x%016xull")
iv384=[frac(p,2,64) for p in P[8:16]]
o+=arr("IV384","uint64_t",iv384,"0x%016xull")
o+=arr("IV224","uint32_t",[x&0xffffffff for x in iv384],"0x%08xu")
# keccak
def rc(t):
    if t%255==0: return 1
    R=[1,0,0,0,0,0,0,0]
    for _ in range(t%255):
        R=[0]+R
        R[0]^=R[8];R[4]^=R[8];R[5]^=R[8];R[6]^=R[8];R=R[:8]
    return R[0]
RC=[]
for ir in range(24):
    v=0
    for j in range(7): v|=rc(j+7*ir)<<((1<<j)-1)
    RC.append(v)
o+=arr("RC","uint64_t",RC,"0x%016xull")
off=[[0]*5 for _ in range(5)]
x,y=1,0
for t in range(24):
    off[x][y]=((t+1)*(t+2)//2)%64
    x,y=y,(2*x+3*y)%5
o+="// RHO[x + 5*y]\n"+arr("RHO","unsigned",[off[i%5][i//5] for i in range(25)],"%u")
o+="}\n"
open(__file__.rsplit('/',1)[0]+"/constants.hpp","w").write(o)
