# Small scalars whose multiple of the P-256 base point has two zero or 255 bytes at an end of a coordinate (used in c21.rs).
p=0xffffffff00000001000000000000000000000000ffffffffffffffffffffffff
gx=0x6B17D1F2E12C4247F8BCE6E563A440F277037D812DEB33A0F4A13945D898C296
gy=0x4FE342E2FE1A7F9B8EE7EB4A7C0F9E162BCE33576B315ECECBB6406837BF51F5
n=0xffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551
def dbl(P):
    x,y=P; l=(3*x*x-3)*pow(2*y,-1,p)%p; X=(l*l-2*x)%p; return X,(l*(x-X)-y)%p
def add(P,Q):
    if P==Q: return dbl(P)
    l=(Q[1]-P[1])*pow(Q[0]-P[0],-1,p)%p; X=(l*l-P[0]-Q[0])%p; return X,(l*(P[0]-X)-P[1])%p
# batch: baby table B[j]=jG j=1..m ; giants step by m, batch inversion of differences
m=2048
B=[(gx,gy)]
for j in range(2,m+1): B.append(add(B[-1],(gx,gy)))
step=B[-1]
best={}
def score(v):
    b=v.to_bytes(32,'big')
    r={}
    c=0
    while b[c]==0:c+=1
    r['zt']=c
    c=0
    while b[31-c]==0:c+=1
    r['zl']=c
    c=0
    while b[c]==255:c+=1
    r['ft']=c
    c=0
    while b[31-c]==255:c+=1
    r['fl']=c
    return r
found={}
C=step
for g in range(1,400):
    diffs=[(b[0]-C[0])%p for b in B[:-1]]
    pre=[1]
    for d in diffs: pre.append(pre[-1]*d%p)
    inv=pow(pre[-1],-1,p)
    for i in range(len(diffs)-1,-1,-1):
        if diffs[i]==0: continue
        iv=inv*pre[i]%p; inv=inv*diffs[i]%p
        l=(B[i][1]-C[1])*iv%p; X=(l*l-C[0]-B[i][0])%p; 
        Y=(l*(C[0]-X)-C[1])%p
        k=g*m+i+1
        for nm,v in (('x',X),('y',Y)):
            t=v>>240; lo=v&0xffff
            if t in(0,0xffff) or lo in (0,0xffff):
                found.setdefault((nm,t if t in (0,0xffff) else None,lo if lo in(0,0xffff) else None),[]).append(k)
    C=add(C,step) if g>1 else dbl(step)
for a,b in found.items(): print(a,b[:3])
