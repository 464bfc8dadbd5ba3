# Scalars and points whose X25519 product is a coordinate of chosen shape (every byte length, many zero bytes,
# close to the prime). Prints harness/src/x25519_points.txt; the recorder c20 reads it, the specification judges it.
import random
random.seed(5)
p=2**255-19; A=486662; a24=121665
l=2**252+27742317777372353535851937790883648493
lt=2**253-55484635554744707071703875581767296995  # twist prime order
def ladder(k,u):
    x1=u;x2,z2,x3,z3=1,0,u,1
    sw=0
    for t in reversed(range(k.bit_length() or 1)):
        kt=(k>>t)&1
        sw^=kt
        if sw: x2,x3=x3,x2; z2,z3=z3,z2
        sw=kt
        a=x2+z2;aa=a*a%p;b=x2-z2;bb=b*b%p;e=aa-bb;c=x3+z3;d=x3-z3
        da=d*a%p;cb=c*b%p
        x3=(da+cb)**2%p;z3=x1*(da-cb)**2%p;x2=aa*bb%p;z2=e*(aa+a24*e)%p
    if sw: x2,x3=x3,x2; z2,z3=z3,z2
    return x2,z2
def mul(k,u):
    x,z=ladder(k,u); return x*pow(z,p-2,p)%p
def on_curve(u): 
    v=(u**3+A*u*u+u)%p
    return v==0 or pow(v,(p-1)//2,p)==1
def find(start,step=1,n=400):
    u=start
    for _ in range(n):
        if 1<u<p:
            o=l if on_curve(u) else lt
            x,z=ladder(o,u)
            if z==0: return u,o
        u+=step
    return None
targets=[]
for j in range(0,32): targets.append((256**j,1))           # j low..: value of exactly j+1 bytes, mostly zeros
for j in range(1,31): targets.append((random.randrange(256**(j-1),256**j),1))
for j in (1,2,4,8,16,24,29,30): targets.append((random.randrange(1,(p>>(8*j)))<<(8*j),1<<(8*j)))
targets.append((p-2,-1)); targets.append((p-300,-1)); targets.append((2**254,1)); targets.append((2**254-1,-1)); targets.append((2**255-2**128-1,-1)); targets.append((2**128-1,-1));targets.append((p//2,1))
rows=[]
for s,st in targets:
    f=find(s,st)
    if not f: continue
    u,o=f
    raw=random.getrandbits(256)
    k=(raw & ~7 & (2**254-1)) | 2**254
    kk=k
    inv=pow(kk,-1,o)
    src=mul(inv,u)
    assert mul(k,src)==u
    rows.append((raw.to_bytes(32,'little').hex(),src.to_bytes(32,'little').hex(),u))
print('\n'.join('%s %s' % (a, b) for a, b, _ in rows))
