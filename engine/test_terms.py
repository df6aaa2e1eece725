import sys,random; sys.path.insert(0,'/verif/engine')
# self-test: random terms, simplifier vs z3
from terms import *
# randomized soundness test of the simplifier against z3 semantics & direct evaluation
random.seed(1)
import z3
vs=[Var("a",8),Var("b",8),Var("c",8)]
ops2=[Add,Sub,Mul,UDiv,URem,SDiv,SRem,BAnd,BOr,BXor,Shl,LShr,AShr]
preds=[Eq,Ult,Slt,Ule,Sle,Ne]
def raw2(f,x,y,w):pass
def ev(f,x,y,w):
    m=(1<<w)-1
    sx=_sx=lambda v:v-(1<<w) if v>>(w-1) else v
    n=f.__name__
    if n=="Add":return (x+y)&m
    if n=="Sub":return (x-y)&m
    if n=="Mul":return x*y&m
    if n=="UDiv":return x//y if y else m
    if n=="URem":return x%y if y else x
    if n in("SDiv","SRem"):
        a,b=sx(x),sx(y)
        if b==0:return 0
        q=abs(a)//abs(b);r=abs(a)%abs(b)
        return ((q if (a<0)==(b<0) else -q) if n=="SDiv" else (r if a>=0 else -r))&m
    if n=="BAnd":return x&y
    if n=="BOr":return x|y
    if n=="BXor":return x^y
    if n=="Shl":return (x<<y)&m if y<w else 0
    if n=="LShr":return x>>y if y<w else 0
    if n=="AShr":return (sx(x)>>min(y,w-1))&m
    if n=="Eq":return x==y
    if n=="Ne":return x!=y
    if n=="Ult":return x<y
    if n=="Ule":return x<=y
    if n=="Slt":return sx(x)<sx(y)
    if n=="Sle":return sx(x)<=sx(y)
def gen(d,w,env):
    """returns (node, value)"""
    if d==0 or random.random()<.1:
        if random.random()<.4:
            v=random.choice([0,1,2,7,8,255,127,128,random.getrandbits(w)])&((1<<w)-1); return K(v,w),v
        v=random.choice("abc"); x=Var(v+str(w),w); return x, env.setdefault(v+str(w),random.choice([0,1,5,random.getrandbits(w)])&((1<<w)-1))
    k=random.random()
    if k<.5:
        f=random.choice(ops2); a,x=gen(d-1,w,env); b,y=gen(d-1,w,env)
        return f(a,b), ev(f,x,y,w)
    if k<.65:
        c,cv=genb(d-1,w,env); a,x=gen(d-1,w,env); b,y=gen(d-1,w,env)
        return Ite(c,a,b),(x if cv else y)
    if k<.8:
        w2=random.choice([4,8,3,16])
        a,x=gen(d-1,w2,env)
        if w2<w:
            if random.random()<.5: return ZExt(a,w),x
            return SExt(a,w),(x-(1<<w2) if x>>(w2-1) else x)&((1<<w)-1)
        if w2==w: return a,x
        lo=random.randint(0,w2-w); return Extract(a,lo+w-1,lo),(x>>lo)&((1<<w)-1)
    if k<.95 and w>1:
        h=random.randint(1,w-1); a,x=gen(d-1,h,env); b,y=gen(d-1,w-h,env)
        return Concat(a,b),(x<<(w-h))|y
    return gen(d-1,w,env)
def genb(d,w,env):
    w=random.choice([8,4])
    k=random.random()
    if k<.6 or d==0:
        f=random.choice(preds); a,x=gen(max(d-1,0),w,env); b,y=gen(max(d-1,0),w,env); return f(a,b),ev(f,x,y,w)
    if k<.7:
        a,x=genb(d-1,w,env); return Not(a),not x
    f=random.choice(["and","or","implies","iff","ite"])
    a,x=genb(d-1,w,env); b,y=genb(d-1,w,env)
    if f=="and": return And(a,b),x and y
    if f=="or": return Or(a,b),x or y
    if f=="implies": return Implies(a,b),(not x) or y
    if f=="iff": return Iff(a,b),x==y
    c,z=genb(d-1,w,env); return Ite(c,a,b),(x if z else y)
bad=0
for i in range(60000):
    env={}
    n,v=gen(random.randint(1,6),random.choice([8,4,16]),env)
    assert evaluate(n,env)==v,(show(n,20),env,v,evaluate(n,env))
    r=rng(n); assert r[0]<=v<=r[1],(show(n,20),env,v,r)
    if i%20==0:
        s=z3.simplify(z3.substitute(to_z3(n),*[(z3.BitVec(k,int(k[1:])),z3.BitVecVal(x,int(k[1:]))) for k,x in env.items()]))
        if "div" not in str(n) and "rem" not in str(n): assert s.as_long()==v,(n,env)
print("ok")
