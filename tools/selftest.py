"""Validates the encodings of symx.values/builtins_ against CPython on random values."""
import sys; sys.path.insert(0, "/verif")
import sys,os
sys.path.insert(0,'/verif')
from symx import run
run.setup_paths()
import z3
from symx import core, values as V, builtins_ as B
core.ENGINE=core.Engine()
core.ENGINE.start_path()
import hypothesis.internal.conjecture.floats as F
t=z3.BitVec('x',64)
x=V.SymInt.from_unsigned(t)
def ev(s,val):
    r=z3.simplify(z3.substitute(s.t,(t,z3.BitVecVal(val,64))))
    return r.as_signed_long()
import random
for tab in (F.ENCODING_TABLE,F.DECODING_TABLE,F.REVERSE_BITS_TABLE):
    r=B.table_get(tab, x & (len(tab)-1))
    for i in range(len(tab)):
        assert ev(r,i)==tab[i],(i,ev(r,i),tab[i])
r=B.table_get
def conc(f,val): return f(val)
for name,f in dict(a=lambda x:(x>>52)&2047,b=lambda x:x^(x&12345),c=lambda x:(x&((1<<52)-1)),d=lambda x:(((x>>52)&2047)<<52)|(x&((1<<52)-1)),e=lambda x:x*3-7,f=lambda x:x//7,g=lambda x:(x-5)%7,h=lambda x:(x-(1<<63))//-5,i=lambda x:(x&63)-1023, j=lambda x:~x, k=lambda x: 1<<(x&63),l=lambda x:(1<<(52-(x&31)))-1, m=lambda x:x&((1<<(52-(x&31)))-1), n=lambda x:x>>(x&63)).items():
    r=f(x)
    for _ in range(200):
        v=random.getrandbits(random.choice([3,8,40,64]))
        assert ev(r,v)==f(v),(name,v,ev(r,v),f(v))
import hypothesis
def evb(s,val,sub=t):
    if not V.is_sym(s): return s
    r=z3.simplify(z3.substitute(s.b,(sub,z3.BitVecVal(val,64))))
    return z3.is_true(r)
vals=[random.getrandbits(random.choice([3,8,40,53,54,55,56,57,64])) for _ in range(300)]+[2**53+1,2**53+3,2**54+2,2**54+6,2**64-1,0,1]
xs=x-(1<<63)
for nm,sx,fn in (("u",x,lambda v:v),("s",xs,lambda v:v-(1<<63)),("n",x&0xff,lambda v:v&255)):
    fl=V.int_to_symfloat_rounded(sx)
    for v in vals:
        got=z3.simplify(z3.substitute(fl.bits,(t,z3.BitVecVal(v,64)))).as_long()
        assert V.b2f(got)==float(fn(v)),(nm,v)
y=z3.BitVec('y',64)
fy=V.SymFloat(y)
import operator,math
for sx,fn in ((x,lambda v:v),(xs,lambda v:v-(1<<63)),(x&0xff,lambda v:v&255)):
  cmps={op:V.int_float_cmp(sx,fy,op) for op in ("eq","ne","lt","le","gt","ge")}
  for v in vals:
    a=fn(v)
    for f in [float(a), math.nextafter(float(a),math.inf), math.nextafter(float(a),-math.inf), a+0.5 if abs(a)<1e300 else 0., -a*1.0, math.inf,-math.inf,math.nan,1e300,-1e300,5e-324,-5e-324,-0.0, V.b2f(random.getrandbits(64))]:
        for op,r in cmps.items():
            g=z3.is_true(z3.simplify(z3.substitute(r.b,(t,z3.BitVecVal(v,64)),(y,z3.BitVecVal(V.f2b(f),64)))))
            assert g==getattr(operator,op)(a,f),(a,f,op,g)
for f in [0.,-0.,1.,1.5,-1.5,2.**52+.5,2.**60,1e300,-1e300,5e-324,123456.789,2.0**63,-2.0**63,2.**62]:
    core.ENGINE=core.Engine(); core.ENGINE.start_path()
    core.ENGINE.assume(y==V.f2b(f))
    assert z3.simplify(z3.substitute(fy.to_int_trunc().t,(y,z3.BitVecVal(V.f2b(f),64)))).as_signed_long()==int(f),f
    assert evb(fy._is_integral(),V.f2b(f),y)==f.is_integer(),f



import z3, struct, random, math
from symx import core, values as V
core.ENGINE=core.Engine(); core.ENGINE.start_path()
for w,fi,ff in ((16,'!H','!e'),(32,'!I','!f')):
    b=z3.BitVec('b',w)
    r=V.width_bits_to_float(b,w)
    vals=list(range(65536)) if w==16 else [random.getrandbits(32) for _ in range(20000)]+[random.getrandbits(23)|(random.choice([0,1])<<31) for _ in range(3000)]+[0x7f800000|random.getrandbits(23) for _ in range(500)]
    vals=random.sample(vals,6000)
    for v in vals:
        exp=struct.unpack(ff,struct.pack(fi,v))[0]
        got=z3.simplify(z3.substitute(r.bits,(b,z3.BitVecVal(v,w)))).as_long()
        assert got==V.f2b(exp),(w,hex(v),hex(got),hex(V.f2b(exp)))
    d=z3.BitVec('d',64)
    class X(V.SymFloat):
        pass
    def rnd():
        c=random.random()
        if c<.3: return random.getrandbits(64)
        if c<.6:
            f=struct.unpack(ff,struct.pack(fi,random.getrandbits(w)))[0]
            bb=V.f2b(f)
            return (bb + random.choice([0,1,-1,1<<(51-(10 if w==16 else 23)),(1<<(51-(10 if w==16 else 23)))+1,(1<<(51-(10 if w==16 else 23)))-1]))%(1<<64)
        lo=1023-(26 if w==16 else 151)
        return (random.getrandbits(1)<<63)|(random.randint(lo,lo+20)<<52)|(random.choice([0,random.getrandbits(52),random.getrandbits(5)<<47]))
    for _ in range(4000):
        v=rnd()
        f=V.b2f(v)
        try: exp=struct.unpack(fi,struct.pack(ff,f))[0]
        except OverflowError: exp='over'
        core.ENGINE=core.Engine(); core.ENGINE.start_path()
        try:
            got=V.float_to_width_bits(V.SymFloat(z3.BitVecVal(v,64)),w)
            got=z3.simplify(got).as_long()
        except OverflowError: got='over'
        assert got==exp,(w,hex(v),got,exp)
print('ok')

# narrow formats
for w in (16, 32):
    core.ENGINE=core.Engine(); core.ENGINE.start_path()
    tn=z3.BitVec('n',w); un=z3.BitVec('u',w)
    fn_,gn_=V.width_bits_to_float(tn,w),V.width_bits_to_float(un,w)
    assert fn_.nar
    ff,fi={16:("!e","!H"),32:("!f","!I")}[w]
    for _ in range(300):
        a=random.getrandbits(w); b=random.choice([a,a^1,a^(1<<(w-1)),random.getrandbits(w)])
        fa,fb=(struct.unpack(ff,struct.pack(fi,q))[0] for q in (a,b))
        sb=lambda t: z3.simplify(z3.substitute(t,(tn,z3.BitVecVal(a,w)),(un,z3.BitVecVal(b,w))))
        for x,y,cx,cy in ((fn_,gn_,fa,fb),(-fn_,gn_,-fa,fb),(abs(fn_),gn_,abs(fa),fb),(fn_,V.to_symfloat(1.5),fa,1.5),(fn_,V.to_symfloat(0.0),fa,0.0),(fn_,V.to_symfloat(1e-320),fa,1e-320)):
            for op in ("eq","ne","lt","le","gt","ge"):
                assert z3.is_true(sb(V.to_z3bool(V.float_cmp(x,y,op))))==getattr(operator,op)(cx,cy),(w,cx,cy,op)
            if cx==cx:
                assert sb(x.bits).as_long()==V.f2b(cx)
                assert sb(x.nar[1]).as_long()==struct.unpack(fi,struct.pack(ff,cx))[0]
            assert z3.is_true(sb(V.to_z3bool(x.isnan())))==(cx!=cx)
print("narrow ok")
