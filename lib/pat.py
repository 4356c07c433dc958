"""Patterns over reconstructed expressions and branch facts."""
from flow import last, strip_cast
from expr import *

def anyx(e): return True
def K(v):
    def f(e):
        e=strip_cast(e); return e[0]=="c" and e[1]==v and (isinstance(e[1],bool)==isinstance(v,bool))
    return f
def CONST(name): return lambda e: strip_cast(e)[0]=="const" and last(strip_cast(e)[1])==name
def SELF(e): return strip_cast(e)==("p",1)
def P(i): return lambda e: strip_cast(e)==("p",i)
def fld(*specs):
    """a field access Owner.name, or a chain of trailing field names 'Owner.a.b'"""
    def one(spec):
        ps=spec.split("."); owner=ps[0]; names=ps[1:]
        def f(e):
            e=strip_cast(e)
            for n in reversed(names[1:]):
                if e[0]!="f" or e[2]!=n: return False
                e=strip_cast(e[1])
            return e[0]=="f" and e[2]==names[0] and (e[3]==owner or e[3].endswith("::"+owner))
        return f
    fs=[one(s) for s in specs]
    return lambda e: any(f(e) for f in fs)
def name(*names):
    """field of any owner"""
    return lambda e: strip_cast(e)[0]=="f" and strip_cast(e)[2] in names
def LEN(p): return lambda e: strip_cast(e)[0]=="len" and p(strip_cast(e)[1])
def CALL(names,*ps):
    if isinstance(names,str): names=(names,)
    def f(e):
        e=strip_cast(e)
        if e[0]!="call": return False
        if not any(e[1]==n or e[1].endswith("::"+n) for n in names): return False
        return all(i<len(e[2]) and p(e[2][i]) for i,p in enumerate(ps))
    return f
def AGG(adt,var=None,**fs):
    def f(e):
        e=strip_cast(e)
        if e[0]!="agg" or not(e[1]==adt or e[1].endswith("::"+adt)): return False
        if var is not None and e[2]!=var: return False
        d=dict(e[3])
        return all(k.lstrip("_") in d and p(d[k.lstrip("_")]) for k,p in fs.items())
    return f
def VAR(var):
    """an enum value of the given variant"""
    return lambda e: strip_cast(e)[0]=="agg" and strip_cast(e)[2]==var
def OR(*ps): return lambda e: any(p(e) for p in ps)
def AND(*ps): return lambda e: all(p(e) for p in ps)
def NOT(p): return lambda e: not p(e)
def HAS(p): return lambda e: has(e,p)
def ALL(p):
    """every alternative of the value"""
    return lambda e: all(p(x) for x in alts(e))
def SOME(p): return lambda e: any(p(x) for x in alts(e))
def BIN(op,a,b):
    def f(e):
        e=strip_cast(e)
        if e[0]!="bin" or e[1]!=op: return False
        if a(e[2]) and b(e[3]): return True
        return op in("Add","Mul","BitAnd","BitOr","BitXor","Eq","Ne") and a(e[3]) and b(e[2])
    return f
def SUM(plus,minus=()):
    """a sum with exactly these terms (checked/saturating/wrapping forms included)"""
    def f(e):
        ts=addends(e)
        pos=[t for s,t in ts if s>0]; neg=[t for s,t in ts if s<0]
        return match_set(pos,plus) and match_set(neg,minus)
    return f
def match_set(ts,ps):
    ts=list(ts)
    if len(ts)!=len(ps): return False
    if not ps: return True
    for i,t in enumerate(ts):
        if ps[0](t) and match_set(ts[:i]+ts[i+1:],ps[1:]): return True
    return False
# ---- facts
def IS(p,*vs):
    s=frozenset(vs)
    return lambda f: f[0]=="is" and f[2]<=s and p(f[1])
def ISNT(p,*vs):
    s=frozenset(vs)
    return lambda f: (f[0]=="is" and not(f[2]&s) and p(f[1])) or (f[0]=="isnot" and s<=f[2] and p(f[1]))
def CMP(op,a,b):
    """op in < <= == !=   (canonical: > and >= are the swapped forms); `<=` also accepts `<`"""
    ops={"<":("Lt",),"<=":("Le","Lt"),"==":("Eq",),"!=":("Ne",)}[op]
    def f(x):
        if x[0]=="notin" and op=="!=": return any(a(x[1]) and b(("c",v)) or b(x[1]) and a(("c",v)) for v in x[2])
        if x[0]!="cmp" or x[1] not in ops: return False
        if a(x[2]) and b(x[3]): return True
        return op in("==","!=") and a(x[3]) and b(x[2])
    return f
def LE(a,b): return CMP("<=",a,b)
def TRUE(p): return lambda f: f[0]=="true" and p(f[1])
def FALSE(p): return lambda f: f[0]=="false" and p(f[1])
def ANYF(*fs): return lambda f: any(x(f) for x in fs)
