"""Printing and matching of reconstructed expressions."""
from flow import last, strip_cast

def show(e,d=0):
    if not isinstance(e,tuple): return str(e)
    if d>14: return "…"
    k=e[0]; s=lambda x: show(x,d+1)
    if k=="p": return "self" if e[1]==1 else "arg%d"%(e[1]-1)
    if k=="up": return "up%d"%e[1]
    if k=="f":
        b=e[1]
        if b[0]=="d": return "%s!%s.%s"%(s(b[1]),b[2],e[2])
        return "%s.%s"%(s(b),e[2])
    if k=="d": return "%s!%s"%(s(e[1]),e[2])
    if k=="c": return repr(e[1])
    if k=="const": return last(e[1])
    if k=="c0": return "<%s>"%(e[2] or e[1])
    if k=="call": return "%s(%s)"%(shortq(e[1]),", ".join(s(x) for x in e[2]))
    if k=="bin": return "(%s %s %s)"%(s(e[2]),e[1],s(e[3]))
    if k=="un": return "%s(%s)"%(e[1],s(e[2]))
    if k=="cast": return "%s as %s"%(s(e[1]),e[2])
    if k=="agg": return "%s{%s}"%((last(e[1])+"::"+e[2]) if e[2] else e[1],", ".join("%s:%s"%(n,s(x)) for n,x in e[3]))
    if k=="phi": return "φ(%s)"%" | ".join(s(x) for x in e[1])
    if k=="discr": return "discr(%s)"%s(e[1])
    if k=="len": return "len(%s)"%s(e[1])
    if k in("min","max"): return "%s(%s)"%(k,", ".join(s(x) for x in e[1:]))
    if k in("closure","coroutine"): return "%s<%s>"%(k,last(e[1]))
    if k=="fn": return "fn "+shortq(e[1])
    if k=="is": return "%s is %s"%(s(e[1]),"|".join(sorted(e[2])))
    if k=="isnot": return "%s isnot %s"%(s(e[1]),"|".join(sorted(e[2])))
    if k=="isq": return "%s isq %s"%(s(e[1]),"|".join(sorted(e[2])))
    if k=="cmp": return "%s %s %s"%(s(e[2]),{"Lt":"<","Le":"<=","Eq":"==","Ne":"!="}[e[1]],s(e[3]))
    if k in("true","false"): return ("" if k=="true" else "!")+s(e[1])
    return "%s(%s)"%(k,", ".join(s(x) if isinstance(x,tuple) else str(x) for x in e[1:]))
def shortq(q):
    if q.startswith("<"):
        i=q.find(" as "); j=q.rfind(">::")
        if i>0 and j>0: return last(q[1:i])+"@"+last(q[i+4:j])+"::"+q[j+3:]
    ps=q.split("::")
    return "::".join(ps[-2:])

def subs(e):
    st=[e]
    while st:
        x=st.pop()
        if isinstance(x,tuple):
            if x and isinstance(x[0],str): yield x
            for y in x:
                if isinstance(y,tuple): st.append(y)
def has(e,pred): return any(pred(x) for x in subs(e))
def is_field(e,owner,name):
    e=strip_cast(e)
    return e[0]=="f" and e[2]==name and (e[3].endswith("::"+owner) or e[3]==owner)
def F(spec):
    owner,name=spec.rsplit(".",1)
    return lambda e: is_field(e,owner,name)
def hasF(e,spec):
    owner,name=spec.rsplit(".",1)
    return has(e,lambda x: x[0]=="f" and is_field(x,owner,name))
def is_call(e,*names):
    e=strip_cast(e)
    return e[0]=="call" and (last(e[1]) in names or e[1] in names)
def alts(e):
    """alternatives of a value"""
    e=strip_cast(e)
    return list(e[1]) if e[0]=="phi" else [e]
def addends(e):
    """flattened sum: list of (sign, term)"""
    e=strip_cast(e)
    if e[0]=="bin" and e[1]=="Add": return addends(e[2])+addends(e[3])
    if e[0]=="bin" and e[1]=="Sub": return addends(e[2])+[(-s,t) for s,t in addends(e[3])]
    if e[0]=="call" and last(e[1]) in("saturating_sub","wrapping_sub") and len(e[2])==2: return addends(e[2][0])+[(-s,t) for s,t in addends(e[2][1])]
    if e[0]=="call" and last(e[1]) in("saturating_add","wrapping_add") and len(e[2])==2: return addends(e[2][0])+addends(e[2][1])
    return [(1,e)]
