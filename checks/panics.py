"""Panic freedom of a function with everything it inlines: every operation that can panic is listed (failed assertions of the compiler, diverging calls, library calls
that panic on bad arguments) and discharged by a fact established on every path to it, or left to the check."""
from core import *
from sec import core_of,names_of,const_num,KN
WID={"get_u8":1,"get_i8":1,"get_u16":2,"get_i16":2,"get_u32":4,"get_i32":4,"get_u64":8,"get_i64":8,"get_u128":16,"get_u16_le":2,"get_u32_le":4,"get_u64_le":8}
CUTS={"split_at","split_at_mut","split_to","split_off","advance"}
UNW={"unwrap","expect","unwrap_err","expect_err","unwrap_none"}
OTHER={"copy_from_slice","clone_from_slice","copy_to_slice","remove","swap_remove","insert","drain","swap","windows","chunks","chunks_exact","chunks_mut","step_by","rotate_left","rotate_right","copy_within",
 "duration_since","split_first_at","range","slice","slice_ref","block_on","from_slice","clone_from","exactly_one","from_utf8_unchecked","from_str_radix","to_digit","get_root","get_root_as","replace_range"}
SAFE_REMOVE=("HashMap","HashSet","BTreeMap","BTreeSet","IndexMap","IndexSet","hash::map","btree::map","PublicKey","Message::","Signature","SecretKey")
def defined(n):
    c=n.data[1]; return c
def sites(r):
    """(node, kind, text)"""
    out=[]
    for n in r.nodes():
        if n.kind=="assert":
            out.append((n,n.data[3],"%s"%n.data[3]))
        elif n.kind=="call" and n.extra is None:
            q=r.g.qual(n); m=last(q)
            if n.data[4] is None and not r.g.nodes[n.id].succ: out.append((n,"diverges",q)); continue
            if m in UNW and ("Option" in q or "Result" in q or "core::" in q): out.append((n,"unwrap",q))
            elif m in("index","index_mut"): out.append((n,"index",q))
            elif m in CUTS: out.append((n,"cut",q))
            elif m in WID or m in("get_uint","get_int"): out.append((n,"get",q))
            elif m in OTHER and not any(x in q for x in SAFE_REMOVE) and not q.lstrip("<&").startswith(("tentacle::","tokio_yamux::","tentacle_secio::","tentacle_multiaddr::")): out.append((n,"call",q))
            elif m in("sub","add","mul","div","rem","neg","sub_assign","add_assign","sum") and "core::ops" in q: out.append((n,"arith",q))
    return out
def same(a): a=strip_cast(a); return lambda e: strip_cast(e)==a
def low(e):
    """a length the value is known to have at least, from how it is made"""
    e=strip_cast(e)
    if e[0]=="f" and CALL(("split_at",),anyx,anyx)(e[1]):
        c=strip_cast(e[1]); k=const_num(c[2][1]); return k if e[2]=="0" and k is not None else 0
    if e[0]=="call" and last(e[1])=="split_to": k=const_num(e[2][1]); return k or 0
    if e[0]=="call" and last(e[1]) in("index","index_mut"):
        g=strip_cast(e[2][1]); d={k:const_num(x) for k,x in g[3]} if g[0]=="agg" else {}
        if g[0]=="agg" and g[1].endswith("RangeFull"): return low(e[2][0])
        if g[0]=="agg" and g[1].endswith("RangeTo"): return d["end"] or 0
        if g[0]=="agg" and g[1].endswith("Range") and None not in d.values(): return max(0,d["end"]-d["start"])
        if g[0]=="agg" and g[1].endswith("RangeFrom") and d["start"] is not None: return max(0,low(e[2][0])-d["start"])
        return 0
    if e[0]=="call" and last(e[1]) in("new","from","into_iter","iter","iter_mut") and len(e[2])==1: return low(e[2][0])
    if e[0]=="rep": k=const_num(e[2]) if len(e)>2 and isinstance(e[2],tuple) else (e[2] if len(e)>2 and isinstance(e[2],int) else None); return k or 0
    if e[0]=="agg" and e[1]=="array": return len(e[3])
    if e[0]=="phi": return min(low(x) for x in e[1]) if e[1] else 0
    if e[0]=="c" and isinstance(e[1],(str,bytes)): return len(e[1])
    return 0
def exact(e):
    """low(e) is the length itself"""
    e=strip_cast(e)
    if e[0]=="rep" or (e[0]=="agg" and e[1]=="array"): return True
    if e[0]=="call" and last(e[1]) in("index","index_mut"):
        g=strip_cast(e[2][1]); return g[0]=="agg" and (g[1].endswith("RangeTo") or g[1].endswith("Range")) and low(e)>0 or (g[0]=="agg" and g[1].endswith("RangeFull") and exact(e[2][0]))
    return (e[0]=="f" and e[2]=="0" and CALL("split_at",anyx)(e[1]) or CALL("split_to",anyx)(e)) and low(e)>0
def longer(D,m):
    """fact: the length of D is at least m (constant)"""
    L=LEN(same(D))
    def f(x):
        if x[0]!="cmp": return False
        op,a,b=x[1],x[2],x[3]; ka,kb=const_num(a),const_num(b)
        if L(b) and ka is not None: return (op=="Le" and ka>=m) or (op=="Lt" and ka+1>=m) or (op=="Eq" and ka>=m) or (op=="Ne" and ka==0 and m<=1)
        if L(a) and kb is not None: return (op=="Eq" and kb>=m) or (op=="Ne" and kb==0 and m<=1)
        return False
    return f
def guarded(r,n,fact):
    return r.path(None,[n],avoid_edge=r.edge(fact)) is None
def refine(r,n,e):
    """alternatives of a value that can be the current one at n: an alternative read from another variant of an object whose variant was tested is out"""
    xs=alts(e)
    if len(xs)<2: return xs
    out=[]
    for x in xs:
        vs={(z[1],z[2]) for z in subterms(x) if z[0]=="d"}
        if any(guarded(r,n,lambda f,o=o,v=v: f[0]=="is" and strip_cast(f[1])==strip_cast(o) and v not in f[2]) for o,v in vs if v not in("Some","Ok","Ready")): continue
        out.append(x)
    return out or xs
def subterms(e):
    out=[]; st=[e]
    while st:
        x=st.pop()
        if isinstance(x,tuple):
            if x and isinstance(x[0],str): out.append(x)
            st.extend(y for y in x if isinstance(y,tuple))
    return out
def le(r,n,x,y,depth=0):
    """x <= y at node n"""
    x=strip_cast(x); y=strip_cast(y)
    if x==y: return True
    if depth>6: return False
    kx,ky=const_num(x),const_num(y)
    if kx is not None and kx<=0: return True
    if kx is not None and ky is not None: return kx<=ky
    if kx is not None and y[0]=="len" and (kx<=low(y[1]) or guarded(r,n,longer(y[1],kx))): return True
    if kx is not None and kx<=minval(y): return True
    if ky is not None and maxval(x) is not None and maxval(x)<=ky: return True
    if x[0]=="phi" and all(le(r,n,z,y,depth+1) for z in refine(r,n,x) if core_of(z)[0]!="loop"): return not any(core_of(z)[0]=="loop" for z in x[1])
    if y[0]=="phi" and all(le(r,n,x,z,depth+1) for z in refine(r,n,y)): return True
    if x[0]=="len" and y[0]=="len" and suffix(x[1],y[1]): return True
    if x[0]=="len" and sized(x[1]) is not None and le(r,n,sized(x[1]),y,depth+1): return True
    if y[0]=="len" and sized(y[1]) is not None and le(r,n,x,sized(y[1]),depth+1): return True
    if x[0]=="min" and any(le(r,n,z,y,depth+1) for z in x[1:]): return True
    if y[0]=="max" and any(le(r,n,x,z,depth+1) for z in y[1:]): return True
    if x[0]=="bin" and x[1] in("Sub","Div","Rem","BitAnd","Shr") and le(r,n,x[2],y,depth+1): return True
    if y[0]=="bin" and y[1]=="Add" and (le(r,n,x,y[2],depth+1) or le(r,n,x,y[3],depth+1)): return True
    c=core_of(x)
    if c[0]=="call" and last(c[1]) in("checked_sub","saturating_sub") and (x==c or x[0]=="f") and le(r,n,c[2][0],y,depth+1): return True
    return guarded(r,n,LE(same(x),same(y)))
def minval(e):
    e=strip_cast(e); k=const_num(e)
    if k is not None: return k
    if e[0]=="phi": return min([minval(z) for z in e[1]] or [0])
    if e[0]=="bin" and e[1]=="Add": return minval(e[2])+minval(e[3])
    if e[0]=="bin" and e[1]=="Mul": return minval(e[2])*minval(e[3])
    if e[0]=="bin" and e[1]=="Div" and const_num(e[3]): return minval(e[2])//const_num(e[3])
    if e[0]=="len": return minval(sized(e[1])) if sized(e[1]) is not None else low(e[1])
    return 0
def maxval(e):
    e=strip_cast(e); k=const_num(e)
    if k is not None: return k
    if e[0]=="phi":
        v=[maxval(z) for z in e[1]]; return None if None in v or not v else max(v)
    if e[0]=="bin" and e[1] in("Add","Mul"):
        a,b=maxval(e[2]),maxval(e[3]); return None if a is None or b is None else (a+b if e[1]=="Add" else a*b)
    if e[0]=="bin" and e[1] in("Div","Sub","BitAnd","Rem"): return maxval(e[2])
    if e[0]=="min":
        v=[maxval(z) for z in e[1:] if maxval(z) is not None]; return min(v) if v else None
    if e[0]=="len": return maxval(sized(e[1])) if sized(e[1]) is not None else (low(e[1]) if exact(e[1]) else None)
    return None
def ends(e):
    """the ways to say a length: itself, and with the length taken inside the alternatives"""
    e=strip_cast(e)
    out={repr(e)}
    if e[0]=="len" and strip_cast(e[1])[0]=="phi": out.add(repr(sorted(repr(("len",x)) for x in strip_cast(e[1])[1])))
    if e[0]=="phi": out.add(repr(sorted(repr(x) for x in e[1])))
    return out
def sized(e):
    """the length expression of a value made with that length"""
    e=strip_cast(e)
    if e[0]=="call" and last(e[1])=="from_elem": return e[2][1]
    if e[0]=="call" and last(e[1]) in("to_vec","to_owned","to_bytes") : return sized(e[2][0]) or ("len",e[2][0])
    if e[0]=="call" and last(e[1])=="split_to": return e[2][1]
    if e[0]=="f" and CALL(("split_at","split_at_mut"),anyx,anyx)(e[1]):
        c=strip_cast(e[1]); return c[2][1] if e[2]=="0" else ("bin","Sub",("len",c[2][0]),c[2][1])
    if e[0]=="call" and last(e[1]) in("index","index_mut"):
        g=strip_cast(e[2][1]); d=dict(g[3]) if g[0]=="agg" else {}
        if g[0]=="agg" and g[1].endswith("RangeTo"): return d["end"]
        if g[0]=="agg" and g[1].endswith("RangeFrom"): return ("bin","Sub",("len",e[2][0]),d["start"])
        if g[0]=="agg" and g[1].endswith("Range"):
            if const_num(d["start"])==0: return d["end"]
            t=addends(d["end"]); st=strip_cast(d["start"]); pos=[x for s_,x in t if s_>0]
            if all(s_>0 for s_,_ in t) and len(pos)==2 and st in [strip_cast(x) for x in pos]: return [x for x in pos if strip_cast(x)!=st][0]
            return ("bin","Sub",d["end"],d["start"])
    if e[0]=="call" and last(e[1])=="drain":
        g=strip_cast(e[2][1]); d=dict(g[3]) if g[0]=="agg" else {}
        if g[0]=="agg" and g[1].endswith("RangeTo"): return d["end"]
    if e[0]=="phi":
        v={repr(sized(x)):sized(x) for x in e[1]}; return list(v.values())[0] if len(v)==1 else None
    return None
def fits(r,n,D,k):
    """k (an expression) is at most the length of D at node n"""
    D=strip_cast(D); k=strip_cast(k)
    if D[0]=="phi" and sized(D) is None and len(D[1])>1: return le(r,n,k,("len",D)) or all(fits(r,n,x,k) for x in refine(r,n,D))
    return le(r,n,k,("len",D))
def at_most(r,n,b,a):
    """b <= a at node n, for a subtraction a-b"""
    a,b=strip_cast(a),strip_cast(b); kb=const_num(b)
    if le(r,n,b,a): return True
    if CALL("capacity",anyx)(a) and b==("len",a[2][0]): return True
    if kb is not None:
        def pos(x):
            if x[0]!="cmp": return False
            k1,k2=const_num(x[2]),const_num(x[3])
            if same(a)(x[3]) and k1 is not None: return (x[1]=="Le" and k1>=kb) or (x[1]=="Lt" and k1+1>=kb) or (x[1]=="Eq" and k1>=kb) or (x[1]=="Ne" and k1==0 and kb==1)
            if same(a)(x[2]) and k2 is not None: return (x[1]=="Eq" and k2>=kb) or (x[1]=="Ne" and k2==0 and kb==1)
            return False
        if guarded(r,n,pos): return True
    return False
def suffix(s,t):
    """s is t or what a reader left of it"""
    for _ in range(12):
        s=strip_cast(s)
        if s==strip_cast(t) or core_of(s)[0]=="loop": return True
        if s[0]=="phi": return all(suffix(x,t) or core_of(x)[0]=="loop" for x in s[1])
        if s[0]=="f" and s[2]=="1" and CALL("split_at",anyx)(s[1]): s=strip_cast(s[1])[2][0]; continue
        if s[0]=="f" and s[2]=="1":
            c=core_of(s)
            if c[0]=="call" and "decode" in c[1]: s=c[2][0]; continue
            if c[0]=="call" and last(c[1])=="from_bytes": s=c[2][0]; continue
        if s[0]=="call" and last(s[1])=="index" and strip_cast(s[2][1])[0]=="agg": s=s[2][0]; continue
        return False
    return False
SMALL=1<<31
def lenlike(e):
    """a length of something in memory, or small"""
    e=strip_cast(e); k=const_num(e)
    if k is not None: return 0<=k<SMALL
    if e[0]=="len": return True
    if e[0]=="bin" and e[1] in("Add",): return lenlike(e[2]) and lenlike(e[3])
    if e[0]=="bin" and e[1] in("Sub","Div","Rem","BitAnd","Shr"): return lenlike(e[2])
    if e[0]=="phi": return all(lenlike(x) or x[0]=="loop" for x in e[1])
    if e[0]=="min": return any(lenlike(x) for x in e[1:])
    if e[0]=="max": return all(lenlike(x) for x in e[1:])
    if maxval(e) is not None: return 0<=maxval(e)<SMALL
    if core_of(e)[0]=="call" and last(core_of(e)[1]) in("checked_sub","saturating_sub"): return lenlike(core_of(e)[2][0])
    if CALL(("saturating_sub","tag_size","iv_size","key_size","capacity","count"),anyx)(e): return True
    return False
def discharge(r,n,kind,ty=None):
    """how the site is known not to panic, or None"""
    if r.path(None,[n]) is None: return "unreachable"
    if n.kind=="assert":
        ops=[strip_cast(r.g.val(o,n.ctx,n.id,0)) for o in n.data[4]]
        if kind=="bounds":
            ln,i=ops; D=ln[1] if ln[0]=="len" else None; k=const_num(i); kl=const_num(ln)
            if k is not None and kl is not None: return "constant index" if k<kl else None
            if D is None: return None
            if k is not None and (low(D)>k or guarded(r,n,longer(D,k+1))): return "index below a checked length"
            if guarded(r,n,CMP("<",same(i),LEN(same(D)))): return "index compared with the length"
            return None
        if kind.startswith("overflow:Sub"): return "subtrahend compared" if at_most(r,n,ops[1],ops[0]) else None
        if kind.startswith("overflow:Add") or kind.startswith("overflow:Mul"):
            ks=[const_num(o) for o in ops]
            if all(k is not None for k in ks): return "constants"
            if kind.endswith("Add") and all(lenlike(o) for o in ops): return "sum of lengths in memory"
            m=[maxval(o) for o in ops]
            if None not in m and (m[0]+m[1] if kind.endswith("Add") else m[0]*m[1])<SMALL: return "bounded values"
            return None
        if kind.startswith("overflow:Sh"): return "constant shift" if const_num(ops[1]) is not None and 0<=const_num(ops[1])<8 else None
        if kind in("div0","rem0"):
            c=strip_cast(r.g.val(n.data[1],n.ctx,n.id,0)); d=[x for x in c[2:4] if not K(0)(x)] if c[0]=="bin" and c[1]=="Eq" else []
            if c[0]=="c": return "constant divisor"
            return "constant divisor" if len(d)==1 and const_num(d[0]) else None
        return None
    a=[strip_cast(x) for x in r.args(n)]; m=last(r.g.qual(n))
    if kind=="unwrap":
        v=a[0]; want=("Ok","Some") if m in("unwrap","expect") else ("Err","None")
        if guarded(r,n,IS(same(v),*want)): return "variant tested"
        if v[0]=="agg" and v[2] in want: return "known variant"
        if v[0]=="phi" and all(x[0]=="agg" and x[2] in want for x in v[1]): return "known variant"
        return None
    if kind=="index":
        g=a[1]
        if g[0]=="agg" and "Range" in g[1]:
            d={k:strip_cast(x) for k,x in g[3]}
            if g[1].endswith("RangeFull"): return "whole"
            if g[1].endswith("RangeTo"): return "end compared" if fits(r,n,a[0],d["end"]) else None
            if g[1].endswith("RangeFrom"): return "start compared" if fits(r,n,a[0],d["start"]) else None
            if g[1].endswith("Range"): return "range compared" if fits(r,n,a[0],d["end"]) and (const_num(d["start"])==0 or at_most(r,n,d["start"],d["end"])) else None
            return None
        k=const_num(g)
        if k is not None and (low(a[0])>k or guarded(r,n,longer(a[0],k+1))): return "index below a checked length"
        if guarded(r,n,CMP("<",same(g),LEN(same(a[0])))): return "index compared with the length"
        return None
    if m=="drain":
        g=a[1]; d={k:strip_cast(x) for k,x in g[3]} if g[0]=="agg" else {}
        if g[0]=="agg" and g[1].endswith("RangeFull"): return "whole"
        if g[0]=="agg" and g[1].endswith("RangeTo"): return "end compared" if fits(r,n,a[0],d["end"]) else None
        return None
    if kind=="cut" and any(x in r.g.qual(n) for x in SAFE_REMOVE): return "no index"
    if kind=="cut": return "length compared" if fits(r,n,a[0],a[1]) else None
    if m in("copy_from_slice","clone_from_slice"):
        x,y=a[0],a[1]
        if low(x)==low(y)>0 and exact(x) and exact(y): return "lengths equal"
        if sized(x) is not None and strip_cast(sized(x))==strip_cast(sized(y) or ("len",y)) or strip_cast(sized(y) or ("?",))==("len",x): return "lengths equal"
        if ends(sized(x) or ("len",x))&ends(sized(y) or ("len",y)): return "lengths equal"
        sx,sy=sized(x) or ("len",x),sized(y) or ("len",y)
        if guarded(r,n,CMP("==",same(sx),same(sy))): return "lengths compared"
        if guarded(r,n,CMP("==",OR(LEN(same(x)),KN(low(x)) if exact(x) else LEN(same(x))),OR(LEN(same(y)),KN(low(y)) if exact(y) else LEN(same(y))))): return "lengths compared"
        return None
    if kind=="get": return "enough bytes" if enough(r,n,a[0]) else None
    return None
def enough(r,n,src):
    """all reads of fixed width from `src` together stay within what it holds"""
    b=low(src); gets=[x for x in r.nodes("call") if x.extra is None and last(r.g.qual(x)) in WID and strip_cast(r.args(x)[0])==strip_cast(src)]
    if b==0:
        for m in range(64,0,-1):
            if all(guarded(r,x,longer(src,m)) for x in gets): b=m; break
    tot=0
    for x in gets:
        w=WID[last(r.g.qual(x))]
        if r.path([x],[x]) is not None:
            # in a loop over a fixed array
            k=[low(strip_cast(core_of(f[1])[2][0])) for nd in r.nodes("switch") for f in r.u.facts.of(nd.id) if f[0]=="is" and f[2]=={"Some"} and CALL("next",anyx)(core_of(f[1])) and low(core_of(f[1])[2][0])>0 and r.path([x],[x],avoid_edge=r.edge(lambda g,f=f: g==f)) is None]
            if not k: return False
            w*=min(k)
        tot+=w
    return 0<tot<=b
def label(b):
    ps=[x for x in b.qual.split("::") if not x.startswith("{closure")]
    return "::".join(ps[-2:]) if not b.qual.startswith("<") else b.qual.split(" as ")[0].split("::")[-1]+"::"+ps[-1]
def total(ck,rule,r,allow=None,only=None,where=None):
    """every panic site of r is discharged, or justified by `allow(r,node,kind,text)`"""
    k=0
    for n,kind,text in sites(r):
        if only and not only(n): continue
        why=discharge(r,n,kind) or (allow(r,n,kind,text) if allow else None); k+=1
        what="%s in %s"%(text if n.kind=="call" else text,n.body.name)
        ck.ob(rule,"%s: %s"%(label(r.body),what),why is not None,r.loc(n),"can panic: %s %s"%(text,", ".join(show(strip_cast(r.g.val(o,n.ctx,n.id,0)))[:80] for o in n.data[4]) if n.kind=="assert" else ", ".join(show(x)[:80] for x in r.args(n))))
    return k
