"""Sibling agreement of five tables: for every component kind the bytes written, the bytes read, the text read, the text printed and the owned copy are reconstructed
from the program (one analysis per kind, with every branch that contradicts the kind removed) and compared with each other through the published code and name of the
kind; dataflow rules decide that an address is exactly the concatenation of its components."""
import ast
from core import *
from sec import core_of,names_of,retvals,const_num,KN,under
CONFIGS=["molc"]
ASSUMES=["unsigned_varint, bs58 and the standard library's address types are inverse to themselves (encode/decode, format/parse)","bytes' put appends, put_u16/get_u16 are big endian"]
M="tentacle_multiaddr::"; PR=M+"protocol::Protocol::"
def mm(tr,name,own="Multiaddr"): return "<%s%s as %s>::%s"%(M,own,tr,name)
TAB={"DNS4":(54,"dns4","name"),"DNS6":(55,"dns6","name"),"IP4":(4,"ip4","ip4"),"IP6":(41,"ip6","ip6"),"P2P":(421,"p2p","bytes"),"TCP":(6,"tcp","port"),"TLS":(448,"tls","name"),"Ws":(477,"ws","none"),"Wss":(478,"wss","none")}
VARINT=("encode::u32","encode::u64","encode::usize","encode::u16","encode::u128","encode::u8")
DECINT=("decode::u32","decode::u64","decode::usize")
APP=("put","put_slice","extend_from_slice","put_u8","put_u16","put_u32","put_u64","put_u128","put_u16_le","put_u32_le","put_u128_le","put_i16","put_bytes","push","extend","write_all","copy_from_slice","resize","append")
def bare(e):
    """through a full-range index, a reference to an owned or borrowed wrapper, a copy"""
    e=strip_cast(e)
    while True:
        if e[0]=="call" and last(e[1]) in("index","index_mut") and strip_cast(e[2][1])[0]=="agg" and strip_cast(e[2][1])[1].endswith("RangeFull"): e=strip_cast(e[2][0])
        elif e[0]=="agg" and e[1].endswith("Cow"): e=strip_cast(dict(e[3])["0"])
        elif e[0]=="call" and last(e[1]) in("into_owned","to_owned","to_vec","as_bytes","as_slice","as_str","to_string","into_iter","iter","freeze","into_bytes"): e=strip_cast(e[2][0])
        else: return e
def seqs(r,sel,states):
    """the sequences of selected nodes along the paths to the given states; a node repeated by a loop is followed by a '*'"""
    ids={n.id for n in sel}; out=set(); seen=set(); st=[(r.u.start,())]
    while st:
        s,q=st.pop(); nid=r.u.states[s][0]
        if nid in ids:
            if nid in q: q=q if q[-1]=="*" else (q+("*",) if q[-1]==nid else q+("again",)*(q[-1]!="again"))
            else: q=q+(nid,)
        if (s,q) in seen: continue
        seen.add((s,q))
        if len(seen)>200000: return {("unknown",)}
        if s in states: out.add(q)
        for d,_ in r.u.succ[s]: st.append((d,q))
    return out
def payload(v): return lambda e: (lambda x: x[0]=="f" and x[1][0]=="d" and x[1][2]==v and P(1)(x[1][1]))(bare(e))
def variants(ck):
    a=ck.p.adts.get(M+"protocol::Protocol"); return {x[0] for x in a["variants"]} if a else set()
def kinds(ck):
    vs=variants(ck); ck.ob("tables","the kinds",vs==set(TAB),"multiaddr/src/protocol.rs","component kinds without a known code and name: %s"%sorted(vs^set(TAB)))
def write(ck):
    for v,(code,_,kind) in TAB.items():
        r=ck.root(PR+"write_to_bytes",assume=under(SELF,v)); ex=r.exits(); w=P(2); pl=payload(v)
        ap=[n for n in r.calls(*APP) if r.args(n) and w(r.args(n)[0])]
        isc=lambda e: CALL(VARINT,KN(code))(e); cyc={n.id for n in ap if r.path([n],[n]) is not None}
        for q in seqs(r,ap,ex) or {()}:
            it=[r.g.nodes[x] if isinstance(x,int) else x for x in q]; nodes=[n for n in it if not isinstance(n,str)]
            val=[bare(r.args(n)[1]) for n in nodes]; nm=[last(r.g.qual(n)) for n in nodes]
            ok=bool(nodes) and isc(val[0]) and nm[0] in("put","put_slice","extend_from_slice")
            ck.ob("tables","%s writes its code"%v,ok,r.body.span,"%s begins with %s instead of code %d"%(v,[show(x)[:40] for x in val[:1]],code))
            rest=list(zip(nm[1:],val[1:])); loop=bool(cyc&set(q))
            if cyc and not loop and len(q)==1: continue # the loop not entered: decided below
            d="again" in q or "unknown" in q
            pad=len(rest)
            if kind=="none": ok=not rest and not loop
            elif kind in("name","bytes"): ok=pad==2 and not loop and CALL(VARINT,LEN(lambda e: pl(e)))(rest[0][1]) and pl(rest[1][1]) and rest[1][0] in("put","put_slice","extend_from_slice")
            elif kind=="ip4": ok=pad==1 and not loop and ((CALL("octets",pl)(rest[0][1]) and rest[0][0] in("put","put_slice","extend_from_slice")) or (rest[0][0]=="put_u32" and has(rest[0][1],pl)))
            elif kind=="ip6":
                e=rest[0][1] if rest else ("?",)
                ok=pad==1 and ((loop and rest[0][0]=="put_u16" and CALL("next",lambda x: CALL("segments",pl)(bare(x)))(core_of(e))) or (loop and rest[0][0]=="put_u8" and CALL("next",lambda x: CALL("octets",pl)(bare(x)))(core_of(e)))
                  or (not loop and CALL("octets",pl)(e) and rest[0][0] in("put","put_slice","extend_from_slice")) or (not loop and rest[0][0]=="put_u128" and has(e,pl)))
            else: ok=pad==1 and not loop and ((rest[0][0]=="put_u16" and pl(rest[0][1])) or (CALL("to_be_bytes",pl)(rest[0][1]) and rest[0][0] in("put","put_slice","extend_from_slice")))
            ck.ob("tables","%s writes its value"%v,ok and not d,r.body.span,"after the code of %s the bytes are %s"%(v,["%s %s"%(a,show(x)[:50]) for a,x in rest]))
            p=None
            if loop and ok:
                p=r.path(None,ex,avoid_edge=r.edge(IS(lambda e: CALL("next",anyx)(core_of(e)),"None"))); ck.ob("tables","%s writes all of its value"%v,p is None,r.body.span,"the value is cut short",r.trail(p))
                so=r.after_edges(r.edges_where(IS(lambda e: CALL("next",anyx)(core_of(e)),"Some"))); p=r.path_from(so,set(r.states_of(r.calls("next"))),avoid=nodes[1:]); ck.ob("tables","%s writes every part"%v,p is None,r.body.span,"a part of the value is skipped",r.trail(p))
def cut(e):
    """(bytes, n, side) of a slice of the first n bytes or of what follows them"""
    e=strip_cast(e)
    if e[0]=="f" and CALL("split_at",anyx,anyx)(e[1]): c=strip_cast(e[1]); return (strip_cast(c[2][0]),strip_cast(c[2][1]),int(e[2]))
    if e[0]=="call" and last(e[1])=="index":
        g=strip_cast(e[2][1]); b=strip_cast(e[2][0])
        if g[0]=="agg" and g[1].endswith("RangeTo"): return (b,strip_cast(dict(g[3])["end"]),0)
        if g[0]=="agg" and g[1].endswith("RangeFrom"): return (b,strip_cast(dict(g[3])["start"]),1)
    return (None,None,None)
def split_ok(d,rest,what):
    a=cut(d); b=cut(rest)
    return a[2]==0 and b[2]==1 and a[:2]==b[:2] and what(a[0],a[1])
def lossless(ck,rule,inst,r,vals):
    bad=[v for v in vals if v[0]!="agg" and not(v[0]=="call")]; return not bad
def oks(r): return [dict(v[3])["0"] for v in retvals(r) if v[0]=="agg" and v[2]=="Ok"]
def read(ck):
    code_=lambda e: CALL(DECINT,P(1))(core_of(e)) and names_of(e)==["0"]; after=lambda e: CALL(DECINT,P(1))(core_of(e)) and names_of(e)==["1"]
    allc={c for c,_,_ in TAB.values()}
    for v,(code,_,kind) in TAB.items():
        def no(f): return f[0]=="cmp" and ((f[1]=="Eq" and any(code_(a) and const_num(b) in allc-{code} for a,b in((f[2],f[3]),(f[3],f[2])))) or (f[1]=="Ne" and any(code_(a) and const_num(b)==code for a,b in((f[2],f[3]),(f[3],f[2])))))
        r=ck.root(PR+"from_bytes",assume=no); vs=[x for o in oks(r) for x in alts(o)]
        ck.floor("tables","code %d is read"%code,len(vs),1,r.body.span)
        for o in vs:
            o=strip_cast(o); d=dict(o[3]) if o[0]=="agg" else {}; p=strip_cast(d.get("0",("?",))); rest=d.get("1",("?",))
            ok=p[0]=="agg" and p[2]==v; ck.ob("tables","code %d is %s"%(code,v),ok,r.body.span,"code %d is read as %s"%(code,show(p)[:40]))
            if not ok: continue
            x=dict(p[3]).get("0"); body=lambda n: lambda b,k: after(b) and const_num(k)==n
            lens=lambda b,k: CALL(DECINT,after)(core_of(b)) and core_of(b)==core_of(k) and names_of(b)==["1"] and names_of(k)==["0"]
            if kind=="none": ok=after(rest)
            elif kind=="name": y=bare(x); ok=CALL(("from_utf8",),anyx)(core_of(y)) and split_ok(bare(core_of(y)[2][0]),rest,lens)
            elif kind=="bytes": ok=split_ok(bare(x),rest,lens)
            else:
                n={"ip4":4,"ip6":16,"port":2}[kind]; b=cut(rest); ok=b[2]==1 and after(b[0]) and const_num(b[1])==n; data=lambda e: cut(bare(e))==(b[0],b[1],0)
                cur=lambda e: data(e) or CALL("new",data)(e) or CALL("from",data)(e)
                x=strip_cast(x)
                if kind=="port": ok=ok and (CALL("get_u16",cur)(x) or (CALL("from_be_bytes",anyx)(x) and in_order(x[2][0],data,2)))
                elif kind=="ip4": ok=ok and ((CALL("Ipv4Addr::new",anyx)(x) and all(idxat(a,data,i) for i,a in enumerate(x[2]))) or (has(x,cur) and CALL("from",anyx)(x)) or CALL("get_u32",cur)(x) or in_order(x,data,4))
                else: ok=ok and ip6(ck,r,x,data,cur)
            ck.ob("tables","%s is read as written"%v,ok,r.body.span,"the value of %s is read as %s, leaving %s"%(v,show(p)[:120],show(rest)[:60]))
    def unk(f): return f[0]=="cmp" and f[1]=="Eq" and any(code_(a) and const_num(b) in allc for a,b in((f[2],f[3]),(f[3],f[2])))
    r=ck.root(PR+"from_bytes",assume=unk); ck.ob("tables","no other code is read",not oks(r),r.body.span,"another code is read as %s"%[show(x)[:60] for x in oks(r)])
def idxat(e,data,i):
    e=strip_cast(e); return e[0]=="idx" and data(e[1]) and const_num(e[2])==i or CALL("index",data,KN(i))(e)
def in_order(e,data,n):
    e=bare(e); return e[0]=="agg" and len(e[3])==n and all(idxat(a,data,i) for i,(_,a) in enumerate(e[3]))
def ip6(ck,r,x,data,cur):
    if CALL("from",anyx)(x) and has(x,data): return True
    if not CALL("Ipv6Addr::new",anyx)(x) or len(x[2])!=8: return False
    arr={strip_cast(strip_cast(a)[1]) if strip_cast(a)[0]=="idx" else None for a in x[2]}
    if len(arr)!=1 or None in arr or [const_num(strip_cast(a)[2]) for a in x[2]]!=list(range(8)): return all(CALL("get_u16",cur)(a) for a in x[2]) if None in arr else False
    arr=list(arr)[0]
    # the eight groups: filled in order by a loop over the array, each from the next two bytes
    ws=[n for n in r.nodes("assign") if CALL("get_u16",cur)(r.value(n)) and n.data[0][1]]
    gets=[n for n in r.calls("get_u16") if cur(r.args(n)[0])]
    nx=[n for n in r.calls("next") if bare(r.args(n)[0])==arr or has(r.args(n)[0],lambda e: strip_cast(e)==arr)]
    if not gets or not nx: return False
    so=r.after_edges(r.edges_where(IS(lambda e: CALL("next",lambda a: has(a,lambda e: strip_cast(e)==arr))(core_of(e)),"Some")))
    use=r.calls("Ipv6Addr::new"); none=IS(lambda e: CALL("next",anyx)(core_of(e)),"None")
    return bool(so) and r.path_from(so,set(r.states_of(nx)),avoid=gets) is None and r.path(None,use,avoid_edge=r.edge(none)) is None and not any(CALL("rev",anyx)(y) for n in nx for y in subs(r.args(n)[0]))
def subs(e):
    out=[e]
    for x in e:
        if isinstance(x,tuple):
            if x and isinstance(x[0],str): out+=subs(x)
            else: out+=[z for y in x if isinstance(y,tuple) for z in subs(y)]
    return out
def text_in(ck):
    names={n for _,n,_ in TAB.values()}
    def cst(e): e=strip_cast(e); return e[1] if e[0]=="c" and isinstance(e[1],str) else None
    def root(nm):
        def no(f): return f[0]=="cmp" and ((f[1]=="Eq" and any(cst(a) is not None and cst(a)!=nm for a in f[2:4])) or (f[1]=="Ne" and any(cst(a)==nm for a in f[2:4])))
        return ck.root(PR+"from_str_peek",assume=no,sited=("next",))
    for v,(_,nm,kind) in TAB.items():
        r=root(nm); vs=[x for o in oks(r) for x in alts(o)]; ck.floor("tables","name %s is read"%nm,len(vs),1,r.body.span)
        nx=r.calls("next"); ex=r.exits(lambda a: a is None or a[1]!="Err")
        for q in seqs(r,nx,ex) or {()}: ck.ob("tables","%s takes %d parts"%(nm,1 if kind=="none" else 2),len(q)==(1 if kind=="none" else 2),r.body.span,"%s takes %d parts of the text"%(nm,len(q)))
        first=[n for n in nx if r.path(None,[n],avoid=[m for m in nx if m is not n]) is not None]
        fv=[strip_cast(r.g.callval(n,0)) for n in first]
        for o in vs:
            p=strip_cast(o); ok=p[0]=="agg" and p[2]==v; ck.ob("tables","name %s is %s"%(nm,v),ok,r.body.span,"%s is read as %s"%(nm,show(p)[:40]))
            if not ok or kind=="none": continue
            part=lambda e: (lambda c: CALL("next",P(1))(c) and strip_cast(c) not in fv)(core_of(bare(e)))
            x=bare(dict(p[3])["0"])
            ok=part(x) if kind=="name" else CALL(("from_str","parse"),part)(core_of(x)) if kind in("ip4","ip6","port") else CALL("into_vec",CALL("bs58::decode",part))(core_of(x)) or CALL("into_vec",CALL("decode",part))(core_of(x))
            ck.ob("tables","%s is read from its text"%v,ok,r.body.span,"the value of %s is %s"%(v,show(x)[:100]))
    r=ck.root(PR+"from_str_peek",assume=lambda f: f[0]=="cmp" and f[1]=="Eq" and any(cst(a) in names for a in f[2:4]))
    ck.ob("tables","no other name is read",not oks(r),r.body.span,"another name is read as %s"%[show(x)[:60] for x in oks(r)])
def tokens(r,n,w):
    """what a write into the formatter prints: literals and values"""
    nm=last(r.g.qual(n)); a=[strip_cast(x) for x in r.args(n)]
    if nm in("write_str","pad") and w(a[0]): return [a[1][1]] if a[1][0]=="c" and isinstance(a[1][1],str) else [a[1]]
    if nm=="write_char" and w(a[0]): return [chr(a[1][1])] if a[1][0]=="c" and isinstance(a[1][1],int) else [a[1]]
    if nm=="fmt": return [a[0]]
    if nm in("write_fmt","fmt::write"):
        g=strip_cast(a[1])
        if g[0]=="call" and last(g[1]) in("from_str","new_const"): c=strip_cast(g[2][0]); return [c[1]] if c[0]=="c" and isinstance(c[1],str) else [("?",)]
        if g[0]=="call" and last(g[1]) in("new","new_v1"):
            t=strip_cast(g[2][0]); args=strip_cast(g[2][1]); raw=t[1] if t[0]=="c" else ast.literal_eval(t[2]) if t[0]=="c0" and t[2].startswith("b\"") else None
            if not isinstance(raw,(bytes,bytearray)) or args[0]!="agg": return [("?",)]
            out=[];i=0;k=0; vals=[strip_cast(x) for _,x in args[3]]
            while i<len(raw) and raw[i]:
                if raw[i]<0x80: out.append(raw[i+1:i+1+raw[i]].decode()); i+=1+raw[i]
                elif raw[i]==0xc0:
                    x=vals[k] if k<len(vals) else ("?",); k+=1; i+=1
                    out.append(strip_cast(x[2][0]) if CALL("new_display",anyx)(x) else ("?",))
                else: return [("?",)]
            return out
    return [("?",)]
def text_out(ck):
    D=mm("core::fmt::Display","fmt","protocol::Protocol")
    for v,(_,nm,kind) in TAB.items():
        r=ck.root(D,assume=under(SELF,v)); w=P(2); pl=payload(v)
        ns=[n for n in r.calls("write_fmt","write_str","write_char","pad","fmt","write") if any(w(a) for a in r.args(n)[:2]) and not(last(r.g.qual(n))=="fmt" and n.body.name!="fmt")]
        ex=r.exits(lambda a: a is None or a[1]!="Err")
        for q in seqs(r,ns,ex) or {()}:
            toks=[]
            for x in q: toks+=tokens(r,r.g.nodes[x],w) if isinstance(x,int) else [("?",)]
            out=[]
            for t in toks:
                if isinstance(t,str) and out and isinstance(out[-1],str): out[-1]+=t
                else: out.append(t)
            if kind=="none": ok=out==["/"+nm]
            else:
                ok=len(out)==2 and out[0]=="/%s/"%nm and (pl(out[1]) if kind!="bytes" else CALL("into_string",CALL("bs58::encode",pl))(out[1]) or CALL("into_string",CALL("encode",pl))(out[1]))
            ck.ob("tables","%s is printed as it is read"%v,ok,r.body.span,"%s is printed as %s"%(v,[t if isinstance(t,str) else show(t)[:60] for t in out]))
def owned(ck):
    for v,(_,_,kind) in TAB.items():
        r=ck.root(PR+"acquire",assume=under(SELF,v)); vs=retvals(r); ck.floor("tables","%s kept by a copy"%v,len(vs),1,r.body.span)
        for x in vs: ck.ob("tables","%s kept by a copy"%v,x[0]=="agg" and x[2]==v and (kind=="none" or payload(v)(dict(x[3])["0"])) or P(1)(x),r.body.span,"an owned copy of %s is %s"%(v,show(x)[:80]))
    n=0
    for b in ck.p.bodies.values():
        if b.name!="from" or "tentacle_multiaddr::protocol::Protocol as core::convert::From>" not in b.qual: continue
        r=ck.root(b); t=str(b.locals[1]); n+=1
        for x in retvals(r):
            y=strip_cast(dict(x[3])["0"]) if x[0]=="agg" and x[3] else ("?",)
            want={"V4":"IP4","V6":"IP6"}
            if y==("p",1): ok=x[2]==("IP6" if "Ipv6" in t else "IP4")
            else: ok=y[0]=="f" and y[1][0]=="d" and want.get(y[1][2])==x[2] and P(1)(y[1][1])
            ck.ob("tables","address family kept",ok,b.span,"%s becomes %s"%(t,show(x)[:60]))
    ck.floor("tables","conversions from IP addresses",n,3)
OP=("from_bytes","write_to_bytes","from_str_peek","fmt","try_from","acquire","next_element")
BY="Multiaddr.bytes"
def writes_to(r,obj): return [n for n in r.calls("write_to_bytes") if strip_cast(r.args(n)[1])==strip_cast(obj)]
def appended(ck,rule,inst,r,obj,comps,use,base=()):
    """`obj`, used at the nodes `use`, holds the written forms of `comps` and nothing else (after the nodes of `base`)"""
    ap=[n for n in r.calls(*APP,"clear","truncate","split_to","advance","insert","remove","reverse","split_off","swap") if r.args(n) and strip_cast(r.args(n)[0])==strip_cast(obj)]
    ap=[n for n in ap if n not in base]
    ck.ob(rule,inst+": only components",not ap,r.loc(ap[0]) if ap else r.body.span,"other bytes are mixed into the address")
    ws=writes_to(r,obj); ck.floor(rule,inst+": components written",len(ws),1,r.body.span)
    for n in ws: ck.ob(rule,inst+": the component itself",comps(r.args(n)[0]),r.loc(n),"%s is written"%show(r.args(n)[0])[:80])
    return ws
def onevalue(e): return len(alts(e))==1
def old_bytes(e): return fld(BY)(bare(e)) and SELF(strip_cast(bare(e))[1])
def ops(ck):
    r=ck.root(M+"Multiaddr::push",opaque=OP); w=r.writes(BY); ck.floor("components","push",len(w),1,r.body.span)
    old=old_bytes
    for n in w:
        o=r.value(n); base=[c for c in r.calls("copy_from_slice","extend_from_slice","put","put_slice","extend") if strip_cast(r.args(c)[0])==strip_cast(o) and old(r.args(c)[1])]
        ws=appended(ck,"components","push",r,o,P(2),[n],base)
        have=old(o) or CALL(("to_vec","from"),old)(o)
        p=None if have else r.path(None,ws,avoid=base); ck.ob("components","push keeps what was there",p is None,r.loc(n),"the old components are lost",r.trail(p))
        p=r.path(None,[n],avoid=ws) or r.path(ws,ws); ck.ob("components","push adds one component",p is None,r.loc(n),"the component is added not exactly once",r.trail(p))
        p=r.path(ws,base) or r.path(base,base); ck.ob("components","push adds at the end",p is None,r.loc(n),"the old components follow the new one",r.trail(p))
        for c in r.calls("set_len"): ck.ob("components","push length",LEN(lambda e: old(e))(r.args(c)[1]),r.loc(c),"the copy is %s long"%show(r.args(c)[1])[:40])
    p=r.path(None,r.exits(),avoid=w); ck.ob("components","push takes effect",p is None,r.body.span,"the address is left as it was",r.trail(p))
    # pop
    r=ck.root(M+"Multiaddr::pop",opaque=OP); t=[n for n in r.calls("truncate","split_off","split_to","slice") if fld(BY)(r.args(n)[0])]+r.writes(BY); ck.floor("components","pop",len(t),1,r.body.span)
    fb=r.calls("from_bytes"); ck.floor("components","pop reads",len(fb),1,r.body.span)
    start=lambda e: old(e); rest=lambda e: CALL("from_bytes",anyx)(core_of(e)) and names_of(e)==["1"]
    loopv=lambda e: strip_cast(e)[0]=="loop"
    cur=lambda e: (lambda a: all(start(x) or rest(x) or loopv(x) for x in a) and any(start(x) or loopv(x) for x in a))(alts(e))
    lastc=CMP("==",LEN(rest),K(0))
    for n in fb: ck.ob("components","pop walks the address",cur(r.args(n)[0]),r.loc(n),"components are read from %s"%show(r.args(n)[0])[:80])
    for n in t:
        a=r.args(n) if n.kind=="call" else ("?",); ok=n.kind=="call" and last(r.g.qual(n)) in("truncate","split_off") and SUM([LEN(old)],[LEN(cur)])(a[1])
        ck.ob("components","pop cuts the last component",ok,r.loc(n),"the address is cut to %s"%show(a[-1])[:100])
        p=r.path(None,[n],avoid_edge=r.edge(lastc)); ck.ob("components","pop cuts at the end",p is None,r.loc(n),"a component that is not the last is removed",r.trail(p))
    kept=[x for n in r.nodes() if n.ctx==0 and n.kind=="assign" and n.data[0]==[0,[]] for x in alts(r.value(n)) if strip_cast(x)[0]=="agg" and strip_cast(x)[2]=="Some"]
    for x in kept: ck.ob("components","pop returns it",all(CALL("acquire",lambda e: CALL("from_bytes",anyx)(core_of(e)) and names_of(e)==["0"])(y) for y in alts(dict(strip_cast(x)[3])["0"])),r.body.span,"pop returns %s"%show(x)[:80])
    ck.floor("components","pop results",len(kept),1,r.body.span)
    so=[s for s in r.exits(lambda a: a is None or a[1]!="None")]; p=r.path(None,set(so),avoid=t); ck.ob("components","pop removes",p is None,r.body.span,"a component is returned but stays",r.trail(p))
    emp=CMP("==",LEN(old),K(0)); em=r.after_edges(r.edges_where(emp)); p=r.path(None,set(r.exits(lambda a: a is not None and a[1]=="None")),avoid_edge=r.edge(lambda f: emp(f))); ck.ob("components","pop of a filled address",p is None and bool(em),r.body.span,"a filled address yields nothing",r.trail(p))
    # iteration
    for q in(M+"Multiaddr::iter","<&'a %sMultiaddr as core::iter::traits::collect::IntoIterator>::into_iter"%M):
        b=[x for x in ck.p.bodies.values() if x.qual==q or ("into_iter" in q and x.name=="into_iter" and "Multiaddr" in x.qual)]
        ck.floor("components","iterators",len(b),1)
        for x in b:
            r=ck.root(x)
            for v in retvals(r): ck.ob("components","iteration starts at the first component",v[0]=="agg" and old(dict(v[3])["0"]),x.span,"iteration runs over %s"%show(v)[:60])
    r=ck.root(mm("core::iter::traits::iterator::Iterator","next","Iter"),opaque=OP); data=fld("Iter.0")
    empty=CMP("==",LEN(data),K(0)); w=r.writes("Iter.0"); ck.floor("components","iteration advances",len(w),1,r.body.span)
    so=r.exits(lambda a: a is None or a[1]!="None"); no=r.exits(lambda a: a is not None and a[1]=="None")
    p=r.path(None,set(no),avoid_edge=r.edge(empty)); ck.ob("components","iteration ends at the end",p is None,r.body.span,"iteration stops before the end",r.trail(p))
    for n in w: ck.ob("components","iteration advances by one component",CALL("from_bytes",data)(core_of(r.value(n))) and names_of(r.value(n))==["1"],r.loc(n),"iteration goes on with %s"%show(r.value(n))[:60])
    p=r.path(None,set(so),avoid=w) or r.path(w,w); ck.ob("components","iteration advances once",p is None,r.body.span,"a component is seen again or skipped",r.trail(p))
    for v in retvals(r):
        if v[2:3]==("Some",): ck.ob("components","iteration yields the component",CALL("from_bytes",data)(core_of(dict(v[3])["0"])) and names_of(dict(v[3])["0"])==["0"],r.body.span,"iteration yields %s"%show(v)[:60])
        else: ck.ob("components","iteration result",v[2:3]==("None",),r.body.span,"iteration yields %s"%show(v)[:60])
    # builders
    for q,src,comp,inst in((mm("core::iter::traits::collect::FromIterator","from_iter"),"next",lambda e: CALL("next",P(1))(core_of(e)),"collect"),
      (mm("core::str::traits::FromStr","from_str"),"from_str_peek",lambda e: CALL("from_str_peek",anyx)(core_of(e)),"parse")):
        r=ck.root(q,opaque=OP); ag=r.aggs("Multiaddr"); ck.floor("components",inst,len(ag),1,r.body.span)
        for n in ag:
            o=dict(r.agg_value(n)[3])["bytes"]; fresh=CALL(("BytesMut::new","BytesMut::with_capacity","Vec::new","Vec::with_capacity"))(o); ck.ob("components",inst+" starts empty",fresh,r.loc(n),"the address starts as %s"%show(o)[:60])
            each=lambda e: strip_cast(e)[0]=="elem" and last(strip_cast(e)[1]) in("for_each","try_for_each") and P(1)(bare(strip_cast(e)[2]))
            ws=appended(ck,"components",inst,r,o,OR(comp,each),[n])
            if ws and all(each(r.args(x)[0]) for x in ws):
                c=ck.root(ws[0].body,opaque=OP); wc=c.calls("write_to_bytes"); p=c.path(None,c.exits(),avoid=wc) or c.path(wc,wc)
                ck.ob("components",inst+" keeps every component",p is None,r.loc(n),"a component is not written exactly once",c.trail(p)); continue
            so=r.after_edges(r.edges_where(IS(lambda e: CALL(src,anyx)(core_of(e)) and core_of(e)==strip_cast(e),"Some","Ok"))); ck.floor("components",inst+" produces",len(so),1,r.body.span)
            nxt=r.calls(src)
            p=r.path_from(so,set(r.states_of(nxt+[n])),avoid=ws); ck.ob("components",inst+" keeps every component",p is None,r.loc(n),"a component is left out",r.trail(p))
            p=r.path(ws,ws,avoid=nxt); ck.ob("components",inst+" writes each once",p is None,r.loc(n),"a component is written twice",r.trail(p))
            end=IS(lambda e: CALL(("next","peek"),anyx)(core_of(e)),"None")
            p=r.path(None,[n],avoid_edge=r.edge(end)); ck.ob("components",inst+" uses up its input",p is None,r.loc(n),"the rest of the input is ignored",r.trail(p))
    r=ck.root(mm("core::str::traits::FromStr","from_str"),opaque=OP)
    for n in r.calls("from_str_peek"): ck.ob("components","parse: the parts of the text",has(r.args(n)[0],lambda e: CALL("split",P(1),K(47))(e)),r.loc(n),"text is split as %s"%show(r.args(n)[0])[:60])
    nx=r.calls("next"); p=r.path(None,r.calls("from_str_peek"),avoid=nx) or r.path(nx,nx); ck.ob("components","parse: the leading slash",p is None and bool(nx),r.body.span,"the text is not read from its first component",r.trail(p))
    lead=r.edges_where(CMP("==",lambda e: AGG("Option","Some")(e) and K("")(dict(strip_cast(e)[3])["0"]),CALL("next",anyx))) or r.edges_where(CMP("==",lambda e: CALL("next",anyx)(core_of(e)),K("")))
    ok=bool(lead) and r.path(None,r.aggs("Multiaddr"),avoid_edge=lambda a,i: (a,i) in set(lead)) is None; ck.ob("components","parse: must start with a slash",ok,r.body.span,"a text without leading slash is accepted")
    fr=[b for b in ck.p.bodies.values() if b.name=="from" and "Multiaddr as core::convert::From>" in b.qual]; ck.floor("components","conversions",len(fr),4)
    for b in fr:
        r=ck.root(b,opaque=("write_to_bytes",))
        ag=r.aggs("Multiaddr"); into=[v for v in retvals(r) if not AGG("Multiaddr")(v)]; ck.floor("components","conversion",len(ag)+len(into),1,b.span)
        for v in into: # handed to another conversion, which its type selects
            y=v if v[0]!="agg" else strip_cast(dict(v[3]).get("0",("?",))); ok=(y==("p",1) and (v[0]!="agg" or v[2]==("IP6" if "Ipv6" in str(b.locals[1]) else "IP4"))) or (y[0]=="f" and y[1][0]=="d" and P(1)(y[1][1]) and (v[0]!="agg" or v[2]=={"V4":"IP4","V6":"IP6"}.get(y[1][2])))
            ck.ob("components","conversion of an address family",ok,b.span,"%s becomes %s"%(b.locals[1],show(v)[:60]))
        for n in ag:
            o=dict(r.agg_value(n)[3])["bytes"]; t=str(b.locals[1])
            fam={"V4":"IP4","V6":"IP6"}
            def comp(e):
                e=strip_cast(e)
                if P(1)(e): return "Protocol" in t
                return e[0]=="agg" and all((lambda y: (P(1)(y) and x[2]==("IP6" if "Ipv6" in t else "IP4")) or (y[0]=="f" and y[1][0]=="d" and fam.get(y[1][2])==x[2]))(strip_cast(dict(x[3])["0"])) for x in [e])
            ws=appended(ck,"components","conversion",r,o,lambda e: all(comp(x) for x in alts(e)),[n])
            p=r.path(None,[n],avoid=ws) or r.path(ws,ws); ck.ob("components","conversion writes once",p is None,b.span,"the component is written not exactly once",r.trail(p))
    # replace
    r=ck.root(M+"Multiaddr::replace",opaque=OP); ag=r.aggs("Multiaddr"); ck.floor("components","replace",len(ag),1,r.body.span)
    item=lambda i: lambda e: CALL("next",lambda a: CALL("enumerate",anyx)(a) and has(a,fld(BY)))(core_of(e)) and names_of(e)==[str(i)]
    new=lambda e: CALL(("call_once","call","call_mut"),anyx)(core_of(e)) and names_of(e)==[] and core_of(e)!=strip_cast(e)
    for n in ag:
        o=dict(r.agg_value(n)[3])["bytes"]; ws=appended(ck,"components","replace",r,o,OR(item(1),new),[n])
        wn=[x for x in ws if new(r.args(x)[0])]; wo=[x for x in ws if x not in wn]
        at=CMP("==",item(0),P(2)); nat=CMP("!=",item(0),P(2))
        p=r.path(None,wn,avoid_edge=r.edge(at)); ck.ob("components","replace at the position",p is None,r.loc(n),"another component is replaced",r.trail(p))
        sa=r.after_edges(r.edges_where(at)); sn=r.after_edges(r.edges_where(nat)); nx=r.calls("next")
        p=r.path_from(sa,set(r.states_of(wo)),avoid=nx); ck.ob("components","replaced component goes",p is None,r.loc(n),"the replaced component stays",r.trail(p))
        p=r.path_from(sa,set(r.states_of(nx+[n])),avoid=wn); ck.ob("components","replacement written",p is None,r.loc(n),"the replacement is not written",r.trail(p))
        p=r.path_from(sn,set(r.states_of(nx+[n])),avoid=wo); ck.ob("components","other components stay",p is None and bool(sn),r.loc(n),"a component that is not replaced is lost",r.trail(p))
        p=r.path(ws,ws,avoid=nx); ck.ob("components","replace writes each once",p is None,r.loc(n),"a component is written twice",r.trail(p))
        p=r.path(None,[n],avoid_edge=r.edge(IS(lambda e: CALL("next",anyx)(core_of(e)),"None"))); ck.ob("components","replace keeps the tail",p is None,r.loc(n),"the components after the replaced one are lost",r.trail(p))
    for n in r.calls("call_once","call","call_mut"): ck.ob("components","replace shows the component",has(r.args(n)[1],item(1)),r.loc(n),"the function sees %s"%show(r.args(n)[1])[:60])
    for n in r.calls("enumerate"): ck.ob("components","replace counts from the first",AGG("Iter")(r.args(n)[0]),r.loc(n),"positions are counted over %s"%show(r.args(n)[0])[:60])
    for q,want in((M+"Multiaddr::to_vec",old),(mm("core::convert::AsRef","as_ref"),old),(M+"Multiaddr::len",LEN(old))):
        r=ck.root(q); vs=retvals(r); ck.floor("components",q,len(vs),1)
        for v in vs: ck.ob("components",q.split("::")[-1],want(v) or CALL(("from","to_vec"),want)(v),r.body.span,"%s is %s"%(q,show(v)[:60]))
def text(ck):
    r=ck.root(mm("core::fmt::Display","fmt"),opaque=("from_bytes","next"))
    it=lambda e: CALL("next",lambda a: has(a,fld(BY)))(core_of(e)); w=P(2)
    pr=[n for n in r.calls("fmt","write_fmt","write_str","pad") if len(r.args(n))==2 and any(w(a) for a in r.args(n))]; ck.floor("text","components printed",len(pr),1,r.body.span)
    for n in pr:
        t=tokens(r,n,w) if last(r.g.qual(n))!="fmt" else [strip_cast(r.args(n)[0])]
        ck.ob("text","each component as printed by itself",len(t)==1 and not isinstance(t[0],str) and it(bare(t[0])) ,r.loc(n),"an address is printed as %s"%[x if isinstance(x,str) else show(x)[:60] for x in t])
    so=r.after_edges(r.edges_where(IS(lambda e: it(e) and core_of(e)==strip_cast(e),"Some"))); nx=r.calls("next"); ok=r.exits(lambda a: a is None or a[1]!="Err")
    p=r.path_from(so,set(r.states_of(nx))|set(ok),avoid=pr); ck.ob("text","every component printed",p is None and bool(so),r.body.span,"a component is not printed",r.trail(p))
    p=r.path(pr,pr,avoid=nx); ck.ob("text","printed once",p is None,r.body.span,"a component is printed twice",r.trail(p))
    p=r.path(None,set(ok),avoid_edge=r.edge(IS(it,"None"))); ck.ob("text","printed to the end",p is None,r.body.span,"printing stops early",r.trail(p))
def serde(ck):
    r=ck.root(mm("serde::ser::Serialize","serialize") if any(b.qual==mm("serde::ser::Serialize","serialize") for b in ck.p.bodies.values()) else [b for b in ck.p.bodies.values() if b.name=="serialize" and "Multiaddr" in b.qual][0],opaque=("fmt",))
    hr=lambda e: CALL("is_human_readable",anyx)(e)
    s=r.calls("serialize_str"); b=r.calls("serialize_bytes"); ck.floor("serde","text",len(s),1); ck.floor("serde","bytes",len(b),1)
    p=r.path(None,s,avoid_edge=r.edge(TRUE(hr))); ck.ob("serde","text for readable formats",p is None,r.body.span,"text is written into a binary format",r.trail(p))
    p=r.path(None,b,avoid_edge=r.edge(FALSE(hr))); ck.ob("serde","bytes for binary formats",p is None,r.body.span,"bytes are written into a text format",r.trail(p))
    for n in s: ck.ob("serde","its text",SELF(bare(r.args(n)[1])),r.loc(n),"%s is written"%show(r.args(n)[1])[:60])
    for n in b: ck.ob("serde","its bytes",not has(r.args(n)[1],CALL("to_string",anyx)) and (fld(BY)(bare(r.args(n)[1])) or SELF(bare(r.args(n)[1]))),r.loc(n),"%s is written"%show(r.args(n)[1])[:60])
    oth=[n for n in r.nodes("call") if last(r.g.qual(n)).startswith("serialize_") and n not in s+b]; ck.ob("serde","no other form",not oth,r.body.span,"another form is written")
    d=[x for x in ck.p.bodies.values() if x.name=="deserialize" and "Multiaddr" in x.qual]; ck.floor("serde","deserialize",len(d),1)
    r=ck.root(d[0]); s=r.calls("deserialize_str","deserialize_string"); b=r.calls("deserialize_bytes","deserialize_byte_buf"); ck.floor("serde","text read",len(s),1); ck.floor("serde","bytes read",len(b),1)
    p=r.path(None,s,avoid_edge=r.edge(TRUE(hr))); ck.ob("serde","text from readable formats",p is None,r.body.span,"text is read from a binary format",r.trail(p))
    p=r.path(None,b,avoid_edge=r.edge(FALSE(hr))); ck.ob("serde","bytes from binary formats",p is None,r.body.span,"bytes are read from a text format",r.trail(p))
    for n in s+b:
        v=strip_cast(r.args(n)[1]); f=dict(v[3]).get("is_human_readable") if v[0]=="agg" else None
        if f is not None: ck.ob("serde","the visitor knows the format",all(K(n in s)(x) or hr(x) for x in alts(f)),r.loc(n),"the visitor is told %s"%show(f)[:30])
    k=0
    for x in ck.p.bodies.values():
        if not x.name.startswith("visit_") or "tentacle_multiaddr" not in x.qual: continue
        k+=1; r=ck.root(x,opaque=("from_str","parse","try_from","from_utf8"))
        ts=[n for n in r.calls("parse","from_str","try_from") if n.body.key in r.g.analysed]
        ck.floor("serde",x.name,len(ts),1,x.span)
        txt=x.name in("visit_str","visit_string","visit_borrowed_str")
        for n in ts:
            a=r.args(n)[0]; istext=last(r.g.qual(n)) in("parse","from_str")
            src=has(a,P(2)) or bare(a)==("p",2) or "next_element" in show(a) or CALL(("Vec::new","Vec::with_capacity","from_utf8"),anyx)(core_of(a)) or show(a).startswith("Vec::")
            ck.ob("serde","%s reads its input"%x.name,src,r.loc(n),"%s reads %s"%(x.name,show(a)[:60]))
            if x.name!="visit_seq": ck.ob("serde","%s reads the right form"%x.name,istext==txt,r.loc(n),"%s parses the wrong form"%x.name)
            else:
                f=fld("Visitor.is_human_readable"); p=r.path(None,[n],avoid_edge=r.edge((TRUE if istext else FALSE)(f))); ck.ob("serde","sequence read in its form, %s"%("text" if istext else "bytes"),p is None,r.loc(n),"a sequence is parsed in the wrong form",r.trail(p))
    ck.floor("serde","visitor methods",k,4)
    for q in("Vec","Bytes","String","str"): pass
    for x in ck.p.bodies.values():
        if x.name!="try_from" or "tentacle_multiaddr::Multiaddr as" not in x.qual: continue
        r=ck.root(x,opaque=("from_bytes","from_str","parse"))
        for n in r.aggs("Multiaddr"): ck.ob("bytes","bytes kept as given",P(1)(bare(dict(r.agg_value(n)[3])["bytes"])),r.loc(n),"the address holds %s"%show(r.agg_value(n))[:80])
        for n in r.calls("from_str","parse"): ck.ob("bytes","text parsed as given",P(1)(bare(r.args(n)[0])),r.loc(n),"%s is parsed"%show(r.args(n)[0])[:60])
        ck.floor("bytes","conversion",len(r.aggs("Multiaddr"))+len(r.calls("from_str","parse")),1,x.span)
RULES=[("kinds",["molc"],kinds),("write",["molc"],write),("read",["molc"],read),("text in",["molc"],text_in),("text out",["molc"],text_out),("owned",["molc"],owned),("components",["molc"],ops),("text",["molc"],text),("serde",["molc"],serde)]
