"""Interprocedural flow graphs over exported MIR: inlining of workspace functions, closures and awaited
coroutines; value reconstruction by reaching definitions; path-sensitive unfolding over the variants and
constants of local variables; path rules (must-precede, must-follow, guarded-by) on the unfolded graph."""
import sys
from collections import deque
from prog import Anchor
sys.setrecursionlimit(20000)

TOP=None
PAYLOAD={"Option":"Some","Result":"Ok"}

def last(q): 
    # method name of a qualified function name
    i=q.rfind("::")
    return q[i+2:] if i>=0 else q

TRANSPARENT={"deref","deref_mut","as_ref","as_mut","borrow","borrow_mut","get_mut","get_ref","into_future","clone","cloned","copied",
 "to_owned","as_deref","as_deref_mut","as_slice","as_mut_slice","as_bytes","into_inner_ref","by_ref","new_unchecked","get_unchecked_mut","into_boxed_slice","as_pin_mut","as_pin_ref","freeze",
 "into_iter","iter","iter_mut"}
# only when declared in core/alloc/std or a well-known crate (never a workspace function)
IDENT_CALLS={"core::convert::Into::into","core::convert::From::from","alloc::borrow::ToOwned::to_owned",
 "core::pin::Pin::new","core::pin::Pin::new_unchecked","alloc::boxed::Box::new","alloc::boxed::Box::pin","alloc::sync::Arc::new",
 "core::convert::TryFrom::try_from","core::convert::TryInto::try_into"}

def is_transparent(c):
    d=c["d"]
    n=last(d)
    if c["kr"] in WORKSPACE: 
        return False
    if d in ("core::pin::Pin::new","core::pin::Pin::new_unchecked","alloc::boxed::Box::new","alloc::boxed::Box::pin","alloc::sync::Arc::new",
             "futures_util::future::future::FutureExt::boxed","futures_util::future::FutureExt::boxed","core::convert::Into::into","core::convert::From::from","core::future::get_context","core::task::Poll::map","core::hint::black_box"):
        return d!="core::task::Poll::map"
    if n in ("new","new_unchecked","map"): 
        return d.startswith("core::pin::Pin") and n!="map"
    return n in TRANSPARENT

WORKSPACE={"tentacle","tentacle_secio","tokio_yamux","tentacle_multiaddr"}

class Node:
    __slots__=("id","kind","ctx","body","bb","data","span","succ","pred","extra")
    def __init__(s,id,kind,ctx,body,bb,data,span):
        s.id=id;s.kind=kind;s.ctx=ctx;s.body=body;s.bb=bb;s.data=data;s.span=span;s.succ=[];s.pred=[];s.extra=None

class Graph:
    """supergraph of one root function"""
    def __init__(self, prog, root, opaque=None, depth=8, limit=60000, closures=True, inline=True, only=None, sited=()):
        self.p=prog; self.root=root
        self.nodes=[]; self.ctxs=[]      # ctx: (parent ctx, call node id, body)
        self._busy={}
        self.opaque=opaque or (lambda c:False); self.maxdepth=depth; self.limit=limit; self.closures=closures; self.inl=inline
        self.only=only; self.sited=set(sited)   # calls whose value carries the call site
        self.defs={}                     # (ctx,local) -> [node ids]
        self.truncated=[]
        self._rd={}; self._val={}; self._hits=set(); self._cut=0; self._budget=2000000
        self.analysed=set()
        self.exit=None
        e=self._new("entry",0,root,-1,None,root.span)
        self.exit=self._new("exit",0,root,-1,None,root.span)
        self.ctxs.append((None,None,root))
        ent,rets=self._body(root,0,(root.key,))
        self._edge(e.id,ent)
        for r in rets: self._edge(r,self.exit.id)
        self.entry=e.id
        for n in self.nodes:
            for (d,_) in n.succ: self.nodes[d].pred.append(n.id)
        self.upd={}                      # assign node -> (ctx, local, path) it updates
        for n in self.nodes:
            if n.kind=="assign" and n.data[0][1]:
                r=self._alias_root(n.data[0],n.ctx,0)
                if r is not None and r[2]:
                    self.upd[n.id]=r
                    self._def(r[0],r[1],n.id)

    def assume(self,contradicts):
        """removes the branch edges whose fact contradicts an assumption, and what only they reach"""
        fs=Facts(self); cut=[]
        for n in self.nodes:
            if n.kind!="switch": continue
            bad=[i for i,f in enumerate(fs.of(n.id)) if contradicts(f)]
            if bad: cut.append((n,set(bad)))
        for n,bad in cut: n.succ=[x for i,x in enumerate(n.succ) if i not in bad]
        seen=set(); st=[self.entry]
        while st:
            a=st.pop()
            if a in seen: continue
            seen.add(a); st.extend(d for d,_ in self.nodes[a].succ)
        for n in self.nodes: n.pred=[]
        for n in self.nodes:
            if n.id not in seen: n.succ=[]; continue
            for (d,_) in n.succ: self.nodes[d].pred.append(n.id)
        for k in self.defs: self.defs[k]=[d for d in self.defs[k] if d in seen]
        self._rd={}; self._val={}; self._hits=set(); self._cut=0
        return sum(len(b) for _,b in cut)

    def prune(self,live,taken):
        """drops definitions and edges no path uses, which sharpens the expressions; node successors keep their places"""
        for n in self.nodes: n.pred=[]
        for a,i in taken:
            d=self.nodes[a].succ[i%len(self.nodes[a].succ)][0]
            if a not in self.nodes[d].pred: self.nodes[d].pred.append(a)
        for k in self.defs: self.defs[k]=[d for d in self.defs[k] if d in live]
        self._rd={}; self._val={}; self._hits=set(); self._cut=0
    def _new(self,kind,ctx,body,bb,data,span):
        n=Node(len(self.nodes),kind,ctx,body,bb,data,span); self.nodes.append(n); return n
    def _edge(self,a,b,lab=None): self.nodes[a].succ.append((b,lab))
    def _def(self,ctx,local,nid): self.defs.setdefault((ctx,local),[]).append(nid)

    def _newctx(self,parent,callnode,body):
        self.ctxs.append((parent,callnode,body)); return len(self.ctxs)-1

    def _body(self,body,ctx,stack):
        """creates the nodes of one body instance; returns (entry node id, [return node ids])"""
        self.analysed.add(body.key)
        blocks=body.blocks
        first={}
        order=self._rpo(body)
        rets=[]; fix=[]
        for b in order:
            prev=None
            for st in blocks[b]["s"]:
                if st[0]=="=":
                    n=self._new("assign",ctx,body,b,(st[1],st[2]),st[3])
                    if not st[1][1]: self._def(ctx,st[1][0],n.id)
                elif st[0]=="sd":
                    n=self._new("setdiscr",ctx,body,b,(st[1],st[2]),"")
                elif st[0]=="sx":
                    n=self._new("dead",ctx,body,b,st[1],"")
                elif st[0]=="sl":
                    continue
                else: continue
                if prev is None: first[b]=n.id
                else: self._edge(prev,n.id)
                prev=n.id
            t=blocks[b]["t"]; k=t[0]
            if k=="goto": n=self._new("goto",ctx,body,b,None,"")
            elif k=="switch": n=self._new("switch",ctx,body,b,t,t[5])
            elif k=="ret": n=self._new("ret",ctx,body,b,None,t[1]); rets.append(n.id)
            elif k=="drop": n=self._new("drop",ctx,body,b,(t[1],t[3]),"")
            elif k=="assert": n=self._new("assert",ctx,body,b,t,t[6])
            elif k=="yield": 
                n=self._new("yield",ctx,body,b,t,"")
                if not t[3][1]: self._def(ctx,t[3][0],n.id)
            elif k=="call": n=self._new("call",ctx,body,b,t,t[5])
            else: n=self._new("stop",ctx,body,b,k,"")
            if prev is None: first[b]=n.id
            else: self._edge(prev,n.id)
            fix.append((n.id,t,b))
        for nid,t,b in fix:
            k=t[0]
            if k=="goto": self._edge(nid,first[t[1]])
            elif k=="switch":
                for v,x in t[2]:
                    self._edge(nid,first[x],("v",v))
                ow=t[3]
                if blocks[ow]["t"][0]!="unreach" or blocks[ow]["s"]:
                    self._edge(nid,first[ow],("o",tuple(v for v,_ in t[2])))
            elif k=="drop": self._edge(nid,first[t[2]])
            elif k=="assert": self._edge(nid,first[t[5]])
            elif k=="yield": self._edge(nid,first[t[2]])
            elif k=="call":
                self._call(nid,t,first.get(t[4]) if t[4] is not None else None,ctx,body,stack)
        return first[0],rets

    _rpoc={}
    def _rpo(self,body):
        """reachable non-cleanup blocks in reverse postorder"""
        r=Graph._rpoc.get((id(self.p),body.key))
        if r is not None: return r
        blocks=body.blocks
        seen={0}; post=[]; st=[(0,iter(self._targets(blocks[0]["t"])))]
        while st:
            b,it=st[-1]
            for t in it:
                if t not in seen and not blocks[t]["c"]:
                    seen.add(t); st.append((t,iter(self._targets(blocks[t]["t"])))); break
            else:
                post.append(b); st.pop()
        post.reverse()
        Graph._rpoc[(id(self.p),body.key)]=post
        return post

    @staticmethod
    def _targets(t):
        k=t[0]
        if k=="goto": return [t[1]]
        if k=="switch": return [x for _,x in t[2]]+[t[3]]
        if k=="drop": return [t[2]]
        if k=="assert": return [t[5]]
        if k=="yield": return [t[2]]
        if k=="call": return [t[4]] if t[4] is not None else []
        return []

    def callee(self,node):
        f=node.data[1]
        return f[1] if f[0]=="fn" else None

    def _call(self,nid,t,cont,ctx,body,stack):
        node=self.nodes[nid]
        f=t[1]; args=t[2]; dest=t[3]
        key=None; mode=None
        if f[0]=="fn":
            c=f[1]; key=c["k"] if c["k"] in self.p.bodies else None
            if key:
                kb=self.p.bodies[key]
                if c["co"]: mode="coro"
                elif kb.kind=="closure": mode="closure"
                else: mode="fn"
            if c["v"]: key=None
            dl=last(c["d"])
            if key is None and dl in ("call_once","call_mut","call") and c["d"].startswith("core::ops::function"):
                # generic closure parameter: resolve through the inlined argument
                e=self._late(args[0],ctx,nid)
                if e is not None: key=e; mode="closure"
            if key is None and dl=="block_in_place":
                # runs its argument once, in place
                e=self._late(args[0],ctx,nid)
                if e is not None: key=e; mode="closure"
            if key is None and dl=="poll" and c["d"]=="core::future::future::Future::poll":
                e=self._late(args[0],ctx,nid,"coroutine")
                if e is not None: key=e; mode="coro"
        do=bool(key) and self.inl and key not in stack and len(stack)<=self.maxdepth and len(self.nodes)<self.limit
        if do and self.only is not None and not self.only(self.p.bodies[key]): do=False
        if do and f[0]=="fn" and self.opaque(f[1]): do=False
        if key and not do and self.inl and key not in stack and not (f[0]=="fn" and self.opaque(f[1])) and not(self.only is not None and not self.only(self.p.bodies[key])):
            self.truncated.append(key)
        if do:
            cb=self.p.bodies[key]
            c2=self._newctx(ctx,nid,cb)
            ent,rets=None,None
            # parameter passing
            ps=[]
            if mode=="closure":
                ps.append((1,args[0],None))
                # argument 1 is a tuple
                for i in range(2,cb.argc+1):
                    ps.append((i,args[1],i-2))
            else:
                for i,a in enumerate(args[:cb.argc]): ps.append((i+1,a,None))
            prev=nid
            for (l,a,fi) in ps:
                pn=self._new("param",c2,cb,-1,(l,a,fi,ctx),node.span)
                self._def(c2,l,pn.id); self._edge(prev,pn.id); prev=pn.id
            ent,rets=self._body(cb,c2,stack+(key,))
            self._edge(prev,ent)
            rn=self._new("result",ctx,body,node.bb,(dest,c2,mode),node.span)
            if not dest[1]: self._def(ctx,dest[0],rn.id)
            for r in rets: self._edge(r,rn.id)
            if cont is not None: self._edge(rn.id,cont)
            node.extra=("inlined",c2,rn.id)
            return
        # external (or opaque) call
        if not dest[1]: self._def(ctx,dest[0],nid)
        ends=[nid]
        # awaiting hands a future on to be polled, it does not run it
        awaits=f[0]=="fn" and (f[1]["d"].endswith("IntoFuture::into_future") or f[1]["d"].startswith("core::pin::Pin"))
        if self.inl and self.closures and not awaits and not (f[0]=="fn" and self.opaque(f[1])):
            cl=[]
            for a in args:
                for ck,kind in self._closure_args(a,ctx,nid):
                    if ck in self.p.bodies and ck not in stack and len(stack)<=self.maxdepth and len(self.nodes)<self.limit:
                        if self.only is not None and not self.only(self.p.bodies[ck]): continue
                        cl.append((ck,kind,a))
            if cl:
                hub=self._new("hub",ctx,body,node.bb,None,node.span)
                self._edge(nid,hub.id)
                for ck,kind,a in cl:
                    cb=self.p.bodies[ck]
                    c2=self._newctx(ctx,nid,cb)
                    prev=hub.id
                    pn=self._new("param",c2,cb,-1,(1,a,None,ctx),node.span); self._def(c2,1,pn.id); self._edge(prev,pn.id,("maybe",ck)); prev=pn.id
                    for i in range(2,cb.argc+1):
                        pn=self._new("clparam",c2,cb,-1,(i,nid,i-2),node.span); self._def(c2,i,pn.id); self._edge(prev,pn.id); prev=pn.id
                    ent,rets=self._body(cb,c2,stack+(ck,))
                    self._edge(prev,ent)
                    for r in rets: self._edge(r,hub.id)
                ends=[hub.id]
        if cont is not None:
            for e in ends: self._edge(e,cont)

    def _late(self,op,ctx,nid,want="closure"):
        # preds are not linked yet while building: use flow-insensitive single definitions only
        e=self._peek(op,ctx,0)
        if e and e[0]==want: return e[1]
        return None
    def _closure_args(self,op,ctx,nid):
        e=self._peek(op,ctx,0)
        if e: return [(e[1],e[0])]
        return []
    def _peek(self,op,ctx,depth):
        """closure or coroutine value of an operand, through single definitions"""
        if depth>12: return None
        if op[0]=="fn":
            k=op[1]["k"]
            return ("closure",k) if k in self.p.bodies and False else None
        if op[0] not in ("cp","mv"): return None
        pl=op[1]
        return self._peek_place(pl,ctx,depth)
    def _peek_place(self,pl,ctx,depth):
        l=pl[0]; proj=[x for x in pl[1] if x[0]!="*"]
        ds=self.defs.get((ctx,l),[])
        if len(ds)!=1: return None
        n=self.nodes[ds[0]]
        if n.kind=="assign":
            rv=n.data[1]
            if rv[0]=="agg" and rv[1] in ("closure","coroutine"):
                if not proj: return (rv[1],rv[2])
                if len(proj)==1 and proj[0][0]=="f" and proj[0][1].isdigit():
                    return self._peek(rv[5][int(proj[0][1])],ctx,depth+1)
                return None
            if rv[0]=="agg" and rv[1]=="adt" and proj and proj[0][0]=="f" and proj[0][1] in rv[4] and len(proj)==1:
                return self._peek(rv[5][rv[4].index(proj[0][1])],ctx,depth+1)
            if proj:
                # copy of a whole aggregate
                if rv[0]=="use" and rv[1][0] in("cp","mv"): return self._peek_place([rv[1][1][0],rv[1][1][1]+proj],ctx,depth+1)
                if rv[0]=="ref": return self._peek_place([rv[2][0],rv[2][1]+proj],ctx,depth+1)
                return None
            if rv[0]=="use": return self._peek(rv[1],ctx,depth+1)
            if rv[0]=="ref": return self._peek_place(rv[2],ctx,depth+1)
            if rv[0]=="cast": return self._peek(rv[2],ctx,depth+1)
        elif n.kind=="param":
            l2,a,fi,pctx=n.data
            if a[0] in ("cp","mv"):
                pr=list(a[1][1])
                if fi is not None: pr=pr+[["f",str(fi),"tuple"]]
                return self._peek_place([a[1][0],pr+proj],pctx,depth+1)
        elif n.kind=="call":
            f=n.data[1]
            if f[0]=="fn":
                c=f[1]
                if is_transparent(c) or last(c["d"]) in ("boxed","boxed_local","pin","new","fuse") :
                    if n.data[2]:
                        if proj: return None
                        return self._peek(n.data[2][0],ctx,depth+1)
        elif n.kind=="result":
            # returned closure/coroutine of an inlined function
            d,c2,mode=n.data
            if mode=="fn":
                return self._peek_place([0,list(pl[1])],c2,depth+1)
        return None

    def _alias_root(self,pl,ctx,depth):
        """(ctx, local, field path) of the local variable a place lies in, following must-aliases; None if it
        lies behind a pointer that comes from outside"""
        if depth>12: return None
        l=pl[0]; proj=pl[1]
        if not any(p[0]=="*" for p in proj):
            path=[]
            for p in proj:
                if p[0] in("f","d"): path.append(p)
                elif p[0]=="o": pass
                else: return None
            return (ctx,l,path)
        i=[j for j,p in enumerate(proj) if p[0]=="*"][0]
        ds=self.defs.get((ctx,l),[])
        if len(ds)!=1: return None
        n=self.nodes[ds[0]]
        if i!=0: return None
        rest=proj[1:]
        if n.kind=="assign":
            rv=n.data[1]
            if rv[0]=="ref": return self._alias_root([rv[2][0],rv[2][1]+rest],n.ctx,depth+1)
            if rv[0]=="use" and rv[1][0] in("cp","mv"): return self._alias_root([rv[1][1][0],rv[1][1][1]+proj],n.ctx,depth+1)
        elif n.kind=="param":
            l2,a,fi,pctx=n.data
            if a[0] in("cp","mv") and fi is None: return self._alias_root([a[1][0],a[1][1]+proj],pctx,depth+1)
        elif n.kind=="call" and n.data[1][0]=="fn" and is_transparent(n.data[1][1]) and n.data[2] and n.data[2][0][0] in("cp","mv"):
            nm=last(n.data[1][1]["d"])
            if n.data[1][1]["st"].lstrip("&").replace("mut ","").startswith(("core::pin::Pin","std::pin::Pin")): return None
            if nm in("deref_mut","deref","new_unchecked","new","get_mut","as_mut"):
                pl2=n.data[2][0][1]
                return self._alias_root([pl2[0],pl2[1]+proj],n.ctx,depth+1)
        return None

    # ------------------------------------------------------------------ reaching definitions
    def reaching(self,ctx,local,nid):
        """definition nodes of (ctx,local) reaching node nid (before it executes)"""
        ds=self.defs.get((ctx,local),[])
        if len(ds)<=1: return ds
        k=(ctx,local,nid)
        r=self._rd.get(k)
        if r is not None: return r
        dset=set(ds); out=[]; seen=set(); st=list(self.nodes[nid].pred)
        while st:
            n=st.pop()
            if n in seen: continue
            seen.add(n)
            if n in dset: out.append(n); continue
            st.extend(self.nodes[n].pred)
        out.sort()
        self._rd[k]=out
        return out

    # ------------------------------------------------------------------ expressions
    def val(self,op,ctx,nid,depth=0):
        """expression of an operand as seen by node nid"""
        k=op[0]
        if k in ("cp","mv"): return self.place(op[1],ctx,nid,depth)
        if k=="fn": return ("fn",op[1]["q"] or op[1]["d"])
        if k=="c":
            ty,v,path,dbg=op[1],op[2],op[3],op[4]
            if v is not None: return ("c",tuple(v) if isinstance(v,list) else v)
            if path: return ("const",path)
            return ("c0",ty,dbg)
        return ("?",)

    def place(self,pl,ctx,nid,depth=0):
        e=self.local(ctx,pl[0],nid,depth)
        for pr in pl[1]:
            e=self.proj(e,pr,ctx,nid,depth)
        return e

    def proj(self,e,pr,ctx,nid,depth):
        k=pr[0]
        if k=="*" or k=="o": return e
        if k=="f": return self.field(e,pr[1],pr[2])
        if k=="d": return self.down(e,pr[1])
        if k=="i": return ("idx",e,self.local(ctx,pr[1],nid,depth+1))
        if k=="ci": return ("cidx",e,pr[1],pr[2])
        if k=="ss": return ("sub",e,pr[1],pr[2],pr[3])
        return ("?",)

    def field(self,e,name,owner):
        if e[0]=="phi":
            return self.mkphi([self.field(x,name,owner) for x in e[1]])
        if e[0]=="agg":
            for fn,x in e[3]:
                if fn==name: return x
            if e[1].startswith("upd:"): return self.field(e[3][0][1],name,owner)
        if e[0] in("closure","coroutine"):
            if name.isdigit() and int(name)<len(e[2]): return e[2][int(name)]
        if e[0]=="payload" and name=="0":
            return e
        if e[0]=="d" and name=="0":
            r=self.payload(e[1],e[2])
            if r[0]=="f" and r[1]==e: return ("f",e,"0",owner)
            return r
        if e[0]=="p" and owner.startswith("up:"):
            return ("p",int(name)+1) if self.root.kind=="coroutine" else ("up",int(name))
        return ("f",e,name,owner)

    def payload(self,x,variant):
        # value carried by variant of x
        if x[0]=="phi":
            return self.mkphi([self.payload(y,variant) for y in x[1] if not (y[0]=="agg" and y[2]!=variant and y[2]!="")] or [("never",)])
        if x[0]=="agg":
            if x[2]==variant and len(x[3])==1: return x[3][0][1]
        if x[0]=="call":
            c=x[1]
            n=last(c)
            if n=="branch" and variant=="Continue":
                t=x[3]
                if t.startswith(("core::task::Poll","std::task::Poll","core::task::poll::Poll")): return ("pollok",x[2][0])
                if "Option<" in t.split("Result<")[0] and not t.startswith("core::result"): return self.payload(x[2][0],"Some")
                return self.payload(x[2][0],"Ok")
            if n=="branch" and variant=="Break":
                return ("residual",x[2][0])
            if n in ("map_err","ok_or","ok_or_else","or_else","inspect_err") and variant=="Ok" :
                return self.payload(x[2][0],"Some" if n.startswith("ok_or") else "Ok")
            if n=="ok" and variant=="Some": return self.payload(x[2][0],"Ok")
        return ("f",("d",x,variant),"0","")

    def errof(self,x):
        """the error that `?` passes on from x"""
        if x[0]=="phi": return self.mkphi([self.errof(y) for y in x[1]])
        if x[0]=="agg" and x[1]=="core::result::Result": return x[3][0][1] if x[2]=="Err" and len(x[3])==1 else ("never",)
        return ("errof",x)

    def down(self,e,variant):
        if e[0]=="phi":
            xs=[y for y in e[1] if not (y[0]=="agg" and y[2] not in (variant,""))]
            if len(xs)==1: return self.down(xs[0],variant)
            if xs: return ("d",self.mkphi(xs),variant)
            return ("d",e,variant)
        if e[0]=="agg" and e[2]==variant: return e
        return ("d",e,variant)

    def mkphi(self,xs):
        s=[]
        for x in xs:
            if x[0]=="phi":
                for y in x[1]:
                    if y not in s: s.append(y)
            elif x==("never",) or (x[0]=="loop" and len(xs)>1): continue
            elif x not in s: s.append(x)
        if len(s)==1: return s[0]
        if not s: return ("never",)
        return ("phi",tuple(sorted(s,key=repr))) if len(s)<=24 else ("many",)

    MAXD=600
    def local(self,ctx,l,nid,depth=0):
        ds=self.defs.get((ctx,l),[])
        if not ds:
            if ctx==0 and 1<=l<=self.root.argc: return ("p",l)
            return ("v",self.ctxs[ctx][2].key,l)
        if depth>self.MAXD: return ("deep",)
        if len(ds)>1: ds=self.reaching(ctx,l,nid)
        if ctx==0 and 1<=l<=self.root.argc:
            # parameter that is also reassigned
            xs=[("p",l)]
        else: xs=[]
        for d in ds: xs.append(self.defval(d,depth+1))
        if not xs: return ("v",self.ctxs[ctx][2].key,l)
        if len(ds)==2 and len(xs)==2 and xs[0]!=xs[1]:
            m=self._minmax(ds,xs,depth)
            if m is not None: return m
        return self.mkphi(xs)

    def _minmax(self,ds,xs,depth):
        """`if a < b { a } else { b }` is the smaller of the two, however it is spelt"""
        sw=[]
        for d in ds:
            n=d; k=0
            while True:
                pr=self.nodes[n].pred; k+=1
                if len(pr)!=1 or k>40: return None
                p=pr[0]
                if self.nodes[p].kind=="switch": sw.append((p,n)); break
                n=p
        if sw[0][0]!=sw[1][0] or sw[0][1]==sw[1][1]: return None
        t=self.nodes[sw[0][0]]
        if self._busy.get(t.id): return None
        self._busy[t.id]=True
        try: e=strip_cast(self.val(t.data[1],t.ctx,t.id,depth+1))
        finally: self._busy[t.id]=False
        if e[0]!="bin" or e[1] not in("Lt","Le","Gt","Ge"): return None
        xy=[strip_cast(x) for x in xs]
        lo={"Lt":2,"Le":2,"Gt":3,"Ge":3}[e[1]]
        a,b=strip_cast(e[lo]),strip_cast(e[5-lo])
        if sorted(map(repr,xy))!=sorted(map(repr,(a,b))): return None
        lab=[l for dst,l in t.succ if dst==sw[0][1]]
        if len(lab)!=1: return None
        true=not(lab[0][0]=="v" and str(lab[0][1]) in("0","False","false"))
        return (("min" if (xy[0]==a)==true else "max"),)+tuple(sorted(xs,key=repr))

    def defval(self,d,depth):
        v=self._val.get(d)
        if v is not None:
            if v[0]=="loop" and v[1]==d: self._hits.add(d)
            return v
        if self._budget<=0: return ("deep",)
        self._budget-=1
        self._val[d]=("loop",d)    # cycle guard
        hits0=self._hits; self._hits=set()
        n=self.nodes[d]
        if n.kind=="assign" and d in self.upd:
            c,l,path=self.upd[d]
            old=self.local(c,l,d,depth)
            e=self.update(old,path,self.rvalue(n.data[1],n.ctx,d,depth))
        elif n.kind=="assign": e=self.rvalue(n.data[1],n.ctx,d,depth)
        elif n.kind=="param":
            l,a,fi,pctx=n.data
            e=self.val(a,pctx,d,depth)
            if fi is not None: e=self.field(e,str(fi),"tuple")
        elif n.kind=="clparam": e=self.clparam(n,depth)
        elif n.kind=="result":
            dest,c2,mode=n.data
            e=self.local(c2,0,d,depth)
            if mode=="coro": e=("agg","core::task::poll::Poll","Ready",(("0",e),))
        elif n.kind=="call": e=self.callval(n,depth)
        elif n.kind=="yield": e=("ctxarg",)
        else: e=("?",)
        if self.depth_cut(e): e=("big",self.nodes[d].span)
        self._hits.discard(d)
        if self._hits and not self.closed(e): 
            # mentions a definition that is still being computed: valid only in this context
            if self._cut<20000: self._val.pop(d,None); self._cut+=1
            else: self._val[d]=e
        else: self._val[d]=e
        self._hits|=hits0
        return e

    @staticmethod
    def closed(e):
        st=[e]
        while st:
            x=st.pop()
            if x and x[0]=="loop": return False
            for y in x:
                if isinstance(y,tuple): st.append(y)
        return True

    def update(self,old,path,new):
        if not path: return new
        if old[0]=="phi": return self.mkphi([self.update(x,path,new) for x in old[1]])
        p=path[0]
        if p[0]=="d": return self.update(self.down(old,p[1]),path[1:],new)
        if old[0]=="agg":
            fs=list(old[3])
            for i,(n,x) in enumerate(fs):
                if n==p[1]:
                    fs[i]=(n,self.update(x,path[1:],new)); return ("agg",old[1],old[2],tuple(fs))
            return ("agg",old[1],old[2],tuple(fs)+((p[1],self.update(("f",old,p[1],p[2]),path[1:],new)),))
        if old[0]=="loop" : return old
        return ("agg","upd:"+p[2],"",(("..",old),(p[1],self.update(("f",old,p[1],p[2]),path[1:],new))))

    def depth_cut(self,e):
        return size(e)>4000

    def clparam(self,n,depth):
        i,cn,k=n.data
        c=self.nodes[cn]; f=c.data[1]
        if f[0]=="fn":
            nm=last(f[1]["d"]); d=f[1]["d"]
            if nm in ("map","and_then","filter","is_some_and","map_or","map_or_else","inspect","is_none_or","for_each","take_if") and k==0 and c.data[2]:
                x=self.val(c.data[2][0],c.ctx,cn,depth)
                if d.startswith("core::option"): return self.payload(x,"Some")
                if d.startswith("core::result"): return self.payload(x,"Ok")
            if nm in ("map_err","unwrap_or_else","or_else") and k==0 and d.startswith("core::result"):
                return self.payload(self.val(c.data[2][0],c.ctx,cn,depth),"Err")
            recv=self.val(c.data[2][0],c.ctx,cn,depth) if c.data[2] else ("?",)
            return ("elem",nm,recv,k)
        return ("elem","?",("?",),k)

    def callval(self,n,depth):
        t=n.data; f=t[1]
        if f[0]!="fn":
            fv=self.val(f,n.ctx,n.id,depth)
            return ("call","indirect",(fv,)+tuple(self.val(a,n.ctx,n.id,depth) for a in t[2]),"")
        c=f[1]
        args=[self.val(a,n.ctx,n.id,depth) for a in t[2]]
        e=self.norm_call(c,args)
        if self.sited and e[0]=="call" and last(e[1]) in self.sited and "@" not in e[3]: e=e[:3]+(e[3]+"@%d"%n.id,)
        return e

    def norm_call(self,c,args):
        d=c["d"]; nm=last(d)
        q=c["q"] if c["kr"] in WORKSPACE and c["q"] else d
        if d.startswith("ctor:") or q.startswith("ctor:"):
            path=(d if d.startswith("ctor:") else q)[5:]
            owner,var=path.rsplit("::",1)
            if owner in self.p.adts and self.p.adts[owner]["kind"]=="enum":
                return ("agg",owner,var,tuple((str(i),a) for i,a in enumerate(args)))
            return ("agg",path,var,tuple((str(i),a) for i,a in enumerate(args)))
        if is_transparent(c) and args: 
            return args[0]
        st=c["st"]
        if nm in ("unwrap","expect","unwrap_unchecked") and args:
            if d.startswith("core::option"): return self.payload(args[0],"Some")
            if d.startswith("core::result"): return self.payload(args[0],"Ok")
        if nm=="from_residual":
            x=args[0]
            x=self.errof(x[1]) if x[0]=="residual" else x
            h=st.split("<")[0]
            if h.endswith("Result"): return ("agg","core::result::Result","Err",(("0",x),))
            if h.endswith("Option"): return ("agg","core::option::Option","None",())
            if h.endswith("Poll"): return ("agg","core::task::poll::Poll","Ready",(("0",("agg","core::result::Result","Err",(("0",x),))),))
            return ("resid",x)
        if nm=="discriminant_value" and args and c["ga"]:
            return self.mkdiscr(args[0],c["ga"][0].lstrip("&"))
        if d=="core::default::Default::default" and not args:
            if st in("u8","u16","u32","u64","usize","i32","i64"): return ("c",0)
            if st=="bool": return ("c",False)
        if nm in("eq","ne","lt","le","gt","ge") and d.startswith("core::cmp::Partial") and len(args)==2:
            return ("bin",{"eq":"Eq","ne":"Ne","lt":"Lt","le":"Le","gt":"Gt","ge":"Ge"}[nm],args[0],args[1])
        if nm=="not" and d=="core::ops::bit::Not::not": return ("un","Not",args[0])
        if nm in ("len",) and args and len(args)==1: return ("len",args[0])
        if nm=="min" and len(args)==2: return ("min",)+tuple(sorted(args,key=repr))
        if nm=="max" and len(args)==2: return ("max",)+tuple(sorted(args,key=repr))
        return ("call",q,tuple(args),st)

    def rvalue(self,rv,ctx,nid,depth):
        k=rv[0]
        if k=="use": return self.val(rv[1],ctx,nid,depth)
        if k=="ref": return self.place(rv[2],ctx,nid,depth)
        if k=="cast":
            e=self.val(rv[2],ctx,nid,depth)
            if e[0]=="dconst": return ("c",e[1])
            if rv[1] in("IntToInt",): return ("cast",e,rv[3])
            return e
        if k=="bin":
            a=self.val(rv[2],ctx,nid,depth); b=self.val(rv[3],ctx,nid,depth)
            op=rv[1]
            if op.endswith("WithOverflow"):
                return ("agg","tuple","",(("0",("bin",op[:-12],a,b)),("1",("c",False))))
            if op.endswith("Unchecked"): op=op[:-9]
            return ("bin",op,a,b)
        if k=="un": 
            e=self.val(rv[2],ctx,nid,depth)
            if rv[1]=="PtrMetadata": return ("len",e)
            return ("un",rv[1],e)
        if k=="discr": return self.mkdiscr(self.place(rv[1],ctx,nid,depth),rv[2])
        if k=="agg":
            ops=[self.val(o,ctx,nid,depth) for o in rv[5]]
            if rv[1]=="adt": return ("agg",rv[2],rv[3],tuple(zip(rv[4],ops)))
            if rv[1] in("closure","coroutine"): return (rv[1],rv[2],tuple(ops))
            return ("agg",rv[1],"",tuple((str(i),o) for i,o in enumerate(ops)))
        if k=="rep": return ("rep",self.val(rv[1],ctx,nid,depth),rv[2])
        if k=="tls": return ("tls",rv[1])
        return ("?",)

    def mkdiscr(self,e,adt):
        if e[0]=="agg" and e[2]:
            a=self.p.adts.get(adt)
            if a:
                for v in a["variants"]:
                    if v[0]==e[2]: return ("dconst",int(v[1]),adt,e[2])
        return ("discr",e,adt)

    # ------------------------------------------------------------------ node queries
    def args(self,n):
        return [self.val(a,n.ctx,n.id) for a in n.data[2]]
    def qual(self,n):
        f=n.data[1]
        if f[0]!="fn": return "indirect"
        c=f[1]
        return c["q"] if c["kr"] in WORKSPACE and c["q"] else c["d"]
    def decl(self,n):
        f=n.data[1]
        return f[1]["d"] if f[0]=="fn" else "indirect"
    def destval(self,n):
        return self.defval(n.id,0) if not n.data[3][1] else None
    def assigned(self,n):
        """(place expr, value expr) of an assignment node"""
        pl,rv=n.data
        return self.place(pl,n.ctx,n.id), self.rvalue(rv,n.ctx,n.id,0)
    def target_place(self,n):
        return self.place(n.data[0],n.ctx,n.id)
    def loc(self,n):
        n=self.nodes[n] if isinstance(n,int) else n
        return n.span or n.body.span
    def fn(self,n):
        n=self.nodes[n] if isinstance(n,int) else n
        return n.body.qual
    def calls(self,pred):
        """call nodes with pred(qual, decl, node)"""
        return [n for n in self.nodes if n.kind=="call" and pred(self.qual(n),self.decl(n),n)]

def size(e,cap=4001):
    n=0; st=[e]
    while st:
        x=st.pop()
        n+=1
        if n>=cap: return n
        for y in x:
            if isinstance(y,tuple): st.append(y)
    return n

# ---------------------------------------------------------------------- facts on edges
NEG={"Lt":"Ge","Le":"Gt","Gt":"Le","Ge":"Lt","Eq":"Ne","Ne":"Eq"}
def strip_cast(e):
    while e and e[0]=="cast": e=e[1]
    return e
def canon_cmp(op,a,b):
    a=strip_cast(a); b=strip_cast(b)
    if op=="Gt": op,a,b="Lt",b,a
    elif op=="Ge": op,a,b="Le",b,a
    if op=="Lt" and a==("c",0): return ("cmp","Ne",b,("c",0))
    if op=="Le" and a==("c",1): return ("cmp","Ne",b,("c",0))
    if op=="Lt" and b==("c",1): return ("cmp","Eq",a,("c",0))
    if op=="Le" and b==("c",0): return ("cmp","Eq",a,("c",0))
    if op=="Le" and a[0]=="c" and isinstance(a[1],int) and not isinstance(a[1],bool) and a[1]>=1: return ("cmp","Lt",("c",a[1]-1),b)
    if op=="Le" and b[0]=="c" and isinstance(b[1],int) and not isinstance(b[1],bool) : return ("cmp","Lt",a,("c",b[1]+1))
    if op in("Eq","Ne"):
        if a[0]=="c" and b[0]!="c": a,b=b,a
        elif b[0]!="c" and repr(a)>repr(b): a,b=b,a
    return ("cmp",op,a,b)

ISCALL={"is_some":("Option",("Some",)),"is_none":("Option",("None",)),"is_ok":("Result",("Ok",)),"is_err":("Result",("Err",)),
        "is_ready":("Poll",("Ready",)),"is_pending":("Poll",("Pending",))}
OTHER={"Some":"None","None":"Some","Ok":"Err","Err":"Ok","Ready":"Pending","Pending":"Ready"}
def bool_fact(e,val):
    """canonical fact of boolean expression e being val"""
    e=strip_cast(e)
    if e[0]=="phi":
        # the constant alternatives that contradict the fact did not flow here
        rest=[x for x in e[1] if not(strip_cast(x)[0]=="c" and isinstance(strip_cast(x)[1],bool) and strip_cast(x)[1]!=val)]
        if len(rest)==1 and strip_cast(rest[0])[0]!="c": return bool_fact(rest[0],val)
    if e[0]=="un" and e[1]=="Not": return bool_fact(e[2],not val)
    if e[0]=="bin" and e[1] in NEG:
        op=e[1] if val else NEG[e[1]]
        a,b=e[2],e[3]
        if op in("Eq","Ne"):
            for x,y in((a,b),(b,a)):
                y0=strip_cast(y); x0=strip_cast(x)
                if x0[0]=="discr" and y0[0]=="dconst": return is_fact(x0[1],(y0[3],),y0[2],op=="Eq")
            for x,y in((a,b),(b,a)):
                y0=strip_cast(y); x0=strip_cast(x)
                if y0[0]=="agg" and y0[2] and not y0[3]:
                    return is_fact(x,(y0[2],),y0[1],op=="Eq")
                if y0[0]=="c" and y0[1] is True: return bool_fact(x,op=="Eq")
                if y0[0]=="c" and y0[1] is False: return bool_fact(x,op!="Eq")
                if x0[0]=="discr" and y0[0]=="c": return ("cmp",op,x0,y0)
        return canon_cmp(op,a,b)
    if e[0]=="call":
        n=last(e[1])
        if n in ISCALL and len(e[2])==1:
            v=ISCALL[n][1][0]
            if not val: v=OTHER[v]
            return ("is",e[2][0],frozenset([v]))
        if n=="is_empty" and len(e[2])==1:
            return canon_cmp("Eq" if val else "Ne",("len",e[2][0]),("c",0))
    return ("true" if val else "false",e)
def is_fact(e,variants,adt,pos):
    if pos: return ("is",e,frozenset(variants))
    return ("isnot",e,frozenset(variants),adt)

class Facts:
    def __init__(self,g): self.g=g; self._c={}; self.extra={}
    def of(self,nid):
        """list of (succ index, fact) for a switch node"""
        r=self._c.get(nid)
        if r is not None: return r
        g=self.g; n=g.nodes[nid]; t=n.data
        e=g.val(t[1],n.ctx,nid)
        out=[]
        for i,(dst,lab) in enumerate(n.succ):
            fa=self.fact(e,lab,t[4])
            if fa[0]=="isnot" and fa[3] in g.p.adts:
                fa=("is",fa[1],frozenset(v[0] for v in g.p.adts[fa[3]]["variants"] if v[0] not in fa[2]))
            out.append(fa)
        for d,neg in self.extra.get(nid,()):
            # the tested truth value comes from this definition
            x=g.defval(d,0)
            for dst,lab in n.succ:
                fa=bool_fact(x,(lab[1]!="0" if lab[0]=="v" else "0" in lab[1])!=neg)
                if fa[0]=="isnot" and fa[3] in g.p.adts:
                    fa=("is",fa[1],frozenset(v[0] for v in g.p.adts[fa[3]]["variants"] if v[0] not in fa[2]))
                out.append(fa)
        self._c[nid]=out
        return out
    def fact(self,e,lab,ty):
        g=self.g
        e=strip_cast(e)
        if e[0]=="discr":
            adt=g.p.adts.get(e[2])
            x=e[1]
            if adt:
                vs={v[1]:v[0] for v in adt["variants"]}
                allv=[v[0] for v in adt["variants"]]
                if lab[0]=="v": s=[vs.get(lab[1],"?"+lab[1])]
                else: s=[v for v in allv if v not in [vs.get(y) for y in lab[1]]]
                return self.norm_is(x,s,e[2])
            return ("cmp","Eq" if lab[0]=="v" else "Ne",e,("c",str(lab[1])))
        if ty=="bool":
            if lab[0]=="v": v=lab[1]!="0"
            else: v=("0" in lab[1])
            return bool_fact(e,v)
        if lab[0]=="v": return canon_cmp("Eq",e,("c",int(lab[1])))
        if len(lab[1])==1: return canon_cmp("Ne",e,("c",int(lab[1][0])))
        return ("notin",e,tuple(int(x) for x in lab[1]))
    def norm_is(self,x,vs,adt):
        if x[0]=="phi":
            rest=[y for y in x[1] if not(strip_cast(y)[0]=="agg" and strip_cast(y)[2] and strip_cast(y)[2] not in vs)]
            if len(rest)==1 and strip_cast(rest[0])[0]!="agg": return self.norm_is(rest[0],vs,adt)
        # ? operator
        if x[0]=="call" and last(x[1])=="branch" and x[2]:
            st=x[3]; inner=x[2][0]
            m={}
            if st.startswith(("core::option","std::option")): m={"Continue":"Some","Break":"None"}
            elif st.startswith(("core::result","std::result")): m={"Continue":"Ok","Break":"Err"}
            elif st.startswith(("core::task","std::task")): return ("isq",inner,frozenset(vs))
            return self.norm_is(inner,[m.get(v,v) for v in vs],adt)
        if x[0]=="call" and x[2]:
            n=last(x[1])
            if n in("map_err",): return self.norm_is(x[2][0],vs,adt)
            if n in("ok_or","ok_or_else"): return self.norm_is(x[2][0],[{"Ok":"Some","Err":"None"}.get(v,v) for v in vs],adt)
            if n=="ok": return self.norm_is(x[2][0],[{"Some":"Ok","None":"Err"}.get(v,v) for v in vs],adt)
        return ("is",x,frozenset(vs))
