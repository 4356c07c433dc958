"""Anchors of the service layer shared by its checks."""
from core import *
from sec import pay, core_of, names_of, okexit, under, retvals, const_num, KN
S="tentacle::service::Service::"
HSK="tentacle::service::helper::HandshakeContext::handshake"
CHAN=("fmt","mpsc::channel","priority_mpsc::channel","channel::bound::channel","Multiaddr::push","Buffer::new","PriorityBuffer::new")
OPQ=CHAN+("Session::new","session_handles_open","PeerId","peer_id","extract_peer_id","open_proto_stream","for_each","Buffer::try_send","Buffer::push","PriorityBuffer::try_send","PriorityBuffer::push_high","PriorityBuffer::push_normal",
 "handle_error","handle_event","handle_proto","IGDClient")
def live(b): return "::test" not in b.qual and "::tests" not in b.qual
def makers(ck,adt,variant=None,crate="tentacle"):
    """functions, closures and async bodies that build a value of the type"""
    out=[]
    for b in ck.p.bodies.values():
        if not live(b): continue
        hit=False
        for bl in b.blocks:
            if bl["c"]: continue
            for st in bl["s"]:
                if st[0]=="=" and st[2][0]=="agg" and st[2][1]=="adt" and match_name(st[2][2],adt) and (variant is None or st[2][3]==variant): hit=True
        if hit: out.append(b)
    return sorted(out,key=lambda b:b.qual)
def callers(ck,name):
    """bodies with a direct call to a function of that name"""
    out=[]
    for b in ck.p.bodies.values():
        if not live(b): continue
        for bl in b.blocks:
            t=bl["t"]
            if bl["c"] or t[0]!="call" or t[1][0]!="fn": continue
            c=t[1][1]
            if any(isinstance(x,str) and match_name(x,name) for x in (c.values() if isinstance(c,dict) else c)): out.append(b); break
    return sorted(out,key=lambda b:b.qual)
class Origins:
    """where the value of a struct field comes from: followed backwards through parameters (callers), captured variables (creation sites) and fields of the
    given structs (their constructors) until something else is reached"""
    def __init__(self,ck,through,opaque=CHAN):
        self.ck=ck; self.through=through; self.opaque=opaque; self.roots={}; self.seen=set(); self.leaves=[]
        self.making={}
        for b in ck.p.bodies.values():
            if not live(b): continue
            for bl in b.blocks:
                if bl["c"]: continue
                for st in bl["s"]:
                    if st[0]=="=" and st[2][0]=="agg" and st[2][1] in("closure","coroutine"): self.making.setdefault(st[2][2],[]).append(b)
    def root(self,b):
        if b.key not in self.roots: self.roots[b.key]=Root(self.ck,b,opaque=self.opaque,depth=3)
        return self.roots[b.key]
    def field(self,adt,f):
        if (adt,f) in self.seen: return
        self.seen.add((adt,f)); ms=makers(self.ck,adt)
        if not ms: self.leaves.append((None,("?",),"no constructor of %s"%adt))
        for b in ms:
            if " as core::clone::Clone" in b.qual: continue
            r=self.root(b)
            for n in r.aggs(adt):
                if n.body is b: self.expr(b,r,dict(r.agg_value(n)[3]).get(f,("?",)),r.loc(n))
        for b,h in self.ck.writers("%s.%s"%(adt,f)):
            if not live(b) or h=="agg": continue
            r=self.root(b)
            for n in r.writes("%s.%s"%(adt,f)): self.expr(b,r,r.value(n),r.loc(n))
    def expr(self,b,r,e,where):
        for x in alts(e):
            x=strip_cast(x)
            if x[0]=="p": self.param(b,x[1],where); continue
            if x[0]=="up": self.param(b,x[1]+1,where); continue
            hit=None
            if x[0]=="f":
                for o in self.through:
                    if x[2]==self.through[o] and match_name(x[3],o): hit=o
            if hit: self.field(hit,x[2])
            else: self.leaves.append((b,x,where))
    def param(self,b,i,where):
        if (b.key,i) in self.seen: return
        self.seen.add((b.key,i)); found=False
        if b.kind in("coroutine","closure"):
            for c in self.making.get(b.key,[]):
                r=self.root(c)
                for n in r.nodes("assign"):
                    v=n.data[1]
                    if n.body is c and v[0]=="agg" and v[1] in("coroutine","closure") and v[2]==b.key:
                        ops=v[-1]
                        if i-1<len(ops): found=True; self.expr(c,r,r.g.val(ops[i-1],n.ctx,n.id),r.loc(n))
        else:
            for c in callers(self.ck,b.qual):
                r=self.root(c)
                for n in r.calls(b.qual):
                    if n.body is not c: continue
                    a=r.args(n)
                    if i-1<len(a): found=True; self.expr(c,r,a[i-1],r.loc(n))
        if not found: self.leaves.append((b,("p",i),where))
TR="tentacle::transports::"
def dialled(ck,rule):
    """a transport returns the very address it was asked to dial, also where it dials a resolved one"""
    for t,ty in(("tcp","TcpTransport"),("ws","WsTransport")):
        d=ck.root("<%s%s::%s as %sTransport>::dial"%(TR,t,ty,TR),opaque=("connect","DNSResolver::new"))
        cs=[n for n in d.calls("connect") if n.body is d.body]; ck.floor(rule,t+" dials",len(cs),1,d.body.span)
        orig=lambda e: P(2)(e) or (strip_cast(e)[0]=="agg" and strip_cast(e)[1].endswith("Multiaddr") and HAS(P(2))(e))
        isok=[]
        for n in cs:
            a=d.args(n); o=strip_cast(a[2])
            ok=(o[0]=="agg" and o[2]=="Some" and orig(dict(o[3])["0"])) or (o[0]=="agg" and o[2]=="None" and CALL(("ok","ready"),orig)(a[0]))
            ck.ob(rule,"%s dial keeps the address"%t,ok,d.loc(n),"a dial forgets the address it was asked for (%s)"%show(a[2])[:60])
        c=ck.root("%s%s::connect"%(TR,t),opaque=("timeout","tcp_dial","multiaddr_to_socketaddr","fmt"))
        rs=[n for n in c.nodes("assign") if n.ctx==0 and n.data[0]==[0,[]] and AGG("Result","Ok")(c.value(n))]+[n for n in c.aggs("Result","Ok") if n.ctx==0 and HAS(lambda x: x[0]=="agg" and x[1]=="tuple")(c.agg_value(n))]
        ck.floor(rule,t+" results",len(rs),1,c.body.span)
        for n in rs:
            v=c.value(n) if n.kind=="assign" else c.agg_value(n); tup=[x for x in subs(v) if x[0]=="agg" and len(x[3])==2]
            a=dict(tup[0][3]).get("0") if tup else v
            own=lambda e: CALL("Future::poll",P(1))(core_of(e)) or CALL("poll",P(1))(core_of(e))
            good=CALL("unwrap_or",P(3),own)(a) or all(own(x) or pay(P(3),"Some")(x) for x in alts(a))
            ck.ob(rule,t+" returns the address dialled",bool(good),c.loc(n),"the address of a dialled connection is %s"%show(a)[:80])
