"""Queue discipline shared by the checks of the message path: draining in order, appending, and where queued items may be thrown away."""
import os, time
from svc import *
SES="tentacle::session::Session::"; SUB="tentacle::substream::Substream::"; WP="tentacle::substream::SubstreamWritePart::"; RP="tentacle::substream::SubstreamReadPart"
BUF="tentacle::buffer::"; CTL="tentacle::context::SessionController::"
def POPF(q): return CALL("pop_front",q)
def exactly(ck,r,rule,inst,starts,nodes,ends,none,twice,avoid_edge=None,nid=None):
    """on every path from the start states to the end states exactly one of the nodes is passed"""
    ids={n.id for n in nodes}
    ends=set(ends)  # states or nodes
    p=r.path_from(starts,ends,avoid=nodes,avoid_edge=avoid_edge) if none else None
    # a start state may itself be an end (nothing in between)
    ck.ob(rule,inst+": at least once",p is None,r._where(p,0) if p else r.body.span,none or "",r.trail(p))
    def node(q,x): return min(2,q+(x in ids))
    def edge(q,x,i): return None if avoid_edge is not None and avoid_edge(x,i) else q
    p=r.query(0,node,edge,lambda q,s: q==2,starts) if twice else None
    ck.ob(rule,inst+": at most once",p is None,r._where(p) if p else r.body.span,twice or "",r.trail(p))
def drains(ck,rule,r,nm,queues,sinks,lost=None):
    """the root takes items from the front of the queues, in the order given, and hands each to the sink of its queue or puts it
    back at the front.  queues: [(label, field predicate)]; sinks: one set of callee names per queue; lost: fact after which a
    taken item need not be kept (the other end is gone)"""
    lostf=lost or (lambda f: False)
    allpops={}
    for (lb,q),names in zip(queues,sinks):
        pops=[n for n in r.calls("pop_front") if q(r.args(n)[0])]; allpops[lb]=pops
        ck.floor(rule,"takings from %s in %s"%(lb,nm),len(pops),1,r.body.span)
        item=lambda e,q=q: pay(POPF(q),"Some")(e)
        back0=lambda e,q=q,names=names: item(e) or (strip_cast(e)[0] in("f","call") and any(CALL(names)(x) and len(x[2])>1 and item(x[2][1]) for x in subs(e)))
        snk=[n for n in r.calls(*names) if len(r.args(n))>1 and item(r.args(n)[1])]
        bad=[n for n in r.calls(*[x for s in sinks for x in s]) if len(r.args(n))>1 and item(r.args(n)[1]) and n not in snk]
        for n in bad: ck.ob(rule,"%s: %s items are sent in their priority"%(nm,lb),False,r.loc(n),"an item of %s is sent with %s"%(lb,last(r.g.qual(n))))
        ck.floor(rule,"sendings from %s in %s"%(lb,nm),len(snk),1,r.body.span)
        back=[n for n in r.calls("push_front") if q(r.args(n)[0])]
        for n in back: ck.ob(rule,"%s: what is put back into %s"%(nm,lb),back0(r.args(n)[1]),r.loc(n),"%s is put at the front of %s"%(show(r.args(n)[1])[:80],lb))
        wrong=[n for n in r.calls("push_back","insert","push_front") if has(r.args(n)[-1],lambda e: item(e)) and n not in back and len(r.args(n))>1 and strip_cast(r.args(n)[0])!=("?",) and name("high_buffer","normal_buffer","buffer","high_write_buf","write_buf")(r.args(n)[0])]
        for n in wrong: ck.ob(rule,"%s: kept in place"%nm,False,r.loc(n),"an item taken from %s is put elsewhere: its place is lost"%lb)
        st=r.after_edges(r.edges_where(IS(POPF(q),"Some")))
        nxt=set(r.states_of([n for n in r.calls("pop_front")]))
        ok=r.exits(lambda v: not(v is not None and v[0]=="v" and v[1]=="Err"))
        p=r.path_from(st,nxt|ok,avoid=snk+back,avoid_edge=r.edge(lostf))
        ck.ob(rule,"%s: nothing taken from %s is dropped"%(nm,lb),p is None,r._where(p,0) if p else r.body.span,"an item is taken from %s and neither sent nor put back"%lb,r.trail(p))
        # a refused item is put back
        ref=r.after_edges(r.edges_where(IS(lambda e: CALL(names)(e) and len(strip_cast(e)[2])>1 and item(strip_cast(e)[2][1]),"Err")))
        p=r.path_from(ref,nxt|ok,avoid=back,avoid_edge=r.edge(lostf))
        ck.ob(rule,"%s: a refused item of %s is put back"%(nm,lb),p is None,r._where(p,0) if p else r.body.span,"an item of %s that was refused is not put back"%lb,r.trail(p))
        acc=r.after_edges(r.edges_where(IS(lambda e: CALL(names)(e) and len(strip_cast(e)[2])>1 and item(strip_cast(e)[2][1]),"Ok")))
        ids={n.id for n in back+snk}; pid={n.id for n in r.calls("pop_front")}
        def node(k,x): return None if x in pid else k
        p=r.query(0,node,None,lambda k,s: r.u.states[s][0] in ids,acc)
        ck.ob(rule,"%s: an accepted item of %s is gone"%(nm,lb),p is None,r._where(p) if p else r.body.span,"an item of %s that was accepted is sent or put back again"%lb,r.trail(p))
        if back:
            p=r.query(0,node,None,lambda k,s: r.u.states[s][0] in ids,r.after_nodes(back))
            ck.ob(rule,"%s: put back into %s once"%(nm,lb),p is None,r._where(p) if p else r.body.span,"an item put back into %s is sent or put back again"%lb,r.trail(p))
    # urgent first
    for i,(lb,q) in enumerate(queues[1:],1):
        for hb,h in queues[:i]:
            empty=r.edge(ANYF(IS(POPF(h),"None"),TRUE(CALL("is_empty",h)),CMP("==",LEN(h),K(0))))
            hback=[n for n in r.calls("push_front") if h(r.args(n)[0])]
            p=r.path(None,allpops[lb],avoid_edge=empty) or (r.path(hback,allpops[lb],avoid_edge=empty) if hback else None)
            ck.ob(rule,"%s: %s before %s"%(nm,hb,lb),p is None,r._where(p) if p else r.body.span,"%s is served although %s was not found empty"%(lb,hb),r.trail(p))
OPS_OK={"push_back","pop_front","push_front","len","is_empty","capacity","shrink_to_fit","shrink_to","iter","reserve","as_slices","front","back","get","contains","fmt","as_ref"}
OPS_DROP={"clear","drain","take","replace","swap","truncate","retain","split_off","append","into_iter"}
def up(ck,b,pick,fact,opaque=OPQ,depth=5,seen=None,chain=frozenset()):
    """every way to the picked nodes of b, through its callers if need be, passes a branch edge with the fact; returns None or (root, path)"""
    seen=seen if seen is not None else set()
    if b.key in seen: return None
    seen.add(b.key)
    chain=chain|{b.key}
    c=ck.__dict__.setdefault("_up",{}); k=(ck.cfg,b.key,opaque,chain)
    # only what leads to the nodes, and small helpers, need to be looked into
    if k not in c: c[k]=Root(ck,b,opaque=opaque,depth=8,only=lambda x: x.key in chain or len(x.blocks)<=14)
    r=c[k]
    if os.environ.get("P2P_DEBUG")=="2": print("   up",b.qual,len(r.g.nodes),round(time.time()%1000,1))
    ns=pick(r)
    if not ns: return None
    p=r.path(None,ns,avoid_edge=r.edge(fact))
    if p is None: return None
    if depth==0: return r,p
    cs=[ck.p.bodies[b.parent]] if b.kind in("closure","coroutine") and b.parent in ck.p.bodies else [c for c in callers(ck,b.qual) if c.key!=b.key]
    if b.kind=="coroutine" and cs:
        cs=[c for c in callers(ck,cs[0].qual)] or cs
    if not cs or (b.trait and last(b.trait.split("<")[0]) in("Stream","Future","Sink","Drop")): return r,p
    for c in cs:
        x=up(ck,c,pick,fact,opaque,depth-1,seen,chain)
        if x is not None: return x
    return None
DATA=("high_buffer","normal_buffer","buffer","high_write_buf","write_buf")
OWN={"high_buffer":"PriorityBuffer","normal_buffer":"PriorityBuffer","buffer":"Buffer","high_write_buf":None,"write_buf":None}
def isq(e):
    e=strip_cast(e)
    if e[0]!="f" or e[2] not in OWN: return False
    o=e[3].split("<")[0].split("::")[-1]
    return (o==OWN[e[2]]) if OWN[e[2]] else o in("Substream","SubstreamWritePart")
def within(ck,b,allowed,depth=4):
    """the function is one of the allowed, or is only used by them"""
    if b.kind in("closure","coroutine") and b.parent in ck.p.bodies: return within(ck,ck.p.bodies[b.parent],allowed,depth)
    if b.qual in allowed: return True
    if depth==0 or b.vis=="pub" and not b.parent: return False
    cs=[c for c in callers(ck,b.qual) if live(c) and c.key!=b.key]
    return bool(cs) and all(within(ck,c,allowed,depth-1) for c in cs)

def filled(r,src):
    """predicate: the expression goes through a list that is filled with every item of the source in a loop of its own"""
    nx=[n for n in r.calls("next") if src(r.args(n)[0])]; it=CALL("next",src)
    some=r.after_edges(r.edges_where(IS(it,"Some"))); ends=set(r.states_of(nx))|r.exits()
    def f(e):
        for v in subs(e):
            if v[0]!="call" or last(v[1]) not in("new","with_capacity","default") or not some: continue
            ps=[n for n in r.calls("push","push_back","insert") if strip_cast(r.args(n)[0])==v]
            if ps and all(has(r.args(n)[-1],it) for n in ps) and r.path_from(some,ends,avoid=ps) is None: return True
        return False
    return f
