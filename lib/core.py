"""Obligations, violations, evidence, and the rule vocabulary used by the property modules."""
import hashlib, json, os, re, sys, time, traceback
sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))
import extract
from prog import Program, Anchor
from flow import Graph, last, strip_cast, WORKSPACE, is_transparent
from unfold import Unfolded
from expr import *
from pat import *

_progs={}
def program(config):
    if config not in _progs: _progs[config]=Program.load(extract.facts(config))
    return _progs[config]

class Root:
    """a root function with everything it calls inlined, unfolded path-sensitively"""
    def __init__(self,ck,body,opaque=(),track=(),init=None,depth=8,limit=60000,only=None,closures=True,per_node=160,sited=(),assume=None):
        self.ck=ck; self.body=body
        if callable(opaque): op=opaque
        else:
            names=set(opaque)
            op=lambda c: c["q"] in names or last(c["q"]) in names or (c["q"].split("::")[-2:]!=[] and "::".join(c["q"].split("::")[-2:]) in names)
        self.g=Graph(ck.p,body,opaque=op,depth=depth,limit=limit,only=only,closures=closures,sited=sited)
        self.cut=self.g.assume(assume) if assume else 0
        self.u=Unfolded(self.g,track=track,init=init,per_node=per_node)
        self.live=self.u.reachable_nodes()
        if len(self.live)<len(self.g.nodes):
            self.g.prune(self.live,{(self.u.states[a][0],i) for a,ss in enumerate(self.u.succ) for _,i in ss}); self.u.facts._c={}
        ck.stats["functions"]|=self.g.analysed
        ck.stats["nodes"]+=len(self.live); ck.stats["states"]+=len(self.u.states)
        ck.stats["edges"]+=sum(len(s) for s in self.u.succ)
        if self.g.truncated: ck.stats["truncated"]|=set(self.g.truncated)
        if len(self.g.nodes)>=limit and os.environ.get("P2P_DEBUG"): print("  overflow",body.qual)
        if self.u.widened: ck.stats["widened"]+=1
    # ---- node selection
    def nodes(self,kind=None): 
        return [n for n in self.g.nodes if n.id in self.live and (kind is None or n.kind==kind)]
    def calls(self,*names,arg=None,ext=None):
        out=[]
        for n in self.nodes("call"):
            if n.data[1][0]!="fn": continue
            q=self.g.qual(n); d=self.g.decl(n)
            if names and not any(match_name(q,x) or match_name(d,x) for x in names): continue
            if arg is not None:
                try: a=self.g.args(n)
                except IndexError: continue
                if not arg(a): continue
            out.append(n)
        return out
    def writes(self,*specs):
        out=[]
        for n in self.nodes("assign"):
            pl=n.data[0]
            fs=[p for p in pl[1] if p[0] in("f",)]
            if not fs or pl[1][-1][0]!="f": continue
            lp=pl[1][-1]
            for s in specs:
                o,nm=s.rsplit(".",1)
                if lp[1]==nm and (lp[2]==o or lp[2].endswith("::"+o)): out.append(n)
        # whole-object writes through references (*self = ...) are reported by owner type
        return out
    def value(self,n): return self.g.rvalue(n.data[1],n.ctx,n.id,0)
    def args(self,n): return self.g.args(n)
    def aggs(self,adt,variant=None):
        """nodes that build a value of the type/variant"""
        out=[]
        for n in self.nodes():
            if n.kind=="assign":
                rv=n.data[1]
                if rv[0]=="agg" and rv[1]=="adt" and match_name(rv[2],adt) and (variant is None or rv[3]==variant): out.append(n)
            elif n.kind=="call" and n.data[1][0]=="fn":
                d=n.data[1][1]["d"]
                if d.startswith("ctor:"):
                    path=d[5:]
                    o,v=path.rsplit("::",1)
                    if match_name(o,adt) and (variant is None or v==variant): out.append(n)
        return out
    def agg_value(self,n):
        if n.kind=="assign": return self.value(n)
        return self.g.callval(n,0)
    APPENDS=("extend_from_slice","put_slice","put","extend","append","update","push","write_all","push_str")
    def transcript(self,use,obj,appends=None):
        """the sequences of appends to the object `obj` (an expression) along the paths to node `use`: a set of tuples
        of node ids; None if appending in a loop"""
        ap={n.id for n in self.calls(*(appends or self.APPENDS)) if self.args(n) and strip_cast(self.args(n)[0])==strip_cast(obj)}
        seqs=set(); seen=set(); st=[(self.u.start,())]
        while st:
            s,q=st.pop()
            if (s,q) in seen: continue
            seen.add((s,q))
            nid=self.u.states[s][0]
            if nid==use.id: seqs.add(q)
            if nid in ap:
                if nid in q: return None
                q=q+(nid,)
            for d,_ in self.u.succ[s]: st.append((d,q))
            if len(seen)>400000: return None
        return seqs
    # ---- path rules
    def _ids(self,x):
        if callable(x): return x
        s=set(n.id if hasattr(n,"id") else n for n in x)
        return lambda nid: nid in s
    def states_of(self,x):
        f=self._ids(x)
        return [s for nid,ss in self.u.by_node.items() if f(nid) for s in ss]
    def path(self,src,dst,avoid=None,avoid_edge=None):
        """path from src (None = entry; else nodes) to dst nodes avoiding nodes / edges"""
        starts=[self.u.start] if src is None else self.states_of(src)
        tgt=set(self.states_of(dst)) if not isinstance(dst,set) else dst
        if src is not None:
            # leave the source first
            st=[]
            av=self._ids(avoid) if avoid is not None else None
            for s in starts:
                for d,i in self.u.succ[s]:
                    if av is not None and av(self.u.states[d][0]): continue
                    if avoid_edge is not None and avoid_edge(self.u.states[s][0],i): continue
                    st.append(d)
            starts=list(dict.fromkeys(st))
        av=self._ids(avoid) if avoid is not None else None
        if av is not None: starts=[s for s in starts if not av(self.u.states[s][0]) or s==self.u.start]
        return self.u.find_path(starts,lambda s: s in tgt,av,avoid_edge)
    def path_from(self,states,dst,avoid=None,avoid_edge=None):
        """path from the given states (e.g. after_edges) to dst: nodes, or a set of states"""
        tgt=set(x for d in dst for x in ([d] if isinstance(d,int) else self.states_of([d])))
        av=self._ids(avoid) if avoid is not None else None
        if av is not None: states=[s for s in states if not av(self.u.states[s][0])]
        return self.u.find_path(list(states),lambda s: s in tgt,av,avoid_edge)
    _memo=None
    def query(self,init,node,edge,accept,starts=None,memo=False,limit=None):
        """path search in the product with an automaton: node(q,nid) / edge(q,nid,i) return the next automaton
        state or None to cut; accept(q,state) says whether a state is a target; memo=True also drops paths whose
        facts about memory contradict each other (tried only when the plain search finds a path)"""
        if memo:
            p=self.query(init,node,edge,accept,starts)
            if p is None: return None
            if self._memo is None: self._memo=Memo(self); self._memo.useful()
            m=self._memo; keys=set()
            # only facts that refuted an earlier candidate are carried along
            while True:
                k=m.clash(p,init,node,edge)
                if k is None or k in keys: return p
                keys.add(k)
                def node2(q,nid):
                    a=node(q[0],nid) if node else q[0]
                    return None if a is None else (a,m.node(q[1],nid))
                def edge2(q,nid,i):
                    a=edge(q[0],nid,i) if edge else q[0]
                    if a is None: return None
                    b=m.edge(q[1],nid,i,keys)
                    return None if b is None else (a,b)
                n=self.query((init,frozenset()),node2,edge2,lambda q,s: accept(q[0],s),starts,limit=3000000)
                if n is None: return None
                if n is False: return p
                p=n
        u=self.u
        todo=[]
        seen={}
        cap=limit
        for s in (starts if starts is not None else [u.start]):
            q=node(init,u.states[s][0]) if node else init
            if q is None: continue
            if (s,q) not in seen: seen[(s,q)]=None; todo.append((s,q))
        i=0
        while i<len(todo):
            s,q=todo[i]; i+=1
            if cap is not None and i>cap: self.ck.stats["widened"]+=1; return False
            if accept(q,s):
                p=[]; k=(s,q)
                while k is not None: p.append(k[0]); k=seen[k]
                p.reverse(); return p
            nid=u.states[s][0]
            for d,e in u.succ[s]:
                q2=edge(q,nid,e) if edge else q
                if q2 is None: continue
                if node:
                    q2=node(q2,u.states[d][0])
                    if q2 is None: continue
                if (d,q2) not in seen: seen[(d,q2)]=(s,q); todo.append((d,q2))
        return None
    def edges_where(self,pred):
        """(node id, succ index) of every branch edge whose fact satisfies pred"""
        return [(n.id,i) for n in self.nodes("switch") for i,f in enumerate(self.u.facts.of(n.id)) if pred(f)]
    def after_edges(self,edges):
        """states entered by those edges"""
        es=set(edges); out=[]
        for nid,i in es:
            for s in self.u.by_node.get(nid,[]):
                out+=[d for d,j in self.u.succ[s] if j==i]
        return list(dict.fromkeys(out))
    def after_nodes(self,nodes):
        """states entered right after the nodes"""
        return list(dict.fromkeys(d for s in self.states_of(nodes) for d,_ in self.u.succ[s]))
    def edge(self,pred):
        """edge predicate from a fact predicate"""
        def f(nid,i):
            fa=self.u.edge_fact(nid,i)
            return fa is not None and bool(pred(fa))
        return f
    def exits(self,pred=None):
        """exit states; pred on the abstract return value"""
        out=set()
        for s in self.u.by_node.get(self.g.exit.id,[]):
            if pred is None: out.add(s); continue
            v=self.u.known(dict(self.u.states[s][1]).get((0,0)))
            if pred(v): out.add(s)
        return out
    def retval(self,s): return self.u.known(dict(self.u.states[s][1]).get((0,0)))
    def mem(self,s,path):
        v=dict(self.u.states[s][1]).get((-1,1))
        for x in path.split("."): v=Unfolded.sub(v,x)
        return v
    # ---- obligations
    def precede(self,rule,inst,first,then,msg,src=None):
        """on every path every `then` node is preceded by a `first` node"""
        if not then: return
        p=self.path(src,then,avoid=first)
        self.ck.ob(rule,inst,p is None,self._where(p),msg,self.trail(p))
    def follow(self,rule,inst,first,then,msg,until=None,avoid_edge=None):
        """after every `first` node every path to an exit (or `until`) passes a `then` node"""
        if not first: return
        dst=until if until is not None else self.exits()
        p=self.path(first,dst,avoid=then,avoid_edge=avoid_edge)
        self.ck.ob(rule,inst,p is None,self._where(p,0),msg,self.trail(p))
    def guarded(self,rule,inst,nodes,fact,msg,src=None):
        """every path to the nodes passes a branch edge whose fact satisfies the predicate"""
        if not nodes: return
        p=self.path(src,nodes,avoid_edge=self.edge(fact))
        self.ck.ob(rule,inst,p is None,self._where(p),msg,self.trail(p))
    def never(self,rule,inst,nodes,msg):
        for n in nodes: self.ck.ob(rule,inst,False,self.g.loc(n),msg)
        if not nodes: self.ck.ob(rule,inst,True,self.body.span,msg)
    def nopath(self,rule,inst,src,dst,msg,avoid=None,avoid_edge=None):
        p=self.path(src,dst,avoid=avoid,avoid_edge=avoid_edge)
        self.ck.ob(rule,inst,p is None,self._where(p),msg,self.trail(p))
    def _where(self,p,idx=-1):
        if not p: return self.body.span
        rng=list(reversed(p)) if idx==-1 else p
        for s in rng:
            n=self.g.nodes[self.u.states[s][0]]
            if n.span: return "%s in %s"%(n.span,n.body.qual)
        return self.body.span
    def trail(self,p): return self.u.describe(p) if p else ""
    def loc(self,n): return "%s in %s"%(self.g.loc(n),n.body.qual)

class Memo:
    """what the branch facts of a path say about memory: facts about fields (emptiness, variant, boolean value) hold
    until the field is stored to or handed out mutably; a path that needs two contradicting facts is not followed"""
    POPS={"pop_front","pop_back","pop","next","pop_first"}
    PURE={"p","f","d","len","c","const","up"}
    def __init__(self,r):
        self.r=r; self.g=r.g; self._e={}; self._n={}
        self.ids={}
    def pure(self,e):
        if e[0]=="cast": return self.pure(e[1])
        if e[0] not in self.PURE: return False
        if e[0] in("f","d","len"): return self.pure(e[1])
        return True
    def key(self,k,e):
        e=strip_cast(e); kk=(k,e)
        if kk not in self.ids: self.ids[kk]=(len(self.ids),frozenset(subs(e)))
        return kk
    def facts(self,nid,i):
        v=self._e.get((nid,i))
        if v is not None: return v
        f=self.r.u.edge_fact(nid,i); out=[]
        if f is not None:
            if f[0]=="cmp":
                a,b=strip_cast(f[2]),strip_cast(f[3])
                if f[1] in("Eq","Ne") and (K(0)(a) or K(0)(b)):
                    x=b if K(0)(a) else a
                    if self.pure(x): out.append((self.key("z",x),frozenset([f[1]=="Eq"])))
                elif f[1]=="Lt" and self.pure(b) and b[0]=="len": out.append((self.key("z",b),frozenset([False])))
            elif f[0]=="is":
                if self.pure(f[1]) and f[1][0]!="c": out.append((self.key("is",f[1]),f[2]))
                x=strip_cast(f[1])
                if x[0]=="call" and f[2]==frozenset(["None"]) and last(x[1]) in self.POPS and x[2] and self.pure(strip_cast(x[2][0])):
                    out.append((self.key("z",("len",strip_cast(x[2][0]))),frozenset([True])))
            elif f[0] in("true","false") and self.pure(f[1]): out.append((self.key("b",f[1]),frozenset([f[0]=="true"])))
        self._e[(nid,i)]=out
        return out
    def useful(self):
        """keys about which the graph holds facts that exclude each other"""
        by={}
        for n in self.r.nodes("switch"):
            for i in range(len(n.succ)):
                for k,v in self.facts(n.id,i): by.setdefault(k,[]).append((n.id,v))
        good={k for k,l in by.items() if any(a[0]!=b[0] and not(a[1]&b[1]) for a in l for b in l)}
        for e in list(self._e): self._e[e]=[x for x in self._e[e] if x[0] in good]
    def kills(self,nid):
        """expressions whose memory the node may change"""
        v=self._n.get(nid)
        if v is not None: return v
        n=self.g.nodes[nid]; out=[]
        if n.kind in("assign","setdiscr") and n.data[0][1] and any(p[0] in("f","*") for p in n.data[0][1]):
            out.append(strip_cast(self.g.place(n.data[0],n.ctx,nid,0)))
        elif n.kind=="result" and n.data[0][1]: out.append(strip_cast(self.g.place(n.data[0],n.ctx,nid,0)))
        elif n.kind=="call" and n.extra is None:
            if n.data[3][1]: out.append(strip_cast(self.g.place(n.data[3],n.ctx,nid,0)))
            c=n.data[1][1] if n.data[1][0]=="fn" else None
            if c is None or not is_transparent(c):
                args=None
                for j,o in enumerate(n.data[2]):
                    if o[0] not in("cp","mv"): continue
                    t=n.body.locals[o[1][0]][2]
                    if "&mut" in t or "Guard" in t or "'{closure" in t or "closure" in t:
                        if args is None: args=self.r.args(n)
                        x=strip_cast(args[j]); out.append(x)
                        if x[0] in("closure","coroutine"): out+=[y for y in subs(x) if y[0]=="f"]
        self._n[nid]=out
        return out
    def node(self,q,nid):
        if not q: return q
        ks=self.kills(nid)
        if not ks: return q
        d=[(k,v) for k,v in q if not any(x in self.ids[k][1] for x in ks)]
        return frozenset(d) if len(d)!=len(q) else q
    def clash(self,p,init,node,edge):
        """the first fact of a path that contradicts an earlier one"""
        u=self.r.u; q=frozenset(); a=node(init,u.states[p[0]][0]) if node else init
        for s,t in zip(p,p[1:]):
            nid=u.states[s][0]; bad=None; nxt=None
            for d,e in u.succ[s]:
                if d!=t: continue
                a2=edge(a,nid,e) if edge else a
                if a2 is not None and node: a2=node(a2,u.states[d][0])
                if a2 is None: continue
                q2=self.edge(q,nid,e)
                if q2 is not None: nxt=(a2,q2); break
                dq=dict(q); bad=next(k for k,v in self.facts(nid,e) if k in dq and not dq[k]&v)
            if nxt is None: return bad
            a,q=nxt[0],self.node(nxt[1],u.states[t][0])
        return None
    def edge(self,q,nid,i,keys=None):
        fs=self.facts(nid,i)
        if not fs: return q
        d=dict(q)
        for k,v in fs:
            if keys is not None and k not in keys: continue
            if k in d:
                w=d[k]&v
                if not w: return None
                d[k]=w
            else: d[k]=v
        return frozenset(d.items())

def match_name(q,x):
    return q==x or q.endswith("::"+x) or (x.startswith("<") and q==x)

class Check:
    def __init__(self,pid,tier,seed):
        self.id=pid; self.tier=tier; self.seed=seed
        self.obs=[]; self.viol={}; self.notes=[]
        self.stats={"functions":set(),"nodes":0,"states":0,"edges":0,"truncated":set(),"widened":0,"sites":0}
        self.configs=[]; self.p=None; self.cfg=None; self.rules={}
        self.samples=[]
    def use(self,config):
        self.p=program(config); self.cfg=config
        if config not in self.configs: self.configs.append(config)
        return self.p
    def rule(self,rid,text): self.rules[rid]=text
    def ob(self,rule,inst,ok,where="",msg="",trail=""):
        key="%s|%s"%(rule,inst)
        if self.cfg and self.cfg!="molc": key+="|"+self.cfg
        self.obs.append((key,bool(ok)))
        if len(self.samples)<12 and ok and not any(s["rule"]==rule for s in self.samples):
            self.samples.append({"rule":rule,"instance":inst,"where":relp(where),"holds":True})
        if not ok and key not in self.viol:
            self.viol[key]={"rule":rule,"instance":inst,"where":relp(where),"message":msg,"path":relp(trail),"config":self.cfg}
        return bool(ok)
    def floor(self,rule,what,found,least,where=""):
        self.ob(rule,"count of "+what,found>=least,where,"found %d %s, at least %d expected: the anchor of the rule is gone"%(found,what,least))
    def root(self,qual,**kw):
        b=self.p.one(qual) if isinstance(qual,str) else qual
        if b.kind!="coroutine":
            # async fn: analyse its coroutine body
            ch=[c for c in self.p.children.get(b.key,[]) if self.p.bodies[c].kind=="coroutine"]
            if len(ch)==1 and kw.pop("coroutine",True) and self._returns_coroutine(b,ch[0]): b=self.p.bodies[ch[0]]
        return Root(self,b,**kw)
    def writers(self,spec):
        """(body, how) for every workspace function that stores to Owner.field, borrows it mutably or builds the owner"""
        o,nm=spec.rsplit(".",1)
        def own(x): return x==o or x.endswith("::"+o)
        out=[]
        for b in self.p.bodies.values():
            how=set()
            for bl in b.blocks:
                if bl["c"]: continue
                for st in bl["s"]:
                    if st[0]!="=": continue
                    pr=st[1][1]
                    fs=[p for p in pr if p[0]=="f"]
                    if any(p[1]==nm and own(p[2]) for p in fs): how.add("write")
                    rv=st[2]
                    if rv[0]=="ref" and rv[1]=="m" and any(p[0]=="f" and p[1]==nm and own(p[2]) for p in rv[2][1]): how.add("borrow")
                    if rv[0]=="agg" and rv[1]=="adt" and own(rv[2]) : how.add("agg")
                t=bl["t"]
                if t[0]=="call" and any(p[0]=="f" and p[1]==nm and own(p[2]) for p in t[3][1]): how.add("write")
            for h in how: out.append((b,h))
        return out
    def _returns_coroutine(self,b,k):
        for bl in b.blocks:
            for st in bl["s"]:
                if st[0]=="=" and st[1]==[0,[]] and st[2][0]=="agg" and st[2][1]=="coroutine" and st[2][2]==k: return True
        return False

def relp(s):
    return s.replace(extract.REPO.rstrip("/")+"/","").replace("/repo/","") if s else s

def known_findings():
    out={}
    f=os.path.join(extract.VERIF,"known-findings.txt")
    if os.path.exists(f):
        for l in open(f):
            l=l.strip()
            m=re.match(r"known: property=(\S+) key=\[(.*?)\] (.*)$",l)
            if m: out[(m.group(1),m.group(2))]=m.group(3)
    return out

def run(pid):
    tier=os.environ.get("VERIF_TIER","quick"); seed=int(os.environ.get("VERIF_SEED","1") or 1)
    if tier not in("quick","thorough"): tier="quick"
    t0=time.time()
    ck=Check(pid,tier,seed)
    sys.path.insert(0,os.path.join(extract.VERIF,"checks"))
    try:
        mod=__import__(pid.lower())
    except Exception:
        traceback.print_exc(); return 2
    try:
        for c in getattr(mod,"CONFIGS",["molc"]): extract.facts(c,force=(tier=="thorough"))
    except extract.BuildFailed as e:
        print("ERROR: /repo does not type-check (%s)"%e); return 2
    parts=mod.RULES
    for name,cfgs,fn in parts:
        for cfg in cfgs:
            ck.use(cfg); t1=time.time()
            try: fn(ck)
            except Anchor as e:
                ck.ob(name,"anchor: %s"%e,False,"","an anchor of the rule is missing, so the property cannot be decided: %s"%e)
            except Exception as e:
                if os.environ.get("P2P_DEBUG"): traceback.print_exc()
                tb=traceback.extract_tb(e.__traceback__)[-1]
                ck.ob(name,"undecided: %s"%type(e).__name__,False,"","the rule could not be evaluated (%s: %s at %s:%d)"%(type(e).__name__,e,os.path.basename(tb.filename),tb.lineno))
            if os.environ.get("P2P_DEBUG"): print("  %s/%s %.1fs"%(name,cfg,time.time()-t1))
    kf=known_findings()
    new=[]; known=[]
    for k,v in ck.viol.items():
        if (pid,k) in kf: known.append((k,v))
        else: new.append((k,v))
    total=len(ck.obs); ok=sum(1 for _,o in ck.obs if o)
    ev=os.path.join(extract.VERIF,"evidence"); os.makedirs(ev,exist_ok=True)
    rp=os.path.join(ev,"%s.replay.json"%pid)
    if new:
        json.dump({"property":pid,"rerun":"cd /verif && python3 lib/core.py %s"%pid,"violations":[dict(key=k,**v) for k,v in new]},open(rp,"w"),indent=1)
    elif os.path.exists(rp): os.unlink(rp)
    stats={k:(len(v) if isinstance(v,set) else v) for k,v in ck.stats.items()}
    doc=[l.strip() for l in (mod.__doc__ or "").strip().splitlines()]
    cov={"explanation":"Static analysis of the type-checked program (MIR as built, all workspace functions reachable from the roots inlined, path-sensitive). "+" ".join(doc),
         "obligations":total,"discharged":ok,"known_findings":len(known),
         "rules":[{"rule":r,"obligations":sum(1 for k,_ in ck.obs if k.split("|")[0]==r)} for r in sorted(set(k.split("|")[0] for k,_ in ck.obs))],
         "functions_analysed":stats["functions"],"flow_graph_nodes":stats["nodes"],"path_states":stats["states"],"path_edges":stats["edges"],
         "call_sites_examined":stats["sites"],"inlining_cut":stats["truncated"],"graphs_widened":stats["widened"],"configurations":ck.configs,"samples":ck.samples}
    if ck.notes: cov["notes"]=ck.notes
    assum=list(getattr(mod,"ASSUMES",[]))
    json.dump({"property":pid,"tier":tier,"seed":seed,"level":"other","coverage":cov,"assumptions":assum,
               "wall_s":round(time.time()-t0,2),"violations":len(new)},open(os.path.join(ev,"%s.json"%pid),"w"),indent=1)
    print("%s: %d obligations over %d functions, %d path states, %d discharged (%.1fs)"%(pid,total,stats["functions"],stats["states"],ok,time.time()-t0))
    for k,v in known: print("KNOWN-FINDING: property=%s %s: %s"%(pid,k,kf[(pid,k)]))
    for k,v in new:
        print("  [%s] %s\n     at %s%s\n     %s"%(v["rule"],v["instance"],v["where"]," ("+v["config"]+")" if v["config"]!="molc" else "",v["message"]))
        if v["path"]: print("     path: "+v["path"])
    if new:
        print("VIOLATION property=%s replay=%s"%(pid,rp)); return 1
    return 0
if __name__=="__main__":
    sys.exit(run(sys.argv[1]))
