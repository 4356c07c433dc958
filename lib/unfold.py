"""Path-sensitive unfolding of a supergraph over the known variants/constants of local variables, and the
path rules evaluated on it."""
from collections import deque
from flow import Graph, Facts, last, is_transparent, WORKSPACE, strip_cast, bool_fact

PREFIXES=("core::","std::","alloc::")
def tyhead(t):
    for p in PREFIXES:
        if t.startswith(p): t=t[len(p):]
    return t
def kind_of(t):
    h=tyhead(t)
    if h.startswith("option::Option"): return "Option"
    if h.startswith("result::Result"): return "Result"
    if h.startswith("task::Poll") or h.startswith("task::poll::Poll"): return "Poll"
    return ""

def errty(t):
    """error type of a Result type string (innermost for Poll<..Result<..>>)"""
    i=t.find("result::Result<")
    if i<0: return None
    d=0; start=None; x=t[i+len("result::Result<"):]
    for j,ch in enumerate(x):
        if ch in "<([": d+=1
        elif ch in ">)]":
            if ch==">" and j and x[j-1]=="-": continue
            if d==0: return x[start:j].strip() if start is not None else None
            d-=1
        elif ch=="," and d==0 and start is None: start=j+1
    return None

def V(name,*fields): return ("v",name,tuple((str(i),f) for i,f in enumerate(fields)))

class Unfolded:
    def __init__(self,g,cap=400000,per_node=160,track=(),init=None):
        """track: field paths of the object behind parameter 1 ("state", "a.b") whose variants/constants are
        followed; init: {path: abstract value} at entry"""
        self.g=g; self.facts=Facts(g)
        self.track=set(track)
        start_env=None
        if self.track:
            mem=None
            for pth,v in (init or {}).items(): mem=self.setpath(mem,pth.split("."),v)
            start_env={(0,1):("r",-1,1,(),"m")}
            if mem is not None: start_env[(-1,1)]=mem
        self.per_node=per_node; self.cap=cap
        self.disc={}
        for k,a in g.p.adts.items():
            if a["kind"]=="enum":
                self.disc[k]=({v[0]:int(v[1]) for v in a["variants"]},{v[1]:v[0] for v in a["variants"]},[v[0] for v in a["variants"]])
        self._origins()
        self._relevant()
        self._liveness()
        self._run(start_env or {})

    # ---------------------------------------------------------------- origins of tested truth values
    def _origins(self):
        """a branch on a truth value that comes from several places (`a() && b()`, a flag, the result of a helper): which of
        them it came from is followed along the path, and the branch has one more pair of edges, with the fact that holds, for each"""
        g=self.g; self.unk=set(); self.xsucc={}
        def trace(ctx,l,nid,neg,seen,out):
            ds=g.defs.get((ctx,l),[])
            if len(ds)>1: ds=g.reaching(ctx,l,nid)
            if not ds or ctx==0 and 1<=l<=g.root.argc: return False
            for d in ds:
                if (d,neg) in seen: continue
                seen.add((d,neg)); n=g.nodes[d]
                if len(seen)>24 or d in g.upd: return False
                op=None; ng=neg; c=n.ctx
                if n.kind=="assign" and not n.data[0][1]:
                    rv=n.data[1]
                    if rv[0]=="use": op=rv[1]
                    elif rv[0]=="un" and rv[1]=="Not": op=rv[2]; ng=not neg
                elif n.kind=="result" and n.data[2]!="coro" and not n.data[0][1]:
                    if not trace(n.data[1],0,d,neg,seen,out): return False
                    continue
                elif n.kind=="param" and n.data[2] is None: op=n.data[1]; c=n.data[3]
                if op is not None and op[0] in("cp","mv") and not op[1][1] and g.defs.get((c,op[1][0])) and not(c==0 and 1<=op[1][0]<=g.root.argc):
                    if not trace(c,op[1][0],d,ng,seen,out): return False
                elif op is not None and op[0]=="c" and isinstance(op[2],bool): out.append((d,ng,True))
                elif n.kind=="assign" and not n.data[0][1]: out.append((d,neg,False))
                elif n.kind=="call" and n.extra is None and not n.data[3][1]: out.append((d,neg,False))
                else: return False
            return True
        for n in g.nodes:
            if n.kind!="switch" or n.data[4]!="bool": continue
            op=n.data[1]
            if op[0] not in("cp","mv") or op[1][1]: continue
            out=[]
            if not trace(n.ctx,op[1][0],n.id,False,set(),out): continue
            alts=sorted({(d,ng) for d,ng,c in out if not c})
            if len(out)<2 or not alts or len(alts)>4: continue
            k=len(n.succ); self.unk|={d for d,_ in alts}
            self.xsucc[n.id]={a:k*(1+j) for j,a in enumerate(alts)}
            self.facts.extra[n.id]=alts
        self.facts._c={}

    # ---------------------------------------------------------------- relevance
    def _relevant(self):
        g=self.g
        rel=set(); work=[]
        def add(ctx,l):
            k=(ctx,l)
            if k not in rel: rel.add(k); work.append(k)
        defs={}
        for n in g.nodes:
            if n.kind=="switch":
                o=n.data[1]
                if o[0] in("cp","mv"): add(n.ctx,o[1][0])
            if n.kind in("assign","setdiscr"):
                defs.setdefault((n.ctx,n.data[0][0]),[]).append(n)
                # writes through a reference change what it points to
                if n.data[0][1] and n.data[0][1][0][0]=="*": add(n.ctx,n.data[0][0])
            elif n.kind=="call":
                if n.extra is None:
                    defs.setdefault((n.ctx,n.data[3][0]),[]).append(n)
                    for o in n.data[2]:
                        if o[0] in("cp","mv") and not o[1][1] and "&mut " in n.body.locals[o[1][0]][2][:20]: add(n.ctx,o[1][0])
            elif n.kind=="param": defs.setdefault((n.ctx,n.data[0]),[]).append(n)
            elif n.kind=="result": defs.setdefault((n.ctx,n.data[0][0]),[]).append(n)
            elif n.kind=="ret" and n.ctx==0: add(0,0)
        add(0,0)
        def addop(ctx,o):
            if o[0] in("cp","mv"): add(ctx,o[1][0])
        while work:
            k=work.pop()
            for n in defs.get(k,()):
                if n.kind=="assign":
                    rv=n.data[1]
                    if rv[0] in("use","un","cast"): addop(n.ctx,rv[1] if rv[0]=="use" else rv[2])
                    elif rv[0] in("ref",): add(n.ctx,rv[2][0])
                    elif rv[0]=="discr": add(n.ctx,rv[1][0])
                    elif rv[0]=="agg":
                        for o in rv[5]: addop(n.ctx,o)
                    elif rv[0]=="bin" and rv[1] in("Eq","Ne","BitAnd","BitOr","Lt","Le","Gt","Ge"):
                        addop(n.ctx,rv[2]); addop(n.ctx,rv[3])
                elif n.kind=="param": addop(n.data[3],n.data[1])
                elif n.kind=="result": add(n.data[1],0)
                elif n.kind=="call":
                    for o in n.data[2]: addop(n.ctx,o)
        if self.track: rel.add((0,1)); rel.add((-1,1))
        self.rel=rel

    # ---------------------------------------------------------------- liveness of relevant vars
    def _liveness(self):
        g=self.g; rel=sorted(self.rel); idx={k:i for i,k in enumerate(rel)}
        self.idx=idx; self.vars=rel
        N=len(g.nodes)
        use=[0]*N; kill=[0]*N
        taken=0
        def u(ctx,pl):
            i=idx.get((ctx,pl[0]))
            m=(1<<i) if i is not None else 0
            for pr in pl[1]:
                if pr[0]=="i":
                    j=idx.get((ctx,pr[1]))
                    if j is not None: m|=1<<j
            return m
        def uo(ctx,o): return u(ctx,o[1]) if o[0] in("cp","mv") else 0
        for n in g.nodes:
            k=n.kind; i=n.id
            if k=="assign":
                pl,rv=n.data
                if pl[1]: use[i]|=u(n.ctx,pl)
                else: kill[i]|=u(n.ctx,pl)
                r=rv[0]
                if r=="use": use[i]|=uo(n.ctx,rv[1])
                elif r=="ref":
                    use[i]|=u(n.ctx,rv[2])
                    if not any(p[0]=="*" for p in rv[2][1]): taken|=u(n.ctx,rv[2])
                elif r in("un","cast"): use[i]|=uo(n.ctx,rv[2])
                elif r=="bin": use[i]|=uo(n.ctx,rv[2])|uo(n.ctx,rv[3])
                elif r=="discr": use[i]|=u(n.ctx,rv[1])
                elif r=="agg":
                    for o in rv[5]: use[i]|=uo(n.ctx,o)
                elif r=="rep": use[i]|=uo(n.ctx,rv[1])
            elif k=="switch":
                use[i]|=uo(n.ctx,n.data[1])
                # refining the tested place needs it alive
            elif k=="call":
                for o in n.data[2]: use[i]|=uo(n.ctx,o)
                if n.extra is None:
                    pl=n.data[3]
                    if pl[1]: use[i]|=u(n.ctx,pl)
                    else: kill[i]|=u(n.ctx,pl)
            elif k=="param":
                use[i]|=uo(n.data[3],n.data[1]); kill[i]|=u(n.ctx,[n.data[0],[]])
            elif k=="clparam": kill[i]|=u(n.ctx,[n.data[0],[]])
            elif k=="result":
                use[i]|=u(n.data[1],[0,[]]); 
                if n.data[0][1]: use[i]|=u(n.ctx,n.data[0])
                else: kill[i]|=u(n.ctx,n.data[0])
            elif k=="dead": kill[i]|=u(n.ctx,[n.data,[]])
            elif k in("exit",): use[i]|=u(0,[0,[]])
            elif k=="assert": use[i]|=uo(n.ctx,n.data[1])
        live=[0]*N; 
        work=deque(range(N-1,-1,-1)); inq=[True]*N
        while work:
            i=work.popleft(); inq[i]=False
            out=0
            for (d,_) in g.nodes[i].succ: out|=live[d]
            ni=(out&~kill[i])|use[i]
            if ni!=live[i]:
                live[i]=ni
                for p in g.nodes[i].pred:
                    if not inq[p]: inq[p]=True; work.append(p)
        self.live=live; self.taken=taken

    # ---------------------------------------------------------------- abstract values
    def aval(self,env,op,ctx):
        if op[0]=="c":
            v=op[2]
            if isinstance(v,bool): return ("k",v)
            if isinstance(v,int): return ("k",v)
            return None
        if op[0] in("cp","mv"): return self.aplace(env,op[1],ctx)
        return None
    def root(self,env,pl,ctx):
        """(ctx,local,proj list without deref) the place denotes, or None"""
        c,l=ctx,pl[0]; path=[]
        for pr in pl[1]:
            if pr[0]=="*":
                a=env.get((c,l))
                for x in path: a=self.sub(a,x)
                if a is not None and a[0]=="r":
                    c,l,path=a[1],a[2],list(a[3])
                else: return None
            elif pr[0]=="f": path.append(pr[1])
            elif pr[0]=="d": path.append("#"+pr[1])
            elif pr[0]=="o": pass
            else: return None
        return c,l,path
    @staticmethod
    def sub(a,x):
        if a is None: return None
        if a[0]!="v": return None
        if x[0]=="#":
            return a if a[1]==x[1:] else None
        for fn,y in a[2]:
            if fn==x: return y
        return None
    def aplace(self,env,pl,ctx):
        r=self.root(env,pl,ctx)
        if r is None: return None
        a=env.get((r[0],r[1]))
        for x in r[2]: a=self.sub(a,x)
        return a
    def setpath(self,a,path,val):
        if not path: return val
        x=path[0]
        if x[0]=="#":
            if a is None or a[0]!="v" or a[1]!=x[1:]: a=("v",x[1:],())
            return self.setpath(a,path[1:],val)
        if a is None or a[0]!="v":
            if val is None: return a
            a=("v","",())
        fs=dict(a[2]); nv=self.setpath(fs.get(x),path[1:],val)
        if nv is None: fs.pop(x,None)
        else: fs[x]=nv
        return ("v",a[1],tuple(sorted(fs.items())))
    def store(self,env,pl,ctx,val):
        r=self.root(env,pl,ctx)
        if r is None: return
        k=(r[0],r[1])
        if k not in self.rel: return
        if val is not None and val[0]=="u" and (r[2] or k[0]==-1): val=None
        if not r[2]:
            if val is None: env.pop(k,None)
            else: env[k]=val
        else:
            a=self.setpath(env.get(k),r[2],val)
            if a is None or (a[0]=="v" and a[1]=="" and not a[2]): env.pop(k,None)
            else: env[k]=a
    def depth(self,a):
        if a is None or a[0]!="v": return 0
        return 1+max([self.depth(f) for _,f in a[2]] or [0])
    def trim(self,a,d=4):
        if a is None or a[0]!="v": return a
        if d==0: return ("v",a[1],())
        return ("v",a[1],tuple((n,self.trim(f,d-1)) for n,f in a[2] if f is not None))
    def arv(self,env,rv,ctx,destty=""):
        k=rv[0]
        if k=="use": return self.aval(env,rv[1],ctx)
        if k=="ref":
            r=self.root(env,rv[2],ctx)
            if r is None:
                return None
            if (r[0],r[1]) not in self.rel: return None
            return ("r",r[0],r[1],tuple(r[2]),rv[1])
        if k=="discr":
            a=self.aplace(env,rv[1],ctx)
            if a is not None and a[0]=="v" and a[1]:
                d=self.disc.get(rv[2])
                if d and a[1] in d[0]: return ("k",d[0][a[1]])
            return None
        if k=="agg":
            if rv[1]=="adt":
                fs=tuple((n,self.known(self.aval(env,o,ctx))) for n,o in zip(rv[4],rv[5]))
                return self.trim(("v",rv[3],tuple(sorted((n,a) for n,a in fs if a is not None))))
            if rv[1] in("tuple","closure","coroutine"):
                fs=tuple((str(i),self.known(self.aval(env,o,ctx))) for i,o in enumerate(rv[5]))
                fs=tuple(sorted((n,a) for n,a in fs if a is not None))
                return self.trim(("v","",fs)) if fs else None
            return None
        if k=="un":
            a=self.aval(env,rv[2],ctx)
            if rv[1]=="Not" and a is not None and a[0]=="k" and isinstance(a[1],bool): return ("k",not a[1])
            if rv[1]=="Not" and a is not None and a[0]=="u": return ("u",a[1],not a[2])
            return None
        if k=="cast":
            return self.aval(env,rv[2],ctx)
        if k=="bin":
            a=self.aval(env,rv[2],ctx); b=self.aval(env,rv[3],ctx)
            if a and b and a[0]=="k" and b[0]=="k":
                if rv[1]=="Eq": return ("k",a[1]==b[1])
                if rv[1]=="Ne": return ("k",a[1]!=b[1])
                if rv[1] in("Lt","Le","Gt","Ge"): return ("k",{"Lt":a[1]<b[1],"Le":a[1]<=b[1],"Gt":a[1]>b[1],"Ge":a[1]>=b[1]}[rv[1]])
            if rv[1]=="BitAnd":
                if a==("k",False) or b==("k",False): return ("k",False)
                if a==("k",True): return b
                if b==("k",True): return a
            if rv[1]=="BitOr":
                if a==("k",True) or b==("k",True): return ("k",True)
                if a==("k",False): return b
                if b==("k",False): return a
            return None
        return None
    @staticmethod
    def known(a): return None if a is not None and a[0]=="u" else a
    def deref(self,env,a):
        """value behind alias chains"""
        n=0
        while a is not None and a[0]=="r" and n<6:
            b=env.get((a[1],a[2]))
            for x in a[3]: b=self.sub(b,x)
            a=b; n+=1
        return a
    def acall(self,env,n):
        """abstract result of an external call"""
        f=n.data[1]
        if f[0]!="fn": return None
        c=f[1]; nm=last(c["d"]); d=c["d"]
        args=[self.known(self.aval(env,o,n.ctx)) for o in n.data[2]]
        if d.startswith("ctor:"):
            path=d[5:]; owner,var=path.rsplit("::",1)
            name=var
            return self.trim(("v",name,tuple((str(i),a) for i,a in enumerate(args) if a is not None)))
        if is_transparent(c) and args:
            x=args[0]
            if x is not None and x[0]=="r" and nm in("deref","deref_mut","as_mut","get_mut","as_ref","get_ref","clone","get_unchecked_mut"):
                b=env.get((x[1],x[2]))
                for y in x[3]: b=self.sub(b,y)
                if b is not None and b[0]=="r": return b
                if nm in("as_mut","as_ref") and b is not None and b[0]=="v" and b[1]: return ("v",b[1],())
                if nm in("as_mut","as_ref") and kind_of(c["st"])=="Option": return None
                if nm=="clone": return b
            return x
        a=self.deref(env,args[0]) if args else None
        if nm=="branch" and d=="core::ops::try_trait::Try::branch":
            if a and a[0]=="v":
                if a[1] in("Ok","Some"): return ("v","Continue",a[2])
                if a[1]=="Err": return ("v","Break",(("0",("v","Err",a[2])),))
                if a[1]=="None": return ("v","Break",(("0",("v","None",())),))
                if a[1]=="Pending": return ("v","Continue",(("0",a),))
                if a[1]=="Ready":
                    inner=dict(a[2]).get("0")
                    k=kind_of(c["st"])
                    if inner and inner[0]=="v":
                        if inner[1]=="Ok": return ("v","Continue",(("0",("v","Ready",inner[2])),))
                        if inner[1]=="Err": return ("v","Break",(("0",("v","Err",inner[2])),))
                        if inner[1]=="None": return ("v","Continue",(("0",a),))
                        x=dict(inner[2]).get("0")
                        if inner[1]=="Some" and x and x[0]=="v":
                            if x[1]=="Ok": return ("v","Continue",(("0",("v","Ready",(("0",("v","Some",x[2])),))),))
                            if x[1]=="Err": return ("v","Break",(("0",("v","Err",x[2])),))
            return None
        if nm=="from_residual":
            t=n.body.locals[n.data[3][0]][2] if not n.data[3][1] else ""
            k=kind_of(t)
            ep=()
            if a and a[0]=="v" and a[1]=="Err" and n.data[2] and n.data[2][0][0] in("cp","mv") and not n.data[2][0][1][1]:
                if errty(n.body.locals[n.data[2][0][1][0]][2])==errty(t): ep=a[2]     # From<E> for E
            if k=="Result": return ("v","Err",ep)
            if k=="Option": return ("v","None",())
            if k=="Poll":
                e=("v","Err",ep)
                if "option::Option<" in t[:48]: e=("v","Some",(("0",e),))
                return ("v","Ready",(("0",e),))
            return None
        if nm=="discriminant_value" and c["ga"]:
            dd=self.disc.get(c["ga"][0].lstrip("&"))
            if dd and a and a[0]=="v" and a[1] in dd[0]: return ("k",dd[0][a[1]])
            return None
        if nm=="from_output":
            return None
        if nm in("is_some","is_none","is_ok","is_err","is_ready","is_pending"):
            if a and a[0]=="v" and a[1]:
                return ("k",{"is_some":"Some","is_none":"None","is_ok":"Ok","is_err":"Err","is_ready":"Ready","is_pending":"Pending"}[nm]==a[1])
            return None
        if nm in("map","map_err","inspect","inspect_err") and a and a[0]=="v" and a[1] in("Ok","Err","Some","None","Ready","Pending") and d.startswith(("core::option","core::result","core::task")):
            return ("v",a[1],())
        if nm in("and_then",) and a and a[0]=="v" and a[1] in("Err","None"): return ("v",a[1],())
        if nm in("ok",) and a and a[0]=="v": return {"Ok":("v","Some",a[2] if a[1]=="Ok" else ()),"Err":("v","None",())}.get(a[1])
        if nm in("ok_or","ok_or_else") and a and a[0]=="v": return {"Some":("v","Ok",a[2]),"None":("v","Err",())}.get(a[1])
        if nm in("unwrap","expect") and a and a[0]=="v" and a[1] in("Some","Ok"): return dict(a[2]).get("0")
        if nm in("unwrap_or_default","unwrap_or") and a and a[0]=="v" and a[1] in("Some","Ok"): return dict(a[2]).get("0")
        if nm in("eq","ne") and len(args)==2 and d.startswith("core::cmp"):
            b=self.deref(env,args[1])
            if a and b and a[0]=="v" and b[0]=="v" and a[1] and b[1] and a[1]!=b[1]: return ("k",nm=="ne")
            if a and b and a[0]=="v" and b[0]=="v" and a[1] and a[1]==b[1]:
                ad=self.g.p.adts.get((c.get("ga") or [""])[0].lstrip("&"))
                if ad and ad["kind"]=="enum" and all(not v[2] for v in ad["variants"]): return ("k",nm=="eq")
            if a and b and a[0]=="k" and b[0]=="k": return ("k",(a[1]==b[1])==(nm=="eq"))
        if nm=="not" and d=="core::ops::bit::Not::not" and a and a[0]=="k" and isinstance(a[1],bool): return ("k",not a[1])
        if nm=="take" and d.startswith("core::option") and a is not None: return a
        if nm=="next" and d.endswith("Iterator::next") and a and a[0]=="v":
            # first step of a constant range
            fs=dict(a[2]); lo,hi=fs.get("start"),fs.get("end")
            if lo and hi and lo[0]=="k" and hi[0]=="k" and isinstance(lo[1],int) and isinstance(hi[1],int): return ("v","Some",(("0",lo),)) if lo[1]<hi[1] else ("v","None",())
        return None

    # ---------------------------------------------------------------- exploration
    def _prune(self,env,nid):
        live=self.live[nid]
        keep=[]
        idx=self.idx; tk=self.taken
        for k,v in env.items():
            if k[0]==-1:
                v=self._memtrim(v,())
                if v is not None: keep.append((k,v))
                continue
            i=idx.get(k)
            if i is None: continue
            b=1<<i
            if (live&b) or (tk&b): keep.append((k,v))
        keep.sort()
        return tuple(keep)

    def _memtrim(self,v,path):
        """keeps only tracked field paths"""
        p=".".join(path)
        if p in self.track: return self.trim(v,3)
        if v is None or v[0]!="v": return None
        fs=[]
        for n,f in v[2]:
            q=path+(n,)
            qs=".".join(q)
            if any(t==qs or t.startswith(qs+".") for t in self.track):
                x=self._memtrim(f,q)
                if x is not None: fs.append((n,x))
        return ("v",v[1],tuple(fs)) if fs else None

    def _run(self,start_env):
        g=self.g
        self.states=[]      # (nid, env)
        self.succ=[]        # list of [(state, succ index of node)]
        index={}
        percount={}
        self.widened=0
        def mk(nid,env):
            e=self._prune(env,nid)
            k=(nid,e)
            s=index.get(k)
            if s is None:
                c=percount.get(nid,0)
                if c>=self.per_node or len(self.states)>self.cap:
                    e=(); k=(nid,e); s=index.get(k); self.widened+=1
                    if s is not None: return s
                percount[nid]=c+1
                s=len(self.states); index[k]=s
                self.states.append((nid,e)); self.succ.append(None); work.append(s)
            return s
        work=[]
        self.start=mk(g.entry,dict(start_env))
        self.child_ctx={}
        while work:
            s=work.pop()
            nid,e=self.states[s]
            n=g.nodes[nid]
            outs=[]
            for (i,env) in self._step(n,dict(e)):
                outs.append((mk(n.succ[i%len(n.succ)][0],env),i))
            self.succ[s]=outs
        self.pred=[[] for _ in self.states]
        for s,o in enumerate(self.succ):
            for d,i in o: self.pred[d].append((s,i))
        self.by_node={}
        for s,(nid,_) in enumerate(self.states): self.by_node.setdefault(nid,[]).append(s)

    def _step(self,n,env):
        k=n.kind
        if k=="assign":
            a=self.arv(env,n.data[1],n.ctx)
            if a is None and n.id in self.unk: a=("u",n.id,False)
            self.store(env,n.data[0],n.ctx,a)
        elif k=="setdiscr":
            self.store(env,n.data[0],n.ctx,("v",n.data[1],()))
        elif k=="dead":
            env.pop((n.ctx,n.data),None)
        elif k=="param":
            l,a,fi,pctx=n.data
            v=self.aval(env,a,pctx)
            if fi is not None: v=self.sub(v,str(fi))
            self.store(env,[l,[]],n.ctx,v)
        elif k=="clparam":
            env.pop((n.ctx,n.data[0]),None)
        elif k=="result":
            dest,c2,mode=n.data
            v=env.get((c2,0))
            if mode=="coro": v=("v","Ready",(("0",v),) if v is not None else ())
            for kk in [kk for kk in env if kk[0]>=c2 and self._desc(kk[0],c2)]: env.pop(kk,None)
            if v is not None and self._dangling(v,c2): v=None
            self.store(env,dest,n.ctx,v)
        elif k=="hub":
            for kk in [kk for kk in env if kk[0]!=n.ctx and kk[0]>n.ctx and self._desc(kk[0],n.ctx,strict_call=True,node=n)]: env.pop(kk,None)
        elif k=="call":
            if n.extra is None:
                sp=self._split(env,n)
                if sp is not None:
                    outs=[]
                    for a in sp:
                        e=dict(env)
                        for o in n.data[2]: self._clobber(e,self.aval(e,o,n.ctx),n)
                        self.store(e,n.data[3],n.ctx,a)
                        outs+=[(i,e if len(n.succ)==1 else dict(e)) for i in range(len(n.succ))]
                    return outs
                a=self.acall(env,n)
                # arguments handed out by mutable alias may change
                for o in n.data[2]:
                    x=self.aval(env,o,n.ctx)
                    self._clobber(env,x,n)
                if a is None and n.id in self.unk: a=("u",n.id,False)
                self.store(env,n.data[3],n.ctx,a)
        elif k=="yield":
            self.store(env,n.data[3],n.ctx,None)
        elif k=="switch":
            return self._switch(n,env)
        return [(i,env if len(n.succ)==1 else dict(env)) for i in range(len(n.succ))]

    def _split(self,env,n):
        """results of adapters that give the error side a known value, as separate cases"""
        f=n.data[1]
        if f[0]!="fn" or n.data[3][1] or (n.ctx,n.data[3][0]) not in self.rel: return None
        c=f[1]; nm=last(c["d"]); d=c["d"]
        if nm=="branch" and d=="core::ops::try_trait::Try::branch":
            # Poll<Result<..>> / Poll<Option<Result<..>>> known to be ready: the payload decides
            a=self.deref(env,self.aval(env,n.data[2][0],n.ctx))
            if a and a[0]=="v" and a[1]=="Ready" and kind_of(c["st"])=="Poll":
                x=dict(a[2]).get("0")
                if x is not None and x[0]=="v" and x[1]=="Some": x=dict(x[2]).get("0")
                if x is None or x[0]!="v" or not x[1]: return [("v","Continue",(("0",("v","Ready",())),)),("v","Break",(("0",("v","Err",())),))]
            return None
        if nm not in("map_err","ok_or","ok_or_else") or not d.startswith(("core::option","core::result")): return None
        a=self.deref(env,self.aval(env,n.data[2][0],n.ctx))
        if nm=="ok_or": ev=self.aval(env,n.data[2][1],n.ctx)
        else:
            k=self.g._peek(n.data[2][1],n.ctx,0)
            ev=self._const_ret(k[1]) if k and k[0]=="closure" else None
        ev=self.trim(ev,2)
        err=("v","Err",(("0",ev),) if ev is not None else ())
        if a is None or a[0]!="v" or not a[1]:
            if ev is None: return None
            return [("v","Ok",()),err]
        if a[1] in("Ok","Some"): return [("v","Ok",a[2])]
        return [err]
    _cr={}
    def _const_ret(self,key):
        """variant every return of a closure yields"""
        if key in self._cr: return self._cr[key]
        b=self.g.p.bodies.get(key); r=None
        if b is not None:
            vs=set()
            for bl in b.blocks:
                if bl["c"]: continue
                for st in bl["s"]:
                    if st[0]=="=" and st[1]==[0,[]]:
                        vs.add(st[2][3] if st[2][0]=="agg" and st[2][1]=="adt" and st[2][3] else None)
                if bl["t"][0]=="call" and bl["t"][3]==[0,[]]: vs.add(None)
            if len(vs)==1 and None not in vs: r=("v",vs.pop(),())
        self._cr[key]=r
        return r

    SAFE={"as_mut","as_ref","deref","deref_mut","new","new_unchecked","get_mut"}
    def _clobber(self,env,x,n):
        if x is None: return
        if x[0]=="r":
            if x[4]=="s": return
            if n.data[1][0]=="fn" and last(n.data[1][1]["d"])=="take" and n.data[1][1]["d"].startswith("core::option") :
                k=(x[1],x[2])
                if k in self.rel:
                    env[k]=self.setpath(env.get(k),list(x[3]),("v","None",()))
                return
            c=n.data[1][1] if n.data[1][0]=="fn" else None
            if c is not None and is_transparent(c): return
            k=(x[1],x[2])
            if k in env:
                a=self.setpath(env.get(k),list(x[3]),None) if x[3] else None
                if a is None: env.pop(k,None)
                else: env[k]=a
        elif x[0]=="v":
            for _,y in x[2]: self._clobber(env,y,n)
    def _dangling(self,v,c2):
        if v[0]=="r": return self._desc(v[1],c2)
        if v[0]=="v": return any(f is not None and self._dangling(f,c2) for _,f in v[2])
        return False
    def _desc(self,c,anc,strict_call=False,node=None):
        while c is not None:
            if c==anc: return not strict_call
            p,cn,_=self.g.ctxs[c]
            if strict_call and p==anc and cn is not None:
                # ctx created by the external call preceding this hub
                return self.g.nodes[cn].succ and self.g.nodes[cn].succ[0][0]==node.id
            c=p
        return False

    def _switch(self,n,env):
        op=n.data[1]; g=self.g
        a=self.aval(env,op,n.ctx)
        if a is not None and a[0]=="k":
            v=a[1]; v=str(int(v)) if isinstance(v,bool) else str(v)
            for i,(d,lab) in enumerate(n.succ):
                if lab[0]=="v" and lab[1]==v: return [(i,env)]
            for i,(d,lab) in enumerate(n.succ):
                if lab[0]=="o" and v not in lab[1]: return [(i,env)]
            return []
        base=0
        if a is not None and a[0]=="u": base=self.xsucc.get(n.id,{}).get((a[1],a[2]),0)
        outs=[]
        # what is tested?
        tested=None
        if op[0] in("cp","mv") and not op[1][1]:
            ds=g.defs.get((n.ctx,op[1][0]),[])
            if len(ds)==1 and g.nodes[ds[0]].kind=="assign":
                rv=g.nodes[ds[0]].data[1]
                if rv[0]=="discr": tested=("discr",rv[1],rv[2],g.nodes[ds[0]].ctx)
        for i,(d,lab) in enumerate(n.succ):
            e=dict(env)
            if tested:
                dd=self.disc.get(tested[2])
                if dd:
                    if lab[0]=="v": var=dd[1].get(lab[1])
                    else:
                        rest=[v for v in dd[2] if str(dd[0][v]) not in lab[1]]
                        if not rest: continue
                        var=rest[0] if len(rest)==1 else None
                    if var:
                        r=self.root(e,tested[1],tested[3])
                        if r is not None and (r[0],r[1]) in self.rel:
                            cur=self.aplace(e,tested[1],tested[3])
                            if cur is None: self.store(e,tested[1],tested[3],("v",var,()))
            elif op[0] in("cp","mv") and not op[1][1] and n.data[4]=="bool":
                if lab[0]=="v": self.store(e,op[1],n.ctx,("k",lab[1]!="0"))
                elif "0" in lab[1]: self.store(e,op[1],n.ctx,("k",True))
            outs.append((base+i,e))
        return outs

    # ---------------------------------------------------------------- rules
    def find_path(self,starts,is_target,avoid_node=None,avoid_edge=None):
        """shortest path of states from starts to a target; nodes/edges satisfying the avoid predicates are cut.
        avoid_node is evaluated on base node ids (a start state is never cut)."""
        seen={s:None for s in starts}
        dq=deque(starts)
        an={}; ae={}
        while dq:
            s=dq.popleft()
            nid=self.states[s][0]
            if is_target(s) :
                path=[]
                while s is not None: path.append(s); s=seen[s]
                path.reverse(); return path
            for d,i in self.succ[s]:
                if d in seen: continue
                dn=self.states[d][0]
                if avoid_node is not None:
                    r=an.get(dn)
                    if r is None: r=an[dn]=bool(avoid_node(dn))
                    if r: continue
                if avoid_edge is not None:
                    r=ae.get((nid,i))
                    if r is None: r=ae[(nid,i)]=bool(avoid_edge(nid,i))
                    if r: continue
                seen[d]=s; dq.append(d)
        return None
    def edge_fact(self,nid,i):
        n=self.g.nodes[nid]
        if n.kind!="switch": return None
        return self.facts.of(nid)[i]
    def reachable_nodes(self):
        return set(n for n,_ in self.states)
    def describe(self,path,maxn=12):
        """human readable decision trail of a path"""
        out=[]; lastl=None
        for a,b in zip(path,path[1:]):
            nid=self.states[a][0]; n=self.g.nodes[nid]
            if n.kind=="switch":
                i=[i for d,i in self.succ[a] if d==b][0]
                l=n.span
                if l and l!=lastl: out.append(l); lastl=l
            elif n.kind=="call" and n.extra is None:
                l=n.span
                if l and l!=lastl: out.append(l); lastl=l
        if len(out)>maxn: out=out[:maxn//2]+["..."]+out[-maxn//2:]
        return " -> ".join(out)
