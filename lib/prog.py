"""Loads the exported program (MIR as built) of the workspace crates."""
import json, os, re

class Body:
    __slots__ = ("key","qual","name","kind","vis","parent","root","self_ty","trait","span","argc","locals","ups","blocks","crate","short")
    def __init__(self, d, crate):
        self.key=d["key"]; self.qual=d["qual"]; self.name=d["name"]; self.kind=d["kind"]; self.vis=d["vis"]
        self.parent=d["parent"]; self.root=d["root"]; self.self_ty=d["self"]; self.trait=d["trait"]; self.span=d["span"]
        self.argc=d["argc"]; self.locals=d["locals"]; self.ups=dict((i,n) for i,n in d["ups"]); self.blocks=d["blocks"]
        self.crate=crate

class Program:
    def __init__(self):
        self.bodies={}      # key -> Body
        self.adts={}        # path -> adt
        self.impls=[]
        self.consts={}
        self.unsafe=[]
        self.children={}    # key -> [child closure keys]
        self.crates=[]
    @staticmethod
    def load(dirname, crates=None):
        p=Program()
        for f in sorted(os.listdir(dirname)):
            if not f.endswith(".json") or f.startswith("build_script"): continue
            if crates and f[:-5] not in crates: continue
            with open(os.path.join(dirname,f)) as fh: d=json.load(fh)
            p.add(d)
        return p
    @staticmethod
    def _prune_logging(blocks):
        """log statements are taken as disabled: `lvl <= STATIC_MAX_LEVEL` is false"""
        n=0
        for b in blocks:
            t=b["t"]
            if t[0]=="call" and t[1][0]=="fn" and t[1][1]["d"]=="core::cmp::PartialOrd::le" and t[1][1]["st"].startswith("log::Level") and t[4] is not None:
                tb=blocks[t[4]]
                if tb["t"][0]=="switch":
                    z=[x for v,x in tb["t"][2] if v=="0"]
                    if z:
                        tb["t"]=["goto",z[0]]; b["t"]=["goto",t[4]]; n+=1
        return n
    @classmethod
    def _loops(cls,b):
        """what goes through an iterator with a function is the loop it stands for: `while let Some(x) = iter.next() { .. f(x) .. }`"""
        blocks=b["blocks"]; loc=b["locals"]; n=0; IT="core::iter::traits::iterator::Iterator::"; OPT=cls.OPT
        for i in range(len(blocks)):
            t=blocks[i]["t"]
            if t[0]!="call" or t[1][0]!="fn" or not t[1][1]["d"].startswith(IT) or t[4] is None: continue
            nm=t[1][1]["d"][len(IT):]
            if nm not in("for_each","find_map","find","any","all","try_for_each"): continue
            c=t[1][1]; it,f=t[2]; dst=t[3]; sp=t[5]; rest=t[6:]
            if nm=="try_for_each" and(dst[1] or loc[dst[0]][0] not in(OPT,cls.RES)): continue
            if it[0] not in("cp","mv") or it[1][1] or not(f[0]=="fn" or f[0] in("cp","mv") and not f[1][1]): continue
            def local(*ty): loc.append(list(ty)); return len(loc)-1
            def block(st,t): blocks.append({"s":st,"t":t,"c":0}); return len(blocks)-1
            ity=loc[it[1][0]]
            op=local(OPT,"","std::option::Option<_>"); dn=local("isize","","isize"); x=local("_","","_"); u=local("()","","()")
            if nm=="find_map": loc[u]=[OPT,"","std::option::Option<_>"]
            elif nm=="try_for_each": loc[u]=list(loc[dst[0]])
            elif nm!="for_each": loc[u]=["bool","","bool"]
            st=[["=",[x,[]],["use",["mv",[op,[["d","Some"],["f","0",OPT]]]]],sp]]; arg=["mv",[x,[]]]
            if nm=="find":
                xr=local("&_","","&_"); st.append(["=",[xr,[]],["ref","s",[x,[]]],sp]); arg=["mv",[xr,[]]]
            if f[0]=="fn": body=block(st,["call",f,[arg],[u,[]],None,sp]+rest)
            else:
                tu=local("(_,)","","(_,)"); fr=local("&mut "+loc[f[1][0]][0],"","&mut "+loc[f[1][0]][2])
                cm={"d":"core::ops::function::FnMut::call_mut","q":"core::ops::function::FnMut::call_mut","k":"core::ops::function::FnMut::call_mut","kr":"core","st":loc[f[1][0]][2],"ga":[loc[f[1][0]][0]],"v":False,"co":""}
                body=block(st+[["=",[tu,[]],["agg","tuple","","",[],[arg]],sp],["=",[fr,[]],["ref","m",[f[1][0],[]]],sp]],["call",["fn",cm],[["mv",[fr,[]]],["mv",[tu,[]]]],[u,[]],None,sp]+rest)
            dead=block([],["unreach"]); end=t[4]
            def given(rv): return block([["=",dst,rv,sp]],["goto",t[4]])
            if nm in("find_map","find"): end=given(["agg","adt",OPT,"None",[],[]])
            elif nm=="try_for_each":
                un=local("()","","()"); good="Some" if loc[u][0]==OPT else "Ok"
                end=block([["=",[un,[]],["agg","tuple","","",[],[]],sp],["=",dst,["agg","adt",loc[u][0],good,["0"],[["mv",[un,[]]]]],sp]],["goto",t[4]])
            elif nm in("any","all"): end=given(["use",["c","bool",nm=="all","",""]])
            sw=block([["=",[dn,[]],["discr",[op,[]],OPT],sp]],["switch",["mv",[dn,[]]],[["0",end],["1",body]],dead,"isize",sp])
            nx=dict(c,d=IT+"next",q=IT+"next",k=IT+"next",ga=c["ga"][:1])
            if nm=="for_each":
                rf=local("&mut "+ity[0],"","&mut "+ity[2])
                head=block([["=",[rf,[]],["ref","m",[it[1][0],[]]],sp]],["call",["fn",nx],[["mv",[rf,[]]]],[op,[]],sw,sp]+rest)
            else: head=block([],["call",["fn",nx],[["cp",it[1]]],[op,[]],sw,sp]+rest)
            nxt=head
            if nm=="find_map":
                d2=local("isize","","isize"); nxt=block([["=",[d2,[]],["discr",[u,[]],OPT],sp]],["switch",["mv",[d2,[]]],[["0",head],["1",given(["use",["mv",[u,[]]]])]],dead,"isize",sp])
            elif nm=="try_for_each":
                d2=local("isize","","isize"); out=given(["use",["mv",[u,[]]]]); sw2=[["0",out],["1",head]] if loc[u][0]==OPT else [["0",head],["1",out]]
                nxt=block([["=",[d2,[]],["discr",[u,[]],loc[u][0]],sp]],["switch",["mv",[d2,[]]],sw2,dead,"isize",sp])
            elif nm!="for_each":
                hit=given(["agg","adt",OPT,"Some",["0"],[["mv",[x,[]]]]] if nm=="find" else ["use",["c","bool",nm=="any","",""]])
                nxt=block([],["switch",["mv",[u,[]]],[["0",hit if nm=="all" else head]],head if nm=="all" else hit,"bool",sp])
            blocks[body]["t"][4]=nxt
            blocks[i]["t"]=["goto",head]; n+=1
        return n
    @classmethod
    def _adaptors(cls,b):
        """an iterator filtered or mapped and only gone through here is the plain iterator, each item tested or mapped where it is taken"""
        blocks=b["blocks"]; loc=b["locals"]; n=0; IT="core::iter::traits::iterator::Iterator::"; OPT=cls.OPT
        KINDS={IT+"filter":"filter",IT+"map":"map",IT+"filter_map":"filter_map"}; INTO="core::iter::traits::collect::IntoIterator::into_iter"
        if not any(x["t"][0]=="call" and x["t"][1][0]=="fn" and x["t"][1][1]["d"] in KINDS for x in blocks): return 0
        def bare(o): return o[0] in("cp","mv") and not o[1][1]
        def local(*ty): loc.append(list(ty)); return len(loc)-1
        def block(st,t): blocks.append({"s":st,"t":t,"c":0}); return len(blocks)-1
        def mentions(x,ls):
            """locals of ls used as the base of a place in x"""
            if isinstance(x,list):
                if len(x)==2 and isinstance(x[0],int) and not isinstance(x[0],bool) and isinstance(x[1],list): return x[0] in ls or mentions(x[1],ls)
                return any(mentions(y,ls) for y in x)
            return False
        def takers(l):
            """the `next` calls on what is in local l, None when it is used otherwise"""
            al={l}; out=[]
            while True:
                more=set(al); out=[]
                for k,x in enumerate(blocks):
                    for st in x["s"]:
                        if st[0]!="=": continue
                        rv=st[2]
                        if not mentions(rv,al): continue
                        if st[1][1]: return None
                        if rv[0]=="use" and bare(rv[1]) or rv[0]=="ref" and (not rv[2][1] or len(rv[2][1])==1 and rv[2][1][0][0]=="*"): more.add(st[1][0])
                        else: return None
                    t=x["t"]
                    if t[0]=="call":
                        if not mentions(t[2],al): continue
                        if t[1][0]!="fn" or not bare(t[2][0]) or t[4] is None or mentions(t[2][1:],al) or t[3][1]: return None
                        d=t[1][1]["d"]
                        if d==INTO: more.add(t[3][0])
                        elif d==IT+"next": out.append(k)
                        else: return None
                    elif t[0]=="switch" and mentions(t[1],al): return None
                if 0 in more: return None
                if more==al: return out
                al=more
        again=True
        while again:
            again=False
            for i in range(len(blocks)):
                t=blocks[i]["t"]
                if t[0]!="call" or t[1][0]!="fn" or t[1][1]["d"] not in KINDS or t[4] is None or t[3][1] or len(t[2])!=2: continue
                it,f=t[2]
                if not bare(it) or not(f[0]=="fn" or bare(f)): continue
                nx=takers(t[3][0])
                if not nx: continue
                kind=KINDS[t[1][1]["d"]]
                for k in nx:
                    c=blocks[k]["t"]; sp=c[5]; rest=c[6:]; op=c[3][0]; end=c[4]
                    head=block([],c); blocks[k]["t"]=["goto",head]
                    dn=local("isize","","isize"); x=local("_","","_"); u=local("_","","_"); tu=local("(_,)","","(_,)")
                    if kind=="filter": loc[u]=["bool","","bool"]
                    elif kind=="filter_map": loc[u]=[OPT,"","std::option::Option<_>"]
                    item=[op,[["d","Some"],["f","0",OPT]]]
                    st=[["=",[x,[]],["ref","s",item] if kind=="filter" else ["use",["mv",item]],sp]]; arg=["mv",[x,[]]]
                    if f[0]=="fn": body=block(st,["call",f,[arg],[u,[]],None,sp]+rest)
                    else:
                        fr=local("&mut "+loc[f[1][0]][0],"","&mut "+loc[f[1][0]][2])
                        cm={"d":"core::ops::function::FnMut::call_mut","q":"core::ops::function::FnMut::call_mut","k":"core::ops::function::FnMut::call_mut","kr":"core","st":loc[f[1][0]][2],"ga":[loc[f[1][0]][0]],"v":False,"co":""}
                        body=block(st+[["=",[tu,[]],["agg","tuple","","",[],[arg]],sp],["=",[fr,[]],["ref","m",[f[1][0],[]]],sp]],["call",["fn",cm],[["mv",[fr,[]]],["mv",[tu,[]]]],[u,[]],None,sp]+rest)
                    dead=block([],["unreach"])
                    if kind=="filter": nxt=block([],["switch",["mv",[u,[]]],[["0",head]],end,"bool",sp])
                    elif kind=="map": nxt=block([["=",[op,[]],["agg","adt",OPT,"Some",["0"],[["mv",[u,[]]]]],sp]],["goto",end])
                    else:
                        d2=local("isize","","isize"); got=block([["=",[op,[]],["use",["mv",[u,[]]]],sp]],["goto",end])
                        nxt=block([["=",[d2,[]],["discr",[u,[]],OPT],sp]],["switch",["mv",[d2,[]]],[["0",head],["1",got]],dead,"isize",sp])
                    blocks[body]["t"][4]=nxt
                    none=end if kind=="filter" else block([["=",[op,[]],["agg","adt",OPT,"None",[],[]],sp]],["goto",end])
                    c[4]=block([["=",[dn,[]],["discr",[op,[]],OPT],sp]],["switch",["mv",[dn,[]]],[["0",none],["1",body]],dead,"isize",sp])
                blocks[i]["s"].append(["=",t[3],["use",it],t[5]]); blocks[i]["t"]=["goto",t[4]]; n+=1; again=True
        return n
    @classmethod
    def _collects(cls,b):
        """what is filtered or mapped and collected in a vector is the loop that pushes it there"""
        blocks=b["blocks"]; loc=b["locals"]; n=0; IT="core::iter::traits::iterator::Iterator::"; OPT=cls.OPT; VEC="alloc::vec::Vec"
        made={x["t"][3][0] for x in blocks if x["t"][0]=="call" and x["t"][1][0]=="fn" and x["t"][1][1]["d"] in(IT+"filter",IT+"map",IT+"filter_map") and not x["t"][3][1]}
        for i in range(len(blocks)):
            t=blocks[i]["t"]
            if t[0]!="call" or t[1][0]!="fn" or t[1][1]["d"]!=IT+"collect" or t[4] is None or t[3][1] or loc[t[3][0]][0]!=VEC: continue
            it=t[2][0]; sp=t[5]; rest=t[6:]; dst=t[3]
            if it[0] not in("cp","mv") or it[1][1] or it[1][0] not in made: continue
            def local(*ty): loc.append(list(ty)); return len(loc)-1
            def block(st,t): blocks.append({"s":st,"t":t,"c":0}); return len(blocks)-1
            def fn(q,ga,st): return ["fn",{"d":q,"q":q,"k":q,"kr":"alloc","st":st,"ga":ga,"v":False,"co":""}]
            op=local(OPT,"","std::option::Option<_>"); dn=local("isize","","isize"); x=local("_","","_"); un=local("()","","()"); ity=loc[it[1][0]]
            rf=local("&mut "+ity[0],"","&mut "+ity[2]); vr=local("&mut "+VEC,"","&mut "+loc[dst[0]][2]); c=t[1][1]
            dead=block([],["unreach"])
            body=block([["=",[x,[]],["use",["mv",[op,[["d","Some"],["f","0",OPT]]]]],sp],["=",[vr,[]],["ref","m",dst],sp]],["call",fn(VEC+"::push",[],loc[dst[0]][2]),[["mv",[vr,[]]],["mv",[x,[]]]],[un,[]],None,sp]+rest)
            sw=block([["=",[dn,[]],["discr",[op,[]],OPT],sp]],["switch",["mv",[dn,[]]],[["0",t[4]],["1",body]],dead,"isize",sp])
            nx=dict(c,d=IT+"next",q=IT+"next",k=IT+"next",ga=c["ga"][:1])
            head=block([["=",[rf,[]],["ref","m",[it[1][0],[]]],sp]],["call",["fn",nx],[["mv",[rf,[]]]],[op,[]],sw,sp]+rest)
            blocks[body]["t"][4]=head
            blocks[i]["t"]=["call",fn(VEC+"::new",[],loc[dst[0]][2]),[],dst,head,sp]+rest; n+=1
        return n
    OPT="core::option::Option"; RES="core::result::Result"; POLL="core::task::poll::Poll"
    # what a combinator gives for each variant of its receiver: (variant of the result or None for the bare value, what it holds);
    # "x": what the receiver holds, "0": nothing, "z": the default of its type, a number k: result of calling argument k with it, ("v",k): argument k itself
    MATCH={(OPT,"map"):(OPT,{"Some":("Some",1),"None":("None","0")}),
           (OPT,"and_then"):(OPT,{"Some":(None,1),"None":("None","0")}),
           (OPT,"or_else"):(OPT,{"Some":("Some","x"),"None":(None,1)}),
           (OPT,"unwrap_or_else"):(OPT,{"Some":(None,"x"),"None":(None,1)}),
           (OPT,"map_or"):(OPT,{"Some":(None,2),"None":(None,("v",1))}),
           (OPT,"map_or_else"):(OPT,{"Some":(None,2),"None":(None,1)}),
           (OPT,"unwrap_or"):(OPT,{"Some":(None,"x"),"None":(None,("v",1))}),
           (OPT,"unwrap_or_default"):(OPT,{"Some":(None,"x"),"None":(None,"z")}),
           (OPT,"ok_or"):(RES,{"Some":("Ok","x"),"None":("Err",("v",1))}),
           (RES,"unwrap_or"):(RES,{"Ok":(None,"x"),"Err":(None,("v",1))}),
           (RES,"unwrap_or_default"):(RES,{"Ok":(None,"x"),"Err":(None,"z")}),
           (RES,"ok"):(OPT,{"Ok":("Some","x"),"Err":("None","0")}),
           (OPT,"ok_or_else"):(RES,{"Some":("Ok","x"),"None":("Err",1)}),
           (RES,"map"):(RES,{"Ok":("Ok",1),"Err":("Err","x")}),
           (RES,"map_err"):(RES,{"Ok":("Ok","x"),"Err":("Err",1)}),
           (RES,"and_then"):(RES,{"Ok":(None,1),"Err":("Err","x")}),
           (RES,"or_else"):(RES,{"Ok":("Ok","x"),"Err":(None,1)}),
           (RES,"unwrap_or_else"):(RES,{"Ok":(None,"x"),"Err":(None,1)}),
           (RES,"map_or_else"):(RES,{"Ok":(None,2),"Err":(None,1)}),
           (POLL,"map"):(POLL,{"Ready":("Ready",1),"Pending":("Pending","0")})}
    NUM={OPT:(("None",0),("Some",1)),RES:(("Ok",0),("Err",1)),POLL:(("Ready",0),("Pending",1))}
    @classmethod
    def _matches(cls,b):
        """a combinator on an option, a result or a poll is the match it stands for"""
        blocks=b["blocks"]; loc=b["locals"]; n=0
        for i in range(len(blocks)):
            t=blocks[i]["t"]
            if t[0]!="call" or t[1][0]!="fn" or t[4] is None: continue
            adt,_,nm=t[1][1]["d"].rpartition("::"); m=cls.MATCH.get((adt,nm))
            if not m: continue
            args=t[2]; sp=t[5]; rest=t[6:]; it=args[0]
            if it[0] not in("cp","mv") or it[1][1]: continue
            if any(isinstance(h,int) and not(args[h][0]=="fn" or args[h][0] in("cp","mv") and not args[h][1][1]) for _,h in m[1].values()): continue
            def local(*ty): loc.append(list(ty)); return len(loc)-1
            def block(st,t): blocks.append({"s":st,"t":t,"c":0}); return len(blocks)-1
            out,arms=m; sw=[]
            for v,k in cls.NUM[adt]:
                var,h=arms[v]; st=[]; has=v not in("None","Pending")
                if has:
                    x=local("_","","_"); st.append(["=",[x,[]],["use",["mv",[it[1][0],[["d",v],["f","0",adt]]]]],sp])
                def done(op):
                    if var is None: return ["=",t[3],["use",op],sp]
                    return ["=",t[3],["agg","adt",out,var,["0"] if op else [],[op] if op else []],sp]
                if h=="x": bl=block(st+[done(["mv",[x,[]]])],["goto",t[4]])
                elif h=="0": bl=block([done(None)],["goto",t[4]])
                elif h=="z":
                    ga=t[1][1]["ga"][0]
                    if ga=="bool" or re.match(r"[iu](8|16|32|64|128|size)$",ga): bl=block(st+[done(["c",ga,False if ga=="bool" else 0,"",""])],["goto",t[4]])
                    else:
                        y=local("_","","_"); dd="core::default::Default::default"; end=block([done(["mv",[y,[]]])],["goto",t[4]])
                        bl=block(st,["call",["fn",{"d":dd,"q":"<%s as core::default::Default>::default"%ga,"k":"","kr":"core","st":ga,"ga":[ga],"v":False,"co":""}],[],[y,[]],end,sp]+rest)
                elif isinstance(h,tuple): bl=block(st+[done(args[h[1]])],["goto",t[4]])
                else:
                    f=args[h]; y=local("_","","_"); end=block([done(["mv",[y,[]]])],["goto",t[4]])
                    ops=[["mv",[x,[]]]] if has else []
                    if f[0]=="fn": bl=block(st,["call",f,ops,[y,[]],end,sp]+rest)
                    else:
                        tu=local("(_,)" if has else "()","","(_,)" if has else "()"); ty=loc[f[1][0]]
                        co={"d":"core::ops::function::FnOnce::call_once","q":"core::ops::function::FnOnce::call_once","k":"core::ops::function::FnOnce::call_once","kr":"core","st":ty[2],"ga":[ty[0]],"v":False,"co":""}
                        bl=block(st+[["=",[tu,[]],["agg","tuple","","",[],ops],sp]],["call",["fn",co],[f,["mv",[tu,[]]]],[y,[]],end,sp]+rest)
                sw.append([str(k),bl])
            d=local("isize","","isize"); dead=block([],["unreach"])
            blocks[i]["s"].append(["=",[d,[]],["discr",[it[1][0],[]],adt],sp])
            blocks[i]["t"]=["switch",["mv",[d,[]]],sw,dead,"isize",sp]; n+=1
        return n
    def add(self,d):
        self.crates.append(d["crate"])
        for b in d["bodies"]:
            self.pruned_logs=getattr(self,"pruned_logs",0)+self._prune_logging(b["blocks"])
            self._loops(b)
            self._collects(b); self._adaptors(b)
            self._matches(b)
            bo=Body(b,d["crate"]); self.bodies[bo.key]=bo
            if bo.parent: self.children.setdefault(bo.parent,[]).append(bo.key)
        for k,v in d["adts"].items():
            if k not in self.adts or v.get("loc"): self.adts[k]=v
        self.impls+=d["impls"]
        for q,t,v,s in d["consts"]: self.consts[q]=(t,v,s)
        self.unsafe+=d["unsafe"]
    def find(self, qual):
        """bodies whose qualified name equals qual"""
        return [b for b in self.bodies.values() if b.qual==qual]
    def one(self, qual):
        r=self.find(qual)
        if len(r)!=1: raise Anchor("anchor %s: found %d functions" % (qual,len(r)))
        return r[0]
    def methods(self, self_ty, name=None, trait=None):
        out=[]
        for b in self.bodies.values():
            if b.kind=="method" and b.self_ty==self_ty and (name is None or b.name==name):
                if trait is None or (trait=="" and not b.trait) or (trait and b.trait.endswith(trait)): out.append(b)
        return out
    def adt_variants(self, path):
        a=self.adts.get(path)
        return a["variants"] if a else None

class Anchor(Exception):
    """an anchor of a rule is missing: the rule cannot be decided, which is reported as a violation"""
