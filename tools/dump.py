#!/usr/bin/env python3
"""debug aid: prints the normalised calls, stores and branch facts of a root   usage: dump.py QUAL [config] [width] [-o opaque,names] [-d depth]"""
import sys; sys.path.insert(0,'/verif/lib'); sys.path.insert(0,'/verif/checks')
from core import *
import argparse
ap=argparse.ArgumentParser(); ap.add_argument("q"); ap.add_argument("cfg",nargs="?",default="molc"); ap.add_argument("w",nargs="?",type=int,default=200)
ap.add_argument("-o",default=""); ap.add_argument("-d",type=int,default=8); ap.add_argument("-f",action="store_true",help="list matching functions")
a=ap.parse_args()
ck=Check("X","quick",1); ck.use(a.cfg)
bs=[b for b in ck.p.bodies.values() if a.q in b.qual]
if a.f:
    for b in sorted(bs,key=lambda b:b.qual): print(b.kind,b.vis,b.qual,b.span,len(b.blocks))
    sys.exit()
q=a.q
ex=[b for b in bs if b.qual==q and b.kind!="closure"]
b=ex[0] if ex else min(bs,key=lambda b:len(b.qual))
r=ck.root(b,opaque=[x for x in a.o.split(",") if x],depth=a.d)
print("#",r.body.qual,r.body.kind,"nodes",len(r.g.nodes),"states",len(r.u.states),"truncated",r.g.truncated,"widened",r.u.widened)
for n in r.nodes():
    sp=(n.span or "").split("/")[-1]; pre="%5d %-22s c%-3d "%(n.id,sp,n.ctx)
    if n.kind=="call" and n.extra is None:
        print(pre+"CALL "+show(r.g.callval(n,0))[:a.w])
    elif n.kind=="assign" and n.data[0][1]:
        print(pre+"SET  %s = %s"%(show(r.g.place(n.data[0],n.ctx,n.id,0)),show(r.value(n))[:a.w]))
    elif n.kind=="assign" and n.data[1][0]=="agg" and n.data[1][1]=="adt" and n.data[0][0]==0: print(pre+"RET  "+show(r.value(n))[:a.w])
    elif n.kind=="switch":
        for i,f in enumerate(r.u.facts.of(n.id)): print(pre+"IF   ->%d %s"%(n.succ[i][0],show(f)[:a.w]))
