"""Anchors of the encrypted transport shared by its checks."""
from core import *
HS="tentacle_secio::handshake::procedure::handshake"
SS="tentacle_secio::codec::secure_stream::SecureStream::"
OPAQUE=("encode","decode","sign","verify","sha256","message_from_slice","signature_from_der","signature_to_vec","pubkey_from_slice","agree","new_stream",
 "from_key","generate_agreement","select_agreement","select_cipher","select_digest","poll_read","poll_write","poll_flush","stretch_key","public_key",
 "generate_stream_cipher_and_hmac","key_size","iv_size","tag_size","fmt")
def hs(ck): return ck.root(HS,opaque=OPAQUE,sited=("next","decode","generate_agreement"))
def pay(p,*vs):
    """payload of p through the given variants, outermost last"""
    def f(e):
        e=strip_cast(e)
        for v in reversed(vs):
            if v=="*":
                while e[0]in("f","d","pollok"): e=e[1]
                return p(e)
            if not(e[0]=="f" and e[1][0]=="d" and e[1][2]==v): return False
            e=strip_cast(e[1][1])
        return p(e)
    return f
def core_of(e):
    """the call underneath payload projections (Ok/Some/Ready/fields)"""
    e=strip_cast(e)
    while e[0] in("f","d","pollok"): e=strip_cast(e[1])
    return e
def names_of(e):
    """the field names projected from the underlying value, innermost first; variants left out"""
    e=strip_cast(e); out=[]
    while e[0] in("f","d","pollok"):
        if e[0]=="f" and not(e[1][0]=="d" and e[1][2] in("Ok","Some","Ready","Continue")): out.append(e[2])
        e=strip_cast(e[1])
    return out[::-1]
def okexit(v): return v is None or (v[0]=="v" and v[1] not in("Err",) and not(v[1]=="Ready" and Unfolded.sub(v,"0") is not None and Unfolded.sub(v,"0")[1]=="Err") and v[1]!="Pending")
def under(pred,variant):
    """assumption: the enum value matched by pred is `variant`"""
    return lambda f: f[0]=="is" and pred(f[1]) and variant not in f[2]
def retvals(r):
    """the values assigned to the return place by the root itself"""
    out=[]
    for n in r.nodes():
        if n.ctx!=0: continue
        if n.kind=="assign" and n.data[0]==[0,[]]: out.append(strip_cast(r.value(n)))
        if n.kind=="call" and n.data[3]==[0,[]]: out.append(strip_cast(r.g.callval(n,0)))
    return [y for x in out for y in alts(x)]
def const_num(e):
    e=strip_cast(e)
    if e[0]=="c" and isinstance(e[1],int): return e[1]
    if e[0]=="bin":
        a,b=const_num(e[2]),const_num(e[3])
        if a is None or b is None: return None
        return {"Add":a+b,"Sub":a-b,"Mul":a*b,"Div":a//b if b else None}.get(e[1])
    return None
def KN(v): return lambda e: const_num(e)==v
def idx(p,i): return lambda e: strip_cast(e)[0]=="idx" and p(strip_cast(e)[1]) and const_num(strip_cast(e)[2])==i or CALL("index",p,KN(i))(e)
def multihash(ck,r,rule,inst,targets,data):
    """every path to the targets has established that `data` is the canonical SHA-256 multihash: 0x12, 0x20, 32 bytes"""
    dec=lambda e: CALL(("decode::u16","decode::u32","decode::u64","decode::usize","decode::u8"),data)(e)
    part=lambda i: lambda e: core_of(e)[0]=="call" and dec(core_of(e)) and names_of(e)==[str(i)]
    rest=part(1); code=part(0)
    short=ANYF(CMP("==",lambda e: SUM([LEN(data)],[LEN(rest)])(e),lambda e: const_num(e)==1 or LEN(CALL(("encode::u16","encode::u32","encode::u8"),KN(18)))(e)),CMP("==",LEN(data),KN(34)),
      CMP("==",lambda e: LEN(data)(e),lambda e: SUM([LEN(rest),KN(1)])(e)))
    need=[("hash function",ANYF(CMP("==",code,KN(18)),CMP("==",idx(data,0),KN(18)))),
      ("digest length byte",ANYF(CMP("==",idx(rest,0),KN(32)),CMP("==",idx(data,1),KN(32)))),
      ("total length",ANYF(CMP("==",LEN(rest),KN(33)),CMP("==",LEN(data),KN(34)))),
      ("shortest form",ANYF(short,CMP("==",idx(data,0),KN(18))))]
    for nm,f in need:
        p=r.path(None,targets,avoid_edge=r.edge(f))
        ck.ob(rule,"%s: %s"%(inst,nm),p is None,r._where(p) if p else r.body.span,"accepted without the %s having been checked"%nm,r.trail(p))
def feeds(r,n):
    """not merely the operand of a comparison"""
    d=n.data[0] if n.kind=="assign" else n.data[3]
    return not any(m.ctx==n.ctx and m.kind=="assign" and m.data[1][0]=="ref" and d in m.data[1] for m in r.nodes("assign"))
