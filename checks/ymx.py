"""shared anchors of the multiplexer"""
from core import *
SH="tokio_yamux::stream::StreamHandle"
SS="tokio_yamux::session::Session"
def m(ty,trait,fn): return "<%s as %s>::%s"%(ty,trait,fn)
READ=m(SH,"tokio::io::async_read::AsyncRead","poll_read")
WRITE=m(SH,"tokio::io::async_write::AsyncWrite","poll_write")
FLUSH=m(SH,"tokio::io::async_write::AsyncWrite","poll_flush")
SHUT=m(SH,"tokio::io::async_write::AsyncWrite","poll_shutdown")
DROP=m(SH,"core::ops::drop::Drop","drop")
POLL=m(SS,"futures_core::stream::Stream","poll_next")
STREAM_ROOTS=[READ,WRITE,FLUSH,SHUT,DROP]
STATES=["Init","SynSent","SynReceived","Established","LocalClosing","RemoteClosing","Reset","Closed"]
def frame_of(e):
    """the Frame aggregate inside a StreamEvent::Frame argument"""
    e=strip_cast(e)
    if e[0]=="agg" and e[2]=="Frame" and e[1].endswith("StreamEvent"):
        fr=dict(e[3])["0"]
        return fr
    return None
def header(fr):
    """{field: expr} of a Frame expression built by a constructor"""
    if fr is None or fr[0]!="agg": return None
    h=dict(fr[3]).get("header")
    if h is None or h[0]!="agg": return None
    d=dict(h[3]); d["body"]=dict(fr[3]).get("body")
    return d
def sends(r,ty=None):
    """(node, header) of every frame a stream hands to its session"""
    out=[]
    for n in r.calls("unbounded_send"):
        a=r.args(n)
        if len(a)<2: continue
        for x in alts(a[1]):
            h=header(frame_of(x)) if frame_of(x) is not None else None
            if h and (ty is None or VAR(ty)(h["ty"])): out.append((n,h))
    return out
