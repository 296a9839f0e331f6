"""Marshal and Unmarshal: the encoder and decoder over a byte slice, of the version asked for.

Encode is used by its contract (units Encode_v*: all of the framed message goes to the writer, or an error comes back),
Decode by its own (units Decode_v*)."""
import z3
from core import *
from values import *
from prove import Contract, short, err_is_nil
from models import lib_error, mkslice, getbuf, setbuf
import codec_enc, codec_dec
from conn import BOLT
from proto import proto


def framed(ex, v, a, chunk):
    """the bytes Encode of version v sends for value a with this chunk size"""
    return ufn('framed%d' % v, Any, Int, Bytes)(a, I(chunk))


class EncodeTo:
    """Encode with a buffer to write to"""

    def __init__(self, v):
        self.v = v

    def call(self, ex, st, args, name):
        e, a = args
        P = ex.P
        w = chunk = own = None
        for f, x in zip(P.fields(e.t), e.f):
            s = P.str(f['type'])
            if s == 'io.Writer':
                w = x
            elif s == '*bytes.Buffer':
                own = x
            elif P.intinfo(f['type']):
                chunk = x
        if not (w is not None and w.dyn is not None and isinstance(w.dyn[1], PtrV) and isinstance(ex.load(st, w.dyn[1]), NatV)):
            raise Unsupported('Encode with another writer: %r' % (w,))
        t = ex.aterm(st, a)
        top = short(ex.top)
        ex.ob('%s: the encoder has an empty buffer of its own' % top, own is not None and own.ref != w.dyn[1].ref and valid(st, eq(getbuf(ex, st, own).rope.len(), 0)), '', st)
        ex.prove(st, z3.And(I(chunk) >= 1, I(chunk) <= 65535), '%s: a chunk size the format allows' % top)
        ok, bad = st.fork(), st.fork()
        bad.note('Encode fails')
        ok.assume(codec_enc.SPECS[self.v].encd(t))
        bad.assume(Not(codec_enc.SPECS[self.v].encd(t)))
        fr = framed(ex, self.v, t, chunk)
        ok.assume(blen(fr) >= 2)
        ok.ghost['m.sent'] = ok.ghost.get('m.sent', ()) + ((self.v, t, fr),)
        setbuf(ex, ok, w.dyn[1], getbuf(ex, ok, w.dyn[1]).rope + rope_of(fr))
        bad.ghost['m.failed'] = True
        return [(ok, 'ret', NILI), (bad, 'ret', lib_error(ex, bad, 'encerr'))]


class DecodeFrom:
    def __init__(self, v):
        self.v = v

    def call(self, ex, st, args, name):
        d = args[0]
        P = ex.P
        r = None
        top = short(ex.top)
        for f, x in zip(P.fields(d.t), d.f):
            if P.str(f['type']) == 'io.Reader':
                r = x
            elif P.intinfo(f['type']):
                ex.prove(st, I(x) == 0, '%s: decoding starts at depth 0' % top)
        if not (r is not None and r.dyn is not None and isinstance(r.dyn[1], PtrV) and isinstance(ex.load(st, r.dyn[1]), NatV)):
            raise Unsupported('Decode with another reader: %r' % (r,))
        ok, bad = st.fork(), st.fork()
        x = fresh('decoded', Any)
        ok.assume(tag(x) >= 0)
        b = getbuf(ex, st, r.dyn[1]).rope
        ok.ghost['m.read'] = ok.ghost.get('m.read', ()) + ((self.v, b, x),)
        bad.ghost['m.read'] = bad.ghost.get('m.read', ()) + ((self.v, b, None),)
        bad.ghost['m.failed'] = True
        bad.note('Decode fails')
        return [(ok, 'ret', TupleV([IfaceV(term=x), NILI])), (bad, 'ret', TupleV([NILI, lib_error(ex, bad, 'decerr')]))]


class Marshal(Contract):
    def __init__(self, v):
        self.v = v

    def must_reach(self, ex, args):
        return ['done', 'failed']

    def setups(self, ex, st, name):
        a = fresh('v', Any)
        st.assume(tag(a) >= 0)
        args = [PtrV(st.alloc(Cell(ex.zero(st, ex.P.elem(p['t'])), ex.P.elem(p['t'])))) for p in ex.P.funcs[name]['params'][:-1]]
        return [(args + [IfaceV(term=a)], st)]

    def outcomes(self, ex, st, args, ret):
        n = err_is_nil(ex, st, ret.f[1])
        return [('done', n), ('failed', Not(n))]

    def post(self, E):
        ex, st = E.ex, E.st
        E.gdecl |= {'m.sent', 'm.failed'}
        b, e = E.retv.f
        if E.case == 'failed':
            E.ob(st.ghost.get('m.failed') is True, 'fails only when the value cannot be encoded')
            return
        E.ob(not st.ghost.get('m.failed'), 'a value that cannot be encoded is an error')
        s = st.ghost.get('m.sent', ())
        ok = len(s) == 1 and s[0][0] == self.v and ex.value_eq(st, None, IfaceV(term=s[0][1]), E.args[-1])
        E.ob(ok, 'the value is encoded as the version says', repr(s))
        if len(s) == 1:
            E.ob(isinstance(b, SliceV) and ex.rope_eq(st, ex.slice_rope(st, b), rope_of(s[0][2])), 'the bytes are the framed message', repr(b))


class Unmarshal(Marshal):
    def setups(self, ex, st, name):
        b = fresh('bytes', Bytes)
        st.assume(blen(b) >= 0, blen(b) < 1 << 60)
        st.ghost['m.in'] = rope_of(b)
        args = [PtrV(st.alloc(Cell(ex.zero(st, ex.P.elem(p['t'])), ex.P.elem(p['t'])))) for p in ex.P.funcs[name]['params'][:-1]]
        return [(args + [mkslice(st, rope_of(b), True)], st)]

    def post(self, E):
        ex, st = E.ex, E.st
        E.gdecl |= {'m.read', 'm.failed'}
        r = st.ghost.get('m.read', ())
        E.ob(len(r) == 1 and r[0][0] == self.v and ex.rope_eq(st, r[0][1], E.old.ghost['m.in']), 'the bytes given are decoded as the version says', repr(r))
        if E.case == 'failed':
            E.ob(st.ghost.get('m.failed') is True, 'fails only when the bytes cannot be decoded')
            return
        E.ob(not st.ghost.get('m.failed'), 'bytes that cannot be decoded are an error')
        if len(r) == 1 and r[0][2] is not None:
            E.ob(ex.value_eq(st, None, E.retv.f[0], IfaceV(term=r[0][2])), 'the value decoded is returned', repr(E.retv))


def functions():
    out = []
    for c in (1, 2):
        out += [(BOLT + 'encoding/encoding_v%d.Marshal' % c, Marshal(c)), (BOLT + 'encoding/encoding_v%d.Unmarshal' % c, Unmarshal(c))]
    for v in (1, 2, 3, 4):
        c = 1 if v == 1 else 2
        out += [(proto(v) + 'Marshal', Marshal(c)), (proto(v) + 'Unmarshal', Unmarshal(c))]
    return out


def run(ex):
    for c in (1, 2):
        ex.contracts[codec_enc.SPECS[c].Encode] = EncodeTo(c)
        ex.contracts[codec_dec.DSPECS[c].Decode] = DecodeFrom(c)
    for f, c in functions():
        if f in ex.P.funcs:
            ex.ctx.clear()
            ex.check(c, f)
