"""Contracts of the encoders: PackStream representation and chunk framing (C01, C02)."""
import z3
from core import *
from values import *
from exec import invoke, INVOKES, Oblig
from prove import CONGR, Contract, unfolder, new_err, NONNIL, err_is_nil, Pred, ANY
from models import (relem, rlen, kind_of, f64bits, f64of, fork2, lib_error, fresh_str, write_to, getbuf)

BOLT = 'github.com/mindstand/go-bolt/'
U32 = (1 << 32) - 1
MAX64 = (1 << 63) - 1
fieldsf = ufn('fields', Any, AnyArr)
nfields = F('nfields', Any, Int)
sigf = F('signature', Any, Int)
INT_TYPES = ['int', 'int8', 'int16', 'int32', 'int64', 'uint', 'uint8', 'uint16', 'uint32', 'uint64']
anyslice = '[]interface{}'
anymap = 'map[string]interface{}'


class Spec:
    """PackStream representation of Go values for encoder version v"""

    def __init__(self, v, pkg, ty):
        self.v, self.pkg, self.ty = v, pkg, ty
        self.pack = F('pack%d' % v, Any, Bytes)
        self.packs = ufn('packs%d' % v, AnyArr, Int, Bytes)
        self.packm = F('packm%d' % v, GMap, Int, Bytes)
        self.encd = F('encodable%d' % v, Any, Bool)
        self.encode = '(%s%s.%s).encode' % (BOLT, pkg, ty)
        self.Encode = '(%s%s.%s).Encode' % (BOLT, pkg, ty)
        unfolder('pack%d' % v)(self.u_pack)
        unfolder('packs%d' % v)(self.u_packs)
        unfolder('packm%d' % v)(self.u_packm)
        self.temporal = {}
        CONGR.add('packs%d' % v)

    # -------------------------------------------------- unfolding
    def u_packs(self, ex, st, t):
        a, n = t.arg(0), simp(t.arg(1))
        if isinstance(n, int):
            if n == 0:
                return Rope()
            return rope_of(self.packs(a, I(n - 1))) + rope_of(self.pack(z3.simplify(z3.Select(a, n - 1))))
        m = prev(n)
        if m is not None:
            return rope_of(self.packs(a, I(m))) + rope_of(self.pack(z3.simplify(z3.Select(a, I(m)))))
        if valid(st, n == 0, 2000):
            return Rope()
        for c in range(1, 17):
            # a list of few elements
            if not feasible(st, n >= c):
                break
            if valid(st, n == c, 2000):
                return self.u_packs(ex, st, self.packs(a, I(c)))
        return None

    def u_packm(self, ex, st, t):
        a, n = t.arg(0), simp(t.arg(1))
        m = n - 1 if isinstance(n, int) and n > 0 else prev(n)
        if m is not None:
            return rope_of(self.packm(a, I(m))) + self.pack_str(ex, st, gkey(a, I(m))) + rope_of(self.pack(gval(a, I(m))))
        if valid(st, I(n) == 0, 2000):
            return Rope()
        return None

    def pack_str(self, ex, st, b):
        a = ex.box(st, ex.P.T('string'), StrV(ex.brope(st, b)))
        return rope_of(self.pack(a))

    def u_pack(self, ex, st, t):
        a = t.arg(0)
        ty = self.type_of(ex, st, a)
        if ty is None:
            return None
        return self.rep(ex, st, a, ty)

    def type_of(self, ex, st, a):
        P = ex.P
        if a.get_id() in TERM_BOX:
            s = P.str(TERM_BOX[a.get_id()][1])
            if s in self.known(P):
                return s
            if self.is_struct(P, TERM_BOX[a.get_id()][1]):
                return 'structure'
            if P.kind(TERM_BOX[a.get_id()][1]) == 'slice':
                return 'slice'
            return None
        for s in self.known(P):
            if valid(st, tag(a) == (P.tagid(P.T(s)) if s else 0), 2000):
                return s
        k = kind_of(ex, st, a)
        if valid(st, self.isstruct(ex, a), 2000):
            return 'structure'
        if valid(st, eq(k, 23), 2000):
            return 'slice'
        return None

    def known(self, P):
        return [x for x in ['', 'bool', 'string', 'float64', 'float32'] + INT_TYPES + [self.anys(P), self.anym(P)] + list(self.temporal)]

    def anys(self, P):
        return anyslice

    def anym(self, P):
        return anymap

    def is_struct(self, P, t):
        return P.implements(t, P.T(BOLT + 'structures.Structure'))

    def isstruct(self, ex, a):
        if a.get_id() in TERM_BOX:
            return z3.BoolVal(self.is_struct(ex.P, TERM_BOX[a.get_id()][1]))
        return And(tag(a) != 0, ex.impl(ex.P.T(BOLT + 'structures.Structure'), a))

    def hdr(self, ex, st, n, tiny, sizes):
        n = simp(n)
        if valid(st, le(n, 15), 3000):
            return Rope((('b', add(tiny, n)),))
        lo = 15
        for m, w in sizes:
            hi = (1 << (8 * w)) - 1
            if valid(st, And(lt(lo, n), le(n, hi)), 3000):
                return Rope((('b', m), ('be', I(n), w)))
            lo = hi
        return None

    def rep(self, ex, st, a, ty):
        P = ex.P
        if ty == '':
            return conc_rope(b'\xc0')
        if ty == 'structure':
            n = nfields(a)
            h = self.hdr(ex, st, n, 0xB0, [(0xDC, 1), (0xDD, 2)])
            if h is None:
                return None
            return h + Rope((('b', sigf(a) % 256),)) + rope_of(self.packs(fieldsf(a), n))
        if ty == 'slice':
            n = rlen(a)
            h = self.hdr(ex, st, n, 0x90, [(0xD4, 1), (0xD5, 2), (0xD6, 4)])
            return None if h is None else h + rope_of(self.packs(relem(a), n))
        t = P.T(ty)
        v = ex.unbox(st, t, a)
        if ty == 'bool':
            return Rope((('b', simp(z3.If(B(v), 0xC3, 0xC2))),))
        if ty in INT_TYPES:
            if ty in ('uint', 'uint64'):
                # encodable values are below 2**63
                if not valid(st, le(v, MAX64)):
                    if valid(st, lt(MAX64, v)) and ty == 'uint':
                        v = sub(v, 1 << 64)     # known finding: see uint_finding
                    else:
                        return None
            r = int_rep(ex, st, v)
            return r if r is not None else rope_of(packint(I(v)))
        if ty in ('float64', 'float32'):
            x = f64bits(v.t)
            st.assume(x >= 0, x < (1 << 64), f64of(x) == v.t)
            return Rope((('c', b'\xc1'), ('be', x, 8)))
        if ty == 'string':
            n = v.rope.len()
            h = self.hdr(ex, st, n, 0x80, [(0xD0, 1), (0xD1, 2), (0xD2, 4)])
            return None if h is None else h + v.rope
        if ty == self.anys(P):
            if a.get_id() in TERM_BOX:
                d = dict(TERM_BOX[a.get_id()][2])
                arr, n = d['.arr'], simp(d['.len'])
            else:
                arr, n = ex.fldfn(t, '.arr', AnyArr)(a), ex.fldfn(t, '.len', Int)(a)
            h = self.hdr(ex, st, n, 0x90, [(0xD4, 1), (0xD5, 2), (0xD6, 4)])
            return None if h is None else h + rope_of(self.packs(arr, I(n)))
        if ty == self.anym(P):
            m = ex._fld(t, '.map', GMap, a)
            n = glen(m)
            h = self.hdr(ex, st, n, 0xA0, [(0xD8, 1), (0xD9, 2), (0xDA, 4)])
            return None if h is None else h + rope_of(self.packm(m, n))
        f = self.temporal[ty]
        return f(self, ex, st, a, v)

    # -------------------------------------------------- which values are encodable
    def defs(self, ex, st, a):
        """definition of encodable at a"""
        P = ex.P
        e = self.encd(a)
        tg = tag(a)
        k = I(kind_of(ex, st, a))
        j = z3.Int('j')
        out = [Imp(tg == 0, e)]
        known = []
        for s in self.known(P):
            if s == '':
                continue
            t = P.T(s)
            is_ = tg == P.tagid(t)
            known.append(is_)
            if s == 'uint64':
                x = ex.fldfn(t, '', Int)(a)
                c = x <= MAX64
            elif s == 'string':
                c = blen(ex.fldfn(t, '', Bytes)(a)) <= U32
            elif s == self.anys(P):
                arr, n = ex.fldfn(t, '.arr', AnyArr)(a), ex.fldfn(t, '.len', Int)(a)
                c = z3.And(n <= U32, z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), self.encd(z3.Select(arr, j))),
                                               patterns=[z3.Select(arr, j)]))
            elif s == self.anym(P):
                m = ex.fldfn(t, '.map', GMap)(a)
                c = z3.And(glen(m) <= U32, z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < glen(m)), z3.And(
                    blen(gkey(m, j)) <= U32, self.encd(gval(m, j)))), patterns=[gval(m, j), gkey(m, j)]))
            else:
                c = z3.BoolVal(True)
            out.append(z3.Implies(is_, e == c))
        other = z3.And(tg != 0, *[z3.Not(x) for x in known])
        if GT + 'Date' in self.temporal:
            # gotime.Date values are midnights of UTC
            t = P.T(GT + 'Date')
            out.append(z3.Implies(tg == P.tagid(t), ex.fldfn(t, '.0.0.s', Int)(a) % 86400 == 0))
        n = nfields(a)
        st.assume(n >= 0, n < (1 << 48))
        stt = self.isstruct(ex, a)
        out.append(z3.Implies(z3.And(other, stt), e == z3.And(n <= 65535, z3.ForAll(
            [j], z3.Implies(z3.And(j >= 0, j < n), self.encd(z3.Select(fieldsf(a), j))), patterns=[z3.Select(fieldsf(a), j)]))))
        m = rlen(a)
        st.assume(m >= 0, m < (1 << 48))
        out.append(z3.Implies(z3.And(other, z3.Not(stt), k == 23), e == z3.And(m <= U32, z3.ForAll(
            [j], z3.Implies(z3.And(j >= 0, j < m), self.encd(z3.Select(relem(a), j))), patterns=[z3.Select(relem(a), j)]))))
        out.append(z3.Implies(z3.And(other, z3.Not(stt), k != 23), z3.Not(e)))
        return out


def prev(n):
    """n - 1 when n is written as something plus a positive constant"""
    if isinstance(n, int):
        return n - 1 if n > 0 else None
    n = z3.simplify(n)
    if z3.is_add(n):
        c = sum(x.as_long() for x in n.children() if z3.is_int_value(x))
        if c >= 1:
            return simp(n - 1)
    return None


packint = F('packint', Int, Bytes)


@unfolder('packint')
def _(ex, st, t):
    return int_rep(ex, st, t.arg(0))


def int_rep(ex, st, v):
    for lo, hi, m, w in [(-16, 127, None, 1), (-128, -17, 0xC8, 1), (-(1 << 15), (1 << 15) - 1, 0xC9, 2),
                         (-(1 << 31), (1 << 31) - 1, 0xCA, 4), (-(1 << 63), (1 << 63) - 1, 0xCB, 8)]:
        if valid(st, And(le(lo, v), le(v, hi)), 3000):
            # the smallest form: nothing smaller may be possible
            r = Rope((('be', I(v), w),))
            return r if m is None else Rope((('b', m),)) + r
        if feasible(st, And(le(lo, v), le(v, hi))):
            return None
    return None


# ---------------------------------------------------------------- library and user supplied structures
@invoke((BOLT + 'structures.Structure', 'AllFields'))
def _(ex, st, r, a, ins):
    t = ex.aterm(st, r)
    n = nfields(t)
    st.assume(n >= 0, n < (1 << 48))
    et = ex.P.elem(ins['t']) if ins else ex.P.T('interface{}')
    return SliceV(st.alloc(ArrZ(et, fieldsf(t), n, True)), 0, n, n)


@invoke((BOLT + 'structures.Structure', 'Signature'))
def _(ex, st, r, a, ins):
    x = sigf(ex.aterm(st, r))
    st.assume(x >= -(1 << 63), x < (1 << 63))
    return x


# ---------------------------------------------------------------- writer: parser of the framed stream
# ghost of the writer: payload so far, bytes of the chunk still to come, messages ended, header partly read
def w_init(st, cs):
    st.ghost['w.payload'] = Rope()
    st.ghost['w.rem'] = 0
    st.ghost['w.hdr'] = Rope()
    st.ghost['w.ended'] = 0
    st.ghost['w.failed'] = False
    st.ghost['w.cs'] = cs


def w_feed(ex, st, rope):
    """the bytes of rope arrive at the writer"""
    from models import rope_int
    while True:
        n = simp(rope.len())
        if isinstance(n, int) and n == 0:
            return
        if not isinstance(n, int) and valid(st, n == 0):
            return
        rem = simp(st.ghost['w.rem'])
        if (isinstance(rem, int) and rem == 0) or (is_z(rem) and valid(st, rem == 0)):
            h = st.ghost['w.hdr']
            need = 2 - h.len()
            if not valid(st, le(need, n)):
                if valid(st, eq(n, 1)) and need == 2:
                    st.ghost['w.hdr'] = h + rope
                    return
                raise Unsupported('part of a chunk header of unknown length is written')
            sp = ex.rope_split(st, rope, need)
            h = h + sp[0]
            rope = sp[1]
            x = rope_int(ex, st, h, 2)
            st.ghost['w.hdr'] = Rope()
            if valid(st, eq(x, 0)):
                st.ghost['w.ended'] = st.ghost['w.ended'] + 1
                continue
            ex.prove(st, lt(0, x), 'framing: a chunk in the middle of a message is not empty')
            ex.prove(st, le(x, st.ghost['w.cs']), 'framing: chunk not larger than the chunk size')
            st.ghost['w.rem'] = x
            continue
        if valid(st, le(rem, n)):
            sp = ex.rope_split(st, rope, rem)
            if sp is None:
                raise Unsupported('chunk body of %s in %r' % (rem, rope))
            st.ghost['w.payload'] = st.ghost['w.payload'] + sp[0]
            st.ghost['w.rem'] = 0
            rope = sp[1]
            continue
        if valid(st, le(n, rem)):
            st.ghost['w.payload'] = st.ghost['w.payload'] + rope
            st.ghost['w.rem'] = sub(rem, n)
            return
        ex.ob('framing: header states the length of the body written', False,
              'header %s, body of %s bytes' % (rem, n), st)
        raise Unsupported('chunk header and body length cannot be related')


@invoke(('Writer', 'Write'))
def _(ex, st, r, a, ins):
    rope = ex.slice_rope(st, a[0])
    s2 = st.fork()
    w_feed(ex, st, rope)
    s2.ghost['w.failed'] = True
    e = lib_error(ex, s2, 'writeerr')
    n = fresh('written', Int)
    s2.assume(n >= 0, n <= I(a[0].len))
    return [(st, 'ret', TupleV([a[0].len, NILI])), (s2, 'ret', TupleV([n, e]))]


# ---------------------------------------------------------------- contracts
def enc_value(ex, st, spec, t, cs=None):
    """an encoder with any buffered bytes, and the pointer to its buffer"""
    P = ex.P
    fs = []
    buf = None
    for f in P.fields(t):
        s = P.str(f['type'])
        if s == 'io.Writer':
            fs.append(IfaceV(dyn=('Writer', NatV('Writer'))))
        elif s == '*bytes.Buffer':
            b = fresh('buffered', Bytes)
            st.assume(blen(b) >= 0)
            buf = PtrV(st.alloc(Cell(NatV('Buf', rope=rope_of(b)), P.elem(f['type']))))
            fs.append(buf)
        elif P.intinfo(f['type']):
            x = fresh('chunkSize', Int)
            st.assume(x >= 1, x <= 65535)
            if cs is None:
                cs = x
            fs.append(cs)
        else:
            fs.append(ex.sym(st, f['type'], lambda p, so: fresh('e' + p, so)))
    if buf is None:
        raise Unsupported('encoder has no buffer')
    return StructV(t, fs), buf, cs


def enc_buf(ex, e):
    for v in e.f:
        if isinstance(v, PtrV):
            return v
    raise Unsupported('encoder has no buffer')


class EncodeContract(Contract):
    """encode(v): appends exactly pack(v) to the buffer, or fails iff v is not encodable"""

    def __init__(self, spec):
        self.spec = spec

    def setups(self, ex, st, name):
        f = ex.P.funcs[name]
        e, buf, cs = enc_value(ex, st, self.spec, f['params'][0]['t'])
        a = fresh('v', Any)
        st.assume(tag(a) >= 0)
        st.assume(*self.spec.defs(ex, st, a))
        w_init(st, cs)
        ex.ctx['encbuf'] = buf
        ex.ctx['finding'] = []
        return [([e, IfaceV(term=a)], st)]

    def outcomes(self, ex, st, args, ret):
        n = err_is_nil(ex, st, ret)
        a = ex.aterm(st, args[1])
        tu = ex.P.T('uint')
        big = And(tag(a) == ex.P.tagid(tu), ex.fldfn(tu, '', Int)(a) > MAX64)
        return [('encoded', And(n, Not(big))), ('wrapped', And(n, big)), ('refused', Not(n))]

    def cases(self, ex, st, args):
        a = ex.aterm(st, args[1])
        e = self.spec.encd(a)
        if a.get_id() in TERM_BOX:
            s = ex.P.str(TERM_BOX[a.get_id()][1])
            if s in ('bool', 'int', 'int8', 'int16', 'int32', 'int64', 'uint8', 'uint16', 'uint32', 'float32', 'float64'):
                st.assume(e)
            if s == 'string':
                st.assume(e == (blen(dict(TERM_BOX[a.get_id()][2])['']) <= U32))
        return [('encoded', e), ('refused', Not(e))]

    def must_reach(self, ex, args):
        return ['encoded', 'refused']

    def post(self, E):
        ex, st = E.ex, E.st
        a = ex.aterm(st, E.args[1])
        buf = enc_buf(ex, E.args[0])
        old = ex.load(E.old, buf)
        e = self.spec.encd(a)
        if E.case == 'wrapped':
            # an unsigned integer above the signed maximum is not representable
            ex.finding('uint-wraps:%s' % self.spec.pkg, E.nm('an unsigned integer above 2**63-1 is refused'), st)
            E.cell(buf, old.with_(rope=old.rope + rope_of(self.spec.pack(a))), 'wrapped to 64 bits')
        elif E.case == 'encoded':
            E.fact(e, 'only representable values are encoded')
            p = self.spec.pack(a)
            if not E.checking:
                st.assume(blen(p) >= 1)
            E.cell(buf, old.with_(rope=old.rope + rope_of(p)), 'the buffer grows by exactly the PackStream form')
            if not E.checking:
                E.retv = NILI
        else:
            E.fact(Not(e), 'every representable value is encoded')
            E.free(buf, lambda: NatV('Buf', rope=rope_of(fresh('junk', Bytes))))
            if not E.checking:
                E.retv = new_err(st)


class EncContract(Contract):
    """Encode(v): hands the writer pack(v) as one framed message, or fails; leaves nothing buffered"""

    def __init__(self, spec):
        self.spec = spec

    def setups(self, ex, st, name):
        f = ex.P.funcs[name]
        e, buf, cs = enc_value(ex, st, self.spec, f['params'][0]['t'])
        ex.store(st, buf, NatV('Buf', rope=Rope()))
        a = fresh('v', Any)
        st.assume(tag(a) >= 0)
        w_init(st, cs)
        ex.ctx['encbuf'] = buf
        return [([e, IfaceV(term=a)], st)]

    def outcomes(self, ex, st, args, ret):
        n = err_is_nil(ex, st, ret)
        return [('sent', n), ('failed', Not(n))]

    def must_reach(self, ex, args):
        return ['sent', 'failed']

    def post(self, E):
        ex, st = E.ex, E.st
        a = ex.aterm(st, E.args[1])
        buf = enc_buf(ex, E.args[0])
        E.cell(buf, NatV('Buf', rope=Rope()), 'nothing is left buffered')
        e = self.spec.encd(a)
        for g in ('w.payload', 'w.rem', 'w.hdr', 'w.ended', 'w.failed'):
            E.gdecl.add(g)
        if E.case == 'sent':
            E.fact(e, 'a sent message is representable')
            E.ghost('w.payload', rope_of(self.spec.pack(a)), 'chunk bodies concatenate to the payload')
            E.ghost('w.ended', 1, 'one terminator')
            E.ghost('w.rem', 0, 'last chunk is complete')
            E.ghost('w.hdr', Rope(), 'no stray bytes after the terminator')
            E.ghost('w.failed', False, 'write errors are reported')
        else:
            if st.ghost['w.failed'] is False:
                E.fact(Not(e), 'fails only for a value that cannot be encoded or a write error')
                E.ghost('w.payload', Rope(), 'nothing of a refused value is sent')
                E.ghost('w.rem', 0, 'nothing of a refused value is sent')


class NewEncoder(Contract):
    def __init__(self, spec):
        self.spec = spec

    def setups(self, ex, st, name):
        cs = fresh('cs', Int)
        st.assume(cs >= 0, cs <= 65535)
        return [([IfaceV(dyn=('Writer', NatV('Writer'))), cs], st)]

    def post(self, E):
        ex, st = E.ex, E.st
        cs = E.args[1]
        v = E.retv
        P = ex.P
        for f, x in zip(P.fields(v.t), v.f):
            s = P.str(f['type'])
            if s == '*bytes.Buffer':
                ok = x.ref is not None and x.ref not in E.old.heap and ex.value_eq(st, None, ex.load(st, x), NatV('Buf', rope=Rope()))
                E.ob(ok, 'starts with an empty buffer of its own')
            elif s == 'io.Writer':
                E.ob(x is E.args[0] or ex.value_eq(st, None, x, E.args[0]), 'writes to the writer given')
            elif P.intinfo(f['type']):
                E.fact(I(x) == z3.If(I(cs) == 0, 65535, I(cs)), 'chunk size is the one given, 65535 by default')


# ---------------------------------------------------------------- loops
class EncLoops:
    """loops of an encoder"""

    def __init__(self, spec):
        self.spec = spec

    def applies(self, L):
        ex = L.ex
        sp = self.spec
        if sp.pkg not in L.fr.stack[0] or 'encbuf' not in ex.ctx:
            return None
        calls = set()
        for ins in L.instrs():
            if ins['op'] == 'Call' and 'fn' in ins and ins['fn']['k'] == 'func':
                calls.add(ins['fn']['n'])
            if ins['op'] == 'Call' and 'invoke' in ins:
                calls.add('.' + ins['invoke'])
        for ins in L.instrs():
            if ins['op'] == 'Next':
                it = L.outer(ins['iter'])
                if isinstance(it, IterV) and isinstance(L.st0.heap[it.ref].v.d['x'], MapV):
                    return ('map', it)
        stores = [ins for ins in L.instrs() if ins['op'] == 'Store' and ins['addr']['k'] == 'reg']
        for ins in stores:
            d = L.defs.get(ins['addr']['n'])
            if d and d['op'] == 'IndexAddr':
                x = L.outer(d['x'])
                if isinstance(x, SliceV) and ex.P.kind(ex.P.elem(d['x']['t'])) == 'iface':
                    # which value is reflected
                    for j in L.instrs():
                        if j['op'] == 'Call' and j.get('fn', {}).get('n') == '(reflect.Value).Index':
                            v = L.outer(j['args'][0])
                            if isinstance(v, NatV):
                                return ('fill', x, v.a)
        for r, (ins, v) in L.phis.items():
            if isinstance(v, SliceV) and ex.P.kind(ex.P.elem(ins['t'])) == 'iface':
                for j in L.instrs():
                    if j['op'] == 'Call' and j.get('fn', {}).get('n') == '(reflect.Value).Index':
                        a = L.outer(j['args'][0])
                        if isinstance(a, NatV):
                            return ('collect', r, a.a)
        for ins in L.instrs():
            if ins['op'] == 'IndexAddr' and sp.encode in calls:
                x = L.outer(ins['x'])
                if isinstance(x, SliceV) and ex.P.kind(ex.P.elem(ins['x']['t'])) == 'iface':
                    return ('slice', x)
        calls = self.callees(ex, calls)
        if any(c in calls for c in ('.Write', 'encoding/binary.Write', 'io.WriteString', 'io.Copy', '(*bytes.Buffer).WriteTo')):
            return ('flush', any(c.startswith('(*bytes.Buffer).') and c.split('.')[-1] in
                                 ('Next', 'Read', 'WriteTo', 'ReadByte', 'Reset', 'Truncate') for c in calls))
        return None

    def callees(self, ex, calls):
        """what these functions call, directly or not"""
        seen = set()
        todo = [c for c in calls if c != self.spec.encode]
        while todo:
            c = todo.pop()
            if c in seen:
                continue
            seen.add(c)
            f = ex.P.funcs.get(c)
            if f is None or not f.get('blocks') or 'mindstand/go-bolt' not in c:
                continue
            for b in f['blocks']:
                for ins in b['instrs']:
                    if ins['op'] in ('Call', 'Defer') and ins.get('fn', {}).get('k') == 'func':
                        todo.append(ins['fn']['n'])
                    if ins['op'] in ('Call', 'Defer') and 'invoke' in ins:
                        seen.add('.' + ins['invoke'])
        return seen

    def inv(self, L, M):
        getattr(self, 'inv_' + L.d[0])(L, M)

    def inv_slice(self, L, M):
        ex, sp = L.ex, self.spec
        x = L.d[1]
        et = ex.P.T('interface{}')
        if M.mode == 'init':
            L.arr, L.n = ex.slice_arr(L.st0, x, et)
        arr, n = L.arr, L.n
        k = M.k
        buf = ex.ctx['encbuf']
        r0 = ex.load(L.st0, buf).rope
        M.cell(buf.ref, buf.path, lambda: NatV('Buf', rope=r0 + rope_of(sp.packs(arr, I(k)))), 'first elements encoded in order')
        j = z3.Int('j')
        M.fact(le(k, n), 'index within the list')
        M.fact(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < I(k)), sp.encd(z3.Select(arr, j))),
                         patterns=[z3.Select(arr, j)]), 'first elements are encodable')

    def inv_map(self, L, M):
        ex, sp = L.ex, self.spec
        it = L.d[1]
        m0 = L.st0.heap[it.ref].v
        if M.mode == 'init':
            L.m = ex.mterm(L.st0, m0.d['x'])
        m, k = L.m, M.k
        buf = ex.ctx['encbuf']
        r0 = ex.load(L.st0, buf).rope
        M.cell(it.ref, (), lambda: m0.with_(i=k), 'iterator')
        M.cell(buf.ref, buf.path, lambda: NatV('Buf', rope=r0 + rope_of(sp.packm(m, I(k)))), 'first entries encoded, key then value')
        j = z3.Int('j')
        M.fact(le(k, glen(m)), 'index within the map')
        M.fact(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < I(k)), z3.And(blen(gkey(m, j)) <= U32, sp.encd(gval(m, j)))),
                         patterns=[gval(m, j), gkey(m, j)]), 'first entries are encodable')

    def inv_fill(self, L, M):
        ex = L.ex
        x, a = L.d[1], L.d[2]
        k = M.k
        j = z3.Int('j')

        def make():
            arr = fresh('filled', AnyArr)
            M.st.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < I(k)), z3.Select(arr, j) == z3.Select(relem(a), j)),
                                  patterns=[z3.Select(arr, j)]))
            return ArrZ(ex.P.T('interface{}'), arr, x.cap)

        def check(o):
            if not isinstance(o, ArrZ):
                o = ArrZ(ex.P.T('interface{}'), ex.slice_arr(M.st, x, ex.P.T('interface{}'))[0], x.cap)
            i = fresh('i', Int)
            ex.prove(M.st, z3.Implies(z3.And(i >= 0, i < I(k)), z3.Select(o.arr, i) == z3.Select(relem(a), i)),
                     M.nm('elements copied in order'))
        if M.mode == 'init':
            return
        M.obj(x.ref, make, check)
        M.fact(le(k, x.len), 'index within the list')

    def inv_collect(self, L, M):
        """elements appended one by one"""
        ex = L.ex
        r, a = L.d[1], L.d[2]
        k = M.k
        it = ex.P.T('interface{}')
        j = z3.Int('j')
        if M.mode == 'havoc':
            arr = fresh('filled', AnyArr)
            M.st.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < I(k)), z3.Select(arr, j) == z3.Select(relem(a), j)),
                                  patterns=[z3.Select(arr, j)]))
            M.cur[r] = SliceV(M.st.alloc(ArrZ(it, arr, k)), 0, k, k)
        else:
            arr, n = ex.slice_arr(M.st, M.cur[r], it)
            ex.prove(M.st, eq(n, k), M.nm('one item per element'))
            i = fresh('i', Int)
            ex.prove(M.st, z3.Implies(z3.And(i >= 0, i < I(k)), z3.Select(arr, i) == z3.Select(relem(a), i)),
                     M.nm('elements copied in order'))

    # how a variable follows the number of bytes sent
    def rels(self, L, r, v0):
        if isinstance(v0, SliceV):
            return ['suffix']
        if not isinstance(v0, bool) and (isinstance(v0, int) or (is_z(v0) and z3.is_int(v0))):
            return ['plus', 'minus', 'over']
        return []

    def rel_ok(self, L, M, rel, r, v0, sent, n):
        """formula: variable r follows the number of bytes sent"""
        ex = L.ex
        v = M.cur[r]
        if rel == 'plus':
            return eq(v, add(v0, sent))
        if rel == 'minus':
            return eq(v, sub(v0, sent))
        # counts in chunks: past the end after the last one
        return And(le(add(v0, sent), v), Or(eq(v, add(v0, sent)), eq(sent, n)), le(v, add(add(v0, n), 65535)))

    def inv_flush(self, L, M):
        ex = L.ex
        buf = ex.ctx['encbuf']
        r0 = ex.load(L.st0, buf).rope
        p0 = L.st0.ghost['w.payload']
        n = r0.len()
        if M.mode == 'init':
            L.rel = {r: self.rels(L, r, v0) for r, (ins, v0) in L.phis.items() if r not in L.steps}
        if M.mode == 'havoc':
            sent = L.sent = fresh('sent', Int)
            M.st.assume(sent >= 0, le(sent, n))
        else:
            sent = simp(sub(M.st.ghost['w.payload'].len(), p0.len()))
            M.fact(And(le(0, sent), le(sent, n)), 'part of the payload is sent')
            if M.mode == 'back':
                M.fact(lt(L.sent, sent), 'every round sends something')
        for r, rels in L.rel.items():
            if not rels or M.mode == 'init':
                continue
            v0 = L.phis[r][1]
            if rels[0] == 'suffix':
                v = SliceV(v0.ref, add(v0.off, sent), sub(v0.len, sent), sub(v0.cap, sent))
                if M.mode == 'havoc':
                    M.cur[r] = v
                elif not ex.value_eq(M.st, L.phis[r][0]['t'], M.cur[r], v):
                    rels.pop(0)
                    L.again = True
            elif M.mode == 'havoc':
                M.cur[r] = fresh('phi', Int)
                M.st.assume(self.rel_ok(L, M, rels[0], r, v0, sent, n))
            elif not valid(M.st, self.rel_ok(L, M, rels[0], r, v0, sent, n), 5000):
                rels.pop(0)
                L.again = True
        if L.again and M.mode == 'back':
            return
        sp = ex.rope_split(M.st, r0, sent)
        if sp is None:
            raise Unsupported('payload split')
        if L.d[1]:
            M.cell(buf.ref, buf.path, lambda: NatV('Buf', rope=sp[1]), 'the rest of the payload is still buffered')
        M.ghost('w.payload', p0 + sp[0], 'the payload sent so far is a prefix')
        M.ghost('w.rem', 0, 'chunks are complete')
        M.ghost('w.hdr', Rope(), 'chunks are complete')
        M.ghost('w.ended', 0, 'message not ended')
        M.ghost('w.failed', False, 'no write failed')


# ---------------------------------------------------------------- temporal structures (version 2)
GT = 'github.com/mindstand/gotime.'


def pint(x):
    return rope_of(packint(I(x)))


def day_nano(st, t):
    import timemodel as tm
    return add(mul(tm.fmod(tm.local(st, t), 86400), 1000000000), t.n)


def t_date(sp, ex, st, a, v):
    import timemodel as tm
    return conc_rope(b'\xb1D') + pint(tm.fdiv(v.f[0].f[0].s, 86400))


def t_clock(sp, ex, st, a, v):
    import timemodel as tm
    t = v.f[0].f[0]
    return conc_rope(b'\xb2T') + pint(day_nano(st, t)) + pint(tm.offset(st, t.l, t.s))


def t_localclock(sp, ex, st, a, v):
    return conc_rope(b'\xb1t') + pint(day_nano(st, v.f[0].f[0]))


def t_localtime(sp, ex, st, a, v):
    import timemodel as tm
    t = v.f[0].f[0]
    return conc_rope(b'\xb2d') + pint(tm.local(st, t)) + pint(t.n)


def t_time(sp, ex, st, a, v):
    import timemodel as tm
    return conc_rope(b'\xb3F') + pint(tm.local(st, v)) + pint(v.n) + pint(tm.offset(st, v.l, v.s))


def t_duration(sp, ex, st, a, v):
    return conc_rope(b'\xb4E\0\0') + pint(ex.quo(st, v, 1000000000)) + pint(ex.rem(st, v, 1000000000))


SPECS = {1: Spec(1, 'encoding/encoding_v1', 'EncoderV1'), 2: Spec(2, 'encoding/encoding_v2', 'EncoderV2')}
SPECS[2].temporal = {GT + 'Date': t_date, GT + 'Clock': t_clock, GT + 'LocalClock': t_localclock,
                     GT + 'LocalTime': t_localtime, 'time.Time': t_time, 'time.Duration': t_duration}
