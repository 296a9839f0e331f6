"""Contracts of the decoders: what the bytes denote, when they denote nothing, chunk reassembly (C03, C04, C05, C07).

dok(S,p)  the bytes of S from p on begin with a value that decodes (given enough nesting depth)
dv(S,p)   the value decoded there, dend(S,p) the position after it, deep(S,p) its nesting
lp(S,q,i) the position of the i-th of consecutive values starting at q
dm(S,q,i) the map of the first i key/value pairs starting at q
dl(S,q)   the consecutive values starting at q"""
import z3
from core import *
from values import *
from exec import invoke, INVOKES
from prove import Contract, err_is_nil, new_err, Pred, ANY
from models import rope_int, signed, f64of, fork2, lib_error, global_error, getbuf, EOF_
import timemodel as tm
from codec_enc import BOLT, GT, day_nano

dok = F('dok', Bytes, Int, Bool)
dv = F('dv', Bytes, Int, Any)
dend = F('dend', Bytes, Int, Int)
deep = F('deep', Bytes, Int, Int)
lp = F('lp', Bytes, Int, Int, Int)
dm = F('dm', Bytes, Int, Int, GMap)
dl = ufn('dl', Bytes, Int, AnyArr)
MUSTDEPTH = 1000          # values nested less than this must decode
MAXDEPTH = 100000         # frames of the decoder the stack certainly has room for


class Pos:
    """a position in the bytes being decoded"""

    def __init__(self, S, p):
        self.S, self.p = S, p
        self.lim = blen(S)

    def rope(self, a, n):
        return Rope((('s', self.S, a, n),))

    def rest(self, a):
        return self.rope(a, sub(self.lim, a))


def pos_of(ex, st, rope):
    """the position a buffer's contents stand for"""
    at = rope.atoms
    if len(at) == 1 and at[0][0] == 's':
        _, S, off, n = at[0]
        if valid(st, eq(add(off, n), blen(S))):
            return Pos(S, simp(off))
    if not at:
        S = fresh('nobytes', Bytes)
        st.assume(blen(S) == 0)
        return Pos(S, 0)
    S = ex.bterm(st, rope)
    st.assume(blen(S) >= 0)
    return Pos(S, 0)


def byte(ex, st, P, i):
    return ex.rope_at(st, P.rope(i, sub(P.lim, i)), 0)


def lp_step(st, S, q, i):
    """definition of lp at i"""
    st.assume(lp(S, I(q), I(add(i, 1))) == dend(S, lp(S, I(q), I(i))))


def items_ok(S, q, n):
    i = z3.Int('i')
    return z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < I(n)), dok(S, lp(S, I(q), i))), patterns=[lp(S, I(q), i)])


def items_deep(S, q, n, p):
    i = z3.Int('i')
    return z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < I(n)), deep(S, lp(S, I(q), i)) < deep(S, p)), patterns=[lp(S, I(q), i)])


def listlen(ex, a, S):
    """a decoded list has no more entries than the message has bytes"""
    t = ex.P.T('[]interface{}')
    n = ex.fldfn(t, '.len', Int)(a)
    return z3.Implies(tag(a) == ex.P.tagid(t), z3.And(n >= 0, n <= blen(S)))


class Shape:
    """one form of value: when it applies and what it requires and means"""

    def __init__(self, name, cond, f):
        self.name, self.cond, self.f = name, cond, f


class Meaning:
    """need: necessary for success; must: sufficient for success; end, value: the result; facts: definitions"""

    def __init__(self, need, end=None, value=None, must=None, facts=()):
        self.need, self.end, self.value, self.facts = need, end, value, list(facts)
        self.must = need if must is None else must


def ival(ex, x, t='int64'):
    return IfaceV(dyn=(ex.P.T(t), x))


class DecSpec:
    def __init__(self, v, pkg, ty):
        self.v, self.pkg, self.ty = v, pkg, ty
        self.decode = '(%s%s.%s).decode' % (BOLT, pkg, ty)
        self.Decode = '(%s%s.%s).Decode' % (BOLT, pkg, ty)
        self.New = '%s%s.NewDecoder' % (BOLT, pkg)

    # -------------------------------------------------------------- markers
    def shapes(self):
        out = [Shape('nil', lambda m: m == 0xC0, lambda *a: self.m_const(*a, NILI)),
               Shape('true', lambda m: m == 0xC3, lambda ex, st, P, m: self.m_const(ex, st, P, m, ival(ex, True, 'bool'))),
               Shape('false', lambda m: m == 0xC2, lambda ex, st, P, m: self.m_const(ex, st, P, m, ival(ex, False, 'bool'))),
               Shape('tiny int', lambda m: z3.Or(m <= 0x7F, m >= 0xF0), self.m_tiny),
               Shape('float', lambda m: m == 0xC1, self.m_float)]
        for i, w in enumerate((1, 2, 4, 8)):
            out.append(Shape('int%d' % (8 * w), lambda m, k=0xC8 + i: m == k, lambda ex, st, P, m, w=w: self.m_int(ex, st, P, w)))
        for nm, tiny, base, ws, f in (('string', 0x80, 0xD0, (1, 2, 4), self.m_string), ('list', 0x90, 0xD4, (1, 2, 4), self.m_list),
                                      ('map', 0xA0, 0xD8, (1, 2, 4), self.m_map), ('struct', 0xB0, 0xDC, (1, 2), self.m_struct)):
            out.append(Shape('tiny ' + nm, lambda m, t=tiny: z3.And(m >= t, m <= t + 15),
                             lambda ex, st, P, m, t=tiny, f=f: f(ex, st, P, add(P.p, 1), sub(m, t))))
            for i, w in enumerate(ws):
                out.append(Shape('%s%d' % (nm, 8 * w), lambda m, k=base + i: m == k,
                                 lambda ex, st, P, m, w=w, f=f: self.m_sized(ex, st, P, w, f)))
        conds = [s.cond for s in out]
        out.append(Shape('no value', lambda m: z3.Not(z3.Or(*[c(m) for c in conds])), lambda ex, st, P, m: [(st, 'no value', Meaning(False))]))
        return out

    def m_const(self, ex, st, P, m, v):
        return [(st, '', Meaning(True, add(P.p, 1), v))]

    def m_tiny(self, ex, st, P, m):
        return [(st, '', Meaning(True, add(P.p, 1), ival(ex, simp(z3.If(I(m) > 127, I(m) - 256, I(m))))))]

    def m_int(self, ex, st, P, w):
        outs = []
        for s, ok in fork2(ex, st, le(add(P.p, 1 + w), P.lim)):
            if not ok:
                outs.append((s, 'cut short', Meaning(False)))
                continue
            u = rope_int(ex, s, P.rope(add(P.p, 1), w), w)
            outs.append((s, '', Meaning(True, add(P.p, 1 + w), ival(ex, signed(u, w)))))
        return outs

    def m_float(self, ex, st, P, m):
        outs = []
        for s, ok in fork2(ex, st, le(add(P.p, 9), P.lim)):
            if not ok:
                outs.append((s, 'cut short', Meaning(False)))
                continue
            u = rope_int(ex, s, P.rope(add(P.p, 1), 8), 8)
            outs.append((s, '', Meaning(True, add(P.p, 9), IfaceV(dyn=(ex.P.T('float64'), FloatV(f64of(I(u))))))))
        return outs

    def m_sized(self, ex, st, P, w, f):
        outs = []
        for s, ok in fork2(ex, st, le(add(P.p, 1 + w), P.lim)):
            if not ok:
                outs.append((s, 'cut short', Meaning(False)))
                continue
            n = rope_int(ex, s, P.rope(add(P.p, 1), w), w)
            outs += f(ex, s, P, add(P.p, 1 + w), n)
        return outs

    def m_string(self, ex, st, P, q, n):
        need = le(add(q, n), P.lim)
        return [(st, '', Meaning(need, add(q, n), IfaceV(dyn=(ex.P.T('string'), StrV(P.rope(q, n))))))]

    def m_list(self, ex, st, P, q, n):
        S = P.S
        i = z3.Int('i')
        need = z3.And(B(le(n, sub(P.lim, q))), items_ok(S, q, n))
        arr = dl(S, I(q))
        et = ex.P.T('interface{}')
        facts = [lp(S, I(q), 0) == I(q), items_deep(S, q, n, P.p), deep(S, P.p) >= 0,
                 z3.ForAll([i], z3.Select(arr, i) == dv(S, lp(S, I(q), i)), patterns=[z3.Select(arr, i)])]
        v = SliceV(st.alloc(ArrZ(et, arr, n, True)), 0, n, n)
        return [(st, '', Meaning(need, lp(S, I(q), I(n)), IfaceV(dyn=(ex.P.T('[]interface{}'), v)), None, facts))]

    def m_map(self, ex, st, P, q, n):
        S = P.S
        i = z3.Int('i')
        ts = ex.P.T('string')
        tg = ex.P.tagid(ts)
        need = z3.And(B(le(mul(n, 2), sub(P.lim, q))), items_ok(S, q, mul(n, 2)),
                      z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < I(n)), tag(dv(S, lp(S, I(q), 2 * i))) == tg),
                                patterns=[lp(S, I(q), 2 * i)]))
        facts = [lp(S, I(q), 0) == I(q), items_deep(S, q, mul(n, 2), P.p), deep(S, P.p) >= 0, dm(S, I(q), 0) == gempty, glen(gempty) == 0]
        mt = ex.P.T('map[string]interface{}')
        v = MapV(st.alloc(MapObj(mt, (), dm(S, I(q), I(n)))))
        return [(st, '', Meaning(need, lp(S, I(q), I(n)), IfaceV(dyn=(mt, v)), None, facts))] if False else \
            [(st, '', Meaning(need, lp(S, I(q), I(mul(n, 2))), IfaceV(dyn=(mt, v)), None, facts))]

    # -------------------------------------------------------------- structures
    def m_struct(self, ex, st, P, q, n):
        outs = []
        for s, ok in fork2(ex, st, lt(q, P.lim)):
            if not ok:
                outs.append((s, 'cut short', Meaning(False)))
                continue
            sig = byte(ex, s, P, q)
            table = self.structs()
            rest = s
            for code, (name, f) in sorted(table.items()):
                if feasible(rest, eq(sig, code)):
                    s2 = rest.fork()
                    s2.assume(B(eq(sig, code)))
                    for s3, nm, M in f(ex, s2, P, add(q, 1)):
                        outs.append((s3, name + (' ' + nm if nm else ''), M))
                    rest.assume(Not(eq(sig, code)))
            if feasible(rest):
                outs.append((rest, 'unknown structure', Meaning(False)))
        return outs

    def structs(self):
        t = {0x4E: ('node', self.fields(['int64', 'strings', 'map'], BOLT + 'structures/graph.Node')),
             0x52: ('relationship', self.fields(['int64', 'int64', 'int64', 'string', 'map'], BOLT + 'structures/graph.Relationship')),
             0x72: ('unbound relationship', self.fields(['int64', 'string', 'map'], BOLT + 'structures/graph.UnboundRelationship')),
             0x50: ('path', self.fields([BOLT + 'structures/graph.Node', BOLT + 'structures/graph.UnboundRelationship', 'ints'],
                                        BOLT + 'structures/graph.Path')),
             0x71: ('record', self.fields(['list'], BOLT + 'structures/messages.RecordMessage')),
             0x7F: ('failure', self.fields(['map'], BOLT + 'structures/messages.FailureMessage')),
             0x70: ('success', self.fields(['map'], BOLT + 'structures/messages.SuccessMessage')),
             0x7E: ('ignored', self.fields([], BOLT + 'structures/messages.IgnoredMessage')),
             0x2F: ('discard all', self.fields([], BOLT + 'structures/messages.DiscardAllMessage')),
             0x3F: ('pull all', self.fields([], BOLT + 'structures/messages.PullAllMessage')),
             0x0F: ('reset', self.fields([], BOLT + 'structures/messages.ResetMessage'))}
        if self.v >= 2:
            t.update({0x58: ('point2d', self.fields(['int', 'float64', 'float64'], BOLT + 'structures/types.Point2D')),
                      0x59: ('point3d', self.fields(['int', 'float64', 'float64', 'float64'], BOLT + 'structures/types.Point3D')),
                      0x44: ('date', self.fields(['int64'], GT + 'Date', p_date)),
                      0x54: ('time', self.fields(['int64', 'int64'], GT + 'Clock', p_clock)),
                      0x74: ('local time', self.fields(['int64'], GT + 'LocalClock', p_localclock)),
                      0x64: ('local date time', self.fields(['int64', 'int64'], GT + 'LocalTime', p_localtime)),
                      0x46: ('date time with offset', self.fields(['int64', 'int64', 'int64'], 'time.Time', p_offset)),
                      0x66: ('date time with zone', self.fields(['int64', 'int64', 'string'], 'time.Time', p_zone)),
                      0x45: ('duration', self.fields(['int64', 'int64', 'int64', 'int64'], 'time.Duration', p_duration))})
        return t

    def fields(self, kinds, tname, pred=None):
        """structure whose fields have these kinds and end up, in order, in the fields of type tname"""
        def f(ex, st, P, q):
            S, pr = P.S, ex.P
            t = pr.T(tname)
            conds, vals = [], []
            facts = [lp(S, I(q), 0) == I(q), deep(S, P.p) >= 0]
            # one after the other, a field of the wrong kind ending the structure
            for i, k in enumerate(kinds):
                at = lp(S, I(q), i)
                facts += [lp(S, I(q), i + 1) == dend(S, at), deep(S, at) < deep(S, P.p)]
                a = dv(S, at)
                conds.append(dok(S, at))
                c, v = field_value(ex, st, k, a, facts)
                conds.append(c)
                vals.append(v)
            need = And(*conds)
            must = need
            if pred is None:
                value = IfaceV(dyn=(t, StructV(t, vals)))
            else:
                for x in facts:
                    st.assume(x)
                m, p = pred(ex, st, vals)
                must = And(need, m)
                need = And(need, p.get('need', True))
                g = p['value']
                value = Pred(lambda e, s, v: v.dyn is not None and e.tstr(v.dyn[0]) == tname and g(e, s, v.dyn[1]))
            return [(st, '', Meaning(need, lp(S, I(q), len(kinds)), value, must, facts))]
        return f


def field_value(ex, st, k, a, facts):
    """(condition, value) of a structure field of kind k held in interface term a"""
    P = ex.P
    if k == 'int':
        t = P.T('int64')
        return tag(a) == P.tagid(t), ex.fldfn(t, '', Int)(a)
    if k in ('int64', 'float64', 'string'):
        t = P.T(k)
        return tag(a) == P.tagid(t), ex.unbox(st, t, a)
    if k == 'map':
        t = P.T('map[string]interface{}')
        return tag(a) == P.tagid(t), ex.unbox(st, t, a)
    t = P.T('[]interface{}')
    c = tag(a) == P.tagid(t)
    v = ex.unbox(st, t, a)
    if k == 'list':
        return c, v
    arr, n = ex.fldfn(t, '.arr', AnyArr)(a), ex.fldfn(t, '.len', Int)(a)
    i = z3.Int('i')
    ent, el = {'strings': ('string', 'string'), 'ints': ('int', 'int64')}.get(k, (k, k))
    et = P.T(ent)
    src = P.T(el)
    c = z3.And(c, z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), tag(z3.Select(arr, i)) == P.tagid(src)), patterns=[z3.Select(arr, i)]))
    so = ex.esort(et)
    if so is Any:
        return c, SliceV(st.alloc(ArrZ(et, arr, n, True)), 0, n, n)
    conv = ufn('conv_' + k, AnyArr, z3.ArraySort(Int, so))(arr)
    facts.append(z3.ForAll([i], z3.Select(conv, i) == ex.fldfn(src, '', so)(z3.Select(arr, i)), patterns=[z3.Select(conv, i)]))
    return c, SliceV(st.alloc(ArrZ(et, conv, n, True)), 0, n, n)


def rng(x, lo, hi):
    return z3.And(I(x) >= lo, I(x) < hi)


def claim(ex, st, hyp, goal):
    return valid(st, Imp(hyp, goal))


BIL = 1000000000
DAYN = 86400 * BIL


def inner(v):
    """the time.Time inside a gotime value"""
    while isinstance(v, StructV):
        v = v.f[0]
    return v


def p_date(ex, st, f):
    d = f[0]
    return True, {'value': lambda e, s, v: claim(e, s, rng(d, -(1 << 40), 1 << 40), And(
        eq(inner(v).s, mul(d, 86400)), eq(inner(v).n, 0), inner(v).l == tm.UTC))}


def p_clock(ex, st, f):
    n, off = f

    def g(e, s, v):
        t = inner(v)
        return claim(e, s, z3.And(rng(n, 0, DAYN), rng(off, -172800, 172801)),
                     And(eq(day_nano(s, t), n), eq(tm.offset(s, t.l, t.s), off)))
    return True, {'value': g}


def p_localclock(ex, st, f):
    n = f[0]

    def g(e, s, v):
        t = inner(v)
        # no zone changes its offset on the first of January 1970
        o = tm.local_offset(s, tm.LOCAL, 0)
        s.assume(z3.Implies(rng(add(t.s, o), 0, 86400), tm.zoff(tm.LOCAL, I(t.s)) == I(o)))
        return claim(e, s, rng(n, 0, DAYN), And(eq(day_nano(s, t), n), t.l == tm.LOCAL))
    return True, {'value': g}


def p_localtime(ex, st, f):
    sec, n = f

    def g(e, s, v):
        t = inner(v)
        return claim(e, s, z3.And(rng(sec, -(1 << 50), 1 << 50), rng(n, 0, BIL)),
                     And(eq(t.s, sub(sec, tm.local_offset(s, tm.LOCAL, sec))), eq(t.n, n), t.l == tm.LOCAL))
    return True, {'value': g}


def p_offset(ex, st, f):
    sec, n, off = f

    def g(e, s, v):
        t = inner(v)
        return claim(e, s, z3.And(rng(sec, -(1 << 50), 1 << 50), rng(n, 0, BIL), rng(off, -172800, 172801)),
                     And(eq(t.s, sub(sec, off)), eq(t.n, n), eq(tm.offset(s, t.l, t.s), off)))
    return True, {'value': g}


def p_zone(ex, st, f):
    sec, n, z = f
    b = ex.bterm(st, z.rope)

    def g(e, s, v):
        t = inner(v)
        return claim(e, s, z3.And(rng(sec, -(1 << 50), 1 << 50), rng(n, 0, BIL)),
                     And(eq(t.s, sub(sec, tm.local_offset(s, tm.zoneof(b), sec))), eq(t.n, n), t.l == tm.zoneof(b)))
    return tm.zoneok(b), {'value': g, 'need': tm.zoneok(b)}


def p_duration(ex, st, f):
    mo, d, sec, n = f
    total = add(mul(add(add(mul(mo, 2629746), mul(d, 86400)), sec), BIL), n)
    small = z3.And(rng(mo, -1000, 1000), rng(d, -36500, 36501), rng(sec, -3000000000, 3000000001), rng(n, -100000000 * BIL, 100000000 * BIL))
    return small, {'value': lambda e, s, v: valid(s, eq(v, total))}


class DecodeContract(Contract):
    """decode(buffer): the value the bytes denote, consuming exactly its bytes; an error iff they denote none"""

    def __init__(self, spec):
        self.spec = spec

    # -- shape of the receiver
    @staticmethod
    def depth(ex, d):
        fs = ex.P.fields(d.t)
        xs = [v for f, v in zip(fs, d.f) if ex.P.intinfo(f['type'])]
        return xs[0] if len(xs) == 1 else None

    def buffer(self, ex, args):
        for a in args[1:]:
            if isinstance(a, PtrV):
                return a
        raise Unsupported('decode has no buffer')

    def setups(self, ex, st, name):
        f = ex.P.funcs[name]
        S = fresh('S', Bytes)
        p = fresh('p', Int)
        st.assume(blen(S) >= 0, blen(S) < (1 << 48), p >= 0, p <= blen(S))
        args = []
        for i, prm in enumerate(f['params']):
            s = ex.P.str(prm['t'])
            if s == '*bytes.Buffer':
                args.append(PtrV(st.alloc(Cell(NatV('Buf', rope=Rope((('s', S, p, simp(blen(S) - p)),))), ex.P.elem(prm['t'])))))
            elif i == 0:
                args.append(dec_value(ex, st, prm['t']))
            else:
                args.append(ex.sym(st, prm['t'], lambda q, so: fresh('arg' + q, so)))
        d = self.depth(ex, args[0])
        if d is not None:
            st.assume(I(d) >= 0, I(d) <= MAXDEPTH)
        ex.ctx['depth0'] = d
        ex.ctx['decS'] = S
        ex.on_make = lambda e, s, n, et: e.prove(s, Or(le(n, 65536), le(n, blen(S))), 'allocates no more than the message can back')
        return [(args, st)]

    def pre(self, ex, st, args, name):
        d = self.depth(ex, args[0])
        d0 = ex.ctx.get('depth0')
        if st.ghost.get('entry') == name:
            ok = d is not None and d0 is not None and valid(st, And(lt(d0, d), le(d, MAXDEPTH)))
            ex.ob('nesting is bounded: %s' % name.split('/')[-1], ok, '' if ok else 'depth %s inside %s' % (d, d0), st)
        elif d is not None:
            ex.prove(st, And(le(0, d), le(d, MAXDEPTH - 1)), 'nesting starts in range')

    def cases(self, ex, st, args):
        P = pos_of(ex, st, ex.load(st, self.buffer(ex, args)).rope)
        ok = dok(P.S, I(P.p))
        return [('value', ok), ('refused', True)]

    def must_reach(self, ex, args):
        return ['value', 'refused']

    def outcomes(self, ex, st, args, ret):
        n = err_is_nil(ex, st, ret.f[1])
        return [('value', n), ('refused', Not(n))]

    def post(self, E):
        ex, st = E.ex, E.st
        b = self.buffer(ex, E.args)
        d = self.depth(ex, E.args[0])
        P = pos_of(ex, E.old if E.checking else st, ex.load(E.old if E.checking else st, b).rope)
        S, p = P.S, I(P.p)
        a, q = dv(S, p), dend(S, p)
        st.assume(deep(S, p) >= 0)
        if not E.checking:
            if E.case == 'value':
                st.assume(tag(a) >= 0, q > p, q <= P.lim, listlen(ex, a, S))
                E.cell(b, NatV('Buf', rope=P.rest(q)))
                E.retv = TupleV([IfaceV(term=a), NILI])
            else:
                st.assume(Or(Not(dok(S, p)), deep(S, p) + I(0 if d is None else d) > MUSTDEPTH))
                j = fresh('junk', Bytes)
                st.assume(blen(j) >= 0, blen(j) <= P.lim - p)
                E.cell(b, NatV('Buf', rope=rope_of(j)))
                e = new_err(st)
                x = fresh('junkv', Any)
                st.assume(tag(x) >= 0)
                E.retv = TupleV([IfaceV(term=x), e])
            return
        # every form the first byte allows on this path
        if d is None:
            d = 0
        E.decl.add((b.ref, b.path))
        empty = le(P.lim, P.p)
        if feasible(st, empty):
            s2 = st.fork()
            s2.assume(B(empty))
            E.ob(E.case == 'refused' or not feasible(s2), 'no bytes are no value')
            st.assume(Not(empty))
            if not feasible(st):
                return
        m = I(byte(ex, st, P, P.p))
        if feasible(st, m >= 256):
            st.assume(m < 256)
        rb = ex.load(st, b).rope
        for sh in self.spec.shapes():
            c = simp(sh.cond(m))
            if c is False or (c is not True and not feasible(st, c)):
                continue
            s1 = st.fork()
            s1.assume(B(c))
            for s2, sub_, M in sh.f(ex, s1, P, simp(m)):
                if not feasible(s2):
                    continue
                nm = E.nm('%s%s' % (sh.name, ', ' + sub_ if sub_ else ''))
                for x in M.facts:
                    s2.assume(x)
                if E.case == 'refused':
                    ex.prove(s2, Or(Not(M.must), I(d) + deep(S, p) > MUSTDEPTH), nm + ': only refused when the bytes denote no value')
                    continue
                ok = ex.prove(s2, M.need, nm + ': only bytes that denote a value are accepted')
                if not ok or M.end is None:
                    continue
                got = rb
                good = ex.rope_eq(s2, got, P.rest(M.end))
                ex.ob(nm + ': consumes exactly the bytes of the value', good, '' if good else '%.200r left, not from %s' % (got, M.end), s2)
                v = E.retv.f[0]
                if v.dyn is not None and isinstance(v.dyn[1], SliceV):
                    ex.prove(s2, le(v.dyn[1].len, P.lim), nm + ': a list is no longer than the message')
                elif v.dyn is None and v.term is not None:
                    ex.prove(s2, listlen(ex, v.term, S), nm + ': a list is no longer than the message')
                good = ex.value_eq(s2, None, v, M.value)
                ex.ob(nm + ': decodes to the value denoted', good, '' if good else '%.300r is not %.300r' % (v, M.value), s2)


def dec_value(ex, st, t, reader=None):
    """a decoder of struct type t"""
    fs = []
    for f in ex.P.fields(t):
        s = ex.P.str(f['type'])
        if s == 'io.Reader':
            fs.append(reader or IfaceV(dyn=('Reader', NatV('Reader'))))
        elif s == '*bytes.Buffer':
            fs.append(PtrV(st.alloc(Cell(NatV('Buf', rope=Rope()), ex.P.elem(f['type'])))))
        else:
            fs.append(ex.sym(st, f['type'], lambda p, so: fresh('d' + p, so)))
    return StructV(t, fs)


# ---------------------------------------------------------------- the incoming stream
def r_init(st):
    T = fresh('stream', Bytes)
    st.assume(blen(T) >= 0)
    st.ghost['r.T'] = T
    st.ghost['r.pos'] = 0
    st.ghost['r.hdr'] = Rope()
    st.ghost['r.rem'] = 0
    st.ghost['r.payload'] = Rope()
    st.ghost['r.ended'] = 0
    st.ghost['r.failed'] = False


def r_feed(ex, st, rope):
    """the code took these bytes off the stream"""
    while True:
        n = simp(rope.len())
        if isinstance(n, int) and n == 0 or (not isinstance(n, int) and valid(st, n == 0)):
            return
        if st.ghost['r.ended']:
            ex.ob('reassembly: nothing is read past the end of the message', False, '', st)
            return
        rem = simp(st.ghost['r.rem'])
        if (isinstance(rem, int) and rem == 0) or (is_z(rem) and valid(st, rem == 0)):
            h = st.ghost['r.hdr']
            need = 2 - h.len()
            if not valid(st, le(need, n)):
                if need == 2 and valid(st, eq(n, 1)):
                    st.ghost['r.hdr'] = h + rope
                    return
                raise Unsupported('part of a chunk header of unknown length is read')
            sp = ex.rope_split(st, rope, need)
            h = h + sp[0]
            rope = sp[1]
            x = rope_int(ex, st, h, 2)
            st.ghost['r.hdr'] = Rope()
            if valid(st, eq(x, 0)):
                st.ghost['r.ended'] = 1
                continue
            if not valid(st, lt(0, x)):
                # not yet known which: settled by the next read, or by the code's own test
                st.ghost['r.rem'] = x
                continue
            st.ghost['r.rem'] = x
            continue
        if valid(st, le(rem, n)):
            sp = ex.rope_split(st, rope, rem)
            st.ghost['r.payload'] = st.ghost['r.payload'] + sp[0]
            st.ghost['r.rem'] = 0
            rope = sp[1]
            continue
        if valid(st, le(n, rem)):
            st.ghost['r.payload'] = st.ghost['r.payload'] + rope
            st.ghost['r.rem'] = sub(rem, n)
            return
        ex.ob('reassembly: a read stays inside its chunk', False, 'chunk has %s bytes left, %s are read' % (rem, n), st)
        raise Unsupported('read and chunk length cannot be related')


def r_take(ex, st, n):
    """n bytes of the stream; they exist"""
    T, pos = st.ghost['r.T'], st.ghost['r.pos']
    st.assume(I(pos) + I(n) <= blen(T))
    r = Rope((('s', T, pos, n),))
    st.ghost['r.pos'] = add(pos, n)
    return r


def r_failure(ex, st):
    s2 = st.fork()
    s2.ghost['r.failed'] = True
    e = lib_error(ex, s2, 'readerr')
    return s2, e


def _readfull(ex, st, rd, n):
    if isinstance(n, int) and n == 0:
        return [(st, Rope(), NILI)]
    s2, e = r_failure(ex, st)
    rope = r_take(ex, st, n)
    outs = []
    # a header is read: which of the two it is decides the rest of the message
    if isinstance(n, int) and n + st.ghost['r.hdr'].len() == 2 and valid(st, eq(st.ghost['r.rem'], 0)):
        x = rope_int(ex, st, st.ghost['r.hdr'] + rope, 2)
        for s, z in fork2(ex, st, eq(x, 0)):
            r_feed(ex, s, rope)
            outs.append((s, rope, NILI))
    else:
        r_feed(ex, st, rope)
        outs.append((st, rope, NILI))
    return outs + [(s2, None, e)]


INVOKES[('ReadFull', 'Reader')] = _readfull


@invoke(('Reader', 'Read'))
def _(ex, st, r, a, ins):
    buf = a[0]
    outs = []
    for s, empty in fork2(ex, st, eq(buf.len, 0)):
        if empty:
            outs.append((s, 'ret', TupleV([0, NILI])))
            continue
        s2, e = r_failure(ex, s)
        outs.append((s2, 'ret', TupleV([0, e])))
        n = fresh('nread', Int)
        s.assume(n >= 1, n <= I(buf.len))
        rope = r_take(ex, s, n)
        r_feed(ex, s, rope)
        ex.writebytes(s, buf, 0, rope)
        outs.append((s, 'ret', TupleV([n, NILI])))
    return outs


class TopDecode(Contract):
    """Decode: one message off the stream, exactly up to its terminator, decoded"""

    def __init__(self, spec):
        self.spec = spec

    def setups(self, ex, st, name):
        f = ex.P.funcs[name]
        d = dec_value(ex, st, f['params'][0]['t'])
        # a decoder fresh from NewDecoder
        d = StructV(d.t, [0 if ex.P.intinfo(fl['type']) else v for fl, v in zip(ex.P.fields(d.t), d.f)])
        r_init(st)
        ex.ctx['depth0'] = None
        ex.on_make = lambda e, s, n, et: e.prove(s, le(n, 65536), 'allocates no more than a chunk')
        return [([d], st)]

    def outcomes(self, ex, st, args, ret):
        n = err_is_nil(ex, st, ret.f[1])
        return [('message', n), ('failed', Not(n))]

    def must_reach(self, ex, args):
        return ['message', 'failed']

    def post(self, E):
        ex, st = E.ex, E.st
        g = st.ghost
        for k in g:
            if isinstance(k, str) and k.startswith('r.'):
                E.gdecl.add(k)
        if E.case == 'message' or g['r.failed'] is False:
            E.ob(g['r.ended'] == 1, 'the stream is consumed up to the terminator')
            P = pos_of(ex, st, g['r.payload'])
            if E.case == 'message':
                E.ob(g['r.failed'] is False, 'a failed read is reported')
                E.fact(dok(P.S, I(P.p)), 'the payload denotes a value')
                v = E.retv.f[0]
                ok = ex.value_eq(st, None, v, IfaceV(term=dv(P.S, I(P.p))))
                E.ob(ok, 'the value is decoded from the concatenated chunk bodies')
            else:
                E.fact(Or(Not(dok(P.S, I(P.p))), deep(P.S, I(P.p)) > MUSTDEPTH), 'fails only when the payload denotes no value')


# ---------------------------------------------------------------- loops
class DecLoops:
    def __init__(self, spec):
        self.spec = spec

    def applies(self, L):
        ex = L.ex
        if self.spec.pkg not in L.fr.stack[0] and '/encoding.' not in L.fr.stack[0]:
            return None
        calls = set()
        maps = []
        for ins in L.instrs():
            if ins['op'] == 'Call' and ins.get('fn', {}).get('k') == 'func':
                calls.add(ins['fn']['n'])
            if ins['op'] == 'Call' and 'invoke' in ins:
                calls.add('.' + ins['invoke'])
            if ins['op'] == 'MapUpdate':
                maps.append(ins)
        if self.spec.decode in calls:
            if maps:
                m = L.outer(maps[0]['m'])
                if isinstance(m, MapV):
                    return ('map', m)
            for ins in L.instrs():
                if ins['op'] == 'Store' and ins['addr']['k'] == 'reg':
                    d = L.defs.get(ins['addr']['n'])
                    if d and d['op'] == 'IndexAddr' and isinstance(L.outer(d['x']), SliceV):
                        return ('list', L.outer(d['x']))
            for r, (ins, v) in L.phis.items():
                if isinstance(v, SliceV):
                    return ('append', r)
            return None
        if 'r.T' in L.st0.ghost:
            if 'io.ReadFull' in calls and ('(*bytes.Buffer).Write' in calls or any('readData' in c for c in calls)):
                return ('chunks',)
            if '.Read' in calls:
                for ins in L.instrs():
                    pass
                return ('fill',)
        # copies
        for ins in L.instrs():
            if ins['op'] == 'Store' and ins['addr']['k'] == 'reg':
                d = L.defs.get(ins['addr']['n'])
                if d and d['op'] == 'IndexAddr':
                    dst = L.outer(d['x'])
                    src = [(L.outer(j['x']), j) for j in L.instrs() if j['op'] == 'IndexAddr' and j is not d and isinstance(L.outer(j['x']), SliceV)]
                    if isinstance(dst, SliceV) and len(src) == 1:
                        et, es = ex.P.elem(d['x']['t']), ex.P.elem(src[0][1]['x']['t'])
                        if ex.P.basic(et) in ('uint8', 'byte'):
                            return ('bytes', dst, src[0][0], d)
                        if ex.P.kind(es) == 'iface':
                            return ('conv', dst, src[0][0], et)
        for r, (ins, v) in L.phis.items():
            if isinstance(v, SliceV) and v.len == 0 and ex.P.kind(ex.P.elem(ins['t'])) != 'iface':
                src = [(L.outer(j['x']), j) for j in L.instrs() if j['op'] == 'IndexAddr' and isinstance(L.outer(j['x']), SliceV)]
                if len(src) == 1 and ex.P.kind(ex.P.elem(src[0][1]['x']['t'])) == 'iface':
                    return ('conv', r, src[0][0], ex.P.elem(ins['t']))
        return None

    def inv(self, L, M):
        getattr(self, 'inv_' + L.d[0])(L, M)

    def _buf(self, L):
        """the buffer being decoded: the only bytes.Buffer a call in the loop is given"""
        for ins in L.instrs():
            if ins['op'] == 'Call' and ins.get('fn', {}).get('n') == self.spec.decode:
                for a in ins['args'][1:]:
                    v = L.outer(a)
                    if isinstance(v, PtrV):
                        return v
        raise Unsupported('no buffer in the loop')

    def _seq(self, L, M, n):
        """buffer at the n-th value of the sequence that starts where the loop was entered"""
        ex = L.ex
        if M.mode == 'init':
            L.b = self._buf(L)
            L.P = pos_of(ex, L.st0, ex.load(L.st0, L.b).rope)
            L.st0.assume(lp(L.P.S, I(L.P.p), 0) == I(L.P.p))
        P = L.P
        S, q = P.S, I(P.p)
        st = M.st
        at = lp(S, q, I(n))
        if M.mode != 'havoc':
            for j in range(2):
                m = simp(sub(n, j + 1))
                if not (isinstance(m, int) and m < 0):
                    lp_step(st, S, q, m)
        else:
            lp_step(st, S, q, n)
            lp_step(st, S, q, simp(add(n, 1)))
        st.assume(lp(S, q, 0) == q)
        i = z3.Int('i')
        M.fact(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < I(n)), dok(S, lp(S, q, i))), patterns=[lp(S, q, i)]), 'values so far are valid')
        M.fact(z3.And(at >= q + I(n), at <= P.lim), 'position')
        M.cell(L.b.ref, L.b.path, lambda: NatV('Buf', rope=P.rest(at)), 'consumed exactly the values so far')

    def inv_list(self, L, M):
        ex = L.ex
        self._seq(L, M, M.k)
        x, k = L.d[1], M.k
        S, q = L.P.S, I(L.P.p)
        j = z3.Int('j')

        def make():
            arr = fresh('items', AnyArr)
            M.st.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < I(k)), z3.Select(arr, j) == dv(S, lp(S, q, j))),
                                  patterns=[z3.Select(arr, j)]))
            return ArrZ(ex.P.T('interface{}'), arr, x.cap)

        def check(o):
            arr = ex.slice_arr(M.st, x, ex.P.T('interface{}'))[0]
            i = fresh('i', Int)
            ex.prove(M.st, z3.Implies(z3.And(i >= 0, i < I(k)), z3.Select(arr, i) == dv(S, lp(S, q, i))), M.nm('items in order'))
        if M.mode != 'init' or True:
            M.obj(x.ref, make, check)
        M.fact(le(k, x.len), 'index within the list')

    def inv_append(self, L, M):
        ex = L.ex
        self._seq(L, M, M.k)
        r, k = L.d[1], M.k
        S, q = L.P.S, I(L.P.p)
        j = z3.Int('j')
        et = ex.P.T('interface{}')
        if M.mode == 'havoc':
            arr = fresh('items', AnyArr)
            M.st.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < I(k)), z3.Select(arr, j) == dv(S, lp(S, q, j))),
                                  patterns=[z3.Select(arr, j)]))
            M.cur[r] = SliceV(M.st.alloc(ArrZ(et, arr, k)), 0, k, k)
        else:
            v = M.cur[r]
            arr, n = ex.slice_arr(M.st, v, et)
            i = fresh('i', Int)
            ex.prove(M.st, z3.And(I(n) == I(k), z3.Implies(z3.And(i >= 0, i < I(k)), z3.Select(arr, i) == dv(S, lp(S, q, i)))), M.nm('items in order'))

    def inv_map(self, L, M):
        ex = L.ex
        k = M.k
        self._seq(L, M, mul(k, 2))
        m = L.d[1]
        S, q = L.P.S, I(L.P.p)
        st = M.st
        i = z3.Int('i')
        ts = ex.P.T('string')
        st.assume(dm(S, q, 0) == gempty, glen(gempty) == 0)
        M.fact(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < I(k)), tag(dv(S, lp(S, q, 2 * i))) == ex.P.tagid(ts)), patterns=[lp(S, q, 2 * i)]),
               'keys so far are strings')
        mt = L.st0.heap[m.ref].t

        def make():
            return MapObj(mt, (), dm(S, q, I(k)))

        def check(o):
            if M.mode == 'back':
                j = I(simp(sub(k, 1)))
                a, b = dv(S, lp(S, q, 2 * j)), dv(S, lp(S, q, 2 * j + 1))
                st.assume(dm(S, q, I(k)) == gput(dm(S, q, j), ex.fldfn(ts, '', Bytes)(a), b))
            t = ex.mobj_term(st, o)
            ex.prove(st, t == dm(S, q, I(k)), M.nm('entries so far'))
        M.obj(m.ref, make, check)

    def inv_bytes(self, L, M):
        ex = L.ex
        dst, src, d = L.d[1], L.d[2], L.d[3]
        k = M.k
        if M.mode == 'init':
            L.r0 = ex.slice_rope(L.st0, SliceV(dst.ref, 0, _cap(L.st0, dst), None))
            L.src = ex.named(L.st0, ex.slice_rope(L.st0, src))
            o = L.st0.heap[src.ref]
            if isinstance(o, ArrRope) and same(simp(src.off), 0) and valid(L.st0, eq(o.rope.len(), src.len)):
                L.st0.heap[src.ref] = ArrRope(L.src, o.frozen)
            # where the first byte goes
            off = self._index(L, d['index'])
            L.off = off
        st = M.st
        off = L.off
        a = ex.rope_split(st, L.r0, add(dst.off, off))
        if a is None:
            raise Unsupported('byte copy')

        def rope():
            s = ex.rope_split(st, L.src, k)
            b = ex.rope_split(st, a[1], k)
            if s is None or b is None:
                raise Unsupported('byte copy')
            return a[0] + s[0] + b[1]
        M.fact(le(k, src.len), 'index within the source')
        M.fact(le(add(off, src.len), dst.len), 'room in the target')

        def check(o):
            got = ex.slice_rope(st, SliceV(dst.ref, 0, L.r0.len(), None))
            ok = ex.rope_eq(st, got, rope())
            ex.ob(M.nm('bytes copied in place'), ok, '' if ok else '%r' % got, st)
        M.obj(dst.ref, lambda: ArrRope(rope()), check)

    def _index(self, L, o):
        """outer part of an index expression that is counter + something"""
        v = L.outer(o)
        if v is not None:
            return v
        d = L.defs.get(o.get('n'))
        if d is None:
            raise Unsupported('index')
        if d['op'] == 'Phi':
            return 0 if simp(L.phis[o['n']][1]) in (0, -1) else L.phis[o['n']][1]
        if d['op'] == 'Convert':
            return self._index(L, d['x'])
        if d['op'] == 'BinOp' and d['tok'] == '+':
            if d['x'].get('n') in L.phis and d['y']['k'] == 'const':
                return add(L.phis[d['x']['n']][1], int(d['y']['int']))
            return add(self._index(L, d['x']), self._index(L, d['y']))
        raise Unsupported('index')

    def inv_conv(self, L, M):
        """element by element conversion of a list of interface values"""
        ex = L.ex
        dst, src, et = L.d[1], L.d[2], L.d[3]
        k = M.k
        st = M.st
        if M.mode == 'init':
            L.arr, L.n = ex.slice_arr(L.st0, src, ex.P.T('interface{}'))
        j = z3.Int('j')
        so = ex.esort(et)
        sname = {'int': 'int64'}.get(ex.P.str(et), ex.P.str(et))
        stt = ex.P.T(sname)

        def image(x):
            return x if so is Any else ex.fldfn(stt, '', so)(x)
        typed = lambda i: tag(z3.Select(L.arr, i)) == ex.P.tagid(stt)
        M.fact(le(k, L.n), 'index within the list')
        M.fact(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < I(k)), typed(j)), patterns=[z3.Select(L.arr, j)]), 'types so far')

        def make():
            a = fresh('conv', z3.ArraySort(Int, so))
            st.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < I(k)), z3.Select(a, j) == image(z3.Select(L.arr, j))),
                                patterns=[z3.Select(a, j)]))
            return ArrZ(et, a, dst.cap if isinstance(dst, SliceV) else k)

        def check(o, x=dst):
            a, n = ex.slice_arr(st, x, et)
            i = fresh('i', Int)
            ex.prove(st, z3.Implies(z3.And(i >= 0, i < I(k)), z3.Select(a, i) == image(z3.Select(L.arr, i))), M.nm('elements so far'))
            return n
        if isinstance(dst, SliceV):
            M.obj(dst.ref, make, check)
        elif M.mode == 'havoc':
            M.cur[dst] = SliceV(st.alloc(make()), 0, k, k)
        else:
            ex.prove(st, eq(check(None, M.cur[dst]), k), M.nm('one item per element'))

    # -- stream
    def inv_chunks(self, L, M):
        ex = L.ex
        st = M.st
        out = None
        for ref, o in L.st0.heap.items():
            if isinstance(o, Cell) and isinstance(o.v, NatV) and o.v.kind == 'Buf':
                out = ref
        outs = [a for ins in L.instrs() if ins['op'] == 'Call' and ins.get('fn', {}).get('n') == '(*bytes.Buffer).Write'
                for a in [L.outer(ins['args'][0])] if isinstance(a, PtrV)]
        if not outs:
            raise Unsupported('no output buffer')
        b = outs[0]
        if M.mode == 'havoc':
            t = fresh('payload', Bytes)
            st.assume(blen(t) >= 0)
            pay = rope_of(t)
            pos = fresh('pos', Int)
            st.assume(pos >= 0)
        else:
            pay = st.ghost['r.payload']
            pos = st.ghost['r.pos']
        M.cell(b.ref, b.path, lambda: NatV('Buf', rope=pay), 'output is the chunk bodies so far')
        M.ghost('r.payload', pay, 'payload')
        M.ghost('r.pos', pos, 'position')
        M.ghost('r.rem', 0, 'chunks are read completely')
        M.ghost('r.hdr', Rope(), 'headers are read completely')
        M.ghost('r.ended', 0, 'message goes on')
        M.ghost('r.failed', False, 'no read failed')

    def inv_fill(self, L, M):
        """reads until a slice is full: total bytes so far are in place"""
        ex = L.ex
        st = M.st
        tot = [r for r, (ins, v) in L.phis.items() if ex.P.intinfo(ins['t'])]
        if len(tot) != 1:
            raise Unsupported('read loop')
        t = tot[0]
        if M.mode == 'init':
            L.T, L.pos0, L.pay0, L.rem0 = (st.ghost[k] for k in ('r.T', 'r.pos', 'r.payload', 'r.rem'))
            L.dst = None
            for r, v in L.regs.items():
                if isinstance(v, SliceV) and v.ref is not None and isinstance(L.st0.heap.get(v.ref), ArrRope) and \
                        valid(L.st0, eq(v.len, L.rem0)):
                    L.dst = v
            if L.dst is None:
                raise Unsupported('read loop without a target')
        if M.mode == 'havoc':
            n = fresh('total', Int)
            M.cur[t] = n
            st.assume(n >= 0)
        else:
            n = M.cur[t]
        M.fact(And(le(0, n), le(n, L.rem0)), 'total within the chunk')
        got = Rope((('s', L.T, L.pos0, n),))
        M.ghost('r.pos', add(L.pos0, n), 'position')
        M.ghost('r.payload', L.pay0 + got, 'payload')
        M.ghost('r.rem', sub(L.rem0, n), 'rest of the chunk')
        M.ghost('r.hdr', Rope(), 'no header')
        M.ghost('r.ended', 0, 'message goes on')
        M.ghost('r.failed', False, 'no read failed')

        def make():
            j = fresh('tail', Bytes)
            st.assume(blen(j) == I(sub(L.rem0, n)))
            return ArrRope(got + Rope((('s', j, 0, sub(L.rem0, n)),)))

        def check(o):
            r = ex.slice_rope(st, SliceV(L.dst.ref, L.dst.off, n, None))
            ok = ex.rope_eq(st, r, got)
            ex.ob(M.nm('bytes read are in place'), ok, '' if ok else '%r is not %r' % (r, got), st)
        M.obj(L.dst.ref, make, check)


def _cap(st, s):
    o = st.heap[s.ref]
    return o.rope.len() if isinstance(o, ArrRope) else len(o.f)


DSPECS = {1: DecSpec(1, 'encoding/encoding_v1', 'DecoderV1'), 2: DecSpec(2, 'encoding/encoding_v2', 'DecoderV2')}


class NewDecoder(Contract):
    """reads from the reader it was given, at nesting depth 0"""

    def __init__(self, spec):
        self.spec = spec

    def setups(self, ex, st, name):
        return [([IfaceV(dyn=('Reader', NatV('Reader')))], st)]

    def post(self, E):
        ex, P = E.ex, E.ex.P
        v = E.retv
        for f, x in zip(P.fields(v.t), v.f):
            if P.str(f['type']) == 'io.Reader':
                E.ob(x is E.args[0] or ex.value_eq(E.st, None, x, E.args[0]), 'reads from the reader given')
            elif P.intinfo(f['type']):
                E.fact(I(x) == 0, 'starts at depth 0')
