"""Assumed contracts of the standard library functions the code under /repo calls.

Everything in this file is part of the trusted base."""
import re
import z3
from core import *
from values import *
from exec import model, invoke, MODELS, INVOKES, GLOBALS
from prove import new_err, err_is_nil

f64bits = F('f64bits', F64, Int)
f64of = F('f64of', Int, F64)
EOF_ = 'io.EOF'


def lib_error(ex, st, name='err'):
    """a fresh non-nil error of a type no package of the repository knows"""
    a = fresh(name, Any)
    st.assume(tag(a) == 999983)
    return IfaceV(term=a)


def global_error(ex, st, name):
    a = z3.Const('global:' + name, Any)
    st.assume(tag(a) == 999983, ufn('globid', Any, Int)(a) == ex.gid(name))
    return IfaceV(term=a)


def fresh_str(st, name='str'):
    t = fresh(name, Bytes)
    st.assume(blen(t) >= 0)
    return StrV(rope_of(t))


def fork2(ex, st, cond):
    """[(state, truth)] for the feasible truth values of cond"""
    cond = simp(cond)
    if cond is True or cond is False:
        return [(st, cond)]
    outs = []
    a, b = feasible(st, cond), feasible(st, Not(cond))
    if a and b:
        s2 = st.fork()
        s2.assume(Not(cond))
        st.assume(cond)
        return [(st, True), (s2, False)]
    if a:
        st.assume(cond)
        return [(st, True)]
    if b:
        st.assume(Not(cond))
        return [(st, False)]
    return []


# ---------------------------------------------------------------- bytes.Buffer
def getbuf(ex, st, p):
    if p.ref is None:
        return None
    v = ex.load(st, p)
    if not isinstance(v, NatV) or v.kind != 'Buf':
        raise Unsupported('not a buffer: %r' % (v,))
    return v


def setbuf(ex, st, p, rope):
    ex.store(st, p, ex.load(st, p).with_(rope=rope))


def mkslice(st, rope, frozen=False):
    n = rope.len()
    return SliceV(st.alloc(ArrRope(rope, frozen)), 0, n, n)


@model('(*bytes.Buffer).Write')
def _(ex, st, a, ins):
    b = getbuf(ex, st, a[0])
    r = ex.slice_rope(st, a[1])
    setbuf(ex, st, a[0], b.rope + r)
    return TupleV([a[1].len, NILI])


@model('(*bytes.Buffer).WriteString')
def _(ex, st, a, ins):
    b = getbuf(ex, st, a[0])
    setbuf(ex, st, a[0], b.rope + a[1].rope)
    return TupleV([a[1].rope.len(), NILI])


@model('(*bytes.Buffer).WriteByte')
def _(ex, st, a, ins):
    b = getbuf(ex, st, a[0])
    setbuf(ex, st, a[0], b.rope + Rope((('b', I(a[1])),)))
    return NILI


@model('(*bytes.Buffer).Len')
def _(ex, st, a, ins):
    n = getbuf(ex, st, a[0]).rope.len()
    if not isinstance(n, int):
        st.assume(I(n) < (1 << 60))
    return n


@model('(*bytes.Buffer).Reset')
def _(ex, st, a, ins):
    setbuf(ex, st, a[0], Rope())
    return None


@model('(*bytes.Buffer).Truncate')
def _(ex, st, a, ins):
    b = getbuf(ex, st, a[0])
    n = a[1]
    outs = []
    for s, ok in fork2(ex, st, And(le(0, n), le(n, b.rope.len()))):
        if ok:
            setbuf(ex, s, a[0], ex.rope_sub(s, b.rope, 0, n))
            outs.append((s, 'ret', None))
        else:
            outs.append((s, 'panic', 'bytes.Buffer: truncation out of range'))
    return outs


@model('(*bytes.Buffer).Grow')
def _(ex, st, a, ins):
    return None


@model('(*bytes.Buffer).Cap', '(*bytes.Buffer).Available')
def _(ex, st, a, ins):
    n = fresh('cap', Int)
    st.assume(n >= I(getbuf(ex, st, a[0]).rope.len()), n < (1 << 60))
    return n


@model('(*bytes.Buffer).Bytes')
def _(ex, st, a, ins):
    # a copy that must not be written to; stale after the next change of the buffer
    st.assume(I(getbuf(ex, st, a[0]).rope.len()) < (1 << 60))
    return mkslice(st, getbuf(ex, st, a[0]).rope, True)


@model('(*bytes.Buffer).String')
def _(ex, st, a, ins):
    if a[0].ref is None:
        return StrV('<nil>')
    return StrV(getbuf(ex, st, a[0]).rope)


@model('(*bytes.Buffer).Next')
def _(ex, st, a, ins):
    b = getbuf(ex, st, a[0])
    n = a[1]
    outs = []
    for s, ok in fork2(ex, st, le(n, b.rope.len())):
        m = n if ok else b.rope.len()
        if not valid(s, le(0, m)):
            raise Unsupported('Next with a negative count')
        sp = ex.rope_split(s, b.rope, m)
        if sp is None:
            raise Unsupported('Next(%s) of %r' % (m, b.rope))
        setbuf(ex, s, a[0], sp[1])
        outs.append((s, 'ret', mkslice(s, sp[0], True)))
    return outs


@model('(*bytes.Buffer).ReadByte')
def _(ex, st, a, ins):
    b = getbuf(ex, st, a[0])
    outs = []
    for s, ok in fork2(ex, st, lt(0, b.rope.len())):
        if ok:
            x = ex.rope_at(s, b.rope, 0)
            sp = ex.rope_split(s, b.rope, 1)
            setbuf(ex, s, a[0], sp[1])
            outs.append((s, 'ret', TupleV([x, NILI])))
        else:
            outs.append((s, 'ret', TupleV([0, global_error(ex, s, EOF_)])))
    return outs


@model('(*bytes.Buffer).UnreadByte')
def _(ex, st, a, ins):
    raise Unsupported('UnreadByte')


@model('(*bytes.Buffer).Read')
def _(ex, st, a, ins):
    b = getbuf(ex, st, a[0])
    outs = []
    for s, empty in fork2(ex, st, eq(b.rope.len(), 0)):
        if empty:
            outs.append((s, 'ret', TupleV([0, global_error(ex, s, EOF_)])))
            continue
        for s2, ok in fork2(ex, s, le(a[1].len, b.rope.len())):
            n = a[1].len if ok else b.rope.len()
            sp = ex.rope_split(s2, b.rope, n)
            setbuf(ex, s2, a[0], sp[1])
            ex.writebytes(s2, a[1], 0, sp[0])
            outs.append((s2, 'ret', TupleV([n, NILI])))
    return outs


@model('bytes.NewBuffer')
def _(ex, st, a, ins):
    r = ex.slice_rope(st, a[0])
    return PtrV(st.alloc(Cell(NatV('Buf', rope=r), ex.P.elem(ins['t']))))


@model('bytes.NewBufferString')
def _(ex, st, a, ins):
    return PtrV(st.alloc(Cell(NatV('Buf', rope=a[0].rope), ex.P.elem(ins['t']))))


@model('bytes.NewReader')
def _(ex, st, a, ins):
    r = ex.slice_rope(st, a[0])
    return PtrV(st.alloc(Cell(NatV('Buf', rope=r), ex.P.elem(ins['t']))))


for _m in ('Len', 'ReadByte', 'Read'):
    MODELS['(*bytes.Reader).' + _m] = MODELS['(*bytes.Buffer).' + _m]
for _m in ('WriteString', 'WriteByte', 'Write', 'String', 'Len', 'Reset', 'Grow'):
    MODELS['(*strings.Builder).' + _m] = MODELS['(*bytes.Buffer).' + _m]


@model('bytes.Equal')
def _(ex, st, a, ins):
    return simp(B(ex.str_eq(st, ex.slice_rope(st, a[0]), ex.slice_rope(st, a[1]))))


# ---------------------------------------------------------------- encoding/binary
def _order(ex, o):
    if o.dyn is None:
        raise Unsupported('byte order')
    s = ex.P.str(o.dyn[0])
    if s == 'encoding/binary.bigEndian':
        return 'big'
    if s == 'encoding/binary.littleEndian':
        return 'little'
    raise Unsupported('byte order ' + s)


def int_rope(x, n, order='big'):
    if order == 'big':
        return Rope((('be', I(x), n),))
    return Rope([('b', simp((I(x) / (1 << (8 * i))) % 256)) for i in range(n)])


def rope_int(ex, st, rope, n, order='big'):
    """unsigned value of the n bytes of a rope"""
    if order == 'big' and len(rope.atoms) == 1 and rope.atoms[0][0] == 'be' and rope.atoms[0][2] == n:
        x = rope.atoms[0][1]
        if isinstance(x, int):
            return x % (1 << (8 * n))
        if valid(st, z3.And(x >= 0, x < (1 << (8 * n))), 2000):
            return x
        return simp(x % (1 << (8 * n)))
    bs = [ex.rope_at(st, rope, i) for i in range(n)]
    if order == 'little':
        bs.reverse()
    r = 0
    for x in bs:
        r = add(mul(r, 256), x)
    return r


def signed(x, n):
    if isinstance(x, int):
        return x - (1 << (8 * n)) if x >> (8 * n - 1) else x
    return simp(z3.If(x >= (1 << (8 * n - 1)), x - (1 << (8 * n)), x))


def value_rope(ex, st, t, v, order):
    P = ex.P
    inf = P.intinfo(t)
    b = P.basic(t)
    if inf and b not in ('int', 'uint', 'uintptr'):
        return int_rope(v, inf[1] // 8, order)
    if b == 'bool':
        return Rope((('b', z3.If(B(v), 1, 0)),))
    if b == 'float64':
        x = f64bits(v.t)
        st.assume(x >= 0, x < (1 << 64), f64of(x) == v.t)
        return int_rope(x, 8, order)
    if b == 'float32':
        x = ufn('f32bits', F64, Int)(v.t)
        st.assume(x >= 0, x < (1 << 32))
        return int_rope(x, 4, order)
    if P.kind(t) == 'slice' and P.basic(P.elem(t)) in ('uint8', 'byte'):
        return ex.slice_rope(st, v)
    return None


@model('encoding/binary.Write')
def _(ex, st, a, ins):
    w, o, d = a
    order = _order(ex, o)
    if d.dyn is None:
        raise Unsupported('binary.Write of an unknown value')
    t, v = d.dyn
    if ex.P.kind(t) == 'ptr':
        t, v = ex.P.elem(t), ex.load(st, v)
    r = value_rope(ex, st, t, v, order)
    if r is None:
        return lib_error(ex, st)
    outs = []
    for s, k, x in write_to(ex, st, w, r):
        outs.append((s, k, x.f[1] if k == 'ret' else x))
    return outs


def write_to(ex, st, w, rope):
    n = rope.len()
    if isinstance(n, int) and n <= 16 and all(a[0] in 'cb' for a in rope.atoms):
        bs = [ex.rope_at(st, rope, i) for i in range(n)]
        sl = SliceV(st.alloc(ArrList(ex.P.T('uint8'), bs)), 0, n, n)
    else:
        sl = mkslice(st, rope)
    return ex.doinvoke(ex.fr, st, 'Write', w, ex.P.T('io.Writer'), [sl], None)


@model('encoding/binary.Read')
def _(ex, st, a, ins):
    rd, o, d = a
    order = _order(ex, o)
    if d.dyn is None or ex.P.kind(d.dyn[0]) != 'ptr':
        raise Unsupported('binary.Read target')
    t = ex.P.elem(d.dyn[0])
    p = d.dyn[1]
    b = ex.P.basic(t)
    inf = ex.P.intinfo(t)
    if inf and b not in ('int', 'uint', 'uintptr'):
        n = inf[1] // 8
    elif b == 'float64':
        n = 8
    else:
        raise Unsupported('binary.Read into ' + ex.P.str(t))
    outs = []
    for s, rope, err in read_full(ex, st, rd, n):
        if rope is None:
            outs.append((s, 'ret', err))
            continue
        x = rope_int(ex, s, rope, n, order)
        if inf:
            if inf[0]:
                x = signed(x, n)
            ex.store(s, p, x)
        else:
            f = f64of(I(x))
            ex.store(s, p, FloatV(f))
        outs.append((s, 'ret', NILI))
    return outs


def read_full(ex, st, rd, n):
    """[(state, rope or None, err)]: n bytes of a reader"""
    if isinstance(rd, IfaceV) and rd.dyn is not None and not isinstance(rd.dyn[0], str) and \
            ex.P.str(rd.dyn[0]) in ('*bytes.Buffer', '*bytes.Reader'):
        p = rd.dyn[1]
        b = getbuf(ex, st, p)
        outs = []
        for s, ok in fork2(ex, st, le(n, b.rope.len())):
            if ok:
                sp = ex.rope_split(s, b.rope, n)
                if sp is None:
                    raise Unsupported('read of %s bytes from %r' % (n, b.rope))
                setbuf(ex, s, p, sp[1])
                outs.append((s, sp[0], NILI))
            else:
                for s2, em in fork2(ex, s, eq(b.rope.len(), 0)):
                    setbuf(ex, s2, p, Rope())
                    outs.append((s2, None, global_error(ex, s2, EOF_ if em else 'io.ErrUnexpectedEOF')))
        return outs
    h = INVOKES.get(('ReadFull', rd.dyn[0] if isinstance(rd, IfaceV) and rd.dyn else getattr(rd, 'kind', None)))
    if h is not None:
        return h(ex, st, rd, n)
    raise Unsupported('read from %r' % (rd,))


@model('io.ReadFull')
def _(ex, st, a, ins):
    rd, buf = a
    outs = []
    for s, rope, err in read_full(ex, st, rd, buf.len):
        if rope is None:
            n = fresh('numread', Int)
            s.assume(n >= 0, n < I(buf.len))
            outs.append((s, 'ret', TupleV([n, err])))
            if not (isinstance(buf.len, int) and buf.len <= 16):
                continue
            # the bytes read so far are in the buffer, whatever they are
            o = s.heap[buf.ref]
            if isinstance(o, ArrList) and isinstance(buf.off, int):
                f = list(o.f)
                for i in range(buf.len):
                    x = fresh('partial', Int)
                    s.assume(x >= 0, x <= 255)
                    f[buf.off + i] = x
                s.heap[buf.ref] = ArrList(o.et, f)
        else:
            ex.writebytes(s, buf, 0, rope)
            outs.append((s, 'ret', TupleV([buf.len, NILI])))
    return outs


@model('io.ReadAtLeast')
def _(ex, st, a, ins):
    if same(simp(a[2]), simp(a[1].len)):
        return MODELS['io.ReadFull'](ex, st, a[:2], ins)
    raise Unsupported('io.ReadAtLeast')


@model('encoding/binary.Size')
def _(ex, st, a, ins):
    raise Unsupported('binary.Size')


def _uint(order, n):
    def f(ex, st, a, ins):
        sl = a[1]
        outs = []
        for s, ok in fork2(ex, st, le(n, sl.len)):
            if not ok:
                outs.append((s, 'panic', 'index out of range in binary.Uint%d' % (8 * n)))
            else:
                outs.append((s, 'ret', rope_int(ex, s, ex.rope_sub(s, ex.slice_rope(s, sl), 0, n), n, order)))
        return outs
    return f


def _putuint(order, n):
    def f(ex, st, a, ins):
        sl, x = a[1], a[2]
        outs = []
        for s, ok in fork2(ex, st, le(n, sl.len)):
            if not ok:
                outs.append((s, 'panic', 'index out of range in binary.PutUint%d' % (8 * n)))
            else:
                ex.writebytes(s, sl, 0, int_rope(x, n, order))
                outs.append((s, 'ret', None))
        return outs
    return f


def _appuint(order, n):
    def f(ex, st, a, ins):
        r = ex.slice_rope(st, a[1]) + int_rope(a[2], n, order)
        return mkslice(st, r)
    return f


for _o in ('big', 'little'):
    for _n in (2, 4, 8):
        MODELS['(encoding/binary.%sEndian).Uint%d' % (_o, 8 * _n)] = _uint(_o, _n)
        MODELS['(encoding/binary.%sEndian).PutUint%d' % (_o, 8 * _n)] = _putuint(_o, _n)
        MODELS['(encoding/binary.%sEndian).AppendUint%d' % (_o, 8 * _n)] = _appuint(_o, _n)

GLOBALS['encoding/binary.BigEndian'] = lambda ex, st, et: ex.zero(st, et)
GLOBALS['encoding/binary.LittleEndian'] = lambda ex, st, et: ex.zero(st, et)


@model('math.Float64bits')
def _(ex, st, a, ins):
    x = f64bits(a[0].t)
    st.assume(x >= 0, x < (1 << 64), f64of(x) == a[0].t)
    return x


@model('math.Float64frombits')
def _(ex, st, a, ins):
    return FloatV(f64of(I(a[0])))


# ---------------------------------------------------------------- reflect
rkind = F('rkind', Int, Int)           # reflect.Kind of a type tag
rlen = F('rlen', Any, Int)
relem = ufn('relem', Any, AnyArr)      # elements of a slice as interface values
KIND = {'bool': 1, 'int': 2, 'int8': 3, 'int16': 4, 'int32': 5, 'int64': 6, 'uint': 7, 'uint8': 8, 'uint16': 9,
        'uint32': 10, 'uint64': 11, 'uintptr': 12, 'float32': 13, 'float64': 14, 'array': 17, 'chan': 18, 'func': 19,
        'iface': 20, 'map': 21, 'ptr': 22, 'slice': 23, 'string': 24, 'struct': 25}


def kind_of(ex, st, a):
    """reflect.Kind of the dynamic type of interface term a"""
    if a.get_id() in TERM_BOX:
        t = TERM_BOX[a.get_id()][1]
        return KIND[ex.P.basic(t) or ex.P.kind(t)]
    k = rkind(tag(a))
    st.assume(k >= 0, k <= 26)
    return k


def rv_any(ex, st, v):
    return ex.aterm(st, v)


@model('reflect.TypeOf')
def _(ex, st, a, ins):
    v = a[0]
    if v.isnil:
        return NILI
    t = ex.aterm(st, v)
    outs = []
    for s, nil in fork2(ex, st, tag(t) == 0):
        outs.append((s, 'ret', NILI if nil else NatV('reflect.Type', a=t)))
    return outs


@invoke(('reflect.Type', 'Kind'))
def _(ex, st, r, a, ins):
    return kind_of(ex, st, r.a)


@invoke(('reflect.Type', 'String'), ('reflect.Type', 'Name'))
def _(ex, st, r, a, ins):
    return fresh_str(st)


@model('reflect.ValueOf')
def _(ex, st, a, ins):
    return NatV('reflect.Value', a=ex.aterm(st, a[0]))


@model('(reflect.Value).Kind')
def _(ex, st, a, ins):
    return kind_of(ex, st, a[0].a)


@model('(reflect.Value).Type')
def _(ex, st, a, ins):
    return NatV('reflect.Type', a=a[0].a)


@model('(reflect.Value).Len')
def _(ex, st, a, ins):
    v = a[0].a
    k = kind_of(ex, st, v)
    if not valid(st, Or(eq(k, 23), eq(k, 17))):
        raise Unsupported('reflect.Value.Len of something that may not be a slice')
    n = rlen(v)
    st.assume(n >= 0, n < (1 << 48))
    return n


@model('(reflect.Value).Index')
def _(ex, st, a, ins):
    v = a[0].a
    outs = []
    for s, ok in fork2(ex, st, And(le(0, a[1]), lt(a[1], rlen(v)))):
        if ok:
            outs.append((s, 'ret', NatV('reflect.Value', a=z3.Select(relem(v), I(a[1])))))
        else:
            outs.append((s, 'panic', 'reflect: slice index out of range'))
    return outs


def rv_scalar(names):
    def f(ex, st, a, ins):
        v = a[0].a
        outs = []
        rest = st.fork()
        for nm in names:
            t = ex.P.T(nm) if ex.P.has(nm) else None
            if t is None:
                continue
            c = tag(v) == ex.P.tagid(t)
            if not feasible(st, c):
                continue
            s = st.fork()
            s.assume(c)
            rest.assume(Not(c))
            outs.append((s, 'ret', ex.unbox(s, t, v)))
        if feasible(rest, True):
            raise Unsupported('reflection on a value of unknown type')
        return outs
    return f


model('(reflect.Value).Int')(rv_scalar(['int', 'int8', 'int16', 'int32', 'int64']))
model('(reflect.Value).Uint')(rv_scalar(['uint', 'uint8', 'uint16', 'uint32', 'uint64']))
model('(reflect.Value).Float')(rv_scalar(['float32', 'float64']))
model('(reflect.Value).Bool')(rv_scalar(['bool']))
model('(reflect.Value).String')(rv_scalar(['string']))


@model('(reflect.Value).Interface')
def _(ex, st, a, ins):
    st.assume(tag(a[0].a) >= 0)
    return IfaceV(term=a[0].a)


# ---------------------------------------------------------------- fmt, errors, log
def fmt_parts(ex, st, fmt, args):
    """rope of a Sprintf with a constant format and simple verbs, else None"""
    f = fmt.rope.conc()
    if f is None:
        return None
    try:
        f = f.decode()
    except UnicodeDecodeError:
        return None
    atoms = []
    i = 0
    ai = 0
    while i < len(f):
        if f[i] != '%':
            j = f.find('%', i)
            j = len(f) if j < 0 else j
            atoms.append(('c', f[i:j].encode()))
            i = j
            continue
        if i + 1 >= len(f):
            return None
        v = f[i + 1]
        if v == '%':
            atoms.append(('c', b'%'))
            i += 2
            continue
        if v not in 'svdqTtx+':
            return None
        if v == '+':
            if i + 2 < len(f) and f[i + 2] in 'vd':
                v = '+' + f[i + 2]
                i += 1
            else:
                return None
        i += 2
        if ai >= len(args):
            return None
        x = args[ai]
        ai += 1
        r = fmt_arg(ex, st, v, x)
        if r is None:
            return None
        atoms += list(r.atoms)
    if ai != len(args):
        return None
    return Rope(atoms)


itoa = F('itoa', Int, Bytes)
ftext = {}


def opaque_text(ex, st, v, x):
    t = ufn('fmt%%%s' % v, Any, Bytes)(ex.aterm(st, x))
    st.assume(blen(t) >= 0)
    return rope_of(t)


def fmt_arg(ex, st, v, x):
    P = ex.P
    if x.dyn is not None and not isinstance(x.dyn[0], str):
        t, val = x.dyn
        b = P.basic(t)
        if v in ('s', 'v', '+v') and isinstance(val, StrV) and P.method(t, 'Error') is None and P.method(t, 'String') is None:
            return val.rope
        if v in ('s',) and isinstance(val, SliceV) and P.basic(P.elem(t)) in ('uint8', 'byte'):
            return ex.slice_rope(st, val)
        if v in ('d', 'v', '+v') and P.intinfo(t) and P.method(t, 'Error') is None and P.method(t, 'String') is None:
            if isinstance(val, int):
                return conc_rope(str(val).encode())
            import urlmodel
            return urlmodel.m_itoa(ex, st, val).rope
        if v in ('s', 'v', '+v') and P.has('time.Duration') and t == P.T('time.Duration'):
            return MODELS['(time.Duration).String'](ex, st, [val], None).rope
        if v == 't' and isinstance(val, bool):
            return conc_rope(b'true' if val else b'false')
        if v in ('v', '+v') and b == 'bool':
            if isinstance(val, bool):
                return conc_rope(b'true' if val else b'false')
    if v == 'T':
        t = fresh('typename', Bytes)
        st.assume(blen(t) >= 0)
        return rope_of(t)
    if v in ('s', 'v', '+v') and x.isnil:
        return conc_rope(b'%!s(<nil>)' if v == 's' else b'<nil>')
    try:
        return opaque_text(ex, st, v, x)
    except Unsupported:
        t = fresh('text', Bytes)
        st.assume(blen(t) >= 0)
        return rope_of(t)


def varargs(ex, st, s):
    if s.ref is None:
        return []
    if not isinstance(s.len, int):
        return None
    return ex.elems(st, s, ex.P.T('interface{}'))


def sprintf(ex, st, fmt, sl):
    args = varargs(ex, st, sl)
    r = fmt_parts(ex, st, fmt, args) if args is not None else None
    if r is None:
        return fresh_str(st, 'sprintf')
    return StrV(r)


@model('fmt.Sprintf')
def _(ex, st, a, ins):
    return sprintf(ex, st, a[0], a[1])


@model('fmt.Sprint')
def _(ex, st, a, ins):
    # one operand is printed as %v prints it; several are spaced apart by rules left open here
    args = varargs(ex, st, a[0])
    if args is None or len(args) != 1:
        return fresh_str(st, 'sprint')
    return StrV(fmt_arg(ex, st, 'v', args[0]))


@model('fmt.Sprintln')
def _(ex, st, a, ins):
    return fresh_str(st, 'sprint')


@model('fmt.Errorf')
def _(ex, st, a, ins):
    sprintf(ex, st, a[0], a[1])
    f = a[0].rope.conc()
    args = varargs(ex, st, a[1])
    if f is not None and b'%w' in f and args:
        # which arguments %w names
        i = n = 0
        inner = []
        f = f.replace(b'%%', b'')
        verbs = re.findall(rb'%[-+# 0-9.]*([a-zA-Z])', f)
        for v, x in zip(verbs, args):
            if v == b'w':
                inner.append(x)
        if len(inner) == 1 and not inner[0].isnil:
            return IfaceV(dyn=('errorf', NatV('errorf', inner=inner[0])))
    return lib_error(ex, st, 'errorf')


@invoke(('errorf', 'Error'))
def _(ex, st, r, a, ins):
    return fresh_str(st, 'errtext')


@invoke(('errorf', 'Unwrap'))
def _(ex, st, r, a, ins):
    return r.d['inner']


@model('fmt.Println', 'fmt.Printf', 'fmt.Print')
def _(ex, st, a, ins):
    st.ghost['printed'] = st.ghost.get('printed', 0) + 1
    return TupleV([0, NILI])


@model('errors.New')
def _(ex, st, a, ins):
    e = lib_error(ex, st, 'errnew')
    return e


@model('errors.Is')
def _(ex, st, a, ins):
    x, y = a
    if x.isnil:
        return y.isnil
    c = ufn('errorsIs', Any, Any, Bool)(ex.aterm(st, x), ex.aterm(st, y))
    st.assume(Imp(ex.ifaceeq(st, x, y), c))
    return c


@model('runtime/debug.Stack')
def _(ex, st, a, ins):
    return mkslice(st, rope_of(fresh_pos(st)))


def fresh_pos(st):
    t = fresh('stack', Bytes)
    st.assume(blen(t) > 0)
    return t


ERRT = 'github.com/mindstand/go-bolt/errors.Error'


def bolt_error(ex, st, wrapped=None):
    """*errors.Error as errors.New and errors.Wrap make it (their bodies are verified under C21)"""
    t = ex.P.T(ERRT)
    fs = []
    for f in ex.P.fields(t):
        if ex.P.str(f['type']) == 'error' and wrapped is not None:
            fs.append(wrapped)
        elif ex.P.basic(f['type']) == 'string':
            fs.append(fresh_str(st, 'msg'))
        else:
            fs.append(ex.zero(st, f['type']))
    return PtrV(st.alloc(Cell(StructV(t, fs), t)))


def m_errnew(ex, st, a, ins):
    return bolt_error(ex, st)


def m_errwrap(ex, st, a, ins):
    return bolt_error(ex, st, a[0])


MODELS['github.com/mindstand/go-bolt/errors.New'] = m_errnew
MODELS['github.com/mindstand/go-bolt/errors.Wrap'] = m_errwrap


def boltlog(ex, st, a, ins):
    # changes nothing: proved of the log package in unit logging
    if a and isinstance(a[0], PtrV) and a[0].ref is None:
        return [(st, 'panic', 'logging the bytes of no buffer')]
    return None


for _n in ('Trace', 'Tracef', 'Info', 'Infof', 'Error', 'Errorf', 'TraceBytes', 'TraceBytesFromBuf', 'SetLevel'):
    MODELS['github.com/mindstand/go-bolt/log.' + _n] = boltlog


# ---------------------------------------------------------------- strings, strconv, math
@model('strings.ToLower')
def _(ex, st, a, ins):
    c = a[0].rope.conc()
    if c is not None:
        return StrV(c.decode().lower().encode())
    x = ex.bterm(st, a[0].rope)
    t = ufn('tolower', Bytes, Bytes)(x)
    st.assume(blen(t) >= 0, (blen(t) == 0) == (blen(x) == 0))
    return StrV(rope_of(t))


@model('math.Floor', 'math.Ceil', 'math.Round', 'math.Trunc')
def _(ex, st, a, ins):
    return FloatV(ufn('f64round', F64, F64)(a[0].t))


@model('math.Modf')
def _(ex, st, a, ins):
    return TupleV([FloatV(ufn('f64int', F64, F64)(a[0].t)), FloatV(ufn('f64frac', F64, F64)(a[0].t))])
