"""Assumed contracts of net/url, strconv, strings and crypto/tls as far as connection strings and dialling need them.

A URL is scheme, user info, host and query; what a query says is what Get returns for each key. Assumed of the library:
parsing what URL.String wrote gives that URL back or an error (escaping round-trips), Query of what Values.Encode wrote
gives those values, Atoi undoes Itoa, ParseDuration undoes Duration.String (which never is a plain number),
Hostname and Port undo JoinHostPort."""
import z3
from core import *
from values import *
from exec import model, invoke, MODELS, INVOKES, GLOBALS
from models import lib_error, fork2, fresh_str, mkslice

URLT = 'net/url.URL'
MAXI = (1 << 63) - 1
BILLION = 1000000000
BB = lambda n: ufn(n, Bytes, Bytes)
u_ok = ufn('url.ok', Bytes, Bool)
u_userkind = ufn('url.userkind', Bytes, Int)
qget = ufn('url.qget', Bytes, Bytes, Bytes)
atoiok = ufn('atoi.ok', Bytes, Bool)
atoi = ufn('atoi', Bytes, Int)
uintok = ufn('parseuint.ok', Bytes, Int, Int, Bool)
uintof = ufn('parseuint', Bytes, Int, Int, Int)
durok = ufn('parsedur.ok', Bytes, Bool)
durof = ufn('parsedur', Bytes, Int)


def blob(st, t):
    st.assume(blen(t) >= 0, blen(t) < (1 << 40))
    return StrV(rope_of(t))


def reg(ex):
    """what is known of strings the library built"""
    if not hasattr(ex, 'urlreg'):
        ex.urlreg = {}
    return ex.urlreg


def built(ex, st, what, nonempty=True):
    s = fresh_str(st, what[0])
    t = s.rope.atoms[0][1]
    reg(ex)[t.get_id()] = (t, what)
    if nonempty:
        st.assume(blen(t) >= 1)
    return s


def urlstr(ex, st, u):
    """what URL.String gives: the scheme, ://, and the rest"""
    if not valid(st, lt(0, u.scheme.rope.len())):
        raise Unsupported('URL without scheme written')
    rest = built(ex, st, ('urlrest', u))
    return StrV(u.scheme.rope + conc_rope(b'://') + rest.rope)


def whole(a):
    """the term an atom is all of"""
    if a[0] == 's' and same(simp(a[2]), 0) and same(simp(I(a[3])), simp(blen(a[1]))):
        return a[1]


def known(ex, a):
    t = whole(a)
    r = reg(ex).get(t.get_id()) if t is not None else None
    return r[1] if r else None


def urlkey(s):
    return ('urlbad', s.rope.atoms[-1][1].get_id())


def split_scheme(s):
    """(scheme rope, atoms after ://) when that can be read off"""
    for i, a in enumerate(s.rope.atoms):
        if a[0] == 'c' and b'://' in a[1]:
            j = a[1].index(b'://')
            return Rope(s.rope.atoms[:i] + (('c', a[1][:j]),)), Rope((('c', a[1][j + 3:]),) + s.rope.atoms[i + 1:]).atoms
    return None


def composed(ex, st, s):
    """URL put together from escaped user info, an address and a raw query, or None"""
    p = split_scheme(s)
    if p is None:
        return None
    scheme, rest = p
    if len(rest) == 1:
        k = known(ex, rest[0])
        if k and k[0] == 'urlrest':
            u = k[1]
            return U(ex, StrV(scheme), u.user, u.host, u.query, u.path)
    user = None
    rest = list(rest)
    if rest and known(ex, rest[0]) and known(ex, rest[0])[0] == 'userinfo':
        if len(rest) < 2 or rest[1][0] != 'c' or not rest[1][1].startswith(b'@'):
            return None
        user = known(ex, rest[0])[1]
        rest = list(Rope((('c', rest[1][1][1:]),) + tuple(rest[2:])).atoms)
    elif any(a[0] == 'c' and b'@' in a[1] for a in rest):
        return None
    host, query = [], None
    for i, a in enumerate(rest):
        k = known(ex, a)
        if k and k[0] in ('userinfo', 'urlrest', 'query'):
            return None
        if a[0] == 'c' and b'?' in a[1]:
            j = a[1].index(b'?')
            host.append(('c', a[1][:j]))
            query = Rope((('c', a[1][j + 1:]),) + tuple(rest[i + 1:]))
            break
        host.append(a)
    if any(a[0] == 'c' and any(c in a[1] for c in b'/#@') for a in host):
        return None
    path = StrV(query if query is not None else b'')
    if path.rope.conc() not in (None, b''):
        return None
    if path.rope.conc() is None and (len(path.rope.atoms) != 1 or whole(path.rope.atoms[0]) is None):
        return None
    if not host:
        return None
    return U(ex, StrV(scheme), user, StrV(Rope(host)), rawquery_of(ex, st, path), path)


def origin(ex, s):
    p = split_scheme(s)
    if p is not None and len(p[1]) == 1:
        k = known(ex, p[1][0])
        if k and k[0] == 'urlrest':
            u = k[1]
            return ('url', U(ex, StrV(p[0]), u.user, u.host, u.query, u.path))
    a = s.rope.atoms
    if len(a) == 1 and a[0][0] == 's' and same(simp(a[0][2]), 0) and same(simp(I(a[0][3])), simp(blen(a[0][1]))):
        r = reg(ex).get(a[0][1].get_id())
        if r:
            return r[1]
    return None


def conc(s):
    c = s.rope.conc()
    return None if c is None else c


# ---------------------------------------------------------------- numbers and words
@model('strconv.Itoa')
def _(ex, st, a, ins):
    return m_itoa(ex, st, a[0])


def m_itoa(ex, st, n):
    n = simp(n)
    if isinstance(n, int):
        return StrV(str(n).encode())
    t = ufn('itoa', Int, Bytes)(I(n))
    st.assume(blen(t) >= 1, blen(t) <= 20, atoiok(t), atoi(t) == I(n))
    for bits in (8, 16, 32, 64):
        st.assume(uintok(t, 10, bits) == z3.And(I(n) >= 0, I(n) < (1 << bits)), z3.Implies(I(n) >= 0, uintof(t, 10, bits) == I(n)))
    return blob(st, t)


@model('strconv.FormatInt', 'strconv.FormatUint')
def _(ex, st, a, ins):
    if simp(a[1]) != 10:
        raise Unsupported('FormatInt in base %s' % a[1])
    return m_itoa(ex, st, a[0])


@model('strconv.Atoi')
def _(ex, st, a, ins):
    c = conc(a[0])
    if c is not None:
        import re
        if re.fullmatch(rb'[+-]?[0-9]+', c) and -(1 << 63) <= int(c) <= MAXI:
            return TupleV([int(c), NILI])
        return TupleV([0, lib_error(ex, st, 'atoi')])
    t = ex.bterm(st, a[0].rope)
    st.assume(atoi(t) >= -(1 << 63), atoi(t) <= MAXI)
    # a number has digits
    st.assume(z3.Implies(atoiok(t), blen(t) >= 1))
    outs = []
    for s, ok in fork2(ex, st, atoiok(t)):
        if ok:
            outs.append((s, 'ret', TupleV([atoi(t), NILI])))
        else:
            v = fresh('atoi', Int)
            s.assume(v >= -(1 << 63), v <= MAXI)
            outs.append((s, 'ret', TupleV([v, lib_error(ex, s, 'atoi')])))
    return outs


@model('strconv.ParseUint')
def _(ex, st, a, ins):
    base, bits = simp(a[1]), simp(a[2])
    if not (isinstance(base, int) and isinstance(bits, int)):
        raise Unsupported('ParseUint')
    bits = bits or 64
    c = conc(a[0])
    if c is not None and base == 10:
        if c.isdigit() and int(c) < (1 << bits):
            return TupleV([int(c), NILI])
        return TupleV([0, lib_error(ex, st, 'parseuint')])
    t = ex.bterm(st, a[0].rope)
    x = uintof(t, base, bits)
    st.assume(x >= 0, x < (1 << bits), z3.Implies(uintok(t, base, bits), blen(t) >= 1))
    outs = []
    for s, ok in fork2(ex, st, uintok(t, base, bits)):
        if ok:
            outs.append((s, 'ret', TupleV([x, NILI])))
        else:
            v = fresh('parseuint', Int)
            s.assume(v >= 0, v < (1 << bits))
            outs.append((s, 'ret', TupleV([v, lib_error(ex, s, 'parseuint')])))
    return outs


@model('strconv.ParseInt')
def _(ex, st, a, ins):
    if simp(a[1]) == 10 and simp(a[2]) in (0, 64):
        return MODELS['strconv.Atoi'](ex, st, a, ins)
    raise Unsupported('ParseInt')


@model('strconv.FormatBool')
def _(ex, st, a, ins):
    return [(s, 'ret', StrV(b'true' if b else b'false')) for s, b in fork2(ex, st, B(a[0]))]


@model('strconv.ParseBool')
def _(ex, st, a, ins):
    c = conc(a[0])
    if c is not None:
        if c in (b'1', b't', b'T', b'TRUE', b'true', b'True'):
            return TupleV([True, NILI])
        if c in (b'0', b'f', b'F', b'FALSE', b'false', b'False'):
            return TupleV([False, NILI])
        return TupleV([False, lib_error(ex, st, 'parsebool')])
    t = ex.bterm(st, a[0].rope)
    outs = []
    for words, v in (((b'1', b't', b'T', b'TRUE', b'true', b'True'), True), ((b'0', b'f', b'F', b'FALSE', b'false', b'False'), False)):
        s = st.fork()
        s.assume(z3.Or([B(ex.str_eq(s, a[0].rope, StrV(w).rope)) for w in words]))
        outs.append((s, 'ret', TupleV([v, NILI])))
    s = st.fork()
    for w in (b'1', b't', b'T', b'TRUE', b'true', b'True', b'0', b'f', b'F', b'FALSE', b'false', b'False'):
        s.assume(Not(B(ex.str_eq(s, a[0].rope, StrV(w).rope))))
    outs.append((s, 'ret', TupleV([False, lib_error(ex, s, 'parsebool')])))
    return outs


@model('time.ParseDuration')
def _(ex, st, a, ins):
    t = ex.bterm(st, a[0].rope)
    x = durof(t)
    st.assume(x >= -(1 << 63), x <= MAXI)
    outs = []
    for s, ok in fork2(ex, st, durok(t)):
        if ok:
            outs.append((s, 'ret', TupleV([x, NILI])))
        else:
            outs.append((s, 'ret', TupleV([0, lib_error(ex, s, 'parsedur')])))
    return outs


@model('(time.Duration).String')
def _(ex, st, a, ins):
    t = ufn('durstr', Int, Bytes)(I(a[0]))
    st.assume(blen(t) >= 2, blen(t) < 40, durok(t), durof(t) == I(a[0]), Not(atoiok(t)))
    return blob(st, t)


def has_prefix(ex, st, s, p):
    """formula"""
    n = len(p)
    if s.rope.conc() is not None:
        return s.rope.conc().startswith(p)
    ln = s.rope.len()
    if isinstance(simp(ln), int) and simp(ln) < n:
        return False
    c = [le(n, ln)]
    if valid(st, le(n, ln)):
        return And(*[eq(ex.rope_at(st, s.rope, i), p[i]) for i in range(n)])
    # only looked at when it is long enough
    s2 = st.fork()
    s2.assume(le(n, ln))
    if not feasible(s2):
        return False
    k = len(s2.pc)
    bs = [ex.rope_at(s2, s.rope, i) for i in range(n)]
    for x in s2.pc[k:]:
        st.assume(z3.Implies(B(le(n, ln)), x))
    return And(le(n, ln), *[eq(b, p[i]) for i, b in enumerate(bs)])


@model('strings.HasPrefix')
def _(ex, st, a, ins):
    p = conc(a[1])
    if p is None:
        return fresh('hasprefix', Bool)
    return simp(B(has_prefix(ex, st, a[0], p)))


@model('strings.HasSuffix')
def _(ex, st, a, ins):
    return ufn('hassuffix', Bytes, Bytes, Bool)(ex.bterm(st, a[0].rope), ex.bterm(st, a[1].rope))


def find(s, sub):
    """where a constant is found first in a string whose beginning is known, or None"""
    a = s.rope.atoms
    if a and a[0][0] == 'c' and sub in a[0][1]:
        return a[0][1].index(sub)
    return None


@model('strings.Index')
def _(ex, st, a, ins):
    c = conc(a[1])
    if c is not None:
        i = find(a[0], c)
        if i is not None:
            return i
        if conc(a[0]) is not None:
            return -1
    r = fresh('index', Int)
    st.assume(r >= -1, r <= I(a[0].rope.len()), z3.Implies(r >= 0, r + I(a[1].rope.len()) <= I(a[0].rope.len())))
    return r


@model('strings.Replace')
def _(ex, st, a, ins):
    s, old, new, n = conc(a[0]), conc(a[1]), conc(a[2]), simp(a[3])
    if s is not None and old and new is not None and isinstance(n, int):
        return StrV(s.replace(old, new, n))
    if old and new is not None and isinstance(n, int) and n != 0 and len(a[0].rope.atoms) > 1 and a[0].rope.atoms[0][0] == 'c' and \
            a[0].rope.atoms[0][1].startswith(old) and old.endswith(b'://'):
        # an address does not contain ://
        at = a[0].rope.atoms
        return StrV(Rope((('c', new + at[0][1][len(old):]),) + at[1:]))
    t = ufn('replace:%r:%r:%r' % (old, new, n), Bytes, Bytes)(ex.bterm(st, a[0].rope))
    return blob(st, t)


@model('strings.ReplaceAll')
def _(ex, st, a, ins):
    return MODELS['strings.Replace'](ex, st, list(a) + [-1], ins)


@model('strings.TrimPrefix')
def _(ex, st, a, ins):
    c = conc(a[1])
    if c is None:
        raise Unsupported('TrimPrefix')
    outs = []
    for s, h in fork2(ex, st, has_prefix(ex, st, a[0], c)):
        outs.append((s, 'ret', StrV(ex.rope_sub(s, a[0].rope, len(c), sub(a[0].rope.len(), len(c)))) if h else a[0]))
    return outs


@model('strings.Contains')
def _(ex, st, a, ins):
    if conc(a[1]) is not None and find(a[0], conc(a[1])) is not None:
        return True
    if conc(a[0]) is not None and conc(a[1]) is not None:
        return conc(a[1]) in conc(a[0])
    return ufn('contains', Bytes, Bytes, Bool)(ex.bterm(st, a[0].rope), ex.bterm(st, a[1].rope))


@model('strings.EqualFold')
def _(ex, st, a, ins):
    lo = MODELS['strings.ToLower']
    return simp(B(ex.str_eq(st, lo(ex, st, [a[0]], None).rope, lo(ex, st, [a[1]], None).rope)))


def _strfn(name, *consts):
    def f(ex, st, a, ins):
        c = [conc(x) if isinstance(x, StrV) else None for x in a]
        if all(x is not None for x in c):
            r = consts[0](*c) if consts else None
            if r is not None:
                return StrV(r)
        t = BB(name + ':' + '/'.join(repr(x) for x in c[1:]))(ex.bterm(st, a[0].rope))
        st.assume(blen(t) <= blen(ex.bterm(st, a[0].rope)))
        return blob(st, t)
    MODELS['strings.' + name] = f


_strfn('Trim', lambda s, c: s.strip(c) if c else s)
_strfn('TrimLeft', lambda s, c: s.lstrip(c) if c else s)
_strfn('TrimRight', lambda s, c: s.rstrip(c) if c else s)
_strfn('TrimSpace', lambda s: s.strip())


# ---------------------------------------------------------------- url
class U:
    """an abstract URL"""

    def __init__(self, ex, scheme, user, host, query, path=None):
        self.ex, self.scheme, self.user, self.host, self.query, self.path = ex, scheme, user, host, query, path

    def get(self, st, key):
        return q_get(self.ex, st, self.query, key)


class Q:
    """the values of a query: those of a raw query, overlaid"""

    def __init__(self, base=None, over=()):
        self.base, self.over = base, dict(over)


def q_get(ex, st, q, key):
    if key in q.over:
        return q.over[key]
    if q.base is None:
        return StrV(b'')
    k = ex.bterm(st, StrV(key).rope)
    t = qget(q.base, k)
    st.assume(z3.Implies(blen(t) > 0, blen(q.base) > 0))
    return blob(st, t)


def rawquery_of(ex, st, s):
    """values of a raw query"""
    o = origin(ex, s)
    if o is not None and o[0] == 'query':
        return o[1]
    if s.rope.conc() == b'':
        return Q()
    if s.rope.conc() is not None:
        raise Unsupported('constant query')
    return Q(ex.bterm(st, s.rope))


def userinfo(ex, st, name, pw, isset):
    t = ex.P.T('net/url.Userinfo')
    return PtrV(st.alloc(Cell(NatV('Userinfo', name=name, pw=pw, isset=isset), t)))


def mkurl(ex, st, **kw):
    t = ex.P.T(URLT)
    fs = [kw.get(f['name'], ex.zero(st, f['type'])) for f in ex.P.fields(t)]
    return PtrV(st.alloc(Cell(StructV(t, fs), t)))


def ufield(ex, v, name):
    for f, x in zip(ex.P.fields(v.t), v.f):
        if f['name'] == name:
            return x
    raise Unsupported('url field ' + name)


def url_of(ex, st, p):
    """abstract URL of a *url.URL"""
    v = ex.load(st, p)
    u = ufield(ex, v, 'User')
    if u.ref is not None:
        u = ex.load(st, u)
    else:
        u = None
    return U(ex, ufield(ex, v, 'Scheme'), u, ufield(ex, v, 'Host'), rawquery_of(ex, st, ufield(ex, v, 'RawQuery')), ufield(ex, v, 'RawQuery'))


def parsed(ex, st, s):
    """[(state, abstract URL or None)]: what parsing a string gives"""
    o = origin(ex, s)
    if o is not None and o[0] == 'url':
        # an address that does not survive is an error; what is read back is what was written
        bad = st.fork()
        key = urlkey(s)
        h = origin(ex, o[1].host)
        if st.ghost.get(key) == 'ok' or h is None or h[0] != 'hostport':
            # an address that was read can be read again
            return [(st, o[1])]
        st.ghost[key] = 'ok'
        bad.ghost[key] = 'bad'
        if bad.ghost.get('url.fits'):
            return [(st, o[1])]
        return [(bad, None), (st, o[1])]
    u = composed(ex, st, s)
    if u is not None:
        return [(st, u)]
    t = ex.bterm(st, s.rope)
    outs = []
    for s2, ok in fork2(ex, st, u_ok(t)):
        if not ok:
            outs.append((s2, None))
            continue
        scheme = blob(s2, BB('url.scheme')(t))
        s2.assume(BB('tolower')(ex.bterm(s2, scheme.rope)) == ex.bterm(s2, scheme.rope))
        host = blob(s2, BB('url.host')(t))
        raw = blob(s2, BB('url.rawquery')(t))
        k = u_userkind(t)
        for s3, has in fork2(ex, s2, k != 0):
            u = None
            if has:
                pw = blob(s3, BB('url.password')(t))
                s3.assume(z3.Implies(k != 2, blen(pw.rope.atoms[0][1]) == 0))
                u = NatV('Userinfo', name=blob(s3, BB('url.user')(t)), pw=pw, isset=simp(k == 2))
            if not ex.ctx.get('schemes'):
                outs.append((s3, U(ex, scheme, u, host, rawquery_of(ex, s3, raw), raw)))
                continue
            q = rawquery_of(ex, s3, raw)
            for w in (b'bolt', b'bolt+routing', None):
                s4 = s3.fork()
                if w is None:
                    s4.assume(*[Not(B(ex.str_eq(s4, scheme.rope, StrV(x).rope))) for x in (b'bolt', b'bolt+routing')])
                else:
                    s4.assume(ex.str_eq(s4, scheme.rope, StrV(w).rope))
                if feasible(s4):
                    outs.append((s4, U(ex, StrV(w) if w else scheme, u, host, q, raw)))
    return outs


@model('net/url.Parse')
def _(ex, st, a, ins):
    outs = []
    for s, u in parsed(ex, st, a[0]):
        if u is None:
            outs.append((s, 'ret', TupleV([PtrV(None), lib_error(ex, s, 'urlerr')])))
            continue
        ui = PtrV(None)
        if u.user is not None:
            ui = userinfo(ex, s, u.user.d['name'], u.user.d['pw'], u.user.d['isset'])
        outs.append((s, 'ret', TupleV([mkurl(ex, s, Scheme=u.scheme, User=ui, Host=u.host, RawQuery=u.path), NILI])))
    return outs


@model('(*net/url.URL).String')
def _(ex, st, a, ins):
    v = ex.load(st, a[0])
    for f, x in zip(ex.P.fields(v.t), v.f):
        if f['name'] in ('Opaque', 'Path', 'RawPath', 'Fragment', 'RawFragment') and simp(x.rope.len()) != 0:
            raise Unsupported('URL with ' + f['name'])
    return urlstr(ex, st, url_of(ex, st, a[0]))


@model('(*net/url.URL).Query')
def _(ex, st, a, ins):
    q = rawquery_of(ex, st, ufield(ex, ex.load(st, a[0]), 'RawQuery'))
    return MapV(st.alloc(Cell(NatV('Values', q=Q(q.base, q.over)), ex.P.T('net/url.Values'))))


@model('(*net/url.URL).Hostname')
def _(ex, st, a, ins):
    h = ufield(ex, ex.load(st, a[0]), 'Host')
    o = origin(ex, h)
    if o and o[0] == 'hostport':
        return o[1]
    return blob(st, BB('url.hostname')(ex.bterm(st, h.rope)))


@model('(*net/url.URL).Port')
def _(ex, st, a, ins):
    h = ufield(ex, ex.load(st, a[0]), 'Host')
    o = origin(ex, h)
    if o and o[0] == 'hostport':
        return o[2]
    return blob(st, BB('url.port')(ex.bterm(st, h.rope)))


@model('net.JoinHostPort')
def _(ex, st, a, ins):
    return built(ex, st, ('hostport', a[0], a[1]))


def values(ex, st, m):
    if m.ref is None:
        return Q()
    o = st.heap[m.ref]
    if not isinstance(o, Cell) or not isinstance(o.v, NatV) or o.v.kind != 'Values':
        raise Unsupported('url.Values as a map')
    return o.v.d['q']


def setvalues(ex, st, m, q):
    st.heap[m.ref] = Cell(NatV('Values', q=q), st.heap[m.ref].t)


def keyof(s):
    c = conc(s)
    if c is None:
        raise Unsupported('query key that is not constant')
    return c.decode()


@model('(net/url.Values).Get')
def _(ex, st, a, ins):
    return q_get(ex, st, values(ex, st, a[0]), keyof(a[1]))


@model('(net/url.Values).Set')
def _(ex, st, a, ins):
    q = values(ex, st, a[0])
    setvalues(ex, st, a[0], Q(q.base, dict(q.over, **{keyof(a[1]): a[2]})))
    return None


@model('(net/url.Values).Add')
def _(ex, st, a, ins):
    # Get gives the first value
    q = values(ex, st, a[0])
    k = keyof(a[1])
    has = q_has(ex, st, q, k)
    outs = []
    for s, h in fork2(ex, st, has):
        if not h:
            setvalues(ex, s, a[0], Q(q.base, dict(q.over, **{k: a[2]})))
        outs.append((s, 'ret', None))
    return outs


def q_has(ex, st, q, k):
    if k in q.over:
        return True
    if q.base is None:
        return False
    h = ufn('url.qhas', Bytes, Bytes, Bool)(q.base, ex.bterm(st, StrV(k).rope))
    st.assume(z3.Implies(blen(q_get(ex, st, q, k).rope.atoms[0][1]) > 0, h))
    return h


@model('(net/url.Values).Has')
def _(ex, st, a, ins):
    return q_has(ex, st, values(ex, st, a[0]), keyof(a[1]))


@model('(net/url.Values).Del')
def _(ex, st, a, ins):
    q = values(ex, st, a[0])
    setvalues(ex, st, a[0], Q(q.base, dict(q.over, **{keyof(a[1]): StrV(b'')})))
    return None


@model('(net/url.Values).Encode')
def _(ex, st, a, ins):
    q = values(ex, st, a[0])
    if q.base is None and not q.over:
        return StrV(b'')
    return built(ex, st, ('query', Q(q.base, q.over)), nonempty=bool(q.over))


@model('net/url.UserPassword')
def _(ex, st, a, ins):
    return userinfo(ex, st, a[0], a[1], True)


@model('net/url.User')
def _(ex, st, a, ins):
    return userinfo(ex, st, a[0], StrV(b''), False)


@model('(*net/url.Userinfo).Username')
def _(ex, st, a, ins):
    return StrV(b'') if a[0].ref is None else ex.load(st, a[0]).d['name']


@model('(*net/url.Userinfo).Password')
def _(ex, st, a, ins):
    if a[0].ref is None:
        return TupleV([StrV(b''), False])
    u = ex.load(st, a[0])
    return TupleV([u.d['pw'], u.d['isset']])


@model('(*net/url.Userinfo).String')
def _(ex, st, a, ins):
    if a[0].ref is None:
        return StrV(b'')
    u = ex.load(st, a[0])
    s = built(ex, st, ('userinfo', u), nonempty=False)
    t = s.rope.atoms[0][1]
    st.assume((blen(t) == 0) == And(Not(B(u.d['isset'])), eq(u.d['name'].rope.len(), 0)))
    return s


@model('net/url.QueryEscape', 'net/url.PathEscape')
def _(ex, st, a, ins):
    return built(ex, st, ('escaped', a[0]), nonempty=False)


# ---------------------------------------------------------------- what a connection string says
def truthy(ex, st, s):
    """on, as the connection string has it"""
    if s.rope.conc() == b'':
        return False
    lo = MODELS['strings.ToLower'](ex, st, [s], None)
    return Or(has_prefix(ex, st, lo, b't'), ex.str_eq(st, s.rope, StrV(b'1').rope))


def config(ex, st, u):
    """dict of what a connection for this URL is to be like, and the formula under which the URL is refused"""
    c = {'hostPort': u.host}
    c['user'] = u.user.d['name'] if u.user is not None else StrV(b'')
    c['password'] = u.user.d['pw'] if u.user is not None else StrV(b'')
    bad = []
    if u.user is not None:
        bad.append(Not(B(u.user.d['isset'])))
    lo = MODELS['strings.ToLower'](ex, st, [u.scheme], None)
    bad.append(Not(Or(*[ex.str_eq(st, lo.rope, StrV(x).rope) for x in (b'bolt', b'bolt+routing')])))
    t = u.get(st, 'timeout')
    tt = ex.bterm(st, t.rope)
    none = eq(t.rope.len(), 0)
    bad.append(And(Not(none), Not(atoiok(tt)), Not(durok(tt))))
    c['timeout'] = simp(z3.If(B(none), z3.IntVal(60 * BILLION), z3.If(atoiok(tt), atoi(tt) * BILLION, durof(tt))))
    c['fits'] = Or(none, Not(atoiok(tt)), z3.And(atoi(tt) * BILLION <= MAXI, atoi(tt) * BILLION >= -MAXI - 1))
    k = u.get(st, 'chunk_size')
    kt = ex.bterm(st, k.rope)
    none = eq(k.rope.len(), 0)
    bad.append(And(Not(none), Or(Not(uintok(kt, 10, 16)), uintof(kt, 10, 16) == 0)))
    c['chunk'] = simp(z3.If(B(none), z3.IntVal(65535), uintof(kt, 10, 16)))
    c['tls'] = simp(B(truthy(ex, st, u.get(st, 'tls'))))
    c['cert'], c['key'], c['ca'] = u.get(st, 'tls_cert_file'), u.get(st, 'tls_key_file'), u.get(st, 'tls_ca_cert_file')
    c['noverify'] = simp(B(truthy(ex, st, u.get(st, 'tls_no_verify'))))
    return c, simp(B(Or(*bad)))


# ---------------------------------------------------------------- files and certificates
filedata = BB('file.contents')


@model('io/ioutil.ReadFile', 'os.ReadFile')
def _(ex, st, a, ins):
    bad = st.fork()
    bad.ghost['k.ev'] = bad.ghost.get('k.ev', frozenset()) | {'file'}
    bad.note('file cannot be read')
    t = filedata(ex.bterm(st, a[0].rope))
    s = blob(st, t)
    sl = SliceV(st.alloc(ArrRope(s.rope, True)), 0, blen(t), blen(t))
    return [(bad, 'ret', TupleV([SliceV(None, 0, 0, 0), lib_error(ex, bad, 'file')])), (st, 'ret', TupleV([sl, NILI]))]


@model('crypto/x509.NewCertPool')
def _(ex, st, a, ins):
    return PtrV(st.alloc(Cell(NatV('CertPool', system=False, pems=()), ex.P.T('crypto/x509.CertPool'))))


@model('crypto/x509.SystemCertPool')
def _(ex, st, a, ins):
    p = PtrV(st.alloc(Cell(NatV('CertPool', system=True, pems=()), ex.P.T('crypto/x509.CertPool'))))
    return TupleV([p, NILI])


@model('(*crypto/x509.CertPool).AppendCertsFromPEM')
def _(ex, st, a, ins):
    v = ex.load(st, a[0])
    t = ex.bterm(st, ex.slice_rope(st, a[1]))
    ex.store(st, a[0], v.with_(pems=v.d['pems'] + (t,)))
    ok = ufn('pem.ok', Bytes, Bool)(t)
    return ok


@model('crypto/tls.LoadX509KeyPair')
def _(ex, st, a, ins):
    t = ex.P.T('crypto/tls.Certificate')
    bad = st.fork()
    bad.ghost['k.ev'] = bad.ghost.get('k.ev', frozenset()) | {'file'}
    bad.note('certificate cannot be loaded')
    z = ex.zero(st, t)
    fs = [IfaceV(dyn=('keypair', NatV('keypair', cert=a[0], key=a[1]))) if f['name'] == 'PrivateKey' else x
          for f, x in zip(ex.P.fields(t), z.f)]
    return [(bad, 'ret', TupleV([ex.zero(bad, t), lib_error(ex, bad, 'keypair')])), (st, 'ret', TupleV([StructV(t, fs), NILI]))]
