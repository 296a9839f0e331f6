"""Assumed contracts of package time: instants, locations, calendar.  Trusted base.

An instant is (seconds since 1970 UTC, nanosecond, location).  The calendar is kept abstract: day
numbers and (year, month, day) are related by month0 and its inverses, which is all the code needs."""
import datetime
import z3
from core import *
from values import *
from exec import model, MODELS, GLOBALS
from models import fork2, lib_error, fresh_str, global_error

zoff = F('zoneoffset', Obj, Int, Int)        # offset in effect at a second of UTC
gooff = F('offsetoflocal', Obj, Int, Int)    # offset time.Date applies to a local reading
fixedz = F('fixedzone', Int, Obj)
UTC = z3.Const('loc.utc', Obj)
LOCAL = z3.Const('loc.local', Obj)
month0 = F('month0', Int, Int, Int)          # day number of the first of a month
cyear, cmonth, cday = F('cyear', Int, Int), F('cmonth', Int, Int), F('cday', Int, Int)
zoneok = F('zoneok', Bytes, Bool)
zoneof = F('zoneof', Bytes, Obj)
TT = 'time.Time'
LIM = 1 << 61
BIL = 1000000000


def T(s, n, l):
    return NatV(TT, s=simp(s) if is_z(s) else s, n=simp(n) if is_z(n) else n, l=l)


def offset(st, l, s):
    if l.eq(UTC):
        return 0
    if z3.is_app(l) and l.decl().name() == 'fixedzone':
        return simp(l.arg(0))
    x = zoff(l, I(s))
    st.assume(x > -172800, x < 172800)
    return x


def local_offset(st, l, s):
    if l.eq(UTC):
        return 0
    if z3.is_app(l) and l.decl().name() == 'fixedzone':
        return simp(l.arg(0))
    x = gooff(l, I(s))
    st.assume(x > -172800, x < 172800)
    return x


def bounded(st, s):
    """seconds that did not leave the range of the library"""
    s = simp(s) if is_z(s) else s
    if valid(st, And(lt(-LIM, s), lt(s, LIM)), 3000):
        return s
    w = fresh('wrapped', Int)
    return simp(z3.If(z3.And(I(s) > -LIM, I(s) < LIM), I(s), w))


def locof(ex, st, p):
    if p.ref is None:
        return None
    v = ex.load(st, p)
    return v.d['t']


def locptr(ex, st, l):
    return PtrV(st.alloc(Cell(NatV('time.Location', t=l), None)))


def local(st, t):
    return add(t.s, offset(st, t.l, t.s))


def fdiv(a, b):
    return a // b if isinstance(a, int) else simp(I(a) / b)


def fmod(a, b):
    return a % b if isinstance(a, int) else simp(I(a) % b)


def ymd(st, day):
    if isinstance(day, int) and -700000 < day < 2900000:
        d = datetime.date(1970, 1, 1) + datetime.timedelta(days=day)
        return d.year, d.month, d.day
    day = I(day)
    y, m, d = cyear(day), cmonth(day), cday(day)
    st.assume(month0(y, m) + d - 1 == day, m >= 1, m <= 12, d >= 1, d <= 31)
    return y, m, d


def first(st, y, m):
    if isinstance(y, int) and isinstance(m, int) and 1 <= m <= 12 and 1 <= y <= 9999:
        return (datetime.date(y, m, 1) - datetime.date(1970, 1, 1)).days
    return month0(I(y), I(m))


def mkdate(ex, st, y, mo, d, h, mi, s, ns, l):
    days = add(first(st, y, mo), sub(d, 1))
    ls = add(add(mul(days, 86400), mul(h, 3600)), add(mul(mi, 60), s))
    ls = add(ls, fdiv(ns, BIL))
    ns = fmod(ns, BIL)
    ls = bounded(st, ls)
    return T(sub(ls, local_offset(st, l, ls)), ns, l)


for _n in ('Unix',):
    MODELS['(time.Time).Unix'] = lambda ex, st, a, ins: a[0].s


def tm(name):
    def d(f):
        MODELS['(time.Time).' + name] = f
        return f
    return d


@tm('Nanosecond')
def _(ex, st, a, ins):
    return a[0].n


@tm('UnixNano')
def _(ex, st, a, ins):
    return ex.fits(st, add(mul(a[0].s, BIL), a[0].n), ex.P.T('int64'))


@tm('UnixMilli')
def _(ex, st, a, ins):
    return ex.fits(st, add(mul(a[0].s, 1000), fdiv(a[0].n, 1000000)), ex.P.T('int64'))


@tm('Zone')
def _(ex, st, a, ins):
    return TupleV([fresh_str(st, 'zonename'), offset(st, a[0].l, a[0].s)])


@tm('UTC')
def _(ex, st, a, ins):
    return T(a[0].s, a[0].n, UTC)


@tm('Local')
def _(ex, st, a, ins):
    return T(a[0].s, a[0].n, LOCAL)


@tm('In')
def _(ex, st, a, ins):
    l = locof(ex, st, a[1])
    if l is None:
        return [(st, 'panic', 'time: missing Location in call to Time.In')]
    return T(a[0].s, a[0].n, l)


@tm('Location')
def _(ex, st, a, ins):
    return locptr(ex, st, a[0].l)


@tm('Add')
def _(ex, st, a, ins):
    t, d = a
    n = add(t.n, d)
    return T(bounded(st, add(t.s, fdiv(n, BIL))), fmod(n, BIL), t.l)


@tm('Sub')
def _(ex, st, a, ins):
    t, u = a
    d = add(mul(sub(t.s, u.s), BIL), sub(t.n, u.n))
    lo, hi = -(1 << 63), (1 << 63) - 1
    if isinstance(d, int):
        return max(lo, min(hi, d))
    return simp(z3.If(d < lo, lo, z3.If(d > hi, hi, d)))


def clock(st, t):
    sod = fmod(local(st, t), 86400)
    return fdiv(sod, 3600), fmod(fdiv(sod, 60), 60), fmod(sod, 60)


@tm('Clock')
def _(ex, st, a, ins):
    return TupleV(clock(st, a[0]))


for _i, _n in enumerate(('Hour', 'Minute', 'Second')):
    MODELS['(time.Time).' + _n] = (lambda i: lambda ex, st, a, ins: clock(st, a[0])[i])(_i)


@tm('Date')
def _(ex, st, a, ins):
    return TupleV(ymd(st, fdiv(local(st, a[0]), 86400)))


for _i, _n in enumerate(('Year', 'Month', 'Day')):
    MODELS['(time.Time).' + _n] = (lambda i: lambda ex, st, a, ins: ymd(st, fdiv(local(st, a[0]), 86400))[i])(_i)


@tm('AddDate')
def _(ex, st, a, ins):
    t, y, m, d = a
    if not (isinstance(y, int) and isinstance(m, int)):
        raise Unsupported('AddDate of symbolic years or months')
    y0, m0, d0 = ymd(st, fdiv(local(st, t), 86400))
    if m != 0 and not isinstance(m0, int):
        raise Unsupported('AddDate of months')
    h, mi, s = clock(st, t)
    mm = m0 + m - 1 if isinstance(m0, int) else None
    y1 = add(y0, y) if mm is None else add(add(y0, y), mm // 12)
    m1 = m0 if mm is None else mm % 12 + 1
    return mkdate(ex, st, y1, m1, add(d0, d), h, mi, s, t.n, t.l)


@tm('Equal')
def _(ex, st, a, ins):
    return simp(B(And(eq(a[0].s, a[1].s), eq(a[0].n, a[1].n))))


@tm('IsZero')
def _(ex, st, a, ins):
    return simp(B(And(eq(a[0].s, -62135596800), eq(a[0].n, 0))))


@tm('Before')
def _(ex, st, a, ins):
    return simp(B(Or(lt(a[0].s, a[1].s), And(eq(a[0].s, a[1].s), lt(a[0].n, a[1].n)))))


@tm('After')
def _(ex, st, a, ins):
    return simp(B(Or(lt(a[1].s, a[0].s), And(eq(a[0].s, a[1].s), lt(a[1].n, a[0].n)))))


@tm('Truncate')
def _(ex, st, a, ins):
    raise Unsupported('time.Time.Truncate')


@model('time.Unix')
def _(ex, st, a, ins):
    return T(bounded(st, add(a[0], fdiv(a[1], BIL))), fmod(a[1], BIL), LOCAL)


@model('time.Date')
def _(ex, st, a, ins):
    l = locof(ex, st, a[7])
    if l is None:
        return [(st, 'panic', 'time: missing Location in call to Date')]
    y, mo = a[0], a[1]
    return mkdate(ex, st, y, mo, a[2], a[3], a[4], a[5], a[6], l)


@model('time.FixedZone')
def _(ex, st, a, ins):
    return locptr(ex, st, fixedz(I(a[1])))


@model('time.LoadLocation')
def _(ex, st, a, ins):
    b = ex.bterm(st, a[0].rope)
    outs = []
    for s, ok in fork2(ex, st, zoneok(b)):
        if ok:
            outs.append((s, 'ret', TupleV([locptr(ex, s, zoneof(b)), NILI])))
        else:
            outs.append((s, 'ret', TupleV([PtrV(None), lib_error(ex, s)])))
    return outs


@model('time.Now')
def _(ex, st, a, ins):
    s, n = fresh('now', Int), fresh('nowns', Int)
    st.assume(s > 0, s < (1 << 40), n >= 0, n < BIL)
    m = st.ghost.get('nows', ())
    for (p, q) in m[-1:]:
        st.assume(z3.Or(s > p, z3.And(s == p, n >= q)))
    st.ghost['nows'] = m + ((s, n),)
    return T(s, n, LOCAL)


@model('(time.Duration).Nanoseconds')
def _(ex, st, a, ins):
    return a[0]


@model('(time.Duration).Milliseconds')
def _(ex, st, a, ins):
    return ex.quo(st, a[0], 1000000)


def durf(n):
    def f(ex, st, a, ins):
        return FloatV(ufn('dur' + n, Int, F64)(I(a[0])))
    return f


for _n in ('Hours', 'Minutes', 'Seconds'):
    MODELS['(time.Duration).' + _n] = durf(_n)


@model('(time.Duration).String')
def _(ex, st, a, ins):
    return fresh_str(st)


def _loc(l):
    def f(ex, st, et):
        return locptr(ex, st, l)
    return f


GLOBALS['time.UTC'] = _loc(UTC)
GLOBALS['time.Local'] = _loc(LOCAL)
