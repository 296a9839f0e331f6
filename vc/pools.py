"""Connection pools: the factory and facade of the plain pool, the drivers, and what connections are opened with.

Abstract connections: a connection is known by a number; calls on it are recorded in the ghost state. Closing one always
releases its socket, ValidateOpen may only succeed on a connection that is not closed, MakeIdle without an error leaves
no transaction open; these are the contracts the methods of the four connection types are verified against (C12, C13)."""
import z3
from core import *
from values import *
from exec import model, invoke, MODELS, INVOKES, NATIVE_IS
from prove import short, err_is_nil
from models import lib_error, fork2, fresh_str
import models
import conn
import client
import urlmodel
from conn import BOLT, TE
from urlmodel import parsed, config
from client import ROOT, TCL, get, idx, matches
from dial import CREATE

IC = BOLT + 'connection.IConnection'
POOL = 'github.com/jolestar/go-commons-pool.'
ROUTING = BOLT + 'routing.'
NATIVE_IS[('bconn', IC)] = True
for _t in ('io.Closer', 'fmt.Stringer', 'error'):
    NATIVE_IS[('bconn', _t)] = _t == 'io.Closer'


def bconn(n):
    return IfaceV(dyn=('bconn', NatV('bconn', id=n)))


def isconn(v):
    return isinstance(v, IfaceV) and v.dyn is not None and v.dyn[0] == 'bconn'


def cid(v):
    return v.dyn[1].d['id']


def errclosed(ex, st):
    """the variable errors.ErrClosed as an error"""
    T = conn.PTR(ex, '*' + TE)
    want = ex.load(st, ex.globaladdr(st, BOLT + 'errors.ErrClosed', T))
    return IfaceV(dyn=(ex.P.T('*' + TE), want))


def cg(st, n, k, d=None):
    return st.ghost.get(('bc', n, k), d)


def cs(st, n, **kw):
    for k, v in kw.items():
        st.ghost[('bc', n, k)] = v


def newconn(ex, st, n, **kw):
    """a connection nobody has closed"""
    cs(st, n, closed=False, clean=fresh('clean', Bool), alive=fresh('alive', Bool), ok=None)
    cs(st, n, **kw)
    return bconn(n)


@invoke(('bconn', 'Close'))
def _(ex, st, r, a, ins):
    n = r.d['id']
    was = cg(st, n, 'closed')
    outs = []
    for s, c in fork2(ex, st, B(was)):
        cs(s, n, closed=True, ok=False, clean=False)
        s.note('connection %s closed' % n)
        if c:
            outs.append((s, 'ret', errclosed(ex, s)))
            continue
        if not ex.ctx.get('stable'):
            bad = s.fork()
            bad.note('closing reports an error')
            outs.append((bad, 'ret', lib_error(ex, bad, 'closeerr')))
        outs.append((s, 'ret', NILI))
    return outs


@invoke(('bconn', 'ValidateOpen'))
def _(ex, st, r, a, ins):
    n = r.d['id']
    can = And(Not(B(cg(st, n, 'closed'))), B(cg(st, n, 'alive')))
    outs = []
    for s, ok in fork2(ex, st, can):
        if ok:
            if not ex.ctx.get('stable'):
                dead = s.fork()
                dead.note('connection %s turns out dead' % n)
                cs(dead, n, alive=False, ok=False)
                outs.append((dead, 'ret', False))
            cs(s, n, ok=True)
            outs.append((s, 'ret', True))
        else:
            s.note('connection %s is dead' % n)
            cs(s, n, ok=False)
            outs.append((s, 'ret', False))
    return outs


@invoke(('bconn', 'MakeIdle'))
def _(ex, st, r, a, ins):
    n = r.d['id']
    bad = st.fork()
    bad.note('rolling back fails')
    cs(bad, n, clean=False)
    outs = [(bad, 'ret', lib_error(ex, bad, 'idleerr'))]
    st.assume(Not(B(cg(st, n, 'closed'))))
    if feasible(st):
        cs(st, n, clean=True)
        outs.append((st, 'ret', NILI))
    return outs


@invoke(('bconn', 'SetConnectionId'))
def _(ex, st, r, a, ins):
    cs(st, r.d['id'], name=a[0])
    return None


@invoke(('bconn', 'GetConnectionId'))
def _(ex, st, r, a, ins):
    n = cg(st, r.d['id'], 'name')
    return n if n is not None else StrV(b'')


class Create:
    """CreateBoltConn: what it is asked for is recorded; a connection, or an error"""
    external = False

    def __init__(self, outcomes=('ok', 'fail')):
        self.outcomes = outcomes

    def call(self, ex, st, args, name):
        g = st.ghost
        n = g.get('created', 0)
        st.ghost['opened'] = g.get('opened', ()) + (args[0],)
        h = ex.ctx.get('onopen')
        if h:
            h(ex, st, args[0])
        outs = []
        if 'fail' in self.outcomes:
            bad = st.fork()
            bad.note('no connection can be opened')
            bad.ghost['openfailed'] = True
            outs.append((bad, 'ret', TupleV([NILI, lib_error(ex, bad, 'openerr')])))
        if 'ok' in self.outcomes:
            st.ghost['created'] = n + 1
            k = 100 + n
            st.note('connection %d opened' % k)
            outs.append((st, 'ret', TupleV([newconn(ex, st, k, alive=True, clean=True, fresh=True), NILI])))
        return outs


# ---------------------------------------------------------------- go-commons-pool
@model('context.Background', 'context.TODO')
def _(ex, st, a, ins):
    return IfaceV(term=ctxterm(st))


def ctxterm(st):
    t = z3.Const('context.background', Any)
    st.assume(tag(t) > 0)
    return t


@model(POOL + 'NewPooledObject')
def _(ex, st, a, ins):
    return pooled(ex, st, a[0])


def pooled(ex, st, obj):
    t = ex.P.T(POOL + 'PooledObject')
    v = ex.zero(st, t)
    for i, f in enumerate(ex.P.fields(t)):
        if f['name'] == 'Object':
            v = v.with_(i, obj)
    return PtrV(st.alloc(Cell(v, t)))


def objof(ex, st, p):
    v = ex.load(st, p)
    for i, f in enumerate(ex.P.fields(v.t)):
        if f['name'] == 'Object':
            return v.f[i]


@model(POOL + 'NewObjectPool')
def _(ex, st, a, ins):
    t = ex.P.T(POOL + 'ObjectPool')
    ref = st.alloc(Cell(NatV('ObjectPool'), t))
    g = st.ghost
    ex.ob('%s: one pool of connections is made {C19}' % short(ex.top), 'op.pool' not in g, 'another one', st)
    g['op.pool'] = ref
    g['op.factory'], g['op.config'] = a[1], a[2]
    g['op.closed'] = False
    g['op.lent'] = ()
    return PtrV(ref)


def cfgof(ex, st):
    c = st.ghost['op.config']
    if c.ref is None:
        raise Unsupported('pool without configuration')
    v = ex.load(st, c)
    return {f['name']: x for f, x in zip(ex.P.fields(v.t), v.f)}


def factory(ex, fr, st, m, *args):
    """a callback of the pool"""
    f = st.ghost['op.factory']
    ctx = IfaceV(term=ctxterm(st))
    return ex.doinvoke(fr, st, m, f, ex.P.T(POOL + 'PooledObjectFactory'), [ctx] + list(args), None)


def thepool(ex, st, p):
    if p.ref is None:
        return [(st, 'panic', 'nil pool')]
    if p.ref != st.ghost.get('op.pool'):
        raise Unsupported('a pool nobody made')
    return None


def destroy(ex, fr, st, p):
    """[(state, kind, what)]"""
    outs = []
    o = objof(ex, st, p)
    for s, k, r in factory(ex, fr, st, 'DestroyObject', p):
        if k == 'ret':
            s.ghost['op.lent'] = tuple(x for x in s.ghost['op.lent'] if x != p.ref)
            if isconn(o):
                ex.ob('%s: a connection the pool discards releases its socket {C19}' % short(ex.top), valid(s, B(cg(s, cid(o), 'closed'))), 'it stays open', s)
                cs(s, cid(o), where='destroyed')
            else:
                raise Unsupported('destroys something that is no connection')
        outs.append((s, k, r))
    return outs


@model('(*' + POOL + 'ObjectPool).BorrowObject')
def _(ex, st, a, ins):
    bad = thepool(ex, st, a[0])
    if bad:
        return bad
    fr = ex.fr
    g = st.ghost
    outs = []
    g['op.borrows'] = g.get('op.borrows', 0) + 1
    if g['op.closed']:
        return [(st, 'ret', TupleV([NILI, lib_error(ex, st, 'poolclosed')]))]
    cfg = cfgof(ex, st)
    if 'idle0' in ex.ctx.get('scenario', ()):
        # one idle connection, whatever has become of it; every further one is like it
        s = st.fork()
        n = 50 + g['op.borrows']
        c = newconn(ex, s, n, clean=True, where='idle')
        p = pooled(ex, s, c)
        outs += allocate(ex, fr, s, p, cfg, False)
    s = st.fork()
    s.note('the pool is at its limit and is closed while waiting')
    s.ghost['op.waited'] = True
    outs.append((s, 'ret', TupleV([NILI, lib_error(ex, s, 'exhausted')])))
    outs += create(ex, fr, st, cfg)
    return outs


def create(ex, fr, st, cfg):
    outs = []
    for s, k, r in factory(ex, fr, st, 'MakeObject'):
        if k != 'ret':
            outs.append((s, k, r))
            continue
        p, e = r.f
        for s2, ok in fork2(ex, s, B(err_is_nil(ex, s, e))):
            if not ok:
                s2.ghost['op.why'] = 'make'
                outs.append((s2, 'ret', TupleV([NILI, e])))
                continue
            ex.ob('%s: making a connection gives one {C19}' % short(ex.top), p.ref is not None and isconn(objof(ex, s2, p)), 'none', s2)
            if p.ref is None or not isconn(objof(ex, s2, p)):
                continue
            outs += allocate(ex, fr, s2, p, cfg, True)
    return outs


def allocate(ex, fr, st, p, cfg, new):
    outs = []

    def discard(s, why):
        for s2, k, r in destroy(ex, fr, s, p):
            if k != 'ret':
                outs.append((s2, k, r))
            elif new:
                s2.ghost['op.why'] = why
                outs.append((s2, 'ret', TupleV([NILI, lib_error(ex, s2, why)])))
            else:
                s2.note('the pool goes on to another one')
                s2.ghost['op.replaced'] = True
                outs.extend(create(ex, fr, s2, cfg))
    st.ghost['op.lent'] += (p.ref,)
    for s, k, e in factory(ex, fr, st, 'ActivateObject', p):
        if k != 'ret':
            outs.append((s, k, e))
            continue
        for s2, ok in fork2(ex, s, B(err_is_nil(ex, s, e))):
            if not ok:
                discard(s2, 'activate')
                continue
            for s3, test in fork2(ex, s2, Or(B(cfg['TestOnBorrow']), And(new, B(cfg['TestOnCreate'])))):
                if not test:
                    outs.append((s3, 'ret', TupleV([objof(ex, s3, p), NILI])))
                    continue
                for s4, k4, v in factory(ex, fr, s3, 'ValidateObject', p):
                    if k4 != 'ret':
                        outs.append((s4, k4, v))
                        continue
                    for s5, live in fork2(ex, s4, B(v)):
                        if live:
                            outs.append((s5, 'ret', TupleV([objof(ex, s5, p), NILI])))
                        else:
                            discard(s5, 'validate')
    return outs


def lent_as(ex, st, obj):
    """the pooled object of a connection that is lent, or None"""
    if not isconn(obj):
        return None
    for r in st.ghost['op.lent']:
        o = objof(ex, st, PtrV(r))
        if isconn(o) and cid(o) == cid(obj):
            return PtrV(r)
    return None


@model('(*' + POOL + 'ObjectPool).ReturnObject')
def _(ex, st, a, ins):
    bad = thepool(ex, st, a[0])
    if bad:
        return bad
    fr = ex.fr
    obj = a[2]
    st.ghost['op.returned'] = st.ghost.get('op.returned', ()) + (obj,)
    p = lent_as(ex, st, obj)
    if p is None:
        st.ghost['op.unknown'] = True
        return [(st, 'ret', lib_error(ex, st, 'unknown'))]
    cfg = cfgof(ex, st)
    outs = []

    def discard(s):
        for s2, k, r in destroy(ex, fr, s, p):
            outs.append((s2, k, NILI if k == 'ret' else r))

    def passivate(s):
        for s2, k, e in factory(ex, fr, s, 'PassivateObject', p):
            if k != 'ret':
                outs.append((s2, k, e))
                continue
            for s3, ok in fork2(ex, s2, B(err_is_nil(ex, s2, e))):
                if not ok:
                    discard(s3)
                    continue
                for s4, full in fork2(ex, s3, Or(s3.ghost['op.closed'], fresh('full', Bool))):
                    if full:
                        discard(s4)
                    else:
                        cs(s4, cid(obj), where='idle')
                        s4.ghost['op.lent'] = tuple(x for x in s4.ghost['op.lent'] if x != p.ref)
                        outs.append((s4, 'ret', NILI))
    for s, test in fork2(ex, st, B(cfg['TestOnReturn'])):
        if not test:
            passivate(s)
            continue
        for s2, k, v in factory(ex, fr, s, 'ValidateObject', p):
            if k != 'ret':
                outs.append((s2, k, v))
                continue
            for s3, live in fork2(ex, s2, B(v)):
                if live:
                    passivate(s3)
                else:
                    discard(s3)
    return outs


@model('(*' + POOL + 'ObjectPool).InvalidateObject')
def _(ex, st, a, ins):
    bad = thepool(ex, st, a[0])
    if bad:
        return bad
    fr = ex.fr
    p = lent_as(ex, st, a[2])
    if p is None:
        return [(st, 'ret', lib_error(ex, st, 'unknown'))]
    return [(s, k, NILI if k == 'ret' else r) for s, k, r in destroy(ex, fr, st, p)]


@model('(*' + POOL + 'ObjectPool).Close')
def _(ex, st, a, ins):
    bad = thepool(ex, st, a[0])
    if bad:
        return bad
    st.ghost['op.closed'] = True
    return None


@model('(*' + POOL + 'ObjectPool).IsClosed')
def _(ex, st, a, ins):
    bad = thepool(ex, st, a[0])
    if bad:
        return bad
    return st.ghost['op.closed']


# ---------------------------------------------------------------- drivers
def a_client(ex, st, routing):
    """a client NewClient could have returned: [(state, pointer, URL of its connection string)]"""
    outs = []
    ex.ctx['schemes'] = True
    s = fresh_str(st, 'connstr')
    for s2, u in parsed(ex, st, s):
        if u is None or not feasible(s2):
            continue
        want = b'bolt+routing' if routing else b'bolt'
        if not isinstance(u.scheme, StrV) or u.scheme.rope.conc() != want:
            continue
        if u.user is not None:
            s2.assume(B(u.user.d['isset']))
        v = client.symclient(ex, s2)
        f = list(v.f)
        f[idx(ex, 'connStr')] = urlmodel.urlstr(ex, s2, u)
        f[idx(ex, 'routing')] = routing
        v = StructV(v.t, f)
        outs.append((s2, PtrV(s2.alloc(Cell(v, ex.P.T(TCL)))), u))
    if not outs:
        raise Unsupported('no client')
    return outs


def cfg_of(ex, st, u, **kw):
    """the configuration a client's connection string denotes"""
    k, bad = config(ex, st, u)
    c = dict(k)
    c.update({'how': 'url', 'addr': u.host, 'noauth': u.user is None, 'bad': bad})
    if u.user is not None:
        c['user'], c['password'] = u.user.d['name'], u.user.d['pw']
    c.update(kw)
    return c


def opens(ex, st, arg, cfg, what):
    """the connection string arg asks for configuration cfg"""
    top = short(ex.top)
    nm = lambda w: '%s: %s: %s%s' % (top, what, w, '' if '{' in w else ' {C15}')
    for s, u in parsed(ex, st.fork(), arg):
        if not feasible(s):
            continue
        ex.ob(nm('the connection string can be read'), u is not None or any(isinstance(k, tuple) and k[0] == 'urlbad' and v == 'bad' for k, v in s.ghost.items()),
              repr(arg), s)
        if u is None:
            continue
        k, bad = matches(ex, s, u, cfg, nm, b'bolt')
        ex.ob(nm('nothing in order becomes malformed'), not feasible(s, And(bad, Not(cfg['bad']))), 'it can', s)
        ex.ob(nm('the chunk size is the one given'), valid(s, Or(bad, eq(k['chunk'], cfg['chunk']))), '%s instead of %s' % (k['chunk'], cfg['chunk']), s)


def steps(ex, st, name, args):
    fr = ex.fr
    outs = []
    for s, k, r in ex.run(st, name, args):
        if k != 'ret':
            ex.ob('%s: no panic: %s {C15,C19}' % (short(name), r), not feasible(s), 'panic is reachable', s)
            continue
        outs.append((s, r))
    ex.fr = fr
    return outs


def invoked(ex, st, m, recv, it, args):
    outs = []
    for s, k, r in ex.doinvoke(None, st, m, recv, it, args, None):
        if k != 'ret':
            ex.ob('%s: no panic in %s: %s {C15,C19}' % (short(ex.top), m, r), not feasible(s), 'panic is reachable', s)
            continue
        outs.append((s, r))
    return outs


MODE = BOLT + 'bolt_mode.AccessMode'


def a_mode(ex, st):
    m = fresh('mode', Int)
    st.assume(m >= -(1 << 63), m < (1 << 63))
    return m


def run_drivers(ex):
    """what NewDriver and NewDriverPool give opens connections as configured"""
    ND, NP = '(*%sClient).NewDriver' % ROOT, '(*%sClient).NewDriverPool' % ROOT
    ex.contracts[CREATE] = Create()
    reached = set()
    # a plain driver
    for routing in (False, True):
        ex.top = ND
        st = State()
        for s, c, u in a_client(ex, st, routing):
            cfg = cfg_of(ex, s, u)
            s.ghost.update({'opened': ()})
            for s2, r in steps(ex, s, ND, [c]):
                d, e = r.f
                if routing:
                    ex.prove(s2, Not(err_is_nil(ex, s2, e)), '%s: routing is not for plain drivers {C15}' % short(ND))
                    continue
                for s3, ok in fork2(ex, s2, B(err_is_nil(ex, s2, e))):
                    ex.ob('%s: a driver without routing is made {C15}' % short(ND), ok and not d.isnil, repr(r), s3)
                    if not ok or d.isnil:
                        continue
                    ex.ob('%s: making a driver opens nothing {C15}' % short(ND), s3.ghost['opened'] == (), 'it does', s3)
                    for s4, r4 in invoked(ex, s3, 'Open', d, ex.P.T(ROOT + 'IDriver'), [a_mode(ex, s3)]):
                        o = s4.ghost['opened']
                        ex.ob('%s: opening opens one connection {C15}' % short(ND), len(o) == 1, '%d' % len(o), s4)
                        if len(o) != 1:
                            continue
                        opens(ex, s4, o[0], cfg, 'a connection of the driver')
                        v, e4 = r4.f
                        if s4.ghost.get('openfailed'):
                            ex.prove(s4, Not(err_is_nil(ex, s4, e4)), '%s: a failure to open is reported {C15}' % short(ND))
                        else:
                            reached.add('driver')
                            ex.ob('%s: the connection opened is returned {C15}' % short(ND), isconn(v) and cid(v) == 100 and valid(s4, B(err_is_nil(ex, s4, e4))), repr(r4), s4)
    # a pool
    ex.top = NP
    st = State()
    for s, c, u in a_client(ex, st, False):
        cfg = cfg_of(ex, s, u)
        s.ghost.update({'opened': ()})
        n = fresh('size', Int)
        s.assume(n >= -(1 << 63), n < (1 << 63))
        for s2, r in steps(ex, s, NP, [c, n]):
            d, e = r.f
            for s3, ok in fork2(ex, s2, B(err_is_nil(ex, s2, e))):
                ex.ob('%s: a pool is made {C15,C19}' % short(NP), ok and not d.isnil, repr(r), s3)
                if not ok or d.isnil:
                    continue
                for s4, r4 in invoked(ex, s3, 'Open', d, ex.P.T(ROOT + 'IDriverPool'), [a_mode(ex, s3)]):
                    for o in s4.ghost['opened']:
                        opens(ex, s4, o, cfg, 'a connection of the pool')
                    if s4.ghost['opened'] and isconn(r4.f[0]):
                        reached.add('pool')
    ex.ob('a driver can open a connection {C15}', 'driver' in reached, 'never')
    ex.ob('a pool can open a connection {C15}', 'pool' in reached, 'never')


# ---------------------------------------------------------------- routing: the strings connections are opened with
@invoke(('bconn', 'GetProtocolVersionNumber'))
def _(ex, st, r, a, ins):
    v = st.ghost.get('rt.version')
    if v is None:
        raise Unsupported('protocol version of an abstract connection')
    return v


def overview(ex, st, addrs, v):
    """rows of the cluster overview: a leader, a follower and a read replica"""
    P = ex.P
    ET = P.T('[]interface{}')
    anyt = P.elem(ET)
    S = P.T('string')

    def sl(xs):
        return SliceV(st.alloc(ArrList(anyt, list(xs))), 0, len(xs), len(xs))
    box = lambda t, x: IfaceV(dyn=(t, x))
    rows = []
    for i, (role, a) in enumerate(zip((b'LEADER', b'FOLLOWER', b'READ_REPLICA'), addrs)):
        nid = box(S, fresh_str(st, 'nodeid'))
        al = box(ET, sl([box(S, StrV(conc_rope(b'bolt://') + a.rope))]))
        if v == 4:
            MT = P.T('map[string]interface{}')
            m = MapV(st.alloc(MapObj(MT, [(StrV(b'system'), box(S, StrV(role)))])))
            rows.append([nid, al, box(MT, m), box(ET, sl([]))])
        else:
            rows.append([nid, al, box(S, StrV(role)), box(ET, sl([])), box(S, StrV(b'default'))])
    rows = [sl(r) for r in rows]
    return SliceV(st.alloc(ArrList(ET, rows)), 0, len(rows), len(rows))


def _query(name, ex, st, r, a, ins):
    h = ex.ctx.get('overview')
    if not h:
        raise Unsupported('query on an abstract connection')
    bad = st.fork()
    bad.note('the overview query fails')
    bad.ghost['rt.queryfailed'] = True
    outs = [(bad, 'ret', TupleV([SliceV(None, 0, 0, 0), NILI, lib_error(ex, bad, 'queryerr')]))]
    outs.append((st, 'ret', TupleV([h(ex, st, a, name), NILI, NILI])))
    return outs


for _m in ('Query', 'QueryWithDb'):
    INVOKES[('bconn', _m)] = lambda *a, _m=_m: _query(_m, *a)


@model('math/rand.NewSource')
def _(ex, st, a, ins):
    t = fresh('source', Any)
    st.assume(tag(t) > 0)
    return IfaceV(term=t)


@model('math/rand.New')
def _(ex, st, a, ins):
    return PtrV(st.alloc(Cell(NatV('Rand'), ex.P.T('math/rand.Rand'))))


@model('math/rand.Seed')
def _(ex, st, a, ins):
    return None


@model('(*math/rand.Rand).Intn', 'math/rand.Intn')
def _(ex, st, a, ins):
    n = a[-1]
    r = fresh('rand', Int)
    st.assume(r >= 0, r < I(n))
    return r


@model('sync/atomic.LoadInt32', 'sync/atomic.LoadInt64', 'sync/atomic.LoadUint32')
def _(ex, st, a, ins):
    return ex.load(st, a[0])


@model('sync/atomic.StoreInt32', 'sync/atomic.StoreInt64', 'sync/atomic.StoreUint32')
def _(ex, st, a, ins):
    ex.store(st, a[0], a[1])
    return None


@model('sync/atomic.CompareAndSwapInt32')
def _(ex, st, a, ins):
    outs = []
    for s, same_ in fork2(ex, st, eq(ex.load(st, a[0]), a[1])):
        if same_:
            ex.store(s, a[0], a[2])
        outs.append((s, 'ret', same_))
    return outs


def run_routing_strings(ex):
    """a routing pool asks the leader string for the table and opens every connection as configured, at its server"""
    NP = '(*%sClient).NewDriverPool' % ROOT
    ex.top = NP
    reached = {}
    for v in (4, 3):
        st0 = State()
        for st, c, u in a_client(ex, st0, True):
            addrs = [fresh_str(st, 'addr%d' % i) for i in range(3)]
            for a in addrs:
                st.assume(lt(0, a.rope.len()))
            for i in range(3):
                for j in range(i):
                    st.assume(Not(B(ex.str_eq(st, addrs[i].rope, addrs[j].rope))))
            cfg = cfg_of(ex, st, u)
            st.ghost.update({'opened': (), 'rt.version': v})
            ex.ctx['join'] = True
            ex.ctx['overview'] = lambda ex, s, a, name: overview(ex, s, addrs, v)
            ex.ctx['stable'] = True

            def onopen(ex, s, arg):
                n = len(s.ghost['opened']) - 1
                if n == 0:
                    opens(ex, s, arg, cfg, 'the connection the table is read with')
                    reached['table'] = True
                    return
                # at one of the servers, with everything else as configured
                hit = None
                for i, a in enumerate(addrs):
                    p = urlmodel.composed(ex, s, arg)
                    if p is not None and ex.value_eq(s, None, p.host, a):
                        hit = i
                ex.ob('%s: connections go to servers of the table {C15}' % short(NP), hit is not None, repr(arg)[:300], s)
                if hit is None:
                    return
                reached[hit] = True
                opens(ex, s, arg, dict(cfg, addr=addrs[hit]), 'a connection to a server of the table')
            ex.ctx['onopen'] = onopen
            ex.contracts[CREATE] = Create(('ok',))
            for s2, r in steps(ex, st, NP, [c, 4]):
                d, e = r.f
                if s2.ghost.get('rt.queryfailed'):
                    ex.prove(s2, Not(err_is_nil(ex, s2, e)), '%s: no table, no pool {C15}' % short(NP))
                    continue
                ex.ob('%s: a routing pool is made {C15}' % short(NP), not d.isnil and valid(s2, B(err_is_nil(ex, s2, e))), repr(r), s2)
    for w in ('table', 0, 1, 2):
        ex.ob('%s: connections are opened to every kind of server {C15}' % short(NP), reached.get(w), 'not to %s' % w)


# ---------------------------------------------------------------- the plain pool
DP = ROOT + 'driverPool'


def unlocked(ex, st):
    """no lock is left taken"""
    for r, o in st.heap.items():
        if isinstance(o, Cell) and isinstance(o.v, (StructV, NatV)):
            for x in o.v.f if isinstance(o.v, StructV) else (o.v,):
                if isinstance(x, NatV) and x.kind == 'Mutex' and not (same(x.d['w'], 0) and same(x.d['r'], 0)):
                    return False
    return True


def run_pool(ex):
    NP = '(*%sClient).NewDriverPool' % ROOT
    IT = ROOT + 'IDriverPool'
    ex.contracts[CREATE] = Create()
    reached = set()
    for stable in (False, True):
        ex.top = NP
        ex.ctx['stable'] = stable
        ex.ctx['scenario'] = ('idle0',)
        st = State()
        v = client.symclient(ex, st)
        f = list(v.f)
        f[idx(ex, 'connStr')] = fresh_str(st, 'connstr')
        f[idx(ex, 'routing')] = False
        c = PtrV(st.alloc(Cell(StructV(v.t, f), ex.P.T(TCL))))
        st.ghost.update({'opened': ()})
        n = fresh('size', Int)
        st.assume(n >= -(1 << 63), n < (1 << 63))
        nm = lambda w: 'plain pool: %s {C19}' % w
        for s, r in steps(ex, st, NP, [c, n]):
            d, e = r.f
            ok = not d.isnil and valid(s, B(err_is_nil(ex, s, e)))
            ex.ob(nm('a pool is made'), ok, repr(r), s)
            if not ok:
                continue
            ex.ob(nm('making a pool makes the pool of connections'), 'op.pool' in s.ghost, 'none', s)
            ex.prove(s, eq(cfgof(ex, s)['MaxTotal'], n), nm('no more connections than asked for'))
            one_life(ex, s, d, IT, nm, stable, reached)
    for w in ('lent new', 'lent idle', 'refused', 'replaced', 'idle again', 'destroyed', 'closed'):
        ex.ob('plain pool: reached: %s {C19}' % w, w in reached, 'never')


def one_life(ex, st, d, IT, nm, stable, reached):
    T = ex.P.T(IT)
    nilconn = NILI
    for s, r in invoked(ex, st.fork(), 'Reclaim', d, T, [nilconn]):
        ex.prove(s, Not(err_is_nil(ex, s, r)), nm('reclaiming nil is an error'))
    # a connection the pool does not know
    s = st.fork()
    alien = newconn(ex, s, 7)
    for s2, r in invoked(ex, s, 'Reclaim', d, T, [alien]):
        ex.prove(s2, Not(err_is_nil(ex, s2, r)), nm('reclaiming what was not lent is an error'))
    for s, r in invoked(ex, st.fork(), 'Open', d, T, [a_mode(ex, st)]):
        v, e = r.f
        ex.ob(nm('opening leaves the pool unlocked'), unlocked(ex, s), 'locked', s)
        for s2, ok in fork2(ex, s, B(err_is_nil(ex, s, e))):
            g = s2.ghost
            if not ok:
                reached.add('refused')
                ex.ob(nm('a failed opening loses no slot'), g['op.lent'] == (), 'a connection stays borrowed', s2)
                ex.ob(nm('a failed opening lends nothing'), v.isnil, repr(v), s2)
                if stable:
                    ex.ob(nm('dead connections are replaced, not reported'), bool(g.get('openfailed') or g.get('op.waited') or g['op.closed']),
                          'opening fails though connections can be opened', s2)
                continue
            ex.ob(nm('a connection is lent'), isconn(v), repr(v), s2)
            if not isconn(v):
                continue
            k = cid(v)
            p = lent_as(ex, s2, v)
            ex.ob(nm('what is lent is borrowed from the pool, and nothing else is'), p is not None and len(g['op.lent']) == 1, '%s' % (g['op.lent'],), s2)
            good = cg(s2, k, 'ok') is True or cg(s2, k, 'ok') is None and cg(s2, k, 'fresh')
            ex.ob(nm('only open connections are lent'), bool(good), 'last seen: %s' % cg(s2, k, 'ok'), s2)
            ex.prove(s2, B(cg(s2, k, 'clean')), nm('no connection with a transaction is lent'))
            reached.add('lent new' if k >= 100 else 'lent idle')
            if g.get('op.replaced'):
                reached.add('replaced')
            if p is None:
                continue
            cs(s2, k, where='lent')
            reclaim(ex, s2, d, T, v, nm, reached, False)
            for s3, r3 in invoked(ex, s2.fork(), 'Close', d, T, []):
                reclaim(ex, s3, d, T, v, nm, reached, True)
    # closing
    for s, r in invoked(ex, st.fork(), 'Close', d, T, []):
        ex.prove(s, B(err_is_nil(ex, s, r)), nm('closing an open pool succeeds'))
        ex.ob(nm('closing closes the pool of connections'), s.ghost['op.closed'] is True, 'it stays open', s)
        ex.ob(nm('closing leaves the pool unlocked'), unlocked(ex, s), 'locked', s)
        reached.add('closed')
        for s2, r2 in invoked(ex, s.fork(), 'Close', d, T, []):
            ex.prove(s2, Not(err_is_nil(ex, s2, r2)), nm('closing a closed pool is an error'))
            ex.ob(nm('closing again leaves the pool unlocked'), unlocked(ex, s2), 'locked', s2)
        for s2, r2 in invoked(ex, s.fork(), 'Open', d, T, [a_mode(ex, s)]):
            ex.prove(s2, Not(err_is_nil(ex, s2, r2.f[1])), nm('opening from a closed pool is an error'))
            ex.ob(nm('a closed pool opens nothing'), s2.ghost['opened'] == s.ghost['opened'], 'it does', s2)
            ex.ob(nm('opening from a closed pool leaves it unlocked'), unlocked(ex, s2), 'locked', s2)


def reclaim(ex, st, d, T, v, nm, reached, closed):
    s = st.fork()
    k = cid(v)
    # whatever its borrower did with it
    cs(s, k, clean=fresh('clean', Bool), alive=fresh('alive', Bool), closed=fresh('closed', Bool), ok=None, fresh=False)
    for s2, r in invoked(ex, s, 'Reclaim', d, T, [v]):
        w = cg(s2, k, 'where')
        ex.prove(s2, B(err_is_nil(ex, s2, r)), nm('a connection lent is reclaimed without error'))
        ex.ob(nm('a reclaimed connection is idle or discarded'), w in ('idle', 'destroyed') and s2.ghost['op.lent'] == (), str(w), s2)
        ex.ob(nm('reclaiming leaves the pool unlocked'), unlocked(ex, s2), 'locked', s2)
        if w == 'idle':
            reached.add('idle again')
            ex.prove(s2, B(cg(s2, k, 'clean')), nm('an open transaction is rolled back before the connection can be lent again'))
            ex.prove(s2, Not(B(cg(s2, k, 'closed'))), nm('a connection kept is open'))
        elif w == 'destroyed':
            reached.add('destroyed')
        if closed:
            ex.ob(nm('what a closed pool reclaims is discarded'), w == 'destroyed', str(w), s2)
        elif w == 'idle':
            for s3, r3 in invoked(ex, s2.fork(), 'Reclaim', d, T, [v]):
                ex.prove(s3, Not(err_is_nil(ex, s3, r3)), nm('reclaiming twice is an error'))

# ---------------------------------------------------------------- the routing driver hands every call to the pool behind it
RD = ROOT + 'RoutingDriverPool'


def _rt(m, *shape):
    @invoke(('rtpool', m))
    def _(ex, st, r, a, ins):
        st.ghost['rt.calls'] = st.ghost.get('rt.calls', ()) + ((m, tuple(a)),)
        outs = []
        bad = st.fork()
        bad.note('%s of the pool fails' % m)
        e = lib_error(ex, bad, 'poolerr')
        bad.ghost['rt.err'] = e
        outs.append((bad, 'ret', TupleV([NILI, e]) if shape else e))
        if shape:
            c = bconn(7)
            outs.append((st, 'ret', TupleV([c, NILI])))
        else:
            outs.append((st, 'ret', NILI))
        return outs


_rt('BorrowRConnection', 1)
_rt('BorrowRWConnection', 1)
_rt('Reclaim')
_rt('Start')
_rt('Stop')


def same_err(ex, st, e):
    """the call reports what the pool did: its error, or none"""
    if st.ghost.get('rt.err') is None:
        return valid(st, B(err_is_nil(ex, st, e)))
    return valid(st, Not(err_is_nil(ex, st, e)))


def run_routing_driver(ex):
    P = ex.P
    t = P.T(RD)
    IT = P.T(ROOT + 'IDriverPool')

    def driver():
        st = State()
        fs = []
        for f in P.fields(t):
            if P.kind(f['type']) == 'iface':
                fs.append(IfaceV(dyn=('rtpool', NatV('rtpool'))))
            else:
                fs.append(ex.sym(st, f['type'], lambda p, s: fresh('driver' + p, s)))
        return st, IfaceV(dyn=(P.T('*' + RD), PtrV(st.alloc(Cell(StructV(t, fs), t)))))
    nm = lambda m, w: '(*RoutingDriverPool).%s: %s {C17,C18}' % (m, w)
    ex.top = RD
    for isread in (True, False):
        st, d = driver()
        m = a_mode(ex, st)
        st.assume(m == 0 if isread else m != 0)
        for s, r in invoked(ex, st, 'Open', d, IT, [m]):
            want = 'BorrowRConnection' if isread else 'BorrowRWConnection'
            cs_ = s.ghost.get('rt.calls', ())
            ex.ob(nm('Open', 'one connection is borrowed, %s' % ('of either kind' if isread else 'one that can write')), [c[0] for c in cs_] == [want], repr(cs_), s)
            v, e = r.f
            ex.ob(nm('Open', 'a failure is reported, and only a failure'), same_err(ex, s, e), repr(r), s)
            if s.ghost.get('rt.err') is None:
                ex.ob(nm('Open', 'the connection borrowed is returned'), isconn(v) and cid(v) == 7, repr(r), s)
    st, d = driver()
    c = bconn(9)
    for s, r in invoked(ex, st, 'Reclaim', d, IT, [c]):
        cs_ = s.ghost.get('rt.calls', ())
        ex.ob(nm('Reclaim', 'the connection goes back to the pool'), len(cs_) == 1 and cs_[0][0] == 'Reclaim' and isconn(cs_[0][1][0]) and cid(cs_[0][1][0]) == 9, repr(cs_), s)
        ex.ob(nm('Reclaim', 'a failure is reported, and only a failure'), same_err(ex, s, r), repr(r), s)
    st, d = driver()
    for s, r in invoked(ex, st, 'Close', d, IT, []):
        cs_ = s.ghost.get('rt.calls', ())
        ex.ob(nm('Close', 'the pool is stopped'), [c[0] for c in cs_] == ['Stop'], repr(cs_), s)
        ex.ob(nm('Close', 'a failure is reported, and only a failure'), same_err(ex, s, r), repr(r), s)
