"""The routing pool (C17, C18): every operation, from every state its invariant allows, with at most three idle connections
of each mode (two for a refresh) and three lent ones (bounded shape; connections may be dead, retired or closed in any combination),
and with up to twelve of each whose state is given."""
import math
import z3
from core import *
from values import *
from exec import model, MODELS
from prove import short, err_is_nil
from conn import BOLT
import pools
from pools import ROUTING, CREATE, bconn, isconn, cid, cg, cs, newconn, Create, fork2

RP = ROUTING + 'routingPool'
WR = ROUTING + 'connectionPoolWrapper'
QU = ROUTING + 'Queue'
OP = '(*%s).' % RP
NEW = ROUTING + 'NewRoutingPool'
WRITE, READ = 1, 0


def modes(P):
    """values of the constants WriteMode and ReadMode"""
    global WRITE, READ
    WRITE, READ = (int(P.consts[BOLT + 'bolt_mode.' + n]) for n in ('WriteMode', 'ReadMode'))
    if {WRITE, READ} != {0, 1}:
        raise Unsupported('modes other than 0 and 1')


def fi(ex, t, name):
    return ex.P.fieldidx(ex.P.T(t), name)


def fld(ex, t, p, name):
    return PtrV(p.ref, p.path + (fi(ex, t, name),))


def get(ex, st, t, p, name):
    return ex.load(st, fld(ex, t, p, name))


def put(ex, st, t, p, name, v):
    ex.store(st, fld(ex, t, p, name), v)


def steps(ex, st, name, args):
    fr = ex.fr
    outs = []
    ex.top = name
    for s, k, r in ex.run(st, name, args):
        if k != 'ret':
            ex.ob('%s: no panic: %s {C17,C18}' % (short(name), r), not feasible(s), 'panic is reachable', s)
            continue
        outs.append((s, r))
    ex.fr = fr
    return outs


class View:
    """what the pool holds"""

    def __init__(self, ex, st, p):
        self.q = {}
        for m, f in ((WRITE, 'writeQueue'), (READ, 'readQueue')):
            q = get(ex, st, RP, p, f)
            items = get(ex, st, QU, q, 'items')
            self.q[m] = [x.ref for x in ex.elems(st, items, ex.P.T('*' + WR))]
        self.maps = {}
        for f in ('heldConns', 'borrowedConns'):
            o = st.heap[get(ex, st, RP, p, f).ref]
            if o.term is not None:
                raise Unsupported('symbolic map')
            self.maps[f] = {k.rope.conc(): v.ref for k, v in o.ents}
        self.held, self.lent = self.maps['heldConns'], self.maps['borrowedConns']

    def same(self, o):
        return self.q == o.q and self.maps == o.maps


def wconn(ex, st, ref):
    v = get(ex, st, WR, PtrV(ref), 'Connection')
    return cid(v) if isconn(v) else None


def wname(ex, st, ref):
    n = cg(st, wconn(ex, st, ref), 'name')
    return n.rope.conc() if n is not None else None


def marked(ex, st, ref):
    return B(get(ex, st, WR, PtrV(ref), 'markForDeletion'))


def modeof(ex, st, ref):
    return get(ex, st, WR, PtrV(ref), 'ConnType')


def wrapper(ex, st, n, mode, connstr, name, lent=False):
    t = ex.P.T(WR)
    v = ex.zero(st, t)
    newconn(ex, st, n, closed=fresh('closed', Bool), clean=True if not lent else fresh('clean', Bool), fresh=False, name=StrV(name))
    for f, x in (('Connection', bconn(n)), ('ConnStr', connstr), ('ConnType', mode), ('markForDeletion', fresh('mark', Bool) if lent or not ex.ctx['rp.strong'] else False)):
        v = v.with_(ex.P.fieldidx(t, f), x)
    return PtrV(st.alloc(Cell(v, t)))


def strs(ex, st, xs):
    t = ex.P.T('string')
    return SliceV(st.alloc(ArrList(t, [StrV(x) if isinstance(x, bytes) else x for x in xs])), 0, len(xs), len(xs))


def fresh_pool(ex, st, n=4):
    ex.ctx['rp.pool'] = None
    outs = []
    for s, r in steps(ex, st, NEW, [StrV(b'bolt+routing://seed:7687'), n, 1000, StrV(b''), StrV(b'')]):
        v, e = r.f
        if not v.isnil and valid(s, B(err_is_nil(ex, s, e))):
            outs.append((s, v.dyn[1], v))
    if len(outs) != 1:
        raise Unsupported('no routing pool')
    return outs[0]


def pool_state(ex, idle, lent, running=True, conns=None, tables=None, index=0, most=None, fate=None):
    """a pool with these idle (per mode) and lent connections"""
    st = State()
    st.ghost.update({'opened': (), 'rt.version': 4})
    st, p, v = fresh_pool(ex, st)
    n = [10]
    names = {}
    items = {WRITE: [], READ: []}
    held, out = [], []
    pt = ex.P.T('*' + WR)

    def make(mode, islent):
        k = n[0]
        n[0] += 1
        name = b'%d-conn%d' % (mode, k)
        cstr = conns(st, mode, k) if conns else StrV(b'bolt://m%d:1' % mode)
        w = wrapper(ex, st, k, mode, cstr, name, islent)
        if fate:
            f = fate(len(items[mode]), islent)
            cs(st, k, closed=f == 'closed', alive=f != 'dead')
            if islent or not ex.ctx['rp.strong']:
                put(ex, st, WR, w, 'markForDeletion', f == 'retired')
        return StrV(name), w
    for m in (WRITE, READ):
        for i in range(idle[m]):
            k, w = make(m, False)
            items[m].append(w)
            held.append((k, w))
        q = get(ex, st, RP, p, 'writeQueue' if m == WRITE else 'readQueue')
        put(ex, st, QU, q, 'items', SliceV(st.alloc(ArrList(pt, items[m])), 0, len(items[m]), len(items[m])))
    for m in lent:
        out.append(make(m, True))
    for f, e in (('heldConns', held), ('borrowedConns', out)):
        r = get(ex, st, RP, p, f).ref
        st.heap[r] = MapObj(st.heap[r].t, tuple(e))
    tables = tables or {WRITE: [b'bolt://m0:1'], READ: [b'bolt://m1:1', b'bolt://m1:2']}
    put(ex, st, RP, p, 'rwStrings', strs(ex, st, tables[WRITE]))
    put(ex, st, RP, p, 'readStrings', strs(ex, st, tables[READ]))
    put(ex, st, RP, p, 'rwIndex', index)
    put(ex, st, RP, p, 'readIndex', index)
    # a pool never has more connections of a mode than it was made for
    most = most or [max(2, idle[m] + lent.count(m)) for m in (WRITE, READ)]
    put(ex, st, RP, p, 'totalConns', sum(most))
    put(ex, st, RP, p, 'maxWriteIdle', most[0])
    put(ex, st, RP, p, 'maxReadIdle', most[1])
    ex.store(st, get(ex, st, RP, p, 'running'), 1 if running else 0)
    ex.ctx['rp.pool'] = p
    ex.ctx['rp.initial'] = list(range(10, n[0]))
    return st, p, v


# ---------------------------------------------------------------- locking
def immutable(P):
    """fields of the pool that are only assigned where it is made"""
    t = P.T(RP)
    pt = P.T('*' + RP)
    out = set(range(len(P.fields(t))))
    for fn, f in P.funcs.items():
        if not f.get('blocks') or ROUTING not in fn or fn == NEW:
            continue
        regs = {}
        for b in f['blocks']:
            for i in b['instrs']:
                if i['op'] == 'FieldAddr' and P.str(i['x']['t']) == '*' + RP:
                    regs[i['r']] = i['field']
        for b in f['blocks']:
            for i in b['instrs']:
                if i['op'] == 'Store' and i['addr'].get('n') in regs:
                    out.discard(regs[i['addr']['n']])
    return out


def locked(ex, st):
    p = ex.ctx['rp.pool']
    for f, x in zip(ex.P.fields(ex.P.T(RP)), ex.load(st, p).f):
        if isinstance(x, NatV) and x.kind == 'Mutex':
            return x.d['w'], x.d['r']
    raise Unsupported('no lock')


def on_access(ex, st, p, how):
    pool = ex.ctx.get('rp.pool')
    if pool is None or not isinstance(p, PtrV) or not isinstance(p.ref, int) or not ex.ctx.get('rp.guard'):
        return
    o = st.heap.get(p.ref)
    if p.ref == pool.ref:
        if not p.path or p.path[0] in ex.ctx['rp.immutable'] and how == 'read':
            return
        what = 'the pool'
    elif isinstance(o, Cell) and o.t is not None and ex.P.str(o.t) in (WR, QU):
        what = 'its queues' if ex.P.str(o.t) == QU else 'its connections'
    else:
        return
    w, r = locked(ex, st)
    ok = w == 1 or (how == 'read' and r == 1)
    if not ok or ('guard', what) not in st.ghost:
        st.ghost[('guard', what)] = True
        ex.ob('%s: %s only touched while the pool is locked {C17}' % (short(ex.top), what), ok, '%s at %s:%s' % ((how,) + ex.short()), st)


def after(ex, st, a, ins):
    """the refresh interval passes; anything may have happened to the pool meanwhile"""
    n = st.ghost.get('rp.waits', 0)
    st.ghost['rp.waits'] = n + 1
    if n == 0:
        h = ex.ctx.get('rp.waiting')
        outs = []
        for s in (h(ex, st) if h else [st]):
            outs.append((s, 'ret', OpaqueV(ins['t'], fresh('chan', Obj)) if ins else None))
        return outs
    h = ex.ctx.get('rp.round')
    if h:
        h(ex, st)
    return []


def shared_source(ex, st, p):
    """a source several pools draw from is locked by a lock they share (a *rand.Rand is for one goroutine)"""
    gs = [g for k, g in st.ghost.items() if isinstance(k, tuple) and k[0] == 'global']
    vals = [ex.load(st, g) for g in gs]
    if not any(isinstance(v, PtrV) and v.ref == p.ref for v in vals):
        return
    ok = False
    for v in vals:
        for x in v.f if isinstance(v, StructV) else (v,):
            if isinstance(x, NatV) and x.kind == 'Mutex' and same(x.d['w'], 1):
                ok = True
    if ok and st.ghost.get('rand.ok'):
        return
    st.ghost['rand.ok'] = ok
    ex.ob('%s: the random source of all pools is only used under a lock of all pools {C17}' % short(ex.top), ok, 'at %s:%s' % ex.short(), st)


class Rand:
    """letters that make no two ids alike"""

    def __call__(self, ex, st, a, ins):
        if len(a) > 1:
            shared_source(ex, st, a[0])
        n = st.ghost.get('rand.n', 0)
        st.ghost['rand.n'] = n + 1
        k = simp(a[-1])
        if not isinstance(k, int) or k <= 0:
            raise Unsupported('random number')
        st.ghost['rand.bits'] = st.ghost.get('rand.bits', 0) + math.log2(k)
        return (n * 7 + n // 50) % k


def nm(op, w, tags='C17,C18'):
    return 'routing pool, %s: %s {%s}' % (op, w, tags)


def inv(ex, st, p, op):
    """the invariant"""
    v = View(ex, st, p)
    known = list(ex.ctx['rp.initial']) + [100 + i for i in range(st.ghost.get('created', 0))]
    w, r = locked(ex, st)
    ex.ob(nm(op, 'the pool is left unlocked', 'C17'), w == 0 and r == 0, 'locked', st)
    unl = pools.unlocked(ex, st)
    ex.ob(nm(op, 'the queues are left unlocked', 'C17'), unl, 'locked', st)
    allq = v.q[WRITE] + v.q[READ]
    ex.ob(nm(op, 'no connection is queued twice', 'C17'), len(set(allq)) == len(allq) and None not in allq, repr(v.q), st)
    if None in allq:
        return v
    ids = [wconn(ex, st, x) for x in allq] + [wconn(ex, st, x) for x in v.lent.values()]
    ex.ob(nm(op, 'no connection is held twice', 'C17'), len(set(ids)) == len(ids), repr(ids), st)
    for m in (WRITE, READ):
        ex.ob(nm(op, 'a queue holds connections of its mode', 'C17'), all(modeof(ex, st, x) == m for x in v.q[m]), repr(v.q), st)
    for m, f in ((WRITE, 'maxWriteIdle'), (READ, 'maxReadIdle')):
        n = len(v.q[m]) + sum(1 for x in v.lent.values() if modeof(ex, st, x) == m)
        ex.prove(st, le(n, get(ex, st, RP, p, f)), nm(op, 'no more connections of a mode than its share of the size', 'C18'))
    for x in allq:
        n = wconn(ex, st, x)
        if ex.ctx['rp.strong']:
            ex.prove(st, Not(marked(ex, st, x)), nm(op, 'no idle connection is retired'))
        ex.prove(st, Or(B(cg(st, n, 'clean')), B(cg(st, n, 'closed'))), nm(op, 'no idle connection has a transaction', 'C17'))
    if simp(ex.load(st, get(ex, st, RP, p, 'running'))) == 0:
        ex.ob(nm(op, 'a pool that is not running keeps no idle connection', 'C18'), not allq and not v.held, repr(v.q), st)
    ex.ob(nm(op, 'what is lent is not in a queue', 'C17'), not set(allq) & set(v.lent.values()), repr(v.lent), st)
    ex.ob(nm(op, 'what is lent is known by its id', 'C17'), all(wname(ex, st, x) == k for k, x in v.lent.items()), repr(v.lent), st)
    ex.ob(nm(op, 'the idle connections are the ones held', 'C18'), sorted(v.held.values()) == sorted(allq) and
          all(wname(ex, st, x) == k for k, x in v.held.items()), '%r %r' % (v.held, allq), st)
    for n in known:
        if n in ids:
            continue
        ex.ob(nm(op, 'a connection the pool no longer has is closed', 'C18'), valid(st, B(cg(st, n, 'closed'))), 'connection %d leaks' % n, st)
    bits = st.ghost.get('rand.bits', 0)
    ex.ob(nm(op, 'ids drawn at random are too many to be drawn twice', 'C17'), not bits or bits >= 60 * st.ghost.get('created', 0), '%d bits for %d ids' % (bits, st.ghost.get('created', 0)), st)
    names = [cg(st, n, 'name').rope.conc() for n in known if cg(st, n, 'name') is not None]
    ex.ob(nm(op, 'connections have ids of their own', 'C17'), len(set(names)) == len(names) and (not ids or None not in names), repr(names), st)
    for n in range(st.ghost.get('created', 0)):
        if 100 + n in ids:
            ref = [x for x in allq + list(v.lent.values()) if wconn(ex, st, x) == 100 + n][0]
            m = modeof(ex, st, ref)
            o = st.ghost['opened']
            want = strings(ex, st, p, m)
            ex.ob(nm(op, 'connections are made to servers of their mode', 'C17,C18'), any(ex.value_eq(st, None, get(ex, st, WR, PtrV(ref), 'ConnStr'), x) for x in want) and
                  any(ex.value_eq(st, None, y, get(ex, st, WR, PtrV(ref), 'ConnStr')) for y in o), repr(o), st)
            ex.ob(nm(op, 'a new connection is not retired', 'C18'), valid(st, Not(marked(ex, st, ref))), '', st)
    return v


def strings(ex, st, p, m):
    s = get(ex, st, RP, p, 'rwStrings' if m == WRITE else 'readStrings')
    return ex.elems(st, s, ex.P.T('string')) if s.ref is not None else []


# ---------------------------------------------------------------- borrowing
def run_borrow(ex, reached):
    for m, fn in ((READ, 'BorrowRConnection'), (WRITE, 'BorrowRWConnection')):
        for stable in (True, False):
            ex.ctx['stable'] = stable
            for own, other, lent in ((3, 1, [m]), (1, 0, []), (0, 1, [m, m]), (0, 0, [m]), (0, 0, [1 - m, 1 - m]), (0, 3, [])):
                for tabs, index in ((None, 0), (None, 1), ({WRITE: [], READ: []}, 3)):
                    if own and index != 1 or own == 3 and not stable:
                        continue
                    idle = {m: own, 1 - m: other}
                    st, p, d = pool_state(ex, idle, lent, tables=tabs, index=index)
                    v0 = View(ex, st, p)
                    st0 = st.fork()
                    for s, r in steps(ex, st, OP + fn, [p]):
                        borrowed(ex, s, p, st0, v0, m, r, stable, fn, reached)
    # long queues: everything dead, retired or closed up to the last, or all of it
    ex.ctx['stable'] = True
    for m, fn in ((READ, 'BorrowRConnection'), (WRITE, 'BorrowRWConnection')):
        for fates in (('dead',), ('retired',), ('closed', 'dead'), ('good',)):
            for last in (LONG - 1, LONG):
                st, p, d = pool_state(ex, {m: LONG, 1 - m: 2}, [m], fate=lambda i, l: 'good' if i == last else fates[i % len(fates)])
                v0 = View(ex, st, p)
                st0 = st.fork()
                for s, r in steps(ex, st, OP + fn, [p]):
                    borrowed(ex, s, p, st0, v0, m, r, True, fn, reached)
        st, p, d = pool_state(ex, {m: 2, 1 - m: LONG}, [1 - m] * 3, fate=lambda i, l: 'dead')
        v0 = View(ex, st, p)
        st0 = st.fork()
        for s, r in steps(ex, st, OP + fn, [p]):
            borrowed(ex, s, p, st0, v0, m, r, True, fn, reached)
        for n in (LONG - 1, LONG):
            # nothing idle, many lent: as many as there may be, or one less
            st, p, d = pool_state(ex, {m: 0, 1 - m: 1}, [m] * n + [1 - m] * 3, most=[LONG, LONG], fate=lambda i, l: 'good')
            v0 = View(ex, st, p)
            st0 = st.fork()
            for s, r in steps(ex, st, OP + fn, [p]):
                borrowed(ex, s, p, st0, v0, m, r, True, fn, reached)
    for fn in ('BorrowRConnection', 'BorrowRWConnection'):
        st, p, d = pool_state(ex, {WRITE: 0, READ: 0}, [READ], running=False)
        v0 = View(ex, st, p)
        for s, r in steps(ex, st, OP + fn, [p]):
            ex.prove(s, Not(B(err_is_nil(ex, s, r.f[1]))), nm(fn, 'nothing is lent when the pool is not running'))
            ex.ob(nm(fn, 'nothing is lent when the pool is not running'), r.f[0].isnil and View(ex, s, p).same(v0), '', s)
            inv(ex, s, p, fn)


# connections in the long shapes
LONG = 12


def borrowed(ex, s, p, st0, v0, m, r, stable, fn, reached):
    c, e = r.f
    v = inv(ex, s, p, fn)
    ex.ob(nm(fn, 'the other mode is left alone', 'C17'), v.q[1 - m] == v0.q[1 - m], '%r %r' % (v0.q, v.q), s)
    for s2, ok in fork2(ex, s, B(err_is_nil(ex, s, e))):
        old = v0.q[m]
        if not ok:
            ex.ob(nm(fn, 'an error lends nothing', 'C17'), c.isnil and v.lent == v0.lent, repr(c), s2)
            justified(ex, s2, st0, old, [x for x in old if x not in v.q[m]], fn)
            if stable and not s2.ghost.get('openfailed') and strings(ex, s2, p, m):
                n = sum(1 for x in v0.lent.values() if modeof(ex, st0, x) == m)
                most = get(ex, s2, RP, p, 'maxWriteIdle' if m == WRITE else 'maxReadIdle')
                ex.ob(nm(fn, 'dead and retired connections are replaced, not reported', 'C18'), n >= most, '%d of %r lent, and yet an error' % (n, most), s2)
            reached.add('refused')
            continue
        ex.ob(nm(fn, 'a connection is lent'), isconn(c), repr(c), s2)
        if not isconn(c):
            continue
        k = cid(c)
        ex.ob(nm(fn, 'only open connections are lent', 'C18'), cg(s2, k, 'ok') is True or cg(s2, k, 'ok') is None and bool(cg(s2, k, 'fresh')), 'last seen %s' % cg(s2, k, 'ok'), s2)
        ws = [x for x in v.lent.values() if wconn(ex, s2, x) == k]
        ex.ob(nm(fn, 'what is lent is known to be lent', 'C17'), len(ws) == 1 and len(v.lent) == len(v0.lent) + 1 and set(v0.lent.values()) <= set(v.lent.values()), repr(v.lent), s2)
        if len(ws) != 1:
            continue
        w = ws[0]
        ex.ob(nm(fn, 'a connection of the mode asked for', 'C17'), modeof(ex, s2, w) == m, repr(modeof(ex, s2, w)), s2)
        ex.prove(s2, Not(marked(ex, s2, w)), nm(fn, 'no retired connection is lent', 'C18'))
        ex.prove(s2, B(cg(s2, k, 'clean')), nm(fn, 'no connection with a transaction is lent', 'C17'))
        if w in old:
            i = old.index(w)
            ex.ob(nm(fn, 'idle connections are lent in order', 'C17'), v.q[m] == old[i + 1:], '%r of %r leaves %r' % (w, old, v.q[m]), s2)
            justified(ex, s2, st0, old, old[:i], fn)
            reached.add('lent')
        else:
            ex.ob(nm(fn, 'a connection comes from the idle ones when there are', 'C17'), not set(old) & set(v.q[m]) and w not in v0.q[1 - m] and w not in v0.lent.values(), repr(w), s2)
            justified(ex, s2, st0, old, old, fn)
            reached.add('made')


def justified(ex, s, st0, old, gone, fn):
    for x in gone:
        n = wconn(ex, s, x)
        ok = cg(s, n, 'ok') is False or valid(s, Or(marked(ex, st0, x), B(cg(st0, n, 'closed'))))
        ex.ob(nm(fn, 'connections that can be used are kept', 'C18'), ok, 'connection %d is removed' % n, s)


# ---------------------------------------------------------------- reclaiming
def run_reclaim(ex, reached):
    fn = 'Reclaim'
    for stable in (True, False):
        ex.ctx['stable'] = stable
        for m in (WRITE, READ):
            for own, other, lent, tabs in ((1, 1, [m, 1 - m], None), (0, 0, [m], {WRITE: [], READ: []}), (3, 0, [1 - m, m, m], None), (2, 3, [m], None)):
                for running in (True, False):
                    if not running and (own or other):
                        own = other = 0
                    st, p, d = pool_state(ex, {m: own, 1 - m: other}, lent, tables=tabs, running=running)
                    v0 = View(ex, st, p)
                    # one of the lent, an idle one, one the pool does not know, none
                    cases = [('lent', wconn(ex, st, x), x) for x in v0.lent.values()]
                    cases += [('idle', wconn(ex, st, x), x) for x in v0.q[m][:1]]
                    cases += [('alien', 7, None), ('alien', 8, None), ('nil', None, None)]
                    for what, n, w in cases:
                        s = st.fork()
                        if what == 'alien':
                            newconn(ex, s, n, closed=fresh('closed', Bool), name=StrV(b'alien' if n == 7 else b''))
                        arg = bconn(n) if n is not None else NILI
                        if what == 'lent':
                            cs(s, n, alive=fresh('alive', Bool), ok=None)
                        st0 = s.fork()
                        for s2, r in steps(ex, s, OP + fn, [p, arg]):
                            reclaimed(ex, s2, p, st0, v0, what, n, w, r, running, fn, reached)
    long_reclaim(ex, reached)


def long_reclaim(ex, reached):
    fn = 'Reclaim'
    ex.ctx['stable'] = True
    for m in (WRITE, READ):
        for own, lent in ((LONG, [m, 1 - m]), (0, [m] * LONG)):
            for fate in ('good', 'dead', 'retired'):
                st, p, d = pool_state(ex, {m: own, 1 - m: 2}, lent, fate=lambda i, l: fate if l else 'good')
                v0 = View(ex, st, p)
                for x in list(v0.lent.values())[-2:]:
                    s = st.fork()
                    n = wconn(ex, st, x)
                    st0 = s.fork()
                    for s2, r in steps(ex, s, OP + fn, [p, bconn(n)]):
                        reclaimed(ex, s2, p, st0, v0, 'lent', n, x, r, True, fn, reached)


def reclaimed(ex, s, p, st0, v0, what, n, w, r, running, fn, reached):
    v = inv(ex, s, p, fn)
    bad = Not(B(err_is_nil(ex, s, r)))
    if what == 'nil':
        ex.prove(s, bad, nm(fn, 'reclaiming nil is an error', 'C17'))
        ex.ob(nm(fn, 'reclaiming nil changes nothing', 'C17'), v.same(v0), '', s)
        return
    if what != 'lent':
        ex.prove(s, bad, nm(fn, 'reclaiming what was not lent is an error', 'C17'))
        ex.prove(s, B(cg(s, n, 'closed')), nm(fn, 'what was not lent is closed', 'C17'))
        ex.ob(nm(fn, 'reclaiming what was not lent leaves the pool as it was', 'C17'), v.same(v0), '', s)
        return
    rest = {k: x for k, x in v0.lent.items() if x != w}
    ex.ob(nm(fn, 'what is reclaimed is lent no longer, nothing else changes', 'C17'), v.lent == rest, '%r %r' % (v0.lent, v.lent), s)
    m = modeof(ex, st0, w)
    if not running:
        ex.prove(s, B(cg(s, n, 'closed')), nm(fn, 'a stopped pool closes what is reclaimed', 'C18'))
        ex.ob(nm(fn, 'a stopped pool keeps nothing', 'C18'), v.q == v0.q, '', s)
        return
    ex.ob(nm(fn, 'the other mode is left alone', 'C17'), v.q[1 - m] == v0.q[1 - m], '%r %r' % (v0.q, v.q), s)
    idle = w in v.q[m]
    if idle:
        reached.add('idle again')
        ex.ob(nm(fn, 'what is reclaimed is queued last', 'C17'), v.q[m] == v0.q[m] + [w], '%r %r' % (v0.q, v.q), s)
        ex.prove(s, B(err_is_nil(ex, s, r)), nm(fn, 'reclaiming succeeds', 'C17'))
        ex.prove(s, Not(marked(ex, st0, w)), nm(fn, 'a retired connection is not kept', 'C18'))
        return
    reached.add('discarded')
    ex.ob(nm(fn, 'what was idle stays so', 'C17'), v.q[m][:len(v0.q[m])] == v0.q[m], '%r %r' % (v0.q, v.q), s)
    # it was of no more use
    useless = cg(s, n, 'ok') is False or valid(s, Or(marked(ex, st0, w), B(cg(st0, n, 'closed')))) or cg(s, n, 'clean') is False and idle_failed(s)
    ex.ob(nm(fn, 'a connection that can be used is kept', 'C18'), useless, 'connection %d is discarded' % n, s)
    if s.ghost.get('openfailed') or not strings(ex, s, p, m):
        return
    ex.ob(nm(fn, 'a discarded connection is replaced', 'C18'), len(v.q[m]) == len(v0.q[m]) + 1 or not valid(s, B(err_is_nil(ex, s, r))), repr(v.q), s)


def idle_failed(s):
    return any('rolling back fails' in str(x) for x in s.trace)


# ---------------------------------------------------------------- starting and stopping
def long_fate(i, islent):
    return ('good', 'dead', 'closed', 'good', 'retired')[i % 5]


def run_life(ex, reached):
    for stable in (True, False):
        ex.ctx['stable'] = stable
        fn = 'Stop'
        for idle, lent, fate in (({WRITE: 3, READ: 1}, [READ], None), ({WRITE: 1, READ: 3}, [], None), ({WRITE: 0, READ: 0}, [WRITE], None),
                                 ({WRITE: LONG, READ: 2}, [READ], long_fate), ({WRITE: 2, READ: LONG}, [], long_fate)):
            if fate and not stable:
                continue
            st, p, d = pool_state(ex, idle, lent, fate=fate)
            v0 = View(ex, st, p)
            for s, r in steps(ex, st, OP + fn, [p]):
                v = inv(ex, s, p, fn)
                ex.ob(nm(fn, 'no connection is idle any more', 'C18'), not v.q[WRITE] and not v.q[READ], repr(v.q), s)
                for x in v0.q[WRITE] + v0.q[READ]:
                    ex.prove(s, B(cg(s, wconn(ex, s, x), 'closed')), nm(fn, 'every idle connection is closed', 'C18'))
                ex.ob(nm(fn, 'what is lent can still be reclaimed', 'C17'), v.lent == v0.lent, '', s)
                ex.prove(s, B(err_is_nil(ex, s, r)), nm(fn, 'a running pool is stopped', 'C18'))
                ex.ob(nm(fn, 'the pool is not running', 'C18'), simp(ex.load(s, get(ex, s, RP, p, 'running'))) == 0, '', s)
        st, p, d = pool_state(ex, {WRITE: 0, READ: 0}, [READ], running=False)
        v0 = View(ex, st, p)
        for s, r in steps(ex, st, OP + fn, [p]):
            ex.prove(s, Not(B(err_is_nil(ex, s, r))), nm(fn, 'stopping twice is an error', 'C18'))
            inv(ex, s, p, fn)
    ex.ctx['stable'] = True
    fn = 'Start'
    for size in (2, 3, 6, 2 * LONG + 1):
        for tab in ('a', 'nolead', 'none'):
            st = State()
            st.ghost.update({'opened': (), 'rt.version': 4})
            st, p, d = fresh_pool(ex, st, size)
            ex.ctx['rp.pool'] = p
            ex.ctx['rp.initial'] = []
            ex.ctx['overview'] = lambda ex, s, a, name, tab=tab: table(ex, s, TABLES[tab])
            for s, r in steps(ex, st, OP + fn, [p]):
                v = inv(ex, s, p, fn)
                for s2, ok in fork2(ex, s, B(err_is_nil(ex, s, r))):
                    running = simp(ex.load(s2, get(ex, s2, RP, p, 'running')))
                    if ok:
                        reached.add('started')
                        nw, nr = len(v.q[WRITE]), len(v.q[READ])
                        ex.ob(nm(fn, 'the pool has as many connections as asked for', 'C17'), nw + nr == size and abs(nw - nr) <= 1, '%d, %d' % (nw, nr), s2)
                        ex.ob(nm(fn, 'the pool is running', 'C17'), running == 1, '', s2)
                        ex.ob(nm(fn, 'the table is kept up to date', 'C18'), len(s2.ghost.get('spawned', ())) == 1, '', s2)
                    else:
                        ex.ob(nm(fn, 'a pool that does not start holds nothing', 'C18'), not v.q[WRITE] and not v.q[READ] and running == 0, repr(v.q), s2)
    st, p, d = pool_state(ex, {WRITE: 1, READ: 1}, [WRITE])
    v0 = View(ex, st, p)
    for s, r in steps(ex, st, OP + fn, [p]):
        v = inv(ex, s, p, fn)
        ex.prove(s, Not(B(err_is_nil(ex, s, r))), nm(fn, 'starting twice is an error', 'C17'))
        ex.ob(nm(fn, 'starting twice changes nothing', 'C17'), v.same(v0), '', s)


# ---------------------------------------------------------------- refreshing
A, Bs, Cs = b'bolt://a:1', b'bolt://b:1', b'bolt://c:1'
TABLES = {'a': ([A], [Bs], []), 'b': ([Bs], [], [A]), 'nolead': ([], [A], [Cs]), 'two': ([A, Bs], [Cs], [A]), 'none': None}


def table(ex, st, t):
    """rows of a cluster overview (version 4)"""
    P = ex.P
    ET = P.T('[]interface{}')
    S = P.T('string')
    MT = P.T('map[string]interface{}')
    anyt = P.elem(ET)
    sl = lambda xs: SliceV(st.alloc(ArrList(anyt, list(xs))), 0, len(xs), len(xs))
    box = lambda t, x: IfaceV(dyn=(t, x))
    rows = []
    for role, as_ in zip((b'LEADER', b'FOLLOWER', b'READ_REPLICA'), t or ([], [], [])):
        for a in as_:
            m = MapV(st.alloc(MapObj(MT, [(StrV(b'system'), box(S, StrV(role)))])))
            rows.append(sl([box(S, StrV(b'id')), box(ET, sl([box(S, StrV(a))])), box(MT, m), box(ET, sl([]))]))
    if t is None:
        rows.append(sl([]))
    return SliceV(st.alloc(ArrList(ET, rows)), 0, len(rows), len(rows))


def run_refresh(ex, reached):
    fn = 'refreshHandler'
    ex.ctx['stable'] = True

    def conns(st, mode, k):
        s = pools.fresh_str(st, 'connstr%d' % k)
        c = z3.Or(*[B(ex.str_eq(st, s.rope, StrV(x).rope)) for x in (A, Bs, Cs)])
        st.assume(c)
        return s
    shapes = ({WRITE: 1, READ: 1}, [WRITE]), ({WRITE: 0, READ: 2}, [READ]), ({WRITE: 2, READ: 0}, [])
    def turn(st, mode, k):
        return StrV((A, Bs, Cs)[k % 3])
    long = (({WRITE: LONG, READ: 2}, [READ, WRITE]), ({WRITE: 1, READ: LONG}, []), ({WRITE: 0, READ: 1}, [WRITE, READ] * (LONG // 2)))
    for tab, idle, lent, conns, fate in [(t, i, l, conns, None) for t in ('a', 'b', 'nolead', 'two', 'none') for i, l in shapes] + \
            [(t, i, l, turn, long_fate) for t in ('a', 'two', 'none') for i, l in long]:
        st, p, d = pool_state(ex, idle, lent, conns=conns, tables={WRITE: [A, Cs], READ: [Bs]}, index=1, fate=fate)
        v0 = View(ex, st, p)
        st0 = st.fork()
        for x in v0.q[WRITE] + v0.q[READ] + list(v0.lent.values()):
            pass
        ex.ctx['overview'] = lambda ex, s, a, name, tab=tab: table(ex, s, TABLES[tab])

        def check(ex, s, final=False, st0=st0, v0=v0, p=p, tab=tab):
            refreshed(ex, s, p, st0, v0, tab, fn, reached)

        def waiting(ex, s):
            # the pool goes on, or is stopped meanwhile
            s2 = s.fork()
            ex.store(s2, get(ex, s2, RP, p, 'running'), 0)
            for m in (WRITE, READ):
                q = get(ex, s2, RP, p, 'writeQueue' if m == WRITE else 'readQueue')
                put(ex, s2, QU, q, 'items', SliceV(s2.alloc(ArrList(ex.P.T('*' + WR), [])), 0, 0, 0))
            r = get(ex, s2, RP, p, 'heldConns').ref
            s2.heap[r] = MapObj(s2.heap[r].t, ())
            for x in v0.q[WRITE] + v0.q[READ]:
                cs(s2, wconn(ex, s2, x), closed=True)
            s2.ghost['rp.stopped'] = True
            s2.note('the pool is stopped meanwhile')
            return [s, s2]
        ex.ctx['rp.round'] = check
        ex.ctx['rp.waiting'] = waiting
        for s, r in steps(ex, st, OP + fn, [p]):
            ex.ob(nm(fn, 'the table is refreshed as long as the pool runs', 'C18'), bool(s.ghost.get('rp.stopped')), 'it ends', s)
            v = inv(ex, s, p, fn)
            ex.ob(nm(fn, 'a stopped pool is left alone', 'C18'), v.lent == v0.lent and s.ghost['opened'] == (), '', s)
            reached.add('stopped')


def refreshed(ex, s, p, st0, v0, tab, fn, reached):
    v = inv(ex, s, p, fn)
    if s.ghost.get('rp.stopped'):
        ex.ob(nm(fn, 'the refreshing of a stopped pool ends', 'C18'), False, 'it goes on', s)
        return
    o = s.ghost['opened']
    ex.ob(nm(fn, 'the table is read with the leader string', 'C18'), len(o) >= 1 and o[0].rope.conc() == b'bolt://seed:7687', repr(o), s)
    ex.ob(nm(fn, 'what is lent stays lent', 'C17'), v.lent == v0.lent, '%r %r' % (v0.lent, v.lent), s)
    failed = s.ghost.get('openfailed') or s.ghost.get('rt.queryfailed') or TABLES[tab] is None
    want = None if failed else {WRITE: TABLES[tab][0], READ: TABLES[tab][1] + TABLES[tab][2]}
    reached.add('refresh failed' if failed else 'refreshed')
    if want is not None:
        for m in (WRITE, READ):
            got = [x.rope.conc() for x in strings(ex, s, p, m)]
            ex.ob(nm(fn, 'connections go to the servers of the table from now on', 'C18'), sorted(set(want[m])) == sorted(got), '%r not %r' % (got, want[m]), s)
    for x in v0.q[WRITE] + v0.q[READ] + list(v0.lent.values()):
        m = modeof(ex, st0, x)
        n = wconn(ex, s, x)
        before = marked(ex, st0, x)
        if want is None:
            inside = True
        else:
            cstr = get(ex, st0, WR, PtrV(x), 'ConnStr')
            inside = Or(False, *[ex.str_eq(s, cstr.rope, StrV(y).rope) for y in want[m]])
        keep = And(inside, Not(before))
        idle = x in v.q[m]
        if x in v0.lent.values():
            ex.prove(s, z3.Implies(B(Not(B(inside))), marked(ex, s, x)), nm(fn, 'what is lent is retired when its server left the table', 'C18'))
            ex.prove(s, z3.Implies(B(keep), Not(marked(ex, s, x))), nm(fn, 'what is lent is kept when its server is in the table', 'C18'))
            ex.prove(s, B(cg(s, n, 'closed')) == B(cg(st0, n, 'closed')), nm(fn, 'what is lent is not closed', 'C17'))
            continue
        if idle:
            ex.prove(s, z3.Implies(B(cg(s, n, 'closed')), B(cg(st0, n, 'closed'))), nm(fn, 'what stays idle is not closed', 'C18'))
            ex.prove(s, Or(Not(B(want is not None)), B(inside), marked(ex, s, x)), nm(fn, 'connections to servers that left the table are retired', 'C18'))
            reached.add('kept')
        else:
            ex.ob(nm(fn, 'connections to servers in the table are kept', 'C18'), valid(s, Not(B(keep))), 'connection %d is removed' % n, s)
            reached.add('pruned')
    for m in (WRITE, READ):
        left = [x for x in v0.q[m] if x in v.q[m]]
        ex.ob(nm(fn, 'idle connections keep their order', 'C17'), [x for x in v.q[m] if x in v0.q[m]] == left, '%r %r' % (v0.q, v.q), s)
        if want is not None:
            for x in left:
                cstr = get(ex, st0, WR, PtrV(x), 'ConnStr')
                ok = Or(False, *[ex.str_eq(s, cstr.rope, StrV(y).rope) for y in want[m]])
                ex.prove(s, B(ok), nm(fn, 'no connection to a server that left the table stays idle', 'C18'))


def run(ex):
    """with either invariant: idle connections may be retired, or no idle connection is"""
    first = None
    for strong in (False, True):
        ex.obl = []
        for what in (run_borrow, run_reclaim, run_life, run_refresh):
            run1(ex, what, strong)
        if all(o.ok for o in ex.obl):
            return
        first = first or ex.obl
    ex.obl = first


def run1(ex, what, strong):
    ex.ctx.clear()
    ex.ctx['rp.strong'] = strong
    ex.contracts[CREATE] = Create()
    saved = {}
    for n in ('(*math/rand.Rand).Intn', 'math/rand.Intn'):
        saved[n] = MODELS.get(n)
        MODELS[n] = Rand()
    MODELS['time.After'] = MODELS['time.Sleep'] = after
    ex.on_access = on_access
    modes(ex.P)
    ex.ctx['rp.guard'] = True
    ex.ctx['recurse'] = LONG + 4
    ex.maxpaths = 1000000
    ex.ctx['rp.immutable'] = immutable(ex.P)
    reached = set()
    try:
        what(ex, reached)
    finally:
        ex.on_access = None
        for n, f in saved.items():
            MODELS[n] = f
        del MODELS['time.After'], MODELS['time.Sleep']
    for w in NEED[what]:
        ex.ob('routing pool: reached: %s {C17,C18}' % w, w in reached, 'never')


NEED = {run_borrow: ('lent', 'made', 'refused'), run_reclaim: ('idle again', 'discarded'), run_life: ('started',),
        run_refresh: ('refreshed', 'refresh failed', 'kept', 'pruned', 'stopped')}
