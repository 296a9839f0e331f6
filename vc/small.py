"""Results (C20) and errors (C21)."""
import z3
from core import *
from values import *
from exec import model, invoke, MODELS
from prove import Contract, Pred, ANY, short, err_is_nil
from models import fresh_str, lib_error, bolt_error, sprintf
from conn import BOLT, MSG, TE, TR, MAPT
from proto import Simple

R = '(*%s).' % TR
FM = '(%sFailureMessage).' % MSG
ER = '(*%s).' % TE
STATS = {'GetNodesCreated': 'nodes-created', 'GetRelationshipsCreated': 'relationships-created',
         'GetNodesDeleted': 'nodes-deleted', 'GetRelationshipsDeleted': 'relationships-deleted'}


def mapent(ex, st, m, key):
    """(formula: present, its value as a term) of a map value"""
    if m.ref is None:
        return False, None
    o = st.heap[m.ref]
    if o.term is None or o.ents:
        t = ex.mobj_term(st, o)
    else:
        t = o.term
    kt = ex.bterm(st, StrV(key).rope)
    h = ghas(t, kt)
    return h, gget(t, kt)


def themap(ex, st, v):
    for f, x in zip(ex.P.fields(v.t), v.f):
        if isinstance(x, MapV):
            return x
    raise Unsupported('no metadata')


class Result(Contract):
    def must_reach(self, ex, args):
        return []

    def setups(self, ex, st0, name):
        P = ex.P
        t = P.T(TR)
        for nil in (False, True):
            st = State()
            fs = []
            for f in P.fields(t):
                if P.kind(f['type']) == 'map' and nil:
                    fs.append(MapV(None))
                else:
                    fs.append(ex.sym(st, f['type'], lambda p, s: fresh('meta' + p, s)))
            yield [PtrV(st.alloc(Cell(StructV(t, fs), t)))], st

    def meta(self, E):
        return themap(E.ex, E.old, E.ex.load(E.old, E.args[0]))

    def stats(self, E):
        """(formula: the summary has statistics, the map of them)"""
        ex, st = E.ex, E.st
        m = self.meta(E)
        h, x = mapent(ex, st, m, 'stats')
        if h is False:
            return False, None
        return z3.And(h, tag(x) == ex.P.tagid(MAPT(ex))), ex.unbox(st, MAPT(ex), x)


class GetStats(Result):
    def post(self, E):
        ex, st = E.ex, E.st
        has, m = self.stats(E)
        E.fact(eq_bool(E.retv.f[1], has), 'statistics are reported exactly when the summary has them {C20}')
        s2 = st.fork()
        s2.assume(E.retv.f[1])
        if m is not None and feasible(s2):
            E.ob(isinstance(E.retv.f[0], MapV) and ex.map_veq(s2, E.retv.f[0], m, 0), "the statistics are the server's {C20}", repr(E.retv))


def eq_bool(a, b):
    return simp(B(a) == B(b))


class GetNumber(Result):
    def __init__(self, key):
        self.key = key

    def post(self, E):
        ex, st = E.ex, E.st
        has, m = self.stats(E)
        n = 0
        if has is not False:
            h, x = mapent(ex, st, m, self.key)
            it = ex.P.T('int64')
            has = z3.And(has, B(h), tag(x) == ex.P.tagid(it))
            n = ex.unbox(st, it, x)
        E.fact(eq_bool(E.retv.f[1], has), 'a number is reported exactly when the summary has it {C20}')
        if has is not False:
            E.fact(z3.Implies(B(has), I(E.retv.f[0]) == I(n)), "the number is the server's {C20}")


class Metadata(Result):
    def post(self, E):
        E.ob(E.ex.map_veq(E.st, E.retv, self.meta(E), 0), 'the summary unchanged {C20}', repr(E.retv))


class NewResult(Simple):
    def __init__(self):
        Simple.__init__(self, None)

    def post(self, E):
        ex = E.ex
        ok = isinstance(E.retv, PtrV) and E.retv.ref is not None and any(
            isinstance(x, MapV) and ex.map_veq(E.st, x, E.args[0], 0) for x in ex.load(E.st, E.retv).f)
        E.ob(ok, 'the result holds the summary {C20,C10}', repr(E.retv))


# ---------------------------------------------------------------- failures
class Failure(Contract):
    def __init__(self, key):
        self.key = key

    def must_reach(self, ex, args):
        return []

    def setups(self, ex, st0, name):
        P = ex.P
        t = P.T(MSG + 'FailureMessage')
        for nil in (False, True):
            st = State()
            fs = []
            for f in P.fields(t):
                if P.kind(f['type']) == 'map' and nil:
                    fs.append(MapV(None))
                else:
                    fs.append(ex.sym(st, f['type'], lambda p, s: fresh('meta' + p, s)))
            yield [StructV(t, fs)], st

    def texts(self, E):
        """[(key, formula: present, text)]"""
        ex, st = E.ex, E.st
        m = themap(ex, st, E.args[0])
        for key in self.key:
            h, x = mapent(ex, st, m, key)
            if h is False:
                continue
            t = ex.P.T('string')
            yield key, z3.And(B(h), tag(x) == ex.P.tagid(t)), ex.unbox(st, t, x)

    def post(self, E):
        ex, st = E.ex, E.st
        for key, has, txt in self.texts(E):
            if not feasible(st, has):
                continue
            s = st.fork()
            s.assume(has)
            if len(self.key) == 1:
                ok = ex.value_eq(s, None, E.retv, txt)
                ex.ob(E.nm("the server's %s {C21,C11}" % key), ok, '%r is not %r' % (E.retv, txt), s)
            else:
                ok = contains(ex, s, E.retv.rope, txt.rope)
                ex.ob(E.nm("the text has the server's %s {C21}" % key), ok, '%r is not in %r' % (txt, E.retv), s)


def contains(ex, st, whole, part):
    """part occurs in whole (found by structure)"""
    if simp(part.len()) == 0:
        return True
    for i in range(len(whole.atoms)):
        r = Rope(whole.atoms[i:i + len(part.atoms)])
        if ex.rope_eq(st, r, part):
            return True
    c = part.conc()
    if c is not None:
        return any(a[0] == 'c' and c in a[1] for a in whole.atoms)
    return valid(st, eq(part.len(), 0))


# ---------------------------------------------------------------- errors.Error
def efields(ex):
    P = ex.P
    fs = P.fields(P.T(TE))
    w = [i for i, f in enumerate(fs) if P.str(f['type']) == 'error'][0]
    m = [i for i, f in enumerate(fs) if P.basic(f['type']) == 'string'][0]
    return w, m


def new_error(ex, st, wrapped, name='e'):
    P = ex.P
    t = P.T(TE)
    w, m = efields(ex)
    fs = [wrapped if i == w else ex.sym(st, f['type'], lambda p, s: fresh(name + '.' + f['name'] + p, s)) for i, f in enumerate(P.fields(t))]
    return PtrV(st.alloc(Cell(StructV(t, fs), t)))


def eptr(ex):
    from conn import PTR
    return ex.P.T('*' + TE) if ex.P.has('*' + TE) else PTR(ex, TE)


errtext = ufn('errtext', Any, Bytes)


def foreign(ex, st):
    """an error of a type of somebody else's"""
    e = lib_error(ex, st, 'cause')
    st.assume(blen(errtext(e.term)) >= 1)
    return e


def failure_value(ex, st):
    t = ex.P.T(MSG + 'FailureMessage')
    return IfaceV(dyn=(t, StructV(t, [ex.sym(st, f['type'], lambda p, s: fresh('fail' + p, s)) for f in ex.P.fields(t)])))


def foreign_text(ex, st, r, a, ins):
    return StrV(rope_of(errtext(r.term if isinstance(r, IfaceV) else r)))


class Chain(Contract):
    """a method of a chain of errors"""
    depth = None

    def must_reach(self, ex, args):
        return []

    def ends(self, ex, st):
        return [NILI, foreign(ex, st)]

    def chain(self, ex, st, n, end):
        e = end
        ps = []
        for i in range(n):
            p = new_error(ex, st, e, 'e%d' % i)
            ps.append(p)
            e = IfaceV(dyn=(eptr(ex), p))
        return list(reversed(ps))

    def setups(self, ex, st0, name):
        for n in (range(1, 6) if self.depth else (1, 2)):
            for k in range(2):
                st = State()
                end = [NILI, None][k] or foreign(ex, st)
                ps = self.chain(ex, st, n, end)
                st.ghost['e.chain'] = tuple(ps)
                st.ghost['e.end'] = end
                args = [ps[0]]
                for p in ex.P.funcs[name]['params'][1:]:
                    x = ex.sym(st, p['t'], lambda q, s: fresh(p['n'] + q, s))
                    if ex.P.intinfo(p['t']):
                        st.assume(I(x) >= 0, I(x) < (1 << 40))
                    args.append(x)
                yield args, st

    def begin(self, ex, st, args, name):
        ex.ctx['e.self'] = name
        return None


class Text(Chain):
    """the text has every message of the chain, and the cause's text"""

    def call(self, ex, st, args, name):
        # induction: the text of the wrapped error, which is shorter
        t = fresh('text', Bytes)
        st.assume(blen(t) >= 0)
        st.ghost['e.texts'] = st.ghost.get('e.texts', ()) + ((args[0].ref, t),)
        return [(st, 'ret', StrV(rope_of(t)))]

    def post(self, E):
        ex, st = E.ex, E.st
        E.gdecl |= {'e.texts'}
        w, m = efields(ex)
        ps = st.ghost['e.chain']
        by = st.ghost.get('e.texts', ())
        for i, p in enumerate(ps):
            known = [t for r, t in by if r == p.ref]
            if known and (i > 0 or E.name not in ex.ctx['e.rec']):
                E.ob(any(contains(ex, st, E.retv.rope, rope_of(t)) for t in known), 'the text has the text of the wrapped error {C21}', repr(E.retv))
                return
            msg = ex.load(E.old, p).f[m]
            E.ob(contains(ex, st, E.retv.rope, msg.rope), 'the text has the message of every error of the chain {C21}', repr(E.retv))
        end = st.ghost['e.end']
        if not end.isnil:
            E.ob(contains(ex, st, E.retv.rope, rope_of(errtext(end.term))), 'the text has the text of the cause {C21}', repr(E.retv))


class Innermost(Chain):
    def call(self, ex, st, args, name):
        r = lib_error(ex, st, 'innermost')
        st.ghost['e.inner'] = st.ghost.get('e.inner', ()) + ((args[0].ref, r),)
        return [(st, 'ret', r)]

    def post(self, E):
        ex, st = E.ex, E.st
        E.gdecl |= {'e.inner'}
        ps = st.ghost['e.chain']
        end = st.ghost['e.end']
        by = dict(st.ghost.get('e.inner', ()))
        got = E.retv
        for i, p in enumerate(ps):
            if p.ref in by and (i > 0 or E.name not in ex.ctx['e.rec']):
                E.ob(got.term is not None and got.term.eq(by[p.ref].term), 'the innermost error of the wrapped error {C21}', repr(got))
                return
        want = end if not end.isnil else IfaceV(dyn=(eptr(ex), ps[-1]))
        E.ob(same_err(ex, st, got, want), 'the original cause {C21}', '%r is not %r' % (got, want))


class Inner(Chain):
    def post(self, E):
        ps = E.st.ghost['e.chain']
        w, m = efields(E.ex)
        E.ob(same_err(E.ex, E.st, E.retv, E.ex.load(E.old, ps[0]).f[w]), 'the wrapped error {C21}', repr(E.retv))


def same_err(ex, st, a, b):
    if a.isnil or b.isnil:
        return a.isnil and b.isnil
    if a.dyn is not None and b.dyn is not None and isinstance(a.dyn[1], PtrV) and isinstance(b.dyn[1], PtrV):
        return a.dyn[1].ref == b.dyn[1].ref and a.dyn[1].path == b.dyn[1].path
    return ex.value_eq(st, None, a, b)


class Make(Contract):
    """errors.New and errors.Wrap"""

    def __init__(self, wrap):
        self.wrap = wrap

    def must_reach(self, ex, args):
        return []

    def setups(self, ex, st0, name):
        for k in range(5 if self.wrap else 1):
            for shape in range(3):
                st = State()
                args = []
                if self.wrap:
                    if k == 0:
                        args.append(foreign(ex, st))
                    elif k == 1:
                        args.append(IfaceV(dyn=(eptr(ex), new_error(ex, st, NILI))))
                    elif k == 2:
                        args.append(IfaceV(dyn=(eptr(ex), new_error(ex, st, IfaceV(dyn=(eptr(ex), new_error(ex, st, foreign(ex, st), 'f')))))))
                    elif k == 3:
                        args.append(failure_value(ex, st))
                    else:
                        args.append(NILI)
                it = ex.P.T('interface{}')
                if shape == 0:
                    args += [fresh_str(st, 'format'), SliceV(None, 0, 0, 0)]
                elif shape == 1:
                    x = fresh_str(st, 'arg')
                    args += [StrV('some %s text'), SliceV(st.alloc(ArrList(it, [IfaceV(dyn=(ex.P.T('string'), x))])), 0, 1, 1)]
                    st.ghost['e.want'] = (StrV('some '), x, StrV(' text'))
                else:
                    args += [StrV('plain text'), SliceV(None, 0, 0, 0)]
                    st.ghost['e.want'] = (StrV('plain text'),)
                yield args, st

    def post(self, E):
        ex, st = E.ex, E.st
        r = E.retv
        E.gdecl |= {'printed'}
        ok = isinstance(r, PtrV) and r.ref is not None
        E.ob(ok, 'makes an error {C21}', repr(r))
        if not ok:
            return
        v = ex.load(st, r)
        w, m = efields(ex)
        if self.wrap:
            E.ob(same_err(ex, st, v.f[w], E.args[0]), 'the error wraps the one given {C21,C11}', repr(v.f[w]))
        else:
            E.ob(v.f[w].isnil, 'the error wraps nothing {C21}', repr(v.f[w]))
        want = st.ghost.get('e.want')
        if want:
            a = []
            for x in want:
                a += list(x.rope.atoms)
            E.ob(ex.rope_eq(st, v.f[m].rope, Rope(a)), 'the message is the text given {C21}', repr(v.f[m]))


def run_results(ex):
    for n, k in STATS.items():
        ex.check(GetNumber(k), R + n)
    ex.check(GetStats(), R + 'GetStats')
    ex.check(Metadata(), R + 'Metadata')
    if BOLT + 'connection.newBoltResult' in ex.P.funcs:
        ex.check(NewResult(), BOLT + 'connection.newBoltResult')


RESULTS = [R + n for n in STATS] + [R + 'GetStats', R + 'Metadata']
ERRORS = [ER + 'Error', ER + 'InnerMost', ER + 'Inner', BOLT + 'errors.New', BOLT + 'errors.Wrap',
          FM + 'GetCode', FM + 'GetMessage', FM + 'Error']


def recursive(P, name):
    """methods of *errors.Error reachable from name that may call themselves again"""
    calls = {}

    def callees(f):
        if f not in calls:
            calls[f] = set()
            fn = P.funcs.get(f)
            for b in (fn['blocks'] or []) if fn else []:
                for i in b['instrs']:
                    c = i.get('fn')
                    if isinstance(c, dict) and c.get('k') == 'func':
                        calls[f].add(c['n'])
        return calls[f]

    def reach(f):
        seen, todo = set(), [f]
        while todo:
            x = todo.pop()
            for y in callees(x):
                if y not in seen:
                    seen.add(y)
                    todo.append(y)
        return seen
    fs = {name} | reach(name)
    return [f for f in fs if f.startswith('(*%s).' % TE) and f in reach(f)]


def run_errors(ex):
    P = ex.P
    saved = MODELS.pop(ER + 'Error', None)
    from exec import INVOKES
    old = INVOKES.get(('error', 'Error'))
    INVOKES[('error', 'Error')] = foreign_text
    bounded = []
    try:
        for name, c in ((ER + 'Error', Text), (ER + 'InnerMost', Innermost)):
            rec = recursive(P, name)
            ex.ctx['e.rec'] = rec
            k = c()
            if not rec:
                # written with a loop: chains up to a fixed length
                k.depth = True
                bounded.append('%s walks the chain with a loop: chains of up to five errors' % short(name))
                ex.bounded = bounded
            for f in rec:
                ex.contracts[f] = k
            for f in rec or [name]:
                saved2 = ex.contracts.get(f)
                ex.check(k, f)
            if name not in rec and rec:
                ex.check(k, name)
            for f in rec:
                del ex.contracts[f]
        ex.check(Inner(), ER + 'Inner')
        ex.check(Make(False), BOLT + 'errors.New')
        ex.check(Make(True), BOLT + 'errors.Wrap')
        ex.check(Failure(('code',)), FM + 'GetCode')
        ex.check(Failure(('message',)), FM + 'GetMessage')
        ex.check(Failure(('code', 'message')), FM + 'Error')
    finally:
        if saved:
            MODELS[ER + 'Error'] = saved
        if old:
            INVOKES[('error', 'Error')] = old


@model('strings.Repeat')
def _(ex, st, a, ins):
    if a[0].rope.conc() is not None and isinstance(a[1], int):
        return StrV(a[0].rope.conc().decode('latin1') * a[1]) if a[1] >= 0 else [(st, 'panic', 'negative Repeat count')]
    if not valid(st, le(0, a[1])):
        return [(st, 'panic', 'negative Repeat count')]
    return fresh_str(st, 'repeat')
