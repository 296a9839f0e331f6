"""The routing table (C16): from the cluster overview to the strings connections are opened with.

The overview is a list of rows of any length with any contents.  Three uninterpreted pairs of functions describe the
right table: cnt_X(k) rows among the first k are placed under role X, and sel_X(j) is the j-th of them; they are given
by their recurrence, unfolded at the row a loop is at."""
import z3
from core import *
from values import *
from exec import INVOKES, MODELS
from prove import short, err_is_nil
from conn import BOLT
import pools
import urlmodel
from pools import ROUTING, bconn, newconn, steps

H = ROUTING + 'boltRoutingHandler'
REFRESH = '(*%s).refreshClusterInfo' % H
WRITES = '(*%s).getWriteConnectionStrings' % H
READS = '(*%s).getReadOnlyConnectionString' % H
ROLES = ('leader', 'follower', 'read_replica')
cnt = {x: ufn('rt.cnt:' + x, Int, Int) for x in ROLES}
sel = {x: ufn('rt.sel:' + x, Int, Int) for x in ROLES}
allstr = ufn('rt.allstr', Any, Bool)
boltof = ufn('rt.boltof', Any, Bytes, Bool)
nobolt = ufn('rt.nobolt', Any, Bool)
wit = ufn('rt.witness', Any, Int)
bwit = ufn('rt.boltwitness', Any, Int)
okrow = ufn('rt.okrow', Any, Bool)          # a row that may be accepted
strict = ufn('rt.strictrow', Any, Bool)     # a row that must be accepted
hp = ufn('rt.isbolt', Bytes, Bool)
lower = ufn('tolower', Bytes, Bytes)
j_ = z3.Int('rt.j')


class Terms:
    """what rows are made of"""

    def __init__(self, ex):
        P = self.P = ex.P
        self.ex = ex
        self.ET = P.T('[]interface{}')
        self.S = P.T('string')
        self.MT = P.T('map[string]interface{}')
        self.alen = ex.fldfn(self.ET, '.len', Int)
        self.aarr = ex.fldfn(self.ET, '.arr', AnyArr)
        self.str = ex.fldfn(self.S, '', Bytes)
        self.map = ex.fldfn(self.MT, '.map', GMap)

    def isstr(self, x):
        return tag(x) == self.P.tagid(self.S)

    def islist(self, x):
        return tag(x) == self.P.tagid(self.ET)

    def elem(self, r, i):
        return z3.Select(self.aarr(r), i)

    def lit(self, st, s):
        return self.ex.bterm(st, StrV(s).rope)

    def role(self, st, r, v4):
        if not v4:
            return self.elem(r, 2)
        return gget(self.map(self.elem(r, 2)), self.lit(st, 'system'))

    def shape(self, st, r, v4):
        e = lambda i: self.elem(r, i)
        c = [self.isstr(e(0)), self.islist(e(1)), allstr(e(1))]
        if v4:
            c += [self.alen(r) == 4, tag(e(2)) == self.P.tagid(self.MT), ghas(self.map(e(2)), self.lit(st, 'system'))]
        else:
            c += [self.alen(r) == 5, self.islist(e(3)), allstr(e(3)), self.isstr(e(4))]
        return z3.And(*(c + [self.isstr(self.role(st, r, v4))]))

    def isrole(self, st, r, x, v4):
        return lower(self.str(self.role(st, r, v4))) == self.lit(st, x)

    def placed(self, st, r, x, v4):
        return z3.And(self.shape(st, r, v4), z3.Not(nobolt(r)), self.isrole(st, r, x, v4))

    def defs(self, st, r, v4):
        """the definitions of the predicates at row r"""
        a = self.elem(r, 1)
        for l in (a,) if v4 else (a, self.elem(r, 3)):
            x = self.elem(l, j_)
            st.assume(z3.ForAll([j_], z3.Implies(z3.And(allstr(l), j_ >= 0, j_ < self.alen(l)), self.isstr(x)), patterns=[x]))
            st.assume(z3.Implies(z3.Not(allstr(l)), z3.And(wit(l) >= 0, wit(l) < self.alen(l), z3.Not(self.isstr(self.elem(l, wit(l)))))))
        x = self.elem(a, j_)
        inr = z3.And(j_ >= 0, j_ < self.alen(a))
        st.assume(z3.ForAll([j_], z3.Implies(z3.And(inr, hp(self.str(x))), z3.And(boltof(r, self.str(x)), z3.Not(nobolt(r)))), patterns=[x]))
        w = bwit(r)
        st.assume(z3.Implies(z3.Not(nobolt(r)), z3.And(w >= 0, w < self.alen(a), hp(self.str(self.elem(a, w))))))
        known = z3.Or(*[self.isrole(st, r, x, v4) for x in ROLES])
        st.assume(okrow(r) == z3.And(self.shape(st, r, v4), z3.Or(nobolt(r), known)))
        st.assume(strict(r) == z3.And(self.shape(st, r, v4), known))

    def unfold(self, st, R, k, v4):
        """the recurrences at row k"""
        r = z3.Select(R, k)
        st.assume(self.islist(r), self.alen(r) >= 0)
        self.defs(st, r, v4)
        for x in ROLES:
            p = self.placed(st, r, x, v4)
            c = cnt[x]
            st.assume(c(k + 1) == c(k) + z3.If(p, z3.IntVal(1), z3.IntVal(0)), c(k) >= 0, z3.Implies(p, sel[x](c(k)) == k))


def guess(L, o, depth=0):
    """value of an operand when the loop is entered (a guess of what it is for; what is said about it is proved)"""
    v = L.outer(o)
    if v is not None or o['k'] != 'reg' or depth > 4:
        return v
    d = L.defs.get(o['n'])
    if d is None:
        return None
    if d['op'] == 'UnOp' and d.get('tok') == '*':
        p = guess(L, d['x'], depth + 1)
        if isinstance(p, PtrV) and isinstance(p.ref, int):
            try:
                return L.ex.load(L.st0, p)
            except (Unsupported, KeyError):
                return None
    if d['op'] == 'FieldAddr':
        p = guess(L, d['x'], depth + 1)
        if isinstance(p, PtrV) and isinstance(p.ref, int):
            return PtrV(p.ref, p.path + (L.ex.fieldkey(d['x']['t'], d['field']),))
    return None


def sources(L):
    """slices the loop reads by index: [(slice, element type)]"""
    out = []
    for i in L.instrs():
        if i['op'] in ('IndexAddr', 'Index'):
            v = guess(L, i['x'])
            if isinstance(v, SliceV) and v.ref is not None:
                out.append((v, L.ex.P.elem(i['x']['t']), i))
    return out


def written(L):
    """registers of the addresses the loop stores to"""
    return {i['addr']['n'] for i in L.instrs() if i['op'] == 'Store' and i['addr']['k'] == 'reg'}


def strfields(ex, et):
    """[(path, function from element term to string term)] of an element type"""
    P = ex.P
    if P.basic(et) == 'string':
        return [((), lambda x: x)]
    if P.kind(et) == 'struct':
        return [((i,), lambda x, i=i: ex.fldfn(et, '.%d' % i, Bytes)(x)) for i, f in enumerate(P.fields(et)) if P.basic(f['type']) == 'string']
    return []


class Houdini:
    """candidate facts; what is not inductive is dropped"""

    def drop(self, L, dead):
        if dead:
            L.dropped |= set(dead)
            L.again = True

    def alive(self, L, c):
        if not hasattr(L, 'dropped'):
            L.dropped = set()
        return c not in L.dropped


class RowsLoop(Houdini):
    """the loop over the rows: lists filled so far hold exactly what the rows seen so far put there"""

    def applies(self, L):
        rows = L.ex.ctx.get('rt.rows')
        if rows is None:
            return None
        for v, et, i in sources(L):
            if v.ref == rows['ref']:
                return (v, et)
        return None

    def lists(self, L, st, cur):
        """[(name, slice, type)] of the slices the loop changes"""
        ex = L.ex
        out = []
        for r, (ins, v0) in L.phis.items():
            if r in cur and isinstance(cur[r], SliceV):
                out.append((('phi', r), cur[r], ins['t']))
        for ref, path in sorted(L.freed, key=repr):
            o = st.heap.get(ref)
            if isinstance(o, Cell) and o.t is not None:
                for p, v, t in inside(ex, o.v, o.t):
                    out.append((('cell', ref, p), v, t))
        return out

    def inv(self, L, M):
        ex, st, k = L.ex, M.st, M.k
        c = ex.ctx['rt.rows']
        R, v4, T = c['R'], c['v4'], c['T']
        b = lambda x: I(x)
        if M.mode == 'init':
            L.dropped = set()
            L.lazy = True
            for x in ROLES:
                st.assume(cnt[x](0) == 0)
        if M.mode == 'havoc':
            for r, (ins, v0) in L.phis.items():
                if isinstance(v0, SliceV):
                    M.cur[r] = ex.sym(st, ins['t'], lambda p, s: fresh('list' + p, s))
            for ref, path in L.freed:
                o = st.heap[ref]
                if isinstance(o, Cell) and o.t is not None:
                    st.heap[ref] = Cell(ex.sym(st, o.t, lambda p, s: fresh('cell' + p, s)), o.t)
                    M.decl.add((ref, ()))
            T.unfold(st, R, k, v4)
            M.fact(z3.ForAll([j_], z3.Implies(z3.And(j_ >= 0, j_ < k), okrow(z3.Select(R, j_))), patterns=[z3.Select(R, j_)]))
            M.fact(le(k, c['n']))
            for x in ROLES:
                st.assume(cnt[x](k) >= 0)
        else:
            i = fresh('i', Int)
            s2 = st.fork()
            s2.assume(i >= 0, i < I(k))
            ok = M.mode == 'init' or valid(s2, okrow(z3.Select(R, i)))
            ex.ob(M.nm('every row seen is well formed, its role known {C16}'), ok, 'a row that is not is accepted', st)
        dead = []
        for nm, v, t in self.lists(L, st, M.cur):
            et = ex.P.elem(t)
            for path, f in strfields(ex, et):
                for x in ROLES:
                    key = (nm, path, x)
                    if not self.alive(L, key):
                        continue
                    arr, n = ex.slice_arr(st, v, et)
                    if M.mode == 'havoc':
                        e = z3.Select(arr, j_)
                        st.assume(I(n) == cnt[x](k))
                        st.assume(z3.ForAll([j_], z3.Implies(z3.And(j_ >= 0, j_ < I(n)), boltof(z3.Select(R, sel[x](j_)), f(e))), patterns=[e]))
                        continue
                    ok = valid(st, I(n) == cnt[x](I(k)), 4000)
                    if ok:
                        i = fresh('i', Int)
                        s2 = st.fork()
                        s2.assume(i >= 0, i < I(n))
                        ok = not feasible(s2)
                        if not ok:
                            e = z3.Select(arr, i)
                            ok = True
                            for cc in (i == I(n) - 1, i < I(n) - 1):
                                s3 = s2.fork()
                                s3.assume(cc)
                                ok = ok and valid(s3, boltof(z3.Select(R, sel[x](i)), f(e)), 6000)
                    if not ok:
                        dead.append(key)
        if M.mode == 'init':
            L.dropped |= set(dead)
        elif dead:
            self.drop(L, dead)


def inside(ex, v, t, path=()):
    """[(path, slice, type)] inside a struct"""
    if isinstance(v, SliceV):
        return [(path, v, t)]
    if isinstance(v, StructV):
        out = []
        for i, (f, x) in enumerate(zip(ex.P.fields(t), v.f)):
            out += inside(ex, x, f['type'], path + (i,))
        return out
    return []


class ScanLoop(Houdini):
    """a loop over one slice, of interface values, strings or servers: what it has found and copied so far"""

    def applies(self, L):
        ex = L.ex
        if ex.ctx.get('rt.rows') is None:
            return None
        w = written(L)
        src = []
        dst = []
        for v, et, i in sources(L):
            P = ex.P
            if i.get('r') in w and P.basic(et) == 'string':
                dst.append((v, et))
                continue
            if i.get('r') in w:
                return None
            if P.kind(et) == 'iface' or strfields(ex, et):
                src.append((v, et))
        if not src or any(s[0].ref != src[0][0].ref for s in src):
            return None
        return (src[0], dst)

    def texts(self, L):
        """[(name, function from index to string term)] of what an element of the source says"""
        ex = L.ex
        (src, et), _ = L.d
        arr, n = ex.slice_arr(L.st0, src, et)
        T = ex.ctx['rt.rows']['T']
        if ex.P.kind(et) == 'iface':
            return arr, n, [('str', lambda i: T.str(z3.Select(arr, i)))]
        return arr, n, [(p, lambda i, f=f: f(z3.Select(arr, i))) for p, f in strfields(ex, et)]

    def cands(self, L):
        """[(key, assume(M), prove(M) -> bool)]"""
        ex = L.ex
        (src, et), dsts = L.d
        T = ex.ctx['rt.rows']['T']
        arr, n, texts = self.texts(L)
        x = z3.Select(arr, j_)
        out = []

        # the elements seen after k rounds, in a loop that goes up or down, and the last of them
        up = lambda i, k: z3.And(i >= 0, i < I(k))
        dirs = [('up', up, lambda k: I(k) - 1)]
        for r, step in sorted(L.steps.items()):
            if step == -1:
                v0 = I(L.phis[r][1])
                dirs.append(('down ' + r, lambda i, k, v0=v0: z3.And(i <= v0, i > v0 - I(k)), lambda k, v0=v0: v0 + 1 - I(k)))

        def forall(st, k, f, pat, rng=up):
            st.assume(z3.ForAll([j_], z3.Implies(rng(j_, k), f(j_)), patterns=[pat(j_)]))

        def each(st, k, f, rng=up, last=dirs[0][2]):
            i = fresh('i', Int)
            ok = True
            for c in (i == last(k), i != last(k)):
                s = st.fork()
                s.assume(rng(i, k), c)
                ok = ok and (not feasible(s) or valid(s, f(i), 5000))
            return ok
        at = lambda i: z3.Select(arr, i)
        if ex.P.kind(et) == 'iface':
            f = lambda i: T.isstr(at(i))
            out.append(('strings', lambda M: forall(M.st, M.k, f, at), lambda M: each(M.st, M.k, f)))
        for nm, txt in texts:
            # nothing found (loops that stop at the first)
            for dn, rng, last in dirs:
                out.append((('none', nm, dn), lambda M, txt=txt, rng=rng: forall(M.st, M.k, lambda i: z3.Not(hp(txt(i))), at, rng),
                            lambda M, txt=txt, rng=rng, last=last: each(M.st, M.k, lambda i: z3.Not(hp(txt(i))), rng, last)))
            # copied by index
            for d, det in dsts:
                def mk(M, d=d, det=det, txt=txt):
                    a = ex.slice_arr(M.st, d, det)[0]
                    e = lambda i: z3.Select(a, i)
                    forall(M.st, M.k, lambda i: e(i) == txt(i), e)

                def pr(M, d=d, det=det, txt=txt):
                    a = ex.slice_arr(M.st, d, det)[0]
                    return each(M.st, M.k, lambda i: z3.Select(a, i) == txt(i))
                out.append((('copy', nm, d.ref), mk, pr))
            for r, (ins, v0) in L.phis.items():
                if isinstance(v0, SliceV) and ex.P.basic(ex.P.elem(ins['t'])) == 'string':
                    # appended
                    a0, n0 = ex.slice_arr(L.st0, v0, ex.P.elem(ins['t']))

                    def mk(M, r=r, ins=ins, txt=txt, a0=a0, n0=n0):
                        v = M.cur[r]
                        a, m = ex.slice_arr(M.st, v, ex.P.elem(ins['t']))
                        M.st.assume(I(m) == I(n0) + I(M.k))
                        e = z3.Select(a, j_)
                        M.st.assume(z3.ForAll([j_], z3.Implies(z3.And(j_ >= 0, j_ < I(m)),
                                                               e == z3.If(j_ < I(n0), z3.Select(a0, j_), txt(j_ - I(n0)))), patterns=[e]))

                    def pr(M, r=r, ins=ins, txt=txt, a0=a0, n0=n0):
                        a, m = ex.slice_arr(M.st, M.cur[r], ex.P.elem(ins['t']))
                        if not valid(M.st, I(m) == I(n0) + I(M.k), 4000):
                            return False
                        return each(M.st, m, lambda i: z3.Select(a, i) == z3.If(i < I(n0), z3.Select(a0, i), txt(i - I(n0))))
                    out.append((('append', nm, r), mk, pr))
                for dn, rng, last in dirs:
                    self.finds(L, out, nm, txt, at, each, r, ins, v0, dn, rng, last)
        return out

    def finds(self, L, out, nm, txt, at, each, r, ins, v0, dn, rng, last):
        ex = L.ex
        none = lambda M: z3.ForAll([j_], z3.Implies(rng(j_, M.k), z3.Not(hp(txt(j_)))), patterns=[at(j_)])
        unseen = lambda s, M: each(s, M.k, lambda i: z3.Not(hp(txt(i))), rng, last)
        wits = lambda M: [w for w in (L.wits.get((nm, r, dn), z3.IntVal(0)), last(M.k))]
        if isinstance(v0, StrV):
            # found
            def mk(M):
                w = fresh('w', Int)
                p = ex.bterm(M.st, M.cur[r].rope)
                i0 = ex.bterm(M.st, v0.rope)
                L.wits[(nm, r, dn)] = w
                M.st.assume(z3.Or(z3.And(p == i0, none(M)), z3.And(rng(w, M.k), p == txt(w), hp(p), blen(p) >= 7)))

            def pr(M):
                p = ex.bterm(M.st, M.cur[r].rope)
                i0 = ex.bterm(M.st, v0.rope)
                found = z3.Or(*[z3.And(rng(w, M.k), p == txt(w), hp(p)) for w in wits(M)])
                if valid(M.st, found, 4000):
                    return True
                s = M.st.fork()
                s.assume(z3.Not(found))
                return valid(s, p == i0, 4000) and unseen(s, M)
            out.append((('found', nm, r, dn), mk, pr))
        if ex.P.basic(ins['t']) == 'bool' and simp(B(v0)) is False:
            def mk(M):
                w = fresh('w', Int)
                b = B(M.cur[r])
                L.wits[(nm, r, dn)] = w
                M.st.assume(z3.Or(z3.And(z3.Not(b), none(M)), z3.And(b, rng(w, M.k), hp(txt(w)))))

            def pr(M):
                b = B(M.cur[r])
                found = z3.And(b, z3.Or(*[z3.And(rng(w, M.k), hp(txt(w))) for w in wits(M)]))
                if valid(M.st, found, 4000):
                    return True
                s = M.st.fork()
                s.assume(z3.Not(found))
                return valid(s, z3.Not(b), 4000) and unseen(s, M)
            out.append((('flag', nm, r, dn), mk, pr))

    def inv(self, L, M):
        ex, st = L.ex, M.st
        (src, et), dsts = L.d
        if M.mode == 'init':
            L.dropped = set()
            L.lazy = True
            L.wits = {}
            arr, n, _ = self.texts(L)
            L.n = n
        if M.mode == 'havoc':
            st.assume(B(le(M.k, L.n)))
            for d, det in dsts:
                o = st.heap[d.ref]
                st.heap[d.ref] = ArrZ(det, fresh('copied', z3.ArraySort(Int, ex.esort(det))), d.cap)
                M.decl.add((d.ref, ()))
            for r, (ins, v0) in L.phis.items():
                if r not in M.cur:
                    M.cur[r] = ex.sym(st, ins['t'], lambda p, s: fresh('phi' + p, s))
        elif M.mode == 'back':
            ex.prove(st, le(M.k, L.n), M.nm('within the source'))
        dead = []
        for key, mk, pr in self.cands(L):
            if not self.alive(L, key):
                continue
            if M.mode == 'havoc':
                mk(M)
            elif not pr(M):
                dead.append(key)
        if M.mode == 'init':
            L.dropped |= set(dead)
        elif dead:
            self.drop(L, dead)


def prefix_model(ex, st, a, ins):
    p = a[1].rope.conc()
    if p == b'bolt://' and a[0].rope.conc() is None:
        t = ex.bterm(st, a[0].rope)
        st.assume(z3.Implies(hp(t), blen(t) >= 7))
        return hp(t)
    return old_prefix(ex, st, a, ins)


old_prefix = MODELS['strings.HasPrefix']


def table_state(ex, st):
    """a handler holding any table"""
    P = ex.P
    t = P.T(H)
    v = ex.sym(st, t, lambda p, s: fresh('table' + p, s))
    return PtrV(st.alloc(Cell(v, t)))


def run_table(ex):
    T = Terms(ex)
    nm = lambda w: 'routing table: %s {C16}' % w
    ex.loopspecs = [RowsLoop(), ScanLoop()]
    MODELS['strings.HasPrefix'] = prefix_model
    try:
        for v4 in (True, False):
            one_version(ex, T, v4, nm)
        # no connection to ask
        ex.top = REFRESH
        st = State()
        h = table_state(ex, st)
        old = ex.load(st, h)
        ex.ctx['rt.rows'] = None
        for s, r in steps(ex, st, REFRESH, [h, NILI]):
            ex.prove(s, Not(err_is_nil(ex, s, r)), nm('without a connection there is an error'))
            ex.ob(nm('without a connection the table stays'), ex.value_eq(s, None, ex.load(s, h), old), '', s)
    finally:
        MODELS['strings.HasPrefix'] = old_prefix
        ex.loopspecs = []


def one_version(ex, T, v4, nm):
    P = ex.P
    ex.top = REFRESH
    st = State()
    h = table_state(ex, st)
    old = ex.load(st, h)
    c = newconn(ex, st, 1)
    if v4:
        ver = 4
    else:
        ver = fresh('version', Int)
        st.assume(ver >= 1, ver <= 3)
    st.ghost['rt.version'] = ver
    R = fresh('rows', AnyArr)
    n = fresh('nrows', Int)
    st.assume(n >= 0, n < (1 << 40))
    RT = P.T('[][]interface{}') if P.has('[][]interface{}') else None

    def onquery(ex, s, a, name):
        q = a[0].rope.conc()
        ex.ob(nm('the cluster overview is asked for'), q is not None and q.strip().rstrip(b';').lower() == b'call dbms.cluster.overview()', repr(a[0]), s)
        db = a[2].rope.conc() if name == 'QueryWithDb' else None
        want = b'system' if v4 else (None, b'')
        ex.ob(nm('the system database is asked where there are databases'), db == want if v4 else db in want, repr(a[2:]), s)
        ref = s.alloc(ArrZ(T.ET, R, n, True))
        ex.ctx['rt.rows'] = {'ref': ref, 'R': R, 'n': n, 'v4': v4, 'T': T}
        return SliceV(ref, 0, n, n)
    ex.ctx['overview'] = onquery
    seen = set()
    for s, r in steps(ex, st, REFRESH, [h, c]):
        for s2, good in pools.fork2(ex, s, B(err_is_nil(ex, s, r))):
            if not good:
                ex.ob(nm('an error leaves the table as it was'), ex.value_eq(s2, None, ex.load(s2, h), old), 'changed', s2)
                if s2.ghost.get('rt.queryfailed'):
                    seen.add('failed')
                    continue
                seen.add('error')
                s3 = s2.fork()
                s3.assume(z3.ForAll([j_], z3.Implies(z3.And(j_ >= 0, j_ < n), strict(z3.Select(R, j_))), patterns=[z3.Select(R, j_)]))
                ex.ob(nm('an overview without fault is no error'), not feasible_full(s3), 'refused', s3)
                continue
            seen.add('ok')
            ex.ob(nm('a failed query is an error'), not s2.ghost.get('rt.queryfailed'), 'no error', s2)
            if s2.ghost.get('rt.queryfailed') or ex.ctx.get('rt.rows') is None:
                continue
            i = fresh('i', Int)
            s3 = s2.fork()
            s3.assume(i >= 0, i < n)
            ex.ob(nm('a malformed row or an unknown role is an error'), valid(s3, okrow(z3.Select(R, i))), 'accepted', s3)
            ex.top = WRITES
            for s4, w in steps(ex, s2.fork(), WRITES, [h]):
                isparts(ex, s4, w, R, n, [['leader']], nm('writes go to the leaders, in row order'))
            ex.top = READS
            for s4, w in steps(ex, s2.fork(), READS, [h]):
                isparts(ex, s4, w, R, n, [['follower', 'read_replica'], ['read_replica', 'follower']], nm('reads go to followers and read replicas, in row order'))
            ex.top = REFRESH
    for w in ('ok', 'failed', 'error'):
        ex.ob(nm('reached: ' + w), w in seen, 'never')


def feasible_full(st):
    return not valid(st, False, 10000)


def isparts(ex, st, v, R, n, orders, name):
    """the strings are the bolt addresses of the rows of these roles, one after the other"""
    arr, m = ex.slice_arr(st, v, ex.P.T('string'))
    for x in ROLES:
        st.assume(cnt[x](n) >= 0)
    if not valid(st, I(m) == z3.Sum([cnt[x](n) for x in orders[0]]), 8000):
        ex.ob(name, False, 'not as many', st)
        return
    for o in orders:
        ok = True
        base = z3.IntVal(0)
        for x in o:
            i = fresh('i', Int)
            s = st.fork()
            s.assume(i >= 0, i < cnt[x](n))
            ok = ok and valid(s, boltof(z3.Select(R, sel[x](i)), z3.Select(arr, base + i)), 8000)
            base = base + cnt[x](n)
        if ok:
            ex.ob(name, True)
            return
    ex.ob(name, False, 'not those', st)
