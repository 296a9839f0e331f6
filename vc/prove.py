"""Goal directed equality, and function contracts."""
import time
import z3
from core import *
from values import *
from exec import Engine, Oblig

CONGR = set()   # spec functions f(array, n) that only depend on the first n elements of the array
UNFOLD = {}     # name of a Bytes-valued spec function -> f(ex, st, term) -> Rope or None


def unfolder(name):
    def d(f):
        UNFOLD[name] = f
        return f
    return d


class Prover(Engine):
    # ============================================================ ropes
    def rope_eq(self, st, a, b, budget=60):
        la, lb = list(self.expand(st, a).atoms), list(self.expand(st, b).atoms)
        while True:
            budget -= 1
            if budget < 0:
                return False
            self.trim(st, la)
            self.trim(st, lb)
            if not la and not lb:
                return True
            if not la or not lb:
                rest = la or lb
                n = Rope(rest).len()
                if valid(st, eq(n, 0)):
                    return True
                # an unfoldable blob may turn out empty
                u = self.unfold_atom(st, rest[0])
                if u is not None:
                    rest[0:1] = list(u.atoms)
                    continue
                return False
            x, y = la[0], lb[0]
            if x[0] == 's' and y[0] == 's':
                if x[1].eq(y[1]) or valid(st, x[1] == y[1], 3000):
                    if same(simp(x[2]), simp(y[2])) or valid(st, eq(x[2], y[2])):
                        nx, ny = x[3], y[3]
                        if same(simp(nx), simp(ny)) or valid(st, eq(nx, ny)):
                            la.pop(0)
                            lb.pop(0)
                            continue
                        if valid(st, le(nx, ny)):
                            la.pop(0)
                            lb[0] = ('s', y[1], add(y[2], nx), sub(ny, nx))
                            continue
                        if valid(st, le(ny, nx)):
                            lb.pop(0)
                            la[0] = ('s', x[1], add(x[2], ny), sub(nx, ny))
                            continue
                        return False
            if x[0] == 'c' and y[0] == 'c':
                n = min(len(x[1]), len(y[1]))
                if x[1][:n] != y[1][:n]:
                    return valid(st, False)
                la[0], lb[0] = ('c', x[1][n:]), ('c', y[1][n:])
                if not la[0][1]:
                    la.pop(0)
                if not lb[0][1]:
                    lb.pop(0)
                continue
            if x[0] == 'be' and y[0] == 'be' and x[2] == y[2]:
                if valid(st, z3.And((I(x[1]) - I(y[1])) % (1 << (8 * x[2])) == 0)) or valid(st, eq(x[1], y[1])):
                    la.pop(0)
                    lb.pop(0)
                    continue
                return False
            if x[0] == 'z' and y[0] == 'z':
                if valid(st, eq(x[1], y[1])):
                    la.pop(0)
                    lb.pop(0)
                    continue
            # single bytes
            fx, fy = self.first(st, x), self.first(st, y)
            if fx is not None and fy is not None:
                if not valid(st, eq(fx[0], fy[0])):
                    return False
                la[0:1] = fx[1]
                lb[0:1] = fy[1]
                continue
            if x[0] == 's' and y[0] == 's' and self.congr(st, x, y):
                la.pop(0)
                lb.pop(0)
                continue
            # spec blobs
            u = self.unfold_atom(st, x)
            if u is not None:
                la[0:1] = list(u.atoms)
                continue
            u = self.unfold_atom(st, y)
            if u is not None:
                lb[0:1] = list(u.atoms)
                continue
            # empty atoms
            if valid(st, eq(atom_len(x), 0), 2000):
                la.pop(0)
                continue
            if valid(st, eq(atom_len(y), 0), 2000):
                lb.pop(0)
                continue
            return False

    def congr(self, st, x, y):
        """two blobs f(A, n) and f(B, m): n = m and A, B agree below n"""
        for z in (x, y):
            if not (same(simp(z[2]), 0) and z3.is_app(z[1]) and z[1].decl().name() in CONGR and
                    same(simp(I(z[3])), simp(blen(z[1])))):
                return False
        if not x[1].decl().eq(y[1].decl()):
            return False
        a, n = x[1].arg(0), x[1].arg(1)
        b, m = y[1].arg(0), y[1].arg(1)
        if not valid(st, n == m):
            return False
        j = fresh('j', Int)
        return valid(st, z3.Implies(z3.And(j >= 0, j < n), z3.Select(a, j) == z3.Select(b, j)))

    def trim(self, st, l):
        l[:] = list(Rope(l).atoms)
        while l and isinstance(simp(atom_len(l[0])), int) and simp(atom_len(l[0])) == 0:
            l.pop(0)

    def first(self, st, a):
        """first byte of an atom and the atoms after it"""
        if a[0] == 'c':
            return a[1][0], ([('c', a[1][1:])] if len(a[1]) > 1 else [])
        if a[0] == 'b':
            return a[1], []
        if a[0] == 'be':
            n = a[2]
            x = I(a[1])
            hi = simp((x / (1 << (8 * (n - 1)))) % 256)
            return hi, ([('be', x, n - 1)] if n > 1 else [])
        if a[0] == 's' and self.unfold_atom(st, a) is None and valid(st, lt(0, a[3]), 3000):
            x = bat(a[1], I(a[2]))
            st.assume(x >= 0, x <= 255)
            return x, [('s', a[1], add(a[2], 1), sub(a[3], 1))]
        return None

    def unfold_atom(self, st, a):
        if a[0] != 's' or not same(simp(a[2]), 0):
            return None
        t = a[1]
        if not same(simp(I(a[3])), simp(blen(t))):
            return None
        f = UNFOLD.get(t.decl().name()) if z3.is_app(t) else None
        if f is None:
            return None
        r = f(self, st, t)
        if r is None:
            return None
        st.assume(blen(t) == I(r.len()))
        return r

    # ============================================================ values
    def value_eq(self, st, t, a, b, depth=0):
        """prove two values equal; t may be None"""
        if a is b:
            return True
        if b is ANY:
            return True
        if isinstance(b, Pred):
            return b.f(self, st, a)
        if isinstance(a, StrV) and isinstance(b, StrV):
            return self.rope_eq(st, a.rope, b.rope) or valid(st, self.str_eq(st, a.rope, b.rope))
        if isinstance(a, IfaceV) and isinstance(b, IfaceV):
            return self.iface_veq(st, a, b, depth)
        if isinstance(a, StructV) and isinstance(b, StructV):
            if len(a.f) != len(b.f):
                return False
            ts = [f['type'] for f in self.P.fields(b.t if b.t is not None else a.t)]
            return all(self.value_eq(st, tt, x, y, depth) for tt, x, y in zip(ts, a.f, b.f))
        if isinstance(a, TupleV) and isinstance(b, TupleV):
            return len(a.f) == len(b.f) and all(self.value_eq(st, None, x, y, depth) for x, y in zip(a.f, b.f))
        if isinstance(a, ArrayV) and isinstance(b, ArrayV):
            return len(a.f) == len(b.f) and all(self.value_eq(st, None, x, y, depth) for x, y in zip(a.f, b.f))
        if isinstance(a, SliceV) and isinstance(b, SliceV):
            return self.slice_veq(st, t, a, b, depth)
        if isinstance(a, MapV) and isinstance(b, MapV):
            return self.map_veq(st, a, b, depth)
        if isinstance(a, PtrV) and isinstance(b, PtrV):
            if a.path != b.path:
                return False
            if a.ref is None or b.ref is None:
                z = b if a.ref is None else a
                return True if z.ref is None else (valid(st, eq(z.ref, 0)) if is_z(z.ref) else False)
            return valid(st, eq(a.ref, b.ref))
        if isinstance(a, FloatV) and isinstance(b, FloatV):
            return valid(st, a.t == b.t)
        if isinstance(a, OpaqueV) and isinstance(b, OpaqueV):
            return valid(st, a.term == b.term)
        if isinstance(a, FuncV) and isinstance(b, FuncV):
            return a.name == b.name and a.native == b.native
        if isinstance(a, NatV) and isinstance(b, NatV):
            return self.nat_veq(st, a, b)
        if isinstance(a, IterV) and isinstance(b, IterV):
            return a.ref == b.ref
        if isinstance(a, (int, bool)) or is_z(a):
            if isinstance(b, (int, bool)) or is_z(b):
                return valid(st, eq(a, b))
        return False

    def nat_veq(self, st, a, b):
        if a.kind != b.kind:
            return False
        if a.kind == 'Buf':
            return self.rope_eq(st, a.d['rope'], b.d['rope'])
        if set(a.d) != set(b.d):
            return False
        for k in a.d:
            x, y = a.d[k], b.d[k]
            if isinstance(x, V):
                if not self.value_eq(st, None, x, y):
                    return False
            elif is_z(x) or is_z(y):
                if is_z(x) and is_z(y) and x.sort() == y.sort():
                    if not valid(st, x == y):
                        return False
                elif not valid(st, eq(x, y)):
                    return False
            elif x != y:
                return False
        return True

    def slice_veq(self, st, t, a, b, depth):
        if a.ref is not None and a.ref == b.ref and same(simp(a.off), simp(b.off)):
            return valid(st, eq(a.len, b.len))
        if not valid(st, eq(a.len, b.len)):
            return False
        oa = st.heap.get(a.ref)
        ob = st.heap.get(b.ref)
        if isinstance(oa, ArrRope) or isinstance(ob, ArrRope):
            return self.rope_eq(st, self.slice_rope(st, a), self.slice_rope(st, b))
        et = (oa or ob).et if (oa or ob) is not None else None
        if et is None:
            return True
        if isinstance(a.len, int) and isinstance(oa, ArrList) and isinstance(a.off, int) and a.len <= 64:
            eb = self.elems(st, SliceV(b.ref, b.off, a.len, b.cap), et) if b.ref is not None else []
            ea = self.elems(st, a, et)
            return all(self.value_eq(st, et, x, y, depth) for x, y in zip(ea, eb))
        if isinstance(b.len, int) and b.len <= 64:
            ea = self.elems(st, SliceV(a.ref, a.off, b.len, a.cap), et) if a.ref is not None else []
            eb = self.elems(st, b, et) if b.ref is not None else []
            return all(self.value_eq(st, et, x, y, depth) for x, y in zip(ea, eb))
        xa, _ = self.slice_arr(st, a, et)
        xb, _ = self.slice_arr(st, b, et)
        if xa.eq(xb):
            return True
        j = fresh('j', Int)
        return valid(st, z3.Implies(z3.And(j >= 0, j < I(a.len)), z3.Select(xa, j) == z3.Select(xb, j)))

    def map_veq(self, st, a, b, depth):
        if a.ref == b.ref:
            return True
        if a.ref is None or b.ref is None:
            return False
        oa, ob = st.heap[a.ref], st.heap[b.ref]
        if (oa.term is None) != (ob.term is None):
            ta, tb = self.mobj_term(st, oa), self.mobj_term(st, ob)
            return valid(st, ta == tb)
        if oa.term is not None and not valid(st, oa.term == ob.term):
            ta, tb = self.mobj_term(st, oa), self.mobj_term(st, ob)
            return valid(st, ta == tb)
        et = self.P.elem(oa.t)
        if oa.term is None and all(k.rope.conc() is not None for k, _ in oa.ents + ob.ents):
            da = {k.rope.conc(): v for k, v in oa.ents}
            db = {k.rope.conc(): v for k, v in ob.ents}
            return set(da) == set(db) and all(self.value_eq(st, et, da[k], db[k], depth) for k in da)
        if len(oa.ents) != len(ob.ents):
            return False
        return all(self.value_eq(st, None, k, k2, depth) and self.value_eq(st, et, v, v2, depth)
                   for (k, v), (k2, v2) in zip(oa.ents, ob.ents))

    def iface_veq(self, st, a, b, depth):
        if a.isnil or b.isnil:
            z = b if a.isnil else a
            if z.isnil:
                return True
            if z.dyn is not None:
                return False
            return valid(st, tag(z.term) == 0)
        if a.dyn is not None and b.dyn is not None:
            if a.dyn[0] != b.dyn[0] and self.tstr(a.dyn[0]) != self.tstr(b.dyn[0]):
                return False
            return self.value_eq(st, a.dyn[0], a.dyn[1], b.dyn[1], depth)
        if a.dyn is not None and isinstance(a.dyn[0], str) or b.dyn is not None and isinstance(b.dyn[0], str):
            return False
        ta, tb = self.aterm(st, a), self.aterm(st, b)
        if ta.eq(tb) or valid(st, ta == tb, 4000):
            return True
        if depth > 4:
            return False
        # same type and equal contents (interface values are identified with their deep contents)
        d = a if a.dyn is not None else (b if b.dyn is not None else None)
        if d is None:
            for z in (ta, tb):
                if z.get_id() in TERM_BOX:
                    d = IfaceV(dyn=(TERM_BOX[z.get_id()][1], None))
        if d is None:
            return False
        t = d.dyn[0]
        if not valid(st, z3.And(tag(ta) == self.P.tagid(t), tag(tb) == self.P.tagid(t))):
            return False
        va = a.dyn[1] if a.dyn is not None else self.unbox(st, t, ta)
        vb = b.dyn[1] if b.dyn is not None else self.unbox(st, t, tb)
        return self.value_eq(st, t, va, vb, depth + 1)

    def tstr(self, t):
        return t if isinstance(t, str) else self.P.str(t)

    def same_obj(self, st, o, n):
        if type(o) is not type(n):
            return False
        if isinstance(o, Cell):
            return self.value_same(st, o.v, n.v)
        if isinstance(o, ArrList):
            return len(o.f) == len(n.f) and all(self.value_same(st, x, y) for x, y in zip(o.f, n.f))
        if isinstance(o, ArrRope):
            return o.rope.key() == n.rope.key() or self.rope_eq(st, o.rope, n.rope)
        if isinstance(o, ArrZ):
            return o.arr.eq(n.arr) and same(o.n, n.n)
        if isinstance(o, MapObj):
            return o.ents == n.ents and ((o.term is None and n.term is None) or
                                         (o.term is not None and n.term is not None and o.term.eq(n.term)))
        return False

    def value_same(self, st, a, b):
        try:
            return self.value_eq(st, None, a, b)
        except (Unsupported, KeyError):
            return False

    def ghost_eq(self, st, key, a, b):
        if isinstance(a, Rope) and isinstance(b, Rope):
            return self.rope_eq(st, a, b)
        if isinstance(a, V) and isinstance(b, V):
            return self.value_eq(st, None, a, b)
        if is_z(a) or is_z(b):
            if is_z(a) and is_z(b) and a.sort() == b.sort():
                return valid(st, a == b)
            return valid(st, eq(a, b))
        return a == b

    findings = None

    def finding(self, key, name, st):
        """an obligation that fails on a recorded finding"""
        if self.known and key in self.known:
            if key not in self.findings:
                self.findings.append(key)
        else:
            self.ob(name, False, 'not proved', st)

    # ============================================================ contracts
    def check(self, c, name):
        """verify the body of function name against contract c"""
        st = State()
        self.paths = 0
        self.top = name
        for args, st in c.setups(self, st, name):
            if not feasible(st):
                self.ob('%s: precondition is satisfiable' % short(name), False, 'contradictory precondition', st)
                continue
            self.ob('%s: precondition is satisfiable' % short(name), True)
            old = st.fork()
            saved = self.contracts.get(name)
            st.ghost['entry'] = name
            keep = c.begin(self, st, args, name)
            outs = self.run(st, name, args)
            if keep is not None:
                keep()
            seen = set()
            for s, kind, v in outs:
                if kind == 'panic':
                    if not feasible(s):
                        continue
                    if c.panics(self, s, v):
                        continue
                    self.ob('%s: %s' % (short(name), 'no panic: ' + str(v)), False, 'panic is reachable', s)
                    continue
                self.lastret = v
                done = False
                for case, cond in c.outcomes(self, s, args, v):
                    cond = simp(B(cond))
                    if cond is False or (cond is not True and not feasible(s, cond)):
                        continue
                    s2 = s.fork()
                    s2.assume(cond)
                    E = Effect(self, 'check', s2, old, args, name, v, case)
                    c.post(E)
                    E.frame()
                    seen.add(case)
                    done = True
                if not done and feasible(s):
                    self.ob('%s: allowed outcome' % short(name), False, 'an outcome the contract does not mention: %r' % (v,), s)
            # reachability: every case of the contract that must be reachable is
            for case in c.must_reach(self, args):
                self.ob('%s: case %s is reachable' % (short(name), case), case in seen,
                        '' if case in seen else 'no path ends in this case')


def short(n):
    return n.replace('github.com/mindstand/go-bolt/', '').replace('github.com/mindstand/go-bolt', 'goBolt')


class _Any:
    def __repr__(self):
        return 'ANY'


ANY = _Any()


class Pred:
    """a value described by a predicate: f(ex, st, value) -> proved"""

    def __init__(self, f, make=None):
        self.f, self.make = f, make


class Effect:
    """what a contract case does to the state: assumed when calling, proved when checking"""

    def __init__(self, ex, mode, st, old, args, name, ret, case):
        self.ex, self.mode, self.st, self.old, self.args, self.name, self.retv, self.case = ex, mode, st, old, args, name, ret, case
        self.decl = set()
        self.gdecl = set()
        self.checking = mode == 'check'

    def nm(self, what):
        return '%s: %s [%s]' % (short(self.name), what, self.case)

    def fact(self, f, what='postcondition', timeout=10000):
        if self.checking:
            self.ex.prove(self.st, f, self.nm(what), timeout)
        else:
            self.st.assume(f)

    def know(self, f):
        """a definition unfolded, true in both modes"""
        self.st.assume(f)

    def ob(self, ok, what, why=''):
        if self.checking:
            self.ex.ob(self.nm(what), ok, why, self.st)

    def cell(self, p, value, what='state', t=None):
        """location p holds value afterwards"""
        self.decl.add((p.ref, p.path))
        v = value() if callable(value) else value
        if self.checking:
            cur = self.ex.load(self.st, p)
            t0 = time.time()
            ok = self.ex.value_eq(self.st, t, cur, v)
            self.ex.ob(self.nm(what), ok, '' if ok else '%.300r is not %.300r' % (cur, v), self.st, time.time() - t0)
        else:
            self.ex.store(self.st, p, v)

    def free(self, p, make=None):
        """location p may hold anything (make builds it when calling)"""
        self.decl.add((p.ref, p.path))
        if not self.checking:
            if make:
                self.ex.store(self.st, p, make())

    def ret(self, value, what='result', t=None):
        if self.checking:
            t0 = time.time()
            ok = self.ex.value_eq(self.st, t, self.retv, value)
            self.ex.ob(self.nm(what), ok, '' if ok else '%.300r is not %.300r' % (self.retv, value), self.st, time.time() - t0)
        else:
            self.retv = value

    def ghost(self, key, value, what='ghost state'):
        self.gdecl.add(key)
        if self.checking:
            ok = self.ex.ghost_eq(self.st, key, self.st.ghost.get(key), value)
            self.ex.ob(self.nm(what), ok, '' if ok else '%.300r is not %.300r' % (self.st.ghost.get(key), value), self.st)
        else:
            self.st.ghost[key] = value

    def ghost_free(self, key):
        self.gdecl.add(key)

    def frame(self):
        ex = self.ex
        bad = []
        for ref, o in self.old.heap.items():
            n = self.st.heap.get(ref)
            if n is o:
                continue
            paths = [p for r, p in self.decl if r == ref]
            if () in paths:
                continue
            if isinstance(o, Cell) and isinstance(n, Cell):
                d = []
                ex_diff(ex, self.st, o.v, n.v, (), paths, d)
                if not d:
                    continue
                bad.append('%s%s' % (ref, d[0]))
                continue
            if ex.same_obj(self.st, o, n):
                continue
            bad.append(str(ref))
        for g, v in self.st.ghost.items():
            if isinstance(g, tuple) and g[0] == 'global' or g in self.gdecl or g == 'entry':
                continue
            w = self.old.ghost.get(g)
            if w is not v and not ex.ghost_eq(self.st, g, v, w):
                bad.append('ghost %s' % (g,))
        ex.ob(self.nm('changes nothing else'), not bad, 'changed: %s' % ', '.join(bad), self.st)


def ex_diff(ex, st, a, b, path, allowed, out):
    if a is b or path in allowed:
        return
    if any(p[:len(path)] == path for p in allowed) and isinstance(a, (StructV, ArrayV)) and type(a) is type(b):
        for i, (x, y) in enumerate(zip(a.f, b.f)):
            ex_diff(ex, st, x, y, path + (i,), allowed, out)
        return
    if isinstance(a, (StructV, ArrayV)) and type(a) is type(b):
        for i, (x, y) in enumerate(zip(a.f, b.f)):
            ex_diff(ex, st, x, y, path + (i,), allowed, out)
        return
    if not ex.value_same(st, a, b):
        out.append(path)


class Contract:
    """specification of one function"""
    external = False

    def setups(self, ex, st, name):
        """[(args, state)] for every shape of argument the precondition admits"""
        raise NotImplementedError

    def pre(self, ex, st, args, name):
        """obligations of a caller"""

    def begin(self, ex, st, args, name):
        return None

    def outcomes(self, ex, st, args, ret):
        """[(case, formula)]: which cases this outcome may be"""
        return [('ok', True)]

    def cases(self, ex, st, args):
        """[(case, formula)] a caller has to consider"""
        return [('ok', True)]

    def must_reach(self, ex, args):
        return [c for c, _ in self.cases(ex, State(), args)]

    def post(self, E):
        raise NotImplementedError

    def panics(self, ex, st, what):
        return False

    def call(self, ex, st, args, name):
        self.pre(ex, st, args, name)
        outs = []
        cs = self.cases(ex, st, args)
        for i, (case, cond) in enumerate(cs):
            cond = simp(B(cond))
            if cond is False:
                continue
            if cond is not True and not feasible(st, cond):
                continue
            s2 = st.fork()
            s2.assume(cond)
            E = Effect(ex, 'call', s2, st, args, name, None, case)
            self.post(E)
            outs.append((E.st, 'ret', E.retv))
        return outs


def err_is_nil(ex, st, e):
    if e.isnil:
        return True
    if e.dyn is not None:
        return False
    return tag(e.term) == 0


def new_err(st, name='err', *facts):
    a = fresh(name, Any)
    st.assume(tag(a) > 0)
    return IfaceV(term=a)


NONNIL = Pred(lambda ex, st, v: valid(st, Not(err_is_nil(ex, st, v))))
