"""Decoding is the inverse of encoding (C06): the fields of graph structures under contract, and the lemma that
what the encoder's contract writes, the decoder's contract reads back.  The lemma is proved form by form; the
claim for the members of a list, map or structure is the induction hypothesis."""
import z3
from core import *
from values import *
from prove import Contract, Pred
from models import f64of, f64bits
import codec_enc, codec_dec
from codec_enc import BOLT, fieldsf, nfields, sigf, anyslice, anymap, INT_TYPES, packint
from codec_dec import dok, dv, dend, deep, lp, dm, dl, Pos, byte

norm = F('norm', Any, Any)            # the value decoding is expected to give back
normm = F('normm', GMap, Int, GMap)   # the first i entries of a map, with their values normalised
GRAPH = BOLT + 'structures/graph.'
TYPES = BOLT + 'structures/types.'
FIELDS = {GRAPH + 'Node': (0x4E, ['int64', 'strings', 'map']),
          GRAPH + 'Relationship': (0x52, ['int64', 'int64', 'int64', 'string', 'map']),
          GRAPH + 'UnboundRelationship': (0x72, ['int64', 'string', 'map']),
          GRAPH + 'Path': (0x50, [GRAPH + 'Node', GRAPH + 'UnboundRelationship', 'ints']),
          TYPES + 'Point2D': (0x58, ['int', 'float64', 'float64']),
          TYPES + 'Point3D': (0x59, ['int', 'float64', 'float64', 'float64'])}


def elem_type(k):
    return {'strings': 'string', 'ints': 'int'}.get(k, k)


class AllFields(Contract):
    """the fields of the structure, in order, unchanged"""

    def setups(self, ex, st, name):
        f = ex.P.funcs[name]
        t = f['params'][0]['t']
        return [([ex.sym(st, t, lambda p, so: fresh('f' + p, so))], st)]

    def post(self, E):
        ex, st, P = E.ex, E.st, E.ex.P
        v = E.args[0]
        sig, kinds = FIELDS[P.str(v.t)]
        ret = E.retv
        if not isinstance(ret, SliceV) or not isinstance(simp(ret.len), int) or simp(ret.len) != len(kinds):
            E.ob(False, 'one field for each of the structure', repr(ret))
            return
        items = ex.elems(st, ret, P.T('interface{}'))
        for i, (k, x, fv) in enumerate(zip(kinds, items, v.f)):
            if k in ('int64', 'float64', 'string', 'int'):
                want = IfaceV(dyn=(P.T(k), fv))
            elif k == 'map':
                want = IfaceV(dyn=(P.T(anymap), fv))
            else:
                want = Pred(lambda e, s, y, fv=fv, k=k: self.islist(e, s, y, fv, k))
            E.ob(ex.value_eq(st, None, x, want), 'field %d is the %dth of the structure' % (i, i), repr(x)[:200])

    def islist(self, ex, st, y, fv, k):
        P = ex.P
        if y.dyn is None or P.str(y.dyn[0]) != anyslice:
            return False
        s = y.dyn[1]
        if not valid(st, eq(s.len, fv.len)):
            return False
        et = P.T(elem_type(k))
        a, _ = ex.slice_arr(st, s, P.T('interface{}'))
        b, _ = ex.slice_arr(st, fv, et)
        j = fresh('j', Int)
        s2 = st.fork()
        s2.assume(j >= 0, j < I(fv.len))
        x = ex.evalue(s2, et, z3.Select(b, j))
        return ex.iface_veq(s2, IfaceV(term=z3.Select(a, j)), IfaceV(dyn=(et, x)), 0)


class Signature(Contract):
    def setups(self, ex, st, name):
        f = ex.P.funcs[name]
        return [([ex.sym(st, f['params'][0]['t'], lambda p, so: fresh('f' + p, so))], st)]

    def post(self, E):
        E.fact(I(E.retv) == FIELDS[E.ex.P.str(E.args[0].t)][0], 'signature byte')


class FieldLoops:
    """loops that copy a slice into a list of interface values"""

    def applies(self, L):
        ex = L.ex
        if not L.fr.stack[0].endswith('.AllFields'):
            return None
        for ins in L.instrs():
            if ins['op'] == 'Store' and ins['addr']['k'] == 'reg':
                d = L.defs.get(ins['addr']['n'])
                if d and d['op'] == 'IndexAddr' and isinstance(L.outer(d['x']), SliceV):
                    src = [(L.outer(j['x']), j) for j in L.instrs() if j['op'] == 'IndexAddr' and j is not d and isinstance(L.outer(j['x']), SliceV)]
                    if len(src) == 1:
                        return ('list', L.outer(d['x']), src[0][0], ex.P.elem(src[0][1]['x']['t']))
        for r, (ins, v) in L.phis.items():
            if isinstance(v, SliceV):
                src = [(L.outer(j['x']), j) for j in L.instrs() if j['op'] == 'IndexAddr' and isinstance(L.outer(j['x']), SliceV)]
                if len(src) == 1:
                    return ('append', r, src[0][0], ex.P.elem(src[0][1]['x']['t']))
        return None

    def inv(self, L, M):
        ex, k, st = L.ex, M.k, M.st
        it = ex.P.T('interface{}')
        src, et = L.d[2], L.d[3]
        b, n = ex.slice_arr(L.st0, src, et)
        j = z3.Int('j')
        box = lambda x: boxed(ex, st, et, x)

        def check(arr):
            i = fresh('i', Int)
            s2 = st.fork()
            s2.assume(i >= 0, i < I(k))
            x = ex.evalue(s2, et, z3.Select(b, i))
            ok = ex.iface_veq(s2, IfaceV(term=z3.simplify(z3.Select(arr, i))), IfaceV(dyn=(et, x)), 0)
            if not ok:
                # the last one, or an earlier one
                ok = True
                for c in (i == I(k) - 1, i < I(k) - 1):
                    s3 = s2.fork()
                    s3.assume(c)
                    y = z3.simplify(z3.Select(arr, i))
                    if c.eq(i == I(k) - 1):
                        y = z3.simplify(z3.Select(arr, I(simp(sub(k, 1)))))
                        x = ex.evalue(s3, et, z3.Select(b, I(simp(sub(k, 1)))))
                    ok = ok and ex.iface_veq(s3, IfaceV(term=y), IfaceV(dyn=(et, x)), 0)
            ex.ob(M.nm('elements so far'), ok, '', st)

        def make():
            arr = fresh('items', AnyArr)
            c, eqs = box(z3.Select(b, j))
            st.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < I(k)), eqs(z3.Select(arr, j))), patterns=[z3.Select(arr, j)]))
            return arr
        if L.d[0] == 'list':
            x = L.d[1]
            M.obj(x.ref, lambda: ArrZ(it, make(), x.cap), lambda o: check(ex.slice_arr(st, x, it)[0]))
            M.fact(le(k, n), 'index within the source')
        else:
            r = L.d[1]
            if M.mode == 'havoc':
                M.cur[r] = SliceV(st.alloc(ArrZ(it, make(), k)), 0, k, k)
            else:
                ex.prove(st, eq(M.cur[r].len, k), M.nm('one item per element'))
                check(ex.slice_arr(st, M.cur[r], it)[0])


def boxed(ex, st, et, x):
    """(None, f): f(y) says that interface term y holds the element term x of type et"""
    P = ex.P

    def leaves(y):
        if ex.esort(et) is Any and P.kind(et) != 'iface':
            return y == x                      # elements that are structs are kept as interface terms already
        return z3.And(tag(y) == P.tagid(et), ex.fldfn(et, '', ex.esort(et))(y) == x)
    return None, leaves


# ---------------------------------------------------------------- the lemma
class Lemma:
    def __init__(self, ex, v):
        self.ex, self.e, self.d = ex, codec_enc.SPECS[v], codec_dec.DSPECS[v]
        self.v = v

    def nm(self, what):
        return 'round trip v%d: %s' % (self.v, what)

    def at(self, st, S, off, rope):
        """S holds rope at off: facts about the bytes, and the claims for the members"""
        ex = self.ex
        for a in rope.atoms:
            if a[0] == 'c':
                for i, c in enumerate(a[1]):
                    st.assume(bat(S, I(add(off, i))) == c)
            elif a[0] == 'b':
                st.assume(bat(S, I(simp(off))) == I(a[1]))
            elif a[0] == 'be':
                # what n big-endian bytes are: base-256 digits of x modulo 256^n
                x, m = I(a[1]), 1 << (8 * a[2])
                if not valid(st, z3.And(x >= 0, x < m), 2000):
                    x = z3.If(x < 0, x + m, x) if valid(st, z3.And(x >= -m, x < m), 2000) else x % m
                r = 0
                for i in range(a[2]):
                    b = bat(S, I(add(off, i)))
                    st.assume(b >= 0, b <= 255)
                    r = add(mul(r, 256), b)
                st.assume(I(r) == x)
            elif a[0] == 's':
                f = a[1].decl().name() if z3.is_app(a[1]) else ''
                if f.startswith('packs'):
                    self.items(st, S, off, a[1].arg(0), a[1].arg(1))
                elif f.startswith('packm'):
                    self.entries(st, S, off, a[1].arg(0), a[1].arg(1))
                elif f.startswith('pack') and f != 'packint':
                    self.hyp(st, S, off, a[1].arg(0))
            off = add(off, atom_len(a))
        return off

    def hyp(self, st, S, off, x):
        """induction hypothesis for member x"""
        p = self.e.pack(x)
        q = I(simp(off))
        st.assume(blen(p) >= 1, dok(S, q), dv(S, q) == norm(x), dend(S, q) == q + blen(p))

    def items(self, st, S, off, arr, n):
        """consecutive members: induction over their number"""
        ex = self.ex
        q = I(simp(off))
        i = fresh('i', Int)
        packs, pack = self.e.packs, self.e.pack
        n = I(n)
        s = st.fork()
        s.assume(lp(S, q, 0) == q, blen(packs(arr, I(0))) == 0)
        ex.prove(s, lp(S, q, 0) == q + blen(packs(arr, I(0))), self.nm('members, first position'))
        s = st.fork()
        at = q + blen(packs(arr, i))
        x = z3.Select(arr, i)
        s.assume(i >= 0, i < n, lp(S, q, i) == at, blen(packs(arr, i + 1)) == blen(packs(arr, i)) + blen(pack(x)))
        self.hyp(s, S, at, x)
        s.assume(lp(S, q, i + 1) == dend(S, lp(S, q, i)))
        ex.prove(s, z3.And(lp(S, q, i + 1) == q + blen(packs(arr, i + 1)), dok(S, lp(S, q, i)), dv(S, lp(S, q, i)) == norm(x),
                           blen(packs(arr, i + 1)) >= blen(packs(arr, i)) + 1), self.nm('members, one more'))
        j = z3.Int('j')
        st.assume(lp(S, q, 0) == q, lp(S, q, n) == q + blen(packs(arr, n)), blen(packs(arr, n)) >= n,
                  z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), z3.And(dok(S, lp(S, q, j)), dv(S, lp(S, q, j)) == norm(z3.Select(arr, j)))),
                            patterns=[lp(S, q, j)]))
        m = simp(n)
        if isinstance(m, int):
            for c in range(m):
                st.assume(dok(S, lp(S, q, c)), dv(S, lp(S, q, c)) == norm(z3.Select(arr, c)))

    def entries(self, st, S, off, m, n):
        ex = self.ex
        q = I(simp(off))
        i = fresh('i', Int)
        pm, pack = self.e.packm, self.e.pack
        n = I(n)
        ts = ex.P.T('string')
        s = st.fork()
        s.assume(lp(S, q, 0) == q, blen(pm(m, I(0))) == 0, dm(S, q, 0) == gempty, normm(m, 0) == gempty)
        ex.prove(s, z3.And(lp(S, q, 0) == q + blen(pm(m, I(0))), dm(S, q, 0) == normm(m, 0)), self.nm('entries, first position'))
        s = st.fork()
        key = gkey(m, i)
        ka = ex.box(s, ts, StrV(rope_of(key)))
        val = gval(m, i)
        at = q + blen(pm(m, i))
        s.assume(i >= 0, i < n, lp(S, q, 2 * i) == at, dm(S, q, i) == normm(m, i),
                 blen(pm(m, i + 1)) == blen(pm(m, i)) + blen(pack(ka)) + blen(pack(val)))
        self.hyp(s, S, at, ka)
        s.assume(norm(ka) == ka)
        self.hyp(s, S, at + blen(pack(ka)), val)
        s.assume(lp(S, q, 2 * i + 1) == dend(S, lp(S, q, 2 * i)), lp(S, q, 2 * i + 2) == dend(S, lp(S, q, 2 * i + 1)))
        a, b = dv(S, lp(S, q, 2 * i)), dv(S, lp(S, q, 2 * i + 1))
        s.assume(dm(S, q, i + 1) == gput(dm(S, q, i), ex.fldfn(ts, '', Bytes)(a), b), normm(m, i + 1) == gput(normm(m, i), key, norm(val)))
        ex.prove(s, z3.And(lp(S, q, 2 * i + 2) == q + blen(pm(m, i + 1)), dm(S, q, i + 1) == normm(m, i + 1),
                           dok(S, lp(S, q, 2 * i)), dok(S, lp(S, q, 2 * i + 1)), tag(a) == ex.P.tagid(ts),
                           blen(pm(m, i + 1)) >= blen(pm(m, i)) + 2), self.nm('entries, one more'))
        j = z3.Int('j')
        st.assume(lp(S, q, 0) == q, lp(S, q, 2 * n) == q + blen(pm(m, n)), blen(pm(m, n)) >= 2 * n, dm(S, q, n) == normm(m, n),
                  z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < 2 * n), dok(S, lp(S, q, j))), patterns=[lp(S, q, j)]),
                  z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), tag(dv(S, lp(S, q, 2 * j))) == ex.P.tagid(ts)), patterns=[lp(S, q, 2 * j)]))

    def case(self, name, st, a, ty, want):
        """pack(a), of type ty, at any position of any message decodes to want"""
        ex = self.ex
        if not feasible(st):
            ex.ob(self.nm('%s exists' % name), False, 'no such value', st)
            return
        rep = self.e.rep(ex, st, a, ty)
        if rep is not None:
            # small integers are written through packint
            rep = Rope([b for x in rep.atoms for b in ((ex.unfold_atom(st, x) or Rope((x,))).atoms
                                                       if x[0] == 's' and z3.is_app(x[1]) and x[1].decl().name() == 'packint' else (x,))])
        if rep is None:
            ex.ob(self.nm('%s has one form' % name), False, 'representation not determined', st)
            return
        S, p, pre, post = fresh('S', Bytes), fresh('p', Int), fresh('before', Bytes), fresh('after', Bytes)
        n = rep.len()
        st.assume(p >= 0, blen(pre) == p, blen(post) >= 0, blen(S) == p + I(n) + blen(post), blen(S) < (1 << 48))
        NAMED[S.get_id()] = (S, rope_of(pre) + rep + rope_of(post))
        end = self.at(st, S, p, rep)
        P = Pos(S, p)
        m = bat(S, p)
        st.assume(m >= 0, m <= 255)
        hit = 0
        for sh in self.d.shapes():
            c = simp(sh.cond(m))
            if c is False or (c is not True and not feasible(st, c)):
                continue
            s1 = st.fork()
            s1.assume(B(c))
            for s2, sub_, M in sh.f(ex, s1, P, m):
                if not feasible(s2):
                    continue
                for x in M.facts:
                    s2.assume(x)
                if not feasible(s2):
                    continue
                nm = self.nm('%s (%s%s)' % (name, sh.name, ' ' + sub_ if sub_ else ''))
                hit += 1
                if M.end is None:
                    ex.ob(nm + ' is accepted', False, 'the decoder refuses it', s2)
                    continue
                ex.prove(s2, M.must, nm + ' is accepted')
                ex.prove(s2, eq(M.end, end), nm + ' is consumed exactly')
                w = want(s2)
                ok = ex.value_eq(s2, None, w if isinstance(M.value, Pred) else M.value, M.value if isinstance(M.value, Pred) else w)
                ex.ob(nm + ' is the same value', ok, '' if ok else '%.200r is not %.200r' % (M.value, w), s2)
        ex.ob(self.nm('%s is some form' % name), hit > 0, '', st)

    # -------------------------------------------------------------- forms
    def run(self):
        ex = self.ex
        P = ex.P
        i64 = P.T('int64')

        def new(ty):
            st = State()
            a = fresh('v', Any)
            st.assume(tag(a) == (P.tagid(P.T(ty)) if ty else 0))
            v = ex.unbox(st, P.T(ty), a) if ty else None
            return st, a, v
        st, a, v = new('')
        self.case('nil', st, a, '', lambda s: NILI)
        st, a, v = new('bool')
        for b in (True, False):
            s = st.fork()
            s.assume(B(v) == b)
            self.case(str(b).lower(), s, a, 'bool', lambda s: IfaceV(dyn=(P.T('bool'), v)))
        st, a, v = new('float64')
        self.case('float64', st, a, 'float64', lambda s: IfaceV(dyn=(P.T('float64'), v)))
        for ty in INT_TYPES:
            sg, w = P.intinfo(P.T(ty))
            for lo, hi in ((-16, 127), (-128, -17), (-(1 << 15), -129), (128, (1 << 15) - 1), (-(1 << 31), -(1 << 15) - 1), (1 << 15, (1 << 31) - 1),
                           (-(1 << 63), -(1 << 31) - 1), (1 << 31, (1 << 63) - 1)):
                st, a, v = new(ty)
                st.assume(B(le(lo, v)), B(le(v, hi)))
                if not feasible(st):
                    continue
                self.case('%s in %d..%d' % (ty, lo, hi), st, a, ty, lambda s: IfaceV(dyn=(i64, v)))
        for lo, hi in ((0, 15), (16, 255), (256, 65535), (65536, (1 << 32) - 1)):
            st, a, v = new('string')
            st.assume(B(le(lo, v.rope.len())), B(le(v.rope.len(), hi)))
            self.case('string of %d..%d' % (lo, hi), st, a, 'string', lambda s: IfaceV(dyn=(P.T('string'), v)))
            # lists
            st, a, v = new(anyslice)
            arr, n = ex.fldfn(P.T(anyslice), '.arr', AnyArr)(a), ex.fldfn(P.T(anyslice), '.len', Int)(a)
            st.assume(n >= lo, n <= hi)
            self.case('list of %d..%d' % (lo, hi), st, a, anyslice, lambda s: self.nlist(s, arr, n))
            st, a, _ = new(anymap)
            m = ex.fldfn(P.T(anymap), '.map', GMap)(a)
            st.assume(glen(m) >= lo, glen(m) <= hi)
            self.case('map of %d..%d' % (lo, hi), st, a, anymap,
                      lambda s: IfaceV(dyn=(P.T(anymap), MapV(s.alloc(MapObj(P.T(anymap), (), normm(m, glen(m))))))))
        # typed slices
        for lo, hi in ((0, 15), (16, 255), (256, 65535), (65536, (1 << 32) - 1)):
            st = State()
            a = fresh('v', Any)
            from models import relem, rlen, kind_of
            n = rlen(a)
            st.assume(tag(a) > 0, n >= lo, n <= hi)
            self.case('typed slice of %d..%d' % (lo, hi), st, a, 'slice', lambda s: self.nlist(s, relem(a), n))
        for t in FIELDS:
            if t.startswith(GRAPH) or self.v >= 2:
                self.structure(t)

    def nlist(self, s, arr, n):
        """the list of the normalised members of arr"""
        P = self.ex.P
        na = fresh('normed', AnyArr)
        j = z3.Int('j')
        s.assume(z3.ForAll([j], z3.Select(na, j) == norm(z3.Select(arr, j)), patterns=[z3.Select(na, j)]))
        return IfaceV(dyn=(P.T(anyslice), SliceV(s.alloc(ArrZ(P.T('interface{}'), na, n, True)), 0, n, n)))

    def structure(self, tname):
        """a graph structure: its fields are what the contract of AllFields says"""
        ex, P = self.ex, self.ex.P
        sig, kinds = FIELDS[tname]
        t = P.T(tname)
        st = State()
        a = fresh('v', Any)
        st.assume(tag(a) == P.tagid(t), nfields(a) == len(kinds), sigf(a) == sig)
        v = ex.unbox(st, t, a)
        fa = fieldsf(a)
        anyt = P.T('interface{}')
        want = []
        for i, (k, fv) in enumerate(zip(kinds, v.f)):
            x = z3.Select(fa, i)
            if k in ('int64', 'float64', 'string'):
                st.assume(x == ex.box(st, P.T(k), fv), norm(x) == x)
                want.append(fv)
            elif k == 'int':
                st.assume(tag(x) == P.tagid(P.T('int')), ex.fldfn(P.T('int'), '', Int)(x) == I(fv))
                st.assume(norm(x) == ex.box(st, P.T('int64'), fv))
                want.append(fv)
            elif k == 'map':
                mt = P.T(anymap)
                m = ex.mobj_term(st, st.heap[fv.ref])
                st.assume(tag(x) == P.tagid(mt))
                nm = MapV(st.alloc(MapObj(mt, (), normm(m, glen(m)))))
                st.assume(norm(x) == ex.box(st, mt, nm))
                want.append(nm)
            else:
                et = P.T(elem_type(k))
                lt_ = P.T(anyslice)
                b, n = ex.slice_arr(st, fv, et)
                st.assume(tag(x) == P.tagid(lt_))
                # normalised: a list of the normalised elements
                na = fresh('normed', AnyArr)
                j = z3.Int('j')
                y = z3.Select(na, j)
                src = P.T({'ints': 'int64'}.get(k, elem_type(k)))
                if ex.esort(et) is Any:
                    # elements are graph structures themselves; they come back as such
                    nb = fresh('normb', AnyArr)
                    st.assume(z3.ForAll([j], z3.And(tag(y) == P.tagid(src), y == z3.Select(nb, j)), patterns=[y]))
                    want.append(SliceV(st.alloc(ArrZ(et, nb, n, True)), 0, n, n))
                else:
                    st.assume(z3.ForAll([j], z3.And(tag(y) == P.tagid(src), ex.fldfn(src, '', ex.esort(et))(y) == z3.Select(b, j)), patterns=[y]))
                    want.append(fv)
                nl = IfaceV(dyn=(lt_, SliceV(st.alloc(ArrZ(anyt, na, n, True)), 0, n, n)))
                st.assume(norm(x) == ex.aterm(st, nl))
        self.case(tname.split('/')[-1], st, a, 'structure', lambda s: IfaceV(dyn=(t, StructV(t, want))))
