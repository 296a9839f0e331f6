"""Joining paths where branches meet: two states at the same point become one whose differing values are chosen by a
fresh boolean (nothing is lost). Used where ctx['join'] asks for it."""
import z3
from core import *
from values import *


class No(Exception):
    pass


def rpo(P, fname, blocks):
    """position of each block in reverse postorder"""
    d = P.__dict__.setdefault('_rpo', {})
    if fname not in d:
        seen, order = set(), []

        def visit(b):
            stack = [(b, iter(blocks[b]['succs']))]
            seen.add(b)
            while stack:
                x, it = stack[-1]
                for s in it:
                    if s not in seen:
                        seen.add(s)
                        stack.append((s, iter(blocks[s]['succs'])))
                        break
                else:
                    order.append(x)
                    stack.pop()
        visit(0)
        d[fname] = {b: i for i, b in enumerate(reversed(order))}
    return d[fname]


def uses(x, out):
    if isinstance(x, dict):
        if x.get('k') == 'reg':
            out.add(x['n'])
        elif x.get('k') == 'free':
            out.add('&' + x['n'])
        for v in x.values():
            uses(v, out)
    elif isinstance(x, list):
        for v in x:
            uses(v, out)


def live(P, fname, blocks, b):
    """registers some block reachable from b may use"""
    d = P.__dict__.setdefault('_live', {})
    k = (fname, b)
    if k not in d:
        out, seen, todo = set(), {b}, [b]
        while todo:
            x = todo.pop()
            uses(blocks[x]['instrs'], out)
            for s in blocks[x]['succs']:
                if s not in seen:
                    seen.add(s)
                    todo.append(s)
        d[k] = out
    return d[k]


def next_item(ex, fr, work):
    blocks = fr.f['blocks']
    pos = rpo(ex.P, fr.fn, blocks)
    i = min(range(len(work)), key=lambda j: (pos[work[j][1]], -work[j][3], -j))
    it = work.pop(i)
    b, idx = it[1], it[3]
    nphi = sum(1 for x in blocks[b]['instrs'] if x['op'] == 'Phi')
    if len(blocks[b]['preds']) < 2 or idx != nphi:
        return it
    same = [w for w in work if w[1] == b and w[3] == idx]
    if not same:
        return it
    rest = [w for w in work if not (w[1] == b and w[3] == idx)]
    groups = [it]
    for w in same:
        for j, g in enumerate(groups):
            m = join(ex, fr, g, w)
            if m is not None:
                groups[j] = m
                break
        else:
            groups.append(w)
    work[:] = rest + groups[1:]
    return groups[0]


def common(a, b):
    n = 0
    m = min(len(a), len(b))
    while n < m and a[n] is b[n]:
        n += 1
    return n


class Joiner:
    def __init__(self, ex, A, B_, p):
        self.ex, self.A, self.B, self.p = ex, A, B_, p
        self.extra = []

    def bterm(self, st, v):
        k = len(st.pc)
        t = self.ex.bterm(st, v.rope)
        return t

    def val(self, a, b):
        if a is b:
            return a
        if isinstance(a, (bool, int)) or is_z(a):
            if isinstance(b, V) or b is None:
                raise No('kinds')
            if same(a, b) and type(a) == type(b):
                return a
            if isinstance(a, str) or isinstance(b, str):
                raise No('text')
            isb = isinstance(a, bool) or is_z(a) and z3.is_bool(a)
            isb2 = isinstance(b, bool) or is_z(b) and z3.is_bool(b)
            if isb != isb2:
                raise No('sorts')
            x, y = (B(a), B(b)) if isb else (I(a), I(b))
            if x.sort() != y.sort():
                raise No('sorts')
            return z3.If(self.p, x, y)
        if a is None or b is None or type(a) is not type(b):
            raise No('kinds')
        if isinstance(a, StrV):
            return self.str(a, b)
        if isinstance(a, FloatV):
            return FloatV(z3.If(self.p, a.t, b.t)) if not a.t.eq(b.t) else a
        if isinstance(a, IfaceV):
            if a.isnil and b.isnil:
                return a
            if a.dyn is not None and b.dyn is not None:
                if a.dyn[0] != b.dyn[0]:
                    raise No('dynamic types')
                if a.dyn[0] in ('errorf',) or isinstance(a.dyn[1], NatV):
                    if a.dyn[1] is b.dyn[1]:
                        return a
                    raise No('errors')
                return IfaceV(dyn=(a.dyn[0], self.val(a.dyn[1], b.dyn[1])))
            if a.term is not None and b.term is not None:
                return a if a.term.eq(b.term) else IfaceV(term=z3.If(self.p, a.term, b.term))
            raise No('interfaces')
        if isinstance(a, PtrV):
            if a.ref == b.ref and same_path(a.path, b.path):
                return a
            raise No('pointers')
        if isinstance(a, SliceV):
            if a.ref != b.ref:
                raise No('slices')
            return SliceV(a.ref, self.val(a.off, b.off), self.val(a.len, b.len), self.val(a.cap, b.cap))
        if isinstance(a, MapV):
            if a.ref == b.ref:
                return a
            raise No('maps')
        if isinstance(a, FuncV):
            if a.name == b.name and a.native == b.native and len(a.binds) == len(b.binds):
                return FuncV(a.name, [self.val(x, y) for x, y in zip(a.binds, b.binds)], a.native)
            raise No('functions')
        if isinstance(a, OpaqueV):
            if a.term.eq(b.term):
                return a
            raise No('opaque')
        if isinstance(a, (StructV, ArrayV)):
            if len(a.f) != len(b.f):
                raise No('fields')
            return type(a)(a.t, [self.val(x, y) for x, y in zip(a.f, b.f)])
        if isinstance(a, TupleV):
            return TupleV([self.val(x, y) for x, y in zip(a.f, b.f)])
        if isinstance(a, NatV):
            return self.nat(a, b)
        raise No('kind %s' % type(a).__name__)

    def str(self, a, b):
        import urlmodel
        if a.rope.key() == b.rope.key():
            return a
        for x in (a, b):
            if urlmodel.origin(self.ex, x) is not None or any(urlmodel.known(self.ex, y) for y in x.rope.atoms):
                raise No('built string')
        t = fresh('either', Bytes)
        ta, tb = self.bterm(self.A, a), self.bterm(self.B, b)
        self.extra += [z3.Implies(self.p, t == ta), z3.Implies(z3.Not(self.p), t == tb),
                       blen(t) == z3.If(self.p, I(a.rope.len()), I(b.rope.len())), blen(t) >= 0]
        for g, x in ((self.p, a), (z3.Not(self.p), b)):
            c = x.rope.conc()
            if c is not None and len(c) <= 32 and c.isascii():
                lo = c.lower()
                tl = ufn('tolower', Bytes, Bytes)(t)
                fs = [tl == self.ex.bterm(self.A, conc_rope(lo)), blen(tl) == len(lo)]
                fs += [bat(tl, i) == lo[i] for i in range(min(len(lo), 4))] + [bat(t, i) == c[i] for i in range(min(len(c), 4))]
                self.extra.append(z3.Implies(g, z3.And(fs)))
                self.extra += [blen(self.ex.bterm(self.A, conc_rope(lo))) == len(lo), litid_fact(self.ex, lo)]
        return StrV(rope_of(t))

    def nat(self, a, b):
        import urlmodel
        if a.kind != b.kind:
            raise No('kinds')
        if a.kind == 'Values':
            p, q = a.d['q'], b.d['q']
            if not (p.base is q.base or p.base is not None and q.base is not None and p.base.eq(q.base)):
                raise No('queries')
            over = {}
            for k in list(p.over) + [k for k in q.over if k not in p.over]:
                over[k] = self.str(urlmodel.q_get(self.ex, self.A, p, k), urlmodel.q_get(self.ex, self.B, q, k))
            return NatV('Values', q=urlmodel.Q(p.base, over))
        if set(a.d) != set(b.d):
            raise No('native')
        d = {}
        for k in a.d:
            x, y = a.d[k], b.d[k]
            if x is y or not isinstance(x, V) and not is_z(x) and x == y:
                d[k] = x
            elif isinstance(x, (V, bool, int)) or is_z(x):
                d[k] = self.val(x, y)
            else:
                raise No('native field')
        return NatV(a.kind, **d)

    def obj(self, a, b):
        if a is b:
            return a
        if type(a) is not type(b):
            raise No('objects')
        if isinstance(a, Cell):
            if a.t is not b.t and a.t != b.t:
                raise No('cells')
            return type(a)(self.val(a.v, b.v), a.t)
        if self.ex.same_obj(self.A, a, b):
            return a
        raise No('object %s' % type(a).__name__)


def litid_fact(ex, c):
    s = State()
    ex.bterm(s, conc_rope(c))
    return z3.And(s.pc) if s.pc else z3.BoolVal(True)


def same_path(a, b):
    return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))


def refs_of(x, out):
    """references a value holds"""
    if isinstance(x, (PtrV, SliceV, MapV)):
        if x.ref is not None:
            out.add(x.ref)
    elif isinstance(x, IfaceV):
        if x.dyn is not None:
            refs_of(x.dyn[1], out)
    elif isinstance(x, FuncV):
        for y in x.binds:
            refs_of(y, out)
    elif isinstance(x, (StructV, ArrayV, TupleV)):
        for y in x.f:
            refs_of(y, out)
    elif isinstance(x, NatV):
        for y in x.d.values():
            refs_of(y, out)
    elif isinstance(x, (tuple, list)):
        for y in x:
            refs_of(y, out)
    elif isinstance(x, dict):
        for y in x.values():
            refs_of(y, out)
    elif isinstance(x, Cell):
        refs_of(x.v, out)
    elif isinstance(x, ArrList):
        refs_of(x.f, out)
    elif isinstance(x, MapObj):
        refs_of(x.ents, out)
    elif hasattr(x, 'ref') and hasattr(x, '__slots__') and not isinstance(x, (int, str)):
        r = getattr(x, 'ref', None)
        if isinstance(r, int):
            out.add(r)


def join(ex, fr, a, b):
    A, B_ = a[0], b[0]
    lv = live(ex.P, fr.fn, fr.f['blocks'], a[1])
    n = common(A.pc, B_.pc)
    p = fresh('path', Bool)
    J = Joiner(ex, A, B_, p)
    A, B_ = A.fork(), B_.fork()
    J.A, J.B = A, B_
    try:
        regs, roots = {}, set()
        for k in set(a[4]) | set(b[4]):
            if isinstance(k, str) and not k.startswith('__') and k not in lv:
                continue
            if isinstance(k, tuple) or k not in a[4] or k not in b[4]:
                if a[4].get(k) != b[4].get(k):
                    raise No('register %s' % (k,))
                regs[k] = a[4][k]
                continue
            x, y = a[4][k], b[4][k]
            if k == '__defers':
                if len(x) != len(y) or any(u is not v for u, v in zip(x, y)):
                    raise No('deferred calls')
                regs[k] = x
            elif x is y:
                regs[k] = x
            else:
                regs[k] = J.val(x, y)
            refs_of(regs[k], roots)
        ghost = {}
        forget = ex.ctx.get('forget') or ()
        for k in set(A.ghost) | set(B_.ghost):
            x, y = A.ghost.get(k), B_.ghost.get(k)
            if x is not y:
                if k in forget:
                    continue
                if k not in A.ghost or k not in B_.ghost:
                    if isinstance(k, tuple) and k[0] == 'global':
                        raise No('global')
                    raise No('ghost %s' % (k,))
                if isinstance(x, V) or is_z(x) or isinstance(x, (bool, int)) and not isinstance(y, (str, tuple, frozenset)) and y is not None:
                    x = J.val(x, y)
                elif x != y:
                    raise No('ghost %s' % (k,))
            ghost[k] = x
            refs_of(x, roots)
        base = getattr(fr, 'nref0', 1)
        heap, todo = {}, sorted(r for r in set(A.heap) | set(B_.heap) if isinstance(r, int) and r < base or not isinstance(r, int)) + sorted(r for r in roots if isinstance(r, int) and r >= base)
        done = set()
        while todo:
            r = todo.pop()
            if r in done:
                continue
            done.add(r)
            x, y = A.heap.get(r), B_.heap.get(r)
            if x is None and y is None:
                continue
            if x is None or y is None:
                raise No('object only on one path')
            o = J.obj(x, y)
            heap[r] = o
            more = set()
            refs_of(o, more)
            todo += [m for m in more if m not in done]
    except No as e:
        ex.nojoin = str(e)
        return None
    S = A
    suf = [x for x in A.pc[n:]], [x for x in B_.pc[n:]]
    # facts known on both paths hold without the choice
    both = {x.get_id() for x in suf[0]} & {x.get_id() for x in suf[1]}
    pc = list(A.pc[:n]) + [x for x in suf[0] if x.get_id() in both]
    for s, g in ((suf[0], p), (suf[1], z3.Not(p))):
        s = [x for x in s if x.get_id() not in both]
        if s:
            pc.append(z3.Implies(g, z3.And(s)))
    S.pc = pc + J.extra
    S.heap = heap
    S.ghost = ghost
    S.nref = max(A.nref, B_.nref)
    S.trace = A.trace
    return (S, a[1], a[2], a[3], regs)
