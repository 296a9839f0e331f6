"""Terms, values, ropes, heap and solver access of the deductive verifier.

Integers are mathematical (z3 Int); every fixed-width operation wraps explicitly unless the
solver proves that it cannot leave its range.  Byte strings are ropes of atoms over an
uninterpreted sort Bytes.  Interface values are terms of an uninterpreted sort Any with a
type tag and field functions."""
import time, itertools
import z3

z3.set_param('smt.random_seed', 1)

Any = z3.DeclareSort('Any')
Bytes = z3.DeclareSort('Bytes')
F64 = z3.DeclareSort('F64')
GMap = z3.DeclareSort('GMap')
Obj = z3.DeclareSort('Obj')      # any other opaque Go value
Int = z3.IntSort()
Bool = z3.BoolSort()
AnyArr = z3.ArraySort(Int, Any)

F = z3.Function
blen = F('blen', Bytes, Int)
bat = F('bat', Bytes, Int, Int)
tag = F('tag', Any, Int)

_ids = itertools.count(1)


def fresh(name, sort):
    return z3.Const('%s!%d' % (name, next(_ids)), sort)


_fn = {}


def ufn(name, *sorts):
    k = (name,) + tuple(s.name() if hasattr(s, 'name') else str(s) for s in sorts)
    if k not in _fn:
        _fn[k] = z3.Function(name, *sorts)
    return _fn[k]


class Unsupported(Exception):
    """The code left the subset the verifier handles."""


def is_z(e):
    return isinstance(e, z3.ExprRef)


def I(e):
    """int or z3 int -> z3 int"""
    return z3.IntVal(e) if isinstance(e, int) else e


def B(e):
    return z3.BoolVal(e) if isinstance(e, bool) else e


def And(*xs):
    out = []
    for x in xs:
        if isinstance(x, (list, tuple)):
            x = And(*x)
        if x is True:
            continue
        if x is False:
            return False
        if is_z(x):
            if z3.is_true(x):
                continue
            if z3.is_false(x):
                return False
        out.append(x)
    if not out:
        return True
    return out[0] if len(out) == 1 else z3.And(out)


def Or(*xs):
    out = []
    for x in xs:
        if isinstance(x, (list, tuple)):
            x = Or(*x)
        if x is False:
            continue
        if x is True:
            return True
        if is_z(x):
            if z3.is_false(x):
                continue
            if z3.is_true(x):
                return True
        out.append(x)
    if not out:
        return False
    return out[0] if len(out) == 1 else z3.Or(out)


def Not(x):
    if isinstance(x, bool):
        return not x
    if z3.is_true(x):
        return False
    if z3.is_false(x):
        return True
    if z3.is_not(x):
        return x.arg(0)
    return z3.Not(x)


def Imp(a, b):
    return Or(Not(a), b)


def simp(e):
    """fold a z3 expression into a Python constant when it is one"""
    if not is_z(e):
        return e
    s = z3.simplify(e)
    if z3.is_int_value(s):
        return s.as_long()
    if z3.is_true(s):
        return True
    if z3.is_false(s):
        return False
    return s


def add(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a + b
    return simp(I(a) + I(b))


def sub(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a - b
    return simp(I(a) - I(b))


def mul(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a * b
    return simp(I(a) * I(b))


def eq(a, b):
    if not is_z(a) and not is_z(b):
        return a == b
    if isinstance(a, bool) or isinstance(b, bool) or (is_z(a) and z3.is_bool(a)):
        r = B(a) == B(b)
    else:
        r = I(a) == I(b)
    return simp(r)


def le(a, b):
    if not is_z(a) and not is_z(b):
        return a <= b
    return simp(I(a) <= I(b))


def lt(a, b):
    if not is_z(a) and not is_z(b):
        return a < b
    return simp(I(a) < I(b))


def same(a, b):
    """syntactic identity"""
    if is_z(a) and is_z(b):
        return a.eq(b)
    if is_z(a) or is_z(b):
        return False
    return a == b and type(a) == type(b)


# ---------------------------------------------------------------- ropes
# atoms: ('c', bytes) ('b', intexpr) ('s', base, off, len) ('be', intexpr, n) ('z', len)

def atom_len(a):
    k = a[0]
    if k == 'c':
        return len(a[1])
    if k == 'b':
        return 1
    if k == 's':
        return a[3]
    if k == 'be':
        return a[2]
    if k == 'z':
        return a[1]
    raise AssertionError(a)


class Rope:
    __slots__ = ('atoms',)

    def __init__(self, atoms=()):
        out = []
        for a in atoms:
            if a[0] == 'c':
                if not a[1]:
                    continue
                if out and out[-1][0] == 'c':
                    out[-1] = ('c', out[-1][1] + a[1])
                    continue
            elif a[0] == 'b':
                v = simp(a[1])
                if isinstance(v, int):
                    if out and out[-1][0] == 'c':
                        out[-1] = ('c', out[-1][1] + bytes([v & 255]))
                    else:
                        out.append(('c', bytes([v & 255])))
                    continue
                a = ('b', v)
            elif a[0] == 'be':
                v = simp(a[1])
                if isinstance(v, int):
                    c = (v % (1 << (8 * a[2]))).to_bytes(a[2], 'big')
                    if out and out[-1][0] == 'c':
                        out[-1] = ('c', out[-1][1] + c)
                    else:
                        out.append(('c', c))
                    continue
            elif a[0] in ('s', 'z'):
                n = a[3] if a[0] == 's' else a[1]
                if isinstance(n, int) and n <= 0:
                    continue
                if a[0] == 's' and out and out[-1][0] == 's' and out[-1][1].eq(a[1]):
                    p = out[-1]
                    if same(simp(add(p[2], p[3])), simp(a[2])):
                        out[-1] = ('s', p[1], p[2], add(p[3], a[3]))
                        continue
            out.append(a)
        self.atoms = tuple(out)

    def __add__(self, o):
        return Rope(self.atoms + o.atoms)

    def len(self):
        n = 0
        for a in self.atoms:
            n = add(n, atom_len(a))
        return n

    def conc(self):
        """the bytes when all concrete, else None"""
        if not self.atoms:
            return b''
        if len(self.atoms) == 1 and self.atoms[0][0] == 'c':
            return self.atoms[0][1]
        return None

    def key(self):
        k = []
        for a in self.atoms:
            k.append(tuple((x.get_id() if is_z(x) else x) for x in a))
        return tuple(k)

    def __repr__(self):
        return 'Rope' + repr(list(self.atoms))


def R(*atoms):
    return Rope(atoms)


def rope_of(base):
    """all of a Bytes term"""
    return Rope((('s', base, 0, blen(base)),))


def conc_rope(b):
    return Rope((('c', bytes(b)),))


# ---------------------------------------------------------------- values

class V:
    __slots__ = ()


class StrV(V):
    __slots__ = ('rope',)

    def __init__(self, rope):
        self.rope = rope if isinstance(rope, Rope) else conc_rope(rope.encode() if isinstance(rope, str) else rope)

    def __repr__(self):
        c = self.rope.conc()
        return 'Str(%r)' % (c if c is not None else self.rope)


class FloatV(V):
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return 'Float(%s)' % self.t


class OpaqueV(V):
    """a value of Go type t known only as a term"""
    __slots__ = ('t', 'term')

    def __init__(self, t, term):
        self.t, self.term = t, term

    def __repr__(self):
        return 'Opaque(%s)' % (self.term,)


class PtrV(V):
    __slots__ = ('ref', 'path')

    def __init__(self, ref, path=()):
        self.ref, self.path = ref, path

    def __repr__(self):
        return 'Ptr(%s%s)' % (self.ref, ''.join('.%s' % p for p in self.path))


class SliceV(V):
    __slots__ = ('ref', 'off', 'len', 'cap')

    def __init__(self, ref, off, len, cap):
        self.ref, self.off, self.len, self.cap = ref, off, len, cap

    def __repr__(self):
        return 'Slice(%s,%s,%s)' % (self.ref, self.off, self.len)


class MapV(V):
    __slots__ = ('ref',)

    def __init__(self, ref):
        self.ref = ref

    def __repr__(self):
        return 'Map(%s)' % (self.ref,)


class StructV(V):
    __slots__ = ('t', 'f')

    def __init__(self, t, f):
        self.t, self.f = t, tuple(f)

    def with_(self, i, v):
        f = list(self.f)
        f[i] = v
        return StructV(self.t, f)

    def __repr__(self):
        return 'Struct%r' % (self.f,)


class ArrayV(V):
    __slots__ = ('t', 'f')

    def __init__(self, t, f):
        self.t, self.f = t, tuple(f)

    def with_(self, i, v):
        f = list(self.f)
        f[i] = v
        return ArrayV(self.t, f)

    def __repr__(self):
        return 'Array%r' % (self.f,)


class IfaceV(V):
    """dyn = (type id, value); or term; or neither = nil"""
    __slots__ = ('dyn', 'term')

    def __init__(self, dyn=None, term=None):
        self.dyn, self.term = dyn, term

    @property
    def isnil(self):
        return self.dyn is None and self.term is None

    def __repr__(self):
        if self.dyn:
            return 'Iface(%s,%r)' % self.dyn
        return 'Iface(%s)' % (self.term,)


NILI = IfaceV()


class FuncV(V):
    __slots__ = ('name', 'binds', 'native')

    def __init__(self, name, binds=(), native=None):
        self.name, self.binds, self.native = name, tuple(binds), native

    def __repr__(self):
        return 'Func(%s)' % self.name


class TupleV(V):
    __slots__ = ('f',)

    def __init__(self, f):
        self.f = tuple(f)

    def __repr__(self):
        return 'Tuple%r' % (self.f,)


class NatV(V):
    """a value of a modelled library type; d must not be mutated"""
    __slots__ = ('kind', 'd')

    def __init__(self, kind, **d):
        self.kind, self.d = kind, d

    def with_(self, **kw):
        d = dict(self.d)
        d.update(kw)
        return NatV(self.kind, **d)

    def __getattr__(self, k):
        try:
            return object.__getattribute__(self, 'd')[k]
        except KeyError:
            raise AttributeError(k)

    def __repr__(self):
        return '%s%r' % (self.kind, self.d)


class IterV(V):
    __slots__ = ('ref',)

    def __init__(self, ref):
        self.ref = ref


# ---------------------------------------------------------------- heap objects (immutable)

class Cell:
    __slots__ = ('v', 't')

    def __init__(self, v, t=None):
        self.v, self.t = v, t


class StackCell(Cell):
    """a local variable no pointer outlives"""
    __slots__ = ()


class ArrList:
    """backing array of known length"""
    __slots__ = ('et', 'f', 'frozen')

    def __init__(self, et, f, frozen=False):
        self.et, self.f, self.frozen = et, tuple(f), frozen


class ArrRope:
    """backing array of bytes with symbolic content"""
    __slots__ = ('rope', 'frozen')
    et = None

    def __init__(self, rope, frozen=False):
        self.rope, self.frozen = rope, frozen


class ArrZ:
    """backing array with contents in a z3 array (element sort given by codec)"""
    __slots__ = ('et', 'arr', 'n', 'frozen')

    def __init__(self, et, arr, n, frozen=False):
        self.et, self.arr, self.n, self.frozen = et, arr, n, frozen


class MapObj:
    """ents: tuple of (key value, value) on top of term (None = empty)"""
    __slots__ = ('t', 'ents', 'term')

    def __init__(self, t, ents=(), term=None):
        self.t, self.ents, self.term = t, tuple(ents), term


class State:
    __slots__ = ('pc', 'heap', 'ghost', 'trace', 'nref')

    def __init__(self):
        self.pc = []
        self.heap = {}
        self.ghost = {}
        self.trace = ()
        self.nref = 1

    def fork(self):
        s = State.__new__(State)
        s.pc = list(self.pc)
        s.heap = dict(self.heap)
        s.ghost = dict(self.ghost)
        s.trace = self.trace
        s.nref = self.nref
        return s

    def alloc(self, o):
        r = self.nref
        self.nref += 1
        self.heap[r] = o
        return r

    def assume(self, *cs):
        for c in cs:
            if isinstance(c, (list, tuple)):
                self.assume(*c)
                continue
            if c is True:
                continue
            if c is False:
                c = z3.BoolVal(False)
            self.pc.append(c)

    def note(self, s):
        self.trace = self.trace + (s,)


_quant = {}


def has_quant(e):
    """does the formula contain a quantifier"""
    k = e.get_id()
    r = _quant.get(k)
    if r is not None:
        return r[1]
    r = z3.is_quantifier(e) or any(has_quant(c) for c in e.children())
    _quant[k] = (e, r)
    return r


class Stack:
    """a solver whose assertion stack follows a path condition"""

    def __init__(self, axioms):
        self.s = z3.Solver()
        for x in axioms:
            self.s.add(x)
        self.stack = []

    def sync(self, pc):
        n = 0
        m = min(len(pc), len(self.stack))
        while n < m and pc[n] is self.stack[n]:
            n += 1
        d = len(self.stack) - n
        if d:
            self.s.pop(d)
            del self.stack[n:]
        for c in pc[n:]:
            self.s.push()
            self.s.add(c)
            self.stack.append(c)


class Smt:
    """quantifier free facts are tried first; quantified ones join only when they are needed"""

    def __init__(self):
        self.axioms = []
        self.reset()
        self.time = 0.0
        self.calls = 0
        self.model = None
        self.slow = []

    def reset(self):
        self.qf = Stack(self.axioms)
        self.full = Stack(self.axioms)

    def axiom(self, a):
        self.axioms.append(a)
        self.reset()

    def check(self, pc, extra=(), timeout=5000, full=True):
        """unsat is a proof; sat of the quantifier free part only counts when there is nothing else"""
        t0 = time.time()
        self.calls += 1
        qx = any(has_quant(e) for e in extra)
        qpc = [c for c in pc if has_quant(c)] if full else []
        r = self._one(self.qf, [c for c in pc if not has_quant(c)], [e for e in extra if not has_quant(e)], timeout)
        if r != z3.unsat and full and (qpc or qx):
            r = self._one(self.full, pc, extra, timeout)
        dt = time.time() - t0
        self.time += dt
        if dt > 1:
            self.slow.append((round(dt, 1), str(r), str(extra)[:200]))
        return r

    def _one(self, st, pc, extra, timeout):
        st.sync(pc)
        st.s.set('timeout', timeout)
        st.s.push()
        for e in extra:
            st.s.add(e)
        try:
            r = st.s.check()
            self.model = st.s.model() if r == z3.sat else None
        except z3.Z3Exception:
            r = z3.unknown
            self.model = None
        st.s.pop()
        return r


SMT = Smt()


def feasible(st, cond=True):
    if cond is False:
        return False
    c = simp(cond)
    if c is False:
        return False
    if c is True:
        extra = ()
    else:
        extra = (c,)
    return SMT.check(st.pc, extra, 4000, False) != z3.unsat


def valid(st, goal, timeout=8000):
    g = simp(goal)
    if g is True:
        return True
    if g is False:
        return SMT.check(st.pc, (), timeout) == z3.unsat
    return SMT.check(st.pc, (z3.Not(g),), timeout) == z3.unsat
