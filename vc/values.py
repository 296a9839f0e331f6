"""Conversion between Go values on the symbolic heap and z3 terms."""
import z3
from core import *

gempty = z3.Const('gempty', GMap)
gput = F('gput', GMap, Bytes, Any, GMap)
gget = F('gget', GMap, Bytes, Any)
ghas = F('ghas', GMap, Bytes, Bool)
glen = F('glen', GMap, Int)
gkey = F('gkey', GMap, Int, Bytes)   # some enumeration of the entries
gval = F('gval', GMap, Int, Any)
anynil = z3.Const('anynil', Any)
byte1 = F('byte1', Int, Bytes)
cat2 = F('cat2', Bytes, Bytes, Bytes)
bsub = F('bsub', Bytes, Int, Int, Bytes)
litid = F('litid', Bytes, Int)
isnilf = {}

TERM_ROPE = {}    # id of a Bytes term -> (term, Rope)
TERM_MAP = {}     # id of a GMap term -> (term, MapObj)
NAMED = {}       # id of a Bytes term -> (term, Rope)
TERM_BOX = {}     # id of an Any term -> (term, tid, leaves)
_lits = {}

NATIVE = {'bytes.Buffer', 'sync.Mutex', 'sync.RWMutex', 'time.Time', 'sync.Once', 'sync.WaitGroup',
          'bytes.Reader', 'strings.Builder', 'reflect.Value',
          'strings.Reader', 'bufio.Reader', 'bufio.Writer', 'sync/atomic.Bool', 'sync/atomic.Int32'}
NATIVE_ABS = {'reflect.Value'}


def rope_lit(b):
    if b not in _lits:
        t = z3.Const('lit:%s' % b.hex(), Bytes)
        _lits[b] = (t, len(_lits) + 1)
        TERM_ROPE[t.get_id()] = (t, conc_rope(b))
    return _lits[b]


class Vals:
    """mixed into the engine; needs self.P"""

    # ---------------------------------------------------------- bytes terms
    def bterm(self, st, rope):
        c = rope.conc()
        if c is not None:
            t, n = rope_lit(c)
            st.assume(litid(t) == n, blen(t) == len(c))
            return t
        ts = []
        for a in rope.atoms:
            if a[0] == 's':
                if same(simp(a[2]), 0) and same(simp(I(a[3])), simp(blen(a[1]))):
                    t = a[1]
                else:
                    t = bsub(a[1], I(a[2]), I(a[3]))
                    st.assume(blen(t) == I(a[3]))
            elif a[0] == 'c':
                t, n = rope_lit(a[1])
                st.assume(litid(t) == n, blen(t) == len(a[1]))
            elif a[0] == 'b':
                t = byte1(I(a[1]))
                st.assume(blen(t) == 1)
            elif a[0] == 'be':
                t = ufn('be%d' % a[2], Int, Bytes)(I(a[1]))
                st.assume(blen(t) == a[2])
            else:
                t = ufn('zeros', Int, Bytes)(I(a[1]))
                st.assume(blen(t) == I(a[1]))
            ts.append(t)
        t = ts[-1]
        for x in reversed(ts[:-1]):
            y = cat2(x, t)
            st.assume(blen(y) == blen(x) + blen(t))
            t = y
        if len(ts) > 1 or rope.atoms[0][0] != 's':
            TERM_ROPE[t.get_id()] = (t, rope)
        return t

    def brope(self, st, t):
        """rope of a Bytes term"""
        if t.get_id() in TERM_ROPE:
            return TERM_ROPE[t.get_id()][1]
        st.assume(blen(t) >= 0, blen(t) < (1 << 48))
        return rope_of(t)

    def str_eq(self, st, a, b):
        """formula: two ropes are equal"""
        ca, cb = a.conc(), b.conc()
        if ca is not None and cb is not None:
            return ca == cb
        if a.key() == b.key():
            return True
        if cb == b'':
            return eq(a.len(), 0)
        if ca == b'':
            return eq(b.len(), 0)
        if simp(eq(a.len(), b.len())) is False:
            return False
        n = simp(a.len())
        if isinstance(n, int) and n <= 20 and same(n, simp(b.len())) and all(x[0] in 'cb' for x in a.atoms + b.atoms):
            xs, ys = ([z for x in r.atoms for z in (x[1] if x[0] == 'c' else [x[1]])] for r in (a, b))
            return And(*[eq(x, y) for x, y in zip(xs, ys)])
        st_ = self.bterm(st, a) == self.bterm(st, b)
        return st_

    # ---------------------------------------------------------- shapes
    def sort(self, t):
        """leaf sort of a type that is one leaf, else None"""
        P = self.P
        if P.str(t) == 'time.Time':
            return None
        if P.str(t) in NATIVE:
            return Obj
        k = P.kind(t)
        if k == 'basic':
            b = P.basic(t)
            if P.intinfo(t):
                return Int
            if b in ('bool', 'untyped bool'):
                return Bool
            if b in ('string', 'untyped string'):
                return Bytes
            if b in ('float64', 'float32', 'untyped float'):
                return F64
            return Obj
        if k == 'iface':
            return Any
        if k in ('func', 'chan', 'other'):
            return Obj
        return None

    def sym(self, st, t, mk, path=''):
        """value of type t whose leaves are mk(path, sort)"""
        P = self.P
        if P.str(t) == 'time.Time':
            s, n = mk(path + '.s', Int), mk(path + '.n', Int)
            st.assume(s > -(1 << 60), s < (1 << 60), n >= 0, n < 1000000000)
            return NatV('time.Time', s=s, n=n, l=mk(path + '.l', Obj))
        if P.str(t) in NATIVE:
            return self.nat_sym(st, t, mk(path, Obj))
        k = P.kind(t)
        if k == 'basic':
            s = self.sort(t)
            x = mk(path, s)
            if s is Int:
                sg, n = P.intinfo(t)
                lo, hi = (-(1 << (n - 1)), (1 << (n - 1)) - 1) if sg else (0, (1 << n) - 1)
                st.assume(x >= lo, x <= hi)
                return x
            if s is Bytes:
                return StrV(self.brope(st, x))
            if s is F64:
                return FloatV(x)
            if s is Bool:
                return x
            return OpaqueV(t, x)
        if k == 'iface':
            x = mk(path, Any)
            st.assume(tag(x) >= 0)
            return IfaceV(term=x)
        if k == 'struct':
            return StructV(t, [self.sym(st, f['type'], mk, path + '.' + str(i)) for i, f in enumerate(P.fields(t))])
        if k == 'array':
            return ArrayV(t, [self.sym(st, P.elem(t), mk, path + '[%d]' % i) for i in range(P.u(t)['len'])])
        if k == 'slice':
            et = P.elem(t)
            if P.basic(et) in ('uint8', 'byte'):
                x = mk(path + '.b', Bytes)
                st.assume(blen(x) >= 0, blen(x) < (1 << 48))
                n = blen(x)
                return SliceV(st.alloc(ArrRope(self.brope(st, x), True)), 0, n, n)
            n = mk(path + '.len', Int)
            st.assume(n >= 0, n < (1 << 48))
            arr = mk(path + '.arr', z3.ArraySort(Int, self.esort(et)))
            return SliceV(st.alloc(ArrZ(et, arr, n, True)), 0, n, n)
        if k == 'map':
            m = mk(path + '.map', GMap)
            st.assume(glen(m) >= 0, glen(m) < (1 << 48))
            if m.get_id() in TERM_MAP:
                return MapV(st.alloc(TERM_MAP[m.get_id()][1]))
            return MapV(st.alloc(MapObj(t, (), m)))
        if k == 'ptr':
            x = mk(path, Int)
            v = simp(x)
            if v == 0 and isinstance(v, int):
                return PtrV(None)
            return PtrV(v)
        if k in ('func', 'chan', 'other'):
            return OpaqueV(t, mk(path, Obj))
        raise Unsupported('symbolic value of type ' + P.str(t))

    def nat_sym(self, st, t, x):
        s = self.P.str(t)
        if s in NATIVE_ABS:
            return NatV(s, t=x)
        raise Unsupported('symbolic ' + s)

    def leaves(self, st, t, v, path=''):
        """[(path, term)] of a value, the inverse of sym"""
        P = self.P
        s = P.str(t)
        if s == 'time.Time':
            return [(path + '.s', I(v.s)), (path + '.n', I(v.n)), (path + '.l', v.l)]
        if s in NATIVE:
            if isinstance(v, NatV) and s in NATIVE_ABS:
                return [(path, v.d['t'])]
            return [(path, fresh('nat', Obj))]
        k = P.kind(t)
        if k == 'basic':
            so = self.sort(t)
            if so is Int:
                return [(path, I(v))]
            if so is Bool:
                return [(path, B(v))]
            if so is Bytes:
                return [(path, self.bterm(st, v.rope))]
            if so is F64:
                return [(path, v.t)]
            return [(path, v.term)]
        if k == 'iface':
            return [(path, self.aterm(st, v))]
        if k == 'struct':
            r = []
            for i, f in enumerate(P.fields(t)):
                r += self.leaves(st, f['type'], v.f[i], path + '.' + str(i))
            return r
        if k == 'array':
            r = []
            for i in range(P.u(t)['len']):
                r += self.leaves(st, P.elem(t), v.f[i], path + '[%d]' % i)
            return r
        if k == 'slice':
            et = P.elem(t)
            if P.basic(et) in ('uint8', 'byte'):
                rp = self.slice_rope(st, v)
                if v.ref is not None:
                    self.freeze(st, v.ref)
                return [(path + '.b', self.bterm(st, rp))]
            arr, n = self.slice_arr(st, v, et)
            if v.ref is not None:
                self.freeze(st, v.ref)
            return [(path + '.len', I(n)), (path + '.arr', arr)]
        if k == 'map':
            m = self.mterm(st, v)
            if v.ref is not None:
                self.freeze(st, v.ref)
            return [(path + '.map', m)]
        if k == 'ptr':
            if v.ref is None:
                return [(path, z3.IntVal(0))]
            if v.path:
                return [(path, ufn('ptr' + '.'.join(str(p) for p in v.path), Int, Int)(I(v.ref)))]
            return [(path, I(v.ref))]
        if k in ('func', 'chan', 'other'):
            if isinstance(v, OpaqueV):
                return [(path, v.term)]
            return [(path, fresh('obj', Obj))]
        raise Unsupported('term of type ' + s)

    def freeze(self, st, ref):
        o = st.heap.get(ref)
        if isinstance(o, ArrList) and not o.frozen:
            st.heap[ref] = ArrList(o.et, o.f, True)
        elif isinstance(o, ArrRope) and not o.frozen:
            st.heap[ref] = ArrRope(o.rope, True)
        elif isinstance(o, ArrZ) and not o.frozen:
            st.heap[ref] = ArrZ(o.et, o.arr, o.n, True)

    # ---------------------------------------------------------- interfaces
    def boxfn(self, t, leaves):
        return ufn('mk<%s>' % self.P.str(t), *([x.sort() for _, x in leaves] + [Any]))

    def fldfn(self, t, path, sort):
        return ufn('fld<%s>%s' % (self.P.str(t), path), Any, sort)

    def box(self, st, t, v):
        """interface term holding value v of concrete type t"""
        ls = self.leaves(st, t, v)
        # an unboxed and unchanged value boxes to the term it came from
        a = self.origin(t, ls)
        if a is not None and valid(st, tag(a) == self.P.tagid(t), 2000):
            return a
        f = self.boxfn(t, ls)
        a = f(*[x for _, x in ls]) if ls else z3.Const('mk<%s>' % self.P.str(t), Any)
        st.assume(tag(a) == self.P.tagid(t))
        for p, x in ls:
            st.assume(self.fldfn(t, p, x.sort())(a) == x)
        TERM_BOX[a.get_id()] = (a, t, ls)
        return a

    def origin(self, t, ls):
        a = None
        for p, x in ls:
            if not (z3.is_app(x) and x.num_args() == 1 and x.arg(0).sort() == Any):
                return None
            if not x.decl().eq(self.fldfn(t, p, x.sort())):
                return None
            if a is not None and not a.eq(x.arg(0)):
                return None
            a = x.arg(0)
        return a

    def unbox(self, st, t, a):
        """value of concrete type t in interface term a (tag already known)"""
        return self.sym(st, t, lambda p, s: self._fld(t, p, s, a))

    def _fld(self, t, p, s, a):
        if a.get_id() in TERM_BOX:
            _, tt, ls = TERM_BOX[a.get_id()]
            if tt == t:
                for q, x in ls:
                    if q == p:
                        return x
        return self.fldfn(t, p, s)(a)

    def aterm(self, st, v):
        if isinstance(v, IfaceV):
            if v.term is not None:
                return v.term
            if v.dyn is None:
                st.assume(tag(anynil) == 0)
                return anynil
            if isinstance(v.dyn[0], str):
                a = fresh('native', Any)
                st.assume(tag(a) == 999983)
                return a
            return self.box(st, v.dyn[0], v.dyn[1])
        raise Unsupported('interface term of %r' % (v,))

    # ---------------------------------------------------------- array element codec
    def esort(self, et):
        if self.P.str(et) not in NATIVE:
            if self.P.intinfo(et):
                return Int
            if self.P.basic(et) == 'string':
                return Bytes
        return Any

    def eterm(self, st, et, v):
        s = self.esort(et)
        if s is Int:
            return I(v)
        if s is Bytes:
            return self.bterm(st, v.rope)
        if self.P.kind(et) == 'iface':
            return self.aterm(st, v)
        return self.box(st, et, v)

    def evalue(self, st, et, x):
        s = self.esort(et)
        if s is Int:
            sg, n = self.P.intinfo(et)
            lo, hi = (-(1 << (n - 1)), (1 << (n - 1)) - 1) if sg else (0, (1 << n) - 1)
            st.assume(x >= lo, x <= hi)
            return simp(x)
        if s is Bytes:
            return StrV(self.brope(st, x))
        if self.P.kind(et) == 'iface':
            st.assume(tag(x) >= 0)
            if x.get_id() in TERM_BOX:
                _, t, ls = TERM_BOX[x.get_id()]
            return IfaceV(term=x)
        st.assume(tag(x) == self.P.tagid(et))
        return self.unbox(st, et, x)

    def slice_arr(self, st, v, et):
        """z3 array and length of the elements of a slice"""
        if v.ref is None:
            return ufn('emptyarr' + self.esort(et).name(), z3.ArraySort(Int, self.esort(et)))(), 0
        o = st.heap[v.ref]
        if isinstance(o, ArrZ):
            if same(simp(v.off), 0):
                return o.arr, v.len
            a = ufn('arrfrom' + self.esort(et).name(), o.arr.sort(), Int, o.arr.sort())(o.arr, I(v.off))
            j = z3.Int('j')
            st.assume(z3.ForAll([j], z3.Select(a, j) == z3.Select(o.arr, j + I(v.off)), patterns=[z3.Select(a, j)]))
            return a, v.len
        if isinstance(o, ArrList):
            if not isinstance(v.off, int) or not isinstance(v.len, int):
                raise Unsupported('symbolic slice of a literal array')
            a = ufn('emptyarr' + self.esort(et).name(), z3.ArraySort(Int, self.esort(et)))()
            for i in range(v.len):
                a = z3.Store(a, i, self.eterm(st, et, o.f[v.off + i]))
            return a, v.len
        raise Unsupported('array of %r' % o)

    # ---------------------------------------------------------- byte slices
    def slice_rope(self, st, v):
        if v.ref is None:
            return Rope()
        o = st.heap[v.ref]
        if isinstance(o, ArrList):
            if isinstance(v.off, int) and isinstance(v.len, int):
                return Rope([('b', I(x)) if is_z(x) else ('c', bytes([x])) for x in o.f[v.off:v.off + v.len]])
            whole = Rope([('b', I(x)) if is_z(x) else ('c', bytes([x])) for x in o.f])
            return self.rope_sub(st, whole, v.off, v.len)
        if isinstance(o, ArrRope):
            return self.rope_sub(st, o.rope, v.off, v.len)
        raise Unsupported('bytes of %r' % o)

    def expand(self, st, rope):
        """byte strings named only for the length of a loop, written out again"""
        if not any(a[0] == 's' and a[1].get_id() in NAMED for a in rope.atoms):
            return rope
        out = []
        for a in rope.atoms:
            if a[0] == 's' and a[1].get_id() in NAMED:
                r = NAMED[a[1].get_id()][1]
                if same(simp(a[2]), 0) and valid(st, eq(a[3], blen(a[1]))):
                    out += list(r.atoms)
                    continue
                x = self.rope_split(st, r, a[2])
                x = x and self.rope_split(st, x[1], a[3])
                if x:
                    out += list(x[0].atoms)
                    continue
            out.append(a)
        return Rope(out)

    def named(self, st, rope):
        """a single name for a rope"""
        if len(rope.atoms) == 1 and rope.atoms[0][0] == 's':
            return rope
        t = fresh('named', Bytes)
        st.assume(blen(t) == I(rope.len()))
        NAMED[t.get_id()] = (t, rope)
        return rope_of(t)

    def rope_split(self, st, rope, n):
        """split at offset n (0 <= n <= len assumed known); None when the position cannot be found"""
        pre = []
        atoms = list(rope.atoms)
        n = simp(n)
        while True:
            if isinstance(n, int) and n == 0:
                return Rope(pre), Rope(atoms)
            if not atoms:
                if valid(st, eq(n, 0)):
                    return Rope(pre), Rope(())
                return None
            a = atoms[0]
            al = atom_len(a)
            if isinstance(n, int) and isinstance(al, int):
                if n >= al:
                    pre.append(a)
                    atoms.pop(0)
                    n -= al
                    continue
                x, y = self.atom_split(a, n)
                return Rope(pre + [x]), Rope([y] + atoms[1:])
            if valid(st, le(al, n)):
                pre.append(a)
                atoms.pop(0)
                n = sub(n, al)
                continue
            if valid(st, le(n, al)):
                if valid(st, eq(n, 0)):
                    return Rope(pre), Rope(atoms)
                x = self.atom_split(a, n)
                if x is None:
                    return None
                return Rope(pre + [x[0]]), Rope([x[1]] + atoms[1:])
            return None

    def atom_split(self, a, n):
        k = a[0]
        if k == 'c' and isinstance(n, int):
            return ('c', a[1][:n]), ('c', a[1][n:])
        if k == 's':
            return ('s', a[1], a[2], n), ('s', a[1], add(a[2], n), sub(a[3], n))
        if k == 'z':
            return ('z', n), ('z', sub(a[1], n))
        if k == 'be' and isinstance(n, int):
            x = I(a[1])
            hi = simp((x % (1 << (8 * a[2]))) / (1 << (8 * (a[2] - n))))
            return ('be', hi, n), ('be', x, a[2] - n)
        return None

    def rope_sub(self, st, rope, off, n):
        s = self.rope_split(st, rope, off)
        if s is None:
            raise Unsupported('offset %s in %r' % (off, rope))
        s2 = self.rope_split(st, s[1], n)
        if s2 is None:
            raise Unsupported('length %s in %r' % (n, s[1]))
        return s2[0]

    def rope_at(self, st, rope, i):
        s = self.rope_split(st, rope, i)
        if s is None and len(rope.atoms) == 1 and rope.atoms[0][0] == 'c':
            # any of the characters of a constant
            x = fresh('char', Int)
            st.assume(x >= min(rope.atoms[0][1]), x <= max(rope.atoms[0][1]))
            return x
        if s is None or not s[1].atoms:
            raise Unsupported('index %s in %r' % (i, rope))
        a = s[1].atoms[0]
        if a[0] == 'c':
            return a[1][0]
        if a[0] == 'b':
            return a[1]
        if a[0] == 'z':
            return 0
        if a[0] == 'be':
            return simp((I(a[1]) % (1 << (8 * a[2]))) / (1 << (8 * (a[2] - 1))))
        if not valid(st, lt(0, a[3])):
            raise Unsupported('index %s in %r' % (i, rope))
        x = bat(a[1], I(a[2]))
        st.assume(x >= 0, x <= 255)
        return x

    # ---------------------------------------------------------- maps
    def mterm(self, st, v):
        if v.ref is None:
            st.assume(glen(gempty) == 0)
            return gempty
        o = st.heap[v.ref]
        return self.mobj_term(st, o)

    def mobj_term(self, st, o):
        t = o.term
        if t is None:
            t = gempty
            st.assume(glen(gempty) == 0)
        et = self.P.elem(o.t)
        done = []
        for k, x in o.ents:
            kt = self.bterm(st, k.rope)
            t2 = gput(t, kt, self.eterm_any(st, et, x))
            # length
            if self.ents_distinct(st, done, k) and o.term is None:
                st.assume(glen(t2) == glen(t) + 1)
            else:
                st.assume(glen(t2) == glen(t) + z3.If(ghas(t, kt), 0, 1))
            done.append(k)
            t = t2
        if o.ents:
            TERM_MAP[t.get_id()] = (t, o)
        return t

    def ents_distinct(self, st, done, k):
        for d in done:
            a, b = d.rope.conc(), k.rope.conc()
            if a is None or b is None or a == b:
                return False
        return True

    def eterm_any(self, st, et, v):
        if self.P.kind(et) == 'iface':
            return self.aterm(st, v)
        return self.box(st, et, v)

    def evalue_any(self, st, et, x):
        if self.P.kind(et) == 'iface':
            st.assume(tag(x) >= 0)
            return IfaceV(term=x)
        st.assume(tag(x) == self.P.tagid(et))
        return self.unbox(st, et, x)
