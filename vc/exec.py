"""Symbolic execution of SSA functions, path by path, callees by contract or by body."""
import time
import z3
from core import *
from values import *
from ssa import Prog
import merge

MODELS = {}        # function name -> model of a library function
INVOKES = {}       # (native kind or interface type, method) -> model
GLOBALS = {}       # global name -> function(ex, st) giving the address cell value


def model(*names):
    def d(f):
        for n in names:
            MODELS[n] = f
        return f
    return d


def invoke(*keys):
    def d(f):
        for k in keys:
            INVOKES[k] = f
        return f
    return d


class Frame:
    __slots__ = ('fn', 'f', 'depth', 'loops', 'stack', 'nref0')

    def __init__(self, fn, f, depth, loops, stack):
        self.fn, self.f, self.depth, self.loops, self.stack = fn, f, depth, loops, stack


class Oblig:
    __slots__ = ('name', 'ok', 'why', 'time', 'trace', 'model')

    def __init__(self, name, ok, why='', t=0.0, trace=(), model=None):
        self.name, self.ok, self.why, self.time, self.trace, self.model = name, ok, why, t, trace, model


NATIVE_IS = {}


def core_ids():
    import core
    return core._ids


class Engine(Vals):
    def __init__(self, prog):
        self.P = prog
        self.contracts = {}
        self.loopspecs = []
        self.obl = []
        self.inlined = set()
        self.used_contracts = set()
        self.used_models = set()
        self.paths = 0
        self.top = None
        self.curline = None
        self.deadline = None
        self.silent = 0
        self.on_make = None
        self.unroll = 70
        self.maxpaths = 60000
        self.ctx = {}
        self.implax = set()
        self.fr = None
        self.on_access = None

    # ============================================================ obligations
    def ob(self, name, ok, why='', st=None, t=0.0):
        if self.silent:
            self.silent_fail = self.silent_fail or not ok
            return ok
        m = None
        if not ok and st is not None:
            try:
                if SMT.check(st.pc, (), 3000) == z3.sat:
                    m = SMT.model
            except z3.Z3Exception:
                pass
        self.obl.append(Oblig(name, ok, why, t, st.trace if st is not None else (), m))
        return ok

    def prove(self, st, goal, name, timeout=10000):
        """an obligation; assumed afterwards so that one failure is reported once"""
        t0 = time.time()
        ok = valid(st, goal, timeout)
        self.ob(name, ok, '' if ok else 'not provable: %s' % str(simp(goal))[:300], st, time.time() - t0)
        if not ok:
            st.assume(goal)
        return ok

    def fits(self, st, x, t):
        """x wrapped into integer type t"""
        sg, n = self.P.intinfo(t)
        lo, hi = (-(1 << (n - 1)), (1 << (n - 1)) - 1) if sg else (0, (1 << n) - 1)
        if isinstance(x, int):
            x &= (1 << n) - 1
            if sg and x > hi:
                x -= 1 << n
            return x
        if valid(st, z3.And(x >= lo, x <= hi), 3000):
            return x
        if sg:
            return simp((x + (1 << (n - 1))) % (1 << n) - (1 << (n - 1)))
        return simp(x % (1 << n))

    # ============================================================ zero values
    def zero(self, st, t):
        P = self.P
        s = P.str(t)
        if s in NATIVE:
            return self.nat_zero(st, s)
        k = P.kind(t)
        if k == 'basic':
            b = P.basic(t)
            if P.intinfo(t):
                return 0
            if b == 'bool':
                return False
            if b == 'string':
                return StrV(Rope())
            if b in ('float64', 'float32'):
                return FloatV(z3.Const('f64zero', F64))
            return OpaqueV(t, z3.Const('zero<%s>' % s, Obj))
        if k == 'iface':
            return NILI
        if k == 'ptr':
            return PtrV(None)
        if k == 'slice':
            return SliceV(None, 0, 0, 0)
        if k == 'map':
            return MapV(None)
        if k == 'struct':
            return StructV(t, [self.zero(st, f['type']) for f in P.fields(t)])
        if k == 'array':
            return ArrayV(t, [self.zero(st, P.elem(t)) for _ in range(P.u(t)['len'])])
        if k in ('func', 'chan'):
            return FuncV(None)
        raise Unsupported('zero of ' + s)

    def nat_zero(self, st, s):
        if s in ('bytes.Buffer', 'strings.Builder'):
            return NatV('Buf', rope=Rope())
        if s in ('sync.Mutex', 'sync.RWMutex'):
            return NatV('Mutex', w=0, r=0)
        if s == 'time.Time':
            return NatV('time.Time', s=-62135596800, n=0, l=z3.Const('loc.utc', Obj))
        if s == 'crypto/tls.Config' or s == 'net/url.URL' or s == 'net.Dialer' or s == 'crypto/tls.Certificate':
            return NatV(s)
        return NatV(s, t=z3.Const('zero<%s>' % s, Obj))

    # ============================================================ memory
    def newcell(self, st, t):
        if self.P.kind(t) == 'array' and self.P.str(t) not in NATIVE:
            n = self.P.u(t)['len']
            et = self.P.elem(t)
            return st.alloc(ArrList(et, [self.zero(st, et) for _ in range(n)]))
        return st.alloc(Cell(self.zero(st, t), t))

    def load(self, st, p):
        if not isinstance(p, PtrV):
            raise Unsupported('load through %r' % (p,))
        if not isinstance(p.ref, int):
            return self.load_sym(st, p)
        o = st.heap.get(p.ref)
        if o is None:
            raise Unsupported('load from unknown object %r' % p)
        path = p.path
        if isinstance(o, Cell):
            v = o.v
        elif isinstance(o, ArrList):
            if not path:
                return ArrayV(None, o.f)
            i = path[0]
            if isinstance(i, int):
                v = o.f[i]
            else:
                v = self.list_at(st, o, i)
            path = path[1:]
        elif isinstance(o, ArrRope):
            return self.rope_at(st, o.rope, path[0])
        elif isinstance(o, ArrZ):
            v = self.evalue(st, o.et, z3.simplify(z3.Select(o.arr, I(path[0]))))
            path = path[1:]
        else:
            raise Unsupported('load from %r' % o)
        for i in path:
            if isinstance(v, NatV):
                v = v.d[i]
            else:
                v = v.f[i]
        return v

    def list_at(self, st, o, i):
        et = o.et
        if self.P.intinfo(et):
            r = I(o.f[-1])
            for j in range(len(o.f) - 2, -1, -1):
                r = z3.If(I(i) == j, I(o.f[j]), r)
            return simp(r)
        raise Unsupported('symbolic index of a literal array')

    def load_sym(self, st, p):
        raise Unsupported('load through symbolic pointer')

    def store_sym(self, st, p, v):
        raise Unsupported('store through symbolic pointer')

    def store(self, st, p, v):
        if not isinstance(p.ref, int):
            return self.store_sym(st, p, v)
        o = st.heap.get(p.ref)
        if o is None:
            raise Unsupported('store to unknown object')
        if isinstance(o, Cell):
            st.heap[p.ref] = o.__class__(self.upd(o.v, p.path, v), o.t)
            return
        if getattr(o, 'frozen', False):
            raise Unsupported('write to a slice whose contents are shared')
        if isinstance(o, ArrList):
            if not p.path:
                st.heap[p.ref] = ArrList(o.et, v.f)
                return
            i = p.path[0]
            if isinstance(i, int):
                f = list(o.f)
                f[i] = self.upd(f[i], p.path[1:], v)
                st.heap[p.ref] = ArrList(o.et, f)
                return
            if self.P.intinfo(o.et) and len(p.path) == 1:
                st.heap[p.ref] = ArrList(o.et, [simp(z3.If(I(i) == j, I(v), I(x))) for j, x in enumerate(o.f)])
                return
            raise Unsupported('symbolic index store')
        if isinstance(o, ArrRope):
            s = self.rope_split(st, o.rope, p.path[0])
            if s is None:
                raise Unsupported('byte store at %s' % p.path[0])
            s2 = self.rope_split(st, s[1], 1)
            if s2 is None:
                raise Unsupported('byte store')
            st.heap[p.ref] = ArrRope(s[0] + Rope((('b', I(v)),)) + s2[1])
            return
        if isinstance(o, ArrZ):
            x = v
            if len(p.path) > 1:
                old = self.evalue(st, o.et, z3.Select(o.arr, I(p.path[0])))
                x = self.upd(old, p.path[1:], v)
            st.heap[p.ref] = ArrZ(o.et, z3.Store(o.arr, I(p.path[0]), self.eterm(st, o.et, x)), o.n)
            return
        raise Unsupported('store to %r' % o)

    def upd(self, v, path, x):
        if not path:
            return x
        if isinstance(v, NatV):
            return v.with_(**{path[0]: self.upd(v.d.get(path[0]), path[1:], x)})
        return v.with_(path[0], self.upd(v.f[path[0]], path[1:], x))

    # ============================================================ running functions
    def run(self, st, fname, args, binds=(), stack=()):
        """all outcomes of executing the body of fname: [(state, 'ret'|'panic', value)]"""
        f = self.P.funcs.get(fname)
        if f is None or not f['blocks']:
            raise Unsupported('no body for ' + fname)
        if len(stack) > 40:
            raise Unsupported('inlining too deep at ' + fname)
        regs = {}
        if len(args) != len(f['params']):
            raise Unsupported('argument count of ' + fname)
        for p, a in zip(f['params'], args):
            regs[p['n']] = a
        for p, a in zip(f['free'], binds):
            regs['&' + p['n']] = a
        fr = Frame(fname, f, len(stack), self.P.loops(fname), stack + (fname,))
        outs = []
        work = [(st, 0, -1, 0, regs)]
        fr.nref0 = st.nref
        while work:
            item = work.pop() if len(work) < 2 or not self.ctx.get('join') else merge.next_item(self, fr, work)
            self.paths += 1
            if self.paths > self.maxpaths:
                raise Unsupported('too many paths')
            if self.deadline and time.time() > self.deadline:
                raise Unsupported('time limit')
            self.step(fr, item, work, outs)
        return outs

    def enter(self, fr, st, b, prev, regs, work, outs):
        """jump to block b"""
        if b in fr.loops:
            body = fr.loops[b]
            key = ('loop', b)
            if prev in body and key in regs:
                ctx = regs[key]
                if ctx is not None:
                    ctx.back(st, prev, regs)
                    return
            elif prev not in body:
                regs = dict(regs)
                regs.pop(('cnt', b), None)
                ctx = self.loop_entry(fr, st, b, prev, regs)
                if ctx is not None:
                    ctx.start(work, outs)
                    return
                regs[key] = None
            c = regs.get(('cnt', b), 0) + 1
            if c > self.unroll:
                raise Unsupported('loop in %s without an invariant' % fr.fn)
            regs = dict(regs)
            regs[('cnt', b)] = c
        # phis
        blk = fr.f['blocks'][b]
        pi = None
        new = None
        idx = 0
        for ins in blk['instrs']:
            if ins['op'] != 'Phi':
                break
            if pi is None:
                pi = blk['preds'].index(prev)
                new = {}
            new[ins['r']] = self.val(st, regs, ins['edges'][pi])
            idx += 1
        if new:
            regs = dict(regs)
            regs.update(new)
        work.append((st, b, prev, idx, regs))

    def loop_entry(self, fr, st, b, prev, regs):
        for spec in self.loopspecs:
            ctx = LoopCtx(self, fr, st, b, prev, regs, spec)
            d = spec.applies(ctx)
            if d:
                ctx.d = d
                return ctx
        return None

    def val(self, st, regs, o):
        k = o['k']
        if k == 'reg':
            return regs[o['n']]
        if k == 'const':
            t = o['t']
            if 'nil' in o:
                return self.zero(st, t)
            if 'bool' in o:
                return o['bool']
            if 'str' in o:
                return StrV(conc_rope(bytes(o['str'])))
            if 'int' in o:
                if self.P.basic(t) in ('float64', 'float32', 'untyped float'):
                    return FloatV(ufn('f64const_' + o['int'], F64)())
                return int(o['int'])
            if 'float' in o:
                return FloatV(ufn('f64const_' + o['float'], F64)())
            raise Unsupported('constant %s' % o)
        if k == 'free':
            return regs['&' + o['n']]
        if k == 'func':
            return FuncV(o['n'])
        if k == 'global':
            return self.globaladdr(st, o['n'], o['t'])
        if k == 'builtin':
            return FuncV('builtin:' + o['n'])
        raise Unsupported('operand %s' % o)

    def globaladdr(self, st, name, t):
        g = st.ghost.get(('global', name))
        if g is not None:
            return g
        et = self.P.elem(t)
        if name in GLOBALS:
            v = GLOBALS[name](self, st, et)
        else:
            v = self.global_init(st, name, et)
        ref = st.alloc(Cell(v, et) if not isinstance(v, (ArrList, ArrRope)) else v)
        p = PtrV(ref)
        st.ghost[('global', name)] = p
        return p

    def global_init(self, st, name, et):
        """value a package variable has after initialisation, when it is never assigned elsewhere"""
        tab = self.init_table()
        if name in self.assigned:
            raise Unsupported('variable %s is assigned outside its initialiser' % name)
        if name not in tab:
            if name.split('.')[-1].startswith('Err') or name in ('io.EOF', 'io.ErrUnexpectedEOF'):
                a = z3.Const('global:' + name, Any)
                st.assume(tag(a) > 0, ufn('globid', Any, Int)(a) == self.gid(name))
                return IfaceV(term=a)
            z = self.zero(st, et) if self.P.kind(et) == 'struct' else None
            if isinstance(z, NatV) and z.kind == 'Mutex' or isinstance(z, StructV) and any(isinstance(x, NatV) and x.kind == 'Mutex' for x in z.f):
                return z
            raise Unsupported('package variable ' + name)
        return self.eval_init(st, tab[name])

    def gid(self, name):
        d = self.ctx.setdefault('gids', {})
        if name not in d:
            d[name] = len(d) + 1
        return d[name]

    def init_table(self):
        """package variable -> (init function, block, index of its only store)"""
        if hasattr(self, '_init'):
            return self._init
        tab = {}
        self.assigned = set()
        multi = set()
        for fn, f in self.P.funcs.items():
            isinit = fn.endswith('.init') and f.get('synthetic')
            for bi, b in enumerate(f['blocks']):
                for ii, ins in enumerate(b['instrs']):
                    if ins['op'] == 'Store' and ins['addr']['k'] == 'global':
                        g = ins['addr']['n']
                        if not isinit:
                            self.assigned.add(g)
                        elif g in tab:
                            multi.add(g)
                        else:
                            tab[g] = (fn, bi, ii)
        for g in multi:
            tab.pop(g)
        self._init = tab
        return tab

    def eval_init(self, st, pos):
        """evaluate the straight-line initialiser expression stored at pos"""
        fn, bi, ii = pos
        f = self.P.funcs[fn]
        blk = f['blocks'][bi]
        ins = blk['instrs'][ii]
        # run the backward slice of the store inside its block
        need = set()
        keep = [False] * len(blk['instrs'])

        def ops(x):
            r = []
            for k, v in x.items():
                if isinstance(v, dict) and 'k' in v:
                    r.append(v)
                elif isinstance(v, list):
                    r += [y for y in v if isinstance(y, dict) and 'k' in y]
            return r
        if ins['v']['k'] == 'reg':
            need.add(ins['v']['n'])
        ch = True
        while ch:
            ch = False
            for j in range(ii - 1, -1, -1):
                x = blk['instrs'][j]
                if keep[j]:
                    continue
                use = x.get('r') in need
                if x['op'] == 'Store' and x['addr']['k'] == 'reg' and x['addr']['n'] in need:
                    use = True
                if x['op'] == 'MapUpdate' and x['m']['k'] == 'reg' and x['m']['n'] in need:
                    use = True
                if x['op'] in ('IndexAddr', 'FieldAddr') and x['x']['k'] == 'reg' and x['x']['n'] in need:
                    use = True
                if use:
                    keep[j] = True
                    ch = True
                    for o in ops(x):
                        if o['k'] == 'reg':
                            need.add(o['n'])
                    if x.get('r'):
                        need.add(x['r'])
        fr = Frame(fn, f, 1, {}, (fn,))
        regs = {}
        outs = []
        for j in range(ii):
            if keep[j]:
                res = self.instr(fr, st, blk['instrs'][j], regs, outs)
                if isinstance(res, list):
                    if len(res) != 1 or res[0][1] != 'ret':
                        raise Unsupported('initialiser of package variable')
                    s2, _, v = res[0]
                    if s2 is not st:
                        st.pc, st.heap, st.ghost, st.nref = s2.pc, s2.heap, s2.ghost, s2.nref
                    regs[blk['instrs'][j]['r']] = v
        return self.val(st, regs, ins['v'])

    # ------------------------------------------------------------ one work item
    def step(self, fr, item, work, outs):
        st, b, prev, idx, regs = item
        blk = fr.f['blocks'][b]
        instrs = blk['instrs']
        n = len(instrs)
        regs = dict(regs)
        while idx < n:
            ins = instrs[idx]
            op = ins['op']
            self.curline = (fr.fn, ins.get('line', self.curline[1] if self.curline else 0))
            if op == 'Jump':
                self.enter(fr, st, blk['succs'][0], b, regs, work, outs)
                return
            if op == 'If':
                c = self.val(st, regs, ins['x'])
                c = simp(c)
                if c is True or c is False:
                    self.enter(fr, st, blk['succs'][0 if c else 1], b, regs, work, outs)
                    return
                nc = Not(c)
                if not feasible(st, c):
                    st.assume(nc)
                    self.enter(fr, st, blk['succs'][1], b, regs, work, outs)
                    return
                if not feasible(st, nc):
                    st.assume(c)
                    self.enter(fr, st, blk['succs'][0], b, regs, work, outs)
                    return
                s2 = st.fork()
                s2.assume(nc)
                s2.note((self.curline, 'else'))
                self.enter(fr, s2, blk['succs'][1], b, regs, work, outs)
                st.assume(c)
                st.note((self.curline, 'then'))
                self.enter(fr, st, blk['succs'][0], b, regs, work, outs)
                return
            if op == 'Return':
                vs = [self.val(st, regs, x) for x in ins['vals']]
                outs.append((st, 'ret', vs[0] if len(vs) == 1 else TupleV(vs)))
                return
            if op == 'Panic':
                self.dopanic(fr, st, regs, 'explicit panic at %s:%s' % self.curline, outs)
                return
            if op == 'Defer':
                d = self.prepcall(st, regs, ins)
                regs['__defers'] = regs.get('__defers', ()) + (d,)
                idx += 1
                continue
            if op == 'RunDefers':
                ds = regs.get('__defers', ())
                regs['__defers'] = ()
                res = self.rundefers(fr, st, ds)
                for s2, k, v in res[1:]:
                    if k == 'ret':
                        work.append((s2, b, prev, idx + 1, regs))
                    else:
                        outs.append((s2, k, v))
                s2, k, v = res[0]
                if k != 'ret':
                    outs.append((s2, k, v))
                    return
                st = s2
                idx += 1
                continue
            pouts = []
            res = self.instr(fr, st, ins, regs, pouts)
            for s2, k, v in pouts:
                self.dopanic(fr, s2, regs, v, outs)
            if res is None:
                idx += 1
                continue
            if res == 'dead':
                return
            # list of outcomes of an instruction with result register
            cont = []
            for s2, k, v in res:
                if k == 'ret':
                    cont.append((s2, v))
                else:
                    self.dopanic(fr, s2, regs, v, outs)
            if not cont:
                return
            for s2, v in cont[1:]:
                r2 = dict(regs)
                if ins.get('r'):
                    r2[ins['r']] = v
                work.append((s2, b, prev, idx + 1, r2))
            st, v = cont[0]
            if ins.get('r'):
                regs[ins['r']] = v
            idx += 1
        raise Unsupported('block without terminator')

    def dopanic(self, fr, st, regs, what, outs):
        ds = regs.get('__defers', ())
        if ds:
            for s2, k, v in self.rundefers(fr, st, ds):
                outs.append((s2, 'panic', what))
        else:
            outs.append((st, 'panic', what))

    def rundefers(self, fr, st, ds):
        cur = [(st, 'ret', None)]
        for d in reversed(ds):
            nxt = []
            for s, k, v in cur:
                for s2, k2, v2 in self.docall(fr, s, d):
                    nxt.append((s2, k2 if k == 'ret' else k, v2 if k == 'ret' else v))
            cur = nxt
        return cur

    def guard(self, st, cond, what, pouts):
        """cond must hold or the program panics; returns False when this path always panics"""
        cond = simp(cond)
        if cond is True:
            return True
        if cond is not False and valid(st, cond):
            if not self.silent:
                self.obl.append(Oblig('no panic: %s at %s:%s' % ((what,) + self.short()), True))
            return True
        if cond is False or feasible(st, Not(cond)):
            s2 = st.fork()
            s2.assume(Not(cond))
            pouts.append((s2, 'panic', '%s at %s:%s' % ((what,) + self.short())))
            if cond is False:
                return False
        st.assume(cond)
        return feasible(st)

    def short(self):
        fn, ln = self.curline
        return fn.replace('github.com/mindstand/go-bolt/', ''), ln

    # ------------------------------------------------------------ instructions
    def instr(self, fr, st, ins, regs, pouts):
        op = ins['op']
        P = self.P
        v = lambda k: self.val(st, regs, ins[k])
        r = ins.get('r')
        if op == 'Alloc':
            et = P.elem(ins['t'])
            regs[r] = PtrV(self.newcell(st, et))
            if not ins.get('heap', True) and type(st.heap[regs[r].ref]) is Cell:
                o = st.heap[regs[r].ref]
                st.heap[regs[r].ref] = StackCell(o.v, o.t)
            return None
        if op == 'Store':
            p = v('addr')
            x = v('v')
            if isinstance(p, PtrV) and p.ref is None:
                pouts.append((st, 'panic', 'nil dereference at %s:%s' % self.short()))
                return 'dead'
            if isinstance(p, PtrV) and is_z(p.ref):
                if not self.guard(st, p.ref != 0, 'nil dereference', pouts):
                    return 'dead'
            if self.on_access:
                self.on_access(self, st, p, 'write')
            self.store(st, p, x)
            return None
        if op == 'UnOp':
            tok = ins['tok']
            x = v('x')
            if tok == '*':
                if isinstance(x, PtrV) and x.ref is None:
                    pouts.append((st, 'panic', 'nil dereference at %s:%s' % self.short()))
                    return 'dead'
                if isinstance(x, PtrV) and is_z(x.ref):
                    if not self.guard(st, x.ref != 0, 'nil dereference', pouts):
                        return 'dead'
                if self.on_access:
                    self.on_access(self, st, x, 'read')
                regs[r] = self.load(st, x)
                return None
            if tok == '!':
                regs[r] = simp(Not(x))
                return None
            if tok == '-':
                if isinstance(x, FloatV):
                    regs[r] = FloatV(ufn('f64neg', F64, F64)(x.t))
                else:
                    regs[r] = self.fits(st, sub(0, x), ins['t'])
                return None
            if tok == '^':
                sg, n = P.intinfo(ins['t'])
                regs[r] = sub(-1, x) if sg else sub((1 << n) - 1, x)
                return None
            if tok == '<-':
                return self.recv(st, x, ins)
            raise Unsupported('unary ' + tok)
        if op == 'BinOp':
            return self.binop(fr, st, ins, regs, v('x'), v('y'), pouts)
        if op == 'FieldAddr':
            x = v('x')
            if x.ref is None:
                pouts.append((st, 'panic', 'nil dereference at %s:%s' % self.short()))
                return 'dead'
            if is_z(x.ref):
                if not self.guard(st, x.ref != 0, 'nil dereference', pouts):
                    return 'dead'
            regs[r] = PtrV(x.ref, x.path + (self.fieldkey(ins['x']['t'], ins['field']),))
            return None
        if op == 'Field':
            x = v('x')
            k = self.fieldkey2(ins['x']['t'], ins['field'])
            regs[r] = x.d[k] if isinstance(x, NatV) else x.f[k]
            return None
        if op == 'IndexAddr':
            x = v('x')
            i = v('index')
            if isinstance(x, PtrV):       # pointer to array
                o = st.heap.get(x.ref) if x.ref is not None else None
                if x.path or not isinstance(o, (ArrList, ArrRope)):
                    n = P.u(P.elem(ins['x']['t']))['len']
                    if not self.guard(st, And(le(0, i), lt(i, n)), 'index out of range', pouts):
                        return 'dead'
                    regs[r] = PtrV(x.ref, x.path + (i,))
                    return None
                n = len(o.f) if isinstance(o, ArrList) else o.rope.len()
                if not self.guard(st, And(le(0, i), lt(i, n)), 'index out of range', pouts):
                    return 'dead'
                regs[r] = PtrV(x.ref, (i,))
                return None
            if not self.guard(st, And(le(0, i), lt(i, x.len)), 'index out of range', pouts):
                return 'dead'
            regs[r] = PtrV(x.ref, (add(x.off, i),))
            return None
        if op == 'Index':
            x = v('x')
            i = v('index')
            if isinstance(x, StrV):
                if not self.guard(st, And(le(0, i), lt(i, x.rope.len())), 'index out of range', pouts):
                    return 'dead'
                regs[r] = self.rope_at(st, x.rope, i)
                return None
            if isinstance(i, int):
                regs[r] = x.f[i]
                return None
            raise Unsupported('symbolic array index')
        if op == 'Lookup':
            return self.lookup(st, ins, regs, v('x'), v('index'), pouts)
        if op == 'MapUpdate':
            m = v('m')
            if m.ref is None:
                pouts.append((st, 'panic', 'assignment to entry in nil map at %s:%s' % self.short()))
                return 'dead'
            return self.mapupdate(st, m, v('key'), v('v'), ins)
        if op == 'MakeMap':
            regs[r] = MapV(st.alloc(MapObj(ins['t'])))
            return None
        if op == 'MakeSlice':
            n = v('len')
            c = v('cap')
            if not self.guard(st, And(le(0, n), le(n, c)), 'makeslice: len out of range', pouts):
                return 'dead'
            et = P.elem(ins['t'])
            if self.on_make:
                self.on_make(self, st, c, et)
            if isinstance(n, int) and n <= 4096:
                if isinstance(c, int) and c > n and c <= 4096:
                    ref = st.alloc(ArrList(et, [self.zero(st, et) for _ in range(c)]))
                else:
                    ref = st.alloc(ArrList(et, [self.zero(st, et) for _ in range(n)]))
                    c = n if not isinstance(c, int) else c
            elif P.basic(et) in ('uint8', 'byte'):
                ref = st.alloc(ArrRope(Rope((('z', n),))))
            else:
                z = self.eterm(st, et, self.zero(st, et))
                a = z3.K(Int, z)
                ref = st.alloc(ArrZ(et, a, n))
            regs[r] = SliceV(ref, 0, n, c)
            return None
        if op == 'Slice':
            return self.slice(st, ins, regs, pouts)
        if op == 'MakeInterface':
            regs[r] = IfaceV(dyn=(ins['x']['t'], v('x')))
            return None
        if op == 'ChangeInterface':
            regs[r] = v('x')
            return None
        if op == 'ChangeType':
            x = v('x')
            if isinstance(x, StructV):
                x = StructV(ins['t'], x.f)
            regs[r] = x
            return None
        if op == 'Convert':
            return self.convert(st, ins, regs, v('x'))
        if op == 'TypeAssert':
            return self.typeassert(st, ins, regs, v('x'), pouts)
        if op == 'Extract':
            regs[r] = v('x').f[ins['index']]
            return None
        if op == 'MakeClosure':
            regs[r] = FuncV(ins['fn']['n'], [self.val(st, regs, x) for x in ins['bind']])
            return None
        if op == 'Phi':
            raise Unsupported('phi in the middle of a block')
        if op == 'Range':
            x = v('x')
            ref = st.alloc(Cell(NatV('Iter', x=x, i=0)))
            regs[r] = IterV(ref)
            return None
        if op == 'Next':
            return self.next(st, ins, regs, v('iter'), pouts)
        if op == 'Call':
            return self.docall(fr, st, self.prepcall(st, regs, ins))
        if op == 'Go':
            c = self.prepcall(st, regs, ins)
            st.ghost['spawned'] = st.ghost.get('spawned', ()) + ((c[0], c[1]),)
            return None
        if op == 'MakeChan':
            regs[r] = OpaqueV(ins['t'], fresh('chan', Obj))
            return None
        if op == 'Send':
            return None
        raise Unsupported('instruction ' + op)

    def fieldkey(self, ptrt, i):
        return self.fieldkey2(self.P.elem(ptrt), i)

    def fieldkey2(self, t, i):
        if self.P.str(t) in NATIVE:
            return self.P.fields(t)[i]['name']
        return i

    def recv(self, st, x, ins):
        return [(st, 'ret', self.sym(st, ins['t'], lambda p, s: fresh('recv' + p, s)))]

    # ------------------------------------------------------------ operators
    def binop(self, fr, st, ins, regs, x, y, pouts):
        P = self.P
        tok = ins['tok']
        t = ins['x']['t']
        r = ins['r']
        if tok in ('==', '!='):
            c = self.goeq(st, t, x, y, ins)
            regs[r] = simp(c) if tok == '==' else simp(Not(c))
            return None
        info = P.intinfo(t)
        if info:
            if tok in ('<', '<=', '>', '>='):
                regs[r] = {'<': lt(x, y), '<=': le(x, y), '>': lt(y, x), '>=': le(y, x)}[tok]
                return None
            rt = ins['t']
            if tok == '+':
                regs[r] = self.fits(st, add(x, y), rt)
            elif tok == '-':
                regs[r] = self.fits(st, sub(x, y), rt)
            elif tok == '*':
                regs[r] = self.fits(st, mul(x, y), rt)
            elif tok in ('/', '%'):
                if not self.guard(st, Not(eq(y, 0)), 'division by zero', pouts):
                    return 'dead'
                q = self.quo(st, x, y)
                if tok == '/':
                    regs[r] = self.fits(st, q, rt)
                else:
                    regs[r] = self.rem(st, x, y)
            else:
                regs[r] = self.bitop(st, tok, x, y, rt)
            return None
        if isinstance(x, StrV):
            if tok == '+':
                regs[r] = StrV(x.rope + y.rope)
                return None
            if tok in ('<', '<=', '>', '>='):
                f = ufn('strless', Bytes, Bytes, Bool)
                a, b = self.bterm(st, x.rope), self.bterm(st, y.rope)
                c = {'<': f(a, b), '>': f(b, a), '<=': z3.Not(f(b, a)), '>=': z3.Not(f(a, b))}[tok]
                regs[r] = c
                return None
        if isinstance(x, FloatV):
            if tok in ('+', '-', '*', '/'):
                regs[r] = FloatV(ufn('f64' + {'+': 'add', '-': 'sub', '*': 'mul', '/': 'div'}[tok], F64, F64, F64)(x.t, y.t))
                return None
            if tok in ('<', '<=', '>', '>='):
                f = ufn('f64lt' if tok in '<>' else 'f64le', F64, F64, Bool)
                regs[r] = f(x.t, y.t) if tok[0] == '<' else f(y.t, x.t)
                return None
        raise Unsupported('operator %s on %s' % (tok, P.str(t)))

    def quo(self, st, x, y):
        if isinstance(x, int) and isinstance(y, int):
            q = abs(x) // abs(y)
            return q if (x >= 0) == (y >= 0) else -q
        if isinstance(y, int):
            x = I(x)
            a = abs(y)
            q = z3.If(x >= 0, x / a, -((-x) / a))
            return simp(q if y > 0 else -q)
        f = ufn('quo', Int, Int, Int)
        return f(I(x), I(y))

    def rem(self, st, x, y):
        if isinstance(x, int) and isinstance(y, int):
            q = abs(x) % abs(y)
            return q if x >= 0 else -q
        if isinstance(y, int):
            x = I(x)
            a = abs(y)
            if valid(st, x >= 0, 2000):
                return simp(x % a)
            return simp(z3.If(x >= 0, x % a, -((-x) % a)))
        return ufn('rem', Int, Int, Int)(I(x), I(y))

    def bitop(self, st, tok, x, y, t):
        sg, n = self.P.intinfo(t)
        if isinstance(x, int) and isinstance(y, int):
            f = {'|': lambda: x | y, '&': lambda: x & y, '^': lambda: x ^ y, '<<': lambda: x << y if y < 600 else 0,
                 '>>': lambda: x >> y, '&^': lambda: x & ~y}[tok]
            return self.fits(st, f(), t)
        if tok == '<<' and isinstance(y, int):
            return self.fits(st, mul(x, 1 << y), t) if y < n else 0
        if tok == '>>' and isinstance(y, int):
            return simp(I(x) / (1 << y))
        if tok in ('&', '|', '^', '&^'):
            if isinstance(x, int) and tok != '&^':
                x, y = y, x
            if isinstance(y, int) and y >= 0:
                if tok == '&' and (y & (y + 1)) == 0:
                    return simp(I(x) % (y + 1))
                if tok == '&' and y and y >> (len(bin(y)) - 3) and False:
                    pass
                low = (y & -y) if y else 1
                if tok in ('|', '^') and valid(st, z3.And(I(x) >= 0, I(x) < low), 3000):
                    return add(x, y)
                if tok == '&' and y & (y - 1) == 0 and y:
                    return simp(((I(x) / y) % 2) * y)
                # split constant masks bit by bit over one byte
                if tok == '&' and y < 65536:
                    b = [i for i in range(16) if y >> i & 1]
                    return simp(z3.Sum([((I(x) / (1 << i)) % 2) * (1 << i) for i in b]))
                if tok == '|' and y < 65536:
                    b = [i for i in range(16) if y >> i & 1]
                    return simp(I(x) + z3.Sum([(1 - (I(x) / (1 << i)) % 2) * (1 << i) for i in b]))
            elif is_z(x) and is_z(y) and tok in ('|', '^'):
                # a | b as a sum when the bits cannot overlap
                for k in (8, 16, 24, 32, 40, 48, 56, 4):
                    for a, b in ((x, y), (y, x)):
                        if valid(st, z3.And(b >= 0, b < (1 << k), a % (1 << k) == 0), 2000):
                            return simp(a + b)
        f = ufn('bit' + tok, Int, Int, Int)
        z = f(I(x), I(y))
        lo, hi = (-(1 << (n - 1)), (1 << (n - 1)) - 1) if sg else (0, (1 << n) - 1)
        st.assume(z >= lo, z <= hi)
        return z

    def goeq(self, st, t, x, y, ins=None):
        """formula for Go's == on two values of static type t"""
        if isinstance(x, IfaceV) or isinstance(y, IfaceV):
            if not isinstance(x, IfaceV):
                x = IfaceV(dyn=(ins['x']['t'], x))
            if not isinstance(y, IfaceV):
                y = IfaceV(dyn=(ins['y']['t'], y))
            return self.ifaceeq(st, x, y)
        if isinstance(x, PtrV):
            if x.ref is None or y.ref is None:
                z = y if x.ref is None else x
                if z.ref is None:
                    return True
                return eq(z.ref, 0) if is_z(z.ref) else False
            if x.path == y.path:
                return eq(x.ref, y.ref)
            return False
        if isinstance(x, SliceV):
            z = y if x.ref is None else x
            if z.ref is None:
                return True
            o = st.heap.get(z.ref)
            if isinstance(o, ArrZ) and o.frozen and is_z(z.len):
                # a symbolic slice of no elements may be nil
                return z3.And(z.len == 0, ufn('nilslice', Int, Bool)(z3.IntVal(z.ref)))
            return False
        if isinstance(x, MapV):
            z = y if x.ref is None else x
            if z.ref is None:
                return True
            o = st.heap.get(z.ref)
            if o.term is not None and not o.ents:
                return z3.And(glen(o.term) == 0, ufn('nilmap', GMap, Bool)(o.term))
            return False
        if isinstance(x, FuncV):
            return x.name == y.name and x.native == y.native
        if isinstance(x, OpaqueV):
            if isinstance(y, FuncV):
                return x.term == z3.Const('nilfunc', Obj)
            return x.term == y.term
        if isinstance(y, OpaqueV):
            return y.term == z3.Const('nilfunc', Obj)
        if isinstance(x, StrV):
            return self.str_eq(st, x.rope, y.rope)
        if isinstance(x, FloatV):
            return x.t == y.t
        if isinstance(x, StructV):
            return And(*[self.goeq(st, f['type'], a, b) for f, a, b in zip(self.P.fields(x.t), x.f, y.f)])
        if isinstance(x, ArrayV):
            return And(*[self.goeq(st, None, a, b) for a, b in zip(x.f, y.f)])
        if isinstance(x, NatV):
            return self.nat_eq(st, x, y)
        return eq(x, y)

    def nat_eq(self, st, x, y):
        if 't' in x.d and 't' in y.d:
            return x.d['t'] == y.d['t']
        if x.kind == 'time.Time':
            return And(eq(x.s, y.s), eq(x.n, y.n), x.l == y.l)
        raise Unsupported('comparison of ' + x.kind)

    def ifaceeq(self, st, x, y):
        if x.isnil and y.isnil:
            return True
        if x.isnil or y.isnil:
            z = y if x.isnil else x
            if z.dyn is not None:
                return False
            return tag(z.term) == 0
        if x.dyn is not None and y.dyn is not None:
            if self.P.str(x.dyn[0]) != self.P.str(y.dyn[0]):
                return False
            return self.goeq(st, x.dyn[0], x.dyn[1], y.dyn[1])
        return self.aterm(st, x) == self.aterm(st, y)

    # ------------------------------------------------------------ conversions
    def convert(self, st, ins, regs, x):
        P = self.P
        ft, tt = ins['x']['t'], ins['t']
        r = ins['r']
        fi, ti = P.intinfo(ft), P.intinfo(tt)
        if fi and ti:
            regs[r] = self.fits(st, x, tt)
            return None
        fb, tb = P.basic(ft), P.basic(tt)
        if tb == 'string' and P.kind(ft) == 'slice':
            if P.basic(P.elem(ft)) in ('uint8', 'byte'):
                regs[r] = StrV(self.slice_rope(st, x))
                return None
        if fb == 'string' and P.kind(tt) == 'slice':
            if P.basic(P.elem(tt)) in ('uint8', 'byte'):
                c = x.rope.conc()
                if c is not None and len(c) <= 64:
                    ref = st.alloc(ArrList(P.elem(tt), list(c)))
                else:
                    ref = st.alloc(ArrRope(x.rope))
                n = x.rope.len()
                regs[r] = SliceV(ref, 0, n, n)
                return None
        if fb == 'string' and tb == 'string':
            regs[r] = x
            return None
        if fi and tb in ('float64', 'float32'):
            regs[r] = FloatV(ufn('f64ofint', Int, F64)(I(x)))
            return None
        if fb in ('float64', 'float32') and ti:
            z = ufn('intoff64', F64, Int)(x.t)
            sg, n = ti
            lo, hi = (-(1 << (n - 1)), (1 << (n - 1)) - 1) if sg else (0, (1 << n) - 1)
            st.assume(z >= lo, z <= hi)
            regs[r] = z
            return None
        if fb in ('float64', 'float32') and tb in ('float64', 'float32'):
            if fb == tb:
                regs[r] = x
            elif tb == 'float64':
                # float32 values are kept as their float64 extension
                regs[r] = x
            else:
                regs[r] = FloatV(ufn('f32of', F64, F64)(x.t))
            return None
        if ti is None and P.kind(ft) == P.kind(tt):
            regs[r] = x
            return None
        raise Unsupported('conversion %s -> %s' % (P.str(ft), P.str(tt)))

    # ------------------------------------------------------------ slices
    def slice(self, st, ins, regs, pouts):
        x = self.val(st, regs, ins['x'])
        lo = self.val(st, regs, ins['low']) if ins['low'] else 0
        hi = self.val(st, regs, ins['high']) if ins['high'] else None
        mx = self.val(st, regs, ins['max']) if ins['max'] else None
        r = ins['r']
        if isinstance(x, StrV):
            n = x.rope.len()
            if hi is None:
                hi = n
            if not self.guard(st, And(le(0, lo), le(lo, hi), le(hi, n)), 'slice bounds out of range', pouts):
                return 'dead'
            regs[r] = StrV(self.rope_sub(st, x.rope, lo, sub(hi, lo)))
            return None
        if isinstance(x, PtrV):
            if x.ref is None:
                pouts.append((st, 'panic', 'nil dereference'))
                return 'dead'
            o = st.heap[x.ref]
            if x.path or not isinstance(o, (ArrList, ArrRope)):
                raise Unsupported('slice of an array inside a struct')
            n = len(o.f) if isinstance(o, ArrList) else o.rope.len()
            x = SliceV(x.ref, 0, n, n)
        if hi is None:
            hi = x.len
        c = x.cap if mx is None else mx
        if not self.guard(st, And(le(0, lo), le(lo, hi), le(hi, c), le(c, x.cap)), 'slice bounds out of range', pouts):
            return 'dead'
        regs[r] = SliceV(x.ref, add(x.off, lo), sub(hi, lo), sub(c, lo))
        return None

    # ------------------------------------------------------------ maps
    def lookup(self, st, ins, regs, m, k, pouts):
        P = self.P
        r = ins['r']
        if isinstance(m, StrV):
            if not self.guard(st, And(le(0, k), lt(k, m.rope.len())), 'index out of range', pouts):
                return 'dead'
            regs[r] = self.rope_at(st, m.rope, k)
            return None
        mt = ins['x']['t']
        et = P.elem(mt)
        outs = []
        ok = ins['commaok']

        def out(s, v, has):
            outs.append((s, 'ret', TupleV([v, has]) if ok else v))
        if m.ref is None:
            out(st, self.zero(st, et), False)
            return outs
        o = st.heap[m.ref]
        if not isinstance(k, StrV):
            return self.lookup_other(st, ins, o, k, out, outs)
        cur = st
        for kk, vv in reversed(o.ents):
            c = simp(self.str_eq(cur, k.rope, kk.rope))
            if c is False:
                continue
            if c is True:
                out(cur, vv, True)
                return outs
            if feasible(cur, c):
                if not feasible(cur, Not(c)):
                    out(cur, vv, True)
                    return outs
                s2 = cur.fork()
                s2.assume(c)
                out(s2, vv, True)
            cur.assume(Not(c))
        if o.term is None:
            out(cur, self.zero(cur, et), False)
            return outs
        kt = self.bterm(cur, k.rope)
        h = ghas(o.term, kt)
        if feasible(cur, h):
            s2 = cur.fork()
            s2.assume(h, glen(o.term) >= 1)
            out(s2, self.evalue_any(s2, et, gget(o.term, kt)), True)
        if feasible(cur, z3.Not(h)):
            cur.assume(z3.Not(h))
            out(cur, self.zero(cur, et), False)
        return outs

    def lookup_other(self, st, ins, o, k, out, outs):
        raise Unsupported('map key type')

    def mapupdate(self, st, m, k, x, ins):
        o = st.heap[m.ref]
        if not isinstance(k, StrV):
            raise Unsupported('map key type')
        if o.term is None and k.rope.conc() is not None and all(a.rope.conc() is not None for a, _ in o.ents):
            ents = [(a, b) for a, b in o.ents if a.rope.conc() != k.rope.conc()] + [(k, x)]
        else:
            ents = list(o.ents) + [(k, x)]
        st.heap[m.ref] = MapObj(o.t, ents, o.term)
        return None

    def maplen(self, st, m):
        if m.ref is None:
            return 0
        o = st.heap[m.ref]
        if o.term is None and all(k.rope.conc() is not None for k, _ in o.ents):
            return len(o.ents)
        t = self.mobj_term(st, o)
        st.assume(glen(t) >= 0)
        return glen(t)

    def next(self, st, ins, regs, it, pouts):
        n = st.heap[it.ref].v
        x, i = n.d['x'], n.d['i']
        if isinstance(x, StrV):
            c = x.rope.conc()
            if c is None or not isinstance(i, int):
                raise Unsupported('range over a symbolic string')
            if any(b >= 128 for b in c):
                raise Unsupported('range over a non-ASCII string')
            if i >= len(c):
                regs[ins['r']] = TupleV([False, 0, 0])
            else:
                st.heap[it.ref] = Cell(n.with_(i=i + 1))
                regs[ins['r']] = TupleV([True, i, c[i]])
            return None
        kt, et = self.P.u(self.maptype(ins))['key'], self.P.u(self.maptype(ins))['elem']
        if x.ref is None:
            regs[ins['r']] = TupleV([False, self.zero(st, kt), self.zero(st, et)])
            return None
        o = st.heap[x.ref]
        if o.term is None and isinstance(i, int) and all(k.rope.conc() is not None for k, _ in o.ents):
            if i >= len(o.ents):
                regs[ins['r']] = TupleV([False, self.zero(st, kt), self.zero(st, et)])
            else:
                k, v = o.ents[i]
                st.heap[it.ref] = Cell(n.with_(i=i + 1))
                regs[ins['r']] = TupleV([True, k, v])
            return None
        t = self.mobj_term(st, o)
        ln = glen(t)
        st.assume(ln >= 0)
        more = simp(I(i) < ln)
        outs = []
        if feasible(st, more):
            s2 = st.fork()
            s2.assume(more)
            s2.heap[it.ref] = Cell(n.with_(i=add(i, 1)))
            kk = gkey(t, I(i))
            s2.assume(ghas(t, kk), gget(t, kk) == gval(t, I(i)), blen(kk) >= 0)
            outs.append((s2, 'ret', TupleV([True, StrV(self.brope(s2, kk)), self.evalue_any(s2, et, gval(t, I(i)))])))
        if feasible(st, Not(more)):
            st.assume(Not(more))
            outs.append((st, 'ret', TupleV([False, self.zero(st, kt), self.zero(st, et)])))
        return outs

    def maptype(self, ins):
        # tuple (ok, k, v); the key may be typed invalid when unused, so the map type is looked up from the iterator
        return ins['mt']

    # ------------------------------------------------------------ type assertions
    def is_type(self, st, x, at):
        """formula: interface value x holds (or implements) type at"""
        P = self.P
        if x.isnil:
            return False
        isI = P.kind(at) == 'iface'
        if x.dyn is not None:
            if isinstance(x.dyn[0], str):
                return self.native_is(x, at)
            return P.implements(x.dyn[0], at) if isI else P.str(x.dyn[0]) == P.str(at)
        if x.term.get_id() in TERM_BOX:
            t = TERM_BOX[x.term.get_id()][1]
            return P.implements(t, at) if isI else P.str(t) == P.str(at)
        if not isI:
            return tag(x.term) == P.tagid(at)
        if not P.u(at)['methods']:
            return tag(x.term) != 0
        return And(tag(x.term) != 0, self.impl(at, x.term))

    def native_is(self, x, at):
        h = NATIVE_IS.get((x.dyn[0], self.P.str(at)))
        return bool(h)

    def impl(self, at, term):
        """formula: the (non-nil) value implements interface at; library values are only known one by one"""
        s = self.P.str(at)
        return z3.If(tag(term) == 999983, ufn('implements1<%s>' % s, Any, Bool)(term), ufn('implements<%s>' % s, Int, Bool)(tag(term)))

    def typeassert(self, st, ins, regs, x, pouts):
        P = self.P
        at = ins['at']
        ok = ins['commaok']
        isI = P.kind(at) == 'iface'
        c = simp(B(self.is_type(st, x, at)))
        outs = []

        def good(s):
            if isI:
                return x
            if x.dyn is not None:
                return x.dyn[1]
            return self.unbox(s, at, x.term)
        if c is not False and (c is True or feasible(st, c)):
            s2 = st.fork() if c is not True else st
            if c is not True:
                s2.assume(c)
            v = good(s2)
            outs.append((s2, 'ret', TupleV([v, True]) if ok else v))
        if c is not True and (c is False or feasible(st, Not(c))):
            if c is not False:
                st.assume(Not(c))
            if ok:
                outs.append((st, 'ret', TupleV([self.zero(st, at), False])))
            else:
                outs.append((st, 'panic', 'type assertion to %s fails at %s:%s' % ((P.str(at),) + self.short())))
        return outs

    # ------------------------------------------------------------ calls
    def prepcall(self, st, regs, ins):
        args = [self.val(st, regs, a) for a in ins['args']]
        if 'invoke' in ins:
            return ('invoke', ins['invoke'], self.val(st, regs, ins['recv']), ins['recv']['t'], args, ins)
        return ('call', self.val(st, regs, ins['fn']), args, ins)

    def docall(self, fr, st, c):
        if c[0] == 'invoke':
            _, name, recv, it, args, ins = c
            return self.doinvoke(fr, st, name, recv, it, args, ins)
        _, fv, args, ins = c
        return self.callv(fr, st, fv, args, ins)

    def callv(self, fr, st, fv, args, ins):
        self.fr = fr
        if isinstance(fv, FuncV):
            if fv.native:
                return self.wrap(st, fv.native(self, st, args, ins))
            if fv.name is None:
                return [(st, 'panic', 'call of nil function at %s:%s' % self.short())]
            if fv.name.startswith('builtin:'):
                return self.builtin(fr, st, fv.name[8:], args, ins)
            return self.callfn(fr, st, fv.name, args, ins, fv.binds)
        h = INVOKES.get(('func', 'call'))
        if h:
            return self.wrap(st, h(self, st, fv, args, ins))
        raise Unsupported('call of an unknown function value')

    def wrap(self, st, r):
        if isinstance(r, list):
            return r
        return [(st, 'ret', r)]

    def callfn(self, fr, st, name, args, ins, binds=()):
        line = self.curline
        self.fr = fr
        c = self.contracts.get(name)
        if c is not None:
            self.used_contracts.add(name)
            r = self.merged(st, lambda: c.call(self, st, args, name))
            self.curline = line
            return r
        m = MODELS.get(name)
        if m is not None:
            self.used_models.add(name)
            r = self.wrap(st, m(self, st, args, ins))
            self.curline = line
            return r
        f = self.P.funcs.get(name)
        if f is not None and f['blocks']:
            stack = fr.stack if fr else ()
            if name in stack and stack.count(name) >= self.ctx.get('recurse', 1):
                raise Unsupported('recursion without a contract: ' + name)
            self.inlined.add(name)
            r = self.merged(st, lambda: self.run(st, name, args, binds, stack))
            self.curline = line
            return r
        raise Unsupported('no contract for library function ' + name)

    # ---------------------------------------------------------- outcomes that cannot be told apart
    def merged(self, st, f):
        forget = self.ctx.get('forget')
        if forget is None:
            return f()
        mark = next(core_ids())
        old = dict(st.heap)
        npc = len(st.pc)
        return self.merge(old, npc, mark, forget, f())

    def merge(self, old, npc, mark, forget, outs):
        """of the outcomes of a call that differ only in values nobody can see any more, keep one"""
        if len(outs) < 2:
            return outs
        seen = {}
        res = []
        for o in outs:
            k, pcs, hidden = self.outcome_key(old, npc, mark, forget, o)
            done = False
            for g in seen.setdefault(k, []):
                st, p0, hid0 = g
                common = {x: i for x, i in p0.items() if x in pcs}
                da = [i for x, i in p0.items() if x not in pcs]
                db = [i for x, i in pcs.items() if x not in p0]
                if any(i[1] for i in da + db):
                    continue
                # what only concerns forgotten values is forgotten too (less is known of the one that is kept)
                ca = z3.And([st.pc[i[0][0]] for i in da]) if da else None
                cb = z3.And([o[0].pc[i[0][0]] for i in db]) if db else None
                drop = set(hid0 or ()) | {j for i in da for j in i[0]}
                pc = list(st.pc[:npc])
                keep = {}
                at = {j: x for x, i in common.items() for j in i[0]}
                for i in range(npc, len(st.pc)):
                    if i in drop:
                        continue
                    if i in at:
                        keep.setdefault(at[i], ([], common[at[i]][1]))[0].append(len(pc))
                    pc.append(st.pc[i])
                if ca is not None and cb is not None:
                    c = simp(z3.Or(ca, cb))
                    if c is not True:
                        keep[c.sexpr() if is_z(c) else str(c)] = ([len(pc)], False)
                        pc.append(B(c))
                st.pc = pc
                g[1], g[2] = keep, None
                done = True
                break
            if not done:
                seen[k].append([o[0], pcs, hidden])
                res.append(o)
        return res

    def outcome_key(self, old, npc, mark, forget, o):
        st, kind, v = o
        names = {}

        def ren(m):
            n = int(m.group(1))
            if n <= mark:
                return m.group(0)
            return '!#%d' % names.setdefault(n, len(names))
        parts = [kind]
        visited = {}
        todo = []

        def show(x):
            if is_z(x):
                return x.sexpr()
            if isinstance(x, (tuple, list)):
                return '(' + ' '.join(show(y) for y in x) + ')'
            if isinstance(x, frozenset):
                return '{' + ' '.join(sorted(show(y) for y in x)) + '}'
            if isinstance(x, dict):
                return '{' + ' '.join('%s:%s' % (k, show(x[k])) for k in sorted(x, key=str)) + '}'
            if isinstance(x, StrV):
                return 'str' + show(x.rope.atoms)
            if isinstance(x, Rope):
                return 'rope' + show(x.atoms)
            if isinstance(x, FloatV):
                return 'f' + show(x.t)
            if isinstance(x, OpaqueV):
                return 'o' + show(x.term)
            if isinstance(x, PtrV):
                return 'p%s%s' % (ref(x.ref), show(x.path))
            if isinstance(x, SliceV):
                return 's%s,%s,%s,%s' % (ref(x.ref), show(x.off), show(x.len), show(x.cap))
            if isinstance(x, (MapV, IterV)):
                return 'm%s' % ref(x.ref)
            if isinstance(x, (StructV, ArrayV, TupleV)):
                return 't' + show(x.f)
            if isinstance(x, IfaceV):
                return 'i' + (show(x.dyn) if x.dyn is not None else show(x.term) if x.term is not None else 'nil')
            if isinstance(x, NatV):
                return x.kind + show(x.d)
            if isinstance(x, FuncV):
                return 'fn%s%s' % (x.name, show(x.binds)) if not x.native else 'fn%d' % id(x.native)
            if isinstance(x, Cell):
                return 'c' + show(x.v)
            if isinstance(x, ArrList):
                return 'l' + show(x.f)
            if isinstance(x, ArrRope):
                return 'r' + show(x.rope)
            if isinstance(x, ArrZ):
                return 'z%s,%s' % (show(x.arr), show(x.n))
            if isinstance(x, MapObj):
                return 'M%s,%s' % (show(x.ents), show(x.term))
            return repr(x)

        def ref(r):
            if not isinstance(r, int) or r in old:
                return show(r) if r is not None else 'nil'
            if r not in visited:
                visited[r] = len(visited)
                todo.append(r)
            return '@%d' % visited[r]
        import re
        parts.append(show(v))
        for k in sorted(st.ghost, key=str):
            if k in forget:
                continue
            if isinstance(k, tuple) and k[0] == 'global':
                continue
            parts.append('%s=%s' % (k, show(st.ghost[k])))
        for r, x in old.items():
            y = st.heap.get(r)
            if y is not x:
                parts.append('%s:%s' % (r, show(y)))
        while todo:
            r = todo.pop(0)
            parts.append('@%d:%s' % (visited[r], show(st.heap[r])))
        txt = re.sub(r'!(\d+)', ren, '\n'.join(parts))
        pcs = {}
        hidden = set()
        was = {c.get_id() for c in st.pc[:npc]}
        new = [(npc + i, c.sexpr()) for i, c in enumerate(st.pc[npc:]) if c.get_id() not in was]
        new = [(i, t, [n for n in map(int, re.findall(r'!(\d+)', t)) if n > mark]) for i, t in new]
        grow = True
        while grow:
            grow = False
            for i, t, ids in new:
                if any(n in names for n in ids) and not all(n in names for n in ids):
                    re.sub(r'!(\d+)', ren, t)
                    grow = True
        for i, t, ids in new:
            if any(n not in names for n in ids):
                hidden.add(i)
            else:
                pcs.setdefault(re.sub(r'!(\d+)', ren, t), ([], bool(ids)))[0].append(i)
        return txt, pcs, hidden

    def doinvoke(self, fr, st, name, recv, it, args, ins):
        if isinstance(recv, NatV):
            key = (recv.kind, name)
        elif recv.isnil:
            return [(st, 'panic', 'method call on nil interface at %s:%s' % self.short())]
        elif recv.dyn is not None:
            t, v = recv.dyn
            if isinstance(t, str):
                key = (t, name)
                recv = v
            else:
                fn = self.P.method(t, name)
                if fn is None:
                    raise Unsupported('no method %s on %s' % (name, self.P.str(t)))
                fs = self.P.funcs.get(fn)
                if fn not in MODELS and fn not in self.contracts and (fs is None or not fs['blocks']):
                    # promoted or external method
                    base = fn
                    if base not in MODELS:
                        raise Unsupported('no contract for library method ' + fn)
                return self.callfn(fr, st, fn, [v] + args, ins)
        else:
            key = (self.P.str(it), name)
        h = INVOKES.get(key) or INVOKES.get(('*', name))
        if h is None:
            raise Unsupported('no contract for %s.%s' % key)
        self.used_models.add('%s.%s' % key)
        line = self.curline
        self.fr = fr
        r = self.wrap(st, h(self, st, recv, args, ins))
        self.curline = line
        return r

    # ------------------------------------------------------------ builtins
    def builtin(self, fr, st, name, args, ins):
        P = self.P
        if name == 'len':
            x = args[0]
            if isinstance(x, StrV):
                return [(st, 'ret', x.rope.len())]
            if isinstance(x, SliceV):
                return [(st, 'ret', x.len)]
            if isinstance(x, MapV):
                return [(st, 'ret', self.maplen(st, x))]
            if isinstance(x, ArrayV):
                return [(st, 'ret', len(x.f))]
        if name == 'cap':
            if isinstance(args[0], SliceV):
                return [(st, 'ret', args[0].cap)]
        if name == 'append':
            return self.append(st, args, ins)
        if name == 'copy':
            return self.copy(st, args, ins)
        if name == 'delete':
            return self.delete(st, args, ins)
        if name in ('min', 'max'):
            r = args[0]
            for y in args[1:]:
                r = simp(z3.If(I(r) < I(y), I(r if name == 'min' else y), I(y if name == 'min' else r)))
            return [(st, 'ret', r)]
        if name == 'print' or name == 'println':
            return [(st, 'ret', None)]
        if name == 'close':
            return [(st, 'ret', None)]
        if name == 'ssa:wrapnilchk':
            x = args[0]
            if x.ref is None:
                return [(st, 'panic', 'nil receiver at %s:%s' % self.short())]
            return [(st, 'ret', x)]
        raise Unsupported('builtin ' + name)

    def delete(self, st, args, ins):
        m, k = args
        if m.ref is None:
            return [(st, 'ret', None)]
        o = st.heap[m.ref]
        kc = k.rope.conc() if isinstance(k, StrV) else None
        if o.term is None and kc is not None and all(a.rope.conc() is not None for a, _ in o.ents):
            st.heap[m.ref] = MapObj(o.t, [(a, b) for a, b in o.ents if a.rope.conc() != kc])
            return [(st, 'ret', None)]
        raise Unsupported('delete from a symbolic map')

    def append(self, st, args, ins):
        P = self.P
        a, b = args
        t = ins['t']
        et = P.elem(t)
        isb = P.basic(et) in ('uint8', 'byte')
        if isinstance(b, StrV):
            n = b.rope.len()
            b = SliceV(st.alloc(ArrRope(b.rope)), 0, n, n)
        if isinstance(b.len, int) and b.len == 0:
            return [(st, 'ret', a)]
        if a.ref is not None and isinstance(a.len, int) and isinstance(a.cap, int) and isinstance(b.len, int):
            o = st.heap[a.ref]
            if isinstance(o, ArrList) and a.len + b.len <= a.cap and a.off + a.cap <= len(o.f):
                # in place
                if getattr(o, 'frozen', False):
                    raise Unsupported('append into a shared array')
                f = list(o.f)
                els = self.elems(st, b, et)
                f[a.off + a.len:a.off + a.len + b.len] = els
                st.heap[a.ref] = ArrList(o.et, f)
                return [(st, 'ret', SliceV(a.ref, a.off, a.len + b.len, a.cap))]
        if isinstance(a.len, int) and isinstance(b.len, int):
            ea, eb = self.elems(st, a, et), self.elems(st, b, et)
            if ea is not None and eb is not None:
                n = len(ea) + len(eb)
                # capacity after growth is unknown but at least the length; the extra room is never
                # visible to a program that only appends through the newest slice
                return [(st, 'ret', SliceV(st.alloc(ArrList(et, ea + eb)), 0, n, n))]
        if isb:
            rp = self.slice_rope(st, a) + self.slice_rope(st, b)
            n = rp.len()
            return [(st, 'ret', SliceV(st.alloc(ArrRope(rp)), 0, n, n))]
        # symbolic
        arr, n = self.slice_arr(st, a, et)
        if isinstance(b.len, int):
            els = self.elems(st, b, et)
            for i, x in enumerate(els):
                arr = z3.Store(arr, I(add(n, i)), self.eterm(st, et, x))
            m = add(n, b.len)
            return [(st, 'ret', SliceV(st.alloc(ArrZ(et, arr, m)), 0, m, m))]
        arrb, nb = self.slice_arr(st, b, et)
        cat = ufn('arrcat' + self.esort(et).name(), arr.sort(), Int, arr.sort(), arr.sort())(arr, I(n), arrb)
        j = z3.Int('j')
        st.assume(z3.ForAll([j], z3.Select(cat, j) == z3.If(j < I(n), z3.Select(arr, j), z3.Select(arrb, j - I(n))),
                            patterns=[z3.Select(cat, j)]))
        m = add(n, nb)
        return [(st, 'ret', SliceV(st.alloc(ArrZ(et, cat, m)), 0, m, m))]

    def elems(self, st, s, et):
        """list of the elements of a slice of known length"""
        if s.ref is None:
            return []
        if not isinstance(s.len, int):
            return None
        o = st.heap[s.ref]
        if isinstance(o, ArrList) and isinstance(s.off, int):
            return list(o.f[s.off:s.off + s.len])
        return [self.load(st, PtrV(s.ref, (add(s.off, i),))) for i in range(s.len)]

    def copy(self, st, args, ins):
        d, s = args
        if isinstance(s, StrV):
            srope = s.rope
            sl = srope.len()
        else:
            o = st.heap.get(s.ref) if s.ref is not None else None
            sl = s.len
            srope = None
        if isinstance(d.len, int) and isinstance(sl, int):
            n = min(d.len, sl)
            conds = [(st, n)]
        else:
            conds = []
            c = le(sl, d.len)
            if feasible(st, c):
                s2 = st.fork()
                s2.assume(c)
                conds.append((s2, sl))
            if feasible(st, Not(c)):
                s2 = st.fork()
                s2.assume(Not(c))
                conds.append((s2, d.len))
        outs = []
        for s2, n in conds:
            rp = srope if srope is not None else self.slice_rope(s2, s)
            self.writebytes(s2, d, 0, self.rope_sub(s2, rp, 0, n))
            outs.append((s2, 'ret', n))
        return outs

    def writebytes(self, st, d, at, rope):
        """overwrite bytes of slice d from index at"""
        n = rope.len()
        if same(simp(n), 0):
            return
        o = st.heap[d.ref]
        if getattr(o, 'frozen', False):
            raise Unsupported('write to a slice whose contents are shared')
        off = add(d.off, at)
        if isinstance(o, ArrList) and isinstance(off, int) and isinstance(n, int):
            f = list(o.f)
            for i in range(n):
                f[off + i] = self.rope_at(st, rope, i)
            st.heap[d.ref] = ArrList(o.et, f)
            return
        whole = o.rope if isinstance(o, ArrRope) else Rope([('b', I(x)) for x in o.f])
        a = self.rope_split(st, whole, off)
        if a is None:
            raise Unsupported('byte write at %s' % off)
        b = self.rope_split(st, a[1], n)
        if b is None:
            raise Unsupported('byte write of %s' % n)
        st.heap[d.ref] = ArrRope(a[0] + rope + b[1])


class LoopCtx:
    """one entry of a loop that has an invariant"""

    def __init__(self, ex, fr, st, header, prev, regs, spec):
        self.ex, self.fr, self.st0, self.h, self.prev, self.regs, self.spec = ex, fr, st, header, prev, regs, spec
        self.body = fr.loops[header]
        blk = fr.f['blocks'][header]
        self.phis = {}
        pi = blk['preds'].index(prev)
        for ins in blk['instrs']:
            if ins['op'] != 'Phi':
                break
            self.phis[ins['r']] = (ins, ex.val(st, regs, ins['edges'][pi]))
        self.nphi = len(self.phis)
        self.steps = {}
        defs = {}
        for b in self.body:
            for ins in fr.f['blocks'][b]['instrs']:
                if ins.get('r'):
                    defs[ins['r']] = ins
        self.defs = defs
        backs = [i for i, p in enumerate(blk['preds']) if p in self.body]
        for r, (ins, v0) in self.phis.items():
            if not ex.P.intinfo(ins['t']):
                continue
            steps = set()
            for i in backs:
                e = ins['edges'][i]
                d = defs.get(e.get('n')) if e['k'] == 'reg' else None
                if d and d['op'] == 'BinOp' and d['tok'] in '+-' and d['x'].get('n') == r and d['y']['k'] == 'const':
                    s = int(d['y']['int'])
                    steps.add(s if d['tok'] == '+' else -s)
                elif d and d['op'] == 'BinOp' and d['tok'] == '+' and d['y'].get('n') == r and d['x']['k'] == 'const':
                    steps.add(int(d['x']['int']))
                else:
                    steps.add(None)
            if len(steps) == 1 and None not in steps:
                self.steps[r] = steps.pop()
        self.freed = set()
        self.again = False
        self.lazy = False       # whether to look at the whole body before doing it again
        self.autos = self.candidates()

    def candidates(self):
        """candidate bounds of the counters, from the comparisons in the loop; each is proved or dropped"""
        ex = self.ex
        out = []
        for ins in self.instrs():
            if ins['op'] != 'BinOp' or ins['tok'] not in ('<', '<=', '>', '>=', '!=', '=='):
                continue
            for x, y, flip in ((ins['x'], ins['y'], False), (ins['y'], ins['x'], True)):
                off = 0
                r = x.get('n') if x['k'] == 'reg' else None
                if r not in self.steps:
                    d = self.defs.get(r)
                    if d and d['op'] == 'BinOp' and d['tok'] == '+' and d['x'].get('n') in self.steps and d['y']['k'] == 'const':
                        off = int(d['y']['int'])
                        r = d['x']['n']
                    elif d and d['op'] == 'Call' and d.get('fn', {}).get('k') == 'builtin' and d['fn']['n'] == 'len' and \
                            d['args'][0].get('n') in self.phis and isinstance(self.phis[d['args'][0]['n']][1], SliceV):
                        n = self.plain(y)
                        if n is not None:
                            out.append((d['args'][0]['n'], 'le', n))
                        continue
                    else:
                        continue
                n = self.plain(y)
                if n is None:
                    continue
                s = self.steps[r]
                tok = ins['tok']
                if s > 0:
                    hi = {'<=': 1, '>': 1}.get(tok if not flip else {'<=': '>=', '>=': '<=', '<': '>', '>': '<'}.get(tok, tok), 0)
                    out.append((r, 'le', add(n, hi + s - 1 - off)))
                    if off:
                        out.append((r, 'le', add(n, -off)))
                        out.append((r, 'lt', n))
                else:
                    out.append((r, 'ge', add(n, -1 + s + 1 - off)))
                    out.append((r, 'ge', sub(n, off)))
        return out

    def plain(self, o, depth=0):
        """integer value of a simple expression over what the loop was entered with"""
        v = self.outer(o)
        if v is None and o['k'] == 'reg' and depth < 4:
            d = self.defs.get(o['n'])
            if d is None:
                return None
            if d['op'] == 'Convert':
                return self.plain(d['x'], depth + 1)
            if d['op'] == 'BinOp' and d['tok'] in '+-*':
                a, b = self.plain(d['x'], depth + 1), self.plain(d['y'], depth + 1)
                if a is None or b is None:
                    return None
                return {'+': add, '-': sub, '*': mul}[d['tok']](a, b)
            if d['op'] == 'Call' and d.get('fn', {}).get('k') == 'builtin' and d['fn']['n'] == 'len':
                a = self.outer(d['args'][0])
                if isinstance(a, SliceV):
                    return a.len
                if isinstance(a, StrV):
                    return a.rope.len()
            return None
        if isinstance(v, bool) or not (isinstance(v, int) or (is_z(v) and z3.is_int(v))):
            return None
        return v

    def auto(self, cur):
        out = []
        for c in self.autos:
            v = cur.get(c[0])
            if isinstance(v, SliceV):
                v = v.len
            elif v is None or isinstance(v, V):
                continue
            out.append((c, {'le': le(v, c[2]), 'lt': lt(v, c[2]), 'ge': le(c[2], v)}[c[1]]))
        return out

    # roles ----------------------------------------------------------
    def instrs(self):
        for b in sorted(self.body):
            for ins in self.fr.f['blocks'][b]['instrs']:
                yield ins

    def outer(self, o):
        """value of an operand defined outside the loop, else None"""
        if o['k'] == 'reg' and (o['n'] in self.defs):
            return None
        try:
            return self.ex.val(self.st0, self.regs, o)
        except KeyError:
            return None

    def name(self):
        return self.fr.fn.replace('github.com/mindstand/go-bolt/', '')

    def start(self, work, outs):
        ex = self.ex
        M = LoopMode(self, 'init', self.st0, {r: v for r, (_, v) in self.phis.items()}, 0)
        self.autos = [c for c, f in self.auto(M.cur) if valid(self.st0, f, 2000)]
        self.spec.inv(self, M)
        for _ in range(12):
            h = self.st0.fork()
            k = fresh('k', Int)
            h.assume(k >= 0)
            self.k = k
            cur = {}
            M = LoopMode(self, 'havoc', h, cur, k)
            for r, (ins, v0) in self.phis.items():
                if r in self.steps:
                    cur[r] = simp(I(v0) + k * self.steps[r])
            h.assume([f for c, f in self.auto(cur)])
            self.spec.inv(self, M)
            h.assume([f for c, f in self.auto(cur)])
            for r, (ins, v0) in self.phis.items():
                if r not in cur:
                    if isinstance(v0, (IterV,)):
                        cur[r] = v0
                    else:
                        cur[r] = ex.sym(h, ins['t'], lambda p, s: fresh('phi' + p, s))
            for (ref, path) in self.freed:
                if (ref, path) not in M.decl:
                    o = h.heap[ref]
                    if isinstance(o, Cell) and o.t is not None:
                        h.heap[ref] = Cell(ex.sym(h, o.t, lambda p, s: fresh('cell' + p, s)), o.t)
                    else:
                        raise Unsupported('loop in %s changes a location its invariant does not mention' % self.name())
                    M.decl.add((ref, ()))
            self.hstate = h
            self.hheap = dict(h.heap)
            self.hghost = dict(h.ghost)
            self.decl = set(M.decl)
            self.gdecl = set(M.gdecl)
            self.again = False
            # run the body here so that a missing frame can be added and the body redone
            regs = dict(self.regs)
            regs[('loop', self.h)] = self
            regs.update(cur)
            w2, o2 = [], []
            h2 = h.fork()
            w2.append((h2, self.h, self.prev, self.nphi, regs))
            sub = []
            mark = len(ex.obl)
            exits = []
            while w2:
                it = w2.pop() if len(w2) < 2 or not ex.ctx.get('join') else merge.next_item(ex, self.fr, w2)
                ex.paths += 1
                if it[1] not in self.body and it[0] is not None:
                    exits.append(it)
                    continue
                if ex.deadline and time.time() > ex.deadline:
                    raise Unsupported('time limit')
                ex.step(self.fr, it, w2, o2)
                if self.again and not self.lazy:
                    break
            if self.again:
                del ex.obl[mark:]
                continue
            work.extend(exits)
            outs.extend(o2)
            return
        raise Unsupported('no frame found for the loop in ' + self.name())

    def back(self, st, prev, regs):
        ex = self.ex
        blk = self.fr.f['blocks'][self.h]
        pi = blk['preds'].index(prev)
        cur = {}
        for r, (ins, _) in self.phis.items():
            cur[r] = ex.val(st, regs, ins['edges'][pi])
        M = LoopMode(self, 'back', st, cur, simp(self.k + 1))
        for r, (ins, v0) in self.phis.items():
            if r in self.steps:
                g = eq(cur[r], simp(I(v0) + (self.k + 1) * self.steps[r]))
                if not valid(st, g):
                    # wrapped around: not an induction variable after all
                    ex.prove(st, g, 'loop %s: induction variable' % self.name())
        drop = [c for c, f in self.auto(cur) if not valid(st, f, 3000)]
        if drop:
            self.autos = [c for c in self.autos if not any(c is d for d in drop)]
            self.again = True
            return
        self.spec.inv(self, M)
        if self.again:
            return
        # frame
        for ref, o in self.hheap.items():
            n = st.heap.get(ref)
            if n is o or n is None:
                continue
            if any(d[0] == ref for d in self.decl):
                continue
            if ex.same_obj(st, o, n):
                continue
            self.freed.add((ref, ()))
            self.again = True
        for g, v in st.ghost.items():
            if isinstance(g, tuple) and g[0] == 'global':
                continue
            if g in self.gdecl:
                continue
            if self.hghost.get(g) is not v and self.hghost.get(g) != v:
                ex.ob('loop %s: frame (ghost %s)' % (self.name(), g), False, 'ghost state changed in the loop', st)
        ex.obl.append(Oblig('loop %s: frame' % self.name(), True))


class LoopMode:
    def __init__(self, L, mode, st, cur, k):
        self.L, self.mode, self.st, self.cur, self.k = L, mode, st, cur, k
        self.decl = set()
        self.gdecl = set()
        self.n = 0

    def nm(self, what):
        return 'loop %s: %s (%s)' % (self.L.name(), what, {'init': 'holds on entry', 'back': 'is preserved'}.get(self.mode, ''))

    def fact(self, f, what='invariant'):
        if self.mode == 'havoc':
            self.st.assume(f)
        else:
            self.L.ex.prove(self.st, f, self.nm(what))

    def phi(self, r, value, what='variable'):
        """phi r has this value"""
        if self.mode == 'havoc':
            self.cur[r] = value() if callable(value) else value
        else:
            v = value() if callable(value) else value
            t = self.L.phis[r][0]['t']
            ok = self.L.ex.value_eq(self.st, t, self.cur[r], v)
            self.L.ex.ob(self.nm(what), ok, '' if ok else '%r is not %r' % (self.cur[r], v), self.st)

    def phi_free(self, r, name='phi'):
        """phi r is unconstrained; its value"""
        if self.mode == 'havoc':
            self.cur[r] = self.L.ex.sym(self.st, self.L.phis[r][0]['t'], lambda p, s: fresh(name + p, s))
        return self.cur[r]

    def cell(self, ref, path, value, what='state', t=None):
        """location holds this value"""
        ex = self.L.ex
        self.decl.add((ref, path))
        v = value() if callable(value) else value
        if self.mode == 'havoc':
            ex.store(self.st, PtrV(ref, path), v)
        else:
            cur = ex.load(self.st, PtrV(ref, path))
            ok = ex.value_eq(self.st, t, cur, v)
            ex.ob(self.nm(what), ok, '' if ok else '%r is not %r' % (cur, v), self.st)

    def obj(self, ref, make, check, what='state'):
        """whole heap object: make() builds it, check(obj) proves it"""
        self.decl.add((ref, ()))
        if self.mode == 'havoc':
            self.st.heap[ref] = make()
        else:
            check(self.st.heap[ref])

    def ghost(self, key, value, what='ghost state'):
        self.gdecl.add(key)
        if self.mode == 'havoc':
            self.st.ghost[key] = value
        else:
            ok = self.L.ex.ghost_eq(self.st, key, self.st.ghost.get(key), value)
            self.L.ex.ob(self.nm(what), ok, '' if ok else '%r is not %r' % (self.st.ghost.get(key), value), self.st)
