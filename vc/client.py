"""What a client is configured with: options, NewClient, drivers and driver pools, up to the connection string every
connection is opened with."""
import z3
from core import *
from values import *
from exec import model, invoke, MODELS, INVOKES
from prove import Contract, short, err_is_nil
from models import lib_error, fork2, fresh_str
import models
import urlmodel
from urlmodel import U, parsed, config, truthy, BILLION, origin
from dial import CREATE

ROOT = 'github.com/mindstand/go-bolt.'
TCL = ROOT + 'Client'
NILFUNC = z3.Const('nilfunc', Obj)
FIELDS = ['connStr', 'host', 'port', 'routing', 'user', 'password', 'timeout', 'chunkSize', 'useTLS', 'certFile', 'caCertFile', 'keyFile', 'tlsNoVerify']
PORTS = lambda p: z3.And(I(p) >= 1, I(p) <= 65535)


def idx(ex, name):
    for i, f in enumerate(ex.P.fields(ex.P.T(TCL))):
        if f['name'] == name:
            return i
    raise Unsupported('Client has no field %s' % name)


def get(ex, v, name):
    return v.f[idx(ex, name)]


def inv(ex, v):
    """a connection string excludes host, port and routing"""
    c = eq(get(ex, v, 'connStr').rope.len(), 0)
    return Or(c, And(eq(get(ex, v, 'host').rope.len(), 0), eq(get(ex, v, 'port'), 0), Not(B(get(ex, v, 'routing')))))


def symclient(ex, st, name='client'):
    v = ex.sym(st, ex.P.T(TCL), lambda p, s: fresh(name + p, s))
    st.assume(inv(ex, v))
    return v


def newclient(ex, st, v=None):
    v = v or symclient(ex, st)
    return PtrV(st.alloc(Cell(v, ex.P.T(TCL))))


def clients(ex, st):
    return [r for r, o in st.heap.items() if isinstance(o, Cell) and not isinstance(o, StackCell) and o.t is not None and ex.P.str(o.t) == TCL]


# ---------------------------------------------------------------- options
def fresh_bool(st, n):
    return fresh(n, Bool)


def options():
    """name -> (arguments, what they set, when they may be refused, when they must be)"""
    S, N, Bo, U16, D = 'str', 'int', 'bool', 'u16', 'dur'
    hostset = lambda ex, c, a: Or(Not(eq(get(ex, c, 'host').rope.len(), 0)), Not(eq(get(ex, c, 'port'), 0)))
    routing = lambda ex, c, a: B(get(ex, c, 'routing'))
    connset = lambda ex, c, a: Not(eq(get(ex, c, 'connStr').rope.len(), 0))
    badhost = lambda ex, c, a: Or(eq(a[0].rope.len(), 0), Not(PORTS(a[1])))
    never = lambda ex, c, a: False

    def outside(lo, hi):
        return lambda ex, c, a: Or(lt(a[0], lo), lt(hi, a[0]))
    o = {}
    o['WithConnectionString'] = ([S], {'connStr': 0}, lambda ex, c, a: Or(hostset(ex, c, a), routing(ex, c, a)), None)
    o['WithHostPort'] = ([S, N], {'host': 0, 'port': 1}, connset, badhost)
    o['WithRouting'] = ([], {'routing': True}, connset, None)
    o['WithChunkSize'] = ([U16], {'chunkSize': 0}, never, None)
    o['WithBasicAuth'] = ([S, S], {'user': 0, 'password': 1}, never, None)
    o['WithTLS'] = ([S, S, S, Bo], {'caCertFile': 0, 'certFile': 1, 'keyFile': 2, 'tlsNoVerify': 3, 'useTLS': True}, never, None)
    o['WithTimeout'] = ([D], {'timeout': 0}, never, None)
    o['WithProtocolVersionNegotiation'] = ([], {}, never, None)
    o['WithProtocolVersionGreaterThan'] = ([N], {}, outside(1, 3), None)
    o['WithProtocolVersionLessThan'] = ([N], {}, outside(2, 4), None)
    o['WithStrictProtocolVersion'] = ([N], {}, outside(1, 4), None)
    return o


def mkarg(ex, st, k, n):
    if k == 'str':
        return fresh_str(st, n)
    if k == 'bool':
        return fresh(n, Bool)
    x = fresh(n, Int)
    lo, hi = {'int': (-(1 << 63), (1 << 63) - 1), 'dur': (-(1 << 63), (1 << 63) - 1), 'u16': (0, 65535)}[k]
    st.assume(x >= lo, x <= hi)
    return x


def run_options(ex):
    for name, (kinds, sets, refuse, mayrefuse) in options().items():
        f = ROOT + name
        ex.top = f
        nm = lambda w: '%s: %s {C15}' % (short(f), w)
        st = State()
        args = [mkarg(ex, st, k, 'arg%d' % i) for i, k in enumerate(kinds)]
        seen = set()
        fr = ex.fr
        for s, k, opt in ex.run(st, f, args):
            if k != 'ret':
                ex.ob(nm('no panic: %s' % (opt,)), not feasible(s), 'panic is reachable', s)
                continue
            if not isinstance(opt, FuncV) or opt.name is None and not opt.native:
                ex.ob(nm('gives an option'), False, repr(opt), s)
                continue
            # a client there is none of
            for s2, k2, e in ex.callv(fr, s.fork(), opt, [PtrV(None)], None):
                if k2 != 'ret':
                    ex.ob(nm('no panic without a client: %s' % (e,)), not feasible(s2), 'panic is reachable', s2)
                else:
                    ex.prove(s2, Not(err_is_nil(ex, s2, e)), nm('no client is an error'))
            s = s.fork()
            c0 = symclient(ex, s)
            p = newclient(ex, s, c0)
            for s2, k2, e in ex.callv(fr, s, opt, [p], None):
                if k2 != 'ret':
                    ex.ob(nm('no panic: %s' % (e,)), not feasible(s2), 'panic is reachable', s2)
                    continue
                no = B(refuse(ex, c0, args))
                may = Or(no, mayrefuse(ex, c0, args)) if mayrefuse else no
                for s3, ok in fork2(ex, s2, B(err_is_nil(ex, s2, e))):
                    if not ok:
                        ex.prove(s3, may, nm('is only refused for a reason'))
                        continue
                    seen.add('set')
                    ex.prove(s3, Not(no), nm('what contradicts is refused'))
                    c1 = ex.load(s3, p)
                    for n in FIELDS:
                        w = sets.get(n)
                        w = get(ex, c0, n) if w is None else w if w is True else args[w]
                        g = get(ex, c1, n)
                        ex.ob(nm('sets what it was given and nothing else (%s)' % n), ex.value_eq(s3, None, g, w) if not isinstance(w, bool) else valid(s3, B(g)),
                              '%r instead of %r' % (g, w), s3)
        ex.ob(nm('can be applied'), 'set' in seen, 'it never is')


# ---------------------------------------------------------------- options inside NewClient
def zero_or_default(ex, st, v):
    z = ex.zero(st, v.t)
    for n in FIELDS:
        a, b = get(ex, v, n), get(ex, z, n)
        if ex.value_eq(st, None, a, b):
            continue
        if n == 'timeout' and valid(st, eq(a, 60 * BILLION)) or n == 'chunkSize' and valid(st, eq(a, 65535)):
            continue
        return n
    return None


@invoke(('func', 'call'))
def _(ex, st, fv, args, ins):
    o = ex.ctx.get('opts')
    if o is None or not isinstance(fv, OpaqueV):
        raise Unsupported('call of an unknown function value')
    g = st.ghost
    top = short(ex.top)
    n = g['opt.n']
    ex.ob('%s: options are applied in order {C15}' % top, valid(st, And(lt(n, o.len), fv.term == o.at(st, n))), 'another one', st)
    if feasible(st, fv.term == NILFUNC):
        bad = st.fork()
        bad.assume(fv.term == NILFUNC)
        return [(bad, 'panic', 'call of a nil option')]
    p = args[0]
    ok = isinstance(p, PtrV) and p.ref is not None
    ex.ob('%s: an option is applied to a client {C15}' % top, ok, repr(p), st)
    if not ok:
        return []
    cur = ex.load(st, p)
    w = g['opt.want']
    if w is None:
        ex.ob('%s: the client starts out blank {C15}' % top, zero_or_default(ex, st, cur) is None, repr(cur)[:200], st)
    else:
        ex.ob('%s: each option adds to the ones before {C15}' % top, same_fields(ex, st, cur, w) is None, repr(cur)[:200], st)
    bad = st.fork()
    bad.ghost['opt.err'] = True
    bad.note('an option fails')
    ex.store(bad, p, symclient(ex, bad, 'failed'))
    v = symclient(ex, st, 'set')
    ex.store(st, p, v)
    st.ghost['opt.want'] = v
    st.ghost['opt.n'] = simp(add(n, 1))
    return [(st, 'ret', NILI), (bad, 'ret', lib_error(ex, bad, 'opterr'))]


def same_fields(ex, st, a, b):
    for n in FIELDS:
        if not ex.value_eq(st, None, get(ex, a, n), get(ex, b, n)):
            return n
    return None


class OptLoop:
    """the loop applying the options: after k rounds the client is what the first k options made it"""

    def applies(self, L):
        ex = L.ex
        if 'opts' not in ex.ctx or not clients(ex, L.st0):
            return None
        for ins in L.instrs():
            if ins['op'] == 'Call' and ins.get('fn', {}).get('k') == 'reg' and not ins.get('method'):
                return 'opts'
        return None

    def inv(self, L, M):
        ex, st = L.ex, M.st
        cs = clients(ex, L.st0)
        if len(cs) != 1:
            raise Unsupported('%d clients' % len(cs))
        p = PtrV(cs[0])
        M.decl.add((p.ref, ()))
        M.gdecl |= {'opt.n', 'opt.want'}
        top = short(ex.top)
        if M.mode == 'havoc':
            v = symclient(ex, st, 'sofar')
            # nothing applied yet: as it was
            for n in FIELDS:
                f0 = get(ex, ex.load(L.st0, p), n)
                st.assume(z3.Implies(M.k == 0, B(ex.goeq(st, None, get(ex, v, n), f0))))
            ex.store(st, p, v)
            st.ghost['opt.want'] = v
            st.ghost['opt.n'] = M.k
        elif M.mode == 'init':
            ex.ob(M.nm('no option is applied yet {C15}'), same(st.ghost['opt.n'], 0), str(st.ghost['opt.n']), st)
            ex.ob(M.nm('the client starts out blank {C15}'), zero_or_default(ex, st, ex.load(st, p)) is None, '', st)
        else:
            ex.ob(M.nm('one option a round {C15}'), valid(st, eq(st.ghost['opt.n'], M.k)), str(st.ghost['opt.n']), st)
            w = st.ghost['opt.want']
            d = same_fields(ex, st, ex.load(st, p), w)
            ex.ob(M.nm('the client is what the options made it {C15}'), d is None, 'not so for %s' % d, st)


def pick(ex, st, a, b):
    """a unless it is empty: [(state, value)]"""
    return [(s, b if none else a) for s, none in fork2(ex, st, B(eq(a.rope.len(), 0)))]


def intended(ex, st, w):
    """[(state, must be refused, may be refused, configuration or None)] for the fields the options left"""
    outs = []
    g = lambda n: get(ex, w, n)
    tmo = simp(z3.If(B(eq(g('timeout'), 0)), z3.IntVal(60 * BILLION), I(g('timeout'))))
    chunk = simp(z3.If(B(eq(g('chunkSize'), 0)), z3.IntVal(65535), I(g('chunkSize'))))
    for s, none in fork2(ex, st, B(eq(g('connStr').rope.len(), 0))):
        if none:
            bad = Or(eq(g('host').rope.len(), 0), Not(PORTS(g('port'))), eq(g('user').rope.len(), 0))
            c = {'how': 'options', 'host': g('host'), 'port': g('port'), 'user': g('user'), 'password': g('password'), 'timeout': tmo, 'chunk': chunk,
                 'tls': B(g('useTLS')), 'cert': g('certFile'), 'key': g('keyFile'), 'ca': g('caCertFile'), 'noverify': B(g('tlsNoVerify')),
                 'routing': B(g('routing')), 'fits': True}
            outs.append((s, simp(B(bad)), simp(B(bad)), c))
            continue
        for s2, u in parsed(ex, s, g('connStr')):
            if not feasible(s2):
                continue
            if u is None:
                outs.append((s2, True, True, None))
                continue
            k, bad = config(ex, s2, u)
            host = urlmodel.blob(s2, urlmodel.BB('url.hostname')(ex.bterm(s2, u.host.rope)))
            port = ex.bterm(s2, urlmodel.blob(s2, urlmodel.BB('url.port')(ex.bterm(s2, u.host.rope))).rope)
            must = Or(eq(host.rope.len(), 0), Not(urlmodel.atoiok(port)), Not(PORTS(urlmodel.atoi(port))))
            if u.user is not None:
                must = Or(must, Not(B(u.user.d['isset'])))
            lo = MODELS['strings.ToLower'](ex, s2, [u.scheme], None)
            must = Or(must, Not(Or(*[ex.str_eq(s2, lo.rope, StrV(x).rope) for x in (b'bolt', b'bolt+routing')])))
            t = u.get(s2, 'timeout')
            tt = ex.bterm(s2, t.rope)
            must = Or(must, And(Not(eq(t.rope.len(), 0)), Not(urlmodel.atoiok(tt)), Not(urlmodel.durok(tt))))
            tlsgiven = Not(eq(u.get(s2, 'tls').rope.len(), 0))
            must = Or(must, And(B(g('useTLS')), tlsgiven, Not(B(k['tls']))))
            kt = u.get(s2, 'chunk_size')
            c = {'how': 'string', 'hostPort': u.host, 'timeout': simp(z3.If(B(eq(t.rope.len(), 0)), I(tmo), I(k['timeout']))),
                 'chunk': simp(z3.If(B(eq(kt.rope.len(), 0)), I(chunk), I(k['chunk']))), 'fits': k['fits'],
                 'tls': Or(B(g('useTLS')), B(k['tls'])), 'routing': ex.str_eq(s2, lo.rope, StrV(b'bolt+routing').rope)}
            if u.user is not None:
                c['user'], c['password'] = u.user.d['name'], u.user.d['pw']
            else:
                c['user'], c['password'] = g('user'), g('password')
                c['noauth'] = eq(g('user').rope.len(), 0)
            for f, q, o in (('cert', 'tls_cert_file', 'certFile'), ('key', 'tls_key_file', 'keyFile'), ('ca', 'tls_ca_cert_file', 'caCertFile')):
                c[f] = (u.get(s2, q), g(o), B(g('useTLS')))
            nv = u.get(s2, 'tls_no_verify')
            c['noverify'] = If(eq(nv.rope.len(), 0), And(B(g('useTLS')), B(g('tlsNoVerify'))), B(k['noverify']))
            outs.append((s2, simp(B(must)), simp(B(Or(must, bad))), c))
    return outs


def text_eq(ex, st, a, b):
    return ex.value_eq(st, None, a, b) or valid(st, Or(And(eq(a.rope.len(), 0), eq(b.rope.len(), 0)), ex.bterm(st, a.rope) == ex.bterm(st, b.rope)))


def If(c, a, b):
    c = simp(B(c))
    if c is True or c is False:
        return a if c else b
    return z3.If(c, B(a), B(b))


def matches(ex, st, u, c, nm, scheme=None):
    """the URL u of a connection asks for configuration c"""
    k, bad = config(ex, st, u)

    def ob(ok, what, why=''):
        ex.ob(nm(what), ok, '' if ok else why or 'not so', st)
    if scheme is not None:
        ob(ex.value_eq(st, None, u.scheme, StrV(scheme)), 'the scheme is %s' % scheme.decode(), repr(u.scheme))
    if c['how'] == 'options':
        o = origin(ex, u.host)
        ok = o is not None and o[0] == 'hostport'
        if ok:
            t = MODELS['strings.Trim'](ex, st, [c['host'], StrV(b'[]')], None)
            ok = (ex.value_eq(st, None, o[1], t)) and ex.value_eq(st, None, o[2], urlmodel.m_itoa(ex, st, c['port']))
        ob(ok, 'connections go to the host and port given', repr(u.host))
    elif c['how'] == 'string':
        ob(ex.value_eq(st, None, u.host, c['hostPort']), 'connections go to the host and port given', repr(u.host))
    else:
        ob(ex.value_eq(st, None, u.host, c['addr']), 'connections go to the address given', repr(u.host))
    # credentials
    na = c.get('noauth', False)
    for s, none in fork2(ex, st, B(na)):
        if none:
            ex.ob(nm('no credentials are made up'), u.user is None, repr(u.user), s)
        else:
            ok = u.user is not None and valid(s, B(u.user.d['isset'])) and text_eq(ex, s, u.user.d['name'], c['user']) and text_eq(ex, s, u.user.d['pw'], c['password'])
            ex.ob(nm('connections use the user and password given'), ok, repr(u.user), s)
    ob(valid(st, Or(Not(c['fits']), eq(k['timeout'], c['timeout']))), 'connections use the timeout given', '%s instead of %s' % (k['timeout'], c['timeout']))
    for s, t in fork2(ex, st, B(c['tls'])):
        ex.ob(nm('connections use TLS exactly when that was asked for'), valid(s, B(k['tls']) == z3.BoolVal(t)), 'tls=%s' % k['tls'], s)
        if not t:
            continue
        for f in ('cert', 'key', 'ca'):
            w = c[f]
            alts = [(s, w)] if isinstance(w, StrV) else [(s3, v) for s2, asked in fork2(ex, s, w[2]) for s3, v in (pick(ex, s2, w[0], w[1]) if asked else [(s2, w[0])])]
            for s2, v in alts:
                ex.ob(nm('connections use the TLS files given (%s)' % f), text_eq(ex, s2, k[f], v), '%r instead of %r' % (k[f], v), s2)
        ex.ob(nm('the server is left unverified exactly when that was asked for {C15,C24}'), valid(s, B(k['noverify']) == B(c['noverify'])), '%s instead of %s' % (k['noverify'], c['noverify']), s)
    # nothing makes opening fail that was in order
    return k, bad


class OptArr:
    def __init__(self, ex, et, arr, n):
        self.ex, self.et, self.arr, self.len = ex, et, arr, n

    def at(self, st, i):
        return self.ex.evalue(st, self.et, z3.simplify(z3.Select(self.arr, I(i)))).term


class NewClient(Contract):
    def must_reach(self, ex, args):
        return ['client', 'refused']

    def setups(self, ex, st0, name):
        st = State()
        ex.ctx['schemes'] = ex.ctx['join'] = True
        et = ex.P.T(ROOT + 'Opt')
        n = fresh('nopts', Int)
        st.assume(n >= 0, n < (1 << 40))
        arr = z3.Const('opts', z3.ArraySort(Int, Any))
        st.ghost.update({'opt.n': 0, 'opt.want': None, 'opt.err': False})
        ex.ctx['opts'] = OptArr(ex, et, arr, n)
        yield [SliceV(st.alloc(ArrZ(et, arr, n, True)), 0, n, n)], st

    def outcomes(self, ex, st, args, ret):
        return [('client', err_is_nil(ex, st, ret.f[1])), ('refused', Not(err_is_nil(ex, st, ret.f[1])))]

    def post(self, E):
        ex, st, g = E.ex, E.st, E.st.ghost
        E.gdecl |= {k for k in g}
        o = ex.ctx['opts']
        c, err = E.retv.f
        w = g['opt.want']
        nm = lambda what: '%s: %s%s' % (short(E.name), what, '' if '{' in what else ' {C15}')
        if E.case == 'refused':
            if g['opt.err']:
                return
            n = g['opt.n']
            early = Or(eq(o.len, 0), And(lt(n, o.len), o.at(st, n) == NILFUNC))
            for s, e in fork2(ex, st, B(early)):
                if e:
                    continue
                if w is None:
                    ex.ob(nm('is only refused for a reason'), False, 'no option was applied', s)
                    continue
                ex.ob(nm('every option is applied'), valid(s, eq(n, o.len)), 'refused after %s' % n, s)
                for s2, must, may, cfg in intended(ex, s, w):
                    may = Or(may, any(v == 'bad' for k, v in s2.ghost.items() if isinstance(k, tuple) and k[0] == 'urlbad'))
                    ex.prove(s2, may, nm('is only refused for a reason'))
            return
        E.ob(not g['opt.err'], 'an option that fails makes it fail {C15}', 'ignored')
        E.fact(And(lt(0, o.len), eq(g['opt.n'], o.len)), 'every option is applied {C15}')
        ok = c.dyn is not None and not isinstance(c.dyn[0], str) and ex.P.str(c.dyn[0]) == '*' + TCL and c.dyn[1].ref is not None
        E.ob(ok, 'a client is returned {C15}', repr(c))
        if not ok or w is None:
            E.ob(w is not None, 'some option is applied {C15}', 'none')
            return
        v = ex.load(st, c.dyn[1])
        for s, must, may, cfg in intended(ex, st, w):
            ex.prove(s, Not(B(must)), nm('invalid or contradictory configuration is refused'))
            if cfg is None:
                continue
            ex.ob(nm('routing is what was asked for'), valid(s, B(get(ex, v, 'routing')) == B(cfg['routing'])), repr(get(ex, v, 'routing')), s)
            for s2, r in fork2(ex, s, B(cfg['routing'])):
                for s3, u in parsed(ex, s2, get(ex, v, 'connStr')):
                    if not feasible(s3):
                        continue
                    ex.ob(nm('the connection string can be read'), u is not None, repr(get(ex, v, 'connStr')), s3)
                    if u is None:
                        continue
                    matches(ex, s3, u, cfg, nm, b'bolt+routing' if r else b'bolt')
                    k, bad = config(ex, s3, u)
                    ex.ob(nm('the chunk size is the one given'), valid(s3, Or(bad, eq(k['chunk'], cfg['chunk']))), '%s instead of %s' % (k['chunk'], cfg['chunk']), s3)


def prep(ex):
    ex.loopspecs = [OptLoop()]


def run_newclient(ex):
    prep(ex)
    ex.check(NewClient(), ROOT + 'NewClient')
