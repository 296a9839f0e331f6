"""The requests of every protocol version (C09): signature byte and fields of each message a version builds,
its codec, and the pieces messages are built from (transaction metadata, authentication tokens)."""
import z3
from core import *
from values import *
from prove import Contract, Pred, ANY, short
from models import fresh_str
from conn import (BOLT, MSG, S, MAPT, MapIs, EMPTYMAP, is_empty_map, msg_parts, meta_expected, codec_of, str_nonempty, cmap, ACCESS_READ)


def proto(v):
    return '(*%sprotocol/protocol_v%d.BoltProtocolV%d).' % (BOLT, v, v)


class Simple(Contract):
    """a function without preconditions: symbolic arguments of its parameter types"""

    def __init__(self, spec, args=None):
        self.spec = spec
        self.mk = args

    def must_reach(self, ex, args):
        return []

    def params(self, ex, st, name):
        out = []
        for p in ex.P.funcs[name]['params']:
            if self.mk and p['n'] in self.mk:
                out.append(self.mk[p['n']](ex, st))
            elif ex.P.kind(p['t']) == 'ptr' and ex.P.kind(ex.P.elem(p['t'])) == 'struct' and not ex.P.fields(ex.P.elem(p['t'])):
                out.append(PtrV(st.alloc(Cell(ex.zero(st, ex.P.elem(p['t'])), ex.P.elem(p['t'])))))
            else:
                out.append(ex.sym(st, p['t'], lambda q, s: fresh(p['n'] + q, s)))
        return out

    def setups(self, ex, st0, name):
        st = State()
        yield self.params(ex, st, name), st

    def post(self, E):
        self.spec(E, *E.args)


class Message(Contract):
    """a request: want(ex, st, *args) -> (signature, fields)"""

    def __init__(self, want, shapes=(None,), second=None):
        self.want, self.shapes, self.second = want, shapes, second

    def must_reach(self, ex, args):
        return []

    def setups(self, ex, st0, name):
        for sh in self.shapes:
            st = State()
            args = Simple(None).params(ex, st, name)
            if sh is not None:
                sh(ex, st, args)
            yield args, st

    def post(self, E):
        ex = E.ex
        ret = E.retv
        if isinstance(ret, TupleV):
            E.ob(valid(E.st, B(ret.f[1])), 'the version has this request {C09,C13}', repr(ret))
            ret = ret.f[0]
        st = E.st.fork()
        E.gdecl |= {k for k in E.st.ghost if isinstance(k, str)}
        # a token handed over may be completed in place
        for r in getattr(E, 'may', ()):
            E.decl.add((r, ()))
        if isinstance(ret, StructV):
            ret = IfaceV(dyn=(ret.t, ret))
        if ret.isnil:
            E.ob(False, 'builds a request {C09}', 'nil')
            return
        for s, sig, fields in msg_parts(ex, st, ret):
            wsig, want = self.want(ex, s, E)
            ok = sig == wsig if isinstance(sig, int) else valid(s, eq(sig, wsig))
            ex.ob(E.nm('signature byte {C09}'), ok, '%s is not %#x' % (sig, wsig), s)
            ok = len(fields) == len(want)
            ex.ob(E.nm('number of fields {C09}'), ok, '%d fields, expected %d' % (len(fields), len(want)), s)
            if ok:
                for i, (a, b) in enumerate(zip(fields, want)):
                    ok = ex.value_eq(s, None, a, b)
                    ex.ob(E.nm('field %d {C09,C14}' % i), ok, '%.300r is not %.300r' % (a, b), s)


def token_shapes(ex_keys):
    def mk(keys):
        def f(ex, st, args):
            ents = [(StrV(k), S(ex, fresh_str(st, k))) for k in keys]
            args[2] = MapV(st.alloc(MapObj(MAPT(ex), ents)))
        return f

    def nil(ex, st, args):
        args[2] = MapV(None)
    return [nil] + [mk(k) for k in ex_keys]


SHAPES = token_shapes([(), ('scheme',), ('scheme', 'principal', 'credentials'), ('scheme', 'principal', 'credentials', 'realm'),
                       ('scheme', 'principal', 'credentials', 'user_agent')])


def init_want(v):
    def want(ex, s, E):
        client, tok = E.args[1], E.args[2]
        if v <= 2:
            o = IfaceV(dyn=(MAPT(ex), tok))
            f = EMPTYMAP if tok.ref is None else o
            return 0x01, [S(ex, client), f]
        ents = []
        if tok.ref is not None:
            ents = [(k.rope.conc().decode(), x, True) for k, x in E.old.heap[tok.ref].ents]
        ents = [e for e in ents if e[0] != 'user_agent'] + [('user_agent', S(ex, client), True)]
        return 0x01, [MapIs(ents)]
    return want


class InitMessage(Message):
    def post(self, E):
        tok = E.args[2]
        E.may = [tok.ref] if tok.ref is not None else []
        Message.post(self, E)


def i64(ex, x):
    return IfaceV(dyn=(ex.P.T('int64'), x))


def run_want(v):
    def want(ex, s, E):
        query, params, db, mode, auto = E.args[1:6]
        f = [S(ex, query), Pred(lambda ex, st, x: x.dyn is not None and isinstance(x.dyn[1], MapV) and
                                (ex.map_veq(st, x.dyn[1], params, 0) if params.ref is not None else is_empty_map(ex, st, x)))]
        if v >= 3:
            a = simp(B(auto))
            if a is not True and a is not False:
                if valid(s, a):
                    a = True
                elif valid(s, Not(a)):
                    a = False
            if a is True:
                f.append(meta_expected(ex, s, v, db, mode))
            elif a is False:
                f.append(EMPTYMAP)
            else:
                f.append(Pred(lambda ex, st, x: False))
        return 0x10, f
    return want


def begin_want(v):
    def want(ex, s, E):
        db, mode = E.args[1], E.args[2]
        if v <= 2:
            return 0x10, [S(ex, 'BEGIN'), EMPTYMAP]
        return 0x11, [meta_expected(ex, s, v, db, mode)]
    return want


def const_want(sig, *fields):
    def want(ex, s, E):
        return sig, [f(ex, s) for f in fields]
    return want


def text(t):
    return lambda ex, s: S(ex, t)


def empty(ex, s):
    return EMPTYMAP


def all_n(ex, s):
    return MapIs([('n', i64(ex, -1), True)])


def discard_want(ex, s, E):
    q = E.args[1]
    return 0x2F, [MapIs([('n', i64(ex, -1), True), ('qid', i64(ex, q), Not(eq(q, -1)))])]


class NoClose(Simple):
    def __init__(self):
        Simple.__init__(self, None)

    def post(self, E):
        r = E.retv
        E.ob(valid(E.st, Not(B(r.f[1]))) and r.f[0].isnil, 'this version has no close request {C09,C13}', repr(r))


class Multi(Simple):
    def __init__(self, v):
        Simple.__init__(self, None)
        self.v = v

    def post(self, E):
        E.ob(simp(E.retv) is (self.v >= 4), 'several databases are supported from version 4 on {C09,C14}', repr(E.retv))


class Codec(Simple):
    """NewEncoder and NewDecoder: the codec of the version on the stream given"""

    def __init__(self, v, which):
        Simple.__init__(self, None)
        self.v, self.which = v, which

    def setups(self, ex, st0, name):
        st = State()
        rw = NatV('rwmark')
        args = [Simple(None).params(ex, st, name)[0], IfaceV(dyn=('rwmark', rw))]
        if self.which == 'Encoder':
            cs = fresh('chunk', Int)
            st.assume(cs >= 0, cs <= 65535)
            args.append(cs)
        yield args, st

    def post(self, E):
        ex, P = E.ex, E.ex.P
        r = E.retv
        n = codec_of(self.v)
        t = 'encoding/encoding_v%d.%sV%d' % (n, self.which, n)
        ok = r.dyn is not None and not isinstance(r.dyn[0], str) and P.str(r.dyn[0]).lstrip('*') == BOLT + t
        E.ob(ok, 'the %s of version %d {C09}' % (self.which.lower(), self.v), repr(r))
        if not ok:
            return
        x = r.dyn[1]
        if isinstance(x, PtrV):
            x = ex.load(E.st, x)
        ok = any(isinstance(f, IfaceV) and f.dyn is not None and f.dyn[0] == 'rwmark' for f in x.f)
        E.ob(ok, 'works on the stream given {C09}', repr(x))
        if self.which == 'Encoder':
            cs = E.args[2]
            for f, y in zip(P.fields(x.t), x.f):
                if P.intinfo(f['type']):
                    E.fact(I(y) == z3.If(cs == 0, 65535, cs), 'uses the chunk size given {C09,C02}')


def nodb(ex, st, args):
    """a version without several databases is never given one (the connection refuses that: C14)"""
    for i, x in enumerate(args):
        if isinstance(x, StrV) and i == len(args) - (2 if len(args) == 3 else 3):
            args[i] = StrV('')


def methods(v):
    p = proto(v)
    db = (nodb,) if v == 3 else (None,)
    ms = [(p + 'GetInitMessage', InitMessage(init_want(v), SHAPES)),
          (p + 'GetTxBeginMessage', Message(begin_want(v), db)),
          (p + 'GetRunMessage', Message(run_want(v), db))]
    if v <= 2:
        ms += [(p + 'GetTxCommitMessage', Message(const_want(0x10, text('COMMIT'), empty))),
               (p + 'GetTxRollbackMessage', Message(const_want(0x10, text('ROLLBACK'), empty))),
               (p + 'GetCloseMessage', NoClose())]
    else:
        ms += [(p + 'GetTxCommitMessage', Message(const_want(0x12))),
               (p + 'GetTxRollbackMessage', Message(const_want(0x13))),
               (p + 'GetCloseMessage', Message(const_want(0x02)))]
    if v <= 3:
        ms += [(p + 'GetPullAllMessage', Message(const_want(0x3F))),
               (p + 'GetDiscardAllMessage', Message(const_want(0x2F))),
               (p + 'GetDiscardMessage', Message(const_want(0x2F)))]
    else:
        ms += [(p + 'GetPullAllMessage', Message(const_want(0x3F, all_n))),
               (p + 'GetDiscardAllMessage', Message(const_want(0x2F, all_n))),
               (p + 'GetDiscardMessage', Message(discard_want))]
    ms += [(p + 'SupportsMultiDatabase', Multi(v)), (p + 'NewEncoder', Codec(v, 'Encoder')), (p + 'NewDecoder', Codec(v, 'Decoder'))]
    return ms


# ---------------------------------------------------------------- the pieces
class TxMeta(Contract):
    """BuildTxMetadata(WithDatabase): timeout in milliseconds, user metadata, mode and database exactly when they apply"""

    def __init__(self, withdb):
        self.withdb = withdb

    def must_reach(self, ex, args):
        return []

    def setups(self, ex, st0, name):
        for tmo in (False, True):
            for meta in (False, True):
                st = State()
                args = []
                for p in ex.P.funcs[name]['params']:
                    k = ex.P.kind(p['t'])
                    if k == 'ptr':
                        if tmo:
                            d = fresh('timeout', Int)
                            st.assume(d >= -(1 << 62), d < (1 << 62))
                            args.append(PtrV(st.alloc(Cell(d, ex.P.elem(p['t'])))))
                        else:
                            args.append(PtrV(None))
                    elif k == 'map' and not meta:
                        args.append(MapV(None))
                    else:
                        args.append(ex.sym(st, p['t'], lambda q, s: fresh(p['n'] + q, s)))
                yield args, st

    def post(self, E):
        ex, st = E.ex, E.st
        a = list(E.args)
        tmo, meta = a[0], a[1]
        db = a[2] if self.withdb else None
        mode = a[3] if self.withdb else a[2]
        ents = []
        if tmo.ref is not None:
            d = ex.load(E.old, tmo)
            ms = z3.If(I(d) >= 0, I(d) / 1000000, -((-I(d)) / 1000000))
            ents.append(('tx_timeout', i64(ex, ms), Not(eq(d, 0))))
        if meta.ref is not None:
            ents.append(('tx_metadata', IfaceV(dyn=(MAPT(ex), meta)), Not(eq(ex.maplen(E.old, meta), 0))))
        ents.append(('mode', S(ex, 'r'), eq(mode, ACCESS_READ)))
        if db is not None:
            ents.append(('db', S(ex, db), str_nonempty(db)))
        ok = MapIs(ents).f(ex, st, IfaceV(dyn=(MAPT(ex), E.retv)))
        E.ob(ok, 'timeout, user metadata, read mode and database exactly when they apply {C09,C14}', repr(st.heap.get(E.retv.ref)))


class Token(Simple):
    def __init__(self, keys):
        Simple.__init__(self, None)
        self.keys = keys

    def post(self, E):
        ex = E.ex
        ents = []
        for k, f in self.keys:
            v, c = f(E.args)
            ents.append((k, S(ex, v), c))
        ok = MapIs(ents).f(ex, E.st, IfaceV(dyn=(MAPT(ex), E.retv)))
        E.ob(ok, 'exactly the scheme, principal, credentials and realm given {C09,C15}', repr(E.st.heap.get(E.retv.ref)))


def pieces():
    basic = [('scheme', lambda a: ('basic', True)), ('principal', lambda a: (a[0], True)), ('credentials', lambda a: (a[1], True))]
    return [(MSG + 'BuildTxMetadata', TxMeta(False)), (MSG + 'BuildTxMetadataWithDatabase', TxMeta(True)),
            (MSG + 'BuildAuthTokenBasic', Token(basic)),
            (MSG + 'BuildAuthTokenBasicWithRealm', Token(basic + [('realm', lambda a: (a[2], str_nonempty(a[2])))])),
            (MSG + 'BuildAuthTokenKerberos', Token([('scheme', lambda a: ('kerberos', True)), ('principal', lambda a: ('', True)),
                                                    ('credentials', lambda a: (a[0], True))])),
            (MSG + 'NewResetMessage', Message(const_want(0x0F)))] + constructors()


def samemap(m):
    return Pred(lambda ex, st, x: x.dyn is not None and isinstance(x.dyn[1], MapV) and
                (ex.map_veq(st, x.dyn[1], m, 0) if m.ref is not None else is_empty_map(ex, st, x)))


def streamed(sig):
    def want(ex, s, E):
        n, q = E.args
        return sig, [MapIs([('n', i64(ex, n), True), ('qid', i64(ex, q), Not(eq(q, -1)))])]
    return want


def nilmaps(ex, st, args):
    for i, x in enumerate(args):
        if isinstance(x, MapV):
            args[i] = MapV(None)


def auto_want(ex, s, E):
    query, params, tmo, meta, db, mode = E.args
    ents = [('tx_timeout', i64(ex, z3.If(I(tmo) >= 0, I(tmo) / 1000000, -((-I(tmo)) / 1000000))), Not(eq(tmo, 0)))]
    if meta.ref is not None:
        ents.append(('tx_metadata', IfaceV(dyn=(MAPT(ex), meta)), Not(eq(ex.maplen(E.old, meta), 0))))
    ents += [('mode', S(ex, 'r'), eq(mode, ACCESS_READ)), ('db', S(ex, db), str_nonempty(db))]
    return 0x10, [S(ex, query), samemap(params), MapIs(ents)]


def constructors():
    """every exported constructor of a request"""
    both = (None, nilmaps)
    N = lambda n: MSG + 'New' + n + 'Message'
    return [(N('Pull'), Message(streamed(0x3F))), (N('Discard'), Message(streamed(0x2F))),
            (N('PullAll'), Message(const_want(0x3F))), (N('DiscardAll'), Message(const_want(0x2F))),
            (N('Goodbye'), Message(const_want(0x02))), (N('Commit'), Message(const_want(0x12))), (N('Rollback'), Message(const_want(0x13))),
            (N('Hello'), Message(lambda ex, s, E: (0x01, [samemap(E.args[0])]), both)),
            (N('Begin'), Message(lambda ex, s, E: (0x11, [samemap(E.args[0])]), both)),
            (N('Init'), Message(lambda ex, s, E: (0x01, [S(ex, E.args[0]), samemap(E.args[1])]), both)),
            (N('Run'), Message(lambda ex, s, E: (0x10, [S(ex, E.args[0]), samemap(E.args[1])]), both)),
            (N('AutoCommitTxRun'), Message(auto_want, both)),
            (N('UnmanagedTxRun'), Message(lambda ex, s, E: (0x10, [S(ex, E.args[0]), samemap(E.args[1]), EMPTYMAP]), both))]
