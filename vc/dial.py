"""Opening a connection: the connection string, dialling, TLS, version negotiation, initialisation; and the deadlines
of every read and write.

The URL a connection string denotes is what urlmodel says; what a connection for it has to be like is urlmodel.config.
CreateBoltConn is verified in two parts that meet at the dial: every string it may be given, up to the dial (which
address, which timeout, plain or TLS and with which settings, and which connection object goes on), and everything a
server may answer after it, for every such connection object."""
import z3
from core import *
from values import *
from exec import model, invoke, MODELS, INVOKES, GLOBALS
from prove import Contract, Pred, ANY, short, err_is_nil
from models import lib_error, global_error, fork2, fresh_str
import models
import conn
import urlmodel
from urlmodel import U, Q, built, blob, config, parsed, durok, durof, atoiok, uintok, uintof, MAXI, BILLION
from conn import (BOLT, TC, TT, TRW, MSG, NETCONN, cf, cget, new_conn, set_shape, new_tx, locked, held, S, MapIs, codec_of, cmap)

CREATE = BOLT + 'connection.CreateBoltConn'
PREAMBLE = bytes([0x60, 0x60, 0xB0, 0x17]) + b''.join(bytes([0, 0, 0, v]) for v in (4, 3, 2, 1))


# ---------------------------------------------------------------- deadlines
def total(s, n):
    return I(s) * BILLION + I(n)


def deadline(ex, st, which, what):
    """a deadline of the connection's timeout from now was set for this operation"""
    g = st.ghost
    dl = g.get('k.' + which)
    top = short(ex.top)
    nows = g.get('nows', ())[g.get('k.nowmark', 0):]
    t = cget(ex, st, ex.ctx['conn'], 'timeout')
    ok = dl is not None and any(valid(st, total(dl.s, dl.n) == total(s, n) + I(t)) for s, n in nows)
    why = 'none was set' if dl is None else 'it is %s from nothing read off the clock for this operation' % (dl,)
    ex.ob("%s: every %s has a fresh deadline of the connection's timeout {C23}" % (top, what), ok, '' if ok else why, st)
    g['k.' + which] = None
    g['k.nowmark'] = len(g.get('nows', ()))


def net_error(ex, st):
    """a transport failure other than the end of the stream"""
    e = lib_error(ex, st, 'neterr')
    for x in ('io.EOF', 'io.ErrUnexpectedEOF'):
        st.assume(e.term != global_error(ex, st, x).term)
    return e


class ReadWrite(Contract):
    """Read and Write of what the codec is given"""

    def __init__(self, op):
        self.op = op

    def must_reach(self, ex, args):
        return []

    def setups(self, ex, st0, name):
        for sh in ('open', 'tx'):
            st = State()
            c = new_conn(ex, st, 4)
            set_shape(ex, st, c, sh, new_tx(ex, st, c, False) if sh == 'tx' else None)
            st.ghost['k.private'] = True
            st.ghost['k.io'] = None
            st.ghost['k.rdl'] = st.ghost['k.wdl'] = None
            b = fresh('data', Bytes)
            st.assume(blen(b) >= 0, blen(b) < (1 << 40))
            p = SliceV(st.alloc(ArrRope(rope_of(b), self.op == 'Write')), 0, blen(b), blen(b))
            ex.ctx['netread'] = ex.ctx['netwrite'] = self.io
            ex.ctx.pop('forget', None)
            yield [cget(ex, st, c, 'rw'), p], st

    def io(self, ex, st, buf):
        deadline(ex, st, 'wdl' if self.op == 'Write' else 'rdl', self.op.lower())
        top = short(ex.top)
        ex.ob('%s: one call reaches the socket {C23}' % top, st.ghost['k.io'] is None, 'a second one', st)
        outs = []
        n = fresh('count', Int)
        st.assume(n >= 0, n <= I(buf.len))
        kinds = ['ok', 'neterr'] + (['eof'] if self.op == 'Read' else [])
        for k in kinds:
            s = st.fork()
            s.note('the socket: ' + k)
            s.ghost['k.io'] = (k, buf, n)
            if k == 'ok':
                if self.op == 'Write':
                    s.assume(n == I(buf.len))
                outs.append((s, 'ret', TupleV([n, NILI])))
            elif k == 'eof':
                outs.append((s, 'ret', TupleV([n, global_error(ex, s, 'io.EOF')])))
            else:
                outs.append((s, 'ret', TupleV([n, net_error(ex, s)])))
        return outs

    def post(self, E):
        ex, st = E.ex, E.st
        E.gdecl |= {k for k in st.ghost if isinstance(k, str)}
        c = ex.ctx['conn']
        E.decl.add((c.ref, ()))
        for r, o in E.old.heap.items():
            if isinstance(o, Cell) and o.t is not None and ex.P.str(o.t) == TT:
                E.decl.add((r, ()))
        n, err = E.retv.f
        io = st.ghost['k.io']
        bad = err.term is not None and valid(st, err.term == global_error(ex, st, 'database/sql/driver.ErrBadConn').term)
        if io is None:
            E.fact(eq(n, 0), 'without a deadline nothing is done {C23}')
            E.ob(bad, 'a deadline that cannot be set is a bad connection {C23}', repr(err))
            return
        k, buf, m = io
        p = E.args[1]
        same_ = buf.ref == p.ref and valid(st, And(eq(buf.off, p.off), eq(buf.len, p.len)))
        if not same_ and self.op == 'Write':
            same_ = ex.rope_eq(st, ex.slice_rope(st, buf), ex.slice_rope(st, p))
        E.ob(same_, 'the data is passed through {C23}', 'other bytes')
        E.fact(eq(n, m), 'the true byte count {C23}')
        if k == 'ok':
            E.fact(err_is_nil(ex, st, err), 'a %s that worked is no error {C23,C10}' % self.op.lower())
        elif k == 'eof':
            e = global_error(ex, st, 'io.EOF').term
            E.ob(err.term is not None and (bad or valid(st, err.term == e)), 'the end of the stream is reported {C23,C03}', repr(err))
        else:
            E.ob(bad, 'a transport failure is a bad connection {C23}', repr(err))


# ---------------------------------------------------------------- dialling
def the_conn(ex, st):
    c = [r for r, o in st.heap.items() if isinstance(o, Cell) and not isinstance(o, StackCell) and o.t is not None and ex.P.str(o.t) == TC]
    if len(c) != 1:
        raise Unsupported('%d connections at the dial' % len(c))
    return PtrV(c[0])


def dialled(ex, st, network, addr, timeout, cfg, tlsconn=False):
    """the network is dialled; cfg is the *tls.Config, or None"""
    g = st.ghost
    top = short(ex.top)
    h = ex.ctx.get('dial')
    if h is None:
        raise Unsupported('dials')
    g['k.dials'] = g.get('k.dials', 0) + 1
    ex.ob('%s: one connection is dialled {C08,C15}' % top, g['k.dials'] == 1, 'another one', st)
    want = g['k.want']
    ex.ob('%s: a connection is only dialled for a string that is in order {C15}' % top, not feasible(st, g['k.bad']), 'the string is malformed', st)
    ex.ob('%s: dials tcp {C15}' % top, network.rope.conc() in (b'tcp',), repr(network), st)
    ex.ob('%s: dials the configured address {C15}' % top, ex.value_eq(st, None, addr, want['hostPort']), '%r' % (addr,), st)
    ok = timeout is not None and valid(st, Or(Not(want['fits']), eq(timeout, want['timeout'])))
    ex.ob('%s: dialling is bounded by the configured timeout {C23,C15}' % top, ok, '%s instead of %s' % (timeout, want['timeout']), st)
    ok = valid(st, want['tls'] if cfg is not None else Not(want['tls']))
    ex.ob('%s: TLS is used exactly when asked for {C15,C24}' % top, ok, 'TLS' if cfg is not None else 'plain', st)
    if cfg is not None:
        tls_settings(ex, st, cfg, want)
    c = the_conn(ex, st)
    old = ex.ctx.get('conn')
    if old is not None and old.ref != c.ref:
        raise Unsupported('connection object moved')
    ex.ctx['conn'] = c
    for r, w in (('user', 'user'), ('password', 'password'), ('timeout', 'timeout'), ('chunk', 'chunk')):
        v = cget(ex, st, c, r)
        if r == 'timeout':
            ok = valid(st, Or(Not(want['fits']), eq(v, want[w])))
        else:
            ok = ex.value_eq(st, None, v, want[w])
        ex.ob('%s: the connection has the configured %s {C15,C23}' % (top, r), ok, '%r instead of %r' % (v, want[w]), st)
    outs = []
    bad = st.fork()
    bad.ghost['k.ev'] |= {'dial'}
    bad.note('dial fails')
    t = '*crypto/tls.Conn'
    outs.append((bad, 'ret', TupleV([PtrV(None) if tlsconn else NILI, lib_error(ex, bad, 'dialerr')])))
    if h == 'talk':
        st.ghost['k.open'] = True
        st.note('dialled')
        r = NETCONN
        if tlsconn:
            r = PtrV(st.alloc(Cell(NatV('tlsconn'), ex.P.T('crypto/tls.Conn'))))
        outs.append((st, 'ret', TupleV([r, NILI])))
    return outs


def fields(ex, v):
    return {f['name']: x for f, x in zip(ex.P.fields(v.t), v.f)}


def tls_settings(ex, st, cfg, want):
    top = short(ex.top)

    def ob(ok, what, why=''):
        ex.ob('%s: %s {C24}' % (top, what), ok, '' if ok else why or 'not so', st)
    if cfg.ref is None:
        ob(False, 'TLS has settings', 'nil config')
        return
    f = fields(ex, ex.load(st, cfg))
    nv = simp(B(f['InsecureSkipVerify']))
    ob(valid(st, B(nv) == B(want['noverify'])), 'the server is left unverified exactly when that was asked for', '%s / %s' % (nv, want['noverify']))
    ob(0x0301 <= simp(f['MinVersion']) <= 0x0303 if isinstance(simp(f['MinVersion']), int) else False, 'the lowest TLS version is the configured one', str(f['MinVersion']))
    mx = simp(f['MaxVersion'])
    ob(isinstance(mx, int) and mx == 0x0303, 'the highest TLS version is the configured one', str(mx))
    sn = f['ServerName']
    ob(valid(st, eq(sn.rope.len(), 0)), 'the name verified is that of the host dialled', repr(sn))
    ca = want['ca']
    none = simp(eq(ca.rope.len(), 0))
    r = f['RootCAs']
    if r.ref is None:
        ob(valid(st, none), 'a CA file given is the root set used', 'system roots')
    else:
        p = ex.load(st, r)
        ok = p.kind == 'CertPool' and not p.d['system'] and len(p.d['pems']) == 1 and \
            valid(st, And(Not(none), p.d['pems'][0] == urlmodel.filedata(ex.bterm(st, ca.rope))))
        ob(ok, 'the root set is the CA file given and nothing else', repr(p))
    cert, key = want['cert'], want['key']
    nocert = simp(eq(cert.rope.len(), 0))
    cs = f['Certificates']
    n = simp(cs.len)
    if n == 0:
        ob(valid(st, nocert), 'a client certificate given is presented', 'none')
    else:
        ok = False
        es = ex.elems(st, cs, ex.P.T('crypto/tls.Certificate'))
        if es is not None and len(es) == 1:
            pk = fields(ex, es[0])['PrivateKey']
            if pk.dyn is not None and pk.dyn[0] == 'keypair':
                d = pk.dyn[1].d
                ok = valid(st, Not(nocert)) and ex.value_eq(st, None, d['cert'], cert) and ex.value_eq(st, None, d['key'], key)
        ob(ok, 'the client certificate presented is the one given, with its key', repr(es)[:200])


@model('net.DialTimeout')
def _(ex, st, a, ins):
    return dialled(ex, st, a[0], a[1], a[2], None)


@model('net.Dial')
def _(ex, st, a, ins):
    return dialled(ex, st, a[0], a[1], None, None)


def dialer_timeout(ex, st, d):
    if d.ref is None:
        return None
    f = fields(ex, ex.load(st, d))
    return f['Timeout']


@model('(*net.Dialer).Dial')
def _(ex, st, a, ins):
    return dialled(ex, st, a[1], a[2], dialer_timeout(ex, st, a[0]), None)


@model('crypto/tls.DialWithDialer')
def _(ex, st, a, ins):
    return dialled(ex, st, a[1], a[2], dialer_timeout(ex, st, a[0]), a[3], True)


@model('crypto/tls.Dial')
def _(ex, st, a, ins):
    return dialled(ex, st, a[0], a[1], None, a[2], True)


def _tls(m):
    def f(ex, st, a, ins):
        if a[0].ref is None:
            return [(st, 'panic', 'nil connection')]
        return INVOKES[('netconn', m)](ex, st, NETCONN.dyn[1], a[1:], ins)
    MODELS['(*crypto/tls.Conn).' + m] = f


for _m in ('Read', 'Write', 'Close', 'SetDeadline', 'SetReadDeadline', 'SetWriteDeadline'):
    _tls(_m)

_rf = MODELS['io.ReadFull']


@model('io.ReadFull')
def _(ex, st, a, ins):
    rd, buf = a
    n = simp(buf.len)
    if not (isinstance(rd, IfaceV) and rd.dyn is not None and not isinstance(rd.dyn[0], str) and
            ex.P.str(rd.dyn[0]) in ('*' + TRW, '*crypto/tls.Conn')):
        if not (isinstance(rd, IfaceV) and rd.dyn is not None and rd.dyn[0] == 'netconn'):
            return _rf(ex, st, a, ins)
    if not isinstance(n, int):
        raise Unsupported('ReadFull of %s bytes' % n)
    outs = []
    fr, line = ex.fr, ex.curline
    work = [(st, 0)]
    while work:
        s, got = work.pop()
        if got >= n:
            outs.append((s, 'ret', TupleV([got, NILI])))
            continue
        sub_ = SliceV(buf.ref, add(buf.off, got), n - got, sub(buf.cap, got))
        for s2, k, r in ex.doinvoke(fr, s, 'Read', rd, ex.P.T('io.Reader'), [sub_], None):
            if k != 'ret':
                outs.append((s2, k, r))
                continue
            m = simp(r.f[0])
            if not isinstance(m, int):
                raise Unsupported('read of an unknown number of bytes')
            e = r.f[1]
            if e.isnil:
                work.append((s2, got + m))
            elif got + m >= n:
                outs.append((s2, 'ret', TupleV([got + m, NILI])))
            else:
                eof = e.term is not None and valid(s2, e.term == global_error(ex, s2, 'io.EOF').term)
                if eof and got + m > 0:
                    e = global_error(ex, s2, 'io.ErrUnexpectedEOF')
                outs.append((s2, 'ret', TupleV([got + m, e])))
    return outs


# ---------------------------------------------------------------- opening
def blank(ex, st):
    st.ghost.update({'k.sent': (), 'k.pend': (), 'k.fail': False, 'k.srvtx': False, 'k.open': False, 'k.partial': False,
                     'k.desync': False, 'k.ev': frozenset(), 'k.tried': 0, 'k.nrec': 0, 'k.meta': None, 'k.failure': None,
                     'k.private': True, 'k.unlocked': 0, 'k.mode': 'direct', 'k.shape': 'new', 'k.rdl': None, 'k.wdl': None,
                     'k.wire': b'', 'k.got': 0, 'k.ans': None, 'k.dials': 0})
    for e in ('io.EOF', 'io.ErrUnexpectedEOF', 'database/sql/driver.ErrBadConn'):
        e = global_error(ex, st, e)
        st.assume(tag(e.term) > 0)


def ret_pair(E):
    return E.retv.f[0], E.retv.f[1]


class Config(Contract):
    """CreateBoltConn up to the dial, for every connection string"""

    def must_reach(self, ex, args):
        return []

    def setups(self, ex, st0, name):
        ex.ctx['dial'] = 'config'
        st = State()
        blank(ex, st)
        s = fresh_str(st, 'connStr')
        for s2, u in parsed(ex, st, s):
            if u is None:
                s2.ghost['k.want'], s2.ghost['k.bad'] = None, True
            else:
                s2.ghost['k.want'], s2.ghost['k.bad'] = config(ex, s2, u)
            ex.ctx.pop('conn', None)
            yield [s], s2

    def post(self, E):
        ex, st, g = E.ex, E.st, E.st.ghost
        E.gdecl |= {k for k in g if isinstance(k, str)}
        c, err = ret_pair(E)
        E.ob(c.isnil and not g['k.open'], 'no connection without a dial {C08,C15}', repr(c))
        E.fact(Not(err_is_nil(ex, st, err)), 'what prevents the dial is an error {C15,C24,C08}')
        if not g['k.dials']:
            why = g['k.bad']
            w = g['k.want']
            if w is not None:
                # TLS that cannot be set up
                why = Or(why, And(w['tls'], Not(eq(w['cert'].rope.len(), 0)), eq(w['key'].rope.len(), 0)), 'file' in g['k.ev'],
                         And(w['tls'], Not(eq(w['ca'].rope.len(), 0)), Not(ufn('pem.ok', Bytes, Bool)(urlmodel.filedata(ex.bterm(st, w['ca'].rope))))))
            E.fact(why, 'a string is only refused for a reason {C15,C24}')
        else:
            E.ob('file' not in g['k.ev'], 'a file that cannot be read makes opening fail {C24}', 'dialled all the same')


class Talk(Contract):
    """CreateBoltConn from the dial on, for every connection object that may go on there and every server"""

    def __init__(self, tls):
        self.tls = tls

    def must_reach(self, ex, args):
        return ['v1', 'v2', 'v3', 'v4']

    def setups(self, ex, st0, name):
        ctx = ex.ctx
        ctx['dial'] = 'talk'
        ctx.pop('conn', None)
        ctx['recs'] = z3.Const('server.records', AnyArr)
        ctx['rows'] = False
        ctx['v'] = 4
        ctx['netread'], ctx['netwrite'] = self.netread, self.netwrite
        ctx['forget'] = {'nows', 'k.nowmark', 'k.rdl', 'k.wdl', 'k.dlerr', 'k.dlset', 'k.nclose', 'k.closeerr', 'spawned', 'printed'}
        st = State()
        blank(ex, st)
        t, k = fresh_str(st, 'timeout'), fresh_str(st, 'chunk')
        tt, kt = (ex.bterm(st, x.rope) for x in (t, k))
        st.assume(blen(tt) > 0, blen(kt) > 0, Not(atoiok(tt)), durok(tt), durof(tt) >= 0, durof(tt) < (1 << 62))
        st.assume(uintok(kt, 10, 16), uintof(kt, 10, 16) >= 1, uintof(kt, 10, 16) < 65536)
        user, pw = fresh_str(st, 'user'), fresh_str(st, 'password')
        over = {'timeout': t, 'chunk_size': k}
        if self.tls:
            over.update({'tls': StrV(b'true')})
        u = U(ex, StrV(b'bolt'), NatV('Userinfo', name=user, pw=pw, isset=True), fresh_str(st, 'host'), Q(None, over), None)
        u.path = built(ex, st, ('query', u.query))
        s = urlmodel.urlstr(ex, st, u)
        st.ghost[urlmodel.urlkey(s)] = 'ok'
        st.ghost['k.want'], st.ghost['k.bad'] = config(ex, st, u)
        st.ghost['k.user'], st.ghost['k.password'] = user, pw
        yield [s], st

    def netwrite(self, ex, st, sl):
        g = st.ghost
        if g['k.mode'] == 'fail':
            n = fresh('written', Int)
            st.assume(n >= 0, n <= I(sl.len))
            g['k.wdl'] = None
            return TupleV([n, net_error(ex, st)])
        top = short(ex.top)
        deadline(ex, st, 'wdl', 'write')
        b = ex.slice_rope(st, sl).conc()
        if b is None:
            raise Unsupported('handshake that is not constant')
        ex.ob('%s: the handshake comes first {C08}' % top, g['k.ans'] is None, 'written after the answer', st)
        bad = st.fork()
        bad.ghost['k.ev'] |= {'net'}
        bad.note('write of the handshake fails')
        n = fresh('written', Int)
        bad.assume(n >= 0, n < len(b))
        g['k.wire'] += b
        ex.ob('%s: the handshake is the preamble and the versions 4, 3, 2, 1 {C08}' % top, PREAMBLE.startswith(g['k.wire']), g['k.wire'].hex(), st)
        return [(st, 'ret', TupleV([len(b), NILI])), (bad, 'ret', TupleV([n, net_error(ex, bad)]))]

    def netread(self, ex, st, buf):
        g = st.ghost
        if g['k.mode'] == 'fail':
            n = fresh('read', Int)
            st.assume(n >= 0, n <= I(buf.len))
            g['k.rdl'] = None
            s2 = st.fork()
            return [(st, 'ret', TupleV([n, net_error(ex, st)])), (s2, 'ret', TupleV([n, global_error(ex, s2, 'io.EOF')]))]
        top = short(ex.top)
        deadline(ex, st, 'rdl', 'read')
        ex.ob('%s: the answer is read after the whole handshake was sent {C08}' % top, g['k.wire'] == PREAMBLE, g['k.wire'].hex(), st)
        n = simp(buf.len)
        if not isinstance(n, int):
            raise Unsupported('read of an unknown size')
        outs = []
        starts = [st]
        if g['k.ans'] is None:
            starts = []
            for v in (4, 3, 2, 1, 0, 'other'):
                s = st.fork()
                s.note('the server answers %s' % v)
                if v == 'other':
                    bs = [fresh('ans%d' % i, Int) for i in range(4)]
                    s.assume(*[z3.And(x >= 0, x <= 255) for x in bs])
                    s.assume(Not(z3.And(bs[0] == 0, bs[1] == 0, bs[2] == 0, bs[3] <= 4)))
                    s.ghost['k.ev'] |= {'alien'}
                else:
                    bs = [0, 0, 0, v]
                    if v == 0:
                        s.ghost['k.ev'] |= {'alien'}
                    else:
                        s.ghost['k.srvver'] = v
                s.ghost['k.ans'] = tuple(bs)
                starts.append(s)
        for s0 in starts:
            rest = s0.ghost['k.ans'][s0.ghost['k.got']:]
            for m in range(1, min(n, len(rest)) + 1):
                s = s0.fork()
                for i in range(m):
                    ex.store(s, PtrV(buf.ref, (add(buf.off, i),)), rest[i])
                s.ghost['k.got'] += m
                outs.append((s, 'ret', TupleV([m, NILI])))
        for k in ('eof', 'net'):
            s = starts[0].fork() if g['k.ans'] is None else st.fork()
            s.note('reading the answer: ' + k)
            s.ghost['k.ev'] |= {'net'}
            outs.append((s, 'ret', TupleV([0, global_error(ex, s, 'io.EOF') if k == 'eof' else net_error(ex, s)])))
        return outs

    def outcomes(self, ex, st, args, ret):
        e = simp(B(err_is_nil(ex, st, ret.f[1])))
        return [('v%s' % st.ghost.get('k.srvver') if e is True else 'error', True)]

    def post(self, E):
        ex, st, g = E.ex, E.st, E.st.ghost
        E.gdecl |= {k for k in g if isinstance(k, str)}
        c, err = ret_pair(E)
        nil = simp(B(err_is_nil(ex, st, err)))
        good = not g['k.ev']
        E.ob(nil is True or nil is False or valid(st, Not(nil)) or valid(st, nil), 'success is known', repr(err))
        nil = nil is True or (nil is not False and valid(st, nil))
        E.ob(nil == good, 'a connection is returned exactly when the server acknowledged initialisation {C08}',
             'returns %r, events %s, sent %s, unanswered %s' % (err, sorted(g['k.ev']), [m[0] for m in g['k.sent']], g['k.pend']))
        for m in g['k.sent']:
            if m[0] == 'INIT':
                self.init(E, m)
        extra = [m[0] for m in g['k.sent'] if m[0] not in ('INIT', 'RESET', 'GOODBYE')]
        E.ob(not extra, 'nothing but the initialisation is requested {C08}', repr(extra))
        if not nil:
            E.ob(c.isnil, 'no connection with an error {C08}', repr(c))
            E.ob(not g['k.open'], 'a failed opening leaves no socket open {C08,C18,C19}', 'the socket is open')
            return
        P = ex.P
        E.ob(not g['k.pend'] and [m[0] for m in g['k.sent']] == ['INIT'], 'initialisation was requested once and acknowledged {C08}',
             'sent %s, unanswered %s' % ([m[0] for m in g['k.sent']], g['k.pend']))
        v = g.get('k.srvver')
        if v is None:
            return
        ok = c.dyn is not None and not isinstance(c.dyn[0], str) and P.str(c.dyn[0]) == '*' + TC and c.dyn[1].ref == ex.ctx['conn'].ref
        E.ob(ok, 'the connection dialled is returned {C08}', repr(c))
        if not ok:
            return
        c = c.dyn[1]
        get = lambda r: cget(ex, st, c, r)
        E.ob(g['k.open'], 'the socket is open {C08}', 'it is closed')
        # the invariant every other call relies on
        E.ob(valid(E.st, Not(B(get('closed')))), 'the connection is not marked closed {C08,C13}', repr(get('closed')))
        E.ob(get('tx').ref is None, 'there is no transaction {C12}', repr(get('tx')))
        if cf(P, 'openQuery') is not None:
            E.ob(valid(E.st, Not(B(get('openQuery')))), 'no query is open {C10}', repr(get('openQuery')))
        m = get('mutex')
        E.ob(m.d['w'] == 0 and m.d['r'] == 0, 'the connection is not locked {C22}', repr(m))
        pr = get('proto')
        ok = pr.dyn is not None and not isinstance(pr.dyn[0], str) and P.str(pr.dyn[0]) == '*%sprotocol/protocol_v%d.BoltProtocolV%d' % (BOLT, v, v)
        E.ob(ok, "the server's version is the one used {C08,C09}", repr(pr))
        E.ob(simp(get('ver')) == v, "the connection reports the server's version {C08}", repr(get('ver')))
        vb = get('verb')
        E.ob(ex.slice_rope(st, vb).conc() == bytes([0, 0, 0, v]), "the connection reports the server's version bytes {C08}", repr(vb))
        rw = get('rw')
        ok = rw.ref is not None and ex.load(st, rw).f[0].ref == c.ref
        E.ob(ok, 'reads and writes belong to this connection {C23}', repr(rw))
        k = get('conn')
        ok = k.dyn is not None and (k.dyn[0] == 'netconn' if not self.tls else (not isinstance(k.dyn[0], str) and P.str(k.dyn[0]) == '*crypto/tls.Conn'))
        E.ob(ok, 'the socket dialled is the one used {C08,C24}', repr(k))
        E.ob(simp(get('mode')) == 1 if isinstance(simp(get('mode')), int) else False, 'the access mode is write unless set otherwise {C09}', repr(get('mode')))
        for r in ('timeout', 'chunk'):
            E.ob(ex.value_eq(st, None, get(r), g['k.want'][r]), 'the connection keeps the configured %s {C15,C23}' % r, repr(get(r)))

    def init(self, E, m):
        ex, st, g = E.ex, E.st, E.st.ghost
        v = g.get('k.srvver')
        f = m[2]
        E.ob(v is not None, 'nothing is requested of a server that chose no version offered {C08}', repr(m)[:200])
        if v is None:
            return
        ok = m[1] == 0x01 and m[3] == codec_of(v)
        E.ob(ok, 'the initialisation request of the version {C08,C09}', repr(m)[:200])
        user, pw = g['k.user'], g['k.password']
        basic = [('scheme', S(ex, StrV(b'basic')), True), ('principal', S(ex, user), True), ('credentials', S(ex, pw), True)]
        ua = Pred(lambda ex, st, x: x.dyn is not None and isinstance(x.dyn[1], StrV) and len(x.dyn[1].rope.conc() or b'') > 0)
        if v <= 2:
            ok = len(f) == 2 and ua.f(ex, st, f[0]) and ex.value_eq(st, None, f[1], MapIs(basic))
        else:
            ok = len(f) == 1 and ex.value_eq(st, None, f[0], MapIs(basic + [('user_agent', ua, True)]))
        E.ob(ok, 'it names the client and carries the configured credentials {C15,C09,C08}', repr(f)[:400])


def prep(ex):
    conn.prep(ex)


def run_rw(ex):
    for op in ('Write', 'Read'):
        ex.ctx.clear()
        ex.on_access = None
        ex.check(ReadWrite(op), '(*%s).%s' % (TRW, op))


def run_config(ex):
    ex.check(Config(), CREATE)


def run_talk(tls):
    def f(ex):
        conn.prep(ex)
        ex.check(Talk(tls), CREATE)
    return f


RW = ['(*%s).%s' % (TRW, op) for op in ('Write', 'Read')]
