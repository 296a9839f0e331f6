"""One connection: what it sends, what it makes of the answers, what it leaves behind.

The codec is used through its contract (Encode: the whole message is handed to the writer, or nothing of it
and an error, or the writer failed and an error; Decode: the next message of the server, or an error).
The server is a conforming or a misbehaving Bolt server, kept as ghost state:
  k.sent   requests sent by this call: (kind, signature, fields, codec)
  k.pend   kinds of the requests not answered yet
  k.fail   the server is in its failed state (it ignores everything but RESET)
  k.srvtx  the server has a transaction open for this connection
  k.open   the socket is open
  k.ev     what went wrong: set of 'net' 'alien' 'failure' 'refused' 'resetfail'
"""
import z3
from core import *
from values import *
from exec import NATIVE_IS, model, invoke, MODELS, INVOKES, GLOBALS
from prove import Contract, Pred, ANY, err_is_nil, short
from models import lib_error, global_error, fork2, fresh_str, getbuf
import codec_enc, codec_dec

BOLT = 'github.com/mindstand/go-bolt/'
TC = BOLT + 'connection.Connection'
TT = BOLT + 'connection.boltTransaction'
TR = BOLT + 'connection.boltResult'
TRW = BOLT + 'connection.readWrite'
TE = BOLT + 'errors.Error'
MSG = BOLT + 'structures/messages.'
NETCONN = IfaceV(dyn=('netconn', NatV('netconn')))
ACCESS_READ = 0


def codec_of(v):
    return 1 if v == 1 else 2


# ---------------------------------------------------------------- fields by role
def fidx(P, tname, name, pred=None):
    fs = P.fields(P.T(tname))
    for i, f in enumerate(fs):
        if f['name'] == name:
            return i
    if pred:
        c = [i for i, f in enumerate(fs) if pred(P, f)]
        if len(c) == 1:
            return c[0]
    return None


ROLES = {
    'proto': ('boltProtocol', lambda P, f: P.str(f['type']) == BOLT + 'protocol.IBoltProtocol'),
    'ver': ('protocolVersion', lambda P, f: P.str(f['type']) == 'int'),
    'verb': ('protocolVersionBytes', lambda P, f: P.str(f['type']) == '[]byte' or P.str(f['type']) == '[]uint8'),
    'user': ('user', None), 'password': ('password', None), 'hostPort': ('hostPort', None),
    'useTLS': ('useTLS', None), 'certFile': ('certFile', None), 'caCertFile': ('caCertFile', None),
    'keyFile': ('keyFile', None), 'tlsNoVerify': ('tlsNoVerify', None),
    'mode': ('accessMode', lambda P, f: P.str(f['type']) == BOLT + 'bolt_mode.AccessMode'),
    'rw': ('readWrite', lambda P, f: P.str(f['type']) == '*' + TRW),
    'tx': ('transaction', lambda P, f: P.str(f['type']) == '*' + TT),
    'timeout': ('timeout', lambda P, f: P.str(f['type']) == 'time.Duration'),
    'chunk': ('chunkSize', lambda P, f: P.str(f['type']) == 'uint16'),
    'conn': ('conn', lambda P, f: P.str(f['type']) == 'net.Conn'),
    'closed': ('closed', None),
    'openQuery': ('openQuery', None),
    'mutex': ('mutex', lambda P, f: P.str(f['type']) in ('sync.Mutex', 'sync.RWMutex')),
    'id': ('id', None),
}
TROLES = {'conn': ('conn', lambda P, f: P.str(f['type']) == '*' + TC),
          'db': ('db', lambda P, f: P.basic(f['type']) == 'string'),
          'closed': ('closed', lambda P, f: P.basic(f['type']) == 'bool')}


def cf(P, role):
    n, p = ROLES[role]
    return fidx(P, TC, n, p)


def tf(P, role):
    n, p = TROLES[role]
    return fidx(P, TT, n, p)


def cget(ex, st, c, role):
    i = cf(ex.P, role)
    return ex.load(st, PtrV(c.ref, (i,)))


def cset(ex, st, c, role, v):
    i = cf(ex.P, role)
    ex.store(st, PtrV(c.ref, (i,)), v)


def tget(ex, st, t, role):
    return ex.load(st, PtrV(t.ref, (tf(ex.P, role),)))


# ---------------------------------------------------------------- setting up a connection
def new_conn(ex, st, v):
    """an open connection of protocol version v without a transaction, nothing outstanding"""
    P = ex.P
    t = P.T(TC)
    roles = {cf(P, r): r for r in ROLES if cf(P, r) is not None}
    c = PtrV(st.alloc(Cell(None, t)))
    rw = PtrV(st.alloc(Cell(StructV(P.T(TRW), [c]), P.T(TRW))))
    fs = []
    for i, f in enumerate(P.fields(t)):
        r = roles.get(i)
        if r == 'proto':
            pt = P.T('*%sprotocol/protocol_v%d.BoltProtocolV%d' % (BOLT, v, v))
            pc = PtrV(st.alloc(Cell(ex.zero(st, P.elem(pt)), P.elem(pt))))
            x = IfaceV(dyn=(pt, pc))
        elif r == 'ver':
            x = v
        elif r == 'rw':
            x = rw
        elif r == 'tx':
            x = PtrV(None)
        elif r == 'conn':
            x = NETCONN
        elif r in ('closed', 'openQuery'):
            x = False
        elif r == 'mutex':
            x = ex.zero(st, f['type'])
        elif r == 'mode':
            x = fresh('mode', Int)
            st.assume(z3.Or(x == 0, x == 1))
        elif r == 'timeout':
            x = fresh('timeout', Int)
            st.assume(x >= 0, x < (1 << 62))
        else:
            x = ex.sym(st, f['type'], lambda p, s: fresh('c.' + f['name'] + p, s))
        fs.append(x)
    st.heap[c.ref] = Cell(StructV(t, fs), t)
    g = st.ghost
    g['k.sent'] = ()
    g['k.pend'] = ()
    g['k.fail'] = False
    g['k.srvtx'] = False
    g['k.open'] = True
    g['k.partial'] = False
    g['k.desync'] = False
    g['k.ev'] = frozenset()
    g['k.tried'] = 0
    g['k.nrec'] = 0
    g['k.meta'] = None
    g['k.failure'] = None
    g['k.private'] = False
    g['k.unlocked'] = 0
    g['k.mode'] = 'direct'
    for e in ('io.EOF', 'database/sql/driver.ErrBadConn'):
        e = global_error(ex, st, e)
        st.assume(tag(e.term) > 0)
        st.assume(Not(tag(e.term) == 0))
    ex.ctx['v'] = v
    ex.ctx['conn'] = c
    ex.ctx['recs'] = z3.Const('server.records', AnyArr)
    ex.on_access = guarded
    ex.ctx['on_lock'] = on_lock
    ex.ctx['on_unlock'] = on_unlock
    ex.ctx['forget'] = {'nows', 'k.rdl', 'k.wdl', 'k.dlerr', 'k.dlset', 'k.nclose', 'k.closeerr', 'spawned', 'printed'}
    return c


def new_tx(ex, st, c, closed, name='T'):
    P = ex.P
    t = P.T(TT)
    fs = []
    for i, f in enumerate(P.fields(t)):
        if i == tf(P, 'conn'):
            fs.append(c)
        elif i == tf(P, 'closed'):
            fs.append(closed)
        else:
            fs.append(ex.sym(st, f['type'], lambda p, s: fresh(name + '.' + f['name'] + p, s)))
    return PtrV(st.alloc(Cell(StructV(t, fs), t)))


def set_shape(ex, st, c, shape, tx=None):
    """(closed?, transaction of the connection)"""
    if shape == 'closed':
        cset(ex, st, c, 'closed', True)
        st.ghost['k.open'] = False
        cset(ex, st, c, 'tx', PtrV(None))
        st.ghost['k.srvtx'] = False
    elif shape == 'tx':
        cset(ex, st, c, 'closed', False)
        st.ghost['k.open'] = True
        cset(ex, st, c, 'tx', tx)
        st.ghost['k.srvtx'] = True
    else:
        cset(ex, st, c, 'closed', False)
        st.ghost['k.open'] = True
        cset(ex, st, c, 'tx', PtrV(None))
        st.ghost['k.srvtx'] = False
    st.ghost['k.shape'] = shape


# ---------------------------------------------------------------- the lock
def guarded(ex, st, p, kind):
    """state shared between goroutines is only touched with the lock held {C22}"""
    c = ex.ctx.get('conn')
    if c is None or st.ghost.get('k.private') or ex.ctx.get('unguarded'):
        return
    P = ex.P
    what = None
    if p.ref == c.ref and p.path:
        for r in ('closed', 'tx', 'openQuery'):
            if cf(P, r) is not None and p.path[0] == cf(P, r):
                what = 'connection ' + ROLES[r][0]
    elif p.path and isinstance(st.heap.get(p.ref), Cell) and st.heap[p.ref].t is not None and \
            P.str(st.heap[p.ref].t) == TT and p.path[0] == tf(P, 'closed') and p.ref in ex.ctx.get('shared', ()):
        what = 'transaction closed'
    if what and not held(ex, st):
        ex.ob('%s: %s of %s with the connection locked {C22}' % (short(ex.top), kind, what), False,
              'at %s:%s the lock is not held' % ex.short(), st)


def held(ex, st):
    c = ex.ctx['conn']
    o = st.heap[c.ref].v
    return o.f[cf(ex.P, 'mutex')].d['w'] == 1


def locked(ex, st, what):
    if st.ghost.get('k.private'):
        return
    ok = held(ex, st)
    ex.ob('%s: %s with the connection locked {C22}' % (short(ex.top), what), ok, '' if ok else 'at %s:%s the lock is not held' % ex.short(), st)


@model('(*sync.Mutex).Lock', '(*sync.RWMutex).Lock')
def _(ex, st, a, ins):
    m = ex.load(st, a[0])
    if m.d['w'] or m.d['r']:
        ex.ob('%s: no call waits for a lock it holds {C22,C17}' % short(ex.top), False, 'at %s:%s' % ex.short(), st)
        return []
    ex.store(st, a[0], m.with_(w=1))
    h = ex.ctx.get('on_lock')
    if h:
        return [(s, 'ret', None) for s in h(ex, st, a[0])]
    return None


@model('(*sync.Mutex).Unlock', '(*sync.RWMutex).Unlock')
def _(ex, st, a, ins):
    m = ex.load(st, a[0])
    if not m.d['w']:
        return [(st, 'panic', 'unlock of unlocked mutex')]
    h = ex.ctx.get('on_unlock')
    if h:
        h(ex, st, a[0])
    ex.store(st, a[0], m.with_(w=0))
    return None


@model('(*sync.RWMutex).RLock')
def _(ex, st, a, ins):
    m = ex.load(st, a[0])
    if m.d['w'] or m.d['r']:
        ex.ob('%s: no call waits for a lock it holds {C22,C17}' % short(ex.top), False, 'at %s:%s' % ex.short(), st)
        return []
    ex.store(st, a[0], m.with_(r=1))
    h = ex.ctx.get('on_lock')
    if h:
        return [(s, 'ret', None) for s in h(ex, st, a[0])]
    return None


@model('(*sync.RWMutex).RUnlock')
def _(ex, st, a, ins):
    m = ex.load(st, a[0])
    if not m.d['r']:
        return [(st, 'panic', 'unlock of unlocked mutex')]
    h = ex.ctx.get('on_unlock')
    if h:
        h(ex, st, a[0])
    ex.store(st, a[0], m.with_(r=0))
    return None


def is_conn_lock(ex, p):
    c = ex.ctx.get('conn')
    return c is not None and p.ref == c.ref and p.path == (cf(ex.P, 'mutex'),)


def on_lock(ex, st, p):
    if not is_conn_lock(ex, p) or st.ghost['k.private'] or not st.ghost['k.unlocked']:
        return [st]
    # somebody else may have used the connection since: anything the invariant allows
    outs = []
    c = ex.ctx['conn']
    t = ex.ctx.get('T')
    shapes = ['open', 'closed']
    topen = t is not None and valid(st, Not(B(tget(ex, st, t, 'closed'))))
    tries = [('open', False), ('closed', False), ('other', False)] + ([('tx', True)] if topen else [])
    for sh, keep in tries:
        s = st.fork()
        if t is not None and not keep:
            ex.store(s, PtrV(t.ref, (tf(ex.P, 'closed'),)), True)
        if sh == 'tx':
            set_shape(ex, s, c, 'tx', t)
        elif sh == 'other':
            o = new_tx(ex, s, c, False, 'other')
            set_shape(ex, s, c, 'tx', o)
        else:
            set_shape(ex, s, c, sh)
        outs.append(s)
    return outs


def on_unlock(ex, st, p):
    if not is_conn_lock(ex, p) or st.ghost['k.private']:
        return
    invariant(ex, st, 'when the lock is released')
    st.ghost['k.unlocked'] = st.ghost['k.unlocked'] + 1


def invariant(ex, st, when):
    """what every call leaves behind"""
    P = ex.P
    c = ex.ctx['conn']
    g = st.ghost
    top = short(ex.top)
    if not feasible(st):
        return
    ex.silent_access = True
    saved = ex.on_access
    ex.on_access = None
    try:
        closed = simp(cget(ex, st, c, 'closed'))
        tx = cget(ex, st, c, 'tx')
        t = ex.ctx.get('T')

        def ob(ok, what, tags, why=''):
            ex.ob('%s: %s, %s {%s}' % (top, when, what, tags), ok, '' if ok else why or 'not so', st)
        if not isinstance(closed, bool):
            ob(False, 'the closed mark is known', 'C13', str(closed))
            return
        ob(closed == (not g['k.open']), 'a connection is marked closed exactly when its socket is closed', 'C13,C11,C10,C12',
           'marked closed: %s, socket open: %s' % (closed, g['k.open']))
        if closed:
            ob(tx.ref is None, 'a closed connection has no transaction', 'C12,C13')
        else:
            ob(not g['k.pend'] and not g['k.fail'] and not g['k.partial'] and not g['k.desync'],
               'the conversation is in step or the connection closed', 'C11,C10,C12,C22',
               'outstanding: %s, server failed: %s, half a message on the wire: %s, events: %s' % (g['k.pend'], g['k.fail'], g['k.partial'], sorted(g['k.ev'])))
            ob((tx.ref is not None) == g['k.srvtx'], 'client and server agree on whether a transaction is open', 'C12,C11',
               'client: %s, server: %s' % (tx.ref is not None, g['k.srvtx']))
            if cf(P, 'openQuery') is not None:
                ob(valid(st, Not(B(cget(ex, st, c, 'openQuery')))), 'no query is left marked open', 'C10,C22')
            if tx.ref is not None:
                ob(valid(st, Not(B(tget(ex, st, tx, 'closed')))), 'the open transaction is not marked closed', 'C12')
                tc = tget(ex, st, tx, 'conn')
                ob(tc.ref == c.ref, 'the open transaction belongs to the connection', 'C12')
        if t is not None:
            tcl = simp(tget(ex, st, t, 'closed'))
            ob(tcl is (not (not closed and tx.ref == t.ref)), 'a transaction is closed exactly when it is not the open one of its connection', 'C12,C13',
               'marked closed: %s' % (tcl,))
    finally:
        ex.on_access = saved


# ---------------------------------------------------------------- messages
def msg_parts(ex, st, m):
    """[(state, signature, fields)] of a request"""
    outs = []
    it = ex.P.T(BOLT + 'structures.Structure')
    for s, k, sig in ex.doinvoke(ex.fr, st, 'Signature', m, it, [], None):
        if k != 'ret':
            raise Unsupported('Signature panics')
        for s2, k2, fl in ex.doinvoke(ex.fr, s, 'AllFields', m, it, [], None):
            if k2 != 'ret':
                raise Unsupported('AllFields panics')
            fs = ex.elems(s2, fl, ex.P.T('interface{}'))
            if fs is None:
                raise Unsupported('request with an unknown number of fields')
            outs.append((s2, simp(sig), fs))
    return outs


def kind_of_msg(ex, st, v, sig, fields):
    if sig == 0x10:
        q = fields[0].dyn[1].rope.conc() if fields and fields[0].dyn is not None and isinstance(fields[0].dyn[1], StrV) else None
        if v <= 2 and q in (b'BEGIN', b'COMMIT', b'ROLLBACK'):
            return q.decode()
        return 'RUN'
    t = {0x01: 'INIT', 0x3F: 'PULL', 0x2F: 'DISCARD', 0x0F: 'RESET'}
    if v >= 3:
        t.update({0x02: 'GOODBYE', 0x11: 'BEGIN', 0x12: 'COMMIT', 0x13: 'ROLLBACK'})
    return t.get(sig, 'UNKNOWN')


def may_refuse(ex, st, fields):
    """may a field fail to encode: only values the caller supplied"""
    def known(v, d=0):
        if not isinstance(v, IfaceV):
            return False
        if v.isnil:
            return True
        if v.dyn is None:
            return False
        x = v.dyn[1]
        if isinstance(x, (int, bool, StrV)) or is_z(x):
            return True
        if isinstance(x, MapV):
            if x.ref is None:
                return True
            o = st.heap[x.ref]
            return o.term is None and all(known(e, d + 1) for _, e in o.ents)
        return False
    return not all(known(f) for f in fields)


class ConnEncode(Contract):
    """the codec's Encode, as a caller sees it (proved of its body under C01 and C02)"""
    external = False

    def __init__(self, codec, sp):
        self.codec, self.sp = codec, sp

    def call(self, ex, st, args, name):
        enc, m = args
        g = st.ghost
        c = ex.ctx['conn']
        P = ex.P
        top = short(ex.top)
        locked(ex, st, 'requests are sent')
        # the writer
        w = cs = None
        for f, x in zip(P.fields(enc.t), enc.f):
            if P.str(f['type']) == 'io.Writer':
                w = x
            elif P.intinfo(f['type']):
                cs = x
        rw = cget(ex, st, c, 'rw')
        ok = w is not None and w.dyn is not None and not isinstance(w.dyn[0], str) and P.str(w.dyn[0]) == '*' + TRW and w.dyn[1].ref == rw.ref
        ex.ob('%s: requests go through the writer that keeps the deadlines {C23}' % top, ok, repr(w), st)
        want = cget(ex, st, c, 'chunk')
        ex.prove(st, I(cs) == z3.If(I(want) == 0, 65535, I(want)), '%s: the configured chunk size is used {C15,C02}' % top)
        g['k.tried'] += 1
        if m.isnil:
            return [(st, 'ret', lib_error(ex, st, 'encerr'))]
        outs = []
        for s, sig, fields in msg_parts(ex, st, m):
            v = s.ghost.get('k.srvver', ex.ctx['v'])
            kind = kind_of_msg(ex, s, v, sig, fields)
            if may_refuse(ex, s, fields):
                r = s.fork()
                r.ghost['k.ev'] |= {'refused'}
                r.note('request refused by the encoder')
                outs.append((r, 'ret', lib_error(ex, r, 'encerr')))
            if s.ghost['k.open']:
                w1 = s.fork()
                w1.ghost['k.sent'] += ((kind, sig, tuple(fields), self.codec),)
                if kind != 'GOODBYE':
                    w1.ghost['k.pend'] += (kind,)
                w1.note('sent ' + kind)
                outs.append((w1, 'ret', NILI))
            # the write fails on the way
            n = s.fork()
            n.ghost['k.ev'] |= {'net'}
            n.note('write of %s fails' % kind)
            n.ghost['k.partial'] = True
            n.ghost['k.mode'] = 'fail'
            b = fresh('bytes', Bytes)
            n.assume(blen(b) >= 1, blen(b) < (1 << 40))
            sl = SliceV(n.alloc(ArrRope(rope_of(b), True)), 0, blen(b), blen(b))
            for s2, k2, r2 in ex.doinvoke(ex.fr, n, 'Write', w, P.T('io.Writer'), [sl], None):
                if k2 != 'ret':
                    outs.append((s2, k2, r2))
                    continue
                s2.ghost['k.mode'] = 'direct'
                e = r2.f[1]
                nil = simp(B(err_is_nil(ex, s2, e)))
                ex.ob('%s: a failed write is reported by the writer {C23,C10}' % top, nil is False or valid(s2, Not(nil)), repr(e), s2)
                outs.append((s2, 'ret', e))
        return outs


SERVER = ('SuccessMessage', 'RecordMessage', 'IgnoredMessage', 'FailureMessage')


def answer(ex, st, kind, **kw):
    """IfaceV of a server message"""
    P = ex.P
    t = P.T(MSG + kind)
    fs = []
    for f in P.fields(t):
        if kind == 'RecordMessage':
            fs.append(kw['fields'])
        else:
            m = ex.sym(st, f['type'], lambda p, s: fresh(kind + p, s))
            kw.setdefault('out', []).append(m)
            fs.append(m)
    return IfaceV(dyn=(t, StructV(t, fs))), (fs[0] if fs else None)


class ConnDecode(Contract):
    """the codec's Decode, as a caller sees it (proved of its body under C03 and C04)"""

    def __init__(self, codec, sp):
        self.codec, self.sp = codec, sp

    def call(self, ex, st, args, name):
        dec = args[0]
        g = st.ghost
        c = ex.ctx['conn']
        P = ex.P
        top = short(ex.top)
        locked(ex, st, 'responses are read')
        rd = None
        for f, x in zip(P.fields(dec.t), dec.f):
            if P.str(f['type']) == 'io.Reader':
                rd = x
        rw = cget(ex, st, c, 'rw')
        ok = rd is not None and rd.dyn is not None and not isinstance(rd.dyn[0], str) and P.str(rd.dyn[0]) == '*' + TRW and rd.dyn[1].ref == rw.ref
        ex.ob('%s: responses come through the reader that keeps the deadlines {C23}' % top, ok, repr(rd), st)
        ok = self.codec == codec_of(st.ghost.get('k.srvver', ex.ctx['v']))
        ex.ob('%s: responses are read with the codec of the version {C09}' % top, ok, 'codec %d' % self.codec, st)
        outs = []
        # the read fails (always, when the socket is closed; after the timeout, when no answer is due)
        n = st.fork()
        n.ghost['k.ev'] |= {'net'}
        n.note('read fails')
        n.ghost['k.mode'] = 'fail'
        sl = SliceV(n.alloc(ArrList(P.T('uint8'), [0, 0])), 0, 2, 2)
        for s2, k2, r2 in ex.doinvoke(ex.fr, n, 'Read', rd, P.T('io.Reader'), [sl], None):
            if k2 != 'ret':
                outs.append((s2, k2, r2))
                continue
            s2.ghost['k.mode'] = 'direct'
            s2.ghost['k.partial'] = True
            e = r2.f[1]
            nil = simp(B(err_is_nil(ex, s2, e)))
            ex.ob('%s: a failed read is reported by the reader {C23,C10}' % top, nil is False or valid(s2, Not(nil)), repr(e), s2)
            outs.append((s2, 'ret', TupleV([NILI, lib_error(ex, s2, 'decerr')])))
        if not g['k.open']:
            return outs
        if not g['k.pend']:
            if 'alien' not in g['k.ev']:
              ex.ob('%s: a response is read only when one is due {C10,C11,C12}' % top, False, 'at %s:%s' % ex.short(), st)
            return outs
        # bytes that denote nothing
        n = st.fork()
        n.ghost['k.ev'] |= {'net'}
        n.ghost['k.partial'] = True
        n.note('undecodable response')
        outs.append((n, 'ret', TupleV([NILI, lib_error(ex, n, 'decerr')])))
        for kind in SERVER + ('other',):
            s = st.fork()
            h = s.ghost
            first, rest = h['k.pend'][0], h['k.pend'][1:]
            s.note('%s for %s' % (kind, first))
            alien = lambda: h.update({'k.ev': h['k.ev'] | {'alien'}, 'k.desync': True})
            if kind == 'SuccessMessage':
                if h['k.fail'] and first != 'RESET':
                    continue
                a, meta = answer(ex, s, kind)
                h['k.pend'] = rest
                if first == 'RESET':
                    h['k.fail'] = False
                    h['k.srvtx'] = False
                    if not rest:
                        h['k.desync'] = False
                elif first == 'BEGIN':
                    h['k.srvtx'] = True
                elif first in ('COMMIT', 'ROLLBACK'):
                    h['k.srvtx'] = False
                elif first == 'PULL':
                    h['k.meta'] = meta
            elif kind == 'FailureMessage':
                if h['k.fail'] and first != 'RESET':
                    continue
                a, meta = answer(ex, s, kind)
                h['k.pend'] = rest
                if first == 'RESET':
                    h['k.ev'] |= {'resetfail'}
                else:
                    h['k.fail'] = True
                    h['k.ev'] |= {'failure'}
                    h['k.failure'] = a
            elif kind == 'IgnoredMessage':
                a, _ = answer(ex, s, kind)
                h['k.pend'] = rest
                if not h['k.fail'] or first == 'RESET':
                    alien()
            elif kind == 'RecordMessage':
                et = P.fields(P.T(MSG + kind))[0]['type']
                due = first == 'PULL' and not h['k.fail'] and ex.ctx.get('rows', True) and h['k.sent'] and any(q[0] == 'RUN' for q in h['k.sent'])
                if due:
                    n_ = h['k.nrec']
                    x = simp(z3.Select(ex.ctx['recs'], I(n_)))
                    h['k.nrec'] = add(n_, 1)
                else:
                    x = fresh('record', Any)
                    alien()
                s.assume(tag(x) == P.tagid(et))
                fl = ex.unbox(s, et, x)
                a, _ = answer(ex, s, kind, fields=fl)
            else:
                x = fresh('value', Any)
                s.assume(tag(x) >= 0)
                for m in SERVER:
                    s.assume(tag(x) != P.tagid(P.T(MSG + m)))
                a = IfaceV(term=x)
                alien()
            outs.append((s, 'ret', TupleV([a, NILI])))
        return outs


# ---------------------------------------------------------------- the socket
@invoke(('netconn', 'Close'))
def nc_close(ex, st, r, a, ins):
    # nothing of the conversation matters any more
    st.ghost.update({'k.open': False, 'k.pend': (), 'k.fail': False, 'k.partial': False, 'k.desync': False, 'k.srvtx': False, 'k.meta': None})
    st.ghost['k.nclose'] = st.ghost.get('k.nclose', 0) + 1
    s2 = st.fork()
    s2.ghost['k.closeerr'] = True
    return [(st, 'ret', NILI), (s2, 'ret', lib_error(ex, s2, 'closeerr'))]


def _deadline(which):
    def f(ex, st, r, a, ins):
        locked(ex, st, 'deadlines are set')
        st.ghost['k.' + which] = a[0]
        outs = []
        s2 = st.fork()
        s2.note('setting the deadline fails')
        s2.ghost['k.ev'] = s2.ghost.get('k.ev', frozenset()) | {'net'}
        e = lib_error(ex, s2, 'dlerr')
        return [(st, 'ret', NILI), (s2, 'ret', e)]
    return f


INVOKES[('netconn', 'SetReadDeadline')] = _deadline('rdl')
INVOKES[('netconn', 'SetWriteDeadline')] = _deadline('wdl')


@invoke(('netconn', 'SetDeadline'))
def _(ex, st, r, a, ins):
    outs = _deadline('rdl')(ex, st, r, a, ins)
    outs[0][0].ghost['k.wdl'] = a[0]
    return outs


@invoke(('netconn', 'Write'))
def nc_write(ex, st, r, a, ins):
    locked(ex, st, 'the socket is written')
    h = ex.ctx.get('netwrite')
    if h:
        return h(ex, st, a[0])
    n = fresh('written', Int)
    st.assume(n >= 0, n <= I(a[0].len))
    if st.ghost['k.mode'] != 'fail':
        raise Unsupported('write to the socket outside the codec')
    return TupleV([n, lib_error(ex, st, 'neterr')])


@invoke(('netconn', 'Read'))
def nc_read(ex, st, r, a, ins):
    locked(ex, st, 'the socket is read')
    h = ex.ctx.get('netread')
    if h:
        return h(ex, st, a[0])
    if st.ghost['k.mode'] != 'fail':
        raise Unsupported('read from the socket outside the codec')
    n = fresh('read', Int)
    st.assume(n >= 0, n <= I(a[0].len))
    s2 = st.fork()
    return [(st, 'ret', TupleV([n, lib_error(ex, st, 'neterr')])), (s2, 'ret', TupleV([n, global_error(ex, s2, 'io.EOF')]))]


@invoke(('error', 'Error'))
def _(ex, st, r, a, ins):
    return fresh_str(st, 'errtext')


MODELS['(*%s).Error' % TE] = lambda ex, st, a, ins: fresh_str(st, 'errtext')
MODELS[BOLT + 'log.GetLevel'] = lambda ex, st, a, ins: fresh('loglevel', Int)


# ---------------------------------------------------------------- expected requests
def S(ex, x):
    """interface{} holding a string"""
    return IfaceV(dyn=(ex.P.T('string'), x if isinstance(x, StrV) else StrV(x)))


def MAPT(ex):
    return ex.P.T('map[string]interface{}')


def cmap(ex, st, ents):
    m = MapV(st.alloc(MapObj(MAPT(ex), [(StrV(k), v) for k, v in ents])))
    return IfaceV(dyn=(MAPT(ex), m))


def is_empty_map(ex, st, v):
    if v.dyn is None or not isinstance(v.dyn[1], MapV):
        return False
    m = v.dyn[1]
    return m.ref is None or (st.heap[m.ref].term is None and not st.heap[m.ref].ents)


EMPTYMAP = Pred(lambda ex, st, v: isinstance(v, IfaceV) and is_empty_map(ex, st, v))


class MapIs(Pred):
    """a string map with exactly these entries; an entry is (key, value, condition)"""

    def __init__(self, ents):
        self.ents = ents
        Pred.__init__(self, self.check)

    def check(self, ex, st, v):
        if not isinstance(v, IfaceV) or v.dyn is None or not isinstance(v.dyn[1], MapV):
            return False
        m = v.dyn[1]
        have = {}
        if m.ref is not None:
            o = st.heap[m.ref]
            if o.term is not None:
                return False
            for k, x in o.ents:
                c = k.rope.conc()
                if c is None:
                    return False
                have[c.decode()] = x
        for k, val, cond in self.ents:
            if k in have:
                if not valid(st, cond) or not ex.value_eq(st, None, have.pop(k), val):
                    return False
            elif not valid(st, Not(cond)):
                return False
        return not have


def str_nonempty(s):
    return simp(I(s.rope.len()) > 0)


def meta_expected(ex, st, v, db, mode):
    """transaction metadata of version v: read mode and database exactly when they apply"""
    ents = [('mode', S(ex, 'r'), eq(mode, ACCESS_READ))]
    if v >= 4 and db is not None:
        ents.append(('db', S(ex, db), str_nonempty(db)))
    return MapIs(ents)


def run_expected(ex, st, v, query, params, db, mode, auto):
    """fields of RUN"""
    f = [S(ex, query), IfaceV(dyn=(MAPT(ex), params))]
    if v >= 3:
        f.append(meta_expected(ex, st, v, db, mode) if auto else EMPTYMAP)
    return ('RUN', 0x10, f)


def pull_expected(ex, st, v):
    if v >= 4:
        return ('PULL', 0x3F, [MapIs([('n', IfaceV(dyn=(ex.P.T('int64'), -1)), True)])])
    return ('PULL', 0x3F, [])


def ctl_expected(ex, st, v, kind, db=None, mode=None):
    if v <= 2:
        return [(kind, 0x10, [S(ex, kind), EMPTYMAP]), pull_expected(ex, st, v)]
    if kind == 'BEGIN':
        return [(kind, 0x11, [meta_expected(ex, st, v, db, mode)])]
    return [(kind, {'COMMIT': 0x12, 'ROLLBACK': 0x13}[kind], [])]


def same_msgs(ex, st, sent, want, prefix=False):
    """sent requests are the wanted ones (or a prefix of them); returns a reason or None"""
    if len(sent) > len(want) or (not prefix and len(sent) < len(want)):
        return 'sent %s, expected %s' % ([m[0] for m in sent], [m[0] for m in want])
    for m, w in zip(sent, want):
        if m[0] != w[0] or m[1] != w[1]:
            return 'sent %s (%#x), expected %s (%#x)' % (m[0], m[1], w[0], w[1])
        if m[3] != codec_of(ex.ctx['v']):
            return 'sent %s with the wrong codec' % m[0]
        if len(m[2]) != len(w[2]):
            return '%s has %d fields, expected %d' % (m[0], len(m[2]), len(w[2]))
        for i, (a, b) in enumerate(zip(m[2], w[2])):
            if not ex.value_eq(st, None, a, b):
                return 'field %d of %s is %.200r, expected %.200r' % (i, m[0], a, b)
    return None


RESET = ('RESET', 0x0F, [])


def reaches(ex, st, e, target, depth=0):
    """is target in the chain of wrapped errors"""
    if e.isnil or depth > 6:
        return False
    if e.term is not None:
        return False
    if e.dyn[0] == 'errorf':
        return reaches(ex, st, e.dyn[1].d['inner'], target, depth + 1)
    if target.dyn is not None and not isinstance(e.dyn[0], str) and ex.P.str(e.dyn[0]) == ex.P.str(target.dyn[0]):
        return ex.value_eq(st, None, e.dyn[1], target.dyn[1])
    x = e.dyn[1]
    if isinstance(x, PtrV) and x.ref is not None:
        x = ex.load(st, x)
    if isinstance(x, StructV):
        for f, y in zip(ex.P.fields(x.t), x.f):
            if ex.P.str(f['type']) == 'error' and isinstance(y, IfaceV) and reaches(ex, st, y, target, depth + 1):
                return True
    return False


# ---------------------------------------------------------------- contracts of the methods
class Method(Contract):
    """common part of every method of a connection or transaction"""

    def __init__(self, v):
        self.v = v

    def must_reach(self, ex, args):
        return []

    def outcomes(self, ex, st, args, ret):
        return [(st.ghost['k.shape'], True)]

    def conn_shapes(self, ex, name):
        """a call on the connection: closed, open, open with a transaction"""
        for sh in ('open', 'closed', 'tx'):
            st = State()
            c = new_conn(ex, st, self.v)
            t = None
            if sh == 'tx':
                t = new_tx(ex, st, c, False)
            set_shape(ex, st, c, sh, t)
            yield st, c, t

    def tx_shapes(self, ex, name):
        """a call on a transaction: open; ended, the connection being open, used by another one or closed"""
        for sh in ('mine', 'ended', 'other', 'closed'):
            st = State()
            c = new_conn(ex, st, self.v)
            t = new_tx(ex, st, c, sh != 'mine')
            if sh == 'mine':
                set_shape(ex, st, c, 'tx', t)
            elif sh == 'other':
                set_shape(ex, st, c, 'tx', new_tx(ex, st, c, False, 'O'))
            elif sh == 'ended':
                set_shape(ex, st, c, 'open')
            else:
                set_shape(ex, st, c, 'closed')
            st.ghost['k.shape'] = sh
            yield st, c, t

    def begin(self, ex, st, args, name):
        ex.ctx['T'] = st.ghost.get('k.T')
        ex.ctx['shared'] = {ex.ctx['T'].ref} if ex.ctx['T'] is not None else set()
        return None

    def err(self, ex, ret):
        return ret

    def post(self, E):
        ex, st = E.ex, E.st
        saved, ex.on_access = ex.on_access, None
        try:
            self.allowed(E)
            self.common(E)
            self.spec(E)
        finally:
            ex.on_access = saved

    def allowed(self, E):
        """what a method may change of the connection and its transactions"""
        ex, st, P = E.ex, E.st, E.ex.P
        c, t = ex.ctx['conn'], ex.ctx['T']
        E.gdecl |= {k for k in st.ghost if isinstance(k, str)}
        for r in ('closed', 'tx', 'openQuery', 'mutex'):
            if cf(P, r) is not None:
                E.decl.add((c.ref, (cf(P, r),)))
        for x in (t, cget(ex, E.old, c, 'tx')):
            if x is not None and x.ref is not None:
                E.decl.add((x.ref, (tf(P, 'closed'),)))

    def common(self, E):
        ex, st = E.ex, E.st
        g = st.ghost
        h = held(ex, st)
        ex.ob(E.nm('returns without holding the lock {C22}'), not h, 'the lock is held', st)
        invariant(ex, st, 'at return')
        e = self.err(ex, E.retv)
        if e is None:
            return
        isnil = simp(B(err_is_nil(ex, st, e)))
        self.isnil = isnil
        ev = g['k.ev']
        if ev - {'resetfail'}:
            bad = isnil is False or valid(st, Not(isnil))
            ex.ob(E.nm('%s is returned as an error {C10,C12,C11,C08}' % ' and '.join(sorted(ev))), bad, 'the error is nil', st)
        if g['k.failure'] is not None and g['k.open'] is not None:
            ex.ob(E.nm("the server's failure is reachable from the error {C11,C21}"), reaches(ex, st, e, g['k.failure']), repr(e), st)
            if 'net' not in ev and 'alien' not in ev:
                nres = sum(1 for m in g['k.sent'] if m[0] == 'RESET')
                ex.ob(E.nm('a failure is answered with one RESET {C11}'), nres == 1, '%d RESETs' % nres, st)
                if 'resetfail' in ev:
                    ex.ob(E.nm('a refused RESET closes the connection {C11}'), not g['k.open'], 'still open', st)
        for m in g['k.sent']:
            if m[0] == 'RESET':
                ok = m[1] == 0x0F and not m[2] and m[3] == codec_of(self.v)
                ex.ob(E.nm('RESET is the reset request of the version {C09,C11}'), ok, repr(m), st)
        if 'failure' not in ev:
            ex.ob(E.nm('RESET is only sent after a failure {C11}'), not any(m[0] == 'RESET' for m in g['k.sent']), 'RESET without failure', st)

    def plain(self, g):
        """requests other than RESET, GOODBYE"""
        return [m for m in g['k.sent'] if m[0] not in ('RESET',)]

    def errnil(self, E):
        return simp(B(err_is_nil(E.ex, E.st, self.err(E.ex, E.retv))))

    def refused(self, E, why, allowed, tags):
        """nothing sent: an error, for a reason that holds"""
        ex, st = E.ex, E.st
        n = self.errnil(E)
        ex.ob(E.nm('nothing was sent, so an error is returned {%s}' % tags), n is False or valid(st, Not(n)), 'the error is nil', st)
        ok = valid(st, allowed)
        ex.ob(E.nm('a call is only refused for a reason: %s {%s}' % (why, tags)), ok, 'refused without one', st)


class QueryMethod(Method):
    """Query, QueryWithDb, Exec, ExecWithDb of a connection or a transaction"""

    def __init__(self, v, on, rows, withdb):
        Method.__init__(self, v)
        self.on, self.rows, self.withdb = on, rows, withdb

    def setups(self, ex, st0, name):
        ex.ctx['rows'] = True
        for st, c, t in (self.conn_shapes if self.on == 'conn' else self.tx_shapes)(ex, name):
            f = ex.P.funcs[name]
            st.ghost['k.T'] = t
            ps = f['params']
            args = [c if self.on == 'conn' else t]
            for p in ps[1:]:
                args.append(ex.sym(st, p['t'], lambda q, s: fresh(p['n'] + q, s)))
            yield args, st

    def err(self, ex, ret):
        return ret.f[-1]

    def spec(self, E):
        ex, st, g = E.ex, E.st, E.st.ghost
        v = self.v
        query, params = E.args[1], E.args[2]
        db = E.args[3] if self.withdb else StrV('')
        sh = g['k.shape']
        none = simp(eq(db.rope.len(), 0))
        reasons = []
        bad_db = And(Not(none), True if v < 4 else False)
        mism = False
        if self.on == 'tx':
            tdb = tget(ex, E.old, E.args[0], 'db')
            mism = And(Not(none), Not(ex.str_eq(st, db.rope, tdb.rope)))
        dead = (sh == 'closed') if self.on == 'conn' else sh != 'mine'
        if not g['k.tried']:
            self.refused(E, 'no such database here, closed connection or ended transaction',
                         Or(bad_db, mism, dead), 'C10,C12,C13,C14')
            return
        ex.ob(E.nm('nothing is sent on a closed connection or for an ended transaction {C12,C13}'), not dead, 'a request was made', st)
        E.fact(Not(bad_db), 'a database is only named where the version has it {C14}')
        E.fact(Not(mism), "a transaction's queries name no other database {C14}")
        mode = cget(ex, st, ex.ctx['conn'], 'mode')
        want = [run_expected(ex, st, v, query, params, db, mode, self.on == 'conn'), pull_expected(ex, st, v)]
        n = self.errnil(E)
        good = not g['k.ev']
        if good:
            ex.ob(E.nm('a query the server answered succeeds {C10}'), n is True or valid(st, n), repr(self.err(ex, E.retv)), st)
        sent = self.plain(g)
        why = same_msgs(ex, st, sent, want, prefix=not good)
        tags = 'C10,C14,C09' + (',C12' if self.on == 'tx' else '')
        ex.ob(E.nm('sends RUN with that text and those parameters, then PULL {%s}' % tags), why is None, why or '', st)
        if not good or n is False:
            return
        E.fact(n, 'success {C10}')
        res = E.retv.f[-2]
        meta = g['k.meta']
        ok = False
        if res.dyn is not None and not isinstance(res.dyn[0], str) and ex.P.str(res.dyn[0]) == '*' + TR and res.dyn[1].ref is not None:
            r = ex.load(st, res.dyn[1])
            ok = any(isinstance(x, MapV) and meta is not None and ex.map_veq(st, x, meta, 0) for x in r.f)
        ex.ob(E.nm('the result carries the metadata of the final success {C10,C20}'), ok, repr(res), st)
        if self.rows:
            rows = E.retv.f[0]
            nrec = g['k.nrec']
            et = ex.P.fields(ex.P.T(MSG + 'RecordMessage'))[0]['type']
            w = SliceV(st.alloc(ArrZ(et, ex.ctx['recs'], nrec, True)), 0, nrec, nrec)
            ok = valid(st, eq(rows.len, nrec)) and ex.slice_veq(st, None, rows, w, 0)
            ex.ob(E.nm("the rows are exactly the server's records in order {C10}"), ok, '%r after %s records' % (rows, nrec), st)


class RowLoop:
    """the loop that gathers records: after k rounds the rows are the first k records"""

    def applies(self, L):
        ex = L.ex
        if 'conn' not in ex.ctx or '/connection.' not in L.fr.fn:
            return None
        rows = [r for r, (ins, v0) in L.phis.items() if ex.P.kind(ins['t']) == 'slice' and ex.P.kind(ex.P.elem(ins['t'])) == 'slice'
                and isinstance(v0, SliceV)]
        if len(rows) != 1:
            return None
        return rows[0]

    def inv(self, L, M):
        ex = L.ex
        r = L.d
        et = ex.P.elem(L.phis[r][0]['t'])
        v0 = L.phis[r][1]
        M.fact(eq(v0.len, 0), 'no rows at first {C10}')
        n0 = L.st0.ghost['k.nrec']
        n = add(n0, M.k)
        M.ghost('k.nrec', n, 'one record a round {C10}')
        recs = ex.ctx['recs']
        M.phi(r, lambda: SliceV(M.st.alloc(ArrZ(et, recs, M.k)), 0, M.k, M.k), 'the rows so far are the records so far {C10}')
        if M.mode == 'havoc':
            M.st.assume(I(M.k) < (1 << 40))


class BeginMethod(Method):
    def __init__(self, v, withdb):
        Method.__init__(self, v)
        self.withdb = withdb

    def setups(self, ex, st0, name):
        ex.ctx['rows'] = False
        for st, c, t in self.conn_shapes(ex, name):
            st.ghost['k.T'] = t
            args = [c]
            if self.withdb:
                args.append(fresh_str(st, 'db'))
            yield args, st

    def err(self, ex, ret):
        return ret.f[-1]

    def spec(self, E):
        ex, st, g = E.ex, E.st, E.st.ghost
        v = self.v
        db = E.args[1] if self.withdb else StrV('')
        sh = g['k.shape']
        none = simp(eq(db.rope.len(), 0))
        bad_db = And(Not(none), True if v < 4 else False)
        if not g['k.tried']:
            self.refused(E, 'transaction open, connection closed or no such database here', Or(bad_db, sh != 'open'), 'C12,C13,C14')
            return
        ex.ob(E.nm('BEGIN is only sent on an open connection without a transaction {C12,C13}'), sh == 'open', 'sent all the same', st)
        E.fact(Not(bad_db), 'a database is only named where the version has it {C14}')
        mode = cget(ex, st, ex.ctx['conn'], 'mode')
        good = not g['k.ev']
        n = self.errnil(E)
        why = same_msgs(ex, st, self.plain(g), ctl_expected(ex, st, v, 'BEGIN', db, mode), prefix=not good)
        ex.ob(E.nm('sends BEGIN as the version has it {C12,C14,C09}'), why is None, why or '', st)
        if not good:
            return
        ex.ob(E.nm('a transaction the server began is returned {C12}'), n is True or valid(st, n), repr(E.retv), st)
        t = E.retv.f[0]
        c = ex.ctx['conn']
        tx = cget(ex, st, c, 'tx')
        ok = t.dyn is not None and isinstance(t.dyn[1], PtrV) and t.dyn[1].ref is not None and t.dyn[1].ref == tx.ref
        ex.ob(E.nm('the transaction returned is the open one of the connection {C12}'), ok, '%r, %r' % (t, tx), st)
        if ok and tf(ex.P, 'db') is not None:
            ok = ex.value_eq(st, None, tget(ex, st, t.dyn[1], 'db'), db)
            ex.ob(E.nm('the transaction remembers the database it was begun in {C14}'), ok, 'another one', st)


class EndMethod(Method):
    """Commit and Rollback"""

    def __init__(self, v, kind):
        Method.__init__(self, v)
        self.kind = kind

    def setups(self, ex, st0, name):
        ex.ctx['rows'] = False
        for st, c, t in self.tx_shapes(ex, name):
            st.ghost['k.T'] = t
            yield [t], st

    def spec(self, E):
        ex, st, g = E.ex, E.st, E.st.ghost
        sh = g['k.shape']
        if not g['k.tried']:
            self.refused(E, 'the transaction ended before', sh != 'mine', 'C12,C13')
            return
        ex.ob(E.nm('nothing is sent for an ended transaction {C12}'), sh == 'mine', 'sent all the same', st)
        good = not g['k.ev']
        n = self.errnil(E)
        why = same_msgs(ex, st, self.plain(g), ctl_expected(ex, st, self.v, self.kind), prefix=not good)
        ex.ob(E.nm('sends %s as the version has it {C12,C09}' % self.kind), why is None, why or '', st)
        if good:
            ex.ob(E.nm('an acknowledged %s succeeds {C12}' % self.kind), n is True or valid(st, n), repr(E.retv), st)
            ex.ob(E.nm('the connection stays open {C12}'), g['k.open'], 'closed', st)


class IsClosedMethod(Method):
    def setups(self, ex, st0, name):
        for st, c, t in self.tx_shapes(ex, name):
            st.ghost['k.T'] = t
            yield [t], st

    def err(self, ex, ret):
        return None

    def spec(self, E):
        want = E.st.ghost['k.shape'] != 'mine'
        E.ob(simp(E.retv) is want, 'reports whether the transaction ended {C12}', repr(E.retv))
        E.ob(not E.st.ghost['k.tried'], 'sends nothing {C12}')


class MakeIdleMethod(Method):
    def setups(self, ex, st0, name):
        ex.ctx['rows'] = False
        for st, c, t in self.conn_shapes(ex, name):
            st.ghost['k.T'] = t
            yield [c], st

    def spec(self, E):
        ex, st, g = E.ex, E.st, E.st.ghost
        sh = g['k.shape']
        n = self.errnil(E)
        if sh != 'tx':
            ex.ob(E.nm('without a transaction nothing is sent {C12,C19}'), not g['k.tried'], 'sent something', st)
            if sh == 'open':
                ex.ob(E.nm('an idle connection is idle {C19}'), n is True or valid(st, n), repr(E.retv), st)
            return
        good = not g['k.ev']
        why = same_msgs(ex, st, self.plain(g), ctl_expected(ex, st, self.v, 'ROLLBACK'), prefix=not good)
        ex.ob(E.nm('an open transaction is rolled back {C12,C19}'), why is None, why or '', st)
        tx = cget(ex, st, ex.ctx['conn'], 'tx')
        if good:
            ex.ob(E.nm('no transaction is left {C12,C19}'), tx.ref is None and (n is True or valid(st, n)), repr(tx), st)


class CloseMethod(Method):
    def setups(self, ex, st0, name):
        ex.ctx['rows'] = False
        for st, c, t in self.conn_shapes(ex, name):
            st.ghost['k.T'] = t
            yield [c], st

    def spec(self, E):
        ex, st, g = E.ex, E.st, E.st.ghost
        sh = g['k.shape']
        v = self.v
        n = self.errnil(E)
        ex.ob(E.nm('the connection is closed and its socket released {C13}'),
              valid(st, B(cget(ex, st, ex.ctx['conn'], 'closed'))) and not g['k.open'], 'it is not', st)
        if sh == 'closed':
            ex.ob(E.nm('a second close sends nothing {C13}'), not g['k.tried'], 'sent something', st)
            want = ex.load(st, ex.globaladdr(st, BOLT + 'errors.ErrClosed', ex.P.T('**' + TE) if ex.P.has('**' + TE) else PTR(ex, '*' + TE)))
            e = E.retv
            ok = e.dyn is not None and isinstance(e.dyn[1], PtrV) and e.dyn[1].ref == want.ref
            ex.ob(E.nm('a second close reports already-closed {C13}'), ok, repr(e), st)
            return
        want = []
        if sh == 'tx':
            want += ctl_expected(ex, st, v, 'ROLLBACK')
        nroll = len(want)
        if v >= 3:
            want.append(('GOODBYE', 0x02, []))
        sent = self.plain(g)
        ev = g['k.ev']
        if not ev:
            why = same_msgs(ex, st, sent, want)
            ex.ob(E.nm('rolls back the open transaction, then says goodbye where the version has it {C13,C09,C12}'), why is None, why or '', st)
            ok = n is True or valid(st, n)
            if g.get('k.closeerr'):
                ok = True
            ex.ob(E.nm('a clean close succeeds {C13}'), ok, repr(E.retv), st)
        else:
            why = same_msgs(ex, st, [m for m in sent if m[0] != 'GOODBYE'], want[:nroll], prefix=True)
            ex.ob(E.nm('rolls back the open transaction {C13,C12}'), why is None, why or '', st)


def PTR(ex, s):
    """a pointer type to s, known or not"""
    P = ex.P
    t = P.T(s)
    for i, x in enumerate(P.types):
        if x['kind'] == 'ptr' and x.get('elem') == t:
            return i
    P.types.append({'kind': 'ptr', 'elem': t, 'str': '*' + s})
    return len(P.types) - 1


NATIVE_IS[('neterr', 'net.Error')] = True
timeouterr = ufn('timeouterr', Any, Bool)


class ValidateMethod(Method):
    """ValidateOpen: open and silent means usable"""

    def setups(self, ex, st0, name):
        ex.ctx['rows'] = False
        ex.ctx['netread'] = self.netread
        for st, c, t in self.conn_shapes(ex, name):
            st.ghost['k.T'] = t
            st.ghost['k.saw'] = None
            yield [c], st

    def netread(self, ex, st, buf):
        """the probe: a byte, a timeout, the end of the stream, or a broken connection"""
        outs = []
        top = short(ex.top)
        dl = st.ghost.get('k.rdl')
        nows = st.ghost.get('nows', ())
        ok = False
        if dl is not None and nows:
            # the deadline lies ahead, so the socket is looked at, and not further than the timeout
            s_, n_ = nows[-1]
            ok = valid(st, z3.Or(dl.s > s_, z3.And(dl.s == s_, dl.n > n_))) and valid(st, I(dl.s) <= s_ + 60)
        ex.ob('%s: the probe has a deadline that lies ahead {C13,C23}' % top, ok, repr(dl), st)
        ex.prove(st, le(1, buf.len), '%s: the probe asks for a byte {C13}' % top)
        for what in ('byte', 'timeout', 'eof', 'broken'):
            s = st.fork()
            s.note('probe: ' + what)
            s.ghost['k.saw'] = what
            if what == 'byte':
                n = fresh('read', Int)
                s.assume(n >= 1, n <= I(buf.len))
                s.ghost['k.partial'] = True
                outs.append((s, 'ret', TupleV([n, NILI])))
            elif what == 'eof':
                e = global_error(ex, s, 'io.EOF')
                s.assume(Not(timeouterr(e.term)))
                outs.append((s, 'ret', TupleV([0, e])))
            elif what == 'timeout':
                outs.append((s, 'ret', TupleV([0, IfaceV(dyn=('neterr', NatV('neterr', timeout=True)))])))
            else:
                outs.append((s, 'ret', TupleV([0, IfaceV(dyn=('neterr', NatV('neterr', timeout=False)))])))
                s3 = s.fork()
                e = lib_error(ex, s3)
                s3.assume(Not(timeouterr(e.term)))
                outs.append((s3, 'ret', TupleV([0, e])))
        return outs

    def err(self, ex, ret):
        return None

    def spec(self, E):
        ex, st, g = E.ex, E.st, E.st.ghost
        r = simp(E.retv)
        if r is not True and r is not False:
            r = True if valid(st, B(r)) else False if valid(st, Not(B(r))) else r
        sh = g['k.shape']
        saw = g['k.saw']
        E.ob(not g['k.tried'], 'sends nothing {C13}')
        if sh == 'closed':
            E.ob(r is False, 'a closed connection is not open {C13,C18,C19}', repr(r))
            E.ob(saw is None, 'a closed socket is left alone {C13}')
            return
        if r is True or not (r is False):
            E.ob(saw == 'timeout', 'a connection is open only when its socket is open and silent {C13,C18,C19}', 'saw %s, says %s' % (saw, r))
        if saw == 'timeout':
            E.ob(r is True, 'an open and silent connection is open {C13,C18,C19}', repr(r))


@invoke(('neterr', 'Timeout'))
def _(ex, st, r, a, ins):
    return r.d['timeout']


@invoke(('neterr', 'Error'))
def _(ex, st, r, a, ins):
    return fresh_str(st, 'errtext')


@invoke(('neterr', 'Temporary'))
def _(ex, st, r, a, ins):
    return fresh('temporary', Bool)


@invoke(('net.Error', 'Timeout'))
def _(ex, st, r, a, ins):
    # only a timeout says so, and the model of the socket makes that explicit
    return ufn('timeouterr', Any, Bool)(r.term)


def prep(ex):
    for i in (1, 2):
        sp = codec_enc.SPECS[i]
        ex.contracts[sp.Encode] = ConnEncode(i, sp)
        ex.contracts[codec_dec.DSPECS[i].Decode] = ConnDecode(i, codec_dec.DSPECS[i])
    ex.loopspecs = [RowLoop()]


C = '(*%s).' % TC
T = '(*%s).' % TT


def methods(v):
    return {
        'query': [(C + 'Query', QueryMethod(v, 'conn', True, False)), (C + 'QueryWithDb', QueryMethod(v, 'conn', True, True))],
        'exec': [(C + 'Exec', QueryMethod(v, 'conn', False, False)), (C + 'ExecWithDb', QueryMethod(v, 'conn', False, True))],
        'txquery': [(T + 'Query', QueryMethod(v, 'tx', True, False)), (T + 'QueryWithDb', QueryMethod(v, 'tx', True, True))],
        'txexec': [(T + 'Exec', QueryMethod(v, 'tx', False, False)), (T + 'ExecWithDb', QueryMethod(v, 'tx', False, True))],
        'tx': [(C + 'Begin', BeginMethod(v, False)), (C + 'BeginWithDatabase', BeginMethod(v, True)),
               (T + 'Commit', EndMethod(v, 'COMMIT')), (T + 'Rollback', EndMethod(v, 'ROLLBACK')),
               (T + 'IsClosed', IsClosedMethod(v)), (C + 'MakeIdle', MakeIdleMethod(v))],
        'close': [(C + 'Close', CloseMethod(v)), (C + 'ValidateOpen', ValidateMethod(v))],
    }
