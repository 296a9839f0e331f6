"""Settings and plain accessors of a connection: what is set is what is used and read back, and nothing else changes."""
import z3
from core import *
from values import *
from prove import Contract, short
import conn
from conn import cf, cget, BOLT
from proto import Simple

C = conn.C


class Setting(Contract):
    """a method that sets one field to its argument"""

    def __init__(self, role, tag_):
        self.role, self.tag = role, tag_

    def setups(self, ex, st0, name):
        st = State()
        ex.ctx['v'] = 4
        c = conn.new_conn(ex, st, 4)
        args = [c]
        for p in ex.P.funcs[name]['params'][1:]:
            args.append(ex.sym(st, p['t'], lambda q, s: fresh(p['n'] + q, s)))
        yield args, st

    def post(self, E):
        ex = E.ex
        i = cf(ex.P, self.role)
        if i is None:
            raise Unsupported('no field for ' + self.role)
        E.cell(PtrV(E.args[0].ref, (i,)), E.args[1], 'the value given is the one used from now on {%s}' % self.tag)


class Reading(Setting):
    """a method that returns one field"""

    def post(self, E):
        ex, st = E.ex, E.st
        want = cget(ex, E.old, E.args[0], self.role)
        if isinstance(want, SliceV):
            ok = isinstance(E.retv, SliceV) and ex.rope_eq(st, ex.slice_rope(st, E.retv), ex.slice_rope(E.old, want))
        else:
            ok = ex.value_eq(st, None, E.retv, want)
        E.ob(ok, 'what the connection has is returned {%s}' % self.tag, '%r is not %r' % (E.retv, want))


class GetMap(Simple):
    def __init__(self):
        Simple.__init__(self, None)

    def setups(self, ex, st0, name):
        for nil in (False, True):
            st = State()
            p = ex.P.funcs[name]['params'][0]
            et = ex.P.elem(p['t'])
            x = MapV(None) if nil else ex.sym(st, et, lambda q, s: fresh('params' + q, s))
            yield [PtrV(st.alloc(Cell(x, et)))], st

    def post(self, E):
        m = E.ex.load(E.old, E.args[0])
        ok = isinstance(E.retv, MapV) and E.retv.ref == m.ref
        E.ob(ok, 'the parameters themselves {C10}', repr(E.retv))


class Rows(GetMap):
    def setups(self, ex, st0, name):
        st = State()
        et = ex.P.elem(ex.P.funcs[name]['params'][0]['t'])
        yield [PtrV(st.alloc(Cell(ex.sym(st, et, lambda q, s: fresh('rows' + q, s)), et)))], st

    def post(self, E):
        want = E.ex.load(E.old, E.args[0])
        E.ob(E.ex.value_eq(E.st, None, E.retv, want), 'the rows unchanged {C10}', repr(E.retv))


METHODS = [('SetChunkSize', Setting('chunk', 'C02,C15')), ('SetTimeout', Setting('timeout', 'C23')), ('SetConnectionId', Setting('id', 'C17,C18')),
           ('GetConnectionId', Reading('id', 'C17,C18')), ('GetProtocolVersionNumber', Reading('ver', 'C08,C16')),
           ('GetProtocolVersionBytes', Reading('verb', 'C08'))]
OTHER = [('(*%sconnection.QueryParams).GetMap' % BOLT, GetMap()), ('(*%sconnection.NeoRows).Get2DSlice' % BOLT, Rows())]
FUNCTIONS = [C + n for n, _ in METHODS] + [f for f, _ in OTHER]


def run(ex):
    for f, c in [(C + n, c) for n, c in METHODS] + OTHER:
        if f in ex.P.funcs:
            ex.ctx.clear()
            ex.on_access = None
            ex.check(c, f)
