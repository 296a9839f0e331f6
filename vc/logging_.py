"""The log package changes nothing it is given: what every other proof assumes of a log call."""
import z3
from core import *
from values import *
from exec import model, MODELS, GLOBALS
from prove import Contract, short
from conn import BOLT
from proto import Simple

LOG = BOLT + 'log.'
NAMES = ('Trace', 'Tracef', 'Info', 'Infof', 'Error', 'Errorf', 'TraceBytes', 'TraceBytesFromBuf')


def noop(ex, st, a, ins):
    if isinstance(a[0], PtrV) and a[0].ref is None:
        return [(st, 'panic', 'logging to a nil logger')]
    return None


for _m in ('Println', 'Printf', 'Print'):
    MODELS['(*log.Logger).' + _m] = noop


# any level; the loggers are there
GLOBALS[LOG + 'level'] = lambda ex, st, et: ex.sym(st, et, lambda p, s: fresh('level' + p, s))
for _g in ('ErrorLog', 'InfoLog', 'TraceLog', 'TraceBytesLog'):
    GLOBALS[LOG + _g] = lambda ex, st, et: PtrV(st.alloc(Cell(NatV('Logger'), ex.P.elem(et))))


class LogLoops:
    """loops of the log package: nothing is known of what they build"""

    def applies(self, L):
        return ('any',) if '/log.' in L.fr.stack[0] else None

    def inv(self, L, M):
        # as many rounds as there are elements of what the loop reads
        for ins in L.instrs():
            if ins['op'] in ('IndexAddr', 'Index'):
                x = L.outer(ins['x'])
                if isinstance(x, SliceV):
                    M.fact(le(M.k, x.len), 'index within the bytes')
                    return


class Frame(Simple):
    """no panic, and what the arguments lead to is left alone"""

    def __init__(self):
        Simple.__init__(self, None)

    def setups(self, ex, st0, name):
        P = ex.P
        st = State()
        args = []
        buf = fresh('buf', Bytes)
        st.assume(blen(buf) >= 0, blen(buf) < 1 << 60)
        for p in P.funcs[name]['params']:
            if P.str(p['t']) == '*bytes.Buffer':
                # a buffer; what calls it is held to that
                args.append(PtrV(st.alloc(Cell(NatV('Buf', rope=rope_of(buf)), P.elem(p['t'])))))
            else:
                args.append(ex.sym(st, p['t'], lambda q, s: fresh(p['n'] + q, s)))
        yield args, st

    def post(self, E):
        E.ob(E.retv is None or E.retv == () or isinstance(E.retv, (StrV, TupleV)), 'returns', repr(E.retv))


def run(ex):
    ex.loopspecs = [LogLoops()]
    saved = {n: MODELS.pop(LOG + n, None) for n in NAMES}
    try:
        for n in NAMES:
            if LOG + n in ex.P.funcs:
                ex.ctx.clear()
                ex.check(Frame(), LOG + n)
    finally:
        for n, m in saved.items():
            if m is not None:
                MODELS[LOG + n] = m
