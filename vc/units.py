"""Proof units: which functions are verified together, and the properties they carry."""
import re
import z3
from core import *
from prove import Prover
import models, timemodel
import codec_enc, codec_dec
from codec_enc import BOLT

UNITS = {}
PROPS = {}
ASSUME = ['the Go compiler and go/ssa agree on the meaning of the source',
          'machine integers are checked for range at every operation; nothing is treated as unbounded unless proved so',
          'library functions behave as their assumed contracts in vc/models.py and vc/timemodel.py say']


class Unit:
    def __init__(self, name, f, functions):
        self.name, self.run, self.functions = name, f, functions


def unit(name, *functions):
    def d(f):
        UNITS[name] = Unit(name, f, functions)
        return f
    return d


# ---------------------------------------------------------------- codec
def _enc(v):
    sp = codec_enc.SPECS[v]

    def prep(ex):
        ex.contracts[sp.encode] = codec_enc.EncodeContract(sp)
        ex.loopspecs = [codec_enc.EncLoops(sp)]

    @unit('encode_v%d' % v, sp.encode)
    def _(P, ex):
        prep(ex)
        ex.check(codec_enc.EncodeContract(sp), sp.encode)

    @unit('Encode_v%d' % v, sp.Encode, BOLT + sp.pkg + '.NewEncoder')
    def _(P, ex):
        prep(ex)
        ex.check(codec_enc.EncContract(sp), sp.Encode)
        ex.check(codec_enc.NewEncoder(sp), BOLT + sp.pkg + '.NewEncoder')


def _dec(v):
    sp = codec_dec.DSPECS[v]

    def prep(ex):
        ex.contracts[sp.decode] = codec_dec.DecodeContract(sp)
        ex.loopspecs = [codec_dec.DecLoops(sp)]

    @unit('decode_v%d' % v, sp.decode)
    def _(P, ex):
        prep(ex)
        ex.check(codec_dec.DecodeContract(sp), sp.decode)

    @unit('Decode_v%d' % v, sp.Decode, sp.New)
    def _(P, ex):
        prep(ex)
        ex.check(codec_dec.TopDecode(sp), sp.Decode)
        ex.check(codec_dec.NewDecoder(sp), sp.New)


for _v in (1, 2):
    _enc(_v)
    _dec(_v)

PROPS['C01'] = {'units': ['encode_v1', 'encode_v2', 'Encode_v1', 'Encode_v2']}
PROPS['C02'] = {'units': ['encode_v1', 'encode_v2', 'Encode_v1', 'Encode_v2']}
PROPS['C03'] = {'units': ['Decode_v1', 'Decode_v2']}
PROPS['C04'] = {'units': ['decode_v1', 'decode_v2', 'Decode_v1', 'Decode_v2']}
PROPS['C05'] = {'units': ['decode_v1', 'decode_v2', 'Decode_v1', 'Decode_v2']}
PROPS['C07'] = {'units': ['encode_v2', 'decode_v2']}
import roundtrip


def _rt(v):
    @unit('roundtrip_v%d' % v, 'lemma: decode after encode')
    def _(P, ex):
        roundtrip.Lemma(ex, v).run()


for _v in (1, 2):
    _rt(_v)


def _fields(names):
    def run(P, ex):
        ex.loopspecs = [roundtrip.FieldLoops()]
        for t in names:
            short = t.rsplit('/', 1)[0], t.rsplit('/', 1)[1]
            ex.check(roundtrip.AllFields(), '(%s).AllFields' % t)
            ex.check(roundtrip.Signature(), '(%s).Signature' % t)
    return run


_g = [t for t in roundtrip.FIELDS if t.startswith(roundtrip.GRAPH)]
_p = [t for t in roundtrip.FIELDS if t.startswith(roundtrip.TYPES)]
UNITS['graph_fields'] = Unit('graph_fields', _fields(_g), ['(%s).%s' % (t, m) for t in _g for m in ('AllFields', 'Signature')])
UNITS['point_fields'] = Unit('point_fields', _fields(_p), ['(%s).%s' % (t, m) for t in _p for m in ('AllFields', 'Signature')])
PROPS['C06'] = {'units': ['graph_fields', 'roundtrip_v1', 'roundtrip_v2', 'encode_v1', 'encode_v2', 'decode_v1', 'decode_v2', 'Encode_v1', 'Encode_v2', 'Decode_v1', 'Decode_v2']}
PROPS['C07']['units'] += ['point_fields', 'roundtrip_v2']


# ---------------------------------------------------------------- connections
import conn


def _conn(v):
    for grp, ms in conn.methods(v).items():
        def run(P, ex, ms=ms):
            conn.prep(ex)
            for f, c in ms:
                ex.ctx.clear()
                ex.on_access = None
                ex.check(c, f)
        UNITS['conn_%s_v%d' % (grp, v)] = Unit('conn_%s_v%d' % (grp, v), run, [f for f, _ in ms])


for _v in (4, 3, 2, 1):
    _conn(_v)


def tagged(prop):
    """obligations marked for some properties only count for those"""
    def only(u, name):
        m = re.search(r'\{(C\d\d(?:,C\d\d)*)\}', name)
        return m is None or prop in m.group(1).split(',')
    return only


def group(*gs):
    return ['conn_%s_v%d' % (g, v) for g in gs for v in (4, 3, 2, 1)]


_all = group('query', 'exec', 'tx', 'txquery', 'txexec', 'close')
for _p, _us in {'C10': group('query', 'exec', 'txquery', 'txexec'), 'C11': _all, 'C12': _all, 'C13': _all, 'C14': group('query', 'exec', 'txquery', 'txexec', 'tx'), 'C22': _all}.items():
    PROPS[_p] = {'units': _us, 'only': tagged(_p)}


# ---------------------------------------------------------------- requests of each version
import proto


def _simple(name, ms, prep=None):
    def run(P, ex):
        if prep:
            prep(ex)
        for f, c in ms:
            ex.ctx.clear()
            ex.on_access = None
            ex.check(c, f)
    UNITS[name] = Unit(name, run, [f for f, _ in ms])


for _v in (1, 2, 3, 4):
    _simple('proto_v%d' % _v, proto.methods(_v))
_simple('messages', proto.pieces())
PROPS['C09'] = {'units': ['proto_v%d' % v for v in (1, 2, 3, 4)] + ['messages'] + _all, 'only': tagged('C09')}
PROPS['C14']['units'] = PROPS['C14']['units'] + ['proto_v%d' % v for v in (1, 2, 3, 4)] + ['messages']


# ---------------------------------------------------------------- results and errors
import small


def _fn(name, f, functions):
    def run(P, ex):
        ex.ctx.clear()
        ex.on_access = None
        f(ex)
    UNITS[name] = Unit(name, run, functions)


_fn('results', small.run_results, small.RESULTS)
_fn('errors', small.run_errors, small.ERRORS)
PROPS['C20'] = {'units': ['results'] + group('query', 'exec', 'txquery', 'txexec'), 'only': tagged('C20')}
PROPS['C21'] = {'units': ['errors'] + _all, 'only': tagged('C21')}


# ---------------------------------------------------------------- opening a connection
import dial
_fn('readwrite', dial.run_rw, dial.RW)
_fn('open_config', dial.run_config, [dial.CREATE])
_fn('open_talk', dial.run_talk(False), [dial.CREATE])
_fn('open_talk_tls', dial.run_talk(True), [dial.CREATE])
PROPS['C08'] = {'units': ['open_talk', 'open_talk_tls', 'open_config'], 'only': tagged('C08')}
PROPS['C23'] = {'units': ['readwrite', 'open_config', 'open_talk', 'open_talk_tls'] + _all, 'only': tagged('C23')}
PROPS['C24'] = {'units': ['open_config', 'open_talk_tls'], 'only': tagged('C24')}
for _p in ('C09', 'C13', 'C22', 'C12'):
    PROPS[_p]['units'] = PROPS[_p]['units'] + ['open_talk']

import client
_fn('options', client.run_options, [client.ROOT + n for n in client.options()])
_fn('newclient', client.run_newclient, [client.ROOT + 'NewClient'])
PROPS['C15'] = {'units': ['options', 'newclient', 'open_config', 'open_talk', 'open_talk_tls'], 'only': tagged('C15')}

import pools
_fn('drivers', pools.run_drivers, [client.ROOT + n for n in ('Client.NewDriver', 'Client.NewDriverPool', 'Driver.Open', 'DriverPool.Open', 'ConnectionPooledObjectFactory.MakeObject')])
_fn('routing_strings', pools.run_routing_strings, [client.ROOT + 'Client.NewDriverPool', client.ROOT + 'newRoutingPool', pools.ROUTING + 'NewRoutingPool'])
_fn('plain_pool', pools.run_pool, [client.ROOT + n for n in ('newDriverPool', '(*driverPool).open', '(*driverPool).close', '(*driverPool).reclaim', 'DriverPool', 'ConnectionPooledObjectFactory')])
PROPS['C15']['units'] += ['drivers', 'routing_strings']
PROPS['C19'] = {'units': ['plain_pool', 'drivers'] + group('tx', 'close'), 'only': tagged('C19')}

import routing
_fn('routing_table', routing.run_table, [routing.REFRESH, routing.WRITES, routing.READS, '(*%s).parseRowV4' % routing.H, '(*%s).parseRowV3' % routing.H])
PROPS['C16'] = {'units': ['routing_table'], 'only': tagged('C16')}

import rpool
_fn('routing_pool', rpool.run, [rpool.OP + x for x in (
    'BorrowRConnection', 'BorrowRWConnection', 'internalBorrow', 'removeConn', 'countConns', 'addReadConn', 'addWriteConn', 'newConnection',
    'Reclaim', 'Start', 'Stop', 'stop', 'refreshHandler', 'refreshConnections', 'markRetired', 'prune', 'balance')])
_fn('routing_driver', pools.run_routing_driver, ['(*%sRoutingDriverPool).%s' % (client.ROOT, m) for m in ('Open', 'Reclaim', 'Close')])
PROPS['C17'] = {'units': ['routing_pool', 'routing_driver'], 'only': tagged('C17')}
PROPS['C18'] = {'units': ['routing_pool', 'routing_driver'] + group('close'), 'only': tagged('C18')}

import logging_
_fn('logging', logging_.run, [logging_.LOG + n for n in logging_.NAMES])
for _p in ('C01', 'C02', 'C06', 'C10'):
    PROPS[_p]['units'] = PROPS[_p]['units'] + ['logging']

# contracts used in place of a body of this repository that are discharged by another unit: (unit, property)
PROVED = {logging_.LOG + n: ('logging', 'C02') for n in logging_.NAMES}
PROVED.update({BOLT + 'errors.New': ('errors', 'C21'), BOLT + 'errors.Wrap': ('errors', 'C21'), small.ER + 'Error': ('errors', 'C21')})
PROVED.update({BOLT + 'structures.Structure.' + m: ('graph_fields', 'C06, C07 and C09') for m in ('AllFields', 'Signature')})

import marshal_
_fn('marshal', marshal_.run, [f for f, _ in marshal_.functions()])
for _p in ('C01', 'C02', 'C03', 'C05', 'C06'):
    PROPS[_p]['units'] = PROPS[_p]['units'] + ['marshal']

import settings_
_fn('settings', settings_.run, settings_.FUNCTIONS)
for _p in ('C02', 'C08', 'C10', 'C16', 'C17', 'C18', 'C23'):
    PROPS[_p]['units'] = PROPS[_p]['units'] + ['settings']
    PROPS[_p].setdefault('only', tagged(_p))

# units that do not quantify over everything: every state of these shapes, all inputs otherwise.  Never counted as proved.
BOUNDED = {
    'routing_pool': 'at most 3 idle connections of each mode (2 for a round of the refresh) and 3 lent ones in any combination of open, closed, dead and '
                    'retired; and up to 12 idle of a mode and 12 lent ones in given states; pool sizes 2, 3, 6, 25; five routing tables',
    'routing_strings': 'a routing table with one server of each role, with any distinct addresses, and a pool of 4',
}
for _p in ('C17', 'C18'):
    PROPS[_p]['level'] = 'other'
    PROPS[_p]['explanation'] = ('deductive: every operation of the pool is executed symbolically from every state of the shapes the invariant allows, and every '
                                'obligation discharged by z3; bounded in the number of connections, see "bounded"; the routing driver and the identity and closing of connections are proved without bound')
