"""The exported SSA of the code under /repo and its types."""
import json, re

INTS = {'int': (True, 64), 'int8': (True, 8), 'int16': (True, 16), 'int32': (True, 32), 'int64': (True, 64),
        'uint': (False, 64), 'uint8': (False, 8), 'uint16': (False, 16), 'uint32': (False, 32), 'uint64': (False, 64),
        'uintptr': (False, 64), 'byte': (False, 8), 'rune': (True, 32), 'untyped int': (True, 512),
        'untyped rune': (True, 32)}


class Prog:
    def __init__(self, path):
        j = json.load(open(path))
        self.types = j['types']
        self.funcs = j['funcs']
        self.methods = j['methods']
        self.globals = j['globals']
        self.consts = j.get('consts', {})
        for t in self.types:
            t['str'] = re.sub(r'\bany\b', 'interface{}', t['str'])
        self.bystr = {}
        for i, t in enumerate(self.types):
            self.bystr.setdefault(t['str'], i)
        self._loops = {}
        self._tagid = {}

    def T(self, s):
        return self.bystr[s]

    def has(self, s):
        return s in self.bystr

    def str(self, t):
        return self.types[t]['str']

    def under(self, t):
        while self.types[t]['kind'] == 'named':
            t = self.types[t]['under']
        return t

    def u(self, t):
        return self.types[self.under(t)]

    def kind(self, t):
        return self.u(t)['kind']

    def intinfo(self, t):
        u = self.u(t)
        if u['kind'] == 'basic':
            return INTS.get(u['name'])
        return None

    def basic(self, t):
        u = self.u(t)
        return u['name'] if u['kind'] == 'basic' else None

    def elem(self, t):
        return self.u(t)['elem']

    def fields(self, t):
        return self.u(t)['fields']

    def fieldidx(self, t, name):
        for i, f in enumerate(self.fields(t)):
            if f['name'] == name:
                return i
        raise KeyError(name)

    def tagid(self, t):
        """a number per distinct type, 0 being no type"""
        s = self.str(t)
        if s not in self._tagid:
            self._tagid[s] = len(self._tagid) + 1
        return self._tagid[s]

    def method(self, t, name):
        """function implementing method name on a value of type t, or None"""
        ty = self.types[t]
        if ty['kind'] == 'ptr':
            el = self.types[ty['elem']]
            if el['kind'] == 'named':
                return self.methods.get(el['str'], {}).get('ptr', {}).get(name)
            return None
        if ty['kind'] == 'named':
            return self.methods.get(ty['str'], {}).get('val', {}).get(name)
        return None

    def methodset(self, t):
        ty = self.types[t]
        if ty['kind'] == 'ptr':
            el = self.types[ty['elem']]
            if el['kind'] == 'named':
                return set(self.methods.get(el['str'], {}).get('ptr', {}) or {})
            return set()
        if ty['kind'] == 'named':
            return set(self.methods.get(ty['str'], {}).get('val', {}) or {})
        return set()

    def implements(self, t, iface):
        need = set(self.u(iface)['methods'])
        if self.kind(t) == 'iface':
            return need <= set(self.u(t)['methods'])
        return need <= self.methodset(t)

    # ------------------------------------------------------------ loops
    def loops(self, fname):
        """header block -> set of blocks of its natural loop"""
        if fname in self._loops:
            return self._loops[fname]
        bl = self.funcs[fname]['blocks']
        n = len(bl)
        dom = [set(range(n)) for _ in range(n)]
        if n:
            dom[0] = {0}
        ch = True
        while ch:
            ch = False
            for b in range(1, n):
                ps = bl[b]['preds']
                if ps:
                    d = set.intersection(*[dom[p] for p in ps]) | {b}
                else:
                    d = {b}
                if d != dom[b]:
                    dom[b] = d
                    ch = True
        loops = {}
        for b in range(n):
            for s in bl[b]['succs']:
                if s in dom[b]:
                    body = loops.setdefault(s, {s})
                    work = [b]
                    while work:
                        x = work.pop()
                        if x not in body:
                            body.add(x)
                            work.extend(bl[x]['preds'])
        self._loops[fname] = loops
        return loops
