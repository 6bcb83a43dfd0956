"""Loading and querying the MIR dumps written by tools/dump.sh."""
import json, os
from collections import defaultdict


class Fn:
    __slots__ = ('crate', 'j', 'path', 'name', 'kind', 'blocks', 'locals', 'argc', 'root', 'span', 'parent',
                 'promoted', '_live', '_preds', 'synthetic', '_dom', '_names')

    def __init__(self, crate, j, synthetic=False):
        self.crate = crate
        self.j = j
        self.path = j['path']
        self.name = j['name']
        self.kind = j['kind']
        self.blocks = j['blocks']
        self.locals = j['locals']
        self.argc = j['argc']
        self.root = j.get('root')
        self.parent = j.get('parent')
        self.span = j.get('span')
        self.promoted = j.get('promoted') or []
        self._live = None
        self._preds = None
        self._dom = None
        self._names = None
        self.synthetic = synthetic

    def __repr__(self):
        return 'Fn(%s)' % self.path

    def where(self, sp=None):
        s = sp or self.span
        return '%s:%s' % (s[0], s[1]) if s else self.path

    def names(self):
        """local -> user variable name"""
        if self._names is None:
            self._names = {}
            for n, p in self.j.get('names', []):
                if not p[1]:
                    self._names.setdefault(p[0], n)
        return self._names

    def succs(self, b, cleanup=False):
        return succs(self.blocks[b], cleanup)

    def preds(self):
        if self._preds is None:
            p = defaultdict(set)
            for i in range(len(self.blocks)):
                for s in self.succs(i):
                    p[s].add(i)
            self._preds = p
        return self._preds

    def reachable(self):
        seen = {0}
        st = [0]
        while st:
            b = st.pop()
            for s in self.succs(b):
                if s not in seen:
                    seen.add(s)
                    st.append(s)
        return seen

    def calls(self):
        for i, b in enumerate(self.blocks):
            if b.get('cl'):
                continue
            if b['tm']['t'] == 'call':
                yield i, b['tm']

    def live(self):
        """live-in locals per block (direct uses only)"""
        if self._live is None:
            self._live = liveness(self)
        return self._live


def succs(bl, cleanup=False):
    t = bl['tm']
    k = t['t']
    out = []
    if k == 'goto':
        out = [t['to']]
    elif k == 'switch':
        out = [x[1] for x in t['ts']]
        if t.get('else') is not None:
            out.append(t['else'])
    elif k in ('drop', 'call', 'assert'):
        if t.get('to') is not None:
            out = [t['to']]
        if cleanup and t.get('uw') is not None:
            out.append(t['uw'])
    elif 'to' in t and isinstance(t['to'], int):
        out = [t['to']]
    return out


def place_uses(p, out):
    out.add(p[0])
    for e in p[1]:
        if e[0] == 'i':
            out.add(e[1])


def op_uses(o, out):
    if o and o.get('o') == 'p':
        place_uses(o['p'], out)


def rv_uses(v, out):
    for k in ('a', 'b'):
        if isinstance(v.get(k), dict):
            op_uses(v[k], out)
    if 'p' in v and isinstance(v['p'], list):
        place_uses(v['p'], out)
    for a in v.get('ops', []) or []:
        op_uses(a, out)


def term_uses(t, out):
    k = t['t']
    if k == 'switch':
        op_uses(t['d'], out)
    elif k == 'call':
        op_uses(t['f'], out)
        for a in t['args']:
            op_uses(a, out)
        if t['dst'][1]:
            place_uses(t['dst'], out)
    elif k == 'assert':
        op_uses(t['c'], out)
        for a in t.get('ops', []) or []:
            op_uses(a, out)
    elif k == 'return':
        out.add(0)


def liveness(fn):
    n = len(fn.blocks)
    gen = []
    for b in fn.blocks:
        u = set()
        d = set()
        for s in b['ss']:
            cu = set()
            if s['s'] == '=':
                rv_uses(s['v'], cu)
                if s['p'][1]:
                    place_uses(s['p'], cu)
            elif s['s'] == 'setd':
                place_uses(s['p'], cu)
            u |= cu - d
            if s['s'] == '=' and not s['p'][1]:
                d.add(s['p'][0])
        cu = set()
        term_uses(b['tm'], cu)
        u |= cu - d
        if b['tm']['t'] == 'call' and not b['tm']['dst'][1]:
            d.add(b['tm']['dst'][0])
        gen.append((u, d))
    live = [set() for _ in range(n)]
    ch = True
    while ch:
        ch = False
        for i in range(n - 1, -1, -1):
            o = set()
            for s in succs(fn.blocks[i]):
                o |= live[s]
            u, d = gen[i]
            x = u | (o - d)
            if x != live[i]:
                live[i] = x
                ch = True
    return live


class Crate:
    def __init__(self, path):
        self.file = path
        with open(path) as f:
            j = json.load(f)
        self.name = j['crate']
        self.features = j['features']
        self.types = j['types']
        self.adts = {}
        for a in j['adts']:
            self.adts[a['path']] = a
        self.impls = j['impls']
        self.unsafe = j['unsafe']
        self.fns = {}
        self.fnlist = []
        for x in j['fns']:
            f = Fn(self, x)
            self.fnlist.append(f)
            self.fns.setdefault(f.path, f)

    def ty(self, i):
        return self.types[i]

    def tys(self, i):
        return self.types[i].get('s', '?')

    def strip_refs(self, i):
        while self.types[i]['k'] in ('ref', 'ptr'):
            i = self.types[i]['t']
        return i

    def fn(self, path):
        return self.fns.get(path)


def load(dumpdir, config, crate='toon_rs'):
    return Crate(os.path.join(dumpdir, config, crate + '.json'))


def callee(op):
    """the function constant called by operand `op`, or None"""
    if op.get('o') == 'c' and 'fn' in op:
        return op['fn']
    return None


def callee_name(f):
    return f.get('inst') or f['decl']
