"""Value and path analysis of structured data: the abstract interpreter of absint.py with symbolic values.

A value that is not computed from constants is a term: a parameter, a field, an element, the length of a
collection, a pure call applied to terms.  Two values are the same when their terms are.  Every branch on a
term is recorded as a fact; a state is the set of facts that led to it, so contradicting branches are cut and
correlated tests stay correlated.  A loop over a collection works on one generic element; the facts every
earlier element satisfied are kept with the iterator.  Mutation gives the place a fresh symbol named by its
program point.  No solver is involved: facts are compared as they stand.
"""
import re
import os, time
from functools import lru_cache
import absint, models, alpha as alphamod, ir, emit
from absint import Machine, State, Frame, TRUE, FALSE, UNIT, b, Budget

OPT = 'Option'
OBJ = 10 ** 6
FRESH = ('new', 'mut', 'el', 'idx', 'old')


@lru_cache(None)
def bases(t):
    """fresh symbols a term is made of"""
    if not isinstance(t, tuple) or not t:
        return frozenset()
    if t[0] in FRESH:
        r = frozenset([t])
        if t[0] in ('el', 'idx'):
            r |= bases(t[1])
        return r
    out = frozenset()
    for x in t:
        if isinstance(x, tuple):
            out |= bases(x)
        elif isinstance(x, frozenset):
            for y in x:
                out |= bases(y)
    return out


@lru_cache(None)
def has(t, s):
    if t == s:
        return True
    if isinstance(t, (tuple, frozenset)):
        return any(has(x, s) for x in t if isinstance(x, (tuple, frozenset)))
    return False


@lru_cache(None)
def subst(t, a, c):
    if t == a:
        return c
    if isinstance(t, tuple):
        return tuple(subst(x, a, c) if isinstance(x, (tuple, frozenset)) else x for x in t)
    if isinstance(t, frozenset):
        return frozenset(subst(x, a, c) if isinstance(x, (tuple, frozenset)) else x for x in t)
    return t


@lru_cache(None)
def depth(t):
    if isinstance(t, (tuple, frozenset)):
        return 1 + max([depth(x) for x in t if isinstance(x, (tuple, frozenset))] or [0])
    return 0


def size(t):
    if isinstance(t, (tuple, frozenset)):
        return 1 + sum(size(x) for x in t)
    return 1


ANY = ('any',)
LENID = {'map', 'enum', 'rev'}


def eqclass(fs, x):
    """terms known to equal x, or None if there are none"""
    es = [(a[1], a[2]) for a, p in fs if p and a[0] == 'Eq']
    cls, work = {x}, [x]
    while work:
        z = work.pop()
        for p, q in es:
            o = q if p == z else p if q == z else None
            if o is not None and o not in cls:
                cls.add(o)
                if o[0] not in ('i', 'c'):
                    work.append(o)
    return cls if len(cls) > 1 else None


def T(t):
    return ('t', t)


def length_of(t):
    """the term whose length is the length of t"""
    while isinstance(t, tuple) and (t[0] in LENID or t[0] == 'grow' and t[2] == 2):
        t = t[1]
    if isinstance(t, tuple) and t[0] == 'range' and t[1] == ('i', 0):
        return t[2]
    return ('len', t)


ITER_ID = {'iter', 'into_iter', 'iter_mut', 'by_ref', 'copied', 'cloned', 'fuse', 'as_slice', 'as_mut_slice', 'to_vec',
           'into_boxed_slice', 'into_vec', 'as_mut', 'to_owned'}
SRC = {'chars', 'bytes', 'char_indices', 'keys', 'values', 'lines', 'split', 'into_keys', 'into_values', 'windows',
       'split_whitespace', 'values_mut', 'drain', 'split_terminator', 'rsplit', 'chunks'}
REORDER = {'sort', 'sort_unstable', 'sort_by', 'sort_unstable_by', 'sort_by_key', 'sort_unstable_by_key', 'reverse', 'dedup',
           'retain', 'truncate', 'rotate_left', 'rotate_right'}
TOLERANT = {'fmt::format', 'format::format_inner'}


class Shape(Machine):
    def index_term(self, t, i):
        return ('ix', t, i)

    def __init__(self, crate, opaque=None, budget=200000):
        al = alphamod.alphabet(crate, [], extra='', sets=())
        super().__init__(crate, al, budget=budget)
        self.opaque = opaque or (lambda fn: None)
        self.use_summaries = False
        self.hooks = [sym_hook]
        self.nvar = {}
        self.bodies = {}
        self.keep = None
        self.watch = None
        self.inline_depth = 24
        self.max_term = 60
        self.max_keys = 3000
        self.one = None
        self.coarse = False
        self.notext = False        # what is written into strings is of no interest
        self.history = True

    # ---- facts ------------------------------------------------------------------------------
    def facts(self, st):
        return st.ghost[0][1]

    def setfacts(self, st, fs):
        st.ghost = (('F', frozenset(fs)),) + st.ghost[1:]

    def user(self, st):
        return st.ghost[1][1]

    def setuser(self, st, u):
        st.ghost = (st.ghost[0], ('U', u)) + st.ghost[2:]

    def tm(self, v, st=None):
        """value -> term"""
        k = v[0]
        if k == 't':
            return v[1]
        if k in ('i', 'c'):
            return v
        if k == 'adt':
            return ('adt', v[1], v[2]) + tuple(self.tm(x, st) for x in v[3])
        if k == 'clo':
            return ('clo', v[1]) + tuple(self.tm(x, st) for x in v[2])
        if k == 'fn':
            return ('fn', v[1])
        if k == 'ref' and st is not None:
            return self.tm(self.load(st, v[1], v[2]), st)
        if k == 'ir':
            return ANY
        if k in ('lit', 'v', '?'):
            return tuple(v[:1]) + tuple(self.tm(x, st) if isinstance(x, tuple) else x for x in v[1:])
        return ANY

    def atom(self, op, x, y):
        """-> (atom, polarity) or constant bool"""
        if op == 'Ne':
            a = self.atom('Eq', x, y)
            return (not a) if isinstance(a, bool) else (a[0], not a[1])
        if op == 'Gt':
            return self.atom('Lt', y, x)
        if op == 'Ge':
            a = self.atom('Lt', x, y)
            return (not a) if isinstance(a, bool) else (a[0], not a[1])
        if op == 'Le':
            a = self.atom('Lt', y, x)
            return (not a) if isinstance(a, bool) else (a[0], not a[1])
        if x == y and ANY != x and not has(x, ANY):
            return op == 'Eq'
        if x[0] == 'i' and y[0] == 'i':
            return x[1] == y[1] if op == 'Eq' else x[1] < y[1]
        if op == 'Eq' and x[0] == 'c' and y[0] == 'c':
            return x[1] == y[1]
        if op == 'Eq' and x[0] == 'adt' and y[0] == 'adt' and x[1] == y[1]:
            if x[2] != y[2]:
                return False
            if len(x) == len(y) == 3:
                return True
            if len(x) == len(y) == 4:
                return self.atom('Eq', x[3], y[3])
        if op == 'Eq':
            for p, q in ((x, y), (y, x)):
                if p[0] == 'adt' and p[1] == OPT and q[0] not in ('adt', 'any') and p[2] == 0:
                    self.nvar[('discr', q)] = 2
                    return self.atom('Eq', ('discr', q), ('i', 0))
        if op == 'Lt' and x == ('i', 0) and y[0] in ('len', 'idx'):
            return (('Eq', y, ('i', 0)), False)
        if op == 'Lt' and y == ('i', 0) and x[0] in ('len', 'idx'):
            return False
        if op == 'Lt' and y == ('i', 1) and x[0] in ('len', 'idx'):
            return (('Eq', x, ('i', 0)), True)
        if op == 'Eq' and (repr(x) > repr(y) and y[0] not in ('i', 'c') or x[0] in ('i', 'c')):
            x, y = y, x
        if op == 'Eq' and y[0] == 'i' and self.nvar.get(x) == 2 and y[1] in (0, 1):
            return (('Eq', x, ('i', 1)), y[1] == 1)
        return ((op, x, y), True)

    def know(self, st, at):
        fs = self.facts(st)
        if (at, True) in fs:
            return True
        if (at, False) in fs:
            return False
        if at[0] == 'Eq':
            x, y = at[1], at[2]
            if (('Lt', x, y), True) in fs or (('Lt', y, x), True) in fs:
                return False
            if y[0] in ('i', 'c'):
                for a, p in fs:
                    if p and a[0] == 'Eq' and a[1] == x and a[2][0] == y[0] and a[2] != y:
                        return False
            cx = eqclass(fs, x)
            cy = eqclass(fs, y)
            if cx is not None or cy is not None:
                cx, cy = cx or {x}, cy or {y}
                if cx & cy:
                    return True
                kx = [z for z in cx if z[0] in ('i', 'c')]
                ky = [z for z in cy if z[0] in ('i', 'c')]
                if kx and ky:
                    return kx[0] == ky[0]
                for a, p in fs:
                    if not p and a[0] == 'Eq' and (a[1] in cx and a[2] in cy or a[1] in cy and a[2] in cx):
                        return False
        elif at[0] == 'Lt':
            x, y = at[1], at[2]
            if (('Lt', y, x), True) in fs:
                return False
            for p, q in ((x, y), (y, x)):
                if (('Eq', p, q), True) in fs:
                    return False
        return None

    def assume(self, st, at, pol):
        if has(at, ANY) or (self.watch is not None and not self.watch(at)):
            return st
        if size(at) > 400:
            return st
        self.setfacts(st, self.facts(st) | {(at, pol)})
        return st

    def fork_atom(self, st, at):
        """[(state, TRUE/FALSE)]"""
        if isinstance(at, bool):
            return [(st, b(at))]
        a, pol = at
        k = self.know(st, a)
        if k is not None:
            return [(st, b(k == pol))]
        s2 = st.copy()
        return [(self.assume(st, a, pol), TRUE), (self.assume(s2, a, not pol), FALSE)]

    def holds(self, st, op, x, y):
        """True / False / None"""
        a = self.atom(op, x, y)
        if isinstance(a, bool):
            return a
        k = self.know(st, a[0])
        return None if k is None else k == a[1]

    def site(self, st, extra=None):
        p = tuple('%s:%d' % (f.fn.path, f.bb) for f in st.frames[-3:])
        return p + ((extra,) if extra is not None else ())

    def fresh(self, st, sym):
        """a new symbol: what was said about the previous one of that name is forgotten"""
        old = ('old',) + sym
        used = False
        for f in st.frames:
            for l, v in f.loc.items():
                if has(v, sym):
                    used = True
        fs = self.facts(st)
        gone = [x for x in fs if has(x[0], sym)]
        if used or has(st.ghost, sym):
            fs2 = set()
            for a, p in fs:
                if has(a, old):
                    continue
                fs2.add((subst(a, sym, old), p))
            for f in st.frames:
                for l, v in list(f.loc.items()):
                    if has(v, old):
                        v = subst(v, old, ANY)
                    f.loc[l] = subst(v, sym, old)
            st.ghost = tuple(st.ghost[:1]) + tuple(subst(subst(g, old, ANY), sym, old) for g in st.ghost[1:])
            self.setfacts(st, fs2)
        elif gone:
            self.setfacts(st, fs - frozenset(gone))
        return sym

    # ---- states -----------------------------------------------------------------------------
    def initial(self):
        if self.one is None:
            self.one = super().initial()
        return self.one

    def canon(self, st):
        frames = st.frames
        n = len(frames)
        work = []
        for i, f in enumerate(frames):
            if i == n - 1:
                lv = f.fn.live()[f.bb]
            else:
                nx = frames[i + 1]
                lv = set(f.fn.live()[nx.ret]) if nx.ret is not None else set()
                if nx.dst is not None:
                    if nx.dst[1]:
                        lv.add(nx.dst[0])
                    else:
                        lv.discard(nx.dst[0])
            work += [(i, l) for l in lv]
        seen = set(work)
        while work:
            i, l = work.pop()
            v = frames[i].loc.get(l)
            if v is None:
                continue
            for r in self.refs(v):
                if r not in seen and r[0] < n:
                    seen.add(r)
                    work.append(r)
        live = set()
        for i, f in enumerate(frames):
            for l in list(f.loc):
                if (i, l) not in seen and not (i == 0 and (0 < l <= f.fn.argc or l >= OBJ)):
                    del f.loc[l]
                else:
                    live |= bases(f.loc[l])
        if len(st.ghost) > 2 and st.ghost[2][1]:
            its = set()
            for f in frames:
                for v in f.loc.values():
                    its_in(v, its)
            st.ghost = st.ghost[:2] + (('L', tuple(x for x in st.ghost[2][1] if x[0] in its)),)
        live |= bases(st.ghost[1:])
        fs = self.facts(st)
        out = frozenset(x for x in fs if bases(x[0]) <= live or (self.keep and self.keep(x)))
        if len(out) != len(fs):
            self.setfacts(st, out)

    def coarsen(self, st):
        return st

    # ---- memory -----------------------------------------------------------------------------
    def project(self, st, v, e):
        if v[0] == 't':
            k = e[0]
            t = v[1]
            if t == ANY:
                return v
            if k == 'v':
                return T(('v', e[1], t))
            if k == 'f':
                if t[0] == 'set' and t[2] == e[1]:
                    return T(t[3])
                while t[0] == 'set':
                    t = t[1]
                if t[0] == 'adt' and e[1] + 3 < len(t):
                    return T(t[e[1] + 3])
                return T(('f', e[1], t))
            if k == 'i':
                return T(self.index_term(t, self.tm(e[1])))
            if k == 'ci':
                return T(('ci', t, e[1], bool(e[2])))
            if k == 'ss':
                return T(('ss', t, e[1], e[2], bool(e[3])))
            if k == 'vd':
                return v
            return T(ANY)
        if v[0] == 'adt' and e[0] == 'f' and e[1] < len(v[3]) and v[3][e[1]][0] == 'top':
            return T(ANY)
        r = super().project(st, v, e)
        return T(ANY) if r[0] in ('top', 'unk') else r

    def load(self, st, root, proj):
        v = st.frames[root[0]].loc.get(root[1])
        if v is None:
            v = T(ANY)
        for e in proj:
            v = self.project(st, v, e)
        return v

    def _upd(self, st, v, proj, val):
        if proj and v[0] == 't':
            e = proj[0]
            t = v[1]
            if e[0] == 'v':
                return self._upd(st, v, proj[1:], val)
            if e[0] == 'f' and t != ANY:
                cur = self.project(st, v, e)
                nv = self._upd(st, cur, proj[1:], val)
                base = t
                if base[0] == 'set' and base[2] == e[1]:
                    base = base[1]
                return T(('set', base, e[1], self.tm(nv, st)))
            return T(self.fresh(st, ('mut', self.site(st))))
        return super()._upd(st, v, proj, val)

    def rvalue(self, st, fi, v, dst=None):
        if v['r'] == 'use' or v['r'] == 'cast':
            val = self.operand(st, fi, v['a'])
            return [(st, T(ANY) if val[0] in ('top', 'unk') else val)]
        if v['r'] == 'discr':
            root, proj = self.resolve(st, fi, v['p'])
            val = self.load(st, root, proj)
            if val[0] == 't':
                d = ('discr', val[1])
                n = self.variants_of(st, fi, v['p'])
                if n:
                    self.nvar[d] = n
                return [(st, self.tidy(st, T(d)))]
        if v['r'] == 'un':
            x = self.operand(st, fi, v['a'])
            if x[0] == 't' and v['op'] == 'Not':
                return [(st, T(x[1][1]) if x[1][0] == 'not' else T(('not', x[1])))]
        out = super().rvalue(st, fi, v, dst)
        return [(s, T(ANY) if x[0] in ('top', 'unk') else x) for s, x in out]

    def variants_of(self, st, fi, place):
        fn = st.frames[fi].fn
        if fn.synthetic:
            return None
        ty = self.place_ty(fn, place)
        if ty is None or self.c.types[ty]['k'] != 'adt':
            return None
        p = self.c.types[ty]['path']
        if p.endswith(('option::Option', 'result::Result', 'ControlFlow')):
            return 2
        a = self.c.adts.get(p)
        return len(a['variants']) if a else None

    def tidy(self, st, v):
        if v[0] == 't' and size(v[1]) > 300:
            return T(self.fresh(st, ('mut', self.site(st, 'big'))))
        return v

    def sym_variants(self, st, v, name):
        """Option/Result of unknown variant, split"""
        out = []
        d = ('discr', v[1])
        self.nvar[d] = 2
        for s, r in self.fork_atom(st, self.atom('Eq', d, ('i', 1))):
            i = 1 if r == TRUE else 0
            pay = T(('f', 0, ('v', i, v[1]))) if v[1] != ANY else v
            out.append((s, ('adt', name, i, () if name == OPT and i == 0 else (pay,))))
        return out

    def compare(self, st, op, x, y, why=''):
        if x[0] == 't' or y[0] == 't':
            a, c = self.tm(x, st), self.tm(y, st)
            return self.fork_atom(st, self.atom(op, a, c))
        return super().compare(st, op, x, y, why)

    def binop(self, st, fi, op, x, y, v):
        if x[0] == 't' or y[0] == 't':
            if op in ('Lt', 'Le', 'Gt', 'Ge', 'Eq', 'Ne'):
                return self.compare(st, op, x, y)
            a, c = self.tm(x, st), self.tm(y, st)
            base = op.replace('WithOverflow', '').replace('Unchecked', '')
            for p, q in ((x, y), (y, x)):
                if base in ('BitAnd', 'BitOr') and p in (TRUE, FALSE):
                    if (base == 'BitAnd') == (p == FALSE):
                        return [(st, p)]
                    return [(st, q)]
            if base == 'Add' and a[0] == 'i':
                a, c = c, a
            if base in ('Add', 'Sub') and c == ('i', 0):
                r = x
            elif base in ('Add', 'Sub') and c[0] == 'i':
                k = c[1] if base == 'Add' else -c[1]
                if a[0] == 'op' and a[1] == 'Add' and a[3][0] == 'i':
                    a, k = a[2], k + a[3][1]
                if abs(k) > 3 and v:
                    r = T(self.fresh(st, ('mut', self.site(st, 'sum'))))
                else:
                    r = T(('op', 'Add', a, ('i', k))) if k else T(a)
            elif base in ('Add', 'Mul') and repr(a) > repr(c):
                r = T(('op', base, c, a))
            else:
                r = T(('op', base, a, c))
            if size(r[1]) > self.max_term or has(r[1], ANY):
                r = T(ANY)
            if 'WithOverflow' in op:
                return [(st, ('adt', '()', 0, (r, ('ovf', op))))]
            return [(st, r)]
        if x[0] == 'i' and y == ('i', 1) and op.startswith('Add') and x[1] >= 2:
            # a counter that starts from a constant
            r = T(self.fresh(st, ('mut', self.site(st, 'count'))))
            return [(st, ('adt', '()', 0, (r, ('ovf', op))) if 'WithOverflow' in op else r)]
        return super().binop(st, fi, op, x, y, v)

    def add(self, st, x, y, sub=False):
        if x[0] == 't' or y[0] == 't':
            return self.binop(st, len(st.frames) - 1, 'Sub' if sub else 'Add', x, y, {})[0][1]
        return super().add(st, x, y, sub)

    def switch(self, st, fi, t):
        v = self.operand(st, fi, t['d'])
        if v[0] != 't':
            return super().switch(st, fi, t)
        term = v[1]
        pol = True
        while term[0] == 'not':
            term, pol = term[1], not pol
        ts = [(int(a), bb) for a, bb in t['ts']]
        isbool = False
        if not st.frames[fi].fn.synthetic and 'dty' in t:
            isbool = self.c.types[t['dty']]['k'] == 'bool'
        out = []
        if isbool or not pol:
            a = ('B', term)
            for s, r in self.fork_atom(st, (a, pol)):
                n = 1 if r == TRUE else 0
                for q, bb in ts:
                    if q == n:
                        out.append(self.goto(s, bb))
                        break
                else:
                    if t.get('else') is not None:
                        out.append(self.goto(s, t['else']))
            return out
        cur = [st]
        for a, bb in ts:
            nxt = []
            for x in cur:
                for s, r in self.fork_atom(x, self.atom('Eq', term, ('i', a))):
                    if r == TRUE:
                        out.append(self.goto(s, bb))
                    else:
                        nxt.append(s)
            cur = nxt
        if t.get('else') is not None:
            n = self.nvar.get(term)
            for s in cur:
                if n and {a for a, _ in ts} >= set(range(n)):
                    continue
                out.append(self.goto(s, t['else']))
        return out

    def length(self, st, v):
        if v[0] == 't':
            return T(length_of(v[1])) if v[1] != ANY else v
        return super().length(st, v)

    def do_assert(self, st, fi, t):
        v = self.operand(st, fi, t['c'])
        if v[0] == 't':
            return [self.goto(st, t['to'])]
        return super().do_assert(st, fi, t)

    def refs_in(self, v, out):
        k = v[0]
        if k == 'ref':
            out.append(v)
        elif k == 'adt':
            for x in v[3]:
                self.refs_in(x, out)
        elif k == 'clo':
            for x in v[2]:
                self.refs_in(x, out)
        return out

    def push_call(self, st, fn, args, dst, to, t=None, tag=None):
        if not fn.synthetic and fn.kind != 'Closure':
            p = self.opaque(fn)
            if p:
                return self.call_opaque(st, fn, args, dst, to, t, p)
        if not fn.synthetic and (sum(1 for x in st.frames if x.fn is fn) > 0 or len(st.frames) > self.inline_depth):
            return self.call_opaque(st, fn, args, dst, to, t, 'havoc')
        if to is None:
            return []
        if not fn.synthetic:
            self.analysed.add(fn.path)
        st.frames.append(Frame(fn, 0, {i + 1: a for i, a in enumerate(args)}, dst, to, tag))
        return [st]

    def call_opaque(self, st, fn, args, dst, to, t, p):
        if to is None:
            return []
        return self.deliver(st, dst, to, self.pure(st, fn.path, args))

    def pure(self, st, name, args):
        """result of a call nothing is known about; &mut arguments are given new values"""
        refs = []
        for a in args:
            self.refs_in(a, refs)
        if refs:
            for i, r in enumerate(refs):
                self.store(st, r[1], r[2], T(self.fresh(st, ('mut', self.site(st, i)))))
            return T(self.fresh(st, ('new', self.site(st))))
        ts = [self.tm(a, st) for a in args]
        r = ('ap', models.short(name)) + tuple(ts)
        if any(has(x, ANY) for x in ts) or size(r) > 200 or depth(r) > 30:
            return T(self.fresh(st, ('new', self.site(st))))
        return T(r)

    def unknown(self, st, fi, t, args, name):
        self.unmodelled[name] = self.unmodelled.get(name, 0) + 1
        if t.get('to') is None:
            self.event('panic', st, what='call ' + name, sp=t.get('sp'), fn=st.frames[-1].fn.path)
            return []
        return self.deliver(st, t['dst'], t['to'], self.pure(st, name, args))

    def deliver(self, st, dst, ret, v):
        if v[0] in ('top', 'unk'):
            v = T(self.fresh(st, ('new', self.site(st))))
        return super().deliver(st, dst, ret, v)

    def invoke(self, st, clo, argvals, dst, to, t=None):
        if clo[0] == 't':
            return self.deliver(st, dst, to, self.pure(st, 'call', [clo] + list(argvals)))
        return super().invoke(st, clo, argvals, dst, to, t)

    # ---- entry ------------------------------------------------------------------------------
    def start(self, fn, args, facts=(), user=(), objs=()):
        """objs: objects behind &mut parameters; an argument ('obj', k) refers to the k-th"""
        args = [('ref', (0, OBJ + a[1]), ()) if a[0] == 'obj' else a for a in args]
        return self.run(fn, args, aut=self.initial(), ghost=(('F', frozenset(facts)), ('U', tuple(user))),
                        extra={OBJ + i: o for i, o in enumerate(objs)})

    def struct(self, path, name, known=None):
        """a struct value whose fields are parameters name.field"""
        a = self.c.adts[path]
        f = a['variants'][0]['f']
        known = known or {}
        return ('adt', path, 0, tuple(known.get(x[0], T(('p', name + '.' + x[0]))) for x in f))

    def field(self, path, fname):
        for i, x in enumerate(self.c.adts[path]['variants'][0]['f']):
            if x[0] == fname:
                return i
        return None


# ---- models of calls on symbolic values ----------------------------------------------------------
def src_item(m, st, src, first):
    """(value of the next element of `src`)"""
    k = src[0]
    if k == 'enum':
        if first and not m.coarse:
            ix = ('i', 0)
        else:
            s = m.fresh(st, ('idx', src[1]))
            if not m.coarse:
                m.assume(st, ('Eq', s, ('i', 0)), False)
            ix = T(s)
        return ('adt', '()', 0, (ix, src_item(m, st, src[1], first)))
    if k in ('rev', 'skip', 'take', 'filter', 'skip_while', 'take_while'):
        return src_item(m, st, src[1], first)
    if k == 'zip':
        return ('adt', '()', 0, (src_item(m, st, src[1], first), src_item(m, st, src[2], first)))
    if k == 'range':
        s = m.fresh(st, ('el', src))
        return T(s)
    if src == ANY:
        return T(ANY)
    return T(m.fresh(st, ('el', src)))


def elems(src, out):
    if src[0] in ('enum', 'rev', 'skip', 'take'):
        elems(src[1], out)
    elif src[0] == 'zip':
        elems(src[1], out)
        elems(src[2], out)
    else:
        out.append(('el', src))
    return out


def loops(st):
    return st.ghost[2][1] if len(st.ghost) > 2 else ()


def setloops(st, ls):
    st.ghost = st.ghost[:2] + (('L', tuple(ls)),)


def grown(m, st, v):
    """value of a vector after a push, if it takes one element in every iteration of the innermost loop"""
    ls = loops(st)
    if not ls or v[0] != 't':
        return None
    src, first = ls[-1]
    x = v[1]
    if x[0] == 'grow':
        return ('grow', src, 1, x[3]) if x[1] == src and x[2] == 0 else None
    if first and m.know(st, ('Eq', ('len', x), ('i', 0))):
        return ('grow', src, 1, x)
    return None


def regrow(m, st, src, flag):
    """the loop over src starts its next iteration (flag 0) or ends (flag 2)"""
    bad = set()

    def f(t):
        if not isinstance(t, (tuple, frozenset)) or not t:
            return t
        if isinstance(t, frozenset):
            return frozenset(f(x) for x in t)
        if t[0] == 'grow' and t[1] == src and t[2] < 2:
            if t[2] == 1:
                return ('grow', src, flag, t[3])
            return ('mut', ('grow', t[3]))
        return tuple(f(x) for x in t)
    for fr in st.frames:
        for l, v in list(fr.loc.items()):
            if has_grow(v):
                fr.loc[l] = f(v)
    fs = m.facts(st)
    if any(has_grow(x[0]) for x in fs):
        m.setfacts(st, frozenset(x for x in fs if not has_grow_src(x[0], src)))


def its_in(v, out):
    k = v[0]
    if k == 'adt':
        if v[1] == 'It.sym':
            out.add(v[3][0][1])
            return
        for x in v[3]:
            its_in(x, out)
    elif k == 'clo':
        for x in v[2]:
            its_in(x, out)


@lru_cache(None)
def has_grow(t):
    if isinstance(t, (tuple, frozenset)):
        return (bool(t) and isinstance(t, tuple) and t[0] == 'grow') or any(has_grow(x) for x in t if isinstance(x, (tuple, frozenset)))
    return False


@lru_cache(None)
def has_grow_src(t, src):
    if isinstance(t, (tuple, frozenset)):
        if t and isinstance(t, tuple) and t[0] == 'grow' and t[1] == src and t[2] < 2:
            return True
        return any(has_grow_src(x, src) for x in t if isinstance(x, (tuple, frozenset)))
    return False


def sym_next(m, st, ref, v, t, fi):
    """next() on It.sym(src, hist)"""
    src, hist = v[3][0][1], v[3][1][1]
    ls = [x for x in loops(st)]
    while hist != ('hist',) and hist != ('hist', 'end') and ls and ls[-1][0] != src and any(x[0] == src for x in ls):
        ls.pop()
    if ls and ls[-1][0] == src:
        ls.pop()
    setloops(st, ls)
    es = elems(src, [])
    fs = m.facts(st)
    first = hist == ('hist',)
    if not first:
        cur = m.hist(frozenset(x for x in fs if any(has(x[0], e) for e in es)), es)
        old = hist[2] if hist[1] == 'n' else frozenset()
        h2 = ('hist', 'n', old | {cur})
        if len(h2[2]) > 40:
            h2 = ('hist', 'n', frozenset([frozenset()]))
    else:
        h2 = ('hist', 'f', frozenset())
    out = []
    m.on_iter(st, src, 'first' if first else 'more')
    end = st.copy()
    base = elems(src, [])[0][1] if es else src
    ln = length_of(src)
    if first:
        # no element at all: the collection is empty (if the adapters keep every element)
        ok = True
        if keeps_all(src):
            a = m.atom('Eq', ln, ('i', 0))
            if isinstance(a, bool):
                ok = a
            else:
                k = m.know(end, a[0])
                if k is not None and k != a[1]:
                    ok = False
                elif k is None:
                    m.assume(end, a[0], a[1])
                k = m.know(st, a[0])
                if k is not None and k == a[1]:
                    st = None
                elif k is None:
                    m.assume(st, a[0], not a[1])
        if not ok:
            end = None
    if end is not None:
        if not first:
            fact = ('all', src, h2[2])
            if m.watch is None or m.watch(fact):
                m.setfacts(end, m.facts(end) | {(fact, True)})
        m.on_iter(end, src, 'end')
        regrow(m, end, src, 2)
        m.store(end, ref[1], ref[2], ('adt', 'It.sym', 0, (T(src), T(('hist', 'end')))))
        out.append((end, ('adt', OPT, 0, ())))
    if st is not None:
        # an iterator that was run to its end only gives None
        if hist == ('hist', 'end'):
            return m.results(fi, t, out)
        if not first:
            regrow(m, st, src, 0)
        setloops(st, ls[-3:] + [(src, first)])
        item = src_item(m, st, src, first)
        m.store(st, ref[1], ref[2], ('adt', 'It.sym', 0, (T(src), T(h2))))
        out.append((st, ('adt', OPT, 1, (item,))))
    return m.results(fi, t, out)


def keeps_all(src):
    while src[0] in ('enum', 'rev'):
        src = src[1]
    if src[0] == 'range' and src[1] == ('i', 0):
        return True
    return src[0] not in ('skip', 'take', 'zip', 'filter', 'range', 'skip_while', 'take_while')


def sym_iter(term):
    return ('adt', 'It.sym', 0, (T(term), T(('hist',))))


def textual(m, g):
    """a conversion between kinds of text"""
    i = re.sub("&('[a-z_]+ )?(mut )?", '', g.get('inst') or '')
    i = re.sub(r"\b(std|alloc|core)(::[a-z_]+)*::", '', i).replace("<'_, str>", '')
    x = re.match(r'<(String|Box<str>|Cow|Rc<str>|Arc<str>) as From<(str|String|Cow|Box<str>)>>', i)
    if x or not g.get('decl', '').endswith('Into::into'):
        return bool(x)
    ts = [re.sub("&('[a-z_]+ )?", '', m.c.types[a].get('s', '')).split('::')[-1] for a in g.get('args', [])]
    return len(ts) == 2 and all(t.rstrip('>') in ('str', 'String', 'Box<str', "Cow<'_, str") for t in ts)


def local_from(m, g):
    """the From implementation of this crate that an Into::into call runs"""
    if not g.get('decl', '').endswith('Into::into'):
        return None
    ts = [m.c.types[a].get('s', '') for a in g.get('args', []) if isinstance(a, int)]
    if len(ts) != 2:
        return None
    a, b = re.escape(ts[0]), re.escape(ts[1])
    want = re.compile(r'^([\w:]+::)?<(%s as (std|core)::convert::From<%s>|impl (std|core)::convert::From<%s> for %s)>::from$' % (b, a, a, b))
    for f in m.c.fnlist:
        if f.name == 'from' and want.match(f.path):
            return f
    return None


def as_iter(v):
    if v[0] == 't':
        return sym_iter(v[1])
    return None


def text_of(m, st, v):
    """atoms of a text value"""
    v = models.val_of(m, st, v)
    if v[0] == 'c':
        return [('lit', v[1])] if v[1] else []
    if v[0] == 'adt' and v[1] == 'Text':
        return list(v[3])
    if v[0] == 'i':
        return [('num', v)]
    return [('v', v)]


def join_lits(atoms):
    out = []
    for a in atoms:
        if a[0] == 'lit' and out and out[-1][0] == 'lit':
            out[-1] = ('lit', out[-1][1] + a[1])
        else:
            out.append(a)
    return out


def mk_text(m, st, atoms):
    atoms = join_lits(atoms)
    if m.notext and atoms:
        return T(ANY)
    if len(atoms) > 14 or any(len(a[1]) > 60 for a in atoms if a[0] == 'lit'):
        return T(m.fresh(st, ('mut', m.site(st, 'text'))))
    if all(a[0] == 'lit' for a in atoms):
        return ('c', ''.join(a[1] for a in atoms))
    if len(atoms) == 1 and atoms[0][0] == 'v':
        return atoms[0][1]
    return ('adt', 'Text', 0, tuple(atoms))


def spaces_taken(x):
    """an iterator of n spaces, as text"""
    if x[:2] == ('adt', 'It.sym') and x[4:] == (('hist',),):
        x = x[3]
    if x[0] == 'take' and x[1] == ('ap', 'iter::repeat', ('i', 32)):
        return ('ap', 'str::repeat', ('c', ' '), x[2])
    if x[:2] == ('ap', 'iter::repeat_n') and x[2] == ('i', 32):
        return ('ap', 'str::repeat', ('c', ' '), x[3])
    return None


def char_atoms(m, st, v):
    v = models.val_of(m, st, v)
    if v[0] == 'i':
        return [('lit', chr(v[1]))]
    return [('v', v)]


def fmt_atoms(m, st, v):
    """atoms of a fmt::Arguments value, or None"""
    at = emit.of_arguments(m, st, v)
    out = []
    for a in at:
        if a[0] == '?':
            if a[1] == 'format options' or (isinstance(a[1], tuple) and a[1][0] == 'adt' and a[1][1].startswith('fmt.')):
                return None
            if isinstance(a[1], tuple):
                out += text_of(m, st, a[1])
            else:
                return None
        else:
            out.append(a)
    return out


def sym_hook(m, st, fi, t, g, args):
    if g is None:
        return None
    name = models.short(g['decl'])
    own, meth = name.split('::') if '::' in name else ('', name)
    A = args
    one = lambda v: m.results(fi, t, [(st, v)])
    if name == 'syn::yield':
        v = A[0]
        site = A[1][1]
        m.bodies.setdefault(site, set()).add((v, m.facts(st)))
        return one(UNIT)
    if t.get('to') is None:
        return None
    v0 = models.val_of(m, st, A[0]) if A else None
    if name == 'syn::next' or (own in ('Iterator', 'DoubleEndedIterator') and meth in ('next', 'next_back')):
        r = A[0]
        n = 0
        while r[0] == 'ref' and n < 6:
            x = m.load(st, r[1], r[2])
            if x[0] == 'adt' and x[1] == 'It.sym':
                return sym_next(m, st, r, x, t, fi)
            if x[0] == 't':
                m.store(st, r[1], r[2], sym_iter(x[1]))
                return sym_next(m, st, r, sym_iter(x[1]), t, fi)
            if x[0] == 'adt' and (x[1].endswith('ops::Range') or x[1] == 'It.range') and any(y[0] == 't' for y in x[3][:2]):
                it = sym_iter(('range', m.tm(x[3][0], st), m.tm(x[3][1], st)))
                m.store(st, r[1], r[2], it)
                return sym_next(m, st, r, it, t, fi)
            if x[0] != 'ref':
                break
            r = x
            n += 1
        return None
    lf = m.callee_fn(g)
    if lf is not None:
        return None
    issym = v0 is not None and v0[0] == 't'
    isit = v0 is not None and v0[0] == 'adt' and v0[1] == 'It.sym'
    if own == 'Option' and meth in ('as_mut', 'get_or_insert_with', 'get_or_insert', 'insert') and A[0][0] == 'ref':
        r = final_ref(m, st, A[0])
        x = m.load(st, r[1], r[2])
        if x[0] != 't' and not (x[0] == 'adt' and x[1] == models.OPT):
            return None
        out = []
        for s, o in (m.sym_variants(st, x, models.OPT) if x[0] == 't' else [(st, x)]):
            if meth == 'insert' or o[2] == 0 and meth != 'as_mut':
                o = ('adt', models.OPT, 1, (A[1] if meth != 'get_or_insert_with' else T(m.fresh(s, ('new', m.site(s)))),))
            m.store(s, r[1], r[2], o)
            p = ('ref', r[1], r[2] + models.SOME0)
            out.append((s, p if meth != 'as_mut' else ('adt', models.OPT, o[2], (p,) if o[2] else ())))
        return m.results(fi, t, out)
    if issym and A[0][0] == 'ref' and name in ('DerefMut::deref_mut', 'Vec::as_mut_slice', 'AsMut::as_mut', 'BorrowMut::borrow_mut'):
        return one(final_ref(m, st, A[0]))
    # ---- iteration
    if issym and meth in ITER_ID and own in ('slice', 'Vec', 'IntoIterator', 'Iterator', 'Map', 'Option', 'HashMap',
                                             'BTreeMap', 'Index', 'Entries'):
        if own == 'Option' or meth in ('as_slice', 'to_vec', 'into_vec', 'as_mut_slice', 'to_owned', 'as_mut',
                                       'into_boxed_slice'):
            return one(v0) if not (own == 'Option' and meth in ('as_mut', 'iter', 'into_iter')) else None
        return one(sym_iter(v0[1]))
    if issym and meth in SRC and own in ('str', 'Map', 'slice', 'Vec', 'HashMap', 'BTreeMap', 'String'):
        if A[0][0] == 'ref' and meth == 'drain':
            return None
        return one(sym_iter(('ap', meth) + tuple(m.tm(a, st) for a in A)))
    if own in ('Iterator', 'DoubleEndedIterator', 'ExactSizeIterator', 'IntoIterator'):
        itv = v0 if isit else (as_iter(v0) if issym else None)
        if itv is not None:
            src, hist = itv[3][0][1], itv[3][1][1]
            plainh = hist == ('hist',)
            if meth in ('into_iter', 'by_ref'):
                return one(A[0] if A[0][0] == 'ref' else itv)
            if meth in ('copied', 'cloned', 'fuse'):
                return one(itv)
            if plainh and meth == 'enumerate':
                return one(sym_iter(('enum', src)))
            if plainh and meth == 'rev':
                return one(sym_iter(('rev', src)))
            if plainh and meth in ('skip', 'take', 'step_by'):
                if meth == 'skip' and A[1] == ('i', 0):
                    return one(itv)
                return one(sym_iter((meth if meth != 'step_by' else 'skip', src, m.tm(A[1], st))))
            if plainh and meth == 'zip':
                o = models.val_of(m, st, A[1])
                if o[0] == 't':
                    return one(sym_iter(('zip', src, o[1])))
                if o[0] == 'adt' and o[1] == 'It.sym':
                    return one(sym_iter(('zip', src, o[3][0][1])))
                return None
            if meth == 'len' and plainh:
                return one(T(length_of(src)))
            if meth in ('map', 'filter', 'take_while', 'peekable'):
                kind = {'map': 'map', 'filter': 'filter', 'take_while': 'takewhile'}.get(meth)
                if kind:
                    return one(models.it(kind, itv if A[0][0] != 'ref' else itv, A[1]))
                return one(models.it('peekable', itv, ('adt', OPT, 0, ())))
        if meth in ('collect', 'count'):
            x = v0
            keep = True
            maps = 0
            n = 0
            while x[0] == 'adt' and x[1] in ('It.map', 'It.enum', 'It.filter', 'It.takewhile', 'It.take', 'It.peekable') and n < 6:
                if x[1] in ('It.map', 'It.enum'):
                    maps += 1
                else:
                    keep = False
                x = x[3][0]
                n += 1
            src = None
            if x[0] == 'adt' and x[1] == 'It.sym' and x[3][1][1] == ('hist',):
                src = x[3][0][1]
            elif x[0] == 't':
                src = x[1]
            if src is not None:
                if not maps and keep:
                    r = T(src) if meth == 'collect' else T(length_of(src))
                    if meth == 'collect' and src[0] in ('ap',) and src[1] == 'chars':
                        r = T(('ap', 'collect', src))
                    return one(r)
                site = m.site(st)
                if meth == 'count':
                    r = T(length_of(src)) if keep else T(('len', ('sub', src, site)))
                elif keep:
                    r = T(('map', src, site))
                else:
                    r = T(('sub', src, site))
                root = A[0] if A[0][0] == 'ref' else v0
                return m.push_call(st, COLLECT, [root, r, T(site)], t['dst'], t['to'], t)
    if issym and own == 'Value' and meth in VALUE_IS:
        return m.results(fi, t, m.fork_atom(st, m.atom('Eq', ('discr', m.tm(v0, st)), ('i', VALUE_IS[meth]))))
    # ---- sizes, tests
    if issym and meth == 'len' and own in ('str', 'slice', 'Vec', 'String', 'Map', 'HashMap', 'BTreeMap'):
        return one(m.length(st, v0))
    if meth == 'is_empty' and v0 is not None:
        if issym:
            return m.results(fi, t, m.fork_atom(st, m.atom('Eq', length_of(v0[1]), ('i', 0))))
        if v0[0] == 'adt' and v0[1] == 'Text':
            if any(a[0] == 'lit' or a[0] == 'num' for a in v0[3]):
                return one(FALSE)
    if own == 'PartialEq' and meth in ('eq', 'ne'):
        v1 = models.val_of(m, st, A[1])
        if issym or v1[0] == 't' or (v0[0] == 'adt' and v1[0] == 'adt' and v0[1] == v1[1] and v0[1] != 'Text'):
            a, c = m.tm(v0, st), m.tm(v1, st)
            return m.results(fi, t, m.fork_atom(st, m.atom('Eq' if meth == 'eq' else 'Ne', a, c)))
    if own == 'PartialOrd' and meth in ('lt', 'le', 'gt', 'ge'):
        v1 = models.val_of(m, st, A[1])
        if issym or v1[0] == 't':
            return m.results(fi, t, m.compare(st, meth.capitalize(), v0, v1))
    # ---- building collections
    if name in ('Vec::new', 'Vec::with_capacity', 'Map::new', 'BTreeMap::new', 'HashMap::new', 'Map::with_capacity') or \
            (own == 'Default' and 'String' not in (g.get('inst') or '') and 'str' not in (g.get('inst') or '')):
        s = m.fresh(st, ('new', m.site(st)))
        if own != 'Default':
            m.assume(st, ('Eq', ('len', s), ('i', 0)), True)
        return one(T(s))
    if name in ('String::new', 'String::with_capacity') or (own == 'Default' and 'String' in (g.get('inst') or '')):
        return one(('c', ''))
    if name in ('Vec::push', 'Map::insert') and A[0][0] == 'ref':
        m.on_push(st, t, A[0], v0, A[1:])
        r = final_ref(m, st, A[0])
        if name == 'Vec::push':
            g2 = grown(m, st, m.load(st, r[1], r[2]))
            if g2 is not None:
                m.store(st, r[1], r[2], T(g2))
                return one(UNIT)
        s = m.fresh(st, ('mut', ('push', st.frames[r[1][0]].fn.path if r[1][0] < len(st.frames) else '', r[1], r[2])))
        m.store(st, r[1], r[2], T(s))
        if name == 'Vec::push':
            m.assume(st, ('Eq', ('len', s), ('i', 0)), False)
        return one(UNIT)
    if own in ('Vec', 'slice') and meth in REORDER and A[0][0] == 'ref' and v0[0] == 't':
        r = final_ref(m, st, A[0])
        m.store(st, r[1], r[2], T(('ap', 'sorted' if meth.startswith('sort') else meth, v0[1])))
        return one(UNIT)
    # ---- text
    if name in TOLERANT:
        at = fmt_atoms(m, st, A[0])
        if at is not None:
            return one(mk_text(m, st, at))
        return one(T(m.fresh(st, ('new', m.site(st)))))
    if name in ('String::push', 'String::push_str', 'Write::write_str', 'Write::write_char', 'Write::write_fmt',
                'AddAssign::add_assign') and A[0][0] == 'ref':
        if name == 'Write::write_fmt':
            at = fmt_atoms(m, st, A[1])
            if at is None:
                at = [('v', T(ANY))]
        elif name in ('String::push', 'Write::write_char'):
            at = char_atoms(m, st, A[1])
        else:
            at = text_of(m, st, A[1])
        if name == 'AddAssign::add_assign' and v0[0] == 'i':
            return None
        r = final_ref(m, st, A[0])
        res = UNIT if not name.startswith('Write') else ('adt', 'Result', 0, (UNIT,))
        if m.on_text(st, t, r, v0, at):
            return one(res)
        if v0[0] in ('c', 't') or (v0[0] == 'adt' and v0[1] == 'Text'):
            m.store(st, r[1], r[2], mk_text(m, st, text_of(m, st, v0) + at))
        return one(res)
    if name == 'Add::add' and 'String' in (g.get('inst') or ''):
        return one(mk_text(m, st, text_of(m, st, A[0]) + text_of(m, st, A[1])))
    if name == 'Extend::extend' and 'String' in (g.get('inst') or '') and A[0][0] == 'ref' and v0[0] != 'i':
        x = models.val_of(m, st, A[1])
        if x[0] == 'adt' and x[1] == '[]':
            at = [b for y in x[3] for b in (char_atoms if models.val_of(m, st, y)[0] == 'i' else text_of)(m, st, y)]
        else:
            x = m.tm(x, st)
            at = [('v', T(spaces_taken(x) or ANY))]
        r = final_ref(m, st, A[0])
        if m.on_text(st, t, r, v0, at):
            return one(UNIT)
        if v0[0] in ('c', 't') or (v0[0] == 'adt' and v0[1] == 'Text'):
            m.store(st, r[1], r[2], mk_text(m, st, text_of(m, st, v0) + at))
        return one(UNIT)
    if name in ('slice::join', 'slice::concat', 'Join::join', 'Concat::concat') and v0 is not None and v0[0] == 'adt' \
            and v0[1] == '[]' and v0[3] and \
            g.get('args') and m.c.types[g['args'][0]].get('s', '').split('::')[-1].lstrip('&') in ('str', 'String'):
        sep = text_of(m, st, A[1]) if len(A) > 1 else []
        at = []
        for i, x in enumerate(v0[3]):
            at += (sep if i else []) + text_of(m, st, x)
        return one(mk_text(m, st, at))
    if name in ('slice::join', 'slice::concat', 'Join::join', 'Concat::concat') and issym:
        sep = text_of(m, st, A[1]) if len(A) > 1 else []
        return one(('adt', 'Text', 0, (('join', v0, tuple(sep)),)))
    # ---- identity
    if issym and name in models.IDENT:
        if name == 'From::from' or name == 'Into::into':
            f = local_from(m, g)
            if f is not None and t.get('to') is not None:
                return m.push_call(st, f, args, t['dst'], t['to'], t)
            return one(v0) if textual(m, g) else m.unknown(st, fi, t, A, g['decl'])
        return one(v0)
    if v0 is not None and v0[0] == 'adt' and v0[1] == 'Text' and (name in models.IDENT or name in ('From::from', 'Into::into')):
        return one(v0)
    if issym and name in ('bool::then', 'bool::then_some'):
        out = []
        for s, r in m.fork_atom(st, (('B', v0[1]), True)):
            if name == 'bool::then_some':
                out += m.results(fi, t, [(s, models.opt_pair(A[1] if r == TRUE else None))])
            elif r == TRUE:
                out += m.push_call(s, models.S['bool_then'], [TRUE, A[1]], t['dst'], t['to'], t)
            else:
                out += m.results(fi, t, [(s, models.opt_pair(None))])
        return out
    if own in ('usize', 'u64', 'u32', 'isize') and meth in ('saturating_add', 'wrapping_add', 'saturating_sub') and \
            (issym or A[1][0] == 't'):
        return one(m.add(st, v0, models.val_of(m, st, A[1]), meth.endswith('sub')))
    if own == 'Ord' and meth in ('min', 'max') and (issym or A[1][0] == 't'):
        return None if False else one(T(('ap', meth, m.tm(v0, st), m.tm(A[1], st))))
    if own in ('u8', 'char') and issym:
        return one(T(('ap', name) + tuple(m.tm(a, st) for a in A)))
    # models that would answer with an anonymous unknown for a symbolic argument
    if own in ('String', 'Vec', 'str', 'slice', 'Index', 'IndexMut') and issym:
        if own.startswith('Index') and meth == 'index':
            ix = models.val_of(m, st, A[1])
            if ix[0] != 'adt':
                return one(T(m.index_term(v0[1], m.tm(ix, st))))
        return m.unknown(st, fi, t, A, g['decl'])
    return None


def final_ref(m, st, r):
    n = 0
    while n < 6:
        x = m.load(st, r[1], r[2])
        if x[0] != 'ref':
            return r
        r = x
        n += 1
    return r


def _on_push(self, st, t, ref, old, vals):
    pass


def _on_text(self, st, t, ref, old, atoms):
    return False


VALUE_IS = {'is_null': 0, 'is_boolean': 1, 'is_number': 2, 'is_string': 3, 'is_array': 4, 'is_object': 5}


def _hist(self, facts, es):
    """what is remembered of a finished iteration"""
    return facts if self.history else frozenset()


Shape.hist = _hist


def _on_iter(self, st, src, phase):
    pass


Shape.on_iter = _on_iter
Shape.on_push = _on_push
Shape.on_text = _on_text

COLLECT = models.SynFn('collect2', 3, [
    models.blk([models.asg(4, models.mref(1))], models.goto(1)),
    models.blk([], models.callk(models.NEXT, [models.cp(4)], 5, 2)),
    models.blk([models.asg(6, models.discr(5))], models.sw(6, [(0, 3)], 4)),
    models.blk([models.asg(0, models.use(models.cp(2)))], models.ret()),
    models.blk([models.asg(7, models.use(models.cp(5, *models.SOME0)))],
               models.callk('syn::yield', [models.cp(7), models.cp(3)], 8, 1)),
])

_nv = models.need_variants


def need_variants(m, st, v, name, n=2):
    if isinstance(m, Shape) and v[0] in ('t', 'top', 'unk'):
        return m.sym_variants(st, v if v[0] == 't' else T(ANY), name)
    return _nv(m, st, v, name, n)


models.need_variants = need_variants


def show(t, lim=300):
    """readable term"""
    def f(t):
        if not isinstance(t, tuple) or not t:
            return repr(t)
        k = t[0]
        if k == 'p':
            return t[1]
        if k == 'i' or k == 'c':
            return repr(t[1])
        if k == 'f':
            return '%s.%s' % (f(t[2]), t[1])
        if k == 'v':
            return f(t[1]) if len(t) < 3 else '%s@%s' % (f(t[2]), t[1])
        if k in ('len', 'discr', 'el', 'idx', 'enum', 'rev'):
            return '%s(%s)' % (k, f(t[1]))
        if k == 'map':
            return 'map(%s)' % f(t[1])
        if k == 'ap':
            return '%s(%s)' % (t[1], ', '.join(f(x) for x in t[2:]))
        if k in ('new', 'mut', 'old'):
            return '%s<%s>' % (k, str(t[-1][-1] if isinstance(t[-1], tuple) else t[-1]).split('::')[-1])
        if k == 'adt':
            return '%s#%s(%s)' % (str(t[1]).split('::')[-1], t[2], ', '.join(f(x) for x in t[3:]))
        if k == 'op':
            return '(%s %s %s)' % (f(t[2]), t[1], f(t[3]))
        if k == 't':
            return f(t[1])
        return '%s(%s)' % (k, ', '.join(f(x) for x in t[1:]))
    r = f(t)
    return r if len(r) < lim else r[:lim] + '..'


def show_facts(fs):
    return sorted('%s%s' % ('' if p else '!', '%s(%s)' % (a[0], ', '.join(show(x) for x in a[1:] if isinstance(x, tuple))))
                  for a, p in fs)
