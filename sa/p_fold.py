"""Key folding: a dotted key stands for the chain of single-key objects it names."""
import os, time
import absint, shape, ir, models, lang, specs, words
from shape import T, ANY, has
import p_api
from p_api import Api, CFGS, truth
from p_ser import Wrong, Vague
import p_expand
from p_expand import certain, known, bare, is_text, kinds, tystr, callees, same, has_old

VAL0, VAL = ('p', 'val0'), ('p', 'val')      # the value of the field; the value reached so far
OBJECT = 5
KEY = ('p', 'key')


def pay(x):
    return ('f', 0, ('v', OBJECT, x))


def f_(i, x):
    return ('f', i, x)


class Fold(Api):
    def __init__(self, crate, root, roles, budget=60000):
        super().__init__(crate, root, (), (), budget)
        self.roles = roles
        self.symidx = True
        self.keep = lambda x: not has_old(x[0]) and not has(x[0], ANY)

    def policy(self, fn):
        if fn.name == 'clone' and 'Clone' in fn.path:
            return 'same'
        r = self.roles.get(fn.path)
        return None if r is None or fn is self.root else 'step:' + r

    def call_opaque(self, st, fn, args, dst, to, t, p):
        if p == 'same':
            return self.deliver(st, dst, to, T(self.tm(args[0], st)))
        if p == 'step:odd':
            return self.deliver(st, dst, to, T(('ap', 'odd', self.tm(args[0], st))))
        return super().call_opaque(st, fn, args, dst, to, t, p)

    def segs(self, x):
        """the value the keys lead to"""
        if x[0] == 'to':
            return x[1]
        if x == ('adt', '[]', 0, KEY):
            return VAL0
        return None

    def call(self, st, fi, t):
        g = ir.callee(t['f'])
        if g is not None and t.get('to') is not None:
            n = models.short(g['decl'])
            last = n.split('::')[-1]
            if last == 'box_assume_init_into_vec_unsafe' and self.get(st, 'boxed'):
                x = self.get(st, 'boxed')
                self.mark(st, 'boxed', False)
                return self.deliver(st, t['dst'], t['to'], T(x))
            if n == 'Vec::push':
                a = [self.operand(st, fi, x) for x in t['args']]
                if a[0][0] == 'ref':
                    r = shape.final_ref(self, st, a[0])
                    old = self.tm(self.load(st, r[1], r[2]), st)
                    new = self.pushed(st, old, self.tm(a[1], st))
                    if new is not None:
                        self.store(st, r[1], r[2], T(new))
                        return self.deliver(st, t['dst'], t['to'], absint.UNIT)
            if last == 'new_uninit':
                return self.deliver(st, t['dst'], t['to'], T(('p', 'box')))
            if last == 'last' and len(t['args']) == 1:
                x = self.tm(models.val_of(self, st, self.operand(st, fi, t['args'][0])), st)
                if x[0] == 'to':
                    return self.deliver(st, t['dst'], t['to'], ('adt', 'Option', 1, (T(('ix', x, ('op', 'Add', ('len', x), ('i', -1)))),)))
            if last in ('join', 'contains') and len(t['args']) == 2:
                a = [self.tm(models.val_of(self, st, self.operand(st, fi, x)), st) for x in t['args']]
                return self.deliver(st, t['dst'], t['to'], T(('ap', last) + tuple(a)))
            if n.replace('serde_json::', '').split('::')[0].startswith('Map') and last == 'get':
                a = [self.tm(models.val_of(self, st, self.operand(st, fi, x)), st) for x in t['args']]
                x = self.entry(st, a[0], a[1])
                if x is not None:                  # it is there
                    if x[0] == 'walk':
                        self.assume(st, ('Eq', ('discr', x), ('i', OBJECT)), True)
                    return self.deliver(st, t['dst'], t['to'], ('adt', 'Option', 1, (T(x),)))
            if n.split('::')[0] in ('slice', 'Vec') and last == 'len':
                v = models.val_of(self, st, self.operand(st, fi, t['args'][0]))
                x = self.tm(v, st)
                if x[:2] == ('adt', '[]'):
                    return self.deliver(st, t['dst'], t['to'], ('i', len(x) - 3))
                if x[0] == 'to':
                    self.assume(st, ('Lt', ('len', x), ('i', 2)), False)
                    return self.deliver(st, t['dst'], t['to'], T(('len', x)))
        return super().call(st, fi, t)

    def entry(self, st, obj, key):
        """the value under a key, when the walk follows the keys collected"""
        src = None
        if key[0] == 'el':
            src = next((e[1] for e in self.evs(st) if e[0] == 'walked' and key[1] in (e[1], walked(e[1]))), None)
            if src is None or obj not in (pay(VAL0), pay(('walk', src))):
                return None
            return ('walk', src)
        if key[0] == 'ix' and self.segs(key[1]) is not None and key[1][0] == 'to' and \
                key[2] in (('op', 'Sub', ('len', key[1]), ('i', 1)), ('op', 'Add', ('len', key[1]), ('i', -1))):
            for e in self.evs(st):
                if e[0] == 'walked' and walked(e[1]) == key[1] and obj == (pay(('walk', e[1])) if e[2] else pay(VAL0)):
                    return self.segs(key[1])
        return None

    def on_iter(self, st, src, phase):
        if walked(src) is not None and phase in ('first', 'more'):
            ev = [e for e in self.evs(st) if e[:2] != ('walked', src)]
            self.mark(st, 'ev', tuple(ev) + (('walked', src, phase == 'more'),))

    def pushed(self, st, old, w):
        if not self.know(st, ('Eq', ('len', old), ('i', 0))) is True and self.segs(old) is None:
            return None
        if self.segs(old) is None:
            return ('adt', '[]', 0, w)            # the first key
        v = self.segs(old)
        if w != f_(0, ('el', pay(v))):
            return None
        if self.know(st, ('Eq', ('len', pay(v)), ('i', 1))) is not True:
            self.mark(st, 'multi')
        if ident(self, st, w) is not True:
            self.mark(st, 'odd')
        new = ('to', f_(1, ('el', pay(v))))
        m = self.limit(st)
        if m is not None and self.below(st, old, m):
            self.assume(st, ('Lt', m, ('len', new)), False)
        return new

    def limit(self, st):
        for a, p in self.facts(st):
            if a[0] == 'Lt':
                for x in a[1:]:
                    if has(x, ('p', 'opts.flatten_depth')):
                        return x
        return None

    def below(self, st, s, m):
        """fewer keys than the limit"""
        if s[0] == 'to':
            return self.know(st, ('Lt', ('len', s), m)) is True
        return any(self.know(st, ('Lt', m, ('i', k))) is False for k in (2,)) or self.know(st, ('Lt', ('i', 1), m)) is True

    def on_write(self, st, fi, place, v):
        if not any(e[0] == 'd' for e in place[1]):
            return
        root, proj = self.resolve(st, fi, place)
        fr = st.frames[root[0]]
        ty = tystr(self.c, fr.fn, root[1]) if root[1] < len(fr.fn.locals) else ''
        if ty.startswith('*') and 'MaybeUninit' in ty:
            self.mark(st, 'boxed', self.tm(v, st))

    def canon(self, st):
        before = self.facts(st)
        super().canon(st)
        if not self.get(st, 'lost') and any(not certain_(a) for a, p in before - self.facts(st)):
            self.mark(st, 'lost')
        # one step down the chain: the value reached is again just "the value reached"
        for b in (VAL0, VAL):
            nxt = f_(1, ('el', pay(b)))
            down = pay(nxt)
            if not any(v == T(down) for f in st.frames for v in f.loc.values()):
                continue

            def g(x):
                if not isinstance(x, (tuple, frozenset)) or not x:
                    return x
                if x == nxt:
                    return VAL
                if x == VAL:
                    return ANY
                r = [g(y) for y in x]
                return frozenset(r) if isinstance(x, frozenset) else tuple(r)
            for f in st.frames:
                for l, v in list(f.loc.items()):
                    if has(v, nxt) or has(v, VAL):
                        f.loc[l] = g(v)
            fs = frozenset(y for y in ((g(a), p) for a, p in self.facts(st)) if not has(y[0], ANY))
            self.setfacts(st, fs)


def walked(src):
    """all the keys but the first and the last: which keys"""
    if src[:2] == ('ap', 'Index::index') and len(src) == 4 and src[3][:3] == ('adt', 'Range', 0) or src[:1] == ('range_of',):
        s, a = src[2], src[3][3:]
        return s if len(a) == 2 and a[0] == ('i', 1) and a[1] in (('op', 'Sub', ('len', s), ('i', 1)), ('op', 'Add', ('len', s), ('i', -1))) else None
    if src[0] != 'take' or src[1][0] != 'skip' or src[1][2] != ('i', 1):
        return None
    s = src[1][1]
    return s if src[2] in (('op', 'Sub', ('len', s), ('i', 2)), ('op', 'Add', ('len', s), ('i', -2))) else None


def ident(m, st, w):
    """the key is known to be an identifier"""
    q = truth(m, st, ('ap', 'odd', w))
    return None if q is None else not q


def find(c):
    """the function that joins keys: (key, object, options, ..) -> Option<(String, &Value)>"""
    out = {}
    for f in c.fnlist:
        if f.kind == 'Closure':
            continue
        ret = tystr(c, f, 0)
        if ret.startswith('std::option::Option<(std::string::String, &') and ret.rstrip('>)').endswith('Value'):
            gs = list(callees(c, f))
            if any(role_ident(c, g) for g in gs):
                out['fold'] = f
                out['odd'] = next(g for g in gs if role_ident(c, g))
    return out


def role_ident(c, g):
    return g.argc == 1 and is_text(tystr(c, g, 1)) and tystr(c, g, 0) == 'bool'


# ---- judging ---------------------------------------------------------------------------------------
def first_key(v):
    return f_(0, ('el', pay(v)))


def at_limit(m, st, s):
    """the number of keys has reached the limit"""
    for a, p in m.facts(st):
        if a[0] == 'Lt' and a[1] == ('len', s) and not p and has(a[2], ('p', 'opts.flatten_depth')):
            return True
        if a[0] == 'Lt' and a[1] == ('len', s) and not p and a[2][0] in ('i', 'c') and a[2][1] > 2 ** 31:
            return True                 # never
    return False


def limit_used(m, st):
    d = m.know(st, ('Eq', ('discr', ('p', 'opts.flatten_depth')), ('i', 0)))
    if d is None:
        d = m.know(st, ('Eq', ('discr', ('p', 'opts.flatten_depth')), ('i', 1)))
        d = None if d is None else not d
    return d                            # True: there is no limit


def ends(m, st, v, s):
    """the chain cannot be followed beyond this value"""
    if m.know(st, ('Eq', ('discr', v), ('i', OBJECT))) is False:
        return True
    if m.know(st, ('Eq', ('len', pay(v)), ('i', 1))) is False:
        return True
    if ident(m, st, first_key(v)) is False:
        return True
    return s is not None and at_limit(m, st, s)


def no_chain(m, st):
    """there is nothing to fold"""
    if ident(m, st, KEY) is False or m.know(st, ('Eq', ('len', pay(VAL0)), ('i', 1))) is False or ident(m, st, first_key(VAL0)) is False:
        return True
    return any(a[0] == 'Lt' and p and has(a[1], ('p', 'opts.flatten_depth')) and a[2] == ('i', 2) or
               a[0] == 'Lt' and not p and has(a[2], ('p', 'opts.flatten_depth')) and a[1] == ('i', 1) for a, p in m.facts(st))


def collides(m, st):
    return any(a[0] == 'B' and a[1][0] == 'ap' and a[1][1] == 'contains' and p for a, p in m.facts(st))


def judge(m, st, v):
    t = m.tm(v, st)
    if t[:3] == ('adt', 'Option', 0):
        if no_chain(m, st) or collides(m, st):
            return
        if m.get(st, 'lost'):
            raise Vague('not folded')
        for a, p in m.facts(st):
            if not certain_(a):
                raise Vague('not folded: %s' % shape.show(a, 80))
        raise Wrong('a chain of identifier keys is not folded')
    if t[:3] != ('adt', 'Option', 1) or t[3][0] != 'adt' or len(t[3]) != 5:
        raise Vague('the result is %s' % shape.show(t, 80))
    k, x = t[3][3], t[3][4]
    if k[:2] != ('ap', 'join'):
        raise Vague('the joined key is %s' % shape.show(k, 80))
    s = k[2]
    if k[3] != ('c', '.'):
        if k[3][0] == 'c':
            raise Wrong('the keys are joined by %r' % (k[3][1],))
        raise Vague('the separator is %r' % (k[3],))
    if s[0] != 'to':
        if s == ('adt', '[]', 0, KEY):
            raise Wrong('a single key is taken for a chain')
        raise Vague('the keys are %s' % shape.show(s, 80))
    to = m.segs(s)
    if x != to:
        if certain_(x):
            raise Wrong('the value written under the joined key is %s, not that at the end of the chain' % shape.show(x, 60))
        raise Vague('the value is %s' % shape.show(x, 80))
    if m.get(st, 'multi'):
        raise Wrong('an object that may have more than one entry is folded')
    if m.get(st, 'odd') or ident(m, st, KEY) is not True:
        raise Wrong('a key that is no identifier is folded')
    if limit_used(m, st) is not True:
        lim = m.limit(st)
        if lim is None:
            raise Wrong('the depth limit is not looked at')
        if m.know(st, ('Lt', lim, ('len', s))) is not False:
            if at_limit(m, st, s) and not m.get(st, 'over'):
                return
            raise Wrong('more keys are joined than the depth limit allows')
    if not ends(m, st, x, s):
        if m.get(st, 'lost') or not all(certain_(a) for a, p in m.facts(st)):
            raise Vague('the chain ends somewhere')
        raise Wrong('the chain is not followed to its end')


def certain_(t):
    if not isinstance(t, tuple) or not t:
        return True
    if t == ANY or t[0] in ('new', 'mut', 'old', 'ANY', 'any'):
        return False
    if t[0] == 'ap':
        return t[1] in ('odd', 'contains', 'join') and all(certain_(x) for x in t[2:] if isinstance(x, tuple))
    return all(certain_(x) for x in t[1:] if isinstance(x, (tuple, frozenset)))


CHECKED = {}              # the function that joins keys looks at the siblings itself


def keys(chk):
    chain(chk)
    uses(chk)


def chain(chk):
    """the function that joins keys"""
    for cfg in CFGS:
        c = chk.crate(cfg)
        if c is None:
            continue
        fs = find(c)
        if 'fold' not in fs:
            continue
        f = fs['fold']
        key = '%s [%s]: keys are joined' % (f.path, cfg)
        m = Fold(c, f, {fs['odd'].path: 'odd'})
        args = []
        for i in range(f.argc):
            k = tystr(c, f, i + 1)
            args.append(T(KEY) if is_text(k) else T(pay(VAL0)) if 'Map<' in k else m.struct('options::Options', 'opts')
                        if k.endswith('Options') else T(('p', 'a%d' % (i + 1))))
        m.deadline = time.time() + chk.slice(200)
        ps = params(c, f) or {}
        told = 'sib' in ps
        bad, vague, n = {}, [], 0
        try:
            for st, v in m.start(f, args, user=()):
                n += 1
                t = m.tm(v, st)
                if t[:3] == ('adt', 'Option', 1) and 'sib' in ps:
                    sib = ('p', 'a%d' % (ps['sib'] + 1))
                    free = any(m.know(st, ('Eq', ('discr', sib), ('i', d))) is (d == 0) for d in (0, 1))
                    told = told and (free or said(st, m, t[3][3] if t[3][0] == 'adt' and len(t[3]) == 5 else None, sib)[0] is False)
                try:
                    judge(m, st, v)
                except Wrong as e:
                    bad[str(e)] = 1
                except Vague as e:
                    vague.append(str(e))
        except Exception as e:
            if os.environ.get('VERIF_DEBUG'):
                raise
            vague.append(type(e).__name__)
        CHECKED[cfg] = told and not vague
        report(chk, f, cfg, 'joins keys', bad, vague, n)


def report(chk, f, cfg, what, bad, vague, n):
    name = '%s [%s]: %s' % (f.path, cfg, what)
    for b in sorted(bad):
        chk.violation('%s: %s' % (f.path, b), '%s [%s]: %s' % (f.path, cfg, b), name)
    if not bad:
        if vague or not n:
            chk.undecided(name, '; '.join(sorted(set(vague)))[:300] or 'no path')
        else:
            chk.ok(name, '%d paths' % n)


# ---- where joined keys are used --------------------------------------------------------------------
WRITER = '&mut encode::writer::LineWriter'


def writes(c, f):
    return any('LineWriter' in k and k.startswith('&mut') for k in kinds(c, f))


def gives_text(c, f):
    r = tystr(c, f, 0)
    return is_text(r) or r == '&str'


class Use(Fold):
    def __init__(self, crate, root, fold, inline, budget=60000):
        super().__init__(crate, root, {fold.path: 'fold'}, budget)
        self.fold, self.inl = fold, inline
        self.sorted = self.options = False
        self.sites = {}

    def policy(self, fn):
        p = super().policy(fn)
        if p is not None:
            return p
        if fn.path in self.inl:
            return None
        if writes(self.c, fn):
            return 'step:w'
        if fn.kind != 'Closure' and (gives_text(self.c, fn) or self.options and tystr(self.c, fn, 0).startswith('std::option')):
            return 'step:pure'
        return None

    def call_opaque(self, st, fn, args, dst, to, t, p):
        if p == 'step:pure':
            return self.deliver(st, dst, to, T(('ap', fn.path) + tuple(self.tm(models.val_of(self, st, a), st) for a in args)))
        if p == 'step:fold':
            return self.deliver(st, dst, to, T(('ap', 'fold') + tuple(self.tm(a, st) for a in args)))
        if p == 'step:w':
            a = tuple(self.tm(models.val_of(self, st, x), st) for x in args)
            self.sites.setdefault((fn.path, a), []).append(st.copy())
            if p_api.result_err(tystr(self.c, fn, 0)) is None:
                return self.deliver(st, dst, to, absint.UNIT)
            s2 = st.copy()
            return self.deliver(st, dst, to, ('adt', 'Result', 0, (absint.UNIT,))) + \
                self.deliver(s2, dst, to, ('adt', 'Result', 1, (T(('p', 'error')),)))
        return super().call_opaque(st, fn, args, dst, to, t, p)


def callers(c, f):
    return [g for g in c.fnlist if any(h is f for h in callees(c, g))]


SAFE = 1
KF = ('f', 3)


def run_use(chk, c, f, fold, inline, options=False):
    m = Use(c, f, fold, inline)
    m.options = options
    args = []
    for i in range(f.argc):
        k = tystr(c, f, i + 1)
        args.append(m.struct('options::Options', 'opts') if bare(k).endswith('Options') else T(('p', 'a%d' % (i + 1))))
    m.deadline = time.time() + chk.slice(100)
    n = 0
    for st, v in m.start(f, args, user=()):
        n += 1
    return m, n


def params(c, f):
    """what the parameters of a function that writes a field stand for"""
    out = {}
    for i, k in enumerate(kinds(c, f)):
        b = bare(k)
        r = 'writer' if 'LineWriter' in b else 'opts' if b.endswith('Options') else 'key' if is_text(k) else \
            'value' if b.endswith('Value') or 'Map<' in b else 'sib' if 'String' in b or 'str' in b else None
        if r is not None:
            if r in out:
                return None
            out[r] = i
    return out


def folding(m, st, opts, discr):
    """is key folding on, by the options given and the facts"""
    k = opts[3 + 3] if opts[:1] == ('adt',) and len(opts) > 6 else ('f', 3, opts)
    if k[:2] == ('adt', k[1]) and len(k) == 3:
        return k[2] == SAFE
    for v in (SAFE, 0):
        x = m.know(st, ('Eq', ('discr', k), ('i', v)))
        if x is not None:
            return x if v == SAFE else not x
    return None


def fold_terms(t, out):
    if isinstance(t, (tuple, frozenset)):
        if isinstance(t, tuple) and t[:2] == ('ap', 'fold'):
            out.add(t)
        for x in t:
            fold_terms(x, out)
    return out


def said(st, m, x, sib=None):
    """a membership test of the key among the siblings: its outcome"""
    for a, p in m.facts(st):
        if a[0] == 'B' and a[1][:2] == ('ap', 'contains') and x in a[1][3:]:
            return p, a[1][2]
        if a[0] == 'all' and p and a[2] and all(any(y[0][0] == 'Eq' and set(y[0][1:]) == {('el', a[1]), x} and not y[1] for y in alt)
                                                for alt in a[2]):
            return False, a[1]
        if a[0] == 'Eq' and ('i', 0) in a[1:] and p and sib is not None and any(y == ('len', sib) or y == ('len', f_(0, ('v', 1, sib))) for y in a[1:]):
            return False, sib
        if a[0] == 'Eq' and p and x in a[1:] and any(y[0] == 'el' and has(y, sib) for y in a[1:] if sib is not None):
            return True, sib
    return None, None


def field(chk, c, cfg, r, fold, inline, checked):
    """the function that writes a field, under a joined key or not"""
    ps = params(c, r)
    if ps is None or not {'key', 'value', 'opts'} <= set(ps):
        return report(chk, r, cfg, 'uses joined keys', {}, ['parameters'], 0)
    m, n = run_use(chk, c, r, fold, inline)
    key, val = ('p', 'a%d' % (ps['key'] + 1)), ('p', 'a%d' % (ps['value'] + 1))
    sib = ('p', 'a%d' % (ps['sib'] + 1)) if 'sib' in ps else None
    fp = params(c, fold) or {}
    bad, vague, used = {}, [], 0
    kf = ('p', 'opts.key_folding')
    for (path, args), sts in m.sites.items():
        fs = set()
        for x in args:
            fold_terms(x, fs)
        for st in sts:
            on = None
            for v in (SAFE, 0):
                x = m.know(st, ('Eq', ('discr', kf), ('i', v)))
                if x is not None:
                    on = x if v == SAFE else not x
            nosib = sib is None or m.know(st, ('Eq', ('discr', sib), ('i', 1))) is False or m.know(st, ('Eq', ('discr', sib), ('i', 0))) is True
            if fs:
                used += 1
                f = next(iter(fs))
                joined = f_(0, f_(0, ('v', 1, f)))
                if len(fs) > 1:
                    vague.append('two foldings')
                    continue
                if on is False:
                    bad['a joined key is written although key folding is off'] = 1
                elif on is None:
                    bad['a joined key is written whether key folding is on or not'] = 1
                a = f[2:]
                if 'key' in fp and a[fp['key']] != key:
                    vague.append('the key folded is %s' % shape.show(a[fp['key']], 60))
                if nosib:
                    continue
                p, coll = said(st, m, joined, sib)
                if p is True:
                    bad['a joined key that a sibling has too is written'] = 1
                elif p is None:
                    if checked and 'sib' in fp and has(a[fp['sib']], sib):
                        continue
                    if any(searched(x[0], sib) for x in m.facts(st)):
                        m.sorted = True
                    if any(has(x[0], sib) and has(x[0], joined) for x in m.facts(st)):
                        vague.append('another test of the siblings')
                    else:
                        bad['a joined key is written without looking at the siblings'] = 1
                elif not has(coll, sib):
                    vague.append('tested among %s' % shape.show(coll, 60))
                continue
            if m.know(st, ('Eq', ('discr', val), ('i', OBJECT))) is not True or on is False:
                continue
            if not (val in args or pay(val) in args or any(has(x, key) for x in args)):
                continue
            fst = set()
            for x, p in m.facts(st):
                fold_terms(x, fst)
            if not fst:
                if on is True and all(certain_(x) and (x[1:2] == (('discr', val),) or not has(x, val) and not has(x, key)) for x, p in m.facts(st)):
                    bad['an object is written plainly without trying to fold its keys'] = 1
                else:
                    vague.append('an object written plainly')
                continue
            f = next(iter(fst))
            some = m.know(st, ('Eq', ('discr', f), ('i', 1)))
            if some is not True:
                continue
            p, coll = said(st, m, f_(0, f_(0, ('v', 1, f))), sib)
            if p is True:
                continue
            if (p is False or nosib) and all(certain_(x) or has(x, f) for x, q in m.facts(st)):
                bad['a chain that can be folded is written plainly'] = 1
            else:
                vague.append('a chain written plainly')
    report(chk, r, cfg, 'uses joined keys', bad, vague, used)
    ps['search'] = m.sorted
    return ps


def searched(t, sib):
    if isinstance(t, frozenset):
        return any(searched(x, sib) for x in t)
    if not isinstance(t, tuple) or not t:
        return False
    if t[0] == 'ap' and t[1].split('::')[-1] in ('binary_search', 'binary_search_by', 'binary_search_by_key', 'partition_point'):
        return t[2] in (sib, f_(0, ('v', 1, sib)))
    return any(searched(x, sib) for x in t)


PARTIAL = ('skip', 'take', 'filter', 'skip_while', 'take_while', 'rest', 'filter_map', 'step_by', 'range')


def siblings(chk, c, cfg, g, r, ps, fold, inline):
    """a function that writes the fields of an object: the siblings it tells"""
    m, n = run_use(chk, c, g, fold, inline, True)
    bad, vague, used = {}, [], 0
    for (path, args), sts in m.sites.items():
        if path != r.path:
            continue
        k, s, o = args[ps['key']], args[ps['sib']], args[ps['opts']]
        for st in sts:
            used += 1
            on = folding(m, st, o, None)
            if on is False:
                continue
            if s[:3] == ('adt', 'Option', 0):
                bad['a field is written without its siblings while key folding may be on'] = 1
                continue
            x = s[3] if s[:3] == ('adt', 'Option', 1) else s
            if k[:2] != ('f', 0) or k[2][0] not in ('el', 'ix', 'first', 'last'):
                vague.append('the key is %s' % shape.show(k, 60))
                continue
            coll = whole(k[2][1])
            y = x
            part = False
            while y[:2] in (('ap', 'keys'), ('ap', 'Map::keys')) and len(y) == 3 or y[0] in ('keys', 'map', 'cloned', 'copied', 'into_keys') + PARTIAL and len(y) > 1 and isinstance(y[1], tuple):
                part = part or y[0] in PARTIAL
                y = y[2] if y[0] == 'ap' else y[1]
            if y != coll and y != x and plain(y) and plain(coll):
                bad['the siblings told are the keys of another object'] = 1
            elif y != coll:
                vague.append('the siblings are %s' % shape.show(x, 80))
            elif ps.get('search') and y != x and plain(y):
                bad['the siblings are searched as if they were sorted'] = 1
            elif part:
                bad['only some of the siblings are told'] = 1
    report(chk, g, cfg, 'tells the siblings', bad, vague, used)


def plain(t):
    return t[0] == 'p' or t[0] in ('f', 'v') and plain(t[2]) or t[0] == 'el' and plain(t[1])


def whole(t):
    while t[0] in PARTIAL + ('enum',) and len(t) > 1 and isinstance(t[1], tuple):
        t = t[1]
    return t


def uses(chk):
    for cfg in CFGS:
        c = chk.crate(cfg)
        if c is None:
            continue
        fs = find(c)
        if 'fold' not in fs:
            continue
        fold = fs['fold']
        inl, work, roots = set(), [fold], []
        while work:
            g = work.pop()
            for h in callers(c, g):
                if not writes(c, h):
                    if h.path not in inl:
                        inl.add(h.path)
                        work.append(h)
                    continue
                up = [x for x in callers(c, h) if x is not h]
                if len(up) == 1 and h not in callers(c, h) and writes(c, up[0]) and h.kind != 'Closure':
                    inl.add(h.path)            # a part of its only caller
                    work.append(h)
                elif h not in roots:
                    roots.append(h)
        if not roots:
            chk.undecided('%s [%s]' % (fold.path, cfg), 'nobody uses it')
        for r in roots:
            try:
                ps = field(chk, c, cfg, r, fold, inl, CHECKED.get(cfg))
            except Exception as e:
                if os.environ.get('VERIF_DEBUG'):
                    raise
                report(chk, r, cfg, 'uses joined keys', {}, [type(e).__name__], 0)
                continue
            if not ps or 'sib' not in ps:
                continue
            work, seen = [r], {r.path}
            thin = set(inl)
            gs = []
            while work:
                for g in callers(c, work.pop()):
                    if g.path in seen:
                        continue
                    seen.add(g.path)
                    if passes_on(c, g):
                        thin.add(g.path)
                        work.append(g)
                    else:
                        gs.append(g)
            for g in [r] + gs:
                try:
                    siblings(chk, c, cfg, g, r, ps, fold, thin)
                except Exception as e:
                    if os.environ.get('VERIF_DEBUG') == '2':
                        raise
                    report(chk, g, cfg, 'tells the siblings', {}, [repr(e)[:100]], 0)


def passes_on(c, g):
    """a function without branches of its own"""
    return writes(c, g) and all(b['tm']['t'] in ('goto', 'call', 'return', 'drop', 'ret') or b.get('cl') or b['tm']['t'] in ('resume', 'unreachable', 'abort')
                                for b in g.blocks) and sum(1 for b in g.blocks if b['tm']['t'] == 'call') <= 3
