"""Path expansion: dotted keys become nested objects, and nothing else changes."""
import time
import shape, ir, models, lang, specs, words
from shape import T, ANY, has
import p_api
from p_api import Api, CFGS, truth, ALTER
from p_ser import Wrong, Vague



def tystr(c, f, l):
    return p_api.tystr(c, f, l).replace('core::', 'std::').replace('alloc::', 'std::')


MARK = '\u200b'
OBJECT, ARRAY = 5, 4
ENTRIES = 'std::vec::Vec<(std::string::String, value::Value)>'
PARTS = {'splitn', 'rsplit', 'rsplitn', 'split_terminator', 'split_inclusive'} | ALTER


class Exp(Api):
    """`roles`: path of a function -> what it stands for"""
    def __init__(self, crate, root, roles, budget=60000):
        super().__init__(crate, root, (), (), budget)
        self.roles = roles
        self.loops = {}
        self.symidx = True
        # what is known of the element at hand (not of the one before)
        self.keep = lambda x: x[0][0] == 'Eq' and not has_old(x[0])

    def policy(self, fn):
        if fn.name == 'clone' and 'Clone' in fn.path:
            return 'same'
        if fn.name in ('eq', 'ne') and 'PartialEq' in fn.path:
            return 'step:' + fn.name
        r = self.roles.get(fn.path)
        if r is None or fn is self.root and not self.recursive:
            return None
        return 'step:' + r

    recursive = True

    def call_opaque(self, st, fn, args, dst, to, t, p):
        if p == 'step:merge':
            return self.merge(st, fn, args, t, dst, to)
        if p == 'same':
            return self.deliver(st, dst, to, T(self.tm(args[0], st)))
        if p.startswith('step:') and p_api.result_err(tystr(self.c, fn, 0)) is None:
            x = ('ap', p[5:]) + tuple(self.tm(a, st) for a in self.ordered(fn, args))
            if p == 'step:nested':          # an object (see nested_rule)
                return self.deliver(st, dst, to, ('adt', 'value::Value', OBJECT, (T(('entries', x)),)))
            return self.deliver(st, dst, to, T(x))
        if p.startswith('step:'):
            args = self.ordered(fn, args)
        return super().call_opaque(st, fn, args, dst, to, t, p)

    def ordered(self, fn, args):
        """the arguments in a fixed order"""
        o = order(self.c, fn)
        return [args[i] for i in o] if o else args

    def merge(self, st, fn, args, t, dst, to):
        # the collection merged into: however often it was merged into before, it is the same collection
        a = self.ordered(fn, args)
        root = self.tm(a[0], st)
        while root[0] == 'grown':
            root = root[1]
        x = ('ap', 'merge', root) + tuple(self.tm(y, st) for y in a[1:])
        own = False
        if a[0][0] == 'ref':
            r = shape.final_ref(self, st, a[0])
            fr = st.frames[r[1][0]]
            own = r[1][1] < len(fr.fn.locals) and not tystr(self.c, fr.fn, r[1][1]).startswith('&mut')
            if own:
                self.store(st, r[1], r[2], T(('grown', root)))
        self.note(st, ('merge', own) + x[2:])
        s2 = st.copy()
        self.mark(s2, 'failed')
        return self.deliver(st, dst, to, ('adt', 'Result', 0, (T(('okof', x)),))) + \
            self.deliver(s2, dst, to, ('adt', 'Result', 1, (T(('errof', x)),)))

    def index_term(self, t, i):
        return ('el', t) if i == ('idx', t) else ('ix', t, i)

    def on_write(self, st, fi, place, v):
        # a write through a reference that stands for a part of a collection
        if not any(e[0] == 'd' for e in place[1]):
            return
        root, proj = self.resolve(st, fi, place)
        fr = st.frames[root[0]]
        ty = tystr(self.c, fr.fn, root[1]) if root[1] < len(fr.fn.locals) else ''
        if ty.startswith('*') and 'MaybeUninit' in ty:
            self.mark(st, 'boxed', self.tm(v, st))
        elif ty.startswith('&mut'):
            self.note(st, ('set', self.tm(self.load(st, root, proj), st), self.tm(v, st)))

    def call(self, st, fi, t):
        g = ir.callee(t['f'])
        if g is not None and t.get('to') is not None:
            n = models.short(g['decl'])
            last = n.split('::')[-1]
            if n == 'IndexMut::index_mut':
                a = [self.operand(st, fi, x) for x in t['args']]
                v0 = models.val_of(self, st, a[0])
                if v0[0] == 't':
                    return self.deliver(st, t['dst'], t['to'], T(self.index_term(v0[1], self.tm(a[1], st))))
            if last == 'box_assume_init_into_vec_unsafe' and self.get(st, 'boxed'):
                x = self.get(st, 'boxed')          # vec![..]: the array that was just written into the box
                self.mark(st, 'boxed', False)
                return self.deliver(st, t['dst'], t['to'], T(x))
            if last in ('replace', 'take') and n.split('::')[0] == 'mem':
                a = [self.operand(st, fi, x) for x in t['args']]
                if a[0][0] == 'ref':
                    r = shape.final_ref(self, st, a[0])
                    fr = st.frames[r[1][0]]
                    if r[1][1] < len(fr.fn.locals) and tystr(self.c, fr.fn, r[1][1]).startswith('&mut'):
                        a[0] = self.load(st, r[1], r[2])
                if a[0][0] == 't':
                    self.note(st, ('set' if last == 'replace' else 'gone', a[0][1]) + tuple(self.tm(x, st) for x in a[1:]))
                    return self.deliver(st, t['dst'], t['to'], a[0])
        return super().call(st, fi, t)

    def on_push(self, st, t, ref, old, vals):
        self.note(st, ('put',) + tuple(self.tm(v, st) for v in vals))

    def on_iter(self, st, src, phase):
        ev = list(self.evs(st))
        i = len(ev) - 1
        if phase == 'first':
            ev.append(('open', src))
        else:
            while i >= 0 and ev[i] != ('open', src):
                i -= 1
            if i < 0:
                return
            if phase == 'more':
                self.loops.setdefault(src, {})[(tuple(ev[i + 1:]), frozenset(self.facts(st)))] = st.copy()
                ev[i + 1:] = []
            else:
                ev[i:] = [('rep', src)]
        d = dict(self.user(st))
        d['ev'] = tuple(ev)
        self.setuser(st, tuple(sorted(d.items())))


def has_old(t):
    if not isinstance(t, (tuple, frozenset)) or not t:
        return False
    return isinstance(t, tuple) and t[0] == 'old' or any(has_old(x) for x in t if isinstance(x, (tuple, frozenset)))


# ---- which functions -------------------------------------------------------------------------------
def bare(ty):
    return ty.replace('&mut ', '').lstrip('&')


def kinds(c, f):
    return [tystr(c, f, i + 1) for i in range(f.argc)]


def is_text(ty):
    return bare(ty) in ('str', 'std::string::String')


def role_of(c, f):
    ks = kinds(c, f)
    ret = tystr(c, f, 0)
    if ret.startswith('std::result::Result<(), ') and any(k.startswith('&mut') and bare(k) == ENTRIES for k in ks) and \
            'value::Value' in ks and any(is_text(k) for k in ks):
        return 'merge'
    if ret.startswith('std::result::Result<value::Value, ') and sorted(ks) == ['bool', 'value::Value']:
        return 'expand'
    if ret == 'value::Value' and len(ks) == 2 and 'value::Value' in ks and \
            any(k in ('&[&str]', '&std::vec::Vec<&str>', 'std::vec::Vec<&str>') for k in ks):
        return 'nested'
    return None


def order(c, f):
    """positions of the parameters in the order of the rules"""
    ks = kinds(c, f)
    if f is None or role_of(c, f) is None:
        return None
    r = {'merge': lambda k: 0 if k.startswith('&mut') and bare(k) == ENTRIES else 1 if is_text(k) else 2 if k == 'value::Value' else 3,
         'expand': lambda k: 0 if k == 'value::Value' else 1,
         'nested': lambda k: 1 if k == 'value::Value' else 0}[role_of(c, f)]
    return sorted(range(len(ks)), key=lambda i: r(ks[i]))


def find(c):
    """-> {role: function}"""
    out = {}
    for f in c.fnlist:
        if f.kind == 'Closure':
            continue
        r = role_of(c, f)
        if r:
            out.setdefault(r, []).append(f)
    if len(out.get('expand', ())) != 1 or len(out.get('merge', ())) != 1 or len(out.get('nested', ())) > 1:
        return None
    out = {k: v[0] for k, v in out.items()}
    for g in callees(c, out['expand']):
        if g.argc == 1 and is_text(tystr(c, g, 1)) and tystr(c, g, 0) == 'bool':
            if 'pred' in out and out['pred'] is not g:
                return None
            out['pred'] = g
    return out


def callees(c, f):
    for b in f.blocks:
        t = b['tm']
        if t['t'] == 'call':
            g = ir.callee(t['f'])
            if g is not None and g.get('inst') in c.fns:
                yield c.fns[g['inst']]


# ---- comparing -------------------------------------------------------------------------------------
def certain(t):
    """a term of which every part is known"""
    if t == ANY or t[0] in ('new', 'mut', 'old', 'ANY', 'any'):
        return False
    if t[0] == 'ap':
        return t[1] in PARTS or t[1].split('::')[-1] in PARTS or t[1] in ('expand', 'merge', 'nested') and all(
            certain(x) for x in t[2:] if isinstance(x, tuple))
    return all(certain(x) for x in t[1:] if isinstance(x, tuple) and x)


def same(m, st, x, want, what):
    if x == want or m.know(st, m.atom('Eq', x, want)[0] if not isinstance(m.atom('Eq', x, want), bool) else ('i',)):
        return
    if certain(x):
        raise Wrong('%s is %s, not %s' % (what, shape.show(x, 90), shape.show(want, 90)))
    raise Vague('%s: %s' % (what, shape.show(x, 90)))


def known(m, st, a, b):
    x = m.atom('Eq', a, b)
    if isinstance(x, bool):
        return x
    k = m.know(st, x[0])
    return None if k is None else k == x[1]


def source(s):
    while s[0] == 'enum':
        s = s[1]
    return s


def unbox(t):
    while t[0] == 'grown':
        t = t[1]
    return t


def rest_from(t):
    return t[3] if t[0] == 'adt' and str(t[1]).endswith('::RangeFrom') and len(t) == 4 else None


def vec_of(t):
    """the elements of a known array"""
    return list(t[3:]) if t[0] == 'adt' and t[1] == '[]' else None


def result(v):
    if v[0] == 'adt' and v[1] == 'Result':
        return v[2], v[3][0]
    raise Vague('result ' + shape.show(v if v[0] != 't' else v[1], 90))


def start(chk, m, f, slice=40):
    o = order(m.c, f)
    args = [T(('p', 'a%d' % (i + 1))) for i in range(f.argc)]
    objs = []
    ps = [args[i][1] for i in o] if o else []
    for i in range(f.argc):
        if tystr(m.c, f, i + 1).startswith('&mut'):
            objs.append(args[i])
            args[i] = ('obj', len(objs) - 1)
    m.deadline = time.time() + chk.slice(slice)
    return ps, m.start(f, args, user=(), objs=objs)


# ---- merging one entry -----------------------------------------------------------------------------
def f_(i, x):
    return ('f', i, x)


def pay(k, x):
    return ('f', 0, ('v', k, x))


KNOWN = {'core::str::<impl str>::starts_with', 'std::ops::Index::index', 'core::ops::Index::index', 'std::boxed::Box::<T>::new_uninit',
         'alloc::boxed::Box::<T>::new_uninit'}
WEAK = ('eq_ignore_ascii_case', 'starts_with', 'ends_with', 'contains')


def weaker(m, st, a, b):
    """the two texts were only compared roughly"""
    for x, p in m.facts(st):
        if x[0] == 'Eq' and x[2] in (('i', 0), ('i', 1)):
            p = p == (x[2][1] == 1)
        elif x[0] != 'B':
            continue
        if p and x[1][0] == 'ap' and x[1][1].split('::')[-1] in WEAK and set(x[1][2:]) == {a, b}:
            return True
    return False


def lengths(m, st, c):
    """the lengths (up to 8, and about those the path names) that the facts of the path allow"""
    OPS = {'Eq': lambda a, b: a == b, 'Lt': lambda a, b: a < b, 'Le': lambda a, b: a <= b, 'Gt': lambda a, b: a > b, 'Ge': lambda a, b: a >= b}
    ln = ('len', c)
    out = []
    named = {y[1] + d for a, p in m.facts(st) if ln in a[1:] for y in a[1:] if y[0] == 'i' for d in (-1, 0, 1)}
    for n in sorted(set(range(9)) | {n for n in named if n > 8}):
        ok = True
        for a, p in m.facts(st):
            if a[0] in OPS and len(a) == 3 and ln in a[1:] and all(y == ln or y[0] == 'i' for y in a[1:]):
                ok = ok and OPS[a[0]](*[n if y == ln else y[1] for y in a[1:]]) == p
        if ok:
            out.append(n)
    return out


def unread(m, st, *about):
    """facts about these terms in a form the rules do not read"""
    for a, p in m.facts(st):
        if any(has(a, x) for x in about) and a[0] != 'all' and not (a[0] == 'Eq' and (a[1][0] in ('discr', 'len') or a[2][0] in ('i', 'p'))):
            if any(isinstance(y, tuple) and has(y, x) for x in about for y in a[1:]):
                return True
    return False


def merge_rule(chk, c, fs):
    f = fs['merge']
    m = Exp(c, f, {g.path: r for r, g in fs.items()})
    (C, K, V, *S), outs = start(chk, m, f)
    S = S[0] if S else None
    E = ('el', C)
    old = f_(1, E)
    obj = ('i', OBJECT)
    n = 0
    for st, v in outs:
        n += 1
        tag, p = result(v)
        evs = m.evs(st)
        found = known(m, st, f_(0, E), K)
        over = [e for e in evs if e[0] == 'rep' and source(e[1]) == C]
        if over and all(m.know(x, ('Eq', f_(0, E), K)) is False or known(m, x, f_(0, E), K) is False
                        for e in over for x in m.loops.get(e[1], {}).values()):
            found = False
        elif over:
            found = None
        elif not any(e[0] == 'open' and source(e[1]) == C for e in evs) and m.know(st, ('Eq', ('len', C), ('i', 0))):
            found = False
        both = [known(m, st, ('discr', old), obj), known(m, st, ('discr', V), obj)]
        strict = truth(m, st, S) if S is not None else None
        if tag == 1:
            q = m.tm(p, st)
            if q[0] == 'errof' and q[1][:2] == ('ap', 'merge'):
                continue
            if found is False:
                raise Wrong('an entry is refused although no entry has its key')
            if found is None:
                if weaker(m, st, f_(0, E), K):
                    raise Wrong('an entry with another key is taken for the one with that key')
                raise Vague('a refused entry')
            if strict is not True:
                raise Wrong('a collision is refused although strict mode is off')
            if both == [True, True]:
                raise Wrong('two objects with the same key are refused')
            if False not in both:
                if unread(m, st, old, V):
                    raise Vague('kinds of the values')
                raise Wrong('two objects with the same key are refused')
            continue
        puts = [e for e in evs if e[0] == 'put']
        sets = [e for e in evs if e[0] in ('set', 'gone')]
        if found is None:
            if weaker(m, st, f_(0, E), K):
                raise Wrong('an entry with another key is taken for the one with that key')
            raise Vague('whether an entry has the key')
        if not found:
            if sets:
                raise Wrong('an entry with another key is changed')
            if not puts:
                raise Wrong('an entry with a new key is not added')
            if len(puts) > 1:
                raise Wrong('an entry is added more than once')
            x = puts[0][1]
            if x[0] != 'adt' or len(x) != 5:
                raise Vague('the entry added: %s' % shape.show(x, 90))
            same(m, st, x[3], K, 'the key added')
            same(m, st, x[4], V, 'the value added')
            continue
        if puts:
            raise Wrong('a second entry with the same key is added')
        for e in sets:
            if e[1] != old:
                if certain(e[1]):
                    raise Wrong('%s is written to instead of the value with that key' % shape.show(e[1], 60))
                raise Vague('a write to %s' % shape.show(e[1], 60))
        mine = sets[-1] if sets else None
        merges = [e for e in evs if e[0] == 'rep' and source(unrev(e[1])) == pay(OBJECT, V)]
        if merges:
            if False in both:
                raise Wrong('a value that is no object is merged')
            if merges[0][1][0] == 'rev':
                raise Wrong('the entries of the object are merged in reverse order')
            own = False
            W = ('el', pay(OBJECT, V))
            for body, fcts in m.loops.get(merges[0][1], {}):
                x = m.loops[merges[0][1]][(body, fcts)]
                body = effects(m, body)
                bm = [e for e in body if e[0] == 'merge']
                if not bm:
                    if any(e[0] == 'put' and has(e[1], W) for e in body):
                        raise Wrong('an entry of the object is added without looking for its key')
                    raise Wrong('an entry of the object merged is left out') if not body else Vague('merging of two objects')
                if len(bm) != 1 or len(body) != 1:
                    raise Vague('merging of two objects')
                own = own or bm[0][1]
                if bm[0][2][0] == 'new' and m.know(x, ('Eq', ('len', bm[0][2]), ('i', 0))):
                    raise Wrong('the entries of the earlier object are lost')
                same(m, x, bm[0][2], pay(OBJECT, old), 'the object merged into')
                same(m, x, bm[0][3], f_(0, W), 'the key merged')
                same(m, x, bm[0][4], f_(1, W), 'the value merged')
                if S is not None:
                    same(m, x, bm[0][5], S, 'strict')
            if mine is None or mine[0] == 'gone':
                if own or mine is not None:
                    if set(m.unmodelled) - KNOWN:
                        raise Vague('where the merged object is stored')
                    raise Wrong('the merged object is not stored')
            else:
                x = mine[2]
                if x[0] == 'adt' and x[1] == 'value::Value' and x[2] == OBJECT:
                    same(m, st, unbox(x[3]), pay(OBJECT, old), 'the object stored')
                else:
                    same(m, st, x, old, 'the value stored')
            continue
        if any(e[0] == 'merge' for e in evs) or any(e[0] == 'open' and source(e[1]) != C and not inert(m, e) for e in evs):
            raise Vague('merging of two objects')
        if False not in both:
            if unread(m, st, old, V):
                raise Vague('kinds of the values')
            raise Wrong('two objects with the same key are not merged')
        if strict is not False and S is not None:
            raise Wrong('a collision is not refused in strict mode')
        if mine is None or mine[0] == 'gone':
            if set(m.unmodelled) - KNOWN:
                raise Vague('what replaces the earlier value')
            raise Wrong('the later of two values with the same key is lost')
        same(m, st, mine[2], V, 'the value that replaces the earlier one')
    return n, m


def inert(m, e, depth=0):
    """a loop that only looks"""
    return e[0] in ('rep', 'open') and depth < 5 and \
        all(inert(m, x, depth + 1) for b, fs in m.loops.get(e[1], {}) for x in b)


def effects(m, body):
    return [e for e in body if not inert(m, e)]


def unrev(t):
    while t[0] in ('rev', 'enum'):
        t = t[1]
    return t


# ---- nested objects --------------------------------------------------------------------------------
def nested_rule(chk, c, fs):
    f = fs['nested']
    m = Exp(c, f, {g.path: r for r, g in fs.items()})
    (G, V), outs = start(chk, m, f)
    n = 0
    for st, v in outs:
        n += 1
        x = m.tm(v, st)
        if known(m, st, ('len', G), ('i', 0)):
            same(m, st, x, V, 'without segments the result')
            continue
        if not (x[0] == 'adt' and x[1] == 'value::Value'):
            if certain(x):
                raise Wrong('%s is made of a key with segments' % shape.show(x, 90))
            raise Vague(shape.show(x, 90))
        if x[2] != OBJECT:
            raise Wrong('a value that is no object is made of a key with segments')
        es = vec_of(x[3])
        if es is None:
            raise Vague(shape.show(x, 90))
        if len(es) != 1:
            raise Wrong('%d entries are made of one key' % len(es))
        k, w = es[0][3:5]
        first = known(m, st, ('len', G), ('i', 1))
        same(m, st, k, ('ix', G, ('i', 0)), 'the outer key')
        if w == V:
            if max(lengths(m, st, G), default=0) > 1:
                raise Wrong('a key of several segments becomes one level')
            continue
        w = unentries(w)
        if w[:2] == ('ap', 'nested'):
            rest = w[2]
            if rest[0] == 'ap' and rest[1].endswith('index') and rest[2] == G:
                if rest_from(rest[3]) == ('i', 1):
                    same(m, st, w[3], V, 'the innermost value')
                    if first is True:
                        raise Vague('nothing left of the segments')
                    continue
                raise Wrong('the rest of the segments is %s' % shape.show(rest, 80)) if certain(rest[3]) else Vague('the rest of the segments')
            raise Vague('the rest of the segments: %s' % shape.show(rest, 80))
        if certain(w):
            raise Wrong('the inner value is %s' % shape.show(w, 90))
        raise Vague('the inner value: %s' % shape.show(w, 90))
    return n, m


def unentries(t):
    """the call behind an object made by it"""
    if t[0] == 'adt' and t[1] == 'value::Value' and t[2] == OBJECT and t[3][0] == 'entries':
        return t[3][1]
    return t


# ---- the whole document ----------------------------------------------------------------------------
def expand_rule(chk, c, fs):
    f = fs['expand']
    m = Exp(c, f, {g.path: r for r, g in fs.items()})
    (D, S), outs = start(chk, m, f, 60)
    n = 0
    src = {k: pay(k, D) for k in (OBJECT, ARRAY)}
    for st, v in outs:
        n += 1
        tag, p = result(v)
        q = m.tm(p, st)
        if tag == 1:
            if q[0] != 'errof':
                raise Vague('an error: %s' % shape.show(q, 90))
            continue
        is_ = {k: known(m, st, ('discr', D), ('i', k)) for k in src}
        reps = [e for e in m.evs(st) if e[0] == 'rep']
        if q == D:
            for k, nm in ((OBJECT, 'an object'), (ARRAY, 'an array')):
                if is_[k] is not False:
                    if is_[k] is None and unread(m, st, D) or known(m, st, ('len', src[k]), ('i', 0)):
                        raise Vague('kind of the value')
                    raise Wrong('%s is not expanded' % nm)
            continue
        k = OBJECT if is_[OBJECT] else ARRAY if is_[ARRAY] else None
        if k is None:
            if is_[OBJECT] is False and is_[ARRAY] is False and certain(q):
                raise Wrong('a primitive becomes %s' % shape.show(q, 90))
            raise Vague('the result %s' % shape.show(q, 90))
        if not (q[0] == 'adt' and q[1] == 'value::Value'):
            raise Vague('the result %s' % shape.show(q, 90))
        if q[2] != k:
            raise Wrong('an object or array becomes another kind of value')
        mine = [e for e in reps if unrev(e[1]) == src[k]]
        if not mine:
            if any(e[0] == 'open' and unrev(e[1]) == src[k] for e in m.evs(st)):
                raise Wrong('the entries or elements after one of them are left out')
            raise Vague('how the entries are taken')
        if mine[0][1][0] == 'rev':
            raise Wrong('the entries or elements are taken in reverse order')
        if source(mine[0][1]) != src[k]:
            raise Vague('how the entries are taken')
        if k == OBJECT:
            for (body, fcts), x in m.loops.get(mine[0][1], {}).items():
                n += 1
                entry(m, x, body, ('el', src[k]), S, unbox(q[3]), fs)
        else:
            for (body, fcts), x in m.loops.get(mine[0][1], {}).items():
                n += 1
                E = ('el', src[k])
                puts = [e for e in body if e[0] == 'put']
                if len(puts) != 1:
                    raise Wrong('an element of an array is %s' % ('added twice' if puts else 'left out'))
                same(m, x, puts[0][1], ('okof', ('ap', 'expand', E, S)), 'the element')
    return n, m


def entry(m, st, body, E, S, R, fs):
    """one entry of an object: the body of the loop over them"""
    key = f_(0, E)
    val = ('okof', ('ap', 'expand', f_(1, E), S))
    body = [e for e in body if e[:2] != ('ap', 'expand') and not inert(m, e)]
    test = ('ap', 'pred', key)
    should = truth(m, st, test)
    if should is None:
        raise Vague('whether the key is to be split')
    merges = [e for e in body if e[0] == 'merge']
    other = [e for e in body if e[0] not in ('merge', 'rep')]
    if other and all(e[0] == 'put' for e in body) and any(has(e[1], key) for e in body):
        raise Wrong('an entry is added without looking for its key')
    if other:
        raise Vague('an entry: %s' % shape.show(other[0], 80))
    if should:
        if merges:
            for e in merges:
                if e[3] == key:
                    raise Wrong('a key of several segments is kept as it is')
            raise Vague('merging of an entry')
        reps = [e for e in body if e[0] == 'rep']
        if len(reps) != 1:
            raise Wrong('an entry with a dotted key is lost') if not body else Vague('an entry with a dotted key')
        s = source(reps[0][1])
        if s[0] != 'entries':
            raise Vague('an entry with a dotted key')
        x = s[1]
        if x[2] not in (('split', key, ('i', 46)), ('ap', 'split', key, ('i', 46))):
            same(m, st, x[2], ('split', key, ('i', 46)), 'the path of a dotted key')
        same(m, st, x[3], val, 'the value of a dotted key')
        W = ('el', s)
        for (b, fcts), y in m.loops.get(reps[0][1], {}).items():
            b = effects(m, b)
            if len(b) != 1 or b[0][0] != 'merge':
                if any(e[0] == 'put' and has(e[1], W) for e in b) and not any(e[0] == 'merge' for e in b):
                    raise Wrong('an entry is added without looking for its key')
                raise Wrong('an entry with a dotted key is lost') if not b else Vague('an entry with a dotted key')
            arguments(m, y, b[0], R, f_(0, W), f_(1, W), S)
        return
    if len(merges) != 1 or len(body) != 1:
        raise Wrong('an entry is lost') if not body else Vague('an entry')
    marked = truth(m, st, ('ap', 'str::starts_with', key, ('i', ord(MARK))))
    k = merges[0][3]
    strip = ('ap', 'str::strip_prefix', key, ('i', ord(MARK)))
    if marked is None:
        marked = known(m, st, ('discr', strip), ('i', 1))
    cut = k == pay(1, strip) or k[0] == 'ap' and k[1].endswith('index') and k[2] == key and rest_from(k[3]) == ('i', len(MARK.encode()))
    if cut or k == key:
        if marked is None:
            if k == key and not any(has(a, key) and not has(a, ('ap', 'pred', key)) and a[0] != 'all' for a, p in m.facts(st)):
                raise Wrong('the mark of a quoted key is kept')
            raise Vague('whether the key is marked')
        if cut != marked:
            raise Wrong('the mark of a quoted key is kept' if marked else 'the beginning of a key is cut off')
        k = key
    else:
        if certain(k):
            raise Wrong('the key becomes %s' % shape.show(k, 80))
        raise Vague('the key %s' % shape.show(k, 80))
    arguments(m, st, merges[0], R, merges[0][3], val, S)


def arguments(m, st, e, R, key, val, S):
    if e[2] != R:
        raise Vague('the object merged into')
    same(m, st, e[3], key, 'the key of an entry')
    same(m, st, e[4], val, 'the value of an entry')
    if len(e) > 5:
        same(m, st, e[5], S, 'strict')


# ---- which keys ------------------------------------------------------------------------------------
def dotted(L):
    i = L.seq(specs.cls(L, specs.ALPHA | specs.o('_')), L.star(specs.cls(L, specs.ALPHA | specs.DIGIT | specs.o('_'))))
    return L.build(L.seq(i, L.plus(L.seq(L.lit('.'), i))))


def keys(chk, c, fs, cfg):
    an = lang.Analysis(chk, c, fs['pred'], [('s', 0, 1)], extra=specs.EXTRA + MARK, sets=specs.SETS)
    want = dotted(an.L)

    def says(outs, b):
        r = words.EMPTY
        for s, v in outs:
            if v == ('i', b) or v[0] in ('top', 'unk') and s.imp:
                r = words.union(r, s.aut)
        return words.plain(r)
    name = '%s: %s' % (cfg, fs['pred'].path)
    lang.decide(chk, name + ': only paths of identifiers are split', an, lambda outs, m: words.difference(says(outs, 1), want),
                key='split-other', what='key that is no path of identifiers split')
    lang.decide(chk, name + ': paths of identifiers are split', an, lambda outs, m: words.intersect(says(outs, 0), want),
                key='kept-path', what='path of identifiers kept as a key')


# ---- quoted keys -----------------------------------------------------------------------------------
def key_readers(c):
    for f in c.fnlist:
        ks = kinds(c, f)
        if f.kind != 'Closure' and tystr(c, f, 0) == 'std::string::String' and ks and bare(ks[0]).split('<')[0] == p_api.PP and \
                sum(is_text(k) for k in ks) == 1:
            yield f


def marks(chk, c, f, cfg):
    name = '%s [%s]' % (f.path, cfg)
    try:
        n = mark_rule(chk, c, f)
    except Wrong as e:
        return chk.violation('%s: %s' % (f.path, e), '%s: %s' % (name, e), name)
    except Vague as e:
        return chk.undecided(name, str(e))
    chk.analysed.add(f.path)
    if n:
        chk.ok(name, '%d outcomes' % n)


def value(t, x, w):
    """the value of a term when the text x is w; None: not known"""
    if t == x:
        return w
    if t[0] in ('i', 'c'):
        return t[1]
    if t[0] == 'lit':
        return t[1]
    if t[0] == 'len':
        y = value(t[1], x, w)
        return len(y.encode()) if isinstance(y, str) else None
    if t[0] == 'discr' and t[1][0] == 'ap':
        y = value(t[1], x, w)
        return None if y is None else int(y is not False)
    if t[0] == 'ap' and len(t) in (3, 4):
        a = [value(y, x, w) for y in t[2:]]
        if not isinstance(a[0], str) or None in a:
            return None
        n = t[1].split('::')[-1]
        if len(a) == 1:
            return {'is_empty': a[0] == '', 'len': len(a[0].encode())}.get(n)
        b = chr(a[1]) if isinstance(a[1], int) else a[1]
        if n in ('starts_with', 'ends_with'):
            return getattr(a[0], n.replace('_', ''))(b)
        if n == 'contains':
            return b in a[0]
        if n in ('find', 'rfind'):
            i = getattr(a[0], n)(b)
            return i if i >= 0 else False
    return None


def admits(m, st, x, w):
    """the path is one that the text x = w takes: True / False / None"""
    OPS = {'Eq': lambda a, b: a == b, 'Lt': lambda a, b: a < b, 'Le': lambda a, b: a <= b, 'Gt': lambda a, b: a > b, 'Ge': lambda a, b: a >= b}
    unknown = False
    for a, p in m.facts(st):
        if a[0] == 'all' or not has(a, x):
            continue
        if a[0] == 'B':
            y = value(a[1], x, w)
        elif a[0] in OPS:
            b = [value(z, x, w) for z in a[1:]]
            y = None if None in b or isinstance(b[0], str) != isinstance(b[1], str) else OPS[a[0]](*b)
        else:
            y = None
        if y is None:
            unknown = True
        elif bool(y) != p:
            return False
    return None if unknown else True


def some(m, st, x, ws):
    """one of the texts takes the path"""
    r = [(w, admits(m, st, x, w)) for w in ws]
    for w, y in r:
        if y:
            return w
    return None if any(y is None for w, y in r) else False


def mark_rule(chk, c, f):
    # reading a string literal is a step
    esc = {g.path: 'unescape' for g in c.fnlist if g.kind != 'Closure' and tystr(c, g, 0).startswith('std::result::Result<std::string::String, ')
           and g.argc == 1 and is_text(tystr(c, g, 1))}
    m = Exp(c, f, esc)
    m.deadline = time.time() + chk.slice(20)
    args = [T(('p', 'a%d' % (i + 1))) for i in range(f.argc)]
    k = next(args[i][1] for i in range(f.argc) if is_text(tystr(c, f, i + 1)))
    objs = [m.struct(p_api.PP, 'self')]
    args[0] = ('obj', 0)
    n = 0
    for st, v in m.start(f, args, user=(), objs=objs):
        x = m.tm(v, st)
        if x == ('c', ''):
            continue                     # an error is pending (D03, D09)
        at = [a[1] if a[0] == 'v' and len(a) == 2 else a for a in x[3:]] if x[0] == 'adt' and x[1] == 'Text' else [x]
        marked = at[0] == ('lit', MARK)
        if marked:
            at = at[1:]
        lit = ('okof', ('ap', 'unescape', k))
        if len(at) != 1 or at[0] not in (k, lit):
            if len(at) == 1 and certain(at[0]):
                raise Wrong('the key becomes %s' % shape.show(at[0], 80))
            raise Vague('the key %s' % shape.show(x, 90))
        n += 1
        flag = [p for a, p in m.facts(st) if a[0] == 'B' and a[1][0] == 'p' and a[1][1].startswith('self.')]
        on = None if not flag else True in flag
        if marked:
            if on is None:
                w = some(m, st, at[0], ('a.b', '.a', 'a', ''))
                if w is None:
                    raise Vague('when keys are marked')
                if w is not False:
                    raise Wrong('a key is marked whether or not paths are expanded')
            elif not on:
                raise Wrong('a key is marked although paths are not expanded')
            if at[0] == k:
                w = some(m, st, k, ('a', 'a.b', 'a.b.c', '_', 'a-b', 'A.'))
                if w is None:
                    raise Vague('a key without quotes is marked')
                if w is not False:
                    raise Wrong('a key without quotes (%s) is marked as quoted' % w)
        elif at[0] == lit and on is not False:
            if truth(m, st, ('ap', 'str::contains', lit, ('i', 46))) is False:
                continue
            w = some(m, st, lit, ('a.b', 'a.b.c', 'A1._', 'user.name', '_._'))
            if w is None:
                raise Vague('when quoted keys are marked')
            if w is not False:
                raise Wrong('a quoted key (%s) is not marked' % w)
            raise Vague('when quoted keys are marked')
    return n


# ---- the check -------------------------------------------------------------------------------------
RULES = (('merge', merge_rule), ('nested', nested_rule), ('expand', expand_rule))


def run(chk, c, fs, role, rule, cfg):
    path = fs[role].path
    name = '%s [%s]' % (path, cfg)
    try:
        n, m = rule(chk, c, fs)
    except Wrong as e:
        return chk.violation('%s: %s' % (path, e), '%s: %s' % (name, e), name)
    except Vague as e:
        return chk.undecided(name, str(e))
    chk.analysed |= m.analysed
    chk.analysed.add(path)
    chk.ok(name, '%d outcomes and loop bodies' % n) if n else chk.undecided(name, 'no outcome')


def expansion(chk):
    chk.rule('a key is split exactly when it is a dotted path of identifiers; a path of segments becomes that path of objects around the value; '
             'every entry of every object and every element of every array is expanded and merged into the result once, in order')
    chk.rule('with path expansion a quoted key with dots is marked, a key without quotes is not, and without expansion none is')
    chk.rule('merging: a new key is added; two objects are merged entry by entry; any other collision is an error in strict mode, '
             'and otherwise the later value replaces the earlier')
    for cfg in CFGS:
        c = chk.crate(cfg)
        fs = find(c)
        if fs is None:
            chk.undecided('path expansion [%s]' % cfg, 'functions not found')
            continue
        for role, rule in RULES:
            if role in fs:
                chk.guard('%s [%s]' % (fs[role].path, cfg), run, chk, c, fs, role, rule, cfg)
        for f in key_readers(c):
            chk.guard('%s [%s]' % (f.path, cfg), marks, chk, c, f, cfg)
        if 'pred' in fs:
            chk.guard('keys split [%s]' % cfg, keys, chk, c, fs, cfg)
