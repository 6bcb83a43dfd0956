"""Encoder: the lines written for a value are the TOON document of that value.

Every function that writes lines is followed symbolically.  The text it writes is collected as a sequence of
events (lines made of literals and terms, calls of other writing functions, loops over a collection) and
matched with the grammar of the format for the value the function was given."""
import os, time
from functools import lru_cache
import shape, ir, models
from shape import T, ANY, has, subst, OBJ
from absint import UNIT

LW = 'encode::writer::LineWriter'
OPT = 'options::Options'
OUT = ('p', 'W.out')
IND = ('p', 'indent')
OI = ('p', 'opts.indent')
PURE = ('format_key', 'format_string', 'format_number', 'format_f64', 'format_bool', 'key_needs_quotes', 'needs_quotes',
        'escape_and_quote', 'try_fold_keys', 'format_canonical_f64', 'is_non_finite')
# a value as a tree, as the text of a scalar (or an error), as a key
CONVERT = ('to_value', 'try_scalar_to_string', 'key_to_string')
# what a function writes: kind, is its key argument already text
CONTRACT = {
    'encode_value': ('value', None), 'encode_internal_value_alloc': ('value', None),
    'encode_object_field': ('field', 'raw'), 'encode_object_field_with_siblings': ('field', 'raw'),
    'encode_object_field_with_context': ('field', 'raw'), 'encode_object_field_alloc': ('field', 'text'),
    'encode_folded_value': ('field', 'text'),
    'encode_keyed_array': ('array', 'text'), 'encode_keyed_array_json': ('array', 'text'),
    'encode_keyed_array_alloc': ('array', 'text'), 'encode_array': ('array', None),
    'encode_list_item': ('item', None), 'encode_list_item_json': ('item', None), 'encode_list_item_alloc': ('item', None),
    'encode_list_item_array': ('itemarray', None), 'encode_list_item_object': ('itemobject', None),
}
NULL, BOOL, NUM, STR, ARR, OBJV = range(6)


def tystr(c, f, i):
    s = c.types[f.locals[i]].get('s', '') if i < len(f.locals) else ''
    return s


class EM(shape.Shape):
    def __init__(self, crate, root, delim, folding, budget=120000, known=None):
        super().__init__(crate, None, budget=budget)
        self.opaque = self.policy
        # functions found to write exactly n spaces, and tests of slices found to mean what is claimed
        self.indents, self.tests = known or (set(), None)
        self.root = root
        self.history = False
        self.objnames = []
        self.loops = {}          # (src, site) -> {phase: set of (events, facts)}
        self.lost = False        # the writer was given to a call that is not followed, in a loop
        self.pushes = {}
        self.delim, self.folding = delim, folding
        self.max_keys = 6000
        self.keep = lambda x: x[0][0] == 'Eq' and (x[0][1][0] == 'discr' or x[1]) and \
            all(b[0] == 'el' for b in shape.bases(x[0]))

    def hist(self, facts, es):
        no = set()
        for a, p in facts:
            if a[0] == 'Eq' and a[1][0] == 'discr' and a[2][0] == 'i' and a[1][1] in es[:1]:
                if p and a[2][1] < 4:
                    return frozenset([(('prim',), True)])
                no |= {a[2][1]} - {p}
        return frozenset([(('prim',), True)]) if {ARR, OBJV} <= no else frozenset()

    # ---- calls ------------------------------------------------------------------------------
    def policy(self, fn):
        if fn.name in CONTRACT and self.writes(fn):
            return 'contract'
        if fn.path in self.indents:
            return 'indent'
        if fn.name in CONVERT:
            return 'convert'
        if fn.name in PURE or self.is_pred(fn) and (self.tests is None or fn.path in self.tests):
            return 'pure'
        return None

    def writes(self, fn):
        return any('LineWriter' in tystr(self.c, fn, i) for i in range(1, fn.argc + 1))

    def is_pred(self, fn):
        """a test of a slice of values"""
        a = [tystr(self.c, fn, i) for i in range(1, fn.argc + 1)]
        r = tystr(self.c, fn, 0)
        return len(a) == 1 and '[' in a[0] and 'Value' in a[0] and (r == 'bool' or 'Option<' in r)

    def call_opaque(self, st, fn, args, dst, to, t, p):
        if to is None:
            return []
        if p == 'indent':
            self.emit(st, [('ind', self.tm(models.val_of(self, st, args[1]), st))])
            return self.deliver(st, dst, to, UNIT)
        if p == 'convert':
            return self.deliver(st, dst, to, T(('ap', fn.name, self.tm(args[0], st))))
        if p == 'contract':
            kind, kt = CONTRACT[fn.name]
            d = {'key': None, 'val': None, 'ind': None, 'opts': None}
            for i, a in enumerate(args):
                s = tystr(self.c, fn, i + 1)
                if 'LineWriter' in s:
                    continue
                if 'Options' in s:
                    d['opts'] = self.optterm(st, a)
                elif s == 'usize':
                    d['ind'] = self.tm(a, st)
                elif s == '&str':
                    d['key'] = tuple(self.texts(st, a))
                elif 'Value' in s and d['val'] is None:
                    d['val'] = self.tm(models.val_of(self, st, a), st)
            self.add(st, ('C', kind, kt, d['key'], d['val'], d['ind'], d['opts'], fn.name))
            return self.deliver(st, dst, to, ('adt', 'Result', 0, (UNIT,)))
        return super().call_opaque(st, fn, args, dst, to, t, p)

    def optterm(self, st, a):
        v = models.val_of(self, st, a)
        if v[0] == 'adt' and v[1] == OPT:
            return tuple(self.tm(x, st) for x in v[3])
        return self.tm(v, st)

    # ---- events -----------------------------------------------------------------------------
    def texts(self, st, v):
        return self.atoms(st, shape.text_of(self, st, v))

    def atoms(self, st, at):
        out = []
        for a in at:
            if a[0] == 'lit':
                out.append(a)
            elif a[0] == 'num':
                out.append(('x', self.tm(a[1], st)))
            elif a[0] == 'v':
                x = models.val_of(self, st, a[1])
                if x[0] == 'adt' and x[1] == 'Text':
                    out += self.atoms(st, list(x[3]))
                elif x[0] == 'c':
                    out.append(('lit', x[1]))
                else:
                    out.append(('x', self.tm(x, st)))
            elif a[0] == 'join':
                out.append(('join', self.tm(a[1], st), tuple(self.atoms(st, list(a[2])))))
            elif a[0] == 'lp':
                out.append(('loop', a[1], tuple(self.atoms(st, list(a[2]))), tuple(self.atoms(st, list(a[3]))) if a[3] is not None else None))
            elif a[0] == 'lpo' and not a[2] and a[3] is None:
                pass              # the string was begun in this iteration
            else:
                out.append(('x', ANY))
        return out

    def events(self, st):
        return self.user(st)

    def add(self, st, e):
        self.setuser(st, self.user(st) + (e,))

    def emit(self, st, atoms):
        ev = list(self.user(st))
        cur = list(ev.pop()[1]) if ev and ev[-1][0] == 'W' else []
        for a in atoms:
            if a[0] == 'x' and a[1][0] == 'ap' and a[1][1].endswith('repeat') and len(a[1]) == 4 and a[1][2] == ('c', ' '):
                a = ('ind', a[1][3])
            if a[0] == 'lit':
                parts = a[1].split('\n')
                for i, p in enumerate(parts):
                    if i:
                        ev.append(('L', tuple(shape.join_lits(cur))))
                        cur = []
                    if p:
                        cur.append(('lit', p))
            else:
                cur.append(a)
        if cur:
            ev.append(('W', tuple(cur)))
        self.setuser(st, tuple(ev))

    def on_text(self, st, t, ref, old, at):
        if old == T(OUT):
            self.emit(st, self.atoms(st, at))
            return True
        # a string built in a loop
        ls = shape.loops(st)
        if not ls:
            return False
        src, first = ls[-1]
        cur = shape.text_of(self, st, old)
        if not any(a[0] == 'lpo' and a[1] == src for a in cur):
            cur = cur + [('lpo', src, None if first else (), None)]
        self.store(st, ref[1], ref[2], shape.mk_text(self, st, cur + list(at)))
        return True

    def on_push(self, st, t, ref, old, vals):
        ls = shape.loops(st)
        if ls and old[0] == 't':
            x = old[1]
            base = x[3] if x[0] == 'grow' else x
            self.pushes.setdefault(unb((ls[-1][0], base)), set()).add(unb((self.term(st, vals[-1]), self.facts(st))))
        elif not ls:
            # into a collection of the serializer
            r = shape.final_ref(self, st, ref)
            k = r[1][1] - OBJ if r[1][0] == 0 and isinstance(r[1][1], int) else -1
            p = [e for e in r[2] if e[0] == 'f']
            if 0 <= k < len(self.objnames) and p:
                f = self.c.adts.get(self.objnames[k])
                self.add(st, ('P', f['variants'][0]['f'][p[0][1]][0] if f else '?', tuple(self.tm(v, st) for v in vals), self.tm(old, st)))

    def term(self, st, v):
        """a value as a term; text becomes ('text', atoms)"""
        at = self.texts(st, v)
        if len(at) == 1 and at[0][0] == 'x':
            return at[0][1]
        return ('text', tuple(at))

    def bound(self, x, src):
        for e in shape.elems(src, []):
            x = subst(x, e, ('b',) + e)
            x = subst(x, ('idx', e[1]), ('b', 'idx', e[1]))
        return x

    def on_iter(self, st, src, phase):
        self.fold_text(st, src, phase)
        ev = list(self.user(st))
        if phase == 'first':
            self.setuser(st, tuple(ev + [('open', src, self.site(st)[-1], 0)]))
            return
        i = len(ev) - 1
        while i >= 0 and not (ev[i][0] == 'open' and ev[i][1] == src):
            i -= 1
        if i < 0:
            return
        n = ev[i][3]
        if src[0] == 'range' and src[1] == ('i', 0) and phase != 'more' and n and self.pads(src, ev[i][2]):
            ev[i:] = []
            self.setuser(st, tuple(ev))
            self.emit(st, [('ind', src[2])])
            return
        if phase == 'more':
            body = self.bound(tuple(ev[i + 1:]), src)
            fs = frozenset(self.bound(x, src) for x in self.facts(st))
            self.loops.setdefault((unb(src), ev[i][2], min(n, 1)), set()).add((unb(body), unb(fs)))
            if not intact(self, st):
                self.lost = True
            ev[i:] = [('open', src, ev[i][2], min(n + 1, 2))]
        elif n == 0:
            del ev[i]
        else:
            ev[i] = ('rep', src, ev[i][2])
        self.setuser(st, tuple(ev))

    def pads(self, src, site):
        """every iteration writes one space"""
        bs = [b for n in (0, 1) for b, _ in self.loops.get((unb(src), site, n), ())]
        return bs and all(b == (('W', (('lit', ' '),)),) for b in bs)

    def fold_text(self, st, src, phase):
        if phase == 'first':
            return

        def f(v):
            if v[0] != 'adt':
                return v
            if v[1] != 'Text':
                return v[:3] + (tuple(f(x) for x in v[3]),)
            for i, a in enumerate(v[3]):
                if a[0] == 'lpo' and a[1] == src:
                    new = self.bound(tuple(shape.join_lits(list(v[3][i + 1:]))), src)
                    if phase == 'end':
                        return T(ANY) if new else v[:3] + (v[3][:i] + (('lp', src, a[2] or (), a[3]),),)
                    if a[2] is None:
                        x = ('lpo', src, new, None)
                    elif a[3] is None:
                        x = ('lpo', src, a[2], new)
                    elif a[3] == new:
                        x = a
                    else:
                        return T(ANY)
                    return v[:3] + (v[3][:i] + (x,),)
            return v
        for fr in st.frames:
            for l, v in list(fr.loc.items()):
                if v[0] == 'adt':
                    fr.loc[l] = f(v)


def examine(chk, c, f, delim, folding, budget=120000, known=None):
    m = EM(c, f, delim, folding, budget, known)
    m.deadline = time.time() + chk.slice(60)
    known = {'delimiter': ('adt', 'options::Delimiter', delim, ()),
             'key_folding': ('adt', 'options::KeyFolding', folding, ()), 'indent': T(OI)}
    opts = m.struct(OPT, 'opts', known)
    lw = m.struct(LW, 'W', {'out': T(OUT)})
    ss = 'ser::stream::StreamingSerializer'
    ser = m.struct(ss, 'ser', {'w': ('ref', (0, OBJ), ()), 'opts': ('ref', (0, OBJ + 1), ()), 'indent': T(IND)})
    objs = [lw, opts, ser]
    args = []
    for i in range(1, f.argc + 1):
        s = tystr(c, f, i)
        if 'LineWriter' in s:
            args.append(('obj', 0))
        elif 'Options' in s and 'Option<' not in s:
            args.append(('obj', 1))
        elif 'StreamingSerializer' in s:
            args.append(('obj', 2))
        elif s == 'usize':
            args.append(T(IND))
        elif s == '&str':
            args.append(T(('p', 'key')))
        elif 'Value' in s:
            args.append(T(('p', 'val')))
        else:
            p = s.split('<')[0].lstrip('&').replace('mut ', '')
            if p in c.adts and any(x[0] == 'parent' for x in c.adts[p]['variants'][0]['f']):
                x = m.struct(p, 'self', {'parent': ('ref', (0, OBJ + 2), ())})
                if s.startswith('&'):
                    objs.append(x)
                    args.append(('obj', len(objs) - 1))
                else:
                    args.append(x)
            else:
                args.append(T(('p', 'arg%d' % i)))
    m.objnames = [x[1] for x in objs]
    outs = m.start(f, args, user=(), objs=objs)
    return m, outs


# ---- the grammar ------------------------------------------------------------------------------------
class Mismatch(Exception):
    def __init__(self, kind, msg, sure=True):
        self.kind, self.msg, self.sure = kind, msg, sure


@lru_cache(None)
def unb(t):
    """names of the elements of finished iterations, as names of elements"""
    if isinstance(t, tuple):
        if len(t) == 3 and t[0] == 'b' and t[1] in ('el', 'idx'):
            return (t[1], unb(t[2]))
        return tuple(unb(x) if isinstance(x, (tuple, frozenset)) else x for x in t)
    if isinstance(t, frozenset):
        return frozenset(unb(x) if isinstance(x, (tuple, frozenset)) else x for x in t)
    return t


VIEW = {'Value::as_object': OBJV, 'Value::as_array': ARR, 'Value::as_str': STR, 'Value::as_bool': BOOL}


def vague(t):
    """does the term hold a value the analysis knows nothing about"""
    if t == ANY:
        return True
    if isinstance(t, tuple) and t and t[0] in ('new', 'mut', 'old', 'top', 'unk', '?', 'sub', 'grow'):
        return True
    if isinstance(t, (tuple, frozenset)):
        return any(vague(x) for x in t if isinstance(x, (tuple, frozenset)))
    return False


@lru_cache(None)
def norm(t):
    if not isinstance(t, tuple):
        return t
    t = tuple(norm(x) if isinstance(x, tuple) else x for x in t)
    if t and t[0] == 'f' and t[1] == 0 and t[2][0] == 'v' and t[2][1] == 1 and t[2][2][0] == 'ap':
        a = t[2][2]
        for k, n in VIEW.items():
            if a[1].endswith(k):
                return ('f', 0, ('v', n, a[2]))
        if a[1].endswith('Map::get') or a[1].endswith('Map::get_mut'):
            return ('lookup', a[2], a[3])
    if t and t[0] == 'ap' and t[1].split('::')[-1] in ('clone', 'to_string', 'to_owned', 'as_str', 'borrow') and len(t) == 3:
        return t[2]
    return t


def lin(t, k=1, out=None):
    out = {} if out is None else out
    if t[0] == 'i':
        out[1] = out.get(1, 0) + k * t[1]
    elif t[0] == 'op' and t[1] == 'Add':
        lin(t[2], k, out)
        lin(t[3], k, out)
    elif t[0] == 'op' and t[1] == 'Mul' and t[2][0] == 'i':
        lin(t[3], k * t[2][1], out)
    elif t[0] == 'op' and t[1] == 'Mul' and t[3][0] == 'i':
        lin(t[2], k * t[3][1], out)
    else:
        out[t] = out.get(t, 0) + k
    return {x: n for x, n in out.items() if n}


def plus(t, n):
    return ('op', 'Add', t, ('op', 'Mul', ('i', n), OI)) if n else t


def ap(name, *a):
    return ('ap', name) + a


def contrary(f1, f2):
    d = dict(f1)
    eq = {a[1]: a[2] for a, p in f1 if p and a[0] == 'Eq' and a[2][0] in ('i', 'c')}
    for a, p in f2:
        if a in d and d[a] != p:
            return True
        if p and a[0] == 'Eq' and a[2][0] in ('i', 'c') and a[1] in eq and eq[a[1]] != a[2]:
            return True
    return False


def option(x, fs):
    """is the Option there on this path; None if not tested"""
    for a, p in fs:
        if a[0] == 'Eq' and a[1] == ('discr', x) and a[2][0] == 'i':
            return p == (a[2] == ('i', 1))
    return None


def by_element(t, coll, i):
    """coll[i], i the generic index, as the generic element"""
    if isinstance(t, frozenset):
        return frozenset(by_element(x, coll, i) for x in t)
    if not isinstance(t, tuple):
        return t
    if len(t) == 3 and t[0] == 'ix' and t[1] == coll and t[2] == i:
        return ('el', coll)
    return tuple(by_element(x, coll, i) if isinstance(x, (tuple, frozenset)) else x for x in t)


class Matcher:
    def __init__(self, m, preds):
        self.m = m
        self.preds = preds          # predicate name -> set of 'prim' / 'columns'
        self.delim = ',\t|'[m.delim]
        self.sym = '' if m.delim == 0 else self.delim
        self.n = 0
        f = [x[0] for x in m.c.adts[OPT]['variants'][0]['f']]
        self.oi, self.od = f.index('indent'), f.index('delimiter')

    # ---- facts
    def variant(self, x, fs):
        x = norm(x)
        no = set()
        for a, p in fs:
            if a[0] == 'Eq' and a[1][0] == 'discr' and a[2][0] == 'i' and norm(a[1][1]) == x:
                if p:
                    return a[2][1]
                no.add(a[2][1])
        if len(no) == 6:
            return 'none'
        if len(no) == 5:
            return ({0, 1, 2, 3, 4, 5} - no).pop()
        return ('not', frozenset(no)) if no else None

    def empty(self, x, fs):
        x = norm(x)
        for a, p in fs:
            if a[0] == 'Eq' and a[2] == ('i', 0) and a[1][0] == 'len' and norm(a[1][1]) == x:
                return p
        return None

    def claims(self, items, fs, what):
        """is it known on this path that all items are primitive"""
        items = norm(items)
        for a, p in fs:
            if p and a[0] == 'B' and a[1][0] == 'ap' and norm(a[1][2]) == items and what in self.preds.get(a[1][1], ()):
                return True
            if p and a[0] == 'all' and norm(a[1]) == items and what == 'prim' and a[2]:
                if all((('prim',), True) in h for h in a[2]):
                    return True
        return False

    def columns(self, keys, items):
        """keys are the columns of the table items"""
        k = norm(keys)
        return k[0] == 'f' and k[1] == 0 and k[2][0] == 'v' and k[2][1] == 1 and k[2][2][0] == 'ap' and \
            'columns' in self.preds.get(k[2][2][1], ()) and k[2][2][2] == norm(items)

    # ---- text
    def v_atoms(self, v):
        if v[0] == 't':
            return (('x', v[1]),) if v[1][0] != 'text' else v[1][1]
        if v[0] == 'c':
            return (('lit', v[1]),)
        if v[0] == 'adt' and v[1] == 'Text':
            out = []
            for a in v[3]:
                if a[0] == 'lit':
                    out.append(a)
                elif a[0] == 'v':
                    out += list(self.v_atoms(a[1]))
                else:
                    out.append(('x', ANY))
            return tuple(out)
        if v[0] == 'i':
            return (('x', v),)
        return (('x', ANY),)

    def elements(self, a):
        """join or loop atom -> (collection, [(atoms of an element, facts)], separator text)"""
        if a[0] == 'loop':
            src, first, rest = a[1], a[2], a[3]
            while src[0] == 'enum':
                src = src[1]
            sep = None
            if rest is not None:
                k = len(rest) - len(first)
                if k < 0 or rest[k:] != first and not (len(first) == 1 and rest[k:] == first):
                    raise Mismatch('header', 'elements after the first are written differently: %s' % self.show(rest), not vague(rest))
                sep = self.flat(rest[:k])
            if len(first) == 1 and first[0][0] == 'x' and first[0][1] == ('el', src):
                base, els, _ = self.source(src)
                return base, els, sep
            return src, [(first, frozenset())], sep
        base, els, _ = self.source(a[1])
        return base, els, self.flat(a[2])

    def source(self, t):
        """a collection -> (underlying collection, elements, None)"""
        if t[0] == 'map':
            base, site = t[1], t[2]
            bs = [unb((self.v_atoms(v), fs)) for v, fs in self.m.bodies.get(site, ())]
            if not bs:
                raise Mismatch('row', 'elements of %s are not known' % shape.show(t), False)
            while base[0] == 'enum':
                base = base[1]
            if base[0] == 'map':
                raise Mismatch('row', 'chain of maps', False)
            return base, bs, None
        if t[0] == 'grow' and t[2] == 2:
            ps = self.m.pushes.get((t[1], t[3]))
            if not ps:
                raise Mismatch('row', 'elements of %s are not known' % shape.show(t), False)
            base = t[1]
            return base, [(self.v_atoms(('t', v)), fs) for v, fs in ps], None
        if t[0] == 'sub':
            raise Mismatch('row', 'only some elements are written')
        return t, [((('x', ('el', t)),), frozenset())], None

    def flat(self, atoms):
        s = ''
        for a in atoms:
            if a[0] == 'lit':
                s += a[1]
            elif a[0] == 'x' and a[1][0] == 'i':
                s += chr(a[1][1])
            else:
                raise Mismatch('header', 'separator %s is not constant' % self.show(atoms), not vague(atoms))
        return s

    def show(self, atoms):
        return ' '.join(repr(a[1]) if a[0] == 'lit' else '%s(%s)' % (a[0], shape.show(a[1], 80)) for a in atoms)

    def prim(self, atoms, x, fs, guard):
        """atoms are the text of the primitive x"""
        x = norm(x)
        var = self.variant(x, fs)
        at = tuple(shape.join_lits(list(atoms)))
        if var == 'none':
            return
        if len(at) != 1:
            raise Mismatch('scalar', 'a primitive is written as %s' % self.show(at), not vague(at))
        a = at[0]
        pay = lambda k: ('f', 0, ('v', k, x))
        if a[0] == 'x':
            t = norm(a[1])
            if t[0] == 'ap':
                fn = t[1].split('::')[-1]
                if fn == 'format_string' and t[2] == pay(STR) and t[3] == ('adt', 'options::Delimiter', self.m.delim):
                    return
                if fn == 'format_number' and t[2] == pay(NUM) or fn == 'format_bool' and t[2] == pay(BOOL):
                    return
            if t == pay(NUM) and self.alloc():
                return
            raise Mismatch('scalar', 'a primitive is written as %s' % shape.show(t, 120), not vague(t))
        if a[0] == 'lit':
            if a[1] == 'null' and var == NULL:
                return
            if a[1] in ('true', 'false'):
                for b, p in fs:
                    if b[0] == 'B' and norm(b[1]) == pay(BOOL) and p == (a[1] == 'true'):
                        return
            if guard and (var in (ARR, OBJV) or isinstance(var, tuple) and var[1] >= {0, 1, 2, 3}):
                return
            raise Mismatch('scalar', 'the literal %r is written for a value of another kind' % a[1], var is not None)
        raise Mismatch('scalar', 'a primitive is written as %s' % self.show(at), not vague(at))

    def alloc(self):
        return 'value_builder_alloc' in str(self.m.root.path) or any('alloc' in f.path for f in (self.m.root,)) or \
            'SeqSerAlloc' in self.m.root.path

    # ---- lines
    def line(self, ev, i, ind, kind='field'):
        """-> atoms after the indentation"""
        if i >= len(ev):
            raise Mismatch(kind, 'nothing is written')
        e = ev[i]
        if e[0] in ('W',):
            raise Mismatch(kind, 'a line is not ended')
        if e[0] != 'L':
            raise Mismatch(kind, 'no line is written but %s' % self.ev(e), not vague(e))
        at = e[1]
        if at and at[0][0] == 'ind':
            got, rest = at[0][1], at[1:]
        else:
            got, rest = ('i', 0), at
        self.same_ind(got, ind)
        return rest

    def same_ind(self, got, want):
        if got is None or vague(got):
            raise Mismatch('indent', 'the indentation is not followed', False)
        if lin(got) != lin(want):
            if lin(got) == {} and any(p and a[0] == 'Eq' and a[2] == ('i', 0) and lin(a[1]) == lin(want) for a, p in self.fs):
                return
            raise Mismatch('indent', 'indented by %s instead of %s' % (shape.show(got), shape.show(want)))

    def ev(self, e):
        if e[0] == 'C':
            return 'a call of %s' % e[7]
        if e[0] in ('rep', 'open'):
            return 'a loop over %s' % shape.show(e[1], 60)
        return 'the line %s' % self.show([a for a in e[1]])

    def eat(self, at, want, kind, what):
        """consume the atoms of want"""
        at = list(at)
        for w in want:
            if w[0] == 'lit':
                s = w[1]
                while s:
                    if at and at[0][0] == 'lit' and at[0][1] and (s.startswith(at[0][1]) or at[0][1].startswith(s)):
                        n = min(len(s), len(at[0][1]))
                        s = s[n:]
                        r = at[0][1][n:]
                        at[:1] = [('lit', r)] if r else []
                    elif at and at[0][0] == 'x' and at[0][1][0] == 'i' and s[:1] == chr(at[0][1][1]):
                        s = s[1:]
                        at.pop(0)
                    else:
                        raise Mismatch(kind, '%s: expected %r, found %s' % (what, s, self.show(at) or 'the end'), not vague(tuple(at[:1])))
            else:
                if not at or at[0][0] != 'x' or norm(at[0][1]) != norm(w[1]):
                    raise Mismatch(kind, '%s: expected %s, found %s' % (what, shape.show(w[1], 100), self.show(at) or 'the end'),
                                   not vague(tuple(at[:1])))
                at.pop(0)
        return tuple(at)

    def count(self, at, items, fs):
        if at and at[0][0] == 'x':
            t = at[0][1]
            if t == ('i', 0) and self.empty(items, fs):
                return at[1:]
            if t[0] == 'len' and norm(t[1]) == norm(items):
                return at[1:]
            raise Mismatch('header', 'the declared length is %s, not the number of elements of %s'
                           % (shape.show(t, 80), shape.show(items, 80)), not vague(t) or t[0] == 'len' and t[1][0] == 'sub')
        if at and at[0][0] == 'lit' and at[0][1][:1] == '0' and self.empty(items, fs):
            r = at[0][1][1:]
            return ((('lit', r),) if r else ()) + at[1:]
        raise Mismatch('header', 'no length is declared: %s' % self.show(at), not vague(at))

    # ---- constructs; each returns the index after what it consumed
    def call(self, ev, i, kind, key, val, ind):
        """is the next event a call that writes exactly this"""
        if i >= len(ev) or ev[i][0] != 'C' or ev[i][1] != kind:
            return False
        e = ev[i]
        if e[4] is None or vague(e[4]):
            raise Mismatch('field', 'the value given to %s is not followed' % e[7], False)
        if norm(e[4]) != norm(val):
            raise Mismatch('field', '%s is given %s instead of %s' % (e[7], shape.show(e[4], 80), shape.show(val, 80)))
        if key is not None:
            k = e[3]
            if k is None and key:
                raise Mismatch('field', '%s is given no key' % e[7])
            if e[2] == 'raw':
                if len(k) != 1 or k[0][0] != 'x':
                    raise Mismatch('field', 'the key given to %s is not followed' % e[7], False)
                k = (('x', ap('primitives::format_key', k[0][1])),)
            if norm(tuple(k or ())) != norm(tuple(x for x in key)):
                if not (tuple(k or ()) == (('lit', ''),) and not key):
                    raise Mismatch('field', '%s is given the key %s instead of %s' % (e[7], self.show(k or ()), self.show(key)), not vague(k or ()))
        self.same_ind(e[5], ind)
        o = e[6]
        if not (isinstance(o, tuple) and len(o) > max(self.oi, self.od) and not isinstance(o[0], str)):
            raise Mismatch('field', 'the options given to %s are not followed' % e[7], False)
        if o[self.oi] != OI or o[self.od] != ('adt', 'options::Delimiter', self.m.delim):
            raise Mismatch('field', '%s is given other options' % e[7], not vague(o))
        return True

    def value(self, ev, i, x, fs, ind):
        if self.call(ev, i, 'value', None, x, ind):
            return i + 1
        var = self.variant(x, fs)
        if var == ARR:
            return self.array(ev, i, (), ('f', 0, ('v', ARR, x)), fs, ind, plus(ind, 1))
        if var == OBJV:
            return self.object(ev, i, ('f', 0, ('v', OBJV, x)), fs, ind)
        self.prim(self.line(ev, i, ind, 'scalar'), x, fs, False)
        return i + 1

    def bodies(self, e, fs):
        if e[2][0] == 'split':
            yield 0, e[2][2], fs
            for n in (0, 1):
                for body, bf in self.m.loops.get((('skip', e[1], ('i', 1)), e[2][1], n), ()):
                    if not contrary(fs, bf):
                        yield 1, self.clean(body), bf
            return
        src = self.indexed(e[1])
        if src != e[1]:
            fix = lambda t: by_element(t, src, ('el', e[1]))
        else:
            fix = lambda t: t
        for n in (0, 1):
            for body, bf in self.m.loops.get((e[1], e[2], n), ()):
                if not contrary(fs, bf):
                    yield n, fix(self.clean(body)), fix(bf)

    def clean(self, ev):
        """drop loops that write nothing; join the two halves of a split iteration"""
        out = []
        ev = list(ev)
        for i, e in enumerate(ev):
            if e[0] == 'open':
                for j in range(i + 1, len(ev)):
                    if ev[j][0] == 'rep' and ev[j][1] == ('skip', e[1], ('i', 1)):
                        return tuple(out) + (('rep', e[1], ('split', ev[j][2], self.clean(ev[i + 1:j]))),) + self.clean(ev[j + 1:])
                continue
            if e[0] == 'rep':
                if not any(self.clean(b) for n in (0, 1) for b, _ in self.m.loops.get((e[1], e[2], n), ())):
                    continue
            out.append(e)
        return tuple(out)

    def over(self, e, coll):
        """the loop visits every element of coll, in order -> name of the element"""
        src = self.indexed(e[1])
        while src[0] in ('enum', 'iter'):
            src = src[1]
        if norm(src) == norm(coll):
            return ('pair', ('el', src))
        if src[0] == 'ap' and src[1].split('::')[-1] == 'keys' and norm(src[2]) == norm(coll):
            return ('key', ('el', src))
        raise Mismatch('field', 'the loop goes over %s instead of %s' % (shape.show(src, 80), shape.show(coll, 80)), not vague(src))

    def indexed(self, src):
        """a loop over the indices of a collection is one over its elements"""
        if src[0] == 'range' and src[1] == ('i', 0) and src[2][0] == 'len':
            return src[2][1]
        return src

    def kv(self, how, el, o):
        if how == 'pair':
            return ('f', 0, el), ('f', 1, el)
        return el, ('lookup', o, el)

    def object(self, ev, i, o, fs, ind):
        if i < len(ev) and ev[i][0] == 'rep':
            how, el = self.over(ev[i], o)
            k, v = self.kv(how, el, o)
            key = (('x', ap('primitives::format_key', k)),)
            for n, body, bf in self.bodies(ev[i], fs):
                self.whole(lambda b, j: self.field(b, j, key, v, bf, ind, ind), body, 'field')
            return i + 1
        if self.empty(o, fs):
            return i
        raise Mismatch('field', 'the fields of %s are not written%s' % (shape.show(o, 80), '' if i >= len(ev) else '; ' + self.ev(ev[i])))

    def whole(self, f, body, kind):
        self.n += 1
        j = f(body, 0)
        if j != len(body):
            raise Mismatch(kind, 'more is written: %s' % self.ev(body[j]), not vague(body[j]))

    def field(self, ev, i, key, v, fs, ind, lvl):
        """key: text before the value; ind: indentation of the line; lvl: indentation of the fields of this object"""
        f = self.folded(ev, i, key, v, fs, ind, lvl)
        if f is not None:
            return f
        if ind == lvl and self.call(ev, i, 'field', key, v, ind):
            return i + 1
        var = self.variant(v, fs)
        if var == ARR:
            return self.array(ev, i, key, ('f', 0, ('v', ARR, v)), fs, ind, plus(lvl, 1))
        if var == OBJV:
            o = ('f', 0, ('v', OBJV, v))
            rest = self.eat(self.line(ev, i, ind), key + (('lit', ':'),), 'field', 'object field')
            if rest:
                raise Mismatch('field', 'text after the colon of an object field: %s' % self.show(rest), not vague(rest))
            i += 1
            if self.call(ev, i, 'value', None, v, plus(lvl, 1)):
                return i + 1
            return self.object(ev, i, o, fs, plus(lvl, 1))
        rest = self.eat(self.line(ev, i, ind), key + (('lit', ': '),), 'field', 'field')
        self.prim(rest, v, fs, False)
        return i + 1

    def folded(self, ev, i, key, v, fs, ind, lvl):
        """the field of a chain of single-key objects under its dotted key"""
        if i >= len(ev) or ev[i][0] != 'C' or ev[i][1] != 'field' or ev[i][2] != 'text' or ind != lvl:
            return None
        e = ev[i]
        k = e[3]
        if len(k) == 1 and k[0][0] == 'x':
            t = norm(k[0][1])
            if t[0] == 'f' and t[2][0] == 'f' and t[2][2][0] == 'v' and t[2][2][2][0] == 'ap' and \
                    'fold' in t[2][2][2][1]:
                a = t[2][2][2]
                if key != (('x', ap('primitives::format_key', a[2])),) or norm(a[3]) != norm(('f', 0, ('v', OBJV, v))):
                    raise Mismatch('field', 'the folded key is that of another field')
                if norm(e[4]) != norm(('f', 1, t[2])):
                    raise Mismatch('field', 'the folded key is written with another value')
                if self.m.folding != 1:
                    raise Mismatch('field', 'keys are folded although folding is off')
                self.same_ind(e[5], ind)
                return i + 1
        return None

    def array(self, ev, i, key, items, fs, ind, rows):
        if lin(rows) == lin(plus(ind, 1)):
            if self.call(ev, i, 'array', key, items, ind):
                return i + 1
            if key == (('lit', '- '),) and self.call(ev, i, 'itemarray', None, items, ind):
                return i + 1
        at = self.line(ev, i, ind, 'header')
        at = self.eat(at, tuple(key) + (('lit', '['),), 'header', 'array header')
        at = self.count(at, items, fs)
        at = self.eat(at, (('lit', self.sym + ']'),), 'header', 'delimiter declared by the header')
        i += 1
        if at and at[0][0] == 'lit' and at[0][1] == ':' and len(at) == 1:
            if i < len(ev) and ev[i][0] == 'rep':
                how, el = self.over(ev[i], items)
                for n, body, bf in self.bodies(ev[i], fs):
                    self.whole(lambda b, j: self.item(b, j, el, bf, rows), body, 'item')
                return i + 1
            if self.empty(items, fs):
                return i
            raise Mismatch('item', 'the items of %s are not written%s' % (shape.show(items, 80), '' if i >= len(ev) else '; ' + self.ev(ev[i])))
        if at and at[0][0] == 'lit' and at[0][1].startswith(':'):
            at = self.eat(at, (('lit', ': '),), 'header', 'array header')
            if len(at) != 1 or at[0][0] not in ('join', 'loop'):
                raise Mismatch('row', 'inline values are written as %s' % self.show(at), not vague(at))
            base, els, sep = self.elements(at[0])
            if norm(base) != norm(items):
                raise Mismatch('row', 'the inline values are those of %s' % shape.show(base, 80), not vague(base))
            self.separator(sep)
            if not self.claims(items, fs, 'prim'):
                raise Mismatch('header', 'an array is written inline although its elements need not be primitive')
            if self.empty(items, fs):
                raise Mismatch('header', 'an empty array is written inline')
            for a, bf in els:
                self.n += 1
                self.prim(a, ('el', base), bf, True)
            return i
        at = self.eat(at, (('lit', '{'),), 'header', 'array header')
        if at == (('lit', '}:'),) and any(p and a[0] == 'Eq' and a[2] == ('i', 0) and a[1][0] == 'len' and
                                          self.columns(a[1][1], items) for a, p in fs):
            return len(ev)        # a table has columns
        if not at or at[0][0] not in ('join', 'loop'):
            raise Mismatch('header', 'the fields of a table are written as %s' % self.show(at), not vague(at) and at[0] != ('lit', '}:'))
        base, els, sep = self.elements(at[0])
        if not self.columns(base, items):
            raise Mismatch('header', 'the fields of a table are %s' % shape.show(base, 80), not vague(base))
        cols = base
        self.separator(sep)
        for a, bf in els:
            self.eat(a, (('x', ap('primitives::format_key', ('el', cols))),), 'header', 'field of a table')
        at = self.eat(at[1:], (('lit', '}:'),), 'header', 'table header')
        if at:
            raise Mismatch('header', 'text after a table header: %s' % self.show(at), not vague(at))
        if i >= len(ev) and self.empty(items, fs):
            return i              # a table has rows
        if i >= len(ev) or ev[i][0] != 'rep':
            raise Mismatch('row', 'the rows of %s are not written' % shape.show(items, 80))
        how, el = self.over(ev[i], items)
        for n, body, bf in self.bodies(ev[i], fs):
            self.whole(lambda b, j: self.row(b, j, el, cols, bf, rows), body, 'row')
        return i + 1

    def separator(self, sep):
        if sep is not None and sep != self.delim:
            raise Mismatch('delim', 'elements are separated by %r instead of %r' % (sep, self.delim))

    def row(self, ev, i, el, cols, fs, ind):
        at = self.line(ev, i, ind, 'row')
        if len(at) != 1 or at[0][0] not in ('join', 'loop'):
            if not at and self.empty(cols, fs):
                return i + 1
            raise Mismatch('row', 'a row is written as %s' % self.show(at), not vague(at))
        base, els, sep = self.elements(at[0])
        if norm(base) != norm(cols):
            raise Mismatch('row', 'the cells of a row follow %s instead of the fields of the header' % shape.show(base, 80), not vague(base))
        self.separator(sep)
        o = ('f', 0, ('v', OBJV, el))
        k = ('el', base)
        for a, bf in els:
            self.n += 1
            self.prim(a, self.cellvalue(a, o, k, bf), bf, True)
        return i + 1

    def cellvalue(self, a, o, k, fs):
        """the value of column k: a lookup, or the entry found by its key"""
        found = ('el', norm(o))
        for b, p in fs:
            if p and b[0] == 'Eq' and {norm(b[1]), norm(b[2])} == {('f', 0, found), norm(k)}:
                return ('f', 1, found)
        return ('lookup', o, k)

    def item(self, ev, i, x, fs, ind):
        if self.call(ev, i, 'item', None, x, ind):
            return i + 1
        var = self.variant(x, fs)
        dash = (('lit', '- '),)
        if var == ARR:
            return self.array(ev, i, dash, ('f', 0, ('v', ARR, x)), fs, ind, plus(ind, 1))
        if var == OBJV:
            return self.itemobject(ev, i, ('f', 0, ('v', OBJV, x)), fs, ind)
        rest = self.eat(self.line(ev, i, ind, 'item'), dash, 'item', 'list item')
        self.prim(rest, x, fs, False)
        return i + 1

    def itemobject(self, ev, i, o, fs, ind):
        if self.call(ev, i, 'itemobject', None, o, ind):
            return i + 1
        if self.empty(o, fs):
            rest = self.eat(self.line(ev, i, ind, 'item'), (('lit', '-'),), 'item', 'empty object item')
            if rest:
                raise Mismatch('item', 'an empty object is written as %s' % self.show(rest), not vague(rest))
            return i + 1
        if i >= len(ev):
            raise Mismatch('item', 'an object in a list is not written')
        dash = (('lit', '- '),)
        if ev[i][0] == 'rep':
            how, el = self.over(ev[i], o)
            k, v = self.kv(how, el, o)
            fk = (('x', ap('primitives::format_key', k)),)
            for n, body, bf in self.bodies(ev[i], fs):
                if n == 0:
                    self.whole(lambda b, j: self.field(b, j, dash + fk, v, bf, ind, plus(ind, 1)), body, 'item')
                else:
                    self.whole(lambda b, j: self.field(b, j, fk, v, bf, plus(ind, 1), plus(ind, 1)), body, 'item')
            return i + 1
        if ev[i][0] == 'open':
            raise Mismatch('item', 'only the first field of an object is written', False)
        raise Mismatch('item', 'an object in a list is written as %s' % self.ev(ev[i]), not vague(ev[i]))

    # ---- a serializer of the streaming encoder
    def sequence(self, ev, i, fields, fs):
        items = ('p', 'self.' + fields['items'])
        key = ()
        if fields.get('key'):
            k = ('p', 'self.' + fields['key'])
            o = option(k, fs)
            if o is None:
                raise Mismatch('header', 'the key of the array is not looked at', any(vague(x) for x in ev))
            key = (('x', ('f', 0, ('v', 1, k))),) if o else ()
        return self.array(ev, i, key, items, fs, IND, plus(IND, 1))

    def entry(self, ev, i, keys, val, fs, fields):
        """one entry of a map or struct: written at once, or put aside whole"""
        v = ('f', 0, ('v', 0, ('ap', 'to_value', val)))
        if i < len(ev) and ev[i][0] == 'P':
            self.put(ev[i], keys, v, fs, fields['buffer'])
            return i + 1
        err = None
        for k in keys:
            key = (('x', ap('primitives::format_key', k)),)
            try:
                if i < len(ev) and ev[i][0] == 'L':
                    rest = self.eat(self.line(ev, i, IND), key + (('lit', ': '),), 'field', 'field')
                    if rest == (('x', ('f', 0, ('v', 0, ('ap', 'try_scalar_to_string', val)))),):
                        return i + 1
                return self.field(ev, i, key, v, fs, IND, IND)
            except Mismatch as e:
                err = e
        raise err

    def nested(self, ev, i, fs):
        key = (('x', ap('primitives::format_key', ('p', 'key'))), ('lit', ':'))
        rest = self.eat(self.line(ev, i, IND), key, 'field', 'struct variant')
        if rest:
            raise Mismatch('field', 'text after the name of a variant: %s' % self.show(rest), not vague(rest))
        return i + 1

    def put(self, e, keys, v, fs, field):
        if e[1] != field:
            raise Mismatch('field', 'an entry is put into %s' % e[1], False)
        x = e[2]
        if len(x) == 1 and x[0][0] == 'adt' and x[0][1] == '()':
            x = x[0][3:]
        if len(x) != 2 or norm(x[0]) not in [norm(k) for k in keys] or norm(x[1]) != norm(v):
            raise Mismatch('field', 'an entry is put aside as %s' % ' '.join(shape.show(y, 80) for y in x), not vague(x))
        self.kept(e, ('p', 'self.' + field), fs)

    def kept(self, e, whole, fs):
        """what was collected before is still there"""
        old = e[3]
        if has(old, whole) or option(whole, fs) is False:
            return
        raise Mismatch('field', 'what was put into %s before is lost' % e[1], old[0] in ('new', 'adt'))

    def level(self, m, st, want):
        """the indentation level the serializer is left at"""
        x = m.load(st, (0, OBJ + 2), ())
        f = [y[0] for y in m.c.adts[x[1]]['variants'][0]['f']] if x[0] == 'adt' and x[1] in m.c.adts else []
        if 'indent' in f:
            self.same_ind(m.tm(x[3][f.index('indent')], st), want)

    def buffered(self, ev, i, field, fs):
        if field is None:
            return i
        b = ('p', 'self.' + field)
        o = option(b, fs)
        if o is False:
            return i
        return self.object(ev, i, ('f', 0, ('v', 1, b)) if o else b, fs, IND)

    # ---- a whole function
    def root(self, ev, fs, kind, kt):
        ev, fs = self.clean(unb(ev)), unb(fs)
        self.fs = fs
        v = ('p', 'val')
        key = isinstance(kt, dict) or {'raw': (('x', ap('primitives::format_key', ('p', 'key'))),), 'text': (('x', ('p', 'key')),), None: ()}[kt]
        f = {'value': lambda e, i: self.value(e, i, v, fs, IND),
             'field': lambda e, i: self.field(e, i, key, v, fs, IND, IND),
             'array': lambda e, i: self.array(e, i, key, v, fs, IND, plus(IND, 1)),
             'item': lambda e, i: self.item(e, i, v, fs, IND),
             'itemarray': lambda e, i: self.array(e, i, (('lit', '- '),), v, fs, IND, plus(IND, 1)),
             'itemobject': lambda e, i: self.itemobject(e, i, v, fs, IND),
             'sequence': lambda e, i: self.sequence(e, i, kt, fs),
             'entry': lambda e, i: self.entry(e, i, kt['keys'], kt['value'], fs, kt),
             'buffered': lambda e, i: self.buffered(e, i, kt.get('buffer'), fs),
             'nested': lambda e, i: self.nested(e, i, fs)}[kind]
        self.whole(f, ev, kind)


# ---- tests of slices of values ----------------------------------------------------------------------
VALS = ('p', 'val')
EL = ('el', VALS)
FIRST = ('first', VALS)


class PM(EM):
    """a predicate; `bad` in the ghost: some finished iteration does not have the claimed shape"""
    def __init__(self, crate, root, what):
        super().__init__(crate, root, 0, 0, 60000)
        self.what = what
        self.why = {}
        self.keep = lambda x: all(b[0] == 'el' for b in shape.bases(x[0]))

    def policy(self, fn):
        return None if fn is self.root or self.what == 'columns' and not self.is_pred(fn) else super().policy(fn)

    def flags(self, st):
        return set(self.user(st))

    def setflags(self, st, fl):
        self.setuser(st, tuple(sorted(fl)))

    def keys(self, t):
        """the object whose keys t holds, or None"""
        t = norm(unb(t))
        if t[0] == 'ap' and t[1] == 'sorted':
            return self.keys(t[2])
        if t[0] == 'ap' and t[1].split('::')[-1] in ('keys', 'into_keys', 'collect'):
            return t[2] if t[1].split('::')[-1] != 'collect' else self.keys(t[2])
        if t[0] == 'map':
            bs = self.bodies.get(t[2], ())
            if bs and all(v == T(('f', 0, ('el', t[1]))) or subst(v, ('first', VALS), EL) == T(('f', 0, ('el', subst(t[1], FIRST, EL)))) for v, _ in bs):
                return t[1]
        return None

    def partial(self, t):
        """a test of two sequences that does not settle that they are equal"""
        return t[0] == 'ap' and t[1].split('::')[-1] in ('starts_with', 'ends_with', 'contains', 'contains_key', 'is_empty')

    def size(self, t):
        return t[0] == 'len' and (self.keys(t[1]) or norm(unb(t[1])))

    def member(self, obj, el, fs):
        """do the facts say that the key el is in obj"""
        for a, p in fs:
            t = None
            if a[0] == 'B' and p:
                t = a[1]
            elif a[0] == 'Eq' and a[1][0] == 'ap' and a[2] in (('i', 0), ('i', 1)) and p == (a[2][1] == 1):
                t = a[1]
            elif a[0] == 'Eq' and a[1][0] == 'discr' and a[2] == ('i', 1) and p or a[0] == 'Eq' and a[1][0] == 'discr' and a[2] == ('i', 0) and not p:
                t = a[1][1]
            if t is not None and t[0] == 'ap' and t[1].split('::')[-1] in ('contains_key', 'get') and len(t) == 4 and \
                    norm(t[2]) == obj and norm(t[3]) == el:
                return True
        return False

    def on_iter(self, st, src, phase):
        self.fold_text(st, src, phase)
        fl = self.flags(st)
        s = src
        while s[0] == 'enum':
            s = s[1]
        obj = ('f', 0, ('v', OBJV, EL))
        ns = norm(s)
        fs = self.facts(st)
        mt = Matcher(self, {})
        if ns == norm(obj) or ns[0] == 'ap' and ns[1].split('::')[-1] in ('values', 'into_values') and norm(ns[2]) == norm(obj):
            if phase == 'first':
                fl.discard('badval')
            elif phase == 'more':
                v = ('f', 1, ('el', s)) if ns == norm(obj) else ('el', s)
                var = mt.variant(v, fs)
                if not (isinstance(var, int) and var < 4 or isinstance(var, tuple) and {4, 5} <= var[1]):
                    fl.add('badval')
            elif 'badval' not in fl:
                fl.add('values')          # this loop saw only primitive values
            self.setflags(st, fl)
            return
        if s != VALS and 'more' in fl and self.what == 'columns' and self.keys(s) == norm(subst(obj, EL, FIRST)):
            el = norm(('el', s))
            if phase == 'first':
                fl.discard('badkey')
            elif phase == 'more':
                if not self.member(norm(obj), el, fs):
                    fl.add('badkey')
            elif 'badkey' not in fl:
                fl.add('keys')
            self.setflags(st, fl)
            return
        if s != VALS:
            return
        if phase == 'first':
            return
        if phase == 'end':
            fl.add('done')
            self.setflags(st, fl)
            return
        var = mt.variant(EL, fs)
        bad = None
        if self.what == 'prim':
            if not (isinstance(var, int) and var < 4 or isinstance(var, tuple) and {4, 5} <= var[1]):
                bad = 'an element that is an array or object passes the test'
        else:
            if var != OBJV:
                bad = 'an element that is no object passes the test'
            elif mt.empty(obj, fs) is not False:
                bad = 'an object without fields passes the test'
            elif 'values' not in fl:
                bad = 'a field that is an array or object passes the test'
            elif 'more' in fl:
                ok = False
                for a, p in fs:
                    if p and a[0] == 'Eq':
                        k = {self.keys(a[1]), self.keys(a[2])}
                        if k == {norm(obj), norm(subst(obj, EL, FIRST))}:
                            ok = True
                        if 'keys' in fl and {self.size(a[1]), self.size(a[2])} == {norm(obj), norm(subst(obj, EL, FIRST))}:
                            ok = True
                        if any(vague(x) for x in a[1:]):
                            bad = bad or '?'
                bad = None if ok else bad or 'an object with other keys than the first passes the test'
        if bad:
            odd = bad == '?' or any(has(a, EL) and (a[0] == 'B' and not self.partial(a[1]) or vague(a)) for a, p in fs)
            fl.add('unsure' if odd else 'bad')
            self.why[bad] = 1
        fl -= {'badval', 'values', 'keys', 'badkey'}
        if 'more' not in fl:
            fl.add('more')
            for f in st.frames:
                for l, v in list(f.loc.items()):
                    f.loc[l] = subst(v, EL, FIRST)
            self.setfacts(st, frozenset(subst(x, EL, FIRST) for x in fs))
        self.setflags(st, fl)


def some_of(t):
    """a fixed part of the elements: the first n, or a range up to n"""
    def fixed(x):
        return x[0] == 'i' or x[0] == 'ap' and x[1].split('::')[-1] == 'min' and any(y[0] == 'i' for y in x[2:])
    if t[0] in ('take', 'step_by') and t[1] == VALS:
        return len(t) > 2 and fixed(t[2])
    if t[0] == 'ap' and t[1].endswith('Index::index') and t[2] == VALS and t[3][0] == 'adt' and t[3][1].startswith('RangeTo'):
        return fixed(t[3][-1])
    return False


def skimmed(fs):
    """the facts say nothing of the elements behind a fixed number of them"""
    def plainly(t):
        if not isinstance(t, tuple) or t == ('len', VALS) or t == EL or some_of(t):
            return True
        return t != VALS and all(plainly(x) for x in t)
    return all(plainly(a) for a, p in fs)


def predicates(m):
    return [f for f in m.c.fnlist if f.kind != 'Closure' and EM.is_pred(m, f)]


def predicate(chk, c, f, cfg, name):
    what = 'prim' if tystr(c, f, 0) == 'bool' else 'columns'
    m = PM(c, f, what)
    m.deadline = time.time() + chk.slice(60)
    outs = m.start(f, [T(VALS)], user=())
    chk.analysed |= m.analysed | {f.path}
    bad = und = None
    n = 0
    for st, v in outs:
        fl = m.flags(st)
        if what == 'prim':
            if v == ('i', 0):
                continue
            if v != ('i', 1):
                if v[0] == 't' and m.know(st, ('B', v[1])) is False:
                    continue
                und = 'the result is not followed'
                continue
        else:
            if v[0] == 'adt' and v[2] == 0:
                continue
            if v[0] != 'adt':
                und = 'the result is not followed'
                continue
        n += 1
        e = Matcher(m, {}).empty(VALS, m.facts(st))
        if what == 'columns' and e is not False:
            bad = 'a table without rows passes the test'
        if e is True:
            continue
        if 'bad' in fl:
            bad = '; '.join(sorted(x for x in m.why if x != '?'))
        elif 'unsure' in fl:
            und = 'the elements are tested in an unknown way'
        elif 'done' not in fl and skimmed(m.facts(st)):
            bad = 'only some of the elements are tested'
        elif 'done' not in fl:
            und = 'the test ends before the last element'
        elif what == 'columns':
            k = m.keys(m.tm(v[3][0], st))
            if k != norm(('f', 0, ('v', OBJV, FIRST))):
                t = m.tm(v[3][0], st)
                if vague(t) or k is None:
                    und = 'the columns are not followed: %s' % shape.show(t, 100)
                else:
                    bad = 'the columns are the keys of %s' % shape.show(k, 100)
    if bad:
        chk.violation('%s: test' % f.name, '%s [%s]: %s' % (f.path, cfg, bad), name)
    elif und or not n:
        chk.undecided(name, und or 'the test never holds')
    else:
        chk.ok(name, '%d outcomes' % n)


# ---- the check --------------------------------------------------------------------------------------
CFGS = ('default', 'alloc', 'all')
SURE_TESTS = ('is_primitive_array', 'is_tabular_array')


def serializer_root(c, f):
    """methods of the streaming serializer that write something -> (kind, what is known of their parts)"""
    if f.kind == 'Closure' or ' as ' not in f.path or f.argc < 1:
        return None
    own = tystr(c, f, 1).split('<')[0].lstrip('&').replace('mut ', '')
    if own not in c.adts:
        return None
    fs = c.adts[own]['variants'][0]['f']
    ty = {x[0]: c.types[x[1]].get('s', '') if x[1] is not None else '' for x in fs}
    if f.name == 'serialize_struct_variant' and 'StreamingSerializer' in own:
        return 'nested', {}
    if not any('StreamingSerializer' in t for t in ty.values()):
        return None
    items = [n for n, t in ty.items() if t.split('<')[0].endswith('Vec') and 'Value' in t and '(' not in t]
    strs = [n for n, t in ty.items() if 'Option<' in t and 'String' in t and 'Vec' not in t]
    buf = [n for n, t in ty.items() if 'Vec' in t and 'Value' in t and '(' in t]
    if f.name == 'end' and len(items) == 1:
        return 'sequence', {'items': items[0], 'key': strs[0] if strs else None}
    if f.name == 'end' and not items:
        return 'buffered', {'buffer': buf[0] if buf else None}
    val = ('p', 'arg%d' % f.argc)
    if f.name == 'serialize_value' and len(strs) == 1:
        return 'entry', {'keys': [('f', 0, ('v', 1, ('p', 'self.' + strs[0])))], 'value': val, 'buffer': buf[0] if buf else None,
                         'need': ('p', 'self.' + strs[0])}
    if f.name == 'serialize_field' and not items:
        return 'entry', {'keys': [('f', 0, ('v', 0, ('ap', 'key_to_string', ('p', 'key')))), ('p', 'key')], 'value': val,
                         'buffer': buf[0] if buf else None}
    return None


def spaces_one(chk, c, f, cfg, name):
    m, outs = examine(chk, c, f, 0, 0)
    chk.analysed |= m.analysed | {f.path}
    und = None if outs else 'no path'
    for st, v in outs:
        ev, fs = m.user(st), m.facts(st)
        if ev == (('W', (('ind', IND),)),) or not ev and (('Eq', IND, ('i', 0)), True) in fs:
            continue
        msg = 'n spaces of indentation are written as %s' % ' '.join(Matcher.show(None, e[1]) if e[0] in 'WL' else e[0] for e in ev)
        if len(ev) == 1 and ev[0][0] in 'WL' and not vague(ev):
            return chk.violation('%s: indent' % f.name, '%s [%s]: %s' % (f.path, cfg, msg), name)
        und = msg
    chk.undecided(name, und) if und else chk.ok(name)


def prepare(chk, c, cfg, report, spaces):
    """functions that write exactly n spaces; tests of slices that mean what is claimed"""
    base = EM(c, None, 0, 0)
    indents, tests, preds = set(), set(), {}
    for f in c.fnlist:
        if f.kind != 'Closure' and f.argc == 2 and base.writes(f) and tystr(c, f, 2) == 'usize' and tystr(c, f, 0) == '()':
            indents.add(f.path)
            if spaces:
                name = '%s [%s]: spaces' % (f.name, cfg)
                chk._guard(name, spaces_one, chk, c, f, cfg, name)
    for f in predicates(base):
        must = f.name.startswith(SURE_TESTS)
        name = '%s [%s]: test' % (f.name, cfg)
        n = len(chk.obs), len(chk.viols)
        chk._guard(name, predicate, chk, c, f, cfg, name)
        good = all(o[0] == 'ok' for o in chk.obs[n[0]:])
        if not report or not must and not good:
            del chk.obs[n[0]:], chk.viols[n[1]:]
        if must or good:
            tests.add(f.path)
            preds[models.short(f.path)] = {'prim'} if tystr(c, f, 0) == 'bool' else {'columns'}
    return (indents, tests), preds


def encoder(chk, kinds, report):
    for cfg in CFGS:
        c = chk.crate(cfg)
        known, preds = prepare(chk, c, cfg, report, not report)
        for f in c.fnlist:
            if f.kind == 'Closure':
                continue
            if f.name in CONTRACT and EM.writes(EM(c, None, 0, 0), f):
                r = CONTRACT[f.name]
            else:
                r = serializer_root(c, f)
            if r is not None:
                name = '%s [%s]' % (f.path.split('::', 1)[-1] if ' as ' not in f.path else trait_name(f), cfg)
                chk.guard(name, encoder_one, chk, c, f, cfg, r, known, preds, kinds, name)


def trait_name(f):
    a = f.path.lstrip('<').split(' as ')
    return '%s %s::%s' % (a[0].split('<')[0].split('::')[-1], a[1].split('<')[0].split('>')[0].split('::')[-1], f.name)


def intact(m, st):
    """is the text written so far still only what the events say"""
    w = m.load(st, (0, OBJ), ())
    return w[0] == 'adt' and T(OUT) in w[3]


def encoder_one(chk, c, f, cfg, r, known, preds, kinds, name):
    sure, unsure = {}, {}
    n = lines = 0
    for delim in (0, 1, 2):
        for folding in (0, 1):
            m, outs = examine(chk, c, f, delim, folding, known=known)
            chk.analysed |= m.analysed | {f.path}
            mt = Matcher(m, preds)
            for st, v in outs:
                fs = m.facts(st)
                if v[0] == 'adt' and v[1] == 'Result' and v[2] == 1:
                    continue
                if isinstance(r[1], dict) and r[1].get('need') and option(r[1]['need'], fs) is not True:
                    continue
                n += 1
                if not intact(m, st):
                    unsure.setdefault('a call that is not followed has the writer', 1)
                    continue
                try:
                    mt.root(m.user(st), fs, *r)
                    if r[0] == 'nested' or r[0] == 'entry':
                        mt.level(m, st, plus(IND, 1) if r[0] == 'nested' else IND)
                except Mismatch as e:
                    where = '%s; delimiter %r, key folding %s' % (e.msg, ',\t|'[delim], 'on' if folding else 'off')
                    if e.sure and not m.lost and e.kind in kinds:
                        sure.setdefault(e.kind, (where, facts_of(fs)))
                    elif e.sure:
                        unsure.setdefault('(not decided here: %s) %s' % (e.kind, where), 1)
                    else:
                        unsure.setdefault(where, 1)
            lines += mt.n
    chk.count('paths', n)
    chk.count('matched parts', lines)
    for k, (w, fx) in sorted(sure.items()):
        chk.violation('%s: %s' % (f.name if ' as ' not in f.path else trait_name(f), k), '%s [%s]: %s (on a path with %s)' % (f.path, cfg, w, fx), name)
    if not sure:
        if unsure or not n:
            chk.undecided(name, '; '.join(sorted(unsure)[:3]) or 'no path')
        else:
            chk.ok(name, '%d paths, %d parts' % (n, lines))


def facts_of(fs):
    x = shape.show_facts(fs)
    return '; '.join(y[:90] for y in x[:6])


def headers(chk):
    chk.rule('every array written: header with the number of elements and the active delimiter; table only for non-empty uniform '
             'objects of primitives, inline only for primitives; one row, value or item per element in order, one cell per field')
    encoder(chk, ('header', 'row', 'delim', 'item', 'scalar'), True)


def fields(chk):
    chk.rule('every function that writes lines, followed on every path, writes what the grammar of TOON says for the value it was '
             'given: each entry and item once, in order, under its key, one level below what contains it')
    encoder(chk, ('field', 'item', 'indent', 'row', 'scalar'), False)
