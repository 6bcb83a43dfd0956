"""Strict mode: every line's indentation is a multiple of the step and free of tabs."""
import os, time
import shape, ir, models
from shape import T, ANY, has, Shape
from p_decode import VAL, report, CFGS
from p_pipe import tystr

A1, A2, A3 = ('p', 'lines'), ('p', 'raw'), ('p', 'step')
PL = 'decode::scanner::ParsedLine'
FN = 'decode::validation::validate_indentation_with_size'
CHARS = ('chars', 'bytes', 'as_bytes', 'iter')


def head(t, k):
    """is there a subterm of kind k"""
    return isinstance(t, tuple) and bool(t) and (t[0] == k or any(head(x, k) for x in t))


def fs0(m, st):
    return [x for x in m.facts(st) if not head(x[0], 'old')]


class Val(Shape):
    """ghosts: ph: where the loop over the lines is (first, more, end); tabs: the loop over the characters of the current line"""
    def __init__(self, crate, root, budget=60000):
        super().__init__(crate, None, budget=budget)
        self.root = root
        self.coarse = True
        self.watch = lambda a: a[0] != 'all'
        self.keep = lambda x: not head(x[0], 'old')
        self.alarms, self.unsure = {}, {}
        self.demands = 0
        vs = [v['n'] for v in crate.adts['decode::scanner::LineKind']['variants']]
        self.blank = vs.index('Blank')
        fs = [x[0] for x in crate.adts[PL]['variants'][0]['f']]
        self.ind, self.kind = fs.index('indent'), fs.index('kind')

    def get(self, st, k):
        return dict(self.user(st)).get(k, False)

    def put(self, st, **kw):
        d = dict(self.user(st))
        d.update(kw)
        self.setuser(st, tuple(sorted((k, v) for k, v in d.items() if v)))

    def alarm(self, st, key, text):
        self.alarms.setdefault(key, (text, None, self.root.path))

    # ---- what the path knows about the current line and character
    def line_facts(self, st):
        """(kind: blank/text/None, multiple: ok/bad/None, short: no raw line, other facts about the line)"""
        kind = mult = None
        short = tab = space = None
        other = []
        zero = None
        raw = False
        fs = [x for x in self.facts(st) if not head(x[0], 'old')]
        for a, p in fs:
            if a == ('Eq', A3, ('i', 0)):
                zero = p
        for a, p in fs:
            l = a[1]
            el = has(a, ('el', A1))
            if a[0] == 'Eq' and l[0] == 'discr' and a[2][0] == 'i' and self.mentions(l, 'el', A1):
                if a[2][1] == self.blank:
                    kind = 'blank' if p else (kind or 'text')
                elif p:
                    kind = 'text'
                continue
            if a[0] in ('Eq', 'Lt') and self.mentions(a, 'el', ('chars',)) and a[2][0] == 'i':
                if a[0] == 'Eq' and a[2][1] == 9:
                    tab = p
                elif a[0] == 'Eq' and a[2][1] == 32:
                    space = p
                else:
                    other.append((a, p))
                continue
            if self.mentions(a, 'len', A2) and a[0] == 'Lt' and a[2] == ('len', A2):
                if l[0] == 'op' and l[1] == 'Add' and any(x[0] == 'i' and x[1] > 0 for x in l[2:]):
                    continue            # not the line itself, but one after it
                if not p:
                    short = True
                continue
            if has(a, A2):
                if a[0] == 'Eq' and l == ('discr', l[1]) and p == (a[2] == ('i', 0)) and l[1][0] == 'ap' and l[1][1].endswith('get'):
                    short = True
                else:
                    raw = True
                continue
            if el:
                r = self.rem(a, zero)
                if r is None:
                    if not self.content(a):
                        other.append((a, p))
                elif r == 'nonzero':
                    if not p:
                        mult = 'ok'
                elif r == 'zero':
                    if p:
                        mult = 'ok'
                elif r == 'bad':
                    mult = mult or 'wrong'
                else:
                    mult = 'ok' if p == r[0] else 'bad'
        return kind, mult, short, raw, tab, space, other

    def content(self, a):
        """is this a test of what the text of the line begins with, ends with or holds: it says nothing of its indentation"""
        k = ('f', self.kind, ('el', A1))
        if a[0] == 'B' and a[1][0] == 'ap' and a[1][1].split('::')[-1] in ('starts_with', 'ends_with', 'contains', 'eq'):
            t = a[1]
        elif a[0] == 'Eq' and (a[1][0] == 'c' or a[2][0] == 'c'):
            t = a
        else:
            return False
        return has(t, k) and not has(t, ('f', self.ind, ('el', A1)))

    def rem(self, a, zero):
        """(polarity) of a test that the indentation is a multiple of the step, 'bad' for another modulus, or None"""
        n = ('f', self.ind, ('el', A1))
        want = (('i', 2),) if zero else (A3,)
        if a[0] == 'B' and a[1][0] == 'ap' and a[1][1].endswith('is_multiple_of') and len(a[1]) == 4 and a[1][2] == n:
            return (True,) if a[1][3] in want else 'bad'
        if a[0] not in ('Eq', 'Lt'):
            return None
        x, y = a[1], a[2]
        if a[0] == 'Eq' and n in (x, y):
            o = y if x == n else x
            if o == ('i', 0):
                return 'zero'
            for d in want:
                dv = ('op', 'Div', n, d)
                if o in (('op', 'Mul', dv, d), ('op', 'Mul', d, dv)):
                    return (True,)
        pos = True
        if a == ('Lt', ('i', 0), n):
            return 'nonzero'
        if a == ('Lt', n, ('i', 1)):
            return 'zero'
        if a[0] == 'Lt':
            if x == ('i', 0):
                x, y, pos = y, x, False
            elif y == ('i', 1):
                y = ('i', 0)
            else:
                return None
        if a[0] == 'Eq' and y[0] == 'i' and y[1] > 0 and x[:3] == ('op', 'Rem', n) and (x[3] == A3 or x[3][0] == 'i' and x[3][1] > 2):
            return 'bad' if not isinstance(zero, str) else None
        if y != ('i', 0) or x[0] != 'op' or x[1] != 'Rem':
            return None
        plain, d = x[-2] == n, x[-1]
        if d in want and plain:
            return (pos,)
        if d[0] == 'i' or d == A3:
            return 'bad' if plain else None
        return None

    def mentions(self, t, k, sub):
        """is there a subterm (k, ..sub..); sub ('chars',): a sequence of characters of the raw line"""
        if not isinstance(t, tuple) or not t:
            return False
        if t[0] == k and len(t) > 1 and isinstance(t[1], tuple):
            if t[1] == sub or sub == ('chars',) and t[1][0] == 'ap' and t[1][1] in CHARS and has(t[1], A2):
                return True
        return any(self.mentions(x, k, sub) for x in t if isinstance(x, tuple))

    def finished(self, st):
        """the checks of the current line are over"""
        kind, mult, short, raw, tab, space, other = self.line_facts(st)
        if os.environ.get('VERIF_SHOW'):
            print('DONE', (kind, mult, short, raw, tab, space), other, fs0(self, st), self.user(st))
        if kind == 'blank':
            return
        self.demands += 1
        if mult == 'ok':
            pass
        elif other:
            self.unsure['multiple'] = shape.show_facts(other[:2])
        elif mult == 'bad':
            self.alarm(st, 'multiple', 'a line whose indentation is not a multiple of the step is accepted')
        elif mult == 'wrong':
            self.alarm(st, 'multiple', 'the indentation is not compared with the step given')
        else:
            self.alarm(st, 'multiple', 'a line is accepted without a test that its indentation is a multiple of the step')
        t = self.get(st, 'tabs')
        if short:
            return
        if not t:
            if raw or any(has(a, ('f', self.kind, ('el', A1))) for a, p in other if not self.content(a)):
                self.unsure['tabs'] = 'tabs are looked for in a way that is not followed'
            else:
                self.alarm(st, 'tabs', 'a line is accepted without a test that its indentation is free of tabs')
        elif t == 'in':
            if tab:
                self.alarm(st, 'tabs', 'a line with a tab in its indentation is accepted')
            elif space is not False:
                self.alarm(st, 'tabs', 'the search for tabs stops before the end of the indentation')

    def on_iter(self, st, src, phase):
        if os.environ.get('VERIF_SHOW'):
            print('ITER', phase, shape.show(src, 80), shape.show_facts(self.facts(st)), self.user(st))
        base = src
        while base[0] in ('enum', 'zip') and base[1] != A2:
            base = base[1]
        if base == A1:
            if phase == 'more':
                self.finished(st)
            self.put(st, ph='end' if phase == 'end' else 'in', tabs=False)
        elif has(src, A2):
            while src[0] == 'take' and not has(src[2], A1) and not has(src[2], A2):
                src = src[1]
                if phase == 'end':
                    self.alarm(st, 'tabs', 'only the first characters of a line are searched for tabs')
            if src[0] != 'ap' or src[1] not in CHARS:
                self.unsure['tabs'] = 'tabs are looked for in ' + shape.show(src, 60)
            kind, mult, short, raw, tab, space, other = self.line_facts(st)
            if phase == 'more' and tab:
                self.alarm(st, 'tabs', 'a tab in the indentation is passed over')
            self.put(st, tabs='end' if phase == 'end' else 'in')
        elif has(src, A1):
            self.unsure['lines'] = 'the loop over the lines is over ' + shape.show(src, 60)

    def on_return(self, st, v):
        v = self.strip(st, v)
        if v[0] != 'adt' or 'Result' not in v[1]:
            self.unsure['result'] = shape.show(self.tm(v, st), 60)
            return
        if v[2] == 1:
            kind, mult, short, raw, tab, space, other = self.line_facts(st)
            if tab or mult == 'bad':
                return
            if other or raw and self.get(st, 'tabs') != 'in' or mult == 'wrong' or self.unsure:
                self.unsure['error'] = 'the reason of an error is not followed'
            else:
                self.alarm(st, 'error', 'an error is returned for a line that has neither a tab nor a wrong indentation')
            return
        if self.get(st, 'ph') != 'end':
            if self.get(st, 'ph') or not any(has(a, A1) for a, p in self.facts(st)):
                self.alarm(st, 'all', 'success is returned before all lines have been looked at')
            else:
                self.unsure['end'] = 'success is returned under a condition that is not followed'

    def strip(self, st, v):
        n = 0
        while v[0] == 'ref' and n < 4:
            v = self.load(st, v[1], v[2])
            n += 1
        return v


def one(chk, c, f, cfg, name):
    m = Val(c, f)
    m.deadline = time.time() + chk.slice(90)
    for st, v in m.start(f, [T(A1), T(A2), T(A3)]):
        m.on_return(st, v)
    report(chk, cfg, f, m, name)


def validation(chk):
    chk.rule('in the loop over the lines, a line that is not blank goes on to the next only if its indentation is known to be a '
             'multiple of the step and its raw text has no tab among its leading blanks')
    for cfg in CFGS:
        c = chk.crate(cfg)
        f = c.fn(FN)
        name = 'validate_indentation_with_size [%s]' % cfg
        if f is None:
            chk.undecided(name, 'not found')
            continue
        chk.guard(name, one, chk, c, f, cfg, name)
