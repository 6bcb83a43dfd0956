"""Abstract interpretation of MIR over regular languages of one input string.

One unknown input word; every cursor/slice bound is a mark in the word; a state carries the language of
marked words that reach it.  Loops are closed by union and Bartzis/Bultan widening.  Nothing is executed on
concrete inputs: every step works on the whole set of words that can reach it.  Constructs that are not
modelled yield an unknown value; a state that branched on one carries the reason in `imp`.
"""
import re
import time
import words
from words import END, EMPTY, Aut
import ir

LO, HI = 0, 1

UNIT = ('adt', '()', 0, ())
TRUE = ('i', 1)
FALSE = ('i', 0)


def b(x):
    return TRUE if x else FALSE


def top(ty=None):
    return ('top', ty)


def none():
    return ('adt', 'Option', 0, ())


def some(v):
    return ('adt', 'Option', 1, (v,))


def ok(v):
    return ('adt', 'Result', 0, (v,))


def err(v):
    return ('adt', 'Result', 1, (v,))


class Frame:
    __slots__ = ('fn', 'bb', 'loc', 'dst', 'ret', 'tag')

    def __init__(self, fn, bb, loc, dst, ret, tag=None):
        self.fn, self.bb, self.loc, self.dst, self.ret, self.tag = fn, bb, loc, dst, ret, tag

    def copy(self):
        return Frame(self.fn, self.bb, dict(self.loc), self.dst, self.ret, self.tag)


class State:
    __slots__ = ('frames', 'aut', 'imp', 'ghost', 'nmark')

    def __init__(self, frames, aut, imp=frozenset(), ghost=()):
        self.frames, self.aut, self.imp, self.ghost = frames, aut, imp, ghost
        self.nmark = 2

    def copy(self):
        s = State([f.copy() for f in self.frames], self.aut, self.imp, self.ghost)
        s.nmark = self.nmark
        return s

    def newmark(self):
        m = self.nmark
        self.nmark += 1
        return m


LONG = 48


class Budget(Exception):
    pass


class Unsupported(Exception):
    pass


INT_BITS = {'u8': 8, 'i8': 8, 'u16': 16, 'i16': 16, 'u32': 32, 'i32': 32, 'u64': 64, 'i64': 64, 'usize': 64,
            'isize': 64, 'u128': 128, 'i128': 128, 'char': 32, 'bool': 1}


def ir_bucket(lo, hi):
    """a finite set of intervals"""
    if lo is not None and hi is not None and lo == hi:
        return ('i', lo)
    if lo is not None and lo >= 1:
        return ('ir', 1, None)
    if lo is not None and lo >= 0:
        return ('ir', 0, None)
    if hi is not None and hi <= -1:
        return ('ir', None, -1)
    return ('ir', None, None)


class Machine:
    def __init__(self, crate, alpha, budget=60000, inline_depth=14, trace=False):
        self.c = crate
        self.al = alpha
        self.budget = budget
        self.steps = 0
        self.inline_depth = inline_depth
        self.events = []
        self.hooks = []
        self.unmodelled = {}
        self.notes = set()
        self.analysed = set()
        self.summaries = {}
        self.trace = trace
        self.max_states = 4000
        self.max_keys = 600
        self.k = 1
        self.wdelay = 0
        self.shared = {}
        self.use_summaries = True
        self.no_summary = set()
        self.in_summary = False
        self.sum_base = None      # slices in this language have summaries of their own
        self.sum_not = None
        self.sum_k = self.sum_delay = None
        self.base = None          # plain language the inputs are restricted to (refinement)
        self.deadline = None
        self.sure = False         # set where only what is certain counts
        self.digits = False       # follow the values of digits
        self.floats = False       # follow what is known about a float read from the input
        import models
        self.models = models

    # ---- language primitives -------------------------------------------------------------------
    def initial(self):
        L = words.Lang(self.al)
        return L.build(L.star(L.any()), (1 << LO, 1 << HI))

    def mark_at(self, st, m, off):
        """new mark at position(m)+off; words where that position does not exist are dropped"""
        n = st.newmark()
        nb, mb = 1 << n, 1 << m
        if off == 0:
            st.aut = words.map_marks(st.aut, lambda x: x | nb if x & mb else x)
        elif off > 0:
            def f(q, mask, l):
                if q == -1:       # waiting
                    if mask & mb:
                        return ((off - 1, mask),)
                    return ((-1, mask),)
                if q == -2:
                    return ((-2, mask),)
                if q == 0:
                    return ((-2, mask | nb),)
                return ((q - 1, mask),)
            st.aut = self._trans(st.aut, -1, f, lambda q: q == -2)
        else:
            k = -off

            def f(q, mask, l):
                if q == -1:
                    out = []
                    if not mask & mb:
                        out.append((-1, mask))
                        out.append((k - 1, mask | nb))
                    return out
                if q == -2:
                    return ((-2, mask),)
                if q == 0:
                    return ((-2, mask),) if mask & mb else ()
                return ((q - 1, mask),) if not mask & mb else ()
            st.aut = self._trans(st.aut, -1, f, lambda q: q == -2)
        return n

    def _trans(self, aut, q0, f, final):
        if aut.acc is None:
            return EMPTY
        A = aut.trans
        aa = words._accs(aut)

        def nstep(s):
            x, q = s
            for (m, l), t in A[x].items():
                for q2, m2 in f(q, m, l):
                    yield (m2, l), (t, q2)
        return words.determinize([(0, q0)], nstep, lambda s: s[0] in aa and final(s[1]))

    def letter_filter(self, aut, m, letters):
        mb = 1 << m
        return words.filter_syms(aut, lambda x, l: not (x & mb) or l in letters)

    def drop(self, aut, m):
        keep = ~(1 << m)
        return words.map_marks(aut, lambda x: x & keep)

    def cmp_filter(self, aut, m1, m2, pred, K):
        """keep words with pred(D), D = idx(m1)-idx(m2) saturated to [-K, K]"""
        a, c = 1 << m1, 1 << m2

        def f(q, mask, l):
            if q[0] == 'd':
                return ((q, mask),)
            if q[0] == 'w':
                x, y = mask & a, mask & c
                if x and y:
                    return ((('d',), mask),) if pred(0) else ()
                if x:
                    return ((('1', 1), mask),)
                if y:
                    return ((('2', 1), mask),)
                return ((q, mask),)
            k = q[1]
            if q[0] == '1':      # m1 seen, waiting for m2: D negative
                if mask & c:
                    return ((('d',), mask),) if pred(-k) else ()
            else:
                if mask & a:
                    return ((('d',), mask),) if pred(k) else ()
            return (((q[0], min(K, k + 1)), mask),)
        return self._trans(aut, ('w',), f, lambda q: q[0] == 'd')

    def member_filter(self, aut, lo, hi, spec, positive=True):
        """keep the words whose slice [lo,hi) is (not) in spec (an automaton with mask-0 symbols)"""
        lb, hb = 1 << lo, 1 << hi
        T = spec.trans
        acc = words._accs(spec)
        DEAD = -7

        def at_end(q):
            if q == DEAD:
                return False
            t = T[q].get((0, END))
            return t is not None and t in acc

        def f(q, mask, l):
            if q == 'w':
                if not mask & lb:
                    return (('w', mask),)
                q = 0 if T else DEAD
            if q == 'd':
                return (('d', mask),)
            if mask & hb:
                return (('d', mask),) if at_end(q) == positive else ()
            t = T[q].get((0, l), DEAD) if q != DEAD else DEAD
            return ((t, mask),)
        return self._trans(aut, 'w', f, lambda q: q == 'd')

    def advance_char(self, st, m):
        """new mark after the char that starts at m"""
        n = st.newmark()
        nb, mb, C = 1 << n, 1 << m, self.al.C

        def f(q, mask, l):
            if q == 0:
                return ((1, mask),) if mask & mb else ((0, mask),)
            if q == 1:
                return ((1, mask),) if l == C else ((2, mask | nb),)
            return ((2, mask),)
        st.aut = self._trans(st.aut, 0, f, lambda q: q == 2)
        return n

    def retreat_char(self, st, lo, m):
        """new mark at the char that ends at m (words where m is at lo are dropped)"""
        n = st.newmark()
        nb, mb, lb, C = 1 << n, 1 << m, 1 << lo, self.al.C

        def f(q, mask, l):
            if q == 0:
                if mask & lb:
                    q = 1
                else:
                    return ((0, mask),)
            if q == 1:
                if mask & mb:
                    return ()
                out = [(1, mask)]
                if l != C:
                    out.append((2, mask | nb))
                return out
            if q == 2 or q == 3:
                # first step after the guess
                if mask & mb:
                    return ((4, mask),)
                return ((3, mask),) if l == C else ()
            return ((4, mask),)
        st.aut = self._trans(st.aut, 0, f, lambda q: q == 4)
        return n

    def find_letter(self, st, lo, hi, must, may):
        """returns (state found, mark) and (state not found) for the first letter in the set within [lo,hi)"""
        s1 = st.copy()
        n = s1.newmark()
        nb, lb, hb = 1 << n, 1 << lo, 1 << hi

        def f(q, mask, l):
            if q == 0:
                if not mask & lb:
                    return ((0, mask),)
                q = 1
            if q == 1:
                if mask & hb:
                    return ()
                if l in must:
                    return ((2, mask | nb),)
                if l in may:
                    return ((1, mask), (2, mask | nb))
                return ((1, mask),)
            return ((2, mask),)
        s1.aut = self._trans(s1.aut, 0, f, lambda q: q == 2)
        s2 = st.copy()

        def g(q, mask, l):
            if q == 0:
                if not mask & lb:
                    return ((0, mask),)
                q = 1
            if q == 1:
                if mask & hb:
                    return ((2, mask),)
                if l in must:
                    return ()
                return ((1, mask),)
            return ((2, mask),)
        s2.aut = self._trans(s2.aut, 0, g, lambda q: q == 2)
        return s1, n, s2

    def rfind_letter(self, st, lo, hi, must, may):
        s1 = st.copy()
        n = s1.newmark()
        nb, lb, hb = 1 << n, 1 << lo, 1 << hi

        def f(q, mask, l):
            if q == 0:
                if not mask & lb:
                    return ((0, mask),)
                q = 1
            if q == 1:
                if mask & hb:
                    return ()
                out = [(1, mask)]
                if l in may:
                    out.append((2, mask | nb))
                return out
            if q == 2:
                if mask & hb:
                    return ((3, mask),)
                return () if l in must else ((2, mask),)
            return ((3, mask),)
        s1.aut = self._trans(s1.aut, 0, f, lambda q: q == 3)
        _, _, s2 = self.find_letter(st, lo, hi, must, may)
        return s1, n, s2

    def trim_start(self, st, lo, hi, must, may):
        """new mark at the first char in [lo,hi) outside the set, or hi"""
        n = st.newmark()
        nb, lb, hb, C = 1 << n, 1 << lo, 1 << hi, self.al.C

        def f(q, mask, l):
            if q == 0:
                if not mask & lb:
                    return ((0, mask),)
                q = 1
            if q == 1:
                if mask & hb:
                    return ((2, mask | nb),)
                if l == C or l in must:
                    return ((1, mask),)
                if l in may:
                    return ((1, mask), (2, mask | nb))
                return ((2, mask | nb),)
            return ((2, mask),)
        st.aut = self._trans(st.aut, 0, f, lambda q: q == 2)
        return n

    def trim_end(self, st, lo, hi, must, may):
        """new mark after the last char in [lo,hi) outside the set, or lo"""
        n = st.newmark()
        nb, lb, hb, C = 1 << n, 1 << lo, 1 << hi, self.al.C

        # q: 0 before lo; ('a', ok) scanning, ok: previous char may be outside the set (or at lo);
        # ('b',) after the guess: only set members until hi
        def f(q, mask, l):
            if q == 0:
                if not mask & lb:
                    return ((0, mask),)
                q = ('a', True)
            if q[0] == 'd':
                return ((q, mask),)
            out = []
            at_char = l != C
            if q[0] == 'a':
                if q[1] and (at_char or mask & hb):
                    # guess: trimmed end here
                    if mask & hb:
                        out.append((('d',), mask | nb))
                    elif l in may:
                        out.append((('b',), mask | nb))
                if mask & hb:
                    return out
                if l == C:
                    out.append((q, mask))
                else:
                    if l in must:
                        out.append((('a', False), mask))
                    elif l in may:
                        out.append((('a', False), mask))
                        out.append((('a', True), mask))
                    else:
                        out.append((('a', True), mask))
                return out
            # 'b'
            if mask & hb:
                return ((('d',), mask),)
            if l == C or l in may:
                return ((q, mask),)
            return ()
        st.aut = self._trans(st.aut, 0, f, lambda q: q != 0 and q[0] == 'd')
        return n

    # ---- values ---------------------------------------------------------------------------------
    def note_imp(self, st, why):
        st.imp = st.imp | {why}

    def char_members(self, pred, byte=False):
        return self.al.members(pred, byte)

    def filter_char(self, st, v, pred, positive=True):
        """restrict st to words whose letter at v (('ch',m) or ('by',m,off)) satisfies pred; returns state or None"""
        if v[0] == 'ch':
            m = v[1]
            must, may = self.al.members(pred)
        else:
            m = v[1]
            must, may = self.al.members(pred, byte=True)
        letters = may if positive else (self.al.allset - must)
        a = self.letter_filter(st.aut, m, letters)
        if a.empty():
            return None
        s = st.copy()
        s.aut = a
        return s

    def fork_char(self, st, v, pred):
        out = []
        s = self.filter_char(st, v, pred, True)
        if s is not None:
            out.append((s, TRUE))
        s = self.filter_char(st, v, pred, False)
        if s is not None:
            out.append((s, FALSE))
        return out

    def lit_lang(self, text):
        L = words.Lang(self.al)
        for ch in text:
            l, exact = self.al.char_letter(ord(ch))
            if not exact:
                return None
        return L.build(L.lit(text))

    def fork_member(self, st, lo, hi, spec):
        out = []
        a = self.member_filter(st.aut, lo, hi, spec, True)
        if not a.empty():
            s = st.copy()
            s.aut = a
            out.append((s, TRUE))
        a = self.member_filter(st.aut, lo, hi, spec, False)
        if not a.empty():
            s = st.copy()
            s.aut = a
            out.append((s, FALSE))
        return out

    # numbers ------------------------------------------------------------------------------------
    def as_pos(self, v, base=None):
        """pos view of a value relative to `base` mark"""
        if v[0] == 'pos':
            return v
        if v[0] == 'i' and base is not None:
            return ('pos', base, v[1], base, 0)
        return None

    def compare(self, st, op, x, y, why=''):
        """fork on x op y"""
        PY = {'Lt': lambda d: d < 0, 'Le': lambda d: d <= 0, 'Gt': lambda d: d > 0, 'Ge': lambda d: d >= 0,
              'Eq': lambda d: d == 0, 'Ne': lambda d: d != 0}
        p = PY[op]
        if self.floats:
            r = self.models.float_cmp(self, st, op, x, y)
            if r is not None:
                return r
        if x[0] == 'i' and y[0] == 'i':
            return [(st, b(p(x[1] - y[1])))]
        if x[0] in ('ch', 'by') and y[0] == 'i':
            return self.fork_char(st, x, self.cp_pred(op, y[1]))
        if y[0] in ('ch', 'by') and x[0] == 'i':
            flip = {'Lt': 'Gt', 'Le': 'Ge', 'Gt': 'Lt', 'Ge': 'Le', 'Eq': 'Eq', 'Ne': 'Ne'}
            return self.fork_char(st, y, self.cp_pred(flip[op], x[1]))
        if x[0] == 'pos' or y[0] == 'pos':
            px = self.as_pos(x, y[3] if y[0] == 'pos' else None)
            py = self.as_pos(y, x[3] if x[0] == 'pos' else None)
            if px and py:
                r = self.cmp_pos(st, p, px, py)
                if r is not None:
                    return r
        if x[0] in ('i', 'ir') and y[0] in ('i', 'ir'):
            lo1, hi1 = (x[1], x[1]) if x[0] == 'i' else (x[1], x[2])
            lo2, hi2 = (y[1], y[1]) if y[0] == 'i' else (y[1], y[2])
            ds_lo = None if lo1 is None or hi2 is None else lo1 - hi2
            ds_hi = None if hi1 is None or lo2 is None else hi1 - lo2
            poss = set()
            for d in (-1, 0, 1):
                if d < 0 and (ds_lo is None or ds_lo < 0):
                    poss.add(p(d))
                if d == 0 and (ds_lo is None or ds_lo <= 0) and (ds_hi is None or ds_hi >= 0):
                    poss.add(p(d))
                if d > 0 and (ds_hi is None or ds_hi > 0):
                    poss.add(p(d))
            return [(st if len(poss) == 1 else st.copy(), b(r)) for r in poss]
        return self.fork_bool(st, self.unk_reason(x, y))

    def unk_reason(self, *vs):
        for v in vs:
            if v and v[0] == 'unk':
                return v[1]
        return None

    def fork_bool(self, st, why=None):
        s2 = st.copy()
        if why:
            self.note_imp(st, why)
            self.note_imp(s2, why)
        return [(st, TRUE), (s2, FALSE)]

    @staticmethod
    def cp_pred(op, n):
        def pr(c):
            if not isinstance(c, int):
                # a non-ASCII char
                if n < 128:
                    return {'Lt': False, 'Le': False, 'Gt': True, 'Ge': True, 'Eq': False, 'Ne': True}[op]
                if op == 'Eq':
                    return None
                if op == 'Ne':
                    return None
                return None
            return {'Lt': c < n, 'Le': c <= n, 'Gt': c > n, 'Ge': c >= n, 'Eq': c == n, 'Ne': c != n}[op]
        return pr

    def cmp_pos(self, st, p, px, py):
        """(m1+o1-b1-p1) ? (m2+o2-b2-p2)"""
        _, m1, o1, b1, p1 = px
        _, m2, o2, b2, p2 = py
        if b1 == b2:
            k = (o1 - p1) - (o2 - p2)
            a1, a2 = m1, m2
        elif m1 == m2:
            # compares -(b1) with -(b2)
            k = (o1 - p1) - (o2 - p2)
            a1, a2 = b2, b1
        elif self.same(st, b1, b2):
            k = (o1 - p1) - (o2 - p2)
            a1, a2 = m1, m2
        else:
            return None
        K = abs(k) + 1
        out = []
        if K > LONG and a1 != a2 and len(st.aut.trans) < K:
            return self.cmp_long(st, p, a1, a2, k)
        for want in (True, False):
            if a1 == a2:
                a = st.aut if p(k) == want else EMPTY
            else:
                a = self.cmp_filter(st.aut, a1, a2, lambda d: p(d + k) == want, K)
            if not a.empty():
                s = st.copy()
                s.aut = a
                out.append((s, b(want)))
        return out

    def cmp_long(self, st, p, a1, a2, k):
        """a comparison with a large number: exact for short distances, open for long ones"""
        out = []
        far = {sg: {p(sg * n + k) for n in (LONG, LONG + 1, abs(k) - 1, abs(k), abs(k) + 1, 1 << 30) if n >= LONG} for sg in (1, -1)}
        for want in (True, False):
            for long in (False, True):
                a = self.cmp_filter(st.aut, a1, a2, lambda d: (abs(d) >= LONG) == long and
                                    (want in far[1 if d > 0 else -1] if long else p(d + k) == want), LONG)
                if not a.empty():
                    s = st.copy()
                    s.aut = a
                    if long:
                        self.note_imp(s, 'length')
                    out.append((s, b(want)))
        return out

    def same(self, st, m1, m2):
        if m1 == m2:
            return True
        a, c = 1 << m1, 1 << m2
        for d in st.aut.trans:
            for (mask, l) in d:
                if bool(mask & a) != bool(mask & c):
                    return False
        return True

    def mentions(self, st, m):
        mb = 1 << m
        return any(mask & mb for d in st.aut.trans for (mask, l) in d)

    def add(self, st, x, y, sub=False):
        sg = -1 if sub else 1
        if x[0] == 'i' and y[0] == 'i':
            return ('i', x[1] + sg * y[1])
        if x[0] == 'pos' and y[0] == 'i':
            return ('pos', x[1], x[2] + sg * y[1], x[3], x[4])
        if y[0] == 'pos' and x[0] == 'i':
            if not sub:
                return ('pos', y[1], y[2] + x[1], y[3], y[4])
            return ('pos', y[3], x[1] + y[4], y[1], y[2])
        if x[0] == 'pos' and y[0] == 'pos':
            if not sub:
                if x[1] == y[3]:
                    return ('pos', y[1], y[2] + x[2] - y[4], x[3], x[4])
                if y[1] == x[3]:
                    return ('pos', x[1], x[2] + y[2] - x[4], y[3], y[4])
            else:
                if x[3] == y[3] or self.same(st, x[3], y[3]):
                    return ('pos', x[1], x[2] - x[4] + y[4], y[1], y[2])
                if x[1] == y[1]:
                    return ('pos', y[3], y[4] + x[2] - y[2], x[3], x[4])
        if self.digits:
            r = self.lin_add(st, x, y, sg)
            if r is not None:
                return r
        lo1, hi1 = self.bounds(x)
        lo2, hi2 = self.bounds(y)
        if sub:
            lo2, hi2 = (None if hi2 is None else -hi2), (None if lo2 is None else -lo2)
        lo = None if lo1 is None or lo2 is None else lo1 + lo2
        hi = None if hi1 is None or hi2 is None else hi1 + hi2
        if x[0] in ('top', 'unk') or y[0] in ('top', 'unk'):
            return x if x[0] == 'unk' else y if y[0] == 'unk' else top()
        return ir_bucket(lo, hi)

    # ---- sums of code points (only where a check follows the values of digits) ----
    def as_lin(self, v):
        if v[0] == 'i':
            return (), v[1]
        if v[0] == 'ch':
            return ((1, v[1], 'cp'),), 0
        if v[0] == 'lin':
            return v[1], v[2]
        return None

    def lin(self, st, terms, c):
        """a code point less its class's offset is the value of the digit there"""
        if not terms:
            return ('i', c)
        if len(terms) == 1 and terms[0][0] == 1 and terms[0][2] == 'cp':
            m = terms[0][1]
            for a, z, k in ((48, 57, 48), (97, 102, 87), (65, 70, 55)):
                must, may = self.al.members(self.models._na(lambda x: a <= x <= z))
                if self.letter_filter(st.aut, m, self.al.allset - must).empty():
                    return ('lin', ((1, m, 'h'),), c + k)
        if len(terms) > 8:
            return top()
        return ('lin', tuple(sorted(terms, key=lambda x: (-x[0], x[1], x[2]))), c)

    def lin_add(self, st, x, y, sg):
        if x[0] not in ('ch', 'lin') and y[0] not in ('ch', 'lin'):
            return None
        a, b2 = self.as_lin(x), self.as_lin(y)
        if a is None or b2 is None or sg < 0 and b2[0]:
            return None
        return self.lin(st, a[0] + b2[0], a[1] + sg * b2[1])

    def lin_op(self, st, op, x, y):
        if x[0] not in ('ch', 'lin') and y[0] not in ('ch', 'lin'):
            return None
        if op == 'Shl' and y[0] == 'i' and 0 <= y[1] < 32:
            y = ('i', 1 << y[1])
            op = 'Mul'
        if op.startswith('Mul'):
            if x[0] == 'i':
                x, y = y, x
            a = self.as_lin(x)
            if y[0] != 'i' or a is None or y[1] <= 0:
                return None
            return self.lin(st, tuple((k * y[1], m, z) for k, m, z in a[0]), a[1] * y[1])
        if x[0] == 'i':
            x, y = y, x
        if y[0] == 'i' and op in ('BitAnd', 'BitOr', 'BitXor'):
            return self.lin_bits(st, op, self.as_lin(x), y[1])
        if op in ('BitOr', 'BitXor'):
            # digits put beside each other; where they overlap the sum is as wrong as the result
            a, b2 = self.as_lin(x), self.as_lin(y)
            if a is None or b2 is None or any(t[2] == 'cp' for t in a[0] + b2[0]):
                return None
            return self.lin(st, a[0] + b2[0], a[1] + b2[1])
        return None

    def lin_bits(self, st, op, a, k):
        ts, c = a
        if len(ts) == 1 and ts[0][0] == 1 and ts[0][2] == 'cp':
            m = ts[0][1]
            out = []
            g = {'BitAnd': lambda x: x & k, 'BitOr': lambda x: x | k, 'BitXor': lambda x: x ^ k}[op]
            seen = EMPTY
            for lo, hi, o in ((48, 57, 48), (97, 102, 87), (65, 70, 55)):
                must, may = self.al.members(self.models._na(lambda x: lo <= x <= hi))
                w = self.letter_filter(st.aut, m, must)
                if w.empty():
                    continue
                seen = words.union(seen, w)
                s = st.copy()
                s.aut = w
                # the value less that of the digit, for each char of the class
                ds = {g(x + c) - (x - o) for x in range(lo, hi + 1)}
                out.append((s, ('lin', ((1, m, 'h'),), ds.pop()) if len(ds) == 1 else top()))
            if out and words.subset(st.aut, seen):
                return out
            return None
        if op == 'BitAnd' and ts and not c and all(t[2] in ('h', 'part') for t in ts):
            top_ = sum(15 * t[0] for t in ts)
            if k < 0 or k & (k + 1) == 0 and top_ <= k:
                return ('lin', ts, c)
            return ('lin', tuple((t[0], t[1], 'part') for t in ts), c)
        if op in ('BitOr', 'BitXor') and k == 0:
            return ('lin', ts, c)
        return None

    def bounds(self, v):
        if v[0] == 'i':
            return v[1], v[1]
        if v[0] == 'ir':
            return v[1], v[2]
        if v[0] == 'pos':
            return (0 if v[2] >= v[4] and v[3] == LO else None), None
        if v[0] in ('ch', 'by'):
            return 0, None
        return None, None

    def abspos(self, st, v, lo):
        """(mark, off) of an index value relative to the slice start `lo`"""
        if v[0] == 'i':
            return lo, v[1]
        if v[0] == 'pos' and (v[3] == lo or self.same(st, v[3], lo)):
            return v[1], v[2] - v[4]
        if v[0] == 'pos' and v[1] == v[3]:
            return lo, v[2] - v[4]
        return None

    # ---- memory ---------------------------------------------------------------------------------
    def resolve(self, st, fi, place):
        """-> ('place', frame, local, proj) or ('val', value)"""
        root = (fi, place[0])
        proj = ()
        for e in place[1]:
            k = e[0]
            if k == 'd':
                v = self.load(st, root, proj)
                if v is not None and v[0] == 'ref':
                    root, proj = v[1], v[2]
                elif v is not None and v[0] == 'vref':
                    proj = proj + (('vd',),)
                # other values: a reference represented by its value
            elif k == 'f':
                proj = proj + (('f', e[1], e[2] if len(e) > 2 else None),)
            elif k == 'v':
                proj = proj + (('v', e[1]),)
            elif k == 'i':
                iv = st.frames[fi].loc.get(e[1], top())
                proj = proj + (('i', iv),)
            elif k == 'ci':
                proj = proj + (('ci', e[1], e[3]),)
            elif k == 'ss':
                proj = proj + (('ss', e[1], e[2], e[3]),)
            else:
                proj = proj + (('?',),)
        return root, proj

    def load(self, st, root, proj):
        v = st.frames[root[0]].loc.get(root[1])
        if v is None:
            v = top()
        for e in proj:
            v = self.project(st, v, e)
        return v

    def project(self, st, v, e):
        k = e[0]
        if v[0] == 'unk':
            return v
        if k == 'v':
            return v
        if k == 'vd':
            return v[1]
        if k == 'f':
            if v[0] == 'adt' and e[1] < len(v[3]):
                return v[3][e[1]]
            if v[0] == 'clo' and e[1] < len(v[2]):
                return v[2][e[1]]
            return top(e[2])
        if k == 'i':
            if v[0] == 's':
                ap = self.abspos(st, e[1], v[1])
                if ap is None:
                    return ('unk', 'index')
                return ('by?', ap[0], ap[1])
            if v[0] == 'c' and e[1][0] == 'i':
                bs = v[1].encode()
                if 0 <= e[1][1] < len(bs):
                    return ('i', bs[e[1][1]])
            if v[0] == 'adt' and v[1] == '[]':
                if e[1][0] == 'i' and 0 <= e[1][1] < len(v[3]):
                    return v[3][e[1][1]]
            if v[0] == 'vec':
                return v[1]
            return top()
        if k == 'ci':
            if v[0] == 's':
                if e[2]:
                    return ('by?', v[2], -e[1])
                return ('by?', v[1], e[1])
            if v[0] == 'adt' and v[1] == '[]':
                i = len(v[3]) - e[1] if e[2] else e[1]
                if 0 <= i < len(v[3]):
                    return v[3][i]
            return top()
        if k == 'ss':
            if v[0] == 's':
                hi = (v[2], -e[2]) if e[3] else (v[1], e[2])
                return ('s?', v[1], e[1], hi[0], hi[1])
            return top()
        return top()

    def norm(self, st, v):
        """materialise delayed byte/slice values (changes st.aut)"""
        if v[0] == 'by?':
            if v[2] == 0:
                return ('by', v[1])
            n = self.mark_at(st, v[1], v[2])
            return ('by', n)
        if v[0] == 's?':
            a = v[1] if v[2] == 0 else self.mark_at(st, v[1], v[2])
            c = v[3] if v[4] == 0 else self.mark_at(st, v[3], v[4])
            return ('s', a, c)
        return v

    def store(self, st, root, proj, val):
        loc = st.frames[root[0]].loc
        if not proj:
            loc[root[1]] = val
            return
        old = loc.get(root[1])
        loc[root[1]] = self._upd(st, old if old is not None else top(), proj, val)

    def _upd(self, st, v, proj, val):
        if not proj:
            return val
        e = proj[0]
        if e[0] == 'v':
            if v[0] != 'adt':
                v = ('adt', '?', e[1], ())
            return self._upd(st, v, proj[1:], val)
        if e[0] == 'f':
            i = e[1]
            if v[0] == 'clo':
                f = list(v[2])
                while len(f) <= i:
                    f.append(top())
                f[i] = self._upd(st, f[i], proj[1:], val)
                return ('clo', v[1], tuple(f))
            if v[0] != 'adt':
                v = ('adt', '?', 0, ())
            f = list(v[3])
            while len(f) <= i:
                f.append(top())
            f[i] = self._upd(st, f[i], proj[1:], val)
            return ('adt', v[1], v[2], tuple(f))
        if e[0] == 'i' and v[0] == 'adt' and v[1] == '[]' and e[1][0] == 'i' and 0 <= e[1][1] < len(v[3]):
            f = list(v[3])
            f[e[1][1]] = self._upd(st, f[e[1][1]], proj[1:], val)
            return ('adt', '[]', 0, tuple(f))
        return top()

    def read(self, st, fi, place):
        root, proj = self.resolve(st, fi, place)
        return self.norm(st, self.load(st, root, proj))

    def operand(self, st, fi, o):
        k = o.get('o')
        if k == 'p':
            v = self.read(st, fi, o['p'])
            return v
        if k == 'c':
            return self.const(st, fi, o)
        return top()

    def const(self, st, fi, o):
        if 'int' in o:
            if self.floats and o.get('ty') is not None and self.c.types[o['ty']]['k'] == 'float':
                return self.models.float_const(int(o['int']), self.c.types[o['ty']]['s'])
            return ('i', self.signed(int(o['int']), o.get('ty')))
        if 'str' in o:
            return ('c', o['str'])
        if 'bytes' in o:
            return ('c', bytes(o['bytes']).decode('latin1')) if isinstance(o['bytes'], list) else top()
        if 'fn' in o:
            return ('fn', o['fn'].get('inst') or o['fn']['decl'], id(o['fn']))
        if 'promoted' in o and 'uneval' in o:
            fn = self.c.fn(o['uneval']) or st.frames[fi].fn
            return self.promoted(fn, o['promoted'])
        if 'zst' in o:
            t = self.c.types[o['ty']]
            if t['k'] == 'closure':
                return ('clo', t['path'], ())
            if t['k'] == 'fndef':
                return ('fn', t.get('path') or t.get('s'), None)
            return UNIT
        if 'refint' in o:
            return ('i', int(o['refint']))
        return top(o.get('ty'))

    def signed(self, n, ty):
        if ty is None:
            return n
        t = self.c.types[ty]
        if t['k'] == 'int':
            bits = INT_BITS.get(t.get('s'), 64)
            if n >= 1 << (bits - 1):
                return n - (1 << bits)
        return n

    def promoted(self, fn, i):
        """value of a promoted constant (a straight-line body)"""
        try:
            body = fn.promoted[i]
        except IndexError:
            return top()
        loc = {}

        def val(o):
            if o['o'] == 'p':
                v = loc.get(o['p'][0], top())
                for e in o['p'][1]:
                    if e[0] == 'f':
                        v = self.project(None, v, ('f', e[1], None))
                return v
            return self.const(None, 0, o) if 'promoted' not in o else top()
        for bl in body['blocks']:
            for s in bl['ss']:
                if s['s'] != '=' or s['p'][1]:
                    continue
                v = s['v']
                if v['r'] == 'use':
                    loc[s['p'][0]] = val(v['a'])
                elif v['r'] == 'ref':
                    loc[s['p'][0]] = loc.get(v['p'][0], top())
                elif v['r'] == 'agg':
                    loc[s['p'][0]] = self.aggregate(v, [val(a) for a in v['ops']])
                elif v['r'] == 'cast':
                    loc[s['p'][0]] = val(v['a'])
                else:
                    loc[s['p'][0]] = top()
            t = bl['tm']
            if t['t'] == 'call':
                g = ir.callee(t['f'])
                n = (g.get('inst') or g['decl']) if g else ''
                if 'RangeInclusive' in n and n.endswith('::new'):
                    loc[t['dst'][0]] = ('adt', 'std::ops::RangeInclusive', 0, tuple(val(a) for a in t['args']) + (FALSE,))
                else:
                    loc[t['dst'][0]] = top()
        return loc.get(0, top())

    def aggregate(self, v, args):
        k = v['k']
        if k == 'tuple':
            return ('adt', '()', 0, tuple(args))
        if k == 'array':
            return ('adt', '[]', 0, tuple(args))
        if k == 'closure':
            return ('clo', v['path'], tuple(args))
        if k == 'adt':
            p = v['path']
            if p.endswith('option::Option'):
                p = 'Option'
            elif p.endswith('result::Result'):
                p = 'Result'
            return ('adt', p, v['v'], tuple(args))
        return top()

    # ---- rvalues: list of (state, value) --------------------------------------------------------
    def rvalue(self, st, fi, v, dst=None):
        r = v['r']
        if r == 'use':
            val = self.operand(st, fi, v['a'])
            if val[0] == 'top' and v['a'].get('o') == 'p' and v['a']['p'][1] and val[1] is not None \
                    and self.c.types[val[1]]['k'] == 'bool':
                root, proj = self.resolve(st, fi, v['a']['p'])
                s2 = st.copy()
                self.store(st, root, proj, TRUE)
                self.store(s2, root, proj, FALSE)
                return [(st, TRUE), (s2, FALSE)]
            return [(st, val)]
        if r == 'ref':
            root, proj = self.resolve(st, fi, v['p'])
            if v['mut']:
                val = self.load(st, root, proj)
                # a place behind a by-value reference cannot be written through
                return [(st, ('ref', root, proj))]
            val = self.norm(st, self.load(st, root, proj))
            return [(st, val)]
        if r == 'cast':
            val = self.operand(st, fi, v['a'])
            return [(st, self.cast(st, val, v))]
        if r == 'bin':
            x = self.operand(st, fi, v['a'])
            y = self.operand(st, fi, v['b'])
            return self.binop(st, fi, v['op'], x, y, v)
        if r == 'un':
            x = self.operand(st, fi, v['a'])
            op = v['op']
            if op == 'Not':
                if x[0] == 'i' and x[1] in (0, 1):
                    return [(st, b(not x[1]))]
                return [(st, x if x[0] in ('unk',) else top())]
            if op == 'Neg':
                if self.floats and self.models.is_float(x):
                    return [(st, self.models.float_neg(x))]
                if x[0] == 'i':
                    return [(st, ('i', -x[1]))]
                return [(st, ('ir', None, None))]
            if op == 'PtrMetadata':
                return [(st, self.length(st, x))]
            return [(st, top())]
        if r == 'discr':
            root, proj = self.resolve(st, fi, v['p'])
            val = self.norm(st, self.load(st, root, proj))
            if val[0] == 'adt':
                return [(st, ('i', self.discr_value(val)))]
            return self.fork_variants(st, fi, v['p'], root, proj, val)
        if r == 'agg':
            return [(st, self.aggregate(v, [self.operand(st, fi, a) for a in v['ops']]))]
        if r == 'repeat':
            return [(st, top())]
        return [(st, top())]

    def discr_value(self, val):
        a = self.c.adts.get(val[1])
        if a and a.get('discr') and val[2] < len(a['discr']):
            try:
                return int(a['discr'][val[2]])
            except (TypeError, ValueError):
                pass
        return val[2]

    def place_ty(self, fn, place):
        """type id of a place when it can be told from locals and field projections"""
        t = fn.locals[place[0]] if not fn.synthetic else None
        for e in place[1]:
            if t is None:
                return None
            ty = self.c.types[t]
            if e[0] == 'd':
                t = ty.get('t') if ty['k'] in ('ref', 'ptr') else None
            elif e[0] == 'f':
                t = e[2] if len(e) > 2 else None
            elif e[0] == 'v':
                pass
            else:
                t = ty.get('t') if ty['k'] in ('slice', 'array') else None
        return t

    def fork_variants(self, st, fi, place, root, proj, val):
        ty = self.place_ty(st.frames[fi].fn, place)
        nvar = None
        path = None
        if ty is not None and self.c.types[ty]['k'] == 'adt':
            path = self.c.types[ty]['path']
            if path.endswith('option::Option'):
                path, nvar, arity = 'Option', 2, [0, 1]
            elif path.endswith('result::Result'):
                path, nvar, arity = 'Result', 2, [1, 1]
            elif path.endswith('ops::ControlFlow'):
                path, nvar, arity = 'ControlFlow', 2, [1, 1]
            elif path.endswith('cmp::Ordering'):
                path, nvar, arity = 'Ordering', 3, [0, 0, 0]
            elif path in self.c.adts:
                a = self.c.adts[path]
                nvar = len(a['variants'])
                arity = [len(x['f']) for x in a['variants']]
        why = val[1] if val[0] == 'unk' else None
        if nvar is None:
            if why:
                self.note_imp(st, why)
            return [(st, top())]
        out = []
        for i in range(nvar):
            s = st.copy()
            if why:
                self.note_imp(s, why)
            nv = ('adt', path, i, tuple([val if why else top()] * arity[i]))
            self.store(s, root, proj, nv)
            out.append((s, ('i', self.discr_value(nv))))
        return out

    def cast(self, st, val, v):
        if self.floats:
            r = self.models.float_cast(val, self.c.types[v['ty']] if 'ty' in v else None)
            if r is not None:
                return r
        if val[0] == 'i':
            t = self.c.types[v['ty']] if 'ty' in v else None
            if t and t['k'] in ('int', 'uint'):
                bits = INT_BITS.get(t['s'], 64)
                n = val[1] & ((1 << bits) - 1)
                if t['k'] == 'int' and n >= 1 << (bits - 1):
                    n -= 1 << bits
                return ('i', n)
            if t and t['k'] == 'float':
                return ('top', v.get('ty'))
            return val
        if val[0] in ('by', 'ch'):
            return val
        if val[0] == 'pos':
            return val
        if val[0] == 'lin':
            t = self.c.types[v['ty']] if 'ty' in v else None
            bits = INT_BITS.get(t['s'], 64) if t is not None and t['k'] in ('int', 'uint') else 32
            top_ = val[2] + sum(x[0] * (15 if x[2] == 'h' else 0x10ffff) for x in val[1])
            small = bits < 32 and top_ >= 1 << (bits - (t['k'] == 'int'))
            if small and bits >= 8 and not val[2] and all(x[2] in ('h', 'part') for x in val[1]):
                return ('lin', tuple((x[0], x[1], 'part') for x in val[1]), 0)
            return top(v.get('ty')) if small else val
        if val[0] in ('s', 'c', 'ref', 'adt', 'clo', 'fn', 'unk', 'vec', 'o'):
            return val
        if val[0] == 'ir':
            t = self.c.types[v['ty']] if 'ty' in v else None
            if t and t['k'] == 'uint' and (val[1] is None or val[1] < 0):
                return ('ir', 0, None)
            return val
        return top(v.get('ty'))

    def binop(self, st, fi, op, x, y, v):
        if op in ('Lt', 'Le', 'Gt', 'Ge', 'Eq', 'Ne'):
            if x[0] == 'pos' and y[0] == 'i':
                self.backprop(st, fi, v['b'], y, x)
            if y[0] == 'pos' and x[0] == 'i':
                self.backprop(st, fi, v['a'], x, y)
            return self.compare(st, op, x, y)
        if self.floats:
            r = self.models.float_op(op, x, y)
            if r is not None:
                return [(st, r)]
        if op in ('Add', 'Sub', 'AddWithOverflow', 'SubWithOverflow', 'AddUnchecked', 'SubUnchecked'):
            sub = op.startswith('Sub')
            val = self.add(st, x, y, sub)
            if 'WithOverflow' not in op:
                return [(st, val)]
            out = []
            if val[0] == 'pos' and sub:
                for s, r in self.compare(st.copy(), 'Lt', val, ('i', 0)) if val[1] != val[3] else \
                        [(st, b(val[2] < val[4]))]:
                    out.append((s, ('adt', '()', 0, (val, r))))
                return out
            if val[0] == 'i':
                t = self.op_ty(st, fi, v['a'])
                o = False
                if t is not None and t['k'] in ('int', 'uint'):
                    bits = INT_BITS.get(t['s'], 64)
                    o = not (0 <= val[1] < 1 << bits) if t['k'] == 'uint' else \
                        not (-(1 << (bits - 1)) <= val[1] < 1 << (bits - 1))
                elif val[1] < 0:
                    o = True
                return [(st, ('adt', '()', 0, (val, b(o))))]
            return [(st, ('adt', '()', 0, (val, FALSE if val[0] == 'pos' else ('ovf', op))))]
        if op in ('Mul', 'MulWithOverflow', 'Div', 'Rem', 'BitAnd', 'BitOr', 'BitXor', 'Shl', 'Shr'):
            if x[0] == 'i' and y[0] == 'i':
                a, c = x[1], y[1]
                r = None
                if op.startswith('Mul'):
                    r = a * c
                elif op == 'Div' and c:
                    r = a // c
                elif op == 'Rem' and c:
                    r = a % c
                elif op == 'BitAnd':
                    r = a & c
                elif op == 'BitOr':
                    r = a | c
                elif op == 'BitXor':
                    r = a ^ c
                elif op == 'Shl':
                    r = (a << c) & ((1 << 64) - 1)
                elif op == 'Shr':
                    r = a >> c
                if r is not None:
                    val = ('i', r)
                    return [(st, val if 'With' not in op else ('adt', '()', 0, (val, FALSE)))]
            if op in ('BitAnd', 'BitOr') and ((x[0] == 'i' and x[1] in (0, 1)) or (y[0] == 'i' and y[1] in (0, 1))):
                c, o = (x, y) if x[0] == 'i' else (y, x)
                if (op == 'BitAnd') == (c[1] == 0):
                    return [(st, c)]
                return [(st, o)]
            if self.digits:
                r = self.lin_op(st, op, x, y)
                if isinstance(r, list):
                    return r
                if r is not None:
                    return [(st, r if 'With' not in op else ('adt', '()', 0, (r, ('ovf', op))))]
            u = self.unk_reason(x, y)
            val = ('unk', u) if u else top()
            return [(st, val if 'With' not in op else ('adt', '()', 0, (val, ('ovf', op))))]
        u = self.unk_reason(x, y)
        return [(st, ('unk', u) if u else top())]

    def op_ty(self, st, fi, o):
        if o.get('o') == 'c':
            return self.c.types[o['ty']] if 'ty' in o else None
        fn = st.frames[fi].fn
        if fn.synthetic:
            return None
        t = self.place_ty(fn, o['p'])
        return self.c.types[t] if t is not None else None

    def backprop(self, st, fi, o, cv, pv):
        """a constant compared with a position is an index: remember it as one at its source variable"""
        if o.get('o') != 'p' or o['p'][1]:
            return
        base = pv[3]
        fr = st.frames[fi]
        l = o['p'][0]
        seen = 0
        while seen < 4:
            if fr.loc.get(l) == cv:
                fr.loc[l] = ('pos', base, cv[1], base, 0)
            src = self.copy_src(fr.fn, l)
            if src is None:
                return
            l = src
            seen += 1

    def copy_src(self, fn, l):
        cache = self.__dict__.setdefault('_cs', {})
        k = (id(fn), l)
        if k in cache:
            return cache[k]
        defs = []
        for bl in fn.blocks:
            for s in bl['ss']:
                if s['s'] == '=' and s['p'][0] == l and not s['p'][1]:
                    defs.append(s['v'])
            t = bl['tm']
            if t['t'] == 'call' and t['dst'][0] == l and not t['dst'][1]:
                defs.append(None)
        r = None
        if len(defs) == 1 and defs[0] is not None and defs[0]['r'] == 'use' and defs[0]['a'].get('o') == 'p' \
                and not defs[0]['a']['p'][1]:
            r = defs[0]['a']['p'][0]
        cache[k] = r
        return r

    def length(self, st, v):
        if v[0] == 's':
            return ('pos', v[2], 0, v[1], 0)
        if v[0] == 'c':
            return ('i', len(v[1].encode()))
        if v[0] == 'adt' and v[1] == '[]':
            return ('i', len(v[3]))
        if v[0] == 'unk':
            return v
        return ('ir', 0, None)

    # ---- canonical states -----------------------------------------------------------------------
    def canon(self, st):
        frames = st.frames
        live = []
        n = len(frames)
        for i, f in enumerate(frames):
            if i == n - 1:
                live.append(set(f.fn.live()[f.bb]))
            else:
                nx = frames[i + 1]
                s = set(f.fn.live()[nx.ret]) if nx.ret is not None else set()
                if nx.dst is not None and not nx.dst[1]:
                    s.discard(nx.dst[0])
                elif nx.dst is not None:
                    s.add(nx.dst[0])
                live.append(s)
        work = [(i, l) for i in range(n) for l in live[i]]
        seen = set(work)
        while work:
            i, l = work.pop()
            v = frames[i].loc.get(l)
            if v is None:
                continue
            for r in self.refs(v):
                if r not in seen and r[0] < n:
                    seen.add(r)
                    work.append(r)
        for i, f in enumerate(frames):
            for l in list(f.loc):
                if (i, l) not in seen:
                    del f.loc[l]
        # normalise offsets
        for i, f in enumerate(frames):
            for l in sorted(f.loc):
                f.loc[l] = self.normoff(st, f.loc[l])
        # marks in use, in order
        order = []

        def visit(v):
            t = v[0]
            if t == 'pos':
                for m in (v[1], v[3]):
                    if m > HI and m not in order:
                        order.append(m)
            elif t in ('ch', 'by'):
                if v[1] > HI and v[1] not in order:
                    order.append(v[1])
            elif t == 'lin':
                for x in v[1]:
                    if x[1] > HI and x[1] not in order:
                        order.append(x[1])
            elif t == 's':
                for m in (v[1], v[2]):
                    if m > HI and m not in order:
                        order.append(m)
            elif t == 'adt':
                for x in v[3]:
                    visit(x)
            elif t == 'clo':
                for x in v[2]:
                    visit(x)
            elif t == 'vec':
                visit(v[1])
            elif t == 'ref':
                for e in v[2]:
                    if e[0] == 'i':
                        visit(e[1])
        for f in frames:
            for l in sorted(f.loc):
                visit(f.loc[l])
        for g in st.ghost:
            if isinstance(g, tuple) and g and g[0] in ('pos', 'ch', 'by', 's', 'adt', 'i', 'top'):
                visit(g)
        # unify coincident marks
        ren = {LO: LO, HI: HI}
        keep = [LO, HI]
        occ = {}
        for mk in [LO, HI] + order:
            mb = 1 << mk
            occ[mk] = frozenset((q, s) for q, d in enumerate(st.aut.trans) for s in d if s[0] & mb)
        byocc = {}
        for mk in [LO, HI] + order:
            o = occ[mk]
            if mk > HI and o in byocc:
                ren[mk] = byocc[o]
                continue
            if mk > HI:
                ren[mk] = len(keep)
                keep.append(mk)
            byocc.setdefault(o, ren[mk])
        mm = [(1 << k, 1 << v) for k, v in ren.items()]

        def remap(mask):
            r = 0
            for a, c in mm:
                if mask & a:
                    r |= c
            return r
        st.aut = words.map_marks(st.aut, remap)
        st.nmark = len(keep)

        def rv(v):
            t = v[0]
            if t == 'pos':
                if ren[v[1]] == ren[v[3]] and v[1] != v[3]:
                    return ('i', v[2] - v[4]) if False else ('pos', ren[v[1]], v[2], ren[v[3]], v[4])
                return ('pos', ren[v[1]], v[2], ren[v[3]], v[4])
            if t in ('ch', 'by'):
                return (t, ren[v[1]])
            if t == 'lin':
                return ('lin', tuple((x[0], ren[x[1]], x[2]) for x in v[1]), v[2])
            if t == 's':
                return ('s', ren[v[1]], ren[v[2]]) + v[3:]
            if t == 'adt':
                return ('adt', v[1], v[2], tuple(rv(x) for x in v[3]))
            if t == 'clo':
                return ('clo', v[1], tuple(rv(x) for x in v[2]))
            if t == 'vec':
                return ('vec', rv(v[1]))
            if t == 'ref':
                return ('ref', v[1], tuple((e[0], rv(e[1])) if e[0] == 'i' else e for e in v[2]))
            return v
        for f in frames:
            for l in f.loc:
                f.loc[l] = rv(f.loc[l])
        st.ghost = tuple(rv(g) if isinstance(g, tuple) and g and g[0] in ('pos', 'ch', 'by', 's', 'adt', 'i', 'top')
                         else g for g in st.ghost)

    def normoff(self, st, v):
        if v[0] == 'pos' and (v[2] != 0) and 0 < abs(v[2]) <= 12:
            s = st.copy()
            n = self.mark_at(s, v[1], v[2])
            # in range for every word?
            if words.subset(st.aut, self.drop(s.aut, n)):
                st.aut, st.nmark = s.aut, s.nmark
                return ('pos', n, 0, v[3], v[4])
            return v
        if v[0] == 'adt' and v[3]:
            return ('adt', v[1], v[2], tuple(self.normoff(st, x) for x in v[3]))
        return v

    def refs(self, v):
        t = v[0]
        if t == 'ref':
            yield v[1]
            for e in v[2]:
                if e[0] == 'i':
                    for r in self.refs(e[1]):
                        yield r
        elif t == 'adt':
            for x in v[3]:
                for r in self.refs(x):
                    yield r
        elif t == 'clo':
            for x in v[2]:
                for r in self.refs(x):
                    yield r

    def key(self, st):
        return (tuple((id(f.fn), f.bb, f.ret, f.dst and (f.dst[0], str(f.dst[1])), f.tag,
                       tuple(sorted(f.loc.items(), key=lambda kv: kv[0]))) for f in st.frames), st.ghost, st.imp)

    # ---- main loop ------------------------------------------------------------------------------
    def run(self, fn, args, aut=None, ghost=(), extra=None):
        """returns list of (state, return value)"""
        st = State([Frame(fn, 0, {i + 1: a for i, a in enumerate(args)}, None, None)],
                   aut if aut is not None else self.initial(), frozenset(), ghost)
        if extra:
            st.frames[0].loc.update(extra)
        self.outcomes = []
        self.seen = {}
        self.percount = {}
        self.visits = {}
        self.analysed.add(fn.path)
        import heapq
        self.cnt = 0
        self.pend = {}
        self.done = set()
        work = []

        def push(s):
            f = s.frames[-1]
            rp, heads = self.order(f.fn)
            pos = rp.get(f.bb, 0)
            k = None
            late = 0
            if len(f.fn.preds()[f.bb]) > 1:
                self.canon(s)
                if s.aut.empty():
                    return
                if f.bb in heads:
                    pc = tuple((id(x.fn), x.bb, x.tag) for x in s.frames)
                    ks = self.percount.setdefault(pc, set())
                    k = self.key(s)
                    if len(ks) > 12 and k not in ks:
                        s = self.coarsen(s)
                        k = self.key(s)
                    ks.add(k)
                    if len(ks) > self.max_keys:
                        raise Budget('too many abstract states at %s bb%d' % (f.fn.path, f.bb))
                    late = 1
                else:
                    k = self.key(s)
                if k in self.pend:
                    p = self.pend[k]
                    p.aut = words.union(p.aut, s.aut)
                    return
                self.pend[k] = s
            self.cnt += 1
            heapq.heappush(work, ((-len(s.frames), late, -pos if late else pos, self.cnt), k, s))
        push(st)
        while work:
            _, k, s = heapq.heappop(work)
            if k is not None:
                del self.pend[k]
                if not self.enter(s, k):
                    continue
            for n in self.step_block(s):
                if n is None or n.aut.empty():
                    continue
                push(n)
        return self.outcomes

    def order(self, fn):
        c = self.shared.setdefault('order', {})
        r = c.get(id(fn))
        if r is None:
            seen = set()
            out = []
            st = [(0, iter(fn.succs(0)))]
            seen.add(0)
            while st:
                b_, itr = st[-1]
                for n in itr:
                    if n not in seen:
                        seen.add(n)
                        st.append((n, iter(fn.succs(n))))
                        break
                else:
                    out.append(b_)
                    st.pop()
            rp = {b_: i for i, b_ in enumerate(reversed(out))}
            heads = {t for b_ in rp for t in fn.succs(b_) if rp[t] <= rp[b_]}
            r = c[id(fn)] = (rp, heads, fn)
        return r[0], r[1]

    def enter(self, st, k):
        """join bookkeeping; False when nothing new reaches the block"""
        f = st.frames[-1]
        old = self.seen.get(k)
        if old is None:
            self.seen[k] = st.aut
            self.visits[k] = 0
            return True
        if words.subset(st.aut, old):
            return False
        u = words.union(old, st.aut)
        v = self.visits[k] = self.visits[k] + 1
        if v > self.wdelay and f.bb in self.order(f.fn)[1]:
            w = words.ktails(u, self.k)
            u = words.wellformed(w, u, self.al)
            if v > 24:
                u = words.local_closure(u, self.al)
                self.notes.add('local closure at %s' % f.fn.path)
            if self.base is not None and (not self.in_summary or self.sum_base is not None):
                u = words.restrict(u, self.base)
        if v > (120 if f.bb in self.order(f.fn)[1] else 1200):
            raise Budget('no convergence at %s bb%d' % (f.fn.path, f.bb))
        self.seen[k] = u
        st.aut = u
        return True

    def coarsen(self, st):
        def cv(v):
            if v[0] == 'i' and v[1] > 200:
                return ('ir', 1, None)
            if v[0] == 'i' and 6 < v[1]:
                return ('ir', 1, None)
            if v[0] == 'pos' and v[2] - v[4] > 6:
                return ('ir', 1, None)
            if v[0] == 'i' and v[1] < -6:
                return ('ir', None, -1)
            if v[0] == 'adt':
                return ('adt', v[1], v[2], tuple(cv(x) for x in v[3]))
            return v
        for f in st.frames:
            for l in f.loc:
                t = None
                if not f.fn.synthetic:
                    t = self.c.types[f.fn.locals[l]]
                if t is not None and t['k'] in ('char', 'bool'):
                    continue
                f.loc[l] = cv(f.loc[l])
        return st

    def step_block(self, st):
        """execute one block; yields successor states positioned at block entries"""
        self.steps += 1
        if self.steps > self.budget:
            raise Budget('step budget')
        if self.deadline is not None and time.time() > self.deadline:
            raise Budget('time')
        f = st.frames[-1]
        bl = f.fn.blocks[f.bb]
        fi = len(st.frames) - 1
        states = [st]
        for s in bl['ss']:
            nxt = []
            for x in states:
                if s['s'] == '=':
                    for y, val in self.rvalue(x, fi, s['v']):
                        if y.aut.empty():
                            continue
                        self.on_write(y, fi, s['p'], val)
                        root, proj = self.resolve(y, fi, s['p'])
                        self.store(y, root, proj, val)
                        nxt.append(y)
                else:
                    nxt.append(x)
            states = nxt
        out = []
        for x in states:
            out.extend(self.terminator(x, fi, bl['tm']))
        return out

    def goto(self, st, bb):
        st.frames[-1].bb = bb
        return st

    def terminator(self, st, fi, t):
        k = t['t']
        if k == 'goto':
            return [self.goto(st, t['to'])]
        if k == 'drop':
            return [self.goto(st, t['to'])]
        if k == 'return':
            return self.do_return(st)
        if k == 'switch':
            return self.switch(st, fi, t)
        if k == 'assert':
            return self.do_assert(st, fi, t)
        if k == 'call':
            return self.call(st, fi, t)
        if k in ('unreachable', 'resume', 'abort'):
            return []
        if 'to' in t and isinstance(t['to'], int):
            return [self.goto(st, t['to'])]
        return []

    def do_return(self, st):
        f = st.frames.pop()
        v = f.loc.get(0, UNIT)
        if not st.frames:
            st.frames.append(f)
            self.outcomes.append((st, v))
            return []
        if f.ret is None:
            return []
        return self.deliver(st, f.dst, f.ret, v)

    def deliver(self, st, dst, ret, v):
        if ret is None:
            return []
        fi = len(st.frames) - 1
        v = self.norm(st, v)
        self.on_write(st, fi, dst, v)
        root, proj = self.resolve(st, fi, dst)
        self.store(st, root, proj, v)
        st.frames[-1].bb = ret
        return [st]

    def on_write(self, st, fi, place, v):
        pass

    def switch(self, st, fi, t):
        v = self.operand(st, fi, t['d'])
        ts = [(int(a), bb) for a, bb in t['ts']]
        if v[0] == 'i':
            for a, bb in ts:
                if a == v[1] or a == (v[1] & ((1 << 64) - 1)) or (v[1] < 0 and a in (
                        v[1] & 0xFF, v[1] & 0xFFFF, v[1] & 0xFFFFFFFF, v[1] & ((1 << 128) - 1))):
                    return [self.goto(st, bb)]
            return [self.goto(st, t['else'])] if t.get('else') is not None else []
        out = []
        if v[0] in ('ch', 'by'):
            cur = st
            vals = []
            for a, bb in ts:
                s = self.filter_char(st, v, self.cp_pred('Eq', a))
                vals.append(a)
                if s is not None:
                    out.append(self.goto(s, bb))
            if t.get('else') is not None:
                vs = set(vals)

                def pr(c):
                    if not isinstance(c, int):
                        return None if any(x >= 128 for x in vs) else False
                    return c in vs
                s = self.filter_char(st, v, pr, False)
                if s is not None:
                    out.append(self.goto(s, t['else']))
            return out
        if v[0] == 'pos':
            cur = [st]
            for a, bb in ts:
                nxt = []
                for x in cur:
                    for s, r in self.compare(x, 'Eq', v, ('i', a)):
                        if r == TRUE:
                            out.append(self.goto(s, bb))
                        else:
                            nxt.append(s)
                cur = nxt
            if t.get('else') is not None:
                out.extend(self.goto(s, t['else']) for s in cur)
            return out
        why = v[1] if v[0] in ('unk',) else None
        tgts = [bb for a, bb in ts]
        if v[0] == 'ir':
            tgts = [bb for a, bb in ts if not (v[1] is not None and a < v[1])]
        if t.get('else') is not None:
            tgts = tgts + [t['else']]
        for bb in tgts:
            s = st.copy()
            if why:
                self.note_imp(s, why)
            out.append(self.goto(s, bb))
        return out

    def event(self, kind, st, **kw):
        self.events.append((kind, st.copy(), kw))

    def do_assert(self, st, fi, t):
        v = self.operand(st, fi, t['c'])
        exp = 1 if t['exp'] else 0
        if v[0] == 'i':
            if v[1] == exp:
                return [self.goto(st, t['to'])]
            self.event('panic', st, what=t['k'], sp=t.get('sp'), fn=st.frames[-1].fn.path)
            return []
        if v[0] == 'ovf':
            # arithmetic the domain cannot bound
            return [self.goto(st, t['to'])]
        return [self.goto(st, t['to'])]

    def callee_fn(self, g):
        """crate-local body for a callee"""
        for n in (g.get('inst'), g['decl']):
            if n and n in self.c.fns:
                return self.c.fns[n]
        return None

    def call(self, st, fi, t):
        f = t['f']
        g = ir.callee(f)
        args = [self.operand(st, fi, a) for a in t['args']]
        for h in self.hooks:
            r = h(self, st, fi, t, g, args)
            if r is not None:
                return r
        if g is None:
            v = self.operand(st, fi, f)
            if v[0] == 'fn':
                return self.invoke_fnval(st, v, args, t['dst'], t['to'], t)
            return self.unknown(st, fi, t, args, 'indirect call')
        lf = self.callee_fn(g)
        name = g.get('inst') or g['decl']
        if lf is not None and lf.path in self.summaries:
            return self.summaries[lf.path](self, st, fi, t, args)
        if lf is not None and not self.models.overrides(name):
            return self.push_call(st, lf, args, t['dst'], t['to'], t)
        r = self.models.apply(self, st, fi, t, g, args)
        if r is not None:
            return r
        return self.unknown(st, fi, t, args, g['decl'])

    # ---- summaries of pure string functions -----------------------------------------------------
    def markfree(self, v):
        k = v[0]
        if k in ('i', 'ir', 'c', 'top', 'fn'):
            return True
        if k == 'adt':
            return all(self.markfree(x) for x in v[3])
        if k == 'clo':
            return all(self.markfree(x) for x in v[2])
        return False

    def summarise(self, fn, args, base=None):
        """outcomes of fn on [the whole word] for its slice argument, or None"""
        key = (fn.path, tuple('S' if a[0] == 's' else a for a in args), base is None)
        cache = self.shared.setdefault('sum', {})
        if key in cache:
            return cache[key]
        if key in self.shared.setdefault('busy', set()):
            return None
        self.shared['busy'].add(key)
        sub = Machine(self.c, self.al, budget=self.budget, inline_depth=self.inline_depth)
        sub.shared = self.shared
        sub.hooks = self.hooks
        sub.in_summary = True
        sub.digits = self.digits
        sub.floats = self.floats
        sub.sum_base, sub.sum_not, sub.k, sub.wdelay = self.sum_base, self.sum_not, self.sum_k or sub.k, self.sum_delay or sub.wdelay
        aut = None
        if base is not None:
            sub.base = base
            aut = words.with_bounds(base)
        try:
            outs = sub.run(fn, [('s', LO, HI) if a[0] == 's' else a for a in args], aut)
        except Budget as e:
            cache[key] = None
            self.notes.add('no summary of %s: %s' % (fn.path, e))
            self.shared['busy'].discard(key)
            return None
        self.shared['busy'].discard(key)
        res = {}
        good = True
        for s, v in outs:
            s = s.copy()
            s.frames = [Frame(self.models.RET, 0, {0: v}, None, None)]
            self.canon(s)
            v = s.frames[-1].loc.get(0, UNIT)
            if any(True for _ in self.refs(v)):
                good = False
                break
            k = (v, s.imp)
            res[k] = words.union(res[k], s.aut) if k in res else s.aut
        if not good:
            cache[key] = None
            return None
        ev = {}
        for kind, s, kw in sub.events:
            k = (kind, kw['what'], kw['fn'], str(kw['sp']))
            a = words.map_marks(s.aut, lambda m: m & 3)
            if k in ev:
                a = words.union(ev[k][0], a)
            ev[k] = (a, kind, kw)
        for n, c in sub.unmodelled.items():
            self.unmodelled[n] = self.unmodelled.get(n, 0) + c
        self.notes |= sub.notes
        self.analysed |= sub.analysed
        self.steps += 0
        r = (list(res.items()), list(ev.values()))
        cache[key] = r
        return r

    def compose(self, st, lo, hi, caut):
        """restrict the slice [lo,hi) of st to caut, whose marks become new marks; -> (state, renaming)"""
        s = st.copy()
        ren = {LO: lo, HI: hi}
        bits = set()
        for d in caut.trans:
            for (m, l) in d:
                k = 0
                while m >> k:
                    if m >> k & 1:
                        bits.add(k)
                    k += 1
        for k in sorted(bits):
            if k > HI:
                ren[k] = s.newmark()
        memo = {}

        def mp(m):
            r = memo.get(m)
            if r is None:
                r = 0
                k = 2
                while m >> k:
                    if m >> k & 1:
                        r |= 1 << ren[k]
                    k += 1
                memo[m] = r
            return r
        T = caut.trans
        acc = words._accs(caut)
        lb, hb = 1 << lo, 1 << hi
        idx = []
        ends = []
        for d in T:
            by = {}
            e = []
            for (m, l), t in d.items():
                if l == END:
                    if t in acc:
                        e.append(m)
                else:
                    by.setdefault(l, []).append((m, t))
            idx.append(by)
            ends.append(e)

        def f(q, mask, l):
            if q == -1:
                if not mask & lb:
                    return ((-1, mask),)
                q = 0
            if q == -2:
                return ((-2, mask),)
            if mask & hb:
                return [(-2, mask | mp(m)) for m in ends[q]]
            return [(t, mask | mp(m)) for m, t in idx[q].get(l, ())]
        s.aut = self._trans(s.aut, -1, f, lambda q: q == -2)
        return s, ren

    def rename(self, v, ren):
        t = v[0]
        if t == 'pos':
            return ('pos', ren[v[1]], v[2], ren[v[3]], v[4])
        if t in ('ch', 'by'):
            return (t, ren[v[1]])
        if t == 'lin':
            return ('lin', tuple((x[0], ren[x[1]], x[2]) for x in v[1]), v[2])
        if t == 's':
            return ('s', ren[v[1]], ren[v[2]])
        if t == 'adt':
            return ('adt', v[1], v[2], tuple(self.rename(x, ren) for x in v[3]))
        if t == 'clo':
            return ('clo', v[1], tuple(self.rename(x, ren) for x in v[2]))
        if t == 'vec':
            return ('vec', self.rename(v[1], ren))
        return v

    def try_summary(self, st, fn, args, dst, to, t):
        if fn.synthetic or fn.kind == 'Closure' or not self.use_summaries or fn.path in self.no_summary:
            return None
        sl = [a for a in args if a[0] == 's']
        if len(sl) != 1 or not all(a[0] == 's' or self.markfree(a) for a in args):
            return None
        if sl[0][1] == LO and sl[0][2] == HI and len(st.frames) == 0:
            return None
        base = None
        if self.sum_base is not None:
            if self.sum_not is None:
                al = words.Lang(self.al)
                self.sum_not = words.difference(al.build(al.star(al.any())), self.sum_base)
            if self.compose(st, sl[0][1], sl[0][2], self.sum_not)[0].aut.empty():
                base = self.sum_base
        r = self.summarise(fn, args, base)
        if r is None:
            return None
        lo, hi = sl[0][1], sl[0][2]
        outs, evs = r
        for a, kind, kw in evs:
            s, _ = self.compose(st, lo, hi, a)
            if not s.aut.empty():
                self.event(kind, s, **kw)
        pairs = []
        for (v, imp), a in outs:
            if lo == hi:
                # an empty slice: only the empty word
                pass
            s, ren = self.compose(st, lo, hi, a)
            if s.aut.empty():
                continue
            for m in (LO, HI):
                ren[m] = lo if m == LO else hi
            try:
                v2 = self.rename(v, ren)
            except KeyError:
                return None
            s.imp = s.imp | imp
            pairs.append((s, v2))
        out = []
        for s, v in pairs:
            out.extend(self.deliver(s, dst, to, v))
        return out

    def push_call(self, st, fn, args, dst, to, t=None, tag=None):
        r = self.try_summary(st, fn, args, dst, to, t)
        if r is not None:
            return r
        if len(st.frames) > self.inline_depth or sum(1 for x in st.frames if x.fn is fn) > 1:
            return self.unknown(st, len(st.frames) - 1, t, args, 'recursion ' + fn.path) if t else []
        self.analysed.add(fn.path) if not fn.synthetic else None
        st.frames.append(Frame(fn, 0, {i + 1: a for i, a in enumerate(args)}, dst, to, tag))
        return [st]

    def invoke(self, st, clo, argvals, dst, to, t=None):
        """call a closure/function value with a list of argument values"""
        if clo[0] == 'ref':
            v = self.load(st, clo[1], clo[2])
            if v[0] == 'clo':
                fn = self.c.fns.get(v[1])
                if fn is not None:
                    return self.push_call(st, fn, [clo] + list(argvals), dst, to, t)
            clo = v
        if clo[0] == 'clo':
            fn = self.c.fns.get(clo[1])
            if fn is not None:
                return self.push_call(st, fn, [clo] + list(argvals), dst, to, t)
        if clo[0] == 'fn':
            return self.invoke_fnval(st, clo, list(argvals), dst, to, t)
        return self.deliver(st, dst, to, ('unk', 'closure'))

    CTOR = {'Result::Ok': ('Result', 0), 'Result::Err': ('Result', 1), 'Option::Some': ('Option', 1)}

    def ctor(self, path):
        """(type, variant) if the function value is a tuple constructor"""
        s = self.models.short(path)
        if s in self.CTOR:
            return self.CTOR[s]
        p = self.models.nogen(path)
        if p in self.c.adts:
            return (p, 0)
        own, _, v = p.rpartition('::')
        if own in self.c.adts:
            for i, x in enumerate(self.c.adts[own]['variants']):
                if x['n'] == v:
                    return (own, i)
        return None

    def invoke_fnval(self, st, fv, args, dst, to, t):
        fn = self.c.fns.get(fv[1])
        if fn is not None:
            return self.push_call(st, fn, args, dst, to, t)
        c = self.ctor(fv[1])
        if c is not None:
            return self.deliver(st, dst, to, ('adt', c[0], c[1], tuple(args)))
        g = {'decl': fv[1], 'inst': fv[1], 'args': [], 'local': False}
        tt = {'t': 'call', 'f': {}, 'args': [], 'dst': dst, 'to': to, 'sp': (t or {}).get('sp')}
        r = self.models.apply(self, st, len(st.frames) - 1, tt, g, args)
        if r is not None:
            return r
        return self.unknown(st, len(st.frames) - 1, tt, args, fv[1])

    def unknown(self, st, fi, t, args, name):
        """unmodelled call: unknown result, everything reachable through &mut arguments is lost"""
        self.unmodelled[name] = self.unmodelled.get(name, 0) + 1
        for a in args:
            if a and a[0] == 'ref':
                self.store(st, a[1], a[2], ('unk', name))
        if t.get('to') is None:
            self.event('panic', st, what='call ' + name, sp=t.get('sp'), fn=st.frames[-1].fn.path)
            return []
        return self.deliver(st, t['dst'], t['to'], ('unk', name))

    def results(self, fi, t, pairs):
        """deliver a list of (state, value)"""
        out = []
        for s, v in pairs:
            if s is None or s.aut.empty():
                continue
            out.extend(self.deliver(s, t['dst'], t['to'], v))
        return out
