"""Regular languages of marked words.

A word is a sequence of letters (classes of chars; multi-byte chars are a lead letter followed by
continuation letters C) closed by END.  A symbol is (mask, letter): the set of marks sitting in front
of that letter.  Automata are trimmed minimal DFAs in canonical form, so equality is structural.
"""
END = -1


class Alphabet:
    def __init__(self, sets, specials=(), variants=None):
        """sets: iterable of sets of ASCII code points that must not be split; variants: {code point: [tags]},
        chars that come in several flavours the program cannot tell apart (the specification can)"""
        variants = variants or {}
        sets = list(sets) + [{c} for c in variants]
        sig = {}
        for c in range(128):
            sig[c] = []
        for k, s in enumerate(sets):
            for c in s:
                if 0 <= c < 128:
                    sig[c].append(k)
        groups = {}
        for c in range(128):
            groups.setdefault(tuple(sig[c]), []).append(c)
        self.letters = []      # (frozenset of ascii codepoints | tag, width)
        self.of = {}
        self.tagged = {}
        for g in sorted(groups.values()):
            i = len(self.letters)
            self.letters.append((frozenset(g), 1))
            for c in g:
                self.of[c] = i
            if len(g) == 1 and g[0] in variants:
                tags = variants[g[0]]
                self.tagged.update({(g[0], t): i + k for k, t in enumerate(tags)})
                self.letters.extend([(frozenset(g), 1)] * (len(tags) - 1))
        self.lead = {}
        for tag, w in (('L2', 2), ('L3', 3), ('L4', 4), ('W2', 2), ('W3', 3)):
            self.lead[tag] = len(self.letters)
            self.letters.append((tag, w))
        self.special = {}
        for cp in sorted(set(specials)):
            if cp < 128 or cp in self.special:
                continue
            w = 2 if cp < 0x800 else 3 if cp < 0x10000 else 4
            self.special[cp] = len(self.letters)
            self.letters.append((('X', cp), w))
        self.C = len(self.letters)
        self.letters.append(('C', 1))
        self.n = len(self.letters)
        self.leads = [i for i in range(self.n) if i != self.C]
        self.allset = frozenset(range(self.n))
        self.leadset = frozenset(self.leads)

    def width(self, l):
        return self.letters[l][1]

    def is_ascii(self, l):
        return isinstance(self.letters[l][0], frozenset)

    def char_letter(self, cp):
        """letter of a code point, and whether the letter stands for exactly this one"""
        if cp < 128:
            l = self.of[cp]
            return l, len(self.letters[l][0]) == 1
        if cp in self.special:
            return self.special[cp], True
        if cp in (0x85, 0xA0):
            return self.lead['W2'], False
        if cp in (0x1680, 0x2028, 0x2029, 0x202F, 0x205F, 0x3000) or 0x2000 <= cp <= 0x200A:
            return self.lead['W3'], False
        return self.lead['L2' if cp < 0x800 else 'L3' if cp < 0x10000 else 'L4'], False

    def flavours(self, cp):
        """all letters of a code point"""
        l, exact = self.char_letter(cp)
        if not exact or cp >= 128:
            return [l]
        return [i for i, (t, w) in enumerate(self.letters) if t == frozenset([cp])]

    def members(self, pred, byte=False):
        """(must, may) sets of letters for a predicate on code points (non-ASCII: pred(None) may
        return True/False/None, pred('ws') for white space)"""
        must, may = set(), set()
        for l in range(self.n):
            t = self.letters[l][0]
            if isinstance(t, frozenset):
                r = [bool(pred(c)) for c in t]
                if all(r):
                    must.add(l)
                if any(r):
                    may.add(l)
                continue
            if t == 'C':
                if byte:
                    r = pred(0x80)
                else:
                    continue
            elif byte:
                r = pred(0xC3)
            elif isinstance(t, tuple):
                r = pred(t[1])
            elif t in ('W2', 'W3'):
                r = pred('ws')
            else:
                r = pred(None)
            if r is None or r:
                may.add(l)
            if r:
                must.add(l)
        return frozenset(must), frozenset(may)

    def sample(self, l):
        t, w = self.letters[l]
        if isinstance(t, frozenset):
            pref = [c for c in t if chr(c).isalnum()] or sorted(t)
            return chr(pref[0])
        if t == 'C':
            return ''
        if isinstance(t, tuple):
            return chr(t[1])
        return {'L2': '\u00e9', 'L3': '\u20ac', 'L4': '\U0001F600', 'W2': '\u00a0', 'W3': '\u2003'}[t]


class Aut:
    """canonical minimal DFA; trans: tuple of dicts symbol->state; state 0 is the start; acc: the single
    accepting state (reached by END symbols) or None for the empty language"""
    __slots__ = ('trans', 'acc', '_h')

    def __init__(self, trans, acc):
        self.trans = trans
        self.acc = acc
        self._h = None

    def key(self):
        if self._h is None:
            self._h = (self.acc, tuple(tuple(sorted(t.items())) for t in self.trans))
        return self._h

    def __eq__(self, o):
        return self.key() == o.key()

    def __hash__(self):
        return hash(self.key())

    def empty(self):
        return self.acc is None

    def size(self):
        return len(self.trans)


EMPTY = Aut((), None)


def _build(start, step, is_acc):
    """explore a deterministic system: step(q)->iterable of (sym,q'); returns canonical minimal DFA"""
    idx = {start: 0}
    order = [start]
    trans = []
    i = 0
    while i < len(order):
        q = order[i]
        i += 1
        d = {}
        for s, t in step(q):
            if t not in idx:
                idx[t] = len(order)
                order.append(t)
            d[s] = idx[t]
        trans.append(d)
    acc = {idx[q] for q in order if is_acc(q)}
    return minimize(0, trans, acc)


def minimize(start, trans, acc):
    n = len(trans)
    # co-reachable
    rev = [[] for _ in range(n)]
    for q, d in enumerate(trans):
        for t in set(d.values()):
            rev[t].append(q)
    good = set(acc)
    st = list(acc)
    while st:
        q = st.pop()
        for p in rev[q]:
            if p not in good:
                good.add(p)
                st.append(p)
    if start not in good:
        return EMPTY
    tr = [None] * n
    for q in good:
        tr[q] = {s: t for s, t in trans[q].items() if t in good}
    # partition refinement
    cls = [0] * n
    for q in good:
        cls[q] = 1 if q in acc else 0
    cnt = 0
    while True:
        sig = {}
        new = {}
        for q in good:
            k = (cls[q], frozenset((s, cls[t]) for s, t in tr[q].items()))
            c = sig.get(k)
            if c is None:
                c = sig[k] = len(sig)
            new[q] = c
        if len(sig) == cnt:
            break
        cnt = len(sig)
        for q in good:
            cls[q] = new[q]
    # canonical numbering
    rep = {}
    for q in good:
        rep.setdefault(cls[q], q)
    num = {cls[start]: 0}
    order = [cls[start]]
    out = []
    i = 0
    accs = set()
    while i < len(order):
        c = order[i]
        i += 1
        q = rep[c]
        d = {}
        for s in sorted(tr[q]):
            t = cls[tr[q][s]]
            if t not in num:
                num[t] = len(order)
                order.append(t)
            d[s] = num[t]
        out.append(d)
        if q in acc:
            accs.add(num[c])
    if len(accs) == 1:
        return Aut(tuple(out), accs.pop())
    # several accepting states cannot happen for END-terminated words; general languages use frozenset
    return Aut(tuple(out), frozenset(accs))


def _accs(a):
    if a.acc is None:
        return frozenset()
    return a.acc if isinstance(a.acc, frozenset) else frozenset((a.acc,))


def determinize(start, nstep, is_acc):
    """nstep(q) -> iterable of (sym, q'); start: iterable of states"""
    def step(S):
        d = {}
        for q in S:
            for s, t in nstep(q):
                d.setdefault(s, set()).add(t)
        return [(s, frozenset(t)) for s, t in d.items()]
    return _build(frozenset(start), step, lambda S: any(is_acc(q) for q in S))


def union(a, b):
    if a.acc is None:
        return b
    if b.acc is None or a == b:
        return a
    A, B = a.trans, b.trans

    def step(q):
        x, y = q
        d = {}
        if x is not None:
            for s, t in A[x].items():
                d[s] = (t, None)
        if y is not None:
            for s, t in B[y].items():
                d[s] = (d[s][0] if s in d else None, t)
        return d.items()
    aa, ba = _accs(a), _accs(b)
    return _build((0, 0), step, lambda q: q[0] in aa or q[1] in ba)


def intersect(a, b):
    if a.acc is None or b.acc is None:
        return EMPTY
    A, B = a.trans, b.trans

    def step(q):
        x, y = q
        d, e = A[x], B[y]
        if len(d) > len(e):
            return [(s, (d[s], t)) for s, t in e.items() if s in d]
        return [(s, (t, e[s])) for s, t in d.items() if s in e]
    aa, ba = _accs(a), _accs(b)
    return _build((0, 0), step, lambda q: q[0] in aa and q[1] in ba)


def difference(a, b):
    if a.acc is None or b.acc is None:
        return a
    A, B = a.trans, b.trans

    def step(q):
        x, y = q
        out = []
        for s, t in A[x].items():
            out.append((s, (t, B[y].get(s) if y is not None else None)))
        return out
    aa, ba = _accs(a), _accs(b)
    return _build((0, 0), step, lambda q: q[0] in aa and q[1] not in ba)


def subset(a, b):
    if a.acc is None or a == b:
        return True
    if b.acc is None:
        return False
    A, B = a.trans, b.trans
    aa, ba = _accs(a), _accs(b)
    seen = {(0, 0)}
    st = [(0, 0)]
    while st:
        x, y = st.pop()
        if x in aa and (y is None or y not in ba):
            return False
        if y is None:
            return False      # trimmed: x is co-reachable
        for s, t in A[x].items():
            u = B[y].get(s)
            if u is None:
                return False
            if (t, u) not in seen:
                seen.add((t, u))
                st.append((t, u))
    return True


def transduce(a, q0, f):
    """deterministic-input transducer: f(q, mask, letter) -> iterable of (q', mask')  (letter kept);
    q' is None to reject.  The run must end (after END) in state 'ok' or any non-None state."""
    if a.acc is None:
        return EMPTY
    A = a.trans
    aa = _accs(a)

    def nstep(s):
        x, q = s
        for (m, l), t in A[x].items():
            for q2, m2 in f(q, m, l):
                yield (m2, l), (t, q2)
    return determinize([(0, q0)], nstep, lambda s: s[0] in aa)


def map_marks(a, f):
    """f(mask)->mask on every symbol"""
    if a.acc is None:
        return EMPTY
    A = a.trans
    aa = _accs(a)
    memo = {}

    def nstep(x):
        for (m, l), t in A[x].items():
            r = memo.get(m)
            if r is None:
                r = memo[m] = f(m)
            yield (r, l), t
    return determinize([0], nstep, lambda s: s in aa)


def restrict(a, base):
    """the marked words of a whose plain word is in base (masks of base ignored: it has none)"""
    if a.acc is None or base.acc is None:
        return EMPTY
    A, B = a.trans, base.trans

    def step(q):
        x, y = q
        e = B[y]
        return [((m, l), (t, e[(0, l)])) for (m, l), t in A[x].items() if (0, l) in e]
    aa, ba = _accs(a), _accs(base)
    return _build((0, 0), step, lambda q: q[0] in aa and q[1] in ba)


def plain(a):
    """the plain words of a marked language"""
    return map_marks(a, lambda m: 0)


def with_bounds(a):
    """mark LO on the first symbol and HI on END of a plain language"""
    def f(q, m, l):
        m = 0
        if q == 0:
            m |= 1
        if l == END:
            m |= 2
        return ((1, m),)
    return transduce(a, 0, f)


def words_upto(a, n):
    """up to n shortest words (lists of symbols)"""
    out = []
    while len(out) < n and not a.empty():
        w = shortest(a)
        out.append(w)
        a = difference(a, single(w))
    return out


def single(w):
    tr = [{s: i + 1} for i, s in enumerate(w)] + [{}]
    return minimize(0, tr, {len(w)})


def filter_syms(a, pred):
    """keep the words all of whose symbols satisfy pred(mask, letter)"""
    if a.acc is None:
        return EMPTY
    tr = [{s: t for s, t in d.items() if pred(s[0], s[1])} for d in a.trans]
    return minimize(0, tr, set(_accs(a)))


def local_abs(a):
    """the local abstraction of a: for every sequence of marks seen so far, the neighbouring symbols
    (letter, marks, next letter) that occur.  A finite domain: chains stabilise."""
    A = a.trans
    G = {}            # mark prefix -> set of (prev letter, mask, letter)
    todo = {(): {(0, None)}}
    while todo:
        o, start = todo.popitem()
        g = G.setdefault(o, set())
        seen = set(start)
        st = list(seen)
        while st:
            x, prev = st.pop()
            for (m, l), t in A[x].items():
                g.add((prev, m, l) if m or l == END else (None, 0, l))
                if l == END:
                    continue
                if m == 0:
                    y = (t, l)
                    if y not in seen:
                        seen.add(y)
                        st.append(y)
                else:
                    todo.setdefault(o + (m,), set()).add((t, l))
    return G


def wellformed(w, u, alpha):
    """the words of w that agree with the local abstraction of u and are well-formed UTF-8"""
    if u.acc is None:
        return EMPTY
    G = local_abs(u)
    C = alpha.C

    def f(q, m, l):
        o, need, prev = q
        if l == C:
            if not need:
                return ()
            need -= 1
        elif need:
            return ()
        elif l != END:
            need = alpha.width(l) - 1
        if ((prev, m, l) if m or l == END else (None, 0, l)) not in G[o]:
            return ()
        if l == END:
            return (((None, 0, None), m),)
        return (((o + (m,) if m else o, need, l), m),)
    return transduce(w, ((), 0, None), f)


def local_closure(u, alpha):
    """the largest language with the same local abstraction"""
    G = local_abs(u)
    C = alpha.C

    def step(q):
        if q == 'acc':
            return []
        o, need, prev = q
        out = []
        for (p, m, l) in G[o]:
            if (p != prev and (m or l == END)) or (l == C) != (need > 0):
                continue
            n2 = need - 1 if l == C else (alpha.width(l) - 1 if l != END else 0)
            out.append(((m, l), 'acc' if l == END else (o + (m,) if m else o, n2, l)))
        return out
    return _build(((), 0, None), step, lambda q: q == 'acc')


def widen(a, b):
    """Bartzis/Bultan widening of a by b (a subset of b)"""
    if a.acc is None:
        return b
    if b.acc is None:
        return a
    na = len(a.trans)
    trans = [dict(d) for d in a.trans] + [{s: t + na for s, t in d.items()} for d in b.trans]
    accs = set(_accs(a)) | {x + na for x in _accs(b)}
    n = len(trans)
    par = list(range(n))

    def find(x):
        while par[x] != x:
            par[x] = par[par[x]]
            x = par[x]
        return x

    def uni(x, y):
        x, y = find(x), find(y)
        if x != y:
            par[y] = x
    # same word
    seen = {(0, na)}
    st = [(0, na)]
    while st:
        x, y = st.pop()
        uni(x, y)
        for s, t in trans[x].items():
            u = trans[y].get(s)
            if u is not None and (t, u) not in seen:
                seen.add((t, u))
                st.append((t, u))
    # same language: refine the disjoint union
    cls = [1 if q in accs else 0 for q in range(n)]
    cnt = 0
    while True:
        sig = {}
        new = []
        for q in range(n):
            k = (cls[q], frozenset((s, cls[t]) for s, t in trans[q].items()))
            new.append(sig.setdefault(k, len(sig)))
        if len(sig) == cnt:
            break
        cnt = len(sig)
        cls = new
    first = {}
    for q in range(n):
        if cls[q] in first:
            uni(first[cls[q]], q)
        else:
            first[cls[q]] = q
    return _quotient(trans, accs, find, na)


def _quotient(trans, accs, find, start):
    members = {}
    for q in range(len(trans)):
        members.setdefault(find(q), []).append(q)

    def nstep(c):
        for q in members[c]:
            for s, t in trans[q].items():
                yield s, find(t)
    return determinize([find(start)], nstep, lambda c: any(q in accs for q in members[c]))


def ktails(a, k=1):
    """merge states with the same marks ahead and the same set of k-step futures"""
    if a.acc is None:
        return a
    accs = set(_accs(a))
    n = len(a.trans)
    fut = [0] * n
    ch = True
    while ch:
        ch = False
        for q in range(n - 1, -1, -1):
            x = fut[q]
            for (m, l), t in a.trans[q].items():
                x |= m | fut[t]
            if x != fut[q]:
                fut[q] = x
                ch = True
    cls = [(q in accs, fut[q]) for q in range(n)]
    for _ in range(k):
        sig = {}
        cls = [sig.setdefault((cls[q], frozenset((s, cls[t]) for s, t in a.trans[q].items())), len(sig))
               for q in range(n)]
    return _merge(a, cls, accs)


def _merge(a, cls, accs):
    members = {}
    for q, c in enumerate(cls):
        members.setdefault(c, []).append(q)

    def nstep(c):
        for q in members[c]:
            for s, t in a.trans[q].items():
                yield s, cls[t]
    return determinize([cls[0]], nstep, lambda c: any(q in accs for q in members[c]))


def shortest(a):
    """a shortest word, as a list of symbols"""
    if a.acc is None:
        return None
    accs = _accs(a)
    from collections import deque
    dq = deque([(0, ())])
    seen = {0}
    while dq:
        q, w = dq.popleft()
        if q in accs:
            return list(w)
        for s in sorted(a.trans[q], key=lambda s: (s[1] if isinstance(s[1], int) else 0, str(s))):
            t = a.trans[q][s]
            if t not in seen:
                seen.add(t)
                dq.append((t, w + (s,)))
    return None


def text(alpha, word):
    return ''.join(alpha.sample(l) for m, l in word if l != END)


# ---- plain regular expressions over letters (mask 0), for specifications -----------------------
class Lang:
    """helper to write specification languages over an alphabet: NFA combinators"""
    def __init__(self, alpha):
        self.a = alpha

    def _charword(self, letters):
        return ('ch', frozenset(letters))

    def chars(self, pred):
        must, may = self.a.members(pred)
        return ('ch', may)

    def lit(self, s):
        return ('seq', [('ch', frozenset(self.a.flavours(ord(c)))) for c in s])

    def tag(self, ch, *tags):
        return ('ch', frozenset(self.a.tagged[(ord(ch), t)] for t in tags))

    def any(self):
        return ('ch', self.a.leadset)

    def star(self, r):
        return ('star', r)

    def plus(self, r):
        return ('seq', [r, ('star', r)])

    def opt(self, r):
        return ('alt', [r, ('seq', [])])

    def seq(self, *r):
        return ('seq', list(r))

    def alt(self, *r):
        return ('alt', list(r))

    def mk(self, bit):
        """the position itself, carrying mark `bit`"""
        return ('mk', bit)

    def build(self, r, marks=None):
        """automaton for r END; marks: mask at the start and at the end of the word"""
        lo, hi = marks or (0, 0)
        eps = {}               # state -> [(mask, state)]
        tr = {}
        cnt = [0]

        def new():
            cnt[0] += 1
            return cnt[0]

        def go(r, s):
            """returns end state"""
            k = r[0]
            if k == 'ch':
                e = new()
                for l in r[1]:
                    w = self.a.width(l)
                    cur = s
                    for i in range(w - 1):
                        n = new()
                        tr.setdefault(cur, []).append((l if i == 0 else self.a.C, n))
                        cur = n
                    tr.setdefault(cur, []).append((l if w == 1 else self.a.C, e))
                return e
            if k == 'mk':
                e = new()
                eps.setdefault(s, []).append((1 << r[1], e))
                return e
            if k == 'seq':
                for x in r[1]:
                    s = go(x, s)
                return s
            if k == 'alt':
                e = new()
                for x in r[1]:
                    b = new()
                    eps.setdefault(s, []).append((0, b))
                    eps.setdefault(go(x, b), []).append((0, e))
                return e
            if k == 'star':
                h = new()
                eps.setdefault(s, []).append((0, h))
                b = go(r[1], h)
                eps.setdefault(b, []).append((0, h))
                e = new()
                eps.setdefault(h, []).append((0, e))
                return e
            raise ValueError(k)
        s0 = new()
        fin = go(r, s0)
        cmemo = {}

        def clos(q):
            c = cmemo.get(q)
            if c is None:
                c = {(0, q)}
                st = [(0, q)]
                while st:
                    m, x = st.pop()
                    for m2, t in eps.get(x, ()):
                        y = (m | m2, t)
                        if y not in c:
                            c.add(y)
                            st.append(y)
                cmemo[q] = c
            return c
        ACC = ('acc',)

        def step(q):
            if q == ACC:
                return []
            first, S = q
            d = {}
            add = lo if first else 0
            acc = set()
            for q0 in S:
                for m, x in clos(q0):
                    for l, t in tr.get(x, ()):
                        d.setdefault((m | add, l), set()).add(t)
                    if x == fin:
                        acc.add(m | add | hi)
            out = [(k, (False, frozenset(t))) for k, t in d.items()]
            for m in acc:
                out.append(((m, END), ACC))
            return out
        return _build((True, frozenset([s0])), step, lambda q: q == ACC)
