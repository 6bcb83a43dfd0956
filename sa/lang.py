"""Deciding contracts of string functions with the abstract interpreter (absint.py)."""
import time
import words, absint, alpha as alphamod
from words import EMPTY, union, intersect, difference, plain


class Analysis:
    """one function, one alphabet: outcomes for every input word"""
    def __init__(self, ck, crate, fn, args, extra='', sets=(), al=None, time_limit=60, roots=(), hooks=(), setup=None,
                 variants=None, base=None):
        self.ck, self.crate, self.fn, self.args = ck, crate, fn, args
        self.al = al or alphamod.alphabet(crate, [fn] + list(roots), extra=extra, sets=sets, variants=variants)
        self.L = words.Lang(self.al)
        self.time_limit = time_limit
        self.hooks = list(hooks)
        self.setup = setup
        self.shared = {}
        self.last = None
        self.base = base(self) if base else None      # standing restriction of the input words

    def all(self):
        return self.L.build(self.L.star(self.L.any()))

    def re(self, r):
        return self.L.build(r)

    def run(self, base=None, k=None, wdelay=None, summaries=True):
        if base is None:
            base = self.base
        elif self.base is not None:
            base = intersect(base, self.base)
        m = absint.Machine(self.crate, self.al)
        m.shared = self.shared if base is self.base else {}
        if k is not None:
            m.k = k
        if wdelay is not None:
            m.wdelay = wdelay
        m.use_summaries = summaries
        m.deadline = time.time() + self.time_limit
        m.hooks = list(self.hooks)
        if self.setup:
            self.setup(m)
        aut = None
        if base is not None:
            m.base = base
            aut = words.with_bounds(base)
        outs = m.run(self.fn, list(self.args), aut) if aut is not None else m.run(self.fn, list(self.args))
        self.ck.analysed |= {p for p in m.analysed}
        self.last = m
        return outs, m


def by_value(outs):
    """{value: (marked language, imprecise?)}"""
    res = {}
    for s, v in outs:
        a, imp = res.get(v, (EMPTY, frozenset()))
        res[v] = (union(a, s.aut), imp | s.imp)
    return res


def decide(ck, name, an, violating, key=None, what='', maxw=6):
    """violating(outs, machine) -> plain language of the inputs on which the contract is broken.
    A non-empty answer counts only if it survives on a single word; candidates come from shorter and shorter
    restrictions of the input language."""
    an.time_limit = ck.slice(an.time_limit)
    um = {}
    budget = None
    try:
        outs, m = an.run()
        v = violating(outs, m)
        um = dict(m.unmodelled)
        if v.empty():
            ck.ok(name, 'all %d outcomes, %d abstract steps' % (len(outs), m.steps))
            return True
        for _ in range(2):
            o2, m2 = an.run(base=v, summaries=False)
            v2 = intersect(v, violating(o2, m2))
            if v2.empty():
                ck.ok(name, 'after refinement')
                return True
            if v2 == v:
                break
            v = v2
    except absint.Budget as e:
        budget = e
        v = an.base if an.base is not None else an.all()

    def confirm(rest, n):
        """a word of rest on which the contract is definitely broken"""
        spurious = []
        for _ in range(n):
            if rest.empty():
                return True
            w = words.shortest(rest)
            one = words.single(w)
            try:
                o3, m3 = an.run(base=one, summaries=False)
            except absint.Budget:
                return False
            m3.sure = True
            bad = violating([(s, x) for s, x in o3 if not s.imp], m3)
            if not intersect(bad, one).empty():
                txt = words.text(an.al, w)
                ck.violation(key or name, '%s: %s (%s) breaks the contract on input %r' % (
                    an.fn.where(), what or name, an.fn.path, txt), name)
                return None
            rest = difference(rest, one)
        return False

    if budget is None:
        r = confirm(v, maxw)
        if r is None:
            return False
        if r:
            ck.ok(name, 'after refinement')
            return True
    keep = an.time_limit
    an.time_limit = min(12, keep)
    if budget is None and long_words(ck, an, v, confirm, time.time() + min(40, keep)):
        return False
    if small_words(ck, an, v, violating, confirm, time.time() + min(40, keep)):
        return False
    an.time_limit = keep
    if budget is not None:
        ck.undecided(name, 'analysis gave up: Budget: %s' % budget)
        return None
    ck.undecided(name, 'possible inputs %s; unmodelled %s' % (
        [words.text(an.al, w) for w in words.words_upto(v, 3)], sorted(um)))
    return None


def sizes(an):
    """the integers the code may compare lengths with"""
    out = set()
    for f in alphamod.closure(an.crate, [an.fn]).values():
        for bl in f.blocks:
            for s in bl['ss']:
                for o in alphamod.ops(s):
                    ty = an.crate.types[o['ty']] if 'int' in o and 'ty' in o else None
                    if ty and ty.get('s') == 'usize' and o['int'].isdigit() and 6 < int(o['int']) <= 300:
                        out.add(int(o['int']))
    return sorted(out)[:6]


def long_words(ck, an, v, confirm, end):
    """look for a definite counterexample among words about as long as the sizes the code names"""
    L, al = an.L, an.al
    v = intersect(v, an.base) if an.base is not None else v
    for c in sizes(an):
        for n in (c + 1, c, c - 1):
            if time.time() > end:
                return False
            b = intersect(v, L.build(L.seq(*[L.any() for _ in range(n)])))
            if not b.empty() and confirm(b, 3) is None:
                return True
    return False


def small_words(ck, an, v, violating, confirm, end):
    """look for a definite counterexample among short words, first over the letters the specification names"""
    L, al = an.L, an.al
    plainl = [l for l in al.leads if al.is_ascii(l) and len(al.letters[l][0]) > 1]
    core = set(al.tagged.values()) | set(plainl[-1:]) | {al.of[32]}
    for letters, top in ((('ch', frozenset(core)), 7), (L.any(), 6)):
        if letters == L.any() or len(core) > 24:
            letters = L.any()
        for n in range(1, top):
            if time.time() > end:
                return False
            b = intersect(v, L.build(L.seq(*[L.opt(letters) for _ in range(n)])))
            try:
                for _ in range(4):
                    if b.empty():
                        break
                    o, m3 = an.run(base=b, summaries=False)
                    m3.sure = True
                    b2 = intersect(b, violating([(s, x) for s, x in o if not s.imp], m3))
                    if b2 == b:
                        break
                    b = b2
            except absint.Budget:
                break
            if not b.empty() and confirm(b, 5) is None:
                return True
    return False
