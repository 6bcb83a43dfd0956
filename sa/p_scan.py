"""Quote opacity of the decoder's scanners, splitters and of the line scanner."""
import words, lang, specs, absint, ir, alpha as alphamod
from words import EMPTY, END, union, intersect, difference, plain
from lang import Analysis, decide

BLANK = {0x20, 0x09}


def rename_marks(aut, mapping):
    """keep only the marks of mapping {old: new}"""
    memo = {}

    def f(m):
        r = memo.get(m)
        if r is None:
            r = 0
            for a, b in mapping.items():
                if m >> a & 1:
                    r |= 1 << b
            memo[m] = r
        return r
    return words.map_marks(aut, f)


def merge_marks(aut, mapping):
    """mapping: list of (old, new); several new marks may stand for one old one"""
    def f(m):
        r = 0
        for a, b in mapping:
            if m >> a & 1:
                r |= 1 << b
        return r
    return words.map_marks(aut, f)


def abs_mark(m, st, v):
    """mark at the absolute position of a usize value, or None"""
    if v[0] == 'pos' and v[3] == absint.LO and v[4] == 0:
        return v[1] if v[2] == 0 else m.mark_at(st, v[1], v[2])
    if v[0] == 'i':
        return absint.LO if v[1] == 0 else m.mark_at(st, absint.LO, v[1])
    return None


def fresh(L):
    return L.build(L.star(L.any()), (1, 2))


def unquoted_upto(L, stop):
    """text outside string literals without any char of `stop`, literals included whole"""
    return L.star(L.alt(specs.notcls(L, stop | {0x22}), specs.string_literal(L)))


# ---- the standing annotation of the input: which structural chars are inside string literals --------
PHASES = {0: 'out', 1: 'in', 2: 'esc'}


def variants(structural):
    """flavours of the structural chars: outside literals, inside, escaped; quotes: opening, closing, escaped"""
    v = {ord(c): ['out', 'in', 'esc'] for c in structural}
    v[ord('"')] = ['open', 'close', 'esc']
    v[ord('\\')] = ['out', 'in', 'esc']
    return v


def annotated(an):
    """all input words with the only annotation that fits them"""
    al = an.al
    tag = {}
    for (cp, t), l in al.tagged.items():
        tag[l] = (chr(cp), t)

    def step(q):
        if q == 'acc':
            return []
        ph, need = q
        if need:
            return [((0, al.C), (ph, need - 1))]
        out = [((0, END), 'acc')]
        for l in al.leads:
            w = al.width(l)
            ch, t = tag.get(l, (None, None))
            if ch == '"':
                want, nx = (('open', 1), ('close', 0), ('esc', 1))[ph]
                if t != want:
                    continue
            else:
                if t is not None and t != PHASES[ph]:
                    continue
                nx = 1 if ph == 2 else 2 if (ph == 1 and ch == '\\') else ph
            out.append(((0, l), (nx, w - 1)))
        return out
    return words._build((0, 0), step, lambda q: q == 'acc')


def no(L, *tags):
    """one char other than the tagged ones"""
    bad = {L.a.tagged[(ord(c), t)] for c, t in tags}
    return ('ch', frozenset(L.a.leadset - bad))


# ---- position finders: fn(&str) -> Option<usize> -------------------------------------------------
def find_contract(an, R):
    """R: relation (marks LO, HI, 2=result).  Some(p) must be in R, None only where R has no position"""
    dom = plain(R)

    def viol(outs, m):
        bad = EMPTY
        for s, v in outs:
            if v == absint.none():
                bad = union(bad, intersect(plain(s.aut), dom))
            elif v[0] == 'adt' and v[1] == 'Option' and v[2] == 1:
                st = s.copy()
                k = abs_mark(m, st, v[3][0])
                if k is None:
                    bad = union(bad, plain(s.aut))
                else:
                    mp = [(0, 0), (1, 1), (k, 2)]
                    bad = union(bad, plain(difference(merge_marks(st.aut, mp), R)))
            else:
                bad = union(bad, plain(s.aut))
        return bad
    return viol


def first_unquoted(L, ch):
    return L.build(L.seq(L.star(no(L, (ch, 'out'))), L.mk(2), L.tag(ch, 'out'), L.star(L.any())), (1, 2))


def finders(ck, names, cfgs):
    for cfg in cfgs:
        c = ck.crate(cfg)
        for path, ch in names:
            f = c.fns.get(path)
            nm = '%s: %s' % (cfg, path)
            if f is None:
                ck.undecided(nm, 'function not found')
                continue

            def one():
                an = Analysis(ck, c, f, [('s', 0, 1)], extra=specs.EXTRA, variants=variants(ch), base=annotated)
                decide(ck, nm, an, find_contract(an, first_unquoted(an.L, ch)), key='find:%s' % path,
                       what='first %r outside string literals' % ch)
            ck.guard(nm, one)


# ---- splitting into cells ------------------------------------------------------------------------
def is_push(g):
    if g is None:
        return False
    n = g['decl']
    return n.endswith('::push') and ('Vec' in n)


def pushers(crate, fn):
    """local functions below fn whose own code pushes: they must be interpreted in place"""
    out = set()
    for p, f in alphamod.closure(crate, [fn]).items():
        def reach(q, seen):
            for _, f2 in alphamod.closure(crate, [q]).items():
                for _, t in f2.calls():
                    if is_push(ir.callee(t['f'])):
                        return True
            return False
        if reach(f, set()):
            out.add(f.path)
    return out


def next_tagged(m, st, x, letter):
    """new mark: first `letter` at or after mark x, else END"""
    y = st.newmark()
    xb, yb = 1 << x, 1 << y

    def f(s, mask, l):
        if s == 0 and mask & xb:
            s = 1
        if s == 1 and (l == END or l == letter):
            mask |= yb
            s = 2
        return ((s, mask),)
    st.aut = words.transduce(st.aut, 0, f)
    return y


def split_hooks(ch):
    """hook on Vec::push of slices: the pieces are the trimmed segments between delimiters outside literals, in order"""
    def hook(m, st, fi, t, g, args):
        if not is_push(g) or len(args) < 2:
            return None
        v = args[1]
        if v[0] != 's':
            return None
        dl = m.al.tagged[(ord(ch), 'out')]
        y = next_tagged(m, st, v[2], dl)
        L = words.Lang(m.al)
        inner = no(L, (ch, 'out'))
        bl = L.star(('ch', specs.cls(L, BLANK)[1] & inner[1]))
        nb = ('ch', specs.notcls(L, BLANK)[1] & inner[1])
        core = L.opt(L.seq(nb, L.opt(L.seq(L.star(inner), nb))))
        body = L.seq(bl, L.mk(3), core, L.mk(4), bl)
        full = L.build(L.seq(L.star(L.any()), L.mk(2), body, L.mk(5), L.star(L.any())), (1, 2))
        last = st.ghost[0]
        mp = [(0, 0), (1, 1), (v[1], 3), (v[2], 4), (y, 5)]
        if last == ('i', -1):
            R = L.build(L.seq(body, L.mk(5), L.star(L.any())), (1, 2))
        else:
            mp.append((last[1], 2))
            R = L.build(L.seq(L.star(L.any()), L.mk(2), L.tag(ch, 'out'), body, L.mk(5), L.star(L.any())), (1, 2))
        bad = difference(merge_marks(st.aut, mp), R)
        if not bad.empty():
            b = st.copy()
            b.aut = plain(bad)
            m.events.append(('spec', b, {'what': 'pushed piece is no trimmed segment after the previous one',
                                         'sp': t.get('sp'), 'fn': st.frames[-1].fn.path}))
            good = intersect(merge_marks(st.aut, mp), R)
            if good.empty():
                return []
        st.ghost = (('pos', y, 0, absint.LO, 0),) + tuple(st.ghost[1:])
        return None
    return hook


class Ghost(Analysis):
    def __init__(self, *a, ghost=(), k_tails=1, **k):
        self.ghost = ghost
        self.k_tails = k_tails
        super().__init__(*a, **k)
        self.nosum = pushers(self.crate, self.fn)

    def run(self, base=None, summaries=True, **k):
        if base is None:
            base = self.base
        elif self.base is not None:
            base = intersect(base, self.base)
        m = absint.Machine(self.crate, self.al)
        m.shared = {}
        import time
        m.deadline = time.time() + self.time_limit
        m.hooks = list(self.hooks)
        m.use_summaries = summaries
        m.no_summary = set(self.nosum)
        m.k = self.k_tails
        if self.setup:
            self.setup(m)
        aut = None
        if base is not None:
            m.base = base
            aut = words.with_bounds(base)
        outs = m.run(self.fn, list(self.args), aut, ghost=self.ghost)
        self.ck.analysed |= set(m.analysed)
        return outs, m


def complete_viol(outs, m):
    """events of kind spec, and returns before the last segment was pushed"""
    bad = EMPTY
    for e in m.events:
        if e[0] == 'spec' and not e[1].imp:
            bad = union(bad, plain(e[1].aut))
    for s, v in outs:
        g = s.ghost[0]
        if g[0] != 'pos':
            bad = union(bad, plain(s.aut))
        else:
            bad = union(bad, plain(words.filter_syms(s.aut, lambda mk, l: not (mk >> g[1] & 1) or l != END)))
    return bad


def splitters(ck, path, cfgs):
    for cfg in cfgs:
        c = ck.crate(cfg)
        f = c.fns.get(path)
        if f is None:
            ck.undecided('%s: %s' % (cfg, path), 'function not found')
            continue
        for _, nm, ch in specs.DELIMS:
            name = '%s: %s by %s' % (cfg, path, nm)

            def one():
                an = Ghost(ck, c, f, [('s', 0, 1), ('i', ord(ch))], extra=specs.EXTRA, hooks=[split_hooks(ch)],
                           ghost=(('i', -1),), variants=variants(ch), base=annotated)
                decide(ck, name, an, complete_viol, key='split:%s:%s' % (path, nm),
                       what='cells are the trimmed segments between delimiters outside literals, all and in order')
            ck.guard(name, one)


def opacity(ck):
    ck.rule('first structural character outside string literals is what the scanner finds; structural characters '
            'inside literals (including after escaped quotes) are never split on, in every feature configuration')
    finders(ck, [('decode::scanner::find_unquoted_colon', ':'), ('decode::parser::find_unquoted_bracket', '[')],
            ('default', 'all'))
    splitters(ck, 'decode::parser::split_delim_aware', ('default', 'all'))
