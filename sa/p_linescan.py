"""The line scanner: one entry per line, in order, with its indentation and its kind."""
import os, time
import words, lang, specs, absint, ir, alpha as alphamod
from words import EMPTY, END, union, intersect, difference, plain
from lang import decide
from p_scan import Ghost, is_push, next_tagged, merge_marks, no, PHASES, find_contract, first_unquoted
from p_pipe import tystr
from p_decode import CFGS

PL = 'decode::scanner::ParsedLine'
LK = 'decode::scanner::LineKind'


def variants():
    return {ord(':'): ['out', 'in', 'esc'], ord('"'): ['open', 'close', 'esc'], ord('\\'): ['out', 'in', 'esc'],
            ord('\n'): ['nl']}


def annotated(an):
    """all texts with the only annotation that fits them; quotes start afresh on every line"""
    return annotation(an, True)


def one_line(an):
    return annotation(an, False)


def annotation(an, lines):
    al = an.al
    tag = {l: (chr(cp), t) for (cp, t), l in al.tagged.items()}

    def step(q):
        if q == 'acc':
            return []
        ph, need = q
        if need:
            return [((0, al.C), (ph, need - 1))]
        out = [((0, END), 'acc')]
        for l in al.leads:
            w = al.width(l)
            ch, t = tag.get(l, (None, None))
            if ch == '\n':
                if not lines:
                    continue
                nx = 0
            elif ch == '"':
                want, nx = (('open', 1), ('close', 0), ('esc', 1))[ph]
                if t != want:
                    continue
            else:
                if t is not None and t != PHASES[ph]:
                    continue
                nx = 1 if ph == 2 else 2 if (ph == 1 and ch == '\\') else ph
            out.append(((0, l), (nx, w - 1)))
        return out
    return words._build((0, 0), step, lambda q: q == 'acc')


class Spec:
    """relations between marks: 2 start of the line, 3 end of its indentation, 4 to 7 the pieces kept, 9 end of the line"""
    def __init__(self, al):
        L = self.L = words.Lang(al)
        nl = ('ch', frozenset([al.tagged[(10, 'nl')]]))
        ch = no(L, ('\n', 'nl'))[1]
        any_ = L.star(L.any())
        col = L.tag(':', 'out')

        def c(s):
            return ('ch', frozenset(s) & ch)

        def lit(x):
            return specs.cls(L, {ord(x)})[1]
        sp, blank = lit(' '), specs.cls(L, {0x20, 9})[1]
        rest = L.star(c(ch))
        bl = L.star(c(blank))
        nocol = ch - col[1]
        first = c(nocol - sp - lit('-') - lit('@'))
        other = L.alt(first, L.seq(L.lit('-'), c(nocol - sp)))

        def line(*r):
            return L.build(L.seq(L.alt(L.seq(), L.seq(any_, nl)), L.mk(2), L.star(L.lit(' ')), L.mk(3), *r,
                                 L.mk(9), L.opt(L.seq(nl, any_))), (1, 2))

        def kept(*r):
            return L.seq(L.mk(4), *r, L.mk(5), bl)
        head = L.alt(L.seq(L.mk(4), L.alt(L.seq(other, L.star(c(nocol))), L.lit('-'), L.seq()), L.mk(5)),
                     kept(L.alt(L.seq(other, L.star(c(nocol))), L.seq())))
        self.R = {
            'Blank': union(line(), line(bl)),
            'ListItem1': line(L.lit('- '), bl, L.mk(4), rest, L.mk(5), bl),
            'ListItem0': line(L.lit('-')),
            'Scalar': union(line(kept(L.lit('@'), rest)), line(kept(other, L.star(c(nocol))))),
            'KeyOnly': line(head, col, bl),
            'KeyValue': line(head, col, bl, L.mk(6), c(ch - blank), rest, L.mk(7), bl),
        }


def slices(v, out):
    """slices kept in a value, in order; None if something else is"""
    if v[0] == 's':
        out.append(v)
        return True
    if v[0] == 'adt':
        return all(slices(x, out) for x in v[3])
    return False


class Scan(Ghost):
    def __init__(self, ck, c, f):
        super().__init__(ck, c, f, [('s', 0, 1)], extra=specs.EXTRA, hooks=[self.hook], ghost=(('i', -1),),
                         variants=variants(), base=annotated)
        self.spec = Spec(self.al)
        self.setup = self.summaries
        self.finders = None
        self.single = one_line(self)
        self.kinds = [x['n'] for x in c.adts[LK]['variants']]
        fs = [x[0] for x in c.adts[PL]['variants'][0]['f']]
        self.fi, self.fk = fs.index('indent'), fs.index('kind')
        self.nl = self.al.tagged[(10, 'nl')]

    def summaries(self, m):
        """functions that are shown to find the first colon outside literals are replaced by that"""
        m.sum_base = self.single
        for path in self.proven():
            m.shared.setdefault('sum', {})[(path, ('S',), False)] = (
                [((('adt', 'Option', 1, (('pos', 2, 0, absint.LO, 0),)), frozenset()), self.first),
                 ((absint.none(), frozenset()), words.with_bounds(difference(self.single, plain(self.first))))], [])
            m.analysed.add(path)

    def proven(self):
        if self.finders is None:
            self.finders = []
            self.first = first_unquoted(self.L, ':')
            self.first = words.restrict(self.first, self.single)
            for path, f in alphamod.closure(self.crate, [self.fn]).items():
                if f is self.fn or f.argc != 1 or f.kind == 'Closure':
                    continue
                if tystr(self.crate, f, 1).replace("'_ ", '').replace("'a ", '') != '&str' or 'Option<usize>' not in tystr(self.crate, f, 0):
                    continue
                an = lang.Analysis(self.ck, self.crate, f, [('s', 0, 1)], al=self.al, base=one_line)
                v = an.base
                con = find_contract(an, self.first)
                try:
                    for _ in range(4):
                        outs, m = an.run(base=v, summaries=v is an.base)
                        w = con(outs, m)
                        if os.environ.get('VERIF_SHOW'):
                            print('FINDER', path, m.steps, w.empty())
                        if w.empty():
                            self.finders.append(f.path)
                            break
                        if intersect(v, w) == v:
                            break
                        v = intersect(v, w)
                except absint.Budget:
                    pass
        return self.finders

    def bad(self, m, st, t, aut, what, sure=True):
        b = st.copy()
        if not sure:
            b.imp = b.imp | {what}
        b.aut = plain(aut)
        m.events.append(('spec', b, {'what': what, 'sp': t.get('sp'), 'fn': st.frames[-1].fn.path}))

    def hook(self, m, st, fi, t, g, args):
        if not is_push(g) or len(args) < 2 or args[1][0] != 'adt' or args[1][1] != PL:
            return None
        ind, kind = args[1][3][self.fi], args[1][3][self.fk]
        last = st.ghost[0]
        start = absint.LO if last == ('i', -1) else m.mark_at(st, last[1], 1)
        ps = []
        if start is None:
            self.bad(m, st, t, st.aut, 'an entry for a line that is not there')
            return []
        if ind[0] != 'pos' and ind[0] != 'i' or kind[0] != 'adt' or not slices(kind, ps):
            self.bad(m, st, t, st.aut, 'an entry that is not followed', False)
            st.imp = st.imp | {'entry'}
            st.ghost = (('pos', next_tagged(m, st, start, self.nl), 0, absint.LO, 0),) + tuple(st.ghost[1:])
            return None
        y = next_tagged(m, st, start, self.nl)
        mp = [(0, 0), (1, 1), (start, 2), (y, 9)]
        if ind[0] == 'i':
            k = m.mark_at(st, start, ind[1])
        else:
            mp.append((ind[3], 2))
            k = ind[1] if ind[2] == 0 else m.mark_at(st, ind[1], ind[2])
            if ind[4] != 0:
                k = None
        name = self.kinds[kind[2]]
        if name == 'ListItem':
            name += '1' if ps else '0'
        want = {'Blank': 0, 'ListItem0': 0, 'ListItem1': 1, 'Scalar': 1, 'KeyOnly': 1, 'KeyValue': 2}.get(name)
        if k is None or want != len(ps):
            self.bad(m, st, t, st.aut, 'an entry whose parts are not followed', False)
            st.imp = st.imp | {'entry'}
            st.ghost = (('pos', y, 0, absint.LO, 0),) + tuple(st.ghost[1:])
            return None
        mp.append((k, 3))
        for i, s in enumerate(ps):
            mp += [(s[1], 4 + 2 * i), (s[2], 5 + 2 * i)]
        R = self.spec.R[name]
        bad = difference(merge_marks(st.aut, mp), R)
        if not bad.empty():
            self.bad(m, st, t, bad, 'the entry of a line does not fit the line')
            if intersect(merge_marks(st.aut, mp), R).empty():
                return []
        st.ghost = (('pos', y, 0, absint.LO, 0),) + tuple(st.ghost[1:])
        return None


def viol(an):
    """entries that do not fit, and returns before the last line has its entry"""
    L = an.L
    empty = plain(L.build(L.seq()))
    nl = ('ch', frozenset([an.nl]))
    done = L.build(L.seq(L.star(L.any()), L.mk(2), L.opt(nl)), (1, 2))

    def f(outs, m):
        bad = EMPTY
        for e in m.events:
            if e[0] == 'spec' and not (e[1].imp and m.sure):
                bad = union(bad, plain(e[1].aut))
        for s, v in outs:
            g = s.ghost[0]
            if g[0] != 'pos':
                bad = union(bad, difference(plain(s.aut), empty))
            else:
                bad = union(bad, plain(difference(merge_marks(s.aut, [(0, 0), (1, 1), (g[1], 2)]), done)))
        return bad
    return f


def scanner(ck):
    ck.rule('the scanner makes one entry per line, in order: the number of leading spaces, and the kind and parts of the text behind them')
    for cfg in CFGS:
        c = ck.crate(cfg)
        f = c.fn('decode::scanner::scan')
        name = 'scan [%s]' % cfg
        if f is None:
            ck.undecided(name, 'not found')
            continue

        def one():
            an = Scan(ck, c, f)
            decide(ck, name, an, viol(an), key='scan', what='one entry per line, with its indentation and kind')
        ck.guard(name, one)
