"""String literals: what the encoder writes is what the decoder reads back."""
import words, lang, specs, absint, emit, alpha as alphamod, ir
from words import EMPTY, END, union, intersect, difference, plain
from lang import decide
from p_scan import Ghost, merge_marks

DEC = {'"': '"', '\\': '\\', '/': '/', 'b': '\b', 'f': '\f', 'n': '\n', 'r': '\r', 't': '\t'}
K = 4
START, DONE, LOST = ('i', -1), ('i', -2), ('i', -3)


class Give(Exception):
    pass


def at(m, st, p, letters, neg=False):
    """the words whose letter at mark p is (not) in letters"""
    pb = 1 << p
    return words.filter_syms(st.aut, lambda mk, l: not (mk & pb) or ((l in letters) != neg))


def bad_event(m, st, aut, what, t):
    if not aut.empty():
        b = st.copy()
        b.aut = aut
        m.events.append(('spec', b, {'what': what, 'sp': t.get('sp'), 'fn': st.frames[-1].fn.path}))


def need_char(m, st, p, cp, what, t):
    """the char at p must be cp; advances; returns False when nothing is left"""
    l = set(m.al.flavours(cp))
    exact = m.al.char_letter(cp)[1]
    bad = at(m, st, p, l, True)
    bad_event(m, st, bad, what, t)
    st.aut = at(m, st, p, l)
    if not exact:
        m.note_imp(st, 'char %r is not told apart from others' % chr(cp))
    if st.aut.empty():
        return None
    return m.advance_char(st, p)


def same_pos(m, st, a, b, what, t):
    ab, bb = 1 << a, 1 << b
    bad = words.filter_syms(st.aut, lambda mk, l: bool(mk & ab) == bool(mk & bb))
    wrong = difference(st.aut, bad)
    bad_event(m, st, wrong, what, t)
    st.aut = bad
    return not bad.empty()


def P(v):
    return ('pos', v, 0, absint.LO, 0)


RAW_BAD = {'"', '\\', '\n', '\r'}


def encode_step(m, st, atom, t):
    """the output so far must be a literal that reads back as the input up to the ghost position"""
    pos, part = st.ghost[0], st.ghost[1][1]
    if atom[0] == '?' or pos == LOST:
        if pos != LOST:
            m.note_imp(st, 'appended text unknown: %s' % str(atom[1])[:60])
        st.ghost = (LOST, ('c', ''))
        return True
    if atom[0] == 'lit':
        for c in atom[1]:
            if not encode_char(m, st, c, t):
                return False
        return True
    if pos == START or pos == DONE:
        bad_event(m, st, st.aut, 'content before the opening quote' if pos == START else 'text after the closing quote', t)
        return False
    if atom[0] == 'hex':
        v = atom[1]
        if part != '\\u' or atom[2] != 4 or not atom[3] or v[0] != 'ch':
            if part == '\\u' and v[0] == 'ch' and (atom[2] != 4 or not atom[3]):
                bad_event(m, st, st.aut, 'unicode escape without four zero-padded digits', t)
                return False
            m.note_imp(st, 'hex digits')
            st.ghost = (LOST, ('c', ''))
            return True
        if not same_pos(m, st, v[1], pos[1], 'escaped char out of place', t):
            return False
        four = {l for l in m.al.leads if m.al.width(l) == 4}
        bad_event(m, st, at(m, st, pos[1], four), 'four-digit escape of an astral char', t)
        st.aut = at(m, st, pos[1], four, True)
        if st.aut.empty():
            return False
        st.ghost = (P(m.advance_char(st, pos[1])), ('c', ''))
        return True
    if part != '':
        bad_event(m, st, st.aut, 'raw text inside an escape sequence', t)
        return False
    rawbad = {l for c in RAW_BAD for l in m.al.flavours(ord(c))}
    if atom[0] == 'ch':
        if not same_pos(m, st, atom[1], pos[1], 'char written out of order', t):
            return False
        bad_event(m, st, at(m, st, pos[1], rawbad), 'char needs an escape', t)
        st.aut = at(m, st, pos[1], rawbad, True)
        if st.aut.empty():
            return False
        st.ghost = (P(m.advance_char(st, pos[1])), ('c', ''))
        return True
    if atom[0] == 'slice':
        if not same_pos(m, st, atom[1], pos[1], 'slice written out of order', t):
            return False
        ab, bb = 1 << atom[1], 1 << atom[2]

        def f(q, mask, l):
            if q == 0 and mask & ab:
                q = 1
            if q in (1, 3) and mask & bb:
                q = 2 if q == 1 else 4
            if q == 1 and l in rawbad:
                q = 3
            return ((q, mask),)
        bad = m._trans(st.aut, 0, f, lambda q: q in (3, 4))
        bad_event(m, st, bad, 'slice holds a char that needs an escape', t)
        st.aut = difference(st.aut, bad)
        if st.aut.empty():
            return False
        st.ghost = (P(atom[2]), ('c', ''))
        return True
    raise Give(atom[0])


def encode_char(m, st, c, t):
    pos, part = st.ghost[0], st.ghost[1][1]
    if pos == START:
        if c == '"':
            st.ghost = (P(absint.LO), ('c', ''))
            return True
        bad_event(m, st, st.aut, 'text before the opening quote', t)
        return False
    if pos == DONE:
        bad_event(m, st, st.aut, 'text after the closing quote', t)
        return False
    p = pos[1]
    if part == '':
        if c == '\\':
            st.ghost = (pos, ('c', '\\'))
            return True
        if c == '"':
            end = words.filter_syms(st.aut, lambda mk, l: not (mk >> p & 1) or l == END)
            bad_event(m, st, difference(st.aut, end), 'closing quote before the end of the string', t)
            st.aut = end
            st.ghost = (DONE, ('c', ''))
            return not end.empty()
        if c in RAW_BAD:
            bad_event(m, st, st.aut, 'unescaped %r in a literal' % c, t)
            return False
        n = need_char(m, st, p, ord(c), 'literal char %r stands for another char' % c, t)
    elif part == '\\':
        if c == 'u':
            st.ghost = (pos, ('c', '\\u'))
            return True
        if c not in DEC:
            bad_event(m, st, st.aut, 'unknown escape \\%s' % c, t)
            return False
        n = need_char(m, st, p, ord(DEC[c]), 'escape \\%s stands for another char' % c, t)
    else:
        part += c
        if c not in '0123456789abcdefABCDEF':
            bad_event(m, st, st.aut, 'broken unicode escape %s' % part, t)
            return False
        if len(part) < 6:
            st.ghost = (pos, ('c', part))
            return True
        n = need_char(m, st, p, int(part[2:], 16), 'escape %s stands for another char' % part, t)
    if n is None:
        return False
    st.ghost = (P(n), ('c', ''))
    return True


def hook(step):
    def h(m, st, fi, t, g, args):
        tx = emit.made(m, st, g, args)
        if tx is not None:
            return m.results(fi, t, [(st, tx)])
        a = emit.atoms(m, st, g, args)
        if a is None:
            return None
        if st.ghost[0] == START:
            a = emit.start(m, st, args) + a
        for x in a:
            if not step(m, st, x, t):
                return []
        unit = ('adt', '()', 0, ())
        r = unit
        if g['decl'].endswith(('write_fmt', 'write_str', 'write_char')):
            r = absint.ok(unit)
        return m.results(fi, t, [(st, r)])
    return h


def appenders(crate, fn):
    """local functions below fn that (transitively) append text: interpreted in place"""
    out = set()
    cl = alphamod.closure(crate, [fn])
    direct = {p for p, f in cl.items() if any(emit.is_append(ir.callee(t['f'])) for _, t in f.calls())}
    for p, f in cl.items():
        if direct & set(alphamod.closure(crate, [f])):
            out.add(f.path)
    return out


def spec_events(m):
    bad = EMPTY
    for e in m.events:
        if e[0] == 'spec' and not e[1].imp:
            bad = union(bad, plain(e[1].aut))
    return bad


def encode_viol(outs, m):
    fin = []
    for s, v in outs:
        if s.ghost[0] == START:
            # no append: the text is a value of its own
            s = s.copy()
            pre = emit.of_value(m, s, v)
            if pre and pre[0][0] != '?':
                if not all(encode_step(m, s, x, {}) for x in pre):
                    continue
        fin.append((s, v))
    outs = fin
    bad = spec_events(m)
    lost = [s for s, v in outs if s.ghost[0] in (LOST, START)]
    for s, v in outs:
        if s.ghost[0] in (LOST, START):
            continue
        if s.ghost[0] != DONE:
            bad = union(bad, plain(s.aut))
    if bad.empty() and lost:
        raise Give('some of the text is made in a way not followed')
    return bad


# ---- decoding ------------------------------------------------------------------------------------
def settle(m, st):
    """give the ghost position a mark of its own"""
    pos = st.ghost[0]
    if pos[0] == 'pos' and pos[2]:
        before = st.aut
        n = m.mark_at(st, pos[1], pos[2])
        lostw = difference(before, m.drop(st.aut, n))
        st.ghost = (P(n),) + tuple(st.ghost[1:])
        return lostw
    return EMPTY


def decode_step(m, st, atom, t):
    """every appended char is what stands at the ghost position of the literal"""
    if st.ghost[0] == LOST:
        return True
    bad_event(m, st, settle(m, st), 'text read from an empty input', t)
    if st.aut.empty():
        return False
    p = st.ghost[0][1]
    bsl = set(m.al.flavours(ord('\\')))
    q = set(m.al.flavours(ord('"')))
    if atom[0] == 'ch':
        if not same_pos(m, st, atom[1], p, 'char taken out of order', t):
            return False
        bad_event(m, st, at(m, st, p, bsl | q), 'backslash or quote taken as it stands', t)
        st.aut = at(m, st, p, bsl | q, True)
        if st.aut.empty():
            return False
        st.ghost = (P(m.advance_char(st, p)),)
        return True
    if atom[0] == 'slice':
        if not same_pos(m, st, atom[1], p, 'slice taken out of order', t):
            return False
        ab, bb = 1 << atom[1], 1 << atom[2]
        badl = bsl | q

        def f(s, mask, l):
            if s == 0 and mask & ab:
                s = 1
            if s in (1, 3) and mask & bb:
                s = 2 if s == 1 else 4
            if s == 1 and l in badl:
                s = 3
            return ((s, mask),)
        bad = m._trans(st.aut, 0, f, lambda s: s in (3, 4))
        bad_event(m, st, bad, 'backslash or quote taken as it stands', t)
        st.aut = difference(st.aut, bad)
        if st.aut.empty():
            return False
        st.ghost = (P(atom[2]),)
        return True
    if atom[0] == 'lit':
        for c in atom[1]:
            p = st.ghost[0][1]
            L = words.Lang(m.al)
            forms = [L.seq(L.lit('\\'), L.lit(e)) for e, d in DEC.items() if d == c]
            if c not in '\\"':
                forms.append(L.lit(c) if ord(c) < 128 else None)
                forms = [x for x in forms if x is not None]
            u = '%04x' % ord(c)
            forms.append(L.seq(L.lit('\\u'), *[specs.cls(L, {ord(x), ord(x.upper())}) for x in u]))
            if not consume(m, st, p, L.alt(*forms), '%r does not stand here' % c, t):
                return False
        return True
    # a computed char: only a unicode escape may produce one, and it is the one its digits stand for
    L = words.Lang(m.al)
    hx = specs.cls(L, specs.HEX)
    if not consume(m, st, p, L.seq(L.lit('\\u'), hx, hx, hx, hx), 'computed char without a unicode escape', t):
        return False
    v = atom[1] if len(atom) > 1 else None
    if not (isinstance(v, tuple) and v[0] == 'lin'):
        m.notes.add('value of \\u escapes is not tracked')
        return True
    m.notes.add('value of \\u escapes followed')
    if [x[0] for x in v[1]] != [4096, 256, 16, 1] or any(x[2] == 'part' for x in v[1]):
        bad_event(m, st, st.aut, 'the char of a unicode escape is not made of its four digits', t)
        return False
    for i, x in enumerate(v[1]):
        d = m.mark_at(st, p, 2 + i)
        ok = same_pos(m, st, x[1], d, 'digits of a unicode escape taken out of order', t)
        st.aut = m.drop(st.aut, d)
        if not ok:
            return False
    cases = [(st.aut, v[2])]
    for k, mk, z in v[1]:
        if z == 'cp':
            cases = [(words.filter_syms(a, lambda y, l, ls=set().union(*[m.al.flavours(c) for c in cs]): not (y & (1 << mk)) or l in ls), n + k * o)
                     for a, n in cases for cs, o in HEXCLS]
    for a, n in cases:
        if n and not a.empty():
            bad_event(m, st, a, 'a unicode escape gives a char %d away from the one it stands for' % n, t)
            st.aut = difference(st.aut, a)
    return not st.aut.empty()


HEXCLS = ((range(48, 58), 48), (range(97, 103), 87), (range(65, 71), 55))


def consume(m, st, p, r, what, t):
    """the text at mark p must start with r (unambiguous); moves the ghost behind it"""
    L = words.Lang(m.al)
    rest = L.build(L.seq(L.star(L.any()), L.mk(2), r, L.mk(3), L.star(L.any())), (1, 2))
    # add the end mark: all positions, then keep those that fit
    y = st.newmark()
    yb = 1 << y

    def f(s, mask, l):
        out = [(s, mask)]
        if s == 0:
            out.append((1, mask | yb))
        return out
    cand = m._trans(st.aut, 0, f, lambda s: s == 1)
    good = words.map_marks(restrict_rel(cand, p, y, rest), lambda x: x)
    dropped = words.map_marks(good, lambda x: x & ~yb)
    bad_event(m, st, difference(st.aut, dropped), what, t)
    st.aut = good
    if good.empty():
        return False
    st.ghost = (P(y),)
    return True


def restrict_rel(a, p, y, rel):
    """the words of a whose marks p, y stand in rel (marks 2, 3; bounds 1|2 ignored)"""
    A = a.trans
    B = rel.trans
    pb, yb = 1 << p, 1 << y
    aa, ba = words._accs(a), words._accs(rel)
    if a.acc is None or rel.acc is None:
        return EMPTY

    def step(q):
        x, z = q
        out = []
        by = B[z]
        for (mk, l), t in A[x].items():
            want = (4 if mk & pb else 0) | (8 if mk & yb else 0)
            for bound in (0, 1, 2, 3):
                e = by.get((want | bound, l))
                if e is not None:
                    out.append(((mk, l), (t, e)))
                    break
        return out
    return words._build((0, 0), step, lambda q: q[0] in aa and q[1] in ba)


def literal_ok(L, u=True):
    """the literals every decoder must take (no \\u: its range is not tracked)"""
    esc = L.seq(L.lit('\\'), specs.cls(L, {ord(c) for c in DEC}))
    return L.build(L.seq(L.lit('"'), L.star(L.alt(specs.notcls(L, {0x22, 0x5C}), esc)), L.lit('"')))


def decode_viol(al):
    L = words.Lang(al)
    must = literal_ok(L)

    def viol(outs, m):
        bad = spec_events(m)
        okl = EMPTY
        for s, v in outs:
            if v[0] == 'adt' and v[2] == 1:
                bad = union(bad, intersect(plain(s.aut), must))
            elif v[0] == 'adt':
                if s.ghost[0] == LOST:
                    continue
                s = s.copy()
                bad = union(bad, plain(settle(m, s)))
                g = s.ghost[0][1]
                rel = L.build(L.seq(L.lit('"'), L.star(L.any()), L.mk(2), L.lit('"')), (1, 2))
                good = restrict_rel(s.aut, g, 63, rel)
                bad = union(bad, plain(difference(s.aut, good)))
                okl = union(okl, s.aut)
        return bad
    return viol


def encode_literals(ck):
    ck.rule('the literal written for a string is an opening quote, then for every char in order either the char '
            'itself (never a quote, backslash or line break) or an escape sequence that decodes to it, then the '
            'closing quote')
    for cfg in ('default', 'alloc'):
        c = ck.crate(cfg)
        f = c.fns.get('encode::primitives::escape_and_quote')
        name = '%s: literals written' % cfg
        if f is None:
            ck.undecided(name, 'function not found')
            continue

        def one():
            an = Ghost(ck, c, f, [('s', 0, 1)], extra=specs.EXTRA + '\b\f/', sets=specs.SETS, hooks=[hook(encode_step)],
                       ghost=(START, ('c', '')))
            an.nosum |= appenders(c, f)
            decide(ck, name, an, encode_viol, key='escape:encode', what='literal does not read back')
        ck.guard(name, one)


def follow(m):
    m.digits = True


def decode_literals(ck):
    ck.rule('a literal is accepted only as quote, chars and valid escapes, quote; every char of the result is the '
            'char or the decoded escape standing at that place, in order, none dropped; every literal built of plain '
            'chars and the simple escapes is accepted')
    for cfg in ('default', 'alloc'):
        c = ck.crate(cfg)
        f = c.fns.get('decode::parser::try_unescape_json_string')
        name = '%s: literals read' % cfg
        if f is None:
            ck.undecided(name, 'function not found')
            continue

        def one():
            an = Ghost(ck, c, f, [('s', 0, 1)], extra=specs.EXTRA + '\b\f/', sets=specs.SETS + [set(range(97, 103))], hooks=[hook(decode_step)],
                       ghost=(('pos', 0, 1, absint.LO, 0),), k_tails=K, setup=follow)
            an.nosum |= appenders(c, f)
            decide(ck, name, an, decode_viol(an.al), key='escape:decode', what='literal read wrongly')
        ck.guard(name, one)
