"""Classification of unquoted and quoted scalar tokens by the decoder."""
import words, lang, specs, absint, ir, models
from words import EMPTY, union, intersect, difference, plain
from lang import decide
from p_scan import Ghost

CFGS = ('default', 'alloc', 'all')


def trimmed(an):
    L = an.L
    nb = specs.notcls(L, {32, 9})
    return L.build(L.opt(L.seq(nb, L.opt(L.seq(L.star(L.any()), nb)))))


def unescape_hook(m, st, fi, t, g, args):
    if g is None:
        return None
    lf = m.callee_fn(g)
    if lf is None or not lf.path.endswith('unescape_json_string') or not args:
        return None
    a = models.val_of(m, st, args[-1])
    if a[0] != 's':
        return None
    s2 = st.copy()
    return m.results(fi, t, [(st, absint.ok(('adt', 'Unescaped', 0, (a,)))), (s2, absint.err(('top', None)))])


def parse_hook(m, st, fi, t, g, args):
    """remember the exact integer readings that were tried (their failure leaves only floats)"""
    if g is None or models.short(g['decl']) not in ('str::parse', 'FromStr::from_str'):
        return None
    tys = [m.c.types[x].get('s') for x in (g.get('iargs') or g.get('args') or []) if isinstance(x, int)]
    for ty in ('i64', 'u64', 'i128', 'u128'):
        if ty in tys:
            if models.val_of(m, st, args[0]) == ('s', 0, 1):
                st.ghost = (('c', ','.join(sorted(set(filter(None, st.ghost[0][1].split(','))) | {ty}))),)
    return None


def floats(m):
    m.floats = True


def contract(an):
    L = an.L
    quoted = specs.starts(L, {0x22})
    num = L.build(specs.canonical_number_re(L))
    ints = L.build(specs.integer_re(L))
    neg = intersect(ints, specs.starts(L, {ord('-')}))
    pos = difference(ints, neg)
    lits = {'true': ('adt', 'value::Value', 1, (('i', 1),)), 'false': ('adt', 'value::Value', 1, (('i', 0),)),
            'null': ('adt', 'value::Value', 0, ())}
    litl = {k: L.build(L.lit(k)) for k in lits}
    # digits, signs, points and exponents only, with a digit: may be read as a number
    numlike = intersect(specs.contains(L, specs.DIGIT), L.build(L.plus(specs.cls(L, specs.DIGIT | specs.o('+-.eE')))))
    d = specs.cls(L, specs.DIGIT)
    zeros = L.build(L.seq(L.opt(L.lit('-')), L.lit('0'), d, L.star(L.any())))
    text = difference(difference(L.build(L.star(L.any())), quoted), difference(numlike, zeros))
    for x in litl.values():
        text = difference(text, x)

    def viol(outs, m):
        bad = EMPTY
        for s, v in outs:
            a = plain(s.aut)
            kind = v[2] if v[0] == 'adt' and v[1].endswith('Value') else None
            for k, lit in litl.items():
                if v != lits[k]:
                    bad = union(bad, intersect(a, lit))
            if kind != 2:
                bad = union(bad, intersect(a, num))
            else:
                n = v[3][0]
                pay = n[3][0] if n[0] == 'adt' and n[3] else ('top', None)
                isf = n[0] == 'adt' and n[2] == 2
                exact = pay[0] == 'adt' and pay[1] in ('Parsed.i64', 'Parsed.u64') and pay[3] == (('s', 0, 1),) and not isf
                whole = pay[0] == 'adt' and pay[1].startswith('Parsed.') and pay[3] == (('s', 0, 1),)
                if not exact:
                    tried = set(filter(None, s.ghost[0][1].split(',')))
                    if not (isf and whole and tried & {'i64', 'i128'}):
                        bad = union(bad, intersect(a, neg))
                    if not (isf and whole and tried & {'u64', 'u128', 'i128'}):
                        bad = union(bad, intersect(a, pos))
                if pay[0] == 'adt' and pay[1] == 'FlInt':
                    facts = s.ghost[0][1].split(',')
                    fits = pay[3][0][3][0] in (('s', 0, 1), ('adt', 'Parsed.f64', 0, (('s', 0, 1),))) and \
                        models.float_fits(facts, pay[3][1][1].split('>'))
                    if not fits and 'blind' in facts:
                        an.ck.notes.append('a float that becomes an integer is tested in a way not followed')
                    elif not fits:
                        bad = union(bad, a)
                elif not whole and not (isf and pay[0] != 'adt'):
                    bad = union(bad, a)
                elif isf and pay[0] == 'adt' and pay[1] == 'Parsed.f32':
                    bad = union(bad, a)
                bad = union(bad, intersect(a, union(quoted, text)))
                continue
            if kind == 3:
                p = v[3][0]
                if p[0] == 's' and p != ('s', 0, 1):
                    bad = union(bad, a)
                if p == ('s', 0, 1):
                    bad = union(bad, intersect(a, quoted))
                if p[0] == 'adt' and p[1] == 'Unescaped' and p[3] != (('s', 0, 1),):
                    bad = union(bad, a)
                if p != ('s', 0, 1):
                    bad = union(bad, intersect(a, text))
            else:
                bad = union(bad, intersect(a, union(quoted, text)))
        return bad
    return viol


def scalars(ck):
    ck.rule('true, false and null are the literals; every token of the JSON number grammar without forbidden leading '
            'zeros is a number, integers by exact 64-bit integer parsing (a float only when that fails); tokens that '
            'start with a quote are string literals; every other token is the string of its own text; a float becomes '
            'an integer only where the path says that it is whole and within the range of the integer type')
    for cfg in CFGS:
        c = ck.crate(cfg)
        f = c.fns.get("decode::parser::Parser::<'a>::parse_scalar_token_at_line")
        name = '%s: scalar tokens' % cfg
        if f is None:
            ck.undecided(name, 'function not found')
            continue

        def one():
            an = Ghost(ck, c, f, [('top', None), ('s', 0, 1), ('top', None)], extra=specs.EXTRA, sets=specs.SETS,
                       hooks=[unescape_hook, parse_hook, models.float_call], ghost=(('c', ''),), base=trimmed,
                       setup=floats)
            an.nosum = set()
            decide(ck, name, an, contract(an), key='scalar', what='token misclassified')
        ck.guard(name, one)


def keys(ck):
    ck.rule('a key token that starts with a quote is unescaped, every other key token is the key itself (the literal '
            'marker apart)')
    for cfg in CFGS:
        c = ck.crate(cfg)
        f = c.fns.get("decode::parser::Parser::<'a>::parse_key_token_at_line")
        name = '%s: key tokens' % cfg
        if f is None:
            ck.undecided(name, 'function not found')
            continue

        def one():
            an = Ghost(ck, c, f, [('top', None), ('s', 0, 1), ('top', None)], extra=specs.EXTRA, sets=specs.SETS,
                       hooks=[unescape_hook], ghost=(('c', ''),), base=trimmed)
            an.nosum = set()

            def viol(outs, m):
                L = an.L
                quoted = specs.starts(L, {0x22})
                mark = L.build(L.seq(L.any(), L.star(L.any())))
                plainkeys = specs.key_bare(L)
                bad = EMPTY
                for s, v in outs:
                    a = plain(s.aut)
                    if v == ('s', 0, 1):
                        bad = union(bad, intersect(a, quoted))
                    elif v[0] in ('s', 'c') or (v[0] == 'adt' and v[1] == 'Unescaped' and v[3] != (('s', 0, 1),)):
                        bad = union(bad, a)
                    elif v[0] != 'adt':
                        bad = union(bad, intersect(a, plainkeys))
                    else:
                        bad = union(bad, difference(a, quoted))
                return bad
            decide(ck, name, an, viol, key='key-token', what='key token misread')
        ck.guard(name, one)
