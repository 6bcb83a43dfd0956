"""Quoting decisions of the encoder: string values, keys."""
import words, lang, specs
from words import EMPTY, union, intersect, difference, plain
from lang import Analysis, decide, by_value

CFGS = ('default', 'alloc')


def bare_lang(outs):
    """inputs written as they are (booleans: the predicate answers false)"""
    return plain(union_of(s.aut for s, v in outs if v == ('i', 0) or v == ('s', 0, 1) or v[0] in ('top', 'unk') and s.imp))


def quoted_lang(outs):
    return plain(union_of(s.aut for s, v in outs if v == ('i', 1) or v[0] not in ('i', 's', 'c')))


def altered_lang(outs):
    """inputs written bare, but not as they are"""
    r = EMPTY
    for s, v in outs:
        if v[0] == 'c':
            r = union(r, s.aut)
        elif v[0] == 's' and v != ('s', 0, 1):
            lo, hi = 1 << v[1], 1 << v[2]
            same = words.filter_syms(s.aut, lambda mk, l: bool(mk & lo) == bool(mk & 1) and bool(mk & hi) == bool(mk & 2))
            r = union(r, difference(s.aut, same))
    return plain(r)


def find_fn(crate, *paths):
    for p in paths:
        f = crate.fns.get(p)
        if f is not None:
            return f
    return None


def bare_values(ck):
    ck.rule('strings are written without quotes only when they are outside the must-quote language of TOON 7.2 for '
            'the active delimiter, and then as they are; plain words are written without quotes')
    ck.rule('every string left bare is classified by the scalar decoder as that same string')
    for cfg in CFGS:
        c = ck.crate(cfg)
        f = find_fn(c, 'encode::primitives::format_string', 'encode::primitives::needs_quotes')
        dec = find_fn(c, "decode::parser::Parser::<'a>::parse_scalar_token_at_line")
        if f is None:
            ck.undecided('%s string formatter' % cfg, 'function not found')
            continue
        for k, nm, ch in specs.DELIMS:
            def one():
                an = Analysis(ck, c, f, [('s', 0, 1), ('adt', 'options::Delimiter', k, ())],
                              extra=specs.EXTRA, sets=specs.SETS, roots=[dec] if dec else [])
                spec = specs.must_quote(an.L, ch)
                decide(ck, '%s: %s string bare only when safe' % (cfg, nm), an,
                       lambda outs, m: union(intersect(bare_lang(outs), spec), altered_lang(outs)),
                       key='bare-unsafe:%s' % nm, what='string written without quotes')
                pw = specs.plain_words(an.L)
                decide(ck, '%s: %s plain words stay bare' % (cfg, nm), an,
                       lambda outs, m: intersect(quoted_lang(outs), pw),
                       key='quoted-plain:%s' % nm, what='plain word quoted')
                if dec is not None:
                    outs, m = an.run()
                    bare = bare_lang(outs)
                    if not m.unmodelled:
                        check_decoder(ck, c, dec, an.al, bare, '%s: %s bare strings decode to themselves' % (cfg, nm), nm)
            ck.guard('%s string formatter %s' % (cfg, nm), one)


def union_of(it):
    r = EMPTY
    for x in it:
        r = union(r, x)
    return r


def check_decoder(ck, c, dec, al, bare, name, nm):
    an = Analysis(ck, c, dec, [('top', None), ('s', 0, 1), ('top', None)], al=al)

    def viol(outs, m):
        r = EMPTY
        for s, v in outs:
            if v == ('adt', 'value::Value', 3, (('s', 0, 1),)):
                continue
            if v[0] == 'adt' and v[1] == 'value::Value' and v[2] == 3 and v[3][0][0] in ('s',):
                # some other part of the input: equal only when it spans the whole word
                if v[3][0] == ('s', 0, 1):
                    continue
            r = union(r, plain(s.aut))
        return intersect(r, bare)
    decide(ck, name, an, viol, key='bare-misread:%s' % nm, what='bare string read back as something else')


def bare_keys(ck):
    ck.rule('a key is left bare only when it matches [A-Za-z_][A-Za-z0-9_.]*; identifiers are left bare')
    for cfg in ('default', 'alloc'):
        c = ck.crate(cfg)
        for path, dots in (('encode::primitives::format_key', True), ('encode::encoders::key_needs_quotes', False)):
            f = c.fns.get(path)
            if f is None:
                if dots or cfg == 'default':
                    ck.undecided('%s %s' % (cfg, path), 'function not found')
                continue

            def one():
                an = Analysis(ck, c, f, [('s', 0, 1)], extra=specs.EXTRA, sets=specs.SETS)
                ok = specs.key_bare(an.L) if dots else specs.identifier(an.L)
                ident = specs.identifier(an.L)
                decide(ck, '%s: %s bare only for safe keys' % (cfg, path), an,
                       lambda outs, m: union(difference(bare_lang(outs), ok), altered_lang(outs)), key='bare-key:%s' % path,
                       what='unsafe key left bare' if dots else 'segment that is no identifier folded into a path')
                decide(ck, '%s: %s identifiers stay bare' % (cfg, path), an,
                       lambda outs, m: intersect(quoted_lang(outs), ident), key='quoted-key:%s' % path,
                       what='identifier key quoted')
            ck.guard('%s %s' % (cfg, path), one)
