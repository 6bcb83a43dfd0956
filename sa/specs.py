"""Specification languages (TOON 3.0) over an alphabet, written as regular expressions."""
import words
from words import union, intersect, difference

CTRL = set(range(0x20)) | {0x7F}
DIGIT = set(range(0x30, 0x3A))
DIGIT1 = set(range(0x31, 0x3A))
ALPHA = set(range(0x41, 0x5B)) | set(range(0x61, 0x7B))
HEX = DIGIT | set(range(0x41, 0x47)) | set(range(0x61, 0x67))
DELIMS = [(0, 'Comma', ','), (1, 'Tab', '\t'), (2, 'Pipe', '|')]
SETS = [CTRL, DIGIT, DIGIT1, ALPHA, HEX, {0x30}]
EXTRA = '",:[]{}\\|\t\n\r -+.eE_@/0' + 'truefalsn' + 'bfnrt' + 'u'


def cls(L, s):
    return L.chars(lambda c: (c in s) if isinstance(c, int) else False)


def notcls(L, s):
    return L.chars(lambda c: (c not in s) if isinstance(c, int) else True)


def o(s):
    return {ord(c) for c in s}


def contains(L, s):
    return L.build(L.seq(L.star(L.any()), cls(L, s), L.star(L.any())))


def starts(L, s):
    return L.build(L.seq(cls(L, s), L.star(L.any())))


def ends(L, s):
    return L.build(L.seq(L.star(L.any()), cls(L, s)))


def number_re(L, lead=True):
    """spec: -?digits(.digits)?([eE][+-]?digits)?"""
    d = cls(L, DIGIT)
    return L.seq(L.opt(L.lit('-')), L.plus(d), L.opt(L.seq(L.lit('.'), L.plus(d))),
                 L.opt(L.seq(cls(L, o('eE')), L.opt(cls(L, o('+-'))), L.plus(d))))


def canonical_number_re(L):
    """the number texts a decoder must read as numbers: no forbidden leading zero"""
    d = cls(L, DIGIT)
    ip = L.alt(L.lit('0'), L.seq(cls(L, DIGIT1), L.star(d)))
    return L.seq(L.opt(L.lit('-')), ip, L.opt(L.seq(L.lit('.'), L.plus(d))),
                 L.opt(L.seq(cls(L, o('eE')), L.opt(cls(L, o('+-'))), L.plus(d))))


def integer_re(L):
    d = cls(L, DIGIT)
    return L.seq(L.opt(L.lit('-')), L.alt(L.lit('0'), L.seq(cls(L, DIGIT1), L.star(d))))


def literals(L):
    return L.build(L.alt(L.lit('true'), L.lit('false'), L.lit('null')))


def must_quote(L, d):
    """the strings that TOON 7.2 forbids to write without quotes, with delimiter char d"""
    out = L.build(L.seq())
    for x in (starts(L, o(' \t')), ends(L, o(' \t')), starts(L, o('-')), starts(L, o('@')),
              contains(L, o(d)), contains(L, o(':"\\[]{}')), contains(L, CTRL), literals(L),
              L.build(number_re(L))):
        out = union(out, x)
    return out


def plain_words(L):
    """strings nobody needs to quote: letters and underscores, no literal and nothing f64 reads"""
    w = L.build(L.plus(cls(L, ALPHA | o('_'))))
    low = {}
    bad = []
    for x in ('nan', 'inf', 'infinity'):
        bad.append(L.seq(*[cls(L, o(c + c.upper())) for c in x]))
    return difference(difference(w, literals(L)), L.build(L.alt(*bad)))


def key_bare(L):
    """keys that may be written without quotes (7.3)"""
    return L.build(L.seq(cls(L, ALPHA | o('_')), L.star(cls(L, ALPHA | DIGIT | o('_.')))))


def identifier(L):
    return L.build(L.seq(cls(L, ALPHA | o('_')), L.star(cls(L, ALPHA | DIGIT | o('_')))))


def quoted_prefix(L):
    """words that end outside a string literal: (plain | "..." )*"""
    return L.star(L.alt(notcls(L, o('"')), string_literal(L)))


def string_literal(L):
    return L.seq(L.lit('"'), L.star(L.alt(notcls(L, o('"\\')), L.seq(L.lit('\\'), L.any()))), L.lit('"'))
