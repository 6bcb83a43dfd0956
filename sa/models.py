"""Models of the std functions that toon-rs applies to strings, bytes, chars, options, results and iterators.

Each model maps an abstract state to the abstract states after the call.  A function that is not modelled
is answered by Machine.unknown (an unknown result), never by a guess.
"""
import re
import words
from words import END
import ir

_short = {}


def short(n):
    """`core::str::<impl str>::find` -> `str::find`"""
    r = _short.get(n)
    if r is not None:
        return r
    s = n
    s = re.sub(r'<impl \[T\]>', 'slice', s)
    m = re.match(r'^<(.+) as ([^<>]+(?:<.*>)?)>::(\w+)$', s)
    if m:
        tr = re.sub(r'<.*>', '', m.group(2)).split('::')[-1]
        r = tr + '::' + m.group(3)
    else:
        s = re.sub(r'<impl ([^<> ]+(?:<.*?>)? for )?([\w\[\]&\' ]+?)>', lambda m: m.group(2), s)
        prev = None
        while prev != s:
            prev = s
            s = re.sub(r'::<[^<>]*>', '', s)
            s = re.sub(r'<[^<>]*>', '', s)
        p = [x for x in s.split('::') if x]
        r = '::'.join(p[-2:])
    _short[n] = r
    return r


def nogen(n):
    prev = None
    while prev != n:
        prev = n
        n = re.sub(r'(::)?<[^<>]*>', '', n)
    return n


def overrides(name):
    return False


# ---- synthetic MIR -------------------------------------------------------------------------------
class SynFn:
    """a hand-written MIR body standing for a std adapter or consumer"""
    def __init__(self, name, argc, blocks):
        self.path = 'std:' + name
        self.name = name
        self.argc = argc
        self.blocks = blocks
        self.locals = []
        self.synthetic = True
        self.promoted = []
        self._live = None
        self._preds = None
        self.root = None
        self.span = None
        self.kind = 'Fn'

    preds = ir.Fn.preds
    succs = ir.Fn.succs
    live = ir.Fn.live
    where = ir.Fn.where
    __repr__ = ir.Fn.__repr__


def P(l, *proj):
    return [l, [list(p) for p in proj]]


def cp(l, *proj):
    return {'o': 'p', 'p': P(l, *proj)}


def ci(n):
    return {'o': 'c', 'int': str(n)}


def asg(dst, rv):
    return {'s': '=', 'p': P(dst) if isinstance(dst, int) else dst, 'v': rv, 'sp': None}


def use(o):
    return {'r': 'use', 'a': o}


def mref(l, *proj):
    return {'r': 'ref', 'mut': True, 'p': P(l, *proj)}


def adt(path, v, *args):
    return {'r': 'agg', 'k': 'adt', 'path': path, 'v': v, 'ops': list(args)}


def tup(*args):
    return {'r': 'agg', 'k': 'tuple', 'ops': list(args)}


def discr(l):
    return {'r': 'discr', 'p': P(l)}


def blk(ss, tm):
    return {'ss': ss, 'tm': tm, 'cl': False}


def goto(n):
    return {'t': 'goto', 'to': n}


def ret():
    return {'t': 'return'}


def sw(l, cases, els):
    return {'t': 'switch', 'd': cp(l), 'ts': [[str(a), b] for a, b in cases], 'else': els}


def callk(name, args, dst, to):
    return {'t': 'call', 'f': {'o': 'c', 'fn': {'decl': name, 'inst': name, 'args': [], 'local': False}},
            'args': args, 'dst': P(dst), 'to': to, 'sp': None}


SOME0 = (('v', 1), ('f', 0, None))
NEXT = 'syn::next'
CALL = 'syn::call'

S = {}
RET = SynFn('ret', 0, [blk([], ret())])


def _def(name, argc, blocks):
    S[name] = SynFn(name, argc, blocks)


# bool any(it: &mut I (or I by value), f)
def _loop(name, by_ref_item, on_true, on_false_ret, conv):
    pass


def _consumer(name, body, done):
    """_1 iterator place, _2 closure; _3 = &mut it; _4 = next; _5 item; body blocks start at 4"""
    bl = [
        blk([asg(3, mref(1))], goto(1)),
        blk([], callk(NEXT, [cp(3)], 4, 2)),
        blk([asg(6, discr(4))], sw(6, [(0, 3)], 4)),
        blk([asg(0, done)], ret()),
    ] + body
    _def(name, 2, bl)


_consumer('any', [
    blk([asg(5, use(cp(4, *SOME0))), asg(7, mref(2))], callk(CALL, [cp(7), cp(5)], 8, 5)),
    blk([], sw(8, [(0, 1)], 6)),
    blk([asg(0, use(ci(1)))], ret()),
], use(ci(0)))
_consumer('all', [
    blk([asg(5, use(cp(4, *SOME0))), asg(7, mref(2))], callk(CALL, [cp(7), cp(5)], 8, 5)),
    blk([], sw(8, [(0, 6)], 1)),
    blk([asg(0, use(ci(0)))], ret()),
], use(ci(1)))
_consumer('find', [
    blk([asg(5, use(cp(4, *SOME0))), asg(7, mref(2))], callk(CALL, [cp(7), cp(5)], 8, 5)),
    blk([], sw(8, [(0, 1)], 6)),
    blk([asg(0, adt('Option', 1, cp(5)))], ret()),
], adt('Option', 0))
# position: the iterator is wrapped in enumerate beforehand: items are (index, x)
_consumer('position', [
    blk([asg(5, use(cp(4, ('v', 1), ('f', 0, None), ('f', 1, None)))),
         asg(9, use(cp(4, ('v', 1), ('f', 0, None), ('f', 0, None)))), asg(7, mref(2))],
        callk(CALL, [cp(7), cp(5)], 8, 5)),
    blk([], sw(8, [(0, 1)], 6)),
    blk([asg(0, adt('Option', 1, cp(9)))], ret()),
], adt('Option', 0))
_consumer('for_each', [
    blk([asg(5, use(cp(4, *SOME0))), asg(7, mref(2))], callk(CALL, [cp(7), cp(5)], 8, 5)),
    blk([], goto(1)),
], tup())
_consumer('try_for_each', [      # on Result<(), E>
    blk([asg(5, use(cp(4, *SOME0))), asg(7, mref(2))], callk(CALL, [cp(7), cp(5)], 8, 5)),
    blk([asg(10, discr(8))], sw(10, [(0, 1)], 6)),
    blk([asg(0, use(cp(8)))], ret()),
], adt('Result', 0, ci(0)))
S['try_for_each'].blocks[3]['ss'] = [asg(11, tup()), asg(0, adt('Result', 0, cp(11)))]
_consumer('last', [
    blk([asg(2, adt('Option', 1, cp(4, *SOME0)))], goto(1)),
], use(cp(2)))
_consumer('collect', [
    blk([asg(5, use(cp(4, *SOME0)))], goto(1)),
], use({'o': 'c', 'opaque': 1}))
_consumer('count', [
    blk([asg(5, use(cp(4, *SOME0)))], goto(1)),
], use({'o': 'c', 'opaque': 1}))
# fold(it, f, acc=_10): called with 3 args in _1 _2 _3 -> own body
_def('fold', 3, [
    blk([asg(9, use(cp(2))), asg(5, mref(1))], goto(1)),
    blk([], callk(NEXT, [cp(5)], 4, 2)),
    blk([asg(6, discr(4))], sw(6, [(0, 3)], 4)),
    blk([asg(0, use(cp(9)))], ret()),
    blk([asg(7, use(cp(4, *SOME0))), asg(8, mref(3))], callk(CALL, [cp(8), cp(9), cp(7)], 9, 1)),
])
# adapters: _1 = &mut adapter
D = ('d',)


def F(i):
    return ('f', i, None)


_def('map_next', 1, [
    blk([asg(2, mref(1, D, F(0)))], callk(NEXT, [cp(2)], 3, 1)),
    blk([asg(4, discr(3))], sw(4, [(0, 2)], 3)),
    blk([asg(0, adt('Option', 0))], ret()),
    blk([asg(5, use(cp(3, *SOME0))), asg(6, mref(1, D, F(1)))], callk(CALL, [cp(6), cp(5)], 7, 4)),
    blk([asg(0, adt('Option', 1, cp(7)))], ret()),
])
_def('filter_next', 1, [
    blk([asg(2, mref(1, D, F(0)))], goto(1)),
    blk([], callk(NEXT, [cp(2)], 3, 2)),
    blk([asg(4, discr(3))], sw(4, [(0, 3)], 4)),
    blk([asg(0, adt('Option', 0))], ret()),
    blk([asg(5, use(cp(3, *SOME0))), asg(6, mref(1, D, F(1)))], callk(CALL, [cp(6), cp(5)], 7, 5)),
    blk([], sw(7, [(0, 1)], 6)),
    blk([asg(0, adt('Option', 1, cp(5)))], ret()),
])
_def('take_while_next', 1, [
    blk([asg(2, mref(1, D, F(0)))], callk(NEXT, [cp(2)], 3, 1)),
    blk([asg(4, discr(3))], sw(4, [(0, 2)], 3)),
    blk([asg(0, adt('Option', 0))], ret()),
    blk([asg(5, use(cp(3, *SOME0))), asg(6, mref(1, D, F(1)))], callk(CALL, [cp(6), cp(5)], 7, 4)),
    blk([], sw(7, [(0, 2)], 5)),
    blk([asg(0, adt('Option', 1, cp(5)))], ret()),
])
_def('enum_next', 1, [
    blk([asg(2, mref(1, D, F(0)))], callk(NEXT, [cp(2)], 3, 1)),
    blk([asg(4, discr(3))], sw(4, [(0, 2)], 3)),
    blk([asg(0, adt('Option', 0))], ret()),
    blk([asg(5, use(cp(3, *SOME0))), asg(6, use(cp(1, D, F(1))))], callk('syn::inc', [cp(6)], 7, 4)),
    blk([asg(P(1, D, F(1)), use(cp(7))), asg(8, tup(cp(6), cp(5))), asg(0, adt('Option', 1, cp(8)))], ret()),
])
_def('take_next', 1, [
    blk([asg(4, use(cp(1, D, F(1))))], sw(4, [(0, 2)], 1)),
    blk([asg(2, mref(1, D, F(0)))], callk('syn::dec', [cp(4)], 5, 3)),
    blk([asg(0, adt('Option', 0))], ret()),
    blk([asg(P(1, D, F(1)), use(cp(5)))], callk(NEXT, [cp(2)], 0, 4)),
    blk([], ret()),
])
_def('peek', 1, [
    blk([asg(2, use(cp(1, D, F(1)))), asg(3, discr(2))], sw(3, [(0, 1)], 3)),
    blk([asg(4, mref(1, D, F(0)))], callk(NEXT, [cp(4)], 5, 2)),
    blk([asg(P(1, D, F(1)), adt('Option', 1, cp(5))), asg(0, use(cp(5)))], ret()),
    blk([asg(0, use(cp(2, *SOME0)))], ret()),
])
_def('peekable_next', 1, [
    blk([asg(2, use(cp(1, D, F(1)))), asg(3, discr(2))], sw(3, [(0, 1)], 3)),
    blk([asg(4, mref(1, D, F(0)))], callk(NEXT, [cp(4)], 0, 2)),
    blk([], ret()),
    blk([asg(P(1, D, F(1)), adt('Option', 0)), asg(0, use(cp(2, *SOME0)))], ret()),
])
# Option::map / and_then / is_some_and / map_or / ok_or_else / unwrap_or_else / filter
_def('opt_map', 2, [
    blk([asg(3, discr(1))], sw(3, [(0, 1)], 2)),
    blk([asg(0, adt('Option', 0))], ret()),
    blk([asg(4, use(cp(1, *SOME0)))], callk(CALL, [cp(2), cp(4)], 5, 3)),
    blk([asg(0, adt('Option', 1, cp(5)))], ret()),
])
_def('opt_and_then', 2, [
    blk([asg(3, discr(1))], sw(3, [(0, 1)], 2)),
    blk([asg(0, adt('Option', 0))], ret()),
    blk([asg(4, use(cp(1, *SOME0)))], callk(CALL, [cp(2), cp(4)], 0, 3)),
    blk([], ret()),
])
_def('opt_filter', 2, [
    blk([asg(3, discr(1))], sw(3, [(0, 1)], 2)),
    blk([asg(0, adt('Option', 0))], ret()),
    blk([asg(4, use(cp(1, *SOME0)))], callk(CALL, [cp(2), cp(4)], 5, 3)),
    blk([], sw(5, [(0, 1)], 4)),
    blk([asg(0, use(cp(1)))], ret()),
])
_def('opt_is_some_and', 2, [
    blk([asg(3, discr(1))], sw(3, [(0, 1)], 2)),
    blk([asg(0, use(ci(0)))], ret()),
    blk([asg(4, use(cp(1, *SOME0)))], callk(CALL, [cp(2), cp(4)], 0, 3)),
    blk([], ret()),
])
_def('opt_is_none_or', 2, [
    blk([asg(3, discr(1))], sw(3, [(0, 1)], 2)),
    blk([asg(0, use(ci(1)))], ret()),
    blk([asg(4, use(cp(1, *SOME0)))], callk(CALL, [cp(2), cp(4)], 0, 3)),
    blk([], ret()),
])
_def('opt_map_or', 3, [
    blk([asg(4, discr(1))], sw(4, [(0, 1)], 2)),
    blk([asg(0, use(cp(2)))], ret()),
    blk([asg(5, use(cp(1, *SOME0)))], callk(CALL, [cp(3), cp(5)], 0, 3)),
    blk([], ret()),
])
_def('opt_map_or_else', 3, [
    blk([asg(4, discr(1))], sw(4, [(0, 1)], 2)),
    blk([], callk(CALL, [cp(2)], 0, 3)),
    blk([asg(5, use(cp(1, *SOME0)))], callk(CALL, [cp(3), cp(5)], 0, 3)),
    blk([], ret()),
])
_def('opt_unwrap_or_else', 2, [
    blk([asg(3, discr(1))], sw(3, [(0, 1)], 2)),
    blk([], callk(CALL, [cp(2)], 0, 3)),
    blk([asg(0, use(cp(1, *SOME0)))], ret()),
    blk([], ret()),
])
_def('opt_or_else', 2, [
    blk([asg(3, discr(1))], sw(3, [(0, 1)], 2)),
    blk([], callk(CALL, [cp(2)], 0, 3)),
    blk([asg(0, use(cp(1)))], ret()),
    blk([], ret()),
])
_def('res_map', 2, [
    blk([asg(3, discr(1))], sw(3, [(1, 1)], 2)),
    blk([asg(0, use(cp(1)))], ret()),
    blk([asg(4, use(cp(1, ('v', 0), F(0))))], callk(CALL, [cp(2), cp(4)], 5, 3)),
    blk([asg(0, adt('Result', 0, cp(5)))], ret()),
])
_def('res_map_err', 2, [
    blk([asg(3, discr(1))], sw(3, [(0, 1)], 2)),
    blk([asg(0, use(cp(1)))], ret()),
    blk([asg(4, use(cp(1, ('v', 1), F(0))))], callk(CALL, [cp(2), cp(4)], 5, 3)),
    blk([asg(0, adt('Result', 1, cp(5)))], ret()),
])
_def('res_and_then', 2, [
    blk([asg(3, discr(1))], sw(3, [(1, 1)], 2)),
    blk([asg(0, use(cp(1)))], ret()),
    blk([asg(4, use(cp(1, ('v', 0), F(0))))], callk(CALL, [cp(2), cp(4)], 0, 3)),
    blk([], ret()),
])
V0, V1 = ('v', 0), ('v', 1)
_def('res_map_or', 3, [
    blk([asg(4, discr(1))], sw(4, [(1, 1)], 2)),
    blk([asg(0, use(cp(2)))], ret()),
    blk([asg(5, use(cp(1, V0, F(0))))], callk(CALL, [cp(3), cp(5)], 0, 3)),
    blk([], ret()),
])
_def('res_map_or_else', 3, [
    blk([asg(4, discr(1))], sw(4, [(1, 1)], 2)),
    blk([asg(5, use(cp(1, V1, F(0))))], callk(CALL, [cp(2), cp(5)], 0, 3)),
    blk([asg(5, use(cp(1, V0, F(0))))], callk(CALL, [cp(3), cp(5)], 0, 3)),
    blk([], ret()),
])
_def('res_unwrap_or_else', 2, [
    blk([asg(3, discr(1))], sw(3, [(0, 1)], 2)),
    blk([asg(0, use(cp(1, V0, F(0))))], ret()),
    blk([asg(4, use(cp(1, V1, F(0))))], callk(CALL, [cp(2), cp(4)], 0, 3)),
    blk([], ret()),
])
_def('res_or_else', 2, [
    blk([asg(3, discr(1))], sw(3, [(0, 1)], 2)),
    blk([asg(0, use(cp(1)))], ret()),
    blk([asg(4, use(cp(1, V1, F(0))))], callk(CALL, [cp(2), cp(4)], 0, 3)),
    blk([], ret()),
])
_def('res_is_ok_and', 2, [
    blk([asg(3, discr(1))], sw(3, [(0, 1)], 2)),
    blk([asg(4, use(cp(1, V0, F(0))))], callk(CALL, [cp(2), cp(4)], 0, 3)),
    blk([asg(0, use(ci(0)))], ret()),
    blk([], ret()),
])
_def('res_is_err_and', 2, [
    blk([asg(3, discr(1))], sw(3, [(1, 1)], 2)),
    blk([asg(4, use(cp(1, V1, F(0))))], callk(CALL, [cp(2), cp(4)], 0, 3)),
    blk([asg(0, use(ci(0)))], ret()),
    blk([], ret()),
])
_def('bool_then', 2, [
    blk([], sw(1, [(0, 1)], 2)),
    blk([asg(0, adt('Option', 0))], ret()),
    blk([], callk(CALL, [cp(2)], 3, 3)),
    blk([asg(0, adt('Option', 1, cp(3)))], ret()),
])
_def('ok_or_else', 2, [
    blk([asg(3, discr(1))], sw(3, [(0, 1)], 2)),
    blk([], callk(CALL, [cp(2)], 4, 3)),
    blk([asg(5, use(cp(1, *SOME0))), asg(0, adt('Result', 0, cp(5)))], ret()),
    blk([asg(0, adt('Result', 1, cp(4)))], ret()),
])

ADAPT = {'It.map': 'map_next', 'It.filter': 'filter_next', 'It.enum': 'enum_next', 'It.take': 'take_next',
         'It.takewhile': 'take_while_next', 'It.peekable': 'peekable_next'}


# ---- character predicates ------------------------------------------------------------------------
def _na(f, other=False, ws=None):
    """predicate on a code point: f on ASCII ints, `other` beyond"""
    def p(c):
        if isinstance(c, int) and c < 128:
            return f(c)
        if isinstance(c, int):
            if other is None:
                return None
            return other
        if c == 'ws' and ws is not None:
            return ws
        return other
    return p


def _digit(c): return 48 <= c <= 57
def _upper(c): return 65 <= c <= 90
def _lower(c): return 97 <= c <= 122
def _alpha(c): return _upper(c) or _lower(c)
def _alnum(c): return _alpha(c) or _digit(c)
def _ctrl(c): return c < 32 or c == 127
def _aws(c): return c in (32, 9, 10, 12, 13)
def _ws(c): return c in (32, 9, 10, 11, 12, 13)
def _hex(c): return _digit(c) or 65 <= c <= 70 or 97 <= c <= 102
def _graph(c): return 33 <= c <= 126
def _punct(c): return _graph(c) and not _alnum(c)


UNIWS = {0x85, 0xA0, 0x1680, 0x2028, 0x2029, 0x202F, 0x205F, 0x3000} | set(range(0x2000, 0x200B))


def p_whitespace(c):
    if isinstance(c, int):
        return _ws(c) if c < 128 else c in UNIWS
    return c == 'ws'


def p_control(c):
    if isinstance(c, int):
        return _ctrl(c) if c < 128 else c < 0xA0
    if c == 'ws':
        return None       # U+0085 is a control char, the others are not
    return None           # U+0080..U+009F share a letter with other two-byte chars


CHARP = {
    'is_ascii_digit': _na(_digit), 'is_ascii_alphabetic': _na(_alpha), 'is_ascii_alphanumeric': _na(_alnum),
    'is_ascii_uppercase': _na(_upper), 'is_ascii_lowercase': _na(_lower), 'is_ascii_control': _na(_ctrl),
    'is_ascii_whitespace': _na(_aws), 'is_ascii_hexdigit': _na(_hex), 'is_ascii_punctuation': _na(_punct),
    'is_ascii_graphic': _na(_graph), 'is_ascii': _na(lambda c: True),
    'is_whitespace': p_whitespace, 'is_control': p_control,
    'is_alphabetic': _na(_alpha, None, False), 'is_alphanumeric': _na(_alnum, None, False),
    'is_numeric': _na(_digit, None, False), 'is_uppercase': _na(_upper, None, False),
    'is_lowercase': _na(_lower, None, False),
}


# ---- regular languages of numbers ----------------------------------------------------------------
def num_lang(m, kind):
    key = ('num', kind)
    cache = m.__dict__.setdefault('_langs', {})
    if key in cache:
        return cache[key]
    L = words.Lang(m.al)
    d = L.chars(_na(_digit))
    sign = L.opt(L.chars(_na(lambda c: c in (43, 45))))
    if kind == 'float':
        exp = L.opt(L.seq(L.chars(_na(lambda c: c in (69, 101))), sign, L.plus(d)))

        def ci(s):
            return L.seq(*[L.chars(_na(lambda c, x=x: chr(c).lower() == x)) for x in s])
        dec = L.alt(L.seq(L.plus(d), L.opt(L.seq(L.lit('.'), L.star(d)))), L.seq(L.lit('.'), L.plus(d)))
        r = L.build(L.seq(sign, L.alt(ci('inf'), ci('infinity'), ci('nan'), L.seq(dec, exp))))
    elif kind == 'uint':
        r = L.build(L.seq(L.opt(L.lit('+')), L.plus(d)))
    elif kind == 'int':
        r = L.build(L.seq(sign, L.plus(d)))
    elif kind == 'uint_short':
        r = L.build(L.seq(L.opt(L.lit('+')), d, *[L.opt(d) for _ in range(8)]))
    elif kind == 'int_short':
        r = L.build(L.seq(sign, d, *[L.opt(d) for _ in range(8)]))
    cache[key] = r
    return r


# ---- iterators ------------------------------------------------------------------------------------
def it(kind, *f):
    return ('adt', 'It.' + kind, 0, tuple(f))


OPT = 'Option'


def leaf_next(m, st, v):
    """-> list of (state, item or None, new iterator)"""
    k = v[1]
    f = v[3]
    out = []
    if k in ('It.chars', 'It.bytes', 'It.bytesenum', 'It.charidx'):
        sl = f[0]
        if sl[0] == 'c':
            t = sl[1] if k in ('It.chars', 'It.charidx') else sl[1].encode().decode('latin1')
            if not t:
                return [(st, None, v)]
            return [(st, ('i', ord(t[0])), ('adt', k, 0, (('c', t[1:]),) + f[1:]))]
        if sl[0] != 's':
            return None
        lo, hi = sl[1], sl[2]
        for s, r in m.compare(st.copy(), 'Eq', ('pos', lo, 0, lo, 0), ('pos', hi, 0, lo, 0)) if lo != hi else [(st, ('i', 1))]:
            if r == ('i', 1):
                out.append((s, None, v))
                continue
            if k in ('It.chars', 'It.charidx'):
                n = m.advance_char(s, lo)
                item = ('ch', lo)
            else:
                n = m.mark_at(s, lo, 1)
                item = ('by', lo)
            if k in ('It.bytesenum', 'It.charidx'):
                base = f[1]
                item = ('adt', '()', 0, (('pos', lo, 0, base[1], 0), item))
            out.append((s, item, ('adt', k, 0, (('s', n, hi),) + f[1:])))
        return out
    if k == 'It.rchars':
        sl = f[0]
        if sl[0] != 's':
            return None
        lo, hi = sl[1], sl[2]
        for s, r in m.compare(st.copy(), 'Eq', ('pos', lo, 0, lo, 0), ('pos', hi, 0, lo, 0)) if lo != hi else [(st, ('i', 1))]:
            if r == ('i', 1):
                out.append((s, None, v))
            else:
                n = m.retreat_char(s, lo, hi)
                out.append((s, ('ch', n), ('adt', k, 0, (('s', lo, n),))))
        return out
    if k == 'It.range':
        a, c = f[0], f[1]
        for s, r in m.compare(st.copy(), 'Lt', a, c):
            if r == ('i', 1):
                out.append((s, a, ('adt', k, 0, (m.add(s, a, ('i', 1)), c))))
            else:
                out.append((s, None, v))
        return out
    if k == 'It.vec':
        s2 = st.copy()
        return [(st, None, v), (s2, f[0], v)]
    if k == 'It.arr':
        if not f:
            return [(st, None, v)]
        return [(st, f[0], ('adt', k, 0, f[1:]))]
    if k == 'It.split':
        sl, pred, done, incl = f
        if done == ('i', 1):
            return [(st, None, v)]
        if sl[0] != 's':
            return None
        mm = pat_letters(m, st, pred)
        if mm is None:
            return None
        lo, hi = sl[1], sl[2]
        s1, n, s2 = m.find_letter(st, lo, hi, *mm)
        if not s1.aut.empty():
            e = m.advance_char(s1, n)
            nv = ('adt', k, 0, (('s', e, hi), pred, done, incl))
            if incl == ('i', 2):
                # lines: a carriage return before the line feed is dropped too
                for s, r in char_at_end(m, s1, lo, n, pat_letters(m, s1, ('i', 13))):
                    out.append((s, ('s', lo, m.retreat_char(s, lo, n) if r == ('i', 1) else n), nv))
            else:
                out.append((s1, ('s', lo, e if incl == ('i', 1) else n), nv))
        if not s2.aut.empty():
            if incl != ('i', 0):
                # split_inclusive: no empty last piece
                for s, r in m.compare(s2, 'Eq', ('pos', hi, 0, lo, 0), ('i', 0)):
                    if r == ('i', 1):
                        out.append((s, None, ('adt', k, 0, (sl, pred, ('i', 1), incl))))
                    else:
                        out.append((s, ('s', lo, hi), ('adt', k, 0, (sl, pred, ('i', 1), incl))))
            else:
                out.append((s2, ('s', lo, hi), ('adt', k, 0, (sl, pred, ('i', 1), incl))))
        return out
    return None


def do_next(m, st, fi, t, ref):
    """Iterator::next on a place"""
    if ref[0] != 'ref':
        return None
    v = m.load(st, ref[1], ref[2])
    if v[0] == 'ref':
        return do_next(m, st, fi, t, v)
    if v[0] == 'adt' and v[1] in ADAPT:
        return m.push_call(st, S[ADAPT[v[1]]], [ref], t['dst'], t['to'], t, tag=None)
    if v[0] == 'adt' and v[1].endswith('ops::Range'):
        v = ('adt', 'It.range', 0, v[3])
    if v[0] == 'adt' and v[1].startswith('It.'):
        r = leaf_next(m, st, v)
        if r is None:
            return None
        out = []
        for s, item, nv in r:
            if s.aut.empty():
                continue
            m.store(s, ref[1], ref[2], nv)
            out.append((s, ('adt', OPT, 0, ()) if item is None else ('adt', OPT, 1, (item,))))
        return m.results(fi, t, out)
    return None


def pat_letters(m, st, p):
    """(must, may) letters of a char pattern, or None"""
    if p[0] == 'i':
        return m.al.members(m.cp_pred('Eq', p[1]))
    if p[0] == 'c' and len(p[1]) == 1:
        return m.al.members(m.cp_pred('Eq', ord(p[1])))
    if p[0] == 'adt' and p[1] == '[]' and all(x[0] == 'i' for x in p[3]):
        vs = {x[1] for x in p[3]}

        def pr(c):
            if isinstance(c, int):
                return c in vs
            return None if any(x >= 128 for x in vs) else False
        return m.al.members(pr)
    if p[0] == 'fn':
        n = p[1].split('::')[-1]
        if n in CHARP and 'char' in p[1]:
            return m.al.members(CHARP[n])
    if p[0] == 'clo' or p[0] == 'fn':
        return closure_letters(m, p)
    return None


def closure_letters(m, p):
    """run a char predicate over the language of single chars"""
    if p[0] == 'clo' and any(x[0] not in ('i',) for x in p[2]):
        return None
    cache = m.__dict__.setdefault('_cl', {})
    if p in cache:
        return cache[p]
    fn = m.c.fns.get(p[1])
    if fn is None:
        return None
    import absint
    sub = absint.Machine(m.c, m.al, budget=4000)
    sub.shared = m.shared
    L = words.Lang(m.al)
    aut = L.build(L.any(), (1, 2))
    args = ([p, ('ch', 0)] if p[0] == 'clo' else [('ch', 0)])
    try:
        outs = sub.run(fn, args, aut)
    except absint.Budget:
        return None
    m.analysed |= sub.analysed
    t, f = set(), set()
    for s, v in outs:
        ls = {l for d in s.aut.trans[:1] for (mask, l) in d}
        if s.imp or v[0] != 'i':
            t |= ls
            f |= ls
        elif v[1]:
            t |= ls
        else:
            f |= ls
    r = (frozenset(t - f), frozenset(t))
    cache[p] = r
    return r


def lit_words(m, text):
    return m.lit_lang(text)


def lit_ctx(m, text, pre, post):
    L = words.Lang(m.al)
    for ch in text:
        if not m.al.char_letter(ord(ch))[1]:
            return None
    parts = []
    if pre:
        parts.append(L.star(L.any()))
    parts.append(L.lit(text))
    if post:
        parts.append(L.star(L.any()))
    return L.build(L.seq(*parts))


def fork_not(pairs):
    return [(s, ('i', 1 - v[1]) if v[0] == 'i' and v[1] in (0, 1) else v) for s, v in pairs]


def char_at_start(m, st, lo, hi, mm):
    """[(state, bool)]: is the first char of [lo,hi) in the letter set"""
    out = []
    for s, r in m.compare(st.copy(), 'Eq', ('pos', hi, 0, lo, 0), ('i', 0)):
        if r == ('i', 1):
            out.append((s, ('i', 0)))
            continue
        a = m.letter_filter(s.aut, lo, mm[1])
        if not a.empty():
            x = s.copy()
            x.aut = a
            out.append((x, ('i', 1)))
        a = m.letter_filter(s.aut, lo, m.al.allset - mm[0])
        if not a.empty():
            x = s.copy()
            x.aut = a
            out.append((x, ('i', 0)))
    return out


def char_at_end(m, st, lo, hi, mm):
    out = []
    for s, r in m.compare(st.copy(), 'Eq', ('pos', hi, 0, lo, 0), ('i', 0)):
        if r == ('i', 1):
            out.append((s, ('i', 0)))
            continue
        n = m.retreat_char(s, lo, hi)
        a = m.letter_filter(s.aut, n, mm[1])
        if not a.empty():
            x = s.copy()
            x.aut = m.drop(a, n)
            out.append((x, ('i', 1)))
        a = m.letter_filter(s.aut, n, m.al.allset - mm[0])
        if not a.empty():
            x = s.copy()
            x.aut = m.drop(a, n)
            out.append((x, ('i', 0)))
    return out


def seq_eq(m, st, a, c):
    """string equality"""
    if a[0] == 'c' and c[0] == 'c':
        return [(st, ('i', int(a[1] == c[1])))]
    if a[0] == 'c' and c[0] == 's':
        a, c = c, a
    if a[0] == 's' and c[0] == 'c':
        spec = lit_words(m, c[1])
        if spec is None:
            return m.fork_bool(st, 'literal ' + c[1])
        return m.fork_member(st, a[1], a[2], spec)
    if a[0] == 's' and a == c:
        return [(st, ('i', 1))]
    return None


def panic(m, st, t, what, aut=None):
    s = st
    if aut is not None:
        s = st.copy()
        s.aut = aut
    m.event('panic', s, what=what, sp=t.get('sp'), fn=st.frames[-1].fn.path)


def materialise(m, st, v, lo, t, what):
    """mark for an index value relative to lo; words where it is outside the word panic.  -> mark or None"""
    ap = m.abspos(st, v, lo)
    if ap is None:
        return None
    if ap[1] == 0:
        return ap[0]
    s = st.copy()
    n = m.mark_at(s, ap[0], ap[1])
    if not words.subset(st.aut, m.drop(s.aut, n)):
        panic(m, st, t, what, words.difference(st.aut, m.drop(s.aut, n)))
    st.aut, st.nmark = s.aut, s.nmark
    return n


def boundary(m, st, n, hi, t):
    """drop (and report) the words where mark n sits inside a char"""
    bad = m.letter_filter(st.aut, n, frozenset([m.al.C]))
    if not bad.empty() and not m.same(st, n, hi):
        panic(m, st, t, 'char boundary', bad)
    st.aut = m.letter_filter(st.aut, n, (m.al.allset - {m.al.C}) | {END})


def slice_index(m, st, base, rng, t, is_str, checked=False):
    """-> list of (state, slice) or None; out-of-range words are panics (or None results when checked)"""
    if base[0] == 'c':
        bs = base[1].encode()
        name = rng[1].split('::')[-1] if rng[0] == 'adt' else ''
        ix = rng[3] if rng[0] == 'adt' else ()
        if all(x[0] == 'i' for x in ix[:2]):
            lo, hi = 0, len(bs)
            if name == 'RangeFrom':
                lo = ix[0][1]
            elif name == 'RangeTo':
                hi = ix[0][1]
            elif name == 'Range':
                lo, hi = ix[0][1], ix[1][1]
            else:
                return None
            if 0 <= lo <= hi <= len(bs):
                try:
                    return [(st, ('c', bs[lo:hi].decode()))]
                except UnicodeDecodeError:
                    pass
        return None
    if base[0] != 's' or rng[0] != 'adt':
        return None
    lo, hi = base[1], base[2]
    name = rng[1].split('::')[-1]
    a = c = None
    ix = rng[3]
    if name == 'Range':
        a, c = ix[0], ix[1]
    elif name == 'RangeFrom':
        a = ix[0]
    elif name == 'RangeTo':
        c = ix[0]
    elif name == 'RangeFull':
        return [(st, base)]
    elif name == 'RangeInclusive':
        a, c = ix[0], m.add(st, ix[1], ('i', 1))
    elif name == 'RangeToInclusive':
        c = m.add(st, ix[0], ('i', 1))
    else:
        return None
    st = st.copy()
    na = nc = None
    if a is not None:
        na = materialise(m, st, a, lo, t, 'slice start')
        if na is None:
            return None
    else:
        na = lo
    if c is not None:
        nc = materialise(m, st, c, lo, t, 'slice end')
        if nc is None:
            return None
    else:
        nc = hi
    out = [st]
    for x, y, what in ((na, nc, 'slice start > end'), (nc, hi, 'slice end > len')):
        if x == y:
            continue
        nxt = []
        for s in out:
            bad = m.cmp_filter(s.aut, x, y, lambda d: d > 0, 1)
            if not bad.empty():
                panic(m, s, t, what, bad)
            s.aut = m.cmp_filter(s.aut, x, y, lambda d: d <= 0, 1)
            if not s.aut.empty():
                nxt.append(s)
        out = nxt
    if is_str:
        for s in out:
            for n in (na, nc):
                if n not in (lo, hi):
                    boundary(m, s, n, hi, t)
    return [(s, ('s', na, nc)) for s in out if not s.aut.empty()]


def trim(m, st, v, mm, start=True, end=True):
    lo, hi = v[1], v[2]
    st = st.copy()
    if start:
        lo = m.trim_start(st, lo, hi, *mm)
    if end:
        hi = m.trim_end(st, lo, hi, *mm)
    return [(st, ('s', lo, hi))]


def as_slice(v):
    return v if v[0] in ('s', 'c') else None


def parse_kind(m, g):
    a = g.get('iargs') or g.get('args') or []
    for x in a:
        if isinstance(x, int):
            ty = m.c.types[x]
            if ty['k'] in ('float', 'int', 'uint'):
                return ty['k'], ty['s']
    return None, None


def to_iter(m, v):
    """IntoIterator::into_iter / iter on a value"""
    if v[0] == 'adt' and v[1].startswith('It.'):
        return v
    if v[0] == 'adt' and v[1].endswith('ops::Range'):
        return ('adt', 'It.range', 0, v[3][:2])
    if v[0] in ('s', 'c'):
        return it('bytes', v)
    if v[0] == 'vec':
        return it('vec', v[1])
    if v[0] == 'adt' and v[1] == '[]':
        return ('adt', 'It.arr', 0, v[3])
    if v[0] == 'adt' and v[1] == OPT:
        return ('adt', 'It.arr', 0, v[3])
    if v[0] in ('top', 'unk'):
        return it('vec', v if v[0] == 'unk' else ('top', None))
    return None


def val_of(m, st, v):
    """value behind &mut references"""
    n = 0
    while v[0] == 'ref' and n < 6:
        v = m.load(st, v[1], v[2])
        n += 1
    return v


IDENT = {'Deref::deref', 'AsRef::as_ref', 'Borrow::borrow', 'Clone::clone', 'ToString::to_string',
         'ToOwned::to_owned', 'From::from', 'Into::into', 'String::as_str', 'str::as_bytes', 'String::as_bytes',
         'str::to_owned', 'str::to_string', 'slice::to_vec', 'Cow::from', 'String::into_boxed_str',
         'str::bytes', 'Option::copied', 'Option::cloned', 'Option::as_ref', 'Option::as_deref', 'str::into',
         'Iterator::copied', 'Iterator::cloned', 'Iterator::by_ref', 'Iterator::fuse', 'Vec::as_slice', 'slice::as_ref',
         'Result::as_ref', 'String::from', 'str::as_str', 'Option::as_mut', 'slice::into_vec', 'Box::new', 'hint::must_use'}


STR_EDITS = {'push', 'push_str', 'clear', 'truncate', 'insert', 'insert_str', 'pop', 'remove', 'retain', 'drain',
             'replace_range', 'split_off', 'extend_from_within'}


def try_result(m, g):
    ty = m.c.types[(g.get('args') or [0])[-1]]
    return ty.get('path', '').endswith('result::Result') or ty.get('s', '').split('<')[0].endswith('Result')


def none_():
    return ('adt', OPT, 0, ())


def opt_pair(v):
    return ('adt', OPT, 1, (v,)) if v is not None else ('adt', OPT, 0, ())


def need_variants(m, st, v, name, n=2):
    """[(state, adt value)] for an Option/Result of unknown variant"""
    if v[0] == 'adt':
        return [(st, v)]
    out = []
    for i in range(n):
        s = st.copy()
        if v[0] == 'unk':
            m.note_imp(s, v[1])
        pay = v if v[0] == 'unk' else ('top', None)
        out.append((s, ('adt', name, i, () if name == OPT and i == 0 else (pay,))))
    return out


def apply(m, st, fi, t, g, args):
    name = short(g['decl'])
    R = lambda pairs: m.results(fi, t, pairs)
    one = lambda v: m.results(fi, t, [(st, v)])
    A = args

    if name == 'syn::next':
        return do_next(m, st, fi, t, A[0])
    if name == 'syn::call':
        return m.invoke(st, A[0], A[1:], t['dst'], t['to'], t)
    if name == 'syn::inc':
        v = A[0]
        return one(('i', v[1] + 1) if v[0] == 'i' and v[1] < 3 else ('ir', 1, None))
    if name == 'syn::dec':
        v = A[0]
        if v[0] == 'i':
            return one(('i', v[1] - 1))
        return one(('ir', 0, None))

    own, meth = name.split('::') if '::' in name else ('', name)
    v0 = val_of(m, st, A[0]) if A else None

    # ---- iterators
    if own in ('Iterator', 'DoubleEndedIterator', 'IntoIterator', 'ExactSizeIterator', 'Peekable', 'Chars', 'CharIndices'):
        if meth == 'into_iter' or (own == 'Iterator' and meth == 'by_ref'):
            if A[0][0] == 'ref' and v0[0] == 'adt' and v0[1].startswith('It.'):
                return one(A[0])
            v = to_iter(m, v0)
            return one(v) if v is not None else None
        if meth == 'next':
            return do_next(m, st, fi, t, A[0])
        if meth == 'next_back':
            if v0[0] == 'adt' and v0[1] == 'It.chars' and v0[3][0][0] == 's':
                out = []
                for s, item, nv in leaf_next(m, st, it('rchars', v0[3][0])):
                    if s.aut.empty():
                        continue
                    m.store(s, A[0][1], A[0][2], it('chars', nv[3][0]))
                    out.append((s, opt_pair(item)))
                return R(out)
            return None
        if meth == 'as_str' and v0[0] == 'adt' and v0[1] in ('It.chars', 'It.charidx'):
            return one(v0[3][0])
        if meth == 'peek':
            return m.push_call(st, S['peek'], [A[0]], t['dst'], t['to'], t)
        itv = v0 if v0[0] == 'adt' and (v0[1].startswith('It.')) else to_iter(m, v0)
        if itv is None:
            return None
        if meth == 'enumerate':
            if itv[1] == 'It.bytes' and itv[3][0][0] == 's':
                return one(('adt', 'It.bytesenum', 0, (itv[3][0], ('pos', itv[3][0][1], 0, itv[3][0][1], 0))))
            return one(it('enum', itv, ('i', 0)))
        if meth == 'map':
            return one(it('map', itv, A[1]))
        if meth == 'filter':
            return one(it('filter', itv, A[1]))
        if meth == 'take_while':
            return one(it('takewhile', itv, A[1]))
        if meth == 'take':
            return one(it('take', itv, A[1]))
        if meth == 'peekable':
            return one(it('peekable', itv, ('adt', OPT, 0, ())))
        if meth in ('copied', 'cloned', 'fuse'):
            return one(itv)
        if meth == 'rev':
            if itv[1] == 'It.chars':
                return one(it('rchars', itv[3][0]))
            if itv[1] == 'It.vec':
                return one(itv)
            return None
        if meth == 'skip':
            if A[1][0] == 'i' and A[1][1] <= 2 and itv[1] in ('It.chars', 'It.bytes', 'It.bytesenum', 'It.charidx'):
                cur = [(st, itv)]
                for _ in range(A[1][1]):
                    nxt = []
                    for s, x in cur:
                        for s2, item, nv in leaf_next(m, s, x) or ():
                            nxt.append((s2, nv))
                    cur = nxt
                return R(cur)
            return None
        if meth == 'try_for_each' and not try_result(m, g):
            return None
        if meth in ('any', 'all', 'find', 'for_each', 'try_for_each', 'collect', 'count', 'last', 'position'):
            root = A[0] if A[0][0] == 'ref' else itv
            if meth == 'position':
                if itv[1] == 'It.bytes' and itv[3][0][0] == 's':
                    root = ('adt', 'It.bytesenum', 0, (itv[3][0], ('pos', itv[3][0][1], 0, itv[3][0][1], 0)))
                elif itv[1] == 'It.sym' and getattr(m, 'symidx', False):
                    root = ('adt', 'It.sym', 0, (('t', ('enum', itv[3][0][1])), itv[3][1]))
                else:
                    root = it('enum', itv, ('i', 0))
            if meth == 'last':
                if itv[1] == 'It.chars' and itv[3][0][0] == 's':
                    out = []
                    for s, item, nv in leaf_next(m, st, it('rchars', itv[3][0])):
                        if not s.aut.empty():
                            out.append((s, opt_pair(item)))
                    return R(out)
                return m.push_call(st, S['last'], [root, ('adt', OPT, 0, ())], t['dst'], t['to'], t)
            if meth == 'collect' or meth == 'count':
                return m.push_call(st, S[meth], [root, ('i', 0)], t['dst'], t['to'], t)
            return m.push_call(st, S[meth], [root, A[1]], t['dst'], t['to'], t)
        if meth == 'fold':
            return m.push_call(st, S['fold'], [itv, A[1], A[2]], t['dst'], t['to'], t)
        return None

    if name in ('slice::iter', 'Vec::iter', 'slice::iter_mut'):
        v = to_iter(m, v0)
        return one(v) if v is not None else None

    # ---- identity-like
    if name in IDENT:
        if name == 'str::bytes':
            return one(it('bytes', v0)) if v0[0] in ('s', 'c') else None
        if name == 'Option::as_mut':
            return None
        if name == 'From::from' and v0[0] in ('by', 'ch', 'i', 's', 'c') or name != 'From::from':
            return one(v0)
        return one(v0) if v0[0] in ('unk', 'top') else None

    # ---- Option / Result
    if own == 'Try' and meth == 'branch':
        nm = OPT if 'option' in (g.get('inst') or '') or 'Option' in (g.get('inst') or '').split(' as ')[0] else 'Result'
        out = []
        for s, v in need_variants(m, st, v0, nm):
            if v[1] == OPT:
                out.append((s, ('adt', 'ControlFlow', 0, v[3]) if v[2] == 1 else
                            ('adt', 'ControlFlow', 1, (('adt', OPT, 0, ()),))))
            else:
                out.append((s, ('adt', 'ControlFlow', 0, v[3]) if v[2] == 0 else ('adt', 'ControlFlow', 1, (v,))))
        return R(out)
    if own == 'FromResidual':
        return one(v0 if v0[0] == 'adt' else ('top', None))
    if own == 'Option':
        if meth in ('map', 'and_then', 'filter', 'is_some_and', 'is_none_or', 'map_or', 'map_or_else', 'unwrap_or_else', 'or_else'):
            return m.push_call(st, S['opt_' + meth], [v0] + A[1:], t['dst'], t['to'], t)
        if meth == 'ok_or_else':
            return m.push_call(st, S['ok_or_else'], [v0] + A[1:], t['dst'], t['to'], t)
        if meth in ('insert', 'get_or_insert', 'get_or_insert_with', 'replace') and A[0][0] == 'ref':
            out = []
            for s, v in need_variants(m, st, v0, OPT) if meth != 'insert' else [(st, none_())]:
                if v[2] == 1 and meth != 'replace':
                    x = v
                else:
                    x = ('adt', OPT, 1, (A[1] if meth != 'get_or_insert_with' else ('top', None),))
                m.store(s, A[0][1], A[0][2], x)
                out.append((s, v if meth == 'replace' else ('ref', A[0][1], A[0][2] + (('v', 1), ('f', 0)))))
            return R(out)
        if meth in ('is_some', 'is_none', 'unwrap', 'expect', 'unwrap_or', 'unwrap_or_default', 'ok_or', 'or', 'and', 'take'):
            out = []
            for s, v in need_variants(m, st, v0, OPT):
                sm = v[2] == 1
                if meth == 'is_some':
                    r = ('i', int(sm))
                elif meth == 'is_none':
                    r = ('i', int(not sm))
                elif meth in ('unwrap', 'expect'):
                    if not sm:
                        panic(m, s, t, meth + ' on None')
                        continue
                    r = v[3][0]
                elif meth == 'unwrap_or':
                    r = v[3][0] if sm else A[1]
                elif meth == 'unwrap_or_default':
                    r = v[3][0] if sm else ('top', None)
                elif meth == 'ok_or':
                    r = ('adt', 'Result', 0, v[3]) if sm else ('adt', 'Result', 1, (A[1],))
                elif meth == 'or':
                    r = v if sm else A[1]
                elif meth == 'and':
                    r = A[1] if sm else v
                elif meth == 'take':
                    if A[0][0] == 'ref':
                        m.store(s, A[0][1], A[0][2], ('adt', OPT, 0, ()))
                    r = v
                out.append((s, r))
            return R(out)
        return None
    if own == 'Result':
        if meth in ('map', 'map_err', 'and_then', 'map_or', 'map_or_else', 'unwrap_or_else', 'or_else', 'is_ok_and', 'is_err_and'):
            return m.push_call(st, S['res_' + meth], [v0] + A[1:], t['dst'], t['to'], t)
        if meth in ('is_ok', 'is_err', 'ok', 'err', 'unwrap', 'expect', 'unwrap_or', 'unwrap_or_default', 'or', 'and',
                    'unwrap_err', 'expect_err'):
            out = []
            for s, v in need_variants(m, st, v0, 'Result'):
                o = v[2] == 0
                if meth == 'is_ok':
                    r = ('i', int(o))
                elif meth == 'is_err':
                    r = ('i', int(not o))
                elif meth == 'ok':
                    r = opt_pair(v[3][0] if o else None)
                elif meth == 'err':
                    r = opt_pair(None if o else v[3][0])
                elif meth in ('unwrap', 'expect'):
                    if not o:
                        panic(m, s, t, meth + ' on Err')
                        continue
                    r = v[3][0]
                elif meth == 'unwrap_or':
                    r = v[3][0] if o else A[1]
                elif meth == 'or':
                    r = v if o else A[1]
                elif meth == 'and':
                    r = A[1] if o else v
                elif meth in ('unwrap_err', 'expect_err'):
                    if o:
                        panic(m, s, t, meth + ' on Ok')
                        continue
                    r = v[3][0]
                else:
                    r = v[3][0] if o else ('top', None)
                out.append((s, r))
            return R(out)
        return None
    if name == 'bool::then':
        return m.push_call(st, S['bool_then'], A, t['dst'], t['to'], t)
    if name == 'bool::then_some':
        if v0[0] == 'i':
            return one(opt_pair(A[1] if v0[1] else None))
        s2 = st.copy()
        return R([(st, opt_pair(A[1])), (s2, opt_pair(None))])

    # ---- chars / bytes
    if own in ('char', 'u8') and meth in CHARP:
        if v0[0] in ('ch', 'by'):
            return R(m.fork_char(st, v0, CHARP[meth]))
        if v0[0] == 'i' and 0 <= v0[1] < 128:
            return one(('i', int(bool(CHARP[meth](v0[1])))))
        return R(m.fork_bool(st, m.unk_reason(v0)))
    if meth == 'from_u32' and v0[0] == 'lin':
        s2 = st.copy()
        return R([(st, opt_pair(v0)), (s2, opt_pair(None))])
    if name == 'char::to_digit' and v0[0] == 'ch':
        r = val_of(m, st, A[1])
        if r[0] == 'i' and r[1] in (10, 16):
            out = []
            for a, z, k in ((48, 57, 48), (97, 102, 87), (65, 70, 55))[:1 if r[1] == 10 else 3]:
                s = m.filter_char(st, v0, _na(lambda c: a <= c <= z), True)
                if s is not None:
                    out.append((s, opt_pair(m.lin(s, ((1, v0[1], 'cp'),), -k) if m.digits else ('ir', 0, None))))
            s = m.filter_char(st, v0, _na(_hex if r[1] == 16 else _digit), False)
            if s is not None:
                out.append((s, opt_pair(None)))
            return R(out)
    if name in ('char::len_utf8',):
        if v0[0] == 'ch':
            s = st.copy()
            n = m.advance_char(s, v0[1])
            return R([(s, ('pos', n, 0, v0[1], 0))])
        if v0[0] == 'i':
            return one(('i', len(chr(v0[1]).encode())))
        return one(('ir', 1, None))
    if name in ('char::eq_ignore_ascii_case', 'u8::eq_ignore_ascii_case'):
        v1 = val_of(m, st, A[1])
        if v0[0] in ('ch', 'by') and v1[0] == 'i':
            x = chr(v1[1]).lower()
            return R(m.fork_char(st, v0, _na(lambda c: chr(c).lower() == x)))
        return None
    if name == 'char::from' or (own == 'From' and v0 and v0[0] == 'by'):
        return one(v0)

    # ---- equality
    if own == 'PartialEq' and meth in ('eq', 'ne'):
        a, c = v0, val_of(m, st, A[1])
        r = None
        if a[0] in ('s', 'c') and c[0] in ('s', 'c'):
            r = seq_eq(m, st, a, c)
        elif a[0] in ('i', 'ch', 'by', 'pos', 'ir') and c[0] in ('i', 'ch', 'by', 'pos', 'ir'):
            r = m.compare(st, 'Eq', a, c)
        elif a[0] == 'adt' and c[0] == 'adt' and a[1] == c[1] and a[1] == OPT:
            if a[2] != c[2]:
                r = [(st, ('i', 0))]
            elif a[2] == 0:
                r = [(st, ('i', 1))]
            else:
                x, y = a[3][0], c[3][0]
                if x[0] in ('s', 'c') and y[0] in ('s', 'c'):
                    r = seq_eq(m, st, x, y)
                elif x[0] in ('i', 'ch', 'by', 'pos') and y[0] in ('i', 'ch', 'by', 'pos'):
                    r = m.compare(st, 'Eq', x, y)
        elif a[0] == 'adt' and c[0] == 'adt' and a[1] == c[1] and not a[3] and not c[3]:
            r = [(st, ('i', int(a[2] == c[2])))]
        if r is None:
            r = m.fork_bool(st, m.unk_reason(a, c))
        return R(r if meth == 'eq' else fork_not(r))
    if own == 'PartialOrd' and meth in ('lt', 'le', 'gt', 'ge'):
        return R(m.compare(st, meth.capitalize(), v0, val_of(m, st, A[1])))
    if own == 'RangeInclusive' and meth == 'new':
        return one(('adt', 'std::ops::RangeInclusive', 0, (A[0], A[1], ('i', 0))))
    if own in ('RangeInclusive', 'Range') and meth == 'contains':
        x = val_of(m, st, A[1])
        if v0[0] != 'adt' or len(v0[3]) < 2:
            return None
        lo, hi = v0[3][0], v0[3][1]
        out = []
        for s, r in m.compare(st, 'Ge', x, lo):
            if r == ('i', 0):
                out.append((s, r))
            else:
                out.extend(m.compare(s, 'Le' if own == 'RangeInclusive' else 'Lt', x, hi))
        return R(out)

    # ---- text built up piece by piece is not tracked here
    if own == 'String' and meth in STR_EDITS or name in ('Write::write_fmt', 'Write::write_str', 'Write::write_char',
                                                        'AddAssign::add_assign', 'Extend::extend'):
        r = args0 = A[0] if A else None
        n = 0
        while r is not None and r[0] == 'ref' and n < 6:
            x = m.load(st, r[1], r[2])
            if x[0] != 'ref':
                if x[0] in ('c', 's') or (x[0] == 'adt' and x[1] == 'Text'):
                    m.store(st, r[1], r[2], ('top', None))
                break
            r = x
            n += 1
    # ---- strings and slices
    if own in ('str', 'slice', 'String', 'Vec'):
        v = v0 if v0 is not None else ('top', None)
        if v[0] == 'adt' and v[1] == '[]' and meth == 'contains':
            x = val_of(m, st, A[1])
            if x[0] in ('ch', 'by') and all(y[0] == 'i' for y in v[3]):
                vs = {y[1] for y in v[3]}
                return R(m.fork_char(st, x, _na(lambda c: c in vs, None if any(y > 127 for y in vs) else False)))
            return R(m.fork_bool(st, m.unk_reason(x)))
        if v[0] in ('s', 'c'):
            r = str_model(m, st, fi, t, g, own, meth, v, A)
            if r is not None:
                return r
        if meth in ('is_empty',) and v[0] in ('top', 'unk', 'vec', 'o'):
            return R(m.fork_bool(st, m.unk_reason(v)))
        if meth == 'len':
            return one(m.length(st, v))
        if v[0] == 'vec' or (own == 'Vec' and v[0] == 'top'):
            if meth in ('push',):
                return one(('adt', '()', 0, ()))
            if meth in ('get', 'first', 'last', 'pop'):
                s2 = st.copy()
                el = v[1] if v[0] == 'vec' else ('top', None)
                return R([(st, opt_pair(None)), (s2, opt_pair(el))])
        if name in ('String::new', 'String::with_capacity', 'Vec::new', 'Vec::with_capacity'):
            return one(('top', None))
        if meth in ('push', 'push_str', 'reserve', 'clear', 'truncate', 'insert', 'extend_from_slice') and own in ('String', 'Vec'):
            return one(('adt', '()', 0, ()))
        if meth == 'pop' and own == 'String':
            s2 = st.copy()
            return R([(st, opt_pair(None)), (s2, opt_pair(('top', None)))])
        if name == 'str::from_utf8':
            return None
    if own == 'Index' and meth == 'index':
        rng = val_of(m, st, A[1])
        inst = g.get('inst') or ''
        if v0[0] in ('s', 'c'):
            if rng[0] == 'adt':
                r = slice_index(m, st, v0, rng, t, 'str' in inst and '[T]' not in inst)
                if r is not None:
                    return R(r)
                m.notes.add('index not resolved')
            return None
        if v0[0] == 'vec':
            return one(v0[1] if rng[0] != 'adt' else v0)
        if v0[0] == 'top':
            return one(('top', None))
        return None
    if name in ('memchr::memchr', 'memchr::memchr2', 'memchr::memchr3'):
        hay = val_of(m, st, A[-1])
        bs = [val_of(m, st, x) for x in A[:-1]]
        if hay[0] != 's' or any(x[0] != 'i' for x in bs):
            return None
        vs = {x[1] for x in bs}
        mm = m.al.members(_na(lambda c: c in vs), byte=True)
        s1, n, s2 = m.find_letter(st, hay[1], hay[2], *mm)
        return R([(s1, opt_pair(('pos', n, 0, hay[1], 0))), (s2, opt_pair(None))])
    if name == 'mem::take' or name == 'mem::replace':
        r = v0
        if A[0][0] == 'ref':
            d = none_() if r[0] == 'adt' and r[1] == OPT else ('top', None)
            m.store(st, A[0][1], A[0][2], A[1] if len(A) > 1 else d)
        return one(r)
    if name in ('f64::is_finite', 'f64::is_nan', 'f64::is_infinite', 'f64::is_sign_negative'):
        return R(m.fork_bool(st))
    if own in ('usize', 'u32', 'u64', 'i64', 'u8') and meth in ('saturating_sub', 'saturating_add', 'wrapping_add', 'min', 'max'):
        if v0[0] == 'i' and A[1][0] == 'i' and meth == 'saturating_sub':
            return one(('i', max(0, v0[1] - A[1][1])))
        if meth in ('saturating_add', 'wrapping_add'):
            return one(m.add(st, v0, A[1]))
        if meth == 'saturating_sub':
            out = []
            d = m.add(st, v0, A[1], True)
            for s, r in m.compare(st, 'Lt', d, ('i', 0)):
                out.append((s, ('i', 0) if r == ('i', 1) else d))
            return R(out)
        return None
    if own in ('Ord',) and meth in ('min', 'max'):
        out = []
        for s, r in m.compare(st, 'Le', v0, A[1]):
            out.append((s, v0 if (r == ('i', 1)) == (meth == 'min') else A[1]))
        return R(out)
    if own == 'Default' or (own in ('Vec', 'String') and meth == 'default'):
        return one(('top', None))
    if own in ('Fn', 'FnMut', 'FnOnce') and meth in ('call', 'call_mut', 'call_once'):
        tupv = A[1]
        if tupv[0] == 'adt' and tupv[1] == '()':
            return m.invoke(st, A[0], list(tupv[3]), t['dst'], t['to'], t)
        return None
    if own == 'Argument' and meth.startswith('new_'):
        return one(('adt', 'fmt.Argument.' + meth[4:], 0, (v0,)))
    if name == 'Arguments::new' and len(A) == 2:
        return one(('adt', 'fmt.Arguments', 0, (v0, val_of(m, st, A[1]))))
    if name in ('Arguments::from_str', 'Arguments::new_const', 'Arguments::from_str_nonconst'):
        return one(('adt', 'fmt.Arguments', 0, (('c', None), v0)))
    if name in ('fmt::format', 'Arguments::new', 'Argument::new_display', 'Argument::new_debug', 'Write::write_fmt',
                'rt::new_display', 'format::format_inner'):
        return one(('top', None))
    return None


def str_model(m, st, fi, t, g, own, meth, v, A):
    R = lambda pairs: m.results(fi, t, pairs)
    one = lambda x: m.results(fi, t, [(st, x)])
    is_str = own in ('str', 'String')
    if v[0] == 'c':
        txt = v[1]
        if meth == 'is_empty':
            return one(('i', int(not txt)))
        if meth == 'len':
            return one(('i', len(txt.encode())))
        if meth == 'chars':
            return one(it('chars', v))
        if meth in ('as_bytes', 'as_str', 'trim_matches') and meth != 'trim_matches':
            return one(v)
        if meth == 'contains' and not is_str:
            x = val_of(m, st, A[1])
            if x[0] in ('ch', 'by'):
                vs = set(txt.encode())
                return R(m.fork_char(st, x, _na(lambda c: c in vs)))
        if meth == 'contains' and is_str:
            x = val_of(m, st, A[1])
            if x[0] == 'ch':
                vs = {ord(c) for c in txt}
                return R(m.fork_char(st, x, _na(lambda c: c in vs)))
            if x[0] == 'i':
                return one(('i', int(chr(x[1]) in txt)))
        return None
    lo, hi = v[1], v[2]
    if meth == 'is_empty':
        if lo == hi:
            return one(('i', 1))
        return R(m.compare(st, 'Eq', ('pos', hi, 0, lo, 0), ('i', 0)))
    if meth == 'len':
        return one(('pos', hi, 0, lo, 0))
    if meth == 'chars':
        return one(it('chars', v))
    if meth == 'char_indices':
        return one(it('charidx', v, ('pos', lo, 0, lo, 0)))
    if meth in ('as_bytes', 'as_str', 'as_ref', 'to_vec', 'into_bytes', 'into_boxed_str'):
        return one(v)
    if meth in ('trim', 'trim_start', 'trim_end', 'trim_left', 'trim_right') and is_str:
        mm = m.al.members(p_whitespace)
        return R(trim(m, st, v, mm, meth in ('trim', 'trim_start', 'trim_left'), meth in ('trim', 'trim_end', 'trim_right')))
    if meth in ('trim_ascii', 'trim_ascii_start', 'trim_ascii_end'):
        mm = m.al.members(_na(_aws))
        return R(trim(m, st, v, mm, meth != 'trim_ascii_end', meth != 'trim_ascii_start'))
    p = val_of(m, st, A[1]) if len(A) > 1 else None
    if is_str and meth in ('trim_matches', 'trim_start_matches', 'trim_end_matches', 'trim_left_matches', 'trim_right_matches'):
        mm = pat_letters(m, st, p)
        if mm is None:
            return None
        return R(trim(m, st, v, mm, 'end' not in meth and 'right' not in meth, 'start' not in meth and 'left' not in meth))
    if is_str and meth in ('starts_with', 'ends_with', 'contains', 'strip_prefix', 'strip_suffix', 'find', 'rfind', 'split',
                           'split_inclusive', 'split_once', 'splitn', 'rsplit_once'):
        mm = pat_letters(m, st, p)
        if mm is None and p[0] == 'c':
            txt = p[1]
            if meth in ('starts_with', 'ends_with', 'contains', 'strip_prefix', 'strip_suffix'):
                spec = lit_ctx(m, txt, meth in ('ends_with', 'contains', 'strip_suffix'),
                               meth in ('starts_with', 'contains', 'strip_prefix'))
                if spec is None:
                    return None
                rs = m.fork_member(st, lo, hi, spec)
                if not meth.startswith('strip'):
                    return R(rs)
                out = []
                n = len(txt.encode())
                for s, r in rs:
                    if r == ('i', 0):
                        out.append((s, opt_pair(None)))
                    elif meth == 'strip_prefix':
                        k = m.mark_at(s, lo, n) if n else lo
                        out.append((s, opt_pair(('s', k, hi))))
                    else:
                        k = m.mark_at(s, hi, -n) if n else hi
                        out.append((s, opt_pair(('s', lo, k))))
                return R(out)
            return None
        if mm is None:
            return None
        if meth == 'starts_with':
            return R(char_at_start(m, st, lo, hi, mm))
        if meth == 'ends_with':
            return R(char_at_end(m, st, lo, hi, mm))
        if meth == 'strip_prefix':
            out = []
            for s, r in char_at_start(m, st, lo, hi, mm):
                if r == ('i', 1):
                    n = m.advance_char(s, lo)
                    out.append((s, opt_pair(('s', n, hi))))
                else:
                    out.append((s, opt_pair(None)))
            return R(out)
        if meth == 'strip_suffix':
            out = []
            for s, r in char_at_end(m, st, lo, hi, mm):
                if r == ('i', 1):
                    n = m.retreat_char(s, lo, hi)
                    out.append((s, opt_pair(('s', lo, n))))
                else:
                    out.append((s, opt_pair(None)))
            return R(out)
        if meth in ('contains', 'find', 'split_once'):
            s1, n, s2 = m.find_letter(st, lo, hi, *mm)
            if meth == 'contains':
                if not s1.aut.empty():
                    s1.aut = m.drop(s1.aut, n)
                return R([(s1, ('i', 1)), (s2, ('i', 0))])
            if meth == 'find':
                return R([(s1, opt_pair(('pos', n, 0, lo, 0))), (s2, opt_pair(None))])
            out = [(s2, opt_pair(None))]
            if not s1.aut.empty():
                e = m.advance_char(s1, n)
                out.append((s1, opt_pair(('adt', '()', 0, (('s', lo, n), ('s', e, hi))))))
            return R(out)
        if meth in ('rfind', 'rsplit_once'):
            s1, n, s2 = m.rfind_letter(st, lo, hi, *mm)
            if meth == 'rfind':
                return R([(s1, opt_pair(('pos', n, 0, lo, 0))), (s2, opt_pair(None))])
            out = [(s2, opt_pair(None))]
            if not s1.aut.empty():
                e = m.advance_char(s1, n)
                out.append((s1, opt_pair(('adt', '()', 0, (('s', lo, n), ('s', e, hi))))))
            return R(out)
        if meth in ('split', 'split_inclusive'):
            return one(it('split', v, p, ('i', 0), ('i', int(meth == 'split_inclusive'))))
        return None
    if meth == 'split_at' and is_str:
        st = st.copy()
        n = materialise(m, st, p, lo, t, 'split_at')
        if n is None:
            return None
        if n not in (lo, hi):
            bad = m.cmp_filter(st.aut, n, hi, lambda d: d > 0, 1)
            if not bad.empty():
                panic(m, st, t, 'split_at > len', bad)
            st.aut = m.cmp_filter(st.aut, n, hi, lambda d: d <= 0, 1)
            boundary(m, st, n, hi, t)
        return R([(st, ('adt', '()', 0, (('s', lo, n), ('s', n, hi))))])
    if meth == 'lines' and is_str:
        return one(it('split', v, ('i', 10), ('i', 0), ('i', 2)))
    if meth == 'parse':
        k, s_ = parse_kind(m, g)
        if k is None:
            return None
        val = ('adt', 'Parsed.' + s_, 0, (v,))
        out = []
        if k == 'float':
            for s, r in m.fork_member(st, lo, hi, num_lang(m, 'float')):
                out.append((s, ('adt', 'Result', 0, (val,)) if r == ('i', 1) else ('adt', 'Result', 1, (('top', None),))))
            return R(out)
        for s, r in m.fork_member(st, lo, hi, num_lang(m, k)):
            if r == ('i', 0):
                out.append((s, ('adt', 'Result', 1, (('top', None),))))
                continue
            for s2, r2 in m.fork_member(s, lo, hi, num_lang(m, k + '_short')):
                out.append((s2, ('adt', 'Result', 0, (val,))))
                if r2 == ('i', 0) or s_ in ('u8', 'i8', 'u16', 'i16', 'u32', 'i32'):
                    out.append((s2.copy(), ('adt', 'Result', 1, (('top', None),))))
        return R(out)
    if meth == 'get':
        if p[0] == 'adt':
            n0 = len(m.events)
            r = slice_index(m, st, v, p, t, is_str)
            if r is None:
                del m.events[n0:]
                return None
            bad = m.events[n0:]
            del m.events[n0:]
            out = [(s, opt_pair(x)) for s, x in r]
            for _, s, _k in bad:
                out.append((s, opt_pair(None)))
            return R(out)
        if is_str:
            return None
        ap = m.abspos(st, p, lo)
        if ap is None:
            return None
        return R(byte_get(m, st, lo, hi, ap))
    if meth in ('first', 'last') and not is_str:
        ap = (lo, 0) if meth == 'first' else (hi, -1)
        out = []
        for s, r in m.compare(st, 'Eq', ('pos', hi, 0, lo, 0), ('i', 0)) if lo != hi else [(st, ('i', 1))]:
            if r == ('i', 1):
                out.append((s, opt_pair(None)))
            else:
                n = lo if meth == 'first' else m.mark_at(s, hi, -1)
                out.append((s, opt_pair(('by', n))))
        return R(out)
    if meth == 'contains' and not is_str:
        x = p
        if x[0] == 'i':
            mm = m.al.members(_na(lambda c: c == x[1]), byte=True)
            s1, n, s2 = m.find_letter(st, lo, hi, *mm)
            if not s1.aut.empty():
                s1.aut = m.drop(s1.aut, n)
            return R([(s1, ('i', 1)), (s2, ('i', 0))])
        return None
    if meth == 'is_char_boundary':
        ap = m.abspos(st, p, lo)
        if ap is None:
            return R(m.fork_bool(st, 'is_char_boundary'))
        s = st.copy()
        n = m.mark_at(s, *ap)
        out = []
        rest = words.difference(st.aut, m.drop(s.aut, n))
        if not rest.empty():
            x = st.copy()
            x.aut = rest
            out.append((x, ('i', 0)))
        for x, r in m.compare(s, 'Le', ('pos', n, 0, lo, 0), ('pos', hi, 0, lo, 0)):
            if r == ('i', 0):
                out.append((x, r))
                continue
            a = m.letter_filter(x.aut, n, frozenset([m.al.C]))
            if not a.empty():
                y = x.copy()
                y.aut = m.drop(a, n)
                out.append((y, ('i', 0)))
            a = m.letter_filter(x.aut, n, (m.al.allset - {m.al.C}) | {END})
            if not a.empty():
                y = x.copy()
                y.aut = m.drop(a, n)
                out.append((y, ('i', 1)))
        return R(out)
    if meth == 'eq_ignore_ascii_case' and p[0] == 'c':
        L = words.Lang(m.al)
        spec = L.build(L.seq(*[L.chars(_na(lambda c, x=x: chr(c).lower() == x)) for x in p[1].lower()]))
        return R(m.fork_member(st, lo, hi, spec))
    if meth in ('starts_with', 'ends_with') and not is_str:
        if p[0] == 'adt' and p[1] == '[]' and all(x[0] == 'i' for x in p[3]):
            p = ('c', bytes(x[1] for x in p[3]).decode('latin1'))
        if p[0] == 'c':
            spec = lit_ctx(m, p[1], meth == 'ends_with', meth == 'starts_with')
            if spec is not None:
                return R(m.fork_member(st, lo, hi, spec))
        return None
    return None


def byte_get(m, st, lo, hi, ap):
    out = []
    if ap[1] == 0:
        s = st.copy()
        n = ap[0]
    else:
        s = st.copy()
        n = m.mark_at(s, ap[0], ap[1])
        rest = words.difference(st.aut, m.drop(s.aut, n))
        if not rest.empty():
            x = st.copy()
            x.aut = rest
            out.append((x, opt_pair(None)))
    if s.aut.empty():
        return out
    if n == hi:
        return out + [(s, opt_pair(None))]
    for x, r in m.compare(s, 'Lt', ('pos', n, 0, lo, 0), ('pos', hi, 0, lo, 0)):
        out.append((x, opt_pair(('by', n)) if r == ('i', 1) else opt_pair(None)))
    return out


# ---- floats read from the input: what comparisons and conversions say about them -------------------
# ('adt', 'Parsed.f64', 0, (text,)) the float itself; Fl a constant; FlRem the rest of a division by 1; FlTr its
# whole part; FlAbs its absolute value; FlInt it, cast to an integer type; FlBack that, cast back; FlOp anything else
FLOATS = ('Parsed.f64', 'Fl', 'FlRem', 'FlTr', 'FlAbs', 'FlInt', 'FlBack', 'FlOp')


def is_float(v):
    return v[0] == 'adt' and v[1] in FLOATS


def float_const(bits, ty):
    import struct
    if ty == 'f64':
        x = struct.unpack('<d', struct.pack('<Q', bits & ((1 << 64) - 1)))[0]
    elif ty == 'f32':
        x = struct.unpack('<f', struct.pack('<I', bits & ((1 << 32) - 1)))[0]
    else:
        return ('adt', 'FlOp', 0, ())
    return ('adt', 'Fl', 0, (('c', repr(x)),))


def float_name(v):
    k = v[1]
    if k == 'Parsed.f64':
        return 'F'
    if k in ('FlTr', 'FlAbs', 'FlRem') and v[3][0][1] == 'Parsed.f64':
        return k
    if k == 'FlRem' and v[3][0][1] == 'FlAbs':
        return k
    if k in ('FlInt', 'FlBack') and v[3][0][1] in ('Parsed.f64', 'FlTr'):
        return k + '.' + v[3][1][1]
    if k == 'Fl':
        return v[3][0][1]
    return '?'


def float_fact(st, txt):
    old = st.ghost[0][1].split(',')
    if txt not in old:
        st.ghost = (('c', ','.join(sorted(old + [txt]))),) + tuple(st.ghost[1:])
    return st


def float_cmp(m, st, op, x, y):
    if not (is_float(x) or is_float(y)):
        return None
    if x[0] == y[0] == 'adt' and x[1] == y[1] == 'Fl':
        a, b = float(x[3][0][1]), float(y[3][0][1])
        r = {'Lt': a < b, 'Le': a <= b, 'Gt': a > b, 'Ge': a >= b, 'Eq': a == b, 'Ne': a != b}[op]
        return [(st, ('i', int(r)))]
    n = [float_name(v) if is_float(v) else str(v[1]) if v[0] == 'i' else '?' for v in (x, y)]
    if '?' in n:
        return [(float_fact(st.copy(), 'blind'), ('i', r)) for r in (1, 0)]
    FL = {'Lt': 'Gt', 'Le': 'Ge', 'Gt': 'Lt', 'Ge': 'Le', 'Eq': 'Eq', 'Ne': 'Ne'}
    if not n[0].startswith('F') or (n[1].startswith('F') and n[0] == 'F'):
        n, op = n[::-1], FL[op]
    return [(float_fact(st.copy(), '|'.join((n[0], op, n[1], str(r)))), ('i', r)) for r in (1, 0)]


def float_cast(v, t):
    if t is None:
        return None
    if v[0] == 'i' and t['k'] == 'float':
        return ('adt', 'Fl', 0, (('c', repr(float(v[1]))),))
    if v[0] == 'adt' and v[1] == 'Fl' and t['k'] in ('int', 'uint'):
        return None
    if not is_float(v):
        return None
    if t['k'] == 'float':
        if v[1] == 'FlInt':
            return ('adt', 'FlBack', 0, v[3])
        return v if t['s'] == 'f64' else ('adt', 'FlOp', 0, (v,))
    if t['k'] in ('int', 'uint'):
        if v[1] == 'FlInt':
            return ('adt', 'FlInt', 0, (v[3][0], ('c', v[3][1][1] + '>' + t['s'])))
        if v[1] in ('Parsed.f64', 'FlTr'):
            return ('adt', 'FlInt', 0, (v, ('c', t['s'])))
    return ('adt', 'FlOp', 0, (v,))


def float_neg(v):
    if v[1] == 'Fl':
        return ('adt', 'Fl', 0, (('c', repr(-float(v[3][0][1]))),))
    return ('adt', 'FlOp', 0, (v,))


def float_op(op, x, y):
    if not (is_float(x) or is_float(y)):
        return None
    if op == 'Rem' and is_float(x) and y[0] == 'adt' and y[1] == 'Fl' and abs(float(y[3][0][1])) == 1.0:
        return ('adt', 'FlRem', 0, (x,))
    if op == 'Sub' and is_float(x) and is_float(y) and y[1] == 'FlTr' and y[3][0] == x:
        return ('adt', 'FlRem', 0, (x,))
    if op.endswith('WithOverflow'):
        return ('adt', '()', 0, (('adt', 'FlOp', 0, (x, y)), ('ovf', op)))
    return ('adt', 'FlOp', 0, (x, y))


def float_call(m, st, fi, t, g, args):
    """hook: what the methods of floats say"""
    if g is None or not args:
        return None
    vs = [val_of(m, st, a) for a in args]
    if not any(is_float(v) and v[1] != 'Fl' for v in vs):
        return None
    n = short(g['decl'])
    meth = n.rsplit('::', 1)[-1]
    v = vs[0]
    if not is_float(v):
        return None             # contains: goes through compare
    if n.split('::')[0] in ('f64', 'f32'):
        pairs = None
        if meth in ('fract', 'trunc', 'floor', 'ceil', 'round', 'round_ties_even', 'abs'):
            k = 'FlRem' if meth == 'fract' else 'FlAbs' if meth == 'abs' else 'FlTr'
            return m.results(fi, t, [(st, ('adt', k, 0, (v,)))])
        if meth in ('is_finite', 'is_nan', 'is_infinite'):
            pairs = [(st, 1), (st.copy(), 0)]
            return m.results(fi, t, [(float_fact(s, '%s|%s||%d' % (float_name(v), meth, r)), ('i', r)) for s, r in pairs])
        if meth in ('is_sign_negative', 'is_sign_positive') and v[1] == 'Parsed.f64':
            neg = meth == 'is_sign_negative'
            return m.results(fi, t, [(float_fact(st, 'F|%s|0.0|1' % ('Le' if neg else 'Ge')), ('i', 1)),
                                     (float_fact(st.copy(), 'F|%s|0.0|1' % ('Ge' if neg else 'Le')), ('i', 0))])
    if m.callee_fn(g) is not None or meth in ('lt', 'le', 'gt', 'ge', 'eq', 'ne', 'clone', 'from', 'into', 'contains'):
        return None
    float_fact(st, 'blind')
    return None


INTS = {'u8': (0, 1 << 8), 'u16': (0, 1 << 16), 'u32': (0, 1 << 32), 'u64': (0, 1 << 64), 'u128': (0, 1 << 128),
        'usize': (0, 1 << 32), 'i8': (-1 << 7, 1 << 7), 'i16': (-1 << 15, 1 << 15), 'i32': (-1 << 31, 1 << 31),
        'i64': (-1 << 63, 1 << 63), 'i128': (-1 << 127, 1 << 127), 'isize': (-1 << 31, 1 << 31)}


def float_fits(facts, types):
    """do the facts say that the float is whole and within all the integer types (of a chain of casts)"""
    from fractions import Fraction
    facts = [f.split('|') for f in facts if f.count('|') == 3]
    lo, hi = None, None         # (bound, open)
    whole = False
    NEG = {'Lt': 'Ge', 'Le': 'Gt', 'Gt': 'Le', 'Ge': 'Lt', 'Eq': 'Ne', 'Ne': 'Eq'}

    def low(b, o):
        nonlocal lo
        if lo is None or (b, o) > lo:
            lo = (b, o)

    def high(b, o):
        nonlocal hi
        if hi is None or (b, not o) < (hi[0], not hi[1]):
            hi = (b, o)
    for x, op, y, r in facts:
        if op not in NEG:
            continue
        if r == '0':
            op = NEG[op]
        z = y.split('.')[0] if y.startswith('Fl') else y
        if op == 'Eq' and (x == 'FlRem' and z == '0' or x == 'FlRem' and y in ('0.0', '-0.0') or {x, y} == {'F', 'FlTr'}):
            whole = True
        if op == 'Eq' and 'F' in (x, y) and (x.startswith('FlBack.') or y.startswith('FlBack.')):
            whole = True
            ty = (x if x.startswith('FlBack.') else y)[7:]
            for q in ty.split('>'):
                low(INTS[q][0], False)
                high(INTS[q][1], False)
        try:
            c = Fraction(float(y))
        except (ValueError, OverflowError):
            continue
        if x.startswith('FlInt.') and op in ('Ne', 'Lt') and '>' not in x and int(y) == INTS[x[6:]][1] - 1:
            high(INTS[x[6:]][1], True)
        if x == 'FlAbs' and op in ('Lt', 'Le', 'Eq'):
            low(-c, op == 'Lt')
            high(c, op == 'Lt')
        if x == 'F':
            if op in ('Gt', 'Ge', 'Eq'):
                low(c, op == 'Gt')
            if op in ('Lt', 'Le', 'Eq'):
                high(c, op == 'Lt')
    for q in types:
        a, b = INTS[q]
        if lo is None or hi is None or not (lo[0] >= a or lo[0] > a - 1 or lo == (a - 1, True)):
            return False
        if not (hi[0] < b or hi == (b, True)):
            return False
    return whole
