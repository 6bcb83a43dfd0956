"""Entry points: the options reach the steps they control, and the steps work on the whole input."""
import os, re, time
import absint
import shape, ir, models
from shape import T, ANY, has, Shape
from p_pipe import result_err, tystr, RESULT, is_err, SOFT

PP = 'decode::parser::Parser'
CFGS = ('default', 'alloc', 'all')
NOT_STEP = {'Result', 'Option', 'Try', 'FromResidual', 'Iterator', 'Poll', 'ControlFlow', 'IntoIterator', 'Clone', 'Deref', 'AsRef',
            'Into', 'From', 'ToString', 'Borrow', 'convert', 'ops', 'fmt'}


PRINT = ('_print',)


class Api(Shape):
    """`prims`: functions of the crate that are steps; `ext`: names of outside functions that are steps"""
    def __init__(self, crate, root, prims=(), ext=(), budget=60000):
        super().__init__(crate, self.policy, budget=budget)
        self.root, self.prims, self.ext = root, prims, ext
        self.coarse = True

    def policy(self, fn):
        if fn is self.root:
            return None
        for p in self.prims:
            if fn.path == p or fn.path.endswith('::' + p) or p == DOC and fn.name == 'parse_document':
                return 'step:' + p
        return None

    def unmodelled_out(self):
        return any('print' in n or 'write' in n.lower() for n in self.unmodelled)

    def evs(self, st):
        return dict(self.user(st)).get('ev', ())

    def note(self, st, e):
        d = dict(self.user(st))
        d['ev'] = d.get('ev', ()) + (e,)
        self.setuser(st, tuple(sorted(d.items())))

    def mark(self, st, k, v=True):
        d = dict(self.user(st))
        d[k] = v
        self.setuser(st, tuple(sorted(d.items())))

    def get(self, st, k):
        return dict(self.user(st)).get(k, False)

    def step(self, st, name, args, t, dst, to):
        """the value of a step; a step that returns a Result has two outcomes"""
        x = ('ap', name) + tuple(self.tm(a, st) for a in args)
        if name in PRINT:
            at = shape.fmt_atoms(self, st, args[-1])
            x = ('ap', '_print', None if at is None else tuple(('lit', y) if isinstance(y, str) else y for y in at))
        for i, a in enumerate(args):
            if a[0] == 'ref' and self.mutref(st, t, i):
                self.store(st, a[1], a[2], T(('out', i, x)))
        self.note(st, x)
        fn = st.frames[-1].fn
        ty = tystr(self.c, fn, t['dst'][0]) if not t['dst'][1] else ''
        e = result_err(ty)
        if e is None:
            return self.deliver(st, dst, to, T(x))
        s2 = st.copy()
        self.mark(s2, 'failed')
        return self.deliver(st, dst, to, ('adt', 'Result', 0, (T(('okof', x)),))) + \
            self.deliver(s2, dst, to, ('adt', 'Result', 1, (T(('errof', x)),)))

    def dst_ty(self, st, t):
        return tystr(self.c, st.frames[-1].fn, t['dst'][0]) if not t['dst'][1] else ''

    def mutref(self, st, t, i):
        o = t['args'][i]
        if o.get('o') != 'p' or o['p'][1]:
            return False
        return tystr(self.c, st.frames[-1].fn, o['p'][0]).startswith('&mut')

    def call_opaque(self, st, fn, args, dst, to, t, p):
        if p.startswith('step:'):
            return self.step(st, p[5:], args, t, dst, to)
        return super().call_opaque(st, fn, args, dst, to, t, p)

    def call(self, st, fi, t):
        g = ir.callee(t['f'])
        if g is not None and t.get('to') is not None:
            n = models.short(g['decl'])
            if n.split('::')[-2:] in (['Read', 'by_ref'], ['Write', 'by_ref']):
                return self.deliver(st, t['dst'], t['to'], self.operand(st, fi, t['args'][0]))
            if n.split('::')[-2:] in (['Read', 'take'], ['Read', 'chain']):
                return self.deliver(st, t['dst'], t['to'], T(('ap', n) + tuple(self.tm(self.operand(st, fi, a), st) for a in t['args'])))
            for e in self.ext:
                if n == e or n.endswith('::' + e):
                    if e == 'Default::default' and not self.dst_ty(st, t).endswith('Options'):
                        break
                    args = [self.operand(st, fi, a) for a in t['args']]
                    return self.step(st, e, args, t, t['dst'], t['to'])
        return super().call(st, fi, t)


def run(m, f, slice=30):
    m.deadline = time.time() + slice
    args = [T(('p', 'a%d' % i)) for i in range(1, f.argc + 1)]
    return m.start(f, args, user=())


# ---- comparing terms -------------------------------------------------------------------------------
ALTER = {'trim', 'trim_end', 'trim_start', 'trim_matches', 'trim_start_matches', 'trim_end_matches', 'replace', 'replacen', 'to_lowercase',
         'to_uppercase', 'to_ascii_lowercase', 'to_ascii_uppercase', 'split_at', 'strip_prefix', 'strip_suffix', 'repeat', 'rev'}


def truth(m, st, t):
    if t[0] in ('i', 'c'):
        return bool(t[1])
    k = m.know(st, ('B', t))
    if k is None and t[0] == 'op' and t[1] in ('Not', 'not'):
        k = truth(m, st, t[2])
        return None if k is None else not k
    if k is None:
        fs = m.facts(st)
        for p in (True, False):
            if (('B', t), p) in fs:
                return p
    return k


def param(t):
    """a parameter or a field of one"""
    while t[0] in ('f', 'v'):
        t = t[2]
    return t[0] == 'p' or is_args(t)


def okpart(t):
    """X if the term is the content of the Ok of X"""
    if t[0] == 'okof':
        return t[1]
    if t[0] == 'f' and t[1] == 0 and t[2][0] == 'v' and t[2][1] == 0 and t[2][2][0] == 'ap':
        return t[2][2]
    return t


def same(m, st, x, want):
    """True: the same value; False: another one for some input; None: not known"""
    if x == want:
        return True
    if x[0] == 't' and len(x) == 2:
        return same(m, st, x[1], want)
    if want[0] in ('i', 'c') and x[0] in ('i', 'c'):
        return x[1] == want[1]
    if m.holds(st, 'Eq', x, want) is True:
        return True
    a, b = truth(m, st, x), truth(m, st, want)
    if a is not None and b is not None:
        return a == b
    if x[0] == 'adt' and want[0] != 'adt':
        ad = m.c.adts.get(x[1])
        if ad is None:
            return None
        if len(ad['variants']) > 1:
            k = m.holds(st, 'Eq', ('discr', want), ('i', x[2]))
            if k is True:
                r = True
                for i, y in enumerate(x[3:]):
                    q = same(m, st, y, ('f', i, ('v', x[2], want)))
                    if q is False:
                        return False
                    r = r and q
                return r
            if k is False or param(want) and all(y[0] in ('i', 'c') for y in x[3:]):
                return False
            return None
        rs = [same(m, st, y, ('f', i, want)) for i, y in enumerate(x[3:])]
        if False in rs:
            return False
        return True if all(rs) else None
    if x[0] == 'adt' and want[0] == 'adt' and x[1] == want[1]:
        if x[2] != want[2]:
            return False
        rs = [same(m, st, y, z) for y, z in zip(x[3:], want[3:])]
        return False if False in rs else True if all(rs) else None
    if x[0] in ('i', 'c') and param(want) or param(x) and want[0] in ('i', 'c'):
        return False
    if x[0] in ('not', 'op') and param(want) and only_params(x):
        return False
    if param(x) and param(want):
        return False
    if param(want):
        r = by_samples(m, st, x, want)
        if r is not None:
            return r
    if x[0] == 'ap' and (x[1].split('::')[-1] in ALTER or x[1].split('::')[-2:] in (['Read', 'take'], ['Read', 'chain'])) and any(y == want or same(m, st, y, want) is not None for y in x[2:]):
        return False
    if x[0] == 'ap' and want[0] == 'ap' and x[1] == want[1] and len(x) == len(want):
        rs = [same(m, st, y, z) for y, z in zip(x[2:], want[2:])]
        return False if False in rs else True if all(rs) else None
    if x[0] == want[0] == 'okof':
        return same(m, st, x[1], want[1])
    if x[0] == want[0] == 'out' and x[1] == want[1]:
        return same(m, st, x[2], want[2])
    return None


def evaluate(t, want, v):
    """value of an arithmetic term over `want` and constants, or None"""
    if t == want:
        return v
    if t[0] == 'i':
        return t[1]
    if t[0] in ('op', 'ap') and len(t) == 4:
        a, b = evaluate(t[2], want, v), evaluate(t[3], want, v)
        if a is None or b is None:
            return None
        k = t[1].split('::')[-1]
        if k in ('Div', 'Rem') and b == 0:
            return None
        g = {'Add': lambda: a + b, 'Sub': lambda: max(0, a - b), 'Mul': lambda: a * b, 'Div': lambda: a // b, 'Rem': lambda: a % b,
             'min': lambda: min(a, b), 'max': lambda: max(a, b), 'saturating_add': lambda: a + b, 'saturating_mul': lambda: a * b,
             'saturating_sub': lambda: max(0, a - b), 'wrapping_add': lambda: a + b, 'BitOr': lambda: a | b, 'BitAnd': lambda: a & b,
             'BitXor': lambda: a ^ b, 'Shl': lambda: a << b, 'Shr': lambda: a >> b}.get(k)
        return g() if g else None
    return None


def by_samples(m, st, x, want):
    """is the arithmetic term x the same as `want` at every value the facts allow"""
    seen = 0
    for v in (1, 2, 3, 4, 5, 8, 12, 16):
        y = evaluate(x, want, v)
        if y is None:
            return None
        ok = True
        for a, p in m.facts(st):
            if a[0] in ('Lt', 'Eq'):
                l, r = evaluate(a[1], want, v), evaluate(a[2], want, v)
                if l is not None and r is not None and ((l < r) if a[0] == 'Lt' else (l == r)) != p:
                    ok = False
        if not ok:
            continue
        seen += 1
        if y != v:
            return False
    return True if seen else None


def only_params(t):
    if t[0] in ('i', 'c', 'p'):
        return True
    if t[0] == 'not':
        return only_params(t[1])
    if t[0] == 'op':
        return only_params(t[2]) and only_params(t[3]) if len(t) > 3 else only_params(t[2])
    return t[0] in ('f', 'v') and (only_params(t[2]) or is_args(t[2]))


def is_args(t):
    return t == ('ap', 'Parser::parse')


class Spec:
    """collects what a specification found wrong or could not follow, over all outcomes of one function"""
    def __init__(self):
        self.bad, self.unsure, self.n = {}, {}, 0

    def need(self, m, st, x, want, what):
        """x must be `want`"""
        r = same(m, st, x, want) if x is not None else None
        if r is False:
            self.bad[what] = shape.show(x, 80)
        elif r is None:
            self.unsure[what] = shape.show(x, 120) if x is not None else '?'
        return r

    def report(self, chk, f, cfg, name, m):
        chk.analysed |= m.analysed
        chk.analysed.add(f.path)
        chk.count('outcomes', self.n)
        for k, d in sorted(self.bad.items()):
            chk.violation('%s: %s' % (f.path, k), '%s [%s]: %s%s' % (f.path, cfg, k, ' (%s)' % d if d else ''), name)
        if not self.bad:
            if self.unsure or not self.n:
                chk.undecided(name, '; '.join('%s: %s' % x for x in sorted(self.unsure.items())) or 'no successful outcome is followed')
            else:
                chk.ok(name, '%d successful outcomes' % self.n)


def find_fn(c, path):
    for f in c.fnlist:
        if f.path == path:
            return f
    return None


def par(c, f, sub):
    """the parameter whose type contains `sub`"""
    for i in range(1, f.argc + 1):
        if sub in tystr(c, f, i):
            return ('p', 'a%d' % i)
    return None


def fld(c, path, name, of):
    for i, x in enumerate(c.adts[path]['variants'][0]['f']):
        if x[0] == name:
            return ('f', i, of)
    raise KeyError(name)


def variant(c, path, name):
    for i, v in enumerate(c.adts[path]['variants']):
        if v['n'] == name:
            return i
    raise KeyError(name)


OPTS = 'options::Options'
EXP = 'options::ExpandPaths'
VALIDATE, DOC, EXPAND, DESER, DIRECT = ('validate_indentation_with_size', 'Parser::<\'a>::parse_document', 'path_expand::expand_paths',
                                        'Deserialize::deserialize', 'direct::from_str')


def oks(m, outs):
    for st, v in outs:
        if m.get(st, 'failed'):
            continue
        e = is_err(m, st, v)
        if e is not True:
            yield st, v, e


def steps_of(m, st, name):
    return [e for e in m.evs(st) if e[1] == name]


def decode_steps(chk, c, cfg, f, name, only=None):
    s, o = par(c, f, 'str'), par(c, f, 'Options')
    m = Api(c, f, ('scanner::scan', VALIDATE, DOC, EXPAND, DIRECT), (DESER,))
    sp = Spec()
    strict, indent, expand = [fld(c, OPTS, x, o) for x in ('strict', 'indent', 'expand_paths')]
    safe = variant(c, EXP, 'Safe')
    pf = {x: m.field(PP, x) + 3 for x in ('lines', 'strict', 'indent_size', 'mark_literal_keys', 'idx')}
    for st, v, e in oks(m, run(m, f, chk.slice(40))):
        r = m.tm(v[3][0], st) if v[0] == 'adt' and v[3] else None
        if e is None or r is None:
            sp.unsure['result'] = shape.show(m.tm(v, st), 80)
            continue
        sp.n += 1
        if steps_of(m, st, DIRECT) and not steps_of(m, st, DOC):
            d = steps_of(m, st, DIRECT)[-1]
            sp.need(m, st, d[2], s, 'the direct deserializer runs on another text')
            sp.need(m, st, d[3], o, 'the direct deserializer runs with other options')
            continue
        if not (r[0] == 'okof' and r[1][1] == DESER and len(r[1]) == 3):
            sp.unsure['the value returned'] = shape.show(r, 120)
            continue
        dv = r[1][2]
        known = truth(m, st, strict)
        scans = steps_of(m, st, 'scanner::scan')
        lines = scans[-1] if scans else None
        if lines is None:
            sp.unsure['scan'] = 'no scan is seen'
            continue
        sp.need(m, st, lines[2], s, 'the scanner runs on another text than the input')
        vs = steps_of(m, st, VALIDATE)
        if known is not False and not vs:
            sp.bad['the indentation is not validated although strict mode may be on'] = ''
        if known is not True and vs:
            sp.bad['the indentation is validated although strict mode may be off'] = ''
        for x in vs:
            sp.need(m, st, x[2], lines, 'the validated lines are not those of the input')
            if not has(x[3], s) and shape.bases(x[3]) == set():
                sp.bad['the raw lines validated are not those of the input'] = shape.show(x[3], 80)
            if m.holds(st, 'Lt', ('i', 0), indent) is False and x[4] in (('i', 0), ('i', 2)):
                continue            # the validator takes 0 for 2
            sp.need(m, st, x[4], indent, 'the indentation is validated with another step than options.indent')
        if is_direct(dv):
            continue
        if not (dv[0] == 'adt' and len(dv) == 4):
            sp.unsure['the value deserialized'] = shape.show(dv, 120)
            continue
        x = dv[3]
        es = m.holds(st, 'Eq', ('discr', expand), ('i', safe))
        if x[0] == 'okof' and x[1][1] == EXPAND:
            if es is not True:
                sp.bad['dotted keys are expanded although expand_paths may be off'] = ''
            sp.need(m, st, x[1][3], strict, 'dotted keys are expanded with another strictness than options.strict')
            x = x[1][2]
        elif es is not False:
            if steps_of(m, st, EXPAND):
                sp.bad['the expanded value is not the one deserialized'] = ''
            elif x[0] == 'ap' and x[1] == DOC:
                sp.bad['dotted keys are not expanded although expand_paths may be on'] = ''
            else:
                sp.unsure['expansion'] = shape.show(x, 120)
        if not (x[0] == 'ap' and x[1] == DOC and x[2][0] == 'adt'):
            sp.unsure['the value parsed'] = shape.show(x, 120)
            continue
        p = x[2]
        sp.need(m, st, p[pf['lines']], lines, 'the parser runs on other lines than those of the input')
        sp.need(m, st, p[pf['idx']], ('i', 0), 'the parser does not start at the first line')
        sp.need(m, st, p[pf['strict']], strict, 'the parser runs with another strictness than options.strict')
        if m.holds(st, 'Lt', ('i', 0), indent) is not False and same(m, st, indent, ('i', 0)) is not True:
            sp.need(m, st, p[pf['indent_size']], indent, 'the parser runs with another indentation step than options.indent')
        mk = truth(m, st, p[pf['mark_literal_keys']])
        if mk is not None and es is not None and mk != es:
            sp.bad['quoted keys are %s although expand_paths is %s' % ('marked' if mk else 'not marked', 'on' if es else 'off')] = ''
        elif mk is None or es is None:
            sp.unsure['marking of quoted keys'] = shape.show(p[pf['mark_literal_keys']], 60)
    if only:
        sp.bad, sp.unsure = [{k: v for k, v in d.items() if only in k} for d in (sp.bad, sp.unsure)]
    sp.report(chk, f, cfg, name, m)


def is_direct(t):
    return t[0] == 'adt' and 'Direct' in t[1]


def io_steps(chk, c, cfg, f, name):
    """decode_from_reader, encode_to_writer, encode_to_string"""
    sp = Spec()
    o = par(c, f, 'Options')
    a = lambda i: ('p', 'a%d' % i)
    if f.path == 'decode_from_reader':
        m = Api(c, f, ('decode_from_str', 'de::from_str'), ('Read::read_to_string', 'io::read_to_string'))
        for st, v, e in oks(m, run(m, f, chk.slice(20))):
            r = m.tm(v[3][0], st) if v[0] == 'adt' and v[3] else m.tm(v, st)
            if r[0] == 'okof':
                r = r[1]
            sp.n += 1
            if not (r[0] == 'ap' and r[1] in ('decode_from_str', 'de::from_str')):
                sp.unsure['result'] = shape.show(r, 100)
                continue
            rd = steps_in(m, st, 'read_to_string')
            if len(rd) != 1:
                sp.unsure['reading'] = '%d reads' % len(rd)
                continue
            sp.need(m, st, rd[0][2], a(1), 'another reader is read')
            sp.need(m, st, r[2], ('out', 1, rd[0]) if rd[0][1].startswith('Read') else ('okof', rd[0]), 'the text decoded is not what was read')
            sp.need(m, st, r[3], o, 'decodes with other options than those given')
    else:
        m = Api(c, f, ('encode_to_string', 'to_string_streaming'), ('Write::write_all', 'Write::write'))
        for st, v, e in oks(m, run(m, f, chk.slice(20))):
            sp.n += 1
            ws = steps_of(m, st, 'Write::write_all')
            part = steps_of(m, st, 'Write::write')
            if part and not ws:
                sp.bad['the text is written with write, which may write only a part of it'] = ''
                continue
            if len(ws) != 1:
                es = steps_of(m, st, 'encode_to_string') + steps_of(m, st, 'to_string_streaming')
                if es and m.holds(st, 'Eq', ('len', ('okof', es[-1])), ('i', 0)) is True:
                    pass
                elif not ws and not part and not m.unmodelled:
                    sp.bad['nothing is written'] = ''
                else:
                    sp.unsure['writing'] = '%d writes' % len(ws)
                continue
            w = ws[0]
            sp.need(m, st, w[2], a(1), 'written to another writer')
            x = w[3]
            if x[0] == 'okof' and x[1][0] == 'ap' and x[1][1] in ('encode_to_string', 'to_string_streaming'):
                sp.need(m, st, x[1][2], a(2), 'another value is encoded')
                sp.need(m, st, x[1][3], o, 'encodes with other options than those given')
            else:
                es = steps_of(m, st, 'encode_to_string') + steps_of(m, st, 'to_string_streaming')
                sp.need(m, st, x, ('okof', es[-1]) if es else ('i', -1), 'the text written is not the encoded text')
    sp.report(chk, f, cfg, name, m)


def encode_steps(chk, c, cfg, f, name):
    sp = Spec()
    m = Api(c, f, ('into_string',), ('Serialize::serialize',))
    o = par(c, f, 'Options')
    for st, v, e in oks(m, run(m, f, chk.slice(20))):
        sp.n += 1
        se = steps_of(m, st, 'Serialize::serialize')
        r = m.tm(v[3][0], st) if v[0] == 'adt' and v[3] else m.tm(v, st)
        if len(se) != 1:
            sp.bad['the value is serialized %d times' % len(se)] = ''
            continue
        x = se[0]
        sp.need(m, st, x[2], ('p', 'a1'), 'another value is serialized')
        ser = x[3]
        if ser[0] == 'adt' and 'Serializer' in ser[1]:
            ad = m.c.adts[ser[1]]['variants'][0]['f']
            for i, y in enumerate(ad):
                if y[0] == 'opts':
                    sp.need(m, st, ser[i + 3], o, 'serialized with other options than those given')
                if y[0] == 'indent':
                    sp.need(m, st, ser[i + 3], ('i', 0), 'the document does not start at indentation 0')
        else:
            sp.unsure['serializer'] = shape.show(ser, 80)
        if not (r[0] == 'ap' and r[1] == 'into_string'):
            sp.unsure['result'] = shape.show(r, 80)
    sp.report(chk, f, cfg, name, m)


def library(chk):
    chk.rule('decode: scan, validate the indentation iff options.strict with options.indent, parse with options.strict and options.indent, '
             'expand dotted keys iff options.expand_paths is Safe with options.strict, deserialize that value')
    chk.rule('decode_from_reader decodes what the reader yields, encode_to_writer writes all of the encoded text, with the options given')
    for cfg in CFGS:
        c = chk.crate(cfg)
        for path, g in (('decode_from_str', decode_steps), ('de::from_str', decode_steps), ('de::from_str_via_internal_value', decode_steps),
                        ('de::direct::from_str', decode_steps), ('decode_from_reader', io_steps), ('encode_to_writer', io_steps),
                        ('encode_to_string', encode_steps), ('ser::stream::to_string_streaming', encode_steps)):
            f = find_fn(c, path)
            if f is None:
                continue
            name = '%s [%s]' % (path, cfg)
            chk.guard(name, g, chk, c, cfg, f, name)


def validated(chk):
    chk.rule('in strict mode every decoding function has the indentation of the lines of its input validated with options.indent before it succeeds')
    for cfg in CFGS:
        c = chk.crate(cfg)
        for path in ('decode_from_str', 'de::from_str', 'de::from_str_via_internal_value', 'de::direct::from_str'):
            f = find_fn(c, path)
            if f is not None:
                name = '%s [%s]: validation' % (path, cfg)
                chk.guard(name, decode_steps, chk, c, cfg, f, name, 'validat')


# ---- command line and WebAssembly binding --------------------------------------------------------------
TOJSON = ('to_string', 'to_string_pretty')
FRONT = ('decode_from_str', 'encode_to_string', 'serde_json::from_str', 'de::from_str', 'serde_json::to_string', 'ser::to_string',
         'ser::to_string_pretty', 'serde_json::to_string_pretty', 'serde_json::to_value', 'Default::default', 'decode_from_reader', 'encode_to_writer')
CLI = FRONT + ('Parser::parse', '_print', '_eprint', 'Read::read_to_string', 'Read::read_to_end', 'Read::read', 'Write::write_all',
               'Write::write_fmt', 'File::open', 'stdin', 'fs::read_to_string', 'io::read_to_string', 'File::create', 'fs::write')
LIMIT = 10 * 1024 * 1024


def steps_in(m, st, *names):
    return [e for e in m.evs(st) if e[1].split('::')[-1] in names]


def is_step(t, *names):
    return t[0] == 'ap' and t[1].split('::')[-1] in names


def opt_fields(m, c, t):
    """{field: term} of an Options value built here"""
    if t[0] != 'adt' or not t[1].endswith('Options'):
        return None
    lib = OPTNAMES
    return dict(zip(lib, t[3:])) if len(t) == len(lib) + 3 else None


OPTNAMES = []


def default_opts(sp, m, st, o, names):
    """options without a flag keep the library default"""
    want = {'indent': lambda x: x == ('i', 2), 'key_folding': lambda x: x[0] == 'adt' and x[2] == 0,
            'flatten_depth': lambda x: x[0] == 'adt' and x[2] == 0, 'expand_paths': lambda x: x[0] == 'adt' and x[2] == 0,
            'strict': lambda x: x in (('i', 1), ('c', True))}
    for n in names:
        x = o[n]
        if x[0] in ('i', 'c', 'adt'):
            if not want[n](x):
                sp.bad['option %s is set without a flag for it' % n] = shape.show(x, 60)
        elif not has_default(x):
            sp.unsure['option ' + n] = shape.show(x, 60)


def has_default(x):
    while x[0] in ('f', 'v'):
        x = x[2]
    return x[0] == 'ap' and x[1].endswith('Default::default')


def altered(t, *steps):
    """a step's text changed by a function that changes texts"""
    if t[0] == 'ap' and t[1].split('::')[-1] in ALTER:
        return any(is_step(okpart(y), *steps) or altered(y, *steps) for y in t[2:] if isinstance(y, tuple))
    return False


def front_value(sp, m, st, val, decode, text, pretty):
    """val is the JSON text of the decoded input, or the TOON text of the parsed JSON input; -> the options used"""
    val = okpart(val)
    if altered(val, 'encode_to_string', *TOJSON):
        sp.bad['the text given out is not that of the library'] = shape.show(val, 60)
        return None
    if decode:
        if not is_step(val, *TOJSON):
            sp.unsure['the output'] = shape.show(val, 100)
            return None
        if pretty is not None:
            pk = truth(m, st, pretty)
            isp = val[1].endswith('pretty')
            if pk is None:
                sp.bad['the output is %s whether pretty is asked for or not' % ('pretty-printed' if isp else 'compact')] = ''
            elif pk != isp:
                sp.bad['pretty-printing is the opposite of what is asked for'] = ''
        x = val[2]
        x = okpart(x)
        if not is_step(x, 'decode_from_str'):
            if is_step(x, 'from_str'):
                sp.bad['the input is not decoded by the library'] = shape.show(x, 60)
            else:
                sp.unsure['the output'] = shape.show(val, 100)
            return None
        sp.need(m, st, x[2], text, 'the text decoded is not the input')
        return x[3]
    if not is_step(val, 'encode_to_string'):
        sp.unsure['the output'] = shape.show(val, 100)
        return None
    x = val[2]
    x = okpart(x)
    if not is_step(x, 'from_str'):
        sp.unsure['the value encoded'] = shape.show(x, 100)
    else:
        sp.need(m, st, x[2], text, 'the JSON parsed is not the input')
    return val[3]


def cli_main(chk, c, f, name):
    sp = Spec()
    m = Api(c, f, (), CLI)
    ad = [a for a in c.adts if a.split('::')[-1] == 'Args' and len(c.adts[a]['variants']) == 1]
    if not ad:
        return chk.undecided(name, 'no Args structure')
    for st, v, e in oks(m, run(m, f, chk.slice(60))):
        ps = steps_of(m, st, 'Parser::parse')
        if len(ps) != 1:
            sp.unsure['arguments'] = 'parsed %d times' % len(ps)
            continue
        sp.n += 1
        A = lambda n: fld(c, ad[0], n, ps[0])
        d = truth(m, st, A('decode'))
        pr = steps_of(m, st, '_print')
        wr = steps_in(m, st, 'write_all', 'write_fmt', 'create', 'write')
        if len(pr) != 1 or wr:
            if not wr and not m.unmodelled_out():
                sp.bad['%s printed on success' % ('nothing is' if not pr else '%d things are' % len(pr))] = ''
            else:
                sp.unsure['output'] = '%d prints, %d writes' % (len(pr), len(wr))
            continue
        at = pr[0][2]
        if at is None:
            sp.unsure['output'] = 'the text printed is not followed'
            continue
        vals = [x for x in at if x[0] != 'lit']
        lits = ''.join(x[1] for x in at if x[0] == 'lit')
        if lits.strip('\n') or len(vals) != 1:
            sp.bad['something else than the result is printed'] = repr(lits)[:40]
            continue
        rd = steps_in(m, st, 'read_to_string')
        other = steps_in(m, st, 'read_to_end', 'read', 'decode_from_reader')
        if len(rd) != 1 or other:
            sp.unsure['input'] = '%d reads' % (len(rd) + len(other))
            continue
        rd = rd[0]
        src = rd[2]
        text = ('out', 1, rd) if rd[1].startswith('Read::') else ('okof', rd)
        has_input = m.holds(st, 'Eq', ('discr', A('input')), ('i', 1))
        if has_input is None:
            sp.bad['the input is read without looking whether a file is given'] = shape.show(src, 60)
        elif has_input and not has(src, A('input')):
            sp.bad['a file is given and something else is read'] = shape.show(src, 60)
        elif not has_input and not is_step(src, 'stdin', 'lock'):
            sp.bad['no file is given and something else than standard input is read'] = shape.show(src, 60)
        for n in wrapped(src):
            if n in PARTIAL:
                sp.bad['only a part of the input may be read (%s)' % n] = shape.show(src, 60)
            elif n not in WHOLE:
                sp.unsure['the reader'] = shape.show(src, 80)
        if d is None:
            sp.bad['the direction does not depend on the decode flag'] = ''
            continue
        val = vals[0]
        while val[0] in ('x', 't', 'v') and len(val) == 2:
            val = val[1]
        o = front_value(sp, m, st, val, d, text, A('pretty'))
        if o is None:
            continue
        of = opt_fields(m, c, o)
        if of is None:
            sp.unsure['options'] = shape.show(o, 100)
            continue
        default_opts(sp, m, st, of, ('indent', 'key_folding', 'flatten_depth', 'expand_paths'))
        if d:
            sp.need(m, st, of['strict'], A('strict'), 'strict is not what the flag says')
        else:
            delim_of(sp, c, m, st, of['delimiter'], A('delimiter'), ad[0])
    sp.report(chk, f, 'cli', name, m)


DELIMS = []
# what a reader may go through: the first are known to yield all of the input, the second to yield less or more
WHOLE = {'open', 'stdin', 'lock', 'new', 'with_capacity', 'by_ref', 'as_ref', 'as_path', 'deref', 'deref_mut', 'borrow', 'borrow_mut', 'clone', 'unwrap',
         'expect', 'read_to_string', 'parse', 'okof', 'as_mut', 'as_deref', 'as_str', 'to_path_buf', 'from', 'into', 'as_os_str'}
PARTIAL = {'take', 'chain', 'empty', 'repeat', 'skip', 'split_off'}


def wrapped(t):
    """the functions a reader goes through"""
    while t[0] in ('okof', 'f', 'v', 'as', 'out', 'x', 't') or t[0] == 'ap':
        if t[0] == 'ap':
            yield t[1].split('::')[-1]
            if len(t) < 3 or not isinstance(t[2], tuple):
                return
            t = t[2]
        else:
            y = [a for a in t[1:] if isinstance(a, tuple)]
            if not y:
                return
            t = y[-1]


def delim_of(sp, c, m, st, x, arg, args):
    """the delimiter has the name of the argument's variant"""
    da = [a for a in c.adts if a.split('::')[-1] == 'DelimArg']
    if x[0] != 'adt' or not da:
        sp.unsure['delimiter'] = shape.show(x, 60)
        return
    for i, v in enumerate(c.adts[da[0]]['variants']):
        k = m.holds(st, 'Eq', ('discr', arg), ('i', i))
        possible = k is not False
        if possible and DELIMS[x[2]] != v['n']:
            sp.bad['delimiter %s is used where %s is asked for' % (DELIMS[x[2]], v['n'])] = ''


class Wasm(Api):
    def step(self, st, name, args, t, dst, to):
        if self.holds(st, 'Lt', ('i', LIMIT), ('len', ('p', 'a1'))) is not False and not self.get(st, 'early'):
            self.mark(st, 'early', name)
        return super().step(st, name, args, t, dst, to)


def wasm_fn(chk, c, f, decode, name):
    sp = Spec()
    m = Wasm(c, f, (), FRONT)
    a = lambda i: ('p', 'a%d' % i)
    outs = run(m, f, chk.slice(60))
    for st, v in outs:
        fs = m.facts(st)
        lim = [x for x, p in fs if x[0] == 'Lt' and ('len', a(1)) in (x[1], x[2])]
        early = m.get(st, 'early')
        if early:
            ks = [x for x in lim]
            other = [x for x, p in fs if has(x, a(1)) and x not in lim and not any(has(x, e) for e in m.evs(st))]
            derived = [x for x in other if x[0] == 'Lt' and any(y[0] == 'len' and y[1][0] in ('ap', 'chars') and has(y[1], a(1))
                                                                for y in x[1:])]
            if ks or not other or derived:
                sp.bad['%s runs before the size of the input is known to be within %d bytes' % (early, LIMIT)] = \
                    ', '.join(shape.show_facts(frozenset(y for y in fs if y[0] in ks)))[:80]
            else:
                sp.unsure['size'] = 'the test of the size is not followed'
        e = is_err(m, st, v)
        if e is True and not m.get(st, 'failed') and not m.evs(st):
            r = m.holds(st, 'Lt', ('i', LIMIT), ('len', a(1)))
            if r is not True:
                if lim:
                    sp.bad['an input within the limit is rejected'] = ', '.join(shape.show_facts(fs))[:80]
                else:
                    sp.unsure['rejection'] = ', '.join(shape.show_facts(fs))[:80]
    for st, v, e in oks(m, outs):
        sp.n += 1
        val = m.tm(v[3][0], st) if v[0] == 'adt' and v[3] else m.tm(v, st)
        o = front_value(sp, m, st, val, decode, a(1), a(3) if decode else None)
        if o is None:
            continue
        of = opt_fields(m, c, o)
        if of is None:
            sp.unsure['options'] = shape.show(o, 100)
            continue
        default_opts(sp, m, st, of, ('indent', 'key_folding', 'flatten_depth', 'expand_paths'))
        if decode:
            sp.need(m, st, of['strict'], a(2), 'strict is not what the caller says')
        else:
            sp.need(m, st, of['strict'], a(3), 'strict is not what the caller says')
            k = truth(m, st, a(2))
            x = of['delimiter']
            if x[0] != 'adt' or k is None and x[0] != 'adt':
                sp.unsure['delimiter'] = shape.show(x, 60)
            elif DELIMS[x[2]] != ('Pipe' if k else 'Comma') or k is None:
                sp.bad['delimiter %s is used where %s is asked for' % (DELIMS[x[2]], 'Pipe' if k else 'Comma')] = ''
    sp.report(chk, f, 'wasm', name, m)


def learn(chk):
    lib = chk.crate('default')
    OPTNAMES[:] = [x[0] for x in lib.adts[OPTS]['variants'][0]['f']]
    DELIMS[:] = [v['n'] for v in lib.adts['options::Delimiter']['variants']]


def fronts(chk):
    chk.rule('the command line prints, once, the result of the library on the whole input with the options of the flags')
    chk.rule('the WebAssembly functions return the result of the library on the argument with the options given, and run nothing on more '
             'than %d bytes' % LIMIT)
    learn(chk)
    c = chk.crate('default', 'toon_cli')
    f = find_fn(c, 'main')
    if f:
        chk.guard('main', cli_main, chk, c, f, 'main')
    c = chk.crate('default', 'toon_wasm')
    for path, d in (('json_to_toon', False), ('toon_to_json', True)):
        f = find_fn(c, path)
        if f:
            chk.guard(path, wasm_fn, chk, c, f, d, path)


# ---- the parser keeps its options ------------------------------------------------------------------------
def reach(c, roots):
    by = {f.path: f for f in c.fnlist}
    seen, work = set(), [f.path for f in roots]
    while work:
        p = work.pop()
        if p in seen or p not in by:
            continue
        seen.add(p)
        f = by[p]
        work += [g.path for g in c.fnlist if g.kind == 'Closure' and g.path.startswith(p + '::')]
        for b in f.blocks:
            g = ir.callee(b['tm']['f']) if b['tm']['t'] == 'call' else None
            if g:
                work += [x for x in (g.get('inst'), g.get('decl')) if x]
    return [by[p] for p in sorted(seen)]


def kept(chk):
    chk.rule('no function that runs while a document is parsed assigns to the strictness or indentation step of the parser')
    for cfg in CFGS:
        c = chk.crate(cfg)
        chk.guard('parser options [%s]' % cfg, kept_one, chk, c, cfg)


def kept_one(chk, c, cfg):
    name = 'parser options [%s]' % cfg
    fields = [x[0] for x in c.adts[PP]['variants'][0]['f']]
    ix = {fields.index(n): n for n in ('strict', 'indent_size', 'mark_literal_keys') if n in fields}
    roots = [f for f in c.fnlist if f.name == 'parse_document' and 'Parser' in f.path]
    fs = reach(c, roots)
    n = bad = 0
    for f in fs:
        for b in f.blocks:
            for x in b['ss']:
                if x.get('s') != '=' or not x['p'][1]:
                    continue
                n += 1
                e = [y for y in x['p'][1] if isinstance(y, (list, tuple))]
                if e and e[-1][0] == 'f' and e[-1][1] in ix and 'Parser<' in tystr(c, f, x['p'][0]) and len(e) == 1:
                    bad += 1
                    chk.violation('%s: %s changed' % (f.path, ix[e[-1][1]]), '%s [%s] assigns to Parser.%s while a document is parsed'
                                  % (f.path, cfg, ix[e[-1][1]]), name)
        chk.analysed.add(f.path)
    if not bad:
        if len(fs) < 10:
            chk.undecided(name, 'only %d functions are reached' % len(fs))
        else:
            chk.ok(name, '%d assignments to fields in %d functions' % (n, len(fs)))
