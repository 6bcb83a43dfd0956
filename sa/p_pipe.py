"""Fallible steps: an error that a step returns reaches the caller; the steps of the API are chained as promised."""
import re, time
import absint
import shape, ir, models
from shape import T, ANY, has, Shape

RESULT = re.compile(r'^(std|core)::result::Result<|^error::Result<|^Result<|io::Result<')
NOT_STEP = {'Result', 'Option', 'Try', 'FromResidual', 'Iterator', 'Poll', 'ControlFlow'}
# results whose Err only says "not that": a number that does not parse, an index that is not there
SOFT = re.compile(r'ParseIntError|ParseFloatError|ParseBoolError|Utf8Error|TryFromIntError|Infallible|TryFromSliceError|CharTryFromError|TryFromCharError')
PP = 'decode::parser::Parser'


def split_args(s):
    """generic arguments of the outermost type"""
    i = s.find('<')
    out, d, cur = [], 0, ''
    for ch in s[i + 1:-1]:
        if ch in '<([{':
            d += 1
        if ch in '>)]}' and not cur.endswith('-'):
            d -= 1
        if ch == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


def result_err(s):
    """the error type if `s` is a Result type"""
    if not s or not re.match(r'^[\w:]*\bResult<', s):
        return None
    a = split_args(s)
    return a[1] if len(a) > 1 else 'Error'


def tystr(c, f, l):
    l = f.locals[l]
    return c.types[l['ty'] if isinstance(l, dict) else l].get('s') or ''


class Pipe(Shape):
    def __init__(self, crate, root, budget=60000):
        super().__init__(crate, self.policy, budget=budget)
        self.root = root
        self.parser = False
        self.seen = {}
        self.coarse = True
        self.notext = True

    def policy(self, fn):
        if fn is self.root or self.inline(fn):
            return None
        return 'pure'

    def inline(self, fn):
        return self.parser and 'Parser' in fn.path and not ret_err(self.c, fn)

    def get(self, st, k, d=frozenset()):
        return dict(self.user(st)).get(k, d)

    def put(self, st, **kw):
        d = dict(self.user(st))
        d.update(kw)
        self.setuser(st, tuple(sorted(d.items())))

    def step_of(self, st, fi, t, g, args):
        """name of the step if this call is one"""
        if g is None or t.get('to') is None:
            return None
        fn = st.frames[fi].fn
        if fn.synthetic or t['dst'][1]:
            return None
        e = result_err(tystr(self.c, fn, t['dst'][0]))
        if e is None or SOFT.search(e):
            return None
        name = models.short(g['decl'])
        own = name.split('::')[0] if '::' in name else ''
        if own in NOT_STEP or name.split('::')[-1] in ('from_residual', 'branch'):
            return None
        return name

    def call(self, st, fi, t):
        g = ir.callee(t['f'])
        if g is not None:
            args = None
            name = self.step_of(st, fi, t, g, args)
            if name and not name.startswith('syn::'):
                args = [self.operand(st, fi, a) for a in t['args']]
                r = self.on_step(st, fi, t, g, name, args)
                if r is not None:
                    return r
        return super().call(st, fi, t)

    def on_step(self, st, fi, t, g, name, args):
        v = self.pure(st, g['decl'], args)
        sp = tuple(t.get('sp') or ())
        self.seen[name] = self.seen.get(name, 0) + 1
        on = None
        if args and not self.optype(st.frames[fi].fn, t['args'][0]).startswith('&mut') and v != T(ANY):
            on = self.tm(args[0], st)
            if on[0] in ('i', 'c', 'any'):
                on = None
        s2 = st.copy()
        self.put(s2, failed=self.get(s2, 'failed') | {(name, sp, on)})
        if on is not None:
            # the same thing is tried again in another way: what counts is how that ends
            self.put(st, failed=frozenset(x for x in self.get(st, 'failed') if x[2] != on))
        x = v[1]
        out = self.deliver(st, t['dst'], t['to'], ('adt', 'Result', 0, (T(('okof', x)),)))
        return out + self.deliver(s2, t['dst'], t['to'], ('adt', 'Result', 1, (T(('errof', x)),)))

    def optype(self, fn, o):
        if o.get('o') != 'p':
            return ''
        return tystr(self.c, fn, o['p'][0]) if not o['p'][1] else ''


def is_err(m, st, v):
    n = 0
    while v[0] == 'ref' and n < 4:
        v = m.load(st, v[1], v[2])
        n += 1
    if v[0] == 'adt' and v[1] in ('Result', 'std::result::Result', 'core::result::Result'):
        return v[2] == 1
    if v[0] == 't':
        return m.holds(st, 'Eq', ('discr', v[1]), ('i', 1))
    return None


def ret_err(c, f):
    return result_err(tystr(c, f, 0))


def walk(m, c, f):
    args = [T(('p', 'a%d' % i)) for i in range(1, f.argc + 1)]
    objs = []
    if ret_err(c, f) is None:
        m.parser = True
        args[0] = ('obj', 0)
        objs = [m.struct(PP, 'self')]
    return m.start(f, args, user=(), objs=objs)


def swallow(chk, c, f, cfg, name):
    try:
        m = Pipe(c, f)
        m.deadline = time.time() + chk.slice(20)
        outs = walk(m, c, f)
    except absint.Budget:
        m = Pipe(c, f)
        m.deadline = time.time() + chk.slice(20)
        m.watch = lambda a: False
        outs = walk(m, c, f)
    for kind, st, kw in m.events:
        if kind == 'panic' and m.get(st, 'failed'):
            nm, sp = sorted(m.get(st, 'failed'), key=repr)[0][:2]
            chk.violation('%s: %s panics' % (f.path, nm), '%s [%s] panics when %s fails (%s)'
                          % (f.path, cfg, nm, ':'.join(map(str, sp[:2]))), name)
            return
    bad = {}
    unsure = 0
    for st, v in outs:
        failed = m.get(st, 'failed')
        if not failed:
            continue
        if m.parser:
            e = m.load(st, (0, shape.OBJ), ())
            e = e[3][m.field(PP, 'error')] if e[0] == 'adt' else e
            e = e[2] == 1 if e[0] == 'adt' else e[1] != ('p', 'self.error') and None or \
                m.holds(st, 'Eq', ('discr', e[1]), ('i', 1)) is True
        else:
            e = is_err(m, st, v)
        for nm, sp, _ in failed:
            chk.count('failing paths followed')
            if e is False:
                bad[nm] = sp
            elif e is None:
                unsure += 1
    chk.count('fallible calls', len(m.seen))
    chk.analysed.add(f.path)
    for nm, sp in sorted(bad.items()):
        chk.violation('%s: %s' % (f.path, nm), '%s [%s] can succeed although %s failed (%s)'
                      % (f.path, cfg, nm, ':'.join(map(str, sp[:2]))), name)
    if not bad:
        if unsure:
            chk.undecided(name, '%d paths with an unreadable result' % unsure)
        else:
            chk.ok(name, '%d fallible calls' % len(m.seen))


def calls_fallible(c, f):
    for b in f.blocks:
        t = b['tm']
        if t['t'] == 'call' and not b.get('cl') and t.get('to') is not None and not t['dst'][1]:
            e = result_err(tystr(c, f, t['dst'][0]))
            if e and not SOFT.search(e):
                return True
    return False


def candidates(c):
    for f in c.fnlist:
        if f.kind == 'Closure':
            continue
        e = ret_err(c, f)
        if e is None and not (f.argc and tystr(c, f, 1).startswith('&mut') and 'decode::parser::Parser' in tystr(c, f, 1)
                              and calls_fallible(c, f)):
            continue
        if e is not None and SOFT.search(e):
            continue
        if calls_fallible(c, f):
            yield f


# ---- checks ---------------------------------------------------------------------------------------
CFGS = ('default', 'alloc', 'all')


def swallowed(chk):
    chk.rule('whenever a fallible step has failed, the function returns an error (or records one in the parser), unless the '
             'same value is tried again by a later step; it neither succeeds nor panics')
    for cfg, name in [(k, 'toon_rs') for k in CFGS] + [('default', 'toon_cli'), ('default', 'toon_wasm')]:
        c = chk.crate(cfg, name)
        fs = sorted(candidates(c), key=lambda f: f.path)
        for i in range(0, len(fs), 24):
            part = fs[i:i + 24]

            def ob(part=part, c=c, cfg=cfg, name=name):
                for f in part:
                    n = '%s [%s]' % (f.path, cfg if name == 'toon_rs' else name)
                    chk._guard(n, swallow, chk, c, f, cfg, n)
            chk.guard('functions %d.. [%s %s]' % (i, cfg, name), ob)


class Wrap(Pipe):
    """a function that runs the document parser"""
    def policy(self, fn):
        if fn.name == 'parse_document':
            return 'document'
        if fn is self.root or fn.path.startswith(PP):
            return None
        return 'pure'

    def call_opaque(self, st, fn, args, dst, to, t, p):
        if p == 'document':
            r = shape.final_ref(self, st, args[0])
            x = self.load(st, r[1], r[2])
            if x[0] == 'adt':
                self.runs.append((st.copy(), x, t))
                f = list(x[3])
                f[self.field(PP, 'error')] = T(('p', 'E'))
                f[self.field(PP, 'idx')] = T(ANY)
                self.store(st, r[1], r[2], x[:3] + (tuple(f),))
            self.put(st, doc=True)
            return self.deliver(st, dst, to, T(('doc',)))
        return super().call_opaque(st, fn, args, dst, to, t, p)


def doc_callers(c):
    for f in c.fnlist:
        if f.kind == 'Closure' or ret_err(c, f) is None:
            continue
        for b in f.blocks:
            t = b['tm']
            if t['t'] == 'call' and not b.get('cl'):
                g = ir.callee(t['f'])
                if g and g['decl'].endswith('::parse_document'):
                    yield f
                    break


def document_errors(chk):
    chk.rule('a function that runs the document parser succeeds only if the parser recorded no error, and then with the '
             'value the parser returned')
    for cfg in CFGS:
        c = chk.crate(cfg)
        for f in doc_callers(c):
            name = '%s [%s]' % (f.path, cfg)
            chk.guard(name, doc_errors, chk, c, f, cfg, name)


def doc_errors(chk, c, f, cfg, name):
    m = Wrap(c, f)
    m.runs = []
    m.deadline = time.time() + chk.slice(30)
    args, objs = [], []
    for i in range(1, f.argc + 1):
        s = tystr(c, f, i)
        if 'parser::Parser<' in s:
            x = m.struct(PP, 'self')
            if s.startswith('&'):
                args.append(('obj', len(objs)))
                objs.append(x)
            else:
                args.append(x)
        else:
            args.append(T(('p', 'a%d' % i)))
    outs = m.start(f, args, user=(), objs=objs)
    chk.analysed |= m.analysed
    bad = und = None
    n = 0
    for st, v in outs:
        if not m.get(st, 'doc', False):
            continue
        n += 1
        e = m.holds(st, 'Eq', ('discr', ('p', 'E')), ('i', 0))
        k = is_err(m, st, v)
        if k is False and e is not True:
            bad = 'returns the parsed value without looking at the recorded error' if e is None else \
                'returns the parsed value although an error was recorded'
        elif k is False and v[0] == 'adt' and v[3][0] != T(('doc',)):
            und = 'the value returned is not followed'
        elif k is None:
            und = 'the result is not followed'
    if bad:
        chk.violation('%s: recorded error' % f.path, '%s [%s] %s' % (f.path, cfg, bad), name)
    elif und or not n:
        chk.undecided(name, und or 'the parser is not run')
    else:
        chk.ok(name, '%d outcomes' % n)
