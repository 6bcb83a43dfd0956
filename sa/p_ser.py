"""Serialization: every value that serde hands over becomes its counterpart."""
import os, time
import shape, ir, models
from shape import T, ANY, has
import p_api
from p_api import Api, tystr, CFGS

PRIMS = ('line', 'line_kv', 'line_list_item', 'line_key_only', 'format_string', 'format_key', 'format_f64', 'to_value',
         'try_scalar_to_string', 'key_to_string')
BITS = {'i8': (True, 7), 'i16': (True, 15), 'i32': (True, 31), 'i64': (True, 63), 'i128': (True, 127), 'isize': (True, 63),
        'u8': (False, 8), 'u16': (False, 16), 'u32': (False, 32), 'u64': (False, 64), 'u128': (False, 128), 'usize': (False, 64)}
INTS = tuple(BITS)
METHODS = INTS + ('bool', 'f32', 'f64', 'char', 'str', 'bytes', 'none', 'some', 'unit', 'unit_struct', 'unit_variant', 'newtype_struct',
                  'newtype_variant', 'seq', 'tuple', 'tuple_struct', 'tuple_variant', 'map', 'struct', 'struct_variant')
SAME = {'into', 'from', 'to_string', 'to_owned', 'clone', 'as_str', 'as_ref', 'deref', 'into_boxed_str', 'String', 'from_f64', 'unwrap'}


class Ser(Api):
    def __init__(self, crate, root, budget=20000):
        super().__init__(crate, root, (), (), budget)
        self.extra = set()

    def policy(self, fn):
        if fn is self.root:
            return None
        if fn.name in PRIMS:
            return 'step:' + fn.name
        if fn.name in ('end', 'serialize_value', 'serialize_entry') and 'StreamingSerializer' in str(self.own_fields(fn)):
            return 'step:end'
        return None

    def own_fields(self, fn):
        a = self.c.adts.get(own_type(self.c, fn))
        return [self.c.types[x[1]].get('s', '') for x in a['variants'][0]['f'] if x[1] is not None] if a else ''

    def call(self, st, fi, t):
        g = ir.callee(t['f'])
        if g is not None and t.get('to') is not None:
            n = models.short(g['decl'])
            last = n.split('::')[-1]
            if last.startswith('serialize') and g.get('inst') not in self.c.fns or last == 'custom' and False:
                args = [self.operand(st, fi, a) for a in t['args']]
                return self.step(st, n, args, t, t['dst'], t['to'])
            if last in ('is_finite', 'is_nan', 'is_infinite'):
                x = self.tm(self.operand(st, fi, t['args'][0]), st)
                if not has(x, ANY):
                    return self.deliver(st, t['dst'], t['to'], T(('ap', last, x)))
        return super().call(st, fi, t)

    def rvalue(self, st, fi, v, dst=None):
        out = Api.rvalue(self, st, fi, v, dst)
        if v['r'] == 'cast' and 'ty' in v:
            ty = self.c.types[v['ty']].get('s', '')
            if ty in BITS or ty in ('f32', 'f64'):
                return [(s, T(('as', ty, x[1])) if x[0] == 't' and x[1] != ANY else x) for s, x in out]
        return out

    def on_push(self, st, t, ref, old, vals):
        self.note(st, ('put',) + tuple(self.tm(v, st) for v in vals))

    def selfobj(self, st):
        return self.tm(self.load(st, (0, shape.OBJ), ()), st)


def own_type(c, f):
    return tystr(c, f, 1).split('<')[0].lstrip('&').split(' ')[-1] if f.argc else ''


def trait_of(f):
    return f.path.split(' as ')[1].split('>')[0].split('<')[0].split('::')[-1] if ' as ' in f.path else ''


def start(m, f, slice=20):
    c = m.c
    own = own_type(c, f)
    args = [T(('p', 'a%d' % i)) for i in range(1, f.argc + 1)]
    objs = []
    if own in c.adts and len(c.adts[own]['variants']) == 1:
        o = m.struct(own, 'self')
        if tystr(c, f, 1).startswith('&'):
            args[0], objs = ('obj', 0), [o]
        else:
            args[0] = o
    m.deadline = time.time() + slice
    return m.start(f, args, user=(), objs=objs)


# ---- the specification -------------------------------------------------------------------------------
class Wrong(Exception):
    pass


class Vague(Exception):
    pass


def converted(t, arg, ty, textual=False):
    """t is arg, converted without loss"""
    x, cur = t, []
    while x != arg:
        if x[0] == 'as':
            cur.append(x[1])
            x = x[2]
        elif x[0] == 'ap' and len(x) == 3 and x[1].split('::')[-1] in SAME | {'to_string', 'format'}:
            x = x[2]
        elif x[0] == 'adt' and len(x) == 4 and x[1].endswith('Number'):
            x = x[3]
        elif x[0] == 'f' and x[1] == 0 and x[2][0] == 'v' and x[2][2][0] == 'ap':
            x = x[2][2]
        else:
            break
    if x != arg:
        if not has(t, arg):
            raise Wrong('%s does not come from the argument' % shape.show(t, 60))
        raise Vague(shape.show(t, 60))
    at = ty
    for to in reversed(cur):
        if not lossless(at, to):
            raise Wrong('the conversion from %s to %s may change the number' % (at, to))
        at = to


def lossless(a, b):
    if a == b:
        return True
    if a in BITS and b in BITS:
        (s, n), (u, k) = BITS[a], BITS[b]
        return (u or not s) and k >= n
    if b == 'f64':
        return a == 'f32' or a in BITS and BITS[a][1] <= 53
    return b == 'f32' and a in BITS and BITS[a][1] <= 24


def variant(m, t):
    if t[0] == 'adt' and t[1].split('::')[-1] == 'Value':
        vs = m.c.adts[t[1]]['variants'] if t[1] in m.c.adts else next(a['variants'] for n, a in m.c.adts.items() if n.endswith(t[1]))
        return vs[t[2]]['n'], t[3:]
    return None, ()


class Spec:
    """what one Serializer method must deliver, for a sink that builds a value, a text, or a line"""
    def __init__(self, m, f):
        self.m, self.f, self.c = m, f, m.c
        ret = tystr(m.c, f, 0)
        fields = m.own_fields(f) or []
        inner = ret[ret.find('<') + 1:]
        self.kind = 'value' if 'Value' in inner.split(',')[0] else 'line' if any('LineWriter' in x for x in fields) else \
            'text' if any('Option<' in x and 'String' in x for x in fields) else None
        self.raw = self.kind == 'text' and not any('Options' in x for x in fields)
        self.method = f.name[len('serialize_'):]

    def result(self, st, v):
        """the text or value delivered"""
        m = self.m
        if self.kind == 'value':
            return payload(m.tm(v, st))
        if self.kind == 'text':
            o = m.selfobj(st)
            if o[0] != 'adt':
                raise Vague(shape.show(o, 60))
            got = [x for x in o[3:] if x[0] == 'adt' and x[1].endswith('Option') and x[2] == 1]
            if not got:
                raise Wrong('nothing is delivered') if any(x == ('p', 'self.out') or x[0] == 'adt' and x[1].endswith('Option') for x in o[3:]) else Vague(shape.show(o, 60))
            return got[0][3]
        ls = [e for e in m.evs(st) if e[0] == 'ap' and e[1].startswith('line')]
        if len(ls) != 1:
            raise Wrong('%d lines are written' % len(ls))
        if ls[0][1] != 'line' or len(ls[0]) != 5:
            raise Vague(shape.show(ls[0], 60))
        if ls[0][3] != ('p', 'self.indent'):
            raise Wrong('the line is indented by %s' % shape.show(ls[0][3], 60)) if ls[0][3][0] in ('i', 'op') else Vague(shape.show(ls[0][3], 60))
        return ls[0][4]

    def check(self, st, v):
        m, k = self.m, self.method
        x = m.tm(v, st)
        ok = x[0] != 'adt' or x[2] == 0
        failed = m.get(st, 'failed')
        A = lambda i: ('p', 'a%d' % i)
        if x[0] != 'adt':
            # the result of a step, handed on
            if k in ('some', 'newtype_struct') and x[0] == 'ap' and x[1].endswith('serialize') and x[2] == A(2 if k == 'some' else 3):
                return
            raise Vague(shape.show(x, 60))
        if not ok:
            if failed or k in INTS and BITS[k][1] > 64:
                return
            if self.kind == 'text' and (not self.raw or k in ('bytes', 'newtype_variant', 'seq', 'tuple', 'tuple_struct',
                                                              'tuple_variant', 'map', 'struct', 'struct_variant')):
                return
            if self.raw and k in ('f32', 'f64') and self.infinite(st, A(2), k):
                return
            raise Wrong('an error is returned although nothing failed')
        if failed:
            return          # D08
        if k == 'bool':
            self.boolean(st, self.result(st, v), A(2))
        elif k in INTS:
            self.number(self.result(st, v), A(2), k)
        elif k in ('f32', 'f64'):
            t = self.result(st, v)
            if self.null(t):
                if not self.infinite(st, A(2), k):
                    raise Wrong('a finite number may become null')
            else:
                self.number(t, A(2), k)
        elif k in ('char', 'str'):
            self.string(t=self.result(st, v), arg=A(2))
        elif k == 'unit_variant':
            self.string(self.result(st, v), A(4))
        elif k in ('none', 'unit', 'unit_struct'):
            t = self.result(st, v)
            if not self.null(t):
                raise Wrong('%s is delivered instead of null' % shape.show(t, 60)) if t[0] in ('adt', 'c', 'i') else Vague(shape.show(t, 60))
        elif k in ('some', 'newtype_struct'):
            self.inner(st, payload(x), A(2 if k == 'some' else 3))
        elif k == 'newtype_variant':
            self.entry(st, v, A(4), A(5))
        elif k == 'bytes':
            if self.kind == 'value':
                t = self.result(st, v)
                n, p = variant(m, t)
                if n != 'Array':
                    raise Wrong('bytes become %s' % (n or shape.show(t, 60)))
                if not has(p, A(2)):
                    raise Vague(shape.show(t, 60))
        elif k in ('seq', 'tuple', 'tuple_struct', 'map', 'struct', 'tuple_variant', 'struct_variant'):
            t = payload(x)
            self.fresh(st, t, k)
            if k.endswith('variant') and not has(t, A(4)) and not any(has(e, A(4)) for e in m.evs(st)):
                raise Wrong('the name of the variant is dropped')
        else:
            raise Vague(k)

    def fresh(self, st, t, k):
        """the collection starts empty"""
        for y in t[3:] if t[0] == 'adt' else ():
            if y[0] == 'adt' and not y[1].endswith('Option'):
                self.fresh(st, y, k)
            elif y[0] in ('new', 'mut', 'grow') and self.m.know(st, ('Eq', ('len', y), ('i', 0))) is not True:
                raise Wrong('the collection may not be empty at the start') if y[0] != 'new' else Vague(shape.show(y, 60))

    def null(self, t):
        return t == ('c', 'null') if self.kind != 'value' else variant(self.m, t)[0] == 'Null'

    def infinite(self, st, arg, k):
        """do the facts say that the argument is not a finite number"""
        if any(a == ('B', ('ap', 'is_finite', arg)) and p for a, p in self.m.facts(st)):
            return False
        for a, p in self.m.facts(st):
            if not has(a, arg):
                continue
            if a[0] == 'B' and a[1][0] == 'ap':
                n = a[1][1]
                if n == 'is_finite' and not p or n in ('is_nan', 'is_infinite') and p:
                    return True
            if a[0] == 'Eq' and a[1][0] == 'discr' and a[1][1][0] == 'ap' and a[1][1][1].endswith('from_f64') and p == (a[2] == ('i', 0)):
                return True
            if a[0] not in ('B',):
                raise Vague(shape.show(a, 60))
        return False

    def boolean(self, st, t, arg):
        if self.kind == 'value':
            n, p = variant(self.m, t)
            if n is None:
                raise Vague(shape.show(t, 60))
            if n != 'Bool':
                raise Wrong('a boolean becomes %s' % n)
            t = p[0]
            if t == arg:
                return
        if self.kind != 'value' and (t == arg or t[0] == 'ap' and t[1].split('::')[-1] == 'to_string' and t[2:] == (arg,)):
            return
        for p in (True, False):
            if t in ((('c', 'true'), ('i', 1))[self.kind == 'value'], (('c', 'false'), ('i', 0))[self.kind == 'value']):
                val = t in (('c', 'true'), ('i', 1))
                k = self.m.know(st, ('B', arg))
                if k is None:
                    raise Wrong('%s is delivered whatever the argument' % shape.show(t, 20))
                if k != val:
                    raise Wrong('%s is delivered for %s' % (shape.show(t, 20), str(k).lower()))
                return
        if t[0] in ('c', 'i', 'not'):
            raise Wrong('%s is delivered for a boolean' % shape.show(t, 40))
        raise Vague(shape.show(t, 60))

    def number(self, t, arg, k):
        if self.kind == 'value':
            n, p = variant(self.m, t)
            if n is None:
                raise Vague(shape.show(t, 60))
            if n != 'Number':
                raise Wrong('a number becomes %s' % n)
            t = p[0]
        if k[0] == 'f' and t[0] == 'ap' and t[1].endswith('format_f64'):
            t = t[2]
        converted(t, arg, k)

    def string(self, t, arg):
        if self.kind == 'value':
            n, p = variant(self.m, t)
            if n is None:
                raise Vague(shape.show(t, 60))
            if n != 'String':
                raise Wrong('a string becomes %s' % n)
            t = p[0]
        elif not self.raw:
            if t[0] != 'ap' or not t[1].endswith('format_string'):
                if t == arg:
                    raise Wrong('the text is not quoted where it must be')
                raise Vague(shape.show(t, 60))
            if t[3][0] in ('i', 'c') or t[3][0] == 'adt':
                raise Wrong('the text is formatted for %s, whatever the delimiter' % shape.show(t[3], 30))
            t = t[2]
        same_text(t, arg)

    def inner(self, st, t, arg):
        if self.kind == 'line':
            if not any(e[0] == 'ap' and e[1].endswith('serialize') and e[2] == arg for e in self.m.evs(st)):
                raise Wrong('the inner value is not serialized')
            return
        if t[0] == 'okof' and t[1][1].endswith('serialize') and t[1][2] == arg:
            return
        if not has(t, arg):
            raise Wrong('the inner value is dropped')
        if t[0] == 'adt':
            raise Wrong('%s is delivered instead of the inner value' % shape.show(t, 60))
        raise Vague(shape.show(t, 60))

    def entry(self, st, v, key, val):
        if self.kind == 'value':
            n, p = variant(self.m, self.result(st, v))
            if n is None:
                raise Vague('')
            if n != 'Object':
                raise Wrong('the variant becomes %s' % n)
            return put_entry(self.m, st, key, val)
        es = [e for e in self.m.evs(st) if e[0] == 'ap' and e[1].endswith('serialize_entry')]
        if not es:
            raise Vague('no entry is seen')
        if es[0][3] != key or es[0][4] != val:
            raise Wrong('the entry is %s' % shape.show(es[0], 80)) if es[0][3][0] in ('p', 'c') and es[0][4][0] in ('p', 'c') else Vague(shape.show(es[0], 80))


def payload(x):
    return x[3] if x[0] == 'adt' and len(x) > 3 else x


def same_text(t, arg):
    while t != arg:
        if t[0] == 'ap' and len(t) == 3 and t[1].split('::')[-1] in SAME:
            t = t[2]
        elif t[0] == 'ap' and t[1].split('::')[-1] in p_api.ALTER:
            raise Wrong('the text is altered (%s)' % t[1])
        elif not has(t, arg):
            raise Wrong('%s does not come from the argument' % shape.show(t, 60))
        else:
            raise Vague(shape.show(t, 60))


def key_text(m, st, t, arg):
    """t is the text of the key arg"""
    if t == arg:
        return
    if t[0] == 'okof' and t[1][1].endswith('key_to_string') and t[1][2] == arg:
        return
    x = None
    for a, p in m.facts(st):
        if a[0] == 'Eq' and a[1][0] == 'discr' and a[1][1][0] == 'okof' and a[1][1][1][2] == arg and p:
            x = (a[1][1], a[2][1])
    if t in (('c', 'true'), ('c', 'false')):
        for a, p in m.facts(st):
            if a[0] == 'B' and has(a, arg):
                if p != (t == ('c', 'true')):
                    raise Wrong('the key is %s for %s' % (t[1], str(p).lower()))
                return
        raise Wrong('the key is %s whatever it was' % t[1])
    if t[0] == 'c':
        if t[1] == 'null' and x and x[1] == 0:
            return
        raise Wrong('the key is "%s" whatever it was' % t[1])
    if not has(t, arg):
        raise Wrong('the key does not come from the argument')
    s = t
    while s[0] == 'ap' and len(s) == 3 and s[1].split('::')[-1] in SAME | {'format'}:
        s = s[2]
    if s[0] == 'okof' or s[0] == 'f' and s[1] == 0 and s[2][0] == 'v' and s[2][2][0] == 'okof' or s == arg:
        return
    if s[0] == 'ap' and s[1].split('::')[-1] in p_api.ALTER:
        raise Wrong('the key is altered (%s)' % s[1])
    raise Vague(shape.show(t, 60))


def entry_value(t, arg):
    if t[0] == 'okof' and t[1][0] == 'ap' and t[1][1].split('::')[-1] in ('serialize', 'to_value') and t[1][2] == arg:
        return
    if not has(t, arg):
        raise Wrong('the value is dropped')
    raise Vague(shape.show(t, 60))


def put_entry(m, st, key, val, keyfn=None):
    ps = [e for e in m.evs(st) if e[0] == 'put']
    if len(ps) != 1:
        raise Wrong('%d entries are added' % len(ps)) if not m.loops_seen else Vague('a loop')
    e = ps[0]
    if len(e) == 2 and e[1][0] == 'adt' and e[1][1] == '()' and len(e[1]) == 5:
        e = ('put', e[1][3], e[1][4])
    if len(e) != 3:
        raise Vague(shape.show(e, 60))
    (keyfn or same_text)(*((e[1], key) if keyfn is None else (m, st, e[1], key)))
    entry_value(e[2], val)


def compound(m, f, st, v, role):
    """the methods of the collections"""
    x = m.tm(v, st)
    if x[0] != 'adt':
        return
    if x[2] == 1:
        if not m.get(st, 'failed') and not (role in ('key', 'field') and nested(m, st)):
            raise Wrong('an error is returned although nothing failed')
        return
    if m.get(st, 'failed'):
        return
    last = ('p', 'a%d' % f.argc)
    if role == 'element':
        ps = [e for e in m.evs(st) if e[0] == 'put']
        if len(ps) != 1 or len(ps[0]) != 2:
            raise Wrong('%d elements are added' % len(ps)) if not m.loops_seen else Vague('a loop')
        entry_value(ps[0][1], last)
    elif role == 'key':
        o = m.selfobj(st)
        ks = [y for y in o[3:] if y[0] == 'adt' and y[1].endswith('Option') and y[2] == 1] if o[0] == 'adt' else []
        if not ks:
            raise Wrong('the key is not kept') if o[0] == 'adt' else Vague('')
        key_text(m, st, ks[0][3], last)
    elif role == 'value':
        def taken(m, st, t, key):
            if t == key or m.know(st, ('Eq', ('discr', key[2][2]), ('i', 1))) is False:
                return
            if t[0] == 'c' or t[0] == 'p':
                raise Wrong('the value is put under %s' % shape.show(t, 40))
            raise Vague(shape.show(t, 60))
        put_entry(m, st, ('f', 0, ('v', 1, ('p', 'self.' + key_field(m, f)))), last, taken)
    elif role == 'field':
        put_entry(m, st, ('p', 'a2'), last, key_text)
    elif role == 'end':
        n, p = variant(m, payload(x))
        fs = [y for y in m.fields_of(f)]
        want = 'Array' if any(t.split('<')[0].endswith('Vec') and '(' not in t for _, t in fs) else 'Object'
        if f.path.split(' as ')[1].split('>')[0].endswith('Variant'):
            want = 'Object'
        if n is None:
            raise Vague(shape.show(x, 60))
        if n != want:
            raise Wrong('the collection becomes %s' % n)
        col = [('p', 'self.' + a) for a, t in fs if t.split('<')[0].split('::')[-1] in ('Vec', 'Map', 'SeqSerializer', 'BTreeMap')]
        ps = [e for e in m.evs(st) if e[0] == 'put']
        if f.path.split(' as ')[1].split('>')[0].endswith('Variant'):
            if len(ps) == 1:
                entire(ps[0][-1])
            elif not m.loops_seen:
                raise Wrong('%d entries are added' % len(ps))
        elif p and p[0][0] in ('f', 'el', 'ix', 'ap', 'sorted', 'slice'):
            entire(p[0])
        if not has(p, tuple(col[0]) if col else ANY) and not any(has(e, y) for e in ps for y in col) and not from_self(p, ps):
            if ps and any(e[-1] == ('adt', e[-1][1], 0) for e in ps if e[-1][0] == 'adt'):
                return       # a key without a value
            raise Wrong('the collection is dropped') if p and p[0][0] in ('new', 'adt') else Vague(shape.show(payload(x), 60))


def nested(m, st):
    """do the facts say that the key is an array or an object"""
    no = {}
    for a, p in m.facts(st):
        if a[0] == 'Eq' and a[1][0] == 'discr' and a[1][1][0] == 'okof' and a[2][0] == 'i':
            if p:
                return a[2][1] in (4, 5)
            no.setdefault(a[1], set()).add(a[2][1])
    return any(x >= {0, 1, 2, 3} for x in no.values())


def entire(t):
    """the term is the whole of a field of self, as a value"""
    x = t[-1] if t[:2] == ('adt', '()') and len(t) == 5 else t
    while x[0] == 'adt' and len(x) == 4 and x[1].split('::')[-1] == 'Value' or x[0] == 'f' or x[0] == 'okof' or \
            x[0] == 'ap' and len(x) == 3 and x[1].split('::')[-1] in SAME:
        x = x[-1] if x[0] != 'okof' else x[1]
    if x[0] == 'p' and x[1].startswith('self'):
        return
    if x[0] in ('el', 'ix', 'sorted') or x[0] == 'adt' and x[1].split('::')[-1] == 'Value' or \
            x[0] == 'ap' and x[1].split('::')[-1] in p_api.ALTER | {'get', 'pop', 'first', 'last', 'take', 'skip', 'remove', 'swap_remove'}:
        raise Wrong('%s is handed over instead of the whole collection' % shape.show(t, 60))
    raise Vague(shape.show(t, 60))


def from_self(p, ps):
    def f(t):
        if isinstance(t, tuple):
            return t[:1] == ('p',) and len(t) > 1 and str(t[1]).startswith('self.') or any(f(y) for y in t)
        return False
    return f(p) or any(f(e[-1]) for e in ps)


def key_field(m, f):
    for n, t in m.fields_of(f):
        if 'Option<' in t and 'String' in t and 'Vec' not in t:
            return n
    raise Vague('no field for the key')


ROLES = {('SerializeSeq', 'serialize_element'): 'element', ('SerializeTuple', 'serialize_element'): 'element',
         ('SerializeTupleStruct', 'serialize_field'): 'element', ('SerializeTupleVariant', 'serialize_field'): 'element',
         ('SerializeMap', 'serialize_key'): 'key', ('SerializeMap', 'serialize_value'): 'value',
         ('SerializeStruct', 'serialize_field'): 'field', ('SerializeStructVariant', 'serialize_field'): 'field'}


def targets(c):
    for f in c.fnlist:
        if f.kind == 'Closure' or ' as ' not in f.path:
            continue
        t = trait_of(f)
        if t == 'Serializer' and f.name[:10] == 'serialize_' and f.name[10:] in METHODS:
            yield f, None
        elif (t, f.name) in ROLES:
            yield f, ROLES[(t, f.name)]
        elif t.startswith('Serialize') and f.name == 'end':
            yield f, 'end'


def one(chk, c, f, cfg, role, name):
    m = Ser(c, f)
    m.loops_seen = False
    m.fields_of = lambda g: [(x[0], c.types[x[1]].get('s', '') if x[1] is not None else '') for x in c.adts[own_type(c, g)]['variants'][0]['f']] \
        if own_type(c, g) in c.adts else []
    sp = Spec(m, f) if role is None else None
    if sp and sp.kind is None and f.name[10:] not in ('seq', 'tuple', 'tuple_struct', 'tuple_variant', 'map', 'struct', 'struct_variant'):
        return chk.undecided(name, 'what the serializer delivers to is not known')
    bad, vague, n = {}, {}, 0
    for st, v in start(m, f, chk.slice(30)):
        n += 1
        try:
            sp.check(st, v) if sp else compound(m, f, st, v, role)
        except Wrong as e:
            bad[str(e)] = 1
        except Vague as e:
            vague[str(e)] = 1
    chk.analysed |= m.analysed
    chk.analysed.add(f.path)
    for k in sorted(bad):
        chk.violation('%s: %s' % (f.path, k), '%s [%s]: %s' % (f.path, cfg, k), name)
    if not bad:
        if vague or not n:
            chk.undecided(name, '; '.join(sorted(vague)) or 'no outcome')
        else:
            chk.ok(name, '%d outcomes' % n)


def mapping(chk):
    chk.rule('every method of the serializers delivers the counterpart of its argument; collections get exactly one entry per call')
    for cfg in CFGS:
        c = chk.crate(cfg)
        for f, role in targets(c):
            fields = [c.types[x[1]].get('s', '') for x in c.adts[own_type(c, f)]['variants'][0]['f'] if x[1] is not None] if own_type(c, f) in c.adts else []
            stream = any('StreamingSerializer' in t for t in fields)
            if stream and role in ('value', 'field', 'end') or f.name in ('serialize_struct_variant', 'serialize_bytes') and any('LineWriter' in t for t in fields):
                continue            # E05, E06; bytes are written element by element
            name = '%s [%s]' % (f.path, cfg)
            chk.guard(name, one, chk, c, f, cfg, role, name)


# ---- the functions that run a serializer -----------------------------------------------------------------
def runner(chk, c, f, cfg, name):
    m = Ser(c, f)
    m.policy_root = f
    bad, vague, n = {}, {}, 0
    for st, v in start(m, f, chk.slice(30)):
        n += 1
        x = m.tm(v, st)
        ser = [e for e in m.evs(st) if e[0] == 'ap' and e[1].endswith('serialize')]
        if x[0] == 'ap' and ser and x == ser[0]:
            continue
        if x[0] == 'adt' and x[2] == 1:
            none = any(a[0] == 'Eq' and a[1][0] == 'discr' and any(has(a, e) for e in ser) and p == (a[2] == ('i', 0)) for a, p in m.facts(st))
            if not m.get(st, 'failed') and not none:
                bad['an error is returned although nothing failed'] = 1
            continue
        if m.get(st, 'failed'):
            continue
        if len(ser) != 1:
            bad['the value is serialized %d times' % len(ser)] = 1
        elif ser[0][2] != ('p', 'a1'):
            vague[shape.show(ser[0], 60)] = 1
        elif x[0] == 'adt' and not has(x, ser[0]):
            bad['%s is returned instead of what was serialized' % shape.show(payload(x), 60)] = 1
        else:
            t = payload(x)
            while t[0] in ('f', 'v', 'okof', 'out') or t[0] == 'ap' and t != ser[0] and len(t) == 3 and t[1].split('::')[-1] in SAME | {'take'}:
                t = t[1] if t[0] == 'okof' else t[2]
            if t != ser[0]:
                if t[0] == 'ap' and t[1].split('::')[-1] in p_api.ALTER:
                    bad['what was serialized is altered (%s)' % t[1]] = 1
                else:
                    vague[shape.show(t, 60)] = 1
    chk.analysed.add(f.path)
    for k in sorted(bad):
        chk.violation('%s: %s' % (f.path, k), '%s [%s]: %s' % (f.path, cfg, k), name)
    if not bad:
        if vague or not n:
            chk.undecided(name, '; '.join(sorted(vague)) or 'no outcome')
        else:
            chk.ok(name, '%d outcomes' % n)


def runners(chk):
    chk.rule('a function that runs a serializer on a value returns what that delivers, or its error')
    for cfg in CFGS:
        c = chk.crate(cfg)
        for f in c.fnlist:
            if f.name in ('to_value', 'key_to_string', 'try_scalar_to_string') and f.kind != 'Closure':
                name = '%s [%s]' % (f.path, cfg)
                chk.guard(name, runner, chk, c, f, cfg, name)
