"""Deserialization: every decoded value is handed to the visitor as what it is."""
import os, time
import shape, ir, models
from shape import T, ANY, has
import p_api, p_ser
from p_api import Api, tystr, CFGS
from p_ser import Wrong, Vague, own_type, trait_of, payload, same_text, start


class De(Api):
    def __init__(self, crate, root, budget=20000):
        super().__init__(crate, root, (), (), budget)

    def policy(self, fn):
        return None

    def call(self, st, fi, t):
        g = ir.callee(t['f'])
        if g is not None and t.get('to') is not None:
            n = models.short(g['decl'])
            last = n.split('::')[-1]
            if (last.startswith('visit_') or last == 'deserialize') and g.get('inst') not in self.c.fns:
                args = [self.operand(st, fi, a) for a in t['args']]
                return self.step(st, last, args, t, t['dst'], t['to'])
            if last in ('index_mut', 'get_mut') and len(t['args']) == 2:
                a, i = (self.tm(self.operand(st, fi, y), st) for y in t['args'])
                if not has(a, ANY) and not has(i, ANY):
                    return self.deliver(st, t['dst'], t['to'], T(('ix', a, i) if last == 'index_mut' else ('ap', 'slice::get', a, i)))
            if n in ('mem::replace', 'mem::take'):
                a = self.operand(st, fi, t['args'][0])
                if a[0] == 't' and a[1] != ANY:
                    self.note(st, ('wr', a[1]))
                    return self.deliver(st, t['dst'], t['to'], a)
        return super().call(st, fi, t)


    rvalue = p_ser.Ser.rvalue


def trait_of(f):
    return f.path.rsplit(' as ', 1)[1].split('>')[0].split('<')[0].split('::')[-1] if ' as ' in f.path else ''


def own(c, f):
    t = tystr(c, f, 1)
    t = t[5:] if t.startswith('&mut ') else t.lstrip('&')
    if t in c.adts:
        return t
    if t.endswith('>'):
        d = 0
        for i in range(len(t) - 1, -1, -1):
            d += (t[i] == '>') - (t[i] == '<')
            if not d:
                return t[:i].rstrip(':')
    return t


def targets(c):
    for f in c.fnlist:
        if f.kind == 'Closure' or ' as ' not in f.path or 'de::direct' in f.path:
            continue
        t = trait_of(f)
        if t == 'Deserializer' and f.name.startswith('deserialize_') or t in ('SeqAccess', 'MapAccess') and f.name.startswith('next_'):
            yield f, t


def begin(m, f, slice, obj=None, facts=()):
    c = m.c
    o = own(c, f)
    args = [T(('p', 'a%d' % i)) for i in range(1, f.argc + 1)]
    objs = []
    if obj is not None or o in c.adts and len(c.adts[o]['variants']) == 1:
        x = obj if obj is not None else m.struct(o, 'self')
        if tystr(c, f, 1).startswith('&'):
            args[0], objs = ('obj', 0), [x]
        else:
            args[0] = x
    m.deadline = time.time() + slice
    return m.start(f, args, user=(), objs=objs, facts=facts)


# ---- what a visitor must be given ------------------------------------------------------------------
VAL = ('p', 'self.value')
KINDS = ('Null', 'Bool', 'Number', 'String', 'Array', 'Object')
VISITS = {'visit_unit': 0, 'visit_none': 0, 'visit_bool': 1, 'visit_string': 3, 'visit_str': 3, 'visit_borrowed_str': 3, 'visit_char': 3,
          'visit_seq': 4, 'visit_map': 5}
VISITS.update({'visit_' + k: 2 for k in p_ser.BITS}, visit_f32=2, visit_f64=2)
PEEL = {'into_deserializer', 'new', 'clone', 'to_string', 'to_owned', 'as_str', 'deref', 'into', 'from', 'as_ref', 'borrow', 'into_iter'}


def value_term(m, f):
    """the field of the deserializer that holds the value"""
    a = m.c.adts.get(own(m.c, f))
    if a:
        for x in a['variants'][0]['f']:
            if x[1] is not None and m.c.types[x[1]].get('s', '').split('::')[-1] == 'Value':
                return ('p', 'self.' + x[0])
    raise Vague('the value of the deserializer is not found')


def kind_of(m, st, v):
    """the kinds of value the path is for"""
    no = set()
    for i in range(6):
        k = m.know(st, ('Eq', ('discr', v), ('i', i)))
        if k:
            return {i}
        if k is False:
            no.add(i)
    return set(range(6)) - no


def peel(t):
    while t[0] == 'ap' and len(t) == 3 and t[1].split('::')[-1] in PEEL or t[0] == 'adt' and t[1] == 'It.sym':
        if t[0] == 'adt':
            if t[4] not in (('hist',), ('hist', ())) and len(t[4]) > 1:
                return t
            t = t[3]
        else:
            t = t[2]
    return t


def unwrap_de(t):
    """the value inside a deserializer"""
    return t[3] if t[0] == 'adt' and len(t) == 4 else t


def visit(m, f, st, v):
    x = m.tm(v, st)
    val = value_term(m, f)
    evs = [e for e in m.evs(st) if e[0] == 'ap' and e[1].startswith('visit_')]
    err = x[0] == 'adt' and x[2] == 1
    if len(evs) > 1:
        raise Wrong('the visitor is called twice')
    ks = kind_of(m, st, val)
    what = f.name[len('deserialize_'):]
    if not evs:
        if x[0] != 'adt':
            raise Vague(shape.show(x, 60))
        if not err:
            raise Wrong('a result is returned without the visitor')
        if what == 'enum':
            one = m.know(st, ('Eq', ('len', ('f', 0, ('v', 5, val))), ('i', 1)))
            if 3 in ks or 5 in ks and one is not False:
                if ks <= {3, 5} and not (ks == {5} and one is None):
                    raise Wrong('an error is returned for a variant')
                raise Vague('which values are refused is not known')
            return
        if what == 'any' or what == 'option':
            raise Wrong('%s is refused whatever the visitor' % '/'.join(KINDS[k] for k in sorted(ks)))
        if len(ks) == 6:
            raise Wrong('every value is refused')
        raise Vague('%s is refused' % '/'.join(KINDS[k] for k in sorted(ks)))
    e = evs[0]
    if m.get(st, 'failed'):
        if not err and x != e:
            raise Wrong('the error of the visitor is lost')
    elif err:
        raise Wrong('an error is returned although the visitor took the value')
    elif x != e and payload(x) != ('okof', e):
        if not has(x, e):
            raise Wrong('what the visitor made is not returned')
        raise Vague(shape.show(x, 60))
    name, arg = e[1], e[3] if len(e) > 3 else None
    if what == 'ignored_any' and name == 'visit_unit':
        return
    if what == 'option':
        if name in ('visit_none', 'visit_unit'):
            if ks != {0}:
                raise Wrong('%s becomes None' % '/'.join(KINDS[k] for k in sorted(ks - {0})))
        elif name == 'visit_some':
            if 0 in ks:
                raise Wrong('Null becomes Some')
            whole(m, st, arg, val)
        else:
            raise Vague(name)
        return
    if name == 'visit_newtype_struct':
        if what != 'newtype_struct':
            raise Vague(name)
        return whole(m, st, arg, val)
    if what == 'enum':
        if name != 'visit_enum':
            raise Vague(name)
        if len(ks) != 1:
            raise Vague('which values are variants is not known')
        k = min(ks)
        t = peel(unwrap_de(arg))
        if k not in (3, 5):
            raise Wrong('%s is read as a variant' % KINDS[k])
        if k == 5 and m.know(st, ('Eq', ('len', ('f', 0, ('v', 5, val))), ('i', 1))) is not True:
            n = ('len', ('f', 0, ('v', 5, val)))
            if any(possible(m, st, n, i) for i in (0, 2, 3)):
                raise Wrong('an object is read as a variant whatever its number of entries')
            raise Vague('the number of entries is not known')
        want = ('f', 0, ('v', k, val))
        return equal(m, st, t, want, 'the variant')
    if name not in VISITS:
        raise Vague(name)
    k = VISITS[name]
    if len(ks) > 1:
        if k not in ks:
            raise Wrong('%s is called for %s' % (name, '/'.join(KINDS[i] for i in sorted(ks))))
        raise Vague('%s for more than one kind' % name) if arg is not None and has(arg, val) else Wrong(
            '%s is called for %s' % (name, '/'.join(KINDS[i] for i in sorted(ks - {k}))))
    if ks != {k}:
        raise Wrong('%s is called for %s' % (name, KINDS[min(ks)]))
    want = ('f', 0, ('v', k, val))
    if k == 0:
        if name == 'visit_none':
            raise Wrong('Null is handed over as None, which unit types do not take')
        return
    if k == 1:
        if arg[0] in ('i', 'c', 'not', 'op'):
            r = p_api.same(m, st, arg, want)
            if r is not True:
                raise Wrong('%s is handed over for a boolean' % shape.show(arg, 40))
            return
        return equal(m, st, arg, want, 'the boolean')
    if k == 2:
        return number(m, st, name, arg, want)
    if k == 3:
        if name == 'visit_char':
            raise Vague(name)
        try:
            return same_text(peel(arg), want)
        except Vague:
            return equal(m, st, peel(arg), want, 'the text')
    return access(m, st, arg, want)


def possible(m, st, t, v):
    """do all facts about t, each of which can be evaluated, hold for the value v"""
    for a, p in m.facts(st):
        if not has(a, t):
            continue
        if a[0] not in ('Eq', 'Lt') or len(a) != 3:
            return False
        x, y = p_api.evaluate(a[1], t, v), p_api.evaluate(a[2], t, v)
        if x is None or y is None or (x == y if a[0] == 'Eq' else x < y) != p:
            return False
    return True


def equal(m, st, t, want, what):
    r = p_api.same(m, st, t, want)
    if r is True:
        return
    if r is False or not has(t, want) and not has(t, ANY):
        raise Wrong('%s is handed over instead of %s' % (shape.show(t, 60), what))
    raise Vague(shape.show(t, 60))


def whole(m, st, arg, val):
    equal(m, st, peel(unwrap_de(arg)), val, 'the value')


def number(m, st, name, arg, want):
    ty = name[6:]
    for j, src in enumerate(('i64', 'u64', 'f64')):
        if m.know(st, ('Eq', ('discr', want), ('i', j))):
            p = ('f', 0, ('v', j, want))
            to = []
            t = arg
            while t[0] == 'as':
                to.append(t[1])
                t = t[2]
            if t != p:
                if not has(arg, p):
                    raise Wrong('%s is handed over instead of the number' % shape.show(arg, 60))
                raise Vague(shape.show(arg, 60))
            at = src
            for y in reversed(to):
                if not p_ser.lossless(at, y):
                    if any(has(a, p) for a, _ in m.facts(st)):
                        raise Vague('a conversion under conditions')
                    raise Wrong('the conversion from %s to %s may change the number' % (at, y))
                at = y
            if at != ty:
                raise Vague(ty)
            return
    raise Vague(shape.show(arg, 60))


def access(m, st, arg, want):
    """a fresh cursor over the whole collection"""
    if arg[0] != 'adt':
        t = peel(arg)
        return equal(m, st, t, want, 'the collection')
    seen = False
    for y in arg[3:]:
        t = peel(y)
        if t == want:
            seen = True
        elif t == ('i', 0) or y[0] == 'adt' and y[1].endswith('Option') and y[2] == 0 or t == ('len', want):
            pass
        elif t[0] == 'i':
            raise Wrong('the cursor starts at %d' % t[1])
        elif t[0] == 'sorted' and has(t, want):
            raise Wrong('the collection is put in another order')
        elif t[0] == 'ap' and t[1].split('::')[-1] in p_api.ALTER | {'sorted', 'dedup', 'skip', 'take', 'step_by', 'filter', 'skip_while', 'take_while', 'peekable'} and has(t, want):
            raise Wrong('the collection is altered (%s)' % t[1]) if not t[1].endswith('peekable') else Vague('peekable')
        elif has(t, want):
            raise Vague(shape.show(t, 60))
    if not seen:
        raise Wrong('the collection is not handed over') if not has(arg, want) else Vague(shape.show(arg, 60))


# ---- the cursors -----------------------------------------------------------------------------------
def norm(t):
    if not isinstance(t, tuple):
        return t
    t = tuple(norm(y) for y in t)
    if t[:2] == ('f', 0) and t[2][0] == 'v' and t[2][1] == 1 and t[2][2][0] == 'ap' and t[2][2][1].split('::')[-1] in ('get', 'get_mut') and len(t[2][2]) == 4:
        return ('ix',) + t[2][2][2:]
    return t


def fieldnames(m, f):
    return [x[0] for x in m.c.adts[own(m.c, f)]['variants'][0]['f']]


def element(m, f, t):
    """(collection, cursor or None) if the term is the element at the cursor"""
    if t[0] == 'ix' and t[1][0] == 'p' and t[2][0] == 'p':
        return t[1], t[2]
    if t[0] == 'ix' and t[1][0] == 'p' and t[2][0] in ('i', 'op'):
        raise Wrong('the element at %s is handed over, not the one at the cursor' % shape.show(t[2], 40))
    if t[0] == 'el' and t[1][0] == 'p':
        return t[1], None
    return None


def moved(m, f, st, el):
    """the cursor has moved by one element"""
    o = m.tm(m.load(st, (0, shape.OBJ), ()), st)
    if o[0] != 'adt':
        raise Vague(shape.show(o, 60))
    names = fieldnames(m, f)
    for n, y in zip(names, o[3:]):
        p = ('p', 'self.' + n)
        if el[1] is None:
            if p == el[0]:
                if y[0] == 'adt' and y[1] == 'It.sym' and y[3] == p and y[4][:2] == ('hist', 'f'):
                    return
                raise Wrong('the cursor does not move') if y == p else Vague(shape.show(y, 60))
        elif p == el[1]:
            if y == ('op', 'Add', p, ('i', 1)):
                return
            if y == p:
                raise Wrong('the cursor does not move')
            if y[0] == 'op' and y[1] == 'Add' and y[2] == p and y[3][0] == 'i':
                raise Wrong('the cursor moves by %d' % y[3][1])
            raise Vague(shape.show(y, 60))
        elif p == el[0] and y != p:
            raise Vague(shape.show(y, 60))
    raise Vague('the cursor is not found')


def of_element(t):
    """is the term a part of one element (its key, its text)"""
    return isinstance(t, tuple) and bool(t) and (t[0] in ('ix', 'el') or any(of_element(x) for x in t[1:]))


def exhausted(m, f, st):
    """do the facts say that nothing is left"""
    for a, p in m.facts(st):
        a = norm(a)
        if a[0] == 'Lt' and not p and a[1][0] == 'p' and a[2][0] == 'len' and a[2][1][0] == 'p':
            return True
        if a[0] == 'Lt' and p and a[2][0] == 'p' and a[1][0] == 'len' and a[1][1][0] == 'p':
            return True
        if a[0] == 'Eq' and p and a[1] == ('i', 0):
            a = ('Eq', a[2], a[1])
        if a[0] == 'Eq' and p and a[1][0] == 'len' and (a[2] == ('i', 0) or a[2][0] == 'p') and not of_element(a[1][1]):
            return True
        if a[0] == 'Eq' and p and a[1][0] == 'p' and a[2][0] == 'len':
            return True
        if a[0] == 'Eq' and a[1][0] == 'discr' and a[1][1][0] == 'ap' and a[1][1][1].split('::')[-1] in ('get', 'get_mut') and \
                p == (a[2] == ('i', 0)) and a[1][1][2][0] == 'p' and a[1][1][3][0] == 'p':
            return True
    return False


def offered(m, f, st, v):
    """the one value given to the seed, or None when nothing is left"""
    x = m.tm(v, st)
    evs = [e for e in m.evs(st) if e[0] == 'ap' and e[1] == 'deserialize']
    if len(evs) > 1:
        raise Wrong('two values are handed over at once')
    if x[0] != 'adt' and not (x[0] == 'ap' and x[1].startswith('v')):
        if evs and x == evs[0]:
            return evs[0]
        raise Vague(shape.show(x, 60))
    err = x[0] == 'adt' and x[1].endswith('Result') and x[2] == 1
    if not evs:
        if err:
            if trait_of(f) == 'MapAccess' and f.name == 'next_value_seed':
                return None
            raise Wrong('an error is returned although nothing failed')
        y = payload(x)
        if y[0] == 'adt' and y[1].endswith('Option') and y[2] == 0 or y[0] == 'ap' and y[1].endswith('None'):
            if not exhausted(m, f, st):
                raise Wrong('the end is announced while elements may be left')
            return None
        raise Vague(shape.show(x, 60))
    if m.get(st, 'failed'):
        if not err:
            raise Wrong('the error of an element is lost')
        return evs[0]
    if err:
        raise Wrong('an error is returned although the element was taken')
    if not has(x, ('okof', evs[0])):
        raise Wrong('what was made of the element is not returned')
    return evs[0]


def sequence(m, f, chk):
    n = 0
    for st, v in begin(m, f, chk.slice(30)):
        n += 1
        e = offered(m, f, st, v)
        if e is None:
            continue
        t = norm(peel(unwrap_de(e[3])))
        el = whole_element(m, f, st, t, lambda q: q)
        if not m.get(st, 'failed'):
            moved(m, f, st, el)
    return n


def whole_element(m, f, st, t, part):
    """the element at the cursor of which the term is the part"""
    found = set()

    def scan(y):
        if isinstance(y, tuple):
            if y and y[0] in ('ix', 'el') and len(y) > 1:
                found.add(y)
                return
            for z in y:
                scan(z)
    scan(t)
    for a, p in m.facts(st):
        if not found:
            scan(norm(a))
    if len(found) != 1:
        if not found and t[0] == 'adt':
            raise Wrong('%s is handed over instead of an element' % shape.show(t, 60))
        raise Vague(shape.show(t, 60))
    y = found.pop()
    el = element(m, f, y)
    if el is None:
        raise Vague(shape.show(y, 60))
    for w in m.evs(st):
        if w[0] == 'wr' and norm(w[1]) != y and norm(w[1]) not in (('f', 0, y), ('f', 1, y)):
            raise Wrong('another element is changed') if has(norm(w[1]), el[0]) else Vague(shape.show(w[1], 60))
    want = part(y)
    if t != want and normsame(m, st, t, want) is not True:
        r = normsame(m, st, t, want)
        raise Wrong('%s is handed over instead of the element' % shape.show(t, 60)) if r is False else Vague(shape.show(t, 60))
    return el


def normsame(m, st, t, want):
    old = m.facts(st)
    s2 = st.copy()
    m.setfacts(s2, {(norm(a), p) for a, p in old})
    return p_api.same(m, s2, norm(t), want)


def entries(m, fk, fv, chk):
    n = 0
    for st, v in begin(m, fk, chk.slice(30)):
        n += 1
        e = offered(m, fk, st, v)
        if e is None or m.get(st, 'failed'):
            continue
        key = norm(peel(unwrap_de(e[3])))
        el = whole_element(m, fk, st, key, lambda q: ('f', 0, q))
        y = ('ix',) + el if el[1] is not None else ('el', el[0])
        obj = m.load(st, (0, shape.OBJ), ())
        m2 = De(m.c, fv)
        k = 0
        for s2, v2 in begin(m2, fv, chk.slice(30), obj=obj, facts=m.facts(st)):
            k += 1
            e2 = offered(m2, fv, s2, v2)
            if e2 is None:
                raise Wrong('the value of a key is refused')
            t = norm(peel(unwrap_de(e2[3])))
            want = ('f', 1, y)
            if t != want:
                r = normsame(m2, s2, t, want)
                if r is False or not has(t, y) and r is None and t[0] == 'adt' and len(t) == 3:
                    raise Wrong('%s is handed over as the value of a key' % shape.show(t, 60))
                if r is None:
                    raise Vague(shape.show(t, 60))
            if not m2.get(s2, 'failed'):
                moved(m2, fv, s2, el)
        m.analysed |= m2.analysed
        if not k:
            raise Vague('no outcome for the value')
    return n


def run(chk, name, path, f):
    try:
        n = f()
    except Wrong as e:
        return chk.violation('%s: %s' % (path, e), '%s: %s' % (name, e), name)
    except Vague as e:
        return chk.undecided(name, str(e))
    chk.ok(name, '%d outcomes' % n) if n else chk.undecided(name, 'no outcome')


def visiting(m, f, chk):
    n, vague = 0, None
    for st, v in begin(m, f, chk.slice(30)):
        n += 1
        try:
            visit(m, f, st, v)
        except Vague as e:
            vague = e
    if vague:
        raise vague
    return n


def one(chk, c, f, g, cfg, kind):
    name = '%s [%s]' % (f.path, cfg)
    m = De(c, f)
    run(chk, name, f.path, (lambda: visiting(m, f, chk)) if kind == 'Deserializer' else (lambda: sequence(m, f, chk)) if kind == 'SeqAccess'
        else (lambda: entries(m, f, g, chk)))
    chk.analysed |= m.analysed
    chk.analysed.add(f.path)


def visitors(chk):
    chk.rule('every method of the deserializer calls the method of the visitor that stands for the value, with all of the value, and returns what '
             'that makes; the cursors hand over each element and entry once, in order, key and value together, and end only at the end')
    for cfg in CFGS:
        c = chk.crate(cfg)
        ts = list(targets(c))
        for f, t in ts:
            if f.name in ('next_value_seed', 'next_entry_seed') or f.name.startswith('next_') and not f.name.endswith('_seed'):
                continue
            g = next((x for x, u in ts if x.name == 'next_value_seed' and own(c, x) == own(c, f)), None) if t == 'MapAccess' else None
            name = '%s [%s]' % (f.path, cfg)
            if t == 'MapAccess' and g is None:
                chk.undecided(name, 'no next_value_seed')
            else:
                chk.guard(name, one, chk, c, f, g, cfg, t)
