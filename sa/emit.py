"""Text appended to strings: one vocabulary for push, push_str, write!, extend."""
import models, fmtx, absint

EDITS = {'insert', 'insert_str', 'truncate', 'clear', 'pop', 'remove', 'replace_range', 'retain', 'drain',
         'extend', 'extend_from_slice', 'extend_from_within', 'split_off', 'set_len'}


def deref(m, st, v):
    return models.val_of(m, st, v)


def of_value(m, st, v, opts=None, kind='display'):
    """atoms of one displayed value"""
    v = deref(m, st, v)
    o = {k: x for k, x in (opts or {}).items() if x not in (None, 0)}
    if kind in ('upper_hex', 'lower_hex'):
        fl = o.get('flags', 0)
        return [('hex', v, o.get('width', 0), bool(fl & (1 << 24)))]
    plain = not o or (set(o) == {'flags'} and o['flags'] & 0xff in (0, 32))
    if not plain:
        return [('?', 'format options')]
    if v[0] == 'c' and isinstance(v[1], str):
        return [('lit', v[1])]
    if v[0] == 's':
        return [('slice', v[1], v[2])]
    if v[0] == 'ch':
        return [('ch', v[1])]
    if v[0] == 'adt' and v[1] == 'Text':
        return list(v[3])
    return [('?', v)]


def of_arguments(m, st, v):
    v = deref(m, st, v)
    if v[0] != 'adt' or v[1] != 'fmt.Arguments':
        return [('?', v)]
    tmpl, arr = v[3]
    tmpl = deref(m, st, tmpl)
    arr = deref(m, st, arr)
    if tmpl == ('c', None):
        return of_value(m, st, arr)
    if tmpl[0] != 'c' or arr[0] != 'adt':
        return [('?', v)]
    out = []
    for p in fmtx.template(list(tmpl[1].encode('latin1'))):
        if p[0] == 'lit':
            out.append(('lit', p[1]))
            continue
        if p[1] >= len(arr[3]):
            return [('?', v)]
        a = deref(m, st, arr[3][p[1]])
        if a[0] != 'adt' or not a[1].startswith('fmt.Argument.'):
            return [('?', a)]
        out += of_value(m, st, a[3][0], p[2], a[1][len('fmt.Argument.'):])
    return out


def char_atom(v):
    if v[0] == 'i':
        return ('lit', chr(v[1]))
    if v[0] == 'ch':
        return ('ch', v[1])
    return ('?', v)


def is_append(g):
    if g is None:
        return False
    n = models.short(g['decl'])
    return n in ('String::push', 'String::push_str', 'Write::write_fmt', 'Write::write_str', 'Write::write_char',
                 'AddAssign::add_assign')


def atoms(m, st, g, args):
    """None: no text is appended by this call; else the atoms"""
    if g is None:
        return None
    n = models.short(g['decl'])
    if n == 'String::push' or n == 'Write::write_char':
        return [char_atom(deref(m, st, args[1]))]
    if n in ('String::push_str', 'Write::write_str', 'AddAssign::add_assign'):
        v = deref(m, st, args[1])
        if n == 'AddAssign::add_assign' and v[0] not in ('c', 's'):
            return None
        if v[0] == 'c':
            return [('lit', v[1])]
        if v[0] == 's':
            return [('slice', v[1], v[2])]
        if v[0] == 'ch':
            return [('ch', v[1])]
        return [('?', v)]
    if n == 'Write::write_fmt':
        return of_arguments(m, st, args[1])
    own, _, meth = n.partition('::')
    if own == 'String' and meth in EDITS:
        return [('?', n)]
    if n in ('Extend::extend',):
        return [('?', n)]
    return None


def made(m, st, g, args):
    """the text value format!(..) makes, or None"""
    if g is None or models.short(g['decl']) not in ('fmt::format', 'format::format_inner'):
        return None
    a = of_arguments(m, st, args[0])
    if any(x[0] not in ('lit', 'ch', 'slice') for x in a):
        return None
    return ('adt', 'Text', 0, tuple(a))


def start(m, st, args):
    """what a text holds before its first recorded append"""
    v = deref(m, st, args[0]) if args else ('top', None)
    if v[0] == 'c' and isinstance(v[1], str):
        return [('lit', v[1])] if v[1] else []
    if v[0] == 's':
        return [('slice', v[1], v[2])]
    if v[0] == 'adt' and v[1] == 'Text':
        return list(v[3])
    return []
