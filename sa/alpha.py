"""Choice of the letter classes for a set of functions: every ASCII constant the code (or a
specification) can distinguish gets its own class boundary."""
import ir
import words

D, U, LW = set(range(48, 58)), set(range(65, 91)), set(range(97, 123))
CTRL = set(range(0, 32)) | {127}
WS = {9, 10, 11, 12, 13, 32}
AWS = {9, 10, 12, 13, 32}
# classes a std function can tell apart
CLASSES = {
    'is_ascii_digit': [D], 'is_numeric': [D], 'is_ascii_alphabetic': [U, LW], 'is_alphabetic': [U, LW],
    'is_ascii_alphanumeric': [D, U, LW], 'is_alphanumeric': [D, U, LW], 'is_ascii_uppercase': [U],
    'is_ascii_lowercase': [LW], 'is_uppercase': [U], 'is_lowercase': [LW], 'is_ascii_control': [CTRL],
    'is_control': [CTRL], 'is_ascii_whitespace': [AWS], 'is_whitespace': [WS], 'trim': [WS], 'trim_start': [WS],
    'trim_end': [WS], 'trim_ascii': [AWS], 'split_whitespace': [WS], 'trim_ascii_start': [AWS],
    'trim_ascii_end': [AWS],
    'is_ascii_hexdigit': [D, set(range(65, 71)), set(range(97, 103))], 'to_digit': [D, set(range(65, 71)), set(range(97, 103))],
    'is_ascii_punctuation': [D, U, LW, set(range(33, 127))], 'is_ascii_graphic': [set(range(33, 127))],
    'parse': [D, {43}, {45}, {46}, {69, 101}] + [{ord(c), ord(c.upper())} for c in 'inftya'],
    'lines': [{10}, {13}],
}


def closure(crate, roots):
    seen = {}
    st = [r for r in roots]
    while st:
        f = st.pop()
        if f is None or f.path in seen:
            continue
        seen[f.path] = f
        for bl in f.blocks:
            if bl.get('cl'):
                continue
            for s in bl['ss']:
                if s['s'] == '=' and s['v']['r'] == 'agg' and s['v']['k'] == 'closure':
                    st.append(crate.fns.get(s['v']['path']))
                for o in ops(s):
                    if 'fn' in o:
                        st.append(target(crate, o['fn']))
            t = bl['tm']
            if t['t'] == 'call':
                for o in [t['f']] + t['args']:
                    if o.get('o') == 'c' and 'fn' in o:
                        st.append(target(crate, o['fn']))
                    if o.get('o') == 'c' and 'zst' in o and crate.types[o['ty']]['k'] == 'closure':
                        st.append(crate.fns.get(crate.types[o['ty']]['path']))
    return seen


def target(crate, g):
    for n in (g.get('inst'), g['decl']):
        if n and n in crate.fns:
            return crate.fns[n]
    return None


def ops(s):
    if s['s'] != '=':
        return
    v = s['v']
    for k in ('a', 'b'):
        if isinstance(v.get(k), dict) and v[k].get('o') == 'c':
            yield v[k]
    for a in v.get('ops', []) or []:
        if a.get('o') == 'c':
            yield a


def constants(crate, fns):
    cs = set()
    sp = set()

    def addop(o):
        if 'str' in o:
            for ch in o['str']:
                (cs if ord(ch) < 128 else sp).add(ord(ch))
        elif 'int' in o:
            try:
                n = int(o['int'])
            except ValueError:
                return
            ty = crate.types[o['ty']] if 'ty' in o else None
            if ty and ty['k'] == 'char' or (ty and ty.get('s') in ('u8', 'u32')):
                if 0 <= n < 128:
                    cs.add(n)
                elif ty['k'] == 'char':
                    sp.add(n)
        elif 'refint' in o:
            try:
                n = int(o['refint'])
                if 0 <= n < 128:
                    cs.add(n)
            except (ValueError, TypeError):
                pass
        elif 'bytes' in o and isinstance(o['bytes'], list):
            for n in o['bytes']:
                if n < 128:
                    cs.add(n)
    for f in fns:
        for body in [f] + [None]:
            if body is None:
                blocks = [bl for p in f.promoted for bl in p['blocks']]
            else:
                blocks = f.blocks
            for bl in blocks:
                if bl.get('cl'):
                    continue
                for s in bl['ss']:
                    for o in ops(s):
                        addop(o)
                t = bl['tm']
                if t['t'] == 'call':
                    for o in t['args']:
                        if o.get('o') == 'c':
                            addop(o)
                elif t['t'] == 'switch':
                    ty = crate.types[t['dty']] if t.get('dty') is not None else None
                    if ty and (ty['k'] == 'char' or ty.get('s') in ('u8', 'u32')):
                        for a, _ in t['ts']:
                            n = int(a)
                            if 0 <= n < 128:
                                cs.add(n)
                            elif ty['k'] == 'char':
                                sp.add(n)
    return cs, sp


def alphabet(crate, roots, extra='', sets=(), variants=None):
    """extra: chars the specification distinguishes; sets: classes it distinguishes"""
    fns = list(closure(crate, roots).values())
    cs, sp = constants(crate, fns)
    out = [set(x) for x in sets]
    for f in fns:
        for _, t in f.calls():
            g = ir.callee(t['f'])
            if g:
                out.extend(CLASSES.get(g['decl'].split('::')[-1], ()))
            for o in t['args']:
                if o.get('o') == 'c' and 'fn' in o:
                    out.extend(CLASSES.get(o['fn']['decl'].split('::')[-1], ()))
    for c in cs | {ord(x) for x in extra if ord(x) < 128}:
        out.append({c})
    for c in ordered(crate, fns):
        out.append(set(range(0, c)))
        out.append(set(range(0, c + 1)))
    return words.Alphabet(out, sp | {ord(x) for x in extra if ord(x) >= 128}, variants)


def ordered(crate, fns):
    """ASCII constants that are used in order comparisons (or ranges)"""
    out = set()
    for f in fns:
        for body in [f.blocks] + [p['blocks'] for p in f.promoted]:
            for bl in body:
                for s in bl['ss']:
                    if s['s'] != '=':
                        continue
                    v = s['v']
                    if v['r'] == 'bin' and v['op'] in ('Lt', 'Le', 'Gt', 'Ge') or (
                            v['r'] == 'agg' and v['k'] == 'adt' and 'Range' in v['path']):
                        for o in ops(s):
                            if 'int' in o and 'ty' in o and crate.types[o['ty']].get('s') in ('u8', 'char', 'u32'):
                                n = int(o['int'])
                                if 0 <= n < 128:
                                    out.add(n)
                t = bl['tm']
                if t['t'] == 'call':
                    for o in t['args']:
                        if o.get('o') == 'c' and 'int' in o and 'ty' in o and crate.types[o['ty']].get('s') in ('u8', 'char'):
                            g = ir.callee(t['f'])
                            if g and 'Range' in g['decl'] and 0 <= int(o['int']) < 128:
                                out.add(int(o['int']))
    return out
