"""Decoder: declared array lengths, row widths and delimiters are enforced; values come from the lines."""
import os, time
import shape, ir, models
from shape import T, ANY, has, length_of

PP = 'decode::parser::Parser'
HP = 'decode::parser::ArrayHeader'
VAL = 'value::Value'
H, S, I, HT = ('p', 'H'), ('p', 'S'), ('p', 'I'), ('p', 'HT')
RECUR = ('parse_scalar_token', 'parse_scalar_token_at_line', 'parse_key_token', 'parse_key_token_at_line', 'parse_node',
         'parse_object', 'parse_array', 'parse_scalar_line')
TEXTFN = ('check_delimiter_mismatch', 'is_array_header_line', 'split_kv_quote_aware', 'is_quoted_token', 'trim_spaces_only',
          'token_requires_quotes', 'cell_token_requires_quotes', 'parse_header', 'classify_numeric_hint', 'find_unquoted_bracket',
          'find_matching_bracket', 'find_matching_brace', 'parse_bracket_content', 'mark_literal_key', 'trim_ascii',
          'trim_ascii_start', 'is_control_char')


class DM(shape.Shape):
    """the parser with one symbol for the current line (I), the current header (H) and the current cells (S)"""
    def __init__(self, crate, root, budget=250000):
        super().__init__(crate, None, budget=budget)
        self.opaque = self.policy
        self.root = root
        self.max_keys = 2500
        f = [x[0] for x in crate.adts[PP]['variants'][0]['f']]
        self.ei, self.ii = f.index('error'), f.index('idx')
        h = [x[0] for x in crate.adts[HP]['variants'][0]['f']]
        self.hf = {n: ('f', h.index(n), H) for n in h}
        self.alarms = {}
        self.unsure = {}
        self.outputs = outputs(root)
        self.coarse = True
        self.mode = 'node'
        self.under = {f.path for f in under_fns(crate)}
        self.demands = 0
        self.checked = {}
        self.watch = self.relevant
        vs = [x['n'] if isinstance(x, dict) and 'n' in x else None for x in crate.adts[VAL]['variants']]
        self.vix = {n: i for i, n in enumerate(vs)}

    # ---- which facts matter ------------------------------------------------------------------
    def relevant(self, a):
        if a[0] not in ('Eq', 'Lt'):
            return False
        x, y = a[1], a[2]
        if x[0] == 'discr':
            b = x[1]
            return b[0] in ('new', 'mut') or b == ('p', 'self.error') or b[0] == 'f' and b[2] == H
        if not (self.size_term(x) and self.size_term(y)):
            return False
        if y[0] == 'i':
            return x == self.hf['length'] or x[0] == 'len' and (x[1][0] == 'new' or x[1] == S) and a == ('Eq', x, ('i', 0))
        return True

    def size_term(self, x):
        if x[0] == 'len':
            b = x[1]
            return b == S or b == HT or has(b, H) or bool(shape.bases(b)) and not any(has(b, k) for k in (I, ('new', 'oldI')))
        return x[0] == 'i' or x == self.hf['length'] or x[0] == 'p'

    def assume(self, st, at, pol):
        if at[0] == 'Eq' and at[1][0] == 'len' and at[2] == ('i', 0) and not pol:
            return st
        return super().assume(st, at, pol)

    def policy(self, f):
        if f.name in RECUR:
            return 'recur'
        if self.mode != 'header' and header_param(self.c, f) and tystr(self.c, f, 0).endswith('value::Value'):
            return 'checked'
        if f.name == 'parse_array_header' or f.name == 'parse_scalar_keyed_array_header':
            return 'header'
        if f.name == 'split_delim_aware':
            return 'split'
        if f.name in TEXTFN or f.path in self.under:
            return 'pure'
        return None

    # ---- ghost: what is known about the current header -----------------------------------------
    # user = (header is one, its value was delivered, its line was consumed, header was looked for)
    def get(self, st, k):
        return dict(self.user(st)).get(k, False)

    def put(self, st, **kw):
        d = dict(self.user(st))
        d.update(kw)
        self.setuser(st, tuple(sorted(d.items())))

    def forget(self, st, sym):
        fs = self.facts(st)
        g = frozenset(x for x in fs if not has(x[0], sym))
        if len(g) != len(fs):
            self.setfacts(st, g)
        for f in st.frames:
            for l, v in list(f.loc.items()):
                if has(v, sym):
                    f.loc[l] = shape.subst(v, sym, ('new', 'old' + sym[1]))

    def selfobj(self, st):
        return st.frames[0].loc.get(shape.OBJ)

    def canon(self, st):
        v = self.selfobj(st)
        if v and v[0] == 'adt':
            f = list(v[3])
            if f[self.ii] != T(I):
                self.forget(st, I)
                v = self.selfobj(st)
                f = list(v[3])
                f[self.ii] = T(I)
                st.frames[0].loc[shape.OBJ] = v[:3] + (tuple(f),)
                if self.get(st, 'h'):
                    self.put(st, moved=True)
                v = self.selfobj(st)
                f = list(v[3])
            e = f[self.ei]
            if e[0] == 'adt' and e[2] == 1 and e[3] != (T(ANY),):
                f[self.ei] = ('adt', 'Option', 1, (T(ANY),))
                st.frames[0].loc[shape.OBJ] = v[:3] + (tuple(f),)
        super().canon(st)

    def has_error(self, st):
        """True / False / None"""
        e = self.selfobj(st)[3][self.ei]
        if e[0] == 'adt':
            return e[2] == 1
        return self.holds(st, 'Eq', ('discr', e[1]), ('i', 1))

    # ---- opaque calls --------------------------------------------------------------------------
    def call_opaque(self, st, fn, args, dst, to, t, p):
        if to is None:
            return []
        if p == 'split':
            x = self.tm(args[0], st)
            if shape.size(x) < 60 and self.from_header(x):
                # the column names of an old-style table header
                self.forget(st, HT)
                self.put(st, leg=True)
                return self.deliver(st, dst, to, T(HT))
            self.on_split(st, fn, args, t)
            self.forget(st, S)
            return self.deliver(st, dst, to, T(S))
        if p == 'header':
            self.forget(st, H)
            self.forget(st, S)
            self.put(st, h=False, done=False, moved=False, seen=True, leg=False)
            s2 = st.copy()
            self.put(s2, h=True)
            out = self.deliver(st, dst, to, ('adt', 'Option', 0, ()))
            return out + self.deliver(s2, dst, to, ('adt', 'Option', 1, (T(H),)))
        if p in ('recur', 'havoc', 'checked'):
            selfref = None
            for a in args:
                if a[0] == 'ref':
                    r = shape.final_ref(self, st, a)
                    x = self.load(st, r[1], r[2])
                    if x[0] == 'adt' and x[1] == PP:
                        selfref = r
            if selfref is not None:
                out = []
                x = self.load(st, selfref[1], selfref[2])
                e = x[3][self.ei]
                for s, ev in ([(st, e)] if e[0] == 'adt' else self.sym_variants(st, e, 'Option')):
                    alts = [ev] if ev[2] == 1 else [ev, ('adt', 'Option', 1, (T(ANY),))]
                    for i, ev in enumerate(alts):
                        s1 = s.copy() if i + 1 < len(alts) else s
                        f = list(x[3])
                        f[self.ei] = ev
                        if fn.name not in ('parse_scalar_token', 'parse_scalar_token_at_line', 'parse_key_token', 'parse_key_token_at_line'):
                            f[self.ii] = T(ANY)
                        self.store(s1, selfref[1], selfref[2], ('adt', PP, 0, tuple(f)))
                        out += self.deliver(s1, dst, to, self.result(s1, fn, args))
                return out
        return super().call_opaque(st, fn, args, dst, to, t, p)

    def pure(self, st, name, args):
        r = super().pure(st, name, args)
        if r[0] == 't' and r[1][0] == 'ap' and has(r[1], S) and not ((self.mode == 'header' or self.get(st, 'leg')) and r[1][1].endswith('::get')):
            return T(ANY)
        return r

    def result(self, st, fn, args):
        if (self.mode == 'header' or self.get(st, 'leg')) and fn.name == 'parse_scalar_token' and len(args) > 1:
            a = self.tm(args[1], st)
            if shape.size(a) < 200 and (has(a, S) or a[0] == 'c'):
                return T(('scalar', a))
        if fn.path and header_param(self.c, fn):
            a = self.strip(st, args[header_param(self.c, fn) - 1])
            if a == T(H):
                return T(('chk',))
            self.alarm(st, 'other header', 'the array is read with another header than the one of the line')
        return T(self.fresh(st, ('new', self.site(st))))

    # ---- demands -------------------------------------------------------------------------------
    def alarm(self, st, key, text, sp=None):
        self.alarms.setdefault(key, (text, sp, st.frames[-1].fn.path))
        if os.environ.get('VERIF_SHOW'):
            print(key, shape.show_facts(self.facts(st)), self.user(st), sp)

    def on_split(self, st, fn, args, t):
        if not self.get(st, 'h'):
            return
        d = self.tm(args[1], st)
        if d == ('i', 44) or d[0] in ('i', 'c') or d == self.hf['delimiter'] or d == ('p', 'delimiter'):
            self.demands += 1
            if d[0] in ('i', 'c'):
                self.alarm(st, 'delimiter', 'cells are split at the fixed delimiter %s instead of the one the header declares'
                           % shape.show(d), t.get('sp'))
            return
        if has(d, ANY):
            return
        self.demands += 1
        self.alarm(st, 'delimiter', 'cells are split at %s, not at the delimiter the header declares' % shape.show(d), t.get('sp'))

    def array_ok(self, st, v):
        """is the value an array of the declared length, or is an error pending?  True/False/None + why"""
        if self.has_error(st):
            return True, 'error'
        v = self.strip(st, v)
        if v[0] == 'adt' and v[1] == VAL:
            if v[2] != self.vix.get('Array', 4):
                return False, 'a value that is no array'
            x = self.tm(v[3][0], st)
        elif v[0] == 't':
            k = self.holds(st, 'Eq', ('discr', v[1]), ('i', self.vix.get('Array', 4)))
            if k is False:
                return True, 'not an array (the list parser only returns arrays)'
            x = ('f', 0, ('v', self.vix.get('Array', 4), v[1]))
        else:
            return None, 'unreadable value'
        n = length_of(x)
        k = self.holds(st, 'Eq', n, self.hf['length'])
        if k:
            return True, 'length'
        if k is None and x[0] in ('mut', 'grow', 'old', 'any') and self.holds(st, 'Eq', ('len', S), self.hf['length']):
            return None, 'array built in a way that is not followed'
        return False, 'an array whose length is %s the declared one' % ('not' if k is False else 'not compared with')

    def strip(self, st, v):
        n = 0
        while v[0] == 'ref' and n < 4:
            v = self.load(st, v[1], v[2])
            n += 1
        return v

    def delivered(self, st, x):
        """is this the checked array of the current header?"""
        x = self.strip(st, x)
        if x == T(('chk',)):
            return True, 'checked'
        return self.array_ok(st, x)

    def on_push(self, st, t, ref, old, vals):
        if not self.get(st, 'h') and self.mode != 'object' and not self.get(st, 'leg'):
            return
        r = shape.final_ref(self, st, ref)
        root = r[1][0] == 0
        v = self.strip(st, vals[0])
        sp = t.get('sp')
        if self.get(st, 'leg') and v[0] == 'adt' and v[1] == VAL and v[2] == self.vix.get('Object', 5):
            self.row(st, sp)
        if self.get(st, 'leg') and v[0] == 'adt' and v[1] == '()' and len(v[3]) == 2:
            self.cell(st, self.tm(v[3][0], st), self.tm(v[3][1], st), sp)
        if not self.get(st, 'h') and self.mode != 'object':
            return
        pair = v[0] == 'adt' and v[1] == '()' and len(v[3]) == 2
        if pair and self.mode == 'header' and not root:
            self.cell(st, self.tm(v[3][0], st), self.tm(v[3][1], st), sp)
        if v[0] == 'adt' and v[1] == VAL and v[2] == self.vix.get('Object', 5) and self.get(st, 'h'):
            self.row(st, sp)
        if pair and root and self.mode == 'object' and r[1][1] in self.outputs and not self.get(st, 'seen'):
            self.demands += 1
            self.alarm(st, 'lookup', 'a field is taken from a line that was not tested for an array header', sp)
        if self.get(st, 'h') and not self.get(st, 'done'):
            if pair:
                ok, why = self.delivered(st, v[3][1])
                if ok:
                    self.put(st, done=True)
                    self.demands += 1
                elif root:
                    self.demand(st, ok, why, 'field', 'a field under an array header gets %s', sp)
            elif root and self.mode != 'header' and r[1][1] in self.outputs:
                if v[0] == 'adt' and v[1] != VAL:
                    return
                if self.holds(st, 'Eq', ('discr', self.hf['key']), ('i', 1)):
                    self.demand(st, False, '', 'item', 'the array of a keyed header on a list item is not delivered%s', sp)
                else:
                    ok, why = self.delivered(st, v)
                    self.demand(st, ok, why, 'item', 'a list item with an array header becomes %s', sp)
        if root and self.mode != 'header' and r[1][1] in self.outputs:
            self.put(st, h=False, done=False, moved=False, seen=False, leg=False)
            self.forget(st, H)
            self.forget(st, S)
            self.forget(st, HT)

    def demand(self, st, ok, why, key, text, sp):
        self.demands += 1
        if ok is False:
            self.alarm(st, key, text % why, sp)
        elif ok is None:
            self.unsure[key] = why

    def cell(self, st, key, val, sp):
        """field k of a row is cell k"""
        if val[0] != 'scalar' or not has(val, S) or key[0] != 'el':
            return
        self.demands += 1
        x = val[1]
        while x[0] in ('f', 'v'):
            x = x[2]
        if x[0] == 'ap' and x[1].endswith('::get'):
            if x[3] != ('idx', key[1]):
                self.alarm(st, 'cell', 'the value of a field is taken from cell %s instead of the cell of that field'
                           % shape.show(x[3]), sp)

    def from_header(self, x):
        return x[0] == 'ap' and x[1].endswith('parse_header') or any(self.from_header(y) for y in x if isinstance(y, tuple) and y)

    def row(self, st, sp):
        """a table row is pushed: its cells are as many as the fields, or an error is pending"""
        if self.get(st, 'leg'):
            self.demands += 1
            if not self.has_error(st) and self.holds(st, 'Eq', ('len', S), ('len', HT)) is not True:
                self.alarm(st, 'old row', 'a row of an old-style table is accepted although the number of its cells is not '
                           'known to be the number of columns', sp)
            return
        if self.holds(st, 'Eq', ('discr', self.hf['fields']), ('i', 1)) is not True:
            return
        self.demands += 1
        if self.has_error(st):
            return
        n = length_of(('f', 0, ('v', 1, self.hf['fields'])))
        k = self.holds(st, 'Eq', ('len', S), n)
        if k is not True:
            self.alarm(st, 'row', 'a table row is accepted although the number of its cells is %s the number of fields'
                       % ('not' if k is False else 'not compared with'), sp)

    def on_return(self, st, v):
        if self.mode == 'header':
            ok, why = self.array_ok(st, v)
            self.demand(st, ok, why, 'length', 'a header leads to %s', None)
            return
        if self.mode == 'list':
            x = self.strip(st, v)
            self.demands += 1
            if not (x[0] == 'adt' and x[1] == VAL and x[2] == self.vix.get('Array', 4)):
                self.alarm(st, 'list', 'the list parser returns something else than an array')
            return
        if self.get(st, 'h') and self.get(st, 'moved') and not self.get(st, 'done') \
                and self.holds(st, 'Eq', ('discr', self.hf['key']), ('i', 0)):
            ok, why = self.delivered(st, v)
            self.demand(st, ok, why, 'root', 'a line with an array header becomes %s', None)


def outputs(f):
    """locals a returned value is built from"""
    out = {0}
    for _ in range(6):
        for b in f.blocks:
            for x in b['ss']:
                if x.get('s') != '=' or x['p'][0] not in out:
                    continue
                v = x['v']
                ops = [v['a']] if v['r'] == 'use' else v.get('ops', v.get('as', [])) if v['r'] == 'agg' else []
                for o in ops:
                    p = o.get('p') if isinstance(o, dict) else None
                    if p and not p[1]:
                        out.add(p[0])
    return out


def parser_fns(c):
    return [f for f in c.fnlist if f.path.startswith(PP + '::') and f.kind != 'Closure']


def under_fns(c):
    """functions that find the indentation of the lines under a line"""
    return [f for f in parser_fns(c) if f.argc == 2 and tystr(c, f, 1).startswith('&') and not tystr(c, f, 1).startswith('&mut')
            and tystr(c, f, 2) == 'usize' and tystr(c, f, 0) == 'usize']


def tystr(c, f, i):
    l = f.locals[i]
    return c.types[l['ty'] if isinstance(l, dict) else l].get('s') or ''


def header_param(c, f):
    for i in range(1, f.argc + 1):
        if tystr(c, f, i).lstrip('&').endswith('ArrayHeader'):
            return i
    return None



def modes(c):
    """(function, how it is examined)"""
    out = []
    for f in parser_fns(c):
        if header_param(c, f) and tystr(c, f, 0).endswith('value::Value'):
            out.append((f, 'header'))
        elif f.name == 'parse_array':
            out.append((f, 'list'))
        elif f.name == 'parse_object':
            out.append((f, 'object'))
        elif f.name in ('parse_node', 'parse_root', 'parse_scalar_line'):
            out.append((f, 'node'))
    return out


def examine(chk, c, f, mode, cfg, budget=250000):
    m = DM(c, f, budget)
    m.mode = mode
    args = []
    for i in range(1, f.argc + 1):
        s = tystr(c, f, i)
        if 'Parser' in s:
            args.append(('obj', 0))
        elif s.lstrip('&').endswith('ArrayHeader'):
            args.append(T(H))
        else:
            args.append(T(('p', 'arg%d' % i)))
    m.deadline = time.time() + chk.slice(120)
    user = tuple(sorted(dict(h=(mode == 'header'), done=False, moved=True, seen=False).items()))
    obj = m.struct(PP, 'self', {'strict': ('i', 1), 'idx': T(I)})
    outs = m.start(f, args, user=user, objs=[obj])
    for st, v in outs:
        m.on_return(st, v)
    return m, outs


# ---- checks ---------------------------------------------------------------------------------------
CFGS = ('default', 'alloc', 'all')


def report(chk, cfg, f, m, name):
    chk.count('demands', m.demands)
    chk.analysed |= m.analysed
    chk.analysed.add(f.path)
    for k, (text, sp, where) in sorted(m.alarms.items()):
        at = ' (%s:%s)' % (sp[0], sp[1]) if sp else ''
        chk.violation('%s: %s' % (f.name, k), '%s [%s]: %s%s' % (f.path, cfg, text, at), name)
    if not m.alarms:
        if m.unsure:
            chk.undecided(name, '; '.join('%s: %s' % x for x in sorted(m.unsure.items())))
        elif not m.demands:
            chk.undecided(name, 'nothing demanded on any path')
        else:
            chk.ok(name, '%d demands on %d abstract steps' % (m.demands, m.steps))


def array_lengths(chk):
    chk.rule('every value built under an array header is an array whose length equals the declared one, or an error is pending')
    chk.rule('every table row has as many cells as the header has fields, or an error is pending; field k is cell k')
    chk.rule('cells are split at the delimiter the header declares')
    chk.rule('every object field line is tested for an array header before it is taken as a plain field')
    for cfg in CFGS:
        try:
            c = chk.crate(cfg)
        except SystemExit:
            raise
        ms = modes(c)
        if len(ms) < 4:
            chk.undecided('parser functions [%s]' % cfg, 'only %d of the functions that read arrays were found' % len(ms))
        for f, mode in ms:
            name = '%s [%s]' % (f.name, cfg)

            def ob(f=f, mode=mode, name=name, c=c, cfg=cfg):
                m, outs = examine(chk, c, f, mode, cfg)
                report(chk, cfg, f, m, name)
            chk.guard(name, ob)


def leftover(chk):
    chk.rule('the document parser returns with an error pending unless no line is left')
    for cfg in CFGS:
        c = chk.crate(cfg)
        for f in parser_fns(c):
            if f.name == 'parse_document':
                name = 'parse_document [%s]' % cfg
                chk.guard(name, leftover_one, chk, c, f, cfg, name)


class DocM(DM):
    def relevant(self, a):
        return a[0] in ('Eq', 'Lt') and (has(a, I) or has(a, ('p', 'self.error'))) or super().relevant(a)

    def policy(self, f):
        if f.name in ('parse_root',) or f.name in RECUR:
            return 'recur'
        return super().policy(f)


def leftover_one(chk, c, f, cfg, name):
    m = DocM(c, f)
    m.mode = 'doc'
    outs = m.start(f, [('obj', 0)], user=tuple(sorted(dict(h=False, done=False, moved=False, seen=False).items())),
                   objs=[m.struct(PP, 'self', {'idx': T(I)})])
    lines = ('p', 'self.lines')
    for st, v in outs:
        m.demands += 1
        if m.has_error(st):
            continue
        done = (m.holds(st, 'Eq', ('discr', ('ap', 'slice::get', lines, I)), ('i', 0))
                or m.holds(st, 'Lt', I, ('len', lines)) is False or m.holds(st, 'Eq', I, ('len', lines)))
        if not done:
            if any(has(a, I) and has(a, lines) and not (a[0] == 'Eq' and a[1][0] == 'discr' and p) for a, p in m.facts(st)):
                m.unsure['leftover'] = 'the end of the lines is tested in a way that is not followed'
            else:
                m.alarm(st, 'leftover', 'the document is accepted although lines may be left unread')
    report(chk, cfg, f, m, name)


TAKERS = ('Option::take', 'mem::take', 'mem::replace', 'mem::swap', 'Option::take_if')


def error_writes(chk):
    """Parser.error only ever goes from nothing to an error"""
    chk.rule('Parser.error is only assigned new errors: it is never set back to None, taken out or swapped while parsing')
    for cfg in CFGS:
        c = chk.crate(cfg)
        ei = [x[0] for x in c.adts[PP]['variants'][0]['f']].index('error')
        n = 0
        for f in c.fnlist:
            if not any(tystr(c, f, i).startswith('&') and 'parser::Parser<' in tystr(c, f, i) for i in range(1, f.argc + 1)):
                continue
            lent = {}
            for bi, b in enumerate(f.blocks):
                if b.get('cl'):
                    continue
                for x in b['ss']:
                    if x.get('s') != '=':
                        continue
                    p, v = x['p'], x['v']
                    if is_error_place(c, f, p, ei):
                        n += 1
                        if some_value(f, v) is False:
                            chk.violation('%s: error cleared' % f.name, '%s [%s] sets Parser.error back to None (%s:%s)'
                                          % (f.path, cfg, x['sp'][0], x['sp'][1]))
                    if v['r'] == 'ref' and v.get('mut') and is_error_place(c, f, v['p'], ei):
                        lent[x['p'][0]] = x['sp']
            for b in f.blocks:
                tm = b['tm']
                if tm['t'] != 'call' or 'fn' not in tm['f']:
                    continue
                nm = models.short(tm['f']['fn']['decl'])
                for a in tm['args']:
                    if a.get('o') == 'p' and a['p'][0] in lent and nm in TAKERS:
                        sp = lent[a['p'][0]]
                        chk.violation('%s: error taken' % f.name, '%s [%s] takes Parser.error out (%s:%s)'
                                      % (f.path, cfg, sp[0], sp[1]))
        chk.count('assignments to Parser.error', n)
        if n:
            chk.ok('assignments to Parser.error [%s]' % cfg, '%d assignments' % n)
        else:
            chk.undecided('assignments to Parser.error [%s]' % cfg, 'none found')


def is_error_place(c, f, p, ei):
    proj = p[1]
    if not proj or proj[-1][0] != 'f' or proj[-1][1] != ei:
        return False
    base = [e for e in proj[:-1] if e[0] != 'd']
    return 'parser::Parser<' in tystr(c, f, p[0]) and not base


def some_value(f, v, seen=()):
    """is the assigned value Option::Some(..)?  True / False / None"""
    if v['r'] == 'agg':
        return v.get('v') == 1
    if v['r'] == 'use' and v['a'].get('o') == 'c':
        return None
    if v['r'] == 'use' and not v['a']['p'][1]:
        l = v['a']['p'][0]
        if l in seen:
            return True
        defs = []
        for b in f.blocks:
            for x in b['ss']:
                if x.get('s') == '=' and x['p'] == [l, []]:
                    defs.append(some_value(f, x['v'], seen + (l,)))
            if b['tm']['t'] == 'call' and b['tm'].get('dst') == [l, []]:
                defs.append(None)
        return False if False in defs else None if None in defs or not defs else True
    return None
