"""Decoder: every line that is passed over is blank, or something of it ends up in the value."""
import os, time
import shape
from shape import T, ANY, has
import p_decode
from p_decode import DM, PP, VAL, H, I, parser_fns, tystr, report, CFGS

LINES = ('p', 'self.lines')
OLD = ('new', 'oldI')


class LM(DM):
    """ghosts: `open` a line was consumed whose content is not in the value yet, `outer` the same for a line with a table under it"""
    def __init__(self, crate, root, readers, budget=120000):
        super().__init__(crate, root, budget)
        self.readers = readers
        self.mode = 'lines'
        self.advances = 0

    def relevant(self, a):
        if a[0] == 'Lt' and a[1] == I and a[2] == ('len', LINES):
            return True
        if a[0] != 'Eq' or a[1][0] != 'discr':
            return False
        b = a[1][1]
        return b == ('p', 'self.error') or b[0] == 'new' or has(b, LINES) and has(b, I) and shape.size(b) < 80 or self.from_header(b)

    def know(self, st, at):
        """there is a line at the index exactly if the index is less than the number of lines"""
        k = super().know(st, at)
        get, less = ('discr', ('ap', 'slice::get', LINES, I)), ('Lt', I, ('len', LINES))
        if k is None and at[0] == 'Eq' and at[1] == get and at[2][0] == 'i':
            k = super().know(st, less)
            return None if k is None else k == (at[2][1] == 1)
        if k is None and at == less:
            return super().know(st, ('Eq', get, ('i', 1)))
        return k

    def index_term(self, t, i):
        return ('f', 0, ('v', 1, ('ap', 'slice::get', t, i))) if t == LINES else super().index_term(t, i)

    def policy(self, f):
        if f.path in self.readers and f is not self.root:
            return 'recur'
        p = super().policy(f)
        if p == 'checked' and f is self.root:
            return None
        return p

    def on_push(self, st, t, ref, old, vals):
        v = self.strip(st, vals[0])
        if v[0] == 't' or v[0] == 'adt' and (v[1] == VAL or v[1] == '()' and len(v[3]) == 2):
            if not self.get(st, 'open') and self.get(st, 'touched'):
                self.put(st, used=True)         # delivered first, consumed afterwards
            self.put(st, open=False, outer=False, touched=False)

    def result(self, st, fn, args):
        if fn.name.startswith(('parse_key_token', 'parse_scalar_token')) and any(has(self.tm(a, st), I) for a in args[1:2]):
            self.put(st, touched=True)
        return T(self.fresh(st, ('new', self.site(st))))

    def on_split(self, st, fn, args, t):
        pass

    def kind(self, st):
        """what is known about the current line: blank, text, none, header or None"""
        get = ('ap', 'slice::get', LINES, I)
        out = None
        for a, p in self.facts(st):
            if a == ('Lt', I, ('len', LINES)) and not p:
                return 'none'
            if a[0] != 'Eq' or a[1][0] != 'discr' or a[2][0] != 'i':
                continue
            b = a[1][1]
            if self.from_header(b) and has(b, I) and p and a[2][1] == 1:
                return 'header'
            if b == get:
                if p == (a[2][1] == 0):
                    return 'none'
            elif has(b, get) and b[0] == 'f':
                k = 'blank' if a[2][1] == 0 else 'text'
                if p:
                    out = k
                elif k == 'blank':
                    out = out or 'text'
        return out

    def canon(self, st):
        v = self.selfobj(st)
        if v and v[0] == 'adt' and v[3][self.ii] not in (T(I), T(ANY)):
            x = v[3][self.ii]
            n = x[1] if x[0] == 't' else None
            if n is not None and has(n, I):
                self.advance(st, n)
            elif n is not None and has(n, OLD):
                self.put(st, open=False)       # back to a line seen before
            else:
                self.unsure['index'] = 'the line index is set in a way that is not followed'
        super().canon(st)

    def store(self, st, root, proj, val):
        super().store(st, root, proj, val)
        if root == (0, shape.OBJ) and len(proj) == 1 and proj[0][:2] == ('f', self.ii):
            self.canon(st)

    def advance(self, st, n):
        self.advances += 1
        if self.has_error(st):
            return
        if n != shape_add(self, st):
            if n[0] == 'bin' and n[-1][0] == 'i' or len(n) == 4 and n[3][0] == 'i':
                self.alarm(st, 'jump', 'the line index moves by more than one line (%s)' % shape.show(n, 60))
            else:
                self.unsure['jump'] = 'the line index moves in a way that is not followed'
            return
        k = self.kind(st)
        if os.environ.get('VERIF_SHOW'):
            print('ADV', k, shape.show_facts(self.facts(st)), n)
        if k in ('blank', 'none'):
            return
        self.demands += 1
        if self.get(st, 'used'):
            self.put(st, used=False, touched=False)
            return
        self.put(st, touched=False)
        if k == 'header':
            self.put(st, outer=self.get(st, 'open') or self.get(st, 'outer'), open=False)
            return
        if self.get(st, 'open') == 'text':
            self.alarm(st, 'line', 'a line is passed over and nothing of it is in the value')
        self.put(st, open=k or 'line')

    def on_return(self, st, v):
        if self.has_error(st) or self.get(st, 'open') != 'text':
            return
        x = self.strip(st, v)
        own = x[0] == 'adt' and x[1] == VAL and x[3] and self.tm(x[3][0], st)[0] in ('new', 'mut', 'grow')
        null = x[0] == 'adt' and x[1] == VAL and x[2] == self.vix.get('Null', 0)
        if null or own and self.loops_out:
            self.alarm(st, 'line', 'the value is returned after a line was passed over and nothing of it is in the value')


def shape_add(m, st):
    r = m.add(st, T(I), ('i', 1))
    return r[1]


def writes_idx(c, f, ii):
    for b in f.blocks:
        for x in b['ss']:
            if x.get('s') == '=' and x['p'][1] and any(e[0] == 'f' and e[1] == ii for e in x['p'][1] if isinstance(e, (list, tuple))):
                if 'Parser<' in tystr(c, f, x['p'][0]):
                    return True
    return False


def readers(c):
    """parser functions that return a value and may move the line index"""
    fs = {f.path: f for f in parser_fns(c)}
    ii = [x[0] for x in c.adts[PP]['variants'][0]['f']].index('idx')
    w = {p for p, f in fs.items() if writes_idx(c, f, ii)}
    ch = True
    while ch:
        ch = False
        for p, f in fs.items():
            if p in w:
                continue
            for b in f.blocks:
                t = b['tm']
                g = t['f'].get('fn') if t['t'] == 'call' and isinstance(t['f'], dict) else None
                if g and (g.get('inst') or g.get('decl')) in w:
                    w.add(p)
                    ch = True
                    break
    return {p for p in w if tystr(c, fs[p], 0).endswith('value::Value')}


def one(chk, c, f, cfg, rs, name):
    m = LM(c, f, rs)
    m.loops_out = has_loop(f)
    args = []
    for i in range(1, f.argc + 1):
        s = tystr(c, f, i)
        args.append(('obj', 0) if 'Parser' in s else T(H) if s.lstrip('&').endswith('ArrayHeader') else T(('p', 'arg%d' % i)))
    m.deadline = time.time() + chk.slice(90)
    outs = m.start(f, args, user=(), objs=[m.struct(PP, 'self', {'idx': T(I)})])
    for st, v in outs:
        m.on_return(st, v)
    chk.count('lines consumed', m.advances)
    if not m.demands and not m.alarms and not m.unsure:
        return chk.ok(name, 'moves past blank lines only' if m.advances else 'moves no line itself')
    report(chk, cfg, f, m, name)


def has_loop(f):
    """is there a cycle in the control flow"""
    state = {}

    def succ(i):
        t = f.blocks[i]['tm']
        out = [t.get('to')] if t.get('to') is not None else []
        if t['t'] == 'switch':
            out += [x[1] for x in t['ts']] + [t['else']]
        return [x for x in out if x is not None]
    stack = [(0, iter(succ(0)))]
    state[0] = 1
    while stack:
        i, it = stack[-1]
        for j in it:
            if state.get(j) == 1:
                return True
            if j not in state:
                state[j] = 1
                stack.append((j, iter(succ(j))))
                break
        else:
            state[i] = 2
            stack.pop()
    return False


def skipped(chk):
    chk.rule('between two moves of the line index, a line that is not blank is put into the value or an error is pending')
    for cfg in CFGS:
        c = chk.crate(cfg)
        rs = readers(c)
        for f in parser_fns(c):
            if f.path in rs:
                name = '%s [%s]: lines' % (f.name, cfg)
                chk.guard(name, one, chk, c, f, cfg, rs, name)
