"""Decoder: lines are grouped by their indentation."""
import os, time
import shape
from shape import T, ANY, has
from p_decode import DM, PP, VAL, H, I, parser_fns, under_fns, tystr, report, CFGS
import p_lines
from p_lines import LM, LINES, OLD, readers, has_loop

PL = 'decode::scanner::ParsedLine'
LINE = ('f', 0, ('v', 1, ('ap', 'slice::get', LINES, I)))


def gt(t, u):
    """is t known to be greater than u"""
    if t[0] == 'ap' and t[1] == 'deeper':
        return ge(t[2], u)
    if t[0] == 'op' and t[1] == 'Add':
        for x, y in ((t[2], t[3]), (t[3], t[2])):
            if y[0] == 'i' and y[1] > 0 or y == STEP:
                if ge(x, u):
                    return True
            if gt(x, u) and (y[0] == 'i' or y == STEP):
                return True
    if t[0] == 'i' and u[0] == 'i':
        return t[1] > u[1]
    return False


def ge(t, u):
    return t == u or gt(t, u)


STEP = ('p', 'self.indent_size')
USIZE = 'usize'


class NM(LM):
    """ghosts: cur: indentation of the line consumed last; last: indentation passed to the last reader since then;
    loose: a line was consumed whose indentation was only bounded from below"""
    def __init__(self, crate, root, rs, info=None, budget=120000):
        super().__init__(crate, root, rs, budget)
        fs = [x[0] for x in crate.adts[PL]['variants'][0]['f']]
        self.L = ('f', fs.index('indent'), LINE)
        self.OL = shape.subst_term(self.L, I, OLD) if hasattr(shape, 'subst_term') else shape.subst(self.L, I, OLD)
        self.info = info                # what the first round found out about all readers
        self.used = {}                  # parameter -> relations of lines and of calls to it
        self.blind = False
        self.exact = set()              # parameters that hold the indentation of lines to be taken, not a bound of it
        self.here = []                  # (callee, argument is the indentation of the current line, its indentation is bounded)

    def relevant(self, a):
        if a[0] in ('Eq', 'Lt') and (has(a[1], self.L) or has(a[2], self.L)):
            return True
        return super().relevant(a)

    def on_push(self, st, t, ref, old, vals):
        pass

    def on_return(self, st, v):
        pass

    def pure(self, st, name, args):
        if name in self.under and len(args) == 2:
            x = self.tm(args[1], st)
            return T(ANY) if has(x, ANY) else T(('ap', 'deeper', x, I))
        return super().pure(st, name, args)

    def forget(self, st, sym):
        if sym == I:
            self.setuser(st, tuple((k, shape.subst(v, I, OLD) if isinstance(v, tuple) else v) for k, v in self.user(st)))
        super().forget(st, sym)

    def bounds(self, st):
        """what is known about the indentation of the current line: [('eq' or 'ge' or 'gt' or 'lt' or 'le' or 'ne', term)]"""
        out = []
        for a, p in self.facts(st):
            if a[0] == 'Eq' and self.L in (a[1], a[2]):
                out.append(('eq' if p else 'ne', a[2] if a[1] == self.L else a[1]))
            elif a[0] == 'Lt' and a[1] == self.L:
                out.append(('lt' if p else 'ge', a[2]))
            elif a[0] == 'Lt' and a[2] == self.L:
                out.append(('gt' if p else 'le', a[1]))
            elif a[0] in ('Eq', 'Lt') and (has(a[1], self.L) or has(a[2], self.L)):
                x, t = (a[1], a[2]) if has(a[1], self.L) else (a[2], a[1])
                out.append(('off', t if x[0] == 'op' and x[1] in ('Add', 'Sub') and {x[2][0], x[3][0]} <= {'i', 'f'} else ANY))
        for r, t in list(out):
            if r == 'ge' and ('le', t) in out:
                out.append(('eq', t))
        return sorted(set(out), key=repr)

    def know(self, st, at):
        k = super().know(st, at)
        if k is not None or at[0] not in ('Eq', 'Lt') or (at[1] == self.L) == (at[2] == self.L):
            return k
        bs = self.bounds(st)
        t = at[2] if at[1] == self.L else at[1]
        above = any(r == 'eq' and gt(u, t) or r == 'gt' and ge(u, t) or r == 'ge' and gt(u, t) for r, u in bs)
        below = any(r == 'eq' and gt(t, u) or r == 'lt' and ge(t, u) or r == 'le' and gt(t, u) for r, u in bs)
        same = ('eq', t) in bs
        if at[0] == 'Eq':
            return True if same else False if above or below else None
        if at[1] == self.L:
            return True if below else False if above or same or any(r == 'ge' and ge(u, t) for r, u in bs) else None
        return True if above else False if below or same or any(r == 'le' and ge(t, u) for r, u in bs) else None

    def own(self):
        """the parameter that holds the indentation of the lines to be read, the one that holds that of the line above them"""
        return self.info.roles.get(self.root.path, (None, None)) if self.info else (None, None)

    def show(self, st, what):
        if os.environ.get('VERIF_SHOW'):
            print(what, self.root.name, self.kind(st), [(x, shape.show(y, 60)) for x, y in self.bounds(st)],
                  [(k, v) for k, v in self.user(st) if k in ('cur', 'last', 'loose')])

    def advance(self, st, n):
        self.advances += 1
        k = self.kind(st)
        if k in ('blank', 'none') or self.has_error(st):
            return
        if n != p_lines.shape_add(self, st):
            self.unsure['jump'] = 'the line index moves in a way that is not followed'
            return
        self.show(st, 'ADV')
        bs = self.bounds(st)
        eqs = [t for r, t in bs if r == 'eq']
        lows = [t for r, t in bs if r in ('ge', 'gt')]
        for t in eqs + lows:
            if t[0] == 'p':
                self.used.setdefault(t, set()).add('line')
            elif has(t, ('ap', 'deeper')) or True:
                for q in self.params(t):
                    self.used.setdefault(q, set()).add('below')
        for r, t in bs:
            if r == 'off' and t[0] == 'p':
                self.used.setdefault(t, set()).add('line')
        for t in eqs:
            if t[0] == 'p' and self.kind(st) != 'header':
                self.exact.add(t)
        if not bs and not self.get(st, 'cur'):
            self.blind = True
        if self.info is None:
            self.put(st, cur=self.L if not eqs else eqs[0])
            return
        own, par = self.own()
        base = own or par
        self.demands += 1
        first = not self.get(st, 'cur')
        if base is None or first and not bs and self.info.lead(self.root.path):
            self.put(st, cur=eqs[0] if eqs else own or ANY, last=False)
            return
        if self.get(st, 'loose'):
            self.alarm(st, 'loose', 'several lines are taken whose indentation is only bounded from below')
        good = [t for t in eqs if own and ge(t, own) or par and gt(t, par) or t == self.L]
        low = [t for t in lows if own and ge(t, own) or par and gt(t, par)]
        if any(r == 'off' and not self.plain(t) for r, t in bs) and own not in eqs:
            self.unsure['level'] = 'the indentation of a line is compared in a way that is not followed'
            self.put(st, cur=ANY, last=False)
        elif good:
            self.put(st, cur=good[0], last=False)
        elif low and all(self.plain(t) for t in eqs):
            self.put(st, cur=self.L, last=False, loose=True)
        elif eqs or lows:
            t = (eqs + lows)[0]
            if self.plain(t):
                self.alarm(st, 'level', 'a line is taken because its indentation is %s, not that of the block being read' % shape.show(t, 60))
            else:
                self.unsure['level'] = 'a line is taken at ' + shape.show(t, 60)
            self.put(st, cur=t, last=False)
        else:
            self.alarm(st, 'level', 'a line is taken whose indentation was not compared with that of the block being read')
            self.put(st, cur=self.L, last=False)

    def plain(self, t):
        """made of the parameter, the step and constants only"""
        if t[0] in ('i',) or t == STEP or t in (self.L, self.OL) or t[0] == 'p':
            return True
        if t[0] == 'op':
            return all(self.plain(x) for x in t[2:])
        if t[0] == 'ap' and t[1] == 'deeper':
            return self.plain(t[2])
        return False

    def params(self, t):
        if not isinstance(t, tuple):
            return set()
        if t[:1] == ('p',):
            return {t} if t[1].startswith('arg') else set()
        return set().union(*[self.params(x) for x in t]) if t else set()

    def result(self, st, fn, args):
        if fn.path in self.readers:
            self.reader(st, fn, args)
        return super().result(st, fn, args)

    def reader(self, st, fn, args):
        ts = {i + 1: self.tm(a, st) for i, a in enumerate(args) if i and tystr(self.c, fn, i + 1) == USIZE}
        if os.environ.get('VERIF_SHOW'):
            self.show(st, 'CALL %s %s' % (fn.name, {k: shape.show(x, 70) for k, x in ts.items()}))
        cur = self.get(st, 'cur')
        if not cur:
            self.here.append((fn.path, self.L in ts.values(), bool(self.bounds(st))))
        if self.info is None:
            for i, t in ts.items():
                if t[0] == 'p' and not cur:
                    self.used.setdefault(t, set()).add((fn.path, i))
                else:
                    for q in self.params(t):
                        self.used.setdefault(q, set()).add('below')
            return
        o, p = self.info.roles.get(fn.path, (None, None))
        own, par = self.own()
        x = o or p
        if x is None:
            return
        t = ts.get(int(x[1][3:]))
        if t is None:
            return
        if has(t, ANY) or not self.plain(t):
            self.unsure['call of ' + fn.name] = 'the indentation passed is ' + shape.show(t, 60)
            return
        if self.has_error(st):
            return
        self.demands += 1
        if not cur:
            if o and own and t == own and (fn.path, o) in self.info.exact and (self.root.path, own) not in self.info.exact and ('eq', t) not in self.bounds(st):
                ok = False
            elif o:
                ok = t == self.L and (not own or any(r in ('eq', 'ge', 'gt') and ge(b, own) for r, b in self.bounds(st))) or \
                    own and ge(t, own) or par and gt(t, par) or not own and not par
            else:
                ok = t == par or not own and not par or own and t == self.L
            if not ok:
                self.alarm(st, 'call of ' + fn.name, 'the lines of a block are read at %s, which may be outside the block' % shape.show(t, 60))
            return
        if o:
            if cur != ANY and not gt(t, cur) and not (cur == self.L and gt(t, self.OL)):
                self.alarm(st, 'call of ' + fn.name, 'the lines under a line at indentation %s are read from indentation %s on, which need not be deeper'
                           % (shape.show(cur, 40), shape.show(t, 60)))
            last = self.get(st, 'last')
            if last and not gt(last, t):
                self.alarm(st, 'order', 'lines at indentation %s are read after those at %s, which may have taken them' % (shape.show(t, 50), shape.show(last, 50)))
            self.put(st, last=t)
        else:
            if cur != ANY and t != cur:
                self.alarm(st, 'call of ' + fn.name, 'the lines under a header at indentation %s are looked for under indentation %s'
                           % (shape.show(cur, 40), shape.show(t, 60)))


class Info:
    def __init__(self, c, rs):
        self.roles, self.blind, self.calls, self.exact = {}, set(), {}, set()
        used = {}
        for f in parser_fns(c):
            if f.path in rs:
                m = run(c, f, rs, None, 60)
                used[f.path] = m.used
                self.exact |= {(f.path, t) for t in m.exact}
                if m.blind:
                    self.blind.add(f.path)
                for g, isl, bd in m.here:
                    self.calls.setdefault(g, set()).add(isl or bd)
        role = {}
        ch = True
        while ch:
            ch = False
            for p, us in used.items():
                for q, rel in us.items():
                    r = role.get((p, q))
                    n = 'own' if 'line' in rel or any(isinstance(x, tuple) and role.get((x[0], ('p', 'arg%d' % x[1]))) == 'own' for x in rel) else \
                        'par' if 'below' in rel or any(isinstance(x, tuple) and role.get((x[0], ('p', 'arg%d' % x[1]))) == 'par' for x in rel) else None
                    if n != r:
                        role[(p, q)] = n
                        ch = True
                    if 'line' not in rel and (p, q) not in self.exact and \
                            any(isinstance(x, tuple) and (x[0], ('p', 'arg%d' % x[1])) in self.exact for x in rel):
                        self.exact.add((p, q))
                        ch = True
        for p in used:
            o = [q for (x, q), r in role.items() if x == p and r == 'own']
            b = [q for (x, q), r in role.items() if x == p and r == 'par']
            self.roles[p] = (o[0] if len(o) == 1 else None, b[0] if len(b) == 1 and not o else None)

    def lead(self, path):
        """does every caller know the indentation of the line this function takes first"""
        return path in self.blind and False not in self.calls.get(path, {False})


def run(c, f, rs, info, slice):
    m = NM(c, f, rs, info)
    args = []
    for i in range(1, f.argc + 1):
        s = tystr(c, f, i)
        args.append(('obj', 0) if 'Parser' in s else T(H) if s.lstrip('&').endswith('ArrayHeader') else T(('p', 'arg%d' % i)))
    m.deadline = time.time() + slice
    m.start(f, args, user=(), objs=[m.struct(PP, 'self', {'idx': T(I)})])
    return m


def one(chk, c, f, cfg, rs, name, info):
    m = run(c, f, rs, info, chk.slice(90))
    if 'jump' in m.unsure or 'index' in m.unsure:
        m.alarms = {}           # the facts may be about another line
    if not m.demands and not m.alarms and not m.unsure:
        return chk.ok(name, 'takes no line and reads no block')
    report(chk, cfg, f, m, name)


def nesting(chk):
    chk.rule('a function that collects the lines of a block takes only lines whose indentation equals that of the block')
    chk.rule('the lines under a line are read from a greater indentation on than that of the line; fields after nested lines are shallower than those')
    for cfg in CFGS:
        c = chk.crate(cfg)
        rs = readers(c)
        info = Info(c, rs)
        if os.environ.get('VERIF_SHOW'):
            print('ROLES', {p.split('::')[-1]: r for p, r in info.roles.items()}, [b.split('::')[-1] for b in info.blind], info.calls)
        for f in parser_fns(c):
            if f.path in rs:
                name = '%s [%s]: nesting' % (f.name, cfg)
                chk.guard(name, one, chk, c, f, cfg, rs, name, info)


# ---- the indentation of the block under a line ----------------------------------------------------------
class Child(shape.Shape):
    pass


def child_one(chk, c, f, cfg, name):
    m = Child(c, None, budget=50000)
    m.coarse = True
    m.keep = lambda x: True
    m.deadline = time.time() + chk.slice(60)
    fs = [x[0] for x in c.adts[PL]['variants'][0]['f']]
    ind, kind = fs.index('indent'), fs.index('kind')
    blank = [v['n'] for v in c.adts['decode::scanner::LineKind']['variants']].index('Blank')
    P = ('p', 'parent')
    bad, unsure, n = {}, {}, 0
    for st, v in m.start(f, [('obj', 0), T(P)], objs=[m.struct(PP, 'self', {'idx': T(I)})]):
        t = m.tm(v, st)
        n += 1
        more = gt(t, P) or m.know(st, ('Lt', P, t)) is True
        el = t[0] == 'f' and t[1] == ind
        if os.environ.get('VERIF_SHOW'):
            print('CHILD', shape.show(t, 100), shape.show_facts(m.facts(st)), more)
        if not more:
            if m.know(st, ('Lt', P, t)) is False or m.know(st, ('Lt', t, P)) is False or t == P or not el and t[0] != 'new' and not has(t, ANY):
                bad['the result may be no greater than the indentation of the line above'] = shape.show(t, 80)
            else:
                unsure['result'] = shape.show(t, 80)
            continue
        if not el:
            continue
        e = t[2]
        if e == LINE or e[0] in ('el', 'ix') and e[1] == LINES:
            fs_ = [(a, p) for a, p in m.facts(st) if a[0] == 'Eq' and a[1][0] == 'discr' and a[1][1][:2] == ('f', kind) and a[2][0] == 'i']
            k = [p == (a[2][1] == blank) for a, p in fs_ if a[1][1][2] == e and (p or a[2][1] == blank)]
            old = [p and a[2][1] == blank for a, p in fs_ if a[1][1][2][0] == 'old']
            if True in k:
                bad['the indentation of a blank line is taken'] = ''
            elif not k and any(has(a, ('f', kind, e)) for a, p in m.facts(st)):
                unsure['kind'] = 'the kind of the line is examined in a way that is not followed'
            elif not k:
                bad['the indentation is that of a line that may be blank'] = ''
            elif False in old:
                bad['the indentation is not that of the next line that is not blank'] = ''
        else:
            unsure['line'] = shape.show(e, 80)
    chk.analysed.add(f.path)
    for k, d in sorted(bad.items()):
        chk.violation('%s: %s' % (f.path, k), '%s [%s]: %s%s' % (f.path, cfg, k, ' (%s)' % d if d else ''), name)
    if not bad:
        if unsure or not n:
            chk.undecided(name, '; '.join('%s: %s' % x for x in sorted(unsure.items())) or 'no outcome')
        else:
            chk.ok(name, '%d outcomes' % n)


def child(chk):
    chk.rule('the indentation of the block under a line is that of the next line that is not blank, if that is deeper, and deeper in any case')
    for cfg in CFGS:
        c = chk.crate(cfg)
        for f in under_fns(c):
            name = '%s [%s]' % (f.name, cfg)
            chk.guard(name, child_one, chk, c, f, cfg, name)
