"""Common frame of the checks: dumps, obligations, known findings, evidence, verdict."""
import signal, json, os, pickle, subprocess, sys, time, traceback, shutil, tempfile
import ir

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
KNOWN = os.path.join(VERIF, 'known_findings.txt')


class Late(Exception):
    pass


def late(*a):
    raise Late('no answer in time')


class Check:
    def __init__(self, pid, title, tier):
        self.pid, self.title, self.tier = pid, title, tier
        self.t0 = time.time()
        self.jobs = int(os.environ.get('VERIF_JOBS', '8'))
        self.child, self.running, self.slots, self._ob = False, {}, [], None
        self.limit = 600
        self.obs = []            # (status, name, detail)
        self.viols = []          # (key, text)
        self.notes = []
        self.analysed = set()
        self.rules = []
        self.counts = {}
        self._crates = {}
        self._dump = os.environ.get('VERIF_DUMP')
        self._tmp = None
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)

    # ---- sources ---------------------------------------------------------------------------
    def dumpdir(self, cfg):
        if self._dump and os.path.isdir(os.path.join(self._dump, cfg)):
            return self._dump
        if self._tmp is None:
            base = os.environ.get('VERIF_BUILD', os.path.join(VERIF, '.build'))
            os.makedirs(base, exist_ok=True)
            self._tmp = tempfile.mkdtemp(prefix='dump-%s-' % self.pid, dir=base)
        if not os.path.isdir(os.path.join(self._tmp, cfg)):
            r = subprocess.run(['bash', os.path.join(VERIF, 'tools', 'dump.sh'), REPO, self._tmp, cfg],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode:
                shutil.rmtree(os.path.join(self._tmp, cfg), ignore_errors=True)
                print(r.stdout[-1500:])
                if cfg == 'default':
                    raise SystemExit('dump of configuration %s failed' % cfg)
                return None
        return self._tmp

    def crate(self, cfg, name='toon_rs'):
        k = (cfg, name)
        if k not in self._crates:
            d = self.dumpdir(cfg)
            if d is None:
                # nothing can be said about a configuration that does not compile
                self.notes.append('configuration %s does not compile: the default configuration is analysed in its place' % cfg)
                print('  note: %s' % self.notes[-1])
                self._crates[k] = self.crate('default', name)
            else:
                self._crates[k] = ir.load(d, cfg, name)
        return self._crates[k]

    def slice(self, want):
        """time for one analysis: the whole check stays well below its 900 s"""
        left = self.limit - (time.time() - self.t0)
        return max(3, min(want, left / 4))

    # ---- obligations -----------------------------------------------------------------------
    def rule(self, text):
        self.rules.append(text)

    def ok(self, name, detail=''):
        self.obs.append(('ok', name, detail))

    def undecided(self, name, detail=''):
        self.obs.append(('undecided', name, detail))

    def violation(self, key, text, name=None):
        self.obs.append(('violated', name or key, text))
        self.viols.append((key, text))

    def count(self, what, n=1):
        self.counts[what] = self.counts.get(what, 0) + n

    def guard(self, name, f, *a, **k):
        """one obligation, in a process of its own; an internal failure of the analysis leaves it undecided"""
        if self.child or self.jobs < 2:
            return self._guard(name, f, *a, **k)
        while len(self.running) >= self.jobs:
            self._reap()
        path = tempfile.mktemp(prefix='ob-', dir=self.obdir())
        slot = len(self.slots)
        self.slots.append((path, name))
        sys.stdout.flush()
        pid = os.fork()
        if pid:
            self.running[pid] = slot
            return
        try:
            self.child = True
            self.obs, self.viols, self.notes, self.counts = [], [], [], {}
            self._guard(name, f, *a, **k)
            with open(path, 'wb') as o:
                pickle.dump((self.obs, self.viols, self.notes, self.counts, self.analysed, self.rules), o)
        finally:
            sys.stdout.flush()
            os._exit(0)

    def _guard(self, name, f, *a, **k):
        t = time.time()
        timed = self.child or self.jobs < 2
        try:
            if timed:
                # whatever the analysis does in between, an obligation ends in time
                signal.signal(signal.SIGALRM, late)
                signal.setitimer(signal.ITIMER_REAL, max(10, min(180, self.limit - (t - self.t0))), 5)
            return f(*a, **k)
        except SystemExit:
            raise
        except Exception as e:
            if os.environ.get('VERIF_DEBUG'):
                traceback.print_exc()
            self.undecided(name, 'analysis gave up: %s: %s' % (type(e).__name__, str(e)[:300]))
        finally:
            if timed:
                signal.setitimer(signal.ITIMER_REAL, 0)
            if os.environ.get('VERIF_TIMES'):
                print('   %6.1f s %s' % (time.time() - t, name))

    def obdir(self):
        if self._ob is None:
            base = os.environ.get('VERIF_BUILD', os.path.join(VERIF, '.build'))
            os.makedirs(base, exist_ok=True)
            self._ob = tempfile.mkdtemp(prefix='ob-%s-' % self.pid, dir=base)
        return self._ob

    def _reap(self):
        pid, _ = os.wait()
        self.running.pop(pid, None)

    def flush(self):
        """collect the obligations that ran in processes of their own, in order"""
        while self.running:
            self._reap()
        for path, name in self.slots:
            try:
                with open(path, 'rb') as i:
                    obs, viols, notes, counts, analysed, rules = pickle.load(i)
            except (OSError, EOFError):
                self.undecided(name, 'the analysis process ended early')
                continue
            os.unlink(path)
            self.obs += obs
            self.viols += viols
            self.notes += notes
            self.analysed |= analysed
            self.rules += [r for r in rules if r not in self.rules]
            for k, n in counts.items():
                self.count(k, n)
        self.slots = []

    # ---- verdict ---------------------------------------------------------------------------
    def finish(self, floor, explanation):
        self.flush()
        decided = [o for o in self.obs if o[0] != 'undecided']
        und = [o for o in self.obs if o[0] == 'undecided']
        if len(decided) < floor:
            self.viols.append(('floor', 'only %d of the %d+ obligations confirmed on the reference tree could be '
                               'decided; the anchors of this property are gone or unreadable: %s'
                               % (len(decided), floor, '; '.join('%s (%s)' % (o[1], o[2]) for o in und[:12]))))
        known = load_known(self.pid)
        rep = []
        new = []
        hit = set()
        for k, t in self.viols:
            if k in known:
                hit.add(k)
            else:
                new.append((k, t))
        out = os.path.join(VERIF, 'evidence')
        os.makedirs(out, exist_ok=True)
        print('%s %s' % (self.pid, self.title))
        for r in self.rules:
            print('  rule: %s' % r)
        for s, n, d in self.obs:
            if s != 'ok' or os.environ.get('VERIF_VERBOSE'):
                print('  [%s] %s%s' % (s, n, ' -- ' + d if d else ''))
        print('  analysed %d functions; %d obligations: %d hold, %d violated, %d undecided'
              % (len(self.analysed), len(self.obs), len([o for o in self.obs if o[0] == 'ok']),
                 len([o for o in self.obs if o[0] == 'violated']), len(und)))
        for k in sorted(self.counts):
            print('  %s: %d' % (k, self.counts[k]))
        ev = {
            'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': 'other',
            'coverage': {
                'explanation': explanation,
                'rules': self.rules,
                'functions_analysed': sorted(self.analysed),
                'obligations': [{'status': s, 'name': n, 'detail': d} for s, n, d in self.obs],
                'counts': self.counts,
                'decided': len(decided), 'undecided': len(und), 'floor': floor,
                'notes': self.notes,
                'configurations': sorted({'%s/%s' % k for k in self._crates}),
            },
            'wall_s': round(time.time() - self.t0, 2),
        }
        with open(os.path.join(out, self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        for k in sorted(hit):
            print('KNOWN-FINDING: property=%s %s: %s' % (self.pid, k, known[k]))
        for d in filter(None, (self._ob,)):
            shutil.rmtree(d, ignore_errors=True)
        if self._tmp:
            shutil.rmtree(self._tmp, ignore_errors=True)
        if new:
            path = os.path.join(out, self.pid + '.report.txt')
            with open(path, 'w') as f:
                for k, t in new:
                    f.write('%s\n  %s\n' % (k, t))
            for k, t in new:
                print('  violated: %s: %s' % (k, t))
            print('VIOLATION property=%s replay=%s' % (self.pid, path))
            return 1
        return 0


def load_known(pid):
    out = {}
    try:
        for line in open(KNOWN):
            line = line.strip()
            if line.startswith('finding: property=%s ' % pid):
                rest = line.split(' ', 2)[2]
                if rest.startswith('key='):
                    key, _, txt = rest[4:].partition(' :: ')
                    out[key.strip()] = txt.strip()
    except FileNotFoundError:
        pass
    return out
