import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
if os.environ.get('PYTHONHASHSEED') != '0':      # the order in which sets are walked must not differ between runs
    os.execve(sys.executable, [sys.executable] + sys.argv, dict(os.environ, PYTHONHASHSEED='0'))
import chk
import registry


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    p = registry.PROPS[pid]
    ck = chk.Check(pid, p['title'], tier if tier in ('quick', 'thorough') else 'quick')
    for g in p['checks']:
        ck._guard(g.__name__, g, ck)
    return ck.finish(p['floor'], p['how'])


if __name__ == '__main__':
    sys.exit(main())
