"""Make and confirm a planted bug.  mkseed.py SPEC.py [ID...]
SPEC.py defines SEEDS = {id: dict(prop=, edits=[(file, old, new)], needs=, breaks=, demo= shell text, files={name: text})}.
Works in the scratch copy /tmp/seedrepo; writes /verif/seeded/<id>/."""
import json, os, subprocess, sys, runpy
REPO, S = '/repo', '/tmp/seedrepo'
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = {'HOME': '/root', 'PATH': '/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin'}
RUST = r'''#!/bin/bash
# cwd: the repository under test.  Exit 0: behaves as promised.
D=$(cd "$(dirname "$0")" && pwd); R=$PWD
export HOME=/root PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
T=$(mktemp -d /tmp/toon-demo-XXXXXX)
mkdir "$T/src"; cp "$D/main.rs" "$T/src/main.rs"; cp "$R/Cargo.lock" "$T/Cargo.lock"
cat > "$T/Cargo.toml" <<EOF
[package]
name = "toon-demo"
version = "0.0.0"
edition = "2021"
[dependencies]
toon = { package = "toon-rs", path = "$R/crates/toon"FEATURES }
serde = { version = "1", features = ["derive"] }
serde_json = "1"
[workspace]
EOF
(cd "$T" && CARGO_TARGET_DIR="$T/target" timeout 280 cargo run --offline -q)
rc=$?
case "$T" in /tmp/toon-demo-*) rm -rf "$T";; esac
exit $rc
'''
CLI = r'''#!/bin/bash
# cwd: the repository under test.  Exit 0: behaves as promised.
CLI=$PWD/target/debug/toon-cli
rt() { printf '%s' "$1" | "$CLI" | "$CLI" --decode; }
'''


def sh(cmd, cwd=S, env=ENV, t=1500):
    r = subprocess.run(['bash', '-c', cmd], cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t)
    return r.returncode, r.stdout


def fresh():
    if not os.path.isdir(S):
        sh('cp -a /repo ' + S, '/')
    sh('git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD')


def build():
    src = open('/opt/vp/build.sh').read().replace('cd /repo', 'cd ' + S)
    return sh(src)


def tests():
    src = open('/opt/vp/test.sh').read().replace('/repo', S).replace('OUT=$(realpath -m "${1:?usage: test.sh OUT.json}")', 'OUT=/tmp/seed-out.json')
    sh(src)
    base = json.load(open('/opt/vp/BASELINE.json'))
    out = json.load(open('/tmp/seed-out.json'))
    stable = set(base.get('stable') or base.get('passed'))
    return sorted(stable - set(out['passed']))


def demo_text(sp):
    if 'rust' in sp:
        f = sp.get('features')
        extra = ', features = [%s]' % ', '.join('"%s"' % x for x in f) if f else ''
        if sp.get('nodef'):
            extra = ', default-features = false' + extra
        return RUST.replace('FEATURES', extra), {'main.rs': sp['rust']}
    return CLI + sp['demo'], {}


def main():
    spec = runpy.run_path(sys.argv[1])['SEEDS']
    ids = sys.argv[2:] or list(spec)
    for i in ids:
        sp = spec[i]
        fresh()
        d = os.path.join(V, 'seeded', i)
        os.makedirs(d, exist_ok=True)
        demo, files = demo_text(sp)
        for n, t in dict(files, **{'demo.sh': demo}).items():
            open(os.path.join(d, n), 'w').write(t)
        bad = None
        for fn, old, new in sp['edits']:
            p = os.path.join(S, fn)
            t = open(p).read()
            if t.count(old) != 1:
                bad = '%s: %d matches of the old text' % (fn, t.count(old))
                break
            open(p, 'w').write(t.replace(old, new))
        if bad:
            print(i, 'BAD', bad); continue
        rc, diff = sh('git diff')
        open(os.path.join(d, 'patch.diff'), 'w').write(diff)
        json.dump({'property': sp['prop'], 'needs': sp['needs'], 'what_it_breaks': sp['breaks']}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        rc, o = build()
        if rc:
            print(i, 'does not build'); print(o[-1500:]); continue
        miss = tests()
        rp, op = sh('bash %s/demo.sh' % d)
        r0, o0 = sh('bash %s/demo.sh' % d, cwd=REPO)
        print(i, 'tests lost: %s' % miss if miss else 'tests pass', '| demo patched rc=%d clean rc=%d' % (rp, r0),
              'OK' if not miss and rp and not r0 else 'REJECTED', flush=True)
        if not (rp and not r0):
            print(op[-600:]); print('--clean--'); print(o0[-600:])
        if os.environ.get('SEED_CHECK', '1') == '1':
            for c in [sp['prop']] + sp.get('also', []):
                rc, o = sh('VERIF_REPO=%s VERIF_BUILD=/tmp/seedbuild python3 %s/sa/main.py %s quick' % (S, V, c), cwd=V, env=dict(os.environ))
                vl = [l for l in o.splitlines() if 'VIOLATION' in l or 'violated:' in l or l.strip().startswith('[undec')]
                print('   check', c, 'rc=%d' % rc, 'CAUGHT' if rc == 1 else 'missed', '\n      '.join(x[:300] for x in vl[:4]), flush=True)


main()
