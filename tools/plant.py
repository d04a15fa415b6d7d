#!/usr/bin/env python3
"""Author a planted bug: plant.py SPEC.py [...]

A spec is Python assigning: ID, PROPERTY, NEEDS, BREAKS, EDITS = [(file, old, new), ...] and DEMO (Rust
source of a program which exits with a panic when the property is broken). It is applied to a
scratch copy of /repo, built, tested and demonstrated there; only then /verif/seeded/ID is written.
"""
import json, os, shutil, subprocess, sys, tempfile

ENV = dict(os.environ, CARGO_NET_OFFLINE='true', RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu',
           CARGO_INCREMENTAL='1', CARGO_PROFILE_DEV_DEBUG='line-tables-only')
ENV.pop('CARGO_TARGET_DIR', None)
SCRATCH = '/tmp/seed/repo'
DEMO_SH = '''#!/bin/bash
# Exit 0 when the library behaves; run with cwd /repo after a build.
export HOME=/root CARGO_HOME=/root/.cargo RUSTUP_HOME=/root/.rustup PATH=/usr/local/bin:/root/.cargo/bin:$PATH
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu RUSTUP_AUTO_INSTALL=0
here=$(cd "$(dirname "$0")" && pwd)
scratch=$(mktemp -d) || exit 2
trap 'rm -rf "$scratch"' EXIT
rustc --edition 2021 -A warnings -C debuginfo=0 -o "$scratch/demo" "$here/demo.rs" \\
    --extern html5_fuser="$PWD/target/debug/libhtml5_fuser.rlib" \\
    -L dependency="$PWD/target/debug/deps" || exit 3
cd "$scratch" || exit 2
ulimit -c 0
timeout 120 ./demo
'''

def sh(cmd, cwd=SCRATCH):
    return subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)

def build():
    shutil.rmtree  # keep the build directory; ask rustc again about the crate itself
    subprocess.run('rm -rf /tmp/seed/repo/target/debug/.fingerprint/html5-fuser-*', shell=True)
    return sh(['cargo', 'build', '--workspace', '--offline'])

def fresh():
    sh(['git', 'checkout', '-q', '--', '.'])

def tests():
    base = json.load(open('/opt/vp/BASELINE.json'))
    r = sh(['timeout', '-k', '5', '120', 'cargo', 'test', '--workspace', '--no-fail-fast', '--offline', '--', '--test-threads', '8'])
    bad = [l for l in r.stdout.splitlines() if l.startswith('test ') and l.endswith('FAILED')]
    ok = sum(1 for l in r.stdout.splitlines() if l.startswith('test ') and l.endswith('... ok'))
    return bad, ok, r.stdout

def main():
    if not os.path.isdir(SCRATCH):
        os.makedirs('/tmp/seed', exist_ok=True)
        subprocess.check_call(['cp', '-a', '/repo', SCRATCH])
    fresh()
    sh(['git', 'fetch', '-q', '/repo'])
    head = subprocess.check_output(['git', '-C', '/repo', 'rev-parse', 'HEAD'], text=True).strip()
    sh(['git', 'checkout', '-q', '--detach', head])
    failed = 0
    for spec in sys.argv[1:]:
        s = {}
        exec(open(spec).read(), s)
        bid = s['ID']
        tmp = tempfile.mkdtemp(prefix='plant-')
        def out(msg):
            print('%s: %s' % (bid, msg), flush=True)
        def bail(msg):
            nonlocal failed
            failed += 1
            out('REJECTED ' + msg)
        try:
            fresh()
            open(tmp + '/demo.sh', 'w').write(DEMO_SH if 'DEMO_SH' not in s else s['DEMO_SH'])
            os.chmod(tmp + '/demo.sh', 0o755)
            if 'DEMO' in s:
                open(tmp + '/demo.rs', 'w').write(s['DEMO'])
            for name, text in s.get('FILES', {}).items():
                open(os.path.join(tmp, name), 'w').write(text)
            r = build()
            assert r.returncode == 0, r.stdout
            r = sh(['bash', tmp + '/demo.sh'])
            if r.returncode != 0:
                bail('the demo fails on the unchanged tree:\n' + r.stdout[-3000:]); continue
            problem = None
            for file, old, new in s['EDITS']:
                path = os.path.join(SCRATCH, file)
                text = open(path).read()
                if text.count(old) != 1:
                    problem = 'edit matches %d times in %s: %r' % (text.count(old), file, old); break
                open(path, 'w').write(text.replace(old, new))
            if problem:
                bail(problem); continue
            r = build()
            if r.returncode != 0:
                bail('does not compile:\n' + r.stdout[-3000:]); continue
            bad, ok, text = tests()
            if bad or ok < 112:
                bail('tests fail (%d ok): %s\n%s' % (ok, bad, text[-1500:] if not bad else '')); continue
            r = sh(['bash', tmp + '/demo.sh'])
            if r.returncode == 0 or r.returncode == 3 and not s.get('COMPILE'):
                bail('the demo gives %d with the change\n%s' % (r.returncode, r.stdout[-1500:])); continue
            diff = subprocess.check_output(['git', 'diff'], cwd=SCRATCH, text=True)
            dest = '/verif/seeded/' + bid
            os.makedirs(dest, exist_ok=True)
            for f in os.listdir(tmp):
                shutil.copy(os.path.join(tmp, f), dest)
            open(dest + '/patch.diff', 'w').write(diff)
            json.dump({'property': s['PROPERTY'], 'needs': s['NEEDS'], 'what_it_breaks': s['BREAKS']},
                      open(dest + '/meta.json', 'w'), indent=1)
            out('planted (demo: %s)' % r.stdout.strip().splitlines()[-1][:160] if r.stdout.strip() else 'planted')
        finally:
            shutil.rmtree(tmp)
            fresh()
    sys.exit(1 if failed else 0)

main()
