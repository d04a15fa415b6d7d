#!/usr/bin/env python3
"""Run checks against planted bugs in scratch copies: sweep.py [--all] [ID ...]

Each /verif/seeded/ID is applied to a scratch copy of /repo, a copy of the harness is built against
it, and the check of the bug's property (with --all: every check) is run.
"""
import json, os, subprocess, sys, time
S = os.environ.get('SWEEP_DIR', '/tmp/sweep')
ENV = dict(os.environ, CARGO_NET_OFFLINE='true', CARGO_TARGET_DIR=S + '/target', FUSER_PBT_ROOT=S)
def sh(cmd, cwd='/', **kw):
    return subprocess.run(cmd, cwd=cwd, env=ENV, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
args = [a for a in sys.argv[1:] if not a.startswith('--')]
every = '--all' in sys.argv
ids = args or sorted(os.listdir('/verif/seeded'))
sh('mkdir -p %s; test -d %s/repo || git clone -q /repo %s/repo' % (S, S, S))
sh('git fetch -q /repo HEAD && git checkout -q --detach FETCH_HEAD', S + '/repo')
sh('mkdir -p harness types && cp -a /verif/harness/. harness/ && cp -a /verif/types/. types/ && sed -i s,/repo,%s/repo, harness/Cargo.toml types/Cargo.toml && cp /verif/KNOWN_FINDINGS.txt .' % S, S)
checks = [l.split(':')[0] for x in ('pbt', 'types') for l in sh('/verif/target/release/fuser-%s list' % x).stdout.splitlines()]
built = set()
for b in ids:
    meta = json.load(open('/verif/seeded/%s/meta.json' % b))
    sh('git checkout -q -- .', S + '/repo')
    r = sh('git apply /verif/seeded/%s/patch.diff' % b, S + '/repo')
    if r.returncode:
        print(b, 'DOES NOT APPLY', r.stdout); continue
    for c in (checks if every else [meta['property']]):
        crate, name = ('types', 'fuser-types') if c == 'C29' else ('harness', 'fuser-pbt')
        if (b, crate) not in built:
            built.add((b, crate))
            r = sh('cargo clean -q -p html5-fuser --release --offline; cargo build -q --release --offline', S + '/' + crate)
            if r.returncode:
                print(b, 'DOES NOT BUILD', r.stdout[-1500:], flush=True); break
        t = time.time()
        try:
            r = sh('ulimit -v 20000000; %s/target/release/%s check %s' % (S, name, c), timeout=900)
            rc, text = r.returncode, r.stdout
        except subprocess.TimeoutExpired:
            rc, text = 'TIMEOUT', ''
        lines = [l for l in text.splitlines() if l.strip()]
        hit = rc == 1 and any(l.startswith('VIOLATION property=%s ' % c) for l in lines)
        word = 'caught' if hit else ('missed' if rc == 0 else 'ERROR %s' % rc)
        msg = next((l for l in lines if l.startswith(c + ' part')), lines[-1] if lines else '')
        print('%-24s %s %-7s %4.0f s  %s' % (b, c, word, time.time() - t, msg[:230]), flush=True)
sh('git checkout -q -- .', S + '/repo')
