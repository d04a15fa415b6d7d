#!/usr/bin/env python3
"""Mutation testing of the checks: [MUT_STEP=n] mutate.py [--list] [FROM [TO]]

Small syntactic changes of /repo's code, one at a time, in a scratch copy. Those that compile and
pass the existing tests are given to the checks (with a tenth of their cases); /tmp/mut/results.txt
says which check sees each. Survivors are read by hand: equivalent, or a gap.
"""
import glob, json, os, re, subprocess, sys
S = os.environ.get('MUT_DIR', '/tmp/mut')
ENV = dict(os.environ, CARGO_NET_OFFLINE='true', FUSER_PBT_ROOT=S, RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu')
def sh(cmd, cwd='/', env=ENV, timeout=900):
    try:
        return subprocess.run(cmd, cwd=cwd, env=env, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, errors='replace')
    except subprocess.TimeoutExpired:
        return subprocess.CompletedProcess(cmd, 124, 'TIMEOUT')

SWAPS = [
    (r' == ', ' != '), (r' != ', ' == '), (r' \+ 1\b', ' + 2'), (r' \+ 1\b', ''), (r' - 1\b', ''), (r'\+= ', '-= '),
    (r' > ', ' >= '), (r' >= ', ' > '), (r' < ', ' <= '), (r' && ', ' || '), (r' \|\| ', ' && '),
    (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r'if !', 'if '), (r'\bif (?!let|!)', 'if !'),
    (r'\.is_empty\(\)', '.is_empty() == false'), (r'\.is_some\(\)', '.is_none()'), (r'\.is_none\(\)', '.is_some()'),
    (r'\.skip_whitespace\(\)', ''), (r'\.trim\(\)', ''), (r'next_event_skip_noop\(\)', 'next_event()'),
    (r'\bFirst\b', 'Second'), (r'\bSecond\b', 'First'), (r'::self_closed\(', '::open('), (r'::open\(', '::self_closed('),
    (r'\bvoid\(tag', 'self_closed(tag'), (r'input\.location\(\)', 'rest.location()'), (r'rest\.location\(\)', 'input.location()'),
    (r'value_start', 'input.location()'), (r'\.find\(', '.rfind('), (r'\bbreak\b', 'continue'), (r'\bcontinue\b', 'break'),
    (r'\bdepth: 0\b', 'depth: 1'), (r'\blevel: 0\b', 'level: 1'), (r'== 0\b', '== 1'), (r'\bNone =>', 'None if false =>'),
    (r'eq_ignore_ascii_case', 'eq'), (r'"([^"\\{}]+)"', '"x"'), (r"'(\\?[^'])'", "'x'"), (r'\.push\(', '.insert(0, '),
    (r'\.len\(\)', '.len() + 1'), (r'\.len\(\)', '.len().saturating_sub(1)'), (r'\.join\(separator\)', ''), (r'Ok\(\(\)\)', 'Err(fmt::Error)'),
    (r'identifier_eq\(', 'ne('), (r'is_whitespace', 'is_control'), (r'split_whitespace', 'split_ascii_whitespace'),
    (r'opening', 'closing'), (r'closing', 'opening'), (r'\blimit\b', '(limit + 1)'), (r'as_encoded_ref', 'as_raw'), (r'append', 'prepend'), (r'prepend', 'append'),
    (r'from_encoded', 'from_unencoded'), (r'from_unencoded', 'from_encoded'), (r'from_raw', 'from_unencoded_str'), (r'\.all\(', '.any('), (r'\.any\(', '.all('),
    (r'NoRestriction', 'DirectOnly'), (r'DirectOnly', 'NoRestriction'), (r'\.cloned\(\)', '.cloned().skip(1)'), (r'\.iter\(\)', '.iter().rev()'), (r'\.iter\(\)', '.iter().skip(1)'),
    (r'to_lowercase', 'to_string'), (r'_ => None', '_ => unreachable!()'), (r'Ok\(None\)', 'unreachable!()'), (r'Some\(\(event::noop\(\), (.*)\)\)', r'unreachable!()'),
    (r'"&amp;"', '"&"'), (r'"&lt;"', '"<"'), (r'"&gt;"', '">"'), (r'"&quot;"', "\"'\""), (r'\bErr\(error\)', 'Err(error.clone())'),
]
DELETE = re.compile(r'^\s*[^/\s].*\);\s*$')

def mutants():
    out = []
    for path in sorted(glob.glob('/repo/src/**/*.rs', recursive=True)):
        rel = os.path.relpath(path, '/repo')
        lines = open(path).read().split('\n')
        for n, line in enumerate(lines):
            if 'cfg(test)' in line:
                break
            t = line.strip()
            if not t or t.startswith('//') or t.startswith('use ') or t.startswith('#') or t.startswith('where'):
                continue
            seen = set()
            for pat, rep in SWAPS:
                for m in re.finditer(pat, line):
                    new = line[:m.start()] + m.expand(rep) + line[m.end():]
                    if new != line and new not in seen:
                        seen.add(new)
                        out.append((rel, n, line, new))
            if DELETE.match(line) and ' let ' not in line and 'return' not in line:
                out.append((rel, n, line, ''))
    return out

def main():
    ms = mutants()
    if '--list' in sys.argv:
        for i, m in enumerate(ms):
            print(i, m[0], m[1] + 1, m[3].strip())
        return
    args = [int(a) for a in sys.argv[1:]]
    lo = args[0] if args else 0
    hi = args[1] if len(args) > 1 else len(ms)
    sh('mkdir -p %s; test -d %s/repo || cp -a /repo %s/repo' % (S, S, S))
    sh('git checkout -q -- . && git fetch -q /repo HEAD && git checkout -q --detach FETCH_HEAD', S + '/repo')
    sh('mkdir -p harness && cp -a /verif/harness/. harness/ && sed -i s,/repo,%s/repo, harness/Cargo.toml && cp /verif/KNOWN_FINDINGS.txt . && '
       "sed -i 's/let total = if thorough { part.thorough } else { part.quick };/let total = if thorough { part.thorough } else { (part.quick + 9) \\/ 10 };/' harness/src/engine.rs" % S, S)
    checks = [l.split(':')[0] for l in sh('/verif/target/release/fuser-pbt list').stdout.splitlines()]
    hits = {}
    log = open(S + '/results.txt', 'a')
    def say(*a):
        print(*a, file=log, flush=True)
    henv = dict(ENV, CARGO_TARGET_DIR=S + '/target')
    tenv = dict(ENV, CARGO_INCREMENTAL='1')
    for i in range(lo, hi, int(os.environ.get('MUT_STEP', '1'))):
        rel, n, old, new = ms[i]
        p = '%s/repo/%s' % (S, rel)
        sh('git checkout -q -- .', S + '/repo')
        text = open(p).read().split('\n')
        text[n] = new
        open(p, 'w').write('\n'.join(text))
        tag = '%d %s:%d %s' % (i, rel, n + 1, new.strip() or 'deleted: ' + old.strip())
        r = sh('cargo check -q --offline', S + '/repo', tenv)
        if r.returncode:
            continue
        r = sh('timeout -k 5 60 cargo test -q --lib --offline && timeout -k 5 120 cargo test -q --doc --offline', S + '/repo', tenv)
        if r.returncode:
            continue
        r = sh('cargo build -q --release --offline', S + '/harness', henv)
        if r.returncode:
            say('NOBUILD', tag); continue
        # the checks that found something in this file before come first
        order = sorted(checks, key=lambda c: -hits.get((rel, c), 0))
        for c in order:
            r = sh('ulimit -v 20000000; %s/target/release/fuser-pbt check %s' % (S, c), timeout=600)
            if r.returncode != 0:
                hits[(rel, c)] = hits.get((rel, c), 0) + 1
                say('CAUGHT' if r.returncode == 1 else 'ERROR%d' % r.returncode, c, tag); break
        else:
            say('SURVIVED', tag)
    say('END', lo, hi)
main()
