#!/usr/bin/env python3
"""mkseed.py SPEC.py [ID...]: confirms planted bugs in scratch copies of /repo and stores them in /verif/seeded.

SPEC.py defines SEEDS, a list of dicts: id, property, edits=[(file, old, new[, occurrence])],
needs, what, demo (body of main.rs), deps (extra Cargo.toml lines, optional), features (apint features, optional),
cmd (command run in the demo crate; default `cargo run -q --offline`).
"""
import json, os, runpy, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
BASE = json.load(open('/opt/vp/BASELINE.json'))
SEEDED = '/verif/seeded'
DEMO = '''#!/bin/bash
# Runs a small program against the crate in the current directory.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
mkdir "$d/src"
cp "$here/main.rs" "$d/src/main.rs"
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$d/Cargo.lock"
cat > "$d/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.0.0"
edition = "2018"
[workspace]
[dependencies]
apint = { path = "$repo"%s }
%s
TOML
cd "$d" && CARGO_TARGET_DIR="$d/target" timeout 250 %s
rc=$?
exit $rc
'''
def passed(copy):
    log = copy + '/target/t.log'
    with open(log, 'w') as f:
        subprocess.run('timeout 780 cargo test --workspace --all-features --no-fail-fast --offline -- --test-threads 4',
                       shell=True, cwd=copy, stdout=f, stderr=subprocess.STDOUT,
                       env=dict(os.environ, CARGO_TARGET_DIR=copy + '/target'))
    t = open(log).read()
    ok = set(); bad = set()
    for l in t.splitlines():
        if l.startswith('test ') and ' ... ' in l:
            n, r = l[5:].rsplit(' ... ', 1)
            r.strip() == 'ok' and ok.add(n.strip()); 'FAILED' in r and bad.add(n.strip())
    return ok, bad, t
def demo(copy, d):
    r = subprocess.run(['bash', d + '/demo.sh'], cwd=copy, capture_output=True, text=True)
    return r.returncode, (r.stdout + r.stderr)[-600:]
def one(s):
    copy = tempfile.mkdtemp(prefix='seed.', dir='/tmp')
    try:
        subprocess.run(['cp', '-a', '/repo/.', copy], check=True)
        stage = copy + '-stage'; os.makedirs(stage, exist_ok=True)
        feats = s.get('features', '')
        open(stage + '/demo.sh', 'w').write(DEMO % (feats and ', ' + feats, s.get('deps', ''), s.get('cmd', 'cargo run -q --offline')))
        open(stage + '/main.rs', 'w').write(s['demo'].lstrip('\n'))
        rc, out = demo(copy, stage)
        if rc: return s['id'], f'demo fails on clean tree rc={rc}: {out}'
        for e in s['edits']:
            f, old, new = e[:3]; occ = e[3] if len(e) > 3 else None
            p = f'{copy}/{f}'; t = open(p).read(); c = t.count(old)
            if c == 0 or (c > 1 and occ is None): return s['id'], f'edit matches {c} times in {f}: {old[:60]!r}'
            i = -1
            for _ in range((occ or 0) + 1): i = t.index(old, i + 1)
            open(p, 'w').write(t[:i] + new + t[i + len(old):])
        diff = subprocess.run(['git', 'diff'], cwd=copy, capture_output=True, text=True).stdout
        open(stage + '/patch.diff', 'w').write(diff)
        ok, bad, t = passed(copy)
        if bad or len(ok) < len(BASE['stable']): return s['id'], f'tests: ok={len(ok)} bad={sorted(bad)[:6]} {"" if ok else t[-1500:]}'
        rc, out = demo(copy, stage)
        if rc == 0: return s['id'], 'demo passes with the patch'
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['what']},
                  open(stage + '/meta.json', 'w'), indent=1)
        dst = f"{SEEDED}/{s['id']}"
        shutil.rmtree(dst, ignore_errors=True); shutil.copytree(stage, dst)
        return s['id'], f'KEPT ok={len(ok)} demo rc={rc} {out.strip().splitlines()[-1][:100] if out.strip() else ""}'
    finally:
        shutil.rmtree(copy, ignore_errors=True); shutil.rmtree(copy + '-stage', ignore_errors=True)
seeds = runpy.run_path(sys.argv[1])['SEEDS']
want = set(sys.argv[2:])
with ThreadPoolExecutor(4) as ex:
    for r in ex.map(one, [s for s in seeds if not want or s['id'] in want]): print(r[0], r[1][:300].replace('\n',' '), flush=True)
