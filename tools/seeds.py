#!/usr/bin/env python3
"""Writes the planted changes of seeds.list into seeded/ and confirms each in a scratch copy.
usage: seeds.py make ID...|all   seeds.py run ID...|all (which checks catch it)"""
import json, os, subprocess, sys, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.environ.get('SEED_DIR', '/tmp/seed')
ENV = dict(os.environ, CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never', CARGO_INCREMENTAL='1')
DEMO = '''#!/bin/bash
# run in the repository; the program beside this file fails when the behaviour is broken
set -e
D="$(cd "$(dirname "$0")" && pwd)"
R="$(pwd)"
W="$(mktemp -d)"
trap 'rm -rf "$W"' EXIT
mkdir "$W/src"
cp "$D/demo.rs" "$W/src/main.rs"
printf '[package]\\nname = "demo"\\nversion = "0.1.0"\\nedition = "2021"\\n[dependencies]\\nrphtml = { path = "%s" }\\n[workspace]\\n' "$R" > "$W/Cargo.toml"
cp "$R/Cargo.lock" "$W/Cargo.lock"
cd "$W"
export CARGO_NET_OFFLINE=true RUSTC_WRAPPER=
cargo run --offline -q --target-dir "$W/target"
'''
def seeds():
    ns = {}
    exec(open(V + '/tools/seeds.list').read(), ns)
    return ns['SEEDS']
def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def fresh():
    if not os.path.isdir(S + '/repo'):
        os.makedirs(S, exist_ok=True)
        sh(f'cp -a /repo {S}/repo')
    sh(f'cd {S}/repo && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD')
def tests():
    r = sh(f'cd {S}/repo && cargo test --workspace --no-fail-fast --offline --target-dir {S}/repo/target -- --test-threads 8', env=ENV)
    base = json.load(open('/opt/vp/BASELINE.json'))
    names = base.get('stable') or base.get('passed') or base
    ok = [l.split()[1] for l in r.stdout.splitlines() if l.startswith('test ') and l.endswith('... ok')]
    return len([l for l in r.stdout.splitlines() if l.endswith('... FAILED') and 'test_pre_tag' not in l]), len(ok), r.stdout
def demo(d):
    return sh(f'bash {d}/demo.sh', cwd=S + '/repo', env=ENV)
def make(s):
    fresh()
    f = S + '/repo/src/' + s.get('file', 'parser.rs')
    for old, new in s['edits']:
        t = open(f).read()
        if t.count(old) != 1:
            return f'anchor occurs {t.count(old)} times: {old[:60]!r}'
        open(f, 'w').write(t.replace(old, new))
    d = V + '/seeded/' + s['id']
    os.makedirs(d, exist_ok=True)
    patch = sh(f'cd {S}/repo && git diff').stdout
    open(d + '/patch.diff', 'w').write(patch)
    open(d + '/demo.rs', 'w').write(s['demo'])
    open(d + '/demo.sh', 'w').write(DEMO)
    json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    bad, ok, out = tests()
    if bad or ok < 34:
        shutil.rmtree(d); return f'tests: {bad} failed, {ok} ok\n' + '\n'.join(l for l in out.splitlines() if 'FAILED' in l or l.startswith('error'))[:600]
    r = demo(d)
    if r.returncode == 0:
        shutil.rmtree(d); return 'demo passes with the change'
    w = r.stdout.strip().splitlines()[:3]
    sh(f'cd {S}/repo && git checkout -q -- .')
    r = demo(d)
    if r.returncode != 0:
        shutil.rmtree(d); return 'demo fails without the change: ' + r.stdout[-400:]
    return 'ok (%s)' % ' '.join(w)[:160]
def run(s, props, tier):
    fresh()
    d = V + '/seeded/' + s
    r = sh(f'cd {S}/repo && git apply {d}/patch.diff')
    if r.returncode: return 'patch does not apply'
    res = []
    for p in props or [json.load(open(d + '/meta.json'))['property']]:
        r = sh(f'./run.sh {p} {tier}', cwd=V, env=dict(ENV, RPSA_REPO=S + '/repo'))
        v = [l for l in r.stdout.splitlines() if l.strip()]
        res.append(f'{p}={r.returncode} ' + (v[0][:150] if r.returncode == 1 else (v[-1][:150] if v else '')))
    sh(f'cd {S}/repo && git checkout -q -- .')
    return ' | '.join(res)
if __name__ == '__main__':
    all_ = seeds()
    ids = sys.argv[2:]
    if sys.argv[1] == 'make':
        for s in all_:
            if ids == ['all'] or s['id'] in ids:
                print(s['id'], make(s), flush=True)
    else:
        props = [i for i in ids if len(i) == 3 and i[0] == 'C' and i[1:].isdigit()]
        tier = 'thorough' if 'thorough' in ids else 'quick'
        ids = [i for i in ids if i not in props and i != 'thorough']
        for s in sorted(os.listdir(V + '/seeded')):
            if not ids or ids == ['all'] or s in ids:
                print(s, run(s, props, tier), flush=True)
