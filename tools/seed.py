#!/usr/bin/env python3
"""Planted bugs: writes /verif/seeded/<id>/ for the entries of bugs.py.
usage: seed.py make [id...]   (patch.diff from the edits, demo, meta)
       seed.py try  [id...]   (on /repo: apply, build, tests, demo, check; undo)"""
import json, os, re, shutil, subprocess, sys, tempfile
V = '/verif'
sys.path.insert(0, V + '/tools')
from bugs import BUGS

DEMO_SCRIPT = '''#!/bin/bash
# runs the history of case*.json on the asset program built from /repo
set -u
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d)
trap 'rm -rf "$work"' EXIT
cp -r "$here/harness" "$work/harness"
. "$work/harness/env.sh"
export CARGO_TARGET_DIR=${DEMO_TARGET:-$work/target}
cd "$work/harness" || exit 2
cargo build --offline -p vp-runner -p vp-prog-asset -p vp-prog-bridge -p vp-prog-proxy >"$work/log" 2>&1 || { tail -30 "$work/log"; exit 2; }
for c in "$here"/case*.json; do
  timeout 60 "$CARGO_TARGET_DIR/debug/vp-runner" script "$c" || exit 1
done
'''
DEMO_CRATE = '''#!/bin/bash
# builds the small program in demo/ against the crates of /repo and runs it
set -u
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d)
trap 'rm -rf "$work"' EXIT
cp -r "$here/demo" "$work/demo"
. "$work/demo/env.sh"
export CARGO_TARGET_DIR=${DEMO_TARGET:-$work/target}
cd "$work/demo" || exit 2
cargo build --offline >"$work/log" 2>&1 || { tail -30 "$work/log"; exit 2; }
timeout 60 "$CARGO_TARGET_DIR/debug/demo" || exit 1
'''

DEMO_JS = '''#!/bin/bash
# runs js/demo.js against the JavaScript clients of /repo
set -u
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d)
trap 'rm -rf "$work"' EXIT
bash "$here/js/build.sh" "$work/demo.cjs" "$here/js/demo.js" || exit 2
timeout 60 node "$work/demo.cjs" || exit 1
'''

def sh(cmd, **k): return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)

def make(b):
    d = '%s/seeded/%s' % (V, b['id'])
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    t = tempfile.mkdtemp(prefix='seed')
    try:
        sh('git -C /repo archive HEAD | tar -x -C %s && cd %s && git init -q . && git add -A && git -c user.email=a -c user.name=a commit -qm x' % (t, t))
        for f, old, new in b['edits']:
            p = os.path.join(t, f); s = open(p).read()
            assert s.count(old) == 1, (b['id'], f, s.count(old), old)
            open(p, 'w').write(s.replace(old, new))
        diff = sh('git -C %s diff' % t).stdout
        assert diff
        open(d + '/patch.diff', 'w').write(diff)
    finally:
        shutil.rmtree(t)
    json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    if 'crate' in b:
        os.makedirs(d + '/demo/src')
        shutil.copy(V + '/harness/env.sh', d + '/demo/env.sh')
        shutil.copy(V + '/harness/Cargo.lock', d + '/demo/Cargo.lock')
        open(d + '/demo/Cargo.toml', 'w').write('[workspace]\n[package]\nname = "demo"\nversion = "0.0.0"\nedition = "2021"\n[dependencies]\n' + b.get('deps', 'nifty-asset-types = { path = "/repo/programs/asset/types" }\nsolana-program = "~1.16"\n'))
        open(d + '/demo/src/main.rs', 'w').write(b['crate'])
        open(d + '/demo.sh', 'w').write(DEMO_CRATE)
    elif 'js' in b:
        shutil.copytree(V + '/harness/js', d + '/js', ignore=shutil.ignore_patterns('driver.js', 'idl.js'))
        open(d + '/js/demo.js', 'w').write(b['js'])
        open(d + '/demo.sh', 'w').write(DEMO_JS)
    else:
        r = sh('cd %s && tar cf - $(git ls-files harness | grep -v "^harness/js/") | tar xf - -C %s' % (V, d)); assert not r.returncode, r.stderr
        for n, c in enumerate(b['cases']):
            json.dump(c, open(d + '/case%d.json' % n, 'w'))
        open(d + '/demo.sh', 'w').write(DEMO_SCRIPT)
    os.chmod(d + '/demo.sh', 0o755)
    print('made', b['id'])

def attempt(b, check=os.environ.get('NOCHECK') is None):
    d = '%s/seeded/%s' % (V, b['id'])
    out = {}
    assert not sh('git -C /repo status --porcelain').stdout.strip(), 'repo not clean'
    demo = lambda: sh('cd /repo && DEMO_TARGET=/tmp/w/demotarget bash %s/demo.sh' % d)
    r = demo(); out['demo_clean'] = r.returncode
    if r.returncode: print(r.stdout[-1500:])
    r = sh('git -C /repo apply %s/patch.diff' % d)
    assert r.returncode == 0, r.stderr
    try:
        r = sh('bash /opt/vp/build.sh'); out['build'] = r.returncode
        if r.returncode: print((r.stdout + r.stderr)[-3000:])
        r = sh('bash /opt/vp/test.sh /tmp/w/t.json')
        try:
            t = json.load(open('/tmp/w/t.json')); base = json.load(open('/opt/vp/BASELINE.json'))
            out['tests'] = sh("python3 - <<'X'\nimport json\nt=json.load(open('/tmp/w/t.json'));print(len(t.get('passed',[])),len(t.get('failed',[])))\nX").stdout.strip()
        except Exception as e: out['tests'] = str(e)
        r = demo(); out['demo_bug'] = r.returncode; print(r.stdout[-600:])
        if check:
            r = sh('cd %s && timeout 900 ./check.py %s quick' % (V, b['property']))
            out['check'] = r.returncode
            print('\n'.join(l[:400] for l in r.stdout.splitlines()[-9:]))
    finally:
        sh('git -C /repo checkout -- .')
    print(b['id'], b['property'], out, flush=True)

if __name__ == '__main__':
    ids = sys.argv[2:]
    bs = [b for b in BUGS if not ids or b['id'] in ids]
    for b in bs: (make if sys.argv[1] == 'make' else attempt)(b)
