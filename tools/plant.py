#!/usr/bin/env python3
"""plant.py BATCH.py [ID...]: confirm planted bugs in a scratch copy and keep them under /verif/seeded.

BATCH.py defines SEEDS = [dict(id, property, edits=[(file, old, new)], demo=rust source, needs, breaks)].
A seed is kept only if the edited tree builds, passes the stable tests, and the demo passes on the
unchanged tree and fails on the edited one.  The property's check is then run on the edited tree.
"""
import json
import os
import runpy
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

V = '/verif'
BASE = '/tmp/plant'
DEMO = r'''#!/bin/bash
# run in the repository; exit 0 if it behaves, nonzero if it does not
set -eu
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
t=$(mktemp -d)
trap 'rm -rf -- "${t:?}"' EXIT
mkdir "$t/src"
cp "$here/demo.rs" "$t/src/main.rs"
cat > "$t/Cargo.toml" <<E
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
frozen-collections-core = { path = "$repo/frozen-collections-core" }
@EXTRA@
[workspace]
E
if [ -f "$repo/Cargo.lock" ]; then cp "$repo/Cargo.lock" "$t/Cargo.lock"; fi
cd "$t"
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$t/target"
cargo run -q --offline
'''


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def stable(repo, log):
    r = sh('. /opt/vp/env.sh; cargo test --workspace --no-fail-fast --offline -- --test-threads 4 > %s 2>&1; python3 /opt/vp/results.py %s.json cargo:%s' % (log, log, log), cwd=repo)
    res = json.load(open(log + '.json'))
    want = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    return sorted(want - set(res['passed']))


def one(args):
    s, slot = args
    repo = '%s/%d/repo' % (BASE, slot)
    sh('git checkout -q -- . && git clean -fdq', cwd=repo)
    out = [s['id']]
    d = '%s/seeded/%s' % (V, s['id'])
    for f, old, new in s['edits']:
        p = os.path.join(repo, f)
        t = open(p).read()
        if t.count(old) != 1:
            return out + ['REJECT: %r occurs %d times in %s' % (old[:60], t.count(old), f)]
        open(p, 'w').write(t.replace(old, new))
    diff = sh('git diff', cwd=repo).stdout
    os.makedirs(d, exist_ok=True)
    open(d + '/patch.diff', 'w').write(diff)
    open(d + '/demo.rs', 'w').write(s['demo'])
    extra = 'frozen-collections = { path = "$repo/frozen-collections" }' if 'frozen_collections::' in s['demo'] else ''
    if 'frozen_collections_macros' in s['demo']:
        extra += '\nfrozen-collections-macros = { path = "$repo/frozen-collections-macros" }'
    if s.get('extra', '') not in extra:
        extra += '\n' + s['extra']
    open(d + '/demo.sh', 'w').write(s.get('sh') or DEMO.replace('@EXTRA@', extra))
    os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    b = sh('. /opt/vp/env.sh; cargo test --workspace --all-targets --no-run --offline', cwd=repo)
    if b.returncode:
        return out + ['REJECT: does not build', b.stdout[-1500:]]
    bad = stable(repo, '%s/%d/log' % (BASE, slot))
    if bad:
        return out + ['REJECT: tests fail %s' % bad[:3]]
    r1 = sh(d + '/demo.sh', cwd=repo)
    if r1.returncode == 0:
        return out + ['REJECT: demo passes with the patch']
    if 'error[' in r1.stdout or 'could not compile' in r1.stdout:
        if not s.get('compile'):
            return out + ['REJECT: demo does not compile', r1.stdout[-1500:]]
    env = dict(os.environ, VERIF_REPO=repo, VERIF_WORK='%s/%d/work' % (BASE, slot), VERIF_EVIDENCE='%s/%d/ev' % (BASE, slot))
    ck = [x for x in [s['property']] if os.path.exists('%s/rules/%s.py' % (V, x.lower()))]
    c = sh('python3 %s/check.py %s' % (V, ' '.join(ck)), env=env) if ck else None
    sh('git checkout -q -- .', cwd=repo)
    r0 = sh(d + '/demo.sh', cwd=repo)
    if r0.returncode:
        return out + ['REJECT: demo fails on the unchanged tree', r0.stdout[-1500:]]
    out.append('OK  demo: ' + (r1.stdout.strip().splitlines() or [''])[-1][:100])
    if c:
        out.append('%s %s' % ('CAUGHT' if c.returncode == 1 else 'MISSED rc=%d' % c.returncode, c.stdout.strip()[:700]))
    return out


def main():
    seeds = runpy.run_path(sys.argv[1])['SEEDS']
    if len(sys.argv) > 2:
        seeds = [s for s in seeds if s['id'] in sys.argv[2:]]
    n = min(4, len(seeds))
    head = sh('git -C /repo rev-parse HEAD').stdout.strip()
    for i in range(n):
        r = '%s/%d/repo' % (BASE, i)
        if not os.path.isdir(r):
            os.makedirs(os.path.dirname(r), exist_ok=True)
            sh('cp -a /repo %s' % r)
        sh('git fetch -q /repo && git checkout -q -f %s && git clean -fdq' % head, cwd=r)
    import queue
    slots = queue.Queue()
    for i in range(n):
        slots.put(i)

    def job(s):
        i = slots.get()
        try:
            return one((s, i))
        finally:
            slots.put(i)
    with ThreadPoolExecutor(n) as ex:
        for r in ex.map(job, seeds):
            print('\n   '.join(r), flush=True)
            if any(x.startswith('REJECT') for x in r) and not os.environ.get('KEEP'):
                shutil.rmtree('%s/seeded/%s' % (V, r[0]), ignore_errors=True)


main()
