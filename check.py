#!/usr/bin/env python3
"""check.py ID...: decide properties on /repo's working tree by static analysis.

Exit 0: no obligation violated.  Exit 1: VIOLATION lines.  Exit 2: no answer (the tree does not build).
"""
import fcntl
import hashlib
import importlib
import json
import os
import shutil
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, 'engine'), os.path.join(HERE, 'rules')]
sys.setrecursionlimit(20000)
REPO = os.environ.get('VERIF_REPO', '/repo')
WORK = os.environ.get('VERIF_WORK', os.path.join(HERE, '.work'))
OUT = os.environ.get('VERIF_EVIDENCE', os.path.join(HERE, 'evidence'))


def tree_hash():
    h = hashlib.sha256()
    files = []
    for d, ds, fs in os.walk(REPO):
        ds[:] = sorted(x for x in ds if x not in ('.git', 'target'))
        for f in sorted(fs):
            if f.endswith(('.rs', '.toml', '.lock')):
                files.append(os.path.join(d, f))
    files += [os.path.join(HERE, 'driver', 'main.rs'), os.path.join(HERE, 'build.sh')]
    for f in files:
        h.update(f.encode() + b'\0')
        with open(f, 'rb') as x:
            h.update(x.read())
    return h.hexdigest()[:20]


def facts_dir():
    os.makedirs(WORK, exist_ok=True)
    with open(os.path.join(WORK, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        k = tree_hash()
        d = os.path.join(WORK, 'facts', k)
        if not os.path.exists(os.path.join(d, 'done')):
            base = os.path.join(WORK, 'facts')
            if os.path.isdir(base):
                old = sorted((os.path.join(base, x) for x in os.listdir(base)), key=os.path.getmtime)
                for x in old[:-4]:
                    shutil.rmtree(x, ignore_errors=True)
            r = subprocess.run([os.path.join(HERE, 'build.sh'), WORK, d])
            if r.returncode or tree_hash() != k and not os.path.exists(os.path.join(d, 'frozen_collections_core.json')):
                print('cannot extract facts: /repo does not build', file=sys.stderr)
                sys.exit(2)
            open(os.path.join(d, 'done'), 'w').close()
        return d


def known(pid):
    out = []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('finding: property=%s ' % pid):
                out.append(l.split(' ', 2)[2])
    return out


def main():
    import world
    ids = sys.argv[1:]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    d = facts_dir()
    from facts import Facts
    W = world.World(Facts(os.path.join(d, 'frozen_collections_core.json')))
    W.facts_dir, W.tier, W.repo, W.here, W.work = d, tier, REPO, HERE, WORK
    os.makedirs(OUT, exist_ok=True)
    rc = 0
    for pid in ids:
        t1 = time.time()
        if len(ids) == 1:
            t1 = t0
        m = importlib.import_module(pid.lower())
        obs = m.check(W)
        kf = known(pid)
        bad, shown = [], []
        for o in obs:
            if o.status != world.VIOLATED:
                continue
            hit = [k for k in kf if k == '%s: %s' % (o.rule, o.fn)]
            (shown if hit else bad).append(o)
        und = [o for o in obs if o.status == world.UNDECIDED]
        for o in sorted({'%s: %s' % (o.rule, o.fn) for o in shown}):
            print('KNOWN-FINDING: property=%s %s' % (pid, o))
        rules = {}
        for o in obs:
            r = rules.setdefault(o.rule, {'obligations': 0, 'proved': 0, 'functions': set()})
            r['obligations'] += 1
            r['proved'] += o.status == world.PROVED
            r['functions'].add(o.fn)
        for r in rules.values():
            r['functions'] = sorted(r['functions'])
        trust = ['rustc (front end, MIR construction, type checker)', 'the models of std functions in engine/models.py',
                 'the abstract interpreter in engine/'] + list(getattr(m, 'TRUST', []))
        ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'proof', 'wall_s': round(time.time() - t1, 2),
              'coverage': {
                  'obligations': len(obs), 'discharged': len([o for o in obs if o.status == world.PROVED]),
                  'undecided': [repr(o)[:600] for o in und][:60], 'violated': [repr(o)[:1500] for o in bad],
                  'known_findings': [repr(o)[:600] for o in shown],
                  'checker_cmd': 'python3 check.py ' + pid, 'trusted_base': trust,
                  'rules': rules, 'assumptions': list(getattr(m, 'ASSUME', [])),
                  'functions_analysed': len(W.stats['functions']), 'paths': W.stats['paths'], 'steps': W.stats['steps'],
                  'samples': [repr(o)[:400] for o in obs[:5]]}}
        with open(os.path.join(OUT, pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        print('%s: %d obligations, %d proved, %d undecided, %d violated (%.1fs)' % (
            pid, len(obs), ev['coverage']['discharged'], len(und), len(bad), time.time() - t1))
        if not obs:
            print('no obligations: the check found nothing to analyse', file=sys.stderr)
            rc = rc or 2
        if bad:
            rp = os.path.join(OUT, pid + '.violation.txt')
            with open(rp, 'w') as f:
                for o in bad:
                    f.write('%s\n  rule: %s\n  %s\n  %s\n\n' % (o.fn, o.rule, o.span, o.detail))
            for o in bad[:5]:
                print('  ' + repr(o)[:700])
            print('VIOLATION property=%s replay=%s' % (pid, rp))
            rc = 1
    return rc


if __name__ == '__main__':
    try:
        sys.exit(main())
    except SystemExit:
        raise
    except Exception:
        traceback.print_exc()
        sys.exit(2)
