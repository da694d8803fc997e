"""C09: shared lookups are free of data races."""
from base import *
import json
import os
import c06
import c08
import c22
import iters
import rawptr

PROMISE = 'promise: nothing is declared Send or Sync by hand'
ALL = 'all: a type has Send and Sync when everything it is generic over has them'
NEEDS = 'needs: a type has Send or Sync only if everything it stores can be shared or sent'
STATE = 'state: nothing a collection or iterator holds can change behind a shared reference'
GLOBAL = 'global: no operation uses a variable that changes behind it'
WRITE = 'write: nothing is written through a pointer made from a shared reference'
ASSUME = ['Send and Sync of keys, values, hashers and standard types are sound']
AUTO = ('Send', 'Sync')


def check(W):
    obs = []
    ids = c22.subjects(W)
    for cr in crates(W):
        for imp in cr['impls']:
            if (imp['trait'] or '').split('::')[-1] in AUTO and (imp['trait'] or '').split('::')[0] in ('std', 'core'):
                neg = 'Negative' in (imp['pol'] or '')
                obs.append(Ob(PROMISE, ty_str(imp['self']), imp['span'], VIOLATED, '%s is %s by declaration, not because of what it holds' % (
                    ty_str(imp['self']), ('not ' if neg else '') + imp['trait'].split('::')[-1])))
    for aid in sorted(ids):
        a = W.F.adts[aid]
        obs.append(Ob(PROMISE, W.name(aid), a['span'], PROVED))
        for tr in AUTO:
            r = a['auto'][tr]
            obs.append(Ob(ALL, W.name(aid), a['span'], PROVED if r['full'] else VIOLATED, '' if r['full'] else
                          '%s is not %s though everything it is generic over is Send and Sync' % (a['name'], tr)))
            if not r['full']:
                continue
            have = {n[0] for n in r['needs']}
            for p in sorted(stored(W, aid, set())):
                if p not in a['g']:
                    continue
                ok = p in have
                obs.append(Ob(NEEDS, W.name(aid), a['span'], PROVED if ok else VIOLATED, '' if ok else
                              '%s is %s whatever %s is, which it stores' % (a['name'], tr, p)))
                if aid in c08.collections(W) and ok and (p, tr) not in {tuple(n) for n in r['needs']}:
                    obs.append(Ob(NEEDS, W.name(aid), a['span'], VIOLATED, '%s needs %s of %s to be %s' % (a['name'], have, p, tr)))
                elif aid in c08.collections(W) and ok and [n for n in r['needs'] if n[0] == p and n[1] != tr]:
                    obs.append(Ob(NEEDS, W.name(aid), a['span'], VIOLATED, '%s is %s only if %s is also %s' % (a['name'], tr, p, [n[1] for n in r['needs'] if n[0] == p])))
        bad = None
        for v in a['variants']:
            for f in v['f']:
                x = c22.cell(f['ty'])
                if x:
                    bad = '%s holds a %s' % (f['n'], x)
        rawp = bad is not None and 'raw pointer' in bad
        obs.append(Ob(STATE, W.name(aid), a['span'], UNDECIDED if rawp else VIOLATED if bad else PROVED, bad or ''))
    obs += globals_(W)
    obs += writes(W)
    return once(obs)


def crates(W):
    yield W.F.j
    for f in sorted(os.listdir(W.facts_dir)):
        if f.endswith('.json') and f != W.F.crate + '.json':
            yield json.load(open(os.path.join(W.facts_dir, f)))


def stored(W, aid, seen):
    """Type parameters values of which are inside a value of the type."""
    out = set()
    if aid in seen:
        return out
    for v in W.F.adts[aid]['variants']:
        for f in v['f']:
            out |= inside(W, f['ty'], seen | {aid})
    return out


def inside(W, ty, seen):
    if ty['k'] == 'param':
        return {ty['n']}
    if ty['k'] == 'adt':
        if ty['n'].split('::')[-1] == 'PhantomData':
            return set()
        args = [x for x in ty['a'] if x['k'] != 'region']
        if ty['id'] in W.F.adts:
            gs = [g for g in W.F.adts[ty['id']]['g'] if not g.startswith("'")]
            ins = stored(W, ty['id'], seen)
            return set().union(*[inside(W, x, seen) for g, x in zip(gs, args) if g in ins], set())
        return set().union(*[inside(W, x, seen) for x in args], set())
    if ty['k'] == 'tuple':
        return set().union(*[inside(W, x, seen) for x in ty['a']], set())
    if ty['k'] in ('ref', 'ptr', 'slice', 'array'):
        return inside(W, ty['t'], seen)
    return set()


def globals_(W):
    obs = []
    uses = {}
    for bid, b in W.F.bodies.items():
        for o in operands([b.blocks] + [q.blocks for q in b.promoted]):
            if o.get('o') in ('static', 'uneval'):
                uses.setdefault(o['n'], set()).add(c06.outer(W, bid))
    for s in W.F.j['statics']:
        what = 'a static mut' if s['m'] else 'a thread local' if s['ty']['k'] == 'adt' and s['ty']['n'].split('::')[-1] == 'LocalKey' else c22.cell(s['ty'])
        if what and s.get('const') and not what.startswith('a thread'):
            continue
        by = set()
        if what:
            up = c06.reaching(W, uses.get(s['path'], ()))
            by = {f for f in up if f in W.F.fns and user(W, W.F.fns[f])}
        obs.append(Ob(GLOBAL, s['path'].split('::', 1)[-1], s['span'], VIOLATED if by else PROVED, '' if not by else '%s uses %s' % (W.fname(sorted(by)[0]), what)))
    return obs


def user(W, f):
    """Something called on a collection or iterator that is already there."""
    if not f['in'] or f['in'][0]['k'] != 'ref':
        return False
    t = f['in'][0]['t']
    return t['k'] == 'adt' and (t.get('id') in c08.collections(W) or t.get('id') in W.tables or t.get('id') in iters.iterator_impls(W.F))


def operands(x):
    if isinstance(x, dict):
        if isinstance(x.get('o'), str):
            yield x
        for v in x.values():
            yield from operands(v)
    elif isinstance(x, list):
        for v in x:
            yield from operands(v)


# ---- writes through shared references -----------------------------------------------

def writes(W):
    obs = []
    for bid, b in W.F.bodies.items():
        bad, n = rawptr.tainted(b)
        if bad:
            obs.append(Ob(WRITE, b.path.replace(W.F.crate + '::', ''), bad[0], VIOLATED, bad[1]))
        elif n:
            obs.append(Ob(WRITE, b.path.replace(W.F.crate + '::', ''), b.span, PROVED))
    # what the analysis of unsafe operations says about the places they reach
    ss = [x for x in c06.sites(W)]
    for fid in c06.roots(W):
        f = W.F.fns[fid]
        if not user(W, f) or f['in'][0]['m']:
            continue
        if not ss or fid not in c06.reaching(W, {c06.outer(W, x[0]) for x in ss}):
            obs.append(Ob(WRITE, W.fname(fid), W.span(fid), PROVED))
            continue
        R = c06.alone(W, fid)
        if R.error:
            obs.append(Ob(WRITE, W.fname(fid), W.span(fid), UNDECIDED, R.error))
            continue
        R.activate()
        bad = [e for e in R.it.events if e[0] == 'rawderef' and e[4] and W.feasible(R.it, e[5]) and not (e[3][0] == 'ref' and e[3][2])]
        hard = [e for e in bad if e[3][0] == 'ref']
        obs.append(Ob(WRITE, W.fname(fid), W.span(fid), VIOLATED if hard else UNDECIDED if bad else PROVED, '' if not bad else 'writes through %s' % show((hard or bad)[0][3])[:200]))
    return obs
