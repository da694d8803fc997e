"""C08: keys and elements are frozen after construction."""
from base import *
from lookup import rooted, self_param
import c03
import c06
import c07
import rawptr

SIG = 'signature: mutable access is to map values only, and takes exclusive access'
WRITE = 'write: no operation on a collection changes its storage'
REF = 'reference: every mutable reference handed out is to the value part of a stored entry'
FIELD = 'field: no field of a collection is public'
ASSUME = ['values handed out mutably are changed by the caller as they please', 'interior mutability inside keys is the caller\'s']


def collections(W):
    r = dict(W.maps)
    r.update(W.sets)
    return r


def value_types(W, aid):
    """Types of the value half of the entries a collection stores, in its own parameters."""
    out = []

    def go(ty, seen):
        ty = adt_of(ty)
        e = elem_of(ty)
        if is_pair(e):
            out.append(e['a'][1])
            return
        if ty['k'] != 'adt' or ty['id'] not in W.F.adts or ty['id'] in seen:
            return
        a = W.F.adts[ty['id']]
        env = dict(zip([x for x in a['g'] if not x.startswith("'")], [x for x in ty['a'] if x['k'] != 'region']))
        for v in a['variants']:
            for f in v['f']:
                go(subst_ty(f['ty'], env), seen | {ty['id']})
    for v in W.F.adts[aid]['variants']:
        for f in v['f']:
            go(f['ty'], {aid})
    return out


def receivers(W):
    """(collection, fn) of everything callable on a collection by reference"""
    cols = collections(W)
    for f in W.F.fns.values():
        imp = W.F.fn_impl.get(f['id'])
        if f['id'] not in W.F.bodies or not f['in'] or f['in'][0]['k'] != 'ref':
            continue
        if not (f['exported'] or imp and imp['trait']):
            continue
        t = f['in'][0]['t']
        if t['k'] != 'adt' or t.get('id') not in cols:
            continue
        yield t['id'], f, t


MUT_STD = ('IterMut', 'Drain', 'RefMut', 'ChunksMut', 'ValuesMut', 'MutexGuard', 'RwLockWriteGuard', 'ChunksExactMut', 'RChunksMut', 'SplitMut')


def mut_parts(ty):
    """Types the holder of a value may change through it."""
    out = []
    if ty['k'] in ('ref', 'ptr'):
        if ty['m']:
            out.append(ty['t'])
        else:
            out.extend(mut_parts(ty['t']))
        return out
    if ty['k'] == 'adt' and ty['n'].split('::')[-1] in MUT_STD:
        out.extend(x for x in ty['a'] if isinstance(x, dict) and x['k'] != 'region')
        return out
    for x in ty.get('a', []):
        if isinstance(x, dict):
            out.extend(mut_parts(x))
    if isinstance(ty.get('t'), dict):
        out.extend(mut_parts(ty['t']))
    return out


def check(W):
    obs = []
    cols = collections(W)
    raw = {bid: rawptr.tainted(b)[0] for bid, b in W.F.bodies.items()}
    raw = {bid: x for bid, x in raw.items() if x}
    unsafe = {f: raw[bid] for bid in raw for f in c06.reaching(W, {c06.outer(W, bid)})}
    for aid in cols:
        a = W.F.adts[aid]
        for v in a['variants']:
            for f in v['f']:
                bad = f['vis'] == 'Public' and a['exported'] and c03.holds_entries(W, f['ty'], set())
                obs.append(Ob(FIELD, W.name(aid) + '.' + f['n'], '', VIOLATED if bad else PROVED, 'the field gives direct access to the storage' if bad else ''))
    for aid, f, t in receivers(W):
        fid = f['id']
        a = W.F.adts[aid]
        env = dict(zip([x for x in a['g'] if not x.startswith("'")], [x for x in t['a'] if x['k'] != 'region']))
        vals = [subst_ty(x, env) for x in value_types(W, aid)]
        ms = mut_parts(f['out'])
        bad = [m for m in ms if not any(same_ty(m, v) for v in vals) or aid in W.sets]
        obs.append(ob(W, SIG, fid, not bad, True, 'hands out mutable access to ' + ', '.join(map(ty_str, bad))))
        if not f['in'][0]['m']:
            obs.append(ob(W, SIG, fid, not ms, True, 'hands out mutable access to %s on a shared reference' % ', '.join(map(ty_str, ms))))
            bad = unsafe.get(fid)
            obs.append(ob(W, WRITE, fid, bad is None, True, '%s (at %s)' % (bad[1], bad[0]) if bad else ''))
            continue
        R = W.analyse(fid)
        if R.error:
            obs.append(Ob(WRITE, W.fname(fid), W.span(fid), UNDECIDED, R.error))
            continue
        me = self_param(W, fid)
        for o in R.outs:
            R.activate()
            if not W.feasible(R.it, o[1].facts):
                continue
            w = [(r, x) for r, x in o[1].mem.items() if r[0] == 'ext' and rooted(r[1], me) and x != r[1]]
            obs.append(ob(W, WRITE, fid, not w, all(understood(x) for r, x in w), '; '.join('%s becomes %s' % (show(r[1])[:120], show(x)[:300]) for r, x in w)))
            if o[0] != 'ret':
                continue
            for x in sorted({x for x in subterms(o[2]) if x and x[0] == 'ref' and len(x) == 3 and x[2] is True}, key=repr):
                p = c07.place(x)
                if p is None:
                    root = x[1][0]
                    obs.append(ob(W, REF, fid, False, False, 'hands out %s' % show(x)[:200]))
                    continue
                if not rooted(p, me):
                    continue
                obs.append(ob(W, REF, fid, is_value(W, R.it, p), understood(p), 'hands out %s' % show(x)[:200]))
    return obs


def is_value(W, it, p):
    while p[0] in ('f', 'vf', 'idx'):
        if p[0] == 'f' and p[2] == '1' and p[1][0] == 'idx':
            ty = W.type_of(it, p[1][1])
            if ty is not None and is_pair(elem_of(ty)):
                return True
        p = p[1]
    return False
