"""C22: clones are faithful and independent; defaults are empty."""
from base import *
import lookup
import c03
import c08
import c11
import iters

ASSUME = ['Clone of keys, values, hashers and of the operands\' iterators is faithful', 'Clone of standard containers copies their contents']
FAITH = 'faithful: every part of the clone is a clone of the same part of the original'
INTACT = 'intact: cloning leaves the original as it was'
APART = 'apart: clones share nothing that can change'
EMPTY = 'empty: a default collection holds no entries'
SHARED = {'Rc', 'Arc', 'Weak'}
MUTABLE = {'Cell', 'RefCell', 'UnsafeCell', 'OnceCell', 'LazyCell', 'Mutex', 'RwLock', 'OnceLock', 'LazyLock', 'SyncUnsafeCell'}


def subjects(W):
    ids = set(c08.collections(W)) | set(W.tables) | set(iters.iterator_impls(W.F))
    more = True
    while more:   # private types inside them
        more = False
        for a in list(ids):
            for v in W.F.adts[a]['variants']:
                for f in v['f']:
                    for x in adts_in(f['ty']):
                        if x in W.F.adts and x not in ids:
                            ids.add(x)
                            more = True
    return ids


def adts_in(ty):
    if ty['k'] == 'adt':
        yield ty['id']
        for a in ty['a']:
            if isinstance(a, dict):
                yield from adts_in(a)
    elif ty['k'] == 'tuple':
        for a in ty['a']:
            yield from adts_in(a)
    elif 't' in ty and isinstance(ty['t'], dict):
        yield from adts_in(ty['t'])


def same(W, it, S, v, t):
    """None if v is a copy of the term t, else the part that is not"""
    v, t = it.strip(S, v), it.strip(S, t)
    if v == t:
        return None
    if v[0] == 'agg' and v[1][0] == 'adt' and v[1][1] in W.F.adts:
        a = W.F.adts[v[1][1]]
        if a['kind'] == 'enum':
            if (('is', t, v[1][2]), True) not in S.facts:
                return 'variant %s' % v[1][2]
        for n, x in zip(v[2], v[3]):
            r = same(W, it, S, x, ('vf', t, v[1][2], n) if a['kind'] == 'enum' else ('f', t, n))
            if r:
                return r
        return None
    if v[0] == 'agg' and v[1][0] == 'tuple':
        for n, x in zip(v[2], v[3]):
            r = same(W, it, S, x, ('f', t, n))
            if r:
                return r
        return None
    if v[0] == 'build' and linear.entails(S.facts, ('eq', mklen(v), mklen(t))) and same(W, it, S, v[3], ('idx', t, v[2])) is None:
        return None
    return '%s is %s' % (show(t), show(v)[:200])


def check(W):
    obs = []
    ids, its = subjects(W), iters.iterator_impls(W.F)
    for imp in W.F.j['impls']:
        tr = (imp['trait'] or '').split('::')[-1]
        aid = imp['self'].get('id')
        if tr not in ('Clone', 'Default') or imp['self']['k'] != 'adt' or aid not in ids:
            continue
        for i in imp['items']:
            fid = i['id']
            if fid not in W.F.bodies:
                continue
            R = W.analyse(fid)
            if R.error:
                obs.append(ob(W, EMPTY if tr == 'Default' else FAITH, fid, False, False, R.error))
                continue
            if i['n'] == 'default' and holds(W, aid):
                obs += default(W, R, fid)
                continue
            if i['n'] not in ('clone', 'clone_from'):
                continue
            ps = run.param_names(W.F.bodies[fid])
            me = ('sym', ps[0])
            seen = from_states(W, fid) if i['n'] == 'clone' and aid in its else []
            if seen:
                obs += seen
                continue
            for o in R.outs:
                R.activate()
                S = o[1]
                if not W.feasible(R.it, S.facts):
                    continue
                if o[0] != 'ret':
                    obs.append(ob(W, FAITH, fid, False, lookup.und_facts(o[1].facts), 'may panic: %s' % (o[2:],)))
                    continue
                if i['n'] == 'clone':
                    v = R.it.strip(S, o[2])
                    why = same(W, R.it, S, v, me)
                    obs.append(ob(W, FAITH, fid, why is None, understood(v) and v[0] == 'agg', '%s when %s' % (why, showfacts(S.facts)[:200])))
                    now = R.it.strip(S, ('ref', (('ext', me), ()), False))
                    obs.append(ob(W, INTACT, fid, same(W, R.it, S, now, me) is None, understood(now), 'leaves the original as %s' % show(now)[:300]))
                else:
                    src = ('sym', ps[1])
                    now = R.it.strip(S, ('ref', (('ext', me), ()), False))
                    why = same(W, R.it, S, now, src)
                    obs.append(ob(W, FAITH, fid, why is None, understood(now) and now[0] == 'agg', 'clone_from: %s' % why))
    obs += apart(W, ids)
    return once(obs)


def from_states(W, fid):
    """What the states an iteration goes through say about cloning an iterator over stored entries."""
    if not hasattr(W, 'clones'):
        W.clones = [o for o in c11.check(W) if o.rule == c11.CLONE]
    return [Ob(FAITH, o.fn, o.span, o.status, o.detail) for o in W.clones if o.fn == W.fname(fid)]


def holds(W, aid):
    return c03.holds_entries(W, {'k': 'adt', 'id': aid, 'n': '', 'a': []}, set())


def default(W, R, fid):
    obs = []
    for o in R.outs:
        R.activate()
        if not W.feasible(R.it, o[1].facts):
            continue
        if o[0] != 'ret':
            obs.append(ob(W, EMPTY, fid, False, lookup.und_facts(o[1].facts), 'may panic: %s' % (o[2:],)))
            continue
        es = c03.stored(W, R.it, o[1], o[2])
        E = es[0] if len(es) == 1 else None
        ok = E is not None and linear.entails(W.with_inv(R.it, o[1].facts), ('eq', mklen(E), I(0)))
        obs.append(ob(W, EMPTY, fid, ok, E is not None and understood(E), 'holds %s' % (show(E)[:200] if E else 'an unknown sequence')))
    return obs


def apart(W, ids):
    """No collection or iterator holds a handle through which a clone could change the original."""
    obs = []
    for aid in sorted(ids):
        a = W.F.adts[aid]
        if not any((i['trait'] or '').split('::')[-1] == 'Clone' and i['self'].get('id') == aid for i in W.F.j['impls']):
            continue
        bad = None
        for v in a['variants']:
            for f in v['f']:
                x = handle(f['ty'])
                if x:
                    bad = '%s of %s holds %s' % (f['n'], a['name'], x)
        obs.append(Ob(APART, a['name'], a.get('span', ''), VIOLATED if bad else PROVED, bad or ''))
    return obs


def handle(ty):
    if ty['k'] == 'ptr':
        return 'a raw pointer'
    if ty['k'] == 'ref':
        return 'a mutable reference' if ty['m'] else cell(ty['t'])
    if ty['k'] == 'adt':
        n = ty['n'].split('::')[-1]
        if n in SHARED:
            return cell(ty)
        if n == 'NonNull' or n.startswith('Atomic') and n != 'Atomic':
            return n
        if n == 'PhantomData':
            return None
        return next((x for x in (handle(y) for y in ty['a'] if isinstance(y, dict) and 'k' in y) if x), None)
    if ty['k'] == 'tuple':
        return next((x for x in map(handle, ty['a']) if x), None)
    if isinstance(ty.get('t'), dict):
        return handle(ty['t'])
    return None


def cell(ty):
    """Something that can change behind a shared reference."""
    if ty['k'] == 'adt':
        n = ty['n'].split('::')[-1]
        if n in MUTABLE or n.startswith('Atomic'):
            return 'shared ' + n
        return next((x for x in (cell(y) for y in ty['a'] if isinstance(y, dict) and 'k' in y) if x), None)
    if ty['k'] == 'tuple':
        return next((x for x in map(cell, ty['a']) if x), None)
    if ty['k'] == 'ptr':
        return 'a raw pointer'
    if isinstance(ty.get('t'), dict):
        return cell(ty['t'])
    return None
