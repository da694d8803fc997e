"""C05: contiguous-range collections hold exactly a gap-free key range."""
from base import *
import c02
import c03
from lookup import *

ASSUME = ['the distance between the smallest and the largest key is representable in the key type (otherwise the constructor panics)', 'keys are pairwise distinct (for lookups)']


def check(W):
    obs = []
    for role in W.ranges:
        obs += [o for a, o in rangemap.settle(W, role)]
        for fid in W.makers(role):
            R = W.analyse(fid)
            if R.error:
                continue
            for o in R.outs:
                R.activate()
                if o[0] == 'panic' and W.feasible(R.it, o[1].facts):
                    obs.append(ob(W, 'accept: consecutive keys are never rejected', fid, rangemap.refuted(W, R.it, o[1]), lookup.und_facts(o[1].facts),
                                  'panics (%s) although nothing contradicts consecutive keys: %s' % (o[2], showfacts(o[1].facts)[:500])))
    # lookups that reach a range
    for a, m, n, fid in ops(W):
        form, want = (MAP_OPS if m else SET_OPS)[n]
        R, cs = cases(W, fid, form)
        if R.error:
            continue
        key = key_param(W, fid)
        for c in cs:
            R.activate()
            st = storages(W, R.it, R.me, c.S.facts)
            if not any(k == 'range' for _, k, _ in st):
                continue
            if c.kind == 'hit' and W.feasible(R.it, c.S.facts):
                ok, und, d = check_hit(W, R, fid, n, form, want, c)
                obs.append(ob(W, 'hit: the entry stored under the query', fid, ok, und, d))
            elif c.kind == 'miss' or c.kind == 'panic' and form == 'ref':
                obs.extend(c02.miss(W, R, fid, c, key))
            elif c.kind == 'panic':
                bad, und, d = panics_for_stored(W, R.it, c.S, key, R)
                obs.append(ob(W, 'panic: no lookup of a stored key panics', fid, not bad, und, d))
    # the general-purpose collections
    for aid, f in c03.constructors(W):
        fid = f['id']
        if aid in W.ranges or not chooses(W, aid):
            continue
        R = W.analyse(fid)
        if R.error:
            obs.append(Ob('choose', W.fname(fid), W.span(fid), UNDECIDED, R.error))
            continue
        n = 0
        for o in R.outs:
            R.activate()
            if not W.feasible(R.it, o[1].facts):
                continue
            if o[0] == 'panic':
                if not any(x and x[0] == 'sorted' for fs in [o[1].facts] + [b[0] for l in o[1].loops for b in l[2].backs] for a, _ in fs for x in subterms(a)):
                    continue   # nothing to do with ranges: C26
                ks, und = rangemap.runs(W, R.it, o[1])
                ok = bool(ks) and rangemap.refuted(W, R.it, o[1], ks)
                obs.append(ob(W, 'choose: the range layout is chosen only for consecutive keys', fid, ok, lookup.und_facts(o[1].facts) and not und,
                              'construction can panic (%s): %s' % (o[2], showfacts(o[1].facts)[:500])))
            elif o[0] == 'ret':
                v = R.it.strip(o[1], o[2])
                if any(t and t[0] == 'agg' and t[1][0] == 'adt' and t[1][1] in W.ranges for t in subterms(v)):
                    n += 1
                    ks, und = rangemap.runs(W, R.it, o[1])
                    obs.append(ob(W, 'choose: the range layout is chosen only for consecutive keys', fid, bool(ks), not und and lookup.und_facts(o[1].facts), 'chosen when ' + showfacts(o[1].facts)[:400]))
    return obs


def chooses(W, aid):
    """Is the type built on an enum one of whose layouts is a range?"""
    def go(ty, seen, enum):
        ty = adt_of(ty)
        if ty['k'] != 'adt' or ty['id'] not in W.F.adts or ty['id'] in seen:
            return False
        if ty['id'] in W.ranges:
            return enum
        a = W.F.adts[ty['id']]
        return any(go(f['ty'], seen | {ty['id']}, enum or a['kind'] == 'enum') for v in a['variants'] for f in v['f'])
    a = W.F.adts[aid]
    return any(go(f['ty'], {aid}, a['kind'] == 'enum') for v in a['variants'] for f in v['f'])
