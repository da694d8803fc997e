"""C07: get_many_mut never aliases and answers in order."""
from base import *
from lookup import *
import c02

ASSUME = ['keys are pairwise distinct', 'Eq and Hash of keys and queries are lawful (for which queries hit; that references never alias does not depend on it)', 'the window given to a slice collection does not end before it starts']
RULES = {'alias': 'alias: no two references designate the same value',
         'order': 'order: reference i is to the value stored under query i',
         'none': 'none: nothing is returned only if two queries are equal or some query is not stored',
         'panic': 'panic: a multi-key lookup of stored keys does not panic'}


def many(W):
    for a, ms in W.maps.items():
        for n in ('get_many_mut',):
            for imp, f in ms.get(n, []):
                yield a, f['id']


def at_iter(t, rec, nx, i):
    """The term t, about position i of a completed loop, at the iteration recorded by nx."""
    m = rec.n

    def go(x):
        if x == i:
            return m
        r = rebuild(x, go)
        if r[0] == 'app' and r[1] == 'at' and r[3] == m:
            return r[2]
        if r[0] == 'idx' and r[2] == m:
            s = r[1]
            if s[0] == 'fill':
                return go(subst(s[4], {s[3]: m}))
            for p, v in nx.items():
                if v[0] == 'upd' and v[2] == ('idx', m) and (p == s or v[1] == s):
                    return v[3]
        return r
    return go(t)


def check_some(W, R, fid, S, v, keys):
    """[(rule, ok, understood, detail)]"""
    it = R.it
    facts = S.facts
    me = self_param(W, fid)
    v = v if v[0] == 'build' else v
    out = []
    if v[0] == 'agg' and v[1][0] in ('array', 'tuple') and not v[3]:
        n0 = linear.entails(facts, ('eq', mklen(keys), I(0)), True)
        return [('order', n0, True, 'returns no references')]
    if v[0] != 'build':
        return [('order', False, False, 'result ' + show(v)[:200])]
    n, i, r = v[1], v[2], v[3]
    N = mklen(keys)
    if not linear.entails(facts, ('eq', n, N), True):
        return [('order', False, understood(n), 'returns %s references for %s queries' % (show(n), show(N)))]
    if r[0] != 'ref':
        return [('order', False, False, 'result ' + show(r)[:200])]
    t = it.place_term(r[1]) if hasattr(it, 'place_term') else None
    t = place(r)
    if t is None or t[0] != 'f' or t[1][0] != 'idx' or not rooted(t, me):
        return [('order', False, t is not None and understood(t), 'hands out %s' % show(r)[:200])]
    if t[2] != '1':
        return [('order', False, True, 'hands out part %s of an entry' % t[2])]
    E, J = t[1][1], t[1][2]
    # order
    ok, und, det = False, True, 'no loop establishes that entry %s is stored under query i' % show(J)[:200]
    for lid, taken, rec in recs_of(S):
        if not rec.backs or not linear.entails(facts, ('lt', taken, N), False):
            continue
        good = True
        for fs, inner, nx in rec.backs:
            j = at_iter(J, rec, nx, i)
            k = mkidx(keys, rec.n)
            e = mkidx(E, j)
            f2 = W.with_inv(it, tuple(rec.head) + tuple(fs) + tuple(x for x in facts if x not in fs and rec.n not in subterms(x[0])), [e, mklen(E), ('f', e, '0')])
            if not known_eq(f2, ('f', e, '0'), k):
                good = False
                if not (und_facts(fs) and understood(j)):
                    und = False
                det = 'reference i is to entry %s, not known to be stored under query i' % show(j)[:200]
        if good:
            ok = True
            break
    out.append(('order', ok, und and understood(J), det))
    # alias
    al = any(p and a[0] == 'b' and a[1][0] == 'app' and a[1][1] == 'disjoint' and same_indices(a[1][2], i, J) for a, p in facts)
    if not al:
        al = injective(facts, J, i, keys)
    if not al and ok:
        al = pairwise(S, facts, keys, N)
    out.append(('alias', al, understood(J) and und_facts(facts), 'references i and j may both be to entry %s' % show(J)[:200]))
    return out


def place(r):
    """Term of the place a reference designates."""
    (root, path) = r[1]
    if root[0] != 'ext':
        return None
    t = root[1]
    for p in path:
        if p[0] == 'f':
            t = ('f', t, p[1])
        elif p[0] == 'vf':
            t = ('vf', t, p[1], p[2])
        elif p[0] == 'idx':
            t = mkidx(t, p[1])
        else:
            return None
    return t


def same_indices(seq, i, J):
    return eta(mkidx(seq, i)) == J or mkidx(seq, i) == J


def injective(facts, J, i, keys):
    return False


def pairwise(S, facts, keys, N):
    """A completed loop compared every two queries and found them different."""
    for lid, taken, rec in recs_of(S):
        if not linear.entails(facts, ('lt', taken, N), False):
            continue
        ok = bool(rec.backs)
        for fs, inner, nx in rec.backs:
            got = False
            for l2, t2, r2 in inner:
                # all j < n (or all j > n up to N)
                good = bool(r2.backs)
                lo = None
                for f2, _, _ in r2.backs:
                    hit = None
                    for a, p in f2:
                        if a[0] == 'eq' and not p and a[1][0] == 'idx' and a[2][0] == 'idx' and a[1][1] == keys and a[2][1] == keys:
                            for x, y in ((a[1][2], a[2][2]), (a[2][2], a[1][2])):
                                af = affine(x, r2.n)
                                if y == rec.n and af and af[1] == 1:
                                    hit = af[0]
                    if hit is None or lo is not None and lo != hit:
                        good = False
                        break
                    lo = hit
                if not good:
                    continue
                hi = terms.add(lo, t2)
                if linear.entails(fs, ('lt', I(0), lo), False) and linear.entails(fs, ('lt', hi, rec.n), False):
                    got = True      # every earlier query
                if linear.entails(fs, ('lt', terms.add(rec.n, I(1)), lo), False) and linear.entails(fs, ('lt', hi, N), False):
                    got = True      # every later query
            if not got:
                ok = False
        if ok:
            return True
    return False


def two_equal(facts, keys, N):
    for a, p in facts:
        if p and a[0] == 'eq':
            x, y = a[1], a[2]
            if x[0] != 'idx':
                c, d = parts(sub(x, y))
                if c or sorted(d.values()) != [-1, 1]:
                    continue
                x, y = list(d)
            if x[0] == 'idx' and y[0] == 'idx' and x[1] == keys and y[1] == keys:
                i, j = x[2], y[2]
                if linear.entails(facts, ('lt', i, j), True) or linear.entails(facts, ('lt', j, i), True):
                    return True
    return False


def queries(S, keys):
    """Queries the path mentions."""
    s = set()
    for a, p in S.facts:
        s |= {t for t in subterms(a) if t and t[0] == 'idx' and len(t) == 3 and t[1] == keys}
    for lid, taken, rec in recs_of(S):
        s |= {t for t in subterms(taken) if t and t[0] == 'idx' and len(t) == 3 and t[1] == keys}
        for fs, _, _ in rec.backs:
            for a, p in fs:
                s |= {t for t in subterms(a) if t and t[0] == 'idx' and len(t) == 3 and t[1] == keys}
    return sorted(s, key=repr)


def check_none(W, R, fid, S, keys):
    facts = S.facts
    if not W.feasible(R.it, facts):
        return []
    N = mklen(keys)
    if two_equal(facts, keys, N):
        return [('none', True, True, '')]
    for a, p in facts:
        if not p and a[0] == 'b' and a[1][0] == 'app' and a[1][1] == 'disjoint':
            # the positions were found by hits: equal positions mean equal queries
            ind = a[1][2]
            i = ('sym', 'i:dis')
            st = [b for b, k, r in storages(W, R.it, R.me, facts)]
            for b, kind, role in storages(W, R.it, R.me, facts):
                E = b if kind == 'plain' else ('f', b, (W.tables if kind == 'table' else W.ranges)[role]['entries'])
                if mklen(E) != a[1][3]:
                    continue
                J = eta(mkidx(ind, i))
                v = mkbuild(N, i, ('ref', (('ext', E), (('idx', J), ('f', '1'))), True))
                r = check_some(W, R, fid, S, v, keys)
                bad = [x for x in r if x[0] == 'order' and not x[1]]
                if not bad:
                    return [('none', True, True, '')]
                return [('none', False, bad[0][2], 'gives up on overlapping positions that are not those of the queries: ' + bad[0][3])]
    best = None
    for k in queries(S, keys):
        R.activate()
        ok, und, d, probes = check_miss(W, R, fid, Case('miss', S, None), k)
        if ok:
            out = [('none', True, True, '')]
            for b, role, kappa, S2 in probes:
                R.activate()
                for ok2, und2, d2 in parity(W, b, role, kappa, S2, R.it, k, R):
                    out.append(('none', ok2, und2, d2))
                R.activate()
            if all(x[1] for x in out):
                return out
            best = out
        elif best is None or und is False:
            best = best or [('none', False, und, d)]
    return best or [('none', False, und_facts(facts), 'returns nothing when ' + showfacts(facts)[:300])]


def obligations(W):
    """(rule key, Ob)"""
    out = []
    for a, fid in many(W):
        R = W.analyse(fid)
        R.me = self_param(W, fid)
        fn = W.fname(fid)
        if R.error:
            out.append(('order', Ob(RULES['order'], fn, W.span(fid), UNDECIDED, R.error)))
            continue
        keys = key_param(W, fid)
        some = 0
        for o in R.outs:
            R.activate()
            S = o[1]
            if not W.feasible(R.it, S.facts):
                continue
            if o[0] == 'panic':
                res = []
                for k in queries(S, keys) or [None]:
                    bad, und, d = panics_for_stored(W, R.it, S, k, R) if k else (True, und_facts(S.facts), 'panics (%s) when %s' % (o[2], showfacts(S.facts)[:300]))
                    res.append((bad, und, d))
                good = any(not b for b, u, d in res)
                out.append(('panic', ob(W, RULES['panic'], fid, good, all(u for b, u, d in res), res[0][2])))
                continue
            v = o[2]
            if v[0] == 'agg' and v[1][0] == 'adt' and v[1][2] == 'None':
                rs = check_none(W, R, fid, S, keys)
            elif v[0] == 'agg' and v[1][0] == 'adt' and v[1][2] == 'Some':
                rs = check_some(W, R, fid, S, v[3][0], keys)
                some += 1
            else:
                rs = [('order', False, False, 'result ' + show(v)[:200])]
            for k, ok, und, d in rs:
                out.append((k, ob(W, RULES[k], fid, ok, und, d)))
        if not some:
            out.append(('order', ob(W, RULES['order'], fid, False, False, 'no path returns references')))
    return out


def check(W):
    obs = [o for k, o in obligations(W)]
    return obs + [o for role in W.tables for a, o in table.settle(W, role) if a in ('keep', 'group', 'bounds')]
