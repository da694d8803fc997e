"""C02: a stored key is always found."""
from base import *
from lookup import *

ASSUME = ['keys are pairwise distinct', 'Eq, Hash, Borrow, Equivalent and the hasher are lawful (equal keys hash equally; a hasher built twice from one builder agrees with itself)',
          'user code (Eq, Hash, Borrow) returns normally', 'the window given to a slice collection does not end before it starts']


def lookups(W, sel=lambda kinds: True):
    obs = []
    for a, m, n, fid in ops(W):
        form, want = (MAP_OPS if m else SET_OPS)[n]
        R, cs = cases(W, fid, form)
        if R.error:
            obs.append(Ob('miss', W.fname(fid), W.span(fid), UNDECIDED, R.error))
            continue
        key = key_param(W, fid)
        for c in cs:
            R.activate()
            if c.kind == 'odd':
                obs.append(Ob('miss', W.fname(fid), W.span(fid), UNDECIDED, 'result ' + show(c.value)[:200]))
            elif c.kind == 'miss' or c.kind == 'panic' and form == 'ref':
                obs.extend(miss(W, R, fid, c, key))
            elif c.kind == 'panic':
                bad, und, d = panics_for_stored(W, R.it, c.S, key, R)
                obs.append(ob(W, 'panic: no lookup of a stored key panics', fid, not bad, und, d))
    return obs


def miss(W, R, fid, c, key):
    obs = []
    ok, und, d, probes = check_miss(W, R, fid, c)
    if not ok and c.kind == 'panic':
        R.activate()
        bad, u2, d2 = panics_for_stored(W, R.it, c.S, key, R)
        ok, und = not bad, und and u2
    obs.append(ob(W, 'miss: every stored entry that could match was compared with the query', fid, ok, und, d))
    for b, role, kappa, S in probes:
        R.activate()
        for ok, und, d in parity(W, b, role, kappa, S, R.it, key, R):
            obs.append(ob(W, 'same bucket: filed and looked up under the same hash', fid, ok, und, d))
        R.activate()
    return obs


def tables(W):
    obs = []
    for role in W.tables:
        for a, o in table.settle(W, role):
            if a in ('keep', 'group', 'bounds'):
                obs.append(o)
    return obs


def check(W):
    obs = tables(W)
    for role in W.ranges:
        obs += [o for a, o in rangemap.settle(W, role)]
    return obs + lookups(W)
