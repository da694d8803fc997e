"""C25: a collection answers every question without panicking."""
from base import *
from lookup import *
import c06
import c07
import c08
import c11
import c12
import c13
import rangemap
import table
from c10 import peel

ASSUME = ['user code (Eq, Hash, Borrow, Len, SliceHash, PrimInt, Clone, Debug) returns normally and is lawful', 'the window given to a slice collection does not end before it starts',
          'the span of the keys of a range collection is representable in the key type', 'loops over a finite sequence end']
LOOKUP = 'lookups: no path of a lookup panics, whatever the query and whatever is stored'
APART = 'differences: keys are subtracted only inside the bounds of a range, whose span is representable'
OTHER = 'other: no path of another operation of a collection panics'


def subjects(W):
    """(rule, fn)"""
    cols = c08.collections(W)
    out = {}
    for a, m, n, fid in ops(W):
        out[fid] = LOOKUP if (MAP_OPS if m else SET_OPS)[n][0] != 'ref' else None
    for a, fid in c07.many(W):
        out[fid] = LOOKUP
    for fid in c06.roots(W):
        b = W.F.bodies[fid]
        if fid in out or b.argc < 1:
            continue
        if peel(b.locals[1]['ty']).get('id') in cols:
            out[fid] = OTHER
    return [(r, f) for f, r in out.items() if r]


def alone(W, fid):
    R = W.analyse(fid)
    if not R.error:
        return R

    def setup(it):
        # what a call of another operation does is judged there
        for r, g in subjects(W):
            if g != fid and g not in it.contracts:
                it.contracts[g] = lambda it, S, args, ctx, g=g: it.unknown(S, W.fname(g), args, ctx)
    return W.analyse(fid, 'c25', setup)


def differences(W, fid, R):
    out = []
    R.activate()
    for e in R.it.events:
        if e[0] != 'arith' or not W.feasible(R.it, e[5]) or backwards(e[5]):
            continue
        tr, T, facts, a, b = e[3:8]
        if tr != 'Sub':
            # sums and products of keys are not judged
            out.append(ob(W, APART, fid, a[0] == b[0] == 'int', False, 'computes %s of %s and %s' % (tr, show(a)[:100], show(b)[:100])))
            continue
        fs = R.it and W.with_inv(R.it, facts, [le(b, a)])
        ok = linear.entails(fs, ('lt', a, b), False)
        if ok and not (T['k'] == 'prim' and T['n'] in PRIM_UNSIGNED):
            # both inside the same bounds
            ok = any(linear.entails(fs, ('lt', b, lo), False) and linear.entails(fs, ('lt', hi, a), False) for lo, hi in spans(W, facts + ((('eq', a, b), True),)))
        out.append(ob(W, APART, fid, ok, understood(a, b) and und_facts(facts), 'computes %s - %s when %s' % (show(a)[:100], show(b)[:100], showfacts(facts)[:400])))
    return out


def spans(W, facts):
    """The bounds of every range collection the facts mention."""
    out = set()

    def walk(t):
        if not isinstance(t, tuple):
            return
        if t and t[0] == 'f' and len(t) == 3:
            for role, R in W.ranges.items():
                lo, hi = W.bounds(role)
                if t[2] in (lo, hi):
                    out.add((('f', t[1], lo), ('f', t[1], hi)))
        for x in t:
            walk(x)
    walk(facts)
    return out


def check(W):
    obs = []
    for rule, fid in subjects(W):
        R = alone(W, fid)
        if R.error:
            obs.append(ob(W, rule, fid, False, False, R.error))
            continue
        obs.append(ob(W, rule, fid, any(o[0] == 'ret' for o in R.outs), False, 'never returns'))
        for o in R.outs:
            if o[0] != 'panic':
                continue
            R.activate()
            S = o[1]
            if not W.feasible(R.it, S.facts) or backwards(S.facts):
                continue
            obs.append(ob(W, rule, fid, False, und_facts(S.facts), 'panics (%s) when %s' % (str(o[2])[:80], showfacts(S.facts)[:400])))
        obs += differences(W, fid, R)
    # what stands behind the lookups: positions stored are positions of entries
    obs += [o for role in W.tables for a, o in table.settle(W, role) if a == 'bounds']
    obs += [o for role in W.ranges for a, o in rangemap.settle(W, role)]
    # iterators are judged in every state an iteration goes through
    obs += [o for c in (c11, c12) for o in c.check(W) if o.status == PROVED or 'panic' in o.detail]
    obs += [o for o in c13.check(W) if o.rule == c13.TOTAL]
    return once(obs)
