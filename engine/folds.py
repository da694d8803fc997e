"""What a finished loop that keeps a running minimum or maximum tells about every item it went over.

Let p be a variable of a loop over positions n.  If on every way through the body the next p is at most
T(n) and at most p, then after x rounds p <= T(j) for all j < x; dually for lower bounds.
"""
from terms import *
import linear


def numeric(t):
    return t[0] in ('len', 'lin') or t in linear.UNSIGNED or t[0] == 'app' and t[1] in ('min', 'max', 'Len')


def payload(v):
    """x of Some(x)"""
    return v[3][0] if v[0] == 'agg' and v[1][0] == 'adt' and v[1][-2:] == ('Option', 'Some') else None


def of_loop(rec, x):
    """[(p, 'le' or 'ge', T, n, x)]"""
    out = []
    n = rec.n
    if not rec.backs:
        return out
    ps = set(rec.backs[0][2])
    for fs, ls, m in rec.backs:
        ps &= set(m)
    for p in sorted(ps, key=repr):
        nx = [m[p] for fs, ls, m in rec.backs]
        v = p
        if all(payload(y) is not None for y in nx):
            # None only before the first round
            nx = [payload(y) for y in nx]
            v = ('vf', p, 'Some', '0')
            out.append((p, 'none', None, n, x))
        ts = set()
        for (fs, ls, m), y in zip(rec.backs, nx):
            subterms(y, ts)
            for a, pol in fs:
                subterms(a, ts)
        ts = {t for t in ts if t and numeric(t) and n in subterms(t) and t != n and p not in subterms(t)}
        for kind, s in (('le', 1), ('ge', -1)):
            # s*(v - next) >= 0 on every way
            if not all(v != p and first(fs, p) or linear.entails_ge(rec.head + tuple(fs), mul(sub(v, y), I(s))) for (fs, ls, m), y in zip(rec.backs, nx)):
                continue
            for t in sorted(ts, key=repr):
                if all(linear.entails_ge(rec.head + tuple(fs), mul(sub(t, y), I(s))) for (fs, ls, m), y in zip(rec.backs, nx)):
                    out.append((v, kind, t, n, x))
    return out


def first(fs, p):
    """The facts say that p is None."""
    return any(a == ('is', p, 'None') and pol or a == ('is', p, 'Some') and not pol for a, pol in fs)


def schemas(S):
    out = []
    for l, x, r in S.loops:
        out += of_loop(r, x)
    return out


def at(T, n, seq, j):
    """n such that an item of seq in T is item j"""
    for y in subterms(T):
        if y and y[0] == 'idx' and y[1] == seq and n in subterms(y[2]):
            d = sub(y[2], n)
            if n not in subterms(d):
                return sub(j, d)
    return None


def bases(T, n):
    """Sequences indexed along with n in T."""
    return {y[1] for y in subterms(T) if y and y[0] == 'idx' and n in subterms(y[2])}


def decided(facts, ts):
    """Saturating differences, minima and maxima that the facts decide."""
    out = []
    for t in ts:
        if t and t[0] == 'app' and len(t) == 4 and t[1] in ('satsub', 'min', 'max'):
            a, b = t[2], t[3]
            if t[1] == 'satsub':
                e = sub(a, b) if linear.entails_ge(facts, sub(a, b)) else I(0) if linear.entails_ge(facts, sub(b, a)) else None
            else:
                lo, hi = (a, b) if linear.entails_ge(facts, sub(b, a)) else (b, a) if linear.entails_ge(facts, sub(a, b)) else (None, None)
                e = lo if t[1] == 'min' else hi
            if e is not None:
                out.append(eq(t, e))
    return out


def instances(S, facts, goals=(), rounds=3):
    """Facts with what the folds on the way say about the items they speak of."""
    facts = tuple(facts)
    sch = schemas(S)
    for rnd in range(rounds):
        ts = set()
        for a, p in facts:
            subterms(a, ts)
        for g in goals:
            subterms(g, ts)
        new = []

        def put(l):
            if l[0] == 'lit' and (l[1], l[2]) not in facts and (l[1], l[2]) not in new:
                new.append((l[1], l[2]))
        for p, kind, T, n, x in sch:
            if kind == 'none':
                if first(facts, p):
                    put(eq(x, I(0)))
                continue
            bs = bases(T, n)
            for y in ts:
                if y and y[0] == 'idx' and y[1] in bs:
                    j = at(T, n, y[1], y[2])
                    if j is not None and linear.entails_ge(facts, j) and linear.entails_ge(facts, add(sub(x, j), I(-1))):
                        t = subst(T, {n: j})
                        put(le(p, t) if kind == 'le' else le(t, p))
        for l in decided(facts + tuple(new), ts):
            put(l)
        if not new:
            break
        facts += tuple(new)
    return facts
