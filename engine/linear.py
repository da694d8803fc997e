"""Entailment between linear integer inequalities (Fourier-Motzkin elimination over a small fact set)."""
from math import gcd
from terms import *

UNSIGNED = set()


def nonneg(t):
    if t[0] == 'len' or t in UNSIGNED:
        return True
    if t[0] == 'sym' and t[1].startswith('n:'):
        return True
    if t[0] == 'app' and t[1] == 'at':
        return nonneg(t[2])
    if t[0] == 'app' and t[1] in ('rem', 'hash', 'as_u64', 'div', 'Len', 'trunc', 'isqrt'):
        return True
    if t[0] == 'app' and t[1] in ('min', 'max', 'satsub'):
        return all(nonneg(x) or (x[0] == 'int' and x[1] >= 0) for x in t[2:])
    return False


_ac = {}


def atom_constraints(a, pol):
    """List of (c, {t:k}) meaning c + sum >= 0; not to be modified."""
    if a[0] == 'eq' and not pol:
        return _constraints(a, pol)
    r = _ac.get((a, pol))
    if r is None:
        if len(_ac) > 200000:
            _ac.clear()
        r = _ac[(a, pol)] = _constraints(a, pol)
    return r


def _constraints(a, pol):
    if a[0] == 'lt':
        if pol:   # a < b : b - a - 1 >= 0
            return [parts(add(sub(a[2], a[1]), I(-1)))]
        return [parts(sub(a[1], a[2]))]
    if a[0] == 'eq' and pol:
        d = sub(a[1], a[2])
        return [parts(d), parts(mul(d, I(-1)))]
    if a[0] == 'eq':
        c, d = parts(sub(a[1], a[2]))
        if c == 0 and len(d) == 1:
            (t, k), = d.items()
            if nonneg(t):
                return [(-1, {t: 1})]
    return []


def numeric(t):
    return t[0] in ('int', 'lin', 'len') or t in UNSIGNED or (t[0] == 'sym' and t[1].startswith('n:'))


def term_axioms(t):
    out = []
    if nonneg(t):
        out.append((0, {t: 1}))
    if t[0] == 'app' and t[1] == 'min':
        for x in t[2:]:
            out.append(parts(sub(x, t)))
    if t[0] == 'app' and t[1] == 'max':
        for x in t[2:]:
            out.append(parts(sub(t, x)))
    if t[0] == 'app' and t[1] == 'satsub':
        out.append(parts(sub(t, sub(t[2], t[3]))))
        if nonneg(t[3]) or (t[3][0] == 'int' and t[3][1] >= 0):
            out.append(parts(sub(t[2], t)) )if nonneg(t[2]) else None
    if t[0] == 'app' and t[1] == 'isqrt':
        out.append(parts(sub(t[2], t)))
    if t[0] == 'app' and t[1] == 'bitor' and t in UNSIGNED:
        out += [parts(sub(t, t[2])), parts(sub(t, t[3])), parts(sub(add(t[2], t[3]), t))]
    if t[0] == 'app' and t[1] == 'bitand' and t in UNSIGNED:
        out += [parts(sub(t[2], t)), parts(sub(t[3], t))]
    if t[0] == 'app' and t[1] == 'shr' and t in UNSIGNED:
        out.append(parts(sub(t[2], t)))
        if t[3][0] == 'int' and 0 <= t[3][1] < 64:
            k = 1 << t[3][1]
            out.append(parts(sub(t[2], mul(t, I(k)))))
            out.append(parts(add(sub(mul(t, I(k)), t[2]), I(k - 1))))
    if t[0] == 'app' and t[1] == 'rem':
        out.append(parts(add(sub(t[3], t), I(-1))))  # the divisor is positive, or the operation panicked
    if t[0] == 'app' and t[1] == 'div' and t[3][0] == 'int' and t[3][1] > 0:
        out.append(parts(sub(t[2], mul(t, t[3]))))
        out.append(parts(add(sub(mul(t, t[3]), t[2]), I(t[3][1] - 1))))
    return [o for o in out if o is not None]


_inf = {}
_num = {}
_term = []
_byid = {}
_ax = {}


def _norm(c, d):
    """The constraint with small coefficients and variables in order; integers, so the constant is rounded down."""
    g = 0
    for k in d.values():
        g = gcd(g, k)
        if g == 1:
            break
    if g > 1:
        return c // g, tuple(sorted((t, k // g) for t, k in d.items() if k))
    return c, tuple(sorted((t, k) for t, k in d.items() if k))


def _small(c, d):
    """A constraint over numbered terms."""
    e = {}
    for t, k in d.items():
        if k:
            n = _num.get(t)
            if n is None:
                n = _num[t] = len(_num)
                _term.append(t)
            e[n] = k
    return _norm(c, e)


def _of_atom(a, p):
    if a[0] == 'eq' and not p:
        return [_small(c, d) for c, d in _constraints(a, p)]
    k = id(a), p
    r = _byid.get(k)
    if r is None:
        if len(_byid) > 300000:
            _byid.clear()
        # the atom is kept along: its identity stays its own
        r = _byid[k] = [_small(c, d) for c, d in atom_constraints(a, p)], a
    return r[0]


def _axioms(n):
    t = _term[n]
    k = n, nonneg(t), t in UNSIGNED
    if t[0] == 'app' and t[1] == 'satsub':
        k += nonneg(t[2]), nonneg(t[3])
    r = _ax.get(k)
    if r is None:
        r = _ax[k] = [_small(c, d) for c, d in term_axioms(t)]
    return r


def infeasible(cons, limit=4000):
    """True if the constraints (c + sum k t >= 0, integers; as made by _small) have no solution."""
    best = {}
    for c, d in cons:
        if not d:
            if c < 0:
                return True
        elif d not in best or c < best[d]:
            best[d] = c
    k = frozenset(best.items())
    r = _inf.get(k)
    if r is None:
        if len(_inf) > 200000:
            _inf.clear()
        r = _inf[k] = _eliminate(best, limit)
    return r


def _eliminate(best, limit):
    while True:
        count = {}
        for d in best:
            for t, k in d:
                p = count.get(t)
                if p is None:
                    p = count[t] = [0, 0]
                p[k < 0] += 1
        if not count:
            return False
        t = min(count, key=lambda x: (count[x][0] * count[x][1], x))
        pos, neg, rest = [], [], {}
        for d, c in best.items():
            e = dict(d)
            k = e.get(t, 0)
            if k > 0:
                pos.append((c, k, e))
            elif k < 0:
                neg.append((c, -k, e))
            else:
                rest[d] = c
        for cp, a, dp in pos:
            for cn, b, dn in neg:
                d = {x: b * k for x, k in dp.items()}
                for x, k in dn.items():
                    k = d.get(x, 0) + a * k
                    if k:
                        d[x] = k
                    else:
                        del d[x]
                c, d = _norm(b * cp + a * cn, d)
                if not d:
                    if c < 0:
                        return True
                elif d not in rest or c < rest[d]:
                    rest[d] = c
        if len(rest) > limit:
            return False
        best = rest


def gather(facts, seed):
    """Constraints among facts connected to the seed terms, plus term axioms."""
    at = {}
    used = []
    for a, p in facts:
        for c in _of_atom(a, p):
            if not c[1]:
                used.append(c)
            for t, k in c[1]:
                at.setdefault(t, []).append(c)
    todo = [t for t, k in _small(0, {t: 1 for t in seed})[1]]
    known = set(todo)
    seen = set()
    while todo:
        t = todo.pop()
        for c in _axioms(t) + at.get(t, []):
            if id(c) not in seen:
                seen.add(id(c))
                used.append(c)
                for x, k in c[1]:
                    if x not in known:
                        known.add(x)
                        todo.append(x)
    return used


def entails(facts, atom, pol=True):
    """Whether the facts imply the (lt/eq) literal."""
    if atom[0] == 'eq' and pol:
        d = sub(atom[1], atom[2])
        return entails_ge(facts, d) and entails_ge(facts, mul(d, I(-1)))
    if atom[0] == 'eq':
        if (atom, False) in facts:
            return True
        d = sub(atom[1], atom[2])
        return entails_ge(facts, add(d, I(-1))) or entails_ge(facts, add(mul(d, I(-1)), I(-1)))
    (c, d), = atom_constraints(atom, pol)
    return entails_ge(facts, mklin(c, d))


_memo = {}


def entails_ge(facts, t):
    """facts => t >= 0"""
    c, d = parts(t)
    if not d:
        return c >= 0
    k = (tuple(facts), t)
    r = _memo.get(k)
    if r is None:
        cons = gather(facts, d.keys())
        neg = _small(*parts(add(mul(t, I(-1)), I(-1))))
        r = infeasible(cons + [neg]) or any(not p and a[0] == 'eq' for a, p in facts) and _split(facts, cons, neg) or _orders(cons, neg)
        if len(_memo) > 100000:
            _memo.clear()
        _memo[k] = r
    return r


def _split(facts, cons, neg):
    """Disequalities of which one side is excluded by the other constraints."""
    known = {t for c, d in cons for t, k in d}
    ds = []
    for a, p in facts:
        if a[0] == 'eq' and not p:
            c, d = parts(sub(a[1], a[2]))
            if d and not (c == 0 and len(d) == 1 and nonneg(next(iter(d)))) and all(_num.get(x) in known for x in d):
                ds.append((c, d))
    add_ = []
    for rnd in range(3):
        n = len(add_)
        for c, d in list(ds):
            for s in (1, -1):
                # s*D >= 0 known: then s*D >= 1
                opp = _small(-s * c - 1, {t: -s * k for t, k in d.items()})
                if infeasible(cons + add_ + [neg, opp]):
                    add_.append(_small(s * c - 1, {t: s * k for t, k in d.items()}))
                    ds.remove((c, d))
                    break
        if len(add_) == n:
            return False
        if infeasible(cons + add_ + [neg]):
            return True
    return False


def _orders(cons, neg):
    """Cases of which of two numbers is the larger one, for what is defined by that."""
    ts = []
    for c, d in cons + [neg]:
        for n, k in d:
            t = _term[n]
            if t[0] == 'app' and t[1] in ('min', 'max', 'satsub', 'abs_diff') and len(t) == 4 and t not in ts:
                ts.append(t)
    if not ts:
        return False
    alts = []
    for t in sorted(ts, key=key)[:3]:
        p, q = t[2], t[3]
        small, large = {'min': (p, q), 'max': (q, p), 'satsub': (I(0), sub(p, q)), 'abs_diff': (sub(q, p), sub(p, q))}[t[1]]
        alts.append([[_small(*parts(sub(b, a)))] + [_small(*parts(x)) for x in (sub(t, v), sub(v, t))] for a, b, v in ((p, q, small), (q, p, large))])

    def go(i, cs):
        if infeasible(cs):
            return True
        return i < len(alts) and all(go(i + 1, cs + alt) for alt in alts[i])
    return go(0, cons + [neg])


def consistent(facts, seed):
    cons = gather(facts, seed)
    return not (infeasible(cons) or any(not p and a[0] == 'eq' for a, p in facts) and _split(facts, cons, (0, ())))
