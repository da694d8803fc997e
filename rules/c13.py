"""C13: set algebra size hints bound what is left."""
from base import *
import algebra
import iters
import c12
import itertools
import evalterm
from algebra import A, B
from models import NONE

ASSUME = c12.ASSUME + ['size hints of the operands\' iterators bound what they have left', 'two lengths add up without overflow where the code does not check it']
LOW = 'low: the lower bound is at most the number of items still to come'
HIGH = 'high: the upper bound is at least the number of items still to come'
TOTAL = 'total: the hint is reported without panicking'


def left(P, mode):
    """What is left in any state of this mode: (facts, number of items to come) or None.

    The elements left in operand k split into those only in k and those in both; the ones in both are
    at most the size of the intersection, the others at most the rest of k.
    """
    t = P.table(mode)
    both = ('sym', 'in both')
    linear.UNSIGNED.add(both)
    fs = list(mode)
    n = I(0)

    def fact(l):
        if l[0] == 'lit':
            fs.append((l[1], l[2]))
    for k, nm in ((A, 'a'), (B, 'b')):
        fact(le(both, mklen(k)))
        pos = P.at.get(k)
        if pos is None:
            continue
        o, m = ('sym', 'left only in ' + nm), ('sym', 'left in both of ' + nm)
        linear.UNSIGNED.update((o, m, pos) if pos[0] == 'sym' else (o, m))
        fact(eq(add(o, m), sub(mklen(k), pos)))
        fact(le(m, both))
        fact(le(o, sub(mklen(k), both)))
        for c, x in ((False, o), (True, m)):
            a = set(t.get((k, c), {}))
            if len(a) > 1:
                return None
            if a == {True}:
                n = add(n, x)
            if not t.get((k, False)) and not t.get((k, True)):
                fact(eq(pos, I(0)))    # never walked in this mode
    return tuple(fs), n


def ordered(P, mode):
    """Pairs (k, j): j is walked only after k is used up."""
    out = []
    for k, j in ((A, B), (B, A)):
        ev = [(e, P.with_mode(e.facts, mode)) for e in P.events if e.k == j]
        ev = [(e, f) for e, f in ev if f is not None]
        if not ev or k not in P.at:
            continue
        # at the time of the event the position of k is at its end
        if all(any(a[0] == 'lt' and not p and a[2] == mklen(k) for a, p in f) for e, f in ev):
            out.append((k, j))
    return out


def check(W):
    obs = []
    for name, fid in c12.operations(W):
        R, ps = c12.policies(W, fid)
        if R.error or not ps:
            obs.append(ob(W, LOW, fid, False, False, R.error or 'no path'))
            continue
        for R, o, P in ps:
            if P is None:
                continue
            R.activate()
            it = R.it
            v = it.strip(o[1], o[2])
            at = c12.nexts(W, v, 'size_hint')
            if P.error:
                obs.append(ob(W, LOW, at or fid, False, False, '%s: %s' % (name, P.error)))
                continue
            if at is None:
                # the default reports (0, None)
                obs.append(ob(W, LOW, c12.nexts(W, v) or fid, True, True))
                continue
            H = P.run.head
            try:
                outs = iters.method(it, H, at, [('ref', (iters.ROOT, ()), False)], 'hint')
            except (Undecided, RecursionError) as e:
                obs.append(ob(W, LOW, at, False, False, str(e)))
                continue
            for mode in P.modes():
                lf = left(P, mode)
                if lf is None:
                    obs.append(ob(W, LOW, at, False, False, name + ': no one policy'))
                    continue
                fs0, n = lf
                for q in outs:
                    g = P.with_mode(q[1].facts, mode)
                    if g is None:
                        continue
                    cases = [tuple(fs0) + tuple(f for f in g if f not in fs0)]
                    for k, j in ordered(P, mode):
                        nxt = []
                        for c in cases:
                            for l in (eq(P.at[j], I(0)), eq(P.at[k], mklen(k))):
                                if l[0] == 'lit':
                                    nxt.append(c + ((l[1], l[2]),))
                                elif l[1]:
                                    nxt.append(c)
                        cases = nxt
                    for c in cases:
                        if not W.feasible(it, c):
                            continue
                        obs += judge(W, it, at, name, q, c, n, P, mode)
    return once(obs)


BOTH = ('sym', 'in both')


def states(P, mode, near=(), sizes=None):
    """States of two small sets and an iterator over them, as values of what the hint is computed from."""
    t = P.table(mode)
    order = [k for k, j in ordered(P, mode)][:1]
    order += [k for k in (A, B) if k in P.at and k not in order]
    walked = [k for k in order if t.get((k, False)) or t.get((k, True))]
    gives = {(k, c): set(t.get((k, c), {})) == {True} for k in (A, B) for c in (False, True)}
    sizes = sizes or sorted({0, 1, 2} | {c + d for c in near for d in (0, 1)} if near else {0, 1, 2, 3})
    for oa, ob_, both in itertools.product(sizes, repeat=3):
        have = {(A, False): oa, (B, False): ob_, (A, True): both, (B, True): both}
        ks = [(k, c) for k in walked for c in (False, True)]
        for taken in itertools.product(*[sorted({0, 1, have[x] - 1, have[x]} & set(range(have[x] + 1))) for x in ks]):
            got = dict(zip(ks, taken))
            used = {k: got.get((k, False), 0) + got.get((k, True), 0) for k in (A, B)}
            full = {k: have[(k, False)] + have[(k, True)] for k in (A, B)}
            at = [k for k in walked if used[k]]
            if at and not all(used[k] == full[k] for k in walked):
                # between two calls of next: the item taken last is one that is yielded
                if any(used[k] != full[k] for k in walked[:walked.index(at[-1])]):
                    continue
                if not any(got[(at[-1], c)] and gives[(at[-1], c)] for c in (False, True)):
                    continue
            env = {mklen(A): full[A], mklen(B): full[B]}
            for k in (A, B):
                env[('app', 'least', k)] = env[('app', 'most', k)] = full[k] - used[k]
            ok = True
            for k, pos in P.at.items():
                c, d = parts(pos)
                if len(d) != 1 or set(d.values()) != {1}:
                    ok = pos == I(used[k])
                    continue
                x = next(iter(d))
                if env.setdefault(x, used[k] - c) != used[k] - c:
                    ok = False
            if ok:
                yield env, sum(have[x] - got[x] for x in ks if gives[x])


def refuted(P, mode, fs, bound, lower):
    """Two sets and a state of their iteration for which the bound is wrong; False: none found; None: cannot tell."""
    fs = [f for f in fs if not any(x and x[0] == 'sym' and (x == BOTH or str(x[1]).startswith(('left only', 'left in both'))) for x in subterms(f[0]))]
    near = sorted({abs(x[1]) for a, p in fs for x in subterms(a) if x and x[0] in ('int', 'lin') and 2 < abs(x[1]) < 1 << 40} | {abs(x[1]) for x in subterms(bound) if x and x[0] in ('int', 'lin') and 2 < abs(x[1]) < 1 << 40})
    for env, n in itertools.chain(states(P, mode), states(P, mode, near[:3]) if near else (), states(P, mode, sizes=[0, 1, 4 * max(near + [4]) + 3]) if evalterm.hard(bound) else ()):
        try:
            if all(evalterm.holds(a, env) == p for a, p in fs):
                b = evalterm.value(bound, env)
                if b > n if lower else b < n:
                    return '%d and %d elements, %s to come, bound %d' % (env[mklen(A)], env[mklen(B)], n, b)
        except (ValueError, ZeroDivisionError, TypeError, IndexError):
            return None
    return False


def judge(W, it, at, name, q, fs, n, P, mode):
    when = ' (%s) when %s' % (name, showfacts(fs)[:300])
    if q[0] != 'ret':
        if 'overflow' in str(q[2]) and not any(x and x[0] == 'sym' and str(x[1]).startswith(('phi', 'n:')) for x in subterms(q[2]) if isinstance(q[2], tuple)):
            return []    # lengths that add up to more than usize
        return [ob(W, TOTAL, at, False, True, '%s%s' % (q[2:], when))]
    v = it.strip(q[1], q[2])
    if v[0] != 'agg' or len(v[3]) != 2:
        return [ob(W, LOW, at, False, False, show(v)[:200])]
    lo, hi = v[3]
    out = []

    def claim(rule, b, lower, word):
        ok = linear.entails(tuple(fs), ('lt', n, b) if lower else ('lt', b, n), False)
        bad = False if ok else refuted(P, mode, fs, b, lower)
        out.append(ob(W, rule, at, ok, bool(bad), '%s bound %s, to come %s%s: %s' % (word, show(b), show(n), when, bad)))
    claim(LOW, lo, True, 'lower')
    if hi == NONE:
        out.append(ob(W, HIGH, at, True, True))
    elif hi[0] == 'agg' and len(hi[3]) == 1:
        claim(HIGH, hi[3][0], False, 'upper')
    else:
        out.append(ob(W, HIGH, at, False, False, show(hi)[:200]))
    return out
