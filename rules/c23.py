"""C23: hash table sizing never yields an empty table."""
from base import *
import time
import c21
import evalterm
import folds

SLOTS = 'slots: at least one and at most sixteen slots per hash code'
NOPANIC = 'total: sizing a table never panics'
EMPTY = 'empty: the sizing analysis of no hash codes does not panic'
TERM = 'terminates: every loop of the sizing gets nearer its end'
USE = 'use: every table built is sized for as many hash codes as it has entries'
MOST = 16


def sized(W):
    """Tables built with a slot count taken from an analysis: (function, count, outcome, run, payload, analysis application)"""
    out = []
    it = W.new_interp()
    for fid, f in sorted(W.F.fns.items()):
        if fid not in W.F.bodies or f['out']['k'] != 'adt' or not any(c in W.F.fns and c in W.F.bodies and it.summarised(c) for c in c21.called(W, fid)):
            continue
        R = W.analyse(fid)
        if R.error:
            continue
        for o in R.outs:
            R.activate()
            if o[0] != 'ret' or not W.feasible(R.it, o[1].facts):
                continue
            for t in subterms(R.it.strip(o[1], o[2])):
                if t and t[0] == 'app' and str(t[1]).startswith('ctor:') and len(t) > 3:
                    for x in t[3:]:
                        for a in sums(x):
                            out.append((fid, x, o, R, t[2], a))
    return out


def sums(x):
    """Analyses a number is made of (not those made use of by what was analysed)."""
    if x[0] == 'app' and str(x[1]).startswith('sum:'):
        return [x]
    if x[0] in ('f', 'vf'):
        return sums(x[1])
    if x[0] == 'lin':
        return [a for y, k in x[2] for a in sums(y)]
    if x[0] == 'app':
        return [a for y in x[2:] if isinstance(y, tuple) for a in sums(y)]
    return []


def count_of(x, a):
    """The part of an analysis' report that a slot count is made of."""
    ts = subterms(x)
    return [y for y in ts if y and y[0] in ('f', 'vf') and y[1] == a] or [a]


class Goals:
    """Proof of linear goals from facts, by induction over the loops gone through where needed."""

    def __init__(self, loops, extra):
        self.recs = {}
        self.collect(loops)
        self.extra = extra

    def collect(self, loops):
        for l, x, r in loops:
            self.recs.setdefault(l, r)
            for fs, ls, m in r.backs:
                self.collect(ls)

    def ge0(self, facts, g, depth=0, hyps=()):
        facts = tuple(facts) + self.extra + hyps
        if linear.entails_ge(facts, g) or not linear_ok(facts):
            return True
        if depth > 3:
            return False
        ts = subterms(g)
        for r in self.recs.values():
            mine = [p for p in r.phis if p in ts]
            if not mine:
                continue
            base = {p: i for p, i in r.phis.items()}
            base[r.n] = I(0)
            fs = facts_of([subst_lit(f, base) for f in r.head])
            if not self.ge0(fs, subst(g, base), depth + 1):
                continue
            hyp = lits(le(I(0), g))
            ok = True
            for bfs, ls, m in r.backs:
                nxt = {p: m[p] for p in r.phis if p in m}
                if any(p not in nxt for p in mine):
                    ok = False
                    break
                nxt[r.n] = add(r.n, I(1))
                if not self.ge0(r.head + tuple(bfs), subst(g, nxt), depth + 1, hyp):
                    ok = False
                    break
            if ok:
                return True
        return False


def linear_ok(facts):
    seed = set()
    for a, p in facts:
        if a[0] in ('lt', 'eq'):
            seed |= set(parts(sub(a[1], a[2]))[1])
    return not seed or linear.consistent(tuple(facts), seed)


def subst_lit(f, m):
    a, p = f
    return mklit(subst_atom(a, m), p)


def lits(l):
    return ((l[1], l[2]),) if l[0] == 'lit' else ()


def facts_of(ls):
    out = []
    for l in ls:
        if l[0] == 'lit' and (l[1], l[2]) not in out:
            out.append((l[1], l[2]))
    return tuple(out)


def check(W):
    return [o for o in judged(W) if o.rule != EMPTY]


def judged(W):
    obs = []
    uses = sized(W)
    targets = {}
    for fid, x, o, R, pay, a in uses:
        for y in count_of(x, a):
            targets.setdefault(a[1][4:], set()).add(y[2] if y[0] == 'f' else None)
        obs += use(W, fid, x, o, R, pay, a)
    for fid in sorted(targets):
        best = None
        t0 = time.time()
        for peel in ('for', True):
            if time.time() - t0 > 150:
                break
            cur = sizing(W, fid, targets[fid], peel)
            bad = sum(o.status != PROVED for o in cur)
            if best is None or bad < best[0]:
                best = (bad, cur)
            if not bad:
                break
        obs += best[1]
    if not targets:
        obs.append(gone(W, SLOTS, 'sizing analysis'))
    return once(obs)


def use(W, fid, x, o, R, pay, a):
    """The analysis saw one hash code per entry, and its answer is what the table gets."""
    obs = []
    if len(a) != 3:
        return [ob(W, USE, fid, False, False, 'analysis of several arguments')]
    n, k = mklen(pay), left(a[2])
    ok = k is not None and linear.entails(o[1].facts, ('eq', k, n))
    obs.append(ob(W, USE, fid, ok, k is not None and understood(k, n), '%s hash codes for %s entries' % (show(k or a[2])[:200], show(n)[:120])))
    y = count_of(x, a)[0]
    s = ('sym', 'slots:')
    linear.UNSIGNED.add(s)
    v = subst(x, {y: s})
    fs = o[1].facts + facts_of([le(I(1), n), le(I(1), s), le(s, mul(n, I(MOST)))])
    ok = linear.entails_ge(fs, add(v, I(-1))) and linear.entails_ge(fs, sub(mul(n, I(MOST)), v))
    obs.append(ob(W, USE, fid, ok, understood(v), 'the table gets %s slots' % show(v)[:200]))
    return obs


def left(v):
    """Items an iterator (or sequence) has, None if unknown."""
    if v[0] == 'agg' and v[1][0] == 'it':
        g = dict(zip(v[2], v[3]))
        if v[1][1] in ('ref', 'val') and set(g) >= {'i', 'e'}:
            return sub(g['e'], g['i'])
        if v[1][1] in ('map', 'rev', 'cloned', 'copied', 'enumerate', 'inspect') and 'inner' in g:
            return left(g['inner'])
        return None
    if v[0] in ('sym', 'build', 'push', 'concat', 'sorted', 'f'):
        return mklen(v)
    return None


def sizing(W, fid, fields, peel):
    obs = []

    def setup(it):
        it.summaries = False
        it.peel = peel
    R = W.analyse(fid, 'size%s' % peel, setup=setup, budget=600000)
    if R.error:
        return [Ob(SLOTS, W.fname(fid), W.span(fid), UNDECIDED, R.error)]
    it = R.it
    n = None
    R.activate()
    for o in R.outs:
        for v in terms_of(o):
            for t in subterms(v):
                if t and t[0] == 'len' and (t[1][0] == 'app' and t[1][1] == 'items' and t[1][2][0] == 'sym' or t[1][0] == 'sym' and not t[1][1].startswith(('phi:', 'n:'))):
                    n = n or t
    if n is None:
        return [Ob(SLOTS, W.fname(fid), W.span(fid), UNDECIDED, 'number of hash codes not found')]
    some = facts_of([le(I(1), n)])
    rets = 0
    for o in R.outs:
        R.activate()
        G = Goals(o[1].loops, some)
        fs = o[1].facts + some
        if o[0] == 'panic':
            none = folds.instances(o[1], o[1].facts + facts_of([le(n, I(0))]))
            obs.append(ob(W, EMPTY, fid, not W.feasible(it, none), known(G, *in_facts(none)) and not bitwise(o), '%s when %s' % (o[2], showfacts(none)[-600:])))
        if not W.feasible(it, fs):
            continue
        if o[0] == 'panic':
            fs = folds.instances(o[1], fs)
            obs.append(ob(W, NOPANIC, fid, not W.feasible(it, fs), known(G, *in_facts(fs)) and (not bitwise(o) or happens(fs, n)), '%s when %s' % (o[2], showfacts(fs)[-600:])))
            continue
        if o[0] != 'ret':
            continue
        rets += 1
        obs.append(ob(W, NOPANIC, fid, True, True))
        v = it.strip(o[1], o[2])
        for f in sorted(fields, key=str):
            s = v if f is None else dict(zip(v[2], v[3])).get(f) if v[0] == 'agg' else ('f', v, f)
            if s is None:
                continue
            lo = G.ge0(fs, add(s, I(-1)))
            hi = G.ge0(fs, sub(mul(n, I(MOST)), s))
            und = settled(s, o[1], G)
            obs.append(ob(W, SLOTS, fid, lo, und, '%s slots when %s' % (show(s)[:200], showfacts(fs)[-500:])))
            obs.append(ob(W, SLOTS, fid, hi, und, '%s slots for %s hash codes when %s' % (show(s)[:200], show(n), showfacts(fs)[-500:])))
    obs.append(ob(W, SLOTS, fid, rets > 0, False, 'no way through'))
    obs += terminates(W, R, fid, some)
    return obs


def terms_of(o):
    out = [t for a, p in o[1].facts for t in a[1:] if isinstance(t, tuple)]
    if o[0] == 'ret':
        out.append(o[2])
    return out


def bitwise(o):
    """Does the failed test depend on what bits are like, which the analysis of numbers does not know?"""
    return c21.bits(o[1].facts[-1:])


def happens(fs, n):
    """Is there a small number of hash codes for which all the facts hold?"""
    for k in range(1, 300):
        try:
            if all(evalterm.holds(a, {n: k}) == p for a, p in fs):
                return True
        except Exception:
            pass
    return False


def settled(s, S, G):
    """Is the slot count a term whose value is known as well as it can be?"""
    if not known(G, *in_facts(S.facts)) or not known(G, *[t for r in G.recs.values() for fs, ls, m in r.backs for t in in_facts(fs)]):
        return False
    for t in subterms(s):
        if t and t[0] == 'sym' and str(t[1]).endswith(':tail'):
            return False
        if t and t[0] == 'app' and t[1] not in ('items', 'div', 'rem', 'min', 'max', 'satsub'):
            return False
    return known(G, s)


def known(G, *ts):
    """Nothing in the terms is beyond the analysis; variables of the loops gone through are taken for what they are."""
    m = {p: ('sym', 'v:%d' % k) for k, p in enumerate(p for r in G.recs.values() for p in r.phis)}
    m.update({t: ('sym', 'v:tail') for x in ts for t in subterms(x) if t and t[0] == 'sym' and str(t[1]).endswith(':tail')})
    return understood(*[subst(t, m) for t in ts])


def in_facts(fs):
    return [t for a, p in fs for t in a[1:] if isinstance(t, tuple)]


def all_recs(R):
    out = []
    seen = set()

    def walk(loops):
        for l, x, r in loops:
            for fs, ls, m in r.backs:
                walk(ls)
            k = (l, r.head, repr(r.backs))
            if k not in seen:
                seen.add(k)
                out.append((l, r))
    for o in R.outs:
        walk(o[1].loops)
    return out


def terminates(W, R, fid, some):
    obs = []
    for l, fs, r in R.it.stuck:
        R.activate()
        bs = [b for b in r.backs if W.feasible(R.it, r.head + tuple(b[0]) + some)]
        if bs and W.feasible(R.it, fs + some):
            G = Goals(((l, None, r),), some)
            obs.append(ob(W, TERM, fid, False, known(G, *[t for b in bs for t in in_facts(b[0])]), 'no way out of a loop when %s' % showfacts(fs)[-500:]))
    recs = all_recs(R)
    every = Goals([(l, None, r) for l, r in recs], some)
    for l, r in recs:
        R.activate()
        if r.bound is not None:
            obs.append(ob(W, TERM, fid, True, True))
            continue
        for bfs, ls, m in r.backs:
            fs = r.head + tuple(bfs) + some
            if not W.feasible(R.it, fs):
                continue
            G = Goals(ls, some)
            if nearer(r, fs, m, G):
                obs.append(ob(W, TERM, fid, True, True))
                continue
            found = search(r, fs, m)
            if found:
                obs.append(ob(W, TERM, fid, True, True))
                continue
            same = all(p in m and m[p] == p for p in r.phis) and not any(r.n in subterms(t) for t in in_facts(fs))
            obs.append(ob(W, TERM, fid, False, same or found is None and known(every, *in_facts(bfs)) or stuck(every, r, fs, m), 'a round that may go on for ever: %s when %s' % (', '.join('%s -> %s' % (show(p), show(m[p])[:80]) for p in r.phis if p in m), showfacts(fs)[-500:])))
    return obs


def step_of(r, m):
    d = {p: m[p] for p in r.phis if p in m}
    d[r.n] = add(r.n, I(1))
    return d


def fixed(t, r):
    ts = subterms(t)
    return r.n not in ts and not any(p in ts for p in r.phis) 


def limits(r, fs):
    """Pairs (moving, limit) with moving <= limit or >= limit known in the round."""
    out = []
    for a, p in fs:
        if a[0] == 'lt':
            x, y = a[1], a[2]
            if fixed(x, r) and not fixed(y, r):
                out.append((y, 1 if not p else -1))
            elif fixed(y, r) and not fixed(x, r):
                out.append((x, 1 if p else -1))
            elif not fixed(x, r) and not fixed(y, r):
                # x < y: y - x falls to 0
                out.append((sub(y, x), -1 if p else 1))
    return out


def nearer(r, fs, m, G):
    """Some quantity kept on one side of a fixed limit moves towards it by at least one."""
    d = step_of(r, m)
    for x, s in limits(r, fs):
        if any(p in subterms(x) and p not in d for p in r.phis):
            continue
        if G.ge0(fs, add(mul(sub(subst(x, d), x), I(s)), I(-1))):
            return True
    return False


def search(r, fs, m):
    """Is the candidate rejected for a divisor, with candidates running through all odd numbers or all numbers from some point on?  There is no largest prime.
    True, False, or None if the candidates may all be even."""
    even = False
    for a, p in fs:
        if a[0] == 'eq' and p:
            for x, y in ((a[1], a[2]), (a[2], a[1])):
                if y == I(0) and x[0] == 'app' and x[1] == 'rem':
                    c, dv = x[2], x[3]
                    d = step_of(r, m)
                    st = sub(subst(c, d), c)
                    if st not in (I(1), I(2)) or not (dv[0] == 'int' and dv[1] >= 2 or proper(dv, c, fs)):
                        continue
                    if st == I(1) or parity(sub(c, mul(r.n, I(2))), fs) == 1:
                        return True
                    even = True
    return None if even else False


def parity(t, fs):
    """0 or 1, None if not known"""
    c, d = parts(t)
    par = c % 2
    loose = {}
    for x, k in d.items():
        if k % 2 == 0:
            continue
        if x[0] == 'app' and x[1] == 'bitor' and any(y[0] == 'int' and y[1] % 2 for y in x[2:]):
            par ^= 1
            continue
        if x[0] == 'app' and x[1] == 'rem' and x[3][0] == 'int' and x[3][1] % 2 == 0:
            cx, dx = parts(x[2])
            par ^= cx % 2
            for y, ky in dx.items():
                if ky % 2:
                    loose[y] = loose.get(y, 0) ^ 1
            continue
        loose[x] = loose.get(x, 0) ^ 1
    odd = frozenset(x for x, k in loose.items() if k)
    if not odd:
        return par
    for a, p in fs:
        if a[0] == 'eq':
            for x, y in ((a[1], a[2]), (a[2], a[1])):
                if x[0] == 'app' and x[1] == 'rem' and x[3] == I(2) and y in (I(0), I(1)):
                    cx, dx = parts(x[2])
                    if frozenset(z for z, k in dx.items() if k % 2) == odd:
                        return (par + cx + y[1] + (0 if p else 1)) % 2
    return None


def proper(d, c, fs):
    """The divisor is at least two and at most what the candidate's root limits it to (or less than the candidate)."""
    if not linear.entails_ge(fs, add(d, I(-2))):
        return False
    if linear.entails_ge(fs, sub(add(c, I(-1)), d)):
        return True
    for a, p in fs:
        if a[0] == 'lt':
            lo, hi = (a[1], a[2]) if p else (a[2], a[1])
            # lo <= hi
            if c in subterms(hi) and any(t and t[0] in ('app', 'unk') and 'sqrt' in str(t[1]) for t in subterms(hi)) and linear.entails_ge(fs, sub(hi, lo)) and linear.entails_ge(fs, sub(lo, d)):
                return True
            # a product of the divisor with itself kept below the candidate
            if c in subterms(hi) and any(t and t[0] == 'app' and t[1] == 'mul' and t[2] == t[3] == d for t in subterms(lo)):
                return True
    return False


def stuck(G, r, fs, m):
    """Could the state be the same after the round?"""
    if not r.phis or any(p not in m for p in r.phis):
        return False
    moving = [p for p in r.phis if p in m and m[p] != p and not (m[p][0] in ('push', 'concat', 'upd', 'repeat', 'fill'))]
    if any(r.n in subterms(t) for t in in_facts(fs)):
        return False
    if not known(G, *[m[p] for p in moving]) or not known(G, *[t for t in in_facts(fs) if any(q in subterms(t) for q in r.phis)]):
        return False
    eqs = facts_of([eq(m[p], p) for p in moving])
    if len(eqs) < len([p for p in moving if eq(m[p], p)[0] != 'true' and m[p] != p]):
        return False
    return linear_ok(fs + eqs)
