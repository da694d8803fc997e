"""Fixpoint of a loop: one abstract state covering the entry and every back edge.

The values the body changes are generalised by anti-unification into fresh variables; a variable whose
update is a constant increment becomes init + c*n in the iteration counter n, one whose update is a
function of n becomes that function, sequences grown by pushes become comprehensions, and affine
relations between the remaining counters and sequence lengths are kept as facts.
"""
from terms import *
import linear
from linear import entails, entails_ge, UNSIGNED


class Mismatch(Exception):
    pass


def is_phi(t):
    return t[0] == 'sym' and t[1].startswith('phi:')


class Rec:
    """What is known about a loop: for every completed iteration one of the back edges was taken."""
    __slots__ = ('lid', 'n', 'backs', 'phis', 'bound', 'head', 'trans')

    def __init__(self, lid, n, backs, phis, bound, head=(), trans=()):
        # head: facts that hold every time the loop header is reached
        # trans: (place, value at the header, [value at each back edge]) of what the loop changes
        self.lid, self.n, self.backs, self.phis, self.bound, self.head, self.trans = lid, n, backs, phis, bound, head, trans

    def subst(self, m):
        if self.n in m:
            m = {k: v for k, v in m.items() if k != self.n}
        bs = tuple((tuple((subst_atom(a, m), p) for a, p in fs),
                    tuple((l, subst(x, m), r.subst(m)) for l, x, r in ls),
                    {k: subst(v, m) for k, v in nx.items()}) for fs, ls, nx in self.backs)
        return Rec(self.lid, self.n, bs, {k: subst(v, m) for k, v in self.phis.items()}, self.bound,
                   tuple((subst_atom(a, m), p) for a, p in self.head),
                   tuple((r, subst(h, m), [b if b is None else subst(b, m) for b in bs]) for r, h, bs in self.trans))


def base_of(v):
    if v[0] == 'sub':
        return v[1], v[2], v[3]
    return v, I(0), None


def seqish(v):
    return v[0] in ('sub', 'sorted', 'build', 'rev', 'sym', 'f', 'vf', 'app', 'idx')


def run_loop(it, lid, S0, body, liveroot):
    n = ('sym', 'n:' + lid)
    UNSIGNED.add(n)
    T = {}
    names = []

    def fresh():
        s = ('sym', 'phi:%s:%d' % (lid, len(names)))
        names.append(s)
        return s

    def au(t, v):
        if is_phi(t) and t in names:
            return t
        if t == v:
            return t
        if t[0] == 'agg' and v[0] == 'agg' and t[1] == v[1] and t[2] == v[2]:
            return ('agg', t[1], t[2], tuple(au(x, y) for x, y in zip(t[3], v[3])))
        if t[0] == 'ref' and v[0] == 'ref' and t[1][0] == v[1][0] and len(t[1][1]) == len(v[1][1]):
            path = []
            for e, f in zip(t[1][1], v[1][1]):
                if e == f:
                    path.append(e)
                elif e[0] == f[0] and e[0] in ('idx', 'sub'):
                    path.append((e[0],) + tuple(au(x, y) for x, y in zip(e[1:], f[1:])))
                else:
                    return fresh()
            return ('ref', (t[1][0], tuple(path)), t[2])
        a = part_refs(t, v)
        if a is not None:
            (root, path), (tl, th), (vl, vh), mut = a
            return ('ref', (root, path + (('sub', au(tl, vl), au(th, vh)),)), mut)
        if (t[0] == 'sub' or v[0] == 'sub') and seqish(t) and seqish(v):
            bt, lt_, ht = base_of(t)
            bv, lv, hv = base_of(v)
            if bt == bv:
                ht = mklen(bt) if ht is None else ht
                hv = mklen(bv) if hv is None else hv
                return ('sub', bt, au(lt_, lv), au(ht, hv))
        return fresh()

    def part_refs(t, v):
        """References to two parts of one sequence, one of them possibly to all of it."""
        def place(x):
            if x[0] == 'ref':
                return x[1], x[2]
            return ((('ext', x), ()), False) if x[0] in ('sym', 'f', 'vf') and not is_phi(x) else (None, False)
        if t[0] != 'ref' and v[0] != 'ref':
            return None
        (p, m), (q, m2) = place(t), place(v)
        if p is None or q is None or p[0] != q[0]:
            return None
        x, y = p[1], q[1]
        x0 = x[:-1] if x and x[-1][0] == 'sub' else x
        y0 = y[:-1] if y and y[-1][0] == 'sub' else y
        if x0 != y0 or x == y or len(x) == len(y):
            return None
        n = mklen(it.strip(S0, it.read(S0, (p[0], x0))))
        ends = [(z[-1][1], z[-1][2]) if z and z[-1][0] == 'sub' else (I(0), n) for z in (x, y)]
        return (p[0], x0), ends[0], ends[1], m or m2

    def match(t, v, out):
        if is_phi(t) and t in names:
            if t in out and out[t] != v:
                raise Mismatch()
            out[t] = v
            return
        if t == v:
            return
        if t[0] == 'agg' and v[0] == 'agg' and t[1] == v[1] and t[2] == v[2]:
            for x, y in zip(t[3], v[3]):
                match(x, y, out)
            return
        if t[0] == 'ref' and v[0] == 'ref' and t[1][0] == v[1][0] and len(t[1][1]) == len(v[1][1]):
            for e, f in zip(t[1][1], v[1][1]):
                if e == f:
                    continue
                if e[0] != f[0] or e[0] not in ('idx', 'sub'):
                    raise Mismatch()
                for x, y in zip(e[1:], f[1:]):
                    match(x, y, out)
            return
        a = part_refs(t, v) if t[0] == 'ref' else None
        if a is not None:
            match(a[1][0], a[2][0], out)
            match(a[1][1], a[2][1], out)
            return
        if t[0] == 'sub':
            bv, lv, hv = base_of(v)
            if bv == t[1]:
                match(t[2], lv, out)
                match(t[3], mklen(bv) if hv is None else hv, out)
                return
        raise Mismatch()

    mark, emark = len(it.obls), len(it.events)

    def reset():
        del it.obls[mark:]
        del it.events[emark:]

    def initial(r):
        v = S0.mem.get(r)
        if v is None and r[0] == 'ext':
            v = r[1]
        return v

    def header(sigma, facts):
        S = S0.copy()
        for r, t in T.items():
            S.mem[r] = subst(t, sigma) if sigma else t
        S.facts = S0.facts + tuple(f for f in facts if f not in S0.facts)
        return S

    # 1. shape of the header state
    for rnd in range(16):
        reset()
        S = header({}, ())
        outs = body(S)
        backs = [o[1] for o in outs if o[0] == 'back']
        if not backs:
            return outs
        changed = False
        roots = set(S.mem)
        for b in backs:
            for r in b.mem:
                if r[0] == 'ext' and r not in roots:
                    st = subterms(r[1])
                    if n not in st and not any(p in st for p in names):
                        roots.add(r)
        for r in sorted(roots, key=repr):
            if not liveroot(r):
                continue
            v0 = T.get(r, initial(r))
            if v0 is None:
                continue
            t = v0
            for b in backs:
                vb = b.mem.get(r)
                if vb is not None:
                    t = au(t, vb)
            if t != v0:
                T[r] = t
                changed = True
        if not changed:
            break
    else:
        from interp import Undecided
        raise Undecided('loop state does not stabilise')

    inits = {}
    for r, t in T.items():
        match(t, initial(r), inits)
    for p in names:
        inits.setdefault(p, None)
    names_live = [p for p in names if inits[p] is not None]
    # the ends of a part of a sequence are positions
    for t in T.values():
        for x in subterms(t):
            if x and x[0] == 'sub' and len(x) == 4:
                if x[2] in names:
                    UNSIGNED.add(x[2])
                if x[3] in names and (x[2] in names or x[2][0] == 'int' and x[2][1] >= 0):
                    UNSIGNED.add(x[3])
    sigma, facts = {}, []
    bound, bounds = None, []
    final = None
    lens = {}
    for rnd in range(10):
        reset()
        S = header(sigma, facts)
        outs = body(S)
        backs = [o[1] for o in outs if o[0] == 'back']
        if not backs:
            # the facts learnt show that no second iteration happens
            return outs
        nxts = []
        for b in backs:
            m = {}
            for r, t in T.items():
                vb = b.mem.get(r)
                if vb is None:
                    continue
                try:
                    match(t, vb, m)
                except Mismatch:
                    pass
            nxts.append(m)
        final = (S, outs, backs, nxts)
        progress = False
        rest = [p for p in names_live if p not in sigma]
        # constant increments
        for p in list(rest):
            ds = [sub(m[p], p) if p in m else None for m in nxts]
            if None in ds:
                continue
            if all(d[0] == 'int' for d in ds) and len(set(ds)) == 1 and not is_seq(inits[p]):
                sigma[p] = add(inits[p], mul(n, ds[0]))
                rest.remove(p)
                progress = True
        if progress:
            sigma = close(sigma)
            continue
        # functions of the counter
        for p in list(rest):
            vs = set(m.get(p) for m in nxts)
            if len(vs) == 1 and None not in vs:
                t = vs.pop()
                st = subterms(t)
                if n in st and not any(q in st for q in rest):
                    t = skolem(t, n, backs, len(S0.loops))
                    cf = subst(t, {n: sub(n, I(1))})
                    if subst(cf, {n: I(0)}) == inits[p]:
                        sigma[p] = cf
                        rest.remove(p)
                        progress = True
        if progress:
            sigma = close(sigma)
            continue
        # sequences: lengths
        for p in rest:
            if p in lens:
                continue
            if any(p in m and grows(m[p], p) for m in nxts) or is_seq(inits[p]) or it.peel and inits[p] in LEN:
                L = ('sym', 'phi:%s:len%d' % (lid, names.index(p)))
                UNSIGNED.add(L)
                LEN[p] = L
                lens[p] = L
                progress = True
        if progress:
            continue
        num = []   # (symbol, init, [deltas])
        for p in rest:
            if p in lens:
                L = lens[p]
                if L in sigma:
                    continue
                ds = [sub(mklen(m[p]), L) if p in m else None for m in nxts]
                num.append((L, mklen(inits[p]), ds, p))
            else:
                ds = [sub(m[p], p) if p in m else None for m in nxts]
                if not any(d is None for d in ds) and not any(m[p][0] in ('agg', 'ref', 'push', 'concat', 'upd', 'build') for m in nxts):
                    num.append((p, inits[p], ds, p))
        for L, i0, ds, p in num:
            if L != p and all(d is not None and d[0] == 'int' for d in ds) and len(set(ds)) == 1:
                LEN[p] = add(i0, mul(n, ds[0]))
                sigma[L] = LEN[p]
                progress = True
        if progress:
            continue
        for a in range(len(num)):
            La, ia, da, _ = num[a]
            if any(d is None for d in da):
                continue
            if La in sigma:
                continue
            for b in range(a):
                Lb, ib, db, _ = num[b]
                if any(d is None for d in db) or Lb in sigma:
                    continue
                if da == db:
                    f = eq(sub(La, Lb), sub(ia, ib))
                elif all(add(x, y) == I(0) for x, y in zip(da, db)):
                    f = eq(add(La, Lb), add(ia, ib))
                elif sub(ia, ib)[0] == 'int' and lockstep(La, Lb, sub(ia, ib), da, db, backs):
                    f = eq(sub(La, Lb), sub(ia, ib))
                else:
                    continue
                if f[0] == 'lit' and (f[1], f[2]) not in facts:
                    facts.append((f[1], f[2]))
                    progress = True
            # direction of change
            if all(entails_ge(bk.facts, d) for bk, d in zip(backs, da)):
                f = le(ia, La)
                if f[0] == 'lit' and (f[1], f[2]) not in facts:
                    facts.append((f[1], f[2]))
                    progress = True
            if it.peel and not all(d[0] == 'int' for d in da):
                c = [d[1] if d[0] == 'int' else 1 for d in da]
                if max(c) > 0 and all(entails_ge(bk.facts, sub(I(max(c)), d)) for bk, d in zip(backs, da)):
                    f = le(La, add(ia, mul(n, I(max(c)))))
                    if f[0] == 'lit' and (f[1], f[2]) not in facts:
                        facts.append((f[1], f[2]))
                        progress = True
            elif it.peel and len(set(da)) > 1 and max(d[1] for d in da) > 0:
                f = le(La, add(ia, mul(n, I(max(d[1] for d in da)))))
                if f[0] == 'lit' and (f[1], f[2]) not in facts:
                    facts.append((f[1], f[2]))
                    progress = True
            if all(entails_ge(bk.facts, mul(d, I(-1))) for bk, d in zip(backs, da)):
                f = le(La, ia)
                if f[0] == 'lit' and (f[1], f[2]) not in facts:
                    facts.append((f[1], f[2]))
                    progress = True
        # sequence contents
        for p in list(rest):
            if p not in lens:
                continue
            L = LEN[p]
            q = ('sym', 'i:sq')
            items = set()
            for m in nxts:
                v = m.get(p)
                if v == p:
                    continue
                x = appended(v, p, L, q)
                items.add(rewrite(x, facts, rest, lens) if x is not None else None)
            if len(items) > 1 and all(x is not None and x[0] == 'app' and x[1] == 'toks' for x in items):
                # pieces of token streams: one of several each round
                items = {('app', 'oneof', n) + tuple(sorted(items, key=repr))}
            if len(items) == 1 and None not in items:
                x = items.pop()
                st = subterms(x)
                inner = any(y and y[0] == 'sym' and inner_counter(y, backs, len(S0.loops)) for y in st)
                bad = any(y in st for y in rest) or any(y in st for y in lens.values())
                if not bad and (n in st or inner):
                    # position and counter advance together
                    d = sub(L, n)
                    sd = subterms(d)
                    if n in sd or any(z in sd for z in rest) or any(z in sd for z in lens.values()):
                        bad = True
                    else:
                        x = subst(skolem(x, n, backs, len(S0.loops)), {n: sub(q, d)})
                if not bad:
                    b = mkbuild(sub(L, mklen(inits[p])), ('sym', 'i:sq'), subst(x, {q: add(q, mklen(inits[p]))}))
                    sigma[p] = mkconcat(inits[p], b)
                    rest.remove(p)
                    progress = True
            else:
                # every slot of an array assigned in turn
                vs = [m.get(p) for m in nxts]
                if all(v is not None and v[0] == 'upd' and v[1] == p and v[2] == ('idx', n) for v in vs) and len(set(vs)) == 1:
                    # a slot is as it was until its turn
                    x = subst(vs[0][3], {('idx', p, n): mkidx(inits[p], n)})
                    x = skolem(x, n, backs, len(S0.loops))
                    st = subterms(x)
                    if not any(z in st for z in rest):
                        sigma[p] = ('fill', inits[p], n, ('sym', 'i:fl'), subst(x, {n: ('sym', 'i:fl')}))
                        rest.remove(p)
                        progress = True
        if progress:
            sigma = close(sigma)
            continue
        if bound is None:
            bounds = find_bounds(it, S0, n, backs, S, rest)
            if bounds:
                bound = bounds[0]
                facts.extend((('lt', B, n), False) for B in bounds)
                progress = True
        if not progress and bound is None:
            f = strided_bound(S0, n, backs, S, rest)
            if f is not None and f not in facts:
                facts.append(f)
                progress = True
        if not progress and it.peel:
            # a sequence that only grows keeps what it started with
            for p in list(rest):
                if p in lens and is_seq(inits[p]) and inits[p] != EMPTY and all(p in m and (m[p] == p or grown(m[p], p)) for m in nxts):
                    t = ('sym', p[1] + ':tail')
                    LEN[t] = sub(LEN[p], mklen(inits[p]))
                    sigma[p] = mkconcat(inits[p], t)
                    progress = True
            if progress:
                sigma = close(sigma)
                continue
        if not progress:
            break
    S, outs, backs, nxts = final
    nh = len(S.facts)
    rec = Rec(lid, n, tuple((b.facts[nh:], b.loops[len(S0.loops):], m) for b, m in zip(backs, nxts)),
              {p: inits[p] for p in names_live if p not in sigma}, bound, S.facts,
              tuple((r, S.mem[r], [b.mem.get(r) for b in backs]) for r in T))
    res = []
    for o in outs:
        if o[0] == 'back':
            continue
        S1 = o[1].copy()
        S1.loops = S1.loops[:len(S0.loops)] + ((lid, n, rec),) + S1.loops[len(S0.loops):]
        B = next((B for B in bounds if entails(S1.facts, ('eq', n, B))), None)
        if B is not None:
            m = {n: B}
            S1 = subst_state(S1, m, len(S0.facts))
            if o[0] == 'ret' and len(o) > 2:
                o = (o[0], S1, subst(o[2], m))
        res.append((o[0], S1) + tuple(o[2:]))
    if not res:
        it.stuck.append((lid, S0.facts, rec))
    return res


def lockstep(La, Lb, c, da, db, backs):
    """La - Lb = c survives every iteration (by induction: it is assumed at the header)."""
    h = eq(sub(La, Lb), c)
    if h[0] != 'lit':
        return False
    for b, x, y in zip(backs, da, db):
        g = eq(sub(x, y), I(0))
        if g[0] == 'lit' and not entails(tuple(b.facts) + ((h[1], h[2]),), g[1], g[2]) or g[0] != 'lit' and g != TRUE:
            return False
    return True


def subst_state(S, m, nf=0):
    S1 = S.copy()
    S1.mem = {r: subst(v, m) for r, v in S.mem.items()}
    fs = []
    for a, p in S.facts:
        l = mklit(subst_atom(a, m), p)
        if l[0] == 'lit':
            if (l[1], l[2]) not in fs:
                fs.append((l[1], l[2]))
    S1.facts = tuple(fs)
    S1.loops = tuple((l, subst(x, m), r.subst(m)) for l, x, r in S.loops)
    return S1


def close(sigma):
    out = {}
    for k, v in sigma.items():
        for _ in range(6):
            v2 = subst(v, {x: y for x, y in sigma.items() if x != k})
            if v2 == v:
                break
            v = v2
        out[k] = v
    return out


def is_seq(v):
    return v is not None and (v[0] in ('build', 'repeat', 'push', 'concat', 'sorted') or v[0] == 'agg' and v[1] == ('array',))


def grows(v, p):
    return v[0] in ('push', 'concat') and (v[1] == p or grows(v[1], p)) or v[0] == 'upd' and v[2][0] == 'idx' and (v[1] == p or grows(v[1], p))


def grown(v, p):
    return v[0] in ('push', 'concat') and (v[1] == p or grown(v[1], p))


def appended(v, p, L, q):
    """Item at absolute position q of the part appended to p, if v is p followed by one uniform part."""
    if v is None:
        return None
    if v[0] == 'push' and v[1] == p:
        return v[2]
    if v[0] == 'concat' and v[1] == p and v[2][0] == 'build':
        b = v[2]
        return subst(b[3], {b[2]: sub(q, L)})
    if v[0] == 'concat' and v[1] == p and v[2][0] == 'sub':
        b = v[2]
        return mkidx(b[1], add(b[2], sub(q, L)))
    if v[0] == 'concat' and v[1] == p and v[2][0] == 'agg' and len(v[2][3]) == 1:
        return v[2][3][0]
    # several neighbours of one sequence
    ws = []
    while v != p and v[0] == 'push':
        ws.append(v[2])
        v = v[1]
    if v[0] == 'concat' and v[1] == p and v[2][0] == 'agg' and not ws:
        ws, v = list(reversed(v[2][3])), p
    ws.reverse()
    if v == p and len(ws) > 1 and ws[0][0] == 'idx' and len(ws[0]) == 3 and all(w == mkidx(ws[0][1], add(ws[0][2], I(k))) for k, w in enumerate(ws)):
        return mkidx(ws[0][1], add(ws[0][2], sub(q, L)))
    return None


def rewrite(x, facts, rest, lens):
    """Eliminate loop variables through the affine equalities."""
    for a, pol in facts:
        if a[0] == 'eq' and pol:
            c, d = parts(sub(a[1], a[2]))
            for s, k in d.items():
                if k in (1, -1) and s[0] == 'sym' and s[1].startswith('phi:') and s in subterms(x):
                    r = mul(mklin(c, {y: z for y, z in d.items() if y != s}), I(-k))
                    y = subst(x, {s: r})
                    if len([z for z in subterms(y) if z and z[0] == 'sym' and isinstance(z[1], str) and z[1].startswith('phi:')]) < \
                            len([z for z in subterms(x) if z and z[0] == 'sym' and isinstance(z[1], str) and z[1].startswith('phi:')]):
                        x = y
    return x


def inner_counter(s, backs, outer):
    """Counter of a loop nested in the body."""
    for b in backs:
        for l, x, r in b.loops[outer:]:
            if r.n == s:
                return True
    return False


def skolem(t, n, backs, outer):
    """Counters of inner loops have one value per iteration n of this loop."""
    m = {}
    for x in subterms(t):
        if x and x[0] == 'sym' and inner_counter(x, backs, outer):
            m[x] = ('app', 'at', x, n)
    return subst(t, m) if m else t


def strided_bound(S0, n, backs, S, rest):
    """k*n <= X where every way back requires k*n <= X - k."""
    cands = None
    nh = len(S.facts)
    for b in backs:
        cs = set()
        for a, p in b.facts[nh:]:
            for c, d in linear.atom_constraints(a, p):
                k = -d.get(n, 0)
                if k > 1:
                    X = mklin(c + k, {t: x for t, x in d.items() if t != n})
                    st = subterms(X)
                    if n not in st and not any(r in st for r in rest) and not any(y and y[0] == 'sym' and isinstance(y[1], str) and y[1].startswith(('phi:', 'n:')) for y in st):
                        cs.add((k, X))
        cands = cs if cands is None else cands & cs
    for k, X in sorted(cands or (), key=repr):
        f = le(mul(n, I(k)), X)
        if entails_ge(S0.facts, X) and f[0] == 'lit' and not linear.entails(S.facts, f[1], f[2]):
            return f[1], f[2]
    return None


def find_bounds(it, S0, n, backs, S, rest):
    """Loop-invariant B's with n < B on every back edge and 0 <= B on entry."""
    cands = None
    nh = len(S.facts)
    for b in backs:
        cs = []
        for a, p in b.facts[nh:]:
            cons = list(linear.atom_constraints(a, p))
            if a[0] == 'eq' and not p:
                # n is not B, and is at most B: below B
                c, d = parts(sub(a[1], a[2]))
                if d.get(n) in (1, -1):
                    s = -d[n]
                    cons.append((s * c - 1, {t: s * x for t, x in d.items()}))
            for c, d in cons:
                k = d.get(n, 0)
                if k == -1:
                    B = mklin(c + 1, {t: x for t, x in d.items() if t != n})
                    st = subterms(B)
                    if n in st or any(r in st for r in rest) or any(y and y[0] == 'sym' and isinstance(y[1], str) and (y[1].startswith('phi:' + n[1][2:] + ':')) for y in st):
                        continue
                    if any(inner_counter(y, backs, len(S0.loops)) for y in st if y and y[0] == 'sym'):
                        continue
                    cs.append(B)
        if cands is None:
            cands = cs
        else:
            cands = [c for c in cands if c in cs]
    return list(dict.fromkeys(B for B in cands or () if entails_ge(S0.facts, B)))
