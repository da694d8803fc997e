"""Range maps: what their constructors establish.

Rule "consecutive keys": the stored sequence is a permutation of the payload whose neighbours' keys
differ by exactly one, the bounds are the first and the last key; an empty one has bounds that no key
lies between.  Conversely no panic is reachable for a payload with such keys.
"""
from world import *
from table import perm_of, affine, payload_param, norm
from interp import mklit


def settle(W, role):
    R = W.ranges[role]
    if 'obs' in R:
        return R['obs']
    R['obs'] = []
    R.setdefault('order', tuple(R['bounds']))
    known = False
    for fid in W.makers(role):
        res, aggs = W.aggregates(fid, role)
        if res.error:
            R['obs'].append(('range', Ob('range constructor', W.fname(fid), W.span(fid), UNDECIDED, res.error)))
            continue
        it = res.it
        pay = payload_of(W, fid)
        for S, v, o in aggs:
            known = one(W, R, it, fid, pay, S, v, known) or known
    return R['obs']


def payload_of(W, fid):
    from table import payload_param
    p = payload_param(W, fid)
    return p


def one(W, R, it, fid, pay, S, v, known):
    fn, span = W.fname(fid), W.span(fid)
    fld = dict(zip(v[2], v[3]))
    E = fld[R['entries']]
    x, y = fld[R['bounds'][0]], fld[R['bounds'][1]]
    where = 'when ' + showfacts(S.facts)[:200]
    own = clone_source(v)
    if own is not None:
        return False

    def put(rule, ok, und, detail=''):
        R['obs'].append(('range', Ob(rule, fn, span, PROVED if ok else (UNDECIDED if und else VIOLATED), '' if ok else detail)))
    n = mklen(E)
    if linear.entails(S.facts, ('eq', n, I(0)), True):
        lo, hi = R['order']
        ok = linear.entails(S.facts, ('lt', fld[hi], fld[lo]), True)
        if not ok and not known:
            lo, hi = hi, lo
            if linear.entails(S.facts, ('lt', fld[hi], fld[lo]), True):
                R['order'], ok = (lo, hi), True
        put('an empty range has no key between its bounds', ok, not understood(x, y), 'empty map with bounds %s, %s' % (show(x), show(y)))
        return False
    E = strip_full(E, S.facts)
    first, last = proj(eta(mkidx(E, I(0))), ('f', '0')), proj(eta(mkidx(E, terms.add(n, I(-1)))), ('f', '0'))
    got = False
    for lo, hi in (R['order'], R['order'][::-1]):
        if same(S.facts, fld[lo], first) and same(S.facts, fld[hi], last):
            if not known:
                R['order'] = (lo, hi)
            got = R['order'] == (lo, hi)
            break
    put('the bounds of a range are its first and its last key', got, not understood(x, y, E), 'bounds %s, %s of %s %s' % (show(x)[:120], show(y)[:120], show(E)[:120], where))
    if pay is not None:
        p = perm_of(E, pay, S.facts)
        put('a range holds the payload', p is True, p is None, 'entries %s' % show(E)[:200])
    ok, und = consecutive(W, it, S, E, n)
    put('keys of a range are consecutive', ok, und or not understood(E), 'keys of %s are not checked to follow each other without gaps or repetitions %s' % (show(E)[:120], where))
    return got


def same(facts, a, b):
    return a == b or linear.entails(facts, ('eq', a, b), True)


def strip_full(E, facts):
    return E


def clone_source(v):
    """The value all of whose fields make up this aggregate, for copies of an existing one."""
    b = uncopy(v)
    return b if b != v and b[0] != 'agg' else None


def uncopy(v):
    """What the value is a part-by-part copy of, else the value itself."""
    if v[0] == 'agg' and v[1][0] in ('adt', 'tuple') and v[2] and (v[1][0] == 'tuple' or v[1][2] is None):
        b = None
        for n, x in zip(v[2], v[3]):
            x = uncopy(x)
            if x[0] != 'f' or x[2] != n or (b is not None and x[1] != b):
                return v
            b = x[1]
        return b
    if v[0] == 'build':
        x = uncopy(v[3])
        if x[0] == 'idx' and x[2] == v[2] and v[2] not in subterms(x[1]) and v[1] == mklen(x[1]):
            return x[1]
    return v


def consecutive(W, it, S, E, n, key=None):
    """Every E[i+1].0 == E[i].0 + 1, from a loop over all neighbours."""
    if linear.entails(S.facts, ('lt', I(1), n), False):
        return True, False
    srt = E[0] == 'sorted' and E[3] == I(0) and E[2] == (('sym', 'item') if key else ('f', ('sym', 'item'), '0'))
    key = key or (lambda j: proj(eta(mkidx(E, j)), ('f', '0')))
    und = False
    for lid, taken, rec in S.loops:
        for c in (0, -1, 1):
            # neighbours n+c, n+c+1
            a, b = key(terms.add(rec.n, I(c))), key(terms.add(rec.n, I(c + 1)))
            step = all(linear.entails(fs, ('eq', b, terms.add(a, I(1))), True) for fs, _, _ in rec.backs) and rec.backs
            strict = step or rec.backs and all(linear.entails(fs, ('lt', a, b), True) or srt and differ(fs, a, b) for fs, _, _ in rec.backs)
            if not strict:
                continue
            lo = I(c)
            if not linear.entails(S.facts, ('lt', I(0), lo), False) or not linear.entails(S.facts, ('lt', terms.add(taken, lo), terms.add(n, I(-1))), False):
                continue
            if step:
                return True, False
            span = sub(key(terms.add(n, I(-1))), key(I(0)))
            if linear.entails(S.facts, ('eq', span, terms.add(n, I(-1))), True):
                return True, False
        if not understood(taken) or any(not understood(a[1]) for fs, _, _ in rec.backs for a, p in fs if len(a) > 1 and isinstance(a[1], tuple)):
            und = True
    return False, und


def differ(fs, a, b):
    return any(not p and x[0] == 'eq' and (linear.entails((), ('eq', sub(x[1], x[2]), sub(a, b)), True) or linear.entails((), ('eq', sub(x[1], x[2]), sub(b, a)), True)) for x, p in fs)


# ---- no panic for consecutive keys ---------------------------------------

def key_seq(X):
    """Key of the i-th element of a sequence, or None"""
    i = ('sym', 'i:key')
    e = eta(mkidx(X, i))
    return e, i


def sorted_keys(t):
    """(sequence, index) when t is a key taken from a sequence sorted by its keys"""
    j = None
    if t[0] == 'f' and len(t) == 3 and t[2] == '0' and t[1][0] == 'idx' and t[1][1][0] == 'sorted':
        s, j = t[1][1], t[1][2]
        want = ('f', ('sym', 'item'), '0')
    elif t[0] == 'idx' and t[1][0] == 'sorted':
        s, j = t[1], t[2]
        want = ('sym', 'item')
    else:
        return None
    if s[2] != want or s[3] != I(0):
        return None
    i = ('sym', 'i:key')
    e = eta(mkidx(s[1], i))
    if want != ('sym', 'item'):
        e = proj(e, ('f', '0'))
    elif e[0] == 'agg' and e[1][0] == 'tuple' and len(e[3]) == 2 and e[3][1] == UNIT:
        e = e[3][0]
    n = mklen(s[1])
    # the order of the keys before sorting makes no difference
    k = sorted_keys(e) if e[0] in ('f', 'idx') else None
    if k and k[2] == i and k[0][1] == n:
        return k[0], s, j
    back = eta(subst(e, {i: sub(add(n, I(-1)), i)}))
    return ('keys', n, min(e, back, key=lambda x: (len(repr(x)), repr(x)))), s, j


def lay_out(facts, only=None):
    """Facts with the j-th smallest key written as base + j (of the given sequences of keys, or all)."""
    def go(x):
        r = memo.get(x)
        if r is not None:
            return r
        k = sorted_keys(x) if x[0] in ('f', 'idx') else None
        if k and (only is None or k[0] in only):
            base = ('sym', 'base:%d' % ids.setdefault(k[0], len(ids)))
            r = terms.add(base, go(k[2]))
        else:
            r = rebuild(x, go)
        memo[x] = r
        return r
    memo, ids = {}, {}
    out = []
    for a, p in facts:
        out.append(((a[0],) + tuple(go(x) if isinstance(x, tuple) else x for x in a[1:]), p))
    return out, ids


def runs(W, it, S):
    """Key sequences the path has found to be consecutive."""
    out = []
    cand = {}
    for fs in [S.facts] + [b[0] for l in S.loops for b in l[2].backs]:
        for a, p in fs:
            for t in subterms(a):
                k = sorted_keys(t) if t and t[0] in ('f', 'idx') else None
                if k:
                    cand.setdefault((k[0], k[1]), 1)
    und = False
    for (k, s) in cand:
        ok, u = consecutive(W, it, S, s, mklen(s)) if elems_are_pairs(s) else consecutive_plain(W, it, S, s, mklen(s))
        if ok:
            out.append(k)
        und = und or u
    return out, und


def elems_are_pairs(s):
    return s[2] != ('sym', 'item')


def consecutive_plain(W, it, S, s, n):
    return consecutive(W, it, S, s, n, lambda j: eta(mkidx(s, j)))


def refuted(W, it, S, only=None):
    """Is the path impossible when every sorted key sequence it looks at is consecutive (or just the given ones)?"""
    from lookup import contradictory, clean
    fs, ids = lay_out(S.facts, only)
    if not ids:
        return False
    fs = clean(tuple(fs))
    if fs is None or contradictory(W, it, fs) or not W.feasible(it, fs):
        return True
    for a, p in fs:
        if a[0] == 'b' and not p and a[1][0] == 'app' and a[1][1] == 'fits':
            x = a[1][2]
            c, d = parts(x)
            if not any(t[0] == 'sym' and str(t[1]).startswith('base:') for t in d):
                continue
            for k, i in ids.items():
                # between the smallest and the largest key, which fit
                b = ('sym', 'base:%d' % i)
                if linear.entails(fs, ('lt', x, b), False) and linear.entails(fs, ('lt', terms.add(b, terms.add(k[1], I(-1))), x), False):
                    return True
    return False
