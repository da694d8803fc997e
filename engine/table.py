"""Bucket tables: what their constructor establishes.

Rule "group by run": the constructor orders the items by bucket and files maximal runs of items of one
bucket; every slot written covers exactly the positions of its run.
"""
import evalterm
from world import *
from interp import mklit


def norm(t):
    """Replace elements of a sorted sequence by the element of the sequence sorted at a permuted index."""
    memo = {}

    def go(x):
        r = memo.get(x)
        if r is not None:
            return r
        if x[0] == 'idx' and x[1][0] == 'sorted':
            P = x[1]
            r = go(mkidx(P[1], ('app', 'perm', P, x[2])))
        elif x[0] == 'app' and x[1] == 'perm':
            r = x
        else:
            r = rebuild(x, go)
            if r != x and r[0] == 'idx' and r[1][0] == 'sorted':
                r = go(r)
        memo[x] = r
        return r
    return go(t)


def affine(t, q):
    """(c, k) with t = c + k*q, k in {1, -1}, else None"""
    c, d = parts(t)
    k = d.pop(q, 0)
    if k not in (1, -1):
        return None
    r = mklin(c, d)
    if q in subterms(r):
        return None
    return r, k


def perm_of(E, payload, facts, depth=0):
    """Is the sequence E a permutation of payload?  None if the shape is not recognised."""
    if E == payload:
        return True
    if depth > 6:
        return None
    if E[0] in ('sorted', 'rev', 'reorder'):
        return perm_of(E[1], payload, facts, depth + 1)
    if E == EMPTY:
        return linear.entails(facts, ('eq', mklen(payload), I(0)), True)
    if E[0] == 'sub':
        r = perm_of(E[1], payload, facts, depth + 1)
        if r:
            ok = linear.entails(facts, ('eq', mklen(E), mklen(payload)), True) and linear.entails(facts, ('eq', E[2], I(0)), True)
            return ok or (False if understood(E[2], E[3]) else None)
        return r
    if E[0] == 'build':
        n, q, body = E[1], E[2], eta(norm(E[3]))
        if body[0] == 'agg' and body[1][0] == 'tuple' and len(body[3]) == 2 and body[3][1] == UNIT:
            # elements of a set are stored with a unit value
            return perm_of(mkbuild(n, q, body[3][0]), payload, facts, depth + 1)
        if body[0] != 'idx':
            return False if understood(body) and mentions(body, payload) else None
        seq, j = body[1], body[2]
        while j[0] == 'app' and j[1] == 'perm':
            # the index of a permutation: any bijection of positions will do
            base = j[2][1]
            if base[0] == 'build':
                if not linear.entails(facts, ('eq', mklen(j[2]), mklen(seq)), True):
                    return None
            j = j[3]
        af = affine(j, q)
        if af is None:
            return None
        c, k = af
        ok = linear.entails(facts, ('eq', n, mklen(seq)), True)
        want = I(0) if k == 1 else terms.add(n, I(-1))
        ok = ok and linear.entails(facts, ('eq', c, want), True)
        if not ok:
            return False
        return perm_of(seq, payload, facts, depth + 1)
    if E[0] == 'app' and E[1] in ('dedup', 'dedup_by_key', 'dedup_by', 'retain', 'retain_mut', 'remove', 'swap_remove'):
        return False
    if E[0] in ('push', 'agg', 'repeat') or E[0] == 'app' and E[1] == 'insert':
        return False if understood(E) else None
    if E[0] == 'concat':
        return False if understood(E) and E[1][0] in ('build', 'sub', 'agg') and E[2][0] in ('build', 'sub', 'agg') else None
    return None


def pieces(v, E):
    """Parts appended to E to make v, in order, or None"""
    out = []
    while v != E:
        if v[0] == 'push':
            out.append(('one', v[2]))
            v = v[1]
        elif v[0] == 'concat':
            p = v[2]
            if p[0] == 'agg':
                for x in reversed(p[3]):
                    out.append(('one', x))
            else:
                out.append(('seq', p))
            v = v[1]
        else:
            return None
    return out[::-1]


def settle(W, role):
    """Analyse the constructors of a table; returns and caches the obligations."""
    T = W.tables[role]
    if 'obs' in T:
        return T['obs']
    T['obs'] = []          # (aspect, Ob)
    T.setdefault('order', tuple(T['ends']))
    for c, r in W.table_ctors.items():
        if r == role:
            T['obs'].extend(ctor(W, T, c))
    return T['obs']


def payload_param(W, fid):
    body = W.F.bodies[fid]
    for i, n in enumerate(run.param_names(body)):
        if is_pair(elem_of(body.locals[i + 1]['ty'])):
            return ('sym', n)
    return None


def ctor(W, T, fid):
    obs = []
    fn, span = W.fname(fid), W.span(fid)

    def ob(aspect, rule, status, detail=''):
        obs.append((aspect, Ob(rule, fn, span, status, detail)))

    def verdict(aspect, rule, ok, und, detail=''):
        ob(aspect, rule, PROVED if ok else (UNDECIDED if und else VIOLATED), '' if ok else detail)

    R = W.analyse(fid)
    if R.error or not R.outs:
        for a in ('bounds', 'keep', 'group', 'width'):
            ob(a, 'table constructor', UNDECIDED, R.error or 'no outcome')
        return obs
    it = R.it
    pay = payload_param(W, fid)
    rets = [o for o in R.outs if o[0] == 'ret']
    if not rets:
        ob('keep', 'table constructor returns', UNDECIDED, 'never returns')
    T['panics'] = [o for o in R.outs if o[0] == 'panic']
    T['fid'] = fid
    for o in rets:
        S, v = o[1], it.strip(o[1], o[2])
        if v[0] != 'agg' or v[1][1] != T['id']:
            for a in ('bounds', 'keep', 'group', 'width'):
                ob(a, 'table constructor', UNDECIDED, 'unrecognised result ' + show(v)[:200])
            continue
        fld = dict(zip(v[2], v[3]))
        slots, ent = fld[T['slots']], fld[T['entries']]
        num = fld[T['num']] if T['num'] else mklen(slots)
        where = 'when ' + showfacts(S.facts)[:160]
        # entries are the payload, permuted
        k = perm_of(ent, pay, S.facts)
        if k is None and understood(ent):
            k = None
        verdict('keep', 'the stored entries are a permutation of the payload', k is True, k is None, 'entries = %s %s' % (show(ent)[:300], where))
        # number of slots
        n1 = linear.entails(S.facts, ('eq', mklen(slots), num), True)
        n2 = linear.entails(S.facts, ('lt', I(0), num), True)
        verdict('bounds', 'the modulus used by lookups is the number of slots and is positive', n1 and n2,
                not understood(num, mklen(slots)) or bool(phis_in(mklen(slots))),
                'slots %s modulus %s %s' % (show(mklen(slots))[:100], show(num)[:100], where))
        if is_phi(slots):
            recs = [l for l in S.loops if slots in l[2].phis]
            if len(recs) != 1:
                for a in ('bounds', 'group', 'width'):
                    ob(a, 'slot table', UNDECIDED, 'loop of the slots not found')
                continue
            grouped(W, T, it, S, recs[0][2], slots, ent, num, pay, verdict, ob, where)
            continue
        els = slot_elems(slots)
        if els is None:
            for a in ('bounds', 'group', 'width'):
                ob(a, 'slot table', UNDECIDED, 'unrecognised slots ' + show(slots)[:200])
            continue
        ok = all(inside(T, e, S.facts, mklen(ent)) for e in els)
        verdict('bounds', 'every slot designates a range inside the entries', ok, not understood(*els), 'slots %s' % show(slots)[:200])
        emp = linear.entails(S.facts, ('eq', mklen(ent), I(0)), True)
        verdict('group', 'every entry lies in the slot of its hash', emp, not understood(slots), 'entries are stored but no slot is written %s' % where)
        verdict('width', 'positions fit the position type', all(len(e[3]) == 2 and all(x[0] == 'int' and x[1] < 128 for x in e[3]) for e in els if e[0] == 'agg'),
                not understood(*els), show(slots)[:200])
    return obs


def phis_in(t):
    return [x for x in subterms(t) if x and x[0] == 'sym' and isinstance(x[1], str) and x[1].startswith('phi:')]


def is_phi(t):
    return t[0] == 'sym' and t[1].startswith('phi:')


def slot_elems(s):
    if s[0] == 'repeat':
        return [s[1]]
    if s[0] == 'build' and s[2] not in subterms(s[3]):
        return [s[3]]
    if s[0] == 'agg' and s[1] == ('array',):
        return list(s[3])
    if s[0] == 'sub':
        return slot_elems(s[1])
    return None


def inside(T, e, facts, n):
    if e[0] != 'agg' or len(e[3]) != 2:
        return False
    lo, hi = span(T, dict(zip(e[2], e[3])))
    return linear.entails(facts, ('lt', hi, lo), False) and linear.entails(facts, ('lt', n, hi), False) \
        and linear.entails(facts, ('lt', lo, I(0)), False)


def span(T, f):
    """The range a slot with these field values designates."""
    a, b = T['order']
    return f[a], terms.add(f[a], f[b]) if T.get('counted') else f[b]


def meaning(T, f, facts, L, L2):
    """Which numbers of a slot say where its entries start and end (or how many they are)."""
    x, y = T['ends']
    for a, b in ((x, y), (y, x)):
        if linear.entails(facts, ('eq', f[a], L), True):
            for T['order'], T['counted'] in (((a, b), False), ((a, b), True)):
                if linear.entails(facts, ('eq', span(T, f)[1], L2), True):
                    return
    T['counted'] = False
    if linear.entails(facts, ('lt', f[x], f[y]), True) or not linear.entails(facts, ('lt', f[y], f[x]), True):
        T['order'] = (x, y)
    else:
        T['order'] = (y, x)


def grouped(W, T, it, S, rec, slots, ent, num, pay, verdict, ob, where):
    init = rec.phis[slots]
    els = slot_elems(init)
    if els is None:
        for a in ('bounds', 'group', 'width'):
            ob(a, 'slot table', UNDECIDED, 'unrecognised initial slots ' + show(init)[:200])
        return
    total = mklen(pay)
    sty = None
    a = W.F.adts.get(T['slot'])
    if a:
        sty = a['variants'][0]['f'][0]['ty']
    order_known = False
    writes = unread = 0
    if stepwise(W, T, rec, slots, ent, els, num, verdict, ob):
        return
    for facts, inner, nx in rec.backs:
        facts = tuple(rec.head) + tuple(facts)
        nslots = slot_update(T, slots, nx.get(slots, slots))
        # what is appended to the entries
        cand = [v for p, v in nx.items() if v[0] in ('push', 'concat') and pieces(v, ent) is not None]
        pcs = pieces(cand[0], ent) if len(cand) == 1 else ([] if not cand else None)
        L = mklen(ent)
        if pcs == [] and filed_one(rec, nx, ent):
            pcs, L = [('one', subst(ent[3], {ent[2]: rec.n}))], rec.n
        if nslots == slots:
            verdict('group', 'entries are appended only together with their slot', pcs == [], pcs is None, 'an iteration appends entries without writing a slot')
            continue
        if nslots[0] != 'upd' or nslots[1] != slots or nslots[2][0] != 'idx' or nslots[3][0] != 'agg' or len(nslots[3][3]) != 2 or pcs is None:
            for x in ('bounds', 'group', 'width'):
                ob(x, 'slot table', UNDECIDED, 'unrecognised update of the slots ' + show(nslots)[:200])
            unread += 1
            continue
        writes += 1
        kappa = nslots[2][1]
        f = dict(zip(nslots[3][2], nslots[3][3]))
        L2 = L
        for k, x in pcs:
            L2 = terms.add(L2, I(1) if k == 'one' else mklen(x))
        if not order_known:
            meaning(T, f, facts, L, L2)
            order_known = True
        lo, hi = span(T, f)
        und = not understood_in(kappa, lo, hi, rec)
        ok = linear.entails(facts, ('lt', hi, lo), False) and linear.entails(facts, ('lt', L2, hi), False) and linear.entails(facts, ('lt', lo, I(0)), False)
        verdict('bounds', 'every slot designates a range inside the entries', ok, und, 'slot range %s..%s while %s entries are filed' % (show(lo), show(hi), show(L2)))
        e1 = linear.entails(facts, ('eq', lo, L), True)
        e2 = linear.entails(facts, ('eq', hi, L2), True)
        verdict('group', 'a slot covers exactly the entries filed with it', e1 and e2, und, 'slot range %s..%s, entries filed at %s..%s' % (show(lo), show(hi), show(L), show(L2)))
        # width
        if sty is not None and sty['k'] == 'param':
            mx = [t for fct, _ in facts for t in subterms(fct) if t and t[0] == 'app' and len(t) == 3 and t[1] == 'max_value' and t[2] == ('sym', sty['n'])]
            w = any(linear.entails(facts, ('lt', m, hi), False) for m in mx[:1])
            verdict('width', 'positions never exceed the largest value of the position type', w, und, 'no check bounds %s by the maximum of %s' % (show(hi), sty['n']))
        elif sty is not None and sty['k'] == 'prim':
            verdict('width', 'positions never exceed the largest value of the position type', sty['n'] in ('usize', 'u64', 'u128') or linear.entails(facts, ('lt', hi, I(2 ** BITS[sty['n']])), True), und)
        # grouping
        group(W, T, it, rec, facts, inner, pcs, ent, kappa, num, pay, total, L, L2, verdict, ob)
    if not writes:
        verdict('group', 'slots are written', False, bool(unread), 'no iteration writes a slot')
    # initial slots and those never written
    verdict('bounds', 'every slot designates a range inside the entries', all(inside(T, e, S.facts, mklen(ent)) for e in els), not understood(*els), 'initial slot %s' % show(els[0]))


def filed_one(rec, nx, ent):
    """Is one entry appended per iteration, the n-th by iteration n?"""
    if ent[0] != 'build':
        return False
    for v in nx.values():
        if v[0] == 'build' and v[1] == terms.add(rec.n, I(1)) and subst(v[3], {v[2]: ent[2]}) == ent[3]:
            return True
    return False


def bucket_at(ent, kappa, n, num, facts):
    """(hash, key symbol): the slot index as the remainder of a hash of the key of entry n, by the modulus"""
    kn = norm(kappa)
    if kn[0] != 'app' or kn[1] != 'rem' or not linear.entails(facts, ('eq', kn[3], num), True):
        return None
    key = norm(proj(eta(norm(subst(ent[3], {ent[2]: n}))), ('f', '0')))
    HK = ('sym', 'key:')
    Hf = subst(kn[2], {key: HK})
    return (Hf, HK) if HK in subterms(Hf) and n not in subterms(Hf) else None


def stepwise(W, T, rec, slots, ent, els, num, verdict, ob):
    """Rule "widen by one": every iteration files one entry and widens the slot of its bucket by it.  The first entry of
    a bucket opens the slot; as the entries come ordered by bucket, those of one bucket are neighbours.
    Returns False if the loop is not of this kind."""
    if not rec.backs or not any(old_slot(T, rec, slots, nx) for _, _, nx in rec.backs):
        return False
    n, n1 = rec.n, terms.add(rec.n, I(1))
    aspects = ('bounds', 'group', 'width')

    def give_up(why):
        for x in aspects:
            ob(x, 'slot table', UNDECIDED, why[:200])
        return True
    if not all(e[0] == 'agg' and len(e[3]) == 2 and all(x == I(0) for x in e[3]) for e in els):
        return give_up('slots widened are not empty at first')
    kap = H = None
    kinds = []
    for facts, inner, nx in rec.backs:
        facts = tuple(rec.head) + tuple(facts)
        u = writes_of(T, slots, nx.get(slots, slots))
        if u is None or inner or not filed_one(rec, nx, ent):
            return give_up('unrecognised update of the slots')
        k, vals = u
        h = bucket_at(ent, k, n, num, facts)
        if h is None or kap not in (None, k):
            return give_up('bucket of an entry: slot index ' + show(k))
        kap, H = k, h
        kinds.append((facts, vals))
    old = ('idx', slots, kap)
    for a, b in (T['ends'], T['ends'][::-1]):
        for counted in (False, True):
            fa, fb = ('f', old, a), ('f', old, b)
            # no entry of the bucket yet: the slot is as it was at first; otherwise it ends at n
            good = True
            for facts, vals in kinds:
                lo, hi = vals.get(a, fa), vals.get(b, fb)
                first = tuple(facts) + ((('eq', fa, I(0)), True), (('eq', fb, I(0)), True))
                more = tuple(facts) + ((('lt', fa, I(0)), False), (('lt', fa, n), True)) + (
                    ((('lt', I(0), fb), True), (('eq', terms.add(fa, fb), n), True)) if counted else ((('eq', fb, n), True),))
                for case, start in ((first, n), (more, fa)):
                    if contradict(case):
                        continue
                    end = terms.add(lo, hi) if counted else hi
                    if not (linear.entails(case, ('eq', lo, start), True) and linear.entails(case, ('eq', end, n1), True)):
                        good = False
            if good:
                T['order'], T['counted'], T['hash'] = (a, b), counted, H
                verdict('bounds', 'every slot designates a range inside the entries', True, False)
                verdict('group', 'a slot covers exactly the entries filed with it', True, False)
                verdict('group', 'the slot of a run is that of its entries', True, False)
                q = ('sym', 'q:')
                srt = ordered(ent, q, H, num, tuple(rec.head))
                verdict('group', 'items are ordered by bucket before they are filed', srt, True, 'the entries of one bucket are not known to be filed together')
                # positions are bounded by the length, which the constructor compares with the largest position
                sty = W.F.adts[T['slot']]['variants'][0]['f'][0]['ty'] if T['slot'] in W.F.adts else None
                w = False
                if sty is not None and sty['k'] == 'param':
                    for facts, _ in kinds:
                        mx = [t for fct, _ in facts for t in subterms(fct) if t and t[0] == 'app' and len(t) == 3 and t[1] == 'max_value' and t[2] == ('sym', sty['n'])]
                        w = any(linear.entails(facts, ('lt', m, n1), False) for m in mx[:1])
                        if not w:
                            break
                verdict('width', 'positions never exceed the largest value of the position type', w, True, 'no check bounds %s' % show(n1))
                return True
    return give_up('slots are widened in a way not understood')


def contradict(facts):
    for a, p in facts:
        if (a, not p) in facts:
            return True
        if a[0] in ('eq', 'lt') and linear.entails(tuple(f for f in facts if f != (a, p)), a, not p):
            return True
    return False


def ordered(ent, q, H, num, facts=()):
    """Are the entries in the order of their buckets?"""
    Hf, HK = H
    for P in [t for t in subterms(subst(ent[3], {ent[2]: q})) if t and t[0] == 'sorted']:
        item = mkidx(P[1], q)
        kv = norm(subst(P[2], {('sym', 'item'): item}))
        ke = entry_of(P, subst(ent[3], {ent[2]: q}), q)
        if ke is None:
            continue
        ent_item = norm(subst(ke, {('sym', 'item'): item}))
        want = norm(('app', 'rem', subst(Hf, {HK: norm(proj(eta(ent_item), ('f', '0')))}), num))
        if equal(facts, kv, want):
            return True
    return False


def writes_of(T, slots, t):
    """(slot index, {field: value}) of an update of parts of one slot"""
    vals, kappa, x = {}, None, t
    while x[0] == 'upd' and x[2][0] == 'idx' and (kappa is None or x[2][1] == kappa):
        kappa = x[2][1]
        y = x[3]
        while y[0] == 'upd' and y[2][0] == 'f':
            vals.setdefault(y[2][1], y[3])
            y = y[1]
        if y[0] == 'agg':
            for k, v in zip(y[2], y[3]):
                vals.setdefault(k, v)
        elif y[0] != 'idx' or y[2] != kappa or y[1] != x[1]:
            return None
        x = x[1]
    return (kappa, vals) if x == slots and kappa is not None else None


def old_slot(T, rec, slots, nx):
    """Does the new slot keep, or depend on, part of the old one?"""
    u = writes_of(T, slots, nx.get(slots, slots))
    if u is None:
        return False
    return any(e not in u[1] for e in T['ends']) or any(slots in subterms(v) for v in u[1].values())


def slot_update(T, slots, t):
    """Writes to the parts of one slot, taken together."""
    vals, kappa, base, x = {}, None, None, t
    while x[0] == 'upd' and x[2][0] == 'idx' and (kappa is None or x[2][1] == kappa):
        kappa = x[2][1]
        y = x[3]
        while y[0] == 'upd' and y[2][0] == 'f':
            vals.setdefault(y[2][1], y[3])
            y = y[1]
        if y[0] == 'agg':
            for k, v in zip(y[2], y[3]):
                vals.setdefault(k, v)
            base = y
        x = x[1]
    ends = T['ends']
    if x == slots and kappa is not None and all(e in vals for e in ends):
        names = tuple(ends)
        return ('upd', slots, ('idx', kappa), ('agg', base[1] if base else ('adt', 'slot', None), names, tuple(vals[k] for k in names)))
    return t


def understood_in(*a):
    rec = a[-1]
    own = set(rec.phis)
    for t in a[:-1]:
        for x in subterms(t):
            if x and x[0] == 'unk':
                return False
    return True


def group(W, T, it, rec, facts, inner, pcs, ent, kappa, num, pay, total, L, L2, verdict, ob):
    kn = norm(kappa)
    # bucket of an entry as lookups compute it: rem(hash(key), modulus)
    if kn[0] != 'app' or kn[1] != 'rem':
        m = {x: num for x in evalterm.leaves(kn, {num}, set()) if linear.entails(facts, ('eq', x, num), True)}
        T['odd'] = (norm(subst(kn, m)), num)
        ob('group', 'bucket of an entry', UNDECIDED, 'slot index ' + show(kn)[:200])
        return
    verdict('group', 'entries are filed modulo the number of slots', linear.entails(facts, ('eq', kn[3], num), True), not understood(kn[3]),
            'filed modulo %s, looked up modulo %s' % (show(kn[3])[:80], show(num)[:80]))

    # the entry sequence as a function of the position
    def entry_at(q):
        if ent[0] == 'build':
            return subst(ent[3], {ent[2]: q})
        return None
    if ent[0] != 'build':
        ob('group', 'entries are filed in the order of their buckets', UNDECIDED, 'entries ' + show(ent)[:200])
        return
    q = ('sym', 'q:')
    eq_ = norm(entry_at(q))
    keyt = proj(eta(eq_), ('f', '0'))
    # hash of an entry's key, abstracted from the slot index
    first = norm(entry_at(L))
    if pcs and pcs[0][0] == 'one':
        first = norm(pcs[0][1])
    elif pcs and pcs[0][1][0] == 'build':
        first = norm(subst(pcs[0][1][3], {pcs[0][1][2]: I(0)}))
    elif pcs:
        first = norm(mkidx(pcs[0][1], I(0)))
    fkey = norm(proj(eta(first), ('f', '0')))
    HK = ('sym', 'key:')
    Hf = subst(kn[2], {fkey: HK})
    if HK not in subterms(Hf):
        verdict('group', 'the slot of a run is that of its entries', False, not understood(kn, fkey), 'slot index %s does not depend on the key of the entry filed, %s' % (show(kn)[:150], show(fkey)[:100]))
        return
    T['hash'] = (Hf, HK)

    def bucket(e):
        return norm(('app', 'rem', subst(Hf, {HK: norm(proj(eta(norm(e)), ('f', '0')))}), kn[3]))
    # all items of the run are of the bucket
    pos = L
    good, und = True, False
    bad = ''
    ifacts = {}
    for lid, taken, r in inner:
        ifacts[lid] = (taken, r)
    i = ('sym', 'i:run')
    for k, x in pcs:
        if k == 'one':
            if equal(facts, bucket(x), kn):
                continue
            g, bad = False, show(x)
            good = False
        else:
            n, var, item = (x[1], x[2], x[3]) if x[0] == 'build' else (mklen(x), i, mkidx(x, i))
            item0 = subst(item, {var: I(0)})
            if not equal(facts, bucket(item0), kn):
                good, bad = False, show(item0)
                continue
            # item i >= 1: the loop that collected it compared its bucket
            goal = bucket(subst(item, {var: i}))
            prev = bucket(subst(item, {var: terms.add(i, I(-1))}))
            ok = False
            for lid, taken, r in inner:
                m = {r.n: terms.add(i, I(-1))}
                if all(any(p and a[0] == 'eq' and relates(facts, norm(subst(a[1], m)), norm(subst(a[2], m)), goal, (kn, prev)) for a, p in fs) for fs, _, _ in r.backs) and r.backs:
                    ok = True
            if not ok:
                good, bad = False, show(item)[:150]
    verdict('group', 'a run holds entries of one bucket only', good, und, 'entry %s is filed under slot %s' % (bad, show(kappa)[:120]))
    # the run is maximal: the next entry, if any, is of another bucket
    nxt = bucket(entry_at(L2))
    done = linear.entails(facts, ('eq', L2, total), True) or linear.entails(facts, ('lt', L2, total), False)
    maximal = done or any(not p and a[0] == 'eq' and relates(facts, norm(a[1]), norm(a[2]), nxt, (kn,)) for a, p in facts)
    verdict('group', 'a run ends where the bucket changes', maximal, False, 'the run filed under slot %s may be cut short: the entry after it is not known to be of another bucket' % show(kappa)[:120])
    # items ordered by bucket
    Ps = [t for t in subterms(entry_at(q)) if t and t[0] == 'sorted']
    srt = ordered(ent, q, (Hf, HK), kn[3], facts)
    verdict('group', 'items are ordered by bucket before they are filed', srt, False, 'runs of one bucket may be separated: items are filed in the order of %s' % (show(Ps[0][2]) if Ps else show(entry_at(q))[:120]))


def entry_of(P, e, q):
    """e as a projection of an element of P: term over ('sym','item')"""
    for t in subterms(e):
        if t and t[0] == 'idx' and len(t) == 3 and t[1] == P and affine(t[2], q):
            r = subst(e, {t: ('sym', 'item')})
            if q not in subterms(r):
                return r
    return None


def canon_lin(facts, t):
    return t


def equal(facts, a, b):
    """Equality of bucket terms up to affine equalities between positions."""
    if a == b:
        return True
    return congruent(facts, a, b, 0)


def congruent(facts, a, b, d):
    if a == b:
        return True
    if d > 12 or a[0] != b[0]:
        if a[0] in ('int', 'lin', 'sym', 'len') and b[0] in ('int', 'lin', 'sym', 'len'):
            return linear.entails(facts, ('eq', a, b), True)
        return False
    if a[0] in ('int', 'lin', 'sym', 'len'):
        return linear.entails(facts, ('eq', a, b), True)
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if x == y:
            continue
        if isinstance(x, tuple) and isinstance(y, tuple):
            if not x or not isinstance(x[0], str):
                if len(x) != len(y):
                    return False
                if not all(p == q2 or isinstance(p, tuple) and isinstance(q2, tuple) and congruent(facts, p, q2, d + 1) for p, q2 in zip(x, y)):
                    return False
            elif not congruent(facts, x, y, d + 1):
                return False
        else:
            return False
    return True


def relates(facts, a, b, goal, others):
    for x, y in ((a, b), (b, a)):
        if equal(facts, x, goal) and any(equal(facts, y, o) for o in others):
            return True
    # bucket numbers compared, not their terms
    return False
