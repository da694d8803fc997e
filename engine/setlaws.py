"""Sets of unknown type, taken at the word of the Set trait: iteration yields each element once, the
length is their number, and membership is that of the elements.  The size hints of their iterators are
only known to bound what is left."""
from interp import Ctx
from models import itv, is_it, some, NONE, U
from terms import *
from world import adt_of, is_pair, elem_of
import iters
import linear
import models as M


def elems(s):
    return ('app', 'elems', s)


def abstract(ty):
    return ty['k'] in ('param', 'other') or ty['k'] == 'ref' and abstract(ty['t'])


def install(W, it, adts=()):
    """adts: types of the crate to take at their word as well"""
    F = W.F
    tr = F.traits[W.settrait]
    ids = {i['n']: i['id'] for i in tr['items']}
    lens = {i['n']: i['id'] for t in F.traits.values() if t['path'].split('::')[-1] == 'Len' for i in t['items']}

    def mine(c):
        return c.targs and (abstract(c.targs[0]) or adt_of(c.targs[0]).get('id') in adts)

    def h_iter(it, S, a, c):
        if not mine(c):
            return None
        s = elems(it.strip(S, a[0]))
        return [('ret', S, itv('val', s=s, i=I(0), e=mklen(s)))]

    def h_len(it, S, a, c):
        return [('ret', S, mklen(elems(it.strip(S, a[0]))))] if mine(c) else None

    def h_empty(it, S, a, c):
        return [('ret', S, eq(mklen(elems(it.strip(S, a[0]))), I(0)))] if mine(c) else None

    def h_in(it, S, a, c):
        return [('ret', S, mklit(('b', ('app', 'in', it.strip(S, a[1]), it.strip(S, a[0]))), True))] if mine(c) else None

    def default(i):
        def h(it, S, a, c):
            if not mine(c) or i not in F.bodies:
                return None
            return it.inline(c.fr, S, F.bodies[i], a, c, it.bind(F.fns[i], c.targs))
        return h
    for n, i in ids.items():
        if n == 'iter':
            it.contracts[i] = h_iter
        elif n == 'contains':
            it.contracts[i] = h_in
        elif n != 'Iterator':
            it.contracts[i] = default(i)
    it.contracts[lens['len']] = h_len
    if 'is_empty' in lens:
        it.contracts[lens['is_empty']] = h_empty

    concrete(W, it, adts, h_iter, h_len, h_empty, h_in)

    def h_hint(it, S, a, c):
        v = it.deref(S, a[0])
        if not (is_it(v) and v[1][1] == 'val'):
            return None
        g = dict(zip(v[2], v[3]))
        if not (g['s'][0] == 'app' and g['s'][1] == 'elems'):
            return None
        rem = sub(g['e'], g['i'])
        lo, hi = U(('app', 'least', g['s'])), U(('app', 'most', g['s']))
        out = []
        S = it.assume(S, le(lo, rem))
        if S is None:
            return out
        out.append(('ret', S, tup(lo, NONE)))
        S = it.assume(S, le(rem, hi))
        if S is not None:
            out.append(('ret', S, tup(lo, some(hi))))
        return out
    it.std_contracts['Iterator::size_hint'] = h_hint


def concrete(W, it, adts, h_iter, h_len, h_empty, h_in):
    """The public operations of collections of the crate, by name."""
    def whole(h):
        def g(it, S, a, c):
            class T:
                targs = [{'k': 'param', 'n': 'Self'}]
            return h(it, S, a, T)
        return g

    def found(miss, hit):
        def g(it, S, a, c):
            m, q = it.strip(S, a[0]), it.strip(S, a[1])
            l = mklit(('b', ('app', 'in', q, m)), True)
            out = []
            for p, v in ((True, hit(m, q)), (False, miss)):
                S2 = it.assume(S, l if p else notb(l))
                if S2 is not None:
                    out.append(('ret', S2, v))
            return out
        return g
    at = lambda m, q: ('app', 'at', m, q)
    key = lambda m, q: ('app', 'keyat', m, q)
    table = {'iter': whole(h_iter), 'len': whole(h_len), 'is_empty': whole(h_empty), 'contains': whole(h_in), 'contains_key': whole(h_in),
             'get_key_value': found(NONE, lambda m, q: some(tup(key(m, q), at(m, q)))), 'into_iter': whole(h_iter)}
    def generic(n):
        # iterators of the collections taken at their word are sequences, whatever their type
        def h(it, S, a, c):
            if not a or not is_it(it.deref(S, a[0]) if a[0][0] == 'ref' else a[0]):
                return None
            return M.iter_method(it, S, n, a, c)
        return h
    if adts:
        for aid, ims in iters.iterator_impls(W.F).items():
            for t in ('Iterator', 'ExactSizeIterator'):
                for f in ims[t]['items'] if t in ims else ():
                    if f['id'] in W.F.bodies:
                        it.contracts[f['id']] = generic(f['n'])
    for i in W.F.j['impls']:
        aid = adt_of(i['self']).get('id')
        if aid not in adts:
            continue
        t = (i['trait'] or '').split('::')[-1]
        for f in i['items']:
            if t and t not in ('Len', 'Set', 'IntoIterator') or f['id'] not in W.F.fns:
                continue
            n = f['n']
            if n == 'get':
                h = found(NONE, (lambda m, q: some(at(m, q))) if aid in W.maps else (lambda m, q: some(key(m, q))))
            elif n == 'into_iter' and i['self']['k'] != 'ref':
                continue
            elif n in table:
                h = table[n]
            else:
                continue
            it.contracts[f['id']] = h


def forall(S, s, good, it=None):
    """Do the loops run and the facts of a path cover all elements of s with facts for which good(item, facts)?

    Returns None if so, else the first position not covered."""
    spans = []
    facts = S.facts
    seen = set()
    for a, p in facts:
        for x in subterms(a):
            if x and x[0] == 'idx' and x[1] == s and x not in seen:
                seen.add(x)
                if good(x, facts):
                    spans.append((x[2], add(x[2], I(1))))
    for lid, taken, rec in S.loops:
        items = None
        for fs, inn, m in rounds(facts, taken, rec):
            g = set()
            for a, p in fs:
                for x in subterms(a):
                    if x and x[0] == 'idx' and x[1] == s and rec.n in subterms(x[2]) and good(x, tuple(fs)):
                        g.add(x)
            items = g if items is None else items & g
        for x in items or ():
            j = x[2]
            if sub(subst(j, {rec.n: add(rec.n, I(1))}), j) == I(1):
                spans.append((subst(j, {rec.n: I(0)}), subst(j, {rec.n: taken})))
            elif sub(subst(j, {rec.n: add(rec.n, I(1))}), j) == I(-1):
                spans.append((add(subst(j, {rec.n: taken}), I(1)), add(subst(j, {rec.n: I(0)}), I(1))))
    pos = I(0)
    for _ in range(len(spans) + 1):
        if linear.entails(facts, ('lt', pos, mklen(s)), False):
            return None
        for sp in spans:
            if linear.entails(facts, ('lt', pos, sp[0]), False) and not linear.entails(facts, ('lt', pos, sp[1]), False):
                pos = sp[1]
                spans.remove(sp)
                break
        else:
            return pos
    return None if linear.entails(facts, ('lt', pos, mklen(s)), False) else pos


def tallies(rec):
    """[(p, ways that count, ways that do not)]: variables that count the rounds of some kind."""
    out = []
    for p in set.intersection(*[set(m) for fs, inn, m in rec.backs]) if rec.backs else ():
        d = [sub(m[p], p) for fs, inn, m in rec.backs]
        if p[0] == 'sym' and all(x in (I(0), I(1)) for x in d) and rec.phis.get(p) == I(0):
            out.append((p, [b for b, x in zip(rec.backs, d) if x == I(1)], [b for b, x in zip(rec.backs, d) if x == I(0)]))
    return sorted(out, key=lambda t: str(t[0]))


def rounds(facts, taken, rec):
    """The ways the rounds of a finished loop can have gone."""
    backs = list(rec.backs)
    for p, inc, rest in tallies(rec):
        if linear.entails(facts, ('lt', p, taken), False):
            backs = [b for b in backs if b in inc]
        elif linear.entails(facts, ('lt', I(0), p), False):
            backs = [b for b in backs if b in rest]
    return backs


def exists(S, s, bad):
    """An element of s the path knows to fail."""
    for a, p in S.facts:
        for x in subterms(a):
            if x and x[0] == 'idx' and x[1] == s and bad(x, S.facts) and linear.entails(S.facts, ('lt', x[2], mklen(s)), True):
                return x
    for lid, taken, rec in S.loops:
        for p, inc, rest in tallies(rec):
            for ways, some in ((inc, ('lt', I(0), p)), (rest, ('lt', p, taken))):
                if ways and linear.entails(S.facts + ((('lt', taken, p), False),), some, True):
                    its = [[x for a, pol in fs for x in subterms(a) if x and x[0] == 'idx' and x[1] == s and rec.n in subterms(x[2]) and bad(x, tuple(fs))] for fs, inn, m in ways]
                    if all(its):
                        return its[0][0]
    return None


def member(x, q, facts):
    """Is x in q?  None if not known"""
    for a, p in facts:
        if a == ('b', ('app', 'in', x, q)):
            return p
    return None


def decisions(W, R):
    """(state, truth) of every path of a predicate"""
    out = []
    for o in R.outs:
        R.activate()
        if not W.feasible(R.it, o[1].facts):
            continue
        if o[0] != 'ret':
            out.append((o[1], None, o))
            continue
        v = R.it.strip(o[1], o[2])
        if v in (TRUE, FALSE):
            out.append((o[1], v == TRUE, v))
        elif v[0] == 'lit':
            for p in (True, False):
                S = R.it.assume(o[1], v if p else notb(v))
                if S is not None and W.feasible(R.it, S.facts):
                    out.append((S, p, v))
        else:
            out.append((o[1], None, v))
    return out


def murky(S, *sets):
    """Does the path rest on numbers or flags the rules do not interpret?"""
    counts = {p: I(0) for l, x, r in S.loops for p, _, _ in tallies(r)}
    for a, p in S.facts:
        if has_unk(subst_atom(a, counts)):
            return True
        b = subst_atom(a, counts)
        for x in sorted(subterms(a), key=lambda t: -len(str(t))):
            if x and x[0] == 'idx' and x[1] in sets:
                b = subst(b, {x: I(0)})
        for x in subterms(b):
            if x and x[0] == 'sym' and str(x[1]).startswith('phi:'):
                return True
    return False
