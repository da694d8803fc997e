"""C15: set operators agree with the named operations."""
from base import *
import lookup
import algebra
import setlaws
import c12

ASSUME = c12.ASSUME + ['the set a collection offers as an operand is its own elements (C01, C02, C11, C12)', 'collecting into a standard hash set keeps each distinct element']
RULE = 'operator: collects exactly the elements of the operation it stands for'
FROM = 'source: the result is collected from the operands alone'
OPS = {'BitOr': 'union', 'BitAnd': 'intersection', 'BitXor': 'symmetric_difference', 'Sub': 'difference'}


def operators(W):
    for aid in W.sets:
        for imp in W.F.j['impls']:
            t = (imp['trait'] or '').split('::')[-1]
            if t in OPS and adt_of(imp['self']).get('id') == aid:
                for i in imp['items']:
                    if i['id'] in W.F.bodies:
                        yield aid, t, i['id']


def capture(it):
    def h(it, S, a, c):
        t = c.targs[1] if len(c.targs) > 1 else c.dty
        if t and t['k'] == 'adt' and t['n'].split('::')[-1] in ('HashSet', 'BTreeSet') or t and t['k'] == 'other':
            return [('ret', S, ('agg', ('py', 'collected'), ('it',), (a[0],)))]
        return None

    def fi(it, S, a, c):
        return [('ret', S, ('agg', ('py', 'collected'), ('it',), (a[0],)))]
    it.std_contracts['Iterator::collect'] = h
    it.std_contracts['HashSet::from_iter'] = fi
    it.std_contracts['FromIterator::from_iter'] = fi


def check(W):
    obs = []
    for aid, t, fid in operators(W):
        want = c12.WANT[OPS[t]]

        def setup(it):
            setlaws.install(W, it, [aid])
            capture(it)
        R = W.analyse(fid, 'laws', setup=setup)
        if R.error:
            obs.append(ob(W, RULE, fid, False, False, R.error))
            continue
        a, b = (elems_of(x) for x in run.param_names(W.F.bodies[fid])[:2])
        for o in R.outs:
            R.activate()
            if not W.feasible(R.it, o[1].facts):
                continue
            if o[0] != 'ret':
                obs.append(ob(W, RULE, fid, False, lookup.und_facts(o[1].facts), 'may panic: %s' % (o[2:],)))
                continue
            v = R.it.strip(o[1], o[2])
            if not (v[0] == 'agg' and v[1] == ('py', 'collected')):
                obs.append(ob(W, FROM, fid, False, False, 'gives ' + show(v)[:200]))
                continue
            P = algebra.Policy(W, R.it, ('ret', o[1], v[3][0]), fid, a, b)
            obs.append(ob(W, FROM, fid, not P.error, False, str(P.error)))
            if P.error:
                continue
            for mode in P.modes():
                obs += judge(W, P, mode, want, fid, OPS[t])
    return once(obs)


def elems_of(n):
    return setlaws.elems(('sym', n))


def judge(W, P, mode, want, fid, name):
    """As a set: how often an element is yielded does not matter."""
    t = P.table(mode)
    when = ' when ' + showfacts(mode) if mode else ''
    obs = []

    def ways(k, c):
        return set(t.get((k, c), {})) or {False}
    for who, w, ys in (('only in the left operand', want[0], ways(P.A, False)), ('only in the right operand', want[1], ways(P.B, False)),
                       ('in both operands', want[2], {x or y for x in ways(P.A, True) for y in ways(P.B, True)})):
        ok = ys == {bool(w)}
        obs.append(ob(W, RULE, fid, ok, True, 'unlike %s, an element %s is %s collected%s' % (name, who, 'not always' if w else 'sometimes' if len(ys) > 1 else '', when)))
    walked = {k for k, c in t}
    for fs, pos in P.ends:
        g = P.with_mode(P.base + tuple(fs), mode)
        if g is None:
            continue
        for k in walked:
            obs.append(ob(W, RULE, fid, linear.entails(g, ('lt', pos[k], mklen(k)), False), True, 'stops with items of %s left' % show(k)))
    return obs
