"""C14: subset, superset and disjointness mean what they say."""
from base import *
import lookup
import setlaws
from setlaws import elems, member, forall, exists

ASSUME = ['operands follow the Set trait: iteration yields each element once, membership and length agree with it']
RULE = 'relation: the answer is true exactly when the relation holds'
ME, YOU = ('sym', 'self'), ('sym', 'other')


def positive(P, S, name, a, b):
    """What is missing for the answer true; None if nothing is."""
    A, B = elems(a), elems(b)
    if name == 'is_disjoint':
        p = forall(S, A, lambda x, fs: member(x, b, fs) is False)
        return None if p is None or forall(S, B, lambda x, fs: member(x, a, fs) is False) is None else (A, p)
    if name == 'is_superset':
        a, A, b, B = b, B, a, A
    p = forall(S, A, lambda x, fs: member(x, b, fs) is True)
    return None if p is None else (A, p)


def negative(P, S, name, a, b):
    A, B = elems(a), elems(b)
    if name == 'is_disjoint':
        return exists(S, A, lambda x, fs: member(x, b, fs) is True) or exists(S, B, lambda x, fs: member(x, a, fs) is True)
    if name == 'is_superset':
        a, A, b, B = b, B, a, A
    if linear.entails(S.facts, ('lt', mklen(B), mklen(A)), True):
        return True
    return exists(S, A, lambda x, fs: member(x, b, fs) is False)


def predicates(W):
    names = ('is_subset', 'is_superset', 'is_disjoint')
    out = []
    for imp in [W.F.traits[W.settrait]] + W.F.by_trait.get(W.settrait, []):
        for i in imp['items']:
            if i['n'] in names and i['id'] in W.F.bodies:
                out.append((i['n'], i['id'], adt_of(imp['self']).get('id') if 'self' in imp else None))
    for aid, ms in list(W.maps.items()) + list(W.sets.items()):
        for n in names:
            for imp, f in ms.get(n, []):
                if not imp['trait']:
                    out.append((n, f['id'], aid))
    return out


def check(W):
    obs = []
    for name, fid, aid in predicates(W):
        R = W.analyse(fid, 'laws', setup=lambda it: setlaws.install(W, it, [aid] if aid else ()))
        if R.error:
            obs.append(ob(W, RULE, fid, False, False, R.error))
            continue
        a, b = (('sym', n) for n in run.param_names(W.F.bodies[fid])[:2])
        for S, t, v in setlaws.decisions(W, R):
            if t is None:
                obs.append(ob(W, RULE, fid, False, v[0] == 'panic' and lookup.und_facts(S.facts), 'answers %s' % (v[1:],)))
                continue
            und = not setlaws.murky(S, elems(a), elems(b))
            if t:
                m = positive(W, S, name, a, b)
                obs.append(ob(W, RULE, fid, m is None, und, 'true although element %s of %s was not examined or does not fit, when %s' % (m and (show(m[1]), show(m[0])) + (showfacts(S.facts),) or ('', '', ''))))
            else:
                obs.append(ob(W, RULE, fid, bool(negative(W, S, name, a, b)), und, 'false without an element that breaks the relation, when %s' % showfacts(S.facts)))
    return once(obs)
