"""C12: set algebra yields exactly the right elements."""
from base import *
import algebra
import setlaws
import iters
from algebra import A, B
from lookup import und_facts

ASSUME = ['operands follow the Set trait: iteration yields each element once, membership and length agree with it', 'iterators of operands are fused']
RIGHT = 'right: every element of the result is yielded exactly once and nothing else is'
ENDS = 'end: the end is reported only when every operand walked is used up'
SELF = 'operand: what a set type offers as an operand is its own elements'
WANT = {'union': (1, 1, 1), 'intersection': (0, 0, 1), 'difference': (1, 0, 0), 'symmetric_difference': (1, 1, 0)}


def operations(W):
    """(name, function): the trait's methods and any implementation that replaces one"""
    out = []
    for i in W.F.traits[W.settrait]['items']:
        if i['n'] in WANT and i['id'] in W.F.bodies:
            out.append((i['n'], i['id']))
    for imp in W.F.by_trait.get(W.settrait, []):
        for i in imp['items']:
            if i['n'] in WANT and i['id'] in W.F.bodies:
                out.append((i['n'], i['id']))
    return out


def nexts(W, v, m='next'):
    """The next method of the iterator a value is, for reporting."""
    II = iters.iterator_impls(W.F)
    if v[0] == 'agg' and v[1][0] == 'adt' and v[1][1] in II:
        return ([i['id'] for i in II[v[1][1]]['Iterator']['items'] if i['n'] == m] or [None])[0]
    return None


def policies(W, fid):
    R = W.analyse(fid, 'laws', setup=lambda it: setlaws.install(W, it))
    out = []
    for o in R.outs:
        R.activate()
        if not W.feasible(R.it, o[1].facts):
            continue
        if o[0] != 'ret':
            out.append((R, o, None))
            continue
        out.append((R, o, algebra.Policy(W, R.it, o, fid)))
    return R, out


def check(W):
    obs = []
    for name, fid in operations(W):
        want = WANT[name]
        R, ps = policies(W, fid)
        if R.error or not ps:
            obs.append(ob(W, RIGHT, fid, False, False, R.error or 'no path'))
            continue
        for R, o, P in ps:
            if P is None:
                obs.append(ob(W, RIGHT, fid, False, und_facts(o[1].facts), 'may panic: %s' % (o[2:],)))
                continue
            v = R.it.strip(o[1], o[2])
            at = nexts(W, v) or fid
            if P.stops:
                # a panic in the middle of the iteration
                sure = [x for x in P.stops if certain(x[1].facts)]
                obs += [ob(W, RIGHT, at, False, True, '%s: panics %s when %s' % (name, x[2:], showfacts(x[1].facts)[:400])) for x in sure]
                if sure:
                    continue
            if P.error:
                obs.append(ob(W, RIGHT, at, False, False, '%s: %s' % (name, P.error)))
                continue
            for mode in P.modes():
                obs += judge(W, P, mode, want, name, at)
    obs += operands(W)
    return once(obs)


def plain(P, events):
    """What decides the fate of the items is within the analysis."""
    ts = [t for e in events for a, p in e.facts for t in a[1:] if isinstance(t, tuple)]
    loop = {x: ('sym', 'at') for t in ts for x in subterms(t) if x and x[0] == 'sym' and str(x[1]).startswith(('phi:', 'n:'))}
    return understood(*[subst(t, loop) for t in ts])


def certain(facts):
    """Nothing about the elements is in the way of this path, and all of it is understood."""
    loop = {x: ('sym', 'at') for a, p in facts for t in a[1:] if isinstance(t, tuple) for x in subterms(t) if x and x[0] == 'sym' and str(x[1]).startswith(('phi:', 'n:'))}
    return und_facts([(subst_atom(a, loop), p) for a, p in facts])


def judge(W, P, mode, want, name, at):
    obs = []
    t = P.table(mode)
    when = ' when ' + showfacts(mode) if mode else ''

    def act(k, c):
        return t.get((k, c), {})
    label = {(A, False): 'only in the left operand', (B, False): 'only in the right operand'}
    for k, w in ((A, want[0]), (B, want[1])):
        a = act(k, False)
        bad = [e for y, e in a.items() if y != bool(w)]
        ok = not bad and (bool(a) or not w or not P.possible(mode, k, False))
        why = '%s, an element %s: %s' % (name + when, label[(k, False)], bad[0] if bad else 'is never reached')
        obs.append(ob(W, RIGHT, at, ok, plain(P, bad), why))
    a, b = act(A, True), act(B, True)
    n = [set(x) or {False} for x in (a, b)]
    totals = {x + y for x in n[0] for y in n[1]}
    ok = totals == {want[2]} or not P.possible(mode, A, True)
    obs.append(ob(W, RIGHT, at, ok, plain(P, list(a.values()) + list(b.values())), '%s, an element of both operands is yielded %s times instead of %d: %s' % (name + when, ' or '.join(map(str, sorted(totals))), want[2], list(a.values()) + list(b.values()))))
    walked = {k for k, c in t}
    for fs, pos in P.ends:
        g = P.with_mode(P.base + tuple(fs), mode)
        if g is None:
            continue
        for k, w in ((A, want[0]), (B, want[1])):
            if k not in walked:
                continue
            # what is left matters only if there may be something to yield in it
            gone = not (w and P.possible(g, k, False)) and not (want[2] and P.possible(g, k, True))
            ok = gone or linear.entails(g, ('lt', pos[k], mklen(k)), False)
            obs.append(ob(W, ENDS, at, ok, True, '%s ends with items of %s left when %s' % (name, show(k), showfacts(g))))
    return obs


def operands(W):
    """Implementations of the Set trait for types of the standard library; C01, C02, C11 and C18 speak of the crate's own."""
    obs = []
    for imp in W.F.by_trait.get(W.settrait, []):
        if imp['self'].get('id') in W.F.adts:
            continue
        for i in imp['items']:
            if i['id'] not in W.F.bodies or i['n'] not in ('iter', 'contains'):
                continue
            R = W.analyse(i['id'])
            if R.error:
                obs.append(ob(W, SELF, i['id'], False, False, R.error))
                continue
            me = ('sym', run.param_names(W.F.bodies[i['id']])[0])
            for o in R.outs:
                R.activate()
                if not W.feasible(R.it, o[1].facts):
                    continue
                v = R.it.strip(o[1], o[2]) if o[0] == 'ret' else None
                if i['n'] == 'iter':
                    ok = v is not None and (v in (('app', 'items', me), ('app', 'setiter', me)) or v[0] == 'agg' and v[1] == ('it', 'val') and dict(zip(v[2], v[3])) == {'s': ('app', 'items', me), 'i': I(0), 'e': mklen(('app', 'items', me))})
                else:
                    q = ('sym', run.param_names(W.F.bodies[i['id']])[1])
                    ok = v is not None and v in (mklit(('b', ('app', 'in', q, me)), True), mklit(('b', ('app', 'in', q, ('app', 'items', me))), True))
                obs.append(ob(W, SELF, i['id'], ok, v is None or understood(v), 'gives %s' % (show(v)[:200] if v else o[2:],)))
    return obs
