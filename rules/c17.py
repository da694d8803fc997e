"""C17: debug output lists every entry."""
from base import *
import lookup
import c08
import c11
import iters
import models as M
from interp import Undecided

ASSUME = ['the debug builders of the standard library print every entry they are given']
ALL = 'complete: the rendering lists every stored entry exactly once'
SAME = 'same: all representations are rendered alike'
REST = 'rest: the rendering of an iterator lists what it has still to yield'
DONE = 'finished: the rendering is completed and its result returned'


def rendering(v):
    """(builder, sequence) of a finished rendering"""
    if v[0] == 'app' and v[1] in ('dbgfinish', 'dbgpartial'):
        return v[2], v[3], v[1] == 'dbgfinish'
    return None


EMPTY_SEQ = ('agg', ('array',), (), ())


def fmts(W):
    for imp in W.F.j['impls']:
        if (imp['trait'] or '').split('::')[-1] == 'Debug':
            for i in imp['items']:
                if i['id'] in W.F.bodies:
                    yield imp, i['id']


def check(W):
    obs = []
    cols = c08.collections(W)
    II = iters.iterator_impls(W.F)
    of = {}
    for imp, fid in fmts(W):
        aid = imp['self'].get('id')
        if aid in II:
            of[aid] = fid
            continue
        me = ('sym', run.param_names(W.F.bodies[fid])[0])
        sts = c11.storages(W, imp['self'], me)
        if not sts or aid not in cols and aid not in W.tables:
            continue
        R = W.analyse(fid)
        if R.error:
            obs.append(ob(W, ALL, fid, False, False, R.error))
            continue
        kinds = {}
        for o in R.outs:
            R.activate()
            S = o[1]
            if not W.feasible(R.it, S.facts):
                continue
            if o[0] != 'ret':
                obs.append(ob(W, ALL, fid, False, lookup.und_facts(o[1].facts), 'may panic: %s' % (o[2:],)))
                continue
            Es = [E for g, E in sts if not any((a, not p) in S.facts or a[0] == 'is' and any(b[0] == 'is' and b[1] == a[1] and b[2] != a[2] and q for b, q in S.facts) for a, p in g)]
            r = rendering(R.it.strip(S, o[2]))
            if r is None or len(Es) != 1:
                obs.append(ob(W, ALL, fid, False, False, 'gives ' + show(o[2])[:300]))
                continue
            obs.append(ob(W, DONE, fid, r[2], True, 'finished as if entries were left out'))
            ok, und, half, way, why = c11.covers(W, R.it, S, r[1], Es[0])
            if ok and half and half not in (('01',) if aid in W.maps or aid in W.tables else ('0', '01')):
                ok, why = False, 'lists half %s of the entries' % half
            obs.append(ob(W, ALL, fid, ok, und, why + ' when ' + showfacts(S.facts)[:200]))
            kinds.setdefault((r[0], half), showfacts(S.facts))
        if kinds:
            obs.append(ob(W, SAME, fid, len(kinds) == 1, True, ' but '.join('%s of half %s when %s' % (show(k[0]), k[1], w[:100]) for k, w in kinds.items())))
    obs += iterators(W, II, of)
    return once(obs)


def iterators(W, II, of):
    obs = []
    seen = set()
    # iterators over storages, in every state
    for aid, f in c11.sources(W):
        R = W.analyse(f['id'])
        if R.error:
            continue
        it = R.it
        sts = c11.storages(W, W.F.bodies[f['id']].locals[1]['ty'], ('sym', run.param_names(W.F.bodies[f['id']])[0]))
        for o in R.outs:
            if o[0] != 'ret':
                continue
            R.activate()
            t = c11.iterator_of(W, II, it, o[1], o[2])
            if t not in of or not W.feasible(it, o[1].facts):
                continue
            seen.add(t)
            r = iters.drain(it, o[1], o[2], f['id'])
            ends = [e for e in r.ends if W.feasible(it, e[0].facts)]
            half = [s for S2, s in ends if s[0] == 'build']
            if r.error or not half or r.head is None or r.n not in subterms(r.hv):
                if any(s != EMPTY_SEQ for S2, s in ends):
                    obs.append(ob(W, REST, of[t], False, False, r.error or 'states of the iteration not found'))
                continue
            N = mklen(half[0])
            H = r.head.copy()
            H.facts += ((('lt', N, r.n), False),)
            rem = sub(N, r.n)
            z = ('sym', 'i:z')
            try:
                outs = iters.method(it, H, of[t], [('ref', (iters.ROOT, ()), False), ('sym', 'f')], 'fmt')
            except (Undecided, RecursionError) as e:
                obs.append(ob(W, REST, of[t], False, False, str(e)))
                continue
            for x in outs:
                if not W.feasible(it, x[1].facts):
                    continue
                if x[0] != 'ret':
                    obs.append(ob(W, REST, of[t], False, lookup.und_facts(x[1].facts), 'may panic: %s' % (x[2:],)))
                    continue
                g = rendering(it.strip(x[1], x[2]))
                if g is None:
                    obs.append(ob(W, REST, of[t], False, False, 'gives ' + show(x[2])[:300]))
                    continue
                s = g[1]
                fs = W.with_inv(it, x[1].facts)
                ok = linear.entails(fs, ('eq', mklen(s), rem)) and (s[0] != 'build' and linear.entails(fs, ('eq', rem, I(0))) or s[0] == 'build' and
                    it.strip(x[1], subst(s[3], {s[2]: z})) == it.strip(x[1], subst(half[0][3], {half[0][2]: add(z, r.n)})))
                und = understood(s) and s[0] in ('build', 'agg') and not any(y and y[0] == 'sym' and str(y[1]).startswith('phi:') for y in subterms(s))
                obs.append(ob(W, REST, of[t], ok and g[2], und, 'lists %s with %s items to come from %s' % (show(s)[:200], show(rem), show(r.n))))
    # others: what is listed must be a copy of the iterator
    for t, fid in of.items():
        if t in seen:
            continue

        def setup(it):
            def h(it, S, a, c):
                S = S.copy()
                it.write(S, M.sub_place(it.place_of(a[0]), 'items'), ('agg', ('py', 'listed'), ('it',), (a[1],)))
                return [('ret', S, a[0])]
            for b in ('DebugList', 'DebugSet', 'DebugMap'):
                it.std_contracts[b + '::entries'] = h
        R = W.analyse(fid, 'listed', setup=setup)
        if R.error:
            obs.append(ob(W, REST, fid, False, False, R.error))
            continue
        me = ('sym', run.param_names(W.F.bodies[fid])[0])
        for o in R.outs:
            R.activate()
            if not W.feasible(R.it, o[1].facts):
                continue
            v = R.it.strip(o[1], o[2]) if o[0] == 'ret' else None
            if v is None or v[0] != 'app' or v[1] != 'dbgfinish' or v[3][0] != 'agg' or v[3][1] != ('py', 'listed'):
                obs.append(ob(W, REST, fid, False, v is None, 'gives %s' % (show(v)[:200] if v else o[2:],)))
                continue
            x = v[3][3][0]
            want = me
            ok = x == want or expand(W, R.it, o[1], x, t) == expand(W, R.it, o[1], want, t)
            same = x[0] == 'agg' and x[1][0] == 'adt' and x[1][1] == t
            obs.append(ob(W, REST, fid, ok, same and understood(x), 'lists %s, not what is left of %s' % (show(x)[:300], show(want))))
    return obs


def expand(W, it, S, v, t):
    """fields of a value of a struct"""
    if v[0] == 'agg':
        return tuple(sorted(((n, it.strip(S, x)) for n, x in zip(v[2], v[3])), key=lambda x: x[0]))
    fs = [f['n'] for f in W.F.adts[t]['variants'][0]['f']]
    return tuple(sorted(((n, ('f', v, n)) for n in fs), key=lambda x: x[0]))
