"""C03: construction keeps every supplied entry exactly once."""
from base import *
from table import perm_of
from loops import *

ASSUME = ['keys are pairwise distinct', 'iterators handed in are fused']


def constructors(W):
    """(collection, fn, payload parameter index): functions that build a collection from a payload"""
    out = []
    cols = {}
    cols.update(W.maps)
    cols.update(W.sets)
    for f in W.F.fns.values():
        o = f['out']
        if o['k'] != 'adt' or o.get('id') not in cols or f['id'] not in W.F.bodies or not f['in']:
            continue
        imp = W.F.fn_impl.get(f['id'])
        own = f['in'][0]
        if not f['exported'] and not (imp and imp['trait']):
            continue
        if adt_of(own).get('id') in cols:
            continue
        out.append((o['id'], f))
    return out


def stored(W, it, S, v, ty=None):
    """Sequences of entries held by a value built on this path; None in the list where unknown."""
    v = it.strip(S, v)
    if v[0] == 'app' and str(v[1]).startswith('ctor:'):
        cid = v[1][5:]
        ps = run.param_names(W.F.bodies[cid])
        pay = table.payload_param(W, cid)
        return [v[2 + ps.index(pay[1])]]
    if v[0] != 'agg' or v[1][0] != 'adt' or v[1][1] not in W.F.adts:
        return [None]
    aid = v[1][1]
    if aid in W.tables:
        return [dict(zip(v[2], v[3]))[W.tables[aid]['entries']]]
    if aid in W.ranges:
        return [dict(zip(v[2], v[3]))[W.ranges[aid]['entries']]]
    a = W.F.adts[aid]
    var = [x for x in a['variants'] if x['n'] == v[1][2]] if a['kind'] == 'enum' else a['variants']
    out = []
    for f in var[0]['f']:
        x = dict(zip(v[2], v[3])).get(f['n'])
        if is_pair(elem_of(f['ty'])):
            out.append(x)
        elif holds_entries(W, f['ty'], set()):
            out.extend(stored(W, it, S, x))
    return out


def holds_entries(W, ty, seen):
    ty = adt_of(ty)
    if is_pair(elem_of(ty)):
        return True
    if ty['k'] != 'adt' or ty['id'] not in W.F.adts or ty['id'] in seen:
        return False
    seen.add(ty['id'])
    return any(holds_entries(W, f['ty'], seen) for v in W.F.adts[ty['id']]['variants'] for f in v['f'])


def payloads(p):
    s = ('sym', p)
    return [s, ('app', 'items', s)]


def drops(S, E):
    """The loop building an unsolved sequence has an iteration that takes an item and stores nothing."""
    for lid, taken, rec in S.loops:
        if E in rec.phis:
            for facts, inner, nx in rec.backs:
                if nx.get(E, E) == E:
                    return True, facts
    return False, None


def check(W):
    obs = []
    for aid, f in constructors(W):
        fid = f['id']
        R = W.analyse(fid)
        if R.error:
            obs.append(Ob('keep', W.fname(fid), W.span(fid), UNDECIDED, R.error))
            continue
        it = R.it
        ps = run.param_names(W.F.bodies[fid])
        n = 0
        for o in R.outs:
            R.activate()
            if o[0] != 'ret' or not W.feasible(it, o[1].facts):
                continue
            n += 1
            S = o[1]
            es = stored(W, it, S, o[2])
            if len(es) != 1:
                obs.append(ob(W, 'keep: the collection built holds one sequence of entries', fid, False, bool(es) and None not in es, '%d sequences' % len(es)))
                continue
            E = es[0]
            if E is None:
                obs.append(ob(W, 'keep', fid, False, False, 'result ' + show(o[2])[:200]))
                continue
            k = None
            for P in [x for p in ps for x in payloads(p)]:
                r = perm_of(E, P, S.facts)
                if r is True:
                    k = True
                    break
                if r is False and k is None:
                    k = False
            if k is None and table.is_phi(E):
                d, fs = drops(S, E)
                if d:
                    k = False
            obs.append(ob(W, 'keep: the stored entries are a permutation of the payload', fid, k is True, k is False, 'stores %s when %s' % (show(E)[:300], showfacts(S.facts)[:300])))
        if not n:
            obs.append(ob(W, 'keep: the constructor returns', fid, False, False, 'no returning path'))
    for role in W.tables:
        obs += [o for a, o in table.settle(W, role) if a in ('keep', 'group')]
    for role in W.ranges:
        obs += [o for a, o in rangemap.settle(W, role) if 'payload' in o.rule]
    return obs
