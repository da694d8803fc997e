"""C26: construction succeeds on every payload the representation admits."""
from base import *
from lookup import *
import c03
import c04
import c05
import c21
import c23
import rangemap
import table

ASSUME = ['user code (Eq, Hash, Borrow, Len, SliceHash, PrimInt, iterators) returns normally and is lawful', 'keys are pairwise distinct',
          'the window given to a slice collection does not end before it starts', 'the span of the keys of a range collection is representable in the key type',
          'loops over a finite sequence end; memory suffices']
ACCEPT = 'accept: construction does not panic'
BUILT = 'built: construction returns a collection'


def builders(W):
    """Every function that makes a collection of something else."""
    cols = set(W.maps) | set(W.sets)
    out = {f['id'] for a, f in c03.constructors(W)}
    for f in W.F.fns.values():
        o = f['out']
        if o['k'] == 'adt' and o.get('id') in cols and f['id'] in W.F.bodies and not f['in'] and (f['exported'] or (W.F.fn_impl.get(f['id']) or {}).get('trait')):
            out.add(f['id'])
    return sorted(out)


def feeding(it):
    it.feeding = True


def analysed(facts):
    """Do the facts depend on what an analysis of the keys recommended (other than which layout)?"""
    for a, p in facts:
        if a[0] == 'is':
            continue
        if any(x and x[0] == 'app' and str(x[1]).startswith('sum:') for t in a[1:] if isinstance(t, tuple) for x in subterms(t)):
            return True
    return False


def check(W):
    obs = []
    for fid in builders(W):
        R = W.analyse(fid, 'fed', setup=feeding)
        if R.error:
            obs.append(ob(W, ACCEPT, fid, False, False, R.error))
            continue
        R.activate()
        obs.append(ob(W, BUILT, fid, any(o[0] == 'ret' and W.feasible(R.it, o[1].facts) for o in R.outs), False, 'never returns'))
        n = 0
        for o in R.outs:
            if o[0] != 'panic':
                continue
            R.activate()
            S = o[1]
            if not W.feasible(R.it, S.facts) or backwards(S.facts):
                continue
            n += 1
            obs.append(ob(W, ACCEPT, fid, rangemap.refuted(W, R.it, S), und_facts(S.facts) and not analysed(S.facts),
                          'panics (%s) when %s' % (str(o[2])[:80], showfacts(S.facts)[:400])))
        if not n:
            obs.append(ob(W, ACCEPT, fid, True, True))
    # the builders of tables: on more entries than positions only, which the facades never ask for; of ranges: on gaps only
    obs += [o for o in c04.check(W) if o.rule.startswith(('reject', 'fit', 'width'))]
    obs += [o for o in c05.check(W) if o.rule.startswith(('accept', 'choose'))]
    # the analyses of the keys
    obs += [o for o in c21.check(W) if o.rule == c21.INSIDE]
    obs += [o for o in c23.judged(W) if o.rule in (c23.NOPANIC, c23.TERM, c23.EMPTY)]
    return once(obs)
