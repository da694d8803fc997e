"""C01: a lookup hit is an entry whose key equals the query."""
from base import *
from lookup import *

ASSUME = ['Eq, Borrow and Equivalent implementations of keys are lawful']


def check(W):
    obs = []
    for a, m, n, fid in ops(W):
        form, want = (MAP_OPS if m else SET_OPS)[n]
        R, cs = cases(W, fid, form)
        if R.error:
            obs.append(Ob('hit', W.fname(fid), W.span(fid), UNDECIDED, R.error))
            continue
        hits = 0
        for c in cs:
            R.activate()
            if c.kind == 'odd':
                obs.append(Ob('hit', W.fname(fid), W.span(fid), UNDECIDED, 'result ' + show(c.value)[:200]))
            if c.kind != 'hit':
                continue
            if not W.feasible(R.it, c.S.facts):
                continue
            hits += 1
            ok, und, d = check_hit(W, R, fid, n, form, want, c)
            obs.append(ob(W, 'hit: parts of one stored entry whose key is known equal to the query', fid, ok, und, d))
        if not hits and not any(c.kind == 'odd' for c in cs):
            obs.append(Ob('hit: some path reports a hit', W.fname(fid), W.span(fid), VIOLATED, 'no path reports a hit'))
    return obs
