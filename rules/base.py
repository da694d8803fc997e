"""Shared by the rules."""
from world import *
import lookup
import table
import rangemap


def ob(W, rule, fid, ok, und, detail=''):
    return Ob(rule, W.fname(fid), W.span(fid), PROVED if ok else VIOLATED if und else UNDECIDED, '' if ok else detail)


def once(obs):
    """Drop repeated obligations; keep the worst of equal ones."""
    seen, out = set(), []
    for o in obs:
        k = (o.rule, o.fn, o.status, o.detail)
        if k not in seen:
            seen.add(k)
            out.append(o)
    return out


def gone(W, rule, what):
    return Ob(rule, what, '', UNDECIDED, 'not found')
