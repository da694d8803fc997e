"""Iterators of the crate, judged by what they yield.

An iterator value is run to its end symbolically; the state at the loop header after n steps stands for
every state an iteration can be in.  The other methods of the type are evaluated on that state.
"""
import models as M
from interp import Ctx, Frame, St, Undecided
from terms import *
import linear
import run

ROOT = ('tmp', 'drain', ())


def ctx(it, fid, tag):
    fr = Frame(it.F.bodies[fid], it.intern('iters', fid, tag), {}, 0, ())
    return Ctx(it, fr, it.F.bodies[fid].span, it.intern('iters', fid, tag))


class Run:
    """The iteration of one value: header state, end states, sequence yielded."""

    def __init__(self):
        self.head = self.hv = self.n = None
        self.ends = []     # (state, sequence)
        self.odd = []      # panics and other outcomes
        self.error = None


def drain(it, S, v, fid, tag=''):
    c = ctx(it, fid, 'drain' + tag)
    r = Run()
    S = S.copy()
    acc = ('tmp', 'drained', ())
    S.mem[ROOT] = v
    S.mem[acc] = ('agg', ('array',), (), ())
    lid = c.lid('drain')

    def body(S1):
        r.head, r.hv = S1, S1.mem[ROOT]
        out = []
        for o in M.step(it, S1, (ROOT, ()), c.sub('st')):
            if o[0] == 'item':
                S2 = o[1].copy()
                S2.mem[acc] = mkpush(S2.mem[acc], o[2])
                out.append(('back', S2))
            elif o[0] == 'done':
                out.append(('ret', o[1], o[1].mem[acc]))
            elif o[0] == 'skip':
                out.append(('back', o[1]))
            else:
                out.append(o)
        return out
    try:
        for o in it.run_loop(lid, S, body):
            if o[0] == 'ret':
                r.ends.append((o[1], o[2]))
            else:
                r.odd.append(o)
    except Undecided as e:
        r.error = str(e)
    except RecursionError:
        r.error = 'recursion'
    r.n = ('sym', 'n:' + lid)
    linear.UNSIGNED.add(r.n)
    return r


def method(it, S, fid, args, tag):
    """Outcomes of a method with the given argument values."""
    c = ctx(it, fid, 'm' + tag)
    return it.inline(c.fr, S, it.F.bodies[fid], args, c.sub('go'), {})


def iterator_impls(F):
    """ADT id -> {trait tail: impl} for local types that implement Iterator."""
    out = {}
    for i in F.by_trait.get('std::iter::Iterator', []):
        a = i['self'].get('id')
        if i['self']['k'] == 'adt' and a in F.adts:
            out[a] = {'Iterator': i}
    for i in F.j['impls']:
        a = i['self'].get('id')
        if i['self']['k'] == 'adt' and a in out and i['trait']:
            out[a].setdefault(i['trait'].split('::')[-1], i)
    return out
