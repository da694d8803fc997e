"""Which elements of its two operands a set algebra iterator yields: the policy read off its loop."""
import itertools
import iters
import linear
import setlaws
from models import is_it
from terms import *
from world import understood

A, B = setlaws.elems(('sym', 'self')), setlaws.elems(('sym', 'other'))


def positions(v, S, it, sets=(A, B)):
    """operand elements -> (position, end) of the iterators inside a value"""
    out = {}

    def go(x):
        if x[0] == 'ref':
            x = it.deref(S, x)
        if is_it(x) and x[1][1] == 'val':
            g = dict(zip(x[2], x[3]))
            if g['s'] in sets:
                out.setdefault(g['s'], []).append((g['i'], g['e']))
                return
        if x[0] == 'agg':
            for y in x[3]:
                go(y)
    go(v)
    return out


class Event:
    """One item taken from operand k: yielded or skipped, under these facts."""

    def __init__(self, k, item, yielded, facts, where):
        self.k, self.item, self.yielded, self.facts, self.where = k, item, yielded, facts, where

    def __repr__(self):
        return '%s %s when %s' % ('yields' if self.yielded else 'skips', show(self.item), showfacts(self.facts))


class Odd(Exception):
    pass


class Policy:
    def __init__(self, W, it, o, fid, a=A, b=B):
        """o: an outcome of the operation, a fresh iterator.  a, b: the operands' elements"""
        self.W, self.it, self.fid = W, it, fid
        self.A, self.B = a, b
        self.base = o[1].facts
        self.run = r = iters.drain(it, o[1], o[2], fid)
        self.events, self.ends, self.stops = [], [], []
        self.error = r.error
        if self.error:
            return
        try:
            self.collect(o)
        except Odd as e:
            self.error = str(e)

    def positions(self, v, S):
        return positions(v, S, self.it, (self.A, self.B))

    def collect(self, o):
        it, r = self.it, self.run
        hp = self.positions(r.hv, r.head)
        for k, ps in hp.items():
            if len(ps) != 1:
                raise Odd('several iterators over one operand')
            if ps[0][1] != mklen(k):
                raise Odd('an iterator that ends early')
        self.at = {k: ps[0][0] for k, ps in hp.items()}
        seen = False
        for S, seq in r.ends:
            outer = [x for x in S.loops if ('sym', 'n:' + x[0]) == r.n]
            inner = tuple(x for x in S.loops if ('sym', 'n:' + x[0]) != r.n and x[0] not in [l[0] for l in o[1].loops])
            if outer and not seen:
                seen = True
                rec = outer[0][2]
                tr = {root: (h, bs) for root, h, bs in rec.trans}
                for i, (fs, inn, m) in enumerate(rec.backs):
                    hv, bs = tr.get(iters.ROOT, (None, None))
                    acc, nacc = tr.get(('tmp', 'drained', ()), (None, None))
                    if hv is None or bs[i] is None or acc is None or nacc[i] is None:
                        raise Odd('a step that leaves no trace')
                    na = nacc[i]
                    if na == acc:
                        y = []
                    elif na[0] == 'push' and na[1] == acc:
                        y = [na[2]]
                    elif acc[0] == 'build' and na[0] == 'build' and linear.entails(fs, ('eq', mklen(na), add(mklen(acc), I(1)))):
                        y = [subst(na[3], {na[2]: mklen(acc)})]
                    else:
                        raise Odd('yields ' + show(na)[:100])
                    self.walk(hv, bs[i], fs, inn, y, r.head)
            # the step that finds the end
            v = S.mem.get(iters.ROOT)
            if v is None:
                raise Odd('end state lost')
            self.walk(subst(r.hv, {r.n: outer[0][1]}) if outer else o[2], v, S.facts, inner, [], r.head if outer else o[1])
            self.ends.append((S.facts, {k: p[0][0] for k, p in self.positions(v, S).items()}))
        for x in r.odd:
            if self.W.feasible(it, x[1].facts):
                if x[0] == 'panic':
                    self.stops.append(x)
                    continue
                raise Odd('may not return: %s' % (x[2:],))
        if self.stops:
            raise Odd('may panic: %s' % (self.stops[0][2:],))

    def walk(self, v0, v1, facts, inner, yielded, S):
        """Events between two states."""
        it = self.it
        p0, p1 = self.positions(v0, S), self.positions(v1, S)
        ys = [it.strip(S, y) for y in yielded]
        ys = [y for y in ys]
        used = set()
        for k in set(p0) | set(p1):
            if k not in p0 or k not in p1 or len(p0[k]) != 1 or len(p1[k]) != 1:
                raise Odd('an iterator comes or goes')
            a, b = p0[k][0][0], p1[k][0][0]
            # parts covered by loops
            spans = []
            for lid, taken, rec in inner:
                for root, h, bs in rec.trans:
                    ph = self.positions(h, S).get(k)
                    if not ph or len(ph) != 1 or rec.n not in subterms(ph[0][0]):
                        continue
                    j = ph[0][0]
                    steps = set()
                    for i, x in enumerate(bs):
                        px = self.positions(x, S).get(k) if x is not None else None
                        steps.add(sub(px[0][0], j) if px else None)
                    step = steps.pop() if len(steps) == 1 else None
                    if step is None or step[0] != 'int' or not 0 < step[1] < 8:
                        raise Odd('a loop that does not take a certain number of items at a time')
                    spans.append((subst(j, {rec.n: I(0)}), subst(j, {rec.n: taken}), rec, j, lid, step[1]))
                    break
            pos, guard = a, 0
            while pos != b:
                guard += 1
                if guard > 20:
                    raise Odd('positions do not add up: from %s to %s' % (show(a), show(b)))
                sp = [s for s in spans if s[0] == pos and s[1] != pos]
                if sp:
                    lo, hi, rec, j, lid, step = sp[0]
                    spans.remove(sp[0])
                    for fs, inn, m in rec.backs:
                        for c in range(step):
                            self.events.append(Event(k, ('idx', k, add(j, I(c))), False, self.base + tuple(facts) + tuple(fs), lid))
                    pos = hi
                    continue
                if sub(b, pos)[0] != 'int':
                    # perhaps nothing is left
                    if linear.entails(facts, ('eq', pos, b)):
                        break
                    l = lt(pos, b)
                    facts = tuple(facts) + ((l[1], l[2]),)
                    if not self.W.feasible(it, self.base + facts):
                        break
                item = ('idx', k, pos)
                y = item in ys
                if y:
                    used.add(item)
                self.events.append(Event(k, item, y, self.base + tuple(facts), None))
                pos = add(pos, I(1))
        for y in ys:
            if y not in used:
                raise Odd('yields %s, which it did not take from an operand' % show(y))

    # ---- modes: what does not change during an iteration ------------------
    def mode_atoms(self):
        out = []
        for fs in [e.facts for e in self.events] + [f for f, _ in self.ends]:
            for a, p in fs:
                st = subterms(a)
                if any(x and (x[0] == 'sym' and (str(x[1]).startswith('n:') or str(x[1]).startswith('phi:')) or x[0] == 'idx') for x in st):
                    continue
                if a not in out and any(x in st for x in (self.A, self.B, self.A[2], self.B[2])):
                    out.append(a)
        return out

    def modes(self):
        at = self.mode_atoms()
        for bits in itertools.product((True, False), repeat=len(at)):
            fs = self.base + tuple((a, p) for a, p in zip(at, bits))
            if self.W.feasible(self.it, fs):
                yield fs

    def with_mode(self, facts, mode):
        for a, p in facts:
            if (a, not p) in mode:
                return None
        fs = tuple(mode) + tuple(f for f in facts if f not in mode)
        return fs if self.W.feasible(self.it, fs) else None

    def member(self, facts, item, other):
        """Is the item in the other operand?  None if not known"""
        q = other[2]
        for a, p in facts:
            if a == ('b', ('app', 'in', item, q)):
                return p
        return None

    def table(self, mode):
        """(operand, in the other one too) -> set of actions, with events"""
        t = {}
        for e in self.events:
            fs = self.with_mode(e.facts, mode)
            if fs is None:
                continue
            other = self.B if e.k == self.A else self.A
            m = self.member(fs, e.item, other)
            for c in ((m,) if m is not None else (False, True)):
                if not self.possible(fs, e.k, c):
                    continue
                t.setdefault((e.k, c), {}).setdefault(e.yielded, e)
        return t

    def possible(self, facts, k, both):
        """Can operand k have elements that are (not) in the other one?"""
        fs = tuple(facts)
        for x in (self.A, self.B) if both else (k,):
            l = le(I(1), mklen(x))
            if l[0] == 'lit':
                fs += ((l[1], l[2]),)
            elif not l[1]:
                return False
        return self.W.feasible(self.it, fs)
