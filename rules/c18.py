"""C18: length and emptiness are truthful and agree across types."""
from base import *
import c08
import c11
import evalterm
import setlaws

ASSUME = ['the entries a collection stores are those C03 speaks of', 'the length methods of the standard library are truthful']
LEN = 'length: the length reported is the number of entries stored'
EMPTY = 'empty: a collection is empty exactly when its length is zero'
STD = 'standard: the length trait reports the number of elements or code values'
DIFF = {'Len', 'capacity', 'chars', 'char_indices', 'lines', 'split_whitespace', 'as_slices', 'to_string_lossy', 'encode_utf16', 'trim', 'trim_end', 'trim_start'}
WRAP = {'Box', 'Rc', 'Arc', 'Cow', 'Ref', 'RefMut', 'Pin'}


def clear(v):
    """Made of lengths, numbers and counts that are known to differ."""
    return understood(v) and not any(x and (x[0] == 'app' and x[1] not in DIFF and x[1] != 'items' or x[0] == 'sym' and str(x[1]).startswith('phi:')) for x in subterms(v))


def refuted(lit, fs):
    """Lengths for which the facts hold and the literal does not."""
    if lit[0] != 'lit' or not all(clear(x) for a, p in tuple(fs) + ((lit[1], True),) if a[0] in ('lt', 'eq') for t in a[1:] for x in evalterm.leaves(t, (), set())):
        return False
    return all(a[0] in ('eq', 'lt', 'is') for a, p in fs) and evalterm.fails(lit, fs) is not None


def subjects(W):
    """(kind, impl or None, fn id, name)"""
    cols = c08.collections(W)
    lens = [t for t in W.F.traits.values() if t['path'].split('::')[-1] == 'Len']
    for t in lens:
        for i in t['items']:
            if i['id'] in W.F.bodies:
                yield 'default', None, i['id'], i['n']
    for imp in W.F.j['impls']:
        aid = adt_of(imp['self']).get('id')
        tr = imp['trait'].split('::')[-1] if imp['trait'] else None
        for i in imp['items']:
            if i['n'] not in ('len', 'is_empty') or i['id'] not in W.F.bodies:
                continue
            if aid in cols and tr in (None, 'Len') and imp['self']['k'] != 'ref':
                yield 'own', imp, i['id'], i['n']
            elif tr == 'Len':
                yield 'std', imp, i['id'], i['n']


def check(W):
    obs = []
    for kind, imp, fid, n in subjects(W):
        rule = EMPTY if n == 'is_empty' else LEN if kind == 'own' else STD
        if kind == 'default':
            R = W.analyse(fid, 'laws', setup=lambda it: setlaws.install(W, it))
        else:
            R = W.analyse(fid)
        if R.error:
            obs.append(ob(W, rule, fid, False, False, R.error))
            continue
        me = ('sym', run.param_names(W.F.bodies[fid])[0])
        outs = []
        for o in R.outs:
            R.activate()
            if not W.feasible(R.it, o[1].facts):
                continue
            if o[0] != 'ret':
                obs.append(ob(W, rule, fid, False, True, 'may panic: %s' % (o[2:],)))
                continue
            v = R.it.strip(o[1], o[2])
            if n == 'is_empty':
                outs += [(S, t, w) for S, t, w in setlaws.decisions(W, Only(R, o))]
            else:
                outs.append((o[1], None, v))
        for S, t, v in outs:
            want = spec(W, kind, imp, fid, S, me)
            if want is None:
                obs.append(ob(W, rule, fid, False, False, 'no specification for this type'))
                continue
            fs = W.with_inv(R.it, S.facts)
            if n == 'len':
                ok = any(v == w or linear.entails(fs, ('eq', v, w)) for w in want)
                obs.append(ob(W, rule, fid, ok, clear(v) or refuted(eq(v, want[0]), fs), 'reports %s instead of %s %s' % (show(v), show(want[0]), showfacts(S.facts))))
            else:
                if t is None:
                    obs.append(ob(W, rule, fid, False, understood(v) if isinstance(v, tuple) else False, 'answers %s' % show(v)[:200]))
                    continue
                ok = any(linear.entails(fs, eq(w, I(0))[1], t) if t else linear.entails(fs, ('lt', I(0), w), True) for w in want)
                und = all(a[0] in ('eq', 'lt', 'is') and clear(a) for a, p in S.facts) or refuted(eq(want[0], I(0)) if t else lt(I(0), want[0]), fs)
                obs.append(ob(W, rule, fid, ok, und, 'answers %s when %s' % (t, showfacts(S.facts))))
    return once(obs)


class Only:
    """One outcome of an analysis."""

    def __init__(self, R, o):
        self.R, self.it, self.outs = R, R.it, [o]

    def activate(self):
        self.R.activate()


def spec(W, kind, imp, fid, S, me):
    """Terms any of which is the length."""
    if kind == 'default':
        return [mklen(setlaws.elems(me))]
    ty = W.F.bodies[fid].locals[1]['ty']
    if kind == 'own':
        Es = [E for g, E in c11.storages(W, ty, me) if not any((a, not p) in S.facts or a[0] == 'is' and any(b[0] == 'is' and b[1] == a[1] and b[2] != a[2] and q for b, q in S.facts) for a, p in g)]
        return [mklen(Es[0])] if len(Es) == 1 else None
    t = imp['self']
    if t['k'] == 'array':
        return [mklen(me)]
    if t['k'] == 'ref' or t['k'] == 'adt' and t['n'].split('::')[-1] in WRAP:
        return [('app', 'Len', me), mklen(setlaws.elems(me))]
    return [mklen(me), ('len', me)]
