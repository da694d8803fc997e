"""C11: iterators are exact, complete and fused."""
from base import *
from loops import subst_state
from models import NONE
import iters
import c08

ASSUME = ['the entries a collection stores are those C03 speaks of']
ALL = 'complete: iterating yields every stored entry exactly once'
PART = 'part: the iterator yields the halves of the entry its name says'
ORDER = 'order: all iterators of a collection walk its storage in the same direction'
EXACT = 'exact: length, size hint and count are the number of items still to come'
FUSED = 'fused: an exhausted iterator stays exhausted'
CLONE = 'clone: a clone continues from the same position'
REST = 'rest: a method that takes several items takes those next in line'
WANT = {'keys': '0', 'into_keys': '0', 'values': '1', 'into_values': '1'}
EMPTY = ('agg', ('array',), (), ())


def storages(W, ty, t, guards=(), seen=()):
    """(guards, term) of every sequence of entries a value of the type holds."""
    ty = adt_of(ty)
    if is_pair(elem_of(ty)):
        return [(guards, t)]
    if ty['k'] != 'adt' or ty['id'] not in W.F.adts or ty['id'] in seen:
        return []
    a = W.F.adts[ty['id']]
    out = []
    for v in a['variants']:
        for f in v['f']:
            if a['kind'] == 'enum':
                out += storages(W, f['ty'], ('vf', t, v['n'], f['n']), guards + ((('is', t, v['n']), True),), seen + (ty['id'],))
            else:
                out += storages(W, f['ty'], ('f', t, f['n']), guards, seen + (ty['id'],))
    return out


def sources(W):
    """(collection or None, fn, self name): functions that hand out an iterator over one storage"""
    cols = c08.collections(W)
    II = iters.iterator_impls(W.F)
    for f in W.F.fns.values():
        if f['id'] not in W.F.bodies or len(f['in']) != 1 or f['id'] in W.table_ctors:
            continue
        imp = W.F.fn_impl.get(f['id'])
        own = adt_of(f['in'][0])
        if own.get('id') in cols and (f['exported'] or imp and imp['trait']):
            yield own['id'], f
        elif f['out'].get('id') in II and is_pair(elem_of(f['in'][0])):
            yield None, f


def part(W, it, S, x, E, var):
    """Which half of which entry of E an item is: (half, direction) or None."""
    x = it.strip(S, x)
    if x[0] == 'agg' and x[1][0] == 'tuple' and len(x[3]) == 2:
        a, b = part(W, it, S, x[3][0], E, var), part(W, it, S, x[3][1], E, var)
        return (a[0] + b[0], a[1]) if a and b and a[1] == b[1] else None
    half = ''
    if x[0] == 'f' and x[2] in ('0', '1'):
        half, x = x[2], x[1]
    else:
        half = '01'
    if x[0] == 'idx' and x[1] == E:
        if var is None or x[2] == var:
            return half, 1
        if add(x[2], var) == sub(mklen(E), I(1)):
            return half, -1
    return None


def covers(W, it, S, seq, E):
    """(covers, understood, half, direction, why)"""
    fs = W.with_inv(it, S.facts)
    und = understood(seq)
    if not linear.entails(fs, ('eq', mklen(seq), mklen(E))):
        return False, und and seq[0] in ('build', 'agg', 'sub'), None, None, 'yields %s items of %s' % (show(mklen(seq)), show(mklen(E)))
    if seq[0] == 'build':
        p = part(W, it, S, seq[3], E, seq[2])
        if p is None:
            return False, und, None, None, 'item %s is %s' % (show(seq[2]), show(it.strip(S, seq[3])))
        return (True, und) + p + ('',)
    if seq == E:
        return True, und, '01', 1, ''
    if seq == EMPTY:
        return True, und, None, None, ''
    if seq[0] == 'rev' and seq[1] == E:
        return True, und, '01', -1, ''
    return False, False, None, None, 'yields ' + show(seq)[:200]


def iterator_of(W, II, it, S, v):
    v = it.deref(S, v)
    return v[1][1] if v[0] == 'agg' and v[1][0] == 'adt' and v[1][1] in II else None


def check(W):
    obs = []
    II = iters.iterator_impls(W.F)
    done = set()
    for aid, f in sources(W):
        fid = f['id']
        R = W.analyse(fid)
        name = f['path'].split('::')[-1]
        it = R.it
        its = []
        rets = [o for o in R.outs if o[0] == 'ret']
        if R.error:
            if f['out'].get('id') in II or name in WANT or name in ('iter', 'into_iter'):
                obs.append(Ob(ALL, W.fname(fid), W.span(fid), UNDECIDED, R.error))
            continue
        its = [iterator_of(W, II, it, o[1], o[2]) for o in rets]
        if not any(its):
            if name in WANT or name in ('iter', 'into_iter'):
                # an iterator of the standard library, or none at all
                its = [''] * len(rets)
            else:
                continue
        ps = run.param_names(W.F.bodies[fid])
        me = ('sym', ps[0])
        sts = storages(W, W.F.bodies[fid].locals[1]['ty'], me)
        halves = set()
        for o, t in zip(rets, its):
            R.activate()
            if not W.feasible(it, o[1].facts):
                continue
            S = o[1]
            # the storage in use on this path
            Es = [E for g, E in sts if not any((a, not p) in S.facts or a[0] == 'is' and any(b[0] == 'is' and b[1] == a[1] and b[2] != a[2] and q for b, q in S.facts) for a, p in g)]
            if len(Es) != 1:
                obs.append(ob(W, ALL, fid, False, False, '%d storages for %s' % (len(Es), showfacts(S.facts)[:200])))
                continue
            E = Es[0]
            r = iters.drain(it, S, o[2], fid)
            if r.error:
                obs.append(ob(W, ALL, fid, False, False, r.error))
                continue
            for x in r.odd:
                if W.feasible(it, x[1].facts):
                    obs.append(ob(W, ALL, fid, False, True, 'iterating may panic: %s when %s' % (x[2:], showfacts(x[1].facts)[:300])))
            if not r.ends:
                obs.append(ob(W, ALL, fid, False, True, 'never ends'))
                continue
            for S2, seq in r.ends:
                if not W.feasible(it, S2.facts):
                    continue
                ok, und, half, way, why = covers(W, it, S2, seq, E)
                obs.append(ob(W, ALL, fid, ok, und, why + ' when ' + showfacts(S2.facts)[:200]))
                if ok and half:
                    halves.add((half, way))
                    want = WANT.get(name)
                    if want is None and name in ('iter', 'into_iter') and aid is not None:
                        want = '01' if aid in W.maps else '0'
                    if want:
                        obs.append(ob(W, PART, fid, half == want, True, 'yields half %s of the entries' % half))
            if t:
                done.add(t)
                obs += states(W, II, it, fid, r, E, t)
        if len(set(w for _, w in halves)) > 1:
            obs.append(ob(W, ORDER, fid, False, True, 'both directions'))
        for _, w in halves:
            W.ways.setdefault(aid, {}).setdefault(w, set()).add(fid)
    for aid, ws in W.ways.items():
        if aid is None:
            continue
        for w, fs in ws.items():
            for fid in fs:
                if w == 1 or len(ws) > 1:
                    obs.append(ob(W, ORDER, fid, len(ws) == 1, True, 'walks the entries the other way than ' + ', '.join(W.fname(x) for v, g in ws.items() if v != w for x in g)[:300]))
    return once(obs)


def states(W, II, it, fid, r, E, t):
    """The other methods of the iterator type, in every state an iteration over E goes through."""
    obs = []
    H = r.head
    N, n = mklen(E), r.n
    if H is None or n not in subterms(r.hv):
        return [ob(W, EXACT, fid, False, False, 'states of the iteration not found: ' + show(r.hv)[:200])]
    rem = sub(N, n)
    # the state is one of an iteration
    H = H.copy()
    inn = (('lt', N, n), False)
    if inn not in H.facts:
        H.facts += (inn,)
    ms = {}
    for tr, imp in II[t].items():
        for i in imp['items']:
            if i['id'] in W.F.bodies:
                ms[i['n']] = i['id']
    half = None
    for S2, seq in r.ends:
        if seq[0] == 'build':
            half = seq
    nm = W.name(t)

    def call(mid, S, args, tag):
        try:
            return iters.method(it, S, mid, args, tag)
        except (Undecided, RecursionError) as e:
            return [('error', S, str(e))]

    def number(mid, get, what):
        for o in call(mid, H, [arg(mid)], fid):
            if o[0] == 'error':
                obs.append(ob(W, EXACT, mid, False, False, o[2]))
                continue
            if not W.feasible(it, o[1].facts):
                continue
            if o[0] == 'panic':
                obs.append(ob(W, EXACT, mid, False, True, '%s may panic (%s) after %s of %s items when %s' % (what, o[2], show(n), show(N), showfacts(o[1].facts)[:200])))
                continue
            xs = get(it.strip(o[1], o[2]))
            fs = W.with_inv(it, o[1].facts)
            ok = xs is not None and all(linear.entails(fs, ('eq', x, rem)) for x in xs)
            obs.append(ob(W, EXACT, mid, ok, xs is not None and all(understood(x) and not M_hint(x) for x in xs) or xs is None and understood(o[2]) and not M_hint(o[2]), '%s reports %s with %s to come' % (what, show(it.strip(o[1], o[2])), show(rem))))

    def arg(mid):
        ty = W.F.bodies[mid].locals[1]['ty']
        return ('ref', (iters.ROOT, ()), ty['m']) if ty['k'] == 'ref' else r.hv

    def pair(v):
        if v[0] == 'agg' and v[1][0] == 'tuple' and v[3][1][0] == 'agg' and v[3][1] != NONE:
            return [v[3][0], v[3][1][3][0]]
        return None
    if 'size_hint' in ms:
        number(ms['size_hint'], pair, 'size_hint')
    else:
        obs.append(ob(W, EXACT, ms['next'], False, True, '%s has no size_hint' % nm))
    if 'count' in ms:
        number(ms['count'], lambda v: [v], 'count')
    if 'len' in ms:
        number(ms['len'], lambda v: [v], 'len')
    # exhausted
    X = subst_state(H, {n: N})
    for o in call(ms['next'], X, [('ref', (iters.ROOT, ()), True)], fid):
        if o[0] == 'error':
            obs.append(ob(W, FUSED, ms['next'], False, False, o[2]))
        elif W.feasible(it, o[1].facts):
            same = it.strip(o[1], o[1].mem[iters.ROOT]) == it.strip(X, X.mem[iters.ROOT])
            v = it.strip(o[1], o[2]) if o[0] == 'ret' else None
            obs.append(ob(W, FUSED, ms['next'], v == NONE and same, v is None or understood(v), 'after the last item next gives %s and leaves %s' % (show(v) if v else 'a panic', show(it.strip(o[1], o[1].mem[iters.ROOT]))[:200])))
    def seq_is(S, s):
        """s is what is left"""
        if half is None or s[0] != 'build':
            return s == EMPTY and linear.entails(S.facts, ('eq', rem, I(0)))
        return linear.entails(S.facts, ('eq', mklen(s), rem)) and it.strip(S, subst(s[3], {s[2]: ('sym', 'i:z')})) == it.strip(S, subst(half[3], {half[2]: add(('sym', 'i:z'), n)}))
    def rest(S, v):
        """v, though made up differently, yields what is left"""
        r2 = iters.drain(it, S, v, fid, 'clone')
        return not r2.error and r2.ends and not any(W.feasible(it, x[1].facts) for x in r2.odd) \
            and all(seq_is(S2, s) for S2, s in r2.ends if W.feasible(it, S2.facts))
    if 'clone' in ms:
        want = it.strip(H, r.hv)
        for o in call(ms['clone'], H, [('ref', (iters.ROOT, ()), False)], fid):
            if o[0] != 'ret':
                if o[0] == 'error' or W.feasible(it, o[1].facts):
                    obs.append(ob(W, CLONE, ms['clone'], False, o[0] != 'error', str(o[2:])))
                continue
            v = it.strip(o[1], o[2])
            obs.append(ob(W, CLONE, ms['clone'], v == want, understood(v) and not rest(o[1], v), '%s instead of %s' % (show(v)[:200], show(want)[:200])))

    for m in ('fold', 'rfold'):
        if m in ms and m == 'fold':
            for o in call(ms[m], H, [arg(ms[m]), EMPTY, ('app', 'py:push')], fid):
                if o[0] != 'ret':
                    if o[0] == 'error' or W.feasible(it, o[1].facts):
                        obs.append(ob(W, REST, ms[m], False, o[0] != 'error', str(o[2:])[:200]))
                    continue
                if W.feasible(it, o[1].facts):
                    obs.append(ob(W, REST, ms[m], seq_is(o[1], o[2]), understood(o[2]) and not any(x and x[0] == 'sym' and str(x[1]).startswith('phi:') for x in subterms(o[2])), 'folds over %s, to come: %s items from %s' % (show(o[2])[:200], show(rem), show(n))))
    if 'nth' in ms:
        k = ('sym', 'nth:k')
        linear.UNSIGNED.add(k)
        for o in call(ms['nth'], H, [arg(ms['nth']), k], fid):
            if o[0] == 'error' or not W.feasible(it, o[1].facts):
                if o[0] == 'error':
                    obs.append(ob(W, REST, ms['nth'], False, False, o[2]))
                continue
            v = it.strip(o[1], o[2]) if o[0] == 'ret' else None
            j = add(n, k)
            st = it.strip(o[1], o[1].mem[iters.ROOT])
            if v is None:
                ok = False
            elif v == NONE:
                ok = linear.entails(o[1].facts, ('lt', j, N), False) and st == it.strip(X, X.mem[iters.ROOT])
            else:
                ok = half is not None and v[3][0] == it.strip(o[1], subst(half[3], {half[2]: j})) and linear.entails(o[1].facts, ('lt', j, N)) \
                    and st == it.strip(H, subst(r.hv, {n: add(j, I(1))}))
            obs.append(ob(W, REST, ms['nth'], ok, v is None or understood(v, st), 'nth(k) gives %s and leaves %s' % (show(v)[:200] if v else o[2:], show(st)[:200])))
    if 'last' in ms:
        for o in call(ms['last'], H, [arg(ms['last'])], fid):
            if o[0] == 'error' or not W.feasible(it, o[1].facts):
                if o[0] == 'error':
                    obs.append(ob(W, REST, ms['last'], False, False, o[2]))
                continue
            v = it.strip(o[1], o[2]) if o[0] == 'ret' else None
            if v is None:
                ok = False
            elif v == NONE:
                ok = linear.entails(o[1].facts, ('eq', rem, I(0)))
            else:
                ok = half is not None and v[3][0] == it.strip(o[1], subst(half[3], {half[2]: sub(N, I(1))})) and linear.entails(o[1].facts, ('lt', n, N))
            obs.append(ob(W, REST, ms['last'], ok, v is None or understood(v), 'last gives %s' % (show(v)[:200] if v else o[2:],)))
    known = {'next', 'size_hint', 'count', 'len', 'clone', 'fold', 'nth', 'last', 'fmt'}
    for m in sorted(set(ms) - known):
        obs.append(ob(W, REST, ms[m], False, False, 'no rule for overridden method ' + m))
    return obs


def M_hint(t):
    return any(x and x[0] == 'app' and x[1] in ('hint_lo', 'hint_hi') for x in subterms(t))
