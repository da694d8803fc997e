"""C21: key analysis stays inside every key."""
from base import *
import folds
from interp import Ctx, Frame

INSIDE = 'inside: no step of the analysis leaves a key'
WINDOW = 'window: what the analysis recommends lies inside every key'
SAME = 'same: the collection built reads the window the analysis chose'


def reports(W):
    """Analyses that may recommend a window: functions over keys that report two positions."""
    out = set()
    it = W.new_interp()
    for fid, f in W.F.fns.items():
        if fid in W.F.bodies and windows(W, f['out']) and it.summarised(fid):
            out.add(fid)
    return out


def windows(W, ty):
    """Variants of a report that designate a window -> (name, field of the position, field of the length)"""
    a = W.F.adts.get(ty.get('id')) if ty['k'] == 'adt' else None
    r = {}
    for v in a['variants'] if a else ():
        fs = [f for f in v['f'] if f['ty']['k'] == 'prim' and f['ty']['n'] == 'usize']
        if len(fs) == 2 and len(v['f']) == 2:
            r[v['n']] = [f['n'] for f in fs]
    return r


def roots(W, rs):
    """Those called from elsewhere."""
    out = set()
    for fid in rs:
        who = {owner(W, c) for c in W.F.callers_of(fid)}
        if not who or who - rs - {fid}:
            out.add(fid)
    return out or rs


def owner(W, c):
    import c06
    return c06.outer(W, c[0] if isinstance(c, tuple) else c)


def bad_end(why):
    return any(w in why for w in ('index', 'overflow', 'range', 'slice', 'bounds', 'out of'))


def recommended(W):
    """What analyses report: variant -> [(analysis, position, length, parts compared)]"""
    if not hasattr(W, 'windows_'):
        inside(W, reports(W))
    return W.windows_


def check(W):
    rs = reports(W)
    obs = inside(W, rs)
    obs += same(W, rs, W.windows_)
    if not obs:
        obs.append(gone(W, INSIDE, 'key analysis'))
    return once(obs)


def inside(W, rs):
    obs = []
    shapes = W.windows_ = {}
    for fid in sorted(roots(W, rs)):
        R = W.analyse(fid, 'inside', setup=lambda it: setattr(it, 'summaries', False), budget=400000)
        if R.error:
            obs.append(Ob(INSIDE, W.fname(fid), W.span(fid), UNDECIDED, R.error))
            continue
        it = R.it
        ws = windows(W, W.F.fns[fid]['out'])
        n = 0
        for o in R.outs:
            R.activate()
            if not W.feasible(it, o[1].facts):
                continue
            if o[0] == 'panic':
                fs = folds.instances(o[1], o[1].facts)
                ok = not W.feasible(it, fs)
                why = str(o[2]) if len(o) > 2 else ''
                obs.append(ob(W, INSIDE, fid, ok, followed(o[1].facts[-1:]), '%s when %s' % (why, showfacts(fs)[-700:])))
                continue
            v = it.strip(o[1], o[2])
            r = reports_of(v)
            if r is None:
                obs.append(ob(W, WINDOW, fid, False, False, 'reports %s' % show(v)[:200]))
                continue
            n += 1
            if r[0] not in ws:
                obs.append(ob(W, WINDOW, fid, True, True))
                continue
            pos, ln = (r[1][x] for x in ws[r[0]])
            S = o[1]
            seqs = keys_of(S)
            obs.append(ob(W, WINDOW, fid, bool(seqs), False, 'no key analysed for %s' % r[0]))
            for s in seqs:
                j = ('sym', 'n:anykey')
                linear.UNSIGNED.add(j)
                fs = S.facts + ((('lt', j, mklen(s)), True),)
                k = mkidx(s, j)
                fs = folds.instances(S, fs, (mklen(k),))
                ok = nowhere(fs) or linear.entails_ge(fs, sub(mklen(k), add(pos, ln))) and linear.entails_ge(fs, pos) and linear.entails_ge(fs, ln)
                obs.append(ob(W, WINDOW, fid, ok, understood(pos) and understood(ln), '%s recommends %s..%s of %s when %s' % (r[0], show(pos), show(add(pos, ln)), show(k), showfacts(fs)[-500:])))
            shapes.setdefault(r[0], []).append((fid, pos, ln, probed(it, S)))
        for x in it.obls:
            if not x['ok']:
                fs = folds.instances(St(facts=tuple(x['facts']), loops=x['loops']), tuple(x['facts']), x['bad'])
                ok = all(c[0] == 'lit' and linear.entails(fs, c[1], c[2]) for c in x['bad']) or nowhere(fs)
                obs.append(Ob(INSIDE, W.fname(fid), x['span'], PROVED if ok else VIOLATED if all(understood(c) for c in x['bad']) else UNDECIDED, '' if ok else x['kind']))
            else:
                obs.append(Ob(INSIDE, W.fname(fid), x['span'], PROVED, ''))
        obs.append(ob(W, INSIDE, fid, n > 0, False, 'no way through'))
    return obs


BITWISE = ('bitand', 'bitor', 'bitxor', 'shl', 'shr', 'mul', 'pow', 'wrapping_add', 'wrapping_sub', 'wrapping_mul')


def bits(fs):
    """Do the facts depend on what bits numbers have, or on numbers not getting very large?"""
    return any(t and (t[0] == 'app' and t[1] in BITWISE or t[0] == 'int' and abs(t[1]) >= 1 << 40) for a, p in fs for t in subterms(a))


def followed(fs):
    """Do the facts speak of values the analysis could follow?"""
    return not bits(fs) and not any(t and (t[0] == 'unk' or t[0] == 'app' and t[1] == 'items' and has_unk(t[2])) for a, p in fs for t in subterms(a))


def nowhere(fs):
    """The comparisons of numbers among the facts contradict each other."""
    seed = {y for a, p in fs if a[0] in ('lt', 'eq') for s in a[1:] for y in terms.parts(s)[1]}
    return not linear.consistent(fs, seed)


def reports_of(v):
    if v[0] == 'agg' and v[1][0] == 'adt':
        return v[1][2], dict(zip(v[2], v[3]))
    return None


def keys_of(S):
    """Sequences of keys: what completed loops went over item by item, taking parts of the items."""
    out = []
    for l, x, r in S.loops:
        for fs, ls, m in r.backs:
            ts = set()
            for a, p in fs:
                subterms(a, ts)
            for v in m.values():
                subterms(v, ts)
            for t in ts:
                if t and t[0] == 'sub' and t[1][0] == 'idx' and t[1][2] == r.n and t[1][1] not in out and linear.entails(S.facts, ('eq', x, mklen(t[1][1]))):
                    out.append(t[1][1])
    return out


def probed(it, S):
    """Parts of keys the last completed comparison of keys went over, on each way: (low, high, length of the key)"""
    out = set()
    for l, x, r in S.loops:
        cur = set()
        for fs, ls, m in r.backs:
            ts = set()
            for a, p in fs:
                subterms(a, ts)
            for t in ts:
                if t and t[0] == 'sub' and t[1][0] == 'idx' and t[1][2] == r.n and linear.entails(S.facts, ('eq', x, mklen(t[1][1]))):
                    cur.add((t[2], t[3], mklen(t[1]), folds.instances(S, S.facts + r.head + tuple(fs))))
        if cur:
            out = cur
    return out


def same(W, rs, shapes):
    """Collections built for a reported window hash the bytes the analysis compared."""
    obs = []
    for fid, f in sorted(W.F.fns.items()):
        if fid in rs or fid not in W.F.bodies or not any(r in called(W, fid) for r in rs) or f['out']['k'] != 'adt':
            continue
        R = W.analyse(fid)
        if R.error:
            obs.append(Ob(SAME, W.fname(fid), W.span(fid), UNDECIDED, R.error))
            continue
        it = R.it
        for o in R.outs:
            R.activate()
            if o[0] != 'ret' or not W.feasible(it, o[1].facts):
                continue
            for a, p in o[1].facts:
                if not (p and a[0] == 'is' and a[1][0] == 'app' and a[1][1][4:] in rs and str(a[1][1]).startswith('sum:') and a[2] in shapes):
                    continue
                obs += reads(W, R, fid, o, a[1], a[2], shapes[a[2]])
    return obs


def called(W, fid):
    """Functions called in a body or its closures."""
    out = set()
    for bid, b in W.F.bodies.items():
        if bid == fid or bid.startswith(fid + '::{closure'):
            for blk in b.blocks:
                t = blk['t']
                if t['t'] == 'call' and t['f']['o'] == 'fn':
                    out.add(t['f']['callee'].get('resid') or t['f']['callee']['id'])
    return out


KEY = ('sym', 'key:')


def reads(W, R, fid, o, rep, variant, shapes):
    """A collection built after the report: what of a key long enough does it hash?"""
    return [same_window(W, fid, q[1].facts, part, rep, variant, shapes) for q, part in hashed(W, R, fid, o)]


def hashed(W, R, fid, o):
    """Parts of a key a collection built on the way hashes: (outcome of hashing, part)"""
    out = []
    it, S = R.it, o[1]
    ts = [x for x in subterms(it.strip(S, o[2])) if x and x[0] == 'app' and str(x[1]).startswith('ctor:')]
    linear.UNSIGNED.add(mklen(KEY))
    for t in ts:
        for x in t[2:]:
            if not (isinstance(x, tuple) and x[0] == 'agg' and x[1][0] == 'closure' or isinstance(x, tuple) and x[0] == 'fnv'):
                continue
            fr = Frame(W.F.bodies[fid], it.intern('reads', fid), {}, 0, (fid,))
            for q in it.call_value(S, x, [KEY], Ctx(it, fr, '', ('reads', fid))):
                if q[0] != 'ret' or not W.feasible(it, q[1].facts):
                    continue
                h = table.norm(it.strip(q[1], q[2]))
                for y in subterms(h):
                    if y and y[0] == 'app' and y[1] in ('hupd', 'slicehash') or y and y[0] == 'app' and str(y[1]).startswith('hwrite'):
                        part = next((z for z in subterms(y) if z and z[0] == 'sub' and any(w == KEY for w in subterms(z[1]))), None)
                        if part is not None:
                            out.append((q, part))
    return out


def same_window(W, fid, facts, part, rep, variant, shapes):
    """The part of the key, with the window the analysis settled on put in, is the part it compared."""
    bad = []
    for src, pos, ln, cmp_ in shapes:
        ws = windows(W, W.F.fns[src]['out'])[variant]
        if not cmp_:
            bad.append((None, None, None))
        for lo, hi, n, fs in cmp_:
            m = {('vf', rep, variant, ws[0]): pos, ('vf', rep, variant, ws[1]): ln, mklen(KEY): n}
            a, b = subst(part[2], m), subst(part[3], m)
            if not (linear.entails(fs, ('eq', a, lo)) and linear.entails(fs, ('eq', b, hi))):
                bad.append((part, lo, hi))
    und = all(x is not None and understood(x[2]) and understood(x[3]) and understood(lo) and understood(hi) for x, lo, hi in bad)
    return ob(W, SAME, fid, not bad, und, '%s: the map hashes %s' % (variant, show(part).replace(show(rep), 'report')[:500]))
