"""C19: the hasher supplied by the caller is the one used."""
from base import *
import c03
import c06
import c08
from interp import Ctx, Frame
from table import norm

KEEP = 'keep: the collection stores the hasher it was given'
OWN = 'own: every hash is computed with a hasher of the caller\'s type'
CTOR = 'construction: hashes are computed with the hasher supplied'
LOOK = 'lookup: hashes are computed with the hasher the collection stores'
SLOT = 'slot: buckets are chosen by hashes of that hasher'
BACK = 'back: asking for the hasher gives the stored one'
BYTES = 'bytes: a sub-slice hash covers exactly the designated bytes'
SAME = 'same: sub-slices of strings and byte slices hash alike'
ASSUME = ['cloning a hasher gives the same hasher']


def bound(f, p, what):
    return any('<%s as %s' % (p, t) in q for q in f['preds'] for t in ('std::hash::' + what, 'core::hash::' + what))


def hasher_param(f):
    return [p for p in f['g'] if bound(f, p, 'BuildHasher')]


def fields(W):
    """ADT -> (field that stores a hasher, its type parameter)"""
    out = {}
    for a in W.F.adts.values():
        ps = set()
        for f in W.F.fns.values():
            if f['impl'] and f['out']['k']:
                imp = W.F.fn_impl.get(f['id'])
                if imp and imp['self'].get('id') == a['id']:
                    for g, x in zip([g for g in a['g'] if not g.startswith("'")], [x for x in imp['self']['a'] if x['k'] != 'region']):
                        if x['k'] == 'param' and bound(f, x['n'], 'BuildHasher'):
                            ps.add(g)
        for v in a['variants']:
            for fl in v['f']:
                if fl['ty']['k'] == 'param' and fl['ty']['n'] in ps:
                    out[a['id']] = (fl['n'], fl['ty']['n'])
    return out


def held(W, fs, it, S, v, out):
    """Hashers stored in a value built on the path."""
    v = it.strip(S, v)
    if v[0] == 'agg' and v[1][0] == 'adt':
        for n, x in zip(v[2], v[3]):
            if v[1][1] in fs and n == fs[v[1][1]][0]:
                out.append(it.strip(S, x))
            else:
                held(W, fs, it, S, x, out)
    return out


def hashers(t):
    """Hashers a hash term is computed with."""
    return [x[2] if x[1] == 'hasher0' else x[3] for x in subterms(t) if x and x[0] == 'app' and x[1] in ('hasher0', 'slicehash')]


def field_of(W, it, fs, t):
    """Is the term the hasher field of some collection?"""
    if t[0] in ('f', 'vf'):
        ty = W.type_of(it, t[1])
        return ty is not None and ty.get('id') in fs and fs[ty['id']][0] == t[-1]
    return False


def check(W):
    obs = []
    fs = fields(W)
    cols = c08.collections(W)
    # by type: which hasher any hash in the crate is computed with
    for bid, b in W.F.bodies.items():
        own = c06.outer(W, bid)
        f = W.F.fns.get(own)
        for blk in b.blocks:
            t = blk['t']
            if t['t'] != 'call' or t['f']['o'] != 'fn' or blk['c']:
                continue
            c = t['f']['callee']
            tr = (c.get('trait') or '').split('::')[-1]
            ts = [x for x in c['args'] if x['k'] != 'region']
            h = None
            if tr in ('BuildHasher', 'Hasher') and ts:
                h = ts[0]
            elif tr == 'SliceHash' or tr == 'Hash' and len(ts) > 1:
                h = ts[1] if len(ts) > 1 else None
            elif tr == 'Default' and ts and ts[0]['k'] == 'param' and f and bound(f, ts[0]['n'], 'BuildHasher') and has_hasher(f, ts[0]['n'], fs) and not for_result(W, f, ts[0]['n'], fs):
                obs.append(Ob(OWN, b.path.replace(W.F.crate + '::', ''), t.get('sp'), VIOLATED, 'makes a hasher of its own though it has one'))
                continue
            if h is None or f is None:
                continue
            while h['k'] == 'ref':
                h = h['t']
            ok = h['k'] == 'param' and (bound(f, h['n'], 'BuildHasher') or bound(f, h['n'], 'Hasher')) or h['k'] in ('other', 'alias') and any('<%s as ' % p in h['n'] for p in hasher_param(f)) \
                or h['k'] == 'adt' and not hasher_param(f)
            obs.append(Ob(OWN, b.path.replace(W.F.crate + '::', ''), t.get('sp'), PROVED if ok else VIOLATED, '' if ok else '%s on a %s' % (c['fn'].split('::')[-1], ty_str(h))))
    # constructors
    for aid, f in c03.constructors(W):
        fid = f['id']
        R = W.analyse(fid)
        if R.error:
            obs.append(Ob(CTOR, W.fname(fid), W.span(fid), UNDECIDED, R.error))
            continue
        it = R.it
        ps = run.param_names(W.F.bodies[fid])
        hp = hasher_param(f)
        given = [('sym', n) for n, ty in zip(ps, f['in']) if base(ty)['k'] == 'param' and base(ty)['n'] in hp]
        stored = set()
        for o in R.outs:
            R.activate()
            if o[0] != 'ret' or not W.feasible(it, o[1].facts):
                continue
            hs = held(W, fs, it, o[1], o[2], [])
            if given:
                bad = [h for h in hs if h not in given]
                obs.append(ob(W, KEEP, fid, not bad, all(understood(h) for h in bad), 'stores %s' % ', '.join(show(h)[:100] for h in bad)))
            stored |= set(hs)
            want = given or hs
            if want:
                obs += filed(W, fs, R, fid, o, want)
        for e in it.events:
            if e[0] != 'hashing' or not W.feasible(it, e[4]):
                continue
            want = given or sorted(stored, key=repr)
            if not want:
                continue
            obs.append(ob(W, CTOR, fid, e[3] in want, understood(e[3]), 'hashes with %s (at %s)' % (show(e[3])[:200], e[2])))
    # everything called on a collection
    for aid, f, t in c08.receivers(W):
        fid = f['id']
        R = W.analyse(fid)
        if R.error:
            # what an analysis from inside shows is part of its callers' already
            continue
        it = R.it
        R.activate()
        for e in it.events:
            if e[0] == 'hashing' and W.feasible(it, e[4]):
                ok = field_of(W, it, fs, e[3])
                obs.append(ob(W, LOOK, fid, ok, understood(e[3]), 'hashes with %s (at %s)' % (show(e[3])[:200], e[2])))
        if f['out']['k'] == 'ref' and f['out']['t']['k'] == 'param' and f['out']['t']['n'] in hasher_param(f):
            for o in R.outs:
                if o[0] != 'ret' or not W.feasible(it, o[1].facts):
                    continue
                v = it.strip(o[1], o[2])
                obs.append(ob(W, BACK, fid, field_of(W, it, fs, v) and lookup.rooted(v, lookup.self_param(W, fid)), understood(v), 'gives %s' % show(v)[:200]))
        some, all_ = [], []
        for o in R.outs:
            if not W.feasible(it, o[1].facts):
                continue
            ts = set()
            for a, p in o[1].facts:
                subterms(a, ts)
            if len(o) > 2 and isinstance(o[2], tuple) and o[0] == 'ret':
                subterms(o[2], ts)
            for x in ts:
                if x and x[0] == 'app' and x[1] == 'rem' and hashed_table(W, it, x[3], fs):
                    hs = hashers(x[2])
                    bad = [h for h in hs if not field_of(W, it, fs, h)]
                    some += hs
                    all_.append(x[2])
                    obs.append(ob(W, SLOT, fid, not bad, understood(x[2]), 'buckets are chosen by %s' % show(x[2])[:200]))
        if all_:
            obs.append(ob(W, SLOT, fid, bool(some), all(understood(h) for h in all_), 'buckets are chosen by %s' % ', '.join(show(h)[:100] for h in all_[:4])))
    obs += bytes_(W)
    return once(obs)


KEY = ('sym', 'key:')


def tables_of(fs, v):
    """Tables built inside collections that store a hasher."""
    for a in subterms(v):
        if a and a[0] == 'agg' and a[1][0] == 'adt' and a[1][1] in fs:
            for x in a[3]:
                if x[0] == 'app' and str(x[1]).startswith('ctor:'):
                    yield x


def filed(W, fs, R, fid, o, want):
    """The functions tables are given to hash keys with."""
    obs = []
    it, S = R.it, o[1]
    for t in tables_of(fs, it.strip(S, o[2])):
        for x in t[2:]:
            if not (isinstance(x, tuple) and x[0] == 'agg' and x[1][0] == 'closure' or isinstance(x, tuple) and x[0] == 'fnv'):
                continue
            fr = Frame(W.F.bodies[fid], it.intern('filed', fid), {}, 0, (fid,))
            n = len(it.events)
            qs = it.call_value(S, x, [KEY], Ctx(it, fr, '', ('filed', fid)))
            for e in it.events[n:]:
                if e[0] == 'hashing' and W.feasible(it, e[4]):
                    obs.append(ob(W, CTOR, fid, e[3] in want, understood(e[3]), 'hashes with %s (at %s)' % (show(e[3])[:200], e[2])))
            some, all_ = [], []
            for q in qs:
                if q[0] != 'ret' or not W.feasible(it, q[1].facts):
                    continue
                h = it.strip(q[1], q[2])
                all_.append(h)
                hs = hashers(h)
                some += hs
                bad = [y for y in hs if y not in want]
                obs.append(ob(W, SLOT, fid, not bad, understood(h), 'files entries by %s' % show(h)[:200]))
            obs.append(ob(W, SLOT, fid, bool(some), all(understood(h) for h in all_), 'files entries by %s' % ', '.join(show(h)[:100] for h in all_)))
    return obs


def hashed_table(W, it, num, fs):
    """Does the slot count belong to a table inside a collection with a hasher?"""
    for t in subterms(num):
        if t and t[0] in ('f', 'vf'):
            ty = W.type_of(it, t[1])
            if ty is not None and ty.get('id') in fs:
                return True
    return False


def base(ty):
    while ty['k'] == 'ref':
        ty = ty['t']
    return ty


def for_result(W, f, p, fs):
    """The function hands out a standard collection, which needs a hasher of its own."""
    out = W.F.bodies[f['id']].locals[0]['ty'] if f['id'] in W.F.bodies else f['out']
    return out['k'] == 'adt' and out['id'] not in fs and out['n'].startswith('std') and any(x['k'] == 'param' and x['n'] == p for x in out['a'])


def has_hasher(f, p, fs):
    """Does the function get a hasher, or a collection that stores one?"""
    def go(ty):
        if ty['k'] == 'param':
            return ty['n'] == p
        if ty['k'] == 'adt':
            return ty['id'] in fs or any(go(x) for x in ty['a'] if x['k'] != 'region') and not ty['n'].startswith('std')
        return isinstance(ty.get('t'), dict) and go(ty['t'])
    return any(go(t) for t in f['in'])


def bytes_(W):
    """Implementations of hashing a part of a key."""
    obs, forms = [], []
    for imp in W.F.j['impls']:
        for i in imp['items']:
            f = W.F.fns.get(i['id'])
            if not imp['trait'] or not f or i['id'] not in W.F.bodies or not hasher_param(f):
                continue
            if not any(t['k'] == 'adt' and t['n'].split('::')[-1] == 'Range' for t in f['in']) or f['out']['k'] != 'prim' or f['out']['n'] != 'u64':
                continue
            fid = i['id']
            ps = run.param_names(W.F.bodies[fid])
            R = W.analyse(fid)
            if R.error:
                obs.append(ob(W, BYTES, fid, False, False, R.error))
                continue
            it = R.it
            me = ('sym', ps[0])
            bh = next(('sym', n) for n, ty in zip(ps, f['in']) if base(ty)['k'] == 'param' and base(ty)['n'] in hasher_param(f))
            rg = next(('sym', n) for n, ty in zip(ps, f['in']) if ty['k'] == 'adt' and ty['n'].split('::')[-1] == 'Range')
            for o in R.outs:
                R.activate()
                if o[0] != 'ret' or not W.feasible(it, o[1].facts):
                    continue
                v = norm(it.strip(o[1], o[2]))
                want = seqsub(me, ('f', rg, 'start'), ('f', rg, 'end'))
                parts = writes(v)
                if parts is None:
                    obs.append(ob(W, BYTES, fid, False, understood(v) and v[0] != 'app', 'gives %s' % show(v)[:200]))
                    continue
                h, ws = parts
                obs.append(ob(W, CTOR, fid, h == bh, understood(h), 'hashes with %s' % show(h)[:200]))
                ws2 = [(k, debyte(x)) for k, x in ws]
                ok = len(ws2) == 1 and (ws2[0][1] == want or same_range(o[1], ws2[0][1], me, rg))
                obs.append(ob(W, BYTES, fid, ok, all(understood(x) for k, x in ws2), 'hashes %s instead of %s when %s' % (', '.join(show(x)[:150] for k, x in ws2), show(want), showfacts(o[1].facts)[:200])))
                forms.append((fid, tuple((k, subst(x, {me: ('sym', 'it:'), rg: ('sym', 'range:')})) for k, x in ws2)))
    for fid, k in forms[1:]:
        obs.append(ob(W, SAME, fid, k == forms[0][1], all(understood(x) for n, x in k + forms[0][1]), '%s, but %s: %s' % (k, W.fname(forms[0][0]), forms[0][1])))
    return obs


def seqsub(s, a, b):
    return norm(('sub', s, a, b))


def same_range(S, x, me, rg):
    return x[0] == 'sub' and x[1] == me and linear.entails(S.facts, ('eq', x[2], ('f', rg, 'start'))) and linear.entails(S.facts, ('eq', x[3], ('f', rg, 'end')))


def debyte(x):
    """The bytes of a string are the string, as a sequence."""
    if isinstance(x, tuple):
        if len(x) == 3 and x[0] == 'app' and x[1] in ('bytes', 'as_bytes', '?str::as_bytes', '?String::as_bytes'):
            return debyte(x[2])
        return tuple(debyte(y) for y in x)
    return x


def writes(v):
    """(hasher, [(how, what)]) of a finished hash"""
    if v[0] != 'app' or v[1] != 'hfinish':
        return None
    x, out = v[2], []
    while x[0] == 'app' and (x[1] == 'hupd' or str(x[1]).startswith('hwrite')):
        out.append((x[1], x[3]))
        x = x[2]
    if x[0] != 'app' or x[1] != 'hasher0':
        return None
    return x[2], out[::-1]
