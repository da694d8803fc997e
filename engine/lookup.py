"""Lookups of maps and sets.

Rule "hit": what a lookup hands out are parts of one stored entry, inside the receiver's own storage,
whose key is known equal to the query on that path.
Rule "miss": on every path that reports a miss, comparisons with the query cover every stored entry that
could match: the whole storage, or all of the bucket that the query's hash selects (or the query is
known to lie outside the key range).
Rule "same bucket": the hash by which a constructor files a key and the hash by which a lookup
selects the bucket are the same function of the key and of the fields of the collection.
"""
from world import *
from table import equal, affine, norm
from interp import Frame, Ctx, mklit
import evalterm
import table
import rangemap
from models import BITS

MAP_OPS = {'get': ('opt', ('1',)), 'get_mut': ('opt', ('1',)), 'get_key_value': ('opt', ('0', '1')),
           'contains_key': ('bool', ()), 'index': ('ref', ('1',)), 'index_mut': ('ref', ('1',))}
SET_OPS = {'get': ('opt', ('0',)), 'contains': ('bool', ())}


class Case:
    __slots__ = ('kind', 'S', 'value', 'why')

    def __init__(self, kind, S, value, why=''):
        self.kind, self.S, self.value, self.why = kind, S, value, why


def ops(W):
    """(collection id, is map, op name, fn id)"""
    for cols, names, m in ((W.maps, MAP_OPS, True), (W.sets, SET_OPS, False)):
        for a, ms in cols.items():
            for n in names:
                for imp, f in ms.get(n, []):
                    if len(f['in']) == 2:
                        yield a, m, n, f['id']


def cases(W, fid, form):
    R = W.analyse(fid)
    R.me = self_param(W, fid)
    it = R.it
    out = []
    for o in R.outs:
        if o[0] == 'panic':
            out.append(Case('panic', o[1], None, str(o[2]) if len(o) > 2 else ''))
            continue
        if o[0] != 'ret':
            continue
        S, v = o[1], o[2]
        if form == 'bool':
            if v[0] == 'int':
                out.append(Case('hit' if v[1] else 'miss', S, v))
            else:
                for b, S2 in it.branch(S, v):
                    out.append(Case('hit' if b else 'miss', S2, v))
        elif form == 'opt':
            w = v
            if w[0] == 'agg' and w[1][0] == 'adt' and w[1][2] == 'None':
                out.append(Case('miss', S, v))
            elif w[0] == 'agg' and w[1][0] == 'adt' and w[1][2] == 'Some':
                out.append(Case('hit', S, w[3][0]))
            else:
                out.append(Case('odd', S, v))
        else:
            out.append(Case('hit', S, v))
    return R, out


def key_param(W, fid):
    return ('sym', run.param_names(W.F.bodies[fid])[1])


def self_param(W, fid):
    return ('sym', run.param_names(W.F.bodies[fid])[0])


def rooted(t, base):
    while isinstance(t, tuple) and t:
        if t == base:
            return True
        if t[0] in ('f', 'vf', 'idx', 'sub', 'len'):
            t = t[1]
        else:
            return False
    return False


def storages(W, it, t, facts):
    """Base terms below t that hold entries: [(base, kind, role)]; None when a variant is not known."""
    ty = W.type_of(it, t)
    return walk(W, it, t, ty, facts, 0)


def walk(W, it, t, ty, facts, d):
    if ty is None or d > 8:
        return []
    ty = adt_of(ty)
    if ty['k'] != 'adt' or ty['id'] not in W.F.adts:
        return []
    aid = ty['id']
    if aid in W.tables:
        return [(t, 'table', aid)]
    if aid in W.ranges:
        return [(t, 'range', aid)]
    a = W.F.adts[aid]
    env = {}
    for n, x in zip([x for x in a['g'] if not x.startswith("'")], [x for x in ty['a'] if x['k'] != 'region']):
        env[n] = x
    if a['kind'] == 'struct':
        out = []
        for f in a['variants'][0]['f']:
            fty = subst_ty(f['ty'], env)
            if is_pair(elem_of(fty)):
                out.append((('f', t, f['n']), 'plain', aid))
            else:
                out.extend(walk(W, it, ('f', t, f['n']), fty, facts, d + 1) or [])
        return out
    if a['kind'] == 'enum':
        vs = a['variants']
        live = []
        for v in vs:
            l = it.is_lit(t, it.tag(aid), v['n'])
            if l[0] == 'int':
                if l[1]:
                    live = [v]
                    break
                continue
            if (l[1], l[2]) in facts:
                live = [v]
                break
            if (l[1], not l[2]) in facts:
                continue
            live.append(v)
        out = []
        for v in live:
            for f in v['f']:
                fty = subst_ty(f['ty'], env)
                sub_ = ('vf', t, v['n'], f['n'])
                if is_pair(elem_of(fty)):
                    out.append((sub_, 'plain', aid))
                else:
                    out.extend(walk(W, it, sub_, fty, facts, d + 1) or [])
        return out
    return []


def known_eq(facts, a, b):
    if a == b:
        return True
    if linear.entails(facts, ('eq', a, b), True):
        return True
    for x, p in facts:
        if p and x[0] == 'eq':
            if equal(facts, x[1], a) and equal(facts, x[2], b) or equal(facts, x[1], b) and equal(facts, x[2], a):
                return True
    return False


def refs_of(v):
    """The references making up a hit."""
    if v[0] == 'agg' and v[1] == ('tuple',) or v[0] == 'agg' and v[1][0] == 'tuple':
        return list(v[3])
    return [v]


def check_hit(W, R, fid, op, form, want, c):
    """(ok, understood, detail)"""
    it = R.it
    me, key = self_param(W, fid), key_param(W, fid)
    facts = c.S.facts
    if form == 'bool':
        # some stored entry equals the query
        fs = W.with_inv(it, facts)
        for a, p in fs:
            if p and a[0] == 'eq':
                for x, y in ((a[1], a[2]), (a[2], a[1])):
                    if y == key and x[0] == 'f' and x[2] == '0' and x[1][0] == 'idx' and rooted(x, me):
                        E, j = x[1][1], x[1][2]
                        fs2 = W.with_inv(it, facts + moved(c.S), [x, mklen(E)])
                        if linear.entails(fs2, ('lt', j, mklen(E)), True) and linear.entails(fs2, ('lt', j, I(0)), False):
                            return True, True, ''
        for b, kind, role in storages(W, it, me, facts):
            if kind == 'range':
                lo, hi = W.bounds(role)
                if linear.entails(fs, ('lt', key, ('f', b, lo)), False) and linear.entails(fs, ('lt', ('f', b, hi), key), False):
                    return True, True, ''
                d, n = sub(key, ('f', b, lo)), mklen(('f', b, W.ranges[role]['entries']))
                f2 = W.with_inv(it, facts, [n])
                if linear.entails(f2, ('lt', d, I(0)), False) and linear.entails(f2, ('lt', d, n), True):
                    return True, True, ''
        return False, plainly(c.S, facts), 'reports a hit when ' + showfacts(facts)[:400]
    rs = refs_of(c.value)
    if len(rs) != len(want):
        return False, understood(c.value), 'result ' + show(c.value)[:200]
    entry = None
    for r, fld in zip(rs, want):
        t = it.strip(c.S, r)
        if r[0] == 'ref' and not (r[1][0][0] == 'ext' and rooted(r[1][0][1], me)):
            return False, understood(t), 'hands out %s, which is not part of the collection' % show(r)[:200]
        if t[0] != 'f' or t[1][0] != 'idx' or not rooted(t, me):
            return False, understood(t), 'hands out %s, which is not part of a stored entry' % show(t)[:200]
        if t[2] != fld:
            return False, True, 'hands out part %s of the entry, not part %s' % (t[2], fld)
        if entry is not None and t[1] != entry and not equal(facts, t[1], entry):
            return False, understood(t), 'hands out parts of two entries, %s and %s' % (show(entry)[:150], show(t[1])[:150])
        entry = t[1]
    k = ('f', entry, '0')
    fs = W.with_inv(it, facts, [k, mklen(entry[1])])
    if known_eq(fs, k, key):
        return True, True, ''
    return False, understood(k) and und_facts(facts), 'hands out %s without having found its key equal to the query; it knows %s' % (show(entry)[:200], showfacts(facts)[:300])


def und_facts(facts):
    """Are all facts understood?"""
    return all(understood(*[x for x in a[1:] if isinstance(x, tuple)]) for a, p in facts)


def recs_of(S):
    out = []

    def go(ls):
        for lid, taken, rec in ls:
            out.append((lid, taken, rec))
    go(S.loops)
    return out


def steppers(rec):
    """[(variable, direction, [(way, by how much)])]: variables that only move one way, by constants, or stay."""
    out = []
    for p in rec.phis:
        d = [sub(m.get(p, p), p) for fs, inn, m in rec.backs]
        if p[0] == 'sym' and all(x[0] == 'int' for x in d):
            k = {x[1] > 0 for x in d if x[1]}
            if len(k) == 1:
                out.append((p, 1 if k.pop() else -1, [(b, abs(x[1])) for b, x in zip(rec.backs, d) if x[1]]))
    return out


def moved(S):
    """Facts about variables that only move one way."""
    out = ()
    for lid, taken, rec in recs_of(S):
        for p, k, ways in steppers(rec):
            i = rec.phis[p]
            out += ((('lt', p, i), False),) if k == 1 else ((('lt', i, p), False),)
    return out


def plainly(S, facts):
    """Are all facts understood, seeing that some loop variables only count?"""
    m = {p: I(0) for lid, taken, rec in recs_of(S) for p, _, _ in steppers(rec)}
    return und_facts([(subst_atom(a, m), p) for a, p in facts])


def intervals(S, facts, E, key, it=None, W=None):
    """Index intervals [lo, hi) of E known to differ from the query, from loops and from single tests."""
    out = []
    for lid, taken, rec in recs_of(S):
        cand = None
        for fs, _, _ in rec.backs:
            js = set()
            for j in tested(fs, E, key, False):
                c, d = parts(j)
                k = d.get(rec.n, 0)
                c = sub(j, mul(rec.n, I(k)))
                if k and rec.n not in subterms(c):
                    js.add((c, k))
            js = {(c, k) for c, k in js if all((terms.add(c, I(y if k > 0 else -y)), k) in js for y in range(abs(k)))}
            cand = js if cand is None else cand & js
        for c, k in cand or ():
            end = terms.add(c, mul(taken, I(k)))
            out.append((c, end) if k > 0 else (terms.add(end, I(1)), terms.add(c, I(1))))
        for p, k, ways in steppers(rec):
            cand = None
            for (fs, _, _), by in ways:
                js = {sub(j, p) for j in tested(fs, E, key, False)}
                js = {c for c in js if p not in subterms(c)}
                js = {c for c in js if all(terms.add(c, I(k * y)) in js for y in range(by))}
                cand = js if cand is None else cand & js
            for c in cand or ():
                i = rec.phis[p]
                out.append((terms.add(c, i), terms.add(c, p)) if k == 1 else (terms.add(c, terms.add(p, I(1))), terms.add(c, terms.add(i, I(1)))))
    for j in tested(facts, E, key, False):
        out.append((j, terms.add(j, I(1))))
    return out


def tested(facts, E, key, pol):
    for a, p in facts:
        if a[0] == 'eq' and p == pol:
            for x, y in ((a[1], a[2]), (a[2], a[1])):
                x, y = key_of(a, x, y)
                if x is None:
                    continue
                if y == key and x[1][1] == E:
                    yield x[1][2]


def key_of(a, x, y):
    if x[0] == 'f' and x[2] == '0' and x[1][0] == 'idx':
        return x, y
    # a linear difference: entry key - query == 0
    c, d = parts(sub(x, y))
    if c == 0 and len(d) == 2 and sorted(d.values()) == [-1, 1]:
        (p, _), (q, _) = d.items()
        for u, v in ((p, q), (q, p)):
            if u[0] == 'f' and u[2] == '0' and u[1][0] == 'idx':
                return u, v
    return None, None


def covers(fs, ivs, lo, hi):
    """Do the intervals cover lo..hi?"""
    if linear.entails(fs, ('lt', lo, hi), False):
        return True
    for k, (a, b) in enumerate(ivs):
        if linear.entails(fs, ('lt', lo, a), False):
            rest = ivs[:k] + ivs[k + 1:]
            if linear.entails(fs, ('lt', lo, b), True):
                return covers(fs, rest, b, hi)
            if linear.entails(fs, ('lt', lo, b), False):
                continue
            # the interval may be empty, or end before
            return covers(fs + ((('lt', lo, b), True),), rest, b, hi) and covers(fs + ((('lt', lo, b), False),), rest, lo, hi)
    return False


def check_miss(W, R, fid, c, key=None, S=None):
    """(ok, understood, detail, probes)  probes: [(owner base, table base, kappa)]"""
    it = R.it
    S = S or c.S
    me = self_param(W, fid)
    key = key or key_param(W, fid)
    facts = S.facts
    if not W.feasible(it, facts):
        return True, True, '', []
    probes = []
    stores = storages(W, it, me, facts)
    if not stores:
        return False, False, 'no storage found', []
    for b, kind, role in stores:
        ok, pr = covered(W, it, S, facts + moved(S), b, kind, role, key)
        if not ok:
            und = plainly(S, facts) and all(plainly(S, fs) for _, _, r in recs_of(S) for fs, _, _ in r.backs)
            return False, und, 'reports a miss although stored entries of %s were not compared with the query; it knows %s' % (show(b), showfacts(facts)[:500]), []
        probes.extend(pr)
    return True, True, '', probes


def covered(W, it, S, facts, b, kind, role, key):
    extra = []
    if kind == 'range':
        lo, hi = W.bounds(role)
        E = ('f', b, W.ranges[role]['entries'])
        fs = W.with_inv(it, facts, [('f', b, lo), ('f', b, hi), mklen(E)])
        if linear.entails(fs, ('lt', key, ('f', b, lo)), True) or linear.entails(fs, ('lt', ('f', b, hi), key), True):
            return True, []
        # the keys stored are min + j: were the query one of them ...
        j = ('sym', 'j:stored')
        m = {key: add(('f', b, lo), j)}
        fs = clean(tuple((subst_atom(a, m), p) for a, p in facts))
        # (the span of the keys is representable in their type)
        if fs is None or any(not p and a[0] == 'b' and a[1][0] == 'app' and a[1][1] == 'fits' and a[1][2] == j and a[1][3][-1] not in BITS for a, p in fs):
            return True, []
        if not W.feasible(it, fs + ((('lt', j, I(0)), False), (('lt', j, mklen(E)), True))):
            return True, []
    elif kind == 'table':
        E = ('f', b, W.tables[role]['entries'])
    else:
        E = b
    n = mklen(E)
    fs = W.with_inv(it, facts, [n])
    ivs = intervals(S, facts, E, key)
    if covers(fs, ivs, I(0), n):
        return True, []
    if kind != 'table':
        return False, []
    T = W.tables[role]
    sl = ('f', b, T['slots'])
    slots = {x for a, p in facts for x in subterms(a) if x and x[0] == 'idx' and len(x) == 3 and x[1] == sl}
    for a, z in ivs:
        for y in (a, z):
            slots |= {x for x in subterms(y) if x and x[0] == 'idx' and len(x) == 3 and x[1] == sl}
    for lid, taken, r in recs_of(S):
        slots |= {x for x in subterms(taken) if x and x[0] == 'idx' and len(x) == 3 and x[1] == sl}
    for s in sorted(slots, key=repr):
        lo, hi = W.ends(role, s)
        f2 = W.with_inv(it, facts, [s, n, lo, hi])
        if covers(f2, ivs, lo, hi):
            return True, [(b, role, s[2], S)]
    return False, []


# ---- same bucket ------------------------------------------------------------

def owner_of(W, it, b):
    """(owner term, field, owner type, constructors' filings) of a table"""
    if b[0] != 'f':
        return None
    B, tf = b[1], b[2]
    ty = W.type_of(it, B)
    if ty is None or ty.get('id') not in W.F.adts:
        return None
    return B, tf, ty, filed(W, ty, tf)


def transfer(W, S, key, B, tf, f):
    """Facts of a lookup of the key filed by a constructor (None: they do not go together), substitution."""
    fid, facts_b, H_b, fields, R = f
    m = {('f', B, n): v for n, v in fields.items() if n != tf}
    m[key] = ('sym', 'key:')
    fq = clean(tuple((subst_atom(a, m), p) for a, p in S.facts if not mentions(a, ('f', B, tf))))
    if fq is None:
        return None, m
    return facts_b + fq, m


def backwards(facts):
    """Do the facts require a stored window to end before it starts?  (windows are assumed to run forwards)"""
    ts = set()
    for a, p in facts:
        subterms(a, ts)
    more = tuple((('lt', t, ('f', t[1], 'start')), False) for t in ts if len(t) == 3 and t[0] == 'f' and t[2] == 'end' and t[1][0] in ('f', 'sym') and ('f', t[1], 'start') in ts)
    if not more:
        return False
    fs = tuple(facts) + more
    return not linear.consistent(fs, {y for a, p in more for s in a[1:] for y in parts(s)[1]})


def panics_for_stored(W, it, S, key, res):
    """Could a lookup of a stored key end in this panic?  (possible, understood, detail)"""
    if not W.feasible(it, S.facts) or backwards(S.facts):
        return False, True, ''
    for b, kind, role in storages(W, it, res.me, S.facts):
        if kind != 'table':
            return True, und_facts(S.facts), 'panics when ' + showfacts(S.facts)[:400]
        table.settle(W, role)
        o = owner_of(W, it, b)
        if o is None:
            return True, False, 'owner of the table unknown: ' + show(b)
        B, tf, ty, fb = o
        for f in fb:
            if isinstance(f, str):
                return True, False, f
            allf, m = transfer(W, S, key, B, tf, f)
            res.activate(f[4])
            if allf is not None and not contradictory(W, it, allf):
                return True, und_facts(S.facts), 'panics for a stored key when ' + showfacts(S.facts)[:400]
    return False, True, ''


def apart(filed, probed, facts):
    (k1, n1), (k2, n2) = filed, probed
    h1, h2 = evalterm.hash_leaf(k1, n1), evalterm.hash_leaf(k2, n2)
    if h1 is None or h2 is None or not understood(h1, h2):
        return None
    return evalterm.differ(k1, h1, n1, k2, h2, n2, facts)


def parity(W, b, role, kappa, S, it, key, res):
    """Compare the bucket probed with the bucket in which each constructor files a key.

    b: term of the table; its owner is the value of which it is a field.
    Returns [(ok, understood, detail)]
    """
    table.settle(W, role)
    T = W.tables[role]
    o = owner_of(W, it, b)
    if o is None:
        return [(False, False, 'owner of the table unknown: ' + show(b))]
    B, tf, ty, fb = o
    kp = norm(kappa)
    K0 = ('sym', 'key:')
    out = []
    num = ('f', b, T['num']) if T['num'] else ('len', ('f', b, T['slots']))
    if kp == I(0):
        kp = ('app', 'rem', kp, num)
    if 'odd' in T:
        d = apart(T['odd'], (kp, num), tuple(S.facts))
        if d:
            return [(False, True, 'an entry of hash code %d among %d slots is filed in slot %d, looked up in slot %d' % d)]
    if 'hash' not in T:
        return [(False, False, 'the constructor of the table is not understood')]
    if kp[0] != 'app' or kp[1] != 'rem':
        Hf, HK = T['hash']
        n0 = ('sym', 'num:')
        d = apart((('app', 'rem', HK, n0), n0), (kp, num), tuple(S.facts))
        if d:
            return [(False, True, 'an entry of hash code %d among %d slots is filed in slot %d, looked up in slot %d' % d)]
        return [(False, False, 'bucket selected as ' + show(kp)[:200])]
    fs = W.with_inv(it, S.facts, [num, ('len', ('f', b, T['slots'])), kp])
    if not linear.entails(fs, ('eq', kp[3], num), True):
        return [(False, understood(kp), 'bucket selected modulo %s, not modulo the number of slots' % show(kp[3])[:100])]
    Hp = kp[2]
    if not fb:
        return [(False, False, 'no constructor of %s found' % ty_str(ty))]
    for f in fb:
        if isinstance(f, str):
            out.append((False, False, f))
            continue
        fid, facts_b, H_b, fields, Rb = f
        allf, m = transfer(W, S, key, B, tf, f)
        if allf is None:
            continue
        Hq = subst(Hp, m)
        res.activate(Rb)
        if contradictory(W, it, allf):
            continue
        if Hq == H_b or equal(allf, Hq, H_b):
            out.append((True, True, ''))
        else:
            out.append((False, understood(Hq, H_b), '%s files a key under the hash %s but the lookup uses %s (when %s)' % (
                W.fname(fid), show(H_b)[:200], show(Hq)[:200], showfacts(tuple(x for x in allf if K0 in subterms(x[0])))[:300])))
    return out


def clean(fs):
    """Drop decided atoms; None if one is false."""
    out = []
    for a, p in fs:
        l = mklit(a, p)
        if l[0] == 'int':
            if not l[1]:
                return None
            continue
        out.append((l[1], l[2]))
    return tuple(out)


def contradictory(W, it, fs):
    for a, p in fs:
        if (a, not p) in fs:
            return True
        if a[0] == 'lt' and linear.entails(tuple(x for x in fs if x != (a, p)), a, not p):
            return True
        if a[0] == 'eq' and not p and linear.entails(tuple(x for x in fs if x != (a, p)), a, True):
            return True
    seed = set()
    for a, p in fs:
        if a[0] in ('lt', 'eq'):
            seed |= set(parts(sub(a[1], a[2]))[1])
    return bool(seed) and not linear.consistent(fs, seed)


def filed(W, ty, tf):
    """How the constructors of a type file a key: [(fn, facts, hash of K0, fields, analysis)] or messages."""
    M = ty['id']
    r = W._filed.get((ty_str(ty), tf))
    if r is not None:
        return r
    out = []
    K0 = ('sym', 'key:')
    for fid in W.makers(M):
        env = {}
        imp = W.F.fn_impl.get(fid)
        if imp is not None and imp['self'].get('id') == M:
            unify(imp['self'], ty, env)
            env = {k: v for k, v in env.items() if concrete(v)}
        R, aggs = W.aggregates(fid, M, env)
        if R.error:
            out.append('%s: %s' % (W.fname(fid), R.error))
            continue
        for S, v, o in aggs:
            fields = dict(zip(v[2], v[3]))
            if rangemap.clone_source(v) is not None:
                continue
            t = fields.get(tf)
            if t is None or t[0] != 'app' or not str(t[1]).startswith('ctor:'):
                out.append('%s: table %s is not built by its constructor' % (W.fname(fid), show(t)[:100] if t else '?'))
                continue
            cid = t[1][5:]
            T = W.tables[W.table_ctors[cid]]
            table.settle(W, W.table_ctors[cid])
            R.activate()
            if 'hash' not in T:
                out.append('the constructor of the table is not understood')
                continue
            Hf, HK = T['hash']
            ps = run.param_names(W.F.bodies[cid])
            m = {('sym', n): a for n, a in zip(ps, t[2:])}
            calls = [x for x in subterms(Hf) if x and x[0] == 'app' and x[1] == 'call' and x[2] in m]
            if len(calls) != 1:
                out.append('hash of the table: ' + show(Hf)[:100])
                continue
            c = calls[0]
            f = m[c[2]]
            fr = Frame(W.F.bodies[fid], R.it.intern('hash', fid), env, 0, (fid,))
            ctx = Ctx(R.it, fr, '', ('hash', fid))
            for q in R.it.call_value(S, f, [subst(x, {HK: K0}) for x in c[3:]], ctx):
                if q[0] != 'ret':
                    continue
                h = R.it.strip(q[1], q[2])
                H = subst(subst(Hf, {c: h, HK: K0}), {k: w for k, w in m.items() if k != c[2]})
                out.append((fid, q[1].facts, H, fields, R))
            R.freeze()
    W._filed[(ty_str(ty), tf)] = out
    return out


def concrete(t):
    if t['k'] in ('param', 'other'):
        return False
    return all(concrete(x) for x in t.get('a', []) if isinstance(x, dict)) and (not isinstance(t.get('t'), dict) or concrete(t['t']))
