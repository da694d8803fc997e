"""C04: narrow index types never truncate; the general-purpose collections fit any size."""
from base import *
import c03

ASSUME = ['the sizing analysis returns at least one slot (C23)', 'a position type numbers its values as its bit width says, or as PrimInt::max_value says']


def facades(W):
    """Collections without a position type of their own: they choose it."""
    out = []
    for aid, f in c03.constructors(W):
        a = W.F.adts[aid]
        if not narrow(W, a):
            out.append((aid, f))
    return out


def narrow(W, a):
    """Does the type pass one of its parameters on as the position type of a table?"""
    g = {x for x in a['g'] if not x.startswith("'")}

    def uses(ty, seen):
        ty = adt_of(ty)
        if ty['k'] != 'adt' or ty['id'] not in W.F.adts:
            return set()
        b = W.F.adts[ty['id']]
        names = [x for x in b['g'] if not x.startswith("'")]
        args = dict(zip(names, [x for x in ty['a'] if x['k'] != 'region']))
        if ty['id'] in W.tables:
            sty = W.F.adts[W.tables[ty['id']]['slot']] if W.tables[ty['id']]['slot'] else None
            if sty is None:
                return set()
            t = sty['variants'][0]['f'][0]['ty']
            # the slot's parameter, as seen from the table
            for f in b['variants'][0]['f']:
                e = elem_of(f['ty'])
                if e and e['k'] == 'adt' and e['id'] == sty['id']:
                    m = dict(zip([x for x in sty['g']], e['a']))
                    t = m.get(t.get('n'), t)
            x = args.get(t.get('n'), t)
            return {x['n']} if x['k'] == 'param' else set()
        if ty['id'] in seen:
            return set()
        r = set()
        for v in b['variants']:
            for f in v['f']:
                for n in uses(f['ty'], seen | {ty['id']}):
                    x = args.get(n)
                    if x is not None and x['k'] == 'param':
                        r.add(x['n'])
        return r
    r = set()
    for v in a['variants']:
        for f in v['f']:
            r |= uses(f['ty'], {a['id']})
    return bool(r & g)


def position_type(W, cid, env):
    """Type of the positions of the table a constructor builds."""
    role = W.table_ctors[cid]
    T = W.tables[role]
    if not T['slot']:
        for f in W.F.adts[role]['variants'][0]['f']:
            if f['n'] == T['slots']:
                return subst_ty(elem_of(f['ty'])['a'][0], tenv(W, cid, env))
        return None
    sty = W.F.adts[T['slot']]
    t = sty['variants'][0]['f'][0]['ty']
    for f in W.F.adts[role]['variants'][0]['f']:
        if f['n'] == T['slots']:
            e = elem_of(f['ty'])
            t = subst_ty(t, dict(zip([x for x in sty['g'] if not x.startswith("'")], [x for x in e['a'] if x['k'] != 'region'])))
    return subst_ty(t, tenv(W, cid, env))


def tenv(W, cid, env):
    """The table's own parameters in terms of what the constructor was called with."""
    o = W.F.fns[cid]['out']
    a = W.F.adts[o['id']]
    return {n: subst_ty(x, env) for n, x in zip([x for x in a['g'] if not x.startswith("'")], [x for x in o['a'] if x['k'] != 'region'])}


def check(W):
    obs = []
    for role, T in W.tables.items():
        obs += [o for a, o in table.settle(W, role) if a == 'width']
        if 'fid' not in T:
            continue
        fid = T['fid']
        R = W.analyse(fid)
        pay = table.payload_param(W, fid)
        n = mklen(pay)
        for o in T['panics']:
            R.activate()
            fs = o[1].facts
            ms = {t for a, _ in fs for t in subterms(a) if t and t[0] == 'app' and t[1] == 'max_value'}
            if any(linear.entails(fs, ('lt', m, n), True) for m in ms):
                obs.append(ob(W, 'reject: the constructor gives up only on more entries than the position type can number', fid, True, True))
                continue
            if any(p and a[0] == 'eq' and a[2] == I(0) and a[1][0] == 'sym' and a[1][1] in run.param_names(W.F.bodies[fid]) for a, p in fs):
                continue   # no slots asked for: C23
            if any(not p and a[0] == 'b' and a[1][0] == 'app' and a[1][1] == 'fits' and a[1][2] in ms for a, p in fs):
                continue   # the position type is wider than any length
            fs2 = tuple((table.norm(a), p) for a, p in fs)
            if not W.feasible(R.it, fs2) or divided(fs2):
                obs.append(ob(W, 'reject: the constructor gives up only on more entries than the position type can number', fid, True, True))
                continue
            why = str(o[2])
            obs.append(ob(W, 'reject: the constructor gives up only on more entries than the position type can number', fid, False,
                          'panic_fmt' in why and lookup.und_facts(fs), 'panics (%s) when %s' % (why, showfacts(fs)[:400])))
    seen = set()
    for aid, f in facades(W):
        fid = f['id']
        R = W.analyse(fid)
        if R.error:
            obs.append(Ob('fit', W.fname(fid), W.span(fid), UNDECIDED, R.error))
            continue
        for e in [e for e in R.it.events if e[0] == 'ctor']:
            R.activate()
            _, fn, sp, cid, env, facts, args = e
            ty = position_type(W, cid, env)
            ps = run.param_names(W.F.bodies[cid])
            pay = table.payload_param(W, cid)
            n = mklen(args[ps.index(pay[1])])
            rule = 'fit: the position type chosen numbers every entry of the payload'
            if ty is None or ty['k'] != 'prim' or ty['n'] not in BITS:
                obs.append(ob(W, rule, fid, False, False, 'position type %s' % (ty_str(ty) if ty else '?')))
                continue
            b = BITS[ty['n']]
            ok = b >= 64 or linear.entails(facts, ('lt', I(2 ** b - 1), n), False) or not W.feasible(R.it, facts)
            obs.append(ob(W, rule, fid, ok, understood(n) and lookup.und_facts(facts), '%s positions for %s entries when %s (%s)' % (ty['n'], show(n)[:100], showfacts(facts)[:300], sp)))
    return obs


def divided(fs):
    """A remainder is less than its divisor, which a division has checked not to be zero."""
    for a, p in fs:
        if a[0] == 'lt' and not p and a[1][0] == 'app' and a[1][1] == 'rem' and linear.entails(fs, ('lt', a[2], a[1][3]), False):
            return True
    return False
