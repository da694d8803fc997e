"""C10: references handed out cannot outlive the collection borrow."""
from base import *
import c08
import c22
import iters

TIED = 'tied: every borrowed part of a result is borrowed from an argument'
KEPT = 'kept: a result borrowed from a collection keeps every collection it came from borrowed'
QUERY = 'query: the lifetime of a query key does not limit the result'
EXCL = 'exclusive: mutable results come from exclusive borrows'
ITEM = 'item: what an iterator yields is borrowed for the lifetime of what it was made from'
VARY = 'vary: types that give mutable access to values of a type are invariant in it'
HOLD = 'hold: a borrowing type keeps the borrow in its type'
ASSUME = ['the borrow checker of rustc; the signatures it enforces on callers are what is judged']


def regions(ty, mut=False, path=()):
    """[(region, under a mutable reference of that region?, mentions a type parameter?)]"""
    k = ty['k']
    out = []
    if k == 'ref':
        out.append((ty.get('r'), ty['m'], bool(params(ty['t']))))
        out += regions(ty['t'])
    elif k == 'region':
        out.append((ty['n'], False, True))
    elif k in ('adt', 'alias'):
        p = bool(set().union(*[params(x) for x in ty['a']], set()))
        for x in ty['a']:
            out += [(x['n'], ty.get('n', '').split('::')[-1] in c08.MUT_STD, p)] if x['k'] == 'region' else regions(x)
    elif k == 'tuple':
        for x in ty['a']:
            out += regions(x)
    elif isinstance(ty.get('t'), dict):
        out += regions(ty['t'])
    return out


def params(ty):
    k = ty['k']
    if k == 'param':
        return {ty['n']}
    if k in ('adt', 'alias', 'tuple'):
        return set().union(*[params(x) for x in ty['a']], set())
    if isinstance(ty.get('t'), dict):
        return params(ty['t'])
    return set()


def static(r):
    return r in ("ReStatic", "'static")


def erased(r):
    return r is None or r.startswith("ReErased") or r.startswith("ReBound") or "'{erased}" in r or r.startswith("'^")


def peel(ty):
    while ty['k'] in ('ref', 'array', 'slice'):
        ty = ty['t']
    return ty


def normal(W, imp, ty):
    """Associated types of the impl itself replaced by what they are."""
    if isinstance(ty, list):
        return [normal(W, imp, x) for x in ty]
    if not isinstance(ty, dict):
        return ty
    if ty['k'] == 'alias':
        name = ty['n'].split('>::')[-1].split('<')[0]
        for i in imp['items'] if imp else ():
            if i['n'] == name and 'ty' in i and ty['a'] and bare(ty['a'][0]) == bare(imp['rself']):
                if not i['g']:
                    return i['ty']
                env = dict(zip(i['g'], ty['a'][len(ty['a']) - len(i['g']):]))
                return rename(i['ty'], env)
        return dict(ty, a=normal(W, imp, ty['a'][:1]) + [x for x in ty['a'][1:] if x['k'] == 'region'])
    return {k: normal(W, imp, v) if k in ('t', 'a') else v for k, v in ty.items()}


def bare(t):
    return repr(rename(t, {}))


def rename(ty, env):
    if isinstance(ty, list):
        return [rename(x, env) for x in ty]
    if not isinstance(ty, dict):
        return ty
    if ty['k'] == 'region':
        for g, v in env.items():
            if ty['n'].split('/#')[0] == g and v['k'] == 'region':
                return v
        return ty
    r = {k: rename(v, env) if k in ('t', 'a') else v for k, v in ty.items()}
    if ty['k'] == 'ref' and ty.get('r'):
        for g, v in env.items():
            if ty['r'].split('/#')[0] == g and v['k'] == 'region':
                r['r'] = v['n']
    return r


def sized_set(W, f, p):
    """Is the parameter bounded by a trait of the crate that iterates over its elements?"""
    for t in W.F.j['traits']:
        if any(i['n'] == 'iter' for i in t['items']):
            nm = t['path'].split('::', 1)[-1]
            if any('<%s as %s' % (p, nm) in q or '<%s as %s' % (p, t['path']) in q for q in f['preds']):
                return True
    return any('<%s as ' % p in q and 'IntoIterator' in q for q in f['preds'])


def subject(W, ty):
    t = peel(ty)
    return t['k'] == 'adt' and (t.get('id') in c08.collections(W) or t.get('id') in W.tables or t.get('id') in iters.iterator_impls(W.F)) or t['k'] == 'param' and t['n'] == 'Self'


def check(W):
    obs = []
    for f in W.F.fns.values():
        imp = W.F.fn_impl.get(f['id'])
        if not (f['exported'] or imp and imp['trait']):
            continue
        ins, out = f['rsig']
        if not any(subject(W, t) for t in ins) and not (out['k'] == 'adt' and out.get('id') in iters.iterator_impls(W.F)):
            continue
        out = normal(W, imp, out)
        rs = [r for r in regions(out) if not erased(r[0])]
        fid = f['id']
        have = [[r[0] for r in regions(normal(W, imp, t))] for t in ins]
        qs = [i for i, t in enumerate(ins) if i > 0 and peel(t)['k'] == 'param' and peel(t)['n'] != 'Self' and not sized_set(W, f, peel(t)['n'])]
        outl = {}
        for a, b in f['outl']:
            outl.setdefault(b, set()).add(a)
        hold = borrowless(W, f, ins, out)
        if hold is not None:
            obs.append(Ob(HOLD, W.fname(fid), W.span(fid), VIOLATED if hold else PROVED, hold))
        for r, m, p in rs:
            if static(r):
                obs.append(ob(W, TIED, fid, not p, True, 'hands out references for ever: %s' % show_ty(out)))
                continue
            src = [i for i, h in enumerate(have) if r in h]
            # a lifetime that every input lifetime of these outlives is as good
            src += [i for i, h in enumerate(have) if any(x in outl.get(r, ()) for x in h) and i not in src]
            obs.append(ob(W, TIED, fid, bool(src), True, 'the lifetime of the result is free: %s' % show_ty(out)))
            bad = [i for i in src if i in qs]
            obs.append(ob(W, QUERY, fid, not bad, True, 'the result %s lives only as long as argument %s' % (show_ty(out), [i for i in bad])))
            if m:
                ex = [i for i in src if exclusive(normal(W, imp, ins[i]), r) and i not in qs]
                obs.append(ob(W, EXCL, fid, bool(ex), True, 'mutable result %s without an exclusive borrow' % show_ty(out)))
        if rs and any(not static(r[0]) for r in rs):
            for i, t in enumerate(ins):
                if t['k'] != 'ref' or i in qs or not lender(W, f, t['t'], out):
                    continue
                mine = t['r']
                ok = any(r[0] == mine or mine in outl.get(r[0], ()) for r in rs)
                obs.append(ob(W, KEPT, fid, ok, True, 'the result %s does not keep argument %d borrowed' % (show_ty(out), i)))
        for a, b in f['outl']:
            if any(r[0] == b for r in rs) and not static(b):
                bad = [i for i in qs if peel(ins[i])['k'] == 'param' and peel(ins[i])['n'] == a and a not in params(ins[0]) and a not in params(out)]
                if bad:
                    obs.append(ob(W, QUERY, fid, False, True, 'the type of argument %s has to outlive the result' % bad))
        if not rs:
            obs.append(ob(W, TIED, fid, True, True))
    for imp in W.F.j['impls']:
        if imp['self']['k'] == 'ref' and not subject(W, imp['self']) or imp['self']['k'] == 'adt' and not subject(W, imp['self']):
            continue
        mine = [r[0] for r in regions(imp['rself'])] + [r[0] for t in imp['targs'] for r in regions(t)]
        for i in imp['items']:
            if 'ty' not in i:
                continue
            for r, m, p in regions(normal(W, imp, i['ty'])):
                if erased(r):
                    continue
                own = r.split('/#')[0] in i['g']
                ok = own or r in mine or static(r) and not p
                obs.append(Ob(ITEM, '%s for %s' % (i['n'], ty_str(imp['self'])), imp['span'], PROVED if ok else VIOLATED, '' if ok else
                              '%s is %s, borrowed for longer than the %s' % (i['n'], show_ty(i['ty']), ty_str(imp['self']))))
            # mutable access needs invariance
            if imp['self']['k'] == 'adt' and imp['self']['id'] in W.F.adts:
                a = W.F.adts[imp['self']['id']]
                for mp in c08.mut_parts(i['ty']):
                    for g, x in zip(a['g'], imp['rself']['a']):
                        if x['k'] == 'param' and x['n'] in params(mp):
                            ok = a['var'][a['g'].index(g)] == 'o'
                            obs.append(Ob(VARY, W.name(a['id']), a['span'], PROVED if ok else VIOLATED, '' if ok else
                                          '%s is covariant in %s but gives mutable access to it' % (a['name'], g)))
    return once(obs)


def lender(W, f, ty, out):
    """A collection the result can refer to."""
    if ty['k'] == 'adt':
        return ty.get('id') in c08.collections(W) or ty.get('id') in W.tables
    return ty['k'] == 'param' and (ty['n'] == 'Self' or sized_set(W, f, ty['n'])) and (ty['n'] == 'Self' or ty['n'] in params(out))


def exclusive(ty, r):
    """Does the argument borrow something exclusively for r, or is it a type that holds such a borrow?"""
    if ty['k'] == 'ref':
        return ty['r'] == r and ty['m'] or exclusive(ty['t'], r) and ty['m']
    if ty['k'] == 'adt':
        return any(x['k'] == 'region' and x['n'] == r for x in ty['a']) or any(exclusive(x, r) for x in ty['a'] if x['k'] != 'region')
    if ty['k'] in ('array', 'slice'):
        return exclusive(ty['t'], r)
    if ty['k'] == 'tuple':
        return any(exclusive(x, r) for x in ty['a'])
    return False


def borrowless(W, f, ins, out):
    """A result made from a borrowed collection whose type forgets the borrow: reason, '' if fine, None if it does not apply"""
    if not ins or ins[0]['k'] != 'ref' or out['k'] != 'adt' or out['id'] not in W.F.adts:
        return None
    if not iters.iterator_impls(W.F).get(out['id']) if isinstance(iters.iterator_impls(W.F), dict) else out['id'] not in iters.iterator_impls(W.F):
        return None
    if any(x['k'] == 'region' for x in out['a']):
        return ''
    ptr = next((fl['n'] for v in W.F.adts[out['id']]['variants'] for fl in v['f'] if has_ptr(fl['ty'])), None)
    return '%s holds a pointer (%s) but its type does not tell what it borrows' % (W.name(out['id']), ptr) if ptr else ''


def has_ptr(ty):
    if ty['k'] == 'ptr' or ty['k'] == 'adt' and ty['n'].split('::')[-1] == 'NonNull':
        return True
    if ty['k'] in ('adt', 'tuple'):
        return any(has_ptr(x) for x in ty['a'] if x['k'] != 'region')
    return isinstance(ty.get('t'), dict) and has_ptr(ty['t'])


def show_ty(t):
    k = t['k']
    if k == 'ref':
        return '&%s %s%s' % (short_region(t.get('r') or ''), 'mut ' if t['m'] else '', show_ty(t['t']))
    if k == 'region':
        return short_region(t['n'])
    if k == 'adt':
        return t['n'].split('::')[-1] + ('<%s>' % ', '.join(map(show_ty, t['a'])) if t['a'] else '')
    if k == 'tuple':
        return '(%s)' % ', '.join(map(show_ty, t['a']))
    if k in ('slice', 'array'):
        return '[%s]' % show_ty(t['t'])
    return t.get('n', k)


def short_region(r):
    return "'" + r.rstrip(')').split("'")[-1].split('/#')[0] if "'" in r else r
