"""C06: safe use never causes undefined behaviour."""
from base import *
from interp import FALSE
from models import NONE
import rangemap
import evalterm

ASSUME = ['implementations of unsafe traits and of the standard library keep their contracts; implementations of safe traits (hashers, keys, number types) may do anything but behave the same way when asked twice by a comparison']
UNCHECKED = 'unchecked: the precondition of every unchecked operation holds'
RETYPE = 'retype: values are reinterpreted only as the type they have'
RAW = 'raw: raw pointers are only followed to live parts of values borrowed accordingly'
COVER = 'covered: every unsafe operation was judged'
SLOTS = 'slots: slot tables designate ranges inside the entries'
SEALED = 'sealed: tables are put together only by their constructor'
STATIC = 'static: no mutable static'
KINDS = {'unchecked', 'unwrap_unchecked', 'assert_unchecked', 'unreachable', 'nonzero', 'init', 'utf8'}
CONVERSIONS = ('to_usize', 'to_isize', 'to_u64', 'to_u32', 'to_u16', 'to_u8', 'to_i64', 'to_i32', 'to_u128', 'to_i128')


def untrusted(it):
    """What a number type of the caller reports about itself is any number."""
    def conv(name):
        def h(it, S, a, c):
            t = c.targs[0] if c.targs else {'k': 'param', 'n': '?'}
            if t['k'] != 'param':
                return None
            v = ('sym', 'says:%s:%s' % (it.intern('says', c.fr.fid, c.site, repr(it.strip(S, a[0]))), name))
            linear.UNSIGNED.add(v)
            import models
            return [('ret', S, models.some(v)), ('ret', S, NONE)]
        return h
    for n in CONVERSIONS:
        it.std_contracts['ToPrimitive::' + n] = conv(n)


def roots(W):
    for f in W.F.fns.values():
        if f['id'] not in W.F.bodies or f['unsafe']:
            continue
        imp = W.F.fn_impl.get(f['id'])
        if f['exported'] or imp and imp['trait'] or f['id'] in W.table_ctors:
            yield f['id']


def alone(W, fid):
    """The analysis for a caller's every argument; calls of other entry points count as judged there if it takes too long."""
    R = W.analyse(fid, 'c06', untrusted, budget=15000)
    if not R.error:
        return R

    def setup(it):
        untrusted(it)
        for g in roots(W):
            if g != fid and g not in it.contracts:
                it.contracts[g] = lambda it, S, args, ctx, g=g: it.unknown(S, W.fname(g), args, ctx)
    return W.analyse(fid, 'c06 alone', setup)


def sites(W):
    """(body id, path, span, what, callee) of every unsafe operation in the crate"""
    for bid, b in W.F.bodies.items():
        for blk in b.blocks:
            if blk['c']:
                continue
            t = blk['t']
            if t['t'] == 'call' and t['f']['o'] == 'fn' and t['f']['callee'].get('unsafe') and 'fmt::Arguments' not in t['f']['callee']['fn']:
                yield bid, b.path, t.get('sp'), 'call', t['f']['callee']
            for s in blk['s']:
                if s['s'] != 'assign':
                    continue
                r = s['r']
                if r['r'] == 'cast' and r['k'] == 'Transmute':
                    yield bid, b.path, s.get('sp'), 'transmute', None
                if any(raw(p) for p in places(s)):
                    yield bid, b.path, s.get('sp'), 'raw', None


def reaching(W, fs):
    """Functions from which one of these can be called."""
    out, todo = set(), list(fs)
    while todo:
        f = todo.pop()
        if f in out:
            continue
        out.add(f)
        todo += W.F.callers_of(f)
        # a method of a trait is called through the trait
        imp = W.F.fn_impl.get(f)
        if imp and imp['trait']:
            n = f.rsplit('::', 1)[-1]
            todo += [c for t in W.F.j['traits'] for i in t['items'] if t['path'] == imp['trait'] and i['n'] == n for c in W.F.callers_of(i['id'])]
    return out


def raw(p):
    return any(e[0] == 'deref' and e[1] == 'ptr' for e in p['p'])


def places(x):
    """Every place in a statement."""
    if isinstance(x, dict):
        if 'l' in x and 'p' in x and isinstance(x['p'], list):
            yield x
        else:
            for v in x.values():
                yield from places(v)
    elif isinstance(x, list):
        for v in x:
            yield from places(v)


# ---- types ---------------------------------------------------------------------

def type_facts(facts):
    """Equalities of types the facts tell of: [(name, name)]"""
    out = []
    for a, p in facts:
        if p and a[0] == 'eq':
            x, y = a[1], a[2]
            if x[0] == 'app' and y[0] == 'app' and x[1] == y[1] == 'typeid':
                out.append((x[2][1], y[2][1]))
    return out


def variants(W):
    """(enum, variant) -> type equalities that hold wherever the crate makes such a value"""
    made = {}
    enums = {a['id'] for a in W.F.adts.values() if a['kind'] == 'enum' and not a['exported'] and a['g']}
    makers = reaching(W, {f for a in enums for f in W.F.builders(a)})
    for fid in roots(W):
        if fid not in makers:
            continue
        R = alone(W, fid)
        if R.error:
            continue
        for o in R.outs:
            R.activate()
            if o[0] != 'ret' or not W.feasible(R.it, o[1].facts):
                continue
            for t in subterms(R.it.strip(o[1], o[2])):
                if t and t[0] == 'agg' and len(t) == 4 and t[1][0] == 'adt' and t[1][1] in enums:
                    if same_variant(t, o[1].facts):
                        continue
                    eqs = {frozenset(e) for e in type_facts(o[1].facts)}
                    k = (t[1][1], t[1][2])
                    made[k] = made[k] & eqs if k in made else eqs
    return made


def same_variant(t, facts):
    """The value is a copy of one of the same variant."""
    b = None
    for n, x in zip(t[2], t[3]):
        x = rangemap.uncopy(x)
        if x[0] != 'vf' or x[2] != t[1][2] or x[3] != n or b is not None and x[1] != b:
            return False
        b = x[1]
    return b is not None


def alike(W, it, f, t, facts, made):
    """Are the types the same, given what the path knows?  (same, why not)"""
    eqs = [tuple(e) for e in type_facts(facts)]
    for a, p in facts:
        if p and a[0] == 'is':
            ty = W.type_of(it, a[1])
            if ty and ty.get('id'):
                eqs += [tuple(e) for e in made.get((ty['id'], a[2]), ()) if len(e) == 2]
    for x, aid, left in W.variants_left(it, facts):
        # of any variant that is left
        known = [made[aid, v] for v in left if (aid, v) in made]
        if known:
            eqs += [tuple(e) for e in frozenset.intersection(*map(frozenset, known)) if len(e) == 2]
    env = {}

    def root(x):
        while x in env:
            x = env[x]
        return x
    for x, y in eqs:
        x, y = root(x), root(y)
        if x != y:
            env[x] = y

    def eq(x, y):
        if root(ty_str(x)) == root(ty_str(y)):
            return True
        if x['k'] != y['k']:
            return False
        if x['k'] == 'adt':
            xs = [z for z in x['a'] if z['k'] != 'region']
            ys = [z for z in y['a'] if z['k'] != 'region']
            return x['n'] == y['n'] and len(xs) == len(ys) and all(eq(p, q) for p, q in zip(xs, ys))
        if x['k'] in ('ref', 'ptr'):
            return x['m'] == y['m'] and eq(x['t'], y['t'])
        if x['k'] == 'slice':
            return eq(x['t'], y['t'])
        if x['k'] == 'array':
            return x['n'] == y['n'] and eq(x['t'], y['t'])
        if x['k'] == 'tuple':
            return len(x['a']) == len(y['a']) and all(eq(p, q) for p, q in zip(x['a'], y['a']))
        return False
    return eq(f, t)


SIZES = {'u8': 1, 'i8': 1, 'u16': 2, 'i16': 2, 'u32': 4, 'i32': 4, 'u64': 8, 'i64': 8, 'u128': 16, 'i128': 16, 'usize': 8, 'isize': 8, 'f32': 4, 'f64': 8}


def plain(t):
    """Size of a type any bytes are a value of."""
    if t['k'] == 'prim':
        return SIZES.get(t['n'])
    if t['k'] == 'array' and str(t['n']).isdigit() and plain(t['t']):
        return int(t['n']) * plain(t['t'])
    if t['k'] == 'adt' and t['n'].split('::')[-1] == 'MaybeUninit':
        return plain(t['a'][0])
    return None


# ---- the rule --------------------------------------------------------------------

def check(W):
    obs = []
    seen = set()      # (path, span) judged
    made = variants(W)
    done = set()
    ss = list(sites(W))
    unsafe = reaching(W, {outer(W, x[0]) for x in ss})
    todo = [f for f in roots(W) if f in unsafe]
    while todo:
        fid = todo.pop(0)
        if fid in done:
            continue
        done.add(fid)
        R = alone(W, fid)
        it = R.it
        R.activate()
        if R.error:
            if fid in unsafe:
                obs.append(ob(W, COVER, fid, False, False, R.error))
            continue
        for o in it.obls:
            if o['kind'] not in KINDS:
                continue
            seen.add((o['fn'], o['span']))
            facts = o['facts']
            if not W.feasible(it, facts):
                continue
            fs = W.with_inv(it, facts, o['conds'])
            bad = [t for t in o['bad'] if not it.fact_holds(fs, t[1], t[2])] if all(t[0] == 'lit' for t in o['bad']) else o['bad']
            und = not (o['kind'] == 'unchecked' and any(strange(t) for t in bad)) and understood(*bad) and all(understood(*[x for x in a[1:] if isinstance(x, tuple)]) for a, p in facts)
            if und and any(evalterm.hard(t) for t in bad):
                und = any(evalterm.fails(t, fs) for t in bad)
            obs.append(at(W, UNCHECKED, fid, o, not bad, und, 'needs %s; knows %s' % (', '.join(show(t)[:250] for t in bad), showfacts(facts)[:500])))
        for e in it.events:
            if e[0] == 'transmute':
                seen.add((e[1], e[2]))
                if not W.feasible(it, e[5]):
                    continue
                ok = alike(W, it, e[3], e[4], e[5], made) or plain(e[3]) is not None and plain(e[3]) == plain(e[4])
                obs.append(Ob(RETYPE, e[1].replace(W.F.crate + '::', ''), e[2], PROVED if ok else VIOLATED, '' if ok else
                              '%s is reinterpreted as %s when %s (reached from %s)' % (ty_str(e[3]), ty_str(e[4]), showfacts(e[5])[:400], W.fname(fid))))
            elif e[0] == 'ptrcast':
                if not W.feasible(it, e[5]):
                    continue
                ok = alike(W, it, e[3]['t'], e[4]['t'], e[5], made) or plain(e[4]['t']) == 1
                if not ok:
                    obs.append(Ob(RETYPE, e[1].replace(W.F.crate + '::', ''), e[2], VIOLATED if plain(e[3]['t']) is None else UNDECIDED,
                                  'a pointer to %s becomes one to %s when %s' % (ty_str(e[3]['t']), ty_str(e[4]['t']), showfacts(e[5])[:400])))
            elif e[0] == 'rawderef':
                seen.add((e[1], e[2]))
                if not W.feasible(it, e[5]):
                    continue
                v = e[3]
                ok = v[0] == 'ref' and (v[2] or not e[4])
                obs.append(Ob(RAW, e[1].replace(W.F.crate + '::', ''), e[2], PROVED if ok else VIOLATED if v[0] == 'ref' else UNDECIDED, '' if ok else
                              'follows %s%s (reached from %s)' % (show(v)[:200], ' mutably though it was borrowed shared' if v[0] == 'ref' else '', W.fname(fid))))
        if not todo:
            # private functions no analysis ran through
            for bid, path, span, what, callee in ss:
                own = outer(W, bid)
                if (path, span) not in seen and own in W.F.bodies and own not in done and own in W.F.fns:
                    todo.append(own)
    for bid, path, span, what, callee in ss:
        ok = (path, span) in seen
        local = callee is not None and (callee.get('resid') or callee['id']) in W.F.bodies
        if ok or local:
            obs.append(Ob(COVER, path.replace(W.F.crate + '::', ''), span, PROVED))
            continue
        obs.append(Ob(COVER, path.replace(W.F.crate + '::', ''), span, UNDECIDED, 'no rule for %s' % (callee['fn'] if callee else what)))
    # what the unchecked operations rely on
    for role in W.tables:
        for a, o in table.settle(W, role):
            if a == 'bounds':
                obs.append(Ob(SLOTS, o.fn, o.span, o.status, o.rule + ': ' + o.detail))
        for fid in W.F.builders(role):
            if fid in W.table_ctors:
                obs.append(Ob(SEALED, W.fname(fid), W.span(fid), PROVED))
                continue
            if part_of(W, fid, set(W.table_ctors)):
                # what it makes is judged as the constructor's result
                obs.append(Ob(SEALED, W.fname(fid), W.span(fid), PROVED))
                continue
            R, aggs = W.aggregates(fid, role)
            if R.error:
                obs.append(ob(W, SEALED, fid, False, False, R.error))
            for S, v, o in aggs:
                ok = rangemap.clone_source(v) is not None
                obs.append(ob(W, SEALED, fid, ok, understood(v), 'puts together %s' % show(v)[:300]))
        obs += writes(W, role)
    for s in W.F.j['statics']:
        if s['m']:
            obs.append(Ob(STATIC, s.get('path', '?'), s.get('span', ''), VIOLATED, 'static mut'))
    return once(obs)


def part_of(W, fid, owners, seen=()):
    """A private function only ever called on behalf of the owners."""
    f = W.F.fns.get(fid)
    if fid in seen:
        return True
    if f is None or f['exported'] or f.get('trait'):
        return False
    cs = {outer(W, c) for c in W.F.callers_of(fid)}
    return bool(cs) and all(c in owners or part_of(W, c, owners, seen + (fid,)) for c in cs)


def strange(t):
    """A precondition over something the analysis has no meaning for."""
    return any(x and x[0] == 'app' and x[1] == 'disjoint' for x in subterms(t))


def at(W, rule, fid, o, ok, und, detail):
    return Ob(rule, o['fn'].replace(W.F.crate + '::', '').replace('specialized_maps::', '').replace('facades::', ''), o['span'],
              PROVED if ok else VIOLATED if und else UNDECIDED, '' if ok else detail + ' (reached from %s)' % W.fname(fid))


def outer(W, bid):
    while '::{closure' in bid:
        bid = bid[:bid.rindex('::{closure')]
    return bid


def writes(W, role):
    """Fields of a table assigned outside its constructor."""
    out = []
    a = W.F.adts[role]
    names = {f['n'] for f in a['variants'][0]['f']}
    sl = W.tables[role]['slot']
    for bid, b in W.F.bodies.items():
        if outer(W, bid) in W.table_ctors:
            continue
        for blk in b.blocks:
            for s in blk['s']:
                if s['s'] != 'assign' or not s['p']['p']:
                    continue
                for k, e in enumerate(s['p']['p']):
                    if e[0] == 'field' and owner_of_field(W, b, s['p'], k) in (role, sl) and sl is not None:
                        out.append(Ob(SEALED, b.path.replace(W.F.crate + '::', ''), s.get('sp'), VIOLATED, 'assigns field %s of %s' % (e[2], a['name'])))
    return out


def owner_of_field(W, b, p, k):
    """ADT of the value a field projection is applied to."""
    ty = b.locals[p['l']]['ty']
    for e in p['p'][:k]:
        if e[0] == 'deref':
            ty = ty['t'] if ty['k'] in ('ref', 'ptr') else ty['a'][0] if ty['k'] == 'adt' and ty['a'] else None
        elif e[0] == 'field':
            ad = W.F.adts.get(ty.get('id')) if ty and ty['k'] == 'adt' else None
            if ad:
                fs = [f for v in ad['variants'] for f in v['f'] if f['n'] == e[2]]
                ty = subst_ty(fs[0]['ty'], dict(zip([g for g in ad['g'] if not g.startswith("'")], [x for x in ty['a'] if x['k'] != 'region']))) if fs else None
            elif ty and ty['k'] == 'tuple':
                ty = ty['a'][e[1]]
            else:
                ty = None
        elif e[0] in ('index', 'cindex'):
            ty = ty.get('t') if ty and ty['k'] in ('slice', 'array') else None
        elif e[0] == 'downcast':
            continue
        else:
            ty = None
        if ty is None:
            return None
    return ty.get('id') if ty and ty['k'] == 'adt' else None
