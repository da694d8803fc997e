"""What the rules know about the crate: roles of its types, cached analyses, representation invariants.

Roles are recognised by shape and by public API names, never by private names or positions.
"""
import time
import interp
import linear
import run
import terms
from interp import Interp, Undecided, St, Frame, Ctx
from terms import *
from facts import *


def adt_of(ty):
    while ty['k'] in ('ref', 'ptr') or ty['k'] == 'adt' and ty['n'].split('::')[-1] in ('Box', 'Rc', 'Arc') and ty['a']:
        ty = ty['t'] if ty['k'] != 'adt' else ty['a'][0]
    return ty


def elem_of(ty):
    """Element type of a slice, array, Vec or boxed slice."""
    ty = adt_of(ty)
    if ty['k'] in ('slice', 'array'):
        return ty['t']
    if ty['k'] == 'adt' and ty['n'].split('::')[-1] == 'Vec':
        return ty['a'][0]
    return None


def is_pair(ty):
    return ty is not None and ty['k'] == 'tuple' and len(ty['a']) == 2


class Result:
    """Outcomes of one function on arbitrary arguments."""

    def __init__(self, fid, it):
        self.fid, self.it = fid, it
        self.outs = []
        self.error = None

    def freeze(self):
        self.LEN = dict(terms.LEN)
        self.UNS = set(linear.UNSIGNED)
        self.types = dict(self.it.param_types)

    def activate(self, *more):
        terms.LEN.clear()
        linear.UNSIGNED.clear()
        linear._memo.clear()
        for r in (self,) + more:
            terms.LEN.update(r.LEN)
            linear.UNSIGNED.update(r.UNS)
        return self


class World:
    def __init__(self, F):
        self.F = F
        self.cache = {}
        self.ways = {}
        self._makers = {}
        self._filed = {}
        self.stats = {'functions': set(), 'paths': 0, 'steps': 0, 'loops': 0}
        self.roles()

    # ---- roles -----------------------------------------------------------
    def roles(self):
        F = self.F
        self.tables, self.ranges = {}, {}
        for a in F.adts.values():
            if a['kind'] != 'struct' or len(a['variants']) != 1:
                continue
            fs = a['variants'][0]['f']
            ent = [f for f in fs if is_pair(elem_of(f['ty']))]
            if len(ent) != 1:
                continue
            rest = [f for f in fs if f is not ent[0]]
            sl = []
            for f in rest:
                e = elem_of(f['ty'])
                if e and e['k'] == 'adt' and e['id'] in F.adts:
                    sf = F.adts[e['id']]['variants'][0]['f']
                    if len(sf) == 2 and same_ty(sf[0]['ty'], sf[1]['ty']):
                        sl.append((f, [x['n'] for x in sf], e['id']))
                elif e and is_pair(e) and same_ty(e['a'][0], e['a'][1]):
                    sl.append((f, ['0', '1'], None))
            if len(sl) == 1:
                num = [f for f in rest if f is not sl[0][0]]
                self.tables[a['id']] = dict(id=a['id'], entries=ent[0]['n'], slots=sl[0][0]['n'], ends=sl[0][1],
                                            slot=sl[0][2], num=num[0]['n'] if len(num) == 1 else None)
                continue
            key = ent[0]['ty']
            kt = elem_of(key)['a'][0]
            two = [f for f in rest if same_ty(f['ty'], kt)]
            if len(two) == 2 and len(rest) == 2:
                self.ranges[a['id']] = dict(id=a['id'], entries=ent[0]['n'], bounds=[f['n'] for f in two])
        self.table_ctors = {}
        self._made = None
        for f in F.fns.values():
            o = f['out']
            if o['k'] == 'adt' and o.get('id') in self.tables and f['id'] in F.bodies and not f['trait'] \
                    and any(is_pair(elem_of(t)) for t in f['in']):
                self.table_ctors[f['id']] = o['id']
        # collections: exported structs with lookups
        self.maps, self.sets = {}, {}
        settrait = [t for t in F.traits if t.split('::')[-1] == 'Set']
        self.settrait = settrait[0] if settrait else None
        for a in F.adts.values():
            if not a['exported'] or a['kind'] != 'struct':
                continue
            ms = self.methods(a['id'])
            if 'get_key_value' in ms and 'get' in ms:
                self.maps[a['id']] = ms
            elif any(i['trait'] == self.settrait and i['self'].get('id') == a['id'] for i in F.j['impls']):
                self.sets[a['id']] = ms

    def methods(self, aid):
        """name -> [(impl, fn)] of functions with a body"""
        r = {}
        for i, item in self.F.methods_of(aid):
            if item['id'] in self.F.bodies:
                r.setdefault(item['n'], []).append((i, self.F.fns[item['id']]))
        return r

    def name(self, aid):
        return self.F.adts[aid]['name']

    def fname(self, fid):
        p = self.F.fns[fid]['path'] if fid in self.F.fns else self.F.bodies[fid].path
        return p.replace(self.F.crate + '::', '').replace('specialized_maps::', '').replace('specialized_sets::', '').replace('facades::', '')

    def span(self, fid):
        return self.F.bodies[fid].span if fid in self.F.bodies else self.F.fns[fid]['span']

    # ---- analysis ----------------------------------------------------------
    def new_interp(self, skip=(), budget=60000, **kw):
        it = Interp(self.F, budget)
        for c in self.table_ctors:
            if c not in skip:
                it.contracts[c] = self.ctor_contract(c)
        it.invariant = lambda S, conds: self.invariants(it, S.facts, [x for t in conds for x in subterms(t)])
        return it

    def ctor_contract(self, c):
        def h(it, S, args, ctx):
            a = tuple(it.strip(S, x) for x in args)
            g = [x for x in self.F.fns[c]['g'] if not x.startswith("'")]
            it.events.append(('ctor', ctx.fr.fid, ctx.span, c, dict(zip(g, ctx.targs)), S.facts, a))
            out = [('ret', S, ('app', 'ctor:' + c) + a)]
            return out + (self.filing(it, S, c, args, ctx) if it.feeding else [])
        return h

    def filing(self, it, S, c, args, ctx):
        """The panics on the way of a table that asks for the hash of a key of its payload."""
        import run
        import table
        out = []
        ps = run.param_names(self.F.bodies[c])
        s = it.strip(S, args[ps.index(table.payload_param(self, c)[1])])
        i = ('sym', 'i:fed')
        linear.UNSIGNED.add(i)
        for a in args:
            v = it.deref(S, a)
            if v[0] != 'agg' or v[1][0] != 'closure':
                continue
            S2 = S.copy()
            S2.facts += ((('lt', i, mklen(s)), True),)
            k = ('ref', (('ext', proj(mkidx(s, i), ('f', '0'))), ()), False)
            out += [o for o in it.call_value(S2, a, [k], ctx.sub('filing')) if o[0] == 'panic']
        return out

    def analyse(self, fid, tag='', setup=None, args=None, env=None, budget=60000, S=None):
        k = (fid, tag)
        r = self.cache.get(k)
        if r is not None:
            return r.activate()
        it = self.new_interp(skip=set(self.table_ctors) if fid in self.table_ctors else (), budget=budget)
        if setup:
            setup(it)
        body = self.F.bodies[fid]
        for i, n in enumerate(run.param_names(body)):
            it.param_types[n] = subst_ty(body.locals[i + 1]['ty'], env or {})
        r = Result(fid, it)
        try:
            r.outs = run.analyse(it, fid, args, env, S)
        except Undecided as e:
            r.error = str(e)
        except RecursionError:
            r.error = 'recursion'
        r.freeze()
        self.stats['functions'].add(fid)
        self.stats['paths'] += len(r.outs)
        self.stats['steps'] += it.steps
        self.cache[k] = r
        return r

    # ---- who builds a type ---------------------------------------------------
    def makers(self, aid):
        """Functions whose results hold values of the type built by the crate, most general first.

        Functions that merely assemble the value from parts they are handed are replaced by their callers.
        """
        r = self._makers.get(aid)
        if r is not None:
            return r
        todo = sorted(self.F.builders(aid))
        seen, out = set(), []
        while todo:
            f = todo.pop(0)
            if f in seen:
                continue
            seen.add(f)
            if not self.F.fns[f]['exported'] and self.assembles(f, aid):
                cs = sorted(self.F.callers_of(f))
                if cs:
                    todo.extend(cs)
                    continue
            out.append(f)
        self._makers[aid] = out
        return out

    def assembles(self, fid, aid):
        """Does some aggregate of the type take its storage straight from a parameter?"""
        body = self.F.bodies[fid]
        ps = run.param_names(body)
        res, aggs = self.aggregates(fid, aid)
        for S, v, o in aggs:
            for x in v[3]:
                if x[0] == 'sym' and x[1] in ps:
                    ty = adt_of(body.locals[ps.index(x[1]) + 1]['ty'])
                    if ty.get('id') in self.tables or aid in self.ranges and is_pair(elem_of(ty)):
                        return True
        return False

    def aggregates(self, fid, aid, env=None):
        """(analysis, [(state, aggregate of the type in the result, outcome)])"""
        R = self.analyse(fid, env_tag(env), env=env)
        out = []
        for o in R.outs:
            if o[0] != 'ret':
                continue
            v = R.it.strip(o[1], o[2])
            seen = set()
            for t in subterms(v):
                if t and t[0] == 'agg' and len(t) == 4 and t[1][0] == 'adt' and t[1][1] == aid and t not in seen:
                    seen.add(t)
                    out.append((o[1], t, o))
        return R, out

    # ---- types of opaque terms -------------------------------------------
    def type_of(self, it, t):
        k = t[0]
        if k == 'sym':
            ty = it.param_types.get(t[1])
            return adt_of(ty) if ty else None
        if k in ('f', 'vf'):
            b = self.type_of(it, t[1])
            if b is None:
                return None
            b = adt_of(b)
            if b['k'] == 'tuple':
                return adt_of(b['a'][int(t[2])]) if k == 'f' and t[2].isdigit() and int(t[2]) < len(b['a']) else None
            if b['k'] != 'adt' or b['id'] not in self.F.adts:
                return None
            a = self.F.adts[b['id']]
            env = {}
            g = [x for x in a['g'] if not x.startswith("'")]
            for n, x in zip(g, [x for x in b['a'] if x['k'] != 'region']):
                env[n] = x
            for v in a['variants']:
                if k == 'vf' and v['n'] != t[2]:
                    continue
                for f in v['f']:
                    if f['n'] == t[-1]:
                        return adt_of(subst_ty(f['ty'], env))
            return None
        if k == 'idx':
            b = self.type_of(it, t[1])
            e = elem_of(b) if b else None
            return adt_of(e) if e else None
        if k == 'sub':
            return self.type_of(it, t[1])
        if k == 'app' and str(t[1]).startswith('ctor:'):
            return self.F.fns[t[1][5:]]['out']
        return None

    def role_of(self, it, t):
        ty = self.type_of(it, t)
        return ty.get('id') if ty else None

    # ---- representation invariants -----------------------------------------
    def invariants(self, it, facts, ts):
        """Facts about opaque tables and range maps occurring in the terms."""
        out = []
        seen = set()

        def add(l):
            if l[0] == 'lit' and (l[1], l[2]) not in seen:
                seen.add((l[1], l[2]))
                out.append((l[1], l[2]))
        bases = {}
        for t in ts:
            if isinstance(t, tuple) and t and t[0] == 'f' and len(t) == 3 and isinstance(t[1], tuple):
                b = t[1]
                if b not in bases:
                    bases[b] = self.role_of(it, b)
        for b, role in bases.items():
            if role in self.tables:
                T = self.tables[role]
                sl = ('f', b, T['slots'])
                ln = ('len', ('f', b, T['entries']))
                if T['num']:
                    num = ('f', b, T['num'])
                    add(eq(('len', sl), num))
                    add(lt(I(0), num))
                for t in ts:
                    if isinstance(t, tuple) and t and t[0] == 'idx' and len(t) == 3 and t[1] == sl:
                        lo, hi = self.ends(role, t)
                        add(le(lo, hi))
                        add(le(hi, ln))
                        add(le(I(0), lo))
            elif role in self.ranges:
                R = self.ranges[role]
                lo, hi = self.bounds(role)
                mn, mx = ('f', b, lo), ('f', b, hi)
                E = ('f', b, R['entries'])
                if linear.entails(facts, ('lt', mx, mn), False):
                    add(eq(('len', E), terms.add(sub(mx, mn), I(1))))
                for t in ts:
                    if isinstance(t, tuple) and t and t[0] == 'idx' and len(t) == 3 and t[1] == E:
                        add(eq(('f', t, '0'), terms.add(mn, t[2])))
        return out

    def ends(self, role, slot):
        """Where the entries of a slot start and end; what its numbers mean is settled by the constructor analysis."""
        T = self.tables[role]
        if 'order' not in T:
            T['order'] = tuple(T['ends'])
            import table
            self.aside(table.settle, role)
        a, b = T['order']
        lo, hi = ('f', slot, a), ('f', slot, b)
        return lo, terms.add(lo, hi) if T.get('counted') else hi

    def bounds(self, role):
        R = self.ranges[role]
        if 'order' not in R:
            R['order'] = tuple(R['bounds'])
            import rangemap
            self.aside(rangemap.settle, role)
        return R['order']

    def aside(self, f, *a):
        """Run another analysis without disturbing what is known about the terms of the current one."""
        le, un = dict(terms.LEN), set(linear.UNSIGNED)
        try:
            return f(self, *a)
        finally:
            terms.LEN.clear()
            terms.LEN.update(le)
            linear.UNSIGNED.clear()
            linear.UNSIGNED.update(un)
            linear._memo.clear()

    def with_inv(self, it, facts, extra=()):
        """Facts closed under the representation invariants of everything they mention."""
        ts = set()
        for a, p in facts:
            subterms(a, ts)
        for x in extra:
            subterms(x, ts)
        fs = tuple(facts)
        inv = self.invariants(it, fs, ts)
        return fs + tuple(f for f in inv if f not in fs)

    def feasible(self, it, facts):
        """False if the facts contradict each other or the representation invariants."""
        fs = self.with_inv(it, facts)
        if self.variant_types(it, fs):
            return False
        if any(not left for x, aid, left in self.variants_left(it, fs)):
            return False
        for a, p in fs:
            if a[0] == 'eq' and not p and linear.entails(tuple(f for f in fs if f != (a, p)), a, True):
                return False
            if (a, not p) in fs:
                return False
        seed = set()
        for a, p in fs:
            if a[0] in ('lt', 'eq'):
                seed |= set(parts(sub(a[1], a[2]))[1])
        if seed and not linear.consistent(fs, seed):
            return False
        for a, p in fs:
            # a number no larger than the length of a stored sequence fits usize
            if a[0] == 'b' and not p and a[1][0] == 'app' and a[1][1] == 'fits':
                x = a[1][2]
                if linear.entails(fs, ('lt', ('app', 'max_value', a[1][3]), x), False) and linear.entails(fs, ('lt', x, I(0)), False):
                    return False
                if a[1][3] not in (('sym', 'usize'), 'usize', ('sym', 'u64'), 'u64'):
                    continue
                for t in self.lens(fs):
                    if linear.entails(fs, ('lt', t, x), False) and linear.entails(fs, ('lt', x, I(0)), False):
                        return False
        return True

    def variants_left(self, it, fs):
        """Values of which only what variants they are not is known: [(term, enum, variants left)]"""
        no = {}
        for a, p in fs:
            if not p and a[0] == 'is':
                no.setdefault(a[1], set()).add(a[2])
        out = []
        for x, vs in no.items():
            if len(vs) < 2 or any(p and a[0] == 'is' and a[1] == x for a, p in fs):
                continue
            ty = self.type_of(it, x)
            ad = self.F.adts.get(ty.get('id')) if ty else None
            if ad and ad['kind'] == 'enum':
                out.append((x, ty['id'], [v['n'] for v in ad['variants'] if v['n'] not in vs]))
        return out

    def variant_types(self, it, fs):
        """Do the facts tell types apart that are the same whenever the variant at hand was made?"""
        apart = [(a[1][2][1], a[2][2][1]) for a, p in fs if not p and a[0] == 'eq' and a[1][0] == a[2][0] == 'app' and a[1][1] == a[2][1] == 'typeid']
        if not apart:
            return False
        for a, p in fs:
            if not p or a[0] != 'is':
                continue
            ty = self.type_of(it, a[1])
            ad = self.F.adts.get(ty.get('id')) if ty else None
            if ad and ad['kind'] == 'enum' and not ad['exported'] and ad['g']:
                if self._made is None:
                    self._made = {}
                    keep = dict(terms.LEN), set(linear.UNSIGNED)
                    import c06
                    self._made = c06.variants(self)
                    terms.LEN.clear()
                    linear.UNSIGNED.clear()
                    linear._memo.clear()
                    terms.LEN.update(keep[0])
                    linear.UNSIGNED.update(keep[1])
                if any(frozenset(e) in self._made.get((ty['id'], a[2]), ()) for e in apart):
                    return True
        return False

    def lens(self, fs):
        s = set()
        for a, p in fs:
            subterms(a, s)
        return [t for t in s if t and (t[0] == 'len' or t[0] == 'sym' and str(t[1]).startswith('const:'))]


def env_tag(env):
    return '' if not env else ','.join('%s=%s' % (k, ty_str(v)) for k, v in sorted(env.items()))


class Ob:
    """One proof obligation."""
    __slots__ = ('rule', 'fn', 'span', 'status', 'detail')

    def __init__(self, rule, fn, span, status, detail=''):
        self.rule, self.fn, self.span, self.status, self.detail = rule, fn, span, status, detail

    def __repr__(self):
        return '%s %s: %s [%s] %s' % (self.status, self.rule, self.fn, self.span, self.detail)


PROVED, VIOLATED, UNDECIDED = 'proved', 'violated', 'undecided'


def understood(*ts):
    """No part of the terms is beyond the analysis."""
    return not any(has_unk(t) for t in ts)
