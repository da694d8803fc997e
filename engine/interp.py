"""Abstract interpreter over MIR.

The abstract value of a place is a term (value numbering: equal terms are equal values, opaque terms
stand for any value); the abstract state also carries the branch conditions known to hold, kept as
atoms whose arithmetic part is decided in the domain of linear inequalities.  States are partitioned
by control path inside a loop-free region; every loop is solved by a fixpoint: the memory that the
body changes is generalised until one abstract state covers the entry and every back edge, so one
pass over the body stands for every iteration.  Nothing is executed, unrolled or sampled.
"""
import sys
from terms import *
import linear
from linear import entails, entails_ge, consistent, UNSIGNED
from facts import *

sys.setrecursionlimit(20000)


class Undecided(Exception):
    pass


class St:
    __slots__ = ('mem', 'facts', 'loops')

    def __init__(self, mem=None, facts=(), loops=()):
        self.mem = mem if mem is not None else {}
        self.facts = facts
        self.loops = loops

    def copy(self):
        return St(dict(self.mem), self.facts, self.loops)


class Frame:
    __slots__ = ('body', 'fid', 'env', 'depth', 'stack', 'header')

    def __init__(self, body, fid, env, depth, stack):
        self.body, self.fid, self.env, self.depth, self.stack = body, fid, env, depth, stack
        self.header = False


STD_VARIANTS = {
    'Option': [('None', 0), ('Some', 1)],
    'Result': [('Ok', 0), ('Err', 1)],
    'ControlFlow': [('Continue', 0), ('Break', 1)],
    'Ordering': [('Less', -1), ('Equal', 0), ('Greater', 1)],
    'Bound': [('Included', 0), ('Excluded', 1), ('Unbounded', 2)],
    'Entry': [('Occupied', 0), ('Vacant', 1)],
    'Cow': [('Borrowed', 0), ('Owned', 1)],
}


def opaque(v):
    return v[0] in ('sym', 'f', 'vf', 'idx', 'app', 'unk', 'sub', 'len')


def is_boolish(v):
    return v[0] == 'lit' or (v[0] == 'app' and v[1] in ('and', 'or'))


def mkand(a, b):
    if a == TRUE:
        return b
    if b == TRUE:
        return a
    if a == FALSE or b == FALSE:
        return FALSE
    return ('app', 'and', a, b)


def mkor(a, b):
    if a == FALSE:
        return b
    if b == FALSE:
        return a
    if a == TRUE or b == TRUE:
        return TRUE
    return ('app', 'or', a, b)


def mkcmp(a, b):
    d = sub(a, b) if True else None
    if d[0] == 'int':
        return enumv('Ordering', 'Less' if d[1] < 0 else 'Equal' if d[1] == 0 else 'Greater')
    return ('app', 'cmp', a, b)


class Interp:
    def __init__(self, F, budget=60000):
        self.F = F
        LEN.clear()
        UNSIGNED.clear()
        linear._memo.clear()
        self.fids = {}
        self.envs = {}
        self.envkeys = {}
        self.types = {}
        self.obls = []
        self.events = []
        self.peel = False
        self.stuck = []
        self.prefix = ''
        self.at = None
        self.budget = budget
        self.steps = 0
        self.contracts = {}     # fn id -> handler(interp, S, args, c) -> outcomes
        self.param_types = {}
        self.depth = 0
        self.notes = set()
        self.invariant = None
        self.summaries = True
        self.feeding = False    # do calls that are summed up walk the iterators they are given?
        self._summ = {}
        self.std_contracts = {}
        import models
        self.M = models

    def at_header(self, c):
        return c.fr.header

    # ---- naming --------------------------------------------------------
    def intern(self, *k):
        r = self.fids.get(k)
        if r is None:
            r = len(self.fids) + 1
            self.fids[k] = r
        return r

    def env_key(self, env):
        k = tuple(sorted((n, ty_str(t) + '|' + str(t.get('id', ''))) for n, t in env.items()))
        r = self.envkeys.get(k)
        if r is None:
            r = len(self.envkeys)
            self.envkeys[k] = r
            self.envs[r] = env
        return r

    def tag(self, aid, name=None):
        if aid in self.F.adts:
            return aid
        return (name or aid).split('::')[-1]

    def variants(self, name):
        if name in STD_VARIANTS:
            return STD_VARIANTS[name]
        a = self.F.adts.get(name)
        if a:
            return [(v['n'], i) for i, v in enumerate(a['variants'])]
        return None

    # ---- memory --------------------------------------------------------
    def root(self, S, r):
        v = S.mem.get(r)
        if v is None:
            v = r[1] if r[0] == 'ext' else ('sym', 'uninit')
        return v

    def read(self, S, place):
        root, path = place
        v = self.root(S, root)
        for e in path:
            if v[0] == 'ref' and e[0] != 'x':
                v = self.read(S, v[1])
            v = proj(v, e)
        return v

    def write(self, S, place, val):
        root, path = norm_place(place)
        if not path:
            S.mem[root] = val
        else:
            S.mem[root] = update(self.root(S, root) if (root in S.mem or root[0] == 'ext') else None, path, val)

    def place_of(self, v):
        """Place designated by a reference value."""
        if v[0] == 'ref':
            return v[1]
        return (('ext', v), ())

    def deref(self, S, v):
        if v[0] == 'ref':
            return self.read(S, v[1])
        return v

    def strip(self, S, v):
        """Value with references followed."""
        n = 0
        while v[0] == 'ref' and n < 20:
            v = self.read(S, v[1])
            n += 1
        if v[0] == 'agg':
            if any(x[0] in ('ref', 'agg') for x in v[3]):
                return ('agg', v[1], v[2], tuple(self.strip(S, x) for x in v[3]))
        return v

    def coerce(self, v, ty):
        k = ty['k']
        if k in ('ref', 'ptr'):
            if v[0] not in ('ref', 'agg', 'int', 'lit') and v != ('sym', 'uninit'):
                return ('ref', (('ext', v), ()), ty['m'])
            return v
        if k == 'prim' and ty['n'] in PRIM_UNSIGNED and (opaque(v) or v[0] == 'app' and v[1] == 'bitor'):
            UNSIGNED.add(v)
        if k == 'array' and opaque(v) and v not in LEN:
            n = ty['n']
            LEN[v] = I(int(n)) if n.isdigit() else self.const_sym(n)
        return v

    def const_sym(self, n):
        v = ('sym', 'const:' + n)
        UNSIGNED.add(v)
        return v

    # ---- facts ---------------------------------------------------------
    def assume(self, S, t, pol=True):
        """State in which the boolean term has the given value, or None."""
        if t[0] == 'int':
            return S if (t[1] != 0) == pol else None
        if t[0] == 'app' and t[1] == 'and':
            if pol:
                S = self.assume(S, t[2])
                return self.assume(S, t[3]) if S else None
            a, b = self.assume(S, t[2], False), self.assume(S, t[3], False)
            if a is None:
                return b
            if b is None:
                return a
        elif t[0] == 'app' and t[1] == 'or':
            if not pol:
                S = self.assume(S, t[2], False)
                return self.assume(S, t[3], False) if S else None
            a, b = self.assume(S, t[2]), self.assume(S, t[3])
            if a is None:
                return b
            if b is None:
                return a
        if t[0] != 'lit':
            t = mklit(('b', t), True)
            if t[0] == 'int':
                return S if (t[1] != 0) == pol else None
        return self.add_fact(S, t[1], t[2] == pol)

    def add_fact(self, S, a, pol):
        if a[0] == 'eq':
            for x, y in ((a[1], a[2]), (a[2], a[1])):
                if x[0] == 'app' and x[1] == 'discr' and y[0] == 'int':
                    vs = self.variants(x[3][1])
                    if vs:
                        n = [v for v, d in vs if d == y[1]]
                        if n:
                            l = self.is_lit(x[2], x[3][1], n[0])
                            return self.assume(S, l, pol)
        if a[0] == 'is':
            l = mklit(a, pol)
            if l[0] == 'int':
                return S if l[1] else None
        if (a, pol) in S.facts:
            return S
        if (a, not pol) in S.facts:
            return None
        if a[0] == 'is' and pol:
            for b, p in S.facts:
                if p and b[0] == 'is' and b[1] == a[1] and b[2] != a[2]:
                    return None
        new = [(a, pol)]
        if a[0] == 'lt' or (a[0] == 'eq' and pol):
            fs = S.facts + ((a, pol),)
            seed = set(parts(sub(a[1], a[2]))[1])
            if seed and not consistent(fs, seed):
                return None
            if a[0] == 'eq' and not self.eq_consistent(S, a[1], a[2]):
                return None
        elif a[0] == 'eq':
            d = sub(a[1], a[2])
            ge, leq = entails_ge(S.facts, d), entails_ge(S.facts, mul(d, I(-1)))
            if ge and leq:
                return None
            if ge:
                new.append((('lt', a[2], a[1]), True))
            elif leq:
                new.append((('lt', a[1], a[2]), True))
        S2 = St(dict(S.mem), S.facts + tuple(new), S.loops)
        return S2

    def eq_consistent(self, S, a, b):
        """Cheap congruence: x == c1 and x == c2 for distinct enum constants."""
        return True

    def is_lit(self, v, enum, variant):
        """Literal: v is the given variant; two-variant enums use one canonical variant."""
        if v[0] == 'agg' and v[1][0] == 'adt':
            return I(1 if v[1][2] == variant else 0)
        canonv = {'Option': 'Some', 'Result': 'Ok', 'ControlFlow': 'Continue', 'Cow': 'Borrowed'}.get(enum)
        if v[0] == 'app' and v[1] == 'cmp' and enum == 'Ordering':
            a, b = v[2], v[3]
            if variant == 'Less':
                return lt(a, b)
            if variant == 'Greater':
                return lt(b, a)
            return eq(a, b)
        if canonv:
            return mklit(('is', v, canonv), variant == canonv)
        vs = self.variants(enum)
        if vs and len(vs) == 1:
            return TRUE
        if vs and len(vs) == 2 and variant == vs[1][0]:
            return mklit(('is', v, vs[0][0]), False)
        return mklit(('is', v, variant), True)

    def branch(self, S, t):
        out = []
        a = self.assume(S, t, True)
        if a is not None:
            out.append((True, a))
        b = self.assume(S, t, False)
        if b is not None:
            out.append((False, b))
        return out

    def holds(self, S, t):
        """Whether the boolean term is entailed by the state."""
        if t[0] == 'int':
            return t[1] != 0
        if t[0] == 'app' and t[1] == 'and':
            return self.holds(S, t[2]) and self.holds(S, t[3])
        if t[0] == 'app' and t[1] == 'or':
            return self.holds(S, t[2]) or self.holds(S, t[3])
        if t[0] != 'lit':
            t = mklit(('b', t), True)
        return self.fact_holds(S.facts, t[1], t[2])

    def fact_holds(self, facts, a, pol):
        if (a, pol) in facts:
            return True
        if a[0] in ('lt', 'eq'):
            return entails(facts, a, pol)
        if a[0] == 'is' and not pol:
            return any(p and b[0] == 'is' and b[1] == a[1] and b[2] != a[2] for b, p in facts)
        return False

    def oblige(self, kind, S, conds, c, **info):
        bad = [t for t in conds if not self.holds(S, t)]
        self.obls.append(dict(kind=kind, fn=c.fr.body.path, span=c.span, ok=not bad,
                              bad=bad, facts=S.facts, loops=S.loops, conds=conds, **info))
        return not bad

    def feed(self, S, rid, args, c):
        """The panics on the way of a callee that asks for all items of the iterators among its arguments."""
        import iters
        out = []
        for k, a in enumerate(args):
            v = self.deref(S, a)
            if v[0] == 'agg' and v[1][0] == 'it':
                r = iters.drain(self, S, v, rid, 'feed:%s:%d:%s' % (c.fr.fid, k, c.span))
                if r.error:
                    raise Undecided(r.error)
                out += [o for o in r.odd if o[0] == 'panic']
        return out

    # ---- operands and places --------------------------------------------
    def rawuse(self, fr, S, p, mut):
        """Note every raw pointer a place goes through."""
        for k, e in enumerate(p['p']):
            if e[0] == 'deref' and e[1] == 'ptr':
                v = self.read(S, self.resolve(fr, S, {'l': p['l'], 'p': p['p'][:k]}))
                import models
                models.follow(self, S, v, mut, fr.body.path, self.at)

    def resolve(self, fr, S, p):
        root, path = ('loc', fr.fid, p['l']), ()
        variant = None
        for e in p['p']:
            k = e[0]
            if k == 'deref':
                if e[1] == 'box':
                    v = self.read(S, (root, path))
                    if v[0] == 'ref':
                        root, path = v[1]
                    continue
                v = self.read(S, (root, path))
                if v[0] == 'ref':
                    root, path = v[1]
                elif v[0] == 'agg' and v[1] != ('closure',):
                    continue
                else:
                    root, path = ('ext', v), ()
            elif k == 'downcast':
                variant = e[2]
                continue
            elif k == 'field':
                path = path + ((('vf', variant, e[2]) if variant is not None else ('f', e[2])),)
                variant = None
            elif k == 'index':
                i = self.read(S, (('loc', fr.fid, e[1]), ()))
                path = path + (('idx', i),)
            elif k == 'cindex':
                if e[3]:
                    n = mklen(self.read(S, (root, path)))
                    i = sub(n, I(e[1]))
                else:
                    i = I(e[1])
                path = path + (('idx', i),)
            elif k == 'subslice':
                n = mklen(self.read(S, (root, path)))
                hi = sub(n, I(e[2])) if e[3] else I(e[2])
                path = path + (('sub', I(e[1]), hi),)
            root, path = norm_place((root, path))
        if variant is not None and False:
            pass
        return (root, path)

    def operand(self, fr, S, o):
        k = o['o']
        if k in ('copy', 'move'):
            if o['p']['p']:
                self.rawuse(fr, S, o['p'], False)
            return self.read(S, self.resolve(fr, S, o['p']))
        if k == 'int':
            return I(int(o['v']))
        if k == 'fn':
            c = o['callee']
            return ('fnv', c['fn'], self.keep(c), self.env_key(fr.env))
        if k == 'str':
            return ('sym', 'str:' + o['v'])
        if k == 'zst':
            t = o['ty']
            if t['k'] == 'tuple' and not t['a']:
                return UNIT
            if t['k'] == 'closure':
                return agg(('closure', t['id'], self.env_key(fr.env)), [], [])
            if t['k'] == 'adt':
                if t['n'].endswith('PhantomData'):
                    return self.phantom(subst_ty(t, fr.env))
                return agg(('adt', self.tag(t['id'], t['n']), None), [], [])
            if t['k'] == 'array':
                return agg(('array',), [], [])
            return ('sym', 'zst:' + ty_str(t))
        if k == 'promoted':
            return self.promoted(fr, S, o['n'])
        if k == 'static':
            return ('ref', (('ext', ('sym', 'static:' + o['n'])), ()), o['ty'].get('m', False))
        if k == 'other':
            n = o['n']
            t = fr.env.get(n)
            if t is not None:
                n = t['n']
            if n.isdigit():
                return I(int(n))
            v = ('sym', 'const:' + n)
            if o['ty']['k'] == 'prim' and o['ty']['n'] in PRIM_UNSIGNED:
                UNSIGNED.add(v)
            return v
        if k == 'uneval':
            a = [ty_str(subst_ty(x, fr.env)) for x in o['args']]
            nm = canon(o['n'])
            if nm in CONSTS:
                return I(CONSTS[nm])
            v = ('sym', 'const:' + o['n'] + '<' + ','.join(a) + '>')
            if o['ty']['k'] == 'prim' and o['ty']['n'] in PRIM_UNSIGNED:
                UNSIGNED.add(v)
            return v
        return ('unk', 'operand', ('sym', str(o)[:60]))

    def phantom(self, ty):
        key = ty_str(ty)
        self.types[key] = ty
        return agg(('adt', 'PhantomData', None), ['ty'], [('sym', key)])

    _kept = {}

    def keep(self, c):
        k = id(c)
        self._kept[k] = c
        return k

    def promoted(self, fr, S, n):
        root = ('const', fr.body.id, n, self.env_key(fr.env))
        if root not in S.mem:
            b = fr.body.promoted[n]
            fid = self.intern('promoted', fr.body.id, n)
            f2 = Frame(b, fid, fr.env, fr.depth + 1, fr.stack)
            outs = self.run_body(f2, S)
            rets = [o for o in outs if o[0] == 'ret']
            if len(rets) != 1:
                return ('unk', 'promoted')
            v = rets[0][2]
            S.mem[root] = self.read(rets[0][1], v[1]) if v[0] == 'ref' else v
        return ('ref', (root, ()), False)

    # ---- rvalues -------------------------------------------------------
    def rvalue(self, fr, S, r, c):
        k = r['r']
        if k == 'use':
            return self.operand(fr, S, r['o'])
        if k in ('ref', 'raw'):
            if r.get('fake'):
                return ('sym', 'fake')
            self.rawuse(fr, S, r['p'], r['m'])
            pl = self.resolve(fr, S, r['p'])
            return ('ref', pl, r['m'])
        if k == 'cast':
            return self.cast(self.operand(fr, S, r['o']), subst_ty(r['from'], fr.env), subst_ty(r['ty'], fr.env), r['k'], S, c)
        if k == 'bin':
            return self.binop(r['op'], self.operand(fr, S, r['a']), self.operand(fr, S, r['b']), S)
        if k == 'un':
            v = self.operand(fr, S, r['a'])
            if r['op'] == 'Not':
                t = self.op_type(fr, r['a'])
                if t and t['k'] == 'prim' and t['n'] in BITS:
                    return sub(I(2 ** BITS[t['n']] - 1 if t['n'][0] == 'u' else -1), v)
                if is_boolish(v) or v[0] == 'int' and v[1] in (0, 1):
                    return self.notv(v)
                if t and t['k'] == 'prim' and t['n'] == 'bool':
                    return self.notv(v)
                return mkapp('bitnot', v)
            if r['op'] == 'Neg':
                return mul(v, I(-1))
            if r['op'] == 'PtrMetadata':
                return mklen(self.deref(S, v))
            return ('unk', 'un:' + r['op'], v)
        if k == 'discr':
            t = subst_ty(r['ty'], fr.env)
            v = self.read(S, self.resolve(fr, S, r['p']))
            return self.discr(v, t)
        if k == 'repeat':
            v = self.operand(fr, S, r['o'])
            n = r['n']
            t = fr.env.get(n)
            if t is not None:
                n = t['n']
            if n.isdigit():
                n = int(n)
                if n <= 16:
                    return agg(('array',), [str(i) for i in range(n)], [v] * n)
                n = I(n)
            else:
                n = ('sym', 'const:' + n)
                UNSIGNED.add(n)
            return ('repeat', v, n)
        if k == 'agg':
            ops = [self.operand(fr, S, o) for o in r['ops']]
            kk = r['k']
            if kk == 'tuple':
                return tup(*ops)
            if kk == 'array':
                return agg(('array',), [str(i) for i in range(len(ops))], ops)
            if kk == 'closure':
                return agg(('closure', r['id'], self.env_key(fr.env)), [str(i) for i in range(len(ops))], ops)
            if kk == 'adt':
                a = self.F.adts.get(r['id'])
                if r['n'].endswith('PhantomData'):
                    return self.phantom({'k': 'adt', 'id': r['id'], 'n': r['n'], 'a': [subst_ty(x, fr.env) for x in r['args']]})
                names = None
                if a:
                    fs = a['variants'][r['variant']]['f']
                    if r['active'] >= 0:
                        names = [fs[r['active']]['n']]
                    else:
                        names = [f['n'] for f in fs]
                    vals = []
                    for f, v in zip(fs, ops):
                        vals.append(v)
                    ops = vals if r['active'] < 0 else ops
                if names is None:
                    tg = self.tag(r['id'], r['n'])
                    names = {'Range': ['start', 'end']}.get(tg) or [str(i) for i in range(len(ops))]
                return agg(('adt', self.tag(r['id'], r['n']), r['vn'] if r['enum'] else None), names, ops)
            if kk == 'rawptr':
                return ops[0]
            return ('unk', 'agg', *ops)
        return ('unk', 'rvalue')

    def notv(self, v):
        if v[0] == 'app' and v[1] == 'and':
            return mkor(self.notv(v[2]), self.notv(v[3]))
        if v[0] == 'app' and v[1] == 'or':
            return mkand(self.notv(v[2]), self.notv(v[3]))
        return notb(v)

    def op_type(self, fr, o):
        if o['o'] in ('copy', 'move') and not o['p']['p']:
            return subst_ty(fr.body.locals[o['p']['l']]['ty'], fr.env)
        return o.get('ty')

    def discr(self, v, t):
        name = self.tag(t.get('id', ''), t.get('n')) if t['k'] == 'adt' else None
        if name is None:
            return mkapp('discr', v, ('sym', ty_str(t)))
        vs = self.variants(name)
        if v[0] == 'agg' and v[1][0] == 'adt' and vs:
            for n, d in vs:
                if n == v[1][2]:
                    return I(d)
        return ('app', 'discr', v, ('sym', name))

    def cast(self, v, f, t, kind, S, c):
        if 'PtrToPtr' in kind and f['k'] == 'ptr' and t['k'] == 'ptr' and (ty_str(f['t']) != ty_str(t['t'])):
            self.events.append(('ptrcast', c.fr.body.path, c.span, f, t, S.facts))
        if 'Unsize' in kind or 'PtrToPtr' in kind or 'MutToConst' in kind or 'Pointer' in kind or 'Subtype' in kind:
            return v
        if kind == 'Transmute':
            self.events.append(('transmute', c.fr.body.path, c.span, f, t, S.facts))
            return v
        if kind == 'IntToInt':
            if f['k'] == 'prim' and t['k'] == 'prim':
                return self.int_cast(v, f['n'], t['n'])
            return mkapp('cast:' + ty_str(t), v)
        if kind == 'FloatToInt' and v[0] == 'unk' and v[1].endswith('::sqrt') and len(v) == 3 and v[2][:2] == ('unk', 'cast:IntToFloat'):
            return mkapp('isqrt', v[2][2])
        return ('unk', 'cast:' + kind, v)

    def int_cast(self, v, f, t):
        if f == t:
            return v
        if f == 'bool' or f == 'char':
            return v
        if v[0] == 'int':
            b = BITS.get(t)
            if b is None:
                return v
            x = v[1] & ((1 << b) - 1)
            if t in PRIM_SIGNED and x >> (b - 1):
                x -= 1 << b
            return I(x)
        bf, bt = BITS.get(f), BITS.get(t)
        if bf is None or bt is None:
            return mkapp('cast:' + t, v)
        if f in PRIM_UNSIGNED and (t in PRIM_UNSIGNED and bt >= bf or t in PRIM_SIGNED and bt > bf):
            if opaque(v):
                UNSIGNED.add(v)
            return v
        if f in PRIM_SIGNED and t in PRIM_SIGNED and bt >= bf:
            return v
        r = mkapp('cast:' + t, v)
        if t in PRIM_UNSIGNED and opaque(r):
            UNSIGNED.add(r)
        return r

    def binop(self, op, a, b, S):
        if a[0] == 'ref' or b[0] == 'ref':
            if op in ('Eq', 'Ne'):
                return eq(('app', 'addr', a), ('app', 'addr', b), op == 'Eq')
        if op in ('Add', 'AddUnchecked'):
            return add(a, b)
        if op in ('Sub', 'SubUnchecked'):
            return sub(a, b)
        if op in ('Mul', 'MulUnchecked'):
            return mul(a, b)
        if op.endswith('WithOverflow'):
            base = op[:-len('WithOverflow')]
            r = self.binop(base, a, b, S)
            return tup(r, ('app', 'ovf:' + base, a, b))
        if op == 'Lt':
            return lt(a, b)
        if op == 'Gt':
            return lt(b, a)
        if op == 'Le':
            return le(a, b)
        if op == 'Ge':
            return le(b, a)
        if op in ('Eq', 'Ne'):
            pol = op == 'Eq'
            for x, y in ((a, b), (b, a)):
                if y[0] == 'int' and y[1] in (0, 1) and is_boolish(x):
                    return x if (y[1] == 1) == pol else self.notv(x)
            if is_boolish(a) and is_boolish(b):
                return ('unk', 'booleq', a, b)
            return eq(a, b, pol)
        if op == 'Cmp':
            return mkcmp(a, b)
        if op == 'Rem':
            return mkapp('rem', a, b)
        if op == 'Div':
            if a[0] == 'int' and b[0] == 'int' and b[1]:
                return I(a[1] // b[1])
            return mkapp('div', a, b)
        if op == 'BitAnd' and (is_boolish(a) or is_boolish(b)):
            return mkand(a, b)
        if op == 'BitOr' and (is_boolish(a) or is_boolish(b)):
            return mkor(a, b)
        if op in ('BitAnd', 'BitOr', 'BitXor', 'Shl', 'Shr', 'ShlUnchecked', 'ShrUnchecked', 'Offset'):
            if a[0] == 'int' and b[0] == 'int':
                x, y = a[1], b[1]
                f = {'BitAnd': x & y, 'BitOr': x | y, 'BitXor': x ^ y}
                if op in f:
                    return I(f[op])
                if op.startswith('Shl'):
                    return I(x << y)
                if op.startswith('Shr'):
                    return I(x >> y)
            if op == 'BitAnd':
                if I(0) in (a, b):
                    return I(0)
                for x, y in ((a, b), (b, a)):
                    n = add(y, I(1))
                    p2 = n[0] == 'int' and n[1] > 0 and n[1] & (n[1] - 1) == 0
                    if linear.nonneg(x) and (p2 or n[0] != 'int' and (('b', ('app', 'is_power_of_two', n)), True) in S.facts):
                        return mkapp('rem', x, n)
            if op == 'Shr' and b[0] == 'int' and 0 <= b[1] < 64 and linear.nonneg(a):
                return mkapp('div', a, I(1 << b[1]))
            return mkapp(op.lower(), a, b)
        return ('unk', 'bin:' + op, a, b)

    # ---- control flow --------------------------------------------------
    def run_body(self, fr, S):
        outs = []
        for o in self.blocks(fr, S, 0, None, None):
            outs.append(o)
        return outs

    def blocks(self, fr, S, b, region, header):
        """Run from block b; region/header describe the loop being analysed, if any."""
        out = []
        loops = fr.body.loops()
        work = [(S, b, False)]
        while work:
            S, b, moved = work.pop()
            self.steps += 1
            if self.steps > self.budget:
                raise Undecided('analysis budget exhausted')
            if header is not None and b == header and moved:
                out.append(('back', S))
                continue
            if region is not None and b not in region:
                out.append(('exit', S, b))
                continue
            if b in loops and b != header:
                for o in self.mir_loop(fr, S, b, loops[b]):
                    if o[0] == 'exit':
                        work.append((o[1], o[2], True))
                    else:
                        out.append(o)
                continue
            fr.header = header is not None and b == header
            for o in self.step(fr, S, b):
                if o[0] == 'to':
                    work.append((o[1], o[2], True))
                elif o[0] == 'skip':
                    if header is not None:
                        out.append(('back', o[1]))
                    else:
                        raise Undecided('filtered iterator stepped outside a loop')
                else:
                    out.append(o)
        return out

    def mir_loop(self, fr, S, h, region):
        lid = 'L%d.%d' % (fr.fid, h)
        # drop roots that are dead at the header: everything not live is overwritten before use
        live = self.live_at(fr.body, h)
        S = S.copy()
        for r in [r for r in S.mem if r[0] == 'loc' and r[1] == fr.fid and r[2] not in live]:
            del S.mem[r]

        def body(S1):
            return self.blocks(fr, S1, h, region, h)
        return self.run_loop(lid, S, body, lambda r: r[0] != 'loc' or r[1] != fr.fid or r[2] in live, self.steps_items(fr.body, h))

    def steps_items(self, body, h):
        """Does the loop start by asking an iterator for its next item?"""
        for k in range(4):
            t = body.blocks[h]['t']
            if t['t'] == 'call':
                return t['f']['o'] == 'fn' and t['f']['callee'].get('name') == 'next'
            if t['t'] != 'goto':
                return False
            h = t['b']
        return False

    def live_at(self, body, h):
        cache = body.__dict__.setdefault('_live', None)
        if cache is None:
            cache = compute_live(body)
            body._live = cache
        return cache[h]

    def step(self, fr, S, b):
        blk = fr.body.blocks[b]
        S = S.copy()
        for st in blk['s']:
            if st['s'] == 'assign':
                c = Ctx(self, fr, st.get('sp'), None)
                self.at = c.span
                v = self.rvalue(fr, S, st['r'], c)
                if st['p']['p']:
                    self.rawuse(fr, S, st['p'], True)
                pl = self.resolve(fr, S, st['p'])
                if not st['p']['p']:
                    v = self.coerce(v, subst_ty(fr.body.locals[st['p']['l']]['ty'], fr.env))
                self.write(S, pl, v)
            elif st['s'] == 'setdiscr':
                raise Undecided('set discriminant')
        t = blk['t']
        k = t['t']
        self.at = t.get('sp')
        if k in ('goto', 'drop'):
            return [('to', S, t['b'])]
        if k == 'return':
            return [('ret', S, self.root(S, ('loc', fr.fid, 0)))]
        if k == 'unreachable':
            return []
        if k in ('resume', 'abort'):
            return [('panic', S, 'unwind')]
        if k == 'switch':
            return self.switch(fr, S, t)
        if k == 'assert':
            v = self.operand(fr, S, t['o'])
            return self.assert_(fr, S, t, v)
        if k == 'call':
            return self.call_term(fr, S, b, t)
        raise Undecided('terminator ' + k)

    def switch(self, fr, S, t):
        v = self.operand(fr, S, t['o'])
        out = []
        if v[0] == 'app' and v[1] == 'discr' and self.variants(v[3][1]):
            vs = self.variants(v[3][1])
            byd = {d: n for n, d in vs}
            rest = [n for n, _ in vs]
            for val, blk in t['v']:
                x = int(val)
                n = byd.get(x)
                if n is None:
                    for dd, nn in byd.items():
                        if dd < 0 and (dd & 0xff) == (x & 0xff):
                            n = nn
                if n is None:
                    continue
                rest.remove(n)
                S2 = self.assume(S, self.is_lit(v[2], v[3][1], n))
                if S2 is not None:
                    out.append(('to', S2, blk))
            if rest:
                if len(rest) == 1:
                    S2 = self.assume(S, self.is_lit(v[2], v[3][1], rest[0]))
                else:
                    S2 = S
                    for val, _ in t['v']:
                        n = byd.get(int(val))
                        if S2 is not None and n:
                            S2 = self.assume(S2, self.is_lit(v[2], v[3][1], n), False)
                if S2 is not None:
                    out.append(('to', S2, t['else']))
            return out
        isbool = t['ty']['k'] == 'prim' and t['ty']['n'] == 'bool'
        if isbool:
            f = [blk for val, blk in t['v'] if val == '0']
            tr = [blk for val, blk in t['v'] if val == '1']
            tb = tr[0] if tr else t['else']
            fb = f[0] if f else t['else']
            for pol, S2 in self.split_bool(S, v):
                out.append(('to', S2, tb if pol else fb))
            return out
        S2 = S
        for val, blk in t['v']:
            if S2 is None:
                break
            x = int(val)
            if t['ty']['k'] == 'prim' and t['ty']['n'] in PRIM_SIGNED:
                bb = BITS[t['ty']['n']]
                if x >> (bb - 1):
                    x -= 1 << bb
            l = eq(v, I(x))
            S3 = self.assume(S2, l, True)
            if S3 is not None:
                out.append(('to', S3, blk))
            S2 = self.assume(S2, l, False)
        if S2 is not None:
            out.append(('to', S2, t['else']))
        return out

    def split_bool(self, S, v):
        """All (value, state) cases of a boolean term; disjunctions are split."""
        if v[0] == 'app' and v[1] == 'and':
            out = []
            for p, S1 in self.split_bool(S, v[2]):
                if not p:
                    out.append((False, S1))
                else:
                    out.extend(self.split_bool(S1, v[3]))
            return out
        if v[0] == 'app' and v[1] == 'or':
            out = []
            for p, S1 in self.split_bool(S, v[2]):
                if p:
                    out.append((True, S1))
                else:
                    out.extend(self.split_bool(S1, v[3]))
            return out
        return self.branch(S, v)

    def assert_(self, fr, S, t, v):
        out = []
        c = Ctx(self, fr, t.get('sp'), None)
        if v[0] == 'app' and v[1].startswith('ovf:'):
            op, a, b = v[1][4:], v[2], v[3]
            if op == 'Sub':
                ty = None
                ok = le(b, a)
                # only unsigned operands can underflow at zero
                if self.unsigned_val(a) and self.unsigned_val(b):
                    self.oblige('underflow', S, [ok], c)
                    S2 = self.assume(S, ok)
                    if S2 is None:
                        return [('panic', S, 'overflow')]
                    p = self.assume(S, ok, False)
                    out = [('to', S2, t['b'])]
                    if p is not None:
                        out.append(('panic', p, 'overflow'))
                    return out
            return [('to', S, t['b'])]
        if not t['e']:
            v = self.notv(v)
        for pol, S2 in self.split_bool(S, v):
            if pol:
                out.append(('to', S2, t['b']))
            else:
                out.append(('panic', S2, t['msg']))
        return out

    def unsigned_val(self, v):
        if v[0] == 'int':
            return v[1] >= 0
        if v[0] == 'lin':
            return all(linear.nonneg(t) for t, k in v[2])
        return linear.nonneg(v)

    # ---- calls ---------------------------------------------------------
    def call_term(self, fr, S, b, t):
        f = t['f']
        args = [self.operand(fr, S, a) for a in t['a']]
        dty = subst_ty(t['dty'], fr.env)
        site = (fr.fid, b)
        c = Ctx(self, fr, t.get('sp'), site)
        c.dty = dty
        if f['o'] == 'fn':
            cal = f['callee']
            outs = self.call(fr, S, cal, args, c, fr.env)
        else:
            v = self.operand(fr, S, f)
            outs = self.call_value(S, v, args, c)
        res = []
        for o in outs:
            if o[0] == 'ret':
                S2 = o[1].copy()
                v = o[2]
                if t['b'] < 0:
                    continue
                pl = self.resolve(fr, S2, t['d'])
                v = self.coerce(v, dty)
                self.write(S2, pl, v)
                res.append(('to', S2, t['b']))
            else:
                res.append(o)
        return res

    def call(self, fr, S, cal, args, c, env):
        """Call a resolved callee (facts JSON) with argument values."""
        F = self.F
        targs = [subst_ty(a, env) for a in cal['args']]
        c.targs = targs
        c.cal = cal
        c.env = env
        name = cal['fn']
        cid = cal['id']
        h = self.contracts.get(cid) or self.contracts.get(cal.get('resid'))
        if h:
            r = h(self, S, args, c)
            if r is not None:
                return r
        tr = cal.get('trait')
        if tr:
            if tr.split('::')[-1] in ('Fn', 'FnMut', 'FnOnce') and cal.get('name', '').startswith('call'):
                a = args[1]
                al = list(a[3]) if a[0] == 'agg' else [('unk', 'args')]
                return self.call_value(S, args[0], al, c)
            # dynamic dispatch on a value of known concrete type
            self_ty = targs[0]
            if self_ty['k'] == 'dyn':
                v = self.strip(S, args[0])
                if v[0] == 'agg' and v[1][:2] == ('adt', 'PhantomData'):
                    self_ty = self.types.get(v[3][0][1], self_ty)
                    targs = [self_ty] + targs[1:]
            found = F.find_impl(tr, self_ty, targs[1:])
            if found is None and self_ty['k'] in ('other', 'param'):
                # an unnormalised associated type: the value may tell
                v = self.deref(S, args[0]) if args else None
                if v is not None and v[0] == 'agg' and v[1][0] == 'adt' and v[1][1] in F.adts:
                    found = self.impl_for_tag(tr, v[1][1])
            if found:
                imp, ienv = found
                item = next((i for i in imp['items'] if i['n'] == cal.get('name')), None)
                if item and item['id'] in F.bodies:
                    e = dict(ienv)
                    fn = F.fns.get(item['id'])
                    ntr = len([x for x in imp['targs'] if x['k'] != 'region'])
                    rest = [x for x in targs if x['k'] != 'region'][ntr:]
                    if fn:
                        g = [x for x in fn['g'] if not x.startswith("'")]
                        if rest:
                            for n, t in zip(g[-len(rest):], rest):
                                e[n] = t
                    if item['id'] in self.contracts:
                        r = self.contracts[item['id']](self, S, args, c)
                        if r is not None:
                            return r
                    return self.inline(fr, S, F.bodies[item['id']], args, c, e)
                # defaulted method of a local trait
            if cid in F.bodies:
                known = found is not None
                fn = F.fns.get(cid)
                if fn and (known or self_ty['k'] not in ('param', 'other')):
                    e = self.bind(fn, targs)
                    return self.inline(fr, S, F.bodies[cid], args, c, e)
        rid = cal.get('resid') or cid
        if not tr or cal.get('resid'):
            if rid in F.bodies and rid in F.fns:
                if self.summaries and self.summarised(rid):
                    out = [('ret', S, ('app', 'sum:' + rid) + tuple(self.strip(S, a) for a in args))]
                    return out + (self.feed(S, rid, args, c) if self.feeding else [])
                ra = [subst_ty(a, env) for a in cal['resargs']] if cal.get('resid') else targs
                return self.inline(fr, S, F.bodies[rid], args, c, self.bind(F.fns[rid], ra))
        return self.M.call(self, S, args, c)

    def summarised(self, fid):
        """Does the function compute a plain report about data it only reads?  (an analysis)

        It returns a local type without type parameters, gets nothing mutable, and has several loops.  Its result
        is then kept as an opaque value: callers are analysed for every report it could make.
        """
        r = self._summ.get(fid)
        if r is None:
            fn = self.F.fns[fid]
            out = fn['out']
            r = out['k'] == 'adt' and out.get('id') in self.F.adts and not [a for a in out.get('a', []) if a['k'] != 'region']
            r = r and not any(t['k'] == 'ref' and t['m'] for t in fn['in'])
            r = r and self.loopy(fid, set()) > 2
            self._summ[fid] = r
        return r

    def loopy(self, fid, seen):
        """how many loops the function and what it calls contain"""
        if fid in seen or fid not in self.F.bodies:
            return 0
        seen.add(fid)
        b = self.F.bodies[fid]
        n = len(b.loops())
        for blk in b.blocks:
            t = blk['t']
            if t['t'] == 'call' and t['f']['o'] == 'fn':
                cal = t['f']['callee']
                n += self.loopy(cal.get('resid') or cal['id'], seen)
        return n

    def impl_for_tag(self, tr, aid):
        for i in self.F.by_trait.get(tr, []):
            if i['self'].get('id') == aid:
                return i, {}
        return None

    def bind(self, fn, targs):
        g = fn['g']
        e = {}
        if len(g) == len(targs):
            for n, t in zip(g, targs):
                if t['k'] != 'region':
                    e[n] = t
        else:
            g2 = [x for x in g if not x.startswith("'")]
            t2 = [t for t in targs if t['k'] != 'region']
            for n, t in zip(g2, t2):
                e[n] = t
        return e

    def inline(self, fr, S, body, args, c, env):
        n = c.stack.count(body.id)
        if c.depth > 60 or n >= 2:
            return self.unknown(S, 'recursion:' + body.path, args, c)
        fid = self.intern(c.site, body.id, self.env_key(env))
        f2 = Frame(body, fid, env, c.depth + 1, c.stack + (body.id,))
        S2 = S.copy()
        for i, a in enumerate(args):
            if i + 1 < len(body.locals):
                S2.mem[('loc', fid, i + 1)] = self.coerce(a, subst_ty(body.locals[i + 1]['ty'], env))
        out = []
        for o in self.run_body(f2, S2):
            S3 = o[1].copy()
            for r in [r for r in S3.mem if r[0] == 'loc' and r[1] == fid]:
                del S3.mem[r]
            if o[0] == 'ret':
                out.append(('ret', S3, o[2]))
            else:
                out.append((o[0], S3) + o[2:])
        return out

    def call_value(self, S, f, args, c):
        """Call a closure, function item or opaque callable."""
        g = f
        place = None
        n = 0
        while g[0] == 'ref' and n < 10:
            place = g[1]
            g = self.read(S, g[1])
            n += 1
        if g == ('app', 'py:push'):
            return [('ret', S, mkpush(args[0], args[1]))]
        if g[0] == 'agg' and g[1][0] == 'closure':
            body = self.F.bodies.get(g[1][1])
            env = self.envs[g[1][2]]
            if body is None:
                return self.unknown(S, 'closure', [f] + list(args), c)
            t1 = body.locals[1]['ty'] if body.argc >= 1 else None
            S = S.copy()
            if t1 is not None and t1['k'] == 'ref':
                if place is None:
                    place = (('tmp', 'clo', c.site), ())
                    S.mem[place[0]] = g
                first = ('ref', place, t1['m'])
            else:
                first = g
            return self.inline(c.fr, S, body, [first] + list(args), c.sub('clo:' + body.id), env)
        if g[0] == 'fnv':
            cal = self._kept[g[2]]
            c2 = c.sub('fnv:' + cal['id'])
            # tuple-struct constructors and enum variants used as functions
            ctor = self.M.constructor(self, cal, args)
            if ctor is not None:
                return [('ret', S, ctor)]
            return self.call(c.fr, S, cal, list(args), c2, self.envs[g[3]])
        a = [self.strip(S, x) for x in args]
        return [('ret', S, ('app', 'call', self.strip(S, g)) + tuple(a))]

    def unknown(self, S, what, args, c):
        """Unmodelled call: result and everything reachable through mutable references is unknown."""
        self.notes.add(what)
        S = S.copy()
        vals = tuple(self.strip(S, a) for a in args)
        seen = set()

        def havoc(v):
            if v[0] == 'ref':
                if v in seen:
                    return
                seen.add(v)
                old = self.read(S, v[1])
                havoc(old)
                if v[2]:
                    self.write(S, v[1], ('unk', what, old))
            elif v[0] == 'agg':
                for x in v[3]:
                    havoc(x)
        for a in args:
            havoc(a)
        return [('ret', S, ('unk', what) + vals)]

    # ---- loops ---------------------------------------------------------
    def run_loop(self, lid, S0, body, liveroot=lambda r: True, steps=True):
        import loops
        lid = self.prefix + lid
        if not self.peel or self.peel == 'for' and not steps:
            return loops.run_loop(self, lid, S0, body, liveroot)
        # the first round on its own, then the loop from what it leaves
        old, self.prefix = self.prefix, self.prefix + 'p'
        try:
            outs = body(S0)
            res = [o for o in outs if o[0] != 'back']
            for k, o in enumerate(x for x in outs if x[0] == 'back'):
                self.prefix = old + 'q%d' % k
                res += loops.run_loop(self, lid + '+%d' % k, o[1], body, liveroot)
        finally:
            self.prefix = old
        return res


class Ctx:
    """Call context handed to the models."""

    def __init__(self, it, fr, span, site, depth=None, stack=None):
        self.it, self.fr, self.span = it, fr, span
        self.site = site
        self.depth = fr.depth if depth is None else depth
        self.stack = fr.stack if stack is None else stack
        self.dty = None
        self.targs = []
        self.cal = None
        self.env = fr.env

    def sub(self, tag):
        c = Ctx(self.it, self.fr, self.span, (self.it.intern(self.site, tag), 's'), self.depth + 1, self.stack)
        c.dty, c.targs, c.cal, c.env = None, self.targs, self.cal, self.env
        return c

    def lid(self, tag=''):
        return 'L%d%s' % (self.it.intern(self.site, 'loop'), tag)

    def tmp(self, tag):
        return ('tmp', tag, self.site)


CONSTS = {}
for _t, _b in BITS.items():
    if _t in PRIM_UNSIGNED:
        CONSTS['%s::MAX' % _t] = (1 << _b) - 1
        CONSTS['%s::MIN' % _t] = 0
    else:
        CONSTS['%s::MAX' % _t] = (1 << (_b - 1)) - 1
        CONSTS['%s::MIN' % _t] = -(1 << (_b - 1))


def place_locals(p, reads, full):
    for e in p['p']:
        if e[0] == 'index':
            reads.add(e[1])
    if p['p']:
        reads.add(p['l'])


def compute_live(body):
    """Locals possibly read before being overwritten, per block; borrowed locals are always live."""
    n = len(body.blocks)
    use, deff = [set() for _ in range(n)], [set() for _ in range(n)]
    borrowed = set()

    def rd(bi, l):
        if l not in deff[bi]:
            use[bi].add(l)

    def op(bi, o):
        if o['o'] in ('copy', 'move'):
            pl(bi, o['p'])

    def pl(bi, p):
        rd(bi, p['l'])
        for e in p['p']:
            if e[0] == 'index':
                rd(bi, e[1])

    def wr(bi, p):
        if p['p']:
            pl(bi, p)
        else:
            deff[bi].add(p['l'])

    def rv(bi, r):
        k = r['r']
        if k in ('use', 'cast', 'repeat'):
            op(bi, r['o'])
        elif k in ('ref', 'raw'):
            pl(bi, r['p'])
            # a reborrow through a dereference does not borrow the local itself
            if not any(e[0] == 'deref' for e in r['p']['p']):
                borrowed.add(r['p']['l'])
        elif k == 'bin':
            op(bi, r['a'])
            op(bi, r['b'])
        elif k == 'un':
            op(bi, r['a'])
        elif k == 'discr':
            pl(bi, r['p'])
        elif k == 'agg':
            for o in r['ops']:
                op(bi, o)
    for bi, b in enumerate(body.blocks):
        if b['c']:
            continue
        for s in b['s']:
            if s['s'] == 'assign':
                rv(bi, s['r'])
                wr(bi, s['p'])
        t = b['t']
        if t['t'] == 'switch' or t['t'] == 'assert':
            op(bi, t['o'])
        elif t['t'] == 'call':
            op(bi, t['f'])
            for a in t['a']:
                op(bi, a)
            wr(bi, t['d'])
        elif t['t'] == 'return':
            rd(bi, 0)
    live = [set(u) for u in use]
    ch = True
    while ch:
        ch = False
        for bi in range(n - 1, -1, -1):
            if body.blocks[bi]['c']:
                continue
            o = set()
            for s in body.succ(bi):
                o |= live[s]
            nl = use[bi] | (o - deff[bi])
            if nl != live[bi]:
                live[bi] = nl
                ch = True
    # borrowed locals: live where defined-before; keep them when assigned anywhere and also used in the block set
    definitely = [set(l) for l in live]
    for bi in range(n):
        definitely[bi] |= borrowed
    return definitely
