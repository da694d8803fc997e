"""Compiler facts: loading, type helpers, impl lookup, control-flow loops."""
import json
import re

PRIM_UNSIGNED = {'u8', 'u16', 'u32', 'u64', 'u128', 'usize'}
PRIM_SIGNED = {'i8', 'i16', 'i32', 'i64', 'i128', 'isize'}
BITS = {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'usize': 64, 'u128': 128,
        'i8': 8, 'i16': 16, 'i32': 32, 'i64': 64, 'isize': 64, 'i128': 128}


def strip_generics(p):
    out, depth, i = [], 0, 0
    while i < len(p):
        c = p[i]
        if c == '<':
            depth += 1
        elif c == '>' and not (i and p[i - 1] == '-'):
            depth -= 1
        elif depth == 0:
            out.append(c)
        i += 1
    return ''.join(out)


_canon = {}


def canon(path):
    """Crate- and generics-free name of a function: Owner::method."""
    r = _canon.get(path)
    if r is not None:
        return r
    p = path.replace('bitvec::macros::internal::core', 'core')
    m = re.search(r'<impl (.*?)>::', p)
    if m and not m.group(1).startswith('std::') and ' for ' not in m.group(1):
        t = m.group(1)
        if t.startswith('['):
            o = 'array' if ';' in t else 'slice'
        elif t in BITS:
            o = 'int'
        elif t.startswith('*'):
            o = 'const_ptr' if t.startswith('*const') else 'mut_ptr'
        else:
            o = t.split('<')[0].split('::')[-1]
        p = o + '::' + p[m.end():]
    p = strip_generics(p)
    segs = [s for s in p.split('::') if s]
    r = '::'.join(segs[-2:])
    _canon[path] = r
    return r


class Body:
    def __init__(self, j):
        self.j = j
        self.id = j['id']
        self.path = j['path']
        self.span = j['span']
        self.argc = j['argc']
        self.locals = j['locals']
        self.blocks = j['blocks']
        self.promoted = [Body(p) for p in j.get('promoted', [])]
        self._loops = None

    def succ(self, b):
        t = self.blocks[b]['t']
        k = t['t']
        if k in ('goto', 'drop', 'assert'):
            r = [t['b']]
        elif k == 'call':
            r = [t['b']] if t['b'] >= 0 else []
        elif k == 'switch':
            r = [x[1] for x in t['v']] + [t['else']]
        else:
            r = []
        return [x for x in r if not self.blocks[x]['c']]

    def loops(self):
        """header -> set of blocks of its natural loop"""
        if self._loops is not None:
            return self._loops
        n = len(self.blocks)
        order, seen = [], set()
        stack = [(0, iter(self.succ(0)))]
        seen.add(0)
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(self.succ(s))))
                    break
            else:
                order.append(b)
                stack.pop()
        rpo = order[::-1]
        pred = {b: [] for b in rpo}
        for b in rpo:
            for s in self.succ(b):
                pred[s].append(b)
        dom = {b: set(rpo) for b in rpo}
        dom[0] = {0}
        ch = True
        while ch:
            ch = False
            for b in rpo[1:]:
                d = set.intersection(*[dom[p] for p in pred[b]]) | {b}
                if d != dom[b]:
                    dom[b] = d
                    ch = True
        loops = {}
        for b in rpo:
            for s in self.succ(b):
                if s in dom[b]:
                    body = loops.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x not in body:
                            body.add(x)
                            st.extend(pred[x])
        self._loops = loops
        return loops


def ty_str(t):
    k = t['k']
    if k in ('prim', 'param', 'fnptr', 'dyn', 'other', 'const', 'region'):
        return t['n']
    if k == 'adt':
        a = [ty_str(x) for x in t['a'] if x['k'] != 'region']
        return t['n'].split('::')[-1] + ('<' + ', '.join(a) + '>' if a else '')
    if k in ('ref', 'ptr'):
        return ('&' if k == 'ref' else '*') + ('mut ' if t['m'] else '') + ty_str(t['t'])
    if k == 'slice':
        return '[' + ty_str(t['t']) + ']'
    if k == 'array':
        return '[' + ty_str(t['t']) + '; ' + t['n'] + ']'
    if k == 'tuple':
        return '(' + ', '.join(ty_str(x) for x in t['a']) + ')'
    if k in ('closure', 'fndef'):
        return k + ':' + t['id']
    return str(t)


def subst_ty(t, env):
    if not env:
        return t
    k = t['k']
    if k == 'param':
        return env.get(t['n'], t)
    if k == 'const':
        return env.get(t['n'], t)
    if k == 'adt' or k == 'tuple':
        r = dict(t)
        r['a'] = [subst_ty(x, env) for x in t['a']]
        return r
    if k in ('ref', 'ptr', 'slice', 'array'):
        r = dict(t)
        r['t'] = subst_ty(t['t'], env)
        if k == 'array' and t['n'] in env and env[t['n']]['k'] == 'const':
            r['n'] = env[t['n']]['n']
        return r
    if k == 'fndef':
        r = dict(t)
        r['a'] = [subst_ty(x, env) for x in t['a']]
        return r
    return t


def same_ty(a, b):
    if a['k'] != b['k']:
        return False
    k = a['k']
    if k in ('prim', 'param', 'fnptr', 'dyn', 'other', 'const'):
        return a['n'] == b['n']
    if k == 'region':
        return True
    if k == 'adt':
        x = [t for t in a['a'] if t['k'] != 'region']
        y = [t for t in b['a'] if t['k'] != 'region']
        return a['id'] == b['id'] and len(x) == len(y) and all(same_ty(p, q) for p, q in zip(x, y))
    if k == 'tuple':
        return len(a['a']) == len(b['a']) and all(same_ty(p, q) for p, q in zip(a['a'], b['a']))
    if k in ('ref', 'ptr'):
        return a['m'] == b['m'] and same_ty(a['t'], b['t'])
    if k == 'slice':
        return same_ty(a['t'], b['t'])
    if k == 'array':
        return a['n'] == b['n'] and same_ty(a['t'], b['t'])
    return a.get('id') == b.get('id')


def unify(pat, t, env):
    """Match pattern type (with params) against t."""
    k = pat['k']
    if k == 'param':
        if pat['n'] in env:
            return same_ty(env[pat['n']], t) or env[pat['n']]['k'] == 'other' or t['k'] == 'other'
        env[pat['n']] = t
        return True
    if k == 'region':
        return t['k'] == 'region'
    if k == 'const':
        env.setdefault(pat['n'], t)
        return True
    if t['k'] == 'other' or pat['k'] == 'other':
        return True
    if k != t['k']:
        return False
    if k in ('prim', 'fnptr', 'dyn'):
        return pat['n'] == t['n']
    if k == 'adt':
        x = [u for u in pat['a'] if u['k'] != 'region']
        y = [u for u in t['a'] if u['k'] != 'region']
        return pat['id'] == t['id'] and len(x) == len(y) and all(unify(p, q, env) for p, q in zip(x, y))
    if k == 'tuple':
        return len(pat['a']) == len(t['a']) and all(unify(p, q, env) for p, q in zip(pat['a'], t['a']))
    if k in ('ref', 'ptr'):
        return pat['m'] == t['m'] and unify(pat['t'], t['t'], env)
    if k == 'slice':
        return unify(pat['t'], t['t'], env)
    if k == 'array':
        env.setdefault(pat['n'], {'k': 'const', 'n': t['n']})
        return unify(pat['t'], t['t'], env)
    return pat.get('id') == t.get('id')


class Facts:
    def __init__(self, path):
        self.j = json.load(open(path))
        self.crate = self.j['crate']
        self.bodies = {}
        for b in self.j['bodies']:
            self.bodies[b['id']] = Body(b)
        self.fns = {f['id']: f for f in self.j['fns']}
        self.adts = {a['id']: a for a in self.j['adts']}
        self.adt_by_path = {a['path']: a for a in self.j['adts']}
        self.impls = {i['id']: i for i in self.j['impls']}
        self.traits = {t['path']: t for t in self.j['traits']}
        self.by_trait = {}
        for i in self.j['impls']:
            if i['trait']:
                self.by_trait.setdefault(i['trait'], []).append(i)
        self.inherent = {}
        for i in self.j['impls']:
            if not i['trait']:
                self.inherent.setdefault(i['self'].get('id'), []).append(i)
        self.fn_impl = {}
        for i in self.j['impls']:
            for it in i['items']:
                self.fn_impl[it['id']] = i

    def find_impl(self, trait, self_ty, targs=None):
        """Local impl of the trait for the type, with the substitution."""
        if self_ty['k'] == 'other':
            return None   # an associated type of a type parameter: any type at all
        for i in self.by_trait.get(trait, []):
            env = {}
            if i['self']['k'] == 'param':
                continue
            if unify(i['self'], self_ty, env):
                if targs:
                    ok = True
                    for p, a in zip(i['targs'][1:], targs):
                        if p['k'] == 'region' or a['k'] == 'region':
                            continue
                        if not unify(p, a, dict(env)):
                            ok = False
                    if not ok:
                        continue
                    for p, a in zip(i['targs'][1:], targs):
                        if p['k'] != 'region':
                            unify(p, a, env)
                return i, env
        return None

    def methods_of(self, adt_id):
        """(impl, item) of every inherent and trait function for the ADT"""
        for i in self.j['impls']:
            s = i['self']
            if s['k'] == 'ref':
                s = s['t']
            if s.get('id') == adt_id:
                for it in i['items']:
                    if it['id'] in self.fns:
                        yield i, it

    def _refs(self):
        if hasattr(self, '_callers'):
            return
        self._callers, self._builders = {}, {}

        def walk(x, me):
            if isinstance(x, dict):
                if x.get('o') == 'fn':
                    c = x['callee']
                    for i in (c.get('resid'), c['id']):
                        if i in self.bodies:
                            self._callers.setdefault(i, set()).add(me)
                elif x.get('r') == 'agg' and x.get('k') == 'adt':
                    self._builders.setdefault(x['id'], set()).add(me)
                for v in x.values():
                    walk(v, me)
            elif isinstance(x, list):
                for v in x:
                    walk(v, me)
        for b in self.bodies.values():
            root = b.j.get('root') or b.id
            while root in self.bodies and self.bodies[root].j.get('root'):
                root = self.bodies[root].j['root']
            walk(b.blocks, root)
            for p in b.promoted:
                walk(p.blocks, root)

    def callers_of(self, fid):
        """Named functions that call or mention the function."""
        self._refs()
        return {f for f in self._callers.get(fid, ()) if f in self.fns and f != fid}

    def builders(self, aid):
        """Named functions in which a value of the type is put together from its fields."""
        self._refs()
        return {f for f in self._builders.get(aid, ()) if f in self.fns}
