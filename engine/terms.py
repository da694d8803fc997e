"""Terms: immutable tuples. Integers are kept in a linear normal form.

  ('int', n)                     integer constant (also bool as 0/1)
  ('lin', c, ((t, k), ...))      c + sum k*t
  ('sym', name)                  opaque value
  ('f', base, name)              field of an opaque value
  ('vf', base, variant, name)    field of a variant of an opaque enum value
  ('idx', seq, i) ('sub', seq, lo, hi) ('len', seq)
  ('app', fn, args...)           application of a known pure function
  ('unk', fn, args...)           result of something the engine has no model for
  ('agg', tag, names, values)    struct, tuple, enum value, closure, array, iterator
  ('ref', place, mut)            reference; place = (root, path)
  ('lit', atom, polarity)        boolean
  ('push', seq, v), ('build', n, var, item), ('sorted', seq, key), ('upd', base, elem, v)
"""
from functools import lru_cache

_rep = {}


def key(t):
    r = _rep.get(t)
    if r is None:
        r = repr(t)
        if len(_rep) > 400000:
            _rep.clear()
        _rep[t] = r
    return r


def I(n):
    return ('int', int(n))


TRUE = I(1)
FALSE = I(0)
UNIT = ('agg', ('tuple',), (), ())


def agg(tag, names, vals):
    return ('agg', tag, tuple(names), tuple(vals))


def tup(*vals):
    return agg(('tuple',), [str(i) for i in range(len(vals))], vals)


def enumv(adt, variant, *vals):
    return agg(('adt', adt, variant), [str(i) for i in range(len(vals))], vals)


def some(v):
    return enumv('Option', 'Some', v)


NONE = enumv('Option', 'None')


def okv(v):
    return enumv('Result', 'Ok', v)


def errv(v):
    return enumv('Result', 'Err', v)


def is_lin(t):
    return t[0] in ('int', 'lin')


def parts(t):
    if t[0] == 'int':
        return t[1], {}
    if t[0] == 'lin':
        return t[1], dict(t[2])
    return 0, {t: 1}


def mklin(c, d):
    d = {t: k for t, k in d.items() if k != 0}
    if not d:
        return ('int', c)
    if c == 0 and len(d) == 1:
        (t, k), = d.items()
        if k == 1:
            return t
    return ('lin', c, tuple(sorted(d.items(), key=lambda x: key(x[0]))))


def add(a, b, kb=1):
    ca, da = parts(a)
    cb, db = parts(b)
    d = dict(da)
    for t, k in db.items():
        d[t] = d.get(t, 0) + kb * k
    return mklin(ca + kb * cb, d)


def sub(a, b):
    return add(a, b, -1)


def mul(a, b):
    if a[0] == 'int':
        a, b = b, a
    if b[0] == 'int':
        c, d = parts(a)
        return mklin(c * b[1], {t: k * b[1] for t, k in d.items()})
    if key(a) > key(b):
        a, b = b, a
    return ('app', 'mul', a, b)


# ---- sequences -------------------------------------------------------------
LEN = {}  # length of loop-carried sequences, registered by the loop analysis


def mklen(s):
    k = s[0]
    if s in LEN:
        return LEN[s]
    if k == 'sub':
        return sub(s[3], s[2])
    if k == 'push':
        return add(mklen(s[1]), I(1))
    if k == 'build':
        return s[1]
    if k in ('sorted', 'rev', 'reorder', 'fill'):
        return mklen(s[1])
    if k == 'agg' and s[1] == ('array',):
        return I(len(s[3]))
    if k == 'upd' and s[2][0] == 'idx':
        return mklen(s[1])
    if k == 'upd' and s[2][0] == 'sub':
        return mklen(s[1])
    if k == 'repeat':
        return s[2]
    if k == 'concat':
        return add(mklen(s[1]), mklen(s[2]))
    if k == 'app' and s[1] in ('remove', 'swap_remove'):
        return sub(mklen(s[2]), I(1))
    if k == 'app' and s[1] == 'insert' and len(s) == 4:
        return add(mklen(s[2]), I(1))
    return ('len', s)


def mksub(s, lo, hi):
    if s[0] == 'sub':
        return mksub(s[1], add(s[2], lo), add(s[2], hi))
    if lo == I(0) and hi == mklen(s):
        return s
    return ('sub', s, lo, hi)


def mkidx(s, i):
    k = s[0]
    if k == 'sub':
        return mkidx(s[1], add(s[2], i))
    if k == 'agg' and s[1] == ('array',) and i[0] == 'int' and 0 <= i[1] < len(s[3]):
        return s[3][i[1]]
    if k == 'push':
        if i == mklen(s[1]):
            return s[2]
    if k == 'build':
        return subst(s[3], {s[2]: i})
    if k == 'concat':
        d = sub(i, mklen(s[1]))
        if d[0] == 'int' and d[1] >= 0:
            return mkidx(s[2], d)
        if i[0] == 'int' and mklen(s[1])[0] == 'int':
            return mkidx(s[1], i)
    if k == 'rev':
        return mkidx(s[1], sub(sub(mklen(s[1]), I(1)), i))
    if k == 'repeat':
        return s[1]
    if k == 'fill':
        d = sub(i, s[2])
        if d[0] == 'int':
            return mkidx(s[1], i) if d[1] >= 0 else subst(s[4], {s[3]: i})
    if k == 'upd' and s[2][0] == 'idx':
        if s[2][1] == i:
            return s[3]
        d = sub(s[2][1], i)
        if d[0] == 'int' and d[1] != 0:
            return mkidx(s[1], i)
    return ('idx', s, i)


def proj(v, e):
    """Project a value by one place element."""
    k = e[0]
    if k == 'idx':
        return mkidx(v, e[1])
    if k == 'sub':
        return mksub(v, e[1], e[2])
    if k == 'f':
        if v[0] == 'agg':
            if e[1] in v[2]:
                return v[3][v[2].index(e[1])]
            return ('f', v, e[1])
        if v[0] == 'upd':
            if v[2] == e:
                return v[3]
            if v[2][0] in ('f',):
                return proj(v[1], e)
        return ('f', v, e[1])
    if k == 'vf':
        if v[0] == 'agg':
            if v[1][0] == 'adt' and len(v[1]) > 2 and v[1][2] == e[1] and e[2] in v[2]:
                return v[3][v[2].index(e[2])]
            if v[1][0] == 'adt' and e[2] in v[2]:
                return v[3][v[2].index(e[2])]
        if v[0] == 'upd':
            if v[2] == e:
                return v[3]
            if v[2][0] == 'vf':
                return proj(v[1], e)
        return mkvf(v, e[1], e[2])
    raise ValueError(e)


def mkvf(v, variant, name):
    if v[0] == 'opt' and variant == 'Some':
        return v[1]
    return ('vf', v, variant, name)


def update(v, path, val):
    """Functional update of v at path."""
    if not path:
        return val
    e, rest = path[0], path[1:]
    if v is not None and v[0] == 'agg':
        if e[0] in ('f', 'vf'):
            name = e[-1]
            if name in v[2]:
                i = v[2].index(name)
                nv = update(v[3][i], rest, val)
                return ('agg', v[1], v[2], v[3][:i] + (nv,) + v[3][i + 1:])
            if e[0] == 'f':
                return ('agg', v[1], v[2] + (name,), v[3] + (update(None, rest, val),))
        if e[0] == 'idx' and v[1] == ('array',) and e[1][0] == 'int' and e[1][1] < len(v[3]):
            i = e[1][1]
            nv = update(v[3][i], rest, val)
            return ('agg', v[1], v[2], v[3][:i] + (nv,) + v[3][i + 1:])
    if v is None:
        if e[0] == 'f':
            return ('agg', ('tuple',), (e[1],), (update(None, rest, val),))
        v = ('sym', 'uninit')
    if v[0] == 'sub' and e[0] == 'idx':
        pass
    old = proj(v, e)
    nv = update(old, rest, val)
    if v[0] == 'upd' and v[2] == e:
        return ('upd', v[1], e, nv)
    if nv == old:
        return v
    return ('upd', v, e, nv)


# ---- traversal -------------------------------------------------------------

def rebuild(t, f):
    """Apply f to immediate sub-terms and rebuild with the smart constructors."""
    k = t[0]
    if k in ('int', 'sym'):
        return t
    if k == 'lin':
        r = I(t[1])
        for x, c in t[2]:
            r = add(r, mul(f(x), I(c)))
        return r
    if k == 'f':
        return proj(f(t[1]), ('f', t[2]))
    if k == 'vf':
        return proj(f(t[1]), ('vf', t[2], t[3]))
    if k == 'idx':
        return mkidx(f(t[1]), f(t[2]))
    if k == 'sub':
        return mksub(f(t[1]), f(t[2]), f(t[3]))
    if k == 'len':
        return mklen(f(t[1]))
    if k == 'app':
        return mkapp(t[1], *[f(x) for x in t[2:]])
    if k == 'unk':
        return t[:2] + tuple(f(x) for x in t[2:])
    if k == 'agg':
        return ('agg', t[1], t[2], tuple(f(x) for x in t[3]))
    if k == 'ref':
        return ('ref', rebuild_place(t[1], f), t[2])
    if k == 'lit':
        return mklit(rebuild_atom(t[1], f), t[2])
    if k == 'upd':
        return ('upd', f(t[1]), rebuild_elem(t[2], f), f(t[3]))
    if k == 'push':
        return mkpush(f(t[1]), f(t[2]))
    if k == 'build':
        return mkbuild(f(t[1]), t[2], f(t[3]))
    if k == 'concat':
        return mkconcat(f(t[1]), f(t[2]))
    if k == 'fill':
        return mkfill(f(t[1]), f(t[2]), t[3], f(t[4]))
    if k == 'fnv':
        return t
    # ('sorted', s, key), ('rev', s), ('repeat', v, n), ('concat', a, b), ('opt', v), ...
    return (k,) + tuple(f(x) if isinstance(x, tuple) and x and isinstance(x[0], str) else x for x in t[1:])


EMPTY = ('agg', ('array',), (), ())


def eta(v):
    """(t.0, t.1) is t"""
    if v[0] == 'agg' and v[1] == ('tuple',) and len(v[3]) == 2:
        a, b = v[3]
        if a[0] == 'f' and b[0] == 'f' and a[1] == b[1] and a[2] == '0' and b[2] == '1':
            return a[1]
    return v


def mkbuild(n, var, item):
    """Sequence of n items, item(var) for var = 0..n"""
    item = eta(item)
    if n == I(0):
        return EMPTY
    if item[0] == 'idx' and var not in subterms(item[1]):
        d = sub(item[2], var)
        if d[0] == 'int' or var not in subterms(d):
            return mksub(item[1], d, add(d, n))
    canonvar = ('sym', 'i:')
    if var != canonvar and canonvar not in subterms(item):
        item = subst(item, {var: canonvar})
        var = canonvar
    elif var != canonvar:
        depth = 1
        while ('sym', 'i:%d' % depth) != var and ('sym', 'i:%d' % depth) in subterms(item):
            depth += 1
        canonvar = ('sym', 'i:%d' % depth)
        if var != canonvar:
            item = subst(item, {var: canonvar})
            var = canonvar
    return ('build', n, var, item)


def mkfill(init, n, var, item):
    """init with its first n elements replaced by item(0), item(1), ..."""
    if n == I(0):
        return init
    if n == mklen(init):
        return mkbuild(n, var, item)
    return ('fill', init, n, var, item)


def mkpush(s, v):
    if s[0] == 'agg' and s[1] == ('array',) and len(s[3]) < 16:
        return ('agg', ('array',), s[2] + (str(len(s[3])),), s[3] + (v,))
    if s[0] == 'build' and eta(v) == subst(s[3], {s[2]: s[1]}):
        return mkbuild(add(s[1], I(1)), s[2], s[3])
    if s[0] == 'concat' and s[2][0] == 'build':
        b = mkpush(s[2], v)
        if b[0] == 'build':
            return mkconcat(s[1], b)
    if s[0] == 'sub' and eta(v) == mkidx(s[1], s[3]):
        return mksub(s[1], s[2], add(s[3], I(1)))
    return ('push', s, v)


def mkconcat(a, b):
    if a == EMPTY:
        return b
    if b == EMPTY:
        return a
    if a[0] == 'sub' and b[0] == 'sub' and a[1] == b[1] and a[3] == b[2]:
        return mksub(a[1], a[2], b[3])
    if a[0] == 'build' and b[0] == 'build':
        p = ('sym', 'i:cc')
        if subst(a[3], {a[2]: p}) == subst(b[3], {b[2]: sub(p, a[1])}):
            return mkbuild(add(a[1], b[1]), a[2], a[3])
    if a[0] == 'concat' and a[2][0] == 'build' and b[0] == 'build':
        m = mkconcat(a[2], b)
        if m[0] == 'build':
            return mkconcat(a[1], m)
    if b[0] == 'build' and (a[0] == 'push' or a[0] == 'agg' and a[1] == ('array',) and len(a[3]) == 1):
        # one item, and then the rest of the same run
        x = a[2] if a[0] == 'push' else a[3][0]
        if eta(x) == eta(subst(b[3], {b[2]: I(-1)})):
            return mkconcat(a[1] if a[0] == 'push' else EMPTY, mkbuild(add(b[1], I(1)), b[2], subst(b[3], {b[2]: add(b[2], I(-1))})))
    if b[0] == 'sub' and (a[0] == 'push' or a[0] == 'agg' and a[1] == ('array',)):
        # some items, and then what follows them in the sequence they come from
        x = a[2] if a[0] == 'push' else a[3][-1]
        p = sub(b[2], I(1))
        if eta(x) == mkidx(b[1], p):
            rest = a[1] if a[0] == 'push' else ('agg', ('array',), a[2][:-1], a[3][:-1])
            return mkconcat(rest, mksub(b[1], p, b[3]))
    if a[0] == 'agg' and a[1] == ('array',) and b[0] == 'agg' and b[1] == ('array',):
        v = a[3] + b[3]
        return ('agg', ('array',), tuple(str(i) for i in range(len(v))), v)
    return ('concat', a, b)


def rebuild_elem(e, f):
    if e[0] in ('idx', 'sub'):
        return (e[0],) + tuple(f(x) for x in e[1:])
    return e


def rebuild_place(p, f):
    root, path = p
    if root[0] == 'ext' and isinstance(root[1], tuple):
        nv = f(root[1])
        if nv[0] == 'ref':
            root2, path2 = nv[1]
            return norm_place((root2, path2 + tuple(rebuild_elem(e, f) for e in path)))
        root = ('ext', nv)
    return norm_place((root, tuple(rebuild_elem(e, f) for e in path)))


def norm_place(p):
    root, path = p
    out = []
    for e in path:
        if out and out[-1][0] == 'sub':
            lo = out[-1][1]
            if e[0] == 'idx':
                out[-1] = ('idx', add(lo, e[1]))
                continue
            if e[0] == 'sub':
                out[-1] = ('sub', add(lo, e[1]), add(lo, e[2]))
                continue
        out.append(e)
    return (root, tuple(out))


def rebuild_atom(a, f):
    if a[0] == 'is':
        return ('is', f(a[1]), a[2])
    if a[0] == 'b':
        return ('b', f(a[1]))
    if a[0] in ('eq', 'lt'):
        return a[:1] + tuple(f(x) for x in a[1:])
    return a[:1] + tuple(f(x) if isinstance(x, tuple) and x and isinstance(x[0], str) else x for x in a[1:])


def subst(t, m):
    memo = {}

    def go(x):
        if x in m:
            return m[x]
        r = memo.get(x)
        if r is None:
            r = rebuild(x, go)
            if r in m and r[0] != 'sym':
                r = m[r]
            memo[x] = r
        return r
    return go(t)


def subst_atom(a, m):
    return rebuild_atom(a, lambda x: subst(x, m))


def subterms(t, acc=None):
    """All sub-terms (a set)."""
    if acc is None:
        acc = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if not isinstance(x, tuple) or x in acc:
            continue
        acc.add(x)
        for y in x:
            if isinstance(y, tuple):
                stack.append(y)
    return acc


def mentions(t, x):
    return x in subterms(t)


def has_unk(t):
    for x in subterms(t):
        if x and (x[0] == 'unk' or x[0] == 'app' and x[1] == 'oneof' or x[0] == 'sym' and len(x) > 1 and isinstance(x[1], str) and (x[1] == 'uninit' or x[1].startswith('phi:'))):
            return True
    return False


# ---- booleans --------------------------------------------------------------

def mklit(atom, pol):
    """Boolean term for an atom, simplified."""
    k = atom[0]
    if k == 'eq':
        a, b = atom[1], atom[2]
        if a == b:
            return TRUE if pol else FALSE
        if a[0] in ('int', 'lin') or b[0] in ('int', 'lin'):
            d = sub(a, b)
            if d[0] == 'int':
                return TRUE if (d[1] == 0) == pol else FALSE
            # canonical orientation of a linear equation
            c, m = parts(d)
            first = sorted(m, key=key)[0]
            if m[first] < 0:
                d = mul(d, I(-1))
                c, m = parts(d)
            left = mklin(0, m)
            return ('lit', ('eq', left, I(-c)), pol)
        if a[0] == 'agg' and b[0] == 'agg' and a[1][0] == 'adt' and b[1][0] == 'adt':
            if a[1][2:] != b[1][2:]:
                return FALSE if pol else TRUE
            if len(a[3]) == 1 and len(b[3]) == 1:
                return mklit(('eq', a[3][0], b[3][0]), pol)
        if a[0] == 'opt' and b[0] == 'opt':
            return mklit(('eq', a[1], b[1]), pol) if a[2] == b[2] else ('lit', ('eq',) + tuple(sorted((a, b), key=key)), pol)
        if key(a) > key(b):
            a, b = b, a
        return ('lit', ('eq', a, b), pol)
    if k == 'lt':
        a, b = atom[1], atom[2]
        d = sub(a, b)
        if d[0] == 'int':
            return TRUE if (d[1] < 0) == pol else FALSE
        return ('lit', ('lt', a, b), pol)
    if k == 'b':
        t = atom[1]
        if t[0] == 'int':
            return TRUE if (t[1] != 0) == pol else FALSE
        if t[0] == 'lit':
            return mklit(t[1], t[2] == pol)
        return ('lit', atom, pol)
    if k == 'is':
        t = atom[1]
        if t[0] == 'agg' and t[1][0] == 'adt':
            return TRUE if (t[1][2] == atom[2]) == pol else FALSE
        return ('lit', atom, pol)
    return ('lit', atom, pol)


def eq(a, b, pol=True):
    return mklit(('eq', a, b), pol)


def lt(a, b, pol=True):
    return mklit(('lt', a, b), pol)


def le(a, b):
    return mklit(('lt', b, a), False)


def notb(t):
    if t[0] == 'int':
        return I(0 if t[1] else 1)
    if t[0] == 'lit':
        return mklit(t[1], not t[2])
    return mklit(('b', t), False)


def mkapp(fn, *args):
    if fn == 'rem' and args[0][0] == 'int' and args[1][0] == 'int' and args[1][1]:
        return I(args[0][1] % args[1][1])
    if fn == 'mul':
        return mul(*args)
    if fn in ('min', 'max') and args[0] == args[1]:
        return args[0]
    if fn in ('min', 'max', 'bitand', 'bitor', 'bitxor') and key(args[0]) > key(args[1]):
        args = (args[1], args[0])
    if fn in ('min', 'max') and args[0][0] == 'int' and args[1][0] == 'int':
        return I({'min': min, 'max': max}[fn](args[0][1], args[1][1]))
    return ('app', fn) + tuple(args)


# ---- printing --------------------------------------------------------------

def show(t, depth=0):
    if not isinstance(t, tuple) or not t:
        return str(t)
    k = t[0]
    if depth > 14:
        return '…'
    if not isinstance(k, str) or k in ('idx', 'f') and len(t) == 2 or k == 'vf' and len(t) == 3:
        return str(t)
    s = lambda x: show(x, depth + 1)
    if k == 'int':
        return str(t[1])
    if k == 'sym':
        return str(t[1])
    if k == 'lin':
        out = []
        for x, c in t[2]:
            out.append(('' if c == 1 else '-' if c == -1 else str(c) + '*') + s(x))
        if t[1]:
            out.append(str(t[1]))
        return '(' + ' + '.join(out) + ')'
    if k == 'f':
        return s(t[1]) + '.' + t[2]
    if k == 'vf':
        return s(t[1]) + '.' + t[2] + '.' + t[3]
    if k == 'idx':
        return s(t[1]) + '[' + s(t[2]) + ']'
    if k == 'sub':
        return s(t[1]) + '[' + s(t[2]) + '..' + s(t[3]) + ']'
    if k == 'len':
        return 'len(' + s(t[1]) + ')'
    if k in ('app', 'unk'):
        return ('?' if k == 'unk' else '') + str(t[1]) + '(' + ', '.join(s(x) for x in t[2:]) + ')'
    if k == 'agg':
        return '/'.join(str(x).split('::')[-1] for x in t[1]) + '{' + ', '.join(n + ': ' + s(v) for n, v in zip(t[2], t[3])) + '}'
    if k == 'ref':
        return '&' + ('mut ' if t[2] else '') + showplace(t[1], depth)
    if k == 'lit':
        return ('' if t[2] else '!') + showatom(t[1], depth)
    if k == 'build' and len(t) == 4:
        return '[' + s(t[3]) + ' for ' + s(t[2]) + ' < ' + s(t[1]) + ']'
    if k == 'fnv':
        return t[1]
    return k + '(' + ', '.join(s(x) if isinstance(x, tuple) else str(x) for x in t[1:]) + ')'


def showplace(p, depth=0):
    root, path = p
    r = root[0] + ':' + (show(root[1], depth + 1) if isinstance(root[1], tuple) else str(root[1:]))
    for e in path:
        if e[0] == 'f':
            r += '.' + e[1]
        elif e[0] == 'vf':
            r += '.' + e[1] + '.' + e[2]
        elif e[0] == 'idx':
            r += '[' + show(e[1], depth + 1) + ']'
        else:
            r += '[' + show(e[1], depth + 1) + '..' + show(e[2], depth + 1) + ']'
    return r


def showatom(a, depth=0):
    return a[0] + '(' + ', '.join(show(x, depth + 1) if isinstance(x, tuple) else str(x) for x in a[1:]) + ')'


def showfacts(fs):
    return ' & '.join(('' if p else '!') + showatom(a) for a, p in fs)
