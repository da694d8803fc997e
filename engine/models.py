"""Models of the standard library (and num-traits) functions the crate calls.

Each model is the documented contract of the function as a transformer of abstract states.  A function
without a model makes its result, and whatever it can reach through mutable references, unknown.
"""
from terms import *
from facts import *
import linear
from linear import UNSIGNED


def ret(S, v):
    return [('ret', S, v)]


def short(t):
    return t['n'].split('::')[-1] if t['k'] == 'adt' else t['k']


def U(v):
    if v[0] not in ('int', 'lin', 'lit', 'agg', 'ref'):
        UNSIGNED.add(v)
    return v


# ---- option-like values ------------------------------------------------------
ENUMS = {'Option': ('Some', 'None'), 'Result': ('Ok', 'Err'), 'ControlFlow': ('Continue', 'Break')}


def cases(it, S, v, enum='Option'):
    """[(is_first_variant, payload, state)]"""
    if v[0] == 'ref':
        v = it.deref(S, v)
    a, b = ENUMS[enum]
    out = []
    for pol, S2 in it.branch(S, it.is_lit(v, enum, a)):
        if pol:
            p = proj(v, ('vf', a, '0'))
        else:
            p = proj(v, ('vf', b, '0')) if enum != 'Option' else None
        out.append((pol, p, S2))
    return out


def place_variant(it, S, v, enum, variant):
    """Reference to the payload of the enum value designated by v."""
    pl = it.place_of(v)
    return ('ref', (pl[0], pl[1] + (('vf', variant, '0'),)), v[2] if v[0] == 'ref' else False)


def through(it, S, f, args, c, tag, k):
    """Call f and continue with k(S, value)."""
    out = []
    for o in it.call_value(S, f, args, c.sub(tag)):
        if o[0] == 'ret':
            out.extend(k(o[1], o[2]))
        else:
            out.append(o)
    return out


def enum_of(c):
    t = c.targs[0] if c.targs else None
    if t is not None and t['k'] == 'adt':
        s = short(t)
        if s in ENUMS:
            return s
    return None


# ---- iterators -----------------------------------------------------------------

def itv(kind, **kw):
    return ('agg', ('it', kind), tuple(kw.keys()), tuple(kw.values()))


def is_it(v):
    return v[0] == 'agg' and v[1][0] == 'it'


def range_it(lo, hi):
    return agg(('adt', 'Range', None), ['start', 'end'], [lo, hi])


def seq_like(t):
    if t['k'] in ('array', 'slice'):
        return True
    return t['k'] == 'adt' and (short(t) in ('Vec', 'VecDeque', 'BinaryHeap', 'LinkedList', 'BitVec', 'BitSlice', 'BitBox', 'BitArray') or short(t) == 'Box' and t['a'] and t['a'][0]['k'] in ('slice', 'array'))


def ref_iter(it, S, r, mut):
    pl = it.place_of(r)
    n = mklen(it.read(S, pl))
    return itv('ref', s=('ref', pl, mut), i=I(0), e=n)


def into_iter(it, S, v, ty, c):
    """Outcomes of v.into_iter() for a value of the given type."""
    if is_it(v) or v[0] == 'agg' and v[1][:2] == ('adt', 'Range'):
        return ret(S, v)
    if v[0] == 'agg' and v[1][:2] == ('adt', 'RangeInclusive'):
        return ret(S, range_it(v[3][0], add(v[3][1], I(1))))
    if ty['k'] == 'adt' and short(ty) == 'RangeInclusive':
        return ret(S, range_it(proj(v, ('f', 'start')), add(proj(v, ('f', 'end')), I(1))))
    if ty['k'] == 'adt' and short(ty) == 'Option':
        out = []
        for pol, p, S2 in cases(it, S, v):
            out += ret(S2, itv('val', s=agg(('array',), ['0'], [p]) if pol else EMPTY, i=I(0), e=I(1 if pol else 0)))
        return out
    own = ty['t'] if ty['k'] == 'ref' else ty
    if own['k'] == 'adt' and own.get('id') in it.F.adts:
        found = it.F.find_impl('std::iter::IntoIterator', ty)
        if found:
            item = next((i for i in found[0]['items'] if i['n'] == 'into_iter'), None)
            if item and item['id'] in it.F.bodies:
                h = it.contracts.get(item['id'])
                r = h(it, S, [v], c) if h else None
                return r if r is not None else it.inline(c.fr, S, it.F.bodies[item['id']], [v], c.sub('into_iter:' + item['id']), dict(found[1]))
    if ty['k'] == 'ref':
        t = ty['t']
        if seq_like(t):
            return ret(S, ref_iter(it, S, v, ty['m']))
        if t['k'] == 'adt' and short(t) in ('HashSet', 'BTreeSet', 'HashMap', 'BTreeMap'):
            s = ('app', 'items', it.strip(S, v))
            return ret(S, itv('val', s=s, i=I(0), e=mklen(s)))
        if t['k'] == 'param' or is_it(it.deref(S, v)) or has_next(it, t):
            return ret(S, v)
    if v[0] == 'ref' and is_it(it.deref(S, v)):
        return ret(S, v)
    if seq_like(ty) or is_seqv(v):
        return ret(S, itv('val', s=v, i=I(0), e=mklen(v)))
    if ty['k'] == 'adt' and has_next(it, ty):
        return ret(S, v)
    if v[0] == 'agg' and v[1][0] == 'adt' and v[1][1] in it.F.adts:
        return ret(S, v)
    return ret(S, opaque_iter(v))


def is_seqv(v):
    return v[0] in ('build', 'push', 'concat', 'sorted', 'repeat', 'rev', 'fill', 'reorder') or v[0] == 'agg' and v[1] == ('array',)


def opaque_iter(v):
    s = ('app', 'items', v)
    return itv('val', s=s, i=I(0), e=mklen(s))


def has_next(it, ty):
    return it.F.find_impl('std::iter::Iterator', ty) is not None if ty['k'] == 'adt' else False


def sub_place(pl, name):
    return norm_place((pl[0], pl[1] + (('f', name),)))


def split_lt(it, S, a, b):
    return it.branch(S, lt(a, b))


def step(it, S, pl, c, back=False):
    """Advance the iterator stored at the place: ('item', S, v) | ('done', S) | ('skip', S) | other outcomes."""
    v = it.read(S, pl)
    if v[0] == 'ref':
        return step(it, S, v[1], c, back)
    if not is_it(v) and not (v[0] == 'agg' and v[1][0] == 'adt'):
        v = opaque_iter(v)
        S = S.copy()
        it.write(S, pl, v)
    if v[0] == 'agg' and v[1][0] == 'adt' and v[1][1] == 'Range':
        lo, hi = v[3]
        out = []
        for pol, S2 in split_lt(it, S, lo, hi):
            if pol:
                S2 = S2.copy()
                if back:
                    it.write(S2, sub_place(pl, 'end'), sub(hi, I(1)))
                    out.append(('item', S2, sub(hi, I(1))))
                else:
                    it.write(S2, sub_place(pl, 'start'), add(lo, I(1)))
                    out.append(('item', S2, lo))
            else:
                out.append(('done', S2))
        return out
    if v[1][0] == 'adt':
        return step_local(it, S, pl, v, c, back)
    kind = v[1][1]
    g = dict(zip(v[2], v[3]))
    if kind in ('ref', 'val', 'windows', 'chunks'):
        out = []
        for pol, S2 in split_lt(it, S, g['i'], g['e']):
            if not pol:
                out.append(('done', S2))
                continue
            S2 = S2.copy()
            if back:
                j = sub(g['e'], I(1))
                it.write(S2, sub_place(pl, 'e'), j)
            else:
                j = g['i']
                it.write(S2, sub_place(pl, 'i'), add(j, I(1)))
            if kind == 'val':
                out.append(('item', S2, mkidx(g['s'], j)))
            elif kind == 'ref':
                sp = g['s'][1]
                out.append(('item', S2, ('ref', norm_place((sp[0], sp[1] + (('idx', j),))), g['s'][2])))
            else:
                sp = it.place_of(g['s'])
                out.append(('item', S2, ('ref', norm_place((sp[0], sp[1] + (('sub', j, add(j, g['w'])),))), False)))
        return out
    if kind == 'empty':
        return [('done', S)]
    if kind == 'once':
        out = []
        for pol, S2 in split_lt(it, S, g['i'], I(1)):
            if pol:
                S2 = S2.copy()
                it.write(S2, sub_place(pl, 'i'), I(1))
                out.append(('item', S2, g['v']))
            else:
                out.append(('done', S2))
        return out
    if kind == 'map':
        out = []
        for o in step(it, S, sub_place(pl, 'inner'), c.sub('m'), back):
            if o[0] == 'item':
                f = ('ref', sub_place(pl, 'f'), True)
                for p in it.call_value(o[1], f, [o[2]], c.sub('mf')):
                    out.append(('item', p[1], p[2]) if p[0] == 'ret' else p)
            else:
                out.append(o)
        return out
    if kind in ('cloned', 'copied'):
        return [('item', o[1], it.deref(o[1], o[2])) if o[0] == 'item' else o for o in step(it, S, sub_place(pl, 'inner'), c.sub('c'), back)]
    if kind in ('filter', 'filter_map', 'take_while', 'map_while', 'skip_while', 'inspect'):
        out = []
        for o in step(it, S, sub_place(pl, 'inner'), c.sub('f'), back):
            if o[0] != 'item':
                out.append(o)
                continue
            S1, x = o[1], o[2]
            f = ('ref', sub_place(pl, 'f'), True)
            if kind in ('filter', 'inspect', 'take_while', 'skip_while'):
                tmp = c.tmp('flt')
                S1 = S1.copy()
                S1.mem[tmp] = x
                arg = ('ref', (tmp, ()), False)
            else:
                arg = x
            for p in it.call_value(S1, f, [arg], c.sub('ff')):
                if p[0] != 'ret':
                    out.append(p)
                    continue
                S2 = p[1].copy()
                S2.mem.pop(c.tmp('flt'), None)
                if kind == 'inspect':
                    out.append(('item', S2, x))
                elif kind == 'filter':
                    for pol, S3 in it.split_bool(S2, p[2]):
                        out.append(('item', S3, x) if pol else ('skip', S3))
                elif kind == 'filter_map':
                    for pol, w, S3 in cases(it, S2, p[2]):
                        out.append(('item', S3, w) if pol else ('skip', S3))
                elif kind in ('take_while', 'map_while'):
                    cs = [(pol, x, S3) for pol, S3 in it.split_bool(S2, p[2])] if kind == 'take_while' else cases(it, S2, p[2])
                    for pol, w, S3 in cs:
                        if pol:
                            out.append(('item', S3, w))
                        else:
                            out.append(('done', S3))
                else:
                    out.append(('item', S2, ('unk', 'skip_while', x)))
        return out
    if kind == 'enumerate':
        out = []
        for o in step(it, S, sub_place(pl, 'inner'), c.sub('e'), back):
            if o[0] == 'item':
                S2 = o[1].copy()
                n = it.read(S2, sub_place(pl, 'n'))
                if back:
                    left = it_len(it, S2, sub_place(pl, 'inner'), c)
                    n = add(n, left) if left is not None else ('unk', 'enum_back')
                else:
                    it.write(S2, sub_place(pl, 'n'), add(n, I(1)))
                out.append(('item', S2, tup(n, o[2])))
            else:
                out.append(o)
        return out
    if kind == 'zip':
        if back:
            la, lb = it_len(it, S, sub_place(pl, 'a'), c), it_len(it, S, sub_place(pl, 'b'), c)
            if la is None or lb is None or not it.holds(S, eq(la, lb)):
                return [('item', S, ('unk', 'zip_back')), ('done', S)]
        out = []
        for o in step(it, S, sub_place(pl, 'a'), c.sub('za'), back):
            if o[0] != 'item':
                out.append(o)
                continue
            for p in step(it, o[1], sub_place(pl, 'b'), c.sub('zb'), back):
                out.append(('item', p[1], tup(o[2], p[2])) if p[0] == 'item' else p)
        return out
    if kind == 'chain':
        out = []
        first, second = ('a', 'b') if not back else ('b', 'a')
        for o in step(it, S, sub_place(pl, first), c.sub('ca'), back):
            if o[0] == 'done':
                out.extend(step(it, o[1], sub_place(pl, second), c.sub('cb'), back))
            else:
                out.append(o)
        return out
    if kind == 'rev':
        return step(it, S, sub_place(pl, 'inner'), c.sub('r'), not back)
    if kind == 'fuse':
        return step(it, S, sub_place(pl, 'inner'), c.sub('fu'), back)
    if kind == 'take' and back:
        n = it_len(it, S, sub_place(pl, 'inner'), c)
        at = shortened(it, S, sub_place(pl, 'inner'))
        if n is None or at is None:
            return [('item', S, ('unk', 'take_back')), ('done', S)]
        out = []
        for pol, S2 in it.branch(S, lt(g['n'], n)):
            S2 = S2.copy()
            if pol:
                it.write(S2, at[1], add(it.read(S2, at[0]), g['n']))
            for o in step(it, S2, sub_place(pl, 'inner'), c.sub('t'), True):
                if o[0] == 'item':
                    S3 = o[1].copy()
                    it.write(S3, sub_place(pl, 'n'), sub(it.read(S3, at[1]), it.read(S3, at[0])))
                    o = ('item', S3, o[2])
                out.append(o)
        return out
    if kind == 'take':
        out = []
        for pol, S2 in split_lt(it, S, I(0), g['n']):
            if pol:
                S2 = S2.copy()
                it.write(S2, sub_place(pl, 'n'), sub(g['n'], I(1)))
                out.extend(step(it, S2, sub_place(pl, 'inner'), c.sub('t'), back))
            else:
                out.append(('done', S2))
        return out
    if kind == 'step_by':
        out = []
        for o in step(it, S, sub_place(pl, 'inner'), c.sub('sb'), back):
            if back and o[0] != 'done':
                o = ('item', o[1], ('unk', 'step_back'))
            elif o[0] == 'item':
                at = sub_place(sub_place(pl, 'inner'), 'start' if is_range(g['inner']) else 'i')
                S2 = o[1].copy()
                it.write(S2, at, add(it.read(S2, at), sub(g['k'], I(1))))
                o = ('item', S2, o[2])
            out.append(o)
        return out
    if kind == 'peekable':
        p = it.read(S, sub_place(pl, 'p'))
        if p == NONE or p[0] != 'agg':
            if p != NONE:
                return [('item', S, ('unk', 'peek'))]
            return step(it, S, sub_place(pl, 'inner'), c.sub('pk'), back)
        S = S.copy()
        it.write(S, sub_place(pl, 'p'), NONE)
        inner = p[3][0]
        out = []
        for pol, w, S2 in cases(it, S, inner):
            out.append(('item', S2, w) if pol else ('done', S2))
        return out
    return [('item', S, ('unk', 'iter:' + kind)), ('done', S)]


def is_range(v):
    return v[0] == 'agg' and v[1][:2] == ('adt', 'Range')


def shortened(it, S, pl):
    """Places of the front and the end of what the iterator at the place goes over."""
    v = it.read(S, pl)
    if v[0] == 'ref':
        return None
    if is_range(v):
        return sub_place(pl, 'start'), sub_place(pl, 'end')
    if is_it(v) and v[1][1] in ('ref', 'val', 'windows'):
        return sub_place(pl, 'i'), sub_place(pl, 'e')
    if is_it(v) and v[1][1] in ('map', 'cloned', 'copied', 'fuse', 'inspect', 'enumerate'):
        return shortened(it, S, sub_place(pl, 'inner'))
    return None


def skipped(it, S, v, k):
    """The iterator without its first k items: [(S, iterator)], None when that is unknown."""
    if is_range(v):
        g = {'i': v[3][0], 'e': v[3][1]}
        make = lambda g2: range_it(g2['i'], g2['e'])
    elif is_it(v) and v[1][1] in ('ref', 'val', 'windows'):
        g = dict(zip(v[2], v[3]))
        make = lambda g2: ('agg', v[1], v[2], tuple(g2[n] for n in v[2]))
    elif is_it(v) and v[1][1] in ('cloned', 'copied', 'fuse', 'enumerate'):
        w = dict(zip(v[2], v[3]))
        r = skipped(it, S, w['inner'], k)
        out = []
        for S2, x in r or ():
            w2 = dict(w, inner=x)
            if 'n' in w:
                w2['n'] = add(w['n'], k)
            out.append((S2, ('agg', v[1], v[2], tuple(w2[n] for n in v[2]))))
        return out if r is not None else None
    else:
        return None
    out = []
    for pol, S2 in it.branch(S, le(k, sub(g['e'], g['i']))):
        out.append((S2, make(dict(g, i=add(g['i'], k) if pol else g['e']))))
    return out


def step_local(it, S, pl, v, c, back):
    found = it.impl_for_tag('std::iter::Iterator' if not back else 'std::iter::DoubleEndedIterator', v[1][1])
    if not found:
        return [('item', S, ('unk', 'iter:' + v[1][1])), ('done', S)]
    item = next(i for i in found[0]['items'] if i['n'] == ('next_back' if back else 'next'))
    out = []
    for o in it.inline(c.fr, S, it.F.bodies[item['id']], [('ref', pl, True)], c.sub('next:' + item['id']), {}):
        if o[0] != 'ret':
            out.append(o)
            continue
        for pol, w, S2 in cases(it, o[1], o[2]):
            out.append(('item', S2, w) if pol else ('done', S2))
    return out


def it_len(it, S, pl, c):
    """Exact number of items left, or None."""
    v = it.read(S, pl)
    if v[0] == 'ref':
        return it_len(it, S, v[1], c)
    if v[0] == 'agg' and v[1][0] == 'adt' and v[1][1] == 'Range':
        lo, hi = v[3]
        return satsub(it, S, hi, lo)
    if v[0] == 'agg' and v[1][0] == 'adt':
        found = it.impl_for_tag('std::iter::ExactSizeIterator', v[1][1])
        if found:
            item = next((i for i in found[0]['items'] if i['n'] == 'len'), None)
            if item:
                outs = [o for o in it.inline(c.fr, S, it.F.bodies[item['id']], [('ref', pl, False)], c.sub('len:' + item['id']), {}) if o[0] == 'ret']
                if len(outs) == 1:
                    return outs[0][2]
        return None
    if not is_it(v):
        return mklen(('app', 'items', v))
    g = dict(zip(v[2], v[3]))
    k = v[1][1]
    if k in ('ref', 'val'):
        return sub(g['e'], g['i'])
    if k in ('map', 'cloned', 'copied', 'enumerate', 'rev', 'fuse', 'inspect'):
        return it_len(it, S, sub_place(pl, 'inner'), c)
    if k == 'empty':
        return I(0)
    if k == 'once':
        return sub(I(1), g['i'])
    if k == 'zip':
        a, b = it_len(it, S, sub_place(pl, 'a'), c), it_len(it, S, sub_place(pl, 'b'), c)
        return mkapp('min', a, b) if a is not None and b is not None else None
    if k == 'chain':
        a, b = it_len(it, S, sub_place(pl, 'a'), c), it_len(it, S, sub_place(pl, 'b'), c)
        return add(a, b) if a is not None and b is not None else None
    if k == 'take':
        a = it_len(it, S, sub_place(pl, 'inner'), c)
        return mkapp('min', a, g['n']) if a is not None else None
    if k == 'windows':
        return sub(g['e'], g['i'])
    return None


def satsub(it, S, a, b):
    d = sub(a, b)
    if d[0] == 'int':
        return I(max(0, d[1]))
    if it.holds(S, le(b, a)):
        return d
    return mkapp('satsub', a, b)


def drive(it, S, iterv, c, tag, acc, on_item, on_done, inplace=None):
    """Run an iterator to its end: on_item(S, x) -> [('back'|..., S, ...)], on_done(S) -> outcomes."""
    S = S.copy()
    if inplace is not None:
        pl = inplace
    else:
        root = c.tmp(tag + ':it')
        S.mem[root] = iterv
        pl = (root, ())
    for r, v in acc.items():
        S.mem[r] = v
    lid = c.lid(tag)

    def body(S1):
        out = []
        for o in step(it, S1, pl, c.sub(tag + ':st')):
            if o[0] == 'item':
                out.extend(on_item(o[1], o[2]))
            elif o[0] == 'done':
                out.extend(on_done(o[1]))
            elif o[0] == 'skip':
                out.append(('back', o[1]))
            else:
                out.append(o)
        return out
    outs = it.run_loop(lid, S, body)
    res = []
    for o in outs:
        S2 = o[1].copy()
        if inplace is None:
            S2.mem.pop(c.tmp(tag + ':it'), None)
        for r in acc:
            S2.mem.pop(r, None)
        res.append((o[0], S2) + tuple(o[2:]))
    return res


def callk(it, f, args, c, tag, k):
    def run(S):
        out = []
        for o in it.call_value(S, f, args, c.sub(tag)):
            if o[0] == 'ret':
                out.extend(k(o[1], o[2]))
            else:
                out.append(o)
        return out
    return run


def collect_seq(it, S, iterv, c, tag='collect', init=EMPTY, k=None):
    """Outcomes of collecting into a sequence."""
    v = it.deref(S, iterv) if iterv[0] == 'ref' else iterv
    if is_it(v) and v[1][1] == 'val' and iterv[0] != 'ref':
        g = dict(zip(v[2], v[3]))
        s = mkconcat(init, mksub(g['s'], g['i'], g['e']))
        return k(S, s) if k else ret(S, s)
    root = c.tmp(tag + ':acc')

    def on_item(S1, x):
        S1 = S1.copy()
        S1.mem[root] = mkpush(S1.mem[root], x)
        return [('back', S1)]
    outs = drive(it, S, iterv, c, tag, {root: init}, on_item, lambda S1: [('ret', S1, S1.mem[root])])
    if k is None:
        return outs
    res = []
    for o in outs:
        if o[0] == 'ret':
            res.extend(k(o[1], o[2]))
        else:
            res.append(o)
    return res


def collect(it, S, iterv, ty, c, tag='collect'):
    """iterator.collect::<ty>()"""
    F = it.F
    if ty['k'] == 'adt' and ty['id'] in F.adts:
        found = F.find_impl('std::iter::FromIterator', ty)
        if found:
            item = next(i for i in found[0]['items'] if i['n'] == 'from_iter')
            return it.inline(c.fr, S, F.bodies[item['id']], [iterv], c.sub(tag), found[1])
    if seq_like(ty):
        return collect_seq(it, S, iterv, c, tag)
    name = short(ty)
    args = [t for t in ty['a'] if t['k'] != 'region'] if ty['k'] == 'adt' else []
    if name in ('Result', 'Option') and args and seq_like(args[0]) and iterv[0] != 'ref':
        # up to the first item that is not a good one
        root = c.tmp(tag + ':acc')
        good, bad = ENUMS[name]

        def on_item(S1, x):
            out = []
            for pol, p, S2 in cases(it, S1, x, name):
                if pol:
                    S2 = S2.copy()
                    S2.mem[root] = mkpush(S2.mem[root], p)
                    out.append(('back', S2))
                else:
                    out.append(('ret', S2, NONE if name == 'Option' else ('agg', ('adt', 'Result', bad), ('0',), (p,))))
            return out
        return drive(it, S, iterv, c, tag, {root: EMPTY}, on_item, lambda S1: [('ret', S1, ('agg', ('adt', name, good), ('0',), (S1.mem[root],)))])
    if name in ('HashSet', 'BTreeSet', 'HashMap', 'BTreeMap'):
        return collect_seq(it, S, iterv, c, tag, k=lambda S1, s: ret(S1, ('app', 'collect:' + name, s)))
    return collect_seq(it, S, iterv, c, tag, k=lambda S1, s: ret(S1, ('unk', 'collect:' + name, s)))


CONSUMERS = {'rfind', 'rfold', 'nth_back', 'all', 'any', 'find', 'find_map', 'position', 'fold', 'for_each', 'count', 'collect', 'last', 'nth', 'sum', 'max', 'min', 'try_fold', 'rposition', 'partition', 'unzip', 'max_by_key', 'min_by_key'}
ADAPTERS = {'map', 'filter', 'filter_map', 'enumerate', 'zip', 'chain', 'rev', 'take', 'skip', 'cloned', 'copied', 'fuse', 'inspect', 'take_while', 'map_while', 'skip_while', 'peekable', 'by_ref', 'step_by', 'flat_map', 'scan'}


def iter_method(it, S, name, a, c):
    """Methods of Iterator / DoubleEndedIterator / ExactSizeIterator."""
    v = a[0]
    if v[0] == 'agg' and v[1][:2] == ('adt', 'RangeInclusive'):
        v = range_it(v[3][0], add(v[3][1], I(1)))
    if name in ('next', 'next_back'):
        pl = it.place_of(v)
        out = []
        skips = []
        for o in step(it, S, pl, c, name == 'next_back'):
            if o[0] == 'item':
                out.append(('ret', o[1], some(o[2])))
            elif o[0] == 'done':
                out.append(('ret', o[1], NONE))
            elif o[0] == 'skip':
                skips.append(o)
            else:
                out.append(o)
        if skips and not it.at_header(c):
            # the items passed over form an inner loop
            return drive(it, S, None, c, 'next', {}, lambda S1, x: [('ret', S1, some(x))], lambda S1: ret(S1, NONE), inplace=pl)
        return out + skips
    if name == 'by_ref':
        return ret(S, v)
    if name in ADAPTERS:
        if name in ('map', 'filter', 'filter_map', 'inspect', 'take_while', 'map_while', 'skip_while'):
            return ret(S, itv(name, inner=v, f=a[1]))
        if name == 'enumerate':
            return ret(S, itv('enumerate', inner=v, n=I(0)))
        if name in ('zip', 'chain'):
            t = c.targs[1] if len(c.targs) > 1 else {'k': 'other', 'n': '?'}
            out = []
            for o in into_iter(it, S, a[1], t, c):
                out.append(('ret', o[1], itv(name, a=v, b=o[2])) if o[0] == 'ret' else o)
            return out
        if name == 'rev':
            if is_it(v) and v[1][1] == 'take':
                # settle where the reversed part starts
                w, g = c.tmp('rt'), dict(zip(v[2], v[3]))
                S1 = S.copy()
                S1.mem[w] = g['inner']
                n, at = it_len(it, S1, (w, ()), c), shortened(it, S1, (w, ()))
                if n is not None and at is not None:
                    out = []
                    for pol, S2 in it.branch(S1, lt(g['n'], n)):
                        S2 = S2.copy()
                        if pol:
                            it.write(S2, at[1], add(it.read(S2, at[0]), g['n']))
                        x = S2.mem.pop(w)
                        out += ret(S2, itv('rev', inner=x))
                    return out
            return ret(S, itv('rev', inner=v))
        if name == 'take':
            w = c.tmp('tk')
            S2 = S.copy()
            it.write(S2, (w, ()), v)
            n = it_len(it, S2, (w, ()), c)
            if a[1] == I(2 ** 64 - 1) or n is not None and it.holds(S, le(n, a[1])):
                return ret(S, v)  # nothing is cut off
            return ret(S, itv('take', inner=v, n=a[1]))
        if name == 'skip':
            r = skipped(it, S, v, a[1])
            return [('ret',) + o for o in r] if r is not None else ret(S, ('unk', 'skip', v, a[1]))
        if name == 'step_by' and a[1][0] == 'int' and a[1][1] > 0 and (is_it(v) and v[1][1] in ('ref', 'val', 'windows') or is_range(v)):
            return ret(S, itv('step_by', inner=v, k=a[1]))
        if name in ('cloned', 'copied'):
            return ret(S, itv('cloned', inner=v))
        if name == 'fuse':
            return ret(S, itv('fuse', inner=v))
        if name == 'peekable':
            return ret(S, itv('peekable', inner=v, p=NONE))
        return ret(S, ('unk', 'iter:' + name, v))
    if name in ('rfind', 'rfold', 'rposition', 'nth_back'):
        if name == 'rposition':
            w = c.tmp('rp')
            S1 = S.copy()
            S1.mem[w] = v
            n = it_len(it, S1, (w, ()), c)
            if n is None:
                return it.unknown(S, 'iter:' + name, a, c)
        v = itv('rev', inner=v)
        a = [v] + list(a[1:])
        back = name
        name = {'nth_back': 'nth'}.get(name, name[1:])
        if back == 'rposition':
            return [(o[0], o[1], some(sub(sub(n, I(1)), o[2][3][0]))) if o[0] == 'ret' and o[2][0] == 'agg' and o[2][3] else o for o in iter_method(it, S, 'position', a, c)]
    inplace = it.place_of(v) if v[0] == 'ref' else None
    if name == 'all' or name == 'any':
        stop = name == 'any'

        def on_item(S1, x):
            out = []
            for o in it.call_value(S1, a[1], [x], c.sub('p')):
                if o[0] != 'ret':
                    out.append(o)
                    continue
                for pol, S2 in it.split_bool(o[1], o[2]):
                    out.append(('ret', S2, TRUE if stop else FALSE) if pol == stop else ('back', S2))
            return out
        f0 = c.tmp('pred')
        a = list(a)
        pred = a[1]
        if pred[0] == 'agg':
            a[1] = ('ref', (f0, ()), True)
            return drive(it, S, v, c, name, {f0: pred}, on_item, lambda S1: ret(S1, FALSE if stop else TRUE), inplace)
        return drive(it, S, v, c, name, {}, on_item, lambda S1: ret(S1, FALSE if stop else TRUE), inplace)
    if name in ('find', 'find_map', 'position'):
        f0, n0 = c.tmp('pred'), c.tmp('pos')
        fr_ = ('ref', (f0, ()), True)

        def on_item(S1, x):
            out = []
            arg = x
            if name == 'find':
                S1 = S1.copy()
                S1.mem[c.tmp('fi')] = x
                arg = ('ref', (c.tmp('fi'), ()), False)
            for o in it.call_value(S1, fr_, [arg], c.sub('p')):
                if o[0] != 'ret':
                    out.append(o)
                    continue
                S2 = o[1].copy()
                S2.mem.pop(c.tmp('fi'), None)
                if name == 'find_map':
                    for pol, w, S3 in cases(it, S2, o[2]):
                        out.append(('ret', S3, some(w)) if pol else ('back', S3))
                    continue
                for pol, S3 in it.split_bool(S2, o[2]):
                    if pol:
                        out.append(('ret', S3, some(x) if name == 'find' else some(S3.mem[n0])))
                    else:
                        S3 = S3.copy()
                        S3.mem[n0] = add(S3.mem[n0], I(1))
                        out.append(('back', S3))
            return out
        return drive(it, S, v, c, name, {f0: a[1], n0: I(0)}, on_item, lambda S1: ret(S1, NONE), inplace)
    if name in ('fold', 'for_each'):
        f0, acc = c.tmp('pred'), c.tmp('acc')
        fr_ = ('ref', (f0, ()), True)
        f = a[2] if name == 'fold' else a[1]
        init = a[1] if name == 'fold' else UNIT

        def on_item(S1, x):
            out = []
            args = [S1.mem[acc], x] if name == 'fold' else [x]
            for o in it.call_value(S1, fr_, args, c.sub('p')):
                if o[0] != 'ret':
                    out.append(o)
                    continue
                S2 = o[1].copy()
                if name == 'fold':
                    S2.mem[acc] = o[2]
                out.append(('back', S2))
            return out
        return drive(it, S, v, c, name, {f0: f, acc: init}, on_item, lambda S1: ret(S1, S1.mem[acc]), inplace)
    if name in ('count', 'sum', 'last', 'max', 'min'):
        acc = c.tmp('acc')
        init = {'count': I(0), 'sum': I(0), 'last': NONE}.get(name, NONE)

        def on_item(S1, x):
            S2 = S1.copy()
            if name == 'count':
                S2.mem[acc] = add(S2.mem[acc], I(1))
            elif name == 'last':
                S2.mem[acc] = some(x)
            elif name == 'sum':
                S2.mem[acc] = add(S2.mem[acc], it.deref(S2, x))
            else:
                if x[0] == 'ref' or not linear.numeric(x):
                    S2.mem[acc] = ('unk', name)
                    return [('back', S2)]
                out = []
                for pol, p, S3 in cases(it, S2, S2.mem[acc]):
                    S3 = S3.copy()
                    S3.mem[acc] = some(minmax(it, S3, name, p, x) if pol else x)
                    out.append(('back', S3))
                return out
            return [('back', S2)]
        if name == 'count':
            S1 = S.copy()
            S1.mem[c.tmp('cn')] = v
            n = it_len(it, S1, (c.tmp('cn'), ()), c)
            if n is not None:
                return ret(S, n)
        return drive(it, S, v, c, name, {acc: init}, on_item, lambda S1: ret(S1, S1.mem[acc]), inplace)
    if name == 'nth':
        w = it.deref(S, v)
        if is_it(w) and w[1][1] in ('ref', 'val'):
            g = dict(zip(w[2], w[3]))
            pl = it.place_of(v)
            out = []
            for pol, S2 in it.branch(S, lt(a[1], sub(g['e'], g['i']))):
                S2 = S2.copy()
                if pol:
                    it.write(S2, sub_place(pl, 'i'), add(g['i'], a[1]))
                    for o in step(it, S2, pl, c):
                        if o[0] == 'item':
                            out.append(('ret', o[1], some(o[2])))
                else:
                    it.write(S2, sub_place(pl, 'i'), g['e'])
                    out.append(('ret', S2, NONE))
            return out
        if a[1][0] == 'int' and 0 <= a[1][1] <= 3 and inplace is not None:
            live, out, plain = [S], [], True
            for k in range(a[1][1] + 1):
                nxt = []
                for S1 in live:
                    for o in step(it, S1, inplace, c.sub('nth%d' % k)):
                        if o[0] == 'item':
                            if k == a[1][1]:
                                out.append(('ret', o[1], some(o[2])))
                            else:
                                nxt.append(o[1])
                        elif o[0] == 'done':
                            out.append(('ret', o[1], NONE))
                        elif o[0] == 'skip':
                            plain = False
                        else:
                            out.append(o)
                live = nxt
            if plain:
                return out
        n0 = c.tmp('pos')

        def on_item(S1, x):
            out = []
            for pol, S2 in it.branch(S1, eq(S1.mem[n0], a[1])):
                if pol:
                    out.append(('ret', S2, some(x)))
                else:
                    S2 = S2.copy()
                    S2.mem[n0] = add(S2.mem[n0], I(1))
                    out.append(('back', S2))
            return out
        return drive(it, S, v, c, name, {n0: I(0)}, on_item, lambda S1: ret(S1, NONE), inplace)
    if name == 'collect':
        t = c.targs[1] if len(c.targs) > 1 else c.dty
        if v[0] == 'sym' and c.targs and c.targs[0]['k'] == 'param':
            v = opaque_iter(v)
        return collect(it, S, v, t, c)
    if name in ('len', 'size_hint'):
        pl = it.place_of(v)
        w = it.read(S, pl)
        if name == 'size_hint' and w[0] == 'agg' and w[1][0] == 'adt' and w[1][1] != 'Range':
            return ret(S, ('unk', 'size_hint', w))
        n = it_len(it, S, pl, c)
        if name == 'len':
            if n is not None and n[0] == 'app' and n[1] == 'satsub':
                out = []
                for ok, S2 in it.branch(S, le(n[3], n[2])):
                    out += ret(S2, sub(n[2], n[3]) if ok else I(0))
                return out
            return ret(S, n) if n is not None else it.unknown(S, 'len', a, c)
        if n is None or not is_it(w) and not (w[0] == 'agg'):
            w = it.strip(S, w)
            lo = U(('app', 'hint_lo', w))
            return ret(S, tup(lo, ('app', 'hint_hi', w)))
        x = it.strip(S, w)
        src = dict(zip(x[2], x[3])).get('s') if is_it(x) else None
        if src is not None and src[0] == 'app' and src[1] == 'items':
            # an iterator of the caller: its hint is a bound, often (0, None)
            lo, hi = U(('app', 'hint_lo', x)), U(('app', 'hint_hi', x))
            S2 = it.assume(S, le(lo, n))
            S3 = it.assume(S2, le(n, hi))
            return ret(S2, tup(lo, NONE)) + (ret(S3, tup(lo, some(hi))) if S3 is not None else [])
        return ret(S, tup(n, some(n)))
    if name == 'is_empty':
        n = it_len(it, S, it.place_of(v), c)
        return ret(S, eq(n, I(0))) if n is not None else it.unknown(S, name, a, c)
    if name in ('eq',):
        return it.unknown(S, 'iter_eq', a, c)
    return it.unknown(S, 'iter:' + name, a, c)


# ---- slices -------------------------------------------------------------------

def seq_place(it, S, v):
    """Place and value of the sequence a reference designates."""
    pl = it.place_of(v)
    s = it.read(S, pl)
    n = 0
    while s[0] == 'ref' and n < 5:
        pl = s[1]
        s = it.read(S, pl)
        n += 1
    return pl, s


def index_range(it, ix, n):
    """(lo, hi) of a range index over a sequence of length n, or None for a plain index."""
    if ix[0] == 'agg' and ix[1][0] == 'adt':
        t = ix[1][1]
        if t == 'Range':
            return ix[3][0], ix[3][1]
        if t == 'RangeFrom':
            return ix[3][0], n
        if t == 'RangeTo':
            return I(0), ix[3][0]
        if t == 'RangeFull':
            return I(0), n
        if t == 'RangeInclusive':
            return ix[3][0], add(ix[3][1], I(1))
        if t == 'RangeToInclusive':
            return I(0), add(ix[3][0], I(1))
    return None


def index_type(c, i=1):
    t = c.targs[i] if len(c.targs) > i else None
    return short(t) if t is not None and t['k'] == 'adt' else None


def norm_ix(it, S, ix, tname):
    if tname in ('Range',) and not (ix[0] == 'agg'):
        return range_it(U(proj(ix, ('f', 'start'))), U(proj(ix, ('f', 'end'))))
    return ix


def elem_ref(pl, e, mut):
    return ('ref', norm_place((pl[0], pl[1] + (e,))), mut)


def slice_get(it, S, recv, ix, c, mode, mut, tname=None):
    """mode: 'opt' (get), 'unchecked', 'index' (panics)"""
    pl, s = seq_place(it, S, recv)
    n = mklen(s)
    ix = norm_ix(it, S, ix, tname)
    r = index_range(it, ix, n)
    if r is None and ix[0] == 'agg':
        return it.unknown(S, 'index', [recv, ix], c)
    if r is None:
        U(ix)
        conds = [lt(ix, n)]
        if not it.unsigned_val(ix):
            conds = [le(I(0), ix)] + conds
        e = ('idx', ix)
    else:
        lo, hi = r
        U(lo)
        U(hi)
        conds = [le(lo, hi), le(hi, n)]
        e = ('sub', lo, hi)
        if lo == I(0) and hi == n:
            e = None
    v = ('ref', pl, mut) if e is None else elem_ref(pl, e, mut)
    if mode == 'unchecked':
        for f in invariants(it, S, conds):
            S2 = it.assume(S, ('lit',) + tuple(f))
            if S2 is not None:
                S = S2
        it.oblige('unchecked', S, conds, c, recv=it.strip(S, recv))
        S2 = S
        for t in conds:
            if S2 is not None:
                S2 = it.assume(S2, t)
        return ret(S2, v) if S2 is not None else []
    out = []
    S2 = S
    for t in conds:
        if S2 is None:
            break
        bad = it.assume(S2, t, False)
        if bad is not None:
            out.append(('panic', bad, 'index out of bounds') if mode == 'index' else ('ret', bad, NONE))
        S2 = it.assume(S2, t)
    if S2 is not None:
        out.append(('ret', S2, some(v) if mode == 'opt' else v))
    return out


def invariants(it, S, conds):
    """Type invariants of the local structures mentioned in the conditions."""
    return it.invariant(S, conds) if it.invariant else []


def slice_method(it, S, name, a, c):
    recv = a[0]
    if name in ('len', 'is_empty'):
        pl, s = seq_place(it, S, recv)
        n = mklen(s)
        return ret(S, n if name == 'len' else eq(n, I(0)))
    if name in ('iter', 'iter_mut'):
        pl, s = seq_place(it, S, recv)
        return ret(S, itv('ref', s=('ref', pl, name == 'iter_mut'), i=I(0), e=mklen(s)))
    if name in ('first', 'last', 'first_mut', 'last_mut'):
        pl, s = seq_place(it, S, recv)
        n = mklen(s)
        out = []
        for pol, S2 in it.branch(S, eq(n, I(0))):
            if pol:
                out += ret(S2, NONE)
            else:
                i = I(0) if name.startswith('first') else sub(n, I(1))
                out += ret(S2, some(elem_ref(pl, ('idx', i), name.endswith('mut'))))
        return out
    if name in ('split_first', 'split_last', 'split_first_mut', 'split_last_mut'):
        pl, s = seq_place(it, S, recv)
        n = mklen(s)
        mut = name.endswith('mut')
        out = []
        for pol, S2 in it.branch(S, eq(n, I(0))):
            if pol:
                out += ret(S2, NONE)
            elif 'first' in name:
                out += ret(S2, some(tup(elem_ref(pl, ('idx', I(0)), mut), elem_ref(pl, ('sub', I(1), n), mut))))
            else:
                m = sub(n, I(1))
                out += ret(S2, some(tup(elem_ref(pl, ('idx', m), mut), elem_ref(pl, ('sub', I(0), m), mut))))
        return out
    if name in ('as_ptr', 'as_mut_ptr'):
        pl, s = seq_place(it, S, recv)
        return ret(S, elem_ref(pl, ('idx', I(0)), name == 'as_mut_ptr'))
    if name in ('get', 'get_mut', 'get_unchecked', 'get_unchecked_mut'):
        return slice_get(it, S, recv, a[1], c, 'unchecked' if 'unchecked' in name else 'opt', name.endswith('mut'), index_type(c))
    if name in ('index', 'index_mut'):
        return slice_get(it, S, recv, a[1], c, 'index', name.endswith('mut'), index_type(c))
    if name == 'windows':
        pl, s = seq_place(it, S, recv)
        n = mklen(s)
        w = a[1]
        out = []
        for pol, S2 in it.branch(S, le(w, n)):
            e = add(sub(n, w), I(1)) if pol else I(0)
            out += ret(S2, itv('windows', s=('ref', pl, False), i=I(0), e=e, w=w))
        return out
    if name in ('sort', 'sort_unstable', 'sort_by_key', 'sort_unstable_by_key', 'sort_by', 'sort_unstable_by', 'sort_by_cached_key'):
        pl, s = seq_place(it, S, recv)
        k = sort_key(it, S, name, a, s, c)
        S = S.copy()
        it.write(S, pl, ('sorted', s) + k)
        return ret(S, UNIT)
    if name == 'reverse':
        pl, s = seq_place(it, S, recv)
        S = S.copy()
        it.write(S, pl, ('rev', s))
        return ret(S, UNIT)
    if name in ('to_vec', 'into_vec', 'to_owned', 'clone'):
        pl, s = seq_place(it, S, recv)
        return ret(S, s)
    if name in ('as_slice', 'as_mut_slice', 'as_ref', 'as_mut'):
        return ret(S, recv)
    if name == 'contains':
        pl, s = seq_place(it, S, recv)
        y = it.strip(S, a[1])

        def on_item(S1, x):
            out = []
            for pol, S2 in it.split_bool(S1, equal(it, S1, it.strip(S1, x), y, True)):
                out.append(('ret', S2, TRUE) if pol else ('back', S2))
            return out
        return drive(it, S, itv('ref', s=('ref', pl, False), i=I(0), e=mklen(s)), c, 'any', {}, on_item, lambda S1: ret(S1, FALSE))
    if name in ('get_disjoint_mut', 'get_disjoint_unchecked_mut', 'get_many_mut'):
        pl, s = seq_place(it, S, recv)
        ind = a[1]
        n = mklen(ind)
        iv = ('sym', 'i:')
        refs = mkbuild(n, iv, elem_ref(pl, ('idx', mkidx(ind, iv)), True)) if n[0] != 'int' or ind[0] != 'agg' else \
            agg(('array',), [str(i) for i in range(n[1])], [elem_ref(pl, ('idx', mkidx(ind, I(i))), True) for i in range(n[1])])
        if 'unchecked' in name:
            it.oblige('unchecked', S, [mklit(('b', ('app', 'disjoint', ind, mklen(s))), True)], c)
            return ret(S, refs)
        out = []
        for pol, S2 in it.branch(S, mklit(('b', ('app', 'disjoint', ind, mklen(s))), True)):
            out += ret(S2, okv(refs) if pol else errv(('sym', 'GetDisjointMutError')))
        return out
    if name in ('split_at', 'split_at_mut'):
        pl, s = seq_place(it, S, recv)
        n = mklen(s)
        m = name.endswith('mut')
        out = []
        for pol, S2 in it.branch(S, le(a[1], n)):
            out.append(('ret', S2, tup(elem_ref(pl, ('sub', I(0), a[1]), m), elem_ref(pl, ('sub', a[1], n), m))) if pol else ('panic', S2, 'split_at'))
        return out
    if name == 'fill':
        pl, s = seq_place(it, S, recv)
        S = S.copy()
        it.write(S, pl, ('repeat', a[1], mklen(s)))
        return ret(S, UNIT)
    if name in ('swap', 'rotate_left', 'rotate_right', 'select_nth_unstable', 'select_nth_unstable_by_key', 'select_nth_unstable_by'):
        pl, s = seq_place(it, S, recv)
        n = mklen(s)
        within = [le(a[1], n)] if name.startswith('rotate') else [lt(x, n) for x in (a[1:3] if name == 'swap' else a[1:2])]
        S, out = bounded(it, S, within)
        if S is not None:
            S = S.copy()
            it.write(S, pl, ('reorder', s))
            out += ret(S, UNIT)
        return out
    return None


def bounded(it, S, within):
    """The state in which all of the tests hold (None: none), and the panics of where one of them fails."""
    out = []
    for t in within:
        go = None
        for pol, S2 in it.split_bool(S, t):
            if pol:
                go = S2
            else:
                out.append(('panic', S2, 'index out of bounds'))
        if go is None:
            return None, out
        S = go
    return S, out


def sort_key(it, S, name, a, s, c):
    """('key', term over the item symbol, descending) describing the order, or ('unk',)"""
    x = ('sym', 'item')
    y = ('sym', 'item2')
    if name in ('sort', 'sort_unstable'):
        return (x, I(0))
    mark, em = len(it.obls), len(it.events)
    if 'key' in name:
        outs = it.call_value(S, a[1], [('ref', (('ext', x), ()), False)], c.sub('key'))
        outs = [o for o in outs if o[0] == 'ret']
        if len(outs) == 1:
            return (it.strip(outs[0][1], outs[0][2]), I(0))
    else:
        outs = it.call_value(S, a[1], [('ref', (('ext', x), ()), False), ('ref', (('ext', y), ()), False)], c.sub('key'))
        outs = [o for o in outs if o[0] == 'ret']
        if len(outs) == 1:
            v = outs[0][2]
            if v[0] == 'app' and v[1] == 'cmp':
                p, q = v[2], v[3]
                if subst(p, {x: y}) == q and y not in subterms(p):
                    return (p, I(0))
                if subst(q, {x: y}) == p and y not in subterms(q):
                    return (q, I(1))
    return (('unk', 'sortkey'), I(0))


VEC = {'push', 'pop', 'clear', 'truncate', 'resize', 'resize_with', 'extend_from_slice', 'append', 'insert', 'remove', 'swap_remove', 'reserve', 'shrink_to_fit', 'drain', 'into_boxed_slice', 'dedup', 'dedup_by_key', 'dedup_by', 'retain', 'retain_mut', 'capacity', 'reserve_exact', 'leak', 'into_vec', 'reverse', 'split_off'}


def vec_method(it, S, name, a, c):
    if name in ('new', 'with_capacity') and not (a and a[0][0] == 'ref'):
        return ret(S, EMPTY)
    if name == 'into_boxed_slice' or name in ('into_vec',):
        return ret(S, a[0])
    r = None
    if name not in VEC:
        r = slice_method(it, S, name, a, c)
        return r
    pl, s = seq_place(it, S, a[0])
    n = mklen(s)
    if name == 'push':
        S = S.copy()
        it.write(S, pl, mkpush(s, a[1]))
        return ret(S, UNIT)
    if name == 'pop':
        out = []
        for pol, S2 in it.branch(S, eq(n, I(0))):
            if pol:
                out += ret(S2, NONE)
            else:
                S2 = S2.copy()
                i = sub(n, I(1))
                x = mkidx(s, i)
                it.write(S2, pl, mksub(s, I(0), i) if s[0] != 'push' else s[1])
                out += ret(S2, some(x))
        return out
    if name == 'clear':
        S = S.copy()
        it.write(S, pl, EMPTY)
        return ret(S, UNIT)
    if name in ('reserve', 'shrink_to_fit', 'reserve_exact'):
        return ret(S, UNIT)
    if name == 'capacity':
        return ret(S, U(('app', 'capacity', s)))
    if name == 'truncate':
        out = []
        for pol, S2 in it.branch(S, lt(a[1], n)):
            if pol:
                S2 = S2.copy()
                it.write(S2, pl, mksub(s, I(0), a[1]))
            out += ret(S2, UNIT)
        return out
    if name in ('resize', 'resize_with'):
        if s != EMPTY:
            return it.unknown(S, 'Vec::' + name, a, c)
        if name == 'resize':
            S = S.copy()
            it.write(S, pl, ('repeat', a[2], a[1]) if a[1][0] != 'int' or a[1][1] > 16 else agg(('array',), [str(i) for i in range(a[1][1])], [a[2]] * a[1][1]))
            return ret(S, UNIT)
        out = []
        for o in it.call_value(S, a[2], [], c.sub('fill')):
            if o[0] == 'ret':
                S2 = o[1].copy()
                it.write(S2, pl, ('repeat', o[2], a[1]))
                out += ret(S2, UNIT)
            else:
                out.append(o)
        return out
    if name == 'extend_from_slice':
        _, t = seq_place(it, S, a[1])
        S = S.copy()
        it.write(S, pl, mkconcat(s, t))
        return ret(S, UNIT)
    if name == 'append':
        pl2, t = seq_place(it, S, a[1])
        S = S.copy()
        it.write(S, pl, mkconcat(s, t))
        it.write(S, pl2, EMPTY)
        return ret(S, UNIT)
    if name == 'remove' and a[1] == sub(n, I(1)):
        return it.unknown(S, 'Vec::remove', a, c)
    if name == 'drain':
        S = S.copy()
        r = index_range(it, a[1], n)
        if r and r == (I(0), n):
            it.write(S, pl, EMPTY)
            return ret(S, itv('val', s=s, i=I(0), e=n))
    if name == 'reverse':
        S = S.copy()
        it.write(S, pl, ('rev', s))
        return ret(S, UNIT)
    if name in ('dedup', 'dedup_by_key', 'dedup_by', 'retain', 'retain_mut'):
        S = S.copy()
        r = ('app', name, s)
        it.write(S, pl, r)
        return ret(S, UNIT)
    if name in ('swap_remove', 'remove', 'insert'):
        S, out = bounded(it, S, [le(a[1], n) if name == 'insert' else lt(a[1], n)])
        if S is not None:
            S = S.copy()
            r = ('app', name, s, a[1])
            it.write(S, pl, r)
            out += ret(S, mkidx(s, a[1]) if name != 'insert' else UNIT)
        return out
    return it.unknown(S, 'Vec::' + name, a, c)


# ---- Option / Result ------------------------------------------------------------

def option_method(it, S, enum, name, a, c):
    first, second = ENUMS[enum]
    v = a[0]
    isres = enum == 'Result'
    out = []
    if name in ('is_some', 'is_ok', 'is_none', 'is_err', 'is_continue', 'is_break'):
        l = it.is_lit(it.deref(S, v), enum, first)
        return ret(S, l if name in ('is_some', 'is_ok', 'is_continue') else it.notv(l))
    if name in ('unwrap', 'expect'):
        for pol, p, S2 in cases(it, S, v, enum):
            out.append(('ret', S2, p) if pol else ('panic', S2, 'unwrap'))
        return out
    if name in ('unwrap_err', 'expect_err'):
        for pol, p, S2 in cases(it, S, v, enum):
            out.append(('ret', S2, p) if not pol else ('panic', S2, 'unwrap_err'))
        return out
    if name == 'unwrap_unchecked':
        l = it.is_lit(v, enum, first)
        it.oblige('unwrap_unchecked', S, [l], c)
        S2 = it.assume(S, l)
        return ret(S2, proj(v, ('vf', first, '0'))) if S2 is not None else []
    if name in ('as_ref', 'as_mut', 'as_deref', 'as_deref_mut'):
        for pol, p, S2 in cases(it, S, v, enum):
            if pol:
                out += ret(S2, enumv(enum, first, place_variant(it, S2, v, enum, first)))
            else:
                out += ret(S2, NONE if not isres else errv(place_variant(it, S2, v, enum, second)))
        return out
    if name in ('cloned', 'copied'):
        for pol, p, S2 in cases(it, S, v, enum):
            out += ret(S2, enumv(enum, first, it.deref(S2, p)) if pol else (NONE if not isres else errv(p)))
        return out
    if name in ('map', 'and_then', 'map_or', 'map_or_else', 'is_some_and', 'is_none_or', 'is_ok_and', 'inspect', 'filter'):
        f = a[-1]
        for pol, p, S2 in cases(it, S, v, enum):
            if name == 'map':
                if pol:
                    out += through(it, S2, f, [p], c, 'f', lambda S3, x: ret(S3, enumv(enum, first, x)))
                else:
                    out += ret(S2, NONE if not isres else errv(p))
            elif name == 'and_then':
                if pol:
                    out += through(it, S2, f, [p], c, 'f', ret)
                else:
                    out += ret(S2, NONE if not isres else errv(p))
            elif name == 'map_or':
                out += through(it, S2, f, [p], c, 'f', ret) if pol else ret(S2, a[1])
            elif name == 'map_or_else':
                out += through(it, S2, f, [p], c, 'f', ret) if pol else through(it, S2, a[1], [p] if isres else [], c, 'g', ret)
            elif name in ('is_some_and', 'is_ok_and'):
                out += through(it, S2, f, [p], c, 'f', ret) if pol else ret(S2, FALSE)
            elif name == 'is_none_or':
                out += through(it, S2, f, [p], c, 'f', ret) if pol else ret(S2, TRUE)
            elif name == 'inspect':
                out += ret(S2, v)
            elif name == 'filter':
                if not pol:
                    out += ret(S2, NONE)
                    continue
                S3 = S2.copy()
                S3.mem[c.tmp('of')] = p

                def fin(S4, b):
                    o2 = []
                    for q, S5 in it.split_bool(S4, b):
                        o2 += ret(S5, some(p) if q else NONE)
                    return o2
                out += through(it, S3, f, [('ref', (c.tmp('of'), ()), False)], c, 'f', fin)
        return out
    if name in ('unwrap_or', 'unwrap_or_else', 'unwrap_or_default'):
        for pol, p, S2 in cases(it, S, v, enum):
            if pol:
                out += ret(S2, p)
            elif name == 'unwrap_or':
                out += ret(S2, a[1])
            elif name == 'unwrap_or_else':
                out += through(it, S2, a[1], [p] if isres else [], c, 'f', ret)
            else:
                out += ret(S2, ('app', 'default', ('sym', ty_str(c.dty or {'k': 'prim', 'n': '?'}))))
        return out
    if name in ('or', 'or_else'):
        for pol, p, S2 in cases(it, S, v, enum):
            if pol:
                out += ret(S2, enumv(enum, first, p))
            elif name == 'or':
                out += ret(S2, a[1])
            else:
                out += through(it, S2, a[1], [p] if isres else [], c, 'f', ret)
        return out
    if name == 'and':
        for pol, p, S2 in cases(it, S, v, enum):
            out += ret(S2, a[1] if pol else (NONE if not isres else errv(p)))
        return out
    if name == 'xor':
        return it.unknown(S, 'Option::xor', a, c)
    if name in ('ok', 'err'):
        for pol, p, S2 in cases(it, S, v, enum):
            out += ret(S2, some(p) if pol == (name == 'ok') else NONE)
        return out
    if name in ('ok_or', 'ok_or_else'):
        for pol, p, S2 in cases(it, S, v, enum):
            if pol:
                out += ret(S2, okv(p))
            elif name == 'ok_or':
                out += ret(S2, errv(a[1]))
            else:
                out += through(it, S2, a[1], [], c, 'f', lambda S3, x: ret(S3, errv(x)))
        return out
    if name in ('map_err',):
        for pol, p, S2 in cases(it, S, v, enum):
            if pol:
                out += ret(S2, okv(p))
            else:
                out += through(it, S2, a[1], [p], c, 'f', lambda S3, x: ret(S3, errv(x)))
        return out
    if name == 'zip':
        for pol, p, S2 in cases(it, S, v, enum):
            if not pol:
                out += ret(S2, NONE)
                continue
            for q, r, S3 in cases(it, S2, a[1]):
                out += ret(S3, some(tup(p, r)) if q else NONE)
        return out
    if name in ('take', 'replace', 'insert', 'get_or_insert_with'):
        pl = it.place_of(v)
        old = it.read(S, pl)
        if name == 'take':
            S = S.copy()
            it.write(S, pl, NONE)
            return ret(S, old)
        if name == 'replace':
            S = S.copy()
            it.write(S, pl, some(a[1]))
            return ret(S, old)
    if name in ('iter',):
        for pol, p, S2 in cases(it, S, v, enum):
            out += ret(S2, itv('val', s=agg(('array',), ['0'], [place_variant(it, S2, v, enum, first)]) if pol else EMPTY, i=I(0), e=I(1 if pol else 0)))
        return out
    if name in ('unzip', 'flatten', 'transpose'):
        if name == 'flatten':
            for pol, p, S2 in cases(it, S, v, enum):
                out += ret(S2, p if pol else NONE)
            return out
    return it.unknown(S, enum + '::' + name, a, c)


def constructor(it, cal, args):
    """Value built by a tuple-struct or enum-variant constructor used as a function."""
    n = cal['fn']
    last = strip_generics(n).split('::')
    if len(last) >= 2:
        e, v = last[-2], last[-1]
        if (e, v) in (('Option', 'Some'), ('Result', 'Ok'), ('Result', 'Err'), ('ControlFlow', 'Break'), ('ControlFlow', 'Continue')):
            return enumv(e, v, *args)
    for a in it.F.adts.values():
        for vr in a['variants']:
            if cal['id'] == vr.get('ctor'):
                en = len(a['variants']) > 1 or a.get('enum')
                return agg(('adt', a['id'], vr['n'] if en else None), [f['n'] for f in vr['f']], args)
    p = strip_generics(n)
    for a in it.F.adts.values():
        for vr in a['variants']:
            if p.endswith(a['path'].split('::', 1)[-1] + '::' + vr['n']):
                return agg(('adt', a['id'], vr['n']), [f['n'] for f in vr['f']], args)
    return None


# ---- arithmetic -----------------------------------------------------------------

ARITH = {'Add': add, 'Sub': sub, 'Mul': mul}


def fits(it, S, v, ty):
    """[(ok, S')] whether the integer value fits the type."""
    if ty['k'] == 'prim' and ty['n'] in BITS:
        b = BITS[ty['n']]
        lo, hi = (0, (1 << b) - 1) if ty['n'] in PRIM_UNSIGNED else (-(1 << (b - 1)), (1 << (b - 1)) - 1)
        if v[0] == 'int':
            return [(lo <= v[1] <= hi, S)]
        if b < 64 and linear.entails_ge(S.facts, v):
            return it.branch(S, lt(v, I(hi + 1)))
    return it.branch(S, mklit(('b', ('app', 'fits', v, ('sym', ty_str(ty)))), True))


def prim_of(T):
    while T.get('k') == 'ref':
        T = T['t']
    return T.get('n') if T.get('k') == 'prim' else None


def num_method(it, S, tr, name, a, c):
    d = [it.strip(S, x) for x in a]
    T = c.targs[0] if c.targs else {'k': 'other', 'n': '?'}
    tn = ty_str(T)
    if tr in ARITH and name in ('add', 'sub', 'mul'):
        it.events.append(('arith', c.fr.body.path, c.span, tr, T, S.facts, d[0], d[1]))
        if tr == 'Sub' and prim_of(T) in PRIM_UNSIGNED and it.unsigned_val(d[0]) and it.unsigned_val(d[1]):
            out = []
            for pol, S2 in it.split_bool(S, le(d[1], d[0])):
                out += ret(S2, sub(d[0], d[1])) if pol else [('panic', S2, 'overflow')]
            return out
        return ret(S, ARITH[tr](d[0], d[1]))
    if tr in ('Rem', 'Div') and name in ('rem', 'div'):
        out = []
        for pol, S2 in it.split_bool(S, eq(d[1], I(0))):
            out += [('panic', S2, 'divzero')] if pol else ret(S2, mkapp(name, d[0], d[1]))
        return out
    if tr in ('BitAnd', 'BitOr', 'BitXor', 'Shl', 'Shr') and name in ('bitand', 'bitor', 'bitxor', 'shl', 'shr'):
        return ret(S, it.binop(tr, d[0], d[1], S))
    if tr == 'Neg':
        return ret(S, mul(d[0], I(-1)))
    if tr == 'Not' and prim_of(T) in BITS:
        return ret(S, sub(I(2 ** BITS[prim_of(T)] - 1 if prim_of(T)[0] == 'u' else -1), d[0]))
    if tr == 'Not':
        return ret(S, it.notv(d[0]))
    if tr.endswith('Assign') and name.endswith('_assign'):
        op = tr[:-6]
        pl = it.place_of(a[0])
        v = it.binop(op, it.strip(S, a[0]), d[1], S)
        S = S.copy()
        it.write(S, pl, v)
        return ret(S, UNIT)
    if tr == 'Zero' and name == 'zero':
        return ret(S, I(0))
    if tr == 'One' and name == 'one':
        return ret(S, I(1))
    if tr == 'Zero' and name == 'is_zero':
        return ret(S, eq(d[0], I(0)))
    if tr == 'One' and name == 'is_one':
        return ret(S, eq(d[0], I(1)))
    if tr == 'Bounded':
        n = T['n'] if T['k'] == 'prim' else None
        if n in BITS:
            k = 'MAX' if name == 'max_value' else 'MIN'
            from interp import CONSTS
            return ret(S, I(CONSTS['%s::%s' % (n, k)]))
        v = ('app', name, ('sym', tn))
        if name == 'max_value':
            UNSIGNED.add(v)
        return ret(S, v)
    if tr == 'ToPrimitive' and name.startswith('to_'):
        ty = {'k': 'prim', 'n': name[3:]}
        if name in ('to_f32', 'to_f64'):
            return it.unknown(S, name, a, c)
        v = d[0]
        out = []
        for ok, S2 in fits(it, S, v, ty):
            if ok:
                if ty['n'] in PRIM_UNSIGNED:
                    if v[0] == 'lin':
                        S2 = it.assume(S2, le(I(0), v))
                        if S2 is None:
                            continue
                    else:
                        U(v)
                out += ret(S2, some(v))
            else:
                out += ret(S2, NONE)
        return out
    if tr == 'NumCast' and name == 'from':
        v = d[0]
        out = []
        for ok, S2 in fits(it, S, v, T):
            out += ret(S2, some(v) if ok else NONE)
        return out
    if tr == 'AsPrimitive' and name == 'as_':
        t = c.targs[1] if len(c.targs) > 1 else None
        if t and t['k'] == 'prim' and T['k'] == 'prim':
            return ret(S, it.int_cast(d[0], T['n'], t['n']))
        return ret(S, mkapp('cast:' + ty_str(t), d[0]))
    if tr == 'Fundamental' and name.startswith('as_'):
        if T['k'] == 'prim':
            return ret(S, it.int_cast(d[0], T['n'], name[3:]))
        return ret(S, mkapp('cast:' + name[3:], d[0]))
    if name in ('checked_add', 'checked_sub', 'checked_mul'):
        r = {'add': add, 'sub': sub, 'mul': mul}[name[8:]](d[0], d[1])
        out = []
        pty = c.cal['fn']
        ty = T
        if T['k'] != 'prim':
            import re
            m = re.search(r'<impl (\w+)>', pty)
            ty = {'k': 'prim', 'n': m.group(1)} if m else T
        if r[0] == 'int' and ty['k'] == 'prim':
            cs = fits(it, S, r, ty)
        elif name == 'checked_sub' and ty['k'] == 'prim' and ty['n'] in PRIM_UNSIGNED:
            cs = it.branch(S, le(d[1], d[0]))
        else:
            cs = fits(it, S, r, ty)
        for ok, S2 in cs:
            out += ret(S2, some(r) if ok else NONE)
        return out
    if name in ('saturating_sub',):
        return ret(S, satsub(it, S, d[0], d[1]))
    if name in ('saturating_add',):
        return ret(S, U(mkapp('satadd', d[0], d[1])))
    if name in ('wrapping_add', 'wrapping_sub', 'wrapping_mul', 'overflowing_sub', 'overflowing_add'):
        return ret(S, mkapp(name, d[0], d[1]))
    if name in ('checked_rem', 'checked_div', 'checked_rem_euclid', 'checked_div_euclid') and it.unsigned_val(d[0]) and it.unsigned_val(d[1]):
        out = []
        for pol, S2 in it.split_bool(S, eq(d[1], I(0))):
            out += ret(S2, NONE if pol else some(mkapp(name[8:11], d[0], d[1])))
        return out
    if name in ('div_ceil', 'rem_euclid', 'div_euclid', 'next_multiple_of', 'ilog2'):
        out = []
        unsigned = it.unsigned_val(d[0]) and it.unsigned_val(d[-1])
        r = mkapp('rem', *d) if name == 'rem_euclid' and unsigned else mkapp('div', *d) if name == 'div_euclid' and unsigned else mkapp(name, *d)
        for pol, S2 in it.split_bool(S, eq(d[-1], I(0))):
            out += [('panic', S2, 'divzero')] if pol else ret(S2, U(r) if unsigned else r)
        return out
    if name in ('abs_diff', 'pow', 'is_power_of_two', 'next_power_of_two', 'count_ones', 'leading_zeros', 'trailing_zeros', 'div_ceil', 'rem_euclid', 'isqrt', 'ilog2', 'unsigned_abs'):
        return ret(S, U(mkapp(name, *d)))
    return None


# ---- everything else -------------------------------------------------------------

IDENT_TRAITS = {
    ('Borrow', 'borrow'), ('BorrowMut', 'borrow_mut'), ('AsRef', 'as_ref'), ('AsMut', 'as_mut'),
    ('Deref', 'deref'), ('DerefMut', 'deref_mut'), ('Into', 'into'),
}


RAW_WRITES = {'write', 'write_volatile', 'write_unaligned', 'replace', 'swap', 'drop_in_place', 'copy_from', 'copy_to', 'copy', 'copy_nonoverlapping', 'copy_from_nonoverlapping', 'copy_to_nonoverlapping', 'write_bytes', 'swap_nonoverlapping'}


def element(v):
    """The sequence and position a pointer into a sequence points to."""
    if v[0] == 'ref' and v[1][1] and v[1][1][-1][0] == 'idx':
        return (v[1][0], v[1][1][:-1]), v[1][1][-1][1]
    return None


def follow(it, S, v, mut, path, span, loops=()):
    """Note that a raw pointer is followed."""
    it.events.append(('rawderef', path, span, v, mut, S.facts))
    e = element(v)
    if e is not None:
        s = it.read(S, e[0])
        conds = [lt(e[1], mklen(s))]
        bad = [t for t in conds if not it.holds(S, t)]
        it.obls.append(dict(kind='unchecked', fn=path, span=span, ok=not bad, bad=bad, facts=S.facts, loops=S.loops, conds=conds, recv=it.strip(S, s)))


def pointer(it, S, owner, name, a, c):
    """Raw pointers: references that forgot their lifetime."""
    v = a[0] if a else None
    if owner == 'slice':
        if name in ('from_raw_parts', 'from_raw_parts_mut'):
            return raw_slice(it, S, v, a[1], name.endswith('mut'), c)
        return None
    if name in ('slice_from_raw_parts', 'slice_from_raw_parts_mut'):
        return raw_slice(it, S, v, a[1], name.endswith('mut'), c)
    if name in ('from_ref', 'from_mut', 'cast_mut', 'cast_const'):
        return ret(S, v)
    if owner == 'ptr':
        return None
    if name == 'cast':
        if len(c.targs) == 2:
            it.events.append(('ptrcast', c.fr.body.path, c.span, {'k': 'ptr', 't': c.targs[0], 'm': owner != 'const_ptr'}, {'k': 'ptr', 't': c.targs[1], 'm': owner != 'const_ptr'}, S.facts))
        return ret(S, v)
    if v[0] != 'ref':
        return None
    if owner == 'NonNull' and name == 'new' or name == 'is_null':
        return ret(S, some(v) if name == 'new' else FALSE)
    if owner == 'NonNull' and name in ('from', 'as_ptr', 'new_unchecked'):
        return ret(S, v)
    if name in ('as_ref', 'as_mut', 'as_ref_unchecked', 'as_mut_unchecked'):
        mut = name.startswith('as_mut')
        follow(it, S, v, mut, c.fr.body.path, c.span)
        r = ('ref', v[1], mut)
        return ret(S, r if owner == 'NonNull' or name.endswith('unchecked') else some(r))
    if name in ('read', 'read_unaligned', 'read_volatile'):
        # makes a second owner of what is there
        it.events.append(('read', c.fr.body.path, c.span, c.targs, S.facts))
        return ret(S, it.deref(S, v))
    if name in ('add', 'sub', 'offset', 'wrapping_add', 'wrapping_sub', 'wrapping_offset'):
        e = element(v)
        if e is None:
            return None
        i = sub(e[1], a[1]) if name.endswith('sub') else add(e[1], a[1])
        if not name.startswith('wrapping'):
            s = it.read(S, e[0])
            U(i)
            it.oblige('unchecked', S, [le(I(0), i), le(i, mklen(s))] if 'sub' in name or 'offset' in name else [le(i, mklen(s))], c, recv=it.strip(S, s))
        return ret(S, elem_ref(e[0], ('idx', i), v[2]))
    return None


def raw_slice(it, S, v, n, mut, c):
    e = element(v)
    if e is None:
        return None
    s = it.read(S, e[0])
    it.events.append(('rawderef', c.fr.body.path, c.span, v, mut, S.facts))
    it.oblige('unchecked', S, [le(add(e[1], n), mklen(s))], c, recv=it.strip(S, s))
    return ret(S, elem_ref(e[0], ('sub', e[1], add(e[1], n)), mut))


def raw_write(it, S, name, a, c):
    """Writes through raw pointers."""
    to = {'swap': a, 'swap_nonoverlapping': a[:2], 'copy': a[1:2], 'copy_nonoverlapping': a[1:2], 'copy_to': a[1:2], 'copy_to_nonoverlapping': a[1:2]}.get(name, a[:1])
    for x in to:
        it.events.append(('rawderef', c.fr.body.path, c.span, x, True, S.facts))
    if not all(x[0] == 'ref' for x in to) or name.endswith('nonoverlapping') or name.startswith('copy') or name == 'write_bytes':
        return None
    S = S.copy()
    p = it.place_of(a[0])
    old = it.read(S, p)
    if name == 'swap':
        q = it.place_of(a[1])
        o2 = it.read(S, q)
        it.write(S, p, o2)
        it.write(S, q, old)
        return ret(S, UNIT)
    if name == 'drop_in_place':
        return ret(S, UNIT)
    it.write(S, p, a[1])
    return ret(S, old if name == 'replace' else UNIT)


def call(it, S, args, c):
    cal = c.cal
    nm = canon(cal['fn'])
    owner, _, name = nm.rpartition('::')
    tr = (cal.get('trait') or '').split('::')[-1]
    impltr = (cal.get('impltrait') or '').split('::')[-1] if cal.get('impltrait') else ''
    a = args
    h = getattr(it, 'std_contracts', None)
    if h:
        f = h.get(nm)
        if f:
            r = f(it, S, args, c)
            if r is not None:
                return r
    if (tr, name) in IDENT_TRAITS:
        return ret(S, a[0])
    if tr == 'Clone' and name == 'clone':
        return ret(S, it.deref(S, a[0]))
    if tr == 'ToOwned' and name == 'to_owned':
        return ret(S, it.deref(S, a[0]))
    if tr == 'Clone' and name == 'clone_from':
        S = S.copy()
        it.write(S, it.place_of(a[0]), it.deref(S, a[1]))
        return ret(S, UNIT)
    if tr == 'PartialEq':
        x, y = it.strip(S, a[0]), it.strip(S, a[1])
        return ret(S, equal(it, S, x, y, name == 'eq'))
    if tr == 'Try' or tr == 'FromResidual':
        return try_method(it, S, name, a, c)
    if tr in ('PartialOrd', 'Ord'):
        x = it.strip(S, a[0])
        y = it.strip(S, a[1]) if len(a) > 1 else None
        if name == 'lt':
            return ret(S, lt(x, y))
        if name == 'le':
            return ret(S, le(x, y))
        if name == 'gt':
            return ret(S, lt(y, x))
        if name == 'ge':
            return ret(S, le(y, x))
        if name in ('cmp', 'partial_cmp'):
            from interp import mkcmp
            v = mkcmp(x, y)
            return ret(S, v if name == 'cmp' else some(v))
        if name in ('min', 'max'):
            return ret(S, minmax(it, S, name, x, y))
        if name == 'clamp':
            lo, hi = it.strip(S, a[1]), it.strip(S, a[2])
            out = []
            for pol, S2 in it.branch(S, le(lo, hi)):
                out += ret(S2, minmax(it, S2, 'min', minmax(it, S2, 'max', x, lo), hi)) if pol else [('panic', S2, 'clamp')]
            return out
    if nm in ('cmp::min', 'cmp::max'):
        return ret(S, minmax(it, S, name, a[0], a[1]))
    if owner == 'Ordering':
        v = it.deref(S, a[0])
        ls = {'is_lt': ('Less', True), 'is_gt': ('Greater', True), 'is_eq': ('Equal', True), 'is_ne': ('Equal', False), 'is_le': ('Greater', False), 'is_ge': ('Less', False)}
        if name in ls:
            n, p = ls[name]
            l = it.is_lit(v, 'Ordering', n)
            return ret(S, l if p else it.notv(l))
        if name == 'reverse' and v[0] == 'app' and v[1] == 'cmp':
            return ret(S, ('app', 'cmp', v[3], v[2]))
    # hashing
    if tr == 'BuildHasher':
        bh = it.strip(S, a[0])
        it.events.append(('hashing', c.fr.body.path, c.span, bh, S.facts))
        if name == 'build_hasher':
            return ret(S, ('app', 'hasher0', bh))
        if name == 'hash_one':
            return ret(S, U(('app', 'hfinish', ('app', 'hupd', ('app', 'hasher0', bh), it.strip(S, a[1])))))
    if tr == 'Hasher':
        if name == 'finish':
            return ret(S, U(('app', 'hfinish', it.strip(S, a[0]))))
        if name.startswith('write'):
            pl = it.place_of(a[0])
            S = S.copy()
            it.write(S, pl, ('app', 'h' + name, it.read(S, pl), it.strip(S, a[1])))
            return ret(S, UNIT)
    if tr == 'Hash' and name == 'hash':
        pl = it.place_of(a[1])
        S = S.copy()
        it.write(S, pl, ('app', 'hupd', it.read(S, pl), it.strip(S, a[0])))
        return ret(S, UNIT)
    if tr == 'SliceHash':
        rg = norm_ix(it, S, a[2], 'Range')
        it.events.append(('hashing', c.fr.body.path, c.span, it.strip(S, a[1]), S.facts))
        return ret(S, U(('app', 'slicehash', it.strip(S, a[0]), it.strip(S, a[1]), rg[3][0], rg[3][1])))
    if tr == 'Len':
        x = it.strip(S, a[0])
        n = ('app', 'Len', x)
        return ret(S, n if name == 'len' else eq(n, I(0)))
    if tr == 'Set':
        if name == 'iter':
            return ret(S, ('app', 'setiter', it.strip(S, a[0])))
        if name == 'contains':
            return ret(S, mklit(('b', ('app', 'in', it.strip(S, a[1]), it.strip(S, a[0]))), True))
        return ret(S, ('app', 'set_' + name, it.strip(S, a[0]), it.strip(S, a[1])))
    if tr == 'Default' and name == 'default':
        t = c.targs[0]
        if seq_like(t):
            return ret(S, EMPTY)
        if t['k'] == 'prim' and t['n'] in BITS:
            return ret(S, I(0))
        if t['k'] == 'tuple' and not t['a']:
            return ret(S, UNIT)
        return ret(S, ('app', 'default', ('sym', ty_str(t))))
    if owner == 'RandomState' and name == 'new':
        return ret(S, ('app', 'default', ('sym', 'RandomState')))
    # iterators
    if tr == 'IntoIterator' and name == 'into_iter':
        return into_iter(it, S, a[0], c.targs[0], c)
    if tr in ('Iterator', 'DoubleEndedIterator', 'ExactSizeIterator'):
        return iter_method(it, S, name, a, c)
    if tr == 'FromIterator' and name == 'from_iter':
        t = c.targs[0]
        at = c.targs[-1]
        out = []
        for o in into_iter(it, S, a[0], at, c):
            if o[0] == 'ret':
                out.extend(collect(it, o[1], o[2], t, c))
            else:
                out.append(o)
        return out
    if tr == 'Extend' and name == 'extend':
        t = c.targs[0]
        if seq_like(t):
            pl, s = seq_place(it, S, a[0])
            out = []
            for o in into_iter(it, S, a[1], c.targs[-1], c):
                if o[0] != 'ret':
                    out.append(o)
                    continue

                def fin(S1, v):
                    S1 = S1.copy()
                    it.write(S1, pl, v)
                    return ret(S1, UNIT)
                out.extend(collect_seq(it, o[1], o[2], c, 'extend', s, fin))
            return out
    if owner == 'iter' and name in ('empty', 'once', 'repeat', 'zip'):
        if name == 'empty':
            return ret(S, itv('empty', i=I(0)))
        if name == 'once':
            return ret(S, itv('once', v=a[0], i=I(0)))
        if name == 'zip':
            return ret(S, itv('zip', a=opaque_or(a[0]), b=opaque_or(a[1])))
    # numbers
    if tr in ('Add', 'Sub', 'Mul', 'Div', 'Rem', 'BitAnd', 'BitOr', 'BitXor', 'Shl', 'Shr', 'Neg', 'Not', 'Zero', 'One', 'Bounded', 'ToPrimitive', 'NumCast', 'AsPrimitive', 'Fundamental',
              'CheckedAdd', 'CheckedSub', 'CheckedMul', 'Saturating', 'AddAssign', 'SubAssign', 'MulAssign', 'BitOrAssign', 'BitAndAssign', 'RemAssign', 'DivAssign', 'PrimInt', 'WrappingAdd', 'WrappingSub') \
            or owner == 'int':
        r = num_method(it, S, tr, name, a, c)
        if r is not None:
            return r
    if tr in ('TryFrom', 'TryInto'):
        dst = c.targs[0] if tr == 'TryFrom' else c.targs[1]
        v = it.strip(S, a[0])
        out = []
        if dst['k'] == 'adt' and short(dst) == 'NonZero':
            src = c.targs[1] if tr == 'TryFrom' else c.targs[0]
            if src['k'] == 'adt' and short(src) == 'NonZero':
                return ret(S, okv(v))
            for pol, S2 in it.branch(S, eq(v, I(0))):
                out += ret(S2, errv(('sym', 'TryFromIntError')) if pol else okv(v))
            return out
        if dst['k'] == 'prim':
            for ok, S2 in fits(it, S, v, dst):
                out += ret(S2, okv(v) if ok else errv(('sym', 'TryFromIntError')))
            return out
    if owner == 'NonZero':
        v = it.strip(S, a[0])
        if name == 'new':
            out = []
            for pol, S2 in it.branch(S, eq(v, I(0))):
                out += ret(S2, NONE if pol else some(v))
            return out
        if name == 'get':
            return ret(S, U(v))
        if name == 'new_unchecked':
            it.oblige('nonzero', S, [eq(v, I(0), False)], c)
            return ret(S, v)
    if tr == 'From' and name == 'from':
        src = c.targs[1] if len(c.targs) > 1 else None
        dst = c.targs[0]
        if dst['k'] == 'prim' or seq_like(dst) and (src is None or seq_like(src) or src['k'] in ('ref',)) or dst['k'] == 'adt' and short(dst) in ('Box', 'NonZero', 'Rc', 'Arc'):
            v = a[0]
            if seq_like(dst) and v[0] == 'ref':
                v = it.strip(S, v)
            return ret(S, v)
        if dst['k'] == 'adt' and src is not None and same_ty(dst, src):
            return ret(S, a[0])
    if tr == 'Index' or tr == 'IndexMut':
        t = c.targs[0]
        if seq_like(t):
            return slice_get(it, S, a[0], a[1], c, 'index', name == 'index_mut', index_type(c))
        if t['k'] == 'prim' and t['n'] == 'str' or t['k'] == 'adt' and short(t) == 'String':
            # bytes of a string; the boundary check is an additional panic
            return slice_get(it, S, a[0], a[1], c, 'index', name == 'index_mut', index_type(c))
    if owner == 'slice' or owner == 'array' and name in ('len', 'iter', 'iter_mut', 'as_slice', 'get', 'index'):
        r = slice_method(it, S, name, a, c)
        if r is not None:
            return r
    if owner == 'array' and name in ('map', 'each_ref', 'each_mut', 'from_fn'):
        return array_method(it, S, name, a, c)
    if owner in ('Vec', 'VecDeque') and name == 'from':
        return ret(S, a[0])
    if name == 'from_elem' and len(a) >= 2:
        return ret(S, ('repeat', it.strip(S, a[0]), it.strip(S, a[1])))
    if name == 'box_assume_init_into_vec_unsafe':
        # vec![..]: the array just written
        v = it.strip(S, a[0])
        while v[0] == 'upd' and v[2][0] == 'f':
            v = v[3]
        if v[0] == 'agg' and v[1] == ('array',):
            return ret(S, v)
    if owner in ('BitVec', 'BitSlice', 'BitBox', 'BitArray'):
        if name == 'repeat' and not (a[0][0] == 'ref'):
            return ret(S, ('repeat', a[0], a[1]))
        if name in ('set', 'set_unchecked', 'replace'):
            out = []
            for o in slice_get(it, S, a[0], a[1], c, 'unchecked' if name == 'set_unchecked' else 'index', True):
                if o[0] == 'ret':
                    S2 = o[1].copy()
                    old = it.deref(S2, o[2])
                    it.write(S2, o[2][1], a[2])
                    o = ('ret', S2, old if name == 'replace' else UNIT)
                out.append(o)
            return out
        r = vec_method(it, S, name, a, c)
        if r is not None:
            return r
    if owner == 'Vec':
        r = vec_method(it, S, name, a, c)
        if r is not None:
            return r
    if owner in ('HashMap', 'HashSet', 'BTreeMap', 'BTreeSet', 'BinaryHeap', 'LinkedList', 'VecDeque', 'String', 'str', 'OsStr', 'CStr', 'CString', 'OsString', 'Rc', 'Arc', 'Box'):
        r = std_coll(it, S, owner, name, a, c)
        if r is not None:
            return r
    if owner in ENUMS:
        return option_method(it, S, owner, name, a, c)
    if owner == 'bool':
        if name in ('then', 'then_some'):
            out = []
            for pol, S2 in it.split_bool(S, a[0]):
                if not pol:
                    out += ret(S2, NONE)
                elif name == 'then_some':
                    out += ret(S2, some(a[1]))
                else:
                    out += through(it, S2, a[1], [], c, 'f', lambda S3, x: ret(S3, some(x)))
            return out
    if nm == 'intrinsics::transmute' or nm == 'mem::transmute':
        it.events.append(('transmute', c.fr.body.path, c.span, c.targs[0], c.targs[1], S.facts))
        return ret(S, a[0])
    if nm in ('mem::transmute_copy', 'ptr::read'):
        it.events.append((name, c.fr.body.path, c.span, c.targs, S.facts))
        return ret(S, it.deref(S, a[0]))
    if owner in ('ptr', 'mut_ptr', 'const_ptr', 'NonNull') and name in RAW_WRITES:
        r = raw_write(it, S, name, a, c)
        if r is not None:
            return r
    if owner in ('ptr', 'mut_ptr', 'const_ptr', 'NonNull', 'slice'):
        r = pointer(it, S, owner, name, a, c)
        if r is not None:
            return r
    if nm == 'intrinsics::discriminant_value':
        return ret(S, it.discr(it.deref(S, a[0]), c.targs[0]))
    if nm == 'TypeId::of':
        return ret(S, ('app', 'typeid', ('sym', ty_str(c.targs[0]))))
    if nm in ('mem::swap', 'mem::replace', 'mem::take'):
        p = it.place_of(a[0])
        old = it.read(S, p)
        S = S.copy()
        if name == 'swap':
            q = it.place_of(a[1])
            o2 = it.read(S, q)
            it.write(S, p, o2)
            it.write(S, q, old)
            return ret(S, UNIT)
        if name == 'replace':
            it.write(S, p, a[1])
        else:
            t = c.targs[0]
            it.write(S, p, EMPTY if seq_like(t) else NONE if short(t) == 'Option' else ('app', 'default', ('sym', ty_str(t))))
        return ret(S, old)
    if nm in ('mem::drop', 'mem::forget'):
        return ret(S, UNIT)
    if nm in ('convert::identity', 'hint::black_box', 'Box::new', 'Rc::new', 'Arc::new', 'convert::From::from', 'ManuallyDrop::new'):
        return ret(S, a[0])
    if owner == 'hint' and name == 'assert_unchecked':
        it.oblige('assert_unchecked', S, [a[0]], c)
        S2 = it.assume(S, a[0])
        return ret(S2, UNIT) if S2 is not None else []
    if nm in ('hint::unreachable_unchecked',):
        it.oblige('unreachable', S, [FALSE], c)
        return []
    if owner == 'RangeInclusive' and name == 'new':
        return ret(S, agg(('adt', 'RangeInclusive', None), ['start', 'end'], a))
    if owner in ('RangeFrom', 'RangeTo', 'RangeToInclusive') and name == 'contains':
        v, x = it.deref(S, a[0]), it.strip(S, a[1])
        if owner == 'RangeFrom':
            return ret(S, le(it.strip(S, proj(v, ('f', 'start'))), x))
        e = it.strip(S, proj(v, ('f', 'end')))
        return ret(S, lt(x, e) if owner == 'RangeTo' else le(x, e))
    if owner in ('Range', 'RangeInclusive'):
        v = it.deref(S, a[0])
        lo, hi = proj(v, ('f', 'start')), proj(v, ('f', 'end'))
        if name == 'contains':
            x, lo, hi = it.strip(S, a[1]), it.strip(S, lo), it.strip(S, hi)
            from interp import mkand
            return ret(S, mkand(le(lo, x), lt(x, hi) if owner == 'Range' else le(x, hi)))
        if name == 'is_empty' and owner == 'Range':
            return ret(S, le(hi, lo))
        if name == 'len':
            return ret(S, satsub(it, S, hi, lo))
        if name in ('start', 'end'):
            return ret(S, ('ref', sub_place(it.place_of(a[0]), name), False))
    # formatting
    if owner == 'Formatter' and name in ('debug_map', 'debug_list', 'debug_set'):
        return ret(S, ('agg', ('dbg',), ('kind', 'items'), (('app', name), EMPTY)))
    if owner == 'Formatter' and name in ('debug_tuple', 'debug_struct'):
        return ret(S, ('app', name, *(it.strip(S, x) for x in a[1:])))
    if owner in ('DebugMap', 'DebugList', 'DebugSet'):
        return debug_method(it, S, owner, name, a, c)
    if tr in ('Debug', 'Display') and name == 'fmt':
        return ret(S, ('app', 'fmt', it.strip(S, a[0])))
    if owner == 'panicking' or nm in ('rt::begin_panic',):
        return [('panic', S, nm)]
    if owner == 'Arguments':
        return ret(S, ('sym', 'fmtargs'))
    if owner == 'Argument':
        return ret(S, ('sym', 'fmtarg'))
    return it.unknown(S, nm, a, c)


def opaque_or(v):
    return v if is_it(v) else opaque_iter(v)


def minmax(it, S, name, a, b):
    x, y = it.strip(S, a), it.strip(S, b)
    inv = tuple(invariants(it, S, [x, y]))
    if inv:
        fs = S.facts + tuple(f for f in inv if f not in S.facts)
        for p, q in ((x, y), (y, x)):
            l = le(p, q)
            if l[0] == 'lit' and it.fact_holds(fs, l[1], l[2]):
                return p if name == 'min' else q
    if it.holds(S, le(x, y)):
        return x if name == 'min' else y
    if it.holds(S, le(y, x)):
        return y if name == 'min' else x
    return U(mkapp(name, x, y))


def equal(it, S, x, y, pol):
    from interp import is_boolish
    if is_boolish(x) or is_boolish(y):
        return it.binop('Eq' if pol else 'Ne', x, y, S)
    if x[0] == 'agg' and x[1][0] == 'adt' and y[0] != 'agg' or y[0] == 'agg' and y[1][0] == 'adt' and x[0] != 'agg':
        if y[0] == 'agg':
            x, y = y, x
        t = x[1]
        if len(t) > 2 and t[2] is not None:
            l = it.is_lit(y, t[1], t[2])
            if not x[3]:
                return l if pol else it.notv(l)
            if len(x[3]) == 1:
                from interp import mkand
                r = mkand(l, equal(it, S, x[3][0], proj(y, ('vf', t[2], x[2][0])), True))
                return r if pol else it.notv(r)
    if x[0] == 'agg' and y[0] == 'agg' and x[1] == ('tuple',) and len(x[3]) == len(y[3]):
        from interp import mkand
        r = TRUE
        for p, q in zip(x[3], y[3]):
            r = mkand(r, equal(it, S, p, q, True))
        return r if pol else it.notv(r)
    return eq(x, y, pol)


def try_method(it, S, name, a, c):
    out = []
    if name == 'branch':
        en = enum_of(c) or 'Option'
        first, second = ENUMS[en]
        for pol, p, S2 in cases(it, S, a[0], en):
            if pol:
                out += ret(S2, enumv('ControlFlow', 'Continue', p))
            else:
                out += ret(S2, enumv('ControlFlow', 'Break', NONE if en == 'Option' else enumv(en, second, p)))
        return out
    if name == 'from_residual':
        return ret(S, a[0])
    if name == 'from_output':
        en = enum_of(c) or 'Option'
        return ret(S, enumv(en, ENUMS[en][0], a[0]))
    return it.unknown(S, name, a, c)


def array_method(it, S, name, a, c):
    v = a[0]
    iv = ('sym', 'i:')
    if name in ('each_ref', 'each_mut'):
        pl, s = seq_place(it, S, v)
        n = mklen(s)
        return ret(S, ('build', n, iv, elem_ref(pl, ('idx', iv), name == 'each_mut')))
    if name == 'from_fn':
        dty = c.dty
        n = I(int(dty['n'])) if dty and dty['n'].isdigit() else ('sym', 'const:' + (dty['n'] if dty else 'N'))
        U(n)
        x, f = iv, v
    else:
        n = mklen(v)
        f = a[1]
        if v[0] == 'agg':
            outs = [(S, [])]
            res = []
            for i, e in enumerate(v[3]):
                nxt = []
                for S1, vs in outs:
                    for o in it.call_value(S1, f, [e], c.sub('e%d' % i)):
                        if o[0] == 'ret':
                            nxt.append((o[1], vs + [o[2]]))
                        else:
                            res.append(o)
                outs = nxt
            return res + [('ret', S1, agg(('array',), [str(i) for i in range(len(vs))], vs)) for S1, vs in outs]
        x = mkidx(v, iv)
        x = it.coerce(x, c.targs[0]) if c.targs and c.targs[0]['k'] == 'ref' else x
    S1 = it.assume(S, lt(iv, n))
    if S1 is None:
        return ret(S, EMPTY)
    outs = it.call_value(S1, f, [x], c.sub('map'))
    rets = [o for o in outs if o[0] == 'ret']
    res = [o for o in outs if o[0] != 'ret']
    if len(rets) == 1:
        r = rets[0]
        S2 = S.copy()
        S2.mem = dict(r[1].mem)
        S2.facts = tuple(x for x in r[1].facts if iv not in subterms(x) or x in S.facts)
        S2.loops = r[1].loops
        return res + ret(S2, mkbuild(n, iv, r[2]))
    return it.unknown(S, 'array::map', a, c)


def std_coll(it, S, owner, name, a, c):
    if owner in ('Box', 'Rc', 'Arc') and name in ('new', 'pin'):
        return ret(S, a[0])
    if owner in ('Rc', 'Arc') and name == 'clone':
        return ret(S, it.deref(S, a[0]))
    if owner == 'Box' and name in ('into_vec', 'from', 'leak', 'into_inner'):
        return ret(S, a[0])
    if name in ('as_bytes', 'to_bytes', 'as_str', 'as_os_str', 'as_c_str', 'as_bytes_with_nul', 'to_bytes_with_nul', 'as_slice', 'as_mut_slice'):
        if name.endswith('with_nul'):
            v = it.strip(S, a[0])
            return ret(S, ('ref', (('ext', ('push', v, I(0))), ()), False))
        return ret(S, a[0])
    if name in ('as_encoded_bytes', 'bytes') and owner in ('OsStr', 'OsString', 'String', 'str'):
        s = seq_place(it, S, a[0])[1]
        return ret(S, a[0] if name != 'bytes' else itv('val', s=s, i=I(0), e=mklen(s)))
    if name == 'count_bytes' and owner == 'CStr':
        return ret(S, mklen(seq_place(it, S, a[0])[1]))
    if name in ('capacity', 'as_slices', 'to_string_lossy', 'encode_utf16', 'trim', 'trim_end', 'trim_start'):
        v = ('app', name, seq_place(it, S, a[0])[1])
        return ret(S, U(v) if name == 'capacity' else v)
    if name == 'len':
        pl, s = seq_place(it, S, a[0])
        return ret(S, mklen(s) if owner in ('String', 'str', 'OsStr', 'CStr') else U(('len', s) if not is_seqv(s) else mklen(s)))
    if name == 'is_empty':
        pl, s = seq_place(it, S, a[0])
        return ret(S, eq(mklen(s), I(0)))
    if owner in ('String', 'str') and name in ('chars', 'char_indices', 'lines', 'split_whitespace'):
        pl, s = seq_place(it, S, a[0])
        v = ('app', name, s)
        return ret(S, opaque_iter(v))
    if name == 'contains' and owner in ('HashSet', 'BTreeSet'):
        pl, s = seq_place(it, S, a[0])
        return ret(S, mklit(('b', ('app', 'in', it.strip(S, a[1]), s)), True))
    if name == 'iter' and owner in ('HashSet', 'BTreeSet', 'HashMap', 'BTreeMap'):
        pl, s = seq_place(it, S, a[0])
        return ret(S, ('app', 'setiter', s))
    if name in ('new', 'with_capacity', 'with_hasher', 'with_capacity_and_hasher'):
        return ret(S, ('app', 'empty:' + owner))
    return None


def debug_method(it, S, owner, name, a, c):
    """A builder is a value with the sequence of items given so far."""
    recv = a[0]
    cur = it.deref(S, recv)
    pl = it.place_of(recv)
    S = S.copy()
    known = cur[0] == 'agg' and cur[1] == ('dbg',) or cur[0] == 'sym'
    if name in ('finish', 'finish_non_exhaustive') and known:
        return ret(S, ('app', 'dbgfinish' if name == 'finish' else 'dbgpartial', proj(cur, ('f', 'kind')), proj(cur, ('f', 'items'))))
    if name == 'entries' and known:
        out = []
        t = c.targs[-1] if c.targs else {'k': 'other', 'n': '?'}
        for o in into_iter(it, S, a[1], t, c):
            if o[0] != 'ret':
                out.append(o)
                continue

            def fin(S1, s):
                S1 = S1.copy()
                q = sub_place(pl, 'items')
                it.write(S1, q, mkconcat(it.read(S1, q), s))
                return ret(S1, recv)
            out.extend(collect_seq(it, o[1], o[2], c, 'dbg', EMPTY, fin))
        return out
    if name == 'entry' and known:
        q = sub_place(pl, 'items')
        it.write(S, q, mkpush(it.read(S, q), tup(*a[1:]) if len(a) > 2 else a[1]))
        return ret(S, recv)
    it.write(S, pl, ('unk', 'dbg:' + name, cur))
    return ret(S, recv)
