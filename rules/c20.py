"""C20: the map macro builds a correct map for every key type.

The macro is run on symbolic token streams: whatever it can return is a template over the nodes parsed
from its input, together with the facts of its path.
"""
import glob
import json
import os
import shutil
import subprocess
import tempfile

from base import *
import c03
import c21
import rangemap
import tokens
import world
from facts import Facts
from interp import Ctx, Frame

ASSUME = ['syn prints a node as the tokens it was parsed from', 'printing a type of one word gives that word, a reference to str prints as "& str"',
          'the types written in an expansion are the ones of the crate under analysis (edition and prelude of the caller do not redefine them)']
ENTRY = 'entry: the exported macro hands its input to the expansion and returns what that produces'
PAIRS = 'pairs: the map is built from every pair of the input, each key with its own value'
ACCEPT = 'accept: input is refused only when a part of it does not parse as what its type calls for'
KEYTYPE = 'key type: the map built has the key type given'
WIDTH = 'width: the position type chosen numbers every pair'
RANGE = 'range: the range layout is chosen only for consecutive keys'
SLICE = 'window: a layout that hashes part of a key gets the part the analysis of all keys chose'
TYPED = 'typed: the expansion type-checks'
PRIMS = {'u8': (0, 8), 'u16': (0, 16), 'u32': (0, 32), 'u64': (0, 64), 'u128': (0, 128), 'usize': (0, 64), 'i8': (1, 8), 'i16': (1, 16), 'i32': (1, 32), 'i64': (1, 64), 'i128': (1, 128), 'isize': (1, 64)}


def holds(t, sub_):
    """Every value of the integer type sub_ is one of the type t."""
    if t not in PRIMS or sub_ not in PRIMS:
        return False
    (s, b), (s2, b2) = PRIMS[t], PRIMS[sub_]
    return s == s2 and b >= b2 or s and not s2 and b > b2


# ---- templates --------------------------------------------------------------

class Shape(Exception):
    pass


def flat(x):
    """Tokens of a stream: ('t', text), ('g', delimiter, [...]), ('rep', n, i, [...]), ('x', node or value)"""
    if x == EMPTY:
        return []
    if x[0] == 'agg' and x[1] == ('array',):
        return [t for c in x[3] for t in flat(c)]
    if x[0] == 'push':
        return flat(x[1]) + flat(x[2])
    if x[0] == 'concat':
        return [t for c in x[1:] for t in flat(c)] if all(isinstance(c, tuple) and c and isinstance(c[0], str) for c in x[1:]) else [t for c in x[1] for t in flat(c)]
    if x[0] == 'build':
        return [('rep', x[1], x[2], flat(x[3]))]
    if x[0] == 'app' and x[1] == 'oneof':
        # the first without, the rest with a separator before them
        alts = sorted((flat(y) for y in x[3:]), key=len)
        if len(alts) == 2 and alts[1][0] == ('t', ',') and alts[1][1:] == alts[0]:
            return alts[0] + [('t', ',')]
        raise Shape('one of %s' % show(x)[:200])
    if x[0] == 'app' and x[1] == 'toks':
        return [t for c in x[2:] for t in flat(c)]
    if x[0] == 'app' and x[1] == 'stream':
        return flat(x[2])
    if x[0] == 'app' and x[1] == 'tok':
        return [('t', x[2][1])]
    if x[0] == 'app' and x[1] == 'group':
        return [('g', x[2][1], flat(x[3]))]
    if x[0] == 'app' and x[1] == 'tokens':
        v = x[2]
        if v[0] == 'vf' and v[1][0] == 'app' and str(v[1][1]).startswith('parse2:') and v[2] == 'Ok':
            return flat(v[1][2])
        if tokens.text(v) is not None:
            return [('t', json.dumps(tokens.text(v)))]
        return [('x', v)]
    raise Shape(show(x)[:200])


def nested(ts):
    for t in ts:
        yield t
        if t[0] == 'g':
            yield from nested(t[2])
        elif t[0] == 'rep':
            yield from nested(t[3])


def split(ts, sep):
    out = [[]]
    for t in ts:
        if t == ('t', sep):
            out.append([])
        else:
            out[-1].append(t)
    return out


def parsed(v):
    """(kind, number) of a node taken from the input"""
    if v[0] == 'vf' and v[2] == 'Ok' and v[1][0] == 'app' and str(v[1][1]).startswith('parsed:'):
        return v[1][1][7:], v[1][3]
    return None


def nodes(v):
    return {parsed(t) for t in subterms(v) if t and t[0] == 'vf' and parsed(t)}


def write(ts, named, copies=2):
    """Source text of a template for a named key type."""
    out = []

    def go(ts, i):
        for t in ts:
            if t[0] == 't':
                out.append(t[1])
            elif t[0] == 'g':
                a, b = {'Parenthesis': '()', 'Brace': '{}', 'Bracket': '[]'}.get(t[1], '  ')
                out.append(a)
                go(t[2], i)
                out.append(b)
            elif t[0] == 'rep':
                for k in range(copies):
                    go(t[3], k)
            else:
                p = parsed(t[1])
                if p and p[0] == 'Type':
                    out.append(named or 'Key')
                elif p and p[0] == 'Expr':
                    c, d = terms.parts(p[1])
                    if c % 2 == 0:
                        out.append('Value(%d)' % i)
                    elif named in PRIMS:
                        out.append(str(i + 1))
                    elif named:
                        out.append('"%s"' % 'ab'[i])
                    else:
                        out.append('Key(%d)' % i)
                elif p is None and t[1][0] in ('lin', 'int') or t[1][0] == 'vf':
                    out.append('1usize')
                else:
                    raise Shape(show(t[1])[:200])
    go(ts, 0)
    return ' '.join(out)


# ---- the check ----------------------------------------------------------------

def macros(W):
    """Expansions: what the macro crate's exported macros call."""
    F = Facts(os.path.join(W.facts_dir, 'frozen_collections_macros.json'))
    out = []
    for fid, f in sorted(F.fns.items()):
        if fid in F.bodies and f.get('exported', True) and f['out']['k'] == 'adt' and f['out']['n'].endswith('TokenStream') and len(f['in']) == 1 and f['in'][0] == f['out'] and '::' not in fid.split('::', 1)[1]:
            out.append(fid)
    return F, out


def check(W):
    obs, todo = [], []
    F, ms = macros(W)
    starts = set()
    for m in ms:
        o, s = entry(W, F, m)
        obs.append(o)
        starts |= s
    if not ms:
        obs.append(gone(W, ENTRY, 'exported macro'))
    for fid in sorted(starts):
        obs += expansion(W, fid, todo)
    obs += typed(W, todo)
    return once(obs)


def entry(W, F, fid):
    W2 = world.World(F)
    fns = set()
    for b in F.bodies.values():
        for blk in b.blocks:
            t = blk['t']
            if t['t'] == 'call' and t['f']['o'] == 'fn':
                c = t['f']['callee'].get('resid') or t['f']['callee']['id']
                if c in W.F.bodies and W.F.fns.get(c, {}).get('out', {}).get('n', '').endswith('TokenStream'):
                    fns.add(c)

    def setup(it):
        from models import ret
        it.std_contracts['Into::into'] = it.std_contracts['From::from'] = lambda it, S, a, c: ret(S, it.strip(S, a[0]))
        for c in fns:
            it.contracts[c] = lambda it, S, a, cx, c=c: ret(S, ('app', 'expand:' + c, it.strip(S, a[0])))
            it.std_contracts['::'.join(c.split('::')[-2:])] = it.contracts[c]

        def entry_point(it, S, a, c):
            f = it.strip(S, a[0])
            while f[0] == 'agg' and f[1][0] == 'adt' and len(f[3]) == 1:
                f = f[3][0]
            return it.call_value(S, f, [], c)
        it.std_contracts['proc_macro_error::entry_point'] = it.std_contracts['entry_point'] = entry_point
    R = W2.analyse(fid, 'entry', setup=setup)
    arg = ('sym', F.bodies[fid].arg_names()[0] if hasattr(F.bodies[fid], 'arg_names') else run.param_names(F.bodies[fid])[0])
    bad = R.error or ''
    und = bool(R.error)
    for o in R.outs:
        if o[0] != 'ret':
            bad, und = bad or 'may panic: %s' % (o[2:],), und
            continue
        v = R.it.strip(o[1], o[2])
        if not (v[0] == 'app' and str(v[1]).startswith('expand:') and v[2] == arg):
            bad, und = 'returns %s' % show(v)[:300], und or not understood(v)
    o = Ob(ENTRY, fid.split('::', 1)[-1], F.fns[fid].get('span', ''), PROVED if not bad and fns else UNDECIDED if und or not fns else VIOLATED, bad)
    return o, fns


def expansion(W, fid, todo):
    obs = []
    R = W.analyse(fid, 'tokens', setup=lambda it: tokens.install(it), budget=600000)
    if R.error:
        return [Ob(PAIRS, W.fname(fid), W.span(fid), UNDECIDED, R.error)]
    it = R.it
    n = 0
    for o in R.outs:
        R.activate()
        S = o[1]
        if not W.feasible(it, S.facts):
            continue
        if o[0] == 'panic':
            obs.append(refusal(W, fid, S, str(o[2]), todo))
            continue
        v = it.strip(S, o[2])
        if v[0] == 'app' and 'compile_error' in str(v[1]):
            obs.append(refusal(W, fid, S, 'compile error', todo))
            continue
        try:
            ts = flat(v)
        except Shape as e:
            obs.append(ob(W, PAIRS, fid, False, False, 'returns %s' % e))
            continue
        if ('t', 'compile_error') in list(nested(ts)):
            obs.append(refusal(W, fid, S, 'compile error', todo))
            continue
        n += 1
        obs += template(W, R, fid, S, ts)
        todo.append((fid, ts, named_type(S), S))
    if not n:
        obs.append(ob(W, PAIRS, fid, False, False, 'nothing is ever expanded'))
    return obs


def named_type(S):
    """The key type's text where the path has settled it."""
    for a, p in S.facts:
        if p and a[0] == 'eq':
            for x, y in ((a[1], a[2]), (a[2], a[1])):
                if tokens.text(y) is not None and x[0] == 'app' and x[1] == 'text' and any(k[0] == 'Type' for k in nodes(x)):
                    return tokens.text(y)
    return None


def refusal(W, fid, S, why, todo):
    """A path that gives up: is the input at fault?"""
    named = named_type(S)
    und = False
    for a, p in S.facts:
        if p or a[0] != 'is' or a[2] != 'Ok' or a[1][0] != 'app':
            continue
        k = str(a[1][1])
        if k.startswith(('parsed:', 'punct:')) or k == 'all used':
            return ob(W, ACCEPT, fid, True, True)
        if k == 'parse2:LitInt' and named in PRIMS or k == 'parse2:LitStr' and named == '& str':
            return ob(W, ACCEPT, fid, True, True)
        if k.startswith('base10:') and holds(k[7:], named):
            return ob(W, ACCEPT, fid, True, True)
        if k in ('parse2:Expr', 'parse2:Type'):
            # parsed from what the macro wrote itself: it has to be that
            try:
                todo.append((fid, flat(a[1][2]), named, S, k[7:]))
                return ob(W, ACCEPT, fid, True, True)
            except Shape:
                und = True
    return ob(W, ACCEPT, fid, False, not und and clear(S),
              '%s for %s keys when %s' % (why, named or 'other', showfacts(S.facts)[-600:]))


def clear(S):
    """Could the analysis follow everything the path depends on?  How far the reading got is the parser's own business."""
    cur = {t for r, v in S.mem.items() if r[0] == 'side' for t in subterms(v) if t and t[0] == 'sym' and str(t[1]).startswith('phi:')}
    return lookup.und_facts([(a, p) for a, p in S.facts if not any(t in cur or t and t[0] == 'app' and t[1] in ('is_empty', 'peek', 'peek2') for t in subterms(a))])


def partial(S):
    """Sequences a loop adds to in some rounds and leaves alone in others."""
    out = set()
    for l, x, r in S.loops:
        for place, head, backs in r.trans:
            if head[0] == 'sym' and str(head[1]).startswith('phi:') and any(b is not None and b[0] == 'push' and b[1] == head for b in backs) and any(b == head for b in backs):
                out.add(head)
    return out


def pair_count(S):
    """Number of pairs parsed: half the nodes after the type."""
    for r, v in S.mem.items():
        if r[0] == 'side' and r[2] == 'nodes':
            c, d = terms.parts(v)
            if (c - 1) % 2 == 0 and all(k % 2 == 0 for k in d.values()):
                return mklin((c - 1) // 2, {t: k // 2 for t, k in d.items()})
    return None


WRAPS = (['String', '::', 'from'], ['::', 'std', '::', 'string', '::', 'String', '::', 'from'], ['std', '::', 'string', '::', 'String', '::', 'from'])


def bare(ts):
    """A key expression without conversions to String: (tokens, converted)"""
    conv = False
    while True:
        if len(ts) == 1 and ts[0][0] == 'g' and ts[0][1] in ('Parenthesis', 'None'):
            ts = ts[0][2]
        elif ts and ts[-1][0] == 'g' and ts[-1][1] == 'Parenthesis' and [t[1] for t in ts[:-1]] in WRAPS:
            ts, conv = ts[-1][2], True
        elif len(ts) >= 3 and ts[-1] == ('g', 'Parenthesis', []) and ts[-3] == ('t', '.') and ts[-2][1] in ('to_string', 'to_owned', 'into'):
            ts, conv = ts[:-3], True
        else:
            return ts, conv


def template(W, R, fid, S, ts):
    obs = []
    facts = S.facts
    N = pair_count(S)
    reps = [t for t in nested(ts) if t[0] == 'rep']
    if N is None:
        return [ob(W, PAIRS, fid, False, False, 'how many pairs were read is not known')]
    if not reps:
        none = linear.entails(facts, ('eq', N, I(0)), True)
        xs = [t for t in nested(ts) if t[0] == 'x']
        return [ob(W, PAIRS, fid, none, all(understood(t[1]) for t in xs), 'no pair is written when %s' % showfacts(facts)[-300:])]
    if len(reps) > 1 or any(t[0] == 'x' and (parsed(t[1]) or ('',))[0] == 'Expr' for t in outside(ts)):
        return [ob(W, PAIRS, fid, False, False, 'pairs are written in several places')]
    _, n, i, item = reps[0]
    conv = None   # whether keys are turned into String: not known
    if item and item[-1] == ('t', ','):
        item = item[:-1]
    kv = split(item[0][2], ',') if len(item) == 1 and item[0][0] == 'g' and item[0][1] == 'Parenthesis' else []
    kv = [x for x in kv if x]
    if len(kv) != 2:
        obs.append(ob(W, PAIRS, fid, False, False, 'pairs are written as %s' % (item,)))
    else:
        (k, conv), (v, c2) = bare(kv[0]), bare(kv[1])
        ok, und, got = False, True, ''
        if len(k) == 1 and len(v) == 1 and k[0][0] == 'x' and v[0][0] == 'x':
            pk, pv = parsed(k[0][1]), parsed(v[0][1])
            conv = conv if pk else None
            got = 'pair %s: %s, %s; %s of %s pairs' % (show(i), show(k[0][1])[:100], show(v[0][1])[:100], show(n), show(N))
            und = not (understood(k[0][1]) and understood(v[0][1]) and understood(n))
            if pk and pv:
                at = mul(i, I(2))
                ok = pk[1] == add(at, I(1)) and pv[1] == add(at, I(2)) and not c2 and linear.entails(facts, ('eq', n, N), True)
                # any arrangement of them would do
                back = mul(sub(add(N, I(-1)), i), I(2))
                ok = ok or pk[1] == add(back, I(1)) and pv[1] == add(back, I(2)) and not c2 and linear.entails(facts, ('eq', n, N), True)
            elif any(t and t[0] in ('sorted', 'reorder', 'rev') for t in subterms(k[0][1])):
                und = True
            elif partial(S) & (subterms(k[0][1]) | subterms(n)):
                und, got = False, got + '; some rounds of a loop keep nothing'
        obs.append(ob(W, PAIRS, fid, ok, not und, got or str(kv)[:300]))
    obs += layout(W, R, fid, S, ts, N, conv, n)
    return obs


def outside(ts):
    for t in ts:
        if t[0] == 'g':
            yield from outside(t[2])
        elif t[0] != 'rep':
            yield t


def sequences(ts):
    yield ts
    for t in ts:
        if t[0] == 'g':
            yield from sequences(t[2])


def type_args(ts, k):
    """Arguments between < > starting at k: ([tokens...], index after)"""
    depth, cur, out = 0, [], []
    while k < len(ts):
        t = ts[k]
        if t == ('t', '<'):
            depth += 1
            if depth > 1:
                cur.append(t)
        elif t == ('t', '>'):
            depth -= 1
            if depth == 0:
                return (out + [cur] if cur or out else out), k + 1
            cur.append(t)
        elif t == ('t', ',') and depth == 1:
            out.append(cur)
            cur = []
        else:
            cur.append(t)
        k += 1
    return None, k


def makers(W, aid):
    """Constructors of a type -> name"""
    return {fid: f['name'] for fid, f in W.F.fns.items() if fid in W.F.bodies and f['out']['k'] == 'adt' and f['out']['id'] == aid and f['in'] and not f.get('trait') and fid in W.ctor_fns_}


def maps(W):
    """The crate's types built from entries: name -> type"""
    if not hasattr(W, 'ctor_fns_'):
        W.ctor_fns_ = {f['id'] for _, f in c03.constructors(W)}
    return {W.F.fns[f]['out']['id'].split('::')[-1]: W.F.fns[f]['out']['id'] for f in W.ctor_fns_ if f in W.F.fns and W.F.fns[f]['out']['k'] == 'adt'}


def layout(W, R, fid, S, ts, N, conv, written):
    obs = []
    names = maps(W)
    named = named_type(S)
    args, ctor = None, None
    for seq in sequences(ts):
        for k, t in enumerate(seq):
            if t[0] != 't' or t[1] not in names:
                continue
            j = k + 1
            if j + 1 < len(seq) and seq[j] == ('t', '::') and seq[j + 1] == ('t', '<'):
                j += 1
            if j < len(seq) and seq[j] == ('t', '<'):
                args, j = type_args(seq, j)
            if j + 2 < len(seq) and seq[j] == ('t', '::') and seq[j + 1][0] == 't' and seq[j + 2][0] == 'g':
                ctor = (names[t[1]], seq[j + 1][1], split(seq[j + 2][2], ','))
    if ctor is None:
        return [ob(W, KEYTYPE, fid, False, False, 'no constructor of a map in %s' % (ts,))]
    aid, cname, cargs = ctor
    cargs = [a for a in cargs if a]
    # key type
    if args is not None and args and args[0] != [('t', '_')]:
        p = parsed(args[0][0][1]) if len(args[0]) == 1 and args[0][0][0] == 'x' else None
        word = ' '.join(t[1] for t in args[0]) if all(t[0] == 't' for t in args[0]) else None
        if p:
            ok, und = p[0] == 'Type' and p[1] == I(0) and conv is False, conv is None
        elif word is not None:
            w = word.split('::')[-1].strip()
            ok, und = (w == named and conv is False or w == 'String' and conv and named == '& str'), conv is None
        else:
            ok, und = False, True
        obs.append(ob(W, KEYTYPE, fid, ok, not und, 'key type %s for declared %s' % (args[0], named or 'type')))
    elif args is None or args[0] == [('t', '_')]:
        obs.append(ob(W, KEYTYPE, fid, False, False, 'key type left to inference'))
    # position type
    for a in (args or [])[2:]:
        if len(a) == 1 and a[0][0] == 't' and a[0][1] in PRIMS:
            s, b = PRIMS[a[0][1]]
            ok = b - s >= 64 or linear.entails(S.facts, ('lt', I(2 ** (b - s) - 1), written), False)
            obs.append(ob(W, WIDTH, fid, ok, True, '%s positions for %s pairs when %s' % (a[0][1], show(written), showfacts(S.facts)[-300:])))
    # what the layout asks of the keys
    if reaches(W, aid, set(W.ranges)):
        ks, und = rangemap.runs(W, R.it, S)
        ok = any(all_keys(k[2], k[1], N, S.facts) for k in ks)
        some = partial(S)
        lost = ks and all(some & subterms(k) for k in ks)
        obs.append(ob(W, RANGE, fid, ok, lost or not und and clear(S), 'chosen when %s' % showfacts(S.facts)[-500:]))
    if len(cargs) > 1:
        obs += window(W, R, fid, S, aid, cname, cargs[1:], N)
    elif any(len(W.F.fns[c]['in']) > 1 and c21_window(W, c) for c, n in makers(W, aid).items() if n == cname):
        obs.append(ob(W, SLICE, fid, False, False, 'no window given'))
    return obs


def reaches(W, aid, targets):
    def go(ty, seen):
        ty = world.adt_of(ty)
        if ty['k'] != 'adt' or ty['id'] in seen:
            return False
        if ty['id'] in targets:
            return True
        a = W.F.adts.get(ty['id'])
        return bool(a) and any(go(f['ty'], seen | {ty['id']}) for v in a['variants'] for f in v['f'])
    a = W.F.adts[aid]
    return aid in targets or any(go(f['ty'], {aid}) for v in a['variants'] for f in v['f'])


def all_keys(e, n, N, facts):
    """Is e, for a position below n, the literal value of the key of that pair, for all pairs?"""
    ks = {k for k in nodes(e) if k[0] == 'Expr'}
    if len(ks) != 1 or not linear.entails(facts, ('eq', n, N), True):
        return False
    c, d = terms.parts(ks.pop()[1])
    return c == 1 and list(d.values()) == [2] and e[0] == 'vf' and e[1][0] == 'app' and str(e[1][1]).startswith('base10:')


def c21_window(W, c):
    return any(t['k'] == 'adt' and t['n'].split('::')[-1].startswith('Range') for t in W.F.fns[c]['in'])


def number(ts):
    """Value of an expression over numbers."""
    if len(ts) == 1 and ts[0][0] == 'g' and ts[0][1] in ('Parenthesis', 'None'):
        return number(ts[0][2])
    for op in ('+', '-'):
        if ('t', op) in ts:
            k = len(ts) - 1 - ts[::-1].index(('t', op))
            a, b = number(ts[:k]), number(ts[k + 1:])
            return None if a is None or b is None else add(a, b) if op == '+' else sub(a, b)
    if len(ts) == 1 and ts[0][0] == 'x':
        return ts[0][1]
    if len(ts) == 1 and ts[0][0] == 't' and ts[0][1].replace('usize', '').isdigit():
        return I(int(ts[0][1].replace('usize', '')))
    return None


def window(W, R, fid, S, aid, cname, more, N):
    obs = []
    ctors = [c for c, n in makers(W, aid).items() if n == cname]
    ends = split(more[0], '..')
    lo, hi = (number(ends[0]), number(ends[1])) if len(ends) == 2 else (None, None)
    if len(ctors) != 1 or lo is None or hi is None:
        return [ob(W, SLICE, fid, False, False, 'window %s' % (more,))]
    rep = next((t for x in (lo, hi) for t in subterms(x) if t and t[0] == 'app' and str(t[1]).startswith('sum:')), None)
    if rep is None:
        return [ob(W, SLICE, fid, False, understood(lo) and understood(hi), 'window %s..%s comes from no analysis' % (show(lo), show(hi)))]
    variant = next((a[2] for a, p in S.facts if p and a[0] == 'is' and a[1] == rep), None) or next((t[2] for x in (lo, hi) for t in subterms(x) if t and t[0] == 'vf' and t[1] == rep), None)
    rs = c21.reports(W)
    shapes = c21.recommended(W)
    R.activate()
    if variant not in shapes or rep[1][4:] not in rs:
        return [ob(W, SLICE, fid, False, False, 'report %s' % variant)]
    ok, und = analysed(R, S, rep, N)
    obs.append(ob(W, SLICE, fid, ok, not und, 'the analysis saw %s of the keys of %s pairs' % (show(rep[2])[:300], show(N))))
    # the constructor, with the window put in
    cid = ctors[0]
    kt, key = W.F.fns[cid]['out']['a'][0], string(W)
    Q = W.analyse(cid, 'macro ctor', env={kt['n']: key} if kt['k'] == 'param' and key else {})
    if Q.error:
        return obs + [Ob(SLICE, W.fname(fid), W.span(fid), UNDECIDED, Q.error)]
    names = run.param_names(W.F.bodies[cid])
    got = 0
    for o in Q.outs:
        Q.activate()
        if o[0] != 'ret' or not W.feasible(Q.it, o[1].facts):
            continue
        for q, part in c21.hashed(W, Q, cid, o):
            par = [n for n, t in zip(names, W.F.fns[cid]['in']) if t['k'] == 'adt' and t['n'].split('::')[-1].startswith('Range')]
            m = {('f', ('sym', par[0]), 'start'): lo, ('f', ('sym', par[0]), 'end'): hi} if par else {}
            got += 1
            ob_ = c21.same_window(W, cid, q[1].facts, subst(part, m), rep, variant, shapes[variant])
            obs.append(Ob(SLICE, W.fname(fid), W.span(fid), ob_.status, ob_.detail and '%s %s' % (cname, ob_.detail)))
    R.activate()
    if not got:
        obs.append(ob(W, SLICE, fid, False, False, 'what %s hashes is not known' % W.fname(cid)))
    return obs


def string(W):
    """The type String, as implementations name it."""
    return next((i['self'] for t in W.F.by_trait.values() for i in t if i['self']['k'] == 'adt' and i['self']['n'].endswith('string::String')), None)


def analysed(R, S, rep, N):
    """Did the analysis see the text of every key?"""
    it = R.it
    x = rep[2]
    fs = []
    while x[0] == 'agg' and x[1][0] == 'it' and 'inner' in x[2]:
        d = dict(zip(x[2], x[3]))
        if x[1][1] == 'map':
            fs.append(d['f'])
        elif x[1][1] in ('skip', 'step_by', 'filter', 'filter_map', 'take', 'take_while', 'skip_while'):
            return False, not understood(x)
        elif x[1][1] not in ('cloned', 'copied', 'rev', 'fuse', 'peekable'):
            return False, True
        x = d['inner']
    if x[0] == 'agg' and x[1][0] == 'it' and set(x[2]) >= {'s', 'i', 'e'}:
        d = dict(zip(x[2], x[3]))
        s = it.strip(S, d['s'])
        if s[0] != 'build' or d['i'] != I(0) or d['e'] != mklen(s):
            return False, not (s[0] == 'build' and understood(d['i']) and understood(d['e']))
        x = s
    if x[0] != 'build':
        return False, True
    y = x[3]
    ks = {k for k in nodes(y) if k[0] == 'Expr'}
    lits = [t for t in subterms(y) if t and t[0] == 'app' and t[1] == 'LitStr::value']
    if len(ks) != 1 or len(lits) != 1:
        return False, not understood(y)
    m = ('sym', 'text:')
    fr = Frame(it.F.bodies[next(iter(it.F.bodies))], it.intern('text', 0), {}, 0, ())
    for f in [None] + fs[::-1]:
        z = subst(y, {lits[0]: m})
        if f is not None:
            os_ = [o for o in it.call_value(S, f, [m], Ctx(it, fr, '', ('text', str(f)[:40])))]
            if len(os_) != 1 or os_[0][0] != 'ret':
                return False, True
            z = it.strip(os_[0][1], os_[0][2])
        if z != m:
            return False, not understood(z)
    c, d = terms.parts(ks.pop()[1])
    ok = c == 1 and list(d.values()) == [2] and linear.entails(S.facts, ('eq', x[1], N), True)
    return ok, not understood(x[1])


# ---- type checking --------------------------------------------------------------

HEAD = '''#![allow(dead_code, unused)]
pub use frozen_collections::frozen_map;
#[derive(PartialEq, Eq, Hash)]
pub struct Key(u32);
pub struct Value(u32);
'''


def typed(W, todo):
    """Compile every distinct template with keys and values that can do nothing but what keys and values must."""
    seen, obs = {}, []
    for t in todo:
        fid, ts, named, S = t[:4]
        kind = t[4] if len(t) > 4 else 'block'
        try:
            src = write(ts, named)
        except Shape as e:
            obs.append(ob(W, TYPED, fid, False, False, 'expands to %s' % e))
            continue
        if kind == 'block':
            src = 'let m = %s ;' % src
        elif kind == 'Expr':
            src = 'let k = %s ;' % src
        else:
            src = 'let k: Option<%s> = None;' % src
        seen.setdefault(src, (fid, named, S))
    srcs = list(seen)
    text = HEAD + ''.join('pub fn w%d() { %s }\n' % (k, s) for k, s in enumerate(srcs))
    errs, why = compile_(W, text)
    base = HEAD.count('\n') + 1
    for k, s in enumerate(srcs):
        fid, named, S = seen[s]
        if errs is None:
            obs.append(ob(W, TYPED, fid, False, False, why))
        else:
            es = errs.get(base + k)
            obs.append(ob(W, TYPED, fid, not es, True, '%s keys: %s in `%s`' % (named or 'other', '; '.join(es or ())[:300], s[:500])))
    if errs:
        rest = [e for l, e in errs.items() if not base <= l < base + len(srcs)]
        if rest:
            obs.append(Ob(TYPED, 'frozen_map', '', VIOLATED if any('frozen_map' in x for e in rest for x in e) else UNDECIDED, '; '.join(x for e in rest for x in e)[:500]))
    return obs


def compile_(W, text):
    """{line: [messages]} of the errors of a crate using the library, or (None, why)"""
    libs = glob.glob(os.path.join(W.facts_dir, 'lib', 'libfrozen_collections-*.rmeta'))
    if len(libs) != 1:
        return None, 'the library is not built'
    d = tempfile.mkdtemp(prefix='witness', dir=W.work)
    try:
        src = os.path.join(d, 'witness.rs')
        with open(src, 'w') as f:
            f.write(text)
        cmd = ['rustc', '+nightly', '--edition', '2021', '--crate-type', 'lib', '--emit', 'metadata', '--error-format', 'json', '-o', os.path.join(d, 'out.rmeta'),
               '--extern', 'frozen_collections=' + libs[0], '-L', 'dependency=' + os.path.dirname(libs[0])]
        for x in sorted({os.path.dirname(p) for p in glob.glob(os.path.join(W.work, 'target', 'debug', '**', '*.rmeta'), recursive=True) + glob.glob(os.path.join(W.work, 'target', 'debug', '**', '*.so'), recursive=True)}):
            if 'frozen' not in x:
                cmd += ['-L', 'dependency=' + x]
        r = subprocess.run(cmd + [src], capture_output=True, text=True, cwd=d)
        errs = {}
        for l in r.stderr.splitlines():
            if not l.startswith('{'):
                continue
            m = json.loads(l)
            if m.get('level') != 'error':
                continue
            sp = [s for s in m.get('spans', []) if s['is_primary'] and s['file_name'] == src]
            if sp:
                errs.setdefault(sp[0]['line_start'], []).append(m['message'])
            elif not m['message'].startswith('aborting'):
                return None, m['message'][:300]
        if r.returncode and not errs:
            return None, r.stderr[-300:]
        return errs, ''
    finally:
        shutil.rmtree(d, ignore_errors=True)
