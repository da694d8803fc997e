"""Values of integer terms at given leaves: tells two index functions of a hash code apart."""
from terms import *

BITS = {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'usize': 64, 'u128': 128, 'i8': 8, 'i16': 16, 'i32': 32, 'i64': 64, 'isize': 64, 'i128': 128}
M = 2 ** 64


def cast(x, t):
    b = BITS[t]
    x &= (1 << b) - 1
    return x - (1 << b) if t[0] == 'i' and x >> (b - 1) else x


def trem(a, b):
    r = abs(a) % abs(b)
    return -r if a < 0 else r


OPS = {
    'rem': trem, 'rem_euclid': lambda a, b: a % abs(b), 'div': lambda a, b: (a // b if a >= 0 else -(-a // b)),
    'bitand': lambda a, b: a & b, 'bitor': lambda a, b: a | b, 'bitxor': lambda a, b: a ^ b,
    'shl': lambda a, b: (a << b) % M, 'shr': lambda a, b: a >> b, 'min': min, 'max': max, 'mul': lambda a, b: a * b,
    'satsub': lambda a, b: max(a - b, 0), 'satadd': lambda a, b: min(a + b, M - 1), 'trunc': None,
    'wrapping_add': lambda a, b: (a + b) % M, 'wrapping_sub': lambda a, b: (a - b) % M, 'wrapping_mul': lambda a, b: (a * b) % M,
    'abs_diff': lambda a, b: abs(a - b), 'unsigned_abs': abs, 'count_ones': lambda a: bin(a % M).count('1'),
    'leading_zeros': lambda a: 64 - (a % M).bit_length(), 'rotate_left': lambda a, b: ((a << b % 64) | (a % M >> (64 - b % 64))) % M,
}


def leaves(t, known, out):
    """Collects what the term is computed from."""
    if t in known:
        out.add(t)
    elif t[0] == 'int':
        pass
    elif t[0] == 'lin':
        for x, _ in t[2]:
            leaves(x, known, out)
    elif t[0] == 'app' and (OPS.get(t[1]) or t[1].startswith('cast:') and t[1][5:] in BITS or t[1] == 'as_u64'):
        for x in t[2:]:
            leaves(x, known, out)
    else:
        out.add(t)
    return out


def value(t, env):
    if t in env:
        return env[t]
    if t[0] == 'int':
        return t[1]
    if t[0] == 'lin':
        return t[1] + sum(k * value(x, env) for x, k in t[2])
    if t[0] == 'app':
        a = [value(x, env) for x in t[2:]]
        if t[1].startswith('cast:'):
            return cast(a[0], t[1][5:])
        if t[1] == 'as_u64':
            return cast(a[0], 'u64')
        f = OPS.get(t[1])
        if f:
            return f(*a)
    raise ValueError(t)


CODES = [0, 1, 5, 97, 255, 256, 65535, 65537, 2 ** 31, 2 ** 32 - 1, 2 ** 32 + 3, 2 ** 40 + 77, 2 ** 63 - 1, 2 ** 63, 2 ** 63 + 12345, 2 ** 64 - 2, 2 ** 64 - 1]
SLOTS = [1, 2, 3, 7, 16, 37, 251, 1021, 65537]


def differ(k1, h1, n1, k2, h2, n2, facts=()):
    """A hash code and number of slots for which the two index functions disagree (None: none found, or not functions of these).

    The facts are about the leaves of the second one."""
    if leaves(k1, {h1, n1}, set()) - {h1, n1} or leaves(k2, {h2, n2}, set()) - {h2, n2}:
        return None
    for env in models(facts, {h2, n2}, {n2: SLOTS, h2: CODES}):
        h, n = env[h2], env[n2]
        try:
            a, b = value(k1, {h1: h, n1: n}), value(k2, {h2: h, n2: n})
        except (ValueError, ZeroDivisionError):
            continue
        if a != b:
            return h, n, a, b
    return None


def hash_leaf(k, n):
    """The one thing besides n the index is computed from."""
    ls = leaves(k, {n}, set()) - {n}
    return next(iter(ls)) if len(ls) == 1 else None


def lit_leaves(a, out):
    """Leaves of a literal's atom; False if it is not about numbers."""
    if a[0] in ('lt', 'eq'):
        leaves(a[1], (), out)
        leaves(a[2], (), out)
        return True
    if a[0] == 'b' and a[1][0] == 'app' and (a[1][1] == 'is_power_of_two' or fits(a) is not None):
        leaves(a[1][2], (), out)
        return True
    return False


def fits(a):
    """The range of the type a number is claimed to fit."""
    if a[1][1] == 'fits' and len(a[1]) == 4 and a[1][3][0] == 'sym' and a[1][3][1] in BITS:
        b = BITS[a[1][3][1]]
        return (-(1 << (b - 1)), (1 << (b - 1)) - 1) if a[1][3][1][0] == 'i' else (0, (1 << b) - 1)


def holds(a, env):
    if a[0] == 'lt':
        return value(a[1], env) < value(a[2], env)
    if a[0] == 'eq':
        return value(a[1], env) == value(a[2], env)
    x = value(a[1][2], env)
    if a[0] != 'b' or a[1][0] != 'app':
        raise ValueError(a)
    if fits(a):
        return fits(a)[0] <= x <= fits(a)[1]
    if a[1][1] != 'is_power_of_two':
        raise ValueError(a)
    return x > 0 and x & (x - 1) == 0


def relevant(facts, vs, most=5):
    """The facts that limit the given leaves, and all leaves they are about (None: too many)."""
    vs = set(vs)
    fs = []
    for a, p in facts:
        o = set()
        if lit_leaves(a, o):
            fs.append((a, p, o))
    used = []
    while True:
        more = [f for f in fs if f not in used and f[2] & vs]
        if not more:
            return used, vs
        for f in more:
            used.append(f)
            vs |= f[2]
        if len(vs) > most:
            return None


def models(facts, vs, given=(), limit=60000):
    """Assignments to the leaves that satisfy the facts about them."""
    r = relevant(facts, vs)
    if r is None:
        return
    used, vs = r
    order = sorted(vs, key=lambda t: (t not in given, key(t)))
    budget = [limit]

    def go(i, env):
        if budget[0] <= 0:
            return
        if i == len(order):
            yield dict(env)
            return
        x = order[i]
        cands = list(given[x]) if x in given else sorted({y + d for y in list(env.values()) + [0] for d in (-1, 0, 1, 2)} | {3, 7, 16, 2 ** 32 + 3, 2 ** 63 + 12345})
        for c in cands:
            if not 0 <= c < M:
                continue
            budget[0] -= 1
            env[x] = c
            ok = True
            for a, p, o in used:
                if x in o and all(y in env for y in o):
                    try:
                        if holds(a, env) != p:
                            ok = False
                            break
                    except (ValueError, ZeroDivisionError):
                        ok = False
                        break
            if ok:
                yield from go(i + 1, env)
            del env[x]
    yield from go(0, {})


HARD = {'bitand', 'bitor', 'bitxor', 'shl', 'shr', 'rem_euclid', 'wrapping_add', 'wrapping_sub', 'wrapping_mul', 'rotate_left', 'count_ones', 'leading_zeros', 'abs_diff', 'unsigned_abs', 'div', 'div_ceil', 'pow', 'next_power_of_two', 'trailing_zeros', 'ilog2'}


def hard(t):
    """Does the term use arithmetic that linear reasoning knows too little of?"""
    for x in subterms(t):
        if x and x[0] == 'app' and (x[1] in HARD or x[1] == 'mul' or x[1].startswith('cast:')):
            return True
    return False


def fails(lit, facts):
    """An assignment under which the facts hold and the literal does not (None: none found)."""
    o = set()
    if lit[0] != 'lit' or not lit_leaves(lit[1], o):
        return None
    for env in models(tuple(facts), o):
        try:
            if holds(lit[1], env) != lit[2]:
                return env
        except (ValueError, ZeroDivisionError):
            continue
    return None
