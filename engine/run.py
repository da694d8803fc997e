"""Entry points: abstract arguments for a function and its outcomes."""
from interp import *
from terms import *


def param_names(body):
    return [body.locals[i + 1].get('n') or 'a%d' % i for i in range(body.argc)]


def arg_value(name, ty, S):
    v = ('sym', name)
    if ty['k'] == 'prim' and ty['n'] in PRIM_UNSIGNED:
        UNSIGNED.add(v)
    return v


def analyse(it, fid, args=None, env=None, S=None):
    """Outcomes of a function of the crate on arbitrary arguments."""
    F = it.F
    body = F.bodies[fid]
    S = S or St()
    fr = Frame(body, it.intern('entry', fid), env or {}, 0, (body.id,))
    if args is None:
        args = [arg_value(n, subst_ty(body.locals[i + 1]['ty'], env or {}), S) for i, n in enumerate(param_names(body))]
    S = S.copy()
    for i, a in enumerate(args):
        S.mem[('loc', fr.fid, i + 1)] = it.coerce(a, subst_ty(body.locals[i + 1]['ty'], env or {}))
    return it.run_body(fr, S)


def show_out0(it, o):
    S = o[1]
    v = o[2] if len(o) > 2 else None
    return '%s %s\n     if %s%s' % (o[0], show(it.strip(S, v)) + '   [' + show(v) + ']' if isinstance(v, tuple) else v, showfacts(S.facts),
                                   ''.join('\n     loop %s x%s bound %s backs %s' % (l, show(n), show(r.bound) if r.bound else None, ' || '.join(showfacts(f) + ' :: ' + ','.join('%s:=%s' % (show(k), show(v)) for k, v in m.items()) for f, _, m in r.backs)) for l, n, r in S.loops))


def show_out(it, o):
    S = o[1]
    v = o[2] if len(o) > 2 else None
    r = [o[0] + ' ' + (show(it.strip(S, v)) + '   [' + show(v) + ']' if isinstance(v, tuple) else str(v)), '     if ' + showfacts(S.facts)]

    def loops(ls, ind):
        for l, n, rec in ls:
            r.append(ind + 'loop %s taken %s, bound %s' % (l, show(n), show(rec.bound) if rec.bound else None))
            for f, inner, m in rec.backs:
                r.append(ind + '  back: ' + showfacts(f) + ' :: ' + ', '.join('%s := %s' % (show(k), show(v)) for k, v in m.items()))
                loops(inner, ind + '    ')
    loops(S.loops, '     ')
    return '\n'.join(r)
