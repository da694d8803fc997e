"""C16: equality compares contents only."""
from base import *
import lookup
import setlaws
from setlaws import elems, member, forall, exists

ASSUME = ['distinct keys and lawful Eq, Hash and Set implementations; lookups answer as C01 and C02 say, iteration and length as C11 and C18 say']
RULE = 'equality: equal is reported exactly when both hold the same entries'
DECL = 'declared: inequality is the negation of equality'


def impls(W):
    for aid in list(W.maps) + list(W.sets):
        for imp in W.F.j['impls']:
            if imp['self'].get('id') == aid and (imp['trait'] or '').split('::')[-1] == 'PartialEq':
                for i in imp['items']:
                    if i['id'] in W.F.bodies and i['n'] in ('eq', 'ne'):
                        yield aid, imp, i['n'], i['id']


def subject(x):
    """the key of an element"""
    return x


def member_key(x, m, q, facts):
    """Is the key of entry x of m among the keys of q?"""
    for a, p in facts:
        if a[0] == 'b' and a[1][:2] == ('app', 'in') and a[1][2] in (x, ('f', x, '0')) and a[1][3] == q:
            return p
    return None


def same_value(x, q, facts):
    """Does q associate an equal value with the key of entry x?"""
    v, w = ('f', x, '1'), ('app', 'at', q, ('f', x, '0'))
    for a, p in facts:
        if a[0] == 'b' and a[1][0] == 'app' and set(a[1][2:]) == {v, w} and a[1][1] in ('eq', '=='):
            return p
        if a[0] in ('is', 'eq') and set(a[1:]) == {v, w}:
            return p
    return None


def fits(aid, W, a, b):
    def good(x, fs):
        if aid not in W.maps:
            return member(x, b, fs) is True
        return member_key(x, a, b, fs) is True and same_value(x, b, fs) is True
    return good


def breaks(aid, W, a, b):
    def bad(x, fs):
        if aid not in W.maps:
            return member(x, b, fs) is False
        return member_key(x, a, b, fs) is False or same_value(x, b, fs) is False
    return bad


def check(W):
    obs = []
    for aid, imp, n, fid in impls(W):
        R = W.analyse(fid, 'laws', setup=lambda it: setlaws.install(W, it, [aid]), budget=200000)
        if R.error:
            obs.append(ob(W, RULE, fid, False, False, R.error))
            continue
        a, b = [('sym', x) for x in run.param_names(W.F.bodies[fid])[:2]]
        A, B = elems(a), elems(b)
        for S, t, v in setlaws.decisions(W, R):
            if t is None:
                obs.append(ob(W, RULE, fid, False, v[0] == 'panic' and lookup.und_facts(S.facts), 'answers %s' % (v[1:],)))
                continue
            und = not setlaws.murky(S, A, B)
            if n == 'ne':
                t = not t
            when = ' when ' + showfacts(S.facts)
            if t:
                one = forall(S, A, fits(aid, W, a, b))
                two = forall(S, B, fits(aid, W, b, a))
                both = one is None and two is None
                if one is None or two is None:
                    x, y = (A, B) if one is None else (B, A)
                    ok = both or linear.entails(S.facts, ('lt', mklen(x), mklen(y)), False)
                    obs.append(ob(W, RULE, fid, ok, und, 'equal although %s may hold entries that %s lacks%s' % (show(y), show(x), when)))
                else:
                    obs.append(ob(W, RULE, fid, False, und, 'equal although entry %s of %s was not examined or does not fit%s' % (show(one), show(A), when)))
            else:
                ok = linear.entails(S.facts, eq(mklen(A), mklen(B))[1], False) or linear.entails(S.facts, ('lt', mklen(A), mklen(B)), True) or linear.entails(S.facts, ('lt', mklen(B), mklen(A)), True) \
                    or exists(S, A, breaks(aid, W, a, b)) or exists(S, B, breaks(aid, W, b, a))
                obs.append(ob(W, RULE, fid, bool(ok), und, 'unequal without an entry that differs' + when))
    return once(obs)
