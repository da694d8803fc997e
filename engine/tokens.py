"""Token streams as symbolic sequences: models of proc_macro2, quote and syn.

A stream is a sequence of chunks ('app', 'toks', t...), a token being one of
  ('app', 'tok', ('sym', text))        a fixed token
  ('app', 'group', ('sym', delim), stream)
  ('app', 'tokens', x)                 the tokens of the syntax node or value x
  ('app', 'stream', x)                 the tokens of the stream x
Parsing a stream as T gives ('app', 'parse2:T', stream), with the node parsed as payload of its Ok.
"""
import ast

from terms import *
from facts import *

PUNCT = {'add': '+', 'add_eq': '+=', 'and': '&', 'and_and': '&&', 'and_eq': '&=', 'at': '@', 'bang': '!', 'caret': '^', 'caret_eq': '^=', 'colon': ':', 'colon2': '::', 'comma': ',',
         'div': '/', 'div_eq': '/=', 'dot': '.', 'dot2': '..', 'dot3': '...', 'dot_dot_eq': '..=', 'eq': '=', 'eq_eq': '==', 'ge': '>=', 'gt': '>', 'le': '<=', 'lt': '<', 'mul_eq': '*=',
         'ne': '!=', 'or': '|', 'or_eq': '|=', 'or_or': '||', 'pound': '#', 'question': '?', 'rarrow': '->', 'larrow': '<-', 'rem': '%', 'rem_eq': '%=', 'fat_arrow': '=>', 'semi': ';',
         'shl': '<<', 'shl_eq': '<<=', 'shr': '>>', 'shr_eq': '>>=', 'star': '*', 'sub': '-', 'sub_eq': '-=', 'underscore': '_'}
NAMES = {'Comma': ',', 'Colon': ':', 'Semi': ';', 'PathSep': '::', 'Colon2': '::', 'Eq': '=', 'Lt': '<', 'Gt': '>', 'Plus': '+', 'DotDot': '..', 'Dot': '.', 'FatArrow': '=>', 'RArrow': '->', 'Minus': '-',
         'And': '&', 'Bang': '!', 'Let': 'let', 'Not': '!', 'Underscore': '_', 'Star': '*'}
STREAM = 'TokenStream'


def tok(s):
    return ('app', 'tok', ('sym', s))


def is_toks(t):
    return t[0] == 'app' and t[1] == 'toks'


def pushed(s, t):
    """The stream with one more token."""
    if s[0] == 'push' and is_toks(s[2]):
        return ('push', s[1], s[2] + (t,))
    if s[0] == 'agg' and s[1] == ('array',) and s[3] and is_toks(s[3][-1]):
        return ('agg', s[1], s[2], s[3][:-1] + (s[3][-1] + (t,),))
    return mkpush(s, ('app', 'toks', t))


def stream_of(*ts):
    s = EMPTY
    for t in ts:
        s = pushed(s, t)
    return s


def text(v):
    """The string literal a term is, or None."""
    return v[1][4:] if v[0] == 'sym' and str(v[1]).startswith('str:') else None


def looks_like_stream(v):
    return v == EMPTY or v[0] in ('push', 'concat', 'build') or v[0] == 'agg' and v[1] == ('array',) and all(is_toks(x) for x in v[3])


def tokens_of(it, S, ty, x):
    """One token standing for the tokens of a value of the type."""
    while ty['k'] == 'ref':
        ty = ty['t']
    x = it.strip(S, x)
    while x[0] == 'agg' and x[1][0] == 'adt' and str(x[1][1]).endswith('RepInterp') and x[3]:
        x = x[3][0]
    if looks_like_stream(x):
        return ('app', 'stream', x)
    if x[0] == 'app' and str(x[1]).startswith('token:') and NAMES.get(x[1][6:]):
        return tok(NAMES[x[1][6:]])
    if x[0] == 'app' and x[1] == 'ident':
        n = text(x[2])
        return tok(n) if n is not None else ('app', 'tokens', x)
    return ('app', 'tokens', x)


def short_ty(t):
    while t['k'] == 'ref':
        t = t['t']
    return ty_str(t).split('::')[-1] if t['k'] == 'adt' else ty_str(t)


def install(it):
    from models import ret, itv, tup, some, cases
    std = it.std_contracts

    def here(S, r):
        return it.read(S, it.place_of(r))

    def put(S, r, v):
        S = S.copy()
        it.write(S, it.place_of(r), v)
        return ret(S, UNIT)

    def add_tok(make):
        def h(it, S, a, c):
            return put(S, a[0], pushed(here(S, a[0]), make(it, S, a, c)))
        return h
    Q = '__private::'
    for n, s in PUNCT.items():
        std[Q + 'push_' + n] = add_tok(lambda it, S, a, c, s=s: tok(s))

    def named(k):
        def h(it, S, a, c):
            s = text(it.strip(S, a[k]))
            return tok(s) if s is not None else ('app', 'tokens', ('app', 'ident', it.strip(S, a[k])))
        return h
    std[Q + 'push_ident'] = add_tok(named(1))
    std[Q + 'push_ident_spanned'] = add_tok(named(2))
    std[Q + 'push_lifetime'] = add_tok(named(1))
    words = add_tok(named(1))

    def parse_quote(it, S, a, c):
        if len(a) > 1:
            return words(it, S, a, c)
        out = []
        for o in parse2(it, S, a, c):
            if o[0] != 'ret':
                out.append(o)
                continue
            for good, p, S2 in cases(it, o[1], o[2], 'Result'):
                out.append(('ret', S2, p) if good else ('panic', S2, 'parse_quote'))
        return out
    std[Q + 'parse'] = std[Q + 'parse_quote'] = std['parse_quote::parse'] = parse_quote

    def group(it, S, a, c):
        d = it.strip(S, a[1])
        d = d[1][2] if d[0] == 'agg' and d[1][0] == 'adt' and len(d[1]) > 2 else '?'
        return ('app', 'group', ('sym', str(d)), it.strip(S, a[2]))
    std[Q + 'push_group'] = add_tok(group)
    std['Ident::new'] = std['proc_macro2::Ident::new'] = std['Ident::new_raw'] = \
        std[Q + 'mk_ident'] = lambda it, S, a, c: ret(S, ('app', 'ident', it.strip(S, a[0])))

    def to_tokens(it, S, a, c):
        return put(S, a[1], pushed(here(S, a[1]), tokens_of(it, S, c.targs[0], a[0])))

    def to_stream(it, S, a, c):
        ty = c.targs[0]
        x = it.strip(S, a[0])
        if looks_like_stream(x):
            return ret(S, x)
        # through the node's own to_tokens when it is local
        f = local_to_tokens(it, ty)
        if f:
            root = c.tmp('ts')
            S = S.copy()
            S.mem[root] = EMPTY
            out = []
            for o in it.inline(c.fr, S, it.F.bodies[f[0]], [a[0], ('ref', (root, ()), True)], c.sub('to_tokens'), f[1]):
                out.append(('ret', o[1], o[1].mem[root]) if o[0] == 'ret' else o)
            return out
        return ret(S, stream_of(tokens_of(it, S, ty, a[0])))

    def local_to_tokens(it, ty):
        while ty['k'] == 'ref':
            ty = ty['t']
        found = it.F.find_impl('quote::ToTokens', ty)
        item = found and next((i for i in found[0]['items'] if i['n'] == 'to_tokens'), None)
        return (item['id'], dict(found[1])) if item and item['id'] in it.F.bodies else None

    def rep_to_tokens(it, S, a, c):
        """ToTokens of RepInterp<T>, references and the like: those of T"""
        ty = c.targs[0]
        x = a[0]
        while True:
            if ty['k'] == 'ref':
                ty = ty['t']
                v = it.read(S, it.place_of(x)) if x[0] == 'ref' else x
                x = v if v[0] == 'ref' else x
            elif ty['k'] == 'adt' and ty['n'].split('::')[-1] in ('RepInterp', 'Box'):
                v = it.deref(S, x)
                while v[0] == 'agg' and v[1][0] == 'adt' and v[3] and str(v[1][1]).endswith('RepInterp'):
                    v = v[3][0]
                x = v
                ty = next(t for t in ty['a'] if t['k'] != 'region')
            else:
                break
        f = local_to_tokens(it, ty)
        if f:
            if x[0] != 'ref':
                root = c.tmp('node')
                S = S.copy()
                S.mem[root] = x
                x = ('ref', (root, ()), False)
            return it.inline(c.fr, S, it.F.bodies[f[0]], [x, a[1]], c.sub('to_tokens'), f[1])
        return put(S, a[1], pushed(here(S, a[1]), tokens_of(it, S, ty, x)))
    std['quote::ToTokens::to_tokens'] = std['ToTokens::to_tokens'] = rep_to_tokens
    for n in ('to_token_stream', 'into_token_stream'):
        std['quote::ToTokens::' + n] = std['ToTokens::' + n] = to_stream
    std['proc_macro2::TokenStream::new'] = std['TokenStream::new'] = lambda it, S, a, c: ret(S, EMPTY)

    def is_token(t):
        return t['k'] == 'adt' and 'token' in t['id'].split('::')

    def default(it, S, a, c):
        if c.targs and is_token(c.targs[0]):
            return ret(S, ('app', 'token:' + short_ty(c.targs[0])))
        return ret(S, EMPTY) if c.targs and short_ty(c.targs[0]) == STREAM else None
    std['Default::default'] = default

    def extend(it, S, a, c):
        if short_ty(c.targs[0]) != STREAM:
            return None
        return put(S, a[0], pushed(here(S, a[0]), ('app', 'stream', it.strip(S, a[1]))))
    std['Extend::extend'] = extend

    # repetition
    def rep(it, S, a, c):
        v = a[0]
        pl = it.place_of(v)
        return ret(S, tup(itv('ref', s=('ref', pl, False), i=I(0), e=mklen(it.read(S, pl))), UNIT))

    def rep_iter(it, S, a, c):
        return ret(S, tup(a[0], UNIT))
    for n in ('RepAsIteratorExt', 'ext::RepAsIteratorExt'):
        std[n.split('::')[-1] + '::quote_into_iter'] = rep
    std['RepAsIteratorExt::quote_into_iter'] = rep
    std['RepIteratorExt::quote_into_iter'] = rep_iter
    unit = lambda it, S, a, c: ret(S, UNIT)
    std['CheckHasIterator::check'] = unit

    def bitor(it, S, a, c):
        return ret(S, UNIT) if short_ty(c.targs[0]).startswith(('HasIterator', 'ThereIsNoIteratorInRepetition')) else None
    std['BitOr::bitor'] = bitor

    # text
    std['Argument::new_display'] = lambda it, S, a, c: ret(S, ('app', 'display', it.strip(S, a[0])))
    std['Arguments::new'] = std['Arguments::from_str'] = std['Arguments::new_const'] = lambda it, S, a, c: ret(S, ('app', 'fmtargs') + tuple(it.strip(S, x) for x in a))
    std['hint::must_use'] = lambda it, S, a, c: ret(S, a[0])

    def written(x):
        while x[0] == 'app' and x[1] == 'ident' or x[0] == 'agg' and x[1][0] == 'adt' and str(x[1][1]).endswith('IdentFragmentAdapter') and x[3]:
            x = x[2] if x[0] == 'app' else x[3][0]
        return x if text(x) is not None or x[0] == 'app' and x[1] == 'text' else ('app', 'text', x)

    def fmt(it, S, a, c):
        v = a[0]
        if v[0] == 'app' and v[1] == 'fmtargs':
            args = v[3][3] if len(v) > 3 and v[3][0] == 'agg' else ()
            parts = template(v[2])
            if parts == [None] and len(args) == 1 and args[0][0] == 'app' and args[0][1] == 'display':
                return ret(S, written(args[0][2]))
            if parts is not None and parts.count(None) == len(args):
                args = iter(args)
                out = ''
                for p in parts:
                    if p is None:
                        x = next(args)
                        p = text(written(x[2])) if x[0] == 'app' and x[1] == 'display' else None
                    if p is None:
                        return ret(S, ('unk', 'format', v))
                    out += p
                return ret(S, ('sym', 'str:' + out))
        return ret(S, ('unk', 'format', v))
    std['fmt::format'] = std['std::fmt::format'] = fmt

    def to_string(it, S, a, c):
        return ret(S, written(it.strip(S, a[0])))
    std['ToString::to_string'] = to_string
    std['String::as_str'] = lambda it, S, a, c: ret(S, it.strip(S, a[0]))

    # parsing: a buffer is a place counting the nodes taken from it so far
    def local_parse(ty):
        found = it.F.find_impl('syn::parse::Parse', ty) or it.F.find_impl('syn::parse_quote::ParseQuote', ty)
        item = found and next((i for i in found[0]['items'] if i['n'] == 'parse'), None)
        return (item['id'], dict(found[1])) if item and item['id'] in it.F.bodies else None

    def parse2(it, S, a, c):
        t = c.targs[0]
        ts = it.strip(S, a[0])
        f = local_parse(t)
        if not f:
            return ret(S, ('app', 'parse2:' + short_ty(t), ts))
        root = c.tmp('buffer')
        S = S.copy()
        S.mem[root] = ('app', 'buffer', ts)
        S.mem[side(root, 'nodes')] = I(0)
        S.mem[side(root, 'all')] = I(0)
        out = []
        for o in it.inline(c.fr, S, it.F.bodies[f[0]], [('ref', (root, ()), False)], c.sub('parse2'), f[1]):
            if o[0] != 'ret':
                out.append(o)
                continue
            # what is left over is refused
            v = it.strip(o[1], o[2])
            if v[0] == 'agg' and v[1][2] == 'Ok':
                rest = ('app', 'all used', ts)
                for pol, S2 in it.branch(o[1], it.is_lit(rest, 'Result', 'Ok')):
                    out.append(('ret', S2, v if pol else ('agg', v[1][:2] + ('Err',), ('0',), (('vf', rest, 'Err', '0'),))))
            else:
                out.append(o)
        return out
    for n in ('to_compile_error', 'into_compile_error'):
        std['Error::' + n] = std['syn::Error::' + n] = lambda it, S, a, c: ret(S, ('app', 'compile_error', it.strip(S, a[0])))
    std['syn::parse2'] = std['parse2'] = parse2

    def side(root, n):
        return ('side', root, n)

    def buffer(S, a):
        root, path = it.place_of(a)
        while True:
            v = S.mem.get(root)
            if v is not None and v[0] == 'ref':
                root, path = v[1]
                continue
            break
        return root if S.mem.get(side(root, 'nodes')) is not None else None

    def buf_parse(it, S, a, c):
        root = buffer(S, a[0])
        t = c.targs[-1]
        if root is None:
            return ret(S, ('unk', 'parse', a[0]))
        f = local_parse(t)
        if f:
            return it.inline(c.fr, S, it.F.bodies[f[0]], [a[0]], c.sub('parse'), f[1])
        S = S.copy()
        n, m = S.mem[side(root, 'nodes')], S.mem[side(root, 'all')]
        S.mem[side(root, 'all')] = add(m, I(1))
        if t['k'] == 'adt' and t['n'].split('::')[-1] == 'Option' and len(t['a']) == 1 and is_token(t['a'][0]):
            return ret(S, ('agg', ('adt', 'Result', 'Ok'), ('0',), (('app', 'maybe:' + short_ty(t['a'][0]), S.mem[root], m),)))
        if is_token(t):
            return ret(S, ('app', 'punct:' + short_ty(t), S.mem[root], m))
        S.mem[side(root, 'nodes')] = add(n, I(1))
        return ret(S, ('app', 'parsed:' + short_ty(t), S.mem[root], n))
    std['ParseBuffer::parse'] = buf_parse

    def look(name):
        def h(it, S, a, c):
            root = buffer(S, a[0])
            if root is None:
                return ret(S, ('unk', name, a[0]))
            return ret(S, ('app', name, S.mem[root], S.mem[side(root, 'all')]) + tuple(a[1:]))
        return h
    std['ParseBuffer::is_empty'] = look('is_empty')
    std['ParseBuffer::peek'] = look('peek')
    std['ParseBuffer::peek2'] = look('peek2')
    std['LitInt::base10_parse'] = std['syn::LitInt::base10_parse'] = lambda it, S, a, c: ret(S, ('app', 'base10:' + ty_str(c.targs[0]), it.strip(S, a[0])))
    std['LitStr::value'] = std['syn::LitStr::value'] = lambda it, S, a, c: ret(S, ('app', 'LitStr::value', it.strip(S, a[0])))
    std['LitInt::base10_digits'] = lambda it, S, a, c: ret(S, ('app', 'base10_digits', it.strip(S, a[0])))


def template(t):
    """Pieces of a format template, None standing for a plain {}; None if not understood."""
    if text(t) is not None:
        return [text(t)]
    if t[0] != 'sym' or not str(t[1]).startswith('const:b"'):
        return None
    try:
        b = ast.literal_eval(t[1][6:])
    except (ValueError, SyntaxError):
        return None
    out, i = [], 0
    while i < len(b):
        if b[i] == 0:
            return out if i == len(b) - 1 else None
        if b[i] == 0xc0:
            out.append(None)
            i += 1
        elif b[i] < 0x80:
            out.append(b[i + 1:i + 1 + b[i]].decode('utf8', 'replace'))
            i += 1 + b[i]
        else:
            return None
    return None
