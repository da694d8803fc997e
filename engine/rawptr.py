"""Writes through pointers made from shared references, from the types in the MIR alone."""
from models import RAW_WRITES


def tainted(b):
    """Is a mutable pointer made from a shared one written through?  ((span, what) or None, pointers made)"""
    t = {}
    n = 0
    changed = True
    while changed:
        changed = False
        for blk in b.blocks:
            for s in blk['s']:
                if s['s'] != 'assign' or s['p']['p']:
                    continue
                r, l = s['r'], s['p']['l']
                if l in t:
                    continue
                if r['r'] == 'cast' and r['ty']['k'] == 'ptr' and r['ty']['m'] and (r['from']['k'] == 'ptr' and not r['from']['m'] or r['from']['k'] == 'ref' and not r['from']['m']):
                    t[l] = s.get('sp')
                elif r['r'] == 'cast' and r['ty']['k'] == 'ref' and r['ty']['m'] and r['from']['k'] in ('ref', 'ptr') and not r['from']['m']:
                    t[l] = s.get('sp')
                elif r['r'] in ('use', 'cast') and used(r['o']) in t and b.locals[l]['ty']['k'] in ('ptr', 'ref') and b.locals[l]['ty']['m']:
                    t[l] = s.get('sp')
                else:
                    continue
                changed = True
            c = blk['t']
            if c['t'] == 'call' and c['f']['o'] == 'fn' and not c['d']['p'] and c['d']['l'] not in t:
                name = c['f']['callee']['fn'].split('::')[-1].split('<')[0]
                if name == 'transmute' and mut_from_shared(c['f']['callee']) or name == 'cast_mut' or any(used(o) in t for o in c['a']) and b.locals[c['d']['l']]['ty']['k'] == 'ptr' and b.locals[c['d']['l']]['ty']['m']:
                    t[c['d']['l']] = c.get('sp')
                    changed = True
    if not t:
        return None, 0
    for l in t:
        if b.locals[l]['ty']['k'] == 'ref':
            return (t[l], 'makes a mutable reference from a shared one'), 1
    for blk in b.blocks:
        for s in blk['s']:
            if s['s'] != 'assign':
                continue
            if s['p']['l'] in t and s['p']['p'] and s['p']['p'][0][0] == 'deref':
                return (s.get('sp'), 'assigns through a pointer made from a shared reference'), 1
            r = s['r']
            if r['r'] in ('ref', 'raw') and r['m'] and r['p']['l'] in t and r['p']['p'] and r['p']['p'][0][0] == 'deref' and not (r['r'] == 'raw'):
                return (s.get('sp'), 'makes a mutable reference from a shared one'), 1
        c = blk['t']
        if c['t'] == 'call' and c['f']['o'] == 'fn':
            name = c['f']['callee']['fn'].split('::')[-1].split('<')[0]
            if c['f']['callee'].get('unsafe') and any(used(o) in t for o in c['a']) and (name in RAW_WRITES or name == 'as_mut'):
                return (c.get('sp'), '%s writes through a pointer made from a shared reference' % name), 1
    return None, 1


def mut_from_shared(cal):
    ts = [x for x in cal.get('args', cal.get('a', [])) if isinstance(x, dict) and x['k'] != 'region']
    return len(ts) == 2 and ts[0]['k'] in ('ref', 'ptr') and not ts[0]['m'] and ts[1]['k'] in ('ref', 'ptr') and ts[1]['m']


def used(o):
    if o.get('o') in ('copy', 'move') and not o['p']['p']:
        return o['p']['l']
    return None
