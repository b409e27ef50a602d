"""Lifetimes of heap blocks in straight-line (fully evaluated) functions:
every block is released exactly once by the matching operator, no access
outside a live block, nothing left allocated unless it escapes."""
from . import vn, alg
from .vn import Ptr

ALLOC = {'_Znwm': 'delete', '_Znam': 'delete[]', 'malloc': 'free', 'calloc': 'free'}
FREE = {'_ZdlPv': 'delete', '_ZdaPv': 'delete[]', '_ZdlPvm': 'delete', '_ZdaPvm': 'delete[]', 'free': 'free'}


def check(ck, f, glob, rule, fallback, label, escapes_ok=False):
    try:
        s = vn.Sym(f, glob)
    except alg.TooBig:
        ck.ob(rule, fallback, 'undecided', label + ': expression too large')
        return
    # follow the branches whose condition is decided
    visited, b = [], s.fn.entry
    while b is not None:
        if b in visited:
            ck.ob(rule, fallback, 'undecided', label + ': a loop was not resolved at this size')
            return
        visited.append(b)
        t = s.fn.blocks[b][-1]
        succ = [x for x in s.fn.succ[b] if not unwind(s, x)]
        if len(set(succ)) > 1:
            c = s.branch.get(b)
            k = c.key[0] if isinstance(c, vn.Cond) else None
            if k not in ('true', 'false') or t['op'] != 'br':
                ck.ob(rule, fallback, 'undecided', label + ': control flow not resolved at this size')
                return
            b = t['succ'][0] if k == 'true' else t['succ'][1]
        else:
            b = succ[0] if succ else None
    on = set(visited)
    ids = {i['id'] for b in on for i in s.fn.blocks[b]}
    ev = []
    for c in s.calls:
        if c['blk'] not in on:
            continue
        ev.append((c['order'], 'call', c))
    for x in s.stores:
        if x['blk'] not in on:
            continue
        ev.append((x['order'], 'acc', (x['ptr'], x['size'], x['ins'], 'write')))
    for iid, (o, i) in s.ldorder.items():
        if iid not in ids:
            continue
        p = s.loads[iid][0]
        ev.append((o, 'acc', (p, i['size'], i, 'read')))
    ev.sort(key=lambda t: t[0])
    blk = {}
    n = 0
    bad = []

    def where(i):
        w = s.fn.where(i)
        return fallback if 'drivers/' in w or w == '?' else w

    def access(p, size, ins, what):
        if not isinstance(p, Ptr):
            return
        b = p.base
        if b in blk:
            st = blk[b]
            if st['freed']:
                bad.append((where(ins), 'use-after-release', '%s of a block released at %s' % (what, st['freed'])))
            c = p.off.cval()
            if c is not None and size is not None and st['size'] is not None and (c < 0 or c + size > st['size']):
                bad.append((where(ins), 'out-of-bounds', '%s of bytes %s..%s of a block of %s bytes' % (what, c, c + size, st['size'])))
        elif b[0] == 'null':
            bad.append((where(ins), 'null-access', what + ' through a null pointer'))

    for o, k, e in ev:
        if k == 'acc':
            access(*e)
            continue
        nm = e['name']
        if nm in ALLOC:
            r = e.get('res')
            if isinstance(r, Ptr):
                a = [x.cval() if isinstance(x, alg.Num) else None for x in e['args']]
                sz = a[0] if nm != 'calloc' else (a[0] * a[1] if None not in a[:2] else None)
                blk[r.base] = {'size': sz, 'freed': None, 'kind': ALLOC[nm], 'ins': e['ins']}
                n += 1
        elif nm in FREE:
            p = e['args'][0]
            if not isinstance(p, Ptr) or p.base[0] == 'null':
                continue
            st = blk.get(p.base)
            if st is None:
                bad.append((where(e['ins']), 'release-foreign', 'release of a pointer that was never allocated: %s' % (p,)))
                continue
            if st['freed']:
                bad.append((where(e['ins']), 'double-release', 'block allocated at %s released twice (first at %s)' % (where(st['ins']), st['freed'])))
            if p.off.cval() != 0:
                bad.append((where(e['ins']), 'release-interior', 'release of an interior pointer'))
            if st['kind'] != FREE[nm]:
                bad.append((where(e['ins']), 'mismatched-release', 'block released with %s instead of %s' % (FREE[nm], st['kind'])))
            st['freed'] = where(e['ins'])
        elif nm.startswith('llvm.mem') or nm in ('memcpy', 'memmove', 'memset'):
            sz = e['args'][2].cval() if isinstance(e['args'][2], alg.Num) else None
            access(e['args'][0], sz, e['ins'], 'write')
            if 'set' not in nm:
                access(e['args'][1], sz, e['ins'], 'read')
    if not escapes_ok:
        for b, st in blk.items():
            if not st['freed']:
                bad.append((where(st['ins']), 'leak', 'block allocated here is never released'))
    for w, kind, d in sorted(set(bad)):
        ck.ob(rule, w, 'bad', label + ': ' + d, key='%s/%s/%s' % (rule, label, kind))
    if not bad:
        ck.ob(rule, fallback, 'ok', '%s: %d block(s) released exactly once, every access inside a live block' % (label, n), key='%s/%s' % (rule, label))
    return n


def unwind(s, b):
    t = s.fn.blocks[b]
    return any(i['op'] in ('landingpad',) for i in t) or t[-1]['op'] in ('resume',) or (t[-1]['op'] == 'unreachable')
