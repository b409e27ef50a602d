"""impl_X / spec_X pairs: both sides compiled by the same pipeline, value
numbered, and compared cell by cell (see equiv.compare)."""
import re
from . import build, alg, vn, equiv
from .alg import Num, ZERO, UNIT
from .vn import Ptr, Cond


def load(driver, srcs, roots=None, defs=(), inc=None, pipeline=None, keep=(), dinc=None, opaque_heap=False, peel=0):
    bcs = build.compile_all(list(srcs), defs=tuple(defs), inc=inc) if srcs else []
    d = build.compile_bc(driver, defs=tuple(defs), inc=dinc or inc or ['-I' + build.REPO + '/src'])
    bc = build.link([d] + bcs)
    roots = roots or ['^(impl|spec|roots)_']
    m = build.export(bc, roots=roots, keep=list(keep), pipeline=pipeline or build.FULL, opaque_heap=opaque_heap, peel=peel)
    return m


def fname(f):
    return re.sub(r'\(.*', '', f['dem'])


def is_sink(base, callee_out):
    return base[0] == 'arg'


def cells(mem, base_ok):
    out = {}
    for base, ws in mem.w.items():
        if base_ok(base):
            for w in ws:
                c = w[0].cval()
                out[(base, w[0].freeze() if c is None else int(c), w[1])] = (w[0], w[4])
    return out


def normcell(b):
    return b


class Pair:
    def __init__(self, mod, fi, fs, **kw):
        self.glob = mod['globals']
        self.kw = kw
        self.si = vn.Sym(fi, self.glob, **kw)
        self.ss = vn.Sym(fs, self.glob, **kw)
        self.fi = fi


def site_of(sym, base, off):
    """repo location of the (last) store to this cell"""
    best = None
    for s in sym.stores:
        if s['ptr'].base == base:
            c = (s['ptr'].off - off).cval()
            if c == 0:
                best = s['ins']
    if best is not None:
        w = sym.fn.where(best)
        if not w.startswith('/verif') and 'drivers/' not in w:
            return w
    return None


def compare_pair(ck, mod, name, rule, fallback_site, assume=None, argname=None, opaque_extra=(), calls=True, limit=4000, pure_calls=(), label=None, symkw=None, strict_calls=True, budget=None, only=None, beyond=(), hook=None):
    """compare impl_<name> with spec_<name>; register obligations on ck"""
    if ck.enough():
        return
    fi = fs = None
    for f in mod['functions']:
        n = fname(f)
        if n == 'impl_' + name:
            fi = f
        if n == 'spec_' + name:
            fs = f
    if fi is None or fs is None:
        ck.ob(rule, fallback_site, 'undecided', 'function not exported')
        return
    try:
        si = vn.Sym(fi, mod['globals'], pure_calls=pure_calls, **(symkw or {}))
        ss = vn.Sym(fs, mod['globals'], pure_calls=pure_calls, **(symkw or {}))
        ri, mi = si.final()
        rs, ms = ss.final()
    except alg.TooBig:
        ck.ob(rule, fallback_site, 'undecided', 'expression too large')
        return
    ass = None
    if assume is not None:
        ass = [a.key for a in assume(si)] if callable(assume) else assume

    common = {(c['name'] or 'fnptr', c.get('seq')) for c in si.calls} & {(c['name'] or 'fnptr', c.get('seq')) for c in ss.calls}

    fr = next((f for f in mod['functions'] if fname(f) == 'roots_' + name), None)
    if fr is not None:
        try:
            hook = root_hook(fr, mod, pure_calls, symkw)
        except alg.TooBig:
            pass

    def one(what, vi, vs, site):
        if ck.enough():
            return
        try:
            if hook is not None and isinstance(vi, Num) and isinstance(vs, Num):
                vi, vs = hook(vi), hook(vs)
            v, d, n = equiv.compare(vi, vs, assume=ass, opaque_extra=opaque_extra, limit=limit, common=common, budget=ck.allow(budget), beyond=beyond)
        except alg.TooBig:
            v, d = 'unknown', 'expression too large'
        ck.ob(rule, site, {'equal': 'ok', 'differ': 'bad', 'unknown': 'undecided'}[v], (label + ': ' if label else '') + what + (': ' + d if d else ''),
              key='%s/%s/%s' % (rule, name, what))

    loopy = bool(si.fn.loops) or bool(ss.fn.loops)
    if rs is not None:
        if ri is None:
            ck.ob(rule, fallback_site, 'undecided', 'no return value')
        else:
            one('return value', ri, rs, fallback_site)
    ci = cells(mi, lambda b: b[0] == 'arg')
    cs = cells(ms, lambda b: b[0] == 'arg')
    fine = {(b, o, z) for c in (ci, cs) for (b, o, z), (off, ty) in c.items() if isinstance(ty, str) and ty not in ('copy', 'fill')}
    for c in (ci, cs):
        for (b, o, z), (off, ty) in list(c.items()):
            # a short run of zeroes is written cell by cell
            if ty == 'fill' and isinstance(o, int) and z <= 64:
                del c[(b, o, z)]
                w = 8 if not any(b2 == b and z2 == 4 and isinstance(o2, int) and o <= o2 < o + z for (b2, o2, z2) in fine) else 4
                if z % w:
                    w = 4 if z % 4 == 0 else 1
                for j in range(0, z, w):
                    q = (b, o + j, w)
                    if q not in ci and q not in cs:
                        c[q] = (off + Num.const(j), 'double' if w == 8 else 'i%d' % (8 * w))
    for k in sorted(set(ci) | set(cs), key=str):
        base, o, sz = k
        off, ty = (ci.get(k) or cs.get(k))
        if not isinstance(ty, str) or ty in ('copy', 'fill'):
            ck.ob(rule, fallback_site, 'undecided', '%s[%s]: block copy' % (base[-1], o), key='%s/%s/copy%s' % (rule, name, o))
            continue
        nm = base[-1]
        if only is not None and nm not in only:
            continue
        lab = '%s[%s]' % (nm, o // sz if isinstance(o, int) else alg.show(off))
        vi = si.mem_load(mi, Ptr(base, off), sz, ty, None)
        vs = ss.mem_load(ms, Ptr(base, off), sz, ty, None)
        one(lab, vi, vs, site_of(si, base, off) or fallback_site)
    if calls and strict_calls:
        fi_calls = [c for c in si.calls if ext(c)]
        fs_calls = [c for c in ss.calls if ext(c) and c['name'] not in beyond]
        ni = [callname(c) for c in fi_calls]
        ns = [callname(c) for c in fs_calls]
        if ni != ns:
            ck.ob(rule, fallback_site, 'undecided', 'calls %s vs %s' % (ni[:20], ns[:20]), key='%s/%s/calls' % (rule, name))
        else:
            for c1, c2 in zip(fi_calls, fs_calls):
                for k, (a, b) in enumerate(zip(c1['args'], c2['args'])):
                    if isinstance(a, (Num, Cond)) and isinstance(b, (Num, Cond)):
                        one('argument %d of call %d of %s' % (k, c1['seq'], callname(c1)), a, b, si.fn.where(c1['ins']))


def callname(c):
    return c['dem'] or 'fnptr'


def ext(c):
    if 'seq' not in c:
        return False
    n = c['name']
    return not (n.startswith('llvm.') or n in ('_Znwm', '_Znam', '_ZdlPv', '_ZdaPv', '_ZdlPvm', '_ZdaPvm', 'malloc', 'calloc', 'free') or n in vn.NOEFFECT or n.startswith('__assert') or n.startswith('_ZSt') or n.startswith('__cxa') or n.startswith('_ZN5Eigen'))


def root_hook(fr, mod, pure_calls, symkw):
    """the driver names the positive values of square roots; a square root
    whose argument is a rational square times the square of one is rewritten"""
    sr = vn.Sym(fr, mod['globals'], pure_calls=pure_calls, **(symkw or {}))
    _, mr = sr.final()
    cand = []
    for k in sorted(cells(mr, lambda b: b[0] == 'arg'), key=str):
        off, ty = cells(mr, lambda b: b[0] == 'arg')[k]
        cand.append(sr.mem_load(mr, Ptr(k[0], off), k[2], ty, None))
    memo = {}

    facs = []
    for c in cand:
        for p in (Num(c.n), Num(c.d)):
            if not p.isconst() and p not in facs:
                facs.append(p)
    facs.sort(key=lambda p: -len(p.n))

    def root(q, depth=0):
        c = q.cval()
        if c is not None:
            return alg.mk_sqrt(q) if c > 0 else None
        for f in facs:
            r = (q / (f * f)).norm().cval()
            if r is not None and r > 0:
                return f * alg.mk_sqrt(Num.const(r))
        if depth > 12:
            return None
        for f in facs:
            r = alg.p_div(q.n, (f * f).n)
            if r is not None:
                w = root(Num(r), depth + 1)
                if w is not None:
                    return f * w
        return None

    def sq(k):
        if k[0] == 'sqrt':
            q = alg.mk_sqrt(alg.N(k[1]))
            ats = q.atoms()
            for a in ats:
                kk = alg.key(a)
                if kk[0] == 'sqrt':
                    if a not in memo:
                        x = alg.N(kk[1])
                        memo[a] = root(x) if x.ispoly() else None
            mp = {a: memo[a] for a in ats if memo.get(a) is not None}
            return alg.subst(q, mp) if mp else None
        return None
    rw = {}

    def fn(v):
        return alg.rewrite(v, sq, rw)
    return fn
