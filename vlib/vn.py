"""Value numbering of one exported IR function into canonical rational
functions, with an available-store memory abstraction, loop-counter
(induction) recognition and a control-dependence fact collector.

Assumptions (recorded in every client's evidence): distinct pointer arguments
and distinct allocations do not alias; machine integers do not overflow;
floating point is treated as exact real arithmetic."""
from fractions import Fraction
from . import alg
from .alg import Num, atom, ZERO, UNIT


class Ptr:
    __slots__ = ('base', 'off')

    def __init__(self, base, off=ZERO):
        self.base = base      # hashable key
        self.off = off        # Num (bytes)

    def freeze(self):
        return ('ptr', self.base, self.off.freeze())

    def __eq__(self, o):
        return isinstance(o, Ptr) and self.base == o.base and self.off == o.off

    def __hash__(self):
        return hash((self.base, self.off))

    def __repr__(self):
        return '&%s+%s' % (alg.show_key(self.base) if isinstance(self.base, tuple) else self.base, alg.show(self.off))


class Cond:
    """boolean value: key is hashable"""
    __slots__ = ('key',)

    def __init__(self, key):
        self.key = key

    def freeze(self):
        return ('cond', self.key)

    def __eq__(self, o):
        return isinstance(o, Cond) and self.key == o.key

    def __hash__(self):
        return hash(self.key)

    def __repr__(self):
        return show_cond(self.key)


class Agg:
    __slots__ = ('parts', 'k')

    def __init__(self, parts, k):
        self.parts = parts
        self.k = k

    def freeze(self):
        return ('agg', self.k)


TRUE = Cond(('true',))
FALSE = Cond(('false',))


def neg(k):
    if k[0] == 'true':
        return ('false',)
    if k[0] == 'false':
        return ('true',)
    if k[0] == 'not':
        return k[1]
    if k[0] == 'cmp':
        inv = {'eq': 'ne', 'ne': 'eq', 'lt': 'ge', 'ge': 'lt', 'le': 'gt', 'gt': 'le'}
        if k[1] in inv and k[3] == 'i':
            return norm_cmp(inv[k[1]], alg.N(k[2]), 'i')
    return ('not', k)


def norm_cmp(p, d, kind):
    """canonical comparison of d (a Num) with 0"""
    r = cmp_toint(p, d, kind)
    if r is not None:
        return r
    if p == 'gt':
        p, d = 'lt', -d
    if p == 'ge':
        p, d = 'le', -d
    if kind == 'i' and p == 'lt' and d.ispoly():
        p, d = 'le', d + UNIT
    c = d.cval()
    if c is not None:
        r = {'lt': c < 0, 'le': c <= 0, 'eq': c == 0, 'ne': c != 0}.get(p)
        if r is not None:
            return ('true',) if r else ('false',)
    if p in ('eq', 'ne') and d.ispoly() and d.n:
        lead = d.n[min(d.n)]
        if lead < 0:
            d = -d
    return ('cmp', p, d.freeze(), kind)


def cmp_toint(p, d, kind):
    """comparison of a truncated or rounded real with a constant, as a comparison of the real"""
    if p not in ('lt', 'le', 'gt', 'ge') or len(d.n) > 2 or not d.ispoly():
        return None
    at = [(m, c) for m, c in d.n.items() if m]
    if len(at) != 1:
        return None
    (m, c), = at
    if len(m) != 1 or m[0][1] != 1 or abs(c) != 1:
        return None
    t = alg.key(m[0][0])
    if t[0] not in ('toint', 'trunc', 'floor', 'ceil') or len(t) != 2:
        return None
    how = 'trunc' if t[0] == 'toint' else t[0]
    z = alg.N(t[1])
    if t[0] == 'toint' and z.ispoly() and len(z.n) == 1:
        (zm, zc), = z.n.items()
        if zc == 1 and len(zm) == 1 and zm[0][1] == 1:
            a = alg.key(zm[0][0])
            if a[0] in ('trunc', 'floor', 'ceil') and len(a) == 2:
                z, how = alg.N(a[1]), a[0]
    k = d.n.get(alg.ONE, Fraction(0))
    # c*t + k  p  0
    if c < 0:
        p, k = {'lt': 'gt', 'le': 'ge', 'gt': 'lt', 'ge': 'le'}[p], -k
    # t p v, as t <= v or t >= v with an integer v
    v = -k
    if p == 'lt':
        p, v = 'le', -(-v.numerator // v.denominator) - 1
    elif p == 'gt':
        p, v = 'ge', v.numerator // v.denominator + 1
    elif p == 'le':
        v = v.numerator // v.denominator
    else:
        v = -(-v.numerator // v.denominator)
    up = how == 'ceil' or how == 'trunc' and (v < 0 if p == 'le' else v <= 0)
    if p == 'le':
        return norm_cmp('le', z - Num.const(v), 'f') if up else norm_cmp('lt', z - Num.const(v + 1), 'f')
    return norm_cmp('gt', z - Num.const(v - 1), 'f') if up else norm_cmp('ge', z - Num.const(v), 'f')


def show_cond(k):
    if k[0] == 'cmp':
        return '%s %s 0' % (alg.show(alg.N(k[2])), {'le': '<=', 'lt': '<', 'eq': '==', 'ne': '!='}.get(k[1], k[1]))
    if k[0] == 'not':
        return '!(' + show_cond(k[1]) + ')'
    return alg.show_key(k) if isinstance(k[0], str) else str(k)


def freeze(v):
    return v.freeze()


class Fn:
    """graph view over an exported function"""

    def __init__(self, f, glob):
        self.f = f
        self.glob = glob
        self.blocks = {b['id']: b['ins'] for b in f['blocks']}
        self.order = [b['id'] for b in f['blocks']]
        self.entry = self.order[0]
        self.succ = {}
        self.ins = {}
        self.blk = {}
        for b, ii in self.blocks.items():
            for i in ii:
                self.ins[i['id']] = i
                self.blk[i['id']] = b
            t = ii[-1]
            s = []
            if t['op'] == 'br':
                s = list(t['succ'])
            elif t['op'] == 'switch':
                s = [c[1] for c in t['cases']] + [t['default']]
            elif t['op'] == 'invoke':
                s = [t['normal']]  # exceptional edges are analysed by the effect rules, not here
            seen = []
            for x in s:
                if x not in seen:
                    seen.append(x)
            self.succ[b] = seen
        self.pred = {b: [] for b in self.blocks}
        for b, ss in self.succ.items():
            for s in ss:
                self.pred[s].append(b)
        self.rpo = self._rpo()
        self.rpon = {b: i for i, b in enumerate(self.rpo)}
        self.idom = self._idom()
        self.loops = {l['header']: l for l in f['loops']}
        for l in f['loops']:
            l['set'] = set(l['blocks'])
        self.loop_of = {}
        for l in sorted(f['loops'], key=lambda l: l['depth']):
            for b in l['blocks']:
                self.loop_of[b] = l['header']
        self.names = {}
        for v in f.get('vars', []):
            self.names.setdefault(v['id'], v['name'])
        self.args = f['args']

    def _rpo(self):
        seen = set()
        out = []
        st = [(self.entry, iter(self.succ[self.entry]))]
        seen.add(self.entry)
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    st.append((s, iter(self.succ[s])))
                    break
            else:
                out.append(b)
                st.pop()
        return out[::-1]

    def _idom(self):
        idom = {self.entry: self.entry}
        ch = True
        while ch:
            ch = False
            for b in self.rpo:
                if b == self.entry:
                    continue
                ps = [p for p in self.pred[b] if p in idom]
                if not ps:
                    continue
                n = ps[0]
                for p in ps[1:]:
                    a, c = n, p
                    while a != c:
                        while self.rpon[a] > self.rpon[c]:
                            a = idom[a]
                        while self.rpon[c] > self.rpon[a]:
                            c = idom[c]
                    n = a
                if idom.get(b) != n:
                    idom[b] = n
                    ch = True
        return idom

    def dominates(self, a, b):
        while True:
            if a == b:
                return True
            if b == self.entry or b not in self.idom:
                return False
            b = self.idom[b]

    def loops_around(self, b):
        out = []
        h = self.loop_of.get(b)
        while h is not None:
            out.append(h)
            h = self.loops[h].get('parent')
        return out[::-1]

    def where(self, i):
        """repo location of an instruction: innermost repo frame"""
        cands = []
        if 'file' in i:
            cands.append((i['file'], i.get('line', 0)))
        for f, l in i.get('at', []):
            cands.append((f, l))
        for f, l in cands:
            if '/stubs/' in f or f.startswith('/usr/'):
                continue
            if f:
                from .build import REPO
                rf = f[len(REPO) + 1:] if f.startswith(REPO + '/') else f
                return '%s:%d' % (rf, l)
        return '?'


PURE = {'sqrt': 'sqrt', 'sqrtf': 'sqrt', 'llvm.sqrt.f64': 'sqrt', 'sin': 'sin', 'cos': 'cos', 'tan': 'tan', 'llvm.fabs.f64': 'fabs',
        'asin': 'asin', 'acos': 'acos', 'atan': 'atan', 'atan2': 'atan2', 'exp': 'exp', 'log': 'log', 'log10': 'log10',
        'pow': 'pow', 'fmod': 'fmod', 'floor': 'floor', 'ceil': 'ceil', 'llvm.copysign.f64': 'copysign',
        'llvm.maxnum.f64': 'fmax', 'llvm.minnum.f64': 'fmin', 'llvm.floor.f64': 'floor', 'ldexp': 'ldexp', 'hypot': 'hypot',
        'llvm.sin.f64': 'sin', 'llvm.cos.f64': 'cos', 'llvm.pow.f64': 'pow', 'sqrtl': 'sqrt', 'llvm.exp.f64': 'exp', 'llvm.log.f64': 'log',
        'llvm.smax.i32': 'smax', 'llvm.smin.i32': 'smin', 'llvm.smax.i64': 'smax', 'llvm.smin.i64': 'smin',
        'llvm.umax.i64': 'umax', 'llvm.umin.i64': 'umin', 'llvm.umax.i32': 'umax', 'llvm.umin.i32': 'umin', 'llvm.abs.i32': 'fabs', 'llvm.abs.i64': 'fabs', 'abs': 'fabs',
        'fabs': 'fabs', 'exp2': 'exp2', 'llvm.exp2.f64': 'exp2', 'log2': 'log2', 'llvm.log2.f64': 'log2', 'llvm.log10.f64': 'log10', 'cbrt': 'cbrt',
        'sinh': 'sinh', 'cosh': 'cosh', 'tanh': 'tanh', 'expm1': 'expm1', 'log1p': 'log1p', 'round': 'round', 'trunc': 'trunc',
        'llvm.round.f64': 'round', 'llvm.trunc.f64': 'trunc', 'llvm.ceil.f64': 'ceil', 'copysign': 'copysign', 'llvm.tan.f64': 'tan',
        'fmax': 'fmax', 'fmin': 'fmin', 'exp10': 'exp10', 'fdim': 'fdim'}
NOEFFECT = {'fprintf', 'printf', 'puts', 'putchar', 'fputs', 'fwrite', 'fputc', 'strlen', 'strcmp', 'strncmp', 'perror', '__errno_location', 'memcmp'}
INTERESTING_SKIP = ('llvm.lifetime', 'llvm.experimental.noalias', 'llvm.assume', 'llvm.dbg', 'llvm.invariant', 'llvm.stacksave', 'llvm.stackrestore')


CONST = {}    # globals of the module under analysis


class MemState:
    __slots__ = ('w', 'ep')

    def __init__(self):
        self.w = {}     # base -> tuple of writes (off Num, size, val, uid)
        self.ep = {}    # base or '*' -> epoch

    def copy(self):
        m = MemState()
        m.w = dict(self.w)
        m.ep = dict(self.ep)
        return m


def ucmp(p, x, y):
    """x p y for the unsigned predicates (negative values are the large ones)"""
    if p in ('ugt', 'uge'):
        x, y = y, x
    strict = p in ('ult', 'ugt')
    cx, cy = x.cval(), y.cval()
    if cx is not None and cy is not None:
        ux, uy = (cx < 0, cx), (cy < 0, cy)
        return ('true',) if (ux < uy if strict else ux <= uy) else ('false',)
    if cy is not None and cy >= 0:
        # 0 <= x < c
        return ('urange', norm_cmp('lt' if strict else 'le', x - y, 'i'), x.freeze())
    if cx is not None and cx >= 0:
        return ('not', ('urange', norm_cmp('le' if strict else 'lt', y - x, 'i'), y.freeze()))
    if alg.same(x, y):
        return ('false',) if strict else ('true',)
    return ('ucmp', 'lt' if strict else 'le', x.freeze(), y.freeze())


class Sym:
    def __init__(self, f, glob, argsyms=None, forward_cells=False, pure_calls=(), argvals=None, distinct_heap=True):
        """argsyms: names for args by index; pure_calls: demangled prefixes of
        kept calls regarded as pure accessors (same args -> same value)."""
        self.fn = Fn(f, glob)
        self.glob = glob
        self.val = {}
        self.stores = []      # dict(ptr, val, ins, blk, size, order)
        self.calls = []       # dict(name, args, ins, blk, res)
        self.loads = {}       # ins id -> (Ptr, atomkey)
        self.ldorder = {}
        self.phi = {}         # header phi atom key -> dict(init, latch)
        self.order = 0
        self.callseq = {}
        self.pure_calls = pure_calls
        self.fwd = forward_cells
        self.exit_state = {}
        self.branch = {}      # block -> Cond
        self.ret = []
        self.argname = {}
        for k, a in enumerate(self.fn.args):
            nm = (argsyms or {}).get(k) or a.get('name') or 'a%d' % k
            if a['ty'] == 'ptr':
                self.val[a['id']] = Ptr(('arg', k, nm))
            elif a['ty'] == 'i1':
                self.val[a['id']] = Cond(('b', ('arg', k, nm)))
            else:
                self.val[a['id']] = Num.atom(('arg', k, nm))
            if argvals and k in argvals:
                self.val[a['id']] = argvals[k]
        self.out_state = {}
        CONST.clear()
        CONST.update(self.glob)
        self.lazy = {}
        self.trees = {}
        self.merged = {}
        self._run()

    # ---- operands
    def ref(self, r):
        if isinstance(r, int):
            v = self.val.get(r)
            if v is None:
                v = self.opaque(self.fn.ins.get(r), ('late', r))
                self.val[r] = v
            return v
        if 'c' in r:
            if r.get('w') == 1:
                return TRUE if r['c'] else FALSE
            return Num.const(r['c'])
        if 'f' in r:
            t = r['f']
            if 'inf' in t or 'nan' in t:
                return Num.atom(('fconst', t))
            return Num.const(dec(t))
        if 'g' in r:
            return Ptr(('glob', r['g']), Num.const(r.get('off', 0)))
        if 'null' in r:
            return Ptr(('null',))
        if 'zero' in r:
            return ZERO
        if 'vec' in r:
            return Agg([self.ref(x) for x in r['vec']], ('vec', str(r)))
        return Num.atom(('const', str(sorted(r.items(), key=str))))

    def num(self, r):
        return self.tonum(self.ref(r))

    @staticmethod
    def tonum(v):
        if isinstance(v, Num):
            return v
        if isinstance(v, Cond):
            if v.key == ('true',):
                return UNIT
            if v.key == ('false',):
                return ZERO
            return Num.atom(('bool', v.key))
        return Num.atom(('pint', v.freeze()))

    def tocond(self, v):
        if isinstance(v, Cond):
            return v
        if isinstance(v, Num):
            c = v.cval()
            if c is not None:
                return TRUE if c else FALSE
            f = v.freeze()
            if len(v.n) == 1 and v.ispoly():
                (m, co), = v.n.items()
                if co == 1 and len(m) == 1 and m[0][1] == 1 and alg.key(m[0][0])[0] == 'bool':
                    return Cond(alg.key(m[0][0])[1])
            return Cond(norm_cmp('ne', v, 'i'))
        return Cond(('b', v.freeze()))

    def opaque(self, ins, k):
        ty = ins['ty'] if ins else 'i32'
        if ty == 'ptr':
            return Ptr(k)
        if ty == 'i1':
            return Cond(('b', k))
        if ty.startswith('{') or ty.startswith('%') or ty.startswith('['):
            return Agg({}, k)
        return Num.atom(k)

    # ---- memory
    def choices(self, off, leaves=32):
        """an offset that is a choice between constants, as a tree
        (cond, if true, if false); None when it is anything else"""
        if off.cval() is not None:
            return off
        k = off.freeze()
        if k not in self.trees:
            self.trees[k] = None
            t = self.choice_tree(off, 12)
            if t is not None and self.leaves(t) <= leaves:
                self.trees[k] = t
        return self.trees[k]

    def leaves(self, t):
        return 1 if isinstance(t, Num) else self.leaves(t[1]) + self.leaves(t[2])

    def choice_tree(self, off, depth, known=()):
        if off.cval() is not None:
            return off
        if depth:
            for a in sorted(off.atoms()):
                t = alg.key(a)
                if t[0] in ('ite', 'bool'):
                    alt = (alg.N(t[2]), alg.N(t[3])) if t[0] == 'ite' else (UNIT, ZERO)
                    if (t[1], True) in known:
                        return self.choice_tree(alg.subst(off, {a: alt[0]}), depth, known)
                    if (t[1], False) in known:
                        return self.choice_tree(alg.subst(off, {a: alt[1]}), depth, known)
                    x = self.choice_tree(alg.subst(off, {a: alt[0]}), depth - 1, known + ((t[1], True),))
                    y = self.choice_tree(alg.subst(off, {a: alt[1]}), depth - 1, known + ((t[1], False),)) if x is not None else None
                    if y is None:
                        return None
                    return x if isinstance(x, Num) and x == y else (Cond(t[1]), x, y)
        return None

    def mem_load(self, st, p, size, ty, ins):
        base = p.base
        t = self.choices(p.off) if p.off.cval() is None else None
        if t is not None:
            def at(t):
                return self.mem_load(st, Ptr(base, t), size, ty, ins) if isinstance(t, Num) else self.mk_ite(t[0], at(t[1]), at(t[2]))
            return at(t)
        if base[0] == 'ite':
            a, b2 = base[2], base[3]
            va = self.mem_load(st, Ptr(a[1], alg.N(a[2]) + p.off), size, ty, ins)
            vb = self.mem_load(st, Ptr(b2[1], alg.N(b2[2]) + p.off), size, ty, ins)
            return self.mk_ite(Cond(base[1]), va, vb)
        if base[0] in ('glob',):
            v = self.const_load(p, size, ty)
            if v is not None:
                return v
        iscell = base[0] == 'cell' and not self.fwd
        if not iscell:
            for (off, sz, v, uid, _ty) in reversed(st.w.get(base, ())):
                d = p.off - off
                c = d.cval()
                if c is not None:
                    if c == 0 and sz == size and v is not None:
                        return self.retype(v, ty, (base, p.off.freeze()))
                    if c >= sz or c <= -size:
                        continue
                    if v is not None and isinstance(v, tuple) and v[0] == 'fill' and c >= 0 and c + size <= sz and (v[1] == 0 or ty == 'i%d' % (8 * size)):
                        return self.filled(v[1], ty, size)
                    if v is not None and isinstance(v, tuple) and v[0] == 'copy' and c >= 0 and c + size <= sz:
                        # region copied from elsewhere: content of source at copy time
                        src, ep = v[1], v[2]
                        return self.mem_load(v[3], Ptr(src.base, src.off + d), size, ty, ins)
                k = ('ld', base, p.off.freeze(), ty, uid)
                return self.mk(k, ty)
            ep = st.ep.get(base, st.ep.get('*', 0) if self.is_heap(base) else 0)
        else:
            ep = 0
        if isinstance(ep, tuple) and ep and ep[0] == 'c':
            # content written by an unanalysed call: named after the call, not after the buffer
            return self.mk(('out', ep[1], ep[2], ep[3], (p.off - alg.N(ep[4])).freeze(), ty), ty)
        if ep in self.lazy:
            return self.merged_load(ep, p, size, ty)
        k = ('ld', base, p.off.freeze(), ty, ep)
        return self.mk(k, ty)

    def merged_load(self, ep, p, size, ty):
        """a cell no branch before the join wrote by name"""
        k = (ep, p.freeze(), size, ty)
        if k not in self.merged:
            b, ps, sts = self.lazy[ep]
            vals = [self.mem_load(s, p, size, ty, None) for s in sts]
            if ty == 'i1':
                vals = [self.tocond(v) for v in vals]
            z = vals[0].freeze()
            self.merged[k] = vals[0] if all(v.freeze() == z for v in vals) else self.gate(b, ps, vals)
        return self.merged[k]

    def is_heap(self, base):
        return base[0] not in ('alloca', 'arg', 'glob')

    def retype(self, v, ty, where):
        if isinstance(v, tuple):
            if v[0] == 'fill' and (v[1] == 0 or ty in ('i8', 'i16', 'i32', 'i64')):
                return self.filled(v[1], ty, int(ty[1:]) // 8 if ty[0] == 'i' and ty != 'i1' else 8)
            return self.mk(('ld', where, v[0]), ty)
        if ty == 'ptr' and not isinstance(v, Ptr):
            return Ptr(('asptr', v.freeze()))
        if ty != 'ptr' and isinstance(v, Ptr):
            return self.tonum(v)
        return v

    def mk(self, k, ty):
        if ty == 'ptr':
            return Ptr(k)
        return Num.atom(k)

    def const_load(self, p, size, ty):
        g = self.glob.get(p.base[1])
        if not g or not g.get('const') or 'init' not in g:
            return None
        c = p.off.cval()
        if c is None:
            return None
        r = const_at(g['init'], g['ty'], int(c), size, ty)
        if r is None:
            return None
        return r

    def mem_store(self, st, p, size, v, uid, ty=None):
        base = p.base
        if base[0] == 'ite':
            c = Cond(base[1])
            for alt, flip in ((base[2], False), (base[3], True)):
                q = Ptr(alt[1], alg.N(alt[2]) + p.off)
                if isinstance(v, tuple):
                    self.kill(st, q.base, uid)
                    continue
                old = self.mem_load(st, q, size, ty or 'double', None)
                if isinstance(v, Num) and not isinstance(old, Num):
                    old = self.tonum(old)
                self.mem_store(st, q, size, self.mk_ite(c, old, v) if flip else self.mk_ite(c, v, old), uid, ty)
            return
        t = self.choices(p.off) if p.off.cval() is None and not isinstance(v, tuple) else None
        if t is not None:
            def put(t, conds):
                if not isinstance(t, Num):
                    put(t[1], conds + [t[0]])
                    put(t[2], conds + [Cond(neg(t[0].key))])
                    return
                q = Ptr(base, t)
                old = self.mem_load(st, q, size, ty or ('ptr' if isinstance(v, Ptr) else 'double'), None)
                if isinstance(v, Num) and not isinstance(old, Num):
                    old = self.tonum(old)
                r = v
                for c in reversed(conds):
                    r = self.mk_ite(c, r, old)
                self.mem_store(st, q, size, r, uid, ty)
            put(t, [])
            return
        if ty is None:
            ty = 'ptr' if isinstance(v, Ptr) else 'i1' if isinstance(v, Cond) else 'double' if size == 8 else 'i%d' % (size * 8)
        ws = st.w.get(base, ())
        keep = []
        for w in ws:
            c = (p.off - w[0]).cval()
            if c is not None and 0 == c and w[1] == size:
                continue
            keep.append(w)
        if len(keep) > 400:
            keep = keep[-400:]
        st.w[base] = tuple(keep) + ((p.off, size, v, uid, ty),)

    def kill(self, st, base, uid):
        if base[0] == 'ite':
            self.kill(st, base[2][1], uid)
            self.kill(st, base[3][1], uid)
            return
        st.w.pop(base, None)
        st.ep[base] = uid

    def kill_heap(self, st, uid):
        for b in list(st.w):
            if self.is_heap(b):
                st.w.pop(b)
        for b in list(st.ep):
            if b != '*' and self.is_heap(b):
                st.ep.pop(b)
        st.ep['*'] = uid

    # ---- run
    def _run(self):
        fn = self.fn
        for b in fn.rpo:
            st = self._entry_state(b)
            if b in fn.loops:
                self._loop_header(b, st)
            self._exec(b, st)
            self.out_state[b] = st

    def _entry_state(self, b):
        fn = self.fn
        ps = [p for p in fn.pred[b] if p in self.out_state]
        if not ps:
            return MemState()
        if len(ps) == 1:
            return self.out_state[ps[0]].copy()
        return self.merge_states(b, ps, [self.out_state[p] for p in ps])

    def ep_of(self, s, base):
        return s.ep.get(base, s.ep.get('*', 0) if self.is_heap(base) else 0)

    def merge_states(self, b, ps, sts):
        """memory at a join: cells written differently become gated values"""
        r = MemState()
        bases = set()
        for s in sts:
            bases |= set(s.w) | set(s.ep)
        bases = sorted(bases, key=str)
        for base in bases:
            if base == '*':
                eps = {s.ep.get('*', 0) for s in sts}
                r.ep['*'] = eps.pop() if len(eps) == 1 else ('m', b)
                if r.ep['*'] == ('m', b):
                    self.lazy[('m', b)] = (b, ps, [s.copy() for s in sts])
                continue
            wl = [s.w.get(base, ()) for s in sts]
            el = [self.ep_of(s, base) for s in sts]
            sameep = all(e == el[0] for e in el)
            if sameep and all(w == wl[0] for w in wl):
                if wl[0]:
                    r.w[base] = wl[0]
                if el[0] != 0:
                    r.ep[base] = el[0]
                continue
            n = 0
            if sameep:
                while all(len(w) > n for w in wl) and all(w[n] == wl[0][n] for w in wl):
                    n += 1
                if el[0] != 0:
                    r.ep[base] = el[0]
            else:
                r.ep[base] = ('m', b, str(base)[:200])
                self.lazy[r.ep[base]] = (b, ps, [s.copy() for s in sts])
            if any(x[0].cval() is None for w in wl for x in w[n:]):
                # a write at a place not known here hides the others: decide per load
                r.ep[base] = ('m', b, str(base)[:200])
                self.lazy[r.ep[base]] = (b, ps, [s.copy() for s in sts])
                continue
            wl = self.split_fills(wl)
            if any(wl[0][:n] != w[:n] for w in wl):
                n = 0
            rest = {}
            for w in wl:
                for x in w[n:]:
                    if rest.get((x[0], x[1]), 'fill') == 'fill':
                        rest[(x[0], x[1])] = x[4]
            for s, w in zip(sts, wl):
                if w != s.w.get(base, ()):
                    s.w[base] = w
            out = list(wl[0][:n])
            for (off, sz), ty in rest.items():
                if ty == 'fill' and sz in (1, 8):
                    ty = 'double' if sz == 8 else 'i8'
                if isinstance(ty, str) and ty not in ('fill', 'copy') and all(not (isinstance(x[2], tuple) and x[2][0] != 'fill' and x[1] == sz and x[0] == off) for w in wl for x in w):
                    vals = [self.mem_load(s, Ptr(base, off), sz, ty, None) for s in sts]
                    if ty == 'i1':
                        vals = [self.tocond(v) for v in vals]
                    fz = [v.freeze() for v in vals]
                    v = vals[0] if all(z == fz[0] for z in fz) else self.gate(b, ps, vals)
                    out.append((off, sz, v, ('m', b), ty))
                else:
                    same = [x for w in wl[:1] for x in w if x[0] == off and x[1] == sz]
                    if same and all(any(y[0] == off and y[1] == sz and self._weq(y[2], same[-1][2]) for y in w) for w in wl):
                        out.append(same[-1])
                    else:
                        out.append((off, sz, None, ('m', b, str(base)[:60]), ty))
            if len(out) > len(set((x[0], x[1]) for x in out)):
                seen = {}
                for x in out:
                    seen.pop((x[0], x[1]), None)
                    seen[(x[0], x[1])] = x
                out = list(seen.values())
            r.w[base] = tuple(out)
        return r

    def filled(self, c, ty, size):
        if c == 0:
            return Ptr(('null',)) if ty == 'ptr' else FALSE if ty == 'i1' else ZERO
        return Num.const(int.from_bytes(bytes([c & 255]) * size, 'little', signed=True))

    def split_fills(self, wl):
        """runs of zeroes in the granularity the other branches write"""
        out = []
        for w in wl:
            r = []
            for x in w:
                if isinstance(x[2], tuple) and x[2][0] == 'fill' and x[1] <= 512:
                    a = x[0].cval()
                    z = {y[1] for w2 in wl for y in w2 if y[4] not in ('fill', 'copy') and a is not None and y[0].cval() is not None and a <= y[0].cval() < a + x[1]}
                    z = z or {8 if x[2][1] == 0 and x[1] % 8 == 0 else 1}
                    if len(z) == 1 and x[1] % min(z) == 0 and min(z) < x[1]:
                        g = min(z)
                        r += [(x[0] + Num.const(j), g, x[2], x[3], x[4]) for j in range(0, x[1], g)]
                        continue
                r.append(x)
            out.append(tuple(r))
        return out

    def _weq(self, a, b):
        if isinstance(a, tuple) and isinstance(b, tuple):
            return a[:2] == b[:2]
        return False

    def gate(self, b, ps, vals):
        """merge of values at a join as nested if-then-else over the branch
        conditions between the join's immediate dominator and the join"""
        fn = self.fn
        d = ps[0]
        for p in ps[1:]:
            x = p
            while d != x:
                while fn.rpon[x] > fn.rpon[d]:
                    x = fn.idom[x]
                while fn.rpon[d] > fn.rpon[x]:
                    d = fn.idom[d]
        want = {p: v for p, v in zip(ps, vals)}
        bl = set(fn.loops_around(b)) if b in fn.blocks else set()
        can = set(want)
        work = list(ps)
        while work:
            x = work.pop()
            if x == d:
                continue
            for q in fn.pred[x]:
                if q not in can and fn.rpon.get(q) is not None and fn.rpon[q] >= fn.rpon[d]:
                    can.add(q)
                    work.append(q)
        memo = {}

        def edge(x, s):
            """value if control goes x -> s (None: never reaches the join)"""
            if s == b and x in want:
                return want[x]
            if s in can and fn.rpon[s] > fn.rpon[x]:
                return go(s)
            return None

        def go(x):
            if x in memo:
                return memo[x]
            memo[x] = None
            memo[x] = v = go1(x)
            return v

        def go1(x):
            if not fn.succ[x]:
                return want.get(x)
            if x in fn.loops and x not in bl and x != b:
                ex = []
                for y in fn.rpo:
                    if y in fn.loops[x]['set']:
                        for s in fn.succ[y]:
                            if s not in fn.loops[x]['set']:
                                v = want[y] if s == b and y in want else (go(s) if s in can else None)
                                if v is not None:
                                    ex.append((y, s, v))
                if not ex:
                    return None
                r = ex[-1][2]
                for k, (y, s, v) in reversed(list(enumerate(ex[:-1]))):
                    if v.freeze() != r.freeze():
                        c = self.edge_cond(y, s)
                        r = self.mk_ite(Cond(('b', ('exitsel', x, k, c))), v, r)
                return r
            t = fn.blocks[x][-1]
            if t['op'] == 'br' and len(t['succ']) == 2 and t['succ'][0] != t['succ'][1]:
                v0, v1 = edge(x, t['succ'][0]), edge(x, t['succ'][1])
                if v0 is None or v1 is None:
                    return v0 if v1 is None else v1
                if v0.freeze() == v1.freeze():
                    return v0
                c = self.branch.get(x)
                if c is None:
                    c = Cond(('b', ('br', x)))
                return self.mk_ite(c, v0, v1)
            if t['op'] == 'switch':
                r = edge(x, t['default'])
                sv = self.branch.get(x)
                for c, s in t['cases']:
                    v = edge(x, s)
                    if v is None:
                        continue
                    if r is None:
                        r = v
                    elif r.freeze() != v.freeze():
                        k = norm_cmp('eq', sv - Num.const(c), 'i') if isinstance(sv, Num) else ('b', ('sw', x, c))
                        r = self.mk_ite(Cond(k), v, r)
                return r
            r = None
            for s in fn.succ[x]:
                r = edge(x, s)
            return r
        v = go(d)
        if v is None:
            v = vals[0]
            k = ('phi', b, tuple((p, x.freeze()) for p, x in zip(ps, vals)))
            return Ptr(k) if isinstance(v, Ptr) else Cond(k) if isinstance(v, Cond) else Num.atom(k)
        return v

    def final(self):
        """(return value, memory) gated over every return"""
        rets = [r for r in self.ret]
        if not rets:
            return None, MemState()
        if len(rets) == 1:
            return rets[0][1], rets[0][2]
        ps = [r[0] for r in rets]
        m = self.merge_states('exit', ps, [r[2] for r in rets])
        v = None
        if rets[0][1] is not None:
            vals = [r[1] for r in rets]
            if len({x.freeze() for x in vals}) == 1:
                v = vals[0]
            else:
                v = self.gate('exit', ps, vals)
        return v, m

    def read(self, st, base, off, ty='double'):
        size = {'double': 8, 'ptr': 8, 'i64': 8, 'i32': 4, 'i8': 1, 'i16': 2, 'i1': 1}[ty]
        return self.mem_load(st, Ptr(base, Num.const(off)), size, ty, None)

    def mk_ite(self, c, vt, vf):
        if c.key == ('true',):
            return vt
        if c.key == ('false',):
            return vf
        if vt.freeze() == vf.freeze():
            return vt
        if c.key[0] == 'not':
            c, vt, vf = Cond(c.key[1]), vf, vt
        elif c.key[0] == 'cmp' and c.key[1] == 'ne':
            c, vt, vf = Cond(('cmp', 'eq') + c.key[2:]), vf, vt
        if isinstance(vt, Ptr) and isinstance(vf, Ptr):
            if vt.base == vf.base and self.choices(vt.off) is not None and self.choices(vf.off) is not None:
                return Ptr(vt.base, self.mk_ite(c, vt.off, vf.off))
            return Ptr(('ite', c.key, vt.freeze(), vf.freeze()))
        if isinstance(vt, Cond) or isinstance(vf, Cond):
            vt, vf = self.tocond(vt), self.tocond(vf)
            if vt == TRUE and vf == FALSE:
                return c
            if vt == FALSE and vf == TRUE:
                return Cond(neg(c.key))
            if vf == FALSE:
                return Cond(('and', c.key, vt.key))
            if vt == TRUE:
                return Cond(('or', c.key, vf.key))
            if vt == FALSE:
                return Cond(('and', neg(c.key), vf.key))
            if vf == TRUE:
                return Cond(('or', neg(c.key), vt.key))
            return Cond(('ite', c.key, vt.key, vf.key))
        a, b2 = self.tonum(vt), self.tonum(vf)
        # max / min / abs patterns
        if c.key[0] == 'cmp' and c.key[1] in ('lt', 'le'):
            d = alg.N(c.key[2])    # d < 0
            if d == a - b2:
                return Num.atom(('fmin',) + tuple(sorted([a.freeze(), b2.freeze()])))
            if d == b2 - a:
                return Num.atom(('fmax',) + tuple(sorted([a.freeze(), b2.freeze()])))
        return Num.atom(('ite', c.key, a.freeze(), b2.freeze()))

    def _loop_header(self, h, st):
        fn = self.fn
        l = fn.loops[h]
        roots = set()
        heap = False
        for b in l['blocks']:
            for i in fn.blocks[b]:
                if i['op'] == 'store':
                    r = self.root(i['args'][1])
                    roots.add(r)
                elif i['op'] in ('call', 'invoke'):
                    n = i.get('callee', '')
                    dm = i.get('dem', '')
                    if self.is_pure(n, dm) or n in NOEFFECT or any(n.startswith(x) for x in INTERESTING_SKIP):
                        continue
                    if n.startswith('llvm.memcpy') or n.startswith('llvm.memmove') or n.startswith('llvm.memset'):
                        roots.add(self.root(i['args'][0]))
                        continue
                    heap = True
                    for a in i['args']:
                        if isinstance(a, int):
                            roots.add(self.root(a))
        uid = ('loop', h)
        for r in roots:
            if r is None:
                heap = True
            elif r[0] in ('alloca', 'arg', 'glob'):
                self.kill(st, r, uid)
            else:
                heap = True
        if heap:
            self.kill_heap(st, uid)
            # pointers stored in memory may reach escaped objects: globals only
        self._cur_loop_uid = uid

    def root(self, r, seen=None):
        """syntactic root of a pointer operand"""
        if not isinstance(r, int):
            if isinstance(r, dict) and 'g' in r:
                return ('glob', r['g'])
            return None
        seen = seen or set()
        if r in seen:
            return None
        seen.add(r)
        for k, a in enumerate(self.fn.args):
            if a['id'] == r:
                v = self.val.get(r)
                return v.base if isinstance(v, Ptr) else ('argnum', k)
        i = self.fn.ins.get(r)
        if i is None:
            return None
        if i['op'] == 'getelementptr':
            return self.root(i['args'][0], seen)
        if i['op'] == 'alloca':
            return ('alloca', r)
        if i['op'] == 'phi':
            rs = {self.root(x[1], seen) for x in i['inc']}
            rs.discard(None)
            if len(rs) == 1:
                return rs.pop()
            return None
        if r in self.val and isinstance(self.val[r], Ptr):
            return self.val[r].base
        return None

    def is_pure(self, n, dm):
        return n in PURE or any(p in dm for p in self.pure_calls)

    # induction
    def _header_phi(self, b, i):
        fn = self.fn
        l = fn.loops[b]
        init = None
        lat = []
        for (pb, v) in i['inc']:
            if pb in l['set']:
                lat.append(v)
            else:
                init = v if init is None else (init if init == v else 'multi')
        if init == 'multi' or init is None:
            init_v = None
        else:
            init_v = self.ref(init)
        key = ('phi', b, i['id'])
        if i['ty'] not in ('double', 'float', 'i1') and len(set(map(str, lat))) == 1 and init_v is not None:
            step = self._step(i['id'], lat[0], l)
            if step is not None:
                iv = Num.atom(('iv', b))
                if isinstance(init_v, Ptr) and i['ty'] == 'ptr':
                    return Ptr(init_v.base, init_v.off + step * iv)
                if isinstance(init_v, Num) and i['ty'] != 'ptr':
                    return init_v + step * iv
        if i['ty'] == 'double' and init_v is not None and len(lat) == 1:
            # floating counters (x += const) are recognised the same way
            step = self._step(i['id'], lat[0], l, True)
            if step is not None and isinstance(init_v, Num):
                return init_v + step * Num.atom(('iv', b))
        self.phi[key] = {'init': init_v, 'latch_ref': lat, 'ins': i, 'hdr': b}
        if i['ty'] == 'ptr':
            return Ptr(key)
        if i['ty'] == 'i1':
            return Cond(('b', key))
        return Num.atom(key)

    def _inv(self, r, l):
        if not isinstance(r, int):
            return True
        if r in self.fn.blk:
            return self.fn.blk[r] not in l['set']
        return True

    def _step(self, pid, r, l, fp=False):
        tot = ZERO
        for _ in range(12):
            if r == pid:
                return tot
            i = self.fn.ins.get(r) if isinstance(r, int) else None
            if i is None:
                return None
            if i['op'] in (('fadd',) if fp else ('add',)):
                a, b = i['args']
                if self._inv(b, l):
                    tot = tot + self.num(b)
                    r = a
                elif self._inv(a, l):
                    tot = tot + self.num(a)
                    r = b
                else:
                    return None
            elif i['op'] in (('fsub',) if fp else ('sub',)):
                a, b = i['args']
                if not self._inv(b, l):
                    return None
                tot = tot - self.num(b)
                r = a
            elif i['op'] == 'getelementptr' and not i.get('unk'):
                t = Num.const(i['off'])
                for (v, s) in i['var']:
                    if not self._inv(v, l):
                        return None
                    t = t + self.num(v) * Num.const(s)
                tot = tot + t
                r = i['args'][0]
            elif i['op'] in ('sext', 'zext', 'trunc', 'freeze'):
                r = i['args'][0]
            elif i['op'] == 'phi' and len({str(x[1]) for x in i['inc']}) == 1:
                r = i['inc'][0][1]
            else:
                return None
        return None

    def _exec(self, b, st):
        fn = self.fn
        hdr = b in fn.loops
        for i in fn.blocks[b]:
            op = i['op']
            if op == 'phi':
                if hdr:
                    v = self._header_phi(b, i)
                else:
                    v = self._join_phi(b, i)
                self.val[i['id']] = v
                continue
            self.order += 1
            v = self._ins(b, st, i, op)
            if v is not None:
                self.val[i['id']] = v

    def _join_phi(self, b, i):
        fn = self.fn
        inc = [(p, x) for p, x in i['inc'] if p in fn.rpon]
        vals = [(p, self.ref(x)) for p, x in inc]
        if len({v.freeze() for _, v in vals}) == 1:
            v = vals[0][1]
            # lcssa: value leaving a loop
            lp = [fn.loop_of.get(p) for p, _ in vals]
            here = set(fn.loops_around(b))
            for p, _ in vals:
                for h in fn.loops_around(p):
                    if h not in here and self.variant(v, h):
                        return self.exit_val(h, v, i['ty'])
            return v
        nv = []
        for p, v in vals:
            here = set(fn.loops_around(b))
            for h in fn.loops_around(p)[::-1]:
                if h not in here and self.variant(v, h):
                    v = self.exit_val(h, v, i['ty'])
            nv.append(v)
        vs = nv
        if i['ty'] == 'i1':
            vs = [self.tocond(v) for v in vs]
        return self.gate(b, [p for p, _ in vals], vs)

    def variant(self, v, h):
        """does v mention the loop counter or a phi of loop h?"""
        def has(part):
            if isinstance(part, tuple):
                if len(part) >= 2 and part[0] == 'iv' and part[1] == h:
                    return True
                if len(part) >= 3 and part[0] == 'phi' and part[1] == h:
                    return True
                if len(part) == 3 and part[0] == 'num':
                    for p in part[1:]:
                        for m, _ in p:
                            for a, _e in m:
                                if a_has(a):
                                    return True
                    return False
                return any(has(q) for q in part)
            return False
        memo = {}

        def a_has(a):
            if a not in memo:
                memo[a] = False
                memo[a] = has(alg.key(a))
            return memo[a]
        return has(v.freeze())

    def exit_val(self, h, v, ty):
        k = ('exit', h, v.freeze())
        if ty == 'ptr':
            return Ptr(k)
        if ty == 'i1':
            return Cond(('b', k))
        return Num.atom(k)

    def _ins(self, b, st, i, op):
        fn = self.fn
        a = i['args']
        ty = i['ty']
        try:
            if op in ('add', 'fadd', 'or') and not (op == 'or' and ty == 'i1'):
                if op == 'or':
                    x, y = self.num(a[0]), self.num(a[1])
                    # 'or disjoint' produced by instcombine for (even + 1)
                    if y.cval() == 1 and self.even(x):
                        return x + y
                    return Num.atom(('or', x.freeze(), y.freeze()))
                if ty.startswith('<'):
                    return self.opaque(i, ('vec', i['id']))
                return self.num(a[0]) + self.num(a[1])
            if op in ('sub', 'fsub'):
                return self.num(a[0]) - self.num(a[1])
            if op in ('mul', 'fmul'):
                return self.num(a[0]) * self.num(a[1])
            if op == 'fneg':
                return -self.num(a[0])
            if op == 'fdiv':
                return self.num(a[0]) / self.num(a[1])
            if op == 'shl':
                c = self.num(a[1]).cval()
                if c is not None and 0 <= c < 63:
                    return self.num(a[0]) * Num.const(2 ** int(c))
                return Num.atom(('shl', self.num(a[0]).freeze(), self.num(a[1]).freeze()))
            if op in ('sdiv', 'udiv', 'ashr', 'lshr'):
                x, y = self.num(a[0]), self.num(a[1])
                if op in ('ashr', 'lshr'):
                    c = y.cval()
                    xc = x.cval()
                    if op == 'ashr' and c is not None and xc is not None:
                        return Num.const(int(xc) >> int(c))
                    y = Num.const(2 ** int(c)) if c is not None else Num.atom(('pow2', y.freeze()))
                return self.idiv(x, y)
            if op in ('srem', 'urem'):
                x, y = self.num(a[0]), self.num(a[1])
                if x.cval() is not None and y.cval():
                    return Num.const(int(x.cval()) % int(y.cval())) if x.cval() >= 0 else Num.atom(('rem', x.freeze(), y.freeze()))
                return Num.atom(('rem', x.freeze(), y.freeze()))
            if op in ('and', 'or', 'xor'):
                if ty == 'i1':
                    x, y = self.tocond(self.ref(a[0])), self.tocond(self.ref(a[1]))
                    if op == 'xor':
                        if y == TRUE:
                            return Cond(neg(x.key))
                        if x == TRUE:
                            return Cond(neg(y.key))
                        return Cond(('xor', x.key, y.key))
                    if op == 'and':
                        if x == TRUE:
                            return y
                        if y == TRUE:
                            return x
                        if FALSE in (x, y):
                            return FALSE
                    else:
                        if x == FALSE:
                            return y
                        if y == FALSE:
                            return x
                        if TRUE in (x, y):
                            return TRUE
                    return Cond((op, x.key, y.key))
                x, y = self.num(a[0]), self.num(a[1])
                if x.cval() is not None and y.cval() is not None:
                    xi, yi = int(x.cval()), int(y.cval())
                    return Num.const({'and': xi & yi, 'or': xi | yi, 'xor': xi ^ yi}[op])
                f = sorted([x.freeze(), y.freeze()], key=str)
                return Num.atom((op, f[0], f[1]))
            if op in ('sext', 'zext', 'trunc', 'sitofp', 'uitofp', 'fpext', 'fptrunc', 'freeze', 'ptrtoint', 'inttoptr', 'bitcast'):
                v = self.ref(a[0])
                if op in ('ptrtoint',):
                    return self.tonum(v)
                if op == 'inttoptr':
                    n = self.tonum(v)
                    if len(n.n) == 1 and n.ispoly():
                        (m, c), = n.n.items()
                        if c == 1 and len(m) == 1 and alg.key(m[0][0])[0] == 'pint':
                            f = alg.key(m[0][0])[1]
                            return Ptr(f[1], alg.N(f[2]))
                    return Ptr(('asptr', n.freeze()))
                if op == 'trunc' and ty == 'i1':
                    return self.tocond(v) if isinstance(v, Cond) or v.cval() is not None else self.trunc1(v)
                if op == 'trunc' and isinstance(v, Num) and i.get('from', '') in ('i32', 'i64') and ty in ('i8', 'i16'):
                    if v.cval() is None:
                        return Num.atom(('trunc', ty, v.freeze()))
                    w = int(ty[1:])
                    c = int(v.cval()) & ((1 << w) - 1)
                    if c >= 1 << (w - 1):
                        c -= 1 << w
                    return Num.const(c)
                if op == 'sext' and isinstance(v, Cond):
                    return -self.tonum(v)
                if op == 'zext' and isinstance(v, Num) and i.get('from') in ('i8', 'i16'):
                    if v.cval() is not None:
                        w = int(i['from'][1:])
                        return Num.const(int(v.cval()) & ((1 << w) - 1))
                    return Num.atom(('zext', i['from'], v.freeze()))
                if op in ('sitofp', 'uitofp', 'sext', 'zext', 'trunc') and isinstance(v, Cond):
                    return self.tonum(v)
                return v
            if op in ('fptosi', 'fptoui'):
                return Num.atom(('toint', self.num(a[0]).freeze()))
            if op in ('icmp', 'fcmp'):
                return self.cmp(i, op)
            if op == 'select':
                c = self.tocond(self.ref(a[0]))
                return self.mk_ite(c, self.ref(a[1]), self.ref(a[2]))
            if op == 'getelementptr':
                p = self.ref(a[0])
                if not isinstance(p, Ptr):
                    p = Ptr(('asptr', p.freeze()))
                if i.get('unk'):
                    return Ptr(('gep', i['id']))
                o = p.off + Num.const(i['off'])
                for (v, s) in i['var']:
                    o = o + self.num(v) * Num.const(s)
                return Ptr(p.base, o)
            if op == 'alloca':
                return Ptr(('alloca', i['id']))
            if op == 'load':
                p = self.ref(a[0])
                if not isinstance(p, Ptr):
                    p = Ptr(('asptr', p.freeze()))
                v = self.mem_load(st, p, i['size'], ty, i)
                self.loads[i['id']] = (p, v)
                self.ldorder[i['id']] = (self.order, i)
                if ty == 'i1':
                    v = self.tocond(v)
                return v
            if op == 'store':
                p = self.ref(a[1])
                if not isinstance(p, Ptr):
                    p = Ptr(('asptr', p.freeze()))
                v = self.ref(a[0])
                self.stores.append({'ptr': p, 'val': v, 'ins': i, 'blk': b, 'size': i['size'], 'order': self.order})
                self.mem_store(st, p, i['size'], v, ('s', i['id']), 'ptr' if isinstance(v, Ptr) else None)
                return None
            if op in ('call', 'invoke'):
                return self.call(b, st, i)
            if op == 'br':
                if len(i['succ']) == 2 and a:
                    self.branch[b] = self.tocond(self.ref(a[0]))
                return None
            if op == 'switch':
                self.branch[b] = self.ref(a[0])
                return None
            if op == 'ret':
                self.ret.append((b, self.ref(a[0]) if a else None, st.copy()))
                return None
            if op == 'extractvalue':
                v = self.ref(a[0])
                if isinstance(v, Agg) and isinstance(v.parts, dict):
                    k = tuple(i['idx'])
                    if k in v.parts:
                        return v.parts[k]
                    return self.opaque(i, ('xv', v.freeze(), k))
                return self.opaque(i, ('xv', i['id']))
            if op == 'insertvalue':
                v = self.ref(a[0])
                parts = dict(v.parts) if isinstance(v, Agg) and isinstance(v.parts, dict) else {}
                parts[tuple(i['idx'])] = self.ref(a[1])
                return Agg(parts, ('iv', i['id']))
            if op in ('unreachable', 'resume', 'fence'):
                return None
        except alg.TooBig:
            pass
        return self.opaque(i, ('op', op, i['id']))

    def trunc1(self, v):
        if len(v.n) == 1 and v.ispoly():
            (m, co), = v.n.items()
            if co == 1 and len(m) == 1 and m[0][1] == 1 and alg.key(m[0][0])[0] == 'bool':
                return Cond(alg.key(m[0][0])[1])
        # bool loaded from memory
        return Cond(norm_cmp('ne', v, 'i'))

    def even(self, x):
        return x.ispoly() and all(c.denominator == 1 and c % 2 == 0 for c in x.n.values())

    def idiv(self, x, y):
        c = y.cval()
        if c is not None and c != 0 and x.ispoly():
            xc = x.cval()
            if xc is not None:
                q = abs(int(xc)) // abs(int(c))
                return Num.const(q if (xc >= 0) == (c > 0) else -q)
            if exact_div(x, int(c)):
                return x / y
        return Num.atom(('idiv', x.freeze(), y.freeze()))

    PRED = {'eq': 'eq', 'ne': 'ne', 'slt': 'lt', 'sle': 'le', 'sgt': 'gt', 'sge': 'ge', 'ult': 'lt', 'ule': 'le', 'ugt': 'gt',
            'uge': 'ge', 'oeq': 'eq', 'une': 'ne', 'one': 'ne', 'olt': 'lt', 'ole': 'le', 'ogt': 'gt', 'oge': 'ge', 'ueq': 'eq'}

    def pcmp(self, p, x, y, room=6):
        if x.base == y.base:
            k = norm_cmp(self.PRED.get(p, p), x.off - y.off, 'i')
            return Cond(k)
        for u, w in ((x, y), (y, x)):
            # a block obtained from new/alloca is not null
            if p in ('eq', 'ne') and w.base[0] == 'null' and (u.base[0] in ('alloca', 'glob') or (u.base[0] == 'call' and u.base[1] in ('_Znwm', '_Znam'))):
                return FALSE if p == 'eq' else TRUE
        if p in ('eq', 'ne'):
            # a choice between pointers
            for u, w in ((x, y), (y, x)):
                if u.base[0] == 'ite' and u.off.cval() == 0 and room:
                    a, b = (self.pcmp(p, Ptr(q[1], alg.N(q[2])), w, room - 1) for q in u.base[2:4])
                    return self.tocond(self.mk_ite(Cond(u.base[1]), a, b))
            f = sorted([x.freeze(), y.freeze()], key=str)
            k = ('peq', f[0], f[1])
            return Cond(k if p == 'eq' else ('not', k))
        return Cond(('pcmp', p, x.freeze(), y.freeze()))

    def cmp(self, i, op):
        p = i['pred']
        x, y = self.ref(i['args'][0]), self.ref(i['args'][1])
        kind = 'i' if op == 'icmp' else 'f'
        if isinstance(x, Ptr) or isinstance(y, Ptr):
            if isinstance(x, Ptr) and isinstance(y, Ptr):
                return self.pcmp(p, x, y)
            return Cond(('pcmp', p, x.freeze(), y.freeze()))
        if isinstance(x, Cond) or isinstance(y, Cond):
            x, y = self.tocond(x), self.tocond(y)
            if y == FALSE:
                return x if p == 'ne' else Cond(neg(x.key))
            if y == TRUE:
                return x if p == 'eq' else Cond(neg(x.key))
            return Cond(('bcmp', p, x.key, y.key))
        x, y = self.tonum(x), self.tonum(y)
        if p in ('ord', 'uno'):
            return Cond((p, x.freeze(), y.freeze()))
        # unsigned-NaN-ordered variants: treat as their negated ordered form
        inv = {'ult': 'ge', 'ule': 'gt', 'ugt': 'le', 'uge': 'lt'}
        if kind == 'f' and p in inv:
            return Cond(neg2(norm_cmp(inv[p], x - y, 'f')))
        uns = kind == 'i' and p in inv
        if uns:
            # unsigned compare: keep distinct from signed
            return Cond(ucmp(p, x, y))
        return Cond(norm_cmp(self.PRED.get(p, p), x - y, kind))

    def call(self, b, st, i):
        n = i.get('callee', '')
        dm = i.get('dem', '')
        for x in INTERESTING_SKIP:
            if n.startswith(x):
                return ZERO if i['ty'] != 'ptr' else None
        if n in PURE:
            nm = PURE[n]
            xs = [self.num(a) for a in i['args']]
            return pure(nm, xs)
        if n in ('llvm.fmuladd.f64', 'llvm.fma.f64', 'fma'):
            x = [self.num(a) for a in i['args']]
            return x[0] * x[1] + x[2]
        args = [self.ref(a) if not (isinstance(a, dict) and 'md' in a) else None for a in i['args']]
        fz = tuple(a.freeze() if a is not None else None for a in args)
        rec = {'name': n, 'dem': dm, 'args': args, 'ins': i, 'blk': b, 'order': self.order, 'state': None,
               'fnptr': self.ref(i['fnptr']) if not n and i.get('fnptr') is not None else None}
        self.calls.append(rec)
        if n.startswith('llvm.memcpy') or n.startswith('llvm.memmove'):
            sz = self.tonum(args[2]).cval()
            dst, src = args[0], args[1]
            if isinstance(dst, Ptr) and isinstance(src, Ptr) and sz is not None:
                if sz <= 64 and sz % 8 == 0 and src.base[0] == 'glob':
                    cs = [self.const_load(Ptr(src.base, src.off + Num.const(o)), 8, 'double') for o in range(0, int(sz), 8)]
                    if all(isinstance(c, Num) for c in cs):
                        for o, c in enumerate(cs):
                            self.mem_store(st, Ptr(dst.base, dst.off + Num.const(8 * o)), 8, c, ('s', i['id']), 'double')
                        return None
                self.mem_store(st, dst, int(sz), ('copy', src, 0, st.copy()), ('s', i['id']), 'copy')
            elif isinstance(dst, Ptr):
                self.kill(st, dst.base, ('s', i['id']))
            return None
        if n.startswith('llvm.memset'):
            sz = self.tonum(args[2]).cval()
            c = self.tonum(args[1]).cval()
            if isinstance(args[0], Ptr):
                if sz is not None and c is not None:
                    self.mem_store(st, args[0], int(sz), ('fill', int(c)), ('s', i['id']), 'fill')
                else:
                    self.kill(st, args[0].base, ('s', i['id']))
            return None
        if any(p in dm for p in self.pure_calls):
            k = ('cell', dm, fz) if i['ty'] == 'ptr' else ('call', dm, fz)
            v = self.opaque(i, k)
            rec['res'] = v
            return v
        cn = n if n else 'fnptr'
        seq = self.callseq.get(cn, 0)
        self.callseq[cn] = seq + 1
        rec['seq'] = seq
        rec['state'] = st.copy()
        if n not in NOEFFECT:
            for k, a in enumerate(args):
                if isinstance(a, Ptr):
                    self.kill(st, a.base, ('c', cn, seq, k, a.off.freeze()))
            if n not in ('_Znwm', '_Znam', 'malloc', '_ZdlPv', '_ZdaPv', 'free', '_ZdlPvm', '_ZdaPvm'):
                self.kill_heap(st, ('ch', cn, seq))
        v = self.opaque(i, ('call', cn, seq)) if i['ty'] != 'void' else None
        rec['res'] = v
        return v

    # ---- facts
    def edge_cond(self, p, s):
        """condition key holding on edge p->s, or None"""
        t = self.fn.blocks[p][-1]
        if t['op'] == 'br' and len(t['succ']) == 2 and t['succ'][0] != t['succ'][1]:
            c = self.branch.get(p)
            if c is None:
                return None
            return c.key if t['succ'][0] == s else neg2(c.key)
        if t['op'] == 'switch':
            v = self.branch.get(p)
            if not isinstance(v, Num):
                return None
            cs = [c for c, d in t['cases'] if d == s]
            if t['default'] == s:
                if cs:
                    return None
                return ('notin', v.freeze(), tuple(sorted(c for c, _ in t['cases'])))
            if len(cs) == 1:
                return norm_cmp('eq', v - Num.const(cs[0]), 'i')
            return ('in', v.freeze(), tuple(sorted(cs)))
        return None

    def facts(self, b):
        """set of condition keys known true whenever block b executes"""
        if not hasattr(self, '_facts'):
            self._facts = {}
            fn = self.fn
            for x in fn.rpo:
                ps = [p for p in fn.pred[x] if p in self._facts]
                if x == fn.entry:
                    self._facts[x] = frozenset()
                    continue
                acc = None
                for p in ps:
                    fs = set(self._facts[p])
                    c = self.edge_cond(p, x)
                    if c is not None:
                        fs |= flatten(c)
                    acc = fs if acc is None else acc & fs
                self._facts[x] = frozenset(acc or ())
        return self._facts.get(b, frozenset())


def flatten(k):
    """conjunctive decomposition"""
    out = set()
    if k[0] == 'and':
        out |= flatten(k[1]) | flatten(k[2])
        return out
    if k[0] == 'not' and k[1][0] == 'or':
        return flatten(neg2(k[1][1])) | flatten(neg2(k[1][2]))
    if k[0] == 'urange':
        out.add(k[1])
        out.add(norm_cmp('ge', alg.N(k[2]), 'i'))
        return out
    out.add(k)
    return out


def neg2(k):
    if k[0] == 'not':
        return k[1]
    if k[0] == 'and':
        return ('not', k)
    r = neg(k)
    return r


# express sines and cosines of whole angles through the half angles (Eigen
# builds rotations from quaternions)
HALF = False


def pure(nm, xs):
    if nm == 'sqrt':
        return alg.mk_sqrt(xs[0])
    if nm in ('sin', 'cos', 'tan'):
        x = xs[0]
        if x.cval() == 0:
            return ZERO if nm != 'cos' else UNIT
        # parity normalisation
        if x.n:
            lead = x.n[min(x.n)]
            if lead < 0:
                y = -x
                t = pure(nm, [y])
                return t if nm == 'cos' else -t
            if HALF and x.ispoly() and all(c.denominator % 2 for c in x.n.values()):
                h = x * Num.const(Fraction(1, 2))
                s, c = Num.atom(('sin', h.freeze())), Num.atom(('cos', h.freeze()))
                return s * c * Num.const(2) if nm == 'sin' else (c * c * Num.const(2) - UNIT if nm == 'cos' else s * c * Num.const(2) / (c * c * Num.const(2) - UNIT))
        if x.ispoly() and len(x.n) == 1:
            (mo, co), = x.n.items()
            k = alg.key(mo[0][0]) if co == 1 and len(mo) == 1 and mo[0][1] == 1 else None
            if k is not None and k[0] in ('acos', 'asin'):
                # sine and cosine of an inverse: x and sqrt(1 - x^2)
                y = alg.N(k[1])
                z = alg.mk_sqrt(UNIT - y * y)
                sn, cs = (y, z) if k[0] == 'asin' else (z, y)
                return sn if nm == 'sin' else cs if nm == 'cos' else sn / cs
        if nm == 'tan':
            return Num.atom(('sin', x.freeze())) / Num.atom(('cos', x.freeze()))
        return Num.atom((nm, x.freeze()))
    if nm in ('ldexp', 'scalbn') and len(xs) == 2:
        c = xs[1].cval()
        if c is not None and c.denominator == 1 and abs(c) < 1100:
            return xs[0] * Num.const(Fraction(2) ** int(c))
    if nm == 'exp2':
        c = xs[0].cval()
        if c is not None and c.denominator == 1 and abs(c) < 1100:
            return Num.const(Fraction(2) ** int(c))
    if nm in ('floor', 'ceil', 'trunc', 'round') and xs[0].cval() is not None:
        import math
        c = xs[0].cval()
        return Num.const(math.floor(c) if nm == 'floor' else math.ceil(c) if nm == 'ceil' else math.trunc(c) if nm == 'trunc' else (1 if c >= 0 else -1) * math.floor(abs(c) + Fraction(1, 2)))
    if nm == 'pow':
        b, c = xs[0].cval(), xs[1].cval()
        if b is not None and c is not None and c.denominator == 1 and abs(c) < 200 and b != 0:
            return Num.const(b ** int(c))
        if c is not None and c.denominator == 1 and abs(c) <= 12:
            r = UNIT
            for _ in range(abs(int(c))):
                r = r * xs[0]
            return r if c >= 0 else UNIT / r
        if c is not None and c.denominator == 2 and abs(c) <= 6:
            s = alg.mk_sqrt(xs[0])
            r = UNIT
            for _ in range(abs(int(c * 2))):
                r = r * s
            return r if c >= 0 else UNIT / r
    if nm == 'fabs':
        x = xs[0]
        c = x.cval()
        if c is not None:
            return Num.const(abs(c))
        sg = alg.poly_sign(x)
        if sg in ('+', '0+'):
            return x
        if sg in ('-', '0-'):
            return -x
        if x.n and x.n[min(x.n)] < 0:
            x = -x
        return Num.atom(('fabs', x.freeze()))
    if nm == 'copysign' and len(xs) == 2:
        sg = alg.poly_sign(xs[1])
        m = pure('fabs', [xs[0]])
        if sg in ('+', '0'):
            return m
        if sg == '-':
            return -m
        return Num.atom((nm, m.freeze(), xs[1].freeze()))
    if nm in ('fmax', 'fmin', 'smax', 'smin', 'umax', 'umin'):
        nm = {'smax': 'fmax', 'smin': 'fmin', 'umax': 'umax', 'umin': 'umin'}.get(nm, nm)
        if nm in ('fmax', 'fmin') and len(xs) == 2:
            sg = alg.poly_sign(xs[0] - xs[1])
            if sg in ('+', '0+', '0'):
                return xs[0] if nm == 'fmax' else xs[1]
            if sg in ('-', '0-'):
                return xs[1] if nm == 'fmax' else xs[0]
        f = sorted([x.freeze() for x in xs])
        return Num.atom((nm,) + tuple(f))
    return Num.atom((nm,) + tuple(x.freeze() for x in xs))


def refold(k):
    """constant folding of an integer operation whose operands became constant"""
    h = k[0]
    try:
        if h == 'ld' and k[1][0] == 'glob' and k[3] in ('double', 'i32', 'i64'):
            g, o = CONST.get(k[1][1]), alg.N(k[2]).cval()
            if not g or not g.get('const') or 'init' not in g or o is None or o.denominator != 1:
                return None
            r = const_at(g['init'], g['ty'], int(o), tysize(k[3]), k[3])
            return r if isinstance(r, Num) else None
        if h in ('and', 'or', 'xor', 'rem', 'idiv', 'shl') and len(k) == 3:
            x, y = alg.N(k[1]).cval(), alg.N(k[2]).cval()
            if x is None or y is None or x.denominator != 1 or y.denominator != 1:
                return None
            x, y = int(x), int(y)
            if h in ('rem', 'idiv'):
                if y == 0:
                    return None
                q = abs(x) // abs(y)
                q = q if (x >= 0) == (y > 0) else -q
                return Num.const(q if h == 'idiv' else x - q * y)
            if h == 'shl':
                return Num.const(x << y) if 0 <= y < 40 and x >= 0 else None
            return Num.const({'and': x & y, 'or': x | y, 'xor': x ^ y}[h])
        if h in ('exp', 'log', 'cosh') and len(k) == 2:
            return UNIT if h != 'log' and alg.N(k[1]).cval() == 0 else ZERO if h == 'log' and alg.N(k[1]).cval() == 1 else None
        if h == 'trunc' and len(k) == 3:
            x = alg.N(k[2]).cval()
            if x is None:
                return None
            w = int(k[1][1:])
            c = int(x) & ((1 << w) - 1)
            return Num.const(c - (1 << w) if c >= 1 << (w - 1) else c)
        if h == 'zext' and len(k) == 3:
            x = alg.N(k[2]).cval()
            return None if x is None else Num.const(int(x) & ((1 << int(k[1][1:])) - 1))
    except (TypeError, AttributeError, ValueError):
        return None
    return None


def exact_div(x, c):
    """is the integer polynomial x divisible by c for all integer arguments?"""
    at = sorted(x.atoms())
    if c == 0 or len(at) > 4 or abs(c) > 6:
        return all(co.denominator == 1 and co % c == 0 for co in x.n.values()) if c else False
    if any(co.denominator != 1 for co in x.n.values()):
        return False
    import itertools
    m = abs(c)
    for vals in itertools.product(range(m), repeat=len(at)):
        d = dict(zip(at, vals))
        s = 0
        for mono, co in x.n.items():
            t = int(co)
            for k, e in mono:
                t *= d[k] ** e
            s += t
        if s % m:
            return False
    return True


def dec(t):
    """shortest decimal that round-trips, as an exact fraction (source literal)"""
    x = float(t)
    s = repr(x)
    f = Fraction(s)
    if sum(ch.isdigit() for ch in s.split('e')[0].lstrip('-0.')) >= 15 and f:
        # a folded quotient such as 1./3.: take the simple fraction it rounds from
        g = f.limit_denominator(10 ** 7)
        if g and abs(g - f) <= abs(f) * Fraction(3, 10 ** 16):
            return g
    return f


def elems(init, ty=None):
    """flatten a constant initialiser into scalars with sizes, if homogeneous"""
    return init


def tysize(ty):
    ty = ty.strip()
    if ty == 'double' or ty == 'i64' or ty == 'ptr':
        return 8
    if ty == 'float' or ty == 'i32':
        return 4
    if ty == 'i16':
        return 2
    if ty in ('i8', 'i1'):
        return 1
    if ty.startswith('['):
        n, rest = ty[1:-1].split(' x ', 1)
        s = tysize(rest)
        return None if s is None else int(n) * s
    return None


def const_at(init, gty, off, size, ty):
    """value of type ty at byte offset off of a constant initialiser"""
    def scal(x):
        if 'f' in x:
            return Num.const(dec(x['f']))
        if 'c' in x:
            return Num.const(x['c'])
        if 'g' in x:
            return Ptr(('glob', x['g']), Num.const(x.get('off', 0)))
        if 'null' in x:
            return Ptr(('null',))
        return None

    def go(x, t, o):
        if 'zero' in x:
            return Ptr(('null',)) if ty == 'ptr' else ZERO
        if 'offs' in x:
            for i, a in enumerate(x['offs']):
                if a <= o < a + x['szs'][i]:
                    return go(x['agg'][i], x['tys'][i], o - a)
            return None
        if 'arr' in x or 'bytes' in x or 'agg' in x:
            if not t.startswith('['):
                return None
            n, et = t[1:-1].split(' x ', 1)
            es = x['es'] if 'es' in x else tysize(et)
            if es is None:
                return None
            k, r = divmod(o, es)
            if k < 0 or k >= int(n):
                return None
            if 'bytes' in x:
                if et == 'i8' and size == 1:
                    v = x['bytes'][k]
                    return Num.const(v - 256 if v > 127 else v)
                return None
            lst = x.get('arr', x.get('agg'))
            if k >= len(lst):
                return None
            return go(lst[k], et, r)
        if o != 0:
            return None
        if tysize(t) != size:
            return None
        return scal(x)
    return go(init, gty, off)
