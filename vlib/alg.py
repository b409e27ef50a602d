"""Canonical rational functions over Q with interned atoms.

A polynomial is a dict {monomial: Fraction}; a monomial is a sorted tuple of
(atom, exponent).  Atoms are interned keys: program inputs, loads, loop
counters, sqrt/sin/cos of canonical arguments.  Relations sqrt(x)^2 = x and
sin^2 = 1 - cos^2 are applied on the fly, so equality of two formulas is
decided by a normal form, not by evaluating them."""
from fractions import Fraction

_atoms = {}
_keys = []


def atom(key):
    i = _atoms.get(key)
    if i is None:
        i = len(_keys)
        _atoms[key] = i
        _keys.append(key)
    return i


def key(i):
    return _keys[i]


ONE = ()
TOL = Fraction(1, 10 ** 10)
MAXT = 60000


class TooBig(Exception):
    pass


def p_const(c):
    c = Fraction(c)
    return {ONE: c} if c else {}


def p_add(a, b, s=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + s * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def m_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for k, e in b:
        d[k] = d.get(k, 0) + e
    return tuple(sorted((k, e) for k, e in d.items() if e))


def _reduce_mono(m, c):
    """apply sqrt^2 and sin^2 relations; returns polynomial"""
    for idx, (k, e) in enumerate(m):
        if e >= 2:
            kk = _keys[k]
            if kk[0] == 'sqrt':
                rest = m[:idx] + (((k, e % 2),) if e % 2 else ()) + m[idx + 1:]
                base = thaw(kk[1])
                if base[1] != {ONE: Fraction(1)}:
                    continue
                p = {rest: c}
                for _ in range(e // 2):
                    p = p_mul(p, base[0])
                return p
            if kk[0] == 'sin':
                rest = m[:idx] + (((k, e % 2),) if e % 2 else ()) + m[idx + 1:]
                ck = atom(('cos', kk[1]))
                one_m = {ONE: Fraction(1), ((ck, 2),): Fraction(-1)}
                p = {rest: c}
                for _ in range(e // 2):
                    p = p_mul(p, one_m)
                return p
    return {m: c}


def _needs(m):
    for k, e in m:
        if e >= 2 and _keys[k][0] in ('sqrt', 'sin'):
            return True
    return False


def p_mul(a, b):
    if not a or not b:
        return {}
    if len(a) * len(b) > MAXT * 10:
        raise TooBig()
    r = {}
    pend = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = m_mul(m1, m2)
            t = pend if _needs(m) else r
            v = t.get(m, 0) + c1 * c2
            if v:
                t[m] = v
            else:
                t.pop(m, None)
    for m, c in pend.items():
        q = _reduce_mono(m, c)
        if len(q) == 1 and m in q:
            r = p_add(r, q)
        else:
            r = p_add(r, q)
    if len(r) > MAXT:
        raise TooBig()
    return r


def p_iszero(p, scale=None):
    if not p:
        return True
    if scale is None:
        return False
    return all(abs(c) <= TOL * scale for c in p.values())


def p_maxc(p):
    return max((abs(c) for c in p.values()), default=Fraction(0))


def p_freeze(p):
    return tuple(sorted(p.items()))


class Num:
    __slots__ = ('n', 'd', '_h')

    def __init__(self, n, d=None):
        self.n = n
        self.d = d if d is not None else {ONE: Fraction(1)}
        self._h = None

    @staticmethod
    def const(c):
        return Num(p_const(c))

    @staticmethod
    def atom(k):
        return Num({((atom(k), 1),): Fraction(1)})

    def isconst(self):
        return self.d == {ONE: Fraction(1)} and (not self.n or (len(self.n) == 1 and ONE in self.n))

    def cval(self):
        return self.n.get(ONE, Fraction(0)) if self.isconst() else None

    def ispoly(self):
        return len(self.d) == 1 and ONE in self.d

    def norm(self):
        n, d = self.n, self.d
        if not n:
            return Num({}, {ONE: Fraction(1)})
        # strip common monomial content
        if d != {ONE: Fraction(1)}:
            common = None
            for m in list(n) + list(d):
                dm = dict(m)
                if common is None:
                    common = dm
                else:
                    common = {k: min(e, dm[k]) for k, e in common.items() if k in dm}
                if not common:
                    break
            if common:
                inv = tuple(sorted((k, -e) for k, e in common.items()))
                n = {m_mul(m, inv): c for m, c in n.items()}
                d = {m_mul(m, inv): c for m, c in d.items()}
            # single-monomial sqrt in denominator stays; normalise leading coeff
            lead = d[min(d)]
            if lead != 1:
                n = {m: c / lead for m, c in n.items()}
                d = {m: c / lead for m, c in d.items()}
            if len(n) == len(d) and len(d) > 1:
                # proportional?
                mm = min(d)
                if mm in n:
                    r = n[mm] / d[mm]
                    if all(m in n and n[m] == r * c for m, c in d.items()):
                        return Num({ONE: r} if r else {}, {ONE: Fraction(1)})
        return Num(n, d)

    def __add__(self, o):
        if self.d == o.d:
            return Num(p_add(self.n, o.n), self.d).norm()
        if len(self.d) > 1 and len(o.d) > 1 and len(self.n) * len(o.d) + len(o.n) * len(self.d) > 1500:
            # one denominator divides the other
            q = p_div(o.d, self.d)
            if q is not None:
                return Num(p_add(p_mul(self.n, q), o.n), o.d).norm()
            q = p_div(self.d, o.d)
            if q is not None:
                return Num(p_add(self.n, p_mul(o.n, q)), self.d).norm()
        return Num(p_add(p_mul(self.n, o.d), p_mul(o.n, self.d)), p_mul(self.d, o.d)).norm()

    def __sub__(self, o):
        return self + (-o)

    def __neg__(self):
        return Num({m: -c for m, c in self.n.items()}, self.d)

    def __mul__(self, o):
        return Num(p_mul(self.n, o.n), p_mul(self.d, o.d)).norm()

    def __truediv__(self, o):
        if not o.n:
            return Num.atom(('divzero',))
        return Num(p_mul(self.n, o.d), p_mul(self.d, o.n)).norm()

    def freeze(self):
        if self._h is None:
            self._h = ('num', p_freeze(self.n), p_freeze(self.d))
        return self._h

    def __eq__(self, o):
        return isinstance(o, Num) and self.freeze() == o.freeze()

    def __hash__(self):
        return hash(self.freeze())

    def atoms(self):
        s = set()
        for p in (self.n, self.d):
            for m in p:
                for k, _ in m:
                    s.add(k)
        return s

    def __repr__(self):
        return show(self)


def thaw(f):
    return dict(f[1]), dict(f[2])


def N(f):
    n, d = thaw(f)
    return Num(n, d)


ZERO = Num({})
UNIT = Num({ONE: Fraction(1)})


def same(a, b):
    """definite equality of two rational functions (tolerance on the rational
    coefficients only, for decimal constants)"""
    x = p_mul(a.n, b.d)
    y = p_mul(b.n, a.d)
    diff = p_add(x, y, -1)
    if not diff:
        return True
    sc = max(p_maxc(x), p_maxc(y))
    return all(abs(c) <= TOL * sc for c in diff.values())


def deep_atoms(v, acc=None):
    """all atoms, looking inside function atoms"""
    if acc is None:
        acc = set()

    def go(k):
        if k in acc:
            return
        acc.add(k)
        kk = _keys[k]
        for part in kk[1:]:
            walk(part)

    def walk(part):
        if isinstance(part, tuple):
            if len(part) == 3 and part[0] == 'num':
                for p in part[1:]:
                    for m, _ in p:
                        for a, _e in m:
                            go(a)
            else:
                for q in part:
                    walk(q)
    for a in v.atoms():
        go(a)
    return acc


def show_key(k, depth=0):
    kk = _keys[k] if isinstance(k, int) else k
    h = kk[0]
    if h == 'arg':
        return str(kk[-1])
    if h == 'sym':
        return str(kk[1])
    if h == 'iv':
        return 'i%s' % (kk[1],)
    if h in ('sqrt', 'sin', 'cos', 'tan', 'fabs'):
        return '%s(%s)' % (h, show_part(kk[1]))
    return '%s(%s)' % (h, ', '.join(show_part(x) for x in kk[1:]))


def show_part(x):
    if isinstance(x, tuple):
        if len(x) == 3 and x[0] == 'num':
            return show(N(x))
        if len(x) and isinstance(x[0], str) and x[0] in ('arg', 'sym', 'ld', 'iv', 'alloca', 'glob', 'call', 'phi'):
            return show_key(x)
        return '(' + ','.join(show_part(y) for y in x) + ')'
    return str(x)


def _sc(c):
    if c.denominator == 1:
        return str(c.numerator)
    if c.denominator < 10000:
        return str(c)
    return repr(float(c))


def show_poly(p):
    if not p:
        return '0'
    out = []
    for m, c in sorted(p.items(), key=lambda t: (-len(t[0]), t[0]))[:60]:
        ms = '*'.join(show_key(k) + ('^%d' % e if e != 1 else '') for k, e in m)
        if not m:
            out.append(_sc(c))
        elif c == 1:
            out.append(ms)
        elif c == -1:
            out.append('-' + ms)
        else:
            out.append(_sc(c) + '*' + ms)
    return ' + '.join(out).replace('+ -', '- ')


def show(v):
    if v.ispoly():
        return show_poly(v.n)
    return '(%s)/(%s)' % (show_poly(v.n), show_poly(v.d))


def mk_sqrt(x):
    c = x.cval()
    if c is not None and c >= 0:
        import math
        for num in (c,):
            a, b = math.isqrt(num.numerator), math.isqrt(num.denominator)
            if a * a == num.numerator and b * b == num.denominator:
                return Num.const(Fraction(a, b))
    if not x.ispoly():
        # sqrt(n/d) = sqrt(n*d)/d   (d > 0 assumed for real formulas; recorded as an assumption)
        nd = Num(p_mul(x.n, x.d))
        return mk_sqrt(nd) / Num(x.d)
    # extract even monomial content with a positive square coefficient:  sqrt(a^2 p) -> |a| sqrt(p) is not done
    return Num.atom(('sqrt', x.freeze()))


def p_div(a, b):
    """exact quotient of two polynomials, or None"""
    if not b:
        return None
    key = lambda m: (sum(e for _, e in m), m)
    lb = max(b, key=key)
    db = dict(lb)
    q, r, steps = {}, dict(a), 0
    while r:
        lr = max(r, key=key)
        dr = dict(lr)
        if any(dr.get(k, 0) < e for k, e in db.items()):
            return None
        m = tuple(sorted((k, e - db.get(k, 0)) for k, e in dr.items() if e - db.get(k, 0)))
        c = r[lr] / b[lb]
        q[m] = q.get(m, 0) + c
        for mb, cb in b.items():
            mm = dict(m)
            for k, e in mb:
                mm[k] = mm.get(k, 0) + e
            mm = tuple(sorted(mm.items()))
            x = r.get(mm, 0) - c * cb
            if x:
                r[mm] = x
            else:
                r.pop(mm, None)
        steps += 1
        if steps > 5000:
            return None
    return q


def subst(v, mapping):
    """replace atoms (ids) by Num"""
    def poly(p):
        r = ZERO
        for m, c in p.items():
            t = Num.const(c)
            for k, e in m:
                b = mapping.get(k)
                if b is None:
                    b = Num({((k, 1),): Fraction(1)})
                for _ in range(e):
                    t = t * b
            r = r + t
        return r
    hit = any(k in mapping for k in v.atoms())
    if not hit:
        return v
    return poly(v.n) / poly(v.d)


def rewrite(v, fn, memo=None):
    """bottom-up rewriting of atoms: fn(key) -> Num or None; recursion into
    nested ('num',..) parts of keys."""
    if memo is None:
        memo = {}

    def rpart(part):
        if isinstance(part, tuple):
            if len(part) == 3 and part[0] == 'num':
                return rewrite(N(part), fn, memo).freeze()
            return tuple(rpart(q) for q in part)
        return part

    mp = {}
    for a in v.atoms():
        if a in memo:
            r = memo[a]
        else:
            kk = _keys[a]
            nk = (kk[0],) + tuple(rpart(q) for q in kk[1:])
            r = fn(nk)
            if r is None:
                if nk == kk:
                    r = None
                elif nk[0] == 'sqrt':
                    r = mk_sqrt(N(nk[1]))
                else:
                    r = Num.atom(nk)
            memo[a] = r
        if r is not None:
            mp[a] = r
    return subst(v, mp)


def diff(v, var):
    """derivative with respect to atom id `var` (other atoms: sqrt/sin/cos by
    the chain rule; anything else containing var -> None)."""
    def d_atom(a):
        if a == var:
            return UNIT
        kk = _keys[a]
        if var not in deep_atoms(Num({((a, 1),): Fraction(1)})):
            return ZERO
        me = Num({((a, 1),): Fraction(1)})
        if kk[0] == 'sqrt':
            return diff(N(kk[1]), var) / (Num.const(2) * me)
        if kk[0] == 'sin':
            return Num.atom(('cos', kk[1])) * diff(N(kk[1]), var)
        if kk[0] == 'cos':
            return -(Num.atom(('sin', kk[1])) * diff(N(kk[1]), var))
        raise ValueError('cannot differentiate ' + kk[0])

    memo = {}

    def dp(p):
        r = ZERO
        for m, c in p.items():
            for i, (k, e) in enumerate(m):
                if k not in memo:
                    memo[k] = d_atom(k)
                da = memo[k]
                if not da.n:
                    continue
                rest = m[:i] + (((k, e - 1),) if e > 1 else ()) + m[i + 1:]
                r = r + Num({rest: c * e}) * da
        return r
    n, d = Num(v.n), Num(v.d)
    if v.ispoly():
        return dp(v.n) / d
    return (dp(v.n) * d - n * dp(v.d)) / (d * d)


def atom_sign(a, env=None):
    """'+' (positive), '0+' (non-negative), '-' , '0-' or '?'"""
    k = _keys[a]
    if env is not None:
        b = env.get((((a, 1),),))
        if b is not None:
            lo, ls, hi, hs = b[:4]
            if lo is not None and (lo > 0 or (lo == 0 and ls)):
                return '+'
            if hi is not None and (hi < 0 or (hi == 0 and hs)):
                return '-'
            if lo is not None and lo >= 0:
                return '0+'
            if hi is not None and hi <= 0:
                return '0-'
    h = k[0]
    if h in ('sqrt', 'fabs', 'hypot', 'bool'):
        return '0+'
    if h == 'exp':
        return '+'
    if h == 'pow' and isinstance(k[1], tuple) and k[1][0] == 'num':
        s = poly_sign(N(k[1]), env)
        return s if s in ('+', '0+') else '?'
    if h in ('fmax', 'fmin') and len(k) == 3:
        ss = [poly_sign(N(x), env) for x in k[1:]]
        if h == 'fmax':
            if '+' in ss:
                return '+'
            if '0+' in ss or '0' in ss:
                return '0+'
        if h == 'fmin' and all(x in ('+', '0+', '0') for x in ss):
            return '+' if all(x == '+' for x in ss) else '0+'
    return '?'


def poly_sign(v, env=None):
    """sign of a rational function by the signs of its parts"""
    if not v.ispoly():
        a, b = poly_sign(Num(v.n), env), poly_sign(Num(v.d), env)
        return _smul(a, b) if b in ('+', '-', '0+', '0-') else '?'
    r = '0'
    memo = {}
    for m, c in v.n.items():
        s = '+' if c > 0 else '-'
        for k, e in m:
            t = memo.get(k)
            if t is None:
                t = memo[k] = atom_sign(k, env)
            if e % 2 == 0:
                t = '+' if t in ('+', '-') else '0+'
            s = _smul(s, t)
        r = _sadd(r, s)
        if r == '?':
            return r
    return r


def _smul(a, b):
    if a == '0' or b == '0':
        return '0'
    if a == '?' or b == '?':
        return '?'
    neg = ('-' in a) != ('-' in b)
    z = '0' in a or '0' in b
    return ('0' if z else '') + ('-' if neg else '+')


def _sadd(a, b):
    if a == '0':
        return b
    if b == '0':
        return a
    if a == '?' or b == '?' or ('-' in a) != ('-' in b):
        return '?'
    z = '0' in a and '0' in b
    return ('0' if z else '') + ('-' if '-' in a else '+')
