"""Decide equality of two value-numbered results by finite case analysis on the
branch conditions they mention.

A result is a rational function over atoms, with ('ite', cond, a, b) atoms for
gated values.  `compare` enumerates the sign cases of the polynomials that the
conditions test (intervals per polynomial, so contradictory cases are pruned),
rewrites both sides in each case and compares normal forms.  It answers
 'equal'      in every case,
 'differ'     (with the case) when both sides are fully resolved and different,
 'unknown'    when some case still contains an unresolved construct."""
import time
from fractions import Fraction
from . import alg
from .alg import Num, ZERO, UNIT
from .vn import Ptr, Cond, Agg, norm_cmp, pure, refold, ucmp as vn_ucmp

OPAQUE = ('phi', 'exit', 'late', 'op', 'vec', 'xv', 'gep', 'asptr', 'exitsel')


HEAPCALLS = ('_Znwm', '_Znam', 'malloc', 'calloc')


class Split(Exception):
    def __init__(self, kind, *a):
        self.kind = kind
        self.a = a


class Env:
    """interval per canonical polynomial + truth per opaque boolean"""

    def __init__(self, iv=None, bl=None):
        self.iv = iv or {}
        self.bl = bl or {}
        self.memo = {}
        self._sg = None

    def signs(self):
        if self._sg is None:
            self._sg = {k[1][0][0:1]: b for k, b in self.iv.items() if len(k[1]) == 1 and len(k[1][0][0]) == 1 and k[1][0][0][0][1] == 1}
        return self._sg

    def with_iv(self, p, box):
        e = Env(dict(self.iv), dict(self.bl))
        e.iv[p] = box
        return e

    def with_b(self, k, v):
        e = Env(dict(self.iv), dict(self.bl))
        e.bl[k] = v
        return e

    def box(self, p):
        return self.iv.get(p, (None, False, None, False, frozenset()))


def split_poly(d):
    """d (Num, polynomial) = s*(p - t): canonical p (no constant term, leading
    coefficient 1), threshold t, sign s"""
    if not d.ispoly():
        return None
    n = dict(d.n)
    c0 = n.pop(alg.ONE, Fraction(0))
    if not n:
        return None
    lead = n[min(n)]
    p = Num({m: c / lead for m, c in n.items()})
    return p, -c0 / lead, (1 if lead > 0 else -1)


def integral(p, kind):
    return kind == 'i' and all(c.denominator == 1 for c in p.n.values())


def sign_of(d, env, kind):
    """sign of Num d in env: -1,0,1 or raise Split"""
    c = d.cval()
    if c is not None:
        return (c > 0) - (c < 0)
    if not d.ispoly():
        # sign(n/d) = sign(n)*sign(d)
        a = sign_of(Num(d.n), env, kind)
        if a == 0:
            return 0
        return a * sign_of(Num(d.d), env, kind)
    # sqrt atoms alone are >= 0
    p, t, s = split_poly(d)
    key = p.freeze()
    sg = alg.poly_sign(d, env.signs())
    if sg in ('+', '-', '0'):
        return {'+': 1, '-': -1, '0': 0}[sg]
    lo, ls, hi, hs, ne = env.box(key)
    isint = integral(p, kind)
    if lo is not None and (lo > t or (lo == t and ls)):
        return s
    if hi is not None and (hi < t or (hi == t and hs)):
        return -s
    if lo is not None and hi is not None and lo == hi == t and not ls and not hs:
        return 0
    raise Split('poly', key, t, isint, (sg if s > 0 else {'0+': '0-', '0-': '0+'}.get(sg, sg)))


def subboxes(env, key, t, isint, sg='?'):
    lo, ls, hi, hs, ne = env.box(key)
    out = []
    t = Fraction(t)
    if isint and t.denominator != 1:
        import math
        f = math.floor(t)
        cands = [(lo, ls, Fraction(f), False), (Fraction(f + 1), False, hi, hs)]
    elif isint:
        cands = [(lo, ls, t - 1, False), (t, False, t, False), (t + 1, False, hi, hs)]
    else:
        cands = [(lo, ls, t, True), (t, False, t, False), (t, True, hi, hs)]
    if sg == '0+':
        cands = cands[1:]
    elif sg == '0-':
        cands = cands[:-1]
    for (a, as_, b, bs) in cands:
        # intersect with the current box
        if lo is not None and (a is None or a < lo or (a == lo and ls)):
            a, as_ = lo, ls
        if hi is not None and (b is None or b > hi or (b == hi and hs)):
            b, bs = hi, hs
        if a is not None and b is not None and (a > b or (a == b and (as_ or bs))):
            continue
        out.append(env.with_iv(key, (a, as_, b, bs, ne)))
    return out


class Resolver:
    def __init__(self, env, memo=None, split_abs=False):
        self.env = env
        # decisions made under a weaker case stay valid in its sub-cases
        self.memo, self.cm, self.pm = memo or ({}, {}, {})
        self.split_abs = split_abs

    def fork(self):
        return dict(self.memo), dict(self.cm), dict(self.pm)

    def num(self, v):
        if not any(self.dirty(a) for a in v.atoms()):
            return v
        mp = {}
        for a in v.atoms():
            if self.dirty(a):
                mp[a] = self.atom(a)
        return alg.subst(v, mp)

    _dirty = {}

    def dirty(self, a):
        """does the atom (deeply) contain something to resolve?"""
        r = Resolver._dirty.get(a)
        if r is None:
            r = any(alg.key(x)[0] in ('ite', 'bool', 'fabs', 'fmax', 'fmin', 'copysign') for x in alg.deep_atoms(Num({((a, 1),): Fraction(1)}))) or has_ite(alg.key(a))
            Resolver._dirty[a] = r
        return r

    def atom(self, a):
        if a in self.memo:
            return self.memo[a]
        k = alg.key(a)
        if k[0] == 'ite':
            r = self.num(alg.N(k[2])) if self.cond(k[1]) else self.num(alg.N(k[3]))
        elif k[0] == 'bool':
            r = UNIT if self.cond(k[1]) else ZERO
        elif k[0] == 'fabs' and self.split_abs:
            x = self.num(alg.N(k[1]))
            s = sign_of(x, self.env, 'f')
            r = x if s >= 0 else -x
        elif k[0] == 'copysign' and self.split_abs:
            s = sign_of(self.num(alg.N(k[2])), self.env, 'f')
            r = self.num(pure('fabs', [self.num(alg.N(k[1]))]))
            r = r if s >= 0 else -r
        elif k[0] in ('fmax', 'fmin') and len(k) == 3 and self.split_abs:
            x, y = self.num(alg.N(k[1])), self.num(alg.N(k[2]))
            s = sign_of(x - y, self.env, 'f')
            r = x if (s >= 0) == (k[0] == 'fmax') else y
        else:
            nk = (k[0],) + tuple(self.part(x) for x in k[1:])
            sg = '?'
            if k[0] in ('fmax', 'fmin') and len(k) == 3:
                sg = alg.poly_sign(alg.N(nk[1]) - alg.N(nk[2]), self.env.signs())
            elif k[0] == 'fabs':
                sg = alg.poly_sign(alg.N(nk[1]), self.env.signs())
            if sg != '?':
                x = alg.N(nk[1])
                if k[0] == 'fabs':
                    r = x if sg in ('+', '0+', '0') else -x
                else:
                    r = x if (sg in ('+', '0+', '0')) == (k[0] == 'fmax') else alg.N(nk[2])
            elif k[0] == 'sqrt':
                r = alg.mk_sqrt(alg.N(nk[1]))
            elif k[0] in ('fabs', 'sin', 'cos', 'pow', 'copysign', 'fmax', 'fmin', 'ldexp', 'scalbn', 'exp2', 'floor', 'ceil', 'trunc', 'round') and not isinstance(k[1], str) and nk != k:
                r = pure(k[0], [alg.N(x) for x in nk[1:]])
            elif k[0] == 'ld' and isinstance(nk[1], tuple) and nk[1] and nk[1][0] == 'ite':
                b = nk[1]
                alt = b[2] if self.cond(b[1]) else b[3]
                r = Num.atom(('ld', alt[1], (alg.N(alt[2]) + alg.N(nk[2])).freeze()) + nk[3:])
            else:
                r = refold(nk) if nk != k else None
                if r is None:
                    r = Num.atom(nk)
        self.memo[a] = r
        return r

    def extremes(self, d):
        """choose the values of max/min terms a condition depends on"""
        mp = {}
        for a in d.atoms():
            k = alg.key(a)
            if k[0] in ('fmax', 'fmin') and len(k) == 3:
                x, y = alg.N(k[1]), alg.N(k[2])
                s = sign_of(x - y, self.env, 'f')
                mp[a] = x if (s >= 0) == (k[0] == 'fmax') else y
        return self.extremes(alg.subst(d, mp)) if mp else d

    def part(self, x):
        if isinstance(x, tuple):
            r = self.pm.get(id(x))
            if r is None:
                if len(x) == 3 and x[0] == 'num':
                    v = self.num(alg.N(x))
                    r = v.freeze()
                    if r == x:
                        r = x
                else:
                    r = tuple(self.part(y) for y in x)
                self.pm[id(x)] = r
                KEEP.append(x)
            return r
        return x

    def cond(self, k):
        r = self.cm.get(k)
        if r is None:
            r = self.cm[k] = self.cond1(k)
        return r

    def cond1(self, k):
        h = k[0]
        if h == 'true':
            return True
        if h == 'false':
            return False
        if h == 'not':
            return not self.cond(k[1])
        if h == 'and':
            # resolve the second only when needed
            return self.cond(k[1]) and self.cond(k[2])
        if h == 'or':
            return self.cond(k[1]) or self.cond(k[2])
        if h == 'xor':
            return self.cond(k[1]) != self.cond(k[2])
        if h == 'ite':
            return self.cond(k[2]) if self.cond(k[1]) else self.cond(k[3])
        if h == 'bcmp':
            return (self.cond(k[2]) == self.cond(k[3])) == (k[1] == 'eq')
        if h == 'uno':
            return False
        if h == 'ord':
            return True
        if h == 'cmp' and k[1] in ('lt', 'le', 'eq', 'ne'):
            d = self.extremes(self.num(alg.N(k[2])))
            s = sign_of(d, self.env, k[3])
            return {'lt': s < 0, 'le': s <= 0, 'eq': s == 0, 'ne': s != 0}[k[1]]
        if h == 'urange':
            x = self.num(alg.N(k[2]))
            return self.cond(norm_cmp('ge', x, 'i')) and self.cond(k[1])
        if h == 'ucmp':
            x, y = self.num(alg.N(k[2])), self.num(alg.N(k[3]))
            u = vn_ucmp('ult' if k[1] == 'lt' else 'ule', x, y)
            if u[0] in ('true', 'false', 'urange', 'not'):
                return self.cond(u)
        nk = tuple(self.part(x) for x in k)
        if nk in self.env.bl:
            return self.env.bl[nk]
        raise Split('bool', nk)


def has_ite(k):
    if isinstance(k, tuple):
        if k and k[0] == 'ite':
            return True
        return any(has_ite(x) for x in k if isinstance(x, tuple) and not (len(x) == 3 and x[0] == 'num'))
    return False


def opaque_in(v, extra=(), common=None):
    for a in alg.deep_atoms(v):
        k = alg.key(a)
        if common is not None and k[0] in ('call', 'out') and len(k) >= 3 and k[1] not in HEAPCALLS and not isinstance(k[2], tuple) and (k[1], k[2]) not in common:
            return k    # result of a call that only one side makes
        if k[0] in OPAQUE or k[0] in extra:
            return k
        if common is not None and k[0] == 'ld' and len(k) == 5 and isinstance(k[4], tuple) and k[4][0] == 'ch' and k[4][1:3] not in common:
            return k
        if k[0] == 'ld' and len(k) == 5 and k[4] != 0 and not (isinstance(k[4], tuple) and k[4][0] == 'ch'):
            return k    # memory whose content was not resolved
    return None


def opaque_bool(env, extra=(), common=None):
    """a case decided by a condition whose value was never resolved"""
    for k in env.bl:
        o = opaque_key(k, extra, common)
        if o is not None:
            return o
    for k in env.iv:
        o = opaque_in(alg.N(k), extra, common)
        if o is not None:
            return o
    return None


def opaque_key(k, extra=(), common=None):
    def walk(k):
        if isinstance(k, tuple):
            if k and k[0] in OPAQUE:
                return True
            return any(walk(x) for x in k)
        return False
    if walk(k):
        return k
    for x in nums(k):
        o = opaque_in(x, extra, common)
        if o is not None:
            return o
    return None


def nums(k):
    if isinstance(k, tuple):
        if len(k) == 3 and k[0] == 'num':
            yield alg.N(k)
        else:
            for x in k:
                yield from nums(x)


def rules(env):
    """equalities known in this case, as linear substitutions"""
    mp = {}
    for key, (lo, ls, hi, hs, ne) in env.iv.items():
        if lo is not None and lo == hi:
            p = alg.N(key) - Num.const(lo)
            p = alg.subst(p, mp)
            for m, c in sorted(p.n.items()):
                if len(m) == 1 and m[0][1] == 1:
                    a = m[0][0]
                    if alg.key(a)[0] in ('ite',):
                        continue
                    rest = Num({mm: cc for mm, cc in p.n.items() if mm != m})
                    if a in rest.atoms() or a in alg.deep_atoms(rest):
                        continue
                    mp = {k: alg.subst(v, {a: rest * Num.const(-1 / c)}) for k, v in mp.items()}
                    mp[a] = rest * Num.const(-1 / c)
                    break
    return mp


def consistent(env):
    """Fourier-Motzkin over the atoms/monomials of the interval constraints"""
    cons = []   # (dict, const, strict):  sum + const <= 0
    for key, (lo, ls, hi, hs, ne) in env.iv.items():
        p = alg.N(key).n
        if lo is not None:
            cons.append(({m: -c for m, c in p.items()}, lo, ls))
        if hi is not None:
            cons.append((dict(p), -hi, hs))
    # sqrt and fabs atoms are non-negative
    mons = {m for c, _, _ in cons for m in c}
    for m in list(mons):
        if len(m) == 1 and (m[0][1] % 2 == 0 or alg.key(m[0][0])[0] in ('sqrt',)):
            cons.append(({m: Fraction(-1)}, Fraction(0), False))
    while mons:
        best = None
        for m in mons:
            pos = sum(1 for c, _, _ in cons if c.get(m, 0) > 0)
            neg = sum(1 for c, _, _ in cons if c.get(m, 0) < 0)
            if best is None or pos * neg < best[0]:
                best = (pos * neg, m)
        m = best[1]
        mons.discard(m)
        P = [c for c in cons if c[0].get(m, 0) > 0]
        Q = [c for c in cons if c[0].get(m, 0) < 0]
        R = [c for c in cons if c[0].get(m, 0) == 0]
        if len(P) * len(Q) > 2000:
            return True
        for a in P:
            for b in Q:
                fa, fb = -b[0][m], a[0][m]
                d = {}
                for mm, c in a[0].items():
                    d[mm] = d.get(mm, 0) + fa * c
                for mm, c in b[0].items():
                    d[mm] = d.get(mm, 0) + fb * c
                d = {k: v for k, v in d.items() if v}
                R.append((d, fa * a[1] + fb * b[1], a[2] or b[2]))
        cons = []
        for d, c, st in R:
            if not d:
                if c > 0 or (c == 0 and st):
                    return False
                continue
            cons.append((d, c, st))
    return True


KEEP = []   # keeps the tuples whose identity is used as a memo key alive


class NoSample(Exception):
    pass


class Sample:
    """polynomial identity test: interpret the atoms of two normal forms by
    pseudo-random numbers (function atoms by their function).  Only used to
    hold back an alarm when two different normal forms denote the same
    function; it never establishes that a property holds."""

    def __init__(self, seed, scale=1.0, smooth=None):
        self.seed = seed
        self.scale = scale
        self.smooth = smooth        # calls of one function differ only by this much
        self.m = {}
        self.un = {}
        self.ints = set()

    def rnd(self, k, lo=0.3, hi=1.7):
        import random
        return random.Random('%d|%r' % (self.seed, k)).uniform(lo, hi) * self.scale * (1 if random.Random('%d|s|%r' % (self.seed, k)).random() < 0.6 else -1)

    def num(self, v):
        n = self.poly(v.n)
        d = self.poly(v.d)
        if d == 0:
            raise NoSample()
        return n / d

    def poly(self, p):
        t = 0.0
        for m, c in p.items():
            x = float(c)
            for a, e in m:
                b = self.at(a)
                if b == 0 and e < 0:
                    raise NoSample()
                x *= b ** e
            t += x
        return t

    def at(self, a):
        r = self.m.get(a)
        if r is None:
            r = self.m[a] = self.at1(a)
        return r

    def part(self, x):
        if isinstance(x, tuple):
            if len(x) == 3 and x[0] == 'num':
                return '%.9g' % self.num(alg.N(x))
            return tuple(self.part(y) for y in x)
        return x

    def at1(self, a):
        import math
        k = alg.key(a)
        h = k[0]
        F1 = {'sqrt': math.sqrt, 'sin': math.sin, 'cos': math.cos, 'fabs': abs, 'exp': math.exp, 'log': math.log, 'tan': math.tan, 'floor': math.floor, 'atan': math.atan,
              'asin': math.asin, 'acos': math.acos, 'tanh': math.tanh}
        F2 = {'atan2': math.atan2, 'pow': pow, 'fmod': math.fmod, 'fmax': max, 'fmin': min, 'hypot': math.hypot}
        try:
            if h in F1 and len(k) == 2:
                return float(F1[h](self.num(alg.N(k[1]))))
            if h in F2 and len(k) == 3:
                r = F2[h](self.num(alg.N(k[1])), self.num(alg.N(k[2])))
                if isinstance(r, complex):
                    raise NoSample()
                return float(r)
            if h == 'bool':
                return 1.0 if self.cond(k[1]) else 0.0
            if h == 'ite':
                return self.num(alg.N(k[2])) if self.cond(k[1]) else self.num(alg.N(k[3]))
            if h == 'idiv':
                x, y = self.num(alg.N(k[1])), self.num(alg.N(k[2]))
                return float(int(x / y))
        except (ValueError, OverflowError, ZeroDivisionError, TypeError):
            raise NoSample()
        if isinstance(k[-1], str) and k[-1].startswith('i') and h in ('arg', 'ld'):
            import random
            return float(random.Random('%d|%r' % (self.seed, k)).randint(-9, 12))
        pk = (h,) + tuple(self.part(x) for x in k[1:])
        if self.smooth is not None and h == 'call':
            return self.rnd((h, k[1])) + self.smooth * self.rnd(pk)
        return self.rnd(pk)

    def cond(self, k):
        h = k[0]
        if h == 'true':
            return True
        if h == 'false':
            return False
        if h == 'not':
            return not self.cond(k[1])
        if h == 'and':
            return self.cond(k[1]) and self.cond(k[2])
        if h == 'or':
            return self.cond(k[1]) or self.cond(k[2])
        if h == 'xor':
            return self.cond(k[1]) != self.cond(k[2])
        if h == 'cmp':
            d = self.num(alg.N(k[2]))
            return {'lt': d < 0, 'le': d <= 0, 'eq': d == 0, 'ne': d != 0}[k[1]]
        if h == 'ite':
            return self.cond(k[2]) if self.cond(k[1]) else self.cond(k[3])
        if h == 'bcmp':
            return (self.cond(k[2]) == self.cond(k[3])) == (k[1] == 'eq')
        if h == 'uno':
            return False
        if h == 'ord':
            return True
        if h == 'urange':
            return self.num(alg.N(k[2])) >= 0 and self.cond(k[1])
        raise NoSample()

    def fits(self, env, mp=None):
        for key, (lo, ls, hi, hs, ne) in env.iv.items():
            v = self.num(rewrite_sub(alg.N(key), mp) if mp else alg.N(key))
            if lo is not None and lo == hi:
                if abs(v - float(lo)) > 1e-9 * (1 + abs(v)):
                    return False
                continue
            if lo is not None and (v < lo or (ls and v == lo)):
                return False
            if hi is not None and (v > hi or (hs and v == hi)):
                return False
        return True


def sampled_apart(x, y, env):
    """True when an interpretation consistent with env separates x and y,
    False when several do and none separates, None when none was found"""
    got = 0
    mp = rules(env)
    try:
        if mp:
            x, y = rewrite_sub(x, mp), rewrite_sub(y, mp)
    except alg.TooBig:
        pass
    env2 = Env({k: b for k, b in env.iv.items() if b[0] is None or b[0] != b[2]}, env.bl)
    for seed in range(160):
        s = Sample(seed, (1.0, 1.0, 30.0, 0.05)[seed % 4])
        try:
            if not s.fits(env2, mp):
                continue
            a, b = s.num(x), s.num(y)
        except (NoSample, ValueError, OverflowError, ZeroDivisionError):
            continue
        if a != a or b != b:
            continue
        got += 1
        if abs(a - b) > 1e-7 * max(abs(a), abs(b), 1e-300):
            return True
        if got >= 6:
            return False
    return None if got == 0 else False


def nonlinear(env):
    return any(any(len(m) != 1 or m[0][1] != 1 for m in alg.N(key).n) for key in env.iv)


def degenerate(env):
    """the case pins a floating-point polynomial to a value it cannot be
    eliminated through (a measure-zero corner such as |v|^2 = 0)"""
    mp = rules(env)
    for key, (lo, ls, hi, hs, ne) in env.iv.items():
        if lo is not None and lo == hi:
            p = alg.N(key) - Num.const(lo)
            if any(alg.key(a)[0] in ('fabs', 'fmax', 'fmin', 'pow', 'sqrt', 'exp2') for a in p.atoms()):
                return True
            try:
                if not alg.same(alg.subst(p, mp), ZERO):
                    return True
            except alg.TooBig:
                return True
    return False


def describe(env):
    out = []
    for key, (lo, ls, hi, hs, ne) in env.iv.items():
        s = alg.show(alg.N(key))
        if lo is not None and lo == hi:
            out.append('%s = %s' % (s, alg._sc(lo)))
            continue
        if lo is not None:
            out.append('%s %s %s' % (s, '>' if ls else '>=', alg._sc(lo)))
        if hi is not None:
            out.append('%s %s %s' % (s, '<' if hs else '<=', alg._sc(hi)))
    for k, v in env.bl.items():
        from .vn import show_cond
        try:
            out.append(('' if v else 'not ') + show_cond(k)[:120])
        except Exception:
            out.append(str(v))
    return ', '.join(out) or 'always'


def flat(v):
    """value -> (shape, [Num])"""
    if isinstance(v, Num):
        return 'n', [v]
    if isinstance(v, Cond):
        return 'n', [Num.atom(('bool', v.key))] if v.key[0] not in ('true', 'false') else [UNIT if v.key[0] == 'true' else ZERO]
    return None, None


class Stop(Exception):
    pass


def cases(vals, env=None, limit=4000, assume=None, split_abs=False, memo=None, stop=None):
    """yield (env, resolved values, memo) over a finite partition"""
    work = [(env or Env(), memo or ({}, {}, {}))]
    n = 0
    while work:
        e, mm = work.pop()
        n += 1
        if n > limit:
            yield None, None, None
            return
        r = Resolver(e, mm, split_abs)
        try:
            if assume is not None:
                ok = True
                for k in assume:
                    if not r.cond(k):
                        ok = False
                        break
                if not ok:
                    continue
            out = []
            for v in reversed(vals):
                w = r.num(v)
                out.append(w)
                if stop is not None and stop(w) is not None:
                    raise Stop()
            out.reverse()
        except Stop:
            yield e, 'stop', stop(w)
            continue
        except Split as s:
            if stop is not None:
                # a case decided by an unresolved value can never be decided
                o = opaque_in(alg.N(s.a[0])) if s.kind == 'poly' else next((x for x in [opaque_key(s.a[0])] if x is not None), None)
                if o is not None:
                    yield e, 'stop', o
                    continue
            if s.kind == 'poly':
                work.extend((x, r.fork()) for x in reversed(subboxes(e, *s.a)))
            else:
                work.extend([(e.with_b(s.a[0], False), r.fork()), (e.with_b(s.a[0], True), r.fork())])
            continue
        except alg.TooBig:
            yield e, None, None
            continue
        yield e, out, r.memo


def eq_num(a, b, env=None):
    if alg.same(a, b):
        return True
    if env is not None:
        mp = rules(env)
        if mp:
            try:
                def f(v):
                    for _ in range(3):
                        w = rewrite_sub(v, mp)
                        if w == v:
                            break
                        v = w
                    return v
                if alg.same(f(a), f(b)):
                    return True
            except alg.TooBig:
                pass
    return False


def rewrite_sub(v, mp):
    def fn(k):
        i = alg._atoms.get(k)
        return mp.get(i) if i is not None else None
    return alg.rewrite(v, fn)


def guided(a, b, assume, stop, seeds=240):
    """the cases in which some interpretation of the atoms separates the two
    sides: a search order for the case analysis, never a verdict"""
    done = 0
    for seed in range(seeds):
        s = Sample(seed, (1.0, 1.0, 30.0, 0.05, 2e-3)[seed % 5], (None, 1e-2, 1e-3, 1e-4, 1e-5, 1e-6)[seed // 5 % 6])
        try:
            if assume is not None and not all(s.cond(k) for k in assume):
                continue
            x, y = s.num(a), s.num(b)
        except (NoSample, ValueError, OverflowError, ZeroDivisionError, RecursionError):
            continue
        if x != x or y != y or abs(x - y) <= 1e-4 * max(abs(x), abs(y), 1e-300):
            continue
        env, mm, t0 = Env(), ({}, {}, {}), time.time()
        for _ in range(400):
            r = Resolver(env, mm, True)
            try:
                y = r.num(b)
                if stop is not None and stop(y) is not None:
                    break
                yield env, [r.num(a), y], s
                done += 1
                break
            except Split as sp:
                if time.time() - t0 > 20:
                    break
                try:
                    if sp.kind == 'poly':
                        nxt = next((e for e in subboxes(env, *sp.a) if inbox(s.num(alg.N(sp.a[0])), e.box(sp.a[0]))), None)
                    else:
                        nxt = env.with_b(sp.a[0], s.cond(sp.a[0]))
                except (NoSample, ValueError, OverflowError, ZeroDivisionError):
                    break
                if nxt is None:
                    break
                env, mm = nxt, r.fork()
            except alg.TooBig:
                break
        if done >= 3:
            return


def inbox(v, box):
    lo, ls, hi, hs, ne = box
    if lo is not None and lo == hi:
        return abs(v - float(lo)) < 1e-12
    return (lo is None or v > lo or (v == lo and not ls)) and (hi is None or v < hi or (v == hi and not hs))


def both_cases(a, b, limit, assume, stop=None):
    for env, out, why in cases([a, b], limit=limit, assume=assume, stop=stop):
        if out == 'stop':
            yield env, ('stop', why)
        elif out is not None and not eq_num(out[0], out[1], env) and any(alg.key(x)[0] in ('fabs', 'fmax', 'fmin', 'copysign') for v in out for x in alg.deep_atoms(v)):
            # split on the signs of absolute values only where it can matter
            for e2, o2, _ in cases(out, env=env, limit=limit, split_abs=True):
                yield e2, o2
            if env is None:
                return
        else:
            yield env, out


def compare(a, b, assume=None, opaque_extra=(), limit=4000, allow_opaque=False, common=None, budget=None, stats=None, beyond=()):
    """a, b: Num/Cond.  Returns (verdict, detail, ncases)"""
    sa, la = flat(a)
    sb, lb = flat(b)
    if sa is None or sb is None:
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            return ('equal', '', 1) if a == b else ('unknown', 'pointer values', 1)
        return 'unknown', 'not scalar', 0
    n = 0
    unk = None
    deg = 0
    over = 0
    t0 = time.time()
    stop = None if allow_opaque else (lambda v: opaque_in(v, opaque_extra, common))
    def apart(x, y, env, s):
        if eq_num(x, y, env) or opaque_in(x, opaque_extra, common) or opaque_in(y, opaque_extra, common) or opaque_bool(env, opaque_extra, common):
            return False
        if not consistent(env) or degenerate(env):
            return False
        try:
            u, w = s.num(x), s.num(y)
        except (NoSample, ValueError, OverflowError, ZeroDivisionError):
            return False
        return abs(u - w) > 1e-4 * max(abs(u), abs(w), 1e-300) and u == u and w == w
    tried = allow_opaque
    for env, out in both_cases(la[0], lb[0], limit, assume, stop):
        if env is None:
            return 'unknown', 'too many cases', n
        n += 1
        if not tried and (time.time() - t0 > 0.7 or n == 60):
            # a long case analysis: look first where an interpretation separates the sides
            tried = True
            try:
                for e2, (x, y), s in guided(la[0], lb[0], assume, stop):
                    if apart(x, y, e2, s):
                        return 'differ', 'case [%s]: %s  instead of  %s' % (describe(e2), alg.show(x)[:1400], alg.show(y)[:1400]), n
            except alg.TooBig:
                pass
        if stats is not None:
            stats['cases'] = stats.get('cases', 0) + 1
        if budget is not None and time.time() - t0 > budget:
            return 'unknown', 'no difference in the first %d cases (time budget)' % n, n
        if out is None:
            unk = 'expression too large'
            continue
        x, y = out
        if x == 'stop':
            if y[0] == 'call' and y[1] in beyond:
                over += 1
                continue
            unk = 'unresolved ' + str(y)[:60] + ' … ' + str(y)[-60:]
            continue
        if eq_num(x, y, env):
            continue
        o = None if allow_opaque else (opaque_in(x, opaque_extra, common) or opaque_in(y, opaque_extra, common) or opaque_bool(env, opaque_extra, common))
        if o is not None:
            unk = 'unresolved ' + str(o)[:60] + ' … ' + str(o)[-60:]
            continue
        if not consistent(env):
            continue
        if degenerate(env):
            deg += 1
            continue
        try:
            sa_ = sampled_apart(x, y, env)
            if sa_ is False:
                unk = 'two normal forms that no interpretation separates'
                continue
            if sa_ is None and nonlinear(env):
                deg += 1
                continue
        except alg.TooBig:
            unk = 'expression too large'
            continue
        return 'differ', 'case [%s]: %s  instead of  %s' % (describe(env), alg.show(x)[:1400], alg.show(y)[:1400]), n
    if unk:
        return 'unknown', unk, n
    if over:
        if n == over:
            return 'unknown', 'every case lies beyond the bound', n
        return 'equal', '%d cases inside the bound' % (n - over), n
    return 'equal', ('except on %d degenerate equality case(s)' % deg if deg else ''), n
