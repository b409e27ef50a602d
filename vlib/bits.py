"""Bit-level abstract evaluation of loop-free integer code.

Every integer value is a vector of boolean functions (reduced ordered BDDs)
of the bits of the inputs; control flow is merged by path conditions, so the
result of a function is one canonical object per output bit and two
functions agree on every input exactly when their bits are identical."""

TRUE, FALSE = 1, 0


class Unknown(Exception):
    pass


class BDD:
    def __init__(self):
        self.node = [None, None]
        self.uniq = {}
        self.memo = {}
        self.vars = {}
        self.names = []

    def var(self, name):
        v = self.vars.get(name)
        if v is None:
            v = self.vars[name] = len(self.names)
            self.names.append(name)
        return self.mk(v, FALSE, TRUE)

    def mk(self, v, lo, hi):
        if lo == hi:
            return lo
        k = (v, lo, hi)
        n = self.uniq.get(k)
        if n is None:
            n = self.uniq[k] = len(self.node)
            self.node.append(k)
            if n > 2000000:
                raise Unknown('bit function too large')
        return n

    def ite(self, c, a, b):
        if c == TRUE:
            return a
        if c == FALSE:
            return b
        if a == b:
            return a
        if a == TRUE and b == FALSE:
            return c
        k = (c, a, b)
        r = self.memo.get(k)
        if r is not None:
            return r
        v = min(self.node[x][0] for x in k if x > 1)
        co = lambda x, i: x if x <= 1 or self.node[x][0] != v else self.node[x][1 + i]
        r = self.mk(v, self.ite(co(c, 0), co(a, 0), co(b, 0)), self.ite(co(c, 1), co(a, 1), co(b, 1)))
        self.memo[k] = r
        return r

    def NOT(self, a):
        return self.ite(a, FALSE, TRUE)

    def AND(self, a, b):
        return self.ite(a, b, FALSE)

    def OR(self, a, b):
        return self.ite(a, TRUE, b)

    def XOR(self, a, b):
        return self.ite(a, self.NOT(b), b)

    def sat(self, f):
        out = {}
        while f > 1:
            v, lo, hi = self.node[f]
            if hi != FALSE:
                out[self.names[v]] = 1
                f = hi
            else:
                out[self.names[v]] = 0
                f = lo
        return out


class Eval:
    """evaluate one exported function over the bits of its inputs"""

    def __init__(self, fn, B, glob=None):
        self.fn = fn
        self.B = B
        self.glob = glob or {}
        self.val = {}
        self.blocks = {b['id']: b for b in fn['blocks']}
        # interleaved variable order: bit k of every input, then bit k+1
        for i in range(64):
            for n, a in enumerate(fn['args']):
                if i < width(a['ty']):
                    B.var((('arg', n, a['name']), i))
        for n, a in enumerate(fn['args']):
            w = width(a['ty'])
            if a['ty'] == 'ptr':
                self.val[a['id']] = ('p', ('arg', n, a['name']), 0)
            elif w:
                self.val[a['id']] = [B.var((('arg', n, a['name']), i)) for i in range(w)]
            else:
                self.val[a['id']] = None

    def const(self, c, w):
        return [(c >> i) & 1 for i in range(w)]

    def get(self, a, w=None):
        if isinstance(a, dict):
            if 'c' in a:
                return self.const(a['c'], a.get('w') or w or 64)
            if 'g' in a:
                return ('p', ('glob', a['g']), 0)
            if 'null' in a:
                return ('p', ('null',), 0)
            return None
        return self.val.get(a)

    def order(self):
        seen, out = {}, []

        def go(b):
            seen[b] = 1
            for s in self.succ(b):
                if seen.get(s) == 1:
                    raise Unknown('loop')
                if s not in seen:
                    go(s)
            seen[b] = 2
            out.append(b)
        go(self.fn['blocks'][0]['id'])
        return out[::-1]

    def succ(self, b):
        t = self.blocks[b]['ins'][-1]
        if t['op'] == 'switch':
            return list(dict.fromkeys([c[1] for c in t['cases']] + [t['default']]))
        if t['op'] == 'invoke':
            return [t['normal']]
        return t.get('succ', [])

    def run(self):
        B = self.B
        order = self.order()
        first = order[0]
        self.guard = {first: TRUE}
        self.edge = {}
        self.memin = {}
        self.rets = []
        inc = {}
        for b in order:
            if b == first:
                g, mem = TRUE, {}
            else:
                es = inc.get(b, [])
                g = FALSE
                for (p, c, m) in es:
                    g = B.OR(g, c)
                mem = self.merge([(c, m) for (p, c, m) in es])
            if g == FALSE:
                continue
            self.cur = mem
            for i in self.blocks[b]['ins']:
                op = i['op']
                if op == 'phi':
                    r = None
                    first_ = True
                    for pb, v in i['inc']:
                        c = self.edge.get((pb, b), FALSE)
                        if c == FALSE:
                            continue
                        x = self.get(v, width(i['ty']))
                        r = x if first_ else self.sel(c, x, r)
                        first_ = False
                    self.val[i['id']] = r
                elif op == 'br':
                    s = i['succ']
                    if len(s) == 1:
                        self.flow(inc, b, s[0], g)
                    else:
                        c = self.get(i['args'][0], 1)
                        if not isinstance(c, list):
                            raise Unknown('branch on an unresolved value')
                        self.flow(inc, b, s[0], B.AND(g, c[0]))
                        self.flow(inc, b, s[1], B.AND(g, B.NOT(c[0])))
                elif op == 'switch':
                    c = self.get(i['args'][0])
                    if not isinstance(c, list):
                        raise Unknown('switch on an unresolved value')
                    rest = g
                    tgt = {}
                    for k, t in i['cases']:
                        e = self.eq(c, self.const(k, len(c)))
                        tgt[t] = B.OR(tgt.get(t, FALSE), B.AND(rest, e))
                        rest = B.AND(rest, B.NOT(e))
                    d = i['default']
                    tgt[d] = B.OR(tgt.get(d, FALSE), rest)
                    for t, c in tgt.items():
                        self.flow(inc, b, t, c)
                elif op == 'ret':
                    self.rets.append((g, self.get(i['args'][0], width(self.fn['ret'])) if i['args'] else None, self.cur))
                elif op == 'unreachable':
                    pass
                elif op == 'invoke':
                    self.ins(i)
                    self.flow(inc, b, i['normal'], g)
                else:
                    self.ins(i)
        ret = None
        for n, (g, v, m) in enumerate(self.rets):
            ret = v if n == 0 else self.sel(g, v, ret)
        done = FALSE
        for g, v, m in self.rets:
            done = B.OR(done, g)
        return done, ret, self.merge([(g, m) for g, v, m in self.rets])

    def flow(self, inc, a, b, c):
        if c == FALSE:
            return
        self.edge[(a, b)] = self.B.OR(self.edge.get((a, b), FALSE), c)
        inc.setdefault(b, []).append((a, c, dict(self.cur)))

    def merge(self, ms):
        if not ms:
            return {}
        out = dict(ms[0][1])
        for c, m in ms[1:]:
            for k in set(out) | set(m):
                a = m.get(k) if k in m else self.initial(k)
                b = out.get(k) if k in out else self.initial(k)
                out[k] = self.sel(c, a, b)
        return out

    def initial(self, k):
        base, o = k
        if base[0] == 'alloca':
            return None
        return [self.B.var((base, 8 * o + i)) for i in range(8)]

    def sel(self, c, a, b):
        if a is None or b is None:
            return None
        if isinstance(a, tuple) or isinstance(b, tuple):
            if a == b or c == TRUE:
                return a
            return b if c == FALSE else None
        return [self.B.ite(c, x, y) for x, y in zip(a, b)]

    def eq(self, a, b):
        r = TRUE
        for x, y in zip(a, b):
            r = self.B.AND(r, self.B.NOT(self.B.XOR(x, y)))
        return r

    def ult(self, a, b, orq=False):
        B = self.B
        r = TRUE if orq else FALSE
        for x, y in zip(a, b):
            r = B.ite(B.XOR(x, y), y, r)
        return r

    def slt(self, a, b, orq=False):
        B = self.B
        return self.ult(a[:-1] + [B.NOT(a[-1])], b[:-1] + [B.NOT(b[-1])], orq)

    def add(self, a, b, c=FALSE):
        B = self.B
        out = []
        for x, y in zip(a, b):
            t = B.XOR(x, y)
            out.append(B.XOR(t, c))
            c = B.OR(B.AND(x, y), B.AND(t, c))
        return out

    def shift(self, a, s, kind):
        B = self.B
        w = len(a)
        fill = a[-1] if kind == 'ashr' else FALSE
        r = list(a)
        for k, bit in enumerate(s):
            n = 1 << k
            if n >= w:
                r = [B.ite(bit, fill, x) for x in r]     # poison in LLVM; any choice is allowed
                continue
            if kind == 'shl':
                t = [FALSE] * n + r[:w - n]
            else:
                t = r[n:] + [fill] * n
            r = [B.ite(bit, y, x) for x, y in zip(r, t)]
        return r

    def ins(self, i):
        B = self.B
        op = i['op']
        w = width(i['ty'])
        A = i.get('args', [])
        r = None
        if op == 'alloca':
            r = ('p', ('alloca', i['id']), 0)
        elif op == 'getelementptr':
            p = self.get(A[0])
            if isinstance(p, tuple) and p[0] == 'p' and not i.get('unk') and not i.get('var'):
                o = i.get('off', 0)
                r = ('p', p[1], p[2] + o)
        elif op == 'load':
            p = self.get(A[0])
            if isinstance(p, tuple) and p[0] == 'p' and w and p[1][0] in ('arg', 'alloca'):
                n = (w + 7) // 8
                bs = []
                for k in range(n):
                    key = (p[1], p[2] + k)
                    x = self.cur[key] if key in self.cur else self.initial(key)
                    if not isinstance(x, list):
                        bs = None
                        break
                    bs += x
                r = bs[:w] if bs is not None else None
            elif isinstance(p, tuple) and i['ty'] == 'ptr':
                x = self.cur.get((p[1], p[2]))
                r = x if isinstance(x, tuple) else None
        elif op == 'store':
            p, v = self.get(A[1]), self.get(A[0])
            if not (isinstance(p, tuple) and p[0] == 'p'):
                raise Unknown('store through an unresolved pointer')
            n = i.get('size', 8)
            for k in range(n):
                if isinstance(v, list):
                    x = v[8 * k:8 * k + 8]
                    x = x + [FALSE] * (8 - len(x))
                else:
                    x = v if k == 0 and isinstance(v, tuple) else None
                self.cur[(p[1], p[2] + k)] = x
            return
        elif op in ('call', 'invoke'):
            nm = i.get('callee') or ''
            if isinstance(nm, str) and nm.startswith('llvm.'):
                if nm.startswith(('llvm.umin', 'llvm.umax', 'llvm.smin', 'llvm.smax')):
                    a, b = self.get(A[0], w), self.get(A[1], w)
                    if isinstance(a, list) and isinstance(b, list):
                        lt = (self.ult if nm[5] == 'u' else self.slt)(a, b)
                        r = self.sel(lt, a, b) if nm[6:9] == 'min' else self.sel(lt, b, a)
                elif nm.startswith(('llvm.memset', 'llvm.memcpy', 'llvm.memmove')):
                    d, n = self.get(A[0]), A[2].get('c') if isinstance(A[2], dict) else None
                    if not isinstance(d, tuple) or n is None or n > 4096:
                        raise Unknown('block copy')
                    if 'memset' in nm:
                        v = self.get(A[1], 8)
                        new = [v] * n
                    else:
                        q = self.get(A[1])
                        if not isinstance(q, tuple) or q[1][0] not in ('arg', 'alloca'):
                            raise Unknown('block copy')
                        new = [self.cur[(q[1], q[2] + k)] if (q[1], q[2] + k) in self.cur else self.initial((q[1], q[2] + k)) for k in range(n)]
                    for k in range(n):
                        self.cur[(d[1], d[2] + k)] = new[k]
            else:
                for a in A:
                    p = self.get(a)
                    if isinstance(p, tuple) and p[1][0] == 'arg':
                        raise Unknown('state passed to an external call')
                    if isinstance(p, tuple) and p[1][0] == 'alloca':
                        for k in [k for k in self.cur if k[0] == p[1]]:
                            self.cur[k] = None
            self.val[i['id']] = r
            return
        elif op in ('extractvalue', 'insertvalue', 'landingpad', 'resume', 'fence', 'bitcast', 'ptrtoint', 'inttoptr'):
            r = None
        elif op == 'select':
            c = self.get(A[0], 1)
            a, b = self.get(A[1], w), self.get(A[2], w)
            r = self.sel(c[0], a, b) if isinstance(c, list) else None
        elif op == 'icmp':
            a = self.get(A[0])
            b = self.get(A[1], len(a) if isinstance(a, list) else None)
            if isinstance(a, list) and isinstance(b, list):
                p = i['pred']
                if p == 'eq':
                    r = [self.eq(a, b)]
                elif p == 'ne':
                    r = [B.NOT(self.eq(a, b))]
                else:
                    if p[1:] in ('gt', 'ge'):
                        a, b = b, a
                    r = [(self.ult if p[0] == 'u' else self.slt)(a, b, p[1:] in ('le', 'ge'))]
            elif isinstance(a, tuple) and isinstance(b, tuple) and i['pred'] in ('eq', 'ne') and a[1] == b[1]:
                r = [int((a[2] == b[2]) == (i['pred'] == 'eq'))]
        elif w:
            xs = [self.get(a, w) for a in A]
            if all(isinstance(x, list) for x in xs):
                if op in ('and', 'or', 'xor'):
                    f = {'and': B.AND, 'or': B.OR, 'xor': B.XOR}[op]
                    r = [f(x, y) for x, y in zip(*xs)]
                elif op in ('shl', 'lshr', 'ashr'):
                    r = self.shift(xs[0], xs[1], op)
                elif op == 'add':
                    r = self.add(*xs)
                elif op == 'sub':
                    r = self.add(xs[0], [B.NOT(x) for x in xs[1]], TRUE)
                elif op == 'mul':
                    r = [FALSE] * w
                    for k, bit in enumerate(xs[1]):
                        t = ([FALSE] * k + xs[0])[:w]
                        r = self.add(r, [B.AND(bit, x) for x in t])
                elif op == 'zext':
                    r = xs[0] + [FALSE] * (w - len(xs[0]))
                elif op == 'sext':
                    r = xs[0] + [xs[0][-1]] * (w - len(xs[0]))
                elif op == 'trunc':
                    r = xs[0][:w]
                elif op == 'freeze':
                    r = xs[0]
        self.val[i['id']] = r


def width(ty):
    if isinstance(ty, str) and ty.startswith('i') and ty[1:].isdigit():
        return int(ty[1:])
    return 64 if ty == 'double' else 0


def describe(a):
    """group a satisfying assignment into input values"""
    g = {}
    for (base, bit), v in a.items():
        g.setdefault(base, {})[bit] = v
    return ', '.join('%s: %s' % (b[-1], ' '.join('bit%d=%d' % (k, x) for k, x in sorted(d.items()))) for b, d in sorted(g.items(), key=str)) or 'every input'


def compare(ck, mod, name, rule, site, label=None):
    """impl_<name> against spec_<name>, bit by bit"""
    import re
    F = {re.sub(r'\(.*', '', f['dem']): f for f in mod['functions']}
    fi, fs = F.get('impl_' + name), F.get('spec_' + name)
    tag = (label + ' ' if label else '') + name
    if fi is None or fs is None:
        ck.ob(rule, site, 'undecided', tag + ': not exported')
        return
    B = BDD()
    try:
        ei, es = Eval(fi, B, mod['globals']), Eval(fs, B, mod['globals'])
        di, ri, mi = ei.run()
        ds, rs, ms = es.run()
    except (Unknown, RecursionError) as e:
        ck.ob(rule, site, 'undecided', tag + ': ' + str(e))
        return

    def one(what, a, b):
        if not isinstance(a, list) or not isinstance(b, list):
            ck.ob(rule, site, 'undecided', '%s %s: unresolved' % (tag, what))
            return
        bad = None
        for k, (x, y) in enumerate(zip(a, b)):
            d = B.AND(B.AND(di, ds), B.XOR(x, y))
            if d != FALSE:
                bad = (k, d)
                break
        if bad:
            ck.ob(rule, site, 'bad', '%s %s: bit %d differs from the reference for %s' % (tag, what, bad[0], describe(B.sat(bad[1]))), key='%s/%s/%s' % (rule, name, what))
        else:
            ck.ob(rule, site, 'ok', '%s %s: %d bits identical' % (tag, what, len(a)), key='%s/%s/%s' % (rule, name, what))
    if rs is not None:
        one('result', ri, rs)
    for k in sorted({k for k in set(mi) | set(ms) if k[0][0] == 'arg'}, key=str):
        one('%s byte %d' % (k[0][-1], k[1]), mi.get(k) if k in mi else ei.initial(k), ms.get(k) if k in ms else es.initial(k))
