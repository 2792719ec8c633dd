"""Numeric evaluation of terms on a fixed set of sample inputs (vectorised).

Used only to steer the verifier (which side of a branch is certainly reachable, which
conditions may coincide) and to produce concrete counterexamples; never to accept an obligation."""
import math, hashlib
import numpy as np
from .terms import Term
_sp = None
def sp():
    global _sp
    if _sp is None:
        from scipy import special
        _sp = special
    return _sp

N = 384
M64 = (1 << 64) - 1

class Rng(object):
    """the generator of vf_native.cpp"""
    def __init__(self, s):
        def mix():
            nonlocal s
            s = (s + 0x9e3779b97f4a7c15) & M64
            z = s
            z = ((z ^ (z >> 30)) * 0xbf58476d1ce4e5b9) & M64
            z = ((z ^ (z >> 27)) * 0x94d049bb133111eb) & M64
            return z ^ (z >> 31)
        self.a = mix()
        self.b = mix()
    def next(self):
        a, b = self.a, self.b
        self.a = b
        a = (a ^ (a << 23)) & M64
        self.b = a ^ b ^ (a >> 17) ^ (b >> 26)
        return (self.b + b) & M64
    def U(self):
        return (self.next() >> 11) * (1.0 / 9007199254740992.0)

def uf_val(name, args):
    h = 1469598103934665603
    for ch in name.encode():
        h = ((h ^ ch) * 1099511628211) & M64
    g = Rng(h)
    r = 1.5 + g.U()
    k = len(args)
    for x in args:
        # evaluation order of the C++ expression (clang: left to right)
        c0 = 0.2 + g.U()
        c1 = 0.3 + g.U()
        c2 = 6 * g.U()
        r = r + c0 * np.sin(c1 * np.arcsinh(x) + c2) / (k + 1)
    return r

class Num(object):
    def __init__(self, seed=1):
        self.memo = {}
        self.ranges = {}     # var name -> (lo, hi, isint)
        self.bkey = {}
        self.bound = {}      # bound variable id -> array
        self.over = []       # overriding environments (integration nodes)
        self.seed = seed
        self.depth = 0
    def rs(self, name):
        h = int.from_bytes(hashlib.sha256(('%d:%s' % (self.seed, name)).encode()).digest()[:4], 'little')
        return np.random.RandomState(h)
    def declare(self, name, lo, hi, isint=False):
        if name not in self.ranges:
            self.ranges[name] = (lo, hi, isint)
    def sample(self, name):
        lo, hi, isint = self.ranges.get(name, (0.0, 1.0, False))
        r = self.rs(name)
        if isint:
            return r.randint(lo, hi + 1, N).astype(float)
        u = r.random_sample(N)
        w = r.random_sample(N)
        x = lo + (hi - lo) * u
        if lo > 0 and hi / lo > 20:
            x = np.where(w < 0.8, lo * np.exp(u * math.log(hi / lo)), x)
        elif lo == 0:
            x = np.where(w < 0.35, hi * np.exp(-u * 12), x)
        elif lo < 0 < hi:
            x = np.where(w < 0.2, np.where(r.random_sample(N) < 0.5, lo, hi) * np.exp(-u * 10), x)
        return x
    def bind(self, t, lo, hi):
        """an integration variable: any point between the limits"""
        k = (t.id, lo.id, hi.id)
        if self.bkey.get(t.id) == k:
            return
        if t.id in self.bkey:
            self.memo = {k2: v for k2, v in self.memo.items() if not isinstance(k2, int)}
        self.bkey[t.id] = k
        a, b = self.ev(lo), self.ev(hi)
        if a is None or b is None:
            self.bound[t.id] = np.full(N, np.nan)
            return
        u = self.rs(t.args[0]).random_sample(N)
        with np.errstate(all='ignore'):
            lg = (a > 0) & (b > 5 * a)
            self.bound[t.id] = np.where(lg, a * np.exp(u * np.log(np.where(lg, b / a, 1))), a + (b - a) * u)
    def env(self, i, names=None):
        out = {}
        for n, (lo, hi, isint) in self.ranges.items():
            x = self.var(n)[i]
            out[n] = int(x) if isint else float(x)
        return out
    def var(self, n):
        k = ('v', n)
        x = self.memo.get(k)
        if x is None:
            x = self.memo[k] = self.sample(n)
        return x
    # ------------------------------------------------------------------
    def ev(self, t):
        """array of values or None"""
        if not isinstance(t, Term):
            if isinstance(t, (int, bool)):
                v = int(t)
                if v >> 63:
                    v -= 1 << 64
                return np.full(N, float(v))
            return None
        memo = self.memo
        if len(memo) > 60000:
            self.memo = memo = {k: v for k, v in memo.items() if not isinstance(k, int)}
        if t.id in memo:
            return memo[t.id]
        stack = [t]
        with np.errstate(all='ignore'):
            while stack:
                x = stack[-1]
                if x.id in memo:
                    stack.pop()
                    continue
                if x.op not in ('int', 'c', 'var'):
                    todo = [a for a in x.args if isinstance(a, Term) and a.id not in memo]
                    if todo:
                        stack.extend(todo)
                        continue
                memo[x.id] = self.ev1(x)
                stack.pop()
        return memo[t.id]
    def atom(self, table, aid):
        """values of a normal-form atom"""
        k = -1 - aid
        if k in self.memo:
            return self.memo[k]
        self.memo[k] = None
        a = table.atoms[aid]
        r = None
        with np.errstate(all='ignore'):
            if a.kind == 'v':
                t = table.absval.get(aid)
                r = self.ev(t if t is not None else a.data)
            elif a.kind == 'P':
                r = self.poly(table, a.data)
            elif a.kind == 'L':
                x = self.atom(table, a.data)
                r = None if x is None else np.log(x)
            elif a.kind == 'E':
                x = self.poly(table, {a.data: (1.0, 1.0)})
                r = None if x is None else np.exp(x)
            elif a.kind == 'f':
                xs = [self.poly(table, p) for p in a.data[1]] if isinstance(a.data[1], (list, tuple)) and all(isinstance(p, dict) for p in a.data[1]) else [None]
                if xs and not any(x is None for x in xs) and isinstance(a.data[0], str):
                    r = self.fn(a.data[0], xs)
        self.memo[k] = r
        return r
    def poly(self, table, p):
        tot = np.zeros(N)
        for m, (c, s) in p.items():
            x = np.full(N, c)
            for i, e in m:
                y = self.atom(table, i)
                if y is None:
                    return None
                x = x * (y ** (float(e) if not isinstance(e, int) else e) if not isinstance(e, int) or e >= 0 else 1.0 / y ** (-e))
            tot = tot + x
        return tot
    def arg(self, a):
        if isinstance(a, Term):
            return self.memo.get(a.id)
        return self.ev(a)
    def ev1(self, t):
        op = t.op
        if op == 'c':
            try:
                return np.full(N, float(t.args[0]))
            except OverflowError:
                return None
        if op == 'var':
            b = self.bound.get(t.id)
            if b is not None:
                return b
            if t.sort == 'B':
                self.declare(t.args[0], 0, 1, True)
            elif len(t.args) > 2:
                self.declare(t.args[0], t.args[1], t.args[2], True)
            if t.args[0] not in self.ranges:
                return None
            return self.var(t.args[0])
        if op == 'inf':
            return np.full(N, np.inf)
        if op == 'ninf':
            return np.full(N, -np.inf)
        if op == 'nan':
            return None
        if op == 'int':
            return self.integral(t)
        xs = [self.arg(a) for a in (t.args[1:] if op in ('fn', 'uf') else t.args)]
        if any(x is None for x in xs):
            return None
        if op == '+':
            return xs[0] + xs[1]
        if op == '*':
            return xs[0] * xs[1]
        if op == '/':
            return xs[0] / xs[1]
        if op == 'fn':
            return self.fn(t.args[0], xs)
        if op == 'uf':
            if t.sort != 'R':
                return None
            return uf_val(t.args[0], xs)
        if op in ('toreal',):
            return xs[0]
        if op == 'toint':
            return np.trunc(xs[0])
        if op == 'iadd':
            return xs[0] + xs[1]
        if op == 'isub':
            return xs[0] - xs[1]
        if op == 'imul':
            return xs[0] * xs[1]
        return None
    def fn(self, name, xs):
        x = xs[0]
        f = {'sin': np.sin, 'cos': np.cos, 'tan': np.tan, 'asin': np.arcsin, 'acos': np.arccos, 'atan': np.arctan, 'exp': np.exp,
             'log': np.log, 'sqrt': np.sqrt, 'log10': np.log10, 'log1p': np.log1p, 'expm1': np.expm1, 'exp2': np.exp2, 'log2': np.log2,
             'cbrt': np.cbrt, 'sinh': np.sinh, 'cosh': np.cosh, 'tanh': np.tanh, 'floor': np.floor, 'ceil': np.ceil, 'trunc': np.trunc,
             'rint': np.rint, 'asinh': np.arcsinh, 'acosh': np.arccosh, 'atanh': np.arctanh, 'fabs': np.abs}.get(name)
        if f is not None:
            r = f(x)
            if name in ('sin', 'cos', 'tan'):
                r = np.where((np.abs(r) < 1e-15) & (np.abs(x) > 1), 0.0, r)
            return r
        if name == 'round':
            return np.where(x < 0, -np.floor(-x + 0.5), np.floor(x + 0.5))
        if name == 'pow':
            return np.power(x, xs[1])
        if name == 'atan2':
            return np.arctan2(x, xs[1])
        if name == 'fmod':
            return np.fmod(x, xs[1])
        if name == 'hypot':
            return np.hypot(x, xs[1])
        if name == 'erf':
            return sp().erf(x)
        if name == 'gamma':
            return sp().gamma(x)
        if name == 'lgamma':
            return sp().gammaln(x)
        return None
    def integral(self, t):
        lo, hi, v, pieces = t.args
        if self.depth >= 1:
            return None
        a, b = self.ev(lo), self.ev(hi)
        if a is None or b is None:
            return None
        gx, gw = np.polynomial.legendre.leggauss(20)
        dep = self.dependents(v, pieces)
        if len(dep) > 3000:
            return None
        self.depth += 1
        saved = self.bound.get(v.id)
        logm = (a > 0) & (b / np.where(a > 0, a, 1) > 5)
        la = np.log(np.where(logm, a, 1.0))
        lb = np.log(np.where(logm, b, 1.0))
        tot = np.zeros(N)
        bad = False
        try:
            for x, w in zip(gx, gw):
                u = 0.5 * (x + 1)
                xl = np.exp(la + (lb - la) * u)
                pt = np.where(logm, xl, a + (b - a) * u)
                jac = np.where(logm, (lb - la) * xl, b - a) * (0.5 * w)
                for i in dep:
                    self.memo.pop(i, None)
                self.bound[v.id] = pt
                val = np.full(N, np.nan)
                for conds, e in pieces:
                    m = np.ones(N, bool)
                    for c in conds:
                        k = self.cond(c)
                        if k is None:
                            bad = True
                            break
                        m &= k[0]
                    y = self.ev(e)
                    if bad or y is None:
                        bad = True
                        break
                    val = np.where(m, y, val)
                if bad:
                    break
                tot = tot + jac * val
        finally:
            for i in dep:
                self.memo.pop(i, None)
            if saved is None:
                self.bound.pop(v.id, None)
            else:
                self.bound[v.id] = saved
            self.depth -= 1
        return None if bad else tot
    def dependents(self, v, pieces):
        """ids of subterms that contain v"""
        memo = {}
        out = []
        st = []
        def kids(x):
            for a in x.args:
                if isinstance(a, Term):
                    yield a
        roots = [e for _, e in pieces] + [c for cs, _ in pieces for c in cs]
        st = [r for r in roots if isinstance(r, Term)]
        while st:
            x = st[-1]
            if x.id in memo:
                st.pop()
                continue
            todo = [k for k in kids(x) if k.id not in memo]
            if todo:
                st.extend(todo)
                continue
            d = x is v or any(memo[k.id] for k in kids(x)) or x.op == 'int'
            memo[x.id] = d
            if d:
                out.append(x.id)
            st.pop()
        return out
    def signature(self, t):
        """hash keys of the value vector: equal terms share at least one key (almost surely)"""
        x = self.ev(t)
        if x is None:
            return None
        fin = np.isfinite(x)
        if fin.sum() < 8 or np.ptp(x[fin]) == 0:
            return None
        v = x[:64]
        v = v[np.isfinite(v) & (v != 0)]
        if len(v) < 4:
            v = x[fin & (x != 0)]
            if len(v) < 4:
                return None
        v = v[:24]
        q = float(np.sum(np.log(np.abs(v)) * (1 + 0.01 * np.arange(len(v))))) + 0.37 * float(np.sum(np.sign(v)))
        k = q * 1e5
        return (len(v), math.floor(k)), (len(v), math.floor(k + 0.5), 1)
    def proportional(self, a, b):
        x, y = self.ev(a), self.ev(b)
        if x is None or y is None:
            return True
        with np.errstate(all='ignore'):
            # both must vanish together
            m = np.isfinite(x) & np.isfinite(y)
            if m.sum() < 4:
                return True
            return np.mean((x[m] == 0) == (y[m] == 0)) > 0.5
    # ------------------------------------------------------------------ conditions
    def cond(self, c):
        """(certainly true mask, certainly false mask) or None"""
        if c is True:
            return np.ones(N, bool), np.zeros(N, bool)
        if c is False:
            return np.zeros(N, bool), np.ones(N, bool)
        op = c.op
        if op == 'not':
            r = self.cond(c.args[0])
            return None if r is None else (r[1], r[0])
        if op in ('and', 'or'):
            x, y = self.cond(c.args[0]), self.cond(c.args[1])
            if x is None or y is None:
                return None
            if op == 'and':
                return x[0] & y[0], x[1] | y[1]
            return x[0] | y[0], x[1] & y[1]
        if op in ('lt', 'le', 'eq', 'ilt', 'ile', 'ieq'):
            a, b = self.ev(c.args[0]), self.ev(c.args[1])
            if a is None or b is None:
                return None
            with np.errstate(all='ignore'):
                if op in ('ilt', 'ile', 'ieq'):
                    t = a < b if op == 'ilt' else (a <= b if op == 'ile' else a == b)
                    return t, ~t
                d = a - b
                eps = 1e-10 * (np.abs(a) + np.abs(b))
                if op == 'eq':
                    return d == 0, np.abs(d) > eps
                if op == 'lt':
                    return d < -eps, d > eps
                return d < -eps, d > eps
        if op == 'var':
            x = self.ev(c)
            return (x != 0), (x == 0)
        if op == 'ine0':
            x = self.ev(c.args[0])
            return None if x is None else (x != 0, x == 0)
        return None
    def diff(self, c):
        a, b = self.ev(c.args[0]), self.ev(c.args[1])
        if a is None or b is None:
            return None
        with np.errstate(all='ignore'):
            return a - b
