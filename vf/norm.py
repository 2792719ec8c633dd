"""Normal form of real terms: Laurent/Puiseux polynomials over atoms, sign facts, z3 bridge.

Coefficients are pairs (value, mass): mass is the sum of the absolute values of the
contributions.  A coefficient is dropped when |value| <= TOL*mass, i.e. equality is
decided up to a relative perturbation TOL of the constants in the formulas.
"""
from fractions import Fraction
import math, time
from .terms import *
from . import terms as T
import z3
import numpy as np

TOL = 2e-13       # intermediate cancellation
FTOL = 2e-11      # final comparison (constants may differ by this relative amount)

NEG, ZER, POS = 1, 2, 4
ANY = 7

class TooBig(Exception):
    pass

def ex_norm(e):
    if isinstance(e, Fraction) and e.denominator == 1:
        return e.numerator
    return e

def to_exp(c):
    """float coefficient -> rational exponent"""
    if c == int(c) if abs(c) < 1e9 else False:
        return int(c)
    f = Fraction(c).limit_denominator(10 ** 7)
    if abs(float(f) - c) > 1e-14 * abs(c):
        f = Fraction(c).limit_denominator(10 ** 12)
    return ex_norm(f)

def mono_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    i = j = 0
    out = []
    na, nb = len(a), len(b)
    while i < na and j < nb:
        x, y = a[i], b[j]
        if x[0] == y[0]:
            e = x[1] + y[1]
            if e != 0:
                out.append((x[0], ex_norm(e)))
            i += 1
            j += 1
        elif x[0] < y[0]:
            out.append(x)
            i += 1
        else:
            out.append(y)
            j += 1
    out.extend(a[i:])
    out.extend(b[j:])
    return tuple(out)

def mono_pow(a, e):
    return tuple((i, ex_norm(k * e)) for i, k in a)

def p_const(c):
    return {(): (c, abs(c))} if c else {}

def p_add(p, q):
    if not p:
        return q
    if not q:
        return p
    if len(p) < len(q):
        p, q = q, p
    r = dict(p)
    for m, (c, s) in q.items():
        o = r.get(m)
        if o is None:
            r[m] = (c, s)
        else:
            v = o[0] + c
            ms = o[1] + s
            if abs(v) <= TOL * ms:
                del r[m]
            else:
                r[m] = (v, ms)
    return r

def p_scale(p, c):
    if c == 0:
        return {}
    a = abs(c)
    return {m: (v * c, s * a) for m, (v, s) in p.items()}

def p_mulmono(p, mono, c=1.0):
    a = abs(c)
    r = {}
    for m, (v, s) in p.items():
        r[mono_mul(m, mono)] = (v * c, s * a)
    return r

def p_mul_raw(p, q):
    r = {}
    for m, (c, s) in p.items():
        for n, (d, t) in q.items():
            k = mono_mul(m, n)
            v = c * d
            ms = s * t
            o = r.get(k)
            if o is None:
                r[k] = (v, ms)
            else:
                r[k] = (o[0] + v, o[1] + ms)
    return {m: cs for m, cs in r.items() if abs(cs[0]) > TOL * cs[1]}

def p_close(p, q, tol=FTOL):
    if len(p) != len(q):
        return False
    for m, (c, s) in p.items():
        o = q.get(m)
        if o is None:
            return False
        if abs(c - o[0]) > tol * max(s, o[1]):
            return False
    return True

def mono_key(m):
    return (len(m), tuple((i, float(e)) for i, e in m))

class Atom(object):
    __slots__ = ('id', 'kind', 'data', 'deps')

class AtomTable(object):
    def __init__(self):
        self.atoms = []
        self.vmap = {}       # term id -> atom
        self.fmap = {}       # (name, shape) -> [atoms]
        self.ufreps = {}
        self.pmap = {}       # shape -> [(poly, atom)]
        self.emap = {}
        self.lmap = {}
        self.ints = []
        self.jmap = {}
        self.nabs = 0
        self.fabs1 = {}      # |atom| -> atom
        self.absval = {}
        self.posfail = {}
        self.fdeps = {}
        self.tsize = {}
    def size(self, t):
        """tree size (capped)"""
        d = self.tsize
        r = d.get(t.id)
        if r is not None:
            return r
        for x in dag(t):
            if x.id not in d:
                d[x.id] = min(10 ** 6, 1 + sum(d.get(y.id, 1) for y in x.args if isinstance(y, Term)))
        return d[t.id]
    def new(self, kind, data, deps):
        a = Atom()
        a.id = len(self.atoms)
        a.kind = kind
        a.data = data
        a.deps = frozenset(deps)
        self.atoms.append(a)
        return a
    def deps_poly(self, p):
        s = set()
        for m in p:
            for i, e in m:
                s |= self.atoms[i].deps
        return s
    def v(self, t):
        a = self.vmap.get(t.id)
        if a is None:
            a = self.new('v', t, [v.id for v in free_vars(t)])
            self.vmap[t.id] = a
        return a.id
    def f(self, name, polys):
        shape = (name,) + tuple(frozenset(p) for p in polys)
        l = self.fmap.setdefault(shape, [])
        for a in l:
            if all(p_close(x, y) for x, y in zip(a.data[1], polys)):
                return a.id
        d = set()
        for p in polys:
            d |= self.deps_poly(p)
        a = self.new('f', (name, polys), d)
        l.append(a)
        return a.id
    def P(self, poly):
        shape = frozenset(poly)
        l = self.pmap.setdefault(shape, [])
        for a in l:
            if p_close(a.data, poly):
                return a.id
        a = self.new('P', poly, self.deps_poly(poly))
        l.append(a)
        return a.id
    def E(self, mono):
        a = self.emap.get(mono)
        if a is None:
            d = set()
            for i, e in mono:
                d |= self.atoms[i].deps
            a = self.new('E', mono, d)
            self.emap[mono] = a
        return a.id
    def L(self, aid):
        a = self.lmap.get(aid)
        if a is None:
            a = self.new('L', aid, self.atoms[aid].deps)
            self.lmap[aid] = a
        return a.id

def dag(t):
    """post-order list of the real subterms of t (integrands excluded)"""
    out = []
    seen = set()
    st = [(t, False)]
    while st:
        x, done = st.pop()
        if done:
            out.append(x)
            continue
        if x.id in seen:
            continue
        seen.add(x.id)
        st.append((x, True))
        for a in x.args:
            if isinstance(a, Term) and a.id not in seen:
                st.append((a, False))
    return out

def flip(mask):
    return (mask & ZER) | (POS if mask & NEG else 0) | (NEG if mask & POS else 0)

class Ctx(object):
    """facts + normaliser.  Immutable facts list is extended by child contexts."""
    LIM = 300
    BIG = 1500
    last_check = None
    def __init__(self, table=None, parent=None):
        self.table = table or AtomTable()
        self.parent = parent
        if parent is None:
            self.facts = []
            self.signs = {}
            self.domain_pos = set()
            self.memo = {}
            self.subst = {}
            self.opaque = []       # non-real boolean facts
            self.stats = {'z3': 0, 'z3_time': 0.0}
            self.rels = []
            self.alive = None
            self.zeros = []
            self.poscache = {}
            self.zbase = None
        else:
            self.zbase = parent.zbase
            self.alive = parent.alive
            self.zeros = list(parent.zeros)
            self.poscache = dict(parent.poscache)
            self.rels = list(parent.rels)
            self.facts = list(parent.facts)
            self.signs = dict(parent.signs)
            self.domain_pos = parent.domain_pos
            self.memo = parent.memo
            self.subst = dict(parent.subst)
            self.opaque = list(parent.opaque)
            self.stats = parent.stats
        self.LIM = parent.LIM if parent else Ctx.LIM
        self.pcache = {}
        self.maycache = dict(parent.maycache) if parent else {}
    def child(self):
        return Ctx(self.table, self)

    # ---------------------------------------------------------- signs
    def atom_mask(self, aid):
        m = self.signs.get(aid, ANY)
        a = self.table.atoms[aid]
        if a.kind == 'E':
            return m & POS
        if a.kind == 'f' and a.data[0] in ('fabs', 'sqrt'):
            m &= POS | ZER
        if a.kind == 'f' and a.data[0] in ('gamma', 'cosh', 'exp'):
            m &= POS
        return m
    def atom_pos(self, aid, deep=True):
        """atom known >= 0 (used for splitting roots and logs)"""
        m = self.atom_mask(aid)
        if not (m & NEG):
            return True
        if aid in self.domain_pos:
            return True
        if not deep:
            return False
        r = self.poscache.get(aid)
        if r is not None:
            return r
        self.poscache[aid] = False
        a = self.table.atoms[aid]
        r = False
        if self.seen_negative(aid):
            pass
        elif a.kind == 'P':
            r = not (self.poly_mask(a.data, use_z3=False) & NEG)
            if not r and len(a.data) <= 12:
                r = self.pos_by_z3(aid, a.data, 150)
        elif a.kind == 'L' or a.kind == 'v' or a.kind == 'f':
            if a.kind == 'L' or len(self.facts) > 0:
                r = self.pos_by_z3(aid, {((aid, 1),): (1.0, 1.0)}, 100)
        self.poscache[aid] = r
        if r:
            self.signs[aid] = self.signs.get(aid, ANY) & (POS | ZER)
        return r
    def pos_by_z3(self, aid, p, timeout):
        """p >= 0 from the small facts about its variables"""
        deps = self.table.deps_poly(p)
        fs = []
        for f in self.facts:
            if isinstance(f, Term) and self.table.size(f) <= 60:
                k = self.table.fdeps.get(f.id)
                if k is None:
                    k = self.table.fdeps[f.id] = frozenset(v.id for v in free_vars(f))
                if k & deps:
                    fs.append(f)
        key = (aid, frozenset(f.id for f in fs))
        r = self.table.posfail.get(key)
        if r is None:
            n = self.table.posfail.get(-1 - aid, 0)
            if n >= 2:
                return False
            s = z3.Solver()
            s.set('timeout', int(timeout))
            self.tr = Z3Tr(self)
            for f in fs:
                s.add(self.tr.cond(f))
            s.add(self.tr.poly(p) < 0)
            k = self.check(s, self.tr)
            if k == z3.unknown:
                self.table.posfail[-1 - aid] = n + 1
            r = self.table.posfail[key] = k == z3.unsat
        return r
    def seen_negative(self, aid):
        """a sample satisfying the facts makes the atom negative"""
        num = getattr(self.table, 'num', None)
        if num is None or self.alive is None:
            return False
        x = num.atom(self.table, aid)
        if x is None:
            return False
        with np.errstate(all='ignore'):
            return bool((self.alive & (x < 0)).any())
    def mono_mask(self, m):
        """possible signs of a monomial"""
        cur = POS
        for i, e in m:
            s = self.atom_mask(i)
            if isinstance(e, Fraction):
                # atom must be >= 0
                s2 = (s & (POS | ZER)) or (POS | ZER)
            elif e % 2 == 0:
                s2 = (POS if s & (POS | NEG) else 0) | (ZER if s & ZER else 0)
            else:
                s2 = s
            if (isinstance(e, int) and e < 0) or (isinstance(e, Fraction) and e < 0):
                s2 &= ~ZER
            out = 0
            for x in (NEG, ZER, POS):
                if not cur & x:
                    continue
                for y in (NEG, ZER, POS):
                    if not s2 & y:
                        continue
                    if x == ZER or y == ZER:
                        out |= ZER
                    else:
                        out |= POS if x == y else NEG
            cur = out
        return cur
    def poly_mask(self, p, use_z3=True):
        if not p:
            return ZER
        tot_lo = tot_hi = False
        zero_ok = True
        allpos = True
        allneg = True
        strict = False
        for m, (c, s) in p.items():
            k = self.mono_mask(m)
            if c < 0:
                k = (POS if k & NEG else 0) | (k & ZER) | (NEG if k & POS else 0)
            if k & NEG:
                allpos = False
            if k & POS:
                allneg = False
            if not k & ZER:
                strict = True
        if allpos and allneg:
            return ZER
        if allpos:
            return POS if strict else POS | ZER
        if allneg:
            return NEG if strict else NEG | ZER
        return ANY

    def uf_atom(self, t, key, ps):
        """atom of an uninterpreted application; an earlier one with provably equal arguments is reused"""
        at = self.table.f(key, ps)
        num = getattr(self.table, 'num', None)
        if num is None:
            return at
        sig = num.signature(t)
        if not sig:
            return at
        reps = self.table.ufreps.setdefault(key, {})
        for k in sig:
            for r in reps.get(k, ()):
                if r == at:
                    return at
                qs = self.table.atoms[r].data[1]
                if sum(len(x) + len(y) for x, y in zip(ps, qs)) > 200:
                    continue
                try:
                    if all(self.is_zero_poly(p_add(x, p_scale(y, -1.0))) for x, y in zip(ps, qs)):
                        return r
                except (TooBig, OverflowError, ZeroDivisionError, RecursionError):
                    pass
        for k in sig:
            reps.setdefault(k, []).append(at)
        return at

    # ---------------------------------------------------------- normal form
    def nf(self, t):
        memo = self.memo
        r = memo.get(t.id)
        if r is not None:
            return r
        # iterative to avoid recursion limits
        stack = [t]
        while stack:
            x = stack[-1]
            if x.id in memo:
                stack.pop()
                continue
            if x.op in ('+', '*', '/') or (x.op == 'fn'):
                ch = [a for a in x.args if isinstance(a, Term)]
                todo = [a for a in ch if a.id not in memo]
                if todo:
                    stack.extend(todo)
                    continue
            memo[x.id] = self._nf1(x)
            stack.pop()
        return memo[t.id]

    def _nf1(self, t):
        op = t.op
        if op == 'c':
            f = t.args[0]
            try:
                return p_const(float(f))
            except OverflowError:
                return {((self.table.v(t), 1),): (1.0, 1.0)}
        if op == '+':
            return p_add(self.memo[t.args[0].id], self.memo[t.args[1].id])
        if op == '*':
            return self.pmul(self.memo[t.args[0].id], self.memo[t.args[1].id])
        if op == '/':
            return self.pmul(self.memo[t.args[0].id], self.ppow(self.memo[t.args[1].id], -1))
        if op == 'fn':
            name = t.args[0]
            ps = [self.memo[a.id] for a in t.args[1:]]
            return self.pfn(name, ps, t)
        if op == 'int':
            return self.pint(t)
        if op == 'uf':
            ps = [self.nf(a) for a in t.args[1:] if isinstance(a, Term) and a.sort == 'R']
            others = tuple(a for a in t.args[1:] if not (isinstance(a, Term) and a.sort == 'R'))
            at = self.uf_atom(t, ('uf', t.args[0], others), ps)
            return {((at, 1),): (1.0, 1.0)}
        if op == 'var':
            s = self.subst.get(t.id)
            if s is not None:
                return s
            return {((self.table.v(t), 1),): (1.0, 1.0)}
        return {((self.table.v(t), 1),): (1.0, 1.0)}

    def pmul(self, p, q):
        if not p or not q:
            return {}
        if len(p) == 1:
            (m, (c, s)), = p.items()
            p, q = q, p
        if len(q) == 1:
            (m, (c, s)), = q.items()
            r = {}
            for n, (v, ms) in p.items():
                r[mono_mul(n, m)] = (v * c, ms * s)
            return self.cancel(r)
        if len(p) * len(q) > self.LIM:
            # abstract the larger factor (deterministically by canonical factorisation)
            if len(p) < len(q):
                p, q = q, p
            c, m, aid = self.factor(p)
            q2 = p_mulmono(q, m, c)
            if aid is None:
                return q2
            return self.cancel(p_mulmono(q2, ((aid, 1),)))
        return self.cancel(p_mul_raw(p, q))

    def cancel(self, p):
        """expand positive integer powers of small P atoms (canonical sums)"""
        atoms = self.table.atoms
        f1 = self.table.fabs1
        if f1:
            # |x|^2k == x^2k
            for m in p:
                if any(i in f1 and e.__class__ is int and e not in (1, -1) for i, e in m):
                    break
            else:
                m = None
            if m is not None:
                r = {}
                for m, (c, s) in p.items():
                    n = ()
                    for i, e in m:
                        if i in f1 and e.__class__ is int and e not in (1, -1):
                            k = e - 1 if e % 2 and e > 0 else e + 1 if e % 2 else e
                            n = mono_mul(n, ((f1[i], k),))
                            if e != k:
                                n = mono_mul(n, ((i, e - k),))
                        else:
                            n = mono_mul(n, ((i, e),))
                    o = r.get(n)
                    r[n] = (c, s) if o is None else (o[0] + c, o[1] + s)
                p = {m: v for m, v in r.items() if abs(v[0]) > FTOL * v[1]}
                if not p:
                    return p
        only = set()
        for m in p:
            for i, e in m:
                if e.__class__ is int and e >= 1 and atoms[i].kind == 'P' and i not in only:
                    d = len(atoms[i].data)
                    if d ** e * len(p) <= self.LIM:
                        only.add(i)
        if not only:
            return p
        r = self.expand_P(p, self.LIM, only)
        return p if r is None else r

    def lead(self, p):
        return min(p, key=mono_key)

    def factor(self, p, signed=False):
        """p = c * mono * P(atom);  returns (c, mono, atom id or None)"""
        assert p
        if len(p) == 1:
            (m, (c, s)), = p.items()
            return c, m, None
        # common monomial: minimum exponent of each atom over all monomials
        mins = {}
        first = True
        n = 0
        for m in p:
            d = dict(m)
            if first:
                mins = d
                first = False
            else:
                for k in list(mins):
                    mins[k] = min(mins[k], d.get(k, 0))
                for k, e in d.items():
                    if k not in mins and e < 0:
                        mins[k] = e
            n += 1
        mono = tuple(sorted((k, ex_norm(e)) for k, e in mins.items() if e != 0))
        if mono:
            inv = mono_pow(mono, -1)
            p = {mono_mul(m, inv): cs for m, cs in p.items()}
            # P atoms with positive integer exponents that came from clearing fractions: expand
            p2 = self.expand_P(p)
            if p2 is not None and p2 is not p:
                if not p2:
                    return 0.0, (), None
                c, m, aid = self.factor(p2, signed)
                return c, mono_mul(m, mono), aid
        l = self.lead(p)
        c = p[l][0]
        if signed and c < 0:
            c = -c
        q = {}
        for m, (v, s) in p.items():
            q[m] = (v / c, s / abs(c))
        return c, mono, self.table.P(q)

    def expand_P(self, p, limit=3000, only=None):
        """expand positive integer parts of exponents of P atoms"""
        need = False
        for m in p:
            for i, e in m:
                if e >= 1 and self.table.atoms[i].kind == 'P' and (only is None or i in only):
                    need = True
                    break
            if need:
                break
        if not need:
            return p
        out = {}
        for m, (c, s) in p.items():
            ex = [(i, int(math.floor(e))) for i, e in m if e >= 1 and self.table.atoms[i].kind == 'P' and (only is None or i in only)]
            if not ex:
                self._acc(out, m, c, s)
                continue
            rest = tuple((i, e) for i, e in m if not (i, e) in ex)
            sub_ = {}
            rm = []
            for i, e in m:
                k = dict(ex).get(i)
                if k is None:
                    rm.append((i, e))
                elif e - k != 0:
                    rm.append((i, ex_norm(e - k)))
            cur = {tuple(rm): (c, s)}
            for i, k in ex:
                for _ in range(k):
                    if len(cur) * len(self.table.atoms[i].data) > limit:
                        return None
                    cur = p_mul_raw(cur, self.table.atoms[i].data)
            for m2, (c2, s2) in cur.items():
                self._acc(out, m2, c2, s2)
            if len(out) > limit * 4:
                return None
        out = {m: cs for m, cs in out.items() if abs(cs[0]) > TOL * cs[1]}
        r = self.expand_P(out, limit, only)
        return r

    @staticmethod
    def _acc(out, m, c, s):
        o = out.get(m)
        out[m] = (c, s) if o is None else (o[0] + c, o[1] + s)

    def ppow(self, p, e):
        e = ex_norm(e) if isinstance(e, Fraction) else e
        if e == 0:
            return p_const(1.0)
        if e == 1:
            return p
        if not p:
            if e > 0:
                return {}
            return {((self.table.v(mk('zpow', (Fraction(e),), 'R')), 1),): (1.0, 1.0)}
        if isinstance(e, int) and e > 1 and len(p) > 1:
            if len(p) ** e <= self.LIM * 2 and e <= 8:
                r = p
                for _ in range(e - 1):
                    r = p_mul_raw(r, p)
                return r
        if isinstance(e, int):
            c, m, a = self.factor(p)
            if c == 0.0:
                return self.ppow({}, e)
            mm = mono_pow(m, e)
            if a is not None:
                mm = mono_mul(mm, ((a, e),))
            try:
                v = c ** e
            except OverflowError:
                v = float('inf')
            return {mm: (v, abs(v))}
        # fractional power: base must be >= 0
        p = self.trig_reduce(p)
        if not p:
            return self.ppow(p, e)
        c, m, a = self.factor(p, signed=True)
        if c == 0.0:
            return self.ppow({}, e)
        sign = 1
        if c < 0:
            sign = -1
            c = -c
        fac = list(m)
        if a is not None:
            fac.append((a, 1))
        out = ()
        unk = []
        for i, k in fac:
            if self.atom_pos(i):
                out = mono_mul(out, ((i, ex_norm(k * e)),))
            elif isinstance(k, Fraction) and k.denominator % 2 == 0:
                out = mono_mul(out, ((i, ex_norm(k * e)),))
            elif isinstance(k, int) and k % 2 == 0:
                # |atom|^(k e)
                ke = ex_norm(k * e)
                if isinstance(ke, int) and ke % 2 == 0:
                    out = mono_mul(out, ((i, ke),))
                elif not (self.atom_mask(i) & POS):
                    # atom <= 0: |atom| = -atom
                    if isinstance(ke, int):
                        out = mono_mul(out, ((i, ke),))
                        c = c * ((-1.0) ** (1 if ke % 2 else 0)) ** 1 if False else c
                        out_sign = -1 if ke % 2 else 1
                        # fold the sign through a later multiplication
                        if out_sign < 0:
                            unk.append(('sign', -1))
                    else:
                        out = mono_mul(out, ((self._negatom(i), ke),))
                else:
                    absid = self.table.f('fabs', [{((i, 1),): (1.0, 1.0)}])
                    self.table.fabs1[absid] = i
                    out = mono_mul(out, ((absid, ke),))
            else:
                unk.append((i, k))
        osign = 1
        u2 = []
        for x in unk:
            if x[0] == 'sign':
                osign *= x[1]
            else:
                u2.append(x)
        unk = u2
        if unk:
            if len(unk) == 1 and sign > 0:
                i, k = unk[0]
                self.domain_pos.add(i)
                out = mono_mul(out, ((i, ex_norm(k * e)),))
            elif len(unk) == 1 and sign < 0 and unk[0][1] in (1, -1):
                i, k = unk[0]
                j = self._negatom(i)
                self.domain_pos.add(j)
                out = mono_mul(out, ((j, ex_norm(k * e)),))
            else:
                q = {tuple(sorted(unk)): (float(sign), 1.0)}
                q2 = self.expand_P(q)
                if q2 is not None and q2 != q:
                    q = q2
                j = self.table.P(q)
                out = mono_mul(out, ((j, e),))
        elif sign < 0:
            # negative constant times non-negative: outside the domain
            j = self.table.P({(): (-1.0, 1.0)})
            out = mono_mul(out, ((j, e),))
        v = math.pow(c, float(e))
        return {out: (osign * v, v)}

    def _negatom(self, i):
        a = self.table.atoms[i]
        if a.kind == 'P':
            return self.table.P(p_scale(a.data, -1.0))
        return self.table.P({((i, 1),): (-1.0, 1.0)})

    def pexp(self, p, t=None):
        out = ()
        c0 = 1.0
        for m, (c, s) in p.items():
            if m == ():
                try:
                    c0 = math.exp(c)
                    if c0 == 0:
                        raise OverflowError
                except OverflowError:
                    return {((self.table.f('exp', [p]), 1),): (1.0, 1.0)}
        if len(p) > 12 and not all(len(m) <= 1 for m in p):
            q = {m: cs for m, cs in p.items() if m != ()}
            return {((self.table.f('exp', [q]), 1),): (c0, c0)}
        for m, (c, s) in p.items():
            if m == ():
                continue
            e = to_exp(c)
            if len(m) == 1 and m[0][1] == 1 and self.table.atoms[m[0][0]].kind == 'L':
                aid = self.table.atoms[m[0][0]].data
                out = mono_mul(out, ((aid, e),))
            else:
                out = mono_mul(out, ((self.table.E(m), e),))
        return {out: (c0, c0)}

    def plog(self, p):
        if not p:
            return {((self.table.v(mk('log0', (), 'R')), 1),): (1.0, 1.0)}
        c, m, a = self.factor(p, signed=True)
        if c == 0.0:
            return self.plog({})
        sign = 1
        if c < 0:
            sign, c = -1, -c
        fac = list(m)
        if a is not None:
            fac.append((a, 1))
        lc = math.log(c)
        r = {(): (lc, max(abs(lc), 1e-3))} if abs(lc) > 1e-15 else {}
        unk = []
        for i, k in fac:
            at = self.table.atoms[i]
            if at.kind == 'E':
                r = p_add(r, {at.data: (float(k), abs(float(k)))})
            elif self.atom_pos(i) or isinstance(k, Fraction):
                r = p_add(r, {((self.table.L(i), 1),): (float(k), abs(float(k)))})
            else:
                unk.append((i, k))
        if unk:
            if len(unk) == 1 and sign > 0 and (isinstance(unk[0][1], int) and unk[0][1] % 2):
                i, k = unk[0]
                self.domain_pos.add(i)
                r = p_add(r, {((self.table.L(i), 1),): (float(k), abs(float(k)))})
            elif len(unk) == 1 and sign < 0 and unk[0][1] in (1, -1):
                i, k = unk[0]
                j = self._negatom(i)
                self.domain_pos.add(j)
                r = p_add(r, {((self.table.L(j), 1),): (float(k), 1.0)})
            else:
                q = {tuple(sorted(unk)): (float(sign), 1.0)}
                q2 = self.expand_P(q)
                if q2 is not None and q2 != q:
                    q = q2
                j = self.table.P(q)
                r = p_add(r, {((self.table.L(j), 1),): (1.0, 1.0)})
        elif sign < 0:
            return {((self.table.v(mk('logneg', (), 'R')), 1),): (1.0, 1.0)}
        return r

    def is_const(self, p):
        return not p or (len(p) == 1 and () in p)
    def const(self, p):
        return p[()][0] if p else 0.0

    def pfn(self, name, ps, t):
        if name == 'sqrt':
            return self.ppow(ps[0], Fraction(1, 2))
        if name == 'cbrt':
            return self.ppow(ps[0], Fraction(1, 3))
        if name == 'pow':
            if self.is_const(ps[1]):
                return self.ppow(ps[0], to_exp(self.const(ps[1])))
            return self.pexp(self.pmul(ps[1], self.plog(ps[0])))
        if name == 'exp':
            return self.pexp(ps[0], t)
        if name == 'log':
            return self.plog(ps[0])
        if name == 'log10':
            return p_scale(self.plog(ps[0]), 1 / math.log(10))
        if name == 'log2':
            return p_scale(self.plog(ps[0]), 1 / math.log(2))
        if name == 'log1p':
            return self.plog(p_add(ps[0], p_const(1.0)))
        if name == 'expm1':
            return p_add(self.pexp(ps[0]), p_const(-1.0))
        if name == 'exp2':
            return self.pexp(p_scale(ps[0], math.log(2)))
        if name == 'hypot':
            return self.ppow(p_add(self.pmul(ps[0], ps[0]), self.pmul(ps[1], ps[1])), Fraction(1, 2))
        if name in ('sin', 'cos', 'tan', 'asin', 'atan', 'sinh', 'cosh', 'tanh', 'erf'):
            p = ps[0]
            if not p:
                return p_const(1.0) if name in ('cos', 'cosh') else {}
            if self.is_const(p):
                r = getattr(math, name)(self.const(p))
                return p_const(0.0 if abs(r) < 1e-15 and name in ('sin', 'cos', 'tan') else r)
            neg_ = p[self.lead(p)][0] < 0
            if neg_:
                p = p_scale(p, -1.0)
            if name == 'tan':
                r = self.pmul(self.pfn('sin', [p], None), self.ppow(self.pfn('cos', [p], None), -1))
            elif name in ('sin', 'cos'):
                r = self._trig(name, p)
            elif name == 'sinh':
                r = p_scale(p_add(self.pexp(p), p_scale(self.pexp(p_scale(p, -1.0)), -1.0)), 0.5)
            elif name == 'cosh':
                r = p_scale(p_add(self.pexp(p), self.pexp(p_scale(p, -1.0))), 0.5)
            else:
                r = {((self.table.f(name, [p]), 1),): (1.0, 1.0)}
            if neg_ and name not in ('cos', 'cosh'):
                r = p_scale(r, -1.0)
            return r
        if name == 'fabs':
            p = ps[0]
            k = self.poly_mask(p)
            if not k & NEG:
                return p
            if not k & POS:
                return p_scale(p, -1.0)
            if p and p[self.lead(p)][0] < 0:
                p = p_scale(p, -1.0)
            return {((self.table.f(name, [p]), 1),): (1.0, 1.0)}
        if all(self.is_const(p) for p in ps) and name in ('acos', 'atan2', 'floor', 'ceil', 'fmod'):
            try:
                return p_const(float(getattr(math, name)(*[self.const(p) for p in ps])))
            except ValueError:
                pass
        return {((self.table.f(name, ps), 1),): (1.0, 1.0)}

    def _trig(self, name, p):
        # inverse function argument
        if len(p) == 1:
            (m, (c, s)), = p.items()
            if len(m) == 1 and m[0][1] == 1 and abs(abs(c) - 1) < 1e-13:
                a = self.table.atoms[m[0][0]]
                if a.kind == 'f' and a.data[0] in ('acos', 'asin', 'atan', 'atan2'):
                    sg = 1.0 if c > 0 else -1.0
                    f, args = a.data
                    one = p_const(1.0)
                    if f == 'acos':
                        r = args[0] if name == 'cos' else p_scale(self.ppow(p_add(one, p_scale(self.pmul(args[0], args[0]), -1.0)), Fraction(1, 2)), sg)
                    elif f == 'asin':
                        r = p_scale(args[0], sg) if name == 'sin' else self.ppow(p_add(one, p_scale(self.pmul(args[0], args[0]), -1.0)), Fraction(1, 2))
                    elif f == 'atan':
                        d = self.ppow(p_add(one, self.pmul(args[0], args[0])), Fraction(-1, 2))
                        r = d if name == 'cos' else p_scale(self.pmul(args[0], d), sg)
                    else:
                        d = self.ppow(p_add(self.pmul(args[0], args[0]), self.pmul(args[1], args[1])), Fraction(-1, 2))
                        r = self.pmul(args[1], d) if name == 'cos' else p_scale(self.pmul(args[0], d), sg)
                    return r
        # fmod(x, 2 pi) differs from x by a multiple of 2 pi
        for m, (c, s) in p.items():
            if len(m) == 1 and m[0][1] == 1 and abs(abs(c) - 1) < 1e-13:
                a = self.table.atoms[m[0][0]]
                if a.kind == 'f' and a.data[0] == 'fmod' and self.is_const(a.data[1][1]) and abs(abs(self.const(a.data[1][1])) / (2 * math.pi) - 1) < 1e-13:
                    q = {n: cs for n, cs in p.items() if n != m}
                    return self.pfn(name, [p_add(q, p_scale(a.data[1][0], 1.0 if c > 0 else -1.0))], None)
        # shift by multiples of pi/2
        c0 = p.get((), (0.0, 0.0))[0]
        if c0 and len(p) > 1:
            k = c0 / (math.pi / 2)
            kr = round(k)
            if kr and abs(k - kr) < 1e-12 * abs(kr):
                q = {m: cs for m, cs in p.items() if m != ()}
                kr %= 4
                sgn = 1.0
                if q[self.lead(q)][0] < 0:
                    q = p_scale(q, -1.0)
                    # sin(k pi/2 - q)
                    if name == 'sin':
                        r = [('sin', -1), ('cos', 1), ('sin', 1), ('cos', -1)][kr]
                    else:
                        r = [('cos', 1), ('sin', 1), ('cos', -1), ('sin', -1)][kr]
                else:
                    if name == 'sin':
                        r = [('sin', 1), ('cos', 1), ('sin', -1), ('cos', -1)][kr]
                    else:
                        r = [('cos', 1), ('sin', -1), ('cos', -1), ('sin', 1)][kr]
                return p_scale(self._trig(r[0], q), float(r[1]))
        return {((self.table.f(name, [p]), 1),): (1.0, 1.0)}

    # ---------------------------------------------------------- integrals
    def pint(self, t):
        """t = int(a, b, boundvar, pieces); pieces: tuple of (conds tuple, value).
        An integral is J(b) - J(a) for a formal antiderivative J of its integrand class."""
        a, b, v, pieces = t.args
        pa, pb = self.nf(a), self.nf(b)
        if pa == pb or self.is_zero_poly(p_add(pa, p_scale(pb, -1.0))):
            return {}
        num = getattr(self.table, 'num', None)
        s = None
        cls = None
        for rec in self.table.ints:
            cls0, ra, rb, rv, rpieces = rec
            if len(rpieces) == 1 and len(pieces) == 1:
                s = self.same_body(None, None, rv, rpieces, v, pieces)
                if s is not None:
                    cls = cls0
                    break
            if (p_close(ra, pa) or self.is_zero_poly(p_add(ra, p_scale(pa, -1.0)))) and \
                    (p_close(rb, pb) or self.is_zero_poly(p_add(rb, p_scale(pb, -1.0)))):
                s = self.same_body(a, b, rv, rpieces, v, pieces)
                if s is not None:
                    cls = cls0
                    break
        if s is None:
            cls = len(self.table.ints)
            self.table.ints.append((cls, pa, pb, v, pieces))
            s = ((), 1.0)
        bd = set()
        for conds, val in pieces:
            bd |= set(x.id for x in free_vars(val))
            for c in conds:
                if isinstance(c, Term):
                    bd |= set(x.id for x in free_vars(c))
        bd.discard(v.id)
        hi, lo = self._J(cls, pb, bd), self._J(cls, pa, bd)
        if hi == lo:
            return {}
        return {mono_mul(((hi, 1),), s[0]): (s[1], abs(s[1])), mono_mul(((lo, 1),), s[0]): (-s[1], abs(s[1]))}

    def _J(self, cls, p, bd):
        l = self.table.jmap.setdefault(cls, [])
        for i, q in l:
            if q is p or p_close(q, p) or self.is_zero_poly(p_add(q, p_scale(p, -1.0))):
                return i
        at = self.table.new('J', (cls, p), self.table.deps_poly(p) | bd)
        l.append((at.id, p))
        return at.id

    def same_body(self, a, b, v1, pieces1, v2, pieces2):
        """bodies equal (up to a constant factor and a factor independent of the variable)?
        returns (mono, coef) with body2 = coef*mono*body1 or None"""
        m = {v2: v1}
        memo = {}
        num = getattr(self.table, 'num', None)
        lim = []
        if a is not None:
            if self.decide(le(a, b), 200) is True:
                lim = [lt(a, v1), lt(v1, b)]
            elif self.decide(le(b, a), 200) is True:
                lim = [lt(b, v1), lt(v1, a)]
            elif len(pieces1) > 1 or len(pieces2) > 1:
                return None
            else:
                lim = []
        pieces2 = [(tuple(substitute(c, m, memo) for c in conds), substitute(val, m, memo)) for conds, val in pieces2]
        if len(pieces1) == 1 and len(pieces2) == 1:
            ctx = self.child()
            ctx.memo = {}
            if num is not None and v1 is not v2 and not num.proportional(pieces1[0][1], pieces2[0][1]):
                return None
            for c in lim:
                ctx.assume(c)
            for c in pieces1[0][0] + pieces2[0][0]:
                ctx.assume(c)
            return ctx._ratio(pieces1[0][1], pieces2[0][1], v1)
        ratio = None
        for c1, x1 in pieces1:
            for c2, x2 in pieces2:
                ctx = self.child()
                ctx.memo = {}
                for c in lim:
                    ctx.assume(c)
                ok = True
                for c in c1 + c2:
                    if c is False or (c is not True and ctx.decide(c) is False):
                        ok = False
                        break
                    if c is not True:
                        ctx.assume(c)
                if not ok or ctx.infeasible():
                    continue
                r = ctx._ratio(x1, x2, v1)
                if r is None:
                    return None
                if r == 'zero':
                    continue
                if ratio is None:
                    ratio = r
                elif ratio[0] != r[0] or abs(ratio[1] - r[1]) > FTOL * abs(r[1]):
                    return None
        return ratio or ((), 1.0)

    def _ratio(self, x1, x2, v):
        if x1 is x2 or self.sweep(x1, x2):
            return ((), 1.0)
        p1 = self.nf(x1)
        p2 = self.nf(x2)
        if not p1 and not p2:
            return ((), 1.0)
        if self.is_zero_poly(p_add(p1, p_scale(p2, -1.0))):
            return ((), 1.0)
        if not p1 or not p2:
            return None
        # candidate ratio from the leading factorisation
        try:
            c1, m1, a1 = self.factor(p1)
            c2, m2, a2 = self.factor(p2)
        except TooBig:
            return None
        if c1 == 0 or c2 == 0:
            return None
        q = mono_mul(m2, mono_pow(m1, -1))
        free = tuple((i, e) for i, e in q if v.id not in self.table.atoms[i].deps)
        bound = tuple((i, e) for i, e in q if v.id in self.table.atoms[i].deps)
        if bound:
            return None
        r = (free, c2 / c1)
        if self.is_zero_poly(p_add(p_mulmono(p1, r[0], r[1]), p_scale(p2, -1.0))):
            return r
        return None

    # ---------------------------------------------------------- equality
    def is_zero(self, t):
        return self.is_zero_poly(self.nf(t))

    def is_zero_poly(self, p, final=True):
        if not p:
            return True
        q = self.clear(p)
        if q is None:
            return False
        if not q:
            return True
        if all(abs(c) <= FTOL * s for c, s in q.values()):
            return True
        # exponents that come from floating-point coefficients agree only approximately
        at = self.table.atoms
        if any(isinstance(e, Fraction) and e.denominator > 10000 for m in q for _, e in m):
            out = {}
            for m, (c, s) in q.items():
                k = tuple((i, r) for i, r in ((i, round(float(e), 9)) for i, e in m) if r)
                self._acc(out, k, c, s)
            if all(abs(c) <= FTOL * s for c, s in out.values()):
                return True
        if len(q) < 3000 and any(at[i].kind == 'L' for m in q for i, _ in m):
            return self.log_combine(q)
        return False

    def log_combine(self, q):
        """sum of C*(sum r_j log P_j) + rest = 0 because prod P_j^r_j is a constant"""
        at = self.table.atoms
        by = {}
        rest = {}
        for m, (c, s) in q.items():
            ls = [(i, e) for i, e in m if at[i].kind == 'L']
            if not ls:
                rest[m] = (c, s)
                continue
            if len(ls) > 1 or ls[0][1] != 1:
                return False
            co = tuple((i, e) for i, e in m if i != ls[0][0])
            by.setdefault(ls[0][0], {})[co] = (c, s)
        classes = []
        for i in sorted(by):
            C = by[i]
            if all(abs(c) <= FTOL * s for c, s in C.values()):
                continue
            for cl in classes:
                R = cl[0]
                if set(R) != set(C):
                    continue
                k = max(R, key=lambda m: abs(R[m][0]))
                r = C[k][0] / R[k][0]
                if all(abs(C[m][0] - r * R[m][0]) <= FTOL * (C[m][1] + abs(r) * R[m][1]) for m in C):
                    cl[1].append((i, r))
                    break
            else:
                classes.append((C, [(i, 1.0)]))
        for C, ls in classes:
            if len(ls) < 2 or len(ls) > 8:
                return False
            fr = [Fraction(r).limit_denominator(12) for _, r in ls]
            if any(abs(float(f) - r) > 1e-9 * max(1, abs(r)) or f == 0 for f, (_, r) in zip(fr, ls)):
                return False
            d = 1
            for f in fr:
                d = d * f.denominator // math.gcd(d, f.denominator)
            mono = []
            for f, (i, _) in zip(fr, ls):
                if abs(f * d) > 8:
                    return False
                mono.append((at[i].data, int(f * d)))
            num = {tuple(sorted((i, e) for i, e in mono if e > 0)): (1.0, 1.0)}
            den = {tuple(sorted((i, -e) for i, e in mono if e < 0)): (1.0, 1.0)}
            num, den = self.expand_P(num), self.expand_P(den)
            if num is None or den is None:
                return False
            k = max(num, key=lambda m: abs(num[m][0]))
            if k not in den:
                # shared denominators inside the atoms
                t = self.table_ratio(num, den)
                if t is None:
                    return False
                K = t
            else:
                K = num[k][0] / den[k][0]
            if K <= 0:
                return False
            z = self.clear(p_add(num, p_scale(den, -K)))
            if z is None or not all(abs(c) <= FTOL * s for c, s in z.values()):
                return False
            lk = math.log(K) / d
            for m, (c, s) in C.items():
                self._acc(rest, m, c * lk, s * max(abs(lk), 1e-3))
        return all(abs(c) <= FTOL * s for c, s in rest.values())

    def table_ratio(self, num, den):
        t = getattr(self.table, 'num', None)
        if t is None:
            return None
        import numpy as np
        try:
            a, b = t.poly(self.table, num), t.poly(self.table, den)
            if a is None or b is None:
                return None
        except Exception:
            return None
        with np.errstate(all='ignore'):
            r = a / b
            r = r[np.isfinite(r)]
        if len(r) < 3:
            return None
        k = float(np.median(r))
        return k if k > 0 else None

    def clear(self, p, limit=20000):
        """multiply by denominators and expand; None when too big"""
        for _ in range(12):
            if not p:
                return p
            mins = {}
            occ = {}
            for m in p:
                for i, e in m:
                    if e < mins.get(i, 0):
                        mins[i] = e
            mult = []
            at = self.table.atoms
            for i, e in mins.items():
                if at[i].kind == 'P':
                    k = -int(math.floor(e))
                    mult.append((i, k))
                elif at[i].kind == 'f' and at[i].data[0] == 'cos':
                    mult.append((i, -int(math.floor(e))))
            if mult:
                mm = tuple(sorted(mult))
                p = p_mulmono(p, mm)
            q = self.expand_P(p, limit)
            if q is None:
                return None
            q = self.trig_reduce(q)
            if q is p or (q == p):
                return p
            p = q
        return p

    def trig_reduce(self, p):
        at = self.table.atoms
        need = False
        for m in p:
            for i, e in m:
                if e >= 2 and at[i].kind == 'f' and at[i].data[0] == 'cos':
                    need = True
        if not need:
            return p
        out = {}
        for m, (c, s) in p.items():
            cur = {m: (c, s)}
            for i, e in m:
                if e >= 2 and at[i].kind == 'f' and at[i].data[0] == 'cos':
                    k = int(e) // 2
                    sid = self.table.f('sin', at[i].data[1])
                    one = {(): (1.0, 1.0), ((sid, 2),): (-1.0, 1.0)}
                    cur = p_mulmono(cur, ((i, -2 * k),))
                    for _ in range(k):
                        cur = p_mul_raw(cur, one)
            for m2, (c2, s2) in cur.items():
                self._acc(out, m2, c2, s2)
        return {m: cs for m, cs in out.items() if abs(cs[0]) > TOL * cs[1]}

    # ---------------------------------------------------------- equivalence sweeping
    def sweep(self, a, b):
        """prove a == b by proving equal, bottom-up, the subterms that agree on the samples and
        treating each proved class as one unknown"""
        num = getattr(self.table, 'num', None)
        if num is None or a.op == 'c' or b.op == 'c':
            return False
        A, B = dag(a), dag(b)
        if len(A) + len(B) < 40:
            return False
        for level in (2, 1):
            r = self._sweep(a, b, A, B, level, num)
            if r:
                return True
        return False

    def _sweep(self, a, b, A, B, level, num):
        def cand(t):
            if t.op in ('fn', 'uf', 'int'):
                return True
            return level == 2 and t.op == '/'
        sig = {}
        ka, kb = set(), set()
        for D, K in ((A, ka), (B, kb)):
            for t in D:
                if cand(t):
                    k = sig.get(t.id)
                    if k is None:
                        k = sig[t.id] = num.signature(t)
                    if k:
                        K.update(k)
        both = ka & kb
        ctx = self.child()
        ctx.memo = {}
        ctx.LIM = self.LIM
        reps = {}
        def go(t):
            ks = [k for k in (sig.get(t.id) or ()) if k in both]
            if not ks or t.id in ctx.memo:
                return
            fnode = t.op == 'fn' or t.op == 'uf' and t.sort == 'R'
            name = t.args[0] if fnode else t.op
            args = [x for x in t.args[1:] if isinstance(x, Term)] if fnode else None
            nargs = None
            try:
                if fnode:
                    if any(x.sort != 'R' for x in args):
                        return
                    nargs = [ctx.nf(x) for x in args]
                    if name in ('log', 'pow', 'sqrt', 'cbrt', 'exp') and len(nargs[0]) <= 1:
                        return
                    if name in ('floor', 'ceil', 'round', 'trunc', 'rint', 'fabs'):
                        return
                    raw = None
                elif t.op == '/':
                    den = ctx.nf(t.args[1])
                    raw = ctx.nf(t)
                    if len(raw) <= 1 and len(den) <= 1:
                        ctx.memo.pop(t.id, None)
                        return
                else:
                    raw = ctx.nf(t)
            except RecursionError:
                return
            for k in ks:
                for rep in reps.get(k, ()):
                    same = False
                    if fnode and rep[0] == name and len(rep[1]) == len(nargs):
                        same = all(x == y or ctx.is_zero_poly(p_add(x, p_scale(y, -1.0))) for x, y in zip(rep[1], nargs))
                    if not same and not (fnode and rep[0] == name and name != 'pow'):
                        if raw is None:
                            raw = ctx._nf1(t)
                        if rep[2] is None:
                            rep[2] = ctx._nf1(rep[4])
                        if len(raw) + len(rep[2]) < 400:
                            same = ctx.is_zero_poly(p_add(raw, p_scale(rep[2], -1.0)))
                    if same:
                        ctx.memo[t.id] = rep[3]
                        return
            self.table.nabs += 1
            deps = set(x.id for x in free_vars(t))
            at = self.table.new('v', T.var('abs!%d' % self.table.nabs), deps)
            if raw is not None:
                m = ctx._sign_of(raw)
                if m != ANY:
                    ctx.signs[at.id] = m
            elif name in ('exp', 'sqrt'):
                ctx.signs[at.id] = POS if name == 'exp' else POS | ZER
            elif name in ('pow', 'cbrt') and not (ctx._sign_of(nargs[0]) & NEG):
                ctx.signs[at.id] = POS | ZER
            self.table.absval[at.id] = t
            p = {((at.id, 1),): (1.0, 1.0)}
            rec = [name, nargs, raw, p, t]
            for k in ks:
                reps.setdefault(k, []).append(rec)
            ctx.memo[t.id] = p
        try:
            seen = set()
            for D in (A, B):
                for t in D:
                    if t.id not in seen and cand(t):
                        seen.add(t.id)
                        go(t)
            d = p_add(ctx.nf(a), p_scale(ctx.nf(b), -1.0))
            return not d or ctx.is_zero_poly(d)
        except (TooBig, OverflowError, ZeroDivisionError):
            return False

    def split_equal(self, a, b):
        """a sum (product) equals a sum (product) when the operands are pairwise equal"""
        num = getattr(self.table, 'num', None)
        if num is None or a.op != b.op or a.op not in ('+', '*') or self.table.size(a) < 300:
            return False
        def flat(t, out):
            if t.op == a.op:
                flat(t.args[0], out)
                flat(t.args[1], out)
            else:
                out.append(t)
            return out
        la, lb = flat(a, []), flat(b, [])
        ids = {}
        rest = []
        for t in lb:
            ids.setdefault(t.id, []).append(t)
        for t in la:
            if ids.get(t.id):
                ids[t.id].pop()
            else:
                rest.append(t)
        la = rest
        lb = [t for l in ids.values() for t in l]
        if not la and not lb:
            return True
        if len(la) != len(lb) or len(la) > 8 or (len(la) == 1 and la[0] is a):
            return False
        if not any(self.table.size(t) > 100 for t in la):
            return False
        pairs = []
        for t in la:
            x = num.ev(t)
            if x is None:
                return False
            hit = None
            for u in lb:
                y = num.ev(u)
                if y is None:
                    continue
                with np.errstate(all='ignore'):
                    m = np.isfinite(x) & np.isfinite(y)
                    if m.sum() and np.all(np.abs(x - y)[m] <= 1e-9 * np.abs(x)[m]):
                        hit = u
                        break
            if hit is None:
                return False
            lb.remove(hit)
            pairs.append((t, hit))
        return all(self.equal(t, u) for t, u in pairs)

    def equal(self, a, b):
        """prove a == b"""
        if a is b:
            return True
        if special(a) or special(b):
            return a is b
        if self.split_equal(a, b):
            return True
        if self.sweep(a, b):
            return True
        n0 = len(self.domain_pos)
        d = p_add(self.nf(a), p_scale(self.nf(b), -1.0))
        if not d or self.is_zero_poly(d):
            return True
        if len(self.domain_pos) != n0:
            self.memo = {}
            d = p_add(self.nf(a), p_scale(self.nf(b), -1.0))
            if not d or self.is_zero_poly(d):
                return True
        if self.LIM < 3000:
            old, self.LIM, om = self.LIM, 4000, self.memo
            self.memo = {}
            try:
                d = p_add(self.nf(a), p_scale(self.nf(b), -1.0))
                if not d or self.is_zero_poly(d):
                    return True
            except TooBig:
                pass
            finally:
                self.LIM = old
                self.memo = om
        return False

    def show_atom(self, i, d=4):
        a = self.table.atoms[i]
        if a.kind == 'v':
            return T.show(a.data, d)
        if d <= 0:
            return '%s#%d' % (a.kind, i)
        if a.kind == 'f':
            return '%s{%s}' % (a.data[0], '; '.join(self.show_poly(p, d - 1) for p in a.data[1]))
        if a.kind == 'P':
            return '[%s]' % self.show_poly(a.data, d - 1)
        if a.kind == 'E':
            return 'E{%s}' % self.show_poly({a.data: (1.0, 1.0)}, d - 1)
        if a.kind == 'L':
            return 'L{%s}' % self.show_atom(a.data, d - 1)
        return '%s#%d' % (a.kind, i)
    def show_poly(self, p, d=4, n=12):
        out = []
        for m, (c, s) in list(p.items())[:n]:
            out.append('%.10g' % c + ''.join('*%s^%s' % (self.show_atom(i, d), e) if e != 1 else '*' + self.show_atom(i, d) for i, e in m))
        if len(p) > n:
            out.append('...%d terms' % len(p))
        return ' + '.join(out) or '0'
    # ---------------------------------------------------------- facts
    def cond_poly(self, c):
        """(rel, poly) with rel in lt, le, eq meaning poly rel 0"""
        a, b = c.args
        d = p_add(self.nf(a), p_scale(self.nf(b), -1.0))
        return c.op, d

    def _pid(self, p):
        """canonical (sign, atom id) so that sign(p) = sign * sign(atom); or None"""
        c, m, a = self.factor(p)
        if a is not None:
            q = self.table.atoms[a].data
        return c, m, a

    def assume(self, c):
        if c is True:
            return
        if c is False:
            self.facts.append(False)
            return
        if c.op == 'and':
            self.assume(c.args[0])
            self.assume(c.args[1])
            return
        self.facts.append(c)
        self.pcache = {}
        self.poscache = {}
        neg_ = False
        d = c
        if d.op == 'not':
            neg_ = True
            d = d.args[0]
        if d.op in ('lt', 'le', 'eq') and isinstance(d.args[0], Term) and d.args[0].sort == 'R':
            mask = {'lt': NEG, 'le': NEG | ZER, 'eq': ZER}[d.op]
            if neg_:
                mask = ANY & ~mask
            self.rels.append((d, mask))
            may = self.maycache.get(d.id, ANY)
            nd = T.b_not(d)
            if isinstance(nd, Term) and nd.op in ('lt', 'le') and nd.id in self.maycache:
                k = self.maycache[nd.id]
                if nd.args[0] is d.args[1]:
                    k = (k & ZER) | (POS if k & NEG else 0) | (NEG if k & POS else 0)
                may &= k
            if may & mask == ZER and mask != ZER:
                self.zeros.append(T.sub(*d.args))
            if self.table.size(d) > self.BIG:
                return
            rel, p = self.cond_poly(d)
            self._assume_sign(p, mask)
            if mask == ZER:
                self._assume_eq(p)

    def learn(self, c, r):
        """record the sign of a proved relation"""
        if c.op in ('lt', 'le', 'eq') and isinstance(c.args[0], Term) and c.args[0].sort == 'R':
            mask = {'lt': NEG, 'le': NEG | ZER, 'eq': ZER}[c.op]
            self.rels.append((c, mask if r else ANY & ~mask))

    def _assume_sign(self, p, mask):
        if not p:
            return
        cc, m, a = self.factor(p)
        fac = list(m) + ([(a, 1)] if a is not None else [])
        if cc < 0:
            mask = (mask & ZER) | (POS if mask & NEG else 0) | (NEG if mask & POS else 0)
        # reduce by factors with known sign
        rest = []
        for i, e in fac:
            s = self.atom_mask(i)
            if e % 2 == 0 if isinstance(e, int) else True:
                if mask == ZER or (mask & ZER):
                    if s & ZER:
                        rest.append((i, e))
                    continue
                # strictly signed: the factor is non-zero
                if not isinstance(e, int):
                    self.signs[i] = s & POS
                else:
                    self.signs[i] = s & ~ZER
                continue
            if s == POS:
                continue
            if s == NEG:
                mask = (mask & ZER) | (POS if mask & NEG else 0) | (NEG if mask & POS else 0)
                continue
            if s == (POS | ZER) and not mask & ZER:
                self.signs[i] = POS
                continue
            rest.append((i, e))
        if len(rest) == 1 and isinstance(rest[0][1], int) and rest[0][1] % 2:
            i = rest[0][0]
            k = self.signs.get(i, ANY)
            self.signs[i] = k & mask
            if self.signs[i] == ZER and k != ZER and self.table.atoms[i].kind == 'P' and len(self.table.atoms[i].data) <= 4:
                self._assume_eq(self.table.atoms[i].data)
            self._bound_sign(i)
        elif len(rest) == 1 and mask == ZER:
            i = rest[0][0]
            self.signs[i] = self.signs.get(i, ANY) & ZER

    def _bound_sign(self, i):
        """x - c > 0 with c >= 0 gives x > 0 (and the mirrored cases)"""
        at = self.table.atoms[i]
        if at.kind != 'P' or len(at.data) != 2 or () not in at.data:
            return
        (m, (c, _)), = [x for x in at.data.items() if x[0] != ()]
        if len(m) != 1 or not isinstance(m[0][1], int) or m[0][1] % 2 == 0:
            return
        k, c0 = self.signs[i], at.data[()][0]
        if c < 0:
            c0, k = -c0, flip(k)
        # x + c0 (k) 0
        r = ANY
        if c0 < 0:
            r = POS if not k & NEG else ANY
        elif c0 > 0:
            r = NEG if not k & POS else ANY
        j = m[0][0]
        if r != ANY and r & self.atom_mask(j):
            self.signs[j] = self.signs.get(j, ANY) & r

    def _assume_eq(self, p):
        """use an equality as substitution  var := poly"""
        at = self.table.atoms
        if not p:
            return
        c, m, a = self.factor(p)
        cands = []
        if a is not None:
            p = at[a].data
        elif len(m) == 1:
            p = {((m[0][0], 1),): (1.0, 1.0)}
        else:
            return
        for mm, (cc, s) in p.items():
            if len(mm) == 1 and mm[0][1] == 1 and at[mm[0][0]].kind == 'v' and at[mm[0][0]].data.op == 'var':
                i = mm[0][0]
                vid = at[i].data.id
                if any(vid in self.table.atoms[j].deps for m2 in p if m2 != mm for j, e in m2):
                    continue
                cands.append((i, mm, cc))
        if not cands:
            return
        i, mm, cc = max(cands, key=lambda x: at[x[0]].data.id)
        rhs = {m2: (-v / cc, s2 / abs(cc)) for m2, (v, s2) in p.items() if m2 != mm}
        self.subst[at[i].data.id] = rhs
        self.memo = {}

    def _sign_of(self, p):
        if not p:
            return ZER
        k = self.poly_mask(p)
        if k in (NEG, ZER, POS):
            return k
        c, m, a = self.factor(p)
        if c == 0:
            return ZER
        fac = tuple(m) + (((a, 1),) if a is not None else ())
        k2 = self.mono_mask(tuple(sorted(fac)))
        if a is not None:
            # also the P atom itself through its polynomial
            pm = self.poly_mask(self.table.atoms[a].data)
            if pm != ANY:
                old = self.signs.get(a, ANY)
                self.signs[a] = old & pm
                k2 = self.mono_mask(tuple(sorted(fac)))
        if c < 0:
            k2 = (k2 & ZER) | (POS if k2 & NEG else 0) | (NEG if k2 & POS else 0)
        return k & k2

    def tsign(self, t):
        """possible signs of a term from the signs assumed for its subterms"""
        known = {}
        for d, mask in self.rels:
            x, y = d.args
            if y.op == 'c' and y.args[0] == 0:
                known[x.id] = known.get(x.id, ANY) & mask
            elif x.op == 'c' and x.args[0] == 0:
                known[y.id] = known.get(y.id, ANY) & flip(mask)
        memo = {}
        def go(t, depth):
            r = memo.get(t.id)
            if r is not None:
                return r
            k = known.get(t.id, ANY)
            if t.op == 'c':
                v = t.args[0]
                k = POS if v > 0 else (NEG if v < 0 else ZER)
            elif depth > 12:
                return k
            elif t.op == '+':
                a, b = go(t.args[0], depth + 1), go(t.args[1], depth + 1)
                if not (a & NEG) and not (b & NEG):
                    k &= POS | (ZER if a & ZER and b & ZER else 0)
                elif not (a & POS) and not (b & POS):
                    k &= NEG | (ZER if a & ZER and b & ZER else 0)
            elif t.op in ('*', '/'):
                if t.args[0] is t.args[1]:
                    k &= POS | ZER
                else:
                    a, b = go(t.args[0], depth + 1), go(t.args[1], depth + 1)
                    if t.op == '/':
                        b &= ~ZER
                    o = 0
                    for p in (NEG, ZER, POS):
                        for q in (NEG, ZER, POS):
                            if a & p and b & q:
                                o |= ZER if ZER in (p, q) else (POS if p == q else NEG)
                    k &= o
            elif t.op == 'fn' and t.args[0] == 'exp':
                k &= POS
            elif t.op == 'fn' and t.args[0] in ('sqrt', 'fabs'):
                k &= POS | ZER
            elif t.op == 'var':
                at = self.table.vmap.get(t.id)
                if at is not None:
                    k &= self.atom_mask(at.id)
            memo[t.id] = k
            return k
        return go(t, 0)

    def quick(self, c):
        """syntactic decision of a condition: True/False/None"""
        if isinstance(c, bool):
            return c
        if c.op == 'not':
            r = self.quick(c.args[0])
            return None if r is None else not r
        if c.op == 'and':
            a, b = self.quick(c.args[0]), self.quick(c.args[1])
            if a is False or b is False:
                return False
            return True if (a and b) else None
        if c.op == 'or':
            a, b = self.quick(c.args[0]), self.quick(c.args[1])
            if a or b:
                return True
            return False if (a is False and b is False) else None
        if c.op in ('lt', 'le', 'eq') and isinstance(c.args[0], Term) and c.args[0].sort == 'R':
            x, y = c.args
            k = ANY
            if y.op == 'c' and y.args[0] == 0:
                k = self.tsign(x)
            elif x.op == 'c' and x.args[0] == 0:
                k = flip(self.tsign(y))
            rel = c.op
            if k not in (POS, NEG, ZER, POS | NEG):
                rel, p = self.cond_poly(c)
                k &= self._sign_of(p)
            if k == 0:
                return None
            yes = {'lt': NEG, 'le': NEG | ZER, 'eq': ZER}[rel]
            if k & ~yes == 0:
                return True
            if k & yes == 0:
                return False
            return None
        # opaque
        for f in self.facts:
            if f is c:
                return True
            if isinstance(f, Term) and f.op == 'not' and f.args[0] is c:
                return False
        return None

    def unify(self, c):
        """decide a condition that is a constant multiple of an assumed one (proved by normal form)"""
        num = getattr(self.table, 'num', None)
        if isinstance(c, bool) or not self.rels or num is None:
            return None
        if c.op == 'not':
            r = self.unify(c.args[0])
            return None if r is None else not r
        if not (c.op in ('lt', 'le', 'eq') and isinstance(c.args[0], Term) and c.args[0].sort == 'R'):
            return None
        d = num.diff(c)
        if d is None:
            return None
        yes = {'lt': NEG, 'le': NEG | ZER, 'eq': ZER}[c.op]
        may = ANY
        dc = None
        for f, mask in self.rels:
            df = num.diff(f)
            if df is None:
                continue
            with np.errstate(all='ignore'):
                r = d / df
            r = r[np.isfinite(r)]
            if len(r) < 4:
                cand = [1.0, -1.0]
            else:
                k = float(np.median(r))
                if k == 0 or np.mean(np.abs(r - k) <= 1e-6 * abs(k)) < 0.7:
                    continue
                kr = round(k * 5040) / 5040
                cand = [kr if abs(kr - k) < 1e-8 * abs(k) and kr else k]
            if dc is None:
                dc = T.sub(*c.args)
            dfm = T.sub(*f.args)
            for k in cand:
                if k == 1.0:
                    ok = self.equal(dc, dfm)
                elif k == -1.0:
                    ok = self.equal(dc, T.neg(dfm))
                else:
                    ok = self.equal(dc, T.mul(T.C(k), dfm))
                if not ok:
                    continue
                may &= mask if k > 0 else ((mask & ZER) | (POS if mask & NEG else 0) | (NEG if mask & POS else 0))
        if may & ~yes == 0:
            return True
        if may & yes == 0:
            return False
        if may != ANY:
            self.maycache[c.id] = may
        return None

    def kill_zeros(self, a, b):
        """replace subterms known to vanish by 0"""
        num = getattr(self.table, 'num', None)
        if not self.zeros or num is None:
            return a, b
        m = {}
        for z in self.zeros:
            zv = num.ev(z)
            if zv is None:
                continue
            for t in dag(a) + dag(b):
                if t in m or t.op in ('c', 'var') or t.sort != 'R':
                    continue
                x = num.ev(t)
                if x is None:
                    continue
                with np.errstate(all='ignore'):
                    r = x / zv
                r = r[np.isfinite(r)]
                if len(r) < 4:
                    continue
                k = float(np.median(r))
                if k == 0 or np.mean(np.abs(r - k) <= 1e-6 * abs(k)) < 0.9:
                    continue
                if self.equal(t, z if k == 1.0 else (T.neg(z) if k == -1.0 else T.mul(T.C(k), z))):
                    m[t] = T.C(0)
        if not m:
            return a, b
        return T.substitute(a, m), T.substitute(b, m)

    def decide(self, c, timeout=400):
        r = self.quick(c)
        if r is not None:
            return r
        k = ('d', c.id)
        if k in self.pcache:
            return self.pcache[k]
        r = None
        if self.entails(c, timeout):
            r = True
        elif self.entails(b_not(c), timeout):
            r = False
        self.pcache[k] = r
        return r

    def infeasible(self, timeout=500):
        if any(f is False for f in self.facts):
            return True
        if any(v == 0 for v in self.signs.values()):
            return True
        return self.z3_refutes([], timeout)

    def entails(self, c, timeout=1000):
        if isinstance(c, bool):
            return c or self.infeasible(timeout)
        r = self.quick(c)
        if r is True:
            return True
        if self.table.size(c) > self.BIG:
            return False
        s = self.solver(timeout)
        tr = self.tr
        s.add(z3.Not(tr.cond(c)))
        return self.check(s, tr) == z3.unsat

    def model(self, c=None, timeout=3000):
        """candidate inputs satisfying the facts and the negation of c (opaque functions are free)"""
        s = self.solver(timeout)
        tr = self.tr
        if c is not None and not isinstance(c, bool):
            s.add(z3.Not(tr.cond(c)))
        if self.check(s, tr) != z3.sat:
            return None
        mo = s.model()
        out = {}
        def num(v):
            v = mo.eval(v, model_completion=True)
            try:
                if z3.is_algebraic_value(v):
                    v = v.approx(20)
                if z3.is_int_value(v):
                    return v.as_long()
                return float(v.as_fraction())
            except Exception:
                return None
        for i, v in tr.vars.items():
            a = self.table.atoms[i]
            if a.kind == 'v' and a.data.op == 'var':
                x = num(v)
                if x is not None:
                    out[a.data.args[0]] = x
        for t, v in tr.iterm.items():
            if t.op == 'var':
                x = num(v)
                if x is not None:
                    out[t.args[0]] = x
        # substituted variables
        for vid, p in self.subst.items():
            pass
        return out

    def z3_refutes(self, polys, timeout):
        s = self.solver(timeout)
        for rel, p in polys:
            e = self.tr.poly(p)
            s.add(e < 0 if rel == 'lt' else (e <= 0 if rel == 'le' else e == 0))
        return self.check(s, self.tr) == z3.unsat

    last_timeout = 0
    def solver(self, timeout):
        self.last_timeout = timeout
        s = z3.Solver()
        s.set('timeout', int(timeout))
        # translated facts are kept and shared with later contexts until a substitution changes normal forms
        b = self.zbase
        if b is None or b[0] != len(self.subst) or b[1] > len(self.facts):
            b = (len(self.subst), 0, Z3Tr(self), ())
        if b[1] < len(self.facts):
            tr = b[2].copy(self)
            new = []
            for f in self.facts[b[1]:]:
                if isinstance(f, bool):
                    if not f:
                        new.append(z3.BoolVal(False))
                    continue
                if self.table.size(f) > self.BIG:
                    continue
                new.append(tr.cond(f))
            new += tr.ax
            tr.ax = []
            b = (b[0], len(self.facts), tr, b[3] + ((z3.And(new),) if new else ()))
            self.zbase = b
        self.tr = b[2].copy(self)
        for e in b[3]:
            s.add(e)
        for i, k in self.tr.late_signs():
            s.add(k)
        return s

    def check(self, s, tr):
        for ax in tr.flush():
            s.add(ax)
        t0 = time.time()
        r = s.check()
        if r == z3.unknown and self.last_timeout >= 3000:
            # a second procedure: cylindrical algebraic decomposition on the nonlinear real constraints
            try:
                s2 = z3.Then('simplify', 'propagate-values', 'solve-eqs', 'qfnra-nlsat').solver()
                s2.set('timeout', int(self.last_timeout))
                s2.add(s.assertions())
                r2 = s2.check()
                if r2 == z3.unsat:
                    r = r2
                    self.stats['nlsat'] = self.stats.get('nlsat', 0) + 1
            except z3.Z3Exception:
                pass
        dt = time.time() - t0
        self.last_check = r
        self.stats['z3'] += 1
        self.stats['z3_time'] += dt
        return r

class Z3Tr(object):
    """translation of normal forms to z3 with axioms for the atoms that occur"""
    def __init__(self, ctx):
        self.ctx = ctx
        self.ax = []
        self.vars = {}
        self.roots = {}
        self.invs = {}
        self.imemo = {}
        self.iterm = {}
        self.given = {}
    def copy(self, ctx):
        t = Z3Tr(ctx)
        t.vars, t.roots, t.invs = dict(self.vars), dict(self.roots), dict(self.invs)
        t.imemo, t.iterm, t.given = dict(self.imemo), dict(self.iterm), dict(self.given)
        return t
    def sign_axiom(self, v, s):
        return {POS: v > 0, POS | ZER: v >= 0, NEG: v < 0, NEG | ZER: v <= 0}[s]
    def late_signs(self):
        """signs learned after an atom was translated"""
        for i, g in self.given.items():
            s = self.ctx.signs.get(i, ANY)
            if s != g and s in (POS, POS | ZER, NEG, NEG | ZER):
                yield i, self.sign_axiom(self.vars[i], s)
    def flush(self):
        # pairwise monotonicity of logs and exps
        logs = [(i, a) for i, a in ((i, self.ctx.table.atoms[i]) for i in list(self.vars)) if a.kind == 'L']
        if len(logs) <= 6:
            for x in range(len(logs)):
                i, a = logs[x]
                u = self.atom(a.data)
                self.ax.append(z3.Implies(u >= 1, self.vars[i] >= 0))
                self.ax.append(z3.Implies(u <= 1, self.vars[i] <= 0))
                self.ax.append(self.vars[i] <= u - 1)
                for y in range(x):
                    j, b = logs[y]
                    w = self.atom(b.data)
                    self.ax.append(z3.Implies(u < w, self.vars[i] < self.vars[j]))
                    self.ax.append(z3.Implies(u > w, self.vars[i] > self.vars[j]))
        exps = [(i, a) for i, a in ((i, self.ctx.table.atoms[i]) for i in list(self.vars)) if a.kind == 'E']
        if len(exps) <= 4:
            for i, a in exps:
                u = self.mono(a.data)
                self.ax.append(self.vars[i] >= u + 1)
                self.ax.append(z3.Implies(u <= 0, self.vars[i] <= 1))
                self.ax.append(z3.Implies(u < 0, self.vars[i] < 1))
        r = self.ax
        self.ax = []
        return r
    def num(self, c):
        if c == int(c) and abs(c) < 1e15:
            return z3.RealVal(int(c))
        f = Fraction(c)
        h = f.limit_denominator(10 ** 4)
        g = f.limit_denominator(10 ** 6)
        if abs(float(h) - c) <= 1e-13 * abs(c):
            f = h
        elif abs(float(g) - c) <= 1e-15 * abs(c):
            f = g
        return z3.Q(f.numerator, f.denominator)
    def poly(self, p):
        if not p:
            return z3.RealVal(0)
        ts = []
        for m, (c, s) in p.items():
            e = self.mono(m)
            if e is None:
                ts.append(self.num(c))
            elif c == 1:
                ts.append(e)
            else:
                ts.append(self.num(c) * e)
        return z3.Sum(ts) if len(ts) > 1 else ts[0]
    def mono(self, m):
        fs = []
        for i, e in m:
            fs.append(self.power(i, e))
        if not fs:
            return None
        r = fs[0]
        for f in fs[1:]:
            r = r * f
        return r
    def atom(self, i):
        v = self.vars.get(i)
        if v is not None:
            return v
        a = self.ctx.table.atoms[i]
        if a.kind == 'P':
            self.vars[i] = v = z3.Real('a%d' % i)
            self.ax.append(v == self.poly(a.data))
            return v
        v = z3.Real('a%d' % i)
        self.vars[i] = v
        if a.kind == 'E':
            self.ax.append(v > 0)
        elif a.kind == 'L':
            self.ax.append(self.atom(a.data) > 0)
        elif a.kind == 'f':
            n = a.data[0]
            if n in ('sin', 'cos'):
                o = 'cos' if n == 'sin' else 'sin'
                j = self.ctx.table.f(o, a.data[1])
                self.ax.append(v * v + self.atom(j) * self.atom(j) == 1)
                self.ax.append(z3.And(v >= -1, v <= 1))
            elif n == 'fabs':
                u = self.poly(a.data[1][0])
                self.ax.append(z3.Or(z3.And(u >= 0, v == u), z3.And(u <= 0, v == -u)))
            elif n == 'acos':
                u = self.poly(a.data[1][0])
                self.ax.append(z3.And(v >= 0, v <= self.num(math.pi)))
                self.ax.append(z3.And(u >= -1, u <= 1))
            elif n in ('asin', 'atan'):
                self.ax.append(z3.And(v >= self.num(-math.pi / 2), v <= self.num(math.pi / 2)))
                u = self.poly(a.data[1][0])
                self.ax.append(z3.Implies(u >= 0, v >= 0))
                self.ax.append(z3.Implies(u > 0, v > 0))
                self.ax.append(z3.Implies(u <= 0, v <= 0))
            elif n == 'atan2':
                self.ax.append(z3.And(v >= self.num(-math.pi), v <= self.num(math.pi)))
                u = self.poly(a.data[1][0])
                self.ax.append(z3.Implies(u > 0, v > 0))
                self.ax.append(z3.Implies(u < 0, v < 0))
            elif n == 'floor':
                u = self.poly(a.data[1][0])
                k = z3.Int('fl%d' % i)
                self.ax.append(v == z3.ToReal(k))
                self.ax.append(z3.And(v <= u, u < v + 1))
            elif n == 'trunc':
                u = self.poly(a.data[1][0])
                k = z3.Int('fl%d' % i)
                self.ax.append(v == z3.ToReal(k))
                self.ax.append(z3.Implies(u >= 0, z3.And(v <= u, u < v + 1, v >= 0)))
                self.ax.append(z3.Implies(u <= 0, z3.And(v >= u, u > v - 1, v <= 0)))
        elif a.kind == 'v':
            t = a.data
            if t.op == 'toreal':
                self.ax.append(v == z3.ToReal(self.int(t.args[0])))
        s = self.ctx.signs.get(i, ANY)
        self.given[i] = s
        if s in (POS, POS | ZER, NEG, NEG | ZER):
            self.ax.append(self.sign_axiom(v, s))
        return v
    def power(self, i, e):
        if isinstance(e, Fraction):
            if e.denominator > 6:
                # opaque positive power
                k = (i, e)
                r = self.roots.get(k)
                if r is None:
                    r = z3.Real('pw%d_%d_%d' % (i, e.numerator, e.denominator))
                    u = self.atom(i)
                    self.ax.append(z3.And(u >= 0, r >= 0))
                    self.ax.append(z3.Implies(u > 0, r > 0))
                    if e > 0:
                        self.ax.append(z3.Implies(u >= 1, r >= 1))
                        self.ax.append(z3.Implies(u <= 1, r <= 1))
                    else:
                        self.ax.append(z3.Implies(u >= 1, r <= 1))
                        self.ax.append(z3.Implies(u <= 1, r >= 1))
                    self.roots[k] = r
                return r
            q = e.denominator
            r = self.roots.get((i, q))
            if r is None:
                r = z3.Real('rt%d_%d' % (i, q))
                self.roots[(i, q)] = r
                u = self.atom(i)
                pr = r
                for _ in range(q - 1):
                    pr = pr * r
                self.ax.append(z3.And(r >= 0, pr == u))
            return self._ip(r, e.numerator, (i, q))
        return self._ip(self.atom(i), e, (i, 1))
    def _ip(self, x, n, key):
        if n < 0:
            iv = self.invs.get(key)
            if iv is None:
                iv = z3.Real('iv%d_%d' % key)
                self.invs[key] = iv
                self.ax.append(iv * x == 1)
            x = iv
            n = -n
        r = x
        if n > 12:
            return z3.Real('bigpow_%s_%d' % (x, n))
        for _ in range(n - 1):
            r = r * x
        return r
    def int(self, t):
        if isinstance(t, int):
            return z3.IntVal(t)
        r = self.imemo.get(t.id)
        if r is not None:
            return r
        if t.op == 'iadd':
            r = self.int(t.args[0]) + self.int(t.args[1])
        elif t.op == 'isub':
            r = self.int(t.args[0]) - self.int(t.args[1])
        elif t.op == 'imul' and isinstance(t.args[1], int):
            r = self.int(t.args[0]) * t.args[1]
        elif t.op == 'toint':
            r = z3.Int('ti%d' % t.id)
            u = self.poly(self.ctx.nf(t.args[0]))
            self.ax.append(z3.Implies(u >= 0, z3.And(z3.ToReal(r) <= u, u < z3.ToReal(r) + 1)))
            self.ax.append(z3.Implies(u <= 0, z3.And(z3.ToReal(r) >= u, u > z3.ToReal(r) - 1)))
        else:
            r = z3.Int('i%d' % t.id)
            if t.op == 'var' and len(t.args) > 2:
                self.ax.append(z3.And(r >= t.args[1], r <= t.args[2]))
        self.imemo[t.id] = r
        self.iterm[t] = r
        return r
    def cond(self, c):
        if isinstance(c, bool):
            return z3.BoolVal(c)
        o = c.op
        if o == 'not':
            return z3.Not(self.cond(c.args[0]))
        if o == 'and':
            return z3.And(self.cond(c.args[0]), self.cond(c.args[1]))
        if o == 'or':
            return z3.Or(self.cond(c.args[0]), self.cond(c.args[1]))
        if o in ('lt', 'le', 'eq') and isinstance(c.args[0], Term) and c.args[0].sort == 'R':
            rel, p = self.ctx.cond_poly(c)
            # clear known-positive denominators
            p = self.square(self.strip(self.ctx_clear(p)))
            e = self.poly(p)
            return e < 0 if rel == 'lt' else (e <= 0 if rel == 'le' else e == 0)
        if o in ('ieq', 'ilt', 'ile'):
            a, b = self.int(c.args[0]), self.int(c.args[1])
            return a == b if o == 'ieq' else (a < b if o == 'ilt' else a <= b)
        return z3.Bool('b%d' % c.id)
    def square(self, p):
        """a difference of two non-negative terms with roots has the sign of the difference of their squares"""
        if len(p) != 2 or not any(e.__class__ is Fraction for m in p for i, e in m):
            return p
        (m, (c, s)), (n, (d, u)) = p.items()
        if any(e.__class__ is Fraction and e.denominator != 2 for q in p for i, e in q):
            return p
        a, b = self.ctx.mono_mask(m), self.ctx.mono_mask(n)
        if a & NEG or b & NEG or not (c < 0) != (d < 0):
            return p
        r = {}
        for k, v in ((m, c), (n, d)):
            w = v * abs(v)
            r = p_add(r, {mono_pow(k, 2): (w, abs(w))})
        r = self.ctx_clear(r)
        q = self.ctx.expand_P(r, 500)
        return self.strip(r if q is None else q)
    def strip(self, p):
        """divide p by common factors of known sign (relation to zero preserved)"""
        if not p:
            return p
        mins = None
        for m in p:
            d = {i: e for i, e in m if e > 0}
            mins = d if mins is None else {i: min(e, d[i]) for i, e in mins.items() if i in d}
            if not mins:
                return p
        div, sign = [], 1
        for i, e in mins.items():
            k = self.ctx.atom_mask(i)
            if k == POS:
                div.append((i, ex_norm(-e)))
            elif k == NEG and isinstance(e, int):
                div.append((i, -e))
                if e % 2:
                    sign = -sign
        if not div:
            return p
        q = p_mulmono(p, tuple(sorted(div)))
        return q if sign > 0 else p_scale(q, -1.0)
    def ctx_clear(self, p):
        """multiply p by known-positive denominators (sign preserving)"""
        mins = {}
        for m in p:
            for i, e in m:
                if e < mins.get(i, 0):
                    mins[i] = e
        mult = []
        for i, e in mins.items():
            if self.ctx.atom_mask(i) == POS:
                mult.append((i, ex_norm(-e)))
            elif isinstance(e, int):
                k = -e
                if k % 2:
                    k += 1
                mult.append((i, k))
        if not mult:
            return p
        q = p_mulmono(p, tuple(sorted(mult)))
        r = self.ctx.expand_P(q, 500)
        return r if r is not None else q
