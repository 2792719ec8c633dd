"""Hash-consed terms: reals (mathematical), integers, booleans.

A term is a Python object with op/args; concrete integers are plain Python ints,
concrete booleans plain Python bools.  Real constants are Term('c', (Fraction,)).
"""
from fractions import Fraction
import math
import mpmath

mpmath.mp.dps = 50

class Unsupported(Exception):
    pass

class Term(object):
    __slots__ = ('op', 'args', 'id', 'sort', '__weakref__')
    def __repr__(self):
        return show(self)

_table = {}
_count = [0]

def mk(op, args, sort):
    k = (op, args, sort)
    t = _table.get(k)
    if t is None:
        t = Term()
        t.op = op
        t.args = args
        t.sort = sort
        _count[0] += 1
        t.id = _count[0]
        _table[k] = t
    return t

# ---------------------------------------------------------------- constants
def _shrink(f):
    n, d = f.numerator, f.denominator
    if n.bit_length() > 600 or d.bit_length() > 600:
        with mpmath.workdps(80):
            m = mpmath.mpf(n) / mpmath.mpf(d)
            return mpf_frac(m)
    return f

def mpf_frac(m):
    sign, man, exp, bc = m._mpf_
    man = int(man)
    if sign:
        man = -man
    if exp >= 0:
        return Fraction(man << exp)
    return Fraction(man, 1 << (-exp))

def frac_mpf(f):
    return mpmath.mpf(f.numerator) / mpmath.mpf(f.denominator)

def C(x):
    if isinstance(x, float):
        if x != x:
            return NAN
        if math.isinf(x):
            return INF if x > 0 else NINF
    f = Fraction(x)
    return mk('c', (f,), 'R')

INF = mk('inf', (), 'R')
NINF = mk('ninf', (), 'R')
NAN = mk('nan', (), 'R')
ZERO = C(0)
ONE = C(1)
MONE = C(-1)

def is_c(t):
    return t.op == 'c'

def cval(t):
    return t.args[0]

def special(t):
    return t.op in ('inf', 'ninf', 'nan')

_fresh = [0]
def var(name, sort='R'):
    return mk('var', (name,), sort)

def fresh(name, sort='R'):
    _fresh[0] += 1
    return mk('var', ('%s!%d' % (name, _fresh[0]),), sort)

def reset_fresh():
    _fresh[0] = 0

# ---------------------------------------------------------------- reals
def sgn_c(t):
    if t.op == 'c':
        v = t.args[0]
        return (v > 0) - (v < 0)
    return None

def add(a, b):
    if a.op == 'c':
        if b.op == 'c':
            return C(_shrink(a.args[0] + b.args[0]))
        if a.args[0] == 0:
            return b
    elif b.op == 'c' and b.args[0] == 0:
        return a
    if special(a) or special(b):
        if a.op == 'nan' or b.op == 'nan':
            return NAN
        if special(a) and special(b):
            return a if a is b else NAN
        return a if special(a) else b
    return mk('+', (a, b), 'R')

def neg(a):
    if a.op == 'c':
        return C(-a.args[0])
    if a.op == 'inf':
        return NINF
    if a.op == 'ninf':
        return INF
    if a.op == 'nan':
        return NAN
    if a.op == '*' and a.args[0].op == 'c':
        return mul(C(-a.args[0].args[0]), a.args[1])
    return mk('*', (MONE, a), 'R')

def sub(a, b):
    if a is b and not special(a):
        return ZERO
    return add(a, neg(b))

def mul(a, b):
    if a.op == 'c':
        if b.op == 'c':
            return C(_shrink(a.args[0] * b.args[0]))
        v = a.args[0]
        if not special(b):
            if v == 0:
                return ZERO
            if v == 1:
                return b
    elif b.op == 'c':
        return mul(b, a)
    if special(a) or special(b):
        if a.op == 'nan' or b.op == 'nan':
            return NAN
        if not special(a):
            a, b = b, a
        # a special
        s = 1 if a.op == 'inf' else -1
        if special(b):
            s2 = 1 if b.op == 'inf' else -1
        else:
            s2 = sgn_c(b)
            if s2 is None:
                raise Unsupported('inf * symbolic')
            if s2 == 0:
                return NAN
        return INF if s * s2 > 0 else NINF
    return mk('*', (a, b), 'R')

class DivByZero(Exception):
    pass

def div(a, b):
    if special(a) or special(b):
        if a.op == 'nan' or b.op == 'nan':
            return NAN
        if special(a) and special(b):
            return NAN
        if special(b):
            return ZERO
        s2 = sgn_c(b)
        if s2 is None:
            raise Unsupported('inf / symbolic')
        s = 1 if a.op == 'inf' else -1
        return INF if s * (s2 or 1) > 0 else NINF
    if b.op == 'c':
        if b.args[0] == 0:
            if a.op == 'c':
                s = sgn_c(a)
                return NAN if s == 0 else (INF if s > 0 else NINF)
            return mk('div0', (a,), 'R')
        if a.op == 'c':
            return C(_shrink(a.args[0] / b.args[0]))
        return mul(C(1 / b.args[0]), a)
    if a.op == 'c' and a.args[0] == 0:
        return ZERO
    return mk('/', (a, b), 'R')

def _mpfun(name, *xs):
    xs = [frac_mpf(x) for x in xs]
    try:
        if name == 'sqrt':
            if xs[0] < 0:
                return None
            r = mpmath.sqrt(xs[0])
        elif name == 'log':
            if xs[0] <= 0:
                return None
            r = mpmath.log(xs[0])
        elif name == 'pow':
            r = mpmath.power(xs[0], xs[1])
        elif name in ('exp', 'sin', 'cos', 'tan', 'atan', 'sinh', 'cosh', 'tanh', 'cbrt', 'erf', 'asinh', 'gamma'):
            r = getattr(mpmath, name)(xs[0])
            if name in ('sin', 'cos', 'tan') and abs(r) < 1e-15:
                r = 0   # a multiple of pi/2 rounded to double
        elif name in ('asin', 'acos'):
            if abs(xs[0]) > 1:
                return None
            r = getattr(mpmath, name)(xs[0])
        elif name == 'atan2':
            r = mpmath.atan2(xs[0], xs[1])
        elif name == 'floor':
            r = mpmath.floor(xs[0])
        elif name == 'ceil':
            r = mpmath.ceil(xs[0])
        elif name == 'rint':
            r = mpmath.nint(xs[0])
        elif name == 'trunc':
            r = mpmath.floor(xs[0]) if xs[0] >= 0 else mpmath.ceil(xs[0])
        elif name == 'round':
            r = mpmath.floor(abs(xs[0]) + mpmath.mpf('0.5')) * (1 if xs[0] >= 0 else -1)
        elif name == 'fmod':
            q = xs[0] / xs[1]
            q = mpmath.floor(q) if q >= 0 else mpmath.ceil(q)
            r = xs[0] - q * xs[1]
        else:
            return None
    except (ValueError, ZeroDivisionError):
        return None
    if isinstance(r, mpmath.mpc):
        return None
    if not mpmath.isfinite(r):
        return None
    return mpf_frac(mpmath.mpf(r))

def fn(name, *args):
    if any(a.op == 'nan' for a in args):
        return NAN
    if any(special(a) for a in args):
        a = args[0]
        if name == 'exp':
            return INF if a.op == 'inf' else ZERO
        if name in ('log', 'sqrt') and a.op == 'inf':
            return INF
        if name in ('erf', 'tanh'):
            return C(1) if a.op == 'inf' else C(-1)
        if name == 'erfc':
            return ZERO if a.op == 'inf' else C(2)
        if name == 'pow' and a.op == 'inf' and args[1].op == 'c':
            s = sgn_c(args[1])
            return INF if s > 0 else (ONE if s == 0 else ZERO)
        raise Unsupported('%s of inf' % name)
    if all(a.op == 'c' for a in args):
        xs = [a.args[0] for a in args]
        # exact cases first
        if name == 'pow' and xs[1].denominator == 1 and abs(xs[1]) <= 64:
            if xs[0] == 0 and xs[1] < 0:
                return INF
            return C(_shrink(xs[0] ** int(xs[1])))
        if name == 'sqrt':
            n, d = xs[0].numerator, xs[0].denominator
            if n >= 0:
                rn, rd = math.isqrt(n), math.isqrt(d)
                if rn * rn == n and rd * rd == d:
                    return C(Fraction(rn, rd))
        if name == 'log' and xs[0] == 0:
            return NINF
        r = _mpfun(name, *xs)
        if r is None:
            if name in ('sqrt', 'log', 'acos', 'asin', 'pow'):
                if name == 'pow' and xs[0] == 0:
                    return ZERO if xs[1] > 0 else INF
                return NAN
            raise Unsupported('constant %s%s' % (name, xs))
        return C(r)
    if name == 'pow' and args[1].op == 'c':
        e = args[1].args[0]
        if e == 0:
            return ONE
        if e == 1:
            return args[0]
    return mk('fn', (name,) + args, 'R')

def uf(name, args, sort='R'):
    return mk('uf', (name,) + tuple(args), sort)

# ---------------------------------------------------------------- booleans
def b_not(c):
    if isinstance(c, bool):
        return not c
    if c.op == 'not':
        return c.args[0]
    if c.op == 'lt':
        return mk('le', (c.args[1], c.args[0]), 'B')
    if c.op == 'le':
        return mk('lt', (c.args[1], c.args[0]), 'B')
    return mk('not', (c,), 'B')

def b_and(a, b):
    if isinstance(a, bool):
        return b if a else False
    if isinstance(b, bool):
        return a if b else False
    if a is b:
        return a
    return mk('and', (a, b), 'B')

def b_or(a, b):
    if isinstance(a, bool):
        return True if a else b
    if isinstance(b, bool):
        return True if b else a
    if a is b:
        return a
    return mk('or', (a, b), 'B')

def b_xor(a, b):
    if isinstance(a, bool):
        return b_not(b) if a else b
    if isinstance(b, bool):
        return b_not(a) if b else a
    return b_or(b_and(a, b_not(b)), b_and(b_not(a), b))

def lt(a, b):
    if a.op == 'nan' or b.op == 'nan':
        return False
    if special(a) or special(b):
        if a is b:
            return False
        return a.op == 'ninf' or b.op == 'inf'
    if a.op == 'c' and b.op == 'c':
        return a.args[0] < b.args[0]
    if a is b:
        return False
    return mk('lt', (a, b), 'B')

def le(a, b):
    if a.op == 'nan' or b.op == 'nan':
        return False
    if special(a) or special(b):
        if a is b:
            return True
        return a.op == 'ninf' or b.op == 'inf'
    if a.op == 'c' and b.op == 'c':
        return a.args[0] <= b.args[0]
    if a is b:
        return True
    return mk('le', (a, b), 'B')

def eq(a, b):
    if a.op == 'nan' or b.op == 'nan':
        return False
    if a is b:
        return True
    if special(a) or special(b):
        return False
    if a.op == 'c' and b.op == 'c':
        return a.args[0] == b.args[0]
    if a.id > b.id:
        a, b = b, a
    return mk('eq', (a, b), 'B')

def is_nan_possible(t):
    return t.op == 'nan'

# ---------------------------------------------------------------- printing
def show(t, depth=6):
    if not isinstance(t, Term):
        return repr(t)
    if t.op == 'c':
        f = t.args[0]
        if f.denominator == 1 and abs(f) < 10**15:
            return str(f.numerator)
        return repr(float(f)) if abs(f) < Fraction(10)**300 else str(f)
    if t.op == 'var':
        return t.args[0]
    if t.op in ('inf', 'ninf', 'nan'):
        return t.op
    if depth <= 0:
        return '..'
    d = depth - 1
    if t.op in ('+', '*', '/', 'lt', 'le', 'eq', 'and', 'or'):
        o = {'lt': '<', 'le': '<=', 'eq': '==', 'and': '&&', 'or': '||'}.get(t.op, t.op)
        return '(' + (' %s ' % o).join(show(a, d) for a in t.args) + ')'
    if t.op in ('fn', 'uf'):
        return '%s(%s)' % (t.args[0], ', '.join(show(a, d) for a in t.args[1:]))
    if t.op == 'not':
        return '!' + show(t.args[0], d)
    return '%s(%s)' % (t.op, ', '.join(show(a, d) if isinstance(a, Term) else str(a)[:30] for a in t.args))

def free_vars(t, acc=None, seen=None):
    if acc is None:
        acc = set()
        seen = set()
    st = [t]
    while st:
        x = st.pop()
        if not isinstance(x, Term) or x.id in seen:
            continue
        seen.add(x.id)
        if x.op == 'var':
            acc.add(x)
        for a in x.args:
            if isinstance(a, Term):
                st.append(a)
            elif isinstance(a, tuple):
                for b in a:
                    if isinstance(b, Term):
                        st.append(b)
    return acc

def substitute(t, m, memo=None):
    """replace terms (by identity) according to dict m: Term->Term"""
    if memo is None:
        memo = {}
    if not isinstance(t, Term):
        if isinstance(t, tuple):
            return tuple(substitute(x, m, memo) for x in t)
        return t
    r = m.get(t)
    if r is not None:
        return r
    r = memo.get(t.id)
    if r is not None:
        return r
    if not any(isinstance(a, (Term, tuple)) for a in t.args):
        r = t
    else:
        na = tuple(substitute(a, m, memo) for a in t.args)
        if all(x is y for x, y in zip(na, t.args)):
            r = t
        else:
            r = rebuild(t.op, na, t.sort)
    memo[t.id] = r
    return r

def rebuild(op, a, sort):
    if op == '+':
        return add(*a)
    if op == '*':
        return mul(*a)
    if op == '/':
        return div(*a)
    if op == 'fn':
        return fn(*a)
    if op == 'lt':
        return lt(*a)
    if op == 'le':
        return le(*a)
    if op == 'eq':
        return eq(*a) if isinstance(a[0], Term) and a[0].sort == 'R' else mk(op, a, sort)
    if op == 'not':
        return b_not(*a)
    if op == 'and':
        return b_and(*a)
    if op == 'or':
        return b_or(*a)
    return mk(op, a, sort)
