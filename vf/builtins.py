"""Models of runtime / library functions (part of the trusted base)."""
import os, sys, re, struct
from . import terms as T
from .terms import Term, Unsupported, C, mk
from .prep import UNDEF
from . import exec as X
from .exec import builtin, BUILTIN, PENDING, Throw, PathEnd, LIBM1, LIBM2, M64

def _libm1(name):
    def f(e, st, a, ins):
        x = a[0]
        if name == 'erfc':
            return T.sub(T.ONE, T.fn('erf', x))
        if name == 'tgamma':
            return T.fn('gamma', x)
        if name == 'nearbyint':
            return T.fn('rint', x)
        return T.fn(name, x)
    return f
for _n in LIBM1:
    BUILTIN[_n] = _libm1(_n)
def _libm2(name):
    return lambda e, st, a, ins: T.fn(name, a[0], a[1])
for _n in LIBM2:
    BUILTIN[_n] = _libm2(_n)

def b_fabs(e, st, a, ins):
    x = a[0]
    if x.op == 'c':
        return C(abs(x.args[0]))
    if T.special(x):
        return T.INF if x.op != 'nan' else x
    c = T.lt(x, T.ZERO)
    if e.nosplit and not isinstance(c, bool) and st.ctx.quick(c) is None:
        return T.fn('fabs', x)
    if e.decide(st, c):
        return T.neg(x)
    return x
BUILTIN['fabs'] = b_fabs
def b_fmax(e, st, a, ins):
    if a[0].op == 'nan':
        return a[1]
    if a[1].op == 'nan':
        return a[0]
    return a[1] if e.decide(st, T.lt(a[0], a[1])) else a[0]
def b_fmin(e, st, a, ins):
    if a[0].op == 'nan':
        return a[1]
    if a[1].op == 'nan':
        return a[0]
    return a[1] if e.decide(st, T.lt(a[1], a[0])) else a[0]
BUILTIN['fmax'] = b_fmax
BUILTIN['fmin'] = b_fmin
def b_copysign(e, st, a, ins):
    m = b_fabs(e, st, a[:1], ins)
    return T.neg(m) if e.decide(st, T.lt(a[1], T.ZERO)) else m
BUILTIN['copysign'] = b_copysign

def _round_int(name):
    def f(e, st, a, ins):
        return e.cast(st, 'fptosi', 'double', T.fn(name, a[0]), ('i', 64))
    return f
BUILTIN['lround'] = _round_int('round')
BUILTIN['llround'] = _round_int('round')
BUILTIN['lrint'] = _round_int('rint')

def intrinsic(name):
    n = name[5:]
    if n.startswith('experimental.constrained.'):
        k = n[len('experimental.constrained.'):]
        op = k.split('.')[0]
        if op in ('fadd', 'fsub', 'fmul', 'fdiv'):
            g = {'fadd': T.add, 'fsub': T.sub, 'fmul': T.mul, 'fdiv': T.div}[op]
            if op == 'fdiv':
                return lambda e, st, a, ins: e.fdiv(st, a[0], a[1])
            if op == 'fmul':
                return lambda e, st, a, ins: e.fmul(st, a[0], a[1])
            return lambda e, st, a, ins: g(a[0], a[1])
        if op == 'frem':
            return lambda e, st, a, ins: T.fn('fmod', a[0], a[1])
        if op in ('fcmp', 'fcmps'):
            return lambda e, st, a, ins: e.fcmp(a[2][1], a[0], a[1])
        if op in ('fmuladd', 'fma'):
            return lambda e, st, a, ins: T.add(T.mul(a[0], a[1]), a[2])
        if op in ('sitofp', 'uitofp'):
            bits = int(k.rsplit('.i', 1)[1])
            return lambda e, st, a, ins: e.cast(st, op, ('i', bits), a[0], 'double')
        if op in ('fptosi', 'fptoui'):
            bits = int(re.search(r'\.i(\d+)', k).group(1))
            return lambda e, st, a, ins: e.cast(st, op, 'double', a[0], ('i', bits))
        if op in ('fpext', 'fptrunc'):
            return lambda e, st, a, ins: a[0]
        if op in ('maxnum',):
            return b_fmax
        if op in ('minnum',):
            return b_fmin
        if op in LIBM1:
            return _libm1(op)
        if op in LIBM2:
            return _libm2(op)
        if op in ('lround', 'llround', 'lrint'):
            return BUILTIN[op]
        if op == 'powi':
            return lambda e, st, a, ins: T.fn('pow', a[0], e.cast(st, 'sitofp', ('i', 32), a[1], 'double'))
        raise Unsupported(name)
    op = n.split('.')[0]
    if op in ('lifetime', 'dbg', 'assume', 'donothing', 'invariant', 'stackrestore', 'prefetch', 'va_start', 'va_end', 'experimental'):
        return lambda e, st, a, ins: None
    if op == 'stacksave':
        return lambda e, st, a, ins: 0
    if op == 'memcpy' or op == 'memmove':
        def f(e, st, a, ins):
            e.memcpy(st, a[0], a[1], e.concretise(st, a[2]))
        return guard(f)
    if op == 'memset':
        def f(e, st, a, ins):
            e.memset(st, a[0], a[1], e.concretise(st, a[2]))
        return guard(f)
    if op == 'expect':
        return lambda e, st, a, ins: a[0]
    if op == 'fabs':
        return b_fabs
    if op == 'fmuladd' or op == 'fma':
        return lambda e, st, a, ins: T.add(T.mul(a[0], a[1]), a[2])
    if op in LIBM1:
        return _libm1(op)
    if op in LIBM2:
        return _libm2(op)
    if op == 'maxnum':
        return b_fmax
    if op == 'minnum':
        return b_fmin
    if op == 'copysign':
        return b_copysign
    if op == 'powi':
        return lambda e, st, a, ins: T.fn('pow', a[0], e.cast(st, 'sitofp', ('i', 32), a[1], 'double'))
    if op == 'eh':
        if 'typeid' in n:
            return lambda e, st, a, ins: (a[0] >> 32) & 0x7fffffff
    if op == 'trap':
        def f(e, st, a, ins):
            e.fail(st, 'no-trap', 'trap reached')
            raise PathEnd()
        return f
    if op == 'threadlocal':
        return lambda e, st, a, ins: a[0]
    if n.startswith('is.constant'):
        return lambda e, st, a, ins: False
    if op == 'is':
        def f(e, st, a, ins):
            m = a[1]
            x = a[0]
            if x.op == 'nan':
                return bool(m & 3)
            if x.op == 'inf':
                return bool(m & 512)
            if x.op == 'ninf':
                return bool(m & 4)
            fin_neg = m & (8 | 16 | 32)
            fin_pos = m & (64 | 128 | 256)
            if not (m & (8 | 16 | 32 | 64 | 128 | 256)):
                return False
            if m & 0x1f8 == 0x1f8:
                return True
            if m & 0x1f8 == 0x108 or m & 0x1f8 == (8 | 256):
                return T.b_not(T.eq(x, T.ZERO))
            if m & 0x1f8 == (32 | 64):
                return T.eq(x, T.ZERO)
            if m & 0x1f8 == (8 | 16 | 32):
                return T.lt(x, T.ZERO)
            raise Unsupported('is.fpclass %d' % m)
        return f
    if op == 'ctlz':
        bits = int(n.rsplit('.i', 1)[1])
        return lambda e, st, a, ins: bits - a[0].bit_length()
    if op == 'cttz':
        bits = int(n.rsplit('.i', 1)[1])
        return lambda e, st, a, ins: bits if a[0] == 0 else (a[0] & -a[0]).bit_length() - 1
    if op == 'ctpop':
        return lambda e, st, a, ins: bin(a[0]).count('1')
    if op in ('umax', 'umin', 'smax', 'smin'):
        bits = int(n.rsplit('.i', 1)[1])
        def f(e, st, a, ins):
            x, y = a[0], a[1]
            pred = {'umax': 'ugt', 'umin': 'ult', 'smax': 'sgt', 'smin': 'slt'}[op]
            return x if e.decide(st, e.icmp(st, pred, bits, x, y)) else y
        return f
    if op == 'abs':
        bits = int(n.rsplit('.i', 1)[1])
        return lambda e, st, a, ins: abs(e.sgn(a[0], bits))
    if op in ('umul', 'uadd', 'usub', 'sadd', 'smul', 'ssub') and 'with.overflow' in n:
        bits = int(n.rsplit('.i', 1)[1])
        def f(e, st, a, ins):
            x, y = a[0], a[1]
            if op[0] == 's':
                x, y = e.sgn(x, bits), e.sgn(y, bits)
            r = x * y if 'mul' in op else (x + y if 'add' in op else x - y)
            lo, hi = (0, 1 << bits) if op[0] == 'u' else (-(1 << (bits - 1)), 1 << (bits - 1))
            return (r & ((1 << bits) - 1), not (lo <= r < hi))
        return f
    if op == 'fshl':
        bits = int(n.rsplit('.i', 1)[1])
        def f(e, st, a, ins):
            s = a[2] % bits
            return ((a[0] << s) | (a[1] >> (bits - s))) & ((1 << bits) - 1)
        return f
    if op == 'bswap':
        bits = int(n.rsplit('.i', 1)[1])
        return lambda e, st, a, ins: int.from_bytes(a[0].to_bytes(bits // 8, 'little'), 'big')
    if op == 'objectsize':
        return lambda e, st, a, ins: M64
    raise Unsupported(name)
X.intrinsic = intrinsic

def guard(f):
    def g(e, st, a, ins):
        try:
            return f(e, st, a, ins)
        except X.OutOfBounds as ex:
            e.oob(st, ex)
    return g

# ------------------------------------------------------------------ allocation
@builtin('_Znwm', '_Znam', 'malloc', '_ZnwmSt11align_val_t', '_ZnamSt11align_val_t', '_ZnwmRKSt9nothrow_t')
def b_new(e, st, a, ins):
    n = e.concretise(st, a[0])
    if n > 1 << 30:
        raise Throw('_ZTISt9bad_alloc')
    return e.alloc(st, n)
@builtin('calloc')
def b_calloc(e, st, a, ins):
    return e.alloc(st, a[0] * a[1], True)
@builtin('_ZdlPv', '_ZdlPvm', '_ZdaPv', '_ZdaPvm', 'free', '_ZdlPvmSt11align_val_t', '_ZdlPvSt11align_val_t', '_ZdlPvRKSt9nothrow_t')
def b_del(e, st, a, ins):
    return None

@builtin('memcpy', 'memmove')
@guard
def b_memcpy(e, st, a, ins):
    e.memcpy(st, a[0], a[1], e.concretise(st, a[2]))
    return a[0]
@builtin('memset')
@guard
def b_memset(e, st, a, ins):
    e.memset(st, a[0], a[1], a[2])
    return a[0]
@builtin('memcmp', 'bcmp', 'strncmp')
def b_memcmp(e, st, a, ins):
    for i in range(a[2]):
        x = e.load_v(st, a[0] + i, ('i', 1, 8))
        y = e.load_v(st, a[1] + i, ('i', 1, 8))
        if x != y:
            return 1 if x > y else 0xffffffff
    return 0
@builtin('memchr')
def b_memchr(e, st, a, ins):
    for i in range(a[2]):
        if e.load_v(st, a[0] + i, ('i', 1, 8)) == a[1] & 255:
            return a[0] + i
    return 0
@builtin('strlen')
def b_strlen(e, st, a, ins):
    return len(e.cstr(st, a[0]))
@builtin('strcmp')
def b_strcmp(e, st, a, ins):
    x, y = e.cstr(st, a[0]), e.cstr(st, a[1])
    return 0 if x == y else (1 if x > y else 0xffffffff)
@builtin('tolower')
def b_tolower(e, st, a, ins):
    c = a[0]
    return c + 32 if 65 <= c <= 90 else c
@builtin('toupper')
def b_toupper(e, st, a, ins):
    c = a[0]
    return c - 32 if 97 <= c <= 122 else c
@builtin('isspace')
def b_isspace(e, st, a, ins):
    return 1 if a[0] in (32, 9, 10, 11, 12, 13) else 0
@builtin('abs', 'labs')
def b_abs(e, st, a, ins):
    bits = 32
    if isinstance(a[0], Term):
        raise Unsupported('abs of symbolic int')
    return abs(e.sgn(a[0], bits))

@builtin('_ZSt11_Hash_bytesPKvmm')
def b_hash_bytes(e, st, a, ins):
    n = e.concretise(st, a[1])
    o, off = e.obj_r(st, a[0], n)
    c = o.sym.get(off)
    if c is not None:
        v = c[1]
        if isinstance(v, Term) and v.op == 'c':
            data = struct.pack('<d', float(v.args[0]))
        else:
            if e.ideal_hash:
                # ideal hash: equal terms have equal, different terms different images
                return hash_bytes(b'vf-ideal-%d' % v.id, a[2])
            return T.uf('hash', (v,), 'I')
    else:
        data = bytes(o.raw[off:off + n])
    return hash_bytes(data, a[2])

def hash_bytes(buf, seed):
    """libstdc++ MurmurHash64A (_Hash_bytes)"""
    mul = ((0xc6a4a793 << 32) + 0x5bd1e995) & M64
    ln = len(buf)
    h = (seed ^ (ln * mul)) & M64
    al = ln & ~7
    for i in range(0, al, 8):
        k = int.from_bytes(buf[i:i + 8], 'little')
        d = (k * mul) & M64
        d ^= d >> 47
        d = (d * mul) & M64
        h ^= d
        h = (h * mul) & M64
    if ln & 7:
        d = int.from_bytes(buf[al:], 'little')
        h ^= d
        h = (h * mul) & M64
    h ^= h >> 47
    h = (h * mul) & M64
    h ^= h >> 47
    return h

# ------------------------------------------------------------------ C++ runtime
@builtin('__cxa_atexit', '__cxa_thread_atexit', 'atexit')
def b_atexit(e, st, a, ins):
    return 0
@builtin('__cxa_guard_acquire')
def b_ga(e, st, a, ins):
    v = e.load_v(st, a[0], ('i', 1, 8))
    return 0 if v else 1
@builtin('__cxa_guard_release')
def b_gr(e, st, a, ins):
    e.store_v(st, a[0], ('i', 1, 8), 1)
@builtin('__cxa_guard_abort')
def b_gabort(e, st, a, ins):
    return None
@builtin('__cxa_allocate_exception')
def b_cae(e, st, a, ins):
    return e.alloc(st, max(a[0], 64), True)
@builtin('__cxa_free_exception')
def b_cfe(e, st, a, ins):
    return None
@builtin('__cxa_throw')
def b_throw(e, st, a, ins):
    if os.environ.get('VF_THROW'):
        print('THROW', e.tiname(a[1]), [f.fn.name if hasattr(f, 'fn') else f for f in st.frames][-7:], file=sys.stderr)
    raise Throw(e.tiname(a[1]), a[0])
@builtin('__cxa_rethrow')
def b_rethrow(e, st, a, ins):
    x = st.caught[-1]
    raise Throw(x[1], x[0])
@builtin('__cxa_begin_catch')
def b_bc(e, st, a, ins):
    st.caught = st.caught + [(a[0], st.ghost.get(('exc', a[0])))]
    st.exc = None
    return a[0]
@builtin('__cxa_end_catch')
def b_ec(e, st, a, ins):
    st.caught = st.caught[:-1]
@builtin('__cxa_get_exception_ptr')
def b_gep(e, st, a, ins):
    return a[0]
@builtin('__cxa_pure_virtual', '_ZSt9terminatev', 'abort', '__clang_call_terminate', 'exit', '_ZSt10unexpectedv')
def b_term(e, st, a, ins):
    e.fail(st, 'no-abort', 'terminate/abort reached')
    raise PathEnd()
@builtin('__assert_fail')
def b_af(e, st, a, ins):
    e.fail(st, 'no-assert-failure', 'assertion %s' % e.cstr(st, a[0]))
    raise PathEnd()
@builtin('__cxa_init_primary_exception')
def b_cipe(e, st, a, ins):
    return a[0]
@builtin('pthread_mutex_lock', 'pthread_mutex_unlock', '__pthread_key_create', 'pthread_once', 'pthread_mutex_init', 'pthread_mutex_destroy')
def b_zero(e, st, a, ins):
    return 0
@builtin('vsnprintf', 'snprintf')
def b_vsn(e, st, a, ins):
    if a[0]:
        e.store_v(st, a[0], ('i', 1, 8), 0)
    return 0
@builtin('__dynamic_cast')
def b_dyncast(e, st, a, ins):
    if a[0] == 0:
        return 0
    vt = e.load_v(st, a[0], ('i', 8, 64))
    ti = e.load_v(st, vt - 8, ('i', 8, 64))
    top = e.sgn(e.load_v(st, vt - 16, ('i', 8, 64)), 64)
    dst = e.tiname(a[2])
    r = find_base(e, e.tiname(ti), dst)
    if r is None:
        return 0
    return (a[0] + top + r) & M64
def find_base(e, ti, dst, depth=0):
    if ti == dst:
        return 0
    for m in e.modules:
        g = m.globals.get('@' + ti)
        if g is not None and not g.decl:
            bs = [b for b in re.findall(r'@(_ZTI[-a-zA-Z$._0-9]+)', g.text) if b != ti]
            offs = [0] * len(bs)
            if '__vmi_class' in g.text:
                offs = [int(x) >> 8 for x in re.findall(r'i64 (\d+)', g.text.split('_ZTS')[1])][-len(bs):]
            for b, o in zip(bs, offs):
                r = find_base(e, b, dst)
                if r is not None:
                    return o + r
            return None
    return None
@builtin('_ZNSt9type_infoeqERKS_', '_ZNKSt9type_infoeqERKS_')
def b_tieq(e, st, a, ins):
    return e.tiname(a[0]) == e.tiname(a[1])
@builtin('_ZNSt8__detail15_List_node_base7_M_hookEPS0_')
def b_hook(e, st, a, ins):
    P = ('i', 8, 64)
    this, pos = a
    e.store_v(st, this, P, pos)
    prev = e.load_v(st, pos + 8, P)
    e.store_v(st, this + 8, P, prev)
    e.store_v(st, prev, P, this)
    e.store_v(st, pos + 8, P, this)
@builtin('_ZNSt8__detail15_List_node_base9_M_unhookEv')
def b_unhook(e, st, a, ins):
    P = ('i', 8, 64)
    n = e.load_v(st, a[0], P)
    p = e.load_v(st, a[0] + 8, P)
    e.store_v(st, p, P, n)
    e.store_v(st, n + 8, P, p)
# red-black tree as an (unbalanced) ordered binary tree: same in-order sequence
# node: color(4) pad parent@8 left@16 right@24
PT = ('i', 8, 64)
@builtin('_ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_')
def b_rbins(e, st, a, ins):
    left, x, p, h = a
    if not isinstance(left, bool):
        left = bool(e.concretise(st, left))
    e.store_v(st, x + 8, PT, p)
    e.store_v(st, x + 16, PT, 0)
    e.store_v(st, x + 24, PT, 0)
    e.store_v(st, x, ('i', 4, 32), 1)   # the tree is not rebalanced; only the header is red
    if left:
        e.store_v(st, p + 16, PT, x)
        if p == h:
            e.store_v(st, h + 8, PT, x)
            e.store_v(st, h + 24, PT, x)
        elif p == e.load_v(st, h + 16, PT):
            e.store_v(st, h + 16, PT, x)
    else:
        e.store_v(st, p + 24, PT, x)
        if p == e.load_v(st, h + 24, PT):
            e.store_v(st, h + 24, PT, x)
@builtin('_ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base', '_ZSt18_Rb_tree_incrementPKSt18_Rb_tree_node_base')
def b_rbinc(e, st, a, ins):
    x = a[0]
    L = lambda p, o: e.load_v(st, p + o, PT)
    if L(x, 24):
        x = L(x, 24)
        while L(x, 16):
            x = L(x, 16)
        return x
    y = L(x, 8)
    while x == L(y, 24):
        x = y
        y = L(y, 8)
    if L(x, 24) != y:
        x = y
    return x
@builtin('_ZSt18_Rb_tree_decrementPSt18_Rb_tree_node_base', '_ZSt18_Rb_tree_decrementPKSt18_Rb_tree_node_base')
def b_rbdec(e, st, a, ins):
    x = a[0]
    L = lambda p, o: e.load_v(st, p + o, PT)
    if e.load_v(st, x, ('i', 4, 32)) == 0:   # header
        return L(x, 24)
    if L(x, 16):
        y = L(x, 16)
        while L(y, 24):
            y = L(y, 24)
        return y
    y = L(x, 8)
    while x == L(y, 16):
        x = y
        y = L(y, 8)
    return y
@builtin('_ZNKSt8__detail20_Prime_rehash_policy14_M_need_rehashEmmm')
def b_need(e, st, a, ins):
    # (this, n_bkt, n_elt, n_ins): rehash policy does not influence the map's contents
    n_bkt, n_elt, n_ins = a[1], a[2], a[3]
    if n_elt + n_ins > n_bkt:
        nb = 13
        while nb < n_elt + n_ins:
            nb = nb * 2 + 1
        return (1, nb)
    return (0, 0)
@builtin('_ZNKSt8__detail20_Prime_rehash_policy11_M_next_bktEm')
def b_nextb(e, st, a, ins):
    nb = 13
    while nb < a[1]:
        nb = nb * 2 + 1
    return nb

# ------------------------------------------------------------------ contract API
def _name(e, st, p):
    return e.cstr(st, p)

def uniq(st, n):
    k = st.names.get(n, 0) + 1
    st.names = dict(st.names)
    st.names[n] = k
    return n if k == 1 else '%s#%d' % (n, k)

@builtin('vf_real')
def vf_real(e, st, a, ins):
    n = uniq(st, _name(e, st, a[0]))
    if a[1].op == 'c' and a[2].op == 'c':
        e.num.declare(n, float(a[1].args[0]), float(a[2].args[0]))
    return T.var(n)
@builtin('vf_int')
def vf_int(e, st, a, ins):
    n = uniq(st, _name(e, st, a[0]))
    lo, hi = e.sgn(a[1], 32), e.sgn(a[2], 32)
    return mk('var', (n, lo, hi), 'I')
@builtin('vf_choose')
def vf_choose(e, st, a, ins):
    n = uniq(st, _name(e, st, a[0]))
    k = e.sgn(a[1], 32)
    t = mk('var', (n, 0, k - 1), 'I')
    v = e.concretise(st, t)
    st.ghost[('choice', n)] = v
    return v
@builtin('vf_bool')
def vf_bool(e, st, a, ins):
    n = uniq(st, _name(e, st, a[0]))
    v = 1 if e.decide(st, mk('var', (n,), 'B')) else 0
    st.ghost[('choice', n)] = v
    return v
@builtin('vf_assume')
def vf_assume(e, st, a, ins):
    c = a[0]
    if not isinstance(c, (bool, Term)):
        c = bool(c)
    if isinstance(c, Term):
        q = st.decided.get(c.id)
        if q is None:
            q = st.ctx.quick(c)
        if q is not None:
            if q is True:
                st.ctx.learn(c, True)
            c = q
    e.assume(st, c)
@builtin('vf_infeasible_stop')
def vf_inf(e, st, a, ins):
    if st.ctx.infeasible(1000):
        raise PathEnd()
@builtin('vf_assert')
def vf_assert(e, st, a, ins):
    c = a[0]
    if not isinstance(c, (bool, Term)):
        c = bool(c)
    n = _name(e, st, a[1])
    e.check_assert(st, c, n)
    if c is False:
        raise PathEnd()
    if isinstance(c, Term):
        e.assume(st, c)
@builtin('vf_assert_eq')
def vf_assert_eq(e, st, a, ins):
    e.check_eq(st, a[0], a[1], _name(e, st, a[2]))
@builtin('vf_assert_eq_tol')
def vf_assert_eq_tol(e, st, a, ins):
    e.check_eq(st, a[0], a[1], _name(e, st, a[2]))
@builtin('vf_cover')
def vf_cover(e, st, a, ins):
    n = _name(e, st, a[0])
    e.covers.setdefault((e.current, n), []).append(tuple(st.ctx.facts))
@builtin('vf_symbolic')
def vf_symbolic(e, st, a, ins):
    return 1
@builtin('vf_no_split')
def vf_no_split(e, st, a, ins):
    e.nosplit = True
@builtin('vf_stop')
def vf_stop(e, st, a, ins):
    raise PathEnd()
@builtin('vf_debug')
def vf_debug(e, st, a, ins):
    print('DEBUG', _name(e, st, a[0]), T.show(a[1], 30))
@builtin('vf_debug_facts')
def vf_debug_facts(e, st, a, ins):
    print('FACTS', [T.show(f, 12) if isinstance(f, Term) else f for f in st.ctx.facts])
@builtin('vf_same_int')
def vf_same_int(e, st, a, ins):
    x, y = a[0], a[1]
    return x is y or (isinstance(x, int) and isinstance(y, int) and x == y)
@builtin('vf_same_real')
def vf_same_real(e, st, a, ins):
    return 1 if a[0] is a[1] or (not isinstance(a[0], T.Term) and not isinstance(a[1], T.Term) and a[0] == a[1]) else 0
def _uf(e, st, a, ins):
    n = _name(e, st, a[0])
    e.assumptions.add('uninterpreted function %s stands for any function' % n)
    return T.uf(n, a[1:])
for _k in range(0, 9):
    BUILTIN['vf_uf%d' % _k] = _uf

def call_std_function(e, s, fptr, args):
    """push a call of std::function<double(double...)> stored at fptr onto state s"""
    inv = e.load_v(s, fptr + 24, PT)
    if inv == 0:
        raise Throw('_ZTISt17bad_function_call')
    m, name = e.fn_by_id[inv >> 32]
    f = e.resolve_fn(m, name)
    ps = []
    for x in args:
        p = e.alloc(s, 8)
        e.store_v(s, p, ('d', 8), x)
        ps.append(p)
    e.push_call(s, f, [fptr] + ps, None)

def integral_term(e, st, lo, hi, fptr):
    if lo is hi:
        return T.ZERO
    st.counter += 1
    t = T.var('t!%d' % st.counter)
    e.num.bind(t, lo, hi)
    extra = []
    lh = st.ctx.decide(T.le(lo, hi), 300) if not (T.special(lo) or T.special(hi)) else None
    if lh is True:
        extra = [T.lt(lo, t), T.lt(t, hi)]
    elif lh is False:
        extra = [T.lt(hi, t), T.lt(t, lo)]
    else:
        hl = st.ctx.decide(T.le(hi, lo), 300) if not (T.special(lo) or T.special(hi)) else None
        if hl is True:
            extra = [T.lt(hi, t), T.lt(t, lo)]
    pieces = e.eval_pure(st, lambda s: call_std_function(e, s, fptr, [t]), None, extra)
    ps = []
    for conds, v in pieces:
        if isinstance(v, tuple):
            # the integrand throws on part of the interval: the call throws
            raise Throw(v[1][1])
        conds = tuple(c for c in conds if isinstance(c, Term))
        ps.append((conds, v))
    if not ps:
        raise PathEnd()
    if all(p[1] is ps[0][1] for p in ps):
        ps = [((), ps[0][1])]
    e.assumptions.add('numerical integration returns the exact integral of its integrand (contract of the integrator, assumed at call sites)')
    # the same integral (up to the name of the bound variable) is the same term
    body = T.substitute(tuple(ps), {t: T.var('t!')})
    tab = e.__dict__.setdefault('int_table', {})
    key = (lo, hi, body)
    r = tab.get(key)
    if r is None:
        r = tab[key] = mk('int', (lo, hi, t, tuple(ps)), 'R')
    return r

@builtin('vf_integral_p')
def vf_integral(e, st, a, ins):
    return integral_term(e, st, a[0], a[1], a[2])

@builtin('vfr_integrate')
def r_integrate(e, st, a, ins):
    # double Integral::Integrate(this, min, max, std::function*, method, power)
    return integral_term(e, st, a[1], a[2], a[3])
X.R_INTEGRATE = r_integrate
