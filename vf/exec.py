"""Symbolic executor / VC generator over LLVM IR."""
import re, struct, subprocess, time, sys
from fractions import Fraction
from . import terms as T
from .terms import Term, Unsupported, C, mk
from .ir import Module, Global, parse_type, P, tokenize, parse_attrs
from .prep import FnPrep, UNDEF, decode_cstr
from .norm import Ctx, AtomTable
from .num import Num, N as NSAMP
import numpy as np

sys.setrecursionlimit(20000)
M64 = (1 << 64) - 1
FN_ID0 = 1 << 28          # object ids above this are function addresses

class PathEnd(Exception):
    pass

class Throw(Exception):
    def __init__(self, ti, obj=0):
        self.ti = ti
        self.obj = obj

class Budget(Exception):
    pass

class MObj(object):
    __slots__ = ('owner', 'size', 'raw', 'mask', 'sym')
    def __init__(self, size, owner, raw=None, mask=None, sym=None):
        self.owner = owner
        self.size = size
        self.raw = bytearray(size) if raw is None else raw
        self.mask = bytearray(size) if mask is None else mask
        self.sym = {} if sym is None else sym
    def clone(self, owner):
        return MObj(self.size, owner, bytearray(self.raw), bytearray(self.mask), dict(self.sym))

ONES = [b'\x01' * i for i in range(0, 65)]

class Frame(object):
    __slots__ = ('fn', 'code', 'blocks', 'regs', 'ip', 'block', 'call', 'tag')
    def copy(self):
        f = Frame()
        f.fn = self.fn
        f.code = self.code
        f.blocks = self.blocks
        f.regs = dict(self.regs)
        f.ip = self.ip
        f.block = self.block
        f.call = self.call
        f.tag = self.tag
        return f

class State(object):
    __slots__ = ('mem', 'frames', 'ctx', 'decided', 'counter', 'icounter', 'steps', 'owner', 'stop', 'retval', 'exc', 'caught', 'trace', 'names', 'inames', 'base_facts', 'is_init', 'ghost', 'loops', 'alive', 'exact')

class Obligation(object):
    __slots__ = ('name', 'harness', 'status', 'method', 'detail', 'time', 'path', 'kind', 'model')

_own = [0]
def new_owner():
    _own[0] += 1
    return _own[0]

NOOP_RE = re.compile(r'^(?:std::ostream|spdlog::|fmt::|std::basic_ostream<|std::basic_ios<|std::ios_base|std::locale|std::basic_streambuf|std::__cxx11::basic_ostringstream|std::__cxx11::basic_stringstream|std::basic_iostream|std::__cxx11::basic_stringbuf|std::basic_istream|std::operator<<|std::__ostream_insert|PROPOSAL::Logging|PROPOSAL::Helper::Centered|std::__cxx11::basic_istringstream|std::basic_ofstream|std::basic_ifstream|std::ctype|std::endl|std::flush|std::to_string|std::__cxx11::to_string)')

STD_BASES = {
 '_ZTISt12out_of_range': ['_ZTISt11logic_error'], '_ZTISt16invalid_argument': ['_ZTISt11logic_error'],
 '_ZTISt12length_error': ['_ZTISt11logic_error'], '_ZTISt12domain_error': ['_ZTISt11logic_error'],
 '_ZTISt11logic_error': ['_ZTISt9exception'], '_ZTISt13runtime_error': ['_ZTISt9exception'],
 '_ZTISt11range_error': ['_ZTISt13runtime_error'], '_ZTISt14overflow_error': ['_ZTISt13runtime_error'],
 '_ZTISt15underflow_error': ['_ZTISt13runtime_error'],
 '_ZTISt9bad_alloc': ['_ZTISt9exception'], '_ZTISt8bad_cast': ['_ZTISt9exception'],
 '_ZTISt17bad_function_call': ['_ZTISt9exception'], '_ZTISt10bad_typeid': ['_ZTISt9exception'],
 '_ZTISt12bad_weak_ptr': ['_ZTISt9exception'],
 '_ZTISt20bad_array_new_length': ['_ZTISt9bad_alloc'],
}

THROWERS = {
 '_ZSt20__throw_length_errorPKc': '_ZTISt12length_error', '_ZSt19__throw_logic_errorPKc': '_ZTISt11logic_error',
 '_ZSt24__throw_out_of_range_fmtPKcz': '_ZTISt12out_of_range', '_ZSt20__throw_out_of_rangePKc': '_ZTISt12out_of_range',
 '_ZSt17__throw_bad_allocv': '_ZTISt9bad_alloc', '_ZSt28__throw_bad_array_new_lengthv': '_ZTISt20bad_array_new_length',
 '_ZSt25__throw_bad_function_callv': '_ZTISt17bad_function_call', '_ZSt16__throw_bad_castv': '_ZTISt8bad_cast',
 '__cxa_bad_cast': '_ZTISt8bad_cast', '__cxa_throw_bad_array_new_length': '_ZTISt20bad_array_new_length',
 '_ZSt24__throw_invalid_argumentPKc': '_ZTISt16invalid_argument', '_ZSt20__throw_domain_errorPKc': '_ZTISt12domain_error',
 '_ZSt21__throw_runtime_errorPKc': '_ZTISt13runtime_error', '_ZSt19__throw_range_errorPKc': '_ZTISt11range_error',
 '__cxa_bad_typeid': '_ZTISt10bad_typeid', '_ZSt20__throw_system_errori': '_ZTISt13runtime_error',
 '_ZSt21__throw_bad_exceptionv': '_ZTISt9exception', '_ZSt22__throw_overflow_errorPKc': '_ZTISt14overflow_error',
}

LIBM1 = {'sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'exp', 'log', 'sqrt', 'log10', 'log1p', 'expm1', 'exp2', 'log2', 'cbrt', 'sinh', 'cosh', 'tanh', 'erf', 'erfc', 'tgamma', 'floor', 'ceil', 'round', 'trunc', 'rint', 'nearbyint', 'lgamma', 'asinh', 'acosh', 'atanh'}
LIBM2 = {'pow', 'atan2', 'fmod', 'hypot'}

class Engine(object):
    def __init__(self, opts=None):
        self.opts = opts or {}
        self.ideal_hash = False
        self.modules = []
        self.funcs = {}          # global symbol -> Function
        self.globals = {}        # global symbol -> Global
        self.next_obj = 16
        self.base = {}           # objid -> MObj (shared, initial contents)
        self.obj_global = {}     # objid -> Global (not yet materialised)
        self.fn_addr = {}
        self.fn_by_id = {}
        self.next_fn = FN_ID0
        self.demangled = {}
        self.replace = {}        # function name (no @) -> function name
        self.replace_pat = []    # (regex on demangled, target)
        self.nested_init = 0
        self.init_of = {}        # Global -> [init function]
        self.init_done = set()
        self.tinfo = {}
        self.table = AtomTable()
        self.num = self.table.num = Num()
        self.obligations = []
        self.covers = {}
        self.max_steps = self.opts.get('max_steps', 4000000)
        self.max_paths = self.opts.get('max_paths', 20000)
        self.calls_seen = {}
        self.noop_cache = {}
        self.loader = None       # callback to load a module defining a symbol
        self.current = None
        self.deadline = None
        self.worklists = []
        self.paths_done = 0
        self.eq_timeout = self.opts.get('eq_timeout', 4000)
        self.assert_timeout = self.opts.get('assert_timeout', 10000)
        self.feas_timeout = self.opts.get('feas_timeout', 120)
        self.assumptions = set()
        self.samples = {}
        self.domain_checks = False
    # ================================================================ modules
    def load(self, path, name):
        m = Module(path, name)
        m.prep = None
        self.modules.append(m)
        names = set(m.funcs) | set(m.decls)
        plain = [n[1:].strip('"') for n in names]
        todo = [n for n in plain if n not in self.demangled]
        if todo:
            r = subprocess.run(['/usr/lib/llvm-18/bin/llvm-cxxfilt'], input='\n'.join(todo), capture_output=True, text=True)
            for a, b in zip(todo, r.stdout.split('\n')):
                self.demangled[a] = b
        for n, f in m.funcs.items():
            if f.linkage in ('internal', 'private'):
                continue
            if n not in self.funcs or (self.funcs[n].linkage != 'dso_local' and f.linkage not in ('linkonce_odr', 'weak_odr', 'weak', 'linkonce', 'available_externally') and self.funcs[n].linkage in ('linkonce_odr', 'weak_odr', 'weak', 'linkonce')):
                self.funcs[n] = f
        for n, g in m.globals.items():
            if g.linkage in ('internal', 'private') or g.decl:
                continue
            if n not in self.globals:
                self.globals[n] = g
        # dynamic initialisers
        inits = []
        for c in m.ctors:
            f = m.funcs.get(c)
            if not f:
                continue
            for l in f.lines:
                mm = re.search(r'call [^@]*(@(?:"[^"]*"|[-a-zA-Z$._0-9]+))\(', l)
                if mm:
                    inits.append(mm.group(1))
            if '__cxx_global_var_init' in c:
                inits.append(c)
        primary = {}
        second = {}
        for n in inits:
            f = m.funcs.get(n)
            if not f:
                continue
            for l in f.lines[1:]:
                if '__cxa_atexit' in l:
                    mm = re.findall(r'ptr (@(?:"[^"]*"|[-a-zA-Z$._0-9]+))', l)
                    for g in mm:
                        if g in m.globals and 'dso_handle' not in g:
                            primary.setdefault(g, []).append(f)
                    continue
                st = re.match(r'\s+store .*, ptr (@(?:"[^"]*"|[-a-zA-Z$._0-9]+))', l)
                if st:
                    primary.setdefault(st.group(1), []).append(f)
                    continue
                ca = re.search(r'(?:call|invoke) [^@]*@[^(]*\(ptr [^@,%]*(@(?:"[^"]*"|[-a-zA-Z$._0-9]+))', l)
                if ca:
                    primary.setdefault(ca.group(1), []).append(f)
                for g in re.findall(r'@(?:"[^"]*"|[-a-zA-Z$._0-9]+)', l):
                    if g in m.globals:
                        second.setdefault(g, []).append(f)
        for g, fs in second.items():
            gl = m.globals[g]
            if g in primary:
                fs = primary[g]
            elif 'zeroinitializer' not in gl.text:
                continue
            self.init_of[(m, g)] = fs
        return m
    def prep(self, f):
        if not f.parsed:
            FnPrep(self, f).prepare()
        return f
    def resolve_fn(self, m, name):
        f = m.funcs.get(name)
        if f is not None and f.linkage in ('internal', 'private'):
            return f
        g = self.funcs.get(name)
        if g is not None:
            return g
        if f is not None:
            return f
        if name in m.aliases:
            tgt = re.findall(r'ptr (@(?:"[^"]*"|[-a-zA-Z$._0-9]+))', m.aliases[name])[-1]
            return self.resolve_fn(m, tgt)
        for mm in self.modules:
            if name in mm.aliases:
                tgt = re.findall(r'ptr (@(?:"[^"]*"|[-a-zA-Z$._0-9]+))', mm.aliases[name])[-1]
                return self.resolve_fn(mm, tgt)
        return None
    def addr_of(self, m, name):
        if name in m.aliases:
            tgt = re.findall(r'ptr (@(?:"[^"]*"|[-a-zA-Z$._0-9]+))', m.aliases[name])[-1]
            if tgt in m.funcs or tgt in m.decls:
                return self.addr_of(m, tgt)
        if name in m.funcs or name in m.decls or name in self.funcs:
            f = m.funcs.get(name)
            key = (m, name) if (f is not None and f.linkage in ('internal', 'private')) else name
            a = self.fn_addr.get(key)
            if a is None:
                self.next_fn += 1
                a = self.next_fn << 32
                self.fn_addr[key] = a
                self.fn_by_id[self.next_fn] = (m, name)
            return a
        g = m.globals.get(name)
        if g is None or (g.linkage not in ('internal', 'private') and name in self.globals):
            g = self.globals.get(name, g)
        if g is None:
            for mm in self.modules:
                if name in mm.aliases:
                    tgt = re.findall(r'ptr (@(?:"[^"]*"|[-a-zA-Z$._0-9]+))', mm.aliases[name])[-1]
                    if tgt != name:
                        return self.addr_of(mm, tgt)
            if self.loader and self.loader(name[1:].strip('"')):
                if name in self.funcs or name in self.globals or any(name in mm.aliases for mm in self.modules):
                    return self.addr_of(m, name)
            raise Unsupported('global ' + name)
        return self.gaddr(g)
    def gaddr(self, g):
        if g.addr is None:
            if g.decl and g.name in self.globals:
                return self.gaddr(self.globals[g.name])
            self.next_obj += 1
            g.addr = self.next_obj << 32
            self.obj_global[self.next_obj] = g
        return g.addr
    def tiname(self, addr):
        g = self.obj_global.get(addr >> 32)
        return g.name[1:] if g is not None else None
    def materialise(self, oid):
        g = self.obj_global.get(oid)
        if g is None:
            return None
        if g.decl and g.name in self.globals and self.globals[g.name] is not g:
            raise Unsupported('late-bound global ' + g.name)
        if g.decl and self.loader and not g.name.startswith('@_ZTVN10__cxxabiv') and not g.name.startswith('@_ZTI') and not g.name.startswith('@_ZTV') and self.loader(g.name[1:]):
            gg = self.globals.get(g.name)
            if gg is not None and gg is not g:
                gg.addr = g.addr
                self.obj_global[oid] = gg
                g = gg
        m = g.module
        if g.decl:
            sz = 4096
            o = MObj(sz, 0)
            o.mask = bytearray(b'\x01' * sz)
            self.base[oid] = o
            # typeinfo/vtable of the runtime library: contents never inspected
            return o
        toks = tokenize(re.sub(r'(, ![a-zA-Z_.]+ ![0-9]+)+\s*$', '', g.text))
        p = P(toks)
        while True:
            parse_attrs(p)
            if p.peek() in ('constant', 'global'):
                p.next()
                break
            w = p.next()
            if w == '(':
                while p.next() != ')':
                    pass
        ty = parse_type(p)
        sz = m.size(ty)
        o = MObj(sz, 0)
        o.mask = bytearray(b'\x01' * sz)
        self.base[oid] = o
        fp = FnPrep(self, None.__class__) if False else FnPrep.__new__(FnPrep)
        fp.eng = self
        fp.f = None
        fp.m = m
        self.init_value(fp, o, 0, ty, p)
        fs = self.init_of.get((m, g.name))
        if fs:
            for f in fs:
                if f in self.init_done:
                    continue
                self.init_done.add(f)
                self.run_init(f)
        return self.base[oid]
    def init_value(self, fp, o, off, ty, p):
        k, v = p.t[p.i]
        m = fp.m
        if v in ('zeroinitializer', 'undef', 'poison') :
            p.i += 1
            return
        rt = m.rtype(ty) if isinstance(ty, tuple) else ty
        if isinstance(rt, tuple) and rt[0] in 'sav' and (v in ('{', '[', '<')):
            if k == 'p':
                p.i += 1
                if v == '<' and p.peek() == '{':
                    p.i += 1
                j = 0
                while p.peek() not in ('}', ']', '>'):
                    t = parse_type(p)
                    if rt[0] == 's':
                        eo = m.offset(rt, j)
                    else:
                        eo = j * m.size(rt[2])
                    self.init_value(fp, o, off + eo, t, p)
                    p.accept(',')
                    j += 1
                p.next()
                if p.peek() == '>' and v == '<':
                    p.next()
                return
        val = fp.cvalue(p, ty)
        if isinstance(val, bytes):
            o.raw[off:off + len(val)] = val
            return
        if isinstance(val, Term):
            o.sym[off] = (m.size(ty), val)
            return
        n = m.size(ty)
        o.raw[off:off + n] = (int(val) & ((1 << (8 * n)) - 1)).to_bytes(n, 'little')
    def run_init(self, f):
        st = State()
        st.mem = self.base
        st.owner = 0
        st.frames = []
        st.ctx = Ctx(self.table)
        st.decided = {}
        st.counter = st.icounter = 0
        st.steps = 0
        st.stop = 0
        st.retval = None
        st.exc = None
        st.caught = []
        st.trace = []
        st.names = {}
        st.inames = {}
        st.base_facts = 0
        st.is_init = True
        st.ghost = {}
        st.loops = {}
        st.alive = np.ones(NSAMP, bool)
        st.exact = False
        self.nested_init += 1
        try:
            self.push_call(st, f, [], None)
            self.worklists.append(None)
            self.run(st)
        finally:
            self.worklists.pop()
            self.nested_init -= 1
    # ================================================================ memory
    def alloc(self, st, size, zero=False):
        self.next_obj += 1
        oid = self.next_obj
        o = MObj(size, st.owner)
        if zero:
            o.mask = bytearray(b'\x01' * size)
        st.mem[oid] = o
        return oid << 32
    def obj_r(self, st, addr, n):
        oid = addr >> 32
        o = st.mem.get(oid)
        if o is None:
            o = self.base.get(oid)
            if o is None:
                o = self.materialise(oid)
                if o is None:
                    raise Unsupported('bad pointer 0x%x (null dereference or wild)' % addr)
        off = addr & 0xffffffff
        if off + n > o.size:
            raise OutOfBounds('access of %d bytes at offset %d of object of size %d' % (n, off, o.size))
        return o, off
    def obj_w(self, st, addr, n):
        oid = addr >> 32
        o = st.mem.get(oid)
        if o is None:
            o = self.base.get(oid)
            if o is None:
                o = self.materialise(oid)
                if o is None:
                    raise Unsupported('bad pointer write 0x%x' % addr)
            if st.owner != 0:
                o = o.clone(st.owner)
                st.mem[oid] = o
        elif o.owner != st.owner:
            o = o.clone(st.owner)
            st.mem[oid] = o
        off = addr & 0xffffffff
        if off + n > o.size:
            raise OutOfBounds('write of %d bytes at offset %d of object of size %d' % (n, off, o.size))
        return o, off
    def kill_sym(self, o, off, n):
        s = o.sym
        if not s:
            return
        if len(s) > 40:
            for k in range(off - 15, off + n):
                e = s.get(k)
                if e is not None and k + e[0] > off:
                    del s[k]
            return
        for k in [k for k, e in s.items() if k < off + n and k + e[0] > off]:
            del s[k]
    def load_v(self, st, addr, mt):
        if mt[0] == 'agg':
            return tuple(self.load_v(st, addr + o, t) for o, t in mt[1])
        n = mt[1]
        o, off = self.obj_r(st, addr, n)
        e = o.sym.get(off)
        if e is not None and e[0] == n:
            v = e[1]
            if mt[0] == 'd' or mt[0] == 'f':
                if isinstance(v, Term) and v.sort == 'R':
                    return v
                raise Unsupported('load double of int term')
            if isinstance(v, Term) and v.sort == 'R':
                if v.op == 'c':
                    return int.from_bytes(struct.pack('<d', float(v.args[0])), 'little')
                return T.uf('bits', (v,), 'I')
            if mt[2] == 1 and not isinstance(v, bool):
                return mk('ine0', (v,), 'B')
            return v
        if o.sym:
            for k in range(off - 15, off + n):
                e = o.sym.get(k)
                if e is not None and k + e[0] > off:
                    if isinstance(e[1], Term) and e[1].op == 'c' and mt[0] == 'i' and e[0] == 8:
                        bb = struct.pack('<d', float(e[1].args[0]))
                        tmp = bytearray(o.raw[off:off + n])
                        for j in range(n):
                            q = off + j - k
                            if 0 <= q < 8:
                                tmp[j] = bb[q]
                        return int.from_bytes(tmp, 'little')
                    raise Unsupported('partial load of symbolic cell')
        if o.mask[off:off + n] != ONES[n]:
            if mt[0] in 'df':
                st.counter += 1
                return T.var('uninit!%d' % st.counter)
            return UNDEF
        if mt[0] == 'd':
            if n == 16:
                return C(0)
            return C(struct.unpack_from('<d', o.raw, off)[0])
        if mt[0] == 'f':
            return C(struct.unpack_from('<f', o.raw, off)[0])
        v = int.from_bytes(o.raw[off:off + n], 'little')
        if mt[2] == 1:
            return bool(v & 1)
        return v
    def store_v(self, st, addr, mt, v):
        if mt[0] == 'agg':
            for (o, t), x in zip(mt[1], v):
                self.store_v(st, addr + o, t, x)
            return
        n = mt[1]
        o, off = self.obj_w(st, addr, n)
        self.kill_sym(o, off, n)
        if v is UNDEF:
            o.mask[off:off + n] = bytes(n)
            return
        o.mask[off:off + n] = ONES[n]
        if isinstance(v, Term):
            o.sym[off] = (n, v)
        else:
            o.raw[off:off + n] = (int(v) & ((1 << (8 * n)) - 1)).to_bytes(n, 'little')
    def memcpy(self, st, d, s, n):
        if n == 0:
            return
        so, soff = self.obj_r(st, s, n)
        raw = bytes(so.raw[soff:soff + n])
        mask = bytes(so.mask[soff:soff + n])
        sym = []
        if so.sym:
            for k, e in so.sym.items():
                if k >= soff and k + e[0] <= soff + n:
                    sym.append((k - soff, e))
                elif k < soff + n and k + e[0] > soff:
                    raise Unsupported('memcpy cuts symbolic cell')
        do, doff = self.obj_w(st, d, n)
        self.kill_sym(do, doff, n)
        do.raw[doff:doff + n] = raw
        do.mask[doff:doff + n] = mask
        for k, e in sym:
            do.sym[doff + k] = e
    def memset(self, st, d, c, n):
        if n == 0:
            return
        o, off = self.obj_w(st, d, n)
        self.kill_sym(o, off, n)
        o.raw[off:off + n] = bytes([c & 255]) * n
        o.mask[off:off + n] = b'\x01' * n
    def cstr(self, st, a):
        out = bytearray()
        while True:
            c = self.load_v(st, a, ('i', 1, 8))
            if c == 0:
                return out.decode('latin1')
            out.append(c)
            a += 1
    # ================================================================ states
    def fork(self, st):
        s = State()
        s.mem = dict(st.mem)
        st.owner = new_owner()
        s.owner = new_owner()
        s.frames = [f.copy() for f in st.frames]
        s.ctx = st.ctx.child()
        s.ctx.memo = dict(st.ctx.memo)
        s.ctx.domain_pos = set(st.ctx.domain_pos)
        s.decided = dict(st.decided)
        s.counter = s.icounter = st.icounter
        s.names = dict(st.inames)
        s.inames = dict(st.inames)
        s.steps = st.steps
        s.stop = st.stop
        s.retval = None
        s.exc = st.exc
        s.caught = list(st.caught)
        s.trace = list(st.trace)
        s.base_facts = st.base_facts
        s.is_init = st.is_init
        s.ghost = dict(st.ghost)
        s.loops = dict(st.loops)
        s.alive = st.alive
        s.exact = st.exact
        return s
    def assume(self, st, c):
        if c is True:
            return
        if c is False:
            raise PathEnd()
        st.decided[c.id] = True
        nc = T.b_not(c)
        if isinstance(nc, Term):
            st.decided[nc.id] = False
        k = self.num.cond(c)
        if k is None:
            st.exact = False
        else:
            st.alive = st.alive & k[0]
            st.ctx.alive = st.alive
        st.ctx.assume(c)
    def decide(self, st, c):
        if isinstance(c, bool):
            return c
        if c is UNDEF:
            raise Unsupported('branch on uninitialised value')
        r = st.decided.get(c.id)
        if r is not None:
            return r
        if c.op == 'not':
            return not self.decide(st, c.args[0])
        if c.op == 'and':
            return self.decide(st, c.args[0]) and self.decide(st, c.args[1])
        if c.op == 'or':
            return self.decide(st, c.args[0]) or self.decide(st, c.args[1])
        k = self.num.cond(c)
        up = k is not None and bool((st.alive & k[0]).any())
        dn = k is not None and bool((st.alive & k[1]).any())
        r = None
        if not (up and dn and st.exact):
            r = st.ctx.quick(c)
        if r is None:
            r = st.ctx.unify(c)
            if r is not None:
                st.ctx.learn(c, r)
        if r is None:
            if not (up and dn and st.exact):
                ex = st.exact
                if not (dn and ex) and st.ctx.entails(c, self.feas_timeout):
                    r = True
                elif not (up and ex) and st.ctx.entails(T.b_not(c), self.feas_timeout):
                    r = False
        if r is not None:
            st.decided[c.id] = r
            return r
        wl = self.worklists[-1] if self.worklists else None
        if wl is None:
            raise Unsupported('fork inside static initialisation')
        o = self.fork(st)
        self.assume(o, T.b_not(c))
        o.decided[c.id] = False
        wl.append(o)
        self.assume(st, c)
        st.decided[c.id] = True
        return True
    def concretise(self, st, t):
        """fork over the values of a symbolic integer"""
        if isinstance(t, bool):
            return int(t)
        if isinstance(t, int):
            return t
        if t is UNDEF:
            raise Unsupported('uninitialised integer used as index')
        if t.sort == 'B':
            return 1 if self.decide(st, t) else 0
        lo, hi = self.irange(st, t)
        if lo is None:
            raise Unsupported('unbounded symbolic integer %s' % T.show(t))
        for k in range(lo, hi + 1):
            kk = k & M64 if k < 0 else k
            if k == hi and k != lo and False:
                return kk
            if self.decide(st, mk('ieq', (t, k), 'B')):
                return k
        raise PathEnd()
    def integer_value(self, st, a):
        """the integer that a (truncated) real takes on this path if the facts determine it"""
        name, x = 'trunc', a
        if a.op == 'fn' and a.args[0] in ('round', 'floor', 'ceil', 'trunc', 'rint'):
            name, x = a.args
        v = self.num.ev(x)
        if v is None:
            return None
        v = v[st.alive] if st.alive.any() else v
        v = v[np.isfinite(v)]
        if not len(v):
            return None
        f = {'round': np.round, 'rint': np.round, 'floor': np.floor, 'ceil': np.ceil, 'trunc': np.trunc}[name](v)
        if np.abs(f).max() > 1e15:
            return None
        n = int(f.min())
        if f.min() != f.max():
            if f.max() - f.min() > 12:
                return None
            # split the path at the values seen
            while n < int(f.max()):
                b = {'round': Fraction(2 * n + 1, 2), 'rint': Fraction(2 * n + 1, 2), 'floor': n + 1, 'ceil': n,
                     'trunc': n if n < 0 else n + 1}[name]
                if self.decide(st, (T.le if name == 'ceil' or name == 'trunc' and n < 0 else T.lt)(x, C(b))):
                    break
                n += 1
        lo, hi, lc, hc = {'round': (Fraction(2 * n - 1, 2), Fraction(2 * n + 1, 2), False, False), 'rint': (Fraction(2 * n - 1, 2), Fraction(2 * n + 1, 2), False, False),
                          'floor': (n, n + 1, True, False), 'ceil': (n - 1, n, False, True),
                          'trunc': (n if n > 0 else n - 1, n if n < 0 else n + 1, n > 0, n < 0)}[name]
        c1 = (T.le if lc else T.lt)(C(lo), x)
        c2 = (T.le if hc else T.lt)(x, C(hi))
        for c in (c1, c2):
            if c is False or (c is not True and st.decided.get(c.id) is not True and not st.ctx.entails(c, self.feas_timeout)):
                return None
        return n
    def irange(self, st, t):
        if t.op == 'var' and len(t.args) > 2:
            return t.args[1], t.args[2]
        if t.op == 'toint':
            r = st.ghost.get(('irange', t.id))
            if r:
                return r
            # find integer bounds with the prover
            x = t.args[0]
            lo = hi = None
            for k in range(0, 200):
                if st.ctx.entails(T.lt(C(-k - 1), x), 500):
                    lo = -k
                    break
                if k > 3:
                    return None, None
            for k in list(range(0, 200)):
                if st.ctx.entails(T.lt(x, C(k + 1)), 500):
                    hi = k
                    break
            if lo is None or hi is None:
                return None, None
            if st.ctx.entails(T.le(C(0), x), 500):
                lo = 0
            st.ghost[('irange', t.id)] = (lo, hi)
            return lo, hi
        if t.op in ('iadd', 'isub', 'imul'):
            a = self.irange(st, t.args[0]) if isinstance(t.args[0], Term) else (t.args[0], t.args[0])
            b = self.irange(st, t.args[1]) if isinstance(t.args[1], Term) else (t.args[1], t.args[1])
            if a[0] is None or b[0] is None:
                return None, None
            if t.op == 'iadd':
                return a[0] + b[0], a[1] + b[1]
            if t.op == 'isub':
                return a[0] - b[1], a[1] - b[0]
            xs = [x * y for x in a for y in b]
            return min(xs), max(xs)
        return None, None
    # ================================================================ calls
    def push_call(self, st, f, args, call):
        self.prep(f)
        fr = Frame()
        fr.fn = f
        fr.code = f.order
        fr.blocks = f.blocks
        r = {}
        for (nm, t, a), v in zip(f.params, args):
            r[nm] = v
        if f.vararg and len(args) > len(f.params):
            pass
        fr.regs = r
        fr.ip = 0
        fr.block = f.entry
        fr.call = call
        fr.tag = None
        st.frames.append(fr)
        if len(st.frames) > 400:
            raise Unsupported('call depth')
    def new_state(self):
        st = State()
        st.mem = {}
        st.owner = new_owner()
        st.frames = []
        st.ctx = Ctx(self.table)
        st.decided = {}
        st.counter = st.icounter = 0
        st.steps = 0
        st.stop = 0
        st.retval = None
        st.exc = None
        st.caught = []
        st.trace = []
        st.names = {}
        st.inames = {}
        st.base_facts = 0
        st.is_init = False
        st.ghost = {}
        st.loops = {}
        st.alive = np.ones(NSAMP, bool)
        st.exact = True
        return st
    def explore(self, st, on_done):
        """run st and all forks of it until frames drop to st.stop"""
        wl = [st]
        self.worklists.append(wl)
        n = 0
        try:
            while wl:
                s = wl.pop()
                if self.deadline and time.time() > self.deadline:
                    raise Budget('time budget exceeded')
                try:
                    self.run(s)
                except PathEnd:
                    continue
                except Unsupported as e:
                    if s.ctx.infeasible(5000):
                        continue
                    if not hasattr(e, 'at'):
                        e.at = [f.fn.name for f in s.frames][-4:] if s.frames and hasattr(s.frames[0], 'fn') else []
                        e.path = [T.show(f, 5) if isinstance(f, Term) else str(f) for f in s.ctx.facts[-14:]]
                    raise
                n += 1
                if n > self.max_paths:
                    raise Budget('too many paths')
                on_done(s)
        finally:
            self.worklists.pop()
        return n
    def eval_pure(self, st, f, args, extra=()):
        """evaluate function value in all paths from st without side effects; list of (conds, value)"""
        s = self.fork(st)
        s.counter = st.counter
        s.icounter = st.counter
        s.names = dict(st.names)
        s.inames = dict(st.names)
        s.frames = []
        s.stop = 0
        s.exc = None
        for c in extra:
            self.assume(s, c)
        nf = len(s.ctx.facts)
        out = []
        if callable(f):
            f(s)
        else:
            self.push_call(s, f, args, None)
        def done(x):
            if x.exc is not None:
                out.append((tuple(x.ctx.facts[nf:]), ('throw', x.exc)))
            else:
                out.append((tuple(x.ctx.facts[nf:]), x.retval))
        self.explore(s, done)
        return out
    # ================================================================ run loop
    def run(self, st):
        frames = st.frames
        while True:
            fr = frames[-1]
            code = fr.code
            regs = fr.regs
            ins = code[fr.ip]
            op = ins[0]
            st.steps += 1
            st.icounter = st.counter
            st.inames = st.names
            if st.steps > self.max_steps:
                raise Budget('step budget exceeded in ' + fr.fn.name)
            if self.deadline and st.steps % 512 == 0 and time.time() > self.deadline:
                raise Budget('time budget exceeded in ' + fr.fn.name)
            if op == 'load':
                a = ins[3]
                a = regs[a] if a.__class__ is str else a[1]
                if a.__class__ is not int:
                    a = self.concretise(st, a)
                try:
                    regs[ins[1]] = self.load_v(st, a, ins[2])
                except OutOfBounds as e:
                    self.oob(st, e)
                fr.ip += 1
            elif op == 'store':
                v = ins[3]
                v = regs[v] if v.__class__ is str else v[1]
                a = ins[4]
                a = regs[a] if a.__class__ is str else a[1]
                if a.__class__ is not int:
                    a = self.concretise(st, a)
                try:
                    self.store_v(st, a, ins[2], v)
                except OutOfBounds as e:
                    self.oob(st, e)
                fr.ip += 1
            elif op == 'gep':
                b = ins[2]
                b = regs[b] if b.__class__ is str else b[1]
                if b.__class__ is not int:
                    raise Unsupported('gep on symbolic pointer')
                b += ins[3]
                for r, sc, bits in ins[4]:
                    i = regs[r]
                    if i.__class__ is not int:
                        i = self.concretise(st, i)
                    if i < 0:
                        pass
                    elif i >> (bits - 1):
                        i -= 1 << bits
                    b += i * sc
                regs[ins[1]] = b & M64
                fr.ip += 1
            elif op == 'call':
                self.do_call(st, fr, ins)
                if len(frames) == st.stop:
                    return
            elif op == 'br':
                c = ins[2]
                c = regs[c] if c.__class__ is str else c[1]
                if c.__class__ is not bool:
                    c = self.decide(st, c)
                self.jump(st, fr, ins[3] if c else ins[4], ins[5])
            elif op == 'jmp':
                self.jump(st, fr, ins[2], ins[3])
            elif op == 'icmp':
                a = ins[4]
                b = ins[5]
                a = regs[a] if a.__class__ is str else a[1]
                b = regs[b] if b.__class__ is str else b[1]
                regs[ins[1]] = self.icmp(st, ins[2], ins[3], a, b)
                fr.ip += 1
            elif op == 'bin':
                a = ins[4]
                b = ins[5]
                a = regs[a] if a.__class__ is str else a[1]
                b = regs[b] if b.__class__ is str else b[1]
                regs[ins[1]] = self.binop(st, ins[2], ins[3], a, b)
                fr.ip += 1
            elif op == 'cast':
                a = ins[4]
                a = regs[a] if a.__class__ is str else a[1]
                regs[ins[1]] = self.cast(st, ins[2], ins[3], a, ins[5])
                fr.ip += 1
            elif op == 'alloca':
                n = ins[3]
                n = regs[n] if n.__class__ is str else n[1]
                regs[ins[1]] = self.alloc(st, ins[2] * n)
                fr.ip += 1
            elif op == 'ret':
                v = ins[2]
                if v is not None:
                    v = regs[v] if v.__class__ is str else v[1]
                frames.pop()
                if len(frames) == st.stop:
                    st.retval = v
                    return
                self.ret_to(st, frames[-1], fr.call, v)
            elif op == 'select':
                c = ins[2]
                c = regs[c] if c.__class__ is str else c[1]
                a = ins[3]
                b = ins[4]
                a = regs[a] if a.__class__ is str else a[1]
                b = regs[b] if b.__class__ is str else b[1]
                if c.__class__ is not bool:
                    if a.__class__ is bool and b.__class__ is bool:
                        r = c if a else T.b_not(c)
                        if a == b:
                            r = a
                        regs[ins[1]] = r
                        fr.ip += 1
                        continue
                    if isinstance(a, (bool, Term)) and isinstance(b, (bool, Term)) and (a.__class__ is bool or a.sort == 'B') and (b.__class__ is bool or b.sort == 'B'):
                        regs[ins[1]] = T.b_or(T.b_and(c, a), T.b_and(T.b_not(c), b))
                        fr.ip += 1
                        continue
                    if a is b or (a.__class__ is int and a == b):
                        c = True
                    else:
                        c = self.decide(st, c)
                regs[ins[1]] = a if c else b
                fr.ip += 1
            elif op == 'fcmp':
                a = ins[3]
                b = ins[4]
                a = regs[a] if a.__class__ is str else a[1]
                b = regs[b] if b.__class__ is str else b[1]
                regs[ins[1]] = self.fcmp(ins[2], a, b)
                fr.ip += 1
            elif op == 'fneg':
                a = ins[2]
                a = regs[a] if a.__class__ is str else a[1]
                regs[ins[1]] = T.neg(a)
                fr.ip += 1
            elif op == 'mov':
                a = ins[2]
                regs[ins[1]] = regs[a] if a.__class__ is str else a[1]
                fr.ip += 1
            elif op == 'extract':
                a = ins[2]
                v = regs[a] if a.__class__ is str else a[1]
                for i in ins[3]:
                    v = v[i]
                regs[ins[1]] = v
                fr.ip += 1
            elif op == 'insert':
                a = ins[2]
                v = regs[a] if a.__class__ is str else a[1]
                x = ins[3]
                x = regs[x] if x.__class__ is str else x[1]
                regs[ins[1]] = self.insert(v, x, ins[4])
                fr.ip += 1
            elif op == 'switch':
                v = ins[2]
                v = regs[v] if v.__class__ is str else v[1]
                if isinstance(v, Term):
                    tgt = None
                    for k, l in ins[4].items():
                        if self.decide(st, mk('ieq', (v, k), 'B')):
                            tgt = l
                            break
                    if tgt is None:
                        tgt = ins[3]
                else:
                    tgt = ins[4].get(v, ins[3])
                self.jump(st, fr, tgt, ins[5])
            elif op == 'landingpad':
                regs[ins[1]] = (st.exc[0], self.selector(st, ins))
                st.exc = None
                fr.ip += 1
            elif op == 'resume':
                v = ins[2]
                v = regs[v] if v.__class__ is str else v[1]
                st.exc = (v[0], st.ghost[('exc', v[0])])
                self.unwind(st, st.exc, True)
                if len(frames) == st.stop:
                    return
            elif op == 'unreachable':
                raise Unsupported('unreachable reached in ' + fr.fn.name)
            elif op == 'atomicrmw':
                a = ins[4]
                a = regs[a] if a.__class__ is str else a[1]
                v = ins[5]
                v = regs[v] if v.__class__ is str else v[1]
                bits = ins[3]
                mt = ('i', bits // 8, bits)
                old = self.load_v(st, a, mt)
                o = ins[2]
                if o == 'add':
                    nv = (old + v) & ((1 << bits) - 1)
                elif o == 'sub':
                    nv = (old - v) & ((1 << bits) - 1)
                elif o == 'xchg':
                    nv = v
                else:
                    raise Unsupported('atomicrmw ' + o)
                self.store_v(st, a, mt, nv)
                regs[ins[1]] = old
                fr.ip += 1
            elif op == 'cmpxchg':
                a = ins[3]
                a = regs[a] if a.__class__ is str else a[1]
                e = ins[4]
                e = regs[e] if e.__class__ is str else e[1]
                v = ins[5]
                v = regs[v] if v.__class__ is str else v[1]
                old = self.load_v(st, a, ins[2])
                ok = old == e
                if ok:
                    self.store_v(st, a, ins[2], v)
                regs[ins[1]] = (old, ok)
                fr.ip += 1
            elif op == 'nop':
                if ins[1]:
                    regs[ins[1]] = 0
                fr.ip += 1
            else:
                raise Unsupported('instruction ' + str(ins[:3]))
    def insert(self, v, x, idx):
        l = list(v)
        if len(idx) == 1:
            l[idx[0]] = x
        else:
            l[idx[0]] = self.insert(l[idx[0]], x, idx[1:])
        return tuple(l)
    def oob(self, st, e):
        self.fail(st, 'memory-safety', str(e) + ' in ' + st.frames[-1].fn.name)
        raise PathEnd()
    def jump(self, st, fr, tgt, cur):
        ip = fr.blocks[tgt]
        code = fr.code
        ins = code[ip]
        if ins[0] == 'phi':
            regs = fr.regs
            new = []
            while ins[0] == 'phi':
                v = ins[2][cur]
                new.append((ins[1], regs[v] if v.__class__ is str else v[1]))
                ip += 1
                ins = code[ip]
            for k, v in new:
                regs[k] = v
        fr.ip = ip
        fr.block = tgt
        if self.loop_specs and fr.fn in self.loop_specs:
            self.loop_hook(st, fr, tgt, cur)
    loop_specs = None
    def ret_to(self, st, fr, call, v):
        if call[1]:
            fr.regs[call[1]] = v
        if call[7] is None:
            fr.ip += 1
        else:
            self.jump(st, fr, call[7], call[9])
    def do_call(self, st, fr, ins):
        regs = fr.regs
        args = [regs[a] if a.__class__ is str else a[1] for a in ins[4]]
        name = ins[2]
        if name is None:
            a = ins[3]
            a = regs[a] if a.__class__ is str else a[1]
            if a.__class__ is not int:
                raise Unsupported('call through symbolic pointer')
            t = self.fn_by_id.get(a >> 32)
            if t is None:
                if a == 0:
                    raise Unsupported('call through null pointer')
                raise Unsupported('call through non-function pointer 0x%x in %s' % (a, fr.fn.name))
            m, name = t
        else:
            m = fr.fn.module
        if ins[5]:
            for i, n in ins[5].items():
                p = self.alloc(st, n)
                self.memcpy(st, p, args[i], n)
                args[i] = p
        try:
            self.invoke_fn(st, fr, m, name, args, ins)
        except Throw as e:
            obj = e.obj or self.alloc(st, 64, True)
            st.exc = (obj, e.ti)
            st.ghost[('exc', obj)] = e.ti
            self.unwind(st, st.exc, False)
    def invoke_fn(self, st, fr, m, name, args, ins):
        plain = name[1:]
        if plain[0] == '"':
            plain = plain.strip('"')
        h = BUILTIN.get(plain)
        if h is None and plain.startswith('llvm.'):
            h = intrinsic(plain)
            BUILTIN[plain] = h
        if h is not None:
            v = h(self, st, args, ins)
            if v is not PENDING:
                self.ret_to(st, fr, ins, v)
            return
        rp = self.replacement(plain)
        if rp is not None:
            if callable(rp):
                v = rp(self, st, args, ins)
                if v is not PENDING:
                    self.ret_to(st, fr, ins, v)
                return
            f = self.funcs.get('@' + rp)
            if f is None:
                raise Unsupported('replacement %s missing' % rp)
            # do not replace inside the contract of the function itself
            self.push_call(st, f, args, ins)
            return
        if self.is_noop(plain):
            v = self.noop(st, plain, args, ins)
            self.ret_to(st, fr, ins, v)
            return
        f = self.resolve_fn(m, name)
        if f is None and self.loader and self.loader(plain):
            f = self.resolve_fn(m, name)
        if f is None:
            if plain in THROWERS:
                raise Throw(THROWERS[plain])
            v = self.external(st, plain, args, ins)
            self.ret_to(st, fr, ins, v)
            return
        self.calls_seen[plain] = self.calls_seen.get(plain, 0) + 1
        self.push_call(st, f, args, ins)
    def replacement(self, plain):
        r = self.replace.get(plain, 0)
        if r != 0:
            return r
        d = self.demangled.get(plain, plain)
        r = None
        for rx, t in self.replace_pat:
            if rx.search(d):
                r = t
                break
        self.replace[plain] = r
        return r
    def is_noop(self, plain):
        r = self.noop_cache.get(plain)
        if r is None:
            d = self.demangled.get(plain, plain)
            d2 = re.sub(r'^(?:virtual thunk to |non-virtual thunk to )', '', d)
            # template functions are demangled with their return type in front
            cand = [d2]
            base = d2.split('(')[0]
            for pre in re.findall(r'(?:(?<= )|^)((?:std|fmt|spdlog|PROPOSAL)::[^ ].*)', base):
                cand.append(pre)
            r = any(NOOP_RE.match(c) for c in cand[:1])
            if plain.startswith('_ZStlt'):   # operator< <char, ..> demangles like operator<<
                r = False
            elif not r:
                # return type followed by name: skip a balanced template return type
                x = strip_ret(d2)
                r = bool(NOOP_RE.match(x))
            self.noop_cache[plain] = r
        return r
    def noop(self, st, plain, args, ins):
        d = self.demangled.get(plain, plain)
        self.assumptions.add('logging, string formatting and stream output have no effect on results')
        if ('::str()' in d or 'to_string(' in d) and args:
            self.empty_string(st, args[0])
            return None
        rt = ins[6]
        if rt == 'void':
            if 'Logging::Get' in d and args:
                self.memset(st, args[0], 0, 16)
            return None
        if rt == 'ptr':
            return args[0] if args else 0
        if rt == 'double':
            return T.ZERO
        if isinstance(rt, tuple) and rt[0] == 'i' and rt[1] == 1:
            return False
        return 0
    def empty_string(self, st, a):
        self.store_v(st, a, ('i', 8, 64), a + 16)
        self.store_v(st, a + 8, ('i', 8, 64), 0)
        self.memset(st, a + 16, 0, 16)
    def external(self, st, plain, args, ins):
        d = self.demangled.get(plain, plain)
        if re.match(r'^(std::(logic_error|runtime_error|out_of_range|invalid_argument|exception|bad_\w+|length_error|domain_error|range_error|__exception_ptr|overflow_error)::)', d):
            return 0
        raise Unsupported('external function %s (%s)' % (plain, d))
    # ================================================================ exceptions
    def unwind(self, st, exc, from_resume):
        """find a landing pad, starting at the caller of the current instruction"""
        frames = st.frames
        first = True
        while True:
            if len(frames) == st.stop:
                st.exc = exc
                return
            fr = frames[-1]
            ins = fr.code[fr.ip]
            if not (first and from_resume) and ins[0] == 'call' and ins[8] is not None:
                lp_ip = fr.blocks[ins[8]]
                j = lp_ip
                while fr.code[j][0] == 'phi':
                    j += 1
                lp = fr.code[j]
                if self.lp_matches(exc, lp):
                    st.exc = exc
                    self.jump(st, fr, ins[8], ins[9])
                    return
            first = False
            frames.pop()
            if len(frames) == st.stop:
                st.exc = exc
                return
    def bases(self, ti):
        r = self.tinfo.get(ti)
        if r is None:
            r = set([ti])
            if ti in STD_BASES:
                for b in STD_BASES[ti]:
                    r |= self.bases(b)
            else:
                for m in self.modules:
                    g = m.globals.get('@' + ti)
                    if g is not None and not g.decl:
                        for b in re.findall(r'@(_ZTI[-a-zA-Z$._0-9]+)', g.text):
                            if b != ti:
                                r |= self.bases(b)
                        break
            self.tinfo[ti] = r
        return r
    def ti_of(self, x):
        """canonical name of an exception type"""
        return x
    def lp_matches(self, exc, lp):
        if lp[3]:
            return True
        for k, a in lp[2]:
            if k == 'filter':
                return True
            if a == 0:
                return True
            n = self.tiname(a)
            if n in self.bases(exc[1]):
                return True
        return False
    def selector(self, st, lp):
        exc = st.exc
        for k, a in lp[2]:
            if k == 'catch':
                if a == 0:
                    return 1
                if self.tiname(a) in self.bases(exc[1]):
                    return (a >> 32) & 0x7fffffff
        return 0
    # ================================================================ operations
    def fcmp(self, pred, a, b):
        if pred in ('ord', 'uno'):
            n = a.op == 'nan' or b.op == 'nan'
            return (not n) if pred == 'ord' else n
        if a.op == 'nan' or b.op == 'nan':
            return pred[0] == 'u'
        k = pred[1:]
        if k == 'eq':
            return T.eq(a, b)
        if k == 'ne':
            return T.b_not(T.eq(a, b))
        if k == 'lt':
            return T.lt(a, b)
        if k == 'le':
            return T.le(a, b)
        if k == 'gt':
            return T.lt(b, a)
        if k == 'ge':
            return T.le(b, a)
        raise Unsupported('fcmp ' + pred)
    def sgn(self, a, bits):
        if a >> (bits - 1):
            return a - (1 << bits)
        return a
    def icmp(self, st, pred, bits, a, b):
        ca, cb = a.__class__, b.__class__
        if ca is bool and cb is bool or (isinstance(a, Term) and a.sort == 'B') or (isinstance(b, Term) and b.sort == 'B'):
            if pred == 'eq':
                return T.b_not(T.b_xor(a if not ca is int else bool(a), b if not cb is int else bool(b)))
            if pred == 'ne':
                return T.b_xor(a if not ca is int else bool(a), b if not cb is int else bool(b))
            a, b = self.concretise(st, a), self.concretise(st, b)
            ca = cb = int
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if ca is Term or cb is Term:
            neg = False
            if ca is int:
                a = self.sgn(a, bits) if pred[0] != 'u' else a
            if cb is int:
                b = self.sgn(b, bits) if pred[0] != 'u' else b
            if a is b:
                return pred in ('eq', 'uge', 'ule', 'sge', 'sle')
            if pred == 'eq':
                return self.ieq(a, b)
            if pred == 'ne':
                return T.b_not(self.ieq(a, b))
            k = pred[1:]
            if k == 'lt':
                return mk('ilt', (a, b), 'B')
            if k == 'le':
                return mk('ile', (a, b), 'B')
            if k == 'gt':
                return mk('ilt', (b, a), 'B')
            return mk('ile', (b, a), 'B')
        a = int(a)
        b = int(b)
        if pred == 'eq':
            return a == b
        if pred == 'ne':
            return a != b
        if pred[0] == 's':
            a = self.sgn(a & ((1 << bits) - 1), bits)
            b = self.sgn(b & ((1 << bits) - 1), bits)
        else:
            a &= (1 << bits) - 1
            b &= (1 << bits) - 1
        k = pred[1:]
        if k == 'lt':
            return a < b
        if k == 'le':
            return a <= b
        if k == 'gt':
            return a > b
        return a >= b
    def ieq(self, a, b):
        # injectivity of uninterpreted hashes is not assumed
        if isinstance(a, int):
            a, b = b, a
        if isinstance(b, Term) and a.id > b.id:
            a, b = b, a
        return mk('ieq', (a, b), 'B')
    def sign_const(self, st, b):
        """the sign of b as a constant, when it is decided (for arithmetic with infinity)"""
        for c, k in ((T.lt(T.C(0), b), 1), (T.lt(b, T.C(0)), -1)):
            if st.ctx.decide(c) is True:
                return T.C(k)
        return b
    def fdiv(self, st, a, b):
        if a.op in ('inf', 'ninf') and not T.special(b) and T.sgn_c(b) is None:
            b = self.sign_const(st, b)
        return T.div(a, b)
    def fmul(self, st, a, b):
        if a.op in ('inf', 'ninf') and not T.special(b) and T.sgn_c(b) is None:
            b = self.sign_const(st, b)
        elif b.op in ('inf', 'ninf') and not T.special(a) and T.sgn_c(a) is None:
            a = self.sign_const(st, a)
        return T.mul(a, b)
    def binop(self, st, op, bits, a, b):
        if bits is None:
            if op == 'fadd':
                return T.add(a, b)
            if op == 'fsub':
                return T.sub(a, b)
            if op == 'fmul':
                return self.fmul(st, a, b)
            if op == 'fdiv':
                return self.fdiv(st, a, b)
            return T.fn('fmod', a, b)
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if bits == 1:
            if op == 'and':
                return T.b_and(self.tob(a), self.tob(b))
            if op == 'or':
                return T.b_or(self.tob(a), self.tob(b))
            if op == 'xor':
                return T.b_xor(self.tob(a), self.tob(b))
        if isinstance(a, bool):
            a = int(a)
        if isinstance(b, bool):
            b = int(b)
        if a.__class__ is Term or b.__class__ is Term:
            if a.__class__ is Term and a.sort == 'B':
                a = self.concretise(st, a)
            if b.__class__ is Term and b.sort == 'B':
                b = self.concretise(st, b)
            if a.__class__ is Term or b.__class__ is Term:
                return self.sym_int(op, bits, a, b)
        mask = (1 << bits) - 1
        if op == 'add':
            return (a + b) & mask
        if op == 'sub':
            return (a - b) & mask
        if op == 'mul':
            return (a * b) & mask
        if op == 'and':
            return a & b & mask
        if op == 'or':
            return (a | b) & mask
        if op == 'xor':
            return (a ^ b) & mask
        if op == 'shl':
            return (a << b) & mask
        if op == 'lshr':
            return (a & mask) >> b
        if op == 'ashr':
            return (self.sgn(a & mask, bits) >> b) & mask
        if b == 0:
            raise Unsupported('integer division by zero')
        if op == 'udiv':
            return a // b
        if op == 'urem':
            return a % b
        x, y = self.sgn(a & mask, bits), self.sgn(b & mask, bits)
        q = abs(x) // abs(y)
        if (x < 0) != (y < 0):
            q = -q
        if op == 'sdiv':
            return q & mask
        if op == 'srem':
            return (x - q * y) & mask
        raise Unsupported(op)
    def tob(self, a):
        if isinstance(a, int) and not isinstance(a, bool):
            return bool(a & 1)
        return a
    def sym_int(self, op, bits, a, b):
        if isinstance(a, int):
            a = self.sgn(a, bits)
        if isinstance(b, int):
            b = self.sgn(b, bits)
        if op == 'add':
            if b == 0:
                return a
            if a == 0:
                return b
            if isinstance(a, Term) and a.op == 'iadd' and isinstance(a.args[1], int) and isinstance(b, int):
                s = a.args[1] + b
                return a.args[0] if s == 0 else mk('iadd', (a.args[0], s), 'I')
            if isinstance(a, int):
                a, b = b, a
            return mk('iadd', (a, b), 'I')
        if op == 'sub':
            if isinstance(b, int):
                return self.sym_int('add', bits, a, (-b) & ((1 << bits) - 1))
            if a is b:
                return 0
            return mk('isub', (a, b), 'I')
        if op == 'mul':
            if isinstance(a, int):
                a, b = b, a
            if b == 1:
                return a
            if b == 0:
                return 0
            return mk('imul', (a, b), 'I')
        if op == 'and' and (a == 0 or b == 0):
            return 0
        if op in ('or', 'xor') and b == 0:
            return a
        if op in ('or', 'xor') and a == 0:
            return b
        if op == 'xor' and a is b:
            return 0
        if op in ('xor', 'and', 'or') and isinstance(a, Term) and isinstance(b, Term) and a.id > b.id:
            a, b = b, a
        return T.uf('bv_' + op + str(bits), (a, b), 'I')
    def cast(self, st, op, t, a, t2):
        if a is UNDEF:
            return UNDEF
        if op in ('bitcast', 'ptrtoint', 'inttoptr'):
            if t == 'double' and t2 == ('i', 64):
                if a.op == 'c':
                    return int.from_bytes(struct.pack('<d', float(a.args[0])), 'little')
                return T.uf('bits', (a,), 'I')
            if t == ('i', 64) and t2 == 'double':
                if isinstance(a, Term):
                    if a.op == 'uf' and a.args[0] == 'bits':
                        return a.args[1]
                    raise Unsupported('bitcast')
                return C(struct.unpack('<d', a.to_bytes(8, 'little'))[0])
            return a
        if op == 'zext':
            if t[1] == 1:
                if a.__class__ is bool:
                    return int(a)
                if a.__class__ is Term:
                    return 1 if self.decide(st, a) else 0
            return a
        if op == 'sext':
            if a.__class__ is Term and a.sort == 'B' or a.__class__ is bool:
                return ((1 << t2[1]) - 1) if self.decide(st, a) else 0
            if a.__class__ is Term:
                return a
            return self.sgn(a, t[1]) & ((1 << t2[1]) - 1)
        if op == 'trunc':
            if a.__class__ is Term:
                if t2[1] == 1:
                    return mk('ine0', (a,), 'B')
                if t2[1] == 32 and a.op in ('toint', 'var', 'iadd', 'isub'):
                    return a
                return T.uf('trunc%d' % t2[1], (a,), 'I')
            v = int(a) & ((1 << t2[1]) - 1)
            return bool(v) if t2[1] == 1 else v
        if op in ('fpext', 'fptrunc'):
            return a
        if op in ('sitofp', 'uitofp'):
            if a.__class__ is Term:
                if a.sort == 'B':
                    return C(1 if self.decide(st, a) else 0)
                if a.op == 'toint' and False:
                    pass
                return mk('toreal', (a,), 'R')
            if a.__class__ is bool:
                return C((-1 if op == 'sitofp' else 1) if a else 0)
            if op == 'sitofp':
                a = self.sgn(a, t[1])
            return C(a)
        if op in ('fptosi', 'fptoui'):
            if a.op == 'c':
                f = a.args[0]
                q = abs(f.numerator) // f.denominator
                if f < 0:
                    q = -q
                return q & ((1 << t2[1]) - 1)
            if a.op == 'toreal':
                return a.args[0]
            if T.special(a):
                return 0
            k = self.integer_value(st, a)
            if k is not None:
                return k & ((1 << t2[1]) - 1)
            return mk('toint', (a,), 'I')
        raise Unsupported('cast ' + op)
    # ================================================================ obligations
    def fail(self, st, name, detail, kind='safety'):
        o = Obligation()
        o.name = name
        o.harness = self.current
        # only a failure when the path is feasible
        t0 = time.time()
        if not (st.exact and st.alive.any()) and st.ctx.infeasible(3000):
            o.status = 'discharged'
            o.method = 'infeasible path'
        else:
            o.status = 'failed'
            o.method = ''
        o.detail = detail
        o.kind = kind
        o.model = None
        if o.status == 'failed':
            try:
                o.model = self.sample_model(st, None) or self.inputs(st, None)
            except Exception:
                pass
        o.time = time.time() - t0
        o.path = [T.show(f) if isinstance(f, Term) else str(f) for f in st.ctx.facts] if o.status == 'failed' else []
        self.obligations.append(o)
    def obligation(self, st, name, fnc, kind, detail=None, ctxmodel=None):
        t0 = time.time()
        o = Obligation()
        o.name = name
        o.harness = self.current
        o.kind = kind
        o.detail = ''
        o.model = None
        m = fnc()
        if m:
            o.status = 'discharged'
            o.method = m
            o.path = []
        else:
            o.status = 'failed'
            o.method = ''
            o.detail = detail() if detail else ''
            o.path = [T.show(f, 8) if isinstance(f, Term) else str(f) for f in st.ctx.facts]
            try:
                o.model = ctxmodel() if ctxmodel else None
            except Exception:
                o.model = None
        o.time = time.time() - t0
        self.obligations.append(o)
        if o.status != 'discharged':
            self.failures()
        return o.status == 'discharged'
    nfail = 0
    def failures(self):
        self.nfail += 1
        if self.nfail == 3:
            self.eq_timeout = self.assert_timeout = 800
        if self.nfail >= 10 or self.deadline and self.nfail >= 3:
            self.deadline = min(self.deadline or 1e18, time.time() + 20)
        if self.nfail >= 24:
            raise EnoughFailures()
    def check_assert(self, st, c, name):
        ctx = st.ctx
        model = [None]
        def go():
            if c is True:
                return 'evaluation'
            if c is False:
                model[0] = self.sample_model(st, None)
                return 'z3:infeasible' if model[0] is None and ctx.infeasible(self.assert_timeout) else None
            if st.decided.get(c.id) is True:
                return 'path-condition'
            if ctx.quick(c):
                return 'sign-analysis'
            if ctx.unify(c):
                return 'path-condition'
            k = self.num.cond(c)
            if k is not None and st.exact:
                bad = st.alive & k[1]
                if bad.any():
                    model[0] = self.sample_model(st, bad)
                    if bad.sum() >= 3:
                        return None
            if ctx.entails(c, self.assert_timeout):
                return 'z3'
            return None
        return self.obligation(st, name, go, 'assert', lambda: 'cannot prove ' + (T.show(c, 10) if isinstance(c, Term) else str(c)),
                               lambda: model[0] or self.inputs(st, c))
    def sample_model(self, st, mask):
        if not st.exact:
            return None
        m = st.alive if mask is None else st.alive & mask
        i = np.flatnonzero(m)
        if not len(i):
            return None
        r = self.num.env(i[0])
        for k, v in st.ghost.items():
            if k[0] == 'choice':
                r[k[1]] = v
        return r
    def check_eq(self, st, a, b, name):
        ctx = st.ctx
        import os
        if os.environ.get('VF_DEBUG') and not ctx.equal(a, b):
            from .norm import p_add, p_scale
            d = p_add(ctx.nf(a), p_scale(ctx.nf(b), -1.0))
            q = ctx.clear(d)
            print('NEQ', name, ctx.show_poly(d, 6)[:6000])
            print('  CODE', ctx.show_poly(ctx.nf(a), 6)[:3000])
            print('  SPEC', ctx.show_poly(ctx.nf(b), 6)[:3000])
            print('  CLEARED', len(q) if q is not None else None, ctx.show_poly(q, 5)[:4000] if q else '')
            for f in ctx.facts[-12:]:
                print('   |', T.show(f, 6)[:200] if isinstance(f, Term) else f)
        model = [None]
        def go():
            if a is b:
                return 'normal-form'
            if T.special(a) or T.special(b):
                model[0] = self.sample_model(st, None)
                return 'z3:infeasible' if ctx.infeasible(self.eq_timeout) else None
            bad = None
            if st.exact and st.alive.any():
                x, y = self.num.ev(a), self.num.ev(b)
                if x is not None and y is not None:
                    with np.errstate(all='ignore'):
                        fin = st.alive & np.isfinite(x) & np.isfinite(y)
                        rel = np.abs(x - y) / np.maximum(np.abs(x), np.abs(y))
                        rel = np.where(x == y, 0, rel)
                        bad = fin & (rel > (5e-2 if has_int(a) or has_int(b) else 1e-6))
                        strong = fin & (rel > 5e-2)
                    if strong.sum() >= max(3, 0.3 * fin.sum()):
                        model[0] = self.sample_model(st, bad)
                        return None
            if ctx.equal(a, b):
                return 'normal-form'
            if bad is not None and bad.any():
                model[0] = self.sample_model(st, bad)
                if bad.sum() >= 3:
                    return None
            a2, b2 = ctx.kill_zeros(a, b)
            if (a2 is not a or b2 is not b) and not T.special(a2) and not T.special(b2) and ctx.equal(a2, b2):
                return 'normal-form'
            if ctx.entails(T.eq(a, b), self.eq_timeout):
                return 'z3'
            return None
        return self.obligation(st, name, go, 'eq', lambda: 'cannot prove  %s  ==  %s' % (T.show(a, 12), T.show(b, 12)),
                               lambda: model[0] or self.inputs(st, T.eq(a, b) if not (T.special(a) or T.special(b)) else None))
    def inputs(self, st, c):
        r = st.ctx.model(c) or {}
        for k, v in st.ghost.items():
            if k[0] == 'choice':
                r[k[1]] = v
        return r
    # ================================================================ harness
    def run_harness(self, fname):
        self.current = fname
        f = self.funcs.get('@' + fname)
        self.nosplit = False
        st = self.new_state()
        self.push_call(st, f, [], None)
        n0 = len(self.obligations)
        res = {'paths': 0, 'threw': 0, 'ctx': None}
        def done(s):
            res['paths'] += 1
            if s.exc is not None:
                res['threw'] += 1
                self.fail(s, 'no-unexpected-exception', 'uncaught exception %s' % s.exc[1], 'exception')
        self.explore(st, done)
        return res

def has_int(t):
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if not isinstance(x, Term) or x.id in seen:
            continue
        seen.add(x.id)
        if x.op == 'int':
            return True
        st.extend(x.args)
    return False

class EnoughFailures(Exception):
    pass

class OutOfBounds(Exception):
    pass

def strip_ret(d):
    """remove a leading return type from a demangled template function"""
    depth = 0
    last = 0
    i = 0
    n = len(d)
    while i < n:
        c = d[i]
        if c in '<([{':
            if c == '(' and depth == 0 and not d.startswith('(anonymous', i):
                break
            depth += 1
        elif c in '>)]}':
            depth -= 1
        elif c == ' ' and depth == 0:
            if d[i - 8:i] != 'operator' :
                last = i + 1
        i += 1
    return d[last:]

PENDING = object()
BUILTIN = {}

def builtin(*names):
    def deco(f):
        for n in names:
            BUILTIN[n] = f
        return f
    return deco

from . import builtins as _b   # registers everything
