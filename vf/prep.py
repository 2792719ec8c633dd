"""Function bodies -> executable instruction tuples."""
import re, struct
from fractions import Fraction
from .ir import *
from . import terms as T

CASTS = {'trunc', 'zext', 'sext', 'ptrtoint', 'inttoptr', 'bitcast', 'fptosi', 'fptoui', 'sitofp', 'uitofp', 'fpext', 'fptrunc', 'addrspacecast'}
BIN = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor', 'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}

UNDEF = type('Undef', (), {'__repr__': lambda s: 'undef'})()

def dec_double(tok):
    if tok.startswith('0x'):
        if tok[2] in 'KLMHR':
            h = tok[3:]
            if tok[2] == 'K':
                v = int(h, 16)
                man = v & ((1 << 64) - 1)
                ex = (v >> 64) & 0x7fff
                s = -1 if v >> 79 else 1
                if ex == 0x7fff:
                    return T.INF if s > 0 else T.NINF
                return T.C(Fraction(man) * Fraction(2) ** (ex - 16383 - 63) * s)
            raise T.Unsupported('fp const ' + tok)
        f = struct.unpack('>d', struct.pack('>Q', int(tok[2:], 16)))[0]
        return T.C(f)
    return T.C(float(tok))

class FnPrep(object):
    def __init__(self, eng, f):
        self.eng = eng
        self.f = f
        self.m = f.module
    # ---------------------------------------------------------- constants
    def const(self, p, ty):
        """parse a value of type ty; returns register name (str) or ('k', value)"""
        k, v = p.t[p.i]
        if k == 'id':
            p.i += 1
            if v[0] == '%':
                return v
            return ('k', self.eng.addr_of(self.m, v))
        return ('k', self.cvalue(p, ty))
    def cvalue(self, p, ty):
        k, v = p.t[p.i]
        rt = self.m.rtype(ty) if isinstance(ty, tuple) else ty
        if k == 'id':
            p.i += 1
            return self.eng.addr_of(self.m, v)
        if k in ('num', 'hex'):
            p.i += 1
            if rt in ('double', 'float', 'x86_fp80', 'half'):
                return dec_double(v)
            n = int(v)
            return n & ((1 << rt[1]) - 1)
        if k == 'word':
            if v in ('true', 'false'):
                p.i += 1
                return v == 'true'
            if v == 'null' or v == 'none':
                p.i += 1
                return 0
            if v in ('undef', 'poison'):
                p.i += 1
                return self.undef(rt)
            if v == 'zeroinitializer':
                p.i += 1
                return self.zero(rt)
            if v == 'getelementptr':
                p.i += 1
                parse_attrs(p)
                p.expect('(')
                bt = parse_type(p)
                p.expect(',')
                t0 = parse_type(p)
                parse_attrs(p)
                base = self.cvalue(p, t0)
                idx = []
                while p.accept(','):
                    p.accept('inrange')
                    t1 = parse_type(p)
                    idx.append((t1, ('k', self.cvalue(p, t1))))
                p.expect(')')
                off, dyn = self.gep(bt, idx)
                return base + off
            if v in ('inttoptr', 'ptrtoint', 'bitcast', 'trunc', 'zext'):
                p.i += 1
                p.expect('(')
                t0 = parse_type(p)
                x = self.cvalue(p, t0)
                p.expect('to')
                parse_type(p)
                p.expect(')')
                return x
            if v in ('add', 'sub'):
                p.i += 1
                parse_attrs(p)
                p.expect('(')
                t0 = parse_type(p)
                a = self.cvalue(p, t0)
                p.expect(',')
                t1 = parse_type(p)
                b = self.cvalue(p, t1)
                p.expect(')')
                return (a + b if v == 'add' else a - b) & (2 ** 64 - 1)
        if v in ('{', '[', '<'):
            close = {'{': '}', '[': ']', '<': '>'}[v]
            p.i += 1
            packed = False
            if v == '<' and p.peek() == '{':
                p.i += 1
                close = '}'
                packed = True
            out = []
            while not p.accept(close):
                t = parse_type(p)
                out.append(self.cvalue(p, t))
                p.accept(',')
            if packed:
                p.expect('>')
            return tuple(out)
        if k == 'cstr':
            p.i += 1
            return decode_cstr(v)
        if k in ('md', 'mdstr'):
            p.i += 1
            return ('md', v)
        raise SyntaxError('const %r' % (p.t[p.i:p.i + 8],))
    def undef(self, rt):
        if rt in ('double', 'float', 'x86_fp80'):
            return T.var('undef')
        if isinstance(rt, tuple) and rt[0] in 's':
            return tuple(self.undef(self.m.rtype(e)) for e in rt[1])
        if isinstance(rt, tuple) and rt[0] in 'av':
            return tuple(self.undef(self.m.rtype(rt[2])) for _ in range(rt[1]))
        if rt == ('i', 1):
            return False
        return 0
    def zero(self, rt):
        if rt in ('double', 'float', 'x86_fp80'):
            return T.ZERO
        if rt == 'ptr':
            return 0
        if rt[0] == 'i':
            return False if rt[1] == 1 else 0
        if rt[0] == 's':
            return tuple(self.zero(self.m.rtype(e)) for e in rt[1])
        return tuple(self.zero(self.m.rtype(rt[2])) for _ in range(rt[1]))
    def gep(self, bt, idx):
        """constant offset, list of (reg, scale, bits)"""
        off = 0
        dyn = []
        cur = bt
        for n, (ity, iv) in enumerate(idx):
            if n == 0:
                sz = self.m.size(cur)
                nxt = cur
            else:
                rt = self.m.rtype(cur)
                if rt[0] == 's':
                    i = iv[1]
                    off += self.m.offset(cur, i)
                    cur = rt[1][i]
                    continue
                nxt = rt[2]
                sz = self.m.size(nxt)
            if isinstance(iv, str):
                dyn.append((iv, sz, ity[1]))
            else:
                i = iv[1]
                b = ity[1]
                if i >> (b - 1):
                    i -= 1 << b
                off += i * sz
            cur = nxt
        return off, dyn
    # ---------------------------------------------------------- function
    def prepare(self):
        f = self.f
        head = re.sub(r' comdat\(\$[^)]*\)', '', f.lines[0])
        toks = tokenize(head[len('define '):].rsplit('{', 1)[0] if ' personality ' not in head else head[len('define '):].split(' personality ')[0])
        p = P(toks)
        parse_attrs(p)
        f.ret = parse_type(p)
        parse_attrs(p)
        assert p.kind() == 'id', head
        p.next()
        p.expect('(')
        f.params = []
        f.vararg = False
        n = 0
        while not p.accept(')'):
            if p.accept('...'):
                f.vararg = True
                continue
            t = parse_type(p)
            a = parse_attrs(p)
            if p.kind() == 'id':
                nm = p.next()
            else:
                nm = '%%%d' % n
            n += 1
            f.params.append((nm, t, a))
            p.accept(',')
        # join continuation lines
        raw = []
        for l in f.lines[1:]:
            if l.startswith('          ') and raw:
                raw[-1] += ' ' + l.strip()
            elif l.startswith('    ') and raw and '[' in raw[-1] and raw[-1].lstrip().startswith('switch'):
                raw[-1] += ' ' + l.strip()
            elif l.strip() == ']' and raw and raw[-1].lstrip().startswith('switch'):
                raw[-1] += ' ]'
            else:
                raw.append(l)
        code = []
        blocks = {}
        first = True
        lab = None
        for l in raw:
            if not l:
                continue
            if l[0] != ' ':
                m = re.match(r'^("[^"]*"|[-a-zA-Z$._0-9]+):', l)
                lab = '%' + m.group(1)
                if lab[1] == '"':
                    pass
                blocks[lab] = len(code)
                first = False
                continue
            if first:
                # unnamed entry block
                lab = '%%%d' % n
                blocks[lab] = 0
                f.entry = lab
                first = False
            code.append(l)
        f.entry = [b for b, i in blocks.items() if i == 0][0]
        # second pass
        starts = {i: b for b, i in blocks.items()}
        out = []
        cur = None
        for i, l in enumerate(code):
            if i in starts:
                cur = starts[i]
            out.append(self.inst(l, cur))
        f.blocks = blocks
        f.order = out
        f.parsed = True
        f.loops = None
        return f
    def inst(self, l, cur):
        c = l.find(', !')
        s = l
        # strip trailing metadata attachments (", !tbaa !5", ", !prof ...")
        s = re.sub(r'(, ![a-zA-Z_.]+ ![0-9]+)+\s*$', '', s)
        toks = tokenize(s)
        p = P(toks)
        dest = None
        if p.kind() == 'id' and p.peek(1) == '=':
            dest = p.next()
            p.next()
        op = p.next()
        if op in ('tail', 'musttail', 'notail'):
            op = p.next()
        m = self.m
        if op in BIN:
            parse_attrs(p)
            t = parse_type(p)
            a = self.const(p, t)
            p.expect(',')
            b = self.const(p, t)
            bits = t[1] if isinstance(t, tuple) and t[0] == 'i' else None
            if isinstance(t, tuple) and t[0] == 'v':
                return ('unsupported', l)
            return ('bin', dest, op, bits, a, b)
        if op == 'fneg':
            parse_attrs(p)
            t = parse_type(p)
            return ('fneg', dest, self.const(p, t))
        if op == 'icmp':
            pred = p.next()
            t = parse_type(p)
            a = self.const(p, t)
            p.expect(',')
            b = self.const(p, t)
            return ('icmp', dest, pred, t[1] if isinstance(t, tuple) else 64, a, b)
        if op == 'fcmp':
            parse_attrs(p)
            pred = p.next()
            t = parse_type(p)
            a = self.const(p, t)
            p.expect(',')
            b = self.const(p, t)
            return ('fcmp', dest, pred, a, b)
        if op in CASTS:
            parse_attrs(p)
            t = parse_type(p)
            a = self.const(p, t)
            p.expect('to')
            t2 = parse_type(p)
            return ('cast', dest, op, t, a, t2)
        if op == 'freeze':
            t = parse_type(p)
            return ('mov', dest, self.const(p, t))
        if op == 'select':
            parse_attrs(p)
            t = parse_type(p)
            c = self.const(p, t)
            p.expect(',')
            t1 = parse_type(p)
            a = self.const(p, t1)
            p.expect(',')
            t2 = parse_type(p)
            b = self.const(p, t2)
            return ('select', dest, c, a, b)
        if op == 'alloca':
            p.accept('inalloca')
            t = parse_type(p)
            n = ('k', 1)
            while p.accept(','):
                if p.peek() == 'align':
                    p.next()
                    p.next()
                else:
                    t1 = parse_type(p)
                    n = self.const(p, t1)
            return ('alloca', dest, m.size(t), n)
        if op == 'load':
            p.accept('atomic')
            p.accept('volatile')
            t = parse_type(p)
            p.expect(',')
            t1 = parse_type(p)
            a = self.const(p, t1)
            return ('load', dest, self.memty(t), a)
        if op == 'store':
            p.accept('atomic')
            p.accept('volatile')
            t = parse_type(p)
            v = self.const(p, t)
            p.expect(',')
            t1 = parse_type(p)
            a = self.const(p, t1)
            return ('store', None, self.memty(t), v, a)
        if op == 'getelementptr':
            parse_attrs(p)
            bt = parse_type(p)
            p.expect(',')
            t0 = parse_type(p)
            base = self.const(p, t0)
            idx = []
            while p.accept(','):
                t1 = parse_type(p)
                idx.append((t1, self.const(p, t1)))
            off, dyn = self.gep(bt, idx)
            return ('gep', dest, base, off, dyn)
        if op == 'br':
            if p.peek() == 'label':
                p.next()
                return ('jmp', None, p.next(), cur)
            parse_type(p)
            c = self.const(p, ('i', 1))
            p.expect(',')
            p.expect('label')
            a = p.next()
            p.expect(',')
            p.expect('label')
            b = p.next()
            return ('br', None, c, a, b, cur)
        if op == 'switch':
            t = parse_type(p)
            v = self.const(p, t)
            p.expect(',')
            p.expect('label')
            d = p.next()
            p.expect('[')
            cases = {}
            while not p.accept(']'):
                t1 = parse_type(p)
                k = self.cvalue(p, t1)
                p.expect(',')
                p.expect('label')
                cases[k] = p.next()
            return ('switch', None, v, d, cases, cur)
        if op == 'ret':
            t = parse_type(p)
            if t == 'void':
                return ('ret', None, None)
            return ('ret', None, self.const(p, t))
        if op == 'unreachable':
            return ('unreachable', None)
        if op == 'phi':
            parse_attrs(p)
            t = parse_type(p)
            inc = {}
            while p.accept('['):
                v = self.const(p, t)
                p.expect(',')
                inc[p.next()] = v
                p.expect(']')
                p.accept(',')
            return ('phi', dest, inc)
        if op == 'extractvalue':
            t = parse_type(p)
            a = self.const(p, t)
            idx = []
            while p.accept(','):
                idx.append(int(p.next()))
            return ('extract', dest, a, idx)
        if op == 'insertvalue':
            t = parse_type(p)
            a = self.const(p, t)
            p.expect(',')
            t1 = parse_type(p)
            v = self.const(p, t1)
            idx = []
            while p.accept(','):
                idx.append(int(p.next()))
            return ('insert', dest, a, v, idx)
        if op in ('call', 'invoke'):
            ra = parse_attrs(p)
            rt = parse_type(p)
            parse_attrs(p)
            k, v = p.t[p.i]
            if v == 'asm':
                return ('nop', dest)
            callee = self.const(p, 'ptr')
            direct = v if (k == 'id' and v[0] == '@') else None
            p.expect('(')
            args = []
            byval = {}
            while not p.accept(')'):
                t = parse_type(p)
                a = parse_attrs(p)
                if t == 'metadata':
                    kk, vv = p.t[p.i]
                    p.i += 1
                    if kk == 'md' and p.peek() == '(':
                        d = 0
                        while True:
                            x = p.next()
                            if x == '(':
                                d += 1
                            elif x == ')':
                                d -= 1
                                if d == 0:
                                    break
                    elif kk not in ('md', 'mdstr'):
                        p.next()
                    args.append(('k', ('md', vv.strip('!"'))))
                else:
                    args.append(self.const(p, t))
                    if 'byval' in a:
                        byval[len(args) - 1] = m.size(a['byval'])
                p.accept(',')
            parse_attrs(p)
            if p.peek() == '[' and op == 'call':
                pass
            if rt[0] == 'f' if isinstance(rt, tuple) else False:
                rt = rt[1]
            if op == 'invoke':
                while p.peek() != 'to':
                    p.next()
                p.next()
                p.expect('label')
                ok = p.next()
                p.expect('unwind')
                p.expect('label')
                uw = p.next()
                return ('call', dest, direct, callee, args, byval, rt, ok, uw, cur)
            return ('call', dest, direct, callee, args, byval, rt, None, None, cur)
        if op == 'landingpad':
            t = parse_type(p)
            clauses = []
            cleanup = False
            while not p.end():
                w = p.next()
                if w == 'cleanup':
                    cleanup = True
                elif w == 'catch':
                    t1 = parse_type(p)
                    clauses.append(('catch', self.const(p, t1)[1]))
                elif w == 'filter':
                    t1 = parse_type(p)
                    self.const(p, t1)
                    clauses.append(('filter', None))
            return ('landingpad', dest, clauses, cleanup)
        if op == 'resume':
            t = parse_type(p)
            return ('resume', None, self.const(p, t))
        if op == 'atomicrmw':
            p.accept('volatile')
            o = p.next()
            t = parse_type(p)
            a = self.const(p, t)
            p.expect(',')
            t1 = parse_type(p)
            v = self.const(p, t1)
            return ('atomicrmw', dest, o, t1[1], a, v)
        if op == 'cmpxchg':
            p.accept('weak')
            p.accept('volatile')
            t = parse_type(p)
            a = self.const(p, t)
            p.expect(',')
            t1 = parse_type(p)
            e = self.const(p, t1)
            p.expect(',')
            t2 = parse_type(p)
            n = self.const(p, t2)
            return ('cmpxchg', dest, self.memty(t1), a, e, n)
        if op == 'fence':
            return ('nop', None)
        return ('unsupported', l)
    def memty(self, t):
        """('d',8) double, ('f',4), ('i',bytes,bits), ('p',8), ('agg', [(off, memty)])"""
        rt = self.m.rtype(t) if isinstance(t, tuple) else t
        if rt == 'double':
            return ('d', 8)
        if rt == 'float':
            return ('f', 4)
        if rt == 'x86_fp80':
            return ('d', 16)
        if rt == 'ptr':
            return ('i', 8, 64)
        if rt[0] == 'i':
            return ('i', self.m.size(rt), rt[1])
        if rt[0] == 's':
            return ('agg', [(self.m.offset(rt, j), self.memty(e)) for j, e in enumerate(rt[1])], self.m.size(rt))
        if rt[0] in 'av':
            s = self.m.size(rt[2])
            return ('agg', [(j * s, self.memty(rt[2])) for j in range(rt[1])], self.m.size(rt))
        raise T.Unsupported('memty %r' % (rt,))

def decode_cstr(v):
    b = bytearray()
    s = v[2:-1]
    i = 0
    while i < len(s):
        if s[i] == '\\':
            b.append(int(s[i + 1:i + 3], 16))
            i += 3
        else:
            b.extend(s[i].encode('utf8'))
            i += 1
    return bytes(b)
