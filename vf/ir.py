"""Parser for the textual LLVM 18 IR that clang emits (the subset C++ produces)."""
import re, struct
from fractions import Fraction

TOK = re.compile(r'''\s*(?:
 (?P<id>[%@](?:"(?:[^"\\]|\\[0-9a-fA-F]{2})*"|[-a-zA-Z$._0-9]+))
|(?P<cstr>c"(?:[^"])*")
|(?P<mdstr>!"[^"]*")
|(?P<md>![-a-zA-Z$._0-9]*)
|(?P<str>"[^"]*")
|(?P<hex>0x[KLMHR]?[0-9A-Fa-f]+)
|(?P<num>-?[0-9]+(?:\.[0-9]+(?:[eE][-+]?[0-9]+)?)?)
|(?P<attr>\#[0-9]+)
|(?P<word>[a-zA-Z_][-a-zA-Z0-9_.]*)
|(?P<dots>\.\.\.)
|(?P<p>[][(){}<>,=*:|])
)''', re.X)

def tokenize(s):
    out = []
    pos = 0
    n = len(s)
    while pos < n:
        m = TOK.match(s, pos)
        if not m:
            if s[pos:].strip() == '' or s[pos:].lstrip().startswith(';'):
                break
            raise SyntaxError('token: %r' % s[pos:pos + 60])
        k = m.lastgroup
        v = m.group(k)
        out.append((k, v))
        pos = m.end()
    return out

class P(object):
    def __init__(self, toks):
        self.t = toks
        self.i = 0
    def peek(self, d=0):
        j = self.i + d
        return self.t[j][1] if j < len(self.t) else None
    def kind(self, d=0):
        j = self.i + d
        return self.t[j][0] if j < len(self.t) else None
    def next(self):
        v = self.t[self.i][1]
        self.i += 1
        return v
    def accept(self, v):
        if self.i < len(self.t) and self.t[self.i][1] == v:
            self.i += 1
            return True
        return False
    def expect(self, v):
        if not self.accept(v):
            raise SyntaxError('expected %r at %r' % (v, self.t[self.i:self.i + 6]))
    def end(self):
        return self.i >= len(self.t)

PRIM = {'double', 'float', 'ptr', 'void', 'label', 'metadata', 'token', 'x86_fp80', 'half', 'fp128', 'opaque'}

def parse_type(p):
    k, v = p.t[p.i]
    if k == 'word':
        if v in PRIM:
            p.i += 1
            ty = v
        elif v[0] == 'i' and v[1:].isdigit():
            p.i += 1
            ty = ('i', int(v[1:]))
        else:
            raise SyntaxError('type %r' % (p.t[p.i:p.i + 5],))
    elif k == 'id':
        p.i += 1
        ty = ('n', v)
    elif v == '[':
        p.i += 1
        n = int(p.next())
        p.expect('x')
        e = parse_type(p)
        p.expect(']')
        ty = ('a', n, e)
    elif v == '{':
        p.i += 1
        es = []
        while not p.accept('}'):
            es.append(parse_type(p))
            p.accept(',')
        ty = ('s', tuple(es), False)
    elif v == '<':
        p.i += 1
        if p.peek() == '{':
            p.i += 1
            es = []
            while not p.accept('}'):
                es.append(parse_type(p))
                p.accept(',')
            p.expect('>')
            ty = ('s', tuple(es), True)
        else:
            n = int(p.next())
            p.expect('x')
            e = parse_type(p)
            p.expect('>')
            ty = ('v', n, e)
    else:
        raise SyntaxError('type %r' % (p.t[p.i:p.i + 5],))
    # function type (for varargs calls)
    if p.peek() == '(' and ty != 'ptr' or (p.peek() == '(' and p.kind(1) in ('word', 'dots', 'id', 'p') and False):
        # could be function type: only when followed by types
        save = p.i
        try:
            p.i += 1
            args = []
            va = False
            while not p.accept(')'):
                if p.accept('...'):
                    va = True
                else:
                    args.append(parse_type(p))
                p.accept(',')
            ty = ('f', ty, tuple(args), va)
        except SyntaxError:
            p.i = save
    return ty

ATTR_PAREN = {'dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'byref', 'inalloca', 'preallocated', 'elementtype', 'align', 'captures', 'memory', 'allocsize', 'nofpclass', 'range'}
ATTR_WORD = {'noundef', 'nonnull', 'noalias', 'nocapture', 'readonly', 'writeonly', 'returned', 'immarg', 'signext', 'zeroext', 'inreg', 'nest', 'swiftself', 'readnone', 'noreturn', 'nounwind', 'writable', 'dead_on_unwind', 'nofree', 'allocptr', 'allocalign', 'noinline', 'dso_local', 'local_unnamed_addr', 'unnamed_addr', 'hidden', 'protected', 'default', 'internal', 'private', 'linkonce_odr', 'linkonce', 'weak_odr', 'weak', 'external', 'available_externally', 'common', 'appending', 'fastcc', 'coldcc', 'ccc', 'swiftcc', 'tailcc', 'extern_weak', 'nuw', 'nsw', 'inbounds', 'exact', 'nneg', 'disjoint', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'volatile', 'dllimport', 'thread_local'}

def parse_attrs(p):
    """skip attributes, return dict of interesting ones"""
    d = {}
    while not p.end():
        k, v = p.t[p.i]
        if k == 'word' and v in ATTR_PAREN:
            p.i += 1
            if p.peek() == '(':
                p.i += 1
                if v in ('sret', 'byval', 'elementtype', 'byref'):
                    d[v] = parse_type(p)
                    p.expect(')')
                else:
                    depth = 1
                    while depth:
                        x = p.next()
                        if x == '(':
                            depth += 1
                        elif x == ')':
                            depth -= 1
            elif v == 'align':
                p.next()
        elif k == 'word' and v in ATTR_WORD:
            d[v] = True
            p.i += 1
            if v == 'thread_local' and p.peek() == '(':
                while p.next() != ')':
                    pass
        elif k == 'attr':
            p.i += 1
        else:
            break
    return d

class Function(object):
    __slots__ = ('name', 'module', 'lines', 'params', 'ret', 'blocks', 'entry', 'parsed', 'vararg', 'linkage', 'order', 'loops')

class Global(object):
    __slots__ = ('name', 'module', 'text', 'is_const', 'linkage', 'addr', 'decl', 'type', 'size')

class Module(object):
    def __init__(self, path, name):
        self.path = path
        self.name = name
        self.types = {}
        self.funcs = {}
        self.decls = {}
        self.globals = {}
        self.aliases = {}
        self.ctors = []
        self._layout = {}
        self.load()
    def load(self):
        with open(self.path) as f:
            lines = f.read().split('\n')
        i = 0
        n = len(lines)
        while i < n:
            l = lines[i]
            if not l:
                i += 1
                continue
            c = l[0]
            if c == '%':
                m = re.match(r'^(%(?:"[^"]*"|[-a-zA-Z$._0-9]+)) = type (.*)$', l)
                self.types[m.group(1)] = m.group(2)
            elif c == '@':
                m = re.match(r'^(@(?:"[^"]*"|[-a-zA-Z$._0-9]+)) = (.*)$', l)
                nm, rest = m.group(1), m.group(2)
                if re.match(r'^(?:[a-z_]+ )*alias ', rest):
                    self.aliases[nm] = rest
                else:
                    g = Global()
                    g.name = nm
                    g.module = self
                    g.text = rest
                    g.addr = None
                    g.decl = bool(re.match(r'^(external|extern_weak) ', rest))
                    w = rest.split(' ', 1)[0]
                    g.linkage = w if w in ('private', 'internal', 'linkonce_odr', 'weak_odr', 'weak', 'linkonce', 'external', 'extern_weak', 'appending', 'common', 'available_externally') else 'default'
                    self.globals[nm] = g
            elif l.startswith('define '):
                j = i + 1
                while lines[j] != '}':
                    j += 1
                f = Function()
                f.module = self
                m = re.search(r'(@(?:"[^"]*"|[-a-zA-Z$._0-9]+))\(', l)
                f.name = m.group(1)
                f.lines = lines[i:j]
                f.parsed = False
                f.linkage = l.split(' ', 2)[1]
                self.funcs[f.name] = f
                i = j
            elif l.startswith('declare '):
                m = re.search(r'(@(?:"[^"]*"|[-a-zA-Z$._0-9]+))\(', l)
                self.decls[m.group(1)] = l
            i += 1
        g = self.globals.get('@llvm.global_ctors')
        if g is not None:
            self.ctors = re.findall(r'ptr (@(?:"[^"]*"|[-a-zA-Z$._0-9]+)), ptr', g.text)
    # ------------------------------------------------------------ layout
    def rtype(self, ty):
        while isinstance(ty, tuple) and ty[0] == 'n':
            t = self.types.get(ty[1])
            if isinstance(t, str):
                if t == 'opaque':
                    t = 'opaque'
                else:
                    t = parse_type(P(tokenize(t)))
                self.types[ty[1]] = t
            if t is None:
                raise KeyError(ty[1])
            ty = t
        return ty
    def layout(self, ty):
        """(size, align)"""
        r = self._layout.get(ty)
        if r is None:
            r = self._layout[ty] = self._lay(ty)
        return r
    def _lay(self, ty):
        ty = self.rtype(ty)
        if ty == 'ptr' or ty == 'double':
            return 8, 8
        if ty == 'float':
            return 4, 4
        if ty == 'x86_fp80':
            return 16, 16
        if ty == 'opaque':
            return 0, 1
        k = ty[0]
        if k == 'i':
            b = (ty[1] + 7) // 8
            s = 1
            while s < b:
                s *= 2
            return s, min(s, 16)
        if k == 'a':
            s, a = self.layout(ty[2])
            return s * ty[1], a
        if k == 'v':
            s, a = self.layout(ty[2])
            t = s * ty[1]
            return t, t
        if k == 's':
            off = 0
            al = 1
            for e in ty[1]:
                s, a = self.layout(e)
                if ty[2]:
                    a = 1
                off = (off + a - 1) // a * a + s
                al = max(al, a)
            return (off + al - 1) // al * al, al
        raise SyntaxError('layout %r' % (ty,))
    def size(self, ty):
        return self.layout(ty)[0]
    def offset(self, ty, idx):
        ty = self.rtype(ty)
        k = ('off', ty, idx)
        r = self._layout.get(k)
        if r is not None:
            return r
        off = 0
        for j, e in enumerate(ty[1]):
            s, a = self.layout(e)
            if ty[2]:
                a = 1
            off = (off + a - 1) // a * a
            if j == idx:
                break
            off += s
        self._layout[k] = off
        return off
