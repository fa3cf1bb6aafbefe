"""Parser for the textual LLVM IR (clang 18, opaque pointers) that clang emits from /repo's headers.

Functions are split eagerly and parsed lazily (only those that are actually executed)."""
import re
import struct
from fractions import Fraction

TOK = re.compile(r'''
   c"(?:[^"\\]|\\.)*"            # byte string
 | [%@!\$]"(?:[^"\\]|\\.)*"      # quoted identifiers
 | "(?:[^"\\]|\\.)*"             # string
 | [%@][-a-zA-Z$._0-9]+          # identifiers
 | ![a-zA-Z_.0-9]*               # metadata
 | \#[0-9]+                      # attribute groups
 | 0x[KLMHR]?[0-9A-Fa-f]+        # hex floats
 | -?[0-9]+\.[0-9]*(?:[eE][-+]?[0-9]+)?
 | -?[0-9]+
 | \.\.\.
 | [a-zA-Z_$.][-a-zA-Z$._0-9]*:? # words
 | [][(){}<>,=*|:]
''', re.X)


class IRError(Exception):
    pass


class Undef:
    __slots__ = ()

    def __repr__(self):
        return 'UNDEF'


UNDEF = Undef()


def unq(name):
    """strip sigil and quotes"""
    n = name[1:]
    if n.startswith('"'):
        n = n[1:-1]
    return n


def cbytes(tok):
    s = tok[2:-1]
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == '\\':
            out.append(int(s[i + 1:i + 3], 16))
            i += 3
        else:
            out.append(ord(s[i]))
            i += 1
    return bytes(out)


I1 = ('i', 1)
I8 = ('i', 8)
I32 = ('i', 32)
I64 = ('i', 64)
PTR = ('ptr',)
VOID = ('void',)
FP = {'float': ('f', 32), 'double': ('f', 64), 'x86_fp80': ('f', 80), 'half': ('f', 16)}

PARAM_ATTR_ARGS = {'align', 'dereferenceable', 'dereferenceable_or_null', 'byval', 'sret', 'byref',
                   'elementtype', 'inalloca', 'preallocated', 'allocalign', 'nofpclass', 'memory',
                   'allocsize', 'vscale_range', 'range', 'initializes', 'allockind', 'alignstack'}


class Stream:
    def __init__(self, toks):
        self.t = toks
        self.i = 0

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else None

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def accept(self, x):
        if self.i < len(self.t) and self.t[self.i] == x:
            self.i += 1
            return True
        return False

    def expect(self, x):
        if self.t[self.i] != x:
            raise IRError('expected %r got %r in %r' % (x, self.t[self.i], ' '.join(self.t)[:300]))
        self.i += 1

    def eof(self):
        return self.i >= len(self.t)


def tokenize(s):
    return TOK.findall(s)


class Const:
    """constant operand tree: resolved by the executor once global addresses exist"""
    __slots__ = ('kind', 'ty', 'v')

    def __init__(self, kind, ty, v):
        self.kind = kind
        self.ty = ty
        self.v = v


class Reg:
    __slots__ = ('name', 'ty')

    def __init__(self, name, ty):
        self.name = name
        self.ty = ty


class Function:
    def __init__(self, name, header, lines, mod):
        self.name = name
        self.header = header
        self.lines = lines
        self.mod = mod
        self.parsed = False
        self.compiled = None
        self.dbg = None
        m = re.search(r'!dbg (![0-9]+)', header)
        if m:
            self.dbg = m.group(1)

    def parse(self):
        if self.parsed:
            return
        self.parsed = True
        mod = self.mod
        h = self.header
        st = Stream(tokenize(h))
        # skip to return type: find the '@name' token and parse params after it
        # header: define [linkage...] rettype @name(params) ...
        pos = None
        for k, t in enumerate(st.t):
            if t.startswith('@') and unq(t) == self.name:
                pos = k
                break
        st.i = pos + 1
        self.params, self.vararg = parse_params(mod, st)
        self.blocks = {}
        self.order = []
        # return type: parse backward heuristically
        pre = Stream(st.t[:pos])
        skip_pre_attrs(pre)
        self.ret = mod.parse_type(pre)
        cur = None
        # entry label: unnamed entry is numbered after params
        lines = self.lines
        i = 0
        n = len(lines)
        while i < n:
            ln = lines[i]
            i += 1
            s = ln.strip()
            if not s or s.startswith(';'):
                continue
            if not ln.startswith('  '):
                # label
                m = re.match(r'^("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+):', ln)
                if not m:
                    raise IRError('bad label line ' + ln)
                lab = m.group(1)
                if lab.startswith('"'):
                    lab = lab[1:-1]
                cur = []
                self.blocks[lab] = cur
                self.order.append(lab)
                continue
            # multi-line instructions: switch [...] , landingpad/invoke continuation
            if s.startswith('switch') and not s.rstrip().endswith(']') and ']' not in s:
                while True:
                    s2 = lines[i].strip()
                    i += 1
                    s += ' ' + s2
                    if s2.startswith(']'):
                        break
            else:
                while i < n and re.match(r'^ {10,}', lines[i]) and lines[i].strip() and \
                        not lines[i].strip().startswith(';'):
                    s += ' ' + lines[i].strip()
                    i += 1
            if cur is None:
                cur = []
                # unnamed entry block: its implicit number
                lab = str(len([p for p in self.params]))
                self.blocks[lab] = cur
                self.order.append(lab)
            cur.append(s)
        self.entry = self.order[0]


def skip_pre_attrs(s):
    """skip define/declare/call prefixes until a type starts"""
    words = {'define', 'declare', 'private', 'internal', 'available_externally', 'linkonce', 'weak',
             'common', 'appending', 'extern_weak', 'linkonce_odr', 'weak_odr', 'external',
             'dso_local', 'dso_preemptable', 'default', 'hidden', 'protected', 'dllimport',
             'dllexport', 'fastcc', 'coldcc', 'ccc', 'noundef', 'nonnull', 'signext', 'zeroext',
             'noalias', 'inreg', 'unnamed_addr', 'local_unnamed_addr', 'fast', 'nnan', 'ninf', 'nsz',
             'arcp', 'contract', 'afn', 'reassoc', 'noext', 'swiftcc', 'tailcc'}
    while not s.eof():
        t = s.peek()
        if t in words:
            s.next()
        elif t in PARAM_ATTR_ARGS:
            s.next()
            skip_attr_arg(s)
        else:
            return


def skip_attr_arg(s):
    t = s.peek()
    if t == '(':
        d = 0
        while True:
            x = s.next()
            if x == '(':
                d += 1
            elif x == ')':
                d -= 1
                if d == 0:
                    return
    elif t is not None and re.match(r'^[0-9]+$', t):
        s.next()


SIMPLE_ATTRS = {'noundef', 'nonnull', 'noalias', 'nocapture', 'readonly', 'writeonly', 'readnone',
                'signext', 'zeroext', 'inreg', 'returned', 'nest', 'immarg', 'nofree', 'swiftself',
                'swifterror', 'writable', 'dead_on_unwind', 'allocptr', 'noext'}


def skip_param_attrs(s, out=None):
    while not s.eof():
        t = s.peek()
        if t in SIMPLE_ATTRS:
            s.next()
        elif t in PARAM_ATTR_ARGS:
            if out is not None:
                out.append(t)
            s.next()
            skip_attr_arg(s)
        else:
            return


def parse_params(mod, st):
    st.expect('(')
    params = []
    vararg = False
    n = 0
    while not st.accept(')'):
        if st.accept('...'):
            vararg = True
            continue
        ty = mod.parse_type(st)
        attrs = []
        byval = None
        # byval(type)
        while True:
            t = st.peek()
            if t in SIMPLE_ATTRS:
                st.next()
            elif t == 'byval':
                st.next()
                st.expect('(')
                byval = mod.parse_type(st)
                st.expect(')')
            elif t in PARAM_ATTR_ARGS:
                st.next()
                skip_attr_arg(st)
            else:
                break
        name = None
        if st.peek() and st.peek().startswith('%'):
            name = unq(st.next())
        else:
            name = str(n)
        if name.isdigit():
            n = int(name) + 1
        params.append((ty, name, byval))
        st.accept(',')
    return params, vararg


class Module:
    def __init__(self, text):
        self.types = {}
        self.typedefs = {}
        self.globals = {}   # name -> (type, init tokens or None, const)
        self.funcs = {}
        self.decls = {}
        self.aliases = {}
        self.md = {}
        self._size = {}
        lines = text.split('\n')
        i = 0
        n = len(lines)
        while i < n:
            ln = lines[i]
            i += 1
            if not ln:
                continue
            c = ln[0]
            if c == ';' or c == ' ':
                continue
            if ln.startswith('define'):
                m = re.search(r'(@"(?:[^"\\]|\\.)*"|@[-a-zA-Z$._0-9]+)\(', ln)
                name = unq(m.group(1))
                j = i
                while lines[j] != '}':
                    j += 1
                self.funcs[name] = Function(name, ln, lines[i:j], self)
                i = j + 1
            elif ln.startswith('declare'):
                m = re.search(r'(@"(?:[^"\\]|\\.)*"|@[-a-zA-Z$._0-9]+)\(', ln)
                self.decls[unq(m.group(1))] = ln
            elif c == '%':
                m = re.match(r'^(%"(?:[^"\\]|\\.)*"|%[-a-zA-Z$._0-9]+) = type (.*)$', ln)
                self.typedefs[unq(m.group(1))] = m.group(2)
            elif c == '@':
                m = re.match(r'^(@"(?:[^"\\]|\\.)*"|@[-a-zA-Z$._0-9]+) = (.*)$', ln)
                name = unq(m.group(1))
                rest = m.group(2)
                if re.search(r'\balias\b', rest.split('ptr')[0]):
                    m2 = re.search(r'ptr (@"(?:[^"\\]|\\.)*"|@[-a-zA-Z$._0-9]+)\s*$', rest)
                    self.aliases[name] = unq(m2.group(1))
                    continue
                self.globals[name] = rest
            elif c == '!':
                m = re.match(r'^(![0-9]+) = (.*)$', ln)
                if m:
                    self.md[m.group(1)] = m.group(2)

    # ---- types
    def parse_type(self, s):
        t = s.next()
        if t == 'ptr':
            ty = PTR
            if s.peek() == 'addrspace':
                s.next()
                skip_attr_arg(s)
        elif t == 'void':
            ty = VOID
        elif t[0] == 'i' and t[1:].isdigit():
            ty = ('i', int(t[1:]))
        elif t in FP:
            ty = FP[t]
        elif t == '[':
            n = int(s.next())
            s.expect('x')
            e = self.parse_type(s)
            s.expect(']')
            ty = ('arr', n, e)
        elif t == '<':
            if s.peek() == '{':
                s.next()
                el = []
                while not s.accept('}'):
                    el.append(self.parse_type(s))
                    s.accept(',')
                s.expect('>')
                ty = ('struct', tuple(el), True)
            else:
                n = int(s.next())
                s.expect('x')
                e = self.parse_type(s)
                s.expect('>')
                ty = ('vec', n, e)
        elif t == '{':
            el = []
            while not s.accept('}'):
                el.append(self.parse_type(s))
                s.accept(',')
            ty = ('struct', tuple(el), False)
        elif t[0] == '%':
            ty = ('named', unq(t))
        elif t in ('label', 'metadata', 'token', 'opaque'):
            ty = (t,)
        else:
            raise IRError('type? %r in %s' % (t, ' '.join(s.t)[:200]))
        # function type suffix
        if s.peek() == '(' and ty[0] != 'metadata':
            # function type e.g. "void (ptr, ...)"
            s.next()
            d = 1
            while d:
                x = s.next()
                if x == '(':
                    d += 1
                elif x == ')':
                    d -= 1
            return ('func', ty)
        return ty

    def resolve(self, ty):
        while ty[0] == 'named':
            n = ty[1]
            r = self.types.get(n)
            if r is None:
                r = self.parse_type(Stream(tokenize(self.typedefs[n])))
                self.types[n] = r
            ty = r
        return ty

    def align(self, ty):
        ty = self.resolve(ty)
        k = ty[0]
        if k == 'i':
            b = (ty[1] + 7) // 8
            a = 1
            while a < b:
                a *= 2
            return min(a, 16)
        if k == 'f':
            return {16: 2, 32: 4, 64: 8, 80: 16}[ty[1]]
        if k == 'ptr':
            return 8
        if k == 'arr':
            return self.align(ty[2])
        if k == 'vec':
            s = self.sizeof(ty)
            a = 1
            while a < s:
                a *= 2
            return a
        if k == 'struct':
            if ty[2]:
                return 1
            return max([1] + [self.align(e) for e in ty[1]])
        raise IRError('align %r' % (ty,))

    def sizeof(self, ty):
        r = self._size.get(ty)
        if r is None:
            r = self._sizeof(ty)
            self._size[ty] = r
        return r

    def _sizeof(self, ty):
        ty = self.resolve(ty)
        k = ty[0]
        if k == 'i':
            b = (ty[1] + 7) // 8
            a = 1
            while a < b:
                a *= 2
            return a if b > 8 or True else b
        if k == 'f':
            return {16: 2, 32: 4, 64: 8, 80: 16}[ty[1]]
        if k == 'ptr':
            return 8
        if k == 'arr':
            return ty[1] * self.sizeof(ty[2])
        if k == 'vec':
            e = ty[2]
            if e[0] == 'i':
                return (ty[1] * e[1] + 7) // 8
            return ty[1] * self.sizeof(e)
        if k == 'struct':
            off = 0
            for e in ty[1]:
                if not ty[2]:
                    a = self.align(e)
                    off = (off + a - 1) // a * a
                off += self.sizeof(e)
            a = self.align(ty)
            return (off + a - 1) // a * a
        if k == 'void':
            return 0
        raise IRError('sizeof %r' % (ty,))

    def field_off(self, ty, i):
        ty = self.resolve(ty)
        off = 0
        for j, e in enumerate(ty[1]):
            if not ty[2]:
                a = self.align(e)
                off = (off + a - 1) // a * a
            if j == i:
                return off, e
            off += self.sizeof(e)
        raise IRError('field')

    # ---- constants / operands
    def parse_value(self, s, ty):
        t = s.next()
        if t[0] == '%':
            return Reg(unq(t), ty)
        if t[0] == '@':
            return Const('global', ty, unq(t))
        if t == 'null':
            return Const('int', ty, 0)
        if t == 'zeroinitializer':
            return Const('zero', ty, None)
        if t in ('undef', 'poison'):
            return Const('undef', ty, None)
        if t == 'true':
            return Const('int', ty, 1)
        if t == 'false':
            return Const('int', ty, 0)
        if t == 'none':
            return Const('int', ty, 0)
        if ty[0] == 'i' and re.match(r'^-?[0-9]+$', t):
            return Const('int', ty, int(t) & ((1 << ty[1]) - 1))
        if ty[0] == 'f':
            return Const('fp', ty, parse_fp(t, ty))
        if t[0] == 'c' and t[1:2] == '"':
            return Const('bytes', ty, cbytes(t))
        if t in ('[', '{', '<'):
            packed = False
            close = {'[': ']', '{': '}', '<': '>'}[t]
            if t == '<' and s.peek() == '{':
                s.next()
                close = '}'
                packed = True
            el = []
            while not s.accept(close):
                et = self.parse_type(s)
                el.append(self.parse_value(s, et))
                s.accept(',')
            if packed:
                s.expect('>')
            return Const('agg', ty, el)
        if t == 'getelementptr':
            while s.peek() in ('inbounds', 'nuw', 'nusw'):
                s.next()
            if s.peek() == 'inrange':
                s.next()
                skip_attr_arg(s)
            s.expect('(')
            bt = self.parse_type(s)
            s.expect(',')
            ops = []
            while True:
                if s.peek() == 'inrange':
                    s.next()
                    if s.peek() == '(':
                        skip_attr_arg(s)
                et = self.parse_type(s)
                ops.append(self.parse_value(s, et))
                if s.accept(')'):
                    break
                s.expect(',')
            return Const('gep', ty, (bt, ops))
        if t in ('bitcast', 'inttoptr', 'ptrtoint', 'trunc', 'zext', 'sext'):
            s.expect('(')
            et = self.parse_type(s)
            v = self.parse_value(s, et)
            s.expect('to')
            self.parse_type(s)
            s.expect(')')
            return Const('cast', ty, (t, v))
        if t in ('add', 'sub', 'mul', 'xor', 'and', 'or', 'shl', 'lshr'):
            while s.peek() in ('nuw', 'nsw', 'exact'):
                s.next()
            s.expect('(')
            et = self.parse_type(s)
            a = self.parse_value(s, et)
            s.expect(',')
            et2 = self.parse_type(s)
            b = self.parse_value(s, et2)
            s.expect(')')
            return Const('bin', ty, (t, a, b))
        if t in ('icmp', 'fcmp'):
            pred = s.next()
            s.expect('(')
            et = self.parse_type(s)
            a = self.parse_value(s, et)
            s.expect(',')
            et2 = self.parse_type(s)
            b = self.parse_value(s, et2)
            s.expect(')')
            return Const('icmp', ty, (pred, a, b))
        if t == 'blockaddress' or t == 'dso_local_equivalent':
            raise IRError('unsupported const ' + t)
        raise IRError('value? %r ty %r in %s' % (t, ty, ' '.join(s.t)[:300]))

    # ---- debug info: where a function comes from
    def func_file(self, fn):
        d = fn.dbg
        if not d or d not in self.md:
            return None, None
        m = re.search(r'file: (![0-9]+)', self.md[d])
        l = re.search(r'line: ([0-9]+)', self.md[d])
        if not m:
            return None, None
        f = self.md.get(m.group(1), '')
        fm = re.search(r'filename: "([^"]*)"', f)
        return (fm.group(1) if fm else None), (int(l.group(1)) if l else None)

    def loc_line(self, ref):
        """line and file of a !DILocation"""
        txt = self.md.get(ref, '')
        l = re.search(r'line: ([0-9]+)', txt)
        return int(l.group(1)) if l else None


def parse_fp(t, ty):
    if t.startswith('0x'):
        if t[2] in 'KLMHR':
            if t[2] == 'K':
                bits = int(t[3:], 16)
                sign = bits >> 79
                exp = (bits >> 64) & 0x7fff
                man = bits & ((1 << 64) - 1)
                if exp == 0 and man == 0:
                    return 0
                v = Fraction(man, 1 << 63) * (Fraction(2) ** (exp - 16383))
                v = -v if sign else v
                return int(v) if v.denominator == 1 else v
            raise IRError('fp const ' + t)
        d = struct.unpack('>d', int(t[2:], 16).to_bytes(8, 'big'))[0]
    else:
        d = float(t)
    if d != d:
        return 'nan'
    if d in (float('inf'), float('-inf')):
        return 'inf' if d > 0 else '-inf'
    v = Fraction(d)
    return int(v) if v.denominator == 1 else v
