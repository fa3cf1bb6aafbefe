"""Verification-condition generation by symbolic execution of LLVM IR.

Floating-point values are exact reals (poly.Poly), integers are machine integers (concrete Python
ints or z3 bit vectors), memory is a set of disjoint objects with bounds and lifetime checks."""
import re
import struct
import time
from fractions import Fraction
import z3
from irparse import (Module, Stream, tokenize, unq, Const, Reg, UNDEF, IRError, skip_pre_attrs,
                     skip_param_attrs, skip_attr_arg, SIMPLE_ATTRS, PARAM_ATTR_ARGS)
from poly import Poly, ATOMS, ZERO, ONE, reduce, from_z3, num, zc

BIAS = 0x10000000
SEG = 32
SEGMASK = (1 << SEG) - 1


class Unsupported(Exception):
    """construct outside the verifier's reach"""


class PathEnd(Exception):
    """the current path ends here (assumption false, failed obligation, program end)"""


class Budget(Exception):
    pass


class SymPtr:
    __slots__ = ('oid', 'off', 'terms')

    def __init__(self, oid, off, terms):
        self.oid = oid
        self.off = off
        self.terms = terms

    def offset(self):
        e = z3.BitVecVal(self.off & ((1 << 64) - 1), 64)
        for t, s in self.terms:
            e = e + (t * z3.BitVecVal(s, 64) if s != 1 else t)
        return e

    def add(self, k):
        return SymPtr(self.oid, self.off + k, self.terms)

    def __repr__(self):
        return 'SymPtr(%d,%d,%r)' % (self.oid, self.off, self.terms)


def linear_bv(x, w):
    """x as m * t + r modulo 2^w with constants m and r (t is None if x is not of this form)"""
    k = x.decl().kind()
    if k == z3.Z3_OP_BADD:
        r = 0
        rest = []
        for a in x.children():
            if z3.is_bv_value(a):
                r += a.as_long()
            else:
                rest.append(a)
        if len(rest) == 1:
            m, t, s = linear_bv(rest[0], w)
            return m, t, (r + s) % (1 << w)
        return 1, None, 0
    if k == z3.Z3_OP_BMUL:
        a = x.children()
        if len(a) == 2 and z3.is_bv_value(a[0]):
            m, t, s = linear_bv(a[1], w)
            if t is None or s != 0:
                m, t = 1, a[1]
            return m * a[0].as_long() % (1 << w), t, 0
        return 1, x, 0
    if k == z3.Z3_OP_CONCAT:
        a = x.children()
        if len(a) == 2 and z3.is_bv_value(a[1]) and a[0].decl().kind() == z3.Z3_OP_EXTRACT and a[0].params()[1] == 0:
            t = a[0].children()[0]
            if t.size() == w:
                return 1 << a[1].size(), t, a[1].as_long()
    return 1, x, 0


class Composite:
    """bit pattern assembled from pieces that are not plain integers: ((nbytes, value), ...) in
    little-endian order"""
    __slots__ = ('pieces',)

    def __init__(self, pieces):
        self.pieces = tuple(pieces)

    def size(self):
        return sum(p[0] for p in self.pieces)


class Special:
    """non-real floating-point value (inf, -inf, nan)"""
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return self.name


INF = Special('inf')
NINF = Special('-inf')
NAN = Special('nan')
SPECIALS = {'inf': INF, '-inf': NINF, 'nan': NAN}


class Obj:
    __slots__ = ('id', 'size', 'cells', 'init', 'zero', 'kind', 'tok', 'const', 'arr', 'esz', 'name', 'ety')

    def __init__(self, oid, size, kind, tok, name=''):
        self.id = oid
        self.size = size
        self.cells = {}
        self.init = None
        self.zero = False
        self.kind = kind
        self.tok = tok
        self.const = False
        self.arr = None
        self.esz = 0
        self.ety = None
        self.name = name

    def copy(self, tok):
        o = Obj(self.id, self.size, self.kind, tok, self.name)
        o.cells = dict(self.cells)
        o.init = self.init
        o.zero = self.zero
        o.const = self.const
        o.arr = self.arr
        o.esz = self.esz
        o.ety = self.ety
        return o


class Frame:
    __slots__ = ('fn', 'cf', 'block', 'code', 'pc', 'regs', 'ret', 'inv', 'allocas', 'prev', 'va', 'heads')

    def clone(self):
        f = Frame()
        f.fn = self.fn
        f.cf = self.cf
        f.block = self.block
        f.code = self.code
        f.pc = self.pc
        f.regs = dict(self.regs)
        f.ret = self.ret
        f.inv = self.inv
        f.allocas = list(self.allocas)
        f.prev = self.prev
        f.va = self.va
        f.heads = dict(self.heads) if self.heads else None
        return f


class State:
    def __init__(self):
        self.frames = []
        self.mem = {}
        self.nid = 1
        self.tok = object()
        self.pc = []
        self.facts = []
        self.decided = {}
        self.rules = []
        self.inputs = []
        self.occ = {}
        self.ufs = []
        self.exc = []       # exceptions in flight / caught
        self.exinfo = {}    # exception object address -> type name
        self.ghost = {}
        self.trace = []
        self.streams = {}
        self.quiet = 0
        self.steps = 0

    def clone(self):
        s = State.__new__(State)
        s.frames = [f.clone() for f in self.frames]
        s.mem = dict(self.mem)
        s.nid = self.nid
        s.tok = object()
        self.tok = object()
        s.pc = list(self.pc)
        s.facts = list(self.facts)
        s.decided = dict(self.decided)
        s.rules = list(self.rules)
        s.inputs = list(self.inputs)
        s.occ = dict(self.occ)
        s.ufs = list(self.ufs)
        s.exc = list(self.exc)
        s.exinfo = dict(self.exinfo)
        s.ghost = {k: (v.copy() if hasattr(v, 'copy') else v) for k, v in self.ghost.items()}
        s.trace = list(self.trace)
        s.streams = {k: (v.copy() if v is not None else None) for k, v in self.streams.items()}
        s.quiet = self.quiet
        s.steps = self.steps
        return s


def is_sym(x):
    return isinstance(x, z3.ExprRef)


def tobv(x, n):
    if isinstance(x, int):
        return z3.BitVecVal(x, n)
    if isinstance(x, z3.BoolRef):
        return z3.If(x, z3.BitVecVal(1, n), z3.BitVecVal(0, n))
    if isinstance(x, z3.BitVecRef):
        return x
    raise Unsupported('integer value of kind %r' % (x,))


def tobool(x):
    if isinstance(x, int):
        return bool(x & 1)
    if isinstance(x, z3.BoolRef):
        return x
    if isinstance(x, z3.BitVecRef):
        return x == z3.BitVecVal(1, x.size())
    raise Unsupported('boolean of kind %r' % (x,))


def zbool(x):
    x = tobool(x)
    return z3.BoolVal(x) if isinstance(x, bool) else x


def sgn(x, n):
    return x - (1 << n) if x >> (n - 1) else x


def bits_to_fp(v, w):
    if w == 64:
        d = struct.unpack('<d', (v & ((1 << 64) - 1)).to_bytes(8, 'little'))[0]
    elif w == 32:
        d = struct.unpack('<f', (v & 0xffffffff).to_bytes(4, 'little'))[0]
    else:
        if v == 0:
            return ZERO
        raise Unsupported('fp80 bits')
    if d != d:
        return NAN
    if d in (float('inf'), float('-inf')):
        return INF if d > 0 else NINF
    return Poly.const(num(Fraction(d)))


def fp_to_bits(p, w):
    if isinstance(p, Special):
        d = {'inf': float('inf'), '-inf': float('-inf'), 'nan': float('nan')}[p.name]
    else:
        d = float(p.cval())
    return int.from_bytes(struct.pack('<d' if w == 64 else '<f', d), 'little')


class Result:
    def __init__(self):
        self.obligations = 0
        self.discharged = 0
        self.by = {}
        self.failed = []       # dicts
        self.unknown = []
        self.paths = 0
        self.completed = 0
        self.covers = {}
        self.labels = {}
        self.solver_s = 0.0
        self.solver_calls = 0
        self.functions = set()
        self.contracts_used = set()
        self.unsupported = []
        self.bounded = []
        self.loops = []
        self.insns = 0


class Executor:
    def __init__(self, mod, opts=None):
        self.mod = mod
        self.opts = opts or {}
        self.res = Result()
        self.models = {}
        self.patterns = []
        self.replace = {}
        self.work = []
        self.gaddr = {}
        self.faddr = {}
        self.fname = {}
        self.init_state = None
        self.cur = None
        self.deadline = None
        self.solver_timeout = self.opts.get('timeout_ms', 20000)
        self.max_fail = self.opts.get('max_fail', 3)
        self.feas_cache = {}
        self.echelon = None
        self.typeids = {}
        import models
        models.install(self)

    # ------------------------------------------------------------------ memory
    def alloc(self, st, size, kind, name=''):
        oid = st.nid
        st.nid += 1
        st.mem[oid] = Obj(oid, size, kind, st.tok, name)
        return (oid << SEG) + BIAS

    def obj_of(self, st, addr, what='access'):
        oid = addr >> SEG
        o = st.mem.get(oid)
        if o is None:
            self.fail_hard(st, 'memory safety: %s through a null, dangling or invalid pointer' % what)
        return o, (addr & SEGMASK) - BIAS

    def wobj(self, st, o):
        if o.tok is not st.tok:
            o = o.copy(st.tok)
            st.mem[o.id] = o
        return o

    def chk(self, st, o, off, n, what):
        if isinstance(o.size, int):
            if off < 0 or off + n > o.size:
                self.fail_hard(st, 'memory safety: %s of %d bytes at offset %d of object %s of size %d' % (
                    what, n, off, o.name, o.size))
        if o.kind == 'freed':
            self.fail_hard(st, 'memory safety: %s of freed memory' % what)

    def load(self, st, ty, addr):
        mod = self.mod
        ty = mod.resolve(ty)
        k = ty[0]
        if k in ('struct',):
            return tuple(self.load(st, e, self.padd(addr, mod.field_off(ty, i)[0]))
                         for i, e in enumerate(ty[1]))
        if k in ('arr', 'vec'):
            es = mod.sizeof(ty[2])
            return tuple(self.load(st, ty[2], self.padd(addr, i * es)) for i in range(ty[1]))
        if k == 'i':
            n = (ty[1] + 7) // 8
        elif k == 'ptr':
            n = 8
        else:
            n = mod.sizeof(ty)
        if isinstance(addr, SymPtr):
            return self.load_sym(st, ty, addr, n)
        if not isinstance(addr, int):
            raise Unsupported('load through %r' % (addr,))
        o, off = self.obj_of(st, addr, 'load')
        c = o.cells.get(off)
        if c is not None and c[0] == n and o.kind != 'freed':
            v = c[1]
        else:
            self.chk(st, o, off, n, 'load')
            if o.arr is not None:
                return self.arr_load(st, o, z3.BitVecVal(off // o.esz, 64), n, ty)
            v = self.read_raw(o, off, n)
        return self.conv(v, ty, n)

    def conv(self, v, ty, n):
        k = ty[0]
        if k == 'f':
            if isinstance(v, (Poly, Special)) or v is UNDEF:
                return v
            if isinstance(v, int):
                return bits_to_fp(v, ty[1])
            if isinstance(v, Composite) and len(v.pieces) == 1:
                return v.pieces[0][1]
            if isinstance(v, z3.BitVecRef):
                # bit pattern of a float: uninterpreted
                raise Unsupported('float from symbolic bits')
            raise Unsupported('float from composite')
        if isinstance(v, (Poly, Special)):
            if isinstance(v, Special) or v.is_const():
                return fp_to_bits(v, n * 8)
            return Composite(((n, v),))
        if k == 'i' and ty[1] < n * 8:
            if isinstance(v, int):
                return v & ((1 << ty[1]) - 1)
            if isinstance(v, z3.BitVecRef):
                if ty[1] == 1:
                    return z3.Extract(0, 0, v) == z3.BitVecVal(1, 1)
                return z3.Extract(ty[1] - 1, 0, v)
        return v

    def read_raw(self, o, off, n):
        """value of n bytes at off, as int / BV / Composite / UNDEF"""
        pieces = []
        pos = off
        end = off + n
        cells = o.cells
        while pos < end:
            c = cells.get(pos)
            start = pos
            if c is None:
                for b in range(1, 16):
                    c2 = cells.get(pos - b)
                    if c2 is not None:
                        if c2[0] > b:
                            c = c2
                            start = pos - b
                        break
            if c is not None:
                take = min(end, start + c[0]) - pos
                pieces.append((take, self.sub_val(c[1], c[0], pos - start, take)))
                pos += take
            else:
                if o.init is not None:
                    pieces.append((1, o.init[pos] if pos < len(o.init) else 0))
                elif o.zero:
                    pieces.append((1, 0))
                else:
                    pieces.append((1, UNDEF))
                pos += 1
        return self.join(pieces)

    def sub_val(self, v, size, start, take):
        if start == 0 and take == size:
            return v
        if isinstance(v, int):
            return (v >> (8 * start)) & ((1 << (8 * take)) - 1)
        if isinstance(v, z3.BitVecRef):
            return z3.simplify(z3.Extract(8 * (start + take) - 1, 8 * start, v))
        if v is UNDEF:
            return UNDEF
        if isinstance(v, Poly) and v.is_const():
            return (fp_to_bits(v, size * 8) >> (8 * start)) & ((1 << (8 * take)) - 1)
        if isinstance(v, Composite):
            out = []
            pos = 0
            for n, x in v.pieces:
                lo = max(pos, start)
                hi = min(pos + n, start + take)
                if lo < hi:
                    out.append((hi - lo, self.sub_val(x, n, lo - pos, hi - lo)))
                pos += n
            return self.join(out)
        raise Unsupported('partial access to a symbolic real')

    def join(self, pieces):
        if len(pieces) == 1:
            return pieces[0][1]
        flat = []
        for n, v in pieces:
            if isinstance(v, Composite):
                flat.extend(v.pieces)
            else:
                flat.append((n, v))
        if all(isinstance(v, int) for _, v in flat):
            r = 0
            sh = 0
            for n, v in flat:
                r |= v << sh
                sh += 8 * n
            return r
        if all(v is UNDEF for _, v in flat):
            return UNDEF
        if all(isinstance(v, (int, z3.BitVecRef)) for _, v in flat):
            return z3.simplify(z3.Concat(*[tobv(v, 8 * n) for n, v in reversed(flat)]))
        # merge adjacent undef / ints
        out = []
        for n, v in flat:
            if out and v is UNDEF and out[-1][1] is UNDEF:
                out[-1] = (out[-1][0] + n, UNDEF)
            elif out and isinstance(v, int) and isinstance(out[-1][1], int):
                out[-1] = (out[-1][0] + n, out[-1][1] | (v << (8 * out[-1][0])))
            else:
                out.append((n, v))
        return Composite(out)

    def padd(self, addr, k):
        if k == 0:
            return addr
        if isinstance(addr, int):
            return (addr + k) & ((1 << 64) - 1)
        if isinstance(addr, SymPtr):
            return addr.add(k)
        raise Unsupported('pointer arithmetic on %r' % (addr,))

    def store(self, st, ty, v, addr):
        mod = self.mod
        ty = mod.resolve(ty)
        k = ty[0]
        if k == 'struct':
            for i, e in enumerate(ty[1]):
                self.store(st, e, UNDEF if v is UNDEF else v[i], self.padd(addr, mod.field_off(ty, i)[0]))
            return
        if k in ('arr', 'vec'):
            es = mod.sizeof(ty[2])
            for i in range(ty[1]):
                self.store(st, ty[2], UNDEF if v is UNDEF else v[i], self.padd(addr, i * es))
            return
        if k == 'i':
            n = (ty[1] + 7) // 8
            if ty[1] != n * 8 and not isinstance(v, int):
                if isinstance(v, z3.BoolRef):
                    v = tobv(v, n * 8)
                elif isinstance(v, z3.BitVecRef):
                    v = z3.ZeroExt(n * 8 - ty[1], v)
        elif k == 'ptr':
            n = 8
        else:
            n = mod.sizeof(ty)
        if isinstance(addr, SymPtr):
            return self.store_sym(st, ty, v, addr, n)
        if not isinstance(addr, int):
            raise Unsupported('store through %r' % (addr,))
        o, off = self.obj_of(st, addr, 'store')
        self.chk(st, o, off, n, 'store')
        if o.const:
            self.fail_hard(st, 'memory safety: store to a constant')
        if o.tok is not st.tok:
            o = self.wobj(st, o)
        if o.arr is not None:
            return self.arr_store(st, o, z3.BitVecVal(off // o.esz, 64), n, ty, v)
        self.write_cell(o, off, n, v)

    def write_cell(self, o, off, n, v):
        cells = o.cells
        c = cells.get(off)
        if c is not None and c[0] == n:
            cells[off] = (n, v)
            return
        self.clear(o, off, n)
        if isinstance(v, Composite):
            p = off
            for s, x in v.pieces:
                if x is not UNDEF:
                    cells[p] = (s, x)
                p += s
            return
        cells[off] = (n, v)

    def clear(self, o, off, n):
        cells = o.cells
        if not cells:
            return
        end = off + n
        for b in range(1, 16):
            c = cells.get(off - b)
            if c is not None:
                if c[0] > b:
                    start = off - b
                    del cells[start]
                    self.put_split(o, start, self.sub_val(c[1], c[0], 0, b), b)
                    if start + c[0] > end:
                        self.put_split(o, end, self.sub_val(c[1], c[0], end - start, start + c[0] - end),
                                       start + c[0] - end)
                break
        if n > 64 and len(cells) < n:
            keys = [p for p in cells if off <= p < end]
        else:
            keys = [p for p in range(off, end) if p in cells]
        for p in keys:
            c = cells.pop(p)
            if p + c[0] > end:
                self.put_split(o, end, self.sub_val(c[1], c[0], end - p, p + c[0] - end), p + c[0] - end)

    def put_split(self, o, off, v, n):
        if v is UNDEF and not (o.zero or o.init is not None):
            return
        # power-of-two cells
        o.cells[off] = (n, v)

    def arr_of(self, st, p):
        o = st.mem.get(p.oid) if isinstance(p, SymPtr) else st.mem.get(p >> SEG) if isinstance(p, int) else None
        return o if o is not None and o.arr is not None else None

    def memcpy(self, st, dst, src, n):
        if n == 0:
            return
        if not isinstance(n, int):
            n = self.concretize(st, n)
        if n == 0:
            return
        ao = [o for o in (self.arr_of(st, src), self.arr_of(st, dst)) if o is not None]
        if ao and n % ao[0].esz == 0 and n // ao[0].esz <= 64:
            # a few elements of a container of arbitrary length: element by element, all read first
            e, ety = ao[0].esz, ao[0].ety
            vals = [self.load(st, ety, self.padd(src, i)) for i in range(0, n, e)]
            for i, v in enumerate(vals):
                self.store(st, ety, v, self.padd(dst, i * e))
            return
        if isinstance(dst, SymPtr) or isinstance(src, SymPtr):
            dst = self.concretize_ptr(st, dst)
            src = self.concretize_ptr(st, src)
        so, soff = self.obj_of(st, src, 'memcpy source')
        do, doff = self.obj_of(st, dst, 'memcpy destination')
        self.chk(st, so, soff, n, 'memcpy read')
        self.chk(st, do, doff, n, 'memcpy write')
        if do.const:
            self.fail_hard(st, 'memory safety: write to a constant')
        if so.arr is not None or do.arr is not None:
            raise Unsupported('memcpy with symbolic array')
        end = soff + n
        got = []
        cov = 0
        if len(so.cells) <= 4 * n:
            items = [(p, c) for p, c in so.cells.items() if p < end and p + c[0] > soff]
        else:
            items = []
            for p in range(soff - 15, end):
                c = so.cells.get(p)
                if c is not None and p + c[0] > soff:
                    items.append((p, c))
        for p, (s, v) in items:
            lo = max(p, soff)
            hi = min(p + s, end)
            got.append((lo - soff, hi - lo, self.sub_val(v, s, lo - p, hi - lo)))
            cov += hi - lo
        do = self.wobj(st, do)
        self.clear(do, doff, n)
        for p, s, v in got:
            if isinstance(v, Composite):
                self.write_cell(do, doff + p, s, v)
            else:
                do.cells[doff + p] = (s, v)
        if cov < n:
            # uncovered bytes
            covered = bytearray(n)
            for p, s, v in got:
                for q in range(p, p + s):
                    covered[q] = 1
            p = 0
            while p < n:
                if covered[p]:
                    p += 1
                    continue
                q = p
                while q < n and not covered[q] and q - p < 8:
                    q += 1
                if so.init is not None:
                    b = so.init[soff + p:soff + q]
                    b = b + bytes(q - p - len(b))
                    do.cells[doff + p] = (q - p, int.from_bytes(b, 'little'))
                elif so.zero:
                    do.cells[doff + p] = (q - p, 0)
                elif do.zero or do.init is not None:
                    do.cells[doff + p] = (q - p, UNDEF)
                p = q

    def memset(self, st, dst, val, n):
        if not isinstance(n, int):
            n = self.concretize(st, n)
        if n == 0:
            return
        o, off = self.obj_of(st, dst, 'memset')
        self.chk(st, o, off, n, 'memset')
        o = self.wobj(st, o)
        if o.arr is not None:
            raise Unsupported('memset symbolic array')
        if val is UNDEF or not isinstance(val, int):
            if isinstance(val, z3.BitVecRef):
                val = self.concretize(st, val)
            else:
                raise Unsupported('memset value')
        self.clear(o, off, n)
        if val == 0 and off == 0 and n == o.size:
            o.zero = True
            o.init = None
            return
        p = 0
        while p < n:
            s = 8 if n - p >= 8 else (4 if n - p >= 4 else 1)
            o.cells[off + p] = (s, int.from_bytes(bytes([val]) * s, 'little'))
            p += s

    # symbolic arrays ------------------------------------------------------
    def new_array(self, st, n, ety, arr, name):
        """object holding n (symbolic) elements of scalar type ety with contents arr: BV64 -> sort"""
        es = self.mod.sizeof(ety)
        a = self.alloc(st, None, 'array', name)
        o = st.mem[a >> SEG]
        o.size = n
        o.arr = arr
        o.esz = es
        o.ety = ety
        return a

    def arr_bounds(self, st, o, idx):
        n = o.size if not isinstance(o.size, int) else z3.BitVecVal(o.size, 64)
        self.require(st, z3.ULT(idx, n), 'memory safety: index within container %s' % o.name)

    def arr_load(self, st, o, idx, n, ty):
        if n != o.esz:
            raise Unsupported('array element size')
        idx = z3.simplify(idx)
        self.arr_bounds(st, o, idx)
        v = z3.simplify(z3.Select(o.arr, idx))
        if ty[0] == 'f':
            return from_z3(v)
        return v

    def arr_store(self, st, o, idx, n, ty, v):
        if n != o.esz:
            raise Unsupported('array element size')
        idx = z3.simplify(idx)
        self.arr_bounds(st, o, idx)
        if isinstance(v, Composite):
            raise Unsupported('a value put together from pieces stored in an array')
        if v is UNDEF:  # an indeterminate value: any
            v = z3.FreshConst(z3.RealSort() if ty[0] == 'f' else z3.BitVecSort(n * 8), 'indet')
        elif ty[0] == 'f':
            v = v.z()
        else:
            v = tobv(v, n * 8)
        o.arr = z3.Store(o.arr, idx, v)

    def sym_index(self, o, p):
        es = o.esz
        if p.off % es or any(s % es for _, s in p.terms):
            raise Unsupported('unaligned symbolic access')
        e = z3.BitVecVal((p.off // es) & ((1 << 64) - 1), 64)
        for t, s in p.terms:
            e = e + (t * z3.BitVecVal(s // es, 64) if s != es else t)
        return e

    def sym_candidates(self, st, o, p, n):
        """feasible concrete offsets of a symbolic pointer into a small object"""
        step = 0
        from math import gcd
        for _, s in p.terms:
            step = gcd(step, s)
        off = p.offset()
        inb = z3.And(z3.ULE(off, z3.BitVecVal(o.size - n, 64)))
        self.require(st, inb, 'memory safety: access within object %s' % o.name)
        first = p.off % step if step else 0
        return [c for c in range(first, o.size - n + 1, step)], off

    def load_sym(self, st, ty, p, n):
        o = st.mem.get(p.oid)
        if o is None:
            self.fail_hard(st, 'memory safety: load through dangling pointer')
        if o.arr is not None:
            return self.arr_load(st, o, self.sym_index(o, p), n, ty)
        cand, off = self.sym_candidates(st, o, p, n)
        if len(cand) > 400:
            raise Unsupported('symbolic access to large object')
        if ty[0] == 'ptr' or len(cand) > 64:
            # fork on the offset
            c = self.concretize(st, off)
            return self.load(st, ty, (p.oid << SEG) + BIAS + c)
        vals = []
        for c in cand:
            v = self.conv(self.read_raw(o, c, n), ty, n)
            vals.append((c, v))
        if any(v is UNDEF or isinstance(v, (Composite, Special)) for _, v in vals):
            c = self.concretize(st, off)
            return self.load(st, ty, (p.oid << SEG) + BIAS + c)
        return self.ite_chain(off, vals, ty)

    def ite_chain(self, off, vals, ty):
        r = vals[-1][1]
        if ty[0] == 'f':
            if all(v.key() == r.key() for _, v in vals):
                return r
            e = r.z()
            for c, v in reversed(vals[:-1]):
                e = z3.If(off == z3.BitVecVal(c, 64), v.z(), e)
            return from_z3(e)
        w = ty[1]
        if all(isinstance(v, int) and v == r for _, v in vals):
            return r
        if w == 1:
            e = zbool(r)
            for c, v in reversed(vals[:-1]):
                e = z3.If(off == z3.BitVecVal(c, 64), zbool(v), e)
            return e
        e = tobv(r, w)
        for c, v in reversed(vals[:-1]):
            e = z3.If(off == z3.BitVecVal(c, 64), tobv(v, w), e)
        return e

    def store_sym(self, st, ty, v, p, n):
        o = st.mem.get(p.oid)
        if o is None:
            self.fail_hard(st, 'memory safety: store through dangling pointer')
        if o.const:
            self.fail_hard(st, 'memory safety: store to a constant')
        if o.arr is not None:
            idx = self.sym_index(o, p)
            o = self.wobj(st, o)
            return self.arr_store(st, o, idx, n, ty, v)
        cand, off = self.sym_candidates(st, o, p, n)
        c = self.concretize(st, off)
        self.store(st, ty, v, (p.oid << SEG) + BIAS + c)

    # ------------------------------------------------------------------ logic
    def reduce(self, st, p):
        return reduce(p, st.rules) if st.rules else p

    def add_rule_eq(self, st, p, lead=None):
        """assume p == 0 (p a Poly); orient it as a rewrite rule where possible"""
        p = self.reduce(st, p)
        if not p.d:
            return
        st.facts.append(p.z() == 0)
        if lead is None:
            best = None
            for m, c in p.d.items():
                if len(m) == 1:
                    # linear atom that occurs nowhere else in p
                    k = m[0]
                    if all(k not in mm for mm in p.d if mm != m):
                        if best is None or k > best[0][0]:
                            best = (m, c)
            if best is None:
                return
            lead, c = best
        else:
            c = p.d.get(lead)
            if c is None:
                return
        rest = Poly({m: num(Fraction(-x) / c) for m, x in p.d.items() if m != lead})
        # keep rules inter-reduced
        st.rules = [(lm, reduce(rp, [(lead, rest)])) for lm, rp in st.rules]
        st.rules.append((lead, rest))

    def add_hyp(self, st, p):
        """assume p == 0 for a large polynomial: kept out of the SMT queries, used by linear_combination"""
        st.ghost.setdefault('hyps', []).append(p)

    def linear_combination(self, st, p):
        """is p a rational linear combination of the assumed polynomials?"""
        hyps = st.ghost['hyps']
        # the objects themselves are kept: an id may be used again once its object is gone
        key = list(hyps) + list(st.rules)
        if self.echelon is None or len(key) != len(self.echelon[0]) or \
                any(x is not y for x, y in zip(key, self.echelon[0])):
            rows = []
            for h in hyps:
                h = self.lin_reduce(dict(self.reduce(st, h).d), rows)
                if h:
                    m = max(h, key=lambda x: (len(x), x))
                    c = h[m]
                    rows.append((m, {k: Fraction(v) / c for k, v in h.items()}))
            self.echelon = (key, rows)
        return not self.lin_reduce(dict(p.d), self.echelon[1])

    @staticmethod
    def lin_reduce(d, rows):
        for m, r in rows:
            c = d.get(m)
            if c:
                for k, v in r.items():
                    x = d.get(k, 0) - c * v
                    if x == 0:
                        d.pop(k, None)
                    else:
                        d[k] = x
        return d

    def assume(self, st, c):
        c = tobool(c)
        if c is True:
            return
        if c is False:
            raise PathEnd()
        c = z3.simplify(c)
        if z3.is_true(c):
            return
        if z3.is_false(c):
            raise PathEnd()
        st.pc.append(c)
        st.decided[c.get_id()] = (True, c)

    def solver(self, timeout=None):
        s = z3.Solver()
        s.set('timeout', timeout or self.solver_timeout)
        return s

    def check_sat(self, cons, timeout=None):
        t = time.time()
        s = self.solver(timeout)
        s.add(*cons)
        r = s.check()
        self.res.solver_s += time.time() - t
        self.res.solver_calls += 1
        return r, s

    def feasible(self, st, extra):
        cons = st.pc + [extra]
        key = tuple(sorted(c.get_id() for c in cons))
        r = self.feas_cache.get(key)
        if r is None:
            rr, _ = self.check_sat(cons, 3000)
            r = (rr != z3.unsat)
            self.feas_cache[key] = (r, cons)
        else:
            r = r[0]
        return r

    def decide(self, st, c):
        """truth value of c on this path; forks when both are possible"""
        c = tobool(c)
        if isinstance(c, bool):
            return c
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        d = st.decided.get(c.get_id())
        if d is not None:
            return d[0]
        neg = z3.Not(c)
        ft = self.feasible(st, c)
        ff = self.feasible(st, neg)
        if ft and ff:
            if not self.can_fork():
                raise Budget('path budget')
            other = st.clone()
            fr = other.frames[-1]
            fr.pc -= 1
            other.pc.append(neg)
            other.decided[c.get_id()] = (False, c)
            self.on_decide(other, c, False)
            self.work.append(other)
            st.pc.append(c)
            st.decided[c.get_id()] = (True, c)
            self.on_decide(st, c, True)
            return True
        if ft:
            st.decided[c.get_id()] = (True, c)
            return True
        if ff:
            st.decided[c.get_id()] = (False, c)
            return False
        raise PathEnd()

    def on_decide(self, st, c, val):
        """equalities between reals learnt on a branch become rewrite rules"""
        p = self.cmp_polys.get(c.get_id())
        if p is not None:
            op, poly, _ = p
            if (op == 'eq' and val) or (op == 'ne' and not val):
                self.add_rule_eq(st, poly)

    cmp_polys = {}

    def can_fork(self):
        if self.deadline and time.time() > self.deadline:
            raise Budget('time budget')
        return len(self.work) + self.res.paths < self.opts.get('max_paths', 20000)

    def concretize(self, st, bv):
        """fork over the feasible values of a bit vector"""
        if isinstance(bv, int):
            return bv
        bv = z3.simplify(bv)
        if z3.is_bv_value(bv):
            return bv.as_long()
        n = 0
        while True:
            r, s = self.check_sat(st.pc + [z3.Not(bv == x) for x in ()])
            if r == z3.unsat:
                raise PathEnd()
            if r != z3.sat:
                raise Unsupported('solver could not enumerate a value')
            v = s.model().eval(bv, True).as_long()
            # prefer a value already decided
            if self.decide(st, bv == z3.BitVecVal(v, bv.size())):
                return v
            n += 1
            if n > 600:
                raise Unsupported('too many values')

    def concretize_ptr(self, st, p):
        if isinstance(p, SymPtr):
            c = self.concretize(st, p.offset())
            return (p.oid << SEG) + BIAS + sgn(c, 64)
        return p

    # ---- obligations
    def where(self, st):
        out = []
        for fr in reversed(st.frames):
            f = fr.fn
            file, line = self.mod.func_file(f)
            ln = None
            try:
                ln = self.mod.loc_line(fr.cf.locs[fr.block][fr.pc - 1])
            except Exception:
                pass
            out.append('%s (%s:%s)' % (demangle(f.name), file, ln or line))
            if len(out) >= 6:
                break
        return out

    def record_fail(self, st, label, kind, model, detail=''):
        if self.disc is not None:
            return
        inputs = None
        if model is not None:
            inputs = self.extract_inputs(st, model)
        self.res.failed.append({'label': label, 'kind': kind, 'where': self.where(st), 'inputs': inputs,
                                'detail': detail, 'path': [str(c)[:200] for c in st.pc[-20:]]})
        if len(self.res.failed) >= self.max_fail:
            raise Budget('enough failures')

    def small_model(self, st, cons, model):
        """prefer a counterexample with small integers, so that it can be replayed"""
        big = [v for _, _, k, v in st.inputs if k == 'int' and z3.is_bv(v) and not z3.is_bv_value(v)
               and model.eval(v, True).as_long() > 12]
        if not big:
            return model
        for lim in (6, 40):
            r, s = self.check_sat(cons + [z3.ULE(v, z3.BitVecVal(lim, v.size())) for v in big], 5000)
            if r == z3.sat:
                return s.model()
        return model

    def fail_hard(self, st, label):
        """an obligation that is false on this path whatever the inputs: violated if path feasible"""
        self.res.obligations += 1
        self.count_label(label)
        r, s = self.check_sat(st.pc + st.facts)
        if r == z3.unsat:
            self.res.discharged += 1
            self.by('path infeasible (z3)')
        elif r == z3.sat:
            self.record_fail(st, label, 'violated', self.small_model(st, st.pc + st.facts, s.model()))
        else:
            r, s = self.check_sat(st.pc)
            self.record_fail(st, label, 'undecided', s.model() if r == z3.sat else None)
        raise PathEnd()

    def by(self, k):
        self.res.by[k] = self.res.by.get(k, 0) + 1

    def count_label(self, label):
        self.res.labels[label] = self.res.labels.get(label, 0) + 1

    def require(self, st, c, label):
        """implicit obligation (memory safety): prove, then assume"""
        c = tobool(c)
        if c is True:
            return
        if c is False:
            self.fail_hard(st, label)
        cs = z3.simplify(c)
        if z3.is_true(cs):
            return
        d = st.decided.get(cs.get_id())
        if d is not None and d[0]:
            return
        self.res.obligations += 1
        self.count_label(label)
        r, s = self.check_sat(st.pc + [z3.Not(cs)])
        if r != z3.unsat and st.facts:
            r, s = self.check_sat(st.pc + st.facts + [z3.Not(cs)])
        if r == z3.unsat:
            self.res.discharged += 1
            self.by('z3')
            st.decided[cs.get_id()] = (True, cs)
            return
        self.record_fail(st, label, 'violated' if r == z3.sat else 'undecided',
                         self.small_model(st, st.pc + st.facts + [z3.Not(cs)], s.model()) if r == z3.sat else None)
        st.pc.append(cs)

    def check(self, st, c, label):
        """explicit contract clause"""
        if self.disc is not None:
            return  # an iteration is only tried to find out what it modifies
        self.res.obligations += 1
        self.count_label(label)
        if c is UNDEF:
            self.fail_if_feasible(st, label + ' [depends on an uninitialised value]')
            return
        c = tobool(c)
        if c is True:
            self.res.discharged += 1
            self.by('evaluation')
            return
        if c is False:
            r, s = self.check_sat(st.pc + st.facts)
            if r == z3.unsat:
                self.res.discharged += 1
                self.by('path infeasible (z3)')
                return
            if r == z3.unknown:
                r, s = self.check_sat(st.pc)
                self.record_fail(st, label, 'undecided', s.model() if r == z3.sat else None)
                return
            self.record_fail(st, label, 'violated', self.small_model(st, st.pc + st.facts, s.model()))
            return
        self.prove(st, c, label)

    def prove(self, st, c, label):
        cs = z3.simplify(c)
        if z3.is_true(cs):
            self.res.discharged += 1
            self.by('evaluation')
            return
        d = st.decided.get(cs.get_id())
        if d is not None and d[0]:
            self.res.discharged += 1
            self.by('path condition')
            return
        r, s = self.check_sat(st.pc + [z3.Not(cs)])
        if r != z3.unsat and st.facts:
            r, s = self.check_sat(st.pc + st.facts + [z3.Not(cs)])
        if r == z3.unsat:
            self.res.discharged += 1
            self.by('z3')
            return
        if r == z3.sat:
            self.record_fail(st, label, 'violated',
                             self.small_model(st, st.pc + st.facts + [z3.Not(cs)], s.model()))
            return
        r2 = self.second_solver(st.pc + st.facts + [z3.Not(cs)])
        if r2 == 'unsat':
            self.res.discharged += 1
            self.by('cvc5')
            return
        self.record_fail(st, label, 'undecided', self.any_model(st))

    def second_solver(self, cons):
        try:
            import subprocess
            s = z3.Solver()
            s.add(*cons)
            txt = '(set-logic ALL)\n' + s.to_smt2()
            t = time.time()
            p = subprocess.run(['cvc5', '--tlimit=20000', '--lang=smt2', '-'], input=txt, text=True,
                               capture_output=True, timeout=30)
            self.res.solver_s += time.time() - t
            self.res.solver_calls += 1
            return p.stdout.strip().split('\n')[0]
        except Exception:
            return 'unknown'

    def fail_if_feasible(self, st, label):
        r, s = self.check_sat(st.pc + st.facts)
        if r == z3.unsat:
            self.res.discharged += 1
            self.by('path infeasible (z3)')
        elif r == z3.sat:
            self.record_fail(st, label, 'violated', s.model())
        else:
            self.record_fail(st, label, 'undecided', self.any_model(st))

    def any_model(self, st):
        r, s = self.check_sat(st.pc + st.facts, 5000)
        if r == z3.sat:
            return s.model()
        r, s = self.check_sat(st.pc, 5000)
        return s.model() if r == z3.sat else None

    def check_eq(self, st, a, b, label):
        if self.disc is not None:
            return
        self.res.obligations += 1
        self.count_label(label)
        if a is UNDEF or b is UNDEF:
            self.fail_if_feasible(st, label + ' [depends on an uninitialised value]')
            return
        if isinstance(a, Special) or isinstance(b, Special):
            if a is b and a is not NAN:
                self.res.discharged += 1
                self.by('evaluation')
                return
            self.fail_if_feasible(st, label)
            return
        d = a - b
        if not d.d:
            self.res.discharged += 1
            self.by('ring normal form')
            return
        d2 = self.reduce(st, d)
        if not d2.d:
            self.res.discharged += 1
            self.by('ring normal form modulo contract equations')
            return
        if 'hyps' in st.ghost and self.linear_combination(st, d2):
            self.res.discharged += 1
            self.by('linear combination of contract equations')
            return
        if len(d2.d) > 600:
            self.record_fail(st, label, 'undecided', None, 'difference with %d terms' % len(d2.d))
            return
        # counterexample first: keep the query small
        e = d2.z() != 0
        # prefer a counterexample that is visible in floating point
        big = z3.Or(d2.z() >= 1, d2.z() <= -1)
        r, s = self.check_sat(st.pc + st.facts + [big], 5000)
        if r == z3.sat:
            self.record_fail(st, label, 'violated', self.small_model(st, st.pc + st.facts + [big], s.model()),
                             'difference ' + repr(d2)[:400])
            return
        r, s = self.check_sat(st.pc + [e], 5000)
        if r == z3.unsat:
            self.res.discharged += 1
            self.by('z3')
            return
        if st.facts:
            r, s = self.check_sat(st.pc + st.facts + [e])
            if r == z3.unsat:
                self.res.discharged += 1
                self.by('z3')
                return
        if r == z3.sat:
            self.record_fail(st, label, 'violated', s.model(), 'difference ' + repr(d2)[:400])
            return
        r2 = self.second_solver(st.pc + st.facts + [e])
        if r2 == 'unsat':
            self.res.discharged += 1
            self.by('cvc5')
            return
        self.record_fail(st, label, 'undecided', self.any_model(st), 'difference ' + repr(d2)[:400])

    def extract_inputs(self, st, model):
        out = []
        for name, occ, kind, v in st.inputs:
            if kind == 'array':
                arr, n = v
                n = n if isinstance(n, int) else model.eval(n, True).as_long()
                if n <= 2000:
                    for i in range(n):
                        x = model.eval(z3.Select(arr, z3.BitVecVal(i, 64)), True)
                        out.append(('arr:%s:%d' % (name, i), occ,
                                    real_str(x) if z3.is_real(x) else str(x.as_long())))
            elif kind == 'real':
                x = model.eval(v.z(), True)
                out.append((name, occ, real_str(x)))
            elif isinstance(v, int):
                out.append((name, occ, str(v)))
            elif isinstance(v, z3.BoolRef):
                out.append((name, occ, '1' if z3.is_true(model.eval(v, True)) else '0'))
            else:
                x = model.eval(v, True)
                out.append((name, occ, str(x.as_long())))
        for name, args, v in st.ufs:
            aa = []
            for a in args:
                if isinstance(a, int):
                    aa.append(str(a))
                elif isinstance(a, Poly):
                    aa.append(real_str(model.eval(a.z(), True)))
                else:
                    aa.append(str(model.eval(a, True).as_long()))
            if isinstance(v, Poly):
                out.append(('uf:' + name + ':' + ','.join(aa), 0, real_str(model.eval(v.z(), True))))
            else:
                out.append(('uf:' + name + ':' + ','.join(aa), 0, str(model.eval(v, True).as_long())))
        return out

    # ------------------------------------------------------------------ constants
    def cval(self, c):
        k = c.kind
        if k == 'int':
            return c.v
        if k == 'fp':
            if isinstance(c.v, str):
                return SPECIALS[c.v]
            return Poly.const(c.v)
        if k == 'undef':
            ty = self.mod.resolve(c.ty)
            if ty[0] == 'struct':
                return tuple(self.cval(Const('undef', e, None)) for e in ty[1])
            if ty[0] in ('arr', 'vec'):
                return tuple(self.cval(Const('undef', ty[2], None)) for _ in range(ty[1]))
            return UNDEF
        if k == 'zero':
            return self.zero_of(c.ty)
        if k == 'global':
            return self.addr_of(c.v)
        if k == 'agg':
            return tuple(self.cval(e) for e in c.v)
        if k == 'bytes':
            return tuple(c.v)
        if k == 'gep':
            bt, ops = c.v
            base = self.cval(ops[0])
            return self.gep_const(bt, base, [self.cval(o) for o in ops[1:]], [o.ty for o in ops[1:]])
        if k == 'cast':
            return self.cval(c.v[1])
        if k == 'bin':
            op, a, b = c.v
            return self.binop(op, self.cval(a), self.cval(b), c.ty[1])
        if k == 'icmp':
            pred, a, b = c.v
            return int(bool(self.icmp(pred, self.cval(a), self.cval(b), 64)))
        raise Unsupported('const ' + k)

    def zero_of(self, ty):
        ty = self.mod.resolve(ty)
        if ty[0] == 'f':
            return ZERO
        if ty[0] in ('i', 'ptr'):
            return 0
        if ty[0] == 'struct':
            return tuple(self.zero_of(e) for e in ty[1])
        if ty[0] in ('arr', 'vec'):
            return tuple(self.zero_of(ty[2]) for _ in range(ty[1]))
        raise Unsupported('zero')

    def gep_const(self, bt, base, idx, tys):
        mod = self.mod
        off = 0
        ty = bt
        for j, i in enumerate(idx):
            if j == 0:
                off += sgn(i, tys[j][1]) * mod.sizeof(bt)
                continue
            t = mod.resolve(ty)
            if t[0] == 'struct':
                o, ty = mod.field_off(t, i)
                off += o
            else:
                ty = t[2]
                off += sgn(i, tys[j][1]) * mod.sizeof(ty)
        return self.padd(base, off)

    def addr_of(self, name):
        name = self.mod.aliases.get(name, name)
        a = self.gaddr.get(name)
        if a is not None:
            return a
        a = self.faddr.get(name)
        if a is not None:
            return a
        st = self.init_state
        if name in self.mod.funcs or name in self.mod.decls:
            a = self.galloc(1, 'func', name)
            self.faddr[name] = a
            self.fname[a] = name
            return a
        if name in self.mod.globals:
            return self.make_global(name)
        raise Unsupported('unknown global ' + name)

    def galloc(self, size, kind, name):
        """globals get ids of their own range so that they are shared by all states"""
        oid = self.gid
        self.gid += 1
        o = Obj(oid, size, kind, None, name)
        self.gobjs[oid] = o
        return (oid << SEG) + BIAS

    def make_global(self, name):
        rest = self.mod.globals[name]
        s = Stream(tokenize(rest))
        const = False
        ext = False
        while True:
            t = s.peek()
            if t == 'external' or t == 'extern_weak':
                ext = True
                s.next()
            elif t in ('global', 'constant'):
                const = t == 'constant'
                s.next()
                break
            else:
                s.next()
                if s.peek() == '(':
                    skip_attr_arg(s)
        ty = self.mod.parse_type(s)
        try:
            size = self.mod.sizeof(ty)
        except Exception:
            size = 64
        a = self.galloc(max(size, 1), 'global', name)
        o = self.gobjs[a >> SEG]
        self.gaddr[name] = a
        o.const = const
        if ext:
            o.zero = True
            if o.size < 4096:
                o.size = 4096
            o.const = False
        else:
            v = self.mod.parse_value(s, ty)
            self.init_global(o, 0, ty, v)
        return a

    def init_global(self, o, off, ty, c):
        mod = self.mod
        ty = mod.resolve(ty)
        if c.kind == 'zero':
            if off == 0 and mod.sizeof(ty) == o.size:
                o.zero = True
            else:
                n = mod.sizeof(ty)
                for p in range(0, n, 8):
                    o.cells[off + p] = (min(8, n - p), 0)
            return
        if c.kind == 'undef':
            return
        if c.kind == 'bytes':
            if off == 0 and mod.sizeof(ty) == o.size:
                o.init = c.v
            else:
                b = c.v
                for p in range(0, len(b), 8):
                    o.cells[off + p] = (len(b[p:p + 8]), int.from_bytes(b[p:p + 8], 'little'))
            return
        if c.kind == 'agg':
            if ty[0] == 'struct':
                for i, e in enumerate(c.v):
                    fo, fe = mod.field_off(ty, i)
                    self.init_global(o, off + fo, fe, e)
            else:
                es = mod.sizeof(ty[2])
                for i, e in enumerate(c.v):
                    self.init_global(o, off + i * es, ty[2], e)
            return
        n = (ty[1] + 7) // 8 if ty[0] == 'i' else mod.sizeof(ty)
        o.cells[off] = (n, self.cval(c))

    # ------------------------------------------------------------------ scalar operations
    def binop(self, op, a, b, w):
        if isinstance(a, int) and isinstance(b, int):
            M = (1 << w) - 1
            if op == 'add':
                return (a + b) & M
            if op == 'sub':
                return (a - b) & M
            if op == 'mul':
                return (a * b) & M
            if op == 'and':
                return a & b
            if op == 'or':
                return a | b
            if op == 'xor':
                return a ^ b
            if op == 'shl':
                return (a << b) & M if b < w else UNDEF
            if op == 'lshr':
                return a >> b if b < w else UNDEF
            if op == 'ashr':
                return (sgn(a, w) >> b) & M if b < w else UNDEF
            if op in ('udiv', 'urem', 'sdiv', 'srem'):
                if b == 0:
                    self.fail_hard(self.cur, 'arithmetic: integer division by zero')
                if op == 'udiv':
                    return a // b
                if op == 'urem':
                    return a % b
                x, y = sgn(a, w), sgn(b, w)
                q = abs(x) // abs(y)
                if (x < 0) != (y < 0):
                    q = -q
                return q & M if op == 'sdiv' else (x - q * y) & M
            raise Unsupported(op)
        if a is UNDEF or b is UNDEF:
            if op in ('and', 'mul') and ((type(a) is int and a == 0) or (type(b) is int and b == 0)):
                return 0
            if op == 'and' and w % 8 == 0 and (type(a) is int or type(b) is int):
                return self.comp_and(UNDEF, a if type(a) is int else b, w)
            if op == 'or' and w % 8 == 0 and not (a is UNDEF and b is UNDEF):
                return self.comp_binop('or', a, b, w)
            return UNDEF
        if isinstance(a, SymPtr) or isinstance(b, SymPtr):
            return self.ptr_binop(op, a, b, w)
        if isinstance(a, Composite) or isinstance(b, Composite):
            return self.comp_binop(op, a, b, w)
        if w == 1:
            x, y = zbool(a), zbool(b)
            if op == 'and':
                return z3.simplify(z3.And(x, y))
            if op == 'or':
                return z3.simplify(z3.Or(x, y))
            if op in ('xor', 'add', 'sub'):
                return z3.simplify(z3.Xor(x, y))
            raise Unsupported('i1 ' + op)
        # identities with a concrete operand
        if isinstance(b, int):
            if b == 0 and op in ('add', 'sub', 'or', 'xor', 'shl', 'lshr', 'ashr'):
                return a
            if b == 1 and op in ('mul', 'udiv', 'sdiv'):
                return a
            if b == 0 and op in ('mul', 'and'):
                return 0
            if b == 1 and op == 'urem':
                return 0
        if isinstance(a, int):
            if a == 0 and op in ('add', 'or', 'xor'):
                return b
            if a == 1 and op == 'mul':
                return b
            if a == 0 and op in ('mul', 'and', 'shl', 'lshr'):
                return 0
        x, y = tobv(a, w), tobv(b, w)
        if op == 'add':
            r = x + y
        elif op == 'sub':
            r = x - y
        elif op == 'mul':
            r = x * y
        elif op == 'and':
            r = x & y
        elif op == 'or':
            r = x | y
        elif op == 'xor':
            r = x ^ y
        elif op == 'shl':
            r = x << y
        elif op == 'lshr':
            r = z3.LShR(x, y)
        elif op == 'ashr':
            r = x >> y
        elif op in ('udiv', 'urem', 'sdiv', 'srem'):
            if not isinstance(b, int):
                self.require(self.cur, y != 0, 'arithmetic: integer division by zero')
            elif b == 0:
                self.fail_hard(self.cur, 'arithmetic: integer division by zero')
            if op in ('udiv', 'urem') and isinstance(b, int) and self.cur is not None:
                k = self.exact_division(x, b, w)
                if k is not None:
                    return k[0 if op == 'udiv' else 1]
            r = {'udiv': z3.UDiv, 'urem': z3.URem, 'sdiv': lambda p, q: p / q, 'srem': z3.SRem}[op](x, y)
        else:
            raise Unsupported(op)
        r = z3.simplify(r)
        if z3.is_bv_value(r):
            return r.as_long()
        return r

    def exact_division(self, x, c, w):
        """quotient and remainder of x by c, if x is m * t + r with c | m and without overflow"""
        m, t, r = linear_bv(x, w)
        if t is None or m == 0 or m % c != 0:
            return None
        if self.feasible(self.cur, z3.Not(z3.ULE(t, z3.BitVecVal(((1 << w) - 1 - r) // m, w)))):
            return None
        q = z3.simplify(z3.BitVecVal(m // c, w) * t + z3.BitVecVal(r // c, w))
        return q, r % c

    def ptr_binop(self, op, a, b, w):
        if op == 'add':
            if isinstance(b, SymPtr):
                a, b = b, a
            if isinstance(b, int):
                return a.add(sgn(b, 64))
            if isinstance(b, z3.BitVecRef):
                return SymPtr(a.oid, a.off, a.terms + ((b, 1),))
        if op == 'sub':
            if isinstance(a, SymPtr) and isinstance(b, int) and (b >> SEG) != a.oid:
                return a.add(-sgn(b, 64))
            ia, oa = self.ptr_parts(a)
            ib, ob = self.ptr_parts(b)
            if ia == ib:
                r = z3.simplify(oa - ob)
                return r.as_long() if z3.is_bv_value(r) else r
        raise Unsupported('pointer arithmetic ' + op)

    def ptr_parts(self, p):
        if isinstance(p, SymPtr):
            return p.oid, p.offset()
        if isinstance(p, int):
            return p >> SEG, z3.BitVecVal(((p & SEGMASK) - BIAS) & ((1 << 64) - 1), 64)
        raise Unsupported('pointer value %r' % (p,))

    def comp_and(self, v, mask, w):
        """byte-wise mask of a partly undefined or composite value"""
        out = []
        for i in range(w // 8):
            m = (mask >> (8 * i)) & 255
            if m == 0:
                out.append((1, 0))
            elif m == 255:
                out.append((1, None))
            else:
                return UNDEF
        # group runs
        res = []
        i = 0
        while i < len(out):
            j = i
            while j < len(out) and out[j][1] == out[i][1]:
                j += 1
            if out[i][1] == 0:
                res.append((j - i, 0))
            elif v is UNDEF:
                res.append((j - i, UNDEF))
            else:
                res.append((j - i, self.sub_val(v, w // 8, i, j - i)))
            i = j
        return self.join(res)

    def comp_binop(self, op, a, b, w):
        if op == 'and' and isinstance(b, int):
            return self.comp_and(a, b, w)
        if op == 'and' and isinstance(a, int):
            return self.comp_and(b, a, w)
        if op == 'lshr' and isinstance(a, Composite) and isinstance(b, int) and b % 8 == 0:
            k = b // 8
            v = self.sub_val(a, w // 8, k, w // 8 - k)
            return self.join([(w // 8 - k, v), (k, 0)])
        if op == 'shl' and isinstance(a, Composite) and isinstance(b, int) and b % 8 == 0:
            k = b // 8
            v = self.sub_val(a, w // 8, 0, w // 8 - k)
            return self.join([(k, 0), (w // 8 - k, v)])
        if op == 'or':
            # disjoint pieces
            def expand(v):
                if isinstance(v, Composite):
                    return [(n, x) for n, x in v.pieces]
                if isinstance(v, int):
                    return [(w // 8, v)]
                return [(w // 8, v)]
            pa, pb = expand(a), expand(b)
            cuts = set([0, w // 8])
            for pp in (pa, pb):
                p = 0
                for n, _ in pp:
                    p += n
                    cuts.add(p)
            cuts = sorted(cuts)
            out = []
            for lo, hi in zip(cuts, cuts[1:]):
                x = self.sub_val(Composite(pa), w // 8, lo, hi - lo)
                y = self.sub_val(Composite(pb), w // 8, lo, hi - lo)
                if isinstance(x, int) and x == 0:
                    out.append((hi - lo, y))
                elif isinstance(y, int) and y == 0:
                    out.append((hi - lo, x))
                elif isinstance(x, int) and isinstance(y, int):
                    out.append((hi - lo, x | y))
                elif x is UNDEF or y is UNDEF:
                    out.append((hi - lo, UNDEF))
                elif isinstance(x, (int, z3.BitVecRef)) and isinstance(y, (int, z3.BitVecRef)):
                    out.append((hi - lo, z3.simplify(tobv(x, 8 * (hi - lo)) | tobv(y, 8 * (hi - lo)))))
                else:
                    raise Unsupported('or of composites')
            return self.join(out)
        raise Unsupported('bit operation %s on the representation of a real' % op)

    def icmp(self, pred, a, b, w):
        if isinstance(a, int) and isinstance(b, int):
            if pred == 'eq':
                return int(a == b)
            if pred == 'ne':
                return int(a != b)
            if pred[0] == 's':
                a, b = sgn(a, w), sgn(b, w)
            p = pred[1:]
            if p == 'lt':
                return int(a < b)
            if p == 'le':
                return int(a <= b)
            if p == 'gt':
                return int(a > b)
            return int(a >= b)
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if isinstance(a, SymPtr) or isinstance(b, SymPtr):
            ia, oa = self.ptr_parts(a)
            ib, ob = self.ptr_parts(b)
            if ia != ib:
                if pred == 'eq':
                    return 0
                if pred == 'ne':
                    return 1
                return int({'lt': ia < ib, 'le': ia <= ib, 'gt': ia > ib, 'ge': ia >= ib}[pred[1:]])
            a, b, w = oa, ob, 64
        if isinstance(a, Composite) or isinstance(b, Composite):
            raise Unsupported('comparison of the representation of a real')
        if w == 1:
            x, y = zbool(a), zbool(b)
            if pred == 'eq':
                r = x == y
            elif pred == 'ne':
                r = x != y
            else:
                raise Unsupported('i1 order')
        else:
            x, y = tobv(a, w), tobv(b, w)
            r = {'eq': lambda: x == y, 'ne': lambda: x != y, 'ult': lambda: z3.ULT(x, y),
                 'ule': lambda: z3.ULE(x, y), 'ugt': lambda: z3.UGT(x, y), 'uge': lambda: z3.UGE(x, y),
                 'slt': lambda: x < y, 'sle': lambda: x <= y, 'sgt': lambda: x > y,
                 'sge': lambda: x >= y}[pred]()
        r = z3.simplify(r)
        if z3.is_true(r):
            return 1
        if z3.is_false(r):
            return 0
        return r

    def fbin(self, st, op, a, b):
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if isinstance(a, Special) or isinstance(b, Special):
            return self.fspecial(op, a, b)
        if op == 'fadd':
            return a + b
        if op == 'fsub':
            return a - b
        if op == 'fmul':
            r = a * b
            if len(r.d) > 60000:
                raise Unsupported('polynomial too large')
            return r
        if op == 'fdiv':
            return self.fdiv(st, a, b)
        raise Unsupported(op)

    def fspecial(self, op, a, b):
        if a is NAN or b is NAN:
            return NAN
        sa = a if isinstance(a, Special) else None
        sb = b if isinstance(b, Special) else None
        if op == 'fadd':
            if sa and sb:
                return sa if sa is sb else NAN
            return sa or sb
        if op == 'fsub':
            if sa and sb:
                return NAN if sa is sb else sa
            return sa or (NINF if sb is INF else INF)
        if op == 'fdiv' and sb and not sa:
            return ZERO
        raise Unsupported('arithmetic on infinity')

    def fdiv(self, st, a, b):
        b = self.reduce(st, b)
        if b.is_const():
            c = b.cval()
            if c == 0:
                if a.is_const():
                    x = a.cval()
                    return NAN if x == 0 else (INF if x > 0 else NINF)
                raise Unsupported('division of a symbolic value by the constant zero')
            return a.scale(num(Fraction(1) / Fraction(c)))
        a = self.reduce(st, a)
        if not a.d:
            # 0 / b
            pass
        # inverse atom of b, shared by all divisions by b
        # normalise b to leading coefficient 1 so that x/(2b) and x/b share it
        lead = max(b.d)
        lc = b.d[lead]
        bn = b.scale(num(Fraction(1) / Fraction(lc)))
        key = ('inv', bn.key())
        k = ATOMS.by_key.get(key)
        if k is None:
            k = ATOMS.fresh('inv')
            ATOMS.by_key[key] = k
        inv = Poly.atom(k)
        g = st.ghost.setdefault('inv', {})
        if k not in g:
            g[k] = -1
            st.facts.append(z3.Implies(bn.z() != 0, (inv * bn).z() == 1))
            # rule inv * lead -> (1 - inv*(rest)) only where b != 0 is known on this path
        if g[k] != 'rule' and g[k] != len(st.pc):
            nz = self.known_nonzero(st, bn)
            g[k] = len(st.pc)  # not known on this path so far
            if nz:
                g[k] = 'rule'
                p = inv * bn - ONE
                lm = tuple(sorted((k,) + lead))
                self.add_rule_eq(st, p, lm)
        return (a * inv).scale(num(Fraction(1) / Fraction(lc)))

    def known_nonzero(self, st, p):
        c = z3.simplify(p.z() != 0)
        if z3.is_true(c):
            return True
        r, _ = self.check_sat(st.pc + [p.z() == 0], 3000)
        if r == z3.unsat:
            return True
        if st.facts:
            r, _ = self.check_sat(st.pc + st.facts + [p.z() == 0], 3000)
        return r == z3.unsat

    def fcmp(self, st, pred, a, b):
        if pred == 'true':
            return 1
        if pred == 'false':
            return 0
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if isinstance(a, Special) or isinstance(b, Special):
            return self.fcmp_special(pred, a, b)
        if pred in ('ord', 'uno'):
            return int(pred == 'ord')
        p = pred[1:]
        d = self.reduce(st, a - b)
        if d.is_const():
            c = d.cval()
            return int({'eq': c == 0, 'ne': c != 0, 'lt': c < 0, 'le': c <= 0, 'gt': c > 0, 'ge': c >= 0}[p])
        # canonical sign: the leading coefficient is positive
        lead = max(d.d)
        if d.d[lead] < 0:
            d = d.neg()
            p = {'eq': 'eq', 'ne': 'ne', 'lt': 'gt', 'le': 'ge', 'gt': 'lt', 'ge': 'le'}[p]
        z = d.z()
        if p == 'eq':
            r = z == 0
        elif p == 'ne':
            r = z3.Not(z == 0)
        elif p == 'lt':
            r = z < 0
        elif p == 'le':
            r = z <= 0
        elif p == 'gt':
            r = z3.Not(z <= 0)
        else:
            r = z3.Not(z < 0)
        r = z3.simplify(r)
        if z3.is_true(r):
            return 1
        if z3.is_false(r):
            return 0
        if p in ('eq', 'ne'):
            self.cmp_polys[r.get_id()] = (p, d, r)
        return r

    def fcmp_special(self, pred, a, b):
        un = a is NAN or b is NAN
        if pred == 'ord':
            return int(not un)
        if pred == 'uno':
            return int(un)
        if un:
            return int(pred[0] == 'u')

        def rank(x):
            return {INF: 1, NINF: -1}.get(x, 0) if isinstance(x, Special) else 0
        ra, rb = rank(a), rank(b)
        p = pred[1:]
        return int({'eq': ra == rb, 'ne': ra != rb, 'lt': ra < rb, 'le': ra <= rb, 'gt': ra > rb,
                    'ge': ra >= rb}[p])

    def select(self, st, c, a, b, ty):
        if c is UNDEF:
            self.fail_hard(st, 'uninitialised value decides a selection')
        c = tobool(c)
        if isinstance(c, bool):
            return a if c else b
        cs = z3.simplify(c)
        d = st.decided.get(cs.get_id())
        if d is not None:
            return a if d[0] else b
        if isinstance(a, int) and isinstance(b, int) and a == b:
            return a
        if ty[0] == 'f' and isinstance(a, Poly) and isinstance(b, Poly):
            if a.key() == b.key():
                return a
            return from_z3(z3.If(cs, a.z(), b.z()))
        if ty[0] == 'i' and all(isinstance(x, (int, z3.ExprRef)) for x in (a, b)):
            if ty[1] == 1:
                return z3.simplify(z3.If(cs, zbool(a), zbool(b)))
            return z3.simplify(z3.If(cs, tobv(a, ty[1]), tobv(b, ty[1])))
        return a if self.decide(st, cs) else b

    def cast(self, op, v, fty, tty):
        if v is UNDEF:
            return UNDEF
        if op in ('bitcast',):
            if fty[0] == 'i' and tty[0] == 'f':
                return self.conv(v, tty, tty[1] // 8)
            if fty[0] == 'f' and tty[0] == 'i':
                return self.conv(v, tty, fty[1] // 8)
            if fty[0] == 'vec' and tty[0] in ('i', 'f') or tty[0] == 'vec':
                return self.vec_bitcast(v, fty, tty)
            return v
        if op in ('ptrtoint', 'inttoptr', 'addrspacecast'):
            return v
        if op == 'trunc':
            w, n = fty[1], tty[1]
            if isinstance(v, int):
                return v & ((1 << n) - 1)
            if isinstance(v, z3.BitVecRef):
                if n == 1:
                    r = z3.simplify(z3.Extract(0, 0, v) == 1)
                    return 1 if z3.is_true(r) else 0 if z3.is_false(r) else r
                r = z3.simplify(z3.Extract(n - 1, 0, v))
                return r.as_long() if z3.is_bv_value(r) else r
            if isinstance(v, Composite) and n % 8 == 0:
                return self.sub_val(v, w // 8, 0, n // 8)
            raise Unsupported('trunc')
        if op == 'zext':
            if isinstance(v, int):
                return v
            if isinstance(v, z3.BoolRef):
                return tobv(v, tty[1])
            if isinstance(v, Composite):
                return self.join([(fty[1] // 8, v), ((tty[1] - fty[1]) // 8, 0)])
            return z3.simplify(z3.ZeroExt(tty[1] - fty[1], v))
        if op == 'sext':
            if isinstance(v, int):
                return sgn(v, fty[1]) & ((1 << tty[1]) - 1)
            if isinstance(v, z3.BoolRef):
                return z3.If(v, z3.BitVecVal(-1, tty[1]), z3.BitVecVal(0, tty[1]))
            return z3.simplify(z3.SignExt(tty[1] - fty[1], v))
        if op in ('fpext', 'fptrunc'):
            return v
        if op in ('uitofp', 'sitofp'):
            if isinstance(v, int):
                return Poly.const(v if op == 'uitofp' else sgn(v, fty[1]))
            if isinstance(v, z3.BoolRef):
                return from_z3(z3.If(v, z3.RealVal(1 if op == 'uitofp' else -1), z3.RealVal(0)))
            return from_z3(z3.ToReal(z3.BV2Int(v, op == 'sitofp')))
        if op in ('fptoui', 'fptosi'):
            if isinstance(v, Poly) and v.is_const():
                c = v.cval()
                q = int(c)  # truncation toward zero
                return q & ((1 << tty[1]) - 1)
            # recognise a converted integer
            k = v.single_atom() if isinstance(v, Poly) else None
            if k is not None:
                t = ATOMS.z[k]
                if t.decl().kind() == z3.Z3_OP_TO_REAL and t.arg(0).decl().kind() == z3.Z3_OP_BV2INT:
                    bv = t.arg(0).arg(0)
                    if bv.size() == tty[1]:
                        return bv
                    if bv.size() < tty[1]:
                        return z3.ZeroExt(tty[1] - bv.size(), bv)
                    return z3.Extract(tty[1] - 1, 0, bv)
            if isinstance(v, Poly):
                zv = v.z()
                fl = z3.If(zv >= 0, z3.ToInt(zv), -z3.ToInt(-zv))
                return z3.Int2BV(fl, tty[1])
            raise Unsupported('real to integer conversion of a non-finite value')
        raise Unsupported('cast ' + op)

    def vec_bitcast(self, v, fty, tty):
        mod = self.mod
        n = mod.sizeof(fty)
        pieces = []
        if fty[0] == 'vec':
            es = mod.sizeof(fty[2])
            for x in v:
                pieces.append((es, x))
        else:
            pieces.append((n, v))
        o = Obj(0, n, 'tmp', None)
        p = 0
        for s, x in pieces:
            if isinstance(x, Composite):
                self.write_cell(o, p, s, x)
            elif x is not UNDEF:
                o.cells[p] = (s, x)
            p += s
        if tty[0] == 'vec':
            es = mod.sizeof(tty[2])
            return tuple(self.conv(self.read_raw(o, i * es, es), tty[2], es) for i in range(tty[1]))
        return self.conv(self.read_raw(o, 0, n), tty, n)

    # ------------------------------------------------------------------ running
    def start_state(self):
        st = State()
        self.init_state = st
        self.gid = 1
        self.gobjs = GObjs(self)
        st.nid = 1 << 20
        return st

    def getobj(self, st, oid):
        return st.mem.get(oid)

    def call_function(self, st, fn, args, ret, inv, va=None):
        if len(st.frames) > 400:
            raise Unsupported('call depth')
        cf = self.compiled(fn)
        fr = Frame()
        fr.fn = fn
        fr.cf = cf
        fr.block = cf.entry
        fr.code = cf.code[cf.entry]
        fr.pc = 0
        fr.regs = {}
        fr.ret = ret
        fr.inv = inv
        fr.allocas = []
        fr.prev = None
        fr.va = va
        fr.heads = None
        for (ty, name, byval), a in zip(fn.params, args):
            if byval is not None:
                n = self.mod.sizeof(byval)
                p = self.alloc(st, n, 'stack', 'byval')
                fr.allocas.append(p >> SEG)
                self.memcpy(st, p, a, n)
                a = p
            fr.regs[name] = a
        st.frames.append(fr)

    def do_return(self, st, v):
        fr = st.frames.pop()
        if self.disc is not None and len(st.frames) <= self.disc[2]:
            self.disc_exits += 1
            raise PathEnd()
        if fr.heads is not None and '__end__' in fr.heads:
            st.ghost.pop('inv_mode', None)
            if fr.heads['__end__'] == 'check':
                raise PathEnd()
        for oid in fr.allocas:
            st.mem.pop(oid, None)
        if not st.frames:
            raise PathEnd()
        c = st.frames[-1]
        if fr.ret is not None:
            c.regs[fr.ret] = v
        if fr.inv is not None:
            self.jump(st, c, fr.inv[0])

    disc = None
    disc_exits = 0
    alternatives = 1

    def jump(self, st, fr, label):
        cf = fr.cf
        phis = cf.phis[label]
        prev = fr.block
        if phis:
            regs = fr.regs
            vals = [(dst, g[prev](regs)) for dst, g in phis]
            for d, v in vals:
                regs[d] = v
        fr.block = label
        fr.code = cf.code[label]
        fr.pc = 0
        if fr.heads is not None:
            cut = fr.heads.get(label)
            if cut is not None and self.disc is None:
                import looprule
                looprule.back(self, st, fr, cut)
                return True
        if self.disc is not None:
            h, body, depth, found = self.disc
            if len(st.frames) - 1 == depth:
                if label == h:
                    import looprule
                    found.append(st)
                    raise looprule.LoopBack()
                if label not in body:
                    self.disc_exits += 1
                    raise PathEnd()
        elif st.ghost.get('loopinv'):
            import looprule
            loops = looprule.natural_loops(cf)
            if label in loops and prev not in loops[label]:
                inv = st.ghost['loopinv'][0]
                if looprule.trip_symbolic(self, st, fr, label) if inv[0] == '*' else \
                        re.search(inv[0], looprule.demangled(self, fr.fn.name)):
                    st.ghost['loopinv'] = st.ghost['loopinv'][1:]
                    looprule.enter(self, st, fr, label, inv)

    def throw(self, st, addr, tname):
        """unwind to the nearest handler"""
        st.exc.append((addr, tname))
        self.unwind(st, addr, tname, None)

    def unwind(self, st, addr, tname, fr_inv):
        inv = fr_inv
        while True:
            if inv is not None:
                fr = st.frames[-1]
                lab = inv[1]
                # does the landing pad accept it?
                self.jump(st, fr, lab)
                sel = self.landing(fr, tname)
                if sel is not None:
                    fr.regs['__exc'] = (addr, sel)
                    st.ghost['exc'] = (addr, tname)
                    return
            fr = st.frames.pop()
            for oid in fr.allocas:
                st.mem.pop(oid, None)
            if not st.frames:
                self.uncaught(st, tname)
            inv = fr.inv
            if self.disc is not None and len(st.frames) <= self.disc[2]:
                raise PathEnd()

    def uncaught(self, st, tname):
        fr = Frame()
        fr.fn = self.entry_fn
        fr.cf = self.compiled(self.entry_fn)
        fr.block = None
        fr.pc = 0
        fr.regs = {}
        fr.allocas = []
        st.frames.append(fr)
        self.fail_hard(st, 'no exception escapes (%s)' % demangle_type(tname))

    def landing(self, fr, tname):
        lp = fr.cf.lpads.get(fr.block)
        if lp is None:
            raise Unsupported('no landingpad')
        cleanup, clauses = lp
        for kind, g in clauses:
            if kind == 'catch':
                if g is None:
                    return 0x7ffffff0
                if self.type_matches(tname, g):
                    return self.typeid(g)
            else:
                raise Unsupported('exception filter')
        if cleanup:
            return 0
        return None

    def typeid(self, name):
        k = self.typeids.get(name)
        if k is None:
            k = len(self.typeids) + 1
            self.typeids[name] = k
        return k

    STDEXC = {'_ZTISt12length_error': '_ZTISt11logic_error', '_ZTISt12out_of_range': '_ZTISt11logic_error',
              '_ZTISt16invalid_argument': '_ZTISt11logic_error', '_ZTISt11logic_error': '_ZTISt9exception',
              '_ZTISt13runtime_error': '_ZTISt9exception', '_ZTISt9bad_alloc': '_ZTISt9exception',
              '_ZTISt20bad_array_new_length': '_ZTISt9bad_alloc', '_ZTISt8bad_cast': '_ZTISt9exception',
              '_ZTISt17bad_function_call': '_ZTISt9exception', '_ZTISt12domain_error': '_ZTISt11logic_error',
              '_ZTISt11range_error': '_ZTISt13runtime_error',
              '_ZTISt14overflow_error': '_ZTISt13runtime_error'}

    def bases(self, tname):
        if tname in self.STDEXC:
            return [self.STDEXC[tname]]
        rest = self.mod.globals.get(tname)
        if rest is None:
            return []
        return [b for b in re.findall(r'@(_ZTI\w+)', rest)]

    def type_matches(self, tname, g):
        if tname == g:
            return True
        return any(self.type_matches(b, g) for b in self.bases(tname))

    def run(self, entry, budget_s=600):
        self.deadline = time.time() + budget_s
        self.cmp_polys = {}
        st = self.start_state()
        fn = self.mod.funcs[entry]
        self.entry_fn = fn
        st.mem = self.gobjs.base()
        try:
            self.run_ctors(st)
            self.call_function(st, fn, [], None, None)
            self.work = [st]
            while self.work:
                s = self.work.pop()
                self.res.paths += 1
                self.run_state(s)
        except Budget as e:
            if self.res.failed and 'failures' in str(e):
                pass
            else:
                self.res.unsupported.append('budget: %s' % e)
        except (Unsupported, IRError) as e:
            w = []
            try:
                w = self.where(self.cur)
            except Exception:
                pass
            self.res.unsupported.append('%s at %s' % (e, ' <- '.join(w[:3])))
        except RecursionError:
            self.res.unsupported.append('recursion limit')
        return self.res

    def run_ctors(self, st):
        self.cur = st
        rest = self.mod.globals.get('llvm.global_ctors')
        if not rest:
            return
        for m in re.finditer(r'ptr @([-a-zA-Z$._0-9]+)', rest):
            f = m.group(1)
            if f in self.mod.funcs:
                self.work = []
                self.call_function(st, self.mod.funcs[f], [], None, None)
                try:
                    self.loop(st)
                except PathEnd:
                    pass
                if self.work:
                    raise Unsupported('fork in global constructors')

    def run_state(self, st):
        self.cur = st
        try:
            self.loop(st)
        except PathEnd:
            if not st.frames:
                self.res.completed += 1

    def loop(self, st):
        frames = st.frames
        deadline = self.deadline
        n = 0
        while True:
            fr = frames[-1]
            while True:
                ins = fr.code[fr.pc]
                fr.pc += 1
                n += 1
                if ins(self, st, fr):
                    break
            if n > 20000:
                self.res.insns += n
                st.steps += n
                n = 0
                if time.time() > deadline:
                    raise Budget('time budget')
                if st.steps > self.opts.get('max_steps', 60000000):
                    raise Budget('instruction budget')

    def compiled(self, fn):
        if fn.compiled is None:
            import compile_ir
            fn.parse()
            fn.compiled = compile_ir.compile_function(self, fn)
        if fn.name not in self.res.functions:
            self.res.functions.add(fn.name)
        return fn.compiled


class GObjs:
    """globals, created on demand in every state"""

    def __init__(self, ex):
        self.ex = ex
        self.objs = {}

    def __setitem__(self, k, v):
        self.objs[k] = v

    def __getitem__(self, k):
        return self.objs[k]

    def base(self):
        return MemDict(self)


class MemDict(dict):
    """object table of one state; global objects materialise on first use"""

    def __init__(self, g, d=()):
        dict.__init__(self, d)
        self.g = g

    def get(self, k, default=None):
        r = dict.get(self, k)
        if r is None:
            r = self.g.objs.get(k)
            if r is None:
                return default
            dict.__setitem__(self, k, r)
        return r

    def __getitem__(self, k):
        r = self.get(k)
        if r is None:
            raise KeyError(k)
        return r


_orig_clone = State.clone


def _clone(self):
    s = _orig_clone(self)
    if isinstance(self.mem, MemDict):
        s.mem = MemDict(self.mem.g, self.mem)
    return s


State.clone = _clone


def real_str(x):
    if z3.is_rational_value(x):
        n, d = x.numerator_as_long(), x.denominator_as_long()
        return str(n) if d == 1 else '%d/%d' % (n, d)
    if z3.is_algebraic_value(x):
        a = x.approx(20)
        return '%d/%d' % (a.numerator_as_long(), a.denominator_as_long())
    return '0'


_dm = {}


def demangle(n):
    r = _dm.get(n)
    if r is None:
        import subprocess
        r = subprocess.run(['c++filt', n], capture_output=True, text=True).stdout.strip()
        _dm[n] = r
    return r


def demangle_type(t):
    if t.startswith('_ZTI'):
        return demangle('_Z' + t[4:]) if False else demangle(t).replace('typeinfo for ', '')
    return t
