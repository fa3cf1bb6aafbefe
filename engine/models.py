"""Contracts assumed for functions outside /repo (C/C++ runtime, LAPACK), and the contract language's
own intrinsics (vp_*)."""
import re
import z3
from fractions import Fraction
from irparse import UNDEF
from poly import Poly, ATOMS, ZERO, ONE, from_z3, num
import symexec
from symexec import (Unsupported, PathEnd, SEG, BIAS, SymPtr, Special, INF, NINF, NAN, tobv, tobool, zbool, sgn,
                     fp_to_bits)
from compile_ir import THROWN

EXACT = {}
PATTERNS = []


def model(*names):
    def d(f):
        for n in names:
            EXACT[n] = f
        return f
    return d


def pattern(rx):
    def d(f):
        PATTERNS.append((re.compile(rx), f))
        return f
    return d


def throws(f):
    f.throws = True
    return f


def install(ex):
    def resolve(name):
        r = ex.rcache.get(name)
        if r is None:
            r = resolve1(name)
            ex.rcache[name] = r
        return r

    stub_io = any('5vp_io' in f for f in ex.mod.funcs)

    def resolve1(name):
        if name in ex.replace:
            t = ex.replace[name]
            ex.res.contracts_used.add(name)
            return ('fn', ex.mod.funcs[t])
        m = EXACT.get(name)
        if m is not None:
            return ('model', m)
        if name.startswith('_ZN9__gnu_cxx12__to_xstring') and 'vp_to_xstring' in ex.mod.funcs:
            return ('fn', ex.mod.funcs['vp_to_xstring'])
        if name == '_ZNSt7__cxx119to_stringEj' and 'vp_to_string_u' in ex.mod.funcs:
            return ('fn', ex.mod.funcs['vp_to_string_u'])
        for rx, m in PATTERNS:
            if rx.match(name):
                if stub_io and m in (m_sstream, m_ostream, m_sstr, m_iosinit) and name in ex.mod.funcs:
                    break
                return ('model', m)
        f = ex.mod.funcs.get(name)
        if f is not None:
            return ('fn', f)
        return ('none', None)
    ex.rcache = {}
    ex.resolve_call = resolve

    def branch(st, fr, v, lab, l1, l2):
        return 1 if ex.decide(st, v) else 0
    ex.branch = branch


# ---------------------------------------------------------------- helpers
def cstr(ex, st, addr):
    o, off = ex.obj_of(st, addr, 'string')
    out = bytearray()
    while True:
        v = ex.read_raw(o, off, 1)
        if not isinstance(v, int):
            raise Unsupported('symbolic string')
        if v == 0:
            return out.decode('latin1')
        out.append(v)
        off += 1


def new_input(ex, st, name, kind, v):
    occ = st.occ.get(name, 0)
    st.occ[name] = occ + 1
    st.inputs.append((name, occ, kind, v))
    return v


def conc(ex, st, v):
    return v if isinstance(v, int) else ex.concretize(st, v)


# ---------------------------------------------------------------- contract intrinsics
@model('vp_real', 'vp_realf')
def vp_real(ex, st, a, n):
    name = cstr(ex, st, a[0])
    occ = st.occ.get(name, 0)
    key = ('in', name, occ)
    k = ATOMS.by_key.get(key)
    if k is None:
        k = ATOMS.fresh('%s_%d' % (name, occ))
        ATOMS.by_key[key] = k
    return new_input(ex, st, name, 'real', Poly.atom(k))


def _int_input(ex, st, a, w, signed):
    name = cstr(ex, st, a[0])
    lo, hi = a[1], a[2]
    occ = st.occ.get(name, 0)
    v = z3.BitVec('%s_%d' % (name, occ), w)
    if isinstance(lo, int) and isinstance(hi, int) and lo == hi:
        return new_input(ex, st, name, 'int', lo)
    l, h = tobv(lo, w), tobv(hi, w)
    new_input(ex, st, name, 'int', v)
    full = isinstance(lo, int) and isinstance(hi, int) and (
        (not signed and lo == 0 and hi == (1 << w) - 1) or (signed and sgn(lo, w) == -(1 << (w - 1)) and sgn(
            hi, w) == (1 << (w - 1)) - 1))
    if not full:
        if signed:
            ex.assume(st, z3.And(l <= v, v <= h))
        else:
            ex.assume(st, z3.And(z3.ULE(l, v), z3.ULE(v, h)))
        r, _ = ex.check_sat(st.pc)
        if r == z3.unsat:
            raise PathEnd()
    return v


@model('vp_u32')
def vp_u32(ex, st, a, n):
    return _int_input(ex, st, a, 32, False)


@model('vp_u64')
def vp_u64(ex, st, a, n):
    return _int_input(ex, st, a, 64, False)


@model('vp_i32')
def vp_i32(ex, st, a, n):
    return _int_input(ex, st, a, 32, True)


@model('vp_bool')
def vp_bool(ex, st, a, n):
    name = cstr(ex, st, a[0])
    v = z3.Bool('%s_%d' % (name, st.occ.get(name, 0)))
    return new_input(ex, st, name, 'bool', v)


@model('vp_assume')
def vp_assume(ex, st, a, n):
    ex.assume(st, a[0])
    if st.pc:
        r, _ = ex.check_sat(st.pc, 5000)
        if r == z3.unsat:
            raise PathEnd()


@model('vp_assume_eq', 'vp_define_eq')
def vp_assume_eq(ex, st, a, n):
    ex.add_rule_eq(st, a[0] - a[1])


@model('vp_check')
def vp_check(ex, st, a, n):
    ex.check(st, a[0], cstr(ex, st, a[1]))


@model('vp_check_eq', 'vp_check_eqf')
def vp_check_eq(ex, st, a, n):
    ex.check_eq(st, a[0], a[1], cstr(ex, st, a[2]))


@model('vp_reach')
def vp_reach(ex, st, a, n):
    l = cstr(ex, st, a[0])
    ex.res.covers[l] = ex.res.covers.get(l, 0) + 1


@model('vp_symbolic')
def vp_symbolic(ex, st, a, n):
    return 1


@model('vp_split32', 'vp_split64')
def vp_split(ex, st, a, n):
    return conc(ex, st, a[0])


@model('vp_uf')
def vp_uf(ex, st, a, n):
    """uninterpreted real function of integer arguments: double vp_uf(name, n, u64...)"""
    name = cstr(ex, st, a[0])
    k = conc(ex, st, a[1])
    args = a[2:2 + k]
    f = z3.Function('uf_' + name, *([z3.BitVecSort(64)] * k + [z3.RealSort()]))
    t = z3.simplify(f(*[tobv(x, 64) for x in args]))
    v = from_z3(t)
    st.ufs.append((name, tuple(args), v))
    return v


@model('vp_ufi')
def vp_ufi(ex, st, a, n):
    """uninterpreted 64-bit integer function: u64 vp_ufi(name, n, u64...)"""
    name = cstr(ex, st, a[0])
    k = conc(ex, st, a[1])
    args = a[2:2 + k]
    f = z3.Function('ufi_' + name, *([z3.BitVecSort(64)] * k + [z3.BitVecSort(64)]))
    t = z3.simplify(f(*[tobv(x, 64) for x in args]))
    st.ufs.append((name, tuple(args), t))
    return t


@model('vp_ufr')
def vp_ufr(ex, st, a, n):
    """uninterpreted real function of real arguments"""
    name = cstr(ex, st, a[0])
    k = conc(ex, st, a[1])
    if any(x is UNDEF for x in a[2:2 + k]):
        ex.check(st, UNDEF, 'the arguments of %s are initialised' % name)
        return UNDEF
    args = [ex.reduce(st, x) for x in a[2:2 + k]]
    f = z3.Function('ufr_' + name, *([z3.RealSort()] * k + [z3.RealSort()]))
    t = z3.simplify(f(*[x.z() for x in args]))
    v = from_z3(t)
    st.ufs.append((name, tuple(args), v))
    return v


@model('vp_ufv')
def vp_ufv(ex, st, a, n):
    """uninterpreted real function of a list of reals: double vp_ufv(name, n, const double*)"""
    name = cstr(ex, st, a[0])
    k = conc(ex, st, a[1])
    args = [ex.load(st, ('f', 64), ex.padd(a[2], 8 * i)) for i in range(k)]
    if any(x is UNDEF for x in args):
        ex.check(st, UNDEF, 'the arguments of %s are initialised' % name)
        return UNDEF
    args = [ex.reduce(st, x) for x in args]
    f = z3.Function('ufv_%s_%d' % (name, k), *([z3.RealSort()] * k + [z3.RealSort()]))
    t = z3.simplify(f(*[x.z() for x in args]))
    v = from_z3(t)
    st.ufs.append((name, tuple(args), v))
    return v


def _vp_array(ex, st, a, ety, tag):
    name = cstr(ex, st, a[0])
    occ = st.occ.get('arr:' + name, 0)
    st.occ['arr:' + name] = occ + 1
    n = a[1]
    sort = z3.RealSort() if ety[0] == 'f' else z3.BitVecSort(ety[1])
    arr = z3.Array('arr_%s_%d' % (name, occ), z3.BitVecSort(64), sort)
    p = ex.new_array(st, n if isinstance(n, int) else tobv(n, 64), ety, arr, name)
    st.inputs.append((name, occ, 'array', (arr, n)))
    return p


@model('vp_array_d')
def vp_array_d(ex, st, a, n):
    return _vp_array(ex, st, a, ('f', 64), 'd')


@model('vp_array_u32')
def vp_array_u32(ex, st, a, n):
    return _vp_array(ex, st, a, ('i', 32), 'u32')


@model('vp_array_u64')
def vp_array_u64(ex, st, a, n):
    return _vp_array(ex, st, a, ('i', 64), 'u64')


@model('vp_array_zero')
def vp_array_zero(ex, st, a, n):
    arr = z3.K(z3.BitVecSort(64), z3.RealVal(0))
    return ex.new_array(st, a[0] if isinstance(a[0], int) else tobv(a[0], 64), ('f', 64), arr, 'vector')


@model('vp_ratio')
def vp_ratio(ex, st, a, n):
    return Poly.const(num(Fraction(int(a[0]), int(a[1]))))


@model('vp_ite')
def vp_ite(ex, st, a, n):
    c = tobool(a[0])
    if isinstance(c, bool):
        return a[1] if c else a[2]
    c = z3.simplify(c)
    if z3.is_true(c) or z3.is_false(c):
        return a[1] if z3.is_true(c) else a[2]
    return from_z3(z3.If(c, ex.reduce(st, a[1]).z(), ex.reduce(st, a[2]).z()))


@model('vp_array_zero32')
def vp_array_zero32(ex, st, a, n):
    arr = z3.K(z3.BitVecSort(64), z3.BitVecVal(0, 32))
    return ex.new_array(st, a[0] if isinstance(a[0], int) else tobv(a[0], 64), ('i', 32), arr, 'vector of indices')


@model('vp_array_fill')
def vp_array_fill(ex, st, a, n):
    o, off = ex.obj_of(st, a[0], 'fill')
    o = ex.wobj(st, o)
    o.arr = z3.K(z3.BitVecSort(64), ex.reduce(st, a[2]).z())
    return None


@model('vp_array_copy')
def vp_array_copy(ex, st, a, n):
    if a[0] == 0:
        return 0
    o, off = ex.obj_of(st, a[0], 'copy')
    return ex.new_array(st, o.size, o.ety, o.arr, 'vector')


@model('vp_invariant')
def vp_invariant(ex, st, a, n):
    st.ghost['loopinv'] = list(st.ghost.get('loopinv', [])) + [(cstr(ex, st, a[0]), a[1], a[2])]


@model('vp_invariant_end')
def vp_invariant_end(ex, st, a, n):
    if st.ghost.get('loopinv'):
        raise Unsupported('loop %s was not met' % st.ghost['loopinv'][0][0])


@model('vp_alternative')
def vp_alternative(ex, st, a, n):
    ex.alternatives = max(ex.alternatives, a[0])
    return min(ex.opts.get('alternative', 0), a[0] - 1)


@model('vp_loop_scalar')
def vp_loop_scalar(ex, st, a, n):
    import looprule
    return looprule.loop_scalar(ex, st, a[0])


@model('vp_loop_real')
def vp_loop_real(ex, st, a, n):
    import looprule
    return looprule.loop_real(ex, st, a[0], a[1])


@model('vp_inv')
def vp_inv(ex, st, a, n):
    if st.ghost.get('inv_mode') == 'assume':
        return vp_assume(ex, st, a, n)
    ex.check(st, a[0], 'loop invariant: ' + cstr(ex, st, a[1]))


@model('vp_inv_instance_eq')
def vp_inv_instance_eq(ex, st, a, n):
    # a further instance of a universally quantified invariant, whose checked instance is arbitrary
    if st.ghost.get('inv_mode') == 'assume':
        return vp_assume_eq(ex, st, a, n)


@model('vp_inv_eq')
def vp_inv_eq(ex, st, a, n):
    if st.ghost.get('inv_mode') == 'assume':
        return vp_assume_eq(ex, st, a, n)
    ex.check_eq(st, a[0], a[1], 'loop invariant: ' + cstr(ex, st, a[2]))


@model('vp_abort_expected')
def vp_abort_expected(ex, st, a, n):
    c = a[0]
    if isinstance(c, int) and not c:
        st.ghost.pop('abort_exp', None)
    else:
        st.ghost['abort_exp'] = (c, cstr(ex, st, a[1]))


@model('vp_dump')
def vp_dump(ex, st, a, n):
    print('DUMP', cstr(ex, st, a[0]), a[1:])


# ---------------------------------------------------------------- C / C++ runtime
@model('_Znwm', '_Znam', 'malloc')
def op_new(ex, st, a, n):
    sz = conc(ex, st, a[0])
    if sz > (1 << 26):
        raise Unsupported('allocation of %d bytes' % sz)
    return ex.alloc(st, sz, 'heap', 'heap')


@model('_ZnwmSt11align_val_t', '_ZnamSt11align_val_t')
def op_new_al(ex, st, a, n):
    return op_new(ex, st, a, n)


@model('_ZdlPv', '_ZdaPv', '_ZdlPvm', '_ZdaPvm', 'free', '_ZdlPvSt11align_val_t', '_ZdlPvmSt11align_val_t')
def op_delete(ex, st, a, n):
    p = a[0]
    if p == 0:
        return None
    if not isinstance(p, int):
        raise Unsupported('delete %r' % (p,))
    o, off = ex.obj_of(st, p, 'delete')
    if o.kind != 'heap' or off != 0:
        ex.fail_hard(st, 'memory safety: delete of memory that was not allocated by new')
    del st.mem[o.id]
    return None


@pattern(r'^llvm\.memcpy\.|^llvm\.memmove\.|^memcpy$|^memmove$')
def m_memcpy(ex, st, a, n):
    ex.memcpy(st, a[0], a[1], a[2])
    return a[0]


@pattern(r'^llvm\.memset\.|^memset$')
def m_memset(ex, st, a, n):
    ex.memset(st, a[0], a[1], a[2])
    return a[0]


@model('strlen')
def m_strlen(ex, st, a, n):
    return len(cstr(ex, st, a[0]))


@model('memcmp', 'bcmp')
def m_memcmp(ex, st, a, n):
    k = conc(ex, st, a[2])
    for i in range(k):
        x = ex.load(st, ('i', 8), ex.padd(a[0], i))
        y = ex.load(st, ('i', 8), ex.padd(a[1], i))
        if not ex.decide(st, ex.icmp('eq', x, y, 8)):
            return 1 if ex.decide(st, ex.icmp('ugt', x, y, 8)) else 0xffffffff
    return 0


@model('memchr')
def m_memchr(ex, st, a, n):
    k = conc(ex, st, a[2])
    for i in range(k):
        x = ex.load(st, ('i', 8), ex.padd(a[0], i))
        if ex.decide(st, ex.icmp('eq', x, a[1] & 255, 8)):
            return ex.padd(a[0], i)
    return 0


@pattern(r'^llvm\.(assume|prefetch|donothing|var\.annotation|stacksave|stackrestore|experimental\.noalias)')
def m_nop(ex, st, a, n):
    return None


@pattern(r'^llvm\.expect')
def m_expect(ex, st, a, n):
    return a[0]


@pattern(r'^llvm\.is\.constant')
def m_isconst(ex, st, a, n):
    return 0


@pattern(r'^llvm\.objectsize')
def m_objsize(ex, st, a, n):
    return (1 << 64) - 1


@pattern(r'^llvm\.(trap|ubsantrap)')
def m_trap(ex, st, a, n):
    ex.fail_hard(st, 'no trap')


@pattern(r'^llvm\.(umul|uadd|usub|smul|sadd|ssub)\.with\.overflow\.i(\d+)')
def m_ovf(ex, st, a, n):
    m = re.match(r'^llvm\.([us])(mul|add|sub)\.with\.overflow\.i(\d+)', n)
    w = int(m.group(3))
    op = m.group(2)
    r = ex.binop(op, a[0], a[1], w)
    if isinstance(a[0], int) and isinstance(a[1], int):
        x, y = a
        if m.group(1) == 's':
            x, y = sgn(x, w), sgn(y, w)
            e = {'mul': x * y, 'add': x + y, 'sub': x - y}[op]
            return (r, int(not (-(1 << (w - 1)) <= e < (1 << (w - 1)))))
        e = {'mul': x * y, 'add': x + y, 'sub': x - y}[op]
        return (r, int(not (0 <= e < (1 << w))))
    x, y = tobv(a[0], w), tobv(a[1], w)
    if m.group(1) == 'u':
        f = {'mul': z3.Not(z3.BVMulNoOverflow(x, y, False)), 'add': z3.Not(z3.BVAddNoOverflow(x, y, False)),
             'sub': z3.ULT(x, y)}[op]
    else:
        raise Unsupported('signed overflow intrinsic')
    return (r, z3.simplify(f))


@pattern(r'^llvm\.(umax|umin|smax|smin)\.i(\d+)')
def m_minmax(ex, st, a, n):
    m = re.match(r'^llvm\.([us])(max|min)\.i(\d+)', n)
    w = int(m.group(3))
    c = ex.icmp(m.group(1) + ('gt' if m.group(2) == 'max' else 'lt'), a[0], a[1], w)
    return ex.select(st, c, a[0], a[1], ('i', w))


@pattern(r'^llvm\.(ctlz|cttz|ctpop|bswap)\.i(\d+)')
def m_bits(ex, st, a, n):
    m = re.match(r'^llvm\.(ctlz|cttz|ctpop|bswap)\.i(\d+)', n)
    w = int(m.group(2))
    v = conc(ex, st, a[0])
    if m.group(1) == 'ctlz':
        return w - v.bit_length()
    if m.group(1) == 'cttz':
        return w if v == 0 else (v & -v).bit_length() - 1
    if m.group(1) == 'ctpop':
        return bin(v).count('1')
    return int.from_bytes(v.to_bytes(w // 8, 'little'), 'big')


@pattern(r'^llvm\.abs\.i(\d+)')
def m_iabs(ex, st, a, n):
    w = int(re.match(r'^llvm\.abs\.i(\d+)', n).group(1))
    c = ex.icmp('slt', a[0], 0, w)
    return ex.select(st, c, ex.binop('sub', 0, a[0], w), a[0], ('i', w))


def fabs(ex, st, x):
    if x is UNDEF:
        return x
    if isinstance(x, Special):
        return INF if x is not NAN else NAN
    x = ex.reduce(st, x)
    if x.is_const():
        return Poly.const(abs(x.cval()))
    # canonical sign so that |x| and |-x| are the same term
    lead = max(x.d)
    if x.d[lead] < 0:
        x = x.neg()
    z = x.z()
    return from_z3(z3.If(z >= 0, z, -z))


@pattern(r'^llvm\.fabs\.|^fabs$|^fabsf$')
def m_fabs(ex, st, a, n):
    return fabs(ex, st, a[0])


@pattern(r'^llvm\.(maxnum|minnum|maximum|minimum)\.|^fmax$|^fmin$')
def m_fmax(ex, st, a, n):
    mx = 'max' in n
    c = ex.fcmp(st, 'ogt' if mx else 'olt', a[0], a[1])
    return ex.select(st, c, a[0], a[1], ('f', 64))


@pattern(r'^llvm\.fmuladd\.|^llvm\.fma\.|^fma$')
def m_fma(ex, st, a, n):
    return ex.fbin(st, 'fadd', ex.fbin(st, 'fmul', a[0], a[1]), a[2])


def sqrt_of(ex, st, x):
    if x is UNDEF:
        return x
    if isinstance(x, Special):
        return x if x is INF else NAN
    x = ex.reduce(st, x)
    if x.is_const():
        c = Fraction(x.cval())
        if c < 0:
            return NAN
        from math import isqrt
        p, q = isqrt(c.numerator), isqrt(c.denominator)
        if p * p == c.numerator and q * q == c.denominator:
            return Poly.const(num(Fraction(p, q)))
    key = ('sqrt', x.key())
    k = ATOMS.by_key.get(key)
    if k is None:
        k = ATOMS.fresh('sqrt')
        ATOMS.by_key[key] = k
    g = st.ghost.setdefault('sqrt', {})
    s = Poly.atom(k)
    if k not in g:
        g[k] = True
        z = s.z()
        st.facts.append(z3.Implies(x.z() >= 0, z3.And(z >= 0, z * z == x.z())))
        r, _ = ex.check_sat(st.pc + [x.z() < 0], 3000)
        if r != z3.unsat and st.facts:
            r, _ = ex.check_sat(st.pc + st.facts + [x.z() < 0], 3000)
        if r == z3.unsat:
            ex.add_rule_eq(st, s * s - x, (k, k))
            st.facts.append(z >= 0)
    return s


@pattern(r'^llvm\.sqrt\.|^sqrt$|^sqrtf$')
def m_sqrt(ex, st, a, n):
    return sqrt_of(ex, st, a[0])


@pattern(r'^llvm\.pow\.|^pow$|^powf$|^llvm\.powi\.')
def m_pow(ex, st, a, n):
    x, p = a
    if x is UNDEF or p is UNDEF:
        return UNDEF
    if isinstance(p, int):
        p = Poly.const(sgn(p, 32))
    if isinstance(x, Special) or isinstance(p, Special):
        raise Unsupported('pow of non-finite')
    x = ex.reduce(st, x)
    p = ex.reduce(st, p)
    if p.is_const():
        e = Fraction(p.cval())
        if e.denominator == 1 and 0 <= e <= 16:
            r = ONE
            for _ in range(int(e)):
                r = r * x
            return r
        if e == Fraction(1, 2):
            return sqrt_of(ex, st, x)
        if e.denominator == 1 and -16 <= e < 0 and x.is_const() and x.cval() != 0:
            return Poly.const(num(Fraction(x.cval()) ** int(e)))
    f = z3.Function('pow', z3.RealSort(), z3.RealSort(), z3.RealSort())
    return from_z3(f(x.z(), p.z()))


@pattern(r'^llvm\.(exp|log|sin|cos|floor|ceil|exp2|log2|log10|round|trunc|rint|nearbyint)\.|'
         r'^(exp|log|sin|cos|tan|atan|acos|asin|tanh|sinh|cosh|log10|floor|ceil|round)f?$')
def m_trans(ex, st, a, n):
    m = re.match(r'^(?:llvm\.)?(\w+)', n)
    nm = m.group(1)
    x = a[0]
    if x is UNDEF:
        return x
    if isinstance(x, Special):
        raise Unsupported('%s of non-finite' % nm)
    x = ex.reduce(st, x)
    if nm in ('floor', 'ceil', 'round', 'trunc', 'rint', 'nearbyint', 'floorf', 'ceilf', 'roundf'):
        import math
        if x.is_const():
            c = Fraction(x.cval())
            b = nm.rstrip('f') if nm.endswith('f') and nm != 'f' else nm
            if b == 'floor':
                return Poly.const(math.floor(c))
            if b == 'ceil':
                return Poly.const(math.ceil(c))
            if b == 'trunc':
                return Poly.const(int(c))
            if b == 'round':
                return Poly.const(int(abs(c) + Fraction(1, 2)) * (1 if c >= 0 else -1))
        if nm.startswith('floor'):
            return from_z3(z3.ToReal(z3.ToInt(x.z())))
        if nm.startswith('ceil'):
            return from_z3(-z3.ToReal(z3.ToInt(-x.z())))
    f = z3.Function('fn_' + nm.rstrip('f') if nm.endswith('f') else 'fn_' + nm, z3.RealSort(), z3.RealSort())
    return from_z3(f(x.z()))


@pattern(r'^llvm\.is\.fpclass\.')
def m_fpclass(ex, st, a, n):
    x = a[0]
    mask = a[1]
    if x is NAN:
        return int(bool(mask & 3))
    if x is INF:
        return int(bool(mask & 512))
    if x is NINF:
        return int(bool(mask & 4))
    # finite: classes -normal(8) -subnormal(16) -0(32) +0(64) +sub(128) +normal(256)
    if mask & 0x1f8 == 0x1f8:
        return 1
    if mask & 0x1f8 == 0:
        return 0
    raise Unsupported('fpclass')


@pattern(r'^llvm\.copysign\.')
def m_copysign(ex, st, a, n):
    v = fabs(ex, st, a[0])
    c = ex.fcmp(st, 'olt', a[1], ZERO)
    return ex.select(st, c, v.neg(), v, ('f', 64))


# ---- process end
@model('abort', '_ZSt9terminatev', '__cxa_pure_virtual', '__assert_fail', '__clang_call_terminate')
def m_abort(ex, st, a, n):
    e = st.ghost.get('abort_exp')
    if e is not None and n in ('abort', '__assert_fail'):
        ex.check(st, e[0], e[1])
        ex.res.covers['aborted'] = ex.res.covers.get('aborted', 0) + 1
        ex.res.completed += 1
        raise PathEnd()
    ex.fail_hard(st, {'abort': 'no assertion fires / no abort',
                      '__assert_fail': 'no assertion fires / no abort'}.get(n, 'no call to ' + n))


@model('exit', '_exit', 'quick_exit')
def m_exit(ex, st, a, n):
    ex.fail_hard(st, 'program is not terminated by exit()')


@model('__cxa_atexit')
def m_atexit(ex, st, a, n):
    return 0


@model('__cxa_guard_acquire')
def m_guard(ex, st, a, n):
    v = ex.load(st, ('i', 8), a[0])
    return 1 if v == 0 else 0


@model('__cxa_guard_release')
def m_guard_r(ex, st, a, n):
    ex.store(st, ('i', 8), 1, a[0])


@model('__cxa_guard_abort')
def m_guard_a(ex, st, a, n):
    return None


# ---- exceptions
@model('__cxa_allocate_exception')
def m_alloc_exc(ex, st, a, n):
    return ex.alloc(st, conc(ex, st, a[0]), 'heap', 'exception')


@model('__cxa_free_exception')
def m_free_exc(ex, st, a, n):
    return None


@model('__cxa_throw')
@throws
def m_throw(ex, st, a, n, inv):
    tname = None
    for g, ad in ex.gaddr.items():
        if ad == a[1]:
            tname = g
    if tname is None:
        raise Unsupported('thrown type')
    do_throw(ex, st, a[0], tname, inv)
    return THROWN


def do_throw(ex, st, addr, tname, inv):
    st.exinfo[addr] = tname
    st.ghost['last_throw'] = tname
    ex.unwind(st, addr, tname, inv)


STD_THROW = {'_ZSt19__throw_logic_errorPKc': '_ZTISt11logic_error',
             '_ZSt20__throw_length_errorPKc': '_ZTISt12length_error',
             '_ZSt20__throw_out_of_rangePKc': '_ZTISt12out_of_range',
             '_ZSt24__throw_out_of_range_fmtPKcz': '_ZTISt12out_of_range',
             '_ZSt24__throw_invalid_argumentPKc': '_ZTISt16invalid_argument',
             '_ZSt17__throw_bad_allocv': '_ZTISt9bad_alloc',
             '_ZSt28__throw_bad_array_new_lengthv': '_ZTISt20bad_array_new_length',
             '_ZSt16__throw_bad_castv': '_ZTISt8bad_cast',
             '_ZSt25__throw_bad_function_callv': '_ZTISt17bad_function_call'}


@throws
def m_std_throw(ex, st, a, n, inv):
    addr = ex.alloc(st, 16, 'heap', 'exception')
    do_throw(ex, st, addr, STD_THROW[n], inv)
    return THROWN


for _n in STD_THROW:
    EXACT[_n] = m_std_throw


@model('__cxa_begin_catch')
def m_begin(ex, st, a, n):
    g = st.ghost.setdefault('caught', [])
    g.append(a[0])
    return a[0]


@model('__cxa_end_catch')
def m_end(ex, st, a, n):
    g = st.ghost.get('caught')
    if g:
        g.pop()


@model('__cxa_rethrow')
@throws
def m_rethrow(ex, st, a, n, inv):
    g = st.ghost.get('caught')
    addr = g[-1]
    ex.unwind(st, addr, st.exinfo[addr], inv)
    return THROWN


@pattern(r'^llvm\.eh\.typeid\.for')
def m_typeid(ex, st, a, n):
    for g, ad in ex.gaddr.items():
        if ad == a[0]:
            return ex.typeid(g)
    raise Unsupported('typeid')


@pattern(r'^_ZNSt(9exception|12length_error|11logic_error|13runtime_error)D[012]Ev$')
def m_exc_dtor(ex, st, a, n):
    return None


# ---- iostreams: text written for diagnostics is dropped; formatted output is recorded per stream
@pattern(r'^_ZNSt8ios_base4InitC1Ev|^_ZNSt8ios_base4InitD1Ev')
def m_iosinit(ex, st, a, n):
    return None


@pattern(r'^_ZNSt7__cxx1118basic_stringstreamIcSt11char_traitsIcESaIcEE(C[12]|D[12])')
def m_sstream(ex, st, a, n):
    return None


@pattern(r'^_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_E|^_ZNSols|^_ZNSo9_M_insert|^_ZNSo3put|'
         r'^_ZNSo5flush|^_ZSt4endl|^_ZSt5flush|^_ZSt16__ostream_insert|^_ZStlsIcSt11char_traitsIcE|'
         r'^_ZNSo5write')
def m_ostream(ex, st, a, n):
    return a[0]


@pattern(r'^_ZNKSt7__cxx1118basic_stringstreamIcSt11char_traitsIcESaIcEE3strEv|'
         r'^_ZNKRSt7__cxx1118basic_stringstreamIcSt11char_traitsIcESaIcEE3strEv')
def m_sstr(ex, st, a, n):
    # empty string
    p = a[0]
    ex.store(st, ('ptr',), p + 16, p)
    ex.store(st, ('i', 64), 0, p + 8)
    ex.store(st, ('i', 8), 0, p + 16)
    return None


# ---------------------------------------------------------------- LAPACK (assumed contracts)
def read_vec(ex, st, addr, n, ty):
    es = ex.mod.sizeof(ty)
    return [ex.load(st, ty, ex.padd(addr, es * i)) for i in range(n)]


@model('vp_assume_regular')
def vp_assume_regular(ex, st, a, n):
    st.ghost['regular'] = True


@model('dgesv_', 'sgesv_')
def m_gesv(ex, st, a, n):
    """A X = B.  info = 0: X solves the system; info > 0: A is singular, B unspecified.
    A is overwritten by unspecified values."""
    ty = ('f', 64) if n[0] == 'd' else ('f', 32)
    es = ty[1] // 8
    I = ('i', 32)
    N = conc(ex, st, ex.load(st, I, a[0]))
    R = conc(ex, st, ex.load(st, I, a[1]))
    lda = conc(ex, st, ex.load(st, I, a[3]))
    ldb = conc(ex, st, ex.load(st, I, a[6]))
    ex.check(st, int(lda >= max(1, N) and ldb >= max(1, N) and N < 1 << 20),
             'LAPACK gesv: leading dimensions are at least the system size')
    A = [[ex.load(st, ty, ex.padd(a[2], es * (j * lda + i))) for j in range(N)] for i in range(N)]
    B = [[ex.load(st, ty, ex.padd(a[5], es * (j * ldb + i))) for j in range(R)] for i in range(N)]
    for row in A + B:
        for x in row:
            if x is UNDEF:
                ex.check(st, UNDEF, 'LAPACK gesv: inputs are initialised')
                raise PathEnd()
    for i in range(N):
        ex.load(st, I, ex.padd(a[4], 4 * i)) if False else ex.store(st, I, UNDEF, ex.padd(a[4], 4 * i))
    if st.ghost.get('regular'):
        # the contract restricts itself to regular systems: the solution is a function of the data
        ex.store(st, I, 0, a[7])
        ak = tuple(ex.reduce(st, x).key() for row in A for x in row)
        for j in range(R):
            bk = tuple(ex.reduce(st, B[i][j]).key() for i in range(N))
            X = st.ghost.get(('gesv', ak, bk))
            if X is None:
                X = tuple(Poly.atom(ATOMS.fresh('x')) for i in range(N))
                st.ghost[('gesv', ak, bk)] = X
                for i in range(N):
                    s = ZERO
                    for k in range(N):
                        s = s + A[i][k] * X[k]
                    ex.add_hyp(st, B[i][j] - s)
            for i in range(N):
                ex.store(st, ty, X[i], ex.padd(a[5], es * (j * ldb + i)))
        for j in range(N):
            for i in range(N):
                ex.store(st, ty, Poly.atom(ATOMS.fresh('lu')), ex.padd(a[2], es * (j * lda + i)))
        return
    occ = st.occ.get('__gesv', 0)
    info = z3.BitVec('gesv_info_%d' % occ, 32)
    sing = ex.decide(st, info != 0)
    st.occ['__gesv'] = occ + 1
    if sing:
        ex.assume(st, z3.And(info > 0, info <= N))
        if N <= 3:
            st.facts.append(det(A).z() == 0)
        ex.store(st, I, info, a[7])
        for j in range(R):
            for i in range(N):
                ex.store(st, ty, Poly.atom(ATOMS.fresh('gesv_b')), ex.padd(a[5], es * (j * ldb + i)))
        st.ghost['gesv_singular'] = True
    else:
        ex.store(st, I, 0, a[7])
        if N <= 3:
            st.facts.append(det(A).z() != 0)
        for j in range(R):
            X = [Poly.atom(ATOMS.fresh('x')) for i in range(N)]
            for i in range(N):
                s = ZERO
                for k in range(N):
                    s = s + A[i][k] * X[k]
                eq = B[i][j] - s
                k = B[i][j].single_atom()
                lead = (k,) if k is not None and k not in s.atoms() and eq.d.get((k,)) else None
                ex.add_rule_eq(st, eq, lead)
                ex.store(st, ty, X[i], ex.padd(a[5], es * (j * ldb + i)))
    for j in range(N):
        for i in range(N):
            ex.store(st, ty, Poly.atom(ATOMS.fresh('lu')), ex.padd(a[2], es * (j * lda + i)))


def det(A):
    n = len(A)
    if n == 1:
        return A[0][0]
    r = ZERO
    for j in range(n):
        m = [row[:j] + row[j + 1:] for row in A[1:]]
        t = A[0][j] * det(m)
        r = r + t if j % 2 == 0 else r - t
    return r


@model('dgeqr2_', 'sgeqr2_')
def m_geqr2(ex, st, a, n):
    """A = H_1 ... H_k R with H_i = I - tau_i v_i v_i^T, v_i(j)=0 for j<i, v_i(i)=1, and H_i orthogonal;
    R in the upper triangle, v_i below the diagonal.  tau_i = 0 iff H_i = I, and the last reflector of
    a matrix with at most as many rows as columns is the identity."""
    ty = ('f', 64) if n[0] == 'd' else ('f', 32)
    es = ty[1] // 8
    I = ('i', 32)
    M = conc(ex, st, ex.load(st, I, a[0]))
    N = conc(ex, st, ex.load(st, I, a[1]))
    lda = conc(ex, st, ex.load(st, I, a[3]))
    ex.check(st, int(lda >= max(1, M)), 'LAPACK geqr2: leading dimension is at least the number of rows')
    k = min(M, N)
    A = [[ex.load(st, ty, ex.padd(a[2], es * (j * lda + i))) for j in range(N)] for i in range(M)]
    for row in A:
        for x in row:
            if x is UNDEF:
                ex.check(st, UNDEF, 'LAPACK geqr2: inputs are initialised')
                raise PathEnd()
    # decide first which reflectors are the identity (LAPACK's dlarfg returns tau = 0 then)
    occ = st.occ.get('__geqr2', 0)
    flags = []
    for i in range(k):
        if i == M - 1:
            flags.append(False)
            continue
        b = z3.Bool('geqr2_refl_%d_%d' % (occ, i))
        flags.append(ex.decide(st, b))
    st.occ['__geqr2'] = occ + 1
    H = []
    taus = []
    V = []
    for i in range(k):
        v = [ZERO] * i + [ONE]
        if flags[i]:
            tk = ATOMS.fresh('tau')
            tau = Poly.atom(tk)
            at = [ATOMS.fresh('v') for _ in range(i + 1, M)]
            v = v + [Poly.atom(x) for x in at]
            nn = ZERO
            for x in v:
                nn = nn + x * x
            # tau != 0 and H orthogonal:  tau * |v|^2 = 2
            ex.add_rule_eq(st, tau * nn - Poly.const(2), tuple(sorted((tk, at[-1], at[-1]))))
            st.facts.append(tau.z() != 0)
        else:
            v = v + [ZERO] * (M - i - 1)
            tau = ZERO
        V.append(v)
        taus.append(tau)
    R = [[ZERO] * N for _ in range(M)]
    for j in range(N):
        for i in range(M):
            if i <= j:
                R[i][j] = Poly.atom(ATOMS.fresh('r'))
    P = [row[:] for row in R]
    for i in reversed(range(k)):
        v, tau = V[i], taus[i]
        if not tau.d:
            continue
        for j in range(N):
            s = ZERO
            for l in range(M):
                s = s + v[l] * P[l][j]
            s = s * tau
            for l in range(M):
                P[l][j] = P[l][j] - v[l] * s
    for i in range(M):
        for j in range(N):
            ka = A[i][j].single_atom()
            eq = A[i][j] - P[i][j]
            lead = (ka,) if ka is not None and ka not in P[i][j].atoms() else None
            ex.add_rule_eq(st, eq, lead)
    for i in range(k):
        ex.store(st, ty, taus[i], ex.padd(a[4], es * i))
    for j in range(N):
        for i in range(M):
            v = R[i][j] if i <= j else V[j][i]
            ex.store(st, ty, v, ex.padd(a[2], es * (j * lda + i)))
        ex.store(st, ty, UNDEF, ex.padd(a[5], es * j))
    ex.store(st, I, 0, a[6])
