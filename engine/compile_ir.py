"""Turns parsed IR instructions into Python closures f(ex, st, fr) -> truthy when the frame changed."""
import re
import z3
from operator import itemgetter
from irparse import (Stream, tokenize, unq, Const, Reg, UNDEF, IRError, skip_pre_attrs, skip_attr_arg,
                     skip_param_attrs, SIMPLE_ATTRS, PARAM_ATTR_ARGS)
from symexec import (Unsupported, PathEnd, SymPtr, SEG, BIAS, Poly, ZERO, sgn, tobv, tobool, Special, INF, NINF,
                     NAN)


class CF:
    __slots__ = ('entry', 'code', 'phis', 'locs', 'lpads', 'succ', 'loops', 'info')


FLAGS = {'nuw', 'nsw', 'exact', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc',
         'disjoint', 'nneg', 'inbounds', 'volatile', 'nusw', 'tail', 'musttail', 'notail', 'samesign'}
BIN = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor'}
FBIN = {'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
CASTS = {'trunc', 'zext', 'sext', 'fptrunc', 'fpext', 'fptoui', 'fptosi', 'uitofp', 'sitofp', 'ptrtoint',
         'inttoptr', 'bitcast', 'addrspacecast'}


def getter(ex, v):
    if isinstance(v, Reg):
        return itemgetter(v.name)
    c = ex.cval(v)
    return lambda R: c


def strip_md(s):
    """drop trailing ', !dbg !12, !tbaa ...' metadata; return (text, dbg ref)"""
    m = re.search(r', !dbg (![0-9]+)', s)
    loc = m.group(1) if m else None
    s = re.sub(r',? ![a-zA-Z._]+ ![0-9]+', '', s)
    s = re.sub(r',? ![a-zA-Z._]+ !\{[^}]*\}', '', s)
    return s, loc


def compile_function(ex, fn):
    cf = CF()
    cf.entry = fn.entry
    cf.code = {}
    cf.phis = {}
    cf.locs = {}
    cf.lpads = {}
    cf.succ = {}
    cf.loops = None
    cf.info = {}
    for lab in fn.order:
        code = []
        locs = []
        phis = []
        for s in fn.blocks[lab]:
            s, loc = strip_md(s)
            st = Stream(tokenize(s))
            dst = None
            if st.peek(1) == '=' and st.peek()[0] == '%':
                dst = unq(st.next())
                st.next()
            op = st.next()
            while op in FLAGS:
                op = st.next()
            if op == 'phi':
                while st.peek() in FLAGS:
                    st.next()
                ty = ex.mod.parse_type(st)
                g = {}
                while st.accept('['):
                    v = ex.mod.parse_value(st, ty)
                    st.expect(',')
                    b = unq(st.next())
                    st.expect(']')
                    st.accept(',')
                    g[b] = getter(ex, v)
                phis.append((dst, g))
                continue
            if op == 'landingpad':
                parse_lpad(ex, cf, lab, st)
                code.append(mk_lpad(dst))
                locs.append(loc)
                continue
            f = compile_ins(ex, fn, cf, lab, op, dst, st)
            if f is not None:
                code.append(f)
                locs.append(loc)
        cf.code[lab] = code
        cf.phis[lab] = phis
        cf.locs[lab] = locs
    return cf


def parse_lpad(ex, cf, lab, st):
    ex.mod.parse_type(st)
    cleanup = False
    clauses = []
    while not st.eof():
        t = st.next()
        if t == 'cleanup':
            cleanup = True
        elif t == 'catch':
            ty = ex.mod.parse_type(st)
            v = st.next()
            if v == 'null':
                clauses.append(('catch', None))
            else:
                clauses.append(('catch', unq(v)))
        elif t == 'filter':
            ty = ex.mod.parse_type(st)
            v = ex.mod.parse_value(st, ty)
            clauses.append(('filter', v))
        else:
            raise IRError('landingpad ' + t)
    cf.lpads[lab] = (cleanup, clauses)


def mk_lpad(dst):
    def f(ex, st, fr):
        fr.regs[dst] = fr.regs['__exc']
    return f


def compile_ins(ex, fn, cf, lab, op, dst, s):
    mod = ex.mod
    if op in BIN:
        while s.peek() in FLAGS:
            s.next()
        ty = mod.parse_type(s)
        a = getter(ex, mod.parse_value(s, ty))
        s.expect(',')
        b = getter(ex, mod.parse_value(s, ty))
        if ty[0] == 'vec':
            w = ty[2][1]

            def f(ex, st, fr):
                R = fr.regs
                R[dst] = tuple(ex.binop(op, x, y, w) for x, y in zip(a(R), b(R)))
            return f
        w = ty[1]
        M = (1 << w) - 1
        if op == 'add':
            def f(ex, st, fr):
                R = fr.regs
                x = a(R)
                y = b(R)
                if type(x) is int and type(y) is int:
                    R[dst] = (x + y) & M
                else:
                    R[dst] = ex.binop(op, x, y, w)
            return f

        def f(ex, st, fr):
            R = fr.regs
            R[dst] = ex.binop(op, a(R), b(R), w)
        return f
    if op in FBIN:
        while s.peek() in FLAGS:
            s.next()
        ty = mod.parse_type(s)
        a = getter(ex, mod.parse_value(s, ty))
        s.expect(',')
        b = getter(ex, mod.parse_value(s, ty))
        if ty[0] == 'vec':
            def f(ex, st, fr):
                R = fr.regs
                R[dst] = tuple(ex.fbin(st, op, x, y) for x, y in zip(a(R), b(R)))
            return f

        def f(ex, st, fr):
            R = fr.regs
            R[dst] = ex.fbin(st, op, a(R), b(R))
        return f
    if op == 'fneg':
        while s.peek() in FLAGS:
            s.next()
        ty = mod.parse_type(s)
        a = getter(ex, mod.parse_value(s, ty))

        def neg1(x):
            if x is UNDEF:
                return x
            if isinstance(x, Special):
                return {INF: NINF, NINF: INF}.get(x, x)
            return x.neg()

        def f(ex, st, fr):
            R = fr.regs
            x = a(R)
            R[dst] = tuple(neg1(y) for y in x) if isinstance(x, tuple) else neg1(x)
        return f
    if op == 'icmp' or op == 'fcmp':
        while s.peek() in FLAGS:
            s.next()
        pred = s.next()
        ty = mod.parse_type(s)
        a = getter(ex, mod.parse_value(s, ty))
        s.expect(',')
        b = getter(ex, mod.parse_value(s, ty))
        if op == 'icmp':
            if ty[0] == 'vec':
                raise Unsupported('vector icmp')
            w = ty[1] if ty[0] == 'i' else 64

            def f(ex, st, fr):
                R = fr.regs
                R[dst] = ex.icmp(pred, a(R), b(R), w)
        else:
            if ty[0] == 'vec':
                raise Unsupported('vector fcmp')

            def f(ex, st, fr):
                R = fr.regs
                R[dst] = ex.fcmp(st, pred, a(R), b(R))
        return f
    if op in CASTS:
        while s.peek() in FLAGS:
            s.next()
        fty = mod.parse_type(s)
        a = getter(ex, mod.parse_value(s, fty))
        s.expect('to')
        tty = mod.parse_type(s)
        if fty[0] == 'vec' and tty[0] == 'vec' and op != 'bitcast':
            def f(ex, st, fr):
                R = fr.regs
                R[dst] = tuple(ex.cast(op, x, fty[2], tty[2]) for x in a(R))
            return f

        def f(ex, st, fr):
            R = fr.regs
            R[dst] = ex.cast(op, a(R), fty, tty)
        return f
    if op == 'load':
        while s.peek() in FLAGS or s.peek() == 'atomic':
            s.next()
        ty = mod.parse_type(s)
        s.expect(',')
        pt = mod.parse_type(s)
        a = getter(ex, mod.parse_value(s, pt))

        def f(ex, st, fr):
            R = fr.regs
            R[dst] = ex.load(st, ty, a(R))
        return f
    if op == 'store':
        while s.peek() in FLAGS or s.peek() == 'atomic':
            s.next()
        ty = mod.parse_type(s)
        v = getter(ex, mod.parse_value(s, ty))
        s.expect(',')
        pt = mod.parse_type(s)
        a = getter(ex, mod.parse_value(s, pt))

        def f(ex, st, fr):
            R = fr.regs
            ex.store(st, ty, v(R), a(R))
        return f
    if op == 'alloca':
        if s.peek() == 'inalloca':
            s.next()
        ty = mod.parse_type(s)
        size = mod.sizeof(ty)
        cnt = None
        if s.accept(',') and s.peek() != 'align':
            nty = mod.parse_type(s)
            cnt = getter(ex, mod.parse_value(s, nty))
        name = dst

        def f(ex, st, fr):
            n = size
            if cnt is not None:
                c = cnt(fr.regs)
                if not isinstance(c, int):
                    c = ex.concretize(st, c)
                n = size * c
            p = ex.alloc(st, n, 'stack', name)
            fr.allocas.append(p >> SEG)
            fr.regs[dst] = p
        return f
    if op == 'getelementptr':
        while s.peek() in FLAGS:
            s.next()
        bt = mod.parse_type(s)
        s.expect(',')
        pt = mod.parse_type(s)
        base = getter(ex, mod.parse_value(s, pt))
        const = 0
        dyn = []
        ty = bt
        j = 0
        while s.accept(','):
            it = mod.parse_type(s)
            v = mod.parse_value(s, it)
            if j == 0:
                sz = mod.sizeof(bt)
            else:
                t = mod.resolve(ty)
                if t[0] == 'struct':
                    o, ty = mod.field_off(t, ex.cval(v))
                    const += o
                    j += 1
                    continue
                ty = t[2]
                sz = mod.sizeof(ty)
            j += 1
            if isinstance(v, Const):
                const += sgn(ex.cval(v), it[1]) * sz
            else:
                dyn.append((itemgetter(v.name), it[1], sz))
        M64 = (1 << 64) - 1
        if not dyn:
            def f(ex, st, fr):
                R = fr.regs
                b = base(R)
                R[dst] = (b + const) & M64 if type(b) is int else gep_slow(ex, b, const)
            return f

        def f(ex, st, fr):
            R = fr.regs
            b = base(R)
            c = const
            terms = None
            for g, w, sz in dyn:
                i = g(R)
                if type(i) is int:
                    c += sgn(i, w) * sz
                elif i is UNDEF:
                    ex.fail_hard(st, 'uninitialised value used as an index')
                else:
                    if w != 64:
                        i = z3.SignExt(64 - w, i)
                    terms = (terms or ()) + ((i, sz),)
            if terms is None:
                R[dst] = (b + c) & M64 if type(b) is int else gep_slow(ex, b, c)
            elif type(b) is int:
                o = st.mem.get(b >> SEG)
                R[dst] = SymPtr(b >> SEG, (b & 0xffffffff) - BIAS + c, terms)
            elif isinstance(b, SymPtr):
                R[dst] = SymPtr(b.oid, b.off + c, b.terms + terms)
            else:
                raise Unsupported('gep base %r' % (b,))
        return f
    if op == 'br':
        if s.peek() == 'label':
            s.next()
            l = unq(s.next())

            def f(ex, st, fr):
                return ex.jump(st, fr, l)
            cf.succ[lab] = [l]
            return f
        ty = mod.parse_type(s)
        c = getter(ex, mod.parse_value(s, ty))
        s.expect(',')
        s.expect('label')
        l1 = unq(s.next())
        s.expect(',')
        s.expect('label')
        l2 = unq(s.next())
        cf.succ[lab] = [l1, l2]

        def f(ex, st, fr):
            v = c(fr.regs)
            if type(v) is not int:
                if v is UNDEF:
                    ex.fail_hard(st, 'uninitialised value decides a branch')
                v = ex.branch(st, fr, v, lab, l1, l2)
                if v is None:
                    return True
            return ex.jump(st, fr, l1 if v else l2)
        return f
    if op == 'switch':
        ty = mod.parse_type(s)
        c = getter(ex, mod.parse_value(s, ty))
        s.expect(',')
        s.expect('label')
        dl = unq(s.next())
        s.expect('[')
        cases = []
        while not s.accept(']'):
            ct = mod.parse_type(s)
            cv = ex.cval(mod.parse_value(s, ct))
            s.expect(',')
            s.expect('label')
            cases.append((cv, unq(s.next())))
        w = ty[1]
        cf.succ[lab] = [dl] + [l for _, l in cases]

        def f(ex, st, fr):
            v = c(fr.regs)
            if v is UNDEF:
                ex.fail_hard(st, 'uninitialised value decides a switch')
            for cv, l in cases:
                if type(v) is int:
                    hit = v == cv
                else:
                    hit = ex.decide(st, v == z3.BitVecVal(cv, w) if not isinstance(v, z3.BoolRef)
                                    else (v if cv else z3.Not(v)))
                if hit:
                    return ex.jump(st, fr, l)
            return ex.jump(st, fr, dl)
        return f
    if op == 'ret':
        ty = mod.parse_type(s)
        if ty[0] == 'void':
            def f(ex, st, fr):
                ex.do_return(st, None)
                return True
            return f
        v = getter(ex, mod.parse_value(s, ty))

        def f(ex, st, fr):
            ex.do_return(st, v(fr.regs))
            return True
        return f
    if op == 'unreachable':
        def f(ex, st, fr):
            ex.fail_hard(st, 'unreachable code is not reached')
        return f
    if op == 'select':
        while s.peek() in FLAGS:
            s.next()
        ct = mod.parse_type(s)
        c = getter(ex, mod.parse_value(s, ct))
        s.expect(',')
        t1 = mod.parse_type(s)
        a = getter(ex, mod.parse_value(s, t1))
        s.expect(',')
        t2 = mod.parse_type(s)
        b = getter(ex, mod.parse_value(s, t2))
        rt = mod.resolve(t1)

        def f(ex, st, fr):
            R = fr.regs
            R[dst] = ex.select(st, c(R), a(R), b(R), rt)
        return f
    if op == 'extractvalue':
        ty = mod.parse_type(s)
        a = getter(ex, mod.parse_value(s, ty))
        idx = []
        while s.accept(','):
            idx.append(int(s.next()))

        def f(ex, st, fr):
            R = fr.regs
            v = a(R)
            for i in idx:
                v = UNDEF if v is UNDEF else v[i]
            R[dst] = v
        return f
    if op == 'insertvalue':
        ty = mod.parse_type(s)
        a = getter(ex, mod.parse_value(s, ty))
        s.expect(',')
        et = mod.parse_type(s)
        e = getter(ex, mod.parse_value(s, et))
        idx = []
        while s.accept(','):
            idx.append(int(s.next()))

        def ins(v, i, x):
            l = list(v)
            l[i[0]] = x if len(i) == 1 else ins(l[i[0]], i[1:], x)
            return tuple(l)

        def f(ex, st, fr):
            R = fr.regs
            R[dst] = ins(a(R), idx, e(R))
        return f
    if op == 'extractelement':
        ty = mod.parse_type(s)
        a = getter(ex, mod.parse_value(s, ty))
        s.expect(',')
        it = mod.parse_type(s)
        i = getter(ex, mod.parse_value(s, it))

        def f(ex, st, fr):
            R = fr.regs
            R[dst] = a(R)[i(R)]
        return f
    if op == 'insertelement':
        ty = mod.parse_type(s)
        a = getter(ex, mod.parse_value(s, ty))
        s.expect(',')
        et = mod.parse_type(s)
        e = getter(ex, mod.parse_value(s, et))
        s.expect(',')
        it = mod.parse_type(s)
        i = getter(ex, mod.parse_value(s, it))

        def f(ex, st, fr):
            R = fr.regs
            l = list(a(R))
            l[i(R)] = e(R)
            R[dst] = tuple(l)
        return f
    if op == 'shufflevector':
        ty = mod.parse_type(s)
        a = getter(ex, mod.parse_value(s, ty))
        s.expect(',')
        ty2 = mod.parse_type(s)
        b = getter(ex, mod.parse_value(s, ty2))
        s.expect(',')
        mt = mod.parse_type(s)
        m = ex.cval(mod.parse_value(s, mt))

        def f(ex, st, fr):
            R = fr.regs
            v = tuple(a(R)) + tuple(b(R))
            R[dst] = tuple(v[i] if isinstance(i, int) else UNDEF for i in m)
        return f
    if op == 'freeze':
        ty = mod.parse_type(s)
        a = getter(ex, mod.parse_value(s, ty))

        def f(ex, st, fr):
            R = fr.regs
            R[dst] = a(R)
        return f
    if op == 'resume':
        ty = mod.parse_type(s)
        a = getter(ex, mod.parse_value(s, ty))

        def f(ex, st, fr):
            v = a(fr.regs)
            addr = v[0]
            tname = st.exinfo[addr]
            top = st.frames.pop()
            for oid in top.allocas:
                st.mem.pop(oid, None)
            if not st.frames:
                ex.uncaught(st, tname)
            ex.unwind(st, addr, tname, top.inv)
            return True
        return f
    if op in ('call', 'invoke'):
        return compile_call(ex, fn, cf, lab, op, dst, s)
    if op == 'fence':
        return None
    if op in ('atomicrmw', 'cmpxchg'):
        return compile_atomic(ex, op, dst, s)
    if op == 'va_arg':
        raise Unsupported(op)
    text = op

    def f(ex, st, fr):
        raise Unsupported('instruction ' + text)
    return f


def compile_atomic(ex, op, dst, s):
    mod = ex.mod
    while s.peek() in FLAGS or s.peek() == 'weak':
        s.next()
    if op == 'atomicrmw':
        kind = s.next()
        pt = mod.parse_type(s)
        p = getter(ex, mod.parse_value(s, pt))
        s.expect(',')
        ty = mod.parse_type(s)
        v = getter(ex, mod.parse_value(s, ty))

        def f(ex, st, fr):
            R = fr.regs
            old = ex.load(st, ty, p(R))
            new = v(R) if kind == 'xchg' else ex.binop(kind, old, v(R), ty[1])
            ex.store(st, ty, new, p(R))
            R[dst] = old
        return f

    def f(ex, st, fr):
        raise Unsupported('cmpxchg')
    return f


def gep_slow(ex, b, c):
    if isinstance(b, SymPtr):
        return b.add(c)
    if b is UNDEF:
        if c == 0:
            return b
        ex.fail_hard(ex.cur, 'uninitialised pointer used')
    raise Unsupported('gep base %r' % (b,))


def compile_call(ex, fn, cf, lab, op, dst, s):
    mod = ex.mod
    skip_pre_attrs(s)
    rty = mod.parse_type(s)
    if rty[0] == 'func':
        rty = rty[1]
    t = s.next()
    callee = None
    cg = None
    if t == 'asm':
        def f(ex, st, fr):
            raise Unsupported('inline asm')
        return f
    if t[0] == '@':
        callee = unq(t)
    elif t[0] == '%':
        cg = itemgetter(unq(t))
    else:
        raise IRError('callee ' + t)
    s.expect('(')
    args = []
    while not s.accept(')'):
        if s.peek() == 'metadata':
            # debug intrinsics: drop
            d = 0
            while True:
                if s.peek() == ')' and d == 0:
                    break
                x = s.next()
                if x in '([{':
                    d += 1
                elif x in ')]}':
                    d -= 1
            continue
        aty = mod.parse_type(s)
        skip_param_attrs(s)
        args.append(getter(ex, mod.parse_value(s, aty)))
        s.accept(',')
    inv = None
    if op == 'invoke':
        while s.peek() != 'to':
            s.next()
        s.next()
        s.expect('label')
        l1 = unq(s.next())
        s.expect('unwind')
        s.expect('label')
        l2 = unq(s.next())
        inv = (l1, l2)
        cf.succ[lab] = [l1, l2]
    if callee is not None:
        callee = mod.aliases.get(callee, callee)
        if callee.startswith('llvm.dbg') or callee.startswith('llvm.lifetime') or \
                callee.startswith('llvm.experimental.noalias') or callee.startswith('llvm.invariant'):
            return None
        target = ex.resolve_call(callee)
        if target[0] == 'model':
            h = target[1]

            def f(ex, st, fr):
                R = fr.regs
                r = h(ex, st, [a(R) for a in args], callee)
                if r is THROWN:
                    return True
                if dst is not None:
                    R[dst] = r
                if inv is not None:
                    return ex.jump(st, fr, inv[0])
            # models that throw need to know the invoke targets
            if getattr(h, 'throws', False):
                def f(ex, st, fr):
                    R = fr.regs
                    r = h(ex, st, [a(R) for a in args], callee, inv)
                    if r is THROWN:
                        return True
                    if dst is not None:
                        R[dst] = r
                    if inv is not None:
                        return ex.jump(st, fr, inv[0])
            return f
        if target[0] == 'fn':
            tf = target[1]

            def f(ex, st, fr):
                R = fr.regs
                ex.call_function(st, tf, [a(R) for a in args], dst, inv)
                return True
            return f
        msg = 'call to external function without a contract: ' + callee

        def f(ex, st, fr):
            raise Unsupported(msg)
        return f

    def f(ex, st, fr):
        R = fr.regs
        p = cg(R)
        if not isinstance(p, int):
            if p is UNDEF:
                ex.fail_hard(st, 'call through an uninitialised pointer')
            raise Unsupported('call through %r' % (p,))
        name = ex.fname.get(p)
        if name is None:
            ex.fail_hard(st, 'memory safety: call through an invalid function pointer')
        target = ex.resolve_call(name)
        if target[0] == 'fn':
            ex.call_function(st, target[1], [a(R) for a in args], dst, inv)
            return True
        if target[0] == 'model':
            h = target[1]
            if getattr(h, 'throws', False):
                r = h(ex, st, [a(R) for a in args], name, inv)
            else:
                r = h(ex, st, [a(R) for a in args], name)
            if r is THROWN:
                return True
            if dst is not None:
                R[dst] = r
            if inv is not None:
                return ex.jump(st, fr, inv[0])
            return
        raise Unsupported('call to external function without a contract: ' + name)
    return f


class _Thrown:
    pass


THROWN = _Thrown()
