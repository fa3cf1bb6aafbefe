"""The loop rule.  A contract registers an invariant for the loop of a function (vp_invariant); when
that loop is entered the engine
  * checks the invariant for iteration 0 (base),
  * havocs everything one iteration can modify (found by executing an iteration, closed under
    re-execution from the havocked state, and re-validated at every back edge), keeping only values that
    advance by a constant per iteration,
  * assumes the invariant for an arbitrary iteration k and goes on: paths that leave the loop continue
    after it, paths that come back must establish the invariant for k + 1 and end there.
Termination is not proved."""
import re
import time
import z3
from symexec import (Unsupported, PathEnd, Budget, SymPtr, SEG, SEGMASK, BIAS, Poly, is_sym, tobv, Result, Composite, UNDEF)
from poly import ATOMS, from_z3


class LoopBack(Exception):
    pass


class Cut:
    __slots__ = ('h', 'body', 'depth', 'mods', 'k', 'fn', 'ctx', 'mode', 'found', 'base')


def natural_loops(cf):
    if cf.loops is not None:
        return cf.loops
    succ = cf.succ
    order, seen = [], set()
    stack = [(cf.entry, iter(succ.get(cf.entry, [])))]
    seen.add(cf.entry)
    while stack:
        n, it = stack[-1]
        for m in it:
            if m not in seen:
                seen.add(m)
                stack.append((m, iter(succ.get(m, []))))
                break
        else:
            order.append(n)
            stack.pop()
    order.reverse()
    pred = {n: [] for n in order}
    for n in order:
        for m in succ.get(n, []):
            pred[m].append(n)
    dom = {n: set(order) for n in order}
    dom[cf.entry] = {cf.entry}
    ch = True
    while ch:
        ch = False
        for n in order:
            if n == cf.entry:
                continue
            ps = [dom[p] for p in pred[n]]
            d = set.intersection(*ps) | {n} if ps else {n}
            if d != dom[n]:
                dom[n] = d
                ch = True
    loops = {}
    for n in order:
        for h in succ.get(n, []):
            if h in dom[n]:
                body = loops.setdefault(h, {h})
                work = [n]
                while work:
                    x = work.pop()
                    if x not in body:
                        body.add(x)
                        work += pred[x]
    cf.loops = loops
    return loops


def same(a, b):
    if a is b:
        return True
    if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
        return a.eq(b)
    if isinstance(a, SymPtr) and isinstance(b, SymPtr):
        return a.oid == b.oid and a.off == b.off and len(a.terms) == len(b.terms) and all(
            x[1] == y[1] and x[0].eq(y[0]) for x, y in zip(a.terms, b.terms))
    if isinstance(a, Poly) and isinstance(b, Poly):
        return not (a - b).d
    if isinstance(a, Composite) and isinstance(b, Composite):
        return len(a.pieces) == len(b.pieces) and all(x[0] == y[0] and same(x[1], y[1]) for x, y in
                                                       zip(a.pieces, b.pieces))
    if type(a) is type(b) and not isinstance(a, (z3.ExprRef, SymPtr, Poly, Composite)):
        return a == b
    return False


def ptr_like(ex, st, v):
    if isinstance(v, SymPtr):
        return True
    return isinstance(v, int) and v > (1 << SEG) and (v >> SEG) in st.mem


def ptr_split(v):
    if isinstance(v, SymPtr):
        return v.oid, v.off, v.terms
    return v >> SEG, (v & SEGMASK) - BIAS, []


def delta_of(ex, st, v0, v1, w):
    """constant difference v1 - v0 or None; w: width in bits"""
    if ptr_like(ex, st, v0) and ptr_like(ex, st, v1):
        o0, a0, t0 = ptr_split(v0)
        o1, a1, t1 = ptr_split(v1)
        if o0 != o1:
            return None
        d = z3.simplify(SymPtr(o1, a1, t1).offset() - SymPtr(o0, a0, t0).offset())
        return ('p', d.as_signed_long()) if z3.is_bv_value(d) else None
    ok = lambda v: isinstance(v, (int, z3.BitVecRef)) and not isinstance(v, bool)
    if ok(v0) and ok(v1):
        d = z3.simplify(tobv(v1, w) - tobv(v0, w))
        return ('i', d.as_long()) if z3.is_bv_value(d) else None
    return None


def advance(ex, v0, delta, k, w):
    kind, d = delta
    if kind == 'p':
        o, a, t = ptr_split(v0)
        return SymPtr(o, a, list(t) + [(k, d)])
    kk = z3.Extract(w - 1, 0, k) if w < 64 else k
    return z3.simplify(tobv(v0, w) + z3.BitVecVal(d, w) * kk)


FRESH = [0]


def fresh_like(ex, st, v, w, key):
    FRESH[0] += 1
    n = 'havoc_%d' % FRESH[0]
    if isinstance(v, Poly):
        return Poly.atom(ATOMS.fresh(n))
    if isinstance(v, z3.BoolRef):
        return z3.Bool(n)
    if ptr_like(ex, st, v):
        o = st.mem.get(key[1]) if key[0] == 'cell' else None
        if o is not None and o.kind == 'stack' and (key[2] not in o.cells or o.cells[key[2]][1] is UNDEF):
            return UNDEF  # a temporary of the iteration: not initialised when the loop is entered
        raise Unsupported('loop modifies a pointer %r %r' % (v, key))
    if isinstance(v, (int, z3.BitVecRef)):
        return z3.BitVec(n, w)
    if isinstance(v, Composite) or v is UNDEF:
        return UNDEF
    raise Unsupported('havoc of %r' % (v,))


def diff_states(ex, S0, S1, depth, h):
    """modified places of S1 with respect to S0: list of (key, v0, v1, width)"""
    out = []
    for oid, o1 in S1.mem.items():
        o0 = S0.mem.get(oid)
        if o0 is None:
            if o1.kind == 'stack':
                continue  # dead allocas of the iteration
            if oid < (1 << 20):
                continue  # a global that was materialised
            raise Unsupported('loop leaves allocated memory behind')
        if o0 is o1:
            continue
        if o1.arr is not None:
            if not o1.arr.eq(o0.arr):
                out.append((('arr', oid), o0.arr, o1.arr, 0))
            continue
        offs = set(o0.cells) | set(o1.cells)
        for off in sorted(offs):
            c0, c1 = o0.cells.get(off), o1.cells.get(off)
            if c1 is None:
                raise Unsupported('loop changes the layout of a cell')
            n = c1[0]
            v0 = c0[1] if c0 is not None and c0[0] == n else ex.read_raw(o0, off, n) if c0 is None or c0[0] != n else c0[1]
            if c0 is None or c0[0] != n or not same(v0, c1[1]):
                out.append((('cell', oid, off, n), v0, c1[1], 8 * n))
    for oid in S0.mem:
        if oid not in S1.mem and S0.mem[oid].kind != 'global':
            raise Unsupported('loop frees memory allocated before it: %s %s' % (S0.mem[oid].kind, getattr(S0.mem[oid], 'name', '')))
    f0, f1 = S0.frames[depth], S1.frames[depth]
    for dst, g in f0.cf.phis[h]:
        v0, v1 = f0.regs.get(dst), f1.regs.get(dst)
        if not same(v0, v1):
            w = 64 if ptr_like(ex, S1, v1) else v1.size() if isinstance(v1, z3.BitVecRef) else (
                v0.size() if isinstance(v0, z3.BitVecRef) else phi_width(f0, dst, h))
            out.append((('reg', dst), v0, v1, w))
    for d in range(depth):
        pass
    return out


def phi_width(fr, dst, h):
    for s in fr.fn.blocks[h]:
        m = re.match(r'\s*%?"?([^ ="]+)"?\s*=\s*phi i(\d+)', s)
        if m and m.group(1) == dst.lstrip('%').strip('"'):
            return int(m.group(2))
    return 64


def discover(ex, S, cut):
    """states at the back edges after one iteration from S (obligations are not recorded)"""
    saved = ex.res, ex.work, ex.cur, ex.deadline
    ex.res = Result()
    found = []
    ex.disc = (cut.h, cut.body, cut.depth, found)
    ex.deadline = min(saved[3], time.time() + 60)
    try:
        ex.work = [S.clone()]
        n = 0
        while ex.work:
            s = ex.work.pop()
            n += 1
            if n > 200:
                raise Unsupported('too many paths through the loop body')
            ex.cur = s
            try:
                ex.loop(s)
            except (PathEnd, LoopBack):
                pass
    finally:
        fns = ex.res.functions
        ex.res, ex.work, ex.cur, ex.deadline = saved
        ex.res.functions |= fns
        ex.disc = None
    return found


def trip_symbolic(ex, st, fr, h):
    """does the number of iterations of the loop at header h depend on the (symbolic) state?  Then one of the
    first iterations can both be the last one and be followed by another; loops over ranges of fixed length cannot"""
    cut = Cut()
    cut.h, cut.depth = h, len(st.frames) - 1
    cut.body = natural_loops(fr.cf)[h]
    S = st
    for i in range(4):
        ex.disc_exits = 0
        try:
            found = discover(ex, S, cut)
        except (Unsupported, Budget):
            return False
        if not found:
            return False
        if ex.disc_exits:
            return True
        S = found[0]
    return False


def havoc(ex, S0, mods, k):
    S = S0.clone()
    for key, (delta, sample, w) in mods.items():
        if key[0] == 'arr':
            o = ex.wobj(S, S.mem[key[1]])
            FRESH[0] += 1
            o.arr = z3.Const('havoc_arr_%d' % FRESH[0], o.arr.sort())
        elif key[0] == 'cell':
            _, oid, off, n = key
            o = ex.wobj(S, S.mem[oid])
            if delta is not None:
                v = advance(ex, sample, delta, k, w)
            else:
                v = fresh_like(ex, S, sample, w, key)
            if v is UNDEF:
                ex.clear(o, off, n)
            else:
                ex.write_cell(o, off, n, v)
        else:
            fr = S.frames[-1]
            fr.regs[key[1]] = advance(ex, sample, delta, k, w) if delta is not None else fresh_like(ex, S, sample, w, key)
    return S


def enter(ex, st, fr, h, inv):
    """called after the jump to the loop header h of fr (top frame)"""
    regex, fn, ctx = inv
    cut = Cut()
    cut.h, cut.depth = h, len(st.frames) - 1
    cut.body = natural_loops(fr.cf)[h]
    cut.fn, cut.ctx = fn, ctx
    FRESH[0] += 1
    k = z3.BitVec('iteration_%d' % FRESH[0], 64)
    cut.k = k
    cut.base = S0 = st.clone()
    mods = {}
    S = S0
    for rnd in range(8):
        changed = False
        for S1 in discover(ex, S, cut):
            for key, v0, v1, w in diff_states(ex, S, S1, cut.depth, h):
                if key not in mods:
                    if rnd == 0 and key[0] != 'arr':
                        d = delta_of(ex, S0, v0, v1, w)
                        mods[key] = (d, v0, w) if d is not None else (None, v1, w)
                    else:
                        mods[key] = (None, v1, w)
                    changed = True
                else:
                    d, sample, w0 = mods[key]
                    if d is not None:
                        d1 = delta_of(ex, S, v0, v1, w)
                        if d1 != d:
                            mods[key] = (None, v1, w)
                            changed = True
        if not changed and rnd > 0:
            break
        S = havoc(ex, S0, mods, k)
        S.pc.append(z3.ULT(k, z3.BitVecVal(1 << 62, 64)))
    else:
        raise Unsupported('loop modifications do not stabilise')
    cut.mods = mods
    # base case
    Sb = S0.clone()
    callback(ex, Sb, cut, z3.BitVecVal(0, 64), 'check')
    ex.work.append(Sb)
    # arbitrary iteration
    G = havoc(ex, S0, mods, k)
    G.pc.append(z3.ULT(k, z3.BitVecVal(1 << 62, 64)))
    g = G.frames[-1]
    g.heads = dict(g.heads or {})
    g.heads[h] = cut
    G.ghost['loops_cut'] = list(G.ghost.get('loops_cut', [])) + [demangled(ex, fr.fn.name)]
    callback(ex, G, cut, k, 'assume')
    ex.work.append(G)
    cut.base = G.clone()
    ex.res.loops.append(demangled(ex, fr.fn.name)[:160])
    raise PathEnd()


def callback(ex, st, cut, k, mode):
    st.ghost['inv_mode'] = mode
    st.ghost['inv_cut'] = cut
    k = z3.simplify(k)
    name = ex.fname[cut.fn]
    ex.call_function(st, ex.mod.funcs[name], [cut.ctx, k.as_long() if z3.is_bv_value(k) else k], None, None)
    st.frames[-1].heads = {'__end__': mode}


def back(ex, st, fr, cut):
    """back edge of a loop that was cut"""
    S0 = cut.base
    for key, v0, v1, w in diff_states(ex, S0, st, cut.depth, cut.h):
        m = cut.mods.get(key)
        if m is None:
            raise Unsupported('loop modifies more than was found: %r' % (key,))
        d, sample, w0 = m
        if d is not None and delta_of(ex, S0, v0, v1, w) != d:
            raise Unsupported('loop variable does not advance uniformly')
    callback(ex, st, cut, cut.k + 1, 'check')


NAMES = {}


def demangled(ex, n):
    r = NAMES.get(n)
    if r is None:
        from symexec import demangle
        r = NAMES[n] = demangle(n)
    return r


def loop_real(ex, st, i, n):
    """value of the i-th of exactly n real variables carried by the loop whose invariant is evaluated"""
    cut = st.ghost['inv_cut']
    keys = [k for k, (d, sample, w) in cut.mods.items() if isinstance(sample, Poly)]
    if len(keys) != n:
        raise Unsupported('the loop carries %d real variables, the invariant speaks of %d' % (len(keys), n))
    key = keys[i]
    if key[0] == 'reg':
        return st.frames[cut.depth].regs[key[1]]
    return st.mem[key[1]].cells[key[2]][1]


def loop_scalar(ex, st, i):
    """value of the i-th real variable that the loop carries in a register"""
    cut = st.ghost['inv_cut']
    keys = [k for k, (d, sample, w) in cut.mods.items() if isinstance(sample, Poly) and k[0] == 'reg']
    if i >= len(keys):
        raise Unsupported('the loop carries %d real variables in registers' % len(keys))
    return st.frames[cut.depth].regs[keys[i][1]]
