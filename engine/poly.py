"""Exact-real values: polynomials with rational coefficients over atoms.

An atom is either a fresh real constant (an input or a contract result) or an opaque real term (an
if-then-else, an array read, an uninterpreted application).  The normal form decides ring identities
by itself; everything else goes to an SMT solver."""
from fractions import Fraction
import z3


class Atoms:
    def __init__(self):
        self.z = []          # z3 term of the atom
        self.names = []
        self.by_id = {}      # z3 ast id -> atom
        self.keep = []
        self.by_key = {}

    def fresh(self, name):
        k = len(self.z)
        t = z3.Real('%s!%d' % (name, k))
        self.z.append(t)
        self.names.append(name)
        self.by_id[t.get_id()] = k
        return k

    def term(self, t, name='t'):
        i = t.get_id()
        k = self.by_id.get(i)
        if k is None:
            k = len(self.z)
            self.z.append(t)
            self.names.append(name)
            self.by_id[i] = k
        return k


ATOMS = Atoms()


def num(c):
    if type(c) is Fraction and c.denominator == 1:
        return int(c)
    return c


class Poly:
    __slots__ = ('d', '_z', '_h')

    def __init__(self, d):
        self.d = d
        self._z = None
        self._h = None

    @staticmethod
    def const(c):
        return Poly({(): c} if c != 0 else {})

    @staticmethod
    def atom(k):
        return Poly({(k,): 1})

    def is_const(self):
        d = self.d
        return not d or (len(d) == 1 and () in d)

    def cval(self):
        return self.d.get((), 0)

    def single_atom(self):
        if len(self.d) == 1:
            (m, c), = self.d.items()
            if len(m) == 1 and c == 1:
                return m[0]
        return None

    def __add__(self, o):
        a, b = self.d, o.d
        if not a:
            return o
        if not b:
            return self
        if len(a) < len(b):
            a, b = b, a
        r = dict(a)
        for m, c in b.items():
            x = r.get(m)
            if x is None:
                r[m] = c
            else:
                x = x + c
                if x == 0:
                    del r[m]
                else:
                    r[m] = num(x)
        return Poly(r)

    def neg(self):
        return Poly({m: -c for m, c in self.d.items()})

    def __sub__(self, o):
        if not o.d:
            return self
        r = dict(self.d)
        for m, c in o.d.items():
            x = r.get(m)
            if x is None:
                r[m] = -c
            else:
                x = x - c
                if x == 0:
                    del r[m]
                else:
                    r[m] = num(x)
        return Poly(r)

    def scale(self, k):
        if k == 0:
            return ZERO
        if k == 1:
            return self
        return Poly({m: num(c * k) for m, c in self.d.items()})

    def __mul__(self, o):
        a, b = self.d, o.d
        if not a or not b:
            return ZERO
        if len(b) == 1 and () in b:
            return self.scale(b[()])
        if len(a) == 1 and () in a:
            return o.scale(a[()])
        r = {}
        for m1, c1 in a.items():
            for m2, c2 in b.items():
                m = tuple(sorted(m1 + m2)) if m1 and m2 else (m1 or m2)
                x = r.get(m)
                c = c1 * c2
                r[m] = c if x is None else x + c
        return Poly({m: num(c) for m, c in r.items() if c != 0})

    def key(self):
        if self._h is None:
            self._h = frozenset(self.d.items())
        return self._h

    def z(self):
        if self._z is None:
            ts = []
            for m, c in sorted(self.d.items(), key=lambda kv: kv[0]):
                f = [ATOMS.z[k] for k in m]
                if not f:
                    ts.append(zc(c))
                    continue
                if c != 1:
                    f = [zc(c)] + f
                ts.append(f[0] if len(f) == 1 else z3.Product(f))
            self._z = zc(0) if not ts else (ts[0] if len(ts) == 1 else z3.Sum(ts))
        return self._z

    def atoms(self):
        s = set()
        for m in self.d:
            s.update(m)
        return s

    def __repr__(self):
        if not self.d:
            return '0'
        return ' + '.join('%s%s' % ('' if (c == 1 and m) else c, ''.join('*%s#%d' % (ATOMS.names[k], k) for k in m))
                          for m, c in sorted(self.d.items(), key=lambda kv: kv[0]))


def zc(c):
    if isinstance(c, Fraction):
        return z3.RealVal('%d/%d' % (c.numerator, c.denominator))
    return z3.RealVal(int(c))


ZERO = Poly({})
ONE = Poly({(): 1})


def mono_div(m, lm):
    """m / lm as sorted tuple or None"""
    if len(lm) > len(m):
        return None
    r = []
    j = 0
    n = len(lm)
    for k in m:
        if j < n and lm[j] == k:
            j += 1
        else:
            r.append(k)
    return tuple(r) if j == n else None


def reduce(p, rules, limit=200000):
    """rewrite p modulo rules: list of (leading monomial, replacement Poly)."""
    if not rules:
        return p
    idx = {}
    for lm, rep in rules:
        idx.setdefault(lm[0], []).append((lm, rep))
    work = dict(p.d)
    out = {}
    steps = 0
    while work:
        m, c = work.popitem()
        hit = None
        for k in dict.fromkeys(m):
            for lm, rep in idx.get(k, ()):
                q = mono_div(m, lm)
                if q is not None:
                    hit = (q, rep)
                    break
            if hit:
                break
        if hit is None:
            x = out.get(m, 0) + c
            if x == 0:
                out.pop(m, None)
            else:
                out[m] = x
            continue
        steps += 1
        if steps > limit:
            return p
        q, rep = hit
        for m2, c2 in rep.d.items():
            mm = tuple(sorted(q + m2))
            x = work.get(mm, 0) + c * c2
            if x == 0:
                work.pop(mm, None)
            else:
                work[mm] = x
    return Poly({m: num(c) for m, c in out.items()})


def from_z3(t):
    """wrap a z3 real term as a Poly atom"""
    if z3.is_rational_value(t):
        f = Fraction(t.numerator_as_long(), t.denominator_as_long())
        return Poly.const(num(f))
    return Poly.atom(ATOMS.term(t))
